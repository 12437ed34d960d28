// Closed world for model checking the containers: a fixed-address arena that holds the containers under test, all the
// memory they allocate, the reference model and the object registry.  The whole world can be saved, restored and hashed.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <new>
#include <string>
#include <utility>
#include <tuple>
#include <vector>
#include <sys/mman.h>
#include <unistd.h>

namespace mc
{
	struct Op { std::uint8_t code = 0, c = 0, a = 0, b = 0, f = 0, x = 0, d = 0, pad = 0; };

	// ---------------------------------------------------------------- shared with the parent process
	struct Shm
	{
		volatile std::uint64_t progress;
		volatile std::uint32_t status; // 0 running, 1 done, 2 violation, 3 harness error
		char msg[1500];
		volatile std::uint64_t states, transitions, programs, faults, validated, verified, distinct;
		volatile std::uint32_t fixpoint, depth, capped;
		volatile std::uint64_t obs_hash; // hash of the observations (for the build-agreement check)
		volatile std::uint64_t cur_state; // BFS: parent state of the transition in flight
		Op cur_op;
		volatile std::uint32_t in_flight; // 0 none, 1 BFS transition, 2 program
		volatile std::uint32_t prog_n;
		Op prog[600];
		char sample[3][900];
		volatile std::uint32_t nsamples;
		volatile std::uint32_t max_elems, max_buckets;
	};
	inline Shm *shm = nullptr;
	struct StateRec { std::uint32_t parent; Op op; };
	inline StateRec *recs = nullptr; // shared, lazily touched
	constexpr std::size_t MAX_RECS = 24u << 20;

	[[noreturn]] inline void stop(std::uint32_t st, const char *fmt, va_list ap)
	{
		char buf[1500];
		vsnprintf(buf, sizeof buf, fmt, ap);
		if (shm)
		{
			memcpy(shm->msg, buf, sizeof buf);
			shm->status = st;
		}
		else
			fprintf(stderr, "%s\n", buf);
		_exit(st == 2 ? 42 : 43);
	}
	[[noreturn]] __attribute__((format(printf, 1, 2))) inline void fail(const char *fmt, ...)
	{
		va_list ap;
		va_start(ap, fmt);
		stop(2, fmt, ap);
	}
	[[noreturn]] __attribute__((format(printf, 1, 2))) inline void harness_error(const char *fmt, ...)
	{
		va_list ap;
		va_start(ap, fmt);
		stop(3, fmt, ap);
	}
#define MC_CHECK(cnd, ...) do { if (!(cnd)) ::mc::fail(__VA_ARGS__); } while (false)

	// ---------------------------------------------------------------- world
	constexpr int MAXK = 160;   // key universe: 0..MAXK-1
	constexpr std::size_t HEAP_MAX = 1u << 18;
	constexpr int NSLOT = 3;
	constexpr std::size_t SLOT_BYTES = 192;

	struct Ent
	{
		std::int16_t k = 0, v = 0;
		std::int16_t k1 = 0, k2 = 0; // further keys (multi-key containers)
		std::uint64_t addr = 0; // address of the element (stable containers)
	};
	struct Model
	{
		std::uint32_t n, live; // live: the slot holds a constructed container
		std::uint32_t tag;     // allocator identity expected
		std::uint32_t htag;    // hash/compare functor identity expected
		std::uint32_t mlf;     // index of the maximum load factor expected (dense)
		std::uint32_t maxn;    // most elements ever held by this container, since it was made
	};
	constexpr std::uint32_t ALIVE = 0xA11FEu, DEADM = 0xDEADDu, MOVED = 0x30FEDu;

#ifdef WIDE
	constexpr std::size_t WALIGN = 32; // keys are over-aligned
#else
	constexpr std::size_t WALIGN = 16;
#endif
	struct alignas(WALIGN) Blk
	{
		std::uint32_t size;  // payload bytes incl. trailing canary
		std::uint16_t live, owner;
		std::uint32_t count, esz;
	};
	constexpr std::uint64_t CANARY = 0xC0FFEE11C0FFEE11ull;

	struct Head
	{
		std::uint32_t heap_top;
		std::uint32_t heap_keys, heap_vals; // tracked objects alive inside the heap
		std::int32_t stack_objs;            // tracked objects alive elsewhere
		std::uint32_t blocks;
		std::uint32_t pad;
		Model m[NSLOT];
		alignas(32) std::uint8_t slot[NSLOT][SLOT_BYTES];
		alignas(32) std::uint8_t nh[64];    // node handle
		std::uint32_t nh_live, nh_k, nh_v, nh_tag;
		std::uint64_t nh_addr;
	};

	constexpr std::uintptr_t BASE = 0x200000000000ull;
	// Layout: [Head][ents slot0..2][alive bitmap][heap]; ents and bitmap are saved only up to their used part.
	constexpr int MAXN = 160;
	struct Fixed
	{
		Head h;
		Ent e[NSLOT][MAXN];
		std::uint64_t alive[HEAP_MAX / 16 / 64]; // one bit per 16-byte granule start... tracked objects are 16-byte sized, 8-aligned: see bit()
		std::uint64_t alive2[HEAP_MAX / 16 / 64];
	};
	inline Fixed *W = nullptr;
	inline std::uint8_t *heap = nullptr;

	// not part of the state
	inline std::size_t g_hash[MAXK];
	inline int g_fault = 0;      // armed countdown, 0: off
	inline bool g_fault_hit = false;
	inline std::uint64_t g_fault_points = 0;
	inline std::uint64_t g_hash_calls = 0, g_eq_calls = 0, g_allocs = 0, g_copies = 0, g_moves = 0, g_op_copies = 0;
	inline bool g_noalloc = false;   // an allocation now is a violation
	inline const char *g_noalloc_why = "";
	inline std::uint64_t g_work = 0, g_work_limit = 0; // compare/hash calls allowed inside one operation

	struct Injected {};
	inline void fault_point()
	{
		if (g_fault > 0)
		{
			++g_fault_points;
			if (--g_fault == 0)
			{
				g_fault_hit = true;
				throw Injected{};
			}
		}
	}

	inline void world_init()
	{
		const std::size_t total = sizeof(Fixed) + HEAP_MAX + 65536;
		void *p = mmap(reinterpret_cast<void *>(BASE), total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
		if (p != reinterpret_cast<void *>(BASE)) harness_error("cannot map the arena");
		W = static_cast<Fixed *>(p);
		heap = reinterpret_cast<std::uint8_t *>(BASE + ((sizeof(Fixed) + 4095) & ~std::size_t(4095)));
	}
	inline bool in_heap(const void *p) { return p >= heap && p < heap + HEAP_MAX; }

	// ---------------------------------------------------------------- allocator
	inline std::size_t payload(std::size_t n, std::size_t esz) { return ((n * esz + WALIGN - 1) & ~(WALIGN - 1)) + WALIGN; }
	inline Blk *blk_at(std::size_t off) { return reinterpret_cast<Blk *>(heap + off); }
	inline void set_canary(Blk *b) { auto *c = reinterpret_cast<std::uint64_t *>(reinterpret_cast<std::uint8_t *>(b + 1) + b->size - 16); c[0] = c[1] = CANARY; }
	inline bool canary_ok(const Blk *b)
	{
		auto *used = reinterpret_cast<const std::uint8_t *>(b + 1);
		auto *c = reinterpret_cast<const std::uint64_t *>(used + b->size - 16);
		if (c[0] != CANARY || c[1] != CANARY) return false;
		for (std::size_t i = std::size_t(b->count) * b->esz; i < b->size - 16; ++i)
			if (used[i]) return false;
		return true;
	}
	// Large tables are kept outside the arena: every block has a header and a canary, and blocks are counted.
	inline bool g_big = false;
	inline int g_big_blocks = 0;
	struct alignas(WALIGN) BigBlk { std::uint64_t magic, count, esz, owner; };
	constexpr std::uint64_t BIG_LIVE = 0xB16A11FEB16A11FEull, BIG_DEAD = 0xB16DEADDB16DEADDull;
	inline void *big_alloc(std::size_t n, std::size_t esz, unsigned owner)
	{
		if (n > (std::size_t(1) << 34) / esz) throw std::bad_alloc{};
		auto *b = static_cast<BigBlk *>(std::aligned_alloc(WALIGN, (sizeof(BigBlk) + n * esz + 8 + WALIGN - 1) & ~(WALIGN - 1)));
		if (!b) throw std::bad_alloc{};
		*b = {BIG_LIVE, n, esz, owner};
		memset(static_cast<void *>(b + 1), 0, n * esz);
		memcpy(reinterpret_cast<std::uint8_t *>(b + 1) + n * esz, &CANARY, 8);
		++g_big_blocks;
		return b + 1;
	}
	inline void big_free(void *p, std::size_t n, std::size_t esz, unsigned owner)
	{
		MC_CHECK(p != nullptr, "deallocate was called with a null pointer (n=%zu)", n);
		auto *b = static_cast<BigBlk *>(p) - 1;
		MC_CHECK(b->magic != BIG_DEAD, "double deallocation");
		MC_CHECK(b->magic == BIG_LIVE, "deallocate of a pointer that is not the start of an allocation");
		MC_CHECK(b->esz == esz && b->count == n, "deallocate(%zu x %zu bytes) does not match allocate(%zu x %zu bytes)", n, esz, std::size_t(b->count), std::size_t(b->esz));
		MC_CHECK(b->owner == owner, "memory obtained from allocator #%u was returned to allocator #%u", unsigned(b->owner), owner);
		MC_CHECK(memcmp(static_cast<std::uint8_t *>(p) + n * esz, &CANARY, 8) == 0, "heap buffer overflow detected at deallocation");
		b->magic = BIG_DEAD;
		--g_big_blocks;
		std::free(b);
	}
	inline void *arena_alloc(std::size_t n, std::size_t esz, unsigned owner)
	{
		if (g_big) return big_alloc(n, esz, owner);
		MC_CHECK(!g_noalloc, "memory was requested where none may be: %s", g_noalloc_why);
		fault_point();
		++g_allocs;
		if (n > HEAP_MAX / esz) throw std::bad_alloc{};
		const std::size_t need = payload(n, esz);
		std::size_t off = 0;
		Blk *b = nullptr;
		while (off < W->h.heap_top)
		{
			b = blk_at(off);
			if (!b->live && b->size >= need) break;
			off += sizeof(Blk) + b->size;
			b = nullptr;
		}
		if (!b)
		{
			if (W->h.heap_top + sizeof(Blk) + need > HEAP_MAX) throw std::bad_alloc{};
			b = blk_at(W->h.heap_top);
			b->size = static_cast<std::uint32_t>(need);
			W->h.heap_top += static_cast<std::uint32_t>(sizeof(Blk) + need);
		}
		else if (b->size >= need + sizeof(Blk) + 32)
		{
			auto *r = reinterpret_cast<Blk *>(reinterpret_cast<std::uint8_t *>(b + 1) + need);
			r->size = static_cast<std::uint32_t>(b->size - need - sizeof(Blk));
			b->size = static_cast<std::uint32_t>(need);
		}
		b->live = 1;
		b->owner = static_cast<std::uint16_t>(owner);
		b->count = static_cast<std::uint32_t>(n);
		b->esz = static_cast<std::uint32_t>(esz);
		set_canary(b);
		++W->h.blocks;
		return b + 1;
	}
	inline bool any_alive(const std::uint8_t *p, std::size_t n)
	{
		const std::size_t o = static_cast<std::size_t>(p - heap) / 8;
		for (std::size_t i = o; i < o + n / 8; ++i)
		{
			const auto &w = (i & 1) ? W->alive2 : W->alive;
			if (w[i / 128] >> ((i / 2) % 64) & 1) return true;
		}
		return false;
	}
	inline void arena_free(void *p, std::size_t n, std::size_t esz, unsigned owner)
	{
		if (g_big) return big_free(p, n, esz, owner);
		MC_CHECK(p != nullptr, "deallocate was called with a null pointer (n=%zu)", n);
		MC_CHECK(in_heap(p) && p >= heap + sizeof(Blk), "deallocate of a pointer that was never allocated");
		auto *b = static_cast<Blk *>(p) - 1;
		// must be a real block
		std::size_t off = 0;
		Blk *prev = nullptr;
		while (off < W->h.heap_top && blk_at(off) != b)
		{
			prev = blk_at(off);
			off += sizeof(Blk) + prev->size;
		}
		MC_CHECK(off < W->h.heap_top, "deallocate of a pointer that is not the start of an allocation");
		MC_CHECK(b->live, "double deallocation");
		MC_CHECK(b->esz == esz && b->count == n, "deallocate(%zu x %zu bytes) does not match allocate(%u x %u bytes)", n, esz, b->count, b->esz);
		MC_CHECK(b->owner == owner, "memory obtained from allocator #%u was returned to allocator #%u", b->owner, owner);
		MC_CHECK(canary_ok(b), "heap buffer overflow detected at deallocation");
		MC_CHECK(!any_alive(static_cast<std::uint8_t *>(p), b->size), "memory was deallocated while objects inside it are still alive");
		--W->h.blocks;
		b->live = 0;
		b->owner = 0;
		b->count = b->esz = 0;
		memset(b + 1, 0, b->size);
		// coalesce
		std::size_t nxt = off + sizeof(Blk) + b->size;
		if (nxt < W->h.heap_top && !blk_at(nxt)->live)
		{
			auto *q = blk_at(nxt);
			b->size += static_cast<std::uint32_t>(sizeof(Blk) + q->size);
			memset(static_cast<void *>(q), 0, sizeof *q);
		}
		if (prev && !prev->live)
		{
			prev->size += static_cast<std::uint32_t>(sizeof(Blk) + b->size);
			memset(static_cast<void *>(b), 0, sizeof *b);
			b = prev;
			off = static_cast<std::size_t>(reinterpret_cast<std::uint8_t *>(b) - heap);
		}
		if (off + sizeof(Blk) + b->size == W->h.heap_top)
		{
			W->h.heap_top = static_cast<std::uint32_t>(off);
			memset(static_cast<void *>(b), 0, sizeof *b);
		}
	}
	inline void check_heap()
	{
		for (std::size_t off = 0; off < W->h.heap_top;)
		{
			auto *b = blk_at(off);
			if (b->live) MC_CHECK(canary_ok(b), "heap buffer overflow (block of %u x %u bytes)", b->count, b->esz);
			off += sizeof(Blk) + b->size;
		}
	}

	struct TK { int id; }; // heterogeneous key
	struct KeySrc : TK // one that knows whether a key was constructed from it as an rvalue
	{
		bool taken = false;
		explicit KeySrc(int i) : TK{i} {}
		int take()
		{
			MC_CHECK(!taken, "a key was constructed from an argument that was moved from");
			taken = true;
			return id;
		}
		int look() const
		{
			MC_CHECK(!taken, "a key was constructed from an argument that was moved from");
			return id;
		}
	};

	// ---------------------------------------------------------------- tracked element types
	inline void mark(const void *p, bool on, bool key)
	{
		if (in_heap(p))
		{
			const std::size_t i = static_cast<std::size_t>(static_cast<const std::uint8_t *>(p) - heap) / 8;
			auto &w = ((i & 1) ? W->alive2 : W->alive)[i / 128];
			const std::uint64_t bit = 1ull << ((i / 2) % 64);
			if (on)
			{
				MC_CHECK(!(w & bit), "an object was constructed over one that is still alive");
				w |= bit;
			}
			else
			{
				MC_CHECK(w & bit, "an object was destroyed that is not alive");
				w &= ~bit;
			}
			(key ? W->h.heap_keys : W->h.heap_vals) += on ? 1u : ~0u;
		}
		else
			W->h.stack_objs += on ? 1 : -1;
	}
#ifdef WIDE
	template<bool Key>
	struct alignas(Key ? 32 : 8) Tracked
#else
	template<bool Key>
	struct Tracked
#endif
	{
		std::uint32_t magic;
		std::int32_t id;
		const Tracked *self;
#ifdef WIDE
		std::uint64_t pad[Key ? 7 : 1]; // elements of 96 and 24 bytes
		void wide() { for (auto &w : pad) w = 0x6A09E667F3BCC908ull + static_cast<std::uint64_t>(id) * 0x9E3779B97F4A7C15ull; }
		void wide_check(const char *what) const
		{
			for (auto &w : pad) MC_CHECK(w == 0x6A09E667F3BCC908ull + static_cast<std::uint64_t>(id) * 0x9E3779B97F4A7C15ull, "%s of a %s whose representation is damaged", what, Key ? "key" : "mapped value");
		}
#else
		void wide() {}
		void wide_check(const char *) const {}
#endif

		void born(int i)
		{
			MC_CHECK(reinterpret_cast<std::uintptr_t>(this) % alignof(Tracked) == 0, "a %s was constructed in misaligned memory", Key ? "key" : "mapped value");
			magic = ALIVE;
			id = i;
			self = this;
			wide();
			mark(this, true, Key);
		}
		void check(const char *what) const
		{
			MC_CHECK(magic != DEADM, "%s of a %s that was already destroyed", what, Key ? "key" : "mapped value");
			MC_CHECK(magic == ALIVE || magic == MOVED, "%s of memory that holds no %s", what, Key ? "key" : "mapped value");
			MC_CHECK(self == this, "%s of a %s that was copied as raw bytes", what, Key ? "key" : "mapped value");
			if (in_heap(this))
			{
				const std::size_t i = static_cast<std::size_t>(reinterpret_cast<const std::uint8_t *>(this) - heap) / 8;
				MC_CHECK(((i & 1) ? W->alive2 : W->alive)[i / 128] >> ((i / 2) % 64) & 1, "%s of a %s outside its lifetime", what, Key ? "key" : "mapped value");
			}
		}
		int get(const char *what = "use") const
		{
			check(what);
			MC_CHECK(magic == ALIVE, "%s of a %s that was moved from", what, Key ? "key" : "mapped value");
			wide_check(what);
			return id;
		}
		bool moved() const { return magic == MOVED; }

		Tracked() { if constexpr (!Key) fault_point(); born(0); }
		explicit Tracked(int i) { fault_point(); born(i); }
		explicit Tracked(const TK &k) : Tracked(k.id) {}
		explicit Tracked(const KeySrc &k) : Tracked(k.look()) {}
		explicit Tracked(KeySrc &&k) : Tracked(k.id) { k.take(); }
		Tracked(const Tracked &o)
		{
			const int i = o.get("copy");
			fault_point();
			++g_copies;
			born(i);
		}
#ifdef TMOVE
		Tracked(Tracked &&o)
		{
			const int i = o.get("move");
			fault_point();
#else
		Tracked(Tracked &&o) noexcept
		{
			const int i = o.get("move");
#endif
			++g_moves;
			o.magic = MOVED;
			o.id = -1;
			born(i);
		}
		Tracked &operator=(const Tracked &o)
		{
			check("assignment");
			const int i = o.get("copy");
			fault_point();
			magic = ALIVE;
			id = i;
			wide();
			return *this;
		}
		Tracked &operator=(Tracked &&o) noexcept
		{
			check("assignment");
			if (this != &o)
			{
				const int i = o.get("move");
				o.magic = MOVED;
				o.id = -1;
				magic = ALIVE;
				id = i;
				wide();
			}
			return *this;
		}
		~Tracked()
		{
			check("destruction");
			magic = DEADM;
			id = 0;
			self = nullptr;
			mark(this, false, Key);
			if (in_heap(this)) memset(static_cast<void *>(this), 0, sizeof *this);
		}
	};
	template<bool Key>
	inline bool operator==(const Tracked<Key> &a, const Tracked<Key> &b) { return a.get("comparison") == b.get("comparison"); }
	template<bool Key>
	inline bool operator!=(const Tracked<Key> &a, const Tracked<Key> &b) { return a.get("comparison") != b.get("comparison"); }

	// Trivially copyable counterparts (other code paths may be taken for them).
	template<bool Key>
	struct Plain
	{
		std::int32_t id = 0;
		std::int32_t chk = 0x5a5a;
		Plain() = default;
		explicit Plain(int i) : id(i) {}
		explicit Plain(const TK &k) : id(k.id) {}
		explicit Plain(const KeySrc &k) : id(k.look()) {}
		explicit Plain(KeySrc &&k) : id(k.take()) {}
		int get(const char *what = "use") const
		{
			MC_CHECK(chk == 0x5a5a, "%s of memory that holds no %s", what, Key ? "key" : "mapped value");
			return id;
		}
		bool moved() const { return false; }
	};
	template<bool Key>
	inline bool operator==(const Plain<Key> &a, const Plain<Key> &b) { return a.get() == b.get(); }
	template<bool Key>
	inline bool operator!=(const Plain<Key> &a, const Plain<Key> &b) { return a.get() != b.get(); }

	// ---------------------------------------------------------------- save / restore / hash
	struct Snap { std::vector<std::uint8_t> d; };
	inline std::size_t bitmap_words() { return (W->h.heap_top + 1023) / 1024 + 0; }
	template<typename F>
	inline void regions(F &&f)
	{
		f(reinterpret_cast<std::uint8_t *>(&W->h), sizeof(Head));
		for (int s = 0; s < NSLOT; ++s)
			if (W->h.m[s].n) f(reinterpret_cast<std::uint8_t *>(W->e[s]), (W->h.m[s].n * sizeof(Ent) + 15) & ~std::size_t(15));
		const std::size_t bw = (W->h.heap_top / 1024 + 1) * 8;
		f(reinterpret_cast<std::uint8_t *>(W->alive), bw);
		f(reinterpret_cast<std::uint8_t *>(W->alive2), bw);
		f(heap, (W->h.heap_top + 15) & ~15u);
	}
	inline void save(Snap &s)
	{
		std::size_t n = 0;
		regions([&](std::uint8_t *, std::size_t k) { n += k; });
		s.d.resize(n);
		n = 0;
		regions([&](std::uint8_t *p, std::size_t k) { memcpy(s.d.data() + n, p, k); n += k; });
	}
	inline void restore(const Snap &s)
	{
		const std::uint32_t old_top = W->h.heap_top;
		memcpy(static_cast<void *>(&W->h), s.d.data(), sizeof(Head));
		const std::uint32_t top = W->h.heap_top;
		if (old_top > top)
		{
			memset(heap + top, 0, old_top - top);
			const std::size_t w0 = top / 1024 + 1, w1 = old_top / 1024 + 1;
			if (w1 > w0)
			{
				memset(W->alive + w0, 0, (w1 - w0) * 8);
				memset(W->alive2 + w0, 0, (w1 - w0) * 8);
			}
		}
		std::size_t n = 0;
		regions([&](std::uint8_t *p, std::size_t k)
		{
			if (n) memcpy(p, s.d.data() + n, k);
			n += k;
		});
	}
	struct H128
	{
		std::uint64_t a, b;
		bool operator==(const H128 &o) const { return a == o.a && b == o.b; }
	};
	inline std::uint64_t mum(std::uint64_t x, std::uint64_t y)
	{
		const auto r = static_cast<unsigned __int128>(x) * y;
		return static_cast<std::uint64_t>(r) ^ static_cast<std::uint64_t>(r >> 64);
	}
	inline H128 hash_bytes(const std::uint8_t *p, std::size_t n, H128 h)
	{
		for (std::size_t i = 0; i + 16 <= n; i += 16)
		{
			std::uint64_t x, y;
			memcpy(&x, p + i, 8);
			memcpy(&y, p + i + 8, 8);
			h.a = mum(h.a ^ x ^ 0x9E3779B97F4A7C15ull, 0xBF58476D1CE4E5B9ull ^ y) + h.b;
			h.b = mum(h.b ^ y ^ 0xD6E8FEB86659FD93ull, 0x94D049BB133111EBull ^ x) ^ (h.a << 1 | h.a >> 63);
		}
		if (n % 16)
		{
			std::uint8_t t[16] = {};
			memcpy(t, p + n / 16 * 16, n % 16);
			return hash_bytes(t, 16, h);
		}
		return h;
	}
	inline H128 world_hash()
	{
		H128 h{0x243F6A8885A308D3ull, 0x13198A2E03707344ull};
		regions([&](std::uint8_t *p, std::size_t k) { h = hash_bytes(p, k, h); });
		return h;
	}
	inline void world_reset()
	{
		const std::size_t top = W->h.heap_top;
		memset(static_cast<void *>(&W->h), 0, sizeof(Head));
		memset(W->alive, 0, (top / 1024 + 1) * 8);
		memset(W->alive2, 0, (top / 1024 + 1) * 8);
		memset(heap, 0, top);
		g_fault = 0;
		g_noalloc = false;
	}
}
