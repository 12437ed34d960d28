// The header of the container under test comes first: it has to work whatever else is included.
#ifndef CONT
#define CONT 1
#endif
#if CONT / 4 == 0 && CONT & 1
#include <tpp/sparse_map.hpp>
#elif CONT / 4 == 0
#include <tpp/sparse_set.hpp>
#elif CONT / 4 == 1 && CONT & 1
#include <tpp/stable_map.hpp>
#elif CONT / 4 == 1
#include <tpp/stable_set.hpp>
#elif CONT & 1
#include <tpp/dense_map.hpp>
#else
#include <tpp/dense_set.hpp>
#endif
#include "uni_apply.hpp"
namespace mc
{
	void Sys::reset()
	{
		world_reset();
		g_fault = 0;
		for (int s = 0; s < NSLOT; ++s)
			if (n_init() >> s & 1) make(s);
	}
	bool Sys::may_fault(const Op &o)
	{
		switch (o.code)
		{
			case DTOR: case SELFM: case SELFS: case SWAP: case ND: case NMOVE: case NMUT: case MRG_X: case SETV: case MLF: case RSVF: case MCTOR: case CLR: return false;
			default: return true;
		}
	}
	// Where every element was, in iteration order, with an iterator to it: operations that have nothing to do with an element must not
	// move it, and neither invalidate iterators to it nor change the order of iteration or the number of buckets.
	struct Layout
	{
		bool live;
		unsigned n;
		std::size_t bc;
		std::int16_t k[MAXN];
		std::uintptr_t a[MAXN];
		alignas(It) unsigned char it[MAXN][sizeof(It)];
	};
	static void snap_layout(Layout &h, int s)
	{
		h.live = m(s).live;
		h.n = 0;
		if (!h.live) return;
		h.bc = c(s).bucket_count();
		for (auto i = c(s).begin(); i != c(s).end(); ++i)
		{
			if (h.n >= MAXN) fail("iteration of container %d does not end", s);
			h.k[h.n] = static_cast<std::int16_t>(kid(*i));
			h.a[h.n] = reinterpret_cast<std::uintptr_t>(addr_of(i));
			new (h.it[h.n]) It{i};
			++h.n;
		}
	}
	static void check_layout(const Layout &h, int s, const char *nm, int kp)
	{
		if (kp == 4)
		{
			auto it = c(s).begin();
			for (unsigned i = 0; i < h.n; ++i, ++it) MC_CHECK(it != c(s).end() && kid(*it) == h.k[i], "%s changed the order of iteration of container %d at key %d", nm, s, h.k[i]);
			return;
		}
		const bool dense_erase = kp == 2;
		static std::uint8_t gone[MAXN];
		auto &x = c(s);
		MC_CHECK(x.bucket_count() == h.bc, "%s changed the number of buckets of container %d from %zu to %zu", nm, s, h.bc, x.bucket_count());
		unsigned left = 0;
		for (unsigned i = 0; i < h.n; ++i)
		{
			gone[i] = mfind(s, h.k[i]) < 0;
			left += !gone[i];
		}
		MC_CHECK(left == m(s).n, "%s: container %d gained elements", nm, s);
		auto it = x.begin();
		for (unsigned i = 0; i < h.n; ++i)
		{
			if (gone[i]) continue;
			if (!dense_erase)
			{
				MC_CHECK(it != x.end() && kid(*it) == h.k[i], "%s changed the order of iteration of container %d at key %d", nm, s, h.k[i]);
				MC_CHECK(reinterpret_cast<std::uintptr_t>(addr_of(it)) == h.a[i], "%s moved the element of key %d of container %d", nm, h.k[i], s);
				const auto &old = *std::launder(reinterpret_cast<const It *>(h.it[i]));
				MC_CHECK(old == it && kid(*old) == h.k[i], "%s invalidated an iterator to key %d of container %d", nm, h.k[i], s);
				++it;
				auto on = old;
				++on;
				MC_CHECK(on == it, "%s: an iterator to key %d of container %d leads to another element", nm, h.k[i], s);
			}
			else
			{
				// only the element that was last in memory may take the place of the erased one
				const auto f = x.find(Key(h.k[i]));
				bool last = true;
				for (unsigned j = 0; j < h.n; ++j) last &= h.a[j] <= h.a[i];
				MC_CHECK(f != x.end() && (last || reinterpret_cast<std::uintptr_t>(addr_of(f)) == h.a[i]), "%s moved the element of key %d of container %d", nm, h.k[i], s);
			}
		}
		if (!dense_erase) MC_CHECK(it == x.end(), "%s: container %d gained elements", nm, s);
	}
	static bool is_insertion(int code) { return code <= IDX_L || (code >= T_TRY && code <= T_IDX) || code == RSVF || code == B_INS || code == B_INSF || code == B_ILV || code == B_ILT || code == NI || code == NIH || code == NIOA || code == NIOAH || code == FWD; }
	// 0: nothing is promised, 1: all that is left stays where it is, 2: one element was erased from contiguous storage, 3: only the number of buckets stays, 4: only the order stays (contiguous storage may be enlarged before the key is looked for)
	static int keeps(const Op &o, int s, const Layout &h)
	{
		const bool same = h.n == m(s).n;
		const bool one = !DENSE || same, many = !DENSE || same;
		switch (o.code)
		{
			case INS_C: case INS_M: case INS_LV: case INS_V: case EMP: case HINS_C: case HINS_M: case HINS_V: case EMPH: case TRY_C: case TRY_M: case TRYH: case TRY0:
			case IOA_C: case IOA_M: case IOAH: case EOR_C: case EOR_M: case EORH: case IDX_C: case IDX_L: case T_TRY: case T_IOA: case T_EOR: case T_IDX:
				return o.c != s ? 1 : !same ? 0 : DENSE && (o.code == EMP || o.code == EMPH || o.code == INS_LV || (o.code == HINS_V && (o.x > 1 || !IS_MAP)) || (o.code == INS_V && (o.b || !IS_MAP))) ? 4 : 1; // the forms that construct the element first enlarge the storage for it
			case FWD: return o.c != s ? 1 : !same ? 0 : DENSE && fwd::builds_first(fwd::decode(o.d).m) ? 4 : 1;
			case AL: return 1;
			case SETV: return 1;
			case ERK: case ERI: case ERCI: case ERREF: case T_ERK: case NX: case NXI: case T_NX:
				return o.c != s || one ? 1 : 2;
			case ERR: case ERIF: case CLR: return o.c != s || many ? 1 : 3;
			case NI: case NIH: return o.c != s || same;
			case NIOA: case NIOAH: return o.c != s; // the node takes the place of an element with its key
			case ND: case NMOVE: case NMUT: case DTOR: case B_CTOR: case B_CTORF: case CTORS: case DCTOR: case SELFMRG: case SELFS: return o.c != s || o.code == ND || o.code == NMOVE || o.code == NMUT || o.code == SELFS;
			case CCTOR: case CCTOR_A: case CASG: return o.c != s;
			case MCTOR: case MCTOR_A: case MASG: case SWAP: case MRG_L: case MRG_R: case MRG_X: return o.c != s && o.a != s;
			default: return o.c != s; // capacity, bulk and self-assignment operations
		}
	}

	// The number of elements (keys and mapped values) an operation may copy, -1: any.
	static int may_copy(const Op &o, bool grown)
	{
		const int one = IS_MAP ? 2 : 1;
#ifdef TMOVE
		return -1; // elements are copied if they are not moved safely
#endif
		switch (o.code)
		{
			case INS_C: case HINS_C: return grown ? one : 0;
			case INS_LV: return one; // may be constructed before the key is looked for
			case TRY_C: return grown ? 2 : 0;
			case TRY0: case IDX_C: return grown ? 1 : 0;
			case IDX_L: return grown && o.b == 0 ? 1 : 0;
			case TRYH: return grown ? 2 : 0;
			case IOA_C: return grown ? 2 : 1;
			case EOR_C: return grown ? 1 : 0;
			case IOAH: case EORH: return grown ? 2 : 1;
			case INS_M: case HINS_M: case EMP: case EMPH: case TRY_M: case IOA_M: case EOR_M:
			case ERK: case ERI: case ERCI: case ERREF: case ERR: case ERIF: case CLR: case RH: case RSV: case MLF:
			case SWAP: case DTOR: case DCTOR: case SELFM: case SELFS: case MCTOR: case NX: case NXI: case ND: case NMOVE: case NMUT: case SELFMRG: case T_ERK: case T_NX:
				return 0;
			case MCTOR_A: case MASG: // into nodes of another allocator, where keys of maps are constants
				return STABLE && IS_MAP ? static_cast<int>(m(o.c).n) : 0;
			default: return -1;
		}
	}

	void Sys::apply(const Op &o)
	{
		static Pre pre[NSLOT];
		static Layout lay[NSLOT];
		for (int s = 0; s < NSLOT; ++s) snap_layout(lay[s], s);
		const bool f = o.f != 0;
		std::uint32_t live[NSLOT];
		if (f)
			for (int s = 0; s < NSLOT; ++s)
			{
				snap_pre(pre[s], s);
				live[s] = m(s).live;
			}
		g_work = 0;
		try
		{
			g_op_copies = 0;
			do_apply<C>(o);
			if (const int mc = may_copy(o, m(o.c).live && m(o.c).n > lay[o.c].n); mc >= 0)
				MC_CHECK(g_op_copies <= static_cast<unsigned>(mc), "%s made %u copies of elements, at most %d are called for", code_name[o.code], static_cast<unsigned>(g_op_copies), mc);
			if constexpr (DENSE)
				if (is_insertion(o.code) && m(o.c).live && m(o.c).n > lay[o.c].n)
					MC_CHECK(c(o.c).load_factor() <= c(o.c).max_load_factor(), "%s: the load factor of container %d is %f, its maximum is %f", code_name[o.code], o.c, static_cast<double>(c(o.c).load_factor()), static_cast<double>(c(o.c).max_load_factor()));
			for (int s = 0; s < NSLOT; ++s)
				if (lay[s].live && m(s).live)
				{
					const int kp = keeps(o, s, lay[s]);
					if (kp == 3) MC_CHECK(c(s).bucket_count() == lay[s].bc, "%s changed the number of buckets of container %d", code_name[o.code], s);
					else if (kp) check_layout(lay[s], s, code_name[o.code], kp);
				}
		}
		catch (const Injected &)
		{
			disarm();
			if (!f) fail("unexpected exception");
			const int s = o.c;
			switch (o.code)
			{
				case CCTOR: case CCTOR_A: case MCTOR_A: case DCTOR: case B_CTOR: case B_CTORF: case CTORS:
					// nothing was constructed in slot c (a container that was there before was destroyed first)
					memset(W->h.slot[s], 0, SLOT_BYTES);
					if (m(s).live) harness_error("slot still live");
					if (o.code == MCTOR_A) resync(o.a, pre[o.a].n, pre[o.a].e, nullptr, nullptr, 0);
					break;
				case B_INS: case B_INSF: case B_ASG: case B_ILV: case B_ILT: case B_ASGT:
				{
					const auto b = bulk_of(o);
					m(s).maxn = std::max<std::uint32_t>(m(s).maxn, pre[s].n + static_cast<unsigned>(b.n));
					resync(s, pre[s].n, pre[s].e, b.k, b.v, b.n);
					break;
				}
				case ERIF: case ERR: case SELFC:
					resync(s, pre[s].n, pre[s].e, nullptr, nullptr, 0);
					break;
				case CASG: case MASG: case MRG_L: case MRG_R:
				{
					static Pre both;
					both.n = 0;
					for (int q: {s, static_cast<int>(o.a)})
						for (std::uint32_t i = 0; i < pre[q].n; ++i) both.e[both.n++] = pre[q].e[i];
					if (o.code == CASG || o.code == MASG)
					{
						m(s).tag = c(s).get_allocator().get_tag();
						m(s).htag = c(s).hash_function().get_tag();
						MC_CHECK(c(s).key_eq().get_tag() == m(s).htag, "hash and compare functors disagree after an exception");
						m(s).maxn = std::max(m(s).maxn, m(o.a).maxn);
						if (DENSE)
							for (std::uint32_t q = 0; q < std::size(MLFS); ++q)
								if (MLFS[q] == c(s).max_load_factor()) m(s).mlf = q;
					}
					if (o.code == MRG_L || o.code == MRG_R) m(s).maxn = m(o.a).maxn = std::max(m(s).maxn, std::max(m(o.a).maxn, pre[s].n + pre[o.a].n));
					resync(s, both.n, both.e, nullptr, nullptr, 0);
					if (o.code != CASG) resync(o.a, both.n, both.e, nullptr, nullptr, 0);
					if (o.code == MRG_L || o.code == MRG_R)
					{
						// no element may be lost or duplicated by an interrupted merge
						for (std::uint32_t i = 0; i < pre[s].n; ++i) MC_CHECK(mfind(s, pre[s].e[i].k) >= 0, "an interrupted merge lost key %d", pre[s].e[i].k);
						for (std::uint32_t i = 0; i < pre[o.a].n; ++i)
						{
							const int q = pre[o.a].e[i].k;
							MC_CHECK(mfind(s, q) >= 0 || mfind(o.a, q) >= 0, "an interrupted merge lost key %d", q);
						}
					}
					break;
				}
				case RH: case RSV: m(s).maxn = std::max<std::uint32_t>(m(s).maxn, o.a); break;
				default: break; // no effect
			}
#if CONT >= 4 && CONT < 8
			if (W->h.nh_live == 0) memset(W->h.nh, 0, sizeof W->h.nh);
#endif
		}
		catch (const std::exception &ex)
		{
			disarm();
			fail("unexpected exception: %s", ex.what());
		}
		disarm();
		if (g_job->opt & OPT_OBS)
		{
			obs(o.code);
			for (int s = 0; s < NSLOT; ++s)
				if (m(s).live)
				{
					obs(c(s).size());
					if constexpr (IS_ORD)
						for (auto &&r: c(s)) obs(static_cast<std::uint64_t>(kid(r)) << 16 | static_cast<std::uint64_t>(vid(r)));
					else
					{
						std::uint64_t h = 0;
						for (auto &&r: c(s)) h += mum(static_cast<std::uint64_t>(kid(r)) + 77, 0x9E3779B97F4A7C15ull + static_cast<std::uint64_t>(vid(r)));
						obs(h);
					}
				}
		}
	}
	void Sys::verify()
	{
		g_noalloc = true;
		g_noalloc_why = "a lookup, iteration or comparison allocated";
		for (int s = 0; s < NSLOT; ++s)
			if (m(s).live) verify_slot<C>(s);
		for (int a = 0; a < NSLOT; ++a)
			for (int b = 0; b < NSLOT; ++b)
				if (a != b && m(a).live && m(b).live && m(a).n <= 24 && m(b).n <= 24)
				{
					const bool eq = std::as_const(c(a)) == std::as_const(c(b)), ne = std::as_const(c(a)) != std::as_const(c(b));
					const bool want = same_contents(a, b);
					MC_CHECK(eq == want, "containers %d and %d compare %s", a, b, eq ? "equal although their elements differ" : "different although their elements are the same");
					MC_CHECK(ne != eq, "operator!= contradicts operator==");
				}
#if CONT >= 4 && CONT < 8
		if (W->h.nh_live)
		{
			MC_CHECK(!nh().empty(), "the node handle lost its node");
			MC_CHECK(nh().key().get() == static_cast<int>(W->h.nh_k), "the node handle holds key %d, expected %u", nh().key().get(), W->h.nh_k);
#if CONT & 1
			MC_CHECK(nh().mapped().get() == static_cast<int>(W->h.nh_v), "the node handle holds another value");
#endif
			MC_CHECK(reinterpret_cast<std::uintptr_t>(&nh().value()) == W->h.nh_addr, "the element moved while held by a node handle");
			MC_CHECK(nh().get_allocator().get_tag() == W->h.nh_tag, "the node handle has allocator #%u, expected #%u", nh().get_allocator().get_tag(), W->h.nh_tag);
		}
#endif
		g_noalloc = false;
#if !PLAIN
		std::uint32_t tot = 0;
		for (int s = 0; s < NSLOT; ++s)
			if (m(s).live) tot += m(s).n;
		tot += W->h.nh_live;
		MC_CHECK(W->h.heap_keys == tot, "%u keys are alive on the heap, the containers hold %u", W->h.heap_keys, tot);
		if (IS_MAP) MC_CHECK(W->h.heap_vals == tot, "%u mapped values are alive on the heap, the containers hold %u", W->h.heap_vals, tot);
#endif
	}
	void Sys::teardown()
	{
		for (int s = 0; s < NSLOT; ++s)
			if (m(s).live) kill_slot(s);
#if CONT >= 4 && CONT < 8
		if (W->h.nh_live)
		{
			nh().~NH();
			W->h.nh_live = 0;
		}
#endif
		MC_CHECK(W->h.blocks == 0, "%u allocation(s) were never returned", W->h.blocks);
#if !PLAIN
		MC_CHECK(W->h.heap_keys == 0 && W->h.heap_vals == 0, "%u element(s) were never destroyed", W->h.heap_keys + W->h.heap_vals);
		MC_CHECK(W->h.stack_objs == 0, "%d temporary object(s) leaked or destroyed twice", W->h.stack_objs);
#endif
		W->h.heap_keys = W->h.heap_vals = 0;
	}
	std::string Sys::show(const Op &o)
	{
		char b[160];
		snprintf(b, sizeof b, "c%u.%s(a=%u,b=%u,v=%u)%s", o.c, o.code < N_CODES ? code_name[o.code] : "?", o.a, o.b, o.x, "");
		std::string s = b;
		if (o.f) s += "!fault" + std::to_string(o.f);
		return s;
	}
	std::string Sys::show_state()
	{
		std::string r;
		for (int s = 0; s < NSLOT; ++s)
			if (m(s).live)
			{
				r += "c" + std::to_string(s) + "={";
				for (unsigned i = 0; i < m(s).n; ++i) r += (i ? "," : "") + std::to_string(e(s)[i].k) + (IS_MAP ? ":" + std::to_string(e(s)[i].v) : "");
				r += "}/" + std::to_string(c(s).bucket_count()) + " ";
			}
		return r;
	}
}
#include "uni_jobs.hpp"
int main(int argc, char **argv) { return mc::engine_main(argc, argv); }
