// Histories over tables of hundreds to tens of thousands of elements, against a model of their own. The tables live outside the arena
// (their allocator is checked by headers and counters), so the state of the world is the same before and after.
#pragma once
#include "uni.hpp"
#include <memory>

namespace mc
{
	constexpr int BIG_SIZES[] = {240, 449, 900, 1792, 3600, 8000, 30000, 70000};
	enum BigPat : unsigned { BP_NONE, BP_EVEN, BP_FRONT, BP_BACK, BP_FEW_LEFT, BP_ALL, N_BPAT };
	inline const char *bpat_name[] = {"nothing erased", "every other element erased", "first half erased", "last half erased", "all but every 16th erased", "all erased"};
	enum BigAct : unsigned { BA_AGAIN, BA_SHRINK, BA_RESERVE, BA_COPY, BA_COPY_ONTO, BA_MOVE, BA_MOVE_ALLOC, BA_SWAP, BA_MERGE, BA_CHURN, BA_ERASE_IF, BA_ERASE_RANGE, BA_CLEAR, BA_NODES, BA_WALK, N_BACT };
	inline const char *bact_name[] = {"insert all again", "rehash(0)", "reserve", "copy", "copy-assign", "move", "move(alloc)", "swap", "merge", "churn", "erase_if", "erase(range)", "clear", "extract/insert nodes", "erase while iterating"};
	enum BigFill : unsigned { BF_EMPLACE, BF_RESERVE, BF_RANGE, BF_MIXED, N_BFILL };
	inline const char *bfill_name[] = {"emplace", "reserve+insert", "insert(range)", "insert/erase mix"};

	struct BigModel
	{
		std::vector<int> v;              // value of every id, -1: absent
		std::vector<std::uint64_t> seq, addr;
		std::uint64_t next = 1;
		std::size_t n = 0, maxn = 0;
		void room(int id)
		{
			if (static_cast<std::size_t>(id) >= v.size())
			{
				const auto k = static_cast<std::size_t>(id) * 2 + 64;
				v.resize(k, -1);
				seq.resize(k, 0);
				addr.resize(k, 0);
			}
		}
		bool has(int id) const { return static_cast<std::size_t>(id) < v.size() && v[static_cast<std::size_t>(id)] >= 0; }
		void add(int id, int val)
		{
			room(id);
			const auto i = static_cast<std::size_t>(id);
			v[i] = val;
			seq[i] = next++;
			addr[i] = 0;
			maxn = std::max(maxn, ++n);
		}
		void del(int id)
		{
			v[static_cast<std::size_t>(id)] = -1;
			--n;
		}
		void wipe()
		{
			std::fill(v.begin(), v.end(), -1);
			n = 0;
		}
	};

	template<typename CT>
	struct Big
	{
		using It = typename CT::iterator;
		using CIt = typename CT::const_iterator;
		static int bval(int id) { return IS_MAP ? id % 1000 : 0; }
		static auto elem(int id)
		{
			if constexpr (IS_MAP) return typename CT::insert_type{Key(id), Val(bval(id))};
			else return Key(id);
		}
		std::string ctx;

		void put(CT &x, BigModel &m, int id, int form)
		{
			const bool had = m.has(id);
			std::pair<It, bool> r;
			if constexpr (IS_MAP)
				switch (form % 4)
				{
					case 0: r = x.emplace(Key(id), Val(bval(id))); break;
					case 1: r = x.insert(elem(id)); break;
					case 2: r = x.try_emplace(Key(id), bval(id)); break;
					default: r = x.insert_or_assign(Key(id), Val(bval(id))); break;
				}
			else if (form % 2) r = x.insert(elem(id));
			else r = x.emplace(id);
			MC_CHECK(r.second == !had, "%s: inserting element %d reports %d", ctx.c_str(), id, r.second);
			MC_CHECK(r.first != x.end() && kid(*r.first) == id, "%s: inserting element %d returns an iterator to another one", ctx.c_str(), id);
			if (!had)
			{
				m.add(id, bval(id));
				if constexpr (STABLE) m.addr[static_cast<std::size_t>(id)] = reinterpret_cast<std::uintptr_t>(addr_of(r.first));
			}
		}
		void drop(CT &x, BigModel &m, int id, int form)
		{
			const bool had = m.has(id);
			const Key key(id);
			if (form % 3 == 0 || !had)
			{
				const auto r = x.erase(key);
				MC_CHECK(had || r == x.end(), "%s: erase(%d) of an absent element does not return end()", ctx.c_str(), id);
			}
			else if (form % 3 == 1)
			{
				const auto it = x.find(key);
				MC_CHECK(it != x.end(), "%s: find(%d) misses", ctx.c_str(), id);
				x.erase(it);
			}
			else
			{
				const auto it = std::as_const(x).find(key);
				MC_CHECK(it != x.cend(), "%s: find(%d) misses", ctx.c_str(), id);
				x.erase(it);
			}
			if (had) m.del(id);
		}
		void verify(CT &x, BigModel &m, const char *when)
		{
			const auto &cx = x;
			const char *p = ctx.c_str();
			shm->progress = shm->progress + 1;
			MC_CHECK(cx.size() == m.n && cx.empty() == (m.n == 0), "%s, %s: size() is %zu, expected %zu", p, when, cx.size(), m.n);
			std::vector<bool> seen(m.v.size());
			std::size_t cnt = 0;
			std::uint64_t last = 0;
			const auto one = [&](auto &&r, const void *a, const char *what)
			{
				const int id = kid(r);
				const auto i = static_cast<std::size_t>(id);
				MC_CHECK(m.has(id), "%s, %s: %s visits element %d, which is not stored", p, when, what, id);
				MC_CHECK(!seen[i], "%s, %s: %s visits element %d twice", p, when, what, id);
				seen[i] = true;
				if (IS_MAP) MC_CHECK(vid(r) == m.v[i], "%s, %s: %s finds value %d for element %d, expected %d", p, when, what, vid(r), id, m.v[i]);
				if (STABLE && m.addr[i]) MC_CHECK(m.addr[i] == reinterpret_cast<std::uintptr_t>(a), "%s, %s: element %d changed its address", p, when, id);
				if (STABLE) m.addr[i] = reinterpret_cast<std::uintptr_t>(a);
				++cnt;
				return m.seq[i];
			};
			for (auto it = cx.begin(); it != cx.end(); ++it)
			{
				const auto q = one(*it, addr_of(it), "iteration");
				if (IS_ORD) MC_CHECK(q > last, "%s, %s: iteration at element %d does not follow the insertion order", p, when, kid(*it));
				last = q;
			}
			MC_CHECK(cnt == m.n, "%s, %s: iteration visits %zu of %zu elements", p, when, cnt, m.n);
			if constexpr (IS_ORD || DENSE)
			{
				seen.assign(seen.size(), false);
				cnt = 0;
				last = ~0ull;
				for (auto it = cx.end(); it != cx.begin();)
				{
					--it;
					const auto q = one(*it, addr_of(it), "backward iteration");
					if (IS_ORD) MC_CHECK(q < last, "%s, %s: backward iteration at element %d does not follow the insertion order", p, when, kid(*it));
					last = q;
				}
				MC_CHECK(cnt == m.n, "%s, %s: backward iteration visits %zu of %zu elements", p, when, cnt, m.n);
			}
			for (int id = 0; static_cast<std::size_t>(id) < m.v.size(); ++id)
			{
				const Key key(id);
				const auto it = cx.find(key);
				MC_CHECK((it != cx.end()) == m.has(id), "%s, %s: find(%d) %s", p, when, id, m.has(id) ? "misses a stored key" : "finds an absent key");
				if (m.has(id)) MC_CHECK(kid(*it) == id, "%s, %s: find(%d) returns element %d", p, when, id, kid(*it));
				if (id % 4 == 1) MC_CHECK(cx.contains(key) == m.has(id), "%s, %s: contains(%d) is wrong", p, when, id);
			}
			MC_CHECK(static_cast<double>(cx.bucket_count()) <= 64 + 4 * static_cast<double>(m.maxn) / static_cast<double>(cx.max_load_factor()), "%s, %s: %zu buckets for at most %zu elements", p, when, cx.bucket_count(), m.maxn);
			MC_CHECK(m.n == 0 || cx.load_factor() == static_cast<float>(m.n) / static_cast<float>(cx.bucket_count()), "%s, %s: load_factor() is wrong", p, when);
			MC_CHECK(m.n == 0 || cx.load_factor() <= 1.f, "%s, %s: load_factor() exceeds 1", p, when);
		}
		void fill(CT &x, BigModel &m, int from, int n, unsigned how)
		{
			switch (how)
			{
				case BF_EMPLACE:
					for (int i = 0; i < n; ++i) put(x, m, from + i, i);
					break;
				case BF_RESERVE:
				{
					x.reserve(x.size() + static_cast<std::size_t>(n));
					const auto bc = x.bucket_count();
					for (int i = 0; i < n; ++i) put(x, m, from + i, i + 1);
					MC_CHECK(x.bucket_count() == bc, "%s: %d insertions after reserve() changed bucket_count() from %zu to %zu", ctx.c_str(), n, bc, x.bucket_count());
					break;
				}
				case BF_RANGE:
				{
					std::vector<typename CT::insert_type> src;
					src.reserve(static_cast<std::size_t>(n));
					for (int i = 0; i < n; ++i) src.push_back(elem(from + i));
					x.insert(src.begin(), src.end());
					for (int i = 0; i < n; ++i)
						if (!m.has(from + i)) m.add(from + i, bval(from + i));
					break;
				}
				default:
					for (int i = 0; i < n; ++i)
					{
						put(x, m, from + i, i);
						if (i % 2) drop(x, m, from + i / 2, i);
					}
					for (int i = 0; i < n; ++i) put(x, m, from + i, i);
					break;
			}
		}
		void run(unsigned size, unsigned how, unsigned pat, unsigned act)
		{
			const int n = BIG_SIZES[size % std::size(BIG_SIZES)];
			ctx = std::string(CNAME) + ", " + std::to_string(n) + " elements by " + bfill_name[how % N_BFILL] + ", " + bpat_name[pat % N_BPAT] + ", then " + bact_name[act % N_BACT];
			CT x(0, Hash{}, Eq{}, AllocT{});
			BigModel m;
			m.room(n * 2);
			fill(x, m, 0, n, how % N_BFILL);
			verify(x, m, "after filling");
			for (int i = 0; i < n; ++i)
			{
				const bool gone = pat == BP_EVEN ? i % 2 == 0 : pat == BP_FRONT ? i < n / 2 : pat == BP_BACK ? i >= n / 2 : pat == BP_FEW_LEFT ? i % 16 != 0 : pat == BP_ALL;
				if (gone) drop(x, m, i, i);
			}
			if (pat) verify(x, m, "after erasing");
			switch (act)
			{
				case BA_AGAIN: break;
				case BA_SHRINK: x.rehash(0); break;
				case BA_RESERVE:
				{
					x.reserve(static_cast<std::size_t>(n) * 3);
					m.maxn = std::max(m.maxn, static_cast<std::size_t>(n) * 3);
					break;
				}
				case BA_COPY:
				{
					CT y(x);
					BigModel my = m;
					my.addr.assign(my.addr.size(), 0);
					verify(y, my, "the copy");
					for (int i = 0; i < n; i += 3) drop(x, m, i, i);
					verify(y, my, "the copy, after changing the source");
					fill(y, my, 0, n + n / 4, BF_EMPLACE);
					verify(y, my, "the copy, after changing it");
					break;
				}
				case BA_COPY_ONTO:
				{
					CT y(0, Hash{}, Eq{}, AllocT{});
					BigModel my;
					fill(y, my, n / 2, n * 2, BF_EMPLACE);
					const auto most = std::max(m.maxn, my.maxn);
					y = std::as_const(x);
					my = m;
					my.maxn = most;
					my.addr.assign(my.addr.size(), 0);
					verify(y, my, "the assigned copy");
					MC_CHECK(n > 2000 || (std::as_const(x) == std::as_const(y) && !(std::as_const(x) != std::as_const(y))), "%s: the copy does not compare equal", ctx.c_str());
					fill(y, my, 0, n, BF_EMPLACE);
					verify(y, my, "the assigned copy, after changing it");
					break;
				}
				case BA_MOVE: case BA_MOVE_ALLOC:
				{
					CT y = act == BA_MOVE ? CT(std::move(x)) : CT(std::move(x), AllocT{});
					verify(y, m, "the moved container");
					BigModel e2;
					e2.maxn = m.maxn;
					e2.room(n);
					verify(x, e2, "the moved-from container");
					fill(x, e2, 0, 40, BF_EMPLACE);
					verify(x, e2, "the moved-from container, used again");
					x = std::move(y);
					break;
				}
				case BA_SWAP:
				{
					CT y(0, Hash{}, Eq{}, AllocT{});
					BigModel my;
					fill(y, my, n / 2, 30, BF_EMPLACE);
					x.swap(y);
					std::swap(m, my);
					verify(y, my, "the swapped container");
					fill(y, my, 0, n, BF_EMPLACE);
					verify(y, my, "the swapped container, used again");
					m.room(n * 2);
					break;
				}
				case BA_MERGE:
					if constexpr (STABLE) // node based containers only
					{
						CT y(0, Hash{}, Eq{}, AllocT{});
						BigModel my;
						fill(y, my, n / 3, n, BF_EMPLACE);
						x.merge(y);
						m.maxn = std::max(m.maxn, m.n + my.n);
						std::vector<std::pair<std::uint64_t, int>> q;
						for (int i = 0; static_cast<std::size_t>(i) < my.v.size(); ++i)
							if (my.has(i) && !m.has(i)) q.emplace_back(my.seq[static_cast<std::size_t>(i)], i);
						std::sort(q.begin(), q.end());
						for (auto &[sq, i]: q)
						{
							m.add(i, bval(i));
							m.addr[static_cast<std::size_t>(i)] = my.addr[static_cast<std::size_t>(i)];
							my.del(i);
						}
						verify(y, my, "the merged-from container");
					}
					break;
				case BA_CHURN:
					for (int i = 0; i < n; ++i)
					{
						drop(x, m, i, i);
						put(x, m, n + i, i);
					}
					break;
				case BA_ERASE_IF:
				{
					std::size_t calls = 0, want = 0;
					const auto before = m.n;
					for (int i = 0; static_cast<std::size_t>(i) < m.v.size(); ++i)
						if (m.has(i) && i % 3 == 1)
						{
							m.del(i);
							++want;
						}
					const auto got = erase_if(x, [&](auto &&r)
					{
						++calls;
						return kid(r) % 3 == 1;
					});
					MC_CHECK(got == want && calls == before, "%s: erase_if removed %zu of %zu elements, and called the predicate %zu times for %zu elements", ctx.c_str(), static_cast<std::size_t>(got), want, calls, before);
					break;
				}
				case BA_ERASE_RANGE:
				{
					auto a = x.begin();
					const auto all = m.n;
					for (std::size_t i = 0; i < all / 4; ++i) ++a;
					auto b = a;
					for (std::size_t i = all / 4; i < all * 3 / 4; ++i, ++b) m.del(kid(*b));
					const int next = b == x.end() ? -1 : kid(*b);
					const auto r = x.erase(a, b);
					if (IS_ORD) MC_CHECK((r == x.end()) == (next < 0) && (next < 0 || kid(*r) == next), "%s: erase(range) returns another position", ctx.c_str());
					break;
				}
				case BA_CLEAR:
					x.clear();
					m.wipe();
					verify(x, m, "after clear()");
					break;
				case BA_NODES:
					if constexpr (STABLE)
						for (int i = 0; i < n; ++i)
							if (m.has(i))
							{
								auto nh = x.extract(Key(i));
								MC_CHECK(!nh.empty() && reinterpret_cast<std::uintptr_t>(&nh.value()) == m.addr[static_cast<std::size_t>(i)], "%s: extract(%d) gives another element", ctx.c_str(), i);
								MC_CHECK(!x.contains(Key(i)), "%s: element %d is still found after extracting it", ctx.c_str(), i);
								const auto ad = m.addr[static_cast<std::size_t>(i)];
								m.del(i);
								if (i % 5 == 0) continue; // dropped
								const auto r = x.insert(std::move(nh));
								MC_CHECK(r.inserted && kid(*r.position) == i, "%s: inserting the node of %d fails", ctx.c_str(), i);
								m.add(i, bval(i));
								m.addr[static_cast<std::size_t>(i)] = ad;
							}
					break;
				case BA_WALK:
				{
					std::size_t steps = 0;
					const auto before = m.n;
					for (auto it = x.begin(); it != x.end(); ++steps)
					{
						MC_CHECK(steps < before, "%s: erasing while iterating visits an element twice", ctx.c_str());
						const int id = kid(*it);
						if (id % 2 || id % 7 == 0)
						{
							it = x.erase(it);
							m.del(id);
						}
						else
							++it;
					}
					MC_CHECK(steps == before, "%s: erasing while iterating visits %zu of %zu elements", ctx.c_str(), steps, before);
					break;
				}
				default: break;
			}
			verify(x, m, "after that");
			fill(x, m, 0, n, BF_EMPLACE);
			verify(x, m, "after inserting all again");
		}
	};
	template<typename CT>
	inline void big_run(const Op &o)
	{
		const auto objs = W->h.stack_objs;
		const auto blocks = g_big_blocks;
		g_big = true;
		{
			Big<CT> b;
			b.run(o.a, o.x, o.b / 32u, o.b % 32u);
		}
		g_big = false;
		MC_CHECK(g_big_blocks == blocks, "%d allocation(s) were never returned", g_big_blocks - blocks);
		MC_CHECK(W->h.stack_objs == objs, "%d element(s) leaked or destroyed twice", W->h.stack_objs - objs);
	}
}
