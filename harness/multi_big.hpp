// Histories over multi-key tables of hundreds to thousands of elements, against a model of their own (see big.hpp).
#pragma once
#include "multi.hpp"
#include <algorithm>

namespace mc
{
	constexpr int BIG_SIZES[] = {240, 449, 900, 1792, 3600, 8000};
	enum BigPat : unsigned { BP_NONE, BP_EVEN, BP_FRONT, BP_BACK, BP_FEW_LEFT, BP_ALL, N_BPAT };
	enum BigAct : unsigned { BA_AGAIN, BA_SHRINK, BA_COPY, BA_COPY_ONTO, BA_MOVE, BA_SWAP, BA_CHURN, BA_ERASE_IF, BA_ERASE_RANGE, BA_CLEAR, BA_WALK, N_BACT };
	inline const char *bact_name[] = {"insert all again", "rehash(0)", "copy", "copy-assign", "move", "swap", "churn", "erase_if", "erase(range)", "clear", "erase while iterating"};

	struct MBig
	{
		using Mod = std::vector<int>; // value of every id, -1: absent
		static Keys ks(int id) { return {{id, id ^ 5, id + 3}}; }
		static int bval(int id) { return IS_MAP ? id % 1000 : 0; }
		std::string ctx;
		static bool has(const Mod &m, int id) { return static_cast<std::size_t>(id) < m.size() && m[static_cast<std::size_t>(id)] >= 0; }
		static std::size_t count(const Mod &m) { return static_cast<std::size_t>(std::count_if(m.begin(), m.end(), [](int v) { return v >= 0; })); }
		void put(C &x, Mod &m, int id, int form)
		{
			const bool had = has(m, id);
			if (static_cast<std::size_t>(id) >= m.size()) m.resize(static_cast<std::size_t>(id) * 2 + 64, -1);
			std::pair<It, bool> r;
			if (form % 2) r = x.insert(mk(ks(id), bval(id)));
			else
			{
				const InsT v = mk(ks(id), bval(id));
				r = x.insert(v);
			}
			MC_CHECK(r.second == !had, "%s: inserting element %d reports %d", ctx.c_str(), id, r.second);
			MC_CHECK(r.first != x.end() && kid(*r.first) == ks(id), "%s: inserting element %d returns an iterator to another one", ctx.c_str(), id);
			m[static_cast<std::size_t>(id)] = bval(id);
			if constexpr (NK > 1)
				if (form % 5 == 0)
				{
					// a conflict in one key only
					Keys k = ks(id);
					k.k[form % static_cast<int>(NK)] = 40000 + id;
					const auto q = x.insert(mk(k, 1));
					MC_CHECK(!q.second && kid(*q.first) == ks(id), "%s: an element that conflicts with %d is not refused", ctx.c_str(), id);
				}
		}
		void drop(C &x, Mod &m, int id, int form)
		{
			const bool had = has(m, id);
			const Keys k = ks(id);
			const auto f = static_cast<unsigned>(form) % (NK + 2);
			if (f < NK || !had) at_pos(f % NK, [&](auto I)
			{
				const KeyAt<I> key(k.k[I]);
				const auto r = x.template erase<I>(key);
				MC_CHECK(had || r == x.end(), "%s: erase of the absent element %d does not return end()", ctx.c_str(), id);
			});
			else
			{
				const KeyAt<0> key(k.k[0]);
				const auto it = x.template find<0>(key);
				MC_CHECK(it != x.end(), "%s: find(%d) misses", ctx.c_str(), id);
				if (f == NK) x.erase(it);
				else x.erase(CIt(it));
			}
			if (had) m[static_cast<std::size_t>(id)] = -1;
		}
		void verify(const C &cx, const Mod &m, const char *when)
		{
			const char *p = ctx.c_str();
			shm->progress = shm->progress + 1;
			const auto n = count(m);
			MC_CHECK(cx.size() == n && cx.empty() == (n == 0), "%s, %s: size() is %zu, expected %zu", p, when, cx.size(), n);
			std::vector<bool> seen(m.size());
			std::size_t cnt = 0;
			for (auto it = cx.begin(); it != cx.end(); ++it, ++cnt)
			{
				const auto k = kid(*it);
				const auto i = static_cast<std::size_t>(k.k[0]);
				MC_CHECK(has(m, k.k[0]) && k == ks(k.k[0]), "%s, %s: iteration visits %s, which is not stored", p, when, KS(k));
				MC_CHECK(!seen[i], "%s, %s: iteration visits %s twice", p, when, KS(k));
				seen[i] = true;
				if (IS_MAP) MC_CHECK(vid(*it) == m[i], "%s, %s: element %s has value %d, expected %d", p, when, KS(k), vid(*it), m[i]);
			}
			MC_CHECK(cnt == n, "%s, %s: iteration visits %zu of %zu elements", p, when, cnt, n);
			for (int id = 0; static_cast<std::size_t>(id) < m.size(); ++id)
				for (unsigned i = 0; i < NK; ++i) at_pos(i, [&](auto I)
				{
					const KeyAt<I> key(ks(id).k[I]);
					const auto it = cx.template find<I>(key);
					MC_CHECK((it != cx.end()) == has(m, id), "%s, %s: find<%u>(%d) %s", p, when, i, ks(id).k[I], has(m, id) ? "misses a stored element" : "finds an absent element");
					if (has(m, id)) MC_CHECK(kid(*it) == ks(id), "%s, %s: find<%u>(%d) returns element %s", p, when, i, ks(id).k[I], KS(kid(*it)));
				});
			MC_CHECK(n == 0 || cx.load_factor() == static_cast<float>(n) / static_cast<float>(cx.bucket_count()), "%s, %s: load_factor() is wrong", p, when);
		}
		void run(unsigned size, bool range, unsigned pat, unsigned act)
		{
			const int n = BIG_SIZES[size % std::size(BIG_SIZES)];
			ctx = std::to_string(n) + " elements" + (range ? " by insert(range)" : "") + ", erasure pattern " + std::to_string(pat) + ", then " + bact_name[act % N_BACT];
			C x(mkalloc(0));
			Mod m;
			if (range)
			{
				std::vector<InsT> src;
				for (int i = 0; i < n; ++i) src.push_back(mk(ks(i), bval(i)));
				x.insert(src.begin(), src.end());
				m.resize(static_cast<std::size_t>(n) * 2, -1);
				for (int i = 0; i < n; ++i) m[static_cast<std::size_t>(i)] = bval(i);
			}
			else
				for (int i = 0; i < n; ++i) put(x, m, i, i);
			verify(x, m, "after filling");
			for (int i = 0; i < n; ++i)
			{
				const bool gone = pat == BP_EVEN ? i % 2 == 0 : pat == BP_FRONT ? i < n / 2 : pat == BP_BACK ? i >= n / 2 : pat == BP_FEW_LEFT ? i % 16 != 0 : pat == BP_ALL;
				if (gone) drop(x, m, i, i / 2);
			}
			if (pat) verify(x, m, "after erasing");
			switch (act)
			{
				case BA_SHRINK: x.rehash(0); break;
				case BA_COPY:
				{
					C y(x);
					Mod my = m;
					for (int i = 0; i < n; i += 3) drop(x, m, i, i);
					verify(y, my, "the copy, after changing the source");
					for (int i = 0; i < n; ++i) put(y, my, i, i);
					verify(y, my, "the copy, after changing it");
					break;
				}
				case BA_COPY_ONTO:
				{
					C y(mkalloc(0));
					Mod my;
					for (int i = n / 2; i < 2 * n; ++i) put(y, my, i, i);
					y = std::as_const(x);
					my = m;
					verify(y, my, "the assigned copy");
					for (int i = 0; i < n; ++i) put(y, my, i, i);
					verify(y, my, "the assigned copy, after changing it");
					break;
				}
				case BA_MOVE:
				{
					C y(std::move(x));
					verify(y, m, "the moved container");
					Mod e2(20, -1);
					verify(x, e2, "the moved-from container");
					x = std::move(y);
					break;
				}
				case BA_SWAP:
				{
					C y(mkalloc(0));
					Mod my;
					for (int i = 0; i < 30; ++i) put(y, my, n / 2 + i, i);
					x.swap(y);
					std::swap(m, my);
					verify(y, my, "the swapped container");
					for (int i = 0; i < n; ++i) put(y, my, i, i);
					verify(y, my, "the swapped container, used again");
					break;
				}
				case BA_CHURN:
					for (int i = 0; i < n; ++i)
					{
						drop(x, m, i, i);
						put(x, m, n + i, i);
					}
					break;
				case BA_ERASE_IF:
				{
					std::size_t calls = 0, want = 0;
					const auto before = x.size();
					for (std::size_t i = 1; i < m.size(); i += 3)
						if (m[i] >= 0)
						{
							m[i] = -1;
							++want;
						}
					const auto got = erase_if(x, [&](auto &&r)
					{
						++calls;
						return kid(r).k[0] % 3 == 1;
					});
					MC_CHECK(got == want && calls == before, "%s: erase_if removed %zu of %zu elements, and called the predicate %zu times for %zu elements", ctx.c_str(), static_cast<std::size_t>(got), want, calls, before);
					break;
				}
				case BA_ERASE_RANGE:
				{
					const auto all = static_cast<std::ptrdiff_t>(x.size());
					const auto a = x.begin() + all / 4, b = x.begin() + all * 3 / 4;
					for (auto i = a; i != b; ++i) m[static_cast<std::size_t>(kid(*i).k[0])] = -1;
					x.erase(a, b);
					break;
				}
				case BA_CLEAR:
					x.clear();
					std::fill(m.begin(), m.end(), -1);
					verify(x, m, "after clear()");
					break;
				case BA_WALK:
				{
					std::size_t steps = 0;
					const auto before = x.size();
					for (auto it = x.begin(); it != x.end(); ++steps)
					{
						MC_CHECK(steps < before, "%s: erasing while iterating visits an element twice", ctx.c_str());
						const int id = kid(*it).k[0];
						if (id % 2 || id % 7 == 0)
						{
							it = x.erase(it);
							m[static_cast<std::size_t>(id)] = -1;
						}
						else
							++it;
					}
					MC_CHECK(steps == before, "%s: erasing while iterating visits %zu of %zu elements", ctx.c_str(), steps, before);
					break;
				}
				default: break;
			}
			verify(x, m, "after that");
			for (int i = 0; i < n; ++i) put(x, m, i, i + 1);
			verify(x, m, "after inserting all again");
		}
	};
	inline void big_run(const Op &o)
	{
		const auto objs = W->h.stack_objs;
		const auto blocks = g_big_blocks;
		g_big = true;
		{
			MBig b;
			b.run(o.a, o.x, o.b / 32u, o.b % 32u);
		}
		g_big = false;
		MC_CHECK(g_big_blocks == blocks, "%d allocation(s) were never returned", g_big_blocks - blocks);
		MC_CHECK(W->h.stack_objs == objs, "%d element(s) leaked or destroyed twice", W->h.stack_objs - objs);
	}
}
