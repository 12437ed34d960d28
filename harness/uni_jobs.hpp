// Which spaces are explored for which property (unique-key containers).
#pragma once
#include <cmath>
#include "layouts.hpp"

namespace mc
{
	// inserts `n` filler keys starting at `from`, through slot `c`, using different insertion forms in turn
	inline Ops fill(int from, int n, int c = 0, int val = 1)
	{
		Ops r;
		for (int i = 0; i < n; ++i)
		{
			const int forms[] = {INS_M, EMP, INS_C};
			r.push_back(mkop(static_cast<unsigned>(forms[i % 3]), static_cast<unsigned>(from + i), static_cast<unsigned>(val), 0, static_cast<unsigned>(c)));
		}
		return r;
	}
	inline Ops erase_keys(int from, int n, int step = 1, int c = 0)
	{
		Ops r;
		for (int i = 0; i < n; ++i) r.push_back(mkop(ERK, static_cast<unsigned>(from + i * step), 0, 0, static_cast<unsigned>(c)));
		return r;
	}

	// ---------------------------------------------------------------- alphabets
	enum : unsigned
	{
		A_INS = 1, A_FORMS = 2, A_HINT = 4, A_MAP = 8, A_ERASE = 16, A_ERFORMS = 32, A_RANGE = 64, A_CLR = 128, A_CAP = 256, A_BULK = 512,
		A_SELF = 1024, A_MLF = 2048, A_HET = 4096, A_NODE = 8192, A_RSVF = 16384, A_ALIAS = 32768
	};
	inline Ops alphabet(unsigned f, const std::vector<int> &keys, unsigned c = 0)
	{
		Ops r;
		const auto put = [&](unsigned code, unsigned a = 0, unsigned x = 0, unsigned b = 0) { r.push_back(mkop(code, a, x, b, c)); };
		for (const int k: keys)
		{
			const auto u = static_cast<unsigned>(k);
			if (f & A_INS) put(INS_C, u, 1);
			if (f & A_FORMS)
			{
				put(INS_M, u, 2);
				put(INS_LV, u, 2);
				put(INS_V, u, 1);
				put(INS_V, u, 1, 1);
				put(EMP, u, 1);
			}
			if ((f & A_MAP) && IS_MAP)
			{
				put(TRY_C, u, 2);
				put(TRY_M, u, 1);
				put(TRY0, u);
				for (unsigned v = 1; v < 3; ++v)
				{
					put(IOA_C, u, v);
					put(EOR_C, u, v);
				}
				put(IOA_M, u, 2);
				put(EOR_M, u, 1);
				put(IDX_C, u);
				put(IDX_L, u);
				put(IDX_L, u, 0, 1);
				put(SETV, u, 1, 0);
				put(SETV, u, 2, 1);
				put(SETV, u, 2, 2);
			}
			if (f & A_HINT)
				for (unsigned p = 0; p <= keys.size(); ++p)
				{
					put(HINS_C, u, 1, p);
					put(HINS_M, u, 1, p);
					for (unsigned v = 1; v < 4; ++v) put(HINS_V, u, v, p);
					put(EMPH, u, 1, p);
					if (IS_MAP && (f & A_MAP))
					{
						put(TRYH, u, 2, p);
						put(IOAH, u, 2, p);
						put(EORH, u, 2, p);
					}
				}
			if (f & A_ALIAS)
				for (unsigned v = 0; v < (IS_MAP ? 10u : 4u); ++v)
				{
					put(AL, u, v, u);
					if (v == 1 || v >= 4)
						for (const int k2: keys)
							if (k2 != k && v != 5) put(AL, u, v, static_cast<unsigned>(k2));
				}
			if (f & A_ERASE) put(ERK, u);
			if (f & A_ERFORMS)
			{
				put(ERI, u);
				put(ERCI, u);
				put(ERREF, u);
			}
			if ((f & A_HET) && TRANS)
			{
				put(T_ERK, u);
				if (STABLE) put(T_NX, u);
				if (IS_MAP)
				{
					for (unsigned v = 1; v < 3; ++v)
					{
						put(T_TRY, u, v);
						put(T_IOA, u, v);
						put(T_EOR, u, v);
					}
					for (unsigned p = 1; p < 3; ++p)
					{
						put(T_TRY, u, 1, p);
						put(T_IOA, u, 2, p);
						put(T_EOR, u, 1, p);
						put(T_TRY, u, 2, p);
						put(T_EOR, u, 2, p);
						put(T_IOA, u, 1, p);
					}
					put(T_IDX, u);
					put(T_IDX, u, 0, 1);
				}
			}
			if ((f & A_NODE) && STABLE)
			{
				put(NX, u);
				put(NX, u, 0, 1);
				put(NXI, u);
			}
		}
		if ((f & A_NODE) && STABLE)
		{
			put(NI);
			for (unsigned p = 0; p <= std::min<std::size_t>(keys.size(), 3); ++p) put(NIH, 0, 0, p);
			if (IS_MAP)
			{
				put(NIOA);
				put(NIOAH, 0, 0, 0);
				put(NIOAH, 0, 0, 1);
			}
			put(ND);
			put(NMOVE);
			if (IS_MAP)
			{
				put(NMUT, static_cast<unsigned>(keys[0]), 5, 0);
				put(NMUT, static_cast<unsigned>(keys[0]), 6, 1);
			}
			else
				for (unsigned i = 0; i < keys.size(); ++i) put(NMUT, static_cast<unsigned>(keys[i]), 0, i & 1);
		}
		if (f & A_RANGE)
		{
			const auto n = static_cast<unsigned>(keys.size());
			for (unsigned i = 0; i <= n; ++i)
				for (unsigned j = i; j <= n; ++j) put(ERR, i, 0, j);
			for (unsigned msk: {0u, 0xFFu, 0x55u, 0xAAu, 0x06u, 0x18u, 0xE0u}) put(ERIF, msk);
		}
		if (f & A_CLR) put(CLR);
		if (f & A_CAP)
		{
			for (unsigned n: {0u, 1u, 20u, 40u}) put(RH, n);
			for (unsigned n: {0u, 5u, 15u, 30u}) put(RSV, n);
		}
		if (f & A_RSVF)
			for (unsigned n: {1u, 7u, 13u, 14u, 15u, 16u, 27u, 28u, 29u}) put(RSVF, n, 1);
		if (f & A_BULK)
			for (unsigned b: {0u, 1u, 2u})
				for (unsigned msk = 1; msk < (1u << std::min<std::size_t>(keys.size(), 3)); msk += b ? 2 : 1)
				{
					put(B_INS, msk, 1, b);
					put(B_INSF, msk, 2, b);
					put(B_ASG, msk, 1, b);
					put(B_ILV, msk, 2, b);
					put(B_ILT, msk, 1, b);
					put(B_ASGT, msk, 2, b);
				}
		if (f & A_SELF)
		{
			put(SELFC);
			put(SELFM);
			put(SELFS);
		}
		if ((f & A_MLF) && DENSE)
			for (unsigned i = 0; i < std::size(MLFS); ++i) put(MLF, i);
		return r;
	}

	// ---------------------------------------------------------------- job families
	struct Ctx
	{
		std::vector<Job> jobs;
		bool thorough = false;
		void push(Job j, const std::string &name, int layout)
		{
			j.name = name + "/h" + std::to_string(layout);
			j.layout = layout;
			jobs.push_back(std::move(j));
		}
	};
	using LV = std::vector<int>;
	const LV ALL_L = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9};

	// all operation sequences over a few keys, to the fixpoint of the reachable state space (or the state bound)
	inline void f_core(Ctx &x, const std::string &name, unsigned flags, const std::vector<int> &keys, const LV &layouts, std::uint32_t max_states, std::uint32_t max_depth = 1000, const Ops &prefix = {}, int prefix_keys = 0)
	{
		for (int l: layouts)
		{
			Job j;
			j.universe = keys;
			for (int i = 0; i < prefix_keys; ++i) j.universe.push_back(20 + i);
			j.prefix = prefix;
			j.alphabet = alphabet(flags, keys);
			j.max_states = max_states;
			j.max_depth = max_depth;
			x.push(j, name, l);
		}
	}
	// every fill level: from a table of n elements (some of them erased before), all operation sequences up to `depth`
	// every way of passing arguments to every insertion form, for keys that are absent and present
	inline void f_forward(Ctx &x, const std::string &name, const LV &layouts, const std::vector<int> &levels, bool het_only = false)
	{
		for (int l: layouts)
		{
			Job j;
			j.universe = range(18, 60);
			j.gen = [=](Job &)
			{
				for (const int n: levels)
				{
					Fork f(fill(20, n));
					for (unsigned d = het_only ? fwd::TRY_HET * 18 : 0; d < fwd::N_FORMS; ++d)
					{
						if (!fwd::exists(d, IS_MAP, TRANS)) continue;
						const bool hinted = fwd::decode(d).hinted;
						for (const int k: n ? std::vector<int>{18, 20, 20 + n - 1} : std::vector<int>{18})
							for (const int b: hinted ? std::vector<int>{0, n / 2, n} : std::vector<int>{0})
							{
								Op o = mkop(FWD, static_cast<unsigned>(k), 3, static_cast<unsigned>(b));
								o.d = static_cast<decltype(o.d)>(d);
								f.run({o, mkop(INS_M, 19, 1)}, 0, false);
							}
					}
				}
			};
			x.push(j, name, l);
		}
	}
	inline void f_fill(Ctx &x, const std::string &name, const LV &layouts, const std::vector<int> &levels, int depth, unsigned extra = 0, std::uint32_t faults = 0, int faults_depth = 1)
	{
		for (int l: layouts)
		{
			for (int n: levels)
			{
				Job j;
				// keys 1,2 absent; 20 and 20+n-1 present
				std::vector<int> ks = {1, 2};
				if (n > 0) ks.push_back(20);
				if (n > 1) ks.push_back(20 + n - 1);
				j.universe = range(19, 20 + n + 1);
				j.universe.push_back(1);
				j.universe.push_back(2);
				j.prefix = fill(20, n);
				for (const int k: ks)
				{
					j.alphabet.push_back(mkop(INS_M, static_cast<unsigned>(k), 2));
					j.alphabet.push_back(mkop(ERK, static_cast<unsigned>(k)));
					if (IS_MAP && (k == 1 || k == 20)) j.alphabet.push_back(mkop(IOA_C, static_cast<unsigned>(k), 3));
				}
				j.alphabet.push_back(mkop(HINS_C, 2, 2, static_cast<unsigned>(n / 2)));
				j.alphabet.push_back(mkop(ERI, 20));
				j.alphabet.push_back(mkop(ERIF, 0x55));
				j.alphabet.push_back(mkop(RH, 0));
				j.alphabet.push_back(mkop(RSV, static_cast<unsigned>(n + 1)));
				if (extra) add(j.alphabet, alphabet(extra, {1, 20}));
				j.max_depth = static_cast<std::uint32_t>(depth);
				j.max_states = 60000;
				j.max_faults = faults;
				j.max_fault_depth = static_cast<std::uint32_t>(faults_depth);
				x.push(j, name + "-n" + std::to_string(n), l);
			}
		}
	}
	// Table filled with n keys, a subset of them erased (every subset of an s-element window, the window at several places),
	// then the triggers that reorganise the table, each followed by a lookup of everything.
	inline void f_subsets(Ctx &x, const std::string &name, const LV &layouts, int n, int window, const std::vector<int> &offs, int refill)
	{
		for (int l: layouts)
		{
			Job j;
			j.universe = range(19, 20 + n + refill + 1);
			j.gen = [=](Job &)
			{
				Fork f(fill(20, n));
				for (int off: offs)
					for (unsigned m = 1; m < (1u << window); ++m)
					{
						Ops pre;
						for (int b = 0; b < window; ++b)
							if (m >> b & 1) pre.push_back(mkop(ERK, static_cast<unsigned>(20 + (off + b * (n / window > 0 ? n / window : 1)) % n)));
						// tombstones may have been left: refill until the table has to reorganise
						Ops a = pre;
						add(a, fill(20 + n, refill));
						f.run(a, a.size() - 1, false);
						Ops b = pre;
						b.push_back(mkop(RH, 0));
						add(b, fill(20 + n, 2));
						f.run(b, b.size() - 3, (m & 63) == 1);
					}
			};
			x.push(j, name + "-n" + std::to_string(n), l);
		}
	}
	// insert new keys while erasing the oldest: a window of w live keys slides over the universe
	inline void f_churn(Ctx &x, const std::string &name, const LV &layouts, const std::vector<int> &windows, int len)
	{
		for (int l: layouts)
		{
			Job j;
			j.universe = range(0, 100);
			j.gen = [=](Job &)
			{
				for (int w: windows)
					for (int mode = 0; mode < 3; ++mode)
					{
						Ops p;
						for (int i = 0; i < len; ++i)
						{
							p.push_back(mkop(i % 2 ? INS_M : EMP, static_cast<unsigned>(i % 100), static_cast<unsigned>(1 + i % 7)));
							const int victim = mode == 0 ? i - w : mode == 1 ? (i >= w ? (i * 7 + 3) % 100 : -1) : i - w;
							if (victim >= 0 && i >= w) p.push_back(mkop(mode == 2 ? ERI : ERK, static_cast<unsigned>(victim % 100)));
						}
						if (p.size() > 600) p.resize(600);
						run_program(p, 0);
					}
			};
			x.push(j, name, l);
		}
	}
	// growth from empty to n, verified after every insertion, then shrinking back to empty
	// histories over large tables: every size and way of filling, every erasure pattern, every following operation
	inline void f_big(Ctx &x, const LV &layouts, std::size_t sizes, unsigned fills, const std::vector<unsigned> &acts, bool th)
	{
		for (int l: layouts)
			for (std::size_t sz = 0; sz < sizes; ++sz)
			{
				const int n = BIG_SIZES[sz];
				if ((l == 1 || l == 9) && n > 600) continue; // quadratic
				if ((l == 2 || l == 7 || l == 8 || l == 10) && n > 8000) continue;
				Job j;
				j.gen = [=](Job &)
				{
					for (unsigned how = 0; how < N_BFILL; ++how)
						for (unsigned pat = 0; pat < N_BPAT; ++pat)
							for (unsigned act: acts)
							{
								if (!(fills >> how & 1) && (pat || act != acts[0])) continue;
								if (!th && n > 2000 && ((how + pat + act) % 3 || how > 1)) continue;
								if (act == BA_MERGE && !STABLE) continue;
								if (act == BA_NODES && !STABLE) continue;
								run_program({mkop(BIG, static_cast<unsigned>(sz), how, pat * 32 + act)}, 0);
							}
				};
				x.push(j, "big-" + std::to_string(n), l);
			}
	}
	inline void f_grow(Ctx &x, const std::string &name, const LV &layouts, int n)
	{
		for (int l: layouts)
		{
			Job j;
			j.universe = range(0, n + 1);
			j.gen = [=](Job &)
			{
				for (int mode = 0; mode < 4; ++mode)
				{
					Ops p;
					for (int i = 0; i < n; ++i)
					{
						p.push_back(mkop(mode & 1 ? EMP : INS_C, static_cast<unsigned>(i), 1));
						if (IS_MAP && i % 5 == 0) p.push_back(mkop(IOA_M, static_cast<unsigned>(i), 2));
					}
					if (mode & 1) p.push_back(mkop(RH, 0));
					for (int i = 0; i < n; ++i)
					{
						p.push_back(mkop(i % 3 ? ERK : ERI, static_cast<unsigned>(mode & 2 ? n - 1 - i : i)));
						if (mode == 3 && i % 16 == 0) p.push_back(mkop(RH, 0));
					}
					run_program(p, 0);
				}
			};
			x.push(j, name, l);
		}
	}

	// ways to bring a container (slot c) into a state; keys from `base`
	struct Shape { const char *name; Ops ops; };
	inline std::vector<Shape> shapes(unsigned c, int base, bool more)
	{
		std::vector<Shape> r;
		const auto put = [&](const char *n, Ops o) { r.push_back({n, std::move(o)}); };
		const auto cc = static_cast<int>(c);
		const auto op1 = [&](unsigned code, unsigned a, unsigned x = 0, unsigned b = 0) { return Ops{mkop(code, a, x, b, c)}; };
		put("empty", {});
		put("one", fill(base, 1, cc, 1));
		put("three", fill(base, 3, cc, 2));
		{
			auto o = fill(base, 4, cc, 1);
			add(o, op1(CLR, 0));
			put("cleared", o);
		}
		{
			auto o = fill(base, 5, cc, 1);
			add(o, erase_keys(base, 2, 2, cc));
			put("holes", o);
		}
		put("reserved", op1(RSV, 40));
		put("fourteen", fill(base, 14, cc, 1));
		{
			auto o = fill(base, 15, cc, 1);
			add(o, erase_keys(base, 4, 3, cc));
			put("fifteen-holes", o);
		}
		{
			auto o = fill(base, 20, cc, 3);
			add(o, erase_keys(base + 1, 18, 1, cc));
			put("grown-then-two", o);
		}
		if (more)
		{
			put("two", fill(base, 2, cc, 2));
			put("thirtyone", fill(base, 31, cc, 1));
			{
				auto o = fill(base, 29, cc, 1);
				add(o, erase_keys(base, 10, 2, cc));
				put("29-holes", o);
			}
			{
				auto o = op1(RH, 60);
				add(o, fill(base, 3, cc, 1));
				put("wide", o);
			}
			{
				auto o = fill(base, 16, cc, 1);
				add(o, op1(CLR, 0));
				add(o, fill(base + 3, 2, cc, 2));
				put("refilled", o);
			}
		}
		if (DENSE)
		{
			auto o = op1(MLF, 4);
			add(o, fill(base, 9, cc, 1));
			put("mlf2", o);
		}
		return r;
	}
	// pairs of container states x operations on two containers x what is done with the containers afterwards
	inline void f_pairs(Ctx &x, const std::string &name, const LV &layouts, const Ops &ops, bool more, unsigned opt = 0, std::vector<std::uint32_t> tags = {}, bool second_step = true, std::uint32_t faults = 0)
	{
		unsigned nth_layout = 0;
		for (int l: layouts)
		{
			const unsigned hopt = nth_layout++ & 1 ? OPT_HTAGS : 0; // every second layout: containers with functors in different states
			const auto A = shapes(0, 20, more);
			for (std::size_t ia = 0; ia < A.size(); ++ia)
			{
				Job j;
				j.universe = range(20, 26);
				for (int k: {29, 32, 34, 38, 48, 1, 2}) j.universe.push_back(k);
				j.n_init = 3;
				j.opt = opt | hopt;
				j.tags = tags;
				j.gen = [=](Job &)
				{
					const auto A2 = shapes(0, 20, more);
					for (int overlap = 0; overlap < 2; ++overlap)
					{
						const auto B = shapes(1, overlap ? 21 : 48, more);
						for (const auto &b: B)
						{
							auto pre = A2[ia].ops;
							add(pre, b.ops);
							Fork f(pre);
							for (const auto &o: ops)
								for (std::uint32_t ft = 0; ft <= faults; ++ft)
								{
									Op of = o;
									of.f = static_cast<std::uint8_t>(ft);
									if (ft && !Sys::may_fault(o)) break;
									const Ops tails[] = {
										{},
										{mkop(INS_M, 1, 1, 0, 0), mkop(INS_C, 2, 2, 0, 1), mkop(ERK, 20, 0, 0, 0), mkop(ERK, 21, 0, 0, 1), mkop(INS_C, 1, 2, 0, 1), mkop(ERK, 1, 0, 0, 0)},
										{mkop(CLR, 0, 0, 0, 0), mkop(INS_M, 20, 3, 0, 0), mkop(CLR, 0, 0, 0, 1), mkop(INS_M, 21, 3, 0, 1), mkop(RH, 0, 0, 0, 0), mkop(RH, 0, 0, 0, 1)},
										{mkop(CASG, 1, 0, 0, 0), mkop(INS_M, 2, 3, 0, 0), mkop(MASG, 0, 0, 0, 1), mkop(INS_M, 1, 3, 0, 0)},
										{mkop(SWAP, 1, 0, 0, 0), mkop(RSV, 30, 0, 0, 0), mkop(INS_M, 2, 3, 0, 1), mkop(DTOR, 0, 0, 0, 0), mkop(INS_M, 1, 3, 0, 1)},
									};
									bool hit = true;
									for (std::size_t t = 0; t < (second_step ? std::size(tails) : 2); ++t)
									{
										Ops s{of};
										add(s, tails[t]);
										g_fault_hit = false;
										f.run(s);
										if (ft) hit = g_fault_hit;
										if (ft && !hit) break;
										if (ft) shm->faults = shm->faults + 1;
									}
									if (!hit) break;
								}
						}
					}
				};
				x.push(j, name + "-" + A[ia].name, l);
			}
		}
	}
	inline Ops pair_ops()
	{
		Ops r;
		for (unsigned code: {CCTOR, CASG, MCTOR, MASG, SWAP})
		{
			r.push_back(mkop(code, 1, 0, 0, 0));
			r.push_back(mkop(code, 0, 0, 0, 1));
		}
		r.push_back(mkop(SWAP, 1, 0, 1, 0));
		for (unsigned code: {CCTOR, MCTOR})
		{
			r.push_back(mkop(code, 0, 0, 0, 2));
			r.push_back(mkop(code, 1, 0, 0, 2));
		}
		for (unsigned code: {SELFC, SELFM, SELFS}) r.push_back(mkop(code, 0, 0, 0, 0));
		if (STABLE)
			for (unsigned code: {MRG_L, MRG_R})
			{
				r.push_back(mkop(code, 1, 0, 0, 0));
				r.push_back(mkop(code, 0, 0, 0, 1));
			}
		if (STABLE) r.push_back(mkop(MRG_X, 1, 0, 0, 0));
		if (STABLE) r.push_back(mkop(MRG_X, 0, 0, 1, 1));
		if (STABLE) r.push_back(mkop(SELFMRG, 0, 0, 0, 0));
		return r;
	}
	inline Ops alloc_ops()
	{
		Ops r = pair_ops();
		for (unsigned tag: {1u, 2u, 3u})
			for (unsigned q = 0; q < 2; ++q)
			{
				r.push_back(mkop(CCTOR_A, q, 0, tag, 2));
				r.push_back(mkop(MCTOR_A, q, 0, tag, 2));
			}
		return r;
	}
	// BFS over two containers
	// every way to construct a container, then some insertions and erasures
	inline void f_ctors(Ctx &x, int l, bool faults = false)
	{
		Job j;
		j.universe = range(20, 44);
		j.n_init = 4;
		j.gen = [=](Job &)
		{
			for (unsigned form = 0; form < 2 * N_CTORS; ++form)
				for (unsigned msk: {0u, 1u, 5u, 7u, 0x3Eu, 0xFFu})
					for (unsigned b = 0; b < 4; ++b)
						for (unsigned f = 0; f < (faults ? 120u : 1u); ++f)
						{
							if (!ctor_list(form % N_CTORS) && (msk || b)) continue;
							Op o = mkop(CTORS, msk, form, b);
							o.f = static_cast<std::uint8_t>(f);
							g_fault_hit = false;
							run_program({o, mkop(INS_M, 20, 3), mkop(ERK, 21), mkop(B_INS, 0xFF, 4), mkop(CCTOR, 0, 0, 0, 1)});
							if (f && !g_fault_hit) break;
							if (f) shm->faults = shm->faults + 1;
						}
		};
		x.push(j, faults ? "construct-faults" : "construct", l);
	}
	inline void f_two(Ctx &x, const std::string &name, const LV &layouts, const std::vector<int> &keys, std::uint32_t max_states, std::uint32_t max_depth, unsigned opt = 0, std::vector<std::uint32_t> tags = {}, bool allocs = false, bool nodes = false, std::uint32_t faults = 0)
	{
		unsigned nth_layout = 0;
		for (int l: layouts)
		{
			const unsigned hopt = nth_layout++ & 1 ? OPT_HTAGS : 0; // every second layout: containers with functors in different states
			Job j;
			j.universe = keys;
			j.n_init = 3;
			j.opt = opt | hopt;
			j.tags = tags;
			for (unsigned s = 0; s < 2; ++s)
			{
				for (int k: keys)
				{
					j.alphabet.push_back(mkop(INS_M, static_cast<unsigned>(k), s + 1, 0, s));
					j.alphabet.push_back(mkop(ERK, static_cast<unsigned>(k), 0, 0, s));
					if (nodes && STABLE) j.alphabet.push_back(mkop(NX, static_cast<unsigned>(k), 0, 0, s));
				}
				j.alphabet.push_back(mkop(CLR, 0, 0, 0, s));
				j.alphabet.push_back(mkop(RSV, 20, 0, 0, s));
				j.alphabet.push_back(mkop(DTOR, 0, 0, 0, s));
				j.alphabet.push_back(mkop(DCTOR, s ? 17 : 0, 0, 0, s));
				if (IS_MAP) j.alphabet.push_back(mkop(IOA_C, static_cast<unsigned>(keys[0]), 3, 0, s));
				if (nodes && STABLE)
				{
					j.alphabet.push_back(mkop(NI, 0, 0, 0, s));
					j.alphabet.push_back(mkop(NIH, 0, 0, 0, s));
					j.alphabet.push_back(mkop(NIH, 0, 0, 1, s));
					if (IS_MAP)
					{
						j.alphabet.push_back(mkop(NIOA, 0, 0, 0, s));
						j.alphabet.push_back(mkop(NIOAH, 0, 0, 0, s));
					}
				}
			}
			if (nodes && STABLE)
			{
				j.alphabet.push_back(mkop(ND));
				j.alphabet.push_back(mkop(NMOVE));
				for (int k: keys)
					if (!IS_MAP || k == keys[0]) j.alphabet.push_back(mkop(NMUT, static_cast<unsigned>(k), IS_MAP ? 5 : 0, 0));
			}
			add(j.alphabet, allocs ? alloc_ops() : pair_ops());
			j.max_states = max_states;
			j.max_depth = max_depth;
			j.max_faults = faults;
			x.push(j, name, l);
		}
	}
	// deterministic programs whose observations are hashed, for the comparison of builds
	inline void f_obs(Ctx &x, const std::string &name, const LV &layouts, const std::vector<int> &levels, bool deep)
	{
		for (int l: layouts)
		{
			Job j;
			j.opt = OPT_OBS;
			j.universe = range(18, 70);
			j.gen = [=](Job &)
			{
				Ops al = alphabet(A_INS | A_MAP | A_ERASE, {18, 20});
				al.push_back(mkop(CLR));
				al.push_back(mkop(RH, 0));
				al.push_back(mkop(RSV, 33));
				al.push_back(mkop(ERIF, 0x33));
				al.push_back(mkop(HINS_C, 18, 1, 1));
				al.push_back(mkop(CCTOR, 0, 0, 0, 1));
				al.push_back(mkop(MASG, 1, 0, 0, 0));
				al.push_back(mkop(SWAP, 1, 0, 0, 0));
				if (STABLE)
				{
					al.push_back(mkop(NX, 20));
					al.push_back(mkop(NI));
					al.push_back(mkop(MRG_L, 1));
				}
				for (int n: levels)
				{
					Ops pre = fill(20, n);
					for (int e = 0; e < 2; ++e)
					{
						if (e)
							for (int i = 1; i < n; i += 2) pre.push_back(mkop(ERK, static_cast<unsigned>(20 + i)));
						Fork f(pre);
						for (const auto &a: al)
						{
							for (const auto &b: al)
								if (!deep) f.run({a, b}, 0, false);
								else
									for (const auto &c: al) f.run({a, b, c}, 2, false);
						}
					}
				}
			};
			x.push(j, name, l);
		}
	}

	std::vector<Job> make_jobs(const std::string &prop, const std::string &tier)
	{
		Ctx x;
		const bool th = x.thorough = tier == "thorough";
		const LV Lq = th ? ALL_L : LV{0, 1, 2, 4, 5};
		const LV Lm = th ? ALL_L : LV{0, 1, 3, 7};
		const LV L2 = th ? ALL_L : LV{0, 1};
		const unsigned SINGLE = A_INS | A_FORMS | A_MAP | A_ERASE | A_ERFORMS | A_CLR;
		std::vector<int> lev = range(0, th ? 100 : 34);
		if (!th) for (int n: {55, 56, 57, 62, 63, 64, 112}) lev.push_back(n);
		const std::vector<int> edge = th ? range(0, 64) : std::vector<int>{0, 1, 6, 7, 8, 12, 13, 14, 15, 16, 26, 27, 28, 29, 30};

		if (prop == "C01" || prop == "C02" || prop == "C03")
		{
			f_core(x, "core", SINGLE | A_CAP | A_RANGE, {1, 2, 3}, Lq, th ? 60000 : 4000);
			f_core(x, "four", A_INS | A_ERASE | A_CLR, {1, 2, 3, 4}, Lq, th ? 200000 : 20000);
			f_fill(x, "fill", th ? ALL_L : LV{0, 2, 4}, lev, 2, IS_MAP ? A_MAP : 0);
			f_subsets(x, "subsets", Lq, 15, th ? 14 : 9, {0, 3}, 20);
			f_subsets(x, "subsets", L2, 29, th ? 14 : 9, {0}, 8);
			f_churn(x, "churn", th ? ALL_L : LV{0, 1, 9}, th ? range(1, 40) : std::vector<int>{1, 2, 6, 7, 13, 14, 24}, 300);
			f_grow(x, "grow", th ? ALL_L : LV{0, 5, 6, 8}, 120);
			f_pairs(x, "pairs", LV{0}, {mkop(CCTOR, 0, 0, 0, 1), mkop(MASG, 0, 0, 0, 1), mkop(SWAP, 1)}, false);
		}
		else if (prop == "C05")
		{
			f_core(x, "map", SINGLE | A_HINT, {1, 2}, Lq, th ? 60000 : 6000);
			f_core(x, "map3", A_INS | A_MAP | A_ERASE, {1, 2, 3}, Lm, th ? 60000 : 6000);
			f_fill(x, "fill", th ? ALL_L : LV{0, 3}, lev, 2, A_MAP);
			f_fill(x, "hints", L2, edge, 2, A_HINT | A_MAP);
			f_forward(x, "forward", LV{0}, {0, 1, 7, 14});
		}
		else if (prop == "C06")
		{
			{
				// few elements in much room
				Job j;
				j.gen = [=](Job &)
				{
					for (unsigned bits = 3; bits <= (th ? 20u : 18u); bits += th || bits < 8 ? 1 : 2)
						for (unsigned n = 0; n <= 5; ++n)
							for (unsigned start = 0; start < 4; ++start)
							{
								Op o = mkop(HUGE, bits, 5, n);
								o.d = static_cast<std::uint8_t>(start);
								run_program({o});
							}
				};
				x.push(j, "far", 0);
			}
			f_core(x, "iter", A_INS | A_ERASE | A_ERFORMS | A_RANGE | A_CLR, {1, 2, 3, 4}, Lq, th ? 100000 : 6000);
			f_core(x, "iter5", A_INS | A_RANGE, {1, 2, 3, 4, 5}, L2, th ? 100000 : 6000);
			f_fill(x, "fill", th ? ALL_L : LV{0, 2, 4}, lev, 2, A_ERFORMS);
			for (int l: Lm)
			{
				// every range and every predicate mask over tables of every size
				Job j;
				const int top = th ? 40 : 20;
				j.universe = range(20, 20 + top + 1);
				j.gen = [=](Job &)
				{
					for (int n = 0; n <= top; ++n)
						for (int holes = 0; holes < 2; ++holes)
						{
							Ops pre = fill(20, n);
							if (holes)
								for (int i = 0; i < n; i += 3) pre.push_back(mkop(ERK, static_cast<unsigned>(20 + i)));
							Fork f(pre);
							for (int a = 0; a <= n; ++a)
								for (int b = a; b <= n; ++b) f.run({mkop(ERR, static_cast<unsigned>(a), 0, static_cast<unsigned>(b)), mkop(INS_M, 21, 2)}, 0, false);
							for (unsigned msk = 0; msk < 256; ++msk) f.run({mkop(ERIF, msk), mkop(INS_M, 21, 2)}, 0, false);
							for (int a = 0; a < n; ++a) f.run({mkop(ERI, static_cast<unsigned>(20 + a)), mkop(ERCI, static_cast<unsigned>(20 + (a * 7 + 1) % n)), mkop(ERREF, static_cast<unsigned>(20 + (a * 5 + 2) % n)), mkop(INS_C, static_cast<unsigned>(20 + a), 2)}, 0, false);
						}
				};
				x.push(j, "ranges", l);
			}
			f_pairs(x, "pairs", LV{0}, {mkop(CCTOR, 0, 0, 0, 1), mkop(MASG, 0, 0, 0, 1), mkop(SWAP, 1)}, false);
		}
		else if (prop == "C07")
		{
			if (!IS_ORD) return {};
			f_core(x, "order", A_INS | A_HINT | A_ERASE | A_RANGE | A_CLR | (th ? A_MAP : 0u), {1, 2, 3}, L2, th ? 100000 : 5000);
			f_core(x, "order4", A_INS | A_ERASE, {1, 2, 3, 4, 5}, Lm, th ? 200000 : 12000);
			f_fill(x, "fill", th ? ALL_L : LV{0, 1, 4}, lev, 2, A_MAP | A_HINT);
			f_subsets(x, "subsets", Lm, 15, th ? 14 : 8, {0, 3}, 20);
			f_churn(x, "churn", th ? ALL_L : LV{0, 9}, th ? range(1, 40) : std::vector<int>{1, 7, 14, 24}, 300);
			f_pairs(x, "pairs", L2, pair_ops(), th);
			for (int l: Lm)
			{
				// a hint at every position of a table of every size: growth and reorganisation happen under the hint
				Job j;
				const int top = th ? 70 : 34;
				j.universe = range(20, 20 + top + 3);
				j.gen = [=](Job &)
				{
					for (int n = 0; n <= top; ++n)
						for (int holes = 0; holes < 2; ++holes)
						{
							Ops pre = fill(20, n);
							int live = n;
							if (holes)
								for (int i = 0; i < n; i += 2, --live) pre.push_back(mkop(ERK, static_cast<unsigned>(20 + i)));
							Fork f(pre);
							for (int p = 0; p <= live; ++p)
							{
								const auto u = static_cast<unsigned>(p);
								f.run({mkop(HINS_M, 10, 2, u), mkop(HINS_C, 11, 2, u), mkop(EMPH, 12, 2, u), mkop(HINS_C, 21, 2, u), mkop(ERK, 11)}, 0, false);
								if (IS_MAP) f.run({mkop(TRYH, 10, 2, u), mkop(IOAH, 11, 2, u), mkop(EORH, 12, 2, u), mkop(IOAH, 21, 2, u), mkop(EORH, 12, 3, u)}, 0, false);
							}
						}
				};
				x.push(j, "hint-positions", l);
			}
		}
		else if (prop == "C08")
		{
			f_two(x, "two", Lm, {1, 2}, th ? 100000 : 5000, 1000);
			Ops ops;
			for (unsigned q = 0; q < 2; ++q)
			{
				ops.push_back(mkop(CCTOR, q, 0, 0, 2));
				ops.push_back(mkop(CCTOR_A, q, 0, 0, 2));
				ops.push_back(mkop(CCTOR, q, 0, 0, 1 - q));
				ops.push_back(mkop(CASG, q, 0, 0, 1 - q));
			}
			ops.push_back(mkop(SELFC, 0));
			f_pairs(x, "pairs", th ? ALL_L : LV{0, 1, 4}, ops, true);
			for (int l: Lq)
			{
				Job j;
				j.universe = range(18, 100);
				j.n_init = 3;
				j.gen = [=](Job &)
				{
					for (int n = 0; n <= (th ? 80 : 40); ++n)
						for (int holes = 0; holes < 3; ++holes)
						{
							Ops pre = fill(20, n);
							if (holes)
								for (int i = 0; i < n; i += holes + 1) pre.push_back(mkop(ERK, static_cast<unsigned>(20 + i)));
							Fork f(pre);
							for (int mode = 0; mode < 4; ++mode)
							{
								Ops s;
								const unsigned d = mode < 2 ? 2 : 1;
								if (mode == 3) add(s, fill(60, 17, 1));
								s.push_back(mkop(mode == 0 ? CCTOR : mode == 1 ? CCTOR_A : CASG, 0, 0, 0, d));
								for (unsigned k: {18u, 19u, 21u, 99u}) s.push_back(mkop(INS_M, k, 2, 0, d));
								for (unsigned k: {21u, 22u, 98u}) s.push_back(mkop(ERK, k, 0, 0, d));
								s.push_back(mkop(RH, 0, 0, 0, d));
								s.push_back(mkop(CLR, 0, 0, 0, 0));
								s.push_back(mkop(INS_M, 21, 3, 0, 0));
								s.push_back(mkop(DTOR, 0, 0, 0, 0));
								s.push_back(mkop(INS_M, 22, 3, 0, d));
								f.run(s, static_cast<std::size_t>(mode == 3 ? 17 : 0));
							}
						}
				};
				x.push(j, "copies-of-every-size", l);
			}
		}
		else if (prop == "C09")
		{
			f_two(x, "two", Lm, {1, 2}, th ? 100000 : 5000, 1000);
			Ops ops;
			for (unsigned q = 0; q < 2; ++q)
			{
				ops.push_back(mkop(MCTOR, q, 0, 0, 2));
				ops.push_back(mkop(MCTOR_A, q, 0, 0, 2));
				ops.push_back(mkop(MCTOR, q, 0, 0, 1 - q));
				ops.push_back(mkop(MASG, q, 0, 0, 1 - q));
				ops.push_back(mkop(SWAP, q, 0, 0, 1 - q));
				ops.push_back(mkop(SWAP, q, 0, 1, 1 - q));
			}
			ops.push_back(mkop(SELFM, 0));
			ops.push_back(mkop(SELFS, 0));
			ops.push_back(mkop(SELFC, 0));
			f_pairs(x, "pairs", th ? ALL_L : LV{0, 1, 4}, ops, true);
			f_pairs(x, "functors", LV{0}, ops, th, OPT_HTAGS);
		}
		else if (prop == "C10")
		{
			if (!STABLE) return {};
			f_core(x, "addr", SINGLE | A_CAP | A_RANGE | A_HINT, {1, 2, 3}, L2, th ? 60000 : 4000);
			f_fill(x, "fill", th ? ALL_L : LV{0, 2, 4}, lev, 2, A_MAP);
			f_core(x, "nodes", A_INS | A_ERASE | A_NODE | A_CLR, {1, 2, 3}, L2, th ? 60000 : 4000);
			f_churn(x, "churn", L2, {1, 7, 14, 24}, 250);
			f_grow(x, "grow", L2, 120);
			f_pairs(x, "pairs", L2, pair_ops(), th);
			f_subsets(x, "subsets", L2, 15, th ? 14 : 8, {0}, 20);
		}
		else if (prop == "C11")
		{
			if (!STABLE) return {};
			f_core(x, "nodes", A_INS | A_ERASE | A_NODE | A_CLR, {1, 2, 3}, Lq, th ? 60000 : 5000);
			f_two(x, "two-nodes", Lm, {1, 2}, th ? 100000 : 5000, 1000, 0, {}, false, true);
			f_fill(x, "fill", L2, edge, 3, A_NODE);
			Ops ops;
			for (unsigned q = 0; q < 2; ++q)
			{
				ops.push_back(mkop(MRG_L, q, 0, 0, 1 - q));
				ops.push_back(mkop(MRG_R, q, 0, 0, 1 - q));
			}
			ops.push_back(mkop(SELFMRG, 0));
			for (unsigned b: {0u, 1u})
			{
				ops.push_back(mkop(MRG_X, 0, 0, b, 1));
				ops.push_back(mkop(MRG_X, 1, 0, b, 0));
			}
			f_pairs(x, "merge", th ? ALL_L : LV{0, 1, 4}, ops, true);
			f_core(x, "faults", A_INS | A_NODE, {1, 2}, L2, 3000, 6);
			for (auto &j: x.jobs)
				if (j.name.rfind("faults", 0) == 0) j.max_faults = 12;
			for (int l: L2)
			{
				Job j;
				j.universe = range(20, 70);
				j.n_init = 3;
				j.gen = [=](Job &)
				{
					for (int n = 0; n <= 34; ++n)
						for (int o = 0; o <= 34; o += th ? 1 : 3)
							for (int shift: {0, 5, 40})
							{
								auto p = fill(20, n, 0, 1);
								add(p, fill(20 + shift, o, 1, 2));
								Fork f(p);
								for (unsigned code: {MRG_L, MRG_R, MRG_X})
								{
									f.run({mkop(code, 1, 0, 0, 0), mkop(INS_M, 20, 3, 0, 1), mkop(ERK, 20, 0, 0, 0), mkop(code, 0, 0, 0, 1), mkop(INS_M, 22, 3, 0, 0)}, 0, true);
								}
								// move everything over one node at a time, through node handles
								Ops t;
								for (int i = 0; i < o && i < 20; ++i)
								{
									t.push_back(mkop(NX, static_cast<unsigned>(20 + shift + i), 0, 0, 1));
									t.push_back(mkop(i % 2 ? NI : NIH, 0, 0, static_cast<unsigned>(i % 5), 0));
								}
								f.run(t, t.size() ? t.size() - 1 : 0, true);
							}
				};
				x.push(j, "merge-sizes", l);
			}
		}
		else if (prop == "C12")
		{
			f_core(x, "core", SINGLE | A_CAP | A_RANGE | A_BULK | A_HINT | A_NODE | A_SELF, {1, 2}, Lm, th ? 60000 : 4000);
			f_fill(x, "fill", th ? ALL_L : LV{0, 1}, edge, 2, A_MAP | A_BULK | A_NODE | A_CLR);
			f_two(x, "two", L2, {1, 2}, th ? 100000 : 5000, 1000, 0, {}, true, true);
			f_pairs(x, "pairs", L2, pair_ops(), th);
			f_subsets(x, "subsets", L2, 15, th ? 14 : 8, {0}, 20);
			f_churn(x, "churn", L2, {1, 7, 14, 24}, 250);
			f_grow(x, "grow", LV{0}, 120);
		}
		else if (prop == "C13")
		{
			f_core(x, "core", A_INS | A_FORMS | A_MAP | A_ERASE | A_ERFORMS | A_CLR, {1, 2}, L2, th ? 30000 : 3000, th ? 1000 : 5);
			f_core(x, "core-bulk", A_INS | A_CAP | A_RANGE | A_BULK, {1, 2, 3}, L2, th ? 30000 : 2500, th ? 1000 : 5);
			f_core(x, "core-hint", A_INS | A_HINT | A_MAP | A_NODE, {1, 2}, L2, th ? 30000 : 2500, th ? 1000 : 5);
			for (auto &j: x.jobs) { j.max_faults = 40; j.max_fault_depth = 2; }
			f_fill(x, "fill", th ? ALL_L : LV{0, 1}, edge, th ? 2 : 1, A_MAP | A_BULK | A_HINT | A_FORMS | A_NODE | A_ERFORMS | A_CAP, 90, 1);
			f_fill(x, "fill-deep", LV{0}, {7, 14, 15, 28}, 2, 0, 60, 1);
			f_two(x, "two", L2, {1, 2}, th ? 60000 : 2500, th ? 1000 : 4, 0, {0, 0, 0}, true, false, 30);
			f_two(x, "two-alloc", LV{0}, {1, 2}, th ? 60000 : 2500, th ? 1000 : 4, 0, {1, 2, 3}, true, true, 30);
			f_pairs(x, "pairs", LV{0}, alloc_ops(), th, 0, {1, 2, 3}, false, th ? 120 : 60);
			// bulk construction
			for (int l: L2)
			{
				Job j;
				j.universe = range(20, 36);
				j.n_init = 4;
				j.gen = [=](Job &)
				{
					for (unsigned code: {B_CTOR, B_CTORF})
						for (unsigned b: {0u, 1u, 2u, 3u})
							for (unsigned msk: {0u, 1u, 7u, 0xFFu})
								for (unsigned f = 0; f < 120; ++f)
								{
									Op o = mkop(code, msk, 1, b);
									o.f = static_cast<std::uint8_t>(f);
									g_fault_hit = false;
									run_program({o, mkop(INS_M, 20, 3)});
									if (f && !g_fault_hit) break;
									if (f) shm->faults = shm->faults + 1;
								}
				};
				x.push(j, "construction", l);
				f_ctors(x, l, true);
			}
		}
		else if (prop == "C14")
		{
			f_core(x, "resize", A_INS | A_ERASE | A_CAP | A_CLR, {1, 2, 3}, Lq, th ? 60000 : 4000);
			f_fill(x, "fill", ALL_L, lev, th ? 2 : 1, A_CAP);
			f_subsets(x, "subsets", Lq, 15, th ? 14 : 9, {0, 3}, 20);
			f_subsets(x, "subsets", L2, 24, th ? 14 : 9, {0}, 8);
			f_subsets(x, "subsets", L2, 29, th ? 14 : 9, {0}, 8);
			f_churn(x, "churn", th ? ALL_L : LV{0, 1, 4, 9}, th ? range(1, 40) : std::vector<int>{1, 2, 6, 7, 13, 14, 24}, 300);
			f_grow(x, "grow", th ? ALL_L : LV{0, 1, 5, 8}, 120);
		}
		else if (prop == "C15")
		{
			f_obs(x, "obs", th ? ALL_L : LV{0, 1, 2, 4}, th ? range(0, 44) : std::vector<int>{0, 1, 5, 7, 8, 13, 14, 15, 16, 28, 30}, false);
			f_obs(x, "obs3", LV{0}, {0, 14}, true);
			f_core(x, "core", A_INS | A_MAP | A_ERASE | A_CAP | A_RANGE | A_CLR, {1, 2, 3}, th ? ALL_L : LV{0, 2}, th ? 60000 : 3000);
			f_subsets(x, "subsets", L2, 15, th ? 14 : 7, {0}, 20);
			f_churn(x, "churn", L2, {7, 14, 24}, 250);
		}
		else if (prop == "C16")
		{
			{
				Job j;
				j.gen = [=](Job &)
				{
					for (unsigned a = 0; a < caps::N_SIZES; ++a)
						for (unsigned b = 0; b < (DENSE ? caps::N_FACTORS : 1); ++b)
						{
							if (th || (a == 1 && b < 2) || (a == 4 && b < 2) || a == 9 || (a == 11 && b == 0)) run_program({mkop(HUGE, a, 0, b)});
							if (th && !STABLE && (a == 4 || a == 7) && b < 2) run_program({mkop(HUGE, a, 1, b)});
						}
				};
				x.push(j, "room", 0);
				j.gen = [=](Job &)
				{
					for (unsigned a = 0; a < caps::N_TOO_MUCH; ++a)
						for (unsigned b = 0; b < 3; ++b)
							for (unsigned how = 2; how < 5; ++how) run_program({mkop(HUGE, a, how, b)});
				};
				x.push(j, "too-much", 0);
			}
			if (DENSE)
				for (int l: L2)
				{
					// containers with different maximum load factors, empty and not, take over each other's contents and are filled
					Job j;
					j.universe = range(18, 160);
					j.n_init = 3;
					j.gen = [=](Job &)
					{
						for (unsigned ma = 0; ma < std::size(MLFS); ++ma)
							for (unsigned mb = 0; mb < std::size(MLFS); ++mb)
								for (int na: {0, 5, 20})
									for (int nb: {0, 7})
									{
										if (ma == mb && ma) continue;
										auto pre = fill(20, na, 0);
										add(pre, fill(20, nb, 1));
										pre.push_back(mkop(MLF, ma, 0, 0, 0));
										pre.push_back(mkop(MLF, mb, 0, 0, 1));
										Fork f(pre);
										for (unsigned code: {SWAP, MASG, CASG, MCTOR, CCTOR})
										{
											const unsigned to = code == MCTOR || code == CCTOR ? 2 : 0;
											f.run({mkop(code, 1, 0, 0, to), mkop(RSVF, 30, 1, 0, to), mkop(RSVF, 30, 1, 0, 1)}, 0, false);
											Ops o{mkop(code, 1, 0, 0, to)};
											add(o, fill(60, 25, static_cast<int>(to)));
											add(o, fill(60, 25, 1));
											f.run(o, 0, false);
										}
									}
					};
					x.push(j, "limits", l);
				}
			f_core(x, "cap", A_INS | A_ERASE | A_CAP | A_MLF | A_CLR, {1, 2}, L2, th ? 60000 : 8000, th ? 1000 : 6);
			f_churn(x, "churn", th ? ALL_L : LV{0, 1, 4, 9}, th ? range(1, 40) : std::vector<int>{1, 2, 7, 13, 14, 24, 28}, 300);
			f_grow(x, "grow", th ? ALL_L : LV{0, 1}, 140);
			for (int l: Lm)
			{
				// reserve / rehash with every argument, on tables of every size, then fill up
				Job j;
				j.universe = range(18, 160);
				j.gen = [=](Job &)
				{
					for (unsigned ml = 0; ml < (DENSE ? std::size(MLFS) : 1); ++ml)
						for (int n: {0, 1, 3, 7, 8, 13, 14, 15, 28, 29})
							for (int holes = 0; holes < 2; ++holes)
							{
								if (ml && n % 7) continue;
								Ops pre;
								if (DENSE) pre.push_back(mkop(MLF, ml));
								add(pre, fill(20, n));
								if (holes)
									for (int i = 0; i < n; i += 2) pre.push_back(mkop(ERK, static_cast<unsigned>(20 + i)));
								Fork f(pre);
								for (unsigned r = 0; r < (th ? 140u : 68u); ++r)
								{
									f.run({mkop(RSVF, r, 1)}, 0, false);
									f.run({mkop(RH, r), mkop(INS_M, 18, 1), mkop(INS_M, 19, 1)}, 0, false);
									f.run({mkop(RSV, r), mkop(RH, 0), mkop(RSVF, r / 2 + 1)}, 0, false);
									f.run({mkop(RH, 140 - r), mkop(RH, r), mkop(RSVF, r, 1), mkop(ERK, 20), mkop(ERK, 22), mkop(RSVF, r, 1)}, 0, false);
								}
							}
				};
				x.push(j, "reserve", l);
			}
			for (int l: L2)
			{
				Job j;
				j.universe = range(18, 60);
				j.n_init = 4;
				j.gen = [=](Job &)
				{
					for (unsigned n = 0; n < (th ? 200u : 80u); ++n)
						run_program({mkop(DCTOR, n), mkop(INS_M, 20, 1), mkop(INS_M, 21, 1), mkop(RSVF, 20, 1), mkop(ERK, 20)});
				};
				x.push(j, "construct", l);
			}
		}
		else if (prop == "C17")
		{
			if (IS_MAP)
			{
				Job j;
				j.gen = [](Job &)
				{
					for (unsigned a = 0; a < refs::N_REFS; ++a)
						for (unsigned x = 0; x < 2; ++x) run_program({mkop(REFS, a, x)});
				};
				x.push(j, "references", 0);
			}
			f_two(x, "two", Lm, {1, 2, 3}, th ? 100000 : 6000, 1000);
			f_pairs(x, "pairs", th ? ALL_L : LV{0, 1, 3}, pair_ops(), true);
			for (int l: Lq)
			{
				// every pair of small contents, inserted in different orders, with different histories
				Job j;
				j.universe = {1, 2, 3, 4};
				j.n_init = 3;
				j.gen = [=](Job &)
				{
					for (unsigned a = 0; a < 81; ++a)
						for (int hist = 0; hist < 4; ++hist)
						{
							Ops pre;
							unsigned q = a;
							if (hist == 1) add(pre, fill(20, 20)), pre.push_back(mkop(CLR));
							if (hist == 2) add(pre, fill(1, 4)), add(pre, erase_keys(1, 4));
							for (unsigned k = 1; k <= 4; ++k, q /= 3)
								if (q % 3) pre.push_back(mkop(INS_M, hist == 3 ? 5 - k : k, q % 3));
							Fork f(pre);
							for (unsigned b = 0; b < 81; ++b)
							{
								Ops s;
								unsigned p = b;
								for (unsigned k = 1; k <= 4; ++k, p /= 3)
									if (p % 3) s.push_back(mkop(INS_M, k, p % 3, 0, 1));
								f.run(s, s.size() ? s.size() - 1 : 0, false);
							}
						}
				};
				x.push(j, "contents", l);
			}
			for (int l: L2)
			{
				Job j;
				j.universe = range(20, 60);
				j.n_init = 3;
				j.gen = [=](Job &)
				{
					for (int n = 0; n <= 24; ++n)
					{
						Ops pre = fill(20, n, 0);
						for (int i = n; i--;) pre.push_back(mkop(INS_M, static_cast<unsigned>(20 + i), 1, 0, 1));
						Fork f(pre);
						f.run({}, 0, false);
						for (int i = 0; i < n; ++i)
						{
							const auto k = static_cast<unsigned>(20 + i);
							f.run({mkop(ERK, k, 0, 0, 0), mkop(ERK, k, 0, 0, 1), mkop(INS_M, k, 2, 0, 0), mkop(INS_M, k, 2, 0, 1), mkop(ERK, k, 0, 0, 1), mkop(INS_M, 50, 1, 0, 1)}, 0, false);
							if (IS_MAP) f.run({mkop(IOA_C, k, 2, 0, 1), mkop(IOA_C, k, 2, 0, 0)}, 0, false);
						}
					}
				};
				x.push(j, "reversed", l);
			}
		}
		else if (prop == "C18")
		{
			f_core(x, "het", A_INS | A_ERASE | A_HET | A_CLR, {1, 2, 3}, Lq, th ? 60000 : 6000);
			f_fill(x, "fill", Lm, edge, 2, A_HET);
			f_churn(x, "churn", L2, {1, 7, 14, 24}, 200);
			if (IS_MAP) f_forward(x, "forward", th ? ALL_L : LV{0, 1}, th ? range(0, 30) : std::vector<int>{0, 1, 7, 14, 28}, true);
		}
		else if (prop == "C19")
		{
			for (const auto &tags: {std::vector<std::uint32_t>{1, 2, 3}, std::vector<std::uint32_t>{1, 1, 1}})
			{
				const std::string t = tags[1] == 2 ? "-different" : "-same";
				f_two(x, "two" + t, LV{0, 1}, {1, 2}, th ? 60000 : 3000, 1000, 0, tags, true, true);
				f_pairs(x, "pairs" + t, th ? ALL_L : LV{0}, alloc_ops(), th, 0, tags);
			}
			f_ctors(x, 0);
		}
		else if (prop == "C20")
		{
			f_core(x, "args", SINGLE | A_HINT | A_BULK, {1, 2}, Lq, th ? 60000 : 6000);
			f_forward(x, "forward", th ? ALL_L : LV{0, 1}, th ? range(0, 30) : std::vector<int>{0, 1, 6, 7, 8, 14, 28});
			f_fill(x, "fill", L2, edge, 2, A_FORMS | A_MAP | A_HINT | A_BULK);
			f_fill(x, "fill-all", LV{0}, lev, 1, A_FORMS | A_MAP | A_HINT | A_BULK);
			f_pairs(x, "moves", L2, alloc_ops(), th, 0, {1, 2, 3}, false);
		}
		else if (prop == "C21")
		{
			f_core(x, "bulk", A_INS | A_ERASE | A_BULK | A_CLR, {1, 2, 3}, Lm, th ? 60000 : 5000);
			for (int l: Lq)
			{
				Job j;
				j.universe = range(20, 44);
				j.gen = [=](Job &)
				{
					for (int n = 0; n <= (th ? 34 : 17); ++n)
						for (int from: {20, 26, 60})
						{
							auto pre = fill(from, n);
							for (int holes = 0; holes < 2; ++holes)
							{
								if (holes) add(pre, erase_keys(from, n / 2, 2));
								Fork f(pre);
								for (unsigned code: {B_INS, B_INSF, B_ILV, B_ILT, B_ASG, B_ASGT})
								{
									for (unsigned msk = 0; msk < 256; msk += th || n % 7 == 0 ? 1 : 5)
										for (unsigned b = 0; b < 3; ++b) f.run({mkop(code, msk, 2, b), mkop(ERK, 21), mkop(code, msk, 3, b)}, 0, false);
									f.run({mkop(code, 0, 2, 3), mkop(code, 0x0F, 3, 1), mkop(INS_M, 90, 1)}, 0, false);
								}
							}
						}
				};
				x.push(j, "bulk-into-every-size", l);
				Job q;
				q.universe = range(20, 44);
				q.n_init = 4;
				q.gen = [=](Job &)
				{
					for (unsigned code: {B_CTOR, B_CTORF})
						for (unsigned msk = 0; msk < 256; ++msk)
							for (unsigned b = 0; b < 4; ++b) run_program({mkop(code, msk, 2, b), mkop(INS_M, 20, 3), mkop(ERK, 21), mkop(B_INS, 0xFF, 4)});
				};
				x.push(q, "bulk-construct", l);
				f_ctors(x, l);
			}
		}
		else if (prop == "C22")
		{
			f_core(x, "noop", SINGLE | A_HINT | A_RANGE | A_CAP, {1, 2}, Lq, th ? 60000 : 5000);
			f_fill(x, "fill", th ? ALL_L : LV{0, 2}, lev, 2, A_ERASE | A_INS);
			f_two(x, "two", L2, {1, 2}, th ? 60000 : 3000, 1000);
		}
		else if (prop == "C23")
		{
			f_core(x, "alias", A_INS | A_ERASE | A_ERFORMS | A_ALIAS | A_NODE, {1, 2, 3}, Lq, th ? 60000 : 5000);
			f_fill(x, "fill", th ? ALL_L : LV{0, 2, 4}, lev, 2, A_ALIAS | A_ERFORMS);
			f_fill(x, "fill-copied", L2, edge, 2, A_ALIAS | A_SELF | A_CAP);
		}
		{
			const LV L = th ? LV{0, 2, 4, 6, 8, 10} : LV{0, 4, 10};
			const std::size_t sizes = th ? 7 : 5;
			if (prop == "C01" || prop == "C02" || prop == "C03") f_big(x, th ? LV{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10} : LV{0, 2, 4, 8, 10}, th ? 8 : 6, 15, {BA_AGAIN, BA_SHRINK, BA_CHURN, BA_CLEAR, BA_RESERVE}, th);
			else if (prop == "C05") f_big(x, L, sizes, 1, {BA_AGAIN, BA_SHRINK, BA_COPY_ONTO}, th);
			else if (prop == "C06") f_big(x, L, sizes, 9, {BA_WALK, BA_ERASE_IF, BA_ERASE_RANGE}, th);
			else if (prop == "C07") f_big(x, L, sizes, 9, {BA_AGAIN, BA_SHRINK, BA_CHURN, BA_ERASE_RANGE}, th);
			else if (prop == "C08") f_big(x, L, sizes, 9, {BA_COPY, BA_COPY_ONTO}, th);
			else if (prop == "C09") f_big(x, L, sizes, 9, {BA_MOVE, BA_MOVE_ALLOC, BA_SWAP, BA_MERGE}, th);
			else if (prop == "C10") f_big(x, L, sizes, 9, {BA_NODES, BA_MERGE}, th);
			else if (prop == "C11") f_big(x, L, sizes, 9, {BA_AGAIN, BA_SHRINK, BA_CHURN, BA_MOVE, BA_SWAP}, th);
			else if (prop == "C12") f_big(x, L, sizes, 9, {BA_ERASE_IF, BA_COPY_ONTO, BA_MERGE, BA_CLEAR}, th);
			else if (prop == "C14") f_big(x, L, sizes, 9, {BA_AGAIN, BA_CHURN}, th);
			else if (prop == "C16") f_big(x, L, sizes, 6, {BA_RESERVE, BA_SHRINK}, th);
		}
		if (prop == "C06")
			for (auto &j: x.jobs) j.opt |= OPT_ITER;
		return x.jobs;
	}
}
