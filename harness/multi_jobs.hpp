// Which spaces are explored for which property (multi-key containers).
#pragma once
#include "layouts.hpp"

namespace mc
{
	inline Op ins(unsigned code, const Keys &k, unsigned v = 1, unsigned hint = 0, unsigned c = 0)
	{
		Op o = mkop(code, static_cast<unsigned>(k.k[0]), v | hint << 2, static_cast<unsigned>(k.k[1]), c);
		o.d = static_cast<std::uint8_t>(k.k[2]);
		return o;
	}
	inline std::vector<Keys> all_keys(const std::vector<int> &ids)
	{
		std::vector<Keys> r;
		for (int a: ids)
		{
			if (NK == 1) r.push_back({{a, 0, 0}});
			else
				for (int b: ids)
				{
					if (NK == 2) r.push_back({{a, b, 0}});
					else
						for (int d: ids) r.push_back({{a, b, d}});
				}
		}
		return r;
	}
	// the i-th of n fillers: the positions run through the keys in different orders
	inline Keys filler(int from, int i, int n) { return {{from + i, NK > 1 ? from + n - 1 - i : 0, NK > 2 ? from + (i + 1) % n : 0}}; }
	inline Ops fill(int from, int n, int c = 0, unsigned val = 1)
	{
		Ops r;
		for (int i = 0; i < n; ++i)
		{
			const unsigned forms[] = {INS_M, EMP, INS_C};
			r.push_back(ins(forms[i % 3], filler(from, i, n), val, 0, static_cast<unsigned>(c)));
		}
		return r;
	}
	inline Ops erase_keys(int from, int n, int step = 1, int c = 0)
	{
		Ops r;
		for (int i = 0; i < n; ++i) r.push_back(mkop(ERK, static_cast<unsigned>(from + i * step), static_cast<unsigned>(i) % NK, 0, static_cast<unsigned>(c)));
		return r;
	}
	enum : unsigned { A_INS = 1, A_FORMS = 2, A_HINT = 4, A_MAP = 8, A_ERASE = 16, A_ERFORMS = 32, A_RANGE = 64, A_CLR = 128, A_CAP = 256, A_BULK = 512, A_SELF = 1024, A_MLF = 2048, A_HET = 4096, A_ALIAS = 8192 };
	inline Ops alphabet(unsigned f, const std::vector<Keys> &tuples, const std::vector<int> &ids, unsigned c = 0)
	{
		Ops r;
		for (const auto &k: tuples)
		{
			if (f & A_INS) r.push_back(ins(INS_C, k, 1, 0, c));
			if (f & A_FORMS)
			{
				for (unsigned code: {INS_M, INS_LV, INS_V, EMP}) r.push_back(ins(code, k, 2, 0, c));
			}
			if ((f & A_MAP) && IS_MAP)
				for (unsigned code: {TRY_C, TRY_M, TRY0}) r.push_back(ins(code, k, 3, 0, c));
			if (f & A_HINT)
				for (unsigned h = 0; h < 3; ++h)
				{
					for (unsigned code: {HINS_C, HINS_M, HINS_V, EMPH}) r.push_back(ins(code, k, 1, h, c));
					if (IS_MAP && (f & A_MAP))
						for (unsigned code: {TRYH, TRYHM}) r.push_back(ins(code, k, 2, h, c));
				}
			if ((f & A_HET) && TRANS && IS_MAP)
			{
				r.push_back(ins(T_TRY, k, 2, 0, c));
				r.push_back(ins(T_TRYH, k, 1, 1, c));
			}
		}
		for (const int id: ids)
		{
			const auto u = static_cast<unsigned>(id);
			for (unsigned i = 0; i < NK; ++i)
			{
				if (f & A_ERASE) r.push_back(mkop(ERK, u, i, 0, c));
				if (f & A_ERFORMS) r.push_back(mkop(ERREF, u, i, 0, c));
				if ((f & A_HET) && TRANS) r.push_back(mkop(T_ERK, u, i, 0, c));
				if ((f & A_MAP) && IS_MAP)
				{
					r.push_back(mkop(SETV, u, i, 2, c));
					r.push_back(mkop(SETV, u, i, 3, c));
				}
			}
			if (f & A_ALIAS)
				for (const int k2: ids)
					for (unsigned v = 0; v < 2; ++v) r.push_back(mkop(AL, u, v, static_cast<unsigned>(k2), c));
			if (f & A_ERFORMS)
			{
				r.push_back(mkop(ERI, u, 0, 0, c));
				r.push_back(mkop(ERCI, u, 0, 0, c));
			}
		}
		if (f & A_RANGE)
		{
			const auto n = static_cast<unsigned>(ids.size());
			for (unsigned i = 0; i <= n; ++i)
				for (unsigned j = i; j <= n; ++j) r.push_back(mkop(ERR, i, 0, j, c));
			for (unsigned msk: {0u, 0xFFu, 0x55u, 0xAAu, 0x06u}) r.push_back(mkop(ERIF, msk, 0, 0, c));
		}
		if (f & A_CLR) r.push_back(mkop(CLR, 0, 0, 0, c));
		if (f & A_CAP)
		{
			for (unsigned n: {0u, 1u, 9u, 20u}) r.push_back(mkop(RH, n, 0, 0, c));
			for (unsigned n: {0u, 5u, 15u}) r.push_back(mkop(RSV, n, 0, 0, c));
		}
		if (f & A_BULK)
			for (unsigned b: {0u, 1u, 2u})
				for (unsigned msk: {1u, 3u, 7u, 0x15u, 0x3Cu, 0xF0u, 0xFFu, 0xAAu})
					for (unsigned code: {B_INS, B_INSF, B_ILV, B_ILT, B_ASG, B_ASGT}) r.push_back(mkop(code, msk, 1, b, c));
		if (f & A_SELF)
			for (unsigned code: {SELFC, SELFM, SELFS}) r.push_back(mkop(code, 0, 0, 0, c));
		if (f & A_MLF)
			for (unsigned i = 0; i < std::size(MLFS); ++i) r.push_back(mkop(MLF, i, 0, 0, c));
		return r;
	}
	struct Ctx
	{
		std::vector<Job> jobs;
		void push(Job j, const std::string &name, int layout)
		{
			j.name = name + "/h" + std::to_string(layout);
			j.layout = layout;
			jobs.push_back(std::move(j));
		}
	};
	using LV = std::vector<int>;
	const LV ALL_L = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9};
	inline void f_core(Ctx &x, const std::string &name, unsigned flags, const std::vector<int> &ids, const LV &layouts, std::uint32_t max_states, std::uint32_t max_depth = 1000, std::uint32_t faults = 0)
	{
		for (int l: layouts)
		{
			Job j;
			j.universe = ids;
			j.universe.push_back(9);
			j.alphabet = alphabet(flags, all_keys(ids), ids);
			j.max_states = max_states;
			j.max_depth = max_depth;
			j.max_faults = faults;
			j.max_fault_depth = 2;
			x.push(j, name, l);
		}
	}
	// every fill level, then all sequences of `depth` operations with elements that share no, one or several keys with what is there
	inline void f_fill(Ctx &x, const std::string &name, const LV &layouts, const std::vector<int> &levels, std::uint32_t depth, unsigned extra, std::uint32_t faults = 0)
	{
		for (int l: layouts)
			for (int n: levels)
			{
				Job j;
				j.universe = range(19, 20 + n + 1);
				j.universe.push_back(1);
				j.universe.push_back(2);
				j.prefix = fill(20, n);
				std::vector<Keys> t;
				std::vector<int> ids = {1};
				const auto add_t = [&](int a, int b, int d) { t.push_back({{a, NK > 1 ? b : 0, NK > 2 ? d : 0}}); };
				add_t(1, 2, 1);
				add_t(2, 1, 2);
				if (n)
				{
					add_t(20, 1, 1);
					add_t(1, 20, 2);
					add_t(2, 1, 20);
					add_t(20 + n - 1, 20 + n - 1, 1);
					add_t(20 + n / 2, 20, 20 + n - 1);
					ids.push_back(20);
					ids.push_back(20 + n - 1);
				}
				j.alphabet = alphabet(A_INS | extra, t, ids);
				for (int id: ids)
					for (unsigned i = 0; i < NK; ++i) j.alphabet.push_back(mkop(ERK, static_cast<unsigned>(id), i));
				j.alphabet.push_back(mkop(ERI, 20));
				j.alphabet.push_back(mkop(ERIF, 0x55));
				j.alphabet.push_back(mkop(RH, 0));
				j.alphabet.push_back(mkop(RSV, static_cast<unsigned>(n + 1)));
				j.max_depth = depth;
				j.max_states = 60000;
				j.max_faults = faults;
				x.push(j, name + "-n" + std::to_string(n), l);
			}
	}
	// every way of passing arguments to every insertion form, for keys that are absent, present, and of different elements
	inline void f_forward(Ctx &x, const std::string &name, const LV &layouts, const std::vector<int> &levels, bool het_only = false)
	{
		for (int l: layouts)
		{
			Job j;
			j.universe = range(17, 60);
			j.gen = [=](Job &)
			{
				for (const int n: levels)
				{
					Fork f(fill(20, n));
					std::vector<Keys> ks = {{{18, 18, 18}}};
					if (n) ks.push_back(filler(20, 0, n));
					if (n && NK > 1)
					{
						Keys k = filler(20, n - 1, n);
						k.k[0] = 18;
						ks.push_back(k);
					}
					for (unsigned d = het_only ? fwd::TRY_HET * 18 : 0; d < fwd::N_FORMS; ++d)
					{
						const auto form = fwd::decode(d);
						if (!fwd::exists(d, IS_MAP, TRANS) || (form.m > fwd::TRY && form.m != fwd::TRY_HET)) continue;
						for (const auto &k: ks)
							for (const int b: form.hinted ? std::vector<int>{0, n / 2, n} : std::vector<int>{0})
							{
								Op o = ins(FWD, k, 3, static_cast<unsigned>(b));
								o.pad = static_cast<std::uint8_t>(d);
								f.run({o, ins(INS_M, {{17, 17, 17}}, 1)}, 0, false);
							}
					}
				}
			};
			x.push(j, name, l);
		}
	}
	// every subset of the elements erased, through the first or another key, then new elements that reuse the keys in other combinations
	inline void f_subsets(Ctx &x, const std::string &name, const LV &layouts, int n, int window)
	{
		for (int l: layouts)
		{
			Job j;
			j.universe = range(19, 20 + n + 12);
			j.gen = [=](Job &)
			{
				Fork f(fill(20, n));
				for (unsigned pos = 0; pos < NK; ++pos)
					for (unsigned msk = 1; msk < (1u << window); ++msk)
					{
						Ops a;
						for (int b = 0; b < window; ++b)
							if (msk >> b & 1) a.push_back(mkop(ERK, static_cast<unsigned>(20 + b * (n / window)), pos));
						const std::size_t from = a.size() - 1;
						for (int b = 0; b < window; ++b) a.push_back(ins(INS_M, {{20 + b * (n / window), NK > 1 ? 20 + n + b : 0, NK > 2 ? 20 + n - 1 - b : 0}}, 2));
						for (int b = 0; b < window; b += 2) a.push_back(ins(INS_C, {{20 + n + b, NK > 1 ? 20 + b * (n / window) : 0, NK > 2 ? 20 + n + b : 0}}, 3));
						a.push_back(mkop(RH, 0));
						f.run(a, msk % 8 == 1 ? from : a.size() - 2, msk % 16 == 1);
					}
			};
			x.push(j, name + "-n" + std::to_string(n), l);
		}
	}
	inline void f_churn(Ctx &x, const std::string &name, const LV &layouts, const std::vector<int> &windows, int len)
	{
		for (int l: layouts)
		{
			Job j;
			j.universe = range(0, 60);
			j.gen = [=](Job &)
			{
				for (int w: windows)
					for (unsigned mode = 0; mode < 3; ++mode)
					{
						Ops p;
						for (int i = 0; i < len; ++i)
						{
							p.push_back(ins(i % 2 ? INS_M : EMP, {{i % 60, NK > 1 ? i * 7 % 60 : 0, NK > 2 ? i * 11 % 60 : 0}}, static_cast<unsigned>(1 + i % 3)));
							if (i >= w)
							{
								const int v = i - w;
								const unsigned pos = mode == 2 ? 0 : static_cast<unsigned>(i + static_cast<int>(mode)) % NK;
								p.push_back(mkop(mode == 2 ? ERI : ERK, static_cast<unsigned>(v * (pos == 0 ? 1 : pos == 1 ? 7 : 11) % 60), pos));
							}
						}
						if (p.size() > 600) p.resize(600);
						run_program(p, 0);
					}
			};
			x.push(j, name, l);
		}
	}
	// histories over large tables: every size and way of filling, every erasure pattern, every following operation
	inline void f_big(Ctx &x, const LV &layouts, std::size_t sizes, const std::vector<unsigned> &acts, bool th)
	{
		for (int l: layouts)
			for (std::size_t sz = 0; sz < sizes; ++sz)
			{
				const int n = BIG_SIZES[sz];
				if ((l == 1 || l == 9) && n > 600) continue; // quadratic
				Job j;
				j.gen = [=](Job &)
				{
					for (unsigned range = 0; range < 2; ++range)
						for (unsigned pat = 0; pat < N_BPAT; ++pat)
							for (unsigned act: acts)
							{
								if (range && (pat || act != acts[0])) continue;
								if (!th && n > 2000 && (pat + act) % 3) continue;
								run_program({mkop(BIG, static_cast<unsigned>(sz), range, pat * 32 + act)}, 0);
							}
				};
				x.push(j, "big-" + std::to_string(n), l);
			}
	}
	inline void f_grow(Ctx &x, const std::string &name, const LV &layouts, int n)
	{
		for (int l: layouts)
		{
			Job j;
			j.universe = range(0, n + 1);
			j.gen = [=](Job &)
			{
				for (unsigned mode = 0; mode < 4; ++mode)
				{
					Ops p;
					for (int i = 0; i < n; ++i)
					{
						p.push_back(ins(mode & 1 ? EMP : INS_C, filler(0, i, n), 1));
						if (i % 3 == 0) p.push_back(ins(mode & 1 ? INS_M : EMP, filler(0, i, n), 2));
					}
					if (mode & 1) p.push_back(mkop(RH, 0));
					for (int i = 0; i < n; ++i)
					{
						p.push_back(mkop(i % 3 ? ERK : ERI, static_cast<unsigned>(mode & 2 ? n - 1 - i : i), i % 3 ? (mode & 1) % NK : 0));
						if (mode == 3 && i % 16 == 0) p.push_back(mkop(RH, 0));
					}
					if (p.size() > 600) p.resize(600);
					run_program(p, 0);
				}
			};
			x.push(j, name, l);
		}
	}
	struct Shape { const char *name; Ops ops; };
	inline std::vector<Shape> shapes(unsigned c, int base, bool more)
	{
		std::vector<Shape> r;
		const auto put = [&](const char *n, Ops o) { r.push_back({n, std::move(o)}); };
		const auto cc = static_cast<int>(c);
		const auto op1 = [&](unsigned code, unsigned a) { return Ops{mkop(code, a, 0, 0, c)}; };
		const auto cat = [&](Ops a, const Ops &b)
		{
			add(a, b);
			return a;
		};
		put("empty", {});
		put("one", fill(base, 1, cc));
		put("three", fill(base, 3, cc, 2));
		put("cleared", cat(fill(base, 4, cc), op1(CLR, 0)));
		put("holes", cat(fill(base, 5, cc), erase_keys(base, 2, 2, cc)));
		put("reserved", op1(RSV, 40));
		put("eight", fill(base, 8, cc));
		put("grown-then-two", cat(fill(base, 20, cc, 3), erase_keys(base + 1, 18, 1, cc)));
		put("mlf2", cat(op1(MLF, 4), fill(base, 9, cc)));
		if (more)
		{
			put("two", fill(base, 2, cc, 2));
			put("thirtyone", fill(base, 31, cc));
			put("wide", cat(op1(RH, 60), fill(base, 3, cc)));
			put("refilled", cat(cat(fill(base, 16, cc), op1(CLR, 0)), fill(base + 3, 2, cc, 2)));
		}
		return r;
	}
	inline void f_pairs(Ctx &x, const std::string &name, const LV &layouts, const Ops &ops, bool more, unsigned opt = 0, std::vector<std::uint32_t> tags = {}, std::uint32_t faults = 0)
	{
		unsigned nth_layout = 0;
		for (int l: layouts)
		{
			const unsigned hopt = nth_layout++ & 1 ? OPT_HTAGS : 0; // every second layout: containers with functors in different states
			const auto A = shapes(0, 20, more);
			for (std::size_t ia = 0; ia < A.size(); ++ia)
			{
				Job j;
				j.universe = range(20, 26);
				for (int k: {29, 34, 38, 48, 1, 2}) j.universe.push_back(k);
				j.n_init = 3;
				j.opt = opt | hopt;
				j.tags = tags;
				j.gen = [=](Job &)
				{
					const auto A2 = shapes(0, 20, more);
					const Keys k1{{1, NK > 1 ? 20 : 0, NK > 2 ? 2 : 0}}, k2{{2, NK > 1 ? 21 : 0, NK > 2 ? 1 : 0}}, k3{{20, NK > 1 ? 1 : 0, NK > 2 ? 21 : 0}};
					for (int overlap = 0; overlap < 2; ++overlap)
						for (const auto &b: shapes(1, overlap ? 21 : 48, more))
						{
							auto pre = A2[ia].ops;
							add(pre, b.ops);
							Fork f(pre);
							for (const auto &o: ops)
								for (std::uint32_t ft = 0; ft <= faults; ++ft)
								{
									Op of = o;
									of.f = static_cast<std::uint8_t>(ft);
									if (ft && !Sys::may_fault(o)) break;
									const Ops tails[] = {
										{},
										{ins(INS_M, k1, 1, 0, 0), ins(INS_C, k2, 2, 0, 1), mkop(ERK, 20, NK - 1, 0, 0), mkop(ERK, 21, 0, 0, 1), ins(INS_C, k1, 2, 0, 1), mkop(ERK, 1, 0, 0, 0)},
										{mkop(CLR, 0, 0, 0, 0), ins(INS_M, k3, 3, 0, 0), mkop(CLR, 0, 0, 0, 1), ins(INS_M, k1, 3, 0, 1), mkop(RH, 0, 0, 0, 0), mkop(RH, 0, 0, 0, 1)},
										{mkop(CASG, 1, 0, 0, 0), ins(INS_M, k2, 3, 0, 0), mkop(MASG, 0, 0, 0, 1), ins(INS_M, k1, 3, 0, 0)},
										{mkop(SWAP, 1, 0, 0, 0), mkop(RSV, 30, 0, 0, 0), ins(INS_M, k2, 3, 0, 1), mkop(DTOR, 0, 0, 0, 0), ins(INS_M, k1, 3, 0, 1)},
									};
									bool hit = true;
									for (std::size_t t = 0; t < (faults ? 2 : std::size(tails)); ++t)
									{
										Ops s{of};
										add(s, tails[t]);
										g_fault_hit = false;
										f.run(s);
										if (ft) hit = g_fault_hit;
										if (ft && !hit) break;
										if (ft) shm->faults = shm->faults + 1;
									}
									if (!hit) break;
								}
						}
				};
				x.push(j, name + "-" + A[ia].name, l);
			}
		}
	}
	inline Ops pair_ops(bool allocs)
	{
		Ops r;
		for (unsigned code: {CCTOR, CASG, MCTOR, MASG, SWAP})
		{
			r.push_back(mkop(code, 1, 0, 0, 0));
			r.push_back(mkop(code, 0, 0, 0, 1));
		}
		r.push_back(mkop(SWAP, 1, 0, 1, 0));
		for (unsigned code: {CCTOR, MCTOR})
			for (unsigned q = 0; q < 2; ++q) r.push_back(mkop(code, q, 0, 0, 2));
		for (unsigned code: {SELFC, SELFM, SELFS}) r.push_back(mkop(code, 0, 0, 0, 0));
		if (allocs)
			for (unsigned tag: {1u, 2u, 3u})
				for (unsigned q = 0; q < 2; ++q)
				{
					r.push_back(mkop(CCTOR_A, q, 0, tag, 2));
					r.push_back(mkop(MCTOR_A, q, 0, tag, 2));
				}
		return r;
	}
	// every way to construct a container, then some insertions and erasures
	inline void f_ctors(Ctx &x, int l, bool faults = false)
	{
		Job j;
		j.universe = range(20, 40);
		j.n_init = 4;
		j.gen = [=](Job &)
		{
			for (unsigned form = 0; form < 2 * N_CTORS; ++form)
				for (unsigned msk: {0u, 1u, 5u, 7u, 0x3Eu, 0xFFu})
					for (unsigned b = 0; b < 4; ++b)
						for (unsigned f = 0; f < (faults ? 120u : 1u); ++f)
						{
							if (!ctor_list(form % N_CTORS) && (msk || b)) continue;
							Op o = mkop(CTORS, msk, form, b);
							o.f = static_cast<std::uint8_t>(f);
							g_fault_hit = false;
							run_program({o, ins(INS_M, {{20, NK > 1 ? 20 : 0, NK > 2 ? 20 : 0}}, 3), mkop(ERK, 21), mkop(B_INS, 0xFF, 4), mkop(CCTOR, 0, 0, 0, 1)});
							if (f && !g_fault_hit) break;
							if (f) shm->faults = shm->faults + 1;
						}
		};
		x.push(j, faults ? "construct-faults" : "construct", l);
	}
	inline void f_two(Ctx &x, const std::string &name, const LV &layouts, std::uint32_t max_states, std::uint32_t max_depth, bool allocs = false, std::vector<std::uint32_t> tags = {}, std::uint32_t faults = 0)
	{
		unsigned nth_layout = 0;
		for (int l: layouts)
		{
			const unsigned hopt = nth_layout++ & 1 ? OPT_HTAGS : 0; // every second layout: containers with functors in different states
			Job j;
			j.universe = {1, 2};
			j.n_init = 3;
			j.opt = hopt;
			j.tags = tags;
			for (unsigned s = 0; s < 2; ++s)
			{
				for (const auto &k: all_keys({1, 2})) j.alphabet.push_back(ins(INS_M, k, s + 1, 0, s));
				for (unsigned k: {1u, 2u})
					for (unsigned i = 0; i < NK; ++i) j.alphabet.push_back(mkop(ERK, k, i, 0, s));
				j.alphabet.push_back(mkop(CLR, 0, 0, 0, s));
				j.alphabet.push_back(mkop(RSV, 12, 0, 0, s));
				j.alphabet.push_back(mkop(DTOR, 0, 0, 0, s));
				j.alphabet.push_back(mkop(DCTOR, s ? 9 : 0, 0, 0, s));
			}
			add(j.alphabet, pair_ops(allocs));
			j.max_states = max_states;
			j.max_depth = max_depth;
			j.max_faults = faults;
			x.push(j, name, l);
		}
	}

	std::vector<Job> make_jobs(const std::string &prop, const std::string &tier)
	{
		Ctx x;
		const bool th = tier == "thorough";
		const LV A = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9};
		const LV Lq = th ? A : LV{0, 1, 3, 5}, Lm = th ? A : LV{0, 1, 7}, L2 = th ? A : LV{0, 1};
		const std::vector<int> two = {1, 2}, three = {1, 2, 3};
		std::vector<int> lev = range(0, th ? 60 : 18);
		if (!th) for (int n: {27, 28, 29, 32, 33}) lev.push_back(n);
		const std::vector<int> edge = th ? range(0, 40) : std::vector<int>{0, 1, 2, 4, 6, 7, 8, 9, 14, 15, 16};
		const unsigned SINGLE = A_INS | A_FORMS | A_MAP | A_ERASE | A_ERFORMS | A_CLR;
		const std::uint32_t many = th ? 100000 : 5000;
		if (prop == "C04")
		{
			f_core(x, "core", SINGLE | A_HINT | A_CAP | A_RANGE, two, Lq, many);
			f_core(x, "three", A_INS | A_ERASE | A_RANGE, three, Lq, th ? 200000 : 12000);
			f_fill(x, "fill", Lm, lev, 2, A_MAP);
			f_subsets(x, "subsets", Lq, 10, th ? 10 : 7);
			f_subsets(x, "subsets", L2, 24, th ? 12 : 6);
			f_churn(x, "churn", Lm, th ? range(1, 30) : std::vector<int>{1, 2, 6, 7, 13, 14}, 250);
			f_grow(x, "grow", L2, 70);
			f_pairs(x, "pairs", LV{0}, pair_ops(false), th);
			f_core(x, "faults", A_INS | A_FORMS | A_MAP | A_ERASE, two, LV{0, 1}, th ? 20000 : 1500, th ? 1000 : 4, 30);
		}
		else if (prop == "C05")
		{
			if (!IS_MAP) return {};
			f_core(x, "map", SINGLE | A_HINT, two, L2, many);
			f_fill(x, "fill", LV{0}, edge, 2, A_MAP | A_HINT);
		}
		else if (prop == "C06")
		{
			f_core(x, "iter", A_INS | A_ERASE | A_ERFORMS | A_RANGE | A_CLR, three, L2, many);
			f_fill(x, "fill", LV{0, 4}, edge, 2, A_ERFORMS | A_RANGE);
		}
		else if (prop == "C08" || prop == "C09")
		{
			f_two(x, "two", L2, many, 1000);
			f_pairs(x, "pairs", Lm, pair_ops(false), true);
			f_pairs(x, "functors", LV{0}, pair_ops(false), th, OPT_HTAGS);
		}
		else if (prop == "C12")
		{
			f_core(x, "core", SINGLE | A_CAP | A_RANGE | A_BULK | A_HINT | A_SELF, two, L2, many);
			f_two(x, "two", LV{0}, many, 1000, true);
			f_churn(x, "churn", LV{0}, {1, 7, 14}, 200);
			f_grow(x, "grow", LV{0}, 60);
		}
		else if (prop == "C13")
		{
			f_ctors(x, 0, true);
			f_core(x, "core", SINGLE | A_HINT, two, L2, th ? 30000 : 1200, th ? 1000 : 4, 40);
			f_core(x, "core-bulk", A_INS | A_CAP | A_RANGE | A_BULK, two, LV{0}, th ? 30000 : 1200, th ? 1000 : 4, 60);
			f_fill(x, "fill", LV{0}, edge, 1, A_MAP | A_BULK | A_HINT | A_FORMS | A_ERFORMS | A_CAP, 90);
			f_two(x, "two", LV{0}, th ? 60000 : 1500, th ? 1000 : 4, true, {1, 2, 3}, 30);
			f_pairs(x, "pairs", LV{0}, pair_ops(true), th, 0, {1, 2, 3}, 90);
		}
		else if (prop == "C14")
		{
			f_core(x, "resize", A_INS | A_ERASE | A_CAP | A_CLR, two, Lq, many);
			f_fill(x, "fill", Lm, lev, 1, A_CAP);
			f_subsets(x, "subsets", L2, 10, th ? 10 : 6);
			f_churn(x, "churn", Lm, {1, 7, 14}, 250);
			f_grow(x, "grow", Lm, 70);
		}
		else if (prop == "C15")
		{
			f_core(x, "core", SINGLE | A_CAP | A_RANGE, two, L2, th ? 50000 : 2500);
			for (int l: L2)
			{
				Job j;
				j.opt = OPT_OBS;
				j.universe = range(18, 60);
				j.n_init = 1;
				j.gen = [=](Job &)
				{
					auto al = alphabet(A_INS | A_MAP, {{{18, NK > 1 ? 20 : 0, NK > 2 ? 18 : 0}}, {{20, NK > 1 ? 18 : 0, NK > 2 ? 20 : 0}}, {{18, NK > 1 ? 18 : 0, NK > 2 ? 18 : 0}}}, {20});
					add(al, alphabet(A_ERASE | A_ERFORMS | A_RANGE | A_CLR | A_CAP, {}, {18, 20}));
					al.push_back(mkop(CCTOR, 0, 0, 0, 1));
					al.push_back(mkop(MASG, 1, 0, 0, 0));
					al.push_back(mkop(SWAP, 1, 0, 0, 0));
					for (int n: {0, 1, 6, 7, 8, 14, 15})
					{
						Fork f(fill(20, n));
						for (const auto &a: al)
							for (const auto &b: al) f.run({a, b}, 0, false);
					}
				};
				x.push(j, "obs", l);
			}
		}
		else if (prop == "C16")
		{
			for (int l: L2)
			{
				// containers with different maximum load factors, empty and not, take over each other's contents and are filled
				Job j;
				j.universe = range(18, 160);
				j.n_init = 3;
				j.gen = [=](Job &)
				{
					for (unsigned ma = 0; ma < std::size(MLFS); ++ma)
						for (unsigned mb = 0; mb < std::size(MLFS); ++mb)
							for (int na: {0, 5, 20})
								for (int nb: {0, 7})
								{
									if (ma == mb && ma) continue;
									auto pre = fill(20, na, 0);
									add(pre, fill(20, nb, 1));
									pre.push_back(mkop(MLF, ma, 0, 0, 0));
									pre.push_back(mkop(MLF, mb, 0, 0, 1));
									Fork f(pre);
									for (unsigned code: {SWAP, MASG, CASG, MCTOR, CCTOR})
									{
										const unsigned to = code == MCTOR || code == CCTOR ? 2 : 0;
										f.run({mkop(code, 1, 0, 0, to), mkop(RSVF, 30, 1, 0, to), mkop(RSVF, 30, 1, 0, 1)}, 0, false);
										Ops o{mkop(code, 1, 0, 0, to)};
										add(o, fill(60, 25, static_cast<int>(to)));
										add(o, fill(60, 25, 1));
										f.run(o, 0, false);
									}
								}
				};
				x.push(j, "limits", l);
			}
			f_core(x, "cap", A_INS | A_ERASE | A_CAP | A_MLF | A_CLR, two, LV{0}, many, th ? 1000 : 5);
			f_grow(x, "grow", LV{0}, 80);
			f_churn(x, "churn", L2, {1, 7, 14}, 250);
			for (int l: L2)
			{
				Job j;
				j.universe = range(18, 120);
				j.gen = [=](Job &)
				{
					for (unsigned ml = 0; ml < std::size(MLFS); ++ml)
						for (int n: {0, 1, 7, 8, 14})
						{
							Ops pre{mkop(MLF, ml)};
							add(pre, fill(20, n));
							Fork f(pre);
							for (unsigned r = 0; r < (th ? 100u : 40u); ++r)
							{
								f.run({mkop(RSVF, r, 1)}, 0, false);
								f.run({mkop(RH, r), mkop(RSVF, r, 1)}, 0, false);
								f.run({mkop(RSV, r), mkop(RH, 0), mkop(RSVF, r / 2 + 1)}, 0, false);
							}
						}
				};
				x.push(j, "reserve", l);
			}
		}
		else if (prop == "C17")
		{
			if (IS_MAP)
			{
				Job j;
				j.gen = [](Job &)
				{
					for (unsigned a = 0; a < refs::N_REFS; ++a)
						for (unsigned x = 0; x < 2; ++x) run_program({mkop(REFS, a, x)});
				};
				x.push(j, "references", 0);
			}
			f_two(x, "two", Lm, many, 1000);
			for (int l: L2)
			{
				// every pair of small contents
				Job j;
				j.universe = three;
				j.n_init = 3;
				j.gen = [=](Job &)
				{
					std::vector<Ops> all[2];
					const auto ks = all_keys(NK < 3 ? three : two);
					for (unsigned s = 0; s < 2; ++s)
					{
						all[s].push_back({});
						for (std::size_t a = 0; a < ks.size(); ++a)
							for (unsigned va = 1; va < 3; ++va)
							{
								all[s].push_back({ins(INS_M, ks[a], va, 0, s)});
								for (std::size_t b = 0; b < ks.size(); ++b) all[s].push_back({ins(INS_M, ks[a], va, 0, s), ins(INS_M, ks[b], 1, 0, s)});
							}
					}
					for (const auto &a: all[0])
					{
						Fork f(a);
						for (const auto &b: all[1]) f.run(b, b.size() ? b.size() - 1 : 0, false);
					}
				};
				x.push(j, "contents", l);
			}
		}
		else if (prop == "C18")
		{
			f_core(x, "het", A_INS | A_ERASE | A_HET | A_CLR, two, Lq, many);
			f_core(x, "het3", A_INS | A_HET, three, LV{0}, many);
			f_fill(x, "fill", L2, edge, 2, A_HET);
			if (IS_MAP) f_forward(x, "forward", L2, th ? range(0, 20) : std::vector<int>{0, 1, 7, 14}, true);
		}
		else if (prop == "C19")
		{
			for (const auto &tags: {std::vector<std::uint32_t>{1, 2, 3}, std::vector<std::uint32_t>{1, 1, 1}})
			{
				const std::string t = tags[1] == 2 ? "-different" : "-same";
				f_two(x, "two" + t, LV{0}, th ? 60000 : 2500, 1000, true, tags);
				f_pairs(x, "pairs" + t, th ? A : LV{0}, pair_ops(true), th, 0, tags);
			}
			f_ctors(x, 0);
		}
		else if (prop == "C20")
		{
			f_core(x, "args", SINGLE | A_HINT | A_BULK, two, L2, many);
			f_fill(x, "fill", LV{0}, edge, 2, A_FORMS | A_MAP | A_HINT | A_BULK);
			f_forward(x, "forward", th ? ALL_L : L2, th ? range(0, 20) : std::vector<int>{0, 1, 6, 7, 8, 14});
			f_pairs(x, "moves", LV{0}, pair_ops(true), th, 0, {1, 2, 3});
		}
		else if (prop == "C21")
		{
			f_core(x, "bulk", A_INS | A_ERASE | A_BULK | A_CLR, two, L2, many);
			for (int l: L2)
			{
				Job j;
				j.universe = range(20, 40);
				j.gen = [=](Job &)
				{
					for (int n: th ? range(0, 20) : std::vector<int>{0, 1, 3, 6, 7, 8})
						for (int from: {20, 22, 60})
						{
							Fork f(fill(from, n));
							for (unsigned code: {B_INS, B_INSF, B_ILV, B_ILT, B_ASG, B_ASGT})
							{
								for (unsigned msk = 0; msk < 256; ++msk)
									for (unsigned b = 0; b < 3; ++b) f.run({mkop(code, msk, 2, b), mkop(ERK, 21), mkop(code, msk, 3, b)}, 0, false);
								f.run({mkop(code, 0, 2, 3), mkop(code, 0x0F, 3, 1)}, 0, false);
							}
						}
				};
				x.push(j, "bulk-into-every-size", l);
				Job q;
				q.universe = range(20, 40);
				q.n_init = 4;
				q.gen = [=](Job &)
				{
					for (unsigned code: {B_CTOR, B_CTORF})
						for (unsigned msk = 0; msk < 256; ++msk)
							for (unsigned b = 0; b < 4; ++b) run_program({mkop(code, msk, 2, b), ins(INS_M, {{20, NK > 1 ? 20 : 0, NK > 2 ? 20 : 0}}, 3), mkop(ERK, 21), mkop(B_INS, 0xFF, 4)});
				};
				x.push(q, "bulk-construct", l);
				f_ctors(x, l);
			}
		}
		else if (prop == "C22")
		{
			f_core(x, "noop", SINGLE | A_HINT | A_RANGE | A_CAP, two, L2, many);
			f_fill(x, "fill", LV{0}, lev, 2, A_ERASE);
			f_two(x, "two", LV{0}, many, 1000);
		}
		else if (prop == "C23")
		{
			f_core(x, "alias", A_INS | A_ERASE | A_ERFORMS | A_ALIAS, three, L2, many);
			f_fill(x, "fill", LV{0, 4}, lev, 2, A_ALIAS | A_ERFORMS);
		}
		{
			const LV L = th ? LV{0, 2, 4, 6, 8, 10} : LV{0, 4, 10};
			if (prop == "C04") f_big(x, th ? ALL_L : LV{0, 2, 4}, th ? 6 : 5, {BA_AGAIN, BA_SHRINK, BA_CHURN, BA_CLEAR, BA_ERASE_IF}, th);
			else if (prop == "C06") f_big(x, L, 4, {BA_WALK, BA_ERASE_IF, BA_ERASE_RANGE}, th);
			else if (prop == "C08") f_big(x, L, 4, {BA_COPY, BA_COPY_ONTO}, th);
			else if (prop == "C09") f_big(x, L, 4, {BA_MOVE, BA_SWAP}, th);
			else if (prop == "C12") f_big(x, L, 4, {BA_ERASE_IF, BA_COPY_ONTO, BA_CLEAR}, th);
		}
		if (prop == "C06")
			for (auto &j: x.jobs) j.opt |= OPT_ITER;
		return x.jobs;
	}
}
