// The multi-key containers (chosen with -DCONT=n) driven as a transition system against a reference model.
#pragma once
#include "engine.hpp"
#include <initializer_list>
#include <iterator>
#include <stdexcept>
#include <algorithm>
#include <tpp/dense_multiset.hpp>
#include <tpp/dense_multimap.hpp>

#ifndef CONT
#define CONT 21
#endif
#include "types.hpp"
#include "iters.hpp"
#include "refs.hpp"
#include "fwd.hpp"
#include "layouts.hpp"
#ifndef HSTD // the default functors, multikey_hash and multikey_eq, for keys of two different types
#define HSTD 0
#endif

#if HSTD
template<>
struct std::hash<mc::Key>
{
	std::size_t operator()(const mc::Key &k) const { return mc::Hash{}.of(k.get("hash")); }
};
template<>
struct std::hash<mc::Plain<true>>
{
	std::size_t operator()(const mc::Plain<true> &k) const { return mc::Hash{}.of(k.get("hash")); }
};
#endif

namespace mc
{
	constexpr bool IS_MAP = CONT & 1;
	constexpr unsigned NK = CONT < 22 ? 2 : CONT < 24 ? 3 : 1;
#if HSTD
	using Key1 = Plain<true>;
#else
	using Key1 = Key;
#endif
#if CONT < 22
	using Mk = tpp::multikey<Key, Key1>;
	using Tup = std::tuple<Key, Key1>;
#elif CONT < 24
	using Mk = tpp::multikey<Key, Key1, Key>;
	using Tup = std::tuple<Key, Key1, Key>;
#else
	using Mk = tpp::multikey<Key>;
	using Tup = std::tuple<Key>;
#endif
	template<std::size_t I>
	using KeyAt = std::tuple_element_t<I, Tup>;
#if HSTD
	using MHash = tpp::_detail::multikey_hash<Mk>;
	using MEq = tpp::_detail::multikey_eq<Mk>;
	inline unsigned tag_of(const MHash &) { return 0; }
	inline unsigned tag_of(const MEq &) { return 0; }
	inline MHash mkhash(unsigned) { return {}; }
	inline MEq mkeq(unsigned) { return {}; }
#else
	using MHash = Hash;
	using MEq = Eq;
	template<typename T>
	inline unsigned tag_of(const T &t) { return t.get_tag(); }
	inline Hash mkhash(unsigned tag)
	{
		Hash h;
		h.set_tag(tag);
		return h;
	}
	inline Eq mkeq(unsigned tag)
	{
		Eq q;
		q.set_tag(tag);
		return q;
	}
#endif
#if CONT & 1
	using C = tpp::dense_multimap<Mk, Val, MHash, MEq, Alloc<std::pair<Tup, Val>>>;
#else
	using C = tpp::dense_multiset<Mk, MHash, MEq, Alloc<Tup>>;
#endif
	using It = C::iterator;
	using CIt = C::const_iterator;
#if CONT & 1
	using InsT = C::insert_type;
#else
	using InsT = Tup;
#endif
	using ValT = C::value_type;
	using AllocT = C::allocator_type;
	static_assert(sizeof(C) <= SLOT_BYTES);
	static_assert(C::key_size == NK);

	// a, b, d: the keys of a new element; x: value | position of the hint << 2
	enum Code : std::uint8_t
	{
		INS_C, INS_M, INS_LV, INS_V, EMP, HINS_C, HINS_M, HINS_V, EMPH, TRY_C, TRY_M, TRYH, TRYHM, TRY0, T_TRY, T_TRYH,
		LAST_INS = T_TRYH,
		SETV,                                   // a: key, x: which key, b: value
		ERK, T_ERK, ERREF,                      // a: key, x: which key
		ERI, ERCI,                              // a: first key
		ERR, ERIF, CLR, RH, RSV, RSVF, MLF,
		B_INS, B_ASG, B_INSF, B_ILV, B_ILT, B_ASGT, B_CTOR, B_CTORF, CTORS,
		CCTOR, CCTOR_A, CASG, MCTOR, MCTOR_A, MASG, SWAP, DTOR, DCTOR, SELFC, SELFM, SELFS,
		BIG,                                    // a history over a large table (a: size, x: filled by range, b: what is erased * 32 + what is done)
		REFS, // comparing and using references to elements (a: keys and values, x: type of the mapped value)
		FWD,                                    // insertion with arguments passed in every way; a, b, d: the keys, x: as for insertions, pad: form
		AL,                                     // insertion of references to own elements; a, b: first keys, x: form
		N_CODES
	};
	inline const char *code_name[] = {
		"insert(const&)", "insert(&&)", "insert(lvalue)", "insert(value_type)", "emplace", "insert(hint,const&)", "insert(hint,&&)", "insert(hint,value_type)", "emplace_hint",
		"try_emplace(const&)", "try_emplace(&&)", "try_emplace(hint,const&)", "try_emplace(hint,&&)", "try_emplace(keys only)", "try_emplace(het)", "try_emplace(hint,het)",
		"assignment to the mapped value", "erase(key)", "erase(het)", "erase(key inside)", "erase(iterator)", "erase(const_iterator)",
		"erase(range)", "erase_if", "clear", "rehash", "reserve", "reserve+fill", "max_load_factor",
		"insert(range)", "operator=(init-list)", "insert(forward range)", "insert(init-list)", "insert(init-list of others)", "operator=(init-list of others)", "construct(range)", "construct(forward range)", "construction",
		"copy-construct", "copy-construct(alloc)", "copy-assign", "move-construct", "move-construct(alloc)", "move-assign", "swap", "destroy", "construct(n)", "self copy-assign", "self move-assign", "self swap", "large table", "comparing & using references", "insertion with forwarded arguments", "insertion of own element"};
	static_assert(std::size(code_name) == N_CODES);

	// ------------------------------------------------------------------------------------------------ helpers
	inline C &c(int s) { return *std::launder(reinterpret_cast<C *>(W->h.slot[s])); }
	inline Model &m(int s) { return W->h.m[s]; }
	inline Ent *e(int s) { return W->e[s]; }
	struct Keys
	{
		int k[3] = {0, 0, 0};
		bool operator==(const Keys &o) const
		{
			for (unsigned i = 0; i < NK; ++i)
				if (k[i] != o.k[i]) return false;
			return true;
		}
	};
	inline int ekey(const Ent &x, unsigned i) { return i == 0 ? x.k : i == 1 ? x.k1 : x.k2; }
	inline Keys ekeys(const Ent &x) { return {{x.k, NK > 1 ? x.k1 : 0, NK > 2 ? x.k2 : 0}}; }
	inline Keys okeys(const Op &o) { return {{o.a, NK > 1 ? o.b : 0, NK > 2 ? o.d : 0}}; }
	inline std::string show(const Keys &k)
	{
		std::string r = "(" + std::to_string(k.k[0]);
		for (unsigned i = 1; i < NK; ++i) r += "," + std::to_string(k.k[i]);
		return r + ")";
	}
#define KS(k) show(k).c_str()
	inline int mfind(int s, unsigned i, int k)
	{
		for (unsigned q = 0; q < m(s).n; ++q)
			if (ekey(e(s)[q], i) == k) return static_cast<int>(q);
		return -1;
	}
	inline bool conflict(int s, const Keys &k)
	{
		for (unsigned i = 0; i < NK; ++i)
			if (mfind(s, i, k.k[i]) >= 0) return true;
		return false;
	}
	inline void minsert(int s, const Keys &k, int v)
	{
		if (m(s).n >= MAXN) harness_error("model overflow");
		unsigned p = 0;
		while (p < m(s).n && e(s)[p].k < k.k[0]) ++p;
		memmove(static_cast<void *>(e(s) + p + 1), e(s) + p, (m(s).n - p) * sizeof(Ent));
		Ent x;
		x.k = static_cast<std::int16_t>(k.k[0]);
		x.k1 = static_cast<std::int16_t>(k.k[1]);
		x.k2 = static_cast<std::int16_t>(k.k[2]);
		x.v = static_cast<std::int16_t>(IS_MAP ? v : 0);
		e(s)[p] = x;
		++m(s).n;
		m(s).maxn = std::max(m(s).maxn, m(s).n);
	}
	inline void merase(int s, int i)
	{
		memmove(static_cast<void *>(e(s) + i), e(s) + i + 1, (m(s).n - static_cast<unsigned>(i) - 1) * sizeof(Ent));
		e(s)[--m(s).n] = Ent{};
	}
	inline void mclear(int s)
	{
		memset(static_cast<void *>(e(s)), 0, m(s).n * sizeof(Ent));
		m(s).n = 0;
	}
	inline void mcopy(int d, int s)
	{
		mclear(d);
		memcpy(static_cast<void *>(e(d)), e(s), m(s).n * sizeof(Ent));
		m(d).n = m(s).n;
		m(d).maxn = std::max(m(d).maxn, m(s).maxn);
	}
	template<typename R>
	inline const auto &tup_of(const R &r)
	{
		if constexpr (IS_MAP) return r.first;
		else return r;
	}
	template<typename T>
	inline Keys tkeys(const T &t)
	{
		static_assert(std::tuple_size_v<T> == NK);
		Keys k;
		k.k[0] = std::get<0>(t).get("read");
		if constexpr (NK > 1) k.k[1] = std::get<1>(t).get("read");
		if constexpr (NK > 2) k.k[2] = std::get<2>(t).get("read");
		return k;
	}
	template<typename R>
	inline Keys kid(const R &r) { return tkeys(tup_of(r)); }
	template<typename R>
	inline int vid(const R &r)
	{
		if constexpr (IS_MAP) return r.second.get("read");
		else { (void) r; return 0; }
	}
	template<typename I>
	inline std::uintptr_t addr_of(I it)
	{
		auto &&r = *it;
		return reinterpret_cast<std::uintptr_t>(&std::get<0>(tup_of(r)));
	}
	template<std::size_t... I>
	inline Tup mktup_(const Keys &k, std::index_sequence<I...>) { return Tup(KeyAt<I>(k.k[I])...); }
	inline Tup mktup(const Keys &k) { return mktup_(k, std::make_index_sequence<NK>{}); }
#if CONT & 1
	inline InsT mk(const Keys &k, int v) { return InsT(mktup(k), Val(v)); }
	inline ValT mkv(const Keys &k, int v) { return ValT(mktup(k), Val(v)); }
#else
	inline InsT mk(const Keys &k, int) { return mktup(k); }
	inline ValT mkv(const Keys &k, int) { return mktup(k); }
	template<std::size_t... I>
	inline auto mkints_(const Keys &k, std::index_sequence<I...>) { return std::make_tuple(int(k.k[I])...); }
	inline auto mkints(const Keys &k) { return mkints_(k, std::make_index_sequence<NK>{}); } // a type that elements can be constructed from
#endif
	template<typename F>
	inline decltype(auto) at_pos(unsigned i, F &&f)
	{
		if constexpr (NK > 2)
			if (i == 2) return f(std::integral_constant<std::size_t, 2>{});
		if constexpr (NK > 1)
			if (i == 1) return f(std::integral_constant<std::size_t, 1>{});
		return f(std::integral_constant<std::size_t, 0>{});
	}
	inline It find0(int s, int k)
	{
		const KeyAt<0> key(k);
		return c(s).template find<0>(key);
	}
	inline It nth(int s, unsigned n) { return c(s).begin() + static_cast<std::ptrdiff_t>(std::min<std::size_t>(n, c(s).size())); }
	inline void track(int s)
	{
		if (m(s).n > shm->max_elems) shm->max_elems = m(s).n;
		const auto b = static_cast<std::uint32_t>(c(s).bucket_count());
		if (b > shm->max_buckets) shm->max_buckets = b;
	}
	inline void obs(std::uint64_t x) { shm->obs_hash = mum(shm->obs_hash ^ x ^ 0x9E3779B97F4A7C15ull, 0xBF58476D1CE4E5B9ull) + x; }

	constexpr float MLFS[] = {.875f, .25f, .5f, 1.f, 2.f, .7f};
	inline AllocT mkalloc(unsigned tag) { return AllocT(tag); }
	constexpr unsigned eff_tag(unsigned t) { return APOL < 0 ? 0 : t; }
	constexpr unsigned eff_htag(unsigned t) { return HEMPTY || HSTD ? 0 : t; }
	inline unsigned job_tag(int s) { return static_cast<unsigned>(s) < g_job->tags.size() ? g_job->tags[static_cast<unsigned>(s)] : static_cast<unsigned>(g_job->default_tag); }
	constexpr std::uint32_t OPT_HTAGS = 1, OPT_OBS = 4, OPT_ITER = 8;

	inline void birth(int s, unsigned tag, unsigned htag)
	{
		m(s) = Model{};
		m(s).live = 1;
		m(s).tag = eff_tag(tag);
		m(s).htag = eff_htag(htag);
	}
	inline void kill_slot(int s)
	{
		c(s).~C();
		mclear(s);
		m(s) = Model{};
		memset(W->h.slot[s], 0, SLOT_BYTES);
	}
	inline void make(int s)
	{
		const unsigned ht = (g_job->opt & OPT_HTAGS) ? static_cast<unsigned>(s) : 0;
		if (ht) new (W->h.slot[s]) C(0, mkhash(ht), mkeq(ht), mkalloc(job_tag(s)));
		else new (W->h.slot[s]) C(mkalloc(job_tag(s)));
		birth(s, job_tag(s), ht);
	}
	inline std::uint32_t n_init() { return g_job->n_init ? g_job->n_init : 1; }
	inline void arm(const Op &o) { g_fault = o.f; }
	inline void disarm() { g_fault = 0; }
#define ARMED(stmt) do { const auto cp_ = g_copies; arm(o); stmt; disarm(); g_op_copies += g_copies - cp_; } while (false)

	inline int mfull(int s, const Keys &k)
	{
		const int j = mfind(s, 0, k.k[0]);
		return j >= 0 && ekeys(e(s)[j]) == k ? j : -1;
	}
	inline bool same_contents(int a, int b)
	{
		if (m(a).n != m(b).n) return false;
		for (unsigned i = 0; i < m(a).n; ++i)
		{
			const int j = mfull(b, ekeys(e(a)[i]));
			if (j < 0 || e(b)[j].v != e(a)[i].v) return false;
		}
		return true;
	}

	// ------------------------------------------------------------------------------------------------ checking
	template<typename I>
	inline void check_seq(int s, I first, I last, const char *what)
	{
		std::uint8_t seen[MAXN] = {};
		unsigned i = 0;
		for (; first != last; ++first, ++i)
		{
			MC_CHECK(i < m(s).n, "%s visits more than the %u elements of container %d", what, m(s).n, s);
			auto &&r = *first;
			const Keys k = kid(r);
			const int v = vid(r), j = mfull(s, k);
			MC_CHECK(j >= 0, "%s of container %d visits keys %s, which are not in the container", what, s, KS(k));
			MC_CHECK(!seen[j], "%s of container %d visits keys %s twice", what, s, KS(k));
			seen[j] = 1;
			if (IS_MAP) MC_CHECK(e(s)[j].v == v, "%s: keys %s of container %d map to %d, expected %d", what, KS(k), s, v, e(s)[j].v);
			if constexpr (IS_MAP) MC_CHECK(tkeys(first->first) == k && first->second.get() == v, "%s: operator-> and operator* disagree", what);
			else MC_CHECK(tkeys(*first.operator->()) == k, "%s: operator-> and operator* disagree", what);
		}
		MC_CHECK(i == m(s).n, "%s visits %u of the %u elements of container %d", what, i, m(s).n, s);
	}
	template<std::size_t I>
	inline void verify_key(int s, int k, bool slow)
	{
		auto &x = c(s);
		const auto &cx = x;
		const int j = mfind(s, I, k);
		const KeyAt<I> key(k);
		MC_CHECK(cx.template contains<I>(key) == (j >= 0), "container %d: contains<%zu>(%d) is %d", s, I, k, j < 0);
		const auto it = x.template find<I>(key);
		const auto cit = cx.template find<I>(key);
		MC_CHECK((cit != cx.end()) == (j >= 0), "container %d: find<%zu>(%d) %s", s, I, k, j >= 0 ? "misses a stored key" : "finds an absent key");
		MC_CHECK((it != x.end()) == (j >= 0), "container %d: non-const find<%zu>(%d) %s", s, I, k, j >= 0 ? "misses a stored key" : "finds an absent key");
		if (j >= 0)
		{
			const auto want = ekeys(e(s)[j]);
			MC_CHECK(kid(*cit) == want && kid(*it) == want, "container %d: find<%zu>(%d) returns another element", s, I, k);
			MC_CHECK(vid(*cit) == e(s)[j].v, "container %d: find<%zu>(%d) gives value %d, expected %d", s, I, k, vid(*cit), e(s)[j].v);
		}
#if CONT & 1
		if (j >= 0)
		{
			MC_CHECK(cx.template at<I>(key).get() == e(s)[j].v && &x.template at<I>(key) == &cx.template at<I>(key), "container %d: at<%zu>(%d) is wrong", s, I, k);
			MC_CHECK(&cx.template at<I>(key) == &cit->second, "container %d: at<%zu>(%d) refers to another object than find", s, I, k);
		}
		else if (slow)
			for (int w = 0; w < 2; ++w)
			{
				bool thrown = false;
				try
				{
					if (w) (void) x.template at<I>(key);
					else (void) cx.template at<I>(key);
				}
				catch (const std::out_of_range &) { thrown = true; }
				MC_CHECK(thrown, "container %d: at<%zu>(%d) of an absent key does not throw", s, I, k);
			}
#endif
		if (cx.bucket_count())
			MC_CHECK(cx.template bucket<I>(key) < cx.bucket_count(), "container %d: bucket<%zu>(%d) is not below bucket_count()", s, I, k);
#if TRANS
		const TK tk{k};
		MC_CHECK(cx.template contains<I>(tk) == (j >= 0), "container %d: contains<%zu>(het %d) is %d", s, I, k, j < 0);
		MC_CHECK(cx.template find<I>(tk) == cit && x.template find<I>(tk) == it, "container %d: find<%zu>(het %d) differs from find(%d)", s, I, k, k);
		if (cx.bucket_count()) MC_CHECK(cx.template bucket<I>(tk) == cx.template bucket<I>(key), "container %d: bucket<%zu>(het %d) differs from bucket(%d)", s, I, k, k);
#if CONT & 1
		if (j >= 0 || slow)
		{
			bool thrown = false;
			try { MC_CHECK(&cx.template at<I>(tk) == &cit->second && &x.template at<I>(tk) == &cit->second, "container %d: at<%zu>(het %d) refers to another object", s, I, k); }
			catch (const std::out_of_range &) { thrown = true; }
			MC_CHECK(thrown == (j < 0), "container %d: at<%zu>(het %d) %s", s, I, k, j < 0 ? "does not throw" : "throws");
		}
#endif
#endif
		(void) slow;
	}
	inline void verify_slot(int s)
	{
		auto &x = c(s);
		const auto &cx = x;
		const auto &M = m(s);
		MC_CHECK(cx.size() == M.n, "container %d: size() is %zu, expected %u", s, cx.size(), M.n);
		MC_CHECK(cx.empty() == (M.n == 0), "container %d: empty() is wrong", s);
		check_seq(s, x.begin(), x.end(), "iteration");
		check_seq(s, cx.begin(), cx.end(), "const iteration");
		check_seq(s, cx.rbegin(), cx.rend(), "reverse iteration");
		check_seq(s, x.rbegin(), x.rend(), "reverse iteration");
		MC_CHECK(cx.cbegin() == cx.begin() && cx.cend() == cx.end() && (cx.begin() == cx.end()) == (M.n == 0), "container %d: begin()/end() inconsistent", s);
		MC_CHECK(static_cast<unsigned>(cx.end() - cx.begin()) == M.n, "container %d: end()-begin() is wrong", s);
		std::ptrdiff_t i = 0;
		for (auto it = cx.begin(); it != cx.end(); ++it, ++i)
			MC_CHECK(cx.begin() + i == it && it - cx.begin() == i && kid(*(cx.begin() + i)) == kid(*it), "container %d: random access disagrees with iteration", s);
		if (g_job->opt & OPT_ITER)
		{
			const auto id = [](auto &&r) { return kid(r); };
			check_iter_api<true, true>(x.begin(), x.end(), M.n, s, "iteration", id);
			check_iter_api<true, true>(cx.begin(), cx.end(), M.n, s, "const iteration", id);
			check_iter_api<true, false>(x.rbegin(), x.rend(), M.n, s, "reverse iteration", id);
			check_iter_api<true, false>(cx.crbegin(), cx.crend(), M.n, s, "const reverse iteration", id);
			check_iter_conv<decltype(cx.begin())>(x.begin(), x.end(), cx.begin(), cx.end(), s);
			MC_CHECK(x.rbegin().base() == x.end() && x.rend().base() == x.begin() && cx.crbegin() == cx.rbegin() && cx.crend() == cx.rend(), "container %d: rbegin()/rend() inconsistent", s);
		}
		unsigned misses = 0;
		const bool all_misses = g_job->universe.size() <= 4;
		for (const int k: g_job->universe)
		{
			const bool slow = all_misses || misses++ == M.n % 8;
			verify_key<0>(s, k, slow);
#if CONT < 24
			verify_key<1>(s, k, slow);
#endif
#if CONT >= 22 && CONT < 24
			verify_key<2>(s, k, slow);
#endif
		}
		const auto bc = cx.bucket_count();
		MC_CHECK(bc <= cx.max_bucket_count(), "container %d: bucket_count() exceeds max_bucket_count()", s);
		MC_CHECK(cx.max_size() >= M.n, "container %d: max_size() is below size()", s);
		MC_CHECK(M.n == 0 || bc > 0, "container %d: %u elements in no buckets", s, M.n);
		if (bc)
		{
			const float lf = static_cast<float>(M.n) / static_cast<float>(bc);
			MC_CHECK(cx.load_factor() == lf, "container %d: load_factor() is %f, expected %f", s, static_cast<double>(cx.load_factor()), static_cast<double>(lf));
		}
		MC_CHECK(cx.max_load_factor() == MLFS[M.mlf], "container %d: max_load_factor() is %f, expected %f", s, static_cast<double>(cx.max_load_factor()), static_cast<double>(MLFS[M.mlf]));
		MC_CHECK(static_cast<double>(bc) <= 64 + 4 * M.maxn / static_cast<double>(MLFS[M.mlf]), "container %d: %zu buckets although it never held or was asked to hold more than %u elements", s, bc, M.maxn);
		MC_CHECK(cx.get_allocator().get_tag() == M.tag, "container %d: uses allocator #%u, expected #%u", s, cx.get_allocator().get_tag(), M.tag);
		MC_CHECK(tag_of(cx.hash_function()) == M.htag && tag_of(cx.key_eq()) == M.htag, "container %d: hash/compare functors #%u/#%u, expected #%u", s, tag_of(cx.hash_function()), tag_of(cx.key_eq()), M.htag);
		MC_CHECK(cx == cx && !(cx != cx), "container %d does not compare equal to itself", s);
	}

	// ------------------------------------------------------------------------------------------------ bulk argument lists
	struct Bulk
	{
		Keys k[48];
		int v[48], n = 0;
	};
	// mask over eight elements made of the first three keys of the universe; b: 0 ascending, 1 descending, 2 every element twice (second time another value), 3 the whole universe
	inline Bulk bulk_of(const Op &o)
	{
		Bulk r;
		const auto &u = g_job->universe;
		const auto un = u.size();
		const auto U = [&](std::size_t i) { return u[i % un]; };
		if (o.b == 3)
		{
			for (std::size_t i = 0; i < un && i < 40; ++i)
			{
				r.k[r.n] = {{u[i], u[un - 1 - i], U(i + 1)}};
				r.v[r.n++] = o.x;
			}
			return r;
		}
		static constexpr unsigned T[8][3] = {{0, 0, 0}, {1, 1, 1}, {0, 1, 2}, {1, 0, 1}, {2, 0, 0}, {0, 2, 1}, {2, 2, 2}, {1, 2, 0}};
		for (int q = 0; q < 8; ++q)
		{
			const int i = o.b == 1 ? 7 - q : q;
			if (!(o.a >> i & 1)) continue;
			for (int rep = 0; rep < (o.b == 2 ? 2 : 1); ++rep)
			{
				r.k[r.n] = {{U(T[i][0]), NK > 1 ? U(T[i][1]) : 0, NK > 2 ? U(T[i][2]) : 0}};
				r.v[r.n++] = o.x + rep;
			}
		}
		return r;
	}
	template<typename I>
	struct FwdIt
	{
		using iterator_category = std::forward_iterator_tag;
		using value_type = typename std::iterator_traits<I>::value_type;
		using difference_type = std::ptrdiff_t;
		using pointer = typename std::iterator_traits<I>::pointer;
		using reference = typename std::iterator_traits<I>::reference;
		I i{};
		reference operator*() const { return *i; }
		pointer operator->() const { return i; }
		FwdIt &operator++() { ++i; return *this; }
		FwdIt operator++(int) { auto t = *this; ++i; return t; }
		bool operator==(const FwdIt &o) const { return i == o.i; }
		bool operator!=(const FwdIt &o) const { return i != o.i; }
	};
	template<typename F>
	inline void with_list(const Bulk &b, F &&f)
	{
		alignas(ValT) static unsigned char raw[sizeof(ValT) * 48];
		auto *p = reinterpret_cast<ValT *>(raw);
		struct Guard
		{
			ValT *p;
			int n = 0;
			~Guard() { for (int i = 0; i < n; ++i) p[i].~ValT(); }
		} g{p};
		for (; g.n < b.n; ++g.n) new (p + g.n) ValT(mkv(b.k[g.n], b.v[g.n]));
		f(static_cast<const ValT *>(p), static_cast<const ValT *>(p + b.n));
	}
	// the same elements in a form from which elements can be constructed
#if CONT & 1
	using Val2 = InsT;
	inline Val2 mk2(const Keys &k, int v) { return mk(k, v); }
#else
	using Val2 = decltype(mkints(Keys{}));
	inline Val2 mk2(const Keys &k, int) { return mkints(k); }
#endif
	template<typename F>
	inline void with_list2(const Bulk &b, F &&f)
	{
		alignas(Val2) static unsigned char raw[sizeof(Val2) * 48];
		auto *p = reinterpret_cast<Val2 *>(raw);
		struct Guard
		{
			Val2 *p;
			int n = 0;
			~Guard() { for (int i = 0; i < n; ++i) p[i].~Val2(); }
		} g{p};
		for (; g.n < b.n; ++g.n) new (p + g.n) Val2(mk2(b.k[g.n], b.v[g.n]));
		f(static_cast<const Val2 *>(p), static_cast<const Val2 *>(p + b.n));
	}
	inline void madd(int s, const Bulk &b)
	{
		for (int i = 0; i < b.n; ++i)
			if (!conflict(s, b.k[i])) minsert(s, b.k[i], b.v[i]);
	}

	struct Pre { std::uint32_t n; Ent e[MAXN * 2]; };
	inline void snap_pre(Pre &p, int s)
	{
		p.n = m(s).n;
		memcpy(static_cast<void *>(p.e), e(s), p.n * sizeof(Ent));
	}
	// contents actually found after an operation that may legally have been cut short: only elements somebody put there, no key twice
	inline void resync(int s, std::uint32_t old_n, const Ent *old, const Bulk *extra)
	{
		mclear(s);
		auto &x = c(s);
		unsigned i = 0;
		for (auto it = x.begin(); it != x.end(); ++it)
		{
			MC_CHECK(++i <= MAXN, "iteration does not end after an exception");
			const Keys k = kid(*it);
			const int v = vid(*it);
			bool ok = false;
			for (std::uint32_t q = 0; q < old_n; ++q) ok = ok || (ekeys(old[q]) == k && old[q].v == v);
			if (extra)
				for (int q = 0; q < extra->n; ++q) ok = ok || (extra->k[q] == k && (extra->v[q] == v || !IS_MAP));
			MC_CHECK(ok, "container %d holds %s:%d after an exception, which nobody inserted", s, KS(k), v);
			MC_CHECK(!conflict(s, k), "container %d holds a key of %s twice after an exception", s, KS(k));
			minsert(s, k, v);
		}
	}
	inline void sort_keys(std::vector<Keys> &v)
	{
		std::sort(v.begin(), v.end(), [](const Keys &a, const Keys &b) { return a.k[0] != b.k[0] ? a.k[0] < b.k[0] : a.k[1] != b.k[1] ? a.k[1] < b.k[1] : a.k[2] < b.k[2]; });
	}
	inline std::vector<Keys> keys_after(int s, It it)
	{
		std::vector<Keys> r;
		for (; it != c(s).end(); ++it) r.push_back(kid(*it));
		return r;
	}
	inline void check_rest(int s, It it, std::vector<Keys> want, const char *what)
	{
		std::vector<Keys> got;
		for (; it != c(s).end(); ++it)
		{
			got.push_back(kid(*it));
			MC_CHECK(got.size() <= want.size(), "%s: the returned iterator leads over more elements than remained unvisited", what);
		}
		sort_keys(got);
		sort_keys(want);
		MC_CHECK(got == want, "%s: the returned iterator does not lead over exactly the elements not visited yet", what);
	}
	template<typename T>
	inline void check_args(const T &t, const Keys &k, const char *what)
	{
		bool moved = std::get<0>(t).moved();
		if constexpr (NK > 1) moved = moved || std::get<1>(t).moved();
		if constexpr (NK > 2) moved = moved || std::get<2>(t).moved();
		MC_CHECK(!moved && tkeys(t) == k, "%s changed the caller's key argument", what);
	}
	template<typename T>
	inline bool taken_from(const T &a) { return std::is_trivially_copyable_v<T> || a.moved(); }
	template<typename T>
	inline void check_taken(const T &t, const char *what)
	{
		std::apply([&](const auto &...a) { MC_CHECK((taken_from(a) && ...), "%s did not move from the caller's key argument", what); }, t);
	}
	inline void check_takenv(const Val &a, const char *what)
	{
		if constexpr (!std::is_trivially_copyable_v<Val>) MC_CHECK(a.moved(), "%s did not move from the caller's value argument", what);
		else (void) a, (void) what;
	}
	inline void check_argv(const Val &a, int id, const char *what) { MC_CHECK(!a.moved() && a.get("read") == id, "%s changed the caller's value argument", what); }
	template<typename T>
	inline void check_argel(const T &el, const Keys &k, int v, const char *what)
	{
		check_args(tup_of(el), k, what);
		if constexpr (IS_MAP) check_argv(el.second, v, what);
		else (void) v;
	}
	inline void check_val2([[maybe_unused]] const Val2 &x, [[maybe_unused]] const Bulk &b, [[maybe_unused]] int i, [[maybe_unused]] const char *nm)
	{
#if CONT & 1
		check_argel(x, b.k[i], b.v[i], nm);
#endif
	}
	template<typename T>
	inline void check_takenel(const T &el, const char *what)
	{
		check_taken(tup_of(el), what);
		if constexpr (IS_MAP) check_takenv(el.second, what);
	}
}
