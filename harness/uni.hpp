// The unique-key containers (one per binary, chosen with -DCONT=n) driven as a transition system against a reference model.
#pragma once
#include "engine.hpp"
#include <initializer_list>
#include <iterator>
#include <stdexcept>
#include <algorithm>
#include <tpp/sparse_set.hpp>
#include <tpp/sparse_map.hpp>
#include <tpp/stable_set.hpp>
#include <tpp/stable_map.hpp>
#include <tpp/dense_set.hpp>
#include <tpp/dense_map.hpp>

#ifndef CONT
#define CONT 1
#endif
#include "types.hpp"
#include "iters.hpp"
#include "refs.hpp"
#include "caps.hpp"
#include "fwd.hpp"

namespace mc
{
	constexpr bool IS_MAP = CONT & 1;
	constexpr bool IS_ORD = CONT & 2;
	constexpr int FAM = CONT / 4; // 0 sparse, 1 stable, 2 dense
	constexpr bool SPARSE = FAM == 0, STABLE = FAM == 1, DENSE = FAM == 2, SWISS = FAM != 2;

	template<template<typename...> typename S>
	using set_of = S<Key, Hash, Eq, Alloc<Key>>;
	template<template<typename...> typename M, typename P>
	using map_of = M<Key, Val, Hash, Eq, Alloc<P>>;
	using PairM = std::pair<Key, Val>;
	using PairC = std::pair<const Key, Val>;
#if CONT == 0
	using C = set_of<tpp::sparse_set>;
	template<typename K, typename V>
	using RefMap = void;
	using HugeC = tpp::sparse_set<int>;
	constexpr const char *CNAME = "sparse_set";
#elif CONT == 1
	using C = map_of<tpp::sparse_map, PairM>;
	template<typename K, typename V>
	using RefMap = tpp::sparse_map<K, V>;
	using HugeC = tpp::sparse_map<int, char>;
	constexpr const char *CNAME = "sparse_map";
#elif CONT == 2
	using C = set_of<tpp::ordered_sparse_set>;
	template<typename K, typename V>
	using RefMap = void;
	using HugeC = tpp::ordered_sparse_set<int>;
	constexpr const char *CNAME = "ordered_sparse_set";
#elif CONT == 3
	using C = map_of<tpp::ordered_sparse_map, PairM>;
	template<typename K, typename V>
	using RefMap = tpp::ordered_sparse_map<K, V>;
	using HugeC = tpp::ordered_sparse_map<int, char>;
	constexpr const char *CNAME = "ordered_sparse_map";
#elif CONT == 4
	using C = set_of<tpp::stable_set>;
	template<typename K, typename V>
	using RefMap = void;
	using HugeC = tpp::stable_set<int>;
	constexpr const char *CNAME = "stable_set";
#elif CONT == 5
	using C = map_of<tpp::stable_map, PairC>;
	template<typename K, typename V>
	using RefMap = tpp::stable_map<K, V>;
	using HugeC = tpp::stable_map<int, char>;
	constexpr const char *CNAME = "stable_map";
#elif CONT == 6
	using C = set_of<tpp::ordered_stable_set>;
	template<typename K, typename V>
	using RefMap = void;
	using HugeC = tpp::ordered_stable_set<int>;
	constexpr const char *CNAME = "ordered_stable_set";
#elif CONT == 7
	using C = map_of<tpp::ordered_stable_map, PairC>;
	template<typename K, typename V>
	using RefMap = tpp::ordered_stable_map<K, V>;
	using HugeC = tpp::ordered_stable_map<int, char>;
	constexpr const char *CNAME = "ordered_stable_map";
#elif CONT == 8
	using C = set_of<tpp::dense_set>;
	template<typename K, typename V>
	using RefMap = void;
	using HugeC = tpp::dense_set<int>;
	constexpr const char *CNAME = "dense_set";
#elif CONT == 9
	using C = map_of<tpp::dense_map, PairM>;
	template<typename K, typename V>
	using RefMap = tpp::dense_map<K, V>;
	using HugeC = tpp::dense_map<int, char>;
	constexpr const char *CNAME = "dense_map";
#elif CONT == 10
	using C = set_of<tpp::ordered_dense_set>;
	template<typename K, typename V>
	using RefMap = void;
	using HugeC = tpp::ordered_dense_set<int>;
	constexpr const char *CNAME = "ordered_dense_set";
#elif CONT == 11
	using C = map_of<tpp::ordered_dense_map, PairM>;
	template<typename K, typename V>
	using RefMap = tpp::ordered_dense_map<K, V>;
	using HugeC = tpp::ordered_dense_map<int, char>;
	constexpr const char *CNAME = "ordered_dense_map";
#endif
	// the same kind of container with functors of other types
	struct Hash2
	{
		std::size_t operator()(const Key &k) const { return static_cast<std::size_t>(k.get("hash")) * 0x2545F4914F6CDD1Dull; }
	};
	struct Eq2
	{
		bool operator()(const Key &a, const Key &b) const { return a.get("comparison") == b.get("comparison"); }
	};
#if CONT == 4
	using CX = tpp::stable_set<Key, Hash2, Eq2, Alloc<Key>>;
#elif CONT == 5
	using CX = tpp::stable_map<Key, Val, Hash2, Eq2, Alloc<PairC>>;
#elif CONT == 6
	using CX = tpp::ordered_stable_set<Key, Hash2, Eq2, Alloc<Key>>;
#elif CONT == 7
	using CX = tpp::ordered_stable_map<Key, Val, Hash2, Eq2, Alloc<PairC>>;
#endif
	using It = C::iterator;
	using CIt = C::const_iterator;
	using InsT = C::insert_type;
	using ValT = C::value_type;
	using AllocT = C::allocator_type;
	static_assert(sizeof(C) <= SLOT_BYTES);

	enum Code : std::uint8_t
	{
		INS_C, INS_M, INS_LV, INS_V, EMP, // single insertion: const&, &&, non-const lvalue, value_type (maps), emplace
		HINS_C, HINS_M, HINS_V, EMPH,   // hinted (b: position)
		TRY_C, TRY_M, TRYH, TRY0,       // try_emplace (TRY0: default mapped)
		IOA_C, IOA_M, IOAH,             // insert_or_assign
		EOR_C, EOR_M, EORH,             // emplace_or_replace
		IDX_C, IDX_L,                   // operator[] with a const / non-const lvalue
		SETV,                           // at(key) = value, through the mutable interface
		ERK, ERI, ERCI, ERREF, ERR, ERIF, CLR,
		RH, RSV, RSVF, MLF,
		B_INS, B_ASG, B_INSF, B_ILV, B_ILT, B_ASGT, B_CTOR, B_CTORF, CTORS, // bulk, from a mask of keys (F: forward iterators)
		CCTOR, CCTOR_A, CASG, MCTOR, MCTOR_A, MASG, SWAP, DTOR, DCTOR, SELFC, SELFM, SELFS,
		NX, NXI, NI, NIH, NIOA, NIOAH, ND, NMOVE, NMUT, MRG_L, MRG_R, MRG_X, SELFMRG,
		T_ERK, T_TRY, T_IOA, T_EOR, T_IDX, T_NX, // heterogeneous keys
		BIG, // a history over a large table (a: size, x: fill, b: what is erased * 32 + what is done)
		HUGE, // room for many elements (a: how many, b: maximum load factor, x: whether to insert them; x > 1: more than there can be, 5: few elements, b, far apart)
		FWD, // insertion with arguments passed in every way (a: key, x: value, b: position of the hint, d: form)
		REFS, // comparing and using references to elements (a: keys and values, x: type of the mapped value)
		AL, // insertion with arguments that refer to elements of the container (a, b: keys present; x: form)
		N_CODES
	};
	inline const char *code_name[] = {
		"insert(const&)", "insert(&&)", "insert(lvalue)", "insert(value_type)", "emplace", "insert(hint,const&)", "insert(hint,&&)", "insert(hint,other type)", "emplace_hint",
		"try_emplace(const&)", "try_emplace(&&)", "try_emplace(hint)", "try_emplace(key only)", "insert_or_assign(const&)", "insert_or_assign(&&)", "insert_or_assign(hint)",
		"emplace_or_replace(const&)", "emplace_or_replace(&&)", "emplace_or_replace(hint)", "operator[](const&)", "operator[](lvalue)", "at()=",
		"erase(key)", "erase(iterator)", "erase(const_iterator)", "erase(key inside)", "erase(range)", "erase_if", "clear", "rehash", "reserve", "reserve+fill", "max_load_factor",
		"insert(range)", "operator=(init-list)", "insert(forward range)", "insert(init-list)", "insert(init-list of others)", "operator=(init-list of others)", "construct(range)", "construct(forward range)", "construction",
		"copy-construct", "copy-construct(alloc)", "copy-assign", "move-construct", "move-construct(alloc)", "move-assign", "swap", "destroy", "construct(n)", "self copy-assign", "self move-assign", "self swap",
		"extract(key)", "extract(iterator)", "insert(node)", "insert(hint,node)", "insert_or_assign(node)", "insert_or_assign(hint,node)", "drop node", "move node", "change through node", "merge(&)", "merge(&&)", "merge(other functors)", "self merge",
		"erase(het)", "try_emplace(het)", "insert_or_assign(het)", "emplace_or_replace(het)", "operator[](het)", "extract(het)", "large table", "room for many elements", "insertion (argument forms)", "comparing & using references", "insertion of own element"};
	static_assert(std::size(code_name) == N_CODES);

	// ------------------------------------------------------------------------------------------------ helpers
	inline C &c(int s) { return *std::launder(reinterpret_cast<C *>(W->h.slot[s])); }
	inline Model &m(int s) { return W->h.m[s]; }
	inline Ent *e(int s) { return W->e[s]; }
	inline int mfind(int s, int k)
	{
		for (unsigned i = 0; i < m(s).n; ++i)
			if (e(s)[i].k == k) return static_cast<int>(i);
		return -1;
	}
	inline void minsert(int s, int k, int v, unsigned pos, const void *addr)
	{
		if (m(s).n >= MAXN) harness_error("model overflow");
		unsigned p = 0;
		if (IS_ORD) p = pos;
		else
			while (p < m(s).n && e(s)[p].k < k) ++p;
		memmove(static_cast<void *>(e(s) + p + 1), e(s) + p, (m(s).n - p) * sizeof(Ent));
		Ent x;
		x.k = static_cast<std::int16_t>(k);
		x.v = static_cast<std::int16_t>(v);
		x.addr = STABLE ? reinterpret_cast<std::uintptr_t>(addr) : 0;
		e(s)[p] = x;
		++m(s).n;
		m(s).maxn = std::max(m(s).maxn, m(s).n);
	}
	inline void merase(int s, int i)
	{
		memmove(static_cast<void *>(e(s) + i), e(s) + i + 1, (m(s).n - static_cast<unsigned>(i) - 1) * sizeof(Ent));
		e(s)[--m(s).n] = Ent{};
	}
	inline void mclear(int s)
	{
		memset(static_cast<void *>(e(s)), 0, m(s).n * sizeof(Ent));
		m(s).n = 0;
	}
	inline void mcopy(int d, int s)
	{
		mclear(d);
		memcpy(static_cast<void *>(e(d)), e(s), m(s).n * sizeof(Ent));
		m(d).n = m(s).n;
		m(d).maxn = std::max(m(d).maxn, m(s).maxn);
	}
	template<typename R>
	inline const Key &key_of(const R &r)
	{
		if constexpr (IS_MAP) return r.first;
		else return r;
	}
	template<typename R>
	inline int kid(const R &r) { return key_of(r).get("read"); }
	template<typename R>
	inline int vid(const R &r)
	{
		if constexpr (IS_MAP) return r.second.get("read");
		else { (void) r; return 0; }
	}
	template<typename I>
	inline const void *addr_of(I it)
	{
		if constexpr (IS_MAP)
		{
			if constexpr (STABLE) return static_cast<const void *>(&*it);
			else return nullptr;
		}
		else
			return static_cast<const void *>(&*it);
	}
	template<typename CT = C>
	inline typename CT::insert_type mk(int k, int v)
	{
		using InsT = typename CT::insert_type;
		if constexpr (IS_MAP) return InsT(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(v));
		else { (void) v; return Key(k); }
	}
	inline It nth(int s, unsigned n)
	{
		auto &x = c(s);
		It it = x.begin();
		for (unsigned i = 0; i < n && it != It{x.end()}; ++i) ++it;
		return it;
	}
	inline void track(int s)
	{
		if (m(s).n > shm->max_elems) shm->max_elems = m(s).n;
		const auto b = static_cast<std::uint32_t>(c(s).bucket_count());
		if (b > shm->max_buckets) shm->max_buckets = b;
	}
	inline void obs(std::uint64_t x) { shm->obs_hash = mum(shm->obs_hash ^ x ^ 0x9E3779B97F4A7C15ull, 0xBF58476D1CE4E5B9ull) + x; }

	constexpr float MLFS[] = {.875f, .25f, .5f, 1.f, 2.f, .7f};
	inline double mlf_of(int s)
	{
		if constexpr (DENSE) return MLFS[m(s).mlf];
		else return .875;
	}
	inline AllocT mkalloc(unsigned tag) { return AllocT(tag); }
	inline Hash mkhash(unsigned tag)
	{
		Hash h;
		h.set_tag(tag);
		return h;
	}
	inline Eq mkeq(unsigned tag)
	{
		Eq q;
		q.set_tag(tag);
		return q;
	}
	constexpr unsigned eff_tag(unsigned t) { return APOL < 0 ? 0 : t; }
	constexpr unsigned eff_htag(unsigned t) { return HEMPTY ? 0 : t; }
	inline unsigned job_tag(int s) { return static_cast<unsigned>(s) < g_job->tags.size() ? g_job->tags[static_cast<unsigned>(s)] : static_cast<unsigned>(g_job->default_tag); }

	// job options
	constexpr std::uint32_t OPT_HTAGS = 1; // give every slot its own hash/compare functor state
	constexpr std::uint32_t OPT_LINEAR = 2; // bound the work of one operation
	constexpr std::uint32_t OPT_OBS = 4;
	constexpr std::uint32_t OPT_ITER = 8; // examine the whole iterator interface after every operation

	inline void birth(int s, unsigned tag, unsigned htag)
	{
		const auto n = m(s).n;
		(void) n;
		m(s) = Model{};
		m(s).live = 1;
		m(s).tag = eff_tag(tag);
		m(s).htag = eff_htag(htag);
	}
	inline void kill_slot(int s)
	{
		c(s).~C();
		mclear(s);
		m(s) = Model{};
		memset(W->h.slot[s], 0, SLOT_BYTES);
	}
	inline void make(int s)
	{
		const unsigned ht = (g_job->opt & OPT_HTAGS) ? static_cast<unsigned>(s) : 0;
		if (ht) new (W->h.slot[s]) C(0, mkhash(ht), mkeq(ht), mkalloc(job_tag(s)));
		else new (W->h.slot[s]) C(mkalloc(job_tag(s)));
		birth(s, job_tag(s), ht);
	}

#if CONT >= 4 && CONT < 8
	using NH = C::node_type;
	static_assert(sizeof(NH) <= 64);
	inline NH &nh() { return *std::launder(reinterpret_cast<NH *>(W->h.nh)); }
#endif

	inline void arm(const Op &o) { g_fault = o.f; }
	inline void disarm() { g_fault = 0; }
	inline bool same_contents(int a, int b)
	{
		if (m(a).n != m(b).n) return false;
		for (unsigned i = 0; i < m(a).n; ++i)
		{
			const int j = mfind(b, e(a)[i].k);
			if (j < 0 || e(b)[j].v != e(a)[i].v) return false;
		}
		return true;
	}

	// ------------------------------------------------------------------------------------------------ checking
	template<typename CC, typename I>
	inline void check_seq(CC &x, int s, I first, I last, bool reverse, const char *what)
	{
		(void) x;
		std::uint8_t seen[MAXN] = {};
		unsigned i = 0;
		for (; first != last; ++first, ++i)
		{
			MC_CHECK(i < m(s).n, "%s visits more than the %u elements of container %d", what, m(s).n, s);
			auto &&r = *first;
			const int k = kid(r), v = vid(r);
			int j;
			if (IS_ORD)
			{
				j = static_cast<int>(reverse ? m(s).n - 1 - i : i);
				MC_CHECK(e(s)[j].k == k, "%s: position %u of container %d holds key %d, the insertion order says %d", what, i, s, k, e(s)[j].k);
			}
			else
			{
				j = mfind(s, k);
				MC_CHECK(j >= 0, "%s of container %d visits key %d, which is not in the container", what, s, k);
				MC_CHECK(!seen[j], "%s of container %d visits key %d twice", what, s, k);
				seen[j] = 1;
			}
			if (IS_MAP) MC_CHECK(e(s)[j].v == v, "%s: key %d of container %d maps to %d, expected %d", what, k, s, v, e(s)[j].v);
			MC_CHECK(kid(*first) == k, "%s: reading an element twice gives different keys", what);
			if constexpr (STABLE)
				MC_CHECK(reinterpret_cast<std::uintptr_t>(addr_of(first)) == e(s)[j].addr, "key %d of container %d changed its address", k, s);
			if constexpr (IS_MAP) MC_CHECK(first->first.get() == k && first->second.get() == v, "%s: operator-> and operator* disagree", what);
			else MC_CHECK(first->get() == k, "%s: operator-> and operator* disagree", what);
		}
		MC_CHECK(i == m(s).n, "%s visits %u of the %u elements of container %d", what, i, m(s).n, s);
	}
#define MC_LOCALS \
		using It = typename CT::iterator; \
		using CIt = typename CT::const_iterator; \
		using InsT = typename CT::insert_type; \
		using ValT = typename CT::value_type; \
		const auto c = &slot_ref<CT>; \
		(void) c; \
		(void) sizeof(It *); \
		(void) sizeof(CIt *); \
		(void) sizeof(InsT *); \
		(void) sizeof(ValT *);
	template<typename CT>
	inline CT &slot_ref(int s) { return *std::launder(reinterpret_cast<CT *>(W->h.slot[s])); }

	// the buckets hold every element once, each in the bucket of its key
	template<typename CT, typename Md>
	inline void check_buckets(int s, CT &x, const CT &cx, const Md &M)
	{
		const auto bc = cx.bucket_count();
		if (!bc) return;
		int where[MAXN];
		for (std::uint32_t j = 0; j < M.n; ++j)
		{
			const Key k(e(s)[j].k);
			const auto b = cx.bucket(k);
			MC_CHECK(b < bc, "container %d: bucket(%d) is not below bucket_count()", s, e(s)[j].k);
#if TRANS
			MC_CHECK(cx.bucket(TK{e(s)[j].k}) == b, "container %d: bucket(het %d) differs from bucket(%d)", s, e(s)[j].k, e(s)[j].k);
#endif
			where[j] = static_cast<int>(b);
		}
		std::uint32_t total = 0;
		for (std::size_t b = 0; b < bc; ++b)
		{
			std::uint32_t in = 0, expected = 0;
			for (std::uint32_t j = 0; j < M.n; ++j) expected += where[j] == static_cast<int>(b);
			auto it = x.begin(b);
			typename CT::const_local_iterator ci = cx.begin(b);
			MC_CHECK(ci == cx.cbegin(b) && cx.end(b) == cx.cend(b), "container %d: cbegin(%zu) or cend(%zu) differs from begin() or end()", s, b, b);
			for (const auto end = x.end(b); it != end; ++it, ++ci)
			{
				MC_CHECK(++in <= expected, "container %d: bucket %zu holds more than its %u elements", s, b, expected);
				MC_CHECK(ci != cx.end(b) && typename CT::const_local_iterator{it} == ci && kid(*ci) == kid(*it), "container %d: the local iterators of bucket %zu differ", s, b);
				const int k = kid(*it), j = mfind(s, k);
				MC_CHECK(j >= 0 && where[j] == static_cast<int>(b), "container %d: bucket %zu lists key %d of another bucket", s, b, k);
				MC_CHECK(static_cast<const void *>(&key_of(*it)) == static_cast<const void *>(&key_of(*cx.find(Key(k)))), "container %d: bucket %zu lists another object of key %d", s, b, k);
				if constexpr (IS_MAP) MC_CHECK(&it->second == &cx.find(Key(k))->second, "container %d: bucket %zu lists another object of key %d", s, b, k);
				for (auto q = x.begin(b); q != it; q++) MC_CHECK(kid(*q) != k, "container %d: bucket %zu lists key %d twice", s, b, k);
			}
			MC_CHECK(in == expected && ci == cx.end(b), "container %d: bucket %zu lists %u of its %u elements", s, b, in, expected);
			MC_CHECK(cx.bucket_size(b) == expected, "container %d: bucket_size(%zu) is %zu, the bucket holds %u elements", s, b, cx.bucket_size(b), expected);
			total += in;
		}
		MC_CHECK(total == M.n, "container %d: the buckets hold %u of %u elements", s, total, M.n);
	}
	template<typename CT>
	inline void verify_slot(int s)
	{
		MC_LOCALS
		auto &x = c(s);
		const auto &cx = x;
		const auto &M = m(s);
		MC_CHECK(cx.size() == M.n, "container %d: size() is %zu, expected %u", s, cx.size(), M.n);
		MC_CHECK(cx.empty() == (M.n == 0), "container %d: empty() is wrong", s);
		check_seq(x, s, x.begin(), x.end(), false, "iteration");
		check_seq(cx, s, cx.begin(), cx.end(), false, "const iteration");
		MC_CHECK(cx.cbegin() == cx.begin() && cx.cend() == cx.end() && (cx.begin() == cx.end()) == (M.n == 0), "container %d: begin()/end() inconsistent", s);
		if constexpr (DENSE)
		{
			check_seq(cx, s, cx.rbegin(), cx.rend(), true, "reverse iteration");
			check_seq(x, s, x.rbegin(), x.rend(), true, "reverse iteration");
			if constexpr (!IS_ORD)
			{
				MC_CHECK(static_cast<unsigned>(cx.end() - cx.begin()) == M.n, "container %d: end()-begin() is wrong", s);
				unsigned i = 0;
				for (auto it = cx.begin(); it != cx.end(); ++it, ++i)
				{
					MC_CHECK(kid(*(cx.begin() + static_cast<std::ptrdiff_t>(i))) == kid(*it) && kid(*(cx.end() - static_cast<std::ptrdiff_t>(M.n - i))) == kid(*it), "container %d: random access disagrees with iteration", s);
					MC_CHECK(static_cast<unsigned>(it - cx.begin()) == i && (i == 0 || cx.begin() < it) && it < cx.end(), "container %d: iterator arithmetic disagrees with iteration", s);
				}
			}
		}
		if constexpr (IS_ORD)
		{
			auto it = cx.end();
			for (unsigned i = M.n; i--;)
			{
				--it;
				MC_CHECK(kid(*it) == e(s)[i].k, "container %d: walking back from the end finds key %d at position %u, expected %d", s, kid(*it), i, e(s)[i].k);
			}
			MC_CHECK(it == cx.begin(), "container %d: walking back from the end does not reach begin()", s);
			if (M.n)
			{
				MC_CHECK(kid(cx.front()) == e(s)[0].k && kid(x.front()) == e(s)[0].k, "container %d: front() is wrong", s);
				MC_CHECK(kid(cx.back()) == e(s)[M.n - 1].k && kid(x.back()) == e(s)[M.n - 1].k, "container %d: back() is wrong", s);
			}
		}
		if (g_job->opt & OPT_ITER)
		{
			const auto id = [](auto &&r) { return kid(r); };
			check_iter_api<IS_ORD || DENSE, DENSE && !IS_ORD>(x.begin(), x.end(), M.n, s, "iteration", id);
			check_iter_api<IS_ORD || DENSE, DENSE && !IS_ORD>(cx.begin(), cx.end(), M.n, s, "const iteration", id);
			check_iter_conv<CIt>(x.begin(), x.end(), cx.begin(), cx.end(), s);
			if constexpr (DENSE)
			{
				check_iter_api<true, false>(x.rbegin(), x.rend(), M.n, s, "reverse iteration", id);
				check_iter_api<true, false>(cx.crbegin(), cx.crend(), M.n, s, "const reverse iteration", id);
				MC_CHECK(x.rbegin().base() == x.end() && x.rend().base() == x.begin() && cx.crbegin() == cx.rbegin() && cx.crend() == cx.rend(), "container %d: rbegin()/rend() inconsistent", s);
			}
		}
		unsigned misses = 0; // at() of an absent key throws, which is slow: only for some of the absent keys of large universes
		const bool all_misses = g_job->universe.size() <= 4;
		for (const int k: g_job->universe)
		{
			const int j = mfind(s, k);
			const Key key(k);
			MC_CHECK(cx.contains(key) == (j >= 0), "container %d: contains(%d) is %d", s, k, j < 0);
			const auto it = x.find(key);
			const auto cit = cx.find(key);
			MC_CHECK((cit != cx.end()) == (j >= 0), "container %d: find(%d) %s", s, k, j >= 0 ? "misses a stored key" : "finds an absent key");
			MC_CHECK((it != It{x.end()}) == (j >= 0), "container %d: non-const find(%d) %s", s, k, j >= 0 ? "misses a stored key" : "finds an absent key");
			if (j >= 0)
			{
				MC_CHECK(kid(*cit) == k && kid(*it) == k, "container %d: find(%d) returns another element", s, k);
				MC_CHECK(vid(*cit) == e(s)[j].v, "container %d: find(%d) gives value %d, expected %d", s, k, vid(*cit), e(s)[j].v);
			}
			if constexpr (IS_MAP)
			{
				if (j >= 0)
				{
					MC_CHECK(cx.at(key).get() == e(s)[j].v && x.at(key).get() == e(s)[j].v, "container %d: at(%d) is wrong", s, k);
					MC_CHECK(&cx.at(key) == &cit->second, "container %d: at(%d) refers to another object than find(%d)", s, k, k);
				}
				else if (all_misses || misses++ == M.n % 3)
					for (int w = 0; w < 2; ++w)
					{
						bool thrown = false;
						try
						{
							if (w) (void) x.at(key);
							else (void) cx.at(key);
						}
						catch (const std::out_of_range &) { thrown = true; }
						MC_CHECK(thrown, "container %d: at(%d) of an absent key does not throw", s, k);
					}
			}
#if TRANS
			const TK tk{k};
			MC_CHECK(cx.contains(tk) == (j >= 0), "container %d: contains(het %d) is %d", s, k, j < 0);
			MC_CHECK(cx.find(tk) == cit, "container %d: find(het %d) differs from find(%d)", s, k, k);
			MC_CHECK(x.find(tk) == it, "container %d: find(het %d) differs from find(%d)", s, k, k);
			if constexpr (IS_MAP)
			{
				if (j < 0 && !all_misses && misses++ != M.n % 3 + 1) continue;
				bool thrown = false;
				try { MC_CHECK(&cx.at(tk) == &cit->second && &x.at(tk) == &cit->second, "container %d: at(het %d) refers to another object", s, k); }
				catch (const std::out_of_range &) { thrown = true; }
				MC_CHECK(thrown == (j < 0), "container %d: at(het %d) %s", s, k, j < 0 ? "does not throw" : "throws");
			}
#endif
		}
		const auto bc = cx.bucket_count();
		MC_CHECK(bc <= cx.max_bucket_count(), "container %d: bucket_count() exceeds max_bucket_count()", s);
		MC_CHECK(cx.max_size() >= M.n, "container %d: max_size() is below size()", s);
		MC_CHECK(M.n == 0 || bc > 0, "container %d: %u elements in no buckets", s, M.n);
		if (bc)
		{
			const float lf = static_cast<float>(M.n) / static_cast<float>(bc);
			MC_CHECK(cx.load_factor() == lf, "container %d: load_factor() is %f, expected %f", s, static_cast<double>(cx.load_factor()), static_cast<double>(lf));
			if constexpr (SWISS)
			{
				MC_CHECK(cx.max_load_factor() == 7.f / 8.f, "container %d: max_load_factor() is wrong", s);
				MC_CHECK(cx.capacity() >= M.n, "container %d: capacity() %zu is below size() %u", s, cx.capacity(), M.n);
				MC_CHECK(cx.capacity() <= bc, "container %d: capacity() exceeds bucket_count()", s);
			}
		}
		if constexpr (DENSE) MC_CHECK(cx.max_load_factor() == MLFS[M.mlf], "container %d: max_load_factor() is %f, expected %f", s, static_cast<double>(cx.max_load_factor()), static_cast<double>(MLFS[M.mlf]));
		if constexpr (DENSE) check_buckets(s, x, cx, M);
		MC_CHECK(static_cast<double>(bc) <= 64 + 4 * M.maxn / mlf_of(s), "container %d: %zu buckets although it never held or was asked to hold more than %u elements", s, bc, M.maxn);
		MC_CHECK(cx.get_allocator().get_tag() == M.tag, "container %d: uses allocator #%u, expected #%u", s, cx.get_allocator().get_tag(), M.tag);
		MC_CHECK(cx.hash_function().get_tag() == M.htag && cx.key_eq().get_tag() == M.htag, "container %d: hash/compare functors #%u/#%u, expected #%u", s, cx.hash_function().get_tag(), cx.key_eq().get_tag(), M.htag);
		MC_CHECK(cx == cx && !(cx != cx), "container %d does not compare equal to itself", s);
	}

	// contents actually found after an operation that may legally have been cut short
	inline void resync(int s, std::uint32_t old_n, const Ent *old, const int *extra_k, const int *extra_v, int extra_n)
	{
		mclear(s);
		auto &x = c(s);
		unsigned i = 0;
		for (auto it = x.begin(); it != x.end(); ++it)
		{
			MC_CHECK(++i <= MAXN, "iteration does not end after an exception");
			const int k = kid(*it), v = vid(*it);
			bool ok = false;
			for (std::uint32_t q = 0; q < old_n; ++q) ok = ok || (old[q].k == k && old[q].v == v);
			for (int q = 0; q < extra_n; ++q) ok = ok || (extra_k[q] == k && (extra_v[q] == v || !IS_MAP));
			MC_CHECK(ok, "container %d holds (%d,%d) after an exception, which nobody inserted", s, k, v);
			MC_CHECK(mfind(s, k) < 0, "container %d holds key %d twice after an exception", s, k);
			minsert(s, k, v, m(s).n, addr_of(it));
		}
	}

	struct Pre { std::uint32_t n; Ent e[MAXN]; };
	inline void snap_pre(Pre &p, int s)
	{
		p.n = m(s).n;
		memcpy(static_cast<void *>(p.e), e(s), p.n * sizeof(Ent));
	}

	inline void check_pos(int s, It it, int k, const char *what)
	{
		MC_CHECK(it != It{c(s).end()}, "%s returned end()", what);
		MC_CHECK(kid(*it) == k, "%s returned an iterator to key %d instead of %d", what, kid(*it), k);
		MC_CHECK(it == It{c(s).find(Key(k))}, "%s returned an iterator that differs from find()", what);
	}
	// the elements from `it` to the end must be exactly those in `rest` (in that order for ordered containers)
	inline void check_rest(int s, It it, const std::vector<int> &rest, const char *what)
	{
		std::vector<int> got;
		for (; it != It{c(s).end()}; ++it)
		{
			got.push_back(kid(*it));
			MC_CHECK(got.size() <= rest.size(), "%s: the returned iterator leads over more elements than remained unvisited", what);
		}
		auto want = rest;
		if (!IS_ORD)
		{
			std::sort(got.begin(), got.end());
			std::sort(want.begin(), want.end());
		}
		MC_CHECK(got == want, "%s: the returned iterator does not lead over exactly the elements not visited yet", what);
	}
	inline std::vector<int> keys_after(int s, It it)
	{
		std::vector<int> r;
		for (; it != It{c(s).end()}; ++it) r.push_back(kid(*it));
		return r;
	}

	// ------------------------------------------------------------------------------------------------ bulk argument lists
	struct Bulk
	{
		int k[24], v[24], n = 0;
	};
	// mask over the first 8 keys of the universe; b: 0 ascending, 1 descending, 2 every key twice (second time another value), 3 the whole universe
	inline Bulk bulk_of(const Op &o)
	{
		Bulk r;
		const auto &u = g_job->universe;
		if (o.b == 3)
		{
			for (std::size_t i = 0; i < u.size() && i < 24; ++i) { r.k[r.n] = u[i]; r.v[r.n++] = o.x; }
			return r;
		}
		for (int q = 0; q < 8; ++q)
		{
			const int i = o.b == 1 ? 7 - q : q;
			if (!(o.a >> i & 1) || static_cast<std::size_t>(i) >= u.size()) continue;
			r.k[r.n] = u[static_cast<std::size_t>(i)];
			r.v[r.n++] = o.x;
			if (o.b == 2)
			{
				r.k[r.n] = u[static_cast<std::size_t>(i)];
				r.v[r.n++] = o.x + 1;
			}
		}
		return r;
	}
	template<typename CT = C>
	inline typename CT::value_type mkv(int k, int v)
	{
		using ValT = typename CT::value_type;
		if constexpr (IS_MAP) return ValT(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(v));
		else { (void) v; return Key(k); }
	}
	template<typename I>
	struct FwdIt
	{
		using iterator_category = std::forward_iterator_tag;
		using value_type = typename std::iterator_traits<I>::value_type;
		using difference_type = std::ptrdiff_t;
		using pointer = typename std::iterator_traits<I>::pointer;
		using reference = typename std::iterator_traits<I>::reference;
		I i{};
		reference operator*() const { return *i; }
		pointer operator->() const { return i; }
		FwdIt &operator++() { ++i; return *this; }
		FwdIt operator++(int) { auto t = *this; ++i; return t; }
		bool operator==(const FwdIt &o) const { return i == o.i; }
		bool operator!=(const FwdIt &o) const { return i != o.i; }
	};
	template<typename F>
	inline void with_list(const Bulk &b, F &&f)
	{
		alignas(ValT) unsigned char raw[sizeof(ValT) * 24];
		auto *p = reinterpret_cast<ValT *>(raw);
		struct Guard
		{
			ValT *p;
			int n = 0;
			~Guard() { for (int i = 0; i < n; ++i) p[i].~ValT(); }
		} g{p};
		for (; g.n < b.n; ++g.n) new (p + g.n) ValT(mkv(b.k[g.n], b.v[g.n]));
		f(static_cast<const ValT *>(p), static_cast<const ValT *>(p + b.n));
	}
	// the same elements in a form from which elements can be constructed
#if CONT % 2
	using Val2 = InsT;
	inline Val2 mk2(int k, int v) { return mk(k, v); }
#else
	using Val2 = int;
	inline Val2 mk2(int k, int) { return k; }
#endif
	template<typename F>
	inline void with_list2(const Bulk &b, F &&f)
	{
		alignas(Val2) unsigned char raw[sizeof(Val2) * 24];
		auto *p = reinterpret_cast<Val2 *>(raw);
		struct Guard
		{
			Val2 *p;
			int n = 0;
			~Guard() { for (int i = 0; i < n; ++i) p[i].~Val2(); }
		} g{p};
		for (; g.n < b.n; ++g.n) new (p + g.n) Val2(mk2(b.k[g.n], b.v[g.n]));
		f(static_cast<const Val2 *>(p), static_cast<const Val2 *>(p + b.n));
	}
	inline void madd(int s, const Bulk &b)
	{
		for (int i = 0; i < b.n; ++i)
			if (mfind(s, b.k[i]) < 0)
			{
				const auto it = c(s).find(Key(b.k[i]));
				MC_CHECK(it != It{c(s).end()}, "a bulk operation lost key %d", b.k[i]);
				minsert(s, b.k[i], IS_MAP ? b.v[i] : 0, m(s).n, addr_of(it));
			}
	}
	inline std::uint32_t n_init() { return g_job->n_init ? g_job->n_init : 1; }
}
