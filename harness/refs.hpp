// The references iterators of maps give (dense maps: a pair of references made on the fly) compared and used as pairs of key and mapped value.
#pragma once
#include "engine.hpp"
#include <tuple>
#include <utility>
#if __cplusplus >= 202002L
#include <compare>
#endif

namespace mc::refs
{
	struct Oops {};
	// a mapped value whose comparisons may throw
	struct Bad
	{
		int i = 0;
		static inline bool armed = false;
		void touch() const { if (armed) throw Oops{}; }
		bool operator==(const Bad &o) const { touch(); return i == o.i; }
		bool operator!=(const Bad &o) const { touch(); return i != o.i; }
		bool operator<(const Bad &o) const { touch(); return i < o.i; }
	};
	inline int num(int i) { return i; }
	inline int num(const Bad &b) { return b.i; }
	template<typename V>
	inline V make(int i)
	{
		if constexpr (std::is_same_v<V, Bad>) { Bad b; b.i = i; return b; }
		else return i;
	}

	template<typename A, typename B>
	inline void compare(const A &a, const B &b, int order, const char *what)
	{
		MC_CHECK((a == b) == (order == 0) && (a != b) == (order != 0), "%s: == or != of two references is wrong", what);
		MC_CHECK((a < b) == (order < 0) && (a > b) == (order > 0), "%s: < or > of two references is wrong", what);
		MC_CHECK((a <= b) == (order <= 0) && (a >= b) == (order >= 0), "%s: <= or >= of two references is wrong", what);
	}
	template<typename F>
	inline bool throws(F &&f)
	{
		Bad::armed = true;
		bool t = false;
		try { f(); }
		catch (const Oops &) { t = true; }
		Bad::armed = false;
		return t;
	}
	// two elements with the given keys and mapped values in containers of type M; KEY makes a key of a number
	template<typename M, typename F>
	inline void check_pair(F key, int k1, int v1, int k2, int v2, const char *what)
	{
		using V = typename M::mapped_type;
		M x, y;
		x.try_emplace(key(k1), make<V>(v1));
		y.try_emplace(key(k2), make<V>(v2));
		const M &cx = x, &cy = y;
		const int order = k1 != k2 ? (k1 < k2 ? -1 : 1) : v1 != v2 ? (v1 < v2 ? -1 : 1) : 0;
		compare(*x.begin(), *y.begin(), order, what);
		compare(*cx.begin(), *cy.begin(), order, what);
		compare(*x.begin(), *cy.begin(), order, what);
		compare(*cx.begin(), *y.begin(), order, what);
		MC_CHECK((x == y) == (order == 0) && (x != y) == (order != 0), "%s: == or != of two containers is wrong", what);
		if constexpr (std::is_same_v<V, Bad>)
			if (k1 == k2)
			{
				MC_CHECK(throws([&] { (void) (*x.begin() == *y.begin()); }) && throws([&] { (void) (*cx.begin() != *cy.begin()); }) && throws([&] { (void) (*x.begin() < *y.begin()); }) && throws([&] { (void) (*x.begin() >= *y.begin()); }), "%s: an exception of a comparison does not leave the comparison of references", what);
				MC_CHECK(throws([&] { (void) (x == y); }), "%s: an exception of a comparison does not leave the comparison of containers", what);
			}
		// decomposition, conversion and writing
		{
			auto it = x.begin();
			decltype(auto) ref = *it;
			decltype(auto) cref = *cx.begin();
			MC_CHECK(static_cast<const void *>(&ref.first) == &it->first && &ref.second == &it->second && &cref.second == &it->second && static_cast<const void *>(&cref.first) == &it->first, "%s: two references to an element refer to different objects", what);
			auto &&[k, m] = *it;
			const auto &[ck, cm] = *cx.begin();
			MC_CHECK(static_cast<const void *>(&k) == &it->first && &m == &it->second && static_cast<const void *>(&ck) == &it->first && &cm == &it->second, "%s: a structured binding refers to other objects", what);
			m = make<V>(77);
			MC_CHECK(num(it->second) == 77 && num(ref.second) == 77 && num(cref.second) == 77 && num((*cx.begin()).second) == 77, "%s: a value written through a structured binding is not visible", what);
			if constexpr (!std::is_reference_v<decltype(*it)>)
			{
				std::pair<const typename M::key_type &, V &> p = *it;
				p.second = make<V>(78);
				MC_CHECK(num(it->second) == 78 && num(cm) == 78 && static_cast<const void *>(&p.first) == &it->first, "%s: a value written through a pair of references is not visible", what);
			}
			{
				using std::get;
				get<1>(ref) = make<V>(79);
				MC_CHECK(num(it->second) == 79 && static_cast<const void *>(&get<0>(ref)) == &it->first && &get<1>(cref) == &it->second, "%s: get<>() of a reference refers to another object", what);
			}
			it->second = make<V>(80);
			MC_CHECK(num((*cx.begin()).second) == 80 && num(cx.begin()->second) == 80, "%s: a value written through an iterator is not visible", what);
		}
	}
	constexpr int N_REF = 3; // numbers of keys and of values
	template<typename M, typename F>
	inline void check_all(F key, unsigned a, const char *what)
	{
		const int d = static_cast<int>(a);
		check_pair<M>(key, d % N_REF, d / N_REF % N_REF, d / (N_REF * N_REF) % N_REF, d / (N_REF * N_REF * N_REF), what);
	}
	constexpr unsigned N_REFS = N_REF * N_REF * N_REF * N_REF;
}
