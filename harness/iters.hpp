// The interface of an iterator as a whole: every way to move it, to compare it and to read through it agrees with plain iteration.
#pragma once
#include "engine.hpp"

namespace mc
{
	template<bool BI, bool RA, typename I, typename ID>
	inline void check_iter_api(I first, I last, unsigned n, int s, const char *what, ID id)
	{
		static thread_local std::vector<I> at;
		at.clear();
		I w = first;
		for (unsigned i = 0; i < n; ++i)
		{
			at.push_back(w);
			I old = w++;
			MC_CHECK(old == at[i] && !(old != at[i]), "%s of container %d: it++ at position %u does not return the old position", what, s, i);
			I p = old;
			I &r = ++p;
			MC_CHECK(&r == &p && p == w, "%s of container %d: ++it and it++ at position %u lead to different places", what, s, i);
		}
		MC_CHECK(w == last && last == w && !(w != last), "%s of container %d does not end after %u elements", what, s, n);
		at.push_back(w);
		{
			I d{}, z;
			z = first;
			d = z;
			MC_CHECK(d == first && I(d) == first, "%s of container %d: an assigned iterator differs from its source", what, s);
		}
		for (unsigned i = 0; i <= n; ++i)
		{
			const I c = at[i];
			if (i < n) MC_CHECK(id(*c) == id(*at[i]), "%s of container %d: a copied iterator reads another element", what, s);
			if constexpr (BI)
				if (i)
				{
					I b = at[i], d = at[i];
					I &r = --b;
					MC_CHECK(&r == &b && b == at[i - 1] && id(*b) == id(*at[i - 1]), "%s of container %d: --it at position %u leads to another place", what, s, i);
					I o = d--;
					MC_CHECK(o == at[i] && d == b, "%s of container %d: it-- at position %u is wrong", what, s, i);
				}
			for (unsigned j = 0; j <= n; ++j)
			{
				if (n > 10 && j != 0 && j != n && j != n - 1 && j != i && j != i + 1 && j + 1 != i && j != n - i) continue;
				MC_CHECK((at[i] == at[j]) == (i == j) && (at[i] != at[j]) == (i != j), "%s of container %d: comparing the iterators at %u and %u for equality is wrong", what, s, i, j);
				if constexpr (RA)
				{
					using D = typename I::difference_type;
					const D d = static_cast<D>(j) - static_cast<D>(i);
					MC_CHECK(at[j] - at[i] == d, "%s of container %d: the distance from %u to %u is %d", what, s, i, j, static_cast<int>(at[j] - at[i]));
					MC_CHECK(at[i] + d == at[j] && at[j] - d == at[i], "%s of container %d: it + %d at position %u is wrong", what, s, static_cast<int>(d), i);
					I a = at[i];
					I &r = (a += d);
					MC_CHECK(&r == &a && a == at[j], "%s of container %d: it += %d at position %u is wrong", what, s, static_cast<int>(d), i);
					I &q = (a -= d);
					MC_CHECK(&q == &a && a == at[i], "%s of container %d: it -= %d at position %u is wrong", what, s, static_cast<int>(d), j);
					if (j < n) MC_CHECK(id(at[i][d]) == id(*at[j]), "%s of container %d: it[%d] at position %u reads another element", what, s, static_cast<int>(d), i);
					MC_CHECK((at[i] < at[j]) == (i < j) && (at[i] > at[j]) == (i > j) && (at[i] <= at[j]) == (i <= j) && (at[i] >= at[j]) == (i >= j), "%s of container %d: the iterators at %u and %u are ordered wrongly", what, s, i, j);
				}
			}
		}
	}
	// the const iterator made from every mutable one is the one plain const iteration gives
	template<typename CI, typename I>
	inline void check_iter_conv(I first, I last, CI cfirst, CI clast, int s)
	{
		for (; first != last; ++first, ++cfirst)
		{
			const CI c = first;
			CI a{};
			a = first;
			MC_CHECK(cfirst != clast && c == cfirst && a == cfirst, "container %d: the const_iterator made from an iterator refers to another place", s);
		}
		MC_CHECK(CI(last) == clast && cfirst == clast, "container %d: the const_iterator made from end() is not cend()", s);
	}
}
