// Every way of passing arguments (as constants, lvalues and rvalues, independently of each other) to the insertion forms.
#pragma once
#include "engine.hpp"
#include "types.hpp"

namespace mc::fwd
{
	enum Cat { CONST, LVALUE, RVALUE };
	template<int Cat, typename T>
	decltype(auto) as(T &x)
	{
		if constexpr (Cat == CONST) return static_cast<const T &>(x);
		else if constexpr (Cat == LVALUE) return static_cast<T &>(x);
		else return static_cast<T &&>(x);
	}
	enum Method
	{
		EMPLACE, // sets: emplace(key), maps: emplace(key, value)
		EMPLACE_PARTS, // from something a key is constructed of; maps: piecewise
		EMPLACE_WHOLE, // from the type insert takes
		INSERT_OTHER, // insert something an element is constructed of
		TRY, ASSIGN, REPLACE, // try_emplace, insert_or_assign, emplace_or_replace
		TRY_HET, ASSIGN_HET, REPLACE_HET, IDX_HET, // with a key of another type
		N_METHODS
	};
	struct Form
	{
		Method m;
		bool hinted;
		int k, v;
	};
	constexpr unsigned N_FORMS = N_METHODS * 18;
	inline Form decode(unsigned d) { return {static_cast<Method>(d / 18), (d / 9) % 2 != 0, static_cast<int>(d / 3 % 3), static_cast<int>(d % 3)}; }
	// the forms that construct an element before they look for the key
	inline bool builds_first(Method m) { return m <= INSERT_OTHER; }
	inline bool exists(unsigned d, bool map, bool trans)
	{
		const auto f = decode(d);
		if (f.m >= TRY && !map) return false;
		if (f.m >= TRY_HET && !trans) return false;
		if (f.m == IDX_HET && f.hinted) return false;
		if ((!map || f.m == EMPLACE_WHOLE || f.m == INSERT_OTHER || f.m == IDX_HET) && f.v) return false; // there is only one argument
		return true;
	}
	inline void check_src(const KeySrc &s, int k, bool may, bool must, const char *nm)
	{
		MC_CHECK(s.id == k, "%s changed the caller's key argument", nm);
		MC_CHECK(!s.taken || may, "%s moved from the caller's key argument", nm);
		MC_CHECK(s.taken || !must, "%s did not move from the caller's key argument", nm);
	}
	template<typename T>
	void check_obj([[maybe_unused]] const T &a, [[maybe_unused]] int id, [[maybe_unused]] bool may, [[maybe_unused]] bool must, [[maybe_unused]] const char *nm, [[maybe_unused]] const char *which)
	{
		if constexpr (!std::is_trivially_copyable_v<T>)
		{
			MC_CHECK(!a.moved() || may, "%s moved from the caller's %s argument", nm, which);
			MC_CHECK(a.moved() || !must, "%s did not move from the caller's %s argument", nm, which);
			if (!a.moved()) MC_CHECK(a.get("argument") == id, "%s changed the caller's %s argument", nm, which);
		}
	}
	// Calls f(std::integral_constant<k>, std::integral_constant<v>).
	template<typename F>
	void dispatch(int k, int v, F &&f)
	{
		const auto on_v = [&](auto kc)
		{
			switch (v)
			{
				case 0: f(kc, std::integral_constant<int, 0>{}); break;
				case 1: f(kc, std::integral_constant<int, 1>{}); break;
				default: f(kc, std::integral_constant<int, 2>{}); break;
			}
		};
		switch (k)
		{
			case 0: on_v(std::integral_constant<int, 0>{}); break;
			case 1: on_v(std::integral_constant<int, 1>{}); break;
			default: on_v(std::integral_constant<int, 2>{}); break;
		}
	}
}
