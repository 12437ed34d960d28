// All ways to construct a container: with and without a list of elements, bucket count, functors, allocator.
#pragma once

namespace mc
{
	template<typename T>
	inline std::initializer_list<T> make_il(const T *f, const T *l)
	{
		struct IL { const T *p; std::size_t n; } raw{f, static_cast<std::size_t>(l - f)};
		std::initializer_list<T> il;
		static_assert(sizeof raw == sizeof il);
		memcpy(static_cast<void *>(&il), &raw, sizeof il);
		return il;
	}
	constexpr unsigned N_CTORS = 25, CTOR_H = 1, CTOR_E = 2, CTOR_A = 3; // tags given where a form takes a functor or an allocator
	inline bool ctor_list(unsigned form) { return form >= 6 && form < 24; }
	inline bool ctor_hash(unsigned form) { return form < 24 && (form < 6 ? form >= 1 && form <= 4 : (form - 6) % 6 >= 2 && (form - 6) % 6 <= 4); }
	inline bool ctor_eq(unsigned form) { return form < 24 && (form < 6 ? form == 2 || form == 3 : (form - 6) % 6 == 2 || (form - 6) % 6 == 3); }
	inline bool ctor_alloc(unsigned form) { return form < 24 && (form < 6 ? form >= 3 : (form - 6) % 6 >= 3); }
	inline bool ctor_buckets(unsigned form) { return form < 24 && (form < 6 || form % 6 != 0); }
	// forms 0-5: a number of buckets, 6-11: an initializer list of values, 12-17: a range, 18-23: an initializer list of something else, 24: nothing
	template<typename V2>
	inline void construct_form(void *at, unsigned form, std::size_t bc, const ValT *f, const ValT *l, const V2 *f2, const V2 *l2)
	{
		const auto h = mkhash(CTOR_H);
		const auto e = mkeq(CTOR_E);
		const auto a = mkalloc(CTOR_A);
		switch (form)
		{
			case 0: new (at) C(bc); break;
			case 1: new (at) C(bc, h); break;
			case 2: new (at) C(bc, h, e); break;
			case 3: new (at) C(bc, h, e, a); break;
			case 4: new (at) C(bc, h, a); break;
			case 5: new (at) C(bc, a); break;
			case 6: new (at) C(make_il(f, l)); break;
			case 7: new (at) C(make_il(f, l), bc); break;
			case 8: new (at) C(make_il(f, l), bc, h, e); break;
			case 9: new (at) C(make_il(f, l), bc, h, e, a); break;
			case 10: new (at) C(make_il(f, l), bc, h, a); break;
			case 11: new (at) C(make_il(f, l), bc, a); break;
			case 12: new (at) C(f, l); break;
			case 13: new (at) C(f, l, bc); break;
			case 14: new (at) C(f, l, bc, h, e); break;
			case 15: new (at) C(f, l, bc, h, e, a); break;
			case 16: new (at) C(f, l, bc, h, a); break;
			case 17: new (at) C(f, l, bc, a); break;
			default:
				// (ordered maps do not take lists of other types)
				if constexpr (std::is_constructible_v<C, std::initializer_list<V2>>)
				{
					if (form == 18) new (at) C(make_il(f2, l2));
					else if (form == 19) new (at) C(make_il(f2, l2), bc);
					else if (form == 20) new (at) C(make_il(f2, l2), bc, h, e);
					else if (form == 21) new (at) C(make_il(f2, l2), bc, h, e, a);
					else if (form == 22) new (at) C(make_il(f2, l2), bc, h, a);
					else if (form == 23) new (at) C(make_il(f2, l2), bc, a);
				}
				else if (form < 24) construct_form(at, form - 6, bc, f, l, f, l);
				if (form >= 24) new (at) C();
				break;
		}
	}
}
