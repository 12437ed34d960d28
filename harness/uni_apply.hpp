// apply(): one operation on the implementation and on the model.
#pragma once
#include "uni.hpp"
#include "ctors.hpp"
#include "big.hpp"

namespace mc
{
// the operation proper: faults are injected and copies of elements counted in it
#define ARMED(stmt) do { const auto cp_ = g_copies; arm(o); stmt; disarm(); g_op_copies += g_copies - cp_; } while (false)

	inline void after_insert(int s, int k, int v, unsigned pos, bool existed, It it, bool ins, const char *what, bool assign)
	{
		MC_CHECK(ins == !existed, "%s of key %d reports %s", what, k, ins ? "an insertion although the key was present" : "no insertion although the key was absent");
		const int j = mfind(s, k);
		if (!existed) minsert(s, k, IS_MAP ? v : 0, pos, addr_of(it));
		else
		{
			if (assign) e(s)[j].v = static_cast<std::int16_t>(v);
			if constexpr (STABLE) MC_CHECK(reinterpret_cast<std::uintptr_t>(addr_of(it)) == e(s)[j].addr, "%s of key %d moved the existing element", what, k);
		}
		check_pos(s, it, k, what);
		if constexpr (IS_MAP) MC_CHECK(vid(*it) == e(s)[mfind(s, k)].v, "%s: the element of key %d maps to %d, expected %d", what, k, vid(*it), e(s)[mfind(s, k)].v);
	}
	template<typename T>
	inline void check_arg(const T &a, int id, const char *what, const char *which)
	{
		MC_CHECK(!a.moved() && a.get("read") == id, "%s changed the caller's %s argument", what, which);
	}
	inline void check_val2([[maybe_unused]] const Val2 &x, [[maybe_unused]] const Bulk &b, [[maybe_unused]] int i, [[maybe_unused]] const char *nm)
	{
#if CONT % 2
		check_arg(x.first, b.k[i], nm, "key");
		check_arg(x.second, b.v[i], nm, "value");
#endif
	}
	template<typename T>
	inline void check_taken([[maybe_unused]] const T &a, [[maybe_unused]] const char *what, [[maybe_unused]] const char *which)
	{
		if constexpr (!std::is_trivially_copyable_v<T>) MC_CHECK(a.moved(), "%s did not move from the caller's %s argument", what, which);
	}

	inline bool basic_op(std::uint8_t code)
	{
		switch (code)
		{
			case B_INS: case B_ASG: case B_INSF: case B_ILV: case B_ILT: case B_ASGT: case CASG: case MASG: case MRG_L: case MRG_R: case ERIF: case ERR: case SELFC: return true;
			default: return false;
		}
	}

	inline std::uint64_t g_table_allocs(std::uint64_t from) { return g_allocs - from; }

	template<typename CT>
	inline void do_forward(const Op &o)
	{
		using namespace fwd;
		MC_LOCALS
		const int s = o.c;
		const auto form = decode(o.d);
		auto &x = c(s);
		const int k = o.a, v = IS_MAP ? o.x : 0;
		const bool existed = mfind(s, k) >= 0;
		const unsigned n = m(s).n, hp = std::min<unsigned>(o.b, n);
		const CIt hint = hp >= n ? x.cend() : CIt{nth(s, hp)};
		char nm[120];
		constexpr const char *mn[] = {"emplace", "emplace(parts)", "emplace(insert_type)", "insert(other type)", "try_emplace", "insert_or_assign", "emplace_or_replace", "try_emplace(het)", "insert_or_assign(het)", "emplace_or_replace(het)", "operator[](het)"};
		constexpr const char *cn[] = {"const&", "&", "&&"};
		snprintf(nm, sizeof nm, "%s(%s%s,%s)", mn[form.m], form.hinted ? "hint," : "", cn[form.k], cn[form.v]);
		std::pair<It, bool> r;
		r.second = !existed;
		Key key(k);
		KeySrc src(k);
		[[maybe_unused]] Val val(v);
		std::pair<Key, Val> both(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(v));
		std::pair<KeySrc, Val> other(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(v));
		const auto copies = g_copies;
		dispatch(form.k, form.v, [&](auto kc, auto vc)
		{
			constexpr int KC = decltype(kc)::value;
			[[maybe_unused]] constexpr int VC = decltype(vc)::value;
			switch (form.m)
			{
				case EMPLACE:
					if constexpr (IS_MAP)
					{
						if (form.hinted) ARMED(r.first = x.emplace_hint(hint, as<KC>(key), as<VC>(val)));
						else ARMED(r = x.emplace(as<KC>(key), as<VC>(val)));
					}
					else if (form.hinted) ARMED(r.first = x.emplace_hint(hint, as<KC>(key)));
					else ARMED(r = x.emplace(as<KC>(key)));
					break;
				case EMPLACE_PARTS:
					if constexpr (IS_MAP)
					{
						if (form.hinted) ARMED(r.first = x.emplace_hint(hint, std::piecewise_construct, std::forward_as_tuple(as<KC>(src)), std::forward_as_tuple(as<VC>(val))));
						else ARMED(r = x.emplace(std::piecewise_construct, std::forward_as_tuple(as<KC>(src)), std::forward_as_tuple(as<VC>(val))));
					}
					else if (form.hinted) ARMED(r.first = x.emplace_hint(hint, as<KC>(src)));
					else ARMED(r = x.emplace(as<KC>(src)));
					break;
				case EMPLACE_WHOLE:
					if constexpr (IS_MAP)
					{
						if (form.hinted) ARMED(r.first = x.emplace_hint(hint, as<KC>(both)));
						else ARMED(r = x.emplace(as<KC>(both)));
					}
					else if (form.hinted) ARMED(r.first = x.emplace_hint(hint, as<KC>(key)));
					else ARMED(r = x.emplace(as<KC>(key)));
					break;
				case INSERT_OTHER:
					if constexpr (IS_MAP)
					{
						if (form.hinted) ARMED(r.first = x.insert(hint, as<KC>(other)));
						else ARMED(r = x.insert(as<KC>(other)));
					}
					else if (form.hinted) ARMED(r.first = x.insert(hint, as<KC>(src)));
					else ARMED(r = x.insert(as<KC>(src)));
					break;
#define MC_BOTH_FORMS(f, a) \
				if constexpr (IS_MAP) \
				{ \
					if (form.hinted) ARMED(r.first = x.f(hint, as<KC>(a), as<VC>(val))); \
					else ARMED(r = x.f(as<KC>(a), as<VC>(val))); \
				} \
				break
				case TRY: MC_BOTH_FORMS(try_emplace, key);
				case ASSIGN: MC_BOTH_FORMS(insert_or_assign, key);
				case REPLACE: MC_BOTH_FORMS(emplace_or_replace, key);
#if TRANS
				case TRY_HET: MC_BOTH_FORMS(try_emplace, src);
				case ASSIGN_HET: MC_BOTH_FORMS(insert_or_assign, src);
				case REPLACE_HET: MC_BOTH_FORMS(emplace_or_replace, src);
				case IDX_HET:
					if constexpr (IS_MAP)
					{
						Val *p = nullptr;
						ARMED(p = &x[as<KC>(src)]);
						r.first = x.find(src);
						MC_CHECK(r.first != It{x.end()} && p == &r.first->second, "%s does not refer to the element with its key", nm);
					}
					break;
#endif
				default: break;
			}
		});
		const bool assigns = form.m == ASSIGN || form.m == REPLACE || form.m == ASSIGN_HET || form.m == REPLACE_HET, one = form.m == EMPLACE_WHOLE || form.m == INSERT_OTHER;
		const bool rk = form.k == RVALUE, rv = one ? rk : form.v == RVALUE, first = builds_first(form.m);
		const bool kmust = rk && !existed, kmay = kmust || (rk && first), vmust = rv && (!existed || assigns), vmay = vmust || (rv && first);
		check_obj(key, k, kmay, kmust && (form.m == EMPLACE || (form.m >= TRY && form.m <= REPLACE) || (form.m == EMPLACE_WHOLE && !IS_MAP)), nm, "key");
		check_src(src, k, kmay, kmust && (form.m == EMPLACE_PARTS || form.m >= TRY_HET || (form.m == INSERT_OTHER && !IS_MAP)), nm);
		if constexpr (IS_MAP)
		{
			check_obj(val, v, vmay, vmust && !one && form.m != IDX_HET, nm, "value");
			check_obj(both.first, k, kmay, kmust && form.m == EMPLACE_WHOLE, nm, "key");
			check_obj(both.second, v, vmay, vmust && form.m == EMPLACE_WHOLE, nm, "value");
			check_src(other.first, k, kmay, kmust && form.m == INSERT_OTHER, nm);
			check_obj(other.second, v, vmay, vmust && form.m == INSERT_OTHER, nm, "value");
		}
		if constexpr (std::is_nothrow_move_constructible_v<Key>)
		{
			const bool has_key = form.m == EMPLACE || form.m == EMPLACE_WHOLE || (form.m >= TRY && form.m <= REPLACE), needs = !existed || first;
			const unsigned may = (has_key && !rk && needs) + (IS_MAP && !rv && form.m != IDX_HET && (needs || assigns));
			MC_CHECK(g_copies - copies <= may, "%s made %u copies, at most %u are called for", nm, static_cast<unsigned>(g_copies - copies), may);
		}
		after_insert(s, k, form.m == IDX_HET ? 0 : v, form.hinted ? hp : n, existed, r.first, r.second, nm, assigns);
	}
	template<typename CT>
	inline void do_apply(const Op &o)
	{
		MC_LOCALS
		const int s = o.c;
		const char *const nm = code_name[o.code];
		// operations that create or destroy containers
		switch (o.code)
		{
			case CCTOR: case CCTOR_A: // slot c := copy of slot a
			{
				const int d = o.c, q = o.a;
				if (d == q || !m(q).live) return;
				if (m(d).live) kill_slot(d);
				if (o.code == CCTOR) ARMED(new (W->h.slot[d]) C(std::as_const(c(q))));
				else ARMED(new (W->h.slot[d]) C(std::as_const(c(q)), mkalloc(o.b)));
				birth(d, o.code == CCTOR_A ? o.b : APOL > 0 && (APOL & 8) ? SOCCC_TAG : m(q).tag, m(q).htag);
				m(d).mlf = m(q).mlf;
				mcopy(d, q);
				if constexpr (STABLE)
					for (unsigned i = 0; i < m(d).n; ++i) e(d)[i].addr = 0;
				break;
			}
			case CASG:
			{
				const int d = o.c, q = o.a;
				if (!m(d).live || !m(q).live || d == q) return;
				C *r = nullptr;
				ARMED(r = &(c(d) = std::as_const(c(q))));
				MC_CHECK(r == &c(d), "copy assignment does not return the target");
				if (APOL > 0 && (APOL & 1)) m(d).tag = m(q).tag;
				m(d).htag = m(q).htag;
				m(d).mlf = m(q).mlf;
				mcopy(d, q);
				if constexpr (STABLE)
					for (unsigned i = 0; i < m(d).n; ++i) e(d)[i].addr = 0;
				break;
			}
			case MCTOR: case MCTOR_A:
			{
				const int d = o.c, q = o.a;
				if (d == q || !m(q).live) return;
				if (m(d).live) kill_slot(d);
				const unsigned tag = o.code == MCTOR_A ? eff_tag(o.b) : m(q).tag;
				if (o.code == MCTOR) ARMED(new (W->h.slot[d]) C(std::move(c(q))));
				else ARMED(new (W->h.slot[d]) C(std::move(c(q)), mkalloc(o.b)));
				birth(d, tag, m(q).htag);
				m(d).mlf = m(q).mlf;
				mcopy(d, q);
				if constexpr (STABLE)
					if (tag != m(q).tag)
						for (unsigned i = 0; i < m(d).n; ++i) e(d)[i].addr = 0;
				break;
			}
			case MASG:
			{
				const int d = o.c, q = o.a;
				if (!m(d).live || !m(q).live || d == q) return;
				C *r = nullptr;
				ARMED(r = &(c(d) = std::move(c(q))));
				MC_CHECK(r == &c(d), "move assignment does not return the target");
				const bool take = (APOL > 0 && (APOL & 2)) || m(d).tag == m(q).tag;
				const unsigned keep = m(d).tag;
				if (APOL > 0 && (APOL & 2)) m(d).tag = m(q).tag;
				m(d).htag = m(q).htag;
				m(d).mlf = m(q).mlf;
				const auto mx = std::max(m(d).maxn, m(q).maxn);
				(void) keep;
				mcopy(d, q);
				m(d).maxn = m(q).maxn = mx;
				if constexpr (STABLE)
					if (!take)
						for (unsigned i = 0; i < m(d).n; ++i) e(d)[i].addr = 0;
				break;
			}
			default: break;
		}
		switch (o.code)
		{
			case CCTOR: case CCTOR_A: case CASG:
				if constexpr (STABLE)
				{
					// the copies live at their own addresses
					const int d = o.c;
					for (auto it = c(d).begin(); it != c(d).end(); ++it)
					{
						const int j = mfind(d, kid(*it));
						MC_CHECK(j >= 0, "a copy holds key %d, the original does not", kid(*it));
						e(d)[j].addr = reinterpret_cast<std::uintptr_t>(addr_of(it));
						const int i = mfind(o.a, kid(*it));
						MC_CHECK(i >= 0 && e(o.a)[i].addr != e(d)[j].addr, "a copy shares the element of key %d with the original", kid(*it));
					}
				}
				return;
			case MCTOR: case MCTOR_A: case MASG:
			{
				// moved-from: valid, contents unspecified; take over what it holds now
				const int d = o.c, q = o.a;
				if constexpr (STABLE)
					for (auto it = c(d).begin(); it != c(d).end(); ++it)
					{
						const int j = mfind(d, kid(*it));
						if (j >= 0 && !e(d)[j].addr) e(d)[j].addr = reinterpret_cast<std::uintptr_t>(addr_of(it));
					}
				MC_CHECK(c(q).hash_function().get_tag() < 4, "moved-from container has no valid hash functor");
				if (c(q).size() != 0)
				{
					static Pre p;
					snap_pre(p, d);
					// only elements that were in either container may be found
					mclear(q);
					for (auto it = c(q).begin(); it != c(q).end(); ++it)
					{
						const int k = kid(*it);
						MC_CHECK(mfind(q, k) < 0, "moved-from container holds key %d twice", k);
						minsert(q, k, vid(*it), m(q).n, addr_of(it));
					}
				}
				else
					mclear(q);
				if constexpr (DENSE)
				{
					std::uint32_t f = 0;
					while (f < std::size(MLFS) && MLFS[f] != c(q).max_load_factor()) ++f;
					MC_CHECK(f < std::size(MLFS), "moved-from container has max_load_factor() %f", static_cast<double>(c(q).max_load_factor()));
					m(q).mlf = f;
				}
				return;
			}
			case DTOR:
				if (m(s).live) kill_slot(s);
				return;
			case DCTOR: // construct with a bucket count
				if (m(s).live) return;
				ARMED(new (W->h.slot[s]) C(o.a, mkhash(o.b), mkeq(o.b), mkalloc(job_tag(s))));
				birth(s, job_tag(s), o.b);
				m(s).maxn = o.a;
				MC_CHECK(c(s).bucket_count() >= o.a, "a container constructed with %u buckets has %zu", o.a, c(s).bucket_count());
				return;
			case B_CTOR: case B_CTORF:
			{
				if (m(s).live) return;
				const auto b = bulk_of(o);
				const unsigned bc = o.b == 1 ? 16 : 0;
				with_list(b, [&](const ValT *f, const ValT *l)
				{
					if (o.code == B_CTOR) ARMED(new (W->h.slot[s]) C(f, l, bc, mkhash(0), mkeq(0), mkalloc(job_tag(s))));
					else ARMED(new (W->h.slot[s]) C(FwdIt<const ValT *>{f}, FwdIt<const ValT *>{l}, bc, mkhash(0), mkeq(0), mkalloc(job_tag(s))));
				});
				birth(s, job_tag(s), 0);
				m(s).maxn = std::max(bc, static_cast<unsigned>(b.n));
				for (int i = 0; i < b.n; ++i)
					if (mfind(s, b.k[i]) < 0)
					{
						const auto it = c(s).find(Key(b.k[i]));
						MC_CHECK(it != It{c(s).end()}, "range construction lost key %d", b.k[i]);
						minsert(s, b.k[i], IS_MAP ? b.v[i] : 0, m(s).n, addr_of(it));
					}
				return;
			}
			case BIG:
				big_run<CT>(o);
				break;
			case FWD:
				if (m(s).live && fwd::exists(o.d, IS_MAP, TRANS)) do_forward<CT>(o);
				break;
			case HUGE:
			{
				const auto put = [](auto &h, int i)
				{
					if constexpr (IS_MAP) h.try_emplace(i, char{});
					else h.insert(i);
				};
				if (o.x == 5) caps::check_far<HugeC>(o.a, o.b, o.d, put);
				else if (o.x < 2) caps::check<HugeC>(o.a, o.b, o.x, put);
				else caps::check_too_much<HugeC>(o.a, o.b, o.x - 2, put);
				break;
			}
			case REFS:
				if constexpr (IS_MAP)
				{
					const auto key = [](int i) { return i; };
					if (o.x) refs::check_all<RefMap<int, refs::Bad>>(key, o.a, nm);
					else refs::check_all<RefMap<int, int>>(key, o.a, nm);
				}
				break;
			case CTORS: // a: mask of keys, b: order, x: form and whether buckets are asked for
			{
				if (m(s).live) return;
				const unsigned form = o.x % N_CTORS, bc = o.x >= N_CTORS ? 20 : 0;
				Op lo = o;
				lo.x = 2;
				const auto b = bulk_of(lo);
				with_list(b, [&](const ValT *f, const ValT *l)
				{
					with_list2(b, [&](const Val2 *f2, const Val2 *l2) { ARMED(construct_form(W->h.slot[s], form, bc, f, l, f2, l2)); });
				});
				const unsigned ht = ctor_hash(form) ? mkhash(CTOR_H).get_tag() : 0, et = ctor_eq(form) ? mkeq(CTOR_E).get_tag() : 0, at = ctor_alloc(form) ? mkalloc(CTOR_A).get_tag() : 0;
				auto &x = c(s);
				MC_CHECK(x.hash_function().get_tag() == ht, "construction form %u: hash functor #%u, expected #%u", form, x.hash_function().get_tag(), ht);
				MC_CHECK(x.key_eq().get_tag() == et, "construction form %u: compare functor #%u, expected #%u", form, x.key_eq().get_tag(), et);
				MC_CHECK(x.get_allocator().get_tag() == at, "construction form %u: allocator #%u, expected #%u", form, x.get_allocator().get_tag(), at);
				MC_CHECK(!ctor_buckets(form) || x.bucket_count() >= bc, "construction form %u: %zu buckets, %u were asked for", form, x.bucket_count(), bc);
				birth(s, at, ht);
				m(s).maxn = std::max(bc, static_cast<unsigned>(b.n));
				if (ctor_list(form))
					for (int i = 0; i < b.n; ++i)
						if (mfind(s, b.k[i]) < 0)
						{
							const auto it = x.find(Key(b.k[i]));
							MC_CHECK(it != It{x.end()}, "construction form %u lost key %d", form, b.k[i]);
							minsert(s, b.k[i], IS_MAP ? b.v[i] : 0, m(s).n, addr_of(it));
						}
				MC_CHECK(x.size() == m(s).n, "construction form %u: size() is %zu, expected %u", form, x.size(), m(s).n);
				if (ht != et) kill_slot(s); // the model has one tag for both functors
				return;
			}
			default: break;
		}
		if (!m(s).live) return;
		auto &x = c(s);
		const int k = o.a, v = IS_MAP ? o.x : 0;
		const bool existed = o.code < ERK && mfind(s, k) >= 0;
		const unsigned n = m(s).n;
		const unsigned hp = std::min<unsigned>(o.b, n);
		switch (o.code)
		{
			case INS_C:
			{
				const InsT a = mk(k, v);
				std::pair<It, bool> r;
				ARMED(r = x.insert(a));
				check_arg(key_of(a), k, nm, "key");
				if constexpr (IS_MAP) check_arg(a.second, v, nm, "value");
				after_insert(s, k, v, n, existed, r.first, r.second, nm, false);
				break;
			}
			case INS_M:
			{
				InsT a = mk(k, v);
				std::pair<It, bool> r;
				ARMED(r = x.insert(std::move(a)));
				if (existed)
				{
					check_arg(key_of(a), k, nm, "key");
					if constexpr (IS_MAP) check_arg(a.second, v, nm, "value");
				}
				else
				{
					check_taken(key_of(a), nm, "key");
					if constexpr (IS_MAP) check_taken(a.second, nm, "value");
				}
				after_insert(s, k, v, n, existed, r.first, r.second, nm, false);
				break;
			}
			case INS_LV:
			{
				InsT a = mk(k, v);
				std::pair<It, bool> r;
				ARMED(r = x.insert(a));
				check_arg(key_of(a), k, nm, "key");
				if constexpr (IS_MAP) check_arg(a.second, v, nm, "value");
				after_insert(s, k, v, n, existed, r.first, r.second, nm, false);
				break;
			}
			case INS_V:
			{
				// b: rvalue; sets: a type that elements can be constructed from
				std::pair<It, bool> r;
				if constexpr (IS_MAP)
				{
					ValT a = mkv(k, v);
					if (o.b) ARMED(r = x.insert(std::move(a)));
					else ARMED(r = x.insert(std::as_const(a)));
					if (!o.b)
					{
						check_arg(key_of(a), k, nm, "key");
						check_arg(a.second, v, nm, "value");
					}
					else if (!existed) check_taken(a.second, nm, "value"); // (otherwise an element may have been constructed from it)
				}
				else if (o.b) ARMED(r = x.insert(int(k)));
				else ARMED(r = x.insert(std::as_const(k)));
				after_insert(s, k, v, n, existed, r.first, r.second, nm, false);
				break;
			}
			case EMP:
			{
				std::pair<It, bool> r;
				if constexpr (IS_MAP) ARMED(r = x.emplace(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(v)));
				else ARMED(r = x.emplace(k));
				after_insert(s, k, v, n, existed, r.first, r.second, nm, false);
				break;
			}
			case HINS_C: case HINS_M: case HINS_V: case EMPH: case TRYH: case IOAH: case EORH:
			{
				const CIt hint = hp >= n ? x.cend() : CIt{nth(s, hp)};
				It it;
				bool assign = false;
				if (o.code == HINS_C)
				{
					const InsT a = mk(k, v);
					ARMED(it = x.insert(hint, a));
					check_arg(key_of(a), k, nm, "key");
				}
				else if (o.code == HINS_M)
				{
					InsT a = mk(k, v);
					ARMED(it = x.insert(hint, std::move(a)));
					if (existed) check_arg(key_of(a), k, nm, "key");
					else check_taken(key_of(a), nm, "key");
				}
				else if (o.code == HINS_V) // x: const, rvalue or lvalue
				{
					if (o.x == 3)
					{
						InsT a = mk(k, v);
						ARMED(it = x.insert(hint, a));
						check_arg(key_of(a), k, nm, "key");
					}
					else if constexpr (IS_MAP)
					{
						ValT a = mkv(k, v);
						if (o.x == 2) ARMED(it = x.insert(hint, std::move(a)));
						else ARMED(it = x.insert(hint, std::as_const(a)));
						if (o.x == 1)
						{
							check_arg(key_of(a), k, nm, "key");
							check_arg(a.second, v, nm, "value");
						}
						else if (!existed) check_taken(a.second, nm, "value");
					}
					else if (o.x == 2) ARMED(it = x.insert(hint, int(k)));
					else ARMED(it = x.insert(hint, std::as_const(k)));
				}
				else if (o.code == EMPH)
				{
					if constexpr (IS_MAP) ARMED(it = x.emplace_hint(hint, std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(v)));
					else ARMED(it = x.emplace_hint(hint, k));
				}
				else if constexpr (IS_MAP)
				{
					Key key(k);
					Val val(v);
					assign = o.code != TRYH;
					const It ih = hp >= n ? It{x.end()} : nth(s, hp);
					const bool form2 = o.c == 0 && (k + v) % 2 == 0; // rvalues
					const bool mut = (k / 2 + hp) % 2 == 0; // a non-const hint
					if (o.code == TRYH)
					{
						if (form2) ARMED(it = mut ? x.try_emplace(ih, std::move(key), std::move(val)) : x.try_emplace(hint, std::move(key), std::move(val)));
						else ARMED(it = mut ? x.try_emplace(ih, std::as_const(key), std::as_const(val)) : x.try_emplace(hint, std::as_const(key), std::as_const(val)));
						if (!form2 || existed) check_arg(val, v, nm, "value");
					}
					else if (o.code == IOAH)
					{
						if (form2) ARMED(it = mut ? x.insert_or_assign(ih, std::move(key), std::move(val)) : x.insert_or_assign(hint, std::move(key), std::move(val)));
						else ARMED(it = mut ? x.insert_or_assign(ih, std::as_const(key), std::as_const(val)) : x.insert_or_assign(hint, std::as_const(key), std::as_const(val)));
						if (!form2) check_arg(val, v, nm, "value");
					}
					else
					{
						if (form2) ARMED(it = mut ? x.emplace_or_replace(ih, std::move(key), std::move(val)) : x.emplace_or_replace(hint, std::move(key), std::move(val)));
						else ARMED(it = mut ? x.emplace_or_replace(ih, std::as_const(key), std::as_const(val)) : x.emplace_or_replace(hint, std::as_const(key), std::as_const(val)));
						if (!form2) check_arg(val, v, nm, "value");
					}
					if (!form2 || existed) check_arg(key, k, nm, "key");
					else check_taken(key, nm, "key");
					if (form2 && (!existed || assign)) check_taken(val, nm, "value");
				}
				after_insert(s, k, v, hp, existed, it, !existed, nm, assign);
				if constexpr (IS_ORD)
					if (!existed)
					{
						auto nx = CIt{it};
						++nx;
						MC_CHECK((nx == x.cend()) == (hp == n), "%s did not put the new element right before the hint", nm);
					}
				break;
			}
			case ERK:
			{
				const int j = mfind(s, k);
				std::vector<int> rest;
				if (j >= 0)
				{
					auto f = x.find(Key(k));
					rest = keys_after(s, ++f);
				}
				const Key key(k);
				It it;
				ARMED(it = x.erase(key));
				check_arg(key, k, nm, "key");
				if (j >= 0) merase(s, j);
				MC_CHECK(x.size() == m(s).n, "%s(%d): size() is %zu afterwards, expected %u", nm, k, x.size(), m(s).n);
				check_rest(s, it, rest, nm);
				break;
			}
			case ERI: case ERCI: case ERREF:
			{
				const int j = mfind(s, k);
				if (j < 0) return;
				auto f = x.find(Key(k));
				auto nx = f;
				const auto rest = keys_after(s, ++nx);
				It it;
				if (o.code == ERI) ARMED(it = x.erase(f));
				else if (o.code == ERCI) ARMED(it = x.erase(CIt{f}));
				else ARMED(it = x.erase(key_of(*f)));
				merase(s, j);
				MC_CHECK(x.size() == m(s).n, "%s(%d): size() is %zu afterwards, expected %u", nm, k, x.size(), m(s).n);
				check_rest(s, it, rest, nm);
				break;
			}
			case ERR:
			{
				const unsigned i = o.a, j = o.b;
				if (i > j || j > n) return;
				const auto all = keys_after(s, x.begin());
				const std::vector<int> dead(all.begin() + i, all.begin() + j), rest(all.begin() + j, all.end());
				const CIt f = nth(s, i), l = nth(s, j);
				It it;
				ARMED(it = x.erase(f, l));
				for (const int q: dead) merase(s, mfind(s, q));
				MC_CHECK(x.size() == m(s).n, "erase(range): size() is %zu afterwards, expected %u", x.size(), m(s).n);
				check_rest(s, it, rest, nm);
				break;
			}
			case ERIF:
			{
				std::uint8_t calls[MAXK] = {};
				std::size_t r = 0;
				ARMED(r = erase_if(x, [&](const auto &el)
				{
					const int q = kid(el);
					MC_CHECK(++calls[q] == 1, "erase_if asks about key %d twice", q);
					MC_CHECK(mfind(s, q) >= 0, "erase_if asks about key %d, which is not in the container", q);
					return (o.a >> (q & 7) & 1) != 0;
				}));
				unsigned want = 0;
				for (unsigned i = 0; i < m(s).n;)
				{
					MC_CHECK(calls[e(s)[i].k] == 1, "erase_if did not ask about key %d", e(s)[i].k);
					if (o.a >> (e(s)[i].k & 7) & 1)
					{
						merase(s, static_cast<int>(i));
						++want;
					}
					else ++i;
				}
				MC_CHECK(r == want, "erase_if returns %zu, %u elements matched", r, want);
				break;
			}
			case CLR:
				ARMED(x.clear());
				mclear(s);
				break;
			case RH:
				ARMED(x.rehash(o.a));
				m(s).maxn = std::max<std::uint32_t>(m(s).maxn, o.a);
				if (o.a) MC_CHECK(x.bucket_count() >= o.a, "rehash(%u) leaves %zu buckets", o.a, x.bucket_count());
				break;
			case RSV:
				ARMED(x.reserve(o.a));
				m(s).maxn = std::max<std::uint32_t>(m(s).maxn, o.a);
				MC_CHECK(x.capacity() >= o.a, "reserve(%u) leaves capacity() at %zu", o.a, x.capacity());
				break;
			case RSVF: // reserve(n), then fill up to n elements: no memory may be requested (but for the nodes of stable containers), nothing may move
			{
				if (o.a < n) return;
				ARMED(x.reserve(o.a));
				m(s).maxn = std::max<std::uint32_t>(m(s).maxn, o.a);
				const auto bc = x.bucket_count();
				std::vector<const void *> at;
				for (auto it = x.begin(); it != x.end(); ++it)
				{
					if constexpr (IS_MAP) at.push_back(&it->second);
					else at.push_back(&*it);
				}
				for (const int q: g_job->universe)
				{
					if (m(s).n >= o.a) break;
					if (mfind(s, q) >= 0) continue;
					InsT el = mk(q, v);
					const auto a0 = g_allocs;
					const auto r = x.insert(std::move(el));
					MC_CHECK(g_allocs - a0 == (STABLE ? 1u : 0u), "after reserve(%u), inserting element %u requested memory", o.a, m(s).n + 1);
					MC_CHECK(x.bucket_count() == bc, "after reserve(%u), inserting element %u changed bucket_count()", o.a, m(s).n + 1);
					after_insert(s, q, v, m(s).n, false, r.first, r.second, nm, false);
					if constexpr (!STABLE)
						for (const void *p: at)
						{
							bool f = false;
							for (auto it = x.begin(); it != x.end() && !f; ++it)
							{
								if constexpr (IS_MAP) f = p == &it->second;
								else f = p == &*it;
							}
							MC_CHECK(f, "after reserve(%u), inserting element %u moved an element", o.a, m(s).n);
						}
				}
				break;
			}
			case MLF:
				if constexpr (DENSE)
				{
					x.max_load_factor(MLFS[o.a]);
					m(s).mlf = o.a;
				}
				break;
			case B_ILT: case B_ASGT:
				// (maps cannot be assigned lists of other types)
				if constexpr (std::is_assignable_v<C &, std::initializer_list<Val2>>)
					if (o.code == B_ASGT)
					{
						const auto b = bulk_of(o);
						with_list2(b, [&](const Val2 *f, const Val2 *l)
						{
							const auto il = make_il(f, l);
							C *r = nullptr;
							ARMED(r = &(x = il));
							MC_CHECK(r == &x, "assignment of a list does not return the target");
							for (const Val2 *p = f; p != l; ++p) check_val2(*p, b, static_cast<int>(p - f), nm);
						});
						mclear(s);
						m(s).maxn = std::max<std::uint32_t>(m(s).maxn, n + static_cast<unsigned>(b.n));
						madd(s, b);
						break;
					}
				if (o.code == B_ILT)
				{
					const auto b = bulk_of(o);
					with_list2(b, [&](const Val2 *f, const Val2 *l)
					{
						const auto il = make_il(f, l);
						ARMED(x.insert(il));
						for (const Val2 *p = f; p != l; ++p) check_val2(*p, b, static_cast<int>(p - f), nm);
					});
					m(s).maxn = std::max<std::uint32_t>(m(s).maxn, n + static_cast<unsigned>(b.n));
					madd(s, b);
				}
				break;
			case B_INS: case B_INSF: case B_ILV: case B_ASG:
			{
				const auto b = bulk_of(o);
				with_list(b, [&](const ValT *f, const ValT *l)
				{
					if (o.code == B_INS) ARMED(x.insert(f, l));
					else if (o.code == B_INSF) ARMED(x.insert(FwdIt<const ValT *>{f}, FwdIt<const ValT *>{l}));
					else if (o.code == B_ILV)
					{
						const auto il = make_il(f, l);
						ARMED(x.insert(il));
					}
					else
					{
						const auto il = make_il(f, l); // an initializer_list over the same elements
						C *r = nullptr;
						ARMED(r = &(x = il));
						MC_CHECK(r == &x, "assignment of a list does not return the target");
					}
					for (const ValT *p = f; p != l; ++p)
					{
						check_arg(key_of(*p), b.k[p - f], nm, "key");
						if constexpr (IS_MAP) check_arg(p->second, b.v[p - f], nm, "value");
					}
				});
				if (o.code == B_ASG) mclear(s);
				m(s).maxn = std::max<std::uint32_t>(m(s).maxn, n + static_cast<unsigned>(b.n));
				madd(s, b);
				break;
			}
			case SWAP:
			{
				const int q = o.a;
				if (!m(q).live || q == s) return;
				if (!(APOL > 0 && (APOL & 4)) && m(q).tag != m(s).tag) return; // not allowed by the allocator requirements
				if (o.b) { ARMED(swap(x, c(q))); }
				else ARMED(x.swap(c(q)));
				static Pre p;
				snap_pre(p, s);
				const Model ms = m(s), mq = m(q);
				mclear(s);
				memcpy(static_cast<void *>(e(s)), e(q), mq.n * sizeof(Ent));
				mclear(q);
				memcpy(static_cast<void *>(e(q)), p.e, p.n * sizeof(Ent));
				m(s) = mq;
				m(q) = ms;
				const auto mx = std::max(ms.maxn, mq.maxn);
				m(s).maxn = m(q).maxn = mx;
				break;
			}
			case AL:
			{
				const int j = mfind(s, k), j2 = mfind(s, o.b);
				if (j < 0 || j2 < 0) return;
				const It f = x.find(Key(k));
				[[maybe_unused]] const It g = x.find(Key(o.b));
				[[maybe_unused]] const int v2 = e(s)[j2].v;
				const auto check_ins = [&](It it, bool ins, bool assign) { after_insert(s, k, v2, n, true, it, ins, nm, assign); };
				std::pair<It, bool> r{};
				[[maybe_unused]] const auto &own = *f;
				switch (o.x)
				{
					case 0:
						if constexpr (!IS_MAP || STABLE) // references of the packed maps do not convert to what they insert
						{
							ARMED(r = x.insert(own));
							check_ins(r.first, r.second, false);
						}
						break;
					case 1:
						if constexpr (!IS_MAP || STABLE)
						{
							ARMED(r.first = x.insert(CIt{g}, own));
							check_ins(r.first, false, false);
						}
						break;
					case 2: // nothing but the key may be looked at before room is made in contiguous storage
						if constexpr (DENSE) return;
						else
						{
							if constexpr (!IS_MAP || STABLE) ARMED(r = x.emplace(own));
							else ARMED(r = x.emplace(own.first, own.second));
							check_ins(r.first, r.second, false);
							break;
						}
					case 3: MC_CHECK(x.contains(key_of(*f)) && x.find(key_of(*f)) == f, "key %d is not found by a reference to itself", k); break;
					default: break;
				}
				if constexpr (IS_MAP)
					switch (o.x)
					{
						case 4: ARMED(r = x.try_emplace(std::as_const(f->first), std::as_const(g->second))); check_ins(r.first, r.second, false); break;
						case 5:
						{
							Val *p = nullptr;
							ARMED(p = &x[std::as_const(f->first)]);
							MC_CHECK(p == &x.find(Key(k))->second, "operator[] refers to another object than find()");
							break;
						}
						case 6: ARMED(r = x.insert_or_assign(std::as_const(f->first), std::as_const(g->second))); check_ins(r.first, r.second, true); break;
						case 7: ARMED(r = x.emplace_or_replace(std::as_const(f->first), std::as_const(g->second))); check_ins(r.first, r.second, true); break;
						case 8: ARMED(r.first = x.try_emplace(CIt{g}, std::as_const(f->first), std::as_const(g->second))); check_ins(r.first, false, false); break;
						case 9: ARMED(r.first = x.insert_or_assign(CIt{g}, std::as_const(f->first), std::as_const(g->second))); check_ins(r.first, false, true); break;
						default: break;
					}
				break;
			}
			case SELFC:
			{
				auto &y = x;
				ARMED(x = std::as_const(y));
				break;
			}
			case SELFM:
			{
				auto &y = x;
				ARMED(x = std::move(y));
				break;
			}
			case SELFS:
				ARMED(x.swap(x));
				break;
			default: break;
		}
		if constexpr (IS_MAP)
			switch (o.code)
			{
				case TRY_C: case TRY_M: case TRY0:
				{
					Key key(k);
					Val val(v);
					std::pair<It, bool> r;
					if (o.code == TRY_C) ARMED(r = x.try_emplace(std::as_const(key), std::as_const(val)));
					else if (o.code == TRY_M) ARMED(r = x.try_emplace(std::move(key), std::move(val)));
					else ARMED(r = x.try_emplace(std::as_const(key)));
					if (o.code != TRY_M || existed)
					{
						check_arg(key, k, nm, "key");
						check_arg(val, v, nm, "value");
					}
					else
					{
						check_taken(key, nm, "key");
						check_taken(val, nm, "value");
					}
					after_insert(s, k, o.code == TRY0 ? 0 : v, n, existed, r.first, r.second, nm, false);
					break;
				}
				case IOA_C: case IOA_M: case EOR_C: case EOR_M:
				{
					Key key(k);
					Val val(v);
					std::pair<It, bool> r;
					if (o.code == IOA_C) ARMED(r = x.insert_or_assign(std::as_const(key), std::as_const(val)));
					else if (o.code == IOA_M) ARMED(r = x.insert_or_assign(std::move(key), std::move(val)));
					else if (o.code == EOR_C) ARMED(r = x.emplace_or_replace(std::as_const(key), v));
					else ARMED(r = x.emplace_or_replace(std::move(key), std::move(val)));
					if (o.code == IOA_C || o.code == EOR_C)
					{
						check_arg(key, k, nm, "key");
						check_arg(val, v, nm, "value");
					}
					else
					{
						check_taken(val, nm, "value");
						if (existed) check_arg(key, k, nm, "key");
						else check_taken(key, nm, "key");
					}
					after_insert(s, k, v, n, existed, r.first, r.second, nm, true);
					break;
				}
				case IDX_C: case IDX_L:
				{
					Key key(k);
					Val *r = nullptr;
					if (o.code == IDX_C) ARMED(r = &x[std::as_const(key)]);
					else if (o.b == 0) ARMED(r = &x[key]);
					else ARMED(r = &x[std::move(key)]);
					if (o.b == 0 || existed) check_arg(key, k, nm, "key");
					else check_taken(key, nm, "key");
					const auto it = x.find(Key(k));
					MC_CHECK(it != x.end(), "operator[] did not insert key %d", k);
					MC_CHECK(&it->second == r, "operator[] refers to another object than find()");
					after_insert(s, k, 0, n, existed, it, !existed, nm, false);
					break;
				}
				case SETV:
				{
					const int j = mfind(s, k);
					if (j < 0) return;
					if (o.b == 0) x.at(Key(k)) = Val(v);
					else if (o.b == 1) x.find(Key(k))->second = Val(v);
					else
						for (auto &&r: x)
							if (kid(r) == k) r.second = Val(v);
					e(s)[j].v = static_cast<std::int16_t>(v);
					break;
				}
				default: break;
			}
#if CONT >= 4 && CONT < 8
		auto take = [&](int j, const void *addr)
		{
			W->h.nh_live = 1;
			W->h.nh_k = static_cast<std::uint32_t>(e(s)[j].k);
			W->h.nh_v = static_cast<std::uint32_t>(e(s)[j].v);
			W->h.nh_tag = m(s).tag;
			W->h.nh_addr = reinterpret_cast<std::uintptr_t>(addr);
			MC_CHECK(W->h.nh_addr == e(s)[j].addr, "%s moved the element to another address", nm);
			merase(s, j);
		};
		auto drop = [&]
		{
			if (W->h.nh_live) nh().~NH();
			memset(W->h.nh, 0, sizeof W->h.nh);
			W->h.nh_live = W->h.nh_k = W->h.nh_v = W->h.nh_tag = 0;
			W->h.nh_addr = 0;
		};
		switch (o.code)
		{
			case NX: case NXI: // extract; a node handle already held is destroyed first
			{
				const int j = mfind(s, k);
				const bool assign = o.code == NX && W->h.nh_live && W->h.nh_tag == m(s).tag;
				if (!assign) drop(); // otherwise the element held is destroyed by the assignment
				if (o.code == NX)
				{
					const Key key(k);
					if (assign)
					{
						if (o.b && j >= 0) { const auto f = x.find(key); ARMED(nh() = x.extract(key_of(*f))); }
						else ARMED(nh() = x.extract(key));
						W->h.nh_live = W->h.nh_k = W->h.nh_v = W->h.nh_tag = 0;
						W->h.nh_addr = 0;
					}
					else if (o.b && j >= 0) { const auto f = x.find(key); ARMED(new (W->h.nh) NH(x.extract(key_of(*f)))); }
					else ARMED(new (W->h.nh) NH(x.extract(key)));
				}
				else
				{
					if (j < 0) return;
					ARMED(new (W->h.nh) NH(x.extract(x.find(Key(k)))));
				}
				MC_CHECK(nh().empty() == (j < 0) && static_cast<bool>(nh()) == (j >= 0), "%s(%d) yields %s node handle", nm, k, j < 0 ? "a non-empty" : "an empty");
				if (j < 0)
				{
					nh().~NH();
					memset(W->h.nh, 0, sizeof W->h.nh);
				}
				else take(j, &nh().value());
				break;
			}
			case ND: drop(); break;
			case NMOVE:
			{
				if (!W->h.nh_live) return;
				NH t(std::move(nh()));
				MC_CHECK(nh().empty() && !t.empty(), "moving a node handle does not transfer the node");
				nh() = std::move(t);
				MC_CHECK(!nh().empty() && t.empty(), "move-assigning a node handle does not transfer the node");
				MC_CHECK(reinterpret_cast<std::uintptr_t>(&nh().value()) == W->h.nh_addr, "moving a node handle moved the element");
				t.swap(nh());
				MC_CHECK(nh().empty() && !t.empty(), "swapping with a node handle does not transfer the node");
				t.swap(nh());
				MC_CHECK(!nh().empty() && t.empty(), "swapping a node handle does not transfer the node");
				{
					using std::swap;
					swap(t, nh());
				}
				MC_CHECK(nh().empty() && !t.empty(), "swap() of node handles does not transfer the node");
				NH z(std::move(nh()));
				MC_CHECK(z.empty() && nh().empty(), "an empty node handle yields a node");
				z.swap(nh());
				MC_CHECK(z.empty() && nh().empty(), "swapping empty node handles yields a node");
				z = std::move(t);
				t = std::move(nh());
				MC_CHECK(!z.empty() && t.empty() && nh().empty(), "assigning an empty node handle does not leave it empty");
				nh() = std::move(z);
				{
					// a default-constructed node handle has no allocator yet
					NH d0, d1;
					d0 = std::move(nh());
					d1.swap(d0);
					MC_CHECK(nh().empty() && d0.empty() && !d1.empty(), "assignment to or swap with an empty node handle does not transfer the node");
					MC_CHECK(d1.get_allocator() == z.get_allocator(), "the allocator of the node is not passed on");
					d0.swap(z);
					z = NH();
					z.swap(d1);
					nh() = std::move(z);
				}
				{
					// through a container with other functors
					CX y(mkalloc(W->h.nh_tag));
					const auto r = y.insert(std::move(nh()));
					MC_CHECK(r.inserted && r.node.empty() && nh().empty() && y.size() == 1, "a node is not accepted by a container with other functors");
					MC_CHECK(reinterpret_cast<std::uintptr_t>(addr_of(r.position)) == W->h.nh_addr, "inserting a node into a container with other functors moved the element");
					const Key yk(static_cast<int>(W->h.nh_k));
					MC_CHECK(y.contains(yk), "a node inserted into a container with other functors is not found");
					nh() = y.extract(yk);
					MC_CHECK(!nh().empty() && y.empty(), "a node inserted into a container with other functors cannot be extracted");
				}
				auto &same = nh();
				nh().swap(same);
				nh() = std::move(same);
				MC_CHECK(!nh().empty() && reinterpret_cast<std::uintptr_t>(&nh().value()) == W->h.nh_addr, "assigning a node handle to itself loses the node");
				MC_CHECK(nh().get_allocator() == x.get_allocator() || W->h.nh_tag != m(s).tag, "the allocator of a node handle differs from that of its container");
				break;
			}
			case NMUT: // change what can be changed through the node: keys of sets, mapped values of maps
			{
				if (!W->h.nh_live) return;
#if CONT & 1
				if (o.b) nh().value().second = Val(v);
				else nh().mapped() = Val(v);
				W->h.nh_v = static_cast<std::uint32_t>(v);
				MC_CHECK(nh().mapped().get() == v && nh().key().get() == static_cast<int>(W->h.nh_k), "a node does not hold the value assigned through it");
#else
				if (o.b) nh().value() = Key(k);
				else nh().key() = Key(k);
				W->h.nh_k = static_cast<std::uint32_t>(k);
				MC_CHECK(nh().key().get() == k, "a node does not hold the key assigned through it");
#endif
				break;
			}
			case NI: case NIH: case NIOA: case NIOAH:
			{
				if (!W->h.nh_live) return;
				const int nk = static_cast<int>(W->h.nh_k), nv = static_cast<int>(W->h.nh_v);
				const int j = mfind(s, nk);
				const bool ex = j >= 0, assign = o.code == NIOA || o.code == NIOAH;
				const auto naddr = W->h.nh_addr;
				const bool same_alloc = W->h.nh_tag == m(s).tag;
				const CIt hint = hp >= n ? x.cend() : CIt{nth(s, hp)};
				It it;
				if (o.code == NI)
				{
					typename C::insert_return_type r;
					ARMED(r = x.insert(std::move(nh())));
					it = r.position;
					MC_CHECK(r.inserted == !ex, "insert(node) of key %d reports inserted=%d", nk, r.inserted);
					MC_CHECK(r.node.empty() == !ex, "insert(node) of key %d returns %s node", nk, ex ? "no" : "a");
					if (ex)
					{
						MC_CHECK(reinterpret_cast<std::uintptr_t>(&r.node.value()) == naddr, "insert(node) returned another node");
						nh().~NH();
						new (W->h.nh) NH(std::move(r.node));
					}
				}
				else if (o.code == NIH) ARMED(it = x.insert(hint, std::move(nh())));
#if CONT & 1
				else if (o.code == NIOA)
				{
					std::pair<It, bool> r;
					ARMED(r = x.insert_or_assign(std::move(nh())));
					it = r.first;
					MC_CHECK(r.second == !ex, "insert_or_assign(node) of key %d reports inserted=%d", nk, r.second);
				}
				else ARMED(it = x.insert_or_assign(hint, std::move(nh())));
#else
				else return;
#endif
				check_pos(s, it, nk, nm);
				if (!ex)
				{
					MC_CHECK(nh().empty(), "%s of an absent key leaves the node in the handle", nm);
					minsert(s, nk, nv, (o.code == NIH || o.code == NIOAH) ? hp : n, addr_of(it));
					if (same_alloc) MC_CHECK(reinterpret_cast<std::uintptr_t>(addr_of(it)) == naddr, "%s moved the element to another address", nm);
					drop();
				}
				else if (assign)
				{
					e(s)[j].v = static_cast<std::int16_t>(nv);
					e(s)[j].addr = reinterpret_cast<std::uintptr_t>(addr_of(it));
					if (nh().empty()) drop();
					else if (nh().mapped().moved() || nh().key().moved()) drop();
				}
				else
				{
					MC_CHECK(!nh().empty() && nh().key().get() == nk, "a failed %s lost the node", nm);
				}
				break;
			}
			case MRG_L: case MRG_R: case MRG_X:
			{
				const int q = o.a;
				if (!m(q).live || q == s || m(q).tag != m(s).tag) return;
				if (o.code == MRG_L) ARMED(x.merge(c(q)));
				else if (o.code == MRG_R) ARMED(x.merge(std::move(c(q))));
				else
				{
					// by way of a container with other functors, and the rest back
					CX y(mkalloc(m(q).tag));
					y.merge(c(q));
					MC_CHECK(c(q).empty() && y.size() == m(q).n, "merging into an empty container with other functors leaves %zu elements behind, %zu arrive", c(q).size(), y.size());
					if (o.b) x.merge(std::move(y));
					else x.merge(y);
					c(q).merge(y);
					MC_CHECK(y.empty(), "merging into an emptied container leaves %zu elements behind", y.size());
				}
				m(s).maxn = std::max(m(s).maxn, m(s).n + m(q).n);
				m(q).maxn = std::max(m(s).maxn, m(q).maxn);
				m(s).maxn = m(q).maxn;
				if (o.code == MRG_R && n == 0 && m(q).n == 0) { /* an empty target may take over everything of an rvalue source */ }
				for (unsigned i = 0; i < m(q).n;)
				{
					if (mfind(s, e(q)[i].k) < 0)
					{
						minsert(s, e(q)[i].k, e(q)[i].v, m(s).n, reinterpret_cast<const void *>(e(q)[i].addr));
						merase(q, static_cast<int>(i));
					}
					else ++i;
				}
				break;
			}
			case SELFMRG:
				ARMED(x.merge(x));
				break;
			default: break;
		}
#endif
#if TRANS
		if (o.code >= T_ERK)
		{
			const TK tk{k};
			const int j = mfind(s, k);
			const bool ex = j >= 0;
			switch (o.code)
			{
				case T_ERK:
				{
					std::vector<int> rest;
					if (ex)
					{
						auto f = x.find(tk);
						rest = keys_after(s, ++f);
					}
					It it;
					ARMED(it = x.erase(tk));
					if (ex) merase(s, j);
					MC_CHECK(x.size() == m(s).n, "%s(%d): size() is %zu afterwards, expected %u", nm, k, x.size(), m(s).n);
					check_rest(s, it, rest, nm);
					break;
				}
#if CONT >= 4 && CONT < 8
				case T_NX:
				{
					drop();
					ARMED(new (W->h.nh) NH(x.extract(tk)));
					MC_CHECK(nh().empty() == !ex, "extract(het %d) yields %s node handle", k, ex ? "an empty" : "a non-empty");
					if (!ex)
					{
						nh().~NH();
						memset(W->h.nh, 0, sizeof W->h.nh);
					}
					else take(j, &nh().value());
					break;
				}
#endif
				default: break;
			}
			if constexpr (IS_MAP)
			{
				TK tk2{k};
				Val val(v);
				std::pair<It, bool> r;
				const CIt hint = hp >= n ? x.cend() : CIt{nth(s, hp)};
				const It ih = hp >= n ? It{x.end()} : nth(s, hp);
				const bool hinted = o.b != 0, mut = (k + hp) % 2 == 0;
				switch (o.code)
				{
					case T_TRY: case T_IOA: case T_EOR:
						if (!hinted)
						{
							if (o.code == T_TRY) ARMED(r = v % 2 ? x.try_emplace(tk, std::as_const(val)) : x.try_emplace(std::move(tk2), std::as_const(val)));
							else if (o.code == T_IOA) ARMED(r = v % 2 ? x.insert_or_assign(tk, std::as_const(val)) : x.insert_or_assign(std::move(tk2), std::as_const(val)));
							else ARMED(r = v % 2 ? x.emplace_or_replace(tk, std::as_const(val)) : x.emplace_or_replace(std::move(tk2), std::as_const(val)));
						}
						else
						{
							if (o.code == T_TRY) ARMED(r.first = v % 2 ? (mut ? x.try_emplace(ih, tk, std::as_const(val)) : x.try_emplace(hint, tk, std::as_const(val))) : (mut ? x.try_emplace(ih, std::move(tk2), std::as_const(val)) : x.try_emplace(hint, std::move(tk2), std::as_const(val))));
							else if (o.code == T_IOA) ARMED(r.first = v % 2 ? (mut ? x.insert_or_assign(ih, tk, std::as_const(val)) : x.insert_or_assign(hint, tk, std::as_const(val))) : (mut ? x.insert_or_assign(ih, std::move(tk2), std::as_const(val)) : x.insert_or_assign(hint, std::move(tk2), std::as_const(val))));
							else ARMED(r.first = v % 2 ? (mut ? x.emplace_or_replace(ih, tk, std::as_const(val)) : x.emplace_or_replace(hint, tk, std::as_const(val))) : (mut ? x.emplace_or_replace(ih, std::move(tk2), std::as_const(val)) : x.emplace_or_replace(hint, std::move(tk2), std::as_const(val))));
							r.second = !ex;
						}
						check_arg(val, v, nm, "value");
						after_insert(s, k, v, hinted ? hp : n, ex, r.first, r.second, nm, o.code != T_TRY);
						break;
					case T_IDX:
					{
						Val *p = nullptr;
						if (o.b) ARMED(p = &x[std::move(tk2)]);
						else ARMED(p = &x[tk]);
						const auto it = x.find(tk);
						MC_CHECK(it != x.end() && &it->second == p, "operator[](het %d) refers to another object than find()", k);
						after_insert(s, k, 0, n, ex, it, !ex, nm, false);
						break;
					}
					default: break;
				}
			}
		}
#endif
		track(s);
	}
}
