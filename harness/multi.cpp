// The header of the container under test comes first: it has to work whatever else is included.
#ifndef CONT
#define CONT 21
#endif
#if CONT & 1
#include <tpp/dense_multimap.hpp>
#else
#include <tpp/dense_multiset.hpp>
#endif
#include "multi.hpp"
#include "ctors.hpp"
#include "multi_big.hpp"
namespace mc
{
	inline bool other_rvalue(const Op &o) { return (okeys(o).k[0] + (o.x >> 2)) % 2 != 0; } // INS_V, HINS_V
	static void after_insert(int s, const Keys &k, int v, bool existed, It it, bool ins, const char *what)
	{
		MC_CHECK(ins == !existed, "%s of keys %s reports %s", what, KS(k), ins ? "an insertion although one of the keys was present" : "no insertion although no key was present");
		MC_CHECK(it != c(s).end(), "%s of keys %s returned end()", what, KS(k));
		const Keys got = kid(*it);
		if (!existed)
		{
			minsert(s, k, v);
			MC_CHECK(got == k, "%s of keys %s returned an iterator to %s", what, KS(k), KS(got));
		}
		else
		{
			bool shares = false;
			for (unsigned i = 0; i < NK; ++i) shares = shares || got.k[i] == k.k[i];
			MC_CHECK(shares, "%s of keys %s returned an iterator to %s, which shares no key with it", what, KS(k), KS(got));
		}
		const int j = mfull(s, got);
		MC_CHECK(j >= 0, "%s of keys %s returned an iterator to %s, which is not in the container", what, KS(k), KS(got));
		if (IS_MAP) MC_CHECK(vid(*it) == e(s)[j].v, "%s: the element of keys %s maps to %d, expected %d", what, KS(got), vid(*it), e(s)[j].v);
		MC_CHECK(it == find0(s, got.k[0]), "%s of keys %s returned an iterator that differs from find()", what, KS(k));
	}

	static void do_forward(const Op &o)
	{
		using namespace fwd;
		const int s = o.c;
		const auto form = decode(o.pad);
		auto &x = c(s);
		const Keys k = okeys(o);
		const int v = IS_MAP ? o.x & 3 : 0;
		const bool existed = conflict(s, k);
		const CIt hint = nth(s, o.x >> 2);
		[[maybe_unused]] const It ihint = nth(s, o.x >> 2);
		char nm[120];
		constexpr const char *mn[] = {"emplace", "emplace(parts)", "emplace(insert_type)", "insert(other type)", "try_emplace", "", "", "try_emplace(het)"};
		constexpr const char *cn[] = {"const&", "&", "&&"};
		snprintf(nm, sizeof nm, "%s(%s%s,%s)", mn[form.m], form.hinted ? "hint," : "", cn[form.k], cn[form.v]);
		std::pair<It, bool> r;
		r.second = !existed;
		const auto run = [&]<std::size_t... I>(std::index_sequence<I...>)
		{
			Tup key = mktup(k);
			InsT whole = mk(k, v);
			std::tuple<std::enable_if_t<(I < NK), KeySrc>...> src(KeySrc(k.k[I])...);
			[[maybe_unused]] Val val(v);
#if CONT & 1
			std::pair<decltype(src), Val> other(std::piecewise_construct, std::forward_as_tuple(KeySrc(k.k[I])...), std::forward_as_tuple(v));
#endif
			const auto copies = g_copies;
			dispatch(form.k, form.v, [&](auto kc, auto vc)
			{
				constexpr int KC = decltype(kc)::value;
				[[maybe_unused]] constexpr int VC = decltype(vc)::value;
				switch (form.m)
				{
#if CONT & 1
					case EMPLACE:
						if (form.hinted) ARMED(r.first = x.emplace_hint(hint, as<KC>(key), as<VC>(val)));
						else ARMED(r = x.emplace(as<KC>(key), as<VC>(val)));
						break;
					case EMPLACE_PARTS:
						if (form.hinted) ARMED(r.first = x.emplace_hint(hint, std::piecewise_construct, std::forward_as_tuple(as<KC>(std::get<I>(src))...), std::forward_as_tuple(as<VC>(val))));
						else ARMED(r = x.emplace(std::piecewise_construct, std::forward_as_tuple(as<KC>(std::get<I>(src))...), std::forward_as_tuple(as<VC>(val))));
						break;
					case INSERT_OTHER:
						if (form.hinted) ARMED(r.first = x.insert(hint, as<KC>(other)));
						else ARMED(r = x.insert(as<KC>(other)));
						break;
					case TRY:
						if (!form.hinted) ARMED(r = x.try_emplace(as<KC>(key), as<VC>(val)));
						else if (k.k[0] % 2) ARMED(r.first = x.try_emplace(ihint, as<KC>(key), as<VC>(val)));
						else ARMED(r.first = x.try_emplace(hint, as<KC>(key), as<VC>(val)));
						break;
#if TRANS
					case TRY_HET:
						if (!form.hinted) ARMED(r = x.try_emplace(as<KC>(src), as<VC>(val)));
						else if (k.k[0] % 2) ARMED(r.first = x.try_emplace(ihint, as<KC>(src), as<VC>(val)));
						else ARMED(r.first = x.try_emplace(hint, as<KC>(src), as<VC>(val)));
						break;
#endif
#else
					case EMPLACE:
						if (form.hinted) ARMED(r.first = x.emplace_hint(hint, as<KC>(std::get<I>(key))...));
						else ARMED(r = x.emplace(as<KC>(std::get<I>(key))...));
						break;
					case EMPLACE_PARTS:
						if (form.hinted) ARMED(r.first = x.emplace_hint(hint, as<KC>(std::get<I>(src))...));
						else ARMED(r = x.emplace(as<KC>(std::get<I>(src))...));
						break;
					case INSERT_OTHER:
						if (form.hinted) ARMED(r.first = x.insert(hint, as<KC>(src)));
						else ARMED(r = x.insert(as<KC>(src)));
						break;
#endif
					case EMPLACE_WHOLE:
						if (form.hinted) ARMED(r.first = x.emplace_hint(hint, as<KC>(whole)));
						else ARMED(r = x.emplace(as<KC>(whole)));
						break;
					default: break;
				}
			});
			const bool one = form.m == EMPLACE_WHOLE || form.m == INSERT_OTHER, rk = form.k == RVALUE, rv = one ? rk : form.v == RVALUE, first = builds_first(form.m);
			const bool kmust = rk && !existed, kmay = kmust || (rk && first), vmust = rv && !existed, vmay = vmust || (rv && first);
			const bool mkey = kmust && (form.m == EMPLACE || form.m == TRY), mwhole = kmust && form.m == EMPLACE_WHOLE, msrc = kmust && (form.m == EMPLACE_PARTS || (form.m == INSERT_OTHER && !IS_MAP));
			(check_obj(std::get<I>(key), k.k[I], kmay, mkey, nm, "key"), ...);
			(check_obj(std::get<I>(tup_of(whole)), k.k[I], kmay, mwhole, nm, "key"), ...);
			(check_src(std::get<I>(src), k.k[I], kmay && form.m != TRY_HET, msrc, nm), ...);
#if CONT & 1
			check_obj(val, v, vmay, vmust && !one, nm, "value");
			check_obj(whole.second, v, vmay, vmust && form.m == EMPLACE_WHOLE, nm, "value");
			(check_src(std::get<I>(other.first), k.k[I], kmay, kmust && form.m == INSERT_OTHER, nm), ...);
			check_obj(other.second, v, vmay, vmust && form.m == INSERT_OTHER, nm, "value");
#endif
			if constexpr (std::is_nothrow_move_constructible_v<Key>)
			{
				const bool has_key = form.m == EMPLACE || form.m == EMPLACE_WHOLE || form.m == TRY, needs = !existed || first;
				const unsigned may = (has_key && !rk && (needs || form.m == TRY) ? NK : 0) /* try_emplace takes its tuple of keys by value */ + (IS_MAP && !rv && needs);
				MC_CHECK(g_copies - copies <= may, "%s made %u copies, at most %u are called for", nm, static_cast<unsigned>(g_copies - copies), may);
			}
			after_insert(s, k, v, existed, r.first, r.second, nm);
		};
		run(std::make_index_sequence<NK>{});
		track(s);
	}

	static void do_apply(const Op &o)
	{
		const int s = o.c;
		const char *const nm = code_name[o.code];
		switch (o.code)
		{
			case CCTOR: case CCTOR_A:
			{
				const int d = o.c, q = o.a;
				if (d == q || !m(q).live) return;
				if (m(d).live) kill_slot(d);
				if (o.code == CCTOR) ARMED(new (W->h.slot[d]) C(std::as_const(c(q))));
				else ARMED(new (W->h.slot[d]) C(std::as_const(c(q)), mkalloc(o.b)));
				birth(d, o.code == CCTOR_A ? o.b : APOL > 0 && (APOL & 8) ? SOCCC_TAG : m(q).tag, m(q).htag);
				m(d).mlf = m(q).mlf;
				mcopy(d, q);
				return;
			}
			case CASG:
			{
				const int d = o.c, q = o.a;
				if (!m(d).live || !m(q).live || d == q) return;
				C *r = nullptr;
				ARMED(r = &(c(d) = std::as_const(c(q))));
				MC_CHECK(r == &c(d), "copy assignment does not return the target");
				if (APOL > 0 && (APOL & 1)) m(d).tag = m(q).tag;
				m(d).htag = m(q).htag;
				m(d).mlf = m(q).mlf;
				mcopy(d, q);
				return;
			}
			case MCTOR: case MCTOR_A: case MASG:
			{
				const int d = o.c, q = o.a;
				if (d == q || !m(q).live) return;
				if (o.code == MASG)
				{
					if (!m(d).live) return;
					C *r = nullptr;
					ARMED(r = &(c(d) = std::move(c(q))));
					MC_CHECK(r == &c(d), "move assignment does not return the target");
					if (APOL > 0 && (APOL & 2)) m(d).tag = m(q).tag;
					m(d).htag = m(q).htag;
					m(d).mlf = m(q).mlf;
					const auto mx = std::max(m(d).maxn, m(q).maxn);
					mcopy(d, q);
					m(d).maxn = m(q).maxn = mx;
				}
				else
				{
					if (m(d).live) kill_slot(d);
					if (o.code == MCTOR) ARMED(new (W->h.slot[d]) C(std::move(c(q))));
					else ARMED(new (W->h.slot[d]) C(std::move(c(q)), mkalloc(o.b)));
					birth(d, o.code == MCTOR_A ? eff_tag(o.b) : m(q).tag, m(q).htag);
					m(d).mlf = m(q).mlf;
					mcopy(d, q);
				}
				// moved-from: valid, contents unspecified; take over what it holds now
				mclear(q);
				for (auto it = c(q).begin(); it != c(q).end(); ++it)
				{
					const Keys k = kid(*it);
					MC_CHECK(!conflict(q, k), "moved-from container holds a key of %s twice", KS(k));
					minsert(q, k, vid(*it));
				}
				std::uint32_t f = 0;
				while (f < std::size(MLFS) && MLFS[f] != c(q).max_load_factor()) ++f;
				MC_CHECK(f < std::size(MLFS), "moved-from container has max_load_factor() %f", static_cast<double>(c(q).max_load_factor()));
				m(q).mlf = f;
				return;
			}
			case DTOR:
				if (m(s).live) kill_slot(s);
				return;
			case DCTOR:
				if (m(s).live) return;
				ARMED(new (W->h.slot[s]) C(o.a, mkhash(o.b), mkeq(o.b), mkalloc(job_tag(s))));
				birth(s, job_tag(s), o.b);
				m(s).maxn = o.a;
				MC_CHECK(c(s).bucket_count() >= o.a, "a container constructed with %u buckets has %zu", o.a, c(s).bucket_count());
				return;
			case B_CTOR: case B_CTORF:
			{
				if (m(s).live) return;
				const auto b = bulk_of(o);
				const unsigned bc = o.b == 1 ? 16 : 0;
				with_list(b, [&](const ValT *f, const ValT *l)
				{
					if (o.code == B_CTOR) ARMED(new (W->h.slot[s]) C(f, l, bc, mkhash(0), mkeq(0), mkalloc(job_tag(s))));
					else ARMED(new (W->h.slot[s]) C(FwdIt<const ValT *>{f}, FwdIt<const ValT *>{l}, bc, mkhash(0), mkeq(0), mkalloc(job_tag(s))));
				});
				birth(s, job_tag(s), 0);
				m(s).maxn = std::max(bc, static_cast<unsigned>(b.n));
				madd(s, b);
				return;
			}
			case BIG:
				big_run(o);
				break;
			case FWD:
				if (m(s).live && fwd::exists(o.pad, IS_MAP, TRANS)) do_forward(o);
				return;
			case REFS:
				if constexpr (IS_MAP)
				{
					const auto key = [](int i) { return std::tuple<int, int>(i, i); };
					if (o.x) refs::check_all<tpp::dense_multimap<tpp::multikey<int, int>, refs::Bad>>(key, o.a, nm);
					else refs::check_all<tpp::dense_multimap<tpp::multikey<int, int>, int>>(key, o.a, nm);
				}
				break;
			case CTORS: // a, b: the elements, x: form and whether buckets are asked for
			{
				if (m(s).live) return;
				const unsigned form = o.x % N_CTORS, bc = o.x >= N_CTORS ? 20 : 0;
				Op lo = o;
				lo.x = 2;
				const auto b = bulk_of(lo);
				with_list(b, [&](const ValT *f, const ValT *l)
				{
					with_list2(b, [&](const Val2 *f2, const Val2 *l2) { ARMED(construct_form(W->h.slot[s], form, bc, f, l, f2, l2)); });
				});
				const unsigned ht = ctor_hash(form) ? tag_of(mkhash(CTOR_H)) : 0, et = ctor_eq(form) ? tag_of(mkeq(CTOR_E)) : 0, at = ctor_alloc(form) ? mkalloc(CTOR_A).get_tag() : 0;
				auto &x = c(s);
				MC_CHECK(tag_of(x.hash_function()) == ht, "construction form %u: hash functor #%u, expected #%u", form, tag_of(x.hash_function()), ht);
				MC_CHECK(tag_of(x.key_eq()) == et, "construction form %u: compare functor #%u, expected #%u", form, tag_of(x.key_eq()), et);
				MC_CHECK(x.get_allocator().get_tag() == at, "construction form %u: allocator #%u, expected #%u", form, x.get_allocator().get_tag(), at);
				MC_CHECK(!ctor_buckets(form) || x.bucket_count() >= bc, "construction form %u: %zu buckets, %u were asked for", form, x.bucket_count(), bc);
				birth(s, at, ht);
				m(s).maxn = std::max(bc, static_cast<unsigned>(b.n));
				if (ctor_list(form)) madd(s, b);
				MC_CHECK(x.size() == m(s).n, "construction form %u: size() is %zu, expected %u", form, x.size(), m(s).n);
				if (ht != et) kill_slot(s); // the model has one tag for both functors
				return;
			}
			default: break;
		}
		if (!m(s).live) return;
		auto &x = c(s);
		const unsigned n = m(s).n;
		if (o.code <= LAST_INS)
		{
			const Keys k = okeys(o);
			const int v = IS_MAP ? o.x & 3 : 0;
			const bool existed = conflict(s, k);
			const unsigned hp = o.x >> 2;
			const CIt hint = nth(s, hp);
			std::pair<It, bool> r;
			r.second = !existed; // hinted forms only return the position
			switch (o.code)
			{
				case INS_C: case HINS_C:
				{
					const InsT a = mk(k, v);
					if (o.code == INS_C) ARMED(r = x.insert(a));
					else ARMED(r.first = x.insert(hint, a));
					check_argel(a, k, v, nm);
					break;
				}
				case INS_M: case HINS_M:
				{
					InsT a = mk(k, v);
					if (o.code == INS_M) ARMED(r = x.insert(std::move(a)));
					else ARMED(r.first = x.insert(hint, std::move(a)));
					if (existed)
					{
						check_argel(a, k, v, nm);
					}
					else
					{
						check_takenel(a, nm);
					}
					break;
				}
				case INS_LV:
				{
					InsT a = mk(k, v);
					ARMED(r = x.insert(a));
					check_argel(a, k, v, nm);
					break;
				}
				case INS_V: case HINS_V:
				{
					const bool rv = other_rvalue(o);
#if CONT & 1
					ValT a = mkv(k, v);
					if (o.code == INS_V) ARMED(r = rv ? x.insert(std::move(a)) : x.insert(std::as_const(a)));
					else ARMED(r.first = rv ? x.insert(hint, std::move(a)) : x.insert(hint, std::as_const(a)));
					if (!rv) check_argel(a, k, v, nm);
#else
					const auto a = mkints(k);
					if (o.code == INS_V) ARMED(r = rv ? x.insert(mkints(k)) : x.insert(a));
					else ARMED(r.first = rv ? x.insert(hint, mkints(k)) : x.insert(hint, a));
#endif
					break;
				}
				case EMP: case EMPH:
				{
					const auto go = [&]<std::size_t... I>(std::index_sequence<I...>)
					{
#if CONT & 1
						if (o.code == EMP) ARMED(r = x.emplace(std::piecewise_construct, std::forward_as_tuple(k.k[I]...), std::forward_as_tuple(v)));
						else ARMED(r.first = x.emplace_hint(hint, std::piecewise_construct, std::forward_as_tuple(k.k[I]...), std::forward_as_tuple(v)));
#else
						if (o.code == EMP) ARMED(r = x.emplace(k.k[I]...));
						else ARMED(r.first = x.emplace_hint(hint, k.k[I]...));
#endif
					};
					go(std::make_index_sequence<NK>{});
					break;
				}
#if CONT & 1
				case TRY_C: case TRY_M: case TRYH: case TRYHM: case TRY0:
				{
					Tup key = mktup(k);
					Val val(v);
					const It ih = nth(s, hp);
					const bool mut = (hp + static_cast<unsigned>(k.k[0])) % 2 == 0; // a non-const hint
					if (o.code == TRY_C) ARMED(r = x.try_emplace(std::as_const(key), std::as_const(val)));
					else if (o.code == TRY_M) ARMED(r = x.try_emplace(std::move(key), std::move(val)));
					else if (o.code == TRYH) ARMED(r.first = mut ? x.try_emplace(ih, std::as_const(key), std::as_const(val)) : x.try_emplace(hint, std::as_const(key), std::as_const(val)));
					else if (o.code == TRYHM) ARMED(r.first = mut ? x.try_emplace(ih, std::move(key), std::move(val)) : x.try_emplace(hint, std::move(key), std::move(val)));
					else ARMED(r = x.try_emplace(std::as_const(key)));
					if ((o.code != TRY_M && o.code != TRYHM) || existed)
					{
						check_args(key, k, nm);
						check_argv(val, v, nm);
					}
					else
					{
						check_taken(key, nm);
						check_takenv(val, nm);
					}
					break;
				}
#if TRANS
				case T_TRY: case T_TRYH:
				{
					Val val(v);
					const auto go = [&]<std::size_t... I>(std::index_sequence<I...>)
					{
						const auto tup = std::make_tuple((static_cast<void>(I), TK{k.k[I]})...);
						if (o.code == T_TRY) ARMED(r = x.try_emplace(tup, std::as_const(val)));
						else if ((hp + static_cast<unsigned>(k.k[0])) % 2 == 0) ARMED(r.first = x.try_emplace(nth(s, hp), tup, std::as_const(val))); // a non-const hint
						else ARMED(r.first = x.try_emplace(hint, tup, std::as_const(val)));
					};
					go(std::make_index_sequence<NK>{});
					check_argv(val, v, nm);
					break;
				}
#endif
#endif
				default: return;
			}
			after_insert(s, k, o.code == TRY0 ? 0 : v, existed, r.first, r.second, nm);
			track(s);
			return;
		}
		const int k = o.a;
		switch (o.code)
		{
#if CONT & 1
			case SETV:
			{
				const int j = mfind(s, o.x, k);
				if (j < 0) return;
				at_pos(o.x, [&](auto I)
				{
					const KeyAt<I> key(k);
					if (o.b & 1) x.template at<I>(key) = Val(o.b);
					else x.template find<I>(key)->second = Val(o.b);
				});
				e(s)[j].v = o.b;
				break;
			}
#endif
			case ERK: case T_ERK: case ERREF:
			{
				const int j = mfind(s, o.x, k);
				std::vector<Keys> rest;
				It it;
				at_pos(o.x, [&](auto I)
				{
					const KeyAt<I> key(k);
					auto f = x.template find<I>(key);
					if (j >= 0)
					{
						auto g = f;
						rest = keys_after(s, ++g);
					}
					if (o.code == ERK) ARMED(it = x.template erase<I>(key));
					else if (o.code == ERREF)
					{
						if (j < 0) return;
						auto &&ref = *f;
						ARMED(it = x.template erase<I>(std::get<I>(tup_of(ref))));
					}
#if TRANS
					else ARMED(it = x.template erase<I>(TK{k}));
#endif
				});
				if (j < 0 && o.code == ERREF) return;
				if (j >= 0) merase(s, j);
				MC_CHECK(x.size() == m(s).n, "%s(%d): size() is %zu afterwards, expected %u", nm, k, x.size(), m(s).n);
				check_rest(s, it, rest, nm);
				break;
			}
			case ERI: case ERCI:
			{
				const int j = mfind(s, 0, k);
				if (j < 0) return;
				auto f = find0(s, k);
				auto nx = f;
				const auto rest = keys_after(s, ++nx);
				It it;
				if (o.code == ERI) ARMED(it = x.erase(f));
				else ARMED(it = x.erase(CIt{f}));
				merase(s, j);
				MC_CHECK(x.size() == m(s).n, "%s(%d): size() is %zu afterwards, expected %u", nm, k, x.size(), m(s).n);
				check_rest(s, it, rest, nm);
				break;
			}
			case ERR:
			{
				const unsigned i = o.a, j = o.b;
				if (i > j || j > n) return;
				const auto all = keys_after(s, x.begin());
				const std::vector<Keys> dead(all.begin() + i, all.begin() + j), rest(all.begin() + j, all.end());
				It it;
				const CIt f = nth(s, i), l = nth(s, j);
				ARMED(it = x.erase(f, l));
				for (const auto &q: dead) merase(s, mfull(s, q));
				MC_CHECK(x.size() == m(s).n, "erase(range): size() is %zu afterwards, expected %u", x.size(), m(s).n);
				check_rest(s, it, rest, nm);
				break;
			}
			case ERIF:
			{
				std::uint8_t calls[MAXK] = {};
				std::size_t r = 0;
				ARMED(r = erase_if(x, [&](const auto &el)
				{
					const Keys q = kid(el);
					MC_CHECK(++calls[q.k[0]] == 1, "erase_if asks about %s twice", KS(q));
					MC_CHECK(mfull(s, q) >= 0, "erase_if asks about %s, which is not in the container", KS(q));
					return (o.a >> (q.k[0] & 7) & 1) != 0;
				}));
				unsigned want = 0;
				for (unsigned i = 0; i < m(s).n;)
				{
					MC_CHECK(calls[e(s)[i].k] == 1, "erase_if did not ask about the element of first key %d", e(s)[i].k);
					if (o.a >> (e(s)[i].k & 7) & 1)
					{
						merase(s, static_cast<int>(i));
						++want;
					}
					else ++i;
				}
				MC_CHECK(r == want, "erase_if returns %zu, %u elements matched", r, want);
				break;
			}
			case CLR:
				ARMED(x.clear());
				mclear(s);
				break;
			case RH:
				ARMED(x.rehash(o.a));
				m(s).maxn = std::max<std::uint32_t>(m(s).maxn, o.a);
				if (o.a) MC_CHECK(x.bucket_count() >= o.a, "rehash(%u) leaves %zu buckets", o.a, x.bucket_count());
				break;
			case RSV:
				ARMED(x.reserve(o.a));
				m(s).maxn = std::max<std::uint32_t>(m(s).maxn, o.a);
				MC_CHECK(x.capacity() >= o.a, "reserve(%u) leaves capacity() at %zu", o.a, x.capacity());
				break;
			case RSVF:
			{
				if (o.a < n) return;
				ARMED(x.reserve(o.a));
				m(s).maxn = std::max<std::uint32_t>(m(s).maxn, o.a);
				const auto bc = x.bucket_count();
				std::vector<std::uintptr_t> at;
				for (auto it = x.begin(); it != x.end(); ++it) at.push_back(addr_of(it));
				for (const int q: g_job->universe)
				{
					if (m(s).n >= o.a) break;
					const Keys key{{q, q, q}};
					if (conflict(s, key)) continue;
					InsT el = mk(key, 1);
					const auto a0 = g_allocs;
					const auto r = x.insert(std::move(el));
					MC_CHECK(g_allocs == a0, "after reserve(%u), inserting element %u requested memory", o.a, m(s).n + 1);
					MC_CHECK(x.bucket_count() == bc, "after reserve(%u), inserting element %u changed bucket_count()", o.a, m(s).n + 1);
					after_insert(s, key, 1, false, r.first, r.second, nm);
					std::size_t i = 0;
					for (auto it = x.begin(); i < at.size(); ++it, ++i) MC_CHECK(at[i] == addr_of(it), "after reserve(%u), inserting element %u moved an element", o.a, m(s).n);
				}
				break;
			}
			case MLF:
				x.max_load_factor(MLFS[o.a]);
				m(s).mlf = o.a;
				break;
			case B_ILT: case B_ASGT:
				// (maps cannot be assigned lists of other types)
				if constexpr (std::is_assignable_v<C &, std::initializer_list<Val2>>)
					if (o.code == B_ASGT)
					{
						const auto b = bulk_of(o);
						with_list2(b, [&](const Val2 *f, const Val2 *l)
						{
							const auto il = make_il(f, l);
							C *r = nullptr;
							ARMED(r = &(x = il));
							MC_CHECK(r == &x, "assignment of a list does not return the target");
							for (const Val2 *p = f; p != l; ++p) check_val2(*p, b, static_cast<int>(p - f), nm);
						});
						mclear(s);
						m(s).maxn = std::max<std::uint32_t>(m(s).maxn, n + static_cast<unsigned>(b.n));
						madd(s, b);
						break;
					}
				if (o.code == B_ILT)
				{
					const auto b = bulk_of(o);
					with_list2(b, [&](const Val2 *f, const Val2 *l)
					{
						const auto il = make_il(f, l);
						ARMED(x.insert(il));
						for (const Val2 *p = f; p != l; ++p) check_val2(*p, b, static_cast<int>(p - f), nm);
					});
					m(s).maxn = std::max<std::uint32_t>(m(s).maxn, n + static_cast<unsigned>(b.n));
					madd(s, b);
				}
				break;
			case B_INS: case B_INSF: case B_ILV: case B_ASG:
			{
				const auto b = bulk_of(o);
				with_list(b, [&](const ValT *f, const ValT *l)
				{
					if (o.code == B_INS) ARMED(x.insert(f, l));
					else if (o.code == B_INSF) ARMED(x.insert(FwdIt<const ValT *>{f}, FwdIt<const ValT *>{l}));
					else if (o.code == B_ILV)
					{
						const auto il = make_il(f, l);
						ARMED(x.insert(il));
					}
					else
					{
						const auto il = make_il(f, l);
						C *r = nullptr;
						ARMED(r = &(x = il));
						MC_CHECK(r == &x, "assignment of a list does not return the target");
					}
					for (const ValT *p = f; p != l; ++p)
					{
						check_argel(*p, b.k[p - f], b.v[p - f], nm);
					}
				});
				if (o.code == B_ASG) mclear(s);
				m(s).maxn = std::max<std::uint32_t>(m(s).maxn, n + static_cast<unsigned>(b.n));
				madd(s, b);
				break;
			}
			case SWAP:
			{
				const int q = o.a;
				if (!m(q).live || q == s) return;
				if (!(APOL > 0 && (APOL & 4)) && m(q).tag != m(s).tag) return;
				if (o.b) { ARMED(swap(x, c(q))); }
				else ARMED(x.swap(c(q)));
				static Pre p;
				snap_pre(p, s);
				const Model ms = m(s), mq = m(q);
				mclear(s);
				memcpy(static_cast<void *>(e(s)), e(q), mq.n * sizeof(Ent));
				mclear(q);
				memcpy(static_cast<void *>(e(q)), p.e, p.n * sizeof(Ent));
				m(s) = mq;
				m(q) = ms;
				const auto mx = std::max(ms.maxn, mq.maxn);
				m(s).maxn = m(q).maxn = mx;
				break;
			}
			case AL:
			{
				const int j = mfind(s, 0, k), j2 = mfind(s, 0, o.b);
				if (j < 0 || j2 < 0) return;
				const It f = find0(s, k), g = find0(s, o.b);
				std::pair<It, bool> r;
				r.second = false;
				[[maybe_unused]] const auto &own = *f;
				switch (o.x)
				{
#if CONT & 1
					case 0: ARMED(r = x.try_emplace(own.first, std::as_const((*g).second))); break;
					default: ARMED(r.first = x.try_emplace(CIt{g}, own.first, std::as_const((*g).second))); break;
#else
					case 0: ARMED(r = x.insert(own)); break;
					default: ARMED(r.first = x.insert(CIt{g}, own)); break;
#endif
				}
				MC_CHECK(!r.second && r.first == find0(s, k), "%s: the result does not refer to the element", nm);
				break;
			}
			case SELFC:
			{
				auto &y = x;
				ARMED(x = std::as_const(y));
				break;
			}
			case SELFM:
			{
				auto &y = x;
				ARMED(x = std::move(y));
				break;
			}
			case SELFS:
				ARMED(x.swap(x));
				break;
			default: return;
		}
		track(s);
	}

	struct Layout
	{
		bool live;
		unsigned n;
		std::size_t bc;
		Keys k[MAXN];
		std::uintptr_t a[MAXN];
	};
	static void snap_layout(Layout &h, int s)
	{
		h.live = m(s).live;
		h.n = 0;
		if (!h.live) return;
		h.bc = c(s).bucket_count();
		for (auto i = c(s).begin(); i != c(s).end(); ++i)
		{
			if (h.n >= MAXN) fail("iteration of container %d does not end", s);
			h.k[h.n] = kid(*i);
			h.a[h.n++] = addr_of(i);
		}
	}
	// what an operation must leave as it was: 1 everything, 2 all but an erased element and the last one, which takes its place, 3 the number of buckets, 4 the order
	static void check_layout(const Layout &h, int s, const Op &o)
	{
		const char *nm = code_name[o.code];
		auto &x = c(s);
		const bool same = h.n == m(s).n;
		int kp = 0;
		if (o.c != s)
			switch (o.code)
			{
				case MCTOR: case MCTOR_A: case MASG: case SWAP: kp = o.a != s; break;
				default: kp = 1;
			}
		else if (o.code <= LAST_INS) kp = !same ? 0 : o.code == EMP || o.code == EMPH || o.code == INS_LV || ((o.code == INS_V || o.code == HINS_V) && (!IS_MAP || other_rvalue(o))) ? 4 : 1; // the forms that construct the element first enlarge the storage for it
		else
			switch (o.code)
			{
				case SETV: case SELFS: case AL: kp = 1; break;
				case FWD: kp = !same ? 0 : fwd::builds_first(fwd::decode(o.pad).m) ? 4 : 1; break;
				case ERK: case T_ERK: case ERREF: case ERI: case ERCI: kp = same ? 1 : 2; break;
				case ERR: case ERIF: case CLR: kp = same ? 1 : 3; break;
				default: break;
			}
		if (!kp) return;
		if (kp != 4) MC_CHECK(x.bucket_count() == h.bc, "%s changed the number of buckets of container %d", nm, s);
		if (kp == 3) return;
		if (kp == 2)
		{
			for (unsigned i = 0; i + 1 < h.n; ++i)
			{
				if (mfull(s, h.k[i]) < 0) continue;
				const auto f = find0(s, h.k[i].k[0]);
				MC_CHECK(f != x.end() && addr_of(f) == h.a[i], "%s moved the element %s of container %d", nm, KS(h.k[i]), s);
			}
			return;
		}
		auto it = x.begin();
		for (unsigned i = 0; i < h.n; ++i, ++it)
		{
			MC_CHECK(it != x.end() && kid(*it) == h.k[i], "%s changed the order of iteration of container %d at %s", nm, s, KS(h.k[i]));
			if (kp == 1) MC_CHECK(addr_of(it) == h.a[i], "%s moved the element %s of container %d", nm, KS(h.k[i]), s);
		}
		MC_CHECK(it == x.end(), "%s: container %d gained elements", nm, s);
	}

	void Sys::reset()
	{
		world_reset();
		for (int s = 0; s < NSLOT; ++s)
			if (n_init() >> s & 1) make(s);
	}
	bool Sys::may_fault(const Op &o)
	{
		switch (o.code)
		{
			case DTOR: case SELFM: case SELFS: case SWAP: case SETV: case MLF: case RSVF: case MCTOR: case CLR: return false;
			default: return true;
		}
	}
	// how many copies of keys and mapped values an operation calls for at most (-1: not limited)
	static int may_copy(const Op &o, bool grown)
	{
#ifdef TMOVE
		(void) o, (void) grown;
		return -1; // elements are copied if they are not moved safely
#else
		const int keys = NK, one = keys + IS_MAP;
		switch (o.code)
		{
			case INS_C: case HINS_C: return grown ? one : 0;
			case INS_LV: return one;
			case TRY_C: case TRYH: return grown ? one : keys; // the tuple of keys is passed by value
			case TRY0: return keys;
			case T_TRY: case T_TRYH: return grown ? 1 : 0;
			case INS_M: case HINS_M: case EMP: case EMPH: case TRY_M: case TRYHM:
			case ERK: case T_ERK: case ERREF: case ERI: case ERCI: case ERR: case ERIF: case CLR: case RH: case RSV: case MLF:
			case MCTOR: case MCTOR_A: case MASG: case SWAP: case DTOR: case DCTOR: case SELFM: case SELFS: return 0;
			default: return -1;
		}
#endif
	}
	void Sys::apply(const Op &o)
	{
		static Pre pre[NSLOT];
		static Layout lay[NSLOT];
		for (int s = 0; s < NSLOT; ++s) snap_layout(lay[s], s);
		const bool f = o.f != 0;
		if (f)
			for (int s = 0; s < NSLOT; ++s) snap_pre(pre[s], s);
		g_work = 0;
		try
		{
			g_op_copies = 0;
			do_apply(o);
			if (const int mc = may_copy(o, m(o.c).live && m(o.c).n > lay[o.c].n); mc >= 0)
				MC_CHECK(g_op_copies <= static_cast<unsigned>(mc), "%s made %u copies of keys and values, at most %d are called for", code_name[o.code], static_cast<unsigned>(g_op_copies), mc);
			if ((o.code <= LAST_INS || o.code == FWD || o.code == RSVF || o.code == B_INS || o.code == B_INSF || o.code == B_ILV || o.code == B_ILT) && m(o.c).live && m(o.c).n > lay[o.c].n)
				MC_CHECK(c(o.c).load_factor() <= c(o.c).max_load_factor(), "%s: the load factor of container %d is %f, its maximum is %f", code_name[o.code], o.c, static_cast<double>(c(o.c).load_factor()), static_cast<double>(c(o.c).max_load_factor()));
			for (int s = 0; s < NSLOT; ++s)
				if (lay[s].live && m(s).live) check_layout(lay[s], s, o);
		}
		catch (const Injected &)
		{
			disarm();
			if (!f) fail("unexpected exception");
			const int s = o.c;
			switch (o.code)
			{
				case CCTOR: case CCTOR_A: case MCTOR_A: case DCTOR: case B_CTOR: case B_CTORF: case CTORS:
					memset(W->h.slot[s], 0, SLOT_BYTES);
					if (m(s).live) harness_error("slot still live");
					if (o.code == MCTOR_A) resync(o.a, pre[o.a].n, pre[o.a].e, nullptr);
					break;
				case B_INS: case B_INSF: case B_ASG: case B_ILV: case B_ILT: case B_ASGT:
				{
					const auto b = bulk_of(o);
					m(s).maxn = std::max<std::uint32_t>(m(s).maxn, pre[s].n + static_cast<unsigned>(b.n));
					resync(s, pre[s].n, pre[s].e, &b);
					break;
				}
				case ERIF: case ERR: case SELFC:
					resync(s, pre[s].n, pre[s].e, nullptr);
					break;
				case CASG: case MASG:
				{
					static Pre both;
					both.n = 0;
					for (int q: {s, static_cast<int>(o.a)})
						for (std::uint32_t i = 0; i < pre[q].n; ++i) both.e[both.n++] = pre[q].e[i];
					m(s).tag = c(s).get_allocator().get_tag();
					m(s).htag = tag_of(c(s).hash_function());
					MC_CHECK(tag_of(c(s).key_eq()) == m(s).htag, "hash and compare functors disagree after an exception");
					m(s).maxn = std::max(m(s).maxn, m(o.a).maxn);
					for (std::uint32_t q = 0; q < std::size(MLFS); ++q)
						if (MLFS[q] == c(s).max_load_factor()) m(s).mlf = q;
					resync(s, both.n, both.e, nullptr);
					if (o.code != CASG) resync(o.a, both.n, both.e, nullptr);
					break;
				}
				case RH: case RSV: m(s).maxn = std::max<std::uint32_t>(m(s).maxn, o.a); break;
				default: break; // no effect
			}
		}
		catch (const std::exception &ex)
		{
			disarm();
			fail("unexpected exception: %s", ex.what());
		}
		disarm();
		if (g_job->opt & OPT_OBS)
		{
			obs(o.code);
			for (int s = 0; s < NSLOT; ++s)
				if (m(s).live)
				{
					obs(c(s).size());
					for (auto &&r: c(s))
					{
						const Keys k = kid(r);
						obs(static_cast<std::uint64_t>(k.k[0] + 200 * k.k[1] + 40000 * k.k[2]) << 16 | static_cast<std::uint64_t>(vid(r)));
					}
				}
		}
	}
	void Sys::verify()
	{
		g_noalloc = true;
		g_noalloc_why = "a lookup, iteration or comparison allocated";
		for (int s = 0; s < NSLOT; ++s)
			if (m(s).live) verify_slot(s);
		for (int a = 0; a < NSLOT; ++a)
			for (int b = 0; b < NSLOT; ++b)
				if (a != b && m(a).live && m(b).live && m(a).n <= 24 && m(b).n <= 24)
				{
					const bool eq = std::as_const(c(a)) == std::as_const(c(b)), ne = std::as_const(c(a)) != std::as_const(c(b));
					MC_CHECK(eq == same_contents(a, b), "containers %d and %d compare %s", a, b, eq ? "equal although their elements differ" : "different although their elements are the same");
					MC_CHECK(ne != eq, "operator!= contradicts operator==");
				}
		g_noalloc = false;
#if !PLAIN
		std::uint32_t tot = 0;
		for (int s = 0; s < NSLOT; ++s)
			if (m(s).live) tot += m(s).n;
		const std::uint32_t per = NK - (HSTD && NK > 1 ? 1 : 0);
		MC_CHECK(W->h.heap_keys == tot * per, "%u keys are alive on the heap, the containers hold %u", W->h.heap_keys, tot * per);
		if (IS_MAP) MC_CHECK(W->h.heap_vals == tot, "%u mapped values are alive on the heap, the containers hold %u", W->h.heap_vals, tot);
#endif
	}
	void Sys::teardown()
	{
		for (int s = 0; s < NSLOT; ++s)
			if (m(s).live) kill_slot(s);
		MC_CHECK(W->h.blocks == 0, "%u allocation(s) were never returned", W->h.blocks);
#if !PLAIN
		MC_CHECK(W->h.heap_keys == 0 && W->h.heap_vals == 0, "%u element(s) were never destroyed", W->h.heap_keys + W->h.heap_vals);
		MC_CHECK(W->h.stack_objs == 0, "%d temporary object(s) leaked or destroyed twice", W->h.stack_objs);
#endif
		W->h.heap_keys = W->h.heap_vals = 0;
	}
	std::string Sys::show(const Op &o)
	{
		char b[160];
		if (o.code <= LAST_INS || o.code == FWD) snprintf(b, sizeof b, "c%u.%s(%s:%u,hint=%u)", o.c, code_name[o.code], mc::show(okeys(o)).c_str(), o.x & 3, o.x >> 2);
		else snprintf(b, sizeof b, "c%u.%s(a=%u,b=%u,x=%u)", o.c, o.code < N_CODES ? code_name[o.code] : "?", o.a, o.b, o.x);
		std::string s = b;
		if (o.f) s += "!fault" + std::to_string(o.f);
		return s;
	}
	std::string Sys::show_state()
	{
		std::string r;
		for (int s = 0; s < NSLOT; ++s)
			if (m(s).live)
			{
				r += "c" + std::to_string(s) + "={";
				for (unsigned i = 0; i < m(s).n; ++i) r += (i ? "," : "") + mc::show(ekeys(e(s)[i])) + (IS_MAP ? ":" + std::to_string(e(s)[i].v) : "");
				r += "}/" + std::to_string(c(s).bucket_count()) + " ";
			}
		return r;
	}
}
#include "multi_jobs.hpp"
int main(int argc, char **argv) { return mc::engine_main(argc, argv); }
