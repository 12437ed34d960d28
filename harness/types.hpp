// Element types, functors and the allocator given to the containers under test.
#pragma once
#include "engine.hpp"
#include "layouts.hpp"

#ifndef PLAIN
#define PLAIN 0
#endif
#ifndef APOL     // allocator: -1 empty & always equal; otherwise stateful, 1: copies on copy assignment, 2: on move assignment, 4: on swap, 8: select_on_copy gives a fresh one
#define APOL 0
#endif
#ifndef HEMPTY   // empty hash & compare functors
#define HEMPTY 0
#endif
#ifndef TRANS    // transparent hash & compare
#define TRANS 0
#endif

namespace mc
{
#if PLAIN
	using Key = Plain<true>;
	using Val = Plain<false>;
#else
	using Key = Tracked<true>;
	using Val = Tracked<false>;
#endif
	constexpr std::size_t SALT[4] = {0, 0x1040000000000183ull, 0x55AA00FF55AA00FFull, ~std::size_t(0)};
	constexpr unsigned SOCCC_TAG = 9;

	inline void work()
	{
		if (g_work_limit && ++g_work > g_work_limit) fail("one operation used more than %llu hash/compare calls", (unsigned long long) g_work_limit);
	}
	struct TagBase
	{
#if !HEMPTY
		unsigned tag = 0;
		constexpr unsigned get_tag() const { return tag; }
		constexpr void set_tag(unsigned t) { tag = t; }
#else
		constexpr unsigned get_tag() const { return 0; }
		constexpr void set_tag(unsigned) {}
#endif
	};
	struct Hash : TagBase
	{
#if TRANS
		using is_transparent = std::true_type;
		std::size_t operator()(const TK &k) const { return of(k.id); }
#endif
		std::size_t of(int id) const
		{
			fault_point();
			work();
			++g_hash_calls;
			return (id < MAXK ? g_hash[id] : layout_hash(g_job->layout, id)) ^ SALT[get_tag() & 3];
		}
		std::size_t operator()(const Key &k) const { return of(k.get("hash")); }
	};
	struct Eq : TagBase
	{
#if TRANS
		using is_transparent = std::true_type;
		bool operator()(const TK &a, const Key &b) const { return same(a.id, b.get("comparison")); }
		bool operator()(const Key &a, const TK &b) const { return same(a.get("comparison"), b.id); }
#endif
		bool same(int a, int b) const
		{
			fault_point();
			work();
			++g_eq_calls;
			return a == b;
		}
		bool operator()(const Key &a, const Key &b) const { return same(a.get("comparison"), b.get("comparison")); }
	};

	template<typename T>
	struct Alloc
	{
		using value_type = T;
#if APOL < 0
		using is_always_equal = std::true_type;
		unsigned get_tag() const { return 0; }
		Alloc() = default;
		explicit Alloc(unsigned) {}
		template<typename U>
		Alloc(const Alloc<U> &) {}
		template<typename U>
		bool operator==(const Alloc<U> &) const { return true; }
		template<typename U>
		bool operator!=(const Alloc<U> &) const { return false; }
#else
		using is_always_equal = std::false_type;
		using propagate_on_container_copy_assignment = std::bool_constant<(APOL & 1) != 0>;
		using propagate_on_container_move_assignment = std::bool_constant<(APOL & 2) != 0>;
		using propagate_on_container_swap = std::bool_constant<(APOL & 4) != 0>;
		unsigned tag = 0;
		unsigned get_tag() const { return tag; }
		Alloc() = default;
		explicit Alloc(unsigned t) : tag(t) {}
		template<typename U>
		Alloc(const Alloc<U> &o) : tag(o.tag) {}
		template<typename U>
		bool operator==(const Alloc<U> &o) const { return tag == o.tag; }
		template<typename U>
		bool operator!=(const Alloc<U> &o) const { return tag != o.tag; }
#if APOL & 8
		Alloc select_on_container_copy_construction() const { return Alloc(SOCCC_TAG); }
#endif
#endif
		T *allocate(std::size_t n) { return static_cast<T *>(arena_alloc(n, sizeof(T), get_tag())); }
		void deallocate(T *p, std::size_t n) { arena_free(p, n, sizeof(T), get_tag()); }
	};
}
