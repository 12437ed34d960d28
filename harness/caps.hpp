// Capacity contracts at sizes where float arithmetic rounds: no elements are needed to ask for room.
#pragma once
#include "engine.hpp"
#include <algorithm>
#include <new>
#include <stdexcept>
#include <vector>

namespace mc::caps
{
	constexpr std::size_t SIZES[] = {
			(1u << 23) - 1, (1u << 23) + 1, (1u << 24) - 1, 1u << 24, (1u << 24) + 1, (1u << 24) + 3, 14680064, 14680065, 14680063, 20000001, 29360127, 29360129
	};
	constexpr unsigned N_SIZES = std::size(SIZES);
	constexpr float FACTORS[] = {.875f, 1.f, .7f, .5f};
	constexpr unsigned N_FACTORS = std::size(FACTORS);

	template<typename C, typename = void>
	struct HasFactor : std::false_type {};
	template<typename C>
	struct HasFactor<C, std::void_t<decltype(std::declval<C &>().max_load_factor(1.f))>> : std::true_type {};

	template<typename C, typename MakeKey>
	void check(unsigned size, [[maybe_unused]] unsigned factor, bool insert, MakeKey key)
	{
		const std::size_t n = SIZES[size];
		{
			C c;
			if constexpr (HasFactor<C>::value) c.max_load_factor(FACTORS[factor]);
			c.reserve(n);
			MC_CHECK(c.capacity() >= n, "reserve(%zu) leaves capacity() at %zu", n, std::size_t(c.capacity()));
			MC_CHECK(c.max_size() >= n, "max_size() is below %zu", n);
			MC_CHECK(c.bucket_count() >= n, "reserve(%zu) leaves %zu buckets", n, std::size_t(c.bucket_count()));
			MC_CHECK(static_cast<double>(n) <= static_cast<double>(c.bucket_count()) * static_cast<double>(c.max_load_factor()), "reserve(%zu) gives %zu buckets, too few for the maximum load factor", n, std::size_t(c.bucket_count()));
			MC_CHECK(static_cast<double>(c.bucket_count()) <= 4 * static_cast<double>(n) / static_cast<double>(c.max_load_factor()), "reserve(%zu) gives %zu buckets", n, std::size_t(c.bucket_count()));
			const std::size_t bc = c.bucket_count();
			c.reserve(n);
			MC_CHECK(c.bucket_count() == bc, "reserve(%zu) a second time changes the number of buckets from %zu to %zu", n, bc, std::size_t(c.bucket_count()));
			if (insert)
			{
				for (std::size_t i = 0; i < n; ++i)
				{
					key(c, static_cast<int>(i));
				}
				MC_CHECK(c.size() == n, "size() is %zu, expected %zu", std::size_t(c.size()), n);
				MC_CHECK(c.bucket_count() == bc, "insertion up to the %zu elements asked for changed the number of buckets from %zu to %zu", n, bc, std::size_t(c.bucket_count()));
				MC_CHECK(c.capacity() >= c.size(), "capacity() %zu is below size() %zu", std::size_t(c.capacity()), n);
			}
		}
		if (!insert)
		{
			C c;
			c.rehash(n);
			MC_CHECK(c.bucket_count() >= n, "rehash(%zu) leaves %zu buckets", n, std::size_t(c.bucket_count()));
			MC_CHECK(c.bucket_count() <= 4 * n, "rehash(%zu) gives %zu buckets", n, std::size_t(c.bucket_count()));
		}
	}

	// Few elements in a table with room for many: iteration passes over all that is unused.
	template<typename T>
	int id_of(const T &x)
	{
		if constexpr (std::is_convertible_v<T, int>) return static_cast<int>(x);
		else return x.first;
	}
	template<typename C>
	void check_walk(const C &c, const std::vector<int> &want, const char *when, std::size_t room)
	{
		std::vector<int> got;
		for (auto it = c.begin(); it != c.end(); ++it)
		{
			MC_CHECK(got.size() < want.size(), "%s with room for %zu, iteration over %zu elements does not end", when, room, want.size());
			got.push_back(id_of(*it));
		}
		std::sort(got.begin(), got.end());
		MC_CHECK(got == want, "%s with room for %zu, iteration visits %zu elements, or others than the %zu there are", when, room, got.size(), want.size());
	}
	template<typename C, typename Insert>
	void check_far(unsigned bits, unsigned n, unsigned start, Insert insert)
	{
		const std::size_t room = std::size_t(1) << bits;
		C c;
		c.reserve(room);
		std::vector<int> keys;
		for (unsigned i = 0; i < n; ++i) keys.push_back(static_cast<int>((start * room / 4 + i * room / 3) % (room * 128) * (i % 2 ? 1 : 128)) + static_cast<int>(i));
		for (const int k: keys) insert(c, k);
		std::sort(keys.begin(), keys.end());
		check_walk(c, keys, "after insertion", room);
		while (!keys.empty())
		{
			const int k = keys[keys.size() / 2];
			MC_CHECK(c.find(k) != c.end(), "with room for %zu, key %d is not found", room, k);
			const auto it = c.find(k);
			auto next = it;
			++next;
			const bool last = next == c.end();
			const int follower = last ? 0 : id_of(*next);
			const auto r = c.erase(it);
			keys.erase(keys.begin() + static_cast<std::ptrdiff_t>(keys.size() / 2));
			if (last) MC_CHECK(r == c.end(), "with room for %zu, erasing the last element does not return end()", room);
			else if (!HasFactor<C>::value) MC_CHECK(r != c.end() && id_of(*r) == follower, "with room for %zu, erase does not return the next element", room);
			check_walk(c, keys, "after erasure", room);
		}
		for (unsigned i = 0; i < n; ++i) keys.push_back(static_cast<int>(i * 7));
		for (const int k: keys) insert(c, k);
		check_walk(c, keys, "after another insertion", room);
		std::size_t dropped = 0;
		if (n)
		{
			auto mid = c.begin();
			for (unsigned i = 0; i < n / 2; ++i) ++mid;
			std::vector<int> rest;
			for (auto it = c.begin(); it != mid; ++it) rest.push_back(id_of(*it));
			c.erase(mid, c.end());
			dropped = n - n / 2;
			std::sort(rest.begin(), rest.end());
			check_walk(c, rest, "after erasing a range", room);
		}
		MC_CHECK(c.size() == n - dropped, "size() is %zu", std::size_t(c.size()));
		C d = c;
		MC_CHECK(d == c, "a copy of a table with room for %zu differs from it", room);
		c.clear();
		check_walk(c, {}, "after clear", room);
		insert(c, 5);
		check_walk(c, {5}, "after clear and insertion", room);
		c = std::move(d);
		MC_CHECK(c.size() == n - dropped, "size() is %zu after a move", std::size_t(c.size()));
	}

	// Requests that cannot be met: an exception, and nothing changes.
	constexpr std::size_t TOO_MUCH[] = {
			~std::size_t(0), ~std::size_t(0) - 1, ~std::size_t(0) - 7, ~std::size_t(0) - 8, ~std::size_t(0) - 15, ~std::size_t(0) - 16, ~std::size_t(0) - 17, ~std::size_t(0) - 33, ~std::size_t(0) / 2, ~std::size_t(0) / 2 + 1,
			~std::size_t(0) / 2 + 2, ~std::size_t(0) / 4, ~std::size_t(0) / 4 + 1, (std::size_t(1) << 61) + 1, std::size_t(1) << 61, (std::size_t(1) << 61) - 1, std::size_t(1) << 60, std::size_t(1) << 59, std::size_t(1) << 58,
			std::size_t(1) << 57, std::size_t(1) << 56, (std::size_t(1) << 52) + 1
	};
	constexpr unsigned N_TOO_MUCH = std::size(TOO_MUCH);
	template<typename C, typename Insert>
	void check_too_much(unsigned what, unsigned filled, unsigned how, Insert insert)
	{
		const std::size_t n = TOO_MUCH[what];
		C c;
		const int k = filled == 0 ? 0 : filled == 1 ? 5 : 14;
		for (int i = 0; i < k; ++i) insert(c, i);
		const std::size_t bc = c.bucket_count();
		bool thrown = false;
		try
		{
			switch (how)
			{
				case 0: c.reserve(n); break;
				case 1: c.rehash(n); break;
				default:
				{
					C t(n);
					asm volatile("" : : "r"(&t) : "memory"); // the allocation must not be optimised away
				}
			}
		}
		catch (const std::bad_alloc &) { thrown = true; }
		catch (const std::length_error &) { thrown = true; }
		MC_CHECK(thrown, "%s of %zu elements or buckets did not fail", how == 0 ? "reserve" : how == 1 ? "rehash" : "construction", n);
		MC_CHECK(c.bucket_count() == bc && c.size() == static_cast<std::size_t>(k), "a request for %zu elements or buckets that failed left size() %zu and bucket_count() %zu, before they were %d and %zu", n, std::size_t(c.size()), std::size_t(c.bucket_count()), k, bc);
		for (int i = 0; i < 30; ++i) insert(c, i);
		for (int i = 0; i < 40; ++i) MC_CHECK(c.contains(i) == (i < 30), "after a request for %zu elements or buckets that failed, contains(%d) is %d", n, i, c.contains(i));
		MC_CHECK(c.size() == 30, "after a request for %zu elements or buckets that failed, size() is %zu after insertion up to 30 elements", n, std::size_t(c.size()));
	}
}
