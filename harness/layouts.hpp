// Hash layouts: which hash every key gets.
#pragma once
#include "engine.hpp"

namespace mc
{
	constexpr int N_LAYOUTS = 11;
	inline std::size_t layout_hash(int layout, int k)
	{
		const auto mix = [](std::uint64_t x)
		{
			x += 0x9E3779B97F4A7C15ull;
			x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
			x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
			return x ^ (x >> 31);
		};
		const auto u = static_cast<std::uint64_t>(k);
		switch (layout)
		{
			default:
			case 0: return mix(u);                                 // spread
			case 1: return 0x0123456789ABCDEFull;                  // all keys collide completely
			case 2: return (77ull << 7) | (u & 127);               // same home position, different fingerprints
			case 3: return (u << 7) | 5;                           // different home positions, same fingerprint
			case 4: return (~u << 7) | (u % 3);                    // home positions at the end of any table: probes wrap around
			case 5:                                                // extreme values
			{
				constexpr std::uint64_t x[] = {0, ~0ull, 1ull << 63, ~0ull >> 1, 127, 128, 0xFFFFFFFF00000000ull, 0x00000000FFFFFFFFull};
				return x[u % 8] + (u / 8 % 2 ? u / 8 : 0 - u / 8);
			}
			case 6: return u;                                      // identity
			case 7: return mix(u / 2);                             // pairs collide
			case 8: return ((u * 16) << 7) | (u % 2);              // home positions a block apart
			case 10: return u % 2 ? mix(u) : (77ull << 7) | (u / 2 & 127); // one crowded home position among spread keys
			case 9: return ((u % 4) << 7) | (u / 4 % 2) | (u << 50); // four clusters, two fingerprints
		}
	}
	inline void apply_layout(const Job &j)
	{
		for (int i = 0; i < MAXK; ++i) g_hash[i] = layout_hash(j.layout, i);
	}

	using Ops = std::vector<Op>;
	inline Op mkop(unsigned code, unsigned a = 0, unsigned x = 0, unsigned b = 0, unsigned c = 0)
	{
		Op o;
		o.code = static_cast<std::uint8_t>(code);
		o.a = static_cast<std::uint8_t>(a);
		o.x = static_cast<std::uint8_t>(x);
		o.b = static_cast<std::uint8_t>(b);
		o.c = static_cast<std::uint8_t>(c);
		return o;
	}
	inline void add(Ops &v, const Ops &w) { v.insert(v.end(), w.begin(), w.end()); }
	inline std::vector<int> range(int from, int to)
	{
		std::vector<int> r;
		for (int i = from; i < to; ++i) r.push_back(i);
		return r;
	}
}
