#pragma once
#include "pbt.hpp"
#ifndef VERIF_SEED
	#define VERIF_SEED 1ull
#endif
using u128 = unsigned __int128;
using i128 = __int128;

inline std::string show128(u128 v)
{
	char b[40];
	std::snprintf(b, sizeof b, "0x%016llx%016llx", static_cast<unsigned long long>(v >> 64), static_cast<unsigned long long>(v));
	return b;
}

// constexpr pseudo-random inputs for compile-time evaluation (same distribution idea as Case::integer)
struct crng
{
	uint64_t s;
	constexpr explicit crng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
	constexpr uint64_t next() { return pbt::splitmix(s); }
	constexpr uint64_t below(uint64_t n) { return next() % n; }
	template <typename T>
	constexpr T integer()
	{
		constexpr unsigned bits = sizeof(T) * 8;
		switch (below(6))
		{
			case 0: return static_cast<T>(below(4));
			case 1: return static_cast<T>(static_cast<T>(0) - static_cast<T>(below(4)));
			case 2: return static_cast<T>((static_cast<T>(1) << below(bits)) - static_cast<T>(below(2)));
			case 3: return static_cast<T>(static_cast<T>(1) << below(bits));
			default:
				if constexpr (bits > 64)
					return (static_cast<T>(next()) << 64) | static_cast<T>(next());
				else
					return static_cast<T>(next());
		}
	}
};

template <typename T, size_t N>
struct arr
{
	T v[N]{};
	constexpr T& operator[](size_t i) { return v[i]; }
	constexpr const T& operator[](size_t i) const { return v[i]; }
	static constexpr size_t size() { return N; }
};

template <typename T>
inline void launder_value(T& v)
{
	asm volatile("" : : "r"(&v) : "memory");
}
