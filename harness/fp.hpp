// floating-point helpers shared by the numeric harnesses: a wide reference type, ulps, generators
#pragma once
#include <muu/core.h>
#include "common.hpp"
#include <muu/half.h>
#include <cmath>
#include <cstring>
#include <limits>
#if MUU_HAS_FLOAT128
#include <quadmath.h>
#endif

namespace
{
	using muu::half;

#if MUU_HAS_FLOAT128
	using big = __float128;
#define BIG(f, ...) f##q(__VA_ARGS__)
#else
	using big = long double;
#define BIG(f, ...) f##l(__VA_ARGS__)
#endif
	template <typename T>
	struct fp
	{
		static constexpr int digits = std::numeric_limits<T>::digits, emin = std::numeric_limits<T>::min_exponent, emax = std::numeric_limits<T>::max_exponent;
	};
#if MUU_HAS_FLOAT16
	template <>
	struct fp<_Float16>
	{
		static constexpr int digits = 11, emin = -13, emax = 16;
	};
#endif
	template <>
	struct fp<half>
	{
		static constexpr int digits = 11, emin = -13, emax = 16;
	};
#if MUU_HAS_FLOAT128
	template <>
	struct fp<__float128>
	{
		static constexpr int digits = 113, emin = -16381, emax = 16384;
	};
#endif

	constexpr big p2(int e)
	{
		big r = 1, b = e < 0 ? big(0.5) : big(2);
		for (int n = e < 0 ? -e : e; n; n /= 2, b *= (n ? b : big(1)))
			if (n & 1)
				r *= b;
		return r;
	}
	template <typename T>
	constexpr T make(big b)
	{
		if constexpr (std::is_same_v<T, half>)
			return half{ static_cast<float>(b) };
		else
			return static_cast<T>(b);
	}
	template <typename T>
	constexpr big wide(T v)
	{
		if constexpr (std::is_same_v<T, half>)
			return static_cast<big>(static_cast<float>(v));
		else
			return static_cast<big>(v);
	}
	big babs(big x) { return x < 0 ? -x : x; }

	// size of a unit in the last place of T at magnitude x
	template <typename T>
	big ulp_at(big x)
	{
		const big a = babs(x);
		int e		= 0;
		BIG(frexp, a, &e);
		if (e < fp<T>::emin)
			e = fp<T>::emin;
		return p2(e - fp<T>::digits);
	}
	std::string sh(big x)
	{
		std::ostringstream o;
		o.precision(20);
		o << static_cast<long double>(x);
		return o.str();
	}

#define NEAR(T, got, want, slack, what)                                                                                \
	do                                                                                                                 \
	{                                                                                                                  \
		const big g_ = wide(got), w_ = (want);                                                                         \
		CHECK(babs(g_ - w_) <= (slack), what << " gave " << sh(g_) << ", expected " << sh(w_));                        \
	}                                                                                                                  \
	while (0)

	template <typename T>
	T gen(pbt::Case& c, int elo, int ehi)
	{
		const uint64_t m = c.integer<uint64_t>();
		const int e		 = elo + static_cast<int>(c.u(0, static_cast<uint64_t>(ehi - elo)));
		big b			 = (big(1) + big(m) / p2(64)) * p2(e);
		if (c.chance(1, 8))
			b = big(static_cast<int64_t>(m) % (fp<T>::digits == 11 ? 40 : 1000)) / big(c.u(1, 4)); // small integers and simple fractions
		else if (c.b())
			b = -b;
		return make<T>(b);
	}

	template <typename T>
	const char* tname()
	{
		return std::is_same_v<T, half> ? "half" : fp<T>::digits == 11 ? "_Float16" : fp<T>::digits == 24 ? "float" : fp<T>::digits == 53 ? "double" : fp<T>::digits == 64 ? "long double" : "float128";
	}
}
