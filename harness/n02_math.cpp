// N02: muu's math functions against the C library, at run time and in constant expressions
#include <muu/core.h>
#include "common.hpp"
#include "fp.hpp"
#ifndef PART
#define PART 0
#endif

namespace
{
	// ------------------------------------------------ run time
	template <typename T>
	void runtime(pbt::Case& c)
	{
		const int top = fp<T>::emax - 2, bot = fp<T>::emin;
		{
			const T x	= gen<T>(c, bot, top);
			const big b = wide(x);
			NOTE(tname<T>() << " " << sh(b));
			c.nontrivial(b != 0);
			CHECK(wide(muu::floor(x)) == BIG(floor, b), "floor(" << sh(b) << ") gave " << sh(wide(muu::floor(x))));
			CHECK(wide(muu::ceil(x)) == BIG(ceil, b), "ceil(" << sh(b) << ") gave " << sh(wide(muu::ceil(x))));
			CHECK(wide(muu::abs(x)) == babs(b), "abs(" << sh(b) << ")");
			CHECK(!muu::infinity_or_nan(x), "infinity_or_nan(" << sh(b) << ")");
			const T a	= muu::abs(x);
			const big s = BIG(sqrt, babs(b));
			NEAR(T, muu::sqrt(a), s, ulp_at<T>(s), "sqrt(" << sh(babs(b)) << ")");
			NEAR(T, muu::consteval_sqrt(a), s, ulp_at<T>(s), "consteval_sqrt(" << sh(babs(b)) << ")");
			const big at = BIG(atan, b);
			NEAR(T, muu::atan(x), at, 2 * ulp_at<T>(at), "atan(" << sh(b) << ")");
		}
		{
			// near integers
			const T x	= make<T>(big(static_cast<int64_t>(c.u(0, 4000)) - 2000) + (big(static_cast<int64_t>(c.u(0, 6))) - 3) * p2(10 - fp<T>::digits));
			const big b = wide(x);
			NOTE("near integer " << sh(b));
			CHECK(wide(muu::floor(x)) == BIG(floor, b), "floor(" << sh(b) << ") gave " << sh(wide(muu::floor(x))));
			CHECK(wide(muu::ceil(x)) == BIG(ceil, b), "ceil(" << sh(b) << ") gave " << sh(wide(muu::ceil(x))));
			// perfect squares
			const int64_t r = static_cast<int64_t>(c.u(0, (1ull << (fp<T>::digits < 60 ? fp<T>::digits / 2 : 31)) - 1));
			CHECK(wide(muu::sqrt(make<T>(big(r * r)))) == big(r), "sqrt of the square of " << r);
			CHECK(wide(muu::consteval_sqrt(make<T>(big(r * r)))) == big(r), "consteval_sqrt of the square of " << r);
		}
		{
			const T x	= gen<T>(c, -20 > bot ? -20 : bot, fp<T>::digits > 11 ? 20 : 12);
			const big b = wide(x);
			NOTE("trigonometry of " << sh(b));
			const big s = BIG(sin, b), k = BIG(cos, b), t = BIG(tan, b);
			NEAR(T, muu::sin(x), s, 2 * ulp_at<T>(s), "sin(" << sh(b) << ")");
			NEAR(T, muu::cos(x), k, 2 * ulp_at<T>(k), "cos(" << sh(b) << ")");
			if (babs(t) < 60000)
				NEAR(T, muu::tan(x), t, 3 * ulp_at<T>(t), "tan(" << sh(b) << ")");
		}
		{
			T x = gen<T>(c, -fp<T>::digits > bot ? -fp<T>::digits : bot, -1);
			if (c.chance(1, 4)) // next to the ends
				x = make<T>((big(1) - p2(-static_cast<int>(c.u(1, static_cast<uint64_t>(fp<T>::digits))))) * (c.b() ? 1 : -1));
			if (c.chance(1, 10))
				x = make<T>(c.b() ? 1 : -1);
			big b = wide(x);
			if (babs(b) > 1)
			{
				x = make<T>(1 / b);
				b = wide(x);
			}
			NOTE("inverse trigonometry of " << sh(b));
			const big as = BIG(asin, b), ac = BIG(acos, b);
			NEAR(T, muu::asin(x), as, 2 * ulp_at<T>(as), "asin(" << sh(b) << ")");
			NEAR(T, muu::acos(x), ac, 2 * ulp_at<T>(ac), "acos(" << sh(b) << ")");
		}
		{
			const T y = gen<T>(c, -8, 8), x = gen<T>(c, -8, 8);
			const big by = wide(y), bx = wide(x), w = BIG(atan2, by, bx);
			NOTE("atan2 " << sh(by) << ", " << sh(bx));
			NEAR(T, muu::atan2(y, x), w, 2 * ulp_at<T>(w), "atan2(" << sh(by) << ", " << sh(bx) << ")");
		}
	}

	template <typename I, typename... Is>
	void int_one(pbt::Case& c)
	{
		const I i	   = c.integer<I>();
		const double d = static_cast<double>(i);
		NOTE("integer " << pbt::show(static_cast<i128>(i)));
		c.nontrivial(i != I{});
		CHECK(muu::floor(i) == d && muu::ceil(i) == d, "floor/ceil of an integer");
		static_assert(std::is_same_v<decltype(muu::floor(i)), double> && std::is_same_v<decltype(muu::sqrt(i)), double> && std::is_same_v<decltype(muu::abs(i)), I>);
		if (!(i < I{}))
			CHECK(muu::sqrt(i) == std::sqrt(d), "sqrt of an integer");
		CHECK(muu::sin(i) == std::sin(d) && muu::cos(i) == std::cos(d) && muu::tan(i) == std::tan(d) && muu::atan(i) == std::atan(d), "trigonometry of an integer");
		if (i == I{} || i == I{ 1 })
			CHECK(muu::asin(i) == std::asin(d) && muu::acos(i) == std::acos(d), "inverse trigonometry of an integer");
		if (std::is_unsigned_v<I> || i != static_cast<I>(std::numeric_limits<I>::min()))
			CHECK(muu::abs(i) == (i < I{} ? static_cast<I>(-i) : i), "abs of an integer");
		CHECK(!muu::infinity_or_nan(i), "integers are finite");
		if constexpr (sizeof...(Is) > 0)
			int_one<Is...>(c);
	}

	// ------------------------------------------------ classification of bit patterns
	template <typename T, typename B>
	T from_bits(const B& b)
	{
		T r{};
		std::memcpy(&r, &b, sizeof(B) < sizeof(T) ? sizeof(B) : sizeof(T));
		return r;
	}
	template <typename T, bool LD = false>
	void classify(pbt::Case& c)
	{
		constexpr int ebits = fp<T>::digits == 11 ? 5 : fp<T>::digits == 24 ? 8 : fp<T>::digits == 53 ? 11 : 15;
		constexpr int mbits = fp<T>::digits - 1; // stored fraction bits
		const u128 emask	= (u128{ 1 } << ebits) - 1;
		auto one			= [&](bool& special) -> T
		{
			u128 e = 0;
			switch (c.u(0, 4))
			{
				case 0: e = emask; break;
				case 1: e = emask - 1; break;
				case 2: e = emask - (u128{ 1 } << c.below(ebits)); break;
				case 3: e = 0; break;
				default: e = c.u(0, static_cast<uint64_t>(emask)); break;
			}
			u128 m = (static_cast<u128>(c.integer<uint64_t>()) << 64 | c.integer<uint64_t>()) & ((u128{ 1 } << mbits) - 1);
			switch (c.u(0, 4))
			{
				case 0: m = 0; break;
				case 1: m = u128{ 1 } << c.below(mbits); break;
				case 2: m = (u128{ 1 } << mbits) - 1; break;
				default: break;
			}
			const u128 s = c.b();
			special		 = e == emask;
			NOTE((special ? (m ? "NaN" : "infinity") : "finite") << " with exponent field " << static_cast<unsigned>(e));
			if constexpr (LD) // explicit integer bit
				return from_bits<T>(m | (u128{ e != 0 } << 63) | (e << 64) | (s << (64 + ebits)));
			else
				return from_bits<T>(m | (e << mbits) | (s << (mbits + ebits)));
		};
		bool sa, sb, sd;
		T a = one(sa), b = one(sb), d = one(sd);
		c.nontrivial(sa || sb || sd);
		CHECK_EQ(muu::infinity_or_nan(a), sa, "infinity_or_nan");
		CHECK_EQ(muu::infinity_or_nan(b), sb, "infinity_or_nan");
		CHECK_EQ(muu::infinity_or_nan(a, b), sa || sb, "infinity_or_nan of two");
		CHECK_EQ(muu::infinity_or_nan(a, b, d), sa || sb || sd, "infinity_or_nan of three");
		CHECK_EQ(muu::infinity_or_nan(a, 1, b, 2u), sa || sb, "infinity_or_nan of mixed types");
		T arr[]{ a, b, d };
		CHECK_EQ(muu::infinity_or_nan(arr), sa || sb || sd, "infinity_or_nan of an array");
	}

	// ------------------------------------------------ constant evaluation
#if !defined(FASTMATH) && !defined(NO_CE)
	constexpr size_t N = 120;
	template <typename T>
	constexpr T unit(crng& g)
	{
		return make<T>(big(g.next() >> 11) / p2(53));
	}
	constexpr int pick(crng& g, int lo, int hi)
	{
		return lo + static_cast<int>(g.next() % static_cast<uint64_t>(hi - lo + 1));
	}
	struct in_angle
	{
		template <typename T>
		static constexpr T in(crng& g, size_t i)
		{
			const big lim = fp<T>::digits == 11 ? 100 : 1000;
			big x		  = (big(g.next() >> 11) / p2(53) * 2 - 1) * (i % 3 ? big(7) : lim);
			if (i % 7 == 0) // exact and nearly exact fractions of pi
				x = big(pick(g, -16, 16)) * wide(muu::constants<T>::pi_over_four) + (big(pick(g, -1, 1)) * p2(4 - fp<T>::digits));
			return make<T>(x);
		}
	};
	struct in_tan // (the poles themselves are not constant expressions in the precision of the computation)
	{
		template <typename T>
		static constexpr T in(crng& g, size_t i)
		{
			return in_angle::in<T>(g, fp<T>::digits >= 64 && i % 7 == 0 ? i + 1 : i);
		}
	};
	struct in_any
	{
		template <typename T>
		static constexpr T in(crng& g, size_t i)
		{
			big x = (big(1) + big(g.next() >> 11) / p2(53)) * p2(pick(g, fp<T>::emin + 4, fp<T>::emax - 2));
			if (i % 2)
				x = big(pick(g, -2000, 2000)) + big(pick(g, -3, 3)) * p2(11 - fp<T>::digits);
			else if (i % 4)
				x = big(g.next() >> 1) / p2(pick(g, fp<T>::digits == 11 ? 50 : 40, 63));
			if (g.next() & 1)
				x = -x;
			return make<T>(x);
		}
	};
	struct in_pos
	{
		template <typename T>
		static constexpr T in(crng& g, size_t i)
		{
			const T x = in_any::in<T>(g, i);
			return x < T{} ? -x : x;
		}
	};
	struct in_unit
	{
		template <typename T>
		static constexpr T in(crng& g, size_t i)
		{
			big x = big(g.next() >> 11) / p2(53);
			if (i % 4 == 0)
				x = 1 - p2(-pick(g, 1, fp<T>::digits));
			else if (i % 4 == 1)
				x = x * p2(-pick(g, 0, 12));
			return make<T>(g.next() & 1 ? -x : x);
		}
	};
	struct in_mid
	{
		template <typename T>
		static constexpr T in(crng& g, size_t)
		{
			const big x = (big(1) + big(g.next() >> 11) / p2(53)) * p2(pick(g, fp<T>::digits == 11 ? -6 : -20, fp<T>::digits == 11 ? 6 : 20));
			return make<T>(g.next() & 1 ? -x : x);
		}
	};
#define FUNC(name)                                                                                                     \
	struct f_##name                                                                                                    \
	{                                                                                                                  \
		template <typename T>                                                                                          \
		static constexpr T go(T x)                                                                                     \
		{                                                                                                              \
			return muu::name(x);                                                                                       \
		}                                                                                                              \
	}
	FUNC(sin);
	FUNC(cos);
	FUNC(tan);
	FUNC(asin);
	FUNC(acos);
	FUNC(atan);
	FUNC(sqrt);
	FUNC(consteval_sqrt);
	FUNC(floor);
	FUNC(ceil);
	FUNC(abs);
	struct f_atan2
	{
		template <typename T>
		static constexpr T go(T x)
		{
			return muu::atan2(x, make<T>(wide(x) > 4 ? -2 : wide(x) > 1 ? 3 : wide(x) > 0 ? 0 : wide(x) < -4 ? 5 : wide(x) < -2 ? 0 : -7));
		}
		static big ref(big x) { return BIG(atan2, x, big(x > 4 ? -2 : x > 1 ? 3 : x > 0 ? 0 : x < -4 ? 5 : x < -2 ? 0 : -7)); }
	};

	template <typename T>
	struct table
	{
		std::array<T, N> in{}, out{};
	};
	template <typename T, typename In, typename F, uint64_t Salt>
	constexpr table<T> build()
	{
		table<T> t{};
		crng g{ Salt };
		for (size_t i = 0; i < N; i++)
		{
			t.in[i]	 = In::template in<T>(g, i);
			t.out[i] = F::template go<T>(t.in[i]);
		}
		return t;
	}
	template <typename T, typename In, typename F, uint64_t Salt, typename Ref, typename Cond>
	void compare(pbt::Case& c, const char* name, Ref&& ref, Cond&& cond)
	{
		static constexpr table<T> t = build<T, In, F, Salt>();
		const int work				= fp<T>::digits > 64 ? fp<T>::digits : 64; // precision of the computation
		for (size_t i = 0; i < N; i++)
		{
			const big x = wide(t.in[i]), w = ref(x);
			const big k = cond(x, w);
			if (k < 0) // exact
				CHECK(wide(t.out[i]) == w, "constant-evaluated " << name << "(" << sh(x) << ") of " << tname<T>() << " gave " << sh(wide(t.out[i])) << ", expected " << sh(w));
			else
				NEAR(T, t.out[i], w, ulp_at<T>(w) + k * p2(4 - work), "constant-evaluated " << name << "(" << sh(x) << ") of " << tname<T>());
			// and the same call at run time
			T arg = t.in[i];
			launder_value(arg);
			const T rt = F::template go<T>(arg);
			const big tol = k < 0 ? big(0) : 3 * ulp_at<T>(w) + k * p2(4 - work);
			CHECK(babs(wide(t.out[i]) - wide(rt)) <= tol, name << "(" << sh(x) << ") of " << tname<T>() << " is " << sh(wide(t.out[i])) << " in a constant expression and " << sh(wide(rt)) << " at run time");
		}
		c.enumerated(2 * N, N);
	}
	template <typename T>
	void constant(pbt::Case& c)
	{
		auto one	= [](big, big) { return big(1); };
		auto exact	= [](big, big) { return big(-1); };
		auto angle	= [](big x, big) { return babs(x) + 1; };
		auto ulps	= [](big, big w) { return babs(w) * 2; };
		compare<T, in_angle, f_sin, 1>(c, "sin", [](big x) { return BIG(sin, x); }, angle);
		compare<T, in_angle, f_cos, 2>(c, "cos", [](big x) { return BIG(cos, x); }, angle);
		// (for T as wide as the computation, the poles amplify the reduction error)
		compare<T, in_tan, f_tan, 3>(c, "tan", [](big x) { return BIG(tan, x); }, [](big x, big w) { return (babs(x) + 1) * (w * w + 1); });
		compare<T, in_unit, f_asin, 4>(c, "asin", [](big x) { return BIG(asin, x); }, one);
		compare<T, in_unit, f_acos, 5>(c, "acos", [](big x) { return BIG(acos, x); }, one);
		compare<T, in_mid, f_atan, 6>(c, "atan", [](big x) { return BIG(atan, x); }, one);
		compare<T, in_mid, f_atan2, 7>(c, "atan2", [](big x) { return f_atan2::ref(x); }, one);
		compare<T, in_pos, f_sqrt, 8>(c, "sqrt", [](big x) { return BIG(sqrt, x); }, ulps);
		compare<T, in_pos, f_consteval_sqrt, 9>(c, "consteval_sqrt", [](big x) { return BIG(sqrt, x); }, ulps);
		compare<T, in_any, f_floor, 10>(c, "floor", [](big x) { return BIG(floor, x); }, exact);
		compare<T, in_any, f_ceil, 11>(c, "ceil", [](big x) { return BIG(ceil, x); }, exact);
		compare<T, in_any, f_abs, 12>(c, "abs", [](big x) { return babs(x); }, exact);
		c.nontrivial(true);
		NOTE("seed-derived constant-evaluated tables of " << tname<T>());
	}
#endif
}

#if PART == 0
#ifndef FASTMATH
PROP_T("runtime_float", 20000, 1500000, (runtime<float>));
PROP_T("runtime_double", 20000, 1000000, (runtime<double>));
PROP_T("runtime_long_double", 6000, 200000, (runtime<long double>));
#if MUU_HAS_FLOAT16
PROP_T("runtime_float16", 6000, 300000, (runtime<_Float16>));
#endif
PROP_T("runtime_half", 6000, 300000, (runtime<half>));
#if MUU_HAS_FLOAT128
PROP_T("runtime_float128", 2000, 60000, (runtime<__float128>));
#endif
PROP_T("integers", 10000, 500000, (int_one<signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long>));
#endif
PROP_T("classify_float", 40000, 2000000, (classify<float>));
PROP_T("classify_double", 40000, 2000000, (classify<double>));
PROP_T("classify_long_double", 40000, 2000000, (classify<long double, true>));
#if MUU_HAS_FLOAT16
PROP_T("classify_float16", 20000, 1000000, (classify<_Float16>));
#endif
PROP_T("classify_half", 20000, 1000000, (classify<half>));
#if MUU_HAS_FLOAT128
PROP_T("classify_float128", 20000, 1000000, (classify<__float128>));
#endif
#elif PART == 1
PROP_T("constant_float", 1, 1, (constant<float>));
PROP_T("constant_half", 1, 1, (constant<half>));
#elif PART == 2
PROP_T("constant_double", 1, 1, (constant<double>));
#elif PART == 3
PROP_T("constant_long_double", 1, 1, (constant<long double>));
#elif PART == 4
#if MUU_HAS_FLOAT16
PROP_T("constant_float16", 1, 1, (constant<_Float16>));
#endif
#if MUU_HAS_FLOAT128
PROP_T("constant_float128", 1, 1, (constant<__float128>));
#endif
#endif
