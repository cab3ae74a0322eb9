// N03: lerp, approximate equality, angle wrapping, min/max/clamp, lcm/gcd, evenly_distribute
#include <muu/core.h>
#include "common.hpp"
#include "fp.hpp"

namespace
{
	big bmax(big a, big b) { return a < b ? b : a; }

	template <typename T>
	constexpr big two_pi_r()
	{
#if MUU_HAS_FLOAT128
		return 2 * 3.14159265358979323846264338327950288419716939937510582097494459230781640628620899862803482534211706798214808651Q;
#else
		return 2 * 3.14159265358979323846264338327950288419716939937510582097494459230781640628620899862803482534211706798214808651L;
#endif
	}
	template <typename T>
	using limit_t = std::conditional_t<std::is_same_v<T, half>, float, T>;

	// ------------------------------------------------ lerp
	template <typename T>
	void check_lerp(pbt::Case& c, T s, T f, T a)
	{
		const big bs = wide(s), bf = wide(f), ba = wide(a);
		const big want = bs * (1 - ba) + bf * ba;
		const T got	   = muu::lerp(s, f, a);
		NOTE(tname<T>() << " lerp(" << sh(bs) << ", " << sh(bf) << ", " << sh(ba) << ")");
		const big mag = bmax(babs(bs), babs(bf)) * bmax(1, bmax(babs(ba), babs(1 - ba)));
		NEAR(T, got, want, 3 * ulp_at<T>(mag), "lerp");
		CHECK(muu::lerp(s, f, make<T>(0)) == s, "lerp at zero is the start");
		CHECK(muu::lerp(s, f, make<T>(1)) == f, "lerp at one is the finish");
		CHECK(muu::lerp(s, s, make<T>(0)) == s, "lerp between equal ends");
		if (ba >= 0 && ba <= 1)
		{
			const big lo = bs < bf ? bs : bf, hi = bs < bf ? bf : bs;
			CHECK(wide(got) >= lo - 3 * ulp_at<T>(mag) && wide(got) <= hi + 3 * ulp_at<T>(mag), "lerp leaves the segment");
		}
	}
	template <typename T>
	void lerp_of(pbt::Case& c)
	{
		const int e = fp<T>::digits == 11 ? 6 : fp<T>::digits == 24 ? 30 : 100;
		const T s = gen<T>(c, -e, e), f = c.chance(1, 4) ? make<T>(wide(s) * (1 + big(static_cast<int>(c.u(0, 6)) - 3) * p2(1 - fp<T>::digits))) : gen<T>(c, -e, e);
		T a = make<T>(big(c.u(0, 1u << 20)) / p2(20));
		if (c.chance(1, 4))
			a = make<T>(big(c.i(-3200, 3200)) / 100);
		else if (c.chance(1, 8))
			a = make<T>(1 - p2(-fp<T>::digits));
		c.nontrivial(s != f && wide(a) != 0 && wide(a) != 1);
		check_lerp<T>(c, s, f, a);
	}
	PROP_T("lerp float", 3000, 60000, (lerp_of<float>));
	PROP_T("lerp double", 3000, 60000, (lerp_of<double>));
	PROP_T("lerp long double", 2000, 40000, (lerp_of<long double>));
	PROP_T("lerp half", 3000, 60000, (lerp_of<half>));
#if MUU_HAS_FLOAT16
	PROP_T("lerp _Float16", 3000, 60000, (lerp_of<_Float16>));
#endif
#if MUU_HAS_FLOAT128
	PROP_T("lerp float128", 1000, 20000, (lerp_of<__float128>));
#endif

	PROP(lerp_mixed, 3000, 60000)
	{
		const int s = static_cast<int>(c.i(-1000, 1000));
		const auto f = static_cast<uint16_t>(c.u(0, 2000));
		const double a = c.real(0, 1);
		NOTE("lerp(" << s << ", " << f << ", " << a << ")");
		c.nontrivial(s != 0);
		static_assert(std::is_same_v<decltype(muu::lerp(s, f, a)), double>);
		static_assert(std::is_same_v<decltype(muu::lerp(s, f, 1)), double>);
		static_assert(std::is_same_v<decltype(muu::lerp(1.0f, 2.0f, 0.5)), double>);
		static_assert(std::is_same_v<decltype(muu::lerp(1.0f, 2.0f, 0.5f)), float>);
		const double want = s + (double(f) - s) * a;
		CHECK(std::fabs(muu::lerp(s, f, a) - want) < 1e-11, "mixed lerp gave " << muu::lerp(s, f, a) << ", expected " << want);
		CHECK(muu::lerp(s, f, 1) == double(f) && muu::lerp(s, f, 0u) == double(s), "mixed lerp at integer ends");
		const float fa = static_cast<float>(c.u(0, 64)) / 64.0f, fs = static_cast<float>(s), ff = static_cast<float>(f);
		const double w2 = double(fs) * (1 - double(fa)) + double(ff) * double(fa);
		CHECK(std::fabs(double(muu::lerp(fs, static_cast<int>(f), fa)) - w2) < 1e-3, "mixed lerp of float and int");
		CHECK(std::fabs(muu::lerp(fs, double(ff), fa) - w2) < 1e-10, "mixed lerp of float and double");
		CHECK(std::fabs(double(muu::lerp(static_cast<long double>(fs), ff, fa)) - w2) < 1e-10, "mixed lerp of long double and float");
		const half h{ static_cast<float>(s) };
		CHECK(std::fabs(double(muu::lerp(fs, h, fa)) - (double(fs) * (1 - double(fa)) + double(static_cast<float>(h)) * double(fa))) < 1e-3, "mixed lerp of float and half");
	}

	// ------------------------------------------------ approximate equality
	template <typename T>
	void approx_of(pbt::Case& c)
	{
		const int e = fp<T>::digits == 11 ? 8 : 40;
		const T a	= gen<T>(c, -e, e);
		T eps		= c.chance(1, 10) ? make<T>(0) : c.b() ? muu::default_epsilon<T> : muu::abs(gen<T>(c, -14, 8));
		T b;
		switch (c.u(0, 4))
		{
			case 0: b = gen<T>(c, -e, e); break;
			case 1: b = a; break;
			case 2: b = make<T>(-wide(a)); break;
			case 3: b = make<T>(wide(a) + wide(eps) * (c.b() ? 1 : -1)); break;
			default: b = make<T>(wide(a) + wide(eps) * (1 + big(static_cast<int>(c.u(0, 6)) - 3) * p2(-static_cast<int>(c.u(1, static_cast<uint64_t>(fp<T>::digits)))))); break;
		}
		NOTE(tname<T>() << " " << sh(wide(a)) << " vs " << sh(wide(b)) << " eps " << sh(wide(eps)));
		c.nontrivial(a != b);
		auto model = [&](T x, T y, T ep)
		{
			using W	  = limit_t<T>; // halves are compared as floats
			volatile W d = static_cast<W>(static_cast<W>(wide(y)) - static_cast<W>(wide(x)));
			const W dd	 = d;
			return static_cast<big>(dd < W{} ? -dd : dd) < wide(ep);
		};
		const bool eq = muu::approx_equal(a, b, eps);
		c.cls(eq, "equal");
		CHECK_EQ(eq, model(a, b, eps), "approx_equal");
		CHECK_EQ(muu::approx_equal(b, a, eps), eq, "approx_equal is symmetric");
		CHECK_EQ(muu::approx_equal(a, b), model(a, b, muu::default_epsilon<T>), "approx_equal with the default tolerance");
		const T larger = make<T>(wide(eps) * 2);
		if (eq)
			CHECK(muu::approx_equal(a, b, larger), "approx_equal is monotone in its tolerance");
		if (wide(eps) > 0)
			CHECK(muu::approx_equal(a, a, eps), "approx_equal is reflexive");
		const T z = make<T>(0);
		const T d = make<T>(wide(b) - wide(a));
		CHECK_EQ(muu::approx_zero(d, eps), model(z, d, eps), "approx_zero");
		CHECK_EQ(muu::approx_zero(b), model(z, b, muu::default_epsilon<T>), "approx_zero with the default tolerance");
		CHECK_EQ(muu::approx_zero(eps, eps), false, "approx_zero of the tolerance itself");
		CHECK_EQ(muu::approx_zero(make<T>(-wide(eps)), eps), false, "approx_zero of minus the tolerance itself");
	}
	PROP_T("approx float", 4000, 80000, (approx_of<float>));
	PROP_T("approx double", 4000, 80000, (approx_of<double>));
	PROP_T("approx long double", 3000, 60000, (approx_of<long double>));
	PROP_T("approx half", 4000, 80000, (approx_of<half>));
#if MUU_HAS_FLOAT16
	PROP_T("approx _Float16", 4000, 80000, (approx_of<_Float16>));
#endif
#if MUU_HAS_FLOAT128
	PROP_T("approx float128", 1000, 20000, (approx_of<__float128>));
#endif

	enum class sc : uint32_t
	{
	};
	enum un : int
	{
		un_lo = -100,
		un_hi = 100
	};
	PROP(approx_generic, 3000, 60000)
	{
		const int64_t a = c.integer<int64_t>(), b = c.b() ? a : a + c.i(-1, 1) * (a < INT64_MAX && a > INT64_MIN);
		NOTE(a << " vs " << b);
		c.nontrivial(a != b);
		CHECK_EQ(muu::approx_equal(a, b), a == b, "integers are compared exactly");
		CHECK_EQ(muu::approx_equal(static_cast<uint8_t>(a), static_cast<int>(static_cast<uint8_t>(b))), static_cast<uint8_t>(a) == static_cast<uint8_t>(b), "mixed integers");
		CHECK_EQ(muu::approx_zero(a - b), a == b, "approx_zero of an integer");
		CHECK_EQ(muu::approx_equal(sc(static_cast<uint32_t>(a)), sc(static_cast<uint32_t>(b))), static_cast<uint32_t>(a) == static_cast<uint32_t>(b), "enumerators");
		CHECK_EQ(muu::approx_equal(sc(static_cast<uint32_t>(a)), static_cast<uint32_t>(b)), static_cast<uint32_t>(a) == static_cast<uint32_t>(b), "enumerator and integer");
		CHECK_EQ(muu::approx_zero(sc(static_cast<uint32_t>(a - b))), a == b, "approx_zero of an enumerator");
		const un u = static_cast<un>(c.i(-2, 2));
		CHECK_EQ(muu::approx_zero(u), u == 0, "approx_zero of an unscoped enumerator");
		int two[2];
		CHECK_EQ(muu::approx_equal(&two[c.index & 1], &two[0]), (c.index & 1) == 0, "pointers");
		CHECK_EQ(muu::approx_zero(static_cast<int*>(c.index & 1 ? two : nullptr)), (c.index & 1) == 0, "null pointers");
		// integers against floats
		const int i	   = static_cast<int>(c.i(-1000, 1000));
		const float f  = static_cast<float>(i) + static_cast<float>(c.i(-8, 8)) * 0.0005f;
		const double d = static_cast<double>(i) + static_cast<double>(c.i(-8, 8)) * 0.0005;
		CHECK_EQ(muu::approx_equal(i, f), muu::approx_equal(static_cast<float>(i), f), "integer and float");
		CHECK_EQ(muu::approx_equal(f, i), muu::approx_equal(static_cast<float>(i), f), "float and integer");
		CHECK_EQ(muu::approx_equal(i, d), muu::approx_equal(static_cast<double>(i), d), "integer and double");
		CHECK_EQ(muu::approx_equal(f, d), muu::approx_equal(static_cast<double>(f), d), "float and double");
	}

	// ------------------------------------------------ angles
	template <typename T>
	void check_angle(pbt::Case& c, T x)
	{
		const big bx = wide(x), turn = two_pi_r<T>();
		NOTE(tname<T>() << " angle " << sh(bx));
		const T u = muu::normalize_angle(x), s = muu::normalize_angle_signed(x);
		const big tp = wide(muu::constants<T>::two_pi), pi = wide(muu::constants<T>::pi);
		CHECK(wide(u) >= 0 && wide(u) < bmax(tp, turn), "normalize_angle(" << sh(bx) << ") gave " << sh(wide(u)));
		CHECK(wide(s) >= -bmax(pi, turn / 2) && wide(s) < bmax(pi, turn / 2), "normalize_angle_signed(" << sh(bx) << ") gave " << sh(wide(s)));
		CHECK(muu::normalize_angle(u) == u, "normalize_angle is idempotent, " << sh(wide(u)));
		CHECK(muu::normalize_angle_signed(s) == s, "normalize_angle_signed is idempotent, " << sh(wide(s)));
		if (bx >= 0 && bx < tp && bx < turn)
			CHECK(u == x, "an angle in the range is left alone");
		if (babs(bx) < pi && babs(bx) < turn / 2)
			CHECK(s == x, "an angle in the signed range is left alone");
		// same angle
		const big slack = 4 * ulp_at<T>(bmax(babs(bx), 4));
		auto same		= [&](big r)
		{
			const big d = BIG(fmod, babs(bx - r), turn);
			return d <= slack || turn - d <= slack;
		};
		if (slack < 1)
		{
			CHECK(same(wide(u)), "normalize_angle(" << sh(bx) << ") gave a different angle, " << sh(wide(u)));
			CHECK(same(wide(s)), "normalize_angle_signed(" << sh(bx) << ") gave a different angle, " << sh(wide(s)));
		}
	}
	template <typename T>
	void angle_of(pbt::Case& c)
	{
		T x;
		switch (c.u(0, 3))
		{
			case 0: x = gen<T>(c, -6, 6); break;
			case 1: x = gen<T>(c, fp<T>::emin, fp<T>::emax - 2); break;
			case 2: // next to a multiple of half a turn
			{
				const big k = big(c.i(-9, 9)) * wide(muu::constants<T>::pi);
				x			= make<T>(k + big(c.i(-4, 4)) * ulp_at<T>(k));
				break;
			}
			default: // next to many turns
			{
				const big k = big(c.i(-1000, 1000)) * two_pi_r<T>();
				x			= make<T>(k + big(c.i(-4, 4)) * ulp_at<T>(k));
				break;
			}
		}
		c.nontrivial(wide(x) < -3 || wide(x) > 6);
		c.cls(wide(x) < 0 && wide(x) > -1e-6, "tiny negative");
		check_angle<T>(c, x);
	}
	PROP_T("angle float", 6000, 200000, (angle_of<float>));
	PROP_T("angle double", 6000, 200000, (angle_of<double>));
	PROP_T("angle long double", 4000, 100000, (angle_of<long double>));
#if MUU_HAS_FLOAT128
	PROP_T("angle float128", 2000, 40000, (angle_of<__float128>));
#endif
	PROP(angle_half, 256, 256)
	{
		c.nontrivial(true);
		for (unsigned lo = 0; lo < 256; lo++)
		{
			const half h = half::from_bits(static_cast<uint16_t>((c.index & 255u) << 8 | lo));
			if (muu::infinity_or_nan(h))
				continue;
			check_angle<half>(c, h);
#if MUU_HAS_FLOAT16
			_Float16 f;
			std::memcpy(static_cast<void*>(&f), &h, 2);
			check_angle<_Float16>(c, f);
#endif
		}
	}
	PROP(angle_int, 1000, 20000)
	{
		const int64_t i = c.b() ? c.i(-50, 50) : c.integer<int32_t>();
		c.nontrivial(i != 0);
		NOTE("angle " << i);
		CHECK(muu::normalize_angle(i) == muu::normalize_angle(static_cast<double>(i)), "integer angle");
		CHECK(muu::normalize_angle_signed(static_cast<int>(i)) == muu::normalize_angle_signed(static_cast<double>(i)), "integer angle");
		CHECK(muu::normalize_angle(static_cast<uint8_t>(i)) == muu::normalize_angle(static_cast<double>(static_cast<uint8_t>(i))), "small integer angle");
		static_assert(std::is_same_v<decltype(muu::normalize_angle(1u)), double>);
	}

	// ------------------------------------------------ constant evaluation
	constexpr size_t N = 64;
	template <typename T>
	struct ce_row
	{
		T x, y, a, lerp, ang, sang;
		bool eq;
	};
	template <typename T>
	constexpr auto table(uint64_t salt)
	{
		arr<ce_row<T>, N> r{};
		crng g{ VERIF_SEED * 1000003ull + salt };
		for (size_t i = 0; i < N; i++)
		{
			auto& o = r.v[i];
			o.x		= make<T>((big(g.next() >> 11) / p2(53) * 2 - 1) * (i % 2 ? 8 : 400));
			o.y		= i % 3 ? make<T>(wide(o.x) + (big(g.next() >> 11) / p2(53) * 2 - 1) * wide(muu::default_epsilon<T>) * big(1.5)) : make<T>((big(g.next() >> 11) / p2(53) * 2 - 1) * 100);
			o.a		= i % 8 == 0 ? make<T>(0) : i % 8 == 1 ? make<T>(1) : make<T>(big(g.next() >> 11) / p2(53));
			o.lerp	= muu::lerp(o.x, o.y, o.a);
			o.ang	= muu::normalize_angle(o.x);
			o.sang	= muu::normalize_angle_signed(o.x);
			o.eq	= muu::approx_equal(o.x, o.y);
		}
		return r;
	}
	template <typename T, uint64_t Salt>
	void consteval_of(pbt::Case& c)
	{
		static constexpr auto t = table<T>(Salt);
		const auto& o			= t.v[c.index % N];
		NOTE("constant " << tname<T>() << " " << sh(wide(o.x)) << ", " << sh(wide(o.y)) << ", " << sh(wide(o.a)));
		c.nontrivial(o.x != o.y);
		const big mag = bmax(babs(wide(o.x)), babs(wide(o.y)));
		NEAR(T, o.lerp, wide(o.x) * (1 - wide(o.a)) + wide(o.y) * wide(o.a), 3 * ulp_at<T>(mag), "constant-evaluated lerp");
		NEAR(T, o.ang, wide(muu::normalize_angle(o.x)), 4 * ulp_at<T>(bmax(babs(wide(o.x)), 4)), "constant-evaluated normalize_angle");
		NEAR(T, o.sang, wide(muu::normalize_angle_signed(o.x)), 4 * ulp_at<T>(bmax(babs(wide(o.x)), 4)), "constant-evaluated normalize_angle_signed");
		CHECK_EQ(o.eq, muu::approx_equal(o.x, o.y), "constant-evaluated approx_equal");
	}
	PROP_T("consteval float", 64, 64, (consteval_of<float, 1>));
	PROP_T("consteval double", 64, 64, (consteval_of<double, 2>));
	PROP_T("consteval long double", 64, 64, (consteval_of<long double, 3>));
#if MUU_HAS_FLOAT16
	PROP_T("consteval _Float16", 64, 64, (consteval_of<_Float16, 4>));
#endif

	// ------------------------------------------------ integer helpers
	u128 g2(u128 a, u128 b)
	{
		while (b)
		{
			const u128 t = a % b;
			a			 = b;
			b			 = t;
		}
		return a;
	}
	u128 l2(u128 a, u128 b) { return a && b ? a / g2(a, b) * b : 0; }
	template <typename T>
	u128 mag(T x) { return x < T{} ? static_cast<u128>(-static_cast<i128>(x)) : static_cast<u128>(x); }

	template <typename... T>
	void lcm_gcd(pbt::Case& c, T... v)
	{
		u128 g = 0, l = 1;
		(void)std::initializer_list<int>{ (g = g2(g, mag(v)), l = l2(l, mag(v)), 0)... };
		std::ostringstream o;
		(void)std::initializer_list<int>{ (o << ' ' << pbt::show(static_cast<i128>(v)), 0)... };
		NOTE("lcm/gcd of" << o.str());
		c.nontrivial(g > 1 || l > 1);
		using R = std::common_type_t<T...>;
		static_assert(std::is_same_v<decltype(muu::gcd(v...)), R> && std::is_same_v<decltype(muu::lcm(v...)), R>);
		CHECK_EQ(static_cast<u128>(muu::gcd(v...)), g, "gcd");
		if (l <= static_cast<u128>(std::numeric_limits<R>::max()))
			CHECK_EQ(static_cast<u128>(muu::lcm(v...)), l, "lcm");
	}
	template <typename T>
	T fac(pbt::Case& c, bool neg)
	{
		static const int small[] = { 2, 2, 2, 3, 3, 5, 7, 11 };
		int64_t r				 = 1;
		for (int n = static_cast<int>(c.u(0, 5)); n; n--)
		{
			const int64_t q = r * small[c.below(8)];
			if (q > static_cast<int64_t>(std::numeric_limits<T>::max()) || q > 100000)
				break;
			r = q;
		}
		if (c.chance(1, 20))
			r = 0;
		if (c.chance(1, 6))
			r = static_cast<int64_t>(c.u(0, 120));
		return static_cast<T>(neg && std::is_signed_v<T> && c.chance(1, 4) ? -r : r);
	}
	PROP(lcm_and_gcd, 6000, 200000)
	{
		auto n = [&](auto t) { return fac<decltype(t)>(c, true); };
		switch (c.u(0, 8))
		{
			case 0: lcm_gcd(c, n(int{}), n(int{})); break;
			case 1: lcm_gcd(c, n(int64_t{}), n(int64_t{}), n(int64_t{})); break;
			case 2: lcm_gcd(c, n(int64_t{}), n(int64_t{}), n(int64_t{}), n(int64_t{})); break;
			case 3: lcm_gcd(c, n(uint64_t{}), n(uint64_t{}), n(uint64_t{}), n(uint64_t{}), n(uint64_t{})); break;
			case 4: lcm_gcd(c, n(int64_t{}), n(int64_t{}), n(int64_t{}), n(int64_t{}), n(int64_t{}), n(int64_t{})); break;
			case 5: lcm_gcd(c, n(uint8_t{}), n(int16_t{}), n(int64_t{})); break;
			case 6: lcm_gcd(c, n(uint8_t{}), n(uint8_t{}), n(int64_t{})); break;
			case 7: lcm_gcd(c, n(int64_t{}), n(uint8_t{}), n(uint8_t{}), n(uint8_t{})); break;
			default: lcm_gcd(c, n(int8_t{}), n(int8_t{}), n(int8_t{}), n(int16_t{}), n(int64_t{}), n(int{}), n(int16_t{})); break;
		}
	}

	template <typename T>
	void dist(pbt::Case& c)
	{
		const T total = c.integer<T>(), count = static_cast<T>(c.u(1, std::numeric_limits<T>::max() > 200 ? 200 : static_cast<uint64_t>(std::numeric_limits<T>::max())));
		NOTE("distribute " << pbt::show(total) << " over " << pbt::show(count));
		c.nontrivial(total % count != 0);
		u128 sum = 0;
		T prev{};
		for (T i = 0; i < count; i++)
		{
			const T v = muu::evenly_distribute(total, count, i);
			CHECK(v == static_cast<T>(total / count) || v == static_cast<T>(total / count + 1), "the parts differ by at most one");
			CHECK(i == 0 || v <= prev, "the first buckets take the remainder");
			prev = v;
			sum += v;
		}
		CHECK_EQ(sum, static_cast<u128>(total), "the parts sum to the total");
		const T big_count = c.integer<T>();
		if (big_count)
		{
			const T i = static_cast<T>(c.integer<T>() % big_count);
			CHECK_EQ(static_cast<u128>(muu::evenly_distribute(total, big_count, i)), static_cast<u128>(total / big_count) + (i < total % big_count), "a part of " << pbt::show(big_count));
		}
	}
	PROP_T("evenly_distribute 8", 1000, 20000, (dist<uint8_t>));
	PROP_T("evenly_distribute 16", 1000, 20000, (dist<uint16_t>));
	PROP_T("evenly_distribute 32", 1000, 20000, (dist<uint32_t>));
	PROP_T("evenly_distribute 64", 1000, 20000, (dist<uint64_t>));

	template <typename T, typename... V>
	void mm(pbt::Case& c, const T& a, const V&... v)
	{
		const T all[]{ a, v... };
		T lo = all[0], hi = all[0];
		for (const T& x : all)
		{
			if (x < lo)
				lo = x;
			if (hi < x)
				hi = x;
		}
		const T& l = muu::min(a, v...);
		const T& h = muu::max(a, v...);
		CHECK(l == lo, "min of " << sizeof...(v) + 1);
		CHECK(h == hi, "max of " << sizeof...(v) + 1);
		const T* addr[]{ &a, &v... };
		bool fl = false, fh = false;
		for (auto* p : addr)
		{
			fl |= p == &l;
			fh |= p == &h;
		}
		CHECK(fl && fh, "min and max return one of their arguments");
	}
	template <typename T>
	void min_max(pbt::Case& c)
	{
		T v[7];
		const bool small = c.b();
		std::ostringstream o;
		for (auto& x : v)
		{
			if constexpr (std::is_same_v<T, std::string>)
				x = std::string(c.u(0, 3), static_cast<char>('a' + c.below(3)));
			else if constexpr (std::is_floating_point_v<T>)
				x = static_cast<T>(small ? c.i(-3, 3) : c.i(-3000, 3000)) / T(4);
			else
				x = small ? static_cast<T>(c.u(0, 4)) : c.integer<T>();
			o << pbt::show(x) << ' ';
		}
		NOTE(o.str());
		c.nontrivial(!(v[0] == v[1]));
		mm(c, v[0], v[1]);
		mm(c, v[0], v[1], v[2]);
		mm(c, v[0], v[1], v[2], v[3]);
		mm(c, v[0], v[1], v[2], v[3], v[4]);
		mm(c, v[0], v[1], v[2], v[3], v[4], v[5]);
		mm(c, v[0], v[1], v[2], v[3], v[4], v[5], v[6]);
		const T &lo = std::min(v[1], v[2]), &hi = std::max(v[1], v[2]);
		const T& r = muu::clamp(v[0], lo, hi);
		CHECK(r == std::clamp(v[0], lo, hi), "clamp");
		CHECK(&r == &v[0] || &r == &lo || &r == &hi, "clamp returns one of its arguments");
	}
	PROP_T("min max int", 2000, 40000, (min_max<int>));
	PROP_T("min max uint8", 2000, 40000, (min_max<uint8_t>));
	PROP_T("min max int64", 2000, 40000, (min_max<int64_t>));
	PROP_T("min max float", 2000, 40000, (min_max<float>));
	PROP_T("min max string", 1000, 20000, (min_max<std::string>));
}
