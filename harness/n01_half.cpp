// N01: muu::half against an independent model of IEEE binary16
#include <muu/core.h>
#include "common.hpp"
#include <muu/half.h>
#include <cmath>
#include <cstring>
#include <limits>
#include <sstream>

namespace
{
	using muu::half;
	static_assert(sizeof(half) == 2 && std::is_trivially_copyable_v<half> && std::is_standard_layout_v<half>);

	uint16_t bits_of(half h)
	{
		uint16_t b;
		std::memcpy(&b, &h, 2);
		return b;
	}
	constexpr half H(uint32_t b)
	{
		return half::from_bits(static_cast<uint16_t>(b));
	}
	bool nan_bits(uint32_t b)
	{
		return (b & 0x7FFFu) > 0x7C00u;
	}

	// ---- the model: value of a bit pattern, and rounding of any real to the nearest bit pattern
	double value(uint32_t b)
	{
		const int e		= (b >> 10) & 31;
		const int m		= b & 1023;
		const double mg = e == 31 ? (m ? std::numeric_limits<double>::quiet_NaN() : std::numeric_limits<double>::infinity())
						  : e	  ? std::ldexp(1024 + m, e - 25)
								  : std::ldexp(m, -24);
		return (b & 0x8000u) ? -mg : mg;
	}

	template <typename F>
	F pow2(int e)
	{
		F r = 1;
		for (; e > 0; e--)
			r *= 2;
		for (; e < 0; e++)
			r /= 2;
		return r;
	}

	template <typename F>
	uint16_t nearest(F x)
	{
		if (!(x == x))
			return 0x7E00;
		bool neg = x < 0;
		if (x == 0)
			neg = 1 / x < 0;
		const F a			= neg ? -x : x;
		const uint16_t sign = neg ? 0x8000 : 0;
		if (a >= F(65520))
			return sign | 0x7C00;
		if (a < pow2<F>(-26))
			return sign;
		int e = -14; // exponent of the binade, clamped to the subnormal one
		while (a >= pow2<F>(e + 1))
			e++;
		const F units = a * pow2<F>(10 - e); // exact
		uint32_t n	  = static_cast<uint32_t>(units);
		const F rem	  = units - static_cast<F>(n);
		if (rem > F(0.5) || (rem == F(0.5) && (n & 1)))
			n++;
		// n units of 2^(e-10); a carry to 2048 moves to the next binade by itself
		return static_cast<uint16_t>(sign | (n < 1024 ? n : (static_cast<uint32_t>(e + 15) << 10) + n - 1024));
	}

	// the type through which the library documents conversions to pass
	template <typename F>
#ifdef EMULATED
	float via(F x)
	{
		return static_cast<float>(x);
	}
#else
	F via(F x)
	{
		return x;
	}
#endif

	bool same(half got, uint16_t want)
	{
		const auto g = bits_of(got);
		return nan_bits(want) ? nan_bits(g) : g == want;
	}
	std::string hx(uint32_t b)
	{
		std::ostringstream o;
		o << "0x" << std::hex << b << std::dec << " (" << value(b) << ")";
		return o.str();
	}

#define SAME(got, want, what)                                                                                          \
	do                                                                                                                 \
	{                                                                                                                  \
		const half g_	 = (got);                                                                                      \
		const uint16_t w_ = (want);                                                                                    \
		CHECK(same(g_, w_), what << " gave " << hx(bits_of(g_)) << ", expected " << hx(w_));                           \
	}                                                                                                                  \
	while (0)

	template <typename I>
	void to_int(double v, half h, uint32_t b)
	{
		if (!(v > static_cast<double>(std::numeric_limits<I>::min()) - 1 && v < static_cast<double>(std::numeric_limits<I>::max()) + 1))
			return;
		CHECK(static_cast<I>(h) == static_cast<I>(v), "conversion of " << hx(b) << " to a " << sizeof(I) << "-byte integer");
	}

	uint32_t gen_bits(pbt::Case& c)
	{
		static const uint16_t corner[] = { 0, 1, 2, 0x3FF, 0x400, 0x401, 0x7FF, 0x3BFF, 0x3C00, 0x3C01, 0x7BFE, 0x7BFF, 0x7C00, 0x7C01, 0x7E00, 0x7FFF, 0x6400, 0x6800, 0x4248, 0x3800 };
		uint32_t b;
		switch (c.u(0, 3))
		{
			case 0: b = corner[c.below(std::size(corner))]; break;
			case 1: b = 0x3C00 + static_cast<uint32_t>(c.u(0, 0x1400)) - 0xA00; break; // around one
			default: b = static_cast<uint32_t>(c.u(0, 0x7FFF)); break;
		}
		return b | (c.b() ? 0x8000u : 0u);
	}
	template <typename F>
	F gen_float(pbt::Case& c)
	{
		F x;
		switch (c.u(0, 3))
		{
			case 0: // a half, or near one
			case 1: // near the midpoint of two halves
			{
				const uint32_t b = static_cast<uint32_t>(c.u(0, 0x7BFF));
				const F v		 = static_cast<F>(value(b));
				const F n		 = b == 0x7BFF ? F(65536) : static_cast<F>(value(b + 1));
				x				 = c.b() ? v : (v + n) / 2;
				for (uint64_t k = c.u(0, 3); k--;)
					x = std::nextafter(x, F(1e9));
				for (uint64_t k = c.u(0, 3); k--;)
					x = std::nextafter(x, F(-1e9));
				break;
			}
			case 2: x = static_cast<F>(std::ldexp(1.0 + static_cast<double>(c.u(0, 0xFFFFFFFF)) / 4294967296.0, static_cast<int>(c.u(0, 60)) - 40)); break;
			default:
			{
				const int mx = std::numeric_limits<F>::max_exponent - 2;
				x = static_cast<F>(std::ldexp(F(1) + static_cast<F>(c.u(0, 0xFFFFFF)) / F(16777216), static_cast<int>(c.u(0, 2 * static_cast<uint64_t>(mx))) - mx));
				if (c.chance(1, 20))
					x = std::numeric_limits<F>::infinity();
				else if (c.chance(1, 20))
					x = std::numeric_limits<F>::quiet_NaN();
				else if (c.chance(1, 20))
					x = 0;
				break;
			}
		}
		return c.b() ? -x : x;
	}

	template <typename I, typename... Is>
	void ints_from(pbt::Case& c)
	{
		I i = c.integer<I>();
		if (c.b()) // around the edges of what half can hold
		{
			static const int edge[] = { 2047, 2048, 2049, 2051, 4097, 4098, 4099, 8188, 32767, 32784, 65503, 65504, 65519, 65520, 65521, 65535 };
			int e = edge[c.below(std::size(edge))] + static_cast<int>(c.u(0, 2)) - 1;
			if (std::is_signed_v<I> && c.b())
				e = -e;
			i = static_cast<I>(e);
		}
		NOTE("integer " << pbt::show(static_cast<i128>(i)) << " of " << sizeof(I) << " bytes");
		SAME(half{ i }, nearest(static_cast<float>(i)), "half from integer");
		const uint32_t b = gen_bits(c);
		const half h	 = H(b);
		const float f = static_cast<float>(value(b)), fi = static_cast<float>(i);
		c.nontrivial(!nan_bits(b) && i != I{});
		SAME(h + i, nearest(f + fi), hx(b) << " + integer");
		SAME(h - i, nearest(f - fi), hx(b) << " - integer");
		SAME(h * i, nearest(f * fi), hx(b) << " * integer");
		SAME(h / i, nearest(f / fi), hx(b) << " / integer");
		SAME(i + h, nearest(fi + f), "integer + " << hx(b));
		SAME(i - h, nearest(fi - f), "integer - " << hx(b));
		SAME(i * h, nearest(fi * f), "integer * " << hx(b));
		SAME(i / h, nearest(fi / f), "integer / " << hx(b));
		half k = h;
		k += i;
		SAME(k, nearest(f + fi), hx(b) << " += integer");
		k = h;
		k -= i;
		SAME(k, nearest(f - fi), hx(b) << " -= integer");
		k = h;
		k *= i;
		SAME(k, nearest(f * fi), hx(b) << " *= integer");
		k = h;
		SAME((k /= i), nearest(f / fi), hx(b) << " /= integer");
		CHECK(&(k += i) == &k, "compound assignment returns its operand");
#define CMP(op)                                                                                                        \
	CHECK((h op i) == (f op fi), hx(b) << " " #op " integer");                                                         \
	CHECK((i op h) == (fi op f), "integer " #op " " << hx(b))
		CMP(==);
		CMP(!=);
		CMP(<);
		CMP(<=);
		CMP(>);
		CMP(>=);
		if constexpr (sizeof...(Is) > 0)
			ints_from<Is...>(c);
	}

	template <typename F>
	void mixed(pbt::Case& c)
	{
		const F x		 = gen_float<F>(c);
		const uint32_t b = gen_bits(c);
		const half h	 = H(b);
		const F v		 = static_cast<F>(value(b));
		NOTE("half " << hx(b) << " and " << sizeof(F) << "-byte float " << static_cast<long double>(x));
		SAME(half{ x }, nearest(via(x)), "half from floating-point");
		c.nontrivial(x == x && v == v && x != 0);
		c.cls(std::abs(x) >= F(65520) && x - x == 0, "rounds to infinity");
		c.cls(std::abs(x) < F(6.2e-5) && x != 0, "subnormal or underflow");
		static_assert(std::is_same_v<decltype(h + x), F> && std::is_same_v<decltype(x / h), F>);
		auto eq = [](F p, F q) { return (p == q && std::signbit(p) == std::signbit(q)) || (p != p && q != q); };
		CHECK(eq(h + x, v + x) && eq(h - x, v - x) && eq(h * x, v * x) && eq(h / x, v / x), "half op floating-point " << hx(b) << ", " << static_cast<long double>(x));
		CHECK(eq(x + h, x + v) && eq(x - h, x - v) && eq(x * h, x * v) && eq(x / h, x / v), "floating-point op half " << hx(b) << ", " << static_cast<long double>(x));
		half k = h;
		k += x;
		SAME(k, nearest(via(v + x)), "+=");
		k = h;
		k -= x;
		SAME(k, nearest(via(v - x)), "-=");
		k = h;
		k *= x;
		SAME(k, nearest(via(v * x)), "*=");
		k = h;
		k /= x;
		SAME(k, nearest(via(v / x)), "/=");
		F i = static_cast<F>(v), xx = x;
#undef CMP
#define CMP(op)                                                                                                        \
	CHECK((h op xx) == (i op xx), hx(b) << " " #op " " << static_cast<long double>(xx));                               \
	CHECK((xx op h) == (xx op i), static_cast<long double>(xx) << " " #op " " << hx(b))
		for (int r = 0; r < 2; r++)
		{
			CMP(==);
			CMP(!=);
			CMP(<);
			CMP(<=);
			CMP(>);
			CMP(>=);
			xx = i; // the same value
		}
	}
}

// every bit pattern
PROP(every_half, 64, 64)
{
	for (uint32_t b = static_cast<uint32_t>(c.index) * 1024; b < (static_cast<uint32_t>(c.index) + 1) * 1024; b++)
	{
		const half h   = H(b);
		const double v = value(b);
		const float f  = static_cast<float>(v);
		CHECK_EQ(bits_of(h), b, "from_bits");
		auto eq = [&](auto x) { return v != v ? x != x : static_cast<double>(x) == v && (v != 0 || (1 / x < 0) == (b >= 0x8000)); };
		CHECK(eq(static_cast<float>(h)) && eq(static_cast<double>(h)) && eq(static_cast<long double>(h)), "widening " << hx(b));
#if MUU_HAS_FLOAT128
		CHECK(eq(static_cast<muu::float128_t>(h)), "widening to 128 bits " << hx(b));
		SAME(half{ static_cast<muu::float128_t>(v) }, static_cast<uint16_t>(b), "round trip through 128 bits");
#endif
#if MUU_HAS_FLOAT16
		CHECK(eq(static_cast<_Float16>(h)), "_Float16 " << hx(b));
		SAME(half{ static_cast<_Float16>(h) }, static_cast<uint16_t>(b), "round trip through _Float16");
#endif
		SAME(half{ f }, static_cast<uint16_t>(b), "round trip through float");
		SAME(half{ v }, static_cast<uint16_t>(b), "round trip through double");
		SAME(half{ static_cast<long double>(v) }, static_cast<uint16_t>(b), "round trip through long double");
		CHECK_EQ(static_cast<bool>(h), v != 0, "bool of " << hx(b));
		CHECK_EQ(muu::infinity_or_nan(h), (b & 0x7C00) == 0x7C00, "infinity_or_nan of " << hx(b));
		to_int<char>(v, h, b);
		to_int<signed char>(v, h, b);
		to_int<unsigned char>(v, h, b);
		to_int<short>(v, h, b);
		to_int<unsigned short>(v, h, b);
		to_int<int>(v, h, b);
		to_int<unsigned>(v, h, b);
		to_int<long>(v, h, b);
		to_int<unsigned long>(v, h, b);
		to_int<long long>(v, h, b);
		to_int<unsigned long long>(v, h, b);
		if ((b & 0x7C00) != 0x7C00)
		{
			CHECK(static_cast<i128>(h) == static_cast<i128>(v), "to int128 " << hx(b));
			if (v > -1)
				CHECK(static_cast<u128>(h) == static_cast<u128>(v), "to uint128 " << hx(b));
		}

		// sign operations
		SAME(+h, static_cast<uint16_t>(b), "unary +");
		SAME(-h, static_cast<uint16_t>(b ^ 0x8000), "unary -");
		SAME(muu::abs(h), static_cast<uint16_t>(b & 0x7FFF), "abs of " << hx(b));

		// increments
		half k = h;
		SAME(++k, nearest(v + 1), "pre-increment of " << hx(b));
		SAME(k, nearest(v + 1), "pre-incremented " << hx(b));
		k = h;
		SAME(k++, static_cast<uint16_t>(b), "post-increment result");
		SAME(k, nearest(v + 1), "post-incremented " << hx(b));
		k = h;
		SAME(--k, nearest(v - 1), "pre-decrement of " << hx(b));
		SAME(k, nearest(v - 1), "pre-decremented " << hx(b));
		k = h;
		SAME(k--, static_cast<uint16_t>(b), "post-decrement result");
		SAME(k, nearest(v - 1), "post-decremented " << hx(b));

		// functions: the float function, rounded
		if (v - v == 0)
		{
			auto zs = [](half a, double r) { return static_cast<double>(a) == r; }; // (the sign of zero is free)
			CHECK(zs(muu::floor(h), std::floor(v)), "floor of " << hx(b) << " gave " << hx(bits_of(muu::floor(h))));
			CHECK(zs(muu::ceil(h), std::ceil(v)), "ceil of " << hx(b) << " gave " << hx(bits_of(muu::ceil(h))));
			if (v >= 0)
				SAME(muu::sqrt(h), nearest(std::sqrt(v)), "sqrt of " << hx(b));
			SAME(muu::sin(h), nearest(std::sin(f)), "sin of " << hx(b));
			SAME(muu::cos(h), nearest(std::cos(f)), "cos of " << hx(b));
			SAME(muu::tan(h), nearest(std::tan(f)), "tan of " << hx(b));
			SAME(muu::atan(h), nearest(std::atan(f)), "atan of " << hx(b));
			if (std::abs(v) <= 1)
			{
				SAME(muu::asin(h), nearest(std::asin(f)), "asin of " << hx(b));
				SAME(muu::acos(h), nearest(std::acos(f)), "acos of " << hx(b));
			}
			// text
			std::stringstream o;
			o << h;
			half back{ 7 };
			o >> back;
			SAME(back, static_cast<uint16_t>(b), "text round trip of " << hx(b) << " (" << o.str() << ")");
			std::wstringstream w;
			w << h;
			half wback{ 7 };
			w >> wback;
			SAME(wback, static_cast<uint16_t>(b), "wide text round trip of " << hx(b));
		}
	}
	c.enumerated(1024 * 40, 1024);
	c.nontrivial(true);
}

// every rounding boundary, from either side
PROP(every_boundary, 32, 32)
{
	for (uint32_t b = static_cast<uint32_t>(c.index) * 1024; b < (static_cast<uint32_t>(c.index) + 1) * 1024; b++)
	{
		if (b >= 0x7C00)
			break;
		const double v = value(b), n = b == 0x7BFF ? 65536 : value(b + 1), m = (v + n) / 2;
		const uint16_t tie = static_cast<uint16_t>((b & 1) ? b + 1 : b);
		for (int neg = 0; neg < 2; neg++)
		{
			const double s	  = neg ? -1 : 1;
			const uint16_t sg = neg ? 0x8000 : 0;
			auto one		  = [&](auto mid)
			{
				using F		  = decltype(mid);
				const F lower = std::nextafter(mid, F(0)), upper = std::nextafter(mid, F(s * 1e9));
				SAME(half{ mid }, tie | sg, "tie " << static_cast<double>(mid));
				// (through float, anything closer than float's precision is a tie)
				SAME(half{ lower }, via(lower) == via(mid) ? (tie | sg) : (b | sg), "just inside the midpoint " << static_cast<double>(mid));
				SAME(half{ upper }, via(upper) == via(mid) ? (tie | sg) : ((b + 1) | sg), "just outside the midpoint " << static_cast<double>(mid));
			};
			one(static_cast<float>(s * m));
			one(s * m);
			one(static_cast<long double>(s * m));
			for (double q : { 0.25, 0.75 })
			{
				const double x = v + (n - v) * q;
				SAME(half{ static_cast<float>(s * x) }, (q < 0.5 ? b : b + 1) | sg, "nearest of " << s * x);
				SAME(half{ s * x }, (q < 0.5 ? b : b + 1) | sg, "nearest of " << s * x);
			}
		}
	}
	c.enumerated(1024 * 26, 1024);
	c.nontrivial(true);
}

// every float (thorough: all of them; quick: a seed-dependent sample of each block)
PROP(all_floats, 256, 4096)
{
	const uint64_t block = 4294967296ull / (pbt::thorough() ? 4096 : 256);
	uint64_t step		 = pbt::thorough() ? 1 : 601;
	const uint64_t base	 = c.index * block;
	uint64_t n			 = 0;
#if defined(__SANITIZE_ADDRESS__)
	step = pbt::thorough() ? 67 : 5003;
#endif
	for (uint64_t i = step == 1 ? 0 : c.u(0, step - 1); i < block; i += step)
	{
		const uint32_t u = static_cast<uint32_t>(base + i);
		float f;
		std::memcpy(&f, &u, 4);
		const half h = half{ f };
		const uint16_t g = bits_of(h);
		n++;
		// cheap, independent acceptance test: no neighbour is closer, ties are even
		const uint32_t a = u & 0x7FFFFFFF;
		bool ok;
		if (a > 0x7F800000u)
			ok = nan_bits(g);
		else
		{
			const double x = std::abs(static_cast<double>(f));
			ok			   = (g >> 15) == (u >> 31) && !nan_bits(g);
			const uint32_t m = g & 0x7FFF;
			if (ok && m == 0x7C00)
				ok = x >= 65520;
			else if (ok)
			{
				const double v	= value(m);
				const double up = m == 0x7BFF ? 65536 : value(m + 1);
				const double hi = (v + up) / 2, lo = m ? (v + value(m - 1)) / 2 : -1;
				ok = x <= hi && x >= lo && !(x == hi && (m & 1)) && !(x == lo && (m & 1));
			}
		}
		CHECK(ok, "float bits 0x" << std::hex << u << std::dec << " (" << f << ") converted to " << hx(g));
	}
	c.enumerated(n, n);
	c.nontrivial(true);
}

PROP(pairs, 60000, 3000000)
{
	const uint32_t a = gen_bits(c);
	uint32_t b		 = gen_bits(c);
	if (c.chance(1, 4))
		b = (a & 0x8000) | ((a + static_cast<uint32_t>(c.u(0, 4)) - 2) & 0x7FFF);
	if (c.chance(1, 16))
		b = a ^ 0x8000;
	const half x = H(a), y = H(b);
	const double p = value(a), q = value(b);
	const float fp = static_cast<float>(p), fq = static_cast<float>(q);
	NOTE("halves " << hx(a) << " and " << hx(b));
	c.nontrivial(p == p && q == q && p != 0 && q != 0);
	c.cls(nan_bits(a) || nan_bits(b), "NaN");
	c.cls(std::abs(p) < 6.2e-5 && p != 0, "subnormal");
	static_assert(std::is_same_v<decltype(x + y), half>);
	SAME(x + y, nearest(p + q), hx(a) << " + " << hx(b));
	SAME(x - y, nearest(p - q), hx(a) << " - " << hx(b));
	SAME(x * y, nearest(p * q), hx(a) << " * " << hx(b));
	SAME(x / y, nearest(p / q), hx(a) << " / " << hx(b));
	half k = x;
	CHECK(&(k += y) == &k, "+= returns its operand");
	SAME(k, nearest(p + q), hx(a) << " += " << hx(b));
	k = x;
	k -= y;
	SAME(k, nearest(p - q), hx(a) << " -= " << hx(b));
	k = x;
	k *= y;
	SAME(k, nearest(p * q), hx(a) << " *= " << hx(b));
	k = x;
	k /= y;
	SAME(k, nearest(p / q), hx(a) << " /= " << hx(b));
#undef CMP
#define CMP(op) CHECK((x op y) == (p op q), hx(a) << " " #op " " << hx(b))
	CMP(==);
	CMP(!=);
	CMP(<);
	CMP(<=);
	CMP(>);
	CMP(>=);
	if (p - p == 0 && q - q == 0)
	{
		SAME(muu::atan2(x, y), nearest(std::atan2(fp, fq)), "atan2(" << hx(a) << ", " << hx(b) << ")");
		const uint32_t t = gen_bits(c);
		const double al	 = value(t);
		if (al >= 0 && al <= 1)
		{
			// within a unit in the last place of the larger end of the exact value
			const double want = p + (q - p) * al, got = static_cast<double>(muu::lerp(x, y, H(t)));
			const double tol  = std::max(std::abs(p), std::abs(q)) / 1024 + 6e-8;
			CHECK(std::abs(want - got) <= tol, "lerp(" << hx(a) << ", " << hx(b) << ", " << hx(t) << ") gave " << got << ", expected " << want);
		}
		const half eps = muu::abs(H(t));
		if (!nan_bits(t))
		{
			// float arithmetic decides, unless it cannot tell
			const double d = std::abs(q - p), e = std::abs(al);
			if (std::abs(d - e) > 1e-6 * (std::abs(p) + std::abs(q)))
			{
				CHECK_EQ(muu::approx_equal(x, y, eps), d < e, "approx_equal(" << hx(a) << ", " << hx(b) << ", " << hx(t) << ")");
			}
			if (std::abs(p) != e)
				CHECK_EQ(muu::approx_zero(x, eps), std::abs(p) < e, "approx_zero(" << hx(a) << ", " << hx(t) << ")");
		}
	}
}

PROP(integers, 15000, 600000)
{
	ints_from<char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, i128, u128>(c);
}
PROP_T("with_float", 30000, 1500000, (mixed<float>));
PROP_T("with_double", 30000, 1500000, (mixed<double>));
PROP_T("with_long_double", 15000, 600000, (mixed<long double>));

// limits and constants
PROP(constants, 1, 1)
{
	using L = std::numeric_limits<half>;
	static_assert(L::is_specialized && L::is_signed && !L::is_integer && !L::is_exact && L::has_infinity && L::has_quiet_NaN && L::is_iec559);
	static_assert(L::radix == 2 && L::digits == 11 && L::digits10 == 3 && L::max_digits10 == 5);
	static_assert(L::min_exponent == -13 && L::max_exponent == 16 && L::min_exponent10 == -4 && L::max_exponent10 == 4);
	CHECK_EQ(bits_of(L::min()), 0x0400, "numeric_limits::min");
	CHECK_EQ(bits_of(L::max()), 0x7BFF, "numeric_limits::max");
	CHECK_EQ(bits_of(L::lowest()), 0xFBFF, "numeric_limits::lowest");
	CHECK_EQ(bits_of(L::epsilon()), 0x1400, "numeric_limits::epsilon");
	CHECK_EQ(bits_of(L::round_error()), 0x3800, "numeric_limits::round_error");
	CHECK_EQ(bits_of(L::infinity()), 0x7C00, "numeric_limits::infinity");
	CHECK_EQ(bits_of(L::denorm_min()), 1, "numeric_limits::denorm_min");
	CHECK(nan_bits(bits_of(L::quiet_NaN())) && (bits_of(L::quiet_NaN()) & 0x200), "numeric_limits::quiet_NaN");
	CHECK(nan_bits(bits_of(L::signaling_NaN())), "numeric_limits::signaling_NaN");
	CHECK_EQ(bits_of(std::numeric_limits<const half>::max()), 0x7BFF, "const half limits");
	using K = half::constants;
	CHECK_EQ(bits_of(K::highest), 0x7BFF, "constants::highest");
	CHECK_EQ(bits_of(K::lowest), 0xFBFF, "constants::lowest");
	CHECK_EQ(bits_of(K::infinity), 0x7C00, "constants::infinity");
	CHECK_EQ(bits_of(K::negative_infinity), 0xFC00, "constants::negative_infinity");
	CHECK_EQ(bits_of(K::negative_zero), 0x8000, "constants::negative_zero");
	CHECK(nan_bits(bits_of(K::nan)), "constants::nan");
	CHECK_EQ(bits_of(K::default_epsilon), nearest(0.001), "constants::default_epsilon");
#define X(n) CHECK_EQ(bits_of(K::n), nearest(muu::constants<long double>::n), "constants<half>::" #n);
#include "n01_constants.inc"
#undef X
	// independently known values
#define KNOWN(n, x) CHECK_EQ(bits_of(K::n), nearest(static_cast<long double>(x)), "constants<half>::" #n " is " #x)
	KNOWN(zero, 0);
	KNOWN(one, 1);
	KNOWN(two, 2);
	KNOWN(three, 3);
	KNOWN(seven, 7);
	KNOWN(ten, 10);
	KNOWN(one_hundred, 100);
	KNOWN(pi, M_PIl);
	KNOWN(two_pi, 2 * M_PIl);
	KNOWN(pi_over_two, M_PI_2l);
	KNOWN(pi_over_four, M_PI_4l);
	KNOWN(pi_over_seven, M_PIl / 7);
	KNOWN(one_over_pi, M_1_PIl);
	KNOWN(three_pi_over_two, 1.5L * M_PIl);
	KNOWN(sqrt_two, M_SQRT2l);
	KNOWN(e, M_El);
	KNOWN(one_over_e, 1 / M_El);
	KNOWN(phi, (1 + std::sqrt(5.0L)) / 2);
	KNOWN(degrees_to_radians, M_PIl / 180);
	KNOWN(radians_to_degrees, 180 / M_PIl);
	using namespace muu::literals;
	SAME(1.0009765625_f16, 0x3C01, "literal");
	SAME(65504_f16, 0x7BFF, "literal");
	SAME(0.1_f16, nearest(0.1L), "literal");
	SAME(half{ true }, 0x3C00, "half(true)");
	SAME(half{ false }, 0, "half(false)");
	c.enumerated(170, 170);
	c.nontrivial(true);
	NOTE("limits and named constants");
}

// constant evaluation agrees with run time
namespace
{
	constexpr size_t NCE = 200;
	struct ce_row
	{
		uint32_t in;
		uint16_t from, sum, prod, neg;
		double widened;
		bool lt, ion;
	};
	constexpr std::array<ce_row, NCE> ce_build()
	{
		std::array<ce_row, NCE> r{};
		crng g{ 0x11 };
		for (size_t i = 0; i < NCE; i++)
		{
			uint32_t u = static_cast<uint32_t>(g.next());
			if (i & 1) // mostly in half's range
				u = (u & 0x807FFFFFu) | ((100u + (u >> 8) % 46u) << 23);
			if (i % 5 == 0) // ties
				u &= 0xFFFFF000u;
			const float f	 = __builtin_bit_cast(float, u);
			const uint16_t o = static_cast<uint16_t>(g.next() & 0xBBFF);
			const half h	 = half{ f };
			const half y	 = half::from_bits(o);
			r[i].in		 = u;
			r[i].from	 = __builtin_bit_cast(uint16_t, h);
			if ((r[i].from & 0x7C00) == 0x7C00)
				continue; // (overflowing arithmetic is not a constant expression)
			r[i].neg	 = __builtin_bit_cast(uint16_t, -h);
			r[i].sum	 = __builtin_bit_cast(uint16_t, half{ (static_cast<float>(h) + static_cast<float>(y)) / 2 });
			r[i].prod	 = __builtin_bit_cast(uint16_t, h * half{ 0.25f });
			r[i].widened = static_cast<double>(h);
			r[i].lt		 = h < y;
			r[i].ion	 = muu::infinity_or_nan(h);
		}
		return r;
	}
	constexpr auto ce_rows = ce_build();
}
PROP(constant_evaluation, 1, 1)
{
	for (auto& r : ce_rows)
	{
		float f;
		std::memcpy(&f, &r.in, 4);
		const uint16_t w = nearest(f);
		CHECK(nan_bits(w) ? nan_bits(r.from) : r.from == w, "constant-evaluated half{" << f << "} is " << hx(r.from) << ", expected " << hx(w));
		if ((w & 0x7C00) == 0x7C00)
			continue;
		CHECK_EQ(r.neg, w ^ 0x8000, "constant-evaluated negation");
		CHECK_EQ(r.prod, nearest(value(w) * 0.25), "constant-evaluated product");
		CHECK(r.widened == value(w), "constant-evaluated widening of " << hx(w));
		CHECK(!r.ion, "constant-evaluated infinity_or_nan");
	}
	c.enumerated(NCE * 5, NCE);
	c.nontrivial(true);
	NOTE(NCE << " seed-derived constant-evaluated conversions");
}
