#include "common.hpp"
#include <muu/core.h>
#include <muu/math.h>

namespace
{
	enum class eu8 : uint8_t {};
	enum class ei32 : int32_t {};
	enum class eu64 : uint64_t {};

	template <typename T>
	std::string s128(T v)
	{
		i128 x = static_cast<i128>(v);
		if (x < 0)
			return "-" + s128(-x);
		std::string r;
		do
			r.insert(r.begin(), static_cast<char>('0' + static_cast<int>(x % 10)));
		while (x /= 10);
		return r;
	}

	template <typename T, typename U>
	void between_case(pbt::Case& c)
	{
		const T v = c.integer<T>();
		U lo = c.integer<U>(), hi = c.integer<U>();
		if (c.chance(1, 3))
			lo = static_cast<U>(v);
		if (c.chance(1, 4))
			hi = static_cast<U>(v);
		const bool e = static_cast<i128>(lo) <= static_cast<i128>(v) && static_cast<i128>(v) <= static_cast<i128>(hi);
		NOTE("between(" << s128(v) << ", " << s128(lo) << ", " << s128(hi) << ") = " << e);
		c.cls(e, "inside");
		c.nontrivial(lo < hi);
		CHECK_EQ(muu::between(v, lo, hi), e, "between(" << s128(v) << ", " << s128(lo) << ", " << s128(hi) << ") sizes " << sizeof(T) << (std::is_signed_v<T> ? "s" : "u") << sizeof(U) << (std::is_signed_v<U> ? "s" : "u"));
		if constexpr (std::is_same_v<T, int32_t>)
			CHECK_EQ(muu::between(static_cast<ei32>(v), lo, hi), e, "between with an enum value");
		if constexpr (std::is_same_v<U, uint64_t>)
			CHECK_EQ(muu::between(v, static_cast<eu64>(lo), static_cast<eu64>(hi)), e, "between with enum bounds");
	}

	template <typename T>
	void minmax_case(pbt::Case& c)
	{
		T a[8];
		const size_t n = 8;
		for (auto& x : a)
			x = c.integer<T>();
		if (c.b())
			a[c.sz(0, 7)] = a[c.sz(0, 7)];
		NOTE("min/max of " << s128(a[0]) << ", " << s128(a[1]) << ", " << s128(a[2]) << ", ...");
		c.nontrivial(a[0] != a[1]);
		auto mn = [&](size_t k) { return *std::min_element(a, a + k); };
		auto mx = [&](size_t k) { return *std::max_element(a, a + k); };
#define MM(k, ...)                                                                                                    \
	CHECK_EQ(muu::min(__VA_ARGS__), mn(k), "min of " << k);                                                           \
	CHECK_EQ(muu::max(__VA_ARGS__), mx(k), "max of " << k)
		MM(2, a[0], a[1]);
		MM(3, a[0], a[1], a[2]);
		MM(4, a[0], a[1], a[2], a[3]);
		MM(5, a[0], a[1], a[2], a[3], a[4]);
		MM(6, a[0], a[1], a[2], a[3], a[4], a[5]);
		MM(7, a[0], a[1], a[2], a[3], a[4], a[5], a[6]);
		MM(8, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
#undef MM
		(void)n;
		const T lo = std::min(a[1], a[2]), hi = std::max(a[1], a[2]);
		const T cl = muu::clamp(a[0], lo, hi);
		const T e  = a[0] < lo ? lo : a[0] > hi ? hi : a[0];
		CHECK_EQ(cl, e, "clamp(" << s128(a[0]) << ", " << s128(lo) << ", " << s128(hi) << ")");
		// results are references to the chosen argument
		const T& r = muu::clamp(a[0], lo, hi);
		CHECK(&r == &lo || &r == &hi || &r == &a[0], "clamp refers to one of its arguments");
		const T& m = muu::max(a[0], a[1]);
		CHECK(&m == &a[0] || &m == &a[1], "max refers to one of its arguments");
		// among equivalent values the first is chosen, as std::min, std::max and std::clamp do
		struct keyed
		{
			T key;
			int which;
			constexpr bool operator<(const keyed& o) const noexcept { return key < o.key; }
		};
		const int keys = static_cast<int>(c.below(3)) + 1;
		keyed k[7];
		for (int i = 0; i < 7; i++)
			k[i] = { a[c.below(static_cast<uint64_t>(keys))], i };
		const auto mn_k = [&](size_t n_) { return std::min_element(k, k + n_)->which; };
		const auto mx_k = [&](size_t n_) { return std::max_element(k, k + n_)->which; };
#define MM(n_, ...)                                                                                                   \
	CHECK_EQ(muu::min(__VA_ARGS__).which, mn_k(n_), "which of " << n_ << " partly equivalent values is the minimum"); \
	CHECK_EQ(muu::max(__VA_ARGS__).which, mx_k(n_), "which of " << n_ << " partly equivalent values is the maximum")
		MM(2, k[0], k[1]);
		MM(3, k[0], k[1], k[2]);
		MM(4, k[0], k[1], k[2], k[3]);
		MM(5, k[0], k[1], k[2], k[3], k[4]);
		MM(7, k[0], k[1], k[2], k[3], k[4], k[5], k[6]);
#undef MM
		const keyed& klo = k[1] < k[2] ? k[1] : k[2];
		const keyed& khi = k[1] < k[2] ? k[2] : k[1];
		CHECK_EQ(muu::clamp(k[0], klo, khi).which, std::clamp(k[0], klo, khi).which, "which value clamp chooses");
	}

	template <typename T>
	void abs_case(pbt::Case& c)
	{
		T v = c.integer<T>();
		if constexpr (std::is_signed_v<T>)
			if (v == std::numeric_limits<T>::min())
				v = static_cast<T>(v + 1); // magnitude not representable
		const i128 e = static_cast<i128>(v) < 0 ? -static_cast<i128>(v) : static_cast<i128>(v);
		NOTE("abs(" << s128(v) << ")");
		c.nontrivial(static_cast<i128>(v) < 0 || std::is_unsigned_v<T>);
		CHECK(static_cast<i128>(muu::abs(v)) == e, "abs(" << s128(v) << ") gave " << s128(muu::abs(v)));
		CHECK(muu::floor(v) == v && muu::ceil(v) == v, "floor/ceil of an integer is itself: " << s128(v));
		CHECK(!muu::infinity_or_nan(v), "integers are finite");
		static_assert(std::is_same_v<decltype(muu::unwrap(ei32{})), int32_t>);
		CHECK_EQ(muu::unwrap(static_cast<ei32>(v)), static_cast<int32_t>(v), "unwrap enum");
		CHECK_EQ(muu::unwrap(static_cast<eu8>(v)), static_cast<uint8_t>(v), "unwrap enum");
		CHECK_EQ(muu::unwrap(v), v, "unwrap of a non-enum is the value");
	}

	i128 ref_gcd(i128 a, i128 b)
	{
		a = a < 0 ? -a : a;
		b = b < 0 ? -b : b;
		while (b)
		{
			i128 t = a % b;
			a	   = b;
			b	   = t;
		}
		return a;
	}
	i128 ref_lcm(i128 a, i128 b)
	{
		if (!a || !b)
			return 0;
		i128 g = ref_gcd(a, b);
		a	   = a < 0 ? -a : a;
		b	   = b < 0 ? -b : b;
		return a / g * b;
	}
	template <typename T, typename U>
	void gcd_case(pbt::Case& c)
	{
		using R = std::common_type_t<T, U>;
		T a[6];
		U b[6];
		const i128 lim = std::min<i128>({ static_cast<i128>(std::numeric_limits<T>::max()), static_cast<i128>(std::numeric_limits<U>::max()) });
		auto gen	   = [&](auto& x)
		{
			using X = std::remove_reference_t<decltype(x)>;
			// build from few small primes so that gcd and lcm are interesting
			i128 v = 1;
			for (unsigned k = 0, n = static_cast<unsigned>(c.raw(4)); k < n; k++)
			{
				i128 p = c.pick({ 2, 3, 5, 7, 2, 3, 11 });
				if (v * p <= lim && v * p < (i128{ 1 } << 40))
					v *= p;
			}
			if (c.chance(1, 12))
				v = 0;
			if (std::is_signed_v<X> && c.chance(1, 4))
				v = -v;
			x = static_cast<X>(v);
		};
		for (int k = 0; k < 6; k++)
		{
			gen(a[k]);
			gen(b[k]);
		}
		NOTE("gcd/lcm of " << s128(a[0]) << ", " << s128(b[0]) << ", " << s128(a[1]) << ", " << s128(b[1]));
		i128 vals[] = { a[0], b[0], a[1], b[1], a[2], b[2] };
		i128 g = 0, l = 1;
		bool lcm_ok = true;
		const i128 rmax = static_cast<i128>(std::numeric_limits<R>::max());
		auto mx2		= [&](i128 x) { return x > rmax; };
		for (int k = 0; k < 6; k++)
		{
			g = ref_gcd(g, vals[k]);
			// every partial combination must be representable
			for (int q = 0; q < k; q++)
				for (int w = q; w < k; w++)
				{
				}
			if (lcm_ok)
			{
				l = ref_lcm(l, vals[k]);
				if (mx2(l))
					lcm_ok = false;
			}
			else
				break;
			if (k == 1)
			{
				CHECK(static_cast<i128>(muu::gcd(a[0], b[0])) == g, "gcd of 2: " << s128(muu::gcd(a[0], b[0])));
				if (lcm_ok)
					CHECK(static_cast<i128>(muu::lcm(a[0], b[0])) == l, "lcm of 2: " << s128(muu::lcm(a[0], b[0])));
			}
		}
		// non-zero total lcm in range bounds every partial lcm
		i128 nz = 1;
		for (auto v : vals)
			if (v && nz <= rmax)
				nz = ref_lcm(nz, v);
		const bool all_ok = nz <= rmax;
		g				  = 0;
		l				  = 1;
		auto step		  = [&](i128 v)
		{
			g = ref_gcd(g, v);
			l = ref_lcm(l, v);
		};
		auto chk = [&](auto gv, auto lf, int n)
		{
			CHECK(static_cast<i128>(gv) == g, "gcd of " << n << " gave " << s128(gv) << " expected " << s128(g));
			if (all_ok)
			{
				auto lv = lf();
				CHECK(static_cast<i128>(lv) == l, "lcm of " << n << " gave " << s128(lv) << " expected " << s128(l));
			}
		};
		step(vals[0]);
		step(vals[1]);
		step(vals[2]);
		chk(muu::gcd(a[0], b[0], a[1]), [&] { return muu::lcm(a[0], b[0], a[1]); }, 3);
		step(vals[3]);
		chk(muu::gcd(a[0], b[0], a[1], b[1]), [&] { return muu::lcm(a[0], b[0], a[1], b[1]); }, 4);
		step(vals[4]);
		chk(muu::gcd(a[0], b[0], a[1], b[1], a[2]), [&] { return muu::lcm(a[0], b[0], a[1], b[1], a[2]); }, 5);
		step(vals[5]);
		chk(muu::gcd(a[0], b[0], a[1], b[1], a[2], b[2]), [&] { return muu::lcm(a[0], b[0], a[1], b[1], a[2], b[2]); }, 6);
		c.nontrivial(g > 1 || all_ok);
		c.cls(g > 1, "gcd > 1");
		c.cls(all_ok, "lcm representable");
	}

	template <typename T>
	void buckets_case(pbt::Case& c)
	{
		const T total	= c.integer<T>();
		const T buckets = static_cast<T>(c.u(1, std::min<uint64_t>(std::numeric_limits<T>::max(), 300)));
		NOTE("evenly_distribute(" << s128(total) << ", " << s128(buckets) << ")");
		c.nontrivial(buckets > 1 && total % buckets != 0);
		u128 sum = 0;
		T prev{}, first{};
		for (T i = 0; i < buckets; i++)
		{
			const T v = muu::evenly_distribute(total, buckets, i);
			if (i == 0)
				first = v;
			else
				CHECK(v <= prev, "bucket sizes increase at " << s128(i));
			CHECK(first - v <= 1, "bucket " << s128(i) << " has " << s128(v) << ", the first " << s128(first));
			prev = v;
			sum += v;
		}
		CHECK(sum == total, "buckets add up to " << s128(sum) << " instead of " << s128(total));
	}

	constexpr uint64_t lit_value(size_t i)
	{
		uint64_t s = VERIF_SEED * 131 + i;
		uint64_t v = pbt::splitmix(s);
		return i % 3 ? v >> (i % 64) : v;
	}
	template <size_t... I>
	void literals(pbt::Case& c, std::index_sequence<I...>)
	{
		using namespace muu::literals;
		(
			[&]
			{
				constexpr unsigned long long n = lit_value(I);
				constexpr auto a8 = muu::literals::operator""_u8(n);
				constexpr auto b8 = muu::literals::operator""_i8(n);
				constexpr auto a16 = muu::literals::operator""_u16(n);
				constexpr auto b16 = muu::literals::operator""_i16(n);
				constexpr auto a32 = muu::literals::operator""_u32(n);
				constexpr auto b32 = muu::literals::operator""_i32(n);
				constexpr auto a64 = muu::literals::operator""_u64(n);
				constexpr auto b64 = muu::literals::operator""_i64(n);
				constexpr auto a128 = muu::literals::operator""_u128(n);
				constexpr auto b128 = muu::literals::operator""_i128(n);
				constexpr auto sz = muu::literals::operator""_sz(n);
				CHECK(a8 == static_cast<uint8_t>(n) && b8 == static_cast<int8_t>(n) && a16 == static_cast<uint16_t>(n)
						  && b16 == static_cast<int16_t>(n) && a32 == static_cast<uint32_t>(n) && b32 == static_cast<int32_t>(n)
						  && a64 == n && b64 == static_cast<int64_t>(n) && a128 == n && b128 == static_cast<i128>(n) && sz == n,
					  "integer literal of " << n);
				static_assert(std::is_same_v<decltype(a8), const uint8_t> && std::is_same_v<decltype(b8), const int8_t>
							  && std::is_same_v<decltype(a16), const uint16_t> && std::is_same_v<decltype(b16), const int16_t>
							  && std::is_same_v<decltype(a32), const uint32_t> && std::is_same_v<decltype(b32), const int32_t>
							  && std::is_same_v<decltype(a64), const uint64_t> && std::is_same_v<decltype(b64), const int64_t>
							  && std::is_same_v<decltype(sz), const size_t>);
			}(),
			...);
		c.enumerated(sizeof...(I), sizeof...(I));
	}

	struct big
	{
		int a, b;
	};
	void offsets(pbt::Case& c)
	{
		alignas(16) static unsigned char buf[512];
		const auto at  = c.sz(0, 512);
		const auto to  = c.sz(0, 512);
		const auto off = static_cast<int64_t>(to) - static_cast<int64_t>(at);
		NOTE("apply_offset(base+" << at << ", " << off << ")");
		c.nontrivial(off < 0);
		auto* e = buf + to;
		CHECK(muu::apply_offset(buf + at, off) == e, "unsigned char*");
		CHECK(reinterpret_cast<unsigned char*>(muu::apply_offset(reinterpret_cast<char*>(buf) + at, static_cast<int>(off))) == e, "char*");
		CHECK(muu::apply_offset(static_cast<void*>(buf + at), off) == e, "void*");
		CHECK(muu::apply_offset(static_cast<const void*>(buf + at), static_cast<short>(off)) == e, "const void*");
		const auto a4 = at & ~size_t{ 3 }, t4 = to & ~size_t{ 3 };
		const auto o4 = static_cast<int64_t>(t4) - static_cast<int64_t>(a4);
		CHECK(reinterpret_cast<unsigned char*>(muu::apply_offset(reinterpret_cast<big*>(buf + a4), o4)) == buf + t4, "big*");
		CHECK(reinterpret_cast<unsigned char*>(const_cast<int*>(muu::apply_offset(reinterpret_cast<const int*>(buf + a4), o4))) == buf + t4, "const int*");
		CHECK(muu::to_address(buf + at) == buf + at, "to_address of a pointer");
		struct fancy
		{
			unsigned char* p;
			unsigned char* operator->() const { return p; }
		};
		CHECK(muu::to_address(fancy{ buf + at }) == buf + at, "to_address of a fancy pointer");
	}

	// constant evaluation of the same helpers
	struct ctrow
	{
		int32_t a;
		uint32_t b;
		int32_t lo, hi;
		int32_t mn, mx, cl;
		bool bt, bu;
		uint32_t ev;
	};
	constexpr arr<ctrow, 40> ct_rows()
	{
		arr<ctrow, 40> r{};
		crng g(VERIF_SEED + 5);
		for (size_t i = 0; i < 40; i++)
		{
			auto& x = r[i];
			x.a		= g.integer<int32_t>();
			x.b		= g.integer<uint32_t>();
			x.lo	= static_cast<int32_t>(g.below(2000)) - 1000;
			x.hi	= x.lo + static_cast<int32_t>(g.below(1000));
			x.mn	= muu::min(x.a, x.lo, x.hi);
			x.mx	= muu::max(x.a, x.lo, x.hi);
			x.cl	= muu::clamp(x.a, x.lo, x.hi);
			x.bt	= muu::between(x.a, x.lo, x.hi);
			x.bu	= muu::between(x.b, x.lo, x.hi);
			x.ev	= muu::evenly_distribute(x.b, 7u, 3u);
		}
		return r;
	}
} // namespace

PROP(constant_evaluation, 1, 1)
{
	static constexpr auto rows = ct_rows();
	for (auto& x : rows.v)
	{
		CHECK_EQ(x.mn, std::min({ x.a, x.lo, x.hi }), "min");
		CHECK_EQ(x.mx, std::max({ x.a, x.lo, x.hi }), "max");
		CHECK_EQ(x.cl, std::clamp(x.a, x.lo, x.hi), "clamp");
		CHECK_EQ(x.bt, x.lo <= x.a && x.a <= x.hi, "between");
		CHECK_EQ(x.bu, x.lo <= static_cast<int64_t>(x.b) && static_cast<int64_t>(x.b) <= x.hi, "between " << x.b << " " << x.lo << " " << x.hi);
		CHECK_EQ(x.ev, x.b / 7u + (3u < x.b % 7u ? 1u : 0u), "evenly_distribute");
	}
	c.enumerated(40, 40);
}
PROP(integer_literals, 1, 1)
{
	literals(c, std::make_index_sequence<64>{});
}
PROP(pointer_offsets, 20000, 200000)
{
	offsets(c);
}
#define BT(T, U) PROP_T("between " #T " " #U, 20000, 500000, (between_case<T, U>))
BT(int8_t, uint8_t);
BT(uint8_t, int8_t);
BT(uint8_t, int32_t);
BT(int8_t, uint64_t);
BT(int32_t, uint32_t);
BT(uint32_t, int32_t);
BT(uint32_t, int64_t);
BT(uint64_t, int8_t);
BT(uint64_t, int64_t);
BT(int64_t, uint64_t);
BT(int64_t, uint8_t);
BT(int32_t, int32_t);
BT(uint64_t, uint64_t);
BT(uint16_t, uint64_t);
#define EACH(T)                                                                                                       \
	PROP_T("min/max/clamp " #T, 12000, 300000, (minmax_case<T>));                                                      \
	PROP_T("abs " #T, 12000, 300000, (abs_case<T>));
EACH(int8_t)
EACH(int16_t)
EACH(int32_t)
EACH(int64_t)
EACH(uint8_t)
EACH(uint32_t)
EACH(uint64_t)
EACH(short)
EACH(long long)
PROP_T("gcd/lcm i32", 20000, 300000, (gcd_case<int32_t, int32_t>));
PROP_T("gcd/lcm i64 i32", 20000, 300000, (gcd_case<int64_t, int32_t>));
PROP_T("gcd/lcm u32 u64", 20000, 300000, (gcd_case<uint32_t, uint64_t>));
PROP_T("gcd/lcm i8 i16", 20000, 300000, (gcd_case<int8_t, int16_t>));
PROP_T("buckets u8", 10000, 200000, (buckets_case<uint8_t>));
PROP_T("buckets u16", 6000, 200000, (buckets_case<uint16_t>));
PROP_T("buckets u32", 10000, 200000, (buckets_case<uint32_t>));
PROP_T("buckets u64", 10000, 200000, (buckets_case<uint64_t>));
