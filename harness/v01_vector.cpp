// V01: vector operations against the same scalar operation on each component
#include <muu/core.h>
#include "common.hpp"
#include "fp.hpp"
#include <muu/vector.h>
#include <muu/span.h>
#include <tuple>
#ifndef PART
#define PART 0
#endif

namespace
{
	template <typename T>
	constexpr bool real = muu::is_floating_point<T>;
	template <typename T>
	constexpr bool small_float = muu::is_floating_point<T> && sizeof(T) == 2;
	template <typename T>
	using arith = std::conditional_t<small_float<T>, float, T>; // what small floats are computed in

	template <typename T>
	std::string shw(T v)
	{
		if constexpr (real<T>)
			return sh(wide(v));
		else
			return show128(static_cast<i128>(v));
	}
	template <typename T, size_t D>
	std::string shv(const std::array<T, D>& a)
	{
		std::string r = "(";
		for (size_t i = 0; i < D; i++)
			r += (i ? ", " : "") + shw(a[i]);
		return r + ")";
	}
	template <typename T>
	T to(arith<T> v)
	{
		if constexpr (small_float<T>)
			return T(v);
		else
			return v;
	}

	enum class range
	{
		any,	// every value
		sum,	// a few of them can be added
		factor, // a few of them can be multiplied
		tiny	// representable in every type
	};
	template <typename T>
	T gen_scalar(pbt::Case& c, range r)
	{
		if constexpr (real<T>)
		{
			if (r == range::tiny)
				return make<T>(static_cast<big>(c.i(0, 100)));
			constexpr int e = fp<T>::digits == 11 ? 3 : 20;
			return gen<T>(c, -e, e);
		}
		else
		{
			using L = std::numeric_limits<T>;
			i128 v	= static_cast<i128>(c.integer<T>());
			switch (r)
			{
				case range::any: return static_cast<T>(v);
				case range::sum: v /= 64; break;
				case range::factor:
				{
					constexpr i128 lim = sizeof(T) == 1 ? 11 : sizeof(T) == 2 ? 40 : sizeof(T) == 4 ? 8 : 60;
					v %= lim;
					break;
				}
				case range::tiny: return static_cast<T>(c.u(0, 100));
			}
			(void)L::max();
			return static_cast<T>(v);
		}
	}
	template <typename T, size_t D>
	std::array<T, D> gen_arr(pbt::Case& c, range r)
	{
		std::array<T, D> a;
		for (auto& x : a)
			x = gen_scalar<T>(c, r);
		return a;
	}
	template <typename T, size_t D>
	muu::vector<T, D> mk(const std::array<T, D>& a)
	{
		muu::vector<T, D> v;
		for (size_t i = 0; i < D; i++)
			v[i] = a[i];
		return v;
	}
	template <typename T, size_t D>
	bool same(const muu::vector<T, D>& v, const std::array<T, D>& a)
	{
		for (size_t i = 0; i < D; i++)
			if (!(v[i] == a[i]))
				return false;
		return true;
	}
	template <typename T, size_t D>
	std::string shv(const muu::vector<T, D>& v)
	{
		std::array<T, D> a;
		for (size_t i = 0; i < D; i++)
			a[i] = v[i];
		return shv(a);
	}
#define SAME(got, want, what)                                                                                          \
	do                                                                                                                 \
	{                                                                                                                  \
		const auto g_ = (got);                                                                                         \
		const auto w_ = (want);                                                                                        \
		CHECK(same(g_, w_), what << " gave " << shv(g_) << ", expected " << shv(w_));                                  \
	}                                                                                                                  \
	while (0)
#define IN_PLACE(init, expr, want, what)                                                                               \
	do                                                                                                                 \
	{                                                                                                                  \
		auto v = mk(init);                                                                                             \
		auto& ref_ = (expr);                                                                                           \
		CHECK(&ref_ == &v, what << " returns the vector");                                                             \
		SAME(v, want, what);                                                                                           \
	}                                                                                                                  \
	while (0)

	template <typename T, size_t D, typename F>
	std::array<T, D> map(const std::array<T, D>& a, F f)
	{
		std::array<T, D> r;
		for (size_t i = 0; i < D; i++)
			r[i] = f(a[i], i);
		return r;
	}

	template <typename T, size_t D>
	void arithmetic(pbt::Case& c)
	{
		using V = muu::vector<T, D>;
		using A = arith<T>;
		{
			const auto a = gen_arr<T, D>(c, range::sum), b = gen_arr<T, D>(c, range::sum);
			NOTE("sum " << shv(a) << " and " << shv(b));
			c.nontrivial(a != b);
			const V va = mk(a), vb = mk(b);
			const auto add = map(a, [&](T x, size_t i) { return to<T>(static_cast<A>(static_cast<A>(x) + static_cast<A>(b[i]))); });
			const auto sub = map(a, [&](T x, size_t i) { return to<T>(static_cast<A>(static_cast<A>(x) - static_cast<A>(b[i]))); });
			SAME(va + vb, add, "+");
			SAME(va - vb, sub, "-");
			IN_PLACE(a, v += vb, add, "+=");
			IN_PLACE(a, v -= vb, sub, "-=");
			IN_PLACE(a, v += v, map(a, [&](T x, size_t) { return to<T>(static_cast<A>(static_cast<A>(x) + static_cast<A>(x))); }), "+= itself");
			IN_PLACE(a, v -= v, map(a, [&](T, size_t) { return T{}; }), "-= itself");
			SAME(+va, a, "unary +");
			if constexpr (muu::is_signed<T>)
				SAME(-va, map(a, [&](T x, size_t) { return static_cast<T>(-x); }), "unary -");
			// sum
			if constexpr (real<T>)
			{
				big s = 0, m = 0;
				for (T x : a)
					s += wide(x), m += babs(wide(x));
				NEAR(T, va.sum(), s, 2 * static_cast<big>(D) * ulp_at<T>(m), "sum");
				CHECK(V::sum(va) == va.sum(), "static sum");
			}
			else
			{
				i128 s = 0;
				for (T x : a)
					s += static_cast<i128>(x);
				CHECK(va.sum() == static_cast<T>(s) && V::sum(va) == static_cast<T>(s), "sum gave " << shw(va.sum()));
			}
		}
		{
			const auto a = gen_arr<T, D>(c, range::factor), b = gen_arr<T, D>(c, range::factor);
			const T k = gen_scalar<T>(c, range::factor);
			NOTE("times " << shv(a) << " and " << shv(b) << " and " << shw(k));
			const V va = mk(a), vb = mk(b);
			const auto mul	= map(a, [&](T x, size_t i) { return to<T>(static_cast<A>(static_cast<A>(x) * static_cast<A>(b[i]))); });
			const auto mulk = map(a, [&](T x, size_t) { return to<T>(static_cast<A>(static_cast<A>(x) * static_cast<A>(k))); });
			SAME(va * vb, mul, "*");
			SAME(va * k, mulk, "* scalar");
			SAME(k * va, mulk, "scalar *");
			IN_PLACE(a, v *= vb, mul, "*=");
			IN_PLACE(a, v *= k, mulk, "*= scalar");
			IN_PLACE(a, v *= v, map(a, [&](T x, size_t) { return to<T>(static_cast<A>(static_cast<A>(x) * static_cast<A>(x))); }), "*= itself");
			IN_PLACE(a, v *= v[D - 1], map(a, [&](T x, size_t) { return to<T>(static_cast<A>(static_cast<A>(x) * static_cast<A>(a[D - 1]))); }), "*= own component");
			IN_PLACE(a, v *= v[0], map(a, [&](T x, size_t) { return to<T>(static_cast<A>(static_cast<A>(x) * static_cast<A>(a[0]))); }), "*= own first component");
			if constexpr (real<T>)
			{
				if constexpr (fp<T>::digits > 11)
				{
					big p = 1;
					for (T x : a)
						p *= wide(x);
					if (babs(p) < p2(100) && babs(p) > p2(-100))
						NEAR(T, va.product(), p, 2 * static_cast<big>(D) * ulp_at<T>(p), "product");
				}
				CHECK(V::product(va) == va.product() || va.product() != va.product(), "static product");
			}
			else
			{
				i128 p	= 1;
				bool ok = true; // no intermediate result overflows the promoted type
				for (T x : a)
				{
					p *= static_cast<i128>(x);
					ok = ok && (sizeof(T) >= 4 || (p < (i128{ 1 } << 31) && p >= -(i128{ 1 } << 31)));
				}
				if (ok)
					CHECK(va.product() == static_cast<T>(p) && V::product(va) == static_cast<T>(p), "product gave " << shw(va.product()));
			}
		}
		{
			// division and remainder
			const auto a = gen_arr<T, D>(c, range::sum);
			auto b		 = gen_arr<T, D>(c, c.b() ? range::sum : range::tiny);
			T k			 = gen_scalar<T>(c, c.b() ? range::sum : range::factor);
			for (auto& x : b)
				if (x == T{})
					x = muu::constants<T>::one;
			if (k == T{})
				k = b[0];
			NOTE("divide " << shv(a) << " by " << shv(b) << " and " << shw(k));
			const V va = mk(a), vb = mk(b);
			const auto div = map(a, [&](T x, size_t i) { return to<T>(static_cast<A>(static_cast<A>(x) / static_cast<A>(b[i]))); });
			SAME(va / vb, div, "/");
			IN_PLACE(a, v /= vb, div, "/=");
			const auto mod = [&](T x, T y) -> T
			{
				if constexpr (!real<T>)
					return static_cast<T>(x % y);
#if MUU_HAS_FLOAT128
				else if constexpr (fp<T>::digits == 113)
					return fmodq(x, y);
#endif
				else
					return to<T>(static_cast<A>(std::fmod(static_cast<A>(x), static_cast<A>(y))));
			};
			SAME(va % vb, map(a, [&](T x, size_t i) { return mod(x, b[i]); }), "%");
			SAME(va % k, map(a, [&](T x, size_t) { return mod(x, k); }), "% scalar");
			IN_PLACE(a, v %= vb, map(a, [&](T x, size_t i) { return mod(x, b[i]); }), "%=");
			IN_PLACE(a, v %= k, map(a, [&](T x, size_t) { return mod(x, k); }), "%= scalar");
			if constexpr (!real<T>)
			{
				const auto divk = map(a, [&](T x, size_t) { return static_cast<T>(x / k); });
				SAME(va / k, divk, "/ scalar");
				IN_PLACE(a, v /= k, divk, "/= scalar");
				IN_PLACE(b, v /= v[0], map(b, [&](T x, size_t) { return static_cast<T>(x / b[0]); }), "/= own component");
				IN_PLACE(b, v %= v, map(b, [&](T, size_t) { return T{}; }), "%= itself");
			}
			else
			{
				V v = mk(a);
				v /= k;
				const V w = va / k;
				for (size_t i = 0; i < D; i++)
				{
					const big q = wide(a[i]) / wide(k);
					if (babs(q) < (fp<T>::digits == 11 ? 60000 : p2(100)))
					{
						NEAR(T, w[i], q, 2 * ulp_at<T>(q), "/ scalar");
						NEAR(T, v[i], q, 2 * ulp_at<T>(q), "/= scalar");
					}
				}
			}
			IN_PLACE(b, v /= v, map(b, [&](T x, size_t) { return static_cast<T>(x / x); }), "/= itself");
		}
		if constexpr (!real<T>)
		{
			auto a = gen_arr<T, D>(c, range::any);
			const int n = static_cast<int>(c.below(sizeof(T) * 8));
			using P		= typename V::product_scalar_type;
			NOTE("shift " << shv(a) << " by " << n);
			const V va	 = mk(a);
			const auto r = map(a, [&](T x, size_t) { return static_cast<T>(x >> n); });
			SAME(va >> static_cast<P>(n), r, ">>");
			IN_PLACE(a, v >>= static_cast<P>(n), r, ">>=");
			if constexpr (std::is_signed_v<T>) // shifting negative values or out of the type is not defined in every language version
				for (auto& x : a)
					x = static_cast<T>(sizeof(T) >= 4 ? static_cast<i128>(static_cast<std::make_unsigned_t<T>>(x)) >> (n + 1) : (static_cast<i128>(x) < 0 ? -(static_cast<i128>(x) + 1) : static_cast<i128>(x)));
			const auto l = map(a, [&](T x, size_t) { return static_cast<T>(x << n); });
			SAME(mk(a) << static_cast<P>(n), l, "<<");
			IN_PLACE(a, v <<= static_cast<P>(n), l, "<<=");
		}
	}

	template <typename T, size_t D, size_t... I>
	void elements(pbt::Case& c, std::index_sequence<I...>)
	{
		using V		 = muu::vector<T, D>;
		const auto a = gen_arr<T, D>(c, range::any);
		NOTE("elements " << shv(a));
		V v			= mk(a);
		const V& cv = v;
		static_assert(std::tuple_size_v<V> == D && V::dimensions == D && sizeof(V) == sizeof(T) * D && std::is_same_v<std::tuple_element_t<D - 1, V>, T>);
		SAME((V{ a }), a, "from std::array");
		T raw[D];
		std::memcpy(static_cast<void*>(raw), static_cast<const void*>(a.data()), sizeof raw);
		SAME(V(raw), a, "from an array");
		SAME(V(static_cast<const T*>(raw)), a, "from a pointer");
		SAME(V(muu::span<const T, D>(raw)), a, "from a static span");
		{
			const size_t n = c.sz(1, D);
			const auto pre = map(a, [&](T x, size_t i) { return i < n ? x : T{}; });
			SAME(V(static_cast<const T*>(raw), n), pre, "from a pointer and " << n);
			SAME(V(muu::span<const T>(raw, n)), pre, "from a span of " << n);
		}
		if constexpr (D >= 2)
		{
			SAME((V{ a[I]... }), a, "from components");
			std::array<T, D - 1> shorter;
			for (size_t i = 0; i + 1 < D; i++)
				shorter[i] = a[i];
			const auto pre = map(a, [&](T x, size_t i) { return i + 1 < D ? x : T{}; });
			SAME(V(shorter), pre, "from a shorter std::array");
			muu::vector<T, D - 1> sv = mk(shorter);
			SAME(V(sv), pre, "from a shorter vector");
			SAME(V(sv, a[D - 1]), a, "from a shorter vector and a scalar");
			SAME((muu::vector<T, D - 1>{ v }), shorter, "from a longer vector");
			muu::vector<T, 1> one;
			one[0] = a[D - 1];
			SAME(V(sv, one), a, "from two vectors");
			if constexpr (D >= 3)
			{
				std::array<T, D - 2> sh2;
				for (size_t i = 0; i + 2 < D; i++)
					sh2[i] = a[i];
				SAME((V(mk(sh2), a[D - 2], a[D - 1])), a, "from a shorter vector and two scalars");
				SAME((V(mk(sh2), a[D - 2])), pre, "from a shorter vector and one scalar");
				muu::vector<T, 2> two;
				two[0] = a[D - 2], two[1] = a[D - 1];
				SAME((V(mk(sh2), two)), a, "from two vectors");
			}
		}
		SAME((V{ std::tuple<decltype((void)I, T{})...>{ a[I]... } }), a, "from a tuple");
		SAME(V(a[0]), map(a, [&](T, size_t) { return a[0]; }), "broadcast");
		const bool got[]{ (v.template get<I>() == a[I] && cv.template get<I>() == a[I] && cv[I] == a[I] && &v.template get<I>() == &v[I])... };
		for (bool g : got)
			CHECK(g, "element access");
		size_t k = 0;
		for (const T& x : cv)
			CHECK(x == a[k++], "iteration");
		CHECK(k == D && v.end() - v.begin() == static_cast<std::ptrdiff_t>(D) && v.data() == &v[0] && cv.cend() - cv.cbegin() == static_cast<std::ptrdiff_t>(D), "iteration range");
		const auto w = gen_arr<T, D>(c, range::any);
		k			 = 0;
		for (T& x : v)
			x = w[k++];
		SAME(v, w, "writing while iterating");
		(void)std::initializer_list<int>{ (v.template get<I>() = a[D - 1 - I], 0)... };
		SAME(v, map(a, [&](T, size_t i) { return a[D - 1 - i]; }), "writing through get");
		// swizzles
		SAME((v.template swizzle<(D - 1 - I)...>()), a, "swizzle");
		SAME((V::template swizzle<I...>(v)), map(a, [&](T, size_t i) { return a[D - 1 - i]; }), "swizzle");
		SAME((v.template swizzle<0, D - 1, 0>()), (std::array<T, 3>{ a[D - 1], a[0], a[D - 1] }), "swizzle");
		v = v.template swizzle<(D - 1 - I)...>();
		SAME(v, a, "assignment from own swizzle");
		if constexpr (D >= 2)
		{
			SAME(v.xy(), (std::array<T, 2>{ a[0], a[1] }), "xy");
			SAME(v.yx(), (std::array<T, 2>{ a[1], a[0] }), "yx");
		}
		if constexpr (D >= 3)
		{
			SAME(v.xz(), (std::array<T, 2>{ a[0], a[2] }), "xz");
			SAME(v.xyz(), (std::array<T, 3>{ a[0], a[1], a[2] }), "xyz");
			SAME(v.xyz0(), (std::array<T, 4>{ a[0], a[1], a[2], T{} }), "xyz0");
			SAME(v.xyz1(), (std::array<T, 4>{ a[0], a[1], a[2], muu::constants<T>::one }), "xyz1");
		}
		if constexpr (D <= 4)
		{
			CHECK(&v.x == &v[0], "x");
			if constexpr (D >= 2)
				CHECK(&v.y == &v[1], "y");
			if constexpr (D >= 3)
				CHECK(&v.z == &v[2], "z");
			if constexpr (D >= 4)
				CHECK(&v.w == &v[3], "w");
		}
		{
			V x = mk(a), y = mk(w);
			using std::swap;
			swap(x, y);
			SAME(x, w, "swap");
			SAME(y, a, "swap");
		}
	}

	template <typename T, size_t D>
	void compare(pbt::Case& c)
	{
		using V		 = muu::vector<T, D>;
		const auto a = gen_arr<T, D>(c, range::tiny);
		auto b		 = c.b() ? a : gen_arr<T, D>(c, range::tiny);
		if (c.b())
			b[c.below(D)] = gen_scalar<T>(c, range::tiny);
		const V va = mk(a), vb = mk(b);
		NOTE("compare " << shv(a) << " and " << shv(b));
		c.cls(a == b, "equal");
		CHECK_EQ(va == vb, a == b, "==");
		CHECK_EQ(va != vb, a != b, "!=");
		{
			std::array<T, D> z{};
			const bool zero = c.chance(1, 4);
			if (!zero)
				z[c.below(D)] = gen_scalar<T>(c, range::tiny);
			const V vz = mk(z);
			CHECK_EQ(vz.zero(), z == (std::array<T, D>{}), "zero");
			CHECK_EQ(V::zero(vz), vz.zero(), "static zero");
		}
		auto mixed = [&](auto u)
		{
			using U = decltype(u);
			muu::vector<U, D> vu;
			for (size_t i = 0; i < D; i++)
			{
				if constexpr (std::is_same_v<U, half>)
					vu[i] = half{ static_cast<float>(b[i]) };
				else
					vu[i] = static_cast<U>(b[i]);
			}
			CHECK_EQ(va == vu, a == b, "== of mixed types");
			CHECK_EQ(vu != va, a != b, "!= of mixed types");
			const V back{ vu };
			SAME(back, b, "conversion");
			const muu::vector<U, D> there{ vb };
			for (size_t i = 0; i < D; i++)
				CHECK(there[i] == vu[i], "conversion");
			if constexpr (D >= 2)
			{
				muu::vector<U, D + 1> longer{ vb };
				for (size_t i = 0; i <= D; i++)
					CHECK(longer[i] == (i < D ? vu[i < D ? i : 0] : U{}), "conversion to a longer vector");
				muu::vector<U, D - 1> shorter{ vb };
				for (size_t i = 0; i + 1 < D; i++)
					CHECK(shorter[i] == vu[i], "conversion to a shorter vector");
			}
			if constexpr (real<U> || real<T>)
			{
				if constexpr (D >= 1)
					CHECK_EQ(muu::approx_equal(va, vu), a == b, "approx_equal of mixed types");
			}
		};
		mixed(int{});
		mixed(uint8_t{});
		mixed(float{});
		mixed(double{});
		mixed(int64_t{});
		if constexpr (real<T>)
		{
			// approximately
			const T eps = c.b() ? muu::default_epsilon<T> : make<T>(big(1 + c.below(64)) / 64);
			auto d		= a;
			for (auto& x : d)
				if (c.chance(1, 2 + D))
					x = make<T>(wide(x) + wide(eps) * (big(c.i(-5, 5)) / 4));
			const V vd = mk(d);
			bool want  = true;
			for (size_t i = 0; i < D; i++)
				want = want && muu::approx_equal(a[i], d[i], eps);
			CHECK_EQ(V::approx_equal(va, vd, eps), want, "approx_equal");
			CHECK_EQ(va.approx_equal(vd, eps), want, "approx_equal");
			CHECK_EQ(muu::approx_equal(va, vd, eps), want, "approx_equal");
			const V diff = vd - va;
			want		 = true;
			for (size_t i = 0; i < D; i++)
				want = want && muu::approx_zero(diff[i], eps);
			CHECK_EQ(V::approx_zero(diff, eps), want, "approx_zero");
			CHECK_EQ(diff.approx_zero(eps), want, "approx_zero");
			CHECK_EQ(muu::approx_zero(diff, eps), want, "approx_zero");
			// infinities
			auto n	   = a;
			bool any   = false;
			for (auto& x : n)
				if (c.chance(1, 3 * D))
				{
					x	= c.b() ? muu::constants<T>::infinity : c.b() ? muu::constants<T>::nan : muu::constants<T>::negative_infinity;
					any = true;
				}
			const V vn = mk(n);
			CHECK_EQ(vn.infinity_or_nan(), any, "infinity_or_nan");
			CHECK_EQ(V::infinity_or_nan(vn), any, "infinity_or_nan");
			CHECK_EQ(muu::infinity_or_nan(vn), any, "infinity_or_nan");
		}
		else
			CHECK(!va.infinity_or_nan() && !muu::infinity_or_nan(va), "integers are finite");
	}

	template <typename T, size_t D>
	void select(pbt::Case& c)
	{
		using V = muu::vector<T, D>;
		std::array<T, D> p[4];
		for (auto& x : p)
			x = gen_arr<T, D>(c, c.b() ? range::any : range::tiny);
		NOTE("select " << shv(p[0]) << ", " << shv(p[1]) << ", " << shv(p[2]) << ", " << shv(p[3]));
		auto fold = [&](size_t n, bool mx)
		{
			auto r = p[0];
			for (size_t k = 1; k < n; k++)
				for (size_t i = 0; i < D; i++)
					if (mx ? r[i] < p[k][i] : p[k][i] < r[i])
						r[i] = p[k][i];
			return r;
		};
		const V v0 = mk(p[0]), v1 = mk(p[1]), v2 = mk(p[2]), v3 = mk(p[3]);
		SAME(V::min(v0, v1), fold(2, false), "min");
		SAME(V::max(v0, v1), fold(2, true), "max");
		SAME(V::min(v0, v1, v2, v3), fold(4, false), "min of four");
		SAME(V::max(v0, v1, v2), fold(3, true), "max of three");
		SAME(muu::min(v0, v1), fold(2, false), "muu::min");
		SAME(muu::max(v0, v1), fold(2, true), "muu::max");
		SAME(muu::min(v0, v1, v2), fold(3, false), "muu::min of three");
		SAME(muu::max(v0, v1, v2, v3), fold(4, true), "muu::max of four");
		const V arr[]{ v0, v1, v2, v3 };
		for (size_t n = 1; n <= 4; n++)
		{
			SAME(V::min(arr, arr + n), fold(n, false), "min of a range");
			SAME(V::max(arr, arr + n), fold(n, true), "max of a range");
		}
		SAME(V::min({ v0, v1, v2 }), fold(3, false), "min of a list");
		SAME(V::max({ v0, v1 }), fold(2, true), "max of a list");
		SAME(V::max({ v0, v1, v2, v3 }), fold(4, true), "max of a list");
		SAME(V::min(arr, arr), (std::array<T, D>{}), "min of nothing");

		auto lo = p[1], hi = p[2];
		for (size_t i = 0; i < D; i++)
			if (hi[i] < lo[i])
				std::swap(lo[i], hi[i]);
		const auto cl = map(p[0], [&](T x, size_t i) { return x < lo[i] ? lo[i] : hi[i] < x ? hi[i] : x; });
		SAME(V::clamp(v0, mk(lo), mk(hi)), cl, "clamp");
		SAME(muu::clamp(v0, mk(lo), mk(hi)), cl, "muu::clamp");
		IN_PLACE(p[0], v.clamp(mk(lo), mk(hi)), cl, "clamp in place");
		IN_PLACE(lo, v.clamp(v, mk(hi)), lo, "clamp to itself");

		auto a = p[3];
		if constexpr (!real<T> && std::is_signed_v<T>)
			for (auto& x : a)
				if (x == std::numeric_limits<T>::min())
					x = T{ 1 };
		const V va	  = mk(a);
		const auto ab = map(a, [&](T x, size_t) { return x < T{} ? static_cast<T>(-x) : x; });
		SAME(va.abs(), ab, "abs");
		SAME(V::abs(va), ab, "static abs");
		SAME(muu::abs(va), ab, "muu::abs");
		const auto fl = map(a, [&](T x, size_t) {
			if constexpr (real<T>)
				return make<T>(BIG(floor, wide(x)));
			else
				return x;
		});
		const auto ce = map(a, [&](T x, size_t) {
			if constexpr (real<T>)
				return make<T>(BIG(ceil, wide(x)));
			else
				return x;
		});
		SAME(va.floor(), fl, "floor");
		SAME(V::floor(va), fl, "static floor");
		SAME(muu::floor(va), fl, "muu::floor");
		SAME(va.ceil(), ce, "ceil");
		SAME(V::ceil(va), ce, "static ceil");
		SAME(muu::ceil(va), ce, "muu::ceil");

		// interpolation
		using S	  = typename V::delta_scalar_type;
		const S t = make<S>(c.chance(1, 6) ? big(c.below(2)) : big(c.u(0, 1u << 20)) / p2(20));
		const auto f = gen_arr<T, D>(c, range::tiny), g = gen_arr<T, D>(c, range::tiny);
		NOTE("lerp " << shv(f) << " to " << shv(g) << " by " << sh(wide(t)));
		const V r = V::lerp(mk(f), mk(g), t), r2 = muu::lerp(mk(f), mk(g), t);
		V r3 = mk(f);
		CHECK(&r3.lerp(mk(g), t) == &r3, "lerp in place returns the vector");
		V r4 = mk(f);
		r4.lerp(r4, t);
		for (size_t i = 0; i < D; i++)
		{
			const big w = static_cast<big>(f[i]) * (1 - wide(t)) + static_cast<big>(g[i]) * wide(t);
			if constexpr (real<T>)
			{
				NEAR(T, r[i], w, 3 * ulp_at<T>(128), "lerp");
				NEAR(T, r4[i], wide(f[i]), 3 * ulp_at<T>(128), "lerp to itself");
			}
			else
			{
				CHECK(static_cast<big>(r[i]) <= w + big(1e-9) && static_cast<big>(r[i]) > w - 1 - big(1e-9), "lerp gave " << shw(r[i]) << ", expected " << sh(w));
				CHECK(static_cast<big>(r4[i]) <= wide(double(f[i])) && static_cast<big>(r4[i]) >= wide(double(f[i])) - 1, "lerp to itself");
			}
			CHECK(r2[i] == r[i] && r3[i] == r[i], "the forms of lerp differ");
			if (wide(t) == 0)
				CHECK(r[i] == f[i], "lerp at 0");
			if (wide(t) == 1)
				CHECK(r[i] == g[i], "lerp at 1");
		}
		// constants
		const auto con = [&](const V& v, T x) { return same(v, map(a, [&](T, size_t) { return x; })); };
		using K		   = muu::constants<V>;
		CHECK(con(K::zero, muu::constants<T>::zero) && con(K::one, muu::constants<T>::one) && con(K::ten, muu::constants<T>::ten) && con(K::lowest, muu::constants<T>::lowest) && con(K::highest, muu::constants<T>::highest), "constants");
		auto axis = [&](const V& v, size_t k, int s)
		{
			for (size_t i = 0; i < D; i++)
				if (!(v[i] == static_cast<T>(i == k ? s : 0)))
					return false;
			return true;
		};
		if constexpr (D >= 2 && D <= 3)
		{
			CHECK(axis(K::x_axis, 0, 1) && axis(K::y_axis, 1, 1), "axes");
			if constexpr (D == 3)
				CHECK(axis(K::z_axis, 2, 1), "axes");
		}
	}

	template <typename T, size_t D>
	void all(pbt::Case& c)
	{
		arithmetic<T, D>(c);
		elements<T, D>(c, std::make_index_sequence<D>{});
		compare<T, D>(c);
		select<T, D>(c);
	}
#ifdef LITE // fewer dimensions where compiling is slow
#define TYPE(name, ...)                                                                                                \
	PROP_T(name " 2", 250, 6000, (all<__VA_ARGS__, 2>));                                                               \
	PROP_T(name " 3", 250, 6000, (all<__VA_ARGS__, 3>));                                                               \
	PROP_T(name " 5", 250, 6000, (all<__VA_ARGS__, 5>))
#else
#define TYPE(name, ...)                                                                                                \
	PROP_T(name " 1", 250, 6000, (all<__VA_ARGS__, 1>));                                                               \
	PROP_T(name " 2", 250, 6000, (all<__VA_ARGS__, 2>));                                                               \
	PROP_T(name " 3", 250, 6000, (all<__VA_ARGS__, 3>));                                                               \
	PROP_T(name " 4", 250, 6000, (all<__VA_ARGS__, 4>));                                                               \
	PROP_T(name " 5", 250, 6000, (all<__VA_ARGS__, 5>));                                                               \
	PROP_T(name " 9", 150, 4000, (all<__VA_ARGS__, 9>))
#endif
#if PART == 0
	TYPE("int8", int8_t);
	TYPE("uint8", uint8_t);
#elif PART == 1
	TYPE("int16", int16_t);
	TYPE("uint16", uint16_t);
#elif PART == 2
	TYPE("int", int);
	TYPE("unsigned", unsigned);
#elif PART == 3
	TYPE("int64", int64_t);
	TYPE("uint64", uint64_t);
#elif PART == 4
	TYPE("float", float);
	TYPE("double", double);
#elif PART == 5
	TYPE("long double", long double);
	TYPE("half", half);
#elif PART == 6
#if MUU_HAS_FLOAT16
	TYPE("_Float16", _Float16);
#endif
#if MUU_HAS_FLOAT128
	TYPE("float128", __float128);
#endif
#endif
}
