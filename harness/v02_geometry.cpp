// V02: vector norms and products against their definitions in wider arithmetic
#include <muu/core.h>
#include "common.hpp"
#include "fp.hpp"
#include <muu/vector.h>
#ifndef PART
#define PART 0
#endif

namespace
{
	template <typename T>
	constexpr bool real = muu::is_floating_point<T>;
	template <typename T>
	big w(T x)
	{
		if constexpr (real<T>)
			return wide(x);
		else
			return static_cast<big>(x);
	}
	template <typename T, size_t D>
	using V = muu::vector<T, D>;

	template <typename T, size_t D>
	std::string shv(const V<T, D>& v)
	{
		std::string r = "(";
		for (size_t i = 0; i < D; i++)
			r += (i ? ", " : "") + sh(w(v[i]));
		return r + ")";
	}
	template <typename T, size_t D>
	V<T, D> gen_vec(pbt::Case& c, bool zeros = true)
	{
		V<T, D> v;
		for (size_t i = 0; i < D; i++)
		{
			if constexpr (real<T>)
				v[i] = zeros && c.chance(1, 6) ? make<T>(0) : gen<T>(c, fp<T>::digits == 11 ? -3 : -12, fp<T>::digits == 11 ? 3 : 12);
			else
			{
				constexpr int64_t lim = sizeof(T) == 1 ? 127 : sizeof(T) == 2 ? 10000 : sizeof(T) == 4 ? 15000 : 600000000;
				v[i]				  = static_cast<T>(std::is_signed_v<T> ? c.i(-lim, lim) : c.i(0, lim));
			}
		}
		return v;
	}
	template <typename A, typename B, size_t D>
	big bdot(const V<A, D>& a, const V<B, D>& b)
	{
		big r = 0;
		for (size_t i = 0; i < D; i++)
			r += w(a[i]) * w(b[i]);
		return r;
	}
	template <typename A, typename B, size_t D>
	big bdot_abs(const V<A, D>& a, const V<B, D>& b)
	{
		big r = 0;
		for (size_t i = 0; i < D; i++)
			r += babs(w(a[i]) * w(b[i]));
		return r;
	}
	template <typename T, size_t D>
	big blen(const V<T, D>& a)
	{
		return BIG(sqrt, bdot(a, a));
	}
	template <typename T, size_t D>
	big bdist(const V<T, D>& a, const V<T, D>& b)
	{
		big r = 0;
		for (size_t i = 0; i < D; i++)
			r += (w(a[i]) - w(b[i])) * (w(a[i]) - w(b[i]));
		return BIG(sqrt, r);
	}
	// error of a result of type R computed with n operations whose intermediate results are as big as m
	template <typename R>
	big err(big m, size_t n)
	{
		if constexpr (real<R>)
			return ulp_at<R>(m) * static_cast<big>(n);
		else
			return 0;
	}
	template <typename R>
	constexpr int wdig()
	{
		if constexpr (!real<R>)
			return 53;
		else
			return fp<R>::digits;
	}

	template <typename T, size_t D>
	void norms(pbt::Case& c)
	{
		using VT = V<T, D>;
		using S	 = typename VT::delta_scalar_type;
		using P	 = typename VT::product_scalar_type;
		VT a = gen_vec<T, D>(c), b = c.chance(1, 5) ? a : gen_vec<T, D>(c);
		if (c.chance(1, 8)) // nearly parallel
			for (size_t i = 0; i < D; i++)
			{
				if constexpr (real<T>)
					b[i] = make<T>(w(a[i]) * 2 + big(c.i(-3, 3)) * ulp_at<T>(w(a[i])));
			}
		NOTE(shv(a) << " and " << shv(b));
		c.nontrivial(!a.zero() && !b.zero());
		static_assert(std::is_same_v<decltype(a.length()), S> && std::is_same_v<decltype(a.dot(b)), P>);

		const big l2 = bdot(a, a), l = blen(a), d = bdist(a, b);
		NEAR(S, a.length_squared(), l2, err<S>(l2, D + 1), "length_squared");
		NEAR(S, a.length(), l, err<S>(l, D + 2), "length");
		CHECK(w(a.length()) >= 0, "lengths are not negative");
		NEAR(S, VT::distance(a, b), d, err<S>(d, D + 4), "distance");
		NEAR(S, VT::distance_squared(a, b), d * d, err<S>(d * d, 2 * D + 4), "distance_squared");
		CHECK(VT::distance(a, b) == VT::distance(b, a), "distance is symmetric");
		CHECK(w(VT::distance(a, a)) == 0, "distance to itself");
		CHECK(VT::length(a) == a.length() && muu::length(a) == a.length() && VT::length_squared(a) == a.length_squared() && muu::length_squared(a) == a.length_squared(), "forms of length");
		CHECK(a.distance(b) == VT::distance(a, b) && muu::distance(a, b) == VT::distance(a, b) && a.distance_squared(b) == VT::distance_squared(a, b)
				  && muu::distance_squared(a, b) == VT::distance_squared(a, b),
			  "forms of distance");

		const big dt = bdot(a, b), da = bdot_abs(a, b);
		NEAR(P, VT::dot(a, b), dt, err<P>(da, D + 1), "dot");
		NEAR(P, VT::dot(b, a), dt, err<P>(da, D + 1), "dot");
		CHECK(a.dot(b) == VT::dot(a, b) && muu::dot(a, b) == VT::dot(a, b), "forms of dot");
		CHECK(VT::dot(a, muu::index_tag<D - 1>{}) == P(a[D - 1]) && VT::dot(muu::index_tag<0>{}, a) == P(a[0]) && a.template dot<0>(muu::index_tag<0>{}) == P(a[0]), "dot with an axis");

		if constexpr (D == 3)
		{
			using X	   = V<P, 3>;
			const X x  = VT::cross(a, b);
			for (size_t i = 0; i < 3; i++)
			{
				const size_t j = (i + 1) % 3, k = (i + 2) % 3;
				const big u = w(a[j]) * w(b[k]), v = w(a[k]) * w(b[j]);
				NEAR(P, x[i], u - v, err<P>(babs(u) + babs(v), 3), "cross, component " << i);
			}
			CHECK(a.cross(b) == x && muu::cross(a, b) == x, "forms of cross");
			if constexpr (std::is_signed_v<T> || real<T>)
			{
				const X ax[]{ VT::cross(a, muu::index_tag<0>{}), VT::cross(a, muu::index_tag<1>{}), VT::cross(a, muu::index_tag<2>{}) };
				const X xa[]{ VT::cross(muu::index_tag<0>{}, a), VT::cross(muu::index_tag<1>{}, a), VT::cross(muu::index_tag<2>{}, a) };
				for (size_t i = 0; i < 3; i++)
				{
					const size_t j = (i + 1) % 3, k = (i + 2) % 3; // a x e_i: j component is a_k, k component is -a_j
					CHECK(w(ax[i][i]) == 0 && w(ax[i][j]) == w(a[k]) && w(ax[i][k]) == -w(a[j]), "cross with axis " << i << " gave " << shv(ax[i]));
					CHECK(w(xa[i][i]) == 0 && w(xa[i][j]) == -w(a[k]) && w(xa[i][k]) == w(a[j]), "cross of axis " << i << " gave " << shv(xa[i]));
				}
				CHECK(a.cross(muu::index_tag<1>{}) == ax[1], "member cross with an axis");
			}
			const X o = VT::orthogonal(a);
			CHECK(a.orthogonal() == o, "forms of orthogonal");
			CHECK(babs(bdot(a, o)) <= err<P>(bdot_abs(a, o), 8), "orthogonal gave " << shv(o));
			if (!a.zero())
				CHECK(blen(o) > blen(a) / 2, "orthogonal is far from zero");
		}

		if constexpr (real<T>)
		{
			if (!a.zero())
			{
				T len{};
				const VT n1 = VT::normalize(a, len), n2 = VT::normalize(a);
				VT n3 = a, n4 = a, n5 = a;
				T len2{};
				CHECK(&n3.normalize() == &n3 && &n4.normalize(len2) == &n4, "normalize in place returns the vector");
				NEAR(T, len, l, err<T>(l, D + 2), "length output of normalize");
				CHECK(len2 == len, "length outputs of normalize");
				T len3{};
				const VT n6 = muu::normalize(a, len3);
				for (size_t i = 0; i < D; i++)
				{
					NEAR(T, n1[i], w(a[i]) / l, err<T>(1, D + 6), "normalize, component " << i << " of " << shv(n1));
					CHECK(n2[i] == n1[i] && n3[i] == n1[i] && n4[i] == n1[i] && n6[i] == n1[i] && muu::normalize(a)[i] == n1[i], "forms of normalize");
				}
				CHECK(len3 == len, "length outputs of normalize");
				CHECK(n1.normalized() && VT::normalized(n1) && muu::normalized(n1), "a normalized vector is normalized");
				if (l < (fp<T>::digits == 11 ? 100 : p2(60)))
				{
					const T lsq = a.length_squared();
					if (wide(lsq) > p2(fp<T>::emin + fp<T>::digits))
					{
						const VT m = VT::normalize_lensq(a, lsq);
						n5.normalize_lensq(lsq);
						for (size_t i = 0; i < D; i++)
						{
							NEAR(T, m[i], w(a[i]) / l, err<T>(1, D + 6), "normalize_lensq, component " << i);
							CHECK(n5[i] == m[i], "forms of normalize_lensq");
						}
					}
				}
				// far from unit length
				const T f = make<T>(c.b() ? big(0.75) : big(1.25));
				VT s	  = n1;
				for (size_t i = 0; i < D; i++)
					s[i] = make<T>(wide(s[i]) * wide(f));
				CHECK(!s.normalized() && !VT::normalized(s) && !muu::normalized(s), "a vector of length " << sh(wide(f)) << " is not normalized");
			}
		}
		else
		{
			VT u{};
			u[c.below(D)] = T{ 1 };
			if (c.chance(1, 3))
				u[c.below(D)] = static_cast<T>(c.i(std::is_signed_v<T> ? -2 : 0, 2));
			else if (c.chance(1, 3))
				u[c.below(D)] = c.integer<T>();
			NOTE("unit " << shv(u));
			CHECK_EQ(u.normalized(), bdot(u, u) == 1, "normalized");
			CHECK_EQ(VT::normalized(u), bdot(u, u) == 1, "static normalized");
			CHECK_EQ(muu::normalized(a), l2 == 1, "normalized");
		}

		if constexpr (D == 2 || D == 3)
		{
			using DV = typename VT::delta_type;
			static_assert(std::is_same_v<DV, V<S, D>>);
			if (!(a == b) && d > big(1e-3))
			{
				S out{}, out2{};
				const DV dir = VT::direction(a, b), dir2 = VT::direction(a, b, out), dir3 = a.direction(b), dir4 = a.direction(b, out2);
				NEAR(S, out, d, err<S>(d, D + 4), "distance output of direction");
				CHECK(out2 == out, "distance outputs of direction");
				for (size_t i = 0; i < D; i++)
				{
					NEAR(S, dir[i], (w(b[i]) - w(a[i])) / d, err<S>(1, D + 8), "direction, component " << i);
					CHECK(dir2[i] == dir[i] && dir3[i] == dir[i] && dir4[i] == dir[i], "forms of direction");
				}
				CHECK(dir.normalized(), "a direction is normalized");
				{
					S o3{};
					(void)VT::direction(a, b, o3);
					CHECK(o3 == out, "distance output of direction when the direction is not used");
				}
			}
			const S g = VT::angle(a, b);
			CHECK(a.angle(b) == g && muu::angle(a, b) == g && VT::angle(b, a) == g, "forms of angle");
			CHECK(w(g) >= 0 && w(g) <= w(muu::constants<S>::pi), "angles are between 0 and pi, got " << sh(w(g)));
			if (a.zero() || b.zero())
				CHECK(w(g) == 0, "angle to the zero vector");
			else
			{
				big cr = 0;
				for (size_t i = 0; i < D; i++)
					for (size_t j = i + 1; j < D; j++)
					{
						const big x = w(a[i]) * w(b[j]) - w(a[j]) * w(b[i]);
						cr += x * x;
					}
				cr				  = BIG(sqrt, cr);
				const big want	  = BIG(atan2, cr, dt);
				const int digits  = wdig<T>() < 53 ? 53 : wdig<T>();
				const big e		  = 16 * p2(-digits), s = cr / (blen(a) * blen(b));
				const big by_sqrt = BIG(sqrt, 2 * e), by_sin = s > 0 ? e / s : by_sqrt;
				NEAR(S, g, want, err<S>(want, 2) + (by_sin < by_sqrt ? by_sin : by_sqrt), "angle");
			}
		}
	}
#define TYPE(name, ...)                                                                                                \
	PROP_T(name " 1", 800, 20000, (norms<__VA_ARGS__, 1>));                                                            \
	PROP_T(name " 2", 1500, 40000, (norms<__VA_ARGS__, 2>));                                                           \
	PROP_T(name " 3", 2500, 60000, (norms<__VA_ARGS__, 3>));                                                           \
	PROP_T(name " 4", 1000, 20000, (norms<__VA_ARGS__, 4>));                                                           \
	PROP_T(name " 6", 1000, 20000, (norms<__VA_ARGS__, 6>))
#if PART == 0
	TYPE("int8", int8_t);
	TYPE("uint8", uint8_t);
	TYPE("int16", int16_t);
	TYPE("uint16", uint16_t);
#elif PART == 1
	TYPE("int", int);
	TYPE("unsigned", unsigned);
	TYPE("int64", int64_t);
	TYPE("uint64", uint64_t);
#elif PART == 2
	TYPE("float", float);
	TYPE("double", double);
#elif PART == 3
	TYPE("long double", long double);
	TYPE("half", half);
#elif PART == 4
#if MUU_HAS_FLOAT16
	TYPE("_Float16", _Float16);
#endif
#if MUU_HAS_FLOAT128
	TYPE("float128", __float128);
#endif
#elif PART == 5
	// constant evaluation
	constexpr size_t N = 40;
	template <typename T, size_t D, uint64_t Salt, size_t I>
	constexpr V<T, D> input()
	{
		V<T, D> v{ T{} };
		crng g{ VERIF_SEED * 99991ull + Salt * 1000 + I };
		for (size_t i = 0; i < D; i++)
			v[i] = static_cast<T>(static_cast<int64_t>(g.next() % 2001) - 1000) / T(real<T> ? 32 : 1);
		if (v.zero())
			v[0] = T{ 1 };
		return v;
	}
	template <typename T, size_t D, uint64_t Salt, size_t I>
	void one(pbt::Case& c)
	{
		constexpr V<T, D> a = input<T, D, Salt, I>(), b = input<T, D, Salt, I + 500>();
		constexpr auto l = V<T, D>::consteval_length(a), d = V<T, D>::consteval_distance(a, b);
		constexpr auto l2 = muu::consteval_length(a), d2 = muu::consteval_distance(a, b);
		constexpr auto dt = V<T, D>::dot(a, b);
		constexpr auto s = a + b * T(2);
		using S			 = std::remove_const_t<decltype(l)>;
		NOTE("constant " << shv(a) << " and " << shv(b));
		c.nontrivial(true);
		NEAR(S, l, blen(a), err<S>(blen(a), D + 3), "consteval_length");
		NEAR(S, d, bdist(a, b), err<S>(bdist(a, b), D + 4), "consteval_distance");
		CHECK(l2 == l && d2 == d, "forms of consteval_length and _distance");
		CHECK((dt == V<T, D>::dot(a, b)), "constant-evaluated dot");
		CHECK(s == a + b * T(2), "constant-evaluated arithmetic");
		if constexpr (D == 3)
		{
			constexpr auto x = V<T, D>::cross(a, b);
			CHECK((x == V<T, D>::cross(a, b)), "constant-evaluated cross");
		}
		if constexpr (real<T>)
		{
			constexpr auto n = V<T, D>::consteval_normalize(a);
			constexpr auto m = muu::consteval_normalize(a);
			for (size_t i = 0; i < D; i++)
			{
				NEAR(T, n[i], w(a[i]) / blen(a), err<T>(1, D + 6), "consteval_normalize");
				CHECK(m[i] == n[i], "forms of consteval_normalize");
			}
		}
	}
	template <typename T, size_t D, uint64_t Salt, size_t... I>
	void dispatch(pbt::Case& c, std::index_sequence<I...>)
	{
		using F				   = void (*)(pbt::Case&);
		static constexpr F f[] = { &one<T, D, Salt, I>... };
		f[c.index % sizeof...(I)](c);
	}
	template <typename T, size_t D, uint64_t Salt>
	void ce(pbt::Case& c)
	{
		dispatch<T, D, Salt>(c, std::make_index_sequence<8>{});
	}
	PROP_T("consteval float 1", 8, 8, (ce<float, 1, 1>));
	PROP_T("consteval float 2", 8, 8, (ce<float, 2, 2>));
	PROP_T("consteval double 3", 8, 8, (ce<double, 3, 3>));
	PROP_T("consteval double 4", 8, 8, (ce<double, 4, 4>));
	PROP_T("consteval float 6", 8, 8, (ce<float, 6, 5>));
	PROP_T("consteval int 3", 8, 8, (ce<int, 3, 6>));
	PROP_T("consteval int16 2", 8, 8, (ce<int16_t, 2, 7>));
	PROP_T("consteval long double 3", 8, 8, (ce<long double, 3, 8>));
#endif
}
