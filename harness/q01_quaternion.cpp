// Q01: quaternions against the quaternion algebra and the rotations they stand for
#include <muu/core.h>
#include "common.hpp"
#include "quat.hpp"
#ifndef PART
#define PART 0
#endif

namespace
{
	template <typename T>
	using Q = muu::quaternion<T>;
	template <typename T>
	using V3 = muu::vector<T, 3>;

	template <typename T>
	Q<T> any_quat(pbt::Case& c)
	{
		return { gen<T>(c, -5, 5), gen<T>(c, -5, 5), gen<T>(c, -5, 5), gen<T>(c, -5, 5) };
	}
	template <typename T>
	V3<T> any_vec(pbt::Case& c)
	{
		return { gen<T>(c, -5, 5), gen<T>(c, -5, 5), gen<T>(c, -5, 5) };
	}

	template <typename T>
	void algebra(pbt::Case& c)
	{
		const auto p = any_quat<T>(c), q = any_quat<T>(c);
		const big u = unit<T>(), tiny = ulp_at<T>(0);
		const bq P = b(p), R = b(q);
		NOTE(sh(P) << " and " << sh(R));
		const bq want = mul(P, R);
		const big mag = len(P) * len(R);
		c.nontrivial(mag != 0);
		NEARQ(T, p * q, want, mag * u * 10 + tiny * 8, "the product");
		auto r = p;
		CHECK(&(r *= q) == &r && r == p * q, "forms of the product");
		r = p;
		r *= r;
		CHECK(r == p * p, "self product");
		CHECK(babs(len(b(p * q)) - mag) <= mag * u * 24 + tiny * 16, "the norm is not multiplicative");
		NEAR(T, (Q<T>::dot(p, q)), dot(P, R), mag * u * 8 + tiny * 8, "dot");
		CHECK(p.dot(q) == Q<T>::dot(p, q) && muu::dot(p, q) == Q<T>::dot(p, q), "forms of dot");
		const auto k = Q<T>::conjugate(p);
		CHECK(w(k.s) == P.s && b(k.v).x == -P.v.x && b(k.v).y == -P.v.y && b(k.v).z == -P.v.z, "conjugate");
		CHECK(p.conjugate() == k, "forms of conjugate");
		NEARQ(T, p * k, (bq{ dot(P, P), {} }), dot(P, P) * u * 10 + tiny * 8, "times the conjugate");
		// comparisons
		CHECK((p == q) == (maxabs(P - R) == 0) && (p != q) == !(p == q) && p == p, "equality");
		CHECK(p.zero() == (maxabs(P) == 0) && Q<T>::zero(p) == p.zero(), "zero()");
		CHECK(!p.infinity_or_nan() && !muu::infinity_or_nan(p) && !Q<T>::infinity_or_nan(p), "infinity_or_nan()");
		const size_t at = c.below(4);
		auto bad		= p;
		const T evil	= c.b() ? make<T>(big(1) / big(0)) : make<T>(big(0) / big(0) * 0 + (big(1) / big(0) - big(1) / big(0)));
		(at == 0 ? bad.s : bad.v[at - 1]) = evil;
		CHECK(bad.infinity_or_nan() && muu::infinity_or_nan(bad) && Q<T>::infinity_or_nan(bad), "infinity_or_nan() misses component " << at);
		const T eps = make<T>(c.real(0.01, 2));
		auto moved	= p;
		T& e		= at == 0 ? moved.s : moved.v[at - 1];
		const big by = w(eps) * big(c.real(0, 2));
		e			 = make<T>(w(e) + by);
		const big gap = maxabs(b(moved) - P);
		if (babs(gap - w(eps)) > w(eps) * p2(-6))
		{
			CHECK(Q<T>::approx_equal(p, moved, eps) == (gap < w(eps)), "approx_equal at a distance of " << sh(gap) << " with " << sh(w(eps)));
			CHECK(p.approx_equal(moved, eps) == (gap < w(eps)) && muu::approx_equal(moved, p, eps) == (gap < w(eps)), "approx_equal forms");
		}
		if (babs(maxabs(P) - w(eps)) > w(eps) * p2(-6))
			CHECK(Q<T>::approx_zero(p, eps) == (maxabs(P) < w(eps)) && p.approx_zero(eps) == (maxabs(P) < w(eps)) && muu::approx_zero(p, eps) == (maxabs(P) < w(eps)), "approx_zero");
		// layout
		CHECK(p.template get<0>() == p.s && p.template get<1>() == p.v && *p.data() == p.s && p.data()[1] == p.v.x && p.data()[3] == p.v.z, "access");
		const Q<T> cp{ p.s, p.v };
		CHECK((cp == p && Q<T>{ p.s, p.v.x, p.v.y, p.v.z } == p), "construction");
		const auto [s_, v_] = p;
		CHECK(s_ == p.s && v_ == p.v, "structured bindings");
		NEARQ(double, Q<double>{ p }, P, babs(maxabs(P)) * p2(-53), "conversion to double");
		// normalising
		const big l = len(P);
		if (l > p2(-8))
		{
			NEARQ(T, Q<T>::normalize(p), unitq(P), u * 12, "normalize");
			auto n = p;
			CHECK(&n.normalize() == &n && n == Q<T>::normalize(p) && muu::normalize(p) == n, "normalize forms");
			CHECK(n.normalized() && muu::normalized(n) && Q<T>::normalized(n), "normalize() does not yield normalized()");
		}
		if (babs(l - 1) > (fp<T>::digits <= 11 ? big(0.02) : big(2e-6)))
			CHECK(!p.normalized(), "a length of " << sh(l) << " passes as normalized");
	}

	template <typename T>
	void rotate(pbt::Case& c)
	{
		const auto p = narrow<T>(gen_quat(c)), q = narrow<T>(gen_quat(c)), r = narrow<T>(gen_quat(c));
		const auto x = any_vec<T>(c);
		const big u = unit<T>(), tiny = ulp_at<T>(0);
		const bq P = b(p), R = b(q);
		const b3 X = b(x);
		NOTE(sh(P) << " then " << sh(R) << " on " << sh(X));
		c.nontrivial(maxabs(P.v) != 0 && maxabs(R.v) != 0);
		const big s = u * 40 * len(X) + tiny * 8;
		const b3 px = times(rotation(P), X);
		NEAR3(T, p * x, px, s, "the rotated vector");
		CHECK(x * p == p * x, "vector * quaternion");
		NEAR3(T, p.conjugate() * (p * x), X, s * 2, "rotating back");
		NEAR3(T, (p * q) * x, times(mul(rotation(P), rotation(R)), X), s * 3, "the composed rotation");
		NEAR3(T, p * (q * x), times(mul(rotation(P), rotation(R)), X), s * 3, "successive rotations");
		CHECK(babs(len(b(p * x)) - len(X)) <= s * 2, "rotating changes the length");
		NEARQ(T, (p * q) * r, mul(mul(P, R), b(r)), u * 40, "p q r");
		NEARQ(T, p * (q * r), mul(mul(P, R), b(r)), u * 40, "p (q r)");
		NEARQ(T, p * Q<T>::constants::identity, P, 0, "times the identity");
		NEARQ(T, Q<T>::constants::identity * p, P, 0, "the identity times");
		NEAR3(T, (muu::matrix<T, 3, 3>::from_quaternion(p) * x), px, s * 2, "the matrix of the quaternion");
	}

	template <typename T>
	void scaled(pbt::Case& c)
	{
		const auto q = narrow<T>(gen_quat(c));
		const T k	 = c.chance(1, 3) ? make<T>(big(c.i(-4, 8)) / 4) : make<T>(c.real(-5, 5));
		const bq R	 = b(q);
		NOTE(sh(R) << " * " << sh(w(k)));
		const big u = unit<T>(), l = len(R.v);
		if (l != 0 && l < p2(fp<T>::digits == 11 ? -10 : -40))
			pbt::skip();
		c.nontrivial(l != 0 && !(k == T(1)));
		c.cls(R.s < 0, "more than half a turn");
		// the shorter way round
		const big flip = R.s < 0 ? -1 : 1, angle = 2 * BIG(atan2, l, R.s * flip);
		const b3 axis = l == 0 ? b3{ 1, 0, 0 } : R.v * (flip / l);
		const big s = u * (40 + babs(w(k)) * 12);
		const bq want = from_aa(axis, angle * w(k));
		NEARQ(T, q * k, want, s, "scaling");
		CHECK(k * q == q * k, "scalar * quaternion");
		auto m = q;
		CHECK(&(m *= k) == &m && m == q * k, "*=");
		NEAR3(T, (q * make<T>(0.5)) * ((q * make<T>(0.5)) * V3<T>{ T(1), T(2), T(3) }), times(rotation(R), { 1, 2, 3 }), u * 300, "half the rotation, twice");
	}

	template <typename T>
	void interpolate(pbt::Case& c)
	{
		const bq A = gen_quat(c);
		bq B	   = gen_quat(c);
		if (c.chance(1, 3)) // nearby
			B = mul(from_aa(gen_dir(c), c.real(-1, 1) * p2(-static_cast<int>(c.u(0, 20)))), A);
		if (c.chance(1, 4))
			B = B * -1;
		const auto a = narrow<T>(A), z = narrow<T>(B);
		const T t	 = c.chance(1, 4) ? make<T>(big(c.u(0, 4)) / 4) : make<T>(c.real(0, 1));
		bq P = unitq(b(a)), R = unitq(b(z));
		NOTE(sh(P) << " to " << sh(R) << " at " << sh(w(t)));
		const big u = unit<T>();
		big d = dot(P, R);
		if (babs(d) < u * 16)
			pbt::skip(); // half a turn apart: both ways are equally long
		if (d < 0)
		{
			R = R * -1;
			d = -d;
		}
		c.nontrivial(t > T(0) && t < T(1));
		c.cls(d > big(0.9995), "close");
		const big chord = len(R - P), th = chord >= 2 ? BIG(acos, d) : 2 * BIG(asin, chord / 2);
		const big sn = BIG(sin, th);
		const bq want = sn < p2(-50) ? P * (1 - w(t)) + R * w(t) : P * (BIG(sin, (1 - w(t)) * th) / sn) + R * (BIG(sin, w(t) * th) / sn);
		// closer than 0.0317 the interpolation is linear
		const big slack = u * 200 + (d > big(0.9994) ? th * th * th * big(0.02) : big(0));
		NEARQ(T, Q<T>::slerp(a, z, t), want, slack, "slerp");
		NEARQ(T, muu::slerp(a, z, t), want, slack, "free slerp");
		auto m = a;
		CHECK(&m.slerp(z, t) == &m && m == Q<T>::slerp(a, z, t), "in-place slerp");
		m = z;
		m.slerp(m, t);
		NEARQ(T, m, b(z), u * 40, "slerp to itself");
		CHECK(babs(len(b(Q<T>::slerp(a, z, t))) - 1) <= u * 200, "slerp leaves the unit sphere");
		NEARQ(T, Q<T>::slerp(a, z, T(0)), P, u * 40, "the start");
		NEARQ(T, Q<T>::slerp(a, z, T(1)), R, u * 200, "the end");
	}

	template <typename T>
	void between(pbt::Case& c)
	{
		constexpr bool small = fp<T>::digits == 11;
		const b3 d = gen_dir(c);
		b3 e	   = gen_dir(c);
		const big off = c.real(-1, 1) * p2(-static_cast<int>(c.u(0, small ? 8 : 30)));
		switch (c.u(0, 3))
		{
			case 0: e = d + gen_dir(c) * off; break;
			case 1: e = gen_dir(c) * off - d; break;
			default: break;
		}
		if (len(e) < p2(-8))
			pbt::skip();
		e = unitv(e);
		if (c.chance(1, 8))
			e = d;
		if (c.chance(1, 8))
			e = -d;
		const bool units = c.chance(1, 3);
		const big ld	 = units ? big(1) : c.real(0.125, 16) * p2(c.i(-2, 2)), le = units ? big(1) : c.real(0.125, 16) * p2(c.i(-2, 2));
		const auto from = narrow<T>(d * ld), to = narrow<T>(e * le);
		const b3 F = unitv(b(from)), G = unitv(b(to));
		NOTE(sh(b(from)) << " onto " << sh(b(to)));
		const big u = unit<T>(), cosine = dot(F, G);
		c.nontrivial(len(F - G) > u * 8);
		c.cls(!units, "other lengths");
		c.cls(cosine < big(-0.999), "nearly opposite");
		const auto q = Q<T>::from_rotation(from, to);
		NOTE("gave " << sh(b(q)));
		const big eps  = fp<T>::digits <= 24 ? big(2.0e-5) : fp<T>::digits == 53 ? big(2e-14) : fp<T>::digits == 64 ? big(2e-17) : big(2e-32);
		const big half_cos = BIG(sqrt, bmax((1 + cosine) / 2, eps / 2));
		big slack		   = u * (small ? 16 : 24) + (small ? p2(-24) : u) * 24 / half_cos;
		if (1 + cosine < eps) // treated as exactly opposite
			slack += BIG(sqrt, 2 * eps);
		CHECK(babs(len(b(q)) - 1) <= u * 16, "not a unit quaternion");
		const b3 got = times(rotation(b(q)), F);
		CHECK(maxabs(got - G) <= slack, "maps " << sh(F) << " to " << sh(got) << " instead of " << sh(G) << " within " << sh(slack));
		// by the shortest way: the axis is perpendicular to both
		CHECK(babs(dot(b(q).v, F)) <= slack * 4 && w(q.s) >= -slack, "takes a detour");
		NEAR3(T, q * from, G * len(b(from)), (slack + u * 40) * len(b(from)), "rotating the vector");
	}

#define ALL(name, ...)                                                                                                 \
	PROP_T(name " algebra", 4000, 100000, (algebra<__VA_ARGS__>));                                                     \
	PROP_T(name " rotate", 4000, 100000, (rotate<__VA_ARGS__>));                                                       \
	PROP_T(name " scaled", 4000, 100000, (scaled<__VA_ARGS__>));                                                       \
	PROP_T(name " slerp", 4000, 100000, (interpolate<__VA_ARGS__>));                                                   \
	PROP_T(name " between", 6000, 150000, (between<__VA_ARGS__>))
#if PART == 0
	ALL("float", float);
#elif PART == 1
	ALL("double", double);
#elif PART == 2
	ALL("half", half);
#elif PART == 3
	ALL("long double", long double);
#elif PART == 4
#if MUU_HAS_FLOAT128
	ALL("float128", __float128);
#endif
#endif
}
