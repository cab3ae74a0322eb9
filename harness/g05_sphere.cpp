// G05: spheres against distances
#include <muu/core.h>
#include "common.hpp"
#include "geo.hpp"
#ifndef PART
#define PART 0
#endif

namespace
{
	template <typename T>
	using V3 = muu::vector<T, 3>;
	template <typename T>
	using Tri = muu::triangle<T>;
	template <typename T>
	using Seg = muu::line_segment<T>;
	template <typename T>
	using Sph = muu::bounding_sphere<T>;

	template <typename T>
	constexpr double reach()
	{
		return fp<T>::digits == 11 ? 3 : 10;
	}
	template <typename T>
	Sph<T> gen_sphere(pbt::Case& c, const coords& k)
	{
		const b3 p = k.pt(c);
		big r	   = babs(k(c));
		if (!k.exact() && c.chance(1, 3))
			r = r * p2(-static_cast<int>(c.u(1, 4)));
		return Sph<T>{ narrow<T>(p), make<T>(r) };
	}
	// squares are compared: how far from the boundary a distance has to be for the answer to be certain
	template <typename T>
	bool sure(const coords& k, big dist, big bound, big m)
	{
		if (k.kind == 0 || (k.exact() && fp<T>::digits > 11))
			return true;
		return babs(dist - bound) > unit<T>() * 16 * m * (1 + m / bmax(bound, p2(-10))) + (fp<T>::digits == 11 ? p2(-10) : big(0));
	}

	template <typename T>
	void build(pbt::Case& c)
	{
		const coords k = gen_coords(c, reach<T>());
		const Sph<T> x = gen_sphere<T>(c, k);
		const b3 p	   = b(x.center);
		const big r = w(x.radius), u = unit<T>(), m = maxabs(p) + r;
		NOTE("sphere " << sh(p) << " radius " << sh(r));
		c.nontrivial(r > 0);
		c.cls(r == 0, "empty");
		CHECK((Sph<T>{ x.center.x, x.center.y, x.center.z, x.radius } == x && Sph<T>{ x.radius } == Sph<T>{ V3<T>{}, x.radius }), "construction");
		const Sph<double> wd{ x };
		NEAR3(double, wd.center, p, m * p2(-53), "conversion");
		NEAR(double, wd.radius, r, m * p2(-53), "conversion");
		components(c, x);
		CHECK(x.data() == &x.center.x && x.data()[3] == x.radius, "data()");
		NEAR(T, x.diameter(), r * 2, big(0), "diameter");
		const big vol = BIG(acos, big(-1)) * 4 / 3 * r * r * r, tiny = fp<T>::digits == 11 ? p2(-24) : big(0), vs = u * 12 * vol + tiny;
		if (!(fp<T>::digits == 11 && vol > 60000))
			NEAR(T, x.volume(), vol, vs, "volume");
		if (vol > big(0.01))
		{
			const T d = make<T>(big(c.i(1, 16)) / 4);
			if (w(d) * vol < 60000)
				NEAR(T, x.mass(d), w(d) * vol, u * 4 * w(d) * vol + vs * w(d), "mass");
			NEAR(T, x.density(d), w(d) / vol, u * 4 * w(d) / vol + vs / vol * w(d) / vol * 2 + tiny, "density");
		}
		CHECK(x.degenerate() == (r <= 0) && muu::degenerate(x) == (r <= 0) && Sph<T>::degenerate(x) == (r <= 0) && (Sph<T>{ x.center, T(-1) }.degenerate()), "degenerate()");
		const bool origin = p.x == 0 && p.y == 0 && p.z == 0;
		CHECK(x.empty() == (r == 0) && Sph<T>::empty(x) == (r == 0) && x.zero() == (r == 0 && origin) && Sph<T>::zero(x) == (r == 0 && origin), "empty() or zero()");
		CHECK(x.approx_empty(make<T>(r * 2 + big(0.1))) && Sph<T>::approx_empty(x, make<T>(r * 2 + big(0.1))), "approx_empty() with a large tolerance");
		if (r > big(0.05))
			CHECK(!x.approx_empty(make<T>(r * big(0.9))) && !Sph<T>::approx_empty(x, make<T>(r * big(0.9))), "approx_empty() with a small tolerance");
		CHECK(Sph<T>::constants::zero.zero() && w(Sph<T>::constants::unit.radius) == 1 && Sph<T>::constants::unit.center == V3<T>{}, "constants");
		const auto ct = x.collision_tester();
		CHECK(ct.center == x.center && ct.radius == x.radius, "collision tester");
		NEAR(T, ct.radius_squared, r * r, u * 2 * r * r + tiny, "collision tester");
		NEAR3(T, ct.min, (p - b3{ r, r, r }), u * 2 * m, "collision tester");
		NEAR3(T, ct.max, (p + b3{ r, r, r }), u * 2 * m, "collision tester");
		// moving
		const V3<T> off = narrow<T>(k.pt(c));
		Sph<T> t		= x;
		CHECK(&t.translate(off) == &t && t == Sph<T>::translate(x, off) && t.radius == x.radius, "translate()");
		NEAR3(T, t.center, p + b(off), u * 2 * (m + maxabs(b(off))), "translate()");
		t		  = x;
		const T f = make<T>(big(c.i(0, 12)) / 4);
		CHECK(&t.scale(f) == &t && t == Sph<T>::scale(x, f) && t.center == x.center, "scale()");
		NEAR(T, t.radius, r * w(f), u * 2 * r * w(f) + tiny, "scale()");
		// comparisons
		Sph<T> z = x;
		CHECK(z == x && !(z != x) && !z.infinity_or_nan() && !muu::infinity_or_nan(z), "comparison");
		const size_t at = c.below(4);
		T& e			= z.data()[at];
		const T old		= e;
		e				= make<T>(w(e) + big(0.25) + babs(w(e)) / 2);
		const big moved = babs(w(e) - w(old));
		CHECK(!(z == x) && z != x, "equality ignores component " << at);
		for (const big g : { big(0.9), big(1.1) })
		{
			const T eps = make<T>(moved * g);
			CHECK(z.approx_equal(x, eps) == (g > 1) && muu::approx_equal(x, z, eps) == (g > 1) && Sph<T>::approx_equal(z, x, eps) == (g > 1), "approx_equal of component " << at);
		}
		Sph<T> single	  = Sph<T>::constants::zero;
		single.data()[at] = make<T>(big(c.b() ? 0.5 : -0.5));
		CHECK(!single.zero() && single.empty() == (at < 3) && single.approx_zero(T(1)) && !single.approx_zero(T(0.25)) && muu::approx_zero(single, T(1)) && !muu::approx_zero(single, T(0.25)), "zero tests of component " << at);
		e = make<T>(big(1) / big(0));
		CHECK(z.infinity_or_nan() && muu::infinity_or_nan(z) && Sph<T>::infinity_or_nan(z), "infinity_or_nan() of component " << at);
	}

	template <typename T>
	void points(pbt::Case& c)
	{
		const coords k = gen_coords(c, reach<T>());
		const Sph<T> x = gen_sphere<T>(c, k);
		const b3 p	   = b(x.center);
		const big r	   = w(x.radius);
		b3 q		   = k.pt(c);
		if (c.chance(1, 3) && k.exact()) // right on the surface
		{
			q = p;
			q[c.below(3)] += c.b() ? r : -r;
		}
		else if (!k.exact() && c.chance(2, 3))
			q = p + gen_dir(c) * (r + c.real(-1, 1) * p2(-static_cast<int>(c.u(0, 10))));
		const V3<T> Q = narrow<T>(q);
		q			  = b(Q);
		NOTE("sphere " << sh(p) << " radius " << sh(r) << " point " << sh(q));
		c.nontrivial(r > 0);
		const big u = unit<T>(), d = len(q - p), m = maxabs(p) + maxabs(q) + r;
		if (sure<T>(k, d, r, m))
		{
			const bool in = d <= r + p2(-80);
			c.cls(in, "contained"), c.cls(babs(d - r) < p2(-80), "on the surface");
			CHECK((x.contains(Q) == in && Sph<T>::contains(x, Q) == in), "contains() a point at a distance of " << sh(d));
		}
		const b3 want = d <= r ? q : p + (q - p) * (r / d);
		NEAR3(T, x.closest_point(Q), want, u * 16 * m * (1 + (d > 0 && d > r ? r / d : big(0))) + (fp<T>::digits == 11 ? p2(-8) : big(0)), "closest_point()");
		if (d < r && sure<T>(k, d, r, m))
			CHECK(x.closest_point(Q) == Q, "closest_point() of a point inside");
		V3<T> many[4];
		const size_t cnt = c.sz(0, 4);
		bool all		 = cnt > 0;
		for (size_t i = 0; i < cnt; i++)
		{
			many[i] = c.chance(2, 3) ? x.center : c.b() ? Q : narrow<T>(k.pt(c));
			all		= all && x.contains(many[i]);
		}
		Sph<T> mut = x;
		CHECK(mut.contains(many, many + cnt) == all, "contains() of " << cnt << " points");
		const V3<T> R = c.b() ? x.center : narrow<T>(k.pt(c)), S = c.b() ? x.center : Q;
		const bool two = x.contains(Q) && x.contains(R), three = two && x.contains(S);
		CHECK((x.contains(Seg<T>{ Q, R }) == two && x.contains(Seg<T>{ R, Q }) == two && Sph<T>::contains(x, Q, R) == two && Sph<T>::contains(x, Seg<T>{ Q, R }) == two), "contains() of a segment");
		CHECK((x.contains(Tri<T>{ Q, R, S }) == three && x.contains(Tri<T>{ S, Q, R }) == three && x.contains(Tri<T>{ R, S, Q }) == three && Sph<T>::contains(x, Q, R, S) == three && Sph<T>::contains(x, Tri<T>{ R, S, Q }) == three), "contains() of a triangle");
	}

	template <typename T>
	void pairs(pbt::Case& c)
	{
		const coords k = gen_coords(c, reach<T>());
		const Sph<T> x = gen_sphere<T>(c, k);
		Sph<T> y	   = gen_sphere<T>(c, k);
		const b3 p	   = b(x.center);
		const big r	   = w(x.radius);
		if (c.chance(2, 3)) // touching, from outside or from inside
		{
			const big by  = c.b() ? r + w(y.radius) : babs(r - w(y.radius));
			const b3 axis = k.exact() ? c.b() ? b3{ 1, 0, 0 } : b3{ 0, 0, -1 } : gen_dir(c);
			y.center	  = narrow<T>(p + axis * (by + (k.exact() ? big(c.i(-1, 1)) : c.real(-1, 1) * p2(-static_cast<int>(c.u(0, 8))))));
		}
		const b3 q	= b(y.center);
		const big s = w(y.radius), d = len(p - q), m = maxabs(p) + maxabs(q) + r + s;
		NOTE("spheres " << sh(p) << " radius " << sh(r) << " and " << sh(q) << " radius " << sh(s));
		c.nontrivial(r > 0 && s > 0);
		const auto cx = x.collision_tester(), cy = y.collision_tester();
		if (sure<T>(k, d, r + s, m))
		{
			const bool want = d <= r + s + p2(-80);
			c.cls(want, "meeting"), c.cls(babs(d - r - s) < p2(-80), "touching");
			CHECK((x.intersects(y) == want && y.intersects(x) == want && Sph<T>::intersects(x, y) == want), "intersects() at a distance of " << sh(d));
			CHECK((cx(y) == want && cy(x) == want && cx(cy) == want && cy(cx) == want), "the collision testers at a distance of " << sh(d));
		}
		const big bound = r - s;
		if (bound < 0 ? babs(bound) > unit<T>() * 8 * m : sure<T>(k, d, bound, m) && (k.exact() || d + bound > p2(-6)))
		{
			const bool want = d <= bound + p2(-80);
			c.cls(want, "one in the other");
			CHECK((x.contains(y) == want && Sph<T>::contains(x, y) == want), "contains() at a distance of " << sh(d));
		}
	}

	template <typename T>
	void triangles(pbt::Case& c)
	{
		const coords k = gen_coords(c, reach<T>());
		Sph<T> x	   = gen_sphere<T>(c, k);
		const b3 v[3]  = { rounded<T>(k.pt(c)), rounded<T>(k.pt(c)), rounded<T>(k.pt(c)) };
		const b3 n	   = cross(v[1] - v[0], v[2] - v[0]);
		const big l1 = len(v[1] - v[0]), l2 = len(v[2] - v[1]), l3 = len(v[0] - v[2]), shortest = bmin(l1, bmin(l2, l3)), longest = bmax(l1, bmax(l2, l3));
		if (shortest < big(0.5) || len(n) < longest * longest * big(0.03))
			pbt::skip();
		b3 p = b(x.center);
		if (!k.exact() && c.chance(3, 4)) // around a point of the triangle, a vertex or an edge
		{
			const int way = static_cast<int>(c.u(0, 2));
			const size_t i = c.below(3);
			b3 on = v[i], out = unitv(n) * (c.b() ? 1 : -1);
			const b3 e = v[(i + 1) % 3], f = v[(i + 2) % 3], side = unitv(cross(e - on, n)) ;
			if (way == 0) // vertex
				out = unitv(unitv(on - e) * c.real(0, 1) + unitv(on - f) * c.real(0, 1) + out * c.real(0, 2));
			else if (way == 1) // edge
				on = on + (e - on) * c.real(0, 1), out = unitv(side * c.real(0.05, 1) + out * c.real(0, 1));
			else
			{
				const big s = c.real(0, 1), t = c.real(0, 1);
				on = on + (e - on) * s + (f - on) * ((1 - s) * t);
			}
			p = on + out * (w(x.radius) + c.real(-1, 1) * p2(-static_cast<int>(c.u(0, 8))));
		}
		x.center	= narrow<T>(p);
		p			= b(x.center);
		const big r = w(x.radius), d = len(p - nearest_on_triangle(v[0], v[1], v[2], p));
		const Tri<T> t{ narrow<T>(v[0]), narrow<T>(v[1]), narrow<T>(v[2]) };
		NOTE("sphere " << sh(p) << " radius " << sh(r) << " triangle " << sh(v[0]) << ", " << sh(v[1]) << ", " << sh(v[2]));
		c.nontrivial(r > 0);
		const big m = maxabs(p) + maxabs(v[0]) + longest + r, cond = longest * longest / len(n) * longest / shortest;
		if (babs(d - r) > unit<T>() * 64 * m * cond * (1 + m / bmax(r, p2(-10))))
		{
			const bool want = d <= r;
			c.cls(want, "meeting");
			CHECK((x.intersects(t) == want && Sph<T>::intersects(x, t) == want && Sph<T>::intersects(x, t[0], t[1], t[2]) == want && Sph<T>::intersects(x, t[1], t[2], t[0]) == want && Sph<T>::intersects(x, t[1], t[0], t[2]) == want),
				  "intersects() a triangle at a distance of " << sh(d));
			CHECK((t.intersects(x) == want && Tri<T>::intersects(t, x) == want && Tri<T>::intersects(t[0], t[1], t[2], x) == want), "a triangle intersects() at a distance of " << sh(d));
		}
	}

#define ALL(name, ...)                                                                                                 \
	PROP_T(name " build", 30000, 800000, (build<__VA_ARGS__>));                                                        \
	PROP_T(name " points", 60000, 2000000, (points<__VA_ARGS__>));                                                     \
	PROP_T(name " pairs", 60000, 2000000, (pairs<__VA_ARGS__>))
#if PART == 0
	ALL("float", float);
	PROP_T("float triangles", 90000, 4000000, (triangles<float>));
#elif PART == 1
	ALL("double", double);
	PROP_T("double triangles", 90000, 4000000, (triangles<double>));
#elif PART == 2
	ALL("half", muu::half);
	PROP_T("half triangles", 60000, 2000000, (triangles<muu::half>));
#else
	ALL("long double", long double);
	PROP_T("long double triangles", 60000, 2000000, (triangles<long double>));
#endif
}
