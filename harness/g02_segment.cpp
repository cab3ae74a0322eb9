// G02: line segments against their parametrisation
#include <muu/core.h>
#include "common.hpp"
#include "geo.hpp"
#ifndef PART
#define PART 0
#endif

namespace
{
	template <typename T>
	using V3 = muu::vector<T, 3>;
	template <typename T>
	using Seg = muu::line_segment<T>;

	// two points, sometimes close together or equal
	template <typename T>
	Seg<T> gen_segment(pbt::Case& c, const coords& k, bool allow_point = true)
	{
		const b3 a = k.pt(c);
		b3 e	   = k.pt(c);
		if (allow_point && c.chance(1, 12))
			e = a;
		else if (!k.exact() && c.chance(1, 6)) // short
			e = a + (e - a) * p2(-static_cast<int>(c.u(1, 6)));
		else if (c.chance(1, 8)) // along an axis
		{
			const b3 f	   = e;
			const size_t i = c.below(3);
			e			   = a;
			e[i]		   = f[i];
		}
		return Seg<T>{ narrow<T>(a), narrow<T>(e) };
	}
	big line_distance(b3 a, b3 e, b3 p) { return len(cross(e - a, p - a)) / len(e - a); }

	template <typename T>
	void measures(pbt::Case& c)
	{
		const coords k = gen_coords(c);
		const Seg<T> s = gen_segment<T>(c, k);
		const b3 a = b(s[0]), e = b(s[1]);
		const big u = unit<T>(), m = bmax(maxabs(a), maxabs(e)), L = len(e - a);
		NOTE("segment " << sh(a) << " to " << sh(e));
		c.cls(L == 0, "zero length");
		c.nontrivial(L > 0);
		NEAR(T, s.length(), L, u * 8 * L, "length");
		if (!(fp<T>::digits == 11 && L * L > 60000))
			NEAR(T, s.length_squared(), L * L, u * 16 * L * L + p2(-24) * (fp<T>::digits == 11 ? 1 : 0), "length squared");
		NEAR3(T, s.midpoint(), (a + e) / 2, u * 4 * m, "midpoint");
		CHECK(s.degenerate() == (L == 0) && muu::degenerate(s) == (L == 0) && Seg<T>::degenerate(s) == (L == 0), "degenerate()");
		CHECK((Seg<T>::length(s) == s.length() && Seg<T>::length_squared(s) == s.length_squared() && Seg<T>::midpoint(s) == s.midpoint()), "forms");
		if (L > 0)
		{
			T out{};
			const auto d = s.direction(out);
			NEAR3(T, d, (e - a) / L, u * 8, "direction");
			NEAR(T, out, L, u * 8 * L, "length from direction()");
			NEAR3(T, s.direction(), (e - a) / L, u * 8, "direction");
			T out2{};
			CHECK((Seg<T>::direction(s, out2) == d && out2 == out && Seg<T>::direction(s) == s.direction()), "forms");
			const big by = k.exact() ? big(c.i(-3, 8)) : big(c.real(-3, 8));
			Seg<T> x	 = Seg<T>::extend(s, make<T>(by));
			CHECK(x[0] == s[0], "extending moves the start");
			NEAR3(T, x[1], e + (e - a) / L * by, u * 24 * (m + babs(by) + L), "extended by " << sh(by));
			Seg<T> in = s;
			CHECK(&in.extend(make<T>(by)) == &in && in == x, "in place");
		}
		Seg<T> r = s;
		CHECK(&r.reverse() == &r && r[0] == s[1] && r[1] == s[0] && Seg<T>::reverse(s) == r, "reverse");
		CHECK(r.length() == s.length() && r.length_squared() == s.length_squared() && r.midpoint() == s.midpoint(), "reversing changes the measures");
		// access and comparisons
		components(c, s);
		points_of(c, s, std::make_index_sequence<2>{});
		CHECK(s.begin() == &s[0] && s.end() - s.begin() == 2 && s.cend() - s.cbegin() == 2 && &s.template get<0>() == &s[0] && &s.template get<1>() == &s[1] && s.data() == &s[0].x && s.data()[5] == s[1].z, "access");
		size_t count = 0;
		for (auto& p : r)
			CHECK(&p == &r[count++], "iteration");
		CHECK(count == 2 && end(r) - begin(r) == 2 && cend(r) - cbegin(r) == 2, "iteration");
		CHECK((Seg<T>{ s[0].x, s[0].y, s[0].z, s[1].x, s[1].y, s[1].z } == s), "construction from scalars");
		const V3<T> arr[2] = { s[0], s[1] };
		CHECK((Seg<T>{ arr } == s), "construction from an array");
		const Seg<double> wd{ s };
		NEAR3(double, wd[0], a, m * p2(-53), "conversion");
		NEAR3(double, wd[1], e, m * p2(-53), "conversion");
		Seg<T> z = s;
		CHECK(z == s && !(z != s) && !z.infinity_or_nan() && !muu::infinity_or_nan(z) && Seg<T>::constants::zero.zero(), "comparison");
		const size_t at = c.below(6);
		T& f			= z[at / 3][at % 3];
		const T old		= f;
		f				= make<T>(w(f) + big(0.25) + babs(w(f)) / 2);
		const big moved = babs(w(f) - w(old));
		CHECK(!(z == s) && z != s, "equality ignores component " << at);
		for (const big g : { big(0.9), big(1.1) })
		{
			const T eps = make<T>(moved * g);
			CHECK(z.approx_equal(s, eps) == (g > 1) && muu::approx_equal(s, z, eps) == (g > 1) && Seg<T>::approx_equal(z, s, eps) == (g > 1), "approx_equal of component " << at);
		}
		Seg<T> single		  = Seg<T>::constants::zero;
		single[at / 3][at % 3] = make<T>(big(c.b() ? 0.5 : -0.5));
		CHECK(!single.zero() && single.approx_zero(T(1)) && !single.approx_zero(T(0.25)) && muu::approx_zero(single, T(1)) && !muu::approx_zero(single, T(0.25)), "zero tests of component " << at);
		f = make<T>(big(1) / big(0));
		CHECK(z.infinity_or_nan() && muu::infinity_or_nan(z) && Seg<T>::infinity_or_nan(z), "infinity_or_nan() of component " << at);
	}

	template <typename T>
	void points(pbt::Case& c)
	{
		const coords k = gen_coords(c);
		const Seg<T> s = gen_segment<T>(c, k);
		const b3 a = b(s[0]), e = b(s[1]);
		b3 p = k.pt(c);
		switch (c.u(0, 3))
		{
			case 0: // on the line
				p = a + (e - a) * c.real(-0.5, 1.5);
				break;
			case 1: // near the segment
				p = a + (e - a) * c.real(0, 1) + gen_dir(c) * (c.real(0, 4) * p2(-static_cast<int>(c.u(0, 10))));
				break;
		}
		const V3<T> P = narrow<T>(p);
		p			  = b(P);
		const big u = unit<T>(), m = bmax(bmax(maxabs(a), maxabs(e)), maxabs(p)), slack = u * 24 * m;
		NOTE("segment " << sh(a) << " to " << sh(e) << " point " << sh(p));
		const b3 near  = nearest_on_segment(a, e, p);
		const big dist = len(p - near), L = len(e - a);
		c.nontrivial(L > 0);
		c.cls(L == 0, "zero length");
		c.cls(near.x == a.x && near.y == a.y && near.z == a.z, "nearest to the start");
		c.cls(near.x == e.x && near.y == e.y && near.z == e.z, "nearest to the end");
		NEAR3(T, s.closest_point(P), near, slack, "closest point");
		CHECK((Seg<T>::closest_point(s, P) == s.closest_point(P)), "forms");
		NEAR3(T, Seg<T>::reverse(s).closest_point(P), near, slack, "closest point of the reversed segment");
		// the tolerance is one of squared distance
		const T eps	  = c.b() ? muu::default_epsilon<T> : make<T>(c.real(0.001, 4));
		const big err = slack * 2 * (dist + slack), bound = w(eps);
		if (babs(dist * dist - bound) > err * 2 + bound * u * 8)
		{
			const bool want = dist * dist < bound;
			c.cls(want, "contained");
			CHECK(s.contains(P, eps) == want && Seg<T>::reverse(s).contains(P, eps) == want, "contains() a point " << sh(dist) << " away with tolerance " << sh(bound));
		}
		CHECK((Seg<T>::contains(s, P, eps) == s.contains(P, eps) && Seg<T>::contains(s[0], s[1], P, eps) == s.contains(P, eps)), "forms");
		CHECK((Seg<T>::contains(s, P) == s.contains(P) && s.contains(P) == s.contains(P, muu::default_epsilon<T>)), "default tolerance");
		CHECK(s.contains(s[0]) && (slack > w(muu::default_epsilon<T>) || s.contains(s[1])), "contains its ends");
		if (L > 0)
		{
			// direction errors grow with the distance along the line
			const big ld = line_distance(a, e, p), lerr = slack + u * 16 * len(p - a);
			if (babs(ld * ld - bound) > lerr * 4 * (ld + lerr) + bound * u * 8)
			{
				const bool want = ld * ld < bound;
				CHECK(s.colinear(P, eps) == want && Seg<T>::colinear(s, P, eps) == want, "colinear() with a point " << sh(ld) << " from the line with tolerance " << sh(bound));
			}
			CHECK(s.colinear(P) == s.colinear(P, muu::default_epsilon<T>), "default tolerance");
		}
		// several points: all of them
		std::vector<V3<T>> many;
		const size_t n = c.sz(0, 4);
		for (size_t i = 0; i < n; i++)
			many.push_back(c.b() ? P : narrow<T>(a + (e - a) * (big(c.u(0, 4)) / 4)));
		bool all = n > 0;
		for (const auto& q : many)
			all = all && s.contains(q, eps);
		Seg<T> mut = s;
		const V3<T> dummy{};
		const V3<T>* first = n ? many.data() : &dummy;
		CHECK(mut.contains(first, first + n, eps) == all, "contains() of " << n << " points");
	}

	template <typename T>
	void pairs(pbt::Case& c)
	{
		const coords k = gen_coords(c);
		const Seg<T> s = gen_segment<T>(c, k, false);
		b3 a = b(s[0]), e = b(s[1]);
		b3 f = k.pt(c), g = k.pt(c);
		switch (c.u(0, 4))
		{
			case 0: // on the same line
				f = a + (e - a) * (big(c.i(-2, 6)) / 4), g = a + (e - a) * (big(c.i(-2, 6)) / 4);
				break;
			case 1: // one end on the line
				(c.b() ? f : g) = a + (e - a) * (big(c.i(-2, 6)) / 4);
				break;
			case 2: // in a common plane
				g = a + (e - a) * (big(c.i(-4, 4)) / 2) + (f - a) * (big(c.i(-4, 4)) / 2);
				break;
			case 3: // parallel
				g = f + (e - a) * (big(c.i(-4, 4)) / 2);
		}
		const Seg<T> t{ narrow<T>(f), narrow<T>(g) };
		f = b(t[0]), g = b(t[1]);
		const big u = unit<T>(), m = bmax(bmax(maxabs(a), maxabs(e)), bmax(maxabs(f), maxabs(g))), L = len(e - a), slack = u * 24 * m;
		NOTE("segments " << sh(a) << " to " << sh(e) << " and " << sh(f) << " to " << sh(g));
		if (L < big(0.05))
			pbt::skip();
		c.nontrivial(len(g - f) > 0);
		// containment, colinearity: both ends
		const T eps		 = c.b() ? muu::default_epsilon<T> : make<T>(c.real(0.001, 4));
		CHECK(s.contains(t, eps) == (s.contains(t[0], eps) && s.contains(t[1], eps)) && Seg<T>::contains(s, t, eps) == s.contains(t, eps), "contains() of a segment");
		CHECK(s.colinear(t, eps) == (s.colinear(t[0], eps) && s.colinear(t[1], eps)) && Seg<T>::colinear(s, t, eps) == s.colinear(t, eps), "colinear() with a segment");
		CHECK(s.contains(t) == s.contains(t, muu::default_epsilon<T>) && s.colinear(t) == s.colinear(t, muu::default_epsilon<T>), "default tolerance");
		CHECK(s.contains(s, T(0.5)) && s.colinear(s, T(0.5)) && s.coplanar(s, T(0.5)), "itself");
		// coplanarity: how far is each point from the plane of the other three?
		const b3 q[4] = { a, e, f, g };
		big lo = 1e30, hi = 0;
		bool clear = true;
		const big triple = babs(dot(cross(e - a, f - a), g - a));
		for (int i = 0; i < 4; i++)
		{
			const b3 n	 = cross(q[(i + 2) % 4] - q[(i + 1) % 4], q[(i + 3) % 4] - q[(i + 1) % 4]);
			const big nl = len(n);
			if (nl < p2(-8) * m)
			{
				clear = clear && nl == 0;
				continue;
			}
			lo = bmin(lo, triple / nl), hi = bmax(hi, triple / nl);
		}
		// the plane is known as well as the other segment is clear of the line of the first
		big h = 1e30;
		for (int i = 0; i < 2; i++)
		{
			const b3 p0 = i ? f : a, p1 = i ? g : e, x = i ? a : f, y = i ? e : g;
			if (len(p1 - p0) > 0)
				h = bmin(h, bmax(line_distance(p0, p1, x), line_distance(p0, p1, y)));
		}
		const bool one_line = k.exact() && (h == 0 || len(g - f) == 0);
		const big e2 = w(eps), cerr = one_line ? slack * 8 * bmax(1, m / L) * m : slack * 8 * m * bmax(1, m / bmax(h, p2(-60)));
		const bool flat = k.exact() && triple == 0 && e2 > cerr;
		c.cls(flat, "coplanar");
		if (flat || (clear && hi + cerr < e2 / 2))
			CHECK(s.coplanar(t, eps) && t.coplanar(s, eps) && s.coplanar(Seg<T>::reverse(t), eps) && Seg<T>::reverse(s).coplanar(t, eps), "coplanar() segments, at most " << sh(hi) << " from a common plane, tolerance " << sh(e2));
		if (lo < 1e29 && lo - cerr > e2 * 2)
			CHECK(!s.coplanar(t, eps) && !t.coplanar(s, eps) && !s.coplanar(Seg<T>::reverse(t), eps) && !Seg<T>::reverse(s).coplanar(t, eps), "coplanar() segments, at least " << sh(lo) << " from any common plane, tolerance " << sh(e2));
		CHECK((Seg<T>::coplanar(s, t, eps) == s.coplanar(t, eps) && s.coplanar(t) == s.coplanar(t, muu::default_epsilon<T>)), "forms");
		// planes
		const muu::plane<T> pl{ narrow<T>(f), narrow<T>(gen_dir(c)) };
		const big d0 = dot(b(pl.normal), a) + w(pl.d), d1 = dot(b(pl.normal), e) + w(pl.d);
		if (babs(d0) > slack && babs(d1) > slack)
			CHECK(s.intersects(pl) == ((d0 < 0) != (d1 < 0)) && Seg<T>::intersects(s, pl) == s.intersects(pl) && Seg<T>::reverse(s).intersects(pl) == s.intersects(pl), "intersection with a plane, from " << sh(d0) << " to " << sh(d1));
	}
#define ALL(name, ...)                                                                                                 \
	PROP_T(name " measures", 18000, 1500000, (measures<__VA_ARGS__>));                                                   \
	PROP_T(name " points", 36000, 3000000, (points<__VA_ARGS__>));                                                      \
	PROP_T(name " pairs", 36000, 3000000, (pairs<__VA_ARGS__>))
#if PART == 0
	ALL("float", float);
#elif PART == 1
	ALL("double", double);
#elif PART == 2
	ALL("half", half);
#elif PART == 3
	ALL("long double", long double);
#endif
}
