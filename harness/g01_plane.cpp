// G01: planes against the signed distance they define
#include <muu/core.h>
#include "common.hpp"
#include "geo.hpp"
#ifndef PART
#define PART 0
#endif

namespace
{
	template <typename T>
	using P = muu::plane<T>;
	template <typename T>
	using V3 = muu::vector<T, 3>;
	template <typename T>
	using Seg = muu::line_segment<T>;

	struct bplane
	{
		b3 n;
		big d;
		big at(b3 p) const { return dot(n, p) + d; }
	};
	template <typename T>
	bplane bp(const P<T>& p)
	{
		return { b(p.normal), w(p.d) };
	}
	template <typename T>
	P<T> gen_plane(pbt::Case& c, const coords& k)
	{
		if (k.exact()) // along an axis, everything exact
		{
			b3 n;
			n[c.below(3)] = c.b() ? 1 : -1;
			return P<T>{ narrow<T>(n), make<T>(k(c)) };
		}
		return P<T>{ narrow<T>(gen_dir(c)), make<T>(k(c)) };
	}

	template <typename T>
	void build(pbt::Case& c)
	{
		const coords k = gen_coords(c);
		const auto pos = narrow<T>(k.pt(c)), dir = narrow<T>(gen_dir(c));
		const big u = unit<T>();
		NOTE("at " << sh(b(pos)) << " facing " << sh(b(dir)));
		const P<T> p{ pos, dir };
		CHECK(p.normal == dir, "normal");
		NEAR(T, p.d, -dot(b(pos), b(dir)), u * 4 * (maxabs(b(pos)) + 1), "d");
		CHECK(babs(bp(p).at(b(pos))) <= u * 8 * (maxabs(b(pos)) + 1), "the plane misses the point it was made from");
		// three points
		const b3 a = rounded<T>(k.pt(c)), e = rounded<T>(k.pt(c)), f = rounded<T>(k.pt(c));
		const b3 n	= cross(e - a, f - a);
		const big m = bmax(maxabs(a), bmax(maxabs(e), maxabs(f))) + 1, thin = len(n) / (len(e - a) * len(f - a) + p2(-60));
		if (len(e - a) < big(0.1) || len(f - a) < big(0.1) || thin < big(0.05) || (fp<T>::digits == 11 && thin < big(0.5)))
			pbt::skip();
		NOTE("through " << sh(a) << ", " << sh(e) << ", " << sh(f));
		c.nontrivial(true);
		const P<T> q{ narrow<T>(a), narrow<T>(e), narrow<T>(f) };
		// edges are differences of coordinates of magnitude m
		const big slack = u * 24 / thin * bmax(1, m / bmin(len(e - a), len(f - a)) * (fp<T>::digits == 11 ? 4 : 1));
		NEAR3(T, q.normal, unitv(n), slack, "normal of three points");
		for (const b3& x : { a, e, f })
			CHECK(babs(bp(q).at(x)) <= slack * m * 2, "the plane misses " << sh(x) << " by " << sh(bp(q).at(x)));
		const muu::triangle<T> tri{ narrow<T>(a), narrow<T>(e), narrow<T>(f) };
		CHECK((P<T>::from_triangle(narrow<T>(a), narrow<T>(e), narrow<T>(f)) == q && P<T>::from_triangle(tri) == q && P<T>{ tri } == q && tri.plane() == q), "forms");
		CHECK((static_cast<P<T>>(tri) == q && muu::triangle<T>::plane(tri[0], tri[1], tri[2]) == q), "forms");
	}

	template <typename T>
	void queries(pbt::Case& c)
	{
		const coords k = gen_coords(c);
		const P<T> p   = gen_plane<T>(c, k);
		const bplane B = bp(p);
		V3<T> pts[5];
		const size_t n = c.sz(2, 5);
		big mag		   = 0;
		for (size_t i = 0; i < n; i++)
		{
			b3 x = k.pt(c);
			if (c.chance(1, 6)) // on the plane
				x = x - B.n * B.at(x);
			pts[i] = narrow<T>(x);
			mag	   = bmax(mag, maxabs(b(pts[i])));
		}
		const bool exact = k.exact();
		const big u = unit<T>(), slack = u * 8 * (mag * 3 + babs(B.d) + 1);
		NOTE("plane " << sh(B.n) << " " << sh(B.d) << " points " << sh(b(pts[0])) << " " << sh(b(pts[1])));
		c.nontrivial(!exact || mag > 0);
		const auto& x	 = pts[0];
		const b3 X		 = b(x);
		const big sd	 = B.at(X);
		c.cls(babs(sd) <= slack, "on the plane");
		NEAR(T, p.signed_distance(x), sd, slack, "signed distance");
		NEAR(T, p.distance(x), babs(sd), slack, "distance");
		if (exact)
			CHECK(w(p.signed_distance(x)) == sd && w(p.distance(x)) == babs(sd), "distance");
		CHECK((P<T>::signed_distance(p, x) == p.signed_distance(x) && P<T>::distance(p, x) == p.distance(x)), "forms");
		NEAR3(T, p.project(x), X - B.n * sd, slack * 2, "projection");
		CHECK((P<T>::project(p, x) == p.project(x)), "forms");
		CHECK(babs(B.at(b(p.project(x)))) <= slack * 3, "the projection is off the plane by " << sh(B.at(b(p.project(x)))));
		const Seg<T> s{ pts[0], pts[1] };
		CHECK((p.project(s) == Seg<T>{ p.project(pts[0]), p.project(pts[1]) } && P<T>::project(p, s) == p.project(s)), "projected segment");
		NEAR3(T, p.origin(), B.n * -B.d, slack, "origin");
		CHECK((P<T>::origin(p) == p.origin()), "forms");
		// containment
		const T eps = c.b() ? muu::default_epsilon<T> : make<T>(c.real(0.01, 3));
		if (babs(babs(sd) - w(eps)) > slack || exact)
			CHECK(p.contains(x, eps) == (babs(sd) < w(eps)), "contains() at a distance of " << sh(sd) << " with tolerance " << sh(w(eps)));
		CHECK((P<T>::contains(p, x, eps) == p.contains(x, eps) && P<T>::contains(p, x) == p.contains(x) && p.contains(x) == p.contains(x, muu::default_epsilon<T>)), "forms");
		// sides
		bool clear = true, same = true;
		for (size_t i = 0; i < n; i++)
		{
			if (!exact && babs(B.at(b(pts[i]))) <= slack)
				clear = false;
			same = same && (B.at(b(pts[i])) >= 0) == (sd >= 0);
		}
		if (clear)
		{
			bool got = false, got2 = false;
			switch (n)
			{
				case 2: got = p.same_side(pts[0], pts[1]), got2 = P<T>::same_side(p, pts[0], pts[1]); break;
				case 3: got = p.same_side(pts[0], pts[1], pts[2]), got2 = P<T>::same_side(p, pts[0], pts[1], pts[2]); break;
				case 4: got = p.same_side(pts[0], pts[1], pts[2], pts[3]), got2 = P<T>::same_side(p, pts[0], pts[1], pts[2], pts[3]); break;
				default: got = p.same_side(pts[0], pts[1], pts[2], pts[3], pts[4]), got2 = P<T>::same_side(p, pts[0], pts[1], pts[2], pts[3], pts[4]);
			}
			CHECK(got == same && got2 == same, "same_side() of " << n << " points");
		}
		const big sd1 = B.at(b(pts[1]));
		if (exact || (babs(sd) > slack && babs(sd1) > slack))
		{
			const bool want = bmin(sd, sd1) <= 0 && bmax(sd, sd1) >= 0;
			CHECK(p.intersects(s) == want && s.intersects(p) == want && s.reverse(s).intersects(p) == want, "intersection with a segment from " << sh(sd) << " to " << sh(sd1));
			CHECK((P<T>::intersects(p, s) == want && Seg<T>::intersects(s, p) == want), "forms");
		}
		// boxes
		const muu::bounding_box<T> bb{ pts[0], V3<T>{ make<T>(c.u(0, 12) / big(4)), make<T>(c.u(0, 12) / big(4)), make<T>(c.u(0, 12) / big(4)) } };
		big lo, hi;
		range(b(bb), B.n, lo, hi);
		lo += B.d, hi += B.d;
		if (exact || (babs(lo) > slack * 3 && babs(hi) > slack * 3))
		{
			const bool want = lo <= 0 && hi >= 0;
			c.cls(want, "box hit");
			CHECK(p.intersects(bb) == want && bb.intersects(p) == want, "intersection with a box reaching from " << sh(lo) << " to " << sh(hi));
			CHECK((P<T>::intersects(p, bb) == want && muu::bounding_box<T>::intersects(bb, p) == want), "forms");
		}
	}

	template <typename T>
	void whole(pbt::Case& c)
	{
		const coords k = gen_coords(c);
		P<T> p		   = gen_plane<T>(c, k);
		const big u	   = unit<T>();
		// normalising
		const big s	 = c.real(0.1, 4);
		const P<T> l{ narrow<T>(b(p.normal) * s), make<T>(w(p.d) * s) };
		const bplane L = bp(l);
		P<T> nl		   = P<T>::normalize(l);
		NOTE("plane " << sh(L.n) << " " << sh(L.d));
		NEAR3(T, nl.normal, unitv(L.n), u * 8, "normalized normal");
		NEAR(T, nl.d, L.d / len(L.n), u * 8 * (1 + babs(L.d / len(L.n))), "normalized d");
		CHECK(nl.normalized() && muu::normalized(nl) && P<T>::normalized(nl), "normalized()");
		if (babs(len(L.n) - 1) > big(0.01))
			CHECK(!l.normalized() && !muu::normalized(l) && !P<T>::normalized(l), "normalized() for a length of " << sh(len(L.n)));
		P<T> in = l;
		CHECK(&in.normalize() == &in && in == nl, "in place");
		// transforming
		const affine t = gen_affine(c, tx_kind::any);
		const auto m   = t.matrix<T>();
		const affine a = t.seen<T>();
		P<T> q		   = P<T>::transform(p, m);
		in			   = p;
		CHECK(&in.transform(m) == &in && in == q, "in place");
		const bplane B = bp(p), Q = bp(q);
		NOTE("plane " << sh(B.n) << " " << sh(B.d) << " by " << sh(b(m)) << " gave " << sh(Q.n) << " " << sh(Q.d));
		c.nontrivial(true);
		CHECK(babs(len(Q.n) - len(B.n)) <= u * 16, "the normal's length changes from " << sh(len(B.n)) << " to " << sh(len(Q.n)));
		for (int i = 0; i < 3; i++)
		{
			const b3 r	= k.pt(c);
			const b3 on = r - B.n * (B.at(r) / len2(B.n)), off = on + B.n;
			const big slack = u * 400 * (maxabs(on) + babs(B.d) + 12);
			CHECK(babs(Q.at(a(on))) <= slack, sh(on) << " is on the plane but " << sh(a(on)) << " is off the transformed one by " << sh(Q.at(a(on))));
			CHECK(Q.at(a(off)) > 0, "the sides of the plane are swapped");
		}
		// comparisons
		P<T> z		   = p;
		CHECK(z == p && !(z != p) && !p.zero() && !P<T>::zero(p) && P<T>::constants::zero.zero() && !p.infinity_or_nan() && !muu::infinity_or_nan(p), "comparison");
		const size_t at = c.below(4);
		T& e			= at == 3 ? z.d : z.normal[at];
		const T old		= e;
		e				= make<T>(w(e) + big(0.25) + babs(w(e)) / 2);
		const big moved = babs(w(e) - w(old));
		CHECK(!(z == p) && z != p, "equality ignores component " << at);
		for (const big f : { big(0.9), big(1.1) })
		{
			const T eps = make<T>(moved * f);
			CHECK(z.approx_equal(p, eps) == (f > 1) && muu::approx_equal(p, z, eps) == (f > 1) && P<T>::approx_equal(z, p, eps) == (f > 1), "approx_equal of component " << at);
		}
		P<T> single = P<T>::constants::zero;
		(at == 3 ? single.d : single.normal[at]) = make<T>(big(c.b() ? 0.5 : -0.5));
		CHECK(!single.zero() && single.approx_zero(T(1)) && !single.approx_zero(T(0.25)) && muu::approx_zero(single, T(1)) && !muu::approx_zero(single, T(0.25)), "zero tests of component " << at);
		e = make<T>(big(1) / big(0));
		CHECK(z.infinity_or_nan() && muu::infinity_or_nan(z) && P<T>::infinity_or_nan(z), "infinity_or_nan() of component " << at);
		CHECK(p.data() == &p.normal.x && p.data()[3] == p.d, "data()");
		components(c, p);
		const P<double> wd{ p };
		NEAR3(double, wd.normal, B.n, p2(-53), "conversion");
		NEAR(double, wd.d, B.d, babs(B.d) * p2(-53), "conversion");
		using K = typename P<T>::constants;
		CHECK((K::xy.normal == V3<T>{ T(0), T(0), T(1) } && K::xz.normal == V3<T>{ T(0), T(1), T(0) } && K::yz.normal == V3<T>{ T(1), T(0), T(0) }), "constants");
	}
#define ALL(name, ...)                                                                                                 \
	PROP_T(name " construction", 15000, 600000, (build<__VA_ARGS__>));                                                   \
	PROP_T(name " queries", 40000, 2000000, (queries<__VA_ARGS__>));                                                     \
	PROP_T(name " whole planes", 15000, 800000, (whole<__VA_ARGS__>))
#if PART == 0
	ALL("float", float);
#elif PART == 1
	ALL("double", double);
#elif PART == 2
	ALL("half", half);
#elif PART == 3
	ALL("long double", long double);
#endif
}
