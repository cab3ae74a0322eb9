// G04: axis-aligned boxes against their corner geometry
#include <muu/core.h>
#include <muu/span.h>
#include "common.hpp"
#include "geo.hpp"
#ifndef PART
#define PART 0
#endif

namespace
{
	template <typename T>
	using V3 = muu::vector<T, 3>;
	template <typename T>
	using Box = muu::bounding_box<T>;
	template <typename T>
	using Obb = muu::oriented_bounding_box<T>;
	template <typename T>
	using Tri = muu::triangle<T>;
	template <typename T>
	using Seg = muu::line_segment<T>;
	template <typename T>
	using Sph = muu::bounding_sphere<T>;

	constexpr muu::box_corner which[] = { muu::box_corner::min, muu::box_corner::x, muu::box_corner::y, muu::box_corner::xy,
										  muu::box_corner::z, muu::box_corner::xz, muu::box_corner::yz, muu::box_corner::max };

	template <typename T>
	constexpr double reach()
	{
		return fp<T>::digits == 11 ? 3 : 10;
	}
	template <typename T>
	Box<T> gen_box(pbt::Case& c, const coords& k, bool flat = true)
	{
		const b3 p = k.pt(c);
		b3 e	   = k.pt(c);
		for (int i = 0; i < 3; i++)
			e[i] = babs(e[i]);
		if (!flat || !c.chance(1, 6))
			for (int i = 0; i < 3; i++)
				if (e[i] < big(0.05))
					e[i] = 1;
		return Box<T>{ narrow<T>(p), narrow<T>(e) };
	}
	void bounds(const std::vector<b3>& pts, b3& lo, b3& hi)
	{
		lo = hi = pts[0];
		for (const auto& p : pts)
			for (int i = 0; i < 3; i++)
				lo[i] = bmin(lo[i], p[i]), hi[i] = bmax(hi[i], p[i]);
	}
	// the tightest box around some points
	template <typename T>
	void tight(pbt::Case& c, const Box<T>& got, const std::vector<b3>& pts, bool exact, big slack, const char* what)
	{
		b3 lo, hi;
		bounds(pts, lo, hi);
		if (exact)
			slack = 0;
		NEAR3(T, got.center, (lo + hi) / 2, slack, what << ": center");
		NEAR3(T, got.extents, (hi - lo) / 2, slack, what << ": extents");
	}

	template <typename T>
	void build(pbt::Case& c)
	{
		const coords k = gen_coords(c, reach<T>());
		const Box<T> x = gen_box<T>(c, k);
		const b3 p = b(x.center), e = b(x.extents);
		const big u = unit<T>(), m = maxabs(p) + maxabs(e);
		NOTE("box " << sh(p) << " +- " << sh(e));
		const bool flat = e.x <= 0 || e.y <= 0 || e.z <= 0;
		c.nontrivial(!flat);
		c.cls(flat, "flat");
		CHECK((Box<T>{ x.center, x.extents.x, x.extents.y, x.extents.z } == x && Box<T>{ x.center.x, x.center.y, x.center.z, x.extents } == x), "construction");
		CHECK((Box<T>{ x.center.x, x.center.y, x.center.z, x.extents.x, x.extents.y, x.extents.z } == x), "construction from scalars");
		CHECK((Box<T>{ x.center, x.extents.y } == Box<T>{ x.center, V3<T>{ x.extents.y } }), "construction of a cube");
		CHECK((Box<T>{ x.extents } == Box<T>{ V3<T>{}, x.extents } && Box<T>{ x.extents.z } == Box<T>{ V3<T>{}, V3<T>{ x.extents.z } }), "construction at the origin");
		const Box<double> wd{ x };
		NEAR3(double, wd.center, p, m * p2(-53), "conversion");
		NEAR3(double, wd.extents, e, m * p2(-53), "conversion");
		components(c, x);
		CHECK(x.data() == &x.center.x && x.data()[5] == x.extents.z, "data()");
		// measures
		NEAR(T, x.width(), e.x * 2, big(0), "width");
		NEAR(T, x.height(), e.y * 2, big(0), "height");
		NEAR(T, x.depth(), e.z * 2, big(0), "depth");
		NEAR(T, x.diagonal(), len(e) * 2, u * 8 * len(e), "diagonal");
		const big lo = bmin(e.x, bmin(e.y, e.z)), hi = bmax(e.x, bmax(e.y, e.z)), vol = e.x * e.y * e.z * 8;
		NEAR(T, x.shortest_side(), lo * 2, big(0), "shortest side");
		NEAR(T, x.longest_side(), hi * 2, big(0), "longest side");
		const big vs = u * 12 * vol + (fp<T>::digits == 11 ? p2(-22) * (1 + hi) : big(0));
		NEAR(T, x.volume(), vol, vs, "volume");
		if (vol > big(0.01))
		{
			const T d = make<T>(big(c.i(1, 16)) / 4);
			if (w(d) * vol < 60000)
				NEAR(T, x.mass(d), w(d) * vol, u * 4 * w(d) * vol + vs * w(d), "mass");
			if (w(d) / vol < 60000)
				NEAR(T, x.density(d), w(d) / vol, u * 4 * w(d) / vol + vs / vol * w(d) / vol * 2 + p2(-24) * (fp<T>::digits == 11 ? 1 : 0), "density");
		}
		Box<T> z = x;
		CHECK(w(z.shortest_extent()) == lo && w(z.longest_extent()) == hi && w(x.shortest_extent()) == lo && w(x.longest_extent()) == hi, "shortest and longest extent");
		auto within = [&](const T* q, const Box<T>& o) { return q == &o.extents.x || q == &o.extents.y || q == &o.extents.z; };
		CHECK(within(&z.shortest_extent(), z) && within(&z.longest_extent(), z) && within(&x.shortest_extent(), x) && within(&x.longest_extent(), x), "the shortest and longest extents are not the box's own");
		const T longer	  = make<T>(hi * 2);
		z.longest_extent() = longer;
		CHECK(w(z.longest_extent()) == hi * 2 && z != x == (hi > 0), "assigning the longest extent");
		// corners
		for (size_t i = 0; i < 8; i++)
		{
			const V3<T> q = x.corner(which[i]);
			const b3 want{ p.x + (i & 1 ? e.x : -e.x), p.y + (i & 2 ? e.y : -e.y), p.z + (i & 4 ? e.z : -e.z) };
			NEAR3(T, q, want, u * 2 * m, "corner " << i);
			CHECK(Box<T>::corner(x, which[i]) == q, "forms");
		}
		using bc = muu::box_corner;
		CHECK(x.template corner<bc::min>() == x.corner(bc::min) && x.template corner<bc::x>() == x.corner(bc::x) && x.template corner<bc::y>() == x.corner(bc::y) && x.template corner<bc::xy>() == x.corner(bc::xy), "corner<>()");
		CHECK(x.template corner<bc::z>() == x.corner(bc::z) && x.template corner<bc::xz>() == x.corner(bc::xz) && x.template corner<bc::yz>() == x.corner(bc::yz) && x.template corner<bc::max>() == x.corner(bc::max), "corner<>()");
		CHECK(Box<T>::template corner<bc::min>(x) == x.corner(bc::min) && Box<T>::template corner<bc::xz>(x) == x.corner(bc::xz) && Box<T>::template corner<bc::max>(x) == x.corner(bc::max), "corner<>()");
		CHECK(x.min_corner() == x.corner(bc::min) && x.max_corner() == x.corner(bc::max) && Box<T>::min_corner(x) == x.min_corner() && Box<T>::max_corner(x) == x.max_corner(), "min and max corner");
		const auto ct = x.collision_tester();
		CHECK(ct.box == x && ct.min == x.min_corner() && ct.max == x.max_corner(), "collision tester");
		// predicates
		const bool none = e.x == 0 && e.y == 0 && e.z == 0, origin = p.x == 0 && p.y == 0 && p.z == 0;
		CHECK(x.degenerate() == flat && muu::degenerate(x) == flat && Box<T>::degenerate(x) == flat, "degenerate()");
		CHECK(x.empty() == none && Box<T>::empty(x) == none && x.zero() == (none && origin) && Box<T>::zero(x) == (none && origin), "empty() or zero()");
		CHECK((Box<T>{ x.center, V3<T>{} }.empty() && Box<T>::constants::zero.zero() && !Box<T>::constants::unit.empty() && w(Box<T>::constants::unit.volume()) == 1), "empty() or constants");
		const T big_eps = make<T>(bmax(maxabs(e), big(0)) * big(1.1) + big(0.01));
		CHECK(x.approx_empty(big_eps) && Box<T>::approx_empty(x, big_eps), "approx_empty() with a large tolerance");
		if (maxabs(e) > big(0.05))
			CHECK(!x.approx_empty(make<T>(maxabs(e) * big(0.9))) && !Box<T>::approx_empty(x, make<T>(maxabs(e) * big(0.9))), "approx_empty() with a small tolerance");
		z = x;
		CHECK(z == x && !(z != x) && !z.infinity_or_nan() && !muu::infinity_or_nan(z), "comparison");
		const size_t at = c.below(6);
		T& f			= z.data()[at];
		const T old		= f;
		f				= make<T>(w(f) + big(0.25) + babs(w(f)) / 2);
		const big moved = babs(w(f) - w(old));
		CHECK(!(z == x) && z != x, "equality ignores component " << at);
		for (const big g : { big(0.9), big(1.1) })
		{
			const T eps = make<T>(moved * g);
			CHECK(z.approx_equal(x, eps) == (g > 1) && muu::approx_equal(x, z, eps) == (g > 1) && Box<T>::approx_equal(z, x, eps) == (g > 1), "approx_equal of component " << at);
		}
		Box<T> single	  = Box<T>::constants::zero;
		single.data()[at] = make<T>(big(c.b() ? 0.5 : -0.5));
		CHECK(!single.zero() && single.empty() == (at < 3) && single.approx_zero(T(1)) && !single.approx_zero(T(0.25)) && muu::approx_zero(single, T(1)) && !muu::approx_zero(single, T(0.25)), "zero tests of component " << at);
		f = make<T>(big(1) / big(0));
		CHECK(z.infinity_or_nan() && muu::infinity_or_nan(z) && Box<T>::infinity_or_nan(z), "infinity_or_nan() of component " << at);
	}

	template <typename T>
	void grow(pbt::Case& c)
	{
		const coords k = gen_coords(c, reach<T>());
		const Box<T> x = gen_box<T>(c, k);
		const b3 p = b(x.center), e = b(x.extents);
		const big u = unit<T>(), m = maxabs(p) + maxabs(e) + maxabs(b3{ k.range, 0, 0 });
		const bool exact = k.exact();
		NOTE("box " << sh(p) << " +- " << sh(e));
		c.nontrivial(true);
		// around points
		V3<T> q[6];
		std::vector<b3> pts;
		const size_t n = c.sz(1, 6);
		for (size_t i = 0; i < n; i++)
		{
			q[i] = narrow<T>(k.pt(c));
			if (i && c.chance(1, 6))
				q[i] = q[c.below(i)];
			pts.push_back(b(q[i]));
			NOTE(" point " << sh(pts[i]));
		}
		const big s = u * 8 * m;
		const Box<T> around = Box<T>::from_points(q, q + n);
		tight<T>(c, around, pts, exact, s, "from_points()");
		CHECK((Box<T>{ q, q + n } == around && Box<T>{ q, n } == around && Box<T>{ muu::span<V3<T>>{ q, n } } == around && Box<T>{ muu::span<const V3<T>>{ q, n } } == around), "forms");
		const V3<T> arr[] = { q[0], q[n / 2], q[n - 1] };
		const Box<T> three = Box<T>::from_points(arr);
		tight<T>(c, three, { b(arr[0]), b(arr[1]), b(arr[2]) }, exact, s, "from_points() of an array");
		CHECK((Box<T>{ arr } == three && Box<T>::from_points(arr[0], arr[1], arr[2]) == three && Box<T>::from_points(arr[2], arr[0], arr[0], arr[1]) == three), "forms");
		tight<T>(c, Box<T>::from_points(arr[2], arr[0]), { b(arr[0]), b(arr[2]) }, exact, s, "from_points() of two points");
		b3 lo, hi;
		bounds(pts, lo, hi);
		CHECK(Box<T>::from_min_max(narrow<T>(lo), narrow<T>(hi)) == around, "from_min_max()");
		CHECK((Box<T>::from_points(q, q) == Box<T>::constants::zero && Box<T>{ q, size_t{} } == Box<T>::constants::zero), "from_points() without points");
		// appending
		std::vector<b3> all = box(p, e).pts;
		all.push_back(pts[0]);
		Box<T> y = x;
		CHECK(&y.append(q[0]) == &y, "append() returns something else");
		tight<T>(c, y, all, exact, s, "append()");
		all.push_back(b(arr[1])), all.push_back(b(arr[2]));
		Box<T> y3 = x, ys = x, yt = x, yb = x;
		y3.append(arr[0], arr[1], arr[2]);
		tight<T>(c, y3, all, exact, s, "append() of three points");
		yt.append(Tri<T>{ arr[0], arr[1], arr[2] });
		CHECK(yt == y3, "append() of a triangle");
		CHECK(&ys.append(Seg<T>{ arr[0], arr[2] }) == &ys, "append() returns something else");
		std::vector<b3> seg = box(p, e).pts;
		seg.push_back(b(arr[0])), seg.push_back(b(arr[2]));
		tight<T>(c, ys, seg, exact, s, "append() of a segment");
		const Box<T> other = gen_box<T>(c, k);
		std::vector<b3> two = box(p, e).pts;
		for (const auto& v : box(b(other.center), b(other.extents)).pts)
			two.push_back(v);
		yb.append(other);
		tight<T>(c, yb, two, exact, u * 16 * m, "append() of a box");
		// around other shapes
		const Sph<T> ball{ q[0], x.extents.x };
		tight<T>(c, Box<T>::from_sphere(ball), { pts[0] - b3{ e.x, e.x, e.x }, pts[0] + b3{ e.x, e.x, e.x } }, true, 0, "from_sphere()");
		CHECK(Box<T>{ ball } == Box<T>::from_sphere(ball), "forms");
		const frame fr = gen_frame(c);
		Obb<T> o{ x.center, x.extents };
		o.axes.m[0] = narrow<T>(fr.x), o.axes.m[1] = narrow<T>(fr.y), o.axes.m[2] = narrow<T>(fr.z);
		tight<T>(c, Box<T>::from_obb(o), b(o).pts, false, u * 24 * m, "from_obb()");
		CHECK(Box<T>{ o } == Box<T>::from_obb(o), "forms");
		// moving
		Box<T> t = x;
		CHECK(&t.translate(q[0]) == &t && t == Box<T>::translate(x, q[0]), "forms");
		NEAR3(T, t.center, p + pts[0], s, "translate()");
		CHECK(t.extents == x.extents, "translate() changes the extents");
		t				= x;
		const V3<T> by	= narrow<T>(b3{ big(c.i(0, 8)) / 4, big(c.i(0, 8)) / 4, big(c.i(0, 8)) / 4 });
		CHECK(&t.scale(by) == &t && t == Box<T>::scale(x, by) && t.center == x.center, "forms");
		NEAR3(T, t.extents, (b3{ e.x * w(by.x), e.y * w(by.y), e.z * w(by.z) }), s, "scale()");
		const affine a = gen_affine(c, tx_kind::any).template seen<T>();
		const auto mt  = a.template matrix<T>();
		std::vector<b3> image;
		for (const auto& v : box(p, e).pts)
			image.push_back(a(v));
		t = x;
		CHECK(&t.transform(mt) == &t && t == Box<T>::transform(x, mt), "forms");
		const big am = bmax(maxabs(a.x), bmax(maxabs(a.y), maxabs(a.z)));
		tight<T>(c, t, image, false, u * 24 * (m * 3 * am + maxabs(a.t)), "transform()");
	}

	template <typename T>
	void points(pbt::Case& c)
	{
		const coords k = gen_coords(c, reach<T>());
		const Box<T> x = gen_box<T>(c, k);
		const b3 p = b(x.center), e = b(x.extents);
		b3 q = k.pt(c);
		for (int i = 0; i < 3; i++)
			switch (c.u(0, 3))
			{
				case 0: break;
				case 1: q[i] = p[i] + e[i] * (c.b() ? 1 : -1); break;
				case 2: q[i] = p[i] + e[i] * (c.b() ? 1 : -1) + (k.exact() ? big(c.i(-1, 1)) / 4 : big(c.real(-0.1, 0.1))); break;
				default: q[i] = p[i] + (k.exact() ? big(0) : e[i] * c.real(-1, 1));
			}
		const V3<T> Q = narrow<T>(q);
		q			  = b(Q);
		NOTE("box " << sh(p) << " +- " << sh(e) << " point " << sh(q));
		const big u = unit<T>(), m = maxabs(p) + maxabs(e) + maxabs(q);
		big over = -1e30;
		for (int i = 0; i < 3; i++)
			over = bmax(over, babs(q[i] - p[i]) - e[i]);
		c.nontrivial(over > -big(0.5));
		if (k.exact() || babs(over) > u * 4 * m)
		{
			const bool in = over <= 0;
			c.cls(in, "contained"), c.cls(over == 0, "on the surface");
			CHECK((x.contains(Q) == in && Box<T>::contains(x, Q) == in && x.collision_tester()(Q) == in), "contains() a point that is " << sh(over) << " outside");
		}
		NEAR3(T, x.closest_point(Q), nearest_in_box(p, e, { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, q), k.exact() ? big(0) : u * 4 * m, "closest_point()");
		V3<T> many[4];
		const size_t cnt = c.sz(0, 4);
		bool all		 = cnt > 0;
		for (size_t i = 0; i < cnt; i++)
		{
			many[i] = c.chance(2, 3) ? x.center : c.b() ? Q : narrow<T>(k.pt(c));
			all		= all && x.contains(many[i]);
		}
		Box<T> mut = x;
		CHECK(mut.contains(many, many + cnt) == all, "contains() of " << cnt << " points");
		const V3<T> R = many[0] = c.b() ? x.center : narrow<T>(k.pt(c)), S = c.b() ? x.center : Q;
		const bool two = x.contains(Q) && x.contains(R), three = two && x.contains(S);
		CHECK((x.contains(Seg<T>{ Q, R }) == two && x.contains(Seg<T>{ R, Q }) == two && Box<T>::contains(x, Q, R) == two && Box<T>::contains(x, Seg<T>{ Q, R }) == two), "contains() of a segment");
		CHECK((x.contains(Tri<T>{ Q, R, S }) == three && x.contains(Tri<T>{ S, Q, R }) == three && x.contains(Tri<T>{ R, S, Q }) == three && Box<T>::contains(x, Q, R, S) == three && Box<T>::contains(x, Tri<T>{ R, S, Q }) == three), "contains() of a triangle");
	}

	template <typename T>
	void segments(pbt::Case& c)
	{
		const coords k = gen_coords(c, reach<T>());
		const Box<T> x = gen_box<T>(c, k);
		b3 s = k.pt(c), f = k.pt(c);
		if (c.chance(1, 10))
			f = s;
		const poly bp = b(x);
		if (!k.exact() && c.chance(3, 4))
		{
			const b3 by = approach(c, bp, segment(s, f));
			s = s + by, f = f + by;
		}
		const Seg<T> g{ narrow<T>(s), narrow<T>(f) };
		s = b(g[0]), f = b(g[1]);
		NOTE(sh(bp) << " and segment " << sh(s) << ", " << sh(f));
		const big u = unit<T>(), m = maxabs(b(x.center)) + maxabs(b(x.extents)) + maxabs(s) + maxabs(f), d = gap(bp, b(g));
		const bool exact = k.exact() && (fp<T>::digits > 11 || k.kind == 0);
		c.nontrivial(true);
		c.cls(d > 0, "separate"), c.cls(babs(d) < p2(-40), "touching");
		const big slack = u * 16 * m + (len(f - s) > 0 ? u * 32 * m * m / len(f - s) : 0) + blur<T>(bp, b(g)) * m;
		if (exact || babs(d) > slack)
		{
			const bool want = d < p2(-40);
			CHECK((x.intersects(g) == want && Box<T>::intersects(x, g) == want && Box<T>::intersects(x, g[0], g[1]) == want && Box<T>::intersects(x, g[1], g[0]) == want), "intersects() a segment with a gap of " << sh(d));
			CHECK((g.intersects(x) == want && Seg<T>::intersects(g, x) == want), "a segment intersects() with a gap of " << sh(d));
		}
	}

	template <typename T>
	void triangles(pbt::Case& c)
	{
		const coords k = gen_coords(c, reach<T>());
		const Box<T> x = gen_box<T>(c, k);
		b3 v[3]		   = { k.pt(c), k.pt(c), k.pt(c) };
		const poly bp  = b(x);
		if (!k.exact() && c.chance(3, 4))
		{
			const b3 by = approach(c, bp, triangle(v[0], v[1], v[2]));
			for (auto& q : v)
				q = q + by;
		}
		for (auto& q : v)
			q = rounded<T>(q);
		const b3 n = cross(v[1] - v[0], v[2] - v[0]);
		const big l1 = len(v[1] - v[0]), l2 = len(v[2] - v[1]), l3 = len(v[0] - v[2]), shortest = bmin(l1, bmin(l2, l3)), longest = bmax(l1, bmax(l2, l3));
		if (shortest < big(0.3) || len(n) < longest * longest * (fp<T>::digits == 11 ? big(0.15) : big(0.02)))
			pbt::skip();
		const Tri<T> t{ narrow<T>(v[0]), narrow<T>(v[1]), narrow<T>(v[2]) };
		const poly tp = b(t);
		NOTE(sh(bp) << " and " << sh(tp));
		const big u = unit<T>(), m = maxabs(b(x.center)) + maxabs(b(x.extents)) + maxabs(v[0]) + longest, d = gap(bp, tp);
		c.nontrivial(true);
		c.cls(d > 0, "separate"), c.cls(babs(d) < p2(-40), "touching");
		// the (rounded) normal is the one axis that is never quite exact
		const int along = (n.x != 0) + (n.y != 0) + (n.z != 0);
		big lo, hi;
		range(bp, unitv(n), lo, hi);
		const big on	 = dot(unitv(n), v[0]), nd = bmax(on - hi, lo - on), ns = u * 32 * m / (len(n) / (longest * longest));
		const bool exact = k.exact() && (along == 1 || babs(nd) > ns) && (fp<T>::digits > 11 || k.kind == 0);
		const big slack	 = u * 64 * m * longest / len(n) * longest + blur<T>(bp, tp) * m;
		if (exact || babs(d) > slack)
		{
			const bool want = d < p2(-40);
			const auto ct	= x.collision_tester();
			CHECK((x.intersects(t) == want && Box<T>::intersects(x, t) == want && Box<T>::intersects(x, t[0], t[1], t[2]) == want && Box<T>::intersects(x, t[2], t[0], t[1]) == want && Box<T>::intersects(x, t[1], t[0], t[2]) == want),
				  "intersects() a triangle with a gap of " << sh(d));
			CHECK((t.intersects(x) == want && Tri<T>::intersects(t, x) == want && Tri<T>::intersects(t[0], t[1], t[2], x) == want), "a triangle intersects() with a gap of " << sh(d));
			CHECK((ct(t) == want && ct(t[0], t[1], t[2]) == want && ct(t.collision_tester()) == want), "the collision tester: a triangle with a gap of " << sh(d));
		}
	}

	template <typename T>
	void round_and_flat(pbt::Case& c)
	{
		const coords k = gen_coords(c, reach<T>());
		const Box<T> x = gen_box<T>(c, k);
		const b3 p = b(x.center), e = b(x.extents);
		const big u = unit<T>(), m = maxabs(p) + maxabs(e) + big(k.range);
		// a sphere
		b3 s  = k.pt(c);
		big r = babs(k(c));
		if (!k.exact())
		{
			if (c.chance(1, 3)) // next to a corner, edge or face
			{
				b3 dir;
				for (int i = 0; i < 3; i++)
				{
					const int where = static_cast<int>(c.i(-1, 1));
					s[i]			= p[i] + e[i] * (where ? big(where) : big(c.real(-1, 1)));
					dir[i]			= where * (big(0.1) + c.real(0, 1));
				}
				if (len(dir) > 0)
					s = s + unitv(dir) * (r + c.real(-0.2, 0.2));
			}
			else if (c.chance(1, 2)) // inside
			{
				for (int i = 0; i < 3; i++)
					s[i] = p[i] + e[i] * c.real(-1, 1);
				r = bmin(e.x, bmin(e.y, e.z)) * c.real(0, 1.2);
			}
		}
		const Sph<T> ball{ narrow<T>(s), make<T>(r) };
		s = b(ball.center), r = w(ball.radius);
		NOTE("box " << sh(p) << " +- " << sh(e) << " sphere " << sh(s) << " radius " << sh(r));
		c.nontrivial(true);
		const big away = len(s - nearest_in_box(p, e, { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, s)), ms = m + maxabs(s) + r;
		const bool small = k.exact() && (fp<T>::digits > 11 || k.kind == 0);
		// the squares are compared
		auto sure = [&](big dist, big bound) { return small || babs(dist - bound) > u * 16 * ms * (1 + ms / bmax(bound, p2(-10))) + (fp<T>::digits == 11 ? p2(-12) : big(0)); };
		const auto ct = x.collision_tester();
		if (sure(away, r))
		{
			const bool want = away <= r + p2(-80);
			c.cls(want, "sphere meets box"), c.cls(babs(away - r) < p2(-80), "touching sphere");
			CHECK((x.intersects(ball) == want && Box<T>::intersects(x, ball) == want && ball.intersects(x) == want && Sph<T>::intersects(ball, x) == want), "intersects() a sphere " << sh(away) << " away");
			CHECK((ct(ball) == want && ct(ball.collision_tester()) == want && ball.collision_tester()(x) == want && ball.collision_tester()(ct) == want), "the collision testers: a sphere " << sh(away) << " away");
		}
		big over = -1e30;
		b3 far;
		for (int i = 0; i < 3; i++)
		{
			over   = bmax(over, babs(s[i] - p[i]) + r - e[i]);
			far[i] = babs(s[i] - p[i]) + e[i];
		}
		if (small || (babs(over) > u * 8 * ms && sure(away, r)))
		{
			c.cls(over <= 0, "sphere in box");
			CHECK((x.contains(ball) == (over <= 0) && Box<T>::contains(x, ball) == (over <= 0)), "contains() a sphere that reaches " << sh(over) << " outside");
		}
		if (sure(len(far), r) && sure(away, r))
		{
			const bool want = len(far) <= r + p2(-80);
			c.cls(want, "box in sphere");
			CHECK((ball.contains(x) == want && Sph<T>::contains(ball, x) == want), "a sphere contains() a box that reaches " << sh(len(far) - r) << " outside");
		}
		// a plane
		b3 n = k.kind == 0 ? b3{} : gen_dir(c);
		if (k.kind == 0)
			n[c.below(3)] = c.b() ? 1 : -1;
		big reach_ = babs(n.x) * e.x + babs(n.y) * e.y + babs(n.z) * e.z;
		big off	   = dot(n, p) + (k.kind == 0 ? big(c.i(-9, 9)) : c.b() ? reach_ * (c.b() ? 1 : -1) + c.real(-0.3, 0.3) : big(c.real(-20, 20)));
		const muu::plane<T> pl{ narrow<T>(n), make<T>(-off) };
		n = b(pl.normal), off = -w(pl.d), reach_ = babs(n.x) * e.x + babs(n.y) * e.y + babs(n.z) * e.z;
		const big pd = babs(dot(n, p) - off) - reach_;
		NOTE("plane " << sh(n) << ", " << sh(-off));
		if (k.kind == 0 || babs(pd) > u * 16 * (m + babs(off)))
		{
			c.cls(pd <= 0, "plane through box");
			CHECK((x.intersects(pl) == (pd <= 0) && Box<T>::intersects(x, pl) == (pd <= 0) && pl.intersects(x) == (pd <= 0) && muu::plane<T>::intersects(pl, x) == (pd <= 0)), "intersects() a plane " << sh(pd) << " away");
		}
	}

	template <typename T>
	void boxes(pbt::Case& c)
	{
		const coords k = gen_coords(c, reach<T>());
		const Box<T> x = gen_box<T>(c, k);
		Box<T> y	   = gen_box<T>(c, k);
		const b3 p = b(x.center), e = b(x.extents);
		if (c.chance(1, 3)) // within, perhaps
			y = Box<T>{ x.center, narrow<T>(k.exact() ? b3{ e.x, e.y, big(c.below(3)) } : e * c.real(0.5, 1.01)) };
		else if (!k.exact() && c.b())
			y.center = narrow<T>(b(y.center) + approach(c, b(x), b(y)));
		b3 q = b(y.center);
		const b3 f = b(y.extents);
		const big u = unit<T>();
		big m = maxabs(p) + maxabs(e) + maxabs(q) + maxabs(f);
		NOTE("boxes " << sh(p) << " +- " << sh(e) << " and " << sh(q) << " +- " << sh(f));
		c.nontrivial(true);
		big apart = -1e30, over = -1e30;
		for (int i = 0; i < 3; i++)
			apart = bmax(apart, babs(p[i] - q[i]) - e[i] - f[i]), over = bmax(over, babs(p[i] - q[i]) + f[i] - e[i]);
		const auto cx = x.collision_tester(), cy = y.collision_tester();
		if (k.exact() || babs(apart) > u * 8 * m)
		{
			const bool want = apart <= 0;
			c.cls(want, "boxes meet");
			CHECK((x.intersects(y) == want && y.intersects(x) == want && Box<T>::intersects(x, y) == want), "intersects() a box with a gap of " << sh(apart));
			CHECK((cx(y) == want && cy(x) == want && cx(cy) == want && cy(cx) == want), "the collision testers: a box with a gap of " << sh(apart));
		}
		if (k.exact() || babs(over) > u * 8 * m)
		{
			c.cls(over <= 0, "box in box");
			CHECK((x.contains(y) == (over <= 0) && Box<T>::contains(x, y) == (over <= 0)), "contains() a box that reaches " << sh(over) << " outside");
		}
		CHECK((k.exact() ? x.contains(x) && x.intersects(x) : true), "a box does not contain itself");
		// an oriented box
		const frame fr = gen_frame(c);
		Obb<T> o{ y.center, y.extents };
		o.axes.m[0] = narrow<T>(fr.x), o.axes.m[1] = narrow<T>(fr.y), o.axes.m[2] = narrow<T>(fr.z);
		if (c.chance(3, 4))
		{
			o.extents = narrow<T>(f * p2(-static_cast<int>(c.u(0, 3))));
			o.center  = narrow<T>(b(o.center) + approach(c, b(x), b(o)));
		}
		const poly bp = b(x), op = b(o);
		m = m + maxabs(b(o.center));
		NOTE("oriented " << sh(op));
		const big d = gap(bp, op), slack = u * 64 * m + blur<T>(bp, op) * m;
		if (babs(d) > slack)
		{
			c.cls(d < 0, "oriented box meets box");
			big faces = -1e30;
			for (const auto* s : { &bp, &op })
				for (const auto& n : s->normals)
				{
					big pl, ph, ql, qh;
					range(bp, unitv(n), pl, ph), range(op, unitv(n), ql, qh);
					faces = bmax(faces, bmax(ql - ph, pl - qh));
				}
			c.cls(d > 0 && faces < 0, "apart only across two edges");
			CHECK((x.intersects(o) == (d < 0) && Box<T>::intersects(x, o) == (d < 0) && o.intersects(x) == (d < 0) && Obb<T>::intersects(o, x) == (d < 0)), "intersects() an oriented box with a gap of " << sh(d));
		}
		// inside, near a wall
		Obb<T> in = o;
		in.extents = narrow<T>(e * (c.real(0.1, 0.6)));
		in.center  = x.center;
		big by	   = -1e30;
		for (int pass = 0; pass < 2; pass++)
		{
			b3 lo, hi;
			bounds(b(in).pts, lo, hi);
			const size_t i = c.below(3);
			if (pass == 0)
				in.center[i] = make<T>(w(in.center[i]) + (p[i] + e[i] - hi[i] + c.real(-0.2, 0.1)) * (c.b() ? 1 : -1));
			else
				for (int j = 0; j < 3; j++)
					by = bmax(by, bmax(hi[j] - p[j] - e[j], p[j] - e[j] - lo[j]));
		}
		NOTE("oriented, inside: " << sh(b(in)));
		if (babs(by) > u * 32 * m)
		{
			c.cls(by < 0, "oriented box in box");
			CHECK((x.contains(in) == (by < 0) && Box<T>::contains(x, in) == (by < 0)), "contains() an oriented box that reaches " << sh(by) << " outside");
		}
	}

#define ALL(name, ...)                                                                                                 \
	PROP_T(name " build", 6000, 400000, (build<__VA_ARGS__>));                                                         \
	PROP_T(name " grow", 6000, 400000, (grow<__VA_ARGS__>));                                                           \
	PROP_T(name " points", 10000, 800000, (points<__VA_ARGS__>));                                                      \
	PROP_T(name " segments", 10000, 800000, (segments<__VA_ARGS__>));                                                  \
	PROP_T(name " triangles", 12000, 800000, (triangles<__VA_ARGS__>));                                                \
	PROP_T(name " round and flat", 12000, 800000, (round_and_flat<__VA_ARGS__>));                                      \
	PROP_T(name " boxes", 10000, 600000, (boxes<__VA_ARGS__>))
#if PART == 0
	ALL("float", float);
#elif PART == 1
	ALL("double", double);
#elif PART == 2
	ALL("half", muu::half);
#else
	ALL("long double", long double);
#endif
}
