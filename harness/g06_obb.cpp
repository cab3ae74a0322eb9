// G06: oriented boxes against their corner geometry
#include <muu/core.h>
#include "common.hpp"
#include "geo.hpp"
#ifndef PART
#define PART 0
#endif

namespace
{
	template <typename T>
	using V3 = muu::vector<T, 3>;
	template <typename T>
	using Box = muu::bounding_box<T>;
	template <typename T>
	using Obb = muu::oriented_bounding_box<T>;
	template <typename T>
	using Tri = muu::triangle<T>;
	template <typename T>
	using Seg = muu::line_segment<T>;
	template <typename T>
	using Sph = muu::bounding_sphere<T>;

	constexpr muu::box_corner which[] = { muu::box_corner::min, muu::box_corner::x, muu::box_corner::y, muu::box_corner::xy,
										  muu::box_corner::z, muu::box_corner::xz, muu::box_corner::yz, muu::box_corner::max };

	template <typename T>
	constexpr double reach()
	{
		return fp<T>::digits == 11 ? 3 : 10;
	}
	template <typename T>
	muu::matrix<T, 3, 3> axes(const frame& f)
	{
		muu::matrix<T, 3, 3> m;
		m.m[0] = narrow<T>(f.x), m.m[1] = narrow<T>(f.y), m.m[2] = narrow<T>(f.z);
		return m;
	}
	// along the coordinate axes, but in any order and direction
	frame gen_signed(pbt::Case& c)
	{
		b3 a[3];
		const size_t i = c.below(3), j = (i + 1 + c.below(2)) % 3, k = 3 - i - j;
		a[0][i] = c.b() ? -1 : 1, a[1][j] = c.b() ? -1 : 1, a[2][k] = c.b() ? -1 : 1;
		return { a[0], a[1], a[2] };
	}
	template <typename T>
	Obb<T> gen_obb(pbt::Case& c, const coords& k, const frame& f)
	{
		const b3 p = k.pt(c);
		b3 e	   = k.pt(c);
		for (int i = 0; i < 3; i++)
			e[i] = babs(e[i]);
		if (!c.chance(1, 6))
			for (int i = 0; i < 3; i++)
				if (e[i] < big(0.05))
					e[i] = 1;
		return Obb<T>{ narrow<T>(p), narrow<T>(e), axes<T>(f) };
	}
	template <typename T>
	b3 axis(const Obb<T>& x, size_t i)
	{
		return b(x.axes.m[i]);
	}

	template <typename T>
	void build(pbt::Case& c)
	{
		const coords k = gen_coords(c, reach<T>());
		const frame fr = k.exact() ? gen_signed(c) : gen_frame(c);
		const Obb<T> x = gen_obb<T>(c, k, fr);
		const b3 p = b(x.center), e = b(x.extents);
		const big u = unit<T>(), m = maxabs(p) + maxabs(e);
		NOTE("box " << sh(b(x)));
		const bool flat = e.x <= 0 || e.y <= 0 || e.z <= 0;
		c.nontrivial(!flat);
		c.cls(flat, "flat");
		const auto ax = x.axes;
		using O		  = Obb<T>;
		const V3<T> o{};
		CHECK((O{ x.center, x.extents.x, x.extents.y, x.extents.z, ax } == x && O{ x.center.x, x.center.y, x.center.z, x.extents, ax } == x), "construction");
		CHECK((O{ x.center.x, x.center.y, x.center.z, x.extents.x, x.extents.y, x.extents.z, ax } == x && O{ x.extents, ax } == O{ o, x.extents, ax }), "construction");
		CHECK((O{ x.center, x.extents.y, ax } == O{ x.center, V3<T>{ x.extents.y }, ax } && O{ x.extents.z, ax } == O{ o, V3<T>{ x.extents.z }, ax }), "construction of a cube");
		const muu::matrix<T, 3, 3> id = muu::matrix<T, 3, 3>::constants::identity;
		CHECK((O{ x.center, x.extents } == O{ x.center, x.extents, id } && O{ x.center, x.extents.x } == O{ x.center, x.extents.x, id } && O{ x.extents } == O{ x.extents, id }), "default axes");
		const Obb<double> wd{ x };
		NEAR3(double, wd.center, p, m * p2(-53), "conversion");
		NEAR3(double, wd.extents, e, m * p2(-53), "conversion");
		for (size_t i = 0; i < 3; i++)
			NEAR3(double, (muu::vector<double, 3>{ wd.axes.m[i] }), axis(x, i), p2(-53), "conversion");
		components(c, x);
		CHECK(x.data() == &x.center.x && x.data()[5] == x.extents.z && x.data()[6] == x.axes(0, 0) && x.data()[14] == x.axes(2, 2), "data()");
		// measures
		NEAR(T, x.width(), e.x * 2, big(0), "width");
		NEAR(T, x.height(), e.y * 2, big(0), "height");
		NEAR(T, x.depth(), e.z * 2, big(0), "depth");
		NEAR(T, x.diagonal(), len(e) * 2, u * 8 * len(e), "diagonal");
		const big lo = bmin(e.x, bmin(e.y, e.z)), hi = bmax(e.x, bmax(e.y, e.z)), vol = e.x * e.y * e.z * 8;
		NEAR(T, x.shortest_side(), lo * 2, big(0), "shortest side");
		NEAR(T, x.longest_side(), hi * 2, big(0), "longest side");
		const big vs = u * 12 * vol + (fp<T>::digits == 11 ? p2(-22) * (1 + hi) : big(0));
		NEAR(T, x.volume(), vol, vs, "volume");
		if (vol > big(0.01))
		{
			const T d = make<T>(big(c.i(1, 16)) / 4);
			if (w(d) * vol < 60000)
				NEAR(T, x.mass(d), w(d) * vol, u * 4 * w(d) * vol + vs * w(d), "mass");
			if (w(d) / vol < 60000)
				NEAR(T, x.density(d), w(d) / vol, u * 4 * w(d) / vol + vs / vol * w(d) / vol * 2 + p2(-24) * (fp<T>::digits == 11 ? 1 : 0), "density");
		}
		O z = x;
		CHECK(w(z.shortest_extent()) == lo && w(z.longest_extent()) == hi && w(x.shortest_extent()) == lo && w(x.longest_extent()) == hi, "shortest and longest extent");
		auto within = [&](const T* q, const O& y) { return q == &y.extents.x || q == &y.extents.y || q == &y.extents.z; };
		CHECK(within(&z.shortest_extent(), z) && within(&z.longest_extent(), z) && within(&x.shortest_extent(), x) && within(&x.longest_extent(), x), "the shortest and longest extents are not the box's own");
		// corners
		for (size_t i = 0; i < 8; i++)
		{
			const V3<T> q = x.corner(which[i]);
			const b3 want = p + axis(x, 0) * (i & 1 ? e.x : -e.x) + axis(x, 1) * (i & 2 ? e.y : -e.y) + axis(x, 2) * (i & 4 ? e.z : -e.z);
			NEAR3(T, q, want, k.exact() ? big(0) : u * 12 * m, "corner " << i);
			CHECK(O::corner(x, which[i]) == q, "forms");
		}
		using bc = muu::box_corner;
		CHECK(x.template corner<bc::min>() == x.corner(bc::min) && x.template corner<bc::x>() == x.corner(bc::x) && x.template corner<bc::y>() == x.corner(bc::y) && x.template corner<bc::xy>() == x.corner(bc::xy), "corner<>()");
		CHECK(x.template corner<bc::z>() == x.corner(bc::z) && x.template corner<bc::xz>() == x.corner(bc::xz) && x.template corner<bc::yz>() == x.corner(bc::yz) && x.template corner<bc::max>() == x.corner(bc::max), "corner<>()");
		CHECK(O::template corner<bc::min>(x) == x.corner(bc::min) && O::template corner<bc::xz>(x) == x.corner(bc::xz) && O::template corner<bc::max>(x) == x.corner(bc::max), "corner<>()");
		CHECK(x.min_corner() == x.corner(bc::min) && x.max_corner() == x.corner(bc::max) && O::min_corner(x) == x.min_corner() && O::max_corner(x) == x.max_corner(), "min and max corner");
		// predicates
		const bool none = e.x == 0 && e.y == 0 && e.z == 0;
		CHECK(x.degenerate() == flat && muu::degenerate(x) == flat && O::degenerate(x) == flat, "degenerate()");
		CHECK(x.empty() == none && O::empty(x) == none && !x.zero() && !O::zero(x), "empty() or zero()");
		CHECK((O{ x.center, o, ax }.empty() && O::constants::zero.empty() && !O::constants::unit.empty() && w(O::constants::unit.volume()) == 1 && O::constants::unit.axes == id), "empty() or constants");
		CHECK(x.approx_empty(make<T>(hi * big(1.1) + big(0.01))) && O::approx_empty(x, make<T>(hi * big(1.1) + big(0.01))), "approx_empty() with a large tolerance");
		if (hi > big(0.05))
			CHECK(!x.approx_empty(make<T>(hi * big(0.9))) && !O::approx_empty(x, make<T>(hi * big(0.9))), "approx_empty() with a small tolerance");
		z = x;
		CHECK(z == x && !(z != x) && !z.infinity_or_nan() && !muu::infinity_or_nan(z), "comparison");
		const size_t at = c.below(15);
		T& f			= z.data()[at];
		const T old		= f;
		f				= make<T>(w(f) + big(0.25) + babs(w(f)) / 2);
		const big moved = babs(w(f) - w(old));
		CHECK(!(z == x) && z != x, "equality ignores component " << at);
		for (const big g : { big(0.9), big(1.1) })
		{
			const T eps = make<T>(moved * g);
			CHECK(z.approx_equal(x, eps) == (g > 1) && muu::approx_equal(x, z, eps) == (g > 1) && O::approx_equal(z, x, eps) == (g > 1), "approx_equal of component " << at);
		}
		O single{ o, o, muu::matrix<T, 3, 3>::constants::zero };
		CHECK(single.zero(), "zero()");
		single.data()[at] = make<T>(big(c.b() ? 0.5 : -0.5));
		CHECK(!single.zero() && single.empty() == (at < 3 || at > 5) && single.approx_zero(T(1)) && !single.approx_zero(T(0.25)) && muu::approx_zero(single, T(1)) && !muu::approx_zero(single, T(0.25)), "zero tests of component " << at);
		f = make<T>(big(1) / big(0));
		CHECK(z.infinity_or_nan() && muu::infinity_or_nan(z) && O::infinity_or_nan(z), "infinity_or_nan() of component " << at);
		// moving
		const V3<T> by = narrow<T>(k.pt(c));
		O t			   = x;
		CHECK(&t.translate(by) == &t && t == O::translate(x, by) && t.extents == x.extents && t.axes == x.axes, "translate()");
		NEAR3(T, t.center, p + b(by), u * 2 * (m + maxabs(b(by))), "translate()");
		t			   = x;
		const V3<T> sc = narrow<T>(b3{ big(c.i(0, 8)) / 4, big(c.i(0, 8)) / 4, big(c.i(0, 8)) / 4 });
		CHECK(&t.scale(sc) == &t && t == O::scale(x, sc) && t.center == x.center && t.axes == x.axes, "scale()");
		NEAR3(T, t.extents, (b3{ e.x * w(sc.x), e.y * w(sc.y), e.z * w(sc.z) }), u * 4 * m + (fp<T>::digits == 11 ? p2(-24) : big(0)), "scale()");
		const affine a = gen_affine(c, tx_kind::any).template seen<T>();
		const auto mt  = a.template matrix<T>();
		t			   = x;
		CHECK(&t.transform(mt) == &t && t == O::transform(x, mt), "forms of transform()");
		const big am = bmax(maxabs(a.x), bmax(maxabs(a.y), maxabs(a.z))), ts = u * 48 * (m * 3 * am + maxabs(a.t));
		NEAR3(T, t.center, a(p), ts, "transform(): center");
		for (size_t i = 0; i < 3; i++)
		{
			const b3 want = a.dir(axis(x, i));
			if (e[i] == 0 || e[i] > big(0.04))
			{
				const big as = e[i] == 0 ? u * 32 * am / len(want) : u * 32 * am / len(want) + ts / (e[i] * len(want));
				NEAR3(T, (V3<T>{ t.axes.m[i] }), want / len(want), as, "transform(): axis " << i);
			}
			NEAR(T, t.extents[i], e[i] * len(want), ts, "transform(): extent " << i);
		}
		for (size_t i = 0; i < 8; i++)
			NEAR3(T, t.corner(which[i]), a(b(x).pts[i]), ts * 4, "transform(): corner " << i);
	}

	template <typename T>
	void points(pbt::Case& c)
	{
		const coords k = gen_coords(c, reach<T>());
		const frame fr = k.exact() ? gen_signed(c) : gen_frame(c);
		const Obb<T> x = gen_obb<T>(c, k, fr);
		const b3 p = b(x.center), e = b(x.extents);
		b3 q = p;
		for (size_t i = 0; i < 3; i++)
		{
			big at = k(c);
			switch (c.u(0, 3))
			{
				case 0: break;
				case 1: at = e[i] * (c.b() ? 1 : -1); break;
				case 2: at = e[i] * (c.b() ? 1 : -1) + (k.exact() ? big(c.i(-1, 1)) / 4 : big(c.real(-0.1, 0.1))); break;
				default: at = k.exact() ? big(0) : e[i] * c.real(-1, 1);
			}
			q = q + axis(x, i) * at;
		}
		const V3<T> Q = narrow<T>(q);
		q			  = b(Q);
		NOTE("box " << sh(b(x)) << " point " << sh(q));
		const big u = unit<T>(), m = maxabs(p) + maxabs(e) + maxabs(q);
		big over = -1e30;
		for (size_t i = 0; i < 3; i++)
			over = bmax(over, babs(dot(q - p, axis(x, i))) - e[i]);
		c.nontrivial(over > -big(0.5));
		if (k.exact() || babs(over) > u * 12 * m)
		{
			const bool in = over <= 0;
			c.cls(in, "contained"), c.cls(over == 0, "on the surface");
			CHECK((x.contains(Q) == in && Obb<T>::contains(x, Q) == in), "contains() a point that is " << sh(over) << " outside");
		}
		NEAR3(T, x.closest_point(Q), nearest_in_box(p, e, axis(x, 0), axis(x, 1), axis(x, 2), q), k.exact() ? big(0) : u * 24 * m, "closest_point()");
		V3<T> many[4];
		const size_t cnt = c.sz(0, 4);
		bool all		 = cnt > 0;
		for (size_t i = 0; i < cnt; i++)
		{
			many[i] = c.chance(2, 3) ? x.center : c.b() ? Q : narrow<T>(k.pt(c));
			all		= all && x.contains(many[i]);
		}
		Obb<T> mut = x;
		CHECK(mut.contains(many, many + cnt) == all, "contains() of " << cnt << " points");
		const V3<T> R = c.b() ? x.center : narrow<T>(k.pt(c)), S = c.b() ? x.center : Q;
		const bool two = x.contains(Q) && x.contains(R), three = two && x.contains(S);
		CHECK((x.contains(Seg<T>{ Q, R }) == two && x.contains(Seg<T>{ R, Q }) == two && Obb<T>::contains(x, Q, R) == two && Obb<T>::contains(x, Seg<T>{ Q, R }) == two), "contains() of a segment");
		CHECK((x.contains(Tri<T>{ Q, R, S }) == three && x.contains(Tri<T>{ S, Q, R }) == three && x.contains(Tri<T>{ R, S, Q }) == three && Obb<T>::contains(x, Q, R, S) == three && Obb<T>::contains(x, Tri<T>{ R, S, Q }) == three), "contains() of a triangle");
		// a sphere around the point
		const big away = len(q - nearest_in_box(p, e, axis(x, 0), axis(x, 1), axis(x, 2), q));
		big r		   = k.exact() ? babs(k(c)) : bmax(0, away + c.real(-1, 1) * p2(-static_cast<int>(c.u(0, 6))));
		const Sph<T> ball{ Q, make<T>(r) };
		r			   = w(ball.radius);
		const bool exact = k.kind == 0 || (k.exact() && fp<T>::digits > 11);
		if (exact || babs(away - r) > u * 32 * (m + r) * (1 + (m + r) / bmax(r, p2(-10))) + (fp<T>::digits == 11 ? p2(-12) : big(0)))
		{
			const bool want = away <= r + p2(-80);
			c.cls(want, "sphere meets box");
			CHECK((x.intersects(ball) == want && Obb<T>::intersects(x, ball) == want && ball.intersects(x) == want && Sph<T>::intersects(ball, x) == want), "intersects() a sphere of radius " << sh(r) << " that is " << sh(away) << " away");
		}
	}

	template <typename T>
	void triangles(pbt::Case& c)
	{
		const coords k = gen_coords(c, reach<T>());
		const frame fr = k.exact() ? gen_signed(c) : gen_frame(c);
		const Obb<T> x = gen_obb<T>(c, k, fr);
		b3 v[3]		   = { k.pt(c), k.pt(c), k.pt(c) };
		const poly bp  = b(x);
		if (!k.exact() && c.chance(3, 4))
		{
			const b3 by = approach(c, bp, triangle(v[0], v[1], v[2]));
			for (auto& q : v)
				q = q + by;
		}
		for (auto& q : v)
			q = rounded<T>(q);
		const b3 n = cross(v[1] - v[0], v[2] - v[0]);
		const big l1 = len(v[1] - v[0]), l2 = len(v[2] - v[1]), l3 = len(v[0] - v[2]), shortest = bmin(l1, bmin(l2, l3)), longest = bmax(l1, bmax(l2, l3));
		if (shortest < big(0.3) || len(n) < longest * longest * (fp<T>::digits == 11 ? big(0.15) : big(0.02)))
			pbt::skip();
		const Tri<T> t{ narrow<T>(v[0]), narrow<T>(v[1]), narrow<T>(v[2]) };
		const poly tp = b(t);
		NOTE(sh(bp) << " and " << sh(tp));
		const big u = unit<T>(), m = maxabs(b(x.center)) + maxabs(b(x.extents)) + maxabs(v[0]) + longest, d = gap(bp, tp);
		c.nontrivial(true);
		c.cls(d > 0, "separate"), c.cls(babs(d) < p2(-40), "touching");
		const int along = (n.x != 0) + (n.y != 0) + (n.z != 0);
		big lo, hi;
		range(bp, unitv(n), lo, hi);
		const big on	 = dot(unitv(n), v[0]), nd = bmax(on - hi, lo - on), ns = u * 32 * m / (len(n) / (longest * longest));
		const bool exact = k.exact() && (along == 1 || babs(nd) > ns) && (fp<T>::digits > 11 || k.kind == 0);
		const big slack	 = u * 96 * m * longest / len(n) * longest + blur<T>(bp, tp) * m;
		if (exact || babs(d) > slack)
		{
			const bool want = d < p2(-40);
			CHECK((x.intersects(t) == want && Obb<T>::intersects(x, t) == want && Obb<T>::intersects(x, t[0], t[1], t[2]) == want && Obb<T>::intersects(x, t[2], t[0], t[1]) == want && Obb<T>::intersects(x, t[1], t[0], t[2]) == want),
				  "intersects() a triangle with a gap of " << sh(d));
			CHECK((t.intersects(x) == want && Tri<T>::intersects(t, x) == want && Tri<T>::intersects(t[0], t[1], t[2], x) == want), "a triangle intersects() with a gap of " << sh(d));
		}
	}

	template <typename T>
	void boxes(pbt::Case& c)
	{
		const coords k = gen_coords(c, reach<T>());
		const frame fr = k.exact() ? gen_signed(c) : gen_frame(c), fs = k.exact() ? gen_signed(c) : c.chance(1, 6) ? fr : gen_frame(c);
		const Obb<T> x = gen_obb<T>(c, k, fr);
		Obb<T> y	   = gen_obb<T>(c, k, fs);
		if (!k.exact())
		{
			y.extents = narrow<T>(b(y.extents) * p2(-static_cast<int>(c.u(0, 3))));
			if (c.chance(4, 5))
				y.center = narrow<T>(b(y.center) + approach(c, b(x), b(y)));
		}
		const poly p = b(x), q = b(y);
		NOTE("boxes " << sh(p) << " and " << sh(q));
		c.nontrivial(true);
		const big m = maxabs(b(x.center)) + maxabs(b(x.extents)) + maxabs(b(y.center)) + maxabs(b(y.extents)), d = gap(p, q), slack = unit<T>() * 64 * m + blur<T>(p, q) * m;
		if (k.exact() || babs(d) > slack)
		{
			const bool want = d <= 0;
			big faces		= -1e30;
			for (const auto* s : { &p, &q })
				for (const auto& n : s->normals)
				{
					big pl, ph, ql, qh;
					range(p, unitv(n), pl, ph), range(q, unitv(n), ql, qh);
					faces = bmax(faces, bmax(ql - ph, pl - qh));
				}
			c.cls(want, "meeting"), c.cls(d == 0, "touching"), c.cls(d > 0 && faces < 0, "apart only across two edges");
			CHECK((x.intersects(y) == want && y.intersects(x) == want && Obb<T>::intersects(x, y) == want), "intersects() a box with a gap of " << sh(d));
		}
		// the same box described otherwise
		const size_t i = c.below(3);
		Obb<T> z	   = x;
		z.axes.m[i]	   = -x.axes.m[i];
		std::swap(z.axes.m[(i + 1) % 3], z.axes.m[(i + 2) % 3]);
		std::swap(z.extents[(i + 1) % 3], z.extents[(i + 2) % 3]);
		if (k.exact() || babs(d) > slack)
			CHECK((z.intersects(y) == x.intersects(y)), "intersects() depends on the order and direction of the axes");
	}

#define ALL(name, ...)                                                                                                 \
	PROP_T(name " build", 8000, 600000, (build<__VA_ARGS__>));                                                         \
	PROP_T(name " points", 16000, 1000000, (points<__VA_ARGS__>));                                                     \
	PROP_T(name " triangles", 16000, 1000000, (triangles<__VA_ARGS__>));                                               \
	PROP_T(name " boxes", 16000, 1000000, (boxes<__VA_ARGS__>))
#if PART == 0
	ALL("float", float);
#elif PART == 1
	ALL("double", double);
#elif PART == 2
	ALL("half", muu::half);
#else
	ALL("long double", long double);
#endif
}
