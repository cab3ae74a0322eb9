// G03: triangles against their vertex geometry
#include <muu/core.h>
#include "common.hpp"
#include "geo.hpp"
#include <optional>
#ifndef PART
#define PART 0
#endif

namespace
{
	template <typename T>
	using V3 = muu::vector<T, 3>;
	template <typename T>
	using Tri = muu::triangle<T>;
	template <typename T>
	using Seg = muu::line_segment<T>;

	template <typename T>
	coords gen_tri_coords(pbt::Case& c)
	{
		return gen_coords(c, fp<T>::digits == 11 ? 3 : 10);
	}
	big sine(b3 a, b3 e, b3 f) { return len(cross(e - a, f - a)) / (len(e - a) * len(f - a)); }
	// the thinnest corner
	big thinness(b3 a, b3 e, b3 f)
	{
		if (len(e - a) == 0 || len(f - a) == 0 || len(f - e) == 0)
			return 0;
		return bmin(sine(a, e, f), bmin(sine(e, a, f), sine(f, a, e)));
	}
	template <typename T>
	bool thin(b3 a, b3 e, b3 f)
	{
		return thinness(a, e, f) < (fp<T>::digits == 11 ? big(0.3) : big(0.02)) || bmin(len(e - a), len(f - a)) < big(0.2);
	}

	template <typename T>
	void measures(pbt::Case& c)
	{
		const coords k = gen_tri_coords<T>(c);
		b3 p[3]		   = { rounded<T>(k.pt(c)), rounded<T>(k.pt(c)), rounded<T>(k.pt(c)) };
		if (c.chance(1, 10))
			p[c.below(3)] = p[c.below(3)];
		if (!k.exact() && c.chance(1, 8)) // thin
			p[2] = rounded<T>(p[0] + (p[1] - p[0]) * c.real(0, 1) + gen_dir(c) * 0.01);
		const Tri<T> t{ narrow<T>(p[0]), narrow<T>(p[1]), narrow<T>(p[2]) };
		const big u = unit<T>(), m = bmax(maxabs(p[0]), bmax(maxabs(p[1]), maxabs(p[2])));
		NOTE("triangle " << sh(p[0]) << ", " << sh(p[1]) << ", " << sh(p[2]));
		const b3 n	 = cross(p[1] - p[0], p[2] - p[0]);
		const big a2 = len(n);
		c.nontrivial(a2 > 0);
		NEAR3(T, t.centroid(), (p[0] + p[1] + p[2]) / 3, u * 8 * m, "centroid");
		const big per = len(p[1] - p[0]) + len(p[2] - p[1]) + len(p[0] - p[2]);
		NEAR(T, t.perimeter(), per, u * 16 * per, "perimeter");
		NEAR(T, t.area(), a2 / 2, u * 12 * len(p[1] - p[0]) * len(p[2] - p[0]) + p2(-25) * (fp<T>::digits == 11 ? 1 : 0), "area");
		CHECK((Tri<T>::centroid(t[0], t[1], t[2]) == t.centroid() && Tri<T>::perimeter(t[0], t[1], t[2]) == t.perimeter() && Tri<T>::area(t[0], t[1], t[2]) == t.area()), "forms");
		const bool same = t[0] == t[1] || t[1] == t[2] || t[0] == t[2];
		c.cls(same, "repeated vertex");
		if (same || a2 > 0)
			CHECK(t.degenerate() == same && muu::degenerate(t) == same && Tri<T>::degenerate(t[0], t[1], t[2]) == same, "degenerate()");
		if (a2 > 0 && sine(p[0], p[1], p[2]) > u * 64)
		{
			const big slack = u * 12 / sine(p[0], p[1], p[2]);
			NEAR3(T, t.normal(), n / a2, slack, "normal");
			const auto pl = t.plane();
			NEAR3(T, pl.normal, n / a2, slack, "normal of the plane");
			for (const auto& x : p)
				CHECK(babs(dot(b(pl.normal), x) + w(pl.d)) <= (slack * 2 + u * 8) * (m + 1) * 2, "the plane misses the vertex " << sh(x));
			CHECK((Tri<T>::normal(t[0], t[1], t[2]) == t.normal() && Tri<T>::plane(t[0], t[1], t[2]) == pl), "forms");
			// the collision tester's parts
			const auto ct = t.collision_tester();
			CHECK((ct.tri == t && ct.normal == t.normal() && ct.edges[0] == t[1] - t[0] && ct.edges[1] == t[2] - t[1] && ct.edges[2] == t[0] - t[2]), "collision tester");
		}
		// access and comparisons
		components(c, t);
		points_of(c, t, std::make_index_sequence<3>{});
		CHECK(t.begin() == &t[0] && t.end() - t.begin() == 3 && t.cend() - t.cbegin() == 3 && t.data() == &t[0].x && t.data()[8] == t[2].z, "access");
		CHECK(&t.template get<0>() == &t[0] && &t.template get<1>() == &t[1] && &t.template get<2>() == &t[2], "access");
		CHECK((Tri<T>{ t[0].x, t[0].y, t[0].z, t[1].x, t[1].y, t[1].z, t[2].x, t[2].y, t[2].z } == t), "construction from scalars");
		const V3<T> arr[3] = { t[0], t[1], t[2] };
		CHECK((Tri<T>{ arr } == t), "construction from an array");
		const Tri<double> wd{ t };
		for (size_t i = 0; i < 3; i++)
			NEAR3(double, wd[i], p[i], m * p2(-53), "conversion");
		Tri<T> z	 = t;
		size_t count = 0;
		for (auto& q : z)
			CHECK(&q == &z[count++], "iteration");
		CHECK(count == 3 && end(z) - begin(z) == 3 && cend(z) - cbegin(z) == 3, "iteration");
		CHECK(z == t && !(z != t) && !z.infinity_or_nan() && !muu::infinity_or_nan(z) && Tri<T>::constants::zero.zero(), "comparison");
		const size_t at = c.below(9);
		T& f			= z[at / 3][at % 3];
		const T old		= f;
		f				= make<T>(w(f) + big(0.25) + babs(w(f)) / 2);
		const big moved = babs(w(f) - w(old));
		CHECK(!(z == t) && z != t, "equality ignores component " << at);
		for (const big g : { big(0.9), big(1.1) })
		{
			const T eps = make<T>(moved * g);
			CHECK(z.approx_equal(t, eps) == (g > 1) && muu::approx_equal(t, z, eps) == (g > 1) && Tri<T>::approx_equal(z, t, eps) == (g > 1), "approx_equal of component " << at);
		}
		Tri<T> single		   = Tri<T>::constants::zero;
		single[at / 3][at % 3] = make<T>(big(c.b() ? 0.5 : -0.5));
		CHECK(!single.zero() && single.approx_zero(T(1)) && !single.approx_zero(T(0.25)) && muu::approx_zero(single, T(1)) && !muu::approx_zero(single, T(0.25)), "zero tests of component " << at);
		f = make<T>(big(1) / big(0));
		CHECK(z.infinity_or_nan() && muu::infinity_or_nan(z) && Tri<T>::infinity_or_nan(z), "infinity_or_nan() of component " << at);
	}

	template <typename T>
	void points(pbt::Case& c)
	{
		const coords k = gen_tri_coords<T>(c);
		const b3 a = rounded<T>(k.pt(c)), e = rounded<T>(k.pt(c)), f = rounded<T>(k.pt(c));
		if (thin<T>(a, e, f))
			pbt::skip();
		const Tri<T> t{ narrow<T>(a), narrow<T>(e), narrow<T>(f) };
		const b3 n = cross(e - a, f - a), un = unitv(n);
		const big u = unit<T>(), m = bmax(bmax(maxabs(a), maxabs(e)), maxabs(f)), th = thinness(a, e, f);
		// a point in the plane (exactly so for simple coordinates: they have room for the halving twice) or off it
		big s, q;
		if (k.exact())
			s = big(c.i(-4, 8)) / 4, q = big(c.i(-4, 8)) / 4;
		else if (c.b())
			s = c.real(0, 1), q = (1 - s) * c.real(0, 1);
		else
			s = c.real(-1, 2), q = c.real(-1, 2);
		b3 p		 = a + (e - a) * s + (f - a) * q;
		const int off = static_cast<int>(c.u(0, 3)); // 0: on, 1: on, 2: by half the tolerance, 3: by twice the tolerance or more
		const T eps	  = make<T>(big(c.u(1, 16)) * (fp<T>::digits == 11 ? p2(-5) : p2(-9)));
		if (off >= 2)
			p = p + un * (w(eps) * (off == 2 ? big(0.5) : big(c.real(2, 20))) * (c.b() ? 1 : -1));
		const V3<T> P = narrow<T>(p);
		p			  = b(P);
		NOTE("triangle " << sh(a) << ", " << sh(e) << ", " << sh(f) << " point " << sh(p));
		c.nontrivial(true);
		// barycentric coordinates of the (projected) point
		const b3 pp		= p - un * dot(p - a, un);
		const big A		= dot(n, n);
		const b3 want	= { dot(cross(e - pp, f - pp), n) / A, dot(cross(f - pp, a - pp), n) / A, dot(cross(a - pp, e - pp), n) / A };
		const big reach = 1 + len(p - a) / bmin(len(e - a), len(f - a)), bs = u * 24 / (th * th) * reach;
		const auto got	= t.barycentric(P);
		NEAR3(T, got, want, bs, "barycentric coordinates");
		NEAR(T, make<T>(w(got.x) + w(got.y) + w(got.z)), big(1), u * 16 * (1 + maxabs(b(got))), "sum of the barycentric coordinates");
		CHECK((Tri<T>::barycentric(t[0], t[1], t[2], P) == got), "forms");
		const auto g = t.barycentric_generator();
		NEAR3(T, g(P), want, bs, "barycentric coordinates (generator)");
		NEAR3(T, Tri<T>::barycentric_generator(t[0], t[1], t[2])(P), want, bs, "barycentric coordinates (generator)");
		// coplanarity
		const big d = babs(dot(p - a, un)), ds = u * 32 * (m * 2 + len(p - a)) / th;
		if (babs(d - w(eps)) > ds)
		{
			CHECK(t.coplanar(P, eps) == (d < w(eps)), "coplanar() at a distance of " << sh(d) << " with tolerance " << sh(w(eps)));
			CHECK((Tri<T>::coplanar(t, P, eps) == t.coplanar(P, eps) && Tri<T>::coplanar(t[0], t[1], t[2], P, eps) == t.coplanar(P, eps)), "forms");
		}
		CHECK(t.coplanar(P) == t.coplanar(P, muu::default_epsilon<T>) && t.contains(P) == t.contains(P, muu::default_epsilon<T>), "default tolerance");
		// containment
		const big inner	 = bmin(want.x, bmin(want.y, want.z));
		const bool exact = k.exact() && off < 2 && d == 0 && fp<T>::digits > 11;
		// off the plane, points right at an edge can go either way
		const big edge = bs * 4 + (exact ? big(0) : d / bmin(len(e - a), bmin(len(f - a), len(f - e))) * 4 / th);
		if (babs(d - w(eps)) > ds && (d > w(eps) || exact || babs(inner) > edge))
		{
			const bool in = d < w(eps) && inner >= 0;
			c.cls(in, "contained"), c.cls(exact && inner == 0, "on an edge");
			CHECK(t.contains(P, eps) == in, "contains() a point with barycentric coordinates " << sh(want) << " and distance " << sh(d) << ", tolerance " << sh(w(eps)));
			for (int i = 0; i < 5; i++)
			{
				const int o[][3] = { { 1, 2, 0 }, { 2, 0, 1 }, { 0, 2, 1 }, { 2, 1, 0 }, { 1, 0, 2 } };
				const Tri<T> r{ t[o[i][0]], t[o[i][1]], t[o[i][2]] };
				CHECK(r.contains(P, eps) == in, "contains() depends on the order of the vertices");
			}
		}
		CHECK((Tri<T>::contains(t, P, eps) == t.contains(P, eps) && Tri<T>::contains(t[0], t[1], t[2], P, eps) == t.contains(P, eps)), "forms");
		// segments and arrays: all points
		const V3<T> Q = narrow<T>(c.b() ? t[0] == P ? e : (a + e) / 2 : k.pt(c));
		const bool both = t.contains(P, eps) && t.contains(Q, eps);
		CHECK((t.contains(Seg<T>{ P, Q }, eps) == both && t.contains(Seg<T>{ Q, P }, eps) == both && Tri<T>::contains(t, Seg<T>{ P, Q }, eps) == both && Tri<T>::contains(t[0], t[1], t[2], P, Q, eps) == both), "contains() of a segment");
		V3<T> many[4];
		const size_t cnt = c.sz(0, 4);
		bool all		 = cnt > 0;
		for (size_t i = 0; i < cnt; i++)
		{
			many[i] = c.b() ? P : c.b() ? Q : narrow<T>((a + e + f) / 3);
			all		= all && t.contains(many[i], eps);
		}
		Tri<T> mut = t;
		CHECK(mut.contains(many, many + cnt, eps) == all, "contains() of " << cnt << " points");
	}

	// the overlap of two triangles in general position: the extreme points along the line common to both planes
	bool overlap(const b3* v, const b3* q, b3& from, b3& to)
	{
		std::vector<b3> pts;
		const b3* tr[] = { v, q };
		const b3 n[]   = { cross(v[1] - v[0], v[2] - v[0]), cross(q[1] - q[0], q[2] - q[0]) };
		const b3 dir   = unitv(cross(n[0], n[1]));
		big lo[2], hi[2];
		b3 lop[2], hip[2];
		for (int s = 0; s < 2; s++)
		{
			const b3 *t = tr[s], on = tr[1 - s][0], on_n = n[1 - s];
			bool any = false;
			for (int i = 0; i < 3; i++)
			{
				const b3 x = t[i], y = t[(i + 1) % 3];
				const big dx = dot(x - on, on_n), dy = dot(y - on, on_n);
				std::vector<b3> hit;
				if (dx == 0)
					hit.push_back(x);
				if ((dx < 0 && dy > 0) || (dx > 0 && dy < 0))
					hit.push_back(x + (y - x) * (dx / (dx - dy)));
				for (const auto& h : hit)
				{
					const big k = dot(h, dir);
					if (!any || k < lo[s])
						lo[s] = k, lop[s] = h;
					if (!any || k > hi[s])
						hi[s] = k, hip[s] = h;
					any = true;
				}
			}
			if (!any)
				return false;
		}
		from = lo[0] > lo[1] ? lop[0] : lop[1];
		to	 = hi[0] < hi[1] ? hip[0] : hip[1];
		return bmax(lo[0], lo[1]) <= bmin(hi[0], hi[1]) + p2(-60);
	}

	template <typename T>
	void pairs(pbt::Case& c)
	{
		const int kind	 = static_cast<int>(c.u(0, 3));
		const bool small = kind < 2;
		auto pt = [&]() -> b3
		{
			if (small)
				return { big(c.i(-3, 3)), big(c.i(-3, 3)), big(c.i(-3, 3)) };
			return { c.real(-5, 5), c.real(-5, 5), c.real(-5, 5) };
		};
		b3 v[3] = { pt(), pt(), pt() }, q[3] = { pt(), pt(), pt() };
		const int pose = static_cast<int>(c.u(0, 7));
		auto in_plane  = [&]() { return v[0] + (v[1] - v[0]) * big(c.i(-1, 2)) + (v[2] - v[0]) * big(c.i(-1, 2)); };
		switch (pose)
		{
			case 0: q[c.below(3)] = v[c.below(3)]; break; // shared vertex
			case 1: // shared edge
			{
				const size_t i = c.below(3), j = c.below(3);
				q[i] = v[j], q[(i + 1) % 3] = v[(j + 1) % 3];
				break;
			}
			case 2: // coplanar
				for (auto& x : q)
					x = in_plane();
				break;
			case 3: // vertex in the plane
				q[c.below(3)] = in_plane();
				break;
			case 4: // edge in the plane
			{
				const size_t i = c.below(3);
				q[i] = in_plane(), q[(i + 1) % 3] = in_plane();
				break;
			}
			case 5: // parallel planes
			{
				const b3 by = pt() * (small ? big(1) : p2(-3));
				for (auto& x : q)
					x = in_plane() + by;
				break;
			}
			case 6: // through the middle
			{
				const b3 mid = (v[0] + v[1] + v[2]) / 3;
				q[0] = mid + (small ? b3{ big(c.i(-2, 2)), big(c.i(-2, 2)), big(c.i(-2, 2)) } : gen_dir(c)), q[1] = mid - gen_dir(c) * 2;
			}
		}
		bool exact = small;
		for (b3* x : { v, q })
			for (int i = 0; i < 3; i++)
			{
				x[i] = rounded<T>(x[i]);
				for (int j = 0; j < 3; j++)
					exact = exact && babs(x[i][j]) <= 9 && BIG(floor, x[i][j]) == x[i][j];
			}
		if (thinness(v[0], v[1], v[2]) < big(0.1) || thinness(q[0], q[1], q[2]) < big(0.1))
			pbt::skip();
		const b3 n1 = cross(v[1] - v[0], v[2] - v[0]), n2 = cross(q[1] - q[0], q[2] - q[0]);
		if (bmin(len(n1), len(n2)) < big(0.5))
			pbt::skip();
		const Tri<T> t{ narrow<T>(v[0]), narrow<T>(v[1]), narrow<T>(v[2]) }, r{ narrow<T>(q[0]), narrow<T>(q[1]), narrow<T>(q[2]) };
		NOTE("triangles " << sh(v[0]) << ", " << sh(v[1]) << ", " << sh(v[2]) << " and " << sh(q[0]) << ", " << sh(q[1]) << ", " << sh(q[2]));
		c.nontrivial(true);
		const poly p1 = triangle(v[0], v[1], v[2]), p2_ = triangle(q[0], q[1], q[2]);
		big m = 0;
		for (int i = 0; i < 3; i++)
			m = bmax(m, bmax(maxabs(v[i]), maxabs(q[i])));
		const big u = unit<T>(), angle = len(cross(n1, n2)) / (len(n1) * len(n2));
		const bool parallel = angle < p2(-60), flat = parallel && babs(dot(n1, q[0] - v[0])) < p2(-60);
		const big g			= gap(p1, p2_, flat);
		// single precision: products of up to twelve coordinates are rounded; simple coordinates are exact otherwise
		const bool sure = exact && m <= 3 && fp<T>::digits >= 53;
		// distances of vertices from planes that could be due to rounding alone are taken for zero
		const big span	= bmax(maxabs(v[1] - v[0]) * maxabs(v[2] - v[0]) / len(n1), maxabs(q[1] - q[0]) * maxabs(q[2] - q[0]) / len(n2));
		const big noise = u * 512 * m + w(muu::default_epsilon<T>) * 2 * span * m * 2;
		const big tol	= sure ? p2(-45) : noise * (flat || angle == 0 ? big(1) : 1 / angle);
		c.cls(flat, "coplanar"), c.cls(babs(g) < p2(-60), "touching"), c.cls(g < 0, "overlapping");
		int want = -1;
		if (sure && babs(g) < tol)
			want = 1;
		else if (g > tol)
			want = 0;
		else if (g < -tol)
			want = 1;
		else
			pbt::skip();
		if (!sure && !parallel && angle < big(0.05))
			pbt::skip();
		if (!sure && !exact && flat) // coplanar only by rounding
			pbt::skip();
		const int o[6][3] = { { 0, 1, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 0, 2, 1 }, { 2, 1, 0 }, { 1, 0, 2 } };
		const int *i = o[c.below(6)], *j = o[c.below(6)];
		const Tri<T> x{ t[i[0]], t[i[1]], t[i[2]] }, y{ r[j[0]], r[j[1]], r[j[2]] };
		const char* what = want ? "intersecting triangles do not intersect()" : "separate triangles intersect()";
		CHECK(t.intersects(r) == !!want && r.intersects(t) == !!want, what << ", gap " << sh(g));
		CHECK(x.intersects(y) == !!want && y.intersects(x) == !!want, what << " (other vertex order), gap " << sh(g));
		CHECK(Tri<T>::intersects(t, r) == !!want, "forms");
		// the ends of the segment are rounded, so where it would be a point it may be missed
		for (int s = 0; s < 4 && (flat || babs(g) > noise / bmax(angle, p2(-60))); s++)
		{
			const Tri<T>&l = s & 1 ? r : s & 2 ? x : t, &k = s & 1 ? t : s & 2 ? y : r;
			std::optional<Seg<T>> seg = Seg<T>{ l[0], k[1] };
			const bool got			  = s == 3 ? Tri<T>::intersects(l, k, seg) : l.intersects(k, seg);
			CHECK(got == !!want, what << " (with a segment), gap " << sh(g));
			CHECK(seg.has_value() == (want && !flat), "segment reported: " << seg.has_value() << " for " << (flat ? "coplanar " : "") << (want ? "intersecting" : "separate") << " triangles");
			if (seg)
			{
				b3 from, to;
				const b3 g0 = b(seg->points[0]), g1 = b(seg->points[1]);
				for (const b3& e : { g0, g1 })
				{
					const big d0 = len(e - nearest_on_triangle(v[0], v[1], v[2], e)), d1 = len(e - nearest_on_triangle(q[0], q[1], q[2], e));
					CHECK(d0 <= noise * 8 / angle && d1 <= noise * 8 / angle, "the segment's end " << sh(e) << " is " << sh(d0) << " and " << sh(d1) << " from the triangles");
				}
				CHECK(overlap(v, q, from, to), "reference overlap");
				const big miss = bmin(bmax(len(g0 - from), len(g1 - to)), bmax(len(g1 - from), len(g0 - to)));
				// where a shallow edge crosses a plane is less certain
				big shallow = 1;
				for (int e = 0; e < 3; e++)
					for (const big& d : { dot(q[e] - v[0], n1) / len(n1), dot(v[e] - q[0], n2) / len(n2) })
						if (d != 0)
							shallow = bmin(shallow, babs(d));
				if (shallow > noise * 64)
					CHECK(miss <= noise * 64 / (angle * angle * shallow), "the segment goes from " << sh(g0) << " to " << sh(g1) << " but the overlap from " << sh(from) << " to " << sh(to));
			}
		}
	}
	// triangles in a common plane of any orientation: up to rounding they are never quite coplanar
	template <typename T>
	void coplanar(pbt::Case& c)
	{
		const frame fr = gen_frame(c);
		const b3 unscaled{ c.real(-5, 5), c.real(-5, 5), c.real(-5, 5) };
		const big scale = p2(static_cast<int>(c.i(-4, 2)));
		const b3 o = unscaled * scale;
		b3 v[3], q[3];
		for (b3* x : { v, q })
			for (int i = 0; i < 3; i++)
				x[i] = rounded<T>(o + (fr.x * c.real(-3, 3) + fr.y * c.real(-3, 3)) * scale);
		if (c.chance(1, 4)) // one within the other
			for (int i = 0; i < 3; i++)
				q[i] = rounded<T>((v[0] + v[1] + v[2]) / 3 + (v[(i + 1) % 3] - (v[0] + v[1] + v[2]) / 3) * c.real(-0.4, 0.9));
		const Tri<T> t{ narrow<T>(v[0]), narrow<T>(v[1]), narrow<T>(v[2]) }, r{ narrow<T>(q[0]), narrow<T>(q[1]), narrow<T>(q[2]) };
		NOTE("triangles " << sh(v[0]) << ", " << sh(v[1]) << ", " << sh(v[2]) << " and " << sh(q[0]) << ", " << sh(q[1]) << ", " << sh(q[2]));
		for (b3* x : { v, q })
		{
			if (thinness(x[0], x[1], x[2]) < big(0.1) || len(cross(x[1] - x[0], x[2] - x[0])) < scale * scale)
				pbt::skip();
			for (int i = 0; i < 3; i++)
				x[i] = x[i] - fr.z * dot(x[i] - o, fr.z);
		}
		const big g = gap(triangle(v[0], v[1], v[2]), triangle(q[0], q[1], q[2]), true);
		if (babs(g) < unit<T>() * 4096 * scale + scale * big(0.01))
			pbt::skip();
		c.nontrivial(true);
		c.cls(g < 0, "overlapping");
		CHECK(t.intersects(r) == (g < 0) && r.intersects(t) == (g < 0), "intersects() for coplanar triangles with a gap of " << sh(g));
		std::optional<Seg<T>> seg = Seg<T>{ t[0], r[1] };
		CHECK(t.intersects(r, seg) == (g < 0) && !seg, "intersects() with a segment for coplanar triangles with a gap of " << sh(g));
		seg = Seg<T>{ t[0], r[1] };
		CHECK(r.intersects(t, seg) == (g < 0) && !seg, "intersects() with a segment for coplanar triangles with a gap of " << sh(g));
	}
#define ALL(name, ...)                                                                                                 \
	PROP_T(name " measures", 12000, 400000, (measures<__VA_ARGS__>));                                                   \
	PROP_T(name " points", 24000, 800000, (points<__VA_ARGS__>))
#define PAIRS(name, ...)                                                                                               \
	PROP_T(name " pairs", 80000, 3000000, (pairs<__VA_ARGS__>));                                                       \
	PROP_T(name " coplanar", 24000, 800000, (coplanar<__VA_ARGS__>))
#if PART == 0
	ALL("float", float);
	PAIRS("float", float);
#elif PART == 1
	ALL("double", double);
	PAIRS("double", double);
#elif PART == 2
	ALL("half", half);
#elif PART == 3
	ALL("long double", long double);
	PAIRS("long double", long double);
#endif
}
