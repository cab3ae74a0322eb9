// G07: rays against where they first meet a shape
#include <muu/core.h>
#include "common.hpp"
#include "geo.hpp"
#include <optional>
#ifndef PART
#define PART 0
#endif

namespace
{
	template <typename T>
	using V3 = muu::vector<T, 3>;
	template <typename T>
	using Ray = muu::ray<T>;

	template <typename T>
	constexpr double reach()
	{
		return fp<T>::digits == 11 ? 3 : 10;
	}
	// along an axis, in a coordinate plane or any
	b3 gen_ray_dir(pbt::Case& c, bool simple)
	{
		if (simple || c.chance(1, 5))
		{
			b3 d;
			d[c.below(3)] = c.b() ? 1 : -1;
			return d;
		}
		b3 d = gen_dir(c);
		if (c.chance(1, 5))
		{
			d[c.below(3)] = 0;
			if (len(d) < big(0.01))
				d = { 0, 1, 0 };
			d = unitv(d);
		}
		return d;
	}
	template <typename T>
	std::string show(const std::optional<T>& r)
	{
		return r ? sh(w(*r)) : "nothing";
	}
	template <typename T>
	void hit(pbt::Case& c, const std::optional<T>& got, bool want, big t, big slack, const char* what)
	{
		c.cls(want, "hit");
		CHECK(got.has_value() == want, what << ": hits " << show(got) << ", expected " << (want ? sh(t) : "nothing"));
		if (want)
			CHECK(babs(w(*got) - t) <= slack, what << ": hits at " << show(got) << ", expected " << sh(t));
	}

	template <typename T>
	void basics(pbt::Case& c)
	{
		const coords k = gen_coords(c, reach<T>());
		const Ray<T> r{ narrow<T>(k.pt(c)), narrow<T>(gen_ray_dir(c, false)) };
		const b3 o = b(r.origin), d = b(r.direction);
		NOTE("ray from " << sh(o) << " along " << sh(d));
		c.nontrivial(true);
		const T t = make<T>(babs(k(c)));
		NEAR3(T, r.at(t), o + d * w(t), unit<T>() * 4 * (maxabs(o) + w(t)), "at() " << sh(w(t)));
		const typename Ray<T>::result_type res{ t };
		CHECK((r.at(res) == r.at(t) && Ray<T>::at(r, t) == r.at(t) && Ray<T>::at(r, res) == r.at(t)), "forms of at()");
		const V3<T> to = narrow<T>(gen_dir(c));
		const Ray<T> n = r.bounce(t, to);
		CHECK((n.origin == r.at(t) && n.direction == to && r.bounce(res, to) == n && Ray<T>::bounce(r, t, to) == n && Ray<T>::bounce(r, res, to) == n), "bounce()");
		CHECK((Ray<T>{ r.origin.x, r.origin.y, r.origin.z, r.direction.x, r.direction.y, r.direction.z } == r), "construction");
		const Ray<double> wd{ r };
		NEAR3(double, wd.origin, o, maxabs(o) * p2(-53), "conversion");
		NEAR3(double, wd.direction, d, p2(-53), "conversion");
		Ray<T> z = r;
		CHECK(z == r && !(z != r) && !z.infinity_or_nan() && !muu::infinity_or_nan(z), "comparison");
		const size_t at = c.below(6);
		T& f			= at < 3 ? z.origin[at] : z.direction[at - 3];
		const T old		= f;
		f				= make<T>(w(f) + big(0.25) + babs(w(f)) / 2);
		const big moved = babs(w(f) - w(old));
		CHECK(!(z == r) && z != r, "equality ignores component " << at);
		for (const big g : { big(0.9), big(1.1) })
		{
			const T eps = make<T>(moved * g);
			CHECK(z.approx_equal(r, eps) == (g > 1) && muu::approx_equal(r, z, eps) == (g > 1) && Ray<T>::approx_equal(z, r, eps) == (g > 1), "approx_equal of component " << at);
		}
		f = make<T>(big(1) / big(0));
		CHECK(z.infinity_or_nan() && muu::infinity_or_nan(z) && Ray<T>::infinity_or_nan(z), "infinity_or_nan() of component " << at);
	}

	template <typename T>
	void planes(pbt::Case& c)
	{
		const coords k	  = gen_coords(c, reach<T>());
		const bool simple = k.exact();
		b3 n			  = simple ? gen_ray_dir(c, true) : gen_dir(c);
		const Ray<T> r{ narrow<T>(k.pt(c)), narrow<T>(gen_ray_dir(c, simple)) };
		const muu::plane<T> p{ narrow<T>(n), make<T>(k(c)) };
		n = b(p.normal);
		const b3 o = b(r.origin), d = b(r.direction);
		NOTE("ray from " << sh(o) << " along " << sh(d) << ", plane " << sh(n) << ", " << sh(w(p.d)));
		const big nd = dot(n, d), sd = dot(n, o) + w(p.d), u = unit<T>(), m = maxabs(o) + babs(w(p.d));
		c.nontrivial(nd != 0);
		const bool exact = simple;
		if (!exact && (babs(nd) < big(0.02) || babs(sd) < u * 32 * m))
			pbt::skip();
		if (nd == 0 && sd == 0) // within the plane
			pbt::skip();
		const big t = nd == 0 ? big(-1) : -sd / nd, slack = exact ? big(0) : u * 32 * (m + babs(t)) / babs(nd);
		c.cls(nd == 0, "parallel"), c.cls(sd == 0, "starts in the plane");
		hit<T>(c, r.hits(p), t >= 0, t, slack, "plane");
		CHECK((Ray<T>::hits(r, p) == r.hits(p)), "forms");
		const muu::plane<T> back{ -p.normal, -p.d };
		hit<T>(c, r.hits(back), t >= 0, t, slack, "the same plane seen from behind");
	}

	template <typename T>
	void triangles(pbt::Case& c)
	{
		const coords k = gen_coords(c, reach<T>());
		const b3 v[3] = { rounded<T>(k.pt(c)), rounded<T>(k.pt(c)), rounded<T>(k.pt(c)) }, n = cross(v[1] - v[0], v[2] - v[0]);
		const big l1 = len(v[1] - v[0]), l2 = len(v[2] - v[1]), l3 = len(v[0] - v[2]), longest = bmax(l1, bmax(l2, l3));
		if (bmin(l1, bmin(l2, l3)) < big(0.4) || len(n) < longest * longest * (fp<T>::digits == 11 ? big(0.2) : big(0.05)))
			pbt::skip();
		b3 o = k.pt(c), d = gen_ray_dir(c, k.exact());
		if (!k.exact() && c.chance(3, 4)) // at (or next to) the triangle, or away from it
		{
			const b3 at = v[0] + (v[1] - v[0]) * c.real(-0.2, 1.1) + (v[2] - v[0]) * c.real(-0.2, 1.1);
			if (len(at - o) < big(0.2))
				pbt::skip();
			d = unitv(at - o) * (c.chance(1, 4) ? -1 : 1);
		}
		const Ray<T> r{ narrow<T>(o), narrow<T>(d) };
		o = b(r.origin), d = b(r.direction);
		const muu::triangle<T> tri{ narrow<T>(v[0]), narrow<T>(v[1]), narrow<T>(v[2]) };
		NOTE("ray from " << sh(o) << " along " << sh(d) << ", triangle " << sh(v[0]) << ", " << sh(v[1]) << ", " << sh(v[2]));
		const big A = len2(n), nd = dot(n, d), u = unit<T>(), slope = babs(nd) / len(n);
		c.nontrivial(true);
		if (nd != 0 && slope < (fp<T>::digits == 11 ? big(0.3) : big(0.05)))
			pbt::skip();
		c.cls(nd == 0, "parallel");
		if (nd == 0)
		{
			if (k.exact())
				CHECK(!r.hits(tri), "hits a triangle that is parallel to the ray");
			return;
		}
		const big t = -dot(n, o - v[0]) / nd, m = maxabs(o) + maxabs(v[0]) + longest, cond = longest * longest / (len(n) * slope);
		const b3 q	   = o * nd - d * dot(n, o - v[0]); // scaled by nd to stay exact
		const big e[3] = { dot(cross(v[2] - v[1], q - v[1] * nd), n) / (A * nd), dot(cross(v[0] - v[2], q - v[2] * nd), n) / (A * nd), dot(cross(v[1] - v[0], q - v[0] * nd), n) / (A * nd) };
		const big inner = bmin(e[0], bmin(e[1], e[2]));
		// on simple coordinates everything up to the reciprocal of the determinant is exact, edges shared with e2 + e3 > 1 are not
		const bool exact = k.kind == 0 && fp<T>::digits > 11;
		const big es	 = u * 64 * cond * (1 + m / longest) * (1 + m / bmin(l1, bmin(l2, l3)));
		const bool sure	 = exact ? inner != 0 || e[0] > es : babs(inner) > es;
		const big slack	 = u * 64 * cond * m * (1 + babs(t) / longest);
		if (!sure || (babs(t) <= slack && !(exact && t == 0)))
			pbt::skip();
		const bool want = inner >= 0 && t >= 0;
		c.cls(t < 0 && inner >= 0, "behind the ray"), c.cls(inner == 0, "at an edge");
		hit<T>(c, r.hits(tri), want, t, slack, "triangle");
		CHECK((Ray<T>::hits(r, tri) == r.hits(tri)), "forms");
		if (inner != 0)
		{
			hit<T>(c, r.hits(muu::triangle<T>{ tri[1], tri[2], tri[0] }), want, t, slack, "triangle (rotated)");
			hit<T>(c, r.hits(muu::triangle<T>{ tri[1], tri[0], tri[2] }), want, t, slack, "triangle (other side)");
		}
	}

	template <typename T>
	void spheres(pbt::Case& c)
	{
		const coords k = gen_coords(c, reach<T>());
		b3 p		   = k.pt(c);
		const b3 o	   = rounded<T>(k.pt(c));
		big rad		   = babs(k(c)) + big(0.25);
		b3 dir		   = gen_ray_dir(c, k.exact());
		switch (c.u(0, 4))
		{
			case 0: // straight through the center
				if (len(p - o) > big(0.1) && !k.exact())
					dir = unitv(p - o) * (c.chance(1, 4) ? -1 : 1);
				break;
			case 1: // past it
				if (!k.exact())
				{
					p = o + dir * c.real(-10, 10) + unitv(cross(dir, gen_dir(c) + b3{ 3, 2, 1 })) * (rad * (c.b() ? c.real(0, 2) : c.real(0.9, 1.1)));
				}
				break;
			case 2: // from within
				if (!k.exact())
					p = o + gen_dir(c) * (rad * c.real(0, 1));
				break;
		}
		p			   = rounded<T>(p);
		const V3<T> D  = narrow<T>(dir);
		const b3 d	   = b(D);
		const Ray<T> r{ narrow<T>(o), D };
		const muu::bounding_sphere<T> s{ narrow<T>(p), make<T>(rad) };
		rad = w(s.radius);
		NOTE("ray from " << sh(o) << " along " << sh(d) << ", sphere " << sh(p) << " radius " << sh(rad));
		c.nontrivial(true);
		const b3 e	   = p - o;
		const big a = dot(e, d), dd = len2(d), disc = rad * rad - len2(e) + a * a / dd, u = unit<T>(), m = len(e) + rad + maxabs(o) + maxabs(p);
		const bool half = fp<T>::digits == 11;
		// the discriminant is a difference of squares, and near misses count as misses
		const big ds = u * 32 * m * m + w(muu::default_epsilon<T>) * 2, f = disc > 0 ? BIG(sqrt, disc) : 0;
		if (babs(disc) <= ds || (half && m * m > 20000))
			pbt::skip();
		const bool inside = len2(e) < rad * rad;
		if (babs(len2(e) - rad * rad) <= ds)
			pbt::skip(); // starts on the surface
		const bool want = disc > 0 && (inside || a > 0);
		const big t		= inside ? a / dd + f : a / dd - f;
		c.cls(inside, "from within"), c.cls(inside && a < 0, "from within, the center behind"), c.cls(disc > 0 && !inside && a < 0, "behind the ray");
		hit<T>(c, r.hits(s), want, t, u * 64 * m + (disc > 0 ? ds / f : big(0)), "sphere");
		CHECK((Ray<T>::hits(r, s) == r.hits(s)), "forms");
	}

	template <typename T>
	void boxes(pbt::Case& c)
	{
		const coords k = gen_coords(c, reach<T>());
		const b3 p	   = rounded<T>(k.pt(c));
		b3 e		   = k.pt(c);
		for (int i = 0; i < 3; i++)
		{
			e[i] = babs(e[i]);
			if (e[i] < big(0.05))
				e[i] = 1;
		}
		e	   = rounded<T>(e);
		b3 o   = k.pt(c);
		b3 dir = gen_ray_dir(c, k.exact());
		if (!k.exact())
		{
			if (c.chance(1, 3)) // from within
				for (int i = 0; i < 3; i++)
					o[i] = p[i] + e[i] * c.real(-1, 1);
			else if (c.chance(2, 3)) // at the surface
			{
				b3 at;
				for (int i = 0; i < 3; i++)
					at[i] = p[i] + e[i] * (c.chance(1, 3) ? c.b() ? 1 : -1 : c.real(-1.1, 1.1));
				if (len(at - o) > big(0.2) && !c.chance(1, 5))
					dir = unitv(at - o) * (c.chance(1, 5) ? -1 : 1);
			}
		}
		const Ray<T> r{ narrow<T>(o), narrow<T>(dir) };
		o		   = b(r.origin);
		const b3 d = b(r.direction);
		const muu::bounding_box<T> x{ narrow<T>(p), narrow<T>(e) };
		NOTE("ray from " << sh(o) << " along " << sh(d) << ", box " << sh(p) << " +- " << sh(e));
		c.nontrivial(true);
		const big u = unit<T>(), m = maxabs(o) + maxabs(p) + maxabs(e);
		big lo = -1e30, hi = 1e30, loHi = -1e30, hiLo = 1e30;
		bool missed = false, close = false, along = false;
		for (int i = 0; i < 3; i++)
		{
			if (d[i] == 0)
			{
				const big out = babs(o[i] - p[i]) - e[i];
				missed		  = missed || out > 0;
				close		  = close || (!k.exact() && babs(out) < u * 8 * m);
				along		  = along || out == 0;
				continue;
			}
			big t1 = (p[i] - e[i] - o[i]) / d[i], t2 = (p[i] + e[i] - o[i]) / d[i];
			if (t1 > t2)
				std::swap(t1, t2);
			const big err = k.exact() ? big(0) : u * 8 * m / babs(d[i]) + u * 4 * bmax(babs(t1), babs(t2));
			lo	 = bmax(lo, t1);
			hi	 = bmin(hi, t2);
			loHi = bmax(loHi, t1 + err);
			hiLo = bmin(hiLo, t2 - err);
		}
		const big le = loHi - lo, he = hi - hiLo; // (an axis that is nearly parallel has a large error, which matters only where it decides)
		c.cls(along, "within the plane of a face");
		if (close || (!missed && !k.exact() && (babs(hi - lo) <= le + he || babs(hi) <= he || babs(lo) <= le)))
			pbt::skip();
		const bool want = !missed && hi >= 0 && lo <= hi;
		c.cls(want && lo < 0, "from within");
		if (fp<T>::digits == 11 && babs(lo) > 1000)
			pbt::skip();
		hit<T>(c, r.hits(x), want, lo < 0 ? hi : lo, lo < 0 ? he : le, "box");
		CHECK((Ray<T>::hits(r, x) == r.hits(x)), "forms");
	}

#define ALL(name, ...)                                                                                                 \
	PROP_T(name " basics", 18000, 400000, (basics<__VA_ARGS__>));                                                       \
	PROP_T(name " planes", 60000, 2000000, (planes<__VA_ARGS__>));                                                     \
	PROP_T(name " triangles", 90000, 4000000, (triangles<__VA_ARGS__>));                                               \
	PROP_T(name " spheres", 60000, 3000000, (spheres<__VA_ARGS__>));                                                   \
	PROP_T(name " boxes", 90000, 4000000, (boxes<__VA_ARGS__>))
#if PART == 0
	ALL("float", float);
#elif PART == 1
	ALL("double", double);
#elif PART == 2
	ALL("half", muu::half);
#else
	ALL("long double", long double);
#endif
}
