// wide reference geometry: convex polytopes, separation, distances
#pragma once
#include "quat.hpp"
#include <muu/plane.h>
#include <muu/line_segment.h>
#include <muu/triangle.h>
#include <muu/bounding_sphere.h>
#include <muu/bounding_box.h>
#include <muu/oriented_bounding_box.h>
#include <muu/ray.h>
#include <vector>

namespace
{
	// a point, segment, triangle or box
	struct poly
	{
		std::vector<b3> pts, normals, edges;
		std::string name;
	};
	std::string sh(const poly& p)
	{
		std::string s = p.name + " [";
		for (size_t i = 0; i < p.pts.size(); i++)
			s += (i ? ", " : "") + sh(p.pts[i]);
		return s + "]";
	}
	poly point(b3 p) { return { { p }, {}, {}, "point" }; }
	poly segment(b3 a, b3 b) { return { { a, b }, {}, { b - a }, "segment" }; }
	poly triangle(b3 a, b3 b, b3 c) { return { { a, b, c }, { cross(b - a, c - a) }, { b - a, c - b, a - c }, "triangle" }; }
	poly box(b3 center, b3 ext, b3 x = { 1, 0, 0 }, b3 y = { 0, 1, 0 }, b3 z = { 0, 0, 1 })
	{
		poly p;
		p.name = "box";
		for (int i = 0; i < 8; i++)
			p.pts.push_back(center + x * (ext.x * (i & 1 ? 1 : -1)) + y * (ext.y * (i & 2 ? 1 : -1)) + z * (ext.z * (i & 4 ? 1 : -1)));
		p.normals = { cross(y, z), cross(z, x), cross(x, y) };
		p.edges	  = { x, y, z };
		return p;
	}
	template <typename T>
	poly b(const muu::line_segment<T>& s)
	{
		return segment(b(s.points[0]), b(s.points[1]));
	}
	template <typename T>
	poly b(const muu::triangle<T>& s)
	{
		return triangle(b(s.points[0]), b(s.points[1]), b(s.points[2]));
	}
	template <typename T>
	poly b(const muu::bounding_box<T>& s)
	{
		return box(b(s.center), b(s.extents));
	}
	template <typename T>
	poly b(const muu::oriented_bounding_box<T>& s)
	{
		return box(b(s.center), b(s.extents), b(s.axes.m[0]), b(s.axes.m[1]), b(s.axes.m[2]));
	}
	void range(const poly& p, b3 axis, big& lo, big& hi)
	{
		lo = hi = dot(p.pts[0], axis);
		for (const auto& q : p.pts)
		{
			const big d = dot(q, axis);
			lo			= bmin(lo, d);
			hi			= bmax(hi, d);
		}
	}
	// every axis that can separate two convex shapes
	std::vector<b3> sat_axes(const poly& p, const poly& q)
	{
		std::vector<b3> axes;
		for (const auto& n : p.normals)
			axes.push_back(n);
		for (const auto& n : q.normals)
			axes.push_back(n);
		for (const auto& e : p.edges)
			for (const auto& f : q.edges)
				axes.push_back(cross(e, f));
		for (const auto* s : { &p, &q })
			if (s->normals.size() < 3 || p.pts.size() + q.pts.size() < 16)
				for (const auto& n : s->normals)
					for (const auto* r : { &p, &q })
						for (const auto& e : r->edges)
							axes.push_back(cross(n, e));
		if (p.normals.empty() && q.normals.empty())
		{
			for (const auto* s : { &p, &q })
				for (const auto& e : s->edges)
				{
					axes.push_back(e);
					for (const auto& a : p.pts)
						for (const auto& b : q.pts)
							axes.push_back((a - b) - e * (dot(a - b, e) / (len2(e) == 0 ? big(1) : len2(e))));
				}
			axes.push_back(p.pts[0] - q.pts[0]);
		}
		std::vector<b3> out;
		for (const auto& axis : axes)
		{
			const big l = len(axis);
			if (l >= p2(-50))
				out.push_back(axis / l);
		}
		return out;
	}
	// the widest gap between two convex shapes along any relevant axis: positive = that far apart (at least),
	// negative = they overlap and that is how deeply; in_plane ignores the axes in which both are flat
	big gap(const poly& p, const poly& q, bool in_plane = false)
	{
		big best = -1e30;
		for (const auto& axis : sat_axes(p, q))
		{
			big pl, ph, ql, qh;
			range(p, axis, pl, ph);
			range(q, axis, ql, qh);
			if (in_plane && ph - pl < p2(-30) && qh - ql < p2(-30))
				continue;
			best = bmax(best, bmax(ql - ph, pl - qh));
		}
		return best;
	}
	// how far q has to be moved in a direction to only just touch p (they overlap)
	big touching(const poly& p, const poly& q, b3 dir)
	{
		big best = 1e30;
		for (auto axis : sat_axes(p, q))
		{
			big d = dot(axis, dir);
			if (d < 0)
				axis = -axis, d = -d;
			if (d < p2(-20))
				continue;
			big pl, ph, ql, qh;
			range(p, axis, pl, ph);
			range(q, axis, ql, qh);
			best = bmin(best, (ph - ql) / d);
		}
		return best;
	}
	// nearly parallel edges define an axis poorly; how much of a gap can be missed because of that
	template <typename T>
	big blur(const poly& p, const poly& q)
	{
		big worst = 0;
		for (const auto& e : p.edges)
			for (const auto& f : q.edges)
			{
				const big l = len(e) * len(f);
				if (l == 0)
					continue;
				const big s = len(cross(e, f)) / l;
				if (s > 0)
					worst = bmax(worst, bmin(s, unit<T>() * 16 / s));
			}
		return worst;
	}
	// nearest points
	b3 nearest_on_segment(b3 a, b3 b, b3 p)
	{
		const b3 d	 = b - a;
		const big l2 = len2(d);
		if (l2 == 0)
			return a;
		return a + d * bmin(1, bmax(0, dot(p - a, d) / l2));
	}
	b3 nearest_on_triangle(b3 a, b3 b, b3 c, b3 p)
	{
		const b3 n	= cross(b - a, c - a);
		const b3 pp = p - n * (dot(p - a, n) / len2(n));
		if (dot(cross(b - a, pp - a), n) >= 0 && dot(cross(c - b, pp - b), n) >= 0 && dot(cross(a - c, pp - c), n) >= 0)
			return pp;
		b3 best = nearest_on_segment(a, b, p);
		for (const b3& q : { nearest_on_segment(b, c, p), nearest_on_segment(c, a, p) })
			if (len2(q - p) < len2(best - p))
				best = q;
		return best;
	}
	b3 nearest_in_box(b3 center, b3 ext, b3 x, b3 y, b3 z, b3 p)
	{
		const b3 d = p - center;
		b3 r	   = center;
		r		   = r + x * bmin(ext.x, bmax(-ext.x, dot(d, x)));
		r		   = r + y * bmin(ext.y, bmax(-ext.y, dot(d, y)));
		r		   = r + z * bmin(ext.z, bmax(-ext.z, dot(d, z)));
		return r;
	}
	// coordinates: small integers (arithmetic on them is exact), simple fractions or anything within [-range, range]
	struct coords
	{
		int kind;
		double range;
		big operator()(pbt::Case& c) const
		{
			const double r = range;
			switch (kind)
			{
				case 0: return big(c.i(-static_cast<int64_t>(r < 4 ? r : 4), static_cast<int64_t>(r < 4 ? r : 4)));
				case 1: return big(c.i(-static_cast<int64_t>(r * 4), static_cast<int64_t>(r * 4))) / 4;
				default: return c.real(-r, r);
			}
		}
		b3 pt(pbt::Case& c) const
		{
			const big x = (*this)(c), y = (*this)(c), z = (*this)(c);
			return { x, y, z };
		}
		bool exact() const { return kind < 2; }
	};
	coords gen_coords(pbt::Case& c, double range = 10)
	{
		return { static_cast<int>(c.u(0, 3)), range };
	}
	template <typename T>
	b3 rounded(b3 p) // what the library sees
	{
		return b(narrow<T>(p));
	}
	// an orthonormal frame: the coordinate axes (in some order and direction), a rotation about one of them, or any
	struct frame
	{
		b3 x, y, z;
	};
	frame gen_frame(pbt::Case& c)
	{
		bm r;
		switch (c.u(0, 3))
		{
			case 0: return { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } };
			case 1:
			{
				b3 axis;
				axis[c.below(3)] = 1;
				r				 = rotation(axis, gen_angle(c));
				break;
			}
			default: r = rotation(gen_quat(c));
		}
		return { column(r, 0), column(r, 1), column(r, 2) };
	}
	// an affine transform
	struct affine
	{
		b3 x, y, z, t;
		b3 operator()(b3 p) const { return x * p.x + y * p.y + z * p.z + t; }
		b3 dir(b3 p) const { return x * p.x + y * p.y + z * p.z; }
		template <typename T>
		muu::matrix<T, 4, 4> matrix() const
		{
			muu::matrix<T, 4, 4> m;
			const b3* cols[] = { &x, &y, &z, &t };
			for (size_t c = 0; c < 4; c++)
				for (size_t r = 0; r < 4; r++)
					m(r, c) = make<T>(r < 3 ? (*cols[c])[r] : c == 3 ? big(1) : big(0));
			return m;
		}
		template <typename T>
		affine seen() const
		{
			return { rounded<T>(x), rounded<T>(y), rounded<T>(z), rounded<T>(t) };
		}
	};
	enum class tx_kind
	{
		rigid,	 // rotation and translation
		uniform, // and one scale for everything
		scaled,	 // a scale along each axis, then rotation and translation
		any		 // also shear and mirroring
	};
	affine gen_affine(pbt::Case& c, tx_kind most)
	{
		const tx_kind k = static_cast<tx_kind>(c.u(0, static_cast<uint64_t>(most)));
		const frame f	= gen_frame(c);
		affine a{ f.x, f.y, f.z, { c.real(-10, 10), c.real(-10, 10), c.real(-10, 10) } };
		if (k == tx_kind::uniform)
		{
			const big s = c.real(0.25, 4);
			a.x = a.x * s, a.y = a.y * s, a.z = a.z * s;
		}
		if (k == tx_kind::scaled || k == tx_kind::any)
			a.x = a.x * c.real(0.25, 4), a.y = a.y * c.real(0.25, 4), a.z = a.z * c.real(0.25, 4);
		if (k == tx_kind::any)
		{
			if (c.b())
				a.x = -a.x;
			const frame g = gen_frame(c); // rotate first
			const affine o = a;
			a.x = o.dir(g.x), a.y = o.dir(g.y), a.z = o.dir(g.z);
		}
		return a;
	}
	b3 middle(const poly& p)
	{
		b3 m;
		for (const auto& q : p.pts)
			m = m + q;
		return m / big(static_cast<double>(p.pts.size()));
	}
	poly moved(poly p, b3 by)
	{
		for (auto& q : p.pts)
			q = q + by;
		return p;
	}
	// a translation that brings one shape into (nearly) touching another, from some side
	b3 approach(pbt::Case& c, const poly& fixed, const poly& moving)
	{
		b3 dir = gen_dir(c);
		if (c.chance(1, 4))
		{
			const auto axes = sat_axes(fixed, moving);
			if (!axes.empty())
				dir = axes[c.below(axes.size())] * (c.b() ? 1 : -1);
		}
		const b3 start = middle(fixed) - middle(moving);
		const big t	   = touching(fixed, moved(moving, start), dir);
		big by		   = 0;
		switch (c.u(0, 3))
		{
			case 0: by = c.real(-0.01, 0.01); break;
			case 1: by = c.real(-0.1, 0.1); break;
			case 2: by = c.real(-1, 1); break;
		}
		return start + dir * ((t > 1000 ? big(0) : t) + by);
	}
	// both overloads of every way to get at the parts of a shape
	template <typename S>
	void components(pbt::Case& c, const S& x)
	{
		S y = x;
		using T = typename S::scalar_type;
		CHECK(static_cast<const void*>(y.data()) == &y && std::as_const(y).data() == y.data(), "data()");
		static_assert(std::is_same_v<decltype(y.data()), T*> && std::is_same_v<decltype(std::as_const(y).data()), const T*>);
		static_assert(std::is_nothrow_default_constructible_v<S> && std::is_trivially_copyable_v<S>);
	}
	template <typename S, size_t... I>
	void points_of(pbt::Case& c, const S& x, std::index_sequence<I...>)
	{
		S y			  = x;
		const S& z	  = y;
		const auto* p = &z.points[0];
		CHECK((... && (&y[I] == p + I && &z[I] == p + I && &y.template get<I>() == p + I && &z.template get<I>() == p + I)), "access to points");
		CHECK(y.begin() == p && z.begin() == p && y.cbegin() == p && z.cbegin() == p, "begin()");
		CHECK(y.end() == p + sizeof...(I) && z.end() == p + sizeof...(I) && y.cend() == p + sizeof...(I) && z.cend() == p + sizeof...(I), "end()");
		CHECK(begin(y) == p && begin(z) == p && end(y) == p + sizeof...(I) && end(z) == p + sizeof...(I) && cbegin(z) == p && cend(z) == p + sizeof...(I), "free begin() and end()");
		using T = typename S::scalar_type;
		for (size_t i = 0; i < sizeof...(I) * 3; i++)
		{
			S w = x;
			w.data()[i] = static_cast<T>(w.data()[i] == T(3) ? 5 : 3);
			for (size_t j = 0; j < sizeof...(I) * 3; j++)
				CHECK(w[j / 3][j % 3] == (i == j ? w.data()[i] : x[j / 3][j % 3]), "writing through data()");
		}
	}
}
