// wide reference linear algebra for the matrix, quaternion and geometry harnesses
#pragma once
#include <muu/core.h>
#include "fp.hpp"
#include <muu/vector.h>
#include <muu/matrix.h>

namespace
{
	template <typename T>
	constexpr bool real = muu::is_floating_point<T>;
	template <typename T>
	big w(T x)
	{
		if constexpr (real<T>)
			return wide(x);
		else
			return static_cast<big>(x);
	}
	// unit roundoff of T (of the results; small floats are computed in float)
	template <typename T>
	big unit()
	{
		return p2(-fp<T>::digits);
	}

	struct b3
	{
		big x = 0, y = 0, z = 0;
		big& operator[](size_t i) { return i == 0 ? x : i == 1 ? y : z; }
		const big& operator[](size_t i) const { return i == 0 ? x : i == 1 ? y : z; }
	};
	b3 operator+(b3 a, b3 b) { return { a.x + b.x, a.y + b.y, a.z + b.z }; }
	b3 operator-(b3 a, b3 b) { return { a.x - b.x, a.y - b.y, a.z - b.z }; }
	b3 operator-(b3 a) { return { -a.x, -a.y, -a.z }; }
	b3 operator*(b3 a, big s) { return { a.x * s, a.y * s, a.z * s }; }
	b3 operator*(big s, b3 a) { return a * s; }
	b3 operator/(b3 a, big s) { return { a.x / s, a.y / s, a.z / s }; }
	big dot(b3 a, b3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
	b3 cross(b3 a, b3 b) { return { a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x }; }
	big len2(b3 a) { return dot(a, a); }
	big len(b3 a) { return BIG(sqrt, dot(a, a)); }
	b3 unitv(b3 a) { return a / len(a); }
	big bmax(big a, big b) { return a > b ? a : b; }
	big bmin(big a, big b) { return a < b ? a : b; }
	big maxabs(b3 a) { return bmax(babs(a.x), bmax(babs(a.y), babs(a.z))); }
	std::string sh(b3 a) { return "(" + sh(a.x) + ", " + sh(a.y) + ", " + sh(a.z) + ")"; }
	template <typename T>
	b3 b(const muu::vector<T, 3>& v)
	{
		return { w(v.x), w(v.y), w(v.z) };
	}
	template <typename T>
	muu::vector<T, 3> narrow(b3 v)
	{
		return muu::vector<T, 3>{ make<T>(v.x), make<T>(v.y), make<T>(v.z) };
	}

	struct bm
	{
		size_t rows = 0, cols = 0;
		big a[5][5] = {};
		big* operator[](size_t r) { return a[r]; }
		const big* operator[](size_t r) const { return a[r]; }
	};
	template <typename T, size_t R, size_t C>
	bm b(const muu::matrix<T, R, C>& m)
	{
		bm r;
		r.rows = R;
		r.cols = C;
		for (size_t i = 0; i < R; i++)
			for (size_t j = 0; j < C; j++)
				r[i][j] = w(m(i, j));
		return r;
	}
	bm mul(const bm& a, const bm& b)
	{
		bm r;
		r.rows = a.rows;
		r.cols = b.cols;
		for (size_t i = 0; i < a.rows; i++)
			for (size_t j = 0; j < b.cols; j++)
				for (size_t k = 0; k < a.cols; k++)
					r[i][j] += a[i][k] * b[k][j];
		return r;
	}
	bm absm(bm a)
	{
		for (auto& row : a.a)
			for (auto& v : row)
				v = babs(v);
		return a;
	}
	b3 column(const bm& m, size_t c) { return { m[0][c], m[1][c], m[2][c] }; }
	b3 times(const bm& m, b3 v) // 3x3 part
	{
		return { m[0][0] * v.x + m[0][1] * v.y + m[0][2] * v.z, m[1][0] * v.x + m[1][1] * v.y + m[1][2] * v.z, m[2][0] * v.x + m[2][1] * v.y + m[2][2] * v.z };
	}
	std::string sh(const bm& m)
	{
		std::string s = "[";
		for (size_t r = 0; r < m.rows; r++)
			for (size_t c = 0; c < m.cols; c++)
				s += (c ? ", " : r ? "; " : "") + sh(m[r][c]);
		return s + "]";
	}
	// the rotation by an angle about a unit axis (Rodrigues)
	bm rotation(b3 axis, big angle)
	{
		const big s = BIG(sin, angle), c = BIG(cos, angle), t = 1 - c;
		bm r;
		r.rows = r.cols = 3;
		for (size_t i = 0; i < 3; i++)
			for (size_t j = 0; j < 3; j++)
				r[i][j] = t * axis[i] * axis[j] + (i == j ? c : big(0));
		r[0][1] -= s * axis.z;
		r[1][0] += s * axis.z;
		r[0][2] += s * axis.y;
		r[2][0] -= s * axis.y;
		r[1][2] -= s * axis.x;
		r[2][1] += s * axis.x;
		return r;
	}
#define NEAR3(T, got, want, slack, what)                                                                               \
	do                                                                                                                 \
	{                                                                                                                  \
		const b3 g3_ = b(got), w3_ = (want);                                                                           \
		const big s3_ = (slack);                                                                                       \
		CHECK(babs(g3_.x - w3_.x) <= s3_ && babs(g3_.y - w3_.y) <= s3_ && babs(g3_.z - w3_.z) <= s3_,                  \
			  what << " gave " << sh(g3_) << ", expected " << sh(w3_) << " within " << sh(s3_));                       \
	}                                                                                                                  \
	while (0)

	// a random unit direction, often an axis, a diagonal or close to one
	b3 gen_dir(pbt::Case& c)
	{
		b3 d;
		const uint64_t kind = c.u(0, 5);
		if (kind == 0)
			d[c.below(3)] = c.b() ? 1 : -1;
		else if (kind == 1)
			do
				d = { big(c.i(-1, 1)), big(c.i(-1, 1)), big(c.i(-1, 1)) };
			while (len2(d) == 0 && (d.x = 1) != 0);
		else
		{
			d = { c.real(-1, 1), c.real(-1, 1), c.real(-1, 1) };
			if (kind == 2) // near an axis
			{
				const big e = p2(-static_cast<int>(c.u(2, 40)));
				d			= d * e;
				d[c.below(3)] = c.b() ? 1 : -1;
			}
			if (len2(d) < p2(-8))
				d.x = 1;
		}
		return unitv(d);
	}
}
