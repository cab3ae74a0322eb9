// wide reference quaternions and rotations
#pragma once
#include "lin.hpp"
#include <muu/quaternion.h>
#include <muu/axis_angle.h>
#include <muu/euler_angles.h>

namespace
{
	struct bq
	{
		big s = 0;
		b3 v;
	};
	template <typename T>
	bq b(const muu::quaternion<T>& q)
	{
		return { w(q.s), b(q.v) };
	}
	bq mul(bq a, bq b) { return { a.s * b.s - dot(a.v, b.v), a.s * b.v + b.s * a.v + cross(a.v, b.v) }; }
	big dot(bq a, bq b) { return a.s * b.s + dot(a.v, b.v); }
	big len(bq a) { return BIG(sqrt, dot(a, a)); }
	bq operator*(bq a, big k) { return { a.s * k, a.v * k }; }
	bq operator+(bq a, bq b) { return { a.s + b.s, a.v + b.v }; }
	bq operator-(bq a, bq b) { return { a.s - b.s, a.v - b.v }; }
	bq unitq(bq a) { return a * (1 / len(a)); }
	big maxabs(bq a) { return bmax(babs(a.s), maxabs(a.v)); }
	std::string sh(bq q) { return "{" + sh(q.s) + "; " + sh(q.v) + "}"; }
	bq from_aa(b3 axis, big angle) { return { BIG(cos, angle / 2), axis * BIG(sin, angle / 2) }; }
	template <typename T>
	muu::quaternion<T> narrow(bq q)
	{
		return { make<T>(q.s), narrow<T>(q.v) };
	}
	// the rotation of a (nearly) unit quaternion
	bm rotation(bq q)
	{
		q			= unitq(q);
		const b3& v = q.v;
		bm r;
		r.rows = r.cols = 3;
		r[0][0] = 1 - 2 * (v.y * v.y + v.z * v.z);
		r[0][1] = 2 * (v.x * v.y - q.s * v.z);
		r[0][2] = 2 * (v.x * v.z + q.s * v.y);
		r[1][0] = 2 * (v.x * v.y + q.s * v.z);
		r[1][1] = 1 - 2 * (v.x * v.x + v.z * v.z);
		r[1][2] = 2 * (v.y * v.z - q.s * v.x);
		r[2][0] = 2 * (v.x * v.z - q.s * v.y);
		r[2][1] = 2 * (v.y * v.z + q.s * v.x);
		r[2][2] = 1 - 2 * (v.x * v.x + v.y * v.y);
		return r;
	}
	big diff(const bm& a, const bm& b)
	{
		big d = 0;
		for (size_t i = 0; i < 3; i++)
			for (size_t j = 0; j < 3; j++)
				d = bmax(d, babs(a[i][j] - b[i][j]));
		return d;
	}
	big gen_angle(pbt::Case& c)
	{
		const big pi = BIG(acos, big(-1));
		switch (c.u(0, 4))
		{
			case 0: return pi * big(c.i(-8, 8)) / 4;
			case 1: return pi * big(c.i(-4, 4)) / 2 + c.real(-1, 1) * p2(-static_cast<int>(c.u(2, 30)));
			default: return c.real(-6.5, 6.5);
		}
	}
	// a random unit quaternion, often a quarter-turn multiple or near one
	bq gen_quat(pbt::Case& c)
	{
		switch (c.u(0, 3))
		{
			case 0:
			{
				bq q{ big(c.i(-1, 1)), { big(c.i(-1, 1)), big(c.i(-1, 1)), big(c.i(-1, 1)) } };
				if (len(q) == 0)
					q.s = 1;
				return unitq(q);
			}
			default: return from_aa(gen_dir(c), gen_angle(c));
		}
	}
#define NEARQ(T, got, want, slack, what)                                                                               \
	do                                                                                                                 \
	{                                                                                                                  \
		const bq g4_ = b(got), w4_ = (want);                                                                           \
		const big s4_ = (slack);                                                                                       \
		CHECK(maxabs(g4_ - w4_) <= s4_, what << " gave " << sh(g4_) << ", expected " << sh(w4_) << " within " << sh(s4_)); \
	}                                                                                                                  \
	while (0)
}
