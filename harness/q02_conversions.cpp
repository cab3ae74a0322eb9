// Q02: rotations converted between quaternions, axis-angle, Euler angles and matrices stay the same rotation
#include <muu/core.h>
#include "common.hpp"
#include "quat.hpp"
#ifndef PART
#define PART 0
#endif

namespace
{
	template <typename T>
	using Q = muu::quaternion<T>;
	template <typename T>
	using AA = muu::axis_angle<T>;
	template <typename T>
	using E = muu::euler_angles<T>;
	template <typename T, size_t R, size_t C>
	using M = muu::matrix<T, R, C>;

	const big PI = BIG(acos, big(-1));

	// yaw about the local up axis first, then pitch about the local right axis, then roll about the local forward axis
	bm euler_rotation(big yaw, big pitch, big roll)
	{
		return mul(mul(rotation({ 0, 1, 0 }, -yaw), rotation({ 1, 0, 0 }, pitch)), rotation({ 0, 0, -1 }, roll));
	}
	template <typename T>
	bm rotation_of(const E<T>& e)
	{
		return euler_rotation(w(e.yaw), w(e.pitch), w(e.roll));
	}
	template <typename T>
	bm rotation_of(const AA<T>& a)
	{
		return rotation(unitv(b(a.axis)), w(a.angle));
	}
	template <typename T>
	bm rotation_of(const Q<T>& q)
	{
		return rotation(b(q));
	}
	template <typename T, size_t R, size_t C>
	bm rotation_of(const M<T, R, C>& m)
	{
		return b(m);
	}
	// how far reading Euler angles out of a rotation may be off
	template <typename T>
	big euler_slack(const bm& r)
	{
		const big u = unit<T>(), sp = babs(r[1][2]), cp = BIG(sqrt, bmax(0, 1 - sp * sp));
		if (sp > big(0.9998)) // within 0.82 degrees of gimbal lock the pitch is taken to be a right angle
			return BIG(sqrt, 2 * big(0.0001)) * big(1.05) + u * 200;
		return u * (60 + (fp<T>::digits == 11 ? big(0) : 12 / cp));
	}

	template <typename T>
	bq gen_rotation(pbt::Case& c)
	{
		if (c.chance(1, 3)) // by Euler angles, near gimbal lock
		{
			const big pitch = c.chance(1, 2) ? (c.b() ? 1 : -1) * (PI / 2 + c.real(-1, 1) * p2(-static_cast<int>(c.u(3, 20)))) : PI * big(c.i(-4, 4)) / 4;
			return mul(mul(from_aa({ 0, 1, 0 }, gen_angle(c)), from_aa({ 1, 0, 0 }, pitch)), from_aa({ 0, 0, 1 }, gen_angle(c)));
		}
		return gen_quat(c);
	}

	template <typename T>
	void each(pbt::Case& c)
	{
		const Q<T> q = narrow<T>(gen_rotation<T>(c));
		const bm R	 = rotation_of(q);
		const big u	 = unit<T>(), lv = len(b(q.v));
		NOTE(sh(b(q)));
		if (lv != 0 && lv < p2(fp<T>::digits == 11 ? -10 : -50))
			pbt::skip();
		c.nontrivial(lv != 0);
		c.cls(w(q.s) < 0, "s < 0");
		c.cls(babs(w(q.s)) < u * 4, "half turn");
		c.cls(babs(R[1][2]) > big(0.9998), "gimbal lock");
		// axis and angle
		for (int shortest = 0; shortest < 2; shortest++)
		{
			const AA<T> a = Q<T>::to_axis_angle(q, shortest);
			NOTE("axis " << sh(b(a.axis)) << " angle " << sh(w(a.angle)));
			CHECK(babs(len(b(a.axis)) - 1) <= u * 16, "the axis has a length of " << sh(len(b(a.axis))));
			CHECK(w(a.angle) >= 0 && w(a.angle) <= (shortest ? PI : 2 * PI) + u * 16, "the angle is " << sh(w(a.angle)));
			CHECK(diff(rotation_of(a), R) <= u * 60, "axis and angle give " << sh(rotation_of(a)) << " for " << sh(R));
			const bq back = b(Q<T>::from_axis_angle(a)), orig = unitq(b(q)) * (shortest && w(q.s) < 0 ? -1 : 1);
			CHECK(bmin(maxabs(back - orig), shortest && babs(orig.s) < u * 4 ? maxabs(back + orig) : big(1)) <= u * 40, "axis and angle convert back to " << sh(back) << " from " << sh(orig));
			CHECK((q.to_axis_angle(shortest).axis == a.axis && q.to_axis_angle(shortest).angle == a.angle), "forms");
			CHECK((Q<T>{ a } == Q<T>::from_axis_angle(a) && Q<T>::from_axis_angle(a.axis, a.angle) == Q<T>::from_axis_angle(a)), "forms");
			CHECK(diff(b(M<T, 3, 3>::from_axis_angle(a)), R) <= u * 100, "matrix of axis and angle");
			const muu::vector<T, 4> v4{ a };
			CHECK((v4.x == a.axis.x && v4.y == a.axis.y && v4.z == a.axis.z && v4.w == a.angle && AA<T>{ v4 }.axis == a.axis && AA<T>{ v4 }.angle == a.angle), "as a 4D vector");
		}
		CHECK((q.to_axis_angle().angle == q.to_axis_angle(true).angle), "default");
		// matrices, whatever else is in them
		M<T, 4, 4> m4 = M<T, 4, 4>::from_quaternion(q);
		CHECK(diff(b(m4), R) <= u * 24, "the matrix is " << sh(b(m4)) << ", expected " << sh(R));
		m4.translation_column() = muu::vector<T, 4>{ make<T>(c.real(-9, 9)), make<T>(c.real(-9, 9)), make<T>(c.real(-9, 9)), T(1) };
		const M<T, 3, 4> m34{ m4 };
		const M<T, 3, 3> m33{ m4 };
		const Q<T> back = Q<T>::from_rotation(m33);
		NOTE("from the matrix: " << sh(b(back)));
		CHECK(babs(len(b(back)) - 1) <= u * 60, "the matrix converts to a quaternion of length " << sh(len(b(back))));
		CHECK(diff(rotation_of(back), R) <= u * 200, "the matrix converts to " << sh(b(back)));
		CHECK((Q<T>::from_rotation(m34) == back && Q<T>::from_rotation(m4) == back), "3x4 and 4x4 matrices convert differently");
		CHECK((Q<T>{ m33 } == back && Q<T>{ m34 } == back && Q<T>{ m4 } == back), "constructors");
		// Euler angles
		const E<T> e = Q<T>::to_euler(q);
		NOTE("euler " << sh(w(e.yaw)) << " " << sh(w(e.pitch)) << " " << sh(w(e.roll)));
		const big es = euler_slack<T>(R);
		CHECK(diff(rotation_of(e), R) <= es, "Euler angles give " << sh(rotation_of(e)) << " for " << sh(R) << ", off by " << sh(diff(rotation_of(e), R)) << " of " << sh(es));
		CHECK(babs(w(e.pitch)) <= PI / 2 + u * 4 && babs(w(e.yaw)) <= 2 * PI + u * 16 && babs(w(e.roll)) <= PI + u * 8, "angles out of range");
		const E<T> e2 = q.to_euler();
		CHECK((e2.yaw == e.yaw && e2.pitch == e.pitch && e2.roll == e.roll), "forms");
		const bm eb = rotation_of(Q<T>::from_euler(e));
		CHECK(diff(eb, R) <= es + u * 60, "Euler angles convert back to " << sh(eb) << " from " << sh(R));
	}

	template <typename T>
	void from_euler(pbt::Case& c)
	{
		const E<T> e{ make<T>(gen_angle(c)), make<T>(gen_angle(c)), make<T>(gen_angle(c)) };
		NOTE("euler " << sh(w(e.yaw)) << " " << sh(w(e.pitch)) << " " << sh(w(e.roll)));
		const big u	 = unit<T>();
		const bm R	 = rotation_of(e);
		const Q<T> q = Q<T>::from_euler(e);
		c.nontrivial(w(e.yaw) != 0 && w(e.pitch) != 0 && w(e.roll) != 0);
		CHECK(babs(len(b(q)) - 1) <= u * 16, "not a unit quaternion");
		CHECK(diff(rotation_of(q), R) <= u * 40, "the quaternion's rotation is " << sh(rotation_of(q)) << ", expected " << sh(R));
		CHECK((Q<T>::from_euler(e.yaw, e.pitch, e.roll) == q && Q<T>{ e } == q), "forms");
		CHECK(diff(b(M<T, 4, 4>::from_euler(e)), R) <= u * 60, "from_euler matrix");
		const muu::vector<T, 3> v{ e };
		CHECK((v.x == e.yaw && v.y == e.pitch && v.z == e.roll && E<T>{ v }.yaw == e.yaw && E<T>{ v }.pitch == e.pitch && E<T>{ v }.roll == e.roll), "as a vector");
		const T k	  = make<T>(c.real(-2, 2));
		const E<T> ek = e * k, ke = k * e;
		E<T> em		  = e;
		em *= k;
		CHECK((ek.yaw == e.yaw * k && ek.pitch == e.pitch * k && ek.roll == e.roll * k && ke.yaw == ek.yaw && ke.pitch == ek.pitch && ke.roll == ek.roll && em.yaw == ek.yaw && em.pitch == ek.pitch && em.roll == ek.roll),
			  "scaled angles");
		CHECK(!e.infinity_or_nan() && !muu::infinity_or_nan(e), "finite");
		E<T> bad = e;
		const size_t at = c.below(3);
		(at == 0 ? bad.yaw : at == 1 ? bad.pitch : bad.roll) = make<T>(big(1) / big(0));
		CHECK(bad.infinity_or_nan() && muu::infinity_or_nan(bad), "infinite");
		AA<T> aa{ muu::vector<T, 3>{ e.yaw, e.pitch, e.roll }, k };
		CHECK(!aa.infinity_or_nan() && !muu::infinity_or_nan(aa), "finite");
		const size_t at4 = c.below(4);
		(at4 == 3 ? aa.angle : aa.axis[at4]) = make<T>(big(1) / big(0));
		CHECK(aa.infinity_or_nan() && muu::infinity_or_nan(aa), "infinite");
	}

	// conversions in any order
	template <typename T>
	void chain(pbt::Case& c)
	{
		Q<T> q		 = narrow<T>(gen_rotation<T>(c));
		const bm R	 = rotation_of(q);
		big slack	 = unit<T>() * 40;
		const int n	 = static_cast<int>(c.u(2, 8));
		NOTE(sh(b(q)));
		if (len(b(q.v)) < p2(fp<T>::digits == 11 ? -8 : -30))
			pbt::skip();
		int kinds = 0;
		for (int i = 0; i < n; i++)
		{
			const uint64_t k = c.u(0, 6);
			kinds |= 1 << k;
			switch (k)
			{
				case 0: q = Q<T>::from_axis_angle(q.to_axis_angle(c.b())), slack += unit<T>() * 60; NOTE("-> axis-angle"); break;
				case 1: q = Q<T>::from_rotation(M<T, 3, 3>::from_quaternion(q)), slack += unit<T>() * 240; NOTE("-> 3x3"); break;
				case 2: q = Q<T>::from_rotation(M<T, 3, 4>::from_quaternion(q)), slack += unit<T>() * 240; NOTE("-> 3x4"); break;
				case 3: q = Q<T>::from_rotation(M<T, 4, 4>::from_quaternion(q)), slack += unit<T>() * 240; NOTE("-> 4x4"); break;
				case 4:
				{
					const big es = euler_slack<T>(rotation_of(q));
					q			 = Q<T>::from_euler(q.to_euler());
					slack += es + unit<T>() * 60;
					NOTE("-> euler");
					break;
				}
				case 5:
				{
					const big es = euler_slack<T>(rotation_of(q));
					q			 = Q<T>::from_rotation(M<T, 3, 3>::from_euler(q.to_euler()));
					slack += es + unit<T>() * 300;
					NOTE("-> euler -> 3x3");
					break;
				}
				default: q = Q<T>::from_rotation(M<T, 4, 4>::from_axis_angle(q.to_axis_angle(c.b()))), slack += unit<T>() * 300; NOTE("-> axis-angle -> 4x4"); break;
			}
			// a matrix made from a quaternion that is not quite of unit length doubles that error, so it is taken out at each step
			q = Q<T>::normalize(q);
			CHECK(diff(rotation_of(q), R) <= slack, "the chain ends at " << sh(b(q)) << ": " << sh(rotation_of(q)) << " instead of " << sh(R));
		}
		c.nontrivial((kinds & (kinds - 1)) != 0);
	}
#define ALL(name, ...)                                                                                                 \
	PROP_T(name " conversions", 8000, 200000, (each<__VA_ARGS__>));                                                    \
	PROP_T(name " from euler", 4000, 100000, (from_euler<__VA_ARGS__>));                                               \
	PROP_T(name " chains", 4000, 100000, (chain<__VA_ARGS__>))
#if PART == 0
	ALL("float", float);
#elif PART == 1
	ALL("double", double);
#elif PART == 2
	ALL("half", half);
#elif PART == 3
	ALL("long double", long double);
#elif PART == 4
#if MUU_HAS_FLOAT128
	ALL("float128", __float128);
#endif
#endif
}
