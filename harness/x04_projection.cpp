// X04: perspective projections against the clip volume of each convention
#include <muu/core.h>
#include "common.hpp"
#include "lin.hpp"
#ifndef PART
#define PART 0
#endif

namespace
{
	using muu::math_apis;
	template <typename T>
	using M = muu::matrix<T, 4, 4>;

	template <typename T, math_apis Mode>
	void project(pbt::Case& c)
	{
		constexpr bool gl = !!(Mode & math_apis::opengl), lh = !!(Mode & math_apis::left_handed), small = fp<T>::digits == 11;
		const big pi	  = BIG(acos, big(-1));
		const T fov		  = c.chance(1, 4) ? make<T>(pi * big(c.u(1, 5)) / 6) : make<T>(c.real(0.05, 3.0));
		const T near_	  = make<T>(c.real(0.0625, small ? 4 : 16));
		const T far_	  = make<T>(w(near_) * (c.chance(1, 4) ? big(c.real(1.05, 1.5)) : c.b() ? big(c.real(1.5, 20)) : big(c.real(20, small ? 200 : 20000))));
		const T width = make<T>(c.chance(1, 3) ? big(c.u(1, 40)) * 16 : big(c.real(64, 2048))), height = make<T>(c.chance(1, 3) ? big(c.u(1, 40)) * 16 : big(c.real(64, 2048)));
		const T aspect = static_cast<T>(width / height);
		NOTE("fov " << sh(w(fov)) << " aspect " << sh(w(aspect)) << " near " << sh(w(near_)) << " far " << sh(w(far_)));
		if (!(near_ < far_))
			pbt::skip();
		c.nontrivial(!(aspect == T(1)));
		c.cls(!(width == height), "not square");
		const M<T> m = M<T>::template perspective_projection<Mode>(fov, aspect, near_, far_);
		NOTE(sh(b(m)));
		const big u = unit<T>(), n = w(near_), f = w(far_);
		const big ty = BIG(tan, w(fov) / 2), tx = ty * w(aspect), lo = gl ? -1 : 0;
		const big gain = (f + n) / (f - n); // how much rounding of the coefficients is amplified
		const bm B	   = b(m);
		const auto clip = [&](b3 p, big& cw)
		{
			big o[4];
			for (size_t i = 0; i < 4; i++)
				o[i] = B[i][0] * p.x + B[i][1] * p.y + B[i][2] * p.z + B[i][3];
			cw = o[3];
			return b3{ o[0] / o[3], o[1] / o[3], o[2] / o[3] };
		};
		// the point at fractions of the frustum's half-width and half-height, some distance in front of the camera
		const auto at = [&](big fx, big fy, big distance) { return b3{ fx * tx * distance, fy * ty * distance, lh ? distance : -distance }; };
		const big tan_err = 8 + w(fov) / (ty < 1 ? ty * (1 + ty * ty) : ty) * 4 + ty * 4; // the halved angle and the tangent are rounded
		big cw;
		for (int fx = -1; fx <= 1; fx++)
			for (int fy = -1; fy <= 1; fy++)
				for (int back = 0; back < 2; back++)
				{
					const b3 p	 = at(fx, fy, back ? f : n);
					const b3 got = clip(p, cw);
					const big z	 = back ? big(1) : lo;
					CHECK(cw > 0, "the " << (back ? "far" : "near") << " plane ends up behind the camera, w " << sh(cw));
					CHECK(babs(got.x - fx) <= u * tan_err && babs(got.y - fy) <= u * tan_err && babs(got.z - z) <= u * 12 * gain,
						  "the " << (back ? "far" : "near") << " plane's point " << fx << "," << fy << " maps to " << sh(got) << " instead of depth " << sh(z));
				}
		// anything in between, and outside
		const big fx = c.real(-3, 3), fy = c.real(-3, 3);
		big t = c.real(0, 1);
		const big d1 = n + (f - n) * t, d2 = d1 + (f - d1) * big(c.real(0.01, 1));
		const b3 g1 = clip(at(fx, fy, d1), cw), g2 = clip(at(fx, fy, d2), cw);
		CHECK(babs(g1.x - fx) <= u * tan_err * 3 && babs(g1.y - fy) <= u * tan_err * 3, "a point at " << sh(fx) << "," << sh(fy) << " maps to " << sh(g1));
		const big slack = u * 12 * gain;
		const big want1 = gl ? (f + n - 2 * f * n / d1) / (f - n) : (f - f * n / d1) / (f - n);
		CHECK(babs(g1.z - want1) <= slack, "depth at " << sh(d1) << " is " << sh(g1.z) << ", expected " << sh(want1));
		CHECK(g1.z >= lo - slack && g1.z <= 1 + slack, "depth " << sh(g1.z) << " outside the range");
		if (f * n * (d2 - d1) / (d1 * d2 * (f - n)) > slack * 2)
			CHECK(g2.z > g1.z, "depth falls from " << sh(g1.z) << " to " << sh(g2.z));
		// points behind the camera are not in front of it
		clip(at(fx, fy, -d1), cw);
		CHECK(cw < 0, "a point behind the camera has w " << sh(cw));
		// through the library's own point transformation
		const b3 P = at(c.i(-1, 1), c.i(-1, 1), d1);
		if constexpr (!small)
		{
			const auto p   = narrow<T>(P);
			const b3 exact = clip(b(p), cw);
			NEAR3(T, m.transform_position(p), exact, u * 32 * gain, "transform_position");
		}
		// screen sizes
		const M<T> ms = M<T>::template perspective_projection<Mode>(fov, muu::vector<T, 2>{ width, height }, near_, far_);
		CHECK(ms == m, "the screen size " << sh(w(width)) << "x" << sh(w(height)) << " gives " << sh(b(ms)));
		if constexpr (Mode == (math_apis::directx | math_apis::right_handed))
		{
			CHECK(M<T>::perspective_projection(fov, aspect, near_, far_) == m, "default mode");
			CHECK((M<T>::perspective_projection(fov, muu::vector<T, 2>{ width, height }, near_, far_) == m), "default mode");
		}
	}
#define ALL(name, ...)                                                                                                 \
	PROP_T(name " dx rh", 3000, 80000, (project<__VA_ARGS__, math_apis::directx | math_apis::right_handed>));          \
	PROP_T(name " dx lh", 3000, 80000, (project<__VA_ARGS__, math_apis::directx | math_apis::left_handed>));           \
	PROP_T(name " gl rh", 3000, 80000, (project<__VA_ARGS__, math_apis::opengl | math_apis::right_handed>));           \
	PROP_T(name " gl lh", 3000, 80000, (project<__VA_ARGS__, math_apis::opengl | math_apis::left_handed>))
#if PART == 0
	ALL("float", float);
	ALL("half", half);
#else
	ALL("double", double);
	ALL("long double", long double);
#if MUU_HAS_FLOAT128
	ALL("float128", __float128);
#endif
#endif
}
