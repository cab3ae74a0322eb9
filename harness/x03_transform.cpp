// X03: transform matrices against the transformations they stand for
#include <muu/core.h>
#include "common.hpp"
#include "lin.hpp"
#include "quat.hpp"
#ifndef PART
#define PART 0
#endif

namespace
{
	template <typename T, size_t R, size_t C>
	using M = muu::matrix<T, R, C>;
	template <typename T, size_t D>
	using V = muu::vector<T, D>;

	template <typename T>
	T entry(pbt::Case& c)
	{
		if constexpr (real<T>)
			return gen<T>(c, -6, 6);
		else
			return c.integer<T>();
	}
	template <typename T, size_t D>
	V<T, D> vec(pbt::Case& c)
	{
		V<T, D> v{ T{} };
		for (size_t i = 0; i < D; i++)
			v[i] = entry<T>(c);
		return v;
	}
	template <typename T, size_t R, size_t C>
	void identity_but(pbt::Case& c, const M<T, R, C>& got, std::initializer_list<T> diag, std::initializer_list<T> last, const char* what)
	{
		for (size_t i = 0; i < R; i++)
			for (size_t j = 0; j < C; j++)
			{
				T want = i == j ? T(1) : T(0);
				if (i == j && i < diag.size())
					want = diag.begin()[i];
				if (j == C - 1 && i < last.size())
					want = last.begin()[i];
				CHECK(got(i, j) == want, what << " has " << sh(w(got(i, j))) << " at " << i << "," << j << ", expected " << sh(w(want)));
			}
		(void)c;
	}

	template <typename T, size_t R, size_t C>
	void scales(pbt::Case& c)
	{
		using MT	 = M<T, R, C>;
		const auto v = vec<T, 5>(c);
		const T x = v[0], y = v[1], z = v[2], one = T(1);
		NOTE(sh(w(x)) << " " << sh(w(y)) << " " << sh(w(z)));
		c.nontrivial(!(x == y));
		identity_but(c, MT::from_2d_scale(x, y), { x, y }, {}, "from_2d_scale");
		identity_but(c, MT::from_2d_scale(V<T, 1>{ x }), { x, one }, {}, "from_2d_scale(vec1)");
		identity_but(c, MT::from_2d_scale(V<T, 2>{ x, y }), { x, y }, {}, "from_2d_scale(vec2)");
		identity_but(c, MT::from_2d_scale(V<T, 3>{ x, y, z }), { x, y }, {}, "from_2d_scale(vec3)");
		identity_but(c, MT::from_2d_scale(v), { x, y }, {}, "from_2d_scale(vec5)");
		identity_but(c, MT::from_scale(x, y), { x, y }, {}, "from_scale(x, y)");
		identity_but(c, MT::from_scale(V<T, 2>{ x, y }), { x, y }, {}, "from_scale(vec2)");
		if constexpr (R >= 3)
		{
			identity_but(c, MT::from_3d_scale(x, y), { x, y, one }, {}, "from_3d_scale(x, y)");
			identity_but(c, MT::from_3d_scale(x, y, z), { x, y, z }, {}, "from_3d_scale");
			identity_but(c, MT::from_3d_scale(V<T, 1>{ x }), { x, one, one }, {}, "from_3d_scale(vec1)");
			identity_but(c, MT::from_3d_scale(V<T, 2>{ x, y }), { x, y, one }, {}, "from_3d_scale(vec2)");
			identity_but(c, MT::from_3d_scale(V<T, 3>{ x, y, z }), { x, y, z }, {}, "from_3d_scale(vec3)");
			identity_but(c, MT::from_3d_scale(v), { x, y, z }, {}, "from_3d_scale(vec5)");
			identity_but(c, MT::from_scale(x, y, z), { x, y, z }, {}, "from_scale(x, y, z)");
			identity_but(c, MT::from_scale(V<T, 3>{ x, y, z }), { x, y, z }, {}, "from_scale(vec3)");
		}
	}
	template <typename T, size_t R, size_t C>
	void translations(pbt::Case& c)
	{
		using MT	 = M<T, R, C>;
		const auto v = vec<T, 5>(c);
		const T x = v[0], y = v[1], z = v[2], zero = T(0);
		NOTE(sh(w(x)) << " " << sh(w(y)) << " " << sh(w(z)));
		c.nontrivial(!(x == y));
		identity_but(c, MT::from_2d_translation(x, y), {}, { x, y }, "from_2d_translation");
		identity_but(c, MT::from_2d_translation(V<T, 1>{ x }), {}, { x, zero }, "from_2d_translation(vec1)");
		identity_but(c, MT::from_2d_translation(V<T, 2>{ x, y }), {}, { x, y }, "from_2d_translation(vec2)");
		identity_but(c, MT::from_2d_translation(V<T, 3>{ x, y, z }), {}, { x, y }, "from_2d_translation(vec3)");
		identity_but(c, MT::from_2d_translation(v), {}, { x, y }, "from_2d_translation(vec5)");
		identity_but(c, MT::from_translation(x, y), {}, { x, y }, "from_translation(x, y)");
		identity_but(c, MT::from_translation(V<T, 2>{ x, y }), {}, { x, y }, "from_translation(vec2)");
		if constexpr (C == 4)
		{
			identity_but(c, MT::from_3d_translation(x, y), {}, { x, y, zero }, "from_3d_translation(x, y)");
			identity_but(c, MT::from_3d_translation(x, y, z), {}, { x, y, z }, "from_3d_translation");
			identity_but(c, MT::from_3d_translation(V<T, 1>{ x }), {}, { x, zero, zero }, "from_3d_translation(vec1)");
			identity_but(c, MT::from_3d_translation(V<T, 2>{ x, y }), {}, { x, y, zero }, "from_3d_translation(vec2)");
			identity_but(c, MT::from_3d_translation(V<T, 3>{ x, y, z }), {}, { x, y, z }, "from_3d_translation(vec3)");
			identity_but(c, MT::from_3d_translation(v), {}, { x, y, z }, "from_3d_translation(vec5)");
			identity_but(c, MT::from_translation(x, y, z), {}, { x, y, z }, "from_translation(x, y, z)");
			identity_but(c, MT::from_translation(V<T, 3>{ x, y, z }), {}, { x, y, z }, "from_translation(vec3)");
		}
		// the column is writable and covers the whole last column
		MT m{ T(2) };
		for (size_t i = 0; i < R; i++)
			m.translation_column()[i] = v[i];
		const MT& cm = m;
		for (size_t i = 0; i < R; i++)
		{
			CHECK(m(i, C - 1) == v[i] && cm.translation_column()[i] == v[i], "translation_column() row " << i);
			for (size_t j = 0; j + 1 < C; j++)
				CHECK(m(i, j) == T(2), "writing the translation changed " << i << "," << j);
		}
	}

	// the N x N part comes from the source (zero where it has none), everything else is the identity
	template <size_t N, typename MT, typename ST>
	void part_of(pbt::Case& c, const MT& got, const ST& src, const char* what)
	{
		using T = typename MT::scalar_type;
		for (size_t i = 0; i < MT::rows; i++)
			for (size_t j = 0; j < MT::columns; j++)
			{
				const T want = i < N && j < N ? src(i, j) : i == j ? T(1) : T(0);
				CHECK(got(i, j) == want, what << " from a " << ST::rows << "x" << ST::columns << " has " << sh(w(got(i, j))) << " at " << i << "," << j << ", expected " << sh(w(want)));
			}
		(void)c;
	}
	template <typename T, size_t R, size_t C>
	M<T, R, C> any_mat(pbt::Case& c)
	{
		M<T, R, C> m{ T(0) };
		for (size_t i = 0; i < R; i++)
			for (size_t j = 0; j < C; j++)
				m(i, j) = entry<T>(c);
		return m;
	}
	template <typename T, size_t SR, size_t SC>
	void embed(pbt::Case& c)
	{
		const auto src = any_mat<T, SR, SC>(c);
		NOTE(sh(b(src)));
		c.nontrivial(true);
		part_of<2>(c, M<T, 2, 2>::from_2d_rotation(src), src, "2x2 from_2d_rotation");
		part_of<2>(c, M<T, 2, 3>::from_2d_rotation(src), src, "2x3 from_2d_rotation");
		part_of<2>(c, M<T, 3, 3>::from_2d_rotation(src), src, "3x3 from_2d_rotation");
		if constexpr (SR >= 3 && SC >= 3)
		{
			part_of<3>(c, M<T, 3, 3>::from_3d_rotation(src), src, "3x3 from_3d_rotation");
			part_of<3>(c, M<T, 3, 4>::from_3d_rotation(src), src, "3x4 from_3d_rotation");
			part_of<3>(c, M<T, 4, 4>::from_3d_rotation(src), src, "4x4 from_3d_rotation");
		}
		if constexpr (SR == 2 && (SC == 2 || SC == 3))
		{
			part_of<2>(c, M<T, 2, 2>::from_rotation(src), src, "2x2 from_rotation");
			part_of<2>(c, M<T, 2, 3>::from_rotation(src), src, "2x3 from_rotation");
			part_of<2>(c, M<T, 3, 3>::from_rotation(src), src, "3x3 from_rotation");
		}
		if constexpr ((SR == 3 && (SC == 3 || SC == 4)) || (SR == 4 && SC == 4))
		{
			part_of<3>(c, M<T, 3, 3>::from_rotation(src), src, "3x3 from_rotation");
			part_of<3>(c, M<T, 3, 4>::from_rotation(src), src, "3x4 from_rotation");
			part_of<3>(c, M<T, 4, 4>::from_rotation(src), src, "4x4 from_rotation");
		}
		if constexpr (SR == 3 && SC == 3)
		{
			const V<T, 3> x = src.x_column(), y = src.y_column(), z = src.z_column();
			part_of<3>(c, M<T, 3, 3>::from_axes(x, y, z), src, "3x3 from_axes");
			part_of<3>(c, M<T, 3, 4>::from_axes(x, y, z), src, "3x4 from_axes");
			part_of<3>(c, M<T, 4, 4>::from_axes(x, y, z), src, "4x4 from_axes");
			const V<T, 2> x2{ src(0, 0), src(1, 0) }, y2{ src(0, 1), src(1, 1) };
			part_of<2>(c, M<T, 2, 2>::from_axes(x2, y2), src, "2x2 from_axes");
			part_of<2>(c, M<T, 2, 3>::from_axes(x2, y2), src, "2x3 from_axes");
			part_of<2>(c, M<T, 3, 3>::from_axes(x2, y2), src, "3x3 from_axes");
		}
	}

	// got = want in the 3x3 part, the identity elsewhere
	template <typename T, size_t R, size_t C>
	void near_rotation(pbt::Case& c, const M<T, R, C>& got, const bm& want, big slack, const char* what)
	{
		for (size_t i = 0; i < R; i++)
			for (size_t j = 0; j < C; j++)
				if (i < 3 && j < 3)
					CHECK(babs(w(got(i, j)) - want[i][j]) <= slack, what << " gave " << sh(b(got)) << ", expected " << sh(want) << " within " << sh(slack));
				else
					CHECK(w(got(i, j)) == big(i == j), what << " has " << sh(w(got(i, j))) << " at " << i << "," << j);
		(void)c;
	}
	template <typename T, size_t R, size_t C>
	void rotations(pbt::Case& c)
	{
		using MT	  = M<T, R, C>;
		const auto ax = narrow<T>(gen_dir(c));
		const T an	  = make<T>(gen_angle(c));
		const big u	  = unit<T>();
		const b3 A	  = b(ax);
		NOTE(sh(A) << " by " << sh(w(an)));
		c.nontrivial(w(an) != 0);
		// the axis has been rounded, so it is not quite a unit vector
		const bm want = rotation(unitv(A), w(an));
		near_rotation(c, MT::from_axis_angle(ax, an), want, u * 24, "from_axis_angle");
		CHECK((MT::from_axis_angle(muu::axis_angle<T>{ ax, an }) == MT::from_axis_angle(ax, an)), "forms");
		// quaternions
		const big h = w(an) / 2, s = BIG(sin, h);
		const b3 U = unitv(A);
		const muu::quaternion<T> q{ make<T>(BIG(cos, h)), make<T>(U.x * s), make<T>(U.y * s), make<T>(U.z * s) };
		near_rotation(c, MT::from_quaternion(q), want, u * 24, "from_quaternion");
		// rotating keeps lengths, the axis and orientation: implied by equality with Rodrigues' formula
		const T yaw = make<T>(gen_angle(c)), pitch = make<T>(gen_angle(c)), roll = make<T>(gen_angle(c));
		NOTE("yaw " << sh(w(yaw)) << " pitch " << sh(w(pitch)) << " roll " << sh(w(roll)));
		const bm e = mul(mul(rotation({ 0, 1, 0 }, -w(yaw)), rotation({ 1, 0, 0 }, w(pitch))), rotation({ 0, 0, 1 }, -w(roll)));
		near_rotation(c, MT::from_euler(yaw, pitch, roll), e, u * 24, "from_euler");
		CHECK((MT::from_euler(muu::euler_angles<T>{ yaw, pitch, roll }) == MT::from_euler(yaw, pitch, roll)), "forms");
		// directions
		const MT d = MT::from_3d_direction(ax);
		NOTE("facing: " << sh(b(d)));
		const b3 x = column(b(d), 0), y = column(b(d), 1), z = column(b(d), 2);
		CHECK(maxabs(z + A) <= u * 4, "the rotated forward axis is " << sh(-z) << ", not " << sh(A));
		CHECK(babs(len(x) - 1) <= u * 16 && babs(len(y) - 1) <= u * 16, "from_3d_direction has columns of other lengths");
		CHECK(babs(dot(x, y)) <= u * 16 && babs(dot(x, z)) <= u * 16 && babs(dot(y, z)) <= u * 16, "from_3d_direction is not orthogonal");
		CHECK(dot(cross(x, y), z) > 0, "from_3d_direction mirrors");
		const big tilt = BIG(sqrt, A.x * A.x + A.z * A.z);
		if (tilt > (fp<T>::digits == 11 ? big(0.1) : fp<T>::digits == 24 ? big(0.01) : p2(-14))) // not straight up or down: no roll
			CHECK(babs(x.y) <= u * 4 && y.y > 0, "from_3d_direction rolls: right is " << sh(x) << ", up is " << sh(y));
		for (size_t i = 0; i < R; i++)
			for (size_t j = 0; j < C; j++)
				if (i == 3 || j == 3)
					CHECK(w(d(i, j)) == big(i == j), "from_3d_direction has " << sh(w(d(i, j))) << " at " << i << "," << j);
	}

	template <typename T, size_t R, size_t C>
	void points(pbt::Case& c)
	{
		using MT	 = M<T, R, C>;
		auto m		 = any_mat<T, R, C>(c);
		const bool affine = R < 4 || c.b();
		if constexpr (R == 4)
			if (affine)
			{
				m(3, 0) = m(3, 1) = m(3, 2) = T(0);
				m(3, 3)						= T(1);
			}
		const auto p = vec<T, 3>(c);
		NOTE(sh(b(m)) << " applied to " << sh(b(p)));
		const big u = unit<T>(), tiny = ulp_at<T>(0);
		const bm B	= b(m);
		const b3 P	= b(p);
		b3 lin = times(B, P), mag = times(absm(B), { babs(P.x), babs(P.y), babs(P.z) });
		// without translating
		NEAR3(T, m.transform_without_translating(p), lin, maxabs(mag) * u * 6 + tiny * 4, "transform_without_translating");
		CHECK(MT::transform_without_translating(m, p) == m.transform_without_translating(p), "forms");
		// directions keep their length
		if (len(P) > p2(-4) && len(lin) > maxabs(mag) * u * 64 && len(lin) > p2(fp<T>::digits == 11 ? -4 : -20) && maxabs(mag) < p2(7))
		{
			const big rel = maxabs(mag) / len(lin);
			NEAR3(T, m.transform_direction(p), unitv(lin) * len(P), len(P) * u * (16 + 24 * rel), "transform_direction");
			CHECK(MT::transform_direction(m, p) == m.transform_direction(p), "forms");
		}
		// positions
		b3 num = lin, nmag = mag;
		big den = 1, dmag = 0;
		if (C == 4)
		{
			num	 = num + column(B, 3);
			const b3 t = column(B, 3);
			nmag = nmag + b3{ babs(t.x), babs(t.y), babs(t.z) };
			if (R == 4)
			{
				den	 = B[3][0] * P.x + B[3][1] * P.y + B[3][2] * P.z + B[3][3];
				dmag = babs(B[3][0] * P.x) + babs(B[3][1] * P.y) + babs(B[3][2] * P.z) + babs(B[3][3]);
			}
		}
		if (affine)
			dmag = 0;
		const big derr = dmag * u * 8;
		if (babs(den) <= derr * 8 || babs(den) < p2(-5))
			pbt::skip();
		c.nontrivial(true);
		c.cls(!affine, "projective");
		const b3 want = num / den;
		if (maxabs(want) > p2(14) || maxabs(nmag) > p2(14))
			pbt::skip();
		const big err = (maxabs(nmag) * u * 10 + maxabs(num) * derr / babs(den) * 2) / babs(den) + tiny * 8;
		NEAR3(T, m.transform_position(p), want, err, "transform_position");
		const auto tp = m.transform_position(p);
		CHECK(MT::transform_position(m, p) == tp, "forms");
		CHECK(m * p == tp || (R == 3 && C == 3), "matrix * point differs from transform_position");
		if constexpr (R == 3 && C == 3)
			NEAR3(T, (m * p), want, err, "matrix * point");
		// scale
		const auto s3 = m.extract_3d_scale();
		CHECK(MT::extract_3d_scale(m) == s3, "forms");
		for (size_t i = 0; i < 3; i++)
			CHECK(babs(w(s3[i]) - len(column(B, i))) <= len(column(B, i)) * u * 6 + tiny * 4, "extract_3d_scale gave " << sh(b(s3)));
	}
	template <typename T, size_t R, size_t C>
	void scale2(pbt::Case& c)
	{
		const auto m = any_mat<T, R, C>(c);
		NOTE(sh(b(m)));
		c.nontrivial(true);
		const auto s2 = m.extract_2d_scale();
		CHECK((M<T, R, C>::extract_2d_scale(m) == s2), "forms");
		for (size_t i = 0; i < 2; i++)
		{
			const big l = BIG(sqrt, w(m(0, i)) * w(m(0, i)) + w(m(1, i)) * w(m(1, i)));
			CHECK(babs(w(s2[i]) - l) <= l * unit<T>() * 6 + ulp_at<T>(0) * 4, "extract_2d_scale gave " << sh(w(s2[i])) << " for column " << i << ", expected " << sh(l));
		}
	}
	// translation * rotation * scale acts like scaling, then rotating, then translating, and can be taken apart again
	template <typename T, size_t R, size_t C>
	void composed(pbt::Case& c)
	{
		using MT		= M<T, R, C>;
		using M4		= M<T, 4, 4>;
		const auto ax	= narrow<T>(gen_dir(c));
		const T an		= make<T>(gen_angle(c));
		V<T, 3> s{ make<T>(c.real(0.25, 4)), make<T>(c.real(0.25, 4)), make<T>(c.real(0.25, 4)) }, t{ make<T>(c.real(-4, 4)), make<T>(c.real(-4, 4)), make<T>(c.real(-4, 4)) },
			p{ make<T>(c.real(-4, 4)), make<T>(c.real(-4, 4)), make<T>(c.real(-4, 4)) };
		NOTE("scale " << sh(b(s)) << " rotate " << sh(b(ax)) << " by " << sh(w(an)) << " translate " << sh(b(t)) << " point " << sh(b(p)));
		c.nontrivial(true);
		const M4 whole4 = M4::from_translation(t) * M4::from_axis_angle(ax, an) * M4::from_scale(s);
		const MT whole{ whole4 };
		const bm rot  = rotation(unitv(b(ax)), w(an));
		const b3 S	  = b(s), P = b(p), TT = b(t);
		const b3 lin  = times(rot, { S.x * P.x, S.y * P.y, S.z * P.z });
		const big u	  = unit<T>() * 400;
		NEAR3(T, whole * p, lin + TT, u * 2, "the composed transform");
		NEAR3(T, whole.transform_position(p), lin + TT, u * 2, "transform_position");
		NEAR3(T, whole.transform_without_translating(p), lin, u * 2, "transform_without_translating");
		const auto got = whole.extract_3d_scale();
		NEAR3(T, got, S, u, "extract_3d_scale");
		for (size_t i = 0; i < 3; i++)
			CHECK(babs(w(whole.translation_column()[i]) - TT[i]) <= u, "the translation column");
		const auto r = MT::orthonormalize(whole);
		for (size_t i = 0; i < 3; i++)
			for (size_t j = 0; j < 3; j++)
				CHECK(babs(w(r(i, j)) - rot[i][j]) <= u, "orthonormalizing does not give the rotation back: " << sh(b(r)) << " for " << sh(rot));
		// a second transform after the first
		const M4 other = M4::from_euler(make<T>(c.real(-3, 3)), make<T>(c.real(-3, 3)), make<T>(c.real(-3, 3)));
		NEAR3(T, (other * whole4) * p, b(other * (whole4 * p)), u * 4, "two transforms");
	}
	template <typename T, size_t R, size_t C>
	void constants(pbt::Case& c)
	{
		using MT = M<T, R, C>;
		using K	 = typename MT::constants;
		struct dir
		{
			const char* name;
			MT m;
			b3 forward;
		};
		const dir dirs[] = { { "right", K::right, { 1, 0, 0 } }, { "up", K::up, { 0, 1, 0 } }, { "backward", K::backward, { 0, 0, 1 } }, { "left", K::left, { -1, 0, 0 } }, { "down", K::down, { 0, -1, 0 } } };
		const auto& d	 = dirs[c.index % 5];
		NOTE(d.name << " " << sh(b(d.m)));
		c.nontrivial(true);
		b3 right = cross(d.forward, { 0, 1, 0 });
		if (len2(right) == 0)
			right = { 1, 0, 0 };
		const b3 up = cross(right, d.forward);
		bm want;
		want.rows = want.cols = 3;
		for (size_t i = 0; i < 3; i++)
		{
			want[i][0] = right[i];
			want[i][1] = up[i];
			want[i][2] = -d.forward[i];
		}
		near_rotation(c, d.m, want, 0, d.name);
		if constexpr (real<T>)
			near_rotation(c, MT::from_3d_direction(narrow<T>(d.forward)), want, unit<T>() * 4, "from_3d_direction");
	}
#define SCALES(name, ...)                                                                                              \
	PROP_T(name " scale 2x2", 400, 8000, (scales<__VA_ARGS__, 2, 2>));                                                 \
	PROP_T(name " scale 2x3", 400, 8000, (scales<__VA_ARGS__, 2, 3>));                                                 \
	PROP_T(name " scale 3x3", 400, 8000, (scales<__VA_ARGS__, 3, 3>));                                                 \
	PROP_T(name " scale 3x4", 400, 8000, (scales<__VA_ARGS__, 3, 4>));                                                 \
	PROP_T(name " scale 4x4", 400, 8000, (scales<__VA_ARGS__, 4, 4>));                                                 \
	PROP_T(name " translation 2x3", 400, 8000, (translations<__VA_ARGS__, 2, 3>));                                     \
	PROP_T(name " translation 3x3", 400, 8000, (translations<__VA_ARGS__, 3, 3>));                                     \
	PROP_T(name " translation 3x4", 400, 8000, (translations<__VA_ARGS__, 3, 4>));                                     \
	PROP_T(name " translation 4x4", 400, 8000, (translations<__VA_ARGS__, 4, 4>))
#define EMBED(name, ...)                                                                                               \
	PROP_T(name " 2x2 parts", 400, 8000, (embed<__VA_ARGS__, 2, 2>));                                                  \
	PROP_T(name " 2x3 parts", 400, 8000, (embed<__VA_ARGS__, 2, 3>));                                                  \
	PROP_T(name " 3x2 parts", 400, 8000, (embed<__VA_ARGS__, 3, 2>));                                                  \
	PROP_T(name " 3x3 parts", 400, 8000, (embed<__VA_ARGS__, 3, 3>));                                                  \
	PROP_T(name " 3x4 parts", 400, 8000, (embed<__VA_ARGS__, 3, 4>));                                                  \
	PROP_T(name " 4x3 parts", 400, 8000, (embed<__VA_ARGS__, 4, 3>));                                                  \
	PROP_T(name " 4x4 parts", 400, 8000, (embed<__VA_ARGS__, 4, 4>));                                                  \
	PROP_T(name " 5x5 parts", 400, 8000, (embed<__VA_ARGS__, 5, 5>))
#define ROT(name, ...)                                                                                                 \
	PROP_T(name " rotations 3x3", 1500, 40000, (rotations<__VA_ARGS__, 3, 3>));                                        \
	PROP_T(name " rotations 3x4", 1000, 20000, (rotations<__VA_ARGS__, 3, 4>));                                        \
	PROP_T(name " rotations 4x4", 1500, 40000, (rotations<__VA_ARGS__, 4, 4>));                                        \
	PROP_T(name " points 3x3", 1500, 40000, (points<__VA_ARGS__, 3, 3>));                                              \
	PROP_T(name " points 3x4", 1500, 40000, (points<__VA_ARGS__, 3, 4>));                                              \
	PROP_T(name " points 4x4", 3000, 80000, (points<__VA_ARGS__, 4, 4>));                                              \
	PROP_T(name " 2d scale 2x2", 300, 8000, (scale2<__VA_ARGS__, 2, 2>));                                              \
	PROP_T(name " 2d scale 2x3", 300, 8000, (scale2<__VA_ARGS__, 2, 3>));                                              \
	PROP_T(name " 2d scale 3x3", 300, 8000, (scale2<__VA_ARGS__, 3, 3>));                                              \
	PROP_T(name " composed 3x4", 1000, 20000, (composed<__VA_ARGS__, 3, 4>));                                          \
	PROP_T(name " composed 4x4", 1000, 20000, (composed<__VA_ARGS__, 4, 4>))
#define CONSTS(name, ...)                                                                                              \
	PROP_T(name " facing 3x3", 5, 5, (constants<__VA_ARGS__, 3, 3>));                                                  \
	PROP_T(name " facing 3x4", 5, 5, (constants<__VA_ARGS__, 3, 4>));                                                  \
	PROP_T(name " facing 4x4", 5, 5, (constants<__VA_ARGS__, 4, 4>))
#if PART == 0
	SCALES("int", int);
	SCALES("uint8", uint8_t);
	SCALES("float", float);
	CONSTS("int", int);
	CONSTS("float", float);
#elif PART == 1
	SCALES("half", half);
	EMBED("half", half);
	EMBED("float", float);
#elif PART == 2
	SCALES("double", double);
	SCALES("int64", int64_t);
	EMBED("double", double);
	CONSTS("double", double);
#elif PART == 3
	ROT("float", float);
#elif PART == 4
	ROT("double", double);
#elif PART == 5
	ROT("half", half);
#elif PART == 6
	ROT("long double", long double);
	SCALES("long double", long double);
	EMBED("long double", long double);
#elif PART == 7
#if MUU_HAS_FLOAT128
	ROT("float128", __float128);
#endif
#endif
}
