// M10: with no template arguments named, vectors, matrices, quaternions, rotations and shapes take their dimensions and
// their scalar type from the constructor's arguments, and hold their values.
#include "common.hpp"
#include <muu/core.h>
#include <muu/half.h>
#include <muu/vector.h>
#include <muu/matrix.h>
#include <muu/quaternion.h>
#include <muu/axis_angle.h>
#include <muu/euler_angles.h>
#include <muu/packed_unit_vector.h>
#include <muu/plane.h>
#include <muu/line_segment.h>
#include <muu/triangle.h>
#include <muu/bounding_sphere.h>
#include <muu/bounding_box.h>
#include <muu/oriented_bounding_box.h>
#include <muu/ray.h>
#include <muu/span.h>
#include <muu/tagged_ptr.h>
#include <muu/compressed_pair.h>
#include <array>
#include <tuple>
#include <utility>
#include <vector>
#include <string>

namespace
{
	// ------------------------------------------------------------------------------- the type that holds both of two
	template <typename T>
	constexpr bool is_float = std::is_floating_point_v<T> || std::is_same_v<T, muu::half>;
	template <typename T, typename U>
	constexpr auto both()
	{
		if constexpr (std::is_same_v<T, U>)
			return T{};
		else if constexpr (is_float<T> && is_float<U>)
			return std::conditional_t<(sizeof(T) > sizeof(U)), T, U>{};
		else if constexpr (is_float<T>)
			return T{};
		else if constexpr (is_float<U>)
			return U{};
		else if constexpr (sizeof(T) != sizeof(U) && sizeof(T) <= 2 && sizeof(U) <= 2
						   && (std::is_signed_v<T> == std::is_signed_v<U>
							   || std::is_signed_v<std::conditional_t<(sizeof(T) > sizeof(U)), T, U>>))
			return std::conditional_t<(sizeof(T) > sizeof(U)), T, U>{};
		else
			return T{} + U{};
	}
	template <typename... T>
	struct all_of_
	{};
	template <typename T>
	struct all_of_<T>
	{
		using type = T;
	};
	template <typename T, typename... U>
	struct all_of_<T, U...>
	{
		using type = decltype(both<T, typename all_of_<U...>::type>());
	};
	template <typename... T>
	using all_of = typename all_of_<T...>::type;
	// rotations need a standard floating-point type
	template <typename T>
	using as_math = std::conditional_t<is_float<T>, T, double>;

	using pool	 = std::tuple<int8_t, uint8_t, int16_t, uint16_t, int, unsigned, long long, unsigned long long, float, double, long double>;
	using floats = std::tuple<float, double, long double>;
	constexpr uint64_t mix(uint64_t v)
	{
		v = (v ^ (v >> 30)) * 0xbf58476d1ce4e5b9u;
		v = (v ^ (v >> 27)) * 0x94d049bb133111ebu;
		return v ^ (v >> 31);
	}
	template <typename Pool, size_t K>
	using drawn = std::tuple_element_t<mix(static_cast<uint64_t>(VERIF_SEED) * 1000003u + K) % std::tuple_size_v<Pool>, Pool>;

	template <typename T>
	std::string name()
	{
		if constexpr (std::is_same_v<T, muu::half>)
			return "half";
		else if constexpr (is_float<T>)
			return sizeof(T) == 4 ? "float" : sizeof(T) == 8 ? "double" : "long double";
		else
			return (std::is_signed_v<T> ? "int" : "uint") + std::to_string(sizeof(T) * 8);
	}
	template <typename... T>
	std::string names()
	{
		std::string s;
		((s += (s.empty() ? "" : ", ") + name<T>()), ...);
		return s;
	}
	// values that every type of the pool holds exactly
	template <typename T>
	T small(crng& g)
	{
		return static_cast<T>(static_cast<int>(1 + g.below(100)));
	}
	template <typename T>
	bool eq(T a, double b)
	{
		return static_cast<double>(a) == b;
	}
	template <typename Want, typename Got>
	void typed(pbt::Case& c, const Got&, const std::string& what)
	{
		CHECK((std::is_same_v<Want, Got>), what << " is deduced as another type");
	}

	template <typename A, typename B, typename D, typename E>
	void vectors(pbt::Case& c, crng& g)
	{
		const A a = small<A>(g);
		const B b = small<B>(g);
		const D d = small<D>(g);
		const E e = small<E>(g);
		const double w[] = { static_cast<double>(a), static_cast<double>(b), static_cast<double>(d), static_cast<double>(e) };
		const auto holds = [&](const auto& v, size_t n, const std::string& what)
		{
			for (size_t i = 0; i < n; i++)
				CHECK(static_cast<double>(v[i]) == w[i], what << ": component " << i << " is " << static_cast<double>(v[i]) << ", not " << w[i]);
		};
		{
			muu::vector v(a);
			typed<muu::vector<A, 1>>(c, v, "vector{ " + name<A>() + " }");
			holds(v, 1, "vector{ a }");
		}
		{
			muu::vector v(a, b);
			typed<muu::vector<all_of<A, B>, 2>>(c, v, "vector{ " + names<A, B>() + " }");
			holds(v, 2, "vector{ a, b }");
		}
		{
			muu::vector v(a, b, d);
			typed<muu::vector<all_of<A, B, D>, 3>>(c, v, "vector{ " + names<A, B, D>() + " }");
			holds(v, 3, "vector{ a, b, d }");
		}
		{
			muu::vector v(a, b, d, e);
			typed<muu::vector<all_of<A, B, D, E>, 4>>(c, v, "vector{ " + names<A, B, D, E>() + " }");
			holds(v, 4, "vector{ a, b, d, e }");
		}
		{
			const A arr[] = { a, static_cast<A>(b), static_cast<A>(d) };
			muu::vector v(arr);
			typed<muu::vector<A, 3>>(c, v, "vector{ array of " + name<A>() + " }");
			holds(v, 3, "vector{ array }");
			A arr2[] = { a, static_cast<A>(b) };
			muu::vector v2(arr2);
			typed<muu::vector<A, 2>>(c, v2, "vector{ array of " + name<A>() + " }");
			holds(v2, 2, "vector{ array }");
			std::array<A, 4> sa{ a, static_cast<A>(b), static_cast<A>(d), static_cast<A>(e) };
			muu::vector v3(sa);
			typed<muu::vector<A, 4>>(c, v3, "vector{ std::array of " + name<A>() + " }");
			holds(v3, 4, "vector{ std::array }");
			muu::vector v4(muu::span<A, 4>{ sa });
			typed<muu::vector<A, 4>>(c, v4, "vector{ span of " + name<A>() + " }");
			holds(v4, 4, "vector{ span }");
			muu::vector v5(muu::span<const A, 4>{ sa });
			typed<muu::vector<A, 4>>(c, v5, "vector{ span of const " + name<A>() + " }");
			holds(v5, 4, "vector{ span of const }");
			muu::vector v6(v3);
			typed<muu::vector<A, 4>>(c, v6, "vector{ vector }");
			holds(v6, 4, "vector{ vector }");
		}
		{
			muu::vector v(std::pair<A, B>{ a, b });
			typed<muu::vector<all_of<A, B>, 2>>(c, v, "vector{ pair of " + names<A, B>() + " }");
			holds(v, 2, "vector{ pair }");
			muu::vector v3(std::tuple<A, B, D>{ a, b, d });
			typed<muu::vector<all_of<A, B, D>, 3>>(c, v3, "vector{ tuple of " + names<A, B, D>() + " }");
			holds(v3, 3, "vector{ tuple }");
			muu::vector v4(std::tuple<A, B, D, E>{ a, b, d, e });
			typed<muu::vector<all_of<A, B, D, E>, 4>>(c, v4, "vector{ tuple of " + names<A, B, D, E>() + " }");
			holds(v4, 4, "vector{ tuple }");
		}
		{
			const muu::vector<A, 2> ab{ a, static_cast<A>(b) };
			const muu::vector<B, 2> de{ static_cast<B>(d), static_cast<B>(e) };
			const muu::vector<B, 1> d1{ static_cast<B>(d) };
			muu::vector v(ab, de);
			typed<muu::vector<all_of<A, B>, 4>>(c, v, "vector{ vector<" + name<A>() + ", 2>, vector<" + name<B>() + ", 2> }");
			holds(v, 4, "vector{ vector, vector }");
			muu::vector v3(ab, d1);
			typed<muu::vector<all_of<A, B>, 3>>(c, v3, "vector{ vector<" + name<A>() + ", 2>, vector<" + name<B>() + ", 1> }");
			holds(v3, 3, "vector{ vector, vector }");
			muu::vector v5(ab, d);
			typed<muu::vector<all_of<A, D>, 3>>(c, v5, "vector{ vector<" + name<A>() + ", 2>, " + name<D>() + " }");
			holds(v5, 3, "vector{ vector, scalar }");
			muu::vector v6(ab, d, e);
			typed<muu::vector<all_of<A, D, E>, 4>>(c, v6, "vector{ vector<" + name<A>() + ", 2>, " + names<D, E>() + " }");
			holds(v6, 4, "vector{ vector, scalar, scalar }");
		}
		c.enumerated(17, 17);
	}

	template <typename A, typename B, typename D, typename E>
	void matrices(pbt::Case& c, crng& g)
	{
		double w[16];
		for (auto& x : w)
			x = 1 + static_cast<double>(g.below(100));
		const auto rowwise = [&](const auto& m, size_t R, size_t C, const std::string& what)
		{
			for (size_t r = 0; r < R; r++)
				for (size_t k = 0; k < C; k++)
					CHECK(static_cast<double>(m(r, k)) == w[r * C + k],
						  what << ": entry " << r << ", " << k << " is " << static_cast<double>(m(r, k)) << ", not " << w[r * C + k]);
		};
	#define a(i) static_cast<A>(w[i])
	#define b(i) static_cast<B>(w[i])
	#define d(i) static_cast<D>(w[i])
	#define e(i) static_cast<E>(w[i])
		{
			muu::matrix m(a(0));
			typed<muu::matrix<A, 1, 1>>(c, m, "matrix{ " + name<A>() + " }");
			rowwise(m, 1, 1, "matrix of one");
		}
		{
			muu::matrix m(a(0), b(1), d(2), e(3));
			typed<muu::matrix<all_of<A, B, D, E>, 2, 2>>(c, m, "matrix{ " + names<A, B, D, E>() + " }");
			rowwise(m, 2, 2, "matrix of four");
		}
		{
			muu::matrix m(a(0), b(1), d(2), e(3), a(4), a(5));
			typed<muu::matrix<all_of<A, B, D, E, A, A>, 2, 3>>(c, m, "matrix of six");
			rowwise(m, 2, 3, "matrix of six");
		}
		{
			muu::matrix m(a(0), a(1), a(2), b(3), a(4), a(5), a(6), a(7), e(8));
			typed<muu::matrix<all_of<A, A, A, B, A, A, A, A, E>, 3, 3>>(c, m, "matrix of nine");
			rowwise(m, 3, 3, "matrix of nine");
		}
		{
			muu::matrix m(d(0), a(1), a(2), a(3), a(4), a(5), a(6), a(7), a(8), b(9), a(10), a(11));
			typed<muu::matrix<all_of<D, A, A, A, A, A, A, A, A, B, A, A>, 3, 4>>(c, m, "matrix of twelve");
			rowwise(m, 3, 4, "matrix of twelve");
		}
		{
			muu::matrix m(a(0), a(1), a(2), a(3), a(4), a(5), a(6), a(7), a(8), a(9), a(10), a(11), a(12), a(13), b(14), d(15));
			typed<muu::matrix<all_of<A, A, A, A, A, A, A, A, A, A, A, A, A, A, B, D>, 4, 4>>(c, m, "matrix of sixteen");
			rowwise(m, 4, 4, "matrix of sixteen");
		}
		{
			// columns; shorter ones are padded with zeros
			const muu::vector<A, 2> c0{ a(0), a(1) };
			const muu::vector<B, 3> c1{ b(2), b(3), b(4) };
			const muu::vector<D, 2> c2{ d(5), d(6) };
			const muu::vector<E, 4> c3{ e(7), e(8), e(9), e(10) };
			const auto column = [&](const auto& m, size_t k, size_t rows, const auto& v, size_t n, const std::string& what)
			{
				for (size_t r = 0; r < rows; r++)
				{
					const double want = r < n ? static_cast<double>(v[r]) : 0.0;
					CHECK(static_cast<double>(m(r, k)) == want,
						  what << ": entry " << r << ", " << k << " is " << static_cast<double>(m(r, k)) << ", not " << want);
				}
			};
			muu::matrix m2(c0, c1);
			typed<muu::matrix<all_of<A, B>, 3, 2>>(c, m2, "matrix of two columns");
			column(m2, 0, 3, c0, 2, "matrix of two columns");
			column(m2, 1, 3, c1, 3, "matrix of two columns");
			muu::matrix m3(c0, c1, c2);
			typed<muu::matrix<all_of<A, B, D>, 3, 3>>(c, m3, "matrix of three columns");
			column(m3, 0, 3, c0, 2, "matrix of three columns");
			column(m3, 1, 3, c1, 3, "matrix of three columns");
			column(m3, 2, 3, c2, 2, "matrix of three columns");
			muu::matrix m4(c0, c1, c2, c3);
			typed<muu::matrix<all_of<A, B, D, E>, 4, 4>>(c, m4, "matrix of four columns");
			column(m4, 0, 4, c0, 2, "matrix of four columns");
			column(m4, 1, 4, c1, 3, "matrix of four columns");
			column(m4, 2, 4, c2, 2, "matrix of four columns");
			column(m4, 3, 4, c3, 4, "matrix of four columns");
		}
	#undef a
	#undef b
	#undef d
	#undef e
		c.enumerated(9, 9);
	}

	struct aabb_
	{
		template <typename T>
		using of = muu::bounding_box<T>;
	};
	struct obb_
	{
		template <typename T>
		using of = muu::oriented_bounding_box<T>;
	};
	// A, B, D: the floating-point type of the shapes; I, J: any types, of a rotation's scalars
	template <typename A, typename B, typename D, typename I, typename J>
	void shapes(pbt::Case& c, crng& g)
	{
		const muu::vector<A, 3> va{ small<A>(g), small<A>(g), small<A>(g) };
		const muu::vector<B, 3> vb{ small<B>(g), small<B>(g), small<B>(g) };
		const muu::vector<D, 3> vd{ small<D>(g), small<D>(g), small<D>(g) };
		const auto same = [](const auto& x, const auto& y)
		{ return eq(x.x, static_cast<double>(y.x)) && eq(x.y, static_cast<double>(y.y)) && eq(x.z, static_cast<double>(y.z)); };
		const A a = small<A>(g);
		const B b = small<B>(g);
		const D d = small<D>(g);
		const std::string ab = names<A, B>();
		{
			muu::line_segment s(va, vb);
			typed<muu::line_segment<all_of<A, B>>>(c, s, "line_segment{ vectors of " + ab + " }");
			CHECK(same(s.points[0], va) && same(s.points[1], vb), "line_segment{ vectors of " << ab << " }");
			muu::line_segment s6(va.x, va.y, va.z, vb.x, vb.y, vb.z);
			typed<muu::line_segment<all_of<A, B>>>(c, s6, "line_segment of six " + ab);
			CHECK(same(s6.points[0], va) && same(s6.points[1], vb), "line_segment of six " << ab);
			const muu::vector<A, 3> pts[] = { va, va + va };
			muu::line_segment sp(pts);
			typed<muu::line_segment<A>>(c, sp, "line_segment{ array }");
			CHECK(same(sp.points[0], pts[0]) && same(sp.points[1], pts[1]), "line_segment{ array }");
			muu::line_segment sc(sp);
			typed<muu::line_segment<A>>(c, sc, "line_segment{ line_segment }");
		}
		{
			muu::ray r(va, vb);
			typed<muu::ray<all_of<A, B>>>(c, r, "ray{ vectors of " + ab + " }");
			CHECK(same(r.origin, va) && same(r.direction, vb), "ray{ vectors of " << ab << " }");
			muu::ray r6(va.x, va.y, va.z, vb.x, vb.y, vb.z);
			typed<muu::ray<all_of<A, B>>>(c, r6, "ray of six " + ab);
			CHECK(same(r6.origin, va) && same(r6.direction, vb), "ray of six " << ab);
			muu::ray rc(r6);
			typed<muu::ray<all_of<A, B>>>(c, rc, "ray{ ray }");
		}
		{
			muu::triangle t(va, vb, vd);
			typed<muu::triangle<all_of<A, B, D>>>(c, t, "triangle{ vectors }");
			CHECK(same(t.points[0], va) && same(t.points[1], vb) && same(t.points[2], vd), "triangle{ vectors }");
			muu::triangle t9(va.x, va.y, va.z, vb.x, vb.y, vb.z, vd.x, vd.y, vd.z);
			typed<muu::triangle<all_of<A, B, D>>>(c, t9, "triangle of nine");
			CHECK(same(t9.points[0], va) && same(t9.points[1], vb) && same(t9.points[2], vd), "triangle of nine");
			const muu::vector<A, 3> pts[] = { va, va + va, va + va + va };
			muu::triangle tp(pts);
			typed<muu::triangle<A>>(c, tp, "triangle{ array }");
			CHECK(same(tp.points[0], pts[0]) && same(tp.points[1], pts[1]) && same(tp.points[2], pts[2]), "triangle{ array }");
			muu::triangle tc(tp);
			typed<muu::triangle<A>>(c, tc, "triangle{ triangle }");
			muu::plane p(tp);
			typed<muu::plane<A>>(c, p, "plane{ triangle }");
		}
		{
			muu::plane p(va, b);
			typed<muu::plane<all_of<A, B>>>(c, p, "plane{ vector and distance of " + ab + " }");
			CHECK(same(p.normal, va) && eq(p.d, static_cast<double>(b)), "plane{ vector and distance of " << ab << " }");
			const muu::vector<B, 3> x{ B(1), B(0), B(0) };
			muu::plane pn(va, x);
			typed<muu::plane<all_of<A, B>>>(c, pn, "plane{ point and normal of " + ab + " }");
			CHECK(same(pn.normal, x) && eq(pn.d, -static_cast<double>(va.x)), "plane{ point and normal of " << ab << " }");
			muu::plane p3(va, vb, vd);
			typed<muu::plane<all_of<A, B, D>>>(c, p3, "plane{ three points }");
		}
		{
			muu::bounding_sphere s(va, b);
			typed<muu::bounding_sphere<all_of<A, B>>>(c, s, "bounding_sphere{ vector and radius of " + ab + " }");
			CHECK(same(s.center, va) && eq(s.radius, static_cast<double>(b)), "bounding_sphere{ vector and radius of " << ab << " }");
			muu::bounding_sphere s4(va.x, va.y, va.z, b);
			typed<muu::bounding_sphere<all_of<A, B>>>(c, s4, "bounding_sphere of four " + ab);
			CHECK(same(s4.center, va) && eq(s4.radius, static_cast<double>(b)), "bounding_sphere of four " << ab);
			muu::bounding_sphere s1(d);
			typed<muu::bounding_sphere<D>>(c, s1, "bounding_sphere{ radius }");
			CHECK(same(s1.center, muu::vector<D, 3>{}) && eq(s1.radius, static_cast<double>(d)), "bounding_sphere{ radius }");
		}
		const auto boxes = [&](auto make, auto type, const std::string& what)
		{
			const auto check = [&](const auto& x, const auto& center, const auto& extents, const std::string& how)
			{ CHECK(same(x.center, center) && same(x.extents, extents), what << how << ": centre or extents"); };
			using type_of = decltype(type);
			const muu::vector<A, 3> zero{}, all_a{ a, a, a };
			const muu::vector<B, 3> all_b{ b, b, b };
			auto b1 = make(va, vb);
			typed<typename type_of::template of<all_of<A, B>>>(c, b1, what + "{ vectors of " + ab + " }");
			check(b1, va, vb, "{ vector, vector }");
			auto b2 = make(va.x, va.y, va.z, vb.x, vb.y, vb.z);
			typed<typename type_of::template of<all_of<A, B>>>(c, b2, what + " of six " + ab);
			check(b2, va, vb, " of six");
			auto b3 = make(va.x, va.y, va.z, vb);
			typed<typename type_of::template of<all_of<A, B>>>(c, b3, what + "{ x, y, z, vector } of " + ab);
			check(b3, va, vb, "{ x, y, z, vector }");
			auto b4 = make(va, vb.x, vb.y, vb.z);
			typed<typename type_of::template of<all_of<A, B>>>(c, b4, what + "{ vector, x, y, z } of " + ab);
			check(b4, va, vb, "{ vector, x, y, z }");
			auto b5 = make(va, b);
			typed<typename type_of::template of<all_of<A, B>>>(c, b5, what + "{ vector, extent } of " + ab);
			check(b5, va, all_b, "{ vector, extent }");
			auto b6 = make(va);
			typed<typename type_of::template of<A>>(c, b6, what + "{ extents }");
			check(b6, zero, va, "{ extents }");
			auto b7 = make(a);
			typed<typename type_of::template of<A>>(c, b7, what + "{ extent }");
			check(b7, zero, all_a, "{ extent }");
		};
		boxes([](auto... x) { return muu::bounding_box(x...); }, aabb_{}, "bounding_box");
		boxes([](auto... x) { return muu::oriented_bounding_box(x...); }, obb_{}, "oriented_bounding_box");

		// rotations, also of integers
		const I i = small<I>(g);
		const J j = small<J>(g);
		const muu::vector<I, 3> vi{ small<I>(g), small<I>(g), small<I>(g) };
		const std::string ij = names<I, J>();
		{
			muu::quaternion q(i, vi.x, vi.y, vi.z);
			typed<muu::quaternion<as_math<I>>>(c, q, "quaternion of four " + name<I>());
			CHECK(eq(q.s, static_cast<double>(i)) && same(q.v, vi), "quaternion of four " << name<I>());
			muu::quaternion q2(j, vi.x, vi.y, vi.z);
			typed<muu::quaternion<as_math<all_of<J, I, I, I>>>>(c, q2, "quaternion of " + names<J, I>());
			CHECK(eq(q2.s, static_cast<double>(j)) && same(q2.v, vi), "quaternion of " << ij);
			muu::quaternion q3(a, vb);
			typed<muu::quaternion<A>>(c, q3, "quaternion{ scalar, vector } of " + ab);
			CHECK(eq(q3.s, static_cast<double>(a)) && same(q3.v, vb), "quaternion{ scalar, vector } of " << ab);
			muu::quaternion qc(q3);
			typed<muu::quaternion<A>>(c, qc, "quaternion{ quaternion }");
		}
		{
			muu::euler_angles e2(i, j);
			typed<muu::euler_angles<as_math<all_of<I, J>>>>(c, e2, "euler_angles of " + ij);
			CHECK(eq(e2.yaw, static_cast<double>(i)) && eq(e2.pitch, static_cast<double>(j)) && eq(e2.roll, 0), "euler_angles of " << ij);
			muu::euler_angles e3(i, j, vi.z);
			typed<muu::euler_angles<as_math<all_of<I, J, I>>>>(c, e3, "euler_angles of three of " + ij);
			CHECK(eq(e3.yaw, static_cast<double>(i)) && eq(e3.pitch, static_cast<double>(j)) && eq(e3.roll, static_cast<double>(vi.z)), "euler_angles of three of " << ij);
			muu::euler_angles ev(va);
			typed<muu::euler_angles<A>>(c, ev, "euler_angles{ vector of " + name<A>() + " }");
			CHECK(eq(ev.yaw, static_cast<double>(va.x)) && eq(ev.pitch, static_cast<double>(va.y)) && eq(ev.roll, static_cast<double>(va.z)), "euler_angles{ vector }");
			muu::quaternion q(muu::euler_angles<A>{ A(0), A(0), A(0) });
			typed<muu::quaternion<A>>(c, q, "quaternion{ euler_angles }");
		}
		{
			muu::axis_angle x(va, b);
			typed<muu::axis_angle<A>>(c, x, "axis_angle{ vector, angle } of " + ab);
			CHECK(same(x.axis, va) && eq(x.angle, static_cast<double>(b)), "axis_angle{ vector, angle } of " << ab);
			const muu::vector<A, 4> v4{ va.x, va.y, va.z, b };
			muu::axis_angle x4(v4);
			typed<muu::axis_angle<A>>(c, x4, "axis_angle{ vector of four " + name<A>() + " }");
			CHECK(same(x4.axis, va) && eq(x4.angle, static_cast<double>(b)), "axis_angle{ vector of four }");
			muu::axis_angle xl({ va.x, va.y, va.z }, b);
			typed<muu::axis_angle<A>>(c, xl, "axis_angle{ list, angle } of " + ab);
			CHECK(same(xl.axis, va) && eq(xl.angle, static_cast<double>(b)), "axis_angle{ list, angle } of " << ab);
			muu::quaternion q(muu::axis_angle<B>{ muu::vector<B, 3>{ B(1), B(0), B(0) }, B(0) });
			typed<muu::quaternion<B>>(c, q, "quaternion{ axis_angle }");
		}
		c.enumerated(41, 41);
	}
	template <size_t... K>
	void all_vectors(pbt::Case& c, crng& g, std::index_sequence<K...>)
	{
		(vectors<drawn<pool, K * 4>, drawn<pool, K * 4 + 1>, drawn<pool, K * 4 + 2>, drawn<pool, K * 4 + 3>>(c, g), ...);
	}
	template <size_t... K>
	void all_matrices(pbt::Case& c, crng& g, std::index_sequence<K...>)
	{
		(matrices<drawn<pool, 1000 + K * 4>, drawn<pool, 1001 + K * 4>, drawn<pool, 1002 + K * 4>, drawn<pool, 1003 + K * 4>>(c, g), ...);
	}
	template <size_t... K>
	void all_shapes(pbt::Case& c, crng& g, std::index_sequence<K...>)
	{
		(shapes<drawn<floats, 2000 + K * 5>, drawn<floats, 2000 + K * 5>, drawn<floats, 2000 + K * 5>, drawn<pool, 2003 + K * 5>, drawn<pool, 2004 + K * 5>>(c, g), ...);
	}
}
#if PART == 4
PROP(deduced_vectors, 20, 400)
{
	crng g{ c.raw(~uint64_t{}) };
	NOTE("types drawn from the seed, first " << names<drawn<pool, 0>, drawn<pool, 1>, drawn<pool, 2>, drawn<pool, 3>>());
	vectors<float, float, float, float>(c, g);
	vectors<int, int, int, int>(c, g);
	vectors<uint8_t, int16_t, int8_t, uint16_t>(c, g);
	vectors<muu::half, muu::half, muu::half, muu::half>(c, g);
	vectors<muu::half, float, double, muu::half>(c, g);
	all_vectors(c, g, std::make_index_sequence<8>{});
	c.nontrivial();
}
#elif PART == 5
PROP(deduced_matrices, 20, 400)
{
	crng g{ c.raw(~uint64_t{}) };
	NOTE("types drawn from the seed, first " << names<drawn<pool, 1000>, drawn<pool, 1001>, drawn<pool, 1002>, drawn<pool, 1003>>());
	matrices<float, float, float, float>(c, g);
	matrices<int, float, int, double>(c, g);
	all_matrices(c, g, std::make_index_sequence<4>{});
	c.nontrivial();
}
#elif PART == 6
PROP(deduced_shapes, 20, 400)
{
	crng g{ c.raw(~uint64_t{}) };
	NOTE("types drawn from the seed, first " << names<drawn<floats, 2000>, drawn<floats, 2001>, drawn<floats, 2002>, drawn<pool, 2003>, drawn<pool, 2004>>());
	shapes<float, float, float, float, float>(c, g);
	shapes<double, double, double, int, float>(c, g);
	shapes<long double, long double, long double, int8_t, uint16_t>(c, g);
	all_shapes(c, g, std::make_index_sequence<3>{});
	c.nontrivial();
}
#endif
