// M10: components survive construction, access, conversion between scalar types and declared bit-casts
#include <muu/core.h>
#include <muu/half.h>
#include <muu/vector.h>
#include <muu/matrix.h>
#include <muu/quaternion.h>
#include <muu/euler_angles.h>
#include <muu/axis_angle.h>
#include <muu/plane.h>
#include <muu/line_segment.h>
#include <muu/triangle.h>
#include <muu/bounding_sphere.h>
#include <muu/bounding_box.h>
#include <muu/oriented_bounding_box.h>
#include <muu/ray.h>
#include <cstring>
#include <type_traits>
#include <tuple>
#include "common.hpp"
#ifndef PART
	#define PART 0
#endif

namespace
{
	// --- foreign types holding N scalars --------------------------------------------------------------------------
	template <typename S, size_t N>
	struct f_array
	{
		S v[N];
	};
	template <typename S, size_t N>
	struct f_nested // first scalar on its own, the others in a sub-object
	{
		struct rest
		{
			S v[N > 1 ? N - 1 : 1];
		};
		S head;
		rest tail;
	};
	template <typename S, size_t N>
	union f_union
	{
		S v[N];
		struct
		{
			S w[N];
		} alias;
	};
	template <typename S, size_t N>
	class f_tuple // offers the tuple protocol as well
	{
	  public:
		S v[N];
		template <size_t I>
		constexpr const S& get() const noexcept
		{
			return v[N - 1 - I]; // (in another order, so a bit-cast and a component-wise conversion can be told apart)
		}
	};
	template <typename S, size_t N>
	struct f_final final
	{
		S v[N];
	};
	template <typename S, size_t N>
	struct f_private // private members with accessors
	{
		constexpr f_private() noexcept : v{} {}
		constexpr S first() const noexcept { return v[0]; }

	  private:
		S v[N];
	};
	template <typename S, size_t N>
	struct f_refused // never declared bit-castable
	{
		S v[N];
	};
}
namespace std
{
	template <typename S, size_t N>
	struct tuple_size<f_tuple<S, N>> : std::integral_constant<size_t, N>
	{};
	template <size_t I, typename S, size_t N>
	struct tuple_element<I, f_tuple<S, N>>
	{
		using type = S;
	};
}
namespace
{
	template <typename T>
	inline constexpr size_t comps = 0;
	template <typename S, size_t D>
	inline constexpr size_t comps<muu::vector<S, D>> = D;
	template <typename S, size_t R, size_t C>
	inline constexpr size_t comps<muu::matrix<S, R, C>> = R * C;
	template <typename S>
	inline constexpr size_t comps<muu::quaternion<S>> = 4;
	template <typename S>
	inline constexpr size_t comps<muu::axis_angle<S>> = 4;
	template <typename S>
	inline constexpr size_t comps<muu::euler_angles<S>> = 3;
	template <typename S>
	inline constexpr size_t comps<muu::plane<S>> = 4;
	template <typename S>
	inline constexpr size_t comps<muu::line_segment<S>> = 6;
	template <typename S>
	inline constexpr size_t comps<muu::triangle<S>> = 9;
	template <typename S>
	inline constexpr size_t comps<muu::bounding_sphere<S>> = 4;
	template <typename S>
	inline constexpr size_t comps<muu::bounding_box<S>> = 6;
	template <typename S>
	inline constexpr size_t comps<muu::oriented_bounding_box<S>> = 15;
	template <typename S>
	inline constexpr size_t comps<muu::ray<S>> = 6;

	template <typename T>
	using scalar_of = typename T::scalar_type;

	// --- reading every component by name, in storage order ---------------------------------------------------------
	template <typename S, size_t D>
	constexpr void read(const muu::vector<S, D>& v, S* o)
	{
		for (size_t i = 0; i < D; i++)
			o[i] = v[i];
	}
	template <typename S, size_t R, size_t C>
	constexpr void read(const muu::matrix<S, R, C>& m, S* o)
	{
		for (size_t k = 0; k < C; k++)
			for (size_t r = 0; r < R; r++)
				o[k * R + r] = m(r, k);
	}
	template <typename S>
	constexpr void read(const muu::quaternion<S>& q, S* o)
	{
		o[0] = q.s;
		read(q.v, o + 1);
	}
	template <typename S>
	constexpr void read(const muu::axis_angle<S>& a, S* o)
	{
		read(a.axis, o);
		o[3] = a.angle;
	}
	template <typename S>
	constexpr void read(const muu::euler_angles<S>& a, S* o)
	{
		o[0] = a.yaw;
		o[1] = a.pitch;
		o[2] = a.roll;
	}
	template <typename S>
	constexpr void read(const muu::plane<S>& p, S* o)
	{
		read(p.normal, o);
		o[3] = p.d;
	}
	template <typename S>
	constexpr void read(const muu::line_segment<S>& s, S* o)
	{
		read(s.points[0], o);
		read(s.points[1], o + 3);
	}
	template <typename S>
	constexpr void read(const muu::triangle<S>& s, S* o)
	{
		for (size_t i = 0; i < 3; i++)
			read(s.points[i], o + 3 * i);
	}
	template <typename S>
	constexpr void read(const muu::bounding_sphere<S>& s, S* o)
	{
		read(s.center, o);
		o[3] = s.radius;
	}
	template <typename S>
	constexpr void read(const muu::bounding_box<S>& s, S* o)
	{
		read(s.center, o);
		read(s.extents, o + 3);
	}
	template <typename S>
	constexpr void read(const muu::oriented_bounding_box<S>& s, S* o)
	{
		read(s.center, o);
		read(s.extents, o + 3);
		read(s.axes, o + 6);
	}
	template <typename S>
	constexpr void read(const muu::ray<S>& s, S* o)
	{
		read(s.origin, o);
		read(s.direction, o + 3);
	}

	// --- building through the constructor that takes all components -------------------------------------------------
	template <typename S>
	constexpr muu::vector<S, 3> v3(const S* v)
	{
		return { v[0], v[1], v[2] };
	}
	template <typename S>
	constexpr muu::matrix<S, 3, 3> m3(const S* v) // (columns after each other)
	{
		return { v[0], v[3], v[6], v[1], v[4], v[7], v[2], v[5], v[8] };
	}
	template <typename T>
	struct builder;
	template <typename S, size_t D>
	struct builder<muu::vector<S, D>>
	{
		static constexpr muu::vector<S, D> make(const S* v)
		{
			muu::vector<S, D> r{};
			for (size_t i = 0; i < D; i++)
				r[i] = v[i];
			return r;
		}
	};
	template <typename S, size_t R, size_t C>
	struct builder<muu::matrix<S, R, C>>
	{
		static constexpr muu::matrix<S, R, C> make(const S* v)
		{
			muu::matrix<S, R, C> m{};
			for (size_t i = 0; i < R * C; i++)
				m(i % R, i / R) = v[i];
			return m;
		}
	};
#define BUILDER(type, ...)                                                                                             \
	template <typename S>                                                                                              \
	struct builder<muu::type<S>>                                                                                       \
	{                                                                                                                  \
		static constexpr muu::type<S> make(const S* v)                                                                 \
		{                                                                                                              \
			return muu::type<S> __VA_ARGS__;                                                                           \
		}                                                                                                              \
	}
	BUILDER(quaternion, { v[0], v3(v + 1) });
	BUILDER(axis_angle, { v3(v), v[3] });
	BUILDER(euler_angles, { v[0], v[1], v[2] });
	BUILDER(plane, { v3(v), v[3] });
	BUILDER(line_segment, { v3(v), v3(v + 3) });
	BUILDER(triangle, { v3(v), v3(v + 3), v3(v + 6) });
	BUILDER(bounding_sphere, { v3(v), v[3] });
	BUILDER(bounding_box, { v3(v), v3(v + 3) });
	BUILDER(oriented_bounding_box, { v3(v), v3(v + 3), m3(v + 6) });
	BUILDER(ray, { v3(v), v3(v + 3) });

	// --- values -------------------------------------------------------------------------------------------------------
	template <typename S>
	S gen_value(pbt::Case& c)
	{
		if constexpr (std::is_same_v<S, muu::half>)
			return muu::half::from_bits(static_cast<uint16_t>(c.raw(UINT64_MAX))); // any, NaNs too
		else if constexpr (std::is_integral_v<S>)
			return c.integer<S>();
		else if constexpr (std::is_same_v<S, float> || std::is_same_v<S, double>)
		{
			using U = std::conditional_t<sizeof(S) == 4, uint32_t, uint64_t>;
			if (c.chance(1, 4))
			{
				const U bits = static_cast<U>(c.raw(UINT64_MAX));
				S s;
				std::memcpy(&s, &bits, sizeof s);
				return s;
			}
			return static_cast<S>(c.real(-1000, 1000));
		}
		else
			return static_cast<S>(c.real(-1000, 1000));
	}
	template <typename S>
	bool same(S a, S b)
	{
		if constexpr (sizeof(S) <= 8)
			return !std::memcmp(&a, &b, sizeof a); // bit for bit
		else if constexpr (muu::is_integer<S>)
			return a == b;
		else
			return a == b || (a != a && b != b);
	}
	template <typename S>
	std::string shown(S v)
	{
		if constexpr (muu::is_floating_point<S>)
			return std::to_string(static_cast<double>(v));
		else
			return std::to_string(static_cast<long long>(v));
	}
	template <typename T>
	void expect(pbt::Case& c, const T& got, const scalar_of<T>* want, const char* how)
	{
		scalar_of<T> have[comps<T>];
		read(got, have);
		for (size_t i = 0; i < comps<T>; i++)
			if (!same(have[i], want[i]))
			{
				CHECK(false, how << ": component " << i << " of " << comps<T> << " is " << shown(have[i]) << " instead of " << shown(want[i]));
			}
	}

	// --- bit-casts ----------------------------------------------------------------------------------------------------
	template <template <typename, size_t> typename F, typename T>
	using foreign = F<scalar_of<T>, comps<T>>;
}
#define TARGETS(X)                                                                                                     \
	X(quaternion) X(axis_angle) X(euler_angles) X(plane) X(line_segment) X(triangle) X(bounding_sphere) X(bounding_box) \
		X(oriented_bounding_box) X(ray)
#define SHAPES(X) X(f_array) X(f_nested) X(f_union) X(f_tuple) X(f_final) X(f_private)
namespace muu
{
#define ALLOW(F)                                                                                                       \
	template <typename S, size_t N, size_t D>                                                                          \
	inline constexpr bool allow_implicit_bit_cast<F<S, N>, vector<S, D>> = (N == D);                                   \
	template <typename S, size_t N, size_t R, size_t C>                                                                \
	inline constexpr bool allow_implicit_bit_cast<F<S, N>, matrix<S, R, C>> = (N == R * C);
	SHAPES(ALLOW)
#undef ALLOW
#define ALLOW_ONE(T, F)                                                                                                \
	template <typename S, size_t N>                                                                                    \
	inline constexpr bool allow_implicit_bit_cast<F<S, N>, T<S>> = (N == comps<T<S>>);
#define ALLOW(T)                                                                                                       \
	ALLOW_ONE(T, f_array)                                                                                              \
	ALLOW_ONE(T, f_nested)                                                                                             \
	ALLOW_ONE(T, f_union)                                                                                              \
	ALLOW_ONE(T, f_tuple)                                                                                              \
	ALLOW_ONE(T, f_final)                                                                                              \
	ALLOW_ONE(T, f_private)
	TARGETS(ALLOW)
#undef ALLOW
#undef ALLOW_ONE
}
namespace
{
	template <typename T>
	T by_value(T t)
	{
		return t;
	}
	template <typename T>
	T by_const_ref(const T& t)
	{
		return t;
	}
	template <typename T>
	T by_rvalue(T&& t)
	{
		return t;
	}

	template <typename T, template <typename, size_t> typename F>
	void cast_from(pbt::Case& c, const scalar_of<T>* vals, const char* name)
	{
		using Src = foreign<F, T>;
		using S	  = scalar_of<T>;
		static_assert(sizeof(Src) == sizeof(T));
		static_assert(std::is_convertible_v<Src, T> && std::is_convertible_v<const Src&, T>);
		static_assert(std::is_nothrow_constructible_v<T, const Src&>);
		static_assert(std::is_assignable_v<T&, const Src&>);

		Src src;
		std::memcpy(static_cast<void*>(&src), vals, sizeof src);
		NOTE("from " << name);
		const T init = src;
		expect(c, init, vals, "initialised");
		const T direct{ src };
		expect(c, direct, vals, "constructed");
		S other[comps<T>];
		for (size_t i = 0; i < comps<T>; i++)
			other[i] = S{};
		T assigned = builder<T>::make(other);
		assigned   = src;
		expect(c, assigned, vals, "assigned");
		expect(c, by_value<T>(src), vals, "passed by value");
		expect(c, by_const_ref<T>(src), vals, "passed by reference");
		expect(c, by_rvalue<T>(src), vals, "passed as temporary");
		// and the source is only read
		S again[comps<T>];
		std::memcpy(again, static_cast<const void*>(&src), sizeof src);
		for (size_t i = 0; i < comps<T>; i++)
			CHECK((same(again[i], vals[i])), "");
	}

	template <typename T, typename S, size_t N>
	constexpr bool constexpr_cast(uint64_t seed)
	{
		crng g{ seed };
		f_array<S, N> src{};
		for (size_t i = 0; i < N; i++)
			src.v[i] = static_cast<S>(static_cast<int>(g.below(2000)) - 1000);
		const T t = src;
		S out[N]{};
		read(t, out);
		for (size_t i = 0; i < N; i++)
			if (!(out[i] == src.v[i]))
				return false;
		return true;
	}

	template <typename T>
	void bit_casts(pbt::Case& c)
	{
		using S = scalar_of<T>;
		S vals[comps<T>];
		for (auto& v : vals)
			v = gen_value<S>(c);
		bool differ = false;
		for (auto& v : vals)
			differ |= !same(v, vals[0]);
		c.nontrivial(differ || comps<T> == 1);
		for (size_t i = 0; i < comps<T> && i < 4; i++)
			NOTE("component " << i << " = " << shown(vals[i]));

		expect(c, builder<T>::make(vals), vals, "from its components");
		cast_from<T, f_array>(c, vals, "an array member");
		cast_from<T, f_union>(c, vals, "a union");
		cast_from<T, f_tuple>(c, vals, "a tuple-like class");
		cast_from<T, f_final>(c, vals, "a final class");
		cast_from<T, f_private>(c, vals, "private members");
		if constexpr (comps<T> > 1)
			cast_from<T, f_nested>(c, vals, "nested members");

		// what was not declared does not convert
		static_assert(!std::is_convertible_v<foreign<f_refused, T>, T>);
		static_assert(!std::is_constructible_v<T, foreign<f_refused, T>>);
		static_assert(!std::is_convertible_v<f_array<S, comps<T> + 1>, T>);
		static_assert(!std::is_convertible_v<f_array<long long, comps<T>>, T> || std::is_same_v<S, long long>);

#ifdef __clang__ // (clang's __builtin_bit_cast does not construct empty bases of members, such as those of matrices)
		constexpr bool constant = comps<T> != 15;
#else
		constexpr bool constant = true;
#endif
		if constexpr (constant && muu::build::supports_constexpr_bit_cast && sizeof(S) <= 8
					  && (!std::is_same_v<S, muu::half> || muu::build::supports_constexpr_half))
		{
			constexpr uint64_t seed = VERIF_SEED + comps<T>;
			static_assert(constexpr_cast<T, S, comps<T>>(seed));
			static_assert(constexpr_cast<T, S, comps<T>>(seed + 1000));
		}
	}

	// in expressions: exactly what the library value gives
	template <typename S>
	void in_expressions(pbt::Case& c)
	{
		using V3 = muu::vector<S, 3>;
		S vals[15];
		for (auto& v : vals)
			v = static_cast<S>(c.i(-64, 64)) / S{ 8 };
		const auto load = [&](auto tag, size_t n, size_t at)
		{
			typename decltype(tag)::type r;
			(void)n;
			std::memcpy(static_cast<void*>(&r), vals + at, sizeof r);
			return r;
		};
		c.nontrivial(vals[0] != vals[3]);
		NOTE(shown(vals[0]) << ", " << shown(vals[1]) << ", " << shown(vals[2]) << " with " << shown(vals[3]) << ", " << shown(vals[4]));
		const f_array<S, 3> fa = load(muu::type_tag<f_array<S, 3>>{}, 3, 0);
		const f_tuple<S, 3> ft = load(muu::type_tag<f_tuple<S, 3>>{}, 3, 3);
		const V3 a = v3(vals), b = v3(vals + 3);
		using Sphere = muu::bounding_sphere<S>;
		using Box	 = muu::bounding_box<S>;
		using Plane	 = muu::plane<S>;
		using Seg	 = muu::line_segment<S>;
		using Tri	 = muu::triangle<S>;
		const f_array<S, 6> fbox = load(muu::type_tag<f_array<S, 6>>{}, 6, 6);
		const Box box{ v3(vals + 6), v3(vals + 9) };
		const f_array<S, 9> ftri = load(muu::type_tag<f_array<S, 9>>{}, 9, 6);
		const Tri tri{ v3(vals + 6), v3(vals + 9), v3(vals + 12) };
		CHECK((box.contains(fa) == box.contains(a)), "");
		CHECK((Tri::zero(ftri) == Tri::zero(tri)), "");
		CHECK((Seg::length_squared(fbox) == Seg::length_squared(Seg{ v3(vals + 6), v3(vals + 9) })), "");
		CHECK((box.closest_point(fa) == box.closest_point(a)), "");
		const f_array<S, 4> fsphere = load(muu::type_tag<f_array<S, 4>>{}, 4, 9);
		const Sphere sphere{ v3(vals + 9), vals[12] };
		CHECK((Sphere::empty(fsphere) == Sphere::empty(sphere)), "");
		CHECK((Sphere::zero(fsphere) == Sphere::zero(sphere)), "");
		const Plane plane{ V3{ 0, 1, 0 }, vals[14] };
		CHECK((plane.signed_distance(fa) == plane.signed_distance(a)), "");
		CHECK((plane.project(ft) == plane.project(b)), "");
	}

	// --- converting to another scalar type ----------------------------------------------------------------------------
	template <template <typename> typename T, typename From, typename To>
	void convert(pbt::Case& c)
	{
		static constexpr size_t n = comps<T<From>>;
		From vals[n];
		To want[n];
		for (size_t i = 0; i < n; i++)
		{
			vals[i] = static_cast<From>(c.real(-60000, 60000));
			if (c.chance(1, 5))
				vals[i] = From(0) * (c.b() ? From(-1) : From(1));
			want[i] = static_cast<To>(vals[i]);
		}
		c.nontrivial(want[0] != want[n - 1]);
		NOTE("from " << sizeof(From) << " to " << sizeof(To) << " bytes: " << shown(vals[0]) << ", " << shown(vals[1]) << ", " << shown(vals[2]));
		static_assert(std::is_constructible_v<T<To>, const T<From>&>);
		static_assert(std::is_nothrow_constructible_v<T<To>, const T<From>&>);
		const auto src = builder<T<From>>::make(vals);
		const T<To> dst{ src };
		expect(c, dst, want, "converted");
		const auto dst2 = static_cast<T<To>>(src);
		expect(c, dst2, want, "cast");
	}
	template <template <typename> typename T>
	void conversions(pbt::Case& c)
	{
		switch (c.below(8))
		{
			case 0: convert<T, float, double>(c); break;
			case 1: convert<T, double, float>(c); break;
			case 2: convert<T, float, long double>(c); break;
			case 3: convert<T, long double, float>(c); break;
			case 4: convert<T, float, muu::half>(c); break;
			case 5: convert<T, muu::half, float>(c); break;
			case 6: convert<T, double, long double>(c); break;
			case 7: convert<T, long double, double>(c); break;
		}
	}

	// --- every other way to hand over and take out components ------------------------------------------------------
	template <typename S>
	void other_forms(pbt::Case& c)
	{
		using V3 = muu::vector<S, 3>;
		using V4 = muu::vector<S, 4>;
		S v[15];
		for (auto& x : v)
			x = gen_value<S>(c);
		c.nontrivial(!same(v[0], v[1]));
		NOTE(shown(v[0]) << ", " << shown(v[1]) << ", " << shown(v[2]));

		const S zero3[4] = { v[0], v[1], v[2], S{} };
		expect(c, muu::axis_angle<S>{ v3(v) }, zero3, "axis only");
		expect(c, muu::axis_angle<S>{ V4{ v[0], v[1], v[2], v[3] } }, v, "axis-angle from vec4");
		expect(c, static_cast<V4>(muu::axis_angle<S>{ v3(v), v[3] }), v, "axis-angle to vec4");
		expect(c, static_cast<const V3&>(muu::axis_angle<S>{ v3(v), v[3] }), v, "axis");
		const S two[3] = { v[0], v[1], S{} };
		expect(c, muu::euler_angles<S>{ v[0], v[1] }, two, "yaw and pitch");
		expect(c, muu::euler_angles<S>{ v3(v) }, v, "euler from vec3");
		expect(c, static_cast<V3>(muu::euler_angles<S>{ v[0], v[1], v[2] }), v, "euler to vec3");

		const muu::quaternion<S> q1{ v[0], v3(v + 1) };
		expect(c, muu::quaternion<S>{ v[0], v[1], v[2], v[3] }, v, "quaternion from scalars");
		muu::quaternion<S> q = q1;
		CHECK((same(q.template get<0>(), v[0]) && same(q1.template get<0>(), v[0])), "");
		expect(c, q.template get<1>(), v + 1, "vector part");
		expect(c, q1.template get<1>(), v + 1, "vector part");
		CHECK((&q.template get<0>() == &q.s && &q.template get<1>() == &q.v), "");
		CHECK((static_cast<const void*>(q.data()) == static_cast<const void*>(&q)
			  && static_cast<const void*>(q1.data()) == static_cast<const void*>(&q1)), "");
		for (size_t i = 0; i < 4; i++)
			CHECK((same(q.data()[i], v[i]) && same(q1.data()[i], v[i])), "");

		const V3 two_points[2]	 = { v3(v), v3(v + 3) };
		const V3 three_points[3] = { v3(v), v3(v + 3), v3(v + 6) };
		expect(c, muu::line_segment<S>{ two_points }, v, "segment from array");
		expect(c, muu::line_segment<S>{ v[0], v[1], v[2], v[3], v[4], v[5] }, v, "segment from scalars");
		expect(c, muu::triangle<S>{ three_points }, v, "triangle from array");
		expect(c, muu::triangle<S>{ v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8] }, v, "triangle from scalars");
		expect(c, muu::bounding_sphere<S>{ v[0], v[1], v[2], v[3] }, v, "sphere from scalars");
		const S rad[4] = { S{}, S{}, S{}, v[3] };
		expect(c, muu::bounding_sphere<S>{ v[3] }, rad, "sphere from radius");
		const S ext[6] = { S{}, S{}, S{}, v[3], v[4], v[5] };
		expect(c, muu::bounding_box<S>{ v3(v + 3) }, ext, "box from extents");
		const S cube[6] = { S{}, S{}, S{}, v[3], v[3], v[3] };
		expect(c, muu::bounding_box<S>{ v[3] }, cube, "cube");
		const S cube_at[6] = { v[0], v[1], v[2], v[3], v[3], v[3] };
		expect(c, muu::bounding_box<S>{ v3(v), v[3] }, cube_at, "cube somewhere");
		expect(c, muu::bounding_box<S>{ v3(v), v[3], v[4], v[5] }, v, "box from center and scalars");
		S obb[15] = { v[0], v[1], v[2], v[3], v[4], v[5], S(1), S(0), S(0), S(0), S(1), S(0), S(0), S(0), S(1) };
		expect(c, muu::oriented_bounding_box<S>{ v3(v), v3(v + 3) }, obb, "box along the axes");

		// the address of the first component, in both forms
		const auto first = [&](auto obj)
		{
			const auto& k = obj;
			CHECK((static_cast<const void*>(obj.data()) == static_cast<const void*>(&obj)), "");
			CHECK((static_cast<const void*>(k.data()) == static_cast<const void*>(&obj)), "");
			static_assert(std::is_same_v<decltype(obj.data()), S*> && std::is_same_v<decltype(k.data()), const S*>);
			for (size_t i = 0; i < comps<decltype(obj)>; i++)
				CHECK((same(obj.data()[i], v[i]) && same(k.data()[i], v[i])), "");
			obj.data()[comps<decltype(obj)> - 1] = S(1);
			S all[15];
			read(obj, all);
			CHECK((same(all[comps<decltype(obj)> - 1], S(1))), "");
		};
		first(builder<muu::vector<S, 2>>::make(v));
		first(builder<muu::vector<S, 5>>::make(v));
		first(builder<muu::matrix<S, 2, 3>>::make(v));
		first(builder<muu::matrix<S, 3, 3>>::make(v));
		first(builder<muu::plane<S>>::make(v));
		first(builder<muu::line_segment<S>>::make(v));
		first(builder<muu::triangle<S>>::make(v));
		first(builder<muu::bounding_sphere<S>>::make(v));
		first(builder<muu::bounding_box<S>>::make(v));
		first(builder<muu::oriented_bounding_box<S>>::make(v));
	}

#if PART == 0
	PROP_T("quaternion<float>", 300, 20000, (bit_casts<muu::quaternion<float>>));
	PROP_T("quaternion<double>", 300, 20000, (bit_casts<muu::quaternion<double>>));
	PROP_T("axis_angle<float>", 300, 20000, (bit_casts<muu::axis_angle<float>>));
	PROP_T("axis_angle<double>", 300, 20000, (bit_casts<muu::axis_angle<double>>));
	PROP_T("euler_angles<float>", 300, 20000, (bit_casts<muu::euler_angles<float>>));
	PROP_T("euler_angles<double>", 300, 20000, (bit_casts<muu::euler_angles<double>>));
	PROP_T("plane<float>", 300, 20000, (bit_casts<muu::plane<float>>));
	PROP_T("plane<double>", 300, 20000, (bit_casts<muu::plane<double>>));
	PROP_T("line_segment<float>", 300, 20000, (bit_casts<muu::line_segment<float>>));
	PROP_T("line_segment<double>", 300, 20000, (bit_casts<muu::line_segment<double>>));
	PROP_T("triangle<float>", 300, 20000, (bit_casts<muu::triangle<float>>));
	PROP_T("triangle<double>", 300, 20000, (bit_casts<muu::triangle<double>>));
#elif PART == 1
	PROP_T("bounding_sphere<float>", 300, 20000, (bit_casts<muu::bounding_sphere<float>>));
	PROP_T("bounding_sphere<double>", 300, 20000, (bit_casts<muu::bounding_sphere<double>>));
	PROP_T("bounding_box<float>", 300, 20000, (bit_casts<muu::bounding_box<float>>));
	PROP_T("bounding_box<double>", 300, 20000, (bit_casts<muu::bounding_box<double>>));
	PROP_T("oriented_bounding_box<float>", 300, 20000, (bit_casts<muu::oriented_bounding_box<float>>));
	PROP_T("oriented_bounding_box<double>", 300, 20000, (bit_casts<muu::oriented_bounding_box<double>>));
	PROP_T("ray<float>", 300, 20000, (bit_casts<muu::ray<float>>));
	PROP_T("ray<double>", 300, 20000, (bit_casts<muu::ray<double>>));
	PROP_T("ray<half>", 300, 20000, (bit_casts<muu::ray<muu::half>>));
	PROP_T("quaternion<half>", 300, 20000, (bit_casts<muu::quaternion<muu::half>>));
	PROP_T("plane<half>", 300, 20000, (bit_casts<muu::plane<muu::half>>));
	PROP_T("bounding_box<long double>", 300, 20000, (bit_casts<muu::bounding_box<long double>>));
	PROP_T("used in expressions<float>", 500, 30000, (in_expressions<float>));
	PROP_T("used in expressions<double>", 500, 30000, (in_expressions<double>));
#elif PART == 2
	PROP_T("vector<float, 1>", 300, 20000, (bit_casts<muu::vector<float, 1>>));
	PROP_T("vector<float, 2>", 300, 20000, (bit_casts<muu::vector<float, 2>>));
	PROP_T("vector<float, 3>", 300, 20000, (bit_casts<muu::vector<float, 3>>));
	PROP_T("vector<double, 4>", 300, 20000, (bit_casts<muu::vector<double, 4>>));
	PROP_T("vector<double, 7>", 300, 20000, (bit_casts<muu::vector<double, 7>>));
	PROP_T("vector<half, 4>", 300, 20000, (bit_casts<muu::vector<muu::half, 4>>));
	PROP_T("vector<int, 3>", 300, 20000, (bit_casts<muu::vector<int, 3>>));
	PROP_T("vector<unsigned char, 4>", 300, 20000, (bit_casts<muu::vector<unsigned char, 4>>));
	PROP_T("vector<long long, 2>", 300, 20000, (bit_casts<muu::vector<long long, 2>>));
	PROP_T("vector<long double, 3>", 300, 20000, (bit_casts<muu::vector<long double, 3>>));
	PROP_T("matrix<float, 3, 3>", 300, 20000, (bit_casts<muu::matrix<float, 3, 3>>));
	PROP_T("matrix<float, 3, 4>", 300, 20000, (bit_casts<muu::matrix<float, 3, 4>>));
	PROP_T("matrix<double, 4, 4>", 300, 20000, (bit_casts<muu::matrix<double, 4, 4>>));
	PROP_T("matrix<int, 2, 3>", 300, 20000, (bit_casts<muu::matrix<int, 2, 3>>));
	PROP_T("matrix<short, 5, 1>", 300, 20000, (bit_casts<muu::matrix<short, 5, 1>>));
#else
	PROP_T("convert quaternion", 600, 40000, (conversions<muu::quaternion>));
	PROP_T("convert axis_angle", 600, 40000, (conversions<muu::axis_angle>));
	PROP_T("convert euler_angles", 600, 40000, (conversions<muu::euler_angles>));
	PROP_T("convert plane", 600, 40000, (conversions<muu::plane>));
	PROP_T("convert line_segment", 600, 40000, (conversions<muu::line_segment>));
	PROP_T("convert triangle", 600, 40000, (conversions<muu::triangle>));
	PROP_T("convert bounding_sphere", 600, 40000, (conversions<muu::bounding_sphere>));
	PROP_T("convert bounding_box", 600, 40000, (conversions<muu::bounding_box>));
	PROP_T("convert oriented_bounding_box", 600, 40000, (conversions<muu::oriented_bounding_box>));
	PROP_T("convert ray", 600, 40000, (conversions<muu::ray>));
	PROP_T("other forms<float>", 600, 40000, (other_forms<float>));
	PROP_T("other forms<double>", 600, 40000, (other_forms<double>));
	PROP_T("other forms<half>", 600, 40000, (other_forms<muu::half>));
	PROP_T("other forms<long double>", 600, 40000, (other_forms<long double>));
#endif
}
