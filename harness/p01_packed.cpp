// P01: packed unit vectors against the exact projection of the vector onto the octahedron
#include <muu/core.h>
#include "common.hpp"
#include "lin.hpp"
#include <muu/packed_unit_vector.h>
#ifndef PART
#define PART 0
#endif

namespace
{
	template <typename T, size_t D>
	b3 wv(const muu::vector<T, D>& v)
	{
		b3 r;
		for (size_t i = 0; i < D; i++)
			r[i] = w(v[i]);
		return r;
	}
	b3 project(b3 v)
	{
		v = { babs(v.x), babs(v.y), babs(v.z) };
		return v / (v.x + v.y + v.z);
	}
	// steps from 0 to 1 of a stored coordinate
	template <typename I, size_t D>
	big steps()
	{
		const int bits = static_cast<int>(sizeof(I) * CHAR_BIT), stored = D == 2 ? bits - 2 : (bits - 3 + 1) / 2;
		return p2(stored) - 2;
	}
	template <typename I, size_t D, typename U>
	void check_unpacked(pbt::Case& c, const muu::packed_unit_vector<I, D>& p, b3 v, big u_in)
	{
		const auto out = p.template unpack<U>();
		const b3 O	   = wv(out);
		const big n = steps<I, D>(), u = unit<U>() * (fp<U>::digits == 11 ? 2 : 8) + u_in * 8 + unit<big>() * 4;
		NOTE("unpacked as " << tname<U>() << " " << sh(O));
		CHECK(babs(len(O) - 1) <= unit<U>() * 6, "length " << sh(len(O)));
		const b3 want = project(v), got = project(O);
		for (size_t i = 0; i < D; i++)
		{
			const big off = babs(want[i] - got[i]), bound = (D == 3 && i == 2 ? 1 : big(0.5)) / n + u;
			CHECK(off <= bound, "component " << i << " is off by " << sh(off * n) << " of " << sh(n) << " steps");
			if (babs(want[i]) > bound)
				CHECK((O[i] < 0) == (v[i] < 0) && O[i] != 0, "component " << i << " changes its sign");
		}
		CHECK((static_cast<muu::vector<U, D>>(p) == out), "conversion operator");
		// packing the unpacked vector again
		if (fp<U>::digits > 11 && out.normalized())
		{
			const muu::packed_unit_vector<I, D> again{ out };
			const b3 twice = wv(again.template unpack<U>());
			const big far  = u * 8 + (big(fp<U>::digits) > BIG(log2, n) + 6 ? big(0) : big(1) / n);
			CHECK(maxabs(twice - O) <= far, "packing " << sh(O) << " again gives " << sh(twice));
		}
	}
	template <typename I, size_t D>
	void check_all(pbt::Case& c, const muu::packed_unit_vector<I, D>& p, b3 v, big u_in)
	{
		CHECK((p.x_negative() == (v.x < 0) && p.y_negative() == (v.y < 0)), "signs");
		if constexpr (D == 3)
			CHECK(p.z_negative() == (v.z < 0), "signs");
		check_unpacked<I, D, float>(c, p, v, u_in);
		check_unpacked<I, D, double>(c, p, v, u_in);
		check_unpacked<I, D, half>(c, p, v, u_in);
		check_unpacked<I, D, long double>(c, p, v, u_in);
#if MUU_HAS_FLOAT128
		check_unpacked<I, D, __float128>(c, p, v, u_in);
#endif
	}
	template <typename I, size_t D>
	b3 gen_vec(pbt::Case& c)
	{
		const big n = steps<I, D>();
		b3 d;
		if (c.chance(1, 3)) // on and around the grid and half way between
		{
			const big k = BIG(floor, big(c.real(0, 1)) * n), tilt = c.pick<big>({ 0, 0.5, 0.49, 0.51, 0.25 });
			d.x = (k + tilt) / n;
			if (d.x > 1)
				d.x = 1;
			d.y = 1 - d.x;
			if (D == 3 && c.b())
			{
				const big l = BIG(floor, d.y * n * big(c.real(0, 1)));
				d.y			= (l + c.pick<big>({ 0, 0.5 })) / n;
				d.z			= bmax(0, 1 - d.x - d.y);
			}
			if (D == 3)
			{
				const size_t a = c.below(3);
				std::swap(d[a], d[2]);
			}
			for (size_t i = 0; i < D; i++)
				if (c.b())
					d[i] = -d[i];
			return unitv(d);
		}
		d = gen_dir(c);
		if (D == 2)
		{
			if (d.x == 0 && d.y == 0)
				d.x = 1;
			d.z = 0;
			d	= unitv(d);
		}
		return d;
	}
	template <typename I, size_t D, typename T>
	void round_trip(pbt::Case& c)
	{
		const b3 d = gen_vec<I, D>(c);
		muu::vector<T, D> v;
		for (size_t i = 0; i < D; i++)
			v[i] = make<T>(d[i]);
		if (!v.normalized())
			pbt::skip();
		const b3 V = wv(v);
		NOTE(tname<T>() << " " << sh(V) << " into " << sizeof(I) * 8 << " bits");
		c.nontrivial((V.x != 0) + (V.y != 0) + (V.z != 0) > 1);
		c.cls(D == 3 && babs(V.y) > babs(V.x) + babs(V.z), "inverted half");
		c.cls(V.z == 0, "z = 0");
		const muu::packed_unit_vector<I, D> p{ v };
		check_all(c, p, V, fp<T>::digits == 11 ? p2(-24) : unit<T>());
		const auto copy = p;
		CHECK(copy.bits == p.bits, "copy");
	}
	template <typename I, size_t D>
	void any_bits(pbt::Case& c)
	{
		muu::packed_unit_vector<I, D> p;
		p.bits = c.integer<I>();
		if (sizeof(I) == 16 && c.b())
			p.bits = static_cast<I>(static_cast<I>(c.integer<uint64_t>()) << (sizeof(I) * 4)) | static_cast<I>(c.integer<uint64_t>());
		NOTE("bits " << pbt::show(p.bits));
		c.nontrivial(p.bits != 0);
		const auto v = p.template unpack<double>();
		const b3 V	 = wv(v);
		NOTE("unpacked " << sh(V));
		CHECK(babs(len(V) - 1) <= unit<double>() * 8, "length " << sh(len(V)));
		if (V.x != 0)
			CHECK((V.x < 0) == p.x_negative(), "sign of x");
		if (V.y != 0)
			CHECK((V.y < 0) == p.y_negative(), "sign of y");
		if constexpr (D == 3)
			if (V.z != 0)
				CHECK((V.z < 0) == p.z_negative(), "sign of z");
		const muu::packed_unit_vector<I, D> again{ v };
		check_unpacked<I, D, double>(c, again, V, unit<double>());
		check_unpacked<I, D, float>(c, again, V, unit<double>());
	}
	template <typename I, size_t D>
	void constants(pbt::Case& c)
	{
		using P	 = muu::packed_unit_vector<I, D>;
		using K	 = muu::constants<P>;
		using VK = muu::constants<muu::vector<float, D>>;
		c.nontrivial(true);
#define SAME(name)                                                                                                     \
	do                                                                                                                 \
	{                                                                                                                  \
		const b3 V = wv(VK::name);                                                                                     \
		NOTE(#name << " " << sh(V));                                                                                   \
		CHECK(maxabs(wv(K::name.template unpack<double>()) - V) == 0, #name " unpacks to " << sh(wv(K::name.template unpack<double>()))); \
		check_all<I, D>(c, K::name, V, 0);                                                                             \
		constexpr P now{ VK::name };                                                                                   \
		volatile float zero = 0;                                                                                       \
		auto v = VK::name;                                                                                             \
		v.x += zero;                                                                                                   \
		CHECK(P{ v }.bits == now.bits && K::name.bits == now.bits, "constant evaluation of " #name);                   \
		muu::vector<int, D> iv;                                                                                        \
		for (size_t i = 0; i < D; i++)                                                                                 \
			iv[i] = static_cast<int>(VK::name[i]);                                                                     \
		CHECK(P{ iv }.bits == now.bits, "from integers: " #name);                                                      \
	}                                                                                                                  \
	while (0)
		SAME(x_axis);
		SAME(y_axis);
		SAME(right);
		SAME(left);
		SAME(up);
		SAME(down);
		if constexpr (D == 2)
		{
			SAME(screen_right);
			SAME(screen_left);
			SAME(screen_up);
			SAME(screen_down);
		}
		else
		{
			SAME(z_axis);
			SAME(forward);
			SAME(backward);
		}
		static_assert(sizeof(P) == sizeof(I) && std::is_trivially_copyable_v<P>);
	}

#define BOTH(I, D)                                                                                                     \
	PROP_T(#I " " #D "D float", 2500, 60000, (round_trip<I, D, float>));                                               \
	PROP_T(#I " " #D "D double", 2500, 60000, (round_trip<I, D, double>));                                             \
	PROP_T(#I " " #D "D half", 1500, 30000, (round_trip<I, D, half>));                                                 \
	PROP_T(#I " " #D "D long double", 2000, 40000, (round_trip<I, D, long double>));                                   \
	PROP_T(#I " " #D "D any bits", 2500, 60000, (any_bits<I, D>));                                                     \
	PROP_T(#I " " #D "D constants", 1, 1, (constants<I, D>))
#if PART == 0
	BOTH(uint8_t, 2);
	BOTH(uint8_t, 3);
#elif PART == 1
	BOTH(uint16_t, 2);
	BOTH(uint16_t, 3);
#elif PART == 2
	BOTH(uint32_t, 2);
	BOTH(uint32_t, 3);
	static_assert(std::is_same_v<decltype(muu::packed_unit_vector{ muu::vector<float, 3>{} }), muu::packed_unit_vector<uint32_t, 3>>);
	static_assert(std::is_same_v<decltype(muu::packed_unit_vector{ muu::vector<double, 2>{} }), muu::packed_unit_vector<uint32_t, 2>>);
#elif PART == 3
	BOTH(uint64_t, 2);
	BOTH(uint64_t, 3);
#elif PART == 4
#if MUU_HAS_INT128
	using uint128 = muu::uint128_t;
	BOTH(uint128, 2);
	BOTH(uint128, 3);
#endif
#endif
}
