#include "common.hpp"
#include <muu/bit.h>
#include <tuple>

namespace
{
	enum class e8 : uint8_t {};
	enum class es8 : int8_t {};
	enum class e16 : uint16_t {};
	enum class es32 : int32_t {};
	enum class e64 : uint64_t {};

	// memory bytes, least significant first (all supported targets here are little-endian)
	template <typename T>
	constexpr uint8_t ref_byte(T v, size_t i)
	{
		if constexpr (std::is_enum_v<T>)
			return ref_byte(static_cast<std::underlying_type_t<T>>(v), i);
		else
			return i < sizeof(T) ? static_cast<uint8_t>((static_cast<u128>(v) >> (8 * i)) & 0xFF) : uint8_t{};
	}
	template <typename T>
	constexpr u128 ref_bits(T v)
	{
		u128 r = 0;
		for (size_t i = sizeof(T); i-- > 0;)
			r = (r << 8) | ref_byte(v, i);
		return r;
	}
	template <typename T>
	constexpr T make(uint64_t hi, uint64_t lo)
	{
		if constexpr (std::is_enum_v<T>)
			return static_cast<T>(make<std::underlying_type_t<T>>(hi, lo));
		else
			return static_cast<T>((static_cast<u128>(hi) << 64) | lo);
	}
	template <typename T>
	T gen(pbt::Case& c)
	{
		if constexpr (sizeof(T) > 8)
		{
			auto h = c.integer<uint64_t>();
			return make<T>(h, c.integer<uint64_t>());
		}
		else if constexpr (std::is_enum_v<T>)
			return static_cast<T>(c.integer<std::underlying_type_t<T>>());
		else if constexpr (std::is_same_v<T, bool>)
			return c.b();
		else
			return static_cast<T>(c.integer<std::make_unsigned_t<T>>());
	}

	template <typename... T>
	constexpr u128 ref_pack(T... v)
	{
		u128 r = 0;
		((r = sizeof(T) >= 16 ? ref_bits(v) : static_cast<u128>((r << (8 * sizeof(T))) | ref_bits(v))), ...);
		return r;
	}

	template <typename R>
	u128 as_bits(R r)
	{
		return ref_bits(r);
	}

	template <typename... T>
	void pack_case(pbt::Case& c)
	{
		std::tuple<T...> t{ gen<T>(c)... };
		std::apply(
			[&](auto... v)
			{
				const auto e = ref_pack(v...);
				const auto r = muu::bit_pack(v...);
				constexpr size_t total = (sizeof(T) + ...);
				static_assert(sizeof(r) >= total && sizeof(r) < 2 * total + (total == 1), "smallest integer that holds all");
				static_assert(std::is_unsigned_v<decltype(muu::bit_pack(v...))> || sizeof(r) == 16);
				NOTE("bit_pack of " << sizeof...(T) << " values, " << total << " bytes -> " << show128(e));
				CHECK(as_bits(r) == e, "bit_pack gave " << show128(as_bits(r)) << ", expected " << show128(e));
				if constexpr (total <= 8)
				{
					const u128 w = static_cast<u128>(muu::bit_pack<uint64_t>(v...));
					CHECK(w == e, "bit_pack<uint64_t> gave " << show128(w) << ", expected " << show128(e));
					const u128 w2 = muu::bit_pack<u128>(v...);
					CHECK(w2 == e, "bit_pack<uint128_t> gave " << show128(w2) << ", expected " << show128(e));
					const int64_t s = muu::bit_pack<int64_t>(v...);
					CHECK(static_cast<uint64_t>(s) == static_cast<uint64_t>(e), "bit_pack<int64_t> gave " << s << ", expected " << show128(e));
				}
				if constexpr (total <= 4)
				{
					const auto s = muu::bit_pack<es32>(v...);
					CHECK(as_bits(s) == e, "bit_pack<enum> gave " << show128(as_bits(s)) << ", expected " << show128(e));
				}
				c.nontrivial(e != 0);
			},
			t);
	}

	template <typename T, size_t... I>
	void select_static(T v, std::index_sequence<I...>)
	{
		(
			[&]
			{
				CHECK_EQ(muu::byte_select<I>(v), ref_byte(v, I), "byte_select<" << I << ">(" << show128(ref_bits(v)) << ")");
			}(),
			...);
		// packing every byte, most significant first, restores the value
		if constexpr (sizeof...(I) > 1)
		{
			const auto back = muu::bit_pack(muu::byte_select<sizeof...(I) - 1 - I>(v)...);
			CHECK(as_bits(back) == ref_bits(v), "re-packing all bytes of " << show128(ref_bits(v)) << " gave " << show128(as_bits(back)));
			const auto same = muu::swizzle<(sizeof...(I) - 1 - I)...>(v);
			static_assert(std::is_same_v<decltype(muu::swizzle<(sizeof...(I) - 1 - I)...>(v)), T>);
			CHECK(as_bits(same) == ref_bits(v), "identity swizzle of " << show128(ref_bits(v)) << " gave " << show128(as_bits(same)));
			const auto rev = muu::swizzle<I...>(v);
			u128 e		   = 0;
			((e = (e << 8) | ref_byte(v, I)), ...);
			CHECK(as_bits(rev) == e, "reversing swizzle of " << show128(ref_bits(v)) << " gave " << show128(as_bits(rev)));
		}
	}
	template <typename T, size_t... I>
	void swz(T v)
	{
		const auto r = muu::swizzle<I...>(v);
		u128 e		 = 0;
		((e = (e << 8) | ref_byte(v, I)), ...);
		CHECK(as_bits(r) == e, "swizzle of " << show128(ref_bits(v)) << " with " << sizeof...(I) << " indices gave " << show128(as_bits(r)) << " expected " << show128(e));
		static_assert(sizeof(r) >= sizeof...(I));
	}

	template <typename T>
	void select_case(pbt::Case& c)
	{
		T v = gen<T>(c);
		launder_value(v);
		c.nontrivial(ref_bits(v) != 0);
		NOTE(sizeof(T) << "-byte value " << show128(ref_bits(v)));
		select_static(v, std::make_index_sequence<sizeof(T)>{});
		for (size_t i = 0; i < sizeof(T) + 4; i++)
			CHECK_EQ(muu::byte_select(v, i), ref_byte(v, i), "byte_select(" << show128(ref_bits(v)) << ", " << i << ") of " << sizeof(T) << " bytes");
		for (size_t i : { size_t{ 64 }, size_t{ 128 }, SIZE_MAX / 8 + 1, SIZE_MAX })
			CHECK_EQ(muu::byte_select(v, i), 0, "byte_select out of range " << i);
		swz<T, 0>(v);
		swz<T, 0, 0, 0>(v);
		if constexpr (sizeof(T) >= 2)
		{
			swz<T, 1>(v);
			swz<T, 1, 0, 1>(v);
			swz<T, 0, 1, 1, 0, 1>(v);
		}
		if constexpr (sizeof(T) >= 4)
		{
			swz<T, 3, 2, 3>(v);
			swz<T, 2, 0>(v);
			swz<T, 0, 3, 1, 2, 3, 3, 0>(v);
			swz<T, 3, 3, 3, 3, 2, 2, 2, 2, 1, 1, 1, 1, 0, 0, 0, 0>(v);
		}
		if constexpr (sizeof(T) >= 8)
		{
			swz<T, 7, 4, 6, 5>(v);
			swz<T, 7>(v);
			swz<T, 5, 6, 7, 0, 1>(v);
		}
	}

	// ---- constant evaluation
	template <typename T>
	struct ct
	{
		arr<T, 24> in;
		arr<arr<uint8_t, sizeof(T) + 2>, 24> bytes;
		arr<T, 24> rebuilt;
	};
	template <typename T, size_t... I>
	constexpr T rebuild(T v, std::index_sequence<I...>)
	{
		return muu::bit_pack<T>(muu::byte_select<sizeof...(I) - 1 - I>(v)...);
	}
	template <typename T>
	constexpr ct<T> ct_eval()
	{
		ct<T> b{};
		crng r(VERIF_SEED + 31 * sizeof(T));
		for (size_t i = 0; i < 24; i++)
		{
			b.in[i] = static_cast<T>(r.integer<std::conditional_t<(sizeof(T) > 8), u128, uint64_t>>());
			for (size_t k = 0; k < sizeof(T) + 2; k++)
				b.bytes[i][k] = muu::byte_select(b.in[i], k);
			b.rebuilt[i] = rebuild(b.in[i], std::make_index_sequence<sizeof(T)>{});
		}
		return b;
	}
	template <typename T>
	void ct_check(pbt::Case& c)
	{
		static constexpr auto b = ct_eval<T>();
		for (size_t i = 0; i < 24; i++)
		{
			for (size_t k = 0; k < sizeof(T) + 2; k++)
				CHECK_EQ(b.bytes[i][k], ref_byte(b.in[i], k), "constant-evaluated byte_select of " << show128(ref_bits(b.in[i])) << " at " << k);
			CHECK(b.rebuilt[i] == b.in[i], "constant-evaluated re-packing of " << show128(ref_bits(b.in[i])));
		}
		c.enumerated(24, 24);
	}
} // namespace

using i8 = int8_t;
using i16 = int16_t;
using i32 = int32_t;
using i64 = int64_t;
using u8 = uint8_t;
using u16 = uint16_t;
using u32 = uint32_t;
using u64 = uint64_t;
PROP_T("pack u8,u8", 8000, 200000, (pack_case<u8, u8>));
PROP_T("pack i8,u8", 8000, 200000, (pack_case<i8, u8>));
PROP_T("pack i8,i16,i8", 8000, 200000, (pack_case<i8, i16, i8>));
PROP_T("pack u16,u8", 8000, 200000, (pack_case<u16, u8>));
PROP_T("pack u8,u16", 8000, 200000, (pack_case<u8, u16>));
PROP_T("pack u8 x7", 8000, 200000, (pack_case<u8, i8, u8, i8, u8, u8, i8>));
PROP_T("pack i32,u32", 8000, 200000, (pack_case<i32, u32>));
PROP_T("pack u32,i16,u8", 8000, 200000, (pack_case<u32, i16, u8>));
PROP_T("pack i8,u32,u16", 8000, 200000, (pack_case<i8, u32, u16>));
PROP_T("pack u64,u64", 8000, 200000, (pack_case<u64, u64>));
PROP_T("pack i64,u32,i8", 8000, 200000, (pack_case<i64, u32, i8>));
PROP_T("pack char,uchar,bool-free", 8000, 200000, (pack_case<char, unsigned char, signed char, char16_t>));
PROP_T("pack enum,enum", 8000, 200000, (pack_case<e8, e16>));
PROP_T("pack enum,int", 8000, 200000, (pack_case<es8, u8, i16>));
PROP_T("pack int,enum", 8000, 200000, (pack_case<i16, es8>));
PROP_T("pack char32,wchar", 8000, 200000, (pack_case<char32_t, wchar_t>));
PROP_T("select u8", 8000, 200000, (select_case<u8>));
PROP_T("select i8", 8000, 200000, (select_case<i8>));
PROP_T("select u16", 8000, 200000, (select_case<u16>));
PROP_T("select i16", 8000, 200000, (select_case<i16>));
PROP_T("select u32", 8000, 200000, (select_case<u32>));
PROP_T("select i32", 8000, 200000, (select_case<i32>));
PROP_T("select u64", 8000, 200000, (select_case<u64>));
PROP_T("select i64", 8000, 200000, (select_case<i64>));
PROP_T("select u128", 8000, 200000, (select_case<u128>));
PROP_T("select i128", 8000, 200000, (select_case<i128>));
PROP_T("select enum u8", 8000, 200000, (select_case<e8>));
PROP_T("select enum i32", 8000, 200000, (select_case<es32>));
PROP_T("select enum u64", 8000, 200000, (select_case<e64>));
PROP_T("select char16_t", 8000, 200000, (select_case<char16_t>));
PROP_T("constexpr u16", 1, 1, (ct_check<u16>));
PROP_T("constexpr i32", 1, 1, (ct_check<i32>));
PROP_T("constexpr u64", 1, 1, (ct_check<u64>));
PROP_T("constexpr u128", 1, 1, (ct_check<u128>));
