#include "common.hpp"
#include <muu/bit.h>
#include <type_traits>

namespace
{
	enum class e8 : uint8_t {};
	enum class e16 : uint16_t {};
	enum class e32 : uint32_t {};
	enum class e64 : uint64_t {};

	template <typename T>
	struct results
	{
		int lz{}, lo{}, rz{}, ro{}, pc{};
		bool single{};
		T floor{}, ceil{}, width{}, rev{}, fr{}, fl{};
		bool has_ceil{};
	};

	// ---- bit-by-bit reference
	template <typename T>
	constexpr bool bit_at(T v, unsigned i)
	{
		return ((v >> i) & T{ 1 }) != T{ 0 };
	}
	template <typename T>
	constexpr unsigned width_of()
	{
		return sizeof(T) * 8u;
	}
	template <typename T>
	constexpr results<T> reference(T v, size_t cnt)
	{
		constexpr unsigned W = width_of<T>();
		results<T> r{};
		for (unsigned i = W; i-- > 0 && !bit_at(v, i);)
			r.lz++;
		for (unsigned i = W; i-- > 0 && bit_at(v, i);)
			r.lo++;
		for (unsigned i = 0; i < W && !bit_at(v, i); i++)
			r.rz++;
		for (unsigned i = 0; i < W && bit_at(v, i); i++)
			r.ro++;
		for (unsigned i = 0; i < W; i++)
			r.pc += bit_at(v, i) ? 1 : 0;
		r.single = r.pc == 1;
		r.width	 = static_cast<T>(W - static_cast<unsigned>(r.lz));
		r.floor	 = v ? static_cast<T>(static_cast<T>(1) << (W - 1u - static_cast<unsigned>(r.lz))) : T{};
		// smallest power of two >= v, when representable
		for (unsigned i = 0; i < W; i++)
			if (static_cast<T>(static_cast<T>(1) << i) >= v)
			{
				r.ceil	   = static_cast<T>(static_cast<T>(1) << i);
				r.has_ceil = true;
				break;
			}
		for (unsigned b = 0; b < sizeof(T); b++)
			r.rev = static_cast<T>(r.rev | static_cast<T>(static_cast<T>(static_cast<T>(v >> (8 * b)) & static_cast<T>(0xFF)) << (8 * (sizeof(T) - 1 - b))));
		for (unsigned i = 0; i < W; i++)
		{
			if (i < cnt)
				r.fr = static_cast<T>(r.fr | static_cast<T>(static_cast<T>(1) << i));
			if (W - 1 - i < cnt)
				r.fl = static_cast<T>(r.fl | static_cast<T>(static_cast<T>(1) << i));
		}
		return r;
	}

	template <typename T>
	inline constexpr bool can_reverse = std::is_same_v<T, uint16_t> || std::is_same_v<T, uint32_t> || std::is_same_v<T, uint64_t> || std::is_same_v<T, u128>;

	template <typename T>
	constexpr results<T> actual(T v, size_t cnt, bool do_ceil)
	{
		results<T> r{};
		r.lz	 = muu::countl_zero(v);
		r.lo	 = muu::countl_one(v);
		r.rz	 = muu::countr_zero(v);
		r.ro	 = muu::countr_one(v);
		r.pc	 = muu::popcount(v);
		r.single = muu::has_single_bit(v);
		r.floor	 = muu::bit_floor(v);
		r.has_ceil = do_ceil;
		if (do_ceil)
			r.ceil = muu::bit_ceil(v);
		r.width = muu::bit_width(v);
		if constexpr (can_reverse<T>)
			r.rev = muu::byte_reverse(v);
		r.fr = muu::bit_fill_right<T>(cnt);
		r.fl = muu::bit_fill_left<T>(cnt);
		return r;
	}

	template <typename T, typename E>
	results<T> actual_enum(T val, size_t cnt, bool do_ceil)
	{
		const E v = static_cast<E>(val);
		results<T> r{};
		r.lz	   = muu::countl_zero(v);
		r.lo	   = muu::countl_one(v);
		r.rz	   = muu::countr_zero(v);
		r.ro	   = muu::countr_one(v);
		r.pc	   = muu::popcount(v);
		r.single   = muu::has_single_bit(v);
		r.floor	   = static_cast<T>(muu::bit_floor(v));
		r.has_ceil = do_ceil;
		if (do_ceil)
			r.ceil = static_cast<T>(muu::bit_ceil(v));
		r.width = static_cast<T>(muu::bit_width(v));
		if constexpr (can_reverse<T>)
			r.rev = static_cast<T>(muu::byte_reverse(v));
		r.fr = static_cast<T>(muu::bit_fill_right<E>(cnt));
		r.fl = static_cast<T>(muu::bit_fill_left<E>(cnt));
		return r;
	}

	template <typename T>
	void compare(const results<T>& a, const results<T>& e, T v, size_t cnt, const char* how)
	{
#define F(name)                                                                                                       \
	CHECK(a.name == e.name, #name << "(" << show128(v) << ") width " << width_of<T>() << " count " << cnt << " " << how  \
								   << ": got " << show128(static_cast<u128>(a.name)) << " expected " << show128(static_cast<u128>(e.name)))
		F(lz);
		F(lo);
		F(rz);
		F(ro);
		F(pc);
		F(single);
		F(floor);
		if (e.has_ceil)
			F(ceil);
		F(width);
		if constexpr (can_reverse<T>)
		{
			F(rev);
			CHECK(muu::byte_reverse(a.rev) == v, "byte_reverse is an involution");
		}
		F(fr);
		F(fl);
#undef F
	}

	template <typename T>
	void one(T v, size_t cnt)
	{
		const auto e = reference<T>(v, cnt);
		launder_value(v);
		compare(actual<T>(v, cnt, e.has_ceil), e, v, cnt, "run time");
		if constexpr (sizeof(T) <= 8)
		{
			using E = std::conditional_t<sizeof(T) == 1, e8, std::conditional_t<sizeof(T) == 2, e16, std::conditional_t<sizeof(T) == 4, e32, e64>>>;
			if constexpr (std::is_same_v<T, std::underlying_type_t<E>>)
				compare(actual_enum<T, E>(v, cnt, e.has_ceil), e, v, cnt, "enum");
		}
	}

	// ---- compile-time evaluation
	constexpr size_t NCT = 48;
	template <typename T>
	struct ct_block
	{
		arr<T, NCT> in;
		arr<size_t, NCT> cnt;
		arr<results<T>, NCT> out;
	};
	template <typename T>
	constexpr ct_block<T> ct_eval()
	{
		ct_block<T> b{};
		crng r(VERIF_SEED + sizeof(T) * 977);
		for (size_t i = 0; i < NCT; i++)
		{
			b.in[i]	 = i == 0 ? T{} : i == 1 ? static_cast<T>(~T{}) : r.integer<T>();
			b.cnt[i] = static_cast<size_t>(r.below(sizeof(T) * 8 + 3));
			const auto top = static_cast<T>(static_cast<T>(1) << (sizeof(T) * 8 - 1));
			b.out[i]	   = actual<T>(b.in[i], b.cnt[i], b.in[i] <= top);
		}
		return b;
	}
	template <typename T>
	void ct_check(pbt::Case& c)
	{
		static constexpr auto b = ct_eval<T>();
		for (size_t i = 0; i < NCT; i++)
		{
			compare(b.out[i], reference<T>(b.in[i], b.cnt[i]), b.in[i], b.cnt[i], "constant evaluation");
			one<T>(b.in[i], b.cnt[i]);
		}
		NOTE("constant-evaluated " << NCT << " values of width " << width_of<T>() << ", e.g. " << show128(b.in[5]));
		c.enumerated(NCT, NCT - 2);
	}

	template <typename T>
	void all_values(pbt::Case& c)
	{
		uint64_t n = 0;
		for (uint32_t v = 0; v <= static_cast<uint32_t>(static_cast<T>(~T{})); v++, n++)
			one<T>(static_cast<T>(v), v % (sizeof(T) * 8 + 2));
		NOTE("all values of width " << width_of<T>());
		c.enumerated(n, n - 2);
	}

	template <typename T>
	void random_values(pbt::Case& c)
	{
		T v;
		if constexpr (sizeof(T) == 16)
		{
			switch (c.raw(3))
			{
				case 0: v = c.integer<uint64_t>(); break;
				case 1: v = static_cast<T>(c.integer<uint64_t>()) << 64; break;
				case 2: v = ~static_cast<T>(c.integer<uint64_t>()); break;
				default:
				{
					v = static_cast<T>(c.integer<uint64_t>()) << 64;
					v |= c.integer<uint64_t>();
				}
			}
		}
		else
			v = c.integer<T>();
		const auto cnt = c.sz(0, sizeof(T) * 8 + 2);
		NOTE("value " << show128(v) << " count " << cnt);
		c.nontrivial(v != T{} && v != static_cast<T>(~T{}));
		c.cls(v == T{}, "zero");
		c.cls(v == static_cast<T>(~T{}), "all ones");
		one<T>(v, cnt);
	}

	template <typename A, typename B>
	void cast_pair(pbt::Case& c)
	{
		A a;
		uint64_t raw = c.integer<uint64_t>();
		std::memcpy(&a, &raw, sizeof(A));
		const B b = muu::bit_cast<B>(a);
		CHECK(std::memcmp(&a, &b, sizeof(A)) == 0, "bit_cast changed the bytes of " << raw);
		const A back = muu::bit_cast<A>(b);
		CHECK(std::memcmp(&a, &back, sizeof(A)) == 0, "bit_cast round trip of " << raw);
	}
	struct four
	{
		uint8_t a, b;
		int16_t c;
	};
	struct no_default
	{
		int32_t a, b;
		constexpr no_default(int32_t x) : a(x), b(x) {}
	};
} // namespace

PROP(exhaustive_8, 1, 1)
{
	all_values<uint8_t>(c);
}
PROP(exhaustive_16, 1, 1)
{
	all_values<uint16_t>(c);
}
PROP(u32_values, 150000, 3000000)
{
	random_values<uint32_t>(c);
}
PROP(u64_values, 150000, 3000000)
{
	random_values<uint64_t>(c);
}
PROP(ull_values, 50000, 1000000)
{
	random_values<unsigned long long>(c);
}
PROP(u128_values, 150000, 3000000)
{
	random_values<u128>(c);
}
PROP(bit_cast_roundtrip, 60000, 600000)
{
	cast_pair<uint32_t, float>(c);
	cast_pair<uint64_t, double>(c);
	cast_pair<uint64_t, int64_t>(c);
	cast_pair<uint32_t, four>(c);
	cast_pair<double, int64_t>(c);
	cast_pair<int16_t, uint16_t>(c);
	cast_pair<e32, float>(c);
	{
		uint64_t raw = c.integer<uint64_t>();
		auto nd		 = muu::bit_cast<no_default>(raw);
		CHECK(std::memcmp(&nd, &raw, 8) == 0, "bit_cast to a type without default constructor");
	}
	NOTE("bit_cast of generated bit patterns");
	c.nontrivial();
}
PROP(compile_time_8, 1, 1) { ct_check<uint8_t>(c); }
PROP(compile_time_16, 1, 1) { ct_check<uint16_t>(c); }
PROP(compile_time_32, 1, 1) { ct_check<uint32_t>(c); }
PROP(compile_time_64, 1, 1) { ct_check<uint64_t>(c); }
PROP(compile_time_128, 1, 1) { ct_check<u128>(c); }
