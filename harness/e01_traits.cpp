// E01: the type traits and type transformations of <muu/meta.h> against an independent description of each type.
#include "common.hpp"
#include <muu/core.h>
#include <muu/meta.h>
#include <muu/half.h>
#include <array>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <shared_mutex>
#include <string>
#include <tuple>
#include <type_traits>
#include <vector>
#ifndef PART
	#define PART 0
#endif
namespace
{
	enum class sc_u8 : uint8_t { a };
	enum class sc_i64 : int64_t { a };
	enum class sc_dflt { a };
	enum class sc_char : char { a };
	enum class sc_bool : bool { a };
	enum lg_u16 : uint16_t { lg_u16_a };
	enum lg_i32 : int32_t { lg_i32_a };
	struct empty {};
	struct plain_class { int a; };
	struct alignas(32) over_aligned { char a; };
	struct derived : plain_class {};
	struct derived_twice : derived {};
	struct private_base : private empty {};
	union onion { int a; char b; };
	struct nontrivial { nontrivial(const nontrivial&); ~nontrivial(); int a; };

	// ---- what each base type is
	enum kind
	{
		k_void, k_null, k_bool, k_char, k_int, k_float, k_xfloat, k_scoped, k_legacy, k_ptr, k_fptr, k_mptr, k_class, k_union, k_barray, k_uarray, k_func
	};
	template <size_t I>
	struct base;
	struct info
	{
		const char* name;
		kind k;
		int sign; // -1 signed, 1 unsigned, 0 neither; of the underlying type for enums
		bool standard; // std::is_arithmetic
		int stars;
	};
	constexpr size_t first = __COUNTER__ + 1;
#define TYPE(id, kind_, sign_, std_, stars_, to_signed, to_unsigned, to_under, ...)                                    \
	template <>                                                                                                        \
	struct base<__COUNTER__ - first>                                                                                   \
	{                                                                                                                  \
		using type = __VA_ARGS__;                                                                                      \
		using make_signed = to_signed;                                                                                 \
		using make_unsigned = to_unsigned;                                                                             \
		using underlying = to_under;                                                                                   \
		static constexpr info i{ #id, kind_, sign_, std_, stars_ };                                                    \
	};
	struct none; // no such transformation claimed
	using func = int(float, char*);
	using func0 = void();
	using nfunc = int(int) noexcept;
	TYPE(void, k_void, 0, false, 0, none, none, none, void)
	TYPE(nullptr_t, k_null, 0, false, 0, none, none, none, std::nullptr_t)
	TYPE(bool, k_bool, 1, true, 0, none, none, none, bool)
	TYPE(char, k_char, std::is_signed_v<char> ? -1 : 1, true, 0, signed char, unsigned char, none, char)
	TYPE(wchar_t, k_char, std::is_signed_v<wchar_t> ? -1 : 1, true, 0, wchar_t, unsigned int, none, wchar_t)
	TYPE(char16_t, k_char, 1, true, 0, none, char16_t, none, char16_t)
	TYPE(char32_t, k_char, 1, true, 0, none, char32_t, none, char32_t)
#ifdef __cpp_char8_t
	TYPE(char8_t, k_char, 1, true, 0, none, char8_t, none, char8_t)
#endif
	TYPE(signed char, k_int, -1, true, 0, signed char, unsigned char, none, signed char)
	TYPE(unsigned char, k_int, 1, true, 0, signed char, unsigned char, none, unsigned char)
	TYPE(short, k_int, -1, true, 0, short, unsigned short, none, short)
	TYPE(unsigned short, k_int, 1, true, 0, short, unsigned short, none, unsigned short)
	TYPE(int, k_int, -1, true, 0, int, unsigned, none, int)
	TYPE(unsigned, k_int, 1, true, 0, int, unsigned, none, unsigned)
	TYPE(long, k_int, -1, true, 0, long, unsigned long, none, long)
	TYPE(unsigned long, k_int, 1, true, 0, long, unsigned long, none, unsigned long)
	TYPE(long long, k_int, -1, true, 0, long long, unsigned long long, none, long long)
	TYPE(unsigned long long, k_int, 1, true, 0, long long, unsigned long long, none, unsigned long long)
	TYPE(int128, k_int, -1, std::is_arithmetic_v<__int128>, 0, __int128, unsigned __int128, none, __int128)
	TYPE(uint128, k_int, 1, std::is_arithmetic_v<__int128>, 0, __int128, unsigned __int128, none, unsigned __int128)
	TYPE(float, k_float, -1, true, 0, float, none, none, float)
	TYPE(double, k_float, -1, true, 0, double, none, none, double)
	TYPE(long double, k_float, -1, true, 0, long double, none, none, long double)
	TYPE(half, k_xfloat, -1, std::is_arithmetic_v<muu::half>, 0, muu::half, none, none, muu::half)
#if MUU_HAS_FLOAT16
	TYPE(_Float16, k_xfloat, -1, std::is_arithmetic_v<_Float16>, 0, _Float16, none, none, _Float16)
#endif
#if MUU_HAS_FLOAT128
	TYPE(float128, k_xfloat, -1, std::is_arithmetic_v<muu::float128_t>, 0, muu::float128_t, none, none, muu::float128_t)
#endif
	TYPE(sc_u8, k_scoped, 1, false, 0, none, none, uint8_t, sc_u8)
	TYPE(sc_i64, k_scoped, -1, false, 0, none, none, int64_t, sc_i64)
	TYPE(sc_dflt, k_scoped, -1, false, 0, none, none, int, sc_dflt)
	TYPE(sc_char, k_scoped, std::is_signed_v<char> ? -1 : 1, false, 0, none, none, char, sc_char)
	TYPE(sc_bool, k_scoped, 1, false, 0, none, none, bool, sc_bool)
	TYPE(lg_u16, k_legacy, 1, false, 0, none, none, uint16_t, lg_u16)
	TYPE(lg_i32, k_legacy, -1, false, 0, none, none, int32_t, lg_i32)
	TYPE(int*, k_ptr, 0, false, 1, none, none, none, int*)
	TYPE(const void*, k_ptr, 0, false, 1, none, none, none, const void*)
	TYPE(sc_u8*, k_ptr, 0, false, 1, none, none, none, sc_u8*)
	TYPE(plain**, k_ptr, 0, false, 2, none, none, none, plain_class**)
	TYPE(float volatile* const*, k_ptr, 0, false, 2, none, none, none, float volatile* const*)
	TYPE(int****, k_ptr, 0, false, 4, none, none, none, int** volatile* const*)
	TYPE(int(*)[3], k_ptr, 0, false, 1, none, none, none, int(*)[3])
	TYPE(func*, k_fptr, 0, false, 1, none, none, none, func*)
	TYPE(func0*, k_fptr, 0, false, 1, none, none, none, func0*)
	TYPE(nfunc*, k_fptr, 0, false, 1, none, none, none, nfunc*)
	TYPE(func**, k_ptr, 0, false, 2, none, none, none, func**)
	TYPE(int plain::*, k_mptr, 0, false, 0, none, none, none, int plain_class::*)
	TYPE(int (plain::*)(int) const, k_mptr, 0, false, 0, none, none, none, int (plain_class::*)(int) const)
	TYPE(empty, k_class, 0, false, 0, none, none, none, empty)
	TYPE(plain, k_class, 0, false, 0, none, none, none, plain_class)
	TYPE(over_aligned, k_class, 0, false, 0, none, none, none, over_aligned)
	TYPE(onion, k_union, 0, false, 0, none, none, none, onion)
	TYPE(string, k_class, 0, false, 0, none, none, none, std::string)
	TYPE(int[3], k_barray, 0, false, 0, none, none, none, int[3])
	TYPE(char[1], k_barray, 0, false, 0, none, none, none, char[1])
	TYPE(sc_u8[2][5], k_barray, 0, false, 0, none, none, none, sc_u8[2][5])
	TYPE(int*[7], k_barray, 0, false, 0, none, none, none, int*[7])
	TYPE(int[], k_uarray, 0, false, 0, none, none, none, int[])
	TYPE(plain[][4], k_uarray, 0, false, 0, none, none, none, plain_class[][4])
	TYPE(func, k_func, 0, false, 0, none, none, none, func)
	TYPE(func0, k_func, 0, false, 0, none, none, none, func0)
	TYPE(nfunc, k_func, 0, false, 0, none, none, none, nfunc)
	constexpr size_t num_bases = __COUNTER__ - first;
	static_assert(num_bases > 50);

	// base type I with const, volatile and reference (0 none, 1 &, 2 &&); functions and void ignore what does not apply
	template <typename B, bool C, bool V, int R>
	struct qual
	{
		using c	   = std::conditional_t<C, const B, B>;
		using cv   = std::conditional_t<V, volatile c, c>;
		using type = std::conditional_t<R == 0 || std::is_void_v<B>, cv, std::conditional_t<R == 1, std::add_lvalue_reference_t<cv>, std::add_rvalue_reference_t<cv>>>;
	};
	template <typename B, bool C, bool V, int R>
	using q = typename qual<B, C, V, R>::type;

	// (not expanded in place, or compiling would take minutes)
	void judge(pbt::Case& c, bool ok, const char* what, const char* name, bool is_c, bool is_v, int ref)
	{
		CHECK(ok, "for " << name << (is_c ? " const" : "") << (is_v ? " volatile" : "") << (ref == 1 ? " &" : ref == 2 ? " &&" : "") << ": " << what);
	}
	void judge(pbt::Case& c, bool got, bool want, const char* what)
	{
		CHECK_EQ(got, want, what);
	}
#define SAME(...) judge(c, std::is_same_v<__VA_ARGS__>, "same types: " #__VA_ARGS__, B::i.name, C, V, R)
#define IS(expr, want) judge(c, bool(muu::expr) == bool(want), #expr " should be " #want, B::i.name, C, V, R)

	// ---- one base type with one set of qualifiers: every predicate and transformation of one type
	template <typename B, bool C, bool V, int R>
	void unary(pbt::Case& c)
	{
		using b				= typename B::type;
		using T				= q<b, C, V, R>;
		constexpr auto k	= B::i.k;
		constexpr bool func = k == k_func, ref = R != 0 && k != k_void;
		constexpr bool can_cv = !func; // cv on a function type means nothing
		// predicates about what it is
		IS(is_enum<T>, k == k_scoped || k == k_legacy);
		IS(is_scoped_enum<T>, k == k_scoped);
		IS(is_legacy_enum<T>, k == k_legacy);
		IS(is_unsigned<T>, B::i.sign == 1);
		IS(is_signed<T>, B::i.sign == -1);
		IS(is_integral<T>, k == k_bool || k == k_char || k == k_int || k == k_scoped || k == k_legacy);
		IS(is_integer<T>, k == k_int);
		IS(is_floating_point<T>, k == k_float || k == k_xfloat);
		IS(is_arithmetic<T>, k == k_bool || k == k_char || k == k_int || k == k_float || k == k_xfloat);
		IS(is_standard_arithmetic<T>, B::i.standard);
		constexpr bool extended = k == k_xfloat || std::is_same_v<b, __int128> || std::is_same_v<b, unsigned __int128>;
		IS(is_extended_arithmetic<T>, extended);
		IS(is_code_unit<T>, k == k_char);
		IS(is_character<T>, k == k_char);
		IS(is_unbounded_array<T>, k == k_uarray);
		IS(is_bounded_array<T>, k == k_barray);
		IS(is_array<T>, k == k_uarray || k == k_barray);
		IS(is_function<T>, func);
		IS(is_function_pointer<T>, k == k_fptr);
		// qualifiers
		IS(is_const<T>, C && can_cv);
		IS(is_volatile<T>, V && can_cv);
		IS(is_cvref<T>, ref || ((C || V) && can_cv));
		if constexpr (!ref)
			IS(is_cv<T>, (C || V) && can_cv);
		SAME(muu::remove_cvref<T>, b);
		SAME(muu::add_const<T>, q<b, true, V, R>);
		SAME(muu::remove_const<T>, q<b, false, V, R>);
		SAME(muu::add_volatile<T>, q<b, C, true, R>);
		SAME(muu::remove_volatile<T>, q<b, C, false, R>);
		SAME(muu::add_cv<T>, q<b, true, true, R>);
		SAME(muu::remove_cv<T>, q<b, false, false, R>);
		SAME(muu::set_const<T, true>, q<b, true, V, R>);
		SAME(muu::set_const<T, false>, q<b, false, V, R>);
		SAME(muu::set_volatile<T, true>, q<b, C, true, R>);
		SAME(muu::set_volatile<T, false>, q<b, C, false, R>);
		SAME(muu::set_cv<T, true>, q<b, true, true, R>);
		SAME(muu::set_cv<T, false>, q<b, false, false, R>);
		SAME(muu::conditionally_add_const<T, true>, q<b, true, V, R>);
		SAME(muu::conditionally_add_const<T, false>, T);
		SAME(muu::conditionally_add_volatile<T, true>, q<b, C, true, R>);
		SAME(muu::conditionally_add_volatile<T, false>, T);
		SAME(muu::conditionally_add_cv<T, true>, q<b, true, true, R>);
		SAME(muu::conditionally_add_cv<T, false>, T);
		SAME(muu::remove_lvalue_reference<T>, std::conditional_t<R == 1, q<b, C, V, 0>, T>);
		SAME(muu::remove_rvalue_reference<T>, std::conditional_t<R == 2, q<b, C, V, 0>, T>);
		SAME(muu::make_cref<T>, q<b, true, false, k == k_void ? 0 : 1>);
		SAME(muu::type_identity<T>, T);
		if constexpr (k == k_scoped || k == k_legacy)
			SAME(muu::remove_enum<T>, q<typename B::underlying, C, V, R>);
		else
			SAME(muu::remove_enum<T>, T);
		if constexpr (!std::is_same_v<typename B::make_signed, none>)
		{
			SAME(muu::make_signed<T>, q<typename B::make_signed, C, V, R>);
			SAME(muu::set_unsigned<T, false>, q<typename B::make_signed, C, V, R>);
			SAME(muu::set_signed<T, true>, q<typename B::make_signed, C, V, R>);
		}
		if constexpr (!std::is_same_v<typename B::make_unsigned, none>)
		{
			using U = typename B::make_unsigned;
			SAME(muu::make_unsigned<T>, q<U, C, V, R>);
			SAME(muu::set_unsigned<T, true>, q<U, C, V, R>);
			SAME(muu::set_signed<T, false>, q<U, C, V, R>);
			SAME(muu::copy_signed<T, unsigned long volatile&&>, q<U, C, V, R>);
			SAME(muu::copy_unsigned<T, sc_u8>, q<U, C, V, R>);
		}
		if constexpr (!std::is_same_v<typename B::make_unsigned, none> && !std::is_same_v<typename B::make_signed, none> && k != k_char)
		{
			using U = typename B::make_unsigned;
			using S = typename B::make_signed;
			SAME(muu::copy_signed<T, const short&>, q<S, C, V, R>);
			SAME(muu::copy_unsigned<T, const __int128>, q<S, C, V, R>);
			using X	 = muu::vector<b, 3>;
			using XS = muu::vector<S, 3>;
			using XU = muu::vector<U, 3>;
			SAME(muu::make_signed<q<X, C, V, R>>, q<XS, C, V, R>);
			SAME(muu::make_unsigned<q<X, C, V, R>>, q<XU, C, V, R>);
			using M	 = muu::matrix<b, 2, 5>;
			using MS = muu::matrix<S, 2, 5>;
			using MU = muu::matrix<U, 2, 5>;
			SAME(muu::make_signed<q<M, C, V, R>>, q<MS, C, V, R>);
			SAME(muu::make_unsigned<q<M, C, V, R>>, q<MU, C, V, R>);
		}
		// floating-point promotions
		constexpr bool small = k == k_xfloat && sizeof(std::conditional_t<func || k == k_void || k == k_uarray, char, b>) == 2;
		constexpr bool large = k == k_xfloat && !small;
		if constexpr (k != k_void && k != k_func && k != k_uarray)
		{
		SAME(muu::promote_if_small_float<T>, std::conditional_t<small, q<float, C, V, R>, T>);
		SAME(muu::demote_if_large_float<T>, std::conditional_t<large, q<long double, C, V, R>, T>);
		SAME(muu::clamp_to_standard_float<T>, std::conditional_t<small, q<float, C, V, R>, std::conditional_t<large, q<long double, C, V, R>, T>>);
		}
		// pointers
		if constexpr (!ref)
			CHECK_EQ(muu::pointer_rank<T>, static_cast<size_t>(B::i.stars), "pointer_rank of " << B::i.name);
		if constexpr (!ref && B::i.stars > 0)
		{
			using once = std::remove_pointer_t<b>;
			SAME(muu::remove_all_pointers<T>, muu::remove_all_pointers<once>);
			static_assert(!std::is_pointer_v<muu::remove_all_pointers<T>>);
		}
		else if constexpr (!ref)
			SAME(muu::remove_all_pointers<T>, T);
		if constexpr (B::i.stars > 0 && k != k_fptr)
		{
			// only what is pointed to keeps its qualifiers
			using p		 = std::remove_pointer_t<b>;
			constexpr bool pc = std::is_const_v<p>, pv = std::is_volatile_v<p>;
			using want = q<q<float, pc, pv, 0>*, false, false, R>;
			if constexpr (!C && !V)
				SAME(muu::rebase_pointer<T, float>, want);
			else
				SAME(muu::remove_cv<muu::rebase_pointer<T, float>>, want);
		}
		// sizes
		if constexpr (k != k_uarray)
		{
			constexpr size_t size = [] {
				if constexpr (k == k_void || k == k_func)
					return size_t{};
				else
					return sizeof(b);
			}();
			constexpr size_t align = [] {
				if constexpr (k == k_void || k == k_func)
					return size_t{};
				else
					return alignof(b);
			}();
			CHECK_EQ(muu::total_size<T>, size, "total_size of " << B::i.name);
			CHECK_EQ((muu::total_size<T, char[3], T, void>), 2 * size + 3, "total_size with " << B::i.name);
			CHECK_EQ(muu::alignment_of<T>, align, "alignment_of " << B::i.name);
		}
		c.nontrivial(true);
	}
	template <typename B>
	void all_quals(pbt::Case& c)
	{
		NOTE(B::i.name);
		unary<B, 0, 0, 0>(c), unary<B, 1, 0, 0>(c), unary<B, 0, 1, 0>(c), unary<B, 1, 1, 0>(c);
		unary<B, 0, 0, 1>(c), unary<B, 1, 0, 1>(c), unary<B, 0, 1, 1>(c), unary<B, 1, 1, 1>(c);
		unary<B, 0, 0, 2>(c), unary<B, 1, 0, 2>(c), unary<B, 0, 1, 2>(c), unary<B, 1, 1, 2>(c);
	}
	template <size_t... I>
	void every_base(pbt::Case& c, size_t which, std::index_sequence<I...>)
	{
		((which == I ? all_quals<base<I * 4 + PART % 4>>(c) : (void)0), ...);
	}

	// ---- seed-derived lists of types: everything that takes a pack
	struct pick_
	{
		size_t n;
		size_t b[6];
		bool c[6], v[6];
		int r[6];
	};
	constexpr pick_ picks(uint64_t s)
	{
		crng g{ VERIF_SEED * 1000 + s };
		pick_ p{};
		p.n			 = 1 + g.below(6);
		size_t narrow = g.below(3); // some lists from a few related types only
		for (size_t i = 0; i < 6; i++)
		{
			p.b[i] = narrow == 0 ? g.below(num_bases) : narrow == 1 ? 2 + g.below(31) : g.below(num_bases);
			if (narrow == 2 && i && g.below(3))
				p.b[i] = p.b[i - 1];
			p.c[i] = g.below(narrow == 2 ? 2 : 4) == 0;
			p.v[i] = g.below(4) == 0;
			p.r[i] = g.below(2) ? static_cast<int>(g.below(3)) : 0;
		}
		return p;
	}
	template <uint64_t S, size_t I>
	using picked = q<typename base<picks(S).b[I]>::type, picks(S).c[I], picks(S).v[I], picks(S).r[I]>;
	template <typename T>
	constexpr size_t size_model()
	{
		if constexpr (std::is_void_v<T> || std::is_function_v<std::remove_reference_t<T>>)
			return 0;
		else
			return sizeof(T);
	}
	template <typename T>
	constexpr size_t align_model()
	{
		if constexpr (std::is_void_v<T> || std::is_function_v<std::remove_reference_t<T>>)
			return 0;
		else
			return alignof(T);
	}
	template <typename... T>
	void packs(pbt::Case& c)
	{
		auto any				  = [](std::initializer_list<bool> l) { for (bool b : l) if (b) return true; return false; };
		auto all				  = [](std::initializer_list<bool> l) { for (bool b : l) if (!b) return false; return l.size() > 0; };
#define ANY_ALL(what)                                                                                                  \
	judge(c, bool(muu::any_##what<T...>), any({ muu::is_##what<T>... }), "any_" #what);                                \
	judge(c, bool(muu::all_##what<T...>), all({ muu::is_##what<T>... }), "all_" #what);                                \
	judge(c, muu::any_##what<> || muu::all_##what<>, false, "any_/all_" #what " of nothing");
		ANY_ALL(enum)
		ANY_ALL(scoped_enum)
		ANY_ALL(legacy_enum)
		ANY_ALL(unsigned)
		ANY_ALL(signed)
		ANY_ALL(integral)
		ANY_ALL(integer)
		ANY_ALL(floating_point)
		ANY_ALL(arithmetic)
		ANY_ALL(const)
		ANY_ALL(volatile)
		ANY_ALL(cvref)
		ANY_ALL(unbounded_array)
		ANY_ALL(bounded_array)
		ANY_ALL(array)
		ANY_ALL(function)
		ANY_ALL(function_pointer)
	}
	template <typename T>
	struct box
	{
		using type = T;
	};
	template <typename First, typename... T>
	void selections(pbt::Case& c)
	{
		// which one, by a plain loop over the sizes
		const size_t sz[] = { size_model<First>(), size_model<T>()... };
		const size_t al[] = { align_model<muu::remove_cvref<First>>(), align_model<muu::remove_cvref<T>>()... };
		size_t big = 0, small = 0, total = 0;
		constexpr size_t n = 1 + sizeof...(T);
		for (size_t i = 0; i < n; i++)
		{
			total += sz[i];
			if (sz[i] > sz[big])
				big = i;
			if (sz[i] < sz[small])
				small = i;
		}
		size_t most = al[0], least = al[0];
		for (size_t i = 0; i < n; i++)
			most = std::max(most, al[i]), least = std::min(least, al[i]);
		using L = muu::largest<First, T...>;
		using S = muu::smallest<First, T...>;
		const bool is_big[]	  = { std::is_same_v<L, First>, std::is_same_v<L, T>... };
		const bool is_small[] = { std::is_same_v<S, First>, std::is_same_v<S, T>... };
		CHECK_EQ(size_model<L>(), sz[big], "largest");
		CHECK(is_big[big], "largest: the first of the largest");
		CHECK_EQ(size_model<S>(), sz[small], "smallest");
		CHECK(is_small[small], "smallest: the first of the smallest");
		CHECK_EQ((muu::total_size<First, T...>), total, "total_size");
		using M = muu::most_aligned<First, T...>;
		using N = muu::least_aligned<First, T...>;
		CHECK_EQ(align_model<muu::remove_cvref<M>>(), most, "most_aligned");
		CHECK_EQ(align_model<muu::remove_cvref<N>>(), least, "least_aligned");
		CHECK((std::is_same_v<M, First> || muu::any_same<M, T...>), "most_aligned: one of the types");
		CHECK((std::is_same_v<N, First> || muu::any_same<N, T...>), "least_aligned: one of the types");
	}
	template <typename First, typename... T>
	void identity(pbt::Case& c)
	{
		const bool same[] = { true, std::is_same_v<First, T>... };
		bool any = false, all = true;
		for (size_t i = 1; i <= sizeof...(T); i++)
		{
			any = any || same[i];
			all = all && same[i];
		}
		CHECK_EQ((muu::any_same<First, T...>), any, "any_same");
		CHECK_EQ((muu::all_same<First, T...>), all, "all_same");
	}
	template <typename... T, size_t... I>
	void indices(pbt::Case& c, std::index_sequence<I...>)
	{
		using Tu = std::tuple<box<T>...>;
		const bool right[] = { std::is_same_v<muu::type_at_index<I, T...>, typename std::tuple_element_t<I, Tu>::type>... };
		for (size_t i = 0; i < sizeof...(T); i++)
			CHECK(right[i], "type_at_index<" << i << ">");
		const auto one = [&](auto b, size_t at)
		{
			using U			  = typename decltype(b)::type;
			const bool same[] = { std::is_same_v<U, T>... };
			size_t first	  = 0;
			while (!same[first])
				first++;
			CHECK_EQ((muu::index_of_type<U, T...>), first, "index_of_type of element " << at);
		};
		(one(box<T>{}, I), ...);
	}
	template <uint64_t S, size_t... I>
	void list_of(pbt::Case& c, std::index_sequence<I...>)
	{
		const char* names[] = { base<picks(S).b[I]>::i.name... };
		const auto p		= picks(S);
		for (size_t i = 0; i < p.n; i++)
			NOTE(names[i] << (p.c[i] ? " const" : "") << (p.v[i] ? " volatile" : "") << (p.r[i] == 1 ? "&" : p.r[i] == 2 ? "&&" : ""));
		packs<picked<S, I>...>(c);
		identity<picked<S, I>...>(c);
		indices<picked<S, I>...>(c, std::index_sequence<I...>{});
		if constexpr (((base<picks(S).b[I]>::i.k != k_uarray) && ...))
			selections<picked<S, I>...>(c);
		c.nontrivial(sizeof...(I) > 1);
	}
	constexpr size_t num_lists = 20;
	template <size_t... S>
	void lists(pbt::Case& c, size_t which, std::index_sequence<S...>)
	{
		((which == S ? list_of<S + PART * num_lists>(c, std::make_index_sequence<picks(S + PART * num_lists).n>{}) : (void)0), ...);
	}

	// ---- two types: copying qualifiers from one to the other
	template <typename B, bool C, bool V, int R, bool C2, bool V2, int R2>
	void copies(pbt::Case& c)
	{
		using b	   = typename B::type;
		using T	   = q<b, C, V, R>;
		using From = q<long, C2, V2, R2>;
		SAME(muu::copy_const<T, From>, q<b, C2, V, R>);
		SAME(muu::copy_volatile<T, From>, q<b, C, V2, R>);
		SAME(muu::copy_cv<T, From>, q<b, C2, V2, R>);
		SAME(muu::copy_ref<T, From>, q<b, C, V, R2>);
		SAME(muu::copy_cvref<T, From>, q<b, C2, V2, R2>);
	}
	template <typename B, bool C, bool V, int R>
	void copies_from(pbt::Case& c)
	{
		copies<B, C, V, R, 0, 0, 0>(c), copies<B, C, V, R, 1, 0, 0>(c), copies<B, C, V, R, 0, 1, 0>(c), copies<B, C, V, R, 1, 1, 0>(c);
		copies<B, C, V, R, 0, 0, 1>(c), copies<B, C, V, R, 1, 0, 1>(c), copies<B, C, V, R, 0, 1, 1>(c), copies<B, C, V, R, 1, 1, 1>(c);
		copies<B, C, V, R, 0, 0, 2>(c), copies<B, C, V, R, 1, 0, 2>(c), copies<B, C, V, R, 0, 1, 2>(c), copies<B, C, V, R, 1, 1, 2>(c);
	}
	template <typename B>
	void copies_all(pbt::Case& c)
	{
		copies_from<B, 0, 0, 0>(c), copies_from<B, 1, 0, 0>(c), copies_from<B, 0, 1, 0>(c), copies_from<B, 1, 1, 0>(c);
		copies_from<B, 0, 0, 1>(c), copies_from<B, 1, 0, 1>(c), copies_from<B, 0, 1, 1>(c), copies_from<B, 1, 1, 1>(c);
		copies_from<B, 0, 0, 2>(c), copies_from<B, 1, 0, 2>(c), copies_from<B, 0, 1, 2>(c), copies_from<B, 1, 1, 2>(c);
	}
}
// each part takes a quarter of the types
PROP(every_type, 1, 1)
{
	constexpr auto n = (num_bases + 3 - PART % 4) / 4;
	for (size_t i = 0; i < n; i++)
		every_base(c, i, std::make_index_sequence<n>{});
	c.enumerated(n * 12, n * 12);
}
#if PART == 0
PROP(copied_qualifiers, 1, 1)
{
	copies_all<base<12>>(c); // int
	copies_all<base<33>>(c); // a pointer
	copies_all<base<num_bases - 12>>(c);
	c.enumerated(3 * 144, 3 * 144);
	c.nontrivial(true);
}
PROP(integers_by_size, 1, 1)
{
	CHECK((std::is_same_v<muu::unsigned_integer<8>, unsigned char> && std::is_same_v<muu::unsigned_integer<16>, unsigned short> && std::is_same_v<muu::unsigned_integer<32>, unsigned int>
		   && std::is_same_v<muu::unsigned_integer<64>, unsigned long> && std::is_same_v<muu::unsigned_integer<128>, unsigned __int128>),
		  "unsigned_integer");
	CHECK((std::is_same_v<muu::signed_integer<8>, signed char> && std::is_same_v<muu::signed_integer<16>, short> && std::is_same_v<muu::signed_integer<32>, int>
		   && std::is_same_v<muu::signed_integer<64>, long> && std::is_same_v<muu::signed_integer<128>, __int128>),
		  "signed_integer");
	c.enumerated(10, 10);
}
#endif
PROP(lists_of_types, 3 * num_lists, 3 * num_lists)
{
	lists(c, c.below(num_lists), std::make_index_sequence<num_lists>{});
}
