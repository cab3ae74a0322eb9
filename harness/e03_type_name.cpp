// E03: muu::type_name<T> spells T the way its declaration would, whatever T is built from.
#include "common.hpp"
#ifndef PART
	#define PART 0
#endif
#include <muu/core.h>
#include <muu/type_name.h>
#include <array>
#include <string>
#include <tuple>
#include <utility>
#include <vector>
struct global_leaf
{};
struct renamed
{};
template <typename T>
struct global_box
{};
namespace us
{
	struct leaf
	{};
	class klass
	{};
	union onion
	{};
	enum class scoped
	{
		a
	};
	enum legacy
	{
		b
	};
	template <typename T>
	struct box
	{};
	template <typename T, typename U>
	class two
	{};
	template <typename T, typename U, typename V, typename W>
	struct four
	{};
	template <typename... T>
	struct pack
	{};
	template <typename T, typename... U>
	struct one_and_pack
	{};
	template <auto... N>
	struct values
	{};
	template <int A, unsigned B>
	struct two_values
	{};
	template <typename T, size_t N>
	struct sized
	{};
	template <typename T, auto A, auto B, auto... N>
	struct typed_values
	{};
	template <typename T, typename U, auto... N>
	struct two_typed_values
	{};
	template <typename T, typename U, typename V, auto A, auto... N>
	struct three_typed_values
	{};
	namespace inner_
	{
		template <typename T>
		struct deep
		{};
	}
}
namespace
{
	struct nameless_leaf
	{};
	template <typename T>
	struct nameless_box
	{};
}
namespace muu
{
	template <>
	inline constexpr auto type_name<renamed> = fixed_string{ "my own name" };
}
namespace
{
	// ---- descriptors: a type, and how it is spelled (arrays and function pointers wrap around what they are applied to)
	template <size_t I>
	struct base_;
	constexpr size_t bases_begin = __COUNTER__ + 1;
#define BASE(...)                                                                                                      \
	template <>                                                                                                        \
	struct base_<__COUNTER__ - bases_begin>                                                                            \
	{                                                                                                                  \
		using type = __VA_ARGS__;                                                                                      \
		static std::string name() { return #__VA_ARGS__; }                                                             \
	};
#define BASE_AS(str, ...)                                                                                              \
	template <>                                                                                                        \
	struct base_<__COUNTER__ - bases_begin>                                                                            \
	{                                                                                                                  \
		using type = __VA_ARGS__;                                                                                      \
		static std::string name() { return str; }                                                                      \
	};
	BASE(bool)
	BASE(char)
	BASE(signed char)
	BASE(unsigned char)
	BASE(wchar_t)
	BASE(char16_t)
	BASE(char32_t)
	BASE(short)
	BASE(int)
	BASE(long)
	BASE(long long)
	BASE(unsigned short)
	BASE(unsigned int)
	BASE(unsigned long)
	BASE(unsigned long long)
	BASE(float)
	BASE(double)
	BASE(long double)
	BASE(global_leaf)
	BASE(nameless_leaf)
	BASE(us::leaf)
	BASE(us::klass)
	BASE(us::onion)
	BASE(us::scoped)
	BASE(us::legacy)
	BASE(std::string)
	BASE(std::string_view)
	BASE(std::u16string_view)
	BASE_AS("my own name", renamed)
	constexpr size_t bases_end = __COUNTER__;
	constexpr size_t num_bases = bases_end - bases_begin;

	const char* cv_name(int cv)
	{
		return cv == 0 ? "" : cv == 1 ? "const" : cv == 2 ? "volatile" : "const volatile";
	}
	template <typename T, int CV>
	using add_cv = std::conditional_t<CV == 0, T, std::conditional_t<CV == 1, const T, std::conditional_t<CV == 2, volatile T, const volatile T>>>;

	struct void_
	{
		using type = void;
		static std::string name() { return "void"; }
	};
	template <typename D, int CV>
	struct cv_
	{
		using type = add_cv<typename D::type, CV>;
		static std::string name() { return std::string(cv_name(CV)) + " " + D::name(); }
	};
	template <typename D, int CV>
	struct ptr_
	{
		using type = add_cv<typename D::type*, CV>;
		static std::string name() { return D::name() + "*" + (CV ? std::string(" ") + cv_name(CV) : ""); }
	};
	template <typename D, size_t... N>
	struct arr_ // extents, outermost first; 0 = unbounded (only the first)
	{
		template <typename T, size_t M, size_t... R>
		static auto make()
		{
			if constexpr (sizeof...(R) == 0)
			{
				if constexpr (M == 0)
					return std::add_pointer<T[]>{};
				else
					return std::add_pointer<T[M]>{};
			}
			else
			{
				using U = std::remove_pointer_t<typename decltype(make<T, R...>())::type>;
				if constexpr (M == 0)
					return std::add_pointer<U[]>{};
				else
					return std::add_pointer<U[M]>{};
			}
		}
		using type = std::remove_pointer_t<typename decltype(make<typename D::type, N...>())::type>;
		static std::string tail()
		{
			std::string s;
			((s += "[" + (N ? std::to_string(N) : std::string()) + "]"), ...);
			return s;
		}
		static std::string name() { return D::name() + tail(); }
		static std::string ref(const char* r) { return D::name() + "(" + r + ")" + tail(); }
	};
	template <typename... D>
	std::string joined()
	{
		std::string s;
		((s += (s.empty() ? "" : ", ") + D::name()), ...);
		return s;
	}
	// functions, pointers and references to them; How: 0 function, 1 pointer, 2 reference; Var: C variadic arguments follow
	template <int How, int CV, bool Noexcept, bool Var, typename R, typename... P>
	struct fn_
	{
		template <typename F>
		static auto wrap()
		{
			if constexpr (How == 0)
				return std::add_pointer<F>{};
			else if constexpr (How == 1)
				return std::add_pointer<add_cv<F*, CV>>{};
			else
				return std::add_pointer<F*>{}; // the reference is made below
		}
		static auto pick()
		{
			using r = typename R::type;
			if constexpr (Var && Noexcept)
				return wrap<r(typename P::type..., ...) noexcept>();
			else if constexpr (Var)
				return wrap<r(typename P::type..., ...)>();
			else if constexpr (Noexcept)
				return wrap<r(typename P::type...) noexcept>();
			else
				return wrap<r(typename P::type...)>();
		}
		using inner = std::remove_pointer_t<typename decltype(pick())::type>;
		using type	= std::conditional_t<How == 2, std::add_lvalue_reference_t<std::remove_pointer_t<inner>>, inner>;
		static std::string name()
		{
			std::string args = joined<P...>();
			if (Var)
				args += args.empty() ? "..." : ", ...";
			return R::name() + (How == 0 ? std::string() : How == 1 ? std::string("(*") + cv_name(CV) + ")" : std::string("(&)")) + "(" + args + ")"
				 + (Noexcept ? " noexcept" : "");
		}
	};
	template <typename D, bool R>
	struct ref_
	{
		using type = std::conditional_t<R, typename D::type&&, typename D::type&>;
		static std::string name() { return D::name() + (R ? "&&" : "&"); }
	};
	template <typename D, size_t... N, bool R>
	struct ref_<arr_<D, N...>, R>
	{
		using A	   = typename arr_<D, N...>::type;
		using type = std::conditional_t<R, A&&, A&>;
		static std::string name() { return arr_<D, N...>::ref(R ? "&&" : "&"); }
	};
	template <template <typename...> class T, typename Tag, typename... D>
	struct app_
	{
		using type = T<typename D::type...>;
		static std::string name() { return std::string(Tag::value) + "<" + joined<D...>() + ">"; }
	};
	template <typename T>
	std::string spelled(T v)
	{
		if constexpr (std::is_same_v<T, bool>)
			return v ? "true" : "false";
		else
			return std::to_string(v);
	}
	template <auto... N>
	std::string joined_values()
	{
		std::string s;
		((s += (s.empty() ? "" : ", ") + spelled(N)), ...);
		return s;
	}
	template <typename T, typename Tag, typename Args, auto... N>
	struct val_;
	template <typename T, typename Tag, typename... D, auto... N>
	struct val_<T, Tag, std::tuple<D...>, N...>
	{
		using type = T;
		static std::string name()
		{
			return std::string(Tag::value) + "<" + joined<D...>() + (sizeof...(D) && sizeof...(N) ? ", " : "") + joined_values<N...>() + ">";
		}
	};
#define TAG(t, str)                                                                                                    \
	struct t                                                                                                           \
	{                                                                                                                  \
		static constexpr const char* value = str;                                                                      \
	};
	TAG(t_global_box, "global_box")
	TAG(t_nameless_box, "nameless_box")
	TAG(t_box, "us::box")
	TAG(t_two, "us::two")
	TAG(t_four, "us::four")
	TAG(t_pack, "us::pack")
	TAG(t_one_and_pack, "us::one_and_pack")
	TAG(t_deep, "us::inner_::deep")
	TAG(t_list, "muu::type_list")
	TAG(t_vector, "std::vector")
	TAG(t_pair, "std::pair")
	TAG(t_tuple, "std::tuple")
	TAG(t_span, "muu::span")
	TAG(t_integral, "std::integral_constant")
	TAG(t_values, "us::values")
	TAG(t_two_values, "us::two_values")
	TAG(t_sized, "us::sized")
	TAG(t_array, "std::array")
	TAG(t_typed_values, "us::typed_values")
	TAG(t_two_typed_values, "us::two_typed_values")
	TAG(t_three_typed_values, "us::three_typed_values")
	template <typename T>
	using plain_vector = std::vector<T>;

	// ---- generated types
	constexpr uint64_t mix(uint64_t s, uint64_t k)
	{
		crng r{ s * 0x9E3779B97F4A7C15u + k * 0xD1B54A32D192ED03u };
		r.next();
		return r.next();
	}
	constexpr uint64_t num(uint64_t s, uint64_t k, uint64_t n)
	{
		return (mix(s, k) >> 11) % n;
	}
	// an interesting value for a non-type argument
	template <uint64_t S>
	constexpr int int_value()
	{
		constexpr int corners[] = { 0, 1, -1, 9, 10, -10, 99, 100, 2147483647, -2147483647, -2147483647 - 1, -100 };
		return num(S, 1, 2) ? corners[num(S, 2, 12)] : static_cast<int>(num(S, 3, 4000000)) - 2000000;
	}
	template <uint64_t S>
	constexpr size_t size_value()
	{
		constexpr size_t corners[] = { 0, 1, 9, 10, 11, 99, 100, 1000, 18446744073709551615u, 10000000000000000000u, 4294967296u };
		return num(S, 1, 2) ? corners[num(S, 2, 11)] : num(S, 3, 100000);
	}
	// kinds of types: what may be put inside what
	enum
	{
		plain	= 1, // neither qualified, array, reference, function (pointer), void
		object	= 2, // no reference, function or void
		pointee = 3, // what may be pointed to without wrapping: no array, function (pointer), reference
		argument = 4, // anything that may be a template argument
		returned = 5, // what a function returns or takes: not an array, function (pointer), and not qualified
	};
	template <uint64_t S, int D, int Kind>
	constexpr auto make();
	template <uint64_t S, int D, int Kind>
	using any = decltype(make<S, D, Kind>());
	template <uint64_t S, int D>
	constexpr auto make_template()
	{
		using A			 = any<mix(S, 10), D - 1, argument>;
		constexpr auto k = num(S, 11, 20);
		if constexpr (k == 0)
			return app_<global_box, t_global_box, A>{};
		else if constexpr (k == 1)
			return app_<us::box, t_box, A>{};
		else if constexpr (k == 2)
			return app_<us::two, t_two, A, any<mix(S, 12), D - 1, argument>>{};
		else if constexpr (k == 3)
			return app_<us::four, t_four, A, any<mix(S, 12), D - 2, argument>, any<mix(S, 13), D - 1, argument>, any<mix(S, 14), D - 2, argument>>{};
		else if constexpr (k == 4)
			return app_<us::pack, t_pack>{};
		else if constexpr (k == 5)
			return app_<us::pack, t_pack, A, any<mix(S, 12), D - 2, argument>, any<mix(S, 13), D - 1, argument>>{};
		else if constexpr (k == 6)
			return app_<us::one_and_pack, t_one_and_pack, A, any<mix(S, 12), D - 1, argument>>{};
		else if constexpr (k == 7)
			return app_<us::inner_::deep, t_deep, A>{};
		else if constexpr (k == 8)
			return app_<muu::type_list, t_list, A, any<mix(S, 12), D - 1, argument>, A>{};
		else if constexpr (k == 9)
			return app_<nameless_box, t_nameless_box, A>{};
		else if constexpr (k == 10)
			return app_<plain_vector, t_vector, any<mix(S, 12), D - 1, plain>>{};
		else if constexpr (k == 11)
			return app_<std::pair, t_pair, any<mix(S, 12), D - 1, plain>, any<mix(S, 13), D - 1, plain>>{};
		else if constexpr (k == 12)
			return app_<std::tuple, t_tuple, any<mix(S, 12), D - 1, plain>>{};
		else if constexpr (k == 13)
		{
			constexpr auto n = int_value<mix(S, 15)>(), m = int_value<mix(S, 16)>();
			constexpr bool flag = num(S, 18, 2);
			if constexpr (num(S, 17, 4) == 0)
				return val_<us::values<>, t_values, std::tuple<>>{};
			else if constexpr (num(S, 17, 4) == 3)
				return val_<us::values<flag, n, !flag>, t_values, std::tuple<>, flag, n, !flag>{};
			else if constexpr (num(S, 17, 4) == 1)
				return val_<us::values<n>, t_values, std::tuple<>, n>{};
			else
				return val_<us::values<n, m, 7u>, t_values, std::tuple<>, n, m, 7u>{};
		}
		else if constexpr (k == 14)
		{
			constexpr auto n = int_value<mix(S, 15)>();
			constexpr auto m = static_cast<unsigned>(int_value<mix(S, 16)>());
			return val_<us::two_values<n, m>, t_two_values, std::tuple<>, n, m>{};
		}
		else if constexpr (k == 15)
		{
			constexpr auto n = size_value<mix(S, 15)>();
			return val_<us::sized<typename A::type, n>, t_sized, std::tuple<A>, n>{};
		}
		else if constexpr (k == 16)
		{
			constexpr auto n = static_cast<size_t>(num(S, 15, 40));
			using E			 = any<mix(S, 12), D - 1, plain>;
			return val_<std::array<typename E::type, n>, t_array, std::tuple<E>, n>{};
		}
		else if constexpr (k == 17)
		{
			constexpr auto n = int_value<mix(S, 15)>();
			constexpr auto m = static_cast<long long>(int_value<mix(S, 16)>()) * 4000000000ll;
			if constexpr (num(S, 17, 2))
				return val_<us::typed_values<typename A::type, n, m>, t_typed_values, std::tuple<A>, n, m>{};
			else
				return val_<us::typed_values<typename A::type, n, m, n>, t_typed_values, std::tuple<A>, n, m, n>{};
		}
		else if constexpr (k == 18)
		{
			constexpr auto n = int_value<mix(S, 15)>();
			using B			 = any<mix(S, 12), D - 1, argument>;
			return val_<us::two_typed_values<typename A::type, typename B::type, n>, t_two_typed_values, std::tuple<A, B>, n>{};
		}
		else
		{
			constexpr auto n = int_value<mix(S, 15)>();
			using B			 = any<mix(S, 12), D - 1, argument>;
			using C			 = any<mix(S, 13), D - 2, argument>;
			return val_<us::three_typed_values<typename A::type, typename B::type, typename C::type, n, 3>, t_three_typed_values, std::tuple<A, B, C>, n, 3>{};
		}
	}
	template <uint64_t S, int D, int How>
	constexpr auto make_function()
	{
		using R					= std::conditional_t<num(S, 20, 4) == 0, void_, any<mix(S, 21), D - 1, returned>>;
		using A					= any<mix(S, 22), D - 1, returned>;
		using B					= any<mix(S, 23), D - 2, returned>;
		constexpr bool noexcept_ = num(S, 24, 2), var = num(S, 25, 3) == 0;
		constexpr int cv = How == 1 ? static_cast<int>(num(S, 26, 4)) : 0;
		constexpr auto n = num(S, 27, 4);
		if constexpr (n == 0)
			return fn_<How, cv, noexcept_, var, R>{};
		else if constexpr (n == 1)
			return fn_<How, cv, noexcept_, var, R, A>{};
		else if constexpr (n == 2)
			return fn_<How, cv, noexcept_, var, R, A, B>{};
		else
			return fn_<How, cv, noexcept_, var, R, B, A, B>{};
	}
	template <uint64_t S, int D>
	constexpr auto make_array()
	{
		using E = std::conditional_t<num(S, 30, 2) == 0, any<mix(S, 31), D - 1, pointee>, any<mix(S, 31), D - 1, plain>>;
		constexpr size_t a = num(S, 32, 5) ? 1 + num(S, 33, 300) : 0, b = 1 + num(S, 34, 12), d = 1 + num(S, 35, 1000);
		if constexpr (num(S, 36, 3) == 0)
			return arr_<E, a, b>{};
		else if constexpr (num(S, 36, 6) == 1)
			return arr_<E, a, b, d>{};
		else
			return arr_<E, a>{};
	}
	template <uint64_t S, int D, int Kind>
	constexpr auto make()
	{
		constexpr auto k = num(S, 40, 16);
		if constexpr (D <= 0 || k < 3)
			return base_<num(S, 41, num_bases)>{};
		else if constexpr (k < 8 || Kind == plain)
			return make_template<S, D>();
		else if constexpr (k < 11) // pointers
		{
			constexpr int cv = Kind == returned ? 0 : static_cast<int>(num(S, 42, 4));
			using P			 = std::conditional_t<num(S, 43, 6) == 0, void_, any<mix(S, 44), D - 1, pointee>>;
			return ptr_<P, cv>{};
		}
		else if constexpr (Kind == returned)
			return make_template<S, D>();
		else if constexpr (k < 13)
			return cv_<any<mix(S, 45), D - 1, plain>, 1 + static_cast<int>(num(S, 46, 3))>{};
		else if constexpr (Kind == pointee)
			return make_template<S, D>();
		else if constexpr (k == 13)
			return make_array<S, D>();
		else if constexpr (k == 14 && Kind == argument)
		{
			constexpr int how = static_cast<int>(num(S, 47, 3));
			return make_function<S, D, how>();
		}
		else if constexpr (Kind == argument)
		{
			using O = std::conditional_t<num(S, 49, 2) == 0, decltype(make_array<mix(S, 50), D>()), any<mix(S, 48), D - 1, pointee>>;
			return ref_<O, num(S, 51, 2) == 0>{};
		}
		else
			return base_<num(S, 41, num_bases)>{};
	}
	template <typename D>
	void check_name(pbt::Case& c)
	{
		using T					 = typename D::type;
		static constexpr auto& n = muu::type_name<T>;
		const auto want			 = D::name();
		NOTE(want);
		static_assert(n.length() > 0, "a constant expression");
		CHECK(n.view() == want, "type_name: '" << n.view() << "' instead of '" << want << "'");
		CHECK_EQ(n.length(), want.size(), "length");
		CHECK(n.c_str()[n.length()] == '\0', "null-terminated");
	}
	constexpr size_t count = 120;
	template <size_t I>
	void one(pbt::Case& c)
	{
		// every third type exercises one of the shapes that generate() only picks sometimes
		constexpr uint64_t S = mix(VERIF_SEED * 4 + PART, I);
		if constexpr (I % 5 == 0)
			check_name<decltype(make_template<S, 3>())>(c);
		else if constexpr (I % 5 == 1)
			check_name<decltype(make_function<S, 2, static_cast<int>(I / 5 % 3)>())>(c);
		else if constexpr (I % 5 == 2)
			check_name<decltype(make_array<S, 3>())>(c);
		else if constexpr (I % 5 == 3)
			check_name<ref_<std::conditional_t<num(S, 1, 2) == 0, decltype(make_array<S, 2>()), any<S, 3, pointee>>, num(S, 2, 2) == 0>>(c);
		else
			check_name<any<S, 4, argument>>(c);
		c.nontrivial(true);
	}
	template <size_t... I>
	void pick(pbt::Case& c, size_t which, std::index_sequence<I...>)
	{
		((I == which ? one<I>(c) : (void)0), ...);
	}
	template <size_t... I>
	void all_bases(pbt::Case& c, std::index_sequence<I...>)
	{
		(check_name<base_<I>>(c), ...);
		(check_name<ptr_<cv_<base_<I>, 1>, 0>>(c), ...);
	}
	template <size_t I, typename... T>
	void list_of(pbt::Case& c)
	{
		constexpr auto& n = muu::type_name_list<typename T::type...>;
		const auto want	  = joined<T...>();
		NOTE(want);
		CHECK(n.view() == want, "type_name_list: '" << n.view() << "' instead of '" << want << "'");
	}
	template <size_t L, size_t... I>
	void list_n(pbt::Case& c, std::index_sequence<I...>)
	{
		list_of<L, any<mix(VERIF_SEED * 4 + PART, 1000 + L * 10 + I), 2, argument>...>(c);
	}
	template <size_t... L>
	void lists(pbt::Case& c, std::index_sequence<L...>)
	{
		(list_n<L>(c, std::make_index_sequence<L>{}), ...);
	}
}
namespace
{
	// every form of function type, and every array of qualified elements, by itself and referred to
	template <size_t I>
	void form(pbt::Case& c)
	{
		constexpr uint64_t S	 = mix(VERIF_SEED * 4 + PART, 5000 + I);
		constexpr int how		 = I % 6 == 0 ? 0 : I % 6 == 1 ? 2 : 1;
		constexpr int cv		 = how == 1 ? static_cast<int>(I % 6) - 2 : 0;
		constexpr bool noexcept_ = I / 6 % 2 == 0, var = I / 12 % 2 == 0;
		constexpr auto n		 = I / 24 % 4;
		using R					 = std::conditional_t<num(S, 1, 3) == 0, void_, any<mix(S, 2), 1, returned>>;
		using A					 = any<mix(S, 3), 1, returned>;
		using B					 = any<mix(S, 4), 1, returned>;
		if constexpr (n == 0)
			check_name<fn_<how, cv, noexcept_, var, R>>(c);
		else if constexpr (n == 1)
			check_name<fn_<how, cv, noexcept_, var, R, A>>(c);
		else if constexpr (n == 2)
			check_name<fn_<how, cv, noexcept_, var, R, A, B>>(c);
		else
			check_name<fn_<how, cv, noexcept_, var, R, B, A, B>>(c);
	}
	template <size_t... I>
	void forms(pbt::Case& c, std::index_sequence<I...>)
	{
		(form<I>(c), ...);
	}
	template <typename E, size_t... N>
	void array_form(pbt::Case& c)
	{
		check_name<arr_<E, N...>>(c);
		check_name<ref_<arr_<E, N...>, false>>(c);
		check_name<ref_<arr_<E, N...>, true>>(c);
	}
	template <int CV>
	void array_forms(pbt::Case& c)
	{
		using P			   = any<mix(VERIF_SEED * 4 + PART, 6000 + CV), 1, plain>;
		using E			   = std::conditional_t<CV == 0, P, cv_<P, CV == 0 ? 1 : CV>>;
		constexpr size_t n = 1 + num(VERIF_SEED, 6010 + CV, 500), m = 1 + num(VERIF_SEED, 6020 + CV, 12);
		array_form<E, n>(c);
		array_form<E, 0>(c);
		array_form<E, n, m>(c);
		array_form<E, 0, m>(c);
		array_form<E, m, n, m + 1>(c);
		array_form<E, 0, m, n>(c);
		array_form<ptr_<E, CV>, n, m>(c);
		array_form<ptr_<ptr_<E, CV>, CV>, 0>(c);
		check_name<ref_<E, false>>(c);
		check_name<ref_<E, true>>(c);
		check_name<ref_<ptr_<E, CV>, false>>(c);
		check_name<ref_<ptr_<E, CV>, true>>(c);
	}
}
PROP(function_forms, 1, 1)
{
	forms(c, std::make_index_sequence<96>{});
	c.nontrivial(true);
	c.enumerated(96, 96);
}
PROP(array_forms, 1, 1)
{
	array_forms<0>(c);
	array_forms<1>(c);
	array_forms<2>(c);
	array_forms<3>(c);
	c.nontrivial(true);
	c.enumerated(112, 112);
}
PROP(every_shape, 300, 300)
{
	pick(c, c.below(count), std::make_index_sequence<count>{});
}
PROP(named_types, 1, 1)
{
	all_bases(c, std::make_index_sequence<num_bases>{});
	check_name<void_>(c);
	check_name<val_<std::true_type, t_integral, std::tuple<base_<0>>, true>>(c);
	check_name<val_<std::false_type, t_integral, std::tuple<base_<0>>, false>>(c);
	lists(c, std::make_index_sequence<9>{});
	c.nontrivial(true);
	c.enumerated(2 * num_bases + 10, 2 * num_bases + 10);
}
