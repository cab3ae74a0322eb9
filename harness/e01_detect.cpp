// E01: detecting what types can do: conversions, operators, iteration, tuples, functions and lambdas.
#include "common.hpp"
#include <muu/core.h>
#include <muu/meta.h>
#include <muu/half.h>
#include <muu/vector.h>
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <shared_mutex>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <vector>
#ifndef PART
	#define PART 0
#endif
namespace
{
	// ---------------------------------------------------------------- conversions
	struct from_int { from_int(int) noexcept; };
	struct from_int_throwing { from_int_throwing(int); };
	struct from_int_explicit { explicit from_int_explicit(int) noexcept; };
	struct from_int_explicit_throwing { explicit from_int_explicit_throwing(int); };
	struct to_int { operator int() const noexcept; };
	struct to_int_throwing { operator int() const; };
	struct to_int_explicit { explicit operator int() const noexcept; };
	struct to_int_lvalue { operator int() & noexcept; };
	struct parent { virtual ~parent(); };
	struct child : parent {};
	struct hidden : private parent {};
	struct grandchild : child {};
	struct abstract : parent { virtual void f() = 0; };
	enum legacy { l0 };
	enum class scoped { s0 };
	struct throwing_dtor { throwing_dtor(int) noexcept; ~throwing_dtor() noexcept(false); };

	template <typename... T>
	struct types
	{
		static constexpr size_t size = sizeof...(T);
		template <size_t I>
		using at = std::tuple_element_t<I, std::tuple<muu::impl::basic_tag<T>...>>;
	};
	using conv = types<int, const int, int&, const int&, int&&, long, float, bool, char, unsigned char&, void, std::nullptr_t, int*, const int*, void*, int**, legacy, scoped,
					   from_int, from_int_throwing, from_int_explicit, from_int_explicit_throwing, to_int, const to_int, to_int_throwing, to_int_explicit, to_int_lvalue,
					   to_int_lvalue&, parent, parent&, parent*, const parent&, child, child&, child*, grandchild*, hidden, hidden*, std::string, const char*, std::string_view,
					   char[3], char (&)[3], int(), int (*)(), int (*)() noexcept, int (&)(), muu::half, std::unique_ptr<child>, std::unique_ptr<parent>>;
	template <size_t I>
	using ct = typename conv::at<I>::type;

	// the three questions, asked of the compiler directly
	template <typename To>
	void takes(To) noexcept;
	template <typename From, typename To, typename = void>
	struct implicit_ : std::bool_constant<std::is_void_v<From> && std::is_void_v<To>> {};
	template <typename From, typename To>
	struct implicit_<From, To, std::void_t<decltype(takes<To>(std::declval<From>()))>> : std::bool_constant<!std::is_array_v<To> && !std::is_function_v<To> && !std::is_void_v<From>> {};
	template <typename From, typename To, bool = implicit_<From, To>::value>
	struct implicit_nothrow_ : std::false_type {};
	template <typename From, typename To>
	struct implicit_nothrow_<From, To, true> : std::bool_constant<noexcept(takes<To>(std::declval<From>()))> {};
	template <>
	struct implicit_nothrow_<void, void, true> : std::true_type {};

	// the harness would take minutes to compile if each pair's checks were expanded in place
	struct answers
	{
		bool got[6], want[6];
	};
	void judge_pair(pbt::Case& c, const answers& a, size_t f, size_t t)
	{
		static const char* const names[] = { "is_implicitly_convertible", "is_explicitly_convertible", "is_convertible",
											 "is_implicitly_nothrow_convertible", "is_explicitly_nothrow_convertible", "is_nothrow_convertible" };
		for (size_t i = 0; i < 6; i++)
			CHECK_EQ(a.got[i], a.want[i], names[i] << " from type " << f << " to type " << t);
	}
	template <typename From, typename To>
	constexpr answers pair() noexcept
	{
		constexpr bool imp = implicit_<From, To>::value, impn = implicit_nothrow_<From, To>::value;
		constexpr bool con = std::is_constructible_v<To, From>, conn = std::is_nothrow_constructible_v<To, From>;
		return { { muu::is_implicitly_convertible<From, To>, muu::is_explicitly_convertible<From, To>, muu::is_convertible<From, To>,
				   muu::is_implicitly_nothrow_convertible<From, To>, muu::is_explicitly_nothrow_convertible<From, To>, muu::is_nothrow_convertible<From, To> },
				 { imp, con && !imp, con || imp, impn, conn && !impn, conn || impn } };
	}
	template <size_t F, size_t... T>
	void from(pbt::Case& c, std::index_sequence<T...>)
	{
		static constexpr answers all[] = { pair<ct<F>, ct<T>>()... };
		for (size_t t = 0; t < sizeof...(T); t++)
			judge_pair(c, all[t], F, t);
	}
	template <size_t... F>
	void all_pairs(pbt::Case& c, std::index_sequence<F...>)
	{
		(from<F>(c, std::make_index_sequence<conv::size>{}), ...);
	}
	// packs of seed-derived types
	struct cpick
	{
		size_t one, n, many[5];
	};
	constexpr cpick cpicks(uint64_t s)
	{
		crng g{ VERIF_SEED * 5000 + s };
		cpick p{};
		// mostly related types, or nothing would ever convert to everything
		const bool num = g.below(3) != 0;
		p.one		   = num ? g.below(12) : g.below(conv::size);
		p.n			   = g.below(6);
		for (auto& m : p.many)
			m = num ? (g.below(5) ? g.below(9) : 16 + g.below(12)) : g.below(conv::size);
		return p;
	}
	struct family_answers
	{
		const char* name;
		size_t n;
		bool to_any, to_all, from_all, to[6], from[6];
	};
	void judge_family(pbt::Case& c, const family_answers& f)
	{
		bool any = false, all = f.n > 0, all_from = f.n > 0;
		for (size_t i = 1; i <= f.n; i++)
		{
			any		 = any || f.to[i];
			all		 = all && f.to[i];
			all_from = all_from && f.from[i];
		}
		CHECK_EQ(f.to_any, any, "is_" << f.name << "convertible_to_any");
		CHECK_EQ(f.to_all, all, "is_" << f.name << "convertible_to_all");
		CHECK_EQ(f.from_all, all_from, "all_" << f.name << "convertible_to");
		if (any)
			c.cls("convertible to any");
		if (all)
			c.cls("convertible to all");
		if (all_from)
			c.cls("all convertible to");
	}
#define FAMILY(stem)                                                                                                   \
	judge_family(c,                                                                                                    \
				 { #stem, sizeof...(Many), muu::is_##stem##convertible_to_any<One, Many...>,                           \
				   muu::is_##stem##convertible_to_all<One, Many...>, muu::all_##stem##convertible_to<One, Many...>,    \
				   { false, muu::is_##stem##convertible<One, Many>... }, { false, muu::is_##stem##convertible<Many, One>... } });
	template <typename One, typename... Many>
	void family(pbt::Case& c)
	{
		FAMILY()
		FAMILY(implicitly_)
		FAMILY(explicitly_)
		FAMILY(nothrow_)
		FAMILY(implicitly_nothrow_)
		FAMILY(explicitly_nothrow_)
		c.nontrivial(sizeof...(Many) > 0);
	}
	template <uint64_t S, size_t... I>
	void family_of(pbt::Case& c, std::index_sequence<I...>)
	{
		constexpr auto p = cpicks(S);
		NOTE("type " << p.one << " and types");
		for (size_t i = 0; i < p.n; i++)
			NOTE(p.many[i]);
		family<ct<p.one>, ct<p.many[I]>...>(c);
	}
	constexpr size_t families = 60;
	template <size_t... S>
	void run_family(pbt::Case& c, size_t which, std::index_sequence<S...>)
	{
		((which == S ? family_of<S>(c, std::make_index_sequence<cpicks(S).n>{}) : (void)0), ...);
	}

	// ---------------------------------------------------------------- operators: one type for each, having that operator only
#define BINARY_OPS(X)                                                                                                  \
	X(addition, +) X(subtraction, -) X(division, /) X(multiplication, *) X(modulo, %) X(bitwise_and, &) X(bitwise_or, |) \
	X(bitwise_xor, ^) X(bitwise_lsh, <<) X(bitwise_rsh, >>) X(logical_and, &&) X(logical_or, ||) X(less_than, <)        \
	X(less_than_or_equal, <=) X(greater_than, >) X(greater_than_or_equal, >=)
#define UNARY_OPS(X) X(unary_plus, +) X(unary_minus, -) X(bitwise_not, ~) X(logical_not, !) X(indirection, *)
	struct rhs {};
#define X(name, op)                                                                                                    \
	struct only_##name                                                                                                 \
	{                                                                                                                  \
		friend int operator op(const only_##name&, const only_##name&);                                                \
		friend int operator op(only_##name&, rhs);                                                                     \
	};
	BINARY_OPS(X)
#undef X
	struct only_equality { friend bool operator==(const only_equality&, const only_equality&) = delete; friend int operator==(only_equality&, rhs); };
	struct only_inequality { friend int operator!=(const only_inequality&, const only_inequality&); friend int operator!=(only_inequality&, rhs); };
#define X(name, op) struct only_##name { int operator op() &; };
	UNARY_OPS(X)
#undef X
	struct only_pre_increment { int operator++(); };
	struct only_pre_decrement { int operator--(); };
	struct only_post_increment { int operator++(int); };
	struct only_post_decrement { int operator--(int); };
	struct only_subscript { int operator[](rhs); };
	struct only_arrow { int* operator->() const; };
	struct only_call { int operator()(int, float); };
	struct overloaded_call { int operator()(int); int operator()(float); };
	struct template_call { template <typename T> int operator()(T); };

	using ops = types<
#define X(name, op) only_##name,
		BINARY_OPS(X) UNARY_OPS(X)
#undef X
			only_equality,
		only_inequality, only_pre_increment, only_pre_decrement, only_post_increment, only_post_decrement, only_subscript, only_arrow, only_call, overloaded_call, rhs>;
	struct answer
	{
		bool got, want;
		const char* what;
	};
	void judge(pbt::Case& c, const answer* all, size_t n, size_t id)
	{
		for (size_t i = 0; i < n; i++)
			CHECK_EQ(all[i].got, all[i].want, "type " << id << " has operator: " << all[i].what);
	}
	template <typename T>
	void which_ops(pbt::Case& c, size_t id)
	{
		static constexpr answer all[] = {
#define X(name, op)                                                                                                    \
	{ muu::has_##name##_operator<T>, std::is_same_v<T, only_##name>, #name " with itself" },                           \
	{ muu::has_##name##_operator<const T&>, std::is_same_v<T, only_##name>, #name " with itself, const" },             \
	{ muu::has_##name##_operator<T&, rhs>, std::is_same_v<T, only_##name>, #name " with another type" },               \
	{ muu::has_##name##_operator<const T&, rhs>, false, #name " with another type, const" },                           \
	{ muu::has_##name##_operator<rhs, T&>, false, #name " with the operands swapped" },
			BINARY_OPS(X)
#undef X
			{ muu::has_equality_operator<T>, false, "equality with itself" },
			{ muu::has_equality_operator<T&, rhs>, std::is_same_v<T, only_equality>, "equality with another type" },
			{ muu::has_inequality_operator<T>, std::is_same_v<T, only_inequality>, "inequality with itself" },
			{ muu::has_inequality_operator<const T, rhs>, false, "inequality with another type, const" },
#define X(name, op)                                                                                                    \
	{ muu::has_##name##_operator<T&>, std::is_same_v<T, only_##name>, #name },                                         \
	{ muu::has_##name##_operator<T>, false, #name " of an rvalue" },
			UNARY_OPS(X)
#undef X
#define X(name)                                                                                                        \
	{ muu::has_##name##_operator<T>, std::is_same_v<T, only_##name>, #name },                                          \
	{ muu::has_##name##_operator<const T>, std::is_same_v<T, only_##name> && std::is_same_v<T, only_arrow>, #name ", const" },
			X(pre_increment) X(pre_decrement) X(post_increment) X(post_decrement) X(arrow)
#undef X
			{ muu::has_subscript_operator<T, rhs>, std::is_same_v<T, only_subscript>, "subscript" },
			{ muu::has_subscript_operator<T>, false, "subscript with a size_t" },
			{ muu::has_unambiguous_function_call_operator<const T&>, std::is_same_v<T, only_call>, "unambiguous function call" },
		};
		judge(c, all, sizeof(all) / sizeof(*all), id);
	}
	template <size_t... I>
	void all_ops(pbt::Case& c, std::index_sequence<I...>)
	{
		(which_ops<typename ops::at<I>::type>(c, I), ...);
	}

	// ---------------------------------------------------------------- shapes: iterable, tuples, mutexes, containers
	struct two_iterators { struct it { int& operator*() const; it& operator++(); bool operator==(const it&) const; bool operator!=(const it&) const; }; it begin(); it end(); };
	struct only_begin { int* begin(); };
	struct void_iterators { void begin(); void end(); };
	struct bad_iterators { struct it {}; it begin(); it end(); };
	struct sentinel_end { struct s {}; struct it { int operator*() const; it& operator++(); friend bool operator==(const it&, s); friend bool operator!=(const it&, s); }; it begin() const; s end() const; };
	struct adl_range {};
	int* begin(adl_range&);
	int* end(adl_range&);
	struct sized { unsigned short size() const; };
	struct float_sized { float size() const; };
	struct bool_sized { bool size() const; };
	struct pointer_data { int* data(); };
	struct handle_data { std::unique_ptr<int> data(); };
	struct tuple_like { template <size_t I> int get() const noexcept { return static_cast<int>(I) * 10 + 1; } };
	struct adl_tuple { int a = 4, b = 5; };
	template <size_t I> int& get(adl_tuple& t) { return I == 0 ? t.a : t.b; }
	template <size_t I> const int& get(const adl_tuple& t) { return I == 0 ? t.a : t.b; }
	struct half_mutex { void lock(); bool try_lock(); };
	struct half_shared { void lock(); bool try_lock(); void unlock(); void lock_shared(); void unlock_shared(); };

	// ---------------------------------------------------------------- functions
	template <size_t N>
	struct nth_ { using type = std::conditional_t<N % 3 == 0, int, std::conditional_t<N % 3 == 1, const char*, double&>>; };
	struct cls {};
	template <typename F, typename Fnx, size_t Arity>
	void fn(pbt::Case& c)
	{
#define SAME(...) CHECK((std::is_same_v<__VA_ARGS__>), "arity " << Arity << ": " #__VA_ARGS__)
#define SAMEN(...) CHECK((std::is_same_v<__VA_ARGS__>), "arity " << n << ": " #__VA_ARGS__)
		SAME(muu::add_noexcept<F>, Fnx);
		SAME(muu::add_noexcept<Fnx>, Fnx);
		SAME(muu::remove_noexcept<F>, F);
		SAME(muu::remove_noexcept<Fnx>, F);
		SAME(muu::remove_callconv<F>, F);
		SAME(muu::remove_callconv<Fnx>, Fnx);
		CHECK_EQ(muu::arity<F>, Arity, "arity");
		CHECK_EQ(muu::arity<Fnx>, Arity, "arity of a noexcept function");
		if constexpr (!std::is_function_v<F>)
		{
			SAME(muu::add_noexcept<const F>, const Fnx);
			SAME(muu::add_noexcept<volatile F&>, volatile Fnx&);
			SAME(muu::remove_noexcept<const volatile Fnx&&>, const volatile F&&);
			SAME(muu::remove_noexcept<const F>, const F);
			SAME(muu::remove_callconv<const F&>, const F&);
			CHECK_EQ(muu::arity<const F>, Arity, "arity of a const pointer");
			CHECK_EQ(muu::arity<Fnx&>, Arity, "arity of a reference to a pointer");
		}
	}
	template <size_t... I>
	void functions(pbt::Case& c, std::index_sequence<I...>)
	{
		constexpr size_t n = sizeof...(I);
#define P typename nth_<I>::type...
		fn<int(P), int(P) noexcept, n>(c);
		fn<void (*)(P), void (*)(P) noexcept, n>(c);
		fn<cls (cls::*)(P), cls (cls::*)(P) noexcept, n>(c);
		fn<int (cls::*)(P) const, int (cls::*)(P) const noexcept, n>(c);
		fn<int (cls::*)(P) volatile, int (cls::*)(P) volatile noexcept, n>(c);
		fn<int (cls::*)(P) const volatile, int (cls::*)(P) const volatile noexcept, n>(c);
		fn<int (cls::*)(P)&, int (cls::*)(P)& noexcept, n>(c);
		fn<int (cls::*)(P)&&, int (cls::*)(P)&& noexcept, n>(c);
		fn<int (cls::*)(P) const&, int (cls::*)(P) const& noexcept, n>(c);
		fn<int (cls::*)(P) volatile&, int (cls::*)(P) volatile& noexcept, n>(c);
		fn<int (cls::*)(P) const volatile&, int (cls::*)(P) const volatile& noexcept, n>(c);
		fn<int (cls::*)(P) const&&, int (cls::*)(P) const&& noexcept, n>(c);
		fn<int (cls::*)(P) volatile&&, int (cls::*)(P) volatile&& noexcept, n>(c);
		fn<int (cls::*)(P) const volatile&&, int (cls::*)(P) const volatile&& noexcept, n>(c);
		SAMEN(muu::add_noexcept<int (&)(P)>, int (&)(P) noexcept);
		SAMEN(muu::remove_noexcept<int (&)(P) noexcept>, int (&)(P));
		SAMEN(muu::remove_noexcept<int (&&)(P) noexcept>, int (&&)(P));
		CHECK_EQ((muu::arity<int (&)(P)>), n, "arity of a reference");
		struct functor { void operator()(P) const noexcept; };
		struct mutable_functor { int operator()(P) &; };
		CHECK_EQ(muu::arity<functor>, n, "arity of a function object");
		CHECK_EQ(muu::arity<const functor&>, n, "arity of a function object");
		CHECK_EQ(muu::arity<mutable_functor>, n, "arity of a function object");
		auto lambda			= [](P) noexcept {};
		int x				= 0;
		auto stateful		= [&](P) { return x; };
		auto mutable_lambda = [](P) mutable { return 1.0; };
		using L = decltype(lambda);
		using S = decltype(stateful);
		using M = decltype(mutable_lambda);
		CHECK_EQ(muu::arity<L>, n, "arity of a lambda");
		CHECK_EQ(muu::arity<S&>, n, "arity of a lambda with captures");
		CHECK_EQ(muu::arity<const M>, n, "arity of a mutable lambda");
		CHECK(muu::is_stateless_lambda<L> && muu::is_stateless_lambda<const L&> && muu::is_stateless_lambda<M>, "is_stateless_lambda");
		CHECK(!muu::is_stateless_lambda<S> && !muu::is_stateless_lambda<int> && !muu::is_stateless_lambda<void (*)(P)>, "is_stateless_lambda of something else");
		CHECK((muu::is_stateless_lambda<L, void(P)> && muu::is_stateless_lambda<L, void (*)(P) noexcept> && muu::is_stateless_lambda<M, double (&)(P)>), "is_stateless_lambda compatible with a function");
		CHECK(!(muu::is_stateless_lambda<M, double(P) noexcept>), "is_stateless_lambda compatible with a noexcept function");
		CHECK(!(muu::is_stateless_lambda<L, void(P, int)>) && !(muu::is_stateless_lambda<S, int(P)>), "is_stateless_lambda compatible with a function");
		CHECK(muu::decays_to_function_pointer_by_unary_plus<L> && muu::decays_to_pointer_by_unary_plus<const L&> && !muu::decays_to_pointer_by_unary_plus<S>
				  && !muu::decays_to_function_pointer_by_unary_plus<S>,
			  "decays_to_function_pointer_by_unary_plus");
		c.nontrivial(n > 0);
#undef P
	}
	template <size_t... N>
	void all_functions(pbt::Case& c, std::index_sequence<N...>)
	{
		(functions(c, std::make_index_sequence<N>{}), ...);
	}
}
template <> struct std::tuple_size<tuple_like> : std::integral_constant<size_t, 3> {};
template <size_t I> struct std::tuple_element<I, tuple_like> { using type = int; };
template <> struct std::tuple_size<adl_tuple> : std::integral_constant<size_t, 2> {};
template <size_t I> struct std::tuple_element<I, adl_tuple> { using type = int; };

PROP(conversions_of_every_pair, 1, 1)
{
	all_pairs(c, std::make_index_sequence<conv::size>{});
	c.enumerated(conv::size * conv::size, conv::size * conv::size);
}
PROP(conversions_to_many, 200, 200)
{
	run_family(c, c.below(families), std::make_index_sequence<families>{});
}
PROP(operators, 1, 1)
{
	all_ops(c, std::make_index_sequence<ops::size>{});
	CHECK(muu::has_arrow_operator<cls*> && muu::has_arrow_operator<cls* const&> && !muu::has_arrow_operator<int*> && !muu::has_arrow_operator<cls**>, "has_arrow_operator of pointers");
	CHECK((muu::has_subscript_operator<int*> && muu::has_subscript_operator<std::map<std::string, int>&, const char*> && !muu::has_subscript_operator<std::map<std::string, int>&>
		   && muu::has_subscript_operator<int[3]> && !muu::has_subscript_operator<std::list<int>>),
		  "has_subscript_operator");
	CHECK((muu::has_equality_operator<int> && muu::has_equality_operator<int, float> && !muu::has_equality_operator<cls> && muu::has_equality_operator<std::string, const char*>), "has_equality_operator");
	CHECK((muu::has_pre_increment_operator<int&> && !muu::has_pre_increment_operator<const int&> && !muu::has_pre_increment_operator<int>), "has_pre_increment_operator of integers");
	c.enumerated(ops::size * 90, ops::size * 90);
	c.nontrivial(true);
}
PROP(shapes, 1, 1)
{
	size_t n = 0;
#define YES(trait, ...) do { CHECK(bool(muu::trait<__VA_ARGS__>), #trait "<" #__VA_ARGS__ "> should be true"); n++; } while (false)
#define NO(trait, ...) do { CHECK(!bool(muu::trait<__VA_ARGS__>), #trait "<" #__VA_ARGS__ "> should be false"); n++; } while (false)
	// iteration
	YES(is_iterable, std::vector<int>);
	YES(is_iterable, const std::vector<int>&);
	YES(is_iterable, std::list<int>&);
	YES(is_iterable, std::forward_list<cls>);
	YES(is_iterable, std::map<int, cls>&&);
	YES(is_iterable, std::array<int, 0>);
	YES(is_iterable, std::string_view);
	YES(is_iterable, std::initializer_list<int>);
	YES(is_iterable, int[3]);
	YES(is_iterable, const int (&)[3]);
	YES(is_iterable, cls[2][2]);
	YES(is_iterable, two_iterators);
	YES(is_iterable, sentinel_end);
	YES(is_iterable, const sentinel_end&);
	YES(is_iterable, adl_range&);
	NO(is_iterable, adl_range);
	NO(is_iterable, const adl_range&);
	NO(is_iterable, const two_iterators);
	NO(is_iterable, only_begin);
	NO(is_iterable, void_iterators);
	NO(is_iterable, bad_iterators);
	NO(is_iterable, int);
	NO(is_iterable, int*);
	NO(is_iterable, void);
	NO(is_iterable, cls);
	NO(is_iterable, std::unique_ptr<int>);
	// data() and size()
	YES(has_data_member_function, std::vector<int>);
	YES(has_data_member_function, const std::string&);
	YES(has_data_member_function, pointer_data);
	NO(has_data_member_function, const pointer_data);
	NO(has_data_member_function, handle_data);
	NO(has_data_member_function, std::deque<int>);
	NO(has_data_member_function, int[3]);
	YES(has_size_member_function, std::deque<int>);
	YES(has_size_member_function, const std::set<int>);
	YES(has_size_member_function, sized);
	NO(has_size_member_function, float_sized);
	NO(has_size_member_function, bool_sized);
	NO(has_size_member_function, std::forward_list<int>);
	NO(has_size_member_function, int[4]);
	// tuples
	YES(is_tuple_like, std::tuple<int>);
	YES(is_tuple_like, const std::tuple<int, cls, void*>&);
	YES(is_tuple_like, std::pair<int, float>&&);
	YES(is_tuple_like, std::array<int, 3>);
	YES(is_tuple_like, tuple_like);
	YES(is_tuple_like, const adl_tuple&);
	YES(is_tuple_like, muu::vector<float, 3>);
	NO(is_tuple_like, std::vector<int>);
	NO(is_tuple_like, int);
	NO(is_tuple_like, int[3]);
	NO(is_tuple_like, cls);
#define SIZE(want, ...) do { CHECK_EQ((muu::tuple_size<__VA_ARGS__>), size_t{ want }, "tuple_size of " #__VA_ARGS__); n++; } while (false)
	SIZE(0, std::tuple<>);
	SIZE(1, std::tuple<int>);
	SIZE(3, const std::tuple<int, cls, void*>);
	SIZE(2, std::pair<int, int>);
	SIZE(9, std::array<cls, 9>);
	SIZE(3, tuple_like);
	SIZE(2, adl_tuple);
	SIZE(0, int);
	SIZE(0, std::vector<int>);
	SIZE(0, cls);
	SIZE(2, std::pair<int, int>&);
	SIZE(3, const std::tuple<int, cls, void*>&);
	SIZE(4, std::tuple<int, int, int, int>&&);
	SIZE(0, int&);
	{
		const int a = c.integer<int>(), b = c.integer<int>();
		std::tuple<int, std::string, int> t{ a, "x", b };
		std::pair<int, int> p{ a, b };
		std::array<int, 3> arr{ a, b, a };
		adl_tuple adl{ a, b };
		tuple_like mem;
		NOTE(a << " " << b);
		CHECK(&muu::get_from_tuple_like<0>(t) == &std::get<0>(t) && muu::get_from_tuple_like<2>(t) == b && muu::get_from_tuple_like<1>(t) == "x", "get_from_tuple_like of a tuple");
		CHECK(&muu::get_from_tuple_like<1>(p) == &p.second && &muu::get_from_tuple_like<0>(p) == &p.first, "get_from_tuple_like of a pair");
		CHECK(&muu::get_from_tuple_like<2>(arr) == &arr[2] && &muu::get_from_tuple_like<1>(arr) == &arr[1], "get_from_tuple_like of an array");
		CHECK(&muu::get_from_tuple_like<1>(adl) == &adl.b && &muu::get_from_tuple_like<0>(std::as_const(adl)) == &adl.a, "get_from_tuple_like by ADL");
		CHECK(muu::get_from_tuple_like<0>(mem) == 1 && muu::get_from_tuple_like<2>(mem) == 21, "get_from_tuple_like by a member");
		CHECK((std::is_same_v<decltype(muu::get_from_tuple_like<1>(std::move(t))), std::string&&>), "get_from_tuple_like of an rvalue");
		CHECK((std::is_same_v<decltype(muu::get_from_tuple_like<1>(std::as_const(t))), const std::string&>), "get_from_tuple_like of a const tuple");
		muu::vector<int, 3> v{ a, b, 7 };
		CHECK(muu::get_from_tuple_like<0>(v) == a && muu::get_from_tuple_like<1>(v) == b && muu::get_from_tuple_like<2>(v) == 7, "get_from_tuple_like of a vector");
	}
	// mutexes
	YES(is_mutex_like, std::mutex);
	YES(is_mutex_like, std::recursive_mutex&);
	YES(is_mutex_like, std::shared_mutex);
	YES(is_mutex_like, half_shared);
	NO(is_mutex_like, half_mutex);
	NO(is_mutex_like, const std::mutex);
	NO(is_mutex_like, int);
	YES(is_shared_mutex_like, std::shared_mutex);
	YES(is_shared_mutex_like, std::shared_timed_mutex&);
	NO(is_shared_mutex_like, std::mutex);
	NO(is_shared_mutex_like, half_shared);
	// inheritance
	YES(inherits_from, child, parent);
	YES(inherits_from, const grandchild&, parent&&);
	YES(inherits_from, hidden, parent);
	NO(inherits_from, parent, child);
	NO(inherits_from, parent, const parent&);
	NO(inherits_from, int, int);
	NO(inherits_from, child*, parent*);
	YES(inherits_from_any, child, cls, parent);
	YES(inherits_from_any, child, parent, cls);
	NO(inherits_from_any, child, cls, child, int);
	YES(inherits_from_all, grandchild, child, parent);
	NO(inherits_from_all, grandchild, child, cls);
	NO(inherits_from_all, grandchild, cls, parent);
	NO(inherits_from_all, grandchild, child, grandchild);
	// axis tags
	CHECK((muu::x_axis_tag::value == 0 && muu::y_axis_tag::value == 1 && muu::z_axis_tag::value == 2 && muu::w_axis_tag::value == 3), "axis tags");
	// detection
	YES(is_detected, std::void_t, int);
	YES(is_detected, std::common_type_t, int, float);
	NO(is_detected, std::common_type_t, int, cls);
	NO(always_false, int, cls);
	// manifestable
	YES(is_trivially_manifestable, cls);
	YES(is_trivially_manifestable, const cls&);
	NO(is_trivially_manifestable, int);
	NO(is_trivially_manifestable, parent);
	NO(is_trivially_manifestable, std::string);
	NO(is_trivially_manifestable, adl_tuple);
	// how read-only parameters are passed: small and cheap to copy by value, anything else by const reference
#define PARAM(T, ...) do { CHECK((std::is_same_v<muu::readonly_param<T>, __VA_ARGS__>), "readonly_param<" #T "> should be " #__VA_ARGS__); n++; } while (false)
	PARAM(int, int);
	PARAM(const int&, int);
	PARAM(volatile double, double);
	PARAM(cls*, cls*);
	PARAM(cls* const&, cls*);
	PARAM(scoped&&, scoped);
	PARAM(muu::half&, muu::half);
	PARAM(const __int128, __int128);
	PARAM(cls, cls);
	PARAM(std::string_view&, std::string_view);
	PARAM(std::string, const std::string&);
	PARAM(std::vector<int>&&, const std::vector<int>&);
	PARAM(const std::string&, const std::string&);
	PARAM(std::unique_ptr<int>, const std::unique_ptr<int>&);
	using big_trivial = std::array<int, 5>;
	using small_trivial = std::array<int, 4>;
	PARAM(big_trivial, const big_trivial&);
	PARAM(small_trivial, small_trivial);
	PARAM(std::shared_ptr<int>&, std::shared_ptr<int>);
	// epsilon types: integers count as doubles
#define EPS(want, ...) do { CHECK((std::is_same_v<muu::epsilon_type<__VA_ARGS__>, want>), "epsilon_type<" #__VA_ARGS__ "> should be " #want); n++; } while (false)
	EPS(float, float);
	EPS(float, const float&, float);
	EPS(double, float, double);
	EPS(double, double&, float, muu::half);
	EPS(long double, float, long double, double);
	EPS(float, muu::half, float);
	EPS(muu::half, muu::half, muu::half&);
	EPS(double, int);
	EPS(double, float, unsigned char);
	EPS(double, int, long, muu::half);
	EPS(long double, int, long double);
	c.enumerated(n, n);
	c.nontrivial(true);
}
PROP(functions_and_lambdas, 1, 1)
{
	all_functions(c, std::make_index_sequence<7>{});
	c.enumerated(7 * 60, 7 * 60);
}
