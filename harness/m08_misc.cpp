#include "common.hpp"
#include <muu/core.h>
#include <muu/compressed_pair.h>
#include <muu/static_array.h>
#include <muu/pointer_cast.h>
#include <muu/strong_typedef.h>
#include <algorithm>
#include <memory>
#include <tuple>
#include <map>
#include <unordered_map>
#include <array>

// ================================================================ compressed_pair
namespace
{
	struct E1
	{};
	struct E2
	{
		int call(int x) const { return x + 1; }
	};
	struct E3 : E1
	{};
	struct F1 final
	{};
	struct plain
	{
		int16_t a;
		char b;
	};
	struct alignas(32) wide
	{
		int v;
	};
	struct tracked
	{
		static int live;
		int v;
		const tracked* self;
		tracked() : tracked{ 0 } {}
		explicit tracked(int x) : v{ x }, self{ this } { live++; }
		tracked(const tracked& o) : v{ o.v }, self{ this } { live++; }
		tracked(tracked&& o) noexcept : v{ std::exchange(o.v, -1) }, self{ this } { live++; }
		tracked& operator=(const tracked& o)
		{
			v = o.v;
			return *this;
		}
		tracked& operator=(tracked&& o) noexcept
		{
			if (&o != this)
				v = std::exchange(o.v, -1);
			return *this;
		}
		~tracked()
		{
			if (self != this)
				std::abort();
			live--;
		}
	};
	int tracked::live = 0;
	struct counted_empty // empty, yet its lifetime can be observed
	{
		static int live;
		counted_empty() { live++; }
		counted_empty(const counted_empty&) { live++; }
		counted_empty& operator=(const counted_empty&) = default;
		~counted_empty() { live--; }
	};
	int counted_empty::live = 0;

	template <typename T>
	T mk(int v)
	{
		if constexpr (std::is_empty_v<T>)
			return T{};
		else if constexpr (std::is_same_v<T, std::string>)
			return std::to_string(v) + std::string(static_cast<size_t>(v & 31), '-');
		else if constexpr (std::is_same_v<T, std::unique_ptr<int>>)
			return std::make_unique<int>(v);
		else if constexpr (std::is_same_v<T, plain>)
			return plain{ static_cast<int16_t>(v), static_cast<char>(v >> 16) };
		else if constexpr (std::is_same_v<T, wide>)
			return wide{ v };
		else
			return T(v);
	}
	template <typename T>
	bool is(const T& t, int v)
	{
		if constexpr (std::is_empty_v<T>)
			return true;
		else if constexpr (std::is_same_v<T, std::unique_ptr<int>>)
			return t && *t == v;
		else if constexpr (std::is_same_v<T, plain>)
			return t.a == static_cast<int16_t>(v) && t.b == static_cast<char>(v >> 16);
		else if constexpr (std::is_same_v<T, tracked>)
			return t.v == v && t.self == &t;
		else if constexpr (std::is_same_v<T, wide>)
			return t.v == v && reinterpret_cast<uintptr_t>(&t) % 32 == 0;
		else
			return t == mk<T>(v);
	}
	template <typename F, typename S, typename P>
	void pair_is(pbt::Case& c, P& p, int f, int s, const char* what)
	{
		CHECK(is<F>(p.first(), f) && is<S>(p.second(), s), what << ": first() and second()");
		CHECK(is<F>(std::as_const(p).first(), f) && is<S>(std::as_const(p).second(), s), what << ": const first() and second()");
		CHECK(is<F>(p.template get<0>(), f) && is<S>(p.template get<1>(), s), what << ": get<>");
		CHECK(is<F>(std::as_const(p).template get<0>(), f) && is<S>(std::as_const(p).template get<1>(), s), what << ": const get<>");
		CHECK(static_cast<const void*>(&p.first()) == static_cast<const void*>(&p.template get<0>()), what << ": get<0> is first");
		CHECK(static_cast<const void*>(&p.second()) == static_cast<const void*>(&p.template get<1>()), what << ": get<1> is second");
		auto& [x, y]		= p;
		const auto& [cx, cy] = p;
		CHECK(is<F>(x, f) && is<S>(y, s) && is<F>(cx, f) && is<S>(cy, s), what << ": structured binding");
		static_assert(std::is_same_v<decltype(std::move(p).first()), F&&> && std::is_same_v<decltype(p.second()), S&>);
		static_assert(std::is_same_v<decltype(std::move(std::as_const(p)).second()), const S&&>);
		static_assert(std::is_same_v<decltype(std::as_const(p).first()), const F&>);
		static_assert(std::is_same_v<std::tuple_element_t<0, P>, F> && std::is_same_v<std::tuple_element_t<1, P>, S>
					  && std::tuple_size_v<P> == 2);
	}
	template <typename F, typename S>
	void pair_test(pbt::Case& c)
	{
		using P = muu::compressed_pair<F, S>;
		using R = std::pair<F, S>;
		static_assert(std::is_same_v<typename P::first_type, F> && std::is_same_v<typename P::second_type, S>);
		CHECK(sizeof(P) <= sizeof(R), "size " << sizeof(P) << " of the compressed pair against " << sizeof(R));
		const int f = c.integer<int32_t>() & 0xFFFFFF, s = c.integer<int32_t>() & 0xFFFFFF;
		const int f2 = c.integer<int16_t>() & 0x7FFF, s2 = c.integer<int16_t>() & 0x7FFF;
		const int l0 = tracked::live, e0 = counted_empty::live;
		{
			P p{ mk<F>(f), mk<S>(s) };
			pair_is<F, S>(c, p, f, s, "from rvalues");
			if constexpr (!std::is_empty_v<F> && !std::is_const_v<F>)
			{
				p.first() = mk<F>(f2);
				pair_is<F, S>(c, p, f2, s, "after writing first");
			}
			else
				p.first() = mk<F>(f2);
			p.template get<1>() = mk<S>(s2);
			pair_is<F, S>(c, p, f2, s2, "after writing second");
			P q{ mk<F>(f), mk<S>(s) };
			const auto how = c.raw(2);
			if (how == 0)
				p.swap(q);
			else if (how == 1)
				swap(p, q);
			else
				std::swap(p, q);
			pair_is<F, S>(c, p, f, s, "after swap");
			pair_is<F, S>(c, q, f2, s2, "after swap");
			P m{ std::move(p) };
			pair_is<F, S>(c, m, f, s, "move constructed");
			m = std::move(q);
			pair_is<F, S>(c, m, f2, s2, "move assigned");
			if constexpr (std::is_copy_constructible_v<F> && std::is_copy_constructible_v<S>)
			{
				const F lf = mk<F>(f);
				const S ls = mk<S>(s);
				P a{ lf, ls };
				pair_is<F, S>(c, a, f, s, "from lvalues");
				P b{ a };
				pair_is<F, S>(c, b, f, s, "copied");
				pair_is<F, S>(c, a, f, s, "source of copy");
				b = m;
				pair_is<F, S>(c, b, f2, s2, "copy assigned");
				pair_is<F, S>(c, m, f2, s2, "source of copy assignment");
				b.second() = mk<S>(s);
				pair_is<F, S>(c, b, f2, s, "written copy");
				pair_is<F, S>(c, m, f2, s2, "copies are independent");
				P d{ lf, mk<S>(s2) };
				pair_is<F, S>(c, d, f, s2, "lvalue and rvalue");
				muu::compressed_pair e{ lf, mk<S>(s2) };
				static_assert(std::is_same_v<decltype(e), P>);
				pair_is<F, S>(c, e, f, s2, "deduced");
				auto [x, y] = d;
				CHECK(is<F>(x, f) && is<S>(y, s2), "structured binding by value");
				auto* self = &d;
				d		   = *self;
				pair_is<F, S>(c, d, f, s2, "self-assignment");
			}
			F tf = std::move(m).first();
			CHECK(is<F>(tf, f2) && is<S>(m.second(), s2), "moving first out");
			S ts = std::move(m).template get<1>();
			CHECK(is<S>(ts, s2), "moving second out");
			if constexpr (std::is_default_constructible_v<F> && std::is_default_constructible_v<S>)
			{
				P z{};
				if constexpr (std::is_arithmetic_v<S>)
					CHECK(z.second() == S{}, "value initialised");
				(void)z;
			}
		}
		CHECK_EQ(tracked::live, l0, "objects left alive");
		CHECK_EQ(counted_empty::live, e0, "empty objects left alive");
		c.nontrivial(f != f2 && s != s2);
	}
	template <typename F>
	void pair_row(pbt::Case& c)
	{
		switch (c.raw(11))
		{
			case 0: return pair_test<F, int>(c);
			case 1: return pair_test<F, std::string>(c);
			case 2: return pair_test<F, E1>(c);
			case 3: return pair_test<F, E2>(c);
			case 4: return pair_test<F, F1>(c);
			case 5: return pair_test<F, tracked>(c);
			case 6: return pair_test<F, counted_empty>(c);
			case 7: return pair_test<F, std::unique_ptr<int>>(c);
			case 8: return pair_test<F, plain>(c);
			case 9: return pair_test<F, wide>(c);
			case 10: return pair_test<F, E3>(c);
			default: return pair_test<F, double>(c);
		}
	}
}
#if PART == 1
PROP_T("pairs starting with int", 4000, 60000, (pair_row<int>));
PROP_T("pairs starting with char", 4000, 60000, (pair_row<char>));
PROP_T("pairs starting with string", 4000, 60000, (pair_row<std::string>));
PROP_T("pairs starting with unique_ptr", 4000, 60000, (pair_row<std::unique_ptr<int>>));
#elif PART == 2
PROP_T("pairs starting with empty", 4000, 60000, (pair_row<E1>));
PROP_T("pairs starting with empty derived", 4000, 60000, (pair_row<E3>));
PROP_T("pairs starting with empty final", 4000, 60000, (pair_row<F1>));
PROP_T("pairs starting with counted empty", 4000, 60000, (pair_row<counted_empty>));
#elif PART == 3
PROP_T("pairs starting with tracked", 4000, 60000, (pair_row<tracked>));
PROP_T("pairs starting with overaligned", 4000, 60000, (pair_row<wide>));

PROP(pairs_of_references, 5000, 50000)
{
	int a = c.integer<int32_t>(), b = c.integer<int32_t>();
	const int a0 = a, b0 = b;
	double d = 1;
	muu::compressed_pair<int&, const int&> p{ a, b };
	CHECK(&p.first() == &a && &p.second() == &b, "references");
	CHECK(&p.get<0>() == &a && &p.get<1>() == &b, "references through get");
	muu::compressed_pair<int&, const int&> q{ p };
	CHECK(&q.first() == &a && &q.second() == &b, "copied references");
	q.first() = b0;
	CHECK_EQ(a, b0, "write through reference");
	a = a0;
	muu::compressed_pair<E2, int&> e{ E2{}, a };
	CHECK(&e.second() == &a && e.first().call(1) == 2, "empty and reference");
	CHECK(sizeof(e) == sizeof(void*), "empty and reference is as large as a reference");
	muu::compressed_pair<double&, E1> g{ d, E1{} };
	CHECK(&g.first() == &d && sizeof(g) == sizeof(void*), "reference and empty");
	CHECK(sizeof(muu::compressed_pair<int, E1>) == sizeof(int) && sizeof(muu::compressed_pair<E1, int>) == sizeof(int)
			  && sizeof(muu::compressed_pair<E1, E2>) == 1,
		  "empty members take no room");
	const muu::compressed_pair<int, const int> k{ a0, b0 };
	CHECK(k.first() == a0 && k.second() == b0, "const members");
	// a lambda as an empty member
	auto sq = [](int x) { return x * 3; };
	muu::compressed_pair<decltype(sq), int> l{ sq, 7 };
	CHECK(l.first()(l.second()) == 21, "lambda member");
	auto cap = [&a](int x) { return x + a; };
	muu::compressed_pair m{ cap, a0 };
	CHECK(m.first()(0) == a0 && m.second() == a0, "capturing lambda member");
	c.nontrivial(a0 != b0);
}

// ================================================================ static_array
namespace
{
	constexpr size_t rounds = 24;
	struct two_arrays
	{
		int a[8]{}, b[8]{};
		size_t n = 0, m = 0;
	};
	template <size_t I>
	constexpr two_arrays gen()
	{
		crng r{ VERIF_SEED * 1000003u + I };
		two_arrays t;
		t.n = 1 + r.below(7);
		t.m = r.below(3) ? t.n : 1 + r.below(7);
		const auto tie = r.below(9);
		for (size_t i = 0; i < 8; i++)
		{
			t.a[i] = static_cast<int>(r.below(5)) - 2;
			t.b[i] = i < tie ? t.a[i] : static_cast<int>(r.below(5)) - 2;
		}
		return t;
	}
	template <typename T, size_t I, bool Second, size_t... K>
	constexpr auto mk_array(std::index_sequence<K...>)
	{
		constexpr auto t = gen<I>();
		return muu::static_array<T, static_cast<T>(Second ? t.b[K] : t.a[K])...>{};
	}
	template <typename A>
	void one_array(pbt::Case& c, const int* ref, size_t n)
	{
		using T = std::remove_const_t<typename A::value_type>;
		static constexpr A a{};
		CHECK_EQ(a.size(), n, "size()");
		CHECK_EQ(a.empty(), n == 0, "empty()");
		for (size_t i = 0; i < n; i++)
		{
			CHECK_EQ(a[i], static_cast<T>(ref[i]), "element " << i);
			CHECK(&a[i] == a.data() + i && A::values[i] == a[i], "address of element " << i);
		}
		CHECK(a.data() == a.begin() && a.cbegin() == a.begin() && a.cend() == a.end(), "iterators");
		CHECK(begin(a) == a.begin() && end(a) == a.end() && cbegin(a) == a.begin() && cend(a) == a.end(), "free iterators");
		CHECK_EQ(static_cast<size_t>(a.end() - a.begin()), n, "distance");
		size_t k = 0;
		for (auto& v : a)
		{
			CHECK(&v == &a[k], "iteration");
			k++;
		}
		CHECK_EQ(k, n, "elements iterated");
		CHECK(a.front() == static_cast<T>(ref[0]) && a.back() == static_cast<T>(ref[n - 1]), "front() and back()");
	}
	template <typename T, size_t I>
	void array_round(pbt::Case& c)
	{
		constexpr auto t = gen<I>();
		constexpr auto a = mk_array<T, I, false>(std::make_index_sequence<t.n>{});
		constexpr auto b = mk_array<T, I, true>(std::make_index_sequence<t.m>{});
		one_array<std::remove_const_t<decltype(a)>>(c, t.a, t.n);
		one_array<std::remove_const_t<decltype(b)>>(c, t.b, t.m);
		std::vector<T> x, y;
		for (size_t i = 0; i < t.n; i++)
			x.push_back(static_cast<T>(t.a[i]));
		for (size_t i = 0; i < t.m; i++)
			y.push_back(static_cast<T>(t.b[i]));
		constexpr bool eq = a == b, ne = a != b, lt = a < b, le = a <= b, gt = a > b, ge = a >= b;
		CHECK_EQ(eq, x == y, "==");
		CHECK_EQ(ne, x != y, "!=");
		CHECK_EQ(lt, x < y, "<");
		CHECK_EQ(le, x <= y, "<=");
		CHECK_EQ(gt, x > y, ">");
		CHECK_EQ(ge, x >= y, ">=");
		CHECK(a == a && !(a != a) && !(a < a) && a <= a && !(a > a) && a >= a, "comparison with itself");
		c.nontrivial(t.n != t.m || x != y);
	}
	template <size_t... I>
	void array_rounds(pbt::Case& c, std::index_sequence<I...>)
	{
		(array_round<int, I>(c), ...);
		(array_round<uint8_t, I + 1000>(c), ...);
		(array_round<int64_t, I + 2000>(c), ...);
	}
}
PROP(static_arrays, 1, 1)
{
	array_rounds(c, std::make_index_sequence<rounds>{});
	muu::static_array<int> e;
	CHECK(e.size() == 0 && e.empty() && e.begin() == e.end(), "empty array");
	CHECK((muu::static_array<int>{} < muu::static_array<int, -5>{} && !(muu::static_array<int, -5>{} < muu::static_array<int>{})),
		  "empty array sorts first");
	c.enumerated(3 * rounds, 3 * rounds);
	c.nontrivial();
}

#elif PART == 4
// ================================================================ pointer_cast
namespace
{
	struct base1
	{
		int64_t a = 1;
	};
	struct base2
	{
		int64_t b = 2;
	};
	struct derived : base1, base2
	{
		int64_t d = 3;
	};
	struct poly1
	{
		int64_t a = 1;
		virtual ~poly1() {}
	};
	struct poly2
	{
		int64_t b = 2;
		virtual ~poly2() {}
	};
	struct pderived : poly1, poly2
	{
		int64_t d = 3;
	};
	struct other : poly2
	{
		int64_t o = 4;
	};
	struct vderived : virtual poly1, virtual poly2
	{
		int64_t d = 5;
	};
	enum class addr_enum : uintptr_t
	{
	};
	enum class saddr_enum : intptr_t
	{
	};
	int f1(int x) { return x + 1; }
	int f2(int x) noexcept { return x + 2; }
	using pf  = int (*)(int);
	using pfn = int (*)(int) noexcept;

	template <typename I>
	void through_integer(pbt::Case& c, void* p, const char* what)
	{
		using muu::pointer_cast;
		const I i = pointer_cast<I>(p);
		using W	  = std::conditional_t<muu::is_signed<I>, intptr_t, uintptr_t>;
		CHECK(i == static_cast<I>(reinterpret_cast<W>(p)), what << ": value");
		CHECK(pointer_cast<void*>(i) == p, what << ": back to void*");
		CHECK(pointer_cast<int*>(i) == p, what << ": back to int*");
		CHECK(pointer_cast<const volatile int64_t*>(i) == p, what << ": back to cv pointer");
		CHECK(pointer_cast<int**>(i) == p, what << ": back to int**");
		CHECK(pointer_cast<I>(static_cast<const int*>(p)) == i, what << ": from const int*");
		CHECK(pointer_cast<I>(static_cast<int**>(p)) == i, what << ": from int**");
		CHECK(pointer_cast<I>(static_cast<volatile char*>(p)) == i, what << ": from volatile char*");
	}
	template <typename A, typename B>
	void through_pointer(pbt::Case& c, A a, const char* what)
	{
		using muu::pointer_cast;
		B b = pointer_cast<B>(a);
		CHECK(static_cast<const volatile void*>(b) == static_cast<const volatile void*>(a), what);
		CHECK(pointer_cast<A>(b) == a, what << ": and back");
		CHECK(pointer_cast<A>(a) == a, what << ": no-op");
	}
}
PROP(pointers_and_integers, 30000, 300000)
{
	// aligned so that the pointer types involved are valid
	void* p = reinterpret_cast<void*>(c.integer<uint64_t>() & ~uint64_t{ 15 });
	NOTE(p);
	through_integer<uintptr_t>(c, p, "uintptr_t");
	through_integer<intptr_t>(c, p, "intptr_t");
	through_integer<unsigned long long>(c, p, "unsigned long long");
	through_integer<long long>(c, p, "long long");
	through_integer<addr_enum>(c, p, "enum");
	through_integer<saddr_enum>(c, p, "signed enum");
	through_integer<__int128>(c, p, "__int128");
	through_integer<unsigned __int128>(c, p, "unsigned __int128");
	through_pointer<void*, int*>(c, p, "void*, int*");
	through_pointer<void*, const int*>(c, p, "void*, const int*");
	through_pointer<const void*, int*>(c, p, "const void*, int*");
	through_pointer<const volatile void*, volatile int*>(c, p, "const volatile void*, volatile int*");
	through_pointer<void*, const void*>(c, p, "void*, const void*");
	through_pointer<void*, const volatile void*>(c, p, "void*, const volatile void*");
	through_pointer<const void*, volatile void*>(c, p, "const void*, volatile void*");
	through_pointer<int*, const int*>(c, static_cast<int*>(p), "int*, const int*");
	through_pointer<int*, const volatile int*>(c, static_cast<int*>(p), "int*, const volatile int*");
	through_pointer<const int*, volatile int*>(c, static_cast<int*>(p), "const int*, volatile int*");
	through_pointer<int*, float*>(c, static_cast<int*>(p), "int*, float*");
	through_pointer<const int*, float*>(c, static_cast<int*>(p), "const int*, float*");
	through_pointer<int*, const char*>(c, static_cast<int*>(p), "int*, const char*");
	through_pointer<int**, void*>(c, static_cast<int**>(p), "int**, void*");
	through_pointer<int**, char*>(c, static_cast<int**>(p), "int**, char*");
	through_pointer<char*, int**>(c, static_cast<char*>(p), "char*, int**");
	through_pointer<int**, float**>(c, static_cast<int**>(p), "int**, float**");
	through_pointer<int**, const int**>(c, static_cast<int**>(p), "int**, const int**");
	through_pointer<int* const*, int**>(c, static_cast<int**>(p), "int* const*, int**");
	through_pointer<int***, int*>(c, static_cast<int***>(p), "int***, int*");
	through_pointer<const char*, const std::byte*>(c, static_cast<char*>(p), "const char*, const byte*");
	c.nontrivial(p != nullptr);
}
PROP(pointers_within_hierarchies, 5000, 50000)
{
	using muu::pointer_cast;
	derived d[3];
	auto* x = &d[c.raw(2)];
	CHECK(pointer_cast<base1*>(x) == static_cast<base1*>(x) && pointer_cast<base2*>(x) == static_cast<base2*>(x), "derived to base");
	CHECK(pointer_cast<const base2*>(x) == static_cast<base2*>(x), "derived to const base");
	CHECK(pointer_cast<base2*>(const_cast<const derived*>(x)) == static_cast<base2*>(x), "const derived to base");
	CHECK(pointer_cast<derived*>(static_cast<base2*>(x)) == x && pointer_cast<derived*>(static_cast<base1*>(x)) == x, "base to derived");
	CHECK(pointer_cast<const derived*>(static_cast<base2*>(x)) == x, "base to const derived");
	CHECK(pointer_cast<derived*>(static_cast<const base2*>(x)) == x, "const base to derived");
	CHECK(pointer_cast<volatile derived*>(static_cast<const base2*>(x)) == x, "const base to volatile derived");
	CHECK(pointer_cast<base2*>(x)->b == 2 && pointer_cast<derived*>(pointer_cast<base2*>(x))->d == 3, "members");
	CHECK(pointer_cast<base2*>(static_cast<derived*>(nullptr)) == nullptr, "null derived to base");
	CHECK(pointer_cast<derived*>(static_cast<base2*>(nullptr)) == nullptr, "null base to derived");
	pderived p;
	other o;
	vderived v;
	poly2* as2 = c.b() ? static_cast<poly2*>(&p) : (c.b() ? static_cast<poly2*>(&o) : static_cast<poly2*>(&v));
	NOTE((as2 == &p ? "pderived" : as2 == &o ? "other" : "vderived"));
	CHECK(pointer_cast<pderived*>(as2) == dynamic_cast<pderived*>(as2), "polymorphic base to derived");
	CHECK(pointer_cast<const pderived*>(as2) == dynamic_cast<pderived*>(as2), "polymorphic base to const derived");
	CHECK(pointer_cast<pderived*>(static_cast<const poly2*>(as2)) == dynamic_cast<pderived*>(as2), "const polymorphic base to derived");
	CHECK(pointer_cast<other*>(as2) == dynamic_cast<other*>(as2), "polymorphic base to derived");
	CHECK(pointer_cast<vderived*>(as2) == dynamic_cast<vderived*>(as2), "virtual base to derived");
	CHECK(pointer_cast<poly2*>(&p) == static_cast<poly2*>(&p), "polymorphic derived to base");
	CHECK(pointer_cast<poly2*>(&v) == static_cast<poly2*>(&v), "derived to virtual base");
	CHECK(pointer_cast<pderived*>(static_cast<poly2*>(nullptr)) == nullptr, "null polymorphic base");
	CHECK(pointer_cast<int*>(nullptr) == nullptr && pointer_cast<pf>(nullptr) == nullptr && pointer_cast<const void*>(nullptr) == nullptr,
		  "nullptr");
	// arrays
	int arr[4]			= {};
	const double carr[2] = {};
	CHECK(pointer_cast<uintptr_t>(arr) == reinterpret_cast<uintptr_t>(&arr[0]), "array to integer");
	CHECK(static_cast<void*>(pointer_cast<char*>(arr)) == &arr[0], "array to char*");
	CHECK(static_cast<void*>(pointer_cast<double*>(carr)) == &carr[0], "const array");
	// functions
	void* v1 = pointer_cast<void*>(&f1);
	void* v2 = pointer_cast<void*>(&f2);
	const int a = c.integer<int16_t>();
	CHECK(pointer_cast<pf>(v1) == &f1 && pointer_cast<pf>(v1)(a) == a + 1, "function through void*");
	CHECK(pointer_cast<pfn>(v2) == &f2 && pointer_cast<pf>(v2)(a) == a + 2, "noexcept function through void*");
	CHECK(pointer_cast<pf>(static_cast<const void*>(v1)) == &f1, "function through const void*");
	CHECK(pointer_cast<const void*>(&f1) == v1, "function to const void*");
	pfn n = &f2;
	CHECK(pointer_cast<pf>(n)(a) == a + 2, "noexcept to plain function");
	CHECK(pointer_cast<pfn>(static_cast<pf>(&f2)) == n, "plain to noexcept function");
	CHECK(pointer_cast<pf>(pointer_cast<uintptr_t>(&f1)) == &f1, "function through integer");
	c.nontrivial(x != &d[0]);
}

// ================================================================ strong_typedef
namespace
{
	struct tag1;
	struct tag2;
	namespace st = muu::strong_typedef_traits;
	template <typename T>
	using num =
		muu::strong_typedef<T, tag1, st::addable, st::subtractable, st::incrementable, st::decrementable, st::comparable, st::boolean>;

	template <typename T>
	T value(pbt::Case& c)
	{
		if constexpr (std::is_floating_point_v<T>)
			return static_cast<T>(c.smooth(1e6));
		else if constexpr (sizeof(T) < sizeof(int))
			return c.integer<T>();
		else if constexpr (std::is_signed_v<T>)
			return c.integer<T>() / 2; // no overflow
		else
			return c.integer<T>();
	}
	template <typename T>
	void numeric(pbt::Case& c)
	{
		using S	  = num<T>;
		const T a = value<T>(c), b = c.chance(1, 4) ? a : value<T>(c);
		const S x{ a }, y{ b };
		static_assert(sizeof(S) == sizeof(T) && std::is_trivially_copyable_v<S> == std::is_trivially_copyable_v<T>);
		static_assert(!std::is_convertible_v<T, S>, "strong typedefs are made explicitly");
		static_assert(!std::is_constructible_v<S, muu::strong_typedef<T, tag2>>, "distinct typedefs do not mix");
		CHECK_EQ(x.value, a, "value");
		CHECK_EQ(x == y, a == b, "==");
		CHECK_EQ(x != y, a != b, "!=");
		CHECK_EQ(x < y, a < b, "<");
		CHECK_EQ(x <= y, a <= b, "<=");
		CHECK_EQ(x > y, a > b, ">");
		CHECK_EQ(x >= y, a >= b, ">=");
		static_assert(std::is_same_v<decltype(x + y), S> && std::is_same_v<decltype(-x), S>);
		CHECK_EQ((x + y).value, static_cast<T>(a + b), "+");
		CHECK_EQ((x - y).value, static_cast<T>(a - b), "-");
		CHECK_EQ((+x).value, static_cast<T>(+a), "unary +");
		CHECK_EQ((-x).value, static_cast<T>(-a), "unary -");
		CHECK_EQ(static_cast<bool>(x), static_cast<bool>(a), "bool");
		CHECK_EQ(!x, !a, "!");
		if (a < std::numeric_limits<T>::max() && a > std::numeric_limits<T>::lowest())
		{
			T r = a;
			S s{ a };
			CHECK_EQ((s++).value, r++, "post increment result");
			CHECK_EQ(s.value, r, "post increment");
			CHECK_EQ((s--).value, r--, "post decrement result");
			CHECK_EQ(s.value, r, "post decrement");
			CHECK(&++s == &s && s.value == ++r, "pre increment");
			CHECK(&--s == &s && s.value == --r, "pre decrement");
		}
		S cp = x;
		cp	 = y;
		CHECK_EQ(cp.value, b, "assignment");
		CHECK_EQ(x.value, a, "copies are independent");
		T& ref = static_cast<T&>(cp);
		CHECK(&ref == &cp.value, "conversion to reference");
		CHECK(&static_cast<const T&>(x) == &x.value, "conversion to const reference");
		CHECK_EQ(std::hash<S>{}(x), std::hash<T>{}(a), "hash");
		c.nontrivial(a != b);
	}
}
PROP_T("strong int8", 3000, 50000, (numeric<int8_t>));
PROP_T("strong uint8", 3000, 50000, (numeric<uint8_t>));
PROP_T("strong short", 3000, 50000, (numeric<short>));
PROP_T("strong unsigned short", 3000, 50000, (numeric<unsigned short>));
PROP_T("strong int", 3000, 50000, (numeric<int>));
PROP_T("strong unsigned", 3000, 50000, (numeric<unsigned>));
PROP_T("strong int64", 3000, 50000, (numeric<int64_t>));
PROP_T("strong uint64", 3000, 50000, (numeric<uint64_t>));
PROP_T("strong float", 3000, 50000, (numeric<float>));
PROP_T("strong double", 3000, 50000, (numeric<double>));

PROP(strong_others, 5000, 80000)
{
	// pointer offsets
	using off = muu::strong_typedef<ptrdiff_t, tag1, st::pointer_arithmetic, st::comparable>;
	int arr[40];
	const auto i = c.i(0, 39), j = c.i(0, 39);
	const off o{ j - i };
	CHECK(arr + i + o == arr + j && o + (arr + i) == arr + j, "pointer plus offset");
	CHECK(arr + j - o == arr + i, "pointer minus offset");
	// strings
	using str = muu::strong_typedef<std::string, tag2, st::addable, st::comparable>;
	const std::string a = c.bytes(c.biased_size(30)), b = c.chance(1, 3) ? a : c.bytes(c.biased_size(30));
	const str x{ a }, y{ b };
	CHECK((x + y).value == a + b, "concatenation");
	CHECK((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b)
			  && (x >= y) == (a >= b),
		  "string comparison");
	str m{ std::string(a) };
	str n{ std::move(m) };
	CHECK(n.value == a, "moved");
	CHECK(std::hash<str>{}(x) == std::hash<std::string>{}(a), "hash");
	std::unordered_map<str, int, std::hash<str>> map;
	map[x] = 1;
	CHECK(map.count(y) == (a == b), "as a key");
	// callables
	int calls = 0;
	auto f	  = [&calls](int v) {
		   calls += v;
		   return v * 2;
	};
	using fn = muu::strong_typedef<decltype(f), tag2, st::callable>;
	fn g{ f };
	CHECK(g(static_cast<int>(i)) == 2 * i && calls == i, "callable");
	CHECK(std::as_const(g)(static_cast<int>(j)) == 2 * j && calls == i + j, "const callable");
	// references
	int target = static_cast<int>(i);
	using ref  = muu::strong_typedef<int&, tag1>;
	ref r{ target };
	static_cast<int&>(r) = static_cast<int>(j);
	CHECK(target == j && &r.value == &target, "reference");
	// move-only
	using up = muu::strong_typedef<std::unique_ptr<int>, tag1, st::boolean, st::comparable>;
	up u{ std::make_unique<int>(3) };
	CHECK(static_cast<bool>(u) && !!u, "non-null");
	up w{ std::move(u) };
	CHECK(!u && *w.value == 3 && u != w, "moved pointer");
	c.nontrivial(a != b && i != j);
}
#endif
