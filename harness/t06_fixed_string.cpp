#include "utf.hpp"
#include <muu/core.h>
#include <muu/fixed_string.h>
#include <cwchar>
using muu::fixed_string;

namespace
{
	template <typename C>
	C gen_char(pbt::Case& c)
	{
		using U = std::make_unsigned_t<std::conditional_t<sizeof(C) == 1, char, std::conditional_t<sizeof(C) == 2, short, int>>>;
		switch (c.raw(4))
		{
			case 0: return static_cast<C>('a' + c.raw(1));
			case 1: return static_cast<C>(c.pick<U>({ 0, 1, 0x7F, 0x80, 0xFF, static_cast<U>(~U{} >> 1), static_cast<U>(~U{}) }));
			case 2: return static_cast<C>('a' + c.raw(25));
			default: return static_cast<C>(c.raw(static_cast<U>(~U{})));
		}
	}
	template <typename C, size_t N>
	struct both
	{
		fixed_string<C, N> f{ C{} };
		std::basic_string<C> s;
	};
	template <typename C, size_t N>
	both<C, N> gen(pbt::Case& c)
	{
		both<C, N> r;
		for (size_t i = 0; i < N; i++)
		{
			const auto ch = gen_char<C>(c);
			r.s.push_back(ch);
			r.f[i] = ch;
		}
		return r;
	}
	// make b equal to or barely different from a's prefix, so that comparisons are decided late
	template <typename C, size_t N, size_t M>
	void tie(pbt::Case& c, const both<C, N>& a, both<C, M>& b)
	{
		if (c.raw(3) == 0)
			return;
		for (size_t i = 0; i < std::min(N, M); i++)
			b.f[i] = b.s[i] = a.s[i];
		if (M && c.b())
		{
			const auto at = c.sz(0, M - 1);
			b.f[at] = b.s[at] = gen_char<C>(c);
		}
	}
	template <typename C, size_t N>
	void expect(const fixed_string<C, N>& f, const std::basic_string<C>& s, const char* what)
	{
		CHECK(f.size() == s.size() && N == s.size(), what << ": length " << f.size() << ", expected " << s.size());
		CHECK(std::basic_string<C>(f.data(), f.size()) == s, what << ": got " << utf::hex(std::basic_string<C>(f.data(), f.size())) << ", expected " << utf::hex(s));
		CHECK(f.c_str()[N] == C{}, what << ": no terminating NUL");
	}
	constexpr int sgn(int x) { return (x > 0) - (x < 0); }

	template <typename C, size_t N>
	void basics(pbt::Case& c)
	{
		auto a = gen<C, N>(c);
		NOTE("fixed_string of " << utf::hex(a.s));
		c.nontrivial(N > 0);
		const auto& cf = a.f;
		expect(a.f, a.s, "element-wise");
		CHECK(cf.empty() == (N == 0) && static_cast<bool>(cf) == (N != 0) && cf.length() == N, "emptiness");
		CHECK(cf.view() == a.s && cf.view().data() == cf.data(), "view");
		const std::basic_string_view<C> v = cf;
		CHECK(v == a.s, "conversion to view");
		CHECK(v == cf && cf == v, "comparison with a view");
		CHECK(std::basic_string<C>(cf.begin(), cf.end()) == a.s, "iteration");
		CHECK(std::basic_string<C>(cf.cbegin(), cf.cend()) == a.s, "iteration");
		const std::basic_string<C> rev(a.s.rbegin(), a.s.rend());
		CHECK(std::basic_string<C>(cf.rbegin(), cf.rend()) == rev, "reverse iteration");
		CHECK(std::basic_string<C>(cf.crbegin(), cf.crend()) == rev, "reverse iteration");
		CHECK(std::basic_string<C>(begin(cf), end(cf)) == a.s && std::basic_string<C>(rbegin(cf), rend(cf)) == rev, "free functions");
		CHECK(std::basic_string<C>(a.f.begin(), a.f.end()) == a.s && std::basic_string<C>(a.f.rbegin(), a.f.rend()) == rev, "mutable iteration");
		if constexpr (N > 0)
		{
			CHECK(cf.front() == a.s.front() && cf.back() == a.s.back(), "front/back");
			CHECK(cf.template get<0>() == a.s[0] && cf.template get<N - 1>() == a.s[N - 1], "get");
			// writes
			auto b		= a;
			const auto x = gen_char<C>(c), y = gen_char<C>(c);
			const auto at = c.sz(0, N - 1);
			b.f[at] = b.s[at] = x;
			expect(b.f, b.s, "written by index");
			b.f.front() = b.s.front() = y;
			b.f.back() = b.s.back() = x;
			expect(b.f, b.s, "written at the ends");
			*(b.f.begin() + static_cast<ptrdiff_t>(at)) = b.s[at] = y;
			b.f.template get<N / 2>() = b.s[N / 2] = x;
			expect(b.f, b.s, "written by iterator and get");
			expect(a.f, a.s, "the original");
			b.f = a.f;
			expect(b.f, a.s, "assigned");
		}
		auto copy = a.f;
		expect(copy, a.s, "copied");
		const auto ch = gen_char<C>(c);
		expect(fixed_string<C, N>{ ch }, std::basic_string<C>(N, ch), "filled");
		// lengthen / truncate
		expect(fixed_string<C, N + 3>{ a.f }, a.s + std::basic_string<C>(3, C{}), "lengthened");
		expect(fixed_string<C, N / 2>{ a.f }, a.s.substr(0, N / 2), "truncated");
		// from an array
		C arr[N + 1]{};
		std::copy(a.s.begin(), a.s.end(), arr);
		expect(fixed_string<C, N>{ arr }, a.s, "from array");
		expect(fixed_string<C, N + 4>{ arr }, a.s + std::basic_string<C>(4, C{}), "from shorter array");
		expect(fixed_string<C, N / 2>{ arr }, a.s.substr(0, N / 2), "from longer array");
		expect(fixed_string<C, N>{ static_cast<const C*>(arr), muu::index_tag<N>{} }, a.s, "from pointer");
		expect(fixed_string<C, N / 2>{ static_cast<const C*>(arr), muu::index_tag<N>{} }, a.s.substr(0, N / 2), "from pointer, truncated");
		if constexpr (std::is_same_v<C, char>)
		{
			const auto len = c.sz(0, N + 4);
			std::string src = a.s + "wxyz";
			std::vector<char> exact(src.begin(), src.begin() + static_cast<ptrdiff_t>(len));
			std::string e = src.substr(0, std::min(len, N));
			e.resize(N);
			expect(fixed_string<C, N>{ std::string_view{ exact.data(), exact.size() } }, e, "from view");
			std::ostringstream o;
			o << a.f;
			CHECK(o.str() == a.s, "streamed");
		}
		if constexpr (std::is_same_v<C, wchar_t>)
		{
			// (a character equal to WEOF makes any wide stream report failure)
			if (a.s.find(static_cast<wchar_t>(WEOF)) == a.s.npos)
			{
				std::wostringstream o;
				o << a.f;
				CHECK(o.str() == a.s, "streamed");
			}
		}
		// concatenation with a character
		expect(a.f + ch, a.s + ch, "string + character");
		expect(ch + a.f, ch + a.s, "character + string");
	}

	template <typename C, size_t N, size_t M>
	void pairs(pbt::Case& c)
	{
		auto a = gen<C, N>(c);
		auto b = gen<C, M>(c);
		tie(c, a, b);
		const int e = sgn(a.s.compare(b.s));
		NOTE(utf::hex(a.s) << " vs " << utf::hex(b.s));
		c.nontrivial(N && M);
		c.cls(e == 0, "equal");
		expect(a.f + b.f, a.s + b.s, "concatenation");
		expect(b.f + a.f, b.s + a.s, "concatenation");
		const auto &x = a.f;
		const auto& y = b.f;
		CHECK_EQ(x == y, e == 0, "==");
		CHECK_EQ(x != y, e != 0, "!=");
		CHECK_EQ(x < y, e < 0, "<");
		CHECK_EQ(x <= y, e <= 0, "<=");
		CHECK_EQ(x > y, e > 0, ">");
		CHECK_EQ(x >= y, e >= 0, ">=");
		CHECK_EQ(sgn(fixed_string<C, N>::compare(x, y)), e, "static compare");
		CHECK_EQ(sgn(x.compare(y)), e, "compare");
		CHECK_EQ(y < x, e > 0, "< reversed");
		const std::basic_string_view<C> vy = b.s;
		CHECK_EQ(x == vy, e == 0, "== view");
		CHECK_EQ(x < vy, e < 0, "< view");
		CHECK_EQ(vy > x, e < 0, "> view");
		// itself
		CHECK(x == x && !(x != x) && !(x < x) && x <= x && !(x > x) && x >= x, "comparison with itself");
		CHECK_EQ(sgn(fixed_string<C, N>::compare(x, x)), 0, "compare with itself");
		CHECK_EQ(x.compare(x), 0, "compare with itself");
#if MUU_HAS_THREE_WAY_COMPARISON
		if constexpr (N == M)
		{
			const auto o = x <=> y;
			CHECK_EQ((o > 0) - (o < 0), e, "<=>");
		}
#endif
	}

	// sub-strings: the arguments are template parameters; pseudo-random ones, derived from the seed
	constexpr long long idx(size_t k, size_t n)
	{
		crng g(VERIF_SEED * 977 + k * 31 + n);
		const auto m = g.below(8);
		const long long in = static_cast<long long>(g.below(2 * n + 5)) - static_cast<long long>(n) - 2;
		return m < 6 ? in : m == 6 ? static_cast<long long>(g.below(3)) - 1 : (g.below(2) ? 1000 : -1000);
	}
	// reference for both: python-like
	size_t at(long long i, size_t n) { return i < 0 ? (static_cast<size_t>(-i) >= n ? 0 : n - static_cast<size_t>(-i)) : std::min(static_cast<size_t>(i), n); }

	template <size_t K, typename C, size_t N>
	void sub_one(const both<C, N>& a)
	{
		constexpr long long s = idx(2 * K, N), e = idx(2 * K + 1, N);
		constexpr size_t len = K % 5 == 0 ? static_cast<size_t>(-1) : static_cast<size_t>(e < 0 ? -e : e);
		const size_t S = at(s, N), E = at(e, N);
		const auto whats = [&](const char* f) { std::ostringstream o; o << f << "<" << s << ", " << (long long)(f[1] == 'u' ? (long long)len : e) << "> of " << N; return o.str(); };
		const auto sub = a.s.substr(S, len);
		const auto slc = E > S ? a.s.substr(S, E - S) : std::basic_string<C>{};
		auto chk = [&](const auto& f, const std::basic_string<C>& x, const char* n)
		{
			CHECK(std::basic_string<C>(f.view()) == x, whats(n) << ": got " << utf::hex(std::basic_string<C>(f.view())) << ", expected " << utf::hex(x) << " from " << utf::hex(a.s));
			CHECK(f.c_str()[f.size()] == C{}, "terminating NUL");
		};
		chk(a.f.template substr<s, len>(), sub, "substr");
		chk(a.f.template slice<s, e>(), slc, "slice");
		chk(a.f.template slice<s>(), a.s.substr(S), "slice to the end");
		chk(a.f.template slice<static_cast<int>(s), e>(), slc, "slice with int");
		if constexpr (s >= 0)
			chk(a.f.template substr<static_cast<size_t>(s), len>(), sub, "substr with size_t");
		if constexpr (s >= -128 && s < 128 && e >= -128 && e < 128)
		{
			chk(a.f.template substr<static_cast<signed char>(s), len>(), sub, "substr with signed char");
			chk(a.f.template slice<static_cast<signed char>(s), static_cast<short>(e)>(), slc, "slice with signed char");
		}
	}
	template <typename C, size_t N, size_t... K>
	void subs(pbt::Case& c, std::index_sequence<K...>)
	{
		const auto a = gen<C, N>(c);
		NOTE("sub-strings of " << utf::hex(a.s));
		c.nontrivial();
		(sub_one<K>(a), ...);
	}
	template <typename C, size_t N>
	void substrings(pbt::Case& c)
	{
		subs<C, N>(c, std::make_index_sequence<14>{});
	}
	// every index of a narrow type
	template <typename C, size_t N, int... I>
	void extreme_one(const both<C, N>& a)
	{
		(
			[&]
			{
				constexpr signed char s = static_cast<signed char>(I);
				const auto S			= at(s, N);
				CHECK(std::basic_string<C>(a.f.template substr<s>().view()) == a.s.substr(S), "substr<int8_t{" << I << "}> of length " << N);
				CHECK(std::basic_string<C>(a.f.template slice<0, s>().view()) == a.s.substr(0, S), "slice<0, int8_t{" << I << "}> of length " << N);
			}(),
			...);
		constexpr auto lo = std::numeric_limits<int>::lowest();
		constexpr auto ll = std::numeric_limits<long long>::lowest();
		constexpr auto hi = std::numeric_limits<long long>::max();
		CHECK((std::basic_string<C>(a.f.template substr<lo>().view()) == a.s), "substr<INT_MIN>");
		CHECK((std::basic_string<C>(a.f.template substr<ll, 3>().view()) == a.s.substr(0, 3)), "substr<LLONG_MIN, 3>");
		CHECK((a.f.template slice<hi>().empty() && a.f.template slice<0, ll>().empty()), "slice at the extremes");
		CHECK((std::basic_string<C>(a.f.template slice<ll, hi>().view()) == a.s), "slice<min, max>");
	}
	void extremes(pbt::Case& c)
	{
		extreme_one<char, 200, -128, -127, -126, -64, -1, 0, 1, 63, 126, 127>(gen<char, 200>(c));
		extreme_one<char, 128, -128, -127, 127>(gen<char, 128>(c));
		extreme_one<char16_t, 129, -128, -127, 127>(gen<char16_t, 129>(c));
		c.nontrivial();
	}

	constexpr bool ct()
	{
		constexpr fixed_string a{ "hello" };
		constexpr fixed_string b{ " world" };
		constexpr auto ab = a + b;
		if (ab.view() != "hello world" || ab.size() != 11 || a.compare(a) != 0 || !(a > b) || a == b)
			return false;
		constexpr auto s = ab.slice<-5>();
		if (s.view() != "world" || ab.substr<-5, 3>().view() != "wor" || ab.slice<2, -2>().view() != "llo wor")
			return false;
		constexpr auto x = 'x' + a + 'y';
		if (x.view() != "xhelloy" || !(fixed_string{ "\x80" } > fixed_string{ "a" }))
			return false;
		return fixed_string<char16_t, 3>{ u'q' }.view() == u"qqq" && fixed_string<char, 0>{ 'x' }.empty();
	}
	static_assert(ct());
#if MUU_HAS_FIXED_STRING_LITERALS
	using namespace muu::literals;
	static_assert("abc"_fs.view() == "abc" && ("abc"_fs + "de"_fs).size() == 5 && u"xy"_fs.view() == u"xy" && "abc"_fs < "abd"_fs && ""_fs.empty());
	template <fixed_string S>
	struct as_param
	{
		static constexpr auto value = S;
	};
	static_assert(std::is_same_v<as_param<"abc"_fs>, as_param<fixed_string{ "abc" }>>);
	static_assert(!std::is_same_v<as_param<"abc"_fs>, as_param<fixed_string{ "abd" }>>);
#endif
}
#define ALL(C)                                                                                                        \
	PROP_T("basics " #C " 0", 500, 5000, (basics<C, 0>));                                                              \
	PROP_T("basics " #C " 1", 4000, 100000, (basics<C, 1>));                                                           \
	PROP_T("basics " #C " 6", 8000, 200000, (basics<C, 6>));                                                           \
	PROP_T("basics " #C " 17", 8000, 200000, (basics<C, 17>));                                                         \
	PROP_T("pair " #C " 0,0", 100, 100, (pairs<C, 0, 0>));                                                             \
	PROP_T("pair " #C " 0,2", 2000, 20000, (pairs<C, 0, 2>));                                                          \
	PROP_T("pair " #C " 3,0", 2000, 20000, (pairs<C, 3, 0>));                                                          \
	PROP_T("pair " #C " 1,1", 8000, 200000, (pairs<C, 1, 1>));                                                         \
	PROP_T("pair " #C " 4,4", 12000, 500000, (pairs<C, 4, 4>));                                                        \
	PROP_T("pair " #C " 3,5", 12000, 500000, (pairs<C, 3, 5>));                                                        \
	PROP_T("pair " #C " 9,2", 12000, 500000, (pairs<C, 9, 2>));                                                        \
	PROP_T("substr " #C " 0", 100, 100, (substrings<C, 0>));                                                           \
	PROP_T("substr " #C " 1", 2000, 50000, (substrings<C, 1>));                                                        \
	PROP_T("substr " #C " 7", 6000, 200000, (substrings<C, 7>));
#if PART == 1
ALL(char)
#elif PART == 2
ALL(char16_t)
#elif PART == 3
ALL(wchar_t)
#elif PART == 4
PROP_T("basics char32_t", 8000, 200000, (basics<char32_t, 6>));
PROP_T("pair char32_t", 8000, 200000, (pairs<char32_t, 5, 5>));
PROP_T("pair char32_t 3,5", 8000, 200000, (pairs<char32_t, 3, 5>));
PROP_T("substr char32_t 7", 6000, 200000, (substrings<char32_t, 7>));
#if MUU_HAS_CHAR8
PROP_T("basics char8_t", 8000, 200000, (basics<char8_t, 5>));
PROP_T("pair char8_t", 8000, 200000, (pairs<char8_t, 5, 5>));
#endif
PROP_T("substr char 20", 6000, 100000, (substrings<char, 20>));
PROP_T("extreme indices", 500, 5000, (extremes));
#endif
