#include "common.hpp"
#include <muu/core.h>
#include <muu/span.h>
#include <muu/iterators.h>
#include <array>
#include <list>
#include <deque>
#include <map>
#include <forward_list>
#include <string_view>
using muu::span;

namespace
{
	struct rec
	{
		int64_t a, b;
		int32_t c;
	};
	struct alignas(64) wide
	{
		int32_t v;
	};
	template <typename T>
	T mk(uint64_t v)
	{
		if constexpr (std::is_same_v<T, rec>)
			return rec{ static_cast<int64_t>(v), static_cast<int64_t>(~v), static_cast<int32_t>(v) };
		else if constexpr (std::is_same_v<T, wide>)
			return wide{ static_cast<int32_t>(v) };
		else
			return static_cast<T>(v);
	}
	template <typename T>
	bool same(const T& a, const T& b)
	{
		if constexpr (std::is_same_v<T, rec>)
			return a.a == b.a && a.b == b.b && a.c == b.c;
		else if constexpr (std::is_same_v<T, wide>)
			return a.v == b.v;
		else
			return a == b;
	}

	// everything observable about a span that should cover [p, p+n)
	template <typename S, typename T>
	void covers(pbt::Case& c, const S& s, T* p, size_t n, const char* what)
	{
		using E = typename S::element_type;
		CHECK_EQ(s.size(), n, what << ": size()");
		CHECK_EQ(s.size_bytes(), n * sizeof(T), what << ": size_bytes()");
		CHECK_EQ(s.empty(), n == 0, what << ": empty()");
		CHECK(s.data() == p, what << ": data() is at element " << (s.data() - p) << " of the wanted range");
		CHECK(s.begin() == p && s.end() == p + n, what << ": begin()/end()");
		CHECK(begin(s) == p && end(s) == p + n, what << ": begin(s)/end(s)");
		CHECK_EQ(static_cast<size_t>(s.end() - s.begin()), n, what << ": end - begin");
		CHECK_EQ(static_cast<size_t>(s.rend() - s.rbegin()), n, what << ": rend - rbegin");
		CHECK(s.rbegin().base() == p + n && s.rend().base() == p, what << ": rbegin()/rend()");
		CHECK(rbegin(s).base() == p + n && rend(s).base() == p, what << ": rbegin(s)/rend(s)");
		CHECK(muu::begin_iterator(s) == p && muu::end_iterator(s) == p + n, what << ": begin_iterator()/end_iterator()");
		CHECK_EQ(muu::iterator_distance(s.begin(), s.end()), static_cast<ptrdiff_t>(n), what << ": iterator_distance()");
		static_assert(std::is_same_v<typename S::value_type, std::remove_cv_t<E>>);
		static_assert(std::is_same_v<decltype(s[0]), E&> && std::is_same_v<decltype(s.front()), E&>);
		if (n)
		{
			CHECK(&s.front() == p && &s.back() == p + (n - 1), what << ": front()/back()");
			CHECK(&*s.begin() == p && &*s.rbegin() == p + (n - 1), what << ": *begin()/*rbegin()");
		}
		size_t i = 0;
		for (auto& e : s)
		{
			CHECK(&e == p + i, what << ": element " << i << " by iteration");
			CHECK(&s[i] == p + i, what << ": element " << i << " by index");
			i++;
		}
		CHECK_EQ(i, n, what << ": number of elements iterated");
		for (auto it = s.rbegin(); it != s.rend(); ++it)
		{
			i--;
			CHECK(&*it == p + i, what << ": element " << i << " in reverse");
		}
		CHECK_EQ(i, size_t{}, what << ": number of elements iterated in reverse");
		const auto b  = muu::as_bytes(s);
		const auto* q = reinterpret_cast<const unsigned char*>(p);
		CHECK(reinterpret_cast<const unsigned char*>(b.data()) == q && b.size() == n * sizeof(T), what << ": as_bytes()");
		for (size_t k = 0; k < b.size() && k < 70; k++)
			CHECK(static_cast<unsigned char>(b[k]) == q[k], what << ": byte " << k);
		if constexpr (!std::is_const_v<E>)
		{
			const auto w = muu::as_writable_bytes(s);
			CHECK(reinterpret_cast<unsigned char*>(w.data()) == q && w.size() == n * sizeof(T), what << ": as_writable_bytes()");
			if (n)
			{
				T keep			= p[n - 1];
				const auto last = w.size() - sizeof(T);
				w[last]			= static_cast<std::byte>(static_cast<unsigned char>(w[last]) ^ 0x55u);
				CHECK(std::memcmp(&keep, p + (n - 1), sizeof(T)) != 0, what << ": write through the byte view");
				w[last] = static_cast<std::byte>(static_cast<unsigned char>(w[last]) ^ 0x55u);
				CHECK(same(keep, p[n - 1]), what << ": write through the byte view");
			}
		}
	}

	template <typename T, size_t A = 0>
	void slices(pbt::Case& c)
	{
		const size_t n = c.biased_size(40);
		std::vector<T> store_;
		for (size_t i = 0; i < n; i++)
			store_.push_back(mk<T>(i * 3 + 1));
		T* const base = store_.data();
		span<T, muu::dynamic_extent, A> s0{ base, n };
		covers(c, s0, base, n, "pointer and count");
		span<T> s{ s0 };
		size_t lo = 0, hi = n;
		bool sliced	   = false;
		const auto ops = c.below(7);
		for (uint64_t i = 0; i < ops; i++)
		{
			const size_t m = hi - lo;
			switch (c.below(9))
			{
				case 0:
				{
					const auto k = c.sz(0, m);
					NOTE("first(" << k << ") of " << m);
					s  = s.first(k);
					hi = lo + k;
					sliced |= k < m && k;
					break;
				}
				case 1:
				{
					const auto k = c.sz(0, m);
					NOTE("last(" << k << ") of " << m);
					s  = s.last(k);
					lo = hi - k;
					sliced |= k < m && k;
					break;
				}
				case 2:
					if (m)
					{
						const auto o = c.sz(0, m - 1);
						const auto k = c.sz(0, m - o);
						NOTE("subspan(" << o << "," << k << ") of " << m);
						s = s.subspan(o, k);
						lo += o;
						hi = lo + k;
						sliced |= k < m && k;
					}
					break;
				case 3:
					if (m)
					{
						const auto o = c.sz(0, m - 1);
						NOTE("subspan(" << o << ") of " << m);
						s = c.b() ? s.subspan(o) : s.subspan(o, muu::dynamic_extent);
						lo += o;
						sliced |= o > 0;
					}
					break;
				case 4:
					NOTE("from iterators");
					if (m)
						s = span<T>{ store_.begin() + static_cast<ptrdiff_t>(lo), store_.begin() + static_cast<ptrdiff_t>(hi) };
					break;
				case 5:
					NOTE("from iterator and count");
					if (m)
						s = span<T>{ store_.begin() + static_cast<ptrdiff_t>(lo), m };
					break;
				case 6:
					NOTE("from pointers");
					s = span<T>{ s.begin(), s.end() };
					break;
				case 7:
					if (m >= 2)
					{
						NOTE("static first<2>/last<1>/subspan<1,1> of " << m);
						const auto f = s.template first<2>();
						covers(c, f, base + lo, 2, "first<2>");
						covers(c, s.template first<0>(), base + lo, 0, "first<0>");
						covers(c, s.template last<2>(), base + hi - 2, 2, "last<2>");
						covers(c, s.template last<0>(), base + hi, 0, "last<0>");
						covers(c, s.template subspan<1, 1>(), base + lo + 1, 1, "subspan<1,1>");
						covers(c, s.template subspan<1, 0>(), base + lo + 1, 0, "subspan<1,0>");
						covers(c, s.template subspan<1>(), base + lo + 1, m - 1, "subspan<1>");
						if (c.b())
						{
							s  = f; // static to dynamic
							hi = lo + 2;
							sliced |= m > 2;
						}
						else
						{
							span<T, 2> fixed{ s.first(2) }; // dynamic to static
							covers(c, fixed, base + lo, 2, "dynamic to static");
							span<const T, 2> cf = fixed;
							covers(c, cf, const_cast<const T*>(base + lo), 2, "static to const static");
						}
					}
					break;
				default:
					if (m)
					{
						const auto k	  = c.sz(0, m - 1);
						const uint64_t v  = c.below(200);
						const auto before = store_;
						s[k]			  = mk<T>(v);
						for (size_t q = 0; q < n; q++)
							CHECK(same(store_[q], q == lo + k ? mk<T>(v) : before[q]), "write to element " << k << " of the span at " << lo);
					}
			}
			covers(c, s, base + lo, hi - lo, "slice");
			span<const T> cs = s;
			covers(c, cs, const_cast<const T*>(base + lo), hi - lo, "const slice");
			span<const volatile T> vs{ s };
			CHECK(vs.data() == base + lo && vs.size() == hi - lo, "cv slice");
			auto cp = s;
			covers(c, cp, base + lo, hi - lo, "copy");
		}
		c.nontrivial(sliced);
		c.cls(lo > 0 && hi < n, "both ends cut");
	}

	// every static offset/count pair of a static span of N elements
	template <size_t N, size_t O, size_t K, typename S, typename T>
	void static_pair(pbt::Case& c, const S& s, T* p)
	{
		if constexpr (O < N && K <= N - O)
		{
			auto q = s.template subspan<O, K>();
			static_assert(std::is_same_v<decltype(q), span<T, K>>);
			covers(c, q, p + O, K, "static subspan<O,K>");
			if constexpr (K == 0)
				covers(c, s.template subspan<O>(), p + O, N - O, "static subspan<O>");
			if constexpr (O == 0)
			{
				auto f = s.template first<K>();
				auto l = s.template last<K>();
				static_assert(decltype(f)::extent == K && decltype(l)::extent == K);
				covers(c, f, p, K, "static first<K>");
				covers(c, l, p + (N - K), K, "static last<K>");
				covers(c, s.first(K), p, K, "first(K)");
				covers(c, s.last(K), p + (N - K), K, "last(K)");
			}
			covers(c, s.subspan(O, K), p + O, K, "subspan(O,K)");
		}
	}
	template <size_t N, size_t O, typename S, typename T, size_t... K>
	void static_row(pbt::Case& c, const S& s, T* p, std::index_sequence<K...>)
	{
		(static_pair<N, O, K>(c, s, p), ...);
	}
	template <size_t N, typename S, typename T, size_t... O>
	void static_all(pbt::Case& c, const S& s, T* p, std::index_sequence<O...>)
	{
		(static_row<N, O>(c, s, p, std::make_index_sequence<N + 1>{}), ...);
		static_row<N, 0>(c, s, p, std::index_sequence<N>{});
	}
	template <typename T, size_t N>
	void sources(pbt::Case& c)
	{
		T arr[N];
		std::array<T, N> sa;
		for (size_t i = 0; i < N; i++)
			arr[i] = sa[i] = mk<T>(c.raw(250));
		const std::array<T, N>& csa = sa;
		const T(&carr)[N]			= arr;
		covers(c, span<T>{ arr }, arr, N, "array");
		covers(c, span<T, N>{ arr }, arr, N, "array, static");
		covers(c, span<const T>{ arr }, carr, N, "array, const");
		covers(c, span<const T>{ carr }, carr, N, "const array");
		covers(c, span<const T, N>{ carr }, carr, N, "const array, static");
		covers(c, span<T>{ sa }, sa.data(), N, "std::array");
		covers(c, span<T, N>{ sa }, sa.data(), N, "std::array, static");
		covers(c, span<const T>{ sa }, csa.data(), N, "std::array, const");
		covers(c, span<const T>{ csa }, csa.data(), N, "const std::array");
		covers(c, span<const T, N>{ csa }, csa.data(), N, "const std::array, static");
		covers(c, span<T, N>{ arr, N }, arr, N, "pointer+count, static");
		covers(c, span<T, N>{ arr, arr + N }, arr, N, "pointer+pointer, static");
		covers(c, span<const T>{ arr, arr + N }, carr, N, "pointer+pointer, const");
		span d1{ arr };
		span d2{ sa };
		span d3{ csa };
		span d4{ &arr[0], N };
		static_assert(std::is_same_v<decltype(d1), span<T, N>> && std::is_same_v<decltype(d2), span<T, N>>
					  && std::is_same_v<decltype(d3), span<const T, N>> && std::is_same_v<decltype(d4), span<T>>);
		covers(c, d1, arr, N, "deduced from array");
		covers(c, d2, sa.data(), N, "deduced from std::array");
		covers(c, d3, csa.data(), N, "deduced from const std::array");
		covers(c, d4, arr, N, "deduced from pointer+count");
		const span<T, N> fixed{ arr };
		static_all<N>(c, fixed, arr, std::make_index_sequence<N>{});
		span<T, muu::dynamic_extent> dyn = fixed;
		covers(c, dyn, arr, N, "static to dynamic");
		span<const T> cdyn = fixed;
		covers(c, cdyn, carr, N, "static to const dynamic");
		covers(c, span<const T, N>{ dyn }, carr, N, "dynamic to const static");
		// conversions that would misjudge the number of elements, or drop const, must not exist
		CHECK((!std::is_constructible_v<span<T, N + 1>, span<T, N>>), "a span of N+1 elements from a span of N");
		CHECK((!std::is_constructible_v<span<T, N + 1>, T(&)[N]>), "a span of N+1 elements from an array of N");
		CHECK((!std::is_constructible_v<span<T, N + 1>, std::array<T, N>&>), "a span of N+1 elements from a std::array of N");
		// (a writable span from a span, pointer or array of const is a recorded finding: the repository's own tests
		// depend on it)
		CHECK((!std::is_convertible_v<span<T>, span<T, N>>), "dynamic to static is explicit");
		CHECK((!std::is_constructible_v<span<const T>, span<volatile T>> && !std::is_constructible_v<span<volatile T>, span<const T>>),
			  "const and volatile exchanged");
		c.nontrivial(N > 1);
	}

	template <typename It>
	struct odd_range // iterable through free functions only
	{
		It b, e;
		friend It begin(const odd_range& r) { return r.b; }
		friend It end(const odd_range& r) { return r.e; }
	};
	template <typename C>
	void iterables(pbt::Case& c, C& x, size_t n)
	{
		CHECK(muu::begin_iterator(x) == std::begin(x), "begin_iterator");
		CHECK(muu::end_iterator(x) == std::end(x), "end_iterator");
		CHECK(muu::begin_iterator(std::as_const(x)) == std::cbegin(x), "begin_iterator of const");
		CHECK(muu::end_iterator(std::as_const(x)) == std::cend(x), "end_iterator of const");
		CHECK_EQ(muu::iterator_distance(muu::begin_iterator(x), muu::end_iterator(x)), static_cast<ptrdiff_t>(n), "iterator_distance");
		auto it = x.begin();
		for (size_t i = 0; i <= n; i++)
		{
			CHECK_EQ(muu::iterator_distance(x.begin(), it), static_cast<ptrdiff_t>(i), "iterator_distance from the front");
			CHECK_EQ(muu::iterator_distance(it, x.end()), static_cast<ptrdiff_t>(n - i), "iterator_distance to the back");
			if (i < n)
				++it;
		}
		using it_t = decltype(x.begin());
		odd_range<it_t> r{ x.begin(), x.end() };
		CHECK(muu::begin_iterator(r) == x.begin() && muu::end_iterator(r) == x.end(), "free begin()/end()");
	}
}

PROP_T("slice chains of bytes", 20000, 300000, (slices<uint8_t>));
PROP_T("slice chains of ints", 20000, 300000, (slices<int>));
PROP_T("slice chains of records", 20000, 300000, (slices<rec>));
PROP_T("slice chains of over-aligned elements", 10000, 100000, (slices<wide>));
PROP_T("slice chains of aligned doubles", 10000, 100000, (slices<double, 16>));
PROP_T("sources of 1 element", 300, 3000, (sources<int, 1>));
PROP_T("sources of 2 elements", 300, 3000, (sources<uint8_t, 2>));
PROP_T("sources of 3 elements", 300, 3000, (sources<rec, 3>));
PROP_T("sources of 6 elements", 300, 3000, (sources<int16_t, 6>));
PROP_T("sources of 9 elements", 300, 3000, (sources<int, 9>));

PROP(iterator_helpers, 5000, 50000)
{
	const size_t n = c.biased_size(20);
	std::vector<int> v(n);
	std::list<int> l(n);
	std::deque<int> d(n);
	std::map<int, int> m;
	for (size_t i = 0; i < n; i++)
		m[static_cast<int>(i)] = 0;
	iterables(c, v, n);
	iterables(c, l, n);
	iterables(c, d, n);
	iterables(c, m, n);
	std::string s(n, 'x');
	iterables(c, s, n);
	int arr[7][3];
	CHECK(muu::begin_iterator(arr) == &arr[0] && muu::end_iterator(arr) == &arr[0] + 7, "two-dimensional array");
	const char text[] = "hello";
	CHECK(muu::begin_iterator(text) == text && muu::end_iterator(text) == text + 6, "string literal array");
	double one[1];
	CHECK(muu::end_iterator(one) - muu::begin_iterator(one) == 1, "array of one");
	// random access distances may be negative
	const auto a = static_cast<ptrdiff_t>(c.sz(0, n)), b = static_cast<ptrdiff_t>(c.sz(0, n));
	CHECK_EQ(muu::iterator_distance(v.begin() + a, v.begin() + b), b - a, "distance of vector iterators");
	CHECK_EQ(muu::iterator_distance(v.cbegin() + a, v.begin() + b), b - a, "distance of mixed vector iterators");
	CHECK_EQ(muu::iterator_distance(d.begin() + a, d.begin() + b), b - a, "distance of deque iterators");
	CHECK_EQ(muu::iterator_distance(v.data() + a, v.data() + b), b - a, "distance of pointers");
	CHECK_EQ(muu::iterator_distance(v.rbegin() + a, v.rbegin() + b), b - a, "distance of reverse iterators");
	CHECK_EQ(muu::iterator_distance(static_cast<int>(a), static_cast<long>(b)), b - a, "distance of integers");
	c.nontrivial(n > 1);
}

PROP(empty_spans, 100, 1000)
{
	span<int> e;
	CHECK(e.empty() && e.size() == 0 && e.data() == nullptr && e.begin() == e.end() && e.rbegin() == e.rend(), "default span");
	span<int, 0> z;
	CHECK(z.empty() && z.size() == 0 && z.begin() == z.end(), "default span of 0 elements");
	span<int> n{ static_cast<int*>(nullptr), size_t{} };
	CHECK(n.empty() && n.first(0).empty() && n.last(0).empty() && n.first<0>().empty() && n.last<0>().empty(), "null span");
	CHECK(muu::as_bytes(n).empty() && muu::as_writable_bytes(n).empty() && muu::as_bytes(z).empty(), "bytes of null span");
	std::vector<int> v;
	span<int> w{ v.data(), v.size() };
	CHECK(w.empty() && w.begin() == w.end(), "span of an empty vector");
	c.nontrivial();
}
