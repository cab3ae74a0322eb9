// E04: loops over compile-time indices, flag operators stamped on enumerations, iterator helpers, preprocessor helpers,
// source positions.
#include "common.hpp"
#ifndef PART
	#define PART 0
#endif
#include <muu/core.h>
#include <muu/iterators.h>
#include <muu/source_location.h>
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

#if PART == 0
namespace
{
	// a result whose comma operator must never run
	struct poisoned
	{
		template <typename T>
		friend void operator,(poisoned, T&&)
		{
			std::abort();
		}
		template <typename T>
		friend void operator,(T&&, poisoned)
		{
			std::abort();
		}
	};

	template <typename T>
	struct recorder
	{
		std::vector<std::pair<T, int>>* log;
		int state = 0;

		template <typename I>
		poisoned operator()(I i) &
		{
			static_assert(std::is_same_v<I, std::integral_constant<T, I::value>>);
			static_assert(decltype(i)::value >= T{});
			log->push_back({ i, 100 + state++ });
			return {};
		}
		template <typename I>
		poisoned operator()(I i) const&
		{
			static_assert(std::is_same_v<I, std::integral_constant<T, I::value>>);
			log->push_back({ i, 200 });
			return {};
		}
		template <typename I>
		poisoned operator()(I i) &&
		{
			static_assert(std::is_same_v<I, std::integral_constant<T, I::value>>);
			log->push_back({ i, 300 + state++ });
			return {};
		}
		template <typename I>
		poisoned operator()(I i) const&&
		{
			log->push_back({ i, 400 });
			return {};
		}
	};
	template <typename T, typename U>
	struct recorder2
	{
		struct entry
		{
			T a;
			U b;
			int how;
		};
		std::vector<entry>* log;
		int state = 0;

		template <typename I, typename J>
		poisoned operator()(I i, J j) &
		{
			static_assert(std::is_same_v<I, std::integral_constant<T, I::value>>);
			static_assert(std::is_same_v<J, std::integral_constant<U, J::value>>);
			log->push_back({ i, j, 100 + state++ });
			return {};
		}
		template <typename I, typename J>
		poisoned operator()(I i, J j) const&
		{
			log->push_back({ i, j, 200 });
			return {};
		}
		template <typename I, typename J>
		poisoned operator()(I i, J j) &&
		{
			static_assert(std::is_same_v<I, std::integral_constant<T, I::value>>);
			static_assert(std::is_same_v<J, std::integral_constant<U, J::value>>);
			log->push_back({ i, j, 300 + state++ });
			return {};
		}
		template <typename I, typename J>
		poisoned operator()(I i, J j) const&&
		{
			log->push_back({ i, j, 400 });
			return {};
		}
	};

	template <auto N>
	void seq(pbt::Case& c)
	{
		using T			   = decltype(N);
		constexpr size_t n = static_cast<size_t>(N);
		std::vector<std::pair<T, int>> log;
		const auto check = [&](const char* how, int first, int step)
		{
			CHECK(log.size() == n, "for_sequence<" << n << ">(" << how << ") made " << log.size() << " calls");
			for (size_t i = 0; i < n; i++)
			{
				CHECK(static_cast<size_t>(log[i].first) == i, "for_sequence<" << n << ">(" << how << ") call " << i << " was given " << +log[i].first);
				CHECK(log[i].second == first + step * static_cast<int>(i),
					  "for_sequence<" << n << ">(" << how << ") call " << i << " went to overload/state " << log[i].second);
			}
			log.clear();
		};
		recorder<T> r{ &log };
		muu::for_sequence<N>(r);
		check("lvalue", 100, 1);
		CHECK(r.state == static_cast<int>(n), "for_sequence worked on a copy of an lvalue callable");
		muu::for_sequence<N>(std::as_const(r));
		check("const lvalue", 200, 0);
		muu::for_sequence<N>(recorder<T>{ &log });
		check("rvalue", 300, 1);
		muu::for_sequence<N>(std::move(std::as_const(r)));
		check("const rvalue", 400, 0);
		// not copyable, not movable
		struct fixed
		{
			size_t sum = 0;
			fixed()	   = default;
			fixed(const fixed&) = delete;
			fixed& operator=(const fixed&) = delete;
			void operator()(T i) { sum = sum * 31 + static_cast<size_t>(i) + 1; }
		} f;
		muu::for_sequence<N>(f);
		NOTE("for_sequence<" << n << "> of " << sizeof(T) << "-byte indices");
		size_t want = 0;
		for (size_t i = 0; i < n; i++)
			want = want * 31 + i + 1;
		CHECK(f.sum == want, "for_sequence<" << n << "> over a pinned callable");
		static_assert(std::is_void_v<decltype(muu::for_sequence<N>(f))>);
		// usable in constant expressions
		constexpr size_t folded = []()
		{
			size_t v = 0;
			muu::for_sequence<N>([&](auto i) { v = v * 31 + static_cast<size_t>(decltype(i)::value) + 1; });
			return v;
		}();
		CHECK(folded == want, "for_sequence<" << n << "> in a constant expression");
		// an exception stops the sequence
		if constexpr (n > 0)
		{
			const size_t stop = static_cast<size_t>(c.below(n));
			size_t calls	  = 0;
			bool caught		  = false;
			try
			{
				muu::for_sequence<N>(
					[&](auto i)
					{
						if (static_cast<size_t>(decltype(i)::value) == stop)
							throw 1;
						calls++;
					});
			}
			catch (int)
			{
				caught = true;
			}
			CHECK(caught && calls == stop, "for_sequence<" << n << "> whose call " << stop << " threw made " << calls << " calls before it");
		}
		c.enumerated(n * 5 + 1, n * 5 + 1);
	}

	template <auto N, auto M>
	void prod(pbt::Case& c)
	{
		using T			   = decltype(N);
		using U			   = decltype(M);
		constexpr size_t n = static_cast<size_t>(N), m = static_cast<size_t>(M);
		std::vector<typename recorder2<T, U>::entry> log;
		const auto check = [&](const char* how, int first, int step)
		{
			CHECK(log.size() == n * m, "for_product<" << n << ", " << m << ">(" << how << ") made " << log.size() << " calls");
			for (size_t i = 0; i < n * m; i++)
			{
				CHECK(static_cast<size_t>(log[i].a) == i / m && static_cast<size_t>(log[i].b) == i % m,
					  "for_product<" << n << ", " << m << ">(" << how << ") call " << i << " was given " << +log[i].a << ", " << +log[i].b);
				CHECK(log[i].how == first + step * static_cast<int>(i),
					  "for_product<" << n << ", " << m << ">(" << how << ") call " << i << " went to overload/state " << log[i].how);
			}
			log.clear();
		};
		recorder2<T, U> r{ &log };
		muu::for_product<N, M>(r);
		check("lvalue", 100, 1);
		CHECK(r.state == static_cast<int>(n * m), "for_product worked on a copy of an lvalue callable");
		muu::for_product<N, M>(std::as_const(r));
		check("const lvalue", 200, 0);
		muu::for_product<N, M>(recorder2<T, U>{ &log });
		check("rvalue", 300, 1);
		muu::for_product<N, M>(std::move(std::as_const(r)));
		check("const rvalue", 400, 0);
		NOTE("for_product<" << n << ", " << m << ">");
		size_t want = 0;
		for (size_t i = 0; i < n * m; i++)
			want = want * 31 + (i / m) * 7 + i % m + 1;
		constexpr size_t folded = []()
		{
			size_t v = 0;
			muu::for_product<N, M>(
				[&](auto i, auto j)
				{ v = v * 31 + static_cast<size_t>(decltype(i)::value) * 7 + static_cast<size_t>(decltype(j)::value) + 1; });
			return v;
		}();
		CHECK(folded == want, "for_product<" << n << ", " << m << "> in a constant expression");
		if constexpr (n * m > 0)
		{
			const size_t stop = static_cast<size_t>(c.below(n * m));
			size_t calls	  = 0;
			bool caught		  = false;
			try
			{
				muu::for_product<N, M>(
					[&](auto i, auto j)
					{
						if (static_cast<size_t>(decltype(i)::value) * m + static_cast<size_t>(decltype(j)::value) == stop)
							throw 1;
						calls++;
					});
			}
			catch (int)
			{
				caught = true;
			}
			CHECK(caught && calls == stop, "for_product<" << n << ", " << m << "> whose call " << stop << " threw made " << calls << " before it");
		}
		c.enumerated(n * m * 5 + 1, n * m * 5 + 1);
	}

	// noexcept for every index (pair) but one
	template <size_t K>
	struct all_but
	{
		template <typename T, T V>
		void operator()(std::integral_constant<T, V>) const noexcept(static_cast<size_t>(V) != K)
		{}
	};
	template <size_t K1, size_t K2>
	struct all_but2
	{
		template <typename T, T V, typename U, U W>
		void operator()(std::integral_constant<T, V>, std::integral_constant<U, W>) const
			noexcept(static_cast<size_t>(V) != K1 || static_cast<size_t>(W) != K2)
		{}
	};
	// noexcept depends on the value category of the callable
	template <bool L, bool CL, bool R>
	struct by_category
	{
		template <typename... T>
		void operator()(T...) & noexcept(L)
		{}
		template <typename... T>
		void operator()(T...) const& noexcept(CL)
		{}
		template <typename... T>
		void operator()(T...) && noexcept(R)
		{}
	};

	template <auto N, size_t... K>
	void seq_noexcept_(pbt::Case& c, std::index_sequence<K...>)
	{
		const bool got[] = { noexcept(muu::for_sequence<N>(all_but<K>{}))... };
		for (size_t k = 0; k < sizeof...(K); k++)
			CHECK(got[k] == (k >= static_cast<size_t>(N)),
				  "noexcept(for_sequence<" << +N << ">(f)) is " << got[k] << " where only the call with " << k << " can throw");
		c.enumerated(sizeof...(K), sizeof...(K));
	}
	template <auto N, auto M, size_t K1, size_t... K2>
	void prod_noexcept__(pbt::Case& c, std::index_sequence<K2...>)
	{
		const bool got[] = { noexcept(muu::for_product<N, M>(all_but2<K1, K2>{}))... };
		for (size_t k = 0; k < sizeof...(K2); k++)
			CHECK(got[k] == (K1 >= static_cast<size_t>(N) || k >= static_cast<size_t>(M)),
				  "noexcept(for_product<" << +N << ", " << +M << ">(f)) is " << got[k] << " where only the call with " << K1 << ", " << k
										  << " can throw");
		c.enumerated(sizeof...(K2), sizeof...(K2));
	}
	template <auto N, auto M, size_t... K1>
	void prod_noexcept_(pbt::Case& c, std::index_sequence<K1...>)
	{
		(prod_noexcept__<N, M, K1>(c, std::make_index_sequence<static_cast<size_t>(M) + 1>{}), ...);
	}
	template <auto N>
	void seq_noexcept(pbt::Case& c)
	{
		seq_noexcept_<N>(c, std::make_index_sequence<static_cast<size_t>(N) + 2>{});
	}
	template <auto N, auto M>
	void prod_noexcept(pbt::Case& c)
	{
		prod_noexcept_<N, M>(c, std::make_index_sequence<static_cast<size_t>(N) + 1>{});
	}
	template <bool L, bool CL, bool R>
	void category_noexcept(pbt::Case& c)
	{
		using F = by_category<L, CL, R>;
		F f;
		const auto one = [&](auto n)
		{
			constexpr size_t N	  = decltype(n)::value;
			constexpr bool s_l	  = noexcept(muu::for_sequence<N>(f));
			constexpr bool s_cl	  = noexcept(muu::for_sequence<N>(std::as_const(f)));
			constexpr bool s_r	  = noexcept(muu::for_sequence<N>(F{}));
			CHECK(s_l == (L || !N) && s_cl == (CL || !N) && s_r == (R || !N), "for_sequence<" << N << ">: noexcept by category");
			if constexpr (N < 4)
			{
				constexpr bool p_l	= noexcept(muu::for_product<N, 2>(f));
				constexpr bool p_cl = noexcept(muu::for_product<2, N>(std::as_const(f)));
				constexpr bool p_r	= noexcept(muu::for_product<N, N>(F{}));
				CHECK(p_l == (L || !N) && p_cl == (CL || !N) && p_r == (R || !N), "for_product by " << N << ": noexcept by category");
			}
		};
		one(std::integral_constant<size_t, 0>{});
		one(std::integral_constant<size_t, 1>{});
		one(std::integral_constant<size_t, 3>{});
		one(std::integral_constant<size_t, 6>{});
		c.enumerated(21, 21);
	}
	template <typename T, size_t... I>
	void seqs(pbt::Case& c, std::index_sequence<I...>)
	{
		(seq<static_cast<T>(I)>(c), ...);
	}
	// seed-derived lengths, so that different runs visit different sizes
	constexpr size_t mixed(size_t k, size_t n)
	{
		uint64_t v = (static_cast<uint64_t>(VERIF_SEED) * 0x9e3779b97f4a7c15u) + k * 0xbf58476d1ce4e5b9u;
		v ^= v >> 29;
		v *= 0x94d049bb133111ebu;
		v ^= v >> 32;
		return static_cast<size_t>(v % n);
	}
}
PROP(sequence_lengths, 3, 12)
{
	seqs<int>(c, std::make_index_sequence<14>{});
	seqs<size_t>(c, std::index_sequence<0, 1, 3, 4, 5, 33, mixed(1, 70)>{});
	seqs<uint8_t>(c, std::index_sequence<0, 1, 4, 5, 127, mixed(2, 60)>{});
	seqs<int8_t>(c, std::index_sequence<0, 2, 5, 65, mixed(3, 60)>{});
	seqs<long long>(c, std::index_sequence<0, 4, 6, mixed(4, 60)>{});
	seqs<uint16_t>(c, std::index_sequence<0, 5, mixed(5, 100)>{});
	seqs<char32_t>(c, std::index_sequence<0, 3, 7>{});
	c.nontrivial();
}
PROP(products, 3, 12)
{
	prod<0, 0>(c);
	prod<0, 3>(c);
	prod<3, 0>(c);
	prod<1, 1>(c);
	prod<1, 5>(c);
	prod<5, 1>(c);
	prod<2, 3>(c);
	prod<3, 2u>(c);
	prod<size_t{ 4 }, 4>(c);
	prod<uint8_t{ 5 }, 7ll>(c);
	prod<6ull, int8_t{ 5 }>(c);
	prod<mixed(11, 9), mixed(12, 12)>(c);
	prod<static_cast<int>(mixed(13, 12)), static_cast<uint16_t>(mixed(14, 9))>(c);
	c.nontrivial();
}
PROP(noexcept_of_loops, 1, 1)
{
	seq_noexcept<0>(c);
	seq_noexcept<1>(c);
	seq_noexcept<2u>(c);
	seq_noexcept<4>(c);
	seq_noexcept<5>(c);
	seq_noexcept<size_t{ 9 }>(c);
	prod_noexcept<0, 3>(c);
	prod_noexcept<3, 0>(c);
	prod_noexcept<1, 1>(c);
	prod_noexcept<2, 3>(c);
	prod_noexcept<3u, size_t{ 2 }>(c);
	prod_noexcept<5, 5>(c);
	category_noexcept<false, false, false>(c);
	category_noexcept<true, false, false>(c);
	category_noexcept<false, true, false>(c);
	category_noexcept<false, false, true>(c);
	category_noexcept<true, true, false>(c);
	category_noexcept<true, false, true>(c);
	category_noexcept<false, true, true>(c);
	category_noexcept<true, true, true>(c);
	c.nontrivial();
}
#endif

#if PART == 1
namespace flags_under_test
{
	#define ALL(X)                                                                                                         \
		X(e_u8, uint8_t)                                                                                                   \
		X(e_i8, int8_t)                                                                                                    \
		X(e_u16, uint16_t)                                                                                                 \
		X(e_i16, int16_t)                                                                                                  \
		X(e_u32, uint32_t)                                                                                                 \
		X(e_i32, int32_t)                                                                                                  \
		X(e_u64, uint64_t)                                                                                                 \
		X(e_i64, int64_t)                                                                                                  \
		X(e_char, char)                                                                                                    \
		X(e_char32, char32_t)                                                                                              \
		X(e_wchar, wchar_t)                                                                                                \
		X(e_longlong, unsigned long long)
	#define DEF(name, under)                                                                                               \
		enum class name : under                                                                                            \
		{                                                                                                                  \
			none,                                                                                                          \
			alpha,                                                                                                         \
			beta,                                                                                                          \
			gamma = 4                                                                                                      \
		};                                                                                                                 \
		MUU_MAKE_FLAGS(name);
	ALL(DEF)
	#undef DEF
	enum unscoped : uint16_t
	{
		u_none,
		u_one,
		u_two
	};
	MUU_MAKE_FLAGS(unscoped);

	struct holder
	{
		enum class inner : uint32_t
		{
			x = 1,
			y = 2
		};
	};
	MUU_MAKE_FLAGS(holder::inner);
}
namespace fl = flags_under_test;
namespace
{
	template <typename E>
	void flags(pbt::Case& c)
	{
		using U = std::underlying_type_t<E>;
		static_assert(sizeof(U) == sizeof(E));
		U a, b;
		{
			// random, few bits, all bits, complementary
			const auto draw = [&]() -> U
			{
				switch (c.below(5))
				{
					case 0: return static_cast<U>(c.raw(~uint64_t{}));
					case 1: return static_cast<U>(uint64_t{ 1 } << c.below(sizeof(U) * 8));
					case 2: return static_cast<U>(~(uint64_t{ 1 } << c.below(sizeof(U) * 8)));
					case 3: return U{};
					default: return static_cast<U>(c.below(8));
				}
			};
			a = draw();
			b = c.chance(1, 6) ? a : c.chance(1, 6) ? static_cast<U>(~static_cast<uint64_t>(a)) : draw();
		}
		if (a && b && a != b)
			c.nontrivial();
		const E x = static_cast<E>(a), y = static_cast<E>(b);
		const auto bits = [](auto v) { return static_cast<uint64_t>(static_cast<std::make_unsigned_t<U>>(static_cast<U>(v))); };
		const uint64_t wa = bits(a), wb = bits(b), mask = bits(static_cast<U>(~uint64_t{}));
		NOTE("underlying bits " << wa << " and " << wb);
		static_assert(std::is_same_v<decltype(x & y), E> && std::is_same_v<decltype(x | y), E> && std::is_same_v<decltype(x ^ y), E>
					  && std::is_same_v<decltype(~x), E> && std::is_same_v<decltype(!x), bool>);
		static_assert(noexcept(x & y) && noexcept(x | y) && noexcept(x ^ y) && noexcept(~x) && noexcept(!x));
		CHECK(bits(x & y) == (wa & wb), "x & y is " << bits(x & y));
		CHECK(bits(x | y) == (wa | wb), "x | y is " << bits(x | y));
		CHECK(bits(x ^ y) == (wa ^ wb), "x ^ y is " << bits(x ^ y));
		CHECK(bits(~x) == (~wa & mask), "~x is " << bits(~x));
		CHECK(!x == (wa == 0), "!x is " << !x);
		E z;
		static_assert(std::is_same_v<decltype(z &= y), E&> && std::is_same_v<decltype(z |= y), E&> && std::is_same_v<decltype(z ^= y), E&>);
		static_assert(noexcept(z &= y) && noexcept(z |= y) && noexcept(z ^= y));
		z		 = x;
		E* where = &(z &= y);
		CHECK(where == &z && bits(z) == (wa & wb), "x &= y left " << bits(z));
		z	  = x;
		where = &(z |= y);
		CHECK(where == &z && bits(z) == (wa | wb), "x |= y left " << bits(z));
		z	  = x;
		where = &(z ^= y);
		CHECK(where == &z && bits(z) == (wa ^ wb), "x ^= y left " << bits(z));
		z = x;
		((z |= y) &= ~y) ^= x;
		CHECK(bits(z) == (((wa | wb) & ~wb & mask) ^ wa), "a chain of assignments left " << bits(z));
		z = x;
		z ^= z;
		CHECK(bits(z) == 0, "z ^= z left " << bits(z));
	}
	template <typename E>
	constexpr bool constant_flags()
	{
		E z{};
		z |= static_cast<E>(5);
		z ^= static_cast<E>(6);
		z &= static_cast<E>(~static_cast<E>(1));
		return z == static_cast<E>(2) && !E{} && !!static_cast<E>(1);
	}
	#define CONST_FLAGS(name, under) static_assert(constant_flags<fl::name>());
	ALL(CONST_FLAGS)
	#undef CONST_FLAGS

	// ------------------------------------------------------------------------------------------ preprocessor helpers
	#define TEXT(x) #x ";"
	#define VALUE(x) +(x)
	#define NAMED_1 alpha
	#define NAMED_2 beta
	#define LIST_OF_3 1, 2, 3
}
PROP_T("flags of uint8_t", 400, 4000, (flags<fl::e_u8>));
PROP_T("flags of int8_t", 400, 4000, (flags<fl::e_i8>));
PROP_T("flags of uint16_t", 400, 4000, (flags<fl::e_u16>));
PROP_T("flags of int16_t", 400, 4000, (flags<fl::e_i16>));
PROP_T("flags of uint32_t", 400, 4000, (flags<fl::e_u32>));
PROP_T("flags of int32_t", 400, 4000, (flags<fl::e_i32>));
PROP_T("flags of uint64_t", 400, 4000, (flags<fl::e_u64>));
PROP_T("flags of int64_t", 400, 4000, (flags<fl::e_i64>));
PROP_T("flags of char", 400, 4000, (flags<fl::e_char>));
PROP_T("flags of char32_t", 400, 4000, (flags<fl::e_char32>));
PROP_T("flags of wchar_t", 400, 4000, (flags<fl::e_wchar>));
PROP_T("flags of unsigned long long", 400, 4000, (flags<fl::e_longlong>));
PROP_T("flags of an unscoped enumeration", 400, 4000, (flags<fl::unscoped>));
PROP_T("flags of a nested enumeration", 400, 4000, (flags<fl::holder::inner>));

// every length the helpers support: ONE(n) is expanded with a list of n seed-independent but distinct arguments
#include "e04_lists.inc"
namespace
{
	std::string listed(size_t n)
	{
		std::string s;
		for (size_t i = 0; i < n; i++)
			s += "a" + std::to_string(i * i % 97) + ";";
		return s;
	}
}
PROP(for_each_and_count, 1, 1)
{
	size_t n = 1;
	#define ONE(...)                                                                                                       \
		{                                                                                                                  \
			constexpr std::string_view got = MUU_FOR_EACH(TEXT, __VA_ARGS__);                                              \
			CHECK(got == listed(n), "MUU_FOR_EACH over " << n << " arguments gave " << got);                               \
			constexpr size_t count = MUU_COUNT_VA_ARGS(__VA_ARGS__);                                                       \
			CHECK(count == n, "MUU_COUNT_VA_ARGS of " << n << " arguments is " << count);                                  \
			n++;                                                                                                           \
		}
	E04_LISTS(ONE)
	CHECK(n == 125, "lists: " << n);
	c.enumerated(248, 248);
	// arguments are macro-expanded, may have parentheses with commas, and may be expressions
	constexpr std::string_view t1 = MUU_FOR_EACH(TEXT, (1, 2), f(x, y), [z]);
	CHECK(t1 == "(1, 2);f(x, y);[z];", t1);
	CHECK((0 MUU_FOR_EACH(VALUE, 1 << 3, 2 * 7, -1)) == 21, "MUU_FOR_EACH over expressions");
	CHECK((0 MUU_FOR_EACH(VALUE, LIST_OF_3)) == 6, "MUU_FOR_EACH over a macro of three arguments");
	CHECK(MUU_COUNT_VA_ARGS(LIST_OF_3, 4, (5, 6)) == 5, "MUU_COUNT_VA_ARGS over a macro of three arguments");
	// MUU_CONCAT and MUU_MAKE_STRING expand their arguments first
	int alphabeta = 17;
	CHECK(MUU_CONCAT(NAMED_1, NAMED_2) == 17, "MUU_CONCAT");
	alphabeta++;
	CHECK(MUU_CONCAT(alpha, MUU_CONCAT(be, ta)) == 18, "nested MUU_CONCAT");
	CHECK(MUU_CONCAT(1, MUU_CONCAT(2, 3)) == 123, "MUU_CONCAT of digits");
	CHECK(std::string_view(MUU_MAKE_STRING(NAMED_1 + x)) == "alpha + x", "MUU_MAKE_STRING");
	CHECK(std::string_view(MUU_MAKE_STRING(Oh noes!)) == "Oh noes!", "MUU_MAKE_STRING");
	CHECK(std::string_view(MUU_MAKE_RAW_STRING(Oh noes!)) == "Oh noes!", "MUU_MAKE_RAW_STRING");
	using namespace std::string_view_literals;
	constexpr auto sv = MUU_MAKE_STRING_VIEW(f(x) + NAMED_2);
	static_assert(std::is_same_v<decltype(sv), const std::string_view>);
	CHECK(sv == "f(x) + beta", "MUU_MAKE_STRING_VIEW: " << sv);
	constexpr int v1 = MUU_MAKE_VERSION(1, 2, 3), v2 = MUU_MAKE_VERSION(1 + 1, 0, 0 + 7);
	CHECK(v1 == 10203 && v2 == 20007, "MUU_MAKE_VERSION");
	c.nontrivial();
}

// ---- literals of sizes, and telling constant evaluation from run time
namespace
{
	constexpr unsigned long long scrambled(unsigned long long v)
	{
		v = (v ^ (v >> 30)) * 0xbf58476d1ce4e5b9u;
		v = (v ^ (v >> 27)) * 0x94d049bb133111ebu;
		return v ^ (v >> 31);
	}
	template <unsigned I>
	void literal(pbt::Case& c)
	{
		using namespace muu::literals;
		// as many bits as leave room for the unit
		constexpr unsigned long long r = scrambled(VERIF_SEED * 1000ull + I + 1);
		constexpr unsigned long long n = I == 0 ? 0 : I == 1 ? 1 : I == 2 ? (1ull << 34) - 1 : (r >> 6) >> (24 + r % 30);
		constexpr size_t s = operator"" _sz(r), b = operator"" _b(r), k = operator"" _kb(n), m = operator"" _mb(n), g = operator"" _gb(n);
		CHECK(s == r && b == r, "_sz and _b of " << r << ": " << s << ", " << b);
		CHECK(k == n << 10, "_kb of " << n << ": " << k);
		CHECK(m == n << 20, "_mb of " << n << ": " << m);
		CHECK(g == n << 30, "_gb of " << n << ": " << g);
		static_assert(std::is_same_v<decltype(1_sz), size_t> && std::is_same_v<decltype(1_kb), size_t>);
	}
	template <unsigned... I>
	void all_literals(pbt::Case& c, std::integer_sequence<unsigned, I...>)
	{
		(literal<I>(c), ...);
	}
	constexpr int which_world(int v)
	{
		int r = 0;
		if (muu::is_constant_evaluated())
			r += v;
		else
			r -= v;
		MUU_IF_CONSTEVAL
		{
			r += 10 * v;
		}
		else
		{
			r -= 10 * v;
		}
		MUU_IF_RUNTIME
		{
			r -= 100 * v;
		}
		else
		{
			r += 100 * v;
		}
		return r;
	}
}
PROP(literals_and_worlds, 1, 1)
{
	all_literals(c, std::make_integer_sequence<unsigned, 40>{});
	using namespace muu::literals;
	CHECK(18446744073709551615_sz == ~size_t{} && 3_kb == 3072u && 5_mb == 5u * 1048576u && 7_gb == size_t{ 7 } << 30, "literals");
	constexpr int constant = which_world(3);
	volatile int three	   = 3;
	const int run_time	   = which_world(three);
	CHECK(constant == 333, "in constant evaluation: " << constant);
	CHECK(run_time == -333, "at run time: " << run_time);
	CHECK(muu::build::supports_is_constant_evaluated, "gcc and clang support it");
	c.enumerated(203, 203);
	c.nontrivial();
}
#endif

#if PART == 2
namespace custom
{
	// an iterator that is no standard one: ++, *, ==, !=, and an integral difference
	struct counter
	{
		const int* p;
		int& steps;
		int operator*() const { return *p; }
		counter& operator++()
		{
			++p;
			++steps;
			return *this;
		}
		friend bool operator==(const counter& a, const counter& b) { return a.p == b.p; }
		friend bool operator!=(const counter& a, const counter& b) { return a.p != b.p; }
		friend long operator-(const counter& a, const counter& b) { return a.p - b.p; }
	};
	struct sentinel
	{
		const int* last;
		friend bool operator==(const counter& a, const sentinel& b) { return a.p == b.last; }
		friend bool operator!=(const counter& a, const sentinel& b) { return a.p != b.last; }
		friend short operator-(const sentinel& b, const counter& a) { return static_cast<short>(b.last - a.p); }
	};
	// a forward iterator whose difference is a class: only walking tells the distance
	struct opaque
	{
		using iterator_category = std::forward_iterator_tag;
		using value_type		= int;
		using difference_type	= std::ptrdiff_t;
		using pointer			= const int*;
		using reference			= const int&;
		const int* p			= nullptr;
		int* steps				= nullptr;
		const int& operator*() const { return *p; }
		opaque& operator++()
		{
			++p;
			++*steps;
			return *this;
		}
		opaque operator++(int)
		{
			auto r = *this;
			++*this;
			return r;
		}
		friend bool operator==(const opaque& a, const opaque& b) { return a.p == b.p; }
		friend bool operator!=(const opaque& a, const opaque& b) { return a.p != b.p; }
		struct gap
		{
			std::string what;
		};
		friend gap operator-(const opaque&, const opaque&) { return {}; }
	};
	// only free functions, found by argument-dependent lookup
	struct adl
	{
		std::vector<int> v;
	};
	inline int* begin(adl& a) { return a.v.data(); }
	inline int* end(adl& a) { return a.v.data() + a.v.size(); }
	inline const int* begin(const adl& a) { return a.v.data(); }
	inline const int* end(const adl& a) { return a.v.data() + a.v.size(); }
	// members win over free functions
	struct both
	{
		std::vector<int> v;
		auto begin() { return v.begin(); }
		auto end() { return v.end(); }
		auto begin() const { return v.begin(); }
		auto end() const { return v.end(); }
	};
	inline int* begin(both&) { return nullptr; }
	inline int* end(both&) { return nullptr; }
	inline const int* begin(const both&) { return nullptr; }
	inline const int* end(const both&) { return nullptr; }
	// a sentinel of another type
	struct bounded
	{
		const std::vector<int>* v;
		int* steps;
		counter begin() const { return { v->data(), *steps }; }
		sentinel end() const { return { v->data() + v->size() }; }
	};
	// different members for each value category
	struct by_category
	{
		std::vector<int> a, b, d;
		auto begin() & { return a.begin(); }
		auto end() & { return a.end(); }
		auto begin() const& { return b.begin(); }
		auto end() const& { return b.end(); }
		auto begin() && { return d.rbegin(); }
		auto end() && { return d.rend(); }
	};
	// different free functions for each value category
	struct adl_by_category
	{
		std::vector<int> a, b, d;
	};
	inline auto begin(adl_by_category& x) { return x.a.begin(); }
	inline auto end(adl_by_category& x) { return x.a.end(); }
	inline auto begin(const adl_by_category& x) { return x.b.begin(); }
	inline auto end(const adl_by_category& x) { return x.b.end(); }
	inline auto begin(adl_by_category&& x) { return x.d.rbegin(); }
	inline auto end(adl_by_category&& x) { return x.d.rend(); }
	// members for lvalues, free functions for rvalues
	struct mixed
	{
		std::vector<int> a, d;
		auto begin() & { return a.begin(); }
		auto end() & { return a.end(); }
	};
	inline auto begin(mixed&& x) { return x.d.rbegin(); }
	inline auto end(mixed&& x) { return x.d.rend(); }
}
namespace
{
	template <typename R>
	void delimits(pbt::Case& c, R&& r, const std::vector<int>& want, const char* what)
	{
		auto b = muu::begin_iterator(std::forward<R>(r));
		auto e = muu::end_iterator(std::forward<R>(r));
		std::vector<int> got;
		for (auto it = b; it != e; ++it)
		{
			got.push_back(static_cast<int>(*it));
			CHECK(got.size() <= want.size(), what << ": begin_iterator() to end_iterator() visits more than " << want.size() << " elements");
		}
		CHECK(got == want, what << ": begin_iterator() to end_iterator() visits " << got.size() << " elements of " << want.size() << " or others");
	}
	template <typename Cont>
	void container(pbt::Case& c, const std::vector<int>& v, const char* what)
	{
		Cont x(v.begin(), v.end());
		std::vector<int> want;
		for (const auto& e : x)
			want.push_back(static_cast<int>(e));
		delimits(c, x, want, what);
		delimits(c, std::as_const(x), want, what);
		static_assert(std::is_same_v<decltype(muu::begin_iterator(x)), typename Cont::iterator>);
		static_assert(std::is_same_v<decltype(muu::end_iterator(x)), typename Cont::iterator>);
		static_assert(std::is_same_v<decltype(muu::begin_iterator(std::as_const(x))), typename Cont::const_iterator>);
		static_assert(std::is_same_v<decltype(muu::end_iterator(std::as_const(x))), typename Cont::const_iterator>);
		const size_t i = static_cast<size_t>(c.below(want.size() + 1)), j = i + static_cast<size_t>(c.below(want.size() - i + 1));
		auto a = x.begin();
		std::advance(a, static_cast<std::ptrdiff_t>(i));
		auto b = a;
		std::advance(b, static_cast<std::ptrdiff_t>(j - i));
		const auto d = muu::iterator_distance(a, b);
		CHECK(d == static_cast<std::ptrdiff_t>(j - i), what << ": iterator_distance from " << i << " to " << j << " is " << d);
		static_assert(std::is_integral_v<decltype(muu::iterator_distance(a, b))>);
		if constexpr (std::is_base_of_v<std::random_access_iterator_tag, typename std::iterator_traits<typename Cont::iterator>::iterator_category>)
			CHECK(muu::iterator_distance(b, a) == -static_cast<std::ptrdiff_t>(j - i), what << ": backwards iterator_distance");
	}
	template <size_t N>
	void arrays(pbt::Case& c, crng& g)
	{
		int a[N];
		std::vector<int> want;
		for (auto& v : a)
			want.push_back(v = static_cast<int>(g.next()));
		delimits(c, a, want, "array");
		delimits(c, std::as_const(a), want, "const array");
		volatile int va[N];
		for (size_t i = 0; i < N; i++)
			va[i] = want[i];
		delimits(c, va, want, "volatile array");
		CHECK(muu::begin_iterator(a) == a && muu::end_iterator(a) == a + N, "bounds of an array of " << N);
		static_assert(std::is_same_v<decltype(muu::begin_iterator(a)), int*> && std::is_same_v<decltype(muu::end_iterator(std::as_const(a))), const int*>);
		static_assert(std::is_same_v<decltype(muu::begin_iterator(va)), volatile int*>);
		static_assert(std::is_same_v<decltype(muu::end_iterator(std::move(a))), int*>);
		CHECK(muu::begin_iterator(std::move(a)) == a && muu::end_iterator(std::move(a)) == a + N, "bounds of an array rvalue of " << N);
		int two[N][3]{};
		static_assert(std::is_same_v<decltype(muu::begin_iterator(two)), int(*)[3]>);
		CHECK(muu::begin_iterator(two) == &two[0] && muu::end_iterator(two) == &two[0] + N, "bounds of an array of arrays");
		CHECK(muu::iterator_distance(muu::begin_iterator(two), muu::end_iterator(two)) == static_cast<std::ptrdiff_t>(N), "distance over an array of arrays");
		std::array<int, N> s;
		std::copy(want.begin(), want.end(), s.begin());
		delimits(c, s, want, "std::array");
		delimits(c, std::as_const(s), want, "const std::array");
		char text[N];
		static_assert(std::is_same_v<decltype(muu::end_iterator(text)), char*>);
		CHECK(muu::end_iterator(text) - muu::begin_iterator(text) == static_cast<std::ptrdiff_t>(N), "bounds of chars");
	}
}
PROP(iterators, 300, 5000)
{
	crng g{ c.raw(~uint64_t{}) };
	const size_t n = static_cast<size_t>(c.below(12));
	std::vector<int> v;
	for (size_t i = 0; i < n; i++)
		v.push_back(static_cast<int>(g.next()) & 0x7f);
	if (n > 1)
		c.nontrivial();
	NOTE(n << " elements");
	arrays<1>(c, g);
	arrays<2>(c, g);
	arrays<7>(c, g);
	container<std::vector<int>>(c, v, "vector");
	container<std::deque<int>>(c, v, "deque");
	container<std::list<int>>(c, v, "list");
	container<std::forward_list<int>>(c, v, "forward_list");
	container<std::set<int>>(c, v, "set");
	container<std::multiset<int>>(c, v, "multiset");
	container<std::string>(c, v, "string");
	custom::adl a{ v };
	delimits(c, a, v, "free begin/end");
	delimits(c, std::as_const(a), v, "free begin/end of const");
	custom::both b{ v };
	delimits(c, b, v, "members and free functions");
	delimits(c, std::as_const(b), v, "members and free functions, const");
	int steps = 0;
	custom::bounded s{ &v, &steps };
	delimits(c, s, v, "sentinel");
	steps = 0;
	const auto d = muu::iterator_distance(muu::begin_iterator(s), muu::end_iterator(s));
	CHECK(static_cast<size_t>(d) == n && steps == 0, "iterator_distance to a sentinel is " << d << ", after " << steps << " steps");
	custom::counter c1{ v.data(), steps }, c2{ v.data() + n, steps };
	CHECK(static_cast<size_t>(muu::iterator_distance(c1, c2)) == n && steps == 0, "iterator_distance of iterators with a difference");
	CHECK(muu::iterator_distance(c2, c1) == -static_cast<long>(n), "iterator_distance, backwards");
	custom::opaque o1{ v.data(), &steps }, o2{ v.data() + n, &steps };
	CHECK(static_cast<size_t>(muu::iterator_distance(o1, o2)) == n && static_cast<size_t>(steps) == n, "iterator_distance of iterators whose difference is a class");
	{
		std::ostringstream text;
		for (int x : v)
			text << x << ' ';
		std::istringstream in(text.str());
		CHECK(muu::iterator_distance(std::istream_iterator<int>(in), std::istream_iterator<int>()) == static_cast<std::ptrdiff_t>(n),
			  "iterator_distance of input iterators");
	}
	{
		const std::vector<int> back(v.rbegin(), v.rend());
		custom::adl_by_category x{ v, { 1, 2, 3 }, { 4, 5 } };
		delimits(c, x, v, "free begin/end of an lvalue");
		delimits(c, std::as_const(x), { 1, 2, 3 }, "free begin/end of a const lvalue");
		delimits(c, std::move(x), { 5, 4 }, "free begin/end of an rvalue");
		custom::mixed m{ { 6, 7 }, v };
		delimits(c, m, { 6, 7 }, "members for lvalues");
		delimits(c, std::move(m), back, "free functions for rvalues");
	}
	custom::by_category bc{ v, { 1, 2, 3 }, v };
	delimits(c, bc, v, "members by category: lvalue");
	delimits(c, std::as_const(bc), { 1, 2, 3 }, "members by category: const lvalue");
	delimits(c, std::move(bc), std::vector<int>(v.rbegin(), v.rend()), "members by category: rvalue");
}
namespace
{
	// ---------------------------------------------------------------------------------------------- source positions
	// names its own caller through a default argument
	constexpr muu::source_location here(muu::source_location loc = muu::source_location::current())
	{
		return loc;
	}
	struct remembers
	{
		muu::source_location loc;
		constexpr remembers(muu::source_location l = muu::source_location::current()) : loc(l) {}
	};
	constexpr const char* tail_of(std::string_view path)
	{
		const auto at = path.find_last_of("/\\");
		return at == std::string_view::npos ? path.data() : path.data() + at + 1;
	}
	#define LOC(path)                                                                                                      \
		{                                                                                                                  \
			constexpr auto l = muu::source_location::current(7, 9, path, "f");                                             \
			static_assert(l.line() == 7 && l.column() == 9);                                                               \
			CHECK(std::string_view(l.file_name()) == path && std::string_view(l.function_name()) == "f", path);            \
			CHECK(std::string_view(l.file_name_tail()) == tail_of(path),                                                   \
				  "file_name_tail() of " << path << " is " << l.file_name_tail());                                         \
			total++;                                                                                                       \
		}
	struct position
	{
		muu::source_location got;
		unsigned line;
		const char* file;
		const char* tail;
		const char* function;
	};
	// clang-format off
	position in_a_function() { return { muu::source_location::current(), __LINE__, __FILE__, tail_of(__FILE__), __func__ }; }
	position as_default() { return { here(), __LINE__, __FILE__, tail_of(__FILE__), __func__ }; }
	position as_member() { remembers r; return { r.loc, __LINE__, __FILE__, tail_of(__FILE__), __func__ }; }
#line 1 "one.cpp"
	position at_first_line() { return { here(), __LINE__, "one.cpp", "one.cpp", __func__ }; }
#line 2147483 "/very/long path/with.dots/two.hpp"
	position at_large_line() { return { here(), __LINE__, "/very/long path/with.dots/two.hpp", "two.hpp", __func__ }; }
#line 77 "C:\\Users\\me/mixed\\three.h"
	position on_windows() { return { here(), __LINE__, "C:\\Users\\me/mixed\\three.h", "three.h", __func__ }; }
#line 78 "ends/with/"
	position with_no_tail() { return { here(), __LINE__, "ends/with/", "", __func__ }; }
#line 5 "e04_compile_time.cpp"
	// clang-format on
	// the tail search itself, on generated paths
	constexpr size_t lang = __cplusplus >= 202002L ? 20 : 17;
}
PROP(source_positions, 1, 1)
{
	size_t total = 0;
	for (const auto& p : { in_a_function(), as_default(), as_member(), at_first_line(), at_large_line(), on_windows(), with_no_tail() })
	{
		CHECK(p.got.line() == p.line, "line() is " << p.got.line() << " on line " << p.line);
		CHECK(std::string_view(p.got.file_name()) == p.file, "file_name() is " << p.got.file_name() << " in " << p.file);
		CHECK(std::string_view(p.got.file_name_tail()) == p.tail, "file_name_tail() is " << p.got.file_name_tail() << " in " << p.file);
		CHECK(std::string_view(p.got.function_name()) == p.function, "function_name() is " << p.got.function_name() << " in " << p.function);
		total++;
	}
	LOC("") LOC("a") LOC("/") LOC("\\") LOC("/a") LOC("a/") LOC("a/b") LOC("a\\b") LOC("a/b\\c") LOC("a\\b/c") LOC("//") LOC("/\\")
	LOC("\\/") LOC("a//b") LOC("a/\\b") LOC("ab/cd\\") LOC("ab\\cd/") LOC("x/y/z/w") LOC("x\\y\\z\\w") LOC("./a") LOC("../b.c") LOC("C:\\x")
	LOC("\\\\server\\share\\f.h") LOC("/\xff/\xc3\xa9") LOC("\x5c\x2f\x2e") LOC("\x2e\x30")
	constexpr muu::source_location none;
	CHECK(none.line() == 0 && none.column() == 0 && !*none.file_name() && !*none.function_name() && !*none.file_name_tail(), "default position");
	c.enumerated(total, total);
	c.nontrivial();
}
#if __cplusplus < 202002L
// without consteval functions, generated paths can be tried
PROP(generated_paths, 500, 10000)
{
	std::string path;
	const size_t n = static_cast<size_t>(c.below(14));
	for (size_t i = 0; i < n; i++)
		path += c.chance(1, 3) ? "/\\"[c.below(2)] : static_cast<char>(c.chance(1, 8) ? 1 + c.below(255) : 'a' + c.below(5));
	if (path.find_first_of("/\\") != std::string::npos)
		c.nontrivial();
	const auto l = muu::source_location::current(3, 4, path.c_str(), "g");
	NOTE("path '" << path << "'");
	CHECK(l.file_name() == path.c_str() && l.line() == 3 && l.column() == 4 && std::string_view(l.function_name()) == "g", "members");
	CHECK(l.file_name_tail() == tail_of(path), "file_name_tail() of '" << path << "' is '" << l.file_name_tail() << "'");
}
#endif
#endif
