// E02: muu::type_list is a sequence of types: selecting, slicing, searching, flattening, removing, appending and
// prepending agree with the same operations on an ordinary sequence, at every length, position and page boundary.
#include "common.hpp"
#ifndef PART
	#define PART 0
#endif
#if PART == 1
	#define MUU_TYPE_LIST_PAGE_SIZE 8
#elif PART == 2
	#define MUU_TYPE_LIST_PAGE_SIZE 16
	#define MUU_TYPE_LIST_HAS_JUMBO_PAGES 0
#elif PART == 3
	#define MUU_TYPE_LIST_PAGE_SIZE 64
#endif
#include <muu/type_list.h>
#include <vector>
#include <type_traits>
namespace
{
	template <size_t I>
	struct t
	{
		static constexpr int id = static_cast<int>(I);
	};
	template <typename... T>
	using L = muu::type_list<T...>;

	// ------------------------------------------------------------ lists of tagged types <-> sequences of numbers
	template <typename List>
	struct ids_;
	template <typename... T>
	struct ids_<L<T...>>
	{
		static std::vector<int> get() { return { T::id... }; }
	};
	template <typename List>
	std::vector<int> ids()
	{
		return ids_<List>::get();
	}
	std::string show(const std::vector<int>& v)
	{
		std::string s = "[";
		for (auto x : v)
			s += std::to_string(x) + " ";
		return s + "]";
	}
	std::vector<int> slice_of(const std::vector<int>& v, size_t start, size_t len)
	{
		if (start >= v.size())
			return {};
		return { v.begin() + static_cast<std::ptrdiff_t>(start), v.begin() + static_cast<std::ptrdiff_t>(start + std::min(len, v.size() - start)) };
	}

	// the type-valued members need a complete pattern match: T::id is only reached when the result really is a list
	template <typename Got>
	void same_list(pbt::Case& c, const std::vector<int>& want, const char* what)
	{
		const auto got = ids<Got>();
		CHECK(got == want, what << ": " << show(got) << " instead of " << show(want));
		CHECK_EQ(Got::length, want.size(), what << ": length");
	}
	template <typename List>
	void basics(pbt::Case& c, const std::vector<int>& m)
	{
		CHECK_EQ(List::length, m.size(), "length");
		if constexpr (List::length > 0)
		{
			CHECK_EQ(List::first::id, m[0], "first");
			if constexpr (List::length == 1)
				CHECK_EQ(List::type::id, m[0], "type");
		}
	}

	// ------------------------------------------------------------ every position and length of long lists
	template <typename Seq>
	struct iota_;
	template <size_t... I>
	struct iota_<std::index_sequence<I...>>
	{
		using type = L<t<I>...>;
	};
	template <size_t N>
	using iota = typename iota_<std::make_index_sequence<N>>::type;
	std::vector<int> iota_model(size_t n)
	{
		std::vector<int> v(n);
		for (size_t i = 0; i < n; i++)
			v[i] = static_cast<int>(i);
		return v;
	}
	template <typename List, size_t... I>
	void all_positions(pbt::Case& c, const std::vector<int>& m, std::index_sequence<I...>)
	{
		const int sel[] = { 0, List::template select<I>::id... };
		for (size_t i = 0; i < m.size(); i++)
			CHECK_EQ(sel[i + 1], m[i], "select<" << i << ">");
		const size_t idx[] = { 0, List::template index_of<t<I>>... };
		for (size_t i = 0; i < m.size(); i++)
			CHECK_EQ(idx[i + 1], i, "index_of element " << i);
		const bool has[] = { true, List::template contains<t<I>>... };
		for (size_t i = 0; i < m.size(); i++)
			CHECK(has[i + 1], "contains element " << i);
		CHECK(!List::template contains<t<9999>>, "contains a type that is not there");
		CHECK(!List::template contains<const t<0>>, "contains a const-qualified element");
	}
	template <typename List, size_t... I>
	void all_prefixes(pbt::Case& c, const std::vector<int>& m, std::index_sequence<I...>)
	{
		(same_list<typename List::template slice<0, I>>(c, slice_of(m, 0, I), "slice from the start"), ...);
	}
	template <typename List, size_t... I>
	void all_suffixes(pbt::Case& c, const std::vector<int>& m, std::index_sequence<I...>)
	{
		(same_list<typename List::template slice<I>>(c, slice_of(m, I, m.size()), "slice to the end"), ...);
	}
	template <typename List, size_t... I>
	void all_singles(pbt::Case& c, const std::vector<int>& m, std::index_sequence<I...>)
	{
		(same_list<typename List::template slice<I, 1>>(c, slice_of(m, I, 1), "slice of one"), ...);
		(same_list<typename List::template slice<I, 0>>(c, {}, "slice of none"), ...);
	}
	constexpr size_t longest = PART == 0 ? 200 : 140;
	template <size_t N>
	void exhaustive(pbt::Case& c)
	{
		using List = iota<N>;
		const auto m = iota_model(N);
		basics<List>(c, m);
		all_positions<List>(c, m, std::make_index_sequence<N>{});
		all_prefixes<List>(c, m, std::make_index_sequence<(N < 68 ? N + 1 : 68)>{});
		all_suffixes<List>(c, m, std::make_index_sequence<(N < 140 ? N + 3 : 140)>{});
		all_singles<List>(c, m, std::make_index_sequence<N>{});
		c.enumerated(N * 4, N * 4);
	}

	// ------------------------------------------------------------ generated lists
	constexpr size_t rounds = 12, queries = 5;
	struct plan
	{
		size_t n = 0, kinds = 1, extra = 0;
		unsigned v[200]{}, x[16]{};
		size_t start[queries]{}, len[queries]{}, sel[queries]{}, u[queries]{};
	};
	template <size_t I>
	constexpr plan gen()
	{
		crng r{ VERIF_SEED * 1000003u + I * 77 + PART };
		plan p;
		constexpr size_t corners[] = { 0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65, 96, 97, 127, 128, 129, 160, 161 };
		p.n		= I < 4 ? I : r.below(2) ? corners[r.below(sizeof corners / sizeof *corners)] : r.below(180);
		p.kinds = 1 + (r.below(2) ? r.below(6) : r.below(150));
		for (size_t i = 0; i < p.n; i++)
			p.v[i] = static_cast<unsigned>(r.below(p.kinds));
		p.extra = r.below(5);
		for (size_t i = 0; i < 16; i++)
			p.x[i] = static_cast<unsigned>(r.below(p.kinds + 3));
		for (size_t q = 0; q < queries; q++)
		{
			p.start[q] = r.below(3) ? r.below(p.n + 2) : corners[r.below(25)];
			p.len[q]   = p.start[q] >= p.n ? r.below(4) : r.below(4) ? r.below(p.n - p.start[q] + 1) : p.n - p.start[q];
			p.sel[q]   = p.n ? r.below(p.n) : 0;
			p.u[q]	   = r.below(p.kinds + 2);
		}
		return p;
	}
	template <size_t I, size_t... K>
	constexpr auto mk(std::index_sequence<K...>)
	{
		constexpr auto p = gen<I>();
		return L<t<p.v[K]>...>{};
	}
	template <size_t I, size_t... K>
	constexpr auto mkx(std::index_sequence<K...>)
	{
		constexpr auto p = gen<I>();
		return L<t<p.x[K]>...>{};
	}
	template <typename List, typename X>
	struct joined;
	template <typename List, typename... X>
	struct joined<List, L<X...>>
	{
		using app = typename List::template append<X...>;
		using pre = typename List::template prepend<X...>;
	};
	template <typename List, size_t I, size_t Q>
	void query(pbt::Case& c, const std::vector<int>& m)
	{
		static constexpr auto p = gen<I>();
		NOTE("slice<" << p.start[Q] << ", " << p.len[Q] << "> of " << m.size());
		same_list<typename List::template slice<p.start[Q], p.len[Q]>>(c, slice_of(m, p.start[Q], p.len[Q]), "slice");
		same_list<typename List::template slice<p.start[Q]>>(c, slice_of(m, p.start[Q], m.size()), "slice with a default length");
		if constexpr (p.n > 0)
			CHECK_EQ(List::template select<p.sel[Q]>::id, m[p.sel[Q]], "select<" << p.sel[Q] << ">");
		constexpr auto want = p.u[Q];
		const auto it		= std::find(m.begin(), m.end(), static_cast<int>(want));
		CHECK_EQ(List::template contains<t<want>>, it != m.end(), "contains " << want);
		constexpr bool there = [] {
			for (size_t i = 0; i < p.n; i++)
				if (p.v[i] == p.u[Q])
					return true;
			return false;
		}();
		if constexpr (there)
			CHECK_EQ(List::template index_of<t<want>>, static_cast<size_t>(it - m.begin()), "index_of " << want);
		auto removed = m;
		removed.erase(std::remove(removed.begin(), removed.end(), static_cast<int>(want)), removed.end());
		same_list<typename List::template remove<t<want>>>(c, removed, "remove");
	}
	template <size_t I, size_t... Q>
	void one_round(pbt::Case& c, std::index_sequence<Q...>)
	{
		constexpr auto p = gen<I>();
		using List		 = decltype(mk<I>(std::make_index_sequence<p.n>{}));
		using X			 = decltype(mkx<I>(std::make_index_sequence<p.extra>{}));
		std::vector<int> m(p.v, p.v + p.n), x(p.x, p.x + p.extra);
		NOTE("list " << show(m) << " extra " << show(x));
		c.nontrivial(p.n > 1);
		basics<List>(c, m);
		(query<List, I, Q>(c, m), ...);
		auto app = m, pre = x;
		app.insert(app.end(), x.begin(), x.end());
		pre.insert(pre.end(), m.begin(), m.end());
		same_list<typename joined<List, X>::app>(c, app, "append");
		same_list<typename joined<List, X>::pre>(c, pre, "prepend");
		same_list<typename List::flatten>(c, m, "flatten of a flat list");
	}

	// ------------------------------------------------------------ nested lists
	// a random tree, as a list of lists: seed-derived, depth up to 4
	template <uint64_t S, size_t Depth>
	struct tree;
	template <uint64_t S, size_t Depth, size_t... K>
	constexpr auto mk_tree(std::index_sequence<K...>)
	{
		return L<typename tree<S * 31 + K + 1, Depth - 1>::type...>{};
	}
	template <uint64_t S, size_t Depth>
	struct tree
	{
		static constexpr auto pick()
		{
			constexpr crng r0{ S };
			constexpr auto kind = [] { crng r{ S }; return r.below(3); }();
			constexpr auto n	= [] { crng r{ S }; r.next(); return r.below(5); }();
			if constexpr (Depth == 0 || kind == 0)
				return t<S % 17>{};
			else
				return mk_tree<S, Depth>(std::make_index_sequence<n>{});
		}
		using type = decltype(pick());
	};
	template <typename T>
	struct leaves
	{
		static void add(std::vector<int>& v) { v.push_back(T::id); }
	};
	template <typename... T>
	struct leaves<L<T...>>
	{
		static void add(std::vector<int>& v) { (leaves<T>::add(v), ...); }
	};
	template <size_t I, size_t... K>
	void flatten_round(pbt::Case& c, std::index_sequence<K...>)
	{
		using List = L<typename tree<VERIF_SEED * 7919 + I * 101 + K * 13, 4>::type...>;
		std::vector<int> m;
		leaves<List>::add(m);
		NOTE("leaves " << show(m));
		c.nontrivial(m.size() > sizeof...(K));
		same_list<typename List::flatten>(c, m, "flatten");
		CHECK_EQ(List::length, sizeof...(K), "length of the nested list");
	}

	// what a list says about types that differ only in qualification, and about lists inside lists
	template <typename... A>
	struct at
	{
		template <typename List>
		static void run(pbt::Case& c, bool want)
		{
			const bool got[] = { List::template contains<A>... };
			for (bool g : got)
				CHECK_EQ(g, want, "contains");
		}
	};

	template <size_t... R>
	void run_round(pbt::Case& c, size_t which, std::index_sequence<R...>)
	{
		((which == R ? one_round<R>(c, std::make_index_sequence<queries>{}) : (void)0), ...);
	}
	template <size_t... R>
	void run_flatten(pbt::Case& c, size_t which, std::index_sequence<R...>)
	{
		((which == R ? flatten_round<R>(c, std::make_index_sequence<R % 5>{}) : (void)0), ...);
	}
}
PROP(every_position, 1, 1)
{
	exhaustive<0>(c);
	exhaustive<1>(c);
	exhaustive<2>(c);
	exhaustive<33>(c);
	exhaustive<65>(c);
	exhaustive<longest>(c);
}
PROP(generated_lists, 60, 300)
{
	run_round(c, c.below(rounds), std::make_index_sequence<rounds>{});
}
PROP(nested_lists, 60, 300)
{
	run_flatten(c, c.below(24), std::make_index_sequence<24>{});
}
PROP(qualified_elements, 1, 1)
{
	using A	   = t<1>;
	using List = L<A, const A, A&, volatile A, A*, A&&, L<A>, L<>>;
	at<A, const A, A&, volatile A, A*, A&&, L<A>, L<>>::run<List>(c, true);
	at<const volatile A, const A&, A**, A* const, L<A, A>, L<const A>, t<2>>::run<List>(c, false);
	CHECK(List::index_of<A> == 0 && List::index_of<const A> == 1 && List::index_of<A&> == 2 && List::index_of<volatile A> == 3
			  && List::index_of<A*> == 4 && List::index_of<A&&> == 5 && List::index_of<L<A>> == 6 && List::index_of<L<>> == 7,
		  "index_of qualified types");
	CHECK((std::is_same_v<List::remove<A>, L<const A, A&, volatile A, A*, A&&, L<A>, L<>>>), "remove one type only");
	CHECK((std::is_same_v<List::remove<L<A>>, L<A, const A, A&, volatile A, A*, A&&, L<>>>), "remove a list");
	CHECK((std::is_same_v<List::flatten, L<A, const A, A&, volatile A, A*, A&&, A>>), "flatten");
	CHECK((std::is_same_v<List::select<6>, L<A>> && std::is_same_v<List::select<2>, A&>), "select");
	CHECK((std::is_same_v<List::slice<1, 3>, L<const A, A&, volatile A>>), "slice");
	CHECK((std::is_same_v<L<L<const A>, L<A&, L<>>>::flatten, L<const A, A&>>), "flatten keeps qualifiers");
	CHECK((std::is_same_v<L<void, int()>::select<0>, void> && std::is_same_v<L<void, int()>::slice<1>, L<int()>>), "void and function types");
	CHECK((std::is_same_v<muu::type_tag<A&>, L<A&>> && std::is_same_v<L<A&>::type, A&>), "type_tag");
	c.nontrivial(true);
	c.enumerated(15, 15);
}
