// M09: integral_range against sets of integers
#include <muu/core.h>
#include "common.hpp"
#include <muu/integral_range.h>
#include <set>
#include <vector>

namespace
{
	template <typename T>
	i128 wide(T v)
	{
		return static_cast<i128>(v);
	}

	template <typename T>
	void gen_pair(pbt::Case& c, T& a, T& b)
	{
		using lim = std::numeric_limits<T>;
		a		  = c.integer<T>();
		switch (c.u(0, 3))
		{
			case 0: b = c.integer<T>(); break;
			case 1: // short
			{
				const i128 len = static_cast<i128>(c.u(0, 70));
				b			   = wide(a) + len > wide(lim::max()) ? lim::max() : static_cast<T>(wide(a) + len);
				break;
			}
			case 2: b = lim::max(); break;
			default:
				b = a;
				a = lim::min();
				break;
		}
		if (b < a)
			std::swap(a, b);
	}

	template <typename T>
	void single(pbt::Case& c)
	{
		using R		= muu::integral_range<T>;
		using it_t	= typename R::iterator;
		using diff	= typename it_t::difference_type;
		using usize = typename R::size_type;

		static_assert(std::is_unsigned_v<usize> && sizeof(usize) >= sizeof(T));
		static_assert(std::is_signed_v<diff> && sizeof(diff) >= sizeof(T));

		T s, e;
		gen_pair(c, s, e);
		NOTE("range [" << pbt::show(wide(s)) << ", " << pbt::show(wide(e)) << ") of " << sizeof(T) << "-byte " << (std::is_signed_v<T> ? "signed" : "unsigned"));
		const R r{ s, e };
		c.nontrivial(s != e);
		c.cls(wide(s) < 0 && wide(e) > 0, "crosses zero");
		c.cls(e == std::numeric_limits<T>::max(), "ends at maximum");
		c.cls(s == std::numeric_limits<T>::min(), "starts at minimum");
		const i128 len = wide(e) - wide(s);
		CHECK(r.s == s && r.e == e, "stores its bounds");
		CHECK_EQ(static_cast<u128>(r.size()), static_cast<u128>(len), "size()");
		CHECK_EQ(r.empty(), len == 0, "empty()");
		CHECK_EQ(static_cast<bool>(r), len != 0, "operator bool");
		CHECK(r.first() == s, "first()");
		if (len)
			CHECK_EQ(wide(r.last()), wide(e) - 1, "last()");
		if (e >= T{})
		{
			const R z{ e };
			CHECK(z.s == T{} && z.e == e, "single-value constructor starts at zero");
		}

		// membership: points around the ends and anywhere
		for (int k = 0; k < 8; k++)
		{
			T v = c.integer<T>();
			switch (k)
			{
				case 0: v = s; break;
				case 1: v = e; break;
				case 2: v = static_cast<T>(static_cast<usize>(s) - usize{ 1 }); break;
				case 3: v = static_cast<T>(static_cast<usize>(e) - usize{ 1 }); break;
				case 4: v = static_cast<T>(static_cast<usize>(e) + usize{ 1 }); break;
				default: break;
			}
			CHECK_EQ(r.contains(v), wide(v) >= wide(s) && wide(v) < wide(e), "contains(" << pbt::show(wide(v)) << ")");
		}

		// iteration, forwards and backwards
		if (len <= 600)
		{
			i128 expect = wide(s);
			for (T v : r)
			{
				CHECK_EQ(wide(v), expect, "iteration");
				expect++;
				CHECK(expect <= wide(e), "iterated past the end");
			}
			CHECK_EQ(expect, wide(e), "iteration stopped");
			auto it = r.end();
			while (it != r.begin())
			{
				expect--;
				const auto before = it;
				if (expect & 1)
				{
					auto post = it--;
					CHECK(post == before, "post-decrement result");
				}
				else
				{
					auto& ref = --it;
					CHECK(&ref == &it, "pre-decrement result");
				}
				CHECK_EQ(wide(*it), expect, "backward iteration");
			}
			CHECK_EQ(expect, wide(s), "backward iteration stopped");
			it = begin(r);
			for (i128 k = wide(s); k < wide(e); k++)
			{
				const auto before = it;
				if (k & 1)
				{
					auto post = it++;
					CHECK(post == before, "post-increment result");
				}
				else
				{
					auto& ref = ++it;
					CHECK(&ref == &it, "pre-increment result");
				}
				CHECK(!(it == before), "iterators distinct");
			}
			CHECK(it == end(r), "end reached");
			c.cls(len > 0, "iterated");
		}

		// random access: jump between positions with every operator
		it_t at	   = r.begin();
		i128 model = wide(s);
		const int n = static_cast<int>(c.u(1, 10));
		for (int k = 0; k < n; k++)
		{
			// target anywhere in [s, e]
			T tgt = c.integer<T>();
			if (wide(tgt) < wide(s) || wide(tgt) > wide(e))
			{
				const u128 span = static_cast<u128>(len) + 1;
				tgt				= static_cast<T>(wide(s) + static_cast<i128>(static_cast<u128>(static_cast<usize>(tgt)) % span));
			}
			const i128 delta	= wide(tgt) - model;
			const i128 dmax		= static_cast<i128>(std::numeric_limits<diff>::max());
			const bool fits		= delta <= dmax && delta >= -dmax - 1;
			const it_t was		= at;
			switch (c.u(0, 1))
			{
				case 0:
					if (delta >= 0)
						at += static_cast<usize>(delta);
					else
						at -= static_cast<usize>(-delta);
					break;
				default:
					if (!fits)
					{
						if (delta >= 0)
							at += static_cast<usize>(delta);
						else
							at -= static_cast<usize>(-delta);
					}
					else if (c.b() || delta == -dmax - 1)
						at += static_cast<diff>(delta);
					else
						at -= static_cast<diff>(-delta);
					break;
			}
			CHECK_EQ(wide(*at), wide(tgt), "jump by " << pbt::show(delta));
			if (fits)
				CHECK_EQ(static_cast<i128>(at - was), delta, "difference");
			if (-delta <= dmax && -delta >= -dmax - 1)
				CHECK_EQ(static_cast<i128>(was - at), -delta, "difference");
			CHECK_EQ(at == was, delta == 0, "iterator ==");
			CHECK_EQ(at != was, delta != 0, "iterator !=");
			model = wide(tgt);
		}
	}

	template <typename T>
	void algebra(pbt::Case& c)
	{
		using R = muu::integral_range<T>;
		T a, b, x, y;
		gen_pair(c, a, b);
		switch (c.u(0, 4))
		{
			case 0: // touching
				x = b;
				y = c.integer<T>();
				break;
			case 1: // sharing an end
				x = a;
				y = c.integer<T>();
				break;
			case 2: // close to an end
			{
				const i128 d = static_cast<i128>(c.u(0, 4)) - 2;
				const i128 v = wide(c.b() ? a : b) + d;
				x = v < wide(std::numeric_limits<T>::min()) ? std::numeric_limits<T>::min()
					: v > wide(std::numeric_limits<T>::max()) ? std::numeric_limits<T>::max() : static_cast<T>(v);
				y = c.integer<T>();
				break;
			}
			default: gen_pair(c, x, y); break;
		}
		if (y < x)
			std::swap(x, y);
		NOTE("[" << pbt::show(wide(a)) << ", " << pbt::show(wide(b)) << ") and [" << pbt::show(wide(x)) << ", " << pbt::show(wide(y)) << ")");
		R p{ a, b }, q{ x, y };
		if (c.b())
		{
			std::swap(a, x);
			std::swap(b, y);
			std::swap(p, q);
		}
		CHECK_EQ(p == q, a == x && b == y, "==");
		CHECK_EQ(p != q, !(a == x && b == y), "!=");
		if (a == b || x == y)
			return; // touching/containment of empty ranges is a matter of taste
		const i128 lo = wide(a) > wide(x) ? wide(a) : wide(x), hi = wide(b) < wide(y) ? wide(b) : wide(y);
		const bool meets	= lo < hi;
		const bool touches	= wide(b) == wide(x) || wide(y) == wide(a);
		c.nontrivial(meets || touches);
		c.cls(touches, "adjacent");
		c.cls(meets, "overlapping");
		CHECK_EQ(p.contains(q), wide(x) >= wide(a) && wide(y) <= wide(b), "contains(range)");
		CHECK_EQ(p.intersects(q), meets, "intersects");
		CHECK_EQ(p.adjacent(q), touches, "adjacent");
		CHECK_EQ(p.intersects_or_adjacent(q), meets || touches, "intersects_or_adjacent");
		const R un = p.union_with(q);
		CHECK_EQ(wide(un.s), wide(a) < wide(x) ? wide(a) : wide(x), "union start");
		CHECK_EQ(wide(un.e), wide(b) > wide(y) ? wide(b) : wide(y), "union end");
	}

	// every pair of ranges of 8-bit integers
	template <typename T>
	void exhaustive8(pbt::Case& c)
	{
		using R				= muu::integral_range<T>;
		constexpr int mn	= std::numeric_limits<T>::min(), mx = std::numeric_limits<T>::max();
		uint64_t evals		= 0;
		const int s			= mn + static_cast<int>(c.index % 256);
		for (int e = s; e <= mx; e++)
		{
			const R r{ static_cast<T>(s), static_cast<T>(e) };
			CHECK_EQ(r.size(), static_cast<size_t>(e - s), "size of [" << s << "," << e << ")");
			CHECK_EQ(r.empty(), e == s, "empty [" << s << "," << e << ")");
			size_t n = 0;
			for (T v : r)
			{
				CHECK_EQ(static_cast<int>(v), s + static_cast<int>(n), "iteration of [" << s << "," << e << ")");
				n++;
			}
			CHECK_EQ(n, r.size(), "iteration count of [" << s << "," << e << ")");
			for (int v = mn; v <= mx; v++)
				CHECK_EQ(r.contains(static_cast<T>(v)), v >= s && v < e, "[" << s << "," << e << ") contains " << v);
			evals += 300;
			if (e == s)
				continue;
			for (int x = mn; x < mx; x += (x % 3) ? 1 : 2)
				for (int y = x + 1; y <= mx; y += ((x ^ y) % 5) ? 9 : 1)
				{
					const R q{ static_cast<T>(x), static_cast<T>(y) };
					const bool meets = std::max(s, x) < std::min(e, y), touch = e == x || y == s;
					CHECK(r.intersects(q) == meets && r.adjacent(q) == touch && r.intersects_or_adjacent(q) == (meets || touch)
							  && r.contains(q) == (x >= s && y <= e) && r.union_with(q) == R(static_cast<T>(std::min(s, x)), static_cast<T>(std::max(e, y))),
						  "[" << s << "," << e << ") and [" << x << "," << y << ")");
					evals += 5;
				}
		}
		c.enumerated(evals, evals);
		c.nontrivial(true);
	}

	template <typename P>
	void pointers(pbt::Case& c)
	{
		static std::remove_const_t<std::remove_pointer_t<P>> store[65];
		using R		= muu::integral_range<P>;
		using diff	= typename R::iterator::difference_type;
		size_t a = c.sz(0, 64), b = c.sz(0, 64), x = c.sz(0, 64), y = c.sz(0, 64);
		if (c.chance(1, 3))
			x = b;
		if (b < a)
			std::swap(a, b);
		if (y < x)
			std::swap(x, y);
		NOTE("elements [" << a << "," << b << ") and [" << x << "," << y << ")");
		const R p{ store + a, store + b }, q{ store + x, store + y };
		CHECK_EQ(p.size(), b - a, "size");
		CHECK_EQ(p.empty(), a == b, "empty");
		CHECK_EQ(static_cast<bool>(p), a != b, "bool");
		CHECK(p.first() == store + a, "first");
		size_t n = a;
		for (P v : p)
			CHECK(v == store + n++, "iteration");
		CHECK_EQ(n, b, "iteration count");
		for (size_t k = 0; k <= 64; k++)
			CHECK_EQ(p.contains(store + k), k >= a && k < b, "contains " << k);
		CHECK_EQ(p == q, a == x && b == y, "==");
		c.nontrivial(a != b && x != y);
		auto it = p.begin();
		CHECK_EQ(static_cast<size_t>(p.end() - it), b - a, "difference");
		CHECK_EQ(it - p.end(), -static_cast<diff>(b - a), "difference");
		const size_t mid = a + c.sz(0, b - a);
		it += static_cast<typename R::size_type>(mid - a);
		CHECK(*it == store + mid, "+= size");
		it -= static_cast<diff>(mid) - static_cast<diff>(b);
		CHECK(*it == store + b, "-= difference");
		it += static_cast<diff>(mid) - static_cast<diff>(b);
		CHECK(*it == store + mid, "+= difference");
		it -= static_cast<typename R::size_type>(mid - a);
		CHECK(*it == store + a && it == p.begin(), "-= size");
		if (a == b || x == y)
			return;
		CHECK(p.last() == store + b - 1, "last");
		const bool meets = std::max(a, x) < std::min(b, y), touch = b == x || y == a;
		CHECK_EQ(p.intersects(q), meets, "intersects");
		CHECK_EQ(p.adjacent(q), touch, "adjacent");
		CHECK_EQ(p.intersects_or_adjacent(q), meets || touch, "intersects_or_adjacent");
		CHECK_EQ(p.contains(q), x >= a && y <= b, "contains(range)");
		CHECK(p.union_with(q) == R(store + std::min(a, x), store + std::max(b, y)), "union");
	}

	enum class en : short
	{
		a = 0,
		z = 300
	};
	// deduction: the wider type of both ends, enums as their integers
	static_assert(std::is_same_v<decltype(muu::integral_range{ 1, 2 }), muu::integral_range<int>>);
	static_assert(std::is_same_v<decltype(muu::integral_range{ char{ 1 }, 2LL }), muu::integral_range<long long>>);
	static_assert(std::is_same_v<decltype(muu::integral_range{ 1u, short{ 2 } }), muu::integral_range<unsigned>>);
	static_assert(std::is_same_v<decltype(muu::integral_range{ 5u }), muu::integral_range<unsigned>>);
	static_assert(std::is_same_v<decltype(muu::integral_range{ static_cast<int*>(nullptr), static_cast<int*>(nullptr) }), muu::integral_range<int*>>);
	// usable in constant expressions
	constexpr auto sum(int s, int e)
	{
		long long t = 0;
		for (int v : muu::integral_range<int>{ s, e })
			t += v;
		return t;
	}
	static_assert(sum(-10, 11) == 0);
	static_assert(sum(3, 3) == 0);
	static_assert(sum(-3, 2) == -5);
	static_assert(muu::integral_range<int8_t>{ -128, 127 }.size() == 255);
}

PROP_T("int8", 6000, 60000, (single<int8_t>));
PROP_T("uint8", 6000, 60000, (single<uint8_t>));
PROP_T("int16", 8000, 80000, (single<int16_t>));
PROP_T("uint16", 8000, 80000, (single<uint16_t>));
PROP_T("int32", 15000, 150000, (single<int32_t>));
PROP_T("uint32", 15000, 150000, (single<uint32_t>));
PROP_T("int64", 25000, 250000, (single<int64_t>));
PROP_T("uint64", 25000, 250000, (single<uint64_t>));
PROP_T("longlong", 8000, 80000, (single<long long>));
PROP_T("pairs_int8", 6000, 60000, (algebra<int8_t>));
PROP_T("pairs_uint8", 6000, 60000, (algebra<uint8_t>));
PROP_T("pairs_int16", 8000, 80000, (algebra<int16_t>));
PROP_T("pairs_uint16", 8000, 80000, (algebra<uint16_t>));
PROP_T("pairs_int32", 15000, 150000, (algebra<int32_t>));
PROP_T("pairs_uint32", 15000, 150000, (algebra<uint32_t>));
PROP_T("pairs_int64", 25000, 250000, (algebra<int64_t>));
PROP_T("pairs_uint64", 25000, 250000, (algebra<uint64_t>));
PROP_T("every_int8_pair", 256, 256, (exhaustive8<int8_t>));
PROP_T("every_uint8_pair", 256, 256, (exhaustive8<uint8_t>));
PROP_T("pointer_int", 10000, 100000, (pointers<int*>));
PROP_T("pointer_byte", 10000, 100000, (pointers<std::byte*>));
PROP_T("pointer_const", 10000, 100000, (pointers<const double*>));
