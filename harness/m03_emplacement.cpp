#include "leak.hpp"
#include "common.hpp"
#include <muu/core.h>
#include <muu/emplacement_array.h>
#include <optional>
#include <memory>
using muu::emplacement_array;

namespace
{
	long long live = 0, built = 0;
	bool fail_next = false;
	struct boom
	{};
	struct base
	{
		int v;
		const void* self;
		std::unique_ptr<int> heap;
		base(int a, int b) : v{ a + b }, self{ this }, heap{ new int{ a } }
		{
			if (std::exchange(fail_next, false))
				throw boom{};
			live++;
			built++;
		}
		base(const base&) = delete;
		~base()
		{
			if (self != this || live <= 0)
				std::abort();
			self = nullptr;
			live--;
		}
	};
	struct counted : base
	{
		using base::base;
	};
	struct alignas(64) wide : base
	{
		char pad[3];
		wide(int a, int b) : base{ a, b } {}
	};
	struct quiet // nothrow constructible
	{
		int v;
		const void* self;
		quiet(int a, int b) noexcept : v{ a + b }, self{ this }
		{
			live++;
			built++;
		}
		quiet(const quiet&) = delete;
		~quiet()
		{
			if (self != this || live <= 0)
				std::abort();
			self = nullptr;
			live--;
		}
	};
	struct plain // trivial
	{
		int a, b;
	};
	template <typename T>
	int val(const T& t)
	{
		if constexpr (std::is_same_v<T, plain>)
			return t.a + t.b;
		else if constexpr (std::is_same_v<T, uint8_t>)
			return t;
		else
			return t.v;
	}
	template <typename T>
	struct ex
	{
		std::optional<emplacement_array<T>> a;
		std::vector<int> m;
		std::vector<const T*> where;
		size_t cap = 0;
	};
	template <typename T>
	void check(ex<T>& x)
	{
		auto& a			= *x.a;
		const auto& ca	= a;
		CHECK_EQ(ca.size(), x.m.size(), "size");
		CHECK_EQ(ca.capacity(), x.cap, "capacity");
		CHECK_EQ(ca.empty(), x.m.empty(), "empty");
		CHECK(a.begin() + a.size() == a.end() && ca.begin() + a.size() == ca.end() && ca.cbegin() + a.size() == ca.cend(), "iterators");
		CHECK(begin(a) == a.begin() && end(a) == a.end() && begin(ca) == ca.begin() && end(ca) == ca.end() && cbegin(a) == a.cbegin() && cend(a) == a.cend(), "free functions");
		CHECK(a.data() == a.begin() && ca.data() == ca.begin(), "data");
		size_t i = 0;
		for (auto& e : a)
		{
			CHECK_EQ(val<T>(e), x.m[i], "element " << i);
			CHECK(&e == &a[i] && &e == &ca[i], "iteration matches indexing");
			CHECK(&e == x.where[i], "element " << i << " moved");
			CHECK(reinterpret_cast<uintptr_t>(&e) % alignof(T) == 0, "alignment");
			i++;
		}
		CHECK_EQ(i, x.m.size(), "iterated");
		if (!x.m.empty())
			CHECK(&a.front() == &a[0] && &a.back() == &a[x.m.size() - 1] && &ca.front() == &a.front() && &ca.back() == &a.back(), "front, back");
	}
	template <typename T>
	void history(pbt::Case& c)
	{
		live		   = 0;
		fail_next	   = false;
		const auto heap = leak::heap_bytes();
		bool moved = false, threw = false, selfmove = false;
		{
			ex<T> x[3];
			for (auto& e : x)
			{
				e.cap = c.sz(0, 6);
				e.a.emplace(e.cap);
			}
			const auto steps = c.sz(1, 30);
			for (size_t s = 0; s < steps; s++)
			{
				const auto k = c.sz(0, 2), j = c.sz(0, 2);
				auto &a = x[k], &b = x[j];
				switch (c.raw(8))
				{
					case 0:
						NOTE("x" << k << " = emplacement_array(n)");
						a.cap = c.sz(0, 8);
						a.a.emplace(a.cap);
						a.m.clear();
						a.where.clear();
						break;
					case 1:
						NOTE("x" << k << ".clear()");
						a.a->clear();
						a.m.clear();
						a.where.clear();
						break;
					case 2:
						if (j == k)
							break;
						NOTE("x" << k << " = array(move(x" << j << "))");
						a.a.emplace(std::move(*b.a));
						a.m		= std::exchange(b.m, {});
						a.where = std::exchange(b.where, {});
						a.cap	= std::exchange(b.cap, 0u);
						moved	= true;
						break;
					case 3:
						NOTE("x" << k << " = move(x" << j << ")");
						*a.a = std::move(*b.a);
						if (j != k)
						{
							a.m		= std::exchange(b.m, {});
							a.where = std::exchange(b.where, {});
							a.cap	= std::exchange(b.cap, 0u);
							moved	= true;
						}
						else
							selfmove = selfmove || !a.m.empty();
						break;
					case 4:
						if (j == k)
							break;
						std::swap(*a.a, *b.a);
						std::swap(a.m, b.m);
						std::swap(a.where, b.where);
						std::swap(a.cap, b.cap);
						break;
					default:
					{
						if (a.m.size() == a.cap)
							break;
						const int p = static_cast<int>(c.raw(100)), q = static_cast<int>(c.raw(100));
						fail_next	= std::is_base_of_v<base, T> && c.chance(1, 6);
						const bool will = fail_next, with = c.chance(1, 3);
						NOTE("x" << k << (with ? ".emplace_back_with " : ".emplace_back ") << p << ", " << q << (will ? " throwing" : ""));
						bool did = false;
						try
						{
							T* r;
							if constexpr (std::is_same_v<T, uint8_t>)
							{
								if (with)
									r = &a.a->emplace_back_with([&](void* at) noexcept -> T* { return ::new (at) T{ static_cast<uint8_t>(p + q) }; });
								else
									r = &a.a->emplace_back(static_cast<uint8_t>(p + q));
							}
							else if (with)
							{
								if (p & 1)
									r = &a.a->emplace_back_with([&](void* at) noexcept(!std::is_base_of_v<base, T>) -> T* { return ::new (at) T{ p, q }; });
								else
									r = &a.a->emplace_back_with([&](void* at) -> T* { return ::new (at) T{ p, q }; });
							}
							else
								r = &a.a->emplace_back(p, q);
							CHECK(r == a.a->data() + a.m.size() && r == &a.a->back(), "the new element is returned");
							a.m.push_back(p + q);
							a.where.push_back(r);
						}
						catch (const boom&)
						{
							did = true;
						}
						CHECK_EQ(did, will, "exceptions propagate");
						threw = threw || did;
						break;
					}
				}
				size_t total = 0;
				for (auto& e : x)
				{
					check(e);
					total += e.m.size();
				}
				if constexpr (!std::is_trivially_destructible_v<T>)
					CHECK_EQ(live, static_cast<long long>(total), "live elements");
			}
			c.nontrivial(steps > 4);
		}
		CHECK_EQ(live, 0ll, "elements outlive their array");
		const auto after = leak::heap_bytes();
		CHECK(c.verbose || after == heap, "leaked " << static_cast<long long>(after - heap) << " bytes");
		c.cls(moved, "moved");
		c.cls(threw, "a constructor threw");
		c.cls(selfmove, "moved onto itself");
	}
	PROP_T("counted", 12000, 400000, (history<counted>));
	PROP_T("over-aligned", 8000, 300000, (history<wide>));
	PROP_T("nothrow", 8000, 300000, (history<quiet>));
	PROP_T("trivial", 6000, 200000, (history<plain>));
	PROP_T("bytes", 6000, 200000, (history<uint8_t>));
}
