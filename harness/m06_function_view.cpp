#include "common.hpp"
#include <muu/core.h>
#include <muu/function_view.h>
#include <memory>
#include <optional>
using muu::function_view;

namespace
{
	// ------------------------------------------------------------------ targets of int(int)
	struct pinned
	{
		pinned()			  = default;
		pinned(const pinned&) = delete;
	};
	struct adder : pinned // const call
	{
		int k = 0;
		int operator()(int x) const { return x + k; }
	};
	struct counter : pinned // mutating call
	{
		int n = 0;
		int operator()(int x) { return x ^ ++n; }
	};
	struct both : pinned // overloaded on constness
	{
		int k = 0;
		int operator()(int x) { return x + k; }
		int operator()(int x) const { return x - k; }
	};
	struct quals : pinned // overloaded on value category
	{
		int k = 0;
		int operator()(int x) & { return x + 3 * k; }
		int operator()(int x) const& { return x - 3 * k; }
		int operator()(int x) && { return x + 5 * k; }
	};
	struct empty_both // stateless, overloaded on constness
	{
		int operator()(int x) { return x + 1; }
		int operator()(int x) const { return x + 2; }
	};
	struct empty_quals
	{
		int operator()(int x) & { return x + 3; }
		int operator()(int x) const& { return x + 4; }
		int operator()(int x) && { return x + 5; }
	};
	struct empty_nondefault
	{
		explicit empty_nondefault(int) {}
		int operator()(int x) const noexcept { return x * 9; }
	};
	struct overloads : pinned
	{
		int k = 0;
		int operator()(int x) const { return x * 3 + k; }
		int operator()(const char*) const { return -1; }
		int operator()(int, int) const { return -2; }
	};
	struct big : pinned
	{
		int64_t v[64] = {};
		int operator()(int x) noexcept { return x - static_cast<int>(v[static_cast<unsigned>(x) % 64]++); }
	};
	union uni
	{
		int k;
		float f;
		int operator()(int x) const { return x | k; }
	};
	int fn0(int x) { return x * 2; }
	int fn1(int x) noexcept { return x - 11; }
	int fn2(int x) { return ~x; }

	struct world
	{
		adder a;
		counter n;
		both b;
		quals q;
		overloads o;
		big g;
		uni u{ 0 };
		empty_both eb;
		empty_quals eq;
		empty_nondefault en{ 1 };
		int cap = 0;
		int (*ptr)(int) noexcept = &fn1;
	};

	// the model of a call: target id + its own copy of the state
	struct mirror
	{
		int a = 0, n = 0, b = 0, q = 0, o = 0, u = 0, cap = 0;
		int64_t g[64] = {};
		int call(int t, int x)
		{
			switch (t)
			{
				case 0: return x + a;
				case 1: return x ^ ++n;
				case 2: return x + b;
				case 3: return x - b;
				case 4: return x + 3 * q;
				case 5: return x - 3 * q;
				case 6: return x * 3 + o;
				case 7: return x - static_cast<int>(g[static_cast<unsigned>(x) % 64]++);
				case 8: return x | u;
				case 9: return x + 1;
				case 10: return x + 2;
				case 11: return x + 3;
				case 12: return x + 4;
				case 13: return x * 9;
				case 14: return x * 2;
				case 15: return x - 11;
				case 16: return ~x;
				case 17: return x + 2 * cap;
				case 18: return x + 77;
				case 19: return x + 78;
				case 20: return x + 5 * q;
				case 21: return x + 5;
				default: return 0;
			}
		}
	};
	constexpr int ntargets = 22;

	using view = function_view<int(int)>;

	template <typename L1, typename L2, typename L3>
	view make(int t, world& w, L1& cap, L2& sl1, const L3& sl2, bool alt)
	{
		switch (t)
		{
			case 0: return alt ? view{ std::as_const(w.a) } : view{ w.a };
			case 1: return w.n;
			case 2: return w.b;
			case 3: return std::as_const(w.b);
			case 4: return w.q;
			case 5: return std::as_const(w.q);
			case 6: return w.o;
			case 7: return w.g;
			case 8: return w.u;
			case 9: return w.eb;
			case 10: return std::as_const(w.eb);
			case 11: return w.eq;
			case 12: return std::as_const(w.eq);
			case 13: return w.en;
			case 14: return alt ? view{ fn0 } : view{ &fn0 };
			case 15: return alt ? view{ w.ptr } : view{ fn1 };
			case 16: return alt ? view{ +[](int x) { return ~x; } } : view{ fn2 };
			case 17: return cap;
			case 18: return sl1;
			case 20: return std::move(w.q); // called as what it was bound as
			case 21: return std::move(w.eq);
			default: return sl2;
		}
	}
}

PROP(view_histories, 20000, 400000)
{
	world w;
	mirror m;
	auto cap	   = [&w](int x) { return x + 2 * w.cap; };
	auto sl1	   = [](int x) { return x + 77; };
	const auto sl2 = [](int x) { return x + 78; };
	constexpr size_t slots = 4;
	std::optional<view> s[slots];
	int t[slots];
	for (size_t i = 0; i < slots; i++)
	{
		s[i].emplace();
		t[i] = -1;
	}
	std::vector<view> v;
	std::vector<int> vt;
	bool rebound = false, copied = false;
	const auto n = c.u(1, 30);
	for (uint64_t i = 0; i < n; i++)
	{
		const auto k = c.below(slots), j = c.below(slots);
		switch (c.below(14))
		{
			case 0:
			case 1:
			{
				const int x = static_cast<int>(c.below(ntargets));
				const bool alt = c.b();
				NOTE(k << " = target " << x);
				rebound |= t[k] >= 0 && t[k] != x;
				if (c.b())
					*s[k] = make(x, w, cap, sl1, sl2, alt);
				else
					s[k].emplace(make(x, w, cap, sl1, sl2, alt));
				t[k] = x;
				break;
			}
			case 2:
				NOTE(k << " = " << j << " (assign)");
				*s[k] = *s[j];
				t[k]  = t[j];
				break;
			case 3:
				NOTE(k << " = copy of " << j);
				if (k != j)
				{
					switch (c.below(4))
					{
						case 0: s[k].emplace(*s[j]); break;
						case 1: s[k].emplace(std::as_const(*s[j])); break;
						case 2: s[k].emplace(std::move(*s[j])); break;
						default:
						{
							auto cp = *s[j];
							auto c2 = std::move(cp);
							*s[k]	= std::move(c2);
						}
					}
					t[k]   = t[j];
					copied = true;
				}
				break;
			case 4:
				NOTE(k << " = {}");
				*s[k] = view{};
				t[k]  = -1;
				break;
			case 5:
				NOTE("swap " << k << "," << j);
				std::swap(*s[k], *s[j]);
				std::swap(t[k], t[j]);
				break;
			case 6:
				NOTE("push " << k);
				v.push_back(*s[k]);
				vt.push_back(t[k]);
				break;
			case 7:
				if (!v.empty())
				{
					const auto q = c.below(v.size());
					NOTE(k << " = pushed " << q);
					*s[k] = v[q];
					t[k]  = vt[q];
				}
				break;
			case 8:
			{
				const int x = c.integer<int16_t>();
				NOTE("state " << x);
				switch (c.below(6))
				{
					case 0: w.a.k = m.a = x; break;
					case 1: w.b.k = m.b = x; break;
					case 2: w.q.k = m.q = x; break;
					case 3: w.o.k = m.o = x; break;
					case 4: w.u.k = m.u = x; break;
					default: w.cap = m.cap = x; break;
				}
				break;
			}
			default:
				if (t[k] >= 0)
				{
					const int x = c.integer<int16_t>();
					NOTE("call " << k << "(" << x << ")");
					const view& cv = *s[k];
					const int got  = c.b() ? (*s[k])(x) : cv(x);
					CHECK_EQ(got, m.call(t[k], x), "call of target " << t[k]);
				}
		}
		for (size_t q = 0; q < slots; q++)
			CHECK_EQ(static_cast<bool>(*s[q]), t[q] >= 0, "view #" << q << " tests");
	}
	for (size_t q = 0; q < v.size(); q++)
	{
		CHECK_EQ(static_cast<bool>(v[q]), vt[q] >= 0, "stored view tests");
		if (vt[q] >= 0)
			CHECK_EQ(v[q](5), m.call(vt[q], 5), "call of stored view to target " << vt[q]);
	}
	for (size_t q = 0; q < slots; q++)
		if (t[q] >= 0)
			CHECK_EQ((*s[q])(7), m.call(t[q], 7), "call of target " << t[q]);
	CHECK_EQ(w.n.n, m.n, "calls counted by the target");
	for (int i = 0; i < 64; i++)
		CHECK_EQ(w.g.v[i], m.g[i], "state of the big target");
	c.nontrivial(rebound && copied);
}

namespace
{
	struct tracked // counts copies and moves
	{
		int v;
		static int copies, moves;
		explicit tracked(int x) : v{ x } {}
		tracked(const tracked& o) : v{ o.v } { copies++; }
		tracked(tracked&& o) noexcept : v{ std::exchange(o.v, -1) } { moves++; }
		tracked& operator=(const tracked&) = delete;
	};
	int tracked::copies = 0;
	int tracked::moves	= 0;
	enum class colour : short
	{
		red
	};
	// passes rvalue functors and temporaries within the full expression
	int through(function_view<int(int)> f, int x) { return f(x); }
	int through_ref(const function_view<int(int)>& f, int x) { return f(x); }
	int twice(function_view<int(int)> f, int x) { return through(f, through_ref(f, x)); }

	int free_add(int a, int& b, const std::string& s) { return (b += a) + static_cast<int>(s.size()); }
	struct weird
	{
		template <typename T>
		T operator()(T v) const
		{
			return v;
		}
	};
}

PROP(arguments_and_results, 20000, 300000)
{
	const int x = c.integer<int16_t>(), y = c.integer<int16_t>();
	// references keep identity in both directions
	{
		int target = y;
		auto l	   = [&target, x](int& r, const int& cr, int* p, int&& rr) -> int& {
			r += x;
			*p ^= cr;
			target += rr;
			rr = 0;
			return r;
		};
		function_view<int&(int&, const int&, int*, int&&)> f{ l };
		int a = x, b = 3, d = y;
		int& r = f(a, a, &b, std::move(d));
		CHECK(&r == &a, "reference result");
		CHECK(a == x + x && b == (3 ^ a) && target == y + y && d == 0, "arguments by reference");
	}
	// by value and move-only
	{
		const std::string s = c.bytes(c.biased_size(60));
		auto rev			= [&](std::string t) { return std::string(t.rbegin(), t.rend()); };
		function_view<std::string(std::string)> f{ rev };
		std::string keep = s;
		CHECK(f(keep) == std::string(s.rbegin(), s.rend()) && keep == s, "string by value");
		CHECK(f(std::move(keep)) == std::string(s.rbegin(), s.rend()), "string moved in");
		auto inc = [](std::unique_ptr<int> p) {
			++*p;
			return p;
		};
		function_view<std::unique_ptr<int>(std::unique_ptr<int>)> g{ inc };
		auto p			= std::make_unique<int>(x);
		const int* addr = p.get();
		auto q			= g(std::move(p));
		CHECK(q.get() == addr && *q == x + 1 && !p, "move-only argument and result");
	}
	// by-value classes are moved, never copied again
	{
		tracked::copies = tracked::moves = 0;
		const int cap = y;
		auto l		  = [&cap](tracked t, const tracked& u) { return tracked{ t.v * 3 + u.v + cap }; };
		function_view<tracked(tracked, const tracked&)> f{ l };
		const tracked a{ x }, b{ y };
		auto r = f(a, b);
		CHECK_EQ(r.v, x * 3 + y + y, "tracked result");
		CHECK_EQ(a.v, x, "the argument is left alone");
		CHECK_EQ(tracked::copies, 1, "copies of a by-value argument");
		auto r2 = f(tracked{ y }, b);
		CHECK_EQ(r2.v, y * 3 + y + y, "tracked result");
		CHECK_EQ(tracked::copies, 1, "copies of an rvalue argument");
	}
	// many kinds of scalar
	{
		auto l = [x](char a, bool b, double d, colour e, const char* s, long long m, std::nullptr_t) {
			return static_cast<double>(a) + b + d + static_cast<double>(e) + (s ? *s : 0) + static_cast<double>(m) + x;
		};
		function_view<double(char, bool, double, colour, const char*, long long, std::nullptr_t)> f{ l };
		const char a	= static_cast<char>(c.below(128));
		const bool b	= c.b();
		const double d	= c.smooth(1e6);
		const colour e	= static_cast<colour>(c.integer<int16_t>());
		const long long m = c.integer<int32_t>();
		const char* s	= c.b() ? "q" : nullptr;
		CHECK_EQ(f(a, b, d, e, s, m, nullptr), l(a, b, d, e, s, m, nullptr), "scalar arguments");
		function_view<double(char, bool, double, colour, const char*, long long, std::nullptr_t)> f2 = f;
		CHECK_EQ(f2(a, b, d, e, s, m, nullptr), l(a, b, d, e, s, m, nullptr), "scalar arguments, copy");
	}
	// rvalue functors, functions, generic functors within a full expression
	CHECK_EQ(through([x](int v) { return v + x; }, y), x + y, "temporary lambda");
	CHECK_EQ(through_ref([x](int v) { return v - x; }, y), y - x, "temporary lambda by const&");
	CHECK_EQ(through([x, k = 0](int v) mutable { return v + x + k++; }, y), x + y, "temporary mutable lambda");
	CHECK_EQ(twice([x](int v) { return v + x; }, y), y + x + x, "passed on twice");
	CHECK_EQ(through(fn0, y), y * 2, "function");
	CHECK_EQ(through(&fn1, y), y - 11, "noexcept function pointer");
	CHECK_EQ(through(weird{}, y), y, "generic functor");
	CHECK_EQ(through([](auto v) { return v; }, y), y, "generic lambda");
	{
		int z = y;
		function_view<int(int, int&, const std::string&)> f = free_add;
		CHECK_EQ(f(x, z, "abc"), x + y + 3, "free function");
		CHECK_EQ(z, x + y, "free function reference argument");
	}
	// exceptions pass through
	{
		auto thrower = [x](int v) -> int {
			if (v == x)
				throw v;
			return v;
		};
		function_view<int(int)> f{ thrower };
		int got = x + 1;
		try
		{
			f(x);
		}
		catch (int v)
		{
			got = v;
		}
		CHECK_EQ(got, x, "exception");
	}
	// noexcept signatures
	{
		auto l = [x](int v) noexcept { return v + x; };
		function_view<int(int) noexcept> f{ l };
		static_assert(noexcept(f(1)));
		static_assert(!noexcept(std::declval<view>()(1)));
		CHECK_EQ(f(y), x + y, "noexcept view");
		function_view<int(int)> g{ f };
		CHECK_EQ(g(y), x + y, "view through a noexcept view");
		function_view<int(int) noexcept> h{ fn1 };
		CHECK_EQ(h(y), y - 11, "noexcept view of a noexcept function");
		f = h;
		CHECK_EQ(f(y), y - 11, "reassigned noexcept view");
		CHECK_EQ(g(y), y - 11, "a view of a view sees it switch");
	}
	// deduction
	{
		auto l = [x](int v) { return v + x; };
		function_view d1{ l };
		function_view d2{ fn0 };
		function_view d3{ &fn1 };
		function_view d4{ [](const char*, int) {} };
		function_view d5{ d1 };
		static_assert(std::is_same_v<decltype(d1), function_view<int(int)>>);
		static_assert(std::is_same_v<decltype(d2), function_view<int(int)>>);
		static_assert(std::is_same_v<decltype(d3), function_view<int(int) noexcept>>);
		static_assert(std::is_same_v<decltype(d4), function_view<void(const char*, int)>>);
		CHECK_EQ(d1(y), x + y, "deduced from lambda");
		CHECK_EQ(d2(y), y * 2, "deduced from function");
		CHECK_EQ(d3(y), y - 11, "deduced from pointer");
		CHECK_EQ(d5(y), x + y, "deduced from view");
	}
	c.nontrivial(x != y);
}
