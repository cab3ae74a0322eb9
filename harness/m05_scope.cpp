#include "common.hpp"
#include <muu/core.h>
#include <muu/scope_guard.h>
#include <functional>
#include <memory>
#include <exception>

namespace
{
	enum kind : int
	{
		k_log,
		k_throw,
		k_scope,
		k_try,
		k_dtor,
		k_guard,
		k_fail,
		k_success,
		k_dismiss
	};
	struct node;
	using block = std::vector<node>;
	struct node
	{
		kind k;
		int id;
		int style;   // guards: what callable
		bool flag;   // guards: dismiss at once; try: rethrow
		int target;  // dismiss: how many live guards up
		block a, b;  // body / handler or action
	};
	struct err
	{
		int id;
	};
	constexpr int exited = 1 << 20;

	struct gen
	{
		pbt::Case& c;
		int next = 0, budget = 40, guards = 0, throws = 0;
		bool nested = false;

		block make(int depth)
		{
			block r;
			const auto n = c.below(5);
			for (uint64_t i = 0; i < n && budget > 0; i++)
			{
				node x{ k_log, next++, 0, false, 0, {}, {} };
				budget--;
				const auto w = c.below(depth > 0 ? 14 : 7);
				switch (w)
				{
					case 0: break;
					case 1:
						x.k = k_throw;
						throws++;
						break;
					case 2:
						x.k		 = k_dismiss;
						x.target = static_cast<int>(c.below(3));
						break;
					default:
						if (w < 7 || w >= 11)
						{
							x.k		= w % 3 == 0 ? k_guard : (w % 3 == 1 ? k_fail : k_success);
							x.style = static_cast<int>(c.below(6));
							x.flag	= c.chance(1, 6);
							guards++;
							if (depth > 0 && c.chance(1, 2))
								x.b = make(depth - 1), nested |= !x.b.empty();
						}
						else if (w == 7)
							x.k = k_scope, x.a = make(depth - 1);
						else if (w == 8)
							x.k = k_dtor, x.a = make(depth - 1);
						else
							x.k = k_try, x.a = make(depth - 1), x.b = make(depth - 1), x.flag = c.chance(1, 4);
				}
				r.push_back(std::move(x));
			}
			return r;
		}
	};

	std::string show(const block& b)
	{
		std::string r = "{";
		for (auto& x : b)
		{
			static const char* names[] = { "log", "throw", "scope", "try", "dtor", "guard", "fail", "success", "dismiss" };
			r += std::string(" ") + names[x.k] + "#" + std::to_string(x.id);
			if (x.k >= k_guard && x.k <= k_success)
				r += "/" + std::to_string(x.style) + (x.flag ? "(dismissed)" : "") + show(x.b);
			else if (x.k == k_dismiss)
				r += "(" + std::to_string(x.target) + ")";
			else if (x.k == k_try)
				r += show(x.a) + "catch" + (x.flag ? "(rethrow)" : "") + show(x.b);
			else if (x.k == k_scope || x.k == k_dtor)
				r += show(x.a);
		}
		return r + " }";
	}

	// ---------------------------------------------------------------- model: structural, no exceptions involved
	struct model
	{
		std::vector<int> log;
		std::vector<bool*> live; // dismissed flags of the guards alive now
		// returns the id of the exception that left the block, or -1
		int run(const block& b, size_t i = 0)
		{
			if (i == b.size())
				return -1;
			const node& x = b[i];
			switch (x.k)
			{
				case k_log: log.push_back(x.id); return run(b, i + 1);
				case k_throw: return x.id;
				case k_scope:
				{
					const int e = run(x.a);
					return e >= 0 ? e : run(b, i + 1);
				}
				case k_try:
				{
					const int e = run(x.a);
					if (e >= 0)
					{
						log.push_back(-e - 1);
						const int e2 = run(x.b);
						if (e2 >= 0)
							return e2;
						if (x.flag)
							return e;
					}
					return run(b, i + 1);
				}
				case k_dtor:
				{
					const int e = run(b, i + 1);
					const int d = run(x.a);
					log.push_back(exited + d);
					return e;
				}
				case k_dismiss:
					if (static_cast<size_t>(x.target) < live.size())
						*live[live.size() - 1 - static_cast<size_t>(x.target)] = true;
					return run(b, i + 1);
				default:
				{
					bool dismissed = x.flag;
					live.push_back(&dismissed);
					const int e = run(b, i + 1);
					if (!dismissed && (x.k == k_guard || (x.k == k_fail) == (e >= 0)))
					{
						log.push_back(x.id);
						const int d = run(x.b);
						log.push_back(exited + d);
					}
					live.pop_back();
					return e;
				}
			}
		}
	};

	// ---------------------------------------------------------------- the real thing
	struct machine
	{
		std::vector<int> log;
		std::vector<std::function<void()>> live;
		std::vector<const node*> pending;
		std::string bad;

		void contained(const block& b) noexcept
		{
			int d = -1;
			try
			{
				run(b, 0);
			}
			catch (const err& e)
			{
				d = e.id;
			}
			log.push_back(exited + d);
		}
		void action(const node* x) noexcept
		{
			log.push_back(x->id);
			contained(x->b);
		}

		template <typename G>
		void guarded(G& g, const node& x, const block& b, size_t i)
		{
			if (g.dismissed())
				bad = "new guard already dismissed";
			if (x.flag)
				g.dismiss();
			if (g.dismissed() != x.flag)
				bad = "dismissed() wrong";
			live.push_back([&] {
				g.dismiss();
				if (!g.dismissed())
					bad = "dismissed() false after dismiss()";
			});
			struct popper
			{
				machine& m;
				~popper() {}
			};
			run(b, i + 1);
		}

		void run(const block& b, size_t i);
	};
	machine* cur = nullptr;
	void run_pending() noexcept { cur->action(cur->pending.back()); }

	struct functor
	{
		const node* x;
		const functor* self;
		int* alive;
		explicit functor(const node* n, int* a) : x{ n }, self{ this }, alive{ a } {}
		void operator()() noexcept
		{
			if (self != this)
				cur->bad = "functor lvalue was copied";
			cur->action(x);
		}
		functor(const functor&) = delete;
	};
	struct move_only
	{
		std::unique_ptr<const node*> x;
		void operator()() noexcept { cur->action(*x); }
	};
	struct sticky // guard bookkeeping that must outlive the guard
	{
		size_t live, pending;
		sticky(const node* x) : live{ cur->live.size() }, pending{ cur->pending.size() } { cur->pending.push_back(x); }
		~sticky()
		{
			cur->live.resize(live);
			cur->pending.resize(pending);
		}
	};

	template <template <typename> typename Guard>
	void make_guard(machine& m, const node& x, const block& b, size_t i)
	{
		sticky s{ &x };
		switch (x.style)
		{
			case 0:
			{
				Guard g{ [&m, &x]() noexcept { m.action(&x); } };
				return m.guarded(g, x, b, i);
			}
			case 1:
			{
				Guard g{ []() noexcept { run_pending(); } };
				return m.guarded(g, x, b, i);
			}
			case 2:
			{
				Guard g{ run_pending };
				return m.guarded(g, x, b, i);
			}
			case 3:
			{
				functor f{ &x, nullptr };
				Guard g{ f };
				return m.guarded(g, x, b, i);
			}
			case 4:
			{
				Guard g{ move_only{ std::make_unique<const node*>(&x) } };
				return m.guarded(g, x, b, i);
			}
			default:
			{
				const auto f = []() noexcept { run_pending(); };
				Guard g{ f };
				return m.guarded(g, x, b, i);
			}
		}
	}

	void machine::run(const block& b, size_t i)
	{
		if (i == b.size())
			return;
		const node& x = b[i];
		switch (x.k)
		{
			case k_log: log.push_back(x.id); return run(b, i + 1);
			case k_throw: throw err{ x.id };
			case k_scope: run(x.a, 0); return run(b, i + 1);
			case k_try:
			{
				try
				{
					run(x.a, 0);
				}
				catch (const err& e)
				{
					log.push_back(-e.id - 1);
					run(x.b, 0);
					if (x.flag)
						throw;
				}
				return run(b, i + 1);
			}
			case k_dtor:
			{
				struct at_exit
				{
					machine& m;
					const node& x;
					~at_exit() { m.contained(x.a); }
				} d{ *this, x };
				return run(b, i + 1);
			}
			case k_dismiss:
				if (static_cast<size_t>(x.target) < live.size())
					live[live.size() - 1 - static_cast<size_t>(x.target)]();
				return run(b, i + 1);
			case k_guard: return make_guard<muu::scope_guard>(*this, x, b, i);
			case k_fail: return make_guard<muu::scope_fail>(*this, x, b, i);
			default: return make_guard<muu::scope_success>(*this, x, b, i);
		}
	}

	std::string show_log(const std::vector<int>& l)
	{
		std::string s;
		for (int v : l)
			s += " " + std::to_string(v);
		return s;
	}
}

PROP(guard_programs, 60000, 1500000)
{
	gen g{ c };
	const block prog = g.make(4);
	NOTE(show(prog));
	model m;
	const int want = m.run(prog);
	machine r;
	cur		= &r;
	int got = -1;
	try
	{
		r.run(prog, 0);
	}
	catch (const err& e)
	{
		got = e.id;
	}
	CHECK_EQ(got, want, "exception leaving the program");
	CHECK(r.log == m.log, "events:" << show_log(r.log) << " expected:" << show_log(m.log));
	CHECK(r.bad.empty(), r.bad);
	CHECK_EQ(std::uncaught_exceptions(), 0, "uncaught exceptions left behind");
	c.nontrivial(g.guards > 1 && g.throws > 0);
	c.cls(g.nested, "guard action with a program of its own");
	c.cls(g.throws > 1, "several throws");
}

// guards made while an exception is in flight, at every nesting level
PROP(guards_during_unwinding, 5000, 50000)
{
	struct probe
	{
		int depth;
		std::vector<int>& log;
		std::vector<int>& want;
		uint64_t bits;
		~probe()
		{
			level(depth);
		}
		void level(int d) noexcept
		{
			const bool thrown = bits & 1;
			bits >>= 1;
			try
			{
				muu::scope_guard g{ [&]() noexcept { log.push_back(3 * d); } };
				muu::scope_fail f{ [&]() noexcept { log.push_back(3 * d + 1); } };
				muu::scope_success s{ [&]() noexcept { log.push_back(3 * d + 2); } };
				if (d > 0)
				{
					struct sub
					{
						probe& p;
						int d;
						~sub() { p.level(d); }
					} x{ *this, d - 1 };
					if (thrown)
						throw d;
				}
				else if (thrown)
					throw d;
			}
			catch (int)
			{}
		}
	};
	const int depth	 = static_cast<int>(c.below(6));
	const uint64_t b = c.below(256);
	std::vector<int> log, want;
	try
	{
		probe p{ depth, log, want, b };
		if (c.b())
			throw 1;
	}
	catch (int)
	{}
	// innermost level first; at each level success or failure, then the plain guard
	uint64_t bits = b;
	std::vector<bool> thrown;
	for (int d = depth; d >= 0; d--)
	{
		thrown.push_back(bits & 1);
		bits >>= 1;
	}
	for (int d = 0; d <= depth; d++)
	{
		want.push_back(3 * d + (thrown[static_cast<size_t>(depth - d)] ? 1 : 2));
		want.push_back(3 * d);
	}
	CHECK(log == want, "events:" << show_log(log) << " expected:" << show_log(want));
	c.nontrivial(b != 0 && depth > 0);
}
