// C02: parallel for-each on a deterministic scheduler
#include <muu/core.h>
#include "common.hpp"
#include "pool.hpp"
#include <forward_list>
#include <list>
#include <set>
#ifndef PART
#define PART 0
#endif

namespace
{
	using pool_t = muu::thread_pool;

	// one call of for_each: what its callables report to
	struct job
	{
		size_t workers = 0, n = 0;
		unsigned work = 0, gap = 1;
		bool indexed  = false;
		std::vector<int> hits;				  // plain: the pool has to order these with the reader
		std::unique_ptr<std::atomic<int>[]> seen; // unordered view of the same
		std::atomic<int> calls{ 0 };
		std::atomic<bool> busy[256];
		int sums[256] = {}; // per batch, plain
		void start(size_t n_, size_t w)
		{
			workers = w;
			n		= n_;
			hits.assign(n, 0);
			seen.reset(new std::atomic<int>[n + 1]);
			for (size_t i = 0; i <= n; i++)
				seen[i].store(0, std::memory_order_relaxed);
			for (auto& b : busy)
				b.store(false, std::memory_order_relaxed);
		}
		void element(uint64_t at)
		{
			MUST(at < n, "called with something outside the range (" << static_cast<int64_t>(at) << " elements from its start)");
			MUST(seen[at].fetch_add(1, std::memory_order_relaxed) == 0, "element " << at << " twice");
			calls.fetch_add(1, std::memory_order_relaxed);
			if (work && at % gap == 0)
				points(work);
			hits[at]++;
		}
		void indexed_element(uint64_t at, size_t batch)
		{
			MUST(batch < workers, "batch " << batch << " with " << workers << " workers");
			MUST(!busy[batch].exchange(true, std::memory_order_relaxed), "batch " << batch << " runs twice at the same time");
			sums[batch]++;
			element(at);
			busy[batch].store(false, std::memory_order_relaxed);
		}
		void nothing()
		{
			MUST(calls.fetch_add(1, std::memory_order_relaxed) < static_cast<int>(n), "called more often than there are elements");
			points(work);
		}
		void done(bool counts_only)
		{
			MUST(relaxed(calls) == static_cast<int>(n), "called " << relaxed(calls) << " times for " << n << " elements");
			if (!counts_only)
				for (size_t i = 0; i < n; i++)
					MUST(hits[i] == 1, "element " << i << " of " << n << " was called " << hits[i] << " times");
			if (indexed)
			{
				int all = 0;
				for (int x : sums)
					all += x;
				MUST(all == static_cast<int>(n), "batches add up to " << all);
			}
		}
	};
	job* global_job = nullptr; // for functions

	template <typename T>
	uint64_t num(T v)
	{
		if constexpr (std::is_enum_v<T>)
			return static_cast<uint64_t>(static_cast<std::underlying_type_t<T>>(v));
		else
			return static_cast<uint64_t>(v);
	}

	// callables, given what turns an argument into a position
	template <typename A, typename Pos>
	struct plain_fn
	{
		job* j;
		Pos pos;
		void operator()(A a) noexcept { j->element(pos(a)); }
	};
	template <typename A, typename Pos>
	struct indexed_fn
	{
		job* j;
		Pos pos;
		void operator()(A a, size_t b) noexcept { j->indexed_element(pos(a), b); }
	};
	template <typename A, typename Pos>
	struct const_fn
	{
		job* j;
		Pos pos;
		void operator()(A a) const noexcept { j->element(pos(a)); }
	};
	template <typename A, typename Pos>
	struct big_fn // called in place
	{
		job* j;
		Pos pos;
		char fill[96] = {};
		void operator()(A a, size_t b) noexcept { j->indexed_element(pos(a), b); }
	};
	template <typename A, typename Pos>
	struct owning_fn // not trivial
	{
		std::shared_ptr<job*> j;
		Pos pos;
		void operator()(A a, size_t b) noexcept { (*j)->indexed_element(pos(a), b); }
	};
	struct null_fn
	{
		job* j;
		void operator()() noexcept { j->nothing(); }
	};
	struct null_empty
	{
		void operator()() const noexcept { global_job->nothing(); }
	};

	template <typename A, typename Pos, typename Go>
	// go(callable) starts the for_each; returns true if elements cannot be told apart
	bool with_callable(pbt::Case& c, job& j, Pos pos, std::deque<std::shared_ptr<void>>& keep, Go&& go)
	{
		const unsigned kind = static_cast<unsigned>(c.below(11));
		NOTE("callable " << kind << "; ");
		auto hold = [&](auto f) -> auto&
		{
			auto p = std::make_shared<decltype(f)>(std::move(f));
			keep.push_back(p);
			return *p;
		};
		switch (kind)
		{
			case 0: go(plain_fn<A, Pos>{ &j, pos }); return false;
			case 1: j.indexed = true, go(indexed_fn<A, Pos>{ &j, pos }); return false;
			case 2: go([jp = &j, pos](A a) noexcept { jp->element(pos(a)); }); return false;
			case 3: j.indexed = true, go([jp = &j, pos](A a, size_t b) mutable noexcept { jp->indexed_element(pos(a), b); }); return false;
			case 4: go(hold(plain_fn<A, Pos>{ &j, pos })); return false;
			case 5: go(std::as_const(hold(const_fn<A, Pos>{ &j, pos }))); return false;
			case 6: j.indexed = true, go(hold(big_fn<A, Pos>{ &j, pos })); return false;
			case 7: j.indexed = true, go(owning_fn<A, Pos>{ std::make_shared<job*>(&j), pos }); return false;
			case 8:
			{
				j.indexed = true;
				owning_fn<A, Pos> f{ std::make_shared<job*>(&j), pos };
				go(f); // copied
				return false;
			}
			case 9: go(null_fn{ &j }); return true;
			default: go(null_empty{}); return true;
		}
	}

	template <typename T>
	struct offset // position of an integer in its range
	{
		uint64_t first;
		uint64_t operator()(T v) const noexcept { return num(v) - first; }
	};
	struct by_value // position of an element that holds it
	{
		uint64_t operator()(int v) const noexcept { return static_cast<uint64_t>(v); }
	};
	struct by_address
	{
		const int* first;
		uint64_t operator()(int& v) const noexcept
		{
			v += 1000;
			return static_cast<uint64_t>(&v - first);
		}
	};

	pool_t make_pool(pbt::Case& c)
	{
		const size_t w = c.u(1, 5), q = c.pick({ 1, 2, 5, 8, 0 });
		NOTE("pool(" << w << ", " << q << ") ");
		return pool_t{ w, q };
	}

	// ---- integers
	template <typename T>
	void run_range(pbt::Case& c, pool_t& p, job& j, std::deque<std::shared_ptr<void>>& keep, bool& counts, bool& backwards)
	{
		using U	 = std::conditional_t<std::is_enum_v<T>, std::underlying_type<T>, std::enable_if<true, T>>;
		using I	 = typename U::type;
		using L	 = std::numeric_limits<I>;
		const uint64_t room = static_cast<uint64_t>(L::max()) - static_cast<uint64_t>(L::min());
		const uint64_t n	= std::min<uint64_t>(c.chance(1, 4) ? c.u(0, 60) : c.u(0, 9), room);
		// lowest value of the range (or, for empty ranges, wherever); the exclusive end may not be representable
		uint64_t lo = 0;
		switch (c.below(5))
		{
			case 0: lo = 0; break;
			case 1: lo = static_cast<uint64_t>(L::min()) + c.below(3); break;
			case 2: lo = static_cast<uint64_t>(L::max()) - n - c.below(3); break;
			case 3: lo = static_cast<uint64_t>(-static_cast<int64_t>(c.u(0, 10))); break;
			default: lo = c.u(0, 100); break;
		}
		// clamp so that [lo, lo + n] is within the type
		const __int128 mn = L::min(), mx = L::max();
		__int128 l = L::is_signed ? static_cast<__int128>(static_cast<int64_t>(lo)) : static_cast<__int128>(lo);
		l		   = std::max(mn, std::min(l, mx - static_cast<__int128>(n)));
		const bool back = c.chance(1, 3);
		// forwards: [l, l + n); backwards: start = l + n, end = l, meaning l + n, l + n - 1 ... l + 1
		const T start = static_cast<T>(static_cast<I>(back ? l + static_cast<__int128>(n) : l)), end = static_cast<T>(static_cast<I>(back ? l : l + static_cast<__int128>(n)));
		const uint64_t first = num(static_cast<T>(static_cast<I>(l))) + (back ? 1 : 0);
		NOTE(sizeof(T) << (L::is_signed ? "s" : "u") << " for_each(" << static_cast<int64_t>(num(start)) << ", " << static_cast<int64_t>(num(end)) << ") ");
		j.start(n, p.workers());
		backwards	 = backwards || (back && n > 0);
		const int how = static_cast<int>(c.below(3));
		counts		  = with_callable<T>(c, j, offset<T>{ first }, keep,
								 [&](auto&& f)
								 {
									 using F	= decltype(f);
									 pool_t& r = num(start) == 0 && how == 0 ? p.for_each(end, static_cast<F>(f)) : how == 1 ? p.for_range(start, end, static_cast<F>(f)) : p.for_each(start, end, static_cast<F>(f));
									 MUST(&r == &p, "for_each() returns something else");
								 });
	}

	enum class small_enum : uint8_t
	{
	};
	enum class signed_enum : int
	{
	};
	enum old_enum : short
	{
	};

	// ---- collections
	template <typename C>
	void run_collection(pbt::Case& c, pool_t& p, job& j, std::deque<std::shared_ptr<void>>& keep, bool& counts, std::function<void()>& after)
	{
		const size_t n = c.chance(1, 4) ? c.u(0, 60) : c.u(0, 9);
		auto col	   = std::make_shared<C>();
		keep.push_back(col);
		if constexpr (std::is_same_v<C, std::forward_list<int>>)
			for (size_t i = n; i-- > 0;)
				col->push_front(static_cast<int>(i));
		else
			for (size_t i = 0; i < n; i++)
				col->insert(col->end(), static_cast<int>(i));
		NOTE(n << " elements ");
		j.start(n, p.workers());
		const bool iters = c.b(), mut = c.b();
		auto go = [&](auto& col_, auto&& f)
		{
			using F	  = decltype(f);
			pool_t& r = iters ? p.for_each(col_.begin(), col_.end(), static_cast<F>(f)) : p.for_each(col_, static_cast<F>(f));
			MUST(&r == &p, "for_each() returns something else");
		};
		if constexpr (std::is_same_v<C, std::vector<int>>)
		{
			if (mut)
			{
				NOTE("by reference ");
				counts = with_callable<int&>(c, j, by_address{ col->data() }, keep, [&](auto&& f) { go(*col, static_cast<decltype(f)>(f)); });
				after  = [col = col.get(), counts]
				{
					for (size_t i = 0; i < col->size(); i++)
						MUST((*col)[i] == static_cast<int>(i) + (counts ? 0 : 1000), "element " << i << " is " << (*col)[i]);
				};
				return;
			}
			if (c.b())
			{
				NOTE("pointers ");
				counts = with_callable<int>(c, j, by_value{}, keep, [&](auto&& f) { p.for_each(col->data(), col->data() + n, static_cast<decltype(f)>(f)); });
				return;
			}
		}
		if (mut)
		{
			NOTE("const ");
			counts = with_callable<const int&>(c, j, by_value{}, keep, [&](auto&& f) { go(std::as_const(*col), static_cast<decltype(f)>(f)); });
		}
		else
			counts = with_callable<int>(c, j, by_value{}, keep, [&](auto&& f) { go(*col, static_cast<decltype(f)>(f)); });
	}

	template <typename R>
	void scenario(pbt::Case& c, R&& run)
	{
		const auto sp = gen_schedule(c);
		bool backwards = false, uneven = false, several;
		{
			std::deque<std::shared_ptr<void>> keep;
			sched::begin(sp, sched_failed);
			{
				pool_t p = make_pool(c);
				for (size_t round = c.u(1, 2); round-- > 0;)
				{
					const size_t m = c.u(1, 3);
					several		   = m > 1;
					std::deque<job> jobs;
					std::deque<bool> counts;
					std::deque<std::function<void()>> after;
					std::atomic<int> singles{ 0 };
					int due			 = 0;
					bool global_used = false;
					for (size_t i = 0; i < m; i++)
					{
						job& j = jobs.emplace_back();
						j.work = static_cast<unsigned>(c.below(4));
						j.gap  = static_cast<unsigned>(c.u(1, 8));
						if (!global_used)
							global_job = &j, global_used = true;
						else // one stateless callable at a time
							p.wait(), global_job = &j;
						bool cnt = false;
						std::function<void()> then = [] {};
						run(c, p, j, keep, cnt, backwards, then);
						uneven = uneven || j.n % p.workers() != 0;
						counts.push_back(cnt);
						after.push_back(then);
						if (c.b())
							p.enqueue([&singles]() noexcept { singles.fetch_add(1, std::memory_order_relaxed); }), due++;
					}
					p.wait();
					for (size_t i = 0; i < m; i++)
						jobs[i].done(counts[i]), after[i]();
					MUST(relaxed(singles) == due, relaxed(singles) << " of " << due << " single tasks ran");
				}
			}
			sched::end();
		}
		c.nontrivial(uneven && sched::switches() > 20);
		c.cls(backwards, "backwards"), c.cls(uneven, "uneven batches"), c.cls(several, "several at once");
	}
	template <typename T>
	void ranges(pbt::Case& c)
	{
		scenario(c, [](pbt::Case& c, pool_t& p, job& j, auto& keep, bool& counts, bool& backwards, auto&) { run_range<T>(c, p, j, keep, counts, backwards); });
	}
	template <typename C>
	void collections(pbt::Case& c)
	{
		scenario(c, [](pbt::Case& c, pool_t& p, job& j, auto& keep, bool& counts, bool&, auto& after) { run_collection<C>(c, p, j, keep, counts, after); });
	}

#if PART == 0
	PROP_T("int", 2500, 150000, (ranges<int>));
	PROP_T("size_t", 2500, 150000, (ranges<size_t>));
	PROP_T("int64_t", 2500, 150000, (ranges<int64_t>));
	PROP_T("unsigned", 2500, 150000, (ranges<unsigned>));
#elif PART == 1
	PROP_T("int8_t", 2500, 150000, (ranges<int8_t>));
	PROP_T("uint8_t", 2500, 150000, (ranges<uint8_t>));
	PROP_T("short", 2500, 150000, (ranges<short>));
	PROP_T("uint16_t", 2500, 150000, (ranges<uint16_t>));
#elif PART == 2
	PROP_T("enum of uint8_t", 2500, 150000, (ranges<small_enum>));
	PROP_T("enum of int", 2500, 150000, (ranges<signed_enum>));
	PROP_T("enum of short", 2500, 150000, (ranges<old_enum>));
#else
	PROP_T("vector", 2500, 150000, (collections<std::vector<int>>));
	PROP_T("list", 2500, 150000, (collections<std::list<int>>));
	PROP_T("forward_list", 2500, 150000, (collections<std::forward_list<int>>));
	PROP_T("set", 2500, 150000, (collections<std::set<int>>));
#endif
}
