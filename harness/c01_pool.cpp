// C01: histories of thread pools on a deterministic scheduler
#include <muu/core.h>
#include "common.hpp"
#include "pool.hpp"

namespace
{
	using pool_t = muu::thread_pool;

	struct where // what is known about a pool's workers
	{
		size_t workers = 0;
		std::atomic<int> fiber[128];
		std::atomic<bool> busy[128];
		where()
		{
			for (auto& f : fiber)
				f.store(-1, std::memory_order_relaxed);
			for (auto& b : busy)
				b.store(false, std::memory_order_relaxed);
		}
	};
	struct rec // one task
	{
		int id			 = 0;
		unsigned work	 = 0;
		where* at		 = nullptr;
		long in			 = 0; // written by the producer, read by the task
		long out		 = 0; // written by the task, read after wait()
		bool must		 = false; // has been waited for
		std::atomic<int> begun{ 0 }, ended{ 0 }, live{ 0 };
		std::atomic<bool> closed{ false };	  // its pool is gone
		std::atomic<bool>* gate = nullptr; // blocks until this is set
	};

	void body(rec* r, size_t worker)
	{
		MUST(r->begun.fetch_add(1, std::memory_order_relaxed) == 0, "task " << r->id << " runs more than once");
		MUST(!relaxed(r->closed), "task " << r->id << " runs after its pool is gone");
		MUST(r->in == r->id * 3 + 1, "task " << r->id << " sees " << r->in);
		if (worker != ~size_t{})
		{
			MUST(worker < r->at->workers, "task " << r->id << " runs on worker " << worker << " of " << r->at->workers);
			MUST(!r->at->busy[worker].exchange(true, std::memory_order_relaxed), "worker " << worker << " runs two tasks at once");
			int none = -1, me = sched::self();
			if (!r->at->fiber[worker].compare_exchange_strong(none, me, std::memory_order_relaxed))
				MUST(none == me, "worker " << worker << " is more than one thread");
		}
		points(r->work);
		if (r->gate)
			while (!relaxed(*r->gate))
				sched::sleep(20000);
		r->out += r->in + 7;
		if (worker != ~size_t{})
			r->at->busy[worker].store(false, std::memory_order_relaxed);
		r->ended.fetch_add(1, std::memory_order_relaxed);
	}

	// captured state that knows where it came from and when it dies
	struct tok
	{
		rec* r;
		unsigned canary = 0xA11CE;
		bool moved		= false;
		explicit tok(rec* r_) noexcept : r(r_) { add(1); }
		tok(const tok& o) noexcept : r(o.r), moved(o.moved)
		{
			o.check();
			add(1);
		}
		tok(tok&& o) noexcept : r(o.r)
		{
			o.check();
			o.moved = true;
			add(1);
		}
		tok& operator=(const tok&) = delete;
		~tok()
		{
			check_canary();
			canary = 0xDEAD;
			add(-1);
		}
		void add(int n) const
		{
			const int was = r->live.fetch_add(n, std::memory_order_relaxed);
			MUST(was + n >= 0, "captured state of task " << r->id << " destroyed more often than made");
		}
		void check_canary() const { MUST(canary == 0xA11CE, "captured state that does not exist is used"); }
		void check() const
		{
			check_canary();
			MUST(!moved, "captured state of task " << r->id << " is used after it was moved from");
		}
		rec* use() const
		{
			check();
			return r;
		}
	};

	struct plain // trivially copyable, as large as it may be
	{
		rec* r;
		unsigned char fill[48];
		explicit plain(rec* r_) noexcept : r(r_)
		{
			for (size_t i = 0; i < sizeof fill; i++)
				fill[i] = static_cast<unsigned char>(i * 7 + static_cast<size_t>(r_->id));
		}
		void operator()(size_t w) noexcept
		{
			for (size_t i = 0; i < sizeof fill; i++)
				MUST(fill[i] == static_cast<unsigned char>(i * 7 + static_cast<size_t>(r->id)), "captured byte " << i << " changed");
			body(r, w);
		}
	};
	static_assert(sizeof(plain) == 56 && std::is_trivially_copyable_v<plain>);
	struct large // does not fit, called in place
	{
		rec* r;
		unsigned char fill[200];
		int calls = 0;
		explicit large(rec* r_) noexcept : r(r_) {}
		void operator()(size_t w) noexcept
		{
			calls++;
			body(r, w);
		}
	};
	template <size_t N>
	struct barely // just too large
	{
		rec* r;
		unsigned char fill[N - 8];
		explicit barely(rec* r_) noexcept : r(r_) { std::memset(fill, 0x5C, sizeof fill); }
		void operator()(size_t w) noexcept
		{
			for (auto f : fill)
				MUST(f == 0x5C, "callable of " << N << " bytes changed");
			body(r, w);
		}
	};
	struct arena_t
	{
		std::deque<large> l;
		std::deque<barely<64>> b;
	};
	struct copied // cannot be moved
	{
		tok t;
		explicit copied(rec* r) noexcept : t(r) {}
		copied(const copied& o) noexcept : t(o.t) {}
		void operator()(size_t w) noexcept { body(t.use(), w); }
	};
	struct assigned // constructors may throw, assignment does not
	{
		rec* r = nullptr;
		unsigned canary;
		assigned() noexcept : canary(0xA11CE) {}
		assigned(const assigned& o) noexcept(false) : r(o.r), canary(o.canary) {}
		assigned(assigned&& o) noexcept(false) : r(o.r), canary(o.canary) { o.r = nullptr; }
		assigned& operator=(const assigned& o) noexcept
		{
			r = o.r;
			return *this;
		}
		assigned& operator=(assigned&& o) noexcept
		{
			r	= o.r;
			o.r = nullptr;
			return *this;
		}
		~assigned()
		{
			MUST(canary == 0xA11CE, "captured state that does not exist is destroyed");
			canary = 0xDEAD;
		}
		void operator()() noexcept
		{
			MUST(canary == 0xA11CE && r, "captured state that does not exist is used");
			body(r, ~size_t{});
		}
	};
	struct unique
	{
		std::unique_ptr<tok> t;
		explicit unique(rec* r) : t(new tok(r)) {}
		void operator()(size_t w) noexcept
		{
			MUST(t != nullptr, "captured pointer is gone");
			body(t->use(), w);
		}
	};
	struct alignas(32) aligned
	{
		rec* r;
		explicit aligned(rec* r_) noexcept : r(r_) {}
		void operator()(size_t w) noexcept
		{
			MUST(reinterpret_cast<uintptr_t>(this) % 32 == 0, "misaligned task");
			body(r, w);
		}
	};

	// callables without state
	std::atomic<int> anonymous{ 0 };
	void count_one() noexcept { anonymous.fetch_add(1, std::memory_order_relaxed); }
	void count_indexed(size_t w) noexcept
	{
		MUST(w < 128, "worker index " << w);
		anonymous.fetch_add(1, std::memory_order_relaxed);
	}
	struct stateless
	{
		void operator()() const noexcept { anonymous.fetch_add(1, std::memory_order_relaxed); }
	};

	constexpr unsigned kinds = 16;
	// anonymous tasks return true
	bool enqueue(pool_t& p, unsigned kind, rec* r, arena_t& arena)
	{
		switch (kind)
		{
			case 0: p.enqueue([t = tok(r)]() noexcept { body(t.use(), ~size_t{}); }); return false;
			case 1: p.enqueue([t = tok(r)](size_t w) noexcept { body(t.use(), w); }); return false;
			case 2: p.enqueue([t = tok(r), u = tok(r), v = tok(r)](size_t w) noexcept { u.check(), v.check(), body(t.use(), w); }); return false;
			case 3: arena.l.emplace_back(r), p.enqueue(arena.l.back()); return false;
			case 4: p.enqueue(plain(r)); return false;
			case 5: p.enqueue(copied(r)); return false;
			case 6:
			{
				assigned a;
				a.r = r;
				p.enqueue(std::move(a));
				return false;
			}
			case 7: p.enqueue(unique(r)); return false;
			case 8: p.enqueue(aligned(r)); return false;
			case 9:
			{
				auto f = [t = tok(r)](size_t w) noexcept { body(t.use(), w); };
				const auto& g = f;
				p.enqueue(g); // copied: f does not outlive this
				return false;
			}
			case 10: arena.b.emplace_back(r), p.enqueue(arena.b.back()); return false;
			case 11: p.enqueue([r, pad = std::array<char, 40>{}](size_t w) noexcept { MUST(pad[39] == 0, "captured bytes changed"); body(r, w); }); return false;
			case 12: p.enqueue(count_one); return true;
			case 13: p.enqueue(&count_indexed); return true;
			case 14: p.enqueue(stateless{}); return true;
			default: p.enqueue([]() noexcept { anonymous.fetch_add(1, std::memory_order_relaxed); }); return true;
		}
	}

	struct slot
	{
		std::optional<pool_t> pool;
		bool live = false; // not moved from
		std::unique_ptr<where> at;
		std::vector<rec*> tasks; // not yet known to be finished
		size_t min_capacity = 0;
	};

	void history(pbt::Case& c)
	{
		const auto sp = gen_schedule(c);
		slot s[2];
		std::deque<rec> recs;
		arena_t arena;
		std::vector<std::unique_ptr<where>> old;
		int anonymous_due = 0, anonymous_maybe = 0;
		int anon_pending[2] = { 0, 0 };
		anonymous.store(0, std::memory_order_relaxed);
		bool blocked = false, moved = false, dropped = false;
		unsigned made = 0;

		sched::begin(sp, sched_failed);
		auto check_done = [&](rec* r)
		{
			MUST(relaxed(r->begun) == 1 && relaxed(r->ended) == 1, "task " << r->id << " has run " << relaxed(r->ended) << " times after wait()");
			MUST(r->out == r->in + 7, "the effects of task " << r->id << " are not there after wait()");
			MUST(relaxed(r->live) == 0, relaxed(r->live) << " pieces of captured state of task " << r->id << " exist after wait()");
		};
		auto make = [&](slot& x, unsigned work) -> rec*
		{
			rec& r = recs.emplace_back();
			r.id   = static_cast<int>(recs.size());
			r.work = work;
			r.at   = x.at.get();
			r.in   = r.id * 3 + 1;
			return &r;
		};
		auto gone = [&](slot& x) // the pool in this slot was destroyed
		{
			for (rec* r : x.tasks)
			{
				MUST(relaxed(r->begun) == relaxed(r->ended), "task " << r->id << " still runs while its pool is gone");
				MUST(relaxed(r->live) == 0, relaxed(r->live) << " pieces of captured state of task " << r->id << " outlive the pool");
				dropped = dropped || !relaxed(r->begun);
				r->closed.store(true, std::memory_order_relaxed);
				if (relaxed(r->ended))
					MUST(r->out == r->in + 7, "the effects of task " << r->id << " are not there after the pool is gone");
			}
			x.tasks.clear();
			anonymous_maybe += anon_pending[&x - s];
			anon_pending[&x - s] = 0;
			if (x.at)
				old.push_back(std::move(x.at));
			x.live = false;
		};
		auto waited = [&](slot& x)
		{
			for (rec* r : x.tasks)
				check_done(r);
			x.tasks.clear();
			anonymous_due += anon_pending[&x - s];
			anon_pending[&x - s] = 0;
			const int ran = relaxed(anonymous);
			MUST(ran >= anonymous_due && ran <= anonymous_due + anonymous_maybe + anon_pending[0] + anon_pending[1], "callables without state ran " << ran << " times instead of " << anonymous_due);
		};

		const unsigned n = static_cast<unsigned>(c.u(2, 14));
		for (unsigned op = 0; op < n; op++)
		{
			const unsigned k = static_cast<unsigned>(c.below(2));
			slot &x = s[k], &y = s[1 - k];
			if (!x.pool)
			{
				const size_t workers = c.u(0, 4), queue = c.pick({ 1, 2, 3, 5, 8, 0, 40 });
				const bool named = c.b();
				NOTE("pool" << k << "(" << workers << ", " << queue << ") ");
				x.at = std::make_unique<where>();
				if (named)
					x.pool.emplace(workers, queue, muu::string_param{ "a pool with a name" });
				else
					x.pool.emplace(workers, queue);
				x.at->workers = x.pool->workers();
				x.live		  = true;
				made++;
				MUST(x.pool->workers() == (workers ? workers : 2), "workers() is " << x.pool->workers());
				MUST(x.pool->capacity() >= (queue ? queue : 1) && (!queue || x.pool->capacity() < queue + x.pool->workers()), "capacity() is " << x.pool->capacity());
				continue;
			}
			if (!x.live)
			{
				MUST(x.pool->workers() == 0 && x.pool->capacity() == 0, "a moved-from pool has workers");
			}
			const unsigned what = static_cast<unsigned>(c.below(x.live ? 12 : 2));
			if (what <= 1 && c.chance(1, 3)) // destroy
			{
				NOTE("~pool" << k << " ");
				x.pool.reset();
				gone(x);
				continue;
			}
			if (what == 0) // move elsewhere
			{
				if (!y.pool)
				{
					NOTE("pool" << 1 - k << "{ move } ");
					y.pool.emplace(std::move(*x.pool));
				}
				else
				{
					NOTE("pool" << 1 - k << " = move ");
					auto& ref = (*y.pool = std::move(*x.pool));
					MUST(&ref == &*y.pool, "assignment returns something else");
					gone(y);
				}
				moved	= true;
				y.live	= x.live;
				y.at	= std::move(x.at);
				y.tasks = std::move(x.tasks);
				x.tasks.clear();
				std::swap(anon_pending[0], anon_pending[1]);
				x.live = false;
				MUST(x.pool->workers() == 0 && x.pool->capacity() == 0, "a moved-from pool has workers");
				continue;
			}
			if (!x.live)
				continue;
			if (what <= 5) // enqueue a few
			{
				const unsigned m = static_cast<unsigned>(c.u(1, 6));
				NOTE("enqueue" << k << "[");
				for (unsigned i = 0; i < m; i++)
				{
					const unsigned kind = static_cast<unsigned>(c.below(kinds)), work = static_cast<unsigned>(c.below(6));
					rec* r = make(x, work);
					NOTE((i ? " " : "") << r->id << "/" << kind);
					if (enqueue(*x.pool, kind, r, arena))
						anon_pending[k]++;
					else
						x.tasks.push_back(r);
				}
				NOTE("] ");
			}
			else if (what <= 7) // from several threads
			{
				const unsigned m = static_cast<unsigned>(c.u(1, 3));
				fibers others;
				arena_t arenas[4];
				NOTE("producers" << k << "[");
				const bool busy = c.b(), second_wait = c.b();
				for (unsigned i = 0; i < m; i++)
				{
					const unsigned kind = static_cast<unsigned>(c.below(12)), cnt = static_cast<unsigned>(c.u(1, 5)), gap = static_cast<unsigned>(c.below(8));
					std::vector<rec*> mine;
					for (unsigned q = 0; q < cnt; q++)
						mine.push_back(make(x, static_cast<unsigned>(c.below(4))));
					NOTE((i ? " " : "") << cnt << "x" << kind);
					x.tasks.insert(x.tasks.end(), mine.begin(), mine.end());
					others.add(
						[&arena = arenas[i], p = &*x.pool, kind, gap, mine]
						{
							for (rec* r : mine)
							{
								r->in = r->id * 3 + 1;
								enqueue(*p, kind, r, arena);
								points(gap);
							}
						});
				}
				NOTE("] ");
				if (second_wait)
					others.add([p = &*x.pool] { p->wait(); });
				if (busy)
					x.pool->wait();
				others.join();
				x.pool->wait();
				waited(x);
			}
			else if (what == 8) // fill it up while all workers are busy
			{
				x.pool->wait();
				waited(x);
				const size_t cap = x.pool->capacity(), w = x.pool->workers();
				if (cap > 40)
					continue;
				NOTE("fill" << k << " ");
				blocked = true;
				std::atomic<bool> gate{ false };
				std::vector<rec*> stuck, rest;
				for (size_t i = 0; i < w; i++)
				{
					rec* r	= make(x, 0);
					r->gate = &gate;
					stuck.push_back(r);
					x.tasks.push_back(r);
					x.pool->enqueue([t = tok(r)](size_t wi) noexcept { body(t.use(), wi); });
				}
				for (rec* r : stuck)
					while (!relaxed(r->begun))
						sched::sleep(1000);
				for (size_t i = 0; i < cap; i++)
				{
					rec* r = make(x, 0);
					x.tasks.push_back(r);
					x.pool->enqueue([t = tok(r)](size_t wi) noexcept { body(t.use(), wi); });
				}
				fibers others;
				const unsigned more = static_cast<unsigned>(c.u(0, 5));
				std::vector<rec*> extra;
				for (unsigned i = 0; i < more; i++)
					extra.push_back(make(x, 0));
				x.tasks.insert(x.tasks.end(), extra.begin(), extra.end());
				others.add(
					[p = &*x.pool, extra]
					{
						for (rec* r : extra)
							p->enqueue([t = tok(r)](size_t wi) noexcept { body(t.use(), wi); });
					});
				for (unsigned i = 0; i < 50; i++)
					sched::sleep(1000);
				for (rec* r : stuck)
					MUST(!relaxed(r->ended), "a task ended before it was let go");
				gate.store(true, std::memory_order_relaxed);
				others.join();
				x.pool->wait();
				waited(x);
			}
			else
			{
				NOTE("wait" << k << " ");
				x.pool->wait();
				waited(x);
			}
		}
		for (auto& x : s)
		{
			x.pool.reset();
			gone(x);
		}
		sched::end();
		const int ran = relaxed(anonymous);
		CHECK((ran >= anonymous_due && ran <= anonymous_due + anonymous_maybe), "callables without state ran " << ran << " times instead of " << anonymous_due);
		for (auto& r : recs)
			CHECK(r.live == 0 && r.begun <= 1 && r.begun == r.ended, "task " << r.id << " at the end");
		c.nontrivial(recs.size() > 1 && sched::switches() > 20);
		c.cls(blocked, "full queues"), c.cls(moved, "moved pools"), c.cls(dropped, "destroyed with tasks queued"), c.cls(made > 1, "several pools");
	}

	PROP(histories_of_pools, 24000, 1500000)
	{
		history(c);
	}
}
