// C03: the spin mutex on a deterministic scheduler
#include "sched_std.hpp"
#include <muu/core.h>
#include <muu/pause.h>
#include <muu/fwd.h>
#include "sched_macros.hpp"
#include <muu/spin_mutex.h>
#include "sched_macros_end.hpp"
#include "common.hpp"
#include "pool.hpp"

namespace
{
	using spin = muu::spin_mutex;
	static_assert(!std::is_copy_constructible_v<spin> && !std::is_move_constructible_v<spin> && !std::is_copy_assignable_v<spin> && !std::is_move_assignable_v<spin>);
	static_assert(noexcept(std::declval<spin&>().lock()) && noexcept(std::declval<spin&>().try_lock()) && noexcept(std::declval<spin&>().unlock()));

	// a mutex, what it protects, and who is where
	struct guarded
	{
		spin m;
		int counter = 0; // plain: only the mutex orders these
		std::vector<int> log;
		std::atomic<int> inside{ 0 }, interested{ 0 }, events{ 0 }, acquired{ 0 };
		std::atomic<int> contended{ 0 }, refused{ 0 };

		static int get(const std::atomic<int>& a) { return a.load(std::memory_order_relaxed); }
		static int add(std::atomic<int>& a, int by) { return a.fetch_add(by, std::memory_order_relaxed); }
		void coming()
		{
			add(events, 1);
			if (add(interested, 1) > 0)
				add(contended, 1);
		}
		void got()
		{
			MUST(add(inside, 1) == 0, "two threads hold it");
			add(acquired, 1);
		}
		void work(unsigned n, int who)
		{
			const int was = counter;
			log.push_back(who);
			points(n);
			MUST(counter == was && static_cast<int>(log.size()) == was + 1 && log.back() == who, "what it protects changed while held");
			counter = was + 1;
			MUST(get(inside) == 1, "two threads hold it");
		}
		void leaving() { add(inside, -1); }
		void gone()
		{
			add(interested, -1);
			add(events, 1);
		}
		// as a lockable that reports itself
		void lock()
		{
			coming();
			m.lock();
			got();
		}
		bool try_lock()
		{
			const bool alone = get(interested) == 0;
			const int before = add(events, 1) + 1;
			if (!alone)
				add(contended, 1);
			add(interested, 1);
			const bool ok = m.try_lock();
			if (ok)
				got();
			else
			{
				MUST(!(alone && get(events) == before), "try_lock() failed although nobody holds it or wants to");
				add(refused, 1);
				gone();
			}
			return ok;
		}
		void unlock()
		{
			leaving();
			m.unlock();
			gone();
		}
	};

	void contention(pbt::Case& c)
	{
		const auto sp = gen_schedule(c);
		struct op
		{
			unsigned kind, work, a, b;
		};
		const size_t threads = c.u(2, 5), mutexes = c.u(1, 3);
		std::vector<std::vector<op>> plan(threads);
		for (auto& t : plan)
			for (size_t n = c.u(1, 6); n-- > 0;)
				t.push_back({ static_cast<unsigned>(c.below(8)), static_cast<unsigned>(c.below(5)), static_cast<unsigned>(c.below(mutexes)), static_cast<unsigned>(c.below(mutexes)) });
		for (auto& t : plan)
		{
			NOTE("thread:");
			for (auto& o : t)
				NOTE(" " << o.kind << "(" << o.a << (o.kind == 6 || o.kind == 7 ? " " + std::to_string(o.b) : std::string{}) << ")x" << o.work);
			NOTE("; ");
		}
		int contended = 0, refused = 0;
		{
			std::deque<guarded> g(mutexes);
			std::vector<std::vector<int>> done(threads, std::vector<int>(mutexes, 0));
			sched::begin(sp, sched_failed);
			fibers f;
			for (size_t t = 0; t < threads; t++)
				f.add(
					[&, t]
					{
						const int me = static_cast<int>(t);
						auto hold	 = [&](guarded& x, unsigned n, size_t which)
						{
							x.work(n, me);
							done[t][which]++;
						};
						for (const auto& o : plan[t])
						{
							guarded& x = g[o.a];
							guarded& y = g[o.b];
							switch (o.kind)
							{
								case 0:
									x.lock();
									hold(x, o.work, o.a);
									x.unlock();
									break;
								case 1:
									if (x.try_lock())
									{
										hold(x, o.work, o.a);
										x.unlock();
									}
									break;
								case 2:
								{
									std::lock_guard<guarded> l{ x };
									hold(x, o.work, o.a);
									break;
								}
								case 3:
								{
									std::unique_lock<guarded> l{ x, std::try_to_lock };
									if (!l.owns_lock())
										l.lock();
									hold(x, o.work, o.a);
									break;
								}
								case 4: // straight from the mutex
								{
									x.coming();
									{
										std::lock_guard<spin> l{ x.m };
										x.got();
										hold(x, o.work, o.a);
										x.leaving();
									}
									x.gone();
									break;
								}
								case 5:
									for (int tries = 0; !x.try_lock(); tries++)
									{
										MUST(tries < 100000, "try_lock() keeps failing");
										sched::pause();
									}
									hold(x, o.work, o.a);
									x.unlock();
									break;
								case 6: // nested, in order
								{
									guarded &lo = o.a < o.b ? x : y, &hi = o.a < o.b ? y : x;
									if (&lo == &hi)
										break;
									lo.lock();
									hi.lock();
									hold(hi, o.work, std::max(o.a, o.b));
									hold(lo, o.work, std::min(o.a, o.b));
									lo.unlock();
									points(o.work);
									hi.unlock();
									break;
								}
								case 7: // in any order, backing off
									if (&x != &y)
									{
										std::scoped_lock l{ x, y };
										hold(x, o.work, o.a);
										hold(y, o.work, o.b);
									}
									break;
							}
							points(o.work / 2);
						}
					});
			f.join();
			for (size_t i = 0; i < mutexes; i++)
			{
				int all = 0;
				for (const auto& d : done)
					all += d[i];
				guarded& x = g[i];
				MUST(x.counter == all && static_cast<int>(x.log.size()) == all && x.get(x.acquired) >= all, "it was held " << all << " times, but the data says " << x.counter);
				MUST(x.try_lock(), "it is not free in the end");
				MUST(!x.m.try_lock(), "it is free although held");
				x.unlock();
				x.lock();
				x.work(0, 0);
				x.unlock();
				contended += x.get(x.contended);
				refused += x.get(x.refused);
			}
			sched::end();
		}
		c.nontrivial(contended > 1);
		c.cls(contended > 0, "contended"), c.cls(refused > 0, "refused"), c.cls(mutexes > 1, "several mutexes");
	}

	// a holder that only lets go once everyone has tried: trying never waits
	void trying(pbt::Case& c)
	{
		const auto sp		 = gen_schedule(c);
		const size_t threads = c.u(1, 4), rounds = c.u(1, 3);
		const int tries = static_cast<int>(c.u(1, 5)), work = static_cast<int>(c.below(4));
		NOTE(threads << " threads try " << tries << " times in " << rounds << " rounds");
		{
			spin m;
			int data = 0;
			std::atomic<int> tried{ 0 }, round{ 0 }, won{ 0 };
			sched::begin(sp, sched_failed);
			fibers f;
			for (size_t t = 0; t < threads; t++)
				f.add(
					[&]
					{
						for (int r = 1; r <= static_cast<int>(rounds); r++)
						{
							while (round.load(std::memory_order_relaxed) < r)
								sched::pause();
							for (int i = 0; i < tries; i++)
							{
								MUST(!m.try_lock(), "try_lock() took it from its holder");
								points(static_cast<unsigned>(work));
							}
							tried.fetch_add(1, std::memory_order_relaxed);
							m.lock(); // now wait for it
							data++;
							won.fetch_add(1, std::memory_order_relaxed);
							m.unlock();
						}
					});
			for (int r = 1; r <= static_cast<int>(rounds); r++)
			{
				MUST(m.try_lock(), "try_lock() failed although it is free");
				const int was = data;
				round.store(r, std::memory_order_relaxed);
				while (tried.load(std::memory_order_relaxed) < r * static_cast<int>(threads))
					sched::pause();
				points(static_cast<unsigned>(work) * 8);
				MUST(data == was && relaxed(won) == (r - 1) * static_cast<int>(threads), "somebody else got in");
				data += 1000;
				m.unlock();
				while (won.load(std::memory_order_relaxed) < r * static_cast<int>(threads)) // everyone gets it now
					sched::pause();
				m.lock(); // (the last one may still be letting go)
				MUST(data == r * 1000 + r * static_cast<int>(threads), "lost updates: " << data);
				m.unlock();
			}
			f.join();
			sched::end();
		}
		c.nontrivial(threads > 1 || tries > 1);
	}

	// memory reached through what it protects: handing over ownership
	void handover(pbt::Case& c)
	{
		const auto sp	 = gen_schedule(c);
		const size_t makers = c.u(1, 3), takers = c.u(1, 3), each = c.u(1, 6);
		NOTE(makers << " producers, " << takers << " consumers, " << each << " each");
		size_t full = 0;
		{
			spin m;
			std::deque<std::unique_ptr<std::string>> q;
			size_t live = makers;
			std::vector<size_t> taken(takers, 0);
			std::vector<uint8_t> seen(makers * each, 0);
			sched::begin(sp, sched_failed);
			fibers f;
			for (size_t t = 0; t < makers; t++)
				f.add(
					[&, t]
					{
						for (size_t i = 0; i < each; i++)
						{
							auto p = std::make_unique<std::string>(std::to_string(t * each + i));
							std::lock_guard<spin> l{ m };
							full += !q.empty();
							q.push_back(std::move(p));
						}
						std::lock_guard<spin> l{ m };
						live--;
					});
			for (size_t t = 0; t < takers; t++)
				f.add(
					[&, t]
					{
						for (;;)
						{
							std::unique_ptr<std::string> p;
							bool over = false;
							{
								std::unique_lock<spin> l{ m, std::defer_lock };
								if (t & 1)
								{
									while (!l.try_lock())
										sched::pause();
								}
								else
									l.lock();
								if (!q.empty())
									p = std::move(q.front()), q.pop_front();
								else
									over = live == 0;
							}
							if (p)
							{
								size_t v = 0;
								for (char ch : *p) // (errno is not per fiber, so no stoi())
									v = v * 10 + static_cast<size_t>(ch - '0');
								MUST(v < seen.size() && !seen[v], "item " << v << " twice");
								seen[v] = 1;
								taken[t]++;
							}
							else if (over)
								return;
							else
								sched::pause();
						}
					});
			f.join();
			sched::end();
			size_t sum = 0;
			for (size_t n : taken)
				sum += n;
			MUST(sum == makers * each, sum << " of " << makers * each << " items arrived");
		}
		c.nontrivial(makers + takers > 2);
		c.cls(full > 0, "queue used");
	}

	PROP(contend, 15000, 600000) { contention(c); }
	PROP(try_lock, 6000, 300000) { trying(c); }
	PROP(hand_over, 8000, 300000) { handover(c); }
}
