// what C01 and C02 share: running a case on the deterministic scheduler
#pragma once
#include "schedule.h"
#include <muu/thread_pool.h>
#include <atomic>
#include <deque>
#include <sstream>
#include <memory>
#include <optional>
#include <string>
#include <vector>

#define MUST(cond, what)                                                                                               \
	do                                                                                                                 \
	{                                                                                                                  \
		if (!(cond))                                                                                                   \
			must_fail(__LINE__, #cond, [&](std::ostringstream& o_) { o_ << what; });                                   \
	} while (0)

namespace
{
	template <typename F>
	[[noreturn]] __attribute__((noinline)) void must_fail(int line, const char* cond, F&& f)
	{
		std::ostringstream o;
		o << "pool.cpp:" << line << ": CHECK(" << cond << ") failed: ";
		f(o);
		pbt::fail_now(o.str().c_str());
	}
	inline void sched_failed(const char* what)
	{
		const std::string m = std::string("sched.cpp:1: CHECK(schedule) failed: ") + what;
		pbt::fail_now(m.c_str());
	}

	inline sched::params gen_schedule(pbt::Case& c)
	{
		sched::params p;
		p.seed	   = c.raw(~0ull);
		p.mode	   = c.chance(1, 3) ? 1 : 0;
		p.stay	   = static_cast<unsigned>(1u << c.below(7));
		p.changes  = static_cast<unsigned>(c.below(7));
		p.horizon  = static_cast<unsigned>(c.pick({ 100, 1000, 10000 }));
		p.jumps	   = static_cast<unsigned>(c.pick({ 0, 0, 500, 50 }));
		p.spurious = static_cast<unsigned>(c.pick({ 0, 0, 200, 20 }));
		NOTE("schedule " << (p.mode ? "by priority" : "random walk") << " stay " << p.stay << " changes " << p.changes << "/" << p.horizon << " jumps " << p.jumps << " spurious " << p.spurious << "; ");
		c.cls(p.mode == 1, "priority schedule"), c.cls(p.mode == 0, "random schedule"), c.cls(p.jumps != 0, "timeouts at any time"), c.cls(p.spurious != 0, "spurious wakeups");
		return p;
	}
	// other threads of a case
	struct fibers
	{
		std::vector<int> ids;
		template <typename F>
		void add(F&& f)
		{
			using T = std::decay_t<F>;
			ids.push_back(sched::spawn(
				[](void* q)
				{
					std::unique_ptr<T> p(static_cast<T*>(q));
					(*p)();
				},
				new T(std::forward<F>(f))));
		}
		void join()
		{
			for (int i : ids)
				sched::join(i);
			ids.clear();
		}
	};
	inline void points(unsigned n)
	{
		for (unsigned i = 0; i < n; i++)
			sched::point();
	}
	template <typename T>
	T relaxed(const std::atomic<T>& a)
	{
		return a.load(std::memory_order_relaxed);
	}
} // namespace
