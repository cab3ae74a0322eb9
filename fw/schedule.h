// A deterministic cooperative scheduler: every "thread" is a fiber, and every operation on the synchronisation
// primitives below is a point at which a seeded pseudo-random (or priority-based) strategy decides who runs next.
// The same seed and parameters replay the same interleaving. Blocking forever is detected as a deadlock, time is
// virtual. Under ThreadSanitizer every fiber is a thread of its own and only the primitives order their accesses.
//
// The implementation (sched.cpp) is compiled without sanitizers so that its own state is invisible to them.
#pragma once
#include <cstddef>
#include <cstdint>

namespace sched
{
	struct params
	{
		uint64_t seed	   = 0;
		unsigned mode	   = 0;	 // 0: random walk, 1: priorities with a few random change points
		unsigned stay	   = 2;	 // random walk: one in this many points switches
		unsigned changes   = 3;	 // priorities: number of change points...
		unsigned horizon   = 1000; // ...within this many points
		unsigned jumps	   = 0;	 // one in this many points lets time pass (0: only when everyone is asleep)
		unsigned spurious  = 0;	 // one in this many points wakes a condition variable for no reason (0: never)
		uint64_t max_steps = 4000000;
	};
	using fail_fn = void (*)(const char*);

	void begin(const params&, fail_fn) noexcept;
	void end() noexcept; // fails if any fiber is still alive
	bool active() noexcept;

	int spawn(void (*fn)(void*), void* arg) noexcept;
	void join(int id) noexcept;
	int self() noexcept;
	bool finished(int id) noexcept;
	void point() noexcept;
	void pause() noexcept; // a point that prefers others
	void sleep(uint64_t ns) noexcept;
	uint64_t now() noexcept;
	uint64_t steps() noexcept;
	uint64_t switches() noexcept;
	unsigned random(unsigned below) noexcept;

	// state of a primitive, only touched by the functions below
	struct mutex_state
	{
		int owner	 = -1;
		int shared	 = 0;
		unsigned tag = 0x600D;
	};
	void mutex_lock(mutex_state*) noexcept;
	bool mutex_try_lock(mutex_state*) noexcept;
	void mutex_unlock(mutex_state*) noexcept;
	void mutex_destroy(mutex_state*) noexcept;
	bool cv_wait(void* cv, mutex_state*, uint64_t timeout_ns) noexcept; // true if it timed out
	void cv_notify(void* cv, bool all) noexcept;
	void cv_destroy(void* cv) noexcept;
} // namespace sched
