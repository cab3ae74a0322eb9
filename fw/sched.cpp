#include "schedule.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>

extern "C"
{
	__attribute__((weak)) void __sanitizer_start_switch_fiber(void**, const void*, size_t);
	__attribute__((weak)) void __sanitizer_finish_switch_fiber(void*, const void**, size_t*);
	__attribute__((weak)) void __asan_unpoison_memory_region(void const volatile*, size_t);
	__attribute__((weak)) void* __tsan_get_current_fiber(void);
	__attribute__((weak)) void* __tsan_create_fiber(unsigned);
	__attribute__((weak)) void __tsan_destroy_fiber(void*);
	__attribute__((weak)) void __tsan_switch_to_fiber(void*, unsigned);
	__attribute__((weak)) void __tsan_acquire(void*);
	__attribute__((weak)) void __tsan_release(void*);
	void sched_switch(void** save, void* load);
	void sched_entry(void);
}
asm(R"(
	.text
	.globl sched_switch
	.type sched_switch,@function
sched_switch:
	.cfi_startproc
	endbr64
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
	.cfi_endproc
	.size sched_switch,.-sched_switch
)");

namespace sched
{
	namespace
	{
		constexpr size_t stack_size = 512 * 1024;
		constexpr int max_fibers	= 256;
		constexpr uint64_t never	= ~0ull;

		struct fiber
		{
			void* sp;
			char* stack;
			void (*fn)(void*);
			void* arg;
			void* tsan;
			void* fake; // ASan
			const void* waits; // what it is blocked on
			uint64_t until;	   // or until when
			bool live, blocked, timed_out, is_cv;
			uint64_t priority;
		};
		fiber all[max_fibers];
		int count, cur, came_from;
		bool on;
		uint64_t clock_, steps_, switches_, rng, low;
		uint64_t change[16];
		unsigned alone; // points in a row the same fiber was chosen at while others could run
		params P;
		fail_fn fail_;
		char* spare[max_fibers];
		int spares;
		const void* main_bottom;
		size_t main_size;

		uint64_t next() noexcept
		{
			rng += 0x9E3779B97F4A7C15ull;
			uint64_t z = rng;
			z		   = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
			z		   = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
			return z ^ (z >> 31);
		}
		uint64_t below(uint64_t n) noexcept { return (next() >> 11) % n; }

		[[noreturn]] void fatal(const char* what) noexcept
		{
			fail_(what);
			std::abort();
		}
		void acquire(void* p) noexcept
		{
			if (__tsan_acquire)
				__tsan_acquire(p);
		}
		void release(void* p) noexcept
		{
			if (__tsan_release)
				__tsan_release(p);
		}
		bool ready(fiber& f) noexcept { return f.live && (!f.blocked || f.until <= clock_); }

		void arrived() noexcept
		{
			if (__sanitizer_finish_switch_fiber)
			{
				const void* bottom = nullptr;
				size_t size		   = 0;
				__sanitizer_finish_switch_fiber(all[cur].fake, &bottom, &size);
				if (came_from == 0 && !main_bottom)
				{
					main_bottom = bottom;
					main_size	= size;
				}
			}
		}
		void go(int to) noexcept
		{
			if (to == cur)
				return;
			switches_++;
			fiber& from	 = all[cur];
			fiber& dest	 = all[to];
			came_from	 = cur;
			cur			 = to;
			if (__tsan_switch_to_fiber)
				__tsan_switch_to_fiber(dest.tsan, 1);
			if (__sanitizer_start_switch_fiber)
				__sanitizer_start_switch_fiber(from.live ? &from.fake : nullptr, to == 0 ? main_bottom : dest.stack,
											   to == 0 ? main_size : stack_size);
			sched_switch(&from.sp, dest.sp);
			arrived();
		}
		// choose who runs next, the current fiber may be blocked or dead
		void pick(bool prefer_others) noexcept
		{
			if (++steps_ > P.max_steps)
				fatal("no progress (step limit reached)");
			clock_ += 50;
			if (P.jumps && below(P.jumps) == 0)
				clock_ += 200000000ull;
			if (P.spurious && below(P.spurious) == 0)
			{
				int c[max_fibers], n = 0;
				for (int i = 0; i < count; i++)
					if (all[i].live && all[i].blocked && all[i].is_cv)
						c[n++] = i;
				if (n)
					all[c[below(static_cast<uint64_t>(n))]].blocked = false;
			}
			if (P.mode == 1)
				for (unsigned i = 0; i < P.changes && i < 16; i++)
					if (change[i] == steps_)
						all[cur].priority = low--;
			int c[max_fibers], n = 0;
			for (;;)
			{
				for (int i = 0; i < count; i++)
					if (ready(all[i]))
						c[n++] = i;
				if (n)
					break;
				uint64_t first = never;
				for (int i = 0; i < count; i++)
					if (all[i].live && all[i].blocked && all[i].until < first)
						first = all[i].until;
				if (first == never)
					fatal("deadlock: every thread is blocked");
				clock_ = first;
			}
			int to;
			const bool here = ready(all[cur]);
			if (P.mode == 1)
			{
				// a thread that keeps testing something without pausing must not starve the one it waits for
				if (prefer_others || alone > 2000)
					all[cur].priority = low--;
				to = c[0];
				for (int i = 1; i < n; i++)
					if (all[c[i]].priority > all[to].priority)
						to = c[i];
			}
			else if (here && !prefer_others && below(P.stay))
				to = cur;
			else
			{
				to = c[below(static_cast<uint64_t>(n))];
				if (to == cur && prefer_others)
					to = c[below(static_cast<uint64_t>(n))];
			}
			alone	 = to == cur && n > 1 ? alone + 1 : 0;
			fiber& f = all[to];
			if (f.blocked)
			{
				f.blocked	= false;
				f.timed_out = true;
			}
			f.waits = nullptr;
			f.until = never;
			go(to);
		}
		// returns true if it timed out
		bool block(const void* what, uint64_t until, bool cv) noexcept
		{
			fiber& f	= all[cur];
			f.blocked	= true;
			f.timed_out = false;
			f.waits		= what;
			f.until		= until;
			f.is_cv		= cv;
			pick(false);
			return f.timed_out;
		}
		void wake(const void* what, bool every) noexcept
		{
			int c[max_fibers], n = 0;
			for (int i = 0; i < count; i++)
				if (all[i].live && all[i].blocked && all[i].waits == what)
					c[n++] = i;
			if (!n)
				return;
			if (!every)
			{
				c[0] = c[below(static_cast<uint64_t>(n))];
				n	 = 1;
			}
			for (int i = 0; i < n; i++)
				all[c[i]].blocked = false;
		}
	} // namespace

	void begin(const params& p, fail_fn f) noexcept
	{
		P		  = p;
		fail_	  = f;
		rng		  = p.seed;
		clock_	  = 1000;
		steps_	  = 0;
		switches_ = 0;
		low		  = 1u << 20;
		alone	  = 0;
		count	  = 1;
		cur		  = 0;
		on		  = true;
		if (!P.stay)
			P.stay = 1;
		std::memset(all, 0, sizeof all[0]);
		all[0].live		= true;
		all[0].until	= never;
		all[0].priority = (1ull << 32) + (next() >> 40);
		if (__tsan_get_current_fiber)
			all[0].tsan = __tsan_get_current_fiber();
		for (auto& x : change)
			x = 1 + below(P.horizon ? P.horizon : 1);
	}
	void end() noexcept
	{
		for (int i = 1; i < count; i++)
			if (all[i].live)
				fatal("a thread was left running");
		for (int i = 1; i < count; i++)
		{
			if (all[i].tsan)
				__tsan_destroy_fiber(all[i].tsan);
			if (all[i].stack)
				spare[spares++] = all[i].stack;
		}
		on = false;
	}
	bool active() noexcept { return on; }
	int self() noexcept { return cur; }
	uint64_t now() noexcept { return clock_; }
	uint64_t steps() noexcept { return steps_; }
	uint64_t switches() noexcept { return switches_; }
	unsigned random(unsigned n) noexcept { return static_cast<unsigned>(below(n)); }
	bool finished(int id) noexcept { return !all[id].live; }

	int spawn(void (*fn)(void*), void* arg) noexcept
	{
		if (count == max_fibers)
			fatal("too many threads");
		fiber& f = all[count];
		std::memset(&f, 0, sizeof f);
		f.stack = spares ? spare[--spares]
						 : static_cast<char*>(mmap(nullptr, stack_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
		if (__asan_unpoison_memory_region)
			__asan_unpoison_memory_region(f.stack, stack_size);
		f.fn	= fn;
		f.arg	= arg;
		f.live	= true;
		f.until = never;
		f.priority = (1ull << 32) + (next() >> 40);
		if (__tsan_create_fiber)
			f.tsan = __tsan_create_fiber(0);
		auto top = reinterpret_cast<void**>(f.stack + stack_size - 64);
		*--top	 = nullptr;
		*--top	 = reinterpret_cast<void*>(&sched_entry);
		for (int i = 0; i < 6; i++)
			*--top = nullptr;
		f.sp = top;
		release(&f);
		const int id = count++;
		pick(false);
		return id;
	}
	void join(int id) noexcept
	{
		while (all[id].live)
			block(&all[id], never, false);
		acquire(&all[id]);
	}
	void point() noexcept
	{
		if (on)
			pick(false);
	}
	void pause() noexcept
	{
		if (on)
			pick(true);
	}
	void sleep(uint64_t ns) noexcept
	{
		if (on)
			block(nullptr, clock_ + ns, false);
	}

	void mutex_lock(mutex_state* m) noexcept
	{
		pick(false);
		if (m->tag != 0x600D)
			fatal("lock of a mutex that does not exist");
		if (m->owner == cur)
			fatal("a thread locks a mutex it already holds");
		while (m->owner != -1)
			block(m, never, false);
		m->owner = cur;
		acquire(m);
	}
	bool mutex_try_lock(mutex_state* m) noexcept
	{
		pick(false);
		if (m->tag != 0x600D)
			fatal("lock of a mutex that does not exist");
		if (m->owner != -1)
			return false;
		m->owner = cur;
		acquire(m);
		return true;
	}
	void mutex_unlock(mutex_state* m) noexcept
	{
		if (m->tag != 0x600D)
			fatal("unlock of a mutex that does not exist");
		if (m->owner != cur)
			fatal("a thread unlocks a mutex it does not hold");
		release(m);
		m->owner = -1;
		wake(m, true);
		pick(false);
	}
	void mutex_destroy(mutex_state* m) noexcept
	{
		if (m->tag != 0x600D)
			fatal("a mutex is destroyed twice");
		if (m->owner != -1)
			fatal("a mutex is destroyed while it is held");
		m->tag = 0xDEAD;
	}
	bool cv_wait(void* cv, mutex_state* m, uint64_t ns) noexcept
	{
		if (m->owner != cur)
			fatal("a thread waits without holding the mutex");
		pick(false);
		release(m);
		m->owner = -1;
		wake(m, true);
		const bool late = block(cv, ns == never ? never : clock_ + ns, true);
		while (m->owner != -1)
			block(m, never, false);
		m->owner = cur;
		acquire(m);
		return late;
	}
	void cv_notify(void* cv, bool every) noexcept
	{
		pick(false);
		wake(cv, every);
		pick(false);
	}
	void cv_destroy(void* cv) noexcept
	{
		for (int i = 0; i < count; i++)
			if (all[i].live && all[i].blocked && all[i].waits == cv)
				fatal("a condition variable is destroyed while a thread waits on it");
	}
} // namespace sched

extern "C" void sched_body()
{
	using namespace sched;
	arrived();
	fiber& f = all[cur];
	acquire(&f);
	f.fn(f.arg);
	release(&f);
	f.live = false;
	wake(&f, true);
	pick(false);
	std::abort();
}
asm(R"(
	.text
	.globl sched_entry
	.type sched_entry,@function
sched_entry:
	.cfi_startproc
	.cfi_undefined rip
	endbr64
	xorl %ebp, %ebp
	andq $-16, %rsp
	call sched_body
	hlt
	.cfi_endproc
	.size sched_entry,.-sched_entry
)");
