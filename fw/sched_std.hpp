// Stand-ins for the standard synchronisation primitives on top of sched.h, and (between SCHED_STD_BEGIN/END includes)
// macros that make a source file use them. Everything the source may include has to be included before.
#pragma once
#include "schedule.h"
#include <bits/stdc++.h>

namespace std
{
	class fz_mutex
	{
		mutable ::sched::mutex_state s;
		friend class fz_condition_variable;

	  public:
		fz_mutex() noexcept {}
		fz_mutex(const fz_mutex&)			 = delete;
		fz_mutex& operator=(const fz_mutex&) = delete;
		~fz_mutex() { ::sched::mutex_destroy(&s); }
		void lock() { ::sched::mutex_lock(&s); }
		bool try_lock() { return ::sched::mutex_try_lock(&s); }
		void unlock() { ::sched::mutex_unlock(&s); }
		void lock_shared() { lock(); }
		bool try_lock_shared() { return try_lock(); }
		void unlock_shared() { unlock(); }
	};

	class fz_recursive_mutex
	{
		fz_mutex m;
		int owner = -1, depth = 0;

	  public:
		bool try_lock()
		{
			if (owner != ::sched::self() && !m.try_lock())
				return false;
			owner = ::sched::self();
			depth++;
			return true;
		}
		void lock()
		{
			if (owner != ::sched::self())
				m.lock();
			owner = ::sched::self();
			depth++;
		}
		void unlock()
		{
			if (--depth)
				return;
			owner = -1;
			m.unlock();
		}
	};

	class fz_timed_mutex : public fz_mutex
	{
	  public:
		template <typename R, typename Q>
		bool try_lock_for(const chrono::duration<R, Q>& d)
		{
			const auto until = ::sched::now() + static_cast<uint64_t>(max<long long>(0, chrono::duration_cast<chrono::nanoseconds>(d).count()));
			while (!try_lock())
			{
				if (::sched::now() >= until)
					return false;
				::sched::pause();
			}
			return true;
		}
		template <typename K, typename D>
		bool try_lock_until(const chrono::time_point<K, D>& t)
		{
			return try_lock_for(t - K::now());
		}
	};

	class fz_condition_variable
	{
		char id;
		template <typename D>
		static uint64_t ns(D d)
		{
			const auto n = chrono::duration_cast<chrono::nanoseconds>(d).count();
			return n < 0 ? 0 : static_cast<uint64_t>(n);
		}

	  public:
		fz_condition_variable() noexcept {}
		fz_condition_variable(const fz_condition_variable&)			   = delete;
		fz_condition_variable& operator=(const fz_condition_variable&) = delete;
		~fz_condition_variable() { ::sched::cv_destroy(&id); }
		void notify_one() noexcept { ::sched::cv_notify(&id, false); }
		void notify_all() noexcept { ::sched::cv_notify(&id, true); }
		void wait(unique_lock<fz_mutex>& l) { ::sched::cv_wait(&id, &l.mutex()->s, ~0ull); }
		template <typename P>
		void wait(unique_lock<fz_mutex>& l, P p)
		{
			while (!p())
				wait(l);
		}
		template <typename R, typename Q>
		cv_status wait_for(unique_lock<fz_mutex>& l, const chrono::duration<R, Q>& d)
		{
			return ::sched::cv_wait(&id, &l.mutex()->s, ns(d)) ? cv_status::timeout : cv_status::no_timeout;
		}
		template <typename R, typename Q, typename P>
		bool wait_for(unique_lock<fz_mutex>& l, const chrono::duration<R, Q>& d, P p)
		{
			const auto until = ::sched::now() + ns(d);
			while (!p())
			{
				const auto n = ::sched::now();
				if (n >= until || ::sched::cv_wait(&id, &l.mutex()->s, until - n))
					return p();
			}
			return true;
		}
		template <typename K, typename D>
		cv_status wait_until(unique_lock<fz_mutex>& l, const chrono::time_point<K, D>& t)
		{
			return wait_for(l, t - K::now());
		}
		template <typename K, typename D, typename P>
		bool wait_until(unique_lock<fz_mutex>& l, const chrono::time_point<K, D>& t, P p)
		{
			return wait_for(l, t - K::now(), std::move(p));
		}
	};

	template <typename T>
	class fz_atomic : public atomic<T>
	{
		using base = atomic<T>;

	  public:
		constexpr fz_atomic() noexcept : base(T()) {}
		constexpr fz_atomic(T v) noexcept : base(v) {}
		fz_atomic(const fz_atomic&)			   = delete;
		fz_atomic& operator=(const fz_atomic&) = delete;
		using mo							   = memory_order;
		T load(mo m = memory_order_seq_cst) const noexcept
		{
			::sched::point();
			return base::load(m);
		}
		operator T() const noexcept { return load(); }
		void store(T v, mo m = memory_order_seq_cst) noexcept
		{
			::sched::point();
			base::store(v, m);
		}
		T operator=(T v) noexcept
		{
			store(v);
			return v;
		}
		T exchange(T v, mo m = memory_order_seq_cst) noexcept
		{
			::sched::point();
			return base::exchange(v, m);
		}
		template <typename... A>
		bool compare_exchange_strong(T& e, T v, A... a) noexcept
		{
			::sched::point();
			return base::compare_exchange_strong(e, v, a...);
		}
		template <typename... A>
		bool compare_exchange_weak(T& e, T v, A... a) noexcept
		{
			::sched::point();
			if (::sched::active() && ::sched::random(8) == 0)
			{
				e = base::load(memory_order_relaxed);
				return false;
			}
			return base::compare_exchange_weak(e, v, a...);
		}
#define FZ_OP(name)                                                                                                    \
	template <typename U = T>                                                                                          \
	T name(U v, mo m = memory_order_seq_cst) noexcept                                                              \
	{                                                                                                                  \
		::sched::point();                                                                                              \
		return base::name(v, m);                                                                                       \
	}
		FZ_OP(fetch_add)
		FZ_OP(fetch_sub)
		FZ_OP(fetch_and)
		FZ_OP(fetch_or)
		FZ_OP(fetch_xor)
#undef FZ_OP
		T operator++(int) noexcept { return fetch_add(T(1)); }
		T operator--(int) noexcept { return fetch_sub(T(1)); }
		T operator++() noexcept { return static_cast<T>(fetch_add(T(1)) + 1); }
		T operator--() noexcept { return static_cast<T>(fetch_sub(T(1)) - 1); }
		T operator+=(T v) noexcept { return static_cast<T>(fetch_add(v) + v); }
		T operator-=(T v) noexcept { return static_cast<T>(fetch_sub(v) - v); }
		T operator|=(T v) noexcept { return static_cast<T>(fetch_or(v) | v); }
		T operator&=(T v) noexcept { return static_cast<T>(fetch_and(v) & v); }
		void wait(T v, mo m = memory_order_seq_cst) const noexcept
		{
			while (load(m) == v)
				::sched::pause();
		}
		void notify_one() noexcept {}
		void notify_all() noexcept {}
	};
	class fz_atomic_flag
	{
		fz_atomic<bool> f{ false };

	  public:
		fz_atomic_flag() noexcept {}
		fz_atomic_flag(bool) noexcept {}
		bool test_and_set(memory_order m = memory_order_seq_cst) noexcept { return f.exchange(true, m); }
		void clear(memory_order m = memory_order_seq_cst) noexcept { f.store(false, m); }
		bool test(memory_order m = memory_order_seq_cst) const noexcept { return f.load(m); }
		void wait(bool v, memory_order m = memory_order_seq_cst) const noexcept { f.wait(v, m); }
		void notify_one() noexcept {}
		void notify_all() noexcept {}
	};
	inline void fz_atomic_thread_fence(memory_order m) noexcept
	{
		::sched::point();
		atomic_thread_fence(m);
	}

	class fz_thread
	{
		int id_ = 0;

	  public:
		using id = int;
		fz_thread() noexcept = default;
		template <typename F, typename... A, typename = enable_if_t<!is_same_v<decay_t<F>, fz_thread>>>
		explicit fz_thread(F&& f, A&&... a)
		{
			auto call = [fn = decay_t<F>(std::forward<F>(f)), args = tuple<decay_t<A>...>(std::forward<A>(a)...)]() mutable
			{ std::apply(std::move(fn), std::move(args)); };
			using C = decltype(call);
			auto p	= new C(std::move(call));
			id_		= ::sched::spawn(
				[](void* q)
				{
					unique_ptr<C> own(static_cast<C*>(q));
					(*own)();
				},
				p);
		}
		fz_thread(fz_thread&& o) noexcept : id_(std::exchange(o.id_, 0)) {}
		fz_thread& operator=(fz_thread&& o) noexcept
		{
			if (id_)
				terminate();
			id_ = std::exchange(o.id_, 0);
			return *this;
		}
		~fz_thread()
		{
			if (id_)
				terminate();
		}
		bool joinable() const noexcept { return id_ != 0; }
		id get_id() const noexcept { return id_; }
		id fz_get_id() const noexcept { return id_; } // the macro renames the call too
		void join()
		{
			::sched::join(id_);
			id_ = 0;
		}
		void detach() { id_ = 0; }
		void swap(fz_thread& o) noexcept { std::swap(id_, o.id_); }
		static unsigned hardware_concurrency() noexcept { return 2; }
	};
#if __cplusplus >= 202002L
	class fz_jthread : public fz_thread
	{
	  public:
		using fz_thread::fz_thread;
		fz_jthread() noexcept				= default;
		fz_jthread(fz_jthread&&) noexcept	= default;
		fz_jthread& operator=(fz_jthread&& o)
		{
			if (joinable())
				join();
			fz_thread::operator=(std::move(o));
			return *this;
		}
		~fz_jthread()
		{
			if (joinable())
				join();
		}
	};
	template <ptrdiff_t Max = 1000000>
	class fz_counting_semaphore
	{
		fz_mutex m;
		fz_condition_variable v;
		ptrdiff_t n;

	  public:
		explicit fz_counting_semaphore(ptrdiff_t start) noexcept : n(start) {}
		void release(ptrdiff_t by = 1)
		{
			lock_guard<fz_mutex> l(m);
			n += by;
			v.notify_all();
		}
		void acquire()
		{
			unique_lock<fz_mutex> l(m);
			v.wait(l, [&] { return n > 0; });
			n--;
		}
		bool try_acquire() noexcept
		{
			lock_guard<fz_mutex> l(m);
			return n > 0 && n--;
		}
		template <typename R, typename Q>
		bool try_acquire_for(const chrono::duration<R, Q>& d)
		{
			unique_lock<fz_mutex> l(m);
			return v.wait_for(l, d, [&] { return n > 0; }) && n--;
		}
	};
	class fz_latch
	{
		fz_mutex m;
		fz_condition_variable v;
		ptrdiff_t n;

	  public:
		explicit fz_latch(ptrdiff_t start) noexcept : n(start) {}
		void count_down(ptrdiff_t by = 1)
		{
			lock_guard<fz_mutex> l(m);
			if ((n -= by) <= 0)
				v.notify_all();
		}
		bool try_wait() noexcept
		{
			lock_guard<fz_mutex> l(m);
			return n <= 0;
		}
		void wait()
		{
			unique_lock<fz_mutex> l(m);
			v.wait(l, [&] { return n <= 0; });
		}
		void arrive_and_wait(ptrdiff_t by = 1)
		{
			count_down(by);
			wait();
		}
	};
#endif
	namespace this_thread
	{
		template <typename K, typename D>
		void fz_sleep_until(const chrono::time_point<K, D>& t)
		{
			const auto n = chrono::duration_cast<chrono::nanoseconds>(t - K::now()).count();
			::sched::sleep(n < 0 ? 0 : static_cast<uint64_t>(n));
		}
		template <typename R, typename Q>
		void fz_sleep_for(const chrono::duration<R, Q>& d)
		{
			const auto n = chrono::duration_cast<chrono::nanoseconds>(d).count();
			::sched::sleep(n < 0 ? 0 : static_cast<uint64_t>(n));
		}
		inline void fz_yield() noexcept { ::sched::pause(); }
		inline int fz_get_id() noexcept { return ::sched::self(); }
	} // namespace this_thread
} // namespace std
