// (no include guard: included around the sources under test)
#define mutex fz_mutex
#define shared_mutex fz_mutex
#define recursive_mutex fz_recursive_mutex
#define timed_mutex fz_timed_mutex
#define shared_timed_mutex fz_mutex
#define condition_variable fz_condition_variable
#define condition_variable_any fz_condition_variable
#define atomic fz_atomic
#define atomic_bool fz_atomic<bool>
#define atomic_size_t fz_atomic<std::size_t>
#define atomic_ptrdiff_t fz_atomic<std::ptrdiff_t>
#define atomic_char fz_atomic<char>
#define atomic_schar fz_atomic<signed char>
#define atomic_uchar fz_atomic<unsigned char>
#define atomic_short fz_atomic<short>
#define atomic_ushort fz_atomic<unsigned short>
#define atomic_int fz_atomic<int>
#define atomic_uint fz_atomic<unsigned>
#define atomic_long fz_atomic<long>
#define atomic_ulong fz_atomic<unsigned long>
#define atomic_llong fz_atomic<long long>
#define atomic_ullong fz_atomic<unsigned long long>
#define atomic_intptr_t fz_atomic<std::intptr_t>
#define atomic_uintptr_t fz_atomic<std::uintptr_t>
#define atomic_signed_lock_free fz_atomic<int>
#define atomic_unsigned_lock_free fz_atomic<unsigned>
#define atomic_int8_t fz_atomic<std::int8_t>
#define atomic_uint8_t fz_atomic<std::uint8_t>
#define atomic_int_least8_t fz_atomic<std::int_least8_t>
#define atomic_uint_least8_t fz_atomic<std::uint_least8_t>
#define atomic_int_fast8_t fz_atomic<std::int_fast8_t>
#define atomic_uint_fast8_t fz_atomic<std::uint_fast8_t>
#define atomic_int16_t fz_atomic<std::int16_t>
#define atomic_uint16_t fz_atomic<std::uint16_t>
#define atomic_int_least16_t fz_atomic<std::int_least16_t>
#define atomic_uint_least16_t fz_atomic<std::uint_least16_t>
#define atomic_int_fast16_t fz_atomic<std::int_fast16_t>
#define atomic_uint_fast16_t fz_atomic<std::uint_fast16_t>
#define atomic_int32_t fz_atomic<std::int32_t>
#define atomic_uint32_t fz_atomic<std::uint32_t>
#define atomic_int_least32_t fz_atomic<std::int_least32_t>
#define atomic_uint_least32_t fz_atomic<std::uint_least32_t>
#define atomic_int_fast32_t fz_atomic<std::int_fast32_t>
#define atomic_uint_fast32_t fz_atomic<std::uint_fast32_t>
#define atomic_int64_t fz_atomic<std::int64_t>
#define atomic_uint64_t fz_atomic<std::uint64_t>
#define atomic_int_least64_t fz_atomic<std::int_least64_t>
#define atomic_uint_least64_t fz_atomic<std::uint_least64_t>
#define atomic_int_fast64_t fz_atomic<std::int_fast64_t>
#define atomic_uint_fast64_t fz_atomic<std::uint_fast64_t>
#define atomic_flag fz_atomic_flag
#define atomic_thread_fence fz_atomic_thread_fence
#define thread fz_thread
#define jthread fz_jthread
#define counting_semaphore fz_counting_semaphore
#define binary_semaphore fz_counting_semaphore<1>
#define latch fz_latch
#define sleep_for fz_sleep_for
#define sleep_until fz_sleep_until
#define yield fz_yield
#define get_id fz_get_id
#undef MUU_PAUSE
#define MUU_PAUSE() ::sched::pause()
