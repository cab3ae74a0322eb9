// undoes sched_macros.hpp
#undef mutex
#undef shared_mutex
#undef recursive_mutex
#undef timed_mutex
#undef shared_timed_mutex
#undef condition_variable
#undef condition_variable_any
#undef atomic
#undef atomic_bool
#undef atomic_size_t
#undef atomic_ptrdiff_t
#undef atomic_char
#undef atomic_schar
#undef atomic_uchar
#undef atomic_short
#undef atomic_ushort
#undef atomic_int
#undef atomic_uint
#undef atomic_long
#undef atomic_ulong
#undef atomic_llong
#undef atomic_ullong
#undef atomic_intptr_t
#undef atomic_uintptr_t
#undef atomic_signed_lock_free
#undef atomic_unsigned_lock_free
#undef atomic_int8_t
#undef atomic_uint8_t
#undef atomic_int_least8_t
#undef atomic_uint_least8_t
#undef atomic_int_fast8_t
#undef atomic_uint_fast8_t
#undef atomic_int16_t
#undef atomic_uint16_t
#undef atomic_int_least16_t
#undef atomic_uint_least16_t
#undef atomic_int_fast16_t
#undef atomic_uint_fast16_t
#undef atomic_int32_t
#undef atomic_uint32_t
#undef atomic_int_least32_t
#undef atomic_uint_least32_t
#undef atomic_int_fast32_t
#undef atomic_uint_fast32_t
#undef atomic_int64_t
#undef atomic_uint64_t
#undef atomic_int_least64_t
#undef atomic_uint_least64_t
#undef atomic_int_fast64_t
#undef atomic_uint_fast64_t
#undef atomic_flag
#undef atomic_thread_fence
#undef thread
#undef jthread
#undef counting_semaphore
#undef binary_semaphore
#undef latch
#undef sleep_for
#undef sleep_until
#undef yield
#undef get_id
