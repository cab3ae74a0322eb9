// counts live heap allocations made through operator new (include in exactly one TU)
#pragma once
#include <cstdlib>
#include <new>
#include <atomic>
namespace leak
{
	inline std::atomic<long long> live{ 0 };
	inline std::atomic<long long> total{ 0 };
	inline void* get(size_t n)
	{
		void* p = std::malloc(n ? n : 1);
		if (!p)
			std::abort();
		live++;
		total++;
		return p;
	}
	inline void* get(size_t n, size_t a)
	{
		void* p = std::aligned_alloc(a, (n + a - 1) / a * a);
		if (!p)
			std::abort();
		live++;
		total++;
		return p;
	}
	inline void put(void* p)
	{
		if (p)
		{
			live--;
			std::free(p);
		}
	}
}
void* operator new(size_t n) { return leak::get(n); }
void* operator new[](size_t n) { return leak::get(n); }
void* operator new(size_t n, std::align_val_t a) { return leak::get(n, static_cast<size_t>(a)); }
void* operator new[](size_t n, std::align_val_t a) { return leak::get(n, static_cast<size_t>(a)); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return leak::get(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return leak::get(n); }
void operator delete(void* p) noexcept { leak::put(p); }
void operator delete[](void* p) noexcept { leak::put(p); }
void operator delete(void* p, size_t) noexcept { leak::put(p); }
void operator delete[](void* p, size_t) noexcept { leak::put(p); }
void operator delete(void* p, std::align_val_t) noexcept { leak::put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { leak::put(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { leak::put(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { leak::put(p); }
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
namespace leak
{
	// every live heap byte, malloc family included
	inline size_t heap_bytes() { return __sanitizer_get_current_allocated_bytes(); }
}
#else
namespace leak
{
	inline size_t heap_bytes() { return 0; }
}
#endif
