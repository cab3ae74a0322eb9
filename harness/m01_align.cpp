#include "leak.hpp"
#include "common.hpp"
#include <muu/core.h>
#include <muu/aligned_alloc.h>
#include <muu/apply_alignment.h>
#include <muu/assume_aligned.h>

namespace
{
	enum class e8 : uint8_t {};
	enum class e32 : uint32_t {};
	enum class e64 : uint64_t {};
	// smallest multiple of a that is >= v, if the type can hold it
	template <typename U>
	constexpr bool round_up(U v, uint64_t a, U& out)
	{
		const u128 q = (static_cast<u128>(v) + a - 1) / a;
		out			 = static_cast<U>(q * a);
		return static_cast<u128>(out) == q * a && (sizeof(U) == 16 || static_cast<u128>(out) == q * a);
	}
	template <typename T, size_t A>
	bool one(T v)
	{
		using U = typename std::conditional_t<std::is_enum_v<T>, std::underlying_type<T>, std::common_type<T>>::type;
		U e;
		if (!round_up<U>(static_cast<U>(v), A, e))
			return false;
		CHECK(static_cast<U>(muu::apply_alignment<A>(v)) == e, "apply_alignment<" << A << ">(" << show128(static_cast<u128>(v)) << ") = " << show128(static_cast<u128>(muu::apply_alignment<A>(v))) << ", expected " << show128(e));
		CHECK(static_cast<U>(muu::apply_alignment(v, A)) == e, "apply_alignment(" << show128(static_cast<u128>(v)) << ", " << A << ") = " << show128(static_cast<u128>(muu::apply_alignment(v, A))) << ", expected " << show128(e));
		return true;
	}
	template <typename T, size_t... B>
	void ints_(pbt::Case& c, T v, std::index_sequence<B...>)
	{
		const unsigned any = (one<T, (size_t{ 1 } << B)>(v) | ...);
		c.nontrivial(any && static_cast<u128>(v) != 0);
	}
	template <typename T>
	void ints(pbt::Case& c)
	{
		using U = typename std::conditional_t<std::is_enum_v<T>, std::underlying_type<T>, std::common_type<T>>::type;
		U v;
		if constexpr (sizeof(U) > 8)
			v = (static_cast<U>(c.integer<uint64_t>()) << (c.b() ? 64 : 0)) | c.integer<uint64_t>();
		else
			v = c.integer<U>();
		NOTE("value " << show128(v));
		ints_<T>(c, static_cast<T>(v), std::make_index_sequence<(sizeof(U) < 8 ? sizeof(U) * 8 : 40)>{});
	}
	PROP_T("apply_alignment u8", 2000, 20000, (ints<uint8_t>));
	PROP_T("apply_alignment u16", 4000, 100000, (ints<uint16_t>));
	PROP_T("apply_alignment u32", 8000, 400000, (ints<uint32_t>));
	PROP_T("apply_alignment u64", 8000, 400000, (ints<uint64_t>));
	PROP_T("apply_alignment ull", 8000, 400000, (ints<unsigned long long>));
	PROP_T("apply_alignment u128", 8000, 400000, (ints<u128>));
	PROP_T("apply_alignment e8", 1000, 10000, (ints<e8>));
	PROP_T("apply_alignment e32", 4000, 100000, (ints<e32>));
	PROP_T("apply_alignment e64", 4000, 100000, (ints<e64>));

	template <size_t A>
	void ptr_one(char* p)
	{
		const auto u = reinterpret_cast<uintptr_t>(p);
		const auto e = (u + A - 1) / A * A;
		CHECK(reinterpret_cast<uintptr_t>(muu::apply_alignment<A>(p)) == e && reinterpret_cast<uintptr_t>(muu::apply_alignment<A>(static_cast<const void*>(p))) == e, "apply_alignment<" << A << "> of a pointer");
		CHECK(reinterpret_cast<uintptr_t>(muu::apply_alignment(p, A)) == e && reinterpret_cast<uintptr_t>(muu::apply_alignment(static_cast<void*>(p), A)) == e, "apply_alignment of a pointer, " << A);
		auto q = reinterpret_cast<char*>(e);
		CHECK(muu::assume_aligned<A>(q) == q && muu::assume_aligned<A>(static_cast<const char*>(q)) == q && muu::assume_aligned<A>(static_cast<volatile char*>(q)) == q && muu::assume_aligned<A>(static_cast<void*>(q)) == q, "assume_aligned returns its argument");
	}
	PROP(pointers, 4000, 100000)
	{
		auto p = reinterpret_cast<char*>(c.b() ? c.u(1, 0x7FFFFFFF0000) : c.u(1, 4096) + (uint64_t{ 1 } << c.u(12, 46)));
		c.nontrivial();
		ptr_one<1>(p);
		ptr_one<2>(p);
		ptr_one<4>(p);
		ptr_one<8>(p);
		ptr_one<16>(p);
		ptr_one<64>(p);
		ptr_one<256>(p);
		ptr_one<4096>(p);
		ptr_one<65536>(p);
	}
	constexpr bool ct()
	{
		crng g(VERIF_SEED + 17);
		for (int i = 0; i < 300; i++)
		{
			const auto v = g.integer<uint64_t>();
			uint64_t e	 = 0;
			const auto k = g.below(30);
			if (round_up<uint64_t>(v, uint64_t{ 1 } << k, e) && muu::apply_alignment(v, size_t{ 1 } << k) != e)
				return false;
			if (round_up<uint64_t>(v, 64, e) && muu::apply_alignment<64>(v) != e)
				return false;
		}
		return true;
	}
	static_assert(ct());

	struct block
	{
		unsigned char* p;
		size_t size, align;
		unsigned char seed;
	};
	unsigned char at(const block& b, size_t i) { return static_cast<unsigned char>(b.seed + i * 37 + (i >> 8)); }
	PROP(histories, 6000, 200000)
	{
		const auto heap = leak::heap_bytes();
		{
			block live[12]{};
			size_t n = 0, allocs = 0, frees = 0;
			const auto steps = c.sz(1, 40);
			auto check		 = [&](const block& b) {
				 for (size_t i = 0; i < b.size; i++)
					 if (b.p[i] != at(b, i))
						 CHECK(false, "byte " << i << " of a live block of " << b.size << " changed");
			};
			for (size_t s = 0; s < steps; s++)
			{
				if (n && (n == 12 || c.chance(2, 5)))
				{
					const auto k = c.sz(0, n - 1);
					check(live[k]);
					muu::aligned_free(live[k].p);
					live[k] = live[--n];
					frees++;
				}
				else
				{
					size_t size = c.b() ? c.sz(1, 100) : c.b() ? c.sz(1, 5000) : (size_t{ 1 } << c.sz(0, 18)) - c.sz(0, 1);
					size		= std::max<size_t>(size, 1);
					const size_t align = size_t{ 1 } << (c.b() ? c.sz(0, 6) : c.sz(0, 16));
					auto p			   = static_cast<unsigned char*>(muu::aligned_alloc(size, align));
					NOTE("alloc " << size << " @" << align);
					CHECK(p, "aligned_alloc(" << size << ", " << align << ") returned null");
					allocs++;
					const auto addr = reinterpret_cast<uintptr_t>(p);
					CHECK(addr % align == 0 && addr % 16 == 0, "aligned_alloc(" << size << ", " << align << ") = " << addr);
					for (size_t i = 0; i < n; i++)
						CHECK(p + size <= live[i].p || live[i].p + live[i].size <= p, "overlaps a live block");
					live[n] = { p, size, align, static_cast<unsigned char>(c.raw(255)) };
					for (size_t i = 0; i < size; i++)
						p[i] = at(live[n], i);
					n++;
				}
			}
			while (n)
			{
				check(live[--n]);
				muu::aligned_free(live[n].p);
			}
			muu::aligned_free(nullptr);
			c.nontrivial(allocs > 2 && frees > 0);
		}
		const auto after = leak::heap_bytes();
		CHECK(c.verbose || after == heap, "leaked " << after - heap << " bytes");
	}
	// requests that cannot be met: rounded-up sizes would overflow
	PROP(impossible, 500, 5000)
	{
		const size_t align = size_t{ 1 } << c.sz(0, 20);
		const size_t size  = c.b() ? static_cast<size_t>(-1) - c.sz(0, 2 * align) : (size_t{ 1 } << 63) + c.raw(1000);
		volatile size_t vs = size;
		auto p			   = muu::aligned_alloc(vs, align);
		c.nontrivial();
		CHECK(p == nullptr, "aligned_alloc(" << size << ", " << align << ") returned a block");
	}
}
