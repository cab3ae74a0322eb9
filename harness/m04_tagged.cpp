#include "common.hpp"
#include <muu/core.h>
#include <muu/tagged_ptr.h>
#include <memory>
using muu::tagged_ptr;

namespace
{
#if MUU_TAGGED_PTR_BITS
	constexpr unsigned used = MUU_TAGGED_PTR_BITS;
#else
	constexpr unsigned used = 64;
#endif
	constexpr unsigned spare = 64 - used;

	enum class e8 : uint8_t {};
	enum class es8 : int8_t {};
	enum class e16 : uint16_t {};
	enum class es32 : int32_t {};
	enum class e64 : uint64_t {};
	struct pod1
	{
		uint8_t a;
	};
	struct pod2
	{
		uint8_t a, b;
	};
	struct pod4
	{
		int16_t a;
		uint8_t b, c;
	};
	struct nonpod
	{
		int v;
		nonpod() : v{ 1 } {}
	};

	uint64_t low(uint64_t v, unsigned bits) { return bits >= 64 ? v : (v & ((1ull << bits) - 1)); }
	unsigned log2of(uint64_t a)
	{
		unsigned n = 0;
		while (a > 1)
			a >>= 1, n++;
		return n;
	}
	uint64_t canonical(uint64_t v) // sign-extend from the used bits
	{
		if (used == 64)
			return v;
		const uint64_t sign = 1ull << (used - 1);
		v				   = low(v, used);
		return (v ^ sign) - sign;
	}
	template <typename Tag>
	uint64_t repr(const Tag& t)
	{
		uint64_t r = 0;
		std::memcpy(&r, &t, sizeof(t));
		return r;
	}

	template <typename T, size_t Align>
	struct subject
	{
		using tp = tagged_ptr<T, Align>;
		tp p;
		uint64_t addr = 0, tag = 0;
		static unsigned bits() { return log2of(Align) + spare; }
	};

	template <typename T, size_t Align>
	T* gen_ptr(pbt::Case& c)
	{
		uint64_t v = c.integer<uint64_t>();
		if (c.chance(1, 6))
			v = 0;
		if (c.chance(1, 8))
			v = ~0ull;
		if (c.chance(1, 8))
			v = 1ull << (used - 1);
		return reinterpret_cast<T*>(canonical(v & ~static_cast<uint64_t>(Align - 1)));
	}

	// storing a Tag with one of the three ways of storing one; returns false if that type cannot be stored
	template <typename Tag, typename S, typename T>
	void store(pbt::Case& c, S& s, T* ptr, Tag t, unsigned how)
	{
		using tp			= typename S::tp;
		constexpr size_t B  = tp::tag_bit_count;
		constexpr size_t W	= sizeof(Tag) * 8;
		constexpr bool num	= muu::impl::tptr_is_enum_or_integer<Tag>;
		const uint64_t r	= repr(t);
		const bool fits		= W <= B || (num && low(r, B) == r);
		CHECK_EQ(tp::can_store_tag(t), fits, "can_store_tag of " << W << "-bit value " << show128(r) << " with " << B << " tag bits");
		if constexpr (num || W <= B)
		{
#ifndef NDEBUG
			if (!fits)
				return; // an assertion
#endif
			switch (how)
			{
				case 0:
					NOTE("tag(" << show128(r) << ") " << W << " bits");
					CHECK(&s.p.tag(t) == &s.p, "tag() returns the pointer itself");
					break;
				case 1:
					NOTE("reset(" << (void*)ptr << ", " << show128(r) << ") " << W << " bits");
					CHECK(&s.p.reset(ptr, t) == &s.p, "reset() returns the pointer itself");
					s.addr = reinterpret_cast<uint64_t>(ptr);
					break;
				default:
					NOTE("tagged_ptr(" << (void*)ptr << ", " << show128(r) << ") " << W << " bits");
					s.p	   = tp{ ptr, t };
					s.addr = reinterpret_cast<uint64_t>(ptr);
			}
			const uint64_t got = s.p.template tag<uint64_t>();
			s.tag			   = low(r, B);
			// tag bits beyond a narrow negative integer may be a sign extension or zero
			const bool neg = W < B && (std::is_signed_v<Tag> || (std::is_enum_v<Tag> && num)) && (r >> (W - 1)) & 1;
			if (neg)
			{
				CHECK_EQ(low(got, W), s.tag, "tag bits after storing a negative tag");
				s.tag = got;
			}
			if constexpr (!num || W >= B)
			{
				if (fits)
				{
					if constexpr (!(num && W < B))
						CHECK_EQ(repr(s.p.template tag<Tag>()), r, "tag<" << W << "-bit>() after storing it");
				}
			}
		}
	}

	template <typename S, typename T>
	void store_any(pbt::Case& c, S& s, T* ptr, unsigned how)
	{
		const uint64_t v = c.chance(1, 2) ? low(c.integer<uint64_t>(), S::bits()) : c.integer<uint64_t>();
		switch (c.below(18))
		{
			case 0: return store(c, s, ptr, static_cast<uint8_t>(v), how);
			case 1: return store(c, s, ptr, static_cast<int8_t>(v), how);
			case 2: return store(c, s, ptr, static_cast<uint16_t>(v), how);
			case 3: return store(c, s, ptr, static_cast<int16_t>(v), how);
			case 4: return store(c, s, ptr, static_cast<uint32_t>(v), how);
			case 5: return store(c, s, ptr, static_cast<int32_t>(v), how);
			case 6: return store(c, s, ptr, static_cast<uint64_t>(v), how);
			case 7: return store(c, s, ptr, static_cast<int64_t>(v), how);
			case 8: return store(c, s, ptr, static_cast<unsigned long long>(v), how);
			case 9: return store(c, s, ptr, static_cast<e8>(v), how);
			case 10: return store(c, s, ptr, static_cast<es8>(v), how);
			case 11: return store(c, s, ptr, static_cast<e16>(v), how);
			case 12: return store(c, s, ptr, static_cast<es32>(v), how);
			case 13: return store(c, s, ptr, static_cast<e64>(v), how);
			case 14: return store(c, s, ptr, pod1{ uint8_t(v) }, how);
			case 15: return store(c, s, ptr, pod2{ uint8_t(v), uint8_t(v >> 8) }, how);
			case 16: return store(c, s, ptr, pod4{ int16_t(v), uint8_t(v >> 16), uint8_t(v >> 24) }, how);
			default:
				if constexpr (S::tp::tag_bit_count >= 8)
					return c.b() ? store(c, s, ptr, static_cast<char>(v), how) : store(c, s, ptr, static_cast<bool>(v & 1), how);
				return;
		}
	}

	template <typename T, size_t Align>
	void check_state(pbt::Case& c, subject<T, Align>& s, subject<T, Align>& o)
	{
		using tp = tagged_ptr<T, Align>;
		T* want	 = reinterpret_cast<T*>(s.addr);
		CHECK(s.p.ptr() == want, "ptr() = " << (void*)s.p.ptr() << ", stored " << (void*)want);
		CHECK(s.p.get() == want && static_cast<T*>(s.p) == want, "get()/conversion");
		CHECK_EQ(s.p.template tag<uint64_t>(), s.tag, "tag()");
		CHECK_EQ(static_cast<uint64_t>(s.p.tag()), s.tag, "tag() as tag_type");
		if constexpr (tp::tag_bit_count <= 32)
			CHECK_EQ(static_cast<uint64_t>(s.p.template tag<uint32_t>()), s.tag, "tag<uint32_t>()");
		if constexpr (tp::tag_bit_count <= 31)
			CHECK_EQ(static_cast<uint64_t>(s.p.template tag<int>()), s.tag, "tag<int>()");
		if constexpr (tp::tag_bit_count <= 8)
			CHECK_EQ(repr(s.p.template tag<e8>()), s.tag, "tag<e8>()");
		CHECK_EQ(repr(s.p.template tag<e64>()), s.tag, "tag<e64>()");
		if constexpr (tp::tag_bit_count >= 8)
			CHECK_EQ(repr(s.p.template tag<pod1>()), low(s.tag, 8), "tag<pod1>()");
		if constexpr (tp::tag_bit_count >= 16)
			CHECK_EQ(repr(s.p.template tag<pod2>()), low(s.tag, 16), "tag<pod2>()");
		if constexpr (tp::tag_bit_count >= 32)
			CHECK_EQ(repr(s.p.template tag<pod4>()), low(s.tag, 32), "tag<pod4>()");
		for (size_t i = 0; i < tp::tag_bit_count; i++)
			CHECK_EQ(s.p.tag_bit(i), ((s.tag >> i) & 1) != 0, "tag_bit(" << i << ")");
		CHECK_EQ(static_cast<bool>(s.p), s.addr != 0, "conversion to bool");
		CHECK_EQ(s.p == want, true, "== own address");
		CHECK_EQ(s.p != want, false, "!= own address");
		CHECK_EQ(want == s.p, true, "own address ==");
		CHECK_EQ(want != s.p, false, "own address !=");
		T* other = reinterpret_cast<T*>(o.addr);
		CHECK_EQ(s.p == other, s.addr == o.addr, "== other address");
		CHECK_EQ(s.p != other, s.addr != o.addr, "!= other address");
		CHECK_EQ(other == s.p, s.addr == o.addr, "other address ==");
		CHECK_EQ(other != s.p, s.addr != o.addr, "other address !=");
		const bool eq = s.addr == o.addr && s.tag == o.tag;
		CHECK_EQ(s.p == o.p, eq, "tagged == tagged");
		CHECK_EQ(s.p != o.p, !eq, "tagged != tagged");
		tp cp{ s.p };
		CHECK(cp == s.p && cp.ptr() == want && cp.template tag<uint64_t>() == s.tag, "copy");
		CHECK(std::pointer_traits<tp>::to_address(s.p) == want, "pointer_traits::to_address");
#if __cplusplus >= 202002L
		if constexpr (!std::is_function_v<T>)
			CHECK(std::to_address(s.p) == want, "std::to_address");
#endif
		if constexpr (!std::is_function_v<T> && !std::is_void_v<T>)
			CHECK(s.p.operator->() == want, "operator->");
	}

	template <typename T, size_t Align>
	void history(pbt::Case& c)
	{
		using S	 = subject<T, Align>;
		using tp = typename S::tp;
		static_assert(tp::alignment == Align && sizeof(tp) == sizeof(void*) && std::is_trivially_copyable_v<tp>);
		CHECK_EQ(tp::tag_bit_count, S::bits(), "tag_bit_count for alignment " << Align);
		CHECK_EQ(static_cast<uint64_t>(tp::max_tag), low(~0ull, S::bits()), "max_tag");
		CHECK(!tp::can_store_tag(nonpod{}), "can_store_tag of a non-trivial type");
		S s[2];
		bool mixed = false, tagged = false;
		const auto n = c.below(24);
		for (uint64_t i = 0; i <= n; i++)
		{
			const auto k = c.below(2);
			S& a		 = s[k];
			S& b		 = s[1 - k];
			T* ptr		 = gen_ptr<T, Align>(c);
			NOTE("#" << k << ": address " << (void*)a.addr << " tag " << show128(a.tag));
			switch (c.below(12))
			{
				case 0: store_any(c, a, ptr, 2); break;
				case 1: store_any(c, a, ptr, 1); break;
				case 2:
				case 3:
					store_any(c, a, ptr, 0);
					tagged = true;
					break;
				case 4:
					NOTE("ptr(" << (void*)ptr << ")");
					CHECK(&a.p.ptr(ptr) == &a.p, "ptr(p) returns the pointer itself");
					a.addr = reinterpret_cast<uint64_t>(ptr);
					mixed |= tagged;
					break;
				case 5:
					NOTE("= " << (void*)ptr);
					CHECK(&(a.p = ptr) == &a.p, "= returns the pointer itself");
					a.addr = reinterpret_cast<uint64_t>(ptr);
					mixed |= tagged;
					break;
				case 6:
					if constexpr (tp::tag_bit_count > 0)
					{
						const auto bit = c.below(tp::tag_bit_count);
						const bool v   = c.b();
						NOTE("tag_bit(" << bit << ", " << v << ")");
						CHECK(&a.p.tag_bit(bit, v) == &a.p, "tag_bit() returns the pointer itself");
						a.tag  = (a.tag & ~(1ull << bit)) | (uint64_t{ v } << bit);
						tagged = true;
					}
					break;
				case 7:
					NOTE("clear_ptr");
					CHECK(&a.p.clear_ptr() == &a.p, "clear_ptr() returns the pointer itself");
					a.addr = 0;
					break;
				case 8:
					NOTE("clear_tag");
					CHECK(&a.p.clear_tag() == &a.p, "clear_tag() returns the pointer itself");
					a.tag = 0;
					break;
				case 9:
					NOTE("copy assign");
					a.p	   = b.p;
					a.addr = b.addr;
					a.tag  = b.tag;
					break;
				case 10:
					NOTE("reset()");
					if (c.b())
					{
						a.p.reset();
						a.addr = 0;
					}
					else
					{
						c.b() ? a.p.reset(ptr) : (a.p = tp{ ptr });
						a.addr = reinterpret_cast<uint64_t>(ptr);
					}
					a.tag = 0;
					break;
				case 11:
				{
					NOTE("= tagged_ptr(nullptr) or default");
					a.p	   = c.b() ? tp{} : tp{ nullptr };
					a.addr = a.tag = 0;
					break;
				}
			}
			check_state(c, a, b);
			check_state(c, b, a);
			// storability of arbitrary addresses (canonical ones only: the others are never real pointers)
			const uint64_t any = canonical(c.integer<uint64_t>());
			CHECK_EQ(tp::can_store_ptr(reinterpret_cast<T*>(any)), any % Align == 0, "can_store_ptr(" << show128(any) << ")");
		}
		c.nontrivial(mixed);
		c.cls(mixed, "address changed after tag");
	}

	template <size_t A>
	struct alignas(A) obj
	{
		char x[A];
	};
	template <typename T, size_t A>
	struct with
	{};
}

template <typename T>
struct unpack_with;
template <typename T, size_t A>
struct unpack_with<with<T, A>>
{
	static void run(pbt::Case& c) { history<T, A>(c); }
};
template <typename W>
void hist(pbt::Case& c)
{
	unpack_with<W>::run(c);
}

PROP_T("tagged pointer histories, align 2", 4000, 60000, (hist<with<uint16_t, 2>>));
PROP_T("tagged pointer histories, align 4", 4000, 60000, (hist<with<const int, 4>>));
PROP_T("tagged pointer histories, align 8", 4000, 60000, (hist<with<double, 8>>));
PROP_T("tagged pointer histories, char align 16", 4000, 60000, (hist<with<char, 16>>));
PROP_T("tagged pointer histories, void align 32", 4000, 60000, (hist<with<void, 32>>));
PROP_T("tagged pointer histories, align 256", 4000, 60000, (hist<with<obj<256>, 256>>));
PROP_T("tagged pointer histories, align 512", 4000, 60000, (hist<with<int, 512>>));
PROP_T("tagged pointer histories, align 65536", 4000, 60000, (hist<with<int, 65536>>));
PROP_T("tagged pointer histories, align 2^24", 4000, 60000, (hist<with<volatile int, (1 << 24)>>));
PROP_T("tagged pointer histories, align 2^32", 4000, 60000, (hist<with<int, (1ull << 32)>>));
#if MUU_TAGGED_PTR_BITS
PROP_T("tagged pointer histories, char align 1", 4000, 60000, (hist<with<char, 1>>));
PROP_T("tagged pointer histories, function", 4000, 60000, (hist<with<int(int), 1>>));

static int times3(int x) { return x * 3; }
static int minus7(int x) { return x - 7; }
PROP(call_function_pointer, 2000, 20000)
{
	tagged_ptr<int(int)> p;
	using F		 = int (*)(int);
	const F f[2] = { &times3, &minus7 };
	for (int i = 0; i < 4; i++)
	{
		const auto k = c.below(2);
		p			 = f[k];
		p.tag(c.integer<uint8_t>() & uint8_t(p.max_tag));
		const int x = c.integer<int16_t>();
		CHECK_EQ(p(x), f[k](x), "call");
	}
	c.nontrivial();
}
#endif

PROP(real_objects_deduced, 4000, 60000)
{
	struct node
	{
		uint64_t v;
		double d;
	};
	std::unique_ptr<node[]> store_{ new node[9] };
	const auto i = c.below(9), j = c.below(9);
	const auto tag = static_cast<uint8_t>(c.below(8));
	tagged_ptr p{ &store_[i], tag };
	static_assert(std::is_same_v<decltype(p), tagged_ptr<node>>);
	tagged_ptr q{ &store_[j] };
	for (uint64_t k = 0; k < 9; k++)
		store_[k].v = k * 77;
	CHECK_EQ(p->v, i * 77, "->");
	CHECK_EQ((*q).v, j * 77, "*");
	p->v = 5;
	CHECK_EQ(store_[i].v, 5u, "write through ->");
	CHECK_EQ(p.tag(), tag, "tag survives");
	CHECK_EQ(p == &store_[j], i == j, "== address");
	CHECK_EQ(p == q, i == j && tag == 0, "== tagged");
	auto r = std::pointer_traits<tagged_ptr<node>>::pointer_to(store_[j]);
	static_assert(std::is_same_v<decltype(r), tagged_ptr<node>>);
	CHECK(r.ptr() == &store_[j] && r.tag() == 0 && r == q, "pointer_to");
	p = &store_[j];
	CHECK(p.ptr() == &store_[j] && p.tag() == tag, "assignment keeps the tag");
	c.nontrivial(i != j && tag);
}
