#include "leak.hpp"
#include "common.hpp"
#include <muu/core.h>
#include <muu/blob.h>
#include <optional>
using muu::blob;

namespace
{
	struct model
	{
		size_t align = 16; // at least
		std::vector<int> bytes; // -1: unspecified
	};
	struct ex
	{
		std::optional<blob> b;
		model m;
	};
	void check(const ex& x)
	{
		const auto& b = *x.b;
		CHECK_EQ(b.size(), x.m.bytes.size(), "size");
		CHECK_EQ(static_cast<bool>(b), x.m.bytes.size() != 0, "bool");
		CHECK((b.data() != nullptr) == (x.m.bytes.size() != 0), "data is null exactly when the blob is empty");
		const auto a = b.alignment();
		CHECK(a && (a & (a - 1)) == 0 && a >= x.m.align, "alignment " << a << ", asked for " << x.m.align);
		CHECK(reinterpret_cast<uintptr_t>(b.data()) % a == 0, "data is not aligned to " << a);
		for (size_t i = 0; i < b.size(); i++)
		{
			const int got = static_cast<int>(b.data()[i]);
			if (x.m.bytes[i] >= 0 && got != x.m.bytes[i])
				CHECK(false, "byte " << i << " of " << b.size() << " is " << got << ", expected " << x.m.bytes[i]);
		}
	}
	// write unspecified bytes so that they can be followed
	void settle(pbt::Case& c, ex& x)
	{
		auto s = static_cast<unsigned>(c.raw(255));
		for (size_t i = 0; i < x.m.bytes.size(); i++)
			if (x.m.bytes[i] < 0)
			{
				const auto v	= static_cast<uint8_t>(s + i * 7);
				x.b->data()[i]	= static_cast<std::byte>(v);
				x.m.bytes[i]	= v;
			}
	}
	size_t gen_size(pbt::Case& c)
	{
		switch (c.raw(5))
		{
			case 0: return c.sz(0, 2);
			case 1: return c.sz(0, 64);
			case 2: return c.sz(2040, 2056);
			case 3: return c.sz(0, 5000);
			default: return c.sz(0, 300);
		}
	}
	size_t gen_align(pbt::Case& c) { return c.b() ? 0 : size_t{ 1 } << (c.b() ? c.sz(0, 7) : c.sz(0, 12)); }
	std::vector<int> unspecified(size_t n) { return std::vector<int>(n, -1); }

	PROP(histories, 20000, 700000)
	{
		const auto heap = leak::heap_bytes();
		bool alias = false, realign = false;
		{
			ex x[4];
			for (auto& e : x)
				e.b.emplace();
			const auto steps = c.sz(1, 24);
			for (size_t s = 0; s < steps; s++)
			{
				const auto k = c.sz(0, 3), j = c.sz(0, 3);
				auto &a = x[k], &b = x[j];
				const auto before = a.b->alignment();
				switch (c.raw(12))
				{
					case 0:
					{ // new one from data
						const auto n = gen_size(c), al = gen_align(c);
						std::vector<unsigned char> src(n);
						const auto sd = c.raw(255);
						for (size_t i = 0; i < n; i++)
							src[i] = static_cast<unsigned char>(sd + i);
						const bool null = c.chance(1, 4);
						NOTE("x" << k << " = blob(" << n << ", " << (null ? "null" : "src") << ", " << al << ")");
						a.b.emplace(n, null ? nullptr : src.data(), al);
						a.m.bytes = unspecified(n);
						if (!null)
							a.m.bytes.assign(src.begin(), src.end());
						a.m.align = std::max<size_t>(al, 16);
						break;
					}
					case 1:
						NOTE("x" << k << " = blob()");
						a.b.emplace();
						a.m = {};
						break;
					case 2:
						if (k == j)
							break;
						NOTE("x" << k << " = blob(x" << j << ")");
						a.b.emplace(*b.b);
						a.m.bytes = b.m.bytes;
						a.m.align = b.m.align;
						break;
					case 3:
					{
						if (k == j)
							break;
						const auto al = gen_align(c);
						NOTE("x" << k << " = blob(x" << j << ", " << al << ")");
						a.b.emplace(*b.b, al);
						a.m.bytes = b.m.bytes;
						a.m.align = al ? std::max<size_t>(al, 16) : b.m.align;
						break;
					}
					case 4:
						if (k == j)
							break;
						NOTE("x" << k << " = blob(move(x" << j << "))");
						a.b.emplace(std::move(*b.b));
						a.m = std::exchange(b.m, model{});
						break;
					case 5:
						NOTE("x" << k << " = x" << j);
						CHECK(&(*a.b = *b.b) == &*a.b, "assignment returns the blob");
						a.m.bytes = b.m.bytes;
						a.m.align = b.m.align;
						break;
					case 6:
					{
						NOTE("x" << k << " = move(x" << j << ")");
						CHECK(&(*a.b = std::move(*b.b)) == &*a.b, "assignment returns the blob");
						if (k != j)
							a.m = std::exchange(b.m, model{});
						break;
					}
					case 7:
						NOTE("swap x" << k << " x" << j);
						std::swap(*a.b, *b.b);
						std::swap(a.m, b.m);
						break;
					case 8:
					case 9:
					{
						const auto n = gen_size(c);
						NOTE("x" << k << " resize " << n);
						CHECK(&a.b->resize(n) == &*a.b, "resize returns the blob");
						a.m.bytes.resize(n, -1);
						break;
					}
					case 10:
					{ // assign from elsewhere
						const auto n = gen_size(c), al = gen_align(c);
						std::vector<unsigned char> src(n);
						const auto sd = c.raw(255);
						for (size_t i = 0; i < n; i++)
							src[i] = static_cast<unsigned char>(sd + i * 3);
						const bool null = c.chance(1, 5);
						NOTE("x" << k << " assign(" << n << ", " << (null ? "null" : "src") << ", " << al << ")");
						CHECK(&a.b->assign(n, null ? nullptr : src.data(), al) == &*a.b, "assign returns the blob");
						a.m.bytes = unspecified(n);
						if (!null)
							a.m.bytes.assign(src.begin(), src.end());
						a.m.align = std::max<size_t>(al, 16);
						break;
					}
					case 11:
					{ // assign from (part of) a blob, possibly the same
						if (b.m.bytes.empty())
							break;
						const auto from = c.chance(1, 3) ? size_t{} : c.sz(0, b.m.bytes.size() - 1);
						const auto n	= c.chance(1, 3) ? b.m.bytes.size() - from : c.sz(0, b.m.bytes.size() - from);
						const auto al	= gen_align(c);
						NOTE("x" << k << " assign(" << n << ", x" << j << " + " << from << ", " << al << ")");
						alias = alias || k == j;
						const std::vector<int> part(b.m.bytes.begin() + static_cast<ptrdiff_t>(from), b.m.bytes.begin() + static_cast<ptrdiff_t>(from + n));
						a.b->assign(n, b.b->data() + from, al);
						a.m.bytes = part;
						a.m.align = std::max<size_t>(al, 16);
						break;
					}
					default:
					{ // write
						if (a.m.bytes.empty())
							break;
						const auto i	= c.sz(0, a.m.bytes.size() - 1);
						const auto v	= c.raw(255);
						a.b->data()[i]	= static_cast<std::byte>(v);
						a.m.bytes[i]	= static_cast<int>(v);
						break;
					}
				}
				realign = realign || a.b->alignment() != before;
				for (auto& e : x)
				{
					check(e);
					settle(c, e);
				}
			}
			c.nontrivial(steps > 3);
		}
		const auto after = leak::heap_bytes();
		CHECK(c.verbose || after == heap, "leaked " << static_cast<long long>(after - heap) << " bytes");
		c.cls(alias, "assigned from itself");
		c.cls(realign, "alignment changed");
	}
}
