#include "utf.hpp"
#include "hashref.hpp"
#include <muu/core.h>
#include <muu/hashing.h>
#include <memory>
#include <sstream>

namespace
{
	// a string of scalars whose byte order utf_decode takes to be the platform's (T02 has the rule), no leading BOM
	template <typename C>
	std::basic_string<C> gen_text(pbt::Case& c, std::string& utf8, size_t max)
	{
		utf::cps v;
		const auto n = c.biased_size(max);
		for (size_t i = 0; i < n; i++)
			v.push_back(utf::gen_scalar(c));
		if (sizeof(C) > 1)
		{
			v.insert(v.begin(), 9, U'x'); // evidence of the native byte order among the first 16 units
		}
		utf8 = utf::encode<char>(v);
		return utf::encode<C>(v);
	}
	size_t chunk(pbt::Case& c)
	{
		switch (c.raw(5))
		{
			case 0: return c.sz(0, 3);
			case 1: return c.sz(0, 64);
			case 2: return c.sz(55, 65);
			case 3: return c.sz(0, 300);
			case 4: return 64 * c.sz(0, 3);
			default: return c.sz(119, 129);
		}
	}
	std::vector<char> exact(pbt::Case& c, size_t n)
	{
		std::vector<char> v(n);
		const auto mode = c.raw(2);
		for (auto& x : v)
			x = mode == 0 ? static_cast<char>(c.raw(255)) : mode == 1 ? 'a' : static_cast<char>(0xFF);
		v.shrink_to_fit();
		return v;
	}

	std::string print(const muu::sha1& h)
	{
		std::ostringstream o;
		o << h;
		return o.str();
	}
	void check_digest(const muu::sha1& h, const std::string& msg)
	{
		const auto e = sha1_of(msg);
		CHECK(std::memcmp(h.value().value, e.data(), 20) == 0,
			  "SHA-1 of " << msg.size() << " bytes: got " << hex_of(h.value().value, 20) << ", expected " << hex_of(e.data(), 20));
		CHECK_EQ(print(h), hex_of(e.data(), 20), "printed");
		std::wostringstream w;
		w << h;
		const auto hx = hex_of(e.data(), 20);
		CHECK(w.str() == std::wstring(hx.begin(), hx.end()), "printed wide");
	}

	PROP(sha1_chunks, 15000, 400000)
	{
		muu::sha1 h;
		std::string msg;
		const auto steps = c.sz(0, 12);
		for (size_t i = 0; i < steps; i++)
		{
			std::string u8;
			muu::sha1* r = &h;
			switch (c.raw(9))
			{
				case 0:
				{
					const auto b = static_cast<uint8_t>(c.raw(255));
					r = &h(b);
					msg += static_cast<char>(b);
					break;
				}
				case 1:
				{
					const auto b = static_cast<std::byte>(c.raw(255));
					r = &h(b);
					msg += static_cast<char>(b);
					break;
				}
				case 2:
				{
					const auto v = gen_text<wchar_t>(c, u8, 40);
					r = &h(std::wstring_view{ v });
					msg += u8;
					break;
				}
				case 3:
				{
					const auto v = gen_text<char16_t>(c, u8, 40);
					r = &h(std::u16string_view{ v });
					msg += u8;
					break;
				}
				case 4:
				{
					const auto v = gen_text<char32_t>(c, u8, 40);
					r = &h(std::u32string_view{ v });
					msg += u8;
					break;
				}
				case 5:
				{
					const auto v = exact(c, chunk(c));
					r = &h(std::string_view{ v.data(), v.size() });
					msg.append(v.data(), v.size());
					break;
				}
#if MUU_HAS_CHAR8_STRINGS
				case 6:
				{
					const auto v = gen_text<char8_t>(c, u8, 40);
					r = &h(std::u8string_view{ v });
					msg += u8;
					break;
				}
#endif
				case 7:
				{ // continue with a copy
					auto copy = h;
					const auto v = exact(c, c.sz(1, 70));
					copy(v.data(), v.size());
					copy.finish();
					check_digest(copy, msg + std::string(v.data(), v.size()));
					break;
				}
				default:
				{
					const auto v = exact(c, chunk(c));
					NOTE("data of " << v.size());
					r = &h(v.size() || c.b() ? static_cast<const void*>(v.data()) : nullptr, v.size());
					msg.append(v.data(), v.size());
					break;
				}
			}
			CHECK(r == &h, "call returns the hasher");
		}
		NOTE(steps << " pieces, " << msg.size() << " bytes");
		c.nontrivial(steps > 1 && msg.size() > 64);
		c.cls(msg.size() % 64 >= 55, "padding needs care");
		CHECK(&h.finish() == &h, "finish returns the hasher");
		check_digest(h, msg);
		// nothing changes a finished one
		h.finish();
		h(uint8_t{ 1 });
		h(std::byte{ 2 });
		h("abc", 3);
		h(std::string_view{ "hello" });
		h(std::wstring_view{ L"hello" });
		h.finish();
		check_digest(h, msg);
		const auto copy = h;
		check_digest(copy, msg);
		h = muu::sha1{};
		h.finish();
		check_digest(h, "");
	}
	// every length around several blocks, one call and byte by byte
	PROP(sha1_lengths, 330, 1030)
	{
		const auto n = c.slice(pbt::thorough() ? 1030 : 330);
		const auto v = exact(c, n);
		const std::string msg(v.data(), v.size());
		muu::sha1 a, b, d;
		a(v.data(), n).finish();
		for (auto ch : v)
			b(static_cast<uint8_t>(ch));
		b.finish();
		const auto k = c.sz(0, n);
		d(v.data(), k)(v.data() + k, n - k).finish();
		check_digest(a, msg);
		check_digest(b, msg);
		check_digest(d, msg);
		c.nontrivial(n > 0);
	}
#ifdef HUGE_MESSAGES
	// message lengths beyond 2^32 bits
	PROP(sha1_huge, 1, 3)
	{
		const size_t extra = c.sz(0, 200);
		const size_t n	   = (size_t{ 1 } << (29 + c.index % 3)) + extra;
		std::vector<char> buf((1u << 20) + 37);
		uint64_t s = c.raw(UINT64_MAX);
		for (auto& x : buf)
			x = static_cast<char>(pbt::splitmix(s));
		muu::sha1 h;
		ref_sha1 r;
		for (size_t done = 0; done < n;)
		{
			const auto k = std::min(buf.size(), n - done);
			h(buf.data(), k);
			r.add(buf.data(), k);
			done += k;
		}
		h.finish();
		const auto e = r.digest();
		CHECK(std::memcmp(h.value().value, e.data(), 20) == 0, "SHA-1 of " << n << " bytes");
		c.nontrivial();
	}
#endif

	template <typename H>
	struct fnv_const;
	template <>
	struct fnv_const<uint32_t>
	{
		static constexpr uint32_t prime = 16777619u, basis = 2166136261u;
	};
	template <>
	struct fnv_const<uint64_t>
	{
		static constexpr uint64_t prime = 1099511628211ull, basis = 14695981039346656037ull;
	};
	template <>
	struct fnv_const<u128>
	{
		static constexpr u128 prime = (u128{ 1 } << 88) + 0x13b;
		static constexpr u128 basis = [] {
			u128 v = 0; // 144066263297769815596495629667062367629, as decimal
			for (char d : { 1, 4, 4, 0, 6, 6, 2, 6, 3, 2, 9, 7, 7, 6, 9, 8, 1, 5, 5, 9, 6, 4, 9, 5, 6, 2, 9, 6, 6, 7, 0, 6, 2, 3, 6, 7, 6, 2, 9 })
				v = v * 10 + static_cast<unsigned>(d);
			return v;
		}();
	};
	template <typename H>
	constexpr H fnv_of(const char* p, size_t n)
	{
		H h = fnv_const<H>::basis;
		for (size_t i = 0; i < n; i++)
		{
			h ^= static_cast<unsigned char>(p[i]);
			h *= fnv_const<H>::prime;
		}
		return h;
	}
	template <typename H>
	void fnv(pbt::Case& c)
	{
		muu::fnv1a<sizeof(H) * 8> h;
		std::string msg;
		const auto steps = c.sz(0, 10);
		for (size_t i = 0; i < steps; i++)
		{
			std::string u8;
			decltype(h)* r = &h;
			switch (c.raw(7))
			{
				case 0:
				{
					const auto b = static_cast<uint8_t>(c.raw(255));
					r = &h(b);
					msg += static_cast<char>(b);
					break;
				}
				case 1:
				{
					const auto b = static_cast<std::byte>(c.raw(255));
					r = &h(b);
					msg += static_cast<char>(b);
					break;
				}
				case 2:
				{
					const auto v = gen_text<wchar_t>(c, u8, 24);
					r = &h(std::wstring_view{ v });
					msg += u8;
					break;
				}
				case 3:
				{
					const auto v = gen_text<char16_t>(c, u8, 24);
					r = &h(std::u16string_view{ v });
					msg += u8;
					break;
				}
				case 4:
				{
					const auto v = gen_text<char32_t>(c, u8, 24);
					r = &h(std::u32string_view{ v });
					msg += u8;
					break;
				}
#if MUU_HAS_CHAR8_STRINGS
				case 5:
				{
					const auto v = gen_text<char8_t>(c, u8, 24);
					r = &h(std::u8string_view{ v });
					msg += u8;
					break;
				}
#endif
				case 6:
				{
					const auto v = exact(c, c.sz(0, 40));
					r = &h(std::string_view{ v.data(), v.size() });
					msg.append(v.data(), v.size());
					break;
				}
				default:
				{
					const auto v = exact(c, c.sz(0, 40));
					r = &h(static_cast<const void*>(v.data()), v.size());
					msg.append(v.data(), v.size());
					break;
				}
			}
			CHECK(r == &h, "call returns the hasher");
			const H e = fnv_of<H>(msg.data(), msg.size());
			CHECK(h.value() == e, "FNV-1a/" << sizeof(H) * 8 << " of " << pbt::quote(msg) << ": got " << show128(h.value()) << ", expected " << show128(e));
		}
		NOTE(steps << " pieces, " << msg.size() << " bytes");
		c.nontrivial(steps > 1 && msg.size() > 8);
		const H e = fnv_of<H>(msg.data(), msg.size());
		const auto copy = h;
		CHECK(copy.value() == e, "copy");
		std::ostringstream o;
		o << h;
		std::string hx;
		for (size_t i = sizeof(H); i-- > 0;)
		{
			const auto b = static_cast<uint8_t>(e >> (8 * i));
			hx += hex_of(&b, 1);
		}
		CHECK_EQ(o.str(), hx, "printed");
		h = {};
		CHECK(h.value() == fnv_const<H>::basis, "a new hasher starts from the basis");
	}
	PROP_T("fnv1a 32", 6000, 200000, (fnv<uint32_t>));
	PROP_T("fnv1a 64", 6000, 200000, (fnv<uint64_t>));
	PROP_T("fnv1a 128", 6000, 200000, (fnv<u128>));

	template <typename H>
	constexpr bool fnv_ct()
	{
		crng g(VERIF_SEED * 13 + sizeof(H));
		for (int k = 0; k < 60; k++)
		{
			char s[24]{};
			char16_t s16[24]{};
			wchar_t w[24]{};
			char32_t s32[24]{};
			const auto n = g.below(24);
			for (size_t i = 0; i < n; i++)
			{
				s[i] = static_cast<char>(g.below(256));
				w[i] = s16[i] = s32[i] = static_cast<unsigned char>(s[i]) & 0x7F;
			}
			const auto e = fnv_of<H>(s, n);
			muu::fnv1a<sizeof(H) * 8> a, b, d;
			a(std::string_view{ s, n });
			for (size_t i = 0; i < n; i++)
			{
				b(static_cast<uint8_t>(s[i]));
				d(static_cast<std::byte>(s[i]));
			}
			if (a.value() != e || b.value() != e || d.value() != e)
				return false;
			for (auto& ch : s)
				ch = static_cast<char>(ch & 0x7F);
			const auto e7 = fnv_of<H>(s, n);
			muu::fnv1a<sizeof(H) * 8> x, y, z;
			if (x(std::u16string_view{ s16, n }).value() != e7 || y(std::wstring_view{ w, n }).value() != e7 || z(std::u32string_view{ s32, n }).value() != e7)
				return false;
		}
		return true;
	}
	static_assert(fnv_ct<uint32_t>());
	static_assert(fnv_ct<uint64_t>());
	static_assert(fnv_ct<u128>());

	template <typename H>
	constexpr H combine(const H* v, size_t n)
	{
		muu::hash_combiner<sizeof(H) * 8> h{ v[0] };
		for (size_t i = 1; i < n; i++)
			h(v[i]);
		return h.value();
	}
	template <typename H>
	void combiner(pbt::Case& c)
	{
		const auto n = c.sz(2, 6);
		std::vector<H> v(n);
		for (auto& x : v)
		{
			x = static_cast<H>(c.raw(c.b() ? UINT64_MAX : 100));
			if constexpr (sizeof(H) > 8)
				x |= static_cast<H>(c.raw(UINT64_MAX)) << 64;
		}
		c.nontrivial();
		const auto h = combine(v.data(), n);
		auto copy	 = v;
		CHECK(combine(copy.data(), n) == h, "equal sequences combine to equal hashes");
		// the last element is always visible; every other one nearly always
		auto last = v;
		const auto bit = c.u(0, sizeof(H) * 8 - 1);
		last[n - 1] ^= static_cast<H>(static_cast<H>(1) << bit);
		CHECK(combine(last.data(), n) != h, "changing bit " << bit << " of the last element changes nothing");
		size_t seen = 0, order = 0, tries = 64;
		uint64_t s = c.raw(UINT64_MAX);
		for (size_t k = 0; k < tries; k++)
		{
			auto w = v;
			for (auto& x : w) // fresh context
				x = static_cast<H>((static_cast<u128>(pbt::splitmix(s)) << 64) | pbt::splitmix(s));
			const auto before = combine(w.data(), n);
			auto x = w;
			x[pbt::splitmix(s) % n] ^= static_cast<H>(static_cast<H>(1) << (pbt::splitmix(s) % (sizeof(H) * 8)));
			seen += combine(x.data(), n) != before;
			auto y = w;
			std::swap(y[0], y[n - 1]);
			order += combine(y.data(), n) != before;
		}
		CHECK(seen >= tries - 6, "only " << seen << " of " << tries << " single-bit changes reach the combined hash");
		CHECK(order >= tries - 6, "only " << order << " of " << tries << " reorderings change the combined hash");
	}
	PROP_T("hash_combiner 16", 1000, 50000, (combiner<uint16_t>));
	PROP_T("hash_combiner 32", 1000, 50000, (combiner<uint32_t>));
	PROP_T("hash_combiner 64", 1000, 50000, (combiner<uint64_t>));
	PROP_T("hash_combiner 128", 1000, 50000, (combiner<u128>));
	static_assert([] { const uint64_t a[]{ 1, 2, 3 }, b[]{ 3, 2, 1 }, d[]{ 1, 2, 3 }; return combine(a, 3) != combine(b, 3) && combine(a, 3) == combine(d, 3); }());
	static_assert(muu::hash_combiner<>{ 5 }.value() == 5);
}
