#include "utf.hpp"
#include <muu/utf_decode.h>
#include <muu/strings.h>
using namespace utf;

namespace
{
	template <typename C>
	C bswap(C v)
	{
		if constexpr (sizeof(C) == 2)
			return static_cast<C>(__builtin_bswap16(static_cast<uint16_t>(v)));
		else if constexpr (sizeof(C) == 4)
			return static_cast<C>(__builtin_bswap32(static_cast<uint32_t>(v)));
		else
			return v;
	}
	template <typename C>
	std::basic_string<C> swapped(std::basic_string<C> s)
	{
		for (auto& x : s)
			x = bswap(x);
		return s;
	}

	// documented detection when there is no byte-order mark: whichever end has more zero bytes in the first 16 units
	template <typename C>
	int zero_balance(const std::basic_string<C>& s)
	{
		if constexpr (sizeof(C) == 1)
			return 0;
		else
		{
			int low = 0, high = 0;
			for (size_t i = 0; i < s.size() && i < 16; i++)
			{
				const auto u = static_cast<uint32_t>(s[i]);
				low += (u & 0xFF) == 0;
				high += (sizeof(C) == 2 ? (u >> 8 & 0xFF) : (u >> 24)) == 0;
			}
			return high - low;
		}
	}
	template <typename C>
	cps gen_text(pbt::Case& c, size_t maxlen, bool must_look_native, bool strictly)
	{
		cps v;
		const size_t n = c.biased_size(maxlen);
		for (size_t i = 0; i < n; i++)
			v.push_back(gen_scalar(c));
		while (!v.empty() && (v[0] == 0xFEFF || v[0] == 0xFFFE))
			v.erase(v.begin());
		if (sizeof(C) > 1 && must_look_native)
			while (zero_balance<C>(encode<C>(v)) < (strictly ? 1 : 0))
				v.insert(v.begin(), U'a');
		return v;
	}

	struct visit
	{
		char32_t cp;
		size_t start, count;
	};

	template <typename C>
	std::vector<visit> expected(const cps& v, size_t first)
	{
		std::vector<visit> r;
		size_t at = first;
		for (auto cp : v)
		{
			r.push_back({ cp, at, units<C>(cp) });
			at += units<C>(cp);
		}
		return r;
	}

	template <typename C>
	std::vector<visit> decode(std::basic_string_view<C> s, bool reverse, size_t stop_after)
	{
		std::vector<visit> r;
		r.reserve(s.size() + 4);
		auto f = [&](char32_t cp, size_t at, size_t n) noexcept
		{
			r.push_back({ cp, at, n });
			return r.size() < stop_after;
		};
		muu::utf_decode(s, reverse, f);
		return r;
	}
	void same(const std::vector<visit>& got, std::vector<visit> want, bool reverse, size_t stop_after, const char* what)
	{
		if (reverse)
			std::reverse(want.begin(), want.end());
		if (want.size() > stop_after)
			want.resize(stop_after);
		CHECK_EQ(got.size(), want.size(), what << ": number of visits (reverse " << reverse << ", stop after " << stop_after << ")");
		for (size_t i = 0; i < want.size(); i++)
		{
			CHECK_EQ(got[i].cp, want[i].cp, what << ": code point " << i << " (reverse " << reverse << ")");
			CHECK_EQ(got[i].start, want[i].start, what << ": position of visit " << i << " (reverse " << reverse << ")");
			CHECK_EQ(got[i].count, want[i].count, what << ": length of visit " << i << " (reverse " << reverse << ")");
		}
	}

	template <typename C>
	void well_formed(pbt::Case& c)
	{
		enum mode
		{
			plain,
			bom,
			swapped_bom,
			swapped_plain
		};
		const auto m = static_cast<mode>(sizeof(C) == 1 ? c.raw(1) : c.raw(3));
		const auto v = gen_text<C>(c, 40, m == plain || m == swapped_plain, m == swapped_plain);
		auto s		 = encode<C>(v);
		size_t first = 0;
		if (m == bom || m == swapped_bom)
		{
			auto b = encode<C>({ 0xFEFF });
			first  = b.size();
			s	   = b + s;
		}
		if (m >= swapped_bom)
			s = swapped(s);
		const bool rev = c.b();
		const auto n   = v.size();
		const size_t stop_after = c.b() ? SIZE_MAX : c.sz(1, n + 1);
		NOTE(sizeof(C) << "-byte units, mode " << m << ", reverse " << rev << ", stop after " << stop_after << ": " << hex(v));
		const bool multi = encode<C>(v).size() > v.size();
		c.nontrivial(v.size() >= 2);
		c.cls(multi, "multi-unit");
		c.cls(m == bom, "bom");
		c.cls(m >= swapped_bom, "byte-swapped");
		c.cls(rev, "reverse");
		same(decode<C>(s, rev, stop_after), expected<C>(v, first), rev, stop_after, "well-formed text");
		// other visitor shapes see the same things
		std::vector<visit> one, two, three;
		one.reserve(s.size() + 4);
		two.reserve(s.size() + 4);
		three.reserve(s.size() + 4);
		muu::utf_decode(std::basic_string_view<C>(s), [&](char32_t cp) noexcept { one.push_back({ cp, 0, 0 }); });
		muu::utf_decode(std::basic_string_view<C>(s), false, [&](char32_t cp, size_t at) noexcept { two.push_back({ cp, at, 0 }); });
		muu::utf_decode(std::basic_string_view<C>(s), true, [&](char32_t cp, size_t at, size_t k) noexcept { three.push_back({ cp, at, k }); });
		auto e = expected<C>(v, first);
		same(three, e, true, SIZE_MAX, "void visitor");
		for (auto& x : e)
			x.count = 0;
		same(two, e, false, SIZE_MAX, "two-argument visitor");
		for (auto& x : e)
			x.start = 0;
		same(one, e, false, SIZE_MAX, "one-argument visitor");
	}

	// decoding anything: visits tile the string in order, and every multi-unit visit is a real character
	template <typename C>
	void malformed(pbt::Case& c)
	{
		using U = std::conditional_t<sizeof(C) == 1, uint8_t, std::conditional_t<sizeof(C) == 2, uint16_t, uint32_t>>;
		std::basic_string<C> s;
		const size_t n = c.biased_size(24);
		for (size_t i = 0; i < n; i++)
		{
			auto e = encode<C>({ gen_scalar(c) });
			switch (c.raw(3))
			{
				case 0: break;
				case 1: e.pop_back(); break;
				case 2: e[c.sz(0, e.size() - 1)] = static_cast<C>(c.integer<U>()); break;
				default: e.insert(e.begin() + static_cast<long>(c.sz(0, e.size())), static_cast<C>(c.integer<U>()));
			}
			s += e;
		}
		NOTE(sizeof(C) << "-byte units: " << hex(s));
		c.nontrivial(s.size() > 1);
		// byte order and BOM as documented
		size_t first = 0;
		bool swap	 = false;
		if (!s.empty())
		{
			if (sizeof(C) == 1)
				first = s.size() >= 3 && static_cast<U>(s[0]) == 0xEF && static_cast<U>(s[1]) == 0xBB && static_cast<U>(s[2]) == 0xBF ? 3 : 0;
			else
			{
				const auto nat = static_cast<C>(0xFEFF);
				if (s[0] == nat)
					first = 1;
				else if (s[0] == bswap(nat))
				{
					first = 1;
					swap  = true;
				}
				else
					swap = zero_balance(s) < 0;
			}
		}
		auto unit = [&](size_t i) { return static_cast<U>(swap ? bswap(s[i]) : s[i]); };
		for (bool rev : { false, true })
		{
			const auto got = decode<C>(s, rev, SIZE_MAX);
			size_t at	   = rev ? s.size() : first;
			for (auto& g : got)
			{
				CHECK(g.count >= 1 && g.start < s.size() && g.count <= s.size() - g.start, "visit inside the string: " << g.start << "+" << g.count);
				if (rev)
					CHECK_EQ(g.start + g.count, at, "reverse visits are adjacent");
				else
					CHECK_EQ(g.start, at, "visits are adjacent");
				at = rev ? g.start : g.start + g.count;
				if (g.count == 1)
					CHECK_EQ(static_cast<uint32_t>(g.cp), static_cast<uint32_t>(unit(g.start)), "value of a single unit at " << g.start);
				else
				{
					std::basic_string<C> e = encode<C>({ g.cp });
					bool ok				   = scalar(g.cp) && e.size() == g.count;
					for (size_t k = 0; ok && k < g.count; k++)
						ok = static_cast<U>(e[k]) == unit(g.start + k);
					CHECK(ok, "units " << g.start << "+" << g.count << " are not an encoding of U+" << std::hex << static_cast<uint32_t>(g.cp));
				}
			}
			CHECK_EQ(at, (rev ? first : s.size()), "every unit is visited (reverse " << rev << ")");
		}
		// forward decoding finds the characters a maximal reference decoder finds when text is well-formed up to there
		if (sizeof(C) == 1)
		{
			ref8 r;
			const auto got = decode<C>(s, false, SIZE_MAX);
			size_t gi	   = 0;
			for (size_t i = first; i < s.size(); i++)
			{
				auto st = r.feed(static_cast<uint8_t>(s[i]));
				if (st == step::error)
					break;
				if (st == step::value)
				{
					CHECK(gi < got.size() && got[gi].cp == static_cast<char32_t>(r.value), "character " << gi << " before the first error");
					gi++;
				}
			}
		}
	}

	template <typename To, typename From>
	void transcode_pair(const std::basic_string<From>& s, const cps& v, const char* what)
	{
		const std::basic_string<To> want = encode<To>(v);
		const std::basic_string<To> got(muu::transcode<To>(std::basic_string_view<From>(s)));
		CHECK(got == want, what << sizeof(From) << "-byte units to " << sizeof(To) << "-byte units: got " << hex(got) << ", expected " << hex(want));
		const std::basic_string<From> back(muu::transcode<From>(std::basic_string_view<To>(got)));
		const auto orig = encode<From>(v);
		CHECK(back == orig, what << "transcoding back gave " << hex(back) << ", expected " << hex(orig));
	}
	template <typename From>
	void transcode_case(pbt::Case& c)
	{
		// well-formed text whose every encoding is unambiguously in native order
		auto v = gen_text<char16_t>(c, 60, true, false);
		auto s = encode<From>(v);
		NOTE(sizeof(From) << "-byte units: " << hex(v));
		c.nontrivial(v.size() >= 2);
		c.cls(s.size() > v.size(), "multi-unit");
		c.cls(std::count(v.begin(), v.end(), U'\0') > 0, "embedded NUL");
		transcode_pair<char>(s, v, "");
		transcode_pair<wchar_t>(s, v, "");
		transcode_pair<char16_t>(s, v, "");
		transcode_pair<char32_t>(s, v, "");
#if defined(__cpp_char8_t)
		transcode_pair<char8_t>(s, v, "");
#endif
	}
	// byte-swapped and BOM-prefixed input of another unit size
	template <typename To, typename From>
	void transcode_order(pbt::Case& c)
	{
		const bool swap = c.b();
		auto v			= gen_text<From>(c, 40, true, swap);
		while (zero_balance(encode<char16_t>(v)) < 1)
			v.insert(v.begin(), U'b');
		auto s			= encode<From>(v);
		const bool bom	= c.b();
		if (bom)
			s.insert(s.begin(), static_cast<From>(0xFEFF));
		if (swap)
			s = swapped(s);
		NOTE("bom " << bom << " swapped " << swap << ": " << hex(v));
		c.nontrivial(bom || swap);
		const std::basic_string<To> got(muu::transcode<To>(std::basic_string_view<From>(s)));
		CHECK(got == encode<To>(v), "bom " << bom << " swapped " << swap << ": got " << hex(got) << ", expected " << hex(encode<To>(v)));
	}

	// compile time
	struct ctv
	{
		arr<uint32_t, 64> cp;
		arr<size_t, 64> at, n;
		size_t count;
	};
	template <typename C, size_t N>
	constexpr ctv ct_decode(const C (&text)[N], bool rev)
	{
		ctv r{};
		muu::utf_decode(std::basic_string_view<C>(text, N - 1),
						rev,
						[&](char32_t cp, size_t at, size_t n) noexcept
						{
							r.cp[r.count] = static_cast<uint32_t>(cp);
							r.at[r.count] = at;
							r.n[r.count]  = n;
							r.count++;
							return true;
						});
		return r;
	}
	template <typename C>
	void ct_compare(const ctv& r, std::basic_string_view<C> s, bool rev)
	{
		auto want = decode<C>(s, rev, SIZE_MAX);
		CHECK_EQ(r.count, want.size(), "constant-evaluated visit count");
		for (size_t i = 0; i < r.count; i++)
			CHECK(r.cp[i] == static_cast<uint32_t>(want[i].cp) && r.at[i] == want[i].start && r.n[i] == want[i].count, "constant-evaluated visit " << i);
	}
} // namespace

#define CT(text)                                                                                                      \
	{                                                                                                                 \
		static constexpr auto f = ct_decode(text, false);                                                             \
		static constexpr auto r = ct_decode(text, true);                                                              \
		ct_compare(f, std::basic_string_view(text, std::size(text) - 1), false);                                      \
		ct_compare(r, std::basic_string_view(text, std::size(text) - 1), true);                                       \
	}
PROP(constant_evaluation, 1, 1)
{
	CT("plain \xC3\xA9 \xE4\xBD\xA0 \xF0\x9F\x98\x80 end");
	CT(u"plain \u00e9 \u4f60 \U0001F600 end");
	CT(U"plain \u00e9 \u4f60 \U0001F600 end");
	CT(L"plain \u00e9 \u4f60 \U0001F600 end");
	CT("\xEF\xBB\xBFwith mark");
	CT(u"\uFEFFwith mark");
	CT("a\0b");
	c.enumerated(14, 14);
}
#define EACH(C)                                                                                                       \
	PROP_T("decode " #C, 40000, 1000000, (well_formed<C>));                                                            \
	PROP_T("malformed " #C, 30000, 1000000, (malformed<C>));                                                           \
	PROP_T("transcode " #C, 15000, 400000, (transcode_case<C>));
EACH(char)
EACH(wchar_t)
EACH(char16_t)
EACH(char32_t)
#if defined(__cpp_char8_t)
EACH(char8_t)
#endif
PROP_T("order u16->u8", 15000, 300000, (transcode_order<char, char16_t>));
PROP_T("order u16->u32", 15000, 300000, (transcode_order<char32_t, char16_t>));
PROP_T("order u32->u8", 15000, 300000, (transcode_order<char, char32_t>));
PROP_T("order u32->u16", 15000, 300000, (transcode_order<char16_t, char32_t>));
PROP_T("order wchar->u16", 15000, 300000, (transcode_order<char16_t, wchar_t>));
