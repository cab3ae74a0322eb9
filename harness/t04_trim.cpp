#include "utf.hpp"
#include <muu/core.h>
#include <muu/strings.h>
#include "ucd.inc"
using namespace utf;

namespace
{
	bool ws(char32_t c)
	{
		for (auto& r : ucd_whitespace)
			if (c >= r[0] && c <= r[1])
				return true;
		return false;
	}
	char32_t gen_ws(pbt::Case& c)
	{
		const auto& r = ucd_whitespace[c.raw(std::size(ucd_whitespace) - 1)];
		return static_cast<char32_t>(c.u(r[0], r[1]));
	}
	// neighbours and look-alikes of whitespace that are not whitespace
	char32_t gen_near(pbt::Case& c)
	{
		char32_t v = c.pick<char32_t>({ 0x8, 0xE, 0x1F, 0x21, 0x84, 0x86, 0x9F, 0xA1, 0x167F, 0x1681, 0x169F, 0x180E, 0x1FFF, 0x200B, 0x200D,
										0x2027, 0x202A, 0x202E, 0x2030, 0x205E, 0x2060, 0x2FFF, 0x3001, 0xFFFD, 0, 0x10020, 0x12000, 0x13000,
										0x1100A0, 0x120, 0x1E0A0 });
		if (!scalar(v))
			v = 0xA1;
		return v;
	}
	template <typename C>
	bool looks_native(const std::basic_string<C>& s)
	{
		if (sizeof(C) == 1)
			return true;
		int low = 0, high = 0;
		for (size_t i = 0; i < s.size() && i < 16; i++)
		{
			const auto u = static_cast<uint32_t>(s[i]);
			low += (u & 0xFF) == 0;
			high += (sizeof(C) == 2 ? (u >> 8 & 0xFF) : (u >> 24)) == 0;
		}
		return high >= low;
	}
	template <typename C>
	void text(pbt::Case& c)
	{
		cps v;
		const size_t lead = c.b() ? c.biased_size(12) : 0;
		const size_t tail = c.b() ? c.biased_size(12) : 0;
		for (size_t i = 0; i < lead; i++)
			v.push_back(gen_ws(c));
		const size_t mid = c.biased_size(20);
		for (size_t i = 0; i < mid; i++)
			v.push_back(c.raw(3) == 0 ? gen_ws(c) : c.raw(2) == 0 ? gen_near(c) : gen_scalar(c));
		for (size_t i = 0; i < tail; i++)
			v.push_back(gen_ws(c));
		while (!v.empty() && (v[0] == 0xFEFF || v[0] == 0xFFFE || v[0] == 0xFFFE0000))
			v.erase(v.begin());
		auto s = encode<C>(v);
		while (!looks_native(s))
		{
			// pad the middle rather than the ends
			v.insert(v.begin() + static_cast<ptrdiff_t>(v.size() / 2), U'x');
			if (v[0] != U'x' && v.size() < 24 && c.b())
				v.insert(v.begin(), U' ');
			else
				v.insert(v.begin(), U'x');
			s = encode<C>(v);
		}
		// expected, in code units
		size_t a = 0, au = 0;
		while (a < v.size() && ws(v[a]))
			au += units<C>(v[a++]);
		size_t b = v.size(), bu = s.size();
		while (b > 0 && ws(v[b - 1]))
			bu -= units<C>(v[--b]);
		const bool all = a == v.size();
		NOTE("trim of " << hex(v));
		c.nontrivial(!all && (a > 0 || b < v.size()));
		c.cls(all && !v.empty(), "only whitespace");
		c.cls(a > 0 && !all, "leading");
		c.cls(b < v.size() && !all, "trailing");
		c.cls(sizeof(C) < 4 && s.size() > v.size(), "multi-unit");
		// exactly sized heap copy so that the sanitizer sees overreads
		std::vector<C> mem(s.begin(), s.end());
		mem.shrink_to_fit();
		using view = std::basic_string_view<C>;
		const view in{ mem.data(), mem.size() };
		auto chk = [&](view r, size_t from, size_t to, const char* what)
		{
			if (all)
				CHECK(r.empty(), what << " of only whitespace has " << r.size() << " units left");
			else
			{
				CHECK(r.data() == in.data() + from, what << " starts at " << (r.data() - in.data()) << ", expected " << from);
				CHECK(r.size() == to - from, what << " ends at " << (r.data() - in.data()) + static_cast<ptrdiff_t>(r.size()) << ", expected " << to);
			}
		};
		const auto t = muu::trim(in);
		chk(t, au, bu, "trim");
		const auto l = muu::trim_left(in);
		chk(l, au, s.size(), "trim_left");
		const auto r = muu::trim_right(in);
		chk(r, 0, bu, "trim_right");
		// (guard against a remainder that looks byte-swapped on its own)
		if (looks_native(std::basic_string<C>(t)) && looks_native(std::basic_string<C>(l)) && looks_native(std::basic_string<C>(r))
			&& (t.empty() || (v[a] != 0xFEFF && v[a] != 0xFFFE)))
		{
			chk(muu::trim(t), au, bu, "trim of trimmed");
			chk(muu::trim_right(l), au, bu, "right trim of left trimmed");
			if (v.empty() || v[0] != 0xFEFF)
				chk(muu::trim_left(r), au, bu, "left trim of right trimmed");
		}
	}
	template <typename C>
	void garbage(pbt::Case& c)
	{
		std::vector<C> mem(c.biased_size(24));
		for (auto& x : mem)
		{
			const auto g = c.raw(3);
			if constexpr (sizeof(C) == 1)
				x = static_cast<C>(g == 0 ? c.raw(255) : g == 1 ? 0x80 + c.raw(0x7F) : g == 2 ? 0x20 : 0xE2);
			else
				x = static_cast<C>(g == 0 ? c.raw(0xFFFF) : g == 1 ? 0xD800 + c.raw(0x7FF) : g == 2 ? 0x20 : 0x2003);
		}
		mem.shrink_to_fit();
		using view = std::basic_string_view<C>;
		const view in{ mem.data(), mem.size() };
		NOTE("trim of malformed " << hex(std::basic_string<C>(in)));
		c.nontrivial(mem.size() > 1);
		auto inside = [&](view r, const char* what)
		{ CHECK(r.empty() || (r.data() >= in.data() && r.data() + r.size() <= in.data() + in.size()), what << " left the string"); };
		const auto t = muu::trim(in), l = muu::trim_left(in), r = muu::trim_right(in);
		inside(t, "trim");
		inside(l, "trim_left");
		inside(r, "trim_right");
		CHECK(l.empty() || l.data() + l.size() == in.data() + in.size(), "trim_left keeps the right end");
		CHECK(r.empty() || r.data() == in.data(), "trim_right keeps the left end");
	}

	constexpr bool ct()
	{
		if (muu::trim(std::string_view{ " \t a b\xE2\x80\x83" }) != "a b")
			return false;
		if (muu::trim_left(std::u16string_view{ u"\u2003a " }) != u"a ")
			return false;
		if (muu::trim_right(std::u32string_view{ U" a\U00012000\u3000\u1680" }) != U" a\U00012000")
			return false;
		return muu::trim(std::wstring_view{ L" \u1681 " }) == L"\u1681";
	}
	static_assert(ct());
}
#define T4(C)                                                                                                         \
	PROP_T("trim " #C, 60000, 2000000, (text<C>));                                                                     \
	PROP_T("malformed " #C, 30000, 1000000, (garbage<C>))
T4(char);
T4(wchar_t);
T4(char16_t);
T4(char32_t);
#if MUU_HAS_CHAR8
T4(char8_t);
#endif
