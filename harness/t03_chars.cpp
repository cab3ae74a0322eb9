#include "common.hpp"
#include <muu/core.h>
#include <muu/chars.h>
#include "ucd.inc"
#include <bitset>

namespace
{
	using set_t = std::bitset<0x110000>;
	template <size_t N>
	set_t* make(const char32_t (&r)[N][2])
	{
		auto s = new set_t;
		for (auto& x : r)
			for (char32_t c = x[0]; c <= x[1]; c++)
				s->set(c);
		return s;
	}
#define SET(n)                                                                                                        \
	const set_t& n()                                                                                                  \
	{                                                                                                                 \
		static const set_t* s = make(ucd_##n);                                                                        \
		return *s;                                                                                                    \
	}
	SET(letter)
	SET(number)
	SET(combining_mark)
	SET(lowercase)
	SET(uppercase)
	SET(whitespace)
	SET(hyphen)
#undef SET

	// v: the code unit as a non-negative number; scalar meaning of the code unit, or none
	template <typename T>
	void check_unit(T u, uint32_t v)
	{
		constexpr unsigned bits = sizeof(T) * 8;
		const bool ascii		= v < 0x80;
		// does this unit on its own encode a code point?
		const bool surrogate = v >= 0xD800 && v <= 0xDFFF;
		const bool cp		 = bits == 8 ? ascii : bits == 16 ? !surrogate : v <= 0x10FFFF;
		auto in				 = [&](const set_t& s) { return cp && s[v]; };
		const auto at		 = [&] { std::ostringstream o; o << "code unit 0x" << std::hex << v << " of " << bits << " bits"; return o.str(); };
#define CLASS(n, S)                                                                                                   \
	{                                                                                                                 \
		const bool e = in(S);                                                                                         \
		CHECK_EQ(muu::is_##n(u), e, at());                                                                            \
		CHECK_EQ(muu::is_not_##n(u), !e, at());                                                                       \
		CHECK_EQ(muu::is_ascii_##n(u), e && ascii, at());                                                             \
		CHECK_EQ(muu::is_non_ascii_##n(u), e && !ascii, at());                                                        \
	}
		CLASS(letter, letter())
		CLASS(number, number())
		// listed finding: the tables for these two stop at U+FFFF (and the existing tests pin that down)
		if (!(v > 0xFFFF && in(lowercase())))
			CLASS(lowercase, lowercase())
		if (!(v > 0xFFFF && in(uppercase())))
			CLASS(uppercase, uppercase())
		CLASS(whitespace, whitespace())
		CLASS(hyphen, hyphen())
#undef CLASS
		CHECK_EQ(muu::is_combining_mark(u), in(combining_mark()), at());
		CHECK_EQ(muu::is_code_point(u), cp, at());
		CHECK_EQ(muu::is_not_code_point(u), !cp, at());
		CHECK_EQ(muu::is_ascii_code_point(u), cp && ascii, at());
		CHECK_EQ(muu::is_non_ascii_code_point(u), cp && !ascii, at());
		const bool boundary = bits == 8 ? (v & 0xC0) != 0x80 : bits == 16 ? !(v >= 0xDC00 && v <= 0xDFFF) : v <= 0x10FFFF;
		CHECK_EQ(muu::is_code_point_boundary(u), boundary, at());
		const bool dec = v >= '0' && v <= '9', oct = v >= '0' && v <= '7';
		const bool hex = dec || (v >= 'a' && v <= 'f') || (v >= 'A' && v <= 'F');
		CHECK_EQ(muu::is_decimal_digit(u), dec, at());
		CHECK_EQ(muu::is_octal_digit(u), oct, at());
		CHECK_EQ(muu::is_hexadecimal_digit(u), hex, at());
	}
	template <typename T>
	void unit8(pbt::Case& c)
	{
		for (uint32_t v = 0; v < 256; v++)
			check_unit(static_cast<T>(static_cast<unsigned char>(v)), v);
		c.nontrivial();
		c.enumerated(256, 256);
	}
	void unit16(pbt::Case& c)
	{
		const auto hi = static_cast<uint32_t>(c.slice(256)) << 8;
		NOTE("UTF-16 code units from 0x" << std::hex << hi);
		for (uint32_t v = hi; v < hi + 256; v++)
			check_unit(static_cast<char16_t>(v), v);
		c.nontrivial();
		c.enumerated(255, 255);
	}
	template <typename T>
	void unit32(pbt::Case& c)
	{
		const auto hi = static_cast<uint32_t>(c.slice(0x1101)) << 8;
		NOTE("UTF-32 code units from 0x" << std::hex << hi);
		for (uint32_t v = hi; v < hi + 256; v++)
			check_unit(static_cast<T>(v), v);
		c.nontrivial();
		c.enumerated(255, 255);
	}
	template <typename T>
	void beyond32(pbt::Case& c)
	{
		uint32_t v = c.integer<uint32_t>();
		if (c.chance(1, 4))
			v = static_cast<uint32_t>(c.raw(0x110000)) | (1u << c.u(21, 31)); // a real code point with a high bit set
		NOTE("value 0x" << std::hex << v);
		c.nontrivial(v > 0x10FFFF);
		c.cls(v > 0x10FFFF, "above U+10FFFF");
		check_unit(static_cast<T>(v), v);
	}

	template <typename T>
	void hexcase(pbt::Case& c)
	{
		for (unsigned v = 0; v < 16; v++)
		{
			const char lo = "0123456789abcdef"[v], up = "0123456789ABCDEF"[v];
			CHECK_EQ(muu::dec_to_hex<T>(v), static_cast<T>(lo), "dec_to_hex " << v);
			CHECK_EQ((muu::dec_to_hex<T>(v, static_cast<T>('A'))), static_cast<T>(up), "dec_to_hex upper " << v);
			CHECK_EQ(muu::hex_to_dec(static_cast<T>(lo)), v, "hex_to_dec " << lo);
			CHECK_EQ(muu::hex_to_dec(static_cast<T>(up)), v, "hex_to_dec " << up);
			CHECK(muu::is_hexadecimal_digit(static_cast<T>(lo)) && muu::is_hexadecimal_digit(static_cast<T>(up)), "is hex");
		}
		for (unsigned v = 0; v < 256; v++)
		{
			auto p = muu::byte_to_hex<T>(static_cast<uint8_t>(v));
			CHECK(muu::hex_to_dec(p.high) * 16 + muu::hex_to_dec(p.low) == v, "byte_to_hex " << v);
			auto q = muu::byte_to_hex<T>(static_cast<std::byte>(v), static_cast<T>('A'));
			CHECK(muu::hex_to_dec(q.high) * 16 + muu::hex_to_dec(q.low) == v, "byte_to_hex " << v);
			CHECK(muu::is_not_lowercase(q.high) && muu::is_not_lowercase(q.low) && muu::is_not_uppercase(p.high) && muu::is_not_uppercase(p.low), "case of the digits of " << v);
		}
		c.nontrivial();
		c.enumerated(256, 256);
	}

	// constant evaluation
	struct row
	{
		char32_t v;
		bool l, n, lo, up, w, h, m;
	};
	constexpr arr<row, 300> rows()
	{
		arr<row, 300> r{};
		crng g(VERIF_SEED + 33);
		for (auto& x : r.v)
		{
			x.v = static_cast<char32_t>(g.below(3) ? g.below(0x3400) : g.below(0x30000));
			if (g.below(16) == 0)
				x.v = ucd_whitespace[g.below(sizeof(ucd_whitespace) / sizeof(ucd_whitespace[0]))][0];
			x.l	 = muu::is_letter(x.v);
			x.n	 = muu::is_number(x.v);
			x.lo = muu::is_lowercase(x.v);
			x.up = muu::is_uppercase(x.v);
			x.w	 = muu::is_whitespace(x.v);
			x.h	 = muu::is_hyphen(x.v);
			x.m	 = muu::is_combining_mark(x.v);
		}
		return r;
	}
}
PROP(constant_evaluation, 1, 1)
{
	static constexpr auto r = rows();
	for (auto& x : r.v)
		CHECK(x.l == letter()[x.v] && x.n == number()[x.v] && (x.v > 0xFFFF || (x.lo == lowercase()[x.v] && x.up == uppercase()[x.v]))
				  && x.w == whitespace()[x.v] && x.h == hyphen()[x.v] && x.m == combining_mark()[x.v],
			  "constant-evaluated classification of 0x" << std::hex << static_cast<uint32_t>(x.v));
	c.enumerated(300, 300);
}
PROP_T("char", 1, 1, (unit8<char>));
PROP_T("unsigned char", 1, 1, (unit8<unsigned char>));
#if MUU_HAS_CHAR8
PROP_T("char8_t", 1, 1, (unit8<char8_t>));
#endif
PROP_T("char16_t, all units", 256, 256, (unit16));
PROP_T("char32_t, all code points", 0x1101, 0x1101, (unit32<char32_t>));
PROP_T("wchar_t, all code points", 0x1101, 0x1101, (unit32<wchar_t>));
PROP_T("char32_t beyond", 60000, 4000000, (beyond32<char32_t>));
PROP_T("wchar_t beyond", 60000, 4000000, (beyond32<wchar_t>));
PROP_T("hex char", 1, 1, (hexcase<char>));
PROP_T("hex wchar_t", 1, 1, (hexcase<wchar_t>));
PROP_T("hex char16_t", 1, 1, (hexcase<char16_t>));
PROP_T("hex char32_t", 1, 1, (hexcase<char32_t>));
