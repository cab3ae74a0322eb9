#pragma once
#include "common.hpp"
#include <string>
#include <string_view>
#include <vector>

namespace utf
{
	using cps = std::vector<char32_t>;

	constexpr bool scalar(uint32_t c) { return c < 0xD800 || (c >= 0xE000 && c <= 0x10FFFF); }

	// Unicode 15, table 3-7: valid second-byte range for a lead byte; length 0 = not a lead byte
	struct lead
	{
		int len;
		uint8_t lo, hi;
	};
	constexpr lead lead_of(uint8_t b)
	{
		if (b <= 0x7F)
			return { 1, 0, 0 };
		if (b >= 0xC2 && b <= 0xDF)
			return { 2, 0x80, 0xBF };
		if (b == 0xE0)
			return { 3, 0xA0, 0xBF };
		if (b == 0xED)
			return { 3, 0x80, 0x9F };
		if (b >= 0xE1 && b <= 0xEF)
			return { 3, 0x80, 0xBF };
		if (b == 0xF0)
			return { 4, 0x90, 0xBF };
		if (b >= 0xF1 && b <= 0xF3)
			return { 4, 0x80, 0xBF };
		if (b == 0xF4)
			return { 4, 0x80, 0x8F };
		return { 0, 0, 0 };
	}

	enum class step
	{
		value,
		more,
		error
	};

	// reference incremental decoders
	struct ref8
	{
		uint8_t buf[4]{};
		int n = 0;
		uint32_t value = 0;
		constexpr step feed(uint8_t b)
		{
			buf[n++]	 = b;
			const auto l = lead_of(buf[0]);
			bool ok		 = l.len > 0;
			if (n >= 2)
				ok = ok && b >= (n == 2 ? l.lo : 0x80) && b <= (n == 2 ? l.hi : 0xBF);
			if (!ok)
			{
				n = 0;
				return step::error;
			}
			if (n < l.len)
				return step::more;
			switch (n)
			{
				case 1: value = buf[0]; break;
				case 2: value = (buf[0] - 0xC0u) * 64u + (buf[1] - 0x80u); break;
				case 3: value = ((buf[0] - 0xE0u) * 64u + (buf[1] - 0x80u)) * 64u + (buf[2] - 0x80u); break;
				default:
					value = (((buf[0] - 0xF0u) * 64u + (buf[1] - 0x80u)) * 64u + (buf[2] - 0x80u)) * 64u + (buf[3] - 0x80u);
			}
			n = 0;
			return step::value;
		}
	};
	struct ref16
	{
		uint32_t high = 0, value = 0;
		constexpr step feed(uint16_t u)
		{
			const bool hi = u >= 0xD800 && u <= 0xDBFF, lo = u >= 0xDC00 && u <= 0xDFFF;
			if (high)
			{
				if (!lo)
				{
					high = 0;
					return step::error;
				}
				value = 0x10000u + (high - 0xD800u) * 1024u + (u - 0xDC00u);
				high  = 0;
				return step::value;
			}
			if (lo)
				return step::error;
			if (hi)
			{
				high = u;
				return step::more;
			}
			value = u;
			return step::value;
		}
	};

	// reference encoders
	template <typename Str>
	constexpr void append8(Str& s, uint32_t c)
	{
		using C	 = typename Str::value_type;
		auto put = [&](uint32_t b) { s.push_back(static_cast<C>(static_cast<unsigned char>(b))); };
		if (c < 0x80)
			put(c);
		else if (c < 0x800)
		{
			put(0xC0 + c / 64);
			put(0x80 + c % 64);
		}
		else if (c < 0x10000)
		{
			put(0xE0 + c / 4096);
			put(0x80 + c / 64 % 64);
			put(0x80 + c % 64);
		}
		else
		{
			put(0xF0 + c / 262144);
			put(0x80 + c / 4096 % 64);
			put(0x80 + c / 64 % 64);
			put(0x80 + c % 64);
		}
	}
	template <typename C>
	std::basic_string<C> encode(const cps& v)
	{
		std::basic_string<C> s;
		for (auto c : v)
		{
			if constexpr (sizeof(C) == 1)
				append8(s, c);
			else if constexpr (sizeof(C) == 2)
			{
				if (c < 0x10000)
					s.push_back(static_cast<C>(c));
				else
				{
					s.push_back(static_cast<C>(0xD800 + (c - 0x10000) / 1024));
					s.push_back(static_cast<C>(0xDC00 + (c - 0x10000) % 1024));
				}
			}
			else
				s.push_back(static_cast<C>(c));
		}
		return s;
	}
	template <typename C>
	constexpr size_t units(char32_t c)
	{
		if constexpr (sizeof(C) == 1)
			return c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
		else if constexpr (sizeof(C) == 2)
			return c < 0x10000 ? 1 : 2;
		else
			return 1;
	}

	// ---- generators
	inline char32_t gen_scalar(pbt::Case& c)
	{
		uint32_t v = 0;
		switch (c.raw(9))
		{
			case 0:
			case 1: v = static_cast<uint32_t>(c.u('a', 'z')); break;
			case 2: v = static_cast<uint32_t>(c.u(0, 0x7F)); break;
			case 3: v = static_cast<uint32_t>(c.u(0x80, 0x7FF)); break;
			case 4: v = static_cast<uint32_t>(c.u(0x800, 0xFFFF)); break;
			case 5: v = static_cast<uint32_t>(c.u(0x10000, 0x10FFFF)); break;
			case 6:
				v = c.pick<uint32_t>({ 0, 0x7F, 0x80, 0x7FF, 0x800, 0xFFF, 0x1000, 0xCFFF, 0xD000, 0xD7FF, 0xE000, 0xFFFD, 0xFFFE,
									   0xFFFF, 0x10000, 0x1F600, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFF, 0x10FFFE, 0x100, 0xFF, 0xFEFF });
				break;
			case 7: v = c.pick<uint32_t>({ ' ', 0x9, 0xA, 0xD, 0x85, 0xA0, 0x1680, 0x2000, 0x2003, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000 }); break;
			case 8: v = static_cast<uint32_t>(c.u(0x4E00, 0x9FFF)); break;
			default: v = static_cast<uint32_t>(c.u(0, 0x10FFFF)); break;
		}
		if (!scalar(v))
			v = 0xE000u + (v & 0x7FF);
		return static_cast<char32_t>(v);
	}
	template <typename C>
	std::string hex(const std::basic_string<C>& s)
	{
		std::string r;
		char b[16];
		for (size_t i = 0; i < s.size() && i < 48; i++)
		{
			std::snprintf(b, sizeof b, "%s%x", i ? " " : "", static_cast<unsigned>(static_cast<std::make_unsigned_t<std::conditional_t<sizeof(C) == 1, char, std::conditional_t<sizeof(C) == 2, short, int>>>>(s[i])));
			r += b;
		}
		return r + (s.size() > 48 ? " ..." : "");
	}
	inline std::string hex(const cps& s)
	{
		return hex(std::u32string(s.begin(), s.end()));
	}
} // namespace utf
