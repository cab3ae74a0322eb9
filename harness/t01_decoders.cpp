#include "utf.hpp"
#include <muu/utf8_decoder.h>
#include <muu/utf16_decoder.h>
using namespace utf;

namespace
{
	template <typename Dec, typename Ref, typename Unit>
	struct pair_
	{
		Dec d{};
		Ref r{};
		void feed(Unit u, size_t at)
		{
			using U		 = std::conditional_t<sizeof(Unit) == 1, uint8_t, uint16_t>;
			const auto e = r.feed(static_cast<U>(u));
			d(u);
			CHECK_EQ(d.error(), e == step::error, "error() after unit " << at << " = " << std::hex << static_cast<unsigned>(static_cast<U>(u)));
			CHECK_EQ(d.has_value(), e == step::value, "has_value() after unit " << at << " = " << std::hex << static_cast<unsigned>(static_cast<U>(u)));
			CHECK_EQ(d.needs_more_input(), e == step::more, "needs_more_input() after unit " << at << " = " << std::hex << static_cast<unsigned>(static_cast<U>(u)));
			if (e == step::value)
				CHECK_EQ(static_cast<uint32_t>(d.value()), r.value, "value() after unit " << at << " = " << std::hex << static_cast<unsigned>(static_cast<U>(u)));
			if (e == step::error)
			{
				d.clear_error();
				CHECK(!d.error() && !d.needs_more_input(), "state after clear_error()");
			}
		}
	};
	using p8  = pair_<muu::utf8_decoder, ref8, uint8_t>;
	using p16 = pair_<muu::utf16_decoder, ref16, uint16_t>;

	template <typename Unit>
	void stream8(pbt::Case& c)
	{
		pair_<muu::utf8_decoder, ref8, Unit> p;
		std::string s;
		const size_t n = c.biased_size(40);
		bool multi = false, bad = false;
		for (size_t i = 0; i < n; i++)
		{
			switch (c.raw(4))
			{
				case 0:
				case 1:
				{
					auto cp = gen_scalar(c);
					multi |= cp >= 0x80;
					append8(s, cp);
					break;
				}
				case 2: s += static_cast<char>(c.pick({ 0x80, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xFF, 0x9F, 0xA0, 0x8F, 0x90 })); bad = true; break;
				case 3: s += static_cast<char>(c.raw(255)); bad = true; break;
				default: // damage an encoding
				{
					std::string e;
					append8(e, gen_scalar(c));
					switch (c.raw(2))
					{
						case 0: e.pop_back(); break;
						case 1: e[c.sz(0, e.size() - 1)] = static_cast<char>(c.raw(255)); break;
						default: e.insert(e.begin() + static_cast<long>(c.sz(0, e.size())), static_cast<char>(c.raw(255)));
					}
					s += e;
					bad = true;
				}
			}
		}
		NOTE("bytes " << hex(s));
		c.nontrivial(multi || bad);
		c.cls(multi, "has multi-byte");
		c.cls(bad, "malformed parts");
		for (size_t i = 0; i < s.size(); i++)
			p.feed(static_cast<Unit>(s[i]), i);
	}
	template <typename Unit>
	void stream16(pbt::Case& c)
	{
		pair_<muu::utf16_decoder, ref16, Unit> p;
		std::u16string s;
		const size_t n = c.biased_size(40);
		bool sur = false;
		for (size_t i = 0; i < n; i++)
		{
			switch (c.raw(3))
			{
				case 0:
				case 1: s += encode<char16_t>({ gen_scalar(c) }); break;
				case 2: s += static_cast<char16_t>(c.pick({ 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF, 0, 0x41 })); break;
				default: s += static_cast<char16_t>(c.raw(0xFFFF));
			}
		}
		for (auto u : s)
			sur |= u >= 0xD800 && u <= 0xDFFF;
		NOTE("units " << hex(s));
		c.nontrivial(sur);
		for (size_t i = 0; i < s.size(); i++)
			p.feed(static_cast<Unit>(s[i]), i);
	}

	// constant evaluation
	template <typename Dec, typename Unit, size_t N>
	struct ct
	{
		arr<Unit, N> in;
		arr<int, N> st;
		arr<uint32_t, N> val;
	};
	template <typename Dec, typename Unit, size_t N>
	constexpr ct<Dec, Unit, N> ct_run()
	{
		ct<Dec, Unit, N> r{};
		crng g(VERIF_SEED + sizeof(Unit));
		Dec d{};
		size_t i = 0;
		while (i < N)
		{
			Unit buf[4]{};
			size_t n	= 1;
			uint32_t cp = static_cast<uint32_t>(g.below(4) ? g.below(0x110000) : g.below(0x800));
			buf[0]		= static_cast<Unit>(g.next());
			if (g.below(5))
			{
				if constexpr (sizeof(Unit) == 2)
				{
					if (cp < 0x10000)
						buf[0] = static_cast<Unit>(cp);
					else
					{
						n	   = 2;
						buf[0] = static_cast<Unit>(0xD800 + (cp - 0x10000) / 1024);
						buf[1] = static_cast<Unit>(0xDC00 + (cp - 0x10000) % 1024);
					}
				}
				else
				{
					n = cp < 0x80 ? 1 : cp < 0x800 ? 2 : cp < 0x10000 ? 3 : 4;
					for (size_t k = n; k-- > 1; cp /= 64)
						buf[k] = static_cast<Unit>(0x80 + cp % 64);
					buf[0] = static_cast<Unit>(n == 1 ? cp : (n == 2 ? 0xC0 : n == 3 ? 0xE0 : 0xF0) + cp);
				}
			}
			for (size_t k = 0; k < n && i < N; k++, i++)
			{
				r.in[i] = buf[k];
				d(buf[k]);
				r.st[i] = (d.error() ? 4 : 0) | (d.has_value() ? 1 : 0) | (d.needs_more_input() ? 2 : 0);
				if (d.has_value())
					r.val[i] = static_cast<uint32_t>(d.value());
				if (d.error())
					d.clear_error();
			}
		}
		return r;
	}
	template <typename Dec, typename Ref, typename Unit, size_t N>
	void ct_check(pbt::Case& c)
	{
		static constexpr auto r = ct_run<Dec, Unit, N>();
		Ref ref{};
		for (size_t i = 0; i < N; i++)
		{
			using U = std::conditional_t<sizeof(Unit) == 1, uint8_t, uint16_t>;
			auto e	= ref.feed(static_cast<U>(r.in[i]));
			CHECK_EQ(r.st[i], (e == step::error ? 4 : e == step::value ? 1 : 2), "constant-evaluated state at unit " << i);
			if (e == step::value)
				CHECK_EQ(r.val[i], ref.value, "constant-evaluated value at unit " << i);
		}
		c.enumerated(N, N);
	}
} // namespace

PROP(every_code_point_utf8, 1, 1)
{
	p8 p;
	uint64_t n = 0;
	for (uint32_t cp = 0; cp <= 0x10FFFF; cp++)
	{
		if (!scalar(cp))
			continue;
		std::string s;
		append8(s, cp);
		for (size_t i = 0; i < s.size(); i++)
			p.feed(static_cast<uint8_t>(s[i]), i);
		CHECK(p.d.has_value() && p.d.value() == static_cast<char32_t>(cp), "U+" << std::hex << cp);
		n++;
	}
	c.enumerated(n, n);
}
PROP(every_code_point_utf16, 1, 1)
{
	p16 p;
	uint64_t n = 0;
	for (uint32_t cp = 0; cp <= 0x10FFFF; cp++)
	{
		if (!scalar(cp))
			continue;
		auto s = encode<char16_t>({ static_cast<char32_t>(cp) });
		for (size_t i = 0; i < s.size(); i++)
			p.feed(static_cast<uint16_t>(s[i]), i);
		CHECK(p.d.has_value() && p.d.value() == static_cast<char32_t>(cp), "U+" << std::hex << cp);
		n++;
	}
	c.enumerated(n, n);
}
// every string of one, two and three bytes (the latter thinned in the quick tier)
PROP(all_short_byte_strings, 256, 256)
{
	const auto a = static_cast<uint32_t>(c.slice(256));
	uint64_t n	 = 0;
	for (uint32_t b = 0; b < 256; b++)
	{
		p8 q;
		q.feed(static_cast<uint8_t>(a), 0);
		q.feed(static_cast<uint8_t>(b), 1);
		n++;
		const bool whole = pbt::thorough();
		for (uint32_t d = 0; d < 256; d += whole ? 1 : 5)
		{
			p8 p;
			p.feed(static_cast<uint8_t>(a), 0);
			p.feed(static_cast<uint8_t>(b), 1);
			p.feed(static_cast<uint8_t>(d), 2);
			n++;
		}
	}
	NOTE("all 2/3-byte strings starting with byte " << a);
	c.enumerated(n, n);
}
PROP(lead_byte_times_boundaries, 1, 1)
{
	static const uint8_t B[] = { 0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC2, 0xE0, 0xED, 0xF0, 0xF4, 0xFF };
	uint64_t n = 0;
	for (uint32_t a = 0; a < 256; a++)
		for (uint32_t b = 0; b < 256; b++)
			for (auto x : B)
				for (auto y : B)
				{
					p8 p;
					p.feed(static_cast<uint8_t>(a), 0);
					p.feed(static_cast<uint8_t>(b), 1);
					p.feed(x, 2);
					p.feed(y, 3);
					n++;
				}
	c.enumerated(n, n);
}
PROP(unit_pairs_utf16, 1, 1)
{
	static const uint16_t B[] = { 0, 0x41, 0xFF, 0x100, 0xD7FF, 0xD800, 0xD801, 0xDBFE, 0xDBFF, 0xDC00, 0xDC01, 0xDFFE, 0xDFFF, 0xE000, 0xFFFF };
	uint64_t n = 0;
	for (uint32_t a = 0; a < 65536; a++)
		for (auto b : B)
		{
			p16 p, q;
			p.feed(static_cast<uint16_t>(a), 0);
			p.feed(b, 1);
			p.feed(static_cast<uint16_t>(a), 2);
			q.feed(b, 0);
			q.feed(static_cast<uint16_t>(a), 1);
			q.feed(b, 2);
			n += 2;
		}
	c.enumerated(n, n);
}
PROP_T("utf8 stream uint8_t", 150000, 3000000, (stream8<uint8_t>));
PROP_T("utf8 stream char", 100000, 2000000, (stream8<char>));
#if defined(__cpp_char8_t)
PROP_T("utf8 stream char8_t", 100000, 2000000, (stream8<char8_t>));
#endif
PROP_T("utf16 stream uint16_t", 100000, 2000000, (stream16<uint16_t>));
PROP_T("utf16 stream char16_t", 100000, 2000000, (stream16<char16_t>));
PROP_T("utf8 constexpr", 1, 1, (ct_check<muu::utf8_decoder, ref8, uint8_t, 400>));
PROP_T("utf8 char constexpr", 1, 1, (ct_check<muu::utf8_decoder, ref8, char, 400>));
PROP_T("utf16 constexpr", 1, 1, (ct_check<muu::utf16_decoder, ref16, char16_t, 400>));
