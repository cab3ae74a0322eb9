#include "utf.hpp"
#include "hashref.hpp"
#include <muu/core.h>
#include <muu/uuid.h>
#include <array>
#include <iomanip>
#include <optional>
#include <set>
#include <sstream>
#include <thread>
using muu::uuid;

namespace
{
	using bytes = std::array<uint8_t, 16>;
	bytes gen_bytes(pbt::Case& c)
	{
		bytes b;
		const auto m = c.raw(3);
		for (auto& x : b)
			x = static_cast<uint8_t>(m == 0 ? c.raw(1) : m == 1 ? c.pick<unsigned>({ 0, 0xFF, 0x7F, 0x80, 1 }) : c.raw(255));
		return b;
	}
	uuid make(const bytes& b)
	{
		uuid u{ nullptr };
		for (size_t i = 0; i < 16; i++)
			u.bytes[i] = static_cast<std::byte>(b[i]);
		return u;
	}
	bytes of(const uuid& u)
	{
		bytes b;
		for (size_t i = 0; i < 16; i++)
			b[i] = static_cast<uint8_t>(u.bytes[i]);
		return b;
	}
	uint64_t be(const bytes& b, size_t from, size_t n)
	{
		uint64_t v = 0;
		for (size_t i = 0; i < n; i++)
			v = v * 256 + b[from + i];
		return v;
	}
	std::string canonical(const bytes& b)
	{
		std::string s;
		for (size_t i = 0; i < 16; i++)
		{
			char t[3];
			std::snprintf(t, 3, "%02X", b[i]);
			s += t;
			if (i == 3 || i == 5 || i == 7 || i == 9)
				s += '-';
		}
		return s;
	}
	void expect(const uuid& u, const bytes& b, const char* what) { CHECK(of(u) == b, what << ": got " << canonical(of(u)) << ", expected " << canonical(b)); }

	PROP(fields, 12000, 600000)
	{
		const auto b = gen_bytes(c);
		const auto u = make(b);
		NOTE(canonical(b));
		c.nontrivial(b != bytes{});
		CHECK_EQ(u.time_low(), be(b, 0, 4), "time_low");
		CHECK_EQ(u.time_mid(), be(b, 4, 2), "time_mid");
		CHECK_EQ(u.time_high_and_version(), be(b, 6, 2), "time_high_and_version");
		CHECK_EQ(u.clock_seq_high_and_reserved(), b[8], "clock_seq_high_and_reserved");
		CHECK_EQ(u.clock_seq_low(), b[9], "clock_seq_low");
		CHECK_EQ(u.node(), be(b, 10, 6), "node");
		const unsigned v = b[8] >> 5, ver = b[6] >> 4;
		CHECK_EQ(u.variant(), (v >= 4 && v <= 5 ? muu::uuid_variant::standard : v == 6 ? muu::uuid_variant::reserved_microsoft : v == 7 ? muu::uuid_variant::reserved_future : v == 0 ? muu::uuid_variant::none : muu::uuid_variant::reserved_ncs), "variant bits " << v);
		CHECK_EQ(u.version(), (ver <= 5 ? static_cast<muu::uuid_version>(ver) : muu::uuid_version::unknown), "version bits " << ver);
		CHECK_EQ(static_cast<bool>(u), b != bytes{}, "bool");
		const auto junk = static_cast<uint64_t>(c.raw(0xFFFF)) << 48; // documented as ignored
		expect(uuid{ static_cast<uint32_t>(be(b, 0, 4)), static_cast<uint16_t>(be(b, 4, 2)), static_cast<uint16_t>(be(b, 6, 2)), b[8], b[9], be(b, 10, 6) | junk }, b, "6 fields");
		expect(uuid{ static_cast<uint32_t>(be(b, 0, 4)), static_cast<uint16_t>(be(b, 4, 2)), static_cast<uint16_t>(be(b, 6, 2)), static_cast<uint16_t>(be(b, 8, 2)), be(b, 10, 6) | junk }, b, "5 fields");
#if MUU_HAS_INT128
		const u128 i = (static_cast<u128>(be(b, 0, 8)) << 64) | be(b, 8, 8);
		expect(uuid{ i }, b, "from a 128-bit integer");
		CHECK(static_cast<u128>(u) == i, "to a 128-bit integer: " << show128(static_cast<u128>(u)));
#endif
		const auto copy = u;
		CHECK(copy == u && std::hash<uuid>{}(copy) == std::hash<uuid>{}(u), "copy");
		CHECK(!uuid{ nullptr } && uuid{ nullptr } == uuid::constants::nil, "null");
		// printing
		std::ostringstream o;
		o << u;
		const auto canon = canonical(b);
		CHECK_EQ(o.str(), canon, "printed");
		std::wostringstream w;
		w << u;
		CHECK(w.str() == std::wstring(canon.begin(), canon.end()), "printed wide");
		std::ostringstream f;
		f << std::setw(40) << std::setfill('*') << (c.b() ? std::left : std::right) << u << "|";
		CHECK(f.str() == canon + "****|" || f.str() == "****" + canon + "|", "stream width applies to the whole UUID: " << f.str());
		const auto back = uuid::parse(std::string_view{ canon });
		CHECK(back && *back == u, "printing then parsing");
	}

	PROP(order, 12000, 600000)
	{
		bytes x[3];
		x[0] = gen_bytes(c);
		for (int i = 1; i < 3; i++)
		{
			x[i] = c.b() ? gen_bytes(c) : x[i - 1];
			if (c.b())
				x[i][c.sz(0, 15)] = static_cast<uint8_t>(c.raw(255));
		}
		c.nontrivial(x[0] != x[1]);
		for (const auto& a : x)
			for (const auto& b : x)
			{
				const auto u = make(a), v = make(b);
				const int e = a < b ? -1 : a > b;
				NOTE(canonical(a) << " vs " << canonical(b));
				CHECK_EQ(u == v, e == 0, "==");
				CHECK_EQ(u != v, e != 0, "!=");
				CHECK_EQ(u < v, e < 0, "<");
				CHECK_EQ(u <= v, e <= 0, "<=");
				CHECK_EQ(u > v, e > 0, ">");
				CHECK_EQ(u >= v, e >= 0, ">=");
				const auto r = uuid::compare(u, v);
				CHECK_EQ((r > 0) - (r < 0), e, "compare");
				if (e == 0)
					CHECK(std::hash<uuid>{}(u) == std::hash<uuid>{}(v), "equal values, different hashes");
			}
		const auto u = make(x[0]);
		CHECK(uuid::compare(u, u) == 0 && u == u && !(u < u) && u <= u, "itself");
	}
	// the hash sees every byte
	PROP(hash_bits, 500, 20000)
	{
		const auto b = gen_bytes(c);
		const auto h = std::hash<uuid>{}(make(b));
		int changed	 = 0;
		for (size_t bit = 0; bit < 128; bit++)
		{
			auto x = b;
			x[bit / 8] ^= static_cast<uint8_t>(1 << (bit % 8));
			changed += std::hash<uuid>{}(make(x)) != h;
		}
		c.nontrivial();
		CHECK(changed >= 112, "only " << changed << " of 128 single-bit changes reach the hash");
	}

	// reference parser, as a grammar: ws* ['{'] ws* octet ([-ws]* octet){15} ws* ['}'] ws*, either brace only with the other
	bool ws(char32_t ch) { return ch == ' ' || (ch >= 9 && ch <= 13); }
	int hexval(char32_t ch) { return ch >= '0' && ch <= '9' ? int(ch - '0') : ch >= 'a' && ch <= 'f' ? int(ch - 'a') + 10 : ch >= 'A' && ch <= 'F' ? int(ch - 'A') + 10 : -1; }
	std::optional<bytes> ref_parse(const utf::cps& s)
	{
		size_t i = 0;
		auto skip = [&](bool hyphens) { while (i < s.size() && (ws(s[i]) || (hyphens && s[i] == '-'))) i++; };
		skip(false);
		bool brace = false;
		if (i < s.size() && s[i] == '{')
		{
			brace = true;
			i++;
		}
		skip(false);
		bytes b;
		for (size_t k = 0; k < 16; k++)
		{
			if (k)
				skip(true);
			if (i + 2 > s.size() || hexval(s[i]) < 0 || hexval(s[i + 1]) < 0)
				return {};
			b[k] = static_cast<uint8_t>(hexval(s[i]) * 16 + hexval(s[i + 1]));
			i += 2;
		}
		skip(false);
		if (brace)
		{
			if (i >= s.size() || s[i] != '}')
				return {};
			i++;
			skip(false);
		}
		return i == s.size() ? std::optional<bytes>{ b } : std::nullopt;
	}
	template <typename C>
	void parse_as(const utf::cps& s)
	{
		auto e = ref_parse(s);
		auto str = utf::encode<C>(s);
		std::vector<C> exact(str.begin(), str.end());
		const auto r = uuid::parse(std::basic_string_view<C>{ exact.data(), exact.size() });
		CHECK(r.has_value() == e.has_value(), (e ? "rejected " : "accepted ") << pbt::quote(str) << " as " << sizeof(C) << "-byte characters");
		if (e)
			expect(*r, *e, "parsed");
	}
	PROP(parsing, 30000, 1500000)
	{
		const auto b = gen_bytes(c);
		utf::cps s;
		const int style = static_cast<int>(c.raw(3)); // separators: canonical, none, random, dense
		auto gap = [&](bool hyphens) {
			const auto n = c.chance(1, 3) ? c.sz(1, 3) : 0;
			for (size_t i = 0; i < n; i++)
				s.push_back(hyphens && c.b() ? U'-' : static_cast<char32_t>(c.pick<int>({ ' ', '\t', '\n', '\v', '\f', '\r' })));
		};
		const bool open = c.chance(1, 3), close = open != c.chance(1, 8);
		gap(false);
		if (open)
		{
			// more than one is an error, whatever their number and however many close
			const auto braces = c.chance(1, 6) ? c.sz(2, 4) : 1;
			for (size_t i = 0; i < braces; i++)
			{
				s.push_back('{');
				gap(false);
			}
		}
		const char* lower = "0123456789abcdef";
		const char* upper = "0123456789ABCDEF";
		for (size_t i = 0; i < 16; i++)
		{
			if (i && (style == 3 || (style == 0 && (i == 4 || i == 6 || i == 8 || i == 10))))
				s.push_back(style == 0 || c.b() ? U'-' : U' ');
			else if (i && style == 2)
				gap(true);
			s.push_back(static_cast<char32_t>((c.b() ? lower : upper)[b[i] >> 4]));
			s.push_back(static_cast<char32_t>((c.b() ? lower : upper)[b[i] & 15]));
		}
		gap(false);
		for (size_t i = close ? c.chance(1, 8) ? c.sz(2, 4) : 1 : 0; i; i--)
		{
			s.push_back('}');
			gap(false);
		}
		// damage
		const auto hits = c.chance(1, 2) ? 0 : c.sz(1, 2);
		for (size_t k = 0; k < hits && !s.empty(); k++)
		{
			auto at = static_cast<ptrdiff_t>(c.sz(0, s.size() - 1));
			auto ch = [&]() -> char32_t {
				switch (c.raw(4))
				{
					case 0: return static_cast<char32_t>(c.pick<int>({ '-', ' ', '{', '}', '0', 'f', '\n' }));
					case 1: return static_cast<char32_t>(c.pick<int>({ 'g', 'G', '/', ':', '@', '`', 0, 0x7F, 0x85, 0xA0, 'x', '_' }));
					case 2: return static_cast<char32_t>(c.pick<int>({ 0x2010, 0x2028, 0xFF10, 0x130, 0x141, 0x161, 0x10030, 0x1F600 }));
					case 3: return static_cast<char32_t>(c.u(1, 0x7F));
					default: return utf::gen_scalar(c);
				}
			};
			switch (c.raw(4))
			{
				case 0: s.erase(s.begin() + at); break;
				case 1: s.insert(s.begin() + at, ch()); break;
				case 2: s[static_cast<size_t>(at)] = ch(); break;
				case 3: s.resize(static_cast<size_t>(at)); break;
				default: s.push_back(ch()); break;
			}
		}
		if (!s.empty() && s[0] == 0xFEFF) // a byte-order mark is not part of the text
			s.erase(s.begin());
		NOTE(utf::hex(s));
		c.cls(ref_parse(s).has_value(), "accepted");
		c.nontrivial(hits || style || open);
		parse_as<char>(s);
		parse_as<wchar_t>(s);
		parse_as<char16_t>(s);
		parse_as<char32_t>(s);
#if MUU_HAS_CHAR8_STRINGS
		parse_as<char8_t>(s);
#endif
	}
	PROP(parsing_garbage, 8000, 400000)
	{
		auto s = c.bytes(c.sz(0, 80));
		if (c.b())
			for (auto& ch : s)
				ch = "0123456789abcdefABCDEF{}- \t"[static_cast<unsigned char>(ch) % 27];
		std::vector<char> exact(s.begin(), s.end());
		const auto r = uuid::parse(std::string_view{ exact.data(), exact.size() });
		utf::cps v;
		bool ascii = true;
		for (auto ch : s)
		{
			v.push_back(static_cast<unsigned char>(ch));
			ascii = ascii && static_cast<unsigned char>(ch) < 0x80;
		}
		c.nontrivial(s.size() >= 32);
		const auto e = ascii ? ref_parse(v) : std::nullopt;
		CHECK(r.has_value() == e.has_value(), "parse " << pbt::quote(s));
		if (e)
			expect(*r, *e, "parsed");
	}

	bytes ref_named(const bytes& ns, const std::string& name)
	{
		const auto d = sha1_of(std::string(ns.begin(), ns.end()) + name);
		bytes b;
		std::copy(d.begin(), d.begin() + 16, b.begin());
		b[6] = static_cast<uint8_t>(0x50 | (b[6] & 0x0F));
		b[8] = static_cast<uint8_t>(0x80 | (b[8] & 0x3F));
		return b;
	}
	PROP(named, 12000, 400000)
	{
		const uuid known[]{ uuid::constants::nil, uuid::constants::namespace_dns, uuid::constants::namespace_url, uuid::constants::namespace_oid, uuid::constants::namespace_x500 };
		const auto ns = c.b() ? make(gen_bytes(c)) : c.pick(known);
		const auto s  = c.bytes(c.b() ? c.sz(0, 40) : c.sz(40, 200));
		NOTE("namespace " << canonical(of(ns)) << ", name of " << s.size() << " bytes");
		c.nontrivial(!s.empty());
		std::vector<char> exact(s.begin(), s.end());
		const auto e = ref_named(of(ns), s);
		const uuid a{ ns, exact.data(), exact.size() };
		const uuid b{ ns, std::string_view{ exact.data(), exact.size() } };
		expect(a, e, "from data");
		expect(b, e, "from view");
#if MUU_HAS_CHAR8_STRINGS
		const std::u8string u8(s.begin(), s.end());
		expect(uuid(ns, std::u8string_view{ u8 }), e, "from u8 view");
#endif
		CHECK(a.version() == muu::uuid_version::name_sha1 && a.variant() == muu::uuid_variant::standard, "version and variant");
		expect(uuid(ns, nullptr, 0), ref_named(of(ns), ""), "from nothing");
		expect(uuid(ns, std::string_view{}), ref_named(of(ns), ""), "from an empty view");
	}
	PROP(generated, 60, 600)
	{
		std::vector<uuid> out[4];
		std::vector<std::thread> t;
		const auto n = c.sz(1, 200);
		for (auto& o : out)
			t.emplace_back([&o, n] {
				for (size_t i = 0; i < n; i++)
					o.push_back(uuid::generate());
			});
		for (auto& x : t)
			x.join();
		std::set<bytes> all;
		double ones = 0, zeros = 0;
		for (auto& o : out)
			for (auto& u : o)
			{
				CHECK(u.version() == muu::uuid_version::random && u.variant() == muu::uuid_variant::standard, "version and variant of " << canonical(of(u)));
				CHECK(all.insert(of(u)).second, "generated " << canonical(of(u)) << " twice");
				for (size_t i = 0; i < 16; i++)
				{
					if (i == 6 || i == 8)
						continue;
					ones += static_cast<int>(__builtin_popcount(of(u)[i]));
					zeros += 8 - static_cast<int>(__builtin_popcount(of(u)[i]));
				}
			}
		c.nontrivial(n > 10);
		const double total = ones + zeros;
		CHECK(std::fabs(ones - zeros) < 8 * std::sqrt(total), "random bits: " << ones << " ones, " << zeros << " zeros");
	}

	constexpr bool ct()
	{
		crng g(VERIF_SEED * 5 + 3);
		for (int k = 0; k < 40; k++)
		{
			char s[40]{};
			uint8_t b[16]{};
			size_t n = 0;
			for (int i = 0; i < 16; i++)
			{
				b[i] = static_cast<uint8_t>(g.next());
				s[n++] = "0123456789abcdef"[b[i] >> 4];
				s[n++] = "0123456789ABCDEF"[b[i] & 15];
				if (i == 3 || i == 5 || i == 7 || i == 9)
					s[n++] = '-';
			}
			const auto u = uuid::parse(std::string_view{ s, n });
			if (!u)
				return false;
			uint64_t node = 0;
			for (int i = 0; i < 16; i++)
			{
				if (u->bytes[static_cast<size_t>(i)] != static_cast<std::byte>(b[i]))
					return false;
				if (i >= 10)
					node = node * 256 + b[i];
			}
			const uuid v{ u->time_low(), u->time_mid(), u->time_high_and_version(), u->clock_seq_high_and_reserved(), u->clock_seq_low(), u->node() };
			if (!(*u == v) || u->node() != node || uuid::compare(*u, v) != 0 || std::hash<uuid>{}(*u) != std::hash<uuid>{}(v) || !*u)
				return false;
			s[g.below(n)] = '!';
			if (uuid::parse(std::string_view{ s, n }))
				return false;
		}
		return true;
	}
	static_assert(ct());
	using namespace muu::literals;
	static_assert("01234567-89ab-CDEF-0123-456789abcdef"_uuid == uuid{ 0x01234567u, uint16_t{ 0x89ab }, uint16_t{ 0xcdef }, uint16_t{ 0x0123 }, uint64_t{ 0x456789abcdef } });
	static_assert(!"not a uuid"_uuid);
	static_assert(uuid::constants::namespace_dns == "6ba7b810-9dad-11d1-80b4-00c04fd430c8"_uuid);
	static_assert(uuid::constants::namespace_url == "6ba7b811-9dad-11d1-80b4-00c04fd430c8"_uuid);
	static_assert(uuid::constants::namespace_oid == "6ba7b812-9dad-11d1-80b4-00c04fd430c8"_uuid);
	static_assert(uuid::constants::namespace_x500 == "6ba7b814-9dad-11d1-80b4-00c04fd430c8"_uuid);
}
