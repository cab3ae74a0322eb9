// E04: the constants of muu::build read as the date and time of compilation. Each part compiles the library as if in
// another month, on a day and at a time derived from the seed.
#ifndef MONTH
	#define MONTH 1
#endif
#ifndef VERIF_SEED
	#define VERIF_SEED 1
#endif
namespace
{
namespace pretend
{
	struct when
	{
		int year, month, day, hour, minute, second;
		char date[12], time[9];
	};
	constexpr unsigned long long mix(unsigned long long v)
	{
		v = (v ^ (v >> 30)) * 0xbf58476d1ce4e5b9u;
		v = (v ^ (v >> 27)) * 0x94d049bb133111ebu;
		return v ^ (v >> 31);
	}
	constexpr when make()
	{
		when w{};
		unsigned long long r = mix(mix(static_cast<unsigned long long>(VERIF_SEED) * 977u + MONTH));
		const auto below = [&](int n)
		{
			r = mix(r + 0x9e3779b97f4a7c15u);
			return static_cast<int>(r % static_cast<unsigned>(n));
		};
		constexpr int lengths[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
		constexpr char names[]	= "JanFebMarAprMayJunJulAugSepOctNovDec";
		w.year	 = 2021 + below(7979);
		w.month	 = MONTH;
		// both one- and two-digit days, in turn
		w.day	 = MONTH % 2 == VERIF_SEED % 2 ? 1 + below(9) : 10 + below(lengths[MONTH - 1] - 9);
		w.hour	 = below(24);
		w.minute = below(60);
		w.second = below(61);
		for (int i = 0; i < 3; i++)
			w.date[i] = names[(MONTH - 1) * 3 + i];
		w.date[3] = w.date[6] = ' ';
		w.date[4] = w.day < 10 ? ' ' : static_cast<char>('0' + w.day / 10);
		w.date[5] = static_cast<char>('0' + w.day % 10);
		int y	  = w.year;
		for (int i = 10; i >= 7; i--, y /= 10)
			w.date[i] = static_cast<char>('0' + y % 10);
		const int parts[] = { w.hour, w.minute, w.second };
		for (int i = 0; i < 3; i++)
		{
			w.time[i * 3]	  = static_cast<char>('0' + parts[i] / 10);
			w.time[i * 3 + 1] = static_cast<char>('0' + parts[i] % 10);
			if (i < 2)
				w.time[i * 3 + 2] = ':';
		}
		return w;
	}
	constexpr when now = make();
}
}
#include <climits>
#include <cstdint>
#include <cstddef>
#include "common.hpp"
#undef __DATE__
#undef __TIME__
#define __DATE__ ::pretend::now.date
#define __TIME__ ::pretend::now.time
#include <muu/build.h>
#define STR2(x) #x
#define STR(x) STR2(x)

static void date_and_time(pbt::Case& c)
{
	constexpr auto& w = pretend::now;
	NOTE(w.date << " " << w.time);
	namespace b = muu::build;
	constexpr int got[] = { static_cast<int>(b::year), static_cast<int>(b::month), static_cast<int>(b::day), static_cast<int>(b::hour), static_cast<int>(b::minute), static_cast<int>(b::second) };
	const auto what = "build date of a compilation on '" + std::string(w.date) + "' at '" + std::string(w.time) + "'";
	CHECK(got[0] == w.year, what << ": year " << got[0]);
	CHECK(got[1] == w.month, what << ": month " << got[1]);
	CHECK(got[2] == w.day, what << ": day " << got[2]);
	CHECK(got[3] == w.hour, what << ": hour " << got[3]);
	CHECK(got[4] == w.minute, what << ": minute " << got[4]);
	CHECK(got[5] == w.second, what << ": second " << got[5]);
	static_assert(b::cpp_version == (__cplusplus > 202002L ? 23 : __cplusplus > 201703L ? 20 : 17));
	static_assert(b::bitness == sizeof(void*) * CHAR_BIT && b::bits_per_byte == CHAR_BIT && b::pointer_size == sizeof(void*));
	static_assert(b::is_little_endian == (__BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__));
	static_assert(b::is_big_endian == (__BYTE_ORDER__ == __ORDER_BIG_ENDIAN__));
#ifdef __cpp_exceptions
	static_assert(b::supports_exceptions);
#else
	static_assert(!b::supports_exceptions);
#endif
#ifdef __cpp_rtti
	static_assert(b::supports_rtti);
#else
	static_assert(!b::supports_rtti);
#endif
	c.enumerated(6, 6);
	c.nontrivial();
}
PROP_T("compiled in month " STR(MONTH), 1, 1, date_and_time);
