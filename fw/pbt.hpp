// Small deterministic property-based-testing engine.
//  * every random decision is an entry in a choice sequence; a case is a pure function of that sequence
//  * shrinking = deleting/minimising entries of the choice sequence (works for any generator, histories included)
//  * cases run in forked workers; crashes, sanitizer aborts and hangs are attributed to the case that was running,
//    because choices are recorded straight into shared memory
//  * a failure is replayed three times before it is reported
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>
#include <limits>
#include <cmath>
#include <algorithm>

namespace pbt
{
	template <typename T>
	struct uint_of
	{
		using type = std::make_unsigned_t<T>;
	};
	template <>
	struct uint_of<__int128>
	{
		using type = unsigned __int128;
	};
	template <>
	struct uint_of<unsigned __int128>
	{
		using type = unsigned __int128;
	};

	struct failure
	{
		std::string what;
	};
	struct discard
	{};

	constexpr uint64_t splitmix(uint64_t& s) noexcept
	{
		s += 0x9E3779B97F4A7C15ull;
		uint64_t z = s;
		z		   = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z		   = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}

	inline constexpr size_t max_choices = 1u << 16;

	// where choices are recorded (shared memory while running under the runner)
	struct tape
	{
		uint64_t n = 0;
		uint64_t v[max_choices];
	};

	class Case
	{
	  public:
		tape* rec;
		const std::vector<uint64_t>* replay; // nullptr = generate
		size_t pos = 0;
		uint64_t rng;
		bool verbose = false;
		bool nontrivial_ = false;
		std::ostringstream notes;
		std::vector<const char*> classes;
		uint64_t extra_evals = 0, extra_distinct = 0;
		uint64_t index = 0;

		Case(tape* t, uint64_t seed) : rec(t), replay(nullptr), rng(seed) { rec->n = 0; }
		Case(tape* t, const std::vector<uint64_t>* r) : rec(t), replay(r), rng(0) { rec->n = 0; }

		// --- primitive: uniform in [0, max]
		uint64_t raw(uint64_t max)
		{
			uint64_t x;
			if (replay)
			{
				x = pos < replay->size() ? (*replay)[pos] : 0;
				pos++;
				if (max != UINT64_MAX)
					x %= (max + 1);
			}
			else
			{
				if (max == UINT64_MAX)
					x = splitmix(rng);
				else
					x = static_cast<uint64_t>((static_cast<unsigned __int128>(splitmix(rng)) * (max + 1)) >> 64);
			}
			if (rec->n >= max_choices)
				throw discard{};
			rec->v[rec->n++] = x;
			return x;
		}
		// enumeration: case i of n gets slice i (recorded like any other choice, so replay works)
		uint64_t slice(uint64_t n)
		{
			const auto save = rng;
			uint64_t x		= raw(n - 1);
			rng				= save;
			if (!replay)
				rec->v[rec->n - 1] = x = index % n;
			return x;
		}
		// size in [lo,hi], uniform; shrinks to lo
		uint64_t below(uint64_t n) { return raw(n - 1); }
		uint64_t u(uint64_t lo, uint64_t hi) { return lo + raw(hi - lo); }
		size_t sz(size_t lo, size_t hi) { return static_cast<size_t>(u(lo, hi)); }
		int64_t i(int64_t lo, int64_t hi)
		{
			return static_cast<int64_t>(static_cast<uint64_t>(lo)
										+ raw(static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo)));
		}
		bool b() { return raw(1) != 0; }
		// true with probability num/den; shrinks to false
		bool chance(unsigned num, unsigned den) { return raw(den - 1) >= den - num; }
		template <typename T>
		const T& pick(const std::vector<T>& v)
		{
			return v[static_cast<size_t>(raw(v.size() - 1))];
		}
		template <typename T, size_t N>
		const T& pick(const T (&v)[N])
		{
			return v[static_cast<size_t>(raw(N - 1))];
		}
		template <typename T>
		T pick(std::initializer_list<T> v)
		{
			return *(v.begin() + raw(v.size() - 1));
		}
		// small sizes are likely, big ones possible
		size_t biased_size(size_t hi)
		{
			switch (raw(3))
			{
				case 0: return sz(0, std::min<size_t>(hi, 4));
				case 1: return sz(0, std::min<size_t>(hi, 16));
				default: return sz(0, hi);
			}
		}
		// integer of any type; corner-biased
		template <typename T>
		T integer()
		{
			using U = typename uint_of<T>::type;
			constexpr unsigned bits = sizeof(T) * 8;
			U r{};
			switch (raw(5))
			{
				case 0: r = static_cast<U>(raw(16)); break;
				case 1: r = static_cast<U>(U{} - static_cast<U>(raw(16))); break;
				case 2:
				{ // power of two +- small
					U p = static_cast<U>(static_cast<U>(1) << raw(bits - 1));
					r	= static_cast<U>(p + static_cast<U>(raw(2)) - 1);
					break;
				}
				case 3:
				{ // run of ones
					unsigned a = static_cast<unsigned>(raw(bits - 1)), l = static_cast<unsigned>(raw(bits));
					U m = l >= bits ? static_cast<U>(~U{}) : static_cast<U>((static_cast<U>(1) << l) - 1u);
					r	= static_cast<U>(m << a);
					break;
				}
				default:
					if constexpr (sizeof(U) > 8)
						r = (static_cast<U>(raw(~uint64_t{})) << 64) | raw(~uint64_t{});
					else
						r = static_cast<U>(raw(static_cast<uint64_t>(static_cast<U>(~U{}))));
					break;
			}
			return static_cast<T>(r);
		}
		std::string bytes(size_t n)
		{
			std::string s(n, '\0');
			for (auto& c : s)
				c = static_cast<char>(raw(255));
			return s;
		}
		// double in [lo,hi] on a grid that shrinks towards lo
		double real(double lo, double hi)
		{
			return lo + (hi - lo) * (static_cast<double>(raw((1ull << 32))) / 4294967296.0);
		}
		// "human" reals: integers, halves, corner values, log-uniform magnitudes; |x| in [0, maxmag]
		double smooth(double maxmag)
		{
			double m = 0;
			switch (raw(4))
			{
				case 0: m = static_cast<double>(raw(8)); break;
				case 1: m = static_cast<double>(raw(64)) / 8.0; break;
				case 2: m = std::exp2(real(-10, std::log2(maxmag))); break;
				default: m = real(0, std::min(maxmag, 16.0)); break;
			}
			m = std::min(m, maxmag);
			return b() ? -m : m;
		}

		// --- reporting
		void nontrivial(bool yes = true) { nontrivial_ = nontrivial_ || yes; }
		void cls(const char* label) { classes.push_back(label); }
		void cls(bool yes, const char* label)
		{
			if (yes)
				classes.push_back(label);
		}
		// for blocks that enumerate a finite domain inside one case
		void enumerated(uint64_t evals, uint64_t distinct)
		{
			extra_evals += evals;
			extra_distinct += distinct;
		}
	};

	template <typename T>
	std::string show(const T& v)
	{
		std::ostringstream o;
		o.precision(17);
		if constexpr (std::is_same_v<T, char> || std::is_same_v<T, signed char> || std::is_same_v<T, unsigned char>)
			o << static_cast<int>(v);
		else if constexpr (std::is_same_v<T, bool>)
			o << (v ? "true" : "false");
#ifdef __cpp_char8_t
		else if constexpr (std::is_same_v<T, char8_t>)
			o << static_cast<unsigned>(v);
#endif
		else if constexpr (std::is_same_v<T, char16_t> || std::is_same_v<T, char32_t> || std::is_same_v<T, wchar_t>)
			o << "U+" << std::hex << static_cast<uint32_t>(v);
		else if constexpr (std::is_enum_v<T>)
			o << static_cast<long long>(v);
		else if constexpr (std::is_same_v<T, __int128> || std::is_same_v<T, unsigned __int128>)
		{
			unsigned __int128 m = static_cast<unsigned __int128>(v);
			const bool neg		= std::is_same_v<T, __int128> && v < T{};
			if (neg)
				m = static_cast<unsigned __int128>(0) - m;
			std::string d;
			do
				d.insert(d.begin(), static_cast<char>('0' + static_cast<int>(m % 10)));
			while (m /= 10);
			o << (neg ? "-" : "") << d;
		}
		else
			o << v;
		return o.str();
	}

	template <typename Str>
	std::string quote(const Str& s)
	{
		std::ostringstream o;
		o << '"';
		size_t n = 0;
		for (auto c : s)
		{
			if (++n > 200)
			{
				o << "...";
				break;
			}
			uint32_t v = 0;
			if constexpr (sizeof(c) == 1)
				v = static_cast<unsigned char>(c);
			else if constexpr (sizeof(c) == 2)
				v = static_cast<uint16_t>(c);
			else
				v = static_cast<uint32_t>(c);
			if (v >= 32 && v < 127 && v != '"' && v != '\\')
				o << static_cast<char>(v);
			else
				o << "\\x" << std::hex << v << std::dec << ";";
		}
		o << '"';
		return o.str();
	}

	using prop_fn = void (*)(Case&);
	struct prop
	{
		const char* name;
		prop_fn fn;
		uint64_t quick, thorough; // number of cases
	};
	std::vector<prop>& registry();
	struct reg
	{
		reg(const char* n, prop_fn f, uint64_t q, uint64_t t) { registry().push_back({ n, f, q, t }); }
	};
	[[noreturn]] void fail_at(const char* file, int line, const std::string& msg);
	uint64_t run_seed(); // VERIF_SEED of this run
	bool thorough();
	// report a failure from anywhere (another stack, a noexcept function); does not return
	[[noreturn]] void fail_now(const char*);
	// a known, listed defect (see known_findings.txt): the case is counted and skipped
	[[noreturn]] inline void skip()
	{
		throw discard{};
	}
} // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PROP(name, quick, thorough)                                                                                   \
	static void name(pbt::Case& c);                                                                                   \
	static pbt::reg PBT_CAT(reg_, name)(#name, &name, quick, thorough);                                               \
	static void name([[maybe_unused]] pbt::Case& c)
// register a property function template instance
#define PROP_T(label, quick, thorough, ...) static pbt::reg PBT_CAT(reg_, __COUNTER__)(label, &__VA_ARGS__, quick, thorough)

#define NOTE(...)                                                                                                     \
	do                                                                                                                \
	{                                                                                                                 \
		if (c.verbose)                                                                                                \
		{                                                                                                             \
			c.notes << __VA_ARGS__;                                                                                   \
			c.notes << "; ";                                                                                          \
		}                                                                                                             \
	}                                                                                                                 \
	while (false)

#define CHECK(cond, ...)                                                                                              \
	do                                                                                                                \
	{                                                                                                                 \
		if (!(cond))                                                                                                  \
		{                                                                                                             \
			std::ostringstream pbt_o;                                                                                 \
			pbt_o.precision(17);                                                                                      \
			pbt_o << "CHECK(" #cond ") failed: " << __VA_ARGS__;                                                      \
			pbt::fail_at(__FILE__, __LINE__, pbt_o.str());                                                            \
		}                                                                                                             \
	}                                                                                                                 \
	while (false)

#define CHECK_EQ(a, b, ...)                                                                                           \
	do                                                                                                                \
	{                                                                                                                 \
		const auto& pbt_a = (a);                                                                                      \
		const auto& pbt_b = (b);                                                                                      \
		if (!(pbt_a == pbt_b))                                                                                        \
		{                                                                                                             \
			std::ostringstream pbt_o;                                                                                 \
			pbt_o.precision(17);                                                                                      \
			pbt_o << #a " == " #b " failed: got " << pbt::show(pbt_a) << ", expected " << pbt::show(pbt_b) << ": "    \
				  << __VA_ARGS__;                                                                                     \
			pbt::fail_at(__FILE__, __LINE__, pbt_o.str());                                                            \
		}                                                                                                             \
	}                                                                                                                 \
	while (false)
