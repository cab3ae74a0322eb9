// S01: printing to streams
#include <muu/core.h>
#include "lin.hpp"
#include <muu/quaternion.h>
#include <muu/axis_angle.h>
#include <muu/euler_angles.h>
#include <muu/plane.h>
#include <muu/line_segment.h>
#include <muu/triangle.h>
#include <muu/ray.h>
#include <muu/bounding_sphere.h>
#include <muu/bounding_box.h>
#include <muu/packed_unit_vector.h>
#include <locale>
#include <sstream>
#include <vector>
#ifndef PART
#define PART 0
#endif

namespace
{
	template <typename T>
	constexpr int digits_of = !real<T> ? 0 : sizeof(T) == 2 ? 3 : sizeof(T) == 4 ? 6 : sizeof(T) == 8 ? 9 : 12;

	template <typename Char>
	std::basic_string<Char> widen(const std::string& s)
	{
		return std::basic_string<Char>(s.begin(), s.end());
	}
	template <typename Char>
	std::string narrowed(const std::basic_string<Char>& s)
	{
		std::string r;
		for (Char ch : s)
			r += ch < 128 && ch >= 0 ? static_cast<char>(ch) : '?';
		return r;
	}

	template <typename Char>
	struct punct : std::numpunct<Char>
	{
		Char do_decimal_point() const override { return Char(';'); }
		Char do_thousands_sep() const override { return Char('\''); }
		std::string do_grouping() const override { return "\3"; }
	};

	struct format
	{
		std::ios_base::fmtflags flags{};
		int precision = 6, width = 0;
		char fill	= ' ';
		bool locale = false;
		template <typename Char>
		void apply(std::basic_ios<Char>& o) const
		{
			o.flags(flags);
			o.precision(precision);
			o.width(width);
			o.fill(Char(fill));
			if (locale)
				o.imbue(std::locale(std::locale::classic(), new punct<Char>));
		}
	};
	format gen_format(pbt::Case& c)
	{
		using os = std::ios_base;
		format f;
		f.flags = os::dec | os::skipws;
		if (c.chance(1, 3))
			return f;
		f.flags = os::fmtflags{};
		f.flags |= c.pick({ os::dec, os::hex, os::oct, os::fmtflags{} });
		f.flags |= c.pick({ os::fmtflags{}, os::fmtflags{}, os::fixed, os::scientific, os::fixed | os::scientific });
		f.flags |= c.pick({ os::fmtflags{}, os::left, os::right, os::internal });
		for (auto x : { os::showpos, os::showpoint, os::showbase, os::uppercase, os::boolalpha, os::unitbuf, os::skipws })
			if (c.chance(1, 4))
				f.flags |= x;
		f.precision = static_cast<int>(c.pick({ 6, 0, 1, 3, 12, 25 }));
		f.width		= static_cast<int>(c.chance(1, 2) ? 0 : c.u(0, 24));
		f.fill		= c.pick({ ' ', '*', '0' });
		f.locale	= c.chance(1, 5);
		NOTE("flags 0x" << std::hex << static_cast<unsigned>(f.flags) << std::dec << " precision " << f.precision << " width " << f.width << " fill '" << f.fill << "'" << (f.locale ? " locale" : "") << "; ");
		c.cls(f.width > 0, "padded"), c.cls(f.locale, "locale"), c.cls((f.flags & os::floatfield) != 0, "float format"), c.cls((f.flags & os::hex) != 0, "hex requested");
		return f;
	}

	// what one number should look like
	template <typename Char, typename T>
	std::basic_string<Char> number(const format& f, T v)
	{
		std::basic_ostringstream<Char> o;
		f.apply(o);
		o << std::dec << std::right;
		if constexpr (real<T>)
		{
			o.precision(digits_of<T>);
			if constexpr (sizeof(T) == 2)
				o << static_cast<float>(v);
			else if constexpr (sizeof(T) <= 8)
				o << v;
			else
				o << static_cast<long double>(v);
		}
		else if constexpr (sizeof(T) == 1)
			o << static_cast<std::conditional_t<std::is_signed_v<T>, int, unsigned>>(v);
		else if constexpr (sizeof(T) < 16)
			o << v;
		else
		{
			using U		   = unsigned __int128;
			const bool neg = v < 0;
			U u			   = neg ? U(0) - static_cast<U>(v) : static_cast<U>(v);
			std::string s;
			do
				s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(u % 10)));
			while (u /= 10);
			const bool standard = T(-1) < T(0) ? v == static_cast<T>(static_cast<long long>(v)) : v == static_cast<T>(static_cast<unsigned long long>(v));
			if (f.locale && standard) // (more digits than any standard type has are not grouped)
				for (size_t i = s.size(); i > 3; i -= 3)
					s.insert(i - 3, "'");
			if (neg)
				s = "-" + s;
			else if ((f.flags & std::ios_base::showpos) && T(-1) < T(0))
				s = "+" + s;
			o << widen<Char>(s);
		}
		return o.str();
	}

	template <typename T>
	T gen_value(pbt::Case& c)
	{
		if constexpr (real<T>)
		{
			switch (c.below(6))
			{
				case 0: return make<T>(big(c.i(-20, 20)));
				case 1: return make<T>(big(c.i(-1000, 1000)) / 8);
				case 2: return make<T>(big(c.i(-1000000, 1000000)) / 1000);
				case 3:
				{
					const int e = static_cast<int>(c.i(-60, 60));
					return make<T>((c.b() ? -1 : 1) * (big(c.raw(~0ull)) * p2(-64)) * p2(sizeof(T) == 2 ? e / 6 : e));
				}
				case 4:
				{
					const int e = static_cast<int>(c.i(fp<T>::emin - fp<T>::digits, fp<T>::emax - 1));
					return make<T>((c.b() ? -1 : 1) * (1 + big(c.raw(~0ull)) * p2(-64)) * p2(e - (e == fp<T>::emax - 1 ? 1 : 0)));
				}
				default:
				{
					const big huge = p2(sizeof(T) == 2 ? 15 : 100);
					switch (c.below(5))
					{
						case 0: return make<T>(big(0));
						case 1: return make<T>(-big(0));
						case 2: return make<T>(big(HUGE_VAL));
						case 3: return make<T>(-big(HUGE_VAL));
						default: return make<T>(huge);
					}
				}
			}
		}
		else if constexpr (sizeof(T) == 16)
		{
			switch (c.below(4))
			{
				case 0: return static_cast<T>(c.i(-20, 20));
				case 1: return static_cast<T>(c.raw(~0ull));
				case 2: return static_cast<T>((static_cast<unsigned __int128>(c.raw(~0ull)) << 64) | c.raw(~0ull));
				default:
					return static_cast<T>((static_cast<unsigned __int128>(1) << c.below(128)) - c.below(2));
			}
		}
		else
			return c.template integer<T>();
	}

	// a buffer that takes only so much
	template <typename Char>
	struct narrow_buf : std::basic_streambuf<Char>
	{
		std::basic_string<Char> got;
		size_t room;
		explicit narrow_buf(size_t n) : room(n) {}
		using tr = std::char_traits<Char>;
		typename tr::int_type overflow(typename tr::int_type ch) override
		{
			if (got.size() >= room || tr::eq_int_type(ch, tr::eof()))
				return tr::eof();
			got += tr::to_char_type(ch);
			return ch;
		}
	};

	template <typename Char, typename X>
	void one_stream(pbt::Case& c, const format& f, const X& x, const std::basic_string<Char>& want, bool fails)
	{
		using str = std::basic_string<Char>;
		std::basic_ostringstream<Char> o;
		const str before = widen<Char>(c.b() ? "" : "x=");
		o << before;
		f.apply(o);
		std::basic_ostream<Char>& r = o << x;
		CHECK(&r == &o, "the stream is returned");
		CHECK(o.str() == before + want, "printed \"" << narrowed(o.str()) << "\", expected \"" << narrowed(before + want) << "\"");
		CHECK(o.good() && o.flags() == f.flags && o.precision() == f.precision && o.width() == 0 && o.fill() == Char(f.fill), "stream state afterwards");
		o << x; // without padding
		format g = f;
		g.width	 = 0;
		if (f.width == 0)
			CHECK(o.str() == before + want + want, "printed differently the second time");
		if (fails)
		{
			const size_t room = static_cast<size_t>(c.below(want.size() + 2));
			for (const bool throwing : { false, true })
			{
				narrow_buf<Char> buf{ room };
				std::basic_ostream<Char> os{ &buf };
				if (throwing)
					os.exceptions(std::ios_base::badbit);
				f.apply(os);
				bool thrown = false;
				try
				{
					os << x;
				}
				catch (const std::ios_base::failure&)
				{
					thrown = true;
				}
				const bool fits = room >= want.size();
				CHECK(os.bad() == !fits && thrown == (throwing && !fits), "failure to write: bad() is " << os.bad() << ", thrown: " << thrown << " with room for " << room << " of " << want.size());
				CHECK(buf.got == want.substr(0, room), "failure to write: wrote \"" << narrowed(buf.got) << "\"");
				CHECK(os.flags() == f.flags && os.precision() == f.precision && os.fill() == Char(f.fill), "stream state after a failure");
			}
		}
	}

	// layout(number) makes the whole text
	template <typename T, typename X, typename L>
	void printed(pbt::Case& c, const X& x, const std::vector<T>& values, L&& layout)
	{
		const format f = gen_format(c);
		for (T v : values)
			if constexpr (real<T>)
				NOTE(sh(wide(v)) << " ");
			else if constexpr (sizeof(T) == 16)
				NOTE(show128(static_cast<u128>(v)) << " ");
			else
				NOTE(+v << " ");
		std::vector<std::string> n;
		std::vector<std::wstring> wn;
		for (T v : values)
			n.push_back(number<char>(f, v)), wn.push_back(number<wchar_t>(f, v));
		const bool fails = c.chance(1, 4);
		c.nontrivial(values.size() > 1 && f.width < 24);
		c.cls(fails, "failing stream");
		const std::string want = layout(n);
		one_stream<char>(c, f, x, want, fails);
		std::vector<std::string> wn_;
		for (auto& s : wn)
			wn_.push_back(narrowed(s));
		one_stream<wchar_t>(c, f, x, widen<wchar_t>(layout(wn_)), fails);
		// reading the numbers back
		const auto ff = f.flags & std::ios_base::floatfield;
		if (!f.locale && f.fill == ' ' && (ff == std::ios_base::fmtflags{} || ff == std::ios_base::scientific))
		{
			std::ostringstream o;
			f.apply(o);
			o << x;
			std::string s = o.str();
			for (char& ch : s)
				if (ch == '{' || ch == '}' || ch == ',' || ch == '\n')
					ch = ' ';
			const char* p = s.c_str();
			for (size_t i = 0; i < values.size(); i++)
			{
				char* e = nullptr;
				if constexpr (real<T>)
				{
					const big got = big(strtold(p, &e)), v = wide(values[i]);
					const bool finite = v - v == 0;
					CHECK(e != p && (finite ? babs(got - v) <= babs(v) * 5 * BIG(pow, big(10), big(-digits_of<T>)) * big(1.0001) + p2(-16440) : got == v), "component " << i << " reads back as " << sh(got));
				}
				else
				{
					while (*p == ' ' || *p == '+')
						p++;
					const bool neg	 = *p == '-';
					const char* from = p + neg;
					unsigned __int128 u = 0;
					const char* q		= from;
					for (; *q >= '0' && *q <= '9'; q++)
						u = u * 10 + static_cast<unsigned>(*q - '0');
					CHECK((q != from && static_cast<T>(neg ? 0 - u : u) == values[i] && (values[i] < 0) == neg), "component " << i << " reads back differently");
					e = const_cast<char*>(q);
				}
				p = e;
			}
			while (*p == ' ')
				p++;
			CHECK(*p == 0, "something more was printed");
		}
	}
	// { a, b, { c, d } } ... for groups of so many components
	std::string grouped(const std::vector<std::string>& n, std::initializer_list<size_t> groups)
	{
		std::string r = "{ ";
		size_t i	  = 0;
		for (size_t g : groups)
		{
			if (i)
				r += ", ";
			if (g > 1)
				r += "{ ";
			for (size_t k = 0; k < g; k++)
				r += (k ? ", " : "") + n[i + k];
			if (g > 1)
				r += " }";
			i += g;
		}
		return r + " }";
	}
	std::string flat(const std::vector<std::string>& n)
	{
		std::string r = "{ ";
		for (size_t i = 0; i < n.size(); i++)
			r += (i ? ", " : "") + n[i];
		return r + " }";
	}

	template <typename T, size_t D>
	void vec(pbt::Case& c)
	{
		muu::vector<T, D> v;
		std::vector<T> values;
		for (size_t i = 0; i < D; i++)
			values.push_back(v[i] = gen_value<T>(c));
		NOTE(D << " components; ");
		printed(c, v, values, [](const std::vector<std::string>& n) { return flat(n); });
	}
	template <typename T, size_t R, size_t C>
	void mat(pbt::Case& c)
	{
		muu::matrix<T, R, C> m;
		std::vector<T> values;
		for (size_t i = 0; i < R; i++)
			for (size_t j = 0; j < C; j++)
				values.push_back(m(i, j) = gen_value<T>(c));
		NOTE(R << " x " << C << "; ");
		printed(c, m, values,
				[](const std::vector<std::string>& n)
				{
					std::string r = "{ ";
					for (size_t i = 0; i < R; i++)
						for (size_t j = 0; j < C; j++)
							r += (j ? ", " : i ? ",\n  " : "") + n[i * C + j];
					return r + " }";
				});
	}
	template <typename T>
	void vectors(pbt::Case& c)
	{
		switch (c.below(6))
		{
			case 0: return vec<T, 1>(c);
			case 1: return vec<T, 2>(c);
			case 2: return vec<T, 3>(c);
			case 3: return vec<T, 4>(c);
			case 4: return vec<T, 5>(c);
			default: return vec<T, 7>(c);
		}
	}
	template <typename T>
	void matrices(pbt::Case& c)
	{
		switch (c.below(7))
		{
			case 0: return mat<T, 1, 1>(c);
			case 1: return mat<T, 1, 3>(c);
			case 2: return mat<T, 3, 1>(c);
			case 3: return mat<T, 2, 3>(c);
			case 4: return mat<T, 3, 2>(c);
			case 5: return mat<T, 4, 4>(c);
			default: return mat<T, 2, 5>(c);
		}
	}
	template <typename T>
	void shapes(pbt::Case& c)
	{
		const auto v	 = [&] { return gen_value<T>(c); };
		const auto groups = [](auto... g) { return [=](const std::vector<std::string>& n) { return grouped(n, { static_cast<size_t>(g)... }); }; };
		using V			  = muu::vector<T, 3>;
		const std::vector<T> n{ v(), v(), v(), v(), v(), v(), v(), v(), v() };
		const V a{ n[0], n[1], n[2] }, b{ n[3], n[4], n[5] }, d{ n[6], n[7], n[8] };
		const auto some = [&](size_t k) { return std::vector<T>(n.begin(), n.begin() + static_cast<std::ptrdiff_t>(k)); };
		switch (c.below(9))
		{
			case 0:
			{
				NOTE("quaternion ");
				muu::quaternion<T> q;
				q.s = n[0], q.v.x = n[1], q.v.y = n[2], q.v.z = n[3];
				return printed(c, q, some(4), groups(1, 3));
			}
			case 1:
			{
				NOTE("axis_angle ");
				muu::axis_angle<T> q;
				q.axis = a, q.angle = n[3];
				return printed(c, q, some(4), groups(3, 1));
			}
			case 2:
			{
				NOTE("euler_angles ");
				muu::euler_angles<T> q;
				q.yaw = n[0], q.pitch = n[1], q.roll = n[2];
				return printed(c, q, some(3), [](const std::vector<std::string>& s) { return flat(s); });
			}
			case 3:
			{
				NOTE("plane ");
				muu::plane<T> q;
				q.normal = a, q.d = n[3];
				return printed(c, q, some(4), groups(3, 1));
			}
			case 4:
			{
				NOTE("line_segment ");
				muu::line_segment<T> q;
				q.points[0] = a, q.points[1] = b;
				return printed(c, q, some(6), groups(3, 3));
			}
			case 5:
			{
				NOTE("triangle ");
				muu::triangle<T> q;
				q.points[0] = a, q.points[1] = b, q.points[2] = d;
				return printed(c, q, some(9), groups(3, 3, 3));
			}
			case 6:
			{
				NOTE("ray ");
				muu::ray<T> q;
				q.origin = a, q.direction = b;
				return printed(c, q, some(6), groups(3, 3));
			}
			case 7:
			{
				NOTE("bounding_sphere ");
				muu::bounding_sphere<T> q;
				q.center = a, q.radius = n[3];
				return printed(c, q, some(4), groups(3, 1));
			}
			default:
			{
				NOTE("bounding_box ");
				muu::bounding_box<T> q;
				q.center = a, q.extents = b;
				return printed(c, q, some(6), groups(3, 3));
			}
		}
	}
	template <typename S, size_t D>
	void packed(pbt::Case& c)
	{
		const S bits = static_cast<S>(c.raw(~0ull));
		muu::packed_unit_vector<S, D> p;
		p.bits = bits;
		const auto u = p.template unpack<float>();
		std::vector<float> values(u.data(), u.data() + D);
		printed(c, p, values, [](const std::vector<std::string>& n) { return flat(n); });
	}

#define V(T) PROP_T("vector<" #T ">", 1200, 60000, (vectors<T>))
#define M(T) PROP_T("matrix<" #T ">", 1200, 60000, (matrices<T>))
#if PART == 0
	V(float);
	V(double);
	V(half);
	V(int);
	V(unsigned);
	V(unsigned char);
	V(signed char);
	PROP_T("packed_unit_vector<uint32_t, 3>", 1000, 50000, (packed<uint32_t, 3>));
	PROP_T("packed_unit_vector<uint16_t, 2>", 1000, 50000, (packed<uint16_t, 2>));
	PROP_T("packed_unit_vector<uint64_t, 3>", 1000, 50000, (packed<uint64_t, 3>));
#elif PART == 1
	V(long double);
	V(short);
	V(unsigned short);
	V(long);
	V(unsigned long);
	V(long long);
	V(unsigned long long);
	V(__int128);
	V(unsigned __int128);
#if MUU_HAS_FLOAT16
	V(_Float16);
#endif
#if MUU_HAS_FLOAT128
	V(__float128);
#endif
#elif PART == 2
	M(float);
	M(double);
	M(half);
	M(int);
	M(signed char);
	M(unsigned char);
#elif PART == 3
	M(long double);
	M(short);
	M(unsigned short);
	M(unsigned);
	M(long);
	M(unsigned long);
	M(long long);
	M(unsigned long long);
	M(__int128);
	M(unsigned __int128);
#if MUU_HAS_FLOAT16
	M(_Float16);
#endif
#if MUU_HAS_FLOAT128
	M(__float128);
#endif
#else
	PROP_T("shapes of float", 4000, 200000, (shapes<float>));
	PROP_T("shapes of double", 4000, 200000, (shapes<double>));
	PROP_T("shapes of half", 4000, 200000, (shapes<half>));
	PROP_T("shapes of long double", 4000, 200000, (shapes<long double>));
#if MUU_HAS_FLOAT16
	PROP_T("shapes of _Float16", 4000, 200000, (shapes<_Float16>));
#endif
#if MUU_HAS_FLOAT128
	PROP_T("shapes of float128", 4000, 200000, (shapes<__float128>));
#endif
#endif
}
