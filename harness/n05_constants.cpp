// N05: every named constant has the value its name says, in every scalar type, and vectors, matrices and quaternions
// made of constants hold the scalar ones.
#include "common.hpp"
#include <muu/core.h>
#include <muu/half.h>
#include <muu/matrix.h>
#include <muu/quaternion.h>
#include <muu/vector.h>
#include <boost/multiprecision/cpp_bin_float.hpp>
#include <array>
#include <cmath>
#include <limits>
#include <sstream>
#include <string>
#include <vector>

namespace
{
	using big = boost::multiprecision::number<boost::multiprecision::cpp_bin_float<300, boost::multiprecision::digit_base_2>>;

	// ---- the oracle: a constant's value read off its name
	std::vector<std::string> words(const std::string& name)
	{
		std::vector<std::string> out;
		std::istringstream in(name);
		for (std::string w; std::getline(in, w, '_');)
			out.push_back(w);
		return out;
	}
	big exp_one()
	{
		big sum = 1, term = 1;
		for (int i = 1; i < 100; i++)
			sum += term /= i;
		return sum;
	}
	big arctan_inverse(int x) // atan(1/x)
	{
		big sum = 0, term = big(1) / x;
		for (int i = 0; i < 400; i++, term /= x * x)
			sum += (i % 2 ? -term : term) / (2 * i + 1);
		return sum;
	}
	const big pi_ = 4 * (4 * arctan_inverse(5) - arctan_inverse(239)), e_ = exp_one(), phi_ = (1 + sqrt(big(5))) / 2;
	big product(const std::vector<std::string>& w, size_t i, size_t end)
	{
		static const char* const numbers[] = { "zero", "one", "two", "three", "four", "five", "six", "seven", "eight", "nine", "ten" };
		if (i < end && w[i] == "sqrt")
			return sqrt(product(w, i + 1, end));
		big out = 1;
		for (; i < end; i++)
		{
			if (w[i] == "pi")
				out *= pi_;
			else if (w[i] == "e")
				out *= e_;
			else if (w[i] == "phi")
				out *= phi_;
			else if (w[i] == "hundred")
				out *= 100;
			else if (w[i] == "thousand")
				out *= 1000;
			else
			{
				int n = 0;
				while (n <= 10 && w[i] != numbers[n])
					n++;
				if (n > 10)
					throw std::runtime_error("no value for the word " + w[i]);
				out *= n;
			}
		}
		return out;
	}
	big value_of(const std::string& name)
	{
		if (name == "negative_zero")
			return 0;
		if (name == "degrees_to_radians")
			return pi_ / 180;
		if (name == "radians_to_degrees")
			return 180 / pi_;
		const auto w = words(name);
		for (size_t i = 0; i < w.size(); i++)
			if (w[i] == "over")
				return product(w, 0, i) / product(w, i + 1, w.size());
		return product(w, 0, w.size());
	}

	// ---- scalars
	template <typename T>
	big exact(T v) // v is finite
	{
		bool neg = v < 0;
		if (neg)
			v = -v;
		big out = 0, scale = 1;
		while (v >= static_cast<T>(256))
			v /= static_cast<T>(256), scale *= 256;
		while (v != 0)
		{
			const int d = static_cast<int>(v);
			out += d * scale;
			v -= static_cast<T>(d);
			v *= static_cast<T>(256), scale /= 256;
		}
		return neg ? big(-out) : out;
	}
	template <typename T>
	struct digits_;
	template <> struct digits_<float> { static constexpr int bits = 24, decimal = 6, max_exp = 128; };
	template <> struct digits_<double> { static constexpr int bits = 53, decimal = 15, max_exp = 1024; };
	template <> struct digits_<long double> { static constexpr int bits = 64, decimal = 18, max_exp = 16384; };
#if MUU_HAS_FLOAT16
	template <> struct digits_<_Float16> { static constexpr int bits = 11, decimal = 3, max_exp = 16; };
#endif
	template <> struct digits_<muu::half> { static constexpr int bits = 11, decimal = 3, max_exp = 16; };
#if MUU_HAS_FLOAT128
	template <> struct digits_<muu::float128_t> { static constexpr int bits = 113, decimal = 33, max_exp = 16384; };
#endif
	template <typename T>
	big widen(T v)
	{
		if constexpr (std::is_same_v<T, muu::half>)
			return exact(static_cast<float>(v));
#if MUU_HAS_FLOAT16
		else if constexpr (std::is_same_v<T, _Float16>)
			return exact(static_cast<float>(v));
#endif
		else
			return exact(v);
	}
	// the error of v in units in the last place of x
	template <typename T>
	double ulps(T v, const big& x)
	{
		if (x == 0)
			return v == 0 ? 0 : 1e9;
		int exp = 0;
		frexp(x, &exp);
		const big err = abs(widen(v) - x) / ldexp(big(1), exp - digits_<T>::bits);
		return err.convert_to<double>();
	}
	template <typename T>
	void named(pbt::Case& c, const char* type)
	{
		using K = muu::constants<T>;
		// a correctly rounded value is never more than half a unit out, save for the literals having been rounded twice;
		// the literals have too few digits to say as much for the largest types
		const double most = digits_<T>::bits < 64 ? 0.502 : 1;
#define X(n)                                                                                                           \
	{                                                                                                                  \
		const double err = ulps<T>(K::n, value_of(#n));                                                                \
		CHECK(err <= most, "constants<" << type << ">::" #n " is " << err << " units in the last place away from its value"); \
		static_assert(std::is_same_v<std::remove_cv_t<decltype(K::n)>, T>);                                            \
	}
#include "n01_constants.inc"
#undef X
		using D = digits_<T>;
		const auto num = [](T v) { return std::is_same_v<T, muu::half> ? static_cast<long double>(static_cast<float>(v)) : static_cast<long double>(v); };
		CHECK(K::negative_zero == K::zero && std::signbit(num(K::negative_zero)) && !std::signbit(num(K::zero)), "constants<" << type << ">::negative_zero");
		const big highest = (1 - ldexp(big(1), -D::bits)) * ldexp(big(1), D::max_exp);
		CHECK(widen<T>(K::highest) == highest, "constants<" << type << ">::highest");
		CHECK(widen<T>(K::lowest) == -highest, "constants<" << type << ">::lowest");
		CHECK(std::isinf(num(K::infinity)) && !std::signbit(num(K::infinity)) && K::infinity > K::highest, "constants<" << type << ">::infinity");
		CHECK(std::isinf(num(K::negative_infinity)) && std::signbit(num(K::negative_infinity)) && K::negative_infinity < K::lowest, "constants<" << type << ">::negative_infinity");
		CHECK(!(K::nan == K::nan) && !(K::nan < K::zero) && !(K::nan > K::zero), "constants<" << type << ">::nan");
		CHECK_EQ(K::significand_digits, D::bits, "constants<" << type << ">::significand_digits");
		CHECK_EQ(K::decimal_digits, D::decimal, "constants<" << type << ">::decimal_digits");
		const double eps_err = ulps<T>(K::default_epsilon, pow(big(10), D::bits == 11 ? -3 : 1 - D::decimal));
		CHECK(eps_err <= 16, "constants<" << type << ">::default_epsilon is " << eps_err << " units away from its value");
		CHECK(widen(muu::default_epsilon<T>) == widen<T>(K::default_epsilon), "default_epsilon<" << type << ">");
	}

	// ---- integers and characters
	template <typename T>
	void integers(pbt::Case& c, const char* type)
	{
		using K		  = muu::constants<T>;
		using U		  = unsigned __int128;
		const int w	  = static_cast<int>(sizeof(T)) * 8;
		const bool sg = T(-1) < T(0);
		CHECK_EQ(K::zero, T(0), type << " zero");
		const T all[] = { K::zero, K::one, K::two, K::three, K::four, K::five, K::six, K::seven, K::eight, K::nine, K::ten };
		for (int i = 0; i <= 10; i++)
			CHECK(all[i] == static_cast<T>(i), "constants<" << type << ">: the constant for " << i);
		CHECK(K::one_hundred == static_cast<T>(100), "constants<" << type << ">::one_hundred");
		const U ones = w == 128 ? ~U{} : (U{ 1 } << w) - 1;
		CHECK(static_cast<U>(K::highest) == (sg ? ones >> 1 : ones), "constants<" << type << ">::highest");
		CHECK((static_cast<U>(K::lowest) & ones) == (sg ? (U{ 1 } << (w - 1)) : U{}), "constants<" << type << ">::lowest");
	}
	template <typename T>
	void characters(pbt::Case& c, const char* type)
	{
		using K = muu::constants<T>;
#define IS(name, ch) CHECK(K::name == static_cast<T>(ch), "constants<" << type << ">::" #name)
		IS(backspace, '\b');
		IS(escape, 0x1B);
		IS(del, 0x7F);
		IS(tab, '\t');
		IS(new_line, '\n');
		IS(vertical_tab, '\v');
		IS(form_feed, '\f');
		IS(carriage_return, '\r');
		IS(space, ' ');
		IS(exclamation_mark, '!');
		IS(quote, '"');
		IS(number_sign, '#');
		IS(dollar_sign, '$');
		IS(percent, '%');
		IS(ampersand, '&');
		IS(apostrophe, '\'');
		IS(left_parenthesis, '(');
		IS(right_parenthesis, ')');
		IS(asterisk, '*');
		IS(plus, '+');
		IS(comma, ',');
		IS(hyphen, '-');
		IS(period, '.');
		IS(forward_slash, '/');
		IS(colon, ':');
		IS(semi_colon, ';');
		IS(less_than, '<');
		IS(equal, '=');
		IS(greater_than, '>');
		IS(question_mark, '?');
		IS(at, '@');
		IS(left_square_bracket, '[');
		IS(back_slash, '\\');
		IS(right_square_bracket, ']');
		IS(hat, '^');
		IS(underscore, '_');
		IS(backtick, '`');
		IS(left_brace, '{');
		IS(bar, '|');
		IS(right_brace, '}');
		IS(tilde, '~');
#define DIGIT(n) IS(digit_##n, #n[0]);
		DIGIT(0) DIGIT(1) DIGIT(2) DIGIT(3) DIGIT(4) DIGIT(5) DIGIT(6) DIGIT(7) DIGIT(8) DIGIT(9)
#define LETTER(l) IS(letter_##l, #l[0]);
		LETTER(A) LETTER(B) LETTER(C) LETTER(D) LETTER(E) LETTER(F) LETTER(G) LETTER(H) LETTER(I) LETTER(J) LETTER(K) LETTER(L) LETTER(M)
		LETTER(N) LETTER(O) LETTER(P) LETTER(Q) LETTER(R) LETTER(S) LETTER(T) LETTER(U) LETTER(V) LETTER(W) LETTER(X) LETTER(Y) LETTER(Z)
		LETTER(a) LETTER(b) LETTER(c) LETTER(d) LETTER(e) LETTER(f) LETTER(g) LETTER(h) LETTER(i) LETTER(j) LETTER(k) LETTER(l) LETTER(m)
		LETTER(n) LETTER(o) LETTER(p) LETTER(q) LETTER(r) LETTER(s) LETTER(t) LETTER(u) LETTER(v) LETTER(w) LETTER(x) LETTER(y) LETTER(z)
#undef IS
		integers<T>(c, type);
	}

	// ---- compounds
	template <typename T>
	bool same_bits(T a, T b)
	{
		return a == b || (!(a == a) && !(b == b));
	}
	template <typename T>
	bool sign_of(T v)
	{
		return std::signbit(static_cast<float>(v));
	}
	template <typename V, typename T>
	void filled(pbt::Case& c, const V& v, T want, const char* name, size_t n, const char* of)
	{
		for (size_t i = 0; i < n; i++)
			CHECK(same_bits<T>(v.data()[i], want), of << " of " << n << " scalars: element " << i << " of constants::" << name);
	}
	template <typename V, typename T>
	void compound(pbt::Case& c, size_t n, const char* of)
	{
		using K = muu::constants<V>;
		using S = muu::constants<T>;
		static_assert(std::is_same_v<K, typename V::constants>);
#define X(name) filled<V, T>(c, K::name, S::name, #name, n, of);
		X(zero) X(one) X(two) X(three) X(four) X(five) X(six) X(seven) X(eight) X(nine) X(ten) X(one_hundred) X(lowest) X(highest)
		if constexpr (muu::is_floating_point<T>)
		{
#include "n05_compound.inc"
			X(infinity) X(negative_infinity) X(negative_zero) X(nan)
			for (size_t i = 0; i < n; i++)
				CHECK(sign_of<T>(V{ K::negative_zero }.data()[i]), of << ": constants::negative_zero");
			CHECK_EQ(K::significand_digits, S::significand_digits, of << ": constants::significand_digits");
			CHECK_EQ(K::decimal_digits, S::decimal_digits, of << ": constants::decimal_digits");
			CHECK(K::default_epsilon == S::default_epsilon, of << ": constants::default_epsilon");
		}
#undef X
	}
	template <typename T, size_t D>
	void vec(pbt::Case& c)
	{
		using V = muu::vector<T, D>;
		using K = muu::constants<V>;
		compound<V, T>(c, D, "a vector");
		const auto is = [&](const V& v, std::array<double, D> want, const char* name)
		{
			for (size_t i = 0; i < D; i++)
				CHECK(v[i] == static_cast<T>(want[i]), "vectors of " << D << ": component " << i << " of constants::" << name);
		};
		const auto axis = [](size_t a, double s = 1)
		{
			std::array<double, D> out{};
			out[a] = s;
			return out;
		};
#define AXIS(name, a, s) is(K::name, axis(a, s), #name)
		AXIS(x_axis, 0, 1);
		if constexpr (D >= 2)
			AXIS(y_axis, 1, 1);
		if constexpr (D >= 3)
			AXIS(z_axis, 2, 1);
		if constexpr (D >= 4)
			AXIS(w_axis, 3, 1);
		if constexpr (D == 2 || D == 3)
		{
			AXIS(right, 0, 1);
			AXIS(up, 1, 1);
			if constexpr (muu::is_signed<T>)
			{
				AXIS(left, 0, -1);
				AXIS(down, 1, -1);
			}
		}
		if constexpr (D == 2)
		{
			AXIS(screen_right, 0, 1);
			AXIS(screen_down, 1, 1);
			if constexpr (muu::is_signed<T>)
			{
				AXIS(screen_left, 0, -1);
				AXIS(screen_up, 1, -1);
			}
		}
		if constexpr (D == 3)
		{
			AXIS(backward, 2, 1);
			if constexpr (muu::is_signed<T>)
				AXIS(forward, 2, -1);
			if constexpr (muu::is_floating_point<T>)
			{
				const T h = muu::constants<T>::one_over_sqrt_two;
				CHECK((K::forward_left == V{ -h, T{}, -h }), "constants::forward_left");
				CHECK((K::forward_right == V{ h, T{}, -h }), "constants::forward_right");
			}
		}
	}
	template <typename T, size_t R, size_t C>
	void mat(pbt::Case& c)
	{
		using M = muu::matrix<T, R, C>;
		using K = muu::constants<M>;
		compound<M, T>(c, R * C, "a matrix");
		const M id = K::identity;
		for (size_t r = 0; r < R; r++)
			for (size_t col = 0; col < C; col++)
				CHECK(id(r, col) == static_cast<T>(r == col), R << "x" << C << " identity at " << r << ", " << col);
		if constexpr (R >= 3 && R <= 4 && C >= 3 && C <= 4 && muu::is_signed<T>)
		{
			// what each does to the forward direction and to a second one
			const auto turns = [&](const M& m, std::array<int, 3> forward, std::array<int, 3> up, const char* name)
			{
				for (size_t r = 0; r < R; r++)
					for (size_t col = 0; col < C; col++)
					{
						if (r > 2 || col > 2)
							CHECK(m(r, col) == static_cast<T>(r == col), R << "x" << C << " constants::" << name << " at " << r << ", " << col);
						else if (col == 2)
							CHECK(m(r, col) == static_cast<T>(-forward[r]), R << "x" << C << " constants::" << name << " turns forward");
						else if (col == 1)
							CHECK(m(r, col) == static_cast<T>(up[r]), R << "x" << C << " constants::" << name << " turns up");
						else // right is forward x up
						{
							const size_t a = (r + 1) % 3, b = (r + 2) % 3;
							CHECK(m(r, col) == static_cast<T>(forward[a] * up[b] - forward[b] * up[a]), R << "x" << C << " constants::" << name << " turns right");
						}
					}
			};
			turns(K::right, { 1, 0, 0 }, { 0, 1, 0 }, "right");
			turns(K::left, { -1, 0, 0 }, { 0, 1, 0 }, "left");
			turns(K::up, { 0, 1, 0 }, { 0, 0, 1 }, "up");
			turns(K::down, { 0, -1, 0 }, { 0, 0, -1 }, "down");
			turns(K::backward, { 0, 0, 1 }, { 0, 1, 0 }, "backward");
		}
	}
	template <typename T>
	void shapes(pbt::Case& c)
	{
		vec<T, 1>(c);
		vec<T, 2>(c);
		vec<T, 3>(c);
		vec<T, 4>(c);
		vec<T, 5>(c);
		mat<T, 1, 1>(c);
		mat<T, 2, 2>(c);
		mat<T, 2, 3>(c);
		mat<T, 3, 3>(c);
		mat<T, 3, 4>(c);
		mat<T, 4, 3>(c);
		mat<T, 4, 4>(c);
		mat<T, 5, 6>(c);
	}
}

#define FLOAT(T)                                                                                                       \
	{                                                                                                                  \
		named<T>(c, #T);                                                                                               \
		kinds++;                                                                                                       \
	}
PROP(named_values, 1, 1)
{
	size_t kinds = 0;
	FLOAT(float)
	FLOAT(double)
	FLOAT(long double)
	FLOAT(muu::half)
#if MUU_HAS_FLOAT16
	FLOAT(_Float16)
#endif
#if MUU_HAS_FLOAT128
	FLOAT(muu::float128_t)
#endif
	c.enumerated(kinds * 130, kinds * 130);
	c.nontrivial(true);
}
PROP(integers_and_characters, 1, 1)
{
#define INT(T) integers<T>(c, #T);
	INT(signed char) INT(unsigned char) INT(short) INT(unsigned short) INT(int) INT(unsigned) INT(long) INT(unsigned long) INT(long long) INT(unsigned long long)
	INT(__int128) INT(unsigned __int128)
	characters<char>(c, "char");
	characters<wchar_t>(c, "wchar_t");
	characters<char16_t>(c, "char16_t");
	characters<char32_t>(c, "char32_t");
#ifdef __cpp_char8_t
	characters<char8_t>(c, "char8_t");
#endif
	c.enumerated(12 * 14 + 5 * 120, 12 * 14 + 5 * 120);
	c.nontrivial(true);
}
PROP(compounds, 1, 1)
{
	shapes<float>(c);
	shapes<double>(c);
	shapes<muu::half>(c);
	shapes<int>(c);
	shapes<unsigned short>(c);
#define QUAT(T)                                                                                                        \
	{                                                                                                                  \
		const muu::quaternion<T> z = muu::constants<muu::quaternion<T>>::zero, i = muu::quaternion<T>::constants::identity; \
		CHECK(z.s == T{} && z.v.x == T{} && z.v.y == T{} && z.v.z == T{}, "the zero quaternion");                      \
		CHECK(i.s == static_cast<T>(1) && i.v.x == T{} && i.v.y == T{} && i.v.z == T{}, "the identity quaternion");    \
	}
	QUAT(float)
	QUAT(double)
	QUAT(muu::half)
	c.enumerated(5 * 13 * 67, 5 * 13 * 67);
	c.nontrivial(true);
}
