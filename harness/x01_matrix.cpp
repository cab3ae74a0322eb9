// X01: matrix algebra against the textbook definition, entry by entry, in wider arithmetic
#include <muu/core.h>
#include "common.hpp"
#include "lin.hpp"
#include <tuple>
#ifndef PART
#define PART 0
#endif

namespace
{
	template <typename T, size_t R, size_t C>
	using M = muu::matrix<T, R, C>;
	template <typename T, size_t D>
	using V = muu::vector<T, D>;

	template <typename T>
	T entry(pbt::Case& c)
	{
		if constexpr (real<T>)
			return c.chance(1, 6) ? make<T>(0) : gen<T>(c, fp<T>::digits == 11 ? -3 : -12, fp<T>::digits == 11 ? 3 : 12);
		else
		{
			constexpr int64_t lim = sizeof(T) == 1 ? 127 : sizeof(T) == 2 ? 10000 : sizeof(T) == 4 ? 15000 : 600000000;
			return static_cast<T>(std::is_signed_v<T> ? c.i(-lim, lim) : c.i(0, lim));
		}
	}
	template <typename T, size_t R, size_t C>
	using entries = std::array<T, R * C>;
	template <typename T, size_t R, size_t C>
	entries<T, R, C> gen_entries(pbt::Case& c)
	{
		entries<T, R, C> e;
		for (auto& v : e)
			v = entry<T>(c);
		return e;
	}
	template <typename T, size_t R, size_t C>
	M<T, R, C> fill(const entries<T, R, C>& e) // through the storage, without constructors
	{
		M<T, R, C> m;
		for (size_t r = 0; r < R; r++)
			for (size_t c = 0; c < C; c++)
				m.m[c][r] = e[r * C + c];
		return m;
	}
	template <typename T, size_t R, size_t C>
	M<T, R, C> gen_mat(pbt::Case& c)
	{
		return fill<T, R, C>(gen_entries<T, R, C>(c));
	}
	// what a T holding this value is worth: exact for integers (modulo their width), wide for floats
	template <typename T>
	big as(big v)
	{
		if constexpr (real<T>)
			return v;
		else
			return static_cast<big>(static_cast<T>(static_cast<i128>(v)));
	}
	template <typename T>
	big slack(big magnitude, size_t ops)
	{
		if constexpr (real<T>)
			return ulp_at<T>(magnitude) * static_cast<big>(ops);
		else
			return 0;
	}
	template <typename T, size_t R, size_t C>
	void expect(pbt::Case& c, const M<T, R, C>& got, const bm& want, const bm& mag, size_t ops, const char* what)
	{
		for (size_t i = 0; i < R; i++)
			for (size_t j = 0; j < C; j++)
			{
				const big g = w(got.m[j][i]), e = as<T>(want[i][j]);
				CHECK(babs(g - e) <= slack<T>(mag[i][j], ops), what << ": entry " << i << "," << j << " is " << sh(g) << ", expected " << sh(e));
			}
	}
	template <typename T, size_t R, size_t C>
	void same(pbt::Case& c, const M<T, R, C>& got, const M<T, R, C>& want, const char* what)
	{
		for (size_t i = 0; i < R; i++)
			for (size_t j = 0; j < C; j++)
				CHECK(w(got.m[j][i]) == w(want.m[j][i]), what << ": entry " << i << "," << j << " is " << sh(w(got.m[j][i])) << ", expected " << sh(w(want.m[j][i])));
	}
	template <typename T, size_t R, size_t C, size_t... I>
	M<T, R, C> row_major(const entries<T, R, C>& e, std::index_sequence<I...>)
	{
		return M<T, R, C>{ e[I]... };
	}
	template <typename T, size_t R, size_t C, size_t... I>
	M<T, R, C> columns(const M<T, R, C>& m, std::index_sequence<I...>)
	{
		return M<T, R, C>{ m.m[I]... };
	}
	template <typename T, size_t R, size_t C, size_t... I>
	M<T, R, C> short_columns(const M<T, R, C>& m, std::index_sequence<I...>)
	{
		return M<T, R, C>{ V<T, R - 1>{ m.m[I] }... };
	}
	template <typename T, size_t R, size_t C, size_t... I>
	void static_access(pbt::Case& c, M<T, R, C>& m, std::index_sequence<I...>)
	{
		const M<T, R, C>& k = m;
		CHECK(((&m.template get<I / C, I % C>() == &m.m[I % C][I / C]) && ...) && ((&k.template get<I / C, I % C>() == &m.m[I % C][I / C]) && ...), "get()");
		CHECK(((&m.template column<I % C>() == &m.m[I % C]) && ...) && ((&k.template column<I % C>() == &m.m[I % C]) && ...), "column()");
	}

	template <typename T, size_t R, size_t C>
	void build(pbt::Case& c)
	{
		using MT	 = M<T, R, C>;
		const auto e = gen_entries<T, R, C>(c);
		MT m		 = fill<T, R, C>(e);
		const MT& k	 = m;
		c.nontrivial(!m.zero());
		NOTE(sh(b(m)));
		static_assert(MT::rows == R && MT::columns == C && std::is_same_v<typename MT::scalar_type, T> && sizeof(MT) == sizeof(T) * R * C);
		static_access(c, m, std::make_index_sequence<R * C>{});
		bool zero = true;
		for (size_t i = 0; i < R; i++)
			for (size_t j = 0; j < C; j++)
			{
				CHECK(&m(i, j) == &m.m[j][i] && &k(i, j) == &m.m[j][i], "operator()(" << i << "," << j << ")");
				CHECK(m.data() + j * R + i == &m(i, j) && k.data() == m.data(), "matrices are stored column by column");
				zero = zero && w(m(i, j)) == 0;
			}
		if constexpr (C >= 2 && C <= 4)
			CHECK(&m.x_column() == &m.m[0] && &m.y_column() == &m.m[1] && &k.x_column() == &m.m[0] && &k.y_column() == &m.m[1], "x and y column");
		if constexpr (C >= 3 && C <= 4)
			CHECK(&m.z_column() == &m.m[2] && &k.z_column() == &m.m[2], "z column");
		if constexpr (C == 4)
			CHECK(&m.w_column() == &m.m[3] && &k.w_column() == &m.m[3], "w column");
		CHECK(k.zero() == zero && MT::zero(m) == zero, "zero()");

		const T x = entry<T>(c);
		const MT f{ x };
		for (size_t i = 0; i < R; i++)
			for (size_t j = 0; j < C; j++)
				CHECK(w(f(i, j)) == w(x), "broadcast to " << i << "," << j);
		if constexpr (R * C >= 2)
		{
			same(c, row_major<T, R, C>(e, std::make_index_sequence<R * C>{}), m, "row-major construction");
			{
				auto p = e;
				for (size_t i = R * C - R * C / 3; i < R * C; i++)
					p[i] = T{};
				constexpr size_t n = R * C - R * C / 3;
				if constexpr (n >= 2)
					same(c, row_major<T, R, C>(e, std::make_index_sequence<n>{}), fill<T, R, C>(p), "row-major construction with values missing");
			}
		}
		if constexpr (C >= 2)
		{
			same(c, columns<T, R, C>(m, std::make_index_sequence<C>{}), m, "column-wise construction");
			auto p = e;
			for (size_t i = 0; i < R; i++)
				p[i * C + C - 1] = T{};
			if constexpr (C >= 3)
				same(c, columns<T, R, C>(m, std::make_index_sequence<C - 1>{}), fill<T, R, C>(p), "construction from too few columns");
			p = e;
			for (size_t j = 0; j < C; j++)
				p[(R - 1) * C + j] = T{};
			if constexpr (R >= 2)
				same(c, short_columns<T, R, C>(m, std::make_index_sequence<C>{}), fill<T, R, C>(p), "construction from short columns");
		}
		const auto other = [&](auto out, const char* what)
		{
			using O	 = decltype(out);
			using OS = typename O::scalar_type;
			const O o{ m };
			for (size_t i = 0; i < O::rows; i++)
				for (size_t j = 0; j < O::columns; j++)
				{
					const bool in = i < R && j < C;
					const OS want = in ? static_cast<OS>(m(i, j)) : OS{};
					CHECK(w(o(i, j)) == w(want), what << ": entry " << i << "," << j << " is " << sh(w(o(i, j))));
				}
		};
		other(M<T, R + 1, C>{ T{} }, "conversion to one more row");
		other(M<T, R, C + 1>{ T{} }, "conversion to one more column");
		other(M<T, 5, 5>{ T{} }, "conversion to 5x5");
		other(M<T, 2, 3>{ T{} }, "conversion to 2x3");
		other(M<T, 4, 2>{ T{} }, "conversion to 4x2");
		other(M<T, 1, 1>{ T{} }, "conversion to 1x1");
		other(M<double, R, C>{ 0.0 }, "conversion to double");
		if constexpr (real<T>)
			other(M<float, R, C>{ 0.0f }, "conversion to float");
		else
		{
			other(M<int64_t, R, C>{ 0 }, "conversion to int64");
			other(M<uint8_t, R, C>{ uint8_t{} }, "conversion to uint8");
		}

		// identity and fills
		{
			const MT id = MT::constants::identity;
			for (size_t i = 0; i < R; i++)
				for (size_t j = 0; j < C; j++)
					CHECK(w(id(i, j)) == (i == j ? 1 : 0), "identity");
		}

		// comparison, with one entry changed
		MT n = m;
		CHECK(m == n && !(m != n), "copies are equal");
		const size_t i = c.below(R), j = c.below(C);
		if constexpr (real<T>)
			n(i, j) = make<T>(w(n(i, j)) + ulp_at<T>(w(n(i, j))) * 2);
		else
			n(i, j) = static_cast<T>(n(i, j) ^ T(1));
		CHECK(!(m == n) && m != n, "matrices differing at " << i << "," << j);
		if constexpr (!real<T>)
		{
			const M<double, R, C> d{ m };
			const M<int64_t, R, C> l{ m };
			CHECK(m == d && !(m != d) && !(n == d) && n != d, "comparison with double");
			CHECK(m == l && !(m != l) && !(n == l) && n != l, "comparison with int64");
		}
		else
		{
			CHECK(!MT::infinity_or_nan(m) && !m.infinity_or_nan() && !muu::infinity_or_nan(m), "finite");
			MT s	  = m;
			s(i, j) = c.b() ? make<T>(std::numeric_limits<double>::quiet_NaN()) : make<T>(c.b() ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity());
			CHECK(MT::infinity_or_nan(s) && s.infinity_or_nan() && muu::infinity_or_nan(s), "infinity or NaN at " << i << "," << j);

			const T eps = make<T>(c.b() ? w(muu::default_epsilon<T>) : p2(-static_cast<int>(c.u(0, 6))));
			const big d = (c.b() ? big(1) : big(-1)) * w(eps);
			MT close = m, far = m, small{ T{} }, big_{ T{} };
			for (size_t r = 0; r < R; r++)
				for (size_t q = 0; q < C; q++)
				{
					close(r, q) = make<T>(w(m(r, q)) + d / 2);
					small(r, q) = make<T>(-d / 2);
				}
			far(i, j)	 = make<T>(w(m(i, j)) + 2 * d);
			big_(i, j) = make<T>(2 * d);
			bool rounds = false; // a value too big for the difference to be represented
			for (size_t r = 0; r < R; r++)
				for (size_t q = 0; q < C; q++)
					rounds = rounds || ulp_at<T>(babs(w(m(r, q))) + 2 * w(eps)) > w(eps) / 8;
			if (!rounds)
			{
				CHECK(MT::approx_equal(m, close, eps) && m.approx_equal(close, eps) && muu::approx_equal(m, close, eps), "approximately equal");
				CHECK(!MT::approx_equal(m, far, eps) && !m.approx_equal(far, eps) && !muu::approx_equal(m, far, eps), "not approximately equal at " << i << "," << j);
			}
			CHECK(MT::approx_zero(small, eps) && small.approx_zero(eps) && muu::approx_zero(small, eps), "approximately zero");
			CHECK(!MT::approx_zero(big_, eps) && !big_.approx_zero(eps) && !muu::approx_zero(big_, eps), "not approximately zero at " << i << "," << j);
			if (w(eps) == w(muu::default_epsilon<T>))
			{
				CHECK(rounds || (MT::approx_equal(m, close) && m.approx_equal(close) && !muu::approx_equal(m, far)), "default epsilon");
				CHECK(MT::approx_zero(small) && small.approx_zero() && !muu::approx_zero(big_), "default epsilon");
			}
		}
	}

	template <typename T, size_t R, size_t C, size_t K>
	void product(pbt::Case& c, const M<T, R, C>& a, const M<T, C, K>& n)
	{
		const bm A = b(a), N = b(n);
		expect(c, a * n, mul(A, N), mul(absm(A), absm(N)), C + 1, "matrix product");
	}

	template <typename T, size_t R, size_t C>
	void algebra(pbt::Case& c)
	{
		using MT = M<T, R, C>;
		const MT a = gen_mat<T, R, C>(c), d = gen_mat<T, R, C>(c);
		const T s  = entry<T>(c);
		const bm A = b(a), D = b(d);
		c.nontrivial(!a.zero() && !d.zero());
		NOTE(sh(A) << " and " << sh(D) << " and " << sh(w(s)));
		bm sum = A, dif = A, neg = A, sc = A, zero, mag = A, quo = A, quom = A;
		zero.rows = R;
		zero.cols = C;
		const T div = w(s) == 0 ? T{ 3 } : s;
		for (size_t i = 0; i < R; i++)
			for (size_t j = 0; j < C; j++)
			{
				sum[i][j] += D[i][j];
				dif[i][j] -= D[i][j];
				neg[i][j] = -neg[i][j];
				sc[i][j] *= w(s);
				mag[i][j]  = babs(A[i][j]) + babs(D[i][j]);
				quo[i][j]  = A[i][j] / w(div);
				quom[i][j] = quo[i][j];
				if constexpr (!real<T>)
					quo[i][j] = static_cast<big>(static_cast<i128>(quo[i][j]));
			}
		expect(c, a + d, sum, mag, 1, "sum");
		expect(c, a - d, dif, mag, 1, "difference");
		expect(c, +a, A, zero, 0, "plus");
		if constexpr (real<T> || std::is_signed_v<T>)
			expect(c, -a, neg, zero, 0, "negation");
		expect(c, a * s, sc, sc, 1, "matrix * scalar");
		expect(c, s * a, sc, sc, 1, "scalar * matrix");
		expect(c, a / div, quo, quom, 3, "matrix / scalar");
#define IN_PLACE(expr, want, what)                                                                                     \
	do                                                                                                                 \
	{                                                                                                                  \
		MT v = a;                                                                                                      \
		CHECK(&(expr) == &v, what << " returns the matrix");                                                           \
		same(c, v, want, what);                                                                                        \
	}                                                                                                                  \
	while (0)
		IN_PLACE(v += d, (a + d), "+=");
		IN_PLACE(v -= d, (a - d), "-=");
		IN_PLACE(v *= s, (a * s), "*=");
		IN_PLACE(v /= div, (a / div), "/=");
		IN_PLACE(v += v, (a + a), "+= itself");
		IN_PLACE(v -= v, (a - a), "-= itself");

		// products
		product(c, a, gen_mat<T, C, 1>(c));
		product(c, a, gen_mat<T, C, C>(c));
		product(c, a, gen_mat<T, C, (R == C ? 2 : R)>(c));
		if constexpr (R == C)
		{
			product(c, a, d);
			product(c, a, a);
			IN_PLACE(v *= d, (a * d), "*= matrix");
			IN_PLACE(v *= v, (a * a), "*= itself");
			same(c, a * MT::constants::identity, a, "product with the identity");
			same(c, MT::constants::identity * a, a, "product of the identity");
		}
		V<T, C> v;
		V<T, R> u;
		bm bv, bu;
		bv.rows = C, bv.cols = 1, bu.rows = 1, bu.cols = R;
		for (size_t i = 0; i < C; i++)
			bv[i][0] = w(v[i] = entry<T>(c));
		for (size_t i = 0; i < R; i++)
			bu[0][i] = w(u[i] = entry<T>(c));
		if constexpr (C > 1 || R > 1)
		{
			const bm e = mul(A, bv), em = mul(absm(A), absm(bv)), f = mul(bu, A), fm = mul(absm(bu), absm(A));
			const V<T, R> av = a * v;
			const V<T, C> ua = u * a;
			for (size_t i = 0; i < R; i++)
				CHECK(babs(w(av[i]) - as<T>(e[i][0])) <= slack<T>(em[i][0], C + 1), "matrix * column gave " << sh(w(av[i])) << " in " << i << ", expected " << sh(as<T>(e[i][0])));
			for (size_t i = 0; i < C; i++)
				CHECK(babs(w(ua[i]) - as<T>(f[0][i])) <= slack<T>(fm[0][i], R + 1), "row * matrix gave " << sh(w(ua[i])) << " in " << i << ", expected " << sh(as<T>(f[0][i])));
		}
		// transposition
		const M<T, C, R> t = MT::transpose(a);
		for (size_t i = 0; i < R; i++)
			for (size_t j = 0; j < C; j++)
				CHECK(w(t(j, i)) == A[i][j], "transposed entry " << j << "," << i);
		same(c, muu::transpose(a), t, "forms of transpose");
		same(c, M<T, C, R>::transpose(t), a, "transposing twice");
		if constexpr (R == C)
			IN_PLACE(v.transpose(), t, "transpose in place");
	}
#undef IN_PLACE
#define SHAPE(name, q, R, C, ...)                                                                                      \
	PROP_T(name " " #R "x" #C " construction", q, q * 20, (build<__VA_ARGS__, R, C>));                                 \
	PROP_T(name " " #R "x" #C " algebra", q, q * 20, (algebra<__VA_ARGS__, R, C>))
#define SQUARE(name, ...)                                                                                              \
	SHAPE(name, 200, 1, 1, __VA_ARGS__);                                                                               \
	SHAPE(name, 400, 2, 2, __VA_ARGS__);                                                                               \
	SHAPE(name, 400, 3, 3, __VA_ARGS__);                                                                               \
	SHAPE(name, 400, 4, 4, __VA_ARGS__);                                                                               \
	SHAPE(name, 300, 3, 4, __VA_ARGS__);                                                                               \
	SHAPE(name, 200, 2, 3, __VA_ARGS__)
#define OTHERS(name, ...)                                                                                              \
	SHAPE(name, 200, 5, 5, __VA_ARGS__);                                                                               \
	SHAPE(name, 200, 1, 3, __VA_ARGS__);                                                                               \
	SHAPE(name, 200, 3, 1, __VA_ARGS__);                                                                               \
	SHAPE(name, 200, 3, 2, __VA_ARGS__);                                                                               \
	SHAPE(name, 200, 4, 3, __VA_ARGS__);                                                                               \
	SHAPE(name, 200, 2, 4, __VA_ARGS__);                                                                               \
	SHAPE(name, 200, 4, 2, __VA_ARGS__);                                                                               \
	SHAPE(name, 200, 5, 2, __VA_ARGS__)
#if PART == 0
	SQUARE("int", int);
#elif PART == 1
	OTHERS("int", int);
#elif PART == 2
	SQUARE("float", float);
#elif PART == 3
	OTHERS("float", float);
#elif PART == 4
	SQUARE("int8", int8_t);
#elif PART == 5
	SQUARE("uint64", uint64_t);
#elif PART == 6
	SQUARE("double", double);
#elif PART == 7
	SQUARE("half", half);
#elif PART == 8
	SHAPE("half", 200, 1, 3, half);
	SHAPE("half", 200, 4, 2, half);
#elif PART == 9
	SHAPE("unsigned", 200, 3, 3, unsigned);
	SHAPE("unsigned", 200, 3, 4, unsigned);
	SHAPE("int64", 200, 3, 3, int64_t);
#elif PART == 10
	SQUARE("long double", long double);
#elif PART == 11
#if MUU_HAS_FLOAT16
	SHAPE("_Float16", 200, 3, 3, _Float16);
	SHAPE("_Float16", 200, 4, 4, _Float16);
#endif
#if MUU_HAS_FLOAT128
	SHAPE("float128", 200, 3, 3, __float128);
	SHAPE("float128", 200, 4, 4, __float128);
#endif
	SHAPE("int16", 200, 2, 2, int16_t);
	SHAPE("int16", 200, 5, 5, int16_t);
#elif PART == 12
	// constant evaluation
	constexpr size_t N = 25;
	template <typename T, size_t R, size_t C, uint64_t Salt>
	constexpr M<T, R, C> input(size_t n)
	{
		M<T, R, C> m{ T{} };
		crng g{ VERIF_SEED * 99991ull + Salt * 1000 + n };
		for (size_t i = 0; i < R; i++)
			for (size_t j = 0; j < C; j++)
				m(i, j) = static_cast<T>(static_cast<int64_t>(g.next() % 2001) - 1000) / T(real<T> ? 32 : 1);
		return m;
	}
	template <typename T, size_t R, size_t C, uint64_t Salt, size_t I>
	void one(pbt::Case& c)
	{
		constexpr auto a = input<T, R, C, Salt>(I), d = input<T, R, C, Salt>(I + 400);
		constexpr auto e = input<T, C, R, Salt>(I + 800);
		constexpr auto p = a * e;
		constexpr auto s = (a + d - a * T{ 2 }) * T{ 3 };
		constexpr auto t = M<T, R, C>::transpose(a);
		constexpr V<T, C> v{ e.m[0] };
		constexpr V<T, R> mv = a * v;
		constexpr V<T, R> u{ a.m[0] };
		constexpr V<T, C> um = u * d;
		constexpr bool eq = a == d, ne = a != a;
		const bm A = b(a), D = b(d), E = b(e);
		NOTE("constant " << sh(A) << ", " << sh(D) << ", " << sh(E));
		c.nontrivial(true);
		expect(c, p, mul(A, E), mul(absm(A), absm(E)), C + 1, "constant product");
		bm S = A, SM = A;
		for (size_t i = 0; i < R; i++)
			for (size_t j = 0; j < C; j++)
			{
				S[i][j]	 = (D[i][j] - A[i][j]) * 3;
				SM[i][j] = (babs(D[i][j]) + babs(A[i][j]) * 3) * 3;
			}
		expect(c, s, S, SM, 4, "constant sum");
		for (size_t i = 0; i < R; i++)
		{
			big x = 0, m = 0;
			for (size_t j = 0; j < C; j++)
			{
				CHECK(w(t(j, i)) == A[i][j], "constant transpose");
				x += A[i][j] * E[j][0];
				m += babs(A[i][j] * E[j][0]);
			}
			CHECK(babs(w(mv[i]) - x) <= slack<T>(m, C + 1), "constant matrix * column");
		}
		for (size_t j = 0; j < C; j++)
		{
			big x = 0, m = 0;
			for (size_t i = 0; i < R; i++)
			{
				x += A[i][0] * D[i][j];
				m += babs(A[i][0] * D[i][j]);
			}
			CHECK(babs(w(um[j]) - x) <= slack<T>(m, R + 1), "constant row * matrix");
		}
		CHECK(!ne && eq == (a == d), "constant comparison");
	}
	template <typename T, size_t R, size_t C, uint64_t Salt, size_t... I>
	void dispatch(pbt::Case& c, std::index_sequence<I...>)
	{
		using fn			   = void (*)(pbt::Case&);
		static constexpr fn f[] = { one<T, R, C, Salt, I>... };
		f[c.index % sizeof...(I)](c);
	}
	template <typename T, size_t R, size_t C, uint64_t Salt>
	void constants(pbt::Case& c)
	{
		dispatch<T, R, C, Salt>(c, std::make_index_sequence<N>{});
	}
	PROP_T("constants 2x2", N, N, (constants<int, 2, 2, 1>));
	PROP_T("constants 3x3", N, N, (constants<double, 3, 3, 2>));
	PROP_T("constants 4x4", N, N, (constants<float, 4, 4, 3>));
#if __cplusplus >= 202002L // the kernels of other shapes have uninitialised variables
	PROP_T("constants 3x4", N, N, (constants<int64_t, 3, 4, 4>));
	PROP_T("constants 2x5", N, N, (constants<double, 2, 5, 5>));
#endif
	// deduction guides
	PROP(deduction, 200, 2000)
	{
		const int i[16] = { static_cast<int>(c.i(-99, 99)), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, static_cast<int>(c.i(-99, 99)) };
		NOTE("first " << i[0] << " last " << i[15]);
		c.nontrivial(true);
		const muu::matrix m1{ i[0] };
		static_assert(std::is_same_v<decltype(m1), const M<int, 1, 1>>);
		const muu::matrix m2(i[0], 1.5, 2.0f, i[15]);
		static_assert(std::is_same_v<decltype(m2), const M<double, 2, 2>>);
		CHECK(m2(0, 0) == i[0] && m2(0, 1) == 1.5 && m2(1, 0) == 2.0 && m2(1, 1) == i[15], "deduced 2x2");
		const muu::matrix m3(i[0], 1, 2, 3, 4, i[15]);
		static_assert(std::is_same_v<decltype(m3), const M<int, 2, 3>>);
		CHECK(m3(0, 0) == i[0] && m3(0, 2) == 2 && m3(1, 0) == 3 && m3(1, 2) == i[15], "deduced 2x3");
		const muu::matrix m4(i[0], 1, 2, 3, 4, 5, 6, 7, 8.5f);
		static_assert(std::is_same_v<decltype(m4), const M<float, 3, 3>>);
		CHECK(m4(0, 0) == static_cast<float>(i[0]) && m4(1, 0) == 3 && m4(2, 2) == 8.5f, "deduced 3x3");
		const muu::matrix m5(i[0], 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11);
		static_assert(std::is_same_v<decltype(m5), const M<int, 3, 4>>);
		CHECK(m5(0, 0) == i[0] && m5(1, 0) == 4 && m5(2, 3) == 11, "deduced 3x4");
		const muu::matrix m6(i[0], 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, i[15]);
		static_assert(std::is_same_v<decltype(m6), const M<int, 4, 4>>);
		CHECK(m6(0, 0) == i[0] && m6(1, 0) == 4 && m6(3, 3) == i[15], "deduced 4x4");
		const muu::matrix m7(V<int, 2>{ i[0], 1 }, V<double, 3>{ 2.0, 3.0, 4.0 });
		static_assert(std::is_same_v<decltype(m7), const M<double, 3, 2>>);
		CHECK(m7(0, 0) == i[0] && m7(1, 0) == 1 && m7(2, 0) == 0 && m7(2, 1) == 4, "deduced from columns");
	}
#endif
}
