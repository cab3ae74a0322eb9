// X02: determinants, inverses and orthonormalisation against Leibniz' formula, the adjugate and Gram-Schmidt in wider arithmetic
#include <muu/core.h>
#include "common.hpp"
#include "lin.hpp"
#include <algorithm>
#ifndef PART
#define PART 0
#endif

namespace
{
	template <typename T, size_t R, size_t C>
	using M = muu::matrix<T, R, C>;
	template <typename T>
	using compute_t = muu::promote_if_small_float<T>;

	// sum over the permutations of the product of the entries, with and without the signs
	struct det_t
	{
		big value = 0, magnitude = 0;
	};
	det_t leibniz(const bm& m)
	{
		size_t p[4] = { 0, 1, 2, 3 };
		det_t d;
		const size_t n = m.rows;
		do
		{
			int inversions = 0;
			big t		   = 1;
			for (size_t i = 0; i < n; i++)
			{
				t *= m[i][p[i]];
				for (size_t j = i + 1; j < n; j++)
					inversions += p[i] > p[j];
			}
			d.value += (inversions & 1) ? -t : t;
			d.magnitude += babs(t);
		}
		while (std::next_permutation(p, p + n));
		return d;
	}
	bm minor_of(const bm& m, size_t r, size_t c)
	{
		bm o;
		o.rows = o.cols = m.rows - 1;
		for (size_t i = 0, oi = 0; i < m.rows; i++)
			if (i != r)
			{
				for (size_t j = 0, oj = 0; j < m.cols; j++)
					if (j != c)
						o[oi][oj++] = m[i][j];
				oi++;
			}
		return o;
	}

	template <typename T, size_t R, size_t C>
	M<T, R, C> gen_mat(pbt::Case& c)
	{
		M<T, R, C> m{ T{} };
		const uint64_t kind = c.u(0, 5);
		for (size_t i = 0; i < R; i++)
			for (size_t j = 0; j < C; j++)
			{
				if constexpr (real<T>)
				{
					constexpr int e = fp<T>::digits == 11 ? 2 : 8;
					m(i, j)			= kind == 0 ? make<T>(big(c.i(-4, 4))) : c.chance(1, 8) ? make<T>(0) : gen<T>(c, -e, fp<T>::digits == 11 ? 0 : e);
				}
				else
				{
					constexpr int64_t lim = sizeof(T) == 1 ? 60 : sizeof(T) <= 4 ? 60 : 20000;
					const int64_t l		  = kind == 0 ? 3 : lim;
					m(i, j)				  = static_cast<T>(std::is_signed_v<T> ? c.i(-l, l) : c.i(0, l));
				}
			}
		if (kind == 1) // near the identity, or singular when it is not floating-point
			for (size_t i = 0; i < R && i < C; i++)
				m(i, i) = make<T>(big(1));
		if (kind == 2 && R > 1)
			for (size_t j = 0; j < C; j++)
				m(R - 1, j) = m(0, j);
		if (kind == 3) // triangular
			for (size_t i = 1; i < R; i++)
				for (size_t j = 0; j < i && j < C; j++)
					m(i, j) = T{};
		return m;
	}

	template <typename T, size_t N>
	void inverse(pbt::Case& c)
	{
		using MT	= M<T, N, N>;
		using D		= typename MT::determinant_type;
		using I		= typename MT::inverse_type;
		using IS	= typename MT::inverse_scalar_type;
		const MT m	= gen_mat<T, N, N>(c);
		const bm B	= b(m);
		const det_t d = leibniz(B);
		NOTE(sh(B));
		c.nontrivial(d.value != 0);
		static_assert(std::is_same_v<decltype(m.determinant()), D> && std::is_same_v<decltype(MT::invert(m)), I>);
		// (N-1) nested products and sums; N! of them bounded by the magnitude
		big slack = 0;
		if constexpr (real<T>)
			slack = ulp_at<compute_t<T>>(d.magnitude) * (3 * N + 2) + ulp_at<T>(d.value);
		if constexpr (real<T>)
			if (babs(d.value) + slack >= (big(1) - p2(-10)) * p2(fp<T>::emax))
				pbt::skip();
		const D got = m.determinant();
		CHECK(babs(w(got) - d.value) <= slack, "determinant is " << sh(w(got)) << ", expected " << sh(d.value));
		CHECK(w(MT::determinant(m)) == w(got) && w(muu::determinant(m)) == w(got), "forms of determinant");

		// the inverse is meaningful while the determinant is
		using CT		  = compute_t<IS>;
		const big d_err	  = ulp_at<CT>(d.magnitude) * (3 * N + 4);
		const bool useful = d_err * 8 < babs(d.value);
		c.cls(useful, "invertible");
		if (useful)
		{
			const I inv = MT::invert(m);
			for (size_t i = 0; i < N; i++)
				for (size_t j = 0; j < N; j++)
				{
					det_t a{ 1, 1 };
					if constexpr (N > 1)
						a = leibniz(minor_of(B, j, i));
					const big want = ((i + j) & 1 ? -a.value : a.value) / d.value;
					const big err  = ulp_at<CT>(a.magnitude) * (3 * N + 2) / babs(d.value) + babs(want) * (d_err / babs(d.value)) * 2 + ulp_at<CT>(want) * 4 + ulp_at<IS>(want);
					if (babs(want) + err >= (big(1) - p2(-10)) * p2(fp<IS>::emax))
						continue; // not representable
					CHECK(babs(w(inv(i, j)) - want) <= err, "inverse has " << sh(w(inv(i, j))) << " at " << i << "," << j << ", expected " << sh(want) << " within " << sh(err));
				}
			const auto same = [&](const I& o, const char* what)
			{
				for (size_t i = 0; i < N; i++)
					for (size_t j = 0; j < N; j++)
						CHECK(w(o(i, j)) == w(inv(i, j)), what << " differs at " << i << "," << j);
			};
			same(muu::invert(m), "muu::invert");
			if constexpr (real<T>)
			{
				MT v = m;
				CHECK(&v.invert() == &v, "invert in place returns the matrix");
				same(v, "invert in place");
			}
		}
	}

	template <typename T, size_t R, size_t C>
	void ortho(pbt::Case& c)
	{
		using MT = M<T, R, C>;
		MT m	 = gen_mat<T, R, C>(c);
		if (c.chance(1, 3)) // close to a rotation
		{
			const bm r = rotation(gen_dir(c), c.real(-4, 4));
			const big e = p2(-static_cast<int>(c.u(2, 20)));
			for (size_t i = 0; i < 3; i++)
				for (size_t j = 0; j < 3; j++)
					m(i, j) = make<T>(r[i][j] + e * w(m(i, j)));
		}
		const bm B = b(m);
		NOTE(sh(B));
		b3 q[3];
		big growth = 1;
		for (size_t k = 0; k < 3; k++)
		{
			b3 v		  = column(B, k);
			const big was = len(v);
			for (size_t rep = 0; rep < 2; rep++)
				for (size_t i = 0; i < k; i++)
					v = v - q[i] * dot(v, q[i]);
			if (was == 0 || len(v) < was * p2(-30))
				pbt::skip();
			growth *= was / len(v);
			q[k] = unitv(v);
		}
		const big tol = 60 * unit<compute_t<T>>() * growth * growth + 4 * unit<T>();
		if (tol > big(0.02))
			pbt::skip();
		c.nontrivial(true);
		const MT o = MT::orthonormalize(m);
		for (size_t i = 0; i < R; i++)
			for (size_t j = 0; j < C; j++)
				if (i < 3 && j < 3)
					CHECK(babs(w(o(i, j)) - q[j][i]) <= tol, "orthonormalize gave " << sh(w(o(i, j))) << " at " << i << "," << j << ", expected " << sh(q[j][i]) << " within " << sh(tol));
				else
					CHECK(w(o(i, j)) == B[i][j], "orthonormalize changed the entry " << i << "," << j);
		MT v = m;
		CHECK(&v.orthonormalize() == &v, "orthonormalize in place returns the matrix");
		CHECK(v == o && muu::orthonormalize(m) == o, "forms of orthonormalize");
		const bool unsure = tol > big(1e-4) && fp<T>::digits > 11;
		if (!unsure)
			CHECK(o.orthonormalized() && MT::orthonormalized(o), "orthonormalize gives an orthonormalized matrix");

		// recognising it
		MT s		   = o;
		const size_t j = c.below(3), k = (j + 1 + c.below(2)) % 3;
		const big f	   = c.b() ? big(1.25) : big(0.75);
		for (size_t i = 0; i < 3; i++)
			s(i, j) = make<T>(w(s(i, j)) * f);
		CHECK(!s.orthonormalized() && !MT::orthonormalized(s), "column " << j << " scaled by " << sh(f));
		s			= o;
		const b3 tilted = unitv(column(b(o), j) + column(b(o), k) * big(c.real(0.1, 0.8)));
		for (size_t i = 0; i < 3; i++)
			s(i, j) = make<T>(tilted[i]);
		CHECK(!s.orthonormalized() && !MT::orthonormalized(s), "column " << j << " tilted towards " << k);

		// shear
		const auto shear = [&](const MT& x)
		{
			big worst = 0;
			for (size_t p = 0; p < 3; p++)
				for (size_t r = p + 1; r < 3; r++)
					worst = bmax(worst, babs(dot(unitv(column(b(x), p)), unitv(column(b(x), r)))));
			if (worst > big(fp<T>::digits == 11 ? 0.01 : 0.0012))
				CHECK(x.has_3d_shear(), "columns at a cosine of " << sh(worst) << " are sheared");
			else if (worst < big(fp<T>::digits == 11 ? 0 : 0.0008))
				CHECK(!x.has_3d_shear(), "columns at a cosine of " << sh(worst) << " are not sheared");
		};
		shear(m);
		shear(s);
		MT scaled = o;
		for (size_t p = 0; p < 3; p++)
		{
			const big x = big(c.u(1, 8)) / 2;
			for (size_t i = 0; i < 3; i++)
				scaled(i, p) = make<T>(w(scaled(i, p)) * x);
		}
		if (!unsure)
			shear(scaled);
	}
	template <typename T, size_t R, size_t C>
	void shear2(pbt::Case& c)
	{
		using MT	 = M<T, R, C>;
		MT m		 = gen_mat<T, R, C>(c);
		const big a	 = c.real(0, 7), t = c.chance(1, 3) ? big(0) : big(c.real(-0.01, 0.01)), s0 = big(c.u(1, 8)) / 2, s1 = big(c.u(1, 8)) / 2;
		const big co = BIG(cos, a), si = BIG(sin, a);
		if (c.b())
		{
			m(0, 0) = make<T>(co * s0);
			m(1, 0) = make<T>(si * s0);
			m(0, 1) = make<T>((-si + t * co) * s1);
			m(1, 1) = make<T>((co + t * si) * s1);
		}
		const b3 x{ w(m(0, 0)), w(m(1, 0)), 0 }, y{ w(m(0, 1)), w(m(1, 1)), 0 };
		NOTE(sh(b(m)));
		if (len(x) == 0 || len(y) == 0)
			pbt::skip();
		c.nontrivial(true);
		const big worst = babs(dot(unitv(x), unitv(y)));
		if (worst > big(0.0012))
			CHECK(m.has_2d_shear(), "columns at a cosine of " << sh(worst) << " are sheared");
		else if (worst < big(0.0008))
			CHECK(!m.has_2d_shear(), "columns at a cosine of " << sh(worst) << " are not sheared");
	}
#define INVERSE(name, ...)                                                                                             \
	PROP_T(name " inverse 1", 800, 20000, (inverse<__VA_ARGS__, 1>));                                                  \
	PROP_T(name " inverse 2", 2000, 60000, (inverse<__VA_ARGS__, 2>));                                                 \
	PROP_T(name " inverse 3", 3000, 80000, (inverse<__VA_ARGS__, 3>));                                                 \
	PROP_T(name " inverse 4", 3000, 80000, (inverse<__VA_ARGS__, 4>))
#define ORTHO(name, ...)                                                                                               \
	PROP_T(name " orthonormalize 3x3", 2000, 60000, (ortho<__VA_ARGS__, 3, 3>));                                       \
	PROP_T(name " orthonormalize 3x4", 1000, 20000, (ortho<__VA_ARGS__, 3, 4>));                                       \
	PROP_T(name " orthonormalize 4x4", 2000, 60000, (ortho<__VA_ARGS__, 4, 4>))
#if PART == 0
	INVERSE("int", int);
	INVERSE("int8", int8_t);
	INVERSE("uint16", uint16_t);
#elif PART == 1
	INVERSE("unsigned", unsigned);
	INVERSE("int64", int64_t);
	INVERSE("half", half);
#elif PART == 2
	INVERSE("float", float);
	INVERSE("double", double);
	INVERSE("long double", long double);
#elif PART == 3
	ORTHO("float", float);
	ORTHO("double", double);
	ORTHO("long double", long double);
#elif PART == 4
	ORTHO("half", half);
#if MUU_HAS_FLOAT16
	INVERSE("_Float16", _Float16);
#endif
#if MUU_HAS_FLOAT128
	INVERSE("float128", __float128);
	ORTHO("float128", __float128);
#endif
	PROP_T("shear 2x2", 1000, 20000, (shear2<float, 2, 2>));
	PROP_T("shear 2x3", 1000, 20000, (shear2<double, 2, 3>));
	PROP_T("shear 3x3", 1000, 20000, (shear2<float, 3, 3>));
#elif PART == 5
	// constant evaluation
	constexpr size_t N = 30;
	template <typename T, size_t D, uint64_t Salt>
	constexpr M<T, D, D> input(size_t n)
	{
		M<T, D, D> m{ T{} };
		crng g{ VERIF_SEED * 99991ull + Salt * 1000 + n };
		for (size_t i = 0; i < D; i++)
			for (size_t j = 0; j < D; j++)
				m(i, j) = static_cast<T>(static_cast<int64_t>(g.next() % 101) - 50) / T(real<T> ? 32 : 1) + T(i == j ? 20 : 0);
		return m;
	}
	template <typename T, size_t D, uint64_t Salt, size_t I>
	void one(pbt::Case& c)
	{
		constexpr auto m   = input<T, D, Salt>(I);
		constexpr auto det = m.determinant();
		constexpr auto inv = M<T, D, D>::invert(m);
		constexpr auto de2 = muu::determinant(m);
		constexpr auto in2 = muu::invert(m);
		const bm B		   = b(m);
		NOTE("constant " << sh(B));
		const det_t d = leibniz(B);
		c.nontrivial(d.value != 0);
		using IS = typename M<T, D, D>::inverse_scalar_type;
		const big derr = ulp_at<IS>(d.magnitude) * (3 * D + 4);
		if constexpr (real<T>)
			CHECK(babs(w(det) - d.value) <= derr, "constant determinant is " << sh(w(det)) << ", expected " << sh(d.value));
		else
			CHECK(w(det) == d.value, "constant determinant is " << sh(w(det)) << ", expected " << sh(d.value));
		CHECK(de2 == det && in2 == inv, "forms");
		if (derr * 8 < babs(d.value))
			for (size_t i = 0; i < D; i++)
				for (size_t j = 0; j < D; j++)
				{
					const det_t a  = leibniz(minor_of(B, j, i));
					const big want = ((i + j) & 1 ? -a.value : a.value) / d.value;
					const big err  = ulp_at<IS>(a.magnitude) * (3 * D + 2) / babs(d.value) + babs(want) * (derr / babs(d.value)) * 2 + ulp_at<IS>(want) * 5;
					CHECK(babs(w(inv(i, j)) - want) <= err, "constant inverse has " << sh(w(inv(i, j))) << " at " << i << "," << j << ", expected " << sh(want));
				}
	}
	template <typename T, size_t D, uint64_t Salt, size_t... I>
	void dispatch(pbt::Case& c, std::index_sequence<I...>)
	{
		using fn			   = void (*)(pbt::Case&);
		static constexpr fn f[] = { one<T, D, Salt, I>... };
		f[c.index % sizeof...(I)](c);
	}
	template <typename T, size_t D, uint64_t Salt>
	void constants(pbt::Case& c)
	{
		dispatch<T, D, Salt>(c, std::make_index_sequence<N>{});
	}
	PROP_T("constants 2x2", N, N, (constants<int, 2, 1>));
	PROP_T("constants 3x3", N, N, (constants<double, 3, 2>));
	PROP_T("constants 4x4", N, N, (constants<float, 4, 3>));
	PROP_T("constants int 4x4", N, N, (constants<int, 4, 4>));
#endif
}
