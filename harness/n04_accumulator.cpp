// N04: accumulators against the exact multiset of samples they cover
#include <muu/core.h>
#include "common.hpp"
#include "fp.hpp"
#include <muu/accumulator.h>
#include <muu/vector.h>

namespace
{
	// every generated floating-point sample is an integer multiple of 2^-shift, so exact sums fit 128-bit integers
	template <typename T>
	struct sample_of
	{
		static constexpr bool real = !std::is_integral_v<T>;
		static constexpr int shift = !real ? 0 : fp<T>::digits == 11 ? 10 : 30;

		static T from(i128 units)
		{
			if constexpr (!real)
				return static_cast<T>(units);
			else
				return make<T>(static_cast<big>(units) * p2(-shift));
		}
		static i128 units(T x)
		{
			if constexpr (!real)
				return static_cast<i128>(x);
			else
				return static_cast<i128>(wide(x) * p2(shift));
		}
		template <typename R>
		static i128 units_of_sum(R x)
		{
			if constexpr (!real)
				return static_cast<i128>(x);
			else
				return static_cast<i128>(wide(x) * p2(shift));
		}
		static T gen(pbt::Case& c, int mode)
		{
			if constexpr (!real)
			{
				if constexpr (sizeof(T) >= 4) // sums have to stay representable
				{
					constexpr int64_t lim = sizeof(T) == 4 ? 4000000 : 20000000000000000;
					return static_cast<T>(std::is_signed_v<T> ? c.i(-lim, lim) : c.i(0, lim));
				}
				else
					return c.integer<T>();
			}
			else if constexpr (fp<T>::digits == 11)
			{
				// at most 2047 * 2^4 / 2^10 ~ 32
				i128 m = static_cast<i128>(c.u(0, 2047));
				m <<= mode == 0 ? 0 : mode == 1 ? 4 : static_cast<int>(c.u(0, 10));
				m = m > 2047 * 16 && mode != 2 ? 2047 * 16 : m;
				return from(c.b() ? -m : m);
			}
			else
			{
				constexpr int bits = fp<T>::digits > 50 ? 50 : fp<T>::digits;
				i128 m			   = static_cast<i128>(c.u(0, (uint64_t{ 1 } << bits) - 1));
				if (c.chance(1, 3))
					m &= 1023;
				m <<= mode == 0 ? 0 : mode == 1 ? 40 : static_cast<int>(c.u(0, 60));
				return from(c.b() ? -m : m);
			}
		}
		static constexpr int sum_digits()
		{
			if constexpr (!real)
				return 0;
			else
				return fp<T>::digits < 24 ? 24 : fp<T>::digits;
		}
	};

	i128 mag(i128 x) { return x < 0 ? -x : x; }

	template <typename T>
	struct model
	{
		std::vector<T> s;
		// per-component check
		template <typename Min, typename Max, typename Sum, typename Get>
		void check(pbt::Case& c, const char* when, Min mn, Max mx, Sum sum, Get get, bool naive) const
		{
			using S = sample_of<std::decay_t<decltype(get(s[0]))>>;
			using E = std::decay_t<decltype(get(s[0]))>;
			if (s.empty())
			{
				CHECK(mn == E{} && mx == E{} && S::units_of_sum(sum) == 0, when << ": an empty accumulator reports zeros");
				return;
			}
			E lo = get(s[0]), hi = get(s[0]);
			i128 total = 0, abs_total = 0;
			for (const T& v : s)
			{
				const E x = get(v);
				if (x < lo)
					lo = x;
				if (hi < x)
					hi = x;
				total += S::units(x);
				abs_total += mag(S::units(x));
			}
			CHECK(mn == lo, when << ": min is " << show128(S::units(mn)) << ", expected " << show128(S::units(lo)) << " units");
			CHECK(mx == hi, when << ": max is " << show128(S::units(mx)) << ", expected " << show128(S::units(hi)) << " units");
			const i128 got = S::units_of_sum(sum);
			if constexpr (!S::real)
				CHECK(got == total, when << ": sum is " << show128(got) << ", expected " << show128(total));
			else
			{
				const big n = static_cast<big>(s.size()), u = p2(-S::sum_digits());
				big slack	= ulp_at<E>(static_cast<big>(total) * p2(-S::shift)) * p2(S::shift);
				slack += (naive ? n * u : n * n * u * u * 2) * static_cast<big>(abs_total);
				CHECK(static_cast<big>(mag(got - total)) <= slack,
					  when << ": sum of " << s.size() << " samples is " << sh(static_cast<big>(got)) << ", expected " << sh(static_cast<big>(total)) << " units");
			}
		}
	};

	template <typename T>
	struct is_vec : std::false_type
	{};
	template <typename S, size_t D>
	struct is_vec<muu::vector<S, D>> : std::true_type
	{
		using scalar			 = S;
		static constexpr size_t dims = D;
	};

	template <typename T>
	T gen_sample(pbt::Case& c, int mode)
	{
		if constexpr (is_vec<T>::value)
		{
			T r{};
			for (size_t i = 0; i < is_vec<T>::dims; i++)
				r[i] = sample_of<typename is_vec<T>::scalar>::gen(c, mode);
			return r;
		}
		else
			return sample_of<T>::gen(c, mode);
	}

	template <typename T, typename A>
	void check_all(pbt::Case& c, const char* when, const A& a, const model<T>& m, bool naive)
	{
		CHECK_EQ(a.sample_count(), m.s.size(), when << ": sample count");
		CHECK_EQ(a.empty(), m.s.empty(), when << ": empty");
		if constexpr (is_vec<T>::value)
		{
			const auto mn = a.min(), mx = a.max();
			const auto sum = a.sum();
			for (size_t i = 0; i < is_vec<T>::dims; i++)
				m.check(c, when, mn[i], mx[i], sum[i], [i](const T& v) { return v[i]; }, naive);
		}
		else
			m.check(c, when, a.min(), a.max(), a.sum(), [](const T& v) { return v; }, naive);
	}

	template <typename T, typename A>
	void history(pbt::Case& c, bool naive)
	{
		constexpr size_t K = 4;
		A acc[K];
		model<T> mod[K];
		const int mode	   = static_cast<int>(c.u(0, 2));
		const size_t steps = c.sz(1, 24);
		bool merged		   = false;
		for (size_t k = 0; k < steps; k++)
		{
			const size_t i = c.below(K), j = c.below(K);
			// the exact sums stay in range
			if (mod[i].s.size() + mod[j].s.size() > 60)
				continue;
			switch (c.u(0, 6))
			{
				case 0:
				{
					const T v = gen_sample<T>(c, mode);
					NOTE("add to " << i);
					CHECK(&acc[i].add(v) == &acc[i], "add returns the accumulator");
					mod[i].s.push_back(v);
					break;
				}
				case 1:
				{
					const T v = gen_sample<T>(c, mode);
					NOTE("call " << i);
					CHECK(&acc[i](v) == &acc[i], "the call operator returns the accumulator");
					mod[i].s.push_back(v);
					break;
				}
				case 2:
				{
					std::vector<T> v(c.sz(0, 8));
					for (auto& x : v)
						x = gen_sample<T>(c, mode);
					NOTE("add " << v.size() << " to " << i);
					if (c.b())
						acc[i].add(v.begin(), v.end());
					else
						acc[i].add(v.data(), v.data() + v.size());
					mod[i].s.insert(mod[i].s.end(), v.begin(), v.end());
					break;
				}
				case 3:
				case 4:
				{
					NOTE("merge " << j << " (" << mod[j].s.size() << ") into " << i << " (" << mod[i].s.size() << ")");
					merged |= !mod[j].s.empty();
					A& r = c.b() ? acc[i].add(acc[j]) : acc[i](acc[j]);
					CHECK(&r == &acc[i], "merging returns the accumulator");
					auto copy = mod[j].s;
					mod[i].s.insert(mod[i].s.end(), copy.begin(), copy.end());
					check_all<T>(c, "merged from", acc[j], mod[j], naive);
					break;
				}
				case 5:
				{
					if (c.b())
					{
						NOTE("reset " << i);
						acc[i] = A{};
						mod[i].s.clear();
					}
					else
					{
						NOTE("copy " << j << " to " << i);
						acc[i] = acc[j];
						mod[i] = mod[j];
					}
					break;
				}
				default:
				{
					std::vector<T> v(c.sz(0, 5));
					for (auto& x : v)
						x = gen_sample<T>(c, mode);
					NOTE("construct " << i << " from " << v.size());
					if (v.size() == 1 && c.b())
						acc[i] = A{ v[0] };
					else
						acc[i] = A(v.begin(), v.end());
					mod[i].s = v;
					break;
				}
			}
			check_all<T>(c, "after the step", acc[i], mod[i], naive);
		}
		c.nontrivial(merged);
		c.cls(merged, "merged");
	}
	template <typename T>
	void hist(pbt::Case& c)
	{
		history<T, muu::accumulator<T>>(c, false);
	}
	template <typename T>
	void hist_naive(pbt::Case& c)
	{
		history<T, muu::accumulator<T, muu::impl::basic_accumulator<T>>>(c, true);
	}
	PROP_T("int8", 2000, 40000, (hist<int8_t>));
	PROP_T("uint8", 2000, 40000, (hist<uint8_t>));
	PROP_T("int16", 2000, 40000, (hist<int16_t>));
	PROP_T("uint16", 2000, 40000, (hist<uint16_t>));
	PROP_T("int", 2000, 40000, (hist<int>));
	PROP_T("unsigned", 2000, 40000, (hist<unsigned>));
	PROP_T("int64", 2000, 40000, (hist<int64_t>));
	PROP_T("uint64", 2000, 40000, (hist<uint64_t>));
	PROP_T("float", 4000, 80000, (hist<float>));
	PROP_T("double", 4000, 80000, (hist<double>));
	PROP_T("long double", 2000, 40000, (hist<long double>));
	PROP_T("half", 2000, 40000, (hist<half>));
	PROP_T("basic float", 2000, 40000, (hist_naive<float>));
	PROP_T("basic double", 2000, 40000, (hist_naive<double>));
#if MUU_HAS_FLOAT16
	PROP_T("_Float16", 2000, 40000, (hist<_Float16>));
#endif
#if MUU_HAS_FLOAT128
	PROP_T("float128", 1000, 20000, (hist<__float128>));
#endif
	PROP_T("vector<float,3>", 2000, 40000, (hist<muu::vector<float, 3>>));
	PROP_T("vector<double,1>", 1000, 20000, (hist<muu::vector<double, 1>>));
	PROP_T("vector<double,6>", 1000, 20000, (hist<muu::vector<double, 6>>));
	PROP_T("vector<int,2>", 1000, 20000, (hist<muu::vector<int, 2>>));
	PROP_T("vector<int8,4>", 1000, 20000, (hist<muu::vector<int8_t, 4>>));
	PROP_T("vector<uint16,5>", 1000, 20000, (hist<muu::vector<uint16_t, 5>>));
	PROP_T("vector<half,3>", 1000, 20000, (hist<muu::vector<half, 3>>));

	// long cancelling sequences: what compensation is for
	template <typename T>
	void cancelling(pbt::Case& c)
	{
		muu::accumulator<T> a;
		model<T> m;
		const size_t n = c.sz(2, 200);
		uint64_t state = c.raw(UINT64_MAX);
		auto next	   = [&] { return state = state * 6364136223846793005ull + 1442695040888963407ull, state >> 33; };
		const i128 bigv = static_cast<i128>(c.u(1, 1000)) << (sample_of<T>::sum_digits() > 40 ? 62 : 50);
		c.nontrivial(true);
		for (size_t i = 0; i < n; i++)
		{
			i128 u = static_cast<i128>(next() % 1000);
			if (i % 3 == 0)
				u = bigv;
			else if (i % 3 == 1)
				u = -bigv;
			const T v = sample_of<T>::from(u);
			a.add(v);
			m.s.push_back(v);
		}
		NOTE(n << " samples of up to " << sh(static_cast<big>(bigv)));
		check_all<T>(c, "cancelling", a, m, false);
		muu::accumulator<T> b{ m.s.begin(), m.s.begin() + static_cast<std::ptrdiff_t>(n / 2) }, d{ m.s.begin() + static_cast<std::ptrdiff_t>(n / 2), m.s.end() };
		b.add(d);
		check_all<T>(c, "cancelling halves", b, m, false);
	}
	PROP_T("cancelling float", 3000, 50000, (cancelling<float>));
	PROP_T("cancelling double", 3000, 50000, (cancelling<double>));
	PROP_T("cancelling long double", 1000, 20000, (cancelling<long double>));
}
