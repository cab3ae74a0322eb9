#include "utf.hpp"
#include "leak.hpp"
#include <muu/core.h>
#include <muu/string_param.h>
#include <muu/strings.h>
#include "ucd.inc"
#include <memory>
#include <optional>
using namespace utf;

namespace
{
	bool ws(char32_t c)
	{
		for (auto& r : ucd_whitespace)
			if (c >= r[0] && c <= r[1])
				return true;
		return false;
	}
	// no code unit in any encoding hints at swapped byte order, so transcoding is unambiguous (see utf_decode)
	char32_t gen_clear(pbt::Case& c)
	{
		char32_t v = c.raw(3) == 0 ? c.pick<char32_t>({ ' ', '\t', 0x2003, 0x3001, 0xA0, 0x85, 0x2029 }) : gen_scalar(c);
		if (v == 0)
			return v;
		auto bad = [](uint32_t u) { return (u & 0xFF) == 0; };
		if (bad(v))
			v++;
		if (v >= 0x10000 && (bad((v - 0x10000) / 1024) || bad((v - 0x10000) % 1024)))
			v = 0x1F601;
		if (v == 0xFEFF || v == 0xFFFE)
			v = 'b';
		return v;
	}
	cps gen_text(pbt::Case& c, bool with_nul)
	{
		cps v;
		// short strings are stored in place, long ones on the heap
		const size_t n = c.b() ? c.biased_size(6) : c.biased_size(40);
		for (size_t i = 0; i < n; i++)
		{
			auto x = gen_clear(c);
			if (!x && !with_nul)
				x = 'z';
			v.push_back(x);
		}
		return v;
	}

	enum kind
	{
		narrow,
		wide,
		u16,
		u32,
		u8,
		kinds
	};
	template <typename F>
	void with_char(int k, F&& f)
	{
		switch (k)
		{
			case narrow: f(char{}); break;
			case wide: f(wchar_t{}); break;
			case u16: f(char16_t{}); break;
			case u32: f(char32_t{}); break;
#if MUU_HAS_CHAR8_STRINGS
			default: f(char8_t{}); break;
#else
			default: f(char{}); break;
#endif
		}
	}
	template <typename C>
	constexpr int kind_of()
	{
		if constexpr (std::is_same_v<C, char>)
			return narrow;
		else if constexpr (std::is_same_v<C, wchar_t>)
			return wide;
		else if constexpr (std::is_same_v<C, char16_t>)
			return u16;
		else if constexpr (std::is_same_v<C, char32_t>)
			return u32;
		else
#ifdef LIB17
			return narrow; // a library built without char8_t keeps such text as char
#else
			return u8;
#endif
	}

	struct model
	{
		cps text;
		bool owning		= false;
		int kind		= narrow;
		const void* src = nullptr; // borrowed: where from
		bool loose		= false;   // given away: may have become empty
		void reset() { *this = {}; }
	};
	// any object convertible to a view (but not a string, view or pointer)
	template <typename C>
	struct viewable
	{
		const std::basic_string<C>* s;
		operator std::basic_string_view<C>() const noexcept { return *s; }
	};

	struct history
	{
		pbt::Case& c;
		std::vector<std::shared_ptr<void>> keep;
		std::optional<muu::string_param> p[4];
		model m[4];
		size_t moves = 0, convs = 0;

		template <typename C>
		std::basic_string<C>& borrowed(const std::basic_string<C>& s)
		{
			auto x = std::make_shared<std::basic_string<C>>(s);
			x->shrink_to_fit();
			keep.push_back(x);
			return *x;
		}

		void construct(size_t i)
		{
			const int k	  = static_cast<int>(c.raw(kinds - 1));
			const int how = static_cast<int>(c.raw(6));
			const bool z  = how == 4; // null-terminated pointer
			const auto t  = gen_text(c, !z);
			const int tgt = static_cast<int>(c.raw(1));
			with_char(k,
					  [&](auto ch)
					  {
						  using C		= decltype(ch);
						  const auto s	= encode<C>(t);
						  model n;
						  n.text = t;
						  n.kind = kind_of<C>();
						  auto put = [&](auto&&... a)
						  {
							  if (tgt == 0)
								  p[i].emplace(static_cast<decltype(a)&&>(a)...);
							  else
								  *p[i] = muu::string_param(static_cast<decltype(a)&&>(a)...);
						  };
						  NOTE("p" << i << (tgt ? " = " : " from ") << "kind " << k << " way " << how << " " << hex(t));
						  switch (how)
						  {
							  case 0:
							  {
								  auto& b = borrowed(s);
								  n.src	  = b.data();
								  put(std::basic_string_view<C>(b));
								  break;
							  }
							  case 1:
							  {
								  auto& b = borrowed(s);
								  n.src	  = b.data();
								  put(static_cast<const std::basic_string<C>&>(b));
								  break;
							  }
							  case 2:
							  {
								  auto& b = borrowed(s);
								  n.src	  = b.data();
								  put(static_cast<const C*>(b.data()), b.size());
								  break;
							  }
							  case 4:
							  {
								  auto& b = borrowed(s);
								  n.src	  = b.data();
								  put(static_cast<const C*>(b.c_str()));
								  break;
							  }
							  case 5:
							  {
								  auto& b = borrowed(s);
								  n.src	  = b.data();
								  put(viewable<C>{ &b });
								  break;
							  }
							  case 6:
								  switch (c.raw(2))
								  {
									  case 0: put(static_cast<const C*>(nullptr)); break;
									  case 1: put(static_cast<const C*>(nullptr), size_t{}); break;
									  default: put(); break;
								  }
								  n.text.clear();
								  break;
							  default:
							  {
								  auto tmp = s;
								  put(std::move(tmp));
								  n.owning = true;
								  break;
							  }
						  }
						  if (n.text.empty())
							  n.reset();
						  m[i] = n;
					  });
		}

		void check(size_t i)
		{
			const auto& q = *p[i];
			if (m[i].loose)
			{
				if (q.empty())
					m[i].reset();
				m[i].loose = false;
			}
			CHECK_EQ(q.empty(), m[i].text.empty(), "p" << i << " empty()");
			CHECK_EQ(static_cast<bool>(q), !m[i].text.empty(), "p" << i << " operator bool");
			CHECK_EQ(q.owning(), m[i].owning, "p" << i << " owning()");
		}

		template <typename C>
		void expect_view(size_t i, std::basic_string_view<C> v, const char* what)
		{
			const auto e = encode<C>(m[i].text);
			CHECK(v == e, what << " of p" << i << " is " << hex(std::basic_string<C>(v)) << ", expected " << hex(e));
			if (m[i].text.empty())
				return;
			if (m[i].kind != kind_of<C>())
			{ // had to be converted
				m[i].kind	= kind_of<C>();
				m[i].owning = true;
				m[i].src	= nullptr;
			}
			if (m[i].src)
				CHECK(v.data() == m[i].src, what << " of p" << i << " does not refer to the text it was given");
		}

		// printing views the text as the stream's character type
		template <typename C>
		void converted(size_t i)
		{
			if (!m[i].text.empty())
				expect_view<C>(i, static_cast<const muu::string_param&>(*p[i]), "view after printing");
		}
		void view(size_t i)
		{
			const int k = static_cast<int>(c.raw(kinds - 1));
			NOTE("view p" << i << " as kind " << k);
			with_char(k,
					  [&](auto ch)
					  {
						  using C = decltype(ch);
						  const std::basic_string_view<C> v = static_cast<const muu::string_param&>(*p[i]);
						  expect_view<C>(i, v, "view");
						  const auto v2 = static_cast<std::basic_string_view<C>>(static_cast<const muu::string_param&&>(*p[i]));
						  CHECK(v2 == v && v2.data() == v.data(), "viewing twice gives different views");
					  });
		}
		void take(size_t i)
		{
			const int k = static_cast<int>(c.raw(kinds - 1));
			NOTE("take p" << i << " as kind " << k);
			with_char(k,
					  [&](auto ch)
					  {
						  using C					   = decltype(ch);
						  const std::basic_string<C> s = std::move(*p[i]);
						  const auto e				   = encode<C>(m[i].text);
						  CHECK(s == e, "string of p" << i << " is " << hex(s) << ", expected " << hex(e));
						  m[i].loose = true;
#ifdef LIB17
						  if (k == u8 && m[i].kind != narrow && !m[i].text.empty())
						  { // goes through an in-place conversion to char
							  m[i].kind	  = narrow;
							  m[i].owning = true;
							  m[i].src	  = nullptr;
						  }
#endif
					  });
		}
		void print(size_t i)
		{
			NOTE("print p" << i);
			if (c.b())
			{
				std::ostringstream o;
				o << *p[i];
				const auto e = encode<char>(m[i].text);
				CHECK(o.str() == e, "printed p" << i << " as " << hex(o.str()) << ", expected " << hex(e));
				converted<char>(i);
			}
			else
			{
				std::wostringstream o;
				o << *p[i];
				const auto e = encode<wchar_t>(m[i].text);
				CHECK(o.str() == e, "printed p" << i << " as " << hex(o.str()) << ", expected " << hex(e));
				converted<wchar_t>(i);
			}
		}
		void trim(size_t i)
		{
			NOTE("trim p" << i);
			if (c.b())
				p[i]->trim();
			else
			{
				muu::string_param&& r = std::move(*p[i]).trim();
				CHECK(&r == &*p[i], "trim returns the object");
			}
			auto& t	 = m[i].text;
			size_t n = 0;
			size_t off = 0;
			while (n < t.size() && ws(t[n]))
			{
				with_char(m[i].kind, [&](auto ch) { off += units<decltype(ch)>(t[n]) * sizeof(ch); });
				n++;
			}
			t.erase(t.begin(), t.begin() + static_cast<ptrdiff_t>(n));
			while (!t.empty() && ws(t.back()))
				t.pop_back();
			if (t.empty())
				m[i].reset();
			else if (m[i].src)
				m[i].src = static_cast<const char*>(m[i].src) + off;
		}

		void run()
		{
			for (auto& x : p)
				x.emplace();
			const size_t steps = c.sz(1, 24);
			for (size_t s = 0; s < steps; s++)
			{
				const size_t i = c.sz(0, 3), j = c.sz(0, 3);
				switch (c.raw(8))
				{
					case 0:
					case 1: construct(i); break;
					case 2:
						NOTE("p" << i << " = move(p" << j << ")");
						*p[i] = std::move(*p[j]);
						moves++;
						if (i != j)
						{
							m[i] = m[j];
							m[j].reset();
						}
						break;
					case 3:
					{
						NOTE("p" << i << " move-constructed from p" << j);
						moves++;
						if (i == j)
						{
							muu::string_param tmp(std::move(*p[i]));
							CHECK(p[i]->empty(), "moved-from parameter is empty");
							p[i].emplace(std::move(tmp));
						}
						else
						{
							p[i].emplace(std::move(*p[j]));
							m[i] = m[j];
							m[j].reset();
						}
						break;
					}
					case 4: trim(i); break;
					case 5:
					case 6:
						view(i);
						convs++;
						break;
					case 7: take(i); break;
					default: print(i); break;
				}
				for (size_t k = 0; k < 4; k++)
					check(k);
			}
			for (size_t k = 0; k < 4; k++)
				with_char(m[k].kind, [&](auto ch) { expect_view<decltype(ch)>(k, static_cast<const muu::string_param&>(*p[k]), "final view"); });
		}
	};

	template <typename C>
	void bom_only(pbt::Case& c)
	{
		cps t{ 0xFEFF };
		if (c.b())
			t.push_back('a');
		const auto s = encode<C>(t);
		const bool own = c.b();
		const int k	   = static_cast<int>(c.raw(kinds - 1));
		NOTE("byte-order mark " << (own ? "owned" : "borrowed") << (t.size() > 1 ? " + a" : "") << " viewed as kind " << k);
		c.nontrivial();
		muu::string_param q = own ? muu::string_param{ std::basic_string<C>(s) } : muu::string_param{ s };
		with_char(k,
				  [&](auto ch)
				  {
					  using D						= decltype(ch);
					  const std::basic_string_view<D> v = q;
					  auto e						= encode<D>(t);
					  auto e2						= encode<D>(cps(t.begin() + 1, t.end()));
					  CHECK(v == e || v == e2, "got " << hex(std::basic_string<D>(v)));
				  });
		q.trim();
		with_char(k, [&](auto ch) { [[maybe_unused]] std::basic_string<decltype(ch)> x = std::move(q); });
	}
}
PROP(histories, 60000, 1500000)
{
	// notes (written on replay only) allocate too
	const auto before = leak::live.load();
	const auto notes  = c.verbose;
	size_t moves = 0, convs = 0;
	{
		history h{ c, {}, {}, {} };
		h.run();
		moves = h.moves;
		convs = h.convs;
	}
	const auto lost = leak::live.load() - before;
	CHECK(notes ? lost <= 2 : lost == 0, "history leaked " << lost << " allocations");
	c.nontrivial(moves > 0 && convs > 0);
	c.cls(moves > 0, "with moves");
	c.cls(convs > 0, "with conversions");
}
PROP_T("byte-order mark char", 400, 400, (bom_only<char>));
PROP_T("byte-order mark char16_t", 400, 400, (bom_only<char16_t>));
PROP_T("byte-order mark char32_t", 400, 400, (bom_only<char32_t>));
PROP_T("byte-order mark wchar_t", 400, 400, (bom_only<wchar_t>));
