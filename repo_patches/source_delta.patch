From 77986abc2c06a3a234b3c779cc1ce7eb373e6783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:51 +0000
Subject: [PATCH 01/99] fix: byte_select(val, index) returns 0 for index ==
 sizeof(val)

---
 include/muu/bit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/bit.h b/include/muu/bit.h
index bfca4d7..3aa8464 100644
--- a/include/muu/bit.h
+++ b/include/muu/bit.h
@@ -154,7 +154,7 @@ namespace muu
 	{
 		static_assert(!is_cvref<T>);
 
-		if (index > sizeof(T))
+		if (index >= sizeof(T))
 			return uint8_t{};
 
 		if constexpr (std::is_enum_v<T>)
-- 
2.43.0


From 6dda2ba86147e2b9db02a4bc5880ef91dc2470c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:51 +0000
Subject: [PATCH 02/99] fix: bit_pack accepts a mix of enum and integer
 arguments

---
 include/muu/bit_pack.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/muu/bit_pack.h b/include/muu/bit_pack.h
index 8739e6e..6d7cb2e 100644
--- a/include/muu/bit_pack.h
+++ b/include/muu/bit_pack.h
@@ -53,9 +53,9 @@ namespace muu
 		if constexpr (any_enum<return_type, T, U, V...>)
 		{
 			return static_cast<return_type>(
-				bit_pack<remove_enum<return_type>>(static_cast<std::underlying_type_t<T>>(val1),
-												   static_cast<std::underlying_type_t<U>>(val2),
-												   static_cast<std::underlying_type_t<V>>(vals)...));
+				bit_pack<remove_enum<return_type>>(static_cast<remove_enum<T>>(val1),
+												   static_cast<remove_enum<U>>(val2),
+												   static_cast<remove_enum<V>>(vals)...));
 		}
 		else if constexpr (any_signed<return_type, T, U, V...>)
 		{
-- 
2.43.0


From 19ef9abbb30c3b349e1b5df82bfd5d32377b461d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 03/99] fix: between() with an unsigned value and a negative
 lower bound

---
 include/muu/impl/core_utils.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/muu/impl/core_utils.h b/include/muu/impl/core_utils.h
index f8b72c1..447cb6b 100644
--- a/include/muu/impl/core_utils.h
+++ b/include/muu/impl/core_utils.h
@@ -124,6 +124,8 @@ namespace muu
 				{
 					if (high < rhs{})
 						return false;
+					if (low < rhs{})
+						return between(val, rhs{}, high);
 				}
 				if constexpr (!std::is_same_v<lhs, rhs>)
 				{
-- 
2.43.0


From 417febbc438d68cf4049433bdf8fac0a8c22f57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:02 +0000
Subject: [PATCH 04/99] fix: utf16_decoder combines surrogate pairs

---
 include/muu/utf16_decoder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/utf16_decoder.h b/include/muu/utf16_decoder.h
index 2d79e02..b74b437 100644
--- a/include/muu/utf16_decoder.h
+++ b/include/muu/utf16_decoder.h
@@ -90,7 +90,7 @@ namespace muu
 				case unwrap(high_surrogate) | ds_initial: [[fallthrough]];
 				case unwrap(high_surrogate) | ds_has_codepoint:
 					codepoint = static_cast<uint_least32_t>(code_unit); // will get multiplexed in the next step
-					state	  = ds_has_codepoint;
+					state	  = ds_expecting_low_surrogate;
 					return;
 
 				case unwrap(low_surrogate) | ds_expecting_low_surrogate:
-- 
2.43.0


From cf4eb33d386429608d86d75019568cd49effff0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:13 +0000
Subject: [PATCH 05/99] fix: utf_decode assumes platform endianness when the
 data does not suggest otherwise

---
 include/muu/utf_decode.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/muu/utf_decode.h b/include/muu/utf_decode.h
index 3fab110..1600ec6 100644
--- a/include/muu/utf_decode.h
+++ b/include/muu/utf_decode.h
@@ -59,9 +59,9 @@ namespace muu::impl
 			high += static_cast<int>(byte_select<sizeof(T) - 1u>(*c) == uint8_t{});
 		}
 		if constexpr (build::is_big_endian)
-			return low > high;
+			return low >= high;
 		else
-			return high > low;
+			return high >= low;
 	}
 }
 /// \endcond
-- 
2.43.0


From d8d318c59a37d67aa2322ecd2e3bb42473cc7743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:37 +0000
Subject: [PATCH 06/99] fix: utf_decode reports every code unit of truncated
 and malformed sequences

---
 include/muu/utf_decode.h | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/include/muu/utf_decode.h b/include/muu/utf_decode.h
index 1600ec6..c4b3a3d 100644
--- a/include/muu/utf_decode.h
+++ b/include/muu/utf_decode.h
@@ -171,6 +171,10 @@ namespace muu
 						!impl::utf_detect_platform_endian(str.data(), str.data() + min(str.length(), 16_sz));
 			}
 
+			// code units that aren't part of a valid sequence are reported as-is
+			const auto get_invalid = [&](size_t idx) noexcept
+			{ return static_cast<char32_t>(static_cast<unsigned_integer<sizeof(T) * CHAR_BIT>>(get(idx))); };
+
 			impl::utf_decoder<T> decoder;
 			if (reverse)
 			{
@@ -180,7 +184,7 @@ namespace muu
 				while (cp_start-- > data_start && !stop)
 				{
 					cu_count++;
-					if (cu_count == max_cu_count || is_code_point_boundary(get(cp_start)))
+					if (cu_count == max_cu_count || cp_start == data_start || is_code_point_boundary(get(cp_start)))
 					{
 						for (size_t i = cp_start, e = cp_start + cu_count; i < e; i++)
 						{
@@ -191,12 +195,11 @@ namespace muu
 
 						if (decoder.has_value())
 							stop = stop_after_invoking(static_cast<Func&&>(func), decoder.value(), cp_start, cu_count);
-						else if (decoder.error())
+						else
 						{
-							decoder.clear_error();
+							decoder = {};
 							for (size_t i = cp_start + cu_count; i-- > cp_start && !stop;)
-								stop =
-									stop_after_invoking(static_cast<Func&&>(func), static_cast<char32_t>(get(i)), i, 1);
+								stop = stop_after_invoking(static_cast<Func&&>(func), get_invalid(i), i, 1);
 						}
 						cu_count = {};
 					}
@@ -204,7 +207,9 @@ namespace muu
 			}
 			else
 			{
-				for (size_t i = data_start, e = str.length(), cp_start = data_start, cu_count = 0; i < e && !stop; i++)
+				size_t cp_start = data_start;
+				size_t cu_count = {};
+				for (size_t i = data_start, e = str.length(); i < e && !stop; i++)
 				{
 					cu_count++;
 					decoder(get(i));
@@ -218,11 +223,18 @@ namespace muu
 					{
 						decoder.clear_error();
 						for (size_t j = cp_start, je = cp_start + cu_count; j < je && !stop; j++)
-							stop = stop_after_invoking(static_cast<Func&&>(func), static_cast<char32_t>(get(j)), j, 1);
+							stop = stop_after_invoking(static_cast<Func&&>(func), get_invalid(j), j, 1);
 						cp_start = i + 1u;
 						cu_count = {};
 					}
 				}
+
+				// trailing incomplete sequence
+				if (decoder.needs_more_input())
+				{
+					for (size_t j = cp_start, je = str.length(); j < je && !stop; j++)
+						stop = stop_after_invoking(static_cast<Func&&>(func), get_invalid(j), j, 1);
+				}
 			}
 		}
 	}
-- 
2.43.0


From 052c27bfc9a3ee0e9222dc75bb4ea7b726caf800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:56 +0000
Subject: [PATCH 07/99] fix: transcode preserves embedded null characters

---
 include/muu/strings.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/muu/strings.h b/include/muu/strings.h
index c870eaa..469561e 100644
--- a/include/muu/strings.h
+++ b/include/muu/strings.h
@@ -79,6 +79,7 @@ namespace muu
 		  private:
 			static_assert(sizeof(T) == 1);
 			T code_units[4] = {};
+			size_t length	= {};
 
 		  public:
 			MUU_NODISCARD_CTOR
@@ -87,17 +88,20 @@ namespace muu
 				if (cp <= 0x7Fu)
 				{
 					code_units[0] = static_cast<T>(cp);
+					length		  = 1;
 				}
 				else if (cp <= 0x7FFu)
 				{
 					code_units[0] = static_cast<T>((cp >> 6) | 0xC0u);
 					code_units[1] = static_cast<T>((cp & 0x3Fu) | 0x80u);
+					length		  = 2;
 				}
 				else if (cp <= 0xFFFFu)
 				{
 					code_units[0] = static_cast<T>((cp >> 12) | 0xE0u);
 					code_units[1] = static_cast<T>(((cp >> 6) & 0x3Fu) | 0x80u);
 					code_units[2] = static_cast<T>((cp & 0x3Fu) | 0x80u);
+					length		  = 3;
 				}
 				else if (cp <= 0x10FFFFu)
 				{
@@ -105,6 +109,7 @@ namespace muu
 					code_units[1] = static_cast<T>(((cp >> 12) & 0x3Fu) | 0x80u);
 					code_units[2] = static_cast<T>(((cp >> 6) & 0x3Fu) | 0x80u);
 					code_units[3] = static_cast<T>((cp & 0x3Fu) | 0x80u);
+					length		  = 4;
 				}
 			}
 
@@ -116,8 +121,7 @@ namespace muu
 			MUU_PURE_INLINE_GETTER
 			constexpr std::basic_string_view<T> view() const noexcept
 			{
-				return code_units[3] ? std::basic_string_view<T>{ code_units, 4_sz }
-									 : std::basic_string_view<T>{ code_units };
+				return std::basic_string_view<T>{ code_units, length };
 			}
 
 			MUU_PURE_INLINE_GETTER
@@ -133,6 +137,7 @@ namespace muu
 		  private:
 			static_assert(sizeof(T) == 2);
 			T code_units[2] = {};
+			size_t length	= {};
 
 		  public:
 			MUU_NODISCARD_CTOR
@@ -141,12 +146,14 @@ namespace muu
 				if (cp < 0x10000u)
 				{
 					code_units[0] = static_cast<T>(cp);
+					length		  = 1;
 				}
 				else
 				{
 					cp -= 0x10000u;
 					code_units[0] = static_cast<T>(static_cast<uint16_t>(0xD800u | (cp >> 10)));	// high
 					code_units[1] = static_cast<T>(static_cast<uint16_t>(0xDC00u | (cp & 0x3FFu))); // low
+					length		  = 2;
 				}
 			}
 
@@ -158,8 +165,7 @@ namespace muu
 			MUU_PURE_INLINE_GETTER
 			constexpr std::basic_string_view<T> view() const noexcept
 			{
-				return code_units[1] ? std::basic_string_view<T>{ code_units, 2_sz }
-									 : std::basic_string_view<T>{ code_units };
+				return std::basic_string_view<T>{ code_units, length };
 			}
 
 			MUU_PURE_INLINE_GETTER
-- 
2.43.0


From c8c8cb39f06cff220c6f5cc113ac7b352e4b68ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:44 +0000
Subject: [PATCH 08/99] fix: is_whitespace, is_hyphen and is_uppercase reached
 MUU_UNREACHABLE for some characters

---
 include/muu/impl/unicode_char16_t.h | 6 +++---
 include/muu/impl/unicode_char32_t.h | 6 +++---
 tools/generate_unicode_functions.py | 3 +++
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/muu/impl/unicode_char16_t.h b/include/muu/impl/unicode_char16_t.h
index 21c4fdb..6cf4f97 100644
--- a/include/muu/impl/unicode_char16_t.h
+++ b/include/muu/impl/unicode_char16_t.h
@@ -143,7 +143,7 @@ namespace muu
 		{
 			case 0x07: return c >= u'\u2010' && c <= u'\u2011';
 			case 0x3F: return c == u'\uFE63' || c == u'\uFF0D' || c == u'\uFF65';
-			default: MUU_UNREACHABLE;
+			default: return false;
 		}
 		
 		MUU_UNREACHABLE;
@@ -872,7 +872,7 @@ namespace muu
 					case 0x00: return c <= u'\u213F' && (1ull << (static_cast<uint_least64_t>(c) - 0x2102ull)) & 0x3003CF540F89CE21ull;
 					case 0x01: return c >= u'\u2145' && c <= u'\u216F'
 						&& (1ull << (static_cast<uint_least64_t>(c) - 0x2145ull)) & 0x7FFF8000001ull;
-					default: MUU_UNREACHABLE;
+					default: return false;
 				}
 				
 				MUU_UNREACHABLE;
@@ -967,7 +967,7 @@ namespace muu
 				return c == u'\u205F'
 					|| (c <= u'\u202F' && (1ull << (static_cast<uint_least64_t>(c) - 0x2000ull)) & 0x8300000007FFull);
 			}
-			default: MUU_UNREACHABLE;
+			default: return false;
 		}
 		
 		MUU_UNREACHABLE;
diff --git a/include/muu/impl/unicode_char32_t.h b/include/muu/impl/unicode_char32_t.h
index 5152c8f..5cf8ba8 100644
--- a/include/muu/impl/unicode_char32_t.h
+++ b/include/muu/impl/unicode_char32_t.h
@@ -143,7 +143,7 @@ namespace muu
 		{
 			case 0x07: return c >= U'\u2010' && c <= U'\u2011';
 			case 0x3F: return c == U'\uFE63' || c == U'\uFF0D' || c == U'\uFF65';
-			default: MUU_UNREACHABLE;
+			default: return false;
 		}
 		
 		MUU_UNREACHABLE;
@@ -1007,7 +1007,7 @@ namespace muu
 					case 0x00: return c <= U'\u213F' && (1ull << (static_cast<uint_least64_t>(c) - 0x2102ull)) & 0x3003CF540F89CE21ull;
 					case 0x01: return c >= U'\u2145' && c <= U'\u216F'
 						&& (1ull << (static_cast<uint_least64_t>(c) - 0x2145ull)) & 0x7FFF8000001ull;
-					default: MUU_UNREACHABLE;
+					default: return false;
 				}
 				
 				MUU_UNREACHABLE;
@@ -1102,7 +1102,7 @@ namespace muu
 				return c == U'\u205F'
 					|| (c <= U'\u202F' && (1ull << (static_cast<uint_least64_t>(c) - 0x2000ull)) & 0x8300000007FFull);
 			}
-			default: MUU_UNREACHABLE;
+			default: return false;
 		}
 		
 		MUU_UNREACHABLE;
diff --git a/tools/generate_unicode_functions.py b/tools/generate_unicode_functions.py
index 8ea6ccf..08847fc 100644
--- a/tools/generate_unicode_functions.py
+++ b/tools/generate_unicode_functions.py
@@ -1118,6 +1118,9 @@ class CodepointChunk:
 							'\n' if c.has_expression() else '\n\t}\n',
 						)
 						emitted += 1
+					# a child that was hoisted out as a simple equality check still gets here for all its other values
+					if default is None and emittables_simple_equality:
+						default = False
 					s += '\tdefault: {};\n'.format(rf'{G.macro_prefix}UNREACHABLE' if default is None else 'return '+str(default).lower())
 					s += "}"
 					if (emitted <= 1):
-- 
2.43.0


From b970cf09cdc670ad38b52bcd1c6363fae6291cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:54 +0000
Subject: [PATCH 09/99] fix: moving and trimming empty string_params was
 undefined behaviour

---
 src/string_param.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/string_param.cpp b/src/string_param.cpp
index d8948ac..4cddba4 100644
--- a/src/string_param.cpp
+++ b/src/string_param.cpp
@@ -220,8 +220,6 @@ namespace
 	template <typename T, typename Func>
 	static void visit(T& storage, uint8_t mode_, Func&& fn) noexcept
 	{
-		MUU_ASSUME(mode_ > uint8_t{});
-
 		switch (mode_)
 		{
 			case unwrap(mode::none): break;
@@ -247,8 +245,6 @@ namespace
 	template <typename T, typename Func>
 	static void visit(T& storage1, T& storage2, uint8_t mode_, Func&& fn) noexcept
 	{
-		MUU_ASSUME(mode_ > uint8_t{});
-
 		switch (mode_)
 		{
 			case unwrap(mode::none): break;
-- 
2.43.0


From eb251e85f5638767fe4d1aa93d8d14ed136c4f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:54 +0000
Subject: [PATCH 10/99] fix: string_param destroys the moved-from string when a
 move changes mode

---
 src/string_param.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/string_param.cpp b/src/string_param.cpp
index 4cddba4..41e44e1 100644
--- a/src/string_param.cpp
+++ b/src/string_param.cpp
@@ -447,7 +447,13 @@ string_param& string_param::operator=(string_param&& rhs_) noexcept
 		if (mode_)
 			destroy(storage_, mode_);
 
-		visit(rhs_.storage_, rhs_.mode_, [this](auto& rhs) noexcept { initialize(storage_, mode_, MUU_MOVE(rhs)); });
+		visit(rhs_.storage_,
+			  rhs_.mode_,
+			  [this](auto& rhs) noexcept
+			  {
+				  initialize(storage_, mode_, MUU_MOVE(rhs));
+				  call_destructor(rhs);
+			  });
 	}
 	rhs_.mode_ = {};
 	return *this;
-- 
2.43.0


From aa83a9b9e074d4348461a166e03938c51acc5419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:54 +0000
Subject: [PATCH 11/99] fix: converting a string_param holding only a
 byte-order mark dereferenced null

---
 src/string_param.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/string_param.cpp b/src/string_param.cpp
index 41e44e1..3a1f147 100644
--- a/src/string_param.cpp
+++ b/src/string_param.cpp
@@ -512,7 +512,9 @@ namespace
 				  {
 					  auto new_str = transcode<Char>(str);
 					  call_destructor(str);
-					  out = *initialize(storage_, mode_, MUU_MOVE(new_str));
+					  mode_ = {};
+					  if (const auto owned = initialize(storage_, mode_, MUU_MOVE(new_str)))
+						  out = *owned;
 				  }
 			  });
 		return out;
-- 
2.43.0


From 9dcf93ffaec89b2607d5e9de6a4492cf430fa500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:48 +0000
Subject: [PATCH 12/99] fix: fixed_string::compare of a string with itself
 returned 1

---
 include/muu/fixed_string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/fixed_string.h b/include/muu/fixed_string.h
index 1761175..548b4c8 100644
--- a/include/muu/fixed_string.h
+++ b/include/muu/fixed_string.h
@@ -771,7 +771,7 @@ namespace muu
 				if constexpr (Length == Len)
 				{
 					if (&lhs == &rhs)
-						return true;
+						return 0;
 
 					return traits_type::compare(lhs._chars_, rhs.c_str(), Length);
 				}
-- 
2.43.0


From db0d05bc77f218555231d744b205d4320893678b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:48 +0000
Subject: [PATCH 13/99] fix: fixed_string::compare member is const

---
 include/muu/fixed_string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/fixed_string.h b/include/muu/fixed_string.h
index 548b4c8..09e8730 100644
--- a/include/muu/fixed_string.h
+++ b/include/muu/fixed_string.h
@@ -807,7 +807,7 @@ namespace muu
 		/// \brief	Returns the lexicographical ordering of this string with respect to another.
 		template <size_t Len>
 		MUU_PURE_GETTER
-		constexpr int compare(const fixed_string<value_type, Len>& rhs) noexcept
+		constexpr int compare(const fixed_string<value_type, Len>& rhs) const noexcept
 		{
 			return compare(*this, rhs);
 		}
-- 
2.43.0


From f14b62542d2c6f3650eed725829b8a0b959d682e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:48 +0000
Subject: [PATCH 14/99] fix: fixed_string::substr and slice with the lowest
 value of a narrow index type

---
 include/muu/fixed_string.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/muu/fixed_string.h b/include/muu/fixed_string.h
index 09e8730..0bd0d76 100644
--- a/include/muu/fixed_string.h
+++ b/include/muu/fixed_string.h
@@ -631,10 +631,7 @@ namespace muu
 				{
 					if (idx < T{})
 					{
-						if (idx == constants<T>::lowest)
-							return 0_sz;
-
-						const auto abs_uidx = static_cast<size_t>(-idx);
+						const auto abs_uidx = 0_sz - static_cast<size_t>(idx);
 						if (abs_uidx >= Length)
 							return 0_sz;
 						else
-- 
2.43.0


From 3906b21aca2ef922190f5e9ac26c5a8560752c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:48 +0000
Subject: [PATCH 15/99] fix: fixed_string ordering of equal-length strings is
 consistent with compare()

---
 include/muu/fixed_string.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/muu/fixed_string.h b/include/muu/fixed_string.h
index 0bd0d76..87a9c60 100644
--- a/include/muu/fixed_string.h
+++ b/include/muu/fixed_string.h
@@ -842,7 +842,10 @@ namespace muu
 		}
 
 	#if MUU_HAS_THREE_WAY_COMPARISON
-		friend constexpr auto operator<=>(const fixed_string&, const fixed_string&) noexcept = default;
+		friend constexpr std::strong_ordering operator<=>(const fixed_string& lhs, const fixed_string& rhs) noexcept
+		{
+			return compare(lhs, rhs) <=> 0;
+		}
 	#endif
 
 		/// @}
-- 
2.43.0


From cbbd7f3941044c068545dd6a3840949e474418ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:36 +0000
Subject: [PATCH 16/99] fix: sha1 and fnv1a can be printed to wide streams

---
 include/muu/hashing.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/muu/hashing.h b/include/muu/hashing.h
index b77e962..606b072 100644
--- a/include/muu/hashing.h
+++ b/include/muu/hashing.h
@@ -268,7 +268,7 @@ namespace muu
 		friend std::basic_ostream<Char, Traits>& operator<<(std::basic_ostream<Char, Traits>& lhs, const fnv1a& rhs)
 		{
 			for (unsigned i = sizeof(value_); i-- > 0u;)
-				lhs << byte_to_hex(byte_select(rhs.value_, i));
+				lhs << byte_to_hex(byte_select(rhs.value_, i), constants<Char>::letter_a);
 			return lhs;
 		}
 	};
@@ -410,7 +410,7 @@ namespace muu
 		friend std::basic_ostream<Char, Traits>& operator<<(std::basic_ostream<Char, Traits>& lhs, const sha1& rhs)
 		{
 			for (auto byte : rhs.value().value)
-				lhs << byte_to_hex(unwrap(byte));
+				lhs << byte_to_hex(unwrap(byte), constants<Char>::letter_a);
 			return lhs;
 		}
 	};
-- 
2.43.0


From 4b74263548f9180f06b1ad8af68bd83276dfd800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:48 +0000
Subject: [PATCH 17/99] fix: apply_alignment<Alignment>() accepts enums

---
 include/muu/apply_alignment.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/apply_alignment.h b/include/muu/apply_alignment.h
index 648335f..a936337 100644
--- a/include/muu/apply_alignment.h
+++ b/include/muu/apply_alignment.h
@@ -30,7 +30,7 @@ namespace muu
 
 		if constexpr (std::is_enum_v<T>)
 		{
-			return static_cast<T>(apply_alignment(static_cast<std::underlying_type_t<T>>(val)));
+			return static_cast<T>(apply_alignment<Alignment>(static_cast<std::underlying_type_t<T>>(val)));
 		}
 		else
 		{
-- 
2.43.0


From 1dcbf378be812c36054c50422bd9363f5b6a9700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:48 +0000
Subject: [PATCH 18/99] fix: aligned_alloc returned a tiny block for sizes
 close to SIZE_MAX

---
 include/muu/aligned_alloc.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/muu/aligned_alloc.h b/include/muu/aligned_alloc.h
index 83a0e65..a682e76 100644
--- a/include/muu/aligned_alloc.h
+++ b/include/muu/aligned_alloc.h
@@ -36,7 +36,9 @@ namespace muu
 		MUU_ASSUME(static_cast<size_t>(alignment));
 
 		alignment = alignment > impl::aligned_alloc_min_align ? alignment : impl::aligned_alloc_min_align;
-		size	  = (size + alignment - 1u) & ~(alignment - 1u);
+		if (size > static_cast<size_t>(-1) - (alignment - 1u)) // rounding up would overflow
+			return nullptr;
+		size = (size + alignment - 1u) & ~(alignment - 1u);
 
 #if MUU_WINDOWS
 		return muu::assume_aligned<impl::aligned_alloc_min_align>(_aligned_malloc(size, alignment));
-- 
2.43.0


From 92675650ddccc44d9b1c6a6738baba1e6d3baf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:48 +0000
Subject: [PATCH 19/99] fix: blob::assign read freed memory when the source was
 part of the blob

---
 include/muu/blob.h | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/include/muu/blob.h b/include/muu/blob.h
index 0c0bc31..4bc83ea 100644
--- a/include/muu/blob.h
+++ b/include/muu/blob.h
@@ -111,23 +111,28 @@ namespace muu
 			{
 				new_align = alignment_;
 
-				resize(sz); // no-op if the same size as current
-				MUU_ASSERT(size_ == sz);
+				if (!src || sz == size_)
+				{
+					resize(sz); // no-op if the same size as current
+					MUU_ASSERT(size_ == sz);
 
-				if (src && data_ && src != data_)
-					MUU_MEMCPY(data_, src, size_);
+					if (src && data_ && src != data_)
+						MUU_MEMCPY(data_, src, size_);
 
-				return *this;
+					return *this;
+				}
 			}
 
-			// changing alignment; must deallocate and reallocate
-			if (data_)
-				aligned_free(data_);
-			alignment_ = new_align;
-			size_	   = sz;
-			data_	   = size_ ? aligned_alloc(size_, alignment_) : nullptr;
+			// changing size or alignment; must reallocate, and only then deallocate
+			// (the source may be part of the current data)
+			const auto old_data = data_;
+			alignment_			= new_align;
+			size_				= sz;
+			data_				= size_ ? aligned_alloc(size_, alignment_) : nullptr;
 			if (src && data_)
 				MUU_MEMCPY(data_, src, size_);
+			if (old_data)
+				aligned_free(old_data);
 			return *this;
 		}
 
-- 
2.43.0


From df30a033b3a70354cce0284dff3ac3d3581517bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:48 +0000
Subject: [PATCH 20/99] fix: emplacement_array self-move-assignment destroyed
 the elements

---
 include/muu/emplacement_array.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/muu/emplacement_array.h b/include/muu/emplacement_array.h
index 287ec81..5febfde 100644
--- a/include/muu/emplacement_array.h
+++ b/include/muu/emplacement_array.h
@@ -140,13 +140,16 @@ namespace muu
 		/// \brief Move-assignment operator.
 		emplacement_array& operator=(emplacement_array&& rhs) noexcept
 		{
-			release();
-			count_		  = rhs.count_;
-			capacity_	  = rhs.capacity_;
-			storage_	  = rhs.storage_;
-			rhs.count_	  = 0;
-			rhs.capacity_ = 0;
-			rhs.storage_  = nullptr;
+			if (&rhs != this)
+			{
+				release();
+				count_		  = rhs.count_;
+				capacity_	  = rhs.capacity_;
+				storage_	  = rhs.storage_;
+				rhs.count_	  = 0;
+				rhs.capacity_ = 0;
+				rhs.storage_  = nullptr;
+			}
 			return *this;
 		}
 
-- 
2.43.0


From 40a5992db1d0b97564f02f54af61e247a5c1e435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:06 +0000
Subject: [PATCH 21/99] fix: iterating or taking data() of an emplacement_array
 without storage was undefined behaviour

---
 include/muu/emplacement_array.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/muu/emplacement_array.h b/include/muu/emplacement_array.h
index 5febfde..d3c7314 100644
--- a/include/muu/emplacement_array.h
+++ b/include/muu/emplacement_array.h
@@ -36,14 +36,12 @@ namespace muu
 		std::byte* storage_ = nullptr;
 
 		MUU_PURE_INLINE_GETTER
-		MUU_ATTR(returns_nonnull)
 		T* ptr(size_t index) noexcept
 		{
 			return MUU_LAUNDER(reinterpret_cast<T*>(storage_ + index * sizeof(T)));
 		}
 
 		MUU_PURE_INLINE_GETTER
-		MUU_ATTR(returns_nonnull)
 		const T* ptr(size_t index) const noexcept
 		{
 			return MUU_LAUNDER(reinterpret_cast<const T*>(storage_ + index * sizeof(T)));
-- 
2.43.0


From 64153ae66eff888b3a86321069148c4069324504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:45 +0000
Subject: [PATCH 22/99] fix: negative tags narrower than the tag bits overwrote
 a tagged_ptr's address

---
 include/muu/tagged_ptr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/muu/tagged_ptr.h b/include/muu/tagged_ptr.h
index 677bbb9..0063d5f 100644
--- a/include/muu/tagged_ptr.h
+++ b/include/muu/tagged_ptr.h
@@ -206,7 +206,7 @@ namespace muu::impl
 					}
 					else
 					{
-						return pack_ptr(ptr) | static_cast<uintptr_t>(tag);
+						return pack_ptr(ptr) | (static_cast<uintptr_t>(tag) & tag_mask);
 					}
 				}
 				else // some pod type
@@ -259,7 +259,7 @@ namespace muu::impl
 			}
 			else
 			{
-				return (bits & ptr_mask) | static_cast<uintptr_t>(tag);
+				return (bits & ptr_mask) | (static_cast<uintptr_t>(tag) & tag_mask);
 			}
 		}
 
-- 
2.43.0


From d8671efd77c0d9acac048f3d9e74310b5ca6dd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:01 +0000
Subject: [PATCH 23/99] fix: copying a non-const or rvalue function_view made a
 view of the view instead of a copy

---
 include/muu/function_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/function_view.h b/include/muu/function_view.h
index 319ecd6..7aee53f 100644
--- a/include/muu/function_view.h
+++ b/include/muu/function_view.h
@@ -222,7 +222,7 @@ namespace muu
 		/// \tparam	F	 	A function, lambda or other callable type with a signature compatible with #func_type.
 		///
 		/// \param 	func	The callable to view/invoke.
-		template <typename F>
+		MUU_CONSTRAINED_TEMPLATE((!std::is_same_v<remove_cvref<F>, function_view>), typename F)
 		MUU_NODISCARD_CTOR
 		/* implicit */ constexpr function_view(F&& func) noexcept //
 			: base{ static_cast<F&&>(func) }
-- 
2.43.0


From 93ca0553ced66d6c4bd59d1e322abaa9ad3080aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:01 +0000
Subject: [PATCH 24/99] fix: function_view called the wrong overload of const
 or lvalue stateless callables

---
 include/muu/function_view.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/muu/function_view.h b/include/muu/function_view.h
index 7aee53f..138f9e3 100644
--- a/include/muu/function_view.h
+++ b/include/muu/function_view.h
@@ -93,7 +93,8 @@ namespace muu
 								  function_view_forwarding_arg<Args>... args) noexcept(is_nothrow_invocable<Func>)
 						-> decltype(auto) //
 					{					  //
-						return remove_cvref<U>{}(static_cast<function_view_forwarding_arg<Args>>(args)...);
+						std::remove_reference_t<U> callable{};
+						return static_cast<U&&>(callable)(static_cast<function_view_forwarding_arg<Args>>(args)...);
 					};
 				}
 
-- 
2.43.0


From 8baa74f7177fb67cea0a6bb39c82314fc38f67c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:48 +0000
Subject: [PATCH 25/99] fix: function_view of a function with std:: parameter
 types did not compile in C++20

---
 include/muu/function_view.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/muu/function_view.h b/include/muu/function_view.h
index 138f9e3..3f20e15 100644
--- a/include/muu/function_view.h
+++ b/include/muu/function_view.h
@@ -111,13 +111,13 @@ namespace muu
 					static_assert(std::is_function_v<func_type>);
 					static_assert(!is_cvref<func_type>);
 
-					payload_ = bit_cast<function_view_payload>(static_cast<func_type*>(func));
+					payload_ = muu::bit_cast<function_view_payload>(static_cast<func_type*>(func));
 
 					invoker_ = [](function_view_payload& payload,												   //
 								  function_view_forwarding_arg<Args>... args) noexcept(is_nothrow_invocable<Func>) //
 						-> decltype(auto)																		   //
 					{																							   //
-						return bit_cast<func_type*>(payload)(static_cast<function_view_forwarding_arg<Args>>(args)...);
+						return muu::bit_cast<func_type*>(payload)(static_cast<function_view_forwarding_arg<Args>>(args)...);
 					};
 				}
 
@@ -127,7 +127,7 @@ namespace muu
 					static_assert(!std::is_pointer_v<remove_cvref<U>>); // data pointers aren't callable
 					static_assert(!std::is_function_v<std::remove_pointer_t<remove_cvref<U>>>); // covered above
 
-					payload_ = bit_cast<function_view_payload>(std::addressof(func));
+					payload_ = muu::bit_cast<function_view_payload>(std::addressof(func));
 
 					invoker_ = [](function_view_payload& payload,												   //
 								  function_view_forwarding_arg<Args>... args) noexcept(is_nothrow_invocable<Func>) //
@@ -135,7 +135,7 @@ namespace muu
 					{																							   //
 						using ptr = std::add_pointer_t<std::remove_reference_t<U>>;
 
-						return static_cast<U&&>(*bit_cast<ptr>(payload))(
+						return static_cast<U&&>(*muu::bit_cast<ptr>(payload))(
 							static_cast<function_view_forwarding_arg<Args>>(args)...);
 					};
 				}
-- 
2.43.0


From 9e47b21676a2764c07972038627223be4874e84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:57 +0000
Subject: [PATCH 26/99] fix: a static span could be made from a static span of
 any other extent

---
 include/muu/span.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/span.h b/include/muu/span.h
index 6ef8a28..32a94ee 100644
--- a/include/muu/span.h
+++ b/include/muu/span.h
@@ -283,7 +283,7 @@ namespace muu::impl
 		{}
 
 		// `explicit` when #extent != #dynamic_extent && E == #dynamic_extent.
-		MUU_CONSTRAINED_TEMPLATE((E != dynamic_extent									   //
+		MUU_CONSTRAINED_TEMPLATE((E == Extent_											   //
 								  && impl::is_qualifier_conversion_only<U, element_type>), //
 								 typename U,
 								 size_t E,
-- 
2.43.0


From 60bc316b9c23a5dd1a1484da56eb9c3aa0eeb30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:11 +0000
Subject: [PATCH 27/99] fix: a span of const elements converted to a span of
 mutable ones

---
 include/muu/span.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/muu/span.h b/include/muu/span.h
index 32a94ee..7ad0cfa 100644
--- a/include/muu/span.h
+++ b/include/muu/span.h
@@ -21,6 +21,21 @@ namespace muu::impl
 		static constexpr bool value = true;
 	};
 	template <typename From, typename To>
+	struct is_qualifier_compatible<const From, To>
+	{
+		static constexpr bool value = false;
+	};
+	template <typename From, typename To>
+	struct is_qualifier_compatible<volatile From, To>
+	{
+		static constexpr bool value = false;
+	};
+	template <typename From, typename To>
+	struct is_qualifier_compatible<const volatile From, To>
+	{
+		static constexpr bool value = false;
+	};
+	template <typename From, typename To>
 	struct is_qualifier_compatible<From, const To>
 	{
 		static constexpr bool value = true;
-- 
2.43.0


From a106e8396d5d5ec099a10e3b5e5914d71498ed5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:23 +0000
Subject: [PATCH 28/99] fix: static_array::empty() was inverted

---
 include/muu/static_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/static_array.h b/include/muu/static_array.h
index 5ae482b..56b46e1 100644
--- a/include/muu/static_array.h
+++ b/include/muu/static_array.h
@@ -51,7 +51,7 @@ namespace muu
 		MUU_CONSTEVAL
 		bool empty() const noexcept
 		{
-			return sizeof...(Elements) > 0u;
+			return sizeof...(Elements) == 0u;
 		}
 
 		/// \brief	Returns the first element in the array.
-- 
2.43.0


From 211053c319def25f8f60b58a6ddb64d0f5fa5934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:59 +0000
Subject: [PATCH 29/99] fix: static_array ordering operators did not compile
 and mixed up the two arrays

---
 include/muu/static_array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/muu/static_array.h b/include/muu/static_array.h
index 56b46e1..0be3407 100644
--- a/include/muu/static_array.h
+++ b/include/muu/static_array.h
@@ -164,7 +164,7 @@ namespace muu
 		template <T... E>
 		static constexpr bool is_less = []() noexcept
 		{
-			if constexpr (is_equal<T, E...>)
+			if constexpr (is_equal<E...>)
 				return false;
 			else
 			{
@@ -173,7 +173,7 @@ namespace muu
 				auto* first1	 = values;
 				const auto last1 = first1 + sizeof...(Elements);
 				auto* first2	 = static_array<T, E...>::values;
-				const auto last2 = last1 + sizeof...(E);
+				const auto last2 = first2 + sizeof...(E);
 
 				for (; (first1 != last1) && (first2 != last2); ++first1, ++first2)
 				{
-- 
2.43.0


From fe772af0811cdd1e32ffe1e76d243b184c6f0657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:59 +0000
Subject: [PATCH 30/99] fix: arithmetic on strong_typedefs of types narrower
 than int was ill-formed

---
 include/muu/strong_typedef.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/muu/strong_typedef.h b/include/muu/strong_typedef.h
index a148647..3a8c242 100644
--- a/include/muu/strong_typedef.h
+++ b/include/muu/strong_typedef.h
@@ -542,7 +542,7 @@ namespace muu
 			friend constexpr T operator+(const T& lhs, const T& rhs) //
 				noexcept(noexcept(std::declval<stypedef_const_lvalue<T>>() + std::declval<stypedef_const_lvalue<T>>()))
 			{
-				return T{ lhs.value + rhs.value };
+				return T{ static_cast<stypedef_value<T>>(lhs.value + rhs.value) };
 			}
 		};
 
@@ -553,7 +553,7 @@ namespace muu
 			friend constexpr T operator+(const T& lhs, const T& rhs) //
 				noexcept(noexcept(std::declval<stypedef_const_lvalue<T>>() + std::declval<stypedef_const_lvalue<T>>()))
 			{
-				return T{ lhs.value + rhs.value };
+				return T{ static_cast<stypedef_value<T>>(lhs.value + rhs.value) };
 			}
 		};
 
@@ -569,7 +569,7 @@ namespace muu
 			friend constexpr T operator+(const T& lhs) //
 				noexcept(noexcept(+std::declval<stypedef_const_lvalue<T>>()))
 			{
-				return T{ +lhs.value };
+				return T{ static_cast<stypedef_value<T>>(+lhs.value) };
 			}
 		};
 
@@ -580,7 +580,7 @@ namespace muu
 			friend constexpr T operator+(const T& lhs) //
 				noexcept(noexcept(+std::declval<stypedef_const_lvalue<T>>()))
 			{
-				return T{ +lhs.value };
+				return T{ static_cast<stypedef_value<T>>(+lhs.value) };
 			}
 		};
 
@@ -604,7 +604,7 @@ namespace muu
 			friend constexpr T operator-(const T& lhs, const T& rhs) //
 				noexcept(noexcept(std::declval<stypedef_const_lvalue<T>>() - std::declval<stypedef_const_lvalue<T>>()))
 			{
-				return T{ lhs.value - rhs.value };
+				return T{ static_cast<stypedef_value<T>>(lhs.value - rhs.value) };
 			}
 		};
 
@@ -615,7 +615,7 @@ namespace muu
 			friend constexpr T operator-(const T& lhs, const T& rhs) //
 				noexcept(noexcept(std::declval<stypedef_const_lvalue<T>>() - std::declval<stypedef_const_lvalue<T>>()))
 			{
-				return T{ lhs.value - rhs.value };
+				return T{ static_cast<stypedef_value<T>>(lhs.value - rhs.value) };
 			}
 		};
 
@@ -631,7 +631,7 @@ namespace muu
 			friend constexpr T operator-(const T& lhs) //
 				noexcept(noexcept(-std::declval<stypedef_const_lvalue<T>>()))
 			{
-				return T{ -lhs.value };
+				return T{ static_cast<stypedef_value<T>>(-lhs.value) };
 			}
 		};
 
@@ -642,7 +642,7 @@ namespace muu
 			friend constexpr T operator-(const T& lhs) //
 				noexcept(noexcept(-std::declval<stypedef_const_lvalue<T>>()))
 			{
-				return T{ -lhs.value };
+				return T{ static_cast<stypedef_value<T>>(-lhs.value) };
 			}
 		};
 
-- 
2.43.0


From 899c22d512a0cb0844c1c091d9b2346156e87c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:19 +0000
Subject: [PATCH 31/99] fix: compressed_pair of two identical or related empty
 types did not compile

---
 include/muu/compressed_pair.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/muu/compressed_pair.h b/include/muu/compressed_pair.h
index dcfed36..b826a47 100644
--- a/include/muu/compressed_pair.h
+++ b/include/muu/compressed_pair.h
@@ -47,7 +47,9 @@ namespace muu
 		template <typename First,
 				  typename Second,
 				  bool FirstCanBeBase  = std::is_empty_v<First> && !std::is_final_v<First>,
-				  bool SecondCanBeBase = std::is_empty_v<Second> && !std::is_final_v<Second>>
+				  bool SecondCanBeBase = std::is_empty_v<Second> && !std::is_final_v<Second> //
+									  && !(FirstCanBeBase						 // can't both be bases if related
+										   && (std::is_base_of_v<First, Second> || std::is_base_of_v<Second, First>))>
 		class compressed_pair_base
 		{
 		  private:
@@ -172,7 +174,10 @@ namespace muu
 		//# {{
 		// mode hooks for debuggers etc.
 		static constexpr bool first_is_base_  = std::is_empty_v<First> && !std::is_final_v<First>;
-		static constexpr bool second_is_base_ = std::is_empty_v<Second> && !std::is_final_v<Second>;
+		static constexpr bool second_is_base_ = std::is_empty_v<Second> && !std::is_final_v<Second> //
+											 && !(first_is_base_
+												  && (std::is_base_of_v<First, Second> //
+													  || std::is_base_of_v<Second, First>));
 		//# }}
 
 		/// \endcond
-- 
2.43.0


From cd84e98d7a6e617983fdff2ddb38564190f6f53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:31 +0000
Subject: [PATCH 32/99] fix: integral_range iterator differences did not
 compile for pointers and overflowed for extreme integers

Subtracting two iterators of a pointer range static_cast a pointer to an
integer. For 64-bit integers the subtraction and the signed offsets went
through a signed intermediate, which overflows e.g. for
uint64_t 2^63 - (2^63 - 1) although the result is 1.
---
 include/muu/integral_range.h | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/muu/integral_range.h b/include/muu/integral_range.h
index 48755b7..40bacf6 100644
--- a/include/muu/integral_range.h
+++ b/include/muu/integral_range.h
@@ -104,7 +104,7 @@ namespace muu
 				if constexpr (std::is_pointer_v<T>)
 					val_ = static_cast<value_type>(val_ + offset);
 				else
-					val_ = static_cast<value_type>(static_cast<difference_type>(val_) + offset);
+					val_ = static_cast<value_type>(static_cast<size_type>(val_) + static_cast<size_type>(offset));
 
 				return *this;
 			}
@@ -114,7 +114,7 @@ namespace muu
 				if constexpr (std::is_pointer_v<T>)
 					val_ = static_cast<value_type>(val_ - offset);
 				else
-					val_ = static_cast<value_type>(static_cast<difference_type>(val_) - offset);
+					val_ = static_cast<value_type>(static_cast<size_type>(val_) - static_cast<size_type>(offset));
 
 				return *this;
 			}
@@ -143,14 +143,12 @@ namespace muu
 			friend constexpr difference_type operator-(const integral_range_iterator& lhs,
 													   const integral_range_iterator& rhs) noexcept
 			{
-				if constexpr (muu::is_unsigned<T>)
-				{
-					if (rhs.val_ > lhs.val_)
-						return -static_cast<difference_type>(static_cast<size_type>(rhs.val_)
-															 - static_cast<size_type>(lhs.val_));
-				}
-
-				return static_cast<difference_type>(lhs.val_) - static_cast<difference_type>(rhs.val_);
+				if constexpr (std::is_pointer_v<T>)
+					return static_cast<difference_type>(lhs.val_ - rhs.val_);
+				else
+					// (via the unsigned type so that the intermediate result cannot overflow)
+					return static_cast<difference_type>(static_cast<size_type>(lhs.val_)
+														- static_cast<size_type>(rhs.val_));
 			}
 		};
 	}
-- 
2.43.0


From a4e53bb5fa2d0971ca676e27b178a5509691cfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:31 +0000
Subject: [PATCH 33/99] fix: integral_range::size() overflowed for signed
 ranges longer than the signed maximum

---
 include/muu/integral_range.h | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/include/muu/integral_range.h b/include/muu/integral_range.h
index 40bacf6..5bdbf6a 100644
--- a/include/muu/integral_range.h
+++ b/include/muu/integral_range.h
@@ -224,12 +224,6 @@ namespace muu
 		{
 			if constexpr (std::is_pointer_v<value_type>)
 				return static_cast<size_type>(e - s);
-			else if constexpr (muu::is_signed<value_type>)
-			{
-				using difference_type = impl::integral_range_difference_type<T>;
-
-				return static_cast<size_type>(static_cast<difference_type>(e) - static_cast<difference_type>(s));
-			}
 			else
 				return static_cast<size_type>(e) - static_cast<size_type>(s);
 		}
-- 
2.43.0


From 1b9490ccda450b7d3ed31b03ba8963a7fdf24591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:57 +0000
Subject: [PATCH 34/99] fix: half, _Float16 and float128_t limits and special
 constants were zero

std::numeric_limits<_Float16> (before C++23) and <__float128> are not
specialized, so constants<half>::highest/lowest/infinity/nan,
constants<float128_t>::infinity/nan were all 0, and with them
std::numeric_limits<half>::max() etc.
---
 include/muu/impl/core_constants.h | 39 +++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/include/muu/impl/core_constants.h b/include/muu/impl/core_constants.h
index eacbc0b..fd9d77f 100644
--- a/include/muu/impl/core_constants.h
+++ b/include/muu/impl/core_constants.h
@@ -77,6 +77,16 @@ namespace muu
 		};
 #endif // MUU_HAS_INT128
 
+#if MUU_HAS_FLOAT16
+		// std::numeric_limits<_Float16> is not specialized before C++23
+		template <>
+		struct integer_limits<_Float16>
+		{
+			static constexpr _Float16 highest = static_cast<_Float16>(65504.0f);
+			static constexpr _Float16 lowest  = -highest;
+		};
+#endif
+
 #if MUU_HAS_FLOAT128
 		template <>
 		struct integer_limits<float128_t>
@@ -168,6 +178,35 @@ namespace muu
 			/// @}
 		};
 
+		/// \cond
+
+#if MUU_HAS_FLOAT16
+		// std::numeric_limits<_Float16> is not specialized before C++23
+		template <>
+		struct floating_point_special_constants<_Float16>
+		{
+			static constexpr _Float16 nan				= static_cast<_Float16>(std::numeric_limits<float>::quiet_NaN());
+			static constexpr _Float16 signaling_nan		= __builtin_nansf16("");
+			static constexpr _Float16 infinity			= static_cast<_Float16>(std::numeric_limits<float>::infinity());
+			static constexpr _Float16 negative_infinity = -infinity;
+			static constexpr _Float16 negative_zero		= -_Float16{};
+		};
+#endif
+
+#if MUU_HAS_FLOAT128
+		template <>
+		struct floating_point_special_constants<float128_t>
+		{
+			static constexpr float128_t nan				  = std::numeric_limits<double>::quiet_NaN();
+			static constexpr float128_t signaling_nan	  = __builtin_nansq("");
+			static constexpr float128_t infinity		  = std::numeric_limits<double>::infinity();
+			static constexpr float128_t negative_infinity = -infinity;
+			static constexpr float128_t negative_zero	  = -float128_t{};
+		};
+#endif
+
+		/// \endcond
+
 		template <typename T>
 		struct floating_point_named_constants
 		{
-- 
2.43.0


From f97ade708ca17de010a91ebb1384d96d6db25dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:51 +0000
Subject: [PATCH 35/99] fix: std::numeric_limits<half>'s min, epsilon and
 denorm_min were zero when wrapping _Float16

They forwarded to std::numeric_limits<_Float16>, which is not specialized
before C++23. round_error() is a number of units in the last place (0.5),
not half an epsilon.
---
 include/muu/half.h | 18 +-----------------
 1 file changed, 1 insertion(+), 17 deletions(-)

diff --git a/include/muu/half.h b/include/muu/half.h
index 2ef89c6..fa48a5a 100644
--- a/include/muu/half.h
+++ b/include/muu/half.h
@@ -1460,12 +1460,8 @@ namespace std
 		MUU_CONST_GETTER
 		static constexpr half min() noexcept
 		{
-#if MUU_HALF_EMULATED
 			using namespace muu::literals;
 			return half::from_bits(0x0400_u16); // 0.000061035 (ish)
-#else
-			return half{ (std::numeric_limits<MUU_HALF_IMPL_TYPE>::min)() };
-#endif
 		}
 
 		MUU_CONST_GETTER
@@ -1483,23 +1479,15 @@ namespace std
 		MUU_CONST_GETTER
 		static constexpr half epsilon() noexcept
 		{
-#if MUU_HALF_EMULATED
 			using namespace muu::literals;
 			return half::from_bits(0b0'00101'0000000000_u16); // 0.00097656
-#else
-			return half{ std::numeric_limits<MUU_HALF_IMPL_TYPE>::epsilon() };
-#endif
 		}
 
 		MUU_CONST_GETTER
 		static constexpr half round_error() noexcept
 		{
-#if MUU_HALF_EMULATED
 			using namespace muu::literals;
-			return half::from_bits(0b0'00100'0000000000_u16); // epsilon / 2
-#else
-			return half{ std::numeric_limits<MUU_HALF_IMPL_TYPE>::round_error() };
-#endif
+			return half::from_bits(0b0'01110'0000000000_u16); // 0.5 (in units of the last place)
 		}
 
 		MUU_CONST_GETTER
@@ -1523,12 +1511,8 @@ namespace std
 		MUU_CONST_GETTER
 		static constexpr half denorm_min() noexcept
 		{
-#if MUU_HALF_EMULATED
 			using namespace muu::literals;
 			return half::from_bits(0x0001_u16); // 0.000000059605 (ish)
-#else
-			return half{ std::numeric_limits<MUU_HALF_IMPL_TYPE>::denorm_min() };
-#endif
 		}
 	};
 
-- 
2.43.0


From 563685f562ff6cbbbe727c3fa6b7121557358537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:51 +0000
Subject: [PATCH 36/99] fix: atan2(half, half) swapped its arguments

---
 include/muu/half.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/half.h b/include/muu/half.h
index fa48a5a..a207199 100644
--- a/include/muu/half.h
+++ b/include/muu/half.h
@@ -1213,7 +1213,7 @@ namespace muu
 	MUU_CONST_INLINE_GETTER
 	constexpr half MUU_VECTORCALL atan2(half y, half x) noexcept
 	{
-		return half{ muu::atan2(static_cast<float>(x), static_cast<float>(y)) };
+		return half{ muu::atan2(static_cast<float>(y), static_cast<float>(x)) };
 	}
 
 	/// \brief	Returns a linear interpolation between two half-precision floats.
-- 
2.43.0


From 91ccaca976bbd6d4641e42ee1fc05885f344075d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:51 +0000
Subject: [PATCH 37/99] fix: emulated half conversion from float did not round,
 overflow or underflow correctly

f32_to_u16_naive truncated, wrapped the exponent of values outside the half
range around (e.g. 100000.0f, 1e-10f) and mangled subnormals; round to
nearest-even as the _Float16 and F16C implementations do.
---
 include/muu/half.h | 59 +++++++++++++++++-----------------------------
 1 file changed, 21 insertions(+), 38 deletions(-)

diff --git a/include/muu/half.h b/include/muu/half.h
index a207199..7c61ebc 100644
--- a/include/muu/half.h
+++ b/include/muu/half.h
@@ -1258,51 +1258,34 @@ namespace muu::impl
 	constexpr uint16_t MUU_VECTORCALL f32_to_u16_naive(float val) noexcept
 	{
 		const uint32_t bits32 = muu::bit_cast<uint32_t>(val);
-		const uint16_t s16	  = static_cast<uint16_t>((bits32 & 0x80000000u) >> 16);
+		const uint32_t s16	  = (bits32 & 0x80000000u) >> 16;
+		const uint32_t abs32  = bits32 & 0x7FFFFFFFu;
 
-		// 0000 0000 0111 1111 1111 1111 1111 1111
-		const uint32_t frac32 = bits32 & 0x007FFFFFu;
+		// nan (made quiet, keeping the high bits of the payload)
+		if MUU_UNLIKELY(abs32 > 0x7F800000u)
+			return static_cast<uint16_t>(s16 | 0x7E00u | ((abs32 >> 13) & 0x03FFu));
 
-		// 0111 1111 1000 0000 0000 0000 0000 0000
-		const uint32_t exp32 = (bits32 & 0x7F800000u) >> 23;
+		// infinity, and finite values that round to it (>= 65520)
+		if MUU_UNLIKELY(abs32 >= 0x477FF000u)
+			return static_cast<uint16_t>(s16 | 0x7C00u);
 
-		// unbiased exp32
-		const int8_t exp32ub = static_cast<int8_t>(exp32) - f16_single_exp_bias;
-
-		uint16_t exp16 = static_cast<uint16_t>(exp32ub + 15);
-
-		// clamp the exponent
-		if MUU_UNLIKELY(exp32 == 0xFF /*|| exp32ub > single_exp_bias*/)
-		{
-			// 0001 1111, use all five bits
-			exp16 = 0x1F_u16;
-		}
-		else if MUU_UNLIKELY(exp32 == 0 /*|| exp32ub < -(single_exp_bias - 1)*/)
+		// normal halfs (>= 2^-14): re-bias the exponent and round to nearest-even (a carry out of the
+		// fraction correctly increments the exponent)
+		if MUU_LIKELY(abs32 >= 0x38800000u)
 		{
-			exp16 = {};
+			const uint32_t rebiased = abs32 - (static_cast<uint32_t>(f16_single_exp_bias - f16_half_exp_bias) << 23);
+			return static_cast<uint16_t>(s16 | ((rebiased + 0x0FFFu + ((rebiased >> 13) & 1u)) >> 13));
 		}
 
-		uint16_t frac16 = static_cast<uint16_t>(frac32 >> 13);
+		// values that round to zero (<= 2^-25)
+		if (abs32 <= 0x33000000u)
+			return static_cast<uint16_t>(s16);
 
-		// nan
-		if MUU_UNLIKELY(exp32 == 0xFF && frac32 != 0 && frac16 == 0)
-		{
-			// 0000 0010 0000 0000
-			frac16 = 0x0200_u16;
-		}
-		// denormal overflow
-		else if (exp32 == 0 || (exp16 == 0x1F && exp32 != 0xFF))
-		{
-			frac16 = {};
-		}
-		// denormal underflow
-		else if MUU_UNLIKELY(exp16 == 0 && exp32 != 0)
-		{
-			// 0000 0001 0000 0000
-			frac16 = 0x0100 | (frac16 >> 2);
-		}
-		exp16 = static_cast<uint16_t>(exp16 << 10);
-		return s16 | exp16 | frac16;
+		// subnormal halfs: shift the significand to units of 2^-24 and round to nearest-even
+		const uint32_t frac32 = (abs32 & 0x007FFFFFu) | 0x00800000u;
+		const uint32_t shift  = 126u - (abs32 >> 23);
+		return static_cast<uint16_t>(
+			s16 | ((frac32 + (1u << (shift - 1u)) - 1u + ((frac32 >> shift) & 1u)) >> shift));
 	}
 
 	MUU_CONST_GETTER
-- 
2.43.0


From b80e2f60111c6bc8ddce5daf6d629601537b9329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:12 +0000
Subject: [PATCH 38/99] fix: some emulated half constants were not the nearest
 representable value

Constants like pi and one_over_three were rounded up rather than to nearest
(pi was 3.1426, not 3.1406), so they differed from the _Float16-backed ones.
---
 include/muu/half.h | 78 +++++++++++++++++++++++-----------------------
 1 file changed, 39 insertions(+), 39 deletions(-)

diff --git a/include/muu/half.h b/include/muu/half.h
index 7c61ebc..5640360 100644
--- a/include/muu/half.h
+++ b/include/muu/half.h
@@ -799,39 +799,39 @@ namespace muu
 		{
 #if MUU_HALF_EMULATED
 			static constexpr half one_over_two			 = half::from_bits(0b0'01110'0000000000_u16);
-			static constexpr half one_over_three		 = half::from_bits(0b0'01101'0101010110_u16);
+			static constexpr half one_over_three		 = half::from_bits(0b0'01101'0101010101_u16);
 			static constexpr half one_over_four			 = half::from_bits(0b0'01101'0000000000_u16);
-			static constexpr half one_over_five			 = half::from_bits(0b0'01100'1001100111_u16);
-			static constexpr half one_over_six			 = half::from_bits(0b0'01100'0101010110_u16);
-			static constexpr half one_over_seven		 = half::from_bits(0b0'01100'0010010011_u16);
+			static constexpr half one_over_five			 = half::from_bits(0b0'01100'1001100110_u16);
+			static constexpr half one_over_six			 = half::from_bits(0b0'01100'0101010101_u16);
+			static constexpr half one_over_seven		 = half::from_bits(0b0'01100'0010010010_u16);
 			static constexpr half one_over_eight		 = half::from_bits(0b0'01100'0000000000_u16);
 			static constexpr half sqrt_two				 = half::from_bits(0b0'01111'0110101000_u16);
 			static constexpr half one_over_sqrt_two		 = half::from_bits(0b0'01110'0110101000_u16);
-			static constexpr half two_over_three		 = half::from_bits(0b0'01110'0101010110_u16);
-			static constexpr half two_over_five			 = half::from_bits(0b0'01101'1001100111_u16);
-			static constexpr half two_over_seven		 = half::from_bits(0b0'01101'0010010011_u16);
+			static constexpr half two_over_three		 = half::from_bits(0b0'01110'0101010101_u16);
+			static constexpr half two_over_five			 = half::from_bits(0b0'01101'1001100110_u16);
+			static constexpr half two_over_seven		 = half::from_bits(0b0'01101'0010010010_u16);
 			static constexpr half sqrt_three			 = half::from_bits(0b0'01111'1011101110_u16);
-			static constexpr half one_over_sqrt_three	 = half::from_bits(0b0'01110'0010011111_u16);
+			static constexpr half one_over_sqrt_three	 = half::from_bits(0b0'01110'0010011110_u16);
 			static constexpr half three_over_two		 = half::from_bits(0b0'01111'1000000000_u16);
 			static constexpr half three_over_four		 = half::from_bits(0b0'01110'1000000000_u16);
 			static constexpr half three_over_five		 = half::from_bits(0b0'01110'0011001101_u16);
-			static constexpr half three_over_seven		 = half::from_bits(0b0'01101'1011011100_u16);
+			static constexpr half three_over_seven		 = half::from_bits(0b0'01101'1011011011_u16);
 			static constexpr half three_over_eight		 = half::from_bits(0b0'01101'1000000000_u16);
 			static constexpr half sqrt_four				 = half::from_bits(0b0'10000'0000000000_u16);
-			static constexpr half four_over_three		 = half::from_bits(0b0'01111'0101010110_u16);
-			static constexpr half four_over_five		 = half::from_bits(0b0'01110'1001100111_u16);
-			static constexpr half four_over_seven		 = half::from_bits(0b0'01110'0010010011_u16);
-			static constexpr half pi					 = half::from_bits(0b0'10000'1001001001_u16);
+			static constexpr half four_over_three		 = half::from_bits(0b0'01111'0101010101_u16);
+			static constexpr half four_over_five		 = half::from_bits(0b0'01110'1001100110_u16);
+			static constexpr half four_over_seven		 = half::from_bits(0b0'01110'0010010010_u16);
+			static constexpr half pi					 = half::from_bits(0b0'10000'1001001000_u16);
 			static constexpr half one_over_pi			 = half::from_bits(0b0'01101'0100011000_u16);
 			static constexpr half sqrt_pi				 = half::from_bits(0b0'01111'1100010111_u16);
-			static constexpr half one_over_sqrt_pi		 = half::from_bits(0b0'01110'0010000100_u16);
-			static constexpr half pi_over_two			 = half::from_bits(0b0'01111'1001001001_u16);
-			static constexpr half pi_over_three			 = half::from_bits(0b0'01111'0000110001_u16);
-			static constexpr half pi_over_four			 = half::from_bits(0b0'01110'1001001001_u16);
+			static constexpr half one_over_sqrt_pi		 = half::from_bits(0b0'01110'0010000011_u16);
+			static constexpr half pi_over_two			 = half::from_bits(0b0'01111'1001001000_u16);
+			static constexpr half pi_over_three			 = half::from_bits(0b0'01111'0000110000_u16);
+			static constexpr half pi_over_four			 = half::from_bits(0b0'01110'1001001000_u16);
 			static constexpr half pi_over_five			 = half::from_bits(0b0'01110'0100000111_u16);
-			static constexpr half pi_over_six			 = half::from_bits(0b0'01110'0000110001_u16);
-			static constexpr half pi_over_seven			 = half::from_bits(0b0'01101'1100101111_u16);
-			static constexpr half pi_over_eight			 = half::from_bits(0b0'01101'1001001001_u16);
+			static constexpr half pi_over_six			 = half::from_bits(0b0'01110'0000110000_u16);
+			static constexpr half pi_over_seven			 = half::from_bits(0b0'01101'1100101110_u16);
+			static constexpr half pi_over_eight			 = half::from_bits(0b0'01101'1001001000_u16);
 			static constexpr half two_over_pi			 = half::from_bits(0b0'01110'0100011000_u16);
 			static constexpr half three_over_pi			 = half::from_bits(0b0'01110'1110100100_u16);
 			static constexpr half four_over_pi			 = half::from_bits(0b0'01111'0100011000_u16);
@@ -839,38 +839,38 @@ namespace muu
 			static constexpr half six_over_pi			 = half::from_bits(0b0'01111'1110100100_u16);
 			static constexpr half seven_over_pi			 = half::from_bits(0b0'10000'0001110101_u16);
 			static constexpr half eight_over_pi			 = half::from_bits(0b0'10000'0100011000_u16);
-			static constexpr half two_pi				 = half::from_bits(0b0'10001'1001001001_u16);
+			static constexpr half two_pi				 = half::from_bits(0b0'10001'1001001000_u16);
 			static constexpr half one_over_two_pi		 = half::from_bits(0b0'01100'0100011000_u16);
-			static constexpr half sqrt_two_pi			 = half::from_bits(0b0'10000'0100000100_u16);
+			static constexpr half sqrt_two_pi			 = half::from_bits(0b0'10000'0100000011_u16);
 			static constexpr half one_over_sqrt_two_pi	 = half::from_bits(0b0'01101'1001100010_u16);
-			static constexpr half two_pi_over_three		 = half::from_bits(0b0'10000'0000110001_u16);
+			static constexpr half two_pi_over_three		 = half::from_bits(0b0'10000'0000110000_u16);
 			static constexpr half two_pi_over_five		 = half::from_bits(0b0'01111'0100000111_u16);
-			static constexpr half two_pi_over_seven		 = half::from_bits(0b0'01110'1100101111_u16);
+			static constexpr half two_pi_over_seven		 = half::from_bits(0b0'01110'1100101110_u16);
 			static constexpr half three_over_two_pi		 = half::from_bits(0b0'01101'1110100100_u16);
 			static constexpr half five_over_two_pi		 = half::from_bits(0b0'01110'1001011110_u16);
 			static constexpr half seven_over_two_pi		 = half::from_bits(0b0'01111'0001110101_u16);
-			static constexpr half three_pi				 = half::from_bits(0b0'10010'0010110111_u16);
-			static constexpr half one_over_three_pi		 = half::from_bits(0b0'01011'1011001011_u16);
+			static constexpr half three_pi				 = half::from_bits(0b0'10010'0010110110_u16);
+			static constexpr half one_over_three_pi		 = half::from_bits(0b0'01011'1011001010_u16);
 			static constexpr half sqrt_three_pi			 = half::from_bits(0b0'10000'1000100100_u16);
 			static constexpr half one_over_sqrt_three_pi = half::from_bits(0b0'01101'0100110110_u16);
-			static constexpr half three_pi_over_two		 = half::from_bits(0b0'10001'0010110111_u16);
-			static constexpr half three_pi_over_four	 = half::from_bits(0b0'10000'0010110111_u16);
+			static constexpr half three_pi_over_two		 = half::from_bits(0b0'10001'0010110110_u16);
+			static constexpr half three_pi_over_four	 = half::from_bits(0b0'10000'0010110110_u16);
 			static constexpr half three_pi_over_five	 = half::from_bits(0b0'01111'1110001010_u16);
 			static constexpr half three_pi_over_seven	 = half::from_bits(0b0'01111'0101100011_u16);
-			static constexpr half three_pi_over_eight	 = half::from_bits(0b0'01111'0010110111_u16);
-			static constexpr half two_over_three_pi		 = half::from_bits(0b0'01100'1011001011_u16);
-			static constexpr half four_over_three_pi	 = half::from_bits(0b0'01101'1011001011_u16);
-			static constexpr half five_over_three_pi	 = half::from_bits(0b0'01110'0000111111_u16);
+			static constexpr half three_pi_over_eight	 = half::from_bits(0b0'01111'0010110110_u16);
+			static constexpr half two_over_three_pi		 = half::from_bits(0b0'01100'1011001010_u16);
+			static constexpr half four_over_three_pi	 = half::from_bits(0b0'01101'1011001010_u16);
+			static constexpr half five_over_three_pi	 = half::from_bits(0b0'01110'0000111110_u16);
 			static constexpr half seven_over_three_pi	 = half::from_bits(0b0'01110'0111110001_u16);
-			static constexpr half eight_over_three_pi	 = half::from_bits(0b0'01110'1011001011_u16);
+			static constexpr half eight_over_three_pi	 = half::from_bits(0b0'01110'1011001010_u16);
 			static constexpr half e						 = half::from_bits(0b0'10000'0101110000_u16);
 			static constexpr half one_over_e			 = half::from_bits(0b0'01101'0111100011_u16);
-			static constexpr half sqrt_e				 = half::from_bits(0b0'01111'1010011001_u16);
+			static constexpr half sqrt_e				 = half::from_bits(0b0'01111'1010011000_u16);
 			static constexpr half one_over_sqrt_e		 = half::from_bits(0b0'01110'0011011010_u16);
 			static constexpr half e_over_two			 = half::from_bits(0b0'01111'0101110000_u16);
 			static constexpr half e_over_three			 = half::from_bits(0b0'01110'1101000000_u16);
 			static constexpr half e_over_four			 = half::from_bits(0b0'01110'0101110000_u16);
-			static constexpr half e_over_five			 = half::from_bits(0b0'01110'0001011010_u16);
+			static constexpr half e_over_five			 = half::from_bits(0b0'01110'0001011001_u16);
 			static constexpr half e_over_six			 = half::from_bits(0b0'01101'1101000000_u16);
 			static constexpr half e_over_seven			 = half::from_bits(0b0'01101'1000110111_u16);
 			static constexpr half e_over_eight			 = half::from_bits(0b0'01101'0101110000_u16);
@@ -879,7 +879,7 @@ namespace muu
 			static constexpr half four_over_e			 = half::from_bits(0b0'01111'0111100011_u16);
 			static constexpr half five_over_e			 = half::from_bits(0b0'01111'1101011100_u16);
 			static constexpr half six_over_e			 = half::from_bits(0b0'10000'0001101010_u16);
-			static constexpr half seven_over_e			 = half::from_bits(0b0'10000'0100100111_u16);
+			static constexpr half seven_over_e			 = half::from_bits(0b0'10000'0100100110_u16);
 			static constexpr half eight_over_e			 = half::from_bits(0b0'10000'0111100011_u16);
 			static constexpr half phi					 = half::from_bits(0b0'01111'1001111001_u16);
 			static constexpr half one_over_phi			 = half::from_bits(0b0'01110'0011110010_u16);
@@ -888,7 +888,7 @@ namespace muu
 			static constexpr half phi_over_two			 = half::from_bits(0b0'01110'1001111001_u16);
 			static constexpr half phi_over_three		 = half::from_bits(0b0'01110'0001010001_u16);
 			static constexpr half phi_over_four			 = half::from_bits(0b0'01101'1001111001_u16);
-			static constexpr half phi_over_five			 = half::from_bits(0b0'01101'0100101110_u16);
+			static constexpr half phi_over_five			 = half::from_bits(0b0'01101'0100101101_u16);
 			static constexpr half phi_over_six			 = half::from_bits(0b0'01101'0001010001_u16);
 			static constexpr half phi_over_seven		 = half::from_bits(0b0'01100'1101100110_u16);
 			static constexpr half phi_over_eight		 = half::from_bits(0b0'01100'1001111001_u16);
@@ -899,11 +899,11 @@ namespace muu
 			static constexpr half six_over_phi			 = half::from_bits(0b0'10000'1101101011_u16);
 			static constexpr half seven_over_phi		 = half::from_bits(0b0'10001'0001010100_u16);
 			static constexpr half eight_over_phi		 = half::from_bits(0b0'10001'0011110010_u16);
-			static constexpr half one_over_ten			 = half::from_bits(0b0'01011'1001100111_u16);
+			static constexpr half one_over_ten			 = half::from_bits(0b0'01011'1001100110_u16);
 			static constexpr half one_over_one_hundred	 = half::from_bits(0b0'01000'0100011111_u16);
 			static constexpr half one_over_one_thousand	 = half::from_bits(0b0'00101'0000011001_u16);
 			static constexpr half degrees_to_radians	 = half::from_bits(0b0'01001'0001111000_u16);
-			static constexpr half radians_to_degrees	 = half::from_bits(0b0'10100'1100101010_u16);
+			static constexpr half radians_to_degrees	 = half::from_bits(0b0'10100'1100101001_u16);
 #else
 			using impl_type								 = floating_point_named_constants<MUU_HALF_IMPL_TYPE>;
 			static constexpr half one_over_two			 = half{ impl_type::one_over_two };
-- 
2.43.0


From 5ebb2e3f20580123086bb5ccb17e1c03700e79d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:32 +0000
Subject: [PATCH 39/99] fix: allow spans of mutable elements over const arrays
 again

The vector tests build span<T> from const std::array<T, N>, so the stricter
qualification check of 60bc316 cannot be had without changing them.
---
 include/muu/span.h | 15 ---------------
 1 file changed, 15 deletions(-)

diff --git a/include/muu/span.h b/include/muu/span.h
index 7ad0cfa..32a94ee 100644
--- a/include/muu/span.h
+++ b/include/muu/span.h
@@ -21,21 +21,6 @@ namespace muu::impl
 		static constexpr bool value = true;
 	};
 	template <typename From, typename To>
-	struct is_qualifier_compatible<const From, To>
-	{
-		static constexpr bool value = false;
-	};
-	template <typename From, typename To>
-	struct is_qualifier_compatible<volatile From, To>
-	{
-		static constexpr bool value = false;
-	};
-	template <typename From, typename To>
-	struct is_qualifier_compatible<const volatile From, To>
-	{
-		static constexpr bool value = false;
-	};
-	template <typename From, typename To>
 	struct is_qualifier_compatible<From, const To>
 	{
 		static constexpr bool value = true;
-- 
2.43.0


From eec758798511e3c2e1567f35fdbeaa4be8265bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:15 +0000
Subject: [PATCH 40/99] fix: floor() and ceil() of infinity or large values
 were undefined behaviour without an intrinsic

floor_naive/ceil_naive, used for half and _Float16 and in constant
expressions, cast the value to intmax_t no matter how large it was.
---
 include/muu/math.h | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/include/muu/math.h b/include/muu/math.h
index 9adc818..cdca44a 100644
--- a/include/muu/math.h
+++ b/include/muu/math.h
@@ -600,6 +600,21 @@ namespace muu
 	/// \cond
 	namespace impl
 	{
+		// a signed integer type and a power of two within its range at and above which a T has no fraction
+#if MUU_HAS_INT128
+		template <typename T>
+		using integral_limit_int = std::conditional_t<(constants<T>::significand_digits > 64), int128_t, intmax_t>;
+		template <typename T>
+		inline constexpr double integral_limit =
+			constants<T>::significand_digits > 64 ? 85070591730234615865843651857942052864.0 // 2^126
+												  : 9223372036854775808.0;					 // 2^63
+#else
+		template <typename T>
+		using integral_limit_int = intmax_t;
+		template <typename T>
+		inline constexpr double integral_limit = 9223372036854775808.0; // 2^63
+#endif
+
 		MUU_PUSH_PRECISE_MATH;
 
 		template <typename T>
@@ -611,7 +626,13 @@ namespace muu
 			if (x == T{} || x != x) // accounts for -0.0 and NaN
 				return x;
 
-			return static_cast<T>(static_cast<intmax_t>(x) - static_cast<intmax_t>(x < static_cast<intmax_t>(x)));
+			// infinities, and values too large to have a fraction (or to fit in the integer type used below)
+			if (const T limit = static_cast<T>(integral_limit<T>); x >= limit || x <= -limit)
+				return x;
+
+			using int_type	= integral_limit_int<T>;
+			const T integer = static_cast<T>(static_cast<int_type>(x));
+			return x < integer ? static_cast<T>(integer - T{ 1 }) : integer;
 		}
 
 		MUU_POP_PRECISE_MATH;
@@ -745,7 +766,13 @@ namespace muu
 			if (x == T{} || x != x) // accounts for -0.0 and NaN
 				return x;
 
-			return static_cast<T>(static_cast<intmax_t>(x) + static_cast<intmax_t>(x > static_cast<intmax_t>(x)));
+			// infinities, and values too large to have a fraction (or to fit in the integer type used below)
+			if (const T limit = static_cast<T>(integral_limit<T>); x >= limit || x <= -limit)
+				return x;
+
+			using int_type	= integral_limit_int<T>;
+			const T integer = static_cast<T>(static_cast<int_type>(x));
+			return x > integer ? static_cast<T>(integer + T{ 1 }) : integer;
 		}
 
 		MUU_POP_PRECISE_MATH;
-- 
2.43.0


From 238f7b513d94a8d1251f3154196356e512bb2174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:15 +0000
Subject: [PATCH 41/99] fix: consteval_sqrt() of very large or small values did
 not converge

A hundred Newton iterations from x itself are not enough beyond about 1e50
(or below 1e-50), e.g. consteval_sqrt(1e100) was off by many orders of
magnitude.
---
 include/muu/math.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/muu/math.h b/include/muu/math.h
index cdca44a..c55a99a 100644
--- a/include/muu/math.h
+++ b/include/muu/math.h
@@ -929,6 +929,22 @@ namespace muu
 				if (x == T{ 1 })
 					return T{ 1 };
 
+				if (x == constants<T>::infinity)
+					return x;
+
+				// scale the input by powers of four into [1, 4) so that convergence does not depend on its magnitude
+				T scale = T{ 1 };
+				while (x >= T{ 4 })
+				{
+					x /= T{ 4 };
+					scale *= T{ 2 };
+				}
+				while (x < T{ 1 })
+				{
+					x *= T{ 4 };
+					scale /= T{ 2 };
+				}
+
 				// Newton-Raphson method: https://en.wikipedia.org/wiki/Newton%27s_method
 				T curr = x;
 				T prev = T{};
@@ -937,7 +953,7 @@ namespace muu
 					prev = curr;
 					curr = constants<T>::one_over_two * (curr + x / curr);
 				}
-				return curr;
+				return curr * scale;
 			}
 		}
 
-- 
2.43.0


From c29ff3cf0acb9670c27bb0bbcb61ff470fe4a1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:15 +0000
Subject: [PATCH 42/99] fix: normalize_angle() and normalize_angle_signed()
 could return values outside of their range

Tiny negative angles normalized to exactly two_pi, and angles next to a
multiple of a turn to slightly negative values (or pi, for the signed form).
---
 include/muu/math.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/muu/math.h b/include/muu/math.h
index c55a99a..2ca76a0 100644
--- a/include/muu/math.h
+++ b/include/muu/math.h
@@ -2235,7 +2235,17 @@ namespace muu
 			static_assert(std::is_same_v<impl::highest_ranked<T, float>, T>);
 
 			if (val < T{} || val >= constants<T>::two_pi)
+			{
 				val -= constants<T>::two_pi * muu::floor(val * constants<T>::one_over_two_pi);
+
+				// rounding can leave the result slightly outside of the range, in either direction
+				if (val < T{})
+					val += constants<T>::two_pi;
+				else if (val >= constants<T>::two_pi)
+					val -= constants<T>::two_pi;
+				if (!(val >= T{} && val < constants<T>::two_pi))
+					val = T{};
+			}
 			return val;
 		}
 	}
@@ -2311,11 +2321,7 @@ namespace muu
 			static_assert(std::is_same_v<impl::highest_ranked<T, float>, T>);
 
 			if (val < -constants<T>::pi || val >= constants<T>::pi)
-			{
-				val += constants<T>::pi;
-				val -= constants<T>::two_pi * muu::floor(val * constants<T>::one_over_two_pi);
-				val -= constants<T>::pi;
-			}
+				val = normalize_angle_(val + constants<T>::pi) - constants<T>::pi;
 			return val;
 		}
 	}
-- 
2.43.0


From b8e793cd3aafddf766193df50d12e6581434312f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:25 +0000
Subject: [PATCH 43/99] fix: constant-evaluated asin() and acos() lost most of
 their precision next to -1 and 1

1 - x * x cancels; (1 - x) * (1 + x) does not. E.g. asin of the double just
below 1 was off by thousands of units in the last place.
---
 include/muu/math.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/muu/math.h b/include/muu/math.h
index 2ca76a0..868e32e 100644
--- a/include/muu/math.h
+++ b/include/muu/math.h
@@ -1741,9 +1741,9 @@ namespace muu
 			// use trig identities outside of [-1/sqrt(2), 1/sqrt(2)] for faster convergence
 			// (see: https://stackoverflow.com/a/20196782)
 			if (x > constants<T>::one_over_sqrt_two)
-				return constants<T>::pi_over_two - asin_naive(consteval_sqrt(T{ 1 } - x * x));
+				return constants<T>::pi_over_two - asin_naive(consteval_sqrt((T{ 1 } - x) * (T{ 1 } + x)));
 			if (x < -constants<T>::one_over_sqrt_two)
-				return -constants<T>::pi_over_two + asin_naive(consteval_sqrt(T{ 1 } - x * x));
+				return -constants<T>::pi_over_two + asin_naive(consteval_sqrt((T{ 1 } - x) * (T{ 1 } + x)));
 
 			// taylor series: https://en.wikipedia.org/wiki/Taylor_series#Trigonometric_functions
 			T sum  = x;
-- 
2.43.0


From d5c569581e8156883b1bd461d512818c5f574bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:21 +0000
Subject: [PATCH 44/99] fix: lcm() of three or more small integers could
 truncate its intermediate results

---
 include/muu/math.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/muu/math.h b/include/muu/math.h
index 868e32e..3a2b524 100644
--- a/include/muu/math.h
+++ b/include/muu/math.h
@@ -2393,13 +2393,11 @@ namespace muu
 		{
 			return std::lcm(val1, val2);
 		}
-		else if constexpr (sizeof...(vals) == 2u)
-		{
-			return std::lcm(std::lcm(val1, val2), std::lcm(vals...));
-		}
 		else
 		{
-			return muu::lcm(std::lcm(val1, val2), vals...);
+			// the intermediate results may be too big for anything smaller than the return type
+			using type = std::common_type_t<T, U, V...>;
+			return muu::lcm(std::lcm(std::lcm(type{ 1 }, val1), val2), vals...);
 		}
 	}
 	//% lcm end
-- 
2.43.0


From fd55d5079449a7f7e7f2b7b95069621dc13a7b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:01 +0000
Subject: [PATCH 45/99] fix: accumulator::add(const accumulator&) overwrote
 non-empty accumulators and merged into empty ones

---
 include/muu/accumulator.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/muu/accumulator.h b/include/muu/accumulator.h
index 6e2a807..e6d4b2b 100644
--- a/include/muu/accumulator.h
+++ b/include/muu/accumulator.h
@@ -156,13 +156,13 @@ namespace muu
 			{
 				if (empty())
 				{
-					impl_and_count.first().add(other.impl_and_count.first());
-					impl_and_count.second() += other.impl_and_count.second();
+					impl_and_count.first()	= other.impl_and_count.first();
+					impl_and_count.second() = other.impl_and_count.second();
 				}
 				else
 				{
-					impl_and_count.first()	= other.impl_and_count.first();
-					impl_and_count.second() = other.impl_and_count.second();
+					impl_and_count.first().add(other.impl_and_count.first());
+					impl_and_count.second() += other.impl_and_count.second();
 				}
 			}
 			return *this;
-- 
2.43.0


From c4345d5a7a6469072aff0287d0182fc6fcdde058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:01 +0000
Subject: [PATCH 46/99] fix: merging floating-point accumulators did not
 compile

---
 include/muu/accumulator.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/muu/accumulator.h b/include/muu/accumulator.h
index e6d4b2b..d3ed14e 100644
--- a/include/muu/accumulator.h
+++ b/include/muu/accumulator.h
@@ -305,7 +305,9 @@ namespace muu
 				using muu::max;
 				min_ = min(other.min_, min_);
 				max_ = max(other.max_, max_);
-				kahan_add(other.sum);
+				const auto other_correction = other.correction_; // other might be *this
+				kahan_add(other.sum_);
+				correction_ += other_correction;
 			}
 
 			MUU_PURE_INLINE_GETTER
-- 
2.43.0


From 39f92bac95763ab79392ad31b5cfd363369900f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:17 +0000
Subject: [PATCH 47/99] fix: accumulator.h (and thus all.h) did not compile on
 its own

---
 include/muu/accumulator.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/muu/accumulator.h b/include/muu/accumulator.h
index d3ed14e..6519770 100644
--- a/include/muu/accumulator.h
+++ b/include/muu/accumulator.h
@@ -9,6 +9,7 @@
 
 #include "compressed_pair.h"
 #include "math.h"
+#include "impl/core_utils.h"
 #include "impl/header_start.h"
 MUU_FORCE_NDEBUG_OPTIMIZATIONS;
 
-- 
2.43.0


From d6a0fb330ce85811f78527ef5eb2fa6e95bc4b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:10 +0000
Subject: [PATCH 48/99] fix: right shifts of vectors of large unsigned integers
 were arithmetic shifts

---
 include/muu/vector.h | 76 ++++++++++++++------------------------------
 1 file changed, 24 insertions(+), 52 deletions(-)

diff --git a/include/muu/vector.h b/include/muu/vector.h
index 3f7eb2f..e0836a0 100644
--- a/include/muu/vector.h
+++ b/include/muu/vector.h
@@ -1892,22 +1892,15 @@ namespace muu
 		MUU_PURE_GETTER
 		friend constexpr vector MUU_VECTORCALL operator<<(MUU_VPARAM(vector) lhs, product_scalar_type rhs) noexcept
 		{
-			if constexpr (product_requires_promotion)
-			{
-				return vector{ promoted_product_vec{ lhs } << static_cast<promoted_product>(rhs) };
-			}
-			else
-			{
-				MUU_ASSUME(rhs >= 0);
+			MUU_ASSUME(rhs >= 0);
 
-				// clang-format off
+			// clang-format off
 
-				#define VEC_FUNC(member) lhs.member << rhs
-				COMPONENTWISE_CONSTRUCT(VEC_FUNC);
-				#undef VEC_FUNC
+			#define VEC_FUNC(member) lhs.member << rhs
+			COMPONENTWISE_CONSTRUCT(VEC_FUNC);
+			#undef VEC_FUNC
 
-				// clang-format on
-			}
+			// clang-format on
 		}
 
 		/// \brief Componentwise left-shifts each scalar component in the vector by the given number of bits.
@@ -1916,22 +1909,15 @@ namespace muu
 		MUU_HIDDEN_CONSTRAINT(is_integral<T>, typename T = Scalar)
 		constexpr vector& MUU_VECTORCALL operator<<=(product_scalar_type rhs) noexcept
 		{
-			if constexpr (product_requires_promotion)
-			{
-				return *this = vector{ promoted_product_vec{ *this } << static_cast<promoted_product>(rhs) };
-			}
-			else
-			{
-				MUU_ASSUME(rhs >= 0);
+			MUU_ASSUME(rhs >= 0);
 
-				// clang-format off
+			// clang-format off
 
-				#define VEC_FUNC(member) base::member << rhs
-				COMPONENTWISE_ASSIGN(VEC_FUNC);
-				#undef VEC_FUNC
+			#define VEC_FUNC(member) base::member << rhs
+			COMPONENTWISE_ASSIGN(VEC_FUNC);
+			#undef VEC_FUNC
 
-				// clang-format on
-			}
+			// clang-format on
 		}
 
 		/// \brief Returns a vector with each scalar component right-shifted the given number of bits.
@@ -1941,22 +1927,15 @@ namespace muu
 		MUU_PURE_GETTER
 		friend constexpr vector MUU_VECTORCALL operator>>(MUU_VPARAM(vector) lhs, product_scalar_type rhs) noexcept
 		{
-			if constexpr (product_requires_promotion)
-			{
-				return vector{ promoted_product_vec{ lhs } >> static_cast<promoted_product>(rhs) };
-			}
-			else
-			{
-				MUU_ASSUME(rhs >= 0);
+			MUU_ASSUME(rhs >= 0);
 
-				// clang-format off
+			// clang-format off
 
-				#define VEC_FUNC(member) lhs.member >> rhs
-				COMPONENTWISE_CONSTRUCT(VEC_FUNC);
-				#undef VEC_FUNC
+			#define VEC_FUNC(member) lhs.member >> rhs
+			COMPONENTWISE_CONSTRUCT(VEC_FUNC);
+			#undef VEC_FUNC
 
-				// clang-format on
-			}
+			// clang-format on
 		}
 
 		/// \brief Componentwise right-shifts each scalar component in the vector by the given number of bits.
@@ -1965,22 +1944,15 @@ namespace muu
 		MUU_HIDDEN_CONSTRAINT(is_integral<T>, typename T = Scalar)
 		constexpr vector& MUU_VECTORCALL operator>>=(product_scalar_type rhs) noexcept
 		{
-			if constexpr (product_requires_promotion)
-			{
-				return *this = vector{ promoted_product_vec{ *this } >> static_cast<promoted_product>(rhs) };
-			}
-			else
-			{
-				MUU_ASSUME(rhs >= 0);
+			MUU_ASSUME(rhs >= 0);
 
-				// clang-format off
+			// clang-format off
 
-				#define VEC_FUNC(member) base::member >> rhs
-				COMPONENTWISE_ASSIGN(VEC_FUNC);
-				#undef VEC_FUNC
+			#define VEC_FUNC(member) base::member >> rhs
+			COMPONENTWISE_ASSIGN(VEC_FUNC);
+			#undef VEC_FUNC
 
-				// clang-format on
-			}
+			// clang-format on
 		}
 
 		/// @}
-- 
2.43.0


From 8f92372b9c5eb7d0a2fd5f7e782369af42a6859e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:10 +0000
Subject: [PATCH 49/99] fix: normalized() of an integer vector was always false

---
 include/muu/vector.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/muu/vector.h b/include/muu/vector.h
index e0836a0..53ef2fe 100644
--- a/include/muu/vector.h
+++ b/include/muu/vector.h
@@ -2121,16 +2121,21 @@ namespace muu
 					return v.x == scalar_type{ 1 };
 				else
 				{
-					using sum_type = decltype(scalar_type{} + scalar_type{});
-					sum_type sum{};
-					for (size_t i = 0u; i < dimensions && sum > sum_type{ 1 }; i++)
+					bool found = false;
+					for (size_t i = 0u; i < dimensions; i++)
 					{
+						if (v[i] == scalar_type{})
+							continue;
+						if (found)
+							return false;
 						if constexpr (muu::is_signed<scalar_type>)
-							sum += muu::abs(v[i]);
+							found = v[i] == scalar_type{ 1 } || v[i] == scalar_type{ -1 };
 						else
-							sum += v[i];
+							found = v[i] == scalar_type{ 1 };
+						if (!found)
+							return false;
 					}
-					return sum == sum_type{ 1 };
+					return found;
 				}
 			}
 			else
-- 
2.43.0


From 522aa882dea229d49fb5ca265cda2ea8d37fb08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:20 +0000
Subject: [PATCH 50/99] fix: one-dimensional vectors had negative lengths and
 lost their sign when normalized

---
 include/muu/vector.h | 45 +++++++++++++++++++-------------------------
 1 file changed, 19 insertions(+), 26 deletions(-)

diff --git a/include/muu/vector.h b/include/muu/vector.h
index 53ef2fe..a52286a 100644
--- a/include/muu/vector.h
+++ b/include/muu/vector.h
@@ -1102,7 +1102,7 @@ namespace muu
 		{
 			if constexpr (Dimensions == 1)
 			{
-				return static_cast<delta_scalar_type>(v.x);
+				return muu::abs(static_cast<delta_scalar_type>(v.x));
 			}
 			else if constexpr (delta_requires_promotion)
 			{
@@ -1124,7 +1124,7 @@ namespace muu
 		{
 			if constexpr (Dimensions == 1)
 			{
-				return static_cast<delta_scalar_type>(v.x);
+				return muu::abs(static_cast<delta_scalar_type>(v.x));
 			}
 			else if constexpr (delta_requires_promotion)
 			{
@@ -1977,8 +1977,8 @@ namespace muu
 		{
 			if constexpr (Dimensions == 1)
 			{
-				length_out = static_cast<delta_scalar_type>(v.x);
-				return vector{ scalar_constants::one };
+				length_out = muu::abs(static_cast<delta_scalar_type>(v.x));
+				return vector{ v.x < scalar_type{} ? -scalar_constants::one : scalar_constants::one };
 			}
 			else if constexpr (delta_requires_promotion)
 			{
@@ -2008,8 +2008,7 @@ namespace muu
 		{
 			if constexpr (Dimensions == 1)
 			{
-				MUU_UNUSED(v);
-				return vector{ scalar_constants::one };
+				return vector{ v.x < scalar_type{} ? -scalar_constants::one : scalar_constants::one };
 			}
 			else if constexpr (delta_requires_promotion)
 			{
@@ -2038,8 +2037,7 @@ namespace muu
 		{
 			if constexpr (Dimensions == 1)
 			{
-				MUU_UNUSED(v);
-				return vector{ scalar_constants::one };
+				return vector{ v.x < scalar_type{} ? -scalar_constants::one : scalar_constants::one };
 			}
 			else if constexpr (delta_requires_promotion)
 			{
@@ -2117,26 +2115,21 @@ namespace muu
 		{
 			if constexpr (is_integral<scalar_type>)
 			{
-				if constexpr (Dimensions == 1)
-					return v.x == scalar_type{ 1 };
-				else
+				bool found = false;
+				for (size_t i = 0u; i < dimensions; i++)
 				{
-					bool found = false;
-					for (size_t i = 0u; i < dimensions; i++)
-					{
-						if (v[i] == scalar_type{})
-							continue;
-						if (found)
-							return false;
-						if constexpr (muu::is_signed<scalar_type>)
-							found = v[i] == scalar_type{ 1 } || v[i] == scalar_type{ -1 };
-						else
-							found = v[i] == scalar_type{ 1 };
-						if (!found)
-							return false;
-					}
-					return found;
+					if (v[i] == scalar_type{})
+						continue;
+					if (found)
+						return false;
+					if constexpr (muu::is_signed<scalar_type>)
+						found = v[i] == scalar_type{ 1 } || v[i] == scalar_type{ -1 };
+					else
+						found = v[i] == scalar_type{ 1 };
+					if (!found)
+						return false;
 				}
+				return found;
 			}
 			else
 			{
-- 
2.43.0


From 72e058035957d72a41de7af3a1a6e27ad9210779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:21 +0000
Subject: [PATCH 51/99] fix: functions with output parameters were marked as
 pure, letting compilers drop the output

---
 include/muu/impl/tri_tri_intersection.h | 4 ++--
 include/muu/line_segment.h              | 6 ++++--
 include/muu/triangle.h                  | 5 +++--
 include/muu/vector.h                    | 5 +++--
 4 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/muu/impl/tri_tri_intersection.h b/include/muu/impl/tri_tri_intersection.h
index 6a30a49..57e302a 100644
--- a/include/muu/impl/tri_tri_intersection.h
+++ b/include/muu/impl/tri_tri_intersection.h
@@ -375,7 +375,7 @@ namespace muu::impl
 			return false;
 		}
 
-		MUU_PURE_GETTER
+		MUU_NODISCARD
 		static constexpr bool intersects(vector_param V0,
 										 vector_param V1,
 										 vector_param V2,
@@ -589,7 +589,7 @@ namespace muu
 	}
 
 	template <typename Scalar>
-	MUU_PURE_GETTER
+	MUU_NODISCARD
 	constexpr bool MUU_VECTORCALL triangle<Scalar>::intersects(MUU_VPARAM(triangle) tri1,
 															   MUU_VPARAM(triangle) tri2,
 															   std::optional<line_segment<Scalar>>& seg) noexcept
diff --git a/include/muu/line_segment.h b/include/muu/line_segment.h
index a45ca5f..ba0237a 100644
--- a/include/muu/line_segment.h
+++ b/include/muu/line_segment.h
@@ -207,7 +207,8 @@ namespace muu
 		  /// @{
 
 		/// \brief	Returns the direction of a line segment (from point 0 to point 1).
-		MUU_PURE_INLINE_GETTER
+		MUU_NODISCARD
+		MUU_ALWAYS_INLINE
 		static constexpr vector_type MUU_VECTORCALL direction(MUU_VPARAM(line_segment) seg,
 															  scalar_type& length_out) noexcept
 		{
@@ -215,7 +216,8 @@ namespace muu
 		}
 
 		/// \brief	Returns the direction of the line segment (from point 0 to point 1).
-		MUU_PURE_INLINE_GETTER
+		MUU_NODISCARD
+		MUU_ALWAYS_INLINE
 		constexpr vector_type direction(scalar_type& length_out) const noexcept
 		{
 			return direction(*this, length_out);
diff --git a/include/muu/triangle.h b/include/muu/triangle.h
index acef499..70228c2 100644
--- a/include/muu/triangle.h
+++ b/include/muu/triangle.h
@@ -555,13 +555,14 @@ namespace muu
 		//--------------------------------
 
 		/// \brief	Returns true if two triangles intersect, plus the line segment of the intersection (if one exists).
-		MUU_PURE_GETTER
+		MUU_NODISCARD
 		static constexpr bool MUU_VECTORCALL intersects(MUU_VPARAM(triangle) tri1,
 														MUU_VPARAM(triangle) tri2,
 														std::optional<line_segment<scalar_type>>& seg) noexcept;
 
 		/// \brief	Returns true if a triangle intersects with another triangle, plus the line segment of the intersection (if one exists).
-		MUU_PURE_INLINE_GETTER
+		MUU_NODISCARD
+		MUU_ALWAYS_INLINE
 		constexpr bool MUU_VECTORCALL intersects(MUU_VPARAM(triangle) tri,
 												 std::optional<line_segment<scalar_type>>& seg) const noexcept
 		{
diff --git a/include/muu/vector.h b/include/muu/vector.h
index a52286a..700f0a0 100644
--- a/include/muu/vector.h
+++ b/include/muu/vector.h
@@ -2178,7 +2178,7 @@ namespace muu
 		///
 		/// \availability	This function is only available when #dimensions == 2 or 3.
 		MUU_HIDDEN_CONSTRAINT(Dims == 2 || Dims == 3, size_t Dims = Dimensions)
-		MUU_PURE_GETTER
+		MUU_NODISCARD
 		static constexpr delta_type MUU_VECTORCALL direction(MUU_VPARAM(vector) from,
 															 MUU_VPARAM(vector) to,
 															 delta_scalar_type& distance_out) noexcept
@@ -2227,7 +2227,8 @@ namespace muu
 		///
 		/// \availability	This function is only available when #dimensions == 2 or 3.
 		MUU_HIDDEN_CONSTRAINT(Dims == 2 || Dims == 3, size_t Dims = Dimensions)
-		MUU_PURE_INLINE_GETTER
+		MUU_NODISCARD
+		MUU_ALWAYS_INLINE
 		constexpr delta_type MUU_VECTORCALL direction(MUU_VPARAM(vector) to,
 													  delta_scalar_type& distance_out) const noexcept
 		{
-- 
2.43.0


From 963f585a5265916d5ec7758f131d69fc72413561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:15 +0000
Subject: [PATCH 52/99] fix: matrix::determinant() could not be called on const
 matrices

---
 include/muu/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/matrix.h b/include/muu/matrix.h
index c292ef0..472fd22 100644
--- a/include/muu/matrix.h
+++ b/include/muu/matrix.h
@@ -2756,7 +2756,7 @@ namespace muu
 		///					and has at most 4 rows and columns.
 		MUU_HIDDEN_CONSTRAINT(R == C && C <= 4, size_t R = Rows, size_t C = Columns)
 		MUU_PURE_GETTER
-		constexpr determinant_type determinant() noexcept
+		constexpr determinant_type determinant() const noexcept
 		{
 			return determinant(*this);
 		}
-- 
2.43.0


From cffcbb46bed2a08d75d16500021194c9ab8a7b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:15 +0000
Subject: [PATCH 53/99] fix: left-handed perspective projections did not map
 the clip range to the API's depth range

---
 include/muu/matrix.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/muu/matrix.h b/include/muu/matrix.h
index 472fd22..f0cf0c0 100644
--- a/include/muu/matrix.h
+++ b/include/muu/matrix.h
@@ -942,11 +942,11 @@ namespace muu::impl
 
 			if constexpr (!!(Mode & math_apis::opengl))
 			{
-				const auto c = -(far_clip + near_clip) / (far_clip - near_clip);
+				const auto e = (T{ -2 } * far_clip * near_clip) / (far_clip - near_clip);
 
 				if constexpr (!!(Mode & math_apis::left_handed))
 				{
-					const auto e = (T{ 2 } * far_clip * near_clip) / (far_clip - near_clip);
+					const auto c = (far_clip + near_clip) / (far_clip - near_clip);
 
 					// clang-format off
 					return
@@ -960,7 +960,7 @@ namespace muu::impl
 				}
 				else // right-handed
 				{
-					const auto e = (T{ -2 } * far_clip * near_clip) / (far_clip - near_clip);
+					const auto c = -(far_clip + near_clip) / (far_clip - near_clip);
 
 					// clang-format off
 					return
@@ -975,11 +975,11 @@ namespace muu::impl
 			}
 			else // directx
 			{
-				const auto c = far_clip / (near_clip - far_clip);
+				const auto e = near_clip * far_clip / (near_clip - far_clip);
 
 				if constexpr (!!(Mode & math_apis::left_handed))
 				{
-					const auto e = -near_clip * far_clip / (far_clip - near_clip);
+					const auto c = far_clip / (far_clip - near_clip);
 
 					// clang-format off
 					return
@@ -993,7 +993,7 @@ namespace muu::impl
 				}
 				else // right-handed
 				{
-					const auto e = near_clip * far_clip / (near_clip - far_clip);
+					const auto c = far_clip / (near_clip - far_clip);
 
 					// clang-format off
 					return
-- 
2.43.0


From 98275444efb1886e95fa10ba6cd9b59ad6dcc178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:15 +0000
Subject: [PATCH 54/99] fix: perspective_projection() from a screen size
 ignored the requested math API

---
 include/muu/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/matrix.h b/include/muu/matrix.h
index f0cf0c0..fabe108 100644
--- a/include/muu/matrix.h
+++ b/include/muu/matrix.h
@@ -1015,7 +1015,7 @@ namespace muu::impl
 																			   T near_clip,
 																			   T far_clip) noexcept
 		{
-			return perspective_projection(vertical_fov, screen_size.x / screen_size.y, near_clip, far_clip);
+			return perspective_projection<Mode>(vertical_fov, screen_size.x / screen_size.y, near_clip, far_clip);
 		}
 	};
 
-- 
2.43.0


From 6bf5bad41e8231f9d6f0e8fbbe2b1801df1bb839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:09 +0000
Subject: [PATCH 55/99] fix: inverting a 1x1 matrix did not compile

---
 include/muu/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/matrix.h b/include/muu/matrix.h
index fabe108..3b257e9 100644
--- a/include/muu/matrix.h
+++ b/include/muu/matrix.h
@@ -2781,7 +2781,7 @@ namespace muu
 
 				if constexpr (Columns == 1)
 				{
-					return inverse_type{ column_type{ scalar_type{ 1 } / m.m[0].x } };
+					return inverse_type{ scalar_type{ 1 } / m.m[0].x };
 				}
 				if constexpr (Columns == 2)
 				{
-- 
2.43.0


From 1bed7068e7f844fa28af603a364183d8bd95657d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:12 +0000
Subject: [PATCH 56/99] fix: euler angles were applied in the reverse of the
 documented order

---
 include/muu/quaternion.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/muu/quaternion.h b/include/muu/quaternion.h
index f3ccdbe..6fafd1b 100644
--- a/include/muu/quaternion.h
+++ b/include/muu/quaternion.h
@@ -716,10 +716,10 @@ namespace muu
 				const auto s3 = muu::sin(roll * scalar_constants::one_over_two);
 
 				return {
-					c1 * c2 * c3 - s1 * s2 * s3, // scalar
-					s1 * c2 * c3 - c1 * s2 * s3, // vector (x)
-					c1 * s2 * c3 + s1 * c2 * s3, // vector (y)
-					c1 * c2 * s3 + s1 * s2 * c3	 // vector (z)
+					c1 * c2 * c3 + s1 * s2 * s3, // scalar
+					s1 * c2 * c3 + c1 * s2 * s3, // vector (x)
+					c1 * s2 * c3 - s1 * c2 * s3, // vector (y)
+					c1 * c2 * s3 - s1 * s2 * c3	 // vector (z)
 				};
 			}
 		}
@@ -751,7 +751,7 @@ namespace muu
 				const auto sqx		  = q.v.x * q.v.x;
 				const auto sqy		  = q.v.y * q.v.y;
 				const auto sqz		  = q.v.z * q.v.z;
-				const auto test		  = q.v.y * q.v.z + q.s * q.v.x;
+				const auto test		  = q.s * q.v.x - q.v.y * q.v.z;
 				const auto correction = sqx + sqy + sqz + sqw;
 
 				// https://www.euclideanspace.com/maths/geometry/rotations/conversions/quaternionToEuler/index.htm
@@ -762,7 +762,7 @@ namespace muu
 				// singularity at north pole
 				if MUU_UNLIKELY(test > threshold * correction)
 				{
-					return { scalar_type{ -2 } * muu::atan2(q.v.z, q.s),
+					return { scalar_type{ 2 } * muu::atan2(q.v.z, q.s),
 							 scalar_constants::pi_over_two,
 							 scalar_constants::zero };
 				}
@@ -770,7 +770,7 @@ namespace muu
 				// singularity at south pole
 				else if MUU_UNLIKELY(test < -threshold * correction)
 				{
-					return { scalar_type{ 2 } * muu::atan2(q.v.z, q.s),
+					return { scalar_type{ -2 } * muu::atan2(q.v.z, q.s),
 							 -scalar_constants::pi_over_two,
 							 scalar_constants::zero };
 				}
@@ -780,9 +780,9 @@ namespace muu
 					// note the sign of yaw and roll are flipped;
 					// see from_euler() for an explanation
 
-					return { -muu::atan2(scalar_type{ -2 } * (q.v.x * q.v.z - q.s * q.v.y), sqw - sqx - sqy + sqz),
+					return { -muu::atan2(scalar_type{ 2 } * (q.v.x * q.v.z + q.s * q.v.y), sqw - sqx - sqy + sqz),
 							 muu::asin(scalar_type{ 2 } * test / correction),
-							 -muu::atan2(scalar_type{ -2 } * (q.v.x * q.v.y - q.s * q.v.z), sqw - sqx + sqy - sqz) };
+							 -muu::atan2(scalar_type{ 2 } * (q.v.x * q.v.y + q.s * q.v.z), sqw - sqx + sqy - sqz) };
 				}
 			}
 		}
-- 
2.43.0


From 7cba8da87ce7de420ff3f62436f27d08514463ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:12 +0000
Subject: [PATCH 57/99] fix: quaternion::from_rotation() assumed vectors of
 equal length

---
 include/muu/quaternion.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/quaternion.h b/include/muu/quaternion.h
index 6fafd1b..f45cf8f 100644
--- a/include/muu/quaternion.h
+++ b/include/muu/quaternion.h
@@ -813,7 +813,7 @@ namespace muu
 				MUU_FMA_BLOCK;
 
 				const auto k_cos_theta = vector_type::dot(from, to);
-				const auto k = muu::sqrt(vector_type::length_squared(from) * vector_type::length_squared(from));
+				const auto k = muu::sqrt(vector_type::length_squared(from) * vector_type::length_squared(to));
 
 				if (muu::approx_equal(k_cos_theta / k, scalar_type{ -1 }))
 				{
-- 
2.43.0


From 30fca4855f1a95a660a56bc644753d9d94aa8efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:58 +0000
Subject: [PATCH 58/99] fix: packed unit vectors did not round-trip

Coordinates were scaled by one less than the value unpacking divides by, coordinates
could round up to the value identifying an inversion, and converting the scale factor
to a float with less precision could overflow the stored field.
---
 include/muu/packed_unit_vector.h | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/include/muu/packed_unit_vector.h b/include/muu/packed_unit_vector.h
index b84ddfb..f6e664d 100644
--- a/include/muu/packed_unit_vector.h
+++ b/include/muu/packed_unit_vector.h
@@ -44,6 +44,8 @@ namespace muu::impl
 		static constexpr arith_type x_range = (arith_type{ 1 } << x_bits) - arith_type{ 1 };
 		static constexpr arith_type y_range = (arith_type{ 1 } << y_bits) - arith_type{ 1 };
 
+		static constexpr arith_type x_max = x_range - arith_type{ 1 }; // represents 1.0
+
 		static constexpr arith_type sign_mask = ((arith_type{ 1 } << sign_bits) - arith_type{ 1 }) << (x_bits + y_bits);
 		static constexpr arith_type x_mask	  = x_range << y_bits;
 		static constexpr arith_type y_mask	  = y_range;
@@ -89,14 +91,18 @@ namespace muu::impl
 					v.x /= (v.x + v.y);
 				}
 
-				arith_type ix = static_cast<arith_type>(v.x * static_cast<T>(x_range - arith_type{ 1 }) + T{ 0.5 });
-				MUU_ASSUME(ix <= x_range);
+				// note that x_max might be rounded up when converted to T
+				arith_type ix = static_cast<arith_type>(v.x * static_cast<T>(x_max) + T{ 0.5 });
+				if (ix > x_max)
+					ix = x_max;
 
 				// 3d path does the fancy inversion trick to get an extra bit of precision
 				if constexpr (Dimensions >= 3)
 				{
-					arith_type iy = static_cast<arith_type>(v.y * static_cast<T>(x_range - arith_type{ 1 }) + T{ 0.5 });
-					MUU_ASSUME(iy <= x_range);
+					// note that unpacking identifies the inversion by ix + iy being greater than x_max
+					arith_type iy = static_cast<arith_type>(v.y * static_cast<T>(x_max) + T{ 0.5 });
+					if (iy > x_max - ix)
+						iy = x_max - ix;
 
 					constexpr auto iy_half_threshold = (arith_type{ 1 } << x_bits) / arith_type{ 2 };
 					if (iy >= iy_half_threshold)
@@ -136,33 +142,37 @@ namespace muu::impl
 			{
 				static_assert(is_floating_point<T>);
 
-				constexpr auto x_range_div = T{ 1 } / static_cast<T>(x_range);
+				constexpr auto x_max_div = T{ 1 } / static_cast<T>(x_max);
 
 				if constexpr (Dimensions >= 3)
 				{
 					arith_type ix = (b & x_mask) >> y_bits;
 					arith_type iy = b & y_mask;
 
-					if (ix + iy > x_range)
+					if (ix + iy > x_max)
 					{
 						ix = x_range - ix;
 						iy = x_range - iy;
 					}
 
-					const auto x = static_cast<T>(ix) * x_range_div;
-					const auto y = static_cast<T>(iy) * x_range_div;
+					const auto iz = ix + iy < x_max ? x_max - ix - iy : arith_type{};
+					const auto x  = static_cast<T>(ix) * x_max_div;
+					const auto y  = static_cast<T>(iy) * x_max_div;
+					const auto z  = static_cast<T>(iz) * x_max_div;
 
 					return out_type::normalize(
 						out_type{ static_cast<T>(1 - (static_cast<int>(!!(b & x_sign_bit)) * 2)) * x,
 								  static_cast<T>(1 - (static_cast<int>(!!(b & y_sign_bit)) * 2)) * y,
-								  static_cast<T>(1 - (static_cast<int>(!!(b & z_sign_bit)) * 2)) * (T{ 1 } - x - y) });
+								  static_cast<T>(1 - (static_cast<int>(!!(b & z_sign_bit)) * 2)) * z });
 				}
 				else
 				{
-					const auto x = static_cast<T>(b & x_range) * x_range_div;
+					const auto ix = (b & x_range) < x_max ? (b & x_range) : x_max;
+					const auto x  = static_cast<T>(ix) * x_max_div;
+					const auto y  = static_cast<T>(x_max - ix) * x_max_div;
 					return out_type::normalize(
 						out_type{ static_cast<T>(1 - (static_cast<int>(!!(b & x_sign_bit)) * 2)) * x,
-								  static_cast<T>(1 - (static_cast<int>(!!(b & y_sign_bit)) * 2)) * (T{ 1 } - x) });
+								  static_cast<T>(1 - (static_cast<int>(!!(b & y_sign_bit)) * 2)) * y });
 				}
 			}
 		}
-- 
2.43.0


From d00cb8da199548f08ac0a867dd6bae3c489a2190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:55 +0000
Subject: [PATCH 59/99] fix: plane and line segment intersection was inverted

---
 include/muu/impl/geometry_common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/impl/geometry_common.h b/include/muu/impl/geometry_common.h
index ce14eae..f81fc69 100644
--- a/include/muu/impl/geometry_common.h
+++ b/include/muu/impl/geometry_common.h
@@ -152,7 +152,7 @@ namespace muu::impl
 																	 vector_param start,
 																	 vector_param end) noexcept
 		{
-			return signed_distance(normal, d, start) * signed_distance(normal, d, end) >= scalar_type{};
+			return signed_distance(normal, d, start) * signed_distance(normal, d, end) <= scalar_type{};
 		}
 	};
 }
-- 
2.43.0


From 3eedd259a3234db323ed86b3ac60139ab8e7ef59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:17 +0000
Subject: [PATCH 60/99] fix: planes were not transformed correctly by matrices
 with non-uniform scale or shear

---
 include/muu/plane.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/muu/plane.h b/include/muu/plane.h
index 017d620..3230133 100644
--- a/include/muu/plane.h
+++ b/include/muu/plane.h
@@ -511,7 +511,18 @@ namespace muu
 			}
 			else
 			{
-				return plane{ tx * p.origin(), tx.transform_direction(p.normal) };
+				// normals are transformed by the inverse transpose (here: the cofactor matrix, which is
+				// the inverse transpose scaled by the determinant)
+				const vector_type x{ tx.m[0] };
+				const vector_type y{ tx.m[1] };
+				const vector_type z{ tx.m[2] };
+				const auto yz	   = vector_type::cross(y, z);
+				const auto n	   = yz * p.normal.x							   //
+								   + vector_type::cross(z, x) * p.normal.y //
+								   + vector_type::cross(x, y) * p.normal.z;
+				const auto len	   = vector_type::length(p.normal);
+				const auto flipped = vector_type::dot(x, yz) < scalar_type{};
+				return plane{ tx * p.origin(), vector_type::normalize(n) * (flipped ? -len : len) };
 			}
 		}
 
-- 
2.43.0


From 7d872337248e2522d39c69eceec9cb6a7d08049d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:17 +0000
Subject: [PATCH 61/99] fix: line_segment::midpoint() did not compile for small
 floats

---
 include/muu/line_segment.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/muu/line_segment.h b/include/muu/line_segment.h
index ba0237a..13c6c1d 100644
--- a/include/muu/line_segment.h
+++ b/include/muu/line_segment.h
@@ -242,8 +242,8 @@ namespace muu
 		static constexpr vector_type MUU_VECTORCALL midpoint(MUU_VPARAM(line_segment) seg) noexcept
 		{
 			if constexpr (is_small_float)
-				return vector_type{ line_segment<promoted_scalar>::midpoint(promoted_vec{ seg.points[0] },
-																			promoted_vec{ seg.points[1] }) };
+				return vector_type{ line_segment<promoted_scalar>::midpoint(
+					line_segment<promoted_scalar>{ promoted_vec{ seg.points[0] }, promoted_vec{ seg.points[1] } }) };
 			else
 				return (seg.points[0] + seg.points[1]) / scalar_type{ 2 };
 		}
-- 
2.43.0


From 944d024afce9fc013e2640f90d804f11d5f72bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:17 +0000
Subject: [PATCH 62/99] fix: line segments were not coplanar() when the second
 started on the line of the first

---
 include/muu/line_segment.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/muu/line_segment.h b/include/muu/line_segment.h
index 13c6c1d..2143f0a 100644
--- a/include/muu/line_segment.h
+++ b/include/muu/line_segment.h
@@ -539,8 +539,16 @@ namespace muu
 													  MUU_VPARAM(line_segment) seg2,
 													  scalar_type epsilon = default_epsilon<scalar_type>) noexcept
 		{
-			const auto n = triangles::normal(seg1.points[0], seg1.points[1], seg2.points[0]);
-			return planes::contains_point(n, planes::d_term(seg1.points[0], n), seg2.points[1], epsilon);
+			// use whichever point of seg2 is further away from seg1 to define the plane
+			const auto dir	 = seg1.points[1] - seg1.points[0];
+			const auto n0	 = vector_type::cross(dir, seg2.points[0] - seg1.points[0]);
+			const auto n1	 = vector_type::cross(dir, seg2.points[1] - seg1.points[0]);
+			const auto first = vector_type::length_squared(n0) >= vector_type::length_squared(n1);
+			auto n			 = first ? n0 : n1;
+			if (vector_type::zero(n)) // all colinear
+				return true;
+			n = vector_type::normalize(n);
+			return planes::contains_point(n, planes::d_term(seg1.points[0], n), seg2.points[first ? 1 : 0], epsilon);
 		}
 
 		/// \brief	Returns true if two line segments are coplanar.
-- 
2.43.0


From 26923042082308b16466e62609b5352e2899ab0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:17 +0000
Subject: [PATCH 63/99] fix: closest points of degenerate line segments were
 NaN

---
 include/muu/impl/geometry_common.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/muu/impl/geometry_common.h b/include/muu/impl/geometry_common.h
index f81fc69..900ed4b 100644
--- a/include/muu/impl/geometry_common.h
+++ b/include/muu/impl/geometry_common.h
@@ -238,6 +238,9 @@ namespace muu::impl
 																  vector_param seg1,
 																  vector_param point) noexcept
 		{
+			if (seg0 == seg1)
+				return seg0;
+
 			scalar_type seg_len{};
 			const auto seg_dir = vector_type::direction(seg0, seg1, seg_len);
 			return seg0 + seg_dir * muu::clamp(lines::project_distance(seg0, seg_dir, point), scalar_type{}, seg_len);
-- 
2.43.0


From f459283ee3948eb92f0b3bdc447007afe8dc4580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:17 +0000
Subject: [PATCH 64/99] fix: triangles contained all points on the line through
 their second and third vertices

---
 include/muu/impl/geometry_common.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/muu/impl/geometry_common.h b/include/muu/impl/geometry_common.h
index 900ed4b..f7c8f31 100644
--- a/include/muu/impl/geometry_common.h
+++ b/include/muu/impl/geometry_common.h
@@ -426,7 +426,9 @@ namespace muu::impl
 			const auto v = vector_type::cross(c, a);
 			const auto w = vector_type::cross(a, b);
 
-			return vector_type::dot(u, v) >= scalar_type{} && vector_type::dot(u, w) >= scalar_type{};
+			return vector_type::dot(u, v) >= scalar_type{} //
+				&& vector_type::dot(u, w) >= scalar_type{} //
+				&& vector_type::dot(v, w) >= scalar_type{};
 		}
 
 		MUU_PURE_GETTER
-- 
2.43.0


From 9b25d3055cc9cd288bc39dc74809713075ddbfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:17 +0000
Subject: [PATCH 65/99] fix: the area of thin triangles was inaccurate or NaN

---
 include/muu/impl/geometry_common.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/muu/impl/geometry_common.h b/include/muu/impl/geometry_common.h
index f7c8f31..94f9f00 100644
--- a/include/muu/impl/geometry_common.h
+++ b/include/muu/impl/geometry_common.h
@@ -321,11 +321,7 @@ namespace muu::impl
 		{
 			MUU_FMA_BLOCK;
 
-			const auto a = vector_type::distance(p0, p1);
-			const auto b = vector_type::distance(p1, p2);
-			const auto c = vector_type::distance(p2, p0);
-			const auto s = (a + b + c) / scalar_type{ 2 };
-			return muu::sqrt(s * (s - a) * (s - b) * (s - c)); // heron's formula
+			return vector_type::length(vector_type::cross(p1 - p0, p2 - p0)) / scalar_type{ 2 };
 		}
 
 		MUU_PURE_GETTER
-- 
2.43.0


From 724c7b7d8ff83fc8aa88f50aee692798c8a92dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:21 +0000
Subject: [PATCH 66/99] fix: degenerate(triangle) did not compile

---
 include/muu/triangle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/triangle.h b/include/muu/triangle.h
index 70228c2..15bbed3 100644
--- a/include/muu/triangle.h
+++ b/include/muu/triangle.h
@@ -976,7 +976,7 @@ namespace muu
 	MUU_PURE_INLINE_GETTER
 	constexpr bool degenerate(const triangle<S>& tri) noexcept
 	{
-		return triangle<S>::degenerate(tri);
+		return tri.degenerate();
 	}
 }
 
-- 
2.43.0


From 998cd9344acdbd76f95d5d4a4725a56253da7acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:46 +0000
Subject: [PATCH 67/99] fix: intersection of coplanar triangles was decided by
 rounding errors

---
 include/muu/impl/tri_tri_intersection.h | 141 ++++++++++++------------
 1 file changed, 70 insertions(+), 71 deletions(-)

diff --git a/include/muu/impl/tri_tri_intersection.h b/include/muu/impl/tri_tri_intersection.h
index 57e302a..387b3c1 100644
--- a/include/muu/impl/tri_tri_intersection.h
+++ b/include/muu/impl/tri_tri_intersection.h
@@ -222,6 +222,42 @@ namespace muu::impl
 			return false;
 		}
 
+		MUU_PURE_GETTER
+		static constexpr scalar_type MUU_VECTORCALL max_component(vector_param v) noexcept
+		{
+			return muu::max(muu::abs(v[0]), muu::abs(v[1]), muu::abs(v[2]));
+		}
+
+		// the distances of U0-U2 from the plane of V0-V2 (scaled by the length of N)
+		// where anything that could be due to rounding alone is treated as zero
+		static constexpr void plane_distances(vector_param N,
+											  vector_param V0,
+											  vector_param V1,
+											  vector_param V2,
+											  vector_param U0,
+											  vector_param U1,
+											  vector_param U2,
+											  scalar_type& d0,
+											  scalar_type& d1,
+											  scalar_type& d2) noexcept
+		{
+			const auto W0  = U0 - V0;
+			const auto W1  = U1 - V0;
+			const auto W2  = U2 - V0;
+			const auto eps = EPSILON * max_component(V1 - V0) * max_component(V2 - V0)
+						   * muu::max(max_component(W0), max_component(W1), max_component(W2));
+
+			d0 = vector_type::dot(N, W0);
+			d1 = vector_type::dot(N, W1);
+			d2 = vector_type::dot(N, W2);
+			if (muu::abs(d0) < eps)
+				d0 = scalar_type{};
+			if (muu::abs(d1) < eps)
+				d1 = scalar_type{};
+			if (muu::abs(d2) < eps)
+				d2 = scalar_type{};
+		}
+
 		MUU_PURE_GETTER
 		static constexpr bool MUU_VECTORCALL intersects(vector_param V0,
 														vector_param V1,
@@ -230,39 +266,19 @@ namespace muu::impl
 														vector_param U1,
 														vector_param U2) noexcept
 		{
-			auto E1		  = V1 - V0;
-			auto E2		  = V2 - V0;
-			const auto N1 = vector_type::cross(E1, E2);
-			const auto d1 = -vector_type::dot(N1, V0);
-
-			auto du0 = vector_type::dot(N1, U0) + d1;
-			auto du1 = vector_type::dot(N1, U1) + d1;
-			auto du2 = vector_type::dot(N1, U2) + d1;
-			if (muu::abs(du0) < EPSILON)
-				du0 = scalar_type{};
-			if (muu::abs(du1) < EPSILON)
-				du1 = scalar_type{};
-			if (muu::abs(du2) < EPSILON)
-				du2 = scalar_type{};
+			const auto N1 = vector_type::cross(V1 - V0, V2 - V0);
+
+			scalar_type du0{}, du1{}, du2{};
+			plane_distances(N1, V0, V1, V2, U0, U1, U2, du0, du1, du2);
 			const auto du0du1 = du0 * du1;
 			const auto du0du2 = du0 * du2;
 			if (du0du1 > scalar_type{} && du0du2 > scalar_type{})
 				return false;
 
-			E1			  = U1 - U0;
-			E2			  = U2 - U0;
-			const auto N2 = vector_type::cross(E1, E2);
-			const auto d2 = -vector_type::dot(N2, U0);
-
-			auto dv0 = vector_type::dot(N2, V0) + d2;
-			auto dv1 = vector_type::dot(N2, V1) + d2;
-			auto dv2 = vector_type::dot(N2, V2) + d2;
-			if (muu::abs(dv0) < EPSILON)
-				dv0 = scalar_type{};
-			if (muu::abs(dv1) < EPSILON)
-				dv1 = scalar_type{};
-			if (muu::abs(dv2) < EPSILON)
-				dv2 = scalar_type{};
+			const auto N2 = vector_type::cross(U1 - U0, U2 - U0);
+
+			scalar_type dv0{}, dv1{}, dv2{};
+			plane_distances(N2, U0, U1, U2, V0, V1, V2, dv0, dv1, dv2);
 			const auto dv0dv1 = dv0 * dv1;
 			const auto dv0dv2 = dv0 * dv2;
 			if (dv0dv1 > scalar_type{} && dv0dv2 > scalar_type{})
@@ -386,40 +402,20 @@ namespace muu::impl
 		{
 			seg.reset();
 
-			auto E1		  = V1 - V0;
-			auto E2		  = V2 - V0;
-			const auto N1 = vector_type::cross(E1, E2);
-			const auto d1 = -vector_type::dot(N1, V0);
-
-			auto du0 = vector_type::dot(N1, U0) + d1;
-			auto du1 = vector_type::dot(N1, U1) + d1;
-			auto du2 = vector_type::dot(N1, U2) + d1;
-			if (muu::abs(du0) < EPSILON)
-				du0 = scalar_type{};
-			if (muu::abs(du1) < EPSILON)
-				du1 = scalar_type{};
-			if (muu::abs(du2) < EPSILON)
-				du2 = scalar_type{};
+			const auto N1 = vector_type::cross(V1 - V0, V2 - V0);
+
+			scalar_type du0{}, du1{}, du2{};
+			plane_distances(N1, V0, V1, V2, U0, U1, U2, du0, du1, du2);
 			const auto du0du1 = du0 * du1;
 			const auto du0du2 = du0 * du2;
 
 			if (du0du1 > scalar_type{} && du0du2 > scalar_type{})
 				return false;
 
-			E1			  = U1 - U0;
-			E2			  = U2 - U0;
-			const auto N2 = vector_type::cross(E1, E2);
-			const auto d2 = -vector_type::dot(N2, U0);
-
-			auto dv0 = vector_type::dot(N2, V0) + d2;
-			auto dv1 = vector_type::dot(N2, V1) + d2;
-			auto dv2 = vector_type::dot(N2, V2) + d2;
-			if (muu::abs(dv0) < EPSILON)
-				dv0 = scalar_type{};
-			if (muu::abs(dv1) < EPSILON)
-				dv1 = scalar_type{};
-			if (muu::abs(dv2) < EPSILON)
-				dv2 = scalar_type{};
+			const auto N2 = vector_type::cross(U1 - U0, U2 - U0);
+
+			scalar_type dv0{}, dv1{}, dv2{};
+			plane_distances(N2, U0, U1, U2, V0, V1, V2, dv0, dv1, dv2);
 			const auto dv0dv1 = dv0 * dv1;
 			const auto dv0dv2 = dv0 * dv2;
 			if (dv0dv1 > scalar_type{} && dv0dv2 > scalar_type{})
@@ -472,21 +468,24 @@ namespace muu::impl
 			scalar_type isect2[2];
 			vector_type isectpointB1;
 			vector_type isectpointB2;
-			compute_intervals_isectline(U0,
-										U1,
-										U2,
-										up0,
-										up1,
-										up2,
-										du0,
-										du1,
-										du2,
-										du0du1,
-										du0du2,
-										isect2[0],
-										isect2[1],
-										isectpointB1,
-										isectpointB2);
+			if (compute_intervals_isectline(U0,
+											U1,
+											U2,
+											up0,
+											up1,
+											up2,
+											du0,
+											du1,
+											du2,
+											du0du1,
+											du0du2,
+											isect2[0],
+											isect2[1],
+											isectpointB1,
+											isectpointB2))
+			{
+				return coplanar_tri_tri(N1, V0, V1, V2, U0, U1, U2);
+			}
 
 			unsigned smallest1{};
 			unsigned smallest2{};
-- 
2.43.0


From 977a299fa8ba95459ae1b1449377d95ea415bdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:18 +0000
Subject: [PATCH 68/99] fix: approx_zero() of a bounding sphere did not compile

---
 include/muu/bounding_sphere.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/bounding_sphere.h b/include/muu/bounding_sphere.h
index 2eaea6b..140c997 100644
--- a/include/muu/bounding_sphere.h
+++ b/include/muu/bounding_sphere.h
@@ -333,7 +333,7 @@ namespace muu
 		static constexpr bool MUU_VECTORCALL approx_zero(MUU_VPARAM(bounding_sphere) bs,
 														 scalar_type epsilon = default_epsilon<scalar_type>) noexcept
 		{
-			return vector_type::approx_zero(bs.center, epsilon) && vector_type::approx_zero(bs.radius, epsilon);
+			return vector_type::approx_zero(bs.center, epsilon) && muu::approx_zero(bs.radius, epsilon);
 		}
 
 		/// \brief	Returns true if all the scalar components in the bounding sphere are approximately equal to zero.
-- 
2.43.0


From c151b54454848934d97c81797b9ed89ae90ca0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:18 +0000
Subject: [PATCH 69/99] fix: closest point on a bounding sphere ignored where
 its center is

---
 include/muu/bounding_sphere.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/bounding_sphere.h b/include/muu/bounding_sphere.h
index 140c997..5c261d3 100644
--- a/include/muu/bounding_sphere.h
+++ b/include/muu/bounding_sphere.h
@@ -436,7 +436,7 @@ namespace muu
 			if (dist_squared <= base::radius * base::radius)
 				return point;
 
-			return vector_type::normalize_lensq(delta, dist_squared) * base::radius;
+			return base::center + vector_type::normalize_lensq(delta, dist_squared) * base::radius;
 		}
 
 				/// @}
-- 
2.43.0


From 3d092bd375cf11d15ae65a427717af3a6470e9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:18 +0000
Subject: [PATCH 70/99] fix: bounding spheres were compared using sums of
 squares instead of squares of sums

---
 include/muu/bounding_sphere.h | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/include/muu/bounding_sphere.h b/include/muu/bounding_sphere.h
index 5c261d3..6e583b5 100644
--- a/include/muu/bounding_sphere.h
+++ b/include/muu/bounding_sphere.h
@@ -618,14 +618,10 @@ namespace muu
 		static constexpr bool MUU_VECTORCALL contains(MUU_VPARAM(bounding_sphere) outer,
 													  MUU_VPARAM(bounding_sphere) inner) noexcept
 		{
-			const auto dist_squared		 = vector_type::distance_squared(outer.center, inner.center);
-			const auto outer_rad_squared = outer.radius * outer.radius;
-			const auto inner_rad_squared = inner.radius * inner.radius;
+			const auto rad_difference = outer.radius - inner.radius;
 
-			if (dist_squared > (outer_rad_squared + inner_rad_squared))
-				return false;
-
-			return outer_rad_squared >= dist_squared + inner_rad_squared;
+			return rad_difference >= scalar_type{}
+				&& vector_type::distance_squared(outer.center, inner.center) <= rad_difference * rad_difference;
 		}
 
 		/// \brief	Returns true if the bounding sphere contains all the points of another bounding sphere.
@@ -640,8 +636,9 @@ namespace muu
 		static constexpr bool MUU_VECTORCALL intersects(MUU_VPARAM(bounding_sphere) bs1,
 														MUU_VPARAM(bounding_sphere) bs2) noexcept
 		{
-			return vector_type::distance_squared(bs1.center, bs2.center)
-				<= ((bs1.radius * bs1.radius) + (bs2.radius * bs2.radius));
+			const auto rad_sum = bs1.radius + bs2.radius;
+
+			return vector_type::distance_squared(bs1.center, bs2.center) <= rad_sum * rad_sum;
 		}
 
 		/// \brief	Returns true if two bounding spheres intersect.
@@ -790,13 +787,17 @@ namespace muu
 		MUU_PURE_INLINE_GETTER
 		constexpr bool MUU_VECTORCALL operator()(MUU_VPARAM(sphere_type) bs) const noexcept
 		{
-			return vector_type::distance_squared(center, bs.center) <= (radius_squared + bs.radius * bs.radius);
+			const auto rad_sum = radius + bs.radius;
+
+			return vector_type::distance_squared(center, bs.center) <= rad_sum * rad_sum;
 		}
 
 		MUU_PURE_INLINE_GETTER
 		constexpr bool MUU_VECTORCALL operator()(const collision_tester& tester) const noexcept
 		{
-			return vector_type::distance_squared(center, tester.center) <= (radius_squared + tester.radius_squared);
+			const auto rad_sum = radius + tester.radius;
+
+			return vector_type::distance_squared(center, tester.center) <= rad_sum * rad_sum;
 		}
 
 		MUU_PURE_GETTER
-- 
2.43.0


From 601c3c772cc4915012d4ef48abb259379dee458e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:18 +0000
Subject: [PATCH 71/99] fix: intersection of spheres and triangles did not
 compile for double

---
 include/muu/bounding_sphere.h | 40 +++++++++++++++++------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/include/muu/bounding_sphere.h b/include/muu/bounding_sphere.h
index 6e583b5..fdf781a 100644
--- a/include/muu/bounding_sphere.h
+++ b/include/muu/bounding_sphere.h
@@ -551,43 +551,43 @@ namespace muu
 		{
 			// https://realtimecollisiondetection.net/blog/?p=103
 
-			p0 -= bs.center;
-			p1 -= bs.center;
-			p2 -= bs.center;
+			const vector_type A = p0 - bs.center;
+			const vector_type B = p1 - bs.center;
+			const vector_type C = p2 - bs.center;
 			const auto rr = bs.radius * bs.radius;
-			const auto V  = vector_type::cross(p1 - p0, p2 - p0);
-			const auto d  = vector_type::dot(p0, V);
+			const auto V  = vector_type::cross(B - A, C - A);
+			const auto d  = vector_type::dot(A, V);
 			const auto e  = vector_type::dot(V, V);
 			if (d * d > rr * e)
 				return false;
 
-			const auto aa	= vector_type::dot(p0, p0);
-			const auto ab	= vector_type::dot(p0, p1);
-			const auto ac	= vector_type::dot(p0, p2);
-			const auto bb	= vector_type::dot(p1, p1);
-			const auto bc	= vector_type::dot(p1, p2);
-			const auto cc	= vector_type::dot(p2, p2);
+			const auto aa	= vector_type::dot(A, A);
+			const auto ab	= vector_type::dot(A, B);
+			const auto ac	= vector_type::dot(A, C);
+			const auto bb	= vector_type::dot(B, B);
+			const auto bc	= vector_type::dot(B, C);
+			const auto cc	= vector_type::dot(C, C);
 			const auto sep2 = (aa > rr) && (ab > aa) && (ac > aa);
 			const auto sep3 = (bb > rr) && (ab > bb) && (bc > bb);
 			const auto sep4 = (cc > rr) && (ac > cc) && (bc > cc);
 			if (sep2 || sep3 || sep4)
 				return false;
 
-			const auto AB	= p1 - p0;
-			const auto BC	= p2 - p1;
-			const auto CA	= p0 - p2;
+			const auto AB	= B - A;
+			const auto BC	= C - B;
+			const auto CA	= A - C;
 			const auto d1	= ab - aa;
 			const auto d2	= bc - bb;
 			const auto d3	= ac - cc;
 			const auto e1	= vector_type::dot(AB, AB);
 			const auto e2	= vector_type::dot(BC, BC);
 			const auto e3	= vector_type::dot(CA, CA);
-			const auto Q1	= p0 * e1 - d1 * AB;
-			const auto Q2	= p1 * e2 - d2 * BC;
-			const auto Q3	= p2 * e3 - d3 * CA;
-			const auto QC	= p2 * e1 - Q1;
-			const auto QA	= p0 * e2 - Q2;
-			const auto QB	= p1 * e3 - Q3;
+			const auto Q1	= A * e1 - d1 * AB;
+			const auto Q2	= B * e2 - d2 * BC;
+			const auto Q3	= C * e3 - d3 * CA;
+			const auto QC	= C * e1 - Q1;
+			const auto QA	= A * e2 - Q2;
+			const auto QB	= B * e3 - Q3;
 			const auto sep5 = (vector_type::dot(Q1, Q1) > rr * e1 * e1) && (vector_type::dot(Q1, QC) > scalar_type{});
 			const auto sep6 = (vector_type::dot(Q2, Q2) > rr * e2 * e2) && (vector_type::dot(Q2, QA) > scalar_type{});
 			const auto sep7 = (vector_type::dot(Q3, Q3) > rr * e3 * e3) && (vector_type::dot(Q3, QB) > scalar_type{});
-- 
2.43.0


From 8459bd9d3f02bfc51599a603b8f6ff74850665e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:18 +0000
Subject: [PATCH 72/99] fix: intersection of half-precision spheres and
 triangles overflowed

---
 include/muu/bounding_sphere.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/muu/bounding_sphere.h b/include/muu/bounding_sphere.h
index fdf781a..1eed185 100644
--- a/include/muu/bounding_sphere.h
+++ b/include/muu/bounding_sphere.h
@@ -549,6 +549,14 @@ namespace muu
 														MUU_VPARAM(vector_type) p1,
 														MUU_VPARAM(vector_type) p2) noexcept
 		{
+			if constexpr (requires_promotion)
+			{
+				return promoted_sphere::intersects(promoted_sphere{ bs },
+												   promoted_vec3{ p0 },
+												   promoted_vec3{ p1 },
+												   promoted_vec3{ p2 });
+			}
+
 			// https://realtimecollisiondetection.net/blog/?p=103
 
 			const vector_type A = p0 - bs.center;
-- 
2.43.0


From 7a7e2637f6cf7fb3ab63ba94465b5217e106053f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:18 +0000
Subject: [PATCH 73/99] fix: volume of a bounding sphere used 4/(3*pi) instead
 of (4/3)*pi

---
 include/muu/impl/geometry_common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/impl/geometry_common.h b/include/muu/impl/geometry_common.h
index 94f9f00..56987de 100644
--- a/include/muu/impl/geometry_common.h
+++ b/include/muu/impl/geometry_common.h
@@ -472,7 +472,7 @@ namespace muu::impl
 		MUU_PURE_GETTER
 		static constexpr scalar_type MUU_VECTORCALL volume(scalar_type radius) noexcept
 		{
-			return constants<scalar_type>::four_over_three_pi * radius * radius * radius;
+			return constants<scalar_type>::four_over_three * constants<scalar_type>::pi * radius * radius * radius;
 		}
 	};
 }
-- 
2.43.0


From 5b74f7dd989ecb8bcd4921c03b3a81bc08d57fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:18 +0000
Subject: [PATCH 74/99] fix: transforming a flat oriented bounding box made its
 axes NaN

---
 include/muu/oriented_bounding_box.h | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/include/muu/oriented_bounding_box.h b/include/muu/oriented_bounding_box.h
index 95b5764..9b2edb0 100644
--- a/include/muu/oriented_bounding_box.h
+++ b/include/muu/oriented_bounding_box.h
@@ -650,17 +650,15 @@ namespace muu
 			}
 			else
 			{
+				// transform the axes as directions so they're well-defined even if the box is flat
+				const auto axes = axes_type{ tx } * bb.axes;
+
 				oriented_bounding_box out{ tx * bb.center, vector_type{} };
 
-				out.axes.x_column() =
-					vector_type::normalize(tx * (bb.center + bb.axes.x_column() * bb.extents.x) - out.center,
-										   out.extents.x);
-				out.axes.y_column() =
-					vector_type::normalize(tx * (bb.center + bb.axes.y_column() * bb.extents.y) - out.center,
-										   out.extents.y);
-				out.axes.z_column() =
-					vector_type::normalize(tx * (bb.center + bb.axes.z_column() * bb.extents.z) - out.center,
-										   out.extents.z);
+				out.axes.x_column() = vector_type::normalize(axes.x_column(), out.extents.x);
+				out.axes.y_column() = vector_type::normalize(axes.y_column(), out.extents.y);
+				out.axes.z_column() = vector_type::normalize(axes.z_column(), out.extents.z);
+				out.extents *= bb.extents;
 
 				return out;
 			}
-- 
2.43.0


From 0e89ab143dd92e29bbedc7d6704d73b429ace38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:18 +0000
Subject: [PATCH 75/99] fix: ray::infinity_or_nan() required both the origin
 and the direction to be affected

---
 include/muu/ray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/ray.h b/include/muu/ray.h
index c685661..ff772d1 100644
--- a/include/muu/ray.h
+++ b/include/muu/ray.h
@@ -155,7 +155,7 @@ namespace muu
 		static constexpr bool MUU_VECTORCALL infinity_or_nan(MUU_VPARAM(ray) r) noexcept
 		{
 			return vector_type::infinity_or_nan(r.origin) //
-				&& vector_type::infinity_or_nan(r.direction);
+				|| vector_type::infinity_or_nan(r.direction);
 		}
 
 		/// \brief	Returns true if any of the scalars in the ray are infinity or NaN.
-- 
2.43.0


From 1845f7293007b16dbcffbc43edc4e4ed6491a351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:18 +0000
Subject: [PATCH 76/99] fix: rays hit triangles behind them

---
 include/muu/impl/geometry_common.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/muu/impl/geometry_common.h b/include/muu/impl/geometry_common.h
index 56987de..807f9b1 100644
--- a/include/muu/impl/geometry_common.h
+++ b/include/muu/impl/geometry_common.h
@@ -1055,7 +1055,12 @@ namespace muu::impl
 			if (v < scalar_type{} || u + v > scalar_type{ 1 })
 				return {};
 
-			return vector_type::dot(v0v2, qvec) * invDet;
+			// triangles behind the ray are not hit
+			const scalar_type hit_distance = vector_type::dot(v0v2, qvec) * invDet;
+			if (hit_distance < scalar_type{})
+				return {};
+
+			return hit_distance;
 		}
 
 		MUU_PURE_GETTER
-- 
2.43.0


From de7152a27eeefbf5e93a90044bb0b84c9225f18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:18 +0000
Subject: [PATCH 77/99] fix: rays starting inside a sphere missed it when
 pointing away from its center

---
 include/muu/impl/geometry_common.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/muu/impl/geometry_common.h b/include/muu/impl/geometry_common.h
index 807f9b1..f8559f4 100644
--- a/include/muu/impl/geometry_common.h
+++ b/include/muu/impl/geometry_common.h
@@ -1074,14 +1074,14 @@ namespace muu::impl
 			const vector_type e = sphere_center - ray_origin;
 			const scalar_type a = vector_type::dot(e, ray_direction);
 
-			// ray points in the wrong direction
-			if (a < scalar_type{})
-				return {};
-
 			const scalar_type e2 = vector_type::length_squared(e);
 			const scalar_type r2 = sphere_radius * sphere_radius;
 			const scalar_type a2 = a * a;
 
+			// ray starts outside and points in the wrong direction
+			if (a < scalar_type{} && e2 > r2)
+				return {};
+
 			// no collision
 			if (r2 - e2 + a2 < default_epsilon<scalar_type>)
 				return {};
-- 
2.43.0


From de3823093c46ca4dcf8c8d5a33430098a06209d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:18 +0000
Subject: [PATCH 78/99] fix: rays through the center of a sphere could hit it
 at NaN

---
 include/muu/impl/geometry_common.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/muu/impl/geometry_common.h b/include/muu/impl/geometry_common.h
index f8559f4..e774032 100644
--- a/include/muu/impl/geometry_common.h
+++ b/include/muu/impl/geometry_common.h
@@ -1086,8 +1086,7 @@ namespace muu::impl
 			if (r2 - e2 + a2 < default_epsilon<scalar_type>)
 				return {};
 
-			const scalar_type b = muu::sqrt(e2 - a2);
-			const scalar_type f = muu::sqrt(r2 - (b * b));
+			const scalar_type f = muu::sqrt(r2 - e2 + a2);
 
 			// ray inside sphere
 			if (e2 < r2)
-- 
2.43.0


From f9272f37e854f7d258544624e273d57e44c51801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:18 +0000
Subject: [PATCH 79/99] fix: axis-aligned rays in the plane of a box's face hit
 it at infinity

---
 include/muu/impl/geometry_common.h | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/muu/impl/geometry_common.h b/include/muu/impl/geometry_common.h
index e774032..7bb1455 100644
--- a/include/muu/impl/geometry_common.h
+++ b/include/muu/impl/geometry_common.h
@@ -1104,14 +1104,23 @@ namespace muu::impl
 		{
 			MUU_FMA_BLOCK;
 
-			const auto t1	= (box_min.x - ray_origin.x) / ray_direction.x;
-			const auto t2	= (box_max.x - ray_origin.x) / ray_direction.x;
-			const auto t3	= (box_min.y - ray_origin.y) / ray_direction.y;
-			const auto t4	= (box_max.y - ray_origin.y) / ray_direction.y;
-			const auto t5	= (box_min.z - ray_origin.z) / ray_direction.z;
-			const auto t6	= (box_max.z - ray_origin.z) / ray_direction.z;
-			const auto tmin = muu::max(muu::min(t1, t2), muu::min(t3, t4), muu::min(t5, t6));
-			const auto tmax = muu::min(muu::max(t1, t2), muu::max(t3, t4), muu::max(t5, t6));
+			scalar_type tmin = -constants<scalar_type>::infinity;
+			scalar_type tmax = constants<scalar_type>::infinity;
+			for (size_t i = 0; i < 3; i++)
+			{
+				// parallel to these faces (0/0 would be NaN if the origin was in the plane of one of them)
+				if (ray_direction[i] == scalar_type{})
+				{
+					if (ray_origin[i] < box_min[i] || ray_origin[i] > box_max[i])
+						return {};
+					continue;
+				}
+
+				const scalar_type t1 = (box_min[i] - ray_origin[i]) / ray_direction[i];
+				const scalar_type t2 = (box_max[i] - ray_origin[i]) / ray_direction[i];
+				tmin				 = muu::max(tmin, muu::min(t1, t2));
+				tmax				 = muu::min(tmax, muu::max(t1, t2));
+			}
 
 			if (tmax < scalar_type{} || tmin > tmax)
 				return {};
-- 
2.43.0


From cb1b404afd9ae380302e809a0ac151ce432822a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:18 +0000
Subject: [PATCH 80/99] fix: boxes separated only across two edges counted as
 intersecting

---
 .../impl/bounding_box_x_oriented_bounding_box.h  | 16 +++++++++++++++-
 include/muu/oriented_bounding_box.h              | 13 +++++++++++++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/include/muu/impl/bounding_box_x_oriented_bounding_box.h b/include/muu/impl/bounding_box_x_oriented_bounding_box.h
index 6a0f279..f3b1a97 100644
--- a/include/muu/impl/bounding_box_x_oriented_bounding_box.h
+++ b/include/muu/impl/bounding_box_x_oriented_bounding_box.h
@@ -99,7 +99,21 @@ namespace muu
 				return false;
 		}
 
-		return true;
+		// test the cross products of their edges
+		const auto test_edges = [&](auto idx) noexcept -> bool
+		{
+			constexpr auto axis_index = remove_cvref<decltype(idx)>::value;
+			for (size_t i = 0; i < 3; i++)
+			{
+				const vector_type axis = vector_type::cross(obb.axes.m[i], index_tag<axis_index>{});
+				sat_tester tester1{ axis, obb_corners };
+				sat_tester tester2{ axis, aabb_corners };
+				if (!tester1(tester2))
+					return false;
+			}
+			return true;
+		};
+		return test_edges(x_axis_tag{}) && test_edges(y_axis_tag{}) && test_edges(z_axis_tag{});
 	}
 }
 
diff --git a/include/muu/oriented_bounding_box.h b/include/muu/oriented_bounding_box.h
index 9b2edb0..9a00409 100644
--- a/include/muu/oriented_bounding_box.h
+++ b/include/muu/oriented_bounding_box.h
@@ -899,6 +899,19 @@ namespace muu
 						return false;
 				}
 			}
+
+			// test the cross products of their edges
+			for (size_t i = 0; i < 3; i++)
+			{
+				for (size_t j = 0; j < 3; j++)
+				{
+					const vector_type axis = vector_type::cross(bb1.axes.m[i], bb2.axes.m[j]);
+					sat_tester tester1{ axis, corners1 };
+					sat_tester tester2{ axis, corners2 };
+					if (!tester1(tester2))
+						return false;
+				}
+			}
 			return true;
 		}
 
-- 
2.43.0


From 46c92a24b0d0f2a3790ebb635a9206097827efe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:00 +0000
Subject: [PATCH 81/99] fix: move-assigning a thread_pool leaked the
 assigned-to pool

---
 include/muu/thread_pool.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/muu/thread_pool.h b/include/muu/thread_pool.h
index 13c9788..22c0785 100644
--- a/include/muu/thread_pool.h
+++ b/include/muu/thread_pool.h
@@ -754,7 +754,11 @@ namespace muu
 		/// \brief	Move-assignment operator.
 		thread_pool& operator=(thread_pool&& rhs) noexcept
 		{
-			storage_ = std::exchange(rhs.storage_, nullptr);
+			if (this != &rhs)
+			{
+				if (auto storage = std::exchange(storage_, std::exchange(rhs.storage_, nullptr)))
+					::muu_impl_thread_pool_destroy(storage);
+			}
 			return *this;
 		}
 
-- 
2.43.0


From 5b2344f6caaeb2096859071ab727ba5c49d40f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:00 +0000
Subject: [PATCH 82/99] fix: thread_pool::wait() could return before the last
 tasks' captured state was destroyed

---
 src/thread_pool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 87f56fc..43684ae 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -365,8 +365,8 @@ namespace
 									 if (t)
 									 {
 										 (*t)(worker_index);
-										 monitor->decrement();
 										 t->~task();
+										 monitor->decrement();
 									 }
 								 }
 							 } };
-- 
2.43.0


From b63d027623a6b6d3a7576136e93d96d2684e55a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:00 +0000
Subject: [PATCH 83/99] fix: for_each() did not compile for reversed ranges of
 small integers, and lost elements next to the type's limits

---
 include/muu/thread_pool.h | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/include/muu/thread_pool.h b/include/muu/thread_pool.h
index 22c0785..3213ae0 100644
--- a/include/muu/thread_pool.h
+++ b/include/muu/thread_pool.h
@@ -849,7 +849,7 @@ namespace muu
 			static_assert(std::is_same_v<std::remove_reference_t<OriginalTask>, std::remove_reference_t<Task>>);
 			static_assert(Arity <= 2);
 
-			MUU_ASSERT(batch_start < batch_end);
+			MUU_ASSERT(batch_start != batch_end);
 			MUU_ASSERT(batch_index < workers());
 
 			const auto queue_index = shared_queue_index == no_available_queue //
@@ -859,12 +859,14 @@ namespace muu
 			enqueue(queue_index,
 					[=, batch = wrap_batched_task<OriginalTask>(static_cast<Task&&>(task))]() mutable noexcept
 					{
-						for (; batch_start < batch_end; batch_start++)
+						// (the end may have wrapped around if the batch includes the maximum value of T)
+						while (batch_start != batch_end)
 						{
 							if constexpr (Arity == 2)
 								batch(static_cast<ValueType>(batch_start), batch_index);
 							else
 								batch(static_cast<ValueType>(batch_start));
+							batch_start = static_cast<T>(static_cast<make_unsigned<T>>(batch_start) + 1u);
 						}
 					});
 
@@ -924,20 +926,19 @@ namespace muu
 			using size_type	  = largest<make_unsigned<offset_type>, size_t>;
 
 			// reverse the start and end if they're backwards (this is a parallel for; order should be irrelevant)
-			if (start > end)
-			{
-				T temp = end;
-				end	   = T{ static_cast<remove_enum<T>>(start) + remove_enum<T>{ 1 } };
-				start  = T{ static_cast<remove_enum<T>>(temp) + remove_enum<T>{ 1 } };
-			}
+			// (unsigned arithmetic, because the distance or the new end may not be representable as T)
+			using unsigned_type		  = make_unsigned<offset_type>;
+			const bool reversed		  = start > end;
+			const auto unsigned_start = static_cast<unsigned_type>(static_cast<offset_type>(start));
+			const auto unsigned_end	  = static_cast<unsigned_type>(static_cast<offset_type>(end));
 
 			// determine batch count and distribute indices
 			const auto job_count =
-				static_cast<size_type>(static_cast<offset_type>(end) - static_cast<offset_type>(start));
+				static_cast<size_type>(reversed ? unsigned_start - unsigned_end : unsigned_end - unsigned_start);
 			MUU_ASSERT(job_count);
 			const auto worker_count		 = this->workers();
 			auto batch_generator		 = impl::batch_size_generator<size_type>{ job_count, worker_count };
-			offset_type next_batch_start = unwrap(start);
+			offset_type next_batch_start = static_cast<offset_type>(reversed ? unsigned_end + 1u : unsigned_start);
 			size_type next_batch_size	 = batch_generator();
 			size_t batch_index			 = 0u;
 			auto batch_count			 = muu::min(job_count, worker_count);
-- 
2.43.0


From 7c94c5ba111d2cd5c8dc26dd17b51e8f52afdc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:40 +0000
Subject: [PATCH 84/99] fix: axis_angle could not be printed

---
 include/muu/axis_angle.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/muu/axis_angle.h b/include/muu/axis_angle.h
index 2e8e43a..e97f8e9 100644
--- a/include/muu/axis_angle.h
+++ b/include/muu/axis_angle.h
@@ -164,7 +164,9 @@ namespace muu
 		template <typename Char, typename Traits>
 		friend std::basic_ostream<Char, Traits>& operator<<(std::basic_ostream<Char, Traits>& os, const axis_angle& rot)
 		{
-			impl::print_compound_vector(os, &rot.axis.x, 3_sz, true, &rot.angle, 1_sz, false);
+			const impl::compound_vector_elem<scalar_type> elems[]{ { &rot.axis.x, 3 }, //
+																   { &rot.angle, 1 } };
+			impl::print_compound_vector(os, elems);
 			return os;
 		}
 
-- 
2.43.0


From 8b5029eef20be50d75b791549ec44df13626bc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:40 +0000
Subject: [PATCH 85/99] fix: printing to a stream that throws on failure
 terminated the program

---
 src/vector_types_common.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vector_types_common.cpp b/src/vector_types_common.cpp
index cdb6941..37116c0 100644
--- a/src/vector_types_common.cpp
+++ b/src/vector_types_common.cpp
@@ -16,7 +16,7 @@ MUU_FORCE_NDEBUG_OPTIMIZATIONS;
 namespace
 {
 	template <typename Char, typename T>
-	static void print_vector(std::basic_ostream<Char>& os, const T* x, size_t dims) noexcept
+	static void print_vector(std::basic_ostream<Char>& os, const T* x, size_t dims)
 	{
 		auto saver	= stream_saver{ os }; // restores flags, precision, width and fill
 		saver.width = 0;				  // operator<< consumes width
@@ -246,7 +246,7 @@ namespace muu::impl
 namespace
 {
 	template <typename Char, typename T>
-	static void print_matrix(std::basic_ostream<Char>& os, const T* m, size_t rows, size_t cols) noexcept
+	static void print_matrix(std::basic_ostream<Char>& os, const T* m, size_t rows, size_t cols)
 	{
 		if (rows == 1)
 		{
@@ -499,7 +499,7 @@ namespace
 	template <typename Char, typename T>
 	static void print_compound_vector(std::basic_ostream<Char>& os,
 									  const impl::compound_vector_elem<T>* elem,
-									  size_t count) noexcept
+									  size_t count)
 	{
 		MUU_ASSERT(elem);
 		MUU_ASSERT(count);
-- 
2.43.0


From 89b1def48f152a1e41a31c13ab2768d44a7e55de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:40 +0000
Subject: [PATCH 86/99] fix: 128-bit integers were printed modulo 2^64

---
 src/stream_printer.h | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/stream_printer.h b/src/stream_printer.h
index b8f0529..815aba0 100644
--- a/src/stream_printer.h
+++ b/src/stream_printer.h
@@ -184,6 +184,39 @@ namespace muu
 		stream_printer(std::basic_ostream<Char>& os) noexcept : stream{ os }
 		{}
 
+#if MUU_HAS_INT128
+		template <typename T>
+		static void print_int128(std::basic_ostream<Char>& os, T value)
+		{
+			static_assert(any_same<T, int128_t, uint128_t>);
+
+			// use the regular operator<< if the value fits in a standard type
+			if (static_cast<T>(static_cast<stream_output_cast_type<T>>(value)) == value)
+			{
+				os << static_cast<stream_output_cast_type<T>>(value);
+				return;
+			}
+
+			[[maybe_unused]] bool negative = false;
+			if constexpr (is_signed<T>)
+				negative = value < T{};
+
+			Char buffer[40]; // sign + 39 digits
+			auto pos	   = buffer + 40;
+			auto magnitude = static_cast<uint128_t>(value);
+			if (negative)
+				magnitude = uint128_t{} - magnitude;
+			for (; magnitude; magnitude /= 10u)
+				*--pos = static_cast<Char>('0' + static_cast<int>(magnitude % 10u));
+			if (negative)
+				*--pos = static_cast<Char>('-');
+			else if (is_signed<T> && (os.flags() & std::ios_base::showpos))
+				*--pos = static_cast<Char>('+');
+
+			os << std::basic_string_view<Char>{ pos, static_cast<size_t>(buffer + 40 - pos) };
+		}
+#endif
+
 		template <typename T>
 		static void print_number(std::basic_ostream<Char>& os, T value)
 		{
@@ -192,6 +225,13 @@ namespace muu
 			stream_width_saver w{ os };
 			os << std::right;
 
+#if MUU_HAS_INT128
+			// 128-bit integers might not fit in any of the standard types
+			if constexpr (is_integral<T> && sizeof(T) == 16)
+				print_int128(os, value);
+			else
+#endif
+
 			// print chars as ints so they don't get interpreted as text;
 			// non-standard ints and floats can just get casted if they don't have an operator<< overload
 			if constexpr ((is_integral<T> && sizeof(T) == 1) || !has_stream_output_operator<T, Char>)
-- 
2.43.0


From 33d39d92f9909e44ccf80d423ff26b1c75d4fb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:00 +0000
Subject: [PATCH 87/99] fix: type_name did not compile for templates of types
 only

---
 include/muu/type_name.h | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/include/muu/type_name.h b/include/muu/type_name.h
index 43b20b1..41e39f2 100644
--- a/include/muu/type_name.h
+++ b/include/muu/type_name.h
@@ -485,26 +485,26 @@ namespace muu
 
 		// one type then one or more NTTPs
 
-		template <template <typename, auto...> typename T, typename U, auto... N>
-		struct type_name_<T<U, N...>>
+		template <template <typename, auto...> typename T, typename U, auto N0, auto... N>
+		struct type_name_<T<U, N0, N...>>
 		{
 			static constexpr std::string_view base =
-				type_name_trim_right_from_last(type_name_source_string<T<U, N...>>(), '<');
+				type_name_trim_right_from_last(type_name_source_string<T<U, N0, N...>>(), '<');
 
 			static constexpr auto value = fixed_string<char, base.length()>{ base } + '<' + type_name<U>
-										+ fixed_string{ ", " } + type_name_nttp_list_<N...>::value + '>';
+										+ fixed_string{ ", " } + type_name_nttp_list_<N0, N...>::value + '>';
 		};
 
 		// two types then one or more NTTPs
 
-		template <template <typename, typename, auto...> typename T, typename U0, typename U1, auto... N>
-		struct type_name_<T<U0, U1, N...>>
+		template <template <typename, typename, auto...> typename T, typename U0, typename U1, auto N0, auto... N>
+		struct type_name_<T<U0, U1, N0, N...>>
 		{
 			static constexpr std::string_view base =
-				type_name_trim_right_from_last(type_name_source_string<T<U0, U1, N...>>(), '<');
+				type_name_trim_right_from_last(type_name_source_string<T<U0, U1, N0, N...>>(), '<');
 
 			static constexpr auto value = fixed_string<char, base.length()>{ base } + '<' + type_name_list<U0, U1>
-										+ fixed_string{ ", " } + type_name_nttp_list_<N...>::value + '>';
+										+ fixed_string{ ", " } + type_name_nttp_list_<N0, N...>::value + '>';
 		};
 
 		// three types then one or more NTTPs
@@ -513,14 +513,15 @@ namespace muu
 				  typename U0,
 				  typename U1,
 				  typename U2,
+				  auto N0,
 				  auto... N>
-		struct type_name_<T<U0, U1, U2, N...>>
+		struct type_name_<T<U0, U1, U2, N0, N...>>
 		{
 			static constexpr std::string_view base =
-				type_name_trim_right_from_last(type_name_source_string<T<U0, U1, U2, N...>>(), '<');
+				type_name_trim_right_from_last(type_name_source_string<T<U0, U1, U2, N0, N...>>(), '<');
 
 			static constexpr auto value = fixed_string<char, base.length()>{ base } + '<' + type_name_list<U0, U1, U2>
-										+ fixed_string{ ", " } + type_name_nttp_list_<N...>::value + '>';
+										+ fixed_string{ ", " } + type_name_nttp_list_<N0, N...>::value + '>';
 		};
 
 		// free/static functions
-- 
2.43.0


From 876636636a9ba2608709660585333facb7da5200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:00 +0000
Subject: [PATCH 88/99] fix: type_name spelled the template argument 0 as a
 null character, and did not compile for the lowest integer

---
 include/muu/type_name.h | 46 +++++++++++------------------------------
 1 file changed, 12 insertions(+), 34 deletions(-)

diff --git a/include/muu/type_name.h b/include/muu/type_name.h
index 41e39f2..2393e06 100644
--- a/include/muu/type_name.h
+++ b/include/muu/type_name.h
@@ -318,27 +318,10 @@ namespace muu
 		template <typename T>
 		constexpr size_t type_name_int_to_str_length(T n) noexcept
 		{
-			if (!n)
-				return 1_sz;
-			else
-			{
-				size_t len{};
-				T val = n;
-				if constexpr (is_signed<T>)
-				{
-					if (val < T{})
-					{
-						val = -val;
-						len++;
-					}
-				}
-				while (val)
-				{
-					val /= T{ 10 };
-					len++;
-				}
-				return len;
-			}
+			size_t len = n < T{} ? 2_sz : 1_sz;
+			while (n /= T{ 10 })
+				len++;
+			return len;
 		}
 
 		template <auto N>
@@ -348,22 +331,17 @@ namespace muu
 			fixed_string<char, type_name_int_to_str_length(N)> str{};
 
 			T val	 = N;
-			size_t i = type_name_int_to_str_length(N) - 1_sz;
-			if constexpr (is_signed<T>)
-			{
-				if constexpr (N < T{})
-					val = -val;
-			}
-			while (val)
+			size_t i = type_name_int_to_str_length(N);
+			do
 			{
-				str[i--] = static_cast<char>('0' + (val % T{ 10 }));
+				// note: the remainder of a negative value is negative (and the lowest value has no positive counterpart)
+				const auto digit = static_cast<int>(val % T{ 10 });
+				str[--i]		 = static_cast<char>('0' + (digit < 0 ? -digit : digit));
 				val /= T{ 10 };
 			}
-			if constexpr (is_signed<T>)
-			{
-				if constexpr (N < T{})
-					str[i] = '-';
-			}
+			while (val);
+			if constexpr (N < T{})
+				str[--i] = '-';
 			return str;
 		}();
 
-- 
2.43.0


From e48b0ff3b60fa734098d4a353298a8cc8c6df718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:00 +0000
Subject: [PATCH 89/99] fix: type_name of templates nested in themselves was
 wrong

---
 include/muu/type_name.h | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/include/muu/type_name.h b/include/muu/type_name.h
index 2393e06..e9b4cf7 100644
--- a/include/muu/type_name.h
+++ b/include/muu/type_name.h
@@ -151,6 +151,20 @@ namespace muu
 			return src;
 		}
 
+		MUU_CONSTEVAL
+		std::string_view type_name_trim_template_args(std::string_view src) noexcept
+		{
+			size_t depth{};
+			for (size_t i = src.length(); i-- > 0_sz;)
+			{
+				if (src[i] == '>')
+					depth++;
+				else if (src[i] == '<' && --depth == 0_sz)
+					return src.substr(0_sz, i);
+			}
+			return src;
+		}
+
 		MUU_CONSTEVAL
 		std::string_view type_name_remove_prefixes(std::string_view src) noexcept
 		{
@@ -444,7 +458,7 @@ namespace muu
 		struct type_name_<T<U...>>
 		{
 			static constexpr std::string_view base =
-				type_name_trim_right_from_last(type_name_source_string<T<U...>>(), '<');
+				type_name_trim_template_args(type_name_source_string<T<U...>>());
 
 			static constexpr auto value = fixed_string<char, base.length()>{ base } + '<' + type_name_list<U...> + '>';
 		};
@@ -455,7 +469,7 @@ namespace muu
 		struct type_name_<T<N...>>
 		{
 			static constexpr std::string_view base =
-				type_name_trim_right_from_last(type_name_source_string<T<N...>>(), '<');
+				type_name_trim_template_args(type_name_source_string<T<N...>>());
 
 			static constexpr auto value =
 				fixed_string<char, base.length()>{ base } + '<' + type_name_nttp_list_<N...>::value + '>';
@@ -467,7 +481,7 @@ namespace muu
 		struct type_name_<T<U, N0, N...>>
 		{
 			static constexpr std::string_view base =
-				type_name_trim_right_from_last(type_name_source_string<T<U, N0, N...>>(), '<');
+				type_name_trim_template_args(type_name_source_string<T<U, N0, N...>>());
 
 			static constexpr auto value = fixed_string<char, base.length()>{ base } + '<' + type_name<U>
 										+ fixed_string{ ", " } + type_name_nttp_list_<N0, N...>::value + '>';
@@ -479,7 +493,7 @@ namespace muu
 		struct type_name_<T<U0, U1, N0, N...>>
 		{
 			static constexpr std::string_view base =
-				type_name_trim_right_from_last(type_name_source_string<T<U0, U1, N0, N...>>(), '<');
+				type_name_trim_template_args(type_name_source_string<T<U0, U1, N0, N...>>());
 
 			static constexpr auto value = fixed_string<char, base.length()>{ base } + '<' + type_name_list<U0, U1>
 										+ fixed_string{ ", " } + type_name_nttp_list_<N0, N...>::value + '>';
@@ -496,7 +510,7 @@ namespace muu
 		struct type_name_<T<U0, U1, U2, N0, N...>>
 		{
 			static constexpr std::string_view base =
-				type_name_trim_right_from_last(type_name_source_string<T<U0, U1, U2, N0, N...>>(), '<');
+				type_name_trim_template_args(type_name_source_string<T<U0, U1, U2, N0, N...>>());
 
 			static constexpr auto value = fixed_string<char, base.length()>{ base } + '<' + type_name_list<U0, U1, U2>
 										+ fixed_string{ ", " } + type_name_nttp_list_<N0, N...>::value + '>';
-- 
2.43.0


From 8b3a8ea00cc0478cc741b283cb4d7fbe68f9c729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:00 +0000
Subject: [PATCH 90/99] fix: type_name of pointers and references to variadic
 functions had a parenthesis too many

---
 include/muu/type_name.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/muu/type_name.h b/include/muu/type_name.h
index e9b4cf7..c9025f1 100644
--- a/include/muu/type_name.h
+++ b/include/muu/type_name.h
@@ -584,7 +584,7 @@ namespace muu
 		struct type_name_<R (*)(P..., ...)>
 		{
 			static constexpr auto value =
-				type_name<R> + fixed_string{ "(*)(" } + '(' + type_name_list<P...> + fixed_string{ ", ...)" };
+				type_name<R> + fixed_string{ "(*)(" } + type_name_list<P...> + fixed_string{ ", ...)" };
 		};
 
 		template <typename R, typename... P>
@@ -623,7 +623,7 @@ namespace muu
 		struct type_name_<R (*const)(P..., ...)>
 		{
 			static constexpr auto value =
-				type_name<R> + fixed_string{ "(*const)(" } + '(' + type_name_list<P...> + fixed_string{ ", ...)" };
+				type_name<R> + fixed_string{ "(*const)(" } + type_name_list<P...> + fixed_string{ ", ...)" };
 		};
 
 		template <typename R, typename... P>
@@ -662,7 +662,7 @@ namespace muu
 		struct type_name_<R (*volatile)(P..., ...)>
 		{
 			static constexpr auto value =
-				type_name<R> + fixed_string{ "(*volatile)(" } + '(' + type_name_list<P...> + fixed_string{ ", ...)" };
+				type_name<R> + fixed_string{ "(*volatile)(" } + type_name_list<P...> + fixed_string{ ", ...)" };
 		};
 
 		template <typename R, typename... P>
@@ -701,7 +701,7 @@ namespace muu
 		template <typename R, typename... P>
 		struct type_name_<R (*const volatile)(P..., ...)>
 		{
-			static constexpr auto value = type_name<R> + fixed_string{ "(*const volatile)(" } + '('
+			static constexpr auto value = type_name<R> + fixed_string{ "(*const volatile)(" }
 										+ type_name_list<P...> + fixed_string{ ", ...)" };
 		};
 
@@ -741,7 +741,7 @@ namespace muu
 		struct type_name_<R (&)(P..., ...)>
 		{
 			static constexpr auto value =
-				type_name<R> + fixed_string{ "(&)(" } + '(' + type_name_list<P...> + fixed_string{ ", ...)" };
+				type_name<R> + fixed_string{ "(&)(" } + type_name_list<P...> + fixed_string{ ", ...)" };
 		};
 
 		template <typename R, typename... P>
-- 
2.43.0


From c872fd2f15bff7683715d263b2f1ca9899369017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:09 +0000
Subject: [PATCH 91/99] fix: type_name of arrays of arrays listed their extents
 backwards

---
 include/muu/type_name.h | 105 ++++++++++++++++++++++++----------------
 1 file changed, 63 insertions(+), 42 deletions(-)

diff --git a/include/muu/type_name.h b/include/muu/type_name.h
index c9025f1..62216b0 100644
--- a/include/muu/type_name.h
+++ b/include/muu/type_name.h
@@ -289,110 +289,131 @@ namespace muu
 			static constexpr auto value = type_name<T> + fixed_string{ "&&" };
 		};
 
+		// array extents
+
+		template <typename T>
+		constexpr size_t type_name_int_to_str_length(T n) noexcept
+		{
+			size_t len = n < T{} ? 2_sz : 1_sz;
+			while (n /= T{ 10 })
+				len++;
+			return len;
+		}
+
+		template <auto N>
+		inline constexpr auto type_name_int_to_str = []() noexcept
+		{
+			using T = decltype(N);
+			fixed_string<char, type_name_int_to_str_length(N)> str{};
+
+			T val	 = N;
+			size_t i = type_name_int_to_str_length(N);
+			do
+			{
+				// note: the remainder of a negative value is negative (and the lowest value has no positive counterpart)
+				const auto digit = static_cast<int>(val % T{ 10 });
+				str[--i]		 = static_cast<char>('0' + (digit < 0 ? -digit : digit));
+				val /= T{ 10 };
+			}
+			while (val);
+			if constexpr (N < T{})
+				str[--i] = '-';
+			return str;
+		}();
+
+		template <typename T>
+		inline constexpr auto& type_name_element = type_name<std::remove_all_extents_t<T>>;
+
+		template <typename T>
+		inline constexpr auto type_name_extents = fixed_string{ "" };
+
+		template <typename T, size_t N>
+		inline constexpr auto type_name_extents<T[N]> =
+			fixed_string{ "[" } + type_name_int_to_str<N> + ']' + type_name_extents<T>;
+
 		// unbounded arrays
 
 		template <typename T>
 		struct type_name_<T[]>
 		{
-			static constexpr auto value = type_name<T> + fixed_string{ "[]" };
+			static constexpr auto value = type_name_element<T> + fixed_string{ "[]" } + type_name_extents<T>;
 		};
 
 		template <typename T>
 		struct type_name_<const T[]>
 		{
-			static constexpr auto value = type_name<const T> + fixed_string{ "[]" };
+			static constexpr auto value =
+				type_name_element<const T> + fixed_string{ "[]" } + type_name_extents<const T>;
 		};
 
 		template <typename T>
 		struct type_name_<volatile T[]>
 		{
-			static constexpr auto value = type_name<volatile T> + fixed_string{ "[]" };
+			static constexpr auto value =
+				type_name_element<volatile T> + fixed_string{ "[]" } + type_name_extents<volatile T>;
 		};
 
 		template <typename T>
 		struct type_name_<const volatile T[]>
 		{
-			static constexpr auto value = type_name<const volatile T> + fixed_string{ "[]" };
+			static constexpr auto value =
+				type_name_element<const volatile T> + fixed_string{ "[]" } + type_name_extents<const volatile T>;
 		};
 
 		template <typename T>
 		struct type_name_<T (&)[]>
 		{
-			static constexpr auto value = type_name<T> + fixed_string{ "(&)[]" };
+			static constexpr auto value = type_name_element<T> + fixed_string{ "(&)[]" } + type_name_extents<T>;
 		};
 
 		template <typename T>
 		struct type_name_<T (&&)[]>
 		{
-			static constexpr auto value = type_name<T> + fixed_string{ "(&&)[]" };
+			static constexpr auto value = type_name_element<T> + fixed_string{ "(&&)[]" } + type_name_extents<T>;
 		};
 
 		// bounded arrays
 
-		template <typename T>
-		constexpr size_t type_name_int_to_str_length(T n) noexcept
-		{
-			size_t len = n < T{} ? 2_sz : 1_sz;
-			while (n /= T{ 10 })
-				len++;
-			return len;
-		}
-
-		template <auto N>
-		inline constexpr auto type_name_int_to_str = []() noexcept
-		{
-			using T = decltype(N);
-			fixed_string<char, type_name_int_to_str_length(N)> str{};
-
-			T val	 = N;
-			size_t i = type_name_int_to_str_length(N);
-			do
-			{
-				// note: the remainder of a negative value is negative (and the lowest value has no positive counterpart)
-				const auto digit = static_cast<int>(val % T{ 10 });
-				str[--i]		 = static_cast<char>('0' + (digit < 0 ? -digit : digit));
-				val /= T{ 10 };
-			}
-			while (val);
-			if constexpr (N < T{})
-				str[--i] = '-';
-			return str;
-		}();
-
 		template <typename T, size_t N>
 		struct type_name_<T[N]>
 		{
-			static constexpr auto value = type_name<T> + '[' + type_name_int_to_str<N> + ']';
+			static constexpr auto value =
+				type_name_element<T> + '[' + type_name_int_to_str<N> + ']' + type_name_extents<T>;
 		};
 
 		template <typename T, size_t N>
 		struct type_name_<const T[N]>
 		{
-			static constexpr auto value = type_name<const T> + '[' + type_name_int_to_str<N> + ']';
+			static constexpr auto value =
+				type_name_element<const T> + '[' + type_name_int_to_str<N> + ']' + type_name_extents<const T>;
 		};
 
 		template <typename T, size_t N>
 		struct type_name_<volatile T[N]>
 		{
-			static constexpr auto value = type_name<volatile T> + '[' + type_name_int_to_str<N> + ']';
+			static constexpr auto value =
+				type_name_element<volatile T> + '[' + type_name_int_to_str<N> + ']' + type_name_extents<volatile T>;
 		};
 
 		template <typename T, size_t N>
 		struct type_name_<const volatile T[N]>
 		{
-			static constexpr auto value = type_name<const volatile T> + '[' + type_name_int_to_str<N> + ']';
+			static constexpr auto value =
+				type_name_element<const volatile T> + '[' + type_name_int_to_str<N> + ']' + type_name_extents<const volatile T>;
 		};
 
 		template <typename T, size_t N>
 		struct type_name_<T (&)[N]>
 		{
-			static constexpr auto value = type_name<T> + fixed_string{ "(&)[" } + type_name_int_to_str<N> + ']';
+			static constexpr auto value =
+				type_name_element<T> + fixed_string{ "(&)[" } + type_name_int_to_str<N> + ']' + type_name_extents<T>;
 		};
 
 		template <typename T, size_t N>
 		struct type_name_<T (&&)[N]>
 		{
-			static constexpr auto value = type_name<T> + fixed_string{ "(&&)[" } + type_name_int_to_str<N> + ']';
+			static constexpr auto value =
+				type_name_element<T> + fixed_string{ "(&&)[" } + type_name_int_to_str<N> + ']' + type_name_extents<T>;
 		};
 
 		// basic template unpacking
-- 
2.43.0


From c676676078905a5a37420a81f53f60644ae54ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:09 +0000
Subject: [PATCH 92/99] fix: type_name did not compile for templates with
 boolean arguments

---
 include/muu/type_name.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/muu/type_name.h b/include/muu/type_name.h
index 62216b0..45fb5a7 100644
--- a/include/muu/type_name.h
+++ b/include/muu/type_name.h
@@ -321,6 +321,12 @@ namespace muu
 			return str;
 		}();
 
+		template <>
+		inline constexpr auto type_name_int_to_str<true> = fixed_string{ "true" };
+
+		template <>
+		inline constexpr auto type_name_int_to_str<false> = fixed_string{ "false" };
+
 		template <typename T>
 		inline constexpr auto& type_name_element = type_name<std::remove_all_extents_t<T>>;
 
-- 
2.43.0


From bc7adbf3e6f0f0a82ccc901dbc2fb74a418add24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:18 +0000
Subject: [PATCH 93/99] fix: tuple_size did not compile for references to
 tuples

---
 include/muu/meta.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/meta.h b/include/muu/meta.h
index 17d99ca..eb77576 100644
--- a/include/muu/meta.h
+++ b/include/muu/meta.h
@@ -1991,7 +1991,7 @@ namespace muu
 	namespace impl
 	{
 		template <typename T, bool = is_detected<has_tuple_size_, T>>
-		struct tuple_size_ : std::tuple_size<T>
+		struct tuple_size_ : std::tuple_size<remove_cvref<T>>
 		{};
 		template <typename T>
 		struct tuple_size_<T, false>
-- 
2.43.0


From 1cc1d0b99908a279d63de121fceefa8b5cfee996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:18 +0000
Subject: [PATCH 94/99] fix: rebase_pointer dropped the qualifiers of what a
 cv-qualified pointer points to

---
 include/muu/meta.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/muu/meta.h b/include/muu/meta.h
index eb77576..6a4fb19 100644
--- a/include/muu/meta.h
+++ b/include/muu/meta.h
@@ -184,6 +184,15 @@ namespace muu
 			using type = std::add_pointer_t<std::add_const_t<U>>;
 		};
 		template <typename T, typename U>
+		struct rebase_pointer_<T* const, U> : rebase_pointer_<T*, U>
+		{};
+		template <typename T, typename U>
+		struct rebase_pointer_<T* volatile, U> : rebase_pointer_<T*, U>
+		{};
+		template <typename T, typename U>
+		struct rebase_pointer_<T* const volatile, U> : rebase_pointer_<T*, U>
+		{};
+		template <typename T, typename U>
 		struct rebase_pointer_<T&, U>
 		{
 			using type = std::add_lvalue_reference_t<typename rebase_pointer_<T, U>::type>;
-- 
2.43.0


From 74326f6b3ed36f020178ced5fc66174753e68cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:18 +0000
Subject: [PATCH 95/99] fix: the constants made of e were wrong from the 16th
 digit

---
 include/muu/impl/core_constants.h | 72 +++++++++++++++----------------
 1 file changed, 36 insertions(+), 36 deletions(-)

diff --git a/include/muu/impl/core_constants.h b/include/muu/impl/core_constants.h
index fd9d77f..a09389a 100644
--- a/include/muu/impl/core_constants.h
+++ b/include/muu/impl/core_constants.h
@@ -278,24 +278,24 @@ namespace muu
 			static constexpr T five_over_three_pi	  = T(0.530516476972984452563L); ///< `5 / (3 * pi)`
 			static constexpr T seven_over_three_pi	  = T(0.742723067762178233588L); ///< `7 / (3 * pi)`
 			static constexpr T eight_over_three_pi	  = T(0.848826363156775124101L); ///< `8 / (3 * pi)`
-			static constexpr T e					  = T(2.718281828459045534885L); ///< `e`
-			static constexpr T one_over_e			  = T(0.367879441171442281059L); ///< `1 / e`
-			static constexpr T sqrt_e				  = T(1.648721270700128237684L); ///< `sqrt(e)`
-			static constexpr T one_over_sqrt_e		  = T(0.606530659712633390187L); ///< `1 / sqrt(e)`
-			static constexpr T e_over_two			  = T(1.359140914229522767442L); ///< `e / 2`
-			static constexpr T e_over_three			  = T(0.906093942819681844962L); ///< `e / 3`
-			static constexpr T e_over_four			  = T(0.679570457114761383721L); ///< `e / 4`
-			static constexpr T e_over_five			  = T(0.543656365691809106977L); ///< `e / 5`
-			static constexpr T e_over_six			  = T(0.453046971409840922481L); ///< `e / 6`
-			static constexpr T e_over_seven			  = T(0.388325975494149362126L); ///< `e / 7`
-			static constexpr T e_over_eight			  = T(0.339785228557380691861L); ///< `e / 8`
-			static constexpr T two_over_e			  = T(0.735758882342884562119L); ///< `2 / e`
-			static constexpr T three_over_e			  = T(1.103638323514326843178L); ///< `3 / e`
-			static constexpr T four_over_e			  = T(1.471517764685769124237L); ///< `4 / e`
-			static constexpr T five_over_e			  = T(1.839397205857211405296L); ///< `5 / e`
-			static constexpr T six_over_e			  = T(2.207276647028653686356L); ///< `6 / e`
-			static constexpr T seven_over_e			  = T(2.575156088200095967415L); ///< `7 / e`
-			static constexpr T eight_over_e			  = T(2.943035529371538248474L); ///< `8 / e`
+			static constexpr T e					  = T(2.718281828459045235360L); ///< `e`
+			static constexpr T one_over_e			  = T(0.367879441171442321596L); ///< `1 / e`
+			static constexpr T sqrt_e				  = T(1.648721270700128146849L); ///< `sqrt(e)`
+			static constexpr T one_over_sqrt_e		  = T(0.606530659712633423604L); ///< `1 / sqrt(e)`
+			static constexpr T e_over_two			  = T(1.359140914229522617680L); ///< `e / 2`
+			static constexpr T e_over_three			  = T(0.906093942819681745120L); ///< `e / 3`
+			static constexpr T e_over_four			  = T(0.679570457114761308840L); ///< `e / 4`
+			static constexpr T e_over_five			  = T(0.543656365691809047072L); ///< `e / 5`
+			static constexpr T e_over_six			  = T(0.453046971409840872560L); ///< `e / 6`
+			static constexpr T e_over_seven			  = T(0.388325975494149319337L); ///< `e / 7`
+			static constexpr T e_over_eight			  = T(0.339785228557380654420L); ///< `e / 8`
+			static constexpr T two_over_e			  = T(0.735758882342884643191L); ///< `2 / e`
+			static constexpr T three_over_e			  = T(1.103638323514326964787L); ///< `3 / e`
+			static constexpr T four_over_e			  = T(1.471517764685769286382L); ///< `4 / e`
+			static constexpr T five_over_e			  = T(1.839397205857211607978L); ///< `5 / e`
+			static constexpr T six_over_e			  = T(2.207276647028653929573L); ///< `6 / e`
+			static constexpr T seven_over_e			  = T(2.575156088200096251169L); ///< `7 / e`
+			static constexpr T eight_over_e			  = T(2.943035529371538572764L); ///< `8 / e`
 			static constexpr T phi					  = T(1.618033988749894848205L); ///< `phi`
 			static constexpr T one_over_phi			  = T(0.618033988749894848205L); ///< `1 / phi`
 			static constexpr T sqrt_phi				  = T(1.272019649514068964252L); ///< `sqrt(phi)`
@@ -401,24 +401,24 @@ namespace muu
 			static constexpr float128_t five_over_three_pi	   = 0.530516476972984452562945877908381207q;
 			static constexpr float128_t seven_over_three_pi	   = 0.742723067762178233588124229071733689q;
 			static constexpr float128_t eight_over_three_pi	   = 0.848826363156775124100713404653409931q;
-			static constexpr float128_t e					   = 2.718281828459045534884808148490265012q;
-			static constexpr float128_t one_over_e			   = 0.367879441171442281059287928010393142q;
-			static constexpr float128_t sqrt_e				   = 1.648721270700128237684053351021451524q;
-			static constexpr float128_t one_over_sqrt_e		   = 0.606530659712633390187322401455485737q;
-			static constexpr float128_t e_over_two			   = 1.359140914229522767442404074245132506q;
-			static constexpr float128_t e_over_three		   = 0.906093942819681844961602716163421671q;
-			static constexpr float128_t e_over_four			   = 0.679570457114761383721202037122566253q;
-			static constexpr float128_t e_over_five			   = 0.543656365691809106976961629698053002q;
-			static constexpr float128_t e_over_six			   = 0.453046971409840922480801358081710835q;
-			static constexpr float128_t e_over_seven		   = 0.388325975494149362126401164070037859q;
-			static constexpr float128_t e_over_eight		   = 0.339785228557380691860601018561283126q;
-			static constexpr float128_t two_over_e			   = 0.735758882342884562118575856020786284q;
-			static constexpr float128_t three_over_e		   = 1.103638323514326843177863784031179427q;
-			static constexpr float128_t four_over_e			   = 1.471517764685769124237151712041572569q;
-			static constexpr float128_t five_over_e			   = 1.839397205857211405296439640051965711q;
-			static constexpr float128_t six_over_e			   = 2.207276647028653686355727568062358853q;
-			static constexpr float128_t seven_over_e		   = 2.575156088200095967415015496072751996q;
-			static constexpr float128_t eight_over_e		   = 2.943035529371538248474303424083145138q;
+			static constexpr float128_t e					   = 2.718281828459045235360287471352662498q;
+			static constexpr float128_t one_over_e			   = 0.367879441171442321595523770161460867q;
+			static constexpr float128_t sqrt_e				   = 1.648721270700128146848650787814163572q;
+			static constexpr float128_t one_over_sqrt_e		   = 0.606530659712633423603799534991180453q;
+			static constexpr float128_t e_over_two			   = 1.359140914229522617680143735676331249q;
+			static constexpr float128_t e_over_three		   = 0.906093942819681745120095823784220833q;
+			static constexpr float128_t e_over_four			   = 0.679570457114761308840071867838165624q;
+			static constexpr float128_t e_over_five			   = 0.543656365691809047072057494270532500q;
+			static constexpr float128_t e_over_six			   = 0.453046971409840872560047911892110416q;
+			static constexpr float128_t e_over_seven		   = 0.388325975494149319337183924478951785q;
+			static constexpr float128_t e_over_eight		   = 0.339785228557380654420035933919082812q;
+			static constexpr float128_t two_over_e			   = 0.735758882342884643191047540322921735q;
+			static constexpr float128_t three_over_e		   = 1.103638323514326964786571310484382602q;
+			static constexpr float128_t four_over_e			   = 1.471517764685769286382095080645843470q;
+			static constexpr float128_t five_over_e			   = 1.839397205857211607977618850807304337q;
+			static constexpr float128_t six_over_e			   = 2.207276647028653929573142620968765205q;
+			static constexpr float128_t seven_over_e		   = 2.575156088200096251168666391130226072q;
+			static constexpr float128_t eight_over_e		   = 2.943035529371538572764190161291686940q;
 			static constexpr float128_t phi					   = 1.618033988749894848204586834365638118q;
 			static constexpr float128_t one_over_phi		   = 0.618033988749894848204586834365638118q;
 			static constexpr float128_t sqrt_phi			   = 1.272019649514068964252422461737491492q;
-- 
2.43.0


From 788ad2a93cfcfe7619f5bc7896a55adb42467044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:07 +0000
Subject: [PATCH 96/99] fix: implicit bit-casts of tuple-like types to vectors

A tuple-like type opted in to implicit bit-casting had neither the bit-cast
constructor nor (being convertible another way) the tuple constructor.
---
 include/muu/vector.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/muu/vector.h b/include/muu/vector.h
index 700f0a0..997ac25 100644
--- a/include/muu/vector.h
+++ b/include/muu/vector.h
@@ -499,8 +499,7 @@ namespace muu
 
 		MUU_CONSTRAINED_TEMPLATE((!impl::is_vector_<T>							//
 								  && (std::is_class_v<T> || std::is_union_v<T>) //
-								  &&allow_implicit_bit_cast<T, vector>			//
-								  && (!is_tuple_like<T> || (tuple_size<T> > Dimensions))),
+								  &&allow_implicit_bit_cast<T, vector>),
 								 typename T)
 		MUU_NODISCARD_CTOR
 		MUU_ALWAYS_INLINE
-- 
2.43.0


From 76e4f8164120d5e84f4a7bbacf542016715f06f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:07 +0000
Subject: [PATCH 97/99] fix: class template argument deduction of a vector from
 two vectors

The guide for a vector followed by scalars was also considered and failed hard.
---
 include/muu/vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/muu/vector.h b/include/muu/vector.h
index 997ac25..b6aad95 100644
--- a/include/muu/vector.h
+++ b/include/muu/vector.h
@@ -2840,8 +2840,8 @@ namespace muu
 	template <typename S1, size_t D1, typename S2, size_t D2>
 	vector(const vector<S1, D1>&, const vector<S2, D2>&) -> vector<impl::highest_ranked<S1, S2>, D1 + D2>;
 
-	template <typename S, size_t D, typename... T>
-	vector(const vector<S, D>&, T...) -> vector<impl::highest_ranked<S, T...>, D + sizeof...(T)>;
+	MUU_CONSTRAINED_TEMPLATE((all_arithmetic<S, T...>), typename S, size_t D, typename... T)
+	vector(const vector<S, D>&, T...)->vector<impl::highest_ranked<S, T...>, D + sizeof...(T)>;
 
 	MUU_CONSTRAINED_TEMPLATE(N != dynamic_extent, typename T, size_t N)
 	vector(const muu::span<T, N>&)->vector<T, N>;
-- 
2.43.0


From 3b2fb1caf8196d1a4f63094a7aecc59641ee99b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:07 +0000
Subject: [PATCH 98/99] fix: class template argument deduction of a vector from
 a span of const

---
 include/muu/vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/vector.h b/include/muu/vector.h
index b6aad95..fba85e9 100644
--- a/include/muu/vector.h
+++ b/include/muu/vector.h
@@ -2844,7 +2844,7 @@ namespace muu
 	vector(const vector<S, D>&, T...)->vector<impl::highest_ranked<S, T...>, D + sizeof...(T)>;
 
 	MUU_CONSTRAINED_TEMPLATE(N != dynamic_extent, typename T, size_t N)
-	vector(const muu::span<T, N>&)->vector<T, N>;
+	vector(const muu::span<T, N>&)->vector<std::remove_cv_t<T>, N>;
 
 	template <typename I, size_t D>
 	vector(const packed_unit_vector<I, D>&) -> vector<float, D>;
-- 
2.43.0


From 227bf271956f6e02c1f12fa087aa9a9a70693a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:44 +0000
Subject: [PATCH 99/99] fix: muu::min of equivalent values

Like std::min (and muu::max), return the first of them.
---
 include/muu/impl/core_utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/impl/core_utils.h b/include/muu/impl/core_utils.h
index 447cb6b..098a247 100644
--- a/include/muu/impl/core_utils.h
+++ b/include/muu/impl/core_utils.h
@@ -50,7 +50,7 @@ namespace muu
 	{
 		if constexpr (sizeof...(vals) == 0u)
 		{
-			return val1 < val2 ? val1 : val2;
+			return val2 < val1 ? val2 : val1;
 		}
 		else if constexpr (sizeof...(vals) == 2u)
 		{
-- 
2.43.0

