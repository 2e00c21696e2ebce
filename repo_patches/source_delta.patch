From 8a480df6ef811e52c024a3380caa777e97f7827d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:44 +0000
Subject: [PATCH 01/38] fix: vector_queue::push_front computes the slot before
 the head for every capacity

---
 include/stdex/vector_queue.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/vector_queue.hpp b/include/stdex/vector_queue.hpp
index 007dc29..fb2b344 100644
--- a/include/stdex/vector_queue.hpp
+++ b/include/stdex/vector_queue.hpp
@@ -316,7 +316,7 @@ namespace stdex
 		///
 		size_type push_front(_In_ const value_type &v)
 		{
-			m_head = abs(-1);
+			m_head = abs(m_size_max - 1);
 			if (m_count < m_size_max)
 				m_count++;
 			m_data[m_head] = v;
@@ -332,7 +332,7 @@ namespace stdex
 		///
 		size_type push_front(_Inout_ value_type&&v)
 		{
-			m_head = abs(-1);
+			m_head = abs(m_size_max - 1);
 			if (m_count < m_size_max)
 				m_count++;
 			m_data[m_head] = std::move(v);
-- 
2.43.0


From 1a799cd4d1d8915adfdc8c3ef6e4c3537be65f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:44 +0000
Subject: [PATCH 02/38] fix: vector_queue move assignment releases the storage
 it replaces

---
 include/stdex/vector_queue.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdex/vector_queue.hpp b/include/stdex/vector_queue.hpp
index fb2b344..d6218e4 100644
--- a/include/stdex/vector_queue.hpp
+++ b/include/stdex/vector_queue.hpp
@@ -137,6 +137,7 @@ namespace stdex
 		vector_queue<value_type>& operator=(_Inout_ vector_queue<value_type> &&other)
 		{
 			if (this != std::addressof(other)) {
+				if (m_data) delete [] m_data;
 				m_data     = std::move(other.m_data    );
 				m_head     = std::move(other.m_head    );
 				m_count    = std::move(other.m_count   );
-- 
2.43.0


From 188f029eb372486e11d84cc55e2b965beb3a8d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:31 +0000
Subject: [PATCH 03/38] fix: base64_writer::write returns the number of bytes
 taken, not the number left, when the stream fails

---
 include/stdex/base64.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/base64.hpp b/include/stdex/base64.hpp
index 28c1108..5564c61 100644
--- a/include/stdex/base64.hpp
+++ b/include/stdex/base64.hpp
@@ -205,7 +205,7 @@ namespace stdex
 					encode();
 					if (!m_source->ok()) _Unlikely_ {
 						m_state = m_source->state();
-						return length - i;
+						return i;
 					}
 					m_num = 0;
 				}
-- 
2.43.0


From 49ac5f43371da1a1b4cbd9c721d27c7069c2c4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:31 +0000
Subject: [PATCH 04/38] fix: base64_reader::read counts the bytes of the padded
 block it ends with

---
 include/stdex/base64.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/base64.hpp b/include/stdex/base64.hpp
index 5564c61..ef3a313 100644
--- a/include/stdex/base64.hpp
+++ b/include/stdex/base64.hpp
@@ -420,9 +420,9 @@ namespace stdex
 				if (m_temp_len < 3 && to_read >= 3) {
 					// If Base64 indicates end of data, truncate read to hint the client, end of Base64 data has been reached.
 					memcpy(data, m_temp + m_temp_off, m_temp_len);
+					to_read -= m_temp_len;
 					m_temp_off = 0;
 					m_temp_len = 0;
-					to_read -= m_temp_len;
 					m_state = stdex::stream::state_t::ok;
 					return length - to_read; // [1] Code analysis misses `length - to_read` bytes were written to data in previous loop iterations.
 				}
-- 
2.43.0


From 9bcdecc3d6369ff692353fea627fb7c66bba51ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:21 +0000
Subject: [PATCH 05/38] fix: block_hash::hash counts the bits of single blocks
 of 4 GiB and longer

---
 include/stdex/hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/hash.hpp b/include/stdex/hash.hpp
index 4947ec0..7380a3c 100644
--- a/include/stdex/hash.hpp
+++ b/include/stdex/hash.hpp
@@ -89,7 +89,7 @@ namespace stdex
 			// Update number of m_counter[1].
 			if ((m_counter[0] += (static_cast<uint32_t>(length) << 3)) < (static_cast<uint32_t>(length) << 3))
 				m_counter[1]++;
-			m_counter[1] += static_cast<uint32_t>(length) >> 29;
+			m_counter[1] += static_cast<uint32_t>(length >> 29);
 
 			// Transform as many times as possible.
 			size_t i, remainder = 64 - j;
-- 
2.43.0


From 528459a9dca575c2e67df8919788202d6116113e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:27 +0000
Subject: [PATCH 06/38] fix: toupper clears the case bit instead of setting
 every other bit

---
 include/stdex/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index ac00a05..ff74edc 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -302,7 +302,7 @@ namespace stdex
 	template <class T>
 	T toupper(_In_ T chr)
 	{
-		return islower(chr) ? chr | ~0x20 : chr;
+		return islower(chr) ? chr & ~0x20 : chr;
 	}
 
 	///
-- 
2.43.0


From 7153f61cb0162d12336cb0cad0a90d78eff3537a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:27 +0000
Subject: [PATCH 07/38] fix: islbreak recognises a line break that is the last
 code unit

---
 include/stdex/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index ff74edc..4be52fd 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -131,7 +131,7 @@ namespace stdex
 		stdex_assert(chr || !count);
 		if (count >= 2 && ((chr[0] == '\r' && chr[1] == '\n') || (chr[0] == '\n' && chr[1] == '\r')))
 			return 2;
-		if (count > 1 && (chr[0] == '\n' || chr[0] == '\r'))
+		if (count >= 1 && (chr[0] == '\n' || chr[0] == '\r'))
 			return 1;
 		return 0;
 	}
-- 
2.43.0


From e75996d3144d9fce1d678d2e48dd4393d01b2bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:27 +0000
Subject: [PATCH 08/38] fix: glyphrlen for UTF-32 does not count the code point
 before the glyph

---
 include/stdex/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index 4be52fd..dc96401 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -274,7 +274,7 @@ namespace stdex
 		stdex_assert(count && str && str[count - 1]);
 		for (size_t i = count; i--;) {
 			if (!iscombining(str[i]))
-				return count - (i == 0 ? i : i - 1);
+				return count - i;
 		}
 		return count;
 	}
-- 
2.43.0


From 8c8165cdf6664b8b93cc4bcd1ca3a285ebd9eb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:27 +0000
Subject: [PATCH 09/38] fix: strnicmp of two arrays returns the result of the
 comparison

---
 include/stdex/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index dc96401..5f8133c 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -1307,7 +1307,7 @@ namespace stdex
 		_In_ const T1 (&str1)[N1],
 		_In_ const T2 (&str2)[N2])
 	{
-		strnicmp(str1, N1, str2, N2);
+		return strnicmp(str1, N1, str2, N2);
 	}
 
 	///
@@ -1325,7 +1325,7 @@ namespace stdex
 		_In_ const T2 (&str2)[N2],
 		_In_ const std::locale& locale)
 	{
-		strnicmp(str1, N1, str2, N2, locale);
+		return strnicmp(str1, N1, str2, N2, locale);
 	}
 
 	///
-- 
2.43.0


From 16585b0881c168a98dde1caf7d8e2119af665c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:27 +0000
Subject: [PATCH 10/38] fix: strncoll ends at the terminator

---
 include/stdex/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index 5f8133c..93d0c35 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -1369,7 +1369,7 @@ namespace stdex
 		stdex_assert(str1 || !count1);
 		stdex_assert(str2 || !count2);
 		auto& collate = std::use_facet<std::collate<T>>(locale);
-		return collate.compare(str1, str1 + count1, str2, str2 + count2);
+		return collate.compare(str1, str1 + strnlen(str1, count1), str2, str2 + strnlen(str2, count2));
 	}
 
 	///
-- 
2.43.0


From c8f93311a4dafaa7ed8bc7e6948301a09693798e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:27 +0000
Subject: [PATCH 11/38] fix: strndup terminates the copy and reads no further
 than the limit

---
 include/stdex/string.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index 93d0c35..36a9bce 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -1870,8 +1870,9 @@ namespace stdex
 		_In_reads_or_z_opt_(count) const T* str,
 		_In_ size_t count)
 	{
-		T* dst = new T[count];
-		strncpy(dst, count, str, SIZE_MAX);
+		count = strnlen(str, count);
+		T* dst = new T[count + 1];
+		strncpy(dst, count + 1, str, count);
 		return dst;
 	}
 
-- 
2.43.0


From bb4f0899c5d24b8e6af28cfbc7a1c226a727e5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:27 +0000
Subject: [PATCH 12/38] fix: strncat terminates the string when the source is
 cut at the count limit

---
 include/stdex/string.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index 36a9bce..a2ef10f 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -1796,8 +1796,10 @@ namespace stdex
 		stdex_assert(dst || !count);
 		stdex_assert(src || !count);
 		for (size_t i = 0, j = stdex::strlen<T1>(dst); ; ++i, ++j) {
-			if (i >= count)
+			if (i >= count) {
+				dst[j] = 0;
 				return j;
+			}
 			if ((dst[j] = static_cast<T1>(src[i])) == 0)
 				return j;
 		}
-- 
2.43.0


From 081752cb2623645421e8804a9cb9d719b8035953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:27 +0000
Subject: [PATCH 13/38] fix: strtoint saturates positive numbers that reach the
 sign bit

---
 include/stdex/string.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index a2ef10f..6d0b12b 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -2080,7 +2080,7 @@ namespace stdex
 		switch (sizeof(T_bin)) {
 		case 1:
 			value = (T_bin)strtoint<T, uint8_t>(str, count, end, radix, flags);
-			if ((flags & 0x01) && (value & 0x80)) {
+			if (value & 0x80) {
 				// Sign bit is 1 => overflow.
 				flags |= 0x02;
 			}
@@ -2090,7 +2090,7 @@ namespace stdex
 
 		case 2:
 			value = (T_bin)strtoint<T, uint16_t>(str, count, end, radix, flags);
-			if ((flags & 0x01) && (value & 0x8000)) {
+			if (value & 0x8000) {
 				// Sign bit is 1 => overflow.
 				flags |= 0x02;
 			}
@@ -2100,7 +2100,7 @@ namespace stdex
 
 		case 4:
 			value = (T_bin)strtoint<T, uint32_t>(str, count, end, radix, flags);
-			if ((flags & 0x01) && (value & 0x80000000)) {
+			if (value & 0x80000000) {
 				// Sign bit is 1 => overflow.
 				flags |= 0x02;
 			}
@@ -2110,7 +2110,7 @@ namespace stdex
 
 		case 8:
 			value = (T_bin)strtoint<T, uint64_t>(str, count, end, radix, flags);
-			if ((flags & 0x01) && (value & 0x8000000000000000)) {
+			if (value & 0x8000000000000000) {
 				// Sign bit is 1 => overflow.
 				flags |= 0x02;
 			}
-- 
2.43.0


From 34e4d7aaa20b934dcef456153a6fd20f318ee99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:27 +0000
Subject: [PATCH 14/38] fix: strtouint negates a number with a minus sign in
 two's complement

---
 include/stdex/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/string.hpp b/include/stdex/string.hpp
index 6d0b12b..7006199 100644
--- a/include/stdex/string.hpp
+++ b/include/stdex/string.hpp
@@ -2171,7 +2171,7 @@ namespace stdex
 
 		return (flags & 0x02) ?
 			(flags & 0x01) ? (T_bin)0 : (T_bin)-1 :
-			(flags & 0x01) ? ~value : value;
+			(flags & 0x01) ? (T_bin)(0 - value) : value;
 	}
 
 	///
-- 
2.43.0


From 520eef430b9b15fdab348cc870e2cbff57b4e801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:57 +0000
Subject: [PATCH 15/38] fix: keep the sanitizing memset from being optimized
 away before release

---
 include/stdex/memory.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/memory.hpp b/include/stdex/memory.hpp
index 97c6f05..075550c 100644
--- a/include/stdex/memory.hpp
+++ b/include/stdex/memory.hpp
@@ -108,6 +108,7 @@ namespace stdex
 			SecureZeroMemory(p, sizeof(T) * n);
 #else
 			memset(p, 0, sizeof(T) * n);
+			__asm__ __volatile__("" : : "r"(p) : "memory"); // Keep optimizer from removing memset() of memory about to be freed.
 #endif
 			std::allocator<T>::deallocate(p, n);
 		}
@@ -133,6 +134,7 @@ namespace stdex
 			SecureZeroMemory(m_data, N);
 #else
 			memset(m_data, 0, N);
+			__asm__ __volatile__("" : : "r"(m_data) : "memory"); // Keep optimizer from removing memset() of memory about to be freed.
 #endif
 		}
 
-- 
2.43.0


From 64072b16805bfd35ec4c16a42c280b8753f243f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:19 +0000
Subject: [PATCH 16/38] fix: scoped_executor: keep the done lambda instead of a
 reference to a temporary

---
 include/stdex/scoped_executor.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/stdex/scoped_executor.hpp b/include/stdex/scoped_executor.hpp
index 7819367..ecc79d1 100644
--- a/include/stdex/scoped_executor.hpp
+++ b/include/stdex/scoped_executor.hpp
@@ -6,6 +6,8 @@
 #pragma once
 
 #include "compat.hpp"
+#include <type_traits>
+#include <utility>
 
 namespace stdex
 {
@@ -18,7 +20,7 @@ namespace stdex
 	template <typename F_init, typename F_done>
 	class scoped_executor
 	{
-		F_done&& m_done;
+		typename std::conditional<std::is_function<F_done>::value, F_done&&, F_done>::type m_done; // Keep (not refer to) the lambda, it is usually a temporary.
 
 	public:
 		///
@@ -32,6 +34,9 @@ namespace stdex
 			std::forward<F_init&&>(init)();
 		}
 
+		scoped_executor(_In_ const scoped_executor&) = delete;
+		scoped_executor& operator=(_In_ const scoped_executor&) = delete;
+
 		///
 		/// Executes done lambda
 		///
-- 
2.43.0


From 287cc144f1f0d9ee0b0d8ec2a913141125e3a4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:56 +0000
Subject: [PATCH 17/38] fix: window::write: do not report discarded bytes
 behind bytes the stream did not accept

---
 include/stdex/stream.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 60a0cdb..8ccde53 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1672,9 +1672,11 @@ namespace stdex
 					m_state = state_t::ok;
 				}
 				else {
-					num_skipped += length - static_cast<size_t>(write_limit);
+					size_t num_discard = length - static_cast<size_t>(write_limit);
 					num_written = converter::write(data, static_cast<size_t>(write_limit));
 					write_limit -= num_written;
+					if (!write_limit)
+						num_skipped += num_discard;
 				}
 				return num_skipped + num_written;
 			}
-- 
2.43.0


From c6243b2697fd74f0de3303afcabe3bddea248175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:44 +0000
Subject: [PATCH 18/38] fix: basic::read_array: do not count a partially read
 element

---
 include/stdex/stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 8ccde53..4f4d5a0 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -381,7 +381,7 @@ namespace stdex
 					if (!to_read)
 						return count;
 					if (!ok()) _Unlikely_
-						return count - to_read / size;
+						return (size * count - to_read) / size;
 					reinterpret_cast<uint8_t*&>(array) += num_read;
 				}
 			}
-- 
2.43.0


From a25d084353fec14690113fa2b9e6ee21acf9def3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:44 +0000
Subject: [PATCH 19/38] fix: basic::write_stream: stop when writing fails,
 write the rest after a short write

---
 include/stdex/stream.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 4f4d5a0..997ad14 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -564,9 +564,14 @@ namespace stdex
 				m_state = state_t::ok;
 				while (to_write) {
 					size_t num_read = stream.read(data.get(), static_cast<size_t>(std::min<fsize_t>(default_block_size, to_write)));
-					size_t num_written = write(data.get(), num_read);
-					num_copied += num_written;
-					to_write -= num_written;
+					for (size_t offset = 0; offset < num_read;) {
+						size_t num_written = write(data.get() + offset, num_read - offset);
+						offset += num_written;
+						num_copied += num_written;
+						to_write -= num_written;
+						if (!ok()) _Unlikely_
+							return num_copied;
+					}
 					if (stream.m_state == state_t::eof) {
 						// EOF is not an error.
 						m_state = state_t::ok;
-- 
2.43.0


From 3832a95892cfa9c54a91829a4ba30d108b629db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:44 +0000
Subject: [PATCH 20/38] fix: basic: operator >> for std::vector and std::set
 did not return the stream

---
 include/stdex/stream.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 997ad14..f0e396c 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -712,6 +712,7 @@ namespace stdex
 						return *this;
 					data.push_back(std::move(el));
 				}
+				return *this;
 			}
 
 			template <class KEY, class PR = std::less<KEY>, class AX = std::allocator<KEY>>
@@ -741,6 +742,7 @@ namespace stdex
 						return *this;
 					data.insert(std::move(el));
 				}
+				return *this;
 			}
 
 			template <class KEY, class PR = std::less<KEY>, class AX = std::allocator<KEY>>
-- 
2.43.0


From abdadc1a20b9cb293af8f20185660b8732bc8f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:26 +0000
Subject: [PATCH 21/38] fix: memory_file: reading past the end of file does not
 read memory behind it

---
 include/stdex/stream.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index f0e396c..61cbe43 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -3564,7 +3564,7 @@ namespace stdex
 #if SET_FILE_OP_TIMES
 				m_atime = time_point::now();
 #endif
-				size_t available = m_size - m_offset;
+				size_t available = m_offset < m_size ? m_size - m_offset : 0;
 				if (length <= available) {
 					memcpy(data, &m_data[m_offset], length);
 					m_offset += length;
@@ -3615,7 +3615,8 @@ namespace stdex
 				}
 				else {
 					data = 0;
-					m_offset = m_size;
+					if (m_offset < m_size)
+						m_offset = m_size;
 					m_state = state_t::eof;
 				}
 				return *this;
-- 
2.43.0


From de92fdce6971ff9647a0327d4273d584fd979ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:26 +0000
Subject: [PATCH 22/38] fix: memory_file::read_str returns what is left of a
 truncated string and clears the data at the end of file

---
 include/stdex/stream.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 61cbe43..f75fa77 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -3660,10 +3660,12 @@ namespace stdex
 #endif
 						return *this;
 					}
-					if (end_offset <= m_size)
-						data.assign(start, reinterpret_cast<T*>(&m_data[m_size]));
+					data.assign(start, start + (m_size - m_offset) / sizeof(T));
 				}
-				m_offset = m_size;
+				else
+					data.clear();
+				if (m_offset < m_size)
+					m_offset = m_size;
 				m_state = state_t::eof;
 				return *this;
 			}
-- 
2.43.0


From af500b170f329114fa5569cd2e4746e3a6edf7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:26 +0000
Subject: [PATCH 23/38] fix: memory_file zeroes the gap when writing past the
 end of file

---
 include/stdex/stream.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index f75fa77..02e325b 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -3683,6 +3683,7 @@ namespace stdex
 					if (!ok()) _Unlikely_
 						return 0;
 				}
+				fill_gap();
 				memcpy(&m_data[m_offset], data, length);
 				m_offset = end_offset;
 				if (m_offset > m_size)
@@ -3705,6 +3706,7 @@ namespace stdex
 					if (!ok()) _Unlikely_
 						return;
 				}
+				fill_gap();
 				memset(&m_data[m_offset], byte, amount);
 				m_offset = end_offset;
 				if (m_offset > m_size)
@@ -3740,6 +3742,7 @@ namespace stdex
 					if (!ok()) _Unlikely_
 						return *this;
 				}
+				fill_gap();
 				(*reinterpret_cast<T*>(&m_data[m_offset])) = HE2LE(data);
 				m_offset = end_offset;
 				if (m_offset > m_size)
@@ -3783,6 +3786,7 @@ namespace stdex
 					if (!ok()) _Unlikely_
 						return *this;
 				}
+				fill_gap();
 				auto p = &m_data[m_offset];
 				*reinterpret_cast<uint32_t*>(p) = HE2LE((uint32_t)num_chars);
 				memcpy(p + sizeof(uint32_t), data, size_chars);
@@ -3828,6 +3832,7 @@ namespace stdex
 					if (!ok()) _Unlikely_
 						return *this;
 				}
+				fill_gap();
 				auto p = &m_data[m_offset];
 				*reinterpret_cast<uint32_t*>(p) = HE2LE((uint32_t)num_chars);
 				memcpy(p + sizeof(uint32_t), data.data(), size_chars);
@@ -3889,8 +3894,10 @@ namespace stdex
 						}
 					};
 				}
+				if (num_copied)
+					fill_gap();
 				m_offset = dst_offset;
-				if (m_offset > m_size)
+				if (num_copied && m_offset > m_size)
 					m_size = m_offset;
 				return num_copied;
 			}
@@ -4078,6 +4085,15 @@ namespace stdex
 			memory_file& operator <<(_In_ const std::basic_string<T, TR, AX>& data) { return write_str(data); }
 
 		protected:
+			///
+			/// Zeroes the content between the end of file and the file pointer
+			///
+			void fill_gap()
+			{
+				if (m_offset > m_size)
+					memset(&m_data[m_size], 0, m_offset - m_size);
+			}
+
 			uint8_t* m_data; ///< file data
 			bool m_manage; ///< may reallocate m_data?
 			size_t m_offset; ///< file pointer
-- 
2.43.0


From 8ce8d4021de494005fafa6e5b14ce48c42bf18f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:26 +0000
Subject: [PATCH 24/38] fix: memory_file::truncate does not set the size past
 the memory reserved

---
 include/stdex/stream.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 02e325b..4b60429 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -3947,8 +3947,11 @@ namespace stdex
 #if SET_FILE_OP_TIMES
 				m_atime = m_mtime = time_point::now();
 #endif
-				m_size = m_offset;
 				reserve(m_offset);
+				if (!ok()) _Unlikely_
+					return;
+				fill_gap();
+				m_size = m_offset;
 			}
 
 #if SET_FILE_OP_TIMES
-- 
2.43.0


From 960f12bfa687914c062fed820155dcc7aceded82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:26 +0000
Subject: [PATCH 25/38] fix: memory_file: guard size calculations against
 overflow

---
 include/stdex/stream.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 4b60429..2b26742 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -3456,7 +3456,7 @@ namespace stdex
 					m_state = state_t::fail;
 					return;
 				}
-				size_t reserved = tight ? required : ((required + required / 4 + (default_block_size - 1)) / default_block_size) * default_block_size;
+				size_t reserved = tight || required > SIZE_MAX / 2 ? required : ((required + required / 4 + (default_block_size - 1)) / default_block_size) * default_block_size;
 				auto data = reinterpret_cast<uint8_t*>(realloc(m_data, reserved));
 				if (!data && reserved) _Unlikely_ {
 					m_state = state_t::fail;
@@ -3700,7 +3700,7 @@ namespace stdex
 #if SET_FILE_OP_TIMES
 				m_atime = m_mtime = time_point::now();
 #endif
-				size_t end_offset = m_offset + amount;
+				size_t end_offset = stdex::add(m_offset, amount);
 				if (end_offset > m_reserved) {
 					reserve(end_offset);
 					if (!ok()) _Unlikely_
-- 
2.43.0


From c86375b97d4003a69dd03d31c1e649ca7f650690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:26 +0000
Subject: [PATCH 26/38] fix: basic_file::read_remainder past the end of file

---
 include/stdex/stream.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 2b26742..a29209d 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -823,7 +823,9 @@ namespace stdex
 		public:
 			virtual std::vector<uint8_t> read_remainder(_In_ size_t max_length = SIZE_MAX)
 			{
-				size_t length = std::min<size_t>(max_length, static_cast<size_t>(size() - tell()));
+				fsize_t end = size();
+				fpos_t offset = tell();
+				size_t length = offset < end ? static_cast<size_t>(std::min<fsize_t>(max_length, end - offset)) : 0;
 				std::vector<uint8_t> result;
 				try { result.resize(length); }
 				catch (const std::bad_alloc&) {
-- 
2.43.0


From c2cc43d72b6f46a25f7c3892f7a2bd25dd2c9f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:26 +0000
Subject: [PATCH 27/38] fix: fifo releases nodes the way they were allocated

---
 include/stdex/stream.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index a29209d..f6b8298 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -4129,7 +4129,7 @@ namespace stdex
 				while (m_head) {
 					auto p = m_head;
 					m_head = p->next;
-					delete p;
+					delete[] reinterpret_cast<uint8_t*>(p);
 				}
 			}
 
@@ -4158,7 +4158,7 @@ namespace stdex
 					to_read -= remaining;
 					auto p = m_head;
 					m_head = p->next;
-					delete p;
+					delete[] reinterpret_cast<uint8_t*>(p);
 				}
 			}
 
@@ -4167,15 +4167,15 @@ namespace stdex
 			{
 				stdex_assert(data || !length);
 				try {
-					std::unique_ptr<node_t> n(reinterpret_cast<node_t*>(new uint8_t[sizeof(node_t) + length]));
+					auto n = reinterpret_cast<node_t*>(new uint8_t[sizeof(node_t) + length]);
 					n->next = nullptr;
 					n->size = length;
 					memcpy(n->data, data, length);
 					m_size += length;
 					if (m_head)
-						m_tail = m_tail->next = n.release();
+						m_tail = m_tail->next = n;
 					else
-						m_head = m_tail = n.release();
+						m_head = m_tail = n;
 					m_state = state_t::ok;
 					return length;
 				}
@@ -4191,7 +4191,7 @@ namespace stdex
 				while (m_head) {
 					auto p = m_head;
 					m_head = p->next;
-					delete p;
+					delete[] reinterpret_cast<uint8_t*>(p);
 				}
 				m_state = state_t::ok;
 			}
-- 
2.43.0


From 697747d57b66d109dcb1aa84e8b8e76e451e44e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:07 +0000
Subject: [PATCH 28/38] fix: strtouuid reads past the limit and accepts any
 character before the last group

---
 include/stdex/uuid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/uuid.hpp b/include/stdex/uuid.hpp
index 7a81877..e521903 100644
--- a/include/stdex/uuid.hpp
+++ b/include/stdex/uuid.hpp
@@ -146,7 +146,7 @@ namespace stdex
 #endif
 		i += j;
 		for (; i < count && str[i] && stdex::isspace(str[i]); ++i);
-		if (i >= count && str[i] != '-') return false;
+		if (i >= count || str[i] != '-') return false;
 		++i;
 		for (; i < count && str[i] && stdex::isspace(str[i]); ++i);
 		n = stdex::strtou64(&str[i], count - i, &j, 16);
-- 
2.43.0


From a8c105391b151c4bcb39f7e1eb633016f14347de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:07 +0000
Subject: [PATCH 29/38] fix: uuidtostr for wchar_t passed a stray argument to
 swprintf

---
 include/stdex/uuid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/uuid.hpp b/include/stdex/uuid.hpp
index e521903..1f4d384 100644
--- a/include/stdex/uuid.hpp
+++ b/include/stdex/uuid.hpp
@@ -69,7 +69,7 @@ namespace stdex
 			static_cast<unsigned int>(id.Data4[0]), static_cast<unsigned int>(id.Data4[1]),
 			static_cast<unsigned int>(id.Data4[2]), static_cast<unsigned int>(id.Data4[3]), static_cast<unsigned int>(id.Data4[4]), static_cast<unsigned int>(id.Data4[5]), static_cast<unsigned int>(id.Data4[6]), static_cast<unsigned int>(id.Data4[7]));
 #else
-		swprintf(str, uuid_str_max, L"{%08X-%04X-%04X-%02X%02X-%02X%02X%02X%02X%02X%02X}", NULL,
+		swprintf(str, uuid_str_max, L"{%08X-%04X-%04X-%02X%02X-%02X%02X%02X%02X%02X%02X}",
 			*reinterpret_cast<const uint32_t*>(&id[0]),
 			static_cast<unsigned int>(*reinterpret_cast<const uint16_t*>(&id[4])),
 			static_cast<unsigned int>(*reinterpret_cast<const uint16_t*>(&id[6])),
-- 
2.43.0


From f7ce5318d8a76de08658b75c539ffb6b1fa48b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:10 +0000
Subject: [PATCH 30/38] fix: aosn_timestamp::from_system(timespec) converted
 nanoseconds as if they were microseconds

---
 include/stdex/chrono.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/chrono.hpp b/include/stdex/chrono.hpp
index 77c0681..0c35d24 100644
--- a/include/stdex/chrono.hpp
+++ b/include/stdex/chrono.hpp
@@ -299,7 +299,7 @@ namespace stdex {
 			///
 			static time_point from_system(_In_ const struct timespec& t) noexcept
 			{
-				return time_point(duration(static_cast<rep>(from_time_t(t.tv_sec).time_since_epoch().count() + t.tv_nsec / 1000)));
+				return time_point(duration(static_cast<rep>(from_time_t(t.tv_sec).time_since_epoch().count() + t.tv_nsec / 1000000)));
 			}
 #endif
 
-- 
2.43.0


From 25c2bfcaf0257ad663ff1252fd999c271ef6bd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:00 +0000
Subject: [PATCH 31/38] fix: cache::write tested its own stale state instead of
 the source's after seeking it

---
 include/stdex/stream.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index f6b8298..fa2880e 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1979,8 +1979,10 @@ namespace stdex
 						if (m_offset / m_cache.capacity < end_max / m_cache.capacity) {
 							// Write spans multiple cache blocks. Bypass cache to the last block.
 							m_source->seekbeg(m_offset);
-							if (!ok()) _Unlikely_
+							if (!m_source->ok()) _Unlikely_ {
+								m_state = state_t::fail;
 								return length - to_write;
+							}
 							size_t num_written = m_source->write(data, to_write - static_cast<size_t>(end_max % m_cache.capacity));
 							m_offset += num_written;
 							m_state = m_source->state();
-- 
2.43.0


From f812b2f3257c859d5c30c1b7405441cbf6208d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:00 +0000
Subject: [PATCH 32/38] fix: cache::write past the end of the file left
 uninitialised bytes in the gap

---
 include/stdex/stream.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index fa2880e..d0658fc 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1954,6 +1954,10 @@ namespace stdex
 					if (m_cache.status != cache_t::cache_t::status_t::empty) {
 						fpos_t end_max = m_cache.region.start + m_cache.capacity;
 						if (m_cache.region.start <= m_offset && m_offset < end_max) {
+							if (m_cache.region.end < m_offset) {
+								// Writing past the end of file. Fill the gap with zeros.
+								memset(m_cache.data + static_cast<size_t>(m_cache.region.end - m_cache.region.start), 0, static_cast<size_t>(m_offset - m_cache.region.end));
+							}
 							size_t remaining_cache = static_cast<size_t>(end_max - m_offset);
 							if (to_write <= remaining_cache) {
 								memcpy(m_cache.data + static_cast<size_t>(m_offset - m_cache.region.start), data, to_write);
-- 
2.43.0


From b6a850e54831809c231391efabcf0074b35eed96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:01 +0000
Subject: [PATCH 33/38] fix: cache::flush ignored the state of the source's
 flush

---
 include/stdex/stream.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index d0658fc..72e0114 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -2020,6 +2020,7 @@ namespace stdex
 				if (!ok()) _Unlikely_
 					return;
 				m_source->flush();
+				m_state = m_source->state();
 			}
 
 			virtual fpos_t seek(_In_ foff_t offset, _In_ seek_t how = seek_t::beg)
-- 
2.43.0


From fc3638f6b88e8ba2e40163d8736a8b44aca16a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:01 +0000
Subject: [PATCH 34/38] fix: cache::truncate ignored a failing seek and
 truncated at another position

---
 include/stdex/stream.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 72e0114..ab1481c 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -2079,6 +2079,10 @@ namespace stdex
 				m_atime = m_mtime = time_point::now();
 #endif
 				m_source->seekbeg(m_offset);
+				if (!m_source->ok()) _Unlikely_ {
+					m_state = state_t::fail;
+					return;
+				}
 				if (m_cache.region.end <= m_offset) {
 					// Truncation does not affect cache.
 				}
-- 
2.43.0


From 0177374e11615fd73c5c541eaefb6687745da8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:01 +0000
Subject: [PATCH 35/38] fix: cache::load_cache left a stale block valid when
 seeking the source failed

---
 include/stdex/stream.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index ab1481c..f019266 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -2180,8 +2180,10 @@ namespace stdex
 					m_cache.status = cache_t::cache_t::status_t::loaded;
 					m_state = state_t::ok; // Regardless the read failure, we still might have cached some data.
 				}
-				else
+				else {
+					m_cache.status = cache_t::cache_t::status_t::empty;
 					m_state = state_t::fail;
+				}
 			}
 
 			void write_cache()
-- 
2.43.0


From 5d65ebcd2e09dc271d1edfb3a6c6ef4eb7d020a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:01 +0000
Subject: [PATCH 36/38] fix: cache::write_cache ignored a failing seek and
 wrote the block elsewhere

---
 include/stdex/stream.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index f019266..322c24a 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -2190,6 +2190,10 @@ namespace stdex
 			{
 				stdex_assert(m_cache.status == cache_t::cache_t::status_t::dirty);
 				m_source->seekbeg(m_cache.region.start);
+				if (!m_source->ok()) _Unlikely_ {
+					m_state = state_t::fail;
+					return;
+				}
 				m_source->write(m_cache.data, static_cast<size_t>(m_cache.region.size()));
 				m_state = m_source->state();
 			}
-- 
2.43.0


From 212535f793abc44d340830dd53ae577a6a893c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:01 +0000
Subject: [PATCH 37/38] fix: cache::size counted the offset of an empty block
 past the end of the file

---
 include/stdex/stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 322c24a..783a003 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -2068,7 +2068,7 @@ namespace stdex
 
 			virtual fsize_t size() const
 			{
-				return m_cache.status != cache_t::cache_t::status_t::empty ?
+				return m_cache.status != cache_t::cache_t::status_t::empty && !m_cache.region.empty() ?
 					std::max(m_source->size(), m_cache.region.end) :
 					m_source->size();
 			}
-- 
2.43.0


From 0fe06a3b11a32d95141485c20ad529cd087d36ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:01 +0000
Subject: [PATCH 38/38] fix: cache::write bypassing the cache left the
 overlapping cached block stale

---
 include/stdex/stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdex/stream.hpp b/include/stdex/stream.hpp
index 783a003..54a0f5a 100644
--- a/include/stdex/stream.hpp
+++ b/include/stdex/stream.hpp
@@ -1974,7 +1974,7 @@ namespace stdex
 							m_cache.status = cache_t::cache_t::status_t::dirty;
 							m_cache.region.end = end_max;
 						}
-						flush_cache();
+						invalidate_cache(); // The bypass below would leave the cached block stale.
 						if (!ok()) _Unlikely_
 							return length - to_write;
 					}
-- 
2.43.0

