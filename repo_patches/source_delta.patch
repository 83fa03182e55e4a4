From af9beac8b079efd19a0cc8280c5bddde670a49cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 001/106] fix: print a variadic tuple or struct without fields
 as (...) or {...}

The text was (, ...) and {, ...}, which the datashape parser rejects.
---
 src/dynd/types/struct_type.cpp | 2 +-
 src/dynd/types/tuple_type.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynd/types/struct_type.cpp b/src/dynd/types/struct_type.cpp
index 9933419..6bb64f7 100644
--- a/src/dynd/types/struct_type.cpp
+++ b/src/dynd/types/struct_type.cpp
@@ -89,7 +89,7 @@ void ndt::struct_type::print_type(std::ostream &o) const {
     o << ": " << get_field_type(i);
   }
   if (m_variadic) {
-    o << ", ...}";
+    o << (m_field_count > 0 ? ", ...}" : "...}");
   } else {
     o << "}";
   }
diff --git a/src/dynd/types/tuple_type.cpp b/src/dynd/types/tuple_type.cpp
index 5d774b5..5b07e62 100644
--- a/src/dynd/types/tuple_type.cpp
+++ b/src/dynd/types/tuple_type.cpp
@@ -194,7 +194,7 @@ void ndt::tuple_type::print_type(std::ostream &o) const {
     o << get_field_type(i);
   }
   if (m_variadic) {
-    o << ", ...)";
+    o << (m_field_count > 0 ? ", ...)" : "...)");
   } else {
     o << ")";
   }
-- 
2.43.0


From bbb10c823a631c879177139a0f3a66405418be0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 002/106] fix: accept the \UXXXXXXXX escape in datashape
 strings

Types print field names outside the BMP with it, and that text did not parse.
---
 src/dynd/parse_util.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/dynd/parse_util.cpp b/src/dynd/parse_util.cpp
index c3bb728..bd9ed7b 100644
--- a/src/dynd/parse_util.cpp
+++ b/src/dynd/parse_util.cpp
@@ -479,6 +479,27 @@ bool datashape::parse_quoted_string(const char *&rbegin, const char *end, std::s
         append_utf8_codepoint(cp, out_val);
         break;
       }
+      case 'U': {
+        if (end - begin < 8) {
+          throw datashape::internal_parse_error(begin - 2, "invalid unicode escape sequence in string");
+        }
+        uint32_t cp = 0;
+        for (int i = 0; i < 8; ++i) {
+          char d = *begin++;
+          cp *= 16;
+          if ('0' <= d && d <= '9') {
+            cp += d - '0';
+          } else if ('A' <= d && d <= 'F') {
+            cp += d - 'A' + 10;
+          } else if ('a' <= d && d <= 'f') {
+            cp += d - 'a' + 10;
+          } else {
+            throw datashape::internal_parse_error(begin - 1, "invalid unicode escape sequence in string");
+          }
+        }
+        append_utf8_codepoint(cp, out_val);
+        break;
+      }
       default:
         throw datashape::internal_parse_error(begin - 2, "invalid escape sequence in string");
       }
-- 
2.43.0


From 8e5195963285c4f7954ffd900703ca850ba110c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 003/106] fix: print the base of a Fixed**N dimension power

The base has the Fixed kind's own id, so nothing was printed for it.
---
 src/dynd/types/pow_dimsym_type.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/dynd/types/pow_dimsym_type.cpp b/src/dynd/types/pow_dimsym_type.cpp
index 2961fe5..a9805f0 100644
--- a/src/dynd/types/pow_dimsym_type.cpp
+++ b/src/dynd/types/pow_dimsym_type.cpp
@@ -19,12 +19,11 @@ void ndt::pow_dimsym_type::print_data(std::ostream &DYND_UNUSED(o), const char *
 
 void ndt::pow_dimsym_type::print_type(std::ostream &o) const {
   switch (m_base_tp.get_id()) {
+  case fixed_dim_kind_id:
+    o << "Fixed";
+    break;
   case fixed_dim_id:
-    if (m_base_tp.is_symbolic()) {
-      o << "Fixed";
-    } else {
-      o << m_base_tp.extended<fixed_dim_type>()->get_fixed_dim_size();
-    }
+    o << m_base_tp.extended<fixed_dim_type>()->get_fixed_dim_size();
     break;
   case var_dim_id:
     o << "var";
-- 
2.43.0


From 89d1c6b548382f09f0a0c879fe07383c5e80085c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 004/106] fix: reject a dimension power without an element type
 in datashapes

'2**3*' made a type with an uninitialized element instead of a parse error.
---
 src/dynd/types/datashape_parser.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/dynd/types/datashape_parser.cpp b/src/dynd/types/datashape_parser.cpp
index a4dc23d..52e2358 100644
--- a/src/dynd/types/datashape_parser.cpp
+++ b/src/dynd/types/datashape_parser.cpp
@@ -672,6 +672,9 @@ static ndt::type parse_datashape_nooption(const char *&rbegin, const char *end,
             throw datashape::internal_parse_error(begin, "expected a '*' after dimensional power");
           }
           ndt::type element_tp = datashape::parse(begin, end, symtable);
+          if (element_tp.is_null()) {
+            throw datashape::internal_parse_error(begin, "expected a dynd type");
+          }
           if ('0' <= *bbegin && *bbegin <= '9') {
             intptr_t dim_size = parse<intptr_t>(bbegin, bend);
             result = ndt::pow(ndt::make_fixed_dim(dim_size, element_tp), exponent);
@@ -687,21 +690,25 @@ static ndt::type parse_datashape_nooption(const char *&rbegin, const char *end,
         } else if (isupper(*nbegin)) {
           std::string exponent_name(nbegin, nend);
           if (datashape::parse_token(begin, end, '*')) {
+            ndt::type element_tp = datashape::parse(begin, end, symtable);
+            if (element_tp.is_null()) {
+              throw datashape::internal_parse_error(begin, "expected a dynd type");
+            }
             if ('0' <= *bbegin && *bbegin <= '9') {
               intptr_t dim_size = parse<intptr_t>(bbegin, bend);
               result = ndt::make_type<ndt::pow_dimsym_type>(ndt::make_fixed_dim(dim_size, ndt::make_type<void>()),
-                                                            exponent_name, datashape::parse(begin, end, symtable));
+                                                            exponent_name, element_tp);
             } else if (compare_range_to_literal(bbegin, bend, "var")) {
               result = ndt::make_type<ndt::pow_dimsym_type>(ndt::make_type<ndt::var_dim_type>(ndt::make_type<void>()),
-                                                            exponent_name, datashape::parse(begin, end, symtable));
+                                                            exponent_name, element_tp);
             } else if (compare_range_to_literal(bbegin, bend, "Fixed")) {
               result =
                   ndt::make_type<ndt::pow_dimsym_type>(ndt::make_type<ndt::fixed_dim_kind_type>(ndt::make_type<void>()),
-                                                       exponent_name, datashape::parse(begin, end, symtable));
+                                                       exponent_name, element_tp);
             } else if (isupper(*bbegin)) {
               result = ndt::make_type<ndt::pow_dimsym_type>(
                   ndt::make_type<ndt::typevar_dim_type>(std::string(bbegin, bend), ndt::make_type<void>()),
-                  exponent_name, datashape::parse(begin, end, symtable));
+                  exponent_name, element_tp);
             } else {
               throw datashape::internal_parse_error(bbegin, "invalid dimension type for base of dimensional power");
             }
-- 
2.43.0


From 8d5cb3e370926a1288928d10789dd52700cbdf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 005/106] fix: require the size of a fixed_string in datashapes

fixed_string['ascii'] made a string of size zero, whose text does not parse.
---
 src/dynd/types/fixed_string_type.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/dynd/types/fixed_string_type.cpp b/src/dynd/types/fixed_string_type.cpp
index a7fa89c..242fe52 100644
--- a/src/dynd/types/fixed_string_type.cpp
+++ b/src/dynd/types/fixed_string_type.cpp
@@ -163,10 +163,7 @@ ndt::type ndt::fixed_string_type::parse_type_args(type_id_t DYND_UNUSED(id), con
         encoding = datashape::string_to_encoding(saved_begin, encoding_str);
       }
     } else {
-      if (!datashape::parse_quoted_string(begin, end, encoding_str)) {
-        throw datashape::internal_parse_error(saved_begin, "expected a size integer");
-      }
-      encoding = datashape::string_to_encoding(saved_begin, encoding_str);
+      throw datashape::internal_parse_error(saved_begin, "expected a size integer");
     }
     if (!datashape::parse_token(begin, end, ']')) {
       throw datashape::internal_parse_error(begin, "expected closing ']'");
-- 
2.43.0


From 3aa27d4b1a24ef8f8ce2d91c336e2d973c7d4755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 006/106] fix: detect all overflows when parsing an unsigned
 integer

Comparing the wrapped result against the previous one misses most overflows,
for example "300" was accepted as a uint8 with the value 44.
---
 include/dynd/parse_util.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dynd/parse_util.hpp b/include/dynd/parse_util.hpp
index dec3e89..d12c2db 100644
--- a/include/dynd/parse_util.hpp
+++ b/include/dynd/parse_util.hpp
@@ -924,6 +924,8 @@ std::enable_if_t<is_boolean<T>::value, T> parse(const char *begin, const char *e
 template <typename T>
 std::enable_if_t<is_unsigned<T>::value && is_integral<T>::value && !is_boolean<T>::value, T> parse(const char *begin,
                                                                                                    const char *end) {
+  // The largest value which can be multiplied by ten without overflow
+  const T max_div_10 = std::numeric_limits<T>::max() / static_cast<uint32_t>(10);
   T result = 0, prev_result = 0;
   if (begin == end) {
     raise_string_cast_error(ndt::make_type<T>(), begin, end);
@@ -932,7 +934,7 @@ std::enable_if_t<is_unsigned<T>::value && is_integral<T>::value && !is_boolean<T
     char c = *begin;
     if ('0' <= c && c <= '9') {
       result = (result * 10u) + static_cast<T>(c - '0');
-      if (result < prev_result) {
+      if (prev_result > max_div_10 || result < prev_result) {
         std::stringstream ss;
         ss << "overflow converting string ";
         ss.write(begin, end - begin);
@@ -976,7 +978,7 @@ std::enable_if_t<is_unsigned<T>::value && is_integral<T>::value && !is_boolean<T
             // overflow checking
             for (int i = 0; i < exponent; ++i) {
               result = result * 10u;
-              if (result < prev_result) {
+              if (prev_result > max_div_10) {
                 std::stringstream ss;
                 ss << "overflow converting string ";
                 ss.write(begin, end - begin);
-- 
2.43.0


From 359c19313f1cf1aad0cf0ae1944f9766b1dd3ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 007/106] fix: reject sizes and alignments which overflow an
 int in datashapes

---
 include/dynd/types/datashape_parser.hpp | 15 +++++++++++++++
 src/dynd/types/bytes_type.cpp           |  2 +-
 src/dynd/types/fixed_bytes_type.cpp     |  5 +++--
 src/dynd/types/fixed_string_type.cpp    |  2 +-
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/dynd/types/datashape_parser.hpp b/include/dynd/types/datashape_parser.hpp
index 62628d6..27b8905 100644
--- a/include/dynd/types/datashape_parser.hpp
+++ b/include/dynd/types/datashape_parser.hpp
@@ -54,6 +54,21 @@ namespace datashape {
     const std::string &get_message() const { return m_message; }
   };
 
+  /**
+   * Converts the digits of an unsigned integer, for example as matched by parse_number, to an int. If the value doesn't
+   * fit, raises an internal_parse_error at the position provided.
+   */
+  inline int number_to_int(const char *position, const std::string &number) {
+    int64_t value = 0;
+    for (char c : number) {
+      value = 10 * value + (c - '0');
+      if (value > std::numeric_limits<int>::max()) {
+        throw internal_parse_error(position, "the integer is too large");
+      }
+    }
+    return static_cast<int>(value);
+  }
+
   /**
    * Datashape parsing function, for the outermost datashape grammar node. It's the function to call for parsing a type
    * inside the recursive descent parsing.
diff --git a/src/dynd/types/bytes_type.cpp b/src/dynd/types/bytes_type.cpp
index 216dd39..0ccd085 100644
--- a/src/dynd/types/bytes_type.cpp
+++ b/src/dynd/types/bytes_type.cpp
@@ -128,7 +128,7 @@ ndt::type ndt::bytes_type::parse_type_args(type_id_t DYND_UNUSED(id), const char
         throw datashape::internal_parse_error(begin, "expected closing ']'");
       }
       rbegin = begin;
-      return ndt::make_type<ndt::bytes_type>(atoi(align_val.c_str()));
+      return ndt::make_type<ndt::bytes_type>(datashape::number_to_int(begin, align_val));
     }
     throw datashape::internal_parse_error(begin, "expected 'align'");
   } else {
diff --git a/src/dynd/types/fixed_bytes_type.cpp b/src/dynd/types/fixed_bytes_type.cpp
index 025e193..4d4086b 100644
--- a/src/dynd/types/fixed_bytes_type.cpp
+++ b/src/dynd/types/fixed_bytes_type.cpp
@@ -80,7 +80,7 @@ ndt::type ndt::fixed_bytes_type::parse_type_args(type_id_t DYND_UNUSED(id), cons
     if (datashape::parse_token(begin, end, ']')) {
       // Fixed bytes with just a size parameter
       rbegin = begin;
-      return ndt::make_type<ndt::fixed_bytes_type>(atoi(size_val.c_str()), 1);
+      return ndt::make_type<ndt::fixed_bytes_type>(datashape::number_to_int(begin, size_val), 1);
     }
     if (!datashape::parse_token(begin, end, ',')) {
       throw datashape::internal_parse_error(begin, "expected closing ']' or another argument");
@@ -99,7 +99,8 @@ ndt::type ndt::fixed_bytes_type::parse_type_args(type_id_t DYND_UNUSED(id), cons
       throw datashape::internal_parse_error(begin, "expected closing ']'");
     }
     rbegin = begin;
-    return ndt::make_type<ndt::fixed_bytes_type>(atoi(size_val.c_str()), atoi(align_val.c_str()));
+    return ndt::make_type<ndt::fixed_bytes_type>(datashape::number_to_int(begin, size_val),
+                                                datashape::number_to_int(begin, align_val));
   }
   throw datashape::internal_parse_error(begin, "expected opening '['");
 }
\ No newline at end of file
diff --git a/src/dynd/types/fixed_string_type.cpp b/src/dynd/types/fixed_string_type.cpp
index 242fe52..fb7e2eb 100644
--- a/src/dynd/types/fixed_string_type.cpp
+++ b/src/dynd/types/fixed_string_type.cpp
@@ -151,7 +151,7 @@ ndt::type ndt::fixed_string_type::parse_type_args(type_id_t DYND_UNUSED(id), con
     string_encoding_t encoding = string_encoding_utf_8;
     int string_size = 0;
     if (!value.empty()) {
-      string_size = atoi(value.c_str());
+      string_size = datashape::number_to_int(saved_begin, value);
       if (string_size == 0) {
         throw datashape::internal_parse_error(saved_begin, "string size cannot be zero");
       }
-- 
2.43.0


From 4898a551d6451c376e57dc9f58e8cf8e3e6927e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 008/106] fix: keep the contents when resizing var dimension
 memory

The pod block copied a wrong number of bytes when the data had to move, the
zeroinit block never zeroed the new memory when growing in place, and the
objectarray block used a dangling chunk pointer, copied an element count as
bytes and zeroed at the wrong position.
---
 .../memblock/objectarray_memory_block.hpp     | 27 +++++++---------
 include/dynd/memblock/pod_memory_block.hpp    | 24 +++-----------
 .../dynd/memblock/zeroinit_memory_block.hpp   | 31 ++++---------------
 3 files changed, 22 insertions(+), 60 deletions(-)

diff --git a/include/dynd/memblock/objectarray_memory_block.hpp b/include/dynd/memblock/objectarray_memory_block.hpp
index 15c7e9f..f48078a 100644
--- a/include/dynd/memblock/objectarray_memory_block.hpp
+++ b/include/dynd/memblock/objectarray_memory_block.hpp
@@ -113,23 +113,20 @@ namespace nd {
 
       if (mc->capacity_count - previous_index < count) {
         append_memory(std::max(m_total_allocated_count, count));
+        // Appending memory may have moved the handles
+        mc = &m_memory_handles[m_memory_handles.size() - 2];
         memory_chunk *new_mc = &m_memory_handles.back();
         // Move the old memory to the newly allocated block
-        if (previous_count > 0) {
-          // Subtract the previously used memory from the old chunk's count
-          mc->used_count -= previous_count;
-          memcpy(new_mc->memory, previous_allocated, previous_count);
-          // If the old memory only had the memory being resized,
-          // free it completely.
-          if (previous_allocated == mc->memory) {
-            free(mc->memory);
-            // Remove the second-last element of the vector
-            m_memory_handles.erase(m_memory_handles.begin() + m_memory_handles.size() - 2);
-          }
+        result = new_mc->memory;
+        memcpy(result, previous_allocated, m_stride * previous_count);
+        new_mc->used_count = count;
+        // Subtract the previously used memory from the old chunk's count
+        mc->used_count -= previous_count;
+        // If the old memory only had the memory being resized, free it completely.
+        if (mc->used_count == 0) {
+          free(mc->memory);
+          m_memory_handles.erase(m_memory_handles.end() - 2);
         }
-        mc = &m_memory_handles.back();
-        result = mc->memory;
-        mc->used_count = count;
       } else {
         // Adjust the used count (this may mean to grow it or shrink it)
         if (count >= previous_count) {
@@ -146,7 +143,7 @@ namespace nd {
         // Zero-init the new memory
         intptr_t new_count = count - (intptr_t)previous_count;
         if (new_count > 0) {
-          memset(mc->memory + m_stride * previous_count, 0, m_stride * new_count);
+          memset(result + m_stride * previous_count, 0, m_stride * new_count);
         }
       } else {
         // TODO: Add a default data constructor to base_type
diff --git a/include/dynd/memblock/pod_memory_block.hpp b/include/dynd/memblock/pod_memory_block.hpp
index 0165dcf..81ddb65 100644
--- a/include/dynd/memblock/pod_memory_block.hpp
+++ b/include/dynd/memblock/pod_memory_block.hpp
@@ -83,33 +83,17 @@ namespace nd {
     char *resize(char *inout_begin, size_t count) {
       intptr_t size_bytes = count * data_size;
 
-      //    cout << "resizing memory " << (void *)*inout_begin << " / " << (void *)*inout_end << " from size " <<
-      // (*inout_end - *inout_begin) << " to " << size_bytes << endl;
-      //    cout << "memory state before " << (void *)emb->m_memory_begin << " / " << (void *)emb->m_memory_current << "
-      //    /
-      // " << (void *)emb->m_memory_end << endl;
-      char **inout_end = &m_memory_current;
       char *end = inout_begin + size_bytes;
       if (end <= m_memory_end) {
-        // If it fits, just adjust the current allocation point
         m_memory_current = end;
-        *inout_end = end;
       } else {
-        // If it doesn't fit, need to copy to newly malloc'd memory
-        char *old_current = inout_begin, *old_end = *inout_end;
-        // Allocate memory to double the amount used so far, or the requested size, whichever is larger
-        // NOTE: We're assuming malloc produces memory which has good enough alignment for anything
+        intptr_t old_size_bytes = m_memory_current - inout_begin;
         append_memory(std::max(m_total_allocated_capacity, size_bytes));
-        memcpy(m_memory_begin, inout_begin, *inout_end - inout_begin);
-        end = m_memory_begin + size_bytes;
-        m_memory_current = end;
+        memcpy(m_memory_begin, inout_begin, old_size_bytes);
+        m_memory_current = m_memory_begin + size_bytes;
         inout_begin = m_memory_begin;
-        *inout_end = end;
-        m_total_allocated_capacity -= old_end - old_current;
+        m_total_allocated_capacity -= old_size_bytes;
       }
-      //    cout << "memory state after " << (void *)emb->m_memory_begin << " / " << (void *)emb->m_memory_current << "
-      //    /
-      // " << (void *)emb->m_memory_end << endl;
 
       return inout_begin;
     }
diff --git a/include/dynd/memblock/zeroinit_memory_block.hpp b/include/dynd/memblock/zeroinit_memory_block.hpp
index d92e1d9..78bbc61 100644
--- a/include/dynd/memblock/zeroinit_memory_block.hpp
+++ b/include/dynd/memblock/zeroinit_memory_block.hpp
@@ -88,40 +88,21 @@ namespace nd {
 
     char *resize(char *inout_begin, size_t count) {
       intptr_t size_bytes = count * data_size;
+      intptr_t old_size_bytes = m_memory_current - inout_begin;
 
-      //    cout << "resizing memory " << (void *)*inout_begin << " / " << (void *)*inout_end << " from size " <<
-      // (*inout_end - *inout_begin) << " to " << size_bytes << endl;
-      //    cout << "memory state before " << (void *)m_memory_begin << " / " << (void *)m_memory_current << " /
-      // " << (void *)m_memory_end << endl;
-      char **inout_end = &m_memory_current;
       char *end = inout_begin + size_bytes;
       if (end <= m_memory_end) {
-        // If it fits, just adjust the current allocation point
         m_memory_current = end;
-        // Zero-initialize any newly allocated memory
-        if (end > *inout_end) {
-          memset(*inout_end, 0, end - *inout_end);
-        }
-        *inout_end = end;
       } else {
-        // If it doesn't fit, need to copy to newly malloc'd memory
-        char *old_current = inout_begin, *old_end = *inout_end;
-        intptr_t old_size_bytes = *inout_end - inout_begin;
-        // Allocate memory to double the amount used so far, or the requested size, whichever is larger
-        // NOTE: We're assuming malloc produces memory which has good enough alignment for anything
         append_memory(std::max(m_total_allocated_capacity, size_bytes));
         memcpy(m_memory_begin, inout_begin, old_size_bytes);
-        end = m_memory_begin + size_bytes;
-        m_memory_current = end;
-        // Zero-initialize the newly allocated memory
-        memset(m_memory_begin + old_size_bytes, 0, size_bytes - old_size_bytes);
-
+        m_memory_current = m_memory_begin + size_bytes;
         inout_begin = m_memory_begin;
-        *inout_end = end;
-        m_total_allocated_capacity -= old_end - old_current;
+        m_total_allocated_capacity -= old_size_bytes;
+      }
+      if (size_bytes > old_size_bytes) {
+        memset(inout_begin + old_size_bytes, 0, size_bytes - old_size_bytes);
       }
-      //    cout << "memory state after " << (void *)m_memory_begin << " / " << (void *)m_memory_current << " /
-      // " << (void *)m_memory_end << endl;
 
       return inout_begin;
     }
-- 
2.43.0


From 93364c3e5426c17b0054109eec45512f9ca5f4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:18 +0000
Subject: [PATCH 009/106] fix: keep the element arrmeta alive in the memory of
 var dimensions

The memory block of a var dimension destroys its elements when the last
reference to it goes away, which can be after the array it was created for,
and with it the arrmeta the destructor was using, is gone.
---
 .../memblock/objectarray_memory_block.hpp     | 29 ++++++++++++-------
 src/dynd/types/var_dim_type.cpp               |  8 ++---
 2 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/include/dynd/memblock/objectarray_memory_block.hpp b/include/dynd/memblock/objectarray_memory_block.hpp
index f48078a..e9e739c 100644
--- a/include/dynd/memblock/objectarray_memory_block.hpp
+++ b/include/dynd/memblock/objectarray_memory_block.hpp
@@ -8,7 +8,7 @@
 #include <iostream>
 #include <string>
 
-#include <dynd/memblock/base_memory_block.hpp>
+#include <dynd/memory_block.hpp>
 #include <dynd/type.hpp>
 
 namespace dynd {
@@ -26,7 +26,8 @@ namespace nd {
    * The initial count of elements can be set if a good estimate is known.
    *
    * \param dt  The data type of the objects to allocate.
-   * \param arrmeta  The arrmeta corresponding to the data type for the objects to allocate.
+   * \param arrmeta  The arrmeta corresponding to the data type for the objects to allocate. A copy of it is kept,
+   *                 because the memory block can outlive the array it was created for.
    * \param stride  For objects without a fixed size, the size of the memory to allocate
    *                for each element. This would be typically set to the value for
    *                get_default_data_size() corresponding to default-constructed arrmeta.
@@ -34,8 +35,7 @@ namespace nd {
    */
   class objectarray_memory_block : public base_memory_block {
     ndt::type m_dt;
-    size_t arrmeta_size;
-    const char *m_arrmeta;
+    char *m_arrmeta;
     intptr_t m_stride;
     size_t m_total_allocated_count;
     bool m_finalized;
@@ -43,10 +43,9 @@ namespace nd {
     std::vector<memory_chunk> m_memory_handles;
 
   public:
-    objectarray_memory_block(const ndt::type &dt, size_t arrmeta_size, const char *arrmeta, intptr_t stride,
-                             intptr_t initial_count)
-        : m_dt(dt), arrmeta_size(arrmeta_size), m_arrmeta(arrmeta), m_stride(stride), m_total_allocated_count(0),
-          m_finalized(false), m_memory_handles() {
+    objectarray_memory_block(const ndt::type &dt, const char *arrmeta, intptr_t stride, intptr_t initial_count)
+        : m_dt(dt), m_arrmeta(NULL), m_stride(stride), m_total_allocated_count(0), m_finalized(false),
+          m_memory_handles() {
       if ((dt.get_flags() & type_flag_destructor) == 0) {
         std::stringstream ss;
         ss << "Cannot create objectarray memory block with dynd type " << dt;
@@ -54,14 +53,22 @@ namespace nd {
         throw std::runtime_error(ss.str());
       }
       append_memory(initial_count);
+      m_arrmeta = reinterpret_cast<char *>(calloc(1, std::max<size_t>(dt.get_arrmeta_size(), 1)));
+      if (m_arrmeta == NULL) {
+        free(m_memory_handles.back().memory);
+        throw std::bad_alloc();
+      }
+      dt.extended()->arrmeta_copy_construct(m_arrmeta, arrmeta, memory_block());
     }
 
     ~objectarray_memory_block() {
       for (size_t i = 0, i_end = m_memory_handles.size(); i != i_end; ++i) {
         memory_chunk &mc = m_memory_handles[i];
-        m_dt.extended()->data_destruct_strided(m_arrmeta + arrmeta_size, mc.memory, m_stride, mc.used_count);
+        m_dt.extended()->data_destruct_strided(m_arrmeta, mc.memory, m_stride, mc.used_count);
         free(mc.memory);
       }
+      m_dt.extended()->arrmeta_destruct(m_arrmeta);
+      free(m_arrmeta);
     }
 
     /**
@@ -133,8 +140,8 @@ namespace nd {
           mc->used_count += (count - previous_count);
         } else {
           // Call the destructor on the elements no longer used
-          m_dt.extended()->data_destruct_strided(m_arrmeta + arrmeta_size, previous_allocated + m_stride * count,
-                                                 m_stride, previous_count - count);
+          m_dt.extended()->data_destruct_strided(m_arrmeta, previous_allocated + m_stride * count, m_stride,
+                                                 previous_count - count);
           mc->used_count -= (previous_count - count);
         }
       }
diff --git a/src/dynd/types/var_dim_type.cpp b/src/dynd/types/var_dim_type.cpp
index fbaba7e..87bd650 100644
--- a/src/dynd/types/var_dim_type.cpp
+++ b/src/dynd/types/var_dim_type.cpp
@@ -314,11 +314,14 @@ void ndt::var_dim_type::arrmeta_default_construct(char *arrmeta, bool blockref_a
   metadata_type *md = reinterpret_cast<metadata_type *>(arrmeta);
   md->stride = element_size;
   md->offset = 0;
+  if (!m_element_tp.is_builtin()) {
+    m_element_tp.extended()->arrmeta_default_construct(arrmeta + sizeof(metadata_type), blockref_alloc);
+  }
   // Allocate a memory block
   if (blockref_alloc) {
     uint32_t flags = m_element_tp.get_flags();
     if (flags & type_flag_destructor) {
-      md->blockref = nd::make_memory_block<nd::objectarray_memory_block>(m_element_tp, sizeof(metadata_type), arrmeta,
+      md->blockref = nd::make_memory_block<nd::objectarray_memory_block>(m_element_tp, arrmeta + sizeof(metadata_type),
                                                                          element_size, 64);
     } else if (flags & type_flag_zeroinit) {
       md->blockref = nd::make_memory_block<nd::zeroinit_memory_block>(m_element_tp);
@@ -326,9 +329,6 @@ void ndt::var_dim_type::arrmeta_default_construct(char *arrmeta, bool blockref_a
       md->blockref = nd::make_memory_block<nd::pod_memory_block>(m_element_tp);
     }
   }
-  if (!m_element_tp.is_builtin()) {
-    m_element_tp.extended()->arrmeta_default_construct(arrmeta + sizeof(metadata_type), blockref_alloc);
-  }
 }
 
 void ndt::var_dim_type::arrmeta_copy_construct(char *dst_arrmeta, const char *src_arrmeta,
-- 
2.43.0


From beedd60ad278f037bfebf40addceb0637cc3045b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:51 +0000
Subject: [PATCH 010/106] fix: index the source fields when slicing the fields
 of a tuple or struct

---
 src/dynd/types/struct_type.cpp | 5 +++--
 src/dynd/types/tuple_type.cpp  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/dynd/types/struct_type.cpp b/src/dynd/types/struct_type.cpp
index 6bb64f7..68318e4 100644
--- a/src/dynd/types/struct_type.cpp
+++ b/src/dynd/types/struct_type.cpp
@@ -264,10 +264,11 @@ intptr_t ndt::struct_type::apply_linear_index(intptr_t nindices, const irange *i
       for (intptr_t i = 0; i < dimension_size; ++i) {
         intptr_t idx = start_index + i * index_stride;
         out_offsets[i] = offsets[idx];
-        const type &dt = result_e_dt->get_field_type(i);
+        const type &dt = get_field_type(idx);
         if (!dt.is_builtin()) {
           out_offsets[i] +=
-              dt.extended()->apply_linear_index(nindices - 1, indices + 1, arrmeta + m_arrmeta_offsets[idx], dt,
+              dt.extended()->apply_linear_index(nindices - 1, indices + 1, arrmeta + m_arrmeta_offsets[idx],
+                                                result_e_dt->get_field_type(i),
                                                 out_arrmeta + result_e_dt->get_arrmeta_offset(i), embedded_reference,
                                                 current_i + 1, root_tp, false, NULL, tmp);
         }
diff --git a/src/dynd/types/tuple_type.cpp b/src/dynd/types/tuple_type.cpp
index 5b07e62..c584c74 100644
--- a/src/dynd/types/tuple_type.cpp
+++ b/src/dynd/types/tuple_type.cpp
@@ -171,10 +171,11 @@ intptr_t ndt::tuple_type::apply_linear_index(intptr_t nindices, const irange *in
       for (intptr_t i = 0; i < dimension_size; ++i) {
         intptr_t idx = start_index + i * index_stride;
         out_offsets[i] = offsets[idx];
-        const type &ft = result_e_dt->get_field_type(i);
+        const type &ft = get_field_type(idx);
         if (!ft.is_builtin()) {
           out_offsets[i] +=
-              ft.extended()->apply_linear_index(nindices - 1, indices + 1, arrmeta + m_arrmeta_offsets[idx], ft,
+              ft.extended()->apply_linear_index(nindices - 1, indices + 1, arrmeta + m_arrmeta_offsets[idx],
+                                                result_e_dt->get_field_type(i),
                                                 out_arrmeta + result_e_dt->get_arrmeta_offset(i), embedded_reference,
                                                 current_i + 1, root_tp, false, NULL, tmp);
         }
-- 
2.43.0


From a6c40077c715ce95d21cdc53c7b1fc67ade155ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:57 +0000
Subject: [PATCH 011/106] fix: use the arrmeta and strides of size one
 dimensions in elementwise callables

A dimension of size one was treated as if the operand did not have it, so
the arrmeta of the next dimension was misread, and a var operand next to a
scalar or a lower dimensional one returned var_dim data written as if it
were a fixed dimension.
---
 include/dynd/callables/base_elwise_callable.hpp     |  5 +----
 include/dynd/callables/elwise_callable.hpp          | 11 ++++++++---
 include/dynd/callables/elwise_dispatch_callable.hpp |  7 +++++--
 3 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/include/dynd/callables/base_elwise_callable.hpp b/include/dynd/callables/base_elwise_callable.hpp
index 56054ee..e1f6b77 100644
--- a/include/dynd/callables/base_elwise_callable.hpp
+++ b/include/dynd/callables/base_elwise_callable.hpp
@@ -63,15 +63,12 @@ namespace nd {
             arg_element_tp[i] = arg_tp[i];
           } else {
             arg_size[i] = arg_tp[i].extended<ndt::base_dim_type>()->get_dim_size();
-            if (arg_size[i] == 1) {
-              data.arg_broadcast[i] = true;
-            }
             arg_element_tp[i] = arg_tp[i].extended<ndt::base_dim_type>()->get_element_type();
           }
         }
 
         for (size_t i = 0; i < N; ++i) {
-          data.arg_var[i] = arg_tp[i].get_id() == var_dim_id;
+          data.arg_var[i] = !data.arg_broadcast[i] && arg_tp[i].get_id() == var_dim_id;
         }
 
         intptr_t res_size;
diff --git a/include/dynd/callables/elwise_callable.hpp b/include/dynd/callables/elwise_callable.hpp
index c6b2377..b9d5a80 100644
--- a/include/dynd/callables/elwise_callable.hpp
+++ b/include/dynd/callables/elwise_callable.hpp
@@ -77,7 +77,9 @@ namespace nd {
               src_stride[i] = 0;
               child_src_arrmeta[i] = src_arrmeta[i];
             } else {
-              src_stride[i] = reinterpret_cast<const size_stride_t *>(src_arrmeta[i])->stride;
+              // A dimension of size one broadcasts along the result
+              const size_stride_t *src_md = reinterpret_cast<const size_stride_t *>(src_arrmeta[i]);
+              src_stride[i] = (src_md->dim_size == 1) ? 0 : src_md->stride;
               child_src_arrmeta[i] = src_arrmeta[i] + sizeof(size_stride_t);
             }
           }
@@ -126,8 +128,10 @@ namespace nd {
                 child_src_arrmeta[i] = src_arrmeta[i];
               } else {
                 src_offset[i] = 0;
-                src_stride[i] = reinterpret_cast<const size_stride_t *>(src_arrmeta[i])->stride;
-                child_src_arrmeta[i] = src_arrmeta[i] + sizeof(ndt::var_dim_type::metadata_type);
+                // A dimension of size one broadcasts along the result
+                const size_stride_t *src_md = reinterpret_cast<const size_stride_t *>(src_arrmeta[i]);
+                src_stride[i] = (src_md->dim_size == 1) ? 0 : src_md->stride;
+                child_src_arrmeta[i] = src_arrmeta[i] + sizeof(size_stride_t);
               }
             }
           }
@@ -191,6 +195,7 @@ namespace nd {
                 src_offset[i] = 0;
                 src_stride[i] = reinterpret_cast<const size_stride_t *>(src_arrmeta[i])->stride;
                 src_size[i] = reinterpret_cast<const size_stride_t *>(src_arrmeta[i])->dim_size;
+                child_src_arrmeta[i] = src_arrmeta[i] + sizeof(size_stride_t);
               }
             }
           }
diff --git a/include/dynd/callables/elwise_dispatch_callable.hpp b/include/dynd/callables/elwise_dispatch_callable.hpp
index 7839a8a..8dca90d 100644
--- a/include/dynd/callables/elwise_dispatch_callable.hpp
+++ b/include/dynd/callables/elwise_dispatch_callable.hpp
@@ -65,7 +65,9 @@ namespace nd {
 
         bool var_broadcast = !src_all_strided;
         for (size_t i = 0; i < nsrc; ++i) {
-          var_broadcast &= src_tp[i].get_id() == var_dim_id ||
+          // A src without this dimension broadcasts as well
+          size_t src_ndim = src_tp[i].get_ndim() - child_arg_tp[i].get_ndim();
+          var_broadcast &= src_ndim < reinterpret_cast<data_type *>(data)->ndim || src_tp[i].get_id() == var_dim_id ||
                            (src_tp[i].get_id() == fixed_dim_id &&
                             src_tp[i].extended<ndt::fixed_dim_type>()->get_fixed_dim_size() == 1);
         }
@@ -78,7 +80,8 @@ namespace nd {
           } else {
             return f->resolve(this, data, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
           }
-        } else if (((dst_variadic) || dst_tp.get_id() == var_dim_id) && (var_broadcast || src_all_strided)) {
+        } else if (((dst_variadic && var_broadcast) || (!dst_variadic && dst_tp.get_id() == var_dim_id)) &&
+                   src_all_strided_or_var) {
           static callable f = make_callable<elwise_callable<var_dim_id, fixed_dim_id, no_traits, N>>();
           return f->resolve(this, data, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
         } else if (src_all_strided_or_var) {
-- 
2.43.0


From 7896a5aa5e7d5f2f6a107791eadf5b6c062b0876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:29 +0000
Subject: [PATCH 012/106] fix: check the range of floating point to integer
 assignments exactly

The maximum of the integer type converts up to a floating point value which
is out of range already, and NaN passed the check.
---
 include/dynd/assignment.hpp | 42 ++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/include/dynd/assignment.hpp b/include/dynd/assignment.hpp
index 8a92aa2..4f6a09f 100644
--- a/include/dynd/assignment.hpp
+++ b/include/dynd/assignment.hpp
@@ -240,13 +240,21 @@ check_cast(ArgType s, inexact_check_t) {
   return d;
 }
 
+// Whether a floating point value is outside of the range of an integer type. The maximum
+// value might not convert exactly, but the power of two following it does.
+template <typename RetType, typename ArgType>
+bool is_float_overflow(ArgType s) {
+DYND_ALLOW_INT_FLOAT_CAST
+  return s < std::numeric_limits<RetType>::min() || std::numeric_limits<RetType>::max() < s ||
+         !(s < std::ldexp(ArgType(1), 8 * sizeof(RetType) - (is_signed<RetType>::value ? 1 : 0)));
+DYND_END_ALLOW_INT_FLOAT_CAST
+}
+
 // Floating point -> signed int with overflow checking
 template <typename RetType, typename ArgType>
 std::enable_if_t<is_signed<RetType>::value && is_integral<RetType>::value && is_floating_point<ArgType>::value, RetType>
 overflow_cast(ArgType s) {
-DYND_ALLOW_INT_FLOAT_CAST
-  if (s < std::numeric_limits<RetType>::min() || std::numeric_limits<RetType>::max() < s) {
-DYND_END_ALLOW_INT_FLOAT_CAST
+  if (is_float_overflow<RetType>(s)) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
@@ -267,9 +275,7 @@ overflow_cast(ArgType s) {
     throw std::runtime_error(ss.str());
   }
 
-DYND_ALLOW_INT_FLOAT_CAST
-  if (s.real() < std::numeric_limits<RetType>::min() || std::numeric_limits<RetType>::max() < s.real()) {
-DYND_END_ALLOW_INT_FLOAT_CAST
+  if (is_float_overflow<RetType>(s.real())) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
@@ -284,9 +290,7 @@ template <typename RetType, typename ArgType>
 std::enable_if_t<is_unsigned<RetType>::value && is_integral<RetType>::value && is_floating_point<ArgType>::value,
                  RetType>
 overflow_cast(ArgType s) {
-DYND_ALLOW_INT_FLOAT_CAST
-  if (s < 0 || std::numeric_limits<RetType>::max() < s) {
-DYND_END_ALLOW_INT_FLOAT_CAST
+  if (is_float_overflow<RetType>(s)) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
@@ -305,9 +309,7 @@ overflow_cast(ArgType s) {
     ss << s << " to " << ndt::make_type<RetType>();
     throw std::runtime_error(ss.str());
   }
-DYND_ALLOW_INT_FLOAT_CAST
-  if (s.real() < 0 || std::numeric_limits<RetType>::max() < s.real()) {
-DYND_END_ALLOW_INT_FLOAT_CAST
+  if (is_float_overflow<RetType>(s.real())) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
@@ -508,9 +510,7 @@ overflow_cast(ArgType s) {
 template <typename RetType, typename ArgType>
 std::enable_if_t<is_signed<RetType>::value && is_integral<RetType>::value && is_floating_point<ArgType>::value, RetType>
 fractional_cast(ArgType s) {
-DYND_ALLOW_INT_FLOAT_CAST
-  if (s < std::numeric_limits<RetType>::min() || std::numeric_limits<RetType>::max() < s) {
-DYND_END_ALLOW_INT_FLOAT_CAST
+  if (is_float_overflow<RetType>(s)) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
@@ -537,9 +537,7 @@ fractional_cast(ArgType s) {
     throw std::runtime_error(ss.str());
   }
 
-DYND_ALLOW_INT_FLOAT_CAST
-  if (s.real() < std::numeric_limits<RetType>::min() || std::numeric_limits<RetType>::max() < s.real()) {
-DYND_END_ALLOW_INT_FLOAT_CAST
+  if (is_float_overflow<RetType>(s.real())) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
@@ -560,9 +558,7 @@ template <typename RetType, typename ArgType>
 std::enable_if_t<is_unsigned<RetType>::value && is_integral<RetType>::value && is_floating_point<ArgType>::value,
                  RetType>
 fractional_cast(ArgType s) {
-DYND_ALLOW_INT_FLOAT_CAST
-  if (s < 0 || std::numeric_limits<RetType>::max() < s) {
-DYND_END_ALLOW_INT_FLOAT_CAST
+  if (is_float_overflow<RetType>(s)) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
@@ -589,9 +585,7 @@ fractional_cast(ArgType s) {
     throw std::runtime_error(ss.str());
   }
 
-DYND_ALLOW_INT_FLOAT_CAST
-  if (s.real() < 0 || std::numeric_limits<RetType>::max() < s.real()) {
-DYND_END_ALLOW_INT_FLOAT_CAST
+  if (is_float_overflow<RetType>(s.real())) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
-- 
2.43.0


From f34c06477d8ca8f82f1b3c3558842a81577a9d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:32 +0000
Subject: [PATCH 013/106] fix: support any number of fields and reordered
 fields when assigning tuples and structs

The field offsets were kept in arrays of eight elements, and the arrmeta of
the fields of a struct with another field order was permuted twice.
---
 include/dynd/callables/assign_callable.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/dynd/callables/assign_callable.hpp b/include/dynd/callables/assign_callable.hpp
index 5e2c0ad..ce0030b 100644
--- a/include/dynd/callables/assign_callable.hpp
+++ b/include/dynd/callables/assign_callable.hpp
@@ -685,8 +685,8 @@ namespace nd {
         throw type_error(ss.str());
       }
 
-      std::array<uintptr_t, 8> dst_arrmeta_offsets;
-      std::array<uintptr_t, 8> src_arrmeta_offsets;
+      std::vector<uintptr_t> dst_arrmeta_offsets(field_count);
+      std::vector<uintptr_t> src_arrmeta_offsets(field_count);
       for (int i = 0; i < field_count; ++i) {
         src_arrmeta_offsets[i] = src_sd->get_arrmeta_offsets()[i];
         dst_arrmeta_offsets[i] = dst_sd->get_arrmeta_offsets()[i];
@@ -746,9 +746,6 @@ namespace nd {
       const ndt::struct_type *dst_sd = dst_tp.extended<ndt::struct_type>();
       const ndt::struct_type *src_sd = src_tp[0].extended<ndt::struct_type>();
       intptr_t field_count = dst_sd->get_field_count();
-      std::array<intptr_t, 8> src_permutation;
-      std::array<uintptr_t, 8> src_fields_arrmeta_offsets;
-      std::array<uintptr_t, 8> dst_arrmeta_offsets;
 
       if (field_count != src_sd->get_field_count()) {
         std::stringstream ss;
@@ -757,6 +754,9 @@ namespace nd {
         throw std::runtime_error(ss.str());
       }
 
+      std::vector<intptr_t> src_permutation(field_count);
+      std::vector<uintptr_t> src_fields_arrmeta_offsets(field_count);
+      std::vector<uintptr_t> dst_arrmeta_offsets(field_count);
       const std::vector<ndt::type> &src_fields_tp_orig = src_sd->get_field_types();
       const std::vector<uintptr_t> &src_arrmeta_offsets_orig = src_sd->get_arrmeta_offsets();
       std::vector<ndt::type> src_fields_tp(field_count);
@@ -794,7 +794,7 @@ namespace nd {
         for (intptr_t i = 0; i != field_count; ++i) {
           intptr_t src_i = src_permutation[i];
           src_data_offsets[i] = src_data_offsets_orig[src_i];
-          src_fields_arrmeta[i] = src_arrmeta[0] + src_fields_arrmeta_offsets[src_i];
+          src_fields_arrmeta[i] = src_arrmeta[0] + src_fields_arrmeta_offsets[i];
         }
 
         shortvector<const char *> dst_fields_arrmeta(field_count);
-- 
2.43.0


From 689566b1df9958bd1dff8b0b97f013885b756ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 014/106] fix: compare tuples and structs of any size and
 memory layout

The field offsets were kept in an array of eight elements, the arrmeta of the
first operand was used for both, and the field kernels were not requested as
the single kernels they are called as.
---
 include/dynd/callables/equal_callable.hpp     | 48 +++++++++----------
 include/dynd/callables/not_equal_callable.hpp | 48 +++++++++----------
 2 files changed, 48 insertions(+), 48 deletions(-)

diff --git a/include/dynd/callables/equal_callable.hpp b/include/dynd/callables/equal_callable.hpp
index 92ab234..588cbc2 100644
--- a/include/dynd/callables/equal_callable.hpp
+++ b/include/dynd/callables/equal_callable.hpp
@@ -32,16 +32,16 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp, size_t nkwd,
                       const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
       size_t field_count = src_tp[0].extended<ndt::tuple_type>()->get_field_count();
-
-      auto bsd = src_tp->extended<ndt::tuple_type>();
-      std::array<uintptr_t, 8> arrmeta_offsets;
-      for (size_t i = 0; i < field_count; ++i) {
-        arrmeta_offsets[i] = bsd->get_arrmeta_offsets()[i];
+      if (field_count != static_cast<size_t>(src_tp[1].extended<ndt::tuple_type>()->get_field_count())) {
+        throw not_comparable_error(src_tp[0], src_tp[1], comparison_type_equal);
       }
 
-      cg.emplace_back([field_count, arrmeta_offsets](kernel_builder &kb, kernel_request_t kernreq,
-                                                     char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
-                                                     const char *const *src_arrmeta) {
+      std::vector<uintptr_t> src0_arrmeta_offsets = src_tp[0].extended<ndt::tuple_type>()->get_arrmeta_offsets();
+      std::vector<uintptr_t> src1_arrmeta_offsets = src_tp[1].extended<ndt::tuple_type>()->get_arrmeta_offsets();
+
+      cg.emplace_back([field_count, src0_arrmeta_offsets, src1_arrmeta_offsets](
+          kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
+          const char *const *src_arrmeta) {
         intptr_t self_offset = kb.size();
 
         kb.emplace_back<equal_kernel<ndt::tuple_type, ndt::tuple_type>>(
@@ -60,16 +60,16 @@ namespace nd {
           e = kb.get_at<equal_kernel<ndt::tuple_type, ndt::tuple_type>>(self_offset);
           field_kernel_offsets = reinterpret_cast<size_t *>(e + 1);
           field_kernel_offsets[i] = kb.size() - self_offset;
-          const char *field_arrmeta = src_arrmeta[0] + arrmeta_offsets[i];
-          const char *child_src_arrmeta[2] = {field_arrmeta, field_arrmeta};
-          kb(kernreq | kernel_request_data_only, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
+          const char *child_src_arrmeta[2] = {src_arrmeta[0] + src0_arrmeta_offsets[i],
+                                              src_arrmeta[1] + src1_arrmeta_offsets[i]};
+          kb(kernel_request_single, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
         }
       });
 
       for (size_t i = 0; i != field_count; ++i) {
         ndt::type src_field_tp[2] = {src_tp[0].extended<ndt::tuple_type>()->get_field_type(i),
                                      src_tp[1].extended<ndt::tuple_type>()->get_field_type(i)};
-        equal->resolve(this, nullptr, cg, dst_tp, 1, src_field_tp, nkwd, kwds, tp_vars);
+        equal->resolve(this, nullptr, cg, dst_tp, 2, src_field_tp, nkwd, kwds, tp_vars);
       }
 
       return dst_tp;
@@ -88,16 +88,16 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp, size_t nkwd,
                       const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
       size_t field_count = src_tp[0].extended<ndt::struct_type>()->get_field_count();
-
-      auto bsd = src_tp->extended<ndt::struct_type>();
-      std::array<uintptr_t, 8> arrmeta_offsets;
-      for (size_t i = 0; i < field_count; ++i) {
-        arrmeta_offsets[i] = bsd->get_arrmeta_offsets()[i];
+      if (field_count != static_cast<size_t>(src_tp[1].extended<ndt::struct_type>()->get_field_count())) {
+        throw not_comparable_error(src_tp[0], src_tp[1], comparison_type_equal);
       }
 
-      cg.emplace_back([field_count, arrmeta_offsets](kernel_builder &kb, kernel_request_t kernreq,
-                                                     char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
-                                                     const char *const *src_arrmeta) {
+      std::vector<uintptr_t> src0_arrmeta_offsets = src_tp[0].extended<ndt::struct_type>()->get_arrmeta_offsets();
+      std::vector<uintptr_t> src1_arrmeta_offsets = src_tp[1].extended<ndt::struct_type>()->get_arrmeta_offsets();
+
+      cg.emplace_back([field_count, src0_arrmeta_offsets, src1_arrmeta_offsets](
+          kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
+          const char *const *src_arrmeta) {
         intptr_t self_offset = kb.size();
 
         kb.emplace_back<equal_kernel<ndt::struct_type, ndt::struct_type>>(
@@ -116,16 +116,16 @@ namespace nd {
           e = kb.get_at<equal_kernel<ndt::struct_type, ndt::struct_type>>(self_offset);
           field_kernel_offsets = reinterpret_cast<size_t *>(e + 1);
           field_kernel_offsets[i] = kb.size() - self_offset;
-          const char *field_arrmeta = src_arrmeta[0] + arrmeta_offsets[i];
-          const char *child_src_arrmeta[2] = {field_arrmeta, field_arrmeta};
-          kb(kernreq | kernel_request_data_only, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
+          const char *child_src_arrmeta[2] = {src_arrmeta[0] + src0_arrmeta_offsets[i],
+                                              src_arrmeta[1] + src1_arrmeta_offsets[i]};
+          kb(kernel_request_single, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
         }
       });
 
       for (size_t i = 0; i != field_count; ++i) {
         ndt::type src_field_tp[2] = {src_tp[0].extended<ndt::struct_type>()->get_field_type(i),
                                      src_tp[1].extended<ndt::struct_type>()->get_field_type(i)};
-        equal->resolve(this, nullptr, cg, dst_tp, 1, src_field_tp, nkwd, kwds, tp_vars);
+        equal->resolve(this, nullptr, cg, dst_tp, 2, src_field_tp, nkwd, kwds, tp_vars);
       }
 
       return dst_tp;
diff --git a/include/dynd/callables/not_equal_callable.hpp b/include/dynd/callables/not_equal_callable.hpp
index 2a9d07c..4e592f0 100644
--- a/include/dynd/callables/not_equal_callable.hpp
+++ b/include/dynd/callables/not_equal_callable.hpp
@@ -32,16 +32,16 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp, size_t nkwd,
                       const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
       size_t field_count = src_tp[0].extended<ndt::tuple_type>()->get_field_count();
-
-      auto bsd = src_tp->extended<ndt::tuple_type>();
-      std::array<uintptr_t, 8> arrmeta_offsets;
-      for (size_t i = 0; i < field_count; ++i) {
-        arrmeta_offsets[i] = bsd->get_arrmeta_offsets()[i];
+      if (field_count != static_cast<size_t>(src_tp[1].extended<ndt::tuple_type>()->get_field_count())) {
+        throw not_comparable_error(src_tp[0], src_tp[1], comparison_type_not_equal);
       }
 
-      cg.emplace_back([field_count, arrmeta_offsets](kernel_builder &kb, kernel_request_t kernreq,
-                                                     char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
-                                                     const char *const *src_arrmeta) {
+      std::vector<uintptr_t> src0_arrmeta_offsets = src_tp[0].extended<ndt::tuple_type>()->get_arrmeta_offsets();
+      std::vector<uintptr_t> src1_arrmeta_offsets = src_tp[1].extended<ndt::tuple_type>()->get_arrmeta_offsets();
+
+      cg.emplace_back([field_count, src0_arrmeta_offsets, src1_arrmeta_offsets](
+          kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
+          const char *const *src_arrmeta) {
         intptr_t self_offset = kb.size();
 
         kb.emplace_back<not_equal_kernel<ndt::tuple_type, ndt::tuple_type>>(
@@ -60,16 +60,16 @@ namespace nd {
           e = kb.get_at<not_equal_kernel<ndt::tuple_type, ndt::tuple_type>>(self_offset);
           field_kernel_offsets = reinterpret_cast<size_t *>(e + 1);
           field_kernel_offsets[i] = kb.size() - self_offset;
-          const char *field_arrmeta = src_arrmeta[0] + arrmeta_offsets[i];
-          const char *child_src_arrmeta[2] = {field_arrmeta, field_arrmeta};
-          kb(kernreq | kernel_request_data_only, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
+          const char *child_src_arrmeta[2] = {src_arrmeta[0] + src0_arrmeta_offsets[i],
+                                              src_arrmeta[1] + src1_arrmeta_offsets[i]};
+          kb(kernel_request_single, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
         }
       });
 
       for (size_t i = 0; i != field_count; ++i) {
         ndt::type src_field_tp[2] = {src_tp[0].extended<ndt::tuple_type>()->get_field_type(i),
                                      src_tp[1].extended<ndt::tuple_type>()->get_field_type(i)};
-        not_equal->resolve(this, nullptr, cg, dst_tp, 1, src_field_tp, nkwd, kwds, tp_vars);
+        not_equal->resolve(this, nullptr, cg, dst_tp, 2, src_field_tp, nkwd, kwds, tp_vars);
       }
 
       return dst_tp;
@@ -88,16 +88,16 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp, size_t nkwd,
                       const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
       size_t field_count = src_tp[0].extended<ndt::struct_type>()->get_field_count();
-
-      auto bsd = src_tp->extended<ndt::struct_type>();
-      std::array<uintptr_t, 8> arrmeta_offsets;
-      for (size_t i = 0; i < field_count; ++i) {
-        arrmeta_offsets[i] = bsd->get_arrmeta_offsets()[i];
+      if (field_count != static_cast<size_t>(src_tp[1].extended<ndt::struct_type>()->get_field_count())) {
+        throw not_comparable_error(src_tp[0], src_tp[1], comparison_type_not_equal);
       }
 
-      cg.emplace_back([field_count, arrmeta_offsets](kernel_builder &kb, kernel_request_t kernreq,
-                                                     char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
-                                                     const char *const *src_arrmeta) {
+      std::vector<uintptr_t> src0_arrmeta_offsets = src_tp[0].extended<ndt::struct_type>()->get_arrmeta_offsets();
+      std::vector<uintptr_t> src1_arrmeta_offsets = src_tp[1].extended<ndt::struct_type>()->get_arrmeta_offsets();
+
+      cg.emplace_back([field_count, src0_arrmeta_offsets, src1_arrmeta_offsets](
+          kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
+          const char *const *src_arrmeta) {
         intptr_t self_offset = kb.size();
 
         kb.emplace_back<not_equal_kernel<ndt::struct_type, ndt::struct_type>>(
@@ -116,16 +116,16 @@ namespace nd {
           e = kb.get_at<not_equal_kernel<ndt::struct_type, ndt::struct_type>>(self_offset);
           field_kernel_offsets = reinterpret_cast<size_t *>(e + 1);
           field_kernel_offsets[i] = kb.size() - self_offset;
-          const char *field_arrmeta = src_arrmeta[0] + arrmeta_offsets[i];
-          const char *child_src_arrmeta[2] = {field_arrmeta, field_arrmeta};
-          kb(kernreq | kernel_request_data_only, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
+          const char *child_src_arrmeta[2] = {src_arrmeta[0] + src0_arrmeta_offsets[i],
+                                              src_arrmeta[1] + src1_arrmeta_offsets[i]};
+          kb(kernel_request_single, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
         }
       });
 
       for (size_t i = 0; i != field_count; ++i) {
         ndt::type src_field_tp[2] = {src_tp[0].extended<ndt::struct_type>()->get_field_type(i),
                                      src_tp[1].extended<ndt::struct_type>()->get_field_type(i)};
-        not_equal->resolve(this, nullptr, cg, dst_tp, 1, src_field_tp, nkwd, kwds, tp_vars);
+        not_equal->resolve(this, nullptr, cg, dst_tp, 2, src_field_tp, nkwd, kwds, tp_vars);
       }
 
       return dst_tp;
-- 
2.43.0


From 8166f5849577955078fc7c8a25fa614e6c4b6900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 015/106] fix: do not loop forever when copying an array whose
 last dimensions have size one

---
 src/dynd/types/fixed_dim_type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynd/types/fixed_dim_type.cpp b/src/dynd/types/fixed_dim_type.cpp
index 894c534..5b717e9 100644
--- a/src/dynd/types/fixed_dim_type.cpp
+++ b/src/dynd/types/fixed_dim_type.cpp
@@ -469,7 +469,7 @@ void ndt::fixed_dim_type::reorder_default_constructed_strides(char *dst_arrmeta,
       // zero stride, may have to look further
       intptr_t i = ndim_partial - 2;
       do {
-        stride = md[i].stride;
+        stride = md[i--].stride;
       } while (stride == 0 && i >= 0);
     }
     for (size_t i = 0; i < ndim_partial; ++i) {
-- 
2.43.0


From 7536f4a5f910d149468a20796fc521b16a132dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 016/106] fix: keep the source type in the closures of assign
 and take callables

The closures captured the pointer to the source types, which is often gone
when the kernel is instantiated.
---
 include/dynd/callables/assign_callable.hpp    | 28 +++++++++----------
 .../dynd/callables/take_dispatch_callable.hpp | 10 +++----
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/include/dynd/callables/assign_callable.hpp b/include/dynd/callables/assign_callable.hpp
index ce0030b..22d9b10 100644
--- a/include/dynd/callables/assign_callable.hpp
+++ b/include/dynd/callables/assign_callable.hpp
@@ -84,34 +84,34 @@ namespace nd {
       switch (error_mode) {
       case assign_error_default:
       case assign_error_nocheck:
-        cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
+        cg.emplace_back([=, src0_tp = src_tp[0]](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                             const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                             const char *const *src_arrmeta) {
-          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_nocheck>>(kernreq, src_tp[0],
+          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_nocheck>>(kernreq, src0_tp,
                                                                                           src_arrmeta[0]);
         });
         break;
       case assign_error_overflow:
-        cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
+        cg.emplace_back([=, src0_tp = src_tp[0]](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                             const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                             const char *const *src_arrmeta) {
-          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_overflow>>(kernreq, src_tp[0],
+          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_overflow>>(kernreq, src0_tp,
                                                                                            src_arrmeta[0]);
         });
         break;
       case assign_error_fractional:
-        cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
+        cg.emplace_back([=, src0_tp = src_tp[0]](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                             const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                             const char *const *src_arrmeta) {
-          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_fractional>>(kernreq, src_tp[0],
+          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_fractional>>(kernreq, src0_tp,
                                                                                              src_arrmeta[0]);
         });
         break;
       case assign_error_inexact:
-        cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
+        cg.emplace_back([=, src0_tp = src_tp[0]](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                             const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                             const char *const *src_arrmeta) {
-          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_inexact>>(kernreq, src_tp[0],
+          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_inexact>>(kernreq, src0_tp,
                                                                                           src_arrmeta[0]);
         });
         break;
@@ -284,10 +284,10 @@ namespace nd {
                       const std::map<std::string, ndt::type> &DYND_UNUSED(tp_vars)) {
       assign_error_mode error_mode = kwds[0].is_na() ? assign_error_default : kwds[0].as<assign_error_mode>();
 
-      cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
+      cg.emplace_back([=, src0_tp = src_tp[0]](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                           const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                           const char *const *DYND_UNUSED(src_arrmeta)) {
-        const ndt::fixed_string_type *src_fs = src_tp[0].extended<ndt::fixed_string_type>();
+        const ndt::fixed_string_type *src_fs = src0_tp.extended<ndt::fixed_string_type>();
         kb.emplace_back<
             detail::assignment_kernel<ndt::fixed_string_type, ndt::fixed_string_type, assign_error_nocheck>>(
             kernreq, get_next_unicode_codepoint_function(src_fs->get_encoding(), error_mode),
@@ -312,11 +312,11 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp,
                       size_t DYND_UNUSED(nkwd), const array *DYND_UNUSED(kwds),
                       const std::map<std::string, ndt::type> &DYND_UNUSED(tp_vars)) {
-      cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
+      cg.emplace_back([=, src0_tp = src_tp[0]](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                           const char *dst_arrmeta, size_t DYND_UNUSED(nsrc),
                           const char *const *DYND_UNUSED(src_arrmeta)) {
         kb.emplace_back<detail::assignment_kernel<string, int8_t, assign_error_nocheck>>(
-            kernreq, dst_tp, src_tp[0].get_id(), dst_arrmeta);
+            kernreq, dst_tp, src0_tp.get_id(), dst_arrmeta);
       });
 
       return dst_tp;
@@ -419,10 +419,10 @@ namespace nd {
                       const std::map<std::string, ndt::type> &DYND_UNUSED(tp_vars)) {
       assign_error_mode error_mode = kwds[0].is_na() ? assign_error_default : kwds[0].as<assign_error_mode>();
 
-      cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
+      cg.emplace_back([=, src0_tp = src_tp[0]](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                           const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                           const char *const *src_arrmeta) {
-        kb.emplace_back<detail::assignment_kernel<float, string, assign_error_nocheck>>(kernreq, src_tp[0],
+        kb.emplace_back<detail::assignment_kernel<float, string, assign_error_nocheck>>(kernreq, src0_tp,
                                                                                         src_arrmeta[0], error_mode);
       });
 
diff --git a/include/dynd/callables/take_dispatch_callable.hpp b/include/dynd/callables/take_dispatch_callable.hpp
index 0e1326c..93070d0 100644
--- a/include/dynd/callables/take_dispatch_callable.hpp
+++ b/include/dynd/callables/take_dispatch_callable.hpp
@@ -90,7 +90,7 @@ namespace nd {
         resolved_dst_tp = ndt::make_fixed_dim(src_tp[1].get_dim_size(NULL, NULL), src0_element_tp);
       }
 
-      cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
+      cg.emplace_back([=, src0_tp = src_tp[0], src1_tp = src_tp[1]](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                           const char *dst_arrmeta, size_t DYND_UNUSED(nsrc), const char *const *src_arrmeta) {
         intptr_t self_offset = kb.size();
         kb.emplace_back<indexed_take_ck>(kernreq);
@@ -109,17 +109,17 @@ namespace nd {
         intptr_t index_dim_size;
         ndt::type src0_el_tp, index_el_tp;
         const char *src0_el_meta, *index_el_meta;
-        if (!src_tp[0].get_as_strided(src_arrmeta[0], &self->m_src0_dim_size, &self->m_src0_stride, &src0_el_tp,
+        if (!src0_tp.get_as_strided(src_arrmeta[0], &self->m_src0_dim_size, &self->m_src0_stride, &src0_el_tp,
                                       &src0_el_meta)) {
           std::stringstream ss;
-          ss << "indexed take arrfunc: could not process type " << src_tp[0];
+          ss << "indexed take arrfunc: could not process type " << src0_tp;
           ss << " as a strided dimension";
           throw type_error(ss.str());
         }
-        if (!src_tp[1].get_as_strided(src_arrmeta[1], &index_dim_size, &self->m_index_stride, &index_el_tp,
+        if (!src1_tp.get_as_strided(src_arrmeta[1], &index_dim_size, &self->m_index_stride, &index_el_tp,
                                       &index_el_meta)) {
           std::stringstream ss;
-          ss << "take arrfunc: could not process type " << src_tp[1];
+          ss << "take arrfunc: could not process type " << src1_tp;
           ss << " as a strided dimension";
           throw type_error(ss.str());
         }
-- 
2.43.0


From b9a0cd35184241cc8e5add188ba301bde36c5124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:09 +0000
Subject: [PATCH 017/106] fix: assign fixed_bytes values of the same size

---
 include/dynd/callables/assign_callable.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/dynd/callables/assign_callable.hpp b/include/dynd/callables/assign_callable.hpp
index 22d9b10..073654b 100644
--- a/include/dynd/callables/assign_callable.hpp
+++ b/include/dynd/callables/assign_callable.hpp
@@ -131,11 +131,20 @@ namespace nd {
               ndt::make_type<ndt::fixed_bytes_kind_type>(), {ndt::make_type<ndt::fixed_bytes_kind_type>()},
               {{ndt::make_type<ndt::option_type>(ndt::make_type<assign_error_mode>()), "error_mode"}})) {}
 
-    ndt::type resolve(base_callable *DYND_UNUSED(caller), char *DYND_UNUSED(data), call_graph &DYND_UNUSED(cg),
-                      const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *DYND_UNUSED(src_tp),
+    ndt::type resolve(base_callable *DYND_UNUSED(caller), char *DYND_UNUSED(data), call_graph &cg,
+                      const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp,
                       size_t DYND_UNUSED(nkwd), const array *DYND_UNUSED(kwds),
                       const std::map<std::string, ndt::type> &DYND_UNUSED(tp_vars)) {
-      throw std::runtime_error("cannot assign to a fixed_bytes type of a different size");
+      size_t data_size = dst_tp.get_data_size();
+      if (src_tp[0].get_data_size() != data_size) {
+        throw std::runtime_error("cannot assign to a fixed_bytes type of a different size");
+      }
+
+      cg.emplace_back([data_size](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
+                                  const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
+                                  const char *const *DYND_UNUSED(src_arrmeta)) {
+        kb.emplace_back<unaligned_copy_ck>(kernreq, data_size);
+      });
 
       return dst_tp;
     }
-- 
2.43.0


From a5b4e5d911f430da1e45e1624cd51c00ba8d14f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:42 +0000
Subject: [PATCH 018/106] fix: integer division and modulo by an unsigned zero,
 or of the lowest value by -1, trapped

---
 include/dynd/kernels/arithmetic.hpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/dynd/kernels/arithmetic.hpp b/include/dynd/kernels/arithmetic.hpp
index 9111f3b..e68c89f 100644
--- a/include/dynd/kernels/arithmetic.hpp
+++ b/include/dynd/kernels/arithmetic.hpp
@@ -163,7 +163,29 @@ namespace detail {
     return (std::is_same<Arg0Type, bool1>::value || is_signed_integral<Arg0Type>::value ||
             is_unsigned_integral<Arg0Type>::value) &&
            (std::is_same<Arg1Type, bool1>::value || is_signed_integral<Arg1Type>::value ||
-            is_unsigned_integral<Arg0Type>::value);
+            is_unsigned_integral<Arg1Type>::value);
+  }
+
+  // The one quotient of signed integers that is not representable, min / -1, wraps around like the
+  // other integer operations do, instead of trapping.
+  template <typename T>
+  std::enable_if_t<std::is_integral<T>::value && std::is_signed<T>::value, T> int_divide(T a, T b) {
+    return b == -1 ? static_cast<T>(0 - static_cast<std::make_unsigned_t<T>>(a)) : a / b;
+  }
+
+  template <typename T>
+  std::enable_if_t<!(std::is_integral<T>::value && std::is_signed<T>::value), T> int_divide(T a, T b) {
+    return a / b;
+  }
+
+  template <typename T>
+  std::enable_if_t<std::is_integral<T>::value && std::is_signed<T>::value, T> int_mod(T a, T b) {
+    return b == -1 ? 0 : a % b;
+  }
+
+  template <typename T>
+  std::enable_if_t<!(std::is_integral<T>::value && std::is_signed<T>::value), T> int_mod(T a, T b) {
+    return a % b;
   }
 
 #define DYND_DEF_BINARY_OP_CALLABLE_ZEROCHECK_INT(OP, NAME)                                                            \
@@ -176,7 +198,7 @@ namespace detail {
       if (b == 0) {                                                                                                    \
         throw dynd::zero_division_error("Integer division or modulo by zero.");                                        \
       }                                                                                                                \
-      return a OP b;                                                                                                   \
+      return int_##NAME<decltype(a OP b)>(a, b);                                                                       \
     }                                                                                                                  \
   };                                                                                                                   \
                                                                                                                        \
-- 
2.43.0


From f0cb6d4de2d5e893bf35adb72524fdc9bc67829b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:02 +0000
Subject: [PATCH 019/106] fix: a destination of another type than the
 dispatched overload returns was written out of bounds

---
 include/dynd/callables/base_dispatch_callable.hpp | 7 +++++++
 include/dynd/callables/forward_na_callable.hpp    | 9 ++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/dynd/callables/base_dispatch_callable.hpp b/include/dynd/callables/base_dispatch_callable.hpp
index d69e080..1ec99bd 100644
--- a/include/dynd/callables/base_dispatch_callable.hpp
+++ b/include/dynd/callables/base_dispatch_callable.hpp
@@ -5,6 +5,8 @@
 
 #pragma once
 
+#include <sstream>
+
 #include <dynd/callable.hpp>
 #include <dynd/callables/base_callable.hpp>
 #include <dynd/callables/call_graph.hpp>
@@ -20,6 +22,11 @@ namespace nd {
                       const ndt::type &dst_tp, size_t nsrc, const ndt::type *src_tp, size_t nkwd, const array *kwds,
                       const std::map<std::string, ndt::type> &tp_vars) {
       const callable &child = specialize(dst_tp, nsrc, src_tp);
+      if (!dst_tp.is_symbolic() && !child->get_ret_type().match(dst_tp)) {
+        std::stringstream ss;
+        ss << "destination type " << dst_tp << " does not match callable return type " << child->get_ret_type();
+        throw std::invalid_argument(ss.str());
+      }
       return child->resolve(this, nullptr, cg, dst_tp.is_symbolic() ? child->get_ret_type() : dst_tp, nsrc, src_tp,
                             nkwd, kwds, tp_vars);
     }
diff --git a/include/dynd/callables/forward_na_callable.hpp b/include/dynd/callables/forward_na_callable.hpp
index 1cd5f5f..17e17e0 100644
--- a/include/dynd/callables/forward_na_callable.hpp
+++ b/include/dynd/callables/forward_na_callable.hpp
@@ -60,9 +60,12 @@ namespace nd {
         child = m_child.get();
       }
 
-      ndt::type res_value_tp =
-          child->resolve(this, nullptr, cg, dst_tp.is_symbolic() ? child->get_ret_type() : dst_tp, 2, src_value_tp,
-                         nkwd, kwds, tp_vars);
+      ndt::type dst_value_tp = dst_tp.is_symbolic() ? child->get_ret_type() : dst_tp;
+      if (dst_value_tp.get_id() == option_id) {
+        dst_value_tp = dst_value_tp.extended<ndt::option_type>()->get_value_type();
+      }
+
+      ndt::type res_value_tp = child->resolve(this, nullptr, cg, dst_value_tp, 2, src_value_tp, nkwd, kwds, tp_vars);
 
       for (index_t i : std::array<index_t, sizeof...(I)>({I...})) {
         is_na->resolve(this, nullptr, cg, ndt::make_type<bool>(), 1, src_tp + i, 0, nullptr, tp_vars);
-- 
2.43.0


From a589fbc0f7c57060c46e36813a03b3ab36b82744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:33 +0000
Subject: [PATCH 020/106] fix: strings with non-ASCII characters were ordered
 by the signedness of char

---
 include/dynd/kernels/total_order_kernel.hpp |  4 +---
 include/dynd/types/string_type.hpp          | 23 ++++++++++-----------
 2 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/include/dynd/kernels/total_order_kernel.hpp b/include/dynd/kernels/total_order_kernel.hpp
index 23fb76c..f201546 100644
--- a/include/dynd/kernels/total_order_kernel.hpp
+++ b/include/dynd/kernels/total_order_kernel.hpp
@@ -33,9 +33,7 @@ namespace nd {
   template <>
   struct total_order_kernel<string, string> : base_strided_kernel<total_order_kernel<string, string>, 2> {
     void single(char *dst, char *const *src) {
-      *reinterpret_cast<int *>(dst) = std::lexicographical_compare(
-          reinterpret_cast<string *>(src[0])->begin(), reinterpret_cast<string *>(src[0])->end(),
-          reinterpret_cast<string *>(src[1])->begin(), reinterpret_cast<string *>(src[1])->end());
+      *reinterpret_cast<int *>(dst) = *reinterpret_cast<string *>(src[0]) < *reinterpret_cast<string *>(src[1]);
     }
   };
 
diff --git a/include/dynd/types/string_type.hpp b/include/dynd/types/string_type.hpp
index aff14c5..376af7e 100644
--- a/include/dynd/types/string_type.hpp
+++ b/include/dynd/types/string_type.hpp
@@ -16,6 +16,13 @@
 namespace dynd {
 
 class DYNDT_API string : public sso_bytestring<1> {
+  // The order of the UTF-8 bytes as unsigned values is that of the code points
+  static bool less(const string &lhs, const string &rhs) {
+    return std::lexicographical_compare(lhs.begin(), lhs.end(), rhs.begin(), rhs.end(), [](char a, char b) {
+      return static_cast<unsigned char>(a) < static_cast<unsigned char>(b);
+    });
+  }
+
 public:
   /** Default-constructs to an empty string */
   string() {}
@@ -42,21 +49,13 @@ public:
     return *this;
   }
 
-  bool operator<(const string &rhs) const {
-    return std::lexicographical_compare(begin(), end(), rhs.begin(), rhs.end());
-  }
+  bool operator<(const string &rhs) const { return less(*this, rhs); }
 
-  bool operator<=(const string &rhs) const {
-    return !std::lexicographical_compare(rhs.begin(), rhs.end(), begin(), end());
-  }
+  bool operator<=(const string &rhs) const { return !less(rhs, *this); }
 
-  bool operator>=(const string &rhs) const {
-    return !std::lexicographical_compare(begin(), end(), rhs.begin(), rhs.end());
-  }
+  bool operator>=(const string &rhs) const { return !less(*this, rhs); }
 
-  bool operator>(const string &rhs) const {
-    return std::lexicographical_compare(rhs.begin(), rhs.end(), begin(), end());
-  }
+  bool operator>(const string &rhs) const { return less(rhs, *this); }
 
   string operator+(const string &rhs) {
     string result;
-- 
2.43.0


From fa08193a1af4ca9ef1c95b6e185935be99e0fa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:44 +0000
Subject: [PATCH 021/106] fix: sum initialized every accumulator with a 4 byte
 integer, whatever the element type

---
 include/dynd/callables/constant_callable.hpp | 2 +-
 src/dynd/sum.cpp                             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dynd/callables/constant_callable.hpp b/include/dynd/callables/constant_callable.hpp
index 418eab0..a504024 100644
--- a/include/dynd/callables/constant_callable.hpp
+++ b/include/dynd/callables/constant_callable.hpp
@@ -36,7 +36,7 @@ namespace nd {
         });
 
         nd::array error_mode = assign_error_default;
-        assign->resolve(this, nullptr, cg, dst_tp, 1, &dst_tp, 1, &error_mode, tp_vars);
+        assign->resolve(this, nullptr, cg, dst_tp, 1, &m_val.get_type(), 1, &error_mode, tp_vars);
 
         return dst_tp;
       }
diff --git a/src/dynd/sum.cpp b/src/dynd/sum.cpp
index 756064d..0379b0a 100644
--- a/src/dynd/sum.cpp
+++ b/src/dynd/sum.cpp
@@ -22,7 +22,7 @@ static std::vector<ndt::type> func_ptr(const ndt::type &DYND_UNUSED(dst_tp), siz
 } // unnamed namespace
 
 DYND_API nd::callable nd::sum = nd::functional::reduction(
-    [] { return 0; },
+    nd::functional::constant(0),
     nd::make_callable<nd::multidispatch_callable<1>>(
         ndt::make_type<ndt::callable_type>(ndt::make_type<ndt::scalar_kind_type>(),
                                            {ndt::make_type<ndt::scalar_kind_type>()}),
-- 
2.43.0


From 816a75ddd5369af5d9b91a0bd59ec78bc719d38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:44 +0000
Subject: [PATCH 022/106] fix: reductions read and wrote out of bounds for kept
 dimensions, empty and var dimensions, and mismatched arguments

---
 .../callables/base_reduction_callable.hpp     | 58 ++++++++---
 include/dynd/kernels/reduction_kernel.hpp     | 97 ++++++++++++-------
 2 files changed, 105 insertions(+), 50 deletions(-)

diff --git a/include/dynd/callables/base_reduction_callable.hpp b/include/dynd/callables/base_reduction_callable.hpp
index e985a12..73dcdda 100644
--- a/include/dynd/callables/base_reduction_callable.hpp
+++ b/include/dynd/callables/base_reduction_callable.hpp
@@ -53,6 +53,24 @@ namespace nd {
           }
         }
         node.broadcast = !reduce;
+
+        for (size_t i = 1; i < nsrc; ++i) {
+          if (src_tp[i].get_id() != fixed_dim_id || src_tp[0].get_id() != fixed_dim_id ||
+              src_tp[i].extended<ndt::fixed_dim_type>()->get_fixed_dim_size() !=
+                  src_tp[0].extended<ndt::fixed_dim_type>()->get_fixed_dim_size()) {
+            std::stringstream ss;
+            ss << "cannot reduce arguments with the mismatched dimensions " << src_tp[0] << " and " << src_tp[i];
+            throw std::invalid_argument(ss.str());
+          }
+        }
+        if (src_tp[0].get_id() == var_dim_id &&
+            (!reduce ||
+             reinterpret_cast<data_type *>(data)->axis + 1 != reinterpret_cast<data_type *>(data)->ndim)) {
+          std::stringstream ss;
+          ss << "a var dimension can only be reduced as the last one, got " << src_tp[0];
+          throw std::invalid_argument(ss.str());
+        }
+
         node.keepdim = reinterpret_cast<data_type *>(data)->keepdims;
 
         std::vector<ndt::type> arg_element_tp(2);
@@ -74,7 +92,13 @@ namespace nd {
               child->resolve(this, nullptr, cg, child_ret_tp, nsrc, arg_element_tp.data(), nkwd - 2, kwds + 2, tp_vars);
 
           nd::callable constant = reinterpret_cast<data_type *>(data)->identity;
-          constant->resolve(this, nullptr, cg, ret_element_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
+          ndt::type identity_tp =
+              constant->resolve(this, nullptr, cg, ret_element_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
+          if (identity_tp != ret_element_tp) {
+            std::stringstream ss;
+            ss << "cannot reduce into " << ret_element_tp << " with an identity of type " << identity_tp;
+            throw std::invalid_argument(ss.str());
+          }
         } else {
           node.inner = false;
           resolve(cg, reinterpret_cast<char *>(&node));
@@ -104,12 +128,16 @@ namespace nd {
         bool broadcast = reinterpret_cast<node_type *>(data)->broadcast;
         bool keepdim = reinterpret_cast<node_type *>(data)->keepdim;
 
-        cg.emplace_back([inner, broadcast, keepdim](kernel_builder &kb, kernel_request_t kernreq,
-                                                    char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
+        cg.emplace_back([inner, broadcast, keepdim](kernel_builder &kb, kernel_request_t kernreq, char *data,
+                                                    const char *dst_arrmeta, size_t nsrc,
                                                     const char *const *src_arrmeta) {
+          // There is data when an outer reduction dimension has size 0, in that case there is nothing to accumulate
+          bool init_only = data != nullptr;
+          const char *dst_element_arrmeta = (broadcast || keepdim) ? (dst_arrmeta + sizeof(size_stride_t)) : dst_arrmeta;
+
           if (inner) {
             if (!broadcast) {
-              intptr_t src_size = reinterpret_cast<const size_stride_t *>(src_arrmeta[0])->dim_size;
+              intptr_t src_size = init_only ? 0 : reinterpret_cast<const size_stride_t *>(src_arrmeta[0])->dim_size;
 
               typedef reduction_kernel<ndt::fixed_dim_type, false, true, NArg> self_type;
               intptr_t root_ckb_offset = kb.size();
@@ -130,10 +158,10 @@ namespace nd {
                 src_element_arrmeta[i] = src_arrmeta[i] + sizeof(size_stride_t);
               }
 
-              kb(kernel_request_strided, nullptr, dst_arrmeta + sizeof(size_stride_t), nsrc, src_element_arrmeta);
+              kb(kernel_request_strided, nullptr, dst_element_arrmeta, nsrc, src_element_arrmeta);
 
               intptr_t init_offset = kb.size();
-              kb(kernel_request_single, nullptr, dst_arrmeta + sizeof(size_stride_t), nsrc, src_element_arrmeta);
+              kb(kernel_request_single, nullptr, dst_element_arrmeta, nsrc, src_element_arrmeta);
 
               e = kb.get_at<self_type>(root_ckb_offset);
               e->init_offset = init_offset - root_ckb_offset;
@@ -146,11 +174,9 @@ namespace nd {
               intptr_t src_size = reinterpret_cast<const size_stride_t *>(src_arrmeta[0])->dim_size;
               intptr_t dst_stride = reinterpret_cast<const size_stride_t *>(dst_arrmeta)->stride;
 
-              const char *dst_element_arrmeta = dst_arrmeta + sizeof(size_stride_t);
-
               typedef reduction_kernel<ndt::fixed_dim_type, true, true, NArg> self_type;
               intptr_t root_ckb_offset = kb.size();
-              kb.emplace_back<self_type>(kernreq, dst_stride, src_arrmeta);
+              kb.emplace_back<self_type>(kernreq, dst_stride, src_arrmeta, init_only);
 
               self_type *self_k = kb.get_at<self_type>(root_ckb_offset);
 
@@ -184,12 +210,16 @@ namespace nd {
                                                                                         src_arrmeta);
               kernreq = kernel_request_strided;
             } else {
+              if (init_only) {
+                src_size = 0;
+              }
+              init_only = src_size == 0;
               kb.emplace_back<reduction_kernel<ndt::fixed_dim_type, false, false, NArg>>(kernreq, src_size,
                                                                                          src_arrmeta);
               kernreq = kernel_request_single;
             }
 
-            kb(kernreq, nullptr, keepdim ? (dst_arrmeta + sizeof(size_stride_t)) : dst_arrmeta, nsrc,
+            kb(kernreq, init_only ? reinterpret_cast<char *>(&init_only) : nullptr, dst_element_arrmeta, nsrc,
                src_element_arrmeta);
           }
         });
@@ -199,13 +229,13 @@ namespace nd {
     template <size_t NArg>
     class reduction_callable<var_dim_id, NArg> : public base_reduction_callable {
       void resolve(call_graph &cg, char *DYND_UNUSED(data)) {
-        cg.emplace_back([](kernel_builder &kb, kernel_request_t kernreq,
-                           char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
-                           const char *const *src_arrmeta) {
+        cg.emplace_back([](kernel_builder &kb, kernel_request_t kernreq, char *data, const char *dst_arrmeta,
+                           size_t nsrc, const char *const *src_arrmeta) {
           typedef reduction_kernel<ndt::var_dim_type, false, true, NArg> self_type;
           intptr_t root_ckb_offset = kb.size();
           kb.emplace_back<self_type>(
-              kernreq, reinterpret_cast<const ndt::var_dim_type::metadata_type *>(src_arrmeta[0])->stride);
+              kernreq, reinterpret_cast<const ndt::var_dim_type::metadata_type *>(src_arrmeta[0])->stride,
+              reinterpret_cast<const ndt::var_dim_type::metadata_type *>(src_arrmeta[0])->offset, data != nullptr);
 
           self_type *e = kb.get_at<self_type>(root_ckb_offset);
           const char *src_element_arrmeta[NArg];
diff --git a/include/dynd/kernels/reduction_kernel.hpp b/include/dynd/kernels/reduction_kernel.hpp
index 58f6a9b..5cc8ca8 100644
--- a/include/dynd/kernels/reduction_kernel.hpp
+++ b/include/dynd/kernels/reduction_kernel.hpp
@@ -115,6 +115,7 @@ namespace nd {
       intptr_t src0_element_size;
       intptr_t src_element_stride[NArg];
 
+      // With a size of zero, the child only initializes the dst values
       reduction_kernel(std::intptr_t src0_element_size, const char *const *src_arrmeta)
           : src0_element_size(src0_element_size) {
         for (size_t j = 0; j < NArg; ++j) {
@@ -147,6 +148,10 @@ namespace nd {
           child_src[i] = src[i];
         }
 
+        if (count == 0) {
+          return;
+        }
+
         if (dst_stride == 0) {
           // With a zero stride, we have one "first", followed by many
           // "followup" calls
@@ -260,20 +265,18 @@ namespace nd {
           child_src[j] = src[j];
         }
 
+        if (count == 0) {
+          return;
+        }
+
         if (dst_stride == 0) {
           // With a zero stride, we initialize "dst" once, then do many
           // accumulations
           init_child->single(dst, child_src);
-          for (size_t j = 0; j < NArg; ++j) {
-            child_src[j] += src_stride_first[j];
-          }
 
-          reduction_child->strided(dst, 0, child_src, this->src_stride, size_first);
+          for (std::size_t i = 0; i != count; ++i) {
+            reduction_child->strided(dst, 0, child_src, this->src_stride, _size);
 
-          for (std::size_t i = 1; i != count; ++i) {
-            reduction_child->strided(dst, 0, child_src, this->src_stride, size_first);
-
-            dst += dst_stride;
             for (size_t j = 0; j < NArg; ++j) {
               child_src[j] += src_stride[j];
             }
@@ -323,9 +326,12 @@ namespace nd {
     struct reduction_kernel<ndt::var_dim_type, false, true, NArg>
         : base_reduction_kernel<reduction_kernel<ndt::var_dim_type, false, true, NArg>, NArg> {
       intptr_t src0_inner_stride;
+      intptr_t src0_inner_offset;
+      bool init_only;
       intptr_t init_offset;
 
-      reduction_kernel(std::intptr_t src0_inner_stride) : src0_inner_stride(src0_inner_stride) {}
+      reduction_kernel(std::intptr_t src0_inner_stride, std::intptr_t src0_inner_offset, bool init_only)
+          : src0_inner_stride(src0_inner_stride), src0_inner_offset(src0_inner_offset), init_only(init_only) {}
 
       ~reduction_kernel() {
         this->get_child(init_offset)->destroy();
@@ -333,41 +339,51 @@ namespace nd {
       }
 
       void single_first(char *dst, char *const *src) {
-        size_t inner_size = reinterpret_cast<ndt::var_dim_type::data_type *>(src[0])->size;
-
-        char *src0_data = reinterpret_cast<ndt::var_dim_type::data_type *>(src[0])->begin;
-        this->get_child(init_offset)->single(dst, &src0_data);
-
-        this->get_child()->strided(dst, 0, &src0_data, &src0_inner_stride, inner_size);
+        this->get_child(init_offset)->single(dst, src);
+        if (!init_only) {
+          accumulate(dst, src[0]);
+        }
       }
 
       void strided_first(char *dst, intptr_t dst_stride, char *const *src, const intptr_t *src_stride, size_t count) {
         kernel_prefix *init_child = this->get_child(init_offset);
-        kernel_prefix *reduction_child = this->get_child();
 
-        char *src0 = src[0];
+        char *child_src[NArg];
+        for (size_t j = 0; j < NArg; ++j) {
+          child_src[j] = src[j];
+        }
+
         for (size_t i = 0; i != count; ++i) {
-          char *src0_data = reinterpret_cast<ndt::var_dim_type::data_type *>(src0)->begin;
-          init_child->single(dst, &src0_data);
+          // With a zero stride, "dst" is initialized once
+          if (dst_stride != 0 || i == 0) {
+            init_child->single(dst, child_src);
+          }
+          if (!init_only) {
+            accumulate(dst, child_src[0]);
+          }
 
-          reduction_child->strided(dst, 0, &src0_data, &src0_inner_stride,
-                                   reinterpret_cast<ndt::var_dim_type::data_type *>(src0)->size);
           dst += dst_stride;
-          src0 += src_stride[0];
+          for (size_t j = 0; j < NArg; ++j) {
+            child_src[j] += src_stride[j];
+          }
         }
       }
 
       void strided_followup(char *dst, intptr_t dst_stride, char *const *src, const intptr_t *src_stride, size_t size) {
-        kernel_prefix *child = this->get_child();
-
         char *src0 = src[0];
         for (size_t i = 0; i != size; ++i) {
-          child->strided(dst, 0, &reinterpret_cast<ndt::var_dim_type::data_type *>(src0)->begin, &src0_inner_stride,
-                         reinterpret_cast<ndt::var_dim_type::data_type *>(src0)->size);
+          accumulate(dst, src0);
           dst += dst_stride;
           src0 += src_stride[0];
         }
       }
+
+    private:
+      void accumulate(char *dst, char *src0) {
+        ndt::var_dim_type::data_type *vdd = reinterpret_cast<ndt::var_dim_type::data_type *>(src0);
+        char *src0_data = vdd->begin + src0_inner_offset;
+        this->get_child()->strided(dst, 0, &src0_data, &src0_inner_stride, vdd->size);
+      }
     };
 
     template <size_t NArg>
@@ -463,6 +479,10 @@ namespace nd {
           child_src[j] = src[j];
         }
 
+        if (count == 0) {
+          return;
+        }
+
         if (dst_stride == 0) {
           // With a zero stride, we have one "first", followed by many
           // "followup"
@@ -541,8 +561,10 @@ namespace nd {
       intptr_t size_first;
       intptr_t dst_stride_first;
       intptr_t src_stride_first[NArg];
+      bool init_only;
 
-      reduction_kernel(intptr_t dst_stride, const char *const *src_arrmeta) : dst_stride(dst_stride) {
+      reduction_kernel(intptr_t dst_stride, const char *const *src_arrmeta, bool init_only)
+          : dst_stride(dst_stride), init_only(init_only) {
         for (size_t j = 0; j < NArg; ++j) {
           src_stride[j] = reinterpret_cast<const size_stride_t *>(src_arrmeta[j])->stride;
         }
@@ -558,7 +580,7 @@ namespace nd {
       void single_first(char *dst, char *const *src) {
         // Initialize the dst values
         this->get_child(dst_init_kernel_offset)->strided(dst, dst_stride, src, src_stride_first, _size);
-        if (src_stride_first[0] == 0) {
+        if (!init_only) {
           // Then do the accumulation
           this->get_child()->strided(dst, dst_stride, src, src_stride, _size);
         }
@@ -568,18 +590,21 @@ namespace nd {
         kernel_prefix *init_child = this->get_child(dst_init_kernel_offset);
         kernel_prefix *reduction_child = this->get_child();
 
-        char *child_src[NArg] = {src[0]};
+        char *child_src[NArg];
+        for (size_t j = 0; j < NArg; ++j) {
+          child_src[j] = src[j];
+        }
+
+        if (count == 0) {
+          return;
+        }
+
         if (dst_stride == 0) {
           // With a zero stride, we initialize "dst" once, then do many
           // accumulations
           init_child->strided(dst, this->dst_stride, child_src, this->src_stride_first, this->_size);
 
-          dst += dst_stride_first;
-          for (size_t j = 0; j < NArg; ++j) {
-            child_src[j] += src_stride_first[j];
-          }
-
-          for (size_t i = 1; i != count; ++i) {
+          for (size_t i = 0; i != count && !init_only; ++i) {
             reduction_child->strided(dst, this->dst_stride, child_src, this->src_stride, this->_size);
 
             for (size_t j = 0; j < NArg; ++j) {
@@ -590,7 +615,7 @@ namespace nd {
           // With a non-zero stride, every iteration is an initialization
           for (size_t i = 0; i != count; ++i) {
             init_child->strided(dst, this->dst_stride, child_src, src_stride_first, _size);
-            if (src_stride_first[0] == 0) {
+            if (!init_only) {
               reduction_child->strided(dst, this->dst_stride, child_src, this->src_stride, _size);
             }
 
-- 
2.43.0


From 0d5df5f3c32355d63dcc16ef542ed9a504e65428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:44 +0000
Subject: [PATCH 023/106] fix: reductions ignored invalid axes, and refused a
 destination of the reduced shape or a bool scalar

---
 include/dynd/callables/reduction_callable.hpp | 50 +++++++++++++++++--
 src/dynd/functional.cpp                       |  2 +-
 2 files changed, 46 insertions(+), 6 deletions(-)

diff --git a/include/dynd/callables/reduction_callable.hpp b/include/dynd/callables/reduction_callable.hpp
index 8f72e5d..bdb069a 100644
--- a/include/dynd/callables/reduction_callable.hpp
+++ b/include/dynd/callables/reduction_callable.hpp
@@ -27,7 +27,17 @@ namespace nd {
                         size_t nsrc, const ndt::type *src_tp, size_t nkwd, const array *kwds,
                         const std::map<std::string, ndt::type> &tp_vars) {
         new_data_type new_data;
+        std::vector<int> axes;
         if (data == nullptr) {
+          intptr_t ndim = src_tp[0].get_ndim() - m_child->get_ret_type().get_ndim();
+          for (size_t i = 1; i < nsrc; ++i) {
+            if (src_tp[i].get_ndim() != src_tp[0].get_ndim()) {
+              std::stringstream ss;
+              ss << "cannot reduce arguments with the mismatched dimensions " << src_tp[0] << " and " << src_tp[i];
+              throw std::invalid_argument(ss.str());
+            }
+          }
+
           new_data.identity = m_identity;
           new_data.child = m_child;
           if (kwds[0].is_na()) {
@@ -35,7 +45,18 @@ namespace nd {
             new_data.axes = NULL;
           } else {
             new_data.naxis = kwds[0].get_dim_size();
-            new_data.axes = reinterpret_cast<const int *>(kwds[0].cdata());
+            for (size_t i = 0; i < new_data.naxis; ++i) {
+              int axis = kwds[0](i).as<int>();
+              if (axis < 0 || axis >= ndim) {
+                std::stringstream ss;
+                ss << "cannot reduce the axis " << axis << " of an array with " << ndim << " dimensions";
+                throw std::out_of_range(ss.str());
+              }
+              axes.push_back(axis);
+            }
+            // An empty list of axes is not the same as a missing one, so this can't be NULL
+            axes.push_back(-1);
+            new_data.axes = axes.data();
           }
 
           if (kwds[1].is_na()) {
@@ -44,13 +65,27 @@ namespace nd {
             new_data.keepdims = kwds[1].as<bool>();
           }
 
-          intptr_t ndim = src_tp[0].get_ndim() - m_child->get_ret_type().get_ndim();
           new_data.ndim = ndim;
           new_data.axis = 0;
 
-          data = reinterpret_cast<char *>(&new_data);
+          ndt::type ret_tp =
+              resolve_dim(reinterpret_cast<char *>(&new_data), cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
+          if (!dst_tp.is_symbolic() && dst_tp != ret_tp) {
+            std::stringstream ss;
+            ss << "cannot store a reduction of type " << ret_tp << " into a destination of type " << dst_tp;
+            throw std::invalid_argument(ss.str());
+          }
+
+          return ret_tp;
         }
 
+        return resolve_dim(data, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
+      }
+
+    private:
+      ndt::type resolve_dim(char *data, call_graph &cg, const ndt::type &dst_tp, size_t nsrc, const ndt::type *src_tp,
+                            size_t nkwd, const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
+
         if (src_tp[0].is_scalar()) {
           cg.emplace_back([](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                              const char *dst_arrmeta, size_t nsrc, const char *const *src_arrmeta) {
@@ -88,9 +123,14 @@ namespace nd {
 
           });
 
-          ndt::type ret_tp = m_child->resolve(this, nullptr, cg, dst_tp, nsrc, src_tp, nkwd - 2, kwds + 2, tp_vars);
+          ndt::type ret_tp = m_child->resolve(this, nullptr, cg, m_child->get_ret_type(), nsrc, src_tp, nkwd - 2, kwds + 2, tp_vars);
 
-          m_identity->resolve(this, nullptr, cg, ret_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
+          ndt::type identity_tp = m_identity->resolve(this, nullptr, cg, ret_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
+          if (identity_tp != ret_tp) {
+            std::stringstream ss;
+            ss << "cannot reduce into " << ret_tp << " with an identity of type " << identity_tp;
+            throw std::invalid_argument(ss.str());
+          }
 
           return ret_tp;
         }
diff --git a/src/dynd/functional.cpp b/src/dynd/functional.cpp
index 6a8f38b..1c441b3 100644
--- a/src/dynd/functional.cpp
+++ b/src/dynd/functional.cpp
@@ -191,7 +191,7 @@ nd::callable nd::functional::reduction(const callable &identity, const callable
       {ndt::make_type<ndt::option_type>(ndt::make_type<bool1>()), "keepdims"}};
 
   return make_callable<reduction_dispatch_callable>(
-      ndt::make_type<ndt::callable_type>(ndt::make_type<ndt::ellipsis_dim_type>("Dims", child->get_ret_type()),
+      ndt::make_type<ndt::callable_type>(ndt::make_type<ndt::ellipsis_dim_type>(child->get_ret_type()),
                                          arg_tp.size(), arg_tp.data(), kwds),
       identity, child);
 }
-- 
2.43.0


From 0c0c38f138d04c76ae620dc96d143bf516786976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:58 +0000
Subject: [PATCH 024/106] fix: growing a variable-length dimension of zero-size
 elements divided by zero

---
 include/dynd/memblock/objectarray_memory_block.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dynd/memblock/objectarray_memory_block.hpp b/include/dynd/memblock/objectarray_memory_block.hpp
index e9e739c..59030fc 100644
--- a/include/dynd/memblock/objectarray_memory_block.hpp
+++ b/include/dynd/memblock/objectarray_memory_block.hpp
@@ -114,7 +114,8 @@ namespace nd {
 
     char *resize(char *previous_allocated, size_t count) {
       memory_chunk *mc = &m_memory_handles.back();
-      size_t previous_index = (previous_allocated - mc->memory) / m_stride;
+      // Elements may have a size of zero, e.g. "0 * string"
+      size_t previous_index = (m_stride == 0) ? 0 : ((previous_allocated - mc->memory) / m_stride);
       size_t previous_count = mc->used_count - previous_index;
       char *result = previous_allocated;
 
-- 
2.43.0


From b5887d5c7e8846b30fe2403599d5a0bfab1fff47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:58 +0000
Subject: [PATCH 025/106] fix: text with no leading digit was accepted as an
 unsigned 0

---
 include/dynd/parse_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/parse_util.hpp b/include/dynd/parse_util.hpp
index d12c2db..5b320fc 100644
--- a/include/dynd/parse_util.hpp
+++ b/include/dynd/parse_util.hpp
@@ -927,7 +927,7 @@ std::enable_if_t<is_unsigned<T>::value && is_integral<T>::value && !is_boolean<T
   // The largest value which can be multiplied by ten without overflow
   const T max_div_10 = std::numeric_limits<T>::max() / static_cast<uint32_t>(10);
   T result = 0, prev_result = 0;
-  if (begin == end) {
+  if (begin == end || !('0' <= *begin && *begin <= '9')) {
     raise_string_cast_error(ndt::make_type<T>(), begin, end);
   }
   while (begin < end) {
-- 
2.43.0


From 6b5c03948f7e746821b1f80e7939067a96785f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:58 +0000
Subject: [PATCH 026/106] fix: parsing a floating point number read past the
 end of its text

---
 include/dynd/parse_util.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dynd/parse_util.hpp b/include/dynd/parse_util.hpp
index 5b320fc..c503ba9 100644
--- a/include/dynd/parse_util.hpp
+++ b/include/dynd/parse_util.hpp
@@ -1072,9 +1072,11 @@ std::enable_if_t<is_floating_point<T>::value, T> parse(const char *begin, const
   }
 
   // TODO: use http://www.netlib.org/fp/dtoa.c
+  // The range isn't necessarily followed by a character which ends the number
   char *end_ptr;
-  T value = strto<T>(begin, &end_ptr);
-  if (end_ptr - begin != end - begin) {
+  std::string s(begin, end);
+  T value = strto<T>(s.c_str(), &end_ptr);
+  if (s.empty() || end_ptr != s.c_str() + s.size()) {
     std::stringstream ss;
     ss << "parse error converting string ";
     ss.write(begin, end - begin);
-- 
2.43.0


From 8e42afe1bf5837675096d6a2e26f020b417d96a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:58 +0000
Subject: [PATCH 027/106] fix: quoted JSON numbers ignored escapes and stored
 missing values in types without them

---
 include/dynd/parse_util.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/dynd/parse_util.hpp b/include/dynd/parse_util.hpp
index c503ba9..fa1a3a0 100644
--- a/include/dynd/parse_util.hpp
+++ b/include/dynd/parse_util.hpp
@@ -1410,13 +1410,16 @@ inline void parse_number_json(const ndt::type &tp, char *out_data, const char *&
   } else if (parse_doublequote_string_no_ws(begin, end, nbegin, nend, escaped)) {
     // Interpret the data inside the string as an int
     try {
-      if (!escaped) {
-        string_to_number(out_data, tp.get_id(), nbegin, nend, ectx->errmode);
-      } else {
-        std::string s;
+      std::string s;
+      if (escaped) {
         unescape_string(nbegin, nend, s);
-        string_to_number(out_data, tp.get_id(), nbegin, nend, ectx->errmode);
+        nbegin = s.data();
+        nend = s.data() + s.size();
+      }
+      if (!option && parse_na(nbegin, nend)) {
+        raise_string_cast_error(tp, nbegin, nend);
       }
+      string_to_number(out_data, tp.get_id(), nbegin, nend, ectx->errmode);
     } catch (const std::exception &e) {
       throw json_parse_error(rbegin, e.what(), tp);
     } catch (const dynd::dynd_exception &e) {
-- 
2.43.0


From 838f1aa97b463941e7d36cd47689baeb7c9dab04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:58 +0000
Subject: [PATCH 028/106] fix: a JSON surrogate pair escape is one code point

---
 src/dynd/parse_util.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/dynd/parse_util.cpp b/src/dynd/parse_util.cpp
index bd9ed7b..b1b1464 100644
--- a/src/dynd/parse_util.cpp
+++ b/src/dynd/parse_util.cpp
@@ -175,6 +175,18 @@ void dynd::unescape_string(const char *strbegin, const char *strend, std::string
             cp = '?';
           }
         }
+        if (0xd800 <= cp && cp < 0xdc00 && strend - strbegin >= 6 && strbegin[0] == '\\' && strbegin[1] == 'u') {
+          // A code point outside of the BMP is escaped as a surrogate pair
+          uint32_t trail = 0;
+          for (int i = 2; i < 6; ++i) {
+            char d = strbegin[i];
+            trail = trail * 16 + (d <= '9' ? d - '0' : (d | 0x20) - 'a' + 10);
+          }
+          if (0xdc00 <= trail && trail < 0xe000) {
+            cp = 0x10000 + ((cp - 0xd800) << 10) + (trail - 0xdc00);
+            strbegin += 6;
+          }
+        }
         append_utf8_codepoint(cp, out);
         break;
       }
-- 
2.43.0


From 0e2a7619662ea7c23a6627baac6affcb8244a9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:58 +0000
Subject: [PATCH 029/106] fix: floating point numbers lost digits when written
 as JSON

---
 src/dynd/json_formatter.cpp | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/dynd/json_formatter.cpp b/src/dynd/json_formatter.cpp
index 9562ef1..fc5e29e 100644
--- a/src/dynd/json_formatter.cpp
+++ b/src/dynd/json_formatter.cpp
@@ -83,7 +83,36 @@ static void format_json_bool(output_data &out, const ndt::type &dt, const char *
 
 static void format_json_number(output_data &out, const ndt::type &dt, const char *arrmeta, const char *data) {
   stringstream ss;
-  dt.print_data(ss, arrmeta, data);
+  // Use as few digits as give the same value when parsed
+  switch (dt.get_id()) {
+  case float32_id: {
+    float value = *reinterpret_cast<const float *>(data);
+    for (int digits = 6; digits <= 9; ++digits) {
+      ss.str("");
+      ss.precision(digits);
+      ss << value;
+      if (std::strtof(ss.str().c_str(), NULL) == value) {
+        break;
+      }
+    }
+    break;
+  }
+  case float64_id: {
+    double value = *reinterpret_cast<const double *>(data);
+    for (int digits = 6; digits <= 17; ++digits) {
+      ss.str("");
+      ss.precision(digits);
+      ss << value;
+      if (std::strtod(ss.str().c_str(), NULL) == value) {
+        break;
+      }
+    }
+    break;
+  }
+  default:
+    dt.print_data(ss, arrmeta, data);
+    break;
+  }
   out.write(ss.str());
 }
 
-- 
2.43.0


From d97f0e77064b32f81db66b91af16991ea2c6ce04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:58 +0000
Subject: [PATCH 030/106] fix: reporting a JSON error at the end of the text
 read out of bounds

---
 src/dynd/json_parser.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/dynd/json_parser.cpp b/src/dynd/json_parser.cpp
index a8484fd..cf568d5 100644
--- a/src/dynd/json_parser.cpp
+++ b/src/dynd/json_parser.cpp
@@ -632,6 +632,14 @@ static void get_error_line_column(const char *begin, const char *end, const char
     ++out_line;
   }
 
+  if (position == end) {
+    // The error is at the end of the input, which is empty or ends with a \n
+    out_line_prev.swap(out_line_cur);
+    out_line_cur = "";
+    out_column = 1;
+    return;
+  }
+
   throw runtime_error("Cannot get line number of error, its position is out of range");
 }
 
-- 
2.43.0


From 9273536e447bbd1acbe071ef40a96e7e930626e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:45 +0000
Subject: [PATCH 031/106] fix: the Bytes kind matches fixed_bytes, as its place
 in the type hierarchy says

---
 include/dynd/types/bytes_kind_type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/types/bytes_kind_type.hpp b/include/dynd/types/bytes_kind_type.hpp
index 3982f70..386c92f 100644
--- a/include/dynd/types/bytes_kind_type.hpp
+++ b/include/dynd/types/bytes_kind_type.hpp
@@ -15,7 +15,7 @@ namespace ndt {
     bytes_kind_type(type_id_t id) : base_type(id, 0, 1, type_flag_symbolic, 0, 0, 0) {}
 
     bool match(const type &candidate_tp, std::map<std::string, type> &DYND_UNUSED(tp_vars)) const {
-      return candidate_tp.get_base_id() == bytes_kind_id;
+      return candidate_tp.get_base_id() == bytes_kind_id || candidate_tp.get_id() == fixed_bytes_id;
     }
 
     void print_data(std::ostream &DYND_UNUSED(o), const char *DYND_UNUSED(arrmeta),
-- 
2.43.0


From d44126af70ca9305931cf82b68abf46516afa67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:45 +0000
Subject: [PATCH 032/106] fix: substituting into a callable with keyword
 arguments dereferences null

---
 src/dynd/types/callable_type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynd/types/callable_type.cpp b/src/dynd/types/callable_type.cpp
index a8fe438..d156b3b 100644
--- a/src/dynd/types/callable_type.cpp
+++ b/src/dynd/types/callable_type.cpp
@@ -230,7 +230,7 @@ nd::buffer ndt::callable_type::get_type_constructor_args() const {
     reinterpret_cast<ndt::type *>(callable_args.data())[0] = get_return_type();
     reinterpret_cast<ndt::type *>(callable_args.data())[1] = get_pos_tuple();
   } else {
-    nd::buffer callable_args = nd::buffer::empty(ndt::make_type<ndt::tuple_type>(
+    callable_args = nd::buffer::empty(ndt::make_type<ndt::tuple_type>(
         {ndt::make_type<ndt::tuple_type>(
              {ndt::make_type<ndt::type_type>(), ndt::make_type<ndt::type_type>(), ndt::make_type<ndt::type_type>()}),
          ndt::make_type<ndt::struct_type>()}));
-- 
2.43.0


From cdd1a33d2c42b2a1999724c684ef26eced14dec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:45 +0000
Subject: [PATCH 033/106] fix: broadcasting dim fragments leaves dimension
 sizes uninitialized and shrinks var to 1

---
 src/dynd/types/dim_fragment_type.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/dynd/types/dim_fragment_type.cpp b/src/dynd/types/dim_fragment_type.cpp
index f1d9bf7..4167733 100644
--- a/src/dynd/types/dim_fragment_type.cpp
+++ b/src/dynd/types/dim_fragment_type.cpp
@@ -48,14 +48,17 @@ static inline bool broadcast_tagged_dims_from_type(intptr_t ndim, ndt::type tp,
     } break;
     case fixed_dim_id: {
       dim_size = tp.extended<ndt::fixed_dim_type>()->get_fixed_dim_size();
-      if (tagged_dim < 0 || tagged_dim == 1) {
+      if (tagged_dim == 1 || (tagged_dim < 0 && dim_size != 1)) {
         out_tagged_dims[i] = dim_size;
       } else if (tagged_dim != dim_size && dim_size != 1) {
         return false;
       }
     } break;
     case var_dim_id:
-      // All broadcasting is done dynamically for var
+      // All broadcasting is done dynamically for var, but a size one stretches to it
+      if (tagged_dim == 1) {
+        out_tagged_dims[i] = dim_fragment_var;
+      }
       break;
     default: {
       stringstream ss;
@@ -90,13 +93,14 @@ ndt::type ndt::dim_fragment_type::broadcast_with_type(intptr_t ndim, const type
   if (ndim > this_ndim) {
     dimvector shape(ndim);
     type dtp = get_tagged_dims_from_type(ndim - this_ndim, tp, shape.get());
+    memcpy(shape.get() + (ndim - this_ndim), get_tagged_dims(), this_ndim * sizeof(intptr_t));
     if (!broadcast_tagged_dims_from_type(this_ndim, dtp, get_tagged_dims(), shape.get() + (ndim - this_ndim))) {
       return type();
     }
     return make_dim_fragment(ndim, shape.get());
   } else if (ndim < this_ndim) {
     dimvector shape(this_ndim);
-    memcpy(shape.get(), get_tagged_dims(), (this_ndim - ndim) * sizeof(intptr_t));
+    memcpy(shape.get(), get_tagged_dims(), this_ndim * sizeof(intptr_t));
     if (!broadcast_tagged_dims_from_type(ndim, tp, get_tagged_dims() + (this_ndim - ndim),
                                          shape.get() + (this_ndim - ndim))) {
       return type();
-- 
2.43.0


From 7db620728a09e9fac7bb4f0bc31965f11cc0957f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:45 +0000
Subject: [PATCH 034/106] fix: var**N matches dimensions that are not var

---
 src/dynd/types/pow_dimsym_type.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dynd/types/pow_dimsym_type.cpp b/src/dynd/types/pow_dimsym_type.cpp
index a9805f0..d4b2d28 100644
--- a/src/dynd/types/pow_dimsym_type.cpp
+++ b/src/dynd/types/pow_dimsym_type.cpp
@@ -215,6 +215,8 @@ bool ndt::pow_dimsym_type::match(const type &candidate_tp, std::map<std::string,
     for (intptr_t i = 0; i < exponent; ++i) {
       if (concrete_subtype.get_id() == var_dim_id) {
         concrete_subtype = concrete_subtype.extended<base_dim_type>()->get_element_type();
+      } else {
+        return false;
       }
     }
     break;
-- 
2.43.0


From cc00b58de412acd82c0b44557397dc3f02db5d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:06 +0000
Subject: [PATCH 035/106] fix: type variables under a Dim dimension are neither
 bound nor substituted

---
 src/dynd/types/dim_kind_type.cpp       |  4 ++--
 src/dynd/types/substitute_typevars.cpp | 10 ++++++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/dynd/types/dim_kind_type.cpp b/src/dynd/types/dim_kind_type.cpp
index 63e6d44..bf2ad19 100644
--- a/src/dynd/types/dim_kind_type.cpp
+++ b/src/dynd/types/dim_kind_type.cpp
@@ -16,8 +16,8 @@ ndt::dim_kind_type::dim_kind_type(type_id_t id, const type &element_tp)
   this->flags |= (element_tp.get_flags() & (type_flags_operand_inherited | type_flags_value_inherited));
 }
 
-bool ndt::dim_kind_type::match(const type &candidate_tp, std::map<std::string, type> &DYND_UNUSED(tp_vars)) const {
-  return candidate_tp.get_ndim() > 0 && m_element_tp.match(candidate_tp.get_type_at_dimension(NULL, 1));
+bool ndt::dim_kind_type::match(const type &candidate_tp, std::map<std::string, type> &tp_vars) const {
+  return candidate_tp.get_ndim() > 0 && m_element_tp.match(candidate_tp.get_type_at_dimension(NULL, 1), tp_vars);
 }
 
 void ndt::dim_kind_type::print_data(std::ostream &DYND_UNUSED(o), const char *DYND_UNUSED(arrmeta),
diff --git a/src/dynd/types/substitute_typevars.cpp b/src/dynd/types/substitute_typevars.cpp
index b41192f..68422e2 100644
--- a/src/dynd/types/substitute_typevars.cpp
+++ b/src/dynd/types/substitute_typevars.cpp
@@ -6,6 +6,7 @@
 #include <dynd/type_registry.hpp>
 #include <dynd/types/cuda_device_type.hpp>
 #include <dynd/types/dim_fragment_type.hpp>
+#include <dynd/types/dim_kind_type.hpp>
 #include <dynd/types/ellipsis_dim_type.hpp>
 #include <dynd/types/fixed_dim_type.hpp>
 #include <dynd/types/option_type.hpp>
@@ -125,6 +126,15 @@ ndt::type ndt::detail::internal_substitute(const ndt::type &pattern, const std::
                              "'fixed' dimension, which is not concrete as "
                              "requested");
     }
+  case dim_kind_id:
+    if (!concrete) {
+      return ndt::make_type<ndt::dim_kind_type>(
+          ndt::substitute(pattern.extended<base_dim_type>()->get_element_type(), typevars, concrete));
+    } else {
+      throw invalid_argument("The dynd pattern type includes a symbolic "
+                             "'Dim' dimension, which is not concrete as "
+                             "requested");
+    }
   case fixed_dim_id:
     return ndt::make_fixed_dim(
         pattern.extended<fixed_dim_type>()->get_fixed_dim_size(),
-- 
2.43.0


From ec0d521529c2ef35f553c5ca9d8ca48cdc151cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:06 +0000
Subject: [PATCH 036/106] fix: substitution turns a variadic tuple or struct
 pattern into a fixed one

---
 src/dynd/types/substitute_typevars.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dynd/types/substitute_typevars.cpp b/src/dynd/types/substitute_typevars.cpp
index 68422e2..d42009b 100644
--- a/src/dynd/types/substitute_typevars.cpp
+++ b/src/dynd/types/substitute_typevars.cpp
@@ -145,11 +145,13 @@ ndt::type ndt::detail::internal_substitute(const ndt::type &pattern, const std::
   case struct_id:
     return ndt::make_type<ndt::struct_type>(
         pattern.extended<struct_type>()->get_field_names(),
-        substitute_type_array(pattern.extended<struct_type>()->get_field_types(), typevars, concrete));
+        substitute_type_array(pattern.extended<struct_type>()->get_field_types(), typevars, concrete),
+        !concrete && pattern.extended<struct_type>()->is_variadic());
   case tuple_id: {
     const std::vector<ndt::type> &element_tp =
         substitute_type_array(pattern.extended<tuple_type>()->get_field_types(), typevars, concrete);
-    return ndt::make_type<ndt::tuple_type>(element_tp.size(), element_tp.data());
+    return ndt::make_type<ndt::tuple_type>(element_tp.size(), element_tp.data(),
+                                            !concrete && pattern.extended<tuple_type>()->is_variadic());
   }
   case option_id:
     return ndt::make_type<ndt::option_type>(
-- 
2.43.0


From f30b21c34093ab6a8ed816f47eeecfd244952d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:06 +0000
Subject: [PATCH 037/106] fix: substituting a constructed type variable without
 a value dereferences the map's end

---
 src/dynd/types/substitute_typevars.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/dynd/types/substitute_typevars.cpp b/src/dynd/types/substitute_typevars.cpp
index d42009b..bdd89cc 100644
--- a/src/dynd/types/substitute_typevars.cpp
+++ b/src/dynd/types/substitute_typevars.cpp
@@ -159,6 +159,16 @@ ndt::type ndt::detail::internal_substitute(const ndt::type &pattern, const std::
   case typevar_constructed_id: {
     map<std::string, ndt::type>::const_iterator it =
         typevars.find(pattern.extended<typevar_constructed_type>()->get_name());
+    if (it == typevars.end()) {
+      if (!concrete) {
+        return ndt::make_type<ndt::typevar_constructed_type>(
+            pattern.extended<typevar_constructed_type>()->get_name(),
+            substitute(pattern.extended<typevar_constructed_type>()->get_arg(), typevars, concrete));
+      }
+      stringstream ss;
+      ss << "No substitution type for dynd type var " << pattern << " was available";
+      throw invalid_argument(ss.str());
+    }
     if (it->second.get_id() == void_id) {
       return substitute(pattern.extended<typevar_constructed_type>()->get_arg(), typevars, concrete);
     }
-- 
2.43.0


From 6468d27a95dd38d937f170a70b2d4c42205559a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:06 +0000
Subject: [PATCH 038/106] fix: a concrete substitution without the exponent
 gives a symbolic type

---
 src/dynd/types/substitute_typevars.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dynd/types/substitute_typevars.cpp b/src/dynd/types/substitute_typevars.cpp
index bdd89cc..3329fab 100644
--- a/src/dynd/types/substitute_typevars.cpp
+++ b/src/dynd/types/substitute_typevars.cpp
@@ -276,6 +276,10 @@ ndt::type ndt::detail::internal_substitute(const ndt::type &pattern, const std::
            << ", is not a fixed_dim integer as required";
         throw invalid_argument(ss.str());
       }
+    } else if (concrete) {
+      stringstream ss;
+      ss << "No substitution type for dynd typevar " << exponent_name << " was available";
+      throw invalid_argument(ss.str());
     }
     // If the exponent is zero, just substitute the rest of the type
     if (exponent == 0) {
-- 
2.43.0


From 83b34b42640711cf30d551d9931ed40950c1d4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:06 +0000
Subject: [PATCH 039/106] fix: substitution fails on the kinds of scalars

---
 src/dynd/types/substitute_typevars.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/dynd/types/substitute_typevars.cpp b/src/dynd/types/substitute_typevars.cpp
index 3329fab..86b3a52 100644
--- a/src/dynd/types/substitute_typevars.cpp
+++ b/src/dynd/types/substitute_typevars.cpp
@@ -392,7 +392,16 @@ ndt::type ndt::detail::internal_substitute(const ndt::type &pattern, const std::
       return pattern;
     }
   }
-  case scalar_kind_id: {
+  case scalar_kind_id:
+  case bool_kind_id:
+  case int_kind_id:
+  case uint_kind_id:
+  case float_kind_id:
+  case complex_kind_id:
+  case bytes_kind_id:
+  case fixed_bytes_kind_id:
+  case string_kind_id:
+  case fixed_string_kind_id: {
     if (concrete) {
       stringstream ss;
       ss << "The dynd type " << pattern << " is not concrete as required";
-- 
2.43.0


From c7b8c4e9a9a2125524cd4f55f37d75ca2685a8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:17 +0000
Subject: [PATCH 040/106] fix: decoding ill-formed UTF-8 without checking
 always advances past what it replaces

---
 src/dynd/string_encodings.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dynd/string_encodings.cpp b/src/dynd/string_encodings.cpp
index 6f1135a..0b3b08e 100644
--- a/src/dynd/string_encodings.cpp
+++ b/src/dynd/string_encodings.cpp
@@ -133,6 +133,8 @@ uint32_t noerror_next_utf8(const char *&it, const char *end) {
   utf8::internal::utf_error err = utf8::internal::UTF8_OK;
   switch (length) {
   case 0:
+    // Always make progress, so that callers looping to the end terminate
+    ++it;
     return ERROR_SUBSTITUTE_CODEPOINT;
   case 1:
     err = utf8::internal::get_sequence_1(it, end, cp);
@@ -149,11 +151,12 @@ uint32_t noerror_next_utf8(const char *&it, const char *end) {
   }
 
   if (err == utf8::internal::UTF8_OK) {
-    // Decoding succeeded. Now, security checks...
+    // A whole sequence was decoded, consume its last octet
+    ++it;
+    // Now, security checks...
     if (utf8::internal::is_code_point_valid(cp)) {
       if (!utf8::internal::is_overlong_sequence(cp, length)) {
         // Passed! Return here.
-        ++it;
         return cp;
       } else {
         return ERROR_SUBSTITUTE_CODEPOINT;
-- 
2.43.0


From 06857f417ff10e601e3ea3f7461a429b6a97b998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:17 +0000
Subject: [PATCH 041/106] fix: unchecked UTF-16 decoding does not read a trail
 surrogate past the end of the text

---
 src/dynd/string_encodings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynd/string_encodings.cpp b/src/dynd/string_encodings.cpp
index 0b3b08e..efdeb59 100644
--- a/src/dynd/string_encodings.cpp
+++ b/src/dynd/string_encodings.cpp
@@ -241,7 +241,7 @@ uint32_t noerror_next_utf16(const char *&it_raw, const char *end_raw) {
   it_raw += 2;
   // Take care of surrogate pairs first
   if (utf8::internal::is_lead_surrogate(cp)) {
-    if (it_raw <= end_raw + 2) {
+    if (it_raw + 2 <= end_raw) {
       uint32_t trail_surrogate = *reinterpret_cast<const uint16_t *>(it_raw);
       it_raw += 2;
       if (utf8::internal::is_trail_surrogate(trail_surrogate)) {
-- 
2.43.0


From 014af1b4c581ab0e114165a2f5a4cc027e642046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:17 +0000
Subject: [PATCH 042/106] fix: fixed strings whose text ends within the
 destination's room are not too large for it

---
 include/dynd/kernels/assignment_kernels.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dynd/kernels/assignment_kernels.hpp b/include/dynd/kernels/assignment_kernels.hpp
index 78bcd5b..fcf2255 100644
--- a/include/dynd/kernels/assignment_kernels.hpp
+++ b/include/dynd/kernels/assignment_kernels.hpp
@@ -1325,7 +1325,8 @@ namespace nd {
           }
         }
         if (src_copy < src_end) {
-          if (m_overflow_check) {
+          // The text may also end here, with a null before the end of the source's room
+          if (m_overflow_check && next_fn(const_cast<const char *&>(src_copy), src_end) != 0) {
             throw std::runtime_error("Input string is too large to convert to "
                                      "destination fixed-size string");
           }
-- 
2.43.0


From 5741a03b62b5b76dc0eb8050e37e515bc8539536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:02 +0000
Subject: [PATCH 043/106] fix: destinations that are not writable are refused

---
 src/dynd/array.cpp                   | 10 +++++++++-
 src/dynd/callables/base_callable.cpp |  4 ++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/dynd/array.cpp b/src/dynd/array.cpp
index 8bd213a..889b9fa 100644
--- a/src/dynd/array.cpp
+++ b/src/dynd/array.cpp
@@ -248,13 +248,21 @@ nd::array nd::array::eval_copy(uint32_t access_flags) const {
 
   const ndt::type &current_tp = get_type();
   const ndt::type &dt = current_tp.get_canonical_type();
-  array result = nd::empty(dt, access_flags);
+  array result = nd::empty(dt);
   if (dt.get_id() == fixed_dim_id) {
     // Reorder strides of output strided dimensions in a KEEPORDER fashion
     dt.extended<ndt::fixed_dim_type>()->reorder_default_constructed_strides(result.get()->metadata(), get_type(),
                                                                             get()->metadata());
   }
   result.assign(*this);
+  if (result.get_flags() != access_flags) {
+    // The copy is filled now, hand out a view of it with the requested access
+    array restricted = make_array(dt, const_cast<char *>(result.cdata()), result, access_flags);
+    if (!dt.is_builtin()) {
+      dt.extended()->arrmeta_copy_construct(restricted.get()->metadata(), result.get()->metadata(), result);
+    }
+    return restricted;
+  }
   return result;
 }
 
diff --git a/src/dynd/callables/base_callable.cpp b/src/dynd/callables/base_callable.cpp
index 4d42c42..9981dde 100644
--- a/src/dynd/callables/base_callable.cpp
+++ b/src/dynd/callables/base_callable.cpp
@@ -73,6 +73,10 @@ void nd::base_callable::call(const ndt::type &dst_tp, const char *dst_arrmeta, a
   kernel_builder kb(cg.get());
   kb(kernel_request_call, nullptr, dst_arrmeta, nsrc, src_arrmeta);
 
+  if (!(dst->get_flags() & write_access_flag)) {
+    throw std::runtime_error("tried to write to a dynd array that is not writable");
+  }
+
   kernel_call_t fn = kb.get()->get_function<kernel_call_t>();
   fn(kb.get(), dst, src);
 }
-- 
2.43.0


From 6bab1b47d812afc06a3bb4015e3f07429a165c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:02 +0000
Subject: [PATCH 044/106] fix: views of read-only arrays can be made by
 permute, new_axis, view_scalars and reshape

---
 src/dynd/array.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/dynd/array.cpp b/src/dynd/array.cpp
index 889b9fa..85e893e 100644
--- a/src/dynd/array.cpp
+++ b/src/dynd/array.cpp
@@ -538,7 +538,7 @@ nd::array nd::array::permute(intptr_t ndim, const intptr_t *axes) const {
   pdd.arrmeta = res.get()->metadata();
   permute_type_dims(get_type(), 0, &pdd, transformed_tp, was_transformed);
 
-  nd::array second_res = make_array(transformed_tp, data(), get_owner() ? get_owner() : *this, get_flags());
+  nd::array second_res = make_array(transformed_tp, const_cast<char *>(cdata()), get_owner() ? get_owner() : *this, get_flags());
   transformed_tp.extended()->arrmeta_copy_construct(second_res->metadata(), res->metadata(), memory_block());
 
   return second_res;
@@ -635,7 +635,7 @@ nd::array nd::array::new_axis(intptr_t i, intptr_t new_ndim) const {
   ndt::type dst_tp = src_tp.with_new_axis(i, new_ndim);
 
   // This is taken from view_concrete in view.cpp
-  nd::array res = make_array(dst_tp, data(), get_owner() ? get_data_memblock() : *this, get_flags());
+  nd::array res = make_array(dst_tp, const_cast<char *>(cdata()), get_owner() ? get_data_memblock() : *this, get_flags());
 
   char *src_arrmeta = const_cast<char *>(get()->metadata());
   char *dst_arrmeta = res.get()->metadata();
@@ -724,7 +724,7 @@ nd::array nd::array::view_scalars(const ndt::type &scalar_tp) const {
       }
       // Create the result array, adjusting the type if the data isn't aligned
       // correctly
-      char *data_ptr = data();
+      char *data_ptr = const_cast<char *>(cdata());
       ndt::type result_tp;
       intptr_t dim_size = nbytes / scalar_tp.get_data_size();
       if ((((uintptr_t)data_ptr) & (scalar_tp.get_data_alignment() - 1)) == 0) {
@@ -733,7 +733,7 @@ nd::array nd::array::view_scalars(const ndt::type &scalar_tp) const {
         throw std::runtime_error("creating an unaligned type");
         //        result_tp = ndt::make_fixed_dim(dim_size, make_unaligned(scalar_tp));
       }
-      array result = make_array(result_tp, data(), get_owner() ? get_owner() : *this, get_flags());
+      array result = make_array(result_tp, data_ptr, get_owner() ? get_owner() : *this, get_flags());
       // The result has one strided ndarray field
       fixed_dim_type_arrmeta *result_md = reinterpret_cast<fixed_dim_type_arrmeta *>(result.get()->metadata());
       result_md->dim_size = dim_size;
@@ -890,8 +890,8 @@ nd::array nd::reshape(const nd::array &a, const nd::array &shape) {
     shape_copy[i] = shape(i).as<intptr_t>();
   }
 
-  return make_strided_array_from_data(a.get_dtype(), ndim, shape_copy.get(), strides.get(), a.get_flags(), a.data(), a,
-                                      NULL);
+  return make_strided_array_from_data(a.get_dtype(), ndim, shape_copy.get(), strides.get(), a.get_flags(),
+                                      const_cast<char *>(a.cdata()), a, NULL);
 }
 
 nd::array nd::memmap(const std::string &DYND_UNUSED(filename), intptr_t DYND_UNUSED(begin), intptr_t DYND_UNUSED(end),
-- 
2.43.0


From d267a0de9e96272a077ace0f75dad752aaa9ca81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:41 +0000
Subject: [PATCH 045/106] fix: assignment between scalar types that have none
 is an error instead of an endless recursion

---
 include/dynd/callables/assign_callable.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/dynd/callables/assign_callable.hpp b/include/dynd/callables/assign_callable.hpp
index 073654b..4f58875 100644
--- a/include/dynd/callables/assign_callable.hpp
+++ b/include/dynd/callables/assign_callable.hpp
@@ -952,6 +952,12 @@ namespace nd {
           dst_tp.get_id() == option_id ? dst_tp.extended<ndt::option_type>()->get_value_type() : dst_tp;
       ndt::type val_src_tp =
           src_tp[0].get_id() == option_id ? src_tp[0].extended<ndt::option_type>()->get_value_type() : src_tp[0];
+      if (dst_tp.get_id() != option_id && src_tp[0].get_id() != option_id) {
+        // There is nothing to unwrap, so this would resolve to itself forever
+        std::stringstream ss;
+        ss << "cannot assign from " << src_tp[0] << " to " << dst_tp;
+        throw std::runtime_error(ss.str());
+      }
       assign->resolve(this, nullptr, cg, val_dst_tp, 1, &val_src_tp, nkwd, kwds, tp_vars);
 
       return dst_tp;
-- 
2.43.0


From 4c8315eea6ac2609c9039317bbebf7e778d68de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:46 +0000
Subject: [PATCH 046/106] fix: permuting dimensions works for identity axes and
 for several groups of axes

---
 src/dynd/array.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/dynd/array.cpp b/src/dynd/array.cpp
index 85e893e..345543a 100644
--- a/src/dynd/array.cpp
+++ b/src/dynd/array.cpp
@@ -457,7 +457,7 @@ static void permute_type_dims(const ndt::type &tp, intptr_t arrmeta_offset, void
       // No more perm dimensions left, leave type as is
       out_transformed_tp = tp;
     } else {
-      if (tp.get_base_id() == dim_kind_id) {
+      if (tp.get_id() == fixed_dim_id || tp.get_id() == var_dim_id) {
         ++pdd->i;
       }
       tp.extended()->transform_child_types(&permute_type_dims, arrmeta_offset, extra, out_transformed_tp,
@@ -486,10 +486,12 @@ static void permute_type_dims(const ndt::type &tp, intptr_t arrmeta_offset, void
     intptr_t perm_ndim = max_i - i + 1;
     // If there are more permutation axes left, process the subtype
     if (max_i < pdd->ndim - 1) {
+      ndt::type transformed_subtp;
       pdd->i = max_i + 1;
-      tp.extended()->transform_child_types(&permute_type_dims,
-                                           arrmeta_offset + perm_ndim * sizeof(fixed_dim_type_arrmeta), extra, subtp,
-                                           out_was_transformed);
+      permute_type_dims(subtp, arrmeta_offset + perm_ndim * sizeof(fixed_dim_type_arrmeta), extra, transformed_subtp,
+                        out_was_transformed);
+      pdd->i = i;
+      subtp = transformed_subtp;
     }
     // Apply the permutation
     dimvector shape(perm_ndim), permuted_shape(perm_ndim);
@@ -524,6 +526,11 @@ nd::array nd::array::permute(intptr_t ndim, const intptr_t *axes) const {
     throw invalid_argument(ss.str());
   }
 
+  if (ndim == 0) {
+    // No axes to permute
+    return *this;
+  }
+
   // Make a shallow copy of the arrmeta. When we permute the type,
   // its arrmeta has identical structure, so we can fix it up
   // while we're transforming the type.
@@ -538,7 +545,8 @@ nd::array nd::array::permute(intptr_t ndim, const intptr_t *axes) const {
   pdd.arrmeta = res.get()->metadata();
   permute_type_dims(get_type(), 0, &pdd, transformed_tp, was_transformed);
 
-  nd::array second_res = make_array(transformed_tp, const_cast<char *>(cdata()), get_owner() ? get_owner() : *this, get_flags());
+  nd::array second_res =
+      make_array(transformed_tp, const_cast<char *>(cdata()), get_owner() ? get_owner() : *this, get_flags());
   transformed_tp.extended()->arrmeta_copy_construct(second_res->metadata(), res->metadata(), memory_block());
 
   return second_res;
-- 
2.43.0


From bb657d6dce976127b4b419ed72b23e20c3da8bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:56 +0000
Subject: [PATCH 047/106] fix: options of uint8, uint16 and uint64 can be
 tested for and set to NA

---
 src/dynd/option.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dynd/option.cpp b/src/dynd/option.cpp
index b2df4b1..50c15b0 100644
--- a/src/dynd/option.cpp
+++ b/src/dynd/option.cpp
@@ -27,8 +27,8 @@ static std::vector<ndt::type> is_na_func_ptr(const ndt::type &DYND_UNUSED(dst_tp
 nd::callable make_assign_na() {
   auto children = nd::callable::make_all<
       nd::assign_na_callable,
-      type_sequence<bool, int8_t, int16_t, int32_t, int64_t, int128, uint32_t, float, double, dynd::complex<float>,
-                    dynd::complex<double>, void, dynd::bytes, dynd::string, ndt::fixed_dim_kind_type>>(
+      type_sequence<bool, int8_t, int16_t, int32_t, int64_t, int128, uint8_t, uint16_t, uint32_t, uint64_t, float, double,
+                    dynd::complex<float>, dynd::complex<double>, void, dynd::bytes, dynd::string, ndt::fixed_dim_kind_type>>(
       assign_na_func_ptr);
   children.insert(nd::get_elwise(ndt::make_type<ndt::callable_type>(
       ndt::make_type<ndt::fixed_dim_kind_type>(ndt::make_type<ndt::any_kind_type>()), {})));
@@ -43,8 +43,8 @@ nd::callable make_assign_na() {
 nd::callable make_is_na() {
   dispatcher<1, nd::callable> dispatcher = nd::callable::make_all<
       nd::is_na_callable,
-      type_sequence<bool, int8_t, int16_t, int32_t, int64_t, int128, uint32_t, float, double, dynd::complex<float>,
-                    dynd::complex<double>, void, dynd::bytes, dynd::string, ndt::fixed_dim_kind_type>>(is_na_func_ptr);
+      type_sequence<bool, int8_t, int16_t, int32_t, int64_t, int128, uint8_t, uint16_t, uint32_t, uint64_t, float, double,
+                    dynd::complex<float>, dynd::complex<double>, void, dynd::bytes, dynd::string, ndt::fixed_dim_kind_type>>(is_na_func_ptr);
   dispatcher.insert(nd::get_elwise(ndt::make_type<ndt::callable_type>(
       ndt::make_type<ndt::fixed_dim_kind_type>(ndt::make_type<ndt::any_kind_type>()),
       {ndt::make_type<ndt::fixed_dim_kind_type>(ndt::make_type<ndt::any_kind_type>())})));
-- 
2.43.0


From e231cc1fa90df0283d23710f77a39f4473828ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:26 +0000
Subject: [PATCH 048/106] fix: refuse to parse JSON into a var dimension view
 with an offset

---
 src/dynd/json_parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dynd/json_parser.cpp b/src/dynd/json_parser.cpp
index cf568d5..93a5c01 100644
--- a/src/dynd/json_parser.cpp
+++ b/src/dynd/json_parser.cpp
@@ -190,6 +190,10 @@ static void parse_var_dim_json(const ndt::type &tp, const char *arrmeta, char *o
 
   ndt::var_dim_type::data_type *out = reinterpret_cast<ndt::var_dim_type::data_type *>(out_data);
 
+  if (md->offset != 0) {
+    throw std::runtime_error("cannot parse into a dynd var_dim which has a non-zero offset");
+  }
+
   intptr_t size = 0, allocated_size = 8;
   out->begin = md->blockref->alloc(allocated_size);
 
-- 
2.43.0


From 7dbfe18592f8f5b2455ed375cb5c94a1f25331cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:36 +0000
Subject: [PATCH 049/106] fix: NA of unsigned options is written by JSON and
 recognised by printing and is_na()

---
 src/dynd/types/option_type.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/dynd/types/option_type.cpp b/src/dynd/types/option_type.cpp
index ed93fdb..ee35eed 100644
--- a/src/dynd/types/option_type.cpp
+++ b/src/dynd/types/option_type.cpp
@@ -28,6 +28,18 @@ void dynd::assign_na_builtin(type_id_t value_id, char *data) {
   case int64_id:
     *reinterpret_cast<int64_t *>(data) = DYND_INT64_NA;
     return;
+  case uint8_id:
+    *reinterpret_cast<uint8_t *>(data) = std::numeric_limits<uint8_t>::max();
+    return;
+  case uint16_id:
+    *reinterpret_cast<uint16_t *>(data) = std::numeric_limits<uint16_t>::max();
+    return;
+  case uint32_id:
+    *reinterpret_cast<uint32_t *>(data) = DYND_UINT32_NA;
+    return;
+  case uint64_id:
+    *reinterpret_cast<uint64_t *>(data) = std::numeric_limits<uint64_t>::max();
+    return;
   case int128_id:
     *reinterpret_cast<int128 *>(data) = DYND_INT128_NA;
     return;
@@ -61,8 +73,14 @@ bool dynd::is_avail_builtin(type_id_t value_id, const char *data) {
     return *reinterpret_cast<const int16_t *>(data) != DYND_INT16_NA;
   case int32_id:
     return *reinterpret_cast<const int32_t *>(data) != DYND_INT32_NA;
+  case uint8_id:
+    return *reinterpret_cast<const uint8_t *>(data) != std::numeric_limits<uint8_t>::max();
+  case uint16_id:
+    return *reinterpret_cast<const uint16_t *>(data) != std::numeric_limits<uint16_t>::max();
   case uint32_id:
     return *reinterpret_cast<const uint32_t *>(data) != DYND_UINT32_NA;
+  case uint64_id:
+    return *reinterpret_cast<const uint64_t *>(data) != std::numeric_limits<uint64_t>::max();
   case int64_id:
     return *reinterpret_cast<const int64_t *>(data) != DYND_INT64_NA;
   case int128_id:
-- 
2.43.0


From 50257c3cab24912370c2f57387f2f3abd372ab17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:36 +0000
Subject: [PATCH 050/106] fix: assign_na of arrays of options

---
 src/dynd/option.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynd/option.cpp b/src/dynd/option.cpp
index 50c15b0..c9ad040 100644
--- a/src/dynd/option.cpp
+++ b/src/dynd/option.cpp
@@ -36,7 +36,7 @@ nd::callable make_assign_na() {
       ndt::make_type<ndt::callable_type>(ndt::make_type<ndt::var_dim_type>(ndt::make_type<ndt::any_kind_type>()), {})));
 
   return nd::make_callable<nd::multidispatch_callable<1>>(
-      ndt::make_type<ndt::callable_type>(ndt::make_type<ndt::option_type>(ndt::make_type<ndt::any_kind_type>()), {}),
+      ndt::make_type<ndt::callable_type>(ndt::make_type<ndt::any_kind_type>(), {}),
       children);
 }
 
-- 
2.43.0


From 596c1417e62f6639597f02d9f3b0f81137ff8ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:36 +0000
Subject: [PATCH 051/106] fix: text of a missing value assigns NA to an option
 of bool

---
 include/dynd/kernels/assignment_kernels.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/dynd/kernels/assignment_kernels.hpp b/include/dynd/kernels/assignment_kernels.hpp
index fcf2255..f1b5d8b 100644
--- a/include/dynd/kernels/assignment_kernels.hpp
+++ b/include/dynd/kernels/assignment_kernels.hpp
@@ -837,7 +837,11 @@ namespace nd {
     struct DYND_API string_to_option_bool_ck : nd::base_strided_kernel<string_to_option_bool_ck, 1> {
       void single(char *dst, char *const *src) {
         const string *std = reinterpret_cast<string *>(src[0]);
-        *reinterpret_cast<bool1 *>(dst) = parse<bool>(std->begin(), std->end());
+        if (parse_na(std->begin(), std->end())) {
+          *dst = DYND_BOOL_NA;
+        } else {
+          *reinterpret_cast<bool1 *>(dst) = parse<bool>(std->begin(), std->end());
+        }
       }
     };
 
-- 
2.43.0


From 7024dece7053910e3edb5e014565e4a90fa25a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:36 +0000
Subject: [PATCH 052/106] fix: conversions between options of more than 128
 elements read the wrong source elements

---
 include/dynd/kernels/assignment_kernels.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dynd/kernels/assignment_kernels.hpp b/include/dynd/kernels/assignment_kernels.hpp
index f1b5d8b..5c18693 100644
--- a/include/dynd/kernels/assignment_kernels.hpp
+++ b/include/dynd/kernels/assignment_kernels.hpp
@@ -792,19 +792,19 @@ namespace nd {
         kernel_strided_t dst_assign_na_fn = dst_assign_na->get_function<kernel_strided_t>();
         // Process in chunks using the dynd default buffer size
         bool1 missing[DYND_BUFFER_CHUNK_SIZE];
+        char *src_copy = src[0];
         while (count > 0) {
           size_t chunk_size = std::min(count, (size_t)DYND_BUFFER_CHUNK_SIZE);
           count -= chunk_size;
-          src_is_na_fn(src_is_na, reinterpret_cast<char *>(missing), 1, src, src_stride, chunk_size);
+          src_is_na_fn(src_is_na, reinterpret_cast<char *>(missing), 1, &src_copy, src_stride, chunk_size);
           void *missing_ptr = missing;
-          char *src_copy = src[0];
           do {
             // Process a run of available values
             void *next_missing_ptr = memchr(missing_ptr, 1, chunk_size);
             if (!next_missing_ptr) {
               value_assign_fn(value_assign, dst, dst_stride, &src_copy, src_stride, chunk_size);
               dst += chunk_size * dst_stride;
-              src += chunk_size * src_stride[0];
+              src_copy += chunk_size * src_stride[0];
               break;
             } else if (next_missing_ptr > missing_ptr) {
               size_t segment_size = (char *)next_missing_ptr - (char *)missing_ptr;
-- 
2.43.0


From 9eeaafb0f1ae03ec53edc044cffd7278df94eb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:26 +0000
Subject: [PATCH 053/106] fix: array arguments of applied functions honor the
 strides of the array

---
 include/dynd/kernels/apply.hpp | 64 +++++++++++++++++++++++++++++++++-
 1 file changed, 63 insertions(+), 1 deletion(-)

diff --git a/include/dynd/kernels/apply.hpp b/include/dynd/kernels/apply.hpp
index b022c63..531427c 100644
--- a/include/dynd/kernels/apply.hpp
+++ b/include/dynd/kernels/apply.hpp
@@ -44,12 +44,61 @@ namespace nd {
     struct apply_arg;
 
     template <typename A, size_t I>
-    struct apply_arg<A, I, std::enable_if_t<ndt::traits<A>::is_same_layout>> {
+    struct apply_arg<A, I, std::enable_if_t<ndt::traits<A>::is_same_layout && !std::is_array<A>::value>> {
       apply_arg(char *DYND_UNUSED(data), const char *DYND_UNUSED(arrmeta)) {}
 
       A &assign(char *data) { return *reinterpret_cast<A *>(data); }
     };
 
+    namespace detail {
+
+      // The elements of a C array, in the order they have in memory, in terms of the strides of its arrmeta
+      template <typename T>
+      struct array_layout {
+        static bool is_contiguous(const char *DYND_UNUSED(arrmeta)) { return true; }
+
+        static void copy(std::remove_const_t<T> &dst, const char *DYND_UNUSED(arrmeta), const char *src) {
+          dst = *reinterpret_cast<const T *>(src);
+        }
+      };
+
+      template <typename T, size_t N>
+      struct array_layout<T[N]> {
+        static bool is_contiguous(const char *arrmeta) {
+          return (N == 1 || reinterpret_cast<const size_stride_t *>(arrmeta)->stride == sizeof(T)) &&
+                 array_layout<T>::is_contiguous(arrmeta + sizeof(size_stride_t));
+        }
+
+        template <typename U>
+        static void copy(U (&dst)[N], const char *arrmeta, const char *src) {
+          intptr_t stride = reinterpret_cast<const size_stride_t *>(arrmeta)->stride;
+          for (size_t i = 0; i < N; ++i) {
+            array_layout<T>::copy(dst[i], arrmeta + sizeof(size_stride_t), src + i * stride);
+          }
+        }
+      };
+
+    } // namespace dynd::nd::functional::detail
+
+    // The elements of an array argument may have any strides, those of a C array follow each other
+    template <typename T, size_t N, size_t I>
+    struct apply_arg<T[N], I, std::enable_if_t<ndt::traits<T[N]>::is_same_layout>> {
+      const char *m_arrmeta;
+      std::remove_cv_t<T[N]> m_copy;
+
+      apply_arg(char *DYND_UNUSED(data), const char *arrmeta)
+          : m_arrmeta(detail::array_layout<T[N]>::is_contiguous(arrmeta) ? NULL : arrmeta) {}
+
+      T (&assign(char *data))[N] {
+        if (m_arrmeta != NULL) {
+          detail::array_layout<T[N]>::copy(m_copy, m_arrmeta, data);
+          return m_copy;
+        }
+
+        return *reinterpret_cast<T(*)[N]>(data);
+      }
+    };
+
     template <typename ArgType, size_t I>
     struct apply_arg<ArgType, I, std::enable_if_t<!ndt::traits<ArgType>::is_same_layout>> {
       ArgType value;
@@ -68,6 +117,19 @@ namespace nd {
       }
     };
 
+    template <typename T, size_t N, resolve_t Resolve, size_t I>
+    struct apply_arg<return_wrapper<T[N], Resolve>, I> {
+      apply_arg(char *DYND_UNUSED(data), const char *arrmeta) {
+        if (!detail::array_layout<T[N]>::is_contiguous(arrmeta)) {
+          throw std::invalid_argument("the function can only write to a destination with contiguous elements");
+        }
+      }
+
+      return_wrapper<T[N], Resolve> assign(char *data) {
+        return return_wrapper<T[N], Resolve>(*reinterpret_cast<T(*)[N]>(data));
+      }
+    };
+
     template <size_t I>
     struct apply_arg<state, I> {
       size_t &it;
-- 
2.43.0


From 1ddd41740dace615c0e9f7249fb89e670118aeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:26 +0000
Subject: [PATCH 054/106] fix: outer checks the shape of its destination and
 refuses var dimensions

---
 include/dynd/callables/outer_callable.hpp     | 22 ++++++++++++++++++-
 .../dynd/callables/outer_entry_callable.hpp   |  4 ++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/include/dynd/callables/outer_callable.hpp b/include/dynd/callables/outer_callable.hpp
index 0b8982f..5ae6b70 100644
--- a/include/dynd/callables/outer_callable.hpp
+++ b/include/dynd/callables/outer_callable.hpp
@@ -28,6 +28,23 @@ namespace nd {
         base_callable *child = reinterpret_cast<data_type *>(data)->child;
         size_t &i = reinterpret_cast<data_type *>(data)->i;
 
+        if (src_tp[i].get_id() != fixed_dim_id) {
+          std::stringstream ss;
+          ss << "the outer of a function over the dimension type " << src_tp[i] << " is not supported";
+          throw type_error(ss.str());
+        }
+
+        // The dimension of the destination, if there is one, is that of the argument
+        ndt::type dst_element_tp = dst_tp;
+        if (!dst_tp.is_variadic()) {
+          if (dst_tp.get_id() != fixed_dim_id ||
+              dst_tp.extended<ndt::base_dim_type>()->get_dim_size() !=
+                  src_tp[i].extended<ndt::base_dim_type>()->get_dim_size()) {
+            throw broadcast_error(dst_tp, nullptr, src_tp[i], nullptr);
+          }
+          dst_element_tp = dst_tp.extended<ndt::base_dim_type>()->get_element_type();
+        }
+
         cg.emplace_back([i](kernel_builder &kb, kernel_request_t kernreq, char *data, const char *dst_arrmeta,
                             size_t DYND_UNUSED(nsrc), const char *const *src_arrmeta) {
           kb.emplace_back<outer_kernel<NArg>>(kernreq, i, dst_arrmeta, src_arrmeta);
@@ -60,8 +77,11 @@ namespace nd {
 
         ndt::type ret_element_tp;
         if (i < NArg) {
-          ret_element_tp = caller->resolve(this, data, cg, dst_tp, NArg, arg_element_tp, nkwd, kwds, tp_vars);
+          ret_element_tp = caller->resolve(this, data, cg, dst_element_tp, NArg, arg_element_tp, nkwd, kwds, tp_vars);
         } else {
+          if (!dst_tp.is_variadic() && dst_element_tp.get_ndim() != child->get_ret_type().get_ndim()) {
+            throw broadcast_error(dst_element_tp, nullptr, child->get_ret_type(), nullptr);
+          }
           ret_element_tp =
               child->resolve(this, nullptr, cg, child->get_ret_type(), NArg, arg_element_tp, nkwd, kwds, tp_vars);
         }
diff --git a/include/dynd/callables/outer_entry_callable.hpp b/include/dynd/callables/outer_entry_callable.hpp
index 94f7c22..0d5fbb3 100644
--- a/include/dynd/callables/outer_entry_callable.hpp
+++ b/include/dynd/callables/outer_entry_callable.hpp
@@ -37,6 +37,10 @@ namespace nd {
             return m_children[nsrc]->resolve(this, data, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
           }
 
+          if (!dst_tp.is_variadic() && dst_tp.get_ndim() != child->get_ret_type().get_ndim()) {
+            throw broadcast_error(dst_tp, nullptr, child->get_ret_type(), nullptr);
+          }
+
           return child->resolve(this, data, cg, child->get_ret_type(), nsrc, src_tp, nkwd, kwds, tp_vars);
         }
       };
-- 
2.43.0


From 682c0038cdc749e6e06ef646b7d2056226414963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:26 +0000
Subject: [PATCH 055/106] fix: a missing keyword is an error also when a
 destination is given

---
 src/dynd/callable.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dynd/callable.cpp b/src/dynd/callable.cpp
index 5cdec25..ef4ec7e 100644
--- a/src/dynd/callable.cpp
+++ b/src/dynd/callable.cpp
@@ -167,11 +167,12 @@ nd::array nd::callable::call(size_t narg, const array *args, size_t nkwd,
         actual_tp = ndt::make_type<ndt::option_type>(ndt::make_type<void>());
       }
       kwds[j] = assign_na({{"dst_tp", actual_tp}});
-      ++nkwd;
     }
   }
 
-  if (nkwd < m_ptr->get_nkwd()) {
+  // The destination is not one of the keyword parameters
+  nkwd = m_ptr->get_nkwd();
+  if (std::any_of(kwds.get(), kwds.get() + nkwd, [](const array &kwd) { return kwd.is_null(); })) {
     std::stringstream ss;
     // TODO: Provide the missing keyword parameter names in this error
     //       message
-- 
2.43.0


From 4dec1910176863d2fc48137f551e564bfa14cc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:32 +0000
Subject: [PATCH 056/106] fix: ordering of strided iterators with a negative
 stride

---
 include/dynd/bytes.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dynd/bytes.hpp b/include/dynd/bytes.hpp
index 519540c..a4b9fb3 100644
--- a/include/dynd/bytes.hpp
+++ b/include/dynd/bytes.hpp
@@ -158,17 +158,17 @@ public:
     return *this;
   }
 
-  bool operator<(const strided_iterator &rhs) const { return m_data < rhs.m_data; }
+  bool operator<(const strided_iterator &rhs) const { return m_stride < 0 ? m_data > rhs.m_data : m_data < rhs.m_data; }
 
-  bool operator<=(const strided_iterator &rhs) const { return m_data <= rhs.m_data; }
+  bool operator<=(const strided_iterator &rhs) const { return !(rhs < *this); }
 
   bool operator==(const strided_iterator &rhs) const { return m_data == rhs.m_data; }
 
   bool operator!=(const strided_iterator &rhs) const { return m_data != rhs.m_data; }
 
-  bool operator>=(const strided_iterator &rhs) const { return m_data >= rhs.m_data; }
+  bool operator>=(const strided_iterator &rhs) const { return !(*this < rhs); }
 
-  bool operator>(const strided_iterator &rhs) const { return m_data > rhs.m_data; }
+  bool operator>(const strided_iterator &rhs) const { return rhs < *this; }
 
   std::ptrdiff_t operator-(strided_iterator rhs) { return (m_data - rhs.m_data) / m_stride; }
 
-- 
2.43.0


From 37b7267c77ee45147397705c7a1da6c1083d5f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:32 +0000
Subject: [PATCH 057/106] fix: binary_search refuses a value whose type is not
 the element type

---
 include/dynd/callables/binary_search_callable.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/dynd/callables/binary_search_callable.hpp b/include/dynd/callables/binary_search_callable.hpp
index 5f5da11..81dd75a 100644
--- a/include/dynd/callables/binary_search_callable.hpp
+++ b/include/dynd/callables/binary_search_callable.hpp
@@ -35,6 +35,11 @@ namespace nd {
 
       ndt::type element_tp = src_tp[0].at_single(0, nullptr);
       ndt::type child_src_tp[2] = {element_tp, element_tp};
+      if (src_tp[1] != element_tp) {
+        std::stringstream ss;
+        ss << "binary_search: cannot search for a value of type " << src_tp[1] << " in an array of " << element_tp;
+        throw type_error(ss.str());
+      }
 
       total_order->resolve(this, nullptr, cg, ndt::make_type<int>(), 2, child_src_tp, 0, NULL, tp_vars);
 
-- 
2.43.0


From aaac923a42469f63dbe6ebd71e76f4d87c6e4667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:50 +0000
Subject: [PATCH 058/106] fix: indexed take instantiates its kernels in the
 right order

---
 include/dynd/callables/take_dispatch_callable.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/dynd/callables/take_dispatch_callable.hpp b/include/dynd/callables/take_dispatch_callable.hpp
index 93070d0..2fdcf9a 100644
--- a/include/dynd/callables/take_dispatch_callable.hpp
+++ b/include/dynd/callables/take_dispatch_callable.hpp
@@ -80,9 +80,6 @@ namespace nd {
 
       ndt::type src0_element_tp = src_tp[0].get_type_at_dimension(NULL, 1).get_canonical_type();
 
-      nd::array error_mode = assign_error_default;
-      assign->resolve(this, nullptr, cg, src0_element_tp, 1, &src0_element_tp, 1, &error_mode, tp_vars);
-
       ndt::type resolved_dst_tp;
       if (src_tp[1].get_id() == var_dim_id) {
         resolved_dst_tp = ndt::make_type<ndt::var_dim_type>(src0_element_tp);
@@ -99,9 +96,9 @@ namespace nd {
 
         ndt::type dst_el_tp;
         const char *dst_el_meta;
-        if (!dst_tp.get_as_strided(dst_arrmeta, &self->m_dst_dim_size, &self->m_dst_stride, &dst_el_tp, &dst_el_meta)) {
+        if (!resolved_dst_tp.get_as_strided(dst_arrmeta, &self->m_dst_dim_size, &self->m_dst_stride, &dst_el_tp, &dst_el_meta)) {
           std::stringstream ss;
-          ss << "indexed take arrfunc: could not process type " << dst_tp;
+          ss << "indexed take arrfunc: could not process type " << resolved_dst_tp;
           ss << " as a strided dimension";
           throw type_error(ss.str());
         }
@@ -140,6 +137,9 @@ namespace nd {
         kb(kernel_request_single, nullptr, dst_el_meta, 1, &src0_el_meta);
       });
 
+      nd::array error_mode = assign_error_default;
+      assign->resolve(this, nullptr, cg, src0_element_tp, 1, &src0_element_tp, 1, &error_mode, tp_vars);
+
       return resolved_dst_tp;
     }
 
-- 
2.43.0


From 96be49fe84e50b2749bf21e382a4fed63ee13a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:51 +0000
Subject: [PATCH 059/106] fix: take refuses a destination which is not of the
 result type

---
 include/dynd/callables/take_dispatch_callable.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/dynd/callables/take_dispatch_callable.hpp b/include/dynd/callables/take_dispatch_callable.hpp
index 2fdcf9a..d8f71a7 100644
--- a/include/dynd/callables/take_dispatch_callable.hpp
+++ b/include/dynd/callables/take_dispatch_callable.hpp
@@ -208,16 +208,26 @@ namespace nd {
               {ndt::make_type<ndt::ellipsis_dim_type>("Dims", ndt::make_type<ndt::typevar_type>("T")),
                ndt::make_type<ndt::typevar_dim_type>("N", ndt::make_type<ndt::typevar_type>("Ix"))})) {}
 
+    static ndt::type check_dst(const ndt::type &dst_tp, const ndt::type &resolved_dst_tp) {
+      if (!dst_tp.is_symbolic() && dst_tp != resolved_dst_tp) {
+        std::stringstream ss;
+        ss << "take: the result has type " << resolved_dst_tp << ", it cannot be stored in a destination of type "
+           << dst_tp;
+        throw type_error(ss.str());
+      }
+      return resolved_dst_tp;
+    }
+
     ndt::type resolve(base_callable *DYND_UNUSED(caller), char *DYND_UNUSED(data), call_graph &cg,
                       const ndt::type &dst_tp, size_t nsrc, const ndt::type *src_tp, size_t nkwd, const array *kwds,
                       const std::map<std::string, ndt::type> &tp_vars) {
       ndt::type mask_el_tp = src_tp[1].get_type_at_dimension(NULL, 1);
       if (mask_el_tp.get_id() == bool_id) {
         static callable f = make_callable<take_callable<bool_id>>();
-        return f->resolve(this, nullptr, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
+        return check_dst(dst_tp, f->resolve(this, nullptr, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars));
       } else if (mask_el_tp.get_id() == ndt::make_type<intptr_t>().get_id()) {
         static callable f = make_callable<indexed_take_callable>();
-        return f->resolve(this, nullptr, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
+        return check_dst(dst_tp, f->resolve(this, nullptr, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars));
       } else {
         std::stringstream ss;
         ss << "take: unsupported type for the index " << mask_el_tp << ", need bool or intptr";
-- 
2.43.0


From 84ec8be06d199ba7a3631cbc580e1aefa416b576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:51 +0000
Subject: [PATCH 060/106] fix: range with a stop but neither start nor step

---
 include/dynd/callables/range_callable.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dynd/callables/range_callable.hpp b/include/dynd/callables/range_callable.hpp
index 329c05a..38519dd 100644
--- a/include/dynd/callables/range_callable.hpp
+++ b/include/dynd/callables/range_callable.hpp
@@ -37,7 +37,7 @@ namespace nd {
       if (kwds[0].is_na()) {
         start = 0;
         stop = kwds[1].as<ReturnElementType>();
-        step = kwds[2].as<ReturnElementType>();
+        step = kwds[2].is_na() ? static_cast<ReturnElementType>(1) : kwds[2].as<ReturnElementType>();
       } else {
         if (kwds[1].is_na() && kwds[2].is_na()) {
           start = 0;
@@ -105,7 +105,7 @@ namespace nd {
       if (kwds[0].is_na()) {
         start = 0;
         stop = kwds[1].as<ReturnElementType>();
-        step = kwds[2].as<ReturnElementType>();
+        step = kwds[2].is_na() ? static_cast<ReturnElementType>(1) : kwds[2].as<ReturnElementType>();
       } else {
         if (kwds[1].is_na() && kwds[2].is_na()) {
           start = 0;
-- 
2.43.0


From b46755b4ad8cbf1768c6cc1309e288af03cbb23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:03 +0000
Subject: [PATCH 061/106] fix: size of ranges which are empty or wider than the
 element type

---
 include/dynd/callables/range_callable.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/dynd/callables/range_callable.hpp b/include/dynd/callables/range_callable.hpp
index 38519dd..6e81482 100644
--- a/include/dynd/callables/range_callable.hpp
+++ b/include/dynd/callables/range_callable.hpp
@@ -67,14 +67,18 @@ namespace nd {
         if (stop <= start) {
           return ndt::make_type<ndt::fixed_dim_type>(0, ndt::make_type<ReturnElementType>());
         } else {
-          return ndt::make_type<ndt::fixed_dim_type>(static_cast<size_t>((stop - start + step - 1) / step),
+          return ndt::make_type<ndt::fixed_dim_type>((static_cast<size_t>(stop) - static_cast<size_t>(start) - 1) /
+                                                             static_cast<size_t>(step) +
+                                                         1,
                                                      ndt::make_type<ReturnElementType>());
         }
       } else if (step < 0) {
         if (stop >= start) {
           return ndt::make_type<ndt::fixed_dim_type>(0, ndt::make_type<ReturnElementType>());
         } else {
-          return ndt::make_type<ndt::fixed_dim_type>(static_cast<size_t>((stop - start + step + 1) / step),
+          return ndt::make_type<ndt::fixed_dim_type>((static_cast<size_t>(start) - static_cast<size_t>(stop) - 1) /
+                                                             (0 - static_cast<size_t>(step)) +
+                                                         1,
                                                      ndt::make_type<ReturnElementType>());
         }
       } else {
@@ -131,7 +135,11 @@ namespace nd {
             reinterpret_cast<const ndt::fixed_dim_type::metadata_type *>(ret_metadata)->stride);
       });
 
-      size_t size = static_cast<size_t>(floor((stop - start + static_cast<ReturnElementType>(0.5) * step) / step));
+      ReturnElementType count = floor((stop - start + static_cast<ReturnElementType>(0.5) * step) / step);
+      if (step == 0 || !(count < 9e18)) {
+        throw std::runtime_error("range: the number of elements is not finite");
+      }
+      size_t size = count > 0 ? static_cast<size_t>(count) : 0;
       return ndt::make_type<ndt::fixed_dim_type>(size, ndt::make_type<ReturnElementType>());
     }
   };
-- 
2.43.0


From f9206e96c586098700849e3f56dbae8459da1193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:03 +0000
Subject: [PATCH 062/106] fix: range refuses a destination which is not of the
 result type

---
 include/dynd/callables/range_callable.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/dynd/callables/range_callable.hpp b/include/dynd/callables/range_callable.hpp
index 6e81482..c0945d4 100644
--- a/include/dynd/callables/range_callable.hpp
+++ b/include/dynd/callables/range_callable.hpp
@@ -153,6 +153,16 @@ namespace nd {
                {ndt::make_type<ndt::option_type>(ndt::make_type<ndt::scalar_kind_type>()), "stop"},
                {ndt::make_type<ndt::option_type>(ndt::make_type<ndt::scalar_kind_type>()), "step"}})) {}
 
+    static ndt::type check_ret(const ndt::type &ret_tp, const ndt::type &resolved_ret_tp) {
+      if (!ret_tp.is_symbolic() && ret_tp != resolved_ret_tp) {
+        std::stringstream ss;
+        ss << "range: the result has type " << resolved_ret_tp << ", it cannot be stored in a destination of type "
+           << ret_tp;
+        throw std::runtime_error(ss.str());
+      }
+      return resolved_ret_tp;
+    }
+
     ndt::type resolve(base_callable *DYND_UNUSED(caller), char *DYND_UNUSED(data), call_graph &cg,
                       const ndt::type &ret_tp, size_t narg, const ndt::type *arg_tp, size_t nkwd, const array *kwds,
                       const std::map<std::string, ndt::type> &tp_vars) {
@@ -164,13 +174,13 @@ namespace nd {
       const ndt::type &ret_element_tp = (kwds[0].is_na() ? kwds[1] : kwds[0]).get_type();
       switch (ret_element_tp.get_id()) {
       case int32_id:
-        return fint32->resolve(this, nullptr, cg, ret_tp, narg, arg_tp, nkwd, kwds, tp_vars);
+        return check_ret(ret_tp, fint32->resolve(this, nullptr, cg, ret_tp, narg, arg_tp, nkwd, kwds, tp_vars));
       case int64_id:
-        return fint64->resolve(this, nullptr, cg, ret_tp, narg, arg_tp, nkwd, kwds, tp_vars);
+        return check_ret(ret_tp, fint64->resolve(this, nullptr, cg, ret_tp, narg, arg_tp, nkwd, kwds, tp_vars));
       case float32_id:
-        return ffloat32->resolve(this, nullptr, cg, ret_tp, narg, arg_tp, nkwd, kwds, tp_vars);
+        return check_ret(ret_tp, ffloat32->resolve(this, nullptr, cg, ret_tp, narg, arg_tp, nkwd, kwds, tp_vars));
       case float64_id:
-        return ffloat64->resolve(this, nullptr, cg, ret_tp, narg, arg_tp, nkwd, kwds, tp_vars);
+        return check_ret(ret_tp, ffloat64->resolve(this, nullptr, cg, ret_tp, narg, arg_tp, nkwd, kwds, tp_vars));
       default:
         throw std::runtime_error("unsupported id");
       }
-- 
2.43.0


From f106517d9274571275ae4795bed0cc57d3b96fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:30 +0000
Subject: [PATCH 063/106] fix: binary_search in an array of no elements

---
 include/dynd/callables/binary_search_callable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/callables/binary_search_callable.hpp b/include/dynd/callables/binary_search_callable.hpp
index 81dd75a..5398744 100644
--- a/include/dynd/callables/binary_search_callable.hpp
+++ b/include/dynd/callables/binary_search_callable.hpp
@@ -33,7 +33,7 @@ namespace nd {
         kb(kernreq | kernel_request_data_only, nullptr, nullptr, 2, child_src_arrmeta);
       });
 
-      ndt::type element_tp = src_tp[0].at_single(0, nullptr);
+      ndt::type element_tp = src_tp[0].extended<ndt::fixed_dim_type>()->get_element_type();
       ndt::type child_src_tp[2] = {element_tp, element_tp};
       if (src_tp[1] != element_tp) {
         std::stringstream ss;
-- 
2.43.0


From c8976bf659c915dbf45764ab54a1d64cfd745b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:30 +0000
Subject: [PATCH 064/106] fix: where with a predicate of several arguments

---
 include/dynd/callables/where_callable.hpp | 22 +++++++++++++++++++---
 include/dynd/kernels/where_kernel.hpp     | 10 ++++++----
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/include/dynd/callables/where_callable.hpp b/include/dynd/callables/where_callable.hpp
index 0b8fb21..934dc9d 100644
--- a/include/dynd/callables/where_callable.hpp
+++ b/include/dynd/callables/where_callable.hpp
@@ -35,9 +35,25 @@ namespace nd {
                       const std::map<std::string, ndt::type> &tp_vars) {
       cg.emplace_back([](kernel_builder &kb, kernel_request_t kernreq, char *data, const char *dst_arrmeta, size_t nsrc,
                          const char *const *src_arrmeta) {
-        kb.emplace_back<where_kernel>(
-            kernreq, data, reinterpret_cast<const ndt::var_dim_type::metadata_type *>(dst_arrmeta)->stride,
-            reinterpret_cast<const ndt::var_dim_type::metadata_type *>(dst_arrmeta)->blockref);
+        intptr_t stride = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(dst_arrmeta)->stride;
+        const memory_block &blockref = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(dst_arrmeta)->blockref;
+        switch (nsrc) {
+        case 2:
+          kb.emplace_back<where_kernel<2>>(kernreq, data, stride, blockref);
+          break;
+        case 3:
+          kb.emplace_back<where_kernel<3>>(kernreq, data, stride, blockref);
+          break;
+        case 4:
+          kb.emplace_back<where_kernel<4>>(kernreq, data, stride, blockref);
+          break;
+        case 5:
+          kb.emplace_back<where_kernel<5>>(kernreq, data, stride, blockref);
+          break;
+        default:
+          throw std::runtime_error("where with a predicate of " + std::to_string(nsrc - 1) +
+                                   " arguments is not implemented");
+        }
 
         kb(kernel_request_single, nullptr, nullptr, nsrc - 1, src_arrmeta);
       });
diff --git a/include/dynd/kernels/where_kernel.hpp b/include/dynd/kernels/where_kernel.hpp
index 6638c6c..7afdc90 100644
--- a/include/dynd/kernels/where_kernel.hpp
+++ b/include/dynd/kernels/where_kernel.hpp
@@ -10,7 +10,9 @@
 namespace dynd {
 namespace nd {
 
-  struct where_kernel : base_strided_kernel<where_kernel, 2> {
+  // N is the number of arguments, of which the last one is the state
+  template <size_t N>
+  struct where_kernel : base_strided_kernel<where_kernel<N>, N> {
     size_t &it;
     intptr_t ret_stride;
     memory_block dst_memory_block;
@@ -23,10 +25,10 @@ namespace nd {
 
     void single(char *ret, char *const *src) {
       bool child_ret;
-      get_child()->single(reinterpret_cast<char *>(&child_ret), src);
+      this->get_child()->single(reinterpret_cast<char *>(&child_ret), src);
 
       if (child_ret) {
-        const state &src1 = *reinterpret_cast<state *>(src[1]);
+        const state &st = *reinterpret_cast<state *>(src[N - 1]);
 
         size_t &size = reinterpret_cast<ndt::var_dim_type::data_type *>(ret)->size;
         if (size == 0) {
@@ -41,7 +43,7 @@ namespace nd {
 
         intptr_t *index = reinterpret_cast<intptr_t *>(reinterpret_cast<ndt::var_dim_type::data_type *>(ret)->begin +
                                                        (size - 1) * ret_stride);
-        *index = src1.index[0];
+        *index = st.index[0];
       }
     }
 
-- 
2.43.0


From d015936173d1361c4d60ca869f7f406d9f3c0dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:23 +0000
Subject: [PATCH 065/106] fix: string search no longer skips the text right
 after a match

---
 include/dynd/string_search.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dynd/string_search.hpp b/include/dynd/string_search.hpp
index 60111e7..1fc6dcc 100644
--- a/include/dynd/string_search.hpp
+++ b/include/dynd/string_search.hpp
@@ -147,6 +147,7 @@ namespace detail {
             return;
           }
           i = i + mlast;
+          continue;
         }
         /* miss: check if next character is part of pattern */
         if (i < w && !bloom.has_char(ss[i + 1])) {
-- 
2.43.0


From f69ed88c061667d886751fa0ff744e5b1b20759c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:24 +0000
Subject: [PATCH 066/106] fix: searching for one character no longer reads past
 the end of the text

---
 include/dynd/string_search.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/string_search.hpp b/include/dynd/string_search.hpp
index 1fc6dcc..ce05cd8 100644
--- a/include/dynd/string_search.hpp
+++ b/include/dynd/string_search.hpp
@@ -43,7 +43,7 @@ namespace detail {
     else {
       const char *s = haystack;
       while (s < haystack + n) {
-        void *candidate = memchr((void *)s, needle, n);
+        void *candidate = memchr((void *)s, needle, haystack + n - s);
         if (candidate == NULL) {
           return;
         }
-- 
2.43.0


From eb3b49a9be77eed6bcccf4aacb6f1c60ac038c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:24 +0000
Subject: [PATCH 067/106] fix: searching backwards for one character looks at
 the whole text

---
 include/dynd/string_search.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/string_search.hpp b/include/dynd/string_search.hpp
index ce05cd8..39b5707 100644
--- a/include/dynd/string_search.hpp
+++ b/include/dynd/string_search.hpp
@@ -59,7 +59,7 @@ namespace detail {
   template <class match_handler>
   void string_search_1char_reverse(const char *haystack, size_t n, char needle, match_handler &handle_match)
   {
-    for (size_t i = n - 1; i <= 0; --i) {
+    for (size_t i = n; i-- > 0;) {
       if (haystack[i] == needle) {
         if (handle_match(i)) {
           return;
-- 
2.43.0


From 94bf908e9c348555b0eb07a16a7985ff4d326310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:24 +0000
Subject: [PATCH 068/106] fix: resizing a short string sets its size instead of
 combining it with the old one

---
 include/dynd/types/sso_bytestring.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dynd/types/sso_bytestring.hpp b/include/dynd/types/sso_bytestring.hpp
index 37f7ae0..ac6fce0 100644
--- a/include/dynd/types/sso_bytestring.hpp
+++ b/include/dynd/types/sso_bytestring.hpp
@@ -180,7 +180,8 @@ public:
   void resize(size_t new_size) {
     reserve(new_size);
     if (is_sso()) {
-      m_size = static_cast<int64_t>(static_cast<uint64_t>(m_size) | (static_cast<uint64_t>(new_size) << 56));
+      const uint64_t low_bytes = static_cast<uint64_t>(m_size) & 0x00ffffffffffffffULL;
+      m_size = static_cast<int64_t>(low_bytes | (static_cast<uint64_t>(new_size) << 56));
       // Always keep the unused SSO bytes as 0 for unique representation and NUL-padding when that is enabled
       memset(sso_data() + new_size, 0, 15u - new_size);
     } else {
-- 
2.43.0


From aed6d2383e03db4f6dd9917d0928ccf70f145925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:24 +0000
Subject: [PATCH 069/106] fix: assigning a string to itself or a part of itself

---
 include/dynd/types/sso_bytestring.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/dynd/types/sso_bytestring.hpp b/include/dynd/types/sso_bytestring.hpp
index ac6fce0..1dbdb63 100644
--- a/include/dynd/types/sso_bytestring.hpp
+++ b/include/dynd/types/sso_bytestring.hpp
@@ -34,10 +34,11 @@ protected:
   constexpr size_t sso_capacity() const { return 15u - NulPadding; }
   /** When the object has no memory allocated and `size` is <= capacity(), do straight SSO assignment */
   void sso_assign(const char *data, size_t size) {
-      m_size = static_cast<int64_t>(static_cast<uint64_t>(size) << 56);
-      DYND_MEMCPY(sso_data(), data, size);
+      // The data may be inside of the object itself
+      memmove(sso_data(), data, size);
       // Zero out the rest of the bytes for a unique representation
       memset(sso_data() + size, 0, 15u - size);
+      sso_data()[15] = static_cast<char>(size);
   }
 
   /** When SSO is not used, the size is stored in m_size */
@@ -116,7 +117,7 @@ public:
       }
     } else if (size <= capacity()) {
       char *heapdata = heap_data();
-      DYND_MEMCPY(heapdata, bytestr, size);
+      memmove(heapdata, bytestr, size);
       if (NulPadding) {
         heapdata[size] = 0;
       }
-- 
2.43.0


From 28c9a06905fcfca86e2293a66186843f046108b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:24 +0000
Subject: [PATCH 070/106] fix: appending a string or a part of it to itself

---
 include/dynd/types/sso_bytestring.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dynd/types/sso_bytestring.hpp b/include/dynd/types/sso_bytestring.hpp
index 1dbdb63..f0860e9 100644
--- a/include/dynd/types/sso_bytestring.hpp
+++ b/include/dynd/types/sso_bytestring.hpp
@@ -147,8 +147,10 @@ public:
 
   void append(const char *bytestr, size_t bssize) {
     size_t old_size = size();
+    // The data to append may be inside of the string itself, which growing moves
+    size_t offset = static_cast<size_t>(reinterpret_cast<uintptr_t>(bytestr) - reinterpret_cast<uintptr_t>(data()));
     resize_grow(old_size + bssize);
-    DYND_MEMCPY(data() + old_size, bytestr, bssize);
+    DYND_MEMCPY(data() + old_size, offset < old_size ? data() + offset : bytestr, bssize);
   }
 
   void clear() {
-- 
2.43.0


From eeb08871a73d4eb2dfb5a30f48aee59144d2812f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:24 +0000
Subject: [PATCH 071/106] fix: string concatenation and replacement in place

---
 include/dynd/string.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/dynd/string.hpp b/include/dynd/string.hpp
index e492607..3e44ae9 100644
--- a/include/dynd/string.hpp
+++ b/include/dynd/string.hpp
@@ -17,6 +17,16 @@ namespace dynd {
 template <class StringType>
 void string_concat(size_t nop, StringType &d, const StringType *const *s)
 {
+  for (size_t i = 0; i != nop; ++i) {
+    if (s[i] == &d) {
+      // The destination is one of the strings
+      StringType tmp;
+      string_concat(nop, tmp, s);
+      d = std::move(tmp);
+      return;
+    }
+  }
+
   // Get the size of the concatenated string
   size_t size = 0;
   for (size_t i = 0; i != nop; ++i) {
@@ -82,6 +92,12 @@ intptr_t string_rfind(const StringType &haystack, const StringType &needle)
 template <class StringType>
 void string_replace(StringType &dst, const StringType &src, const StringType &old_str, const StringType &new_str)
 {
+  if (&dst == &src || &dst == &old_str || &dst == &new_str) {
+    StringType tmp;
+    string_replace(tmp, src, old_str, new_str);
+    dst = std::move(tmp);
+    return;
+  }
 
   if (old_str.size() == 0 || old_str.size() > src.size()) {
     /* Just copy -- there's nothing to replace */
-- 
2.43.0


From 852a7eca592994430465f181e7b3b155638d72a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:54 +0000
Subject: [PATCH 072/106] fix: a complex number is unequal to a real one
 exactly when it is not equal

---
 include/dynd/complex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/complex.hpp b/include/dynd/complex.hpp
index 8de7b49..981a827 100644
--- a/include/dynd/complex.hpp
+++ b/include/dynd/complex.hpp
@@ -254,7 +254,7 @@ bool operator!=(complex<T> lhs, complex<U> rhs) {
 
 template <typename T, typename U>
 bool operator!=(complex<T> lhs, U rhs) {
-  return lhs.m_real == rhs && !lhs.m_imag;
+  return !(lhs == rhs);
 }
 
 template <typename T>
-- 
2.43.0


From c9e45a2014d266c8ad53bc2dbc21554a25d0e486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:54 +0000
Subject: [PATCH 073/106] fix: the truth value of float16

---
 include/dynd/float16.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dynd/float16.hpp b/include/dynd/float16.hpp
index d4f320c..430426d 100644
--- a/include/dynd/float16.hpp
+++ b/include/dynd/float16.hpp
@@ -202,9 +202,9 @@ public:
 
   float16 operator-() const { return float16(-static_cast<float>(*this)); }
 
-  bool operator!() const { return (0x7fffu | m_bits) == 0; }
+  bool operator!() const { return (0x7fffu & m_bits) == 0; }
 
-  explicit operator bool() const { return (0x7ffu | m_bits) != 0; }
+  explicit operator bool() const { return (0x7fffu & m_bits) != 0; }
 };
 
 inline float16 operator+(const float16 &DYND_UNUSED(lhs), const float16 &DYND_UNUSED(rhs))
-- 
2.43.0


From 53fea3bef651288f55083e485521b6b902be39a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:20 +0000
Subject: [PATCH 074/106] fix: an array of pointers does not try to destroy
 what they point to

---
 include/dynd/types/pointer_type.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dynd/types/pointer_type.hpp b/include/dynd/types/pointer_type.hpp
index 8bdb036..5498390 100644
--- a/include/dynd/types/pointer_type.hpp
+++ b/include/dynd/types/pointer_type.hpp
@@ -38,7 +38,9 @@ namespace ndt {
   public:
     pointer_type(type_id_t id, const type &target_tp = make_type<any_kind_type>())
         : base_type(id, sizeof(char *), alignof(char *),
-                    target_tp.get_flags() | type_flag_zeroinit | type_flag_blockref,
+                    // What is pointed to belongs to the memory block, which also destroys it
+                    (target_tp.get_flags() & ~(type_flag_construct | type_flag_destructor)) | type_flag_zeroinit |
+                        type_flag_blockref,
                     target_tp.get_arrmeta_size() + sizeof(pointer_type_arrmeta), 0, 0),
           m_target_tp(target_tp) {}
 
-- 
2.43.0


From 7f0e4ad085892be1c1fcea98abe619a278fdbb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:20 +0000
Subject: [PATCH 075/106] fix: an operator which is not defined for its
 operands raises an error instead of recursing forever

---
 .../dynd/callables/elwise_entry_callable.hpp    | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/dynd/callables/elwise_entry_callable.hpp b/include/dynd/callables/elwise_entry_callable.hpp
index 051cb22..3a115e7 100644
--- a/include/dynd/callables/elwise_entry_callable.hpp
+++ b/include/dynd/callables/elwise_entry_callable.hpp
@@ -5,6 +5,9 @@
 
 #pragma once
 
+#include <sstream>
+#include <stdexcept>
+
 #include <dynd/callables/base_callable.hpp>
 #include <dynd/callables/elwise_callable.hpp>
 #include <dynd/callables/elwise_dispatch_callable.hpp>
@@ -71,8 +74,18 @@ namespace nd {
         }
 
         if (data.ndim == 0) {
-          return data.child->resolve(this, nullptr, cg, dst_tp.is_variadic() ? child_ret_tp : dst_tp, nsrc, src_tp,
-                                     nkwd, kwds, tp_vars);
+          const ndt::type &scalar_dst_tp = dst_tp.is_variadic() ? child_ret_tp : dst_tp;
+          if (!m_child && scalar_dst_tp == dst_tp) {
+            // Without dimensions to take off, the caller would come back here with the same types forever
+            std::stringstream ss;
+            ss << "signature not found for (";
+            for (size_t i = 0; i < nsrc; ++i) {
+              ss << src_tp[i] << ", ";
+            }
+            ss << ")";
+            throw std::out_of_range(ss.str());
+          }
+          return data.child->resolve(this, nullptr, cg, scalar_dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
         }
 
         static callable table[8] = {
-- 
2.43.0


From 839f29ca5e90045725d839c825ada8dadc75da77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:38 +0000
Subject: [PATCH 076/106] fix: printing an array whose later elements are wider
 than a row does not divide by zero

---
 src/dynd/type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynd/type.cpp b/src/dynd/type.cpp
index 3b2793a..08b1ee6 100644
--- a/src/dynd/type.cpp
+++ b/src/dynd/type.cpp
@@ -724,7 +724,7 @@ void dynd::strided_array_summarized(std::ostream &o, const ndt::type &tp, const
       total_cols = (max_num_cols + 2) * (leading.size() + trailing.size());
     }
 
-    intptr_t per_row = packing_cols / (max_num_cols + 2);
+    intptr_t per_row = max<intptr_t>(packing_cols / (max_num_cols + 2), 1);
 
     if (leading.size() + trailing.size() == (size_t)dim_size) {
       // Combine the lists if the total size is covered
-- 
2.43.0


From f6244a367f1f297d16458d4111948566ba906012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:38 +0000
Subject: [PATCH 077/106] fix: printing an array separates its rows also when
 the last one has a single element

---
 src/dynd/type.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynd/type.cpp b/src/dynd/type.cpp
index 08b1ee6..e0b1bda 100644
--- a/src/dynd/type.cpp
+++ b/src/dynd/type.cpp
@@ -750,7 +750,7 @@ void dynd::strided_array_summarized(std::ostream &o, const ndt::type &tp, const
       for (j = 1; j < per_row && i < i_size; ++j, ++i) {
         o << ", " << setw(max_num_cols) << leading[i] << setw(0);
       }
-      if (i < i_size - 1) {
+      if (i < i_size) {
         o << ",\n";
       }
     }
@@ -764,7 +764,7 @@ void dynd::strided_array_summarized(std::ostream &o, const ndt::type &tp, const
         for (j = 1; j < per_row && i < i_size; ++j, ++i) {
           o << ", " << setw(max_num_cols) << trailing[i] << setw(0);
         }
-        if (i < i_size - 1) {
+        if (i < i_size) {
           o << ",\n";
         }
       }
-- 
2.43.0


From b91eab1a1784f1760c629890afbb08584a6fd9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:38 +0000
Subject: [PATCH 078/106] fix: printing an array of multi-line elements
 separates its leading from its trailing elements

---
 src/dynd/type.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dynd/type.cpp b/src/dynd/type.cpp
index e0b1bda..388657c 100644
--- a/src/dynd/type.cpp
+++ b/src/dynd/type.cpp
@@ -694,6 +694,8 @@ void dynd::strided_array_summarized(std::ostream &o, const ndt::type &tp, const
     if (leading.size() != (size_t)dim_size) {
       if ((size_t)dim_size > (leading.size() + trailing.size())) {
         o << ",\n ...\n";
+      } else if (!trailing.empty()) {
+        o << ",\n";
       }
       if (!trailing.empty()) {
         print_indented(o, " ", trailing.front());
-- 
2.43.0


From a1a44f0f1f990c09e1337f7ddecd47f7a0865ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:55 +0000
Subject: [PATCH 079/106] fix: printing an array of eight multi-line elements
 shows the last one, not the seventh, at the end

---
 src/dynd/type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynd/type.cpp b/src/dynd/type.cpp
index 388657c..70b4895 100644
--- a/src/dynd/type.cpp
+++ b/src/dynd/type.cpp
@@ -659,7 +659,7 @@ void dynd::strided_array_summarized(std::ostream &o, const ndt::type &tp, const
     summarize_stats(leading.back(), num_rows, max_num_cols);
   }
   // Get trailing strings
-  for (itrail = max(dim_size - trailing_count, ilead + 1); itrail < dim_size; ++itrail) {
+  for (itrail = max(dim_size - trailing_count, ilead); itrail < dim_size; ++itrail) {
     stringstream ss;
     tp.print_data(ss, arrmeta, data + itrail * stride);
     trailing.push_back(ss.str());
-- 
2.43.0


From e54ca823121caad6aa04f46b70891cf320a00530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:07 +0000
Subject: [PATCH 080/106] fix: axis_perm_to_strides gives the strides, not the
 dimension sizes

---
 src/dynd/shape_tools.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/dynd/shape_tools.cpp b/src/dynd/shape_tools.cpp
index db02636..d60d070 100644
--- a/src/dynd/shape_tools.cpp
+++ b/src/dynd/shape_tools.cpp
@@ -127,7 +127,6 @@ void dynd::axis_perm_to_strides(intptr_t ndim, const int *axis_perm, const intpt
     int i_perm = axis_perm[i];
     intptr_t dim_size = shape[i_perm];
     out_strides[i_perm] = dim_size > 1 ? element_size : 0;
-    out_strides[i_perm] = dim_size;
     element_size *= dim_size;
   }
 }
-- 
2.43.0


From ced92ecf47e65225493065278f4db2417cf03737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:30 +0000
Subject: [PATCH 081/106] fix: iterating arrays together repeats scalars and
 dimensions of size one instead of reading past them

---
 include/dynd/type.hpp             | 7 ++++---
 src/dynd/types/fixed_dim_type.cpp | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/dynd/type.hpp b/include/dynd/type.hpp
index 6f92e37..46d7597 100644
--- a/include/dynd/type.hpp
+++ b/include/dynd/type.hpp
@@ -603,13 +603,13 @@ namespace ndt {
 
     /** Destructs any references or other state contained in the iterdata */
     void iterdata_destruct(iterdata_common *iterdata, intptr_t ndim) const {
-      if (!is_builtin()) {
+      if (!is_builtin() && ndim != 0) {
         m_ptr->iterdata_destruct(iterdata, ndim);
       }
     }
 
     size_t get_broadcasted_iterdata_size(intptr_t ndim) const {
-      if (is_builtin()) {
+      if (is_builtin() || ndim == 0) {
         return sizeof(iterdata_broadcasting_terminator);
       } else {
         return m_ptr->get_iterdata_size(ndim) + sizeof(iterdata_broadcasting_terminator);
@@ -632,8 +632,9 @@ namespace ndt {
     void broadcasted_iterdata_construct(iterdata_common *iterdata, const char **inout_arrmeta, intptr_t ndim,
                                         const intptr_t *shape, type &out_uniform_tp) const {
       size_t size;
-      if (is_builtin()) {
+      if (is_builtin() || ndim == 0) {
         size = 0;
+        out_uniform_tp = *this;
       } else {
         size = m_ptr->iterdata_construct(iterdata, inout_arrmeta, ndim, shape, out_uniform_tp);
       }
diff --git a/src/dynd/types/fixed_dim_type.cpp b/src/dynd/types/fixed_dim_type.cpp
index 5b717e9..945af91 100644
--- a/src/dynd/types/fixed_dim_type.cpp
+++ b/src/dynd/types/fixed_dim_type.cpp
@@ -353,7 +353,8 @@ size_t ndt::fixed_dim_type::iterdata_construct(iterdata_common *iterdata, const
   id->common.incr = &iterdata_incr;
   id->common.reset = &iterdata_reset;
   id->data = NULL;
-  id->stride = md->stride;
+  // A dimension of size one repeats its element
+  id->stride = md->dim_size > 1 ? md->stride : 0;
 
   return inner_size + sizeof(fixed_dim_type_iterdata);
 }
-- 
2.43.0


From f25015dcb6445064c77ef8a7fa6a8c1ef502613e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:15 +0000
Subject: [PATCH 082/106] fix: equals_exact of var dimensions of different
 sizes is false instead of an error

---
 src/dynd/array.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dynd/array.cpp b/src/dynd/array.cpp
index 345543a..6053d9d 100644
--- a/src/dynd/array.cpp
+++ b/src/dynd/array.cpp
@@ -310,6 +310,9 @@ bool nd::array::equals_exact(const array &rhs) const {
   } else if (get_type().get_id() == var_dim_id) {
     // If there's a leading var dimension, convert it to strided and compare
     // (Note: this is an inefficient hack)
+    if (get_dim_size() != rhs.get_dim_size()) {
+      return false;
+    }
     ndt::type tp = ndt::make_fixed_dim(get_shape()[0], get_type().extended<ndt::base_dim_type>()->get_element_type());
     return nd::old_view(*this, tp).equals_exact(nd::old_view(rhs, tp));
   } else {
-- 
2.43.0


From 60ac15db44f80fb39334e51e592f009237bc1e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:52 +0000
Subject: [PATCH 083/106] fix: the axis order of an array compares each stride
 with the next one, not with the first

---
 src/dynd/shape_tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynd/shape_tools.cpp b/src/dynd/shape_tools.cpp
index d60d070..2ddf84c 100644
--- a/src/dynd/shape_tools.cpp
+++ b/src/dynd/shape_tools.cpp
@@ -481,7 +481,7 @@ axis_order_classification_t dynd::classify_strided_axis_order(intptr_t current_s
       axis_order_classification_t aoc;
       // Get the classification from the next dimension onward
       if (edt->get_ndim() > 1) {
-        aoc = classify_strided_axis_order(current_stride, edt->get_element_type(),
+        aoc = classify_strided_axis_order(estride, edt->get_element_type(),
                                           element_arrmeta + sizeof(fixed_dim_type_arrmeta));
       }
       else {
-- 
2.43.0


From 2a8196f102752291abbe77c7dc55635582ff129d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:36 +0000
Subject: [PATCH 084/106] fix: a copy keeps the memory order of an array with
 reversed axes too

---
 src/dynd/types/fixed_dim_type.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dynd/types/fixed_dim_type.cpp b/src/dynd/types/fixed_dim_type.cpp
index 945af91..ad38e5a 100644
--- a/src/dynd/types/fixed_dim_type.cpp
+++ b/src/dynd/types/fixed_dim_type.cpp
@@ -451,10 +451,12 @@ void ndt::fixed_dim_type::reorder_default_constructed_strides(char *dst_arrmeta,
       if (stride == numeric_limits<intptr_t>::max()) {
         break;
       }
-      if (previous_stride != 0 && previous_stride < stride) {
+      // A negative stride counts by its size, as in strides_to_axis_perm
+      intptr_t abs_stride = stride < 0 ? -stride : stride;
+      if (previous_stride != 0 && previous_stride < abs_stride) {
         c_order = false;
       }
-      previous_stride = stride;
+      previous_stride = abs_stride;
     }
     strides[i] = stride;
   }
-- 
2.43.0


From 395b51c29eb77cc31be7787cd1ec6c21254091ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:41 +0000
Subject: [PATCH 085/106] fix: nd::concatenate accepts empty arrays

---
 src/dynd/array.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/dynd/array.cpp b/src/dynd/array.cpp
index 6053d9d..398ea80 100644
--- a/src/dynd/array.cpp
+++ b/src/dynd/array.cpp
@@ -860,8 +860,13 @@ nd::array nd::concatenate(const nd::array &x, const nd::array &y) {
   }
 
   nd::array res = nd::empty(x.get_dim_size() + y.get_dim_size(), x.get_dtype());
-  res(irange(0, x.get_dim_size())).assign(x);
-  res(irange(x.get_dim_size(), res.get_dim_size())).assign(y);
+  // An empty range at the end of a dimension is out of bounds, so empty inputs are skipped
+  if (x.get_dim_size() > 0) {
+    res(irange(0, x.get_dim_size())).assign(x);
+  }
+  if (y.get_dim_size() > 0) {
+    res(irange(x.get_dim_size(), res.get_dim_size())).assign(y);
+  }
 
   return res;
 }
-- 
2.43.0


From 0bdcca3926d5034d0ef768c88de3a6c8f001fe3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:41 +0000
Subject: [PATCH 086/106] fix: the metadata size of std::tuple is a size, not a
 bool

---
 include/dynd/types/tuple_type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/types/tuple_type.hpp b/include/dynd/types/tuple_type.hpp
index bdaaca6..c0a3267 100644
--- a/include/dynd/types/tuple_type.hpp
+++ b/include/dynd/types/tuple_type.hpp
@@ -251,7 +251,7 @@ namespace ndt {
   struct traits<std::tuple<ElementTypes...>> {
     static const bool is_same_layout = false;
 
-    static const bool metadata_size = traits<tuple<ElementTypes...>>::metadata_size;
+    static constexpr size_t metadata_size = traits<tuple<ElementTypes...>>::metadata_size;
 
     static type equivalent() { return make_type<tuple_type>({make_type<ElementTypes>()...}); }
   };
-- 
2.43.0


From 471350685f8d15ad050bf31eae5c8fb07d5f2039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:41 +0000
Subject: [PATCH 087/106] fix: nd::array(values, tp) works for a scalar, which
 it created read-only

---
 include/dynd/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/array.hpp b/include/dynd/array.hpp
index fa619d6..7ca4ead 100644
--- a/include/dynd/array.hpp
+++ b/include/dynd/array.hpp
@@ -60,7 +60,7 @@ namespace nd {
         : buffer((values.get_type().get_ndim() == tp.get_ndim())
                      ? tp
                      : values.get_type().with_replaced_dtype(tp, tp.get_ndim()),
-                 buffer_empty_init_tag()) {
+                 readwrite_access_flags, buffer_empty_init_tag()) {
       assign(values);
     }
 
-- 
2.43.0


From 26a6717a291221e5f21af3fb884a0585b20036b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:41 +0000
Subject: [PATCH 088/106] fix: initializing from nested containers of size one
 advances to the next element

---
 include/dynd/kernels/init_kernel.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dynd/kernels/init_kernel.hpp b/include/dynd/kernels/init_kernel.hpp
index 0758d83..ffdfa75 100644
--- a/include/dynd/kernels/init_kernel.hpp
+++ b/include/dynd/kernels/init_kernel.hpp
@@ -161,12 +161,11 @@ namespace nd {
       typedef value_type_t<ContainerType> value_type;
 
       size_t size;
-      intptr_t stride;
+      size_t data_size;
       nd::init_kernel<value_type> child;
 
       init_kernel(const ndt::type &tp, const char *metadata)
-          : size(reinterpret_cast<const size_stride_t *>(metadata)->dim_size),
-            stride(reinterpret_cast<const size_stride_t *>(metadata)->stride),
+          : size(reinterpret_cast<const size_stride_t *>(metadata)->dim_size), data_size(tp.get_default_data_size()),
             child(tp.extended<ndt::base_dim_type>()->get_element_type(), metadata + sizeof(size_stride_t)) {}
 
       /*
@@ -183,7 +182,8 @@ namespace nd {
       void contiguous(char *data, const ContainerType *values, size_t size) {
         for (size_t i = 0; i < size; ++i) {
           single(data, values[i]);
-          data += values[i].size() * stride;
+          // Not size * stride, because the stride of a dimension of size one is zero
+          data += data_size;
         }
       }
     };
-- 
2.43.0


From 57f91e21a4774be9e87aa4f86535f2959e4c80b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:57 +0000
Subject: [PATCH 089/106] fix: arrays of nested vectors and lists whose sizes
 differ or that are empty are initialized as var dimensions

---
 include/dynd/kernels/init_kernel.hpp | 19 +++++--------------
 include/dynd/type.hpp                |  6 ++++++
 2 files changed, 11 insertions(+), 14 deletions(-)

diff --git a/include/dynd/kernels/init_kernel.hpp b/include/dynd/kernels/init_kernel.hpp
index ffdfa75..abc5690 100644
--- a/include/dynd/kernels/init_kernel.hpp
+++ b/include/dynd/kernels/init_kernel.hpp
@@ -224,7 +224,7 @@ namespace nd {
       void single(char *data, const ContainerType &values) {
         reinterpret_cast<ndt::var_dim_type::data_type *>(data)->begin = memblock->alloc(values.size());
         reinterpret_cast<ndt::var_dim_type::data_type *>(data)->size = values.size();
-        child.contiguous(reinterpret_cast<ndt::var_dim_type::data_type *>(data)->begin, values.begin(), values.size());
+        child.contiguous(reinterpret_cast<ndt::var_dim_type::data_type *>(data)->begin, front_data(values), values.size());
       }
 
       void contiguous(char *data, const ContainerType *values, size_t size) {
@@ -237,18 +237,9 @@ namespace nd {
 
   } // namespace dynd::nd::detail
 
-  template <typename ContainerType, typename Enable = void>
-  struct container_init;
-
-  template <typename ValueType>
-  struct container_init<std::initializer_list<ValueType>,
-                        std::enable_if_t<ndt::traits<std::initializer_list<ValueType>>::ndim != 1>>
-      : detail::init_kernel<ndt::fixed_dim_type, std::initializer_list<ValueType>> {
-    using detail::init_kernel<ndt::fixed_dim_type, std::initializer_list<ValueType>>::init_kernel;
-  };
-
+  // The sizes of nested containers can differ, so that any dimension but the first may be a var dimension
   template <typename ContainerType>
-  struct container_init<ContainerType, std::enable_if_t<ndt::traits<ContainerType>::ndim == 1>> {
+  struct container_init {
     typedef value_type_t<ContainerType> value_type;
 
     std::aligned_union_t<1, detail::init_kernel<ndt::fixed_dim_type, ContainerType>,
@@ -312,8 +303,8 @@ namespace nd {
   };
 
   template <typename T>
-  struct init_kernel<std::vector<T>> : detail::init_kernel<ndt::fixed_dim_type, std::vector<T>> {
-    using detail::init_kernel<ndt::fixed_dim_type, std::vector<T>>::init_kernel;
+  struct init_kernel<std::vector<T>> : container_init<std::vector<T>> {
+    using container_init<std::vector<T>>::container_init;
   };
 
   template <typename T, T... first, T... second>
diff --git a/include/dynd/type.hpp b/include/dynd/type.hpp
index 46d7597..9f57eb0 100644
--- a/include/dynd/type.hpp
+++ b/include/dynd/type.hpp
@@ -5,6 +5,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <iostream>
 #include <stdexcept>
 
@@ -1015,6 +1016,11 @@ namespace ndt {
       res[0] = values.size();
 
       auto iter = values.begin();
+      if (iter == values.end()) {
+        std::fill(res + 1, res + ndim, 0);
+        return;
+      }
+
       ndt::traits<typename ContainerType::value_type>::shape(res + 1, *iter);
 
       while (++iter != values.end()) {
-- 
2.43.0


From 346b601d9b3fdae1ddc0f12d50b55c2b908a5390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:13 +0000
Subject: [PATCH 090/106] fix: type constructor arguments accept empty lists,
 white space before integers and datashapes which begin with a size

---
 src/dynd/types/datashape_parser.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/dynd/types/datashape_parser.cpp b/src/dynd/types/datashape_parser.cpp
index 52e2358..ef75963 100644
--- a/src/dynd/types/datashape_parser.cpp
+++ b/src/dynd/types/datashape_parser.cpp
@@ -121,6 +121,7 @@ static nd::buffer parse_integer_list(const char *&rbegin, const char *end) {
 
   vector<int64_t> dlist;
   const char *strbegin, *strend;
+  skip_whitespace_and_pound_comments(begin, end);
   if (!parse_int_no_ws(begin, end, strbegin, strend)) {
     return nd::buffer();
   }
@@ -186,8 +187,13 @@ static nd::buffer parse_type_arg(const char *&rbegin, const char *end, map<std::
 
   const char *strbegin, *strend;
   if (parse_int_no_ws(begin, end, strbegin, strend)) {
-    rbegin = begin;
-    return parse<int64_t>(strbegin, strend);
+    const char *saved_begin = begin;
+    if (!datashape::parse_token(begin, end, '*')) {
+      rbegin = saved_begin;
+      return parse<int64_t>(strbegin, strend);
+    }
+    // It's the size of a fixed dimension, so a datashape
+    begin = strbegin;
   }
 
   std::string str;
@@ -198,6 +204,11 @@ static nd::buffer parse_type_arg(const char *&rbegin, const char *end, map<std::
 
   if (parse_token(begin, end, '[')) {
     nd::buffer result;
+    const char *saved_begin = begin;
+    if (datashape::parse_token(begin, end, ']')) {
+      rbegin = begin;
+      return nd::buffer::empty(ndt::make_fixed_dim(0, ndt::make_type<void>()));
+    }
     result = parse_integer_list(begin, end);
     if (result.is_null()) {
       result = parse_string_list(begin, end);
@@ -206,7 +217,8 @@ static nd::buffer parse_type_arg(const char *&rbegin, const char *end, map<std::
       result = parse_datashape_list(begin, end, symtable);
     }
     if (result.is_null()) {
-      result = nd::buffer::empty(ndt::make_fixed_dim(0, ndt::make_type<void>()));
+      throw datashape::internal_parse_error(saved_begin,
+                                            "Expected a list of integers, strings or dynd types, or a terminating ']'");
     }
     rbegin = begin;
     return result;
-- 
2.43.0


From 1ec2ea6228f981e8fa0fb277cc432d28af37e3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:06 +0000
Subject: [PATCH 091/106] fix: substituting a shape without dimensions leaves
 the type as it is instead of reading a size

---
 src/dynd/types/substitute_shape.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynd/types/substitute_shape.cpp b/src/dynd/types/substitute_shape.cpp
index 2bd6c48..3405f9b 100644
--- a/src/dynd/types/substitute_shape.cpp
+++ b/src/dynd/types/substitute_shape.cpp
@@ -40,7 +40,7 @@ static void substitute_shape_visitor(const ndt::type &tp, intptr_t DYND_UNUSED(a
                                      ndt::type &out_transformed_tp, bool &out_was_transformed) {
   substitute_shape_data *ssd = reinterpret_cast<substitute_shape_data *>(extra);
   intptr_t ndim = ssd->ndim, i = ssd->i;
-  if (!tp.is_scalar()) {
+  if (!tp.is_scalar() && i < ndim) {
     intptr_t dim_size = ssd->shape[i];
     ndt::type subtp = tp.extended<ndt::base_dim_type>()->get_element_type();
     if (i + 1 < ndim) {
-- 
2.43.0


From fcf46d4c88918b9960e91cd646b926bc80cf0d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:58 +0000
Subject: [PATCH 092/106] fix: assigning an option to a type which is not one
 is not lossless

---
 src/dynd/types/option_type.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dynd/types/option_type.cpp b/src/dynd/types/option_type.cpp
index ee35eed..437b379 100644
--- a/src/dynd/types/option_type.cpp
+++ b/src/dynd/types/option_type.cpp
@@ -152,9 +152,12 @@ ndt::type ndt::option_type::get_type_at_dimension(char **inout_arrmeta, intptr_t
 
 bool ndt::option_type::is_lossless_assignment(const type &dst_tp, const type &src_tp) const {
   if (dst_tp.extended() == this) {
-    return ::is_lossless_assignment(m_value_tp, src_tp);
+    return ::is_lossless_assignment(m_value_tp, src_tp.get_id() == option_id
+                                                    ? src_tp.extended<option_type>()->get_value_type()
+                                                    : src_tp);
   } else {
-    return ::is_lossless_assignment(dst_tp, m_value_tp);
+    // A missing value has no counterpart in a type which is not an option
+    return false;
   }
 }
 
-- 
2.43.0


From 1d3a36cbe188716c9ea807a4a134ddd673adce3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:58 +0000
Subject: [PATCH 093/106] fix: promoting float16 with an integer gives float32
 in either order

---
 src/dynd/type_promotion.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dynd/type_promotion.cpp b/src/dynd/type_promotion.cpp
index 715ae58..b822545 100644
--- a/src/dynd/type_promotion.cpp
+++ b/src/dynd/type_promotion.cpp
@@ -132,11 +132,12 @@ ndt::type dynd::promote_types_arithmetic(const ndt::type &tp0, const ndt::type &
         return tp0_val;
       }
       switch (tp1_val.get_base_id()) {
-      // Integer type sizes don't affect float type sizes
+      // Integer type sizes don't affect float type sizes, except
+      // require at least float32
       case bool_kind_id:
       case int_kind_id:
       case uint_kind_id:
-        return tp0_val;
+        return tp0_val.unchecked_get_builtin_id() != float16_id ? tp0_val : ndt::make_type<float>();
       case float_kind_id:
         return ndt::type(reinterpret_cast<ndt::base_type *>(max(
                              max(tp0_val.unchecked_get_builtin_id(), tp1_val.unchecked_get_builtin_id()), float32_id)),
-- 
2.43.0


From 741b0e7e3fccb5282e8c0b126fd29198ce77a4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:33 +0000
Subject: [PATCH 094/106] fix: count the elements of a range with unsigned
 arithmetic

The difference of the ends or the negated step does not fit the signed
type when they are far apart, which made such ranges empty.
---
 src/dynd/array_range.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dynd/array_range.cpp b/src/dynd/array_range.cpp
index 5842e29..da1d1a0 100644
--- a/src/dynd/array_range.cpp
+++ b/src/dynd/array_range.cpp
@@ -54,13 +54,13 @@ struct range_counter {
       if (end <= begin) {
         return 0;
       }
-      return ((intptr_t)end - (intptr_t)begin + (intptr_t)step - 1) / (intptr_t)step;
+      // Unsigned, because the distance and the step can be too large for intptr_t
+      return (intptr_t)(((uintptr_t)end - (uintptr_t)begin - 1) / (uintptr_t)step + 1);
     } else if (step < 0) {
       if (end >= begin) {
         return 0;
       }
-      step = -step;
-      return ((intptr_t)begin - (intptr_t)end + (intptr_t)step - 1) / (intptr_t)step;
+      return (intptr_t)(((uintptr_t)begin - (uintptr_t)end - 1) / (0 - (uintptr_t)step) + 1);
     } else {
       throw std::runtime_error("nd::range cannot have a zero-sized step");
     }
@@ -78,7 +78,7 @@ struct range_counter<T, std::enable_if_t<is_unsigned_integral<T>::value>> {
       if (end <= begin) {
         return 0;
       }
-      return ((intptr_t)end - (intptr_t)begin + (intptr_t)step - 1) / (intptr_t)step;
+      return (intptr_t)(((uintptr_t)end - (uintptr_t)begin - 1) / (uintptr_t)step + 1);
     } else {
       throw std::runtime_error("nd::range cannot have a zero-sized step");
     }
-- 
2.43.0


From f24c1c408a2076608857e9ee3eb905ca43cd7b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:33 +0000
Subject: [PATCH 095/106] fix: type and fixed-size strings promote in either
 order

---
 src/dynd/type_promotion.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dynd/type_promotion.cpp b/src/dynd/type_promotion.cpp
index b822545..aeca49d 100644
--- a/src/dynd/type_promotion.cpp
+++ b/src/dynd/type_promotion.cpp
@@ -208,11 +208,13 @@ ndt::type dynd::promote_types_arithmetic(const ndt::type &tp0, const ndt::type &
   }
 
   // type, string -> type
-  if (tp0_val.get_id() == type_id && tp1_val.get_base_id() == string_kind_id) {
+  if (tp0_val.get_id() == type_id &&
+      (tp1_val.get_base_id() == string_kind_id || tp1_val.get_id() == fixed_string_id)) {
     return tp0_val;
   }
   // string, type -> type
-  if (tp0_val.get_base_id() == string_kind_id && tp1_val.get_id() == type_id) {
+  if ((tp0_val.get_base_id() == string_kind_id || tp0_val.get_id() == fixed_string_id) &&
+      tp1_val.get_id() == type_id) {
     return tp1_val;
   }
 
-- 
2.43.0


From cb5a067f783478585e9a24c309acb88d9175670b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:08 +0000
Subject: [PATCH 096/106] fix: entries inserted into the registry know their
 whole path

insert() gave the inserted entry a path without that of the entry it
is inserted into, and prefixed copies of entries twice.
---
 include/dynd/registry.hpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/include/dynd/registry.hpp b/include/dynd/registry.hpp
index 3b6e5ea..8d48eb3 100644
--- a/include/dynd/registry.hpp
+++ b/include/dynd/registry.hpp
@@ -21,7 +21,7 @@ public:
 
 private:
   std::string m_name;
-  bool m_is_namespace;
+  bool m_is_namespace = false;
   value_type m_value;
   namespace_type m_namespace;
   std::vector<observer> m_observers;
@@ -44,16 +44,10 @@ public:
   const std::string &path() const { return m_name; }
 
   void absolute(const std::string &name) {
-    if (m_name.empty()) {
-      m_name = name;
-    } else {
-      m_name = name + "." + m_name;
-    }
+    m_name = name;
 
-    if (m_is_namespace) {
-      for (auto &pair : m_namespace) {
-        pair.second.absolute(name);
-      }
+    for (auto &pair : m_namespace) {
+      pair.second.absolute(name + "." + pair.first);
     }
   }
 
@@ -72,7 +66,7 @@ public:
     }
 
     it = m_namespace.emplace(entry).first;
-    it->second.absolute(entry.first);
+    it->second.absolute(m_name.empty() ? entry.first : m_name + "." + entry.first);
 
     emit(entry.first.c_str(), &it->second);
   }
-- 
2.43.0


From 679415c55844a956bec205af5846538fd885f537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:08 +0000
Subject: [PATCH 097/106] fix: a type registration which is refused changes
 nothing

---
 src/dynd/type_registry.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/dynd/type_registry.cpp b/src/dynd/type_registry.cpp
index ce47cfb..efdad01 100644
--- a/src/dynd/type_registry.cpp
+++ b/src/dynd/type_registry.cpp
@@ -157,15 +157,16 @@ DYNDT_API void dynd::register_known_type_id_constructor(type_id_t id, ndt::type
   if (ii.singleton_type != ndt::type() || ii.construct_type != nullptr || ii.parse_type_args != nullptr) {
     throw runtime_error("Type ID " + to_string(id) + ", " + ii.name + ", already has type construction registerd");
   }
+  if (construct_type == nullptr && parse_type_args != nullptr) {
+    // If the type args parser is provided, the type constructor needs to be provided too
+    throw runtime_error(
+        "Type ID " + to_string(id) + ", " + ii.name +
+        ", type construction registration needs a type constructor function along with the type args parser");
+  }
   ii.singleton_type = std::move(singleton_type);
   if (construct_type != nullptr) {
     ii.construct_type = construct_type;
     // If the type args parser isn't provided, we can put in a default
     ii.parse_type_args = parse_type_args ? parse_type_args : &default_parse_type_args;
-  } else if (parse_type_args != nullptr) {
-    // If the type args parser is provided, the type constructor needs to be provided too
-    throw runtime_error(
-        "Type ID " + to_string(id) + ", " + ii.name +
-        ", type construction registration needs a type constructor function along with the type args parser");
   }
 }
-- 
2.43.0


From f1f4e7d0089da1fc3a146bf4c039b7d14eecfd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:08 +0000
Subject: [PATCH 098/106] fix: consume the empty argument list of a type
 constructor

---
 src/dynd/types/datashape_parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynd/types/datashape_parser.cpp b/src/dynd/types/datashape_parser.cpp
index ef75963..f4b17cf 100644
--- a/src/dynd/types/datashape_parser.cpp
+++ b/src/dynd/types/datashape_parser.cpp
@@ -310,6 +310,7 @@ nd::buffer datashape::parse_type_constr_args(const char *&rbegin, const char *en
   }
 
   if (datashape::parse_token(begin, end, ']')) {
+    rbegin = begin;
     return nd::buffer::empty(
         ndt::make_type<ndt::tuple_type>({ndt::make_type<ndt::tuple_type>(), ndt::make_type<ndt::struct_type>()}));
   }
-- 
2.43.0


From f5ac844b4bed7452786e5b041520785aecb627fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:41 +0000
Subject: [PATCH 099/106] fix: an empty range of a file can be memory-mapped

---
 include/dynd/memblock/memmap_memory_block.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/dynd/memblock/memmap_memory_block.hpp b/include/dynd/memblock/memmap_memory_block.hpp
index 5a1f9b3..412610a 100644
--- a/include/dynd/memblock/memmap_memory_block.hpp
+++ b/include/dynd/memblock/memmap_memory_block.hpp
@@ -196,6 +196,14 @@ namespace nd {
       m_mapOffset = begin - mapbegin;
       intptr_t mapsize = end - mapbegin;
 
+      // An empty range has nothing to map, and mmap refuses it
+      if (mapsize == 0) {
+        m_mapPointer = NULL;
+        *out_pointer = NULL;
+        *out_size = 0;
+        return;
+      }
+
       m_mapPointer = (char *)mmap(NULL, mapsize, PROT_READ | (readwrite ? PROT_WRITE : 0), MAP_SHARED, m_fd, mapbegin);
       if (m_mapPointer == (char *)MAP_FAILED) {
         close(m_fd);
@@ -216,7 +224,9 @@ namespace nd {
       CloseHandle(m_hFile);
 #else
       intptr_t mapsize = m_end - m_begin + m_mapOffset;
-      munmap((void *)m_mapPointer, mapsize);
+      if (mapsize != 0) {
+        munmap((void *)m_mapPointer, mapsize);
+      }
       close(m_fd);
 #endif
     }
-- 
2.43.0


From a343d2274be802b503417c1d60b1defe2664dc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:47 +0000
Subject: [PATCH 100/106] fix: the position of an error at the end of a
 datashape whose last line is complete

---
 src/dynd/types/datashape_parser.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/dynd/types/datashape_parser.cpp b/src/dynd/types/datashape_parser.cpp
index f4b17cf..0899af2 100644
--- a/src/dynd/types/datashape_parser.cpp
+++ b/src/dynd/types/datashape_parser.cpp
@@ -968,6 +968,14 @@ static void get_error_line_column(const char *begin, const char *end, const char
     ++out_line;
   }
 
+  if (position == end) {
+    // The error is at the end of the input, which is empty or ends with a \n
+    out_line_prev.swap(out_line_cur);
+    out_line_cur = "";
+    out_column = 1;
+    return;
+  }
+
   throw runtime_error("Cannot get line number of error, its position is out of range");
 }
 
-- 
2.43.0


From 2c305dceef890a4ea2873b1b8f0aa09ce886b22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:32 +0000
Subject: [PATCH 101/106] fix: at_single through a pointer follows the pointer

---
 src/dynd/types/pointer_type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynd/types/pointer_type.cpp b/src/dynd/types/pointer_type.cpp
index 52bea5a..3fbe4b6 100644
--- a/src/dynd/types/pointer_type.cpp
+++ b/src/dynd/types/pointer_type.cpp
@@ -101,7 +101,7 @@ ndt::type ndt::pointer_type::at_single(intptr_t i0, const char **inout_arrmeta,
     *inout_arrmeta += sizeof(pointer_type_arrmeta);
     // If requested, modify the data pointer
     if (inout_data) {
-      *inout_data = *reinterpret_cast<const char *const *>(inout_data) + md->offset;
+      *inout_data = *reinterpret_cast<const char *const *>(*inout_data) + md->offset;
     }
   }
   // In at_single, we can't maintain a pointer wrapper, this would result in
-- 
2.43.0


From 13e29fe9585c183bd3afdd782aae255f336abacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:33 +0000
Subject: [PATCH 102/106] fix: any number of comment lines in a datashape can
 be skipped

---
 include/dynd/parse_util.hpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/include/dynd/parse_util.hpp b/include/dynd/parse_util.hpp
index fa1a3a0..3c27ef4 100644
--- a/include/dynd/parse_util.hpp
+++ b/include/dynd/parse_util.hpp
@@ -232,19 +232,17 @@ inline void skip_whitespace(char *const *src) {
 inline void skip_whitespace_and_pound_comments(const char *&rbegin, const char *end) {
   using namespace std;
   const char *begin = rbegin;
-  while (begin < end && DYND_ISSPACE(*begin)) {
-    ++begin;
-  }
+  for (;;) {
+    while (begin < end && DYND_ISSPACE(*begin)) {
+      ++begin;
+    }
 
-  // Comments
-  if (begin < end && *begin == '#') {
-    const char *line_end = (const char *)memchr(begin, '\n', end - begin);
-    if (line_end == NULL) {
-      begin = end;
-    } else {
-      begin = line_end + 1;
-      skip_whitespace_and_pound_comments(begin, end);
+    // Comments
+    if (begin == end || *begin != '#') {
+      break;
     }
+    const char *line_end = (const char *)memchr(begin, '\n', end - begin);
+    begin = (line_end == NULL) ? end : line_end + 1;
   }
 
   rbegin = begin;
-- 
2.43.0


From e306f64cbed0e809cc4fa767eeba98e6589683bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:33 +0000
Subject: [PATCH 103/106] fix: parse_int_no_ws does not skip whitespace before
 a minus sign

---
 include/dynd/parse_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/parse_util.hpp b/include/dynd/parse_util.hpp
index 3c27ef4..a34b31e 100644
--- a/include/dynd/parse_util.hpp
+++ b/include/dynd/parse_util.hpp
@@ -596,7 +596,7 @@ inline bool parse_unsigned_int_no_ws(const char *&rbegin, const char *end, const
 inline bool parse_int_no_ws(const char *&rbegin, const char *end, const char *&out_strbegin, const char *&out_strend) {
   const char *begin = rbegin;
   const char *saved_begin = begin;
-  parse_token(begin, end, '-');
+  parse_token_no_ws(begin, end, '-');
   if (parse_unsigned_int_no_ws(begin, end, out_strbegin, out_strend)) {
     out_strbegin = saved_begin;
     rbegin = begin;
-- 
2.43.0


From a481451c72bdcee85731875ad3f2e401e4da5fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:33 +0000
Subject: [PATCH 104/106] fix: signed integers can be parsed without checks

---
 include/dynd/parse_util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dynd/parse_util.hpp b/include/dynd/parse_util.hpp
index a34b31e..11f771c 100644
--- a/include/dynd/parse_util.hpp
+++ b/include/dynd/parse_util.hpp
@@ -788,7 +788,7 @@ parse(const char *begin, const char *end, nocheck_t DYND_UNUSED(nocheck)) {
 
 template <typename T>
 std::enable_if_t<is_signed<T>::value && is_integral<T>::value, T> parse(const char *begin, const char *end,
-                                                                        nocheck_t DYND_UNUSED(nocheck)) {
+                                                                        nocheck_t nocheck) {
   typedef typename std::make_unsigned<T>::type unsigned_type;
 
   bool negative = false;
@@ -797,7 +797,7 @@ std::enable_if_t<is_signed<T>::value && is_integral<T>::value, T> parse(const ch
     ++begin;
   }
 
-  auto value = parse<unsigned_type>(begin, end);
+  auto value = parse<unsigned_type>(begin, end, nocheck);
 
   if (negative && value == static_cast<unsigned_type>(std::numeric_limits<T>::min())) {
     return std::numeric_limits<T>::min();
-- 
2.43.0


From 21e504277e8b0eaa0f60eccf8d808c1cda22d4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:07 +0000
Subject: [PATCH 105/106] fix: threads may parse their first datashape at the
 same time

The table of the names of builtin types was filled after its
initialization, so that two threads which both saw it empty wrote into
the map at the same time.
---
 src/dynd/types/datashape_parser.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/dynd/types/datashape_parser.cpp b/src/dynd/types/datashape_parser.cpp
index 0899af2..5142879 100644
--- a/src/dynd/types/datashape_parser.cpp
+++ b/src/dynd/types/datashape_parser.cpp
@@ -30,17 +30,15 @@ using namespace dynd;
 // (Blaze grammar modified slightly to work this way)
 
 static const map<std::string, ndt::type> &builtin_types() {
-  static map<std::string, ndt::type> bit;
-  if (bit.empty()) {
-    bit["int"] = ndt::make_type<int>();
-    bit["intptr"] = ndt::make_type<intptr_t>();
-    bit["uintptr"] = ndt::make_type<uintptr_t>();
-    bit["size"] = ndt::make_type<size_t>();
-    bit["real"] = ndt::make_type<double>();
-    bit["complex64"] = ndt::make_type<dynd::complex<float32>>();
-    bit["complex128"] = ndt::make_type<dynd::complex<float64>>();
-    bit["complex"] = ndt::make_type<dynd::complex<double>>();
-  }
+  // Fully constructed by its initialization, as several threads may be parsing
+  static const map<std::string, ndt::type> bit = {{"int", ndt::make_type<int>()},
+                                                  {"intptr", ndt::make_type<intptr_t>()},
+                                                  {"uintptr", ndt::make_type<uintptr_t>()},
+                                                  {"size", ndt::make_type<size_t>()},
+                                                  {"real", ndt::make_type<double>()},
+                                                  {"complex64", ndt::make_type<dynd::complex<float32>>()},
+                                                  {"complex128", ndt::make_type<dynd::complex<float64>>()},
+                                                  {"complex", ndt::make_type<dynd::complex<double>>()}};
 
   return bit;
 }
-- 
2.43.0


From 92911018c2954e74d1002fc251f0e35c6955ce89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:07 +0000
Subject: [PATCH 106/106] fix: appending to a string does not grow its memory
 when there is room

Every append multiplied the capacity by 1.5, whatever the size, so that
some hundred appended characters exhausted the memory.
---
 include/dynd/types/sso_bytestring.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/dynd/types/sso_bytestring.hpp b/include/dynd/types/sso_bytestring.hpp
index f0860e9..1f7dd5b 100644
--- a/include/dynd/types/sso_bytestring.hpp
+++ b/include/dynd/types/sso_bytestring.hpp
@@ -177,7 +177,11 @@ public:
   }
 
   /** Like reserve(), but with exponential growth */
-  void reserve_grow(size_t new_capacity) { reserve(std::max(new_capacity, capacity() * 3 / 2)); }
+  void reserve_grow(size_t new_capacity) {
+    if (capacity() < new_capacity) {
+      reserve(std::max(new_capacity, capacity() * 3 / 2));
+    }
+  }
 
   /** Resizes the bytestring to the specified number of bytes */
   void resize(size_t new_size) {
-- 
2.43.0

