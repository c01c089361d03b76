From 56cc1c4c5060f41b5f6cced86aad3ebd83099494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 01/66] fix: reject tag numbers that do not fit instead of
 overflowing

Parsing an identifier of ten or more base 128 digits overflowed the signed
tag number, which is undefined behaviour.
---
 include/fast_ber/util/Extract.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/fast_ber/util/Extract.hpp b/include/fast_ber/util/Extract.hpp
index dda9838..38c072d 100644
--- a/include/fast_ber/util/Extract.hpp
+++ b/include/fast_ber/util/Extract.hpp
@@ -6,6 +6,8 @@
 
 #include "absl/types/span.h"
 
+#include <limits>
+
 namespace fast_ber
 {
 
@@ -99,6 +101,11 @@ inline size_t extract_tag(absl::Span<const uint8_t> input, Tag& tag) noexcept
                 return i + 1;
             }
 
+            if (tag > std::numeric_limits<Tag>::max() / 0x80)
+            {
+                return 0; // Tag number does not fit
+            }
+
             tag *= 0x80;
         }
         return 0;
-- 
2.43.0


From b52170ffbd9ee50538656beaddc54877709f6c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 02/66] fix: do not let a declared length overflow the bounds
 check of BerView

A content length close to 2^64 made header plus content length wrap around,
so that the view was valid and its content reached outside of the buffer.
---
 include/fast_ber/util/BerView.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fast_ber/util/BerView.hpp b/include/fast_ber/util/BerView.hpp
index 4cd7590..663c374 100644
--- a/include/fast_ber/util/BerView.hpp
+++ b/include/fast_ber/util/BerView.hpp
@@ -198,9 +198,9 @@ inline void BerView::assign(absl::Span<const uint8_t> input_ber_data) noexcept
     size_t input_tag_length      = extract_tag(input_ber_data, m_tag);
     size_t input_len_length      = extract_length(input_ber_data, input_content_length, input_tag_length);
     size_t input_header_length   = input_tag_length + input_len_length;
-    size_t input_complete_length = input_header_length + input_content_length;
 
-    if (input_tag_length == 0 || input_len_length == 0 || input_complete_length > input_ber_data.length())
+    if (input_tag_length == 0 || input_len_length == 0 ||
+        input_content_length > input_ber_data.length() - input_header_length)
     {
         m_header_length  = 0;
         m_content_length = 0;
-- 
2.43.0


From 2da1b2e5229c707ea4478f4659dc53b7f822b8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:15 +0000
Subject: [PATCH 03/66] fix: report the real identifier length of elements with
 padded tags

identifier_length() assumed the shortest form of the tag. For an element
with leading zero digits in its tag the result was too small, and
BerContainer::resize_content overwrote identifier octets with the length.
---
 include/fast_ber/util/BerView.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fast_ber/util/BerView.hpp b/include/fast_ber/util/BerView.hpp
index 663c374..0655575 100644
--- a/include/fast_ber/util/BerView.hpp
+++ b/include/fast_ber/util/BerView.hpp
@@ -40,7 +40,7 @@ class BerView
     RuntimeId    identifier() const { return {class_(), tag()}; }
     Class        class_() const noexcept { return get_class(m_data[0]); }
     Tag          tag() const noexcept { return m_tag; }
-    size_t       identifier_length() const noexcept { return encoded_tag_length(tag()); }
+    size_t       identifier_length() const noexcept { return extract_tag_length(ber()); }
     size_t       header_length() const noexcept { return m_header_length; }
 
     absl::Span<const uint8_t> content() const noexcept { return absl::MakeSpan(content_data(), m_content_length); }
-- 
2.43.0


From a027b32b4e229bd6530dad99c74b045d3b85acd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:50 +0000
Subject: [PATCH 04/66] fix: encode and decode every object identifier, refuse
 truncated or oversized ones

---
 .../fast_ber/ber_types/ObjectIdentifier.hpp   | 125 ++++++++----------
 1 file changed, 56 insertions(+), 69 deletions(-)

diff --git a/include/fast_ber/ber_types/ObjectIdentifier.hpp b/include/fast_ber/ber_types/ObjectIdentifier.hpp
index 3033164..89e3a25 100644
--- a/include/fast_ber/ber_types/ObjectIdentifier.hpp
+++ b/include/fast_ber/ber_types/ObjectIdentifier.hpp
@@ -7,6 +7,9 @@
 #include "absl/container/inlined_vector.h"
 #include "absl/types/span.h"
 
+#include <algorithm>
+#include <limits>
+
 namespace fast_ber
 {
 
@@ -60,6 +63,13 @@ class ObjectIdentifier
     FixedIdBerContainer<Identifier> m_contents;
 };
 
+// The first two arcs share a subidentifier, the others have one each
+inline uint64_t get_subidentifier(const ObjectIdentifierComponents& input, size_t component) noexcept
+{
+    return (component == 1) ? static_cast<uint64_t>(input[0]) * 40 + static_cast<uint64_t>(input[1])
+                            : static_cast<uint64_t>(input[component]);
+}
+
 inline size_t encoded_object_id_length(const ObjectIdentifierComponents& input) noexcept
 {
     if (input.size() < 2)
@@ -67,10 +77,10 @@ inline size_t encoded_object_id_length(const ObjectIdentifierComponents& input)
         return 0;
     }
 
-    size_t output_size = 1;
-    for (size_t i = 2; i < input.size(); i++)
+    size_t output_size = 0;
+    for (size_t i = 1; i < input.size(); i++)
     {
-        int64_t component = input[i];
+        uint64_t component = get_subidentifier(input, i);
         do
         {
             output_size++;
@@ -88,21 +98,17 @@ inline EncodeResult encode_object_id(absl::Span<uint8_t> output, const ObjectIde
         encoded_length = encoded_object_id_length(input);
     }
 
-    if (output.empty() || output.size() < encoded_length || input.size() < 2 || input[0] > 2 || input[1] > 39)
+    if (output.empty() || output.size() < encoded_length || input.size() < 2 || input[0] > 2 ||
+        (input[0] < 2 && input[1] > 39) ||
+        std::any_of(input.begin(), input.end(), [](int64_t component) { return component < 0; }))
     {
         return EncodeResult{false, 0};
     }
 
-    output[0] = static_cast<uint8_t>(40 * input[0] + input[1]);
-
     size_t output_write_pos = encoded_length - 1;
-    for (size_t i = input.size() - 1; i > 1; i--)
+    for (size_t i = input.size() - 1; i > 0; i--)
     {
-        int64_t component = input[i];
-        if (component < 0)
-        {
-            return EncodeResult{false, 0};
-        }
+        uint64_t component = get_subidentifier(input, i);
 
         bool first = true;
         do
@@ -137,80 +143,57 @@ inline DecodeResult decode_object_id(absl::Span<const uint8_t> input, absl::Inli
         return DecodeResult{false};
     }
 
-    output.push_back(input[0] / 40);
-    output.push_back(input[0] % 40);
+    constexpr auto max_component = static_cast<uint64_t>(std::numeric_limits<int64_t>::max());
+    uint64_t       current_num   = 0;
+    bool           complete      = true;
 
-    for (size_t i = 1, current_num = 0; i < input.length(); i++)
+    for (const uint8_t byte : input)
     {
-        current_num += 0x7F & input[i];
-        if (0x80 & input[i])
+        if (current_num > (std::numeric_limits<uint64_t>::max() >> 7))
         {
-            current_num *= 0x80;
+            output.clear();
+            return DecodeResult{false};
         }
-        else
+
+        current_num = (current_num << 7) | (0x7F & byte);
+        complete    = !(0x80 & byte);
+        if (complete)
         {
-            output.push_back(current_num);
+            if (output.empty())
+            {
+                const uint64_t first = std::min<uint64_t>(current_num / 40, 2);
+                output.push_back(static_cast<int64_t>(first));
+                current_num -= 40 * first;
+            }
+            if (current_num > max_component)
+            {
+                output.clear();
+                return DecodeResult{false};
+            }
+            output.push_back(static_cast<int64_t>(current_num));
             current_num = 0;
         }
     }
 
-    return DecodeResult{true};
+    if (!complete)
+    {
+        output.clear();
+    }
+    return DecodeResult{complete};
 }
 
 inline int64_t get_component_number(absl::Span<const uint8_t> input, size_t number_of_component_to_extract) noexcept
 {
-    if (input.empty())
-    {
-        return -1;
-    }
-
-    if (number_of_component_to_extract == 0)
-    {
-        return input[0] / 40;
-    }
-    if (number_of_component_to_extract == 1)
-    {
-        return input[1] % 40;
-    }
-
-    for (size_t i = 1, current_num = 0, current_component_number = 2; i < static_cast<size_t>(input.length()); i++)
-    {
-        current_num += 0x7F & input[i];
-        if (0x80 & input[i])
-        {
-            current_num *= 0x80;
-        }
-        else
-        {
-            current_num = 0;
-            if (current_component_number == number_of_component_to_extract)
-            {
-                return current_num;
-            }
-            current_component_number++;
-        }
-    }
-
-    return -1;
+    ObjectIdentifierComponents components;
+    decode_object_id(input, components);
+    return (number_of_component_to_extract < components.size()) ? components[number_of_component_to_extract] : -1;
 }
 
 inline size_t get_number_of_components(absl::Span<const uint8_t> input) noexcept
 {
-    if (input.empty())
-    {
-        return 0;
-    }
-
-    size_t number_of_components = 2;
-    for (size_t i = 1; i < input.length(); i++)
-    {
-        if (!(0x80 & input[i]))
-        {
-            number_of_components++;
-        }
-    }
-
-    return number_of_components;
+    ObjectIdentifierComponents components;
+    decode_object_id(input, components);
+    return components.size();
 }
 
 template <typename Identifier>
@@ -281,6 +264,10 @@ bool ObjectIdentifier<Identifier>::assign(const ObjectIdentifierComponents& oid)
     {
         assert(res.length == m_contents.content_length());
     }
+    else
+    {
+        m_contents.resize_content(0);
+    }
     return res.success;
 }
 
-- 
2.43.0


From dbb9e99394e3ccef64505a22247f5b260a141a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:09 +0000
Subject: [PATCH 05/66] fix: decode every binary REAL to its value and refuse
 invalid REAL contents

---
 include/fast_ber/ber_types/Real.hpp | 234 +++++-----------------------
 1 file changed, 37 insertions(+), 197 deletions(-)

diff --git a/include/fast_ber/ber_types/Real.hpp b/include/fast_ber/ber_types/Real.hpp
index 794e3e9..49cef19 100644
--- a/include/fast_ber/ber_types/Real.hpp
+++ b/include/fast_ber/ber_types/Real.hpp
@@ -76,16 +76,17 @@ inline bool check_real_binary(absl::Span<const uint8_t> input) noexcept
     /* Minimal binary construction is: | control | exponent | number |  => length is 3 bytes minimum
      * Check that base bits are not set to the reserved value, see X690 Clause 8.5.7.4
      * */
-    if (input.length() > 3 && (input[0] & 0x30) != 0x30)
+    if (input.length() >= 3 && (input[0] & 0x30) != 0x30)
     {
         /* X690 Clause 8.5.7.4 */
-        size_t exponent_len    = (input[0] & 0x03) + 1;
-        size_t exponent_offset = 1;
+        size_t     exponent_len      = (input[0] & 0x03) + 1;
+        size_t     exponent_offset   = 1;
+        const bool has_length_octet  = exponent_len == 4;
 
         /* X690 Clause 8.5.7.4.d: we should get something like this:
          * | control | exponent_len | exponent_1 | ... | exponent_N | number |
          * */
-        if (exponent_len == 4)
+        if (has_length_octet)
         {
             exponent_len    = static_cast<size_t>(input[1]);
             exponent_offset = 2;
@@ -97,8 +98,8 @@ inline bool check_real_binary(absl::Span<const uint8_t> input) noexcept
             return false;
         }
 
-        /* Check that the exponent does not start with 9 identical bits */
-        if (exponent_len > 1)
+        /* X690 Clause 8.5.7.4.d: with a length octet, the exponent does not start with 9 identical bits */
+        if (has_length_octet && exponent_len > 1)
         {
             uint8_t first_byte  = input[exponent_offset];
             uint8_t second_byte = input[exponent_offset + 1];
@@ -221,214 +222,45 @@ inline bool decode_real_binary(absl::Span<const uint8_t> input, double& output)
         exponent_offset = 2;
     }
 
-    /* Verify that the exponent fits into an int */
-    if (exponent_len > sizeof(int))
-    {
-        return false;
-    }
-
-    /* Get exponent sign */
-    int exponent = (input[exponent_offset] & 0x80) ? -1 : 0;
-
     /* X690 Clause 8.5.7.1 */
-    int mantissa_sign = ((input[0] & 0x40) >> 6) & 0x01;
+    const bool negative = (input[0] & 0x40) != 0;
 
-    /* X690 Clause 8.5.7.2 */
-    int base = (input[0] & 0x30) >> 4;
+    /* X690 Clause 8.5.7.2, exponents of base 2, 8 and 16 as bits per digit */
+    const int bits_per_digit = std::array<int, 3>{1, 3, 4}[(input[0] & 0x30) >> 4];
 
     /* X690 Clause 8.5.7.3 */
-    int factor = (input[0] & 0x0C) >> 2;
-
-    /* Read exponent */
-    for (size_t i = 0; i < exponent_offset; ++i)
-    {
-        exponent = (exponent << 8) | input[exponent_offset + i];
-    }
-
-    /* Convert base 8 exponent to base 2 */
-    if (base == 1)
-    {
-        if (exponent > 0 ? exponent <= std::numeric_limits<int>::max() / 3
-                         : exponent >= std::numeric_limits<int>::min() / 3)
-        {
-            exponent *= 3;
-        }
-        else
-        {
-            return false;
-        }
-    }
-    /* Convert base 16 exponent to base 2 */
-    if (base == 2)
-    {
-        if (exponent > 0 ? exponent <= std::numeric_limits<int>::max() / 4
-                         : exponent >= std::numeric_limits<int>::min() / 4)
-        {
-            exponent *= 4;
-        }
-        else
-        {
-            return false;
-        }
-    }
-
-    /* Apply binary factor */
-    if (exponent <= (std::numeric_limits<int>::max() - factor))
-    {
-        exponent += factor;
-    }
-    else
-    {
-        return false;
-    }
-
-    /* If exponent overflows, check */
-    if (exponent < -0xFFFFFF || exponent > 0xFFFFFF)
-    {
-        /* Exponent too large for a double */
-        if (exponent >= 0)
-        {
-            output =
-                mantissa_sign == 0 ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
-        }
-        /* Exponent too small for a double */
-        else
-        {
-            output = mantissa_sign == 0 ? 0.0 : -0.0;
-        }
-
-        return true;
-    }
-
-    /* Get Mantissa into a buffer
-     * One more byte is read because there could be a 3 or 4 bits shift, see X690 Clause 8.5.7
-     * */
-    std::array<uint8_t, 9> double_bytes    = {};
-    size_t                 mantissa_offset = exponent_len + exponent_offset;
-    size_t                 mantissa_len    = input.length() - mantissa_offset;
+    const int factor = (input[0] & 0x0C) >> 2;
 
-    /* Skip leading zeros */
-    while (mantissa_len > 1 && input[mantissa_offset] == 0)
+    /* Read exponent. The limit is far beyond the range of a double whatever the mantissa, and keeps int from overflowing */
+    constexpr int exponent_limit = 0xFFFFFF;
+    int           exponent       = (input[exponent_offset] & 0x80) ? -1 : 0;
+    for (size_t i = 0; i < exponent_len; ++i)
     {
-        mantissa_offset++;
-        mantissa_len--;
-    }
-
-    /* Put mantissa into bytes 1 to 7 and adapt the exponent */
-    for (size_t i = 0; i < 8; i++)
-    {
-        if (i < mantissa_len)
-        {
-            double_bytes[i + 1] = input[mantissa_offset + i];
-        }
-    }
-
-    /* IEEE 754 double format is: | 1 bit Sign | 11 bits exponent | 52 bits mantissa |
-     * Exponent bias is 2^(k-1) - 1 where k = exponent size in bits. Here bias = 1023
-     * Add mantissa size to the bias to get an exponent corresponding to the mantissa
-     * bias = 1023 + 52 = 1075
-     * */
-    exponent += ((mantissa_len - 7) << 3) + 1075;
-
-    /* For a normalized value, the mantissa size is 52 bits with an implicit hidden bit which equals 1
-     * Set double_bytes to have b0001 in the first 4 bits of the first double byte
-     * See X690 Clause 8.5.7 */
-    if ((double_bytes[1] & 0xE0) != 0 && exponent < 0x7FF)
-    {
-        /* Mantissa is too big - shift right up to 3 bits */
-        int          shift      = 0;
-        unsigned int first_byte = double_bytes[1];
-
-        /* Adapt exponent */
-        while ((first_byte & 0xE0) != 0 && exponent < (0x7FF - shift))
-        {
-            first_byte >>= 1;
-            shift++;
-        }
-        exponent += shift;
-
-        /* Adapt double bytes */
-        for (int j = 7; j > 0; --j)
-        {
-            unsigned int next_byte_shifted = static_cast<unsigned int>(double_bytes[j - 1]) << 8;
-            double_bytes[j]                = (next_byte_shifted | double_bytes[j]) >> shift;
-        }
-    }
-    else if ((double_bytes[1] & 0xF0) == 0 && exponent > 0)
-    {
-        /* Mantissa is too small - shift left up to 4 bits */
-        int          shift      = 8;
-        unsigned int first_byte = double_bytes[1];
-
-        /* Adapt exponent */
-        while ((first_byte & 0xF0) == 0 && exponent > (8 - shift))
-        {
-            exponent -= 8 - shift;
-        }
-
-        for (int j = 1; j < 8; ++j)
+        if (exponent < -(exponent_limit >> 8) || exponent > (exponent_limit >> 8))
         {
-            unsigned int first_byte_shifted = static_cast<unsigned int>(double_bytes[j]) << 8;
-            double_bytes[j]                 = (first_byte_shifted | double_bytes[j + 1]) >> shift;
+            exponent = exponent < 0 ? -exponent_limit : exponent_limit;
+            break;
         }
+        exponent = exponent * 256 + input[exponent_offset + i];
     }
+    exponent = exponent * bits_per_digit + factor;
 
-    /* Verify that exponent does not overflow after modification */
-    if (exponent >= 0x7FF || exponent <= -55)
+    /* Read the mantissa. Bits beyond the first 56 only scale the value, they are below the precision of a double */
+    uint64_t mantissa = 0;
+    for (size_t i = exponent_offset + exponent_len; i < input.length(); ++i)
     {
-        /* Exponent too large for a double */
-        if (exponent >= 0)
+        if ((mantissa >> 56) == 0)
         {
-            output =
-                mantissa_sign == 0 ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
+            mantissa = (mantissa << 8) | input[i];
         }
         else
         {
-            /* Exponent too small for a double */
-            output = mantissa_sign == 0 ? 0.0 : -0.0;
-        }
-
-        return true;
-    }
-
-    /* Normalize the value if necessary */
-    if (exponent <= 0)
-    {
-        /* correct the exponent to shift one bit more right */
-        --exponent;
-
-        /* Shift the mantissa right until exponent is 0 */
-        int shift = (-exponent) >> 3;
-        for (int j = 7; j > shift; --j)
-        {
-            double_bytes[j] = double_bytes[j - shift];
-        }
-        for (int j = shift; j > 0; --j)
-        {
-            double_bytes[j] = 0;
+            exponent += 8;
         }
-        /* shift right bit by bit */
-        shift = -exponent & 0x07;
-        for (int j = 7; j > 0; --j)
-        {
-            unsigned int next_byte_shifted = static_cast<unsigned int>(double_bytes[j - 1]) << 8;
-            double_bytes[j]                = (next_byte_shifted | double_bytes[j]) >> shift;
-        }
-
-        /* exponent for a denormalized value */
-        exponent = 0;
     }
 
-    /* Finally add the mantissa sign and the exponent to the double bytes */
-    double_bytes[0] = (mantissa_sign << 7) | (exponent >> 4);
-    double_bytes[1] = (exponent << 4) | (double_bytes[1] & 0x0F);
-
-#ifdef ABSL_IS_LITTLE_ENDIAN
-    /* Reverse bytes if needed */
-    std::reverse(double_bytes.begin(), double_bytes.end() - 1);
-#endif
-
-    memcpy(&output, double_bytes.data(), sizeof(double));
+    const double value = std::ldexp(static_cast<double>(mantissa), exponent);
+    output             = negative ? -value : value;
     return true;
 }
 
@@ -637,7 +469,15 @@ EncodeResult Real<Identifier>::encode(absl::Span<uint8_t> output) const noexcept
 template <typename Identifier>
 DecodeResult Real<Identifier>::decode(BerView input) noexcept
 {
-    return m_contents.decode(input);
+    SmallFixedIdBerContainer<Identifier, detail::MaxEncodedLength> contents;
+    double                                                         value = 0;
+    if (!contents.decode(input).success || !decode_real(contents.content(), value))
+    {
+        return DecodeResult{false};
+    }
+
+    m_contents = contents;
+    return DecodeResult{true};
 }
 
 template <typename Identifier>
-- 
2.43.0


From a2f29ebf627bc7882d3d28c0db277d73731ed242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:09 +0000
Subject: [PATCH 06/66] fix: accept decimal REAL contents only in the form
 their first octet declares

---
 src/ber_types/Real.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/ber_types/Real.cpp b/src/ber_types/Real.cpp
index 011a35b..dfd2894 100644
--- a/src/ber_types/Real.cpp
+++ b/src/ber_types/Real.cpp
@@ -17,11 +17,27 @@ const std::regex g_iso_6093_nr3{"^[ ]*[+-]?([0-9]+[\\.\\,]{1}[0-9]*|[0-9]*[\\.\\
  */
 bool decode_real_decimal(absl::Span<const uint8_t> input, double& output) noexcept
 {
+    /* X690 Clause 8.5.8: the first octet selects the form, other values are reserved */
+    const std::regex* iso_6093_form = nullptr;
+    switch (input.empty() ? 0 : input[0])
+    {
+    case 0x01:
+        iso_6093_form = &g_iso_6093_nr1;
+        break;
+    case 0x02:
+        iso_6093_form = &g_iso_6093_nr2;
+        break;
+    case 0x03:
+        iso_6093_form = &g_iso_6093_nr3;
+        break;
+    default:
+        return false;
+    }
+
     std::string iso_6093_value(reinterpret_cast<const char*>(&input[1]), input.length() - 1);
 
-    /* Check that string matches the iso 6093 NR1/NR2/NR3 forms */
-    if (std::regex_match(iso_6093_value, g_iso_6093_nr1) || std::regex_match(iso_6093_value, g_iso_6093_nr2) ||
-        std::regex_match(iso_6093_value, g_iso_6093_nr3))
+    /* Check that string matches the iso 6093 NR1/NR2/NR3 form */
+    if (std::regex_match(iso_6093_value, *iso_6093_form))
     {
         /* Replace potential comma by a dot */
         std::replace(iso_6093_value.begin(), iso_6093_value.end(), ',', '.');
-- 
2.43.0


From 948dea78862e20fb3b3a5174b49624a84f786166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:29 +0000
Subject: [PATCH 07/66] fix: refuse an INTEGER without contents octets

---
 include/fast_ber/ber_types/Integer.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/fast_ber/ber_types/Integer.hpp b/include/fast_ber/ber_types/Integer.hpp
index 4b8cc4c..ab718a6 100644
--- a/include/fast_ber/ber_types/Integer.hpp
+++ b/include/fast_ber/ber_types/Integer.hpp
@@ -29,7 +29,7 @@ class Integer
   public:
     Integer() noexcept : m_contents{{0x00}, ConstructionMethod::construct_with_provided_content} {}
     Integer(int64_t num) noexcept { assign(num); }
-    Integer(BerView view) noexcept { decode(view); }
+    Integer(BerView view) noexcept : Integer() { decode(view); }
     template <typename Identifier2>
     Integer(const Integer<Identifier2>& rhs) noexcept;
 
@@ -63,7 +63,7 @@ class Integer
 
     size_t       encoded_length() const noexcept { return m_contents.ber_length(); }
     EncodeResult encode(absl::Span<uint8_t> buffer) const noexcept { return m_contents.encode(buffer); }
-    DecodeResult decode(BerView rhs) noexcept { return m_contents.decode(rhs); }
+    DecodeResult decode(BerView rhs) noexcept;
 
     template <typename Identifier2>
     friend class Integer;
@@ -183,6 +183,19 @@ inline void Integer<Identifier>::assign(const Integer<Identifier2>& rhs) noexcep
     m_contents = rhs.m_contents;
 }
 
+template <typename Identifier>
+DecodeResult Integer<Identifier>::decode(BerView rhs) noexcept
+{
+    SmallFixedIdBerContainer<Identifier, sizeof(int64_t)> contents;
+    if (!contents.decode(rhs).success || contents.content_length() == 0)
+    {
+        return DecodeResult{false};
+    }
+
+    m_contents = contents;
+    return DecodeResult{true};
+}
+
 template <typename Identifier>
 DecodeResult decode(BerViewIterator& input, Integer<Identifier>& output) noexcept
 {
-- 
2.43.0


From 86b482e361a6d443258701802506810a5ac01e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:48 +0000
Subject: [PATCH 08/66] fix: refuse enumerated values that do not fit their
 type

---
 include/fast_ber/ber_types/Enumerated.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/fast_ber/ber_types/Enumerated.hpp b/include/fast_ber/ber_types/Enumerated.hpp
index 0a09663..2635d57 100644
--- a/include/fast_ber/ber_types/Enumerated.hpp
+++ b/include/fast_ber/ber_types/Enumerated.hpp
@@ -84,7 +84,14 @@ EncodeResult Enumerated<EnumeratedType, Identifier>::encode(absl::Span<uint8_t>
 template <typename EnumeratedType, typename Identifier>
 DecodeResult Enumerated<EnumeratedType, Identifier>::decode(BerView input) noexcept
 {
-    return this->m_val.decode(input);
+    Integer<Identifier> val;
+    if (!val.decode(input).success || static_cast<int64_t>(static_cast<EnumeratedType>(val.value())) != val.value())
+    {
+        return DecodeResult{false};
+    }
+
+    m_val = val;
+    return DecodeResult{true};
 }
 
 template <typename EnumeratedType, typename Identifier>
-- 
2.43.0


From be97f49094af97df7e21a5c607e729c338f07bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:48 +0000
Subject: [PATCH 09/66] fix: keep the previous time on a refused decode, read
 local times as local and refuse other texts

---
 .../fast_ber/ber_types/GeneralizedTime.hpp    | 32 ++++++++++++++++---
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/include/fast_ber/ber_types/GeneralizedTime.hpp b/include/fast_ber/ber_types/GeneralizedTime.hpp
index 5ffbe31..b91261b 100644
--- a/include/fast_ber/ber_types/GeneralizedTime.hpp
+++ b/include/fast_ber/ber_types/GeneralizedTime.hpp
@@ -7,6 +7,8 @@
 #include "absl/strings/string_view.h"
 #include "absl/time/time.h"
 
+#include <algorithm>
+
 namespace fast_ber
 {
 constexpr const int minimum_timestamp_length = 10;
@@ -16,6 +18,14 @@ const std::string g_local_time_format                    = "%E4Y%m%d%H%M%S";
 const std::string g_universal_time_format                = "%E4Y%m%d%H%M%SZ";
 const std::string g_universal_time_with_time_zone_format = "%E4Y%m%d%H%M%S";
 
+// The text is YYYYMMDDHHMMSS followed by a suffix (none, Z or +HHMM), absl::ParseTime accepts more than that
+inline bool is_timestamp(const std::string& text, size_t suffix_length) noexcept
+{
+    const auto is_digit = [](char c) { return c >= '0' && c <= '9'; };
+    return text.length() == 14 + suffix_length && std::all_of(text.begin(), text.begin() + 14, is_digit) &&
+           std::all_of(text.begin() + std::min<size_t>(text.length(), 15), text.end(), is_digit);
+}
+
 template <typename Identifier = ExplicitId<UniversalTag::generalized_time>>
 class GeneralizedTime
 {
@@ -39,7 +49,7 @@ class GeneralizedTime
     GeneralizedTime(const GeneralizedTime&)     = default;
     GeneralizedTime(GeneralizedTime&&) noexcept = default;
     GeneralizedTime(const absl::Time& time) { set_time(time); }
-    explicit GeneralizedTime(BerView view) { decode(view); }
+    explicit GeneralizedTime(BerView view) : GeneralizedTime() { decode(view); }
     ~GeneralizedTime() noexcept = default;
 
     GeneralizedTime& operator=(const GeneralizedTime&) = default;
@@ -105,7 +115,11 @@ void GeneralizedTime<Identifier>::set_time(const absl::Time& time, int timezone_
 template <typename Identifier>
 typename GeneralizedTime<Identifier>::TimeFormat GeneralizedTime<Identifier>::format() const
 {
-    if (m_contents.content().back() == 'Z')
+    if (m_contents.content_length() < 5)
+    {
+        return TimeFormat::local;
+    }
+    else if (m_contents.content().back() == 'Z')
     {
         return TimeFormat::universal;
     }
@@ -127,6 +141,11 @@ absl::Time GeneralizedTime<Identifier>::time() const
     absl::Time               time;
     const TimeFormat         frmt = format();
 
+    if (!is_timestamp(this->string(), frmt == TimeFormat::universal ? 1 : frmt == TimeFormat::local ? 0 : 5))
+    {
+        throw std::runtime_error("Failed to parse time: " + this->string());
+    }
+
     if (frmt == TimeFormat::universal)
     {
         if (!absl::ParseTime(g_universal_time_format, this->string(), absl::UTCTimeZone(), &time, &s_error_string))
@@ -145,7 +164,7 @@ absl::Time GeneralizedTime<Identifier>::time() const
     }
     else if (frmt == TimeFormat::local)
     {
-        if (!absl::ParseTime(g_local_time_format, this->string(), absl::UTCTimeZone(), &time, &s_error_string))
+        if (!absl::ParseTime(g_local_time_format, this->string(), absl::LocalTimeZone(), &time, &s_error_string))
         {
             throw std::runtime_error("Failed to parse time: " + s_error_string);
         }
@@ -174,11 +193,14 @@ EncodeResult GeneralizedTime<Identifier>::encode(absl::Span<uint8_t> output) con
 template <typename Identifier>
 DecodeResult GeneralizedTime<Identifier>::decode(BerView view) noexcept
 {
-    DecodeResult res = m_contents.decode(view);
-    if (m_contents.content_length() < minimum_timestamp_length || m_contents.content_length() > max_timestamp_length)
+    FixedIdBerContainer<Identifier> contents;
+    DecodeResult                    res = contents.decode(view);
+    if (!res.success || contents.content_length() < minimum_timestamp_length ||
+        contents.content_length() > max_timestamp_length)
     {
         return DecodeResult{false};
     }
+    m_contents = std::move(contents);
     return res;
 }
 
-- 
2.43.0


From c3202dfa7afea1fdee4e85764f8da21fd9b6599f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:10 +0000
Subject: [PATCH 10/66] fix: keep containers sound when copied, moved or
 resized from any state

---
 include/fast_ber/util/BerContainer.hpp        | 32 +++++++++++++++++--
 include/fast_ber/util/FixedIdBerContainer.hpp |  4 ++-
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/include/fast_ber/util/BerContainer.hpp b/include/fast_ber/util/BerContainer.hpp
index 09950d8..bd60618 100644
--- a/include/fast_ber/util/BerContainer.hpp
+++ b/include/fast_ber/util/BerContainer.hpp
@@ -98,17 +98,36 @@ inline BerContainer::BerContainer(Construction input_construction, Class input_c
     assign_content(input_construction, input_class, input_tag, input_content);
 }
 
+inline BerContainer& BerContainer::operator=(const BerView input_view) noexcept
+{
+    decode(input_view);
+    return *this;
+}
+
 inline BerContainer& BerContainer::operator=(const BerContainer& container) noexcept
 {
-    m_data = container.m_data;
-    m_view.assign(m_data, container.tag(), container.header_length(), container.content_length());
+    if (this != &container)
+    {
+        decode(container.view());
+    }
     return *this;
 }
 
 inline BerContainer& BerContainer::operator=(BerContainer&& container) noexcept
 {
+    if (this == &container)
+    {
+        return *this;
+    }
+    if (!container.is_valid())
+    {
+        decode(container.view());
+        return *this;
+    }
+
     m_data = std::move(container.m_data);
     m_view.assign(m_data, container.tag(), container.header_length(), container.content_length());
+    container.decode(BerView()); // Its view refers to the memory taken from it
     return *this;
 }
 
@@ -142,6 +161,11 @@ inline void BerContainer::assign_content(Construction input_construction, Class
 
 inline void BerContainer::resize_content(size_t size)
 {
+    if (!is_valid())
+    {
+        assign_content({});
+    }
+
     std::array<uint8_t, 20> length_buffer{};
 
     size_t old_header_length   = view().header_length();
@@ -151,8 +175,10 @@ inline void BerContainer::resize_content(size_t size)
     size_t new_header_length   = new_length_offset + new_length_length;
     size_t new_complete_length = new_header_length + size;
 
-    m_data.resize(new_complete_length);
+    m_data.resize(std::max(m_data.size(), new_complete_length));
     std::memmove(m_data.data() + new_header_length, m_data.data() + old_header_length, std::min(old_size, size));
+    m_data.resize(new_header_length + std::min(old_size, size));
+    m_data.resize(new_complete_length);
     std::copy(length_buffer.data(), length_buffer.data() + new_length_length, m_data.data() + new_length_offset);
     m_view.assign(absl::MakeSpan(m_data.data(), m_data.size()), new_header_length, size);
 
diff --git a/include/fast_ber/util/FixedIdBerContainer.hpp b/include/fast_ber/util/FixedIdBerContainer.hpp
index 8c7fb03..61e42e6 100644
--- a/include/fast_ber/util/FixedIdBerContainer.hpp
+++ b/include/fast_ber/util/FixedIdBerContainer.hpp
@@ -227,9 +227,11 @@ void FixedIdBerContainer<Identifier>::resize_content(size_t size)
     size_t old_header_length = m_data.size() - content_length();
     size_t new_header_length = encoded_header_length(size, Identifier{});
 
-    m_data.resize(new_header_length + size);
+    m_data.resize(std::max(m_data.size(), new_header_length + size));
     std::memmove(m_data.data() + new_header_length, m_data.data() + old_header_length,
                  std::min(m_content_length, size));
+    m_data.resize(new_header_length + std::min(m_content_length, size));
+    m_data.resize(new_header_length + size);
 
     encode_header(absl::Span<uint8_t>(m_data), size, Identifier{}, Construction::primitive);
     m_content_length = size;
-- 
2.43.0


From 33a40cdc40b58a025b32db341810b28c3dae8c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:10 +0000
Subject: [PATCH 11/66] fix: accept content that lies in the container itself,
 and extra elements in an explicit wrapper

---
 include/fast_ber/util/BerContainer.hpp        | 22 +++++++++++++++++
 include/fast_ber/util/FixedIdBerContainer.hpp | 24 ++++++++++++++-----
 2 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/include/fast_ber/util/BerContainer.hpp b/include/fast_ber/util/BerContainer.hpp
index bd60618..7109654 100644
--- a/include/fast_ber/util/BerContainer.hpp
+++ b/include/fast_ber/util/BerContainer.hpp
@@ -9,6 +9,7 @@
 #include "absl/types/span.h"
 
 #include <array>
+#include <functional>
 
 namespace fast_ber
 {
@@ -19,6 +20,13 @@ enum class ConstructionMethod
     construct_from_ber_packet
 };
 
+// Whether a span lies in the given memory, which must then not be resized before it is read
+inline bool refers_to(absl::Span<const uint8_t> memory, absl::Span<const uint8_t> span) noexcept
+{
+    return !span.empty() && !std::less<const uint8_t*>{}(span.data(), memory.data()) &&
+           std::less<const uint8_t*>{}(span.data(), memory.data() + memory.size());
+}
+
 // Owning container of a ber packet. Contents may or may not be valid. Memory is stored in a small buffer optimized
 // vector. Can be constructed directly from encoded ber memory (decode) or by specifiyng the desired contents
 // (assign_contents)
@@ -133,6 +141,13 @@ inline BerContainer& BerContainer::operator=(BerContainer&& container) noexcept
 
 inline void BerContainer::assign_content(const absl::Span<const uint8_t> input_content) noexcept
 {
+    if (refers_to(m_data, input_content))
+    {
+        const absl::InlinedVector<uint8_t, 100u> copy(input_content.begin(), input_content.end());
+        assign_content(copy);
+        return;
+    }
+
     m_data.resize(15 + input_content.size());
     m_data[0] = 0x00; // No identifier provided, use a tag of 0
     size_t new_header_length =
@@ -148,6 +163,13 @@ inline void BerContainer::assign_content(const absl::Span<const uint8_t> input_c
 inline void BerContainer::assign_content(Construction input_construction, Class input_class, Tag input_tag,
                                          absl::Span<const uint8_t> input_content) noexcept
 {
+    if (refers_to(m_data, input_content))
+    {
+        const absl::InlinedVector<uint8_t, 100u> copy(input_content.begin(), input_content.end());
+        assign_content(input_construction, input_class, input_tag, copy);
+        return;
+    }
+
     m_data.resize(30 + input_content.size());
     size_t input_header_length = encode_header(absl::MakeSpan(m_data.data(), m_data.size()), input_construction,
                                                input_class, input_tag, input_content.size());
diff --git a/include/fast_ber/util/FixedIdBerContainer.hpp b/include/fast_ber/util/FixedIdBerContainer.hpp
index 61e42e6..50656c7 100644
--- a/include/fast_ber/util/FixedIdBerContainer.hpp
+++ b/include/fast_ber/util/FixedIdBerContainer.hpp
@@ -26,7 +26,7 @@ class FixedIdBerContainer
     FixedIdBerContainer() noexcept;
     FixedIdBerContainer(const FixedIdBerContainer& rhs) noexcept;
     FixedIdBerContainer(FixedIdBerContainer&& rhs) noexcept;
-    FixedIdBerContainer(BerView input_view) noexcept { decode(input_view); }
+    FixedIdBerContainer(BerView input_view) noexcept : FixedIdBerContainer() { decode(input_view); }
     FixedIdBerContainer(absl::Span<const uint8_t> input_data, ConstructionMethod method) noexcept;
     FixedIdBerContainer(Construction input_construction, Class input_class, Tag input_tag,
                         absl::Span<const uint8_t> input_content) noexcept;
@@ -92,12 +92,13 @@ template <typename Identifier>
 FixedIdBerContainer<Identifier>::FixedIdBerContainer(FixedIdBerContainer&& rhs) noexcept
     : m_data(std::move(rhs.m_data)), m_content_length(std::move(rhs.m_content_length))
 {
+    rhs.assign_content({});
 }
 
 template <typename Identifier>
 FixedIdBerContainer<Identifier>::FixedIdBerContainer(absl::Span<const uint8_t> input_data,
                                                      ConstructionMethod        method) noexcept
-    : m_data()
+    : FixedIdBerContainer()
 {
     if (method == ConstructionMethod::construct_with_provided_content)
     {
@@ -147,8 +148,12 @@ template <typename Identifier1>
 FixedIdBerContainer<Identifier1>&
 FixedIdBerContainer<Identifier1>::operator=(FixedIdBerContainer<Identifier1>&& rhs) noexcept
 {
-    m_data           = std::move(rhs.m_data);
-    m_content_length = std::move(rhs.m_content_length);
+    if (this != &rhs)
+    {
+        m_data           = std::move(rhs.m_data);
+        m_content_length = std::move(rhs.m_content_length);
+        rhs.assign_content({});
+    }
     return *this;
 }
 
@@ -202,14 +207,21 @@ DecodeResult FixedIdBerContainer<Identifier>::decode_impl(BerView
         return DecodeResult{false};
     }
 
-    m_data.assign(input_view.ber().begin(), input_view.ber().end());
-    m_content_length = input_view.begin()->content_length();
+    // Only the first element inside the outer one counts
+    assign_content(input_view.begin()->content());
     return DecodeResult{true};
 }
 
 template <typename Identifier>
 void FixedIdBerContainer<Identifier>::assign_content(const absl::Span<const uint8_t> input_content) noexcept
 {
+    if (refers_to(m_data, input_content))
+    {
+        const absl::InlinedVector<uint8_t, 100u> copy(input_content.begin(), input_content.end());
+        assign_content(copy);
+        return;
+    }
+
     const size_t encoded_len = fast_ber::encoded_length(input_content.length(), Identifier{});
     const size_t header_len  = encoded_len - input_content.length();
 
-- 
2.43.0


From 33aa4bdec02c3cc4424fb2d6264bf3a320e44b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:51 +0000
Subject: [PATCH 12/66] fix: do not index past the end of a decimal REAL
 without a number

---
 src/ber_types/Real.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ber_types/Real.cpp b/src/ber_types/Real.cpp
index dfd2894..5f27a3b 100644
--- a/src/ber_types/Real.cpp
+++ b/src/ber_types/Real.cpp
@@ -34,7 +34,7 @@ bool decode_real_decimal(absl::Span<const uint8_t> input, double& output) noexce
         return false;
     }
 
-    std::string iso_6093_value(reinterpret_cast<const char*>(&input[1]), input.length() - 1);
+    std::string iso_6093_value(reinterpret_cast<const char*>(input.data() + 1), input.length() - 1);
 
     /* Check that string matches the iso 6093 NR1/NR2/NR3 form */
     if (std::regex_match(iso_6093_value, *iso_6093_form))
-- 
2.43.0


From f2dd56603ee2a0be42ec18ced5fcf48f4ebf1c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:51 +0000
Subject: [PATCH 13/66] fix: define the assignment of Enumerated from another
 identifier

---
 include/fast_ber/ber_types/Enumerated.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/fast_ber/ber_types/Enumerated.hpp b/include/fast_ber/ber_types/Enumerated.hpp
index 2635d57..cd7bbd9 100644
--- a/include/fast_ber/ber_types/Enumerated.hpp
+++ b/include/fast_ber/ber_types/Enumerated.hpp
@@ -27,7 +27,11 @@ class Enumerated
     EnumeratedType value() const noexcept { return static_cast<EnumeratedType>(m_val.value()); }
 
     template <typename Identifier2>
-    Enumerated& operator=(const Enumerated<EnumeratedType, Identifier2>& rhs) noexcept;
+    Enumerated& operator=(const Enumerated<EnumeratedType, Identifier2>& rhs) noexcept
+    {
+        assign(rhs);
+        return *this;
+    }
     Enumerated& operator=(EnumeratedType rhs) noexcept
     {
         assign(rhs);
-- 
2.43.0


From 83b23647886bb2d6b6741133bcd7fedd142716ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:22 +0000
Subject: [PATCH 14/66] fix: construct the default value before comparing with
 it

---
 include/fast_ber/ber_types/Default.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fast_ber/ber_types/Default.hpp b/include/fast_ber/ber_types/Default.hpp
index 8aa24e8..e8de3da 100644
--- a/include/fast_ber/ber_types/Default.hpp
+++ b/include/fast_ber/ber_types/Default.hpp
@@ -50,8 +50,8 @@ struct Default
     DecodeResult decode(BerView input) noexcept;
 
   private:
+    const T           m_default = T(DefaultValue::get_value()); // Read while m_item is constructed
     absl::optional<T> m_item;
-    const T           m_default = T(DefaultValue::get_value());
 };
 
 template <typename T, typename DefaultValue>
-- 
2.43.0


From 32aa38409e975a29333ce6dfc758c9e8ff37b5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:22 +0000
Subject: [PATCH 15/66] fix: make Default::value() usable

---
 include/fast_ber/ber_types/Default.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fast_ber/ber_types/Default.hpp b/include/fast_ber/ber_types/Default.hpp
index e8de3da..d9f408a 100644
--- a/include/fast_ber/ber_types/Default.hpp
+++ b/include/fast_ber/ber_types/Default.hpp
@@ -41,7 +41,7 @@ struct Default
     Default& operator=(const char* val);
 
     const T&              get() const noexcept { return is_default() ? m_default : *m_item; }
-    decltype(T{}.value()) value() const noexcept(T{}.value()) { return get()->value(); }
+    decltype(T{}.value()) value() const noexcept(T{}.value()) { return get().value(); }
     bool                  is_default() const noexcept { return !m_item; }
     void                  set_to_default() noexcept { m_item = absl::nullopt; }
 
-- 
2.43.0


From f35d6360992184f58e4bc947f04f5703b77be494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:22 +0000
Subject: [PATCH 16/66] fix: compare a DynamicOptional with a value

---
 include/fast_ber/util/DynamicOptional.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fast_ber/util/DynamicOptional.hpp b/include/fast_ber/util/DynamicOptional.hpp
index ecd55b1..07c9fe8 100644
--- a/include/fast_ber/util/DynamicOptional.hpp
+++ b/include/fast_ber/util/DynamicOptional.hpp
@@ -96,7 +96,7 @@ class DynamicOptional
             return false;
         }
 
-        return *m_val == *rhs;
+        return *m_val == rhs;
     }
     bool operator!=(const DynamicOptional& rhs) const noexcept { return !(*this == rhs); }
     bool operator!=(const T& rhs) const noexcept { return !(*this == rhs); }
-- 
2.43.0


From b4da3bbb97a7afd46097d3aa6566fbf6545af055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:58 +0000
Subject: [PATCH 17/66] fix: order DynamicVariants by their value

---
 include/fast_ber/util/DynamicVariant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fast_ber/util/DynamicVariant.hpp b/include/fast_ber/util/DynamicVariant.hpp
index 0a998c0..ff51cb9 100644
--- a/include/fast_ber/util/DynamicVariant.hpp
+++ b/include/fast_ber/util/DynamicVariant.hpp
@@ -563,7 +563,7 @@ struct LessThan
     template <typename T>
     bool operator()(const T& lhs, const T& rhs)
     {
-        return lhs == rhs;
+        return lhs < rhs;
     }
 };
 
-- 
2.43.0


From a9ac270e6f1f0e77294269208e031ea0ef85e7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:58 +0000
Subject: [PATCH 18/66] fix: keep DynamicVariants sound when assigned from
 themselves, lvalues or throwing constructors

---
 include/fast_ber/util/DynamicVariant.hpp | 100 ++++++++---------------
 1 file changed, 32 insertions(+), 68 deletions(-)

diff --git a/include/fast_ber/util/DynamicVariant.hpp b/include/fast_ber/util/DynamicVariant.hpp
index ff51cb9..890d5a4 100644
--- a/include/fast_ber/util/DynamicVariant.hpp
+++ b/include/fast_ber/util/DynamicVariant.hpp
@@ -331,7 +331,7 @@ class DynamicVariant
 
     DynamicVariant() noexcept : m_data(new ToType<0>()) {}
     DynamicVariant(const DynamicVariant& other)
-        : m_index(other.m_index), m_data(fast_ber::dynamic::visit(CopyVisitor{}, other))
+        : m_index(other.m_index), m_data(other.m_data ? fast_ber::dynamic::visit(CopyVisitor{}, other) : nullptr)
     {
     }
     DynamicVariant(DynamicVariant&& other) noexcept : m_index(std::move(other.m_index)), m_data(std::move(other.m_data))
@@ -343,7 +343,7 @@ class DynamicVariant
               typename = absl::enable_if_t<ExactlyOnce<AcceptedType<T&&>>::value &&
                                            std::is_constructible<AcceptedType<T&&>, T&&>::value>>
     DynamicVariant(T&& t) noexcept(std::is_nothrow_constructible<AcceptedType<T&&>, T&&>::value)
-        : m_index(detail::IndexOf<AcceptedType<T&&>, Types...>::value), m_data(new AcceptedType<T&&>(t))
+        : m_index(detail::IndexOf<AcceptedType<T&&>, Types...>::value), m_data(new AcceptedType<T&&>(std::forward<T>(t)))
     {
         assert(holds_alternative<AcceptedType<T&&>>(*this));
     }
@@ -384,36 +384,24 @@ class DynamicVariant
         assert(index() == i);
     }
 
-    ~DynamicVariant()
-    {
-        if (!valueless_by_exception() && m_data != nullptr)
-        {
-            fast_ber::dynamic::visit(DeleteVisitor(), *this);
-        }
-    }
+    ~DynamicVariant() { destroy(); }
 
     DynamicVariant& operator=(const DynamicVariant& other)
     {
-        if (!valueless_by_exception() && m_data != nullptr)
-        {
-            fast_ber::dynamic::visit(DeleteVisitor(), *this);
-        }
-        m_index = other.m_index;
-        m_data  = fast_ber::dynamic::visit(CopyVisitor(), other);
-
+        // Copy before destroying, other may be or be part of this
+        const size_t index = other.m_index;
+        replace(index, other.m_data ? fast_ber::dynamic::visit(CopyVisitor(), other) : nullptr);
         return *this;
     }
 
     DynamicVariant& operator=(DynamicVariant&& other) noexcept
     {
-        if (!valueless_by_exception() && m_data != nullptr)
+        if (this != &other)
         {
-            fast_ber::dynamic::visit(DeleteVisitor(), *this);
+            void* data   = other.m_data;
+            other.m_data = nullptr;
+            replace(other.m_index, data);
         }
-        m_index = other.m_index;
-        m_data  = other.m_data;
-
-        other.m_data = nullptr;
         return *this;
     }
 
@@ -424,12 +412,8 @@ class DynamicVariant
     DynamicVariant& operator=(T&& t) noexcept(std::is_nothrow_assignable<AcceptedType<T&&>&, T&&>::value&&
                                                   std::is_nothrow_constructible<AcceptedType<T&&>, T&&>::value)
     {
-        if (!valueless_by_exception() && m_data != nullptr)
-        {
-            fast_ber::dynamic::visit(DeleteVisitor(), *this);
-        }
-        m_index = AcceptedIndex<T>::value;
-        m_data  = new AcceptedType<T>(std::move(t));
+        // Construct before destroying, t may be part of this
+        replace(AcceptedIndex<T>::value, new AcceptedType<T>(std::forward<T>(t)));
         return *this;
     }
 
@@ -437,12 +421,7 @@ class DynamicVariant
               typename = absl::enable_if_t<std::is_constructible<T, Args...>::value && ExactlyOnce<T>::value>>
     T& emplace(Args&&... args)
     {
-        if (!valueless_by_exception() && m_data != nullptr)
-        {
-            fast_ber::dynamic::visit(DeleteVisitor(), *this);
-        }
-        m_index = AcceptedIndex<T>::value;
-        m_data  = new AcceptedType<T>(std::forward<Args>(args)...);
+        replace(detail::IndexOf<T, Types...>::value, new T(std::forward<Args>(args)...));
 
         assert(holds_alternative<T>(*this));
         return *static_cast<T*>(m_data);
@@ -453,12 +432,7 @@ class DynamicVariant
                                            ExactlyOnce<T>::value>>
     T& emplace(std::initializer_list<U> il, Args&&... args)
     {
-        if (!valueless_by_exception() && m_data != nullptr)
-        {
-            fast_ber::dynamic::visit(DeleteVisitor(), *this);
-        }
-        m_index = AcceptedIndex<T>::value;
-        m_data  = new T(std::forward<Args>(il, args)...);
+        replace(detail::IndexOf<T, Types...>::value, new T(il, std::forward<Args>(args)...));
 
         assert(holds_alternative<T>(*this));
         return *static_cast<T*>(m_data);
@@ -471,21 +445,8 @@ class DynamicVariant
     {
         static_assert(i < sizeof...(Types), "The index should be in [0, number of alternatives)");
 
-        if (!valueless_by_exception() && m_data != nullptr)
-        {
-            fast_ber::dynamic::visit(DeleteVisitor(), *this);
-        }
+        replace(i, new ToType<i>(std::forward<Args>(args)...));
 
-        try
-        {
-            m_index = i;
-            m_data  = new ToType<i>(std::forward<Args>(args)...);
-        }
-        catch (...)
-        {
-            m_index = variant_npos;
-            throw;
-        }
         assert(index() == i);
         return get<i>(*this);
     }
@@ -498,21 +459,8 @@ class DynamicVariant
     {
         static_assert(i < sizeof...(Types), "The index should be in [0, number of alternatives)");
 
-        if (!valueless_by_exception() && m_data != nullptr)
-        {
-            fast_ber::dynamic::visit(DeleteVisitor(), *this);
-        }
+        replace(i, new ToType<i>(il, std::forward<Args>(args)...));
 
-        try
-        {
-            m_index = i;
-            m_data  = new ToType<i>(std::forward<Args>(il, args)...);
-        }
-        catch (...)
-        {
-            m_index = variant_npos;
-            throw;
-        }
         assert(index() == i);
         return get<i>(*this);
     }
@@ -540,6 +488,22 @@ class DynamicVariant
     }
 
   private:
+    void destroy() noexcept
+    {
+        if (!valueless_by_exception() && m_data != nullptr)
+        {
+            fast_ber::dynamic::visit(DeleteVisitor(), *this);
+        }
+    }
+
+    // Takes ownership of a value which was constructed before the current one is destroyed
+    void replace(size_t index, void* data) noexcept
+    {
+        destroy();
+        m_index = index;
+        m_data  = data;
+    }
+
     size_t m_index{0};
     void*  m_data;
 }; // namespace fast_ber
-- 
2.43.0


From c86bab2c7bb1d416930286130548cc00844a88df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:12 +0000
Subject: [PATCH 19/66] fix: make get() of an rvalue DynamicVariant usable

---
 include/fast_ber/util/DynamicVariant.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fast_ber/util/DynamicVariant.hpp b/include/fast_ber/util/DynamicVariant.hpp
index 890d5a4..943aa37 100644
--- a/include/fast_ber/util/DynamicVariant.hpp
+++ b/include/fast_ber/util/DynamicVariant.hpp
@@ -121,7 +121,7 @@ T&& get(DynamicVariant<Types...>&& v)
     {
         throw BadVariantAccess();
     }
-    return v.template value<T>();
+    return std::move(v.template value<T>());
 }
 
 template <class T, class... Types>
@@ -141,7 +141,7 @@ const T&& get(const DynamicVariant<Types...>&& v)
     {
         throw BadVariantAccess();
     }
-    return v.template value<T>();
+    return std::move(v.template value<T>());
 }
 
 template <std::size_t I, class... Types>
@@ -161,7 +161,7 @@ variant_alternative_t<I, DynamicVariant<Types...>>&& get(DynamicVariant<Types...
     {
         throw BadVariantAccess();
     }
-    return v.template value<variant_alternative_t<I, DynamicVariant<Types...>>>();
+    return std::move(v.template value<variant_alternative_t<I, DynamicVariant<Types...>>>());
 }
 
 template <std::size_t I, class... Types>
@@ -181,7 +181,7 @@ const variant_alternative_t<I, DynamicVariant<Types...>>&& get(const DynamicVari
     {
         throw BadVariantAccess();
     }
-    return v.template value<variant_alternative_t<I, DynamicVariant<Types...>>>();
+    return std::move(v.template value<variant_alternative_t<I, DynamicVariant<Types...>>>());
 }
 
 template <std::size_t I, class... Types>
-- 
2.43.0


From 71ee5e432ec511b2d160c13c7a1035e562dcea7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:12 +0000
Subject: [PATCH 20/66] fix: get a reference to the alternative of a Choice in
 dynamic storage or from an rvalue

---
 include/fast_ber/ber_types/Choice.hpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/include/fast_ber/ber_types/Choice.hpp b/include/fast_ber/ber_types/Choice.hpp
index 4a91fcc..1572fbb 100644
--- a/include/fast_ber/ber_types/Choice.hpp
+++ b/include/fast_ber/ber_types/Choice.hpp
@@ -185,7 +185,7 @@ T& get(Choice<Choices<Types...>, Identifier, StorageMode::static_>& v)
 template <class T, typename... Types, typename Identifier>
 T&& get(Choice<Choices<Types...>, Identifier, StorageMode::static_>&& v)
 {
-    return absl::get<T>(v.base());
+    return std::move(absl::get<T>(v.base()));
 }
 
 template <class T, typename... Types, typename Identifier>
@@ -197,7 +197,7 @@ const T& get(const Choice<Choices<Types...>, Identifier, StorageMode::static_>&
 template <class T, typename... Types, typename Identifier>
 const T&& get(const Choice<Choices<Types...>, Identifier, StorageMode::static_>&& v)
 {
-    return absl::get<T>(v.base());
+    return std::move(absl::get<T>(v.base()));
 }
 
 template <std::size_t I, typename... Types, typename Identifier>
@@ -211,7 +211,7 @@ template <std::size_t I, typename... Types, typename Identifier>
 variant_alternative_t<I, Choice<Choices<Types...>, Identifier, StorageMode::static_>>&&
 get(Choice<Choices<Types...>, Identifier, StorageMode::static_>&& v)
 {
-    return absl::get<I>(v.base());
+    return std::move(absl::get<I>(v.base()));
 }
 
 template <std::size_t I, typename... Types, typename Identifier>
@@ -225,15 +225,21 @@ template <std::size_t I, typename... Types, typename Identifier>
 const variant_alternative_t<I, Choice<Choices<Types...>, Identifier, StorageMode::static_>>&&
 get(const Choice<Choices<Types...>, Identifier, StorageMode::static_>&& v)
 {
-    return absl::get<I>(v.base());
+    return std::move(absl::get<I>(v.base()));
 }
 
 template <class T, typename... Types, typename Identifier>
-T&& get(Choice<Choices<Types...>, Identifier, StorageMode::dynamic>&& v)
+T& get(Choice<Choices<Types...>, Identifier, StorageMode::dynamic>& v)
 {
     return fast_ber::dynamic::get<T>(v.base());
 }
 
+template <class T, typename... Types, typename Identifier>
+T&& get(Choice<Choices<Types...>, Identifier, StorageMode::dynamic>&& v)
+{
+    return std::move(fast_ber::dynamic::get<T>(v.base()));
+}
+
 template <class T, typename... Types, typename Identifier>
 const T& get(const Choice<Choices<Types...>, Identifier, StorageMode::dynamic>& v)
 {
@@ -243,7 +249,7 @@ const T& get(const Choice<Choices<Types...>, Identifier, StorageMode::dynamic>&
 template <class T, typename... Types, typename Identifier>
 const T&& get(const Choice<Choices<Types...>, Identifier, StorageMode::dynamic>&& v)
 {
-    return fast_ber::dynamic::get<T>(v.base());
+    return std::move(fast_ber::dynamic::get<T>(v.base()));
 }
 
 template <std::size_t I, typename... Types, typename Identifier>
@@ -257,7 +263,7 @@ template <std::size_t I, typename... Types, typename Identifier>
 variant_alternative_t<I, Choice<Choices<Types...>, Identifier, StorageMode::dynamic>>&&
 get(Choice<Choices<Types...>, Identifier, StorageMode::dynamic>&& v)
 {
-    return fast_ber::dynamic::get<I>(v.base());
+    return std::move(fast_ber::dynamic::get<I>(v.base()));
 }
 
 template <std::size_t I, typename... Types, typename Identifier>
@@ -271,7 +277,7 @@ template <std::size_t I, typename... Types, typename Identifier>
 const variant_alternative_t<I, Choice<Choices<Types...>, Identifier, StorageMode::dynamic>>&&
 get(const Choice<Choices<Types...>, Identifier, StorageMode::dynamic>&& v)
 {
-    return fast_ber::dynamic::get<I>(v.base());
+    return std::move(fast_ber::dynamic::get<I>(v.base()));
 }
 
 template <std::size_t I, typename... Types, typename Identifier>
@@ -366,7 +372,7 @@ struct Choice<Choices<Types...>, Identifier, storage>
                                                        ExactlyOnce<AcceptedType<T&&>>::value &&
                                                        std::is_constructible<AcceptedType<T&&>, T&&>::value>>
     Choice(T&& t) noexcept(std::is_nothrow_constructible<AcceptedType<T&&>, T&&>::value)
-        : m_base(typename Implementation::template InPlaceType<AcceptedType<T&&>>{}, t)
+        : m_base(typename Implementation::template InPlaceType<AcceptedType<T&&>>{}, std::forward<T>(t))
     {
         assert(holds_alternative<AcceptedType<T&&>>(*this));
     }
-- 
2.43.0


From 84fdea0cb917c21cded6bd05e3df03e05ad009a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:38 +0000
Subject: [PATCH 21/66] fix: let a small container take its contents from
 itself

---
 include/fast_ber/util/SmallFixedIdBerContainer.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fast_ber/util/SmallFixedIdBerContainer.hpp b/include/fast_ber/util/SmallFixedIdBerContainer.hpp
index 7fe0545..b4562cd 100644
--- a/include/fast_ber/util/SmallFixedIdBerContainer.hpp
+++ b/include/fast_ber/util/SmallFixedIdBerContainer.hpp
@@ -136,7 +136,7 @@ DecodeResult SmallFixedIdBerContainer<Identifier, max_content_length>::decode_im
         return DecodeResult{false};
     }
 
-    std::memcpy(m_data.data() + m_header_length, input_view.content_data(), input_view.content_length());
+    std::memmove(m_data.data() + m_header_length, input_view.content_data(), input_view.content_length());
     set_content_length(input_view.content_length());
 
     return DecodeResult{true};
@@ -158,8 +158,8 @@ SmallFixedIdBerContainer<Identifier, max_content_length>::decode_impl(const BerV
         return DecodeResult{false};
     }
 
-    std::memcpy(m_data.data() + m_header_length, input_view.begin()->content_data(),
-                input_view.begin()->content_length());
+    std::memmove(m_data.data() + m_header_length, input_view.begin()->content_data(),
+                 input_view.begin()->content_length());
     set_content_length(input_view.begin()->content_length());
 
     return DecodeResult{true};
@@ -171,7 +171,7 @@ void SmallFixedIdBerContainer<Identifier, max_content_length>::assign_content(
 {
     assert(input_content.length() <= max_content_length);
 
-    std::memcpy(m_data.data() + m_header_length, input_content.data(), input_content.length());
+    std::memmove(m_data.data() + m_header_length, input_content.data(), input_content.length());
     set_content_length(input_content.length());
 
     assert(view().is_valid());
-- 
2.43.0


From a112b646d9059c2889cd2f31506ae4047e768c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:02 +0000
Subject: [PATCH 22/66] fix: let Choice::emplace deduce the argument types of
 its alternative

---
 include/fast_ber/ber_types/Choice.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fast_ber/ber_types/Choice.hpp b/include/fast_ber/ber_types/Choice.hpp
index 1572fbb..409adad 100644
--- a/include/fast_ber/ber_types/Choice.hpp
+++ b/include/fast_ber/ber_types/Choice.hpp
@@ -427,7 +427,7 @@ struct Choice<Choices<Types...>, Identifier, storage>
               typename = absl::enable_if_t<std::is_constructible<T, Args...>::value && ExactlyOnce<T>::value>>
     T& emplace(Args&&... args)
     {
-        return m_base.template emplace<T, Args...>(std::forward<Args>(args)...);
+        return m_base.template emplace<T>(std::forward<Args>(args)...);
     }
 
     template <typename T, typename U, typename... Args,
@@ -435,7 +435,7 @@ struct Choice<Choices<Types...>, Identifier, storage>
                                            ExactlyOnce<T>::value>>
     T& emplace(std::initializer_list<U> il, Args&&... args)
     {
-        return m_base.template emplace<T, U, Args...>(il, std::forward<Args>(args)...);
+        return m_base.template emplace<T>(il, std::forward<Args>(args)...);
     }
 
     template <size_t i, typename... Args>
-- 
2.43.0


From 6e326020d3e7849bfc54c49f53d4898b1c4ec31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:02 +0000
Subject: [PATCH 23/66] fix: let a Choice be assigned from its own alternative

---
 include/fast_ber/ber_types/Choice.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fast_ber/ber_types/Choice.hpp b/include/fast_ber/ber_types/Choice.hpp
index 409adad..afd082e 100644
--- a/include/fast_ber/ber_types/Choice.hpp
+++ b/include/fast_ber/ber_types/Choice.hpp
@@ -419,7 +419,8 @@ struct Choice<Choices<Types...>, Identifier, storage>
     operator=(T&& t) noexcept(std::is_nothrow_assignable<AcceptedType<T&&>&, T&&>::value&&
                                   std::is_nothrow_constructible<AcceptedType<T&&>, T&&>::value)
     {
-        m_base.template emplace<AcceptedType<T&&>>(std::forward<T&&>(t));
+        // Construct before destroying the current alternative, t may be part of it
+        m_base.template emplace<AcceptedType<T&&>>(AcceptedType<T&&>(std::forward<T>(t)));
         return *this;
     }
 
-- 
2.43.0


From 5455d276411460d51b8339bdd7f47ab202d7922b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:53 +0000
Subject: [PATCH 24/66] fix: advance past a decoded default component

---
 include/fast_ber/ber_types/Default.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fast_ber/ber_types/Default.hpp b/include/fast_ber/ber_types/Default.hpp
index d9f408a..480af0f 100644
--- a/include/fast_ber/ber_types/Default.hpp
+++ b/include/fast_ber/ber_types/Default.hpp
@@ -171,7 +171,9 @@ DecodeResult decode(BerViewIterator& input, Default<T, DefaultValue>& output) no
 {
     if (input->is_valid() && Identifier<T>::check_id_match(input->class_(), input->tag()))
     {
-        return output.decode(*input);
+        DecodeResult res = output.decode(*input);
+        ++input;
+        return res;
     }
     else
     {
-- 
2.43.0


From 4cc4c55021e8ef62cdd024f92a367fd879ff8566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:10 +0000
Subject: [PATCH 25/66] fix: let Default::value() be called

---
 include/fast_ber/ber_types/Default.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fast_ber/ber_types/Default.hpp b/include/fast_ber/ber_types/Default.hpp
index 480af0f..6e8e7cc 100644
--- a/include/fast_ber/ber_types/Default.hpp
+++ b/include/fast_ber/ber_types/Default.hpp
@@ -41,7 +41,7 @@ struct Default
     Default& operator=(const char* val);
 
     const T&              get() const noexcept { return is_default() ? m_default : *m_item; }
-    decltype(T{}.value()) value() const noexcept(T{}.value()) { return get().value(); }
+    decltype(T{}.value()) value() const noexcept(noexcept(T{}.value())) { return get().value(); }
     bool                  is_default() const noexcept { return !m_item; }
     void                  set_to_default() noexcept { m_item = absl::nullopt; }
 
-- 
2.43.0


From 5452b795eb188d77ff32bc1c0edb649804735564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:10 +0000
Subject: [PATCH 26/66] fix: move the value of a dynamic Optional, not its
 presence

---
 include/fast_ber/ber_types/Optional.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/fast_ber/ber_types/Optional.hpp b/include/fast_ber/ber_types/Optional.hpp
index ae42f2e..186017c 100644
--- a/include/fast_ber/ber_types/Optional.hpp
+++ b/include/fast_ber/ber_types/Optional.hpp
@@ -70,14 +70,15 @@ struct IdentifierType<Optional<T, s1>>
 };
 
 template <typename T, StorageMode s1>
-Optional<T, s1>::Optional(Optional<T, s1>&& rhs) noexcept : Implementation(std::move(rhs))
+Optional<T, s1>::Optional(Optional<T, s1>&& rhs) noexcept : Implementation(static_cast<Implementation&&>(rhs))
 {
 }
 
 template <typename T, StorageMode s1>
 Optional<T, s1>& Optional<T, s1>::operator=(Optional<T, s1>&& rhs) noexcept
 {
-    this->Implementation::operator=(std::move(rhs));
+    // The implementation, rhs itself would be taken as a value
+    this->Implementation::operator=(static_cast<Implementation&&>(rhs));
     return *this;
 }
 
-- 
2.43.0


From cd9a27c31e8c8c84755d880c9c5ba510a393e235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:53 +0000
Subject: [PATCH 27/66] fix: a SET without components accepts any element as
 its content

---
 src/compiler/EncodeDecode.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/compiler/EncodeDecode.cpp b/src/compiler/EncodeDecode.cpp
index 16501f4..aeb5b50 100644
--- a/src/compiler/EncodeDecode.cpp
+++ b/src/compiler/EncodeDecode.cpp
@@ -418,6 +418,16 @@ CodeBlock create_collection_decode_functions(const std::string& name, const Coll
                 }
             }
         }
+        else if (std::is_same<CollectionType, SetType>::value && !collection.allow_extensions)
+        {
+            block.add_line("const BerView content = (Identifier_::depth() == 1) ? input : *input.begin();");
+            block.add_line("if (content.begin()->is_valid())");
+            {
+                auto scope2 = CodeScope(block);
+                block.add_line(R"(FAST_BER_ERROR("Invalid ID when decoding set [)" + name + R"(]");)");
+                block.add_line("return DecodeResult{false};");
+            }
+        }
         block.add_line("return DecodeResult{true};");
     }
 
-- 
2.43.0


From 1e892bf1dc1abaf3acd3020186a4da689b032e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:52 +0000
Subject: [PATCH 28/66] fix: a member whose type would be named as its
 enclosing type does not compile

---
 src/compiler/CppGeneration.cpp                   |  5 +++++
 src/compiler/GenerateChoice.cpp                  | 12 ++++++------
 src/compiler/include/fast_ber/compiler/Visit.hpp | 13 ++++++++-----
 3 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/compiler/CppGeneration.cpp b/src/compiler/CppGeneration.cpp
index dbe48c1..3bd1820 100644
--- a/src/compiler/CppGeneration.cpp
+++ b/src/compiler/CppGeneration.cpp
@@ -67,6 +67,11 @@ std::string make_type_name(std::string name, absl::string_view parent_name)
 {
     assert(!name.empty());
     name[0] = std::toupper(name[0]);
+    const std::size_t scope = parent_name.rfind("::");
+    if (scope != absl::string_view::npos)
+    {
+        parent_name.remove_prefix(scope + 2);
+    }
     if (name == parent_name) // C++ types may not share a name with their enclosing class
     {
         return name + '_';
diff --git a/src/compiler/GenerateChoice.cpp b/src/compiler/GenerateChoice.cpp
index bdf4e9e..1357c58 100644
--- a/src/compiler/GenerateChoice.cpp
+++ b/src/compiler/GenerateChoice.cpp
@@ -16,7 +16,7 @@ CodeBlock create_choice_definition(const ChoiceType& choice, const Module& modul
             type_list += ", ";
         is_first = false;
 
-        type_list += make_type_name(named_type.name);
+        type_list += make_type_name(named_type.name, name);
     }
 
     const auto  id = identifier_override.empty() ? identifier(choice, module, tree).name() : identifier_override;
@@ -34,13 +34,13 @@ CodeBlock create_choice_definition(const ChoiceType& choice, const Module& modul
             if (module.tagging_default == TaggingMode::automatic)
             {
                 std::string choice_id = Identifier(Class::context_specific, tag_counter++).name();
-                block.add_block(create_type_assignment(make_type_name(named_type.name), named_type.type, module, tree,
-                                                       choice_id, false));
+                block.add_block(create_type_assignment(make_type_name(named_type.name, name), named_type.type, module,
+                                                       tree, choice_id, false));
             }
             else
             {
-                block.add_block(
-                    create_type_assignment(make_type_name(named_type.name), named_type.type, module, tree, {}, false));
+                block.add_block(create_type_assignment(make_type_name(named_type.name, name), named_type.type, module,
+                                                       tree, {}, false));
             }
         }
         block.add_line("using Storage = " + storage + ';');
@@ -229,7 +229,7 @@ CodeBlock create_choice_holds_alternative(const std::string& name, const ChoiceT
         std::size_t i = 0;
         for (const auto& named_type : choice.choices)
         {
-            const std::string choice_type_name = name + "::" + make_type_name(named_type.name);
+            const std::string choice_type_name = name + "::" + make_type_name(named_type.name, name);
             block.add_line("if (std::is_same<T, " + choice_type_name + ">::value && c.index() == " + std::to_string(i) +
                            ") { return true; }");
             ++i;
diff --git a/src/compiler/include/fast_ber/compiler/Visit.hpp b/src/compiler/include/fast_ber/compiler/Visit.hpp
index b4e1704..4cd287d 100644
--- a/src/compiler/include/fast_ber/compiler/Visit.hpp
+++ b/src/compiler/include/fast_ber/compiler/Visit.hpp
@@ -13,7 +13,8 @@ CodeBlock visit_all_types(const Asn1Tree& tree, const Module& module, const Type
         const SequenceType& sequence = absl::get<SequenceType>(absl::get<BuiltinType>(type));
         for (const ComponentType& component : sequence.components)
         {
-            const std::string name = context_namespace + "::" + make_type_name(component.named_type.name);
+            const std::string name =
+                context_namespace + "::" + make_type_name(component.named_type.name, context_namespace);
             block.add_block(
                 visit_all_types(tree, module, component.named_type.type, name, std::forward<Function>(func)));
         }
@@ -23,7 +24,8 @@ CodeBlock visit_all_types(const Asn1Tree& tree, const Module& module, const Type
         const SetType& set = absl::get<SetType>(absl::get<BuiltinType>(type));
         for (const ComponentType& component : set.components)
         {
-            const std::string name = context_namespace + "::" + make_type_name(component.named_type.name);
+            const std::string name =
+                context_namespace + "::" + make_type_name(component.named_type.name, context_namespace);
             block.add_block(
                 visit_all_types(tree, module, component.named_type.type, name, std::forward<Function>(func)));
         }
@@ -33,7 +35,8 @@ CodeBlock visit_all_types(const Asn1Tree& tree, const Module& module, const Type
         const SequenceOfType& sequence = absl::get<SequenceOfType>(absl::get<BuiltinType>(type));
         if (sequence.has_name)
         {
-            const std::string name = context_namespace + "::" + make_type_name(sequence.named_type->name);
+            const std::string name =
+                context_namespace + "::" + make_type_name(sequence.named_type->name, context_namespace);
             block.add_block(
                 visit_all_types(tree, module, sequence.named_type->type, name, std::forward<Function>(func)));
         }
@@ -43,7 +46,7 @@ CodeBlock visit_all_types(const Asn1Tree& tree, const Module& module, const Type
         const SetOfType& set = absl::get<SetOfType>(absl::get<BuiltinType>(type));
         if (set.has_name)
         {
-            const std::string name = context_namespace + "::" + make_type_name(set.named_type->name);
+            const std::string name = context_namespace + "::" + make_type_name(set.named_type->name, context_namespace);
             block.add_block(visit_all_types(tree, module, set.named_type->type, name, std::forward<Function>(func)));
         }
     }
@@ -52,7 +55,7 @@ CodeBlock visit_all_types(const Asn1Tree& tree, const Module& module, const Type
         const ChoiceType& choice = absl::get<ChoiceType>(absl::get<BuiltinType>(type));
         for (const NamedType& named_type : choice.choices)
         {
-            const std::string name = context_namespace + "::" + make_type_name(named_type.name);
+            const std::string name = context_namespace + "::" + make_type_name(named_type.name, context_namespace);
             block.add_block(visit_all_types(tree, module, named_type.type, name, std::forward<Function>(func)));
         }
     }
-- 
2.43.0


From dd0b20016e6b31b07fe408b2412efeea8717ce34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 29/66] fix: the explicit tag of a CHOICE is encoded twice, the
 second time as universal 0

---
 src/compiler/Identifier.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compiler/Identifier.cpp b/src/compiler/Identifier.cpp
index f495896..10bccb1 100644
--- a/src/compiler/Identifier.cpp
+++ b/src/compiler/Identifier.cpp
@@ -187,7 +187,11 @@ TaggingInfo identifier(const TaggedType& tagged_type, const Module& current_modu
     }
 
     const TaggingInfo& child_tag = identifier(tagged_type.type, current_module, tree);
-    if (is_explicit || child_tag.outer_tag)
+    if (!child_tag.outer_tag && !child_tag.choice_ids.empty()) // A choice has no tag of its own
+    {
+        return TaggingInfo{{}, Identifier(tagged_type.tag.class_, tagged_type.tag.tag_number), {}, false};
+    }
+    else if (is_explicit || child_tag.outer_tag)
     {
         return TaggingInfo{
             Identifier(tagged_type.tag.class_, tagged_type.tag.tag_number), child_tag.inner_tag, {}, false};
-- 
2.43.0


From b3b57934cc685eedbb45e0c73e871243b2d9a6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 30/66] fix: a CHOICE takes an element of another class with
 the tag number of an alternative

---
 src/compiler/EncodeDecode.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/compiler/EncodeDecode.cpp b/src/compiler/EncodeDecode.cpp
index aeb5b50..f4b631e 100644
--- a/src/compiler/EncodeDecode.cpp
+++ b/src/compiler/EncodeDecode.cpp
@@ -444,15 +444,15 @@ CodeBlock create_choice_decode_functions(const std::string& name, const ChoiceTy
     {
         auto scope1 = CodeScope(block);
         block.add_line("BerView content(input);");
+        block.add_line("if (!input.is_valid())");
+        {
+            auto scope2 = CodeScope(block);
+            block.add_line(R"(FAST_BER_ERROR("Invalid packet when decoding choice [)" + name + R"(]");)");
+            block.add_line("return DecodeResult{false};");
+        }
         block.add_line("if (!IsChoiceId<Identifier>::value)");
         {
             auto scope2 = CodeScope(block);
-            block.add_line("if (!input.is_valid())");
-            {
-                auto scope3 = CodeScope(block);
-                block.add_line(R"(FAST_BER_ERROR("Invalid packet when decoding choice [)" + name + R"(]");)");
-                block.add_line("return DecodeResult{false};");
-            }
             block.add_line("if (!has_correct_header(input, Identifier{}, Construction::constructed))");
             {
                 auto scope3 = CodeScope(block);
@@ -476,9 +476,11 @@ CodeBlock create_choice_decode_functions(const std::string& name, const ChoiceTy
 
         if (module.tagging_default == TaggingMode::automatic)
         {
+            block.add_line("if (content.class_() == " + to_string(Class::context_specific) + ")");
+            auto scope2 = CodeScope(block);
             block.add_line("switch (content.tag())");
             {
-                auto scope2 = CodeScope(block);
+                auto scope3 = CodeScope(block);
                 for (std::size_t i = 0; i < choice.choices.size(); i++)
                 {
                     block.add_line("case " + std::to_string(i) + ":");
@@ -500,8 +502,10 @@ CodeBlock create_choice_decode_functions(const std::string& name, const ChoiceTy
                 if (std::any_of(outer_ids.begin(), outer_ids.end(),
                                 [class_](const Identifier& id) { return id.class_ == class_; }))
                 {
+                    block.add_line("if (content.class_() == " + to_string(class_) + ")");
+                    auto scope2 = CodeScope(block);
                     block.add_line("switch (content.tag())");
-                    auto        scope2 = CodeScope(block);
+                    auto        scope3 = CodeScope(block);
                     std::size_t i      = 0;
                     for (const NamedType& named_type : choice.choices)
                     {
-- 
2.43.0


From ad13ef705bf286f9db0af1ef6c01beee80c7739b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 31/66] fix: a tagged or aliased SEQUENCE OF or ENUMERATED type
 is generated under a name which does not exist

---
 src/compiler/ResolveType.cpp  |  4 ++--
 src/compiler/TypeAsString.cpp | 17 ++++++++++-------
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/compiler/ResolveType.cpp b/src/compiler/ResolveType.cpp
index 18cdd19..c7f4109 100644
--- a/src/compiler/ResolveType.cpp
+++ b/src/compiler/ResolveType.cpp
@@ -184,9 +184,9 @@ NamedTypeAndModule resolve_type_and_module(const Asn1Tree& tree, const std::stri
             if (is_defined(prefixed.tagged_type->type))
             {
                 NamedTypeAndModule const& inner = resolve_type_and_module(
-                    tree, current_module_reference, absl::get<DefinedType>(prefixed.tagged_type->type));
+                    tree, working_module.module_reference, absl::get<DefinedType>(prefixed.tagged_type->type));
                 prefixed.tagged_type->type = inner.type.type;
-                return {NamedType{assignment.name, prefixed}, inner.module};
+                return {NamedType{inner.type.name, prefixed}, inner.module};
             }
             else
             {
diff --git a/src/compiler/TypeAsString.cpp b/src/compiler/TypeAsString.cpp
index cc443b4..33e3e48 100644
--- a/src/compiler/TypeAsString.cpp
+++ b/src/compiler/TypeAsString.cpp
@@ -315,7 +315,7 @@ std::string type_as_string(const SetOfType& set, const Module& module, const Asn
     return type_as_string(set.base(), module, tree, type_name, identifier_override);
 }
 std::string type_as_string(const PrefixedType& prefixed_type, const Module& module, const Asn1Tree& tree,
-                           const std::string&, const std::string& identifier_override)
+                           const std::string& type_name, const std::string& identifier_override)
 {
     auto id = identifier(prefixed_type, module, tree).name();
     if (!identifier_override.empty())
@@ -323,7 +323,7 @@ std::string type_as_string(const PrefixedType& prefixed_type, const Module& modu
         id = identifier_override;
     }
 
-    return type_as_string(prefixed_type.tagged_type->type, module, tree, "", id);
+    return type_as_string(prefixed_type.tagged_type->type, module, tree, type_name, id);
 }
 std::string type_as_string(const TimeType& type, const Module& module, const Asn1Tree& tree, const std::string&,
                            const std::string& identifier_override)
@@ -345,10 +345,13 @@ std::string type_as_string(const DefinedType& defined_type, const Module& module
 {
     if (!identifier_override.empty())
     {
-        NamedType resolved = resolve_type(tree, module.module_reference, defined_type);
-        if (!is_generated(resolved.type))
+        const NamedTypeAndModule resolved = resolve_type_and_module(tree, module.module_reference, defined_type);
+        if (!is_generated(resolved.type.type))
         {
-            return type_as_string(resolved.type, module, tree, defined_type.type_reference, identifier_override);
+            // Types declared along with the resolved type (enumeration values, contained types) go by its name
+            const std::string resolved_name =
+                "::fast_ber::" + resolved.module.module_reference + "::" + resolved.type.name;
+            return type_as_string(resolved.type.type, resolved.module, tree, resolved_name, identifier_override);
         }
     }
 
@@ -465,8 +468,8 @@ CodeBlock create_type_assignment(const std::string& name, const Type& assignment
             NamedTypeAndModule const& resolved = resolve_type_and_module(tree, module.module_reference, defined_type);
             if (is_enumerated(resolved.type.type) && resolved.module.module_reference != module.module_reference)
             {
-                block.add_line("using " + defined_type.type_reference + "Values = ::fast_ber::" +
-                               resolved.module.module_reference + "::" + defined_type.type_reference + "Values;");
+                block.add_line("using " + name + "Values = ::fast_ber::" + resolved.module.module_reference +
+                               "::" + resolved.type.name + "Values;");
             }
         }
         if (introduce_type)
-- 
2.43.0


From ac0907c4bd8cbdfb5f74f33fae22c236bd6b1aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 32/66] fix: a component with an ENUMERATED type defined in
 place and a DEFAULT does not compile

---
 src/compiler/TypeAsString.cpp | 46 +++++++++++++++++++----------------
 src/compiler/ValueType.cpp    |  4 +--
 2 files changed, 27 insertions(+), 23 deletions(-)

diff --git a/src/compiler/TypeAsString.cpp b/src/compiler/TypeAsString.cpp
index 33e3e48..50444f1 100644
--- a/src/compiler/TypeAsString.cpp
+++ b/src/compiler/TypeAsString.cpp
@@ -26,27 +26,6 @@ CodeBlock create_collection_definition(const Collection& collection, const Modul
     {
         CodeScope scope(block, true);
 
-        bool has_defaults = false;
-        for (const ComponentType& component : collection.components)
-        {
-            if (component.default_value)
-            {
-                std::string name = component.named_type.name;
-                name[0]          = std::toupper(name[0]);
-                block.add_line("struct DefaultValue" + name + " { constexpr static " +
-                               value_type(component.named_type.type, module, tree, component.named_type.name, {}) +
-                               " get_value() noexcept { return " +
-                               value_as_string(resolve_type(tree, module.module_reference, component.named_type),
-                                               *component.default_value) +
-                               "; } };");
-                has_defaults = true;
-            }
-        }
-        if (has_defaults)
-        {
-            block.add_line();
-        }
-
         int64_t tag_counter = 0;
 
         // Define child types
@@ -69,6 +48,31 @@ CodeBlock create_collection_definition(const Collection& collection, const Modul
             block.add_line();
         }
 
+        bool has_defaults = false;
+        for (const ComponentType& component : collection.components)
+        {
+            if (component.default_value)
+            {
+                std::string name = component.named_type.name;
+                name[0]          = std::toupper(name[0]);
+
+                NamedType resolved = resolve_type(tree, module.module_reference, component.named_type);
+                if (resolved.name == component.named_type.name) // Defined in place
+                {
+                    resolved.name = make_type_name(resolved.name, type_name);
+                }
+                block.add_line("struct DefaultValue" + name + " { constexpr static " +
+                               value_type(component.named_type.type, module, tree, resolved.name, {}) +
+                               " get_value() noexcept { return " + value_as_string(resolved, *component.default_value) +
+                               "; } };");
+                has_defaults = true;
+            }
+        }
+        if (has_defaults)
+        {
+            block.add_line();
+        }
+
         for (const ComponentType& component : collection.components)
         {
             std::string component_type = make_type_name(component.named_type.name, type_name);
diff --git a/src/compiler/ValueType.cpp b/src/compiler/ValueType.cpp
index bf4588d..98b05cd 100644
--- a/src/compiler/ValueType.cpp
+++ b/src/compiler/ValueType.cpp
@@ -172,7 +172,7 @@ std::string value_type(const SetOfType& set, const Module& module, const Asn1Tre
     return res;
 }
 std::string value_type(const PrefixedType& prefixed_type, const Module& module, const Asn1Tree& tree,
-                       const std::string&, const std::string& identifier_override)
+                       const std::string& type_name, const std::string& identifier_override)
 {
     auto id = identifier(prefixed_type, module, tree).name();
     if (!identifier_override.empty())
@@ -180,7 +180,7 @@ std::string value_type(const PrefixedType& prefixed_type, const Module& module,
         id = identifier_override;
     }
 
-    return value_type(prefixed_type.tagged_type->type, module, tree, "", id);
+    return value_type(prefixed_type.tagged_type->type, module, tree, type_name, id);
 }
 std::string value_type(const TimeType&, const Module&, const Asn1Tree&, const std::string&,
                        const std::string& identifier_override)
-- 
2.43.0


From 1d8019a5c309f3e9fdf82fea2fc4441a75bc2f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:06 +0000
Subject: [PATCH 33/66] fix: values and defaults of tagged, aliased and
 imported enumerated types do not compile

---
 src/compiler/Dependencies.cpp       |  5 ++-
 src/compiler/ReorderAssignments.cpp | 66 +++++++++++++++++++++++++----
 src/compiler/TypeAsString.cpp       |  7 ++-
 src/compiler/ValueAsString.cpp      |  8 +++-
 src/compiler/ValueType.cpp          |  5 ++-
 src/compiler_main/CompilerMain.cpp  | 20 ++++++---
 6 files changed, 91 insertions(+), 20 deletions(-)

diff --git a/src/compiler/Dependencies.cpp b/src/compiler/Dependencies.cpp
index 0f80a69..07af930 100644
--- a/src/compiler/Dependencies.cpp
+++ b/src/compiler/Dependencies.cpp
@@ -1,5 +1,7 @@
 #include "fast_ber/compiler/Dependencies.hpp"
 
+#include <cctype>
+
 std::vector<Dependency> depends_on(const BitStringType&) { return {}; }
 std::vector<Dependency> depends_on(const BooleanType&) { return {}; }
 std::vector<Dependency> depends_on(const CharacterStringType&) { return {}; }
@@ -145,7 +147,8 @@ void get_dependencies_recursive(const std::string& type_name, const std::string&
 
     for (const Dependency& dependency : assignment_map.find(type_name)->second.depends_on)
     {
-        if (!dependency.module_reference || dependency.module_reference == module_name)
+        const bool is_type = std::isupper(dependency.name[0]); // Values do not contain types
+        if (is_type && (!dependency.module_reference || dependency.module_reference == module_name))
         {
             if (depends.count(dependency) == 0)
             {
diff --git a/src/compiler/ReorderAssignments.cpp b/src/compiler/ReorderAssignments.cpp
index a72771d..4fb9f50 100644
--- a/src/compiler/ReorderAssignments.cpp
+++ b/src/compiler/ReorderAssignments.cpp
@@ -129,6 +129,22 @@ void resolve_components_of(Asn1Tree& tree)
     }
 }
 
+// A name used as a value of a type may be an enumerator, or may be imported
+bool refers_to_assignment(const Asn1Tree& tree, const Module& module, const Type& type, const std::string& reference)
+{
+    Type resolved = resolve_type(tree, module.module_reference, NamedType{reference, type}).type;
+    while (is_prefixed(resolved))
+    {
+        resolved = Type(absl::get<PrefixedType>(absl::get<BuiltinType>(resolved)).tagged_type->type);
+    }
+
+    return !is_enumerated(resolved) &&
+           std::none_of(module.imports.begin(), module.imports.end(), [&](const Import& import) {
+               return std::find(import.imported_values.begin(), import.imported_values.end(), reference) !=
+                      import.imported_values.end();
+           });
+}
+
 void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignment_infos, const std::string& name,
                           const Asn1Tree& tree, const Module& module, std::unordered_set<std::string>& assigned_names,
                           std::unordered_set<std::string>& visited_names,
@@ -233,16 +249,23 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
             {
                 for (const Dependency& dependency : depends_on(component.named_type.type))
                 {
+                    if (dependency.module_reference && dependency.module_reference != module.module_reference)
+                    {
+                        continue;
+                    }
+
                     resolve_dependencies(assignment_infos, dependency.name, tree, module, assigned_names, visited_names,
                                          ordered_assignment_infos);
                 }
 
-                if (absl::holds_alternative<DefinedValue>(component.default_value->value_selection) &&
-                    !is_enumerated(resolve_type(tree, module.module_reference, component.named_type).type))
+                if (absl::holds_alternative<DefinedValue>(component.default_value->value_selection))
                 {
                     const DefinedValue& defined = absl::get<DefinedValue>(component.default_value->value_selection);
-                    resolve_dependencies(assignment_infos, defined.reference, tree, module, assigned_names,
-                                         visited_names, ordered_assignment_infos);
+                    if (refers_to_assignment(tree, module, component.named_type.type, defined.reference))
+                    {
+                        resolve_dependencies(assignment_infos, defined.reference, tree, module, assigned_names,
+                                             visited_names, ordered_assignment_infos);
+                    }
                 }
             }
             // If circular dependancy, use dynamic storage. Else, resolve and use static storage
@@ -257,6 +280,11 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
             {
                 for (const Dependency& dependency : depends_on(component.named_type.type))
                 {
+                    if (dependency.module_reference && dependency.module_reference != module.module_reference)
+                    {
+                        continue;
+                    }
+
                     resolve_dependencies(assignment_infos, dependency.name, tree, module, assigned_names, visited_names,
                                          ordered_assignment_infos);
                 }
@@ -272,16 +300,23 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
             {
                 for (const Dependency& dependency : depends_on(component.named_type.type))
                 {
+                    if (dependency.module_reference && dependency.module_reference != module.module_reference)
+                    {
+                        continue;
+                    }
+
                     resolve_dependencies(assignment_infos, dependency.name, tree, module, assigned_names, visited_names,
                                          ordered_assignment_infos);
                 }
 
-                if (absl::holds_alternative<DefinedValue>(component.default_value->value_selection) &&
-                    !is_enumerated(resolve_type(tree, module.module_reference, component.named_type).type))
+                if (absl::holds_alternative<DefinedValue>(component.default_value->value_selection))
                 {
                     const DefinedValue& defined = absl::get<DefinedValue>(component.default_value->value_selection);
-                    resolve_dependencies(assignment_infos, defined.reference, tree, module, assigned_names,
-                                         visited_names, ordered_assignment_infos);
+                    if (refers_to_assignment(tree, module, component.named_type.type, defined.reference))
+                    {
+                        resolve_dependencies(assignment_infos, defined.reference, tree, module, assigned_names,
+                                             visited_names, ordered_assignment_infos);
+                    }
                 }
             }
             // If circular dependancy, use dynamic storage. Else, resolve and use static storage
@@ -296,6 +331,11 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
             {
                 for (const Dependency& dependency : depends_on(component.named_type.type))
                 {
+                    if (dependency.module_reference && dependency.module_reference != module.module_reference)
+                    {
+                        continue;
+                    }
+
                     resolve_dependencies(assignment_infos, dependency.name, tree, module, assigned_names, visited_names,
                                          ordered_assignment_infos);
                 }
@@ -329,7 +369,15 @@ std::vector<Assignment> reorder_assignments(std::vector<Assignment>& assignments
     assignment_map.reserve(assignments.size());
     for (Assignment& assignment : assignments)
     {
-        assignment.depends_on           = dependencies(assignment);
+        assignment.depends_on = dependencies(assignment);
+        if (is_value(assignment) && absl::holds_alternative<DefinedValue>(value(assignment).value.value_selection))
+        {
+            const DefinedValue& defined = absl::get<DefinedValue>(value(assignment).value.value_selection);
+            if (!refers_to_assignment(tree, module, value(assignment).type, defined.reference))
+            {
+                assignment.depends_on = dependencies(value(assignment).type);
+            }
+        }
         assignment_map[assignment.name] = assignment;
     }
 
diff --git a/src/compiler/TypeAsString.cpp b/src/compiler/TypeAsString.cpp
index 50444f1..e94346c 100644
--- a/src/compiler/TypeAsString.cpp
+++ b/src/compiler/TypeAsString.cpp
@@ -56,11 +56,16 @@ CodeBlock create_collection_definition(const Collection& collection, const Modul
                 std::string name = component.named_type.name;
                 name[0]          = std::toupper(name[0]);
 
-                NamedType resolved = resolve_type(tree, module.module_reference, component.named_type);
+                NamedTypeAndModule found = resolve_type_and_module(tree, module.module_reference, component.named_type);
+                NamedType          resolved = found.type;
                 if (resolved.name == component.named_type.name) // Defined in place
                 {
                     resolved.name = make_type_name(resolved.name, type_name);
                 }
+                else
+                {
+                    resolved.name = "::fast_ber::" + found.module.module_reference + "::" + resolved.name;
+                }
                 block.add_line("struct DefaultValue" + name + " { constexpr static " +
                                value_type(component.named_type.type, module, tree, resolved.name, {}) +
                                " get_value() noexcept { return " + value_as_string(resolved, *component.default_value) +
diff --git a/src/compiler/ValueAsString.cpp b/src/compiler/ValueAsString.cpp
index 334c914..7e9d284 100644
--- a/src/compiler/ValueAsString.cpp
+++ b/src/compiler/ValueAsString.cpp
@@ -29,10 +29,16 @@ std::string value_as_string(const NamedType& value_type, const Value& value)
 {
     assert(!is_defined(value_type.type)); // value_type should be concrete
 
+    if (is_prefixed(value_type.type)) // Tags do not affect the value
+    {
+        const PrefixedType& prefixed = absl::get<PrefixedType>(absl::get<BuiltinType>(value_type.type));
+        return value_as_string(NamedType{value_type.name, prefixed.tagged_type->type}, value);
+    }
+
     std::string result;
     if (is_oid(value_type.type))
     {
-        result += "ObjectIdentifier<>{";
+        result += "{";
         try
         {
             const ObjectIdComponents& object_id = ObjectIdComponents(value);
diff --git a/src/compiler/ValueType.cpp b/src/compiler/ValueType.cpp
index 98b05cd..e3d5764 100644
--- a/src/compiler/ValueType.cpp
+++ b/src/compiler/ValueType.cpp
@@ -200,8 +200,9 @@ std::string value_type(const UTCTimeType&, const Module&, const Asn1Tree&, const
 std::string value_type(const DefinedType& defined_type, const Module& module, const Asn1Tree& tree, const std::string&,
                        const std::string& identifier_override)
 {
-    const NamedType& referenced = resolve_type(tree, module.module_reference, defined_type);
-    return value_type(referenced.type, module, tree, referenced.name, identifier_override);
+    const NamedTypeAndModule referenced = resolve_type_and_module(tree, module.module_reference, defined_type);
+    const std::string        name = "::fast_ber::" + referenced.module.module_reference + "::" + referenced.type.name;
+    return value_type(referenced.type.type, referenced.module, tree, name, identifier_override);
 }
 
 struct ValueTypeHelper
diff --git a/src/compiler_main/CompilerMain.cpp b/src/compiler_main/CompilerMain.cpp
index 3728a0f..1526a2d 100644
--- a/src/compiler_main/CompilerMain.cpp
+++ b/src/compiler_main/CompilerMain.cpp
@@ -43,18 +43,26 @@ std::string create_assignment(const Asn1Tree& tree, const Module& module, const
             log_debug(tree, "Creating value assignment: " + module.module_reference + "." + assignment.name);
 
             const ValueAssignment& value_assign = absl::get<ValueAssignment>(assignment.specific);
-            const Type&            assigned_to_type =
-                (is_defined(value_assign.type))
-                               ? type(resolve(tree, module.module_reference, absl::get<DefinedType>(value_assign.type)))
-                               : value_assign.type;
+            NamedType              assigned_to{assignment.name, value_assign.type};
+            if (is_defined(value_assign.type) || is_prefixed(value_assign.type))
+            {
+                const NamedTypeAndModule found = resolve_type_and_module(tree, module.module_reference, assigned_to);
+                assigned_to.type               = found.type.type;
+                assigned_to.name = "::fast_ber::" + found.module.module_reference + "::" + found.type.name;
+            }
+            while (is_prefixed(assigned_to.type))
+            {
+                assigned_to.type =
+                    Type(absl::get<PrefixedType>(absl::get<BuiltinType>(assigned_to.type)).tagged_type->type);
+            }
 
             std::string constness =
-                is_oid(assigned_to_type) ? std::string("static const ") : std::string("static constexpr ");
+                is_oid(assigned_to.type) ? std::string("static const ") : std::string("static constexpr ");
 
             std::string result =
                 constness + value_type(value_assign.type, module, tree) + " " + assignment.name + " = ";
 
-            result += value_as_string(NamedType{assignment.name, assigned_to_type}, value_assign.value) + ";\n";
+            result += value_as_string(assigned_to, value_assign.value) + ";\n";
             return result;
         }
         else if (absl::holds_alternative<TypeAssignment>(assignment.specific))
-- 
2.43.0


From 0c332128f9a277c0e9aade45a48c2efcc5911dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 34/66] fix: a reference to an OBJECT IDENTIFIER value as a
 DEFAULT does not compile

---
 src/compiler/TypeAsString.cpp  | 5 +++--
 src/compiler/ValueAsString.cpp | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/compiler/TypeAsString.cpp b/src/compiler/TypeAsString.cpp
index e94346c..86362dd 100644
--- a/src/compiler/TypeAsString.cpp
+++ b/src/compiler/TypeAsString.cpp
@@ -66,8 +66,9 @@ CodeBlock create_collection_definition(const Collection& collection, const Modul
                 {
                     resolved.name = "::fast_ber::" + found.module.module_reference + "::" + resolved.name;
                 }
-                block.add_line("struct DefaultValue" + name + " { constexpr static " +
-                               value_type(component.named_type.type, module, tree, resolved.name, {}) +
+                const std::string type      = value_type(component.named_type.type, module, tree, resolved.name, {});
+                const std::string constness = (type.find("ObjectIdentifier<") == 0) ? "" : "constexpr ";
+                block.add_line("struct DefaultValue" + name + " { " + constness + "static " + type +
                                " get_value() noexcept { return " + value_as_string(resolved, *component.default_value) +
                                "; } };");
                 has_defaults = true;
diff --git a/src/compiler/ValueAsString.cpp b/src/compiler/ValueAsString.cpp
index 7e9d284..ec3f45f 100644
--- a/src/compiler/ValueAsString.cpp
+++ b/src/compiler/ValueAsString.cpp
@@ -36,7 +36,7 @@ std::string value_as_string(const NamedType& value_type, const Value& value)
     }
 
     std::string result;
-    if (is_oid(value_type.type))
+    if (is_oid(value_type.type) && !absl::holds_alternative<DefinedValue>(value.value_selection))
     {
         result += "{";
         try
-- 
2.43.0


From 572d4f6045e7de7f1a9c7a50672593aec226a388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 35/66] fix: the tag of a tagged reference to a SEQUENCE, SET
 or CHOICE is dropped at top level and in SEQUENCE OF

---
 include/fast_ber/util/Alias.hpp | 30 ++++++++++++++++++++++++++++++
 src/compiler/TypeAsString.cpp   | 18 +++++++++++++++---
 2 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/include/fast_ber/util/Alias.hpp b/include/fast_ber/util/Alias.hpp
index 9caba9d..1138c0d 100644
--- a/include/fast_ber/util/Alias.hpp
+++ b/include/fast_ber/util/Alias.hpp
@@ -1,5 +1,10 @@
 #pragma once
 
+#include "fast_ber/util/DecodeHelpers.hpp"
+#include "fast_ber/util/EncodeHelpers.hpp"
+
+#include <utility>
+
 #define FAST_BER_ALIAS(X, ...)                                                                                         \
     struct X : __VA_ARGS__                                                                                             \
     {                                                                                                                  \
@@ -15,3 +20,28 @@
         AliasedType&       get_base() { return *this; }                                                                \
         const AliasedType& get_base() const { return *this; }                                                          \
     }
+
+namespace fast_ber
+{
+
+// A generated type which is encoded with another identifier
+template <typename T, typename Identifier>
+struct TaggedAlias : T
+{
+    using AsnId = Identifier;
+    using T::T;
+    using T::operator=;
+
+    TaggedAlias() = default;
+    TaggedAlias(const T& t) : T(t) {}
+    TaggedAlias(T&& t) : T(std::move(t)) {}
+
+    size_t       encoded_length() const noexcept { return this->template encoded_length_with_id<Identifier>(); }
+    EncodeResult encode(absl::Span<uint8_t> output) const noexcept
+    {
+        return this->template encode_with_id<Identifier>(output);
+    }
+    DecodeResult decode(BerView input) noexcept { return this->template decode_with_id<Identifier>(input); }
+};
+
+} // namespace fast_ber
diff --git a/src/compiler/TypeAsString.cpp b/src/compiler/TypeAsString.cpp
index 86362dd..917ef09 100644
--- a/src/compiler/TypeAsString.cpp
+++ b/src/compiler/TypeAsString.cpp
@@ -427,13 +427,19 @@ CodeBlock create_type_assignment(const std::string& name, const Type& assignment
     {
         const SetOfType& sequence = absl::get<SetOfType>(absl::get<BuiltinType>(assignment_type));
         const Type&      type     = sequence.has_name ? sequence.named_type->type : *sequence.type;
-        block.add_block(create_type_assignment(name + "Contained", type, module, tree, {}, false));
+        // Contained types encode themselves, so a generated type with a tag needs a type of its own
+        const bool introduce_contained =
+            is_prefixed(type) && is_generated(resolve_type(tree, module.module_reference, NamedType{name, type}).type);
+        block.add_block(create_type_assignment(name + "Contained", type, module, tree, {}, introduce_contained));
     }
     else if (is_sequence_of(assignment_type))
     {
         const SequenceOfType& sequence = absl::get<SequenceOfType>(absl::get<BuiltinType>(assignment_type));
         const Type&           type     = sequence.has_name ? sequence.named_type->type : *sequence.type;
-        block.add_block(create_type_assignment(name + "Contained", type, module, tree, {}, false));
+        // Contained types encode themselves, so a generated type with a tag needs a type of its own
+        const bool introduce_contained =
+            is_prefixed(type) && is_generated(resolve_type(tree, module.module_reference, NamedType{name, type}).type);
+        block.add_block(create_type_assignment(name + "Contained", type, module, tree, {}, introduce_contained));
     }
     else if (is_set(assignment_type))
     {
@@ -482,7 +488,13 @@ CodeBlock create_type_assignment(const std::string& name, const Type& assignment
                                "::" + resolved.type.name + "Values;");
             }
         }
-        if (introduce_type)
+        if (introduce_type && !identifier_override.empty() && is_defined(assignment_type) &&
+            is_generated(resolve_type(tree, module.module_reference, absl::get<DefinedType>(assignment_type)).type))
+        {
+            block.add_line("FAST_BER_ALIAS(" + name + ", ::fast_ber::TaggedAlias<" +
+                           type_as_string(assignment_type, module, tree, name, id) + ", " + id + ">);");
+        }
+        else if (introduce_type)
         {
             block.add_line("FAST_BER_ALIAS(" + name + ", " + type_as_string(assignment_type, module, tree, name, id) +
                            ");");
-- 
2.43.0


From c52388705d0c7ab9779b35fe9537d1af00287828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 36/66] fix: the alternatives after the extension marker of a
 CHOICE come before the others

They were put in front of the root alternatives, so automatic tags and the
positions of all alternatives were wrong.
---
 src/compiler/asn_compiler.yacc             | 2 +-
 src/compiler/autogen_copy/asn_compiler.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/asn_compiler.yacc b/src/compiler/asn_compiler.yacc
index b4d5d7f..4a63416 100644
--- a/src/compiler/asn_compiler.yacc
+++ b/src/compiler/asn_compiler.yacc
@@ -1315,7 +1315,7 @@ RootAlternativeTypeList:
 |   AlternativeTypeList "," ELIPSIS
     { $$ = $1; }
 |   AlternativeTypeList "," ELIPSIS "," AlternativeTypeList
-    { $$ = $1; $$.insert($$.begin(), $5.begin(), $5.end()); }
+    { $$ = $1; $$.insert($$.end(), $5.begin(), $5.end()); }
 
 AlternativeTypeList:
     NamedType
diff --git a/src/compiler/autogen_copy/asn_compiler.hpp b/src/compiler/autogen_copy/asn_compiler.hpp
index 1a941a2..aece39e 100644
--- a/src/compiler/autogen_copy/asn_compiler.hpp
+++ b/src/compiler/autogen_copy/asn_compiler.hpp
@@ -9227,7 +9227,7 @@ namespace yy {
 
   case 343:
 #line 1318 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < std::vector<NamedType> > () = yystack_[4].value.as < std::vector<NamedType> > (); yylhs.value.as < std::vector<NamedType> > ().insert(yylhs.value.as < std::vector<NamedType> > ().begin(), yystack_[0].value.as < std::vector<NamedType> > ().begin(), yystack_[0].value.as < std::vector<NamedType> > ().end()); }
+    { yylhs.value.as < std::vector<NamedType> > () = yystack_[4].value.as < std::vector<NamedType> > (); yylhs.value.as < std::vector<NamedType> > ().insert(yylhs.value.as < std::vector<NamedType> > ().end(), yystack_[0].value.as < std::vector<NamedType> > ().begin(), yystack_[0].value.as < std::vector<NamedType> > ().end()); }
 #line 9230 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-- 
2.43.0


From db382845b1e321ec42f5dacb1283378a9e0b467a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 37/66] fix: a recursive CHOICE with ambiguous conversions does
 not compile

Whether a value converts to an alternative was asked twice, with a different
answer once the alternatives were complete.
---
 include/fast_ber/util/DynamicVariantHelpers.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/fast_ber/util/DynamicVariantHelpers.hpp b/include/fast_ber/util/DynamicVariantHelpers.hpp
index f1f49dd..f96da49 100644
--- a/include/fast_ber/util/DynamicVariantHelpers.hpp
+++ b/include/fast_ber/util/DynamicVariantHelpers.hpp
@@ -41,14 +41,14 @@ struct ImaginaryFun<DynamicVariant<H, T...>, i> : ImaginaryFun<DynamicVariant<T.
 template <typename T, typename Variant>
 using FunType = decltype(ImaginaryFun<Variant>::Run(std::declval<T>(), {}));
 
-template <typename T, typename Variant, typename = void>
-struct AcceptedIndex : std::integral_constant<size_t, variant_npos>
-{
-};
+// Overload resolution runs once, as its outcome can change while the alternatives of a recursive variant are incomplete
+template <typename T, typename Variant>
+FunType<T, Variant> accepted_index(int);
+template <typename T, typename Variant>
+std::integral_constant<size_t, variant_npos> accepted_index(...);
 
 template <typename T, typename Variant>
-struct AcceptedIndex<T, Variant, absl::void_t<decltype(ImaginaryFun<Variant>::Run(std::declval<T>(), {}))>>
-    : decltype(ImaginaryFun<Variant>::Run(std::declval<T>(), {}))
+struct AcceptedIndex : decltype(accepted_index<T, Variant>(0))
 {
 };
 
-- 
2.43.0


From e573c10ed61153404ce261efbd69a5cc105b555e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 38/66] fix: recursion through tagged, nested or unnamed lists
 and choices is refused as a circular dependency

Only SEQUENCE OF, SET OF and CHOICE at the top of an assignment were given
dynamic storage. References to values as defaults within nested types were not
ordered before the type.
---
 src/compiler/ReorderAssignments.cpp | 277 ++++++++++++----------------
 1 file changed, 117 insertions(+), 160 deletions(-)

diff --git a/src/compiler/ReorderAssignments.cpp b/src/compiler/ReorderAssignments.cpp
index 4fb9f50..6de8853 100644
--- a/src/compiler/ReorderAssignments.cpp
+++ b/src/compiler/ReorderAssignments.cpp
@@ -3,6 +3,8 @@
 #include "fast_ber/compiler/Logging.hpp"
 #include "fast_ber/compiler/ResolveType.hpp"
 #include "fast_ber/compiler/TypeAsString.hpp"
+#include <cctype>
+#include <functional>
 #include <string>
 #include <unordered_map>
 #include <unordered_set>
@@ -145,6 +147,102 @@ bool refers_to_assignment(const Asn1Tree& tree, const Module& module, const Type
            });
 }
 
+// Use dynamic storage wherever a type contains itself.
+// Returns the dependencies which have to be defined before the type
+std::vector<Dependency> break_cycles(Type& type, const std::string& name, const Asn1Tree& tree, const Module& module,
+                                     const std::function<bool(const std::vector<Dependency>&)>& is_circular)
+{
+    std::vector<Dependency> depends;
+    const auto              add = [&](const std::vector<Dependency>& additional) {
+        depends.insert(depends.end(), additional.begin(), additional.end());
+    };
+
+    const auto visit_components = [&](std::vector<ComponentType>& components) {
+        for (ComponentType& component : components)
+        {
+            // If circular dependancy, use dynamic storage. Else, resolve and use static storage
+            if (component.is_optional && is_circular(depends_on(component.named_type.type)))
+            {
+                std::cout << "Optional member[" << component.named_type.name << "] of [" << name
+                          << "] has circular dependencies, setting dynamic storage policy" << std::endl;
+
+                component.optional_storage = StorageMode::dynamic;
+            }
+            else
+            {
+                add(break_cycles(component.named_type.type, name, tree, module, is_circular));
+            }
+
+            if (component.default_value &&
+                absl::holds_alternative<DefinedValue>(component.default_value->value_selection))
+            {
+                const DefinedValue& defined = absl::get<DefinedValue>(component.default_value->value_selection);
+                if (refers_to_assignment(tree, module, component.named_type.type, defined.reference))
+                {
+                    add({Dependency{defined.reference, absl::nullopt}});
+                }
+            }
+        }
+    };
+
+    const auto visit_elements = [&](Type& element_type, StorageMode& storage) {
+        if (is_circular(depends_on(element_type)))
+        {
+            std::cout << "Type " << name << " has circular dependencies, setting dynamic storage policy" << std::endl;
+            storage = StorageMode::dynamic;
+        }
+        else
+        {
+            add(break_cycles(element_type, name, tree, module, is_circular));
+        }
+    };
+
+    if (is_prefixed(type))
+    {
+        return break_cycles(absl::get<PrefixedType>(absl::get<BuiltinType>(type)).tagged_type->type, name, tree, module,
+                            is_circular);
+    }
+    else if (is_sequence(type))
+    {
+        visit_components(absl::get<SequenceType>(absl::get<BuiltinType>(type)).components);
+    }
+    else if (is_set(type))
+    {
+        visit_components(absl::get<SetType>(absl::get<BuiltinType>(type)).components);
+    }
+    else if (is_sequence_of(type))
+    {
+        SequenceOfType& sequence_of = absl::get<SequenceOfType>(absl::get<BuiltinType>(type));
+        visit_elements(sequence_of.has_name ? sequence_of.named_type->type : *sequence_of.type, sequence_of.storage);
+    }
+    else if (is_set_of(type))
+    {
+        SetOfType& set_of = absl::get<SetOfType>(absl::get<BuiltinType>(type));
+        visit_elements(set_of.has_name ? set_of.named_type->type : *set_of.type, set_of.storage);
+    }
+    else if (is_choice(type))
+    {
+        ChoiceType& choice = absl::get<ChoiceType>(absl::get<BuiltinType>(type));
+        for (NamedType& child : choice.choices)
+        {
+            if (is_circular(depends_on(child.type)))
+            {
+                choice.storage = StorageMode::dynamic;
+                break_cycles(child.type, name, tree, module, is_circular);
+            }
+            else
+            {
+                add(break_cycles(child.type, name, tree, module, is_circular));
+            }
+        }
+    }
+    else
+    {
+        add(depends_on(type));
+    }
+    return depends;
+}
+
 void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignment_infos, const std::string& name,
                           const Asn1Tree& tree, const Module& module, std::unordered_set<std::string>& assigned_names,
                           std::unordered_set<std::string>& visited_names,
@@ -175,6 +273,12 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
         absl::flat_hash_set<Dependency> complete_depends;
         for (const Dependency& dependency : depends)
         {
+            // Values and types of other modules do not contain types of this module
+            if (!std::isupper(dependency.name[0]) ||
+                (dependency.module_reference && dependency.module_reference != module.module_reference))
+            {
+                continue;
+            }
             // If circular dependancy, use dynamic storage. Else, resolve and use static storage
             get_dependencies_recursive(dependency.name, module.module_reference, assignment_infos, complete_depends);
         }
@@ -183,177 +287,30 @@ void resolve_dependencies(std::unordered_map<std::string, Assignment>& assignmen
                            [&](const Dependency& depend) { return depend.name == name; });
     };
 
-    if (is_type(assignment) &&
-        (is_choice(type(assignment)) || is_set_of(type(assignment)) || is_sequence_of(type(assignment))))
+    std::vector<Dependency> depends = assignment.depends_on;
+    if (is_type(assignment))
     {
-        // If circular dependancy, use dynamic storage. Else, resolve and use static storage
-        if (is_circular({Dependency{name, module.module_reference}}))
+        const bool circular_alternative =
+            (is_choice(type(assignment)) || is_set_of(type(assignment)) || is_sequence_of(type(assignment))) &&
+            is_circular({Dependency{name, module.module_reference}});
+
+        depends = break_cycles(type(assignment), name, tree, module, is_circular);
+        if (circular_alternative)
         {
             // As type is now dynamic it doesn't have any dependencies
             assignment_infos[name].depends_on = {};
-
-            if (is_choice(type(assignment)))
-            {
-                ChoiceType& choice = absl::get<ChoiceType>(absl::get<BuiltinType>(type(assignment)));
-                choice.storage     = StorageMode::dynamic;
-
-                // Also mark self referential children as dynamic (Sizeof choice cannot yet be determined)
-                // TODO: should only be dynamic if refer to choice
-                for (NamedType& child : choice.choices)
-                {
-                    Type& child_type =
-                        is_prefixed(child.type)
-                            ? absl::get<PrefixedType>(absl::get<BuiltinType>(child.type)).tagged_type->type
-                            : child.type;
-
-                    if (is_set_of(child_type))
-                    {
-                        absl::get<SetOfType>(absl::get<BuiltinType>(child_type)).storage = StorageMode::dynamic;
-                    }
-                    if (is_sequence_of(child_type))
-                    {
-                        absl::get<SequenceOfType>(absl::get<BuiltinType>(child_type)).storage = StorageMode::dynamic;
-                    }
-                }
-            }
-            else if (is_set_of(type(assignment)))
-            {
-                absl::get<SetOfType>(absl::get<BuiltinType>(type(assignment))).storage = StorageMode::dynamic;
-            }
-            else if (is_sequence_of(type(assignment)))
-            {
-                absl::get<SequenceOfType>(absl::get<BuiltinType>(type(assignment))).storage = StorageMode::dynamic;
-            }
-            std::cout << "Type " << name << " has circular dependencies, setting dynamic storage policy" << std::endl;
-        }
-        else
-        {
-            for (const Dependency& dependency : assignment.depends_on)
-            {
-                if (dependency.module_reference && dependency.module_reference != module.module_reference)
-                {
-                    continue;
-                }
-
-                resolve_dependencies(assignment_infos, dependency.name, tree, module, assigned_names, visited_names,
-                                     ordered_assignment_infos);
-            }
         }
     }
-    else if (is_type(assignment) && is_sequence(type(assignment)))
-    {
-        SequenceType& sequence = absl::get<SequenceType>(absl::get<BuiltinType>(type(assignment)));
-        for (ComponentType& component : sequence.components)
-        {
-            if (component.default_value)
-            {
-                for (const Dependency& dependency : depends_on(component.named_type.type))
-                {
-                    if (dependency.module_reference && dependency.module_reference != module.module_reference)
-                    {
-                        continue;
-                    }
-
-                    resolve_dependencies(assignment_infos, dependency.name, tree, module, assigned_names, visited_names,
-                                         ordered_assignment_infos);
-                }
 
-                if (absl::holds_alternative<DefinedValue>(component.default_value->value_selection))
-                {
-                    const DefinedValue& defined = absl::get<DefinedValue>(component.default_value->value_selection);
-                    if (refers_to_assignment(tree, module, component.named_type.type, defined.reference))
-                    {
-                        resolve_dependencies(assignment_infos, defined.reference, tree, module, assigned_names,
-                                             visited_names, ordered_assignment_infos);
-                    }
-                }
-            }
-            // If circular dependancy, use dynamic storage. Else, resolve and use static storage
-            else if (component.is_optional && is_circular(depends_on(component.named_type.type)))
-            {
-                std::cout << "Optional member[" << component.named_type.name << "] of [" << name
-                          << "] has circular dependencies, setting dynamic storage policy" << std::endl;
-
-                component.optional_storage = StorageMode::dynamic;
-            }
-            else
-            {
-                for (const Dependency& dependency : depends_on(component.named_type.type))
-                {
-                    if (dependency.module_reference && dependency.module_reference != module.module_reference)
-                    {
-                        continue;
-                    }
-
-                    resolve_dependencies(assignment_infos, dependency.name, tree, module, assigned_names, visited_names,
-                                         ordered_assignment_infos);
-                }
-            }
-        }
-    }
-    else if (is_type(assignment) && is_set(type(assignment)))
+    for (const Dependency& dependency : depends)
     {
-        SetType& sequence = absl::get<SetType>(absl::get<BuiltinType>(type(assignment)));
-        for (ComponentType& component : sequence.components)
+        if (dependency.module_reference && dependency.module_reference != module.module_reference)
         {
-            if (component.default_value)
-            {
-                for (const Dependency& dependency : depends_on(component.named_type.type))
-                {
-                    if (dependency.module_reference && dependency.module_reference != module.module_reference)
-                    {
-                        continue;
-                    }
-
-                    resolve_dependencies(assignment_infos, dependency.name, tree, module, assigned_names, visited_names,
-                                         ordered_assignment_infos);
-                }
-
-                if (absl::holds_alternative<DefinedValue>(component.default_value->value_selection))
-                {
-                    const DefinedValue& defined = absl::get<DefinedValue>(component.default_value->value_selection);
-                    if (refers_to_assignment(tree, module, component.named_type.type, defined.reference))
-                    {
-                        resolve_dependencies(assignment_infos, defined.reference, tree, module, assigned_names,
-                                             visited_names, ordered_assignment_infos);
-                    }
-                }
-            }
-            // If circular dependancy, use dynamic storage. Else, resolve and use static storage
-            else if (component.is_optional && is_circular(depends_on(component.named_type.type)))
-            {
-                std::cout << "Optional member[" << component.named_type.name << "] of [" << name
-                          << "] has circular dependencies, setting dynamic storage policy" << std::endl;
-
-                component.optional_storage = StorageMode::dynamic;
-            }
-            else
-            {
-                for (const Dependency& dependency : depends_on(component.named_type.type))
-                {
-                    if (dependency.module_reference && dependency.module_reference != module.module_reference)
-                    {
-                        continue;
-                    }
-
-                    resolve_dependencies(assignment_infos, dependency.name, tree, module, assigned_names, visited_names,
-                                         ordered_assignment_infos);
-                }
-            }
+            continue;
         }
-    }
-    else
-    {
-        for (const Dependency& dependency : assignment.depends_on)
-        {
-            if (dependency.module_reference && dependency.module_reference != module.module_reference)
-            {
-                continue;
-            }
 
-            resolve_dependencies(assignment_infos, dependency.name, tree, module, assigned_names, visited_names,
-                                 ordered_assignment_infos);
-        }
+        resolve_dependencies(assignment_infos, dependency.name, tree, module, assigned_names, visited_names,
+                             ordered_assignment_infos);
     }
 
     ordered_assignment_infos.push_back(assignment);
-- 
2.43.0


From 2e7230266538d834f740a5977ef6b59678db0772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:47 +0000
Subject: [PATCH 39/66] fix: string, named number and real DEFAULTs and values
 do not denote what the schema says

Hexadecimal octets were escaped in decimal and cut at zero octets, bit strings
were dropped, literals of defaults were pasted unquoted, reals lost digits,
doubled quotation marks were dropped, named numbers were not found, and a
reference was captured by a component of the same name.
---
 src/compiler/ReorderAssignments.cpp           |   5 +-
 src/compiler/TypeAsString.cpp                 |   4 +-
 src/compiler/ValueAsString.cpp                | 124 ++++++++++++++----
 src/compiler/asn_compiler.yacc                |   6 +-
 src/compiler/autogen_copy/asn_compiler.hpp    |   6 +-
 .../fast_ber/compiler/ValueAsString.hpp       |   6 +-
 6 files changed, 118 insertions(+), 33 deletions(-)

diff --git a/src/compiler/ReorderAssignments.cpp b/src/compiler/ReorderAssignments.cpp
index 6de8853..aef9f12 100644
--- a/src/compiler/ReorderAssignments.cpp
+++ b/src/compiler/ReorderAssignments.cpp
@@ -3,6 +3,7 @@
 #include "fast_ber/compiler/Logging.hpp"
 #include "fast_ber/compiler/ResolveType.hpp"
 #include "fast_ber/compiler/TypeAsString.hpp"
+#include "fast_ber/compiler/ValueAsString.hpp"
 #include <cctype>
 #include <functional>
 #include <string>
@@ -131,7 +132,7 @@ void resolve_components_of(Asn1Tree& tree)
     }
 }
 
-// A name used as a value of a type may be an enumerator, or may be imported
+// A name used as a value of a type may be an enumerator or a named number, or may be imported
 bool refers_to_assignment(const Asn1Tree& tree, const Module& module, const Type& type, const std::string& reference)
 {
     Type resolved = resolve_type(tree, module.module_reference, NamedType{reference, type}).type;
@@ -140,7 +141,7 @@ bool refers_to_assignment(const Asn1Tree& tree, const Module& module, const Type
         resolved = Type(absl::get<PrefixedType>(absl::get<BuiltinType>(resolved)).tagged_type->type);
     }
 
-    return !is_enumerated(resolved) &&
+    return !is_enumerated(resolved) && !find_named_number(resolved, Value{DefinedValue{reference}}) &&
            std::none_of(module.imports.begin(), module.imports.end(), [&](const Import& import) {
                return std::find(import.imported_values.begin(), import.imported_values.end(), reference) !=
                       import.imported_values.end();
diff --git a/src/compiler/TypeAsString.cpp b/src/compiler/TypeAsString.cpp
index 917ef09..fc36485 100644
--- a/src/compiler/TypeAsString.cpp
+++ b/src/compiler/TypeAsString.cpp
@@ -69,7 +69,9 @@ CodeBlock create_collection_definition(const Collection& collection, const Modul
                 const std::string type      = value_type(component.named_type.type, module, tree, resolved.name, {});
                 const std::string constness = (type.find("ObjectIdentifier<") == 0) ? "" : "constexpr ";
                 block.add_line("struct DefaultValue" + name + " { " + constness + "static " + type +
-                               " get_value() noexcept { return " + value_as_string(resolved, *component.default_value) +
+                               " get_value() noexcept { return " +
+                               value_as_string(resolved, *component.default_value,
+                                               "::fast_ber::" + module.module_reference + "::") +
                                "; } };");
                 has_defaults = true;
             }
diff --git a/src/compiler/ValueAsString.cpp b/src/compiler/ValueAsString.cpp
index ec3f45f..91713b2 100644
--- a/src/compiler/ValueAsString.cpp
+++ b/src/compiler/ValueAsString.cpp
@@ -1,38 +1,97 @@
 #include "fast_ber/compiler/ValueAsString.hpp"
 
+#include <iomanip>
 #include <iostream>
+#include <limits>
+#include <sstream>
 
-std::string cpp_value(const HexStringValue& hex)
+// The octets holding a string of bits, the last octet padded with zero bits
+std::string octets_of_bits(const std::string& bits)
 {
-    std::string res = "\"";
-    size_t      i   = 0;
+    std::string octets((bits.length() + 7) / 8, '\0');
+    for (size_t i = 0; i < bits.length(); i++)
+    {
+        if (bits[i] == '1')
+        {
+            octets[i / 8] = static_cast<char>(octets[i / 8] | (0x80 >> (i % 8)));
+        }
+    }
+    return octets;
+}
 
-    if (hex.value.length() % 2 == 1)
+std::string bits_of_hex(const std::string& hex)
+{
+    std::string bits;
+    for (const char digit : hex)
     {
-        const std::string& byte = std::string(hex.value.begin(), hex.value.begin() + 1);
-        res += "\\";
-        res += std::to_string(std::stoi(byte, nullptr, 16));
-        i++;
+        const int value = std::stoi(std::string(1, digit), nullptr, 16);
+        for (int bit = 3; bit >= 0; bit--)
+        {
+            bits += (value >> bit) & 1 ? '1' : '0';
+        }
     }
+    return bits;
+}
 
-    for (; i < hex.value.length(); i += 2)
+// Literal for octets of any value
+std::string octets_literal(const std::string& octets)
+{
+    std::string res = "absl::string_view(\"";
+    for (const char c : octets)
     {
-        const std::string& byte = std::string(hex.value.begin() + i, hex.value.begin() + i + 2);
-        res += "\\";
-        res += std::to_string(std::stoi(byte, nullptr, 16));
+        const auto octet = static_cast<unsigned char>(c);
+        res += '\\';
+        res += static_cast<char>('0' + (octet >> 6));
+        res += static_cast<char>('0' + ((octet >> 3) & 7));
+        res += static_cast<char>('0' + (octet & 7));
     }
+    return res + "\", " + std::to_string(octets.length()) + ")";
+}
 
+// Quotation marks within an ASN.1 string are doubled
+std::string cpp_value(const CharStringValue& cstring)
+{
+    std::string res = "\"";
+    for (size_t i = 1; i + 1 < cstring.value.length(); i++)
+    {
+        if (cstring.value[i] == '"' && cstring.value[i + 1] == '"' && i + 2 < cstring.value.length())
+        {
+            res += "\\\"";
+            i++;
+        }
+        else
+        {
+            res += cstring.value[i];
+        }
+    }
     return res + "\"";
 }
 
-std::string value_as_string(const NamedType& value_type, const Value& value)
+const NamedNumber* find_named_number(const Type& type, const Value& value)
+{
+    if (is_integer(type) && absl::holds_alternative<DefinedValue>(value.value_selection))
+    {
+        const DefinedValue& defined = absl::get<DefinedValue>(value.value_selection);
+        const IntegerType&  integer = absl::get<IntegerType>(absl::get<BuiltinType>(type));
+        for (const NamedNumber& named_number : integer.named_numbers)
+        {
+            if (named_number.name == defined.reference)
+            {
+                return &named_number;
+            }
+        }
+    }
+    return nullptr;
+}
+
+std::string value_as_string(const NamedType& value_type, const Value& value, const std::string& scope)
 {
     assert(!is_defined(value_type.type)); // value_type should be concrete
 
     if (is_prefixed(value_type.type)) // Tags do not affect the value
     {
         const PrefixedType& prefixed = absl::get<PrefixedType>(absl::get<BuiltinType>(value_type.type));
-        return value_as_string(NamedType{value_type.name, prefixed.tagged_type->type}, value);
+        return value_as_string(NamedType{value_type.name, prefixed.tagged_type->type}, value, scope);
     }
 
     std::string result;
@@ -69,11 +128,19 @@ std::string value_as_string(const NamedType& value_type, const Value& value)
     }
     else if (is_bit_string(value_type.type))
     {
-        if (absl::holds_alternative<BitStringValue>(value.value_selection))
+        if (absl::holds_alternative<BitStringValue>(value.value_selection) ||
+            absl::holds_alternative<HexStringValue>(value.value_selection))
         {
-            const BitStringValue& bstring = absl::get<BitStringValue>(value.value_selection);
-            (void)bstring; // TODO: convert bstring to cstring
-            result += "\"\"";
+            const std::string& bits   = absl::holds_alternative<BitStringValue>(value.value_selection)
+                                            ? absl::get<BitStringValue>(value.value_selection).value
+                                            : bits_of_hex(absl::get<HexStringValue>(value.value_selection).value);
+            const std::string& octets = octets_of_bits(bits);
+            const char         unused = static_cast<char>(octets.length() * 8 - bits.length());
+            result += octets_literal(unused + octets);
+        }
+        else if (absl::holds_alternative<DefinedValue>(value.value_selection))
+        {
+            result += scope + absl::get<DefinedValue>(value.value_selection).reference;
         }
         else
         {
@@ -92,6 +159,10 @@ std::string value_as_string(const NamedType& value_type, const Value& value)
             throw std::runtime_error("Unexpected Enumerated type");
         }
     }
+    else if (const NamedNumber* named_number = find_named_number(value_type.type, value))
+    {
+        result += std::to_string(named_number->number);
+    }
     else if (absl::holds_alternative<std::string>(value.value_selection))
     {
         const std::string& string = absl::get<std::string>(value.value_selection);
@@ -100,12 +171,17 @@ std::string value_as_string(const NamedType& value_type, const Value& value)
     else if (absl::holds_alternative<HexStringValue>(value.value_selection))
     {
         const HexStringValue& hstring = absl::get<HexStringValue>(value.value_selection);
-        result += "absl::string_view(" + cpp_value(hstring) + ")";
+        result += octets_literal(octets_of_bits(bits_of_hex(hstring.value)));
+    }
+    else if (absl::holds_alternative<BitStringValue>(value.value_selection))
+    {
+        const BitStringValue& bstring = absl::get<BitStringValue>(value.value_selection);
+        result += octets_literal(octets_of_bits(bstring.value));
     }
     else if (absl::holds_alternative<CharStringValue>(value.value_selection))
     {
         const CharStringValue& cstring = absl::get<CharStringValue>(value.value_selection);
-        result += "absl::string_view(" + cstring.value + ")";
+        result += "absl::string_view(" + cpp_value(cstring) + ")";
     }
     else if (absl::holds_alternative<int64_t>(value.value_selection))
     {
@@ -115,7 +191,7 @@ std::string value_as_string(const NamedType& value_type, const Value& value)
     else if (absl::holds_alternative<DefinedValue>(value.value_selection))
     {
         const DefinedValue& defined = absl::get<DefinedValue>(value.value_selection);
-        result += defined.reference;
+        result += scope + defined.reference;
     }
     else if (absl::holds_alternative<BooleanValue>(value.value_selection))
     {
@@ -124,8 +200,10 @@ std::string value_as_string(const NamedType& value_type, const Value& value)
     }
     else if (absl::holds_alternative<double>(value.value_selection))
     {
-        const double& real = absl::get<double>(value.value_selection);
-        result += std::to_string(real);
+        const double&      real = absl::get<double>(value.value_selection);
+        std::ostringstream stream;
+        stream << std::setprecision(std::numeric_limits<double>::max_digits10) << real;
+        result += stream.str();
     }
     else
     {
diff --git a/src/compiler/asn_compiler.yacc b/src/compiler/asn_compiler.yacc
index 4a63416..5f3fb48 100644
--- a/src/compiler/asn_compiler.yacc
+++ b/src/compiler/asn_compiler.yacc
@@ -1617,11 +1617,11 @@ SingleValue:
 |   TimeValue
     { $$.value_selection = $1; }
 |   bstring
-    { $$.value_selection = $1; }
+    { $$.value_selection = BitStringValue{$1}; }
 |   hstring
-    { $$.value_selection = $1; }
+    { $$.value_selection = HexStringValue{$1}; }
 |   cstring
-    { $$.value_selection = $1; }
+    { $$.value_selection = CharStringValue{$1}; }
 |   GENERIC_IDENTIFIER_UPPERCASE
     { $$.value_selection = $1; }
 |   DefinedValue
diff --git a/src/compiler/autogen_copy/asn_compiler.hpp b/src/compiler/autogen_copy/asn_compiler.hpp
index aece39e..07ab183 100644
--- a/src/compiler/autogen_copy/asn_compiler.hpp
+++ b/src/compiler/autogen_copy/asn_compiler.hpp
@@ -9545,19 +9545,19 @@ namespace yy {
 
   case 452:
 #line 1620 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < std::string > (); }
+    { yylhs.value.as < Value > ().value_selection = BitStringValue{yystack_[0].value.as < std::string > ()}; }
 #line 9548 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
   case 453:
 #line 1622 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < std::string > (); }
+    { yylhs.value.as < Value > ().value_selection = HexStringValue{yystack_[0].value.as < std::string > ()}; }
 #line 9554 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
   case 454:
 #line 1624 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < std::string > (); }
+    { yylhs.value.as < Value > ().value_selection = CharStringValue{yystack_[0].value.as < std::string > ()}; }
 #line 9560 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
diff --git a/src/compiler/include/fast_ber/compiler/ValueAsString.hpp b/src/compiler/include/fast_ber/compiler/ValueAsString.hpp
index 6ce15ba..2c60aa7 100644
--- a/src/compiler/include/fast_ber/compiler/ValueAsString.hpp
+++ b/src/compiler/include/fast_ber/compiler/ValueAsString.hpp
@@ -2,4 +2,8 @@
 
 #include "fast_ber/compiler/CompilerTypes.hpp"
 
-std::string value_as_string(const NamedType& value_type, const Value& value);
+// The named number of an integer type which a value refers to, if any
+const NamedNumber* find_named_number(const Type& type, const Value& value);
+
+// Scope is put in front of references to other values
+std::string value_as_string(const NamedType& value_type, const Value& value, const std::string& scope = {});
-- 
2.43.0


From ef60d2fddf371fb73410b21e2e669238a4987303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 40/66] fix: enumerators without a number do not get the
 numbers X.680 assigns

They continued from the enumerator before, and could repeat a number given to
another one.
---
 src/compiler/TypeAsString.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/compiler/TypeAsString.cpp b/src/compiler/TypeAsString.cpp
index fc36485..d644559 100644
--- a/src/compiler/TypeAsString.cpp
+++ b/src/compiler/TypeAsString.cpp
@@ -9,6 +9,7 @@
 #include "absl/container/flat_hash_set.h"
 
 #include <iostream>
+#include <set>
 
 template <typename Type>
 std::string identifier_template_params(const Type&, const Module&, const Asn1Tree&,
@@ -413,16 +414,26 @@ CodeBlock create_type_assignment(const std::string& name, const Type& assignment
         const EnumeratedType& enumerated = absl::get<EnumeratedType>(absl::get<BuiltinType>(assignment_type));
         block.add_line("enum class " + name + "Values");
         CodeScope scope(block, true);
+
+        // Items without a number get the unused numbers from zero upwards
+        std::set<int64_t> used;
         for (const EnumerationValue& enum_value : enumerated.enum_values)
         {
             if (enum_value.value)
             {
-                block.add_line(enum_value.name + " = " + std::to_string(*enum_value.value) + ',');
+                used.insert(*enum_value.value);
             }
-            else
+        }
+
+        int64_t next = 0;
+        for (const EnumerationValue& enum_value : enumerated.enum_values)
+        {
+            while (!enum_value.value && used.count(next) > 0)
             {
-                block.add_line(enum_value.name + ',');
+                next++;
             }
+            block.add_line(enum_value.name + " = " + std::to_string(enum_value.value ? *enum_value.value : next++) +
+                           ',');
         }
     }
     else if (is_set_of(assignment_type))
-- 
2.43.0


From cda8c597271fabe59ef475947c6665d5681a279d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:56 +0000
Subject: [PATCH 41/66] fix: comparing a decoded time whose text is no time
 ends the program

The comparisons of generated types are noexcept, time() throws.
---
 include/fast_ber/ber_types/GeneralizedTime.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/fast_ber/ber_types/GeneralizedTime.hpp b/include/fast_ber/ber_types/GeneralizedTime.hpp
index b91261b..f31b2be 100644
--- a/include/fast_ber/ber_types/GeneralizedTime.hpp
+++ b/include/fast_ber/ber_types/GeneralizedTime.hpp
@@ -8,6 +8,7 @@
 #include "absl/time/time.h"
 
 #include <algorithm>
+#include <stdexcept>
 
 namespace fast_ber
 {
@@ -68,7 +69,19 @@ class GeneralizedTime
 template <typename Identifier>
 bool operator==(const GeneralizedTime<Identifier>& lhs, const GeneralizedTime<Identifier>& rhs)
 {
-    return lhs.time() == rhs.time();
+    if (lhs.string() == rhs.string())
+    {
+        return true;
+    }
+
+    try
+    {
+        return lhs.time() == rhs.time();
+    }
+    catch (const std::runtime_error&) // Decoded text which is not a time
+    {
+        return false;
+    }
 }
 
 template <typename Identifier>
-- 
2.43.0


From f4af70bfa7aecfda8d7ddaad4cb674d62e1abe6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:17 +0000
Subject: [PATCH 42/66] fix: AUTOMATIC TAGS tags too much and the wrong
 components

Components were tagged automatically even when one of them has a tag of its own, which replaced or
doubled the written tags; types within lists, choices within choices and written tags without a mode
were tagged explicitly or not at all. Tag the components in the tree once, as X.680 24 has it.
---
 src/compiler/ReorderAssignments.cpp           | 143 ++++++++++++++++++
 .../fast_ber/compiler/CompilerTypes.hpp       |   2 +
 .../fast_ber/compiler/ReorderAssignments.hpp  |   5 +
 src/compiler_main/CompilerMain.cpp            |   2 +
 4 files changed, 152 insertions(+)

diff --git a/src/compiler/ReorderAssignments.cpp b/src/compiler/ReorderAssignments.cpp
index aef9f12..9d7742f 100644
--- a/src/compiler/ReorderAssignments.cpp
+++ b/src/compiler/ReorderAssignments.cpp
@@ -42,6 +42,149 @@ void check_duplicated_names(const std::vector<Assignment>& assignments, const st
     }
 }
 
+// Calls function on a type and every type within it
+void visit_types(Type& type, const std::function<void(Type&)>& function)
+{
+    function(type);
+
+    if (is_defined(type))
+    {
+        for (Type& parameter : absl::get<DefinedType>(type).parameters)
+        {
+            visit_types(parameter, function);
+        }
+    }
+    else if (is_prefixed(type))
+    {
+        visit_types(absl::get<PrefixedType>(absl::get<BuiltinType>(type)).tagged_type->type, function);
+    }
+    else if (is_sequence(type) || is_set(type))
+    {
+        Collection& collection = is_sequence(type)
+                                     ? static_cast<Collection&>(absl::get<SequenceType>(absl::get<BuiltinType>(type)))
+                                     : static_cast<Collection&>(absl::get<SetType>(absl::get<BuiltinType>(type)));
+        for (ComponentType& component : collection.components)
+        {
+            visit_types(component.components_of ? *component.components_of : component.named_type.type, function);
+        }
+    }
+    else if (is_choice(type))
+    {
+        for (NamedType& alternative : absl::get<ChoiceType>(absl::get<BuiltinType>(type)).choices)
+        {
+            visit_types(alternative.type, function);
+        }
+    }
+    else if (is_sequence_of(type))
+    {
+        SequenceOfType& sequence_of = absl::get<SequenceOfType>(absl::get<BuiltinType>(type));
+        visit_types(sequence_of.has_name ? sequence_of.named_type->type : *sequence_of.type, function);
+    }
+    else if (is_set_of(type))
+    {
+        SetOfType& set_of = absl::get<SetOfType>(absl::get<BuiltinType>(type));
+        visit_types(set_of.has_name ? set_of.named_type->type : *set_of.type, function);
+    }
+}
+
+void visit_types(Module& module, const std::function<void(Type&)>& function)
+{
+    for (Assignment& assignment : module.assignments)
+    {
+        if (is_type(assignment))
+        {
+            visit_types(type(assignment), function);
+        }
+    }
+}
+
+void select_automatic_tags(Asn1Tree& tree)
+{
+    for (Module& module : tree.modules)
+    {
+        const bool automatic = module.tagging_default == TaggingMode::automatic;
+        visit_types(module, [&](Type& type) {
+            const auto is_untagged = [](const ComponentType& component) {
+                return component.components_of || !is_prefixed(component.named_type.type);
+            };
+
+            if (is_prefixed(type))
+            {
+                TaggedType& tagged = *absl::get<PrefixedType>(absl::get<BuiltinType>(type)).tagged_type;
+                if (tagged.tagging_mode == TaggingMode::automatic)
+                {
+                    tagged.tagging_mode = automatic ? TaggingMode::implicit : module.tagging_default;
+                }
+            }
+            else if (is_sequence(type))
+            {
+                SequenceType& sequence = absl::get<SequenceType>(absl::get<BuiltinType>(type));
+                sequence.automatic_tags =
+                    automatic && std::all_of(sequence.components.begin(), sequence.components.end(), is_untagged);
+            }
+            else if (is_set(type))
+            {
+                SetType& set = absl::get<SetType>(absl::get<BuiltinType>(type));
+                set.automatic_tags =
+                    automatic && std::all_of(set.components.begin(), set.components.end(), is_untagged);
+            }
+            else if (is_choice(type))
+            {
+                ChoiceType& choice = absl::get<ChoiceType>(absl::get<BuiltinType>(type));
+                choice.automatic_tags =
+                    automatic && std::none_of(choice.choices.begin(), choice.choices.end(),
+                                              [](const NamedType& choice) { return is_prefixed(choice.type); });
+            }
+        });
+
+        if (automatic)
+        {
+            module.tagging_default = TaggingMode::implicit;
+        }
+    }
+}
+
+void apply_automatic_tags(Asn1Tree& tree)
+{
+    const auto tagged = [](int number, const Type& type) {
+        return Type(PrefixedType(TaggedType{Tag{Class::context_specific, number}, TaggingMode::implicit, type}));
+    };
+    const auto apply_to_components = [&](Collection& collection) {
+        int number = 0;
+        for (ComponentType& component : collection.components)
+        {
+            if (collection.automatic_tags)
+            {
+                component.named_type.type = tagged(number++, component.named_type.type);
+            }
+        }
+        collection.automatic_tags = false;
+    };
+
+    for (Module& module : tree.modules)
+    {
+        visit_types(module, [&](Type& type) {
+            if (is_sequence(type))
+            {
+                apply_to_components(absl::get<SequenceType>(absl::get<BuiltinType>(type)));
+            }
+            else if (is_set(type))
+            {
+                apply_to_components(absl::get<SetType>(absl::get<BuiltinType>(type)));
+            }
+            else if (is_choice(type) && absl::get<ChoiceType>(absl::get<BuiltinType>(type)).automatic_tags)
+            {
+                ChoiceType& choice = absl::get<ChoiceType>(absl::get<BuiltinType>(type));
+                for (size_t i = 0; i < choice.choices.size(); i++)
+                {
+                    choice.choices[i].type = tagged(static_cast<int>(i), choice.choices[i].type);
+                }
+                choice.automatic_tags = false;
+            }
+        });
+    }
+}
+
 void resolve_components_of(Asn1Tree& tree)
 {
     for (Module& module : tree.modules)
diff --git a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
index 0deba40..095d889 100644
--- a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
+++ b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
@@ -328,6 +328,7 @@ struct Collection
 {
     ComponentTypeList components;
     bool              allow_extensions = false;
+    bool              automatic_tags   = false; // The components are to be tagged automatically
 };
 struct SequenceType : Collection
 {
@@ -421,6 +422,7 @@ struct ChoiceType
 {
     std::vector<NamedType> choices;
     StorageMode            storage;
+    bool                   automatic_tags; // The alternatives are to be tagged automatically
 };
 
 struct DefinedValue
diff --git a/src/compiler/include/fast_ber/compiler/ReorderAssignments.hpp b/src/compiler/include/fast_ber/compiler/ReorderAssignments.hpp
index e541d20..5473ea3 100644
--- a/src/compiler/include/fast_ber/compiler/ReorderAssignments.hpp
+++ b/src/compiler/include/fast_ber/compiler/ReorderAssignments.hpp
@@ -5,6 +5,11 @@
 std::string to_string(const std::vector<Assignment>& assignments);
 void        check_duplicated_names(const std::vector<Assignment>& assignments, const std::string& module_name);
 
+// Automatic tagging is decided upon the components as they are written and done once COMPONENTS OF is resolved.
+// Afterwards every tag states whether it is explicit or implicit
+void select_automatic_tags(Asn1Tree& tree);
+void apply_automatic_tags(Asn1Tree& tree);
+
 void resolve_components_of(Asn1Tree& tree);
 void resolve_dependencies(const std::unordered_map<std::string, Assignment>& assignment_infos, const std::string& name,
                           const Asn1Tree& tree, const Module& module, std::unordered_set<std::string>& assigned_names,
diff --git a/src/compiler_main/CompilerMain.cpp b/src/compiler_main/CompilerMain.cpp
index 1526a2d..9af9345 100644
--- a/src/compiler_main/CompilerMain.cpp
+++ b/src/compiler_main/CompilerMain.cpp
@@ -269,6 +269,7 @@ int main(int argc, char** argv)
             return -1;
         }
 
+        select_automatic_tags(context.asn1_tree);
         resolve_parameters(context.asn1_tree);
         context.asn1_tree.modules = reorder_modules(context.asn1_tree.modules);
 
@@ -281,6 +282,7 @@ int main(int argc, char** argv)
         }
 
         resolve_components_of(context.asn1_tree);
+        apply_automatic_tags(context.asn1_tree);
         resolve_object_classes(context.asn1_tree);
 
         for (auto& module : context.asn1_tree.modules)
-- 
2.43.0


From 6742be99f751ab4b75adb5bafbca1b76b6709ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:28 +0000
Subject: [PATCH 43/66] fix: copying an alias of a recursive CHOICE tries to
 convert it to one of its own alternatives

---
 src/compiler/GenerateChoice.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/GenerateChoice.cpp b/src/compiler/GenerateChoice.cpp
index 1357c58..8f3ae29 100644
--- a/src/compiler/GenerateChoice.cpp
+++ b/src/compiler/GenerateChoice.cpp
@@ -77,7 +77,7 @@ CodeBlock create_choice_definition(const ChoiceType& choice, const Module& modul
         block.add_line();
 
         block.add_line("template <typename T_,");
-        block.add_line("    typename = absl::enable_if_t<!std::is_same<absl::decay_t<T_>, " + name + ">::value>,");
+        block.add_line("    typename = absl::enable_if_t<!std::is_base_of<" + name + ", absl::decay_t<T_>>::value>,");
         block.add_line("    typename = absl::enable_if_t<ExactlyOnce<AcceptedType<T_&&>>::value && "
                        "std::is_constructible<AcceptedType<T_&&>, T_&&>::value>>");
         block.add_line(name + "(T_&& t) noexcept(std::is_nothrow_constructible<AcceptedType<T_&&>, T_&&>::value) : "
-- 
2.43.0


From 78023d85cb289447df7822bbe4ed1558cc4ed2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:37 +0000
Subject: [PATCH 44/66] fix: a REAL component set to a value near its DEFAULT
 loses it

---
 include/fast_ber/ber_types/Default.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/fast_ber/ber_types/Default.hpp b/include/fast_ber/ber_types/Default.hpp
index 6e8e7cc..3c50611 100644
--- a/include/fast_ber/ber_types/Default.hpp
+++ b/include/fast_ber/ber_types/Default.hpp
@@ -21,7 +21,7 @@ struct Default
     Default(Default&& rhs) noexcept;
     Default(BerView view) { decode(view); }
 
-    Default(const T& val) : m_item((m_default == val) ? absl::optional<T>() : absl::optional<T>(val)) {}
+    Default(const T& val) : m_item(same_value(m_default, val) ? absl::optional<T>() : absl::optional<T>(val)) {}
     template <typename T2>
     Default(const T2& val) : m_item((DefaultValue::get_value() == val) ? absl::optional<T>() : absl::optional<T>(val))
     {
@@ -50,6 +50,14 @@ struct Default
     DecodeResult decode(BerView input) noexcept;
 
   private:
+    // Floating point values compare equal within a tolerance, an assigned value must be kept exactly
+    static bool same_value(const T& lhs, const T& rhs, std::true_type) { return lhs.value() == rhs.value(); }
+    static bool same_value(const T& lhs, const T& rhs, std::false_type) { return lhs == rhs; }
+    static bool same_value(const T& lhs, const T& rhs)
+    {
+        return same_value(lhs, rhs, std::is_floating_point<decltype(T{}.value())>{});
+    }
+
     const T           m_default = T(DefaultValue::get_value()); // Read while m_item is constructed
     absl::optional<T> m_item;
 };
@@ -102,7 +110,7 @@ Default<T, DefaultValue>& Default<T, DefaultValue>::operator=(const T2& val)
 template <typename T, typename DefaultValue>
 Default<T, DefaultValue>& Default<T, DefaultValue>::operator=(const T& val)
 {
-    if (m_default == val)
+    if (same_value(m_default, val))
     {
         m_item = absl::nullopt;
     }
-- 
2.43.0


From 6e39a5fbbdf6fefb853e4fbe459f69ce181c6448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:19 +0000
Subject: [PATCH 45/66] fix: components and types named like what the generated
 code uses do not compile

A tagged component named id, storage, choices or optional declares a type which hides the one the
enclosing class uses, content, output and res are locals of the encode function, and CHOICEs named U or
Args clash with template parameters. Give such types a trailing underscore, as reserved names get.
---
 src/compiler/CompilerTypes.cpp  | 21 ++++++++++++++++--
 src/compiler/CppGeneration.cpp  | 11 ++++++++++
 src/compiler/EncodeDecode.cpp   |  2 +-
 src/compiler/GenerateChoice.cpp | 38 ++++++++++++++++-----------------
 4 files changed, 50 insertions(+), 22 deletions(-)

diff --git a/src/compiler/CompilerTypes.cpp b/src/compiler/CompilerTypes.cpp
index 703f2f8..13830a9 100644
--- a/src/compiler/CompilerTypes.cpp
+++ b/src/compiler/CompilerTypes.cpp
@@ -118,18 +118,29 @@ static const std::unordered_set<std::string> reserved_keywords = {
     "wchar_t",
     "while",
     "xor",
-    "xor_eq"
+    "xor_eq",
     /* fast_ber*/
     "BMPString",
+    "BerView",
+    "BerViewIterator",
     "BitString",
     "Boolean",
     "CharacterString",
     "Choice",
+    "ChoiceId",
+    "Choices",
+    "Class",
+    "Construction",
     "Date",
     "DateTime",
+    "DecodeResult",
+    "Default",
+    "DoubleId",
     "Duration",
     "EmbeddedPDV",
+    "EncodeResult",
     "Enumerated",
+    "ExplicitId",
     "External",
     "GeneralString",
     "GeneralizedTime",
@@ -141,6 +152,7 @@ static const std::unordered_set<std::string> reserved_keywords = {
     "Identifier",
     "InstanceOf",
     "Integer",
+    "IsChoiceId",
     "Null",
     "NumericString",
     "ObjectIdentifier",
@@ -155,6 +167,7 @@ static const std::unordered_set<std::string> reserved_keywords = {
     "SequenceOf",
     "Set",
     "SetOf",
+    "StorageMode",
     "TaggedType",
     "TeletexString",
     "Time",
@@ -162,11 +175,15 @@ static const std::unordered_set<std::string> reserved_keywords = {
     "UTCTime",
     "UTF8String",
     "UniversalString",
+    "UniversalTag",
     "VideotexString",
     "VisibleString",
     "decode",
+    "decode_with_id",
     "encode",
-    "encoded_length"};
+    "encode_with_id",
+    "encoded_length",
+    "encoded_length_with_id"};
 
 // Switch asn '-' for C++ '_'
 // Rename any names which are reserved in C++
diff --git a/src/compiler/CppGeneration.cpp b/src/compiler/CppGeneration.cpp
index 3bd1820..61cf180 100644
--- a/src/compiler/CppGeneration.cpp
+++ b/src/compiler/CppGeneration.cpp
@@ -2,6 +2,7 @@
 
 #include <cctype>
 #include <sstream>
+#include <unordered_set>
 
 std::string create_include(const std::string& path) { return "#include \"" + path + "\"\n"; }
 
@@ -62,6 +63,12 @@ std::string add_namespace(const std::string& name, const std::string& enclosed)
     return output;
 }
 
+// Names which generated types refer to, a type declared within them may not hide these
+static const std::unordered_set<std::string> names_used_in_types = {
+    "BerView",      "BerViewIterator", "ChoiceId", "Choices",  "Class",   "Construction", "DecodeResult",
+    "Default",      "DoubleId",        "Empty",    "EncodeResult", "ExplicitId", "Id",    "Identifier",
+    "IsChoiceId",   "Optional",        "Storage",  "StorageMode",  "ToType",     "UniversalTag"};
+
 // Creates a C++ type following conventions of project (ie starts with capital letter)
 std::string make_type_name(std::string name, absl::string_view parent_name)
 {
@@ -76,6 +83,10 @@ std::string make_type_name(std::string name, absl::string_view parent_name)
     {
         return name + '_';
     }
+    if (names_used_in_types.count(name) > 0)
+    {
+        return name + '_';
+    }
     return name;
 }
 
diff --git a/src/compiler/EncodeDecode.cpp b/src/compiler/EncodeDecode.cpp
index f4b631e..bf47b5e 100644
--- a/src/compiler/EncodeDecode.cpp
+++ b/src/compiler/EncodeDecode.cpp
@@ -51,7 +51,7 @@ CodeBlock create_collection_encode_functions(const std::string& name, const Coll
 
         for (const ComponentType& component : collection.components)
         {
-            block.add_line("res = " + component.named_type.name + "." +
+            block.add_line("res = this->" + component.named_type.name + "." +
                            make_component_function("encode", component.named_type, module, tree) + "(content);");
             block.add_line("if (!res.success)");
             {
diff --git a/src/compiler/GenerateChoice.cpp b/src/compiler/GenerateChoice.cpp
index 8f3ae29..4438e7d 100644
--- a/src/compiler/GenerateChoice.cpp
+++ b/src/compiler/GenerateChoice.cpp
@@ -83,45 +83,45 @@ CodeBlock create_choice_definition(const ChoiceType& choice, const Module& modul
         block.add_line(name + "(T_&& t) noexcept(std::is_nothrow_constructible<AcceptedType<T_&&>, T_&&>::value) : "
                               "m_storage(std::forward<T_>(t)) {}");
 
-        block.add_line("template <typename T_, typename... Args,");
-        block.add_line(
-            "    typename = absl::enable_if_t<ExactlyOnce<T_>::value && std::is_constructible<T_, Args&&...>::value>>");
+        block.add_line("template <typename T_, typename... Args_,");
+        block.add_line("    typename = absl::enable_if_t<ExactlyOnce<T_>::value && std::is_constructible<T_, "
+                       "Args_&&...>::value>>");
         block.add_line("explicit " + name +
-                       "(in_place_type_t<T_> i, Args&&... args) : m_storage(std::forward<Args>(i, args)...) {}");
+                       "(in_place_type_t<T_> i, Args_&&... args) : m_storage(std::forward<Args_>(i, args)...) {}");
 
-        block.add_line("template <typename T_, typename U, typename... Args,");
+        block.add_line("template <typename T_, typename U_, typename... Args_,");
         block.add_line("    typename = absl::enable_if_t<ExactlyOnce<T_>::value && std::is_constructible<T_, "
-                       "std::initializer_list<U>&, Args&&...>::value>>");
+                       "std::initializer_list<U_>&, Args_&&...>::value>>");
         block.add_line("explicit " + name +
-                       "(in_place_type_t<T_> ip, std::initializer_list<U> il, Args&&... args) : m_storage(ip, il, "
-                       "std::forward<Args>(args)...) {}");
+                       "(in_place_type_t<T_> ip, std::initializer_list<U_> il, Args_&&... args) : m_storage(ip, il, "
+                       "std::forward<Args_>(args)...) {}");
 
-        block.add_line("template <std::size_t i, typename... Args,");
-        block.add_line("    typename = absl::enable_if_t<std::is_constructible<ToType<i>, Args&&...>::value>>");
+        block.add_line("template <std::size_t i, typename... Args_,");
+        block.add_line("    typename = absl::enable_if_t<std::is_constructible<ToType<i>, Args_&&...>::value>>");
         block.add_line("explicit " + name +
-                       "(in_place_index_t<i> ip, Args&&... args) : m_storage(ip, std::forward<Args>(args)...) {}");
+                       "(in_place_index_t<i> ip, Args_&&... args) : m_storage(ip, std::forward<Args_>(args)...) {}");
 
         block.add_line();
 
         // Emplace
-        block.add_line("template <typename T_, typename... Args,");
+        block.add_line("template <typename T_, typename... Args_,");
         block.add_line(
-            "    typename = absl::enable_if_t<std::is_constructible<T_, Args...>::value && ExactlyOnce<T_>::value>>");
-        block.add_line("T_& emplace(Args&&... args)");
+            "    typename = absl::enable_if_t<std::is_constructible<T_, Args_...>::value && ExactlyOnce<T_>::value>>");
+        block.add_line("T_& emplace(Args_&&... args)");
         {
             CodeScope scope2(block);
             {
-                block.add_line("return m_storage.emplace<T_>(std::forward<Args>(args)...);");
+                block.add_line("return m_storage.emplace<T_>(std::forward<Args_>(args)...);");
             }
         }
-        block.add_line("template <std::size_t i, typename... Args>");
-        block.add_line("    absl::enable_if_t<std::is_constructible<ToType<i>, Args...>::value,");
+        block.add_line("template <std::size_t i, typename... Args_>");
+        block.add_line("    absl::enable_if_t<std::is_constructible<ToType<i>, Args_...>::value,");
         block.add_line("    ToType<i>&>");
-        block.add_line("emplace(Args&&... args)");
+        block.add_line("emplace(Args_&&... args)");
         {
             CodeScope scope2(block);
             {
-                block.add_line("return m_storage.emplace<i>(std::forward<Args>(args)...);");
+                block.add_line("return m_storage.emplace<i>(std::forward<Args_>(args)...);");
             }
         }
         block.add_line();
-- 
2.43.0


From 87144eb16feeaceed8ed9ecc1f5ae80011e18c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:09 +0000
Subject: [PATCH 46/66] fix: COMPONENTS OF includes the wrong components, or
 none

It was expanded within SEQUENCE assignments only: not in a SET, in a type within another one, for a type
which itself has COMPONENTS OF, is tagged or an alias, or is in another module, and it included extension
additions. Expand it everywhere, and before nested types are split off; refuse a type which includes
itself. Default values named in another module are qualified by it.

The checked in parser is generated from the grammar with bison 3.8.2 and re2c 3.1.
---
 src/compiler/CompilerTypes.cpp                |     9 +
 src/compiler/Dependencies.cpp                 |     2 +-
 src/compiler/ReorderAssignments.cpp           |   198 +-
 src/compiler/ValueAsString.cpp                |     9 +-
 src/compiler/asn_compiler.yacc                |    26 +-
 src/compiler/autogen_copy/asn_compiler.hpp    | 25198 ++++++++--------
 .../fast_ber/compiler/CompilerTypes.hpp       |     7 +-
 .../fast_ber/compiler/ReorderAssignments.hpp  |     9 +
 src/compiler_main/CompilerMain.cpp            |     7 +-
 9 files changed, 12788 insertions(+), 12677 deletions(-)

diff --git a/src/compiler/CompilerTypes.cpp b/src/compiler/CompilerTypes.cpp
index 13830a9..b4a7f7c 100644
--- a/src/compiler/CompilerTypes.cpp
+++ b/src/compiler/CompilerTypes.cpp
@@ -344,3 +344,12 @@ std::string gen_anon_member_name()
     static std::size_t count = 0;
     return "anonymous_member_" + std::to_string(count++);
 }
+
+void add_extensions(ComponentTypeList& components, const ComponentTypeList& extensions)
+{
+    for (ComponentType extension : extensions)
+    {
+        extension.is_extension = true;
+        components.push_back(extension);
+    }
+}
diff --git a/src/compiler/Dependencies.cpp b/src/compiler/Dependencies.cpp
index 07af930..ce533f1 100644
--- a/src/compiler/Dependencies.cpp
+++ b/src/compiler/Dependencies.cpp
@@ -47,7 +47,7 @@ std::vector<Dependency> depends_on(const SequenceType& sequence)
             !is_enumerated(component.named_type.type))
         {
             const DefinedValue& defined = absl::get<DefinedValue>(component.default_value->value_selection);
-            depends.push_back(Dependency{defined.reference, absl::nullopt});
+            depends.push_back(Dependency{defined.reference, defined.module_reference});
         }
     }
     return depends;
diff --git a/src/compiler/ReorderAssignments.cpp b/src/compiler/ReorderAssignments.cpp
index 9d7742f..fe1b017 100644
--- a/src/compiler/ReorderAssignments.cpp
+++ b/src/compiler/ReorderAssignments.cpp
@@ -98,6 +98,41 @@ void visit_types(Module& module, const std::function<void(Type&)>& function)
     }
 }
 
+void qualify_names(Type& type, const std::string& module_reference,
+                   const std::function<bool(const std::string&)>& is_parameter)
+{
+    const auto qualify_defaults = [&](ComponentTypeList& components) {
+        for (ComponentType& component : components)
+        {
+            if (component.default_value &&
+                absl::holds_alternative<DefinedValue>(component.default_value->value_selection))
+            {
+                DefinedValue& defined    = absl::get<DefinedValue>(component.default_value->value_selection);
+                defined.module_reference = defined.module_reference.value_or(module_reference);
+            }
+        }
+    };
+
+    visit_types(type, [&](Type& inner) {
+        if (is_defined(inner))
+        {
+            DefinedType& defined = absl::get<DefinedType>(inner);
+            if (!defined.module_reference && !is_parameter(defined.type_reference))
+            {
+                defined.module_reference = module_reference;
+            }
+        }
+        else if (is_sequence(inner))
+        {
+            qualify_defaults(absl::get<SequenceType>(absl::get<BuiltinType>(inner)).components);
+        }
+        else if (is_set(inner))
+        {
+            qualify_defaults(absl::get<SetType>(absl::get<BuiltinType>(inner)).components);
+        }
+    });
+}
+
 void select_automatic_tags(Asn1Tree& tree)
 {
     for (Module& module : tree.modules)
@@ -185,93 +220,89 @@ void apply_automatic_tags(Asn1Tree& tree)
     }
 }
 
-void resolve_components_of(Asn1Tree& tree)
+ComponentTypeList& components_of(Type& type)
 {
-    for (Module& module : tree.modules)
+    BuiltinType& builtin = absl::get<BuiltinType>(type);
+    return is_sequence(type) ? absl::get<SequenceType>(builtin).components : absl::get<SetType>(builtin).components;
+}
+
+// Components of a collection with each COMPONENTS OF replaced by the components of the type it refers to
+ComponentTypeList expand_components(const Asn1Tree& tree, const Module& module, const ComponentTypeList& components,
+                                    size_t depth)
+{
+    ComponentTypeList expanded;
+    for (const ComponentType& component : components)
     {
-        for (Assignment& assignemnt : module.assignments)
+        if (!component.components_of)
+        {
+            expanded.push_back(component);
+            continue;
+        }
+
+        // A type may only refer to itself by way of types which are not expanded
+        if (depth > 1000)
+        {
+            throw std::runtime_error("COMPONENTS OF a type which includes itself in module " + module.module_reference);
+        }
+
+        Type        inherited = *component.components_of;
+        std::string home      = module.module_reference;
+        for (size_t references = 0; is_defined(inherited) || is_prefixed(inherited); references++)
         {
-            if (absl::holds_alternative<TypeAssignment>(assignemnt.specific))
+            if (references > 1000)
             {
-                TypeAssignment& type_assignment = absl::get<TypeAssignment>(assignemnt.specific);
-                if (is_sequence(type_assignment.type))
-                {
-                    SequenceType& sequence = absl::get<SequenceType>(absl::get<BuiltinType>(type_assignment.type));
-                    for (auto iter = sequence.components.begin(); iter != sequence.components.end(); iter++)
-                    {
-                        if (iter->components_of)
-                        {
-                            if (is_defined(*iter->components_of))
-                            {
-                                const DefinedType& defined    = absl::get<DefinedType>(*iter->components_of);
-                                const Type&        inheretied = type(resolve(tree, module.module_reference, defined));
-                                if (is_sequence(inheretied))
-                                {
-                                    const SequenceType& inheretied_sequence =
-                                        absl::get<SequenceType>(absl::get<BuiltinType>(inheretied));
-
-                                    const size_t offset = std::distance(sequence.components.begin(), iter);
-                                    sequence.components.insert(iter, inheretied_sequence.components.begin(),
-                                                               inheretied_sequence.components.end());
-
-                                    iter = sequence.components.begin();
-                                    std::advance(iter, offset);
-                                    std::advance(iter, inheretied_sequence.components.size());
-                                }
-                                else if (is_set(inheretied))
-                                {
-                                    const SetType& inheretied_set =
-                                        absl::get<SetType>(absl::get<BuiltinType>(inheretied));
-
-                                    const size_t offset = std::distance(sequence.components.begin(), iter);
-                                    sequence.components.insert(iter, inheretied_set.components.begin(),
-                                                               inheretied_set.components.end());
-
-                                    iter = sequence.components.begin();
-                                    std::advance(iter, offset);
-                                    std::advance(iter, inheretied_set.components.size());
-                                }
-                            }
-                            else if (is_sequence(*iter->components_of))
-                            {
-                                const SequenceType& inheretied_sequence =
-                                    absl::get<SequenceType>(absl::get<BuiltinType>(*iter->components_of));
-
-                                const size_t offset = std::distance(sequence.components.begin(), iter);
-                                sequence.components.insert(iter, inheretied_sequence.components.begin(),
-                                                           inheretied_sequence.components.end());
-
-                                iter = sequence.components.begin();
-                                std::advance(iter, offset);
-                                std::advance(iter, inheretied_sequence.components.size());
-                            }
-                            else if (is_set(*iter->components_of))
-                            {
-                                const SetType& inheretied_set =
-                                    absl::get<SetType>(absl::get<BuiltinType>(*iter->components_of));
-
-                                const size_t offset = std::distance(sequence.components.begin(), iter);
-                                sequence.components.insert(iter, inheretied_set.components.begin(),
-                                                           inheretied_set.components.end());
-
-                                iter = sequence.components.begin();
-                                std::advance(iter, offset);
-                                std::advance(iter, inheretied_set.components.size());
-                            }
-                            else
-                            {
-                                throw std::runtime_error("Strange type when resolving SEQUENCE OF in type" +
-                                                         assignemnt.name);
-                            }
-                        }
-                    }
-                    sequence.components.erase(
-                        std::remove_if(sequence.components.begin(), sequence.components.end(),
-                                       [](ComponentType& component) { return component.components_of; }),
-                        sequence.components.end());
-                }
+                throw std::runtime_error("COMPONENTS OF a type which refers to itself in module " +
+                                         module.module_reference);
+            }
+
+            if (is_prefixed(inherited))
+            {
+                inherited = Type(absl::get<PrefixedType>(absl::get<BuiltinType>(inherited)).tagged_type->type);
+            }
+            else
+            {
+                const DefinedType defined = absl::get<DefinedType>(inherited);
+                home                      = defined.module_reference ? *defined.module_reference : home;
+                inherited                 = Type(type(resolve(tree, home, defined.type_reference)));
             }
         }
+
+        if (!is_sequence(inherited) && !is_set(inherited))
+        {
+            throw std::runtime_error("COMPONENTS OF a type which is neither a sequence nor a set in module " +
+                                     module.module_reference);
+        }
+
+        components_of(inherited) =
+            expand_components(tree, find_module(tree, home), components_of(inherited), depth + 1);
+        if (home != module.module_reference)
+        {
+            qualify_names(inherited, home, [](const std::string&) { return false; });
+        }
+
+        for (ComponentType inner : components_of(inherited))
+        {
+            // Extensions are not included
+            if (!inner.is_extension)
+            {
+                inner.is_extension = component.is_extension;
+                expanded.push_back(inner);
+            }
+        }
+    }
+    return expanded;
+}
+
+void resolve_components_of(Asn1Tree& tree)
+{
+    for (Module& module : tree.modules)
+    {
+        visit_types(module, [&](Type& type) {
+            if (is_sequence(type) || is_set(type))
+            {
+                components_of(type) = expand_components(tree, module, components_of(type), 0);
+            }
+        });
     }
 }
 
@@ -284,7 +315,7 @@ bool refers_to_assignment(const Asn1Tree& tree, const Module& module, const Type
         resolved = Type(absl::get<PrefixedType>(absl::get<BuiltinType>(resolved)).tagged_type->type);
     }
 
-    return !is_enumerated(resolved) && !find_named_number(resolved, Value{DefinedValue{reference}}) &&
+    return !is_enumerated(resolved) && !find_named_number(resolved, Value{DefinedValue{reference, absl::nullopt}}) &&
            std::none_of(module.imports.begin(), module.imports.end(), [&](const Import& import) {
                return std::find(import.imported_values.begin(), import.imported_values.end(), reference) !=
                       import.imported_values.end();
@@ -321,7 +352,8 @@ std::vector<Dependency> break_cycles(Type& type, const std::string& name, const
                 absl::holds_alternative<DefinedValue>(component.default_value->value_selection))
             {
                 const DefinedValue& defined = absl::get<DefinedValue>(component.default_value->value_selection);
-                if (refers_to_assignment(tree, module, component.named_type.type, defined.reference))
+                if (!defined.module_reference &&
+                    refers_to_assignment(tree, module, component.named_type.type, defined.reference))
                 {
                     add({Dependency{defined.reference, absl::nullopt}});
                 }
diff --git a/src/compiler/ValueAsString.cpp b/src/compiler/ValueAsString.cpp
index 91713b2..1e91360 100644
--- a/src/compiler/ValueAsString.cpp
+++ b/src/compiler/ValueAsString.cpp
@@ -67,6 +67,11 @@ std::string cpp_value(const CharStringValue& cstring)
     return res + "\"";
 }
 
+std::string qualified_name(const std::string& scope, const DefinedValue& defined)
+{
+    return (defined.module_reference ? "::fast_ber::" + *defined.module_reference + "::" : scope) + defined.reference;
+}
+
 const NamedNumber* find_named_number(const Type& type, const Value& value)
 {
     if (is_integer(type) && absl::holds_alternative<DefinedValue>(value.value_selection))
@@ -140,7 +145,7 @@ std::string value_as_string(const NamedType& value_type, const Value& value, con
         }
         else if (absl::holds_alternative<DefinedValue>(value.value_selection))
         {
-            result += scope + absl::get<DefinedValue>(value.value_selection).reference;
+            result += qualified_name(scope, absl::get<DefinedValue>(value.value_selection));
         }
         else
         {
@@ -191,7 +196,7 @@ std::string value_as_string(const NamedType& value_type, const Value& value, con
     else if (absl::holds_alternative<DefinedValue>(value.value_selection))
     {
         const DefinedValue& defined = absl::get<DefinedValue>(value.value_selection);
-        result += scope + defined.reference;
+        result += qualified_name(scope, defined);
     }
     else if (absl::holds_alternative<BooleanValue>(value.value_selection))
     {
diff --git a/src/compiler/asn_compiler.yacc b/src/compiler/asn_compiler.yacc
index 5f3fb48..086c4c6 100644
--- a/src/compiler/asn_compiler.yacc
+++ b/src/compiler/asn_compiler.yacc
@@ -912,7 +912,7 @@ DefinedType:
 DefinedValue:
 //    ExternalValueReference
     valuereference
-    { $$ = DefinedValue{$1}; }
+    { $$ = DefinedValue{$1, absl::nullopt}; }
 |   ParameterizedValue;
 
 ParameterizedType:
@@ -1226,22 +1226,22 @@ ComponentTypeLists:
       $$.allow_extensions = true; }
 |   ComponentTypeList "," ELIPSIS ExceptionSpec "," ComponentTypeList
     { $$.components = $1;
-      $$.components.insert($$.components.end(), $6.begin(), $6.end());
+      add_extensions($$.components, $6);
       $$.allow_extensions = true; }
 |   ComponentTypeList "," ELIPSIS ExceptionSpec "," ComponentTypeList "," ELIPSIS
     { $$.components = $1;
-      $$.components.insert($$.components.end(), $6.begin(), $6.end());
+      add_extensions($$.components, $6);
       $$.allow_extensions = true; }
 |   ComponentTypeList "," ELIPSIS ExceptionSpec "," ComponentTypeList "," ELIPSIS "," ComponentTypeList
     { $$.components = $1;
-      $$.components.insert($$.components.end(), $6.begin(), $6.end());
+      add_extensions($$.components, $6);
       $$.components.insert($$.components.end(), $10.begin(), $10.end());
       $$.allow_extensions = true; }
 |   ELIPSIS ExceptionSpec "," ComponentTypeList
-    { $$.components = $4;
+    { add_extensions($$.components, $4);
       $$.allow_extensions = true; }
 |   ELIPSIS ExceptionSpec "," ComponentTypeList "," ELIPSIS
-    { $$.components = $4;
+    { add_extensions($$.components, $4);
       $$.allow_extensions = true; }
 |   ELIPSIS ExceptionSpec
     { $$.components = {};
@@ -1259,21 +1259,21 @@ ComponentTypeList:
 ComponentType:
     Type
     { std::cerr << context_.location << " WARNING: unnamed type\n";
-      $$ = ComponentType{{gen_anon_member_name(), $1}, false, absl::nullopt, absl::nullopt, StorageMode::static_ }; }
+      $$ = ComponentType{{gen_anon_member_name(), $1}, false, absl::nullopt, absl::nullopt, StorageMode::static_, false }; }
 |   Type OPTIONAL
     { std::cerr << context_.location << " WARNING: unnamed type\n";
-      $$ = ComponentType{{gen_anon_member_name(), $1}, true, absl::nullopt, absl::nullopt, StorageMode::static_ }; }
+      $$ = ComponentType{{gen_anon_member_name(), $1}, true, absl::nullopt, absl::nullopt, StorageMode::static_, false }; }
 |   Type DEFAULT SingleValue
-    { $$ = ComponentType{{gen_anon_member_name(), $1}, false, $3, absl::nullopt, StorageMode::static_ };
+    { $$ = ComponentType{{gen_anon_member_name(), $1}, false, $3, absl::nullopt, StorageMode::static_, false };
       std::cerr << context_.location << " WARNING: unnamed type\n"; }
 |   NamedType
-    { $$ = ComponentType{$1, false, absl::nullopt, absl::nullopt, StorageMode::static_ }; }
+    { $$ = ComponentType{$1, false, absl::nullopt, absl::nullopt, StorageMode::static_, false }; }
 |   NamedType OPTIONAL
-    { $$ = ComponentType{$1, true, absl::nullopt, absl::nullopt, StorageMode::static_ }; }
+    { $$ = ComponentType{$1, true, absl::nullopt, absl::nullopt, StorageMode::static_, false }; }
 |   NamedType DEFAULT SingleValue
-    { $$ = ComponentType{$1, false, $3, absl::nullopt, StorageMode::static_ }; }
+    { $$ = ComponentType{$1, false, $3, absl::nullopt, StorageMode::static_, false }; }
 |   COMPONENTS OF Type
-    { $$ = ComponentType{{}, false, absl::nullopt, $3, StorageMode::static_}; }
+    { $$ = ComponentType{{}, false, absl::nullopt, $3, StorageMode::static_, false}; }
 
 SequenceValue:
     "{" ComponentValueList "}"
diff --git a/src/compiler/autogen_copy/asn_compiler.hpp b/src/compiler/autogen_copy/asn_compiler.hpp
index 07ab183..da0796d 100644
--- a/src/compiler/autogen_copy/asn_compiler.hpp
+++ b/src/compiler/autogen_copy/asn_compiler.hpp
@@ -1,10 +1,9 @@
-/* Generated by re2c 2.0.3 */
-#line 1 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
-// A Bison parser, made by GNU Bison 3.3.2.
+/* Generated by re2c 3.1 */
+// A Bison parser, made by GNU Bison 3.8.2.
 
 // Skeleton implementation for Bison LALR(1) parsers in C++
 
-// Copyright (C) 2002-2015, 2018-2019 Free Software Foundation, Inc.
+// Copyright (C) 2002-2015, 2018-2021 Free Software Foundation, Inc.
 
 // This program is free software: you can redistribute it and/or modify
 // it under the terms of the GNU General Public License as published by
@@ -17,7 +16,7 @@
 // GNU General Public License for more details.
 
 // You should have received a copy of the GNU General Public License
-// along with this program.  If not, see <http://www.gnu.org/licenses/>.
+// along with this program.  If not, see <https://www.gnu.org/licenses/>.
 
 // As a special exception, you may create a larger work that contains
 // part or all of the Bison parser skeleton and distribute that work
@@ -32,20 +31,19 @@
 // This special exception was added by the Free Software Foundation in
 // version 2.2 of Bison.
 
-// Undocumented macros, especially those whose name start with YY_,
-// are private implementation details.  Do not rely on them.
+// DO NOT RELY ON FEATURES THAT ARE NOT DOCUMENTED in the manual,
+// especially those whose name start with YY_ or yy_.  They are
+// private implementation details that can be changed or removed.
 
 
 
 
 
-// //                    "%code requires" blocks.
-#line 10 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:431
+// "%code requires" blocks.
 
     #include "fast_ber/compiler/CompilerTypes.hpp"
     #include "fast_ber/compiler/Logging.hpp"
 
-#line 47 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:431
 
 # include <cassert>
 # include <cstdlib> // std::abort
@@ -92,44 +90,48 @@
 #endif
 
 #include <typeinfo>
-#ifndef YYASSERT
+#ifndef YY_ASSERT
 # include <cassert>
-# define YYASSERT assert
+# define YY_ASSERT assert
 #endif
 
 
-#ifndef YY_ATTRIBUTE
-# if (defined __GNUC__                                               \
-      && (2 < __GNUC__ || (__GNUC__ == 2 && 96 <= __GNUC_MINOR__)))  \
-     || defined __SUNPRO_C && 0x5110 <= __SUNPRO_C
-#  define YY_ATTRIBUTE(Spec) __attribute__(Spec)
+#ifndef YY_ATTRIBUTE_PURE
+# if defined __GNUC__ && 2 < __GNUC__ + (96 <= __GNUC_MINOR__)
+#  define YY_ATTRIBUTE_PURE __attribute__ ((__pure__))
 # else
-#  define YY_ATTRIBUTE(Spec) /* empty */
+#  define YY_ATTRIBUTE_PURE
 # endif
 #endif
 
-#ifndef YY_ATTRIBUTE_PURE
-# define YY_ATTRIBUTE_PURE   YY_ATTRIBUTE ((__pure__))
-#endif
-
 #ifndef YY_ATTRIBUTE_UNUSED
-# define YY_ATTRIBUTE_UNUSED YY_ATTRIBUTE ((__unused__))
+# if defined __GNUC__ && 2 < __GNUC__ + (7 <= __GNUC_MINOR__)
+#  define YY_ATTRIBUTE_UNUSED __attribute__ ((__unused__))
+# else
+#  define YY_ATTRIBUTE_UNUSED
+# endif
 #endif
 
 /* Suppress unused-variable warnings by "using" E.  */
 #if ! defined lint || defined __GNUC__
-# define YYUSE(E) ((void) (E))
+# define YY_USE(E) ((void) (E))
 #else
-# define YYUSE(E) /* empty */
+# define YY_USE(E) /* empty */
 #endif
 
-#if defined __GNUC__ && ! defined __ICC && 407 <= __GNUC__ * 100 + __GNUC_MINOR__
 /* Suppress an incorrect diagnostic about yylval being uninitialized.  */
-# define YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN \
-    _Pragma ("GCC diagnostic push") \
-    _Pragma ("GCC diagnostic ignored \"-Wuninitialized\"")\
+#if defined __GNUC__ && ! defined __ICC && 406 <= __GNUC__ * 100 + __GNUC_MINOR__
+# if __GNUC__ * 100 + __GNUC_MINOR__ < 407
+#  define YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN                           \
+    _Pragma ("GCC diagnostic push")                                     \
+    _Pragma ("GCC diagnostic ignored \"-Wuninitialized\"")
+# else
+#  define YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN                           \
+    _Pragma ("GCC diagnostic push")                                     \
+    _Pragma ("GCC diagnostic ignored \"-Wuninitialized\"")              \
     _Pragma ("GCC diagnostic ignored \"-Wmaybe-uninitialized\"")
-# define YY_IGNORE_MAYBE_UNINITIALIZED_END \
+# endif
+# define YY_IGNORE_MAYBE_UNINITIALIZED_END      \
     _Pragma ("GCC diagnostic pop")
 #else
 # define YY_INITIAL_VALUE(Value) Value
@@ -142,6 +144,27 @@
 # define YY_INITIAL_VALUE(Value) /* Nothing. */
 #endif
 
+#if defined __cplusplus && defined __GNUC__ && ! defined __ICC && 6 <= __GNUC__
+# define YY_IGNORE_USELESS_CAST_BEGIN                          \
+    _Pragma ("GCC diagnostic push")                            \
+    _Pragma ("GCC diagnostic ignored \"-Wuseless-cast\"")
+# define YY_IGNORE_USELESS_CAST_END            \
+    _Pragma ("GCC diagnostic pop")
+#endif
+#ifndef YY_IGNORE_USELESS_CAST_BEGIN
+# define YY_IGNORE_USELESS_CAST_BEGIN
+# define YY_IGNORE_USELESS_CAST_END
+#endif
+
+# ifndef YY_CAST
+#  ifdef __cplusplus
+#   define YY_CAST(Type, Val) static_cast<Type> (Val)
+#   define YY_REINTERPRET_CAST(Type, Val) reinterpret_cast<Type> (Val)
+#  else
+#   define YY_CAST(Type, Val) ((Type) (Val))
+#   define YY_REINTERPRET_CAST(Type, Val) ((Type) (Val))
+#  endif
+# endif
 # ifndef YY_NULLPTR
 #  if defined __cplusplus
 #   if 201103L <= __cplusplus
@@ -159,18 +182,22 @@
 # define YYDEBUG 1
 #endif
 
-
 namespace yy {
-#line 163 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:431
+
 
   /// A point in a source file.
   class position
   {
   public:
+    /// Type for file name.
+    typedef const std::string filename_type;
+    /// Type for line and column numbers.
+    typedef int counter_type;
+
     /// Construct a position.
-    explicit position (std::string* f = YY_NULLPTR,
-                       unsigned l = 1u,
-                       unsigned c = 1u)
+    explicit position (filename_type* f = YY_NULLPTR,
+                       counter_type l = 1,
+                       counter_type c = 1)
       : filename (f)
       , line (l)
       , column (c)
@@ -178,9 +205,9 @@ namespace yy {
 
 
     /// Initialization.
-    void initialize (std::string* fn = YY_NULLPTR,
-                     unsigned l = 1u,
-                     unsigned c = 1u)
+    void initialize (filename_type* fn = YY_NULLPTR,
+                     counter_type l = 1,
+                     counter_type c = 1)
     {
       filename = fn;
       line = l;
@@ -190,41 +217,40 @@ namespace yy {
     /** \name Line and Column related manipulators
      ** \{ */
     /// (line related) Advance to the COUNT next lines.
-    void lines (int count = 1)
+    void lines (counter_type count = 1)
     {
       if (count)
         {
-          column = 1u;
+          column = 1;
           line = add_ (line, count, 1);
         }
     }
 
     /// (column related) Advance to the COUNT next columns.
-    void columns (int count = 1)
+    void columns (counter_type count = 1)
     {
       column = add_ (column, count, 1);
     }
     /** \} */
 
     /// File name to which this position refers.
-    std::string* filename;
+    filename_type* filename;
     /// Current line number.
-    unsigned line;
+    counter_type line;
     /// Current column number.
-    unsigned column;
+    counter_type column;
 
   private:
     /// Compute max (min, lhs+rhs).
-    static unsigned add_ (unsigned lhs, int rhs, int min)
+    static counter_type add_ (counter_type lhs, counter_type rhs, counter_type min)
     {
-      return static_cast<unsigned> (std::max (min,
-                                              static_cast<int> (lhs) + rhs));
+      return lhs + rhs < min ? min : lhs + rhs;
     }
   };
 
   /// Add \a width columns, in place.
   inline position&
-  operator+= (position& res, int width)
+  operator+= (position& res, position::counter_type width)
   {
     res.columns (width);
     return res;
@@ -232,43 +258,25 @@ namespace yy {
 
   /// Add \a width columns.
   inline position
-  operator+ (position res, int width)
+  operator+ (position res, position::counter_type width)
   {
     return res += width;
   }
 
   /// Subtract \a width columns, in place.
   inline position&
-  operator-= (position& res, int width)
+  operator-= (position& res, position::counter_type width)
   {
     return res += -width;
   }
 
   /// Subtract \a width columns.
   inline position
-  operator- (position res, int width)
+  operator- (position res, position::counter_type width)
   {
     return res -= width;
   }
 
-  /// Compare two position objects.
-  inline bool
-  operator== (const position& pos1, const position& pos2)
-  {
-    return (pos1.line == pos2.line
-            && pos1.column == pos2.column
-            && (pos1.filename == pos2.filename
-                || (pos1.filename && pos2.filename
-                    && *pos1.filename == *pos2.filename)));
-  }
-
-  /// Compare two position objects.
-  inline bool
-  operator!= (const position& pos1, const position& pos2)
-  {
-    return !(pos1 == pos2);
-  }
-
   /** \brief Intercept output stream redirection.
    ** \param ostr the destination output stream
    ** \param pos a reference to the position to redirect
@@ -286,6 +294,10 @@ namespace yy {
   class location
   {
   public:
+    /// Type for file name.
+    typedef position::filename_type filename_type;
+    /// Type for line and column numbers.
+    typedef position::counter_type counter_type;
 
     /// Construct a location from \a b to \a e.
     location (const position& b, const position& e)
@@ -300,18 +312,18 @@ namespace yy {
     {}
 
     /// Construct a 0-width location in \a f, \a l, \a c.
-    explicit location (std::string* f,
-                       unsigned l = 1u,
-                       unsigned c = 1u)
+    explicit location (filename_type* f,
+                       counter_type l = 1,
+                       counter_type c = 1)
       : begin (f, l, c)
       , end (f, l, c)
     {}
 
 
     /// Initialization.
-    void initialize (std::string* f = YY_NULLPTR,
-                     unsigned l = 1u,
-                     unsigned c = 1u)
+    void initialize (filename_type* f = YY_NULLPTR,
+                     counter_type l = 1,
+                     counter_type c = 1)
     {
       begin.initialize (f, l, c);
       end = begin;
@@ -327,13 +339,13 @@ namespace yy {
     }
 
     /// Extend the current location to the COUNT next columns.
-    void columns (int count = 1)
+    void columns (counter_type count = 1)
     {
       end += count;
     }
 
     /// Extend the current location to the COUNT next lines.
-    void lines (int count = 1)
+    void lines (counter_type count = 1)
     {
       end.lines (count);
     }
@@ -348,57 +360,49 @@ namespace yy {
   };
 
   /// Join two locations, in place.
-  inline location& operator+= (location& res, const location& end)
+  inline location&
+  operator+= (location& res, const location& end)
   {
     res.end = end.end;
     return res;
   }
 
   /// Join two locations.
-  inline location operator+ (location res, const location& end)
+  inline location
+  operator+ (location res, const location& end)
   {
     return res += end;
   }
 
   /// Add \a width columns to the end position, in place.
-  inline location& operator+= (location& res, int width)
+  inline location&
+  operator+= (location& res, location::counter_type width)
   {
     res.columns (width);
     return res;
   }
 
   /// Add \a width columns to the end position.
-  inline location operator+ (location res, int width)
+  inline location
+  operator+ (location res, location::counter_type width)
   {
     return res += width;
   }
 
   /// Subtract \a width columns to the end position, in place.
-  inline location& operator-= (location& res, int width)
+  inline location&
+  operator-= (location& res, location::counter_type width)
   {
     return res += -width;
   }
 
   /// Subtract \a width columns to the end position.
-  inline location operator- (location res, int width)
+  inline location
+  operator- (location res, location::counter_type width)
   {
     return res -= width;
   }
 
-  /// Compare two location objects.
-  inline bool
-  operator== (const location& loc1, const location& loc2)
-  {
-    return loc1.begin == loc2.begin && loc1.end == loc2.end;
-  }
-
-  /// Compare two location objects.
-  inline bool
-  operator!= (const location& loc1, const location& loc2)
-  {
-    return !(loc1 == loc2);
-  }
-
   /** \brief Intercept output stream redirection.
    ** \param ostr the destination output stream
    ** \param loc a reference to the location to redirect
@@ -409,7 +413,8 @@ namespace yy {
   std::basic_ostream<YYChar>&
   operator<< (std::basic_ostream<YYChar>& ostr, const location& loc)
   {
-    unsigned end_col = 0 < loc.end.column ? loc.end.column - 1 : 0;
+    location::counter_type end_col
+      = 0 < loc.end.column ? loc.end.column - 1 : 0;
     ostr << loc.begin;
     if (loc.end.filename
         && (!loc.begin.filename
@@ -427,37 +432,49 @@ namespace yy {
   class asn1_parser
   {
   public:
-#ifndef YYSTYPE
+#ifdef YYSTYPE
+# ifdef __GNUC__
+#  pragma GCC message "bison: do not #define YYSTYPE in C++, use %define api.value.type"
+# endif
+    typedef YYSTYPE value_type;
+#else
   /// A buffer to store and retrieve objects.
   ///
   /// Sort of a variant, but does not keep track of the nature
   /// of the stored data, since that knowledge is available
   /// via the current parser state.
-  class semantic_type
+  class value_type
   {
   public:
     /// Type of *this.
-    typedef semantic_type self_type;
+    typedef value_type self_type;
 
     /// Empty construction.
-    semantic_type () YY_NOEXCEPT
-      : yybuffer_ ()
+    value_type () YY_NOEXCEPT
+      : yyraw_ ()
       , yytypeid_ (YY_NULLPTR)
     {}
 
     /// Construct and fill.
     template <typename T>
-    semantic_type (YY_RVREF (T) t)
+    value_type (YY_RVREF (T) t)
       : yytypeid_ (&typeid (T))
     {
-      YYASSERT (sizeof (T) <= size);
+      YY_ASSERT (sizeof (T) <= size);
       new (yyas_<T> ()) T (YY_MOVE (t));
     }
 
+#if 201103L <= YY_CPLUSPLUS
+    /// Non copyable.
+    value_type (const self_type&) = delete;
+    /// Non copyable.
+    self_type& operator= (const self_type&) = delete;
+#endif
+
     /// Destruction, allowed only if empty.
-    ~semantic_type () YY_NOEXCEPT
+    ~value_type () YY_NOEXCEPT
     {
-      YYASSERT (!yytypeid_);
+      YY_ASSERT (!yytypeid_);
     }
 
 # if 201103L <= YY_CPLUSPLUS
@@ -466,8 +483,8 @@ namespace yy {
     T&
     emplace (U&&... u)
     {
-      YYASSERT (!yytypeid_);
-      YYASSERT (sizeof (T) <= size);
+      YY_ASSERT (!yytypeid_);
+      YY_ASSERT (sizeof (T) <= size);
       yytypeid_ = & typeid (T);
       return *new (yyas_<T> ()) T (std::forward <U>(u)...);
     }
@@ -477,8 +494,8 @@ namespace yy {
     T&
     emplace ()
     {
-      YYASSERT (!yytypeid_);
-      YYASSERT (sizeof (T) <= size);
+      YY_ASSERT (!yytypeid_);
+      YY_ASSERT (sizeof (T) <= size);
       yytypeid_ = & typeid (T);
       return *new (yyas_<T> ()) T ();
     }
@@ -488,8 +505,8 @@ namespace yy {
     T&
     emplace (const T& t)
     {
-      YYASSERT (!yytypeid_);
-      YYASSERT (sizeof (T) <= size);
+      YY_ASSERT (!yytypeid_);
+      YY_ASSERT (sizeof (T) <= size);
       yytypeid_ = & typeid (T);
       return *new (yyas_<T> ()) T (t);
     }
@@ -518,9 +535,9 @@ namespace yy {
     T&
     as () YY_NOEXCEPT
     {
-      YYASSERT (yytypeid_);
-      YYASSERT (*yytypeid_ == typeid (T));
-      YYASSERT (sizeof (T) <= size);
+      YY_ASSERT (yytypeid_);
+      YY_ASSERT (*yytypeid_ == typeid (T));
+      YY_ASSERT (sizeof (T) <= size);
       return *yyas_<T> ();
     }
 
@@ -529,9 +546,9 @@ namespace yy {
     const T&
     as () const YY_NOEXCEPT
     {
-      YYASSERT (yytypeid_);
-      YYASSERT (*yytypeid_ == typeid (T));
-      YYASSERT (sizeof (T) <= size);
+      YY_ASSERT (yytypeid_);
+      YY_ASSERT (*yytypeid_ == typeid (T));
+      YY_ASSERT (sizeof (T) <= size);
       return *yyas_<T> ();
     }
 
@@ -547,8 +564,8 @@ namespace yy {
     void
     swap (self_type& that) YY_NOEXCEPT
     {
-      YYASSERT (yytypeid_);
-      YYASSERT (*yytypeid_ == *that.yytypeid_);
+      YY_ASSERT (yytypeid_);
+      YY_ASSERT (*yytypeid_ == *that.yytypeid_);
       std::swap (as<T> (), that.as<T> ());
     }
 
@@ -597,16 +614,19 @@ namespace yy {
     }
 
   private:
-    /// Prohibit blind copies.
+#if YY_CPLUSPLUS < 201103L
+    /// Non copyable.
+    value_type (const self_type&);
+    /// Non copyable.
     self_type& operator= (const self_type&);
-    semantic_type (const self_type&);
+#endif
 
     /// Accessor to raw memory as \a T.
     template <typename T>
     T*
     yyas_ () YY_NOEXCEPT
     {
-      void *yyp = yybuffer_.yyraw;
+      void *yyp = yyraw_;
       return static_cast<T*> (yyp);
      }
 
@@ -615,7 +635,7 @@ namespace yy {
     const T*
     yyas_ () const YY_NOEXCEPT
     {
-      const void *yyp = yybuffer_.yyraw;
+      const void *yyp = yyraw_;
       return static_cast<const T*> (yyp);
      }
 
@@ -890,18 +910,19 @@ namespace yy {
     union
     {
       /// Strongest alignment constraints.
-      long double yyalign_me;
+      long double yyalign_me_;
       /// A buffer large enough to store any of the semantic values.
-      char yyraw[size];
-    } yybuffer_;
+      char yyraw_[size];
+    };
 
     /// Whether the content is built: if defined, the name of the stored type.
     const std::type_info *yytypeid_;
   };
 
-#else
-    typedef YYSTYPE semantic_type;
 #endif
+    /// Backward compatibility (Bison 3.8).
+    typedef value_type semantic_type;
+
     /// Symbol locations.
     typedef location location_type;
 
@@ -923,178 +944,571 @@ namespace yy {
       location_type location;
     };
 
-    /// Tokens.
+    /// Token kinds.
     struct token
     {
-      enum yytokentype
-      {
-        END_OF_FILE = 0,
-        comment = 258,
-        number = 259,
-        negativenumber = 260,
-        realnumber = 261,
-        bstring = 262,
-        xmlbstring = 263,
-        hstring = 264,
-        xmlhstring = 265,
-        cstring = 266,
-        xmlcstring = 267,
-        simplestring = 268,
-        xmltstring = 269,
-        psname = 270,
-        encodingreference = 271,
-        integerUnicodeLabel = 272,
-        tstring = 275,
-        objectreference = 277,
-        objectsetreference = 278,
-        typefieldreference = 279,
-        valuefieldreference = 280,
-        valuesetfieldreference = 281,
-        objectfieldreference = 282,
-        objectsetfieldreference = 283,
-        ABSENT = 284,
-        ABSTRACT_SYNTAX = 285,
-        ALL = 286,
-        ANY = 287,
-        APPLICATION = 288,
-        ASN_NULL = 289,
-        AUTOMATIC = 290,
-        BEGIN = 291,
-        BIT = 292,
-        BMPString = 293,
-        BOOLEAN = 294,
-        BY = 295,
-        CHARACTER = 296,
-        CHOICE = 297,
-        CLASS = 298,
-        COMPONENT = 299,
-        COMPONENTS = 300,
-        CONSTRAINED = 301,
-        CONTAINING = 302,
-        DATE = 303,
-        DATE_TIME = 304,
-        DEFAULT = 305,
-        DEFINITIONS = 306,
-        DURATION = 307,
-        EMBEDDED = 308,
-        ENCODED = 309,
-        ENCODING_CONTROL = 310,
-        END = 311,
-        ENUMERATED = 312,
-        EXCEPT = 313,
-        EXPLICIT = 314,
-        EXPORTS = 315,
-        EXTENSIBILITY = 316,
-        EXTERNAL = 317,
-        FALSE = 318,
-        FROM = 319,
-        GeneralizedTime = 320,
-        GeneralString = 321,
-        GraphicString = 322,
-        IA5String = 323,
-        IDENTIFIER = 324,
-        IMPLICIT = 325,
-        IMPLIED = 326,
-        IMPORTS = 327,
-        INCLUDES = 328,
-        INSTANCE = 329,
-        INSTRUCTIONS = 330,
-        INTEGER = 331,
-        INTERSECTION = 332,
-        ISO646String = 333,
-        MAX = 334,
-        MIN = 335,
-        MINUS_INFINITY = 336,
-        NOT_A_NUMBER = 337,
-        NumericString = 338,
-        OBJECT = 339,
-        ObjectDescriptor = 340,
-        OCTET = 341,
-        OF = 342,
-        OID_IRI = 343,
-        OPTIONAL = 344,
-        PATTERN = 345,
-        PDV = 346,
-        PLUS_INFINITY = 347,
-        PRESENT = 348,
-        PrintableString = 349,
-        PRIVATE = 350,
-        REAL = 351,
-        RELATIVE_OID = 352,
-        RELATIVE_OID_IRI = 353,
-        SEQUENCE = 354,
-        SET = 355,
-        SETTINGS = 356,
-        SIZE = 357,
-        STRING = 358,
-        SYNTAX = 359,
-        T61String = 360,
-        TAGS = 361,
-        TeletexString = 362,
-        TIME = 363,
-        TIME_OF_DAY = 364,
-        TRUE = 365,
-        TYPE_IDENTIFIER = 366,
-        UNION = 367,
-        UNIQUE = 368,
-        UNIVERSAL = 369,
-        UniversalString = 370,
-        UTCTime = 371,
-        UTF8String = 372,
-        VideotexString = 373,
-        VisibleString = 374,
-        WITH = 375,
-        DEFINED_AS = 376,
-        ELIPSIS = 377,
-        RANGE = 378,
-        OPEN_BRACE = 379,
-        CLOSE_BRACE = 380,
-        OPEN_PARENTHESIS = 381,
-        CLOSE_PARENTHESIS = 382,
-        OPEN_SQUARE_BRACKET = 383,
-        CLOSE_SQUARE_BRACKET = 384,
-        LESS_THAN = 385,
-        GREATER_THAN = 386,
-        EXCLAMATION_MARK = 387,
-        QUOTATION_MARK = 388,
-        AMPERSAND = 389,
-        APOSTROPHE = 390,
-        ASTERISK = 391,
-        COMMA = 392,
-        FULL_STOP = 393,
-        HYPHEN_MINUS = 394,
-        SOLIDUS = 395,
-        COLON = 396,
-        SEMICOLON = 397,
-        EQUALS_SIGN = 398,
-        AT = 399,
-        VERTICAL_LINE = 400,
-        ACCENT = 401,
-        PLUS = 402,
-        STAR = 403,
-        GENERIC_IDENTIFIER_UPPERCASE = 404,
-        GENERIC_IDENTIFIER_LOWERCASE = 405,
-        GENERIC_INTEGER = 406,
-        xmlasn1typename = 407
+      enum token_kind_type
+      {
+        YYEMPTY = -2,
+    END_OF_FILE = 0,               // END_OF_FILE
+    YYerror = 256,                 // error
+    YYUNDEF = 257,                 // "invalid token"
+    comment = 258,                 // comment
+    number = 259,                  // number
+    negativenumber = 260,          // negativenumber
+    realnumber = 261,              // realnumber
+    bstring = 262,                 // bstring
+    xmlbstring = 263,              // xmlbstring
+    hstring = 264,                 // hstring
+    xmlhstring = 265,              // xmlhstring
+    cstring = 266,                 // cstring
+    xmlcstring = 267,              // xmlcstring
+    simplestring = 268,            // simplestring
+    xmltstring = 269,              // xmltstring
+    psname = 270,                  // psname
+    encodingreference = 271,       // encodingreference
+    integerUnicodeLabel = 272,     // integerUnicodeLabel
+    tstring = 275,                 // tstring
+    objectreference = 277,         // objectreference
+    objectsetreference = 278,      // objectsetreference
+    typefieldreference = 279,      // typefieldreference
+    valuefieldreference = 280,     // valuefieldreference
+    valuesetfieldreference = 281,  // valuesetfieldreference
+    objectfieldreference = 282,    // objectfieldreference
+    objectsetfieldreference = 283, // objectsetfieldreference
+    ABSENT = 284,                  // ABSENT
+    ABSTRACT_SYNTAX = 285,         // ABSTRACT_SYNTAX
+    ALL = 286,                     // ALL
+    ANY = 287,                     // ANY
+    APPLICATION = 288,             // APPLICATION
+    ASN_NULL = 289,                // ASN_NULL
+    AUTOMATIC = 290,               // AUTOMATIC
+    BEGIN = 291,                   // BEGIN
+    BIT = 292,                     // BIT
+    BMPString = 293,               // BMPString
+    BOOLEAN = 294,                 // BOOLEAN
+    BY = 295,                      // BY
+    CHARACTER = 296,               // CHARACTER
+    CHOICE = 297,                  // CHOICE
+    CLASS = 298,                   // CLASS
+    COMPONENT = 299,               // COMPONENT
+    COMPONENTS = 300,              // COMPONENTS
+    CONSTRAINED = 301,             // CONSTRAINED
+    CONTAINING = 302,              // CONTAINING
+    DATE = 303,                    // DATE
+    DATE_TIME = 304,               // DATE_TIME
+    DEFAULT = 305,                 // DEFAULT
+    DEFINITIONS = 306,             // DEFINITIONS
+    DURATION = 307,                // DURATION
+    EMBEDDED = 308,                // EMBEDDED
+    ENCODED = 309,                 // ENCODED
+    ENCODING_CONTROL = 310,        // ENCODING_CONTROL
+    END = 311,                     // END
+    ENUMERATED = 312,              // ENUMERATED
+    EXCEPT = 313,                  // EXCEPT
+    EXPLICIT = 314,                // EXPLICIT
+    EXPORTS = 315,                 // EXPORTS
+    EXTENSIBILITY = 316,           // EXTENSIBILITY
+    EXTERNAL = 317,                // EXTERNAL
+    FALSE = 318,                   // FALSE
+    FROM = 319,                    // FROM
+    GeneralizedTime = 320,         // GeneralizedTime
+    GeneralString = 321,           // GeneralString
+    GraphicString = 322,           // GraphicString
+    IA5String = 323,               // IA5String
+    IDENTIFIER = 324,              // IDENTIFIER
+    IMPLICIT = 325,                // IMPLICIT
+    IMPLIED = 326,                 // IMPLIED
+    IMPORTS = 327,                 // IMPORTS
+    INCLUDES = 328,                // "INCLUDES"
+    INSTANCE = 329,                // INSTANCE
+    INSTRUCTIONS = 330,            // INSTRUCTIONS
+    INTEGER = 331,                 // INTEGER
+    INTERSECTION = 332,            // INTERSECTION
+    ISO646String = 333,            // ISO646String
+    MAX = 334,                     // MAX
+    MIN = 335,                     // MIN
+    MINUS_INFINITY = 336,          // MINUS_INFINITY
+    NOT_A_NUMBER = 337,            // NOT_A_NUMBER
+    NumericString = 338,           // NumericString
+    OBJECT = 339,                  // OBJECT
+    ObjectDescriptor = 340,        // ObjectDescriptor
+    OCTET = 341,                   // OCTET
+    OF = 342,                      // OF
+    OID_IRI = 343,                 // OID_IRI
+    OPTIONAL = 344,                // OPTIONAL
+    PATTERN = 345,                 // PATTERN
+    PDV = 346,                     // PDV
+    PLUS_INFINITY = 347,           // PLUS_INFINITY
+    PRESENT = 348,                 // PRESENT
+    PrintableString = 349,         // PrintableString
+    PRIVATE = 350,                 // PRIVATE
+    REAL = 351,                    // REAL
+    RELATIVE_OID = 352,            // RELATIVE_OID
+    RELATIVE_OID_IRI = 353,        // RELATIVE_OID_IRI
+    SEQUENCE = 354,                // SEQUENCE
+    SET = 355,                     // SET
+    SETTINGS = 356,                // SETTINGS
+    SIZE = 357,                    // SIZE
+    STRING = 358,                  // STRING
+    SYNTAX = 359,                  // SYNTAX
+    T61String = 360,               // T61String
+    TAGS = 361,                    // TAGS
+    TeletexString = 362,           // TeletexString
+    TIME = 363,                    // TIME
+    TIME_OF_DAY = 364,             // TIME_OF_DAY
+    TRUE = 365,                    // TRUE
+    TYPE_IDENTIFIER = 366,         // TYPE_IDENTIFIER
+    UNION = 367,                   // UNION
+    UNIQUE = 368,                  // UNIQUE
+    UNIVERSAL = 369,               // UNIVERSAL
+    UniversalString = 370,         // UniversalString
+    UTCTime = 371,                 // UTCTime
+    UTF8String = 372,              // UTF8String
+    VideotexString = 373,          // VideotexString
+    VisibleString = 374,           // VisibleString
+    WITH = 375,                    // WITH
+    DEFINED_AS = 376,              // "::="
+    ELIPSIS = 377,                 // "..."
+    RANGE = 378,                   // ".."
+    OPEN_BRACE = 379,              // "{"
+    CLOSE_BRACE = 380,             // "}"
+    OPEN_PARENTHESIS = 381,        // "("
+    CLOSE_PARENTHESIS = 382,       // ")"
+    OPEN_SQUARE_BRACKET = 383,     // "["
+    CLOSE_SQUARE_BRACKET = 384,    // "]"
+    LESS_THAN = 385,               // "<"
+    GREATER_THAN = 386,            // ">"
+    EXCLAMATION_MARK = 387,        // "!"
+    QUOTATION_MARK = 388,          // "\""
+    AMPERSAND = 389,               // "&"
+    APOSTROPHE = 390,              // "\'"
+    ASTERISK = 391,                // "*"
+    COMMA = 392,                   // ","
+    FULL_STOP = 393,               // "."
+    HYPHEN_MINUS = 394,            // "-"
+    SOLIDUS = 395,                 // "/"
+    COLON = 396,                   // ":"
+    SEMICOLON = 397,               // ";"
+    EQUALS_SIGN = 398,             // "="
+    AT = 399,                      // "@"
+    VERTICAL_LINE = 400,           // "|"
+    ACCENT = 401,                  // "^"
+    PLUS = 402,                    // PLUS
+    STAR = 403,                    // STAR
+    GENERIC_IDENTIFIER_UPPERCASE = 404, // GENERIC_IDENTIFIER_UPPERCASE
+    GENERIC_IDENTIFIER_LOWERCASE = 405, // GENERIC_IDENTIFIER_LOWERCASE
+    GENERIC_INTEGER = 406,         // GENERIC_INTEGER
+    xmlasn1typename = 407          // xmlasn1typename
       };
+      /// Backward compatibility alias (Bison 3.6).
+      typedef token_kind_type yytokentype;
     };
 
-    /// (External) token type, as returned by yylex.
-    typedef token::yytokentype token_type;
+    /// Token kind, as returned by yylex.
+    typedef token::token_kind_type token_kind_type;
 
-    /// Symbol type: an internal symbol number.
-    typedef int symbol_number_type;
+    /// Backward compatibility alias (Bison 3.6).
+    typedef token_kind_type token_type;
 
-    /// The symbol type number to denote an empty symbol.
-    enum { empty_symbol = -2 };
+    /// Symbol kinds.
+    struct symbol_kind
+    {
+      enum symbol_kind_type
+      {
+        YYNTOKENS = 153, ///< Number of tokens.
+        S_YYEMPTY = -2,
+        S_YYEOF = 0,                             // END_OF_FILE
+        S_YYerror = 1,                           // error
+        S_YYUNDEF = 2,                           // "invalid token"
+        S_comment = 3,                           // comment
+        S_number = 4,                            // number
+        S_negativenumber = 5,                    // negativenumber
+        S_realnumber = 6,                        // realnumber
+        S_bstring = 7,                           // bstring
+        S_xmlbstring = 8,                        // xmlbstring
+        S_hstring = 9,                           // hstring
+        S_xmlhstring = 10,                       // xmlhstring
+        S_cstring = 11,                          // cstring
+        S_xmlcstring = 12,                       // xmlcstring
+        S_simplestring = 13,                     // simplestring
+        S_xmltstring = 14,                       // xmltstring
+        S_psname = 15,                           // psname
+        S_encodingreference = 16,                // encodingreference
+        S_integerUnicodeLabel = 17,              // integerUnicodeLabel
+        S_18_non_integerUnicodeLabel = 18,       // non-integerUnicodeLabel
+        S_19_extended_true = 19,                 // extended-true
+        S_tstring = 20,                          // tstring
+        S_21_extended_false = 21,                // extended-false
+        S_objectreference = 22,                  // objectreference
+        S_objectsetreference = 23,               // objectsetreference
+        S_typefieldreference = 24,               // typefieldreference
+        S_valuefieldreference = 25,              // valuefieldreference
+        S_valuesetfieldreference = 26,           // valuesetfieldreference
+        S_objectfieldreference = 27,             // objectfieldreference
+        S_objectsetfieldreference = 28,          // objectsetfieldreference
+        S_ABSENT = 29,                           // ABSENT
+        S_ABSTRACT_SYNTAX = 30,                  // ABSTRACT_SYNTAX
+        S_ALL = 31,                              // ALL
+        S_ANY = 32,                              // ANY
+        S_APPLICATION = 33,                      // APPLICATION
+        S_ASN_NULL = 34,                         // ASN_NULL
+        S_AUTOMATIC = 35,                        // AUTOMATIC
+        S_BEGIN = 36,                            // BEGIN
+        S_BIT = 37,                              // BIT
+        S_BMPString = 38,                        // BMPString
+        S_BOOLEAN = 39,                          // BOOLEAN
+        S_BY = 40,                               // BY
+        S_CHARACTER = 41,                        // CHARACTER
+        S_CHOICE = 42,                           // CHOICE
+        S_CLASS = 43,                            // CLASS
+        S_COMPONENT = 44,                        // COMPONENT
+        S_COMPONENTS = 45,                       // COMPONENTS
+        S_CONSTRAINED = 46,                      // CONSTRAINED
+        S_CONTAINING = 47,                       // CONTAINING
+        S_DATE = 48,                             // DATE
+        S_DATE_TIME = 49,                        // DATE_TIME
+        S_DEFAULT = 50,                          // DEFAULT
+        S_DEFINITIONS = 51,                      // DEFINITIONS
+        S_DURATION = 52,                         // DURATION
+        S_EMBEDDED = 53,                         // EMBEDDED
+        S_ENCODED = 54,                          // ENCODED
+        S_ENCODING_CONTROL = 55,                 // ENCODING_CONTROL
+        S_END = 56,                              // END
+        S_ENUMERATED = 57,                       // ENUMERATED
+        S_EXCEPT = 58,                           // EXCEPT
+        S_EXPLICIT = 59,                         // EXPLICIT
+        S_EXPORTS = 60,                          // EXPORTS
+        S_EXTENSIBILITY = 61,                    // EXTENSIBILITY
+        S_EXTERNAL = 62,                         // EXTERNAL
+        S_FALSE = 63,                            // FALSE
+        S_FROM = 64,                             // FROM
+        S_GeneralizedTime = 65,                  // GeneralizedTime
+        S_GeneralString = 66,                    // GeneralString
+        S_GraphicString = 67,                    // GraphicString
+        S_IA5String = 68,                        // IA5String
+        S_IDENTIFIER = 69,                       // IDENTIFIER
+        S_IMPLICIT = 70,                         // IMPLICIT
+        S_IMPLIED = 71,                          // IMPLIED
+        S_IMPORTS = 72,                          // IMPORTS
+        S_INCLUDES = 73,                         // "INCLUDES"
+        S_INSTANCE = 74,                         // INSTANCE
+        S_INSTRUCTIONS = 75,                     // INSTRUCTIONS
+        S_INTEGER = 76,                          // INTEGER
+        S_INTERSECTION = 77,                     // INTERSECTION
+        S_ISO646String = 78,                     // ISO646String
+        S_MAX = 79,                              // MAX
+        S_MIN = 80,                              // MIN
+        S_MINUS_INFINITY = 81,                   // MINUS_INFINITY
+        S_NOT_A_NUMBER = 82,                     // NOT_A_NUMBER
+        S_NumericString = 83,                    // NumericString
+        S_OBJECT = 84,                           // OBJECT
+        S_ObjectDescriptor = 85,                 // ObjectDescriptor
+        S_OCTET = 86,                            // OCTET
+        S_OF = 87,                               // OF
+        S_OID_IRI = 88,                          // OID_IRI
+        S_OPTIONAL = 89,                         // OPTIONAL
+        S_PATTERN = 90,                          // PATTERN
+        S_PDV = 91,                              // PDV
+        S_PLUS_INFINITY = 92,                    // PLUS_INFINITY
+        S_PRESENT = 93,                          // PRESENT
+        S_PrintableString = 94,                  // PrintableString
+        S_PRIVATE = 95,                          // PRIVATE
+        S_REAL = 96,                             // REAL
+        S_RELATIVE_OID = 97,                     // RELATIVE_OID
+        S_RELATIVE_OID_IRI = 98,                 // RELATIVE_OID_IRI
+        S_SEQUENCE = 99,                         // SEQUENCE
+        S_SET = 100,                             // SET
+        S_SETTINGS = 101,                        // SETTINGS
+        S_SIZE = 102,                            // SIZE
+        S_STRING = 103,                          // STRING
+        S_SYNTAX = 104,                          // SYNTAX
+        S_T61String = 105,                       // T61String
+        S_TAGS = 106,                            // TAGS
+        S_TeletexString = 107,                   // TeletexString
+        S_TIME = 108,                            // TIME
+        S_TIME_OF_DAY = 109,                     // TIME_OF_DAY
+        S_TRUE = 110,                            // TRUE
+        S_TYPE_IDENTIFIER = 111,                 // TYPE_IDENTIFIER
+        S_UNION = 112,                           // UNION
+        S_UNIQUE = 113,                          // UNIQUE
+        S_UNIVERSAL = 114,                       // UNIVERSAL
+        S_UniversalString = 115,                 // UniversalString
+        S_UTCTime = 116,                         // UTCTime
+        S_UTF8String = 117,                      // UTF8String
+        S_VideotexString = 118,                  // VideotexString
+        S_VisibleString = 119,                   // VisibleString
+        S_WITH = 120,                            // WITH
+        S_DEFINED_AS = 121,                      // "::="
+        S_ELIPSIS = 122,                         // "..."
+        S_RANGE = 123,                           // ".."
+        S_OPEN_BRACE = 124,                      // "{"
+        S_CLOSE_BRACE = 125,                     // "}"
+        S_OPEN_PARENTHESIS = 126,                // "("
+        S_CLOSE_PARENTHESIS = 127,               // ")"
+        S_OPEN_SQUARE_BRACKET = 128,             // "["
+        S_CLOSE_SQUARE_BRACKET = 129,            // "]"
+        S_LESS_THAN = 130,                       // "<"
+        S_GREATER_THAN = 131,                    // ">"
+        S_EXCLAMATION_MARK = 132,                // "!"
+        S_QUOTATION_MARK = 133,                  // "\""
+        S_AMPERSAND = 134,                       // "&"
+        S_APOSTROPHE = 135,                      // "\'"
+        S_ASTERISK = 136,                        // "*"
+        S_COMMA = 137,                           // ","
+        S_FULL_STOP = 138,                       // "."
+        S_HYPHEN_MINUS = 139,                    // "-"
+        S_SOLIDUS = 140,                         // "/"
+        S_COLON = 141,                           // ":"
+        S_SEMICOLON = 142,                       // ";"
+        S_EQUALS_SIGN = 143,                     // "="
+        S_AT = 144,                              // "@"
+        S_VERTICAL_LINE = 145,                   // "|"
+        S_ACCENT = 146,                          // "^"
+        S_PLUS = 147,                            // PLUS
+        S_STAR = 148,                            // STAR
+        S_GENERIC_IDENTIFIER_UPPERCASE = 149,    // GENERIC_IDENTIFIER_UPPERCASE
+        S_GENERIC_IDENTIFIER_LOWERCASE = 150,    // GENERIC_IDENTIFIER_LOWERCASE
+        S_GENERIC_INTEGER = 151,                 // GENERIC_INTEGER
+        S_xmlasn1typename = 152,                 // xmlasn1typename
+        S_YYACCEPT = 153,                        // $accept
+        S_ModuleDefinitionList = 154,            // ModuleDefinitionList
+        S_ModuleDefinition = 155,                // ModuleDefinition
+        S_SyntaxList = 156,                      // SyntaxList
+        S_DefinedObjectClass = 157,              // DefinedObjectClass
+        S_ExternalObjectClassReference = 158,    // ExternalObjectClassReference
+        S_UsefulObjectClassReference = 159,      // UsefulObjectClassReference
+        S_ObjectClassAssignment = 160,           // ObjectClassAssignment
+        S_ObjectClass = 161,                     // ObjectClass
+        S_ObjectClassDefn = 162,                 // ObjectClassDefn
+        S_FieldSpecList = 163,                   // FieldSpecList
+        S_FieldSpec = 164,                       // FieldSpec
+        S_FieldName = 165,                       // FieldName
+        S_FieldNameList = 166,                   // FieldNameList
+        S_TypeFieldSpec = 167,                   // TypeFieldSpec
+        S_OneOrManyTypeFieldReference = 168,     // OneOrManyTypeFieldReference
+        S_TypeOptionalitySpec = 169,             // TypeOptionalitySpec
+        S_OptionalUnique = 170,                  // OptionalUnique
+        S_FixedTypeValueFieldSpec = 171,         // FixedTypeValueFieldSpec
+        S_ValueOptionalitySpec = 172,            // ValueOptionalitySpec
+        S_VariableTypeValueFieldSpec = 173,      // VariableTypeValueFieldSpec
+        S_FixedTypeValueSetFieldSpec = 174,      // FixedTypeValueSetFieldSpec
+        S_ValueSetDefaultSpec = 175,             // ValueSetDefaultSpec
+        S_ObjectFieldSpec = 176,                 // ObjectFieldSpec
+        S_ObjectOptionalitySpec = 177,           // ObjectOptionalitySpec
+        S_ObjectSetFieldSpec = 178,              // ObjectSetFieldSpec
+        S_ObjectSetOptionalitySpec = 179,        // ObjectSetOptionalitySpec
+        S_WithSyntaxSpec = 180,                  // WithSyntaxSpec
+        S_TokenOrGroupSpecList = 181,            // TokenOrGroupSpecList
+        S_TokenOrGroupSpec = 182,                // TokenOrGroupSpec
+        S_OptionalGroup = 183,                   // OptionalGroup
+        S_RequiredToken = 184,                   // RequiredToken
+        S_LiteralList = 185,                     // LiteralList
+        S_Literal = 186,                         // Literal
+        S_DefinedObject = 187,                   // DefinedObject
+        S_ExternalObjectReference = 188,         // ExternalObjectReference
+        S_Object = 189,                          // Object
+        S_ObjectDefn = 190,                      // ObjectDefn
+        S_DefaultSyntax = 191,                   // DefaultSyntax
+        S_FieldSetting = 192,                    // FieldSetting
+        S_DefinedSyntax = 193,                   // DefinedSyntax
+        S_DefinedSyntaxList = 194,               // DefinedSyntaxList
+        S_DefinedSyntaxToken = 195,              // DefinedSyntaxToken
+        S_Setting = 196,                         // Setting
+        S_DefinedObjectSet = 197,                // DefinedObjectSet
+        S_ExternalObjectSetReference = 198,      // ExternalObjectSetReference
+        S_ObjectSetAssignment = 199,             // ObjectSetAssignment
+        S_ObjectSet = 200,                       // ObjectSet
+        S_ObjectSetSpec = 201,                   // ObjectSetSpec
+        S_ObjectClassFieldType = 202,            // ObjectClassFieldType
+        S_ParameterizedAssignment = 203,         // ParameterizedAssignment
+        S_ParameterizedTypeAssignment = 204,     // ParameterizedTypeAssignment
+        S_ParameterizedValueAssignment = 205,    // ParameterizedValueAssignment
+        S_ParameterizedValueSetTypeAssignment = 206, // ParameterizedValueSetTypeAssignment
+        S_ParameterizedObjectClassAssignment = 207, // ParameterizedObjectClassAssignment
+        S_ParameterList = 208,                   // ParameterList
+        S_ParameterSeries = 209,                 // ParameterSeries
+        S_Parameter = 210,                       // Parameter
+        S_ParamGovernor = 211,                   // ParamGovernor
+        S_Governor = 212,                        // Governor
+        S_ReferencedObjects = 213,               // ReferencedObjects
+        S_TypeFromObject = 214,                  // TypeFromObject
+        S_InstanceOfType = 215,                  // InstanceOfType
+        S_SimpleDefinedType = 216,               // SimpleDefinedType
+        S_SimpleDefinedValue = 217,              // SimpleDefinedValue
+        S_GeneralConstraint = 218,               // GeneralConstraint
+        S_UserDefinedConstraint = 219,           // UserDefinedConstraint
+        S_UserDefinedConstraintParameter = 220,  // UserDefinedConstraintParameter
+        S_TableConstraint = 221,                 // TableConstraint
+        S_AtNotationList = 222,                  // AtNotationList
+        S_AtNotation = 223,                      // AtNotation
+        S_Level = 224,                           // Level
+        S_ComponentIdList = 225,                 // ComponentIdList
+        S_ContentsConstraint = 226,              // ContentsConstraint
+        S_EncodingControlSections = 227,         // EncodingControlSections
+        S_ModuleIdentifier = 228,                // ModuleIdentifier
+        S_DefinitiveIdentification = 229,        // DefinitiveIdentification
+        S_DefinitiveOID = 230,                   // DefinitiveOID
+        S_DefinitiveOIDandIRI = 231,             // DefinitiveOIDandIRI
+        S_DefinitiveObjIdComponentList = 232,    // DefinitiveObjIdComponentList
+        S_DefinitiveObjIdComponent = 233,        // DefinitiveObjIdComponent
+        S_DefinitiveNumberForm = 234,            // DefinitiveNumberForm
+        S_DefinitiveNameAndNumberForm = 235,     // DefinitiveNameAndNumberForm
+        S_EncodingReferenceDefault = 236,        // EncodingReferenceDefault
+        S_TagDefault = 237,                      // TagDefault
+        S_ExtensionDefault = 238,                // ExtensionDefault
+        S_ModuleBody = 239,                      // ModuleBody
+        S_Exports = 240,                         // Exports
+        S_SymbolsExported = 241,                 // SymbolsExported
+        S_Imports = 242,                         // Imports
+        S_SymbolsImported = 243,                 // SymbolsImported
+        S_SymbolsFromModuleList = 244,           // SymbolsFromModuleList
+        S_SymbolsFromModule = 245,               // SymbolsFromModule
+        S_GlobalModuleReference = 246,           // GlobalModuleReference
+        S_SymbolList = 247,                      // SymbolList
+        S_Symbol = 248,                          // Symbol
+        S_Reference = 249,                       // Reference
+        S_AssignmentList = 250,                  // AssignmentList
+        S_Assignment = 251,                      // Assignment
+        S_DefinedType = 252,                     // DefinedType
+        S_DefinedValue = 253,                    // DefinedValue
+        S_ParameterizedType = 254,               // ParameterizedType
+        S_ParameterizedValue = 255,              // ParameterizedValue
+        S_ActualParameterList = 256,             // ActualParameterList
+        S_ActualParameter = 257,                 // ActualParameter
+        S_ExternalTypeReference = 258,           // ExternalTypeReference
+        S_ExternalValueReference = 259,          // ExternalValueReference
+        S_TypeAssignment = 260,                  // TypeAssignment
+        S_ValueAssignment = 261,                 // ValueAssignment
+        S_ValueSetTypeAssignment = 262,          // ValueSetTypeAssignment
+        S_Type = 263,                            // Type
+        S_BuiltinType = 264,                     // BuiltinType
+        S_NamedType = 265,                       // NamedType
+        S_ValueWithoutTypeIdentifier = 266,      // ValueWithoutTypeIdentifier
+        S_Value = 267,                           // Value
+        S_ValueCommaListChoice = 268,            // ValueCommaListChoice
+        S_ValueChoice = 269,                     // ValueChoice
+        S_ValueSet = 270,                        // ValueSet
+        S_SequenceOfValues = 271,                // SequenceOfValues
+        S_BooleanType = 272,                     // BooleanType
+        S_BooleanValue = 273,                    // BooleanValue
+        S_IntegerType = 274,                     // IntegerType
+        S_NamedNumberList = 275,                 // NamedNumberList
+        S_NamedNumber = 276,                     // NamedNumber
+        S_SignedNumber = 277,                    // SignedNumber
+        S_EnumeratedType = 278,                  // EnumeratedType
+        S_Enumerations = 279,                    // Enumerations
+        S_Enumeration = 280,                     // Enumeration
+        S_EnumerationItem = 281,                 // EnumerationItem
+        S_RealType = 282,                        // RealType
+        S_BitStringType = 283,                   // BitStringType
+        S_NamedBitList = 284,                    // NamedBitList
+        S_NamedBit = 285,                        // NamedBit
+        S_OctetStringType = 286,                 // OctetStringType
+        S_NullType = 287,                        // NullType
+        S_SequenceType = 288,                    // SequenceType
+        S_ComponentTypeLists = 289,              // ComponentTypeLists
+        S_ComponentTypeList = 290,               // ComponentTypeList
+        S_ComponentType = 291,                   // ComponentType
+        S_SequenceOfType = 292,                  // SequenceOfType
+        S_SetType = 293,                         // SetType
+        S_SetOfType = 294,                       // SetOfType
+        S_ChoiceType = 295,                      // ChoiceType
+        S_AlternativeTypeLists = 296,            // AlternativeTypeLists
+        S_RootAlternativeTypeList = 297,         // RootAlternativeTypeList
+        S_AlternativeTypeList = 298,             // AlternativeTypeList
+        S_SelectionType = 299,                   // SelectionType
+        S_PrefixedType = 300,                    // PrefixedType
+        S_TaggedType = 301,                      // TaggedType
+        S_Tag = 302,                             // Tag
+        S_EncodingReference = 303,               // EncodingReference
+        S_ClassNumber = 304,                     // ClassNumber
+        S_Class = 305,                           // Class
+        S_ObjectIdentifierType = 306,            // ObjectIdentifierType
+        S_ObjectIdentifierValue = 307,           // ObjectIdentifierValue
+        S_ObjIdComponentsList = 308,             // ObjIdComponentsList
+        S_ObjIdComponents = 309,                 // ObjIdComponents
+        S_NameForm = 310,                        // NameForm
+        S_NumberForm = 311,                      // NumberForm
+        S_NameAndNumberForm = 312,               // NameAndNumberForm
+        S_RelativeOIDType = 313,                 // RelativeOIDType
+        S_IRIType = 314,                         // IRIType
+        S_IRIValue = 315,                        // IRIValue
+        S_FirstArcIdentifier = 316,              // FirstArcIdentifier
+        S_SubsequentArcIdentifier = 317,         // SubsequentArcIdentifier
+        S_ArcIdentifier = 318,                   // ArcIdentifier
+        S_RelativeIRIType = 319,                 // RelativeIRIType
+        S_EmbeddedPDVType = 320,                 // EmbeddedPDVType
+        S_ExternalType = 321,                    // ExternalType
+        S_TimeType = 322,                        // TimeType
+        S_TimeValue = 323,                       // TimeValue
+        S_DateType = 324,                        // DateType
+        S_TimeOfDayType = 325,                   // TimeOfDayType
+        S_DateTimeType = 326,                    // DateTimeType
+        S_DurationType = 327,                    // DurationType
+        S_CharacterStringType = 328,             // CharacterStringType
+        S_RestrictedCharacterStringType = 329,   // RestrictedCharacterStringType
+        S_UnrestrictedCharacterStringType = 330, // UnrestrictedCharacterStringType
+        S_ConstrainedType = 331,                 // ConstrainedType
+        S_TypeWithConstraint = 332,              // TypeWithConstraint
+        S_Constraint = 333,                      // Constraint
+        S_ConstraintSpec = 334,                  // ConstraintSpec
+        S_SubtypeConstraint = 335,               // SubtypeConstraint
+        S_ElementSetSpecs = 336,                 // ElementSetSpecs
+        S_ElementSetSpec = 337,                  // ElementSetSpec
+        S_Unions = 338,                          // Unions
+        S_UElems = 339,                          // UElems
+        S_Intersections = 340,                   // Intersections
+        S_IElems = 341,                          // IElems
+        S_IntersectionElements = 342,            // IntersectionElements
+        S_Elems = 343,                           // Elems
+        S_Exclusions = 344,                      // Exclusions
+        S_UnionMark = 345,                       // UnionMark
+        S_IntersectionMark = 346,                // IntersectionMark
+        S_Elements = 347,                        // Elements
+        S_SubtypeElements = 348,                 // SubtypeElements
+        S_SingleValue = 349,                     // SingleValue
+        S_ContainedSubtype = 350,                // ContainedSubtype
+        S_Includes = 351,                        // Includes
+        S_ValueRange = 352,                      // ValueRange
+        S_LowerEndpoint = 353,                   // LowerEndpoint
+        S_UpperEndpoint = 354,                   // UpperEndpoint
+        S_LowerEndValue = 355,                   // LowerEndValue
+        S_UpperEndValue = 356,                   // UpperEndValue
+        S_SizeConstraint = 357,                  // SizeConstraint
+        S_TypeConstraint = 358,                  // TypeConstraint
+        S_PermittedAlphabet = 359,               // PermittedAlphabet
+        S_InnerTypeConstraints = 360,            // InnerTypeConstraints
+        S_SingleTypeConstraint = 361,            // SingleTypeConstraint
+        S_MultipleTypeConstraints = 362,         // MultipleTypeConstraints
+        S_TypeConstraints = 363,                 // TypeConstraints
+        S_NamedConstraint = 364,                 // NamedConstraint
+        S_ComponentConstraint = 365,             // ComponentConstraint
+        S_ValueConstraint = 366,                 // ValueConstraint
+        S_PresenceConstraint = 367,              // PresenceConstraint
+        S_PatternConstraint = 368,               // PatternConstraint
+        S_PropertySettings = 369,                // PropertySettings
+        S_ExceptionSpec = 370,                   // ExceptionSpec
+        S_ExceptionIdentification = 371,         // ExceptionIdentification
+        S_typereference = 372,                   // typereference
+        S_identifier = 373,                      // identifier
+        S_valuereference = 374,                  // valuereference
+        S_modulereference = 375,                 // modulereference
+        S_objectclassreference = 376,            // objectclassreference
+        S_word = 377                             // word
+      };
+    };
+
+    /// (Internal) symbol kind.
+    typedef symbol_kind::symbol_kind_type symbol_kind_type;
 
-    /// Internal symbol number for tokens (subsumed by symbol_number_type).
-    typedef unsigned char token_number_type;
+    /// The number of tokens.
+    static const symbol_kind_type YYNTOKENS = symbol_kind::YYNTOKENS;
 
     /// A complete symbol.
     ///
-    /// Expects its Base type to provide access to the symbol type
-    /// via type_get ().
+    /// Expects its Base type to provide access to the symbol kind
+    /// via kind ().
     ///
     /// Provide access to semantic value and location.
     template <typename Base>
@@ -1104,20 +1518,356 @@ namespace yy {
       typedef Base super_type;
 
       /// Default constructor.
-      basic_symbol ()
+      basic_symbol () YY_NOEXCEPT
         : value ()
         , location ()
       {}
 
 #if 201103L <= YY_CPLUSPLUS
       /// Move constructor.
-      basic_symbol (basic_symbol&& that);
+      basic_symbol (basic_symbol&& that)
+        : Base (std::move (that))
+        , value ()
+        , location (std::move (that.location))
+      {
+        switch (this->kind ())
+    {
+      case symbol_kind::S_ObjectClassAssignment: // ObjectClassAssignment
+      case symbol_kind::S_ObjectSetAssignment: // ObjectSetAssignment
+      case symbol_kind::S_ParameterizedAssignment: // ParameterizedAssignment
+      case symbol_kind::S_ParameterizedTypeAssignment: // ParameterizedTypeAssignment
+      case symbol_kind::S_ParameterizedValueAssignment: // ParameterizedValueAssignment
+      case symbol_kind::S_ParameterizedValueSetTypeAssignment: // ParameterizedValueSetTypeAssignment
+      case symbol_kind::S_ParameterizedObjectClassAssignment: // ParameterizedObjectClassAssignment
+      case symbol_kind::S_Assignment: // Assignment
+      case symbol_kind::S_TypeAssignment: // TypeAssignment
+      case symbol_kind::S_ValueAssignment: // ValueAssignment
+      case symbol_kind::S_ValueSetTypeAssignment: // ValueSetTypeAssignment
+        value.move< Assignment > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_BitStringType: // BitStringType
+        value.move< BitStringType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_BooleanType: // BooleanType
+        value.move< BooleanType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_BooleanValue: // BooleanValue
+        value.move< BooleanValue > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_BuiltinType: // BuiltinType
+        value.move< BuiltinType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_CharacterStringType: // CharacterStringType
+      case symbol_kind::S_RestrictedCharacterStringType: // RestrictedCharacterStringType
+      case symbol_kind::S_UnrestrictedCharacterStringType: // UnrestrictedCharacterStringType
+        value.move< CharacterStringType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ChoiceType: // ChoiceType
+        value.move< ChoiceType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_Class: // Class
+        value.move< Class > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ComponentTypeLists: // ComponentTypeLists
+        value.move< Collection > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ComponentType: // ComponentType
+        value.move< ComponentType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ComponentTypeList: // ComponentTypeList
+        value.move< ComponentTypeList > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_DateTimeType: // DateTimeType
+        value.move< DateTimeType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_DateType: // DateType
+        value.move< DateType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_DefinedType: // DefinedType
+      case symbol_kind::S_ParameterizedType: // ParameterizedType
+      case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
+        value.move< DefinedType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_DefinedValue: // DefinedValue
+        value.move< DefinedValue > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_DurationType: // DurationType
+        value.move< DurationType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_EmbeddedPDVType: // EmbeddedPDVType
+        value.move< EmbeddedPDVType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_EnumeratedType: // EnumeratedType
+      case symbol_kind::S_Enumerations: // Enumerations
+      case symbol_kind::S_Enumeration: // Enumeration
+        value.move< EnumeratedType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_EnumerationItem: // EnumerationItem
+        value.move< EnumerationValue > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ExternalType: // ExternalType
+        value.move< ExternalType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_IRIType: // IRIType
+        value.move< IRIType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_SymbolsFromModule: // SymbolsFromModule
+        value.move< Import > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_InstanceOfType: // InstanceOfType
+        value.move< InstanceOfType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_IntegerType: // IntegerType
+        value.move< IntegerType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ModuleBody: // ModuleBody
+        value.move< Module > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_NamedNumber: // NamedNumber
+        value.move< NamedNumber > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_NamedType: // NamedType
+        value.move< NamedType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_NullType: // NullType
+        value.move< NullType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ObjectClass: // ObjectClass
+      case symbol_kind::S_ObjectClassDefn: // ObjectClassDefn
+        value.move< ObjectClassAssignment > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ObjectClassFieldType: // ObjectClassFieldType
+        value.move< ObjectClassFieldType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ObjIdComponents: // ObjIdComponents
+      case symbol_kind::S_NameForm: // NameForm
+      case symbol_kind::S_NumberForm: // NumberForm
+      case symbol_kind::S_NameAndNumberForm: // NameAndNumberForm
+        value.move< ObjectIdComponentValue > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ObjectIdentifierType: // ObjectIdentifierType
+        value.move< ObjectIdentifierType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_OctetStringType: // OctetStringType
+        value.move< OctetStringType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_Parameter: // Parameter
+        value.move< Parameter > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_PrefixedType: // PrefixedType
+        value.move< PrefixedType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_RealType: // RealType
+        value.move< RealType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_RelativeIRIType: // RelativeIRIType
+        value.move< RelativeIRIType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_RelativeOIDType: // RelativeOIDType
+        value.move< RelativeOIDType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_SequenceOfType: // SequenceOfType
+        value.move< SequenceOfType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_SequenceType: // SequenceType
+        value.move< SequenceType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_SetOfType: // SetOfType
+        value.move< SetOfType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_SetType: // SetType
+        value.move< SetType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_Tag: // Tag
+        value.move< Tag > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_TaggedType: // TaggedType
+        value.move< TaggedType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_TagDefault: // TagDefault
+        value.move< TaggingMode > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_TimeOfDayType: // TimeOfDayType
+        value.move< TimeOfDayType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_TimeType: // TimeType
+        value.move< TimeType > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_TimeValue: // TimeValue
+        value.move< TimeValue > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ParamGovernor: // ParamGovernor
+      case symbol_kind::S_Governor: // Governor
+      case symbol_kind::S_ActualParameter: // ActualParameter
+      case symbol_kind::S_Type: // Type
+      case symbol_kind::S_ConstrainedType: // ConstrainedType
+      case symbol_kind::S_TypeWithConstraint: // TypeWithConstraint
+        value.move< Type > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ValueWithoutTypeIdentifier: // ValueWithoutTypeIdentifier
+      case symbol_kind::S_Value: // Value
+      case symbol_kind::S_SingleValue: // SingleValue
+        value.move< Value > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_realnumber: // realnumber
+        value.move< double > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ClassNumber: // ClassNumber
+        value.move< int > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_number: // number
+      case symbol_kind::S_negativenumber: // negativenumber
+      case symbol_kind::S_SignedNumber: // SignedNumber
+        value.move< int64_t > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_bstring: // bstring
+      case symbol_kind::S_xmlbstring: // xmlbstring
+      case symbol_kind::S_hstring: // hstring
+      case symbol_kind::S_xmlhstring: // xmlhstring
+      case symbol_kind::S_cstring: // cstring
+      case symbol_kind::S_xmlcstring: // xmlcstring
+      case symbol_kind::S_simplestring: // simplestring
+      case symbol_kind::S_xmltstring: // xmltstring
+      case symbol_kind::S_objectreference: // objectreference
+      case symbol_kind::S_typefieldreference: // typefieldreference
+      case symbol_kind::S_valuefieldreference: // valuefieldreference
+      case symbol_kind::S_GENERIC_IDENTIFIER_UPPERCASE: // GENERIC_IDENTIFIER_UPPERCASE
+      case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
+      case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
+      case symbol_kind::S_FieldName: // FieldName
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
+      case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
+      case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
+      case symbol_kind::S_Symbol: // Symbol
+      case symbol_kind::S_Reference: // Reference
+      case symbol_kind::S_typereference: // typereference
+      case symbol_kind::S_identifier: // identifier
+      case symbol_kind::S_valuereference: // valuereference
+      case symbol_kind::S_modulereference: // modulereference
+      case symbol_kind::S_objectclassreference: // objectclassreference
+      case symbol_kind::S_word: // word
+        value.move< std::string > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_AssignmentList: // AssignmentList
+        value.move< std::vector<Assignment> > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_FieldSpecList: // FieldSpecList
+      case symbol_kind::S_FieldSpec: // FieldSpec
+      case symbol_kind::S_TypeFieldSpec: // TypeFieldSpec
+      case symbol_kind::S_FixedTypeValueFieldSpec: // FixedTypeValueFieldSpec
+        value.move< std::vector<ClassField> > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_Exports: // Exports
+        value.move< std::vector<Export> > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_Imports: // Imports
+      case symbol_kind::S_SymbolsImported: // SymbolsImported
+      case symbol_kind::S_SymbolsFromModuleList: // SymbolsFromModuleList
+        value.move< std::vector<Import> > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_NamedNumberList: // NamedNumberList
+        value.move< std::vector<NamedNumber> > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_AlternativeTypeLists: // AlternativeTypeLists
+      case symbol_kind::S_RootAlternativeTypeList: // RootAlternativeTypeList
+      case symbol_kind::S_AlternativeTypeList: // AlternativeTypeList
+        value.move< std::vector<NamedType> > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ObjectIdentifierValue: // ObjectIdentifierValue
+      case symbol_kind::S_ObjIdComponentsList: // ObjIdComponentsList
+        value.move< std::vector<ObjectIdComponentValue> > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ParameterList: // ParameterList
+      case symbol_kind::S_ParameterSeries: // ParameterSeries
+        value.move< std::vector<Parameter> > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_ActualParameterList: // ActualParameterList
+        value.move< std::vector<Type> > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_SequenceOfValues: // SequenceOfValues
+        value.move< std::vector<Value> > (std::move (that.value));
+        break;
+
+      case symbol_kind::S_FieldNameList: // FieldNameList
+      case symbol_kind::S_OneOrManyTypeFieldReference: // OneOrManyTypeFieldReference
+      case symbol_kind::S_SymbolList: // SymbolList
+        value.move< std::vector<std::string> > (std::move (that.value));
+        break;
+
+      default:
+        break;
+    }
+
+      }
 #endif
 
       /// Copy constructor.
       basic_symbol (const basic_symbol& that);
 
-      /// Constructor for valueless symbols, and symbols from each type.
+      /// Constructors for typed symbols.
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, location_type&& l)
         : Base (t)
@@ -1129,6 +1879,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, Assignment&& v, location_type&& l)
         : Base (t)
@@ -1142,6 +1893,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, BitStringType&& v, location_type&& l)
         : Base (t)
@@ -1155,6 +1907,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, BooleanType&& v, location_type&& l)
         : Base (t)
@@ -1168,6 +1921,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, BooleanValue&& v, location_type&& l)
         : Base (t)
@@ -1181,6 +1935,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, BuiltinType&& v, location_type&& l)
         : Base (t)
@@ -1194,6 +1949,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, CharacterStringType&& v, location_type&& l)
         : Base (t)
@@ -1207,6 +1963,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, ChoiceType&& v, location_type&& l)
         : Base (t)
@@ -1220,6 +1977,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, Class&& v, location_type&& l)
         : Base (t)
@@ -1233,6 +1991,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, Collection&& v, location_type&& l)
         : Base (t)
@@ -1246,6 +2005,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, ComponentType&& v, location_type&& l)
         : Base (t)
@@ -1259,6 +2019,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, ComponentTypeList&& v, location_type&& l)
         : Base (t)
@@ -1272,6 +2033,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, DateTimeType&& v, location_type&& l)
         : Base (t)
@@ -1285,6 +2047,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, DateType&& v, location_type&& l)
         : Base (t)
@@ -1298,6 +2061,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, DefinedType&& v, location_type&& l)
         : Base (t)
@@ -1311,6 +2075,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, DefinedValue&& v, location_type&& l)
         : Base (t)
@@ -1324,6 +2089,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, DurationType&& v, location_type&& l)
         : Base (t)
@@ -1337,6 +2103,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, EmbeddedPDVType&& v, location_type&& l)
         : Base (t)
@@ -1350,6 +2117,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, EnumeratedType&& v, location_type&& l)
         : Base (t)
@@ -1363,6 +2131,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, EnumerationValue&& v, location_type&& l)
         : Base (t)
@@ -1376,6 +2145,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, ExternalType&& v, location_type&& l)
         : Base (t)
@@ -1389,6 +2159,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, IRIType&& v, location_type&& l)
         : Base (t)
@@ -1402,6 +2173,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, Import&& v, location_type&& l)
         : Base (t)
@@ -1415,6 +2187,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, InstanceOfType&& v, location_type&& l)
         : Base (t)
@@ -1428,6 +2201,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, IntegerType&& v, location_type&& l)
         : Base (t)
@@ -1441,6 +2215,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, Module&& v, location_type&& l)
         : Base (t)
@@ -1454,6 +2229,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, NamedNumber&& v, location_type&& l)
         : Base (t)
@@ -1467,6 +2243,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, NamedType&& v, location_type&& l)
         : Base (t)
@@ -1480,6 +2257,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, NullType&& v, location_type&& l)
         : Base (t)
@@ -1493,6 +2271,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, ObjectClassAssignment&& v, location_type&& l)
         : Base (t)
@@ -1506,6 +2285,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, ObjectClassFieldType&& v, location_type&& l)
         : Base (t)
@@ -1519,6 +2299,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, ObjectIdComponentValue&& v, location_type&& l)
         : Base (t)
@@ -1532,6 +2313,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, ObjectIdentifierType&& v, location_type&& l)
         : Base (t)
@@ -1545,6 +2327,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, OctetStringType&& v, location_type&& l)
         : Base (t)
@@ -1558,6 +2341,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, Parameter&& v, location_type&& l)
         : Base (t)
@@ -1571,6 +2355,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, PrefixedType&& v, location_type&& l)
         : Base (t)
@@ -1584,6 +2369,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, RealType&& v, location_type&& l)
         : Base (t)
@@ -1597,6 +2383,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, RelativeIRIType&& v, location_type&& l)
         : Base (t)
@@ -1610,6 +2397,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, RelativeOIDType&& v, location_type&& l)
         : Base (t)
@@ -1623,6 +2411,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, SequenceOfType&& v, location_type&& l)
         : Base (t)
@@ -1636,6 +2425,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, SequenceType&& v, location_type&& l)
         : Base (t)
@@ -1649,6 +2439,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, SetOfType&& v, location_type&& l)
         : Base (t)
@@ -1662,6 +2453,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, SetType&& v, location_type&& l)
         : Base (t)
@@ -1675,6 +2467,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, Tag&& v, location_type&& l)
         : Base (t)
@@ -1688,6 +2481,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, TaggedType&& v, location_type&& l)
         : Base (t)
@@ -1701,6 +2495,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, TaggingMode&& v, location_type&& l)
         : Base (t)
@@ -1714,6 +2509,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, TimeOfDayType&& v, location_type&& l)
         : Base (t)
@@ -1727,6 +2523,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, TimeType&& v, location_type&& l)
         : Base (t)
@@ -1740,6 +2537,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, TimeValue&& v, location_type&& l)
         : Base (t)
@@ -1753,6 +2551,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, Type&& v, location_type&& l)
         : Base (t)
@@ -1766,6 +2565,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, Value&& v, location_type&& l)
         : Base (t)
@@ -1779,6 +2579,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, double&& v, location_type&& l)
         : Base (t)
@@ -1792,6 +2593,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, int&& v, location_type&& l)
         : Base (t)
@@ -1805,6 +2607,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, int64_t&& v, location_type&& l)
         : Base (t)
@@ -1818,6 +2621,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, std::string&& v, location_type&& l)
         : Base (t)
@@ -1831,6 +2635,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, std::vector<Assignment>&& v, location_type&& l)
         : Base (t)
@@ -1844,6 +2649,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, std::vector<ClassField>&& v, location_type&& l)
         : Base (t)
@@ -1857,6 +2663,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, std::vector<Export>&& v, location_type&& l)
         : Base (t)
@@ -1870,6 +2677,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, std::vector<Import>&& v, location_type&& l)
         : Base (t)
@@ -1883,6 +2691,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, std::vector<NamedNumber>&& v, location_type&& l)
         : Base (t)
@@ -1896,6 +2705,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, std::vector<NamedType>&& v, location_type&& l)
         : Base (t)
@@ -1909,6 +2719,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, std::vector<ObjectIdComponentValue>&& v, location_type&& l)
         : Base (t)
@@ -1922,6 +2733,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, std::vector<Parameter>&& v, location_type&& l)
         : Base (t)
@@ -1935,6 +2747,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, std::vector<Type>&& v, location_type&& l)
         : Base (t)
@@ -1948,6 +2761,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, std::vector<Value>&& v, location_type&& l)
         : Base (t)
@@ -1961,6 +2775,7 @@ namespace yy {
         , location (l)
       {}
 #endif
+
 #if 201103L <= YY_CPLUSPLUS
       basic_symbol (typename Base::kind_type t, std::vector<std::string>&& v, location_type&& l)
         : Base (t)
@@ -1981,344 +2796,346 @@ namespace yy {
         clear ();
       }
 
+
+
       /// Destroy contents, and record that is empty.
-      void clear ()
+      void clear () YY_NOEXCEPT
       {
         // User destructor.
-        symbol_number_type yytype = this->type_get ();
+        symbol_kind_type yykind = this->kind ();
         basic_symbol<Base>& yysym = *this;
         (void) yysym;
-        switch (yytype)
+        switch (yykind)
         {
        default:
           break;
         }
 
-        // Type destructor.
-switch (yytype)
+        // Value type destructor.
+switch (yykind)
     {
-      case 160: // ObjectClassAssignment
-      case 199: // ObjectSetAssignment
-      case 203: // ParameterizedAssignment
-      case 204: // ParameterizedTypeAssignment
-      case 205: // ParameterizedValueAssignment
-      case 206: // ParameterizedValueSetTypeAssignment
-      case 207: // ParameterizedObjectClassAssignment
-      case 251: // Assignment
-      case 260: // TypeAssignment
-      case 261: // ValueAssignment
-      case 262: // ValueSetTypeAssignment
+      case symbol_kind::S_ObjectClassAssignment: // ObjectClassAssignment
+      case symbol_kind::S_ObjectSetAssignment: // ObjectSetAssignment
+      case symbol_kind::S_ParameterizedAssignment: // ParameterizedAssignment
+      case symbol_kind::S_ParameterizedTypeAssignment: // ParameterizedTypeAssignment
+      case symbol_kind::S_ParameterizedValueAssignment: // ParameterizedValueAssignment
+      case symbol_kind::S_ParameterizedValueSetTypeAssignment: // ParameterizedValueSetTypeAssignment
+      case symbol_kind::S_ParameterizedObjectClassAssignment: // ParameterizedObjectClassAssignment
+      case symbol_kind::S_Assignment: // Assignment
+      case symbol_kind::S_TypeAssignment: // TypeAssignment
+      case symbol_kind::S_ValueAssignment: // ValueAssignment
+      case symbol_kind::S_ValueSetTypeAssignment: // ValueSetTypeAssignment
         value.template destroy< Assignment > ();
         break;
 
-      case 283: // BitStringType
+      case symbol_kind::S_BitStringType: // BitStringType
         value.template destroy< BitStringType > ();
         break;
 
-      case 272: // BooleanType
+      case symbol_kind::S_BooleanType: // BooleanType
         value.template destroy< BooleanType > ();
         break;
 
-      case 273: // BooleanValue
+      case symbol_kind::S_BooleanValue: // BooleanValue
         value.template destroy< BooleanValue > ();
         break;
 
-      case 264: // BuiltinType
+      case symbol_kind::S_BuiltinType: // BuiltinType
         value.template destroy< BuiltinType > ();
         break;
 
-      case 328: // CharacterStringType
-      case 329: // RestrictedCharacterStringType
-      case 330: // UnrestrictedCharacterStringType
+      case symbol_kind::S_CharacterStringType: // CharacterStringType
+      case symbol_kind::S_RestrictedCharacterStringType: // RestrictedCharacterStringType
+      case symbol_kind::S_UnrestrictedCharacterStringType: // UnrestrictedCharacterStringType
         value.template destroy< CharacterStringType > ();
         break;
 
-      case 295: // ChoiceType
+      case symbol_kind::S_ChoiceType: // ChoiceType
         value.template destroy< ChoiceType > ();
         break;
 
-      case 305: // Class
+      case symbol_kind::S_Class: // Class
         value.template destroy< Class > ();
         break;
 
-      case 289: // ComponentTypeLists
+      case symbol_kind::S_ComponentTypeLists: // ComponentTypeLists
         value.template destroy< Collection > ();
         break;
 
-      case 291: // ComponentType
+      case symbol_kind::S_ComponentType: // ComponentType
         value.template destroy< ComponentType > ();
         break;
 
-      case 290: // ComponentTypeList
+      case symbol_kind::S_ComponentTypeList: // ComponentTypeList
         value.template destroy< ComponentTypeList > ();
         break;
 
-      case 326: // DateTimeType
+      case symbol_kind::S_DateTimeType: // DateTimeType
         value.template destroy< DateTimeType > ();
         break;
 
-      case 324: // DateType
+      case symbol_kind::S_DateType: // DateType
         value.template destroy< DateType > ();
         break;
 
-      case 252: // DefinedType
-      case 254: // ParameterizedType
-      case 258: // ExternalTypeReference
+      case symbol_kind::S_DefinedType: // DefinedType
+      case symbol_kind::S_ParameterizedType: // ParameterizedType
+      case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
         value.template destroy< DefinedType > ();
         break;
 
-      case 253: // DefinedValue
+      case symbol_kind::S_DefinedValue: // DefinedValue
         value.template destroy< DefinedValue > ();
         break;
 
-      case 327: // DurationType
+      case symbol_kind::S_DurationType: // DurationType
         value.template destroy< DurationType > ();
         break;
 
-      case 320: // EmbeddedPDVType
+      case symbol_kind::S_EmbeddedPDVType: // EmbeddedPDVType
         value.template destroy< EmbeddedPDVType > ();
         break;
 
-      case 278: // EnumeratedType
-      case 279: // Enumerations
-      case 280: // Enumeration
+      case symbol_kind::S_EnumeratedType: // EnumeratedType
+      case symbol_kind::S_Enumerations: // Enumerations
+      case symbol_kind::S_Enumeration: // Enumeration
         value.template destroy< EnumeratedType > ();
         break;
 
-      case 281: // EnumerationItem
+      case symbol_kind::S_EnumerationItem: // EnumerationItem
         value.template destroy< EnumerationValue > ();
         break;
 
-      case 321: // ExternalType
+      case symbol_kind::S_ExternalType: // ExternalType
         value.template destroy< ExternalType > ();
         break;
 
-      case 314: // IRIType
+      case symbol_kind::S_IRIType: // IRIType
         value.template destroy< IRIType > ();
         break;
 
-      case 245: // SymbolsFromModule
+      case symbol_kind::S_SymbolsFromModule: // SymbolsFromModule
         value.template destroy< Import > ();
         break;
 
-      case 215: // InstanceOfType
+      case symbol_kind::S_InstanceOfType: // InstanceOfType
         value.template destroy< InstanceOfType > ();
         break;
 
-      case 274: // IntegerType
+      case symbol_kind::S_IntegerType: // IntegerType
         value.template destroy< IntegerType > ();
         break;
 
-      case 239: // ModuleBody
+      case symbol_kind::S_ModuleBody: // ModuleBody
         value.template destroy< Module > ();
         break;
 
-      case 276: // NamedNumber
+      case symbol_kind::S_NamedNumber: // NamedNumber
         value.template destroy< NamedNumber > ();
         break;
 
-      case 265: // NamedType
+      case symbol_kind::S_NamedType: // NamedType
         value.template destroy< NamedType > ();
         break;
 
-      case 287: // NullType
+      case symbol_kind::S_NullType: // NullType
         value.template destroy< NullType > ();
         break;
 
-      case 161: // ObjectClass
-      case 162: // ObjectClassDefn
+      case symbol_kind::S_ObjectClass: // ObjectClass
+      case symbol_kind::S_ObjectClassDefn: // ObjectClassDefn
         value.template destroy< ObjectClassAssignment > ();
         break;
 
-      case 202: // ObjectClassFieldType
+      case symbol_kind::S_ObjectClassFieldType: // ObjectClassFieldType
         value.template destroy< ObjectClassFieldType > ();
         break;
 
-      case 309: // ObjIdComponents
-      case 310: // NameForm
-      case 311: // NumberForm
-      case 312: // NameAndNumberForm
+      case symbol_kind::S_ObjIdComponents: // ObjIdComponents
+      case symbol_kind::S_NameForm: // NameForm
+      case symbol_kind::S_NumberForm: // NumberForm
+      case symbol_kind::S_NameAndNumberForm: // NameAndNumberForm
         value.template destroy< ObjectIdComponentValue > ();
         break;
 
-      case 306: // ObjectIdentifierType
+      case symbol_kind::S_ObjectIdentifierType: // ObjectIdentifierType
         value.template destroy< ObjectIdentifierType > ();
         break;
 
-      case 286: // OctetStringType
+      case symbol_kind::S_OctetStringType: // OctetStringType
         value.template destroy< OctetStringType > ();
         break;
 
-      case 210: // Parameter
+      case symbol_kind::S_Parameter: // Parameter
         value.template destroy< Parameter > ();
         break;
 
-      case 300: // PrefixedType
+      case symbol_kind::S_PrefixedType: // PrefixedType
         value.template destroy< PrefixedType > ();
         break;
 
-      case 282: // RealType
+      case symbol_kind::S_RealType: // RealType
         value.template destroy< RealType > ();
         break;
 
-      case 319: // RelativeIRIType
+      case symbol_kind::S_RelativeIRIType: // RelativeIRIType
         value.template destroy< RelativeIRIType > ();
         break;
 
-      case 313: // RelativeOIDType
+      case symbol_kind::S_RelativeOIDType: // RelativeOIDType
         value.template destroy< RelativeOIDType > ();
         break;
 
-      case 292: // SequenceOfType
+      case symbol_kind::S_SequenceOfType: // SequenceOfType
         value.template destroy< SequenceOfType > ();
         break;
 
-      case 288: // SequenceType
+      case symbol_kind::S_SequenceType: // SequenceType
         value.template destroy< SequenceType > ();
         break;
 
-      case 294: // SetOfType
+      case symbol_kind::S_SetOfType: // SetOfType
         value.template destroy< SetOfType > ();
         break;
 
-      case 293: // SetType
+      case symbol_kind::S_SetType: // SetType
         value.template destroy< SetType > ();
         break;
 
-      case 302: // Tag
+      case symbol_kind::S_Tag: // Tag
         value.template destroy< Tag > ();
         break;
 
-      case 301: // TaggedType
+      case symbol_kind::S_TaggedType: // TaggedType
         value.template destroy< TaggedType > ();
         break;
 
-      case 237: // TagDefault
+      case symbol_kind::S_TagDefault: // TagDefault
         value.template destroy< TaggingMode > ();
         break;
 
-      case 325: // TimeOfDayType
+      case symbol_kind::S_TimeOfDayType: // TimeOfDayType
         value.template destroy< TimeOfDayType > ();
         break;
 
-      case 322: // TimeType
+      case symbol_kind::S_TimeType: // TimeType
         value.template destroy< TimeType > ();
         break;
 
-      case 323: // TimeValue
+      case symbol_kind::S_TimeValue: // TimeValue
         value.template destroy< TimeValue > ();
         break;
 
-      case 211: // ParamGovernor
-      case 212: // Governor
-      case 257: // ActualParameter
-      case 263: // Type
-      case 331: // ConstrainedType
-      case 332: // TypeWithConstraint
+      case symbol_kind::S_ParamGovernor: // ParamGovernor
+      case symbol_kind::S_Governor: // Governor
+      case symbol_kind::S_ActualParameter: // ActualParameter
+      case symbol_kind::S_Type: // Type
+      case symbol_kind::S_ConstrainedType: // ConstrainedType
+      case symbol_kind::S_TypeWithConstraint: // TypeWithConstraint
         value.template destroy< Type > ();
         break;
 
-      case 266: // ValueWithoutTypeIdentifier
-      case 267: // Value
-      case 349: // SingleValue
+      case symbol_kind::S_ValueWithoutTypeIdentifier: // ValueWithoutTypeIdentifier
+      case symbol_kind::S_Value: // Value
+      case symbol_kind::S_SingleValue: // SingleValue
         value.template destroy< Value > ();
         break;
 
-      case 6: // realnumber
+      case symbol_kind::S_realnumber: // realnumber
         value.template destroy< double > ();
         break;
 
-      case 304: // ClassNumber
+      case symbol_kind::S_ClassNumber: // ClassNumber
         value.template destroy< int > ();
         break;
 
-      case 4: // number
-      case 5: // negativenumber
-      case 277: // SignedNumber
+      case symbol_kind::S_number: // number
+      case symbol_kind::S_negativenumber: // negativenumber
+      case symbol_kind::S_SignedNumber: // SignedNumber
         value.template destroy< int64_t > ();
         break;
 
-      case 7: // bstring
-      case 8: // xmlbstring
-      case 9: // hstring
-      case 10: // xmlhstring
-      case 11: // cstring
-      case 12: // xmlcstring
-      case 13: // simplestring
-      case 14: // xmltstring
-      case 22: // objectreference
-      case 24: // typefieldreference
-      case 25: // valuefieldreference
-      case 149: // GENERIC_IDENTIFIER_UPPERCASE
-      case 150: // GENERIC_IDENTIFIER_LOWERCASE
-      case 159: // UsefulObjectClassReference
-      case 165: // FieldName
-      case 216: // SimpleDefinedType
-      case 228: // ModuleIdentifier
-      case 246: // GlobalModuleReference
-      case 248: // Symbol
-      case 249: // Reference
-      case 372: // typereference
-      case 373: // identifier
-      case 374: // valuereference
-      case 375: // modulereference
-      case 376: // objectclassreference
-      case 377: // word
+      case symbol_kind::S_bstring: // bstring
+      case symbol_kind::S_xmlbstring: // xmlbstring
+      case symbol_kind::S_hstring: // hstring
+      case symbol_kind::S_xmlhstring: // xmlhstring
+      case symbol_kind::S_cstring: // cstring
+      case symbol_kind::S_xmlcstring: // xmlcstring
+      case symbol_kind::S_simplestring: // simplestring
+      case symbol_kind::S_xmltstring: // xmltstring
+      case symbol_kind::S_objectreference: // objectreference
+      case symbol_kind::S_typefieldreference: // typefieldreference
+      case symbol_kind::S_valuefieldreference: // valuefieldreference
+      case symbol_kind::S_GENERIC_IDENTIFIER_UPPERCASE: // GENERIC_IDENTIFIER_UPPERCASE
+      case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
+      case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
+      case symbol_kind::S_FieldName: // FieldName
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
+      case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
+      case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
+      case symbol_kind::S_Symbol: // Symbol
+      case symbol_kind::S_Reference: // Reference
+      case symbol_kind::S_typereference: // typereference
+      case symbol_kind::S_identifier: // identifier
+      case symbol_kind::S_valuereference: // valuereference
+      case symbol_kind::S_modulereference: // modulereference
+      case symbol_kind::S_objectclassreference: // objectclassreference
+      case symbol_kind::S_word: // word
         value.template destroy< std::string > ();
         break;
 
-      case 250: // AssignmentList
+      case symbol_kind::S_AssignmentList: // AssignmentList
         value.template destroy< std::vector<Assignment> > ();
         break;
 
-      case 163: // FieldSpecList
-      case 164: // FieldSpec
-      case 167: // TypeFieldSpec
-      case 171: // FixedTypeValueFieldSpec
+      case symbol_kind::S_FieldSpecList: // FieldSpecList
+      case symbol_kind::S_FieldSpec: // FieldSpec
+      case symbol_kind::S_TypeFieldSpec: // TypeFieldSpec
+      case symbol_kind::S_FixedTypeValueFieldSpec: // FixedTypeValueFieldSpec
         value.template destroy< std::vector<ClassField> > ();
         break;
 
-      case 240: // Exports
+      case symbol_kind::S_Exports: // Exports
         value.template destroy< std::vector<Export> > ();
         break;
 
-      case 242: // Imports
-      case 243: // SymbolsImported
-      case 244: // SymbolsFromModuleList
+      case symbol_kind::S_Imports: // Imports
+      case symbol_kind::S_SymbolsImported: // SymbolsImported
+      case symbol_kind::S_SymbolsFromModuleList: // SymbolsFromModuleList
         value.template destroy< std::vector<Import> > ();
         break;
 
-      case 275: // NamedNumberList
+      case symbol_kind::S_NamedNumberList: // NamedNumberList
         value.template destroy< std::vector<NamedNumber> > ();
         break;
 
-      case 296: // AlternativeTypeLists
-      case 297: // RootAlternativeTypeList
-      case 298: // AlternativeTypeList
+      case symbol_kind::S_AlternativeTypeLists: // AlternativeTypeLists
+      case symbol_kind::S_RootAlternativeTypeList: // RootAlternativeTypeList
+      case symbol_kind::S_AlternativeTypeList: // AlternativeTypeList
         value.template destroy< std::vector<NamedType> > ();
         break;
 
-      case 307: // ObjectIdentifierValue
-      case 308: // ObjIdComponentsList
+      case symbol_kind::S_ObjectIdentifierValue: // ObjectIdentifierValue
+      case symbol_kind::S_ObjIdComponentsList: // ObjIdComponentsList
         value.template destroy< std::vector<ObjectIdComponentValue> > ();
         break;
 
-      case 208: // ParameterList
-      case 209: // ParameterSeries
+      case symbol_kind::S_ParameterList: // ParameterList
+      case symbol_kind::S_ParameterSeries: // ParameterSeries
         value.template destroy< std::vector<Parameter> > ();
         break;
 
-      case 256: // ActualParameterList
+      case symbol_kind::S_ActualParameterList: // ActualParameterList
         value.template destroy< std::vector<Type> > ();
         break;
 
-      case 271: // SequenceOfValues
+      case symbol_kind::S_SequenceOfValues: // SequenceOfValues
         value.template destroy< std::vector<Value> > ();
         break;
 
-      case 166: // FieldNameList
-      case 168: // OneOrManyTypeFieldReference
-      case 247: // SymbolList
+      case symbol_kind::S_FieldNameList: // FieldNameList
+      case symbol_kind::S_OneOrManyTypeFieldReference: // OneOrManyTypeFieldReference
+      case symbol_kind::S_SymbolList: // SymbolList
         value.template destroy< std::vector<std::string> > ();
         break;
 
@@ -2329,6 +3146,15 @@ switch (yytype)
         Base::clear ();
       }
 
+      /// The user-facing name of this symbol.
+      std::string name () const YY_NOEXCEPT
+      {
+        return asn1_parser::symbol_name (this->kind ());
+      }
+
+      /// Backward compatibility (Bison 3.6).
+      symbol_kind_type type_get () const YY_NOEXCEPT;
+
       /// Whether empty.
       bool empty () const YY_NOEXCEPT;
 
@@ -2336,7 +3162,7 @@ switch (yytype)
       void move (basic_symbol& s);
 
       /// The semantic value.
-      semantic_type value;
+      value_type value;
 
       /// The location.
       location_type location;
@@ -2349,112 +3175,127 @@ switch (yytype)
     };
 
     /// Type access provider for token (enum) based symbols.
-    struct by_type
+    struct by_kind
     {
+      /// The symbol kind as needed by the constructor.
+      typedef token_kind_type kind_type;
+
       /// Default constructor.
-      by_type ();
+      by_kind () YY_NOEXCEPT;
 
 #if 201103L <= YY_CPLUSPLUS
       /// Move constructor.
-      by_type (by_type&& that);
+      by_kind (by_kind&& that) YY_NOEXCEPT;
 #endif
 
       /// Copy constructor.
-      by_type (const by_type& that);
-
-      /// The symbol type as needed by the constructor.
-      typedef token_type kind_type;
+      by_kind (const by_kind& that) YY_NOEXCEPT;
 
       /// Constructor from (external) token numbers.
-      by_type (kind_type t);
+      by_kind (kind_type t) YY_NOEXCEPT;
+
+
 
       /// Record that this symbol is empty.
-      void clear ();
+      void clear () YY_NOEXCEPT;
 
-      /// Steal the symbol type from \a that.
-      void move (by_type& that);
+      /// Steal the symbol kind from \a that.
+      void move (by_kind& that);
 
       /// The (internal) type number (corresponding to \a type).
       /// \a empty when empty.
-      symbol_number_type type_get () const YY_NOEXCEPT;
+      symbol_kind_type kind () const YY_NOEXCEPT;
 
-      /// The token.
-      token_type token () const YY_NOEXCEPT;
+      /// Backward compatibility (Bison 3.6).
+      symbol_kind_type type_get () const YY_NOEXCEPT;
 
-      /// The symbol type.
-      /// \a empty_symbol when empty.
-      /// An int, not token_number_type, to be able to store empty_symbol.
-      int type;
+      /// The symbol kind.
+      /// \a S_YYEMPTY when empty.
+      symbol_kind_type kind_;
     };
 
+    /// Backward compatibility for a private implementation detail (Bison 3.6).
+    typedef by_kind by_type;
+
     /// "External" symbols: returned by the scanner.
-    struct symbol_type : basic_symbol<by_type>
+    struct symbol_type : basic_symbol<by_kind>
     {
       /// Superclass.
-      typedef basic_symbol<by_type> super_type;
+      typedef basic_symbol<by_kind> super_type;
 
       /// Empty symbol.
-      symbol_type () {}
+      symbol_type () YY_NOEXCEPT {}
 
       /// Constructor for valueless symbols, and symbols from each type.
 #if 201103L <= YY_CPLUSPLUS
       symbol_type (int tok, location_type l)
-        : super_type(token_type (tok), std::move (l))
-      {
-        YYASSERT (tok == token::END_OF_FILE || tok == token::comment || tok == token::psname || tok == token::encodingreference || tok == token::integerUnicodeLabel || tok == 273 || tok == 274 || tok == token::tstring || tok == 276 || tok == token::objectsetreference || tok == token::valuesetfieldreference || tok == token::objectfieldreference || tok == token::objectsetfieldreference || tok == token::ABSENT || tok == token::ABSTRACT_SYNTAX || tok == token::ALL || tok == token::ANY || tok == token::APPLICATION || tok == token::ASN_NULL || tok == token::AUTOMATIC || tok == token::BEGIN || tok == token::BIT || tok == token::BMPString || tok == token::BOOLEAN || tok == token::BY || tok == token::CHARACTER || tok == token::CHOICE || tok == token::CLASS || tok == token::COMPONENT || tok == token::COMPONENTS || tok == token::CONSTRAINED || tok == token::CONTAINING || tok == token::DATE || tok == token::DATE_TIME || tok == token::DEFAULT || tok == token::DEFINITIONS || tok == token::DURATION || tok == token::EMBEDDED || tok == token::ENCODED || tok == token::ENCODING_CONTROL || tok == token::END || tok == token::ENUMERATED || tok == token::EXCEPT || tok == token::EXPLICIT || tok == token::EXPORTS || tok == token::EXTENSIBILITY || tok == token::EXTERNAL || tok == token::FALSE || tok == token::FROM || tok == token::GeneralizedTime || tok == token::GeneralString || tok == token::GraphicString || tok == token::IA5String || tok == token::IDENTIFIER || tok == token::IMPLICIT || tok == token::IMPLIED || tok == token::IMPORTS || tok == token::INCLUDES || tok == token::INSTANCE || tok == token::INSTRUCTIONS || tok == token::INTEGER || tok == token::INTERSECTION || tok == token::ISO646String || tok == token::MAX || tok == token::MIN || tok == token::MINUS_INFINITY || tok == token::NOT_A_NUMBER || tok == token::NumericString || tok == token::OBJECT || tok == token::ObjectDescriptor || tok == token::OCTET || tok == token::OF || tok == token::OID_IRI || tok == token::OPTIONAL || tok == token::PATTERN || tok == token::PDV || tok == token::PLUS_INFINITY || tok == token::PRESENT || tok == token::PrintableString || tok == token::PRIVATE || tok == token::REAL || tok == token::RELATIVE_OID || tok == token::RELATIVE_OID_IRI || tok == token::SEQUENCE || tok == token::SET || tok == token::SETTINGS || tok == token::SIZE || tok == token::STRING || tok == token::SYNTAX || tok == token::T61String || tok == token::TAGS || tok == token::TeletexString || tok == token::TIME || tok == token::TIME_OF_DAY || tok == token::TRUE || tok == token::TYPE_IDENTIFIER || tok == token::UNION || tok == token::UNIQUE || tok == token::UNIVERSAL || tok == token::UniversalString || tok == token::UTCTime || tok == token::UTF8String || tok == token::VideotexString || tok == token::VisibleString || tok == token::WITH || tok == token::DEFINED_AS || tok == token::ELIPSIS || tok == token::RANGE || tok == token::OPEN_BRACE || tok == token::CLOSE_BRACE || tok == token::OPEN_PARENTHESIS || tok == token::CLOSE_PARENTHESIS || tok == token::OPEN_SQUARE_BRACKET || tok == token::CLOSE_SQUARE_BRACKET || tok == token::LESS_THAN || tok == token::GREATER_THAN || tok == token::EXCLAMATION_MARK || tok == token::QUOTATION_MARK || tok == token::AMPERSAND || tok == token::APOSTROPHE || tok == token::ASTERISK || tok == token::COMMA || tok == token::FULL_STOP || tok == token::HYPHEN_MINUS || tok == token::SOLIDUS || tok == token::COLON || tok == token::SEMICOLON || tok == token::EQUALS_SIGN || tok == token::AT || tok == token::VERTICAL_LINE || tok == token::ACCENT || tok == token::PLUS || tok == token::STAR || tok == token::GENERIC_INTEGER || tok == token::xmlasn1typename);
-      }
+        : super_type (token_kind_type (tok), std::move (l))
 #else
       symbol_type (int tok, const location_type& l)
-        : super_type(token_type (tok), l)
+        : super_type (token_kind_type (tok), l)
+#endif
       {
-        YYASSERT (tok == token::END_OF_FILE || tok == token::comment || tok == token::psname || tok == token::encodingreference || tok == token::integerUnicodeLabel || tok == 273 || tok == 274 || tok == token::tstring || tok == 276 || tok == token::objectsetreference || tok == token::valuesetfieldreference || tok == token::objectfieldreference || tok == token::objectsetfieldreference || tok == token::ABSENT || tok == token::ABSTRACT_SYNTAX || tok == token::ALL || tok == token::ANY || tok == token::APPLICATION || tok == token::ASN_NULL || tok == token::AUTOMATIC || tok == token::BEGIN || tok == token::BIT || tok == token::BMPString || tok == token::BOOLEAN || tok == token::BY || tok == token::CHARACTER || tok == token::CHOICE || tok == token::CLASS || tok == token::COMPONENT || tok == token::COMPONENTS || tok == token::CONSTRAINED || tok == token::CONTAINING || tok == token::DATE || tok == token::DATE_TIME || tok == token::DEFAULT || tok == token::DEFINITIONS || tok == token::DURATION || tok == token::EMBEDDED || tok == token::ENCODED || tok == token::ENCODING_CONTROL || tok == token::END || tok == token::ENUMERATED || tok == token::EXCEPT || tok == token::EXPLICIT || tok == token::EXPORTS || tok == token::EXTENSIBILITY || tok == token::EXTERNAL || tok == token::FALSE || tok == token::FROM || tok == token::GeneralizedTime || tok == token::GeneralString || tok == token::GraphicString || tok == token::IA5String || tok == token::IDENTIFIER || tok == token::IMPLICIT || tok == token::IMPLIED || tok == token::IMPORTS || tok == token::INCLUDES || tok == token::INSTANCE || tok == token::INSTRUCTIONS || tok == token::INTEGER || tok == token::INTERSECTION || tok == token::ISO646String || tok == token::MAX || tok == token::MIN || tok == token::MINUS_INFINITY || tok == token::NOT_A_NUMBER || tok == token::NumericString || tok == token::OBJECT || tok == token::ObjectDescriptor || tok == token::OCTET || tok == token::OF || tok == token::OID_IRI || tok == token::OPTIONAL || tok == token::PATTERN || tok == token::PDV || tok == token::PLUS_INFINITY || tok == token::PRESENT || tok == token::PrintableString || tok == token::PRIVATE || tok == token::REAL || tok == token::RELATIVE_OID || tok == token::RELATIVE_OID_IRI || tok == token::SEQUENCE || tok == token::SET || tok == token::SETTINGS || tok == token::SIZE || tok == token::STRING || tok == token::SYNTAX || tok == token::T61String || tok == token::TAGS || tok == token::TeletexString || tok == token::TIME || tok == token::TIME_OF_DAY || tok == token::TRUE || tok == token::TYPE_IDENTIFIER || tok == token::UNION || tok == token::UNIQUE || tok == token::UNIVERSAL || tok == token::UniversalString || tok == token::UTCTime || tok == token::UTF8String || tok == token::VideotexString || tok == token::VisibleString || tok == token::WITH || tok == token::DEFINED_AS || tok == token::ELIPSIS || tok == token::RANGE || tok == token::OPEN_BRACE || tok == token::CLOSE_BRACE || tok == token::OPEN_PARENTHESIS || tok == token::CLOSE_PARENTHESIS || tok == token::OPEN_SQUARE_BRACKET || tok == token::CLOSE_SQUARE_BRACKET || tok == token::LESS_THAN || tok == token::GREATER_THAN || tok == token::EXCLAMATION_MARK || tok == token::QUOTATION_MARK || tok == token::AMPERSAND || tok == token::APOSTROPHE || tok == token::ASTERISK || tok == token::COMMA || tok == token::FULL_STOP || tok == token::HYPHEN_MINUS || tok == token::SOLIDUS || tok == token::COLON || tok == token::SEMICOLON || tok == token::EQUALS_SIGN || tok == token::AT || tok == token::VERTICAL_LINE || tok == token::ACCENT || tok == token::PLUS || tok == token::STAR || tok == token::GENERIC_INTEGER || tok == token::xmlasn1typename);
-      }
+#if !defined _MSC_VER || defined __clang__
+        YY_ASSERT (tok == token::END_OF_FILE
+                   || (token::YYerror <= tok && tok <= token::comment)
+                   || (token::psname <= tok && tok <= 276)
+                   || tok == token::objectsetreference
+                   || (token::valuesetfieldreference <= tok && tok <= token::STAR)
+                   || (token::GENERIC_INTEGER <= tok && tok <= token::xmlasn1typename));
 #endif
+      }
 #if 201103L <= YY_CPLUSPLUS
       symbol_type (int tok, double v, location_type l)
-        : super_type(token_type (tok), std::move (v), std::move (l))
-      {
-        YYASSERT (tok == token::realnumber);
-      }
+        : super_type (token_kind_type (tok), std::move (v), std::move (l))
 #else
       symbol_type (int tok, const double& v, const location_type& l)
-        : super_type(token_type (tok), v, l)
+        : super_type (token_kind_type (tok), v, l)
+#endif
       {
-        YYASSERT (tok == token::realnumber);
-      }
+#if !defined _MSC_VER || defined __clang__
+        YY_ASSERT (tok == token::realnumber);
 #endif
+      }
 #if 201103L <= YY_CPLUSPLUS
       symbol_type (int tok, int64_t v, location_type l)
-        : super_type(token_type (tok), std::move (v), std::move (l))
-      {
-        YYASSERT (tok == token::number || tok == token::negativenumber);
-      }
+        : super_type (token_kind_type (tok), std::move (v), std::move (l))
 #else
       symbol_type (int tok, const int64_t& v, const location_type& l)
-        : super_type(token_type (tok), v, l)
+        : super_type (token_kind_type (tok), v, l)
+#endif
       {
-        YYASSERT (tok == token::number || tok == token::negativenumber);
-      }
+#if !defined _MSC_VER || defined __clang__
+        YY_ASSERT ((token::number <= tok && tok <= token::negativenumber));
 #endif
+      }
 #if 201103L <= YY_CPLUSPLUS
       symbol_type (int tok, std::string v, location_type l)
-        : super_type(token_type (tok), std::move (v), std::move (l))
-      {
-        YYASSERT (tok == token::bstring || tok == token::xmlbstring || tok == token::hstring || tok == token::xmlhstring || tok == token::cstring || tok == token::xmlcstring || tok == token::simplestring || tok == token::xmltstring || tok == token::objectreference || tok == token::typefieldreference || tok == token::valuefieldreference || tok == token::GENERIC_IDENTIFIER_UPPERCASE || tok == token::GENERIC_IDENTIFIER_LOWERCASE);
-      }
+        : super_type (token_kind_type (tok), std::move (v), std::move (l))
 #else
       symbol_type (int tok, const std::string& v, const location_type& l)
-        : super_type(token_type (tok), v, l)
+        : super_type (token_kind_type (tok), v, l)
+#endif
       {
-        YYASSERT (tok == token::bstring || tok == token::xmlbstring || tok == token::hstring || tok == token::xmlhstring || tok == token::cstring || tok == token::xmlcstring || tok == token::simplestring || tok == token::xmltstring || tok == token::objectreference || tok == token::typefieldreference || tok == token::valuefieldreference || tok == token::GENERIC_IDENTIFIER_UPPERCASE || tok == token::GENERIC_IDENTIFIER_LOWERCASE);
-      }
+#if !defined _MSC_VER || defined __clang__
+        YY_ASSERT ((token::bstring <= tok && tok <= token::xmltstring)
+                   || tok == token::objectreference
+                   || (token::typefieldreference <= tok && tok <= token::valuefieldreference)
+                   || (token::GENERIC_IDENTIFIER_UPPERCASE <= tok && tok <= token::GENERIC_IDENTIFIER_LOWERCASE));
 #endif
+      }
     };
 
     /// Build a parser object.
     asn1_parser (Context& context__yyarg);
     virtual ~asn1_parser ();
 
+#if 201103L <= YY_CPLUSPLUS
+    /// Non copyable.
+    asn1_parser (const asn1_parser&) = delete;
+    /// Non copyable.
+    asn1_parser& operator= (const asn1_parser&) = delete;
+#endif
+
     /// Parse.  An alias for parse ().
     /// \returns  0 iff parsing succeeded.
     int operator() ();
@@ -2485,7 +3326,11 @@ switch (yytype)
     /// Report a syntax error.
     void error (const syntax_error& err);
 
-    // Implementation of make_symbol for each symbol type.
+    /// The user-facing name of the symbol whose (internal) number is
+    /// YYSYMBOL.  No bounds checking.
+    static std::string symbol_name (symbol_kind_type yysymbol);
+
+    // Implementation of make_symbol for each token kind.
 #if 201103L <= YY_CPLUSPLUS
       static
       symbol_type
@@ -2501,6 +3346,36 @@ switch (yytype)
         return symbol_type (token::END_OF_FILE, l);
       }
 #endif
+#if 201103L <= YY_CPLUSPLUS
+      static
+      symbol_type
+      make_YYerror (location_type l)
+      {
+        return symbol_type (token::YYerror, std::move (l));
+      }
+#else
+      static
+      symbol_type
+      make_YYerror (const location_type& l)
+      {
+        return symbol_type (token::YYerror, l);
+      }
+#endif
+#if 201103L <= YY_CPLUSPLUS
+      static
+      symbol_type
+      make_YYUNDEF (location_type l)
+      {
+        return symbol_type (token::YYUNDEF, std::move (l));
+      }
+#else
+      static
+      symbol_type
+      make_YYUNDEF (const location_type& l)
+      {
+        return symbol_type (token::YYUNDEF, l);
+      }
+#endif
 #if 201103L <= YY_CPLUSPLUS
       static
       symbol_type
@@ -4708,93 +5583,119 @@ switch (yytype)
 #endif
 
 
+    class context
+    {
+    public:
+      context (const asn1_parser& yyparser, const symbol_type& yyla);
+      const symbol_type& lookahead () const YY_NOEXCEPT { return yyla_; }
+      symbol_kind_type token () const YY_NOEXCEPT { return yyla_.kind (); }
+      const location_type& location () const YY_NOEXCEPT { return yyla_.location; }
+
+      /// Put in YYARG at most YYARGN of the expected tokens, and return the
+      /// number of tokens stored in YYARG.  If YYARG is null, return the
+      /// number of expected tokens (guaranteed to be less than YYNTOKENS).
+      int expected_tokens (symbol_kind_type yyarg[], int yyargn) const;
+
+    private:
+      const asn1_parser& yyparser_;
+      const symbol_type& yyla_;
+    };
+
   private:
-    /// This class is not copyable.
+#if YY_CPLUSPLUS < 201103L
+    /// Non copyable.
     asn1_parser (const asn1_parser&);
+    /// Non copyable.
     asn1_parser& operator= (const asn1_parser&);
+#endif
 
-    /// State numbers.
-    typedef int state_type;
 
-    /// Generate an error message.
-    /// \param yystate   the state where the error occurred.
-    /// \param yyla      the lookahead token.
-    virtual std::string yysyntax_error_ (state_type yystate,
-                                         const symbol_type& yyla) const;
+    /// Stored state numbers (used for stacks).
+    typedef short state_type;
 
+    /// The arguments of the error message.
+    int yy_syntax_error_arguments_ (const context& yyctx,
+                                    symbol_kind_type yyarg[], int yyargn) const;
+
+    /// Generate an error message.
+    /// \param yyctx     the context in which the error occurred.
+    virtual std::string yysyntax_error_ (const context& yyctx) const;
     /// Compute post-reduction state.
     /// \param yystate   the current state
     /// \param yysym     the nonterminal to push on the stack
-    state_type yy_lr_goto_state_ (state_type yystate, int yysym);
+    static state_type yy_lr_goto_state_ (state_type yystate, int yysym);
 
     /// Whether the given \c yypact_ value indicates a defaulted state.
     /// \param yyvalue   the value to check
-    static bool yy_pact_value_is_default_ (int yyvalue);
+    static bool yy_pact_value_is_default_ (int yyvalue) YY_NOEXCEPT;
 
     /// Whether the given \c yytable_ value indicates a syntax error.
     /// \param yyvalue   the value to check
-    static bool yy_table_value_is_error_ (int yyvalue);
+    static bool yy_table_value_is_error_ (int yyvalue) YY_NOEXCEPT;
 
     static const short yypact_ninf_;
     static const short yytable_ninf_;
 
-    /// Convert a scanner token number \a t to a symbol number.
-    static token_number_type yytranslate_ (token_type t);
+    /// Convert a scanner token kind \a t to a symbol kind.
+    /// In theory \a t should be a token_kind_type, but character literals
+    /// are valid, yet not members of the token_kind_type enum.
+    static symbol_kind_type yytranslate_ (int t) YY_NOEXCEPT;
 
-    // Tables.
-  // YYPACT[STATE-NUM] -- Index in YYTABLE of the portion describing
-  // STATE-NUM.
-  static const short yypact_[];
+    /// Convert the symbol name \a n to a form suitable for a diagnostic.
+    static std::string yytnamerr_ (const char *yystr);
 
-  // YYDEFACT[STATE-NUM] -- Default reduction number in state STATE-NUM.
-  // Performed when YYTABLE does not specify something else to do.  Zero
-  // means the default is an error.
-  static const unsigned short yydefact_[];
+    /// For a symbol, its name in clear.
+    static const char* const yytname_[];
 
-  // YYPGOTO[NTERM-NUM].
-  static const short yypgoto_[];
 
-  // YYDEFGOTO[NTERM-NUM].
-  static const short yydefgoto_[];
+    // Tables.
+    // YYPACT[STATE-NUM] -- Index in YYTABLE of the portion describing
+    // STATE-NUM.
+    static const short yypact_[];
 
-  // YYTABLE[YYPACT[STATE-NUM]] -- What to do in state STATE-NUM.  If
-  // positive, shift that token.  If negative, reduce the rule whose
-  // number is the opposite.  If YYTABLE_NINF, syntax error.
-  static const short yytable_[];
+    // YYDEFACT[STATE-NUM] -- Default reduction number in state STATE-NUM.
+    // Performed when YYTABLE does not specify something else to do.  Zero
+    // means the default is an error.
+    static const short yydefact_[];
 
-  static const short yycheck_[];
+    // YYPGOTO[NTERM-NUM].
+    static const short yypgoto_[];
 
-  // YYSTOS[STATE-NUM] -- The (internal number of the) accessing
-  // symbol of state STATE-NUM.
-  static const unsigned short yystos_[];
+    // YYDEFGOTO[NTERM-NUM].
+    static const short yydefgoto_[];
 
-  // YYR1[YYN] -- Symbol number of symbol that rule YYN derives.
-  static const unsigned short yyr1_[];
+    // YYTABLE[YYPACT[STATE-NUM]] -- What to do in state STATE-NUM.  If
+    // positive, shift that token.  If negative, reduce the rule whose
+    // number is the opposite.  If YYTABLE_NINF, syntax error.
+    static const short yytable_[];
 
-  // YYR2[YYN] -- Number of symbols on the right hand side of rule YYN.
-  static const unsigned char yyr2_[];
+    static const short yycheck_[];
 
+    // YYSTOS[STATE-NUM] -- The symbol kind of the accessing symbol of
+    // state STATE-NUM.
+    static const short yystos_[];
 
-    /// Convert the symbol name \a n to a form suitable for a diagnostic.
-    static std::string yytnamerr_ (const char *n);
+    // YYR1[RULE-NUM] -- Symbol kind of the left-hand side of rule RULE-NUM.
+    static const short yyr1_[];
+
+    // YYR2[RULE-NUM] -- Number of symbols on the right-hand side of rule RULE-NUM.
+    static const signed char yyr2_[];
 
 
-    /// For a symbol, its name in clear.
-    static const char* const yytname_[];
 #if YYDEBUG
-  // YYRLINE[YYN] -- Source line where rule number YYN was defined.
-  static const unsigned short yyrline_[];
+    // YYRLINE[YYN] -- Source line where rule number YYN was defined.
+    static const short yyrline_[];
     /// Report on the debug stream that the rule \a r is going to be reduced.
-    virtual void yy_reduce_print_ (int r);
+    virtual void yy_reduce_print_ (int r) const;
     /// Print the state stack on the debug stream.
-    virtual void yystack_print_ ();
+    virtual void yy_stack_print_ () const;
 
     /// Debugging level.
     int yydebug_;
     /// Debug stream.
     std::ostream* yycdebug_;
 
-    /// \brief Display a symbol type, value and location.
+    /// \brief Display a symbol kind, value and location.
     /// \param yyo    The output stream.
     /// \param yysym  The symbol.
     template <typename Base>
@@ -4815,7 +5716,7 @@ switch (yytype)
       /// Default constructor.
       by_state () YY_NOEXCEPT;
 
-      /// The symbol type as needed by the constructor.
+      /// The symbol kind as needed by the constructor.
       typedef state_type kind_type;
 
       /// Constructor.
@@ -4827,15 +5728,16 @@ switch (yytype)
       /// Record that this symbol is empty.
       void clear () YY_NOEXCEPT;
 
-      /// Steal the symbol type from \a that.
+      /// Steal the symbol kind from \a that.
       void move (by_state& that);
 
-      /// The (internal) type number (corresponding to \a state).
-      /// \a empty_symbol when empty.
-      symbol_number_type type_get () const YY_NOEXCEPT;
+      /// The symbol kind (corresponding to \a state).
+      /// \a symbol_kind::S_YYEMPTY when empty.
+      symbol_kind_type kind () const YY_NOEXCEPT;
 
       /// The state number used to denote an empty symbol.
-      enum { empty_state = -1 };
+      /// We use the initial state, as it does not have a value.
+      enum { empty_state = 0 };
 
       /// The state.
       /// \a empty when empty.
@@ -4857,6 +5759,10 @@ switch (yytype)
       /// Assignment, needed by push_back by some old implementations.
       /// Moves the contents of that.
       stack_symbol_type& operator= (stack_symbol_type& that);
+
+      /// Assignment, needed by push_back by other implementations.
+      /// Needed by some other old implementations.
+      stack_symbol_type& operator= (const stack_symbol_type& that);
 #endif
     };
 
@@ -4866,48 +5772,38 @@ switch (yytype)
     {
     public:
       // Hide our reversed order.
-      typedef typename S::reverse_iterator iterator;
-      typedef typename S::const_reverse_iterator const_iterator;
+      typedef typename S::iterator iterator;
+      typedef typename S::const_iterator const_iterator;
       typedef typename S::size_type size_type;
+      typedef typename std::ptrdiff_t index_type;
 
-      stack (size_type n = 200)
+      stack (size_type n = 200) YY_NOEXCEPT
         : seq_ (n)
       {}
 
-      /// Random access.
-      ///
-      /// Index 0 returns the topmost element.
-      T&
-      operator[] (size_type i)
-      {
-        return seq_[size () - 1 - i];
-      }
-
-      /// Random access.
-      ///
-      /// Index 0 returns the topmost element.
-      T&
-      operator[] (int i)
-      {
-        return operator[] (size_type (i));
-      }
+#if 201103L <= YY_CPLUSPLUS
+      /// Non copyable.
+      stack (const stack&) = delete;
+      /// Non copyable.
+      stack& operator= (const stack&) = delete;
+#endif
 
       /// Random access.
       ///
       /// Index 0 returns the topmost element.
       const T&
-      operator[] (size_type i) const
+      operator[] (index_type i) const
       {
-        return seq_[size () - 1 - i];
+        return seq_[size_type (size () - 1 - i)];
       }
 
       /// Random access.
       ///
       /// Index 0 returns the topmost element.
-      const T&
-      operator[] (int i) const
+      T&
+      operator[] (index_type i)
       {
-        return operator[] (size_type (i));
+        return seq_[size_type (size () - 1 - i)];
       }
 
       /// Steal the contents of \a t.
@@ -4922,7 +5818,7 @@ switch (yytype)
 
       /// Pop elements from the stack.
       void
-      pop (int n = 1) YY_NOEXCEPT
+      pop (std::ptrdiff_t n = 1) YY_NOEXCEPT
       {
         for (; 0 < n; --n)
           seq_.pop_back ();
@@ -4936,49 +5832,53 @@ switch (yytype)
       }
 
       /// Number of elements on the stack.
-      size_type
+      index_type
       size () const YY_NOEXCEPT
       {
-        return seq_.size ();
+        return index_type (seq_.size ());
       }
 
       /// Iterator on top of the stack (going downwards).
       const_iterator
       begin () const YY_NOEXCEPT
       {
-        return seq_.rbegin ();
+        return seq_.begin ();
       }
 
       /// Bottom of the stack.
       const_iterator
       end () const YY_NOEXCEPT
       {
-        return seq_.rend ();
+        return seq_.end ();
       }
 
       /// Present a slice of the top of a stack.
       class slice
       {
       public:
-        slice (const stack& stack, int range)
+        slice (const stack& stack, index_type range) YY_NOEXCEPT
           : stack_ (stack)
           , range_ (range)
         {}
 
         const T&
-        operator[] (int i) const
+        operator[] (index_type i) const
         {
           return stack_[range_ - i];
         }
 
       private:
         const stack& stack_;
-        int range_;
+        index_type range_;
       };
 
     private:
+#if YY_CPLUSPLUS < 201103L
+      /// Non copyable.
       stack (const stack&);
+      /// Non copyable.
       stack& operator= (const stack&);
+#endif
       /// The wrapped container.
       S seq_;
     };
@@ -5006,32 +5906,29 @@ switch (yytype)
     void yypush_ (const char* m, state_type s, YY_MOVE_REF (symbol_type) sym);
 
     /// Pop \a n symbols from the stack.
-    void yypop_ (int n = 1);
+    void yypop_ (int n = 1) YY_NOEXCEPT;
 
     /// Constants.
     enum
     {
-      yyeof_ = 0,
       yylast_ = 5042,     ///< Last index in yytable_.
       yynnts_ = 225,  ///< Number of nonterminal symbols.
-      yyfinal_ = 6, ///< Termination state number.
-      yyterror_ = 1,
-      yyerrcode_ = 256,
-      yyntokens_ = 153  ///< Number of tokens.
+      yyfinal_ = 6 ///< Termination state number.
     };
 
 
     // User arguments.
     Context& context_;
+
   };
 
-  asn1_parser::token_number_type
-  asn1_parser::yytranslate_ (token_type t)
+  asn1_parser::symbol_kind_type
+  asn1_parser::yytranslate_ (int t) YY_NOEXCEPT
   {
     // YYTRANSLATE[TOKEN-NUM] -- Symbol number corresponding to
     // TOKEN-NUM as returned by yylex.
     static
-    const token_number_type
+    const unsigned char
     translate_table[] =
     {
        0,     2,     2,     2,     2,     2,     2,     2,     2,     2,
@@ -5076,689 +5973,348 @@ switch (yytype)
      135,   136,   137,   138,   139,   140,   141,   142,   143,   144,
      145,   146,   147,   148,   149,   150,   151,   152
     };
-    const unsigned user_token_number_max_ = 407;
-    const token_number_type undef_token_ = 2;
+    // Last valid token kind.
+    const int code_max = 407;
 
-    if (static_cast<int> (t) <= yyeof_)
-      return yyeof_;
-    else if (static_cast<unsigned> (t) <= user_token_number_max_)
-      return translate_table[t];
+    if (t <= 0)
+      return symbol_kind::S_YYEOF;
+    else if (t <= code_max)
+      return static_cast <symbol_kind_type> (translate_table[t]);
     else
-      return undef_token_;
+      return symbol_kind::S_YYUNDEF;
   }
 
   // basic_symbol.
-#if 201103L <= YY_CPLUSPLUS
   template <typename Base>
-  asn1_parser::basic_symbol<Base>::basic_symbol (basic_symbol&& that)
-    : Base (std::move (that))
+  asn1_parser::basic_symbol<Base>::basic_symbol (const basic_symbol& that)
+    : Base (that)
     , value ()
-    , location (std::move (that.location))
+    , location (that.location)
   {
-    switch (this->type_get ())
+    switch (this->kind ())
     {
-      case 160: // ObjectClassAssignment
-      case 199: // ObjectSetAssignment
-      case 203: // ParameterizedAssignment
-      case 204: // ParameterizedTypeAssignment
-      case 205: // ParameterizedValueAssignment
-      case 206: // ParameterizedValueSetTypeAssignment
-      case 207: // ParameterizedObjectClassAssignment
-      case 251: // Assignment
-      case 260: // TypeAssignment
-      case 261: // ValueAssignment
-      case 262: // ValueSetTypeAssignment
-        value.move< Assignment > (std::move (that.value));
+      case symbol_kind::S_ObjectClassAssignment: // ObjectClassAssignment
+      case symbol_kind::S_ObjectSetAssignment: // ObjectSetAssignment
+      case symbol_kind::S_ParameterizedAssignment: // ParameterizedAssignment
+      case symbol_kind::S_ParameterizedTypeAssignment: // ParameterizedTypeAssignment
+      case symbol_kind::S_ParameterizedValueAssignment: // ParameterizedValueAssignment
+      case symbol_kind::S_ParameterizedValueSetTypeAssignment: // ParameterizedValueSetTypeAssignment
+      case symbol_kind::S_ParameterizedObjectClassAssignment: // ParameterizedObjectClassAssignment
+      case symbol_kind::S_Assignment: // Assignment
+      case symbol_kind::S_TypeAssignment: // TypeAssignment
+      case symbol_kind::S_ValueAssignment: // ValueAssignment
+      case symbol_kind::S_ValueSetTypeAssignment: // ValueSetTypeAssignment
+        value.copy< Assignment > (YY_MOVE (that.value));
         break;
 
-      case 283: // BitStringType
-        value.move< BitStringType > (std::move (that.value));
+      case symbol_kind::S_BitStringType: // BitStringType
+        value.copy< BitStringType > (YY_MOVE (that.value));
         break;
 
-      case 272: // BooleanType
-        value.move< BooleanType > (std::move (that.value));
+      case symbol_kind::S_BooleanType: // BooleanType
+        value.copy< BooleanType > (YY_MOVE (that.value));
         break;
 
-      case 273: // BooleanValue
-        value.move< BooleanValue > (std::move (that.value));
+      case symbol_kind::S_BooleanValue: // BooleanValue
+        value.copy< BooleanValue > (YY_MOVE (that.value));
         break;
 
-      case 264: // BuiltinType
-        value.move< BuiltinType > (std::move (that.value));
+      case symbol_kind::S_BuiltinType: // BuiltinType
+        value.copy< BuiltinType > (YY_MOVE (that.value));
         break;
 
-      case 328: // CharacterStringType
-      case 329: // RestrictedCharacterStringType
-      case 330: // UnrestrictedCharacterStringType
-        value.move< CharacterStringType > (std::move (that.value));
+      case symbol_kind::S_CharacterStringType: // CharacterStringType
+      case symbol_kind::S_RestrictedCharacterStringType: // RestrictedCharacterStringType
+      case symbol_kind::S_UnrestrictedCharacterStringType: // UnrestrictedCharacterStringType
+        value.copy< CharacterStringType > (YY_MOVE (that.value));
         break;
 
-      case 295: // ChoiceType
-        value.move< ChoiceType > (std::move (that.value));
+      case symbol_kind::S_ChoiceType: // ChoiceType
+        value.copy< ChoiceType > (YY_MOVE (that.value));
         break;
 
-      case 305: // Class
-        value.move< Class > (std::move (that.value));
+      case symbol_kind::S_Class: // Class
+        value.copy< Class > (YY_MOVE (that.value));
         break;
 
-      case 289: // ComponentTypeLists
-        value.move< Collection > (std::move (that.value));
+      case symbol_kind::S_ComponentTypeLists: // ComponentTypeLists
+        value.copy< Collection > (YY_MOVE (that.value));
         break;
 
-      case 291: // ComponentType
-        value.move< ComponentType > (std::move (that.value));
+      case symbol_kind::S_ComponentType: // ComponentType
+        value.copy< ComponentType > (YY_MOVE (that.value));
         break;
 
-      case 290: // ComponentTypeList
-        value.move< ComponentTypeList > (std::move (that.value));
+      case symbol_kind::S_ComponentTypeList: // ComponentTypeList
+        value.copy< ComponentTypeList > (YY_MOVE (that.value));
         break;
 
-      case 326: // DateTimeType
-        value.move< DateTimeType > (std::move (that.value));
+      case symbol_kind::S_DateTimeType: // DateTimeType
+        value.copy< DateTimeType > (YY_MOVE (that.value));
         break;
 
-      case 324: // DateType
-        value.move< DateType > (std::move (that.value));
+      case symbol_kind::S_DateType: // DateType
+        value.copy< DateType > (YY_MOVE (that.value));
         break;
 
-      case 252: // DefinedType
-      case 254: // ParameterizedType
-      case 258: // ExternalTypeReference
-        value.move< DefinedType > (std::move (that.value));
+      case symbol_kind::S_DefinedType: // DefinedType
+      case symbol_kind::S_ParameterizedType: // ParameterizedType
+      case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
+        value.copy< DefinedType > (YY_MOVE (that.value));
         break;
 
-      case 253: // DefinedValue
-        value.move< DefinedValue > (std::move (that.value));
+      case symbol_kind::S_DefinedValue: // DefinedValue
+        value.copy< DefinedValue > (YY_MOVE (that.value));
         break;
 
-      case 327: // DurationType
-        value.move< DurationType > (std::move (that.value));
+      case symbol_kind::S_DurationType: // DurationType
+        value.copy< DurationType > (YY_MOVE (that.value));
         break;
 
-      case 320: // EmbeddedPDVType
-        value.move< EmbeddedPDVType > (std::move (that.value));
+      case symbol_kind::S_EmbeddedPDVType: // EmbeddedPDVType
+        value.copy< EmbeddedPDVType > (YY_MOVE (that.value));
         break;
 
-      case 278: // EnumeratedType
-      case 279: // Enumerations
-      case 280: // Enumeration
-        value.move< EnumeratedType > (std::move (that.value));
+      case symbol_kind::S_EnumeratedType: // EnumeratedType
+      case symbol_kind::S_Enumerations: // Enumerations
+      case symbol_kind::S_Enumeration: // Enumeration
+        value.copy< EnumeratedType > (YY_MOVE (that.value));
         break;
 
-      case 281: // EnumerationItem
-        value.move< EnumerationValue > (std::move (that.value));
+      case symbol_kind::S_EnumerationItem: // EnumerationItem
+        value.copy< EnumerationValue > (YY_MOVE (that.value));
         break;
 
-      case 321: // ExternalType
-        value.move< ExternalType > (std::move (that.value));
+      case symbol_kind::S_ExternalType: // ExternalType
+        value.copy< ExternalType > (YY_MOVE (that.value));
         break;
 
-      case 314: // IRIType
-        value.move< IRIType > (std::move (that.value));
+      case symbol_kind::S_IRIType: // IRIType
+        value.copy< IRIType > (YY_MOVE (that.value));
         break;
 
-      case 245: // SymbolsFromModule
-        value.move< Import > (std::move (that.value));
+      case symbol_kind::S_SymbolsFromModule: // SymbolsFromModule
+        value.copy< Import > (YY_MOVE (that.value));
         break;
 
-      case 215: // InstanceOfType
-        value.move< InstanceOfType > (std::move (that.value));
+      case symbol_kind::S_InstanceOfType: // InstanceOfType
+        value.copy< InstanceOfType > (YY_MOVE (that.value));
         break;
 
-      case 274: // IntegerType
-        value.move< IntegerType > (std::move (that.value));
+      case symbol_kind::S_IntegerType: // IntegerType
+        value.copy< IntegerType > (YY_MOVE (that.value));
         break;
 
-      case 239: // ModuleBody
-        value.move< Module > (std::move (that.value));
+      case symbol_kind::S_ModuleBody: // ModuleBody
+        value.copy< Module > (YY_MOVE (that.value));
         break;
 
-      case 276: // NamedNumber
-        value.move< NamedNumber > (std::move (that.value));
+      case symbol_kind::S_NamedNumber: // NamedNumber
+        value.copy< NamedNumber > (YY_MOVE (that.value));
         break;
 
-      case 265: // NamedType
-        value.move< NamedType > (std::move (that.value));
+      case symbol_kind::S_NamedType: // NamedType
+        value.copy< NamedType > (YY_MOVE (that.value));
         break;
 
-      case 287: // NullType
-        value.move< NullType > (std::move (that.value));
+      case symbol_kind::S_NullType: // NullType
+        value.copy< NullType > (YY_MOVE (that.value));
         break;
 
-      case 161: // ObjectClass
-      case 162: // ObjectClassDefn
-        value.move< ObjectClassAssignment > (std::move (that.value));
+      case symbol_kind::S_ObjectClass: // ObjectClass
+      case symbol_kind::S_ObjectClassDefn: // ObjectClassDefn
+        value.copy< ObjectClassAssignment > (YY_MOVE (that.value));
         break;
 
-      case 202: // ObjectClassFieldType
-        value.move< ObjectClassFieldType > (std::move (that.value));
+      case symbol_kind::S_ObjectClassFieldType: // ObjectClassFieldType
+        value.copy< ObjectClassFieldType > (YY_MOVE (that.value));
         break;
 
-      case 309: // ObjIdComponents
-      case 310: // NameForm
-      case 311: // NumberForm
-      case 312: // NameAndNumberForm
-        value.move< ObjectIdComponentValue > (std::move (that.value));
+      case symbol_kind::S_ObjIdComponents: // ObjIdComponents
+      case symbol_kind::S_NameForm: // NameForm
+      case symbol_kind::S_NumberForm: // NumberForm
+      case symbol_kind::S_NameAndNumberForm: // NameAndNumberForm
+        value.copy< ObjectIdComponentValue > (YY_MOVE (that.value));
         break;
 
-      case 306: // ObjectIdentifierType
-        value.move< ObjectIdentifierType > (std::move (that.value));
+      case symbol_kind::S_ObjectIdentifierType: // ObjectIdentifierType
+        value.copy< ObjectIdentifierType > (YY_MOVE (that.value));
         break;
 
-      case 286: // OctetStringType
-        value.move< OctetStringType > (std::move (that.value));
+      case symbol_kind::S_OctetStringType: // OctetStringType
+        value.copy< OctetStringType > (YY_MOVE (that.value));
         break;
 
-      case 210: // Parameter
-        value.move< Parameter > (std::move (that.value));
+      case symbol_kind::S_Parameter: // Parameter
+        value.copy< Parameter > (YY_MOVE (that.value));
         break;
 
-      case 300: // PrefixedType
-        value.move< PrefixedType > (std::move (that.value));
+      case symbol_kind::S_PrefixedType: // PrefixedType
+        value.copy< PrefixedType > (YY_MOVE (that.value));
         break;
 
-      case 282: // RealType
-        value.move< RealType > (std::move (that.value));
+      case symbol_kind::S_RealType: // RealType
+        value.copy< RealType > (YY_MOVE (that.value));
         break;
 
-      case 319: // RelativeIRIType
-        value.move< RelativeIRIType > (std::move (that.value));
+      case symbol_kind::S_RelativeIRIType: // RelativeIRIType
+        value.copy< RelativeIRIType > (YY_MOVE (that.value));
         break;
 
-      case 313: // RelativeOIDType
-        value.move< RelativeOIDType > (std::move (that.value));
+      case symbol_kind::S_RelativeOIDType: // RelativeOIDType
+        value.copy< RelativeOIDType > (YY_MOVE (that.value));
         break;
 
-      case 292: // SequenceOfType
-        value.move< SequenceOfType > (std::move (that.value));
+      case symbol_kind::S_SequenceOfType: // SequenceOfType
+        value.copy< SequenceOfType > (YY_MOVE (that.value));
         break;
 
-      case 288: // SequenceType
-        value.move< SequenceType > (std::move (that.value));
+      case symbol_kind::S_SequenceType: // SequenceType
+        value.copy< SequenceType > (YY_MOVE (that.value));
         break;
 
-      case 294: // SetOfType
-        value.move< SetOfType > (std::move (that.value));
+      case symbol_kind::S_SetOfType: // SetOfType
+        value.copy< SetOfType > (YY_MOVE (that.value));
         break;
 
-      case 293: // SetType
-        value.move< SetType > (std::move (that.value));
+      case symbol_kind::S_SetType: // SetType
+        value.copy< SetType > (YY_MOVE (that.value));
         break;
 
-      case 302: // Tag
-        value.move< Tag > (std::move (that.value));
+      case symbol_kind::S_Tag: // Tag
+        value.copy< Tag > (YY_MOVE (that.value));
         break;
 
-      case 301: // TaggedType
-        value.move< TaggedType > (std::move (that.value));
+      case symbol_kind::S_TaggedType: // TaggedType
+        value.copy< TaggedType > (YY_MOVE (that.value));
         break;
 
-      case 237: // TagDefault
-        value.move< TaggingMode > (std::move (that.value));
+      case symbol_kind::S_TagDefault: // TagDefault
+        value.copy< TaggingMode > (YY_MOVE (that.value));
         break;
 
-      case 325: // TimeOfDayType
-        value.move< TimeOfDayType > (std::move (that.value));
+      case symbol_kind::S_TimeOfDayType: // TimeOfDayType
+        value.copy< TimeOfDayType > (YY_MOVE (that.value));
         break;
 
-      case 322: // TimeType
-        value.move< TimeType > (std::move (that.value));
+      case symbol_kind::S_TimeType: // TimeType
+        value.copy< TimeType > (YY_MOVE (that.value));
         break;
 
-      case 323: // TimeValue
-        value.move< TimeValue > (std::move (that.value));
+      case symbol_kind::S_TimeValue: // TimeValue
+        value.copy< TimeValue > (YY_MOVE (that.value));
         break;
 
-      case 211: // ParamGovernor
-      case 212: // Governor
-      case 257: // ActualParameter
-      case 263: // Type
-      case 331: // ConstrainedType
-      case 332: // TypeWithConstraint
-        value.move< Type > (std::move (that.value));
-        break;
-
-      case 266: // ValueWithoutTypeIdentifier
-      case 267: // Value
-      case 349: // SingleValue
-        value.move< Value > (std::move (that.value));
-        break;
-
-      case 6: // realnumber
-        value.move< double > (std::move (that.value));
-        break;
-
-      case 304: // ClassNumber
-        value.move< int > (std::move (that.value));
-        break;
-
-      case 4: // number
-      case 5: // negativenumber
-      case 277: // SignedNumber
-        value.move< int64_t > (std::move (that.value));
-        break;
-
-      case 7: // bstring
-      case 8: // xmlbstring
-      case 9: // hstring
-      case 10: // xmlhstring
-      case 11: // cstring
-      case 12: // xmlcstring
-      case 13: // simplestring
-      case 14: // xmltstring
-      case 22: // objectreference
-      case 24: // typefieldreference
-      case 25: // valuefieldreference
-      case 149: // GENERIC_IDENTIFIER_UPPERCASE
-      case 150: // GENERIC_IDENTIFIER_LOWERCASE
-      case 159: // UsefulObjectClassReference
-      case 165: // FieldName
-      case 216: // SimpleDefinedType
-      case 228: // ModuleIdentifier
-      case 246: // GlobalModuleReference
-      case 248: // Symbol
-      case 249: // Reference
-      case 372: // typereference
-      case 373: // identifier
-      case 374: // valuereference
-      case 375: // modulereference
-      case 376: // objectclassreference
-      case 377: // word
-        value.move< std::string > (std::move (that.value));
-        break;
-
-      case 250: // AssignmentList
-        value.move< std::vector<Assignment> > (std::move (that.value));
-        break;
-
-      case 163: // FieldSpecList
-      case 164: // FieldSpec
-      case 167: // TypeFieldSpec
-      case 171: // FixedTypeValueFieldSpec
-        value.move< std::vector<ClassField> > (std::move (that.value));
-        break;
-
-      case 240: // Exports
-        value.move< std::vector<Export> > (std::move (that.value));
-        break;
-
-      case 242: // Imports
-      case 243: // SymbolsImported
-      case 244: // SymbolsFromModuleList
-        value.move< std::vector<Import> > (std::move (that.value));
-        break;
-
-      case 275: // NamedNumberList
-        value.move< std::vector<NamedNumber> > (std::move (that.value));
-        break;
-
-      case 296: // AlternativeTypeLists
-      case 297: // RootAlternativeTypeList
-      case 298: // AlternativeTypeList
-        value.move< std::vector<NamedType> > (std::move (that.value));
-        break;
-
-      case 307: // ObjectIdentifierValue
-      case 308: // ObjIdComponentsList
-        value.move< std::vector<ObjectIdComponentValue> > (std::move (that.value));
-        break;
-
-      case 208: // ParameterList
-      case 209: // ParameterSeries
-        value.move< std::vector<Parameter> > (std::move (that.value));
-        break;
-
-      case 256: // ActualParameterList
-        value.move< std::vector<Type> > (std::move (that.value));
-        break;
-
-      case 271: // SequenceOfValues
-        value.move< std::vector<Value> > (std::move (that.value));
-        break;
-
-      case 166: // FieldNameList
-      case 168: // OneOrManyTypeFieldReference
-      case 247: // SymbolList
-        value.move< std::vector<std::string> > (std::move (that.value));
-        break;
-
-      default:
-        break;
-    }
-
-  }
-#endif
-
-  template <typename Base>
-  asn1_parser::basic_symbol<Base>::basic_symbol (const basic_symbol& that)
-    : Base (that)
-    , value ()
-    , location (that.location)
-  {
-    switch (this->type_get ())
-    {
-      case 160: // ObjectClassAssignment
-      case 199: // ObjectSetAssignment
-      case 203: // ParameterizedAssignment
-      case 204: // ParameterizedTypeAssignment
-      case 205: // ParameterizedValueAssignment
-      case 206: // ParameterizedValueSetTypeAssignment
-      case 207: // ParameterizedObjectClassAssignment
-      case 251: // Assignment
-      case 260: // TypeAssignment
-      case 261: // ValueAssignment
-      case 262: // ValueSetTypeAssignment
-        value.copy< Assignment > (YY_MOVE (that.value));
-        break;
-
-      case 283: // BitStringType
-        value.copy< BitStringType > (YY_MOVE (that.value));
-        break;
-
-      case 272: // BooleanType
-        value.copy< BooleanType > (YY_MOVE (that.value));
-        break;
-
-      case 273: // BooleanValue
-        value.copy< BooleanValue > (YY_MOVE (that.value));
-        break;
-
-      case 264: // BuiltinType
-        value.copy< BuiltinType > (YY_MOVE (that.value));
-        break;
-
-      case 328: // CharacterStringType
-      case 329: // RestrictedCharacterStringType
-      case 330: // UnrestrictedCharacterStringType
-        value.copy< CharacterStringType > (YY_MOVE (that.value));
-        break;
-
-      case 295: // ChoiceType
-        value.copy< ChoiceType > (YY_MOVE (that.value));
-        break;
-
-      case 305: // Class
-        value.copy< Class > (YY_MOVE (that.value));
-        break;
-
-      case 289: // ComponentTypeLists
-        value.copy< Collection > (YY_MOVE (that.value));
-        break;
-
-      case 291: // ComponentType
-        value.copy< ComponentType > (YY_MOVE (that.value));
-        break;
-
-      case 290: // ComponentTypeList
-        value.copy< ComponentTypeList > (YY_MOVE (that.value));
-        break;
-
-      case 326: // DateTimeType
-        value.copy< DateTimeType > (YY_MOVE (that.value));
-        break;
-
-      case 324: // DateType
-        value.copy< DateType > (YY_MOVE (that.value));
-        break;
-
-      case 252: // DefinedType
-      case 254: // ParameterizedType
-      case 258: // ExternalTypeReference
-        value.copy< DefinedType > (YY_MOVE (that.value));
-        break;
-
-      case 253: // DefinedValue
-        value.copy< DefinedValue > (YY_MOVE (that.value));
-        break;
-
-      case 327: // DurationType
-        value.copy< DurationType > (YY_MOVE (that.value));
-        break;
-
-      case 320: // EmbeddedPDVType
-        value.copy< EmbeddedPDVType > (YY_MOVE (that.value));
-        break;
-
-      case 278: // EnumeratedType
-      case 279: // Enumerations
-      case 280: // Enumeration
-        value.copy< EnumeratedType > (YY_MOVE (that.value));
-        break;
-
-      case 281: // EnumerationItem
-        value.copy< EnumerationValue > (YY_MOVE (that.value));
-        break;
-
-      case 321: // ExternalType
-        value.copy< ExternalType > (YY_MOVE (that.value));
-        break;
-
-      case 314: // IRIType
-        value.copy< IRIType > (YY_MOVE (that.value));
-        break;
-
-      case 245: // SymbolsFromModule
-        value.copy< Import > (YY_MOVE (that.value));
-        break;
-
-      case 215: // InstanceOfType
-        value.copy< InstanceOfType > (YY_MOVE (that.value));
-        break;
-
-      case 274: // IntegerType
-        value.copy< IntegerType > (YY_MOVE (that.value));
-        break;
-
-      case 239: // ModuleBody
-        value.copy< Module > (YY_MOVE (that.value));
-        break;
-
-      case 276: // NamedNumber
-        value.copy< NamedNumber > (YY_MOVE (that.value));
-        break;
-
-      case 265: // NamedType
-        value.copy< NamedType > (YY_MOVE (that.value));
-        break;
-
-      case 287: // NullType
-        value.copy< NullType > (YY_MOVE (that.value));
-        break;
-
-      case 161: // ObjectClass
-      case 162: // ObjectClassDefn
-        value.copy< ObjectClassAssignment > (YY_MOVE (that.value));
-        break;
-
-      case 202: // ObjectClassFieldType
-        value.copy< ObjectClassFieldType > (YY_MOVE (that.value));
-        break;
-
-      case 309: // ObjIdComponents
-      case 310: // NameForm
-      case 311: // NumberForm
-      case 312: // NameAndNumberForm
-        value.copy< ObjectIdComponentValue > (YY_MOVE (that.value));
-        break;
-
-      case 306: // ObjectIdentifierType
-        value.copy< ObjectIdentifierType > (YY_MOVE (that.value));
-        break;
-
-      case 286: // OctetStringType
-        value.copy< OctetStringType > (YY_MOVE (that.value));
-        break;
-
-      case 210: // Parameter
-        value.copy< Parameter > (YY_MOVE (that.value));
-        break;
-
-      case 300: // PrefixedType
-        value.copy< PrefixedType > (YY_MOVE (that.value));
-        break;
-
-      case 282: // RealType
-        value.copy< RealType > (YY_MOVE (that.value));
-        break;
-
-      case 319: // RelativeIRIType
-        value.copy< RelativeIRIType > (YY_MOVE (that.value));
-        break;
-
-      case 313: // RelativeOIDType
-        value.copy< RelativeOIDType > (YY_MOVE (that.value));
-        break;
-
-      case 292: // SequenceOfType
-        value.copy< SequenceOfType > (YY_MOVE (that.value));
-        break;
-
-      case 288: // SequenceType
-        value.copy< SequenceType > (YY_MOVE (that.value));
-        break;
-
-      case 294: // SetOfType
-        value.copy< SetOfType > (YY_MOVE (that.value));
-        break;
-
-      case 293: // SetType
-        value.copy< SetType > (YY_MOVE (that.value));
-        break;
-
-      case 302: // Tag
-        value.copy< Tag > (YY_MOVE (that.value));
-        break;
-
-      case 301: // TaggedType
-        value.copy< TaggedType > (YY_MOVE (that.value));
-        break;
-
-      case 237: // TagDefault
-        value.copy< TaggingMode > (YY_MOVE (that.value));
-        break;
-
-      case 325: // TimeOfDayType
-        value.copy< TimeOfDayType > (YY_MOVE (that.value));
-        break;
-
-      case 322: // TimeType
-        value.copy< TimeType > (YY_MOVE (that.value));
-        break;
-
-      case 323: // TimeValue
-        value.copy< TimeValue > (YY_MOVE (that.value));
-        break;
-
-      case 211: // ParamGovernor
-      case 212: // Governor
-      case 257: // ActualParameter
-      case 263: // Type
-      case 331: // ConstrainedType
-      case 332: // TypeWithConstraint
+      case symbol_kind::S_ParamGovernor: // ParamGovernor
+      case symbol_kind::S_Governor: // Governor
+      case symbol_kind::S_ActualParameter: // ActualParameter
+      case symbol_kind::S_Type: // Type
+      case symbol_kind::S_ConstrainedType: // ConstrainedType
+      case symbol_kind::S_TypeWithConstraint: // TypeWithConstraint
         value.copy< Type > (YY_MOVE (that.value));
         break;
 
-      case 266: // ValueWithoutTypeIdentifier
-      case 267: // Value
-      case 349: // SingleValue
+      case symbol_kind::S_ValueWithoutTypeIdentifier: // ValueWithoutTypeIdentifier
+      case symbol_kind::S_Value: // Value
+      case symbol_kind::S_SingleValue: // SingleValue
         value.copy< Value > (YY_MOVE (that.value));
         break;
 
-      case 6: // realnumber
+      case symbol_kind::S_realnumber: // realnumber
         value.copy< double > (YY_MOVE (that.value));
         break;
 
-      case 304: // ClassNumber
+      case symbol_kind::S_ClassNumber: // ClassNumber
         value.copy< int > (YY_MOVE (that.value));
         break;
 
-      case 4: // number
-      case 5: // negativenumber
-      case 277: // SignedNumber
+      case symbol_kind::S_number: // number
+      case symbol_kind::S_negativenumber: // negativenumber
+      case symbol_kind::S_SignedNumber: // SignedNumber
         value.copy< int64_t > (YY_MOVE (that.value));
         break;
 
-      case 7: // bstring
-      case 8: // xmlbstring
-      case 9: // hstring
-      case 10: // xmlhstring
-      case 11: // cstring
-      case 12: // xmlcstring
-      case 13: // simplestring
-      case 14: // xmltstring
-      case 22: // objectreference
-      case 24: // typefieldreference
-      case 25: // valuefieldreference
-      case 149: // GENERIC_IDENTIFIER_UPPERCASE
-      case 150: // GENERIC_IDENTIFIER_LOWERCASE
-      case 159: // UsefulObjectClassReference
-      case 165: // FieldName
-      case 216: // SimpleDefinedType
-      case 228: // ModuleIdentifier
-      case 246: // GlobalModuleReference
-      case 248: // Symbol
-      case 249: // Reference
-      case 372: // typereference
-      case 373: // identifier
-      case 374: // valuereference
-      case 375: // modulereference
-      case 376: // objectclassreference
-      case 377: // word
+      case symbol_kind::S_bstring: // bstring
+      case symbol_kind::S_xmlbstring: // xmlbstring
+      case symbol_kind::S_hstring: // hstring
+      case symbol_kind::S_xmlhstring: // xmlhstring
+      case symbol_kind::S_cstring: // cstring
+      case symbol_kind::S_xmlcstring: // xmlcstring
+      case symbol_kind::S_simplestring: // simplestring
+      case symbol_kind::S_xmltstring: // xmltstring
+      case symbol_kind::S_objectreference: // objectreference
+      case symbol_kind::S_typefieldreference: // typefieldreference
+      case symbol_kind::S_valuefieldreference: // valuefieldreference
+      case symbol_kind::S_GENERIC_IDENTIFIER_UPPERCASE: // GENERIC_IDENTIFIER_UPPERCASE
+      case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
+      case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
+      case symbol_kind::S_FieldName: // FieldName
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
+      case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
+      case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
+      case symbol_kind::S_Symbol: // Symbol
+      case symbol_kind::S_Reference: // Reference
+      case symbol_kind::S_typereference: // typereference
+      case symbol_kind::S_identifier: // identifier
+      case symbol_kind::S_valuereference: // valuereference
+      case symbol_kind::S_modulereference: // modulereference
+      case symbol_kind::S_objectclassreference: // objectclassreference
+      case symbol_kind::S_word: // word
         value.copy< std::string > (YY_MOVE (that.value));
         break;
 
-      case 250: // AssignmentList
+      case symbol_kind::S_AssignmentList: // AssignmentList
         value.copy< std::vector<Assignment> > (YY_MOVE (that.value));
         break;
 
-      case 163: // FieldSpecList
-      case 164: // FieldSpec
-      case 167: // TypeFieldSpec
-      case 171: // FixedTypeValueFieldSpec
+      case symbol_kind::S_FieldSpecList: // FieldSpecList
+      case symbol_kind::S_FieldSpec: // FieldSpec
+      case symbol_kind::S_TypeFieldSpec: // TypeFieldSpec
+      case symbol_kind::S_FixedTypeValueFieldSpec: // FixedTypeValueFieldSpec
         value.copy< std::vector<ClassField> > (YY_MOVE (that.value));
         break;
 
-      case 240: // Exports
+      case symbol_kind::S_Exports: // Exports
         value.copy< std::vector<Export> > (YY_MOVE (that.value));
         break;
 
-      case 242: // Imports
-      case 243: // SymbolsImported
-      case 244: // SymbolsFromModuleList
+      case symbol_kind::S_Imports: // Imports
+      case symbol_kind::S_SymbolsImported: // SymbolsImported
+      case symbol_kind::S_SymbolsFromModuleList: // SymbolsFromModuleList
         value.copy< std::vector<Import> > (YY_MOVE (that.value));
         break;
 
-      case 275: // NamedNumberList
+      case symbol_kind::S_NamedNumberList: // NamedNumberList
         value.copy< std::vector<NamedNumber> > (YY_MOVE (that.value));
         break;
 
-      case 296: // AlternativeTypeLists
-      case 297: // RootAlternativeTypeList
-      case 298: // AlternativeTypeList
+      case symbol_kind::S_AlternativeTypeLists: // AlternativeTypeLists
+      case symbol_kind::S_RootAlternativeTypeList: // RootAlternativeTypeList
+      case symbol_kind::S_AlternativeTypeList: // AlternativeTypeList
         value.copy< std::vector<NamedType> > (YY_MOVE (that.value));
         break;
 
-      case 307: // ObjectIdentifierValue
-      case 308: // ObjIdComponentsList
+      case symbol_kind::S_ObjectIdentifierValue: // ObjectIdentifierValue
+      case symbol_kind::S_ObjIdComponentsList: // ObjIdComponentsList
         value.copy< std::vector<ObjectIdComponentValue> > (YY_MOVE (that.value));
         break;
 
-      case 208: // ParameterList
-      case 209: // ParameterSeries
+      case symbol_kind::S_ParameterList: // ParameterList
+      case symbol_kind::S_ParameterSeries: // ParameterSeries
         value.copy< std::vector<Parameter> > (YY_MOVE (that.value));
         break;
 
-      case 256: // ActualParameterList
+      case symbol_kind::S_ActualParameterList: // ActualParameterList
         value.copy< std::vector<Type> > (YY_MOVE (that.value));
         break;
 
-      case 271: // SequenceOfValues
+      case symbol_kind::S_SequenceOfValues: // SequenceOfValues
         value.copy< std::vector<Value> > (YY_MOVE (that.value));
         break;
 
-      case 166: // FieldNameList
-      case 168: // OneOrManyTypeFieldReference
-      case 247: // SymbolList
+      case symbol_kind::S_FieldNameList: // FieldNameList
+      case symbol_kind::S_OneOrManyTypeFieldReference: // OneOrManyTypeFieldReference
+      case symbol_kind::S_SymbolList: // SymbolList
         value.copy< std::vector<std::string> > (YY_MOVE (that.value));
         break;
 
@@ -5770,11 +6326,20 @@ switch (yytype)
 
 
 
+
+  template <typename Base>
+  asn1_parser::symbol_kind_type
+  asn1_parser::basic_symbol<Base>::type_get () const YY_NOEXCEPT
+  {
+    return this->kind ();
+  }
+
+
   template <typename Base>
   bool
   asn1_parser::basic_symbol<Base>::empty () const YY_NOEXCEPT
   {
-    return Base::type_get () == empty_symbol;
+    return this->kind () == symbol_kind::S_YYEMPTY;
   }
 
   template <typename Base>
@@ -5782,330 +6347,330 @@ switch (yytype)
   asn1_parser::basic_symbol<Base>::move (basic_symbol& s)
   {
     super_type::move (s);
-    switch (this->type_get ())
+    switch (this->kind ())
     {
-      case 160: // ObjectClassAssignment
-      case 199: // ObjectSetAssignment
-      case 203: // ParameterizedAssignment
-      case 204: // ParameterizedTypeAssignment
-      case 205: // ParameterizedValueAssignment
-      case 206: // ParameterizedValueSetTypeAssignment
-      case 207: // ParameterizedObjectClassAssignment
-      case 251: // Assignment
-      case 260: // TypeAssignment
-      case 261: // ValueAssignment
-      case 262: // ValueSetTypeAssignment
+      case symbol_kind::S_ObjectClassAssignment: // ObjectClassAssignment
+      case symbol_kind::S_ObjectSetAssignment: // ObjectSetAssignment
+      case symbol_kind::S_ParameterizedAssignment: // ParameterizedAssignment
+      case symbol_kind::S_ParameterizedTypeAssignment: // ParameterizedTypeAssignment
+      case symbol_kind::S_ParameterizedValueAssignment: // ParameterizedValueAssignment
+      case symbol_kind::S_ParameterizedValueSetTypeAssignment: // ParameterizedValueSetTypeAssignment
+      case symbol_kind::S_ParameterizedObjectClassAssignment: // ParameterizedObjectClassAssignment
+      case symbol_kind::S_Assignment: // Assignment
+      case symbol_kind::S_TypeAssignment: // TypeAssignment
+      case symbol_kind::S_ValueAssignment: // ValueAssignment
+      case symbol_kind::S_ValueSetTypeAssignment: // ValueSetTypeAssignment
         value.move< Assignment > (YY_MOVE (s.value));
         break;
 
-      case 283: // BitStringType
+      case symbol_kind::S_BitStringType: // BitStringType
         value.move< BitStringType > (YY_MOVE (s.value));
         break;
 
-      case 272: // BooleanType
+      case symbol_kind::S_BooleanType: // BooleanType
         value.move< BooleanType > (YY_MOVE (s.value));
         break;
 
-      case 273: // BooleanValue
+      case symbol_kind::S_BooleanValue: // BooleanValue
         value.move< BooleanValue > (YY_MOVE (s.value));
         break;
 
-      case 264: // BuiltinType
+      case symbol_kind::S_BuiltinType: // BuiltinType
         value.move< BuiltinType > (YY_MOVE (s.value));
         break;
 
-      case 328: // CharacterStringType
-      case 329: // RestrictedCharacterStringType
-      case 330: // UnrestrictedCharacterStringType
+      case symbol_kind::S_CharacterStringType: // CharacterStringType
+      case symbol_kind::S_RestrictedCharacterStringType: // RestrictedCharacterStringType
+      case symbol_kind::S_UnrestrictedCharacterStringType: // UnrestrictedCharacterStringType
         value.move< CharacterStringType > (YY_MOVE (s.value));
         break;
 
-      case 295: // ChoiceType
+      case symbol_kind::S_ChoiceType: // ChoiceType
         value.move< ChoiceType > (YY_MOVE (s.value));
         break;
 
-      case 305: // Class
+      case symbol_kind::S_Class: // Class
         value.move< Class > (YY_MOVE (s.value));
         break;
 
-      case 289: // ComponentTypeLists
+      case symbol_kind::S_ComponentTypeLists: // ComponentTypeLists
         value.move< Collection > (YY_MOVE (s.value));
         break;
 
-      case 291: // ComponentType
+      case symbol_kind::S_ComponentType: // ComponentType
         value.move< ComponentType > (YY_MOVE (s.value));
         break;
 
-      case 290: // ComponentTypeList
+      case symbol_kind::S_ComponentTypeList: // ComponentTypeList
         value.move< ComponentTypeList > (YY_MOVE (s.value));
         break;
 
-      case 326: // DateTimeType
+      case symbol_kind::S_DateTimeType: // DateTimeType
         value.move< DateTimeType > (YY_MOVE (s.value));
         break;
 
-      case 324: // DateType
+      case symbol_kind::S_DateType: // DateType
         value.move< DateType > (YY_MOVE (s.value));
         break;
 
-      case 252: // DefinedType
-      case 254: // ParameterizedType
-      case 258: // ExternalTypeReference
+      case symbol_kind::S_DefinedType: // DefinedType
+      case symbol_kind::S_ParameterizedType: // ParameterizedType
+      case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
         value.move< DefinedType > (YY_MOVE (s.value));
         break;
 
-      case 253: // DefinedValue
+      case symbol_kind::S_DefinedValue: // DefinedValue
         value.move< DefinedValue > (YY_MOVE (s.value));
         break;
 
-      case 327: // DurationType
+      case symbol_kind::S_DurationType: // DurationType
         value.move< DurationType > (YY_MOVE (s.value));
         break;
 
-      case 320: // EmbeddedPDVType
+      case symbol_kind::S_EmbeddedPDVType: // EmbeddedPDVType
         value.move< EmbeddedPDVType > (YY_MOVE (s.value));
         break;
 
-      case 278: // EnumeratedType
-      case 279: // Enumerations
-      case 280: // Enumeration
+      case symbol_kind::S_EnumeratedType: // EnumeratedType
+      case symbol_kind::S_Enumerations: // Enumerations
+      case symbol_kind::S_Enumeration: // Enumeration
         value.move< EnumeratedType > (YY_MOVE (s.value));
         break;
 
-      case 281: // EnumerationItem
+      case symbol_kind::S_EnumerationItem: // EnumerationItem
         value.move< EnumerationValue > (YY_MOVE (s.value));
         break;
 
-      case 321: // ExternalType
+      case symbol_kind::S_ExternalType: // ExternalType
         value.move< ExternalType > (YY_MOVE (s.value));
         break;
 
-      case 314: // IRIType
+      case symbol_kind::S_IRIType: // IRIType
         value.move< IRIType > (YY_MOVE (s.value));
         break;
 
-      case 245: // SymbolsFromModule
+      case symbol_kind::S_SymbolsFromModule: // SymbolsFromModule
         value.move< Import > (YY_MOVE (s.value));
         break;
 
-      case 215: // InstanceOfType
+      case symbol_kind::S_InstanceOfType: // InstanceOfType
         value.move< InstanceOfType > (YY_MOVE (s.value));
         break;
 
-      case 274: // IntegerType
+      case symbol_kind::S_IntegerType: // IntegerType
         value.move< IntegerType > (YY_MOVE (s.value));
         break;
 
-      case 239: // ModuleBody
+      case symbol_kind::S_ModuleBody: // ModuleBody
         value.move< Module > (YY_MOVE (s.value));
         break;
 
-      case 276: // NamedNumber
+      case symbol_kind::S_NamedNumber: // NamedNumber
         value.move< NamedNumber > (YY_MOVE (s.value));
         break;
 
-      case 265: // NamedType
+      case symbol_kind::S_NamedType: // NamedType
         value.move< NamedType > (YY_MOVE (s.value));
         break;
 
-      case 287: // NullType
+      case symbol_kind::S_NullType: // NullType
         value.move< NullType > (YY_MOVE (s.value));
         break;
 
-      case 161: // ObjectClass
-      case 162: // ObjectClassDefn
+      case symbol_kind::S_ObjectClass: // ObjectClass
+      case symbol_kind::S_ObjectClassDefn: // ObjectClassDefn
         value.move< ObjectClassAssignment > (YY_MOVE (s.value));
         break;
 
-      case 202: // ObjectClassFieldType
+      case symbol_kind::S_ObjectClassFieldType: // ObjectClassFieldType
         value.move< ObjectClassFieldType > (YY_MOVE (s.value));
         break;
 
-      case 309: // ObjIdComponents
-      case 310: // NameForm
-      case 311: // NumberForm
-      case 312: // NameAndNumberForm
+      case symbol_kind::S_ObjIdComponents: // ObjIdComponents
+      case symbol_kind::S_NameForm: // NameForm
+      case symbol_kind::S_NumberForm: // NumberForm
+      case symbol_kind::S_NameAndNumberForm: // NameAndNumberForm
         value.move< ObjectIdComponentValue > (YY_MOVE (s.value));
         break;
 
-      case 306: // ObjectIdentifierType
+      case symbol_kind::S_ObjectIdentifierType: // ObjectIdentifierType
         value.move< ObjectIdentifierType > (YY_MOVE (s.value));
         break;
 
-      case 286: // OctetStringType
+      case symbol_kind::S_OctetStringType: // OctetStringType
         value.move< OctetStringType > (YY_MOVE (s.value));
         break;
 
-      case 210: // Parameter
+      case symbol_kind::S_Parameter: // Parameter
         value.move< Parameter > (YY_MOVE (s.value));
         break;
 
-      case 300: // PrefixedType
+      case symbol_kind::S_PrefixedType: // PrefixedType
         value.move< PrefixedType > (YY_MOVE (s.value));
         break;
 
-      case 282: // RealType
+      case symbol_kind::S_RealType: // RealType
         value.move< RealType > (YY_MOVE (s.value));
         break;
 
-      case 319: // RelativeIRIType
+      case symbol_kind::S_RelativeIRIType: // RelativeIRIType
         value.move< RelativeIRIType > (YY_MOVE (s.value));
         break;
 
-      case 313: // RelativeOIDType
+      case symbol_kind::S_RelativeOIDType: // RelativeOIDType
         value.move< RelativeOIDType > (YY_MOVE (s.value));
         break;
 
-      case 292: // SequenceOfType
+      case symbol_kind::S_SequenceOfType: // SequenceOfType
         value.move< SequenceOfType > (YY_MOVE (s.value));
         break;
 
-      case 288: // SequenceType
+      case symbol_kind::S_SequenceType: // SequenceType
         value.move< SequenceType > (YY_MOVE (s.value));
         break;
 
-      case 294: // SetOfType
+      case symbol_kind::S_SetOfType: // SetOfType
         value.move< SetOfType > (YY_MOVE (s.value));
         break;
 
-      case 293: // SetType
+      case symbol_kind::S_SetType: // SetType
         value.move< SetType > (YY_MOVE (s.value));
         break;
 
-      case 302: // Tag
+      case symbol_kind::S_Tag: // Tag
         value.move< Tag > (YY_MOVE (s.value));
         break;
 
-      case 301: // TaggedType
+      case symbol_kind::S_TaggedType: // TaggedType
         value.move< TaggedType > (YY_MOVE (s.value));
         break;
 
-      case 237: // TagDefault
+      case symbol_kind::S_TagDefault: // TagDefault
         value.move< TaggingMode > (YY_MOVE (s.value));
         break;
 
-      case 325: // TimeOfDayType
+      case symbol_kind::S_TimeOfDayType: // TimeOfDayType
         value.move< TimeOfDayType > (YY_MOVE (s.value));
         break;
 
-      case 322: // TimeType
+      case symbol_kind::S_TimeType: // TimeType
         value.move< TimeType > (YY_MOVE (s.value));
         break;
 
-      case 323: // TimeValue
+      case symbol_kind::S_TimeValue: // TimeValue
         value.move< TimeValue > (YY_MOVE (s.value));
         break;
 
-      case 211: // ParamGovernor
-      case 212: // Governor
-      case 257: // ActualParameter
-      case 263: // Type
-      case 331: // ConstrainedType
-      case 332: // TypeWithConstraint
+      case symbol_kind::S_ParamGovernor: // ParamGovernor
+      case symbol_kind::S_Governor: // Governor
+      case symbol_kind::S_ActualParameter: // ActualParameter
+      case symbol_kind::S_Type: // Type
+      case symbol_kind::S_ConstrainedType: // ConstrainedType
+      case symbol_kind::S_TypeWithConstraint: // TypeWithConstraint
         value.move< Type > (YY_MOVE (s.value));
         break;
 
-      case 266: // ValueWithoutTypeIdentifier
-      case 267: // Value
-      case 349: // SingleValue
+      case symbol_kind::S_ValueWithoutTypeIdentifier: // ValueWithoutTypeIdentifier
+      case symbol_kind::S_Value: // Value
+      case symbol_kind::S_SingleValue: // SingleValue
         value.move< Value > (YY_MOVE (s.value));
         break;
 
-      case 6: // realnumber
+      case symbol_kind::S_realnumber: // realnumber
         value.move< double > (YY_MOVE (s.value));
         break;
 
-      case 304: // ClassNumber
+      case symbol_kind::S_ClassNumber: // ClassNumber
         value.move< int > (YY_MOVE (s.value));
         break;
 
-      case 4: // number
-      case 5: // negativenumber
-      case 277: // SignedNumber
+      case symbol_kind::S_number: // number
+      case symbol_kind::S_negativenumber: // negativenumber
+      case symbol_kind::S_SignedNumber: // SignedNumber
         value.move< int64_t > (YY_MOVE (s.value));
         break;
 
-      case 7: // bstring
-      case 8: // xmlbstring
-      case 9: // hstring
-      case 10: // xmlhstring
-      case 11: // cstring
-      case 12: // xmlcstring
-      case 13: // simplestring
-      case 14: // xmltstring
-      case 22: // objectreference
-      case 24: // typefieldreference
-      case 25: // valuefieldreference
-      case 149: // GENERIC_IDENTIFIER_UPPERCASE
-      case 150: // GENERIC_IDENTIFIER_LOWERCASE
-      case 159: // UsefulObjectClassReference
-      case 165: // FieldName
-      case 216: // SimpleDefinedType
-      case 228: // ModuleIdentifier
-      case 246: // GlobalModuleReference
-      case 248: // Symbol
-      case 249: // Reference
-      case 372: // typereference
-      case 373: // identifier
-      case 374: // valuereference
-      case 375: // modulereference
-      case 376: // objectclassreference
-      case 377: // word
+      case symbol_kind::S_bstring: // bstring
+      case symbol_kind::S_xmlbstring: // xmlbstring
+      case symbol_kind::S_hstring: // hstring
+      case symbol_kind::S_xmlhstring: // xmlhstring
+      case symbol_kind::S_cstring: // cstring
+      case symbol_kind::S_xmlcstring: // xmlcstring
+      case symbol_kind::S_simplestring: // simplestring
+      case symbol_kind::S_xmltstring: // xmltstring
+      case symbol_kind::S_objectreference: // objectreference
+      case symbol_kind::S_typefieldreference: // typefieldreference
+      case symbol_kind::S_valuefieldreference: // valuefieldreference
+      case symbol_kind::S_GENERIC_IDENTIFIER_UPPERCASE: // GENERIC_IDENTIFIER_UPPERCASE
+      case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
+      case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
+      case symbol_kind::S_FieldName: // FieldName
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
+      case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
+      case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
+      case symbol_kind::S_Symbol: // Symbol
+      case symbol_kind::S_Reference: // Reference
+      case symbol_kind::S_typereference: // typereference
+      case symbol_kind::S_identifier: // identifier
+      case symbol_kind::S_valuereference: // valuereference
+      case symbol_kind::S_modulereference: // modulereference
+      case symbol_kind::S_objectclassreference: // objectclassreference
+      case symbol_kind::S_word: // word
         value.move< std::string > (YY_MOVE (s.value));
         break;
 
-      case 250: // AssignmentList
+      case symbol_kind::S_AssignmentList: // AssignmentList
         value.move< std::vector<Assignment> > (YY_MOVE (s.value));
         break;
 
-      case 163: // FieldSpecList
-      case 164: // FieldSpec
-      case 167: // TypeFieldSpec
-      case 171: // FixedTypeValueFieldSpec
+      case symbol_kind::S_FieldSpecList: // FieldSpecList
+      case symbol_kind::S_FieldSpec: // FieldSpec
+      case symbol_kind::S_TypeFieldSpec: // TypeFieldSpec
+      case symbol_kind::S_FixedTypeValueFieldSpec: // FixedTypeValueFieldSpec
         value.move< std::vector<ClassField> > (YY_MOVE (s.value));
         break;
 
-      case 240: // Exports
+      case symbol_kind::S_Exports: // Exports
         value.move< std::vector<Export> > (YY_MOVE (s.value));
         break;
 
-      case 242: // Imports
-      case 243: // SymbolsImported
-      case 244: // SymbolsFromModuleList
+      case symbol_kind::S_Imports: // Imports
+      case symbol_kind::S_SymbolsImported: // SymbolsImported
+      case symbol_kind::S_SymbolsFromModuleList: // SymbolsFromModuleList
         value.move< std::vector<Import> > (YY_MOVE (s.value));
         break;
 
-      case 275: // NamedNumberList
+      case symbol_kind::S_NamedNumberList: // NamedNumberList
         value.move< std::vector<NamedNumber> > (YY_MOVE (s.value));
         break;
 
-      case 296: // AlternativeTypeLists
-      case 297: // RootAlternativeTypeList
-      case 298: // AlternativeTypeList
+      case symbol_kind::S_AlternativeTypeLists: // AlternativeTypeLists
+      case symbol_kind::S_RootAlternativeTypeList: // RootAlternativeTypeList
+      case symbol_kind::S_AlternativeTypeList: // AlternativeTypeList
         value.move< std::vector<NamedType> > (YY_MOVE (s.value));
         break;
 
-      case 307: // ObjectIdentifierValue
-      case 308: // ObjIdComponentsList
+      case symbol_kind::S_ObjectIdentifierValue: // ObjectIdentifierValue
+      case symbol_kind::S_ObjIdComponentsList: // ObjIdComponentsList
         value.move< std::vector<ObjectIdComponentValue> > (YY_MOVE (s.value));
         break;
 
-      case 208: // ParameterList
-      case 209: // ParameterSeries
+      case symbol_kind::S_ParameterList: // ParameterList
+      case symbol_kind::S_ParameterSeries: // ParameterSeries
         value.move< std::vector<Parameter> > (YY_MOVE (s.value));
         break;
 
-      case 256: // ActualParameterList
+      case symbol_kind::S_ActualParameterList: // ActualParameterList
         value.move< std::vector<Type> > (YY_MOVE (s.value));
         break;
 
-      case 271: // SequenceOfValues
+      case symbol_kind::S_SequenceOfValues: // SequenceOfValues
         value.move< std::vector<Value> > (YY_MOVE (s.value));
         break;
 
-      case 166: // FieldNameList
-      case 168: // OneOrManyTypeFieldReference
-      case 247: // SymbolList
+      case symbol_kind::S_FieldNameList: // FieldNameList
+      case symbol_kind::S_OneOrManyTypeFieldReference: // OneOrManyTypeFieldReference
+      case symbol_kind::S_SymbolList: // SymbolList
         value.move< std::vector<std::string> > (YY_MOVE (s.value));
         break;
 
@@ -6116,78 +6681,57 @@ switch (yytype)
     location = YY_MOVE (s.location);
   }
 
-  // by_type.
-  asn1_parser::by_type::by_type ()
-    : type (empty_symbol)
+  // by_kind.
+  asn1_parser::by_kind::by_kind () YY_NOEXCEPT
+    : kind_ (symbol_kind::S_YYEMPTY)
   {}
 
 #if 201103L <= YY_CPLUSPLUS
-  asn1_parser::by_type::by_type (by_type&& that)
-    : type (that.type)
+  asn1_parser::by_kind::by_kind (by_kind&& that) YY_NOEXCEPT
+    : kind_ (that.kind_)
   {
     that.clear ();
   }
 #endif
 
-  asn1_parser::by_type::by_type (const by_type& that)
-    : type (that.type)
+  asn1_parser::by_kind::by_kind (const by_kind& that) YY_NOEXCEPT
+    : kind_ (that.kind_)
   {}
 
-  asn1_parser::by_type::by_type (token_type t)
-    : type (yytranslate_ (t))
+  asn1_parser::by_kind::by_kind (token_kind_type t) YY_NOEXCEPT
+    : kind_ (yytranslate_ (t))
   {}
 
+
+
   void
-  asn1_parser::by_type::clear ()
+  asn1_parser::by_kind::clear () YY_NOEXCEPT
   {
-    type = empty_symbol;
+    kind_ = symbol_kind::S_YYEMPTY;
   }
 
   void
-  asn1_parser::by_type::move (by_type& that)
+  asn1_parser::by_kind::move (by_kind& that)
   {
-    type = that.type;
+    kind_ = that.kind_;
     that.clear ();
   }
 
-  int
-  asn1_parser::by_type::type_get () const YY_NOEXCEPT
+  asn1_parser::symbol_kind_type
+  asn1_parser::by_kind::kind () const YY_NOEXCEPT
   {
-    return type;
+    return kind_;
   }
 
-  asn1_parser::token_type
-  asn1_parser::by_type::token () const YY_NOEXCEPT
+
+  asn1_parser::symbol_kind_type
+  asn1_parser::by_kind::type_get () const YY_NOEXCEPT
   {
-    // YYTOKNUM[NUM] -- (External) token number corresponding to the
-    // (internal) symbol number NUM (which must be that of a token).  */
-    static
-    const unsigned short
-    yytoken_number_[] =
-    {
-       0,   256,   257,   258,   259,   260,   261,   262,   263,   264,
-     265,   266,   267,   268,   269,   270,   271,   272,   273,   274,
-     275,   276,   277,   278,   279,   280,   281,   282,   283,   284,
-     285,   286,   287,   288,   289,   290,   291,   292,   293,   294,
-     295,   296,   297,   298,   299,   300,   301,   302,   303,   304,
-     305,   306,   307,   308,   309,   310,   311,   312,   313,   314,
-     315,   316,   317,   318,   319,   320,   321,   322,   323,   324,
-     325,   326,   327,   328,   329,   330,   331,   332,   333,   334,
-     335,   336,   337,   338,   339,   340,   341,   342,   343,   344,
-     345,   346,   347,   348,   349,   350,   351,   352,   353,   354,
-     355,   356,   357,   358,   359,   360,   361,   362,   363,   364,
-     365,   366,   367,   368,   369,   370,   371,   372,   373,   374,
-     375,   376,   377,   378,   379,   380,   381,   382,   383,   384,
-     385,   386,   387,   388,   389,   390,   391,   392,   393,   394,
-     395,   396,   397,   398,   399,   400,   401,   402,   403,   404,
-     405,   406,   407
-    };
-    return token_type (yytoken_number_[type]);
+    return this->kind ();
   }
 
 
 } // yy
-#line 6189 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:431
 
 
 
@@ -6195,7 +6739,6 @@ switch (yytype)
 
 
 // Unqualified %code blocks.
-#line 16 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:435
 
     struct Context
     {
@@ -6211,7 +6754,6 @@ switch (yytype)
 
     namespace yy { asn1_parser::symbol_type yylex(Context& c); }
 
-#line 6213 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:435
 
 
 #ifndef YY_
@@ -6226,6 +6768,7 @@ switch (yytype)
 # endif
 #endif
 
+
 // Whether we are compiled with exception support.
 #ifndef YY_EXCEPTIONS
 # if defined __GNUC__ && !defined __EXCEPTIONS
@@ -6256,9 +6799,6 @@ switch (yytype)
 # endif
 
 
-// Suppress unused-variable warnings by "using" E.
-#define YYUSE(E) ((void) (E))
-
 // Enable debugging if requested.
 #if YYDEBUG
 
@@ -6284,13 +6824,13 @@ switch (yytype)
 # define YY_STACK_PRINT()               \
   do {                                  \
     if (yydebug_)                       \
-      yystack_print_ ();                \
+      yy_stack_print_ ();                \
   } while (false)
 
 #else // !YYDEBUG
 
 # define YYCDEBUG if (false) std::cerr
-# define YY_SYMBOL_PRINT(Title, Symbol)  YYUSE (Symbol)
+# define YY_SYMBOL_PRINT(Title, Symbol)  YY_USE (Symbol)
 # define YY_REDUCE_PRINT(Rule)           static_cast<void> (0)
 # define YY_STACK_PRINT()                static_cast<void> (0)
 
@@ -6304,57 +6844,15 @@ switch (yytype)
 #define YYERROR         goto yyerrorlab
 #define YYRECOVERING()  (!!yyerrstatus_)
 
-
 namespace yy {
-#line 6308 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:510
-
-  /* Return YYSTR after stripping away unnecessary quotes and
-     backslashes, so that it's suitable for yyerror.  The heuristic is
-     that double-quoting is unnecessary unless the string contains an
-     apostrophe, a comma, or backslash (other than backslash-backslash).
-     YYSTR is taken from yytname.  */
-  std::string
-  asn1_parser::yytnamerr_ (const char *yystr)
-  {
-    if (*yystr == '"')
-      {
-        std::string yyr;
-        char const *yyp = yystr;
-
-        for (;;)
-          switch (*++yyp)
-            {
-            case '\'':
-            case ',':
-              goto do_not_strip_quotes;
-
-            case '\\':
-              if (*++yyp != '\\')
-                goto do_not_strip_quotes;
-              else
-                goto append;
-
-            append:
-            default:
-              yyr += *yyp;
-              break;
-
-            case '"':
-              return yyr;
-            }
-      do_not_strip_quotes: ;
-      }
-
-    return yystr;
-  }
-
 
   /// Build a parser object.
   asn1_parser::asn1_parser (Context& context__yyarg)
-    :
 #if YYDEBUG
-      yydebug_ (false),
+    : yydebug_ (false),
       yycdebug_ (&std::cerr),
+#else
+    :
 #endif
       context_ (context__yyarg)
   {}
@@ -6365,9 +6863,9 @@ namespace yy {
   asn1_parser::syntax_error::~syntax_error () YY_NOEXCEPT YY_NOTHROW
   {}
 
-  /*---------------.
-  | Symbol types.  |
-  `---------------*/
+  /*---------.
+  | symbol.  |
+  `---------*/
 
 
 
@@ -6397,13 +6895,13 @@ namespace yy {
     : state (s)
   {}
 
-  asn1_parser::symbol_number_type
-  asn1_parser::by_state::type_get () const YY_NOEXCEPT
+  asn1_parser::symbol_kind_type
+  asn1_parser::by_state::kind () const YY_NOEXCEPT
   {
     if (state == empty_state)
-      return empty_symbol;
+      return symbol_kind::S_YYEMPTY;
     else
-      return yystos_[state];
+      return YY_CAST (symbol_kind_type, yystos_[+state]);
   }
 
   asn1_parser::stack_symbol_type::stack_symbol_type ()
@@ -6412,330 +6910,330 @@ namespace yy {
   asn1_parser::stack_symbol_type::stack_symbol_type (YY_RVREF (stack_symbol_type) that)
     : super_type (YY_MOVE (that.state), YY_MOVE (that.location))
   {
-    switch (that.type_get ())
+    switch (that.kind ())
     {
-      case 160: // ObjectClassAssignment
-      case 199: // ObjectSetAssignment
-      case 203: // ParameterizedAssignment
-      case 204: // ParameterizedTypeAssignment
-      case 205: // ParameterizedValueAssignment
-      case 206: // ParameterizedValueSetTypeAssignment
-      case 207: // ParameterizedObjectClassAssignment
-      case 251: // Assignment
-      case 260: // TypeAssignment
-      case 261: // ValueAssignment
-      case 262: // ValueSetTypeAssignment
+      case symbol_kind::S_ObjectClassAssignment: // ObjectClassAssignment
+      case symbol_kind::S_ObjectSetAssignment: // ObjectSetAssignment
+      case symbol_kind::S_ParameterizedAssignment: // ParameterizedAssignment
+      case symbol_kind::S_ParameterizedTypeAssignment: // ParameterizedTypeAssignment
+      case symbol_kind::S_ParameterizedValueAssignment: // ParameterizedValueAssignment
+      case symbol_kind::S_ParameterizedValueSetTypeAssignment: // ParameterizedValueSetTypeAssignment
+      case symbol_kind::S_ParameterizedObjectClassAssignment: // ParameterizedObjectClassAssignment
+      case symbol_kind::S_Assignment: // Assignment
+      case symbol_kind::S_TypeAssignment: // TypeAssignment
+      case symbol_kind::S_ValueAssignment: // ValueAssignment
+      case symbol_kind::S_ValueSetTypeAssignment: // ValueSetTypeAssignment
         value.YY_MOVE_OR_COPY< Assignment > (YY_MOVE (that.value));
         break;
 
-      case 283: // BitStringType
+      case symbol_kind::S_BitStringType: // BitStringType
         value.YY_MOVE_OR_COPY< BitStringType > (YY_MOVE (that.value));
         break;
 
-      case 272: // BooleanType
+      case symbol_kind::S_BooleanType: // BooleanType
         value.YY_MOVE_OR_COPY< BooleanType > (YY_MOVE (that.value));
         break;
 
-      case 273: // BooleanValue
+      case symbol_kind::S_BooleanValue: // BooleanValue
         value.YY_MOVE_OR_COPY< BooleanValue > (YY_MOVE (that.value));
         break;
 
-      case 264: // BuiltinType
+      case symbol_kind::S_BuiltinType: // BuiltinType
         value.YY_MOVE_OR_COPY< BuiltinType > (YY_MOVE (that.value));
         break;
 
-      case 328: // CharacterStringType
-      case 329: // RestrictedCharacterStringType
-      case 330: // UnrestrictedCharacterStringType
+      case symbol_kind::S_CharacterStringType: // CharacterStringType
+      case symbol_kind::S_RestrictedCharacterStringType: // RestrictedCharacterStringType
+      case symbol_kind::S_UnrestrictedCharacterStringType: // UnrestrictedCharacterStringType
         value.YY_MOVE_OR_COPY< CharacterStringType > (YY_MOVE (that.value));
         break;
 
-      case 295: // ChoiceType
+      case symbol_kind::S_ChoiceType: // ChoiceType
         value.YY_MOVE_OR_COPY< ChoiceType > (YY_MOVE (that.value));
         break;
 
-      case 305: // Class
+      case symbol_kind::S_Class: // Class
         value.YY_MOVE_OR_COPY< Class > (YY_MOVE (that.value));
         break;
 
-      case 289: // ComponentTypeLists
+      case symbol_kind::S_ComponentTypeLists: // ComponentTypeLists
         value.YY_MOVE_OR_COPY< Collection > (YY_MOVE (that.value));
         break;
 
-      case 291: // ComponentType
+      case symbol_kind::S_ComponentType: // ComponentType
         value.YY_MOVE_OR_COPY< ComponentType > (YY_MOVE (that.value));
         break;
 
-      case 290: // ComponentTypeList
+      case symbol_kind::S_ComponentTypeList: // ComponentTypeList
         value.YY_MOVE_OR_COPY< ComponentTypeList > (YY_MOVE (that.value));
         break;
 
-      case 326: // DateTimeType
+      case symbol_kind::S_DateTimeType: // DateTimeType
         value.YY_MOVE_OR_COPY< DateTimeType > (YY_MOVE (that.value));
         break;
 
-      case 324: // DateType
+      case symbol_kind::S_DateType: // DateType
         value.YY_MOVE_OR_COPY< DateType > (YY_MOVE (that.value));
         break;
 
-      case 252: // DefinedType
-      case 254: // ParameterizedType
-      case 258: // ExternalTypeReference
+      case symbol_kind::S_DefinedType: // DefinedType
+      case symbol_kind::S_ParameterizedType: // ParameterizedType
+      case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
         value.YY_MOVE_OR_COPY< DefinedType > (YY_MOVE (that.value));
         break;
 
-      case 253: // DefinedValue
+      case symbol_kind::S_DefinedValue: // DefinedValue
         value.YY_MOVE_OR_COPY< DefinedValue > (YY_MOVE (that.value));
         break;
 
-      case 327: // DurationType
+      case symbol_kind::S_DurationType: // DurationType
         value.YY_MOVE_OR_COPY< DurationType > (YY_MOVE (that.value));
         break;
 
-      case 320: // EmbeddedPDVType
+      case symbol_kind::S_EmbeddedPDVType: // EmbeddedPDVType
         value.YY_MOVE_OR_COPY< EmbeddedPDVType > (YY_MOVE (that.value));
         break;
 
-      case 278: // EnumeratedType
-      case 279: // Enumerations
-      case 280: // Enumeration
+      case symbol_kind::S_EnumeratedType: // EnumeratedType
+      case symbol_kind::S_Enumerations: // Enumerations
+      case symbol_kind::S_Enumeration: // Enumeration
         value.YY_MOVE_OR_COPY< EnumeratedType > (YY_MOVE (that.value));
         break;
 
-      case 281: // EnumerationItem
+      case symbol_kind::S_EnumerationItem: // EnumerationItem
         value.YY_MOVE_OR_COPY< EnumerationValue > (YY_MOVE (that.value));
         break;
 
-      case 321: // ExternalType
+      case symbol_kind::S_ExternalType: // ExternalType
         value.YY_MOVE_OR_COPY< ExternalType > (YY_MOVE (that.value));
         break;
 
-      case 314: // IRIType
+      case symbol_kind::S_IRIType: // IRIType
         value.YY_MOVE_OR_COPY< IRIType > (YY_MOVE (that.value));
         break;
 
-      case 245: // SymbolsFromModule
+      case symbol_kind::S_SymbolsFromModule: // SymbolsFromModule
         value.YY_MOVE_OR_COPY< Import > (YY_MOVE (that.value));
         break;
 
-      case 215: // InstanceOfType
+      case symbol_kind::S_InstanceOfType: // InstanceOfType
         value.YY_MOVE_OR_COPY< InstanceOfType > (YY_MOVE (that.value));
         break;
 
-      case 274: // IntegerType
+      case symbol_kind::S_IntegerType: // IntegerType
         value.YY_MOVE_OR_COPY< IntegerType > (YY_MOVE (that.value));
         break;
 
-      case 239: // ModuleBody
+      case symbol_kind::S_ModuleBody: // ModuleBody
         value.YY_MOVE_OR_COPY< Module > (YY_MOVE (that.value));
         break;
 
-      case 276: // NamedNumber
+      case symbol_kind::S_NamedNumber: // NamedNumber
         value.YY_MOVE_OR_COPY< NamedNumber > (YY_MOVE (that.value));
         break;
 
-      case 265: // NamedType
+      case symbol_kind::S_NamedType: // NamedType
         value.YY_MOVE_OR_COPY< NamedType > (YY_MOVE (that.value));
         break;
 
-      case 287: // NullType
+      case symbol_kind::S_NullType: // NullType
         value.YY_MOVE_OR_COPY< NullType > (YY_MOVE (that.value));
         break;
 
-      case 161: // ObjectClass
-      case 162: // ObjectClassDefn
+      case symbol_kind::S_ObjectClass: // ObjectClass
+      case symbol_kind::S_ObjectClassDefn: // ObjectClassDefn
         value.YY_MOVE_OR_COPY< ObjectClassAssignment > (YY_MOVE (that.value));
         break;
 
-      case 202: // ObjectClassFieldType
+      case symbol_kind::S_ObjectClassFieldType: // ObjectClassFieldType
         value.YY_MOVE_OR_COPY< ObjectClassFieldType > (YY_MOVE (that.value));
         break;
 
-      case 309: // ObjIdComponents
-      case 310: // NameForm
-      case 311: // NumberForm
-      case 312: // NameAndNumberForm
+      case symbol_kind::S_ObjIdComponents: // ObjIdComponents
+      case symbol_kind::S_NameForm: // NameForm
+      case symbol_kind::S_NumberForm: // NumberForm
+      case symbol_kind::S_NameAndNumberForm: // NameAndNumberForm
         value.YY_MOVE_OR_COPY< ObjectIdComponentValue > (YY_MOVE (that.value));
         break;
 
-      case 306: // ObjectIdentifierType
+      case symbol_kind::S_ObjectIdentifierType: // ObjectIdentifierType
         value.YY_MOVE_OR_COPY< ObjectIdentifierType > (YY_MOVE (that.value));
         break;
 
-      case 286: // OctetStringType
+      case symbol_kind::S_OctetStringType: // OctetStringType
         value.YY_MOVE_OR_COPY< OctetStringType > (YY_MOVE (that.value));
         break;
 
-      case 210: // Parameter
+      case symbol_kind::S_Parameter: // Parameter
         value.YY_MOVE_OR_COPY< Parameter > (YY_MOVE (that.value));
         break;
 
-      case 300: // PrefixedType
+      case symbol_kind::S_PrefixedType: // PrefixedType
         value.YY_MOVE_OR_COPY< PrefixedType > (YY_MOVE (that.value));
         break;
 
-      case 282: // RealType
+      case symbol_kind::S_RealType: // RealType
         value.YY_MOVE_OR_COPY< RealType > (YY_MOVE (that.value));
         break;
 
-      case 319: // RelativeIRIType
+      case symbol_kind::S_RelativeIRIType: // RelativeIRIType
         value.YY_MOVE_OR_COPY< RelativeIRIType > (YY_MOVE (that.value));
         break;
 
-      case 313: // RelativeOIDType
+      case symbol_kind::S_RelativeOIDType: // RelativeOIDType
         value.YY_MOVE_OR_COPY< RelativeOIDType > (YY_MOVE (that.value));
         break;
 
-      case 292: // SequenceOfType
+      case symbol_kind::S_SequenceOfType: // SequenceOfType
         value.YY_MOVE_OR_COPY< SequenceOfType > (YY_MOVE (that.value));
         break;
 
-      case 288: // SequenceType
+      case symbol_kind::S_SequenceType: // SequenceType
         value.YY_MOVE_OR_COPY< SequenceType > (YY_MOVE (that.value));
         break;
 
-      case 294: // SetOfType
+      case symbol_kind::S_SetOfType: // SetOfType
         value.YY_MOVE_OR_COPY< SetOfType > (YY_MOVE (that.value));
         break;
 
-      case 293: // SetType
+      case symbol_kind::S_SetType: // SetType
         value.YY_MOVE_OR_COPY< SetType > (YY_MOVE (that.value));
         break;
 
-      case 302: // Tag
+      case symbol_kind::S_Tag: // Tag
         value.YY_MOVE_OR_COPY< Tag > (YY_MOVE (that.value));
         break;
 
-      case 301: // TaggedType
+      case symbol_kind::S_TaggedType: // TaggedType
         value.YY_MOVE_OR_COPY< TaggedType > (YY_MOVE (that.value));
         break;
 
-      case 237: // TagDefault
+      case symbol_kind::S_TagDefault: // TagDefault
         value.YY_MOVE_OR_COPY< TaggingMode > (YY_MOVE (that.value));
         break;
 
-      case 325: // TimeOfDayType
+      case symbol_kind::S_TimeOfDayType: // TimeOfDayType
         value.YY_MOVE_OR_COPY< TimeOfDayType > (YY_MOVE (that.value));
         break;
 
-      case 322: // TimeType
+      case symbol_kind::S_TimeType: // TimeType
         value.YY_MOVE_OR_COPY< TimeType > (YY_MOVE (that.value));
         break;
 
-      case 323: // TimeValue
+      case symbol_kind::S_TimeValue: // TimeValue
         value.YY_MOVE_OR_COPY< TimeValue > (YY_MOVE (that.value));
         break;
 
-      case 211: // ParamGovernor
-      case 212: // Governor
-      case 257: // ActualParameter
-      case 263: // Type
-      case 331: // ConstrainedType
-      case 332: // TypeWithConstraint
+      case symbol_kind::S_ParamGovernor: // ParamGovernor
+      case symbol_kind::S_Governor: // Governor
+      case symbol_kind::S_ActualParameter: // ActualParameter
+      case symbol_kind::S_Type: // Type
+      case symbol_kind::S_ConstrainedType: // ConstrainedType
+      case symbol_kind::S_TypeWithConstraint: // TypeWithConstraint
         value.YY_MOVE_OR_COPY< Type > (YY_MOVE (that.value));
         break;
 
-      case 266: // ValueWithoutTypeIdentifier
-      case 267: // Value
-      case 349: // SingleValue
+      case symbol_kind::S_ValueWithoutTypeIdentifier: // ValueWithoutTypeIdentifier
+      case symbol_kind::S_Value: // Value
+      case symbol_kind::S_SingleValue: // SingleValue
         value.YY_MOVE_OR_COPY< Value > (YY_MOVE (that.value));
         break;
 
-      case 6: // realnumber
+      case symbol_kind::S_realnumber: // realnumber
         value.YY_MOVE_OR_COPY< double > (YY_MOVE (that.value));
         break;
 
-      case 304: // ClassNumber
+      case symbol_kind::S_ClassNumber: // ClassNumber
         value.YY_MOVE_OR_COPY< int > (YY_MOVE (that.value));
         break;
 
-      case 4: // number
-      case 5: // negativenumber
-      case 277: // SignedNumber
+      case symbol_kind::S_number: // number
+      case symbol_kind::S_negativenumber: // negativenumber
+      case symbol_kind::S_SignedNumber: // SignedNumber
         value.YY_MOVE_OR_COPY< int64_t > (YY_MOVE (that.value));
         break;
 
-      case 7: // bstring
-      case 8: // xmlbstring
-      case 9: // hstring
-      case 10: // xmlhstring
-      case 11: // cstring
-      case 12: // xmlcstring
-      case 13: // simplestring
-      case 14: // xmltstring
-      case 22: // objectreference
-      case 24: // typefieldreference
-      case 25: // valuefieldreference
-      case 149: // GENERIC_IDENTIFIER_UPPERCASE
-      case 150: // GENERIC_IDENTIFIER_LOWERCASE
-      case 159: // UsefulObjectClassReference
-      case 165: // FieldName
-      case 216: // SimpleDefinedType
-      case 228: // ModuleIdentifier
-      case 246: // GlobalModuleReference
-      case 248: // Symbol
-      case 249: // Reference
-      case 372: // typereference
-      case 373: // identifier
-      case 374: // valuereference
-      case 375: // modulereference
-      case 376: // objectclassreference
-      case 377: // word
+      case symbol_kind::S_bstring: // bstring
+      case symbol_kind::S_xmlbstring: // xmlbstring
+      case symbol_kind::S_hstring: // hstring
+      case symbol_kind::S_xmlhstring: // xmlhstring
+      case symbol_kind::S_cstring: // cstring
+      case symbol_kind::S_xmlcstring: // xmlcstring
+      case symbol_kind::S_simplestring: // simplestring
+      case symbol_kind::S_xmltstring: // xmltstring
+      case symbol_kind::S_objectreference: // objectreference
+      case symbol_kind::S_typefieldreference: // typefieldreference
+      case symbol_kind::S_valuefieldreference: // valuefieldreference
+      case symbol_kind::S_GENERIC_IDENTIFIER_UPPERCASE: // GENERIC_IDENTIFIER_UPPERCASE
+      case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
+      case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
+      case symbol_kind::S_FieldName: // FieldName
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
+      case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
+      case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
+      case symbol_kind::S_Symbol: // Symbol
+      case symbol_kind::S_Reference: // Reference
+      case symbol_kind::S_typereference: // typereference
+      case symbol_kind::S_identifier: // identifier
+      case symbol_kind::S_valuereference: // valuereference
+      case symbol_kind::S_modulereference: // modulereference
+      case symbol_kind::S_objectclassreference: // objectclassreference
+      case symbol_kind::S_word: // word
         value.YY_MOVE_OR_COPY< std::string > (YY_MOVE (that.value));
         break;
 
-      case 250: // AssignmentList
+      case symbol_kind::S_AssignmentList: // AssignmentList
         value.YY_MOVE_OR_COPY< std::vector<Assignment> > (YY_MOVE (that.value));
         break;
 
-      case 163: // FieldSpecList
-      case 164: // FieldSpec
-      case 167: // TypeFieldSpec
-      case 171: // FixedTypeValueFieldSpec
+      case symbol_kind::S_FieldSpecList: // FieldSpecList
+      case symbol_kind::S_FieldSpec: // FieldSpec
+      case symbol_kind::S_TypeFieldSpec: // TypeFieldSpec
+      case symbol_kind::S_FixedTypeValueFieldSpec: // FixedTypeValueFieldSpec
         value.YY_MOVE_OR_COPY< std::vector<ClassField> > (YY_MOVE (that.value));
         break;
 
-      case 240: // Exports
+      case symbol_kind::S_Exports: // Exports
         value.YY_MOVE_OR_COPY< std::vector<Export> > (YY_MOVE (that.value));
         break;
 
-      case 242: // Imports
-      case 243: // SymbolsImported
-      case 244: // SymbolsFromModuleList
+      case symbol_kind::S_Imports: // Imports
+      case symbol_kind::S_SymbolsImported: // SymbolsImported
+      case symbol_kind::S_SymbolsFromModuleList: // SymbolsFromModuleList
         value.YY_MOVE_OR_COPY< std::vector<Import> > (YY_MOVE (that.value));
         break;
 
-      case 275: // NamedNumberList
+      case symbol_kind::S_NamedNumberList: // NamedNumberList
         value.YY_MOVE_OR_COPY< std::vector<NamedNumber> > (YY_MOVE (that.value));
         break;
 
-      case 296: // AlternativeTypeLists
-      case 297: // RootAlternativeTypeList
-      case 298: // AlternativeTypeList
+      case symbol_kind::S_AlternativeTypeLists: // AlternativeTypeLists
+      case symbol_kind::S_RootAlternativeTypeList: // RootAlternativeTypeList
+      case symbol_kind::S_AlternativeTypeList: // AlternativeTypeList
         value.YY_MOVE_OR_COPY< std::vector<NamedType> > (YY_MOVE (that.value));
         break;
 
-      case 307: // ObjectIdentifierValue
-      case 308: // ObjIdComponentsList
+      case symbol_kind::S_ObjectIdentifierValue: // ObjectIdentifierValue
+      case symbol_kind::S_ObjIdComponentsList: // ObjIdComponentsList
         value.YY_MOVE_OR_COPY< std::vector<ObjectIdComponentValue> > (YY_MOVE (that.value));
         break;
 
-      case 208: // ParameterList
-      case 209: // ParameterSeries
+      case symbol_kind::S_ParameterList: // ParameterList
+      case symbol_kind::S_ParameterSeries: // ParameterSeries
         value.YY_MOVE_OR_COPY< std::vector<Parameter> > (YY_MOVE (that.value));
         break;
 
-      case 256: // ActualParameterList
+      case symbol_kind::S_ActualParameterList: // ActualParameterList
         value.YY_MOVE_OR_COPY< std::vector<Type> > (YY_MOVE (that.value));
         break;
 
-      case 271: // SequenceOfValues
+      case symbol_kind::S_SequenceOfValues: // SequenceOfValues
         value.YY_MOVE_OR_COPY< std::vector<Value> > (YY_MOVE (that.value));
         break;
 
-      case 166: // FieldNameList
-      case 168: // OneOrManyTypeFieldReference
-      case 247: // SymbolList
+      case symbol_kind::S_FieldNameList: // FieldNameList
+      case symbol_kind::S_OneOrManyTypeFieldReference: // OneOrManyTypeFieldReference
+      case symbol_kind::S_SymbolList: // SymbolList
         value.YY_MOVE_OR_COPY< std::vector<std::string> > (YY_MOVE (that.value));
         break;
 
@@ -6752,330 +7250,330 @@ namespace yy {
   asn1_parser::stack_symbol_type::stack_symbol_type (state_type s, YY_MOVE_REF (symbol_type) that)
     : super_type (s, YY_MOVE (that.location))
   {
-    switch (that.type_get ())
+    switch (that.kind ())
     {
-      case 160: // ObjectClassAssignment
-      case 199: // ObjectSetAssignment
-      case 203: // ParameterizedAssignment
-      case 204: // ParameterizedTypeAssignment
-      case 205: // ParameterizedValueAssignment
-      case 206: // ParameterizedValueSetTypeAssignment
-      case 207: // ParameterizedObjectClassAssignment
-      case 251: // Assignment
-      case 260: // TypeAssignment
-      case 261: // ValueAssignment
-      case 262: // ValueSetTypeAssignment
+      case symbol_kind::S_ObjectClassAssignment: // ObjectClassAssignment
+      case symbol_kind::S_ObjectSetAssignment: // ObjectSetAssignment
+      case symbol_kind::S_ParameterizedAssignment: // ParameterizedAssignment
+      case symbol_kind::S_ParameterizedTypeAssignment: // ParameterizedTypeAssignment
+      case symbol_kind::S_ParameterizedValueAssignment: // ParameterizedValueAssignment
+      case symbol_kind::S_ParameterizedValueSetTypeAssignment: // ParameterizedValueSetTypeAssignment
+      case symbol_kind::S_ParameterizedObjectClassAssignment: // ParameterizedObjectClassAssignment
+      case symbol_kind::S_Assignment: // Assignment
+      case symbol_kind::S_TypeAssignment: // TypeAssignment
+      case symbol_kind::S_ValueAssignment: // ValueAssignment
+      case symbol_kind::S_ValueSetTypeAssignment: // ValueSetTypeAssignment
         value.move< Assignment > (YY_MOVE (that.value));
         break;
 
-      case 283: // BitStringType
+      case symbol_kind::S_BitStringType: // BitStringType
         value.move< BitStringType > (YY_MOVE (that.value));
         break;
 
-      case 272: // BooleanType
+      case symbol_kind::S_BooleanType: // BooleanType
         value.move< BooleanType > (YY_MOVE (that.value));
         break;
 
-      case 273: // BooleanValue
+      case symbol_kind::S_BooleanValue: // BooleanValue
         value.move< BooleanValue > (YY_MOVE (that.value));
         break;
 
-      case 264: // BuiltinType
+      case symbol_kind::S_BuiltinType: // BuiltinType
         value.move< BuiltinType > (YY_MOVE (that.value));
         break;
 
-      case 328: // CharacterStringType
-      case 329: // RestrictedCharacterStringType
-      case 330: // UnrestrictedCharacterStringType
+      case symbol_kind::S_CharacterStringType: // CharacterStringType
+      case symbol_kind::S_RestrictedCharacterStringType: // RestrictedCharacterStringType
+      case symbol_kind::S_UnrestrictedCharacterStringType: // UnrestrictedCharacterStringType
         value.move< CharacterStringType > (YY_MOVE (that.value));
         break;
 
-      case 295: // ChoiceType
+      case symbol_kind::S_ChoiceType: // ChoiceType
         value.move< ChoiceType > (YY_MOVE (that.value));
         break;
 
-      case 305: // Class
+      case symbol_kind::S_Class: // Class
         value.move< Class > (YY_MOVE (that.value));
         break;
 
-      case 289: // ComponentTypeLists
+      case symbol_kind::S_ComponentTypeLists: // ComponentTypeLists
         value.move< Collection > (YY_MOVE (that.value));
         break;
 
-      case 291: // ComponentType
+      case symbol_kind::S_ComponentType: // ComponentType
         value.move< ComponentType > (YY_MOVE (that.value));
         break;
 
-      case 290: // ComponentTypeList
+      case symbol_kind::S_ComponentTypeList: // ComponentTypeList
         value.move< ComponentTypeList > (YY_MOVE (that.value));
         break;
 
-      case 326: // DateTimeType
+      case symbol_kind::S_DateTimeType: // DateTimeType
         value.move< DateTimeType > (YY_MOVE (that.value));
         break;
 
-      case 324: // DateType
+      case symbol_kind::S_DateType: // DateType
         value.move< DateType > (YY_MOVE (that.value));
         break;
 
-      case 252: // DefinedType
-      case 254: // ParameterizedType
-      case 258: // ExternalTypeReference
+      case symbol_kind::S_DefinedType: // DefinedType
+      case symbol_kind::S_ParameterizedType: // ParameterizedType
+      case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
         value.move< DefinedType > (YY_MOVE (that.value));
         break;
 
-      case 253: // DefinedValue
+      case symbol_kind::S_DefinedValue: // DefinedValue
         value.move< DefinedValue > (YY_MOVE (that.value));
         break;
 
-      case 327: // DurationType
+      case symbol_kind::S_DurationType: // DurationType
         value.move< DurationType > (YY_MOVE (that.value));
         break;
 
-      case 320: // EmbeddedPDVType
+      case symbol_kind::S_EmbeddedPDVType: // EmbeddedPDVType
         value.move< EmbeddedPDVType > (YY_MOVE (that.value));
         break;
 
-      case 278: // EnumeratedType
-      case 279: // Enumerations
-      case 280: // Enumeration
+      case symbol_kind::S_EnumeratedType: // EnumeratedType
+      case symbol_kind::S_Enumerations: // Enumerations
+      case symbol_kind::S_Enumeration: // Enumeration
         value.move< EnumeratedType > (YY_MOVE (that.value));
         break;
 
-      case 281: // EnumerationItem
+      case symbol_kind::S_EnumerationItem: // EnumerationItem
         value.move< EnumerationValue > (YY_MOVE (that.value));
         break;
 
-      case 321: // ExternalType
+      case symbol_kind::S_ExternalType: // ExternalType
         value.move< ExternalType > (YY_MOVE (that.value));
         break;
 
-      case 314: // IRIType
+      case symbol_kind::S_IRIType: // IRIType
         value.move< IRIType > (YY_MOVE (that.value));
         break;
 
-      case 245: // SymbolsFromModule
+      case symbol_kind::S_SymbolsFromModule: // SymbolsFromModule
         value.move< Import > (YY_MOVE (that.value));
         break;
 
-      case 215: // InstanceOfType
+      case symbol_kind::S_InstanceOfType: // InstanceOfType
         value.move< InstanceOfType > (YY_MOVE (that.value));
         break;
 
-      case 274: // IntegerType
+      case symbol_kind::S_IntegerType: // IntegerType
         value.move< IntegerType > (YY_MOVE (that.value));
         break;
 
-      case 239: // ModuleBody
+      case symbol_kind::S_ModuleBody: // ModuleBody
         value.move< Module > (YY_MOVE (that.value));
         break;
 
-      case 276: // NamedNumber
+      case symbol_kind::S_NamedNumber: // NamedNumber
         value.move< NamedNumber > (YY_MOVE (that.value));
         break;
 
-      case 265: // NamedType
+      case symbol_kind::S_NamedType: // NamedType
         value.move< NamedType > (YY_MOVE (that.value));
         break;
 
-      case 287: // NullType
+      case symbol_kind::S_NullType: // NullType
         value.move< NullType > (YY_MOVE (that.value));
         break;
 
-      case 161: // ObjectClass
-      case 162: // ObjectClassDefn
+      case symbol_kind::S_ObjectClass: // ObjectClass
+      case symbol_kind::S_ObjectClassDefn: // ObjectClassDefn
         value.move< ObjectClassAssignment > (YY_MOVE (that.value));
         break;
 
-      case 202: // ObjectClassFieldType
+      case symbol_kind::S_ObjectClassFieldType: // ObjectClassFieldType
         value.move< ObjectClassFieldType > (YY_MOVE (that.value));
         break;
 
-      case 309: // ObjIdComponents
-      case 310: // NameForm
-      case 311: // NumberForm
-      case 312: // NameAndNumberForm
+      case symbol_kind::S_ObjIdComponents: // ObjIdComponents
+      case symbol_kind::S_NameForm: // NameForm
+      case symbol_kind::S_NumberForm: // NumberForm
+      case symbol_kind::S_NameAndNumberForm: // NameAndNumberForm
         value.move< ObjectIdComponentValue > (YY_MOVE (that.value));
         break;
 
-      case 306: // ObjectIdentifierType
+      case symbol_kind::S_ObjectIdentifierType: // ObjectIdentifierType
         value.move< ObjectIdentifierType > (YY_MOVE (that.value));
         break;
 
-      case 286: // OctetStringType
+      case symbol_kind::S_OctetStringType: // OctetStringType
         value.move< OctetStringType > (YY_MOVE (that.value));
         break;
 
-      case 210: // Parameter
+      case symbol_kind::S_Parameter: // Parameter
         value.move< Parameter > (YY_MOVE (that.value));
         break;
 
-      case 300: // PrefixedType
+      case symbol_kind::S_PrefixedType: // PrefixedType
         value.move< PrefixedType > (YY_MOVE (that.value));
         break;
 
-      case 282: // RealType
+      case symbol_kind::S_RealType: // RealType
         value.move< RealType > (YY_MOVE (that.value));
         break;
 
-      case 319: // RelativeIRIType
+      case symbol_kind::S_RelativeIRIType: // RelativeIRIType
         value.move< RelativeIRIType > (YY_MOVE (that.value));
         break;
 
-      case 313: // RelativeOIDType
+      case symbol_kind::S_RelativeOIDType: // RelativeOIDType
         value.move< RelativeOIDType > (YY_MOVE (that.value));
         break;
 
-      case 292: // SequenceOfType
+      case symbol_kind::S_SequenceOfType: // SequenceOfType
         value.move< SequenceOfType > (YY_MOVE (that.value));
         break;
 
-      case 288: // SequenceType
+      case symbol_kind::S_SequenceType: // SequenceType
         value.move< SequenceType > (YY_MOVE (that.value));
         break;
 
-      case 294: // SetOfType
+      case symbol_kind::S_SetOfType: // SetOfType
         value.move< SetOfType > (YY_MOVE (that.value));
         break;
 
-      case 293: // SetType
+      case symbol_kind::S_SetType: // SetType
         value.move< SetType > (YY_MOVE (that.value));
         break;
 
-      case 302: // Tag
+      case symbol_kind::S_Tag: // Tag
         value.move< Tag > (YY_MOVE (that.value));
         break;
 
-      case 301: // TaggedType
+      case symbol_kind::S_TaggedType: // TaggedType
         value.move< TaggedType > (YY_MOVE (that.value));
         break;
 
-      case 237: // TagDefault
+      case symbol_kind::S_TagDefault: // TagDefault
         value.move< TaggingMode > (YY_MOVE (that.value));
         break;
 
-      case 325: // TimeOfDayType
+      case symbol_kind::S_TimeOfDayType: // TimeOfDayType
         value.move< TimeOfDayType > (YY_MOVE (that.value));
         break;
 
-      case 322: // TimeType
+      case symbol_kind::S_TimeType: // TimeType
         value.move< TimeType > (YY_MOVE (that.value));
         break;
 
-      case 323: // TimeValue
+      case symbol_kind::S_TimeValue: // TimeValue
         value.move< TimeValue > (YY_MOVE (that.value));
         break;
 
-      case 211: // ParamGovernor
-      case 212: // Governor
-      case 257: // ActualParameter
-      case 263: // Type
-      case 331: // ConstrainedType
-      case 332: // TypeWithConstraint
+      case symbol_kind::S_ParamGovernor: // ParamGovernor
+      case symbol_kind::S_Governor: // Governor
+      case symbol_kind::S_ActualParameter: // ActualParameter
+      case symbol_kind::S_Type: // Type
+      case symbol_kind::S_ConstrainedType: // ConstrainedType
+      case symbol_kind::S_TypeWithConstraint: // TypeWithConstraint
         value.move< Type > (YY_MOVE (that.value));
         break;
 
-      case 266: // ValueWithoutTypeIdentifier
-      case 267: // Value
-      case 349: // SingleValue
+      case symbol_kind::S_ValueWithoutTypeIdentifier: // ValueWithoutTypeIdentifier
+      case symbol_kind::S_Value: // Value
+      case symbol_kind::S_SingleValue: // SingleValue
         value.move< Value > (YY_MOVE (that.value));
         break;
 
-      case 6: // realnumber
+      case symbol_kind::S_realnumber: // realnumber
         value.move< double > (YY_MOVE (that.value));
         break;
 
-      case 304: // ClassNumber
+      case symbol_kind::S_ClassNumber: // ClassNumber
         value.move< int > (YY_MOVE (that.value));
         break;
 
-      case 4: // number
-      case 5: // negativenumber
-      case 277: // SignedNumber
+      case symbol_kind::S_number: // number
+      case symbol_kind::S_negativenumber: // negativenumber
+      case symbol_kind::S_SignedNumber: // SignedNumber
         value.move< int64_t > (YY_MOVE (that.value));
         break;
 
-      case 7: // bstring
-      case 8: // xmlbstring
-      case 9: // hstring
-      case 10: // xmlhstring
-      case 11: // cstring
-      case 12: // xmlcstring
-      case 13: // simplestring
-      case 14: // xmltstring
-      case 22: // objectreference
-      case 24: // typefieldreference
-      case 25: // valuefieldreference
-      case 149: // GENERIC_IDENTIFIER_UPPERCASE
-      case 150: // GENERIC_IDENTIFIER_LOWERCASE
-      case 159: // UsefulObjectClassReference
-      case 165: // FieldName
-      case 216: // SimpleDefinedType
-      case 228: // ModuleIdentifier
-      case 246: // GlobalModuleReference
-      case 248: // Symbol
-      case 249: // Reference
-      case 372: // typereference
-      case 373: // identifier
-      case 374: // valuereference
-      case 375: // modulereference
-      case 376: // objectclassreference
-      case 377: // word
+      case symbol_kind::S_bstring: // bstring
+      case symbol_kind::S_xmlbstring: // xmlbstring
+      case symbol_kind::S_hstring: // hstring
+      case symbol_kind::S_xmlhstring: // xmlhstring
+      case symbol_kind::S_cstring: // cstring
+      case symbol_kind::S_xmlcstring: // xmlcstring
+      case symbol_kind::S_simplestring: // simplestring
+      case symbol_kind::S_xmltstring: // xmltstring
+      case symbol_kind::S_objectreference: // objectreference
+      case symbol_kind::S_typefieldreference: // typefieldreference
+      case symbol_kind::S_valuefieldreference: // valuefieldreference
+      case symbol_kind::S_GENERIC_IDENTIFIER_UPPERCASE: // GENERIC_IDENTIFIER_UPPERCASE
+      case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
+      case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
+      case symbol_kind::S_FieldName: // FieldName
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
+      case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
+      case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
+      case symbol_kind::S_Symbol: // Symbol
+      case symbol_kind::S_Reference: // Reference
+      case symbol_kind::S_typereference: // typereference
+      case symbol_kind::S_identifier: // identifier
+      case symbol_kind::S_valuereference: // valuereference
+      case symbol_kind::S_modulereference: // modulereference
+      case symbol_kind::S_objectclassreference: // objectclassreference
+      case symbol_kind::S_word: // word
         value.move< std::string > (YY_MOVE (that.value));
         break;
 
-      case 250: // AssignmentList
+      case symbol_kind::S_AssignmentList: // AssignmentList
         value.move< std::vector<Assignment> > (YY_MOVE (that.value));
         break;
 
-      case 163: // FieldSpecList
-      case 164: // FieldSpec
-      case 167: // TypeFieldSpec
-      case 171: // FixedTypeValueFieldSpec
+      case symbol_kind::S_FieldSpecList: // FieldSpecList
+      case symbol_kind::S_FieldSpec: // FieldSpec
+      case symbol_kind::S_TypeFieldSpec: // TypeFieldSpec
+      case symbol_kind::S_FixedTypeValueFieldSpec: // FixedTypeValueFieldSpec
         value.move< std::vector<ClassField> > (YY_MOVE (that.value));
         break;
 
-      case 240: // Exports
+      case symbol_kind::S_Exports: // Exports
         value.move< std::vector<Export> > (YY_MOVE (that.value));
         break;
 
-      case 242: // Imports
-      case 243: // SymbolsImported
-      case 244: // SymbolsFromModuleList
+      case symbol_kind::S_Imports: // Imports
+      case symbol_kind::S_SymbolsImported: // SymbolsImported
+      case symbol_kind::S_SymbolsFromModuleList: // SymbolsFromModuleList
         value.move< std::vector<Import> > (YY_MOVE (that.value));
         break;
 
-      case 275: // NamedNumberList
+      case symbol_kind::S_NamedNumberList: // NamedNumberList
         value.move< std::vector<NamedNumber> > (YY_MOVE (that.value));
         break;
 
-      case 296: // AlternativeTypeLists
-      case 297: // RootAlternativeTypeList
-      case 298: // AlternativeTypeList
+      case symbol_kind::S_AlternativeTypeLists: // AlternativeTypeLists
+      case symbol_kind::S_RootAlternativeTypeList: // RootAlternativeTypeList
+      case symbol_kind::S_AlternativeTypeList: // AlternativeTypeList
         value.move< std::vector<NamedType> > (YY_MOVE (that.value));
         break;
 
-      case 307: // ObjectIdentifierValue
-      case 308: // ObjIdComponentsList
+      case symbol_kind::S_ObjectIdentifierValue: // ObjectIdentifierValue
+      case symbol_kind::S_ObjIdComponentsList: // ObjIdComponentsList
         value.move< std::vector<ObjectIdComponentValue> > (YY_MOVE (that.value));
         break;
 
-      case 208: // ParameterList
-      case 209: // ParameterSeries
+      case symbol_kind::S_ParameterList: // ParameterList
+      case symbol_kind::S_ParameterSeries: // ParameterSeries
         value.move< std::vector<Parameter> > (YY_MOVE (that.value));
         break;
 
-      case 256: // ActualParameterList
+      case symbol_kind::S_ActualParameterList: // ActualParameterList
         value.move< std::vector<Type> > (YY_MOVE (that.value));
         break;
 
-      case 271: // SequenceOfValues
+      case symbol_kind::S_SequenceOfValues: // SequenceOfValues
         value.move< std::vector<Value> > (YY_MOVE (that.value));
         break;
 
-      case 166: // FieldNameList
-      case 168: // OneOrManyTypeFieldReference
-      case 247: // SymbolList
+      case symbol_kind::S_FieldNameList: // FieldNameList
+      case symbol_kind::S_OneOrManyTypeFieldReference: // OneOrManyTypeFieldReference
+      case symbol_kind::S_SymbolList: // SymbolList
         value.move< std::vector<std::string> > (YY_MOVE (that.value));
         break;
 
@@ -7084,338 +7582,677 @@ namespace yy {
     }
 
     // that is emptied.
-    that.type = empty_symbol;
+    that.kind_ = symbol_kind::S_YYEMPTY;
   }
 
 #if YY_CPLUSPLUS < 201103L
+  asn1_parser::stack_symbol_type&
+  asn1_parser::stack_symbol_type::operator= (const stack_symbol_type& that)
+  {
+    state = that.state;
+    switch (that.kind ())
+    {
+      case symbol_kind::S_ObjectClassAssignment: // ObjectClassAssignment
+      case symbol_kind::S_ObjectSetAssignment: // ObjectSetAssignment
+      case symbol_kind::S_ParameterizedAssignment: // ParameterizedAssignment
+      case symbol_kind::S_ParameterizedTypeAssignment: // ParameterizedTypeAssignment
+      case symbol_kind::S_ParameterizedValueAssignment: // ParameterizedValueAssignment
+      case symbol_kind::S_ParameterizedValueSetTypeAssignment: // ParameterizedValueSetTypeAssignment
+      case symbol_kind::S_ParameterizedObjectClassAssignment: // ParameterizedObjectClassAssignment
+      case symbol_kind::S_Assignment: // Assignment
+      case symbol_kind::S_TypeAssignment: // TypeAssignment
+      case symbol_kind::S_ValueAssignment: // ValueAssignment
+      case symbol_kind::S_ValueSetTypeAssignment: // ValueSetTypeAssignment
+        value.copy< Assignment > (that.value);
+        break;
+
+      case symbol_kind::S_BitStringType: // BitStringType
+        value.copy< BitStringType > (that.value);
+        break;
+
+      case symbol_kind::S_BooleanType: // BooleanType
+        value.copy< BooleanType > (that.value);
+        break;
+
+      case symbol_kind::S_BooleanValue: // BooleanValue
+        value.copy< BooleanValue > (that.value);
+        break;
+
+      case symbol_kind::S_BuiltinType: // BuiltinType
+        value.copy< BuiltinType > (that.value);
+        break;
+
+      case symbol_kind::S_CharacterStringType: // CharacterStringType
+      case symbol_kind::S_RestrictedCharacterStringType: // RestrictedCharacterStringType
+      case symbol_kind::S_UnrestrictedCharacterStringType: // UnrestrictedCharacterStringType
+        value.copy< CharacterStringType > (that.value);
+        break;
+
+      case symbol_kind::S_ChoiceType: // ChoiceType
+        value.copy< ChoiceType > (that.value);
+        break;
+
+      case symbol_kind::S_Class: // Class
+        value.copy< Class > (that.value);
+        break;
+
+      case symbol_kind::S_ComponentTypeLists: // ComponentTypeLists
+        value.copy< Collection > (that.value);
+        break;
+
+      case symbol_kind::S_ComponentType: // ComponentType
+        value.copy< ComponentType > (that.value);
+        break;
+
+      case symbol_kind::S_ComponentTypeList: // ComponentTypeList
+        value.copy< ComponentTypeList > (that.value);
+        break;
+
+      case symbol_kind::S_DateTimeType: // DateTimeType
+        value.copy< DateTimeType > (that.value);
+        break;
+
+      case symbol_kind::S_DateType: // DateType
+        value.copy< DateType > (that.value);
+        break;
+
+      case symbol_kind::S_DefinedType: // DefinedType
+      case symbol_kind::S_ParameterizedType: // ParameterizedType
+      case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
+        value.copy< DefinedType > (that.value);
+        break;
+
+      case symbol_kind::S_DefinedValue: // DefinedValue
+        value.copy< DefinedValue > (that.value);
+        break;
+
+      case symbol_kind::S_DurationType: // DurationType
+        value.copy< DurationType > (that.value);
+        break;
+
+      case symbol_kind::S_EmbeddedPDVType: // EmbeddedPDVType
+        value.copy< EmbeddedPDVType > (that.value);
+        break;
+
+      case symbol_kind::S_EnumeratedType: // EnumeratedType
+      case symbol_kind::S_Enumerations: // Enumerations
+      case symbol_kind::S_Enumeration: // Enumeration
+        value.copy< EnumeratedType > (that.value);
+        break;
+
+      case symbol_kind::S_EnumerationItem: // EnumerationItem
+        value.copy< EnumerationValue > (that.value);
+        break;
+
+      case symbol_kind::S_ExternalType: // ExternalType
+        value.copy< ExternalType > (that.value);
+        break;
+
+      case symbol_kind::S_IRIType: // IRIType
+        value.copy< IRIType > (that.value);
+        break;
+
+      case symbol_kind::S_SymbolsFromModule: // SymbolsFromModule
+        value.copy< Import > (that.value);
+        break;
+
+      case symbol_kind::S_InstanceOfType: // InstanceOfType
+        value.copy< InstanceOfType > (that.value);
+        break;
+
+      case symbol_kind::S_IntegerType: // IntegerType
+        value.copy< IntegerType > (that.value);
+        break;
+
+      case symbol_kind::S_ModuleBody: // ModuleBody
+        value.copy< Module > (that.value);
+        break;
+
+      case symbol_kind::S_NamedNumber: // NamedNumber
+        value.copy< NamedNumber > (that.value);
+        break;
+
+      case symbol_kind::S_NamedType: // NamedType
+        value.copy< NamedType > (that.value);
+        break;
+
+      case symbol_kind::S_NullType: // NullType
+        value.copy< NullType > (that.value);
+        break;
+
+      case symbol_kind::S_ObjectClass: // ObjectClass
+      case symbol_kind::S_ObjectClassDefn: // ObjectClassDefn
+        value.copy< ObjectClassAssignment > (that.value);
+        break;
+
+      case symbol_kind::S_ObjectClassFieldType: // ObjectClassFieldType
+        value.copy< ObjectClassFieldType > (that.value);
+        break;
+
+      case symbol_kind::S_ObjIdComponents: // ObjIdComponents
+      case symbol_kind::S_NameForm: // NameForm
+      case symbol_kind::S_NumberForm: // NumberForm
+      case symbol_kind::S_NameAndNumberForm: // NameAndNumberForm
+        value.copy< ObjectIdComponentValue > (that.value);
+        break;
+
+      case symbol_kind::S_ObjectIdentifierType: // ObjectIdentifierType
+        value.copy< ObjectIdentifierType > (that.value);
+        break;
+
+      case symbol_kind::S_OctetStringType: // OctetStringType
+        value.copy< OctetStringType > (that.value);
+        break;
+
+      case symbol_kind::S_Parameter: // Parameter
+        value.copy< Parameter > (that.value);
+        break;
+
+      case symbol_kind::S_PrefixedType: // PrefixedType
+        value.copy< PrefixedType > (that.value);
+        break;
+
+      case symbol_kind::S_RealType: // RealType
+        value.copy< RealType > (that.value);
+        break;
+
+      case symbol_kind::S_RelativeIRIType: // RelativeIRIType
+        value.copy< RelativeIRIType > (that.value);
+        break;
+
+      case symbol_kind::S_RelativeOIDType: // RelativeOIDType
+        value.copy< RelativeOIDType > (that.value);
+        break;
+
+      case symbol_kind::S_SequenceOfType: // SequenceOfType
+        value.copy< SequenceOfType > (that.value);
+        break;
+
+      case symbol_kind::S_SequenceType: // SequenceType
+        value.copy< SequenceType > (that.value);
+        break;
+
+      case symbol_kind::S_SetOfType: // SetOfType
+        value.copy< SetOfType > (that.value);
+        break;
+
+      case symbol_kind::S_SetType: // SetType
+        value.copy< SetType > (that.value);
+        break;
+
+      case symbol_kind::S_Tag: // Tag
+        value.copy< Tag > (that.value);
+        break;
+
+      case symbol_kind::S_TaggedType: // TaggedType
+        value.copy< TaggedType > (that.value);
+        break;
+
+      case symbol_kind::S_TagDefault: // TagDefault
+        value.copy< TaggingMode > (that.value);
+        break;
+
+      case symbol_kind::S_TimeOfDayType: // TimeOfDayType
+        value.copy< TimeOfDayType > (that.value);
+        break;
+
+      case symbol_kind::S_TimeType: // TimeType
+        value.copy< TimeType > (that.value);
+        break;
+
+      case symbol_kind::S_TimeValue: // TimeValue
+        value.copy< TimeValue > (that.value);
+        break;
+
+      case symbol_kind::S_ParamGovernor: // ParamGovernor
+      case symbol_kind::S_Governor: // Governor
+      case symbol_kind::S_ActualParameter: // ActualParameter
+      case symbol_kind::S_Type: // Type
+      case symbol_kind::S_ConstrainedType: // ConstrainedType
+      case symbol_kind::S_TypeWithConstraint: // TypeWithConstraint
+        value.copy< Type > (that.value);
+        break;
+
+      case symbol_kind::S_ValueWithoutTypeIdentifier: // ValueWithoutTypeIdentifier
+      case symbol_kind::S_Value: // Value
+      case symbol_kind::S_SingleValue: // SingleValue
+        value.copy< Value > (that.value);
+        break;
+
+      case symbol_kind::S_realnumber: // realnumber
+        value.copy< double > (that.value);
+        break;
+
+      case symbol_kind::S_ClassNumber: // ClassNumber
+        value.copy< int > (that.value);
+        break;
+
+      case symbol_kind::S_number: // number
+      case symbol_kind::S_negativenumber: // negativenumber
+      case symbol_kind::S_SignedNumber: // SignedNumber
+        value.copy< int64_t > (that.value);
+        break;
+
+      case symbol_kind::S_bstring: // bstring
+      case symbol_kind::S_xmlbstring: // xmlbstring
+      case symbol_kind::S_hstring: // hstring
+      case symbol_kind::S_xmlhstring: // xmlhstring
+      case symbol_kind::S_cstring: // cstring
+      case symbol_kind::S_xmlcstring: // xmlcstring
+      case symbol_kind::S_simplestring: // simplestring
+      case symbol_kind::S_xmltstring: // xmltstring
+      case symbol_kind::S_objectreference: // objectreference
+      case symbol_kind::S_typefieldreference: // typefieldreference
+      case symbol_kind::S_valuefieldreference: // valuefieldreference
+      case symbol_kind::S_GENERIC_IDENTIFIER_UPPERCASE: // GENERIC_IDENTIFIER_UPPERCASE
+      case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
+      case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
+      case symbol_kind::S_FieldName: // FieldName
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
+      case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
+      case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
+      case symbol_kind::S_Symbol: // Symbol
+      case symbol_kind::S_Reference: // Reference
+      case symbol_kind::S_typereference: // typereference
+      case symbol_kind::S_identifier: // identifier
+      case symbol_kind::S_valuereference: // valuereference
+      case symbol_kind::S_modulereference: // modulereference
+      case symbol_kind::S_objectclassreference: // objectclassreference
+      case symbol_kind::S_word: // word
+        value.copy< std::string > (that.value);
+        break;
+
+      case symbol_kind::S_AssignmentList: // AssignmentList
+        value.copy< std::vector<Assignment> > (that.value);
+        break;
+
+      case symbol_kind::S_FieldSpecList: // FieldSpecList
+      case symbol_kind::S_FieldSpec: // FieldSpec
+      case symbol_kind::S_TypeFieldSpec: // TypeFieldSpec
+      case symbol_kind::S_FixedTypeValueFieldSpec: // FixedTypeValueFieldSpec
+        value.copy< std::vector<ClassField> > (that.value);
+        break;
+
+      case symbol_kind::S_Exports: // Exports
+        value.copy< std::vector<Export> > (that.value);
+        break;
+
+      case symbol_kind::S_Imports: // Imports
+      case symbol_kind::S_SymbolsImported: // SymbolsImported
+      case symbol_kind::S_SymbolsFromModuleList: // SymbolsFromModuleList
+        value.copy< std::vector<Import> > (that.value);
+        break;
+
+      case symbol_kind::S_NamedNumberList: // NamedNumberList
+        value.copy< std::vector<NamedNumber> > (that.value);
+        break;
+
+      case symbol_kind::S_AlternativeTypeLists: // AlternativeTypeLists
+      case symbol_kind::S_RootAlternativeTypeList: // RootAlternativeTypeList
+      case symbol_kind::S_AlternativeTypeList: // AlternativeTypeList
+        value.copy< std::vector<NamedType> > (that.value);
+        break;
+
+      case symbol_kind::S_ObjectIdentifierValue: // ObjectIdentifierValue
+      case symbol_kind::S_ObjIdComponentsList: // ObjIdComponentsList
+        value.copy< std::vector<ObjectIdComponentValue> > (that.value);
+        break;
+
+      case symbol_kind::S_ParameterList: // ParameterList
+      case symbol_kind::S_ParameterSeries: // ParameterSeries
+        value.copy< std::vector<Parameter> > (that.value);
+        break;
+
+      case symbol_kind::S_ActualParameterList: // ActualParameterList
+        value.copy< std::vector<Type> > (that.value);
+        break;
+
+      case symbol_kind::S_SequenceOfValues: // SequenceOfValues
+        value.copy< std::vector<Value> > (that.value);
+        break;
+
+      case symbol_kind::S_FieldNameList: // FieldNameList
+      case symbol_kind::S_OneOrManyTypeFieldReference: // OneOrManyTypeFieldReference
+      case symbol_kind::S_SymbolList: // SymbolList
+        value.copy< std::vector<std::string> > (that.value);
+        break;
+
+      default:
+        break;
+    }
+
+    location = that.location;
+    return *this;
+  }
+
   asn1_parser::stack_symbol_type&
   asn1_parser::stack_symbol_type::operator= (stack_symbol_type& that)
   {
     state = that.state;
-    switch (that.type_get ())
+    switch (that.kind ())
     {
-      case 160: // ObjectClassAssignment
-      case 199: // ObjectSetAssignment
-      case 203: // ParameterizedAssignment
-      case 204: // ParameterizedTypeAssignment
-      case 205: // ParameterizedValueAssignment
-      case 206: // ParameterizedValueSetTypeAssignment
-      case 207: // ParameterizedObjectClassAssignment
-      case 251: // Assignment
-      case 260: // TypeAssignment
-      case 261: // ValueAssignment
-      case 262: // ValueSetTypeAssignment
+      case symbol_kind::S_ObjectClassAssignment: // ObjectClassAssignment
+      case symbol_kind::S_ObjectSetAssignment: // ObjectSetAssignment
+      case symbol_kind::S_ParameterizedAssignment: // ParameterizedAssignment
+      case symbol_kind::S_ParameterizedTypeAssignment: // ParameterizedTypeAssignment
+      case symbol_kind::S_ParameterizedValueAssignment: // ParameterizedValueAssignment
+      case symbol_kind::S_ParameterizedValueSetTypeAssignment: // ParameterizedValueSetTypeAssignment
+      case symbol_kind::S_ParameterizedObjectClassAssignment: // ParameterizedObjectClassAssignment
+      case symbol_kind::S_Assignment: // Assignment
+      case symbol_kind::S_TypeAssignment: // TypeAssignment
+      case symbol_kind::S_ValueAssignment: // ValueAssignment
+      case symbol_kind::S_ValueSetTypeAssignment: // ValueSetTypeAssignment
         value.move< Assignment > (that.value);
         break;
 
-      case 283: // BitStringType
+      case symbol_kind::S_BitStringType: // BitStringType
         value.move< BitStringType > (that.value);
         break;
 
-      case 272: // BooleanType
+      case symbol_kind::S_BooleanType: // BooleanType
         value.move< BooleanType > (that.value);
         break;
 
-      case 273: // BooleanValue
+      case symbol_kind::S_BooleanValue: // BooleanValue
         value.move< BooleanValue > (that.value);
         break;
 
-      case 264: // BuiltinType
+      case symbol_kind::S_BuiltinType: // BuiltinType
         value.move< BuiltinType > (that.value);
         break;
 
-      case 328: // CharacterStringType
-      case 329: // RestrictedCharacterStringType
-      case 330: // UnrestrictedCharacterStringType
+      case symbol_kind::S_CharacterStringType: // CharacterStringType
+      case symbol_kind::S_RestrictedCharacterStringType: // RestrictedCharacterStringType
+      case symbol_kind::S_UnrestrictedCharacterStringType: // UnrestrictedCharacterStringType
         value.move< CharacterStringType > (that.value);
         break;
 
-      case 295: // ChoiceType
+      case symbol_kind::S_ChoiceType: // ChoiceType
         value.move< ChoiceType > (that.value);
         break;
 
-      case 305: // Class
+      case symbol_kind::S_Class: // Class
         value.move< Class > (that.value);
         break;
 
-      case 289: // ComponentTypeLists
+      case symbol_kind::S_ComponentTypeLists: // ComponentTypeLists
         value.move< Collection > (that.value);
         break;
 
-      case 291: // ComponentType
+      case symbol_kind::S_ComponentType: // ComponentType
         value.move< ComponentType > (that.value);
         break;
 
-      case 290: // ComponentTypeList
+      case symbol_kind::S_ComponentTypeList: // ComponentTypeList
         value.move< ComponentTypeList > (that.value);
         break;
 
-      case 326: // DateTimeType
+      case symbol_kind::S_DateTimeType: // DateTimeType
         value.move< DateTimeType > (that.value);
         break;
 
-      case 324: // DateType
+      case symbol_kind::S_DateType: // DateType
         value.move< DateType > (that.value);
         break;
 
-      case 252: // DefinedType
-      case 254: // ParameterizedType
-      case 258: // ExternalTypeReference
+      case symbol_kind::S_DefinedType: // DefinedType
+      case symbol_kind::S_ParameterizedType: // ParameterizedType
+      case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
         value.move< DefinedType > (that.value);
         break;
 
-      case 253: // DefinedValue
+      case symbol_kind::S_DefinedValue: // DefinedValue
         value.move< DefinedValue > (that.value);
         break;
 
-      case 327: // DurationType
+      case symbol_kind::S_DurationType: // DurationType
         value.move< DurationType > (that.value);
         break;
 
-      case 320: // EmbeddedPDVType
+      case symbol_kind::S_EmbeddedPDVType: // EmbeddedPDVType
         value.move< EmbeddedPDVType > (that.value);
         break;
 
-      case 278: // EnumeratedType
-      case 279: // Enumerations
-      case 280: // Enumeration
+      case symbol_kind::S_EnumeratedType: // EnumeratedType
+      case symbol_kind::S_Enumerations: // Enumerations
+      case symbol_kind::S_Enumeration: // Enumeration
         value.move< EnumeratedType > (that.value);
         break;
 
-      case 281: // EnumerationItem
+      case symbol_kind::S_EnumerationItem: // EnumerationItem
         value.move< EnumerationValue > (that.value);
         break;
 
-      case 321: // ExternalType
+      case symbol_kind::S_ExternalType: // ExternalType
         value.move< ExternalType > (that.value);
         break;
 
-      case 314: // IRIType
+      case symbol_kind::S_IRIType: // IRIType
         value.move< IRIType > (that.value);
         break;
 
-      case 245: // SymbolsFromModule
+      case symbol_kind::S_SymbolsFromModule: // SymbolsFromModule
         value.move< Import > (that.value);
         break;
 
-      case 215: // InstanceOfType
+      case symbol_kind::S_InstanceOfType: // InstanceOfType
         value.move< InstanceOfType > (that.value);
         break;
 
-      case 274: // IntegerType
+      case symbol_kind::S_IntegerType: // IntegerType
         value.move< IntegerType > (that.value);
         break;
 
-      case 239: // ModuleBody
+      case symbol_kind::S_ModuleBody: // ModuleBody
         value.move< Module > (that.value);
         break;
 
-      case 276: // NamedNumber
+      case symbol_kind::S_NamedNumber: // NamedNumber
         value.move< NamedNumber > (that.value);
         break;
 
-      case 265: // NamedType
+      case symbol_kind::S_NamedType: // NamedType
         value.move< NamedType > (that.value);
         break;
 
-      case 287: // NullType
+      case symbol_kind::S_NullType: // NullType
         value.move< NullType > (that.value);
         break;
 
-      case 161: // ObjectClass
-      case 162: // ObjectClassDefn
+      case symbol_kind::S_ObjectClass: // ObjectClass
+      case symbol_kind::S_ObjectClassDefn: // ObjectClassDefn
         value.move< ObjectClassAssignment > (that.value);
         break;
 
-      case 202: // ObjectClassFieldType
+      case symbol_kind::S_ObjectClassFieldType: // ObjectClassFieldType
         value.move< ObjectClassFieldType > (that.value);
         break;
 
-      case 309: // ObjIdComponents
-      case 310: // NameForm
-      case 311: // NumberForm
-      case 312: // NameAndNumberForm
+      case symbol_kind::S_ObjIdComponents: // ObjIdComponents
+      case symbol_kind::S_NameForm: // NameForm
+      case symbol_kind::S_NumberForm: // NumberForm
+      case symbol_kind::S_NameAndNumberForm: // NameAndNumberForm
         value.move< ObjectIdComponentValue > (that.value);
         break;
 
-      case 306: // ObjectIdentifierType
+      case symbol_kind::S_ObjectIdentifierType: // ObjectIdentifierType
         value.move< ObjectIdentifierType > (that.value);
         break;
 
-      case 286: // OctetStringType
+      case symbol_kind::S_OctetStringType: // OctetStringType
         value.move< OctetStringType > (that.value);
         break;
 
-      case 210: // Parameter
+      case symbol_kind::S_Parameter: // Parameter
         value.move< Parameter > (that.value);
         break;
 
-      case 300: // PrefixedType
+      case symbol_kind::S_PrefixedType: // PrefixedType
         value.move< PrefixedType > (that.value);
         break;
 
-      case 282: // RealType
+      case symbol_kind::S_RealType: // RealType
         value.move< RealType > (that.value);
         break;
 
-      case 319: // RelativeIRIType
+      case symbol_kind::S_RelativeIRIType: // RelativeIRIType
         value.move< RelativeIRIType > (that.value);
         break;
 
-      case 313: // RelativeOIDType
+      case symbol_kind::S_RelativeOIDType: // RelativeOIDType
         value.move< RelativeOIDType > (that.value);
         break;
 
-      case 292: // SequenceOfType
+      case symbol_kind::S_SequenceOfType: // SequenceOfType
         value.move< SequenceOfType > (that.value);
         break;
 
-      case 288: // SequenceType
+      case symbol_kind::S_SequenceType: // SequenceType
         value.move< SequenceType > (that.value);
         break;
 
-      case 294: // SetOfType
+      case symbol_kind::S_SetOfType: // SetOfType
         value.move< SetOfType > (that.value);
         break;
 
-      case 293: // SetType
+      case symbol_kind::S_SetType: // SetType
         value.move< SetType > (that.value);
         break;
 
-      case 302: // Tag
+      case symbol_kind::S_Tag: // Tag
         value.move< Tag > (that.value);
         break;
 
-      case 301: // TaggedType
+      case symbol_kind::S_TaggedType: // TaggedType
         value.move< TaggedType > (that.value);
         break;
 
-      case 237: // TagDefault
+      case symbol_kind::S_TagDefault: // TagDefault
         value.move< TaggingMode > (that.value);
         break;
 
-      case 325: // TimeOfDayType
+      case symbol_kind::S_TimeOfDayType: // TimeOfDayType
         value.move< TimeOfDayType > (that.value);
         break;
 
-      case 322: // TimeType
+      case symbol_kind::S_TimeType: // TimeType
         value.move< TimeType > (that.value);
         break;
 
-      case 323: // TimeValue
+      case symbol_kind::S_TimeValue: // TimeValue
         value.move< TimeValue > (that.value);
         break;
 
-      case 211: // ParamGovernor
-      case 212: // Governor
-      case 257: // ActualParameter
-      case 263: // Type
-      case 331: // ConstrainedType
-      case 332: // TypeWithConstraint
+      case symbol_kind::S_ParamGovernor: // ParamGovernor
+      case symbol_kind::S_Governor: // Governor
+      case symbol_kind::S_ActualParameter: // ActualParameter
+      case symbol_kind::S_Type: // Type
+      case symbol_kind::S_ConstrainedType: // ConstrainedType
+      case symbol_kind::S_TypeWithConstraint: // TypeWithConstraint
         value.move< Type > (that.value);
         break;
 
-      case 266: // ValueWithoutTypeIdentifier
-      case 267: // Value
-      case 349: // SingleValue
+      case symbol_kind::S_ValueWithoutTypeIdentifier: // ValueWithoutTypeIdentifier
+      case symbol_kind::S_Value: // Value
+      case symbol_kind::S_SingleValue: // SingleValue
         value.move< Value > (that.value);
         break;
 
-      case 6: // realnumber
+      case symbol_kind::S_realnumber: // realnumber
         value.move< double > (that.value);
         break;
 
-      case 304: // ClassNumber
+      case symbol_kind::S_ClassNumber: // ClassNumber
         value.move< int > (that.value);
         break;
 
-      case 4: // number
-      case 5: // negativenumber
-      case 277: // SignedNumber
+      case symbol_kind::S_number: // number
+      case symbol_kind::S_negativenumber: // negativenumber
+      case symbol_kind::S_SignedNumber: // SignedNumber
         value.move< int64_t > (that.value);
         break;
 
-      case 7: // bstring
-      case 8: // xmlbstring
-      case 9: // hstring
-      case 10: // xmlhstring
-      case 11: // cstring
-      case 12: // xmlcstring
-      case 13: // simplestring
-      case 14: // xmltstring
-      case 22: // objectreference
-      case 24: // typefieldreference
-      case 25: // valuefieldreference
-      case 149: // GENERIC_IDENTIFIER_UPPERCASE
-      case 150: // GENERIC_IDENTIFIER_LOWERCASE
-      case 159: // UsefulObjectClassReference
-      case 165: // FieldName
-      case 216: // SimpleDefinedType
-      case 228: // ModuleIdentifier
-      case 246: // GlobalModuleReference
-      case 248: // Symbol
-      case 249: // Reference
-      case 372: // typereference
-      case 373: // identifier
-      case 374: // valuereference
-      case 375: // modulereference
-      case 376: // objectclassreference
-      case 377: // word
+      case symbol_kind::S_bstring: // bstring
+      case symbol_kind::S_xmlbstring: // xmlbstring
+      case symbol_kind::S_hstring: // hstring
+      case symbol_kind::S_xmlhstring: // xmlhstring
+      case symbol_kind::S_cstring: // cstring
+      case symbol_kind::S_xmlcstring: // xmlcstring
+      case symbol_kind::S_simplestring: // simplestring
+      case symbol_kind::S_xmltstring: // xmltstring
+      case symbol_kind::S_objectreference: // objectreference
+      case symbol_kind::S_typefieldreference: // typefieldreference
+      case symbol_kind::S_valuefieldreference: // valuefieldreference
+      case symbol_kind::S_GENERIC_IDENTIFIER_UPPERCASE: // GENERIC_IDENTIFIER_UPPERCASE
+      case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
+      case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
+      case symbol_kind::S_FieldName: // FieldName
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
+      case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
+      case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
+      case symbol_kind::S_Symbol: // Symbol
+      case symbol_kind::S_Reference: // Reference
+      case symbol_kind::S_typereference: // typereference
+      case symbol_kind::S_identifier: // identifier
+      case symbol_kind::S_valuereference: // valuereference
+      case symbol_kind::S_modulereference: // modulereference
+      case symbol_kind::S_objectclassreference: // objectclassreference
+      case symbol_kind::S_word: // word
         value.move< std::string > (that.value);
         break;
 
-      case 250: // AssignmentList
+      case symbol_kind::S_AssignmentList: // AssignmentList
         value.move< std::vector<Assignment> > (that.value);
         break;
 
-      case 163: // FieldSpecList
-      case 164: // FieldSpec
-      case 167: // TypeFieldSpec
-      case 171: // FixedTypeValueFieldSpec
+      case symbol_kind::S_FieldSpecList: // FieldSpecList
+      case symbol_kind::S_FieldSpec: // FieldSpec
+      case symbol_kind::S_TypeFieldSpec: // TypeFieldSpec
+      case symbol_kind::S_FixedTypeValueFieldSpec: // FixedTypeValueFieldSpec
         value.move< std::vector<ClassField> > (that.value);
         break;
 
-      case 240: // Exports
+      case symbol_kind::S_Exports: // Exports
         value.move< std::vector<Export> > (that.value);
         break;
 
-      case 242: // Imports
-      case 243: // SymbolsImported
-      case 244: // SymbolsFromModuleList
+      case symbol_kind::S_Imports: // Imports
+      case symbol_kind::S_SymbolsImported: // SymbolsImported
+      case symbol_kind::S_SymbolsFromModuleList: // SymbolsFromModuleList
         value.move< std::vector<Import> > (that.value);
         break;
 
-      case 275: // NamedNumberList
+      case symbol_kind::S_NamedNumberList: // NamedNumberList
         value.move< std::vector<NamedNumber> > (that.value);
         break;
 
-      case 296: // AlternativeTypeLists
-      case 297: // RootAlternativeTypeList
-      case 298: // AlternativeTypeList
+      case symbol_kind::S_AlternativeTypeLists: // AlternativeTypeLists
+      case symbol_kind::S_RootAlternativeTypeList: // RootAlternativeTypeList
+      case symbol_kind::S_AlternativeTypeList: // AlternativeTypeList
         value.move< std::vector<NamedType> > (that.value);
         break;
 
-      case 307: // ObjectIdentifierValue
-      case 308: // ObjIdComponentsList
+      case symbol_kind::S_ObjectIdentifierValue: // ObjectIdentifierValue
+      case symbol_kind::S_ObjIdComponentsList: // ObjIdComponentsList
         value.move< std::vector<ObjectIdComponentValue> > (that.value);
         break;
 
-      case 208: // ParameterList
-      case 209: // ParameterSeries
+      case symbol_kind::S_ParameterList: // ParameterList
+      case symbol_kind::S_ParameterSeries: // ParameterSeries
         value.move< std::vector<Parameter> > (that.value);
         break;
 
-      case 256: // ActualParameterList
+      case symbol_kind::S_ActualParameterList: // ActualParameterList
         value.move< std::vector<Type> > (that.value);
         break;
 
-      case 271: // SequenceOfValues
+      case symbol_kind::S_SequenceOfValues: // SequenceOfValues
         value.move< std::vector<Value> > (that.value);
         break;
 
-      case 166: // FieldNameList
-      case 168: // OneOrManyTypeFieldReference
-      case 247: // SymbolList
+      case symbol_kind::S_FieldNameList: // FieldNameList
+      case symbol_kind::S_OneOrManyTypeFieldReference: // OneOrManyTypeFieldReference
+      case symbol_kind::S_SymbolList: // SymbolList
         value.move< std::vector<std::string> > (that.value);
         break;
 
@@ -7441,23 +8278,21 @@ namespace yy {
 #if YYDEBUG
   template <typename Base>
   void
-  asn1_parser::yy_print_ (std::ostream& yyo,
-                                     const basic_symbol<Base>& yysym) const
+  asn1_parser::yy_print_ (std::ostream& yyo, const basic_symbol<Base>& yysym) const
   {
     std::ostream& yyoutput = yyo;
-    YYUSE (yyoutput);
-    symbol_number_type yytype = yysym.type_get ();
-#if defined __GNUC__ && ! defined __clang__ && ! defined __ICC && __GNUC__ * 100 + __GNUC_MINOR__ <= 408
-    // Avoid a (spurious) G++ 4.8 warning about "array subscript is
-    // below array bounds".
+    YY_USE (yyoutput);
     if (yysym.empty ())
-      std::abort ();
-#endif
-    yyo << (yytype < yyntokens_ ? "token" : "nterm")
-        << ' ' << yytname_[yytype] << " ("
-        << yysym.location << ": ";
-    YYUSE (yytype);
-    yyo << ')';
+      yyo << "empty symbol";
+    else
+      {
+        symbol_kind_type yykind = yysym.kind ();
+        yyo << (yykind < YYNTOKENS ? "token" : "nterm")
+            << ' ' << yysym.name () << " ("
+            << yysym.location << ": ";
+        YY_USE (yykind);
+        yyo << ')';
+      }
   }
 #endif
 
@@ -7481,7 +8316,7 @@ namespace yy {
   }
 
   void
-  asn1_parser::yypop_ (int n)
+  asn1_parser::yypop_ (int n) YY_NOEXCEPT
   {
     yystack_.pop (n);
   }
@@ -7516,21 +8351,21 @@ namespace yy {
   asn1_parser::state_type
   asn1_parser::yy_lr_goto_state_ (state_type yystate, int yysym)
   {
-    int yyr = yypgoto_[yysym - yyntokens_] + yystate;
+    int yyr = yypgoto_[yysym - YYNTOKENS] + yystate;
     if (0 <= yyr && yyr <= yylast_ && yycheck_[yyr] == yystate)
       return yytable_[yyr];
     else
-      return yydefgoto_[yysym - yyntokens_];
+      return yydefgoto_[yysym - YYNTOKENS];
   }
 
   bool
-  asn1_parser::yy_pact_value_is_default_ (int yyvalue)
+  asn1_parser::yy_pact_value_is_default_ (int yyvalue) YY_NOEXCEPT
   {
     return yyvalue == yypact_ninf_;
   }
 
   bool
-  asn1_parser::yy_table_value_is_error_ (int yyvalue)
+  asn1_parser::yy_table_value_is_error_ (int yyvalue) YY_NOEXCEPT
   {
     return yyvalue == yytable_ninf_;
   }
@@ -7544,7 +8379,6 @@ namespace yy {
   int
   asn1_parser::parse ()
   {
-    // State.
     int yyn;
     /// Length of the RHS of the rule being reduced.
     int yylen = 0;
@@ -7580,7 +8414,8 @@ namespace yy {
   | yynewstate -- push a new symbol on the stack.  |
   `-----------------------------------------------*/
   yynewstate:
-    YYCDEBUG << "Entering state " << yystack_[0].state << '\n';
+    YYCDEBUG << "Entering state " << int (yystack_[0].state) << '\n';
+    YY_STACK_PRINT ();
 
     // Accept?
     if (yystack_[0].state == yyfinal_)
@@ -7594,14 +8429,14 @@ namespace yy {
   `-----------*/
   yybackup:
     // Try to take a decision without lookahead.
-    yyn = yypact_[yystack_[0].state];
+    yyn = yypact_[+yystack_[0].state];
     if (yy_pact_value_is_default_ (yyn))
       goto yydefault;
 
     // Read a lookahead token.
     if (yyla.empty ())
       {
-        YYCDEBUG << "Reading a token: ";
+        YYCDEBUG << "Reading a token\n";
 #if YY_EXCEPTIONS
         try
 #endif // YY_EXCEPTIONS
@@ -7620,11 +8455,23 @@ namespace yy {
       }
     YY_SYMBOL_PRINT ("Next token is", yyla);
 
+    if (yyla.kind () == symbol_kind::S_YYerror)
+    {
+      // The scanner already issued an error message, process directly
+      // to error recovery.  But do not keep the error token as
+      // lookahead, it is too special and may lead us to an endless
+      // loop in error recovery. */
+      yyla.kind_ = symbol_kind::S_YYUNDEF;
+      goto yyerrlab1;
+    }
+
     /* If the proper action on seeing token YYLA.TYPE is to reduce or
        to detect an error, take that action.  */
-    yyn += yyla.type_get ();
-    if (yyn < 0 || yylast_ < yyn || yycheck_[yyn] != yyla.type_get ())
-      goto yydefault;
+    yyn += yyla.kind ();
+    if (yyn < 0 || yylast_ < yyn || yycheck_[yyn] != yyla.kind ())
+      {
+        goto yydefault;
+      }
 
     // Reduce or error.
     yyn = yytable_[yyn];
@@ -7641,7 +8488,7 @@ namespace yy {
       --yyerrstatus_;
 
     // Shift the lookahead token.
-    yypush_ ("Shifting", yyn, YY_MOVE (yyla));
+    yypush_ ("Shifting", state_type (yyn), YY_MOVE (yyla));
     goto yynewstate;
 
 
@@ -7649,7 +8496,7 @@ namespace yy {
   | yydefault -- do the default action for the current state.  |
   `-----------------------------------------------------------*/
   yydefault:
-    yyn = yydefact_[yystack_[0].state];
+    yyn = yydefact_[+yystack_[0].state];
     if (yyn == 0)
       goto yyerrlab;
     goto yyreduce;
@@ -7668,328 +8515,328 @@ namespace yy {
          when using variants.  */
       switch (yyr1_[yyn])
     {
-      case 160: // ObjectClassAssignment
-      case 199: // ObjectSetAssignment
-      case 203: // ParameterizedAssignment
-      case 204: // ParameterizedTypeAssignment
-      case 205: // ParameterizedValueAssignment
-      case 206: // ParameterizedValueSetTypeAssignment
-      case 207: // ParameterizedObjectClassAssignment
-      case 251: // Assignment
-      case 260: // TypeAssignment
-      case 261: // ValueAssignment
-      case 262: // ValueSetTypeAssignment
+      case symbol_kind::S_ObjectClassAssignment: // ObjectClassAssignment
+      case symbol_kind::S_ObjectSetAssignment: // ObjectSetAssignment
+      case symbol_kind::S_ParameterizedAssignment: // ParameterizedAssignment
+      case symbol_kind::S_ParameterizedTypeAssignment: // ParameterizedTypeAssignment
+      case symbol_kind::S_ParameterizedValueAssignment: // ParameterizedValueAssignment
+      case symbol_kind::S_ParameterizedValueSetTypeAssignment: // ParameterizedValueSetTypeAssignment
+      case symbol_kind::S_ParameterizedObjectClassAssignment: // ParameterizedObjectClassAssignment
+      case symbol_kind::S_Assignment: // Assignment
+      case symbol_kind::S_TypeAssignment: // TypeAssignment
+      case symbol_kind::S_ValueAssignment: // ValueAssignment
+      case symbol_kind::S_ValueSetTypeAssignment: // ValueSetTypeAssignment
         yylhs.value.emplace< Assignment > ();
         break;
 
-      case 283: // BitStringType
+      case symbol_kind::S_BitStringType: // BitStringType
         yylhs.value.emplace< BitStringType > ();
         break;
 
-      case 272: // BooleanType
+      case symbol_kind::S_BooleanType: // BooleanType
         yylhs.value.emplace< BooleanType > ();
         break;
 
-      case 273: // BooleanValue
+      case symbol_kind::S_BooleanValue: // BooleanValue
         yylhs.value.emplace< BooleanValue > ();
         break;
 
-      case 264: // BuiltinType
+      case symbol_kind::S_BuiltinType: // BuiltinType
         yylhs.value.emplace< BuiltinType > ();
         break;
 
-      case 328: // CharacterStringType
-      case 329: // RestrictedCharacterStringType
-      case 330: // UnrestrictedCharacterStringType
+      case symbol_kind::S_CharacterStringType: // CharacterStringType
+      case symbol_kind::S_RestrictedCharacterStringType: // RestrictedCharacterStringType
+      case symbol_kind::S_UnrestrictedCharacterStringType: // UnrestrictedCharacterStringType
         yylhs.value.emplace< CharacterStringType > ();
         break;
 
-      case 295: // ChoiceType
+      case symbol_kind::S_ChoiceType: // ChoiceType
         yylhs.value.emplace< ChoiceType > ();
         break;
 
-      case 305: // Class
+      case symbol_kind::S_Class: // Class
         yylhs.value.emplace< Class > ();
         break;
 
-      case 289: // ComponentTypeLists
+      case symbol_kind::S_ComponentTypeLists: // ComponentTypeLists
         yylhs.value.emplace< Collection > ();
         break;
 
-      case 291: // ComponentType
+      case symbol_kind::S_ComponentType: // ComponentType
         yylhs.value.emplace< ComponentType > ();
         break;
 
-      case 290: // ComponentTypeList
+      case symbol_kind::S_ComponentTypeList: // ComponentTypeList
         yylhs.value.emplace< ComponentTypeList > ();
         break;
 
-      case 326: // DateTimeType
+      case symbol_kind::S_DateTimeType: // DateTimeType
         yylhs.value.emplace< DateTimeType > ();
         break;
 
-      case 324: // DateType
+      case symbol_kind::S_DateType: // DateType
         yylhs.value.emplace< DateType > ();
         break;
 
-      case 252: // DefinedType
-      case 254: // ParameterizedType
-      case 258: // ExternalTypeReference
+      case symbol_kind::S_DefinedType: // DefinedType
+      case symbol_kind::S_ParameterizedType: // ParameterizedType
+      case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
         yylhs.value.emplace< DefinedType > ();
         break;
 
-      case 253: // DefinedValue
+      case symbol_kind::S_DefinedValue: // DefinedValue
         yylhs.value.emplace< DefinedValue > ();
         break;
 
-      case 327: // DurationType
+      case symbol_kind::S_DurationType: // DurationType
         yylhs.value.emplace< DurationType > ();
         break;
 
-      case 320: // EmbeddedPDVType
+      case symbol_kind::S_EmbeddedPDVType: // EmbeddedPDVType
         yylhs.value.emplace< EmbeddedPDVType > ();
         break;
 
-      case 278: // EnumeratedType
-      case 279: // Enumerations
-      case 280: // Enumeration
+      case symbol_kind::S_EnumeratedType: // EnumeratedType
+      case symbol_kind::S_Enumerations: // Enumerations
+      case symbol_kind::S_Enumeration: // Enumeration
         yylhs.value.emplace< EnumeratedType > ();
         break;
 
-      case 281: // EnumerationItem
+      case symbol_kind::S_EnumerationItem: // EnumerationItem
         yylhs.value.emplace< EnumerationValue > ();
         break;
 
-      case 321: // ExternalType
+      case symbol_kind::S_ExternalType: // ExternalType
         yylhs.value.emplace< ExternalType > ();
         break;
 
-      case 314: // IRIType
+      case symbol_kind::S_IRIType: // IRIType
         yylhs.value.emplace< IRIType > ();
         break;
 
-      case 245: // SymbolsFromModule
+      case symbol_kind::S_SymbolsFromModule: // SymbolsFromModule
         yylhs.value.emplace< Import > ();
         break;
 
-      case 215: // InstanceOfType
+      case symbol_kind::S_InstanceOfType: // InstanceOfType
         yylhs.value.emplace< InstanceOfType > ();
         break;
 
-      case 274: // IntegerType
+      case symbol_kind::S_IntegerType: // IntegerType
         yylhs.value.emplace< IntegerType > ();
         break;
 
-      case 239: // ModuleBody
+      case symbol_kind::S_ModuleBody: // ModuleBody
         yylhs.value.emplace< Module > ();
         break;
 
-      case 276: // NamedNumber
+      case symbol_kind::S_NamedNumber: // NamedNumber
         yylhs.value.emplace< NamedNumber > ();
         break;
 
-      case 265: // NamedType
+      case symbol_kind::S_NamedType: // NamedType
         yylhs.value.emplace< NamedType > ();
         break;
 
-      case 287: // NullType
+      case symbol_kind::S_NullType: // NullType
         yylhs.value.emplace< NullType > ();
         break;
 
-      case 161: // ObjectClass
-      case 162: // ObjectClassDefn
+      case symbol_kind::S_ObjectClass: // ObjectClass
+      case symbol_kind::S_ObjectClassDefn: // ObjectClassDefn
         yylhs.value.emplace< ObjectClassAssignment > ();
         break;
 
-      case 202: // ObjectClassFieldType
+      case symbol_kind::S_ObjectClassFieldType: // ObjectClassFieldType
         yylhs.value.emplace< ObjectClassFieldType > ();
         break;
 
-      case 309: // ObjIdComponents
-      case 310: // NameForm
-      case 311: // NumberForm
-      case 312: // NameAndNumberForm
+      case symbol_kind::S_ObjIdComponents: // ObjIdComponents
+      case symbol_kind::S_NameForm: // NameForm
+      case symbol_kind::S_NumberForm: // NumberForm
+      case symbol_kind::S_NameAndNumberForm: // NameAndNumberForm
         yylhs.value.emplace< ObjectIdComponentValue > ();
         break;
 
-      case 306: // ObjectIdentifierType
+      case symbol_kind::S_ObjectIdentifierType: // ObjectIdentifierType
         yylhs.value.emplace< ObjectIdentifierType > ();
         break;
 
-      case 286: // OctetStringType
+      case symbol_kind::S_OctetStringType: // OctetStringType
         yylhs.value.emplace< OctetStringType > ();
         break;
 
-      case 210: // Parameter
+      case symbol_kind::S_Parameter: // Parameter
         yylhs.value.emplace< Parameter > ();
         break;
 
-      case 300: // PrefixedType
+      case symbol_kind::S_PrefixedType: // PrefixedType
         yylhs.value.emplace< PrefixedType > ();
         break;
 
-      case 282: // RealType
+      case symbol_kind::S_RealType: // RealType
         yylhs.value.emplace< RealType > ();
         break;
 
-      case 319: // RelativeIRIType
+      case symbol_kind::S_RelativeIRIType: // RelativeIRIType
         yylhs.value.emplace< RelativeIRIType > ();
         break;
 
-      case 313: // RelativeOIDType
+      case symbol_kind::S_RelativeOIDType: // RelativeOIDType
         yylhs.value.emplace< RelativeOIDType > ();
         break;
 
-      case 292: // SequenceOfType
+      case symbol_kind::S_SequenceOfType: // SequenceOfType
         yylhs.value.emplace< SequenceOfType > ();
         break;
 
-      case 288: // SequenceType
+      case symbol_kind::S_SequenceType: // SequenceType
         yylhs.value.emplace< SequenceType > ();
         break;
 
-      case 294: // SetOfType
+      case symbol_kind::S_SetOfType: // SetOfType
         yylhs.value.emplace< SetOfType > ();
         break;
 
-      case 293: // SetType
+      case symbol_kind::S_SetType: // SetType
         yylhs.value.emplace< SetType > ();
         break;
 
-      case 302: // Tag
+      case symbol_kind::S_Tag: // Tag
         yylhs.value.emplace< Tag > ();
         break;
 
-      case 301: // TaggedType
+      case symbol_kind::S_TaggedType: // TaggedType
         yylhs.value.emplace< TaggedType > ();
         break;
 
-      case 237: // TagDefault
+      case symbol_kind::S_TagDefault: // TagDefault
         yylhs.value.emplace< TaggingMode > ();
         break;
 
-      case 325: // TimeOfDayType
+      case symbol_kind::S_TimeOfDayType: // TimeOfDayType
         yylhs.value.emplace< TimeOfDayType > ();
         break;
 
-      case 322: // TimeType
+      case symbol_kind::S_TimeType: // TimeType
         yylhs.value.emplace< TimeType > ();
         break;
 
-      case 323: // TimeValue
+      case symbol_kind::S_TimeValue: // TimeValue
         yylhs.value.emplace< TimeValue > ();
         break;
 
-      case 211: // ParamGovernor
-      case 212: // Governor
-      case 257: // ActualParameter
-      case 263: // Type
-      case 331: // ConstrainedType
-      case 332: // TypeWithConstraint
+      case symbol_kind::S_ParamGovernor: // ParamGovernor
+      case symbol_kind::S_Governor: // Governor
+      case symbol_kind::S_ActualParameter: // ActualParameter
+      case symbol_kind::S_Type: // Type
+      case symbol_kind::S_ConstrainedType: // ConstrainedType
+      case symbol_kind::S_TypeWithConstraint: // TypeWithConstraint
         yylhs.value.emplace< Type > ();
         break;
 
-      case 266: // ValueWithoutTypeIdentifier
-      case 267: // Value
-      case 349: // SingleValue
+      case symbol_kind::S_ValueWithoutTypeIdentifier: // ValueWithoutTypeIdentifier
+      case symbol_kind::S_Value: // Value
+      case symbol_kind::S_SingleValue: // SingleValue
         yylhs.value.emplace< Value > ();
         break;
 
-      case 6: // realnumber
+      case symbol_kind::S_realnumber: // realnumber
         yylhs.value.emplace< double > ();
         break;
 
-      case 304: // ClassNumber
+      case symbol_kind::S_ClassNumber: // ClassNumber
         yylhs.value.emplace< int > ();
         break;
 
-      case 4: // number
-      case 5: // negativenumber
-      case 277: // SignedNumber
+      case symbol_kind::S_number: // number
+      case symbol_kind::S_negativenumber: // negativenumber
+      case symbol_kind::S_SignedNumber: // SignedNumber
         yylhs.value.emplace< int64_t > ();
         break;
 
-      case 7: // bstring
-      case 8: // xmlbstring
-      case 9: // hstring
-      case 10: // xmlhstring
-      case 11: // cstring
-      case 12: // xmlcstring
-      case 13: // simplestring
-      case 14: // xmltstring
-      case 22: // objectreference
-      case 24: // typefieldreference
-      case 25: // valuefieldreference
-      case 149: // GENERIC_IDENTIFIER_UPPERCASE
-      case 150: // GENERIC_IDENTIFIER_LOWERCASE
-      case 159: // UsefulObjectClassReference
-      case 165: // FieldName
-      case 216: // SimpleDefinedType
-      case 228: // ModuleIdentifier
-      case 246: // GlobalModuleReference
-      case 248: // Symbol
-      case 249: // Reference
-      case 372: // typereference
-      case 373: // identifier
-      case 374: // valuereference
-      case 375: // modulereference
-      case 376: // objectclassreference
-      case 377: // word
+      case symbol_kind::S_bstring: // bstring
+      case symbol_kind::S_xmlbstring: // xmlbstring
+      case symbol_kind::S_hstring: // hstring
+      case symbol_kind::S_xmlhstring: // xmlhstring
+      case symbol_kind::S_cstring: // cstring
+      case symbol_kind::S_xmlcstring: // xmlcstring
+      case symbol_kind::S_simplestring: // simplestring
+      case symbol_kind::S_xmltstring: // xmltstring
+      case symbol_kind::S_objectreference: // objectreference
+      case symbol_kind::S_typefieldreference: // typefieldreference
+      case symbol_kind::S_valuefieldreference: // valuefieldreference
+      case symbol_kind::S_GENERIC_IDENTIFIER_UPPERCASE: // GENERIC_IDENTIFIER_UPPERCASE
+      case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
+      case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
+      case symbol_kind::S_FieldName: // FieldName
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
+      case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
+      case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
+      case symbol_kind::S_Symbol: // Symbol
+      case symbol_kind::S_Reference: // Reference
+      case symbol_kind::S_typereference: // typereference
+      case symbol_kind::S_identifier: // identifier
+      case symbol_kind::S_valuereference: // valuereference
+      case symbol_kind::S_modulereference: // modulereference
+      case symbol_kind::S_objectclassreference: // objectclassreference
+      case symbol_kind::S_word: // word
         yylhs.value.emplace< std::string > ();
         break;
 
-      case 250: // AssignmentList
+      case symbol_kind::S_AssignmentList: // AssignmentList
         yylhs.value.emplace< std::vector<Assignment> > ();
         break;
 
-      case 163: // FieldSpecList
-      case 164: // FieldSpec
-      case 167: // TypeFieldSpec
-      case 171: // FixedTypeValueFieldSpec
+      case symbol_kind::S_FieldSpecList: // FieldSpecList
+      case symbol_kind::S_FieldSpec: // FieldSpec
+      case symbol_kind::S_TypeFieldSpec: // TypeFieldSpec
+      case symbol_kind::S_FixedTypeValueFieldSpec: // FixedTypeValueFieldSpec
         yylhs.value.emplace< std::vector<ClassField> > ();
         break;
 
-      case 240: // Exports
+      case symbol_kind::S_Exports: // Exports
         yylhs.value.emplace< std::vector<Export> > ();
         break;
 
-      case 242: // Imports
-      case 243: // SymbolsImported
-      case 244: // SymbolsFromModuleList
+      case symbol_kind::S_Imports: // Imports
+      case symbol_kind::S_SymbolsImported: // SymbolsImported
+      case symbol_kind::S_SymbolsFromModuleList: // SymbolsFromModuleList
         yylhs.value.emplace< std::vector<Import> > ();
         break;
 
-      case 275: // NamedNumberList
+      case symbol_kind::S_NamedNumberList: // NamedNumberList
         yylhs.value.emplace< std::vector<NamedNumber> > ();
         break;
 
-      case 296: // AlternativeTypeLists
-      case 297: // RootAlternativeTypeList
-      case 298: // AlternativeTypeList
+      case symbol_kind::S_AlternativeTypeLists: // AlternativeTypeLists
+      case symbol_kind::S_RootAlternativeTypeList: // RootAlternativeTypeList
+      case symbol_kind::S_AlternativeTypeList: // AlternativeTypeList
         yylhs.value.emplace< std::vector<NamedType> > ();
         break;
 
-      case 307: // ObjectIdentifierValue
-      case 308: // ObjIdComponentsList
+      case symbol_kind::S_ObjectIdentifierValue: // ObjectIdentifierValue
+      case symbol_kind::S_ObjIdComponentsList: // ObjIdComponentsList
         yylhs.value.emplace< std::vector<ObjectIdComponentValue> > ();
         break;
 
-      case 208: // ParameterList
-      case 209: // ParameterSeries
+      case symbol_kind::S_ParameterList: // ParameterList
+      case symbol_kind::S_ParameterSeries: // ParameterSeries
         yylhs.value.emplace< std::vector<Parameter> > ();
         break;
 
-      case 256: // ActualParameterList
+      case symbol_kind::S_ActualParameterList: // ActualParameterList
         yylhs.value.emplace< std::vector<Type> > ();
         break;
 
-      case 271: // SequenceOfValues
+      case symbol_kind::S_SequenceOfValues: // SequenceOfValues
         yylhs.value.emplace< std::vector<Value> > ();
         break;
 
-      case 166: // FieldNameList
-      case 168: // OneOrManyTypeFieldReference
-      case 247: // SymbolList
+      case symbol_kind::S_FieldNameList: // FieldNameList
+      case symbol_kind::S_OneOrManyTypeFieldReference: // OneOrManyTypeFieldReference
+      case symbol_kind::S_SymbolList: // SymbolList
         yylhs.value.emplace< std::vector<std::string> > ();
         break;
 
@@ -8013,342 +8860,231 @@ namespace yy {
         {
           switch (yyn)
             {
-  case 4:
-#line 341 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 4: // ModuleDefinition: ModuleIdentifier DEFINITIONS EncodingReferenceDefault TagDefault ExtensionDefault "::=" BEGIN ModuleBody EncodingControlSections END
     { yystack_[2].value.as < Module > ().module_reference = yystack_[9].value.as < std::string > ();
       yystack_[2].value.as < Module > ().tagging_default = yystack_[6].value.as < TaggingMode > ();
       context_.asn1_tree.modules.push_back(yystack_[2].value.as < Module > ()); }
-#line 8020 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 10:
-#line 358 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 10: // UsefulObjectClassReference: TYPE_IDENTIFIER
     { yylhs.value.as < std::string > () = "TYPE-IDENTIFIER"; }
-#line 8026 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 11:
-#line 360 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 11: // UsefulObjectClassReference: ABSTRACT_SYNTAX
     { yylhs.value.as < std::string > () = "TYPE-IDENTIFIER"; }
-#line 8032 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 12:
-#line 364 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 12: // ObjectClassAssignment: typereference "::=" ObjectClass
     { yylhs.value.as < Assignment > () = Assignment{yystack_[2].value.as < std::string > (), yystack_[0].value.as < ObjectClassAssignment > ()}; }
-#line 8038 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 13:
-#line 368 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 13: // ObjectClass: DefinedObjectClass
     { feature_not_implemented(context_.location, context_.asn1_tree, "ObjectClass"); }
-#line 8044 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 14:
-#line 370 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 14: // ObjectClass: ObjectClassDefn
     { yylhs.value.as < ObjectClassAssignment > () = yystack_[0].value.as < ObjectClassAssignment > (); }
-#line 8050 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 15:
-#line 375 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 15: // ObjectClassDefn: CLASS "{" FieldSpecList "}" WithSyntaxSpec
     { yylhs.value.as < ObjectClassAssignment > () = {yystack_[2].value.as < std::vector<ClassField> > ()}; }
-#line 8056 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 16:
-#line 379 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 16: // FieldSpecList: FieldSpec
     { yylhs.value.as < std::vector<ClassField> > () = yystack_[0].value.as < std::vector<ClassField> > (); }
-#line 8062 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 17:
-#line 381 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 17: // FieldSpecList: FieldSpecList "," FieldSpec
     { yylhs.value.as < std::vector<ClassField> > () = yystack_[2].value.as < std::vector<ClassField> > (); yylhs.value.as < std::vector<ClassField> > ().insert(yylhs.value.as < std::vector<ClassField> > ().end(), yystack_[0].value.as < std::vector<ClassField> > ().begin(), yystack_[0].value.as < std::vector<ClassField> > ().end()); }
-#line 8068 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 18:
-#line 385 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 18: // FieldSpec: TypeFieldSpec
     { yylhs.value.as < std::vector<ClassField> > () = yystack_[0].value.as < std::vector<ClassField> > (); }
-#line 8074 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 19:
-#line 387 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 19: // FieldSpec: FixedTypeValueFieldSpec
     { yylhs.value.as < std::vector<ClassField> > () = yystack_[0].value.as < std::vector<ClassField> > (); }
-#line 8080 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 24:
-#line 395 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 24: // FieldName: typefieldreference
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
-#line 8086 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 25:
-#line 397 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 25: // FieldName: valuefieldreference
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
-#line 8092 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 26:
-#line 405 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 26: // FieldNameList: FieldName
     { yylhs.value.as < std::vector<std::string> > ().push_back(yystack_[0].value.as < std::string > ()); }
-#line 8098 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 27:
-#line 407 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 27: // FieldNameList: FieldNameList "." FieldName
     { yylhs.value.as < std::vector<std::string> > () = yystack_[2].value.as < std::vector<std::string> > (); yylhs.value.as < std::vector<std::string> > ().push_back(yystack_[0].value.as < std::string > ()); }
-#line 8104 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 28:
-#line 411 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 28: // TypeFieldSpec: OneOrManyTypeFieldReference TypeOptionalitySpec
     { for (const std::string& name : yystack_[1].value.as < std::vector<std::string> > ()) yylhs.value.as < std::vector<ClassField> > ().push_back(ClassField{name, TypeField{}}); }
-#line 8110 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 29:
-#line 415 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 29: // OneOrManyTypeFieldReference: typefieldreference
     { yylhs.value.as < std::vector<std::string> > ().push_back(yystack_[0].value.as < std::string > ()); }
-#line 8116 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 30:
-#line 417 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 30: // OneOrManyTypeFieldReference: OneOrManyTypeFieldReference typefieldreference
     { yylhs.value.as < std::vector<std::string> > () = yystack_[1].value.as < std::vector<std::string> > (); yylhs.value.as < std::vector<std::string> > ().push_back(yystack_[0].value.as < std::string > ()); }
-#line 8122 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 37:
-#line 431 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 37: // FixedTypeValueFieldSpec: valuefieldreference Type OptionalUnique ValueOptionalitySpec
     { yylhs.value.as < std::vector<ClassField> > ().push_back(ClassField{yystack_[3].value.as < std::string > (), FixedTypeValueField{yystack_[2].value.as < Type > ()}}); }
-#line 8128 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 86:
-#line 546 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 86: // ObjectSetAssignment: typereference DefinedObjectSet "::=" ObjectSet
     { yylhs.value.as < Assignment > () = Assignment{yystack_[3].value.as < std::string > (), ObjectSetAssignment{}}; }
-#line 8134 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 93:
-#line 566 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 93: // ObjectClassFieldType: UsefulObjectClassReference "." FieldNameList
     { yylhs.value.as < ObjectClassFieldType > () = {DefinedType{{}, }, yystack_[0].value.as < std::vector<std::string> > ()}; }
-#line 8140 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 94:
-#line 568 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 94: // ObjectClassFieldType: typereference "." FieldNameList
     { yylhs.value.as < ObjectClassFieldType > () = {DefinedType{{}, yystack_[2].value.as < std::string > ()}, yystack_[0].value.as < std::vector<std::string> > ()}; }
-#line 8146 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 95:
-#line 575 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 95: // ParameterizedAssignment: ParameterizedTypeAssignment
     { yylhs.value.as < Assignment > () = yystack_[0].value.as < Assignment > (); }
-#line 8152 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 96:
-#line 577 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 96: // ParameterizedAssignment: ParameterizedValueAssignment
     { yylhs.value.as < Assignment > () = yystack_[0].value.as < Assignment > (); }
-#line 8158 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 97:
-#line 579 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 97: // ParameterizedAssignment: ParameterizedValueSetTypeAssignment
     { yylhs.value.as < Assignment > () = yystack_[0].value.as < Assignment > (); }
-#line 8164 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 98:
-#line 581 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 98: // ParameterizedAssignment: ParameterizedObjectClassAssignment
     { yylhs.value.as < Assignment > () = yystack_[0].value.as < Assignment > (); }
-#line 8170 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 99:
-#line 588 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 99: // ParameterizedTypeAssignment: typereference ParameterList "::=" Type
     { yylhs.value.as < Assignment > () = Assignment{ yystack_[3].value.as < std::string > (), TypeAssignment{yystack_[0].value.as < Type > ()}, {}, yystack_[2].value.as < std::vector<Parameter> > () }; }
-#line 8176 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 100:
-#line 592 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 100: // ParameterizedValueAssignment: valuereference ParameterList Type "::=" Value
     { yylhs.value.as < Assignment > () = Assignment{ yystack_[4].value.as < std::string > (), ValueAssignment{} }; }
-#line 8182 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 101:
-#line 596 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 101: // ParameterizedValueSetTypeAssignment: typereference ParameterList Type "::=" Value
     { yylhs.value.as < Assignment > () = Assignment{ yystack_[4].value.as < std::string > (), ValueAssignment{} }; }
-#line 8188 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 102:
-#line 600 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 102: // ParameterizedObjectClassAssignment: typereference ParameterList "::=" ObjectClass
     { yylhs.value.as < Assignment > () = Assignment{ yystack_[3].value.as < std::string > (), ObjectClassAssignment{} }; }
-#line 8194 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 103:
-#line 612 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 103: // ParameterList: "{" ParameterSeries "}"
     { yylhs.value.as < std::vector<Parameter> > () = yystack_[1].value.as < std::vector<Parameter> > (); }
-#line 8200 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 104:
-#line 616 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 104: // ParameterSeries: Parameter
     { yylhs.value.as < std::vector<Parameter> > ().push_back(yystack_[0].value.as < Parameter > ()); }
-#line 8206 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 105:
-#line 618 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 105: // ParameterSeries: ParameterSeries "," Parameter
     { yylhs.value.as < std::vector<Parameter> > () = yystack_[2].value.as < std::vector<Parameter> > (); yylhs.value.as < std::vector<Parameter> > ().push_back(yystack_[0].value.as < Parameter > ()); }
-#line 8212 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 106:
-#line 622 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 106: // Parameter: ParamGovernor ":" Reference
     { yylhs.value.as < Parameter > () = Parameter{yystack_[2].value.as < Type > (), yystack_[0].value.as < std::string > ()}; }
-#line 8218 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 107:
-#line 624 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 107: // Parameter: Reference
     { yylhs.value.as < Parameter > () = Parameter{{}, yystack_[0].value.as < std::string > ()}; }
-#line 8224 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 108:
-#line 628 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 108: // ParamGovernor: Governor
     { yylhs.value.as < Type > () = yystack_[0].value.as < Type > (); }
-#line 8230 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 109:
-#line 630 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 109: // ParamGovernor: Reference
     { yylhs.value.as < Type > () = DefinedType{{}, yystack_[0].value.as < std::string > ()}; }
-#line 8236 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 110:
-#line 634 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 110: // Governor: Type
     { yylhs.value.as < Type > () = yystack_[0].value.as < Type > (); }
-#line 8242 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 111:
-#line 636 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 111: // Governor: DefinedObjectClass
     { }
-#line 8248 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 114:
-#line 673 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 114: // InstanceOfType: INSTANCE OF DefinedObjectClass
     { feature_not_implemented(context_.location, context_.asn1_tree, "InstanceOfType"); }
-#line 8254 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 116:
-#line 682 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 116: // SimpleDefinedType: typereference
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
-#line 8260 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 122:
-#line 695 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 122: // UserDefinedConstraint: CONSTRAINED BY "{" UserDefinedConstraintParameter "}"
     { feature_not_implemented(context_.location, context_.asn1_tree, "UserDefinedConstraint", "Not yet checking contraints. "); }
-#line 8266 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 130:
-#line 709 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 130: // TableConstraint: ObjectSet
     { std::cerr << "Simple constraint\n"; }
-#line 8272 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 131:
-#line 711 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 131: // TableConstraint: ObjectSet "{" AtNotationList "}"
     { std::cerr << "Relation constraint\n"; }
-#line 8278 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 144:
-#line 753 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    {
+  case 144: // ModuleIdentifier: modulereference DefinitiveIdentification
+{
     yylhs.value.as < std::string > () = yystack_[1].value.as < std::string > ();
 }
-#line 8286 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 159:
-#line 792 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 159: // TagDefault: EXPLICIT TAGS
     { yylhs.value.as < TaggingMode > () = TaggingMode::explicit_; }
-#line 8292 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 160:
-#line 794 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 160: // TagDefault: IMPLICIT TAGS
     { yylhs.value.as < TaggingMode > () = TaggingMode::implicit; }
-#line 8298 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 161:
-#line 796 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 161: // TagDefault: AUTOMATIC TAGS
     { yylhs.value.as < TaggingMode > () = TaggingMode::automatic; }
-#line 8304 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 162:
-#line 798 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 162: // TagDefault: %empty
     { yylhs.value.as < TaggingMode > () = TaggingMode::explicit_; }
-#line 8310 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 165:
-#line 806 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 165: // ModuleBody: Exports Imports AssignmentList
     { yylhs.value.as < Module > () = Module{ {}, TaggingMode(), yystack_[2].value.as < std::vector<Export> > (), yystack_[1].value.as < std::vector<Import> > (), yystack_[0].value.as < std::vector<Assignment> > ()}; }
-#line 8316 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 166:
-#line 808 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 166: // ModuleBody: %empty
     { }
-#line 8322 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 172:
-#line 821 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 172: // Imports: IMPORTS SymbolsImported ";"
     { yylhs.value.as < std::vector<Import> > () = yystack_[1].value.as < std::vector<Import> > (); }
-#line 8328 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 174:
-#line 826 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 174: // SymbolsImported: SymbolsFromModuleList
     { yylhs.value.as < std::vector<Import> > () = yystack_[0].value.as < std::vector<Import> > (); }
-#line 8334 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 176:
-#line 831 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 176: // SymbolsFromModuleList: SymbolsFromModule
     { yylhs.value.as < std::vector<Import> > ().push_back(yystack_[0].value.as < Import > ()); }
-#line 8340 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 177:
-#line 833 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 177: // SymbolsFromModuleList: SymbolsFromModuleList SymbolsFromModule
     { yylhs.value.as < std::vector<Import> > () = yystack_[1].value.as < std::vector<Import> > (); yylhs.value.as < std::vector<Import> > ().push_back(yystack_[0].value.as < Import > ()); }
-#line 8346 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 178:
-#line 837 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 178: // SymbolsFromModule: SymbolList FROM GlobalModuleReference
     { yylhs.value.as < Import > () = Import{ yystack_[0].value.as < std::string > (), {}, {} };
       for (const std::string& ref: yystack_[2].value.as < std::vector<std::string> > ())
       {
@@ -8362,1267 +9098,854 @@ namespace yy {
         }
       }
     }
-#line 8364 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 179:
-#line 853 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 179: // GlobalModuleReference: modulereference
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
-#line 8370 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 180:
-#line 855 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 180: // GlobalModuleReference: modulereference ObjectIdentifierValue
     { yylhs.value.as < std::string > () = yystack_[1].value.as < std::string > (); }
-#line 8376 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 181:
-#line 861 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 181: // SymbolList: Symbol
     { yylhs.value.as < std::vector<std::string> > ().push_back(yystack_[0].value.as < std::string > ()); }
-#line 8382 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 182:
-#line 863 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 182: // SymbolList: SymbolList "," Symbol
     { yylhs.value.as < std::vector<std::string> > () = yystack_[2].value.as < std::vector<std::string> > (); yylhs.value.as < std::vector<std::string> > ().push_back(yystack_[0].value.as < std::string > ()); }
-#line 8388 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 183:
-#line 867 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 183: // Symbol: Reference
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
-#line 8394 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 184:
-#line 871 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 184: // Reference: typereference
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
-#line 8400 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 185:
-#line 873 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 185: // Reference: typereference "{" "}"
     { yylhs.value.as < std::string > () = yystack_[2].value.as < std::string > (); }
-#line 8406 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 186:
-#line 875 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 186: // Reference: valuereference
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
-#line 8412 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 187:
-#line 884 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 187: // AssignmentList: Assignment
     { yylhs.value.as < std::vector<Assignment> > ().push_back(yystack_[0].value.as < Assignment > ()); }
-#line 8418 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 188:
-#line 886 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 188: // AssignmentList: Assignment AssignmentList
     { yylhs.value.as < std::vector<Assignment> > () = yystack_[0].value.as < std::vector<Assignment> > (); yylhs.value.as < std::vector<Assignment> > ().push_back(yystack_[1].value.as < Assignment > ()); }
-#line 8424 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 189:
-#line 890 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 189: // Assignment: TypeAssignment
     { yylhs.value.as < Assignment > () = yystack_[0].value.as < Assignment > (); }
-#line 8430 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 190:
-#line 892 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 190: // Assignment: ValueAssignment
     { yylhs.value.as < Assignment > () = yystack_[0].value.as < Assignment > (); }
-#line 8436 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 191:
-#line 894 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 191: // Assignment: ObjectClassAssignment
     { yylhs.value.as < Assignment > () = yystack_[0].value.as < Assignment > (); }
-#line 8442 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 192:
-#line 896 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 192: // Assignment: ValueSetTypeAssignment
     { yylhs.value.as < Assignment > () = yystack_[0].value.as < Assignment > (); }
-#line 8448 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 193:
-#line 899 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 193: // Assignment: ObjectSetAssignment
     { yylhs.value.as < Assignment > () = yystack_[0].value.as < Assignment > (); }
-#line 8454 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 194:
-#line 901 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 194: // Assignment: ParameterizedAssignment
     { yylhs.value.as < Assignment > () = yystack_[0].value.as < Assignment > (); }
-#line 8460 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 195:
-#line 905 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 195: // DefinedType: ExternalTypeReference
     { yylhs.value.as < DefinedType > () = yystack_[0].value.as < DefinedType > (); }
-#line 8466 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 196:
-#line 907 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 196: // DefinedType: typereference
     { yylhs.value.as < DefinedType > () = DefinedType{absl::nullopt, yystack_[0].value.as < std::string > (), {}}; }
-#line 8472 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 197:
-#line 909 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 197: // DefinedType: ParameterizedType
     { yylhs.value.as < DefinedType > () = yystack_[0].value.as < DefinedType > (); }
-#line 8478 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 198:
-#line 915 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < DefinedValue > () = DefinedValue{yystack_[0].value.as < std::string > ()}; }
-#line 8484 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 198: // DefinedValue: valuereference
+    { yylhs.value.as < DefinedValue > () = DefinedValue{yystack_[0].value.as < std::string > (), absl::nullopt}; }
     break;
 
-  case 200:
-#line 920 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 200: // ParameterizedType: SimpleDefinedType "{" ActualParameterList "}"
     { yylhs.value.as < DefinedType > () = DefinedType{ absl::nullopt, yystack_[3].value.as < std::string > (), yystack_[1].value.as < std::vector<Type> > ()}; }
-#line 8490 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 202:
-#line 927 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 202: // ActualParameterList: ActualParameter
     { yylhs.value.as < std::vector<Type> > ().push_back(yystack_[0].value.as < Type > ()); }
-#line 8496 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 203:
-#line 929 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 203: // ActualParameterList: ActualParameter "," ActualParameterList
     { yylhs.value.as < std::vector<Type> > () = yystack_[0].value.as < std::vector<Type> > (); yylhs.value.as < std::vector<Type> > ().push_back(yystack_[2].value.as < Type > ()); }
-#line 8502 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 204:
-#line 933 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 204: // ActualParameter: Type
     { yylhs.value.as < Type > () = yystack_[0].value.as < Type > (); }
-#line 8508 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 205:
-#line 935 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 205: // ActualParameter: ValueWithoutTypeIdentifier
     { std::cerr << "Warning: Not yet dealing with value paramaters\n"; }
-#line 8514 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 207:
-#line 948 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 207: // ExternalTypeReference: typereference "." typereference
     { yylhs.value.as < DefinedType > () = DefinedType{yystack_[2].value.as < std::string > (), yystack_[0].value.as < std::string > (), {}}; }
-#line 8520 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 209:
-#line 977 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 209: // TypeAssignment: typereference "::=" Type
     { yylhs.value.as < Assignment > () = Assignment{ yystack_[2].value.as < std::string > (), TypeAssignment{yystack_[0].value.as < Type > ()}, {} }; }
-#line 8526 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 210:
-#line 981 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 210: // ValueAssignment: valuereference Type "::=" Value
     { yylhs.value.as < Assignment > () = Assignment{ yystack_[3].value.as < std::string > (), ValueAssignment{yystack_[2].value.as < Type > (), yystack_[0].value.as < Value > ()}, {} }; }
-#line 8532 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 211:
-#line 985 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 211: // ValueSetTypeAssignment: typereference Type "::=" ValueSet
     { yylhs.value.as < Assignment > () = Assignment{ yystack_[3].value.as < std::string > (), TypeAssignment{yystack_[2].value.as < Type > ()}, {} }; }
-#line 8538 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 212:
-#line 989 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 212: // Type: BuiltinType
     { yylhs.value.as < Type > () = yystack_[0].value.as < BuiltinType > (); }
-#line 8544 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 213:
-#line 991 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 213: // Type: ConstrainedType
     { yylhs.value.as < Type > () = yystack_[0].value.as < Type > (); }
-#line 8550 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 214:
-#line 993 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 214: // Type: DefinedType
     { yylhs.value.as < Type > () = yystack_[0].value.as < DefinedType > (); }
-#line 8556 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 215:
-#line 995 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 215: // Type: SelectionType
     { feature_not_implemented(context_.location, context_.asn1_tree, "SelectionType"); }
-#line 8562 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 216:
-#line 997 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 216: // Type: TypeFromObject
     { feature_not_implemented(context_.location, context_.asn1_tree, "TypeFromObject"); }
-#line 8568 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 217:
-#line 1001 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = AnyType(); }
-#line 8574 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 217: // BuiltinType: ANY
+        { yylhs.value.as < BuiltinType > () = AnyType(); }
     break;
 
-  case 218:
-#line 1002 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < BitStringType > (); }
-#line 8580 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 218: // BuiltinType: BitStringType
+                  { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < BitStringType > (); }
     break;
 
-  case 219:
-#line 1003 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < BooleanType > (); }
-#line 8586 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 219: // BuiltinType: BooleanType
+                { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < BooleanType > (); }
     break;
 
-  case 220:
-#line 1004 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < CharacterStringType > (); }
-#line 8592 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 220: // BuiltinType: CharacterStringType
+                        { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < CharacterStringType > (); }
     break;
 
-  case 221:
-#line 1005 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < ChoiceType > (); }
-#line 8598 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 221: // BuiltinType: ChoiceType
+               { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < ChoiceType > (); }
     break;
 
-  case 222:
-#line 1006 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < DateType > (); feature_not_implemented(context_.location, context_.asn1_tree, "DateType"); }
-#line 8604 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 222: // BuiltinType: DateType
+             { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < DateType > (); feature_not_implemented(context_.location, context_.asn1_tree, "DateType"); }
     break;
 
-  case 223:
-#line 1007 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < DateTimeType > (); feature_not_implemented(context_.location, context_.asn1_tree, "DateTimeType"); }
-#line 8610 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 223: // BuiltinType: DateTimeType
+                 { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < DateTimeType > (); feature_not_implemented(context_.location, context_.asn1_tree, "DateTimeType"); }
     break;
 
-  case 224:
-#line 1008 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < DurationType > (); feature_not_implemented(context_.location, context_.asn1_tree, "DurationType"); }
-#line 8616 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 224: // BuiltinType: DurationType
+                 { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < DurationType > (); feature_not_implemented(context_.location, context_.asn1_tree, "DurationType"); }
     break;
 
-  case 225:
-#line 1009 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < EmbeddedPDVType > (); feature_not_implemented(context_.location, context_.asn1_tree, "EmbeddedPDVType"); }
-#line 8622 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 225: // BuiltinType: EmbeddedPDVType
+                    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < EmbeddedPDVType > (); feature_not_implemented(context_.location, context_.asn1_tree, "EmbeddedPDVType"); }
     break;
 
-  case 226:
-#line 1010 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < EnumeratedType > (); }
-#line 8628 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 226: // BuiltinType: EnumeratedType
+                   { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < EnumeratedType > (); }
     break;
 
-  case 227:
-#line 1011 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < ExternalType > (); feature_not_implemented(context_.location, context_.asn1_tree, "ExternalType"); }
-#line 8634 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 227: // BuiltinType: ExternalType
+                 { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < ExternalType > (); feature_not_implemented(context_.location, context_.asn1_tree, "ExternalType"); }
     break;
 
-  case 228:
-#line 1012 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = GeneralizedTimeType(); }
-#line 8640 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 228: // BuiltinType: GeneralizedTime
+                    { yylhs.value.as < BuiltinType > () = GeneralizedTimeType(); }
     break;
 
-  case 229:
-#line 1013 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < InstanceOfType > (); feature_not_implemented(context_.location, context_.asn1_tree, "InstanceOfType"); }
-#line 8646 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 229: // BuiltinType: InstanceOfType
+                   { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < InstanceOfType > (); feature_not_implemented(context_.location, context_.asn1_tree, "InstanceOfType"); }
     break;
 
-  case 230:
-#line 1014 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < IntegerType > (); }
-#line 8652 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 230: // BuiltinType: IntegerType
+                { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < IntegerType > (); }
     break;
 
-  case 231:
-#line 1015 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < IRIType > (); feature_not_implemented(context_.location, context_.asn1_tree, "IRIType"); }
-#line 8658 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 231: // BuiltinType: IRIType
+            { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < IRIType > (); feature_not_implemented(context_.location, context_.asn1_tree, "IRIType"); }
     break;
 
-  case 232:
-#line 1016 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < NullType > (); }
-#line 8664 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 232: // BuiltinType: NullType
+             { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < NullType > (); }
     break;
 
-  case 233:
-#line 1017 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < ObjectClassFieldType > (); feature_not_implemented(context_.location, context_.asn1_tree, "ObjectClassFieldType"); }
-#line 8670 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 233: // BuiltinType: ObjectClassFieldType
+                         { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < ObjectClassFieldType > (); feature_not_implemented(context_.location, context_.asn1_tree, "ObjectClassFieldType"); }
     break;
 
-  case 234:
-#line 1018 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = ObjectDescriptorType(); }
-#line 8676 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 234: // BuiltinType: ObjectDescriptor
+                     { yylhs.value.as < BuiltinType > () = ObjectDescriptorType(); }
     break;
 
-  case 235:
-#line 1019 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < ObjectIdentifierType > (); }
-#line 8682 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 235: // BuiltinType: ObjectIdentifierType
+                         { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < ObjectIdentifierType > (); }
     break;
 
-  case 236:
-#line 1020 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < OctetStringType > (); }
-#line 8688 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 236: // BuiltinType: OctetStringType
+                    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < OctetStringType > (); }
     break;
 
-  case 237:
-#line 1021 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < RealType > (); feature_not_implemented(context_.location, context_.asn1_tree, "RealType"); }
-#line 8694 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 237: // BuiltinType: RealType
+             { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < RealType > (); feature_not_implemented(context_.location, context_.asn1_tree, "RealType"); }
     break;
 
-  case 238:
-#line 1022 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < RelativeIRIType > (); feature_not_implemented(context_.location, context_.asn1_tree, "RelativeIRIType"); }
-#line 8700 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 238: // BuiltinType: RelativeIRIType
+                    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < RelativeIRIType > (); feature_not_implemented(context_.location, context_.asn1_tree, "RelativeIRIType"); }
     break;
 
-  case 239:
-#line 1023 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < RelativeOIDType > (); feature_not_implemented(context_.location, context_.asn1_tree, "RelativeOIDType"); }
-#line 8706 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 239: // BuiltinType: RelativeOIDType
+                    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < RelativeOIDType > (); feature_not_implemented(context_.location, context_.asn1_tree, "RelativeOIDType"); }
     break;
 
-  case 240:
-#line 1024 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < SequenceType > (); }
-#line 8712 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 240: // BuiltinType: SequenceType
+                 { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < SequenceType > (); }
     break;
 
-  case 241:
-#line 1025 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < SequenceOfType > (); }
-#line 8718 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 241: // BuiltinType: SequenceOfType
+                   { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < SequenceOfType > (); }
     break;
 
-  case 242:
-#line 1026 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < SetType > (); }
-#line 8724 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 242: // BuiltinType: SetType
+            { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < SetType > (); }
     break;
 
-  case 243:
-#line 1027 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < SetOfType > (); }
-#line 8730 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 243: // BuiltinType: SetOfType
+              { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < SetOfType > (); }
     break;
 
-  case 244:
-#line 1028 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < PrefixedType > (); }
-#line 8736 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 244: // BuiltinType: PrefixedType
+                 { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < PrefixedType > (); }
     break;
 
-  case 245:
-#line 1029 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < TimeType > (); feature_not_implemented(context_.location, context_.asn1_tree, "TimeType"); }
-#line 8742 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 245: // BuiltinType: TimeType
+             { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < TimeType > (); feature_not_implemented(context_.location, context_.asn1_tree, "TimeType"); }
     break;
 
-  case 246:
-#line 1030 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < TimeOfDayType > (); feature_not_implemented(context_.location, context_.asn1_tree, "TimeOfDayType"); }
-#line 8748 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 246: // BuiltinType: TimeOfDayType
+                  { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < TimeOfDayType > (); feature_not_implemented(context_.location, context_.asn1_tree, "TimeOfDayType"); }
     break;
 
-  case 247:
-#line 1031 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < BuiltinType > () = UTCTimeType(); feature_not_implemented(context_.location, context_.asn1_tree, "UTCTime"); }
-#line 8754 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 247: // BuiltinType: UTCTime
+            { yylhs.value.as < BuiltinType > () = UTCTimeType(); feature_not_implemented(context_.location, context_.asn1_tree, "UTCTime"); }
     break;
 
-  case 248:
-#line 1035 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 248: // NamedType: identifier Type
     { yylhs.value.as < NamedType > () = NamedType{ yystack_[1].value.as < std::string > (), yystack_[0].value.as < Type > () }; }
-#line 8760 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 249:
-#line 1039 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 249: // ValueWithoutTypeIdentifier: BooleanValue
     { std::cerr << std::string("Warning: Unhandled field: BooleanValue\n"); }
-#line 8766 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 250:
-#line 1041 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 250: // ValueWithoutTypeIdentifier: IRIValue
     { std::cerr << std::string("Warning: Unhandled field: IRIValue\n"); }
-#line 8772 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 251:
-#line 1043 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 251: // ValueWithoutTypeIdentifier: ASN_NULL
     { std::cerr << std::string("Warning: Unhandled field: ASN_NULL\n"); }
-#line 8778 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 252:
-#line 1045 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 252: // ValueWithoutTypeIdentifier: TimeValue
     { std::cerr << std::string("Warning: Unhandled field: TimeValue\n"); }
-#line 8784 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 253:
-#line 1047 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 253: // ValueWithoutTypeIdentifier: bstring
     { yylhs.value.as < Value > ().value_selection = BitStringValue{yystack_[0].value.as < std::string > ()}; }
-#line 8790 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 254:
-#line 1049 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 254: // ValueWithoutTypeIdentifier: hstring
     { yylhs.value.as < Value > ().value_selection = HexStringValue{yystack_[0].value.as < std::string > ()}; }
-#line 8796 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 255:
-#line 1051 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 255: // ValueWithoutTypeIdentifier: cstring
     { yylhs.value.as < Value > ().value_selection = CharStringValue{yystack_[0].value.as < std::string > ()}; }
-#line 8802 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 256:
-#line 1053 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 256: // ValueWithoutTypeIdentifier: CONTAINING Value
     { std::cerr << std::string("Warning: Unhandled field: CONTAINING\n"); }
-#line 8808 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 257:
-#line 1055 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 257: // ValueWithoutTypeIdentifier: DefinedValue
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < DefinedValue > (); }
-#line 8814 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 258:
-#line 1057 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 258: // ValueWithoutTypeIdentifier: GENERIC_IDENTIFIER_LOWERCASE "(" number ")"
     { yylhs.value.as < Value > ().value_selection = NamedNumber{yystack_[3].value.as < std::string > (), yystack_[1].value.as < int64_t > ()}; }
-#line 8820 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 260:
-#line 1060 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 260: // ValueWithoutTypeIdentifier: SignedNumber
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < int64_t > (); }
-#line 8826 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 261:
-#line 1062 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 261: // ValueWithoutTypeIdentifier: realnumber
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < double > (); }
-#line 8832 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 262:
-#line 1064 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 262: // ValueWithoutTypeIdentifier: ObjectClassFieldType
     { std::cerr << std::string("Warning: Unhandled field: ValueCommaListChoice\n"); }
-#line 8838 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 263:
-#line 1066 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 263: // ValueWithoutTypeIdentifier: Value ":" Value
     { std::cerr << std::string("Warning: Unhandled field: ValueCommaListChoice\n"); }
-#line 8844 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 268:
-#line 1074 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 268: // ValueWithoutTypeIdentifier: "{" SequenceOfValues "}"
     { yylhs.value.as < Value > ().value_selection = yystack_[1].value.as < std::vector<Value> > (); }
-#line 8850 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 269:
-#line 1076 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 269: // ValueWithoutTypeIdentifier: ValueChoice
     { std::cerr << std::string("Warning: Unhandled field: ValueChoice\n"); }
-#line 8856 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 270:
-#line 1078 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 270: // ValueWithoutTypeIdentifier: OPTIONAL
     { std::cerr << std::string("Warning: Unhandled field: OPTIONAL\n"); }
-#line 8862 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 271:
-#line 1080 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 271: // ValueWithoutTypeIdentifier: ValueCommaListChoice
     { std::cerr << std::string("Warning: Unhandled field: ValueCommaListChoice\n"); }
-#line 8868 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 272:
-#line 1082 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 272: // ValueWithoutTypeIdentifier: BY
     { std::cerr << std::string("Warning: Unhandled field: BY\n"); }
-#line 8874 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 273:
-#line 1084 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 273: // ValueWithoutTypeIdentifier: WITH
     { std::cerr << std::string("Warning: Unhandled field: WITH\n"); }
-#line 8880 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 274:
-#line 1089 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 274: // Value: ValueWithoutTypeIdentifier
     { yylhs.value.as < Value > () = yystack_[0].value.as < Value > (); }
-#line 8886 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 275:
-#line 1091 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 275: // Value: GENERIC_IDENTIFIER_UPPERCASE
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < std::string > (); }
-#line 8892 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 282:
-#line 1107 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 282: // SequenceOfValues: Value
     { yylhs.value.as < std::vector<Value> > ().push_back(yystack_[0].value.as < Value > ()); }
-#line 8898 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 283:
-#line 1109 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 283: // SequenceOfValues: SequenceOfValues Value
     { yylhs.value.as < std::vector<Value> > () = yystack_[1].value.as < std::vector<Value> > (); yylhs.value.as < std::vector<Value> > ().push_back(yystack_[0].value.as < Value > ()); }
-#line 8904 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 285:
-#line 1120 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 285: // BooleanValue: TRUE
     { yylhs.value.as < BooleanValue > () = {true}; }
-#line 8910 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 286:
-#line 1122 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 286: // BooleanValue: FALSE
     { yylhs.value.as < BooleanValue > () = {false}; }
-#line 8916 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 287:
-#line 1126 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 287: // IntegerType: INTEGER
     { yylhs.value.as < IntegerType > () = IntegerType{{}}; }
-#line 8922 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 288:
-#line 1128 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 288: // IntegerType: INTEGER "{" NamedNumberList "}"
     { yylhs.value.as < IntegerType > () = IntegerType{yystack_[1].value.as < std::vector<NamedNumber> > ()}; }
-#line 8928 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 289:
-#line 1132 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 289: // NamedNumberList: NamedNumber
     { yylhs.value.as < std::vector<NamedNumber> > () = {yystack_[0].value.as < NamedNumber > ()}; }
-#line 8934 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 290:
-#line 1134 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 290: // NamedNumberList: NamedNumberList "," NamedNumber
     { yylhs.value.as < std::vector<NamedNumber> > () = yystack_[2].value.as < std::vector<NamedNumber> > (); yylhs.value.as < std::vector<NamedNumber> > ().push_back(yystack_[0].value.as < NamedNumber > ()); }
-#line 8940 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 291:
-#line 1138 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 291: // NamedNumber: identifier "(" SignedNumber ")"
     { yylhs.value.as < NamedNumber > () = NamedNumber{ yystack_[3].value.as < std::string > (), yystack_[1].value.as < int64_t > () }; }
-#line 8946 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 292:
-#line 1140 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 292: // NamedNumber: identifier "(" DefinedValue ")"
     { yylhs.value.as < NamedNumber > () = NamedNumber{ yystack_[3].value.as < std::string > (), 0 }; }
-#line 8952 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 293:
-#line 1144 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 293: // SignedNumber: number
     { yylhs.value.as < int64_t > () = yystack_[0].value.as < int64_t > (); }
-#line 8958 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 294:
-#line 1146 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 294: // SignedNumber: negativenumber
     { yylhs.value.as < int64_t > () = yystack_[0].value.as < int64_t > (); }
-#line 8964 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 295:
-#line 1150 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 295: // EnumeratedType: ENUMERATED "{" Enumerations "}"
     { yylhs.value.as < EnumeratedType > () = yystack_[1].value.as < EnumeratedType > (); }
-#line 8970 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 296:
-#line 1154 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 296: // Enumerations: Enumeration
     { yylhs.value.as < EnumeratedType > () = yystack_[0].value.as < EnumeratedType > ();
       yylhs.value.as < EnumeratedType > ().accept_anything = false; }
-#line 8977 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 297:
-#line 1157 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 297: // Enumerations: Enumeration "," "..." ExceptionSpec
     { yylhs.value.as < EnumeratedType > () = yystack_[3].value.as < EnumeratedType > ();
       yylhs.value.as < EnumeratedType > ().accept_anything = true; }
-#line 8984 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 298:
-#line 1160 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 298: // Enumerations: Enumeration "," "..." ExceptionSpec "," Enumeration
     { yylhs.value.as < EnumeratedType > () = yystack_[5].value.as < EnumeratedType > ();
       yylhs.value.as < EnumeratedType > ().accept_anything = true;
       yylhs.value.as < EnumeratedType > ().enum_values.insert(yylhs.value.as < EnumeratedType > ().enum_values.end(), yystack_[0].value.as < EnumeratedType > ().enum_values.begin(), yystack_[0].value.as < EnumeratedType > ().enum_values.end()); }
-#line 8992 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 300:
-#line 1167 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 300: // Enumeration: EnumerationItem
     { yylhs.value.as < EnumeratedType > ().enum_values.push_back(yystack_[0].value.as < EnumerationValue > ()); }
-#line 8998 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 301:
-#line 1169 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 301: // Enumeration: Enumeration "," EnumerationItem
     { yylhs.value.as < EnumeratedType > () = yystack_[2].value.as < EnumeratedType > (); yylhs.value.as < EnumeratedType > ().enum_values.push_back(yystack_[0].value.as < EnumerationValue > ()); }
-#line 9004 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 302:
-#line 1173 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 302: // EnumerationItem: identifier
     { yylhs.value.as < EnumerationValue > ().name  = yystack_[0].value.as < std::string > (); }
-#line 9010 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 303:
-#line 1175 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 303: // EnumerationItem: NamedNumber
     { yylhs.value.as < EnumerationValue > ().name  = yystack_[0].value.as < NamedNumber > ().name;
       yylhs.value.as < EnumerationValue > ().value = yystack_[0].value.as < NamedNumber > ().number; }
-#line 9017 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 305:
-#line 1186 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 305: // BitStringType: BIT STRING
     { yylhs.value.as < BitStringType > () = BitStringType{}; }
-#line 9023 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 306:
-#line 1188 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 306: // BitStringType: BIT STRING "{" NamedBitList "}"
     { yylhs.value.as < BitStringType > () = BitStringType{}; }
-#line 9029 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 313:
-#line 1217 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 313: // SequenceType: SEQUENCE "{" "}"
     { yylhs.value.as < SequenceType > () = SequenceType(); }
-#line 9035 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 314:
-#line 1219 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 314: // SequenceType: SEQUENCE "{" ComponentTypeLists "}"
     { yylhs.value.as < SequenceType > () = SequenceType{yystack_[1].value.as < Collection > ()}; }
-#line 9041 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 315:
-#line 1223 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 315: // ComponentTypeLists: ComponentTypeList
     { yylhs.value.as < Collection > ().components = yystack_[0].value.as < ComponentTypeList > (); }
-#line 9047 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 316:
-#line 1225 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 316: // ComponentTypeLists: ComponentTypeList "," "..." ExceptionSpec
     { yylhs.value.as < Collection > ().components = yystack_[3].value.as < ComponentTypeList > ();
       yylhs.value.as < Collection > ().allow_extensions = true; }
-#line 9054 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 317:
-#line 1228 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 317: // ComponentTypeLists: ComponentTypeList "," "..." ExceptionSpec "," ComponentTypeList
     { yylhs.value.as < Collection > ().components = yystack_[5].value.as < ComponentTypeList > ();
-      yylhs.value.as < Collection > ().components.insert(yylhs.value.as < Collection > ().components.end(), yystack_[0].value.as < ComponentTypeList > ().begin(), yystack_[0].value.as < ComponentTypeList > ().end());
+      add_extensions(yylhs.value.as < Collection > ().components, yystack_[0].value.as < ComponentTypeList > ());
       yylhs.value.as < Collection > ().allow_extensions = true; }
-#line 9062 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 318:
-#line 1232 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 318: // ComponentTypeLists: ComponentTypeList "," "..." ExceptionSpec "," ComponentTypeList "," "..."
     { yylhs.value.as < Collection > ().components = yystack_[7].value.as < ComponentTypeList > ();
-      yylhs.value.as < Collection > ().components.insert(yylhs.value.as < Collection > ().components.end(), yystack_[2].value.as < ComponentTypeList > ().begin(), yystack_[2].value.as < ComponentTypeList > ().end());
+      add_extensions(yylhs.value.as < Collection > ().components, yystack_[2].value.as < ComponentTypeList > ());
       yylhs.value.as < Collection > ().allow_extensions = true; }
-#line 9070 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 319:
-#line 1236 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 319: // ComponentTypeLists: ComponentTypeList "," "..." ExceptionSpec "," ComponentTypeList "," "..." "," ComponentTypeList
     { yylhs.value.as < Collection > ().components = yystack_[9].value.as < ComponentTypeList > ();
-      yylhs.value.as < Collection > ().components.insert(yylhs.value.as < Collection > ().components.end(), yystack_[4].value.as < ComponentTypeList > ().begin(), yystack_[4].value.as < ComponentTypeList > ().end());
+      add_extensions(yylhs.value.as < Collection > ().components, yystack_[4].value.as < ComponentTypeList > ());
       yylhs.value.as < Collection > ().components.insert(yylhs.value.as < Collection > ().components.end(), yystack_[0].value.as < ComponentTypeList > ().begin(), yystack_[0].value.as < ComponentTypeList > ().end());
       yylhs.value.as < Collection > ().allow_extensions = true; }
-#line 9079 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 320:
-#line 1241 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < Collection > ().components = yystack_[0].value.as < ComponentTypeList > ();
+  case 320: // ComponentTypeLists: "..." ExceptionSpec "," ComponentTypeList
+    { add_extensions(yylhs.value.as < Collection > ().components, yystack_[0].value.as < ComponentTypeList > ());
       yylhs.value.as < Collection > ().allow_extensions = true; }
-#line 9086 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 321:
-#line 1244 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < Collection > ().components = yystack_[2].value.as < ComponentTypeList > ();
+  case 321: // ComponentTypeLists: "..." ExceptionSpec "," ComponentTypeList "," "..."
+    { add_extensions(yylhs.value.as < Collection > ().components, yystack_[2].value.as < ComponentTypeList > ());
       yylhs.value.as < Collection > ().allow_extensions = true; }
-#line 9093 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 322:
-#line 1247 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 322: // ComponentTypeLists: "..." ExceptionSpec
     { yylhs.value.as < Collection > ().components = {};
       yylhs.value.as < Collection > ().allow_extensions = true; }
-#line 9100 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 323:
-#line 1250 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 323: // ComponentTypeLists: "..." ExceptionSpec "," "..."
     { yylhs.value.as < Collection > ().components = {};
       yylhs.value.as < Collection > ().allow_extensions = true; }
-#line 9107 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 324:
-#line 1255 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 324: // ComponentTypeList: ComponentType
     { yylhs.value.as < ComponentTypeList > () = ComponentTypeList{yystack_[0].value.as < ComponentType > ()}; }
-#line 9113 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 325:
-#line 1257 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 325: // ComponentTypeList: ComponentTypeList "," ComponentType
     { yystack_[2].value.as < ComponentTypeList > ().push_back(yystack_[0].value.as < ComponentType > ()); yylhs.value.as < ComponentTypeList > () = yystack_[2].value.as < ComponentTypeList > (); }
-#line 9119 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 326:
-#line 1261 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 326: // ComponentType: Type
     { std::cerr << context_.location << " WARNING: unnamed type\n";
-      yylhs.value.as < ComponentType > () = ComponentType{{gen_anon_member_name(), yystack_[0].value.as < Type > ()}, false, absl::nullopt, absl::nullopt, StorageMode::static_ }; }
-#line 9126 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+      yylhs.value.as < ComponentType > () = ComponentType{{gen_anon_member_name(), yystack_[0].value.as < Type > ()}, false, absl::nullopt, absl::nullopt, StorageMode::static_, false }; }
     break;
 
-  case 327:
-#line 1264 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 327: // ComponentType: Type OPTIONAL
     { std::cerr << context_.location << " WARNING: unnamed type\n";
-      yylhs.value.as < ComponentType > () = ComponentType{{gen_anon_member_name(), yystack_[1].value.as < Type > ()}, true, absl::nullopt, absl::nullopt, StorageMode::static_ }; }
-#line 9133 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+      yylhs.value.as < ComponentType > () = ComponentType{{gen_anon_member_name(), yystack_[1].value.as < Type > ()}, true, absl::nullopt, absl::nullopt, StorageMode::static_, false }; }
     break;
 
-  case 328:
-#line 1267 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < ComponentType > () = ComponentType{{gen_anon_member_name(), yystack_[2].value.as < Type > ()}, false, yystack_[0].value.as < Value > (), absl::nullopt, StorageMode::static_ };
+  case 328: // ComponentType: Type DEFAULT SingleValue
+    { yylhs.value.as < ComponentType > () = ComponentType{{gen_anon_member_name(), yystack_[2].value.as < Type > ()}, false, yystack_[0].value.as < Value > (), absl::nullopt, StorageMode::static_, false };
       std::cerr << context_.location << " WARNING: unnamed type\n"; }
-#line 9140 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 329:
-#line 1270 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < ComponentType > () = ComponentType{yystack_[0].value.as < NamedType > (), false, absl::nullopt, absl::nullopt, StorageMode::static_ }; }
-#line 9146 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 329: // ComponentType: NamedType
+    { yylhs.value.as < ComponentType > () = ComponentType{yystack_[0].value.as < NamedType > (), false, absl::nullopt, absl::nullopt, StorageMode::static_, false }; }
     break;
 
-  case 330:
-#line 1272 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < ComponentType > () = ComponentType{yystack_[1].value.as < NamedType > (), true, absl::nullopt, absl::nullopt, StorageMode::static_ }; }
-#line 9152 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 330: // ComponentType: NamedType OPTIONAL
+    { yylhs.value.as < ComponentType > () = ComponentType{yystack_[1].value.as < NamedType > (), true, absl::nullopt, absl::nullopt, StorageMode::static_, false }; }
     break;
 
-  case 331:
-#line 1274 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < ComponentType > () = ComponentType{yystack_[2].value.as < NamedType > (), false, yystack_[0].value.as < Value > (), absl::nullopt, StorageMode::static_ }; }
-#line 9158 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 331: // ComponentType: NamedType DEFAULT SingleValue
+    { yylhs.value.as < ComponentType > () = ComponentType{yystack_[2].value.as < NamedType > (), false, yystack_[0].value.as < Value > (), absl::nullopt, StorageMode::static_, false }; }
     break;
 
-  case 332:
-#line 1276 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
-    { yylhs.value.as < ComponentType > () = ComponentType{{}, false, absl::nullopt, yystack_[0].value.as < Type > (), StorageMode::static_}; }
-#line 9164 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+  case 332: // ComponentType: COMPONENTS OF Type
+    { yylhs.value.as < ComponentType > () = ComponentType{{}, false, absl::nullopt, yystack_[0].value.as < Type > (), StorageMode::static_, false}; }
     break;
 
-  case 333:
-#line 1288 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 333: // SequenceOfType: SEQUENCE OF Type
     { yylhs.value.as < SequenceOfType > () = SequenceOfType{ false, nullptr, std::unique_ptr<Type>(new Type(yystack_[0].value.as < Type > ())) }; }
-#line 9170 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 334:
-#line 1290 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 334: // SequenceOfType: SEQUENCE OF NamedType
     { yylhs.value.as < SequenceOfType > () = SequenceOfType{ true, std::unique_ptr<NamedType>(new NamedType(yystack_[0].value.as < NamedType > ())), nullptr }; }
-#line 9176 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 335:
-#line 1294 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 335: // SetType: SET "{" "}"
     { yylhs.value.as < SetType > () = SetType{}; }
-#line 9182 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 336:
-#line 1296 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 336: // SetType: SET "{" ComponentTypeLists "}"
     { yylhs.value.as < SetType > () = SetType{yystack_[1].value.as < Collection > ()}; }
-#line 9188 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 337:
-#line 1300 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 337: // SetOfType: SET OF Type
     { yylhs.value.as < SetOfType > () = SetOfType{ false, nullptr, std::unique_ptr<Type>(new Type(yystack_[0].value.as < Type > ())) }; }
-#line 9194 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 338:
-#line 1302 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 338: // SetOfType: SET OF NamedType
     { yylhs.value.as < SetOfType > () = SetOfType{ true, std::unique_ptr<NamedType>(new NamedType(yystack_[0].value.as < NamedType > ())), nullptr }; }
-#line 9200 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 339:
-#line 1306 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 339: // ChoiceType: CHOICE "{" AlternativeTypeLists "}"
     { yylhs.value.as < ChoiceType > () = ChoiceType{ yystack_[1].value.as < std::vector<NamedType> > (), StorageMode::static_ }; }
-#line 9206 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 340:
-#line 1310 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 340: // AlternativeTypeLists: RootAlternativeTypeList
     { yylhs.value.as < std::vector<NamedType> > () = yystack_[0].value.as < std::vector<NamedType> > (); }
-#line 9212 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 341:
-#line 1314 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 341: // RootAlternativeTypeList: AlternativeTypeList
     { yylhs.value.as < std::vector<NamedType> > () = yystack_[0].value.as < std::vector<NamedType> > (); }
-#line 9218 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 342:
-#line 1316 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 342: // RootAlternativeTypeList: AlternativeTypeList "," "..."
     { yylhs.value.as < std::vector<NamedType> > () = yystack_[2].value.as < std::vector<NamedType> > (); }
-#line 9224 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 343:
-#line 1318 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 343: // RootAlternativeTypeList: AlternativeTypeList "," "..." "," AlternativeTypeList
     { yylhs.value.as < std::vector<NamedType> > () = yystack_[4].value.as < std::vector<NamedType> > (); yylhs.value.as < std::vector<NamedType> > ().insert(yylhs.value.as < std::vector<NamedType> > ().end(), yystack_[0].value.as < std::vector<NamedType> > ().begin(), yystack_[0].value.as < std::vector<NamedType> > ().end()); }
-#line 9230 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 344:
-#line 1322 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 344: // AlternativeTypeList: NamedType
     { yylhs.value.as < std::vector<NamedType> > () = std::vector<NamedType> { yystack_[0].value.as < NamedType > () }; }
-#line 9236 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 345:
-#line 1324 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 345: // AlternativeTypeList: AlternativeTypeList "," NamedType
     { yystack_[2].value.as < std::vector<NamedType> > ().push_back( yystack_[0].value.as < NamedType > () ); yylhs.value.as < std::vector<NamedType> > () = yystack_[2].value.as < std::vector<NamedType> > (); }
-#line 9242 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 347:
-#line 1334 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 347: // PrefixedType: TaggedType
     { yylhs.value.as < PrefixedType > () = PrefixedType(yystack_[0].value.as < TaggedType > ()); }
-#line 9248 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 348:
-#line 1338 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 348: // TaggedType: Tag Type
     { yylhs.value.as < TaggedType > () = TaggedType{ yystack_[1].value.as < Tag > (), TaggingMode::automatic, yystack_[0].value.as < Type > () }; }
-#line 9254 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 349:
-#line 1340 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 349: // TaggedType: Tag IMPLICIT Type
     { yylhs.value.as < TaggedType > () = TaggedType{ yystack_[2].value.as < Tag > (), TaggingMode::implicit, yystack_[0].value.as < Type > () }; }
-#line 9260 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 350:
-#line 1342 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 350: // TaggedType: Tag EXPLICIT Type
     { yylhs.value.as < TaggedType > () = TaggedType{ yystack_[2].value.as < Tag > (), TaggingMode::explicit_, yystack_[0].value.as < Type > () }; }
-#line 9266 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 351:
-#line 1346 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 351: // Tag: "[" EncodingReference Class ClassNumber "]"
     { yylhs.value.as < Tag > () = Tag{ yystack_[2].value.as < Class > (), yystack_[1].value.as < int > () }; }
-#line 9272 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 354:
-#line 1354 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 354: // ClassNumber: number
     { yylhs.value.as < int > () = yystack_[0].value.as < int64_t > (); }
-#line 9278 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 356:
-#line 1359 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 356: // Class: UNIVERSAL
     { yylhs.value.as < Class > () = Class::universal; }
-#line 9284 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 357:
-#line 1361 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 357: // Class: APPLICATION
     { yylhs.value.as < Class > () = Class::application; }
-#line 9290 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 358:
-#line 1363 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 358: // Class: PRIVATE
     { yylhs.value.as < Class > () = Class::private_; }
-#line 9296 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 359:
-#line 1365 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 359: // Class: %empty
     { yylhs.value.as < Class > () = Class::context_specific; }
-#line 9302 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 361:
-#line 1378 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 361: // ObjectIdentifierValue: "{" ObjIdComponentsList "}"
     { yylhs.value.as < std::vector<ObjectIdComponentValue> > () = yystack_[1].value.as < std::vector<ObjectIdComponentValue> > (); std::reverse(yylhs.value.as < std::vector<ObjectIdComponentValue> > ().begin(), yylhs.value.as < std::vector<ObjectIdComponentValue> > ().end()); }
-#line 9308 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 362:
-#line 1380 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 362: // ObjectIdentifierValue: "{" DefinedValue ObjIdComponentsList "}"
     { yylhs.value.as < std::vector<ObjectIdComponentValue> > () = yystack_[1].value.as < std::vector<ObjectIdComponentValue> > (); std::reverse(yylhs.value.as < std::vector<ObjectIdComponentValue> > ().begin(), yylhs.value.as < std::vector<ObjectIdComponentValue> > ().end()); }
-#line 9314 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 363:
-#line 1384 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 363: // ObjIdComponentsList: ObjIdComponents
     { yylhs.value.as < std::vector<ObjectIdComponentValue> > ().push_back(yystack_[0].value.as < ObjectIdComponentValue > ()); }
-#line 9320 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 364:
-#line 1386 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 364: // ObjIdComponentsList: ObjIdComponents ObjIdComponentsList
     { yylhs.value.as < std::vector<ObjectIdComponentValue> > () = yystack_[0].value.as < std::vector<ObjectIdComponentValue> > (); yylhs.value.as < std::vector<ObjectIdComponentValue> > ().push_back(yystack_[1].value.as < ObjectIdComponentValue > ()); }
-#line 9326 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 365:
-#line 1390 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 365: // ObjIdComponents: NameForm
     { yylhs.value.as < ObjectIdComponentValue > () = yystack_[0].value.as < ObjectIdComponentValue > (); }
-#line 9332 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 366:
-#line 1392 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 366: // ObjIdComponents: NumberForm
     { yylhs.value.as < ObjectIdComponentValue > () = yystack_[0].value.as < ObjectIdComponentValue > (); }
-#line 9338 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 367:
-#line 1394 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 367: // ObjIdComponents: NameAndNumberForm
     { yylhs.value.as < ObjectIdComponentValue > () = yystack_[0].value.as < ObjectIdComponentValue > (); }
-#line 9344 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 368:
-#line 1398 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 368: // NameForm: identifier
     { yylhs.value.as < ObjectIdComponentValue > ().name = yystack_[0].value.as < std::string > (); }
-#line 9350 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 369:
-#line 1402 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 369: // NumberForm: number
     { yylhs.value.as < ObjectIdComponentValue > ().value = yystack_[0].value.as < int64_t > (); }
-#line 9356 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 371:
-#line 1407 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 371: // NameAndNumberForm: identifier "(" NumberForm ")"
     { yylhs.value.as < ObjectIdComponentValue > () = yystack_[1].value.as < ObjectIdComponentValue > (); yylhs.value.as < ObjectIdComponentValue > ().name = yystack_[3].value.as < std::string > (); }
-#line 9362 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 389:
-#line 1480 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 389: // CharacterStringType: RestrictedCharacterStringType
     { yylhs.value.as < CharacterStringType > () = yystack_[0].value.as < CharacterStringType > (); }
-#line 9368 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 390:
-#line 1482 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 390: // CharacterStringType: UnrestrictedCharacterStringType
     { yylhs.value.as < CharacterStringType > () = yystack_[0].value.as < CharacterStringType > (); }
-#line 9374 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 391:
-#line 1486 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 391: // RestrictedCharacterStringType: BMPString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::bmp_string; }
-#line 9380 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 392:
-#line 1488 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 392: // RestrictedCharacterStringType: GeneralString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::general_string; }
-#line 9386 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 393:
-#line 1490 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 393: // RestrictedCharacterStringType: GraphicString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::graphic_string; }
-#line 9392 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 394:
-#line 1492 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 394: // RestrictedCharacterStringType: IA5String
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::ia5_string; }
-#line 9398 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 395:
-#line 1494 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 395: // RestrictedCharacterStringType: ISO646String
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::iso646_string; }
-#line 9404 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 396:
-#line 1496 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 396: // RestrictedCharacterStringType: NumericString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::numeric_string; }
-#line 9410 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 397:
-#line 1498 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 397: // RestrictedCharacterStringType: PrintableString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::printable_string; }
-#line 9416 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 398:
-#line 1500 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 398: // RestrictedCharacterStringType: TeletexString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::teletex_string; }
-#line 9422 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 399:
-#line 1502 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 399: // RestrictedCharacterStringType: T61String
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::t61_string; }
-#line 9428 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 400:
-#line 1504 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 400: // RestrictedCharacterStringType: UniversalString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::universal_string; }
-#line 9434 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 401:
-#line 1506 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 401: // RestrictedCharacterStringType: UTF8String
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::utf8_string; }
-#line 9440 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 402:
-#line 1508 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 402: // RestrictedCharacterStringType: VideotexString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::videotex_string; }
-#line 9446 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 403:
-#line 1510 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 403: // RestrictedCharacterStringType: VisibleString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::visible_string; }
-#line 9452 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 404:
-#line 1514 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 404: // UnrestrictedCharacterStringType: CHARACTER STRING
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::character_string; }
-#line 9458 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 405:
-#line 1518 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 405: // ConstrainedType: Type Constraint
     { yylhs.value.as < Type > () = yystack_[1].value.as < Type > (); }
-#line 9464 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 406:
-#line 1520 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 406: // ConstrainedType: TypeWithConstraint
     { yylhs.value.as < Type > () = yystack_[0].value.as < Type > (); feature_not_implemented(context_.location, context_.asn1_tree, "TypeWithConstraint", "Not yet checking contraints. ");  }
-#line 9470 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 407:
-#line 1524 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 407: // TypeWithConstraint: SET Constraint OF Type
     { yylhs.value.as < Type > () = SetOfType{ false, nullptr, std::unique_ptr<Type>(new Type(yystack_[0].value.as < Type > ())) }; }
-#line 9476 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 408:
-#line 1526 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 408: // TypeWithConstraint: SET SizeConstraint OF Type
     { yylhs.value.as < Type > () = SetOfType{ false, nullptr, std::unique_ptr<Type>(new Type(yystack_[0].value.as < Type > ())) }; }
-#line 9482 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 409:
-#line 1528 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 409: // TypeWithConstraint: SEQUENCE Constraint OF Type
     { yylhs.value.as < Type > () = SequenceOfType{ false, nullptr, std::unique_ptr<Type>(new Type(yystack_[0].value.as < Type > ())) }; }
-#line 9488 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 410:
-#line 1530 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 410: // TypeWithConstraint: SEQUENCE SizeConstraint OF Type
     { yylhs.value.as < Type > () = SequenceOfType{ false, nullptr, std::unique_ptr<Type>(new Type(yystack_[0].value.as < Type > ())) }; }
-#line 9494 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 411:
-#line 1532 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 411: // TypeWithConstraint: SET Constraint OF NamedType
     { yylhs.value.as < Type > () = SetOfType{ true, std::unique_ptr<NamedType>(new NamedType(yystack_[0].value.as < NamedType > ())), nullptr }; }
-#line 9500 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 412:
-#line 1534 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 412: // TypeWithConstraint: SET SizeConstraint OF NamedType
     { yylhs.value.as < Type > () = SetOfType{ true, std::unique_ptr<NamedType>(new NamedType(yystack_[0].value.as < NamedType > ())), nullptr }; }
-#line 9506 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 413:
-#line 1536 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 413: // TypeWithConstraint: SEQUENCE Constraint OF NamedType
     { yylhs.value.as < Type > () = SequenceOfType{ true, std::unique_ptr<NamedType>(new NamedType(yystack_[0].value.as < NamedType > ())), nullptr }; }
-#line 9512 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 414:
-#line 1538 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 414: // TypeWithConstraint: SEQUENCE SizeConstraint OF NamedType
     { yylhs.value.as < Type > () = SequenceOfType{ true, std::unique_ptr<NamedType>(new NamedType(yystack_[0].value.as < NamedType > ())), nullptr }; }
-#line 9518 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 415:
-#line 1542 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 415: // Constraint: "(" ConstraintSpec ExceptionSpec ")"
     { feature_not_implemented(context_.location, context_.asn1_tree, "ConstraintSpec", "Not yet checking contraints. "); }
-#line 9524 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 449:
-#line 1613 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 449: // SingleValue: BooleanValue
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < BooleanValue > (); }
-#line 9530 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 450:
-#line 1616 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 450: // SingleValue: ASN_NULL
     { yylhs.value.as < Value > ().value_selection = NullValue{}; }
-#line 9536 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 451:
-#line 1618 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 451: // SingleValue: TimeValue
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < TimeValue > (); }
-#line 9542 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 452:
-#line 1620 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 452: // SingleValue: bstring
     { yylhs.value.as < Value > ().value_selection = BitStringValue{yystack_[0].value.as < std::string > ()}; }
-#line 9548 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 453:
-#line 1622 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 453: // SingleValue: hstring
     { yylhs.value.as < Value > ().value_selection = HexStringValue{yystack_[0].value.as < std::string > ()}; }
-#line 9554 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 454:
-#line 1624 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 454: // SingleValue: cstring
     { yylhs.value.as < Value > ().value_selection = CharStringValue{yystack_[0].value.as < std::string > ()}; }
-#line 9560 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 455:
-#line 1626 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 455: // SingleValue: GENERIC_IDENTIFIER_UPPERCASE
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < std::string > (); }
-#line 9566 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 456:
-#line 1628 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 456: // SingleValue: DefinedValue
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < DefinedValue > (); }
-#line 9572 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 457:
-#line 1630 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 457: // SingleValue: SignedNumber
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < int64_t > (); }
-#line 9578 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 458:
-#line 1632 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 458: // SingleValue: realnumber
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < double > (); }
-#line 9584 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 497:
-#line 1717 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 497: // typereference: GENERIC_IDENTIFIER_UPPERCASE
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
-#line 9590 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 498:
-#line 1721 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 498: // identifier: GENERIC_IDENTIFIER_LOWERCASE
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
-#line 9596 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 499:
-#line 1725 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 499: // valuereference: GENERIC_IDENTIFIER_LOWERCASE
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
-#line 9602 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 500:
-#line 1729 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 500: // modulereference: GENERIC_IDENTIFIER_UPPERCASE
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
-#line 9608 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 501:
-#line 1733 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 501: // objectclassreference: GENERIC_IDENTIFIER_UPPERCASE
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
-#line 9614 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
-  case 502:
-#line 1736 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:919
+  case 502: // word: GENERIC_IDENTIFIER_UPPERCASE
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
-#line 9620 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
     break;
 
 
-#line 9624 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:919
+
             default:
               break;
             }
@@ -9638,7 +9961,6 @@ namespace yy {
       YY_SYMBOL_PRINT ("-> $$ =", yylhs);
       yypop_ (yylen);
       yylen = 0;
-      YY_STACK_PRINT ();
 
       // Shift the result of the reduction.
       yypush_ (YY_NULLPTR, YY_MOVE (yylhs));
@@ -9654,7 +9976,9 @@ namespace yy {
     if (!yyerrstatus_)
       {
         ++yynerrs_;
-        error (yyla.location, yysyntax_error_ (yystack_[0].state, yyla));
+        context yyctx (*this, yyla);
+        std::string msg = yysyntax_error_ (yyctx);
+        error (yyla.location, YY_MOVE (msg));
       }
 
 
@@ -9665,7 +9989,7 @@ namespace yy {
            error, discard it.  */
 
         // Return failure if at end of input.
-        if (yyla.type_get () == yyeof_)
+        if (yyla.kind () == symbol_kind::S_YYEOF)
           YYABORT;
         else if (!yyla.empty ())
           {
@@ -9691,6 +10015,7 @@ namespace yy {
        this YYERROR.  */
     yypop_ (yylen);
     yylen = 0;
+    YY_STACK_PRINT ();
     goto yyerrlab1;
 
 
@@ -9699,37 +10024,39 @@ namespace yy {
   `-------------------------------------------------------------*/
   yyerrlab1:
     yyerrstatus_ = 3;   // Each real token shifted decrements this.
-    {
-      stack_symbol_type error_token;
-      for (;;)
-        {
-          yyn = yypact_[yystack_[0].state];
-          if (!yy_pact_value_is_default_ (yyn))
-            {
-              yyn += yyterror_;
-              if (0 <= yyn && yyn <= yylast_ && yycheck_[yyn] == yyterror_)
-                {
-                  yyn = yytable_[yyn];
-                  if (0 < yyn)
-                    break;
-                }
-            }
+    // Pop stack until we find a state that shifts the error token.
+    for (;;)
+      {
+        yyn = yypact_[+yystack_[0].state];
+        if (!yy_pact_value_is_default_ (yyn))
+          {
+            yyn += symbol_kind::S_YYerror;
+            if (0 <= yyn && yyn <= yylast_
+                && yycheck_[yyn] == symbol_kind::S_YYerror)
+              {
+                yyn = yytable_[yyn];
+                if (0 < yyn)
+                  break;
+              }
+          }
 
-          // Pop the current state because it cannot handle the error token.
-          if (yystack_.size () == 1)
-            YYABORT;
+        // Pop the current state because it cannot handle the error token.
+        if (yystack_.size () == 1)
+          YYABORT;
 
-          yyerror_range[1].location = yystack_[0].location;
-          yy_destroy_ ("Error: popping", yystack_[0]);
-          yypop_ ();
-          YY_STACK_PRINT ();
-        }
+        yyerror_range[1].location = yystack_[0].location;
+        yy_destroy_ ("Error: popping", yystack_[0]);
+        yypop_ ();
+        YY_STACK_PRINT ();
+      }
+    {
+      stack_symbol_type error_token;
 
       yyerror_range[2].location = yyla.location;
       YYLLOC_DEFAULT (error_token.location, yyerror_range, 2);
 
       // Shift the error token.
-      error_token.state = yyn;
+      error_token.state = state_type (yyn);
       yypush_ ("Shifting", YY_MOVE (error_token));
     }
     goto yynewstate;
@@ -9761,6 +10088,7 @@ namespace yy {
     /* Do not reclaim the symbols of the rule whose action triggered
        this YYABORT or YYACCEPT.  */
     yypop_ (yylen);
+    YY_STACK_PRINT ();
     while (1 < yystack_.size ())
       {
         yy_destroy_ ("Cleanup: popping", yystack_[0]);
@@ -9791,21 +10119,106 @@ namespace yy {
   void
   asn1_parser::error (const syntax_error& yyexc)
   {
-    error (yyexc.location, yyexc.what ());
+    error (yyexc.location, yyexc.what ());
+  }
+
+  /* Return YYSTR after stripping away unnecessary quotes and
+     backslashes, so that it's suitable for yyerror.  The heuristic is
+     that double-quoting is unnecessary unless the string contains an
+     apostrophe, a comma, or backslash (other than backslash-backslash).
+     YYSTR is taken from yytname.  */
+  std::string
+  asn1_parser::yytnamerr_ (const char *yystr)
+  {
+    if (*yystr == '"')
+      {
+        std::string yyr;
+        char const *yyp = yystr;
+
+        for (;;)
+          switch (*++yyp)
+            {
+            case '\'':
+            case ',':
+              goto do_not_strip_quotes;
+
+            case '\\':
+              if (*++yyp != '\\')
+                goto do_not_strip_quotes;
+              else
+                goto append;
+
+            append:
+            default:
+              yyr += *yyp;
+              break;
+
+            case '"':
+              return yyr;
+            }
+      do_not_strip_quotes: ;
+      }
+
+    return yystr;
+  }
+
+  std::string
+  asn1_parser::symbol_name (symbol_kind_type yysymbol)
+  {
+    return yytnamerr_ (yytname_[yysymbol]);
   }
 
-  // Generate an error message.
-  std::string
-  asn1_parser::yysyntax_error_ (state_type yystate, const symbol_type& yyla) const
+
+
+  // asn1_parser::context.
+  asn1_parser::context::context (const asn1_parser& yyparser, const symbol_type& yyla)
+    : yyparser_ (yyparser)
+    , yyla_ (yyla)
+  {}
+
+  int
+  asn1_parser::context::expected_tokens (symbol_kind_type yyarg[], int yyargn) const
   {
-    // Number of reported tokens (one for the "unexpected", one per
-    // "expected").
-    size_t yycount = 0;
-    // Its maximum.
-    enum { YYERROR_VERBOSE_ARGS_MAXIMUM = 5 };
-    // Arguments of yyformat.
-    char const *yyarg[YYERROR_VERBOSE_ARGS_MAXIMUM];
+    // Actual number of expected tokens
+    int yycount = 0;
+
+    const int yyn = yypact_[+yyparser_.yystack_[0].state];
+    if (!yy_pact_value_is_default_ (yyn))
+      {
+        /* Start YYX at -YYN if negative to avoid negative indexes in
+           YYCHECK.  In other words, skip the first -YYN actions for
+           this state because they are default actions.  */
+        const int yyxbegin = yyn < 0 ? -yyn : 0;
+        // Stay within bounds of both yycheck and yytname.
+        const int yychecklim = yylast_ - yyn + 1;
+        const int yyxend = yychecklim < YYNTOKENS ? yychecklim : YYNTOKENS;
+        for (int yyx = yyxbegin; yyx < yyxend; ++yyx)
+          if (yycheck_[yyx + yyn] == yyx && yyx != symbol_kind::S_YYerror
+              && !yy_table_value_is_error_ (yytable_[yyx + yyn]))
+            {
+              if (!yyarg)
+                ++yycount;
+              else if (yycount == yyargn)
+                return 0;
+              else
+                yyarg[yycount++] = YY_CAST (symbol_kind_type, yyx);
+            }
+      }
+
+    if (yyarg && yycount == 0 && 0 < yyargn)
+      yyarg[0] = symbol_kind::S_YYEMPTY;
+    return yycount;
+  }
 
+
+
+
+
+
+  int
+  asn1_parser::yy_syntax_error_arguments_ (const context& yyctx,
+                                                 symbol_kind_type yyarg[], int yyargn) const
+  {
     /* There are many possibilities here to consider:
        - If this state is a consistent state with a default action, then
          the only way this function was invoked is if the default action
@@ -9824,41 +10237,32 @@ namespace yy {
        - Of course, the expected token list depends on states to have
          correct lookahead information, and it depends on the parser not
          to perform extra reductions after fetching a lookahead from the
-         scanner and before detecting a syntax error.  Thus, state
-         merging (from LALR or IELR) and default reductions corrupt the
-         expected token list.  However, the list is correct for
-         canonical LR with one exception: it will still contain any
-         token that will not be accepted due to an error action in a
-         later state.
+         scanner and before detecting a syntax error.  Thus, state merging
+         (from LALR or IELR) and default reductions corrupt the expected
+         token list.  However, the list is correct for canonical LR with
+         one exception: it will still contain any token that will not be
+         accepted due to an error action in a later state.
     */
-    if (!yyla.empty ())
+
+    if (!yyctx.lookahead ().empty ())
       {
-        int yytoken = yyla.type_get ();
-        yyarg[yycount++] = yytname_[yytoken];
-        int yyn = yypact_[yystate];
-        if (!yy_pact_value_is_default_ (yyn))
-          {
-            /* Start YYX at -YYN if negative to avoid negative indexes in
-               YYCHECK.  In other words, skip the first -YYN actions for
-               this state because they are default actions.  */
-            int yyxbegin = yyn < 0 ? -yyn : 0;
-            // Stay within bounds of both yycheck and yytname.
-            int yychecklim = yylast_ - yyn + 1;
-            int yyxend = yychecklim < yyntokens_ ? yychecklim : yyntokens_;
-            for (int yyx = yyxbegin; yyx < yyxend; ++yyx)
-              if (yycheck_[yyx + yyn] == yyx && yyx != yyterror_
-                  && !yy_table_value_is_error_ (yytable_[yyx + yyn]))
-                {
-                  if (yycount == YYERROR_VERBOSE_ARGS_MAXIMUM)
-                    {
-                      yycount = 1;
-                      break;
-                    }
-                  else
-                    yyarg[yycount++] = yytname_[yyx];
-                }
-          }
+        if (yyarg)
+          yyarg[0] = yyctx.token ();
+        int yyn = yyctx.expected_tokens (yyarg ? yyarg + 1 : yyarg, yyargn - 1);
+        return yyn + 1;
       }
+    return 0;
+  }
+
+  // Generate an error message.
+  std::string
+  asn1_parser::yysyntax_error_ (const context& yyctx) const
+  {
+    // Its maximum.
+    enum { YYARGS_MAX = 5 };
+    // Arguments of yyformat.
+    symbol_kind_type yyarg[YYARGS_MAX];
+    int yycount = yy_syntax_error_arguments_ (yyctx, yyarg, YYARGS_MAX);
 
     char const* yyformat = YY_NULLPTR;
     switch (yycount)
@@ -9879,11 +10283,11 @@ namespace yy {
 
     std::string yyres;
     // Argument number.
-    size_t yyi = 0;
+    std::ptrdiff_t yyi = 0;
     for (char const* yyp = yyformat; *yyp; ++yyp)
       if (yyp[0] == '%' && yyp[1] == 's' && yyi < yycount)
         {
-          yyres += yytnamerr_ (yyarg[yyi++]);
+          yyres += symbol_name (yyarg[yyi++]);
           ++yyp;
         }
       else
@@ -9989,7 +10393,7 @@ namespace yy {
     -663,  3943,  -663,  -663,   509,  3943
   };
 
-  const unsigned short
+  const short
   asn1_parser::yydefact_[] =
   {
        0,   500,     0,     2,     0,   147,     1,     3,   158,     0,
@@ -10113,7 +10517,7 @@ namespace yy {
   const short
   asn1_parser::yydefgoto_[] =
   {
-      -1,     2,     3,   815,   396,   223,   144,    77,   225,   226,
+       0,     2,     3,   815,   396,   223,   144,    77,   225,   226,
      502,   503,   373,   416,   504,   505,   600,   655,   506,   702,
      507,   508,   699,   509,   652,   510,   660,   662,   858,   859,
      860,   861,   862,   863,   145,   146,   693,   694,   695,   805,
@@ -11158,7 +11562,7 @@ namespace yy {
       -1,    -1,   145
   };
 
-  const unsigned short
+  const short
   asn1_parser::yystos_[] =
   {
        0,   149,   154,   155,   228,   375,     0,   154,    51,   124,
@@ -11251,7 +11655,7 @@ namespace yy {
      186,   137,   125,   129,   290,   137
   };
 
-  const unsigned short
+  const short
   asn1_parser::yyr1_[] =
   {
        0,   153,   154,   154,   155,   156,   157,   157,   157,   158,
@@ -11314,7 +11718,7 @@ namespace yy {
      377,   377,   377,   377,   377,   377,   377,   377,   377
   };
 
-  const unsigned char
+  const signed char
   asn1_parser::yyr2_[] =
   {
        0,     2,     1,     2,    10,     3,     1,     1,     1,     3,
@@ -11378,13 +11782,13 @@ namespace yy {
   };
 
 
-
+#if YYDEBUG || 1
   // YYTNAME[SYMBOL-NUM] -- String name of the symbol SYMBOL-NUM.
-  // First, the terminals, then, starting at \a yyntokens_, nonterminals.
+  // First, the terminals, then, starting at \a YYNTOKENS, nonterminals.
   const char*
   const asn1_parser::yytname_[] =
   {
-  "END_OF_FILE", "error", "$undefined", "comment", "number",
+  "END_OF_FILE", "error", "\"invalid token\"", "comment", "number",
   "negativenumber", "realnumber", "bstring", "xmlbstring", "hstring",
   "xmlhstring", "cstring", "xmlcstring", "simplestring", "xmltstring",
   "psname", "encodingreference", "integerUnicodeLabel",
@@ -11410,7 +11814,7 @@ namespace yy {
   "UniversalString", "UTCTime", "UTF8String", "VideotexString",
   "VisibleString", "WITH", "\"::=\"", "\"...\"", "\"..\"", "\"{\"",
   "\"}\"", "\"(\"", "\")\"", "\"[\"", "\"]\"", "\"<\"", "\">\"", "\"!\"",
-  "\"\\\"\"", "\"&\"", "\"'\"", "\"*\"", "\",\"", "\".\"", "\"-\"",
+  "\"\\\"\"", "\"&\"", "\"\\'\"", "\"*\"", "\",\"", "\".\"", "\"-\"",
   "\"/\"", "\":\"", "\";\"", "\"=\"", "\"@\"", "\"|\"", "\"^\"", "PLUS",
   "STAR", "GENERIC_IDENTIFIER_UPPERCASE", "GENERIC_IDENTIFIER_LOWERCASE",
   "GENERIC_INTEGER", "xmlasn1typename", "$accept", "ModuleDefinitionList",
@@ -11482,9 +11886,11 @@ namespace yy {
   "ExceptionIdentification", "typereference", "identifier",
   "valuereference", "modulereference", "objectclassreference", "word", YY_NULLPTR
   };
+#endif
+
 
 #if YYDEBUG
-  const unsigned short
+  const short
   asn1_parser::yyrline_[] =
   {
        0,   327,   327,   328,   331,   346,   349,   350,   351,   354,
@@ -11547,24 +11953,22 @@ namespace yy {
     1804,  1805,  1806,  1807,  1808,  1809,  1810,  1811,  1812
   };
 
-  // Print the state stack on the debug stream.
   void
-  asn1_parser::yystack_print_ ()
+  asn1_parser::yy_stack_print_ () const
   {
     *yycdebug_ << "Stack now";
     for (stack_type::const_iterator
            i = yystack_.begin (),
            i_end = yystack_.end ();
          i != i_end; ++i)
-      *yycdebug_ << ' ' << i->state;
+      *yycdebug_ << ' ' << int (i->state);
     *yycdebug_ << '\n';
   }
 
-  // Report on the debug stream that the rule \a yyrule is going to be reduced.
   void
-  asn1_parser::yy_reduce_print_ (int yyrule)
+  asn1_parser::yy_reduce_print_ (int yyrule) const
   {
-    unsigned yylno = yyrline_[yyrule];
+    int yylno = yyrline_[yyrule];
     int yynrhs = yyr2_[yyrule];
     // Print the symbols being reduced, and their result.
     *yycdebug_ << "Reducing stack by rule " << yyrule - 1
@@ -11577,10 +11981,8 @@ namespace yy {
 #endif // YYDEBUG
 
 
-
 } // yy
-#line 11581 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re" // lalr1.cc:1242
-#line 1814 "/home/styler/git/fast_ber/src/compiler/asn_compiler.yacc" // lalr1.cc:1243
+
 
 
 
@@ -11593,12445 +11995,12089 @@ namespace yy {
         context_.location.step();
         // Lexer
 
-#line 11597 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
 {
 	char yych;
 	unsigned int yyaccept = 0;
 	yych = *context_.cursor;
 	switch (yych) {
-	case 0x00:	goto yy2;
-	case 0x08:
-	case '\t':
-	case '\v':
-	case '\f':
-	case ' ':	goto yy6;
-	case '\n':	goto yy8;
-	case '\r':	goto yy10;
-	case '!':	goto yy11;
-	case '"':	goto yy13;
-	case '&':	goto yy15;
-	case '\'':	goto yy16;
-	case '(':	goto yy18;
-	case ')':	goto yy20;
-	case ',':	goto yy22;
-	case '-':	goto yy24;
-	case '.':	goto yy26;
-	case '/':	goto yy28;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':	goto yy29;
-	case ':':	goto yy32;
-	case ';':	goto yy34;
-	case '<':	goto yy36;
-	case '@':	goto yy38;
-	case 'A':	goto yy40;
-	case 'B':	goto yy42;
-	case 'C':	goto yy43;
-	case 'D':	goto yy44;
-	case 'E':	goto yy45;
-	case 'F':	goto yy46;
-	case 'G':	goto yy47;
-	case 'H':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'Q':
-	case 'X':
-	case 'Y':
-	case 'Z':	goto yy48;
-	case 'I':	goto yy50;
-	case 'M':	goto yy51;
-	case 'N':	goto yy52;
-	case 'O':	goto yy53;
-	case 'P':	goto yy54;
-	case 'R':	goto yy55;
-	case 'S':	goto yy56;
-	case 'T':	goto yy57;
-	case 'U':	goto yy58;
-	case 'V':	goto yy59;
-	case 'W':	goto yy60;
-	case '[':	goto yy61;
-	case ']':	goto yy63;
-	case '^':	goto yy65;
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy67;
-	case '{':	goto yy70;
-	case '|':	goto yy72;
-	case '}':	goto yy74;
-	default:	goto yy4;
-	}
-yy2:
+		case 0x00: goto yy1;
+		case 0x08:
+		case '\t':
+		case '\v':
+		case '\f':
+		case ' ': goto yy4;
+		case '\n': goto yy5;
+		case '\r': goto yy6;
+		case '!': goto yy7;
+		case '"': goto yy8;
+		case '&': goto yy9;
+		case '\'': goto yy10;
+		case '(': goto yy11;
+		case ')': goto yy12;
+		case ',': goto yy13;
+		case '-': goto yy14;
+		case '.': goto yy16;
+		case '/': goto yy18;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9': goto yy19;
+		case ':': goto yy21;
+		case ';': goto yy23;
+		case '<': goto yy24;
+		case '@': goto yy25;
+		case 'A': goto yy26;
+		case 'B': goto yy28;
+		case 'C': goto yy29;
+		case 'D': goto yy30;
+		case 'E': goto yy31;
+		case 'F': goto yy32;
+		case 'G': goto yy33;
+		case 'H':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'Q':
+		case 'X':
+		case 'Y':
+		case 'Z': goto yy34;
+		case 'I': goto yy36;
+		case 'M': goto yy37;
+		case 'N': goto yy38;
+		case 'O': goto yy39;
+		case 'P': goto yy40;
+		case 'R': goto yy41;
+		case 'S': goto yy42;
+		case 'T': goto yy43;
+		case 'U': goto yy44;
+		case 'V': goto yy45;
+		case 'W': goto yy46;
+		case '[': goto yy47;
+		case ']': goto yy48;
+		case '^': goto yy49;
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy50;
+		case '{': goto yy52;
+		case '|': goto yy53;
+		case '}': goto yy54;
+		default: goto yy2;
+	}
+yy1:
 	++context_.cursor;
-#line 11716 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_END_OF_FILE(context_.location); }
-#line 11699 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy4:
+yy2:
 	++context_.cursor;
-yy5:
-#line 11742 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy3:
 	{ std::cerr << "Ignoring unknown symbol: " <<  static_cast<int>(*start) << std::endl; return yylex(context_); }
-#line 11705 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy6:
+yy4:
 	++context_.cursor;
-#line 11720 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
 	{ context_.location.columns(context_.cursor - start); context_.location.columns(); return yylex(context_); }
-#line 11710 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy8:
+yy5:
 	++context_.cursor;
-#line 11719 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
 	{ context_.location.columns(context_.cursor - start); context_.location.lines();   return yylex(context_); }
-#line 11715 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy10:
+yy6:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '\n':	goto yy8;
-	default:	goto yy5;
+		case '\n': goto yy5;
+		default: goto yy3;
 	}
-yy11:
+yy7:
 	++context_.cursor;
-#line 11738 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXCLAMATION_MARK (context_.location); }
-#line 11726 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy13:
+yy8:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '"':	goto yy76;
-	case '\'':	goto yy78;
-	case '\\':	goto yy79;
-	default:	goto yy13;
+		case '"': goto yy55;
+		case '\'': goto yy57;
+		case '\\': goto yy58;
+		default: goto yy8;
 	}
-yy15:
+yy9:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':	goto yy81;
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy84;
-	default:	goto yy5;
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z': goto yy59;
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy61;
+		default: goto yy3;
 	}
-yy16:
+yy10:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '"':	goto yy76;
-	case '\'':	goto yy87;
-	case '0':
-	case '1':	goto yy16;
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':	goto yy88;
-	case '\\':	goto yy79;
-	default:	goto yy13;
+		case '"': goto yy55;
+		case '\'': goto yy63;
+		case '0':
+		case '1': goto yy10;
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f': goto yy64;
+		case '\\': goto yy58;
+		default: goto yy8;
 	}
-yy18:
+yy11:
 	++context_.cursor;
-#line 11728 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OPEN_PARENTHESIS (context_.location); }
-#line 11826 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy20:
+yy12:
 	++context_.cursor;
-#line 11729 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CLOSE_PARENTHESIS (context_.location); }
-#line 11831 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy22:
+yy13:
 	++context_.cursor;
-#line 11734 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COMMA (context_.location); }
-#line 11836 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy24:
+yy14:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '-':	goto yy90;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':	goto yy93;
-	default:	goto yy25;
+		case '-': goto yy65;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9': goto yy67;
+		default: goto yy15;
 	}
-yy25:
-#line 11735 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy15:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_HYPHEN_MINUS (context_.location); }
-#line 11856 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy26:
+yy16:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '.':	goto yy96;
-	default:	goto yy27;
+		case '.': goto yy69;
+		default: goto yy17;
 	}
-yy27:
-#line 11736 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy17:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_FULL_STOP (context_.location); }
-#line 11866 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy28:
+yy18:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '*':	goto yy98;
-	default:	goto yy5;
+		case '*': goto yy71;
+		default: goto yy3;
 	}
-yy29:
+yy19:
 	yyaccept = 0;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '.':	goto yy100;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':	goto yy29;
-	default:	goto yy31;
+		case '.': goto yy72;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9': goto yy19;
+		default: goto yy20;
 	}
-yy31:
-#line 11702 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy20:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_number(std::stoll(std::string(start, context_.cursor)), context_.location); }
-#line 11893 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy32:
+yy21:
 	yyaccept = 1;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case ':':	goto yy102;
-	default:	goto yy33;
+		case ':': goto yy74;
+		default: goto yy22;
 	}
-yy33:
-#line 11732 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy22:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COLON (context_.location); }
-#line 11904 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy34:
+yy23:
 	++context_.cursor;
-#line 11733 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SEMICOLON (context_.location); }
-#line 11909 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy36:
+yy24:
 	++context_.cursor;
-#line 11739 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_LESS_THAN (context_.location); }
-#line 11914 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy38:
+yy25:
 	++context_.cursor;
-#line 11741 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_AT (context_.location); }
-#line 11919 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy40:
+yy26:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'B':	goto yy104;
-	case 'L':	goto yy105;
-	case 'N':	goto yy106;
-	case 'P':	goto yy107;
-	case 'U':	goto yy108;
-	default:	goto yy49;
+		case 'B': goto yy76;
+		case 'L': goto yy77;
+		case 'N': goto yy78;
+		case 'P': goto yy79;
+		case 'U': goto yy80;
+		default: goto yy35;
 	}
-yy41:
-#line 11710 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy27:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GENERIC_IDENTIFIER_UPPERCASE(santize_name(std::string(start, context_.cursor)), context_.location); }
-#line 11934 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy42:
+yy28:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy109;
-	case 'I':	goto yy110;
-	case 'M':	goto yy111;
-	case 'O':	goto yy112;
-	case 'Y':	goto yy113;
-	default:	goto yy49;
+		case 'E': goto yy81;
+		case 'I': goto yy82;
+		case 'M': goto yy83;
+		case 'O': goto yy84;
+		case 'Y': goto yy85;
+		default: goto yy35;
 	}
-yy43:
+yy29:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'H':	goto yy115;
-	case 'L':	goto yy116;
-	case 'O':	goto yy117;
-	default:	goto yy49;
+		case 'H': goto yy87;
+		case 'L': goto yy88;
+		case 'O': goto yy89;
+		default: goto yy35;
 	}
-yy44:
+yy30:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy118;
-	case 'E':	goto yy119;
-	case 'U':	goto yy120;
-	default:	goto yy49;
+		case 'A': goto yy90;
+		case 'E': goto yy91;
+		case 'U': goto yy92;
+		default: goto yy35;
 	}
-yy45:
+yy31:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'M':	goto yy121;
-	case 'N':	goto yy122;
-	case 'X':	goto yy123;
-	default:	goto yy49;
+		case 'M': goto yy93;
+		case 'N': goto yy94;
+		case 'X': goto yy95;
+		default: goto yy35;
 	}
-yy46:
+yy32:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy124;
-	case 'R':	goto yy125;
-	default:	goto yy49;
+		case 'A': goto yy96;
+		case 'R': goto yy97;
+		default: goto yy35;
 	}
-yy47:
+yy33:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'e':	goto yy126;
-	case 'r':	goto yy127;
-	default:	goto yy49;
+		case 'e': goto yy98;
+		case 'r': goto yy99;
+		default: goto yy35;
 	}
-yy48:
+yy34:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
-yy49:
-	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy41;
+yy35:
+	switch (yych) {
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy27;
 	}
-yy50:
+yy36:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy128;
-	case 'D':	goto yy129;
-	case 'M':	goto yy130;
-	case 'N':	goto yy131;
-	case 'S':	goto yy132;
-	default:	goto yy49;
+		case 'A': goto yy100;
+		case 'D': goto yy101;
+		case 'M': goto yy102;
+		case 'N': goto yy103;
+		case 'S': goto yy104;
+		default: goto yy35;
 	}
-yy51:
+yy37:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy133;
-	case 'I':	goto yy134;
-	default:	goto yy49;
+		case 'A': goto yy105;
+		case 'I': goto yy106;
+		default: goto yy35;
 	}
-yy52:
+yy38:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy135;
-	case 'U':	goto yy136;
-	case 'u':	goto yy137;
-	default:	goto yy49;
+		case 'O': goto yy107;
+		case 'U': goto yy108;
+		case 'u': goto yy109;
+		default: goto yy35;
 	}
-yy53:
+yy39:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'B':	goto yy138;
-	case 'C':	goto yy139;
-	case 'F':	goto yy140;
-	case 'I':	goto yy142;
-	case 'P':	goto yy143;
-	case 'b':	goto yy144;
-	default:	goto yy49;
+		case 'B': goto yy110;
+		case 'C': goto yy111;
+		case 'F': goto yy112;
+		case 'I': goto yy114;
+		case 'P': goto yy115;
+		case 'b': goto yy116;
+		default: goto yy35;
 	}
-yy54:
+yy40:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy145;
-	case 'D':	goto yy146;
-	case 'L':	goto yy147;
-	case 'R':	goto yy148;
-	case 'r':	goto yy149;
-	default:	goto yy49;
+		case 'A': goto yy117;
+		case 'D': goto yy118;
+		case 'L': goto yy119;
+		case 'R': goto yy120;
+		case 'r': goto yy121;
+		default: goto yy35;
 	}
-yy55:
+yy41:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy150;
-	default:	goto yy49;
+		case 'E': goto yy122;
+		default: goto yy35;
 	}
-yy56:
+yy42:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy151;
-	case 'I':	goto yy152;
-	case 'T':	goto yy153;
-	case 'Y':	goto yy154;
-	default:	goto yy49;
+		case 'E': goto yy123;
+		case 'I': goto yy124;
+		case 'T': goto yy125;
+		case 'Y': goto yy126;
+		default: goto yy35;
 	}
-yy57:
+yy43:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '6':	goto yy155;
-	case 'A':	goto yy156;
-	case 'I':	goto yy157;
-	case 'R':	goto yy158;
-	case 'Y':	goto yy159;
-	case 'e':	goto yy160;
-	default:	goto yy49;
+		case '6': goto yy127;
+		case 'A': goto yy128;
+		case 'I': goto yy129;
+		case 'R': goto yy130;
+		case 'Y': goto yy131;
+		case 'e': goto yy132;
+		default: goto yy35;
 	}
-yy58:
+yy44:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy161;
-	case 'T':	goto yy162;
-	case 'n':	goto yy163;
-	default:	goto yy49;
+		case 'N': goto yy133;
+		case 'T': goto yy134;
+		case 'n': goto yy135;
+		default: goto yy35;
 	}
-yy59:
+yy45:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy164;
-	default:	goto yy49;
+		case 'i': goto yy136;
+		default: goto yy35;
 	}
-yy60:
+yy46:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy165;
-	default:	goto yy49;
+		case 'I': goto yy137;
+		default: goto yy35;
 	}
-yy61:
+yy47:
 	++context_.cursor;
-#line 11730 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OPEN_SQUARE_BRACKET (context_.location); }
-#line 12167 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy63:
+yy48:
 	++context_.cursor;
-#line 11731 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CLOSE_SQUARE_BRACKET (context_.location); }
-#line 12172 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy65:
+yy49:
 	++context_.cursor;
-#line 11740 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ACCENT (context_.location); }
-#line 12177 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy67:
+yy50:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy166;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy67;
-	default:	goto yy69;
+		case '-': goto yy138;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy50;
+		default: goto yy51;
 	}
-yy69:
-#line 11711 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy51:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GENERIC_IDENTIFIER_LOWERCASE(santize_name(std::string(start, context_.cursor)), context_.location); }
-#line 12251 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy70:
+yy52:
 	++context_.cursor;
-#line 11726 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OPEN_BRACE (context_.location); }
-#line 12256 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy72:
+yy53:
 	++context_.cursor;
-#line 11737 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_VERTICAL_LINE (context_.location); }
-#line 12261 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy74:
+yy54:
 	++context_.cursor;
-#line 11727 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CLOSE_BRACE (context_.location); }
-#line 12266 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy76:
+yy55:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '"':	goto yy13;
-	default:	goto yy77;
+		case '"': goto yy8;
+		default: goto yy56;
 	}
-yy77:
-#line 11705 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy56:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_cstring(std::string(start, context_.cursor), context_.location); }
-#line 12276 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy78:
+yy57:
 	++context_.cursor;
-	goto yy77;
-yy79:
+	goto yy56;
+yy58:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '"':	goto yy167;
-	case '\\':	goto yy79;
-	default:	goto yy13;
+		case '"': goto yy139;
+		case '\\': goto yy58;
+		default: goto yy8;
 	}
-yy81:
+yy59:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy169;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy81;
-	default:	goto yy83;
+		case '-': goto yy140;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy59;
+		default: goto yy60;
 	}
-yy83:
-#line 11712 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy60:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_typefieldreference(santize_name(std::string(start, context_.cursor)), context_.location); }
-#line 12360 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy84:
+yy61:
 	yyaccept = 5;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy170;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy84;
-	default:	goto yy86;
-	}
-yy86:
-#line 11713 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+		case '-': goto yy141;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy61;
+		default: goto yy62;
+	}
+yy62:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_valuefieldreference(santize_name(std::string(start, context_.cursor)), context_.location); }
-#line 12434 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy87:
+yy63:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case 'B':	goto yy171;
-	case 'H':	goto yy173;
-	default:	goto yy77;
+		case 'B': goto yy142;
+		case 'H': goto yy143;
+		default: goto yy56;
 	}
-yy88:
+yy64:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '"':	goto yy76;
-	case '\'':	goto yy175;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':	goto yy88;
-	case '\\':	goto yy79;
-	default:	goto yy13;
+		case '"': goto yy55;
+		case '\'': goto yy144;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f': goto yy64;
+		case '\\': goto yy58;
+		default: goto yy8;
 	}
-yy90:
+yy65:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '\n':
-	case '\r':	goto yy92;
-	case '-':	goto yy176;
-	default:	goto yy90;
+		case '\n':
+		case '\r': goto yy66;
+		case '-': goto yy145;
+		default: goto yy65;
 	}
-yy92:
-#line 11696 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy66:
 	{ context_.location.columns(context_.cursor - start); return yylex(context_); }
-#line 12483 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy93:
+yy67:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':	goto yy93;
-	default:	goto yy95;
-	}
-yy95:
-#line 11703 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9': goto yy67;
+		default: goto yy68;
+	}
+yy68:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_negativenumber(std::stoll(std::string(start, context_.cursor)), context_.location); }
-#line 12502 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy96:
+yy69:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '.':	goto yy177;
-	default:	goto yy97;
+		case '.': goto yy146;
+		default: goto yy70;
 	}
-yy97:
-#line 11725 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy70:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_RANGE (context_.location); }
-#line 12512 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy98:
+yy71:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '*':	goto yy179;
-	default:	goto yy98;
+		case '*': goto yy147;
+		default: goto yy71;
 	}
-yy100:
+yy72:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':	goto yy181;
-	default:	goto yy101;
-	}
-yy101:
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9': goto yy148;
+		default: goto yy73;
+	}
+yy73:
 	context_.cursor = YYMARKER;
 	switch (yyaccept) {
-	case 0:
-		goto yy31;
-	case 1:
-		goto yy33;
-	case 2:
-		goto yy41;
-	case 3:
-		goto yy69;
-	case 4:
-		goto yy83;
-	case 5:
-		goto yy86;
-	case 6:
-		goto yy114;
-	case 7:
-		goto yy141;
-	case 8:
-		goto yy188;
-	case 9:
-		goto yy190;
-	case 10:
-		goto yy195;
-	case 11:
-		goto yy209;
-	case 12:
-		goto yy226;
-	case 13:
-		goto yy228;
-	case 14:
-		goto yy239;
-	case 15:
-		goto yy248;
-	case 16:
-		goto yy283;
-	case 17:
-		goto yy296;
-	case 18:
-		goto yy310;
-	case 19:
-		goto yy323;
-	case 20:
-		goto yy328;
-	case 21:
-		goto yy333;
-	case 22:
-		goto yy335;
-	case 23:
-		goto yy337;
-	case 24:
-		goto yy349;
-	case 25:
-		goto yy355;
-	case 26:
-		goto yy361;
-	case 27:
-		goto yy378;
-	case 28:
-		goto yy396;
-	case 29:
-		goto yy415;
-	case 30:
-		goto yy424;
-	case 31:
-		goto yy432;
-	case 32:
-		goto yy445;
-	case 33:
-		goto yy467;
-	case 34:
-		goto yy480;
-	case 35:
-		goto yy482;
-	case 36:
-		goto yy488;
-	case 37:
-		goto yy500;
-	case 38:
-		goto yy507;
-	case 39:
-		goto yy512;
-	case 40:
-		goto yy517;
-	case 41:
-		goto yy526;
-	case 42:
-		goto yy528;
-	case 43:
-		goto yy533;
-	case 44:
-		goto yy540;
-	case 45:
-		goto yy544;
-	case 46:
-		goto yy547;
-	case 47:
-		goto yy549;
-	case 48:
-		goto yy560;
-	case 49:
-		goto yy576;
-	case 50:
-		goto yy578;
-	case 51:
-		goto yy582;
-	case 52:
-		goto yy585;
-	case 53:
-		goto yy592;
-	case 54:
-		goto yy594;
-	case 55:
-		goto yy596;
-	case 56:
-		goto yy604;
-	case 57:
-		goto yy610;
-	case 58:
-		goto yy612;
-	case 59:
-		goto yy625;
-	case 60:
-		goto yy627;
-	case 61:
-		goto yy629;
-	case 62:
-		goto yy631;
-	case 63:
-		goto yy635;
-	case 64:
-		goto yy644;
-	case 65:
-		goto yy657;
-	case 66:
-		goto yy662;
-	case 67:
-		goto yy670;
-	case 68:
-		goto yy673;
-	case 69:
-		goto yy677;
-	case 70:
-		goto yy683;
-	case 71:
-		goto yy698;
-	case 72:
-		goto yy704;
-	case 73:
-		goto yy706;
-	case 74:
-		goto yy708;
-	case 75:
-		goto yy725;
-	case 76:
-		goto yy738;
-	case 77:
-		goto yy740;
-	case 78:
-		goto yy742;
-	case 79:
-		goto yy745;
-	case 80:
-		goto yy751;
-	case 81:
-		goto yy760;
-	case 82:
-		goto yy762;
-	case 83:
-		goto yy765;
-	case 84:
-		goto yy768;
-	case 85:
-		goto yy771;
-	case 86:
-		goto yy776;
-	case 87:
-		goto yy780;
-	case 88:
-		goto yy785;
-	case 89:
-		goto yy792;
-	case 90:
-		goto yy794;
-	case 91:
-		goto yy797;
-	case 92:
-		goto yy800;
-	case 93:
-		goto yy803;
-	case 94:
-		goto yy805;
-	case 95:
-		goto yy807;
-	case 96:
-		goto yy809;
-	default:
-		goto yy811;
+		case 0: goto yy20;
+		case 1: goto yy22;
+		case 2: goto yy27;
+		case 3: goto yy51;
+		case 4: goto yy60;
+		case 5: goto yy62;
+		case 6: goto yy86;
+		case 7: goto yy113;
+		case 8: goto yy153;
+		case 9: goto yy155;
+		case 10: goto yy160;
+		case 11: goto yy174;
+		case 12: goto yy191;
+		case 13: goto yy193;
+		case 14: goto yy204;
+		case 15: goto yy213;
+		case 16: goto yy246;
+		case 17: goto yy259;
+		case 18: goto yy273;
+		case 19: goto yy286;
+		case 20: goto yy291;
+		case 21: goto yy296;
+		case 22: goto yy298;
+		case 23: goto yy300;
+		case 24: goto yy312;
+		case 25: goto yy318;
+		case 26: goto yy324;
+		case 27: goto yy341;
+		case 28: goto yy359;
+		case 29: goto yy378;
+		case 30: goto yy387;
+		case 31: goto yy395;
+		case 32: goto yy408;
+		case 33: goto yy430;
+		case 34: goto yy443;
+		case 35: goto yy445;
+		case 36: goto yy451;
+		case 37: goto yy463;
+		case 38: goto yy470;
+		case 39: goto yy475;
+		case 40: goto yy480;
+		case 41: goto yy489;
+		case 42: goto yy491;
+		case 43: goto yy496;
+		case 44: goto yy503;
+		case 45: goto yy507;
+		case 46: goto yy510;
+		case 47: goto yy512;
+		case 48: goto yy523;
+		case 49: goto yy539;
+		case 50: goto yy541;
+		case 51: goto yy545;
+		case 52: goto yy548;
+		case 53: goto yy555;
+		case 54: goto yy557;
+		case 55: goto yy559;
+		case 56: goto yy567;
+		case 57: goto yy573;
+		case 58: goto yy575;
+		case 59: goto yy588;
+		case 60: goto yy590;
+		case 61: goto yy592;
+		case 62: goto yy594;
+		case 63: goto yy598;
+		case 64: goto yy607;
+		case 65: goto yy620;
+		case 66: goto yy625;
+		case 67: goto yy633;
+		case 68: goto yy636;
+		case 69: goto yy640;
+		case 70: goto yy646;
+		case 71: goto yy661;
+		case 72: goto yy667;
+		case 73: goto yy669;
+		case 74: goto yy671;
+		case 75: goto yy688;
+		case 76: goto yy701;
+		case 77: goto yy703;
+		case 78: goto yy705;
+		case 79: goto yy708;
+		case 80: goto yy714;
+		case 81: goto yy723;
+		case 82: goto yy725;
+		case 83: goto yy728;
+		case 84: goto yy731;
+		case 85: goto yy734;
+		case 86: goto yy739;
+		case 87: goto yy743;
+		case 88: goto yy748;
+		case 89: goto yy755;
+		case 90: goto yy757;
+		case 91: goto yy760;
+		case 92: goto yy763;
+		case 93: goto yy766;
+		case 94: goto yy768;
+		case 95: goto yy770;
+		case 96: goto yy772;
+		default: goto yy774;
 	}
-yy102:
+yy74:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '=':	goto yy184;
-	default:	goto yy101;
+		case '=': goto yy150;
+		default: goto yy73;
 	}
-yy103:
+yy75:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy101;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy73;
 	}
-yy104:
+yy76:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy186;
-	default:	goto yy49;
+		case 'S': goto yy151;
+		default: goto yy35;
 	}
-yy105:
+yy77:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy187;
-	default:	goto yy49;
+		case 'L': goto yy152;
+		default: goto yy35;
 	}
-yy106:
+yy78:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'Y':	goto yy189;
-	default:	goto yy49;
+		case 'Y': goto yy154;
+		default: goto yy35;
 	}
-yy107:
+yy79:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'P':	goto yy191;
-	default:	goto yy49;
+		case 'P': goto yy156;
+		default: goto yy35;
 	}
-yy108:
+yy80:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy192;
-	default:	goto yy49;
+		case 'T': goto yy157;
+		default: goto yy35;
 	}
-yy109:
+yy81:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'G':	goto yy193;
-	default:	goto yy49;
+		case 'G': goto yy158;
+		default: goto yy35;
 	}
-yy110:
+yy82:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy194;
-	default:	goto yy49;
+		case 'T': goto yy159;
+		default: goto yy35;
 	}
-yy111:
+yy83:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'P':	goto yy196;
-	default:	goto yy49;
+		case 'P': goto yy161;
+		default: goto yy35;
 	}
-yy112:
+yy84:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy197;
-	default:	goto yy49;
+		case 'O': goto yy162;
+		default: goto yy35;
 	}
-yy113:
+yy85:
 	yyaccept = 6;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy114;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy86;
 	}
-yy114:
-#line 11609 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy86:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BY (context_.location); }
-#line 12944 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy115:
+yy87:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy198;
-	case 'O':	goto yy199;
-	default:	goto yy49;
+		case 'A': goto yy163;
+		case 'O': goto yy164;
+		default: goto yy35;
 	}
-yy116:
+yy88:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy200;
-	default:	goto yy49;
+		case 'A': goto yy165;
+		default: goto yy35;
 	}
-yy117:
+yy89:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'M':	goto yy201;
-	case 'N':	goto yy202;
-	default:	goto yy49;
+		case 'M': goto yy166;
+		case 'N': goto yy167;
+		default: goto yy35;
 	}
-yy118:
+yy90:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy203;
-	default:	goto yy49;
+		case 'T': goto yy168;
+		default: goto yy35;
 	}
-yy119:
+yy91:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'F':	goto yy204;
-	default:	goto yy49;
+		case 'F': goto yy169;
+		default: goto yy35;
 	}
-yy120:
+yy92:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy205;
-	default:	goto yy49;
+		case 'R': goto yy170;
+		default: goto yy35;
 	}
-yy121:
+yy93:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'B':	goto yy206;
-	default:	goto yy49;
+		case 'B': goto yy171;
+		default: goto yy35;
 	}
-yy122:
+yy94:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy207;
-	case 'D':	goto yy208;
-	case 'U':	goto yy210;
-	default:	goto yy49;
+		case 'C': goto yy172;
+		case 'D': goto yy173;
+		case 'U': goto yy175;
+		default: goto yy35;
 	}
-yy123:
+yy95:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy211;
-	case 'P':	goto yy212;
-	case 'T':	goto yy213;
-	default:	goto yy49;
+		case 'C': goto yy176;
+		case 'P': goto yy177;
+		case 'T': goto yy178;
+		default: goto yy35;
 	}
-yy124:
+yy96:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy214;
-	default:	goto yy49;
+		case 'L': goto yy179;
+		default: goto yy35;
 	}
-yy125:
+yy97:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy215;
-	default:	goto yy49;
+		case 'O': goto yy180;
+		default: goto yy35;
 	}
-yy126:
+yy98:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'n':	goto yy216;
-	default:	goto yy49;
+		case 'n': goto yy181;
+		default: goto yy35;
 	}
-yy127:
+yy99:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'a':	goto yy217;
-	default:	goto yy49;
+		case 'a': goto yy182;
+		default: goto yy35;
 	}
-yy128:
+yy100:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '5':	goto yy218;
-	default:	goto yy49;
+		case '5': goto yy183;
+		default: goto yy35;
 	}
-yy129:
+yy101:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy219;
-	default:	goto yy49;
+		case 'E': goto yy184;
+		default: goto yy35;
 	}
-yy130:
+yy102:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'P':	goto yy220;
-	default:	goto yy49;
+		case 'P': goto yy185;
+		default: goto yy35;
 	}
-yy131:
+yy103:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy221;
-	case 'S':	goto yy222;
-	case 'T':	goto yy223;
-	default:	goto yy49;
+		case 'C': goto yy186;
+		case 'S': goto yy187;
+		case 'T': goto yy188;
+		default: goto yy35;
 	}
-yy132:
+yy104:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy224;
-	default:	goto yy49;
+		case 'O': goto yy189;
+		default: goto yy35;
 	}
-yy133:
+yy105:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'X':	goto yy225;
-	default:	goto yy49;
+		case 'X': goto yy190;
+		default: goto yy35;
 	}
-yy134:
+yy106:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy227;
-	default:	goto yy49;
+		case 'N': goto yy192;
+		default: goto yy35;
 	}
-yy135:
+yy107:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy229;
-	default:	goto yy49;
+		case 'T': goto yy194;
+		default: goto yy35;
 	}
-yy136:
+yy108:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy230;
-	default:	goto yy49;
+		case 'L': goto yy195;
+		default: goto yy35;
 	}
-yy137:
+yy109:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'm':	goto yy231;
-	default:	goto yy49;
+		case 'm': goto yy196;
+		default: goto yy35;
 	}
-yy138:
+yy110:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'J':	goto yy232;
-	default:	goto yy49;
+		case 'J': goto yy197;
+		default: goto yy35;
 	}
-yy139:
+yy111:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy233;
-	default:	goto yy49;
+		case 'T': goto yy198;
+		default: goto yy35;
 	}
-yy140:
+yy112:
 	yyaccept = 7;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy141;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy113;
 	}
-yy141:
-#line 11657 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy113:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OF (context_.location); }
-#line 13201 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy142:
+yy114:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'D':	goto yy234;
-	default:	goto yy49;
+		case 'D': goto yy199;
+		default: goto yy35;
 	}
-yy143:
+yy115:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy235;
-	default:	goto yy49;
+		case 'T': goto yy200;
+		default: goto yy35;
 	}
-yy144:
+yy116:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'j':	goto yy236;
-	default:	goto yy49;
+		case 'j': goto yy201;
+		default: goto yy35;
 	}
-yy145:
+yy117:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy237;
-	default:	goto yy49;
+		case 'T': goto yy202;
+		default: goto yy35;
 	}
-yy146:
+yy118:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'V':	goto yy238;
-	default:	goto yy49;
+		case 'V': goto yy203;
+		default: goto yy35;
 	}
-yy147:
+yy119:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'U':	goto yy240;
-	default:	goto yy49;
+		case 'U': goto yy205;
+		default: goto yy35;
 	}
-yy148:
+yy120:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy241;
-	case 'I':	goto yy242;
-	default:	goto yy49;
+		case 'E': goto yy206;
+		case 'I': goto yy207;
+		default: goto yy35;
 	}
-yy149:
+yy121:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy243;
-	default:	goto yy49;
+		case 'i': goto yy208;
+		default: goto yy35;
 	}
-yy150:
+yy122:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy244;
-	case 'L':	goto yy245;
-	default:	goto yy49;
+		case 'A': goto yy209;
+		case 'L': goto yy210;
+		default: goto yy35;
 	}
-yy151:
+yy123:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'Q':	goto yy246;
-	case 'T':	goto yy247;
-	default:	goto yy49;
+		case 'Q': goto yy211;
+		case 'T': goto yy212;
+		default: goto yy35;
 	}
-yy152:
+yy124:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'Z':	goto yy249;
-	default:	goto yy49;
+		case 'Z': goto yy214;
+		default: goto yy35;
 	}
-yy153:
+yy125:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy250;
-	default:	goto yy49;
+		case 'R': goto yy215;
+		default: goto yy35;
 	}
-yy154:
+yy126:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy251;
-	default:	goto yy49;
+		case 'N': goto yy216;
+		default: goto yy35;
 	}
-yy155:
+yy127:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '1':	goto yy252;
-	default:	goto yy49;
+		case '1': goto yy217;
+		default: goto yy35;
 	}
-yy156:
+yy128:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'G':	goto yy253;
-	default:	goto yy49;
+		case 'G': goto yy218;
+		default: goto yy35;
 	}
-yy157:
+yy129:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'M':	goto yy254;
-	default:	goto yy49;
+		case 'M': goto yy219;
+		default: goto yy35;
 	}
-yy158:
+yy130:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'U':	goto yy255;
-	default:	goto yy49;
+		case 'U': goto yy220;
+		default: goto yy35;
 	}
-yy159:
+yy131:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'P':	goto yy256;
-	default:	goto yy49;
+		case 'P': goto yy221;
+		default: goto yy35;
 	}
-yy160:
+yy132:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'l':	goto yy257;
-	default:	goto yy49;
+		case 'l': goto yy222;
+		default: goto yy35;
 	}
-yy161:
+yy133:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy258;
-	default:	goto yy49;
+		case 'I': goto yy223;
+		default: goto yy35;
 	}
-yy162:
+yy134:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy259;
-	case 'F':	goto yy260;
-	default:	goto yy49;
+		case 'C': goto yy224;
+		case 'F': goto yy225;
+		default: goto yy35;
 	}
-yy163:
+yy135:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy261;
-	default:	goto yy49;
+		case 'i': goto yy226;
+		default: goto yy35;
 	}
-yy164:
+yy136:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'd':	goto yy262;
-	case 's':	goto yy263;
-	default:	goto yy49;
+		case 'd': goto yy227;
+		case 's': goto yy228;
+		default: goto yy35;
 	}
-yy165:
+yy137:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy264;
-	default:	goto yy49;
+		case 'T': goto yy229;
+		default: goto yy35;
 	}
-yy166:
+yy138:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy67;
-	default:	goto yy101;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy50;
+		default: goto yy73;
 	}
-yy167:
+yy139:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '"':	goto yy167;
-	case '\'':	goto yy78;
-	case '\\':	goto yy79;
-	default:	goto yy13;
+		case '"': goto yy139;
+		case '\'': goto yy57;
+		case '\\': goto yy58;
+		default: goto yy8;
 	}
-yy169:
+yy140:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy81;
-	default:	goto yy101;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy59;
+		default: goto yy73;
 	}
-yy170:
+yy141:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy84;
-	default:	goto yy101;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy61;
+		default: goto yy73;
 	}
-yy171:
+yy142:
 	++context_.cursor;
-#line 11707 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_bstring(std::string(start + 1, context_.cursor - 2), context_.location); }
-#line 13591 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy173:
+yy143:
 	++context_.cursor;
-#line 11709 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_hstring(std::string(start + 1, context_.cursor - 2), context_.location); }
-#line 13596 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy175:
+yy144:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case 'H':	goto yy173;
-	default:	goto yy77;
+		case 'H': goto yy143;
+		default: goto yy56;
 	}
-yy176:
+yy145:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '\n':
-	case '\r':	goto yy92;
-	case '-':	goto yy265;
-	default:	goto yy90;
+		case '\n':
+		case '\r': goto yy66;
+		case '-': goto yy230;
+		default: goto yy65;
 	}
-yy177:
+yy146:
 	++context_.cursor;
-#line 11724 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ELIPSIS (context_.location); }
-#line 13615 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy179:
+yy147:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '*':	goto yy179;
-	case '/':	goto yy267;
-	default:	goto yy98;
+		case '*': goto yy147;
+		case '/': goto yy231;
+		default: goto yy71;
 	}
-yy181:
+yy148:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':	goto yy181;
-	default:	goto yy183;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9': goto yy148;
+		default: goto yy149;
 	}
-yy183:
-#line 11701 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy149:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_realnumber(std::stod(std::string(start, context_.cursor)), context_.location); }
-#line 13641 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy184:
+yy150:
 	++context_.cursor;
-#line 11723 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DEFINED_AS (context_.location); }
-#line 13646 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy186:
+yy151:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy269;
-	case 'T':	goto yy270;
-	default:	goto yy49;
+		case 'E': goto yy232;
+		case 'T': goto yy233;
+		default: goto yy35;
 	}
-yy187:
+yy152:
 	yyaccept = 8;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy188;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy153;
 	}
-yy188:
-#line 11601 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy153:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ALL (context_.location); }
-#line 13728 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy189:
+yy154:
 	yyaccept = 9;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy190;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy155;
 	}
-yy190:
-#line 11602 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy155:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ANY (context_.location); }
-#line 13802 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy191:
+yy156:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy271;
-	default:	goto yy49;
+		case 'L': goto yy234;
+		default: goto yy35;
 	}
-yy192:
+yy157:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy272;
-	default:	goto yy49;
+		case 'O': goto yy235;
+		default: goto yy35;
 	}
-yy193:
+yy158:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy273;
-	default:	goto yy49;
+		case 'I': goto yy236;
+		default: goto yy35;
 	}
-yy194:
+yy159:
 	yyaccept = 10;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy195;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy160;
 	}
-yy195:
-#line 11606 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy160:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BIT (context_.location); }
-#line 13897 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy196:
+yy161:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy274;
-	default:	goto yy49;
+		case 'S': goto yy237;
+		default: goto yy35;
 	}
-yy197:
+yy162:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy275;
-	default:	goto yy49;
+		case 'L': goto yy238;
+		default: goto yy35;
 	}
-yy198:
+yy163:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy276;
-	default:	goto yy49;
+		case 'R': goto yy239;
+		default: goto yy35;
 	}
-yy199:
+yy164:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy277;
-	default:	goto yy49;
+		case 'I': goto yy240;
+		default: goto yy35;
 	}
-yy200:
+yy165:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy278;
-	default:	goto yy49;
+		case 'S': goto yy241;
+		default: goto yy35;
 	}
-yy201:
+yy166:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'P':	goto yy279;
-	default:	goto yy49;
+		case 'P': goto yy242;
+		default: goto yy35;
 	}
-yy202:
+yy167:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy280;
-	case 'T':	goto yy281;
-	default:	goto yy49;
+		case 'S': goto yy243;
+		case 'T': goto yy244;
+		default: goto yy35;
 	}
-yy203:
+yy168:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy282;
-	default:	goto yy49;
+		case 'E': goto yy245;
+		default: goto yy35;
 	}
-yy204:
+yy169:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy284;
-	case 'I':	goto yy285;
-	default:	goto yy49;
+		case 'A': goto yy247;
+		case 'I': goto yy248;
+		default: goto yy35;
 	}
-yy205:
+yy170:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy286;
-	default:	goto yy49;
+		case 'A': goto yy249;
+		default: goto yy35;
 	}
-yy206:
+yy171:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy287;
-	default:	goto yy49;
+		case 'E': goto yy250;
+		default: goto yy35;
 	}
-yy207:
+yy172:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy288;
-	default:	goto yy49;
+		case 'O': goto yy251;
+		default: goto yy35;
 	}
-yy208:
+yy173:
 	yyaccept = 11;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy209;
-	}
-yy209:
-#line 11625 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy174;
+	}
+yy174:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_END (context_.location); }
-#line 14057 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy210:
+yy175:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'M':	goto yy289;
-	default:	goto yy49;
+		case 'M': goto yy252;
+		default: goto yy35;
 	}
-yy211:
+yy176:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy290;
-	default:	goto yy49;
+		case 'E': goto yy253;
+		default: goto yy35;
 	}
-yy212:
+yy177:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy291;
-	case 'O':	goto yy292;
-	default:	goto yy49;
+		case 'L': goto yy254;
+		case 'O': goto yy255;
+		default: goto yy35;
 	}
-yy213:
+yy178:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy293;
-	default:	goto yy49;
+		case 'E': goto yy256;
+		default: goto yy35;
 	}
-yy214:
+yy179:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy294;
-	default:	goto yy49;
+		case 'S': goto yy257;
+		default: goto yy35;
 	}
-yy215:
+yy180:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'M':	goto yy295;
-	default:	goto yy49;
+		case 'M': goto yy258;
+		default: goto yy35;
 	}
-yy216:
+yy181:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'e':	goto yy297;
-	default:	goto yy49;
+		case 'e': goto yy260;
+		default: goto yy35;
 	}
-yy217:
+yy182:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'p':	goto yy298;
-	default:	goto yy49;
+		case 'p': goto yy261;
+		default: goto yy35;
 	}
-yy218:
+yy183:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy299;
-	default:	goto yy49;
+		case 'S': goto yy262;
+		default: goto yy35;
 	}
-yy219:
+yy184:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy300;
-	default:	goto yy49;
+		case 'N': goto yy263;
+		default: goto yy35;
 	}
-yy220:
+yy185:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy301;
-	case 'O':	goto yy302;
-	default:	goto yy49;
+		case 'L': goto yy264;
+		case 'O': goto yy265;
+		default: goto yy35;
 	}
-yy221:
+yy186:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy303;
-	default:	goto yy49;
+		case 'L': goto yy266;
+		default: goto yy35;
 	}
-yy222:
+yy187:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy304;
-	default:	goto yy49;
+		case 'T': goto yy267;
+		default: goto yy35;
 	}
-yy223:
+yy188:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy305;
-	default:	goto yy49;
+		case 'E': goto yy268;
+		default: goto yy35;
 	}
-yy224:
+yy189:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '6':	goto yy306;
-	default:	goto yy49;
+		case '6': goto yy269;
+		default: goto yy35;
 	}
-yy225:
+yy190:
 	yyaccept = 12;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy226;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy191;
 	}
-yy226:
-#line 11648 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy191:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_MAX (context_.location); }
-#line 14238 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy227:
+yy192:
 	yyaccept = 13;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	case 'U':	goto yy307;
-	default:	goto yy228;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		case 'U': goto yy270;
+		default: goto yy193;
 	}
-yy228:
-#line 11649 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy193:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_MIN (context_.location); }
-#line 14312 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy229:
+yy194:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy308;
-	default:	goto yy49;
+		case '-': goto yy271;
+		default: goto yy35;
 	}
-yy230:
+yy195:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy309;
-	default:	goto yy49;
+		case 'L': goto yy272;
+		default: goto yy35;
 	}
-yy231:
+yy196:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'e':	goto yy311;
-	default:	goto yy49;
+		case 'e': goto yy274;
+		default: goto yy35;
 	}
-yy232:
+yy197:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy312;
-	default:	goto yy49;
+		case 'E': goto yy275;
+		default: goto yy35;
 	}
-yy233:
+yy198:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy313;
-	default:	goto yy49;
+		case 'E': goto yy276;
+		default: goto yy35;
 	}
-yy234:
+yy199:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '_':	goto yy314;
-	default:	goto yy49;
+		case '_': goto yy277;
+		default: goto yy35;
 	}
-yy235:
+yy200:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy315;
-	default:	goto yy49;
+		case 'I': goto yy278;
+		default: goto yy35;
 	}
-yy236:
+yy201:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'e':	goto yy316;
-	default:	goto yy49;
+		case 'e': goto yy279;
+		default: goto yy35;
 	}
-yy237:
+yy202:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy317;
-	default:	goto yy49;
+		case 'T': goto yy280;
+		default: goto yy35;
 	}
-yy238:
+yy203:
 	yyaccept = 14;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy239;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy204;
 	}
-yy239:
-#line 11661 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy204:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PDV (context_.location); }
-#line 14449 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy240:
+yy205:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy318;
-	default:	goto yy49;
+		case 'S': goto yy281;
+		default: goto yy35;
 	}
-yy241:
+yy206:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy319;
-	default:	goto yy49;
+		case 'S': goto yy282;
+		default: goto yy35;
 	}
-yy242:
+yy207:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'V':	goto yy320;
-	default:	goto yy49;
+		case 'V': goto yy283;
+		default: goto yy35;
 	}
-yy243:
+yy208:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'n':	goto yy321;
-	default:	goto yy49;
+		case 'n': goto yy284;
+		default: goto yy35;
 	}
-yy244:
+yy209:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy322;
-	default:	goto yy49;
+		case 'L': goto yy285;
+		default: goto yy35;
 	}
-yy245:
+yy210:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy324;
-	default:	goto yy49;
+		case 'A': goto yy287;
+		default: goto yy35;
 	}
-yy246:
+yy211:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'U':	goto yy325;
-	default:	goto yy49;
+		case 'U': goto yy288;
+		default: goto yy35;
 	}
-yy247:
+yy212:
 	yyaccept = 15;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	case 'T':	goto yy326;
-	default:	goto yy248;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		case 'T': goto yy289;
+		default: goto yy213;
 	}
-yy248:
-#line 11670 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy213:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SET (context_.location); }
-#line 14572 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy249:
+yy214:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy327;
-	default:	goto yy49;
+		case 'E': goto yy290;
+		default: goto yy35;
 	}
-yy250:
+yy215:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy329;
-	default:	goto yy49;
+		case 'I': goto yy292;
+		default: goto yy35;
 	}
-yy251:
+yy216:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy330;
-	default:	goto yy49;
+		case 'T': goto yy293;
+		default: goto yy35;
 	}
-yy252:
+yy217:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy331;
-	default:	goto yy49;
+		case 'S': goto yy294;
+		default: goto yy35;
 	}
-yy253:
+yy218:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy332;
-	default:	goto yy49;
+		case 'S': goto yy295;
+		default: goto yy35;
 	}
-yy254:
+yy219:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy334;
-	default:	goto yy49;
+		case 'E': goto yy297;
+		default: goto yy35;
 	}
-yy255:
+yy220:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy336;
-	default:	goto yy49;
+		case 'E': goto yy299;
+		default: goto yy35;
 	}
-yy256:
+yy221:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy338;
-	default:	goto yy49;
+		case 'E': goto yy301;
+		default: goto yy35;
 	}
-yy257:
+yy222:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'e':	goto yy339;
-	default:	goto yy49;
+		case 'e': goto yy302;
+		default: goto yy35;
 	}
-yy258:
+yy223:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy340;
-	case 'Q':	goto yy341;
-	case 'V':	goto yy342;
-	default:	goto yy49;
+		case 'O': goto yy303;
+		case 'Q': goto yy304;
+		case 'V': goto yy305;
+		default: goto yy35;
 	}
-yy259:
+yy224:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy343;
-	default:	goto yy49;
+		case 'T': goto yy306;
+		default: goto yy35;
 	}
-yy260:
+yy225:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '8':	goto yy344;
-	default:	goto yy49;
+		case '8': goto yy307;
+		default: goto yy35;
 	}
-yy261:
+yy226:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'v':	goto yy345;
-	default:	goto yy49;
+		case 'v': goto yy308;
+		default: goto yy35;
 	}
-yy262:
+yy227:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'e':	goto yy346;
-	default:	goto yy49;
+		case 'e': goto yy309;
+		default: goto yy35;
 	}
-yy263:
+yy228:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy347;
-	default:	goto yy49;
+		case 'i': goto yy310;
+		default: goto yy35;
 	}
-yy264:
+yy229:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'H':	goto yy348;
-	default:	goto yy49;
+		case 'H': goto yy311;
+		default: goto yy35;
 	}
-yy265:
+yy230:
 	++context_.cursor;
-#line 11694 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
 	{ context_.location.columns(context_.cursor - start); return yylex(context_); }
-#line 14691 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy267:
+yy231:
 	++context_.cursor;
-#line 11698 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
 	{ for (char c: std::string(start, context_.cursor)) { context_.location.columns(); if (c == '\n') context_.location.lines(); } return yylex(context_); }
-#line 14696 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy269:
+yy232:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy350;
-	default:	goto yy49;
+		case 'N': goto yy313;
+		default: goto yy35;
 	}
-yy270:
+yy233:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy351;
-	default:	goto yy49;
+		case 'R': goto yy314;
+		default: goto yy35;
 	}
-yy271:
+yy234:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy352;
-	default:	goto yy49;
+		case 'I': goto yy315;
+		default: goto yy35;
 	}
-yy272:
+yy235:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'M':	goto yy353;
-	default:	goto yy49;
+		case 'M': goto yy316;
+		default: goto yy35;
 	}
-yy273:
+yy236:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy354;
-	default:	goto yy49;
+		case 'N': goto yy317;
+		default: goto yy35;
 	}
-yy274:
+yy237:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy356;
-	default:	goto yy49;
+		case 't': goto yy319;
+		default: goto yy35;
 	}
-yy275:
+yy238:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy357;
-	default:	goto yy49;
+		case 'E': goto yy320;
+		default: goto yy35;
 	}
-yy276:
+yy239:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy358;
-	default:	goto yy49;
+		case 'A': goto yy321;
+		default: goto yy35;
 	}
-yy277:
+yy240:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy359;
-	default:	goto yy49;
+		case 'C': goto yy322;
+		default: goto yy35;
 	}
-yy278:
+yy241:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy360;
-	default:	goto yy49;
+		case 'S': goto yy323;
+		default: goto yy35;
 	}
-yy279:
+yy242:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy362;
-	default:	goto yy49;
+		case 'O': goto yy325;
+		default: goto yy35;
 	}
-yy280:
+yy243:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy363;
-	default:	goto yy49;
+		case 'T': goto yy326;
+		default: goto yy35;
 	}
-yy281:
+yy244:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy364;
-	default:	goto yy49;
+		case 'A': goto yy327;
+		default: goto yy35;
 	}
-yy282:
+yy245:
 	yyaccept = 16;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy365;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy283;
+		case '-': goto yy328;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy246;
 	}
-yy283:
-#line 11617 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy246:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DATE (context_.location); }
-#line 14861 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy284:
+yy247:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'U':	goto yy366;
-	default:	goto yy49;
+		case 'U': goto yy329;
+		default: goto yy35;
 	}
-yy285:
+yy248:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy367;
-	default:	goto yy49;
+		case 'N': goto yy330;
+		default: goto yy35;
 	}
-yy286:
+yy249:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy368;
-	default:	goto yy49;
+		case 'T': goto yy331;
+		default: goto yy35;
 	}
-yy287:
+yy250:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'D':	goto yy369;
-	default:	goto yy49;
+		case 'D': goto yy332;
+		default: goto yy35;
 	}
-yy288:
+yy251:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'D':	goto yy370;
-	default:	goto yy49;
+		case 'D': goto yy333;
+		default: goto yy35;
 	}
-yy289:
+yy252:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy371;
-	default:	goto yy49;
+		case 'E': goto yy334;
+		default: goto yy35;
 	}
-yy290:
+yy253:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'P':	goto yy372;
-	default:	goto yy49;
+		case 'P': goto yy335;
+		default: goto yy35;
 	}
-yy291:
+yy254:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy373;
-	default:	goto yy49;
+		case 'I': goto yy336;
+		default: goto yy35;
 	}
-yy292:
+yy255:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy374;
-	default:	goto yy49;
+		case 'R': goto yy337;
+		default: goto yy35;
 	}
-yy293:
+yy256:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy375;
-	case 'R':	goto yy376;
-	default:	goto yy49;
+		case 'N': goto yy338;
+		case 'R': goto yy339;
+		default: goto yy35;
 	}
-yy294:
+yy257:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy377;
-	default:	goto yy49;
+		case 'E': goto yy340;
+		default: goto yy35;
 	}
-yy295:
+yy258:
 	yyaccept = 17;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy296;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy259;
 	}
-yy296:
-#line 11633 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy259:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_FROM (context_.location); }
-#line 15013 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy297:
+yy260:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy379;
-	default:	goto yy49;
+		case 'r': goto yy342;
+		default: goto yy35;
 	}
-yy298:
+yy261:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'h':	goto yy380;
-	default:	goto yy49;
+		case 'h': goto yy343;
+		default: goto yy35;
 	}
-yy299:
+yy262:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy381;
-	default:	goto yy49;
+		case 't': goto yy344;
+		default: goto yy35;
 	}
-yy300:
+yy263:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy382;
-	default:	goto yy49;
+		case 'T': goto yy345;
+		default: goto yy35;
 	}
-yy301:
+yy264:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy383;
-	default:	goto yy49;
+		case 'I': goto yy346;
+		default: goto yy35;
 	}
-yy302:
+yy265:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy384;
-	default:	goto yy49;
+		case 'R': goto yy347;
+		default: goto yy35;
 	}
-yy303:
+yy266:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'U':	goto yy385;
-	default:	goto yy49;
+		case 'U': goto yy348;
+		default: goto yy35;
 	}
-yy304:
+yy267:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy386;
-	case 'R':	goto yy387;
-	default:	goto yy49;
+		case 'A': goto yy349;
+		case 'R': goto yy350;
+		default: goto yy35;
 	}
-yy305:
+yy268:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'G':	goto yy388;
-	case 'R':	goto yy389;
-	default:	goto yy49;
+		case 'G': goto yy351;
+		case 'R': goto yy352;
+		default: goto yy35;
 	}
-yy306:
+yy269:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '4':	goto yy390;
-	default:	goto yy49;
+		case '4': goto yy353;
+		default: goto yy35;
 	}
-yy307:
+yy270:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy391;
-	default:	goto yy49;
+		case 'S': goto yy354;
+		default: goto yy35;
 	}
-yy308:
+yy271:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	case 'A':	goto yy392;
-	default:	goto yy101;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		case 'A': goto yy355;
+		default: goto yy73;
 	}
-yy309:
+yy272:
 	yyaccept = 18;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy310;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy273;
 	}
-yy310:
-#line 11652 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy273:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ASN_NULL (context_.location); }
-#line 15234 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy311:
+yy274:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy393;
-	default:	goto yy49;
+		case 'r': goto yy356;
+		default: goto yy35;
 	}
-yy312:
+yy275:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy394;
-	default:	goto yy49;
+		case 'C': goto yy357;
+		default: goto yy35;
 	}
-yy313:
+yy276:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy395;
-	default:	goto yy49;
+		case 'T': goto yy358;
+		default: goto yy35;
 	}
-yy314:
+yy277:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy397;
-	default:	goto yy49;
+		case 'I': goto yy360;
+		default: goto yy35;
 	}
-yy315:
+yy278:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy398;
-	default:	goto yy49;
+		case 'O': goto yy361;
+		default: goto yy35;
 	}
-yy316:
+yy279:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'c':	goto yy399;
-	default:	goto yy49;
+		case 'c': goto yy362;
+		default: goto yy35;
 	}
-yy317:
+yy280:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy400;
-	default:	goto yy49;
+		case 'E': goto yy363;
+		default: goto yy35;
 	}
-yy318:
+yy281:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '_':	goto yy401;
-	default:	goto yy49;
+		case '_': goto yy364;
+		default: goto yy35;
 	}
-yy319:
+yy282:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy402;
-	default:	goto yy49;
+		case 'E': goto yy365;
+		default: goto yy35;
 	}
-yy320:
+yy283:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy403;
-	default:	goto yy49;
+		case 'A': goto yy366;
+		default: goto yy35;
 	}
-yy321:
+yy284:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy404;
-	default:	goto yy49;
+		case 't': goto yy367;
+		default: goto yy35;
 	}
-yy322:
+yy285:
 	yyaccept = 19;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy323;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy286;
 	}
-yy323:
-#line 11666 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy286:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_REAL (context_.location); }
-#line 15385 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy324:
+yy287:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy405;
-	default:	goto yy49;
+		case 'T': goto yy368;
+		default: goto yy35;
 	}
-yy325:
+yy288:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy406;
-	default:	goto yy49;
+		case 'E': goto yy369;
+		default: goto yy35;
 	}
-yy326:
+yy289:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy407;
-	default:	goto yy49;
+		case 'I': goto yy370;
+		default: goto yy35;
 	}
-yy327:
+yy290:
 	yyaccept = 20;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy328;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy291;
 	}
-yy328:
-#line 11672 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy291:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SIZE (context_.location); }
-#line 15480 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy329:
+yy292:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy408;
-	default:	goto yy49;
+		case 'N': goto yy371;
+		default: goto yy35;
 	}
-yy330:
+yy293:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy409;
-	default:	goto yy49;
+		case 'A': goto yy372;
+		default: goto yy35;
 	}
-yy331:
+yy294:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy410;
-	default:	goto yy49;
+		case 't': goto yy373;
+		default: goto yy35;
 	}
-yy332:
+yy295:
 	yyaccept = 21;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy333;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy296;
 	}
-yy333:
-#line 11676 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy296:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TAGS (context_.location); }
-#line 15575 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy334:
+yy297:
 	yyaccept = 22;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy411;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy335;
+		case '-': goto yy374;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy298;
 	}
-yy335:
-#line 11678 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy298:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TIME (context_.location); }
-#line 15649 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy336:
+yy299:
 	yyaccept = 23;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy337;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy300;
 	}
-yy337:
-#line 11680 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy300:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TRUE (context_.location); }
-#line 15723 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy338:
+yy301:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy412;
-	default:	goto yy49;
+		case '-': goto yy375;
+		default: goto yy35;
 	}
-yy339:
+yy302:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy413;
-	default:	goto yy49;
+		case 't': goto yy376;
+		default: goto yy35;
 	}
-yy340:
+yy303:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy414;
-	default:	goto yy49;
+		case 'N': goto yy377;
+		default: goto yy35;
 	}
-yy341:
+yy304:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'U':	goto yy416;
-	default:	goto yy49;
+		case 'U': goto yy379;
+		default: goto yy35;
 	}
-yy342:
+yy305:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy417;
-	default:	goto yy49;
+		case 'E': goto yy380;
+		default: goto yy35;
 	}
-yy343:
+yy306:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy418;
-	default:	goto yy49;
+		case 'i': goto yy381;
+		default: goto yy35;
 	}
-yy344:
+yy307:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy419;
-	default:	goto yy49;
+		case 'S': goto yy382;
+		default: goto yy35;
 	}
-yy345:
+yy308:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'e':	goto yy420;
-	default:	goto yy49;
+		case 'e': goto yy383;
+		default: goto yy35;
 	}
-yy346:
+yy309:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'o':	goto yy421;
-	default:	goto yy49;
+		case 'o': goto yy384;
+		default: goto yy35;
 	}
-yy347:
+yy310:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'b':	goto yy422;
-	default:	goto yy49;
+		case 'b': goto yy385;
+		default: goto yy35;
 	}
-yy348:
+yy311:
 	yyaccept = 24;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy349;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy312;
 	}
-yy349:
-#line 11690 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy312:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_WITH (context_.location); }
-#line 15867 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy350:
+yy313:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy423;
-	default:	goto yy49;
+		case 'T': goto yy386;
+		default: goto yy35;
 	}
-yy351:
+yy314:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy425;
-	default:	goto yy49;
+		case 'A': goto yy388;
+		default: goto yy35;
 	}
-yy352:
+yy315:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy426;
-	default:	goto yy49;
+		case 'C': goto yy389;
+		default: goto yy35;
 	}
-yy353:
+yy316:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy427;
-	default:	goto yy49;
+		case 'A': goto yy390;
+		default: goto yy35;
 	}
-yy354:
+yy317:
 	yyaccept = 25;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy355;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy318;
 	}
-yy355:
-#line 11605 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy318:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BEGIN (context_.location); }
-#line 15969 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy356:
+yy319:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy428;
-	default:	goto yy49;
+		case 'r': goto yy391;
+		default: goto yy35;
 	}
-yy357:
+yy320:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy429;
-	default:	goto yy49;
+		case 'A': goto yy392;
+		default: goto yy35;
 	}
-yy358:
+yy321:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy430;
-	default:	goto yy49;
+		case 'C': goto yy393;
+		default: goto yy35;
 	}
-yy359:
+yy322:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy431;
-	default:	goto yy49;
+		case 'E': goto yy394;
+		default: goto yy35;
 	}
-yy360:
+yy323:
 	yyaccept = 26;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy361;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy324;
 	}
-yy361:
-#line 11612 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy324:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CLASS (context_.location); }
-#line 16071 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy362:
+yy325:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy433;
-	default:	goto yy49;
+		case 'N': goto yy396;
+		default: goto yy35;
 	}
-yy363:
+yy326:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy434;
-	default:	goto yy49;
+		case 'R': goto yy397;
+		default: goto yy35;
 	}
-yy364:
+yy327:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy435;
-	default:	goto yy49;
+		case 'I': goto yy398;
+		default: goto yy35;
 	}
-yy365:
+yy328:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	case 'T':	goto yy436;
-	default:	goto yy101;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		case 'T': goto yy399;
+		default: goto yy73;
 	}
-yy366:
+yy329:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy437;
-	default:	goto yy49;
+		case 'L': goto yy400;
+		default: goto yy35;
 	}
-yy367:
+yy330:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy438;
-	default:	goto yy49;
+		case 'I': goto yy401;
+		default: goto yy35;
 	}
-yy368:
+yy331:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy439;
-	default:	goto yy49;
+		case 'I': goto yy402;
+		default: goto yy35;
 	}
-yy369:
+yy332:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'D':	goto yy440;
-	default:	goto yy49;
+		case 'D': goto yy403;
+		default: goto yy35;
 	}
-yy370:
+yy333:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy441;
-	case 'I':	goto yy442;
-	default:	goto yy49;
+		case 'E': goto yy404;
+		case 'I': goto yy405;
+		default: goto yy35;
 	}
-yy371:
+yy334:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy443;
-	default:	goto yy49;
+		case 'R': goto yy406;
+		default: goto yy35;
 	}
-yy372:
+yy335:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy444;
-	default:	goto yy49;
+		case 'T': goto yy407;
+		default: goto yy35;
 	}
-yy373:
+yy336:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy446;
-	default:	goto yy49;
+		case 'C': goto yy409;
+		default: goto yy35;
 	}
-yy374:
+yy337:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy447;
-	default:	goto yy49;
+		case 'T': goto yy410;
+		default: goto yy35;
 	}
-yy375:
+yy338:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy448;
-	default:	goto yy49;
+		case 'S': goto yy411;
+		default: goto yy35;
 	}
-yy376:
+yy339:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy449;
-	default:	goto yy49;
+		case 'N': goto yy412;
+		default: goto yy35;
 	}
-yy377:
+yy340:
 	yyaccept = 27;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy378;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy341;
 	}
-yy378:
-#line 11632 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy341:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_FALSE (context_.location); }
-#line 16312 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy379:
+yy342:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'a':	goto yy450;
-	default:	goto yy49;
+		case 'a': goto yy413;
+		default: goto yy35;
 	}
-yy380:
+yy343:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy451;
-	default:	goto yy49;
+		case 'i': goto yy414;
+		default: goto yy35;
 	}
-yy381:
+yy344:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy452;
-	default:	goto yy49;
+		case 'r': goto yy415;
+		default: goto yy35;
 	}
-yy382:
+yy345:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy453;
-	default:	goto yy49;
+		case 'I': goto yy416;
+		default: goto yy35;
 	}
-yy383:
+yy346:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy454;
-	case 'E':	goto yy455;
-	default:	goto yy49;
+		case 'C': goto yy417;
+		case 'E': goto yy418;
+		default: goto yy35;
 	}
-yy384:
+yy347:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy456;
-	default:	goto yy49;
+		case 'T': goto yy419;
+		default: goto yy35;
 	}
-yy385:
+yy348:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'D':	goto yy457;
-	default:	goto yy49;
+		case 'D': goto yy420;
+		default: goto yy35;
 	}
-yy386:
+yy349:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy458;
-	default:	goto yy49;
+		case 'N': goto yy421;
+		default: goto yy35;
 	}
-yy387:
+yy350:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'U':	goto yy459;
-	default:	goto yy49;
+		case 'U': goto yy422;
+		default: goto yy35;
 	}
-yy388:
+yy351:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy460;
-	default:	goto yy49;
+		case 'E': goto yy423;
+		default: goto yy35;
 	}
-yy389:
+yy352:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy461;
-	default:	goto yy49;
+		case 'S': goto yy424;
+		default: goto yy35;
 	}
-yy390:
+yy353:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '6':	goto yy462;
-	default:	goto yy49;
+		case '6': goto yy425;
+		default: goto yy35;
 	}
-yy391:
+yy354:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy463;
-	default:	goto yy49;
+		case '-': goto yy426;
+		default: goto yy35;
 	}
-yy392:
+yy355:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy464;
-	default:	goto yy49;
+		case '-': goto yy427;
+		default: goto yy35;
 	}
-yy393:
+yy356:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy465;
-	default:	goto yy49;
+		case 'i': goto yy428;
+		default: goto yy35;
 	}
-yy394:
+yy357:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy466;
-	default:	goto yy49;
+		case 'T': goto yy429;
+		default: goto yy35;
 	}
-yy395:
+yy358:
 	yyaccept = 28;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy396;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy359;
 	}
-yy396:
-#line 11656 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy359:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OCTET (context_.location); }
-#line 16499 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy397:
+yy360:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy468;
-	default:	goto yy49;
+		case 'R': goto yy431;
+		default: goto yy35;
 	}
-yy398:
+yy361:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy469;
-	default:	goto yy49;
+		case 'N': goto yy432;
+		default: goto yy35;
 	}
-yy399:
+yy362:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy470;
-	default:	goto yy49;
+		case 't': goto yy433;
+		default: goto yy35;
 	}
-yy400:
+yy363:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy471;
-	default:	goto yy49;
+		case 'R': goto yy434;
+		default: goto yy35;
 	}
-yy401:
+yy364:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy472;
-	default:	goto yy49;
+		case 'I': goto yy435;
+		default: goto yy35;
 	}
-yy402:
+yy365:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy473;
-	default:	goto yy49;
+		case 'N': goto yy436;
+		default: goto yy35;
 	}
-yy403:
+yy366:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy474;
-	default:	goto yy49;
+		case 'T': goto yy437;
+		default: goto yy35;
 	}
-yy404:
+yy367:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'a':	goto yy475;
-	default:	goto yy49;
+		case 'a': goto yy438;
+		default: goto yy35;
 	}
-yy405:
+yy368:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy476;
-	default:	goto yy49;
+		case 'I': goto yy439;
+		default: goto yy35;
 	}
-yy406:
+yy369:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy477;
-	default:	goto yy49;
+		case 'N': goto yy440;
+		default: goto yy35;
 	}
-yy407:
+yy370:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy478;
-	default:	goto yy49;
+		case 'N': goto yy441;
+		default: goto yy35;
 	}
-yy408:
+yy371:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'G':	goto yy479;
-	default:	goto yy49;
+		case 'G': goto yy442;
+		default: goto yy35;
 	}
-yy409:
+yy372:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'X':	goto yy481;
-	default:	goto yy49;
+		case 'X': goto yy444;
+		default: goto yy35;
 	}
-yy410:
+yy373:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy483;
-	default:	goto yy49;
+		case 'r': goto yy446;
+		default: goto yy35;
 	}
-yy411:
+yy374:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	case 'O':	goto yy484;
-	default:	goto yy101;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		case 'O': goto yy447;
+		default: goto yy73;
 	}
-yy412:
+yy375:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	case 'I':	goto yy485;
-	default:	goto yy101;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		case 'I': goto yy448;
+		default: goto yy73;
 	}
-yy413:
+yy376:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'e':	goto yy486;
-	default:	goto yy49;
+		case 'e': goto yy449;
+		default: goto yy35;
 	}
-yy414:
+yy377:
 	yyaccept = 29;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy415;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy378;
 	}
-yy415:
-#line 11682 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy378:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UNION (context_.location); }
-#line 16814 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy416:
+yy379:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy487;
-	default:	goto yy49;
+		case 'E': goto yy450;
+		default: goto yy35;
 	}
-yy417:
+yy380:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy489;
-	default:	goto yy49;
+		case 'R': goto yy452;
+		default: goto yy35;
 	}
-yy418:
+yy381:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'm':	goto yy490;
-	default:	goto yy49;
+		case 'm': goto yy453;
+		default: goto yy35;
 	}
-yy419:
+yy382:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy491;
-	default:	goto yy49;
+		case 't': goto yy454;
+		default: goto yy35;
 	}
-yy420:
+yy383:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy492;
-	default:	goto yy49;
+		case 'r': goto yy455;
+		default: goto yy35;
 	}
-yy421:
+yy384:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy493;
-	default:	goto yy49;
+		case 't': goto yy456;
+		default: goto yy35;
 	}
-yy422:
+yy385:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'l':	goto yy494;
-	default:	goto yy49;
+		case 'l': goto yy457;
+		default: goto yy35;
 	}
-yy423:
+yy386:
 	yyaccept = 30;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy424;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy387;
 	}
-yy424:
-#line 11599 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy387:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ABSENT (context_.location); }
-#line 16937 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy425:
+yy388:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy495;
-	default:	goto yy49;
+		case 'C': goto yy458;
+		default: goto yy35;
 	}
-yy426:
+yy389:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy496;
-	default:	goto yy49;
+		case 'A': goto yy459;
+		default: goto yy35;
 	}
-yy427:
+yy390:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy497;
-	default:	goto yy49;
+		case 'T': goto yy460;
+		default: goto yy35;
 	}
-yy428:
+yy391:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy498;
-	default:	goto yy49;
+		case 'i': goto yy461;
+		default: goto yy35;
 	}
-yy429:
+yy392:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy499;
-	default:	goto yy49;
+		case 'N': goto yy462;
+		default: goto yy35;
 	}
-yy430:
+yy393:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy501;
-	default:	goto yy49;
+		case 'T': goto yy464;
+		default: goto yy35;
 	}
-yy431:
+yy394:
 	yyaccept = 31;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy432;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy395;
 	}
-yy432:
-#line 11611 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy395:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CHOICE (context_.location); }
-#line 17053 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy433:
+yy396:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy502;
-	default:	goto yy49;
+		case 'E': goto yy465;
+		default: goto yy35;
 	}
-yy434:
+yy397:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy503;
-	default:	goto yy49;
+		case 'A': goto yy466;
+		default: goto yy35;
 	}
-yy435:
+yy398:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy504;
-	default:	goto yy49;
+		case 'N': goto yy467;
+		default: goto yy35;
 	}
-yy436:
+yy399:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy505;
-	default:	goto yy49;
+		case 'I': goto yy468;
+		default: goto yy35;
 	}
-yy437:
+yy400:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy506;
-	default:	goto yy49;
+		case 'T': goto yy469;
+		default: goto yy35;
 	}
-yy438:
+yy401:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy508;
-	default:	goto yy49;
+		case 'T': goto yy471;
+		default: goto yy35;
 	}
-yy439:
+yy402:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy509;
-	default:	goto yy49;
+		case 'O': goto yy472;
+		default: goto yy35;
 	}
-yy440:
+yy403:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy510;
-	default:	goto yy49;
+		case 'E': goto yy473;
+		default: goto yy35;
 	}
-yy441:
+yy404:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'D':	goto yy511;
-	default:	goto yy49;
+		case 'D': goto yy474;
+		default: goto yy35;
 	}
-yy442:
+yy405:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy513;
-	default:	goto yy49;
+		case 'N': goto yy476;
+		default: goto yy35;
 	}
-yy443:
+yy406:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy514;
-	default:	goto yy49;
+		case 'A': goto yy477;
+		default: goto yy35;
 	}
-yy444:
+yy407:
 	yyaccept = 32;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy445;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy408;
 	}
-yy445:
-#line 11627 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy408:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXCEPT (context_.location); }
-#line 17204 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy446:
+yy409:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy515;
-	default:	goto yy49;
+		case 'I': goto yy478;
+		default: goto yy35;
 	}
-yy447:
+yy410:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy516;
-	default:	goto yy49;
+		case 'S': goto yy479;
+		default: goto yy35;
 	}
-yy448:
+yy411:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy518;
-	default:	goto yy49;
+		case 'I': goto yy481;
+		default: goto yy35;
 	}
-yy449:
+yy412:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy519;
-	default:	goto yy49;
+		case 'A': goto yy482;
+		default: goto yy35;
 	}
-yy450:
+yy413:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'l':	goto yy520;
-	default:	goto yy49;
+		case 'l': goto yy483;
+		default: goto yy35;
 	}
-yy451:
+yy414:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'c':	goto yy521;
-	default:	goto yy49;
+		case 'c': goto yy484;
+		default: goto yy35;
 	}
-yy452:
+yy415:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy522;
-	default:	goto yy49;
+		case 'i': goto yy485;
+		default: goto yy35;
 	}
-yy453:
+yy416:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'F':	goto yy523;
-	default:	goto yy49;
+		case 'F': goto yy486;
+		default: goto yy35;
 	}
-yy454:
+yy417:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy524;
-	default:	goto yy49;
+		case 'I': goto yy487;
+		default: goto yy35;
 	}
-yy455:
+yy418:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'D':	goto yy525;
-	default:	goto yy49;
+		case 'D': goto yy488;
+		default: goto yy35;
 	}
-yy456:
+yy419:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy527;
-	default:	goto yy49;
+		case 'S': goto yy490;
+		default: goto yy35;
 	}
-yy457:
+yy420:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy529;
-	default:	goto yy49;
+		case 'E': goto yy492;
+		default: goto yy35;
 	}
-yy458:
+yy421:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy530;
-	default:	goto yy49;
+		case 'C': goto yy493;
+		default: goto yy35;
 	}
-yy459:
+yy422:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy531;
-	default:	goto yy49;
+		case 'C': goto yy494;
+		default: goto yy35;
 	}
-yy460:
+yy423:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy532;
-	default:	goto yy49;
+		case 'R': goto yy495;
+		default: goto yy35;
 	}
-yy461:
+yy424:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy534;
-	default:	goto yy49;
+		case 'E': goto yy497;
+		default: goto yy35;
 	}
-yy462:
+yy425:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy535;
-	default:	goto yy49;
+		case 'S': goto yy498;
+		default: goto yy35;
 	}
-yy463:
+yy426:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	case 'I':	goto yy536;
-	default:	goto yy101;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		case 'I': goto yy499;
+		default: goto yy73;
 	}
-yy464:
+yy427:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	case 'N':	goto yy537;
-	default:	goto yy101;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		case 'N': goto yy500;
+		default: goto yy73;
 	}
-yy465:
+yy428:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'c':	goto yy538;
-	default:	goto yy49;
+		case 'c': goto yy501;
+		default: goto yy35;
 	}
-yy466:
+yy429:
 	yyaccept = 33;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy467;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy430;
 	}
-yy467:
-#line 11654 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy430:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OBJECT (context_.location); }
-#line 17540 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy468:
+yy431:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy539;
-	default:	goto yy49;
+		case 'I': goto yy502;
+		default: goto yy35;
 	}
-yy469:
+yy432:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy541;
-	default:	goto yy49;
+		case 'A': goto yy504;
+		default: goto yy35;
 	}
-yy470:
+yy433:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'D':	goto yy542;
-	default:	goto yy49;
+		case 'D': goto yy505;
+		default: goto yy35;
 	}
-yy471:
+yy434:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy543;
-	default:	goto yy49;
+		case 'N': goto yy506;
+		default: goto yy35;
 	}
-yy472:
+yy435:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy545;
-	default:	goto yy49;
+		case 'N': goto yy508;
+		default: goto yy35;
 	}
-yy473:
+yy436:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy546;
-	default:	goto yy49;
+		case 'T': goto yy509;
+		default: goto yy35;
 	}
-yy474:
+yy437:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy548;
-	default:	goto yy49;
+		case 'E': goto yy511;
+		default: goto yy35;
 	}
-yy475:
+yy438:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'b':	goto yy550;
-	default:	goto yy49;
+		case 'b': goto yy513;
+		default: goto yy35;
 	}
-yy476:
+yy439:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'V':	goto yy551;
-	default:	goto yy49;
+		case 'V': goto yy514;
+		default: goto yy35;
 	}
-yy477:
+yy440:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy552;
-	default:	goto yy49;
+		case 'C': goto yy515;
+		default: goto yy35;
 	}
-yy478:
+yy441:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'G':	goto yy553;
-	default:	goto yy49;
+		case 'G': goto yy516;
+		default: goto yy35;
 	}
-yy479:
+yy442:
 	yyaccept = 34;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy480;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy443;
 	}
-yy480:
-#line 11673 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy443:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_STRING (context_.location); }
-#line 17691 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy481:
+yy444:
 	yyaccept = 35;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy482;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy445;
 	}
-yy482:
-#line 11674 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy445:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SYNTAX (context_.location); }
-#line 17765 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy483:
+yy446:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy554;
-	default:	goto yy49;
+		case 'i': goto yy517;
+		default: goto yy35;
 	}
-yy484:
+yy447:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'F':	goto yy555;
-	default:	goto yy49;
+		case 'F': goto yy518;
+		default: goto yy35;
 	}
-yy485:
+yy448:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'D':	goto yy556;
-	default:	goto yy49;
+		case 'D': goto yy519;
+		default: goto yy35;
 	}
-yy486:
+yy449:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'x':	goto yy557;
-	default:	goto yy49;
+		case 'x': goto yy520;
+		default: goto yy35;
 	}
-yy487:
+yy450:
 	yyaccept = 36;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy488;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy451;
 	}
-yy488:
-#line 11683 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy451:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UNIQUE (context_.location); }
-#line 17867 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy489:
+yy452:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy558;
-	default:	goto yy49;
+		case 'S': goto yy521;
+		default: goto yy35;
 	}
-yy490:
+yy453:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'e':	goto yy559;
-	default:	goto yy49;
+		case 'e': goto yy522;
+		default: goto yy35;
 	}
-yy491:
+yy454:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy561;
-	default:	goto yy49;
+		case 'r': goto yy524;
+		default: goto yy35;
 	}
-yy492:
+yy455:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 's':	goto yy562;
-	default:	goto yy49;
+		case 's': goto yy525;
+		default: goto yy35;
 	}
-yy493:
+yy456:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'e':	goto yy563;
-	default:	goto yy49;
+		case 'e': goto yy526;
+		default: goto yy35;
 	}
-yy494:
+yy457:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'e':	goto yy564;
-	default:	goto yy49;
+		case 'e': goto yy527;
+		default: goto yy35;
 	}
-yy495:
+yy458:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy565;
-	default:	goto yy49;
+		case 'T': goto yy528;
+		default: goto yy35;
 	}
-yy496:
+yy459:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy566;
-	default:	goto yy49;
+		case 'T': goto yy529;
+		default: goto yy35;
 	}
-yy497:
+yy460:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy567;
-	default:	goto yy49;
+		case 'I': goto yy530;
+		default: goto yy35;
 	}
-yy498:
+yy461:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'n':	goto yy568;
-	default:	goto yy49;
+		case 'n': goto yy531;
+		default: goto yy35;
 	}
-yy499:
+yy462:
 	yyaccept = 37;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy500;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy463;
 	}
-yy500:
-#line 11608 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy463:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BOOLEAN (context_.location); }
-#line 18011 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy501:
+yy464:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy569;
-	default:	goto yy49;
+		case 'E': goto yy532;
+		default: goto yy35;
 	}
-yy502:
+yy465:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy570;
-	default:	goto yy49;
+		case 'N': goto yy533;
+		default: goto yy35;
 	}
-yy503:
+yy466:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy571;
-	default:	goto yy49;
+		case 'I': goto yy534;
+		default: goto yy35;
 	}
-yy504:
+yy467:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy572;
-	default:	goto yy49;
+		case 'I': goto yy535;
+		default: goto yy35;
 	}
-yy505:
+yy468:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'M':	goto yy573;
-	default:	goto yy49;
+		case 'M': goto yy536;
+		default: goto yy35;
 	}
-yy506:
+yy469:
 	yyaccept = 38;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy507;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy470;
 	}
-yy507:
-#line 11619 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy470:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DEFAULT (context_.location); }
-#line 18120 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy508:
+yy471:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy574;
-	default:	goto yy49;
+		case 'I': goto yy537;
+		default: goto yy35;
 	}
-yy509:
+yy472:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy575;
-	default:	goto yy49;
+		case 'N': goto yy538;
+		default: goto yy35;
 	}
-yy510:
+yy473:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'D':	goto yy577;
-	default:	goto yy49;
+		case 'D': goto yy540;
+		default: goto yy35;
 	}
-yy511:
+yy474:
 	yyaccept = 39;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy512;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy475;
 	}
-yy512:
-#line 11623 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy475:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ENCODED (context_.location); }
-#line 18215 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy513:
+yy476:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'G':	goto yy579;
-	default:	goto yy49;
+		case 'G': goto yy542;
+		default: goto yy35;
 	}
-yy514:
+yy477:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy580;
-	default:	goto yy49;
+		case 'T': goto yy543;
+		default: goto yy35;
 	}
-yy515:
+yy478:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy581;
-	default:	goto yy49;
+		case 'T': goto yy544;
+		default: goto yy35;
 	}
-yy516:
+yy479:
 	yyaccept = 40;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy517;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy480;
 	}
-yy517:
-#line 11629 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy480:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXPORTS (context_.location); }
-#line 18310 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy518:
+yy481:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'B':	goto yy583;
-	default:	goto yy49;
+		case 'B': goto yy546;
+		default: goto yy35;
 	}
-yy519:
+yy482:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy584;
-	default:	goto yy49;
+		case 'L': goto yy547;
+		default: goto yy35;
 	}
-yy520:
+yy483:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy586;
-	case 'i':	goto yy587;
-	default:	goto yy49;
+		case 'S': goto yy549;
+		case 'i': goto yy550;
+		default: goto yy35;
 	}
-yy521:
+yy484:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy588;
-	default:	goto yy49;
+		case 'S': goto yy551;
+		default: goto yy35;
 	}
-yy522:
+yy485:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'n':	goto yy589;
-	default:	goto yy49;
+		case 'n': goto yy552;
+		default: goto yy35;
 	}
-yy523:
+yy486:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy590;
-	default:	goto yy49;
+		case 'I': goto yy553;
+		default: goto yy35;
 	}
-yy524:
+yy487:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy591;
-	default:	goto yy49;
+		case 'T': goto yy554;
+		default: goto yy35;
 	}
-yy525:
+yy488:
 	yyaccept = 41;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy526;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy489;
 	}
-yy526:
-#line 11640 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy489:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IMPLIED (context_.location); }
-#line 18434 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy527:
+yy490:
 	yyaccept = 42;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy528;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy491;
 	}
-yy528:
-#line 11641 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy491:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IMPORTS (context_.location); }
-#line 18508 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy529:
+yy492:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy593;
-	default:	goto yy49;
+		case 'S': goto yy556;
+		default: goto yy35;
 	}
-yy530:
+yy493:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy595;
-	default:	goto yy49;
+		case 'E': goto yy558;
+		default: goto yy35;
 	}
-yy531:
+yy494:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy597;
-	default:	goto yy49;
+		case 'T': goto yy560;
+		default: goto yy35;
 	}
-yy532:
+yy495:
 	yyaccept = 43;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy533;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy496;
 	}
-yy533:
-#line 11645 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy496:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INTEGER (context_.location); }
-#line 18603 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy534:
+yy497:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy598;
-	default:	goto yy49;
+		case 'C': goto yy561;
+		default: goto yy35;
 	}
-yy535:
+yy498:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy599;
-	default:	goto yy49;
+		case 't': goto yy562;
+		default: goto yy35;
 	}
-yy536:
+yy499:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy600;
-	default:	goto yy49;
+		case 'N': goto yy563;
+		default: goto yy35;
 	}
-yy537:
+yy500:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'U':	goto yy601;
-	default:	goto yy49;
+		case 'U': goto yy564;
+		default: goto yy35;
 	}
-yy538:
+yy501:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy602;
-	default:	goto yy49;
+		case 'S': goto yy565;
+		default: goto yy35;
 	}
-yy539:
+yy502:
 	yyaccept = 44;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy540;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy503;
 	}
-yy540:
-#line 11658 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy503:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OID_IRI (context_.location); }
-#line 18712 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy541:
+yy504:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy603;
-	default:	goto yy49;
+		case 'L': goto yy566;
+		default: goto yy35;
 	}
-yy542:
+yy505:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'e':	goto yy605;
-	default:	goto yy49;
+		case 'e': goto yy568;
+		default: goto yy35;
 	}
-yy543:
+yy506:
 	yyaccept = 45;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy544;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy507;
 	}
-yy544:
-#line 11660 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy507:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PATTERN (context_.location); }
-#line 18800 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy545:
+yy508:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'F':	goto yy606;
-	default:	goto yy49;
+		case 'F': goto yy569;
+		default: goto yy35;
 	}
-yy546:
+yy509:
 	yyaccept = 46;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy547;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy510;
 	}
-yy547:
-#line 11663 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy510:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PRESENT (context_.location); }
-#line 18881 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy548:
+yy511:
 	yyaccept = 47;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy549;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy512;
 	}
-yy549:
-#line 11665 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy512:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PRIVATE (context_.location); }
-#line 18955 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy550:
+yy513:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'l':	goto yy607;
-	default:	goto yy49;
+		case 'l': goto yy570;
+		default: goto yy35;
 	}
-yy551:
+yy514:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy608;
-	default:	goto yy49;
+		case 'E': goto yy571;
+		default: goto yy35;
 	}
-yy552:
+yy515:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy609;
-	default:	goto yy49;
+		case 'E': goto yy572;
+		default: goto yy35;
 	}
-yy553:
+yy516:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy611;
-	default:	goto yy49;
+		case 'S': goto yy574;
+		default: goto yy35;
 	}
-yy554:
+yy517:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'n':	goto yy613;
-	default:	goto yy49;
+		case 'n': goto yy576;
+		default: goto yy35;
 	}
-yy555:
+yy518:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy614;
-	default:	goto yy49;
+		case '-': goto yy577;
+		default: goto yy35;
 	}
-yy556:
+yy519:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy615;
-	default:	goto yy49;
+		case 'E': goto yy578;
+		default: goto yy35;
 	}
-yy557:
+yy520:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy616;
-	default:	goto yy49;
+		case 'S': goto yy579;
+		default: goto yy35;
 	}
-yy558:
+yy521:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy617;
-	default:	goto yy49;
+		case 'A': goto yy580;
+		default: goto yy35;
 	}
-yy559:
+yy522:
 	yyaccept = 48;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy560;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy523;
 	}
-yy560:
-#line 11686 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy523:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UTCTime (context_.location); }
-#line 19092 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy561:
+yy524:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy618;
-	default:	goto yy49;
+		case 'i': goto yy581;
+		default: goto yy35;
 	}
-yy562:
+yy525:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'a':	goto yy619;
-	default:	goto yy49;
+		case 'a': goto yy582;
+		default: goto yy35;
 	}
-yy563:
+yy526:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'x':	goto yy620;
-	default:	goto yy49;
+		case 'x': goto yy583;
+		default: goto yy35;
 	}
-yy564:
+yy527:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy621;
-	default:	goto yy49;
+		case 'S': goto yy584;
+		default: goto yy35;
 	}
-yy565:
+yy528:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy622;
-	default:	goto yy49;
+		case '-': goto yy585;
+		default: goto yy35;
 	}
-yy566:
+yy529:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy623;
-	default:	goto yy49;
+		case 'I': goto yy586;
+		default: goto yy35;
 	}
-yy567:
+yy530:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy624;
-	default:	goto yy49;
+		case 'C': goto yy587;
+		default: goto yy35;
 	}
-yy568:
+yy531:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'g':	goto yy626;
-	default:	goto yy49;
+		case 'g': goto yy589;
+		default: goto yy35;
 	}
-yy569:
+yy532:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy628;
-	default:	goto yy49;
+		case 'R': goto yy591;
+		default: goto yy35;
 	}
-yy570:
+yy533:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy630;
-	default:	goto yy49;
+		case 'T': goto yy593;
+		default: goto yy35;
 	}
-yy571:
+yy534:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy632;
-	default:	goto yy49;
+		case 'N': goto yy595;
+		default: goto yy35;
 	}
-yy572:
+yy535:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy633;
-	default:	goto yy49;
+		case 'N': goto yy596;
+		default: goto yy35;
 	}
-yy573:
+yy536:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy634;
-	default:	goto yy49;
+		case 'E': goto yy597;
+		default: goto yy35;
 	}
-yy574:
+yy537:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy636;
-	default:	goto yy49;
+		case 'O': goto yy599;
+		default: goto yy35;
 	}
-yy575:
+yy538:
 	yyaccept = 49;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy576;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy539;
 	}
-yy576:
-#line 11621 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy539:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DURATION (context_.location); }
-#line 19264 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy577:
+yy540:
 	yyaccept = 50;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy578;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy541;
 	}
-yy578:
-#line 11622 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy541:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EMBEDDED (context_.location); }
-#line 19338 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy579:
+yy542:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '_':	goto yy637;
-	default:	goto yy49;
+		case '_': goto yy600;
+		default: goto yy35;
 	}
-yy580:
+yy543:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy638;
-	default:	goto yy49;
+		case 'E': goto yy601;
+		default: goto yy35;
 	}
-yy581:
+yy544:
 	yyaccept = 51;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy582;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy545;
 	}
-yy582:
-#line 11628 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy545:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXPLICIT (context_.location); }
-#line 19426 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy583:
+yy546:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy639;
-	default:	goto yy49;
+		case 'I': goto yy602;
+		default: goto yy35;
 	}
-yy584:
+yy547:
 	yyaccept = 52;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy585;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy548;
 	}
-yy585:
-#line 11631 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy548:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXTERNAL (context_.location); }
-#line 19507 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy586:
+yy549:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy640;
-	default:	goto yy49;
+		case 't': goto yy603;
+		default: goto yy35;
 	}
-yy587:
+yy550:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'z':	goto yy641;
-	default:	goto yy49;
+		case 'z': goto yy604;
+		default: goto yy35;
 	}
-yy588:
+yy551:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy642;
-	default:	goto yy49;
+		case 't': goto yy605;
+		default: goto yy35;
 	}
-yy589:
+yy552:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'g':	goto yy643;
-	default:	goto yy49;
+		case 'g': goto yy606;
+		default: goto yy35;
 	}
-yy590:
+yy553:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy645;
-	default:	goto yy49;
+		case 'E': goto yy608;
+		default: goto yy35;
 	}
-yy591:
+yy554:
 	yyaccept = 53;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy592;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy555;
 	}
-yy592:
-#line 11639 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy555:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IMPLICIT (context_.location); }
-#line 19616 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy593:
+yy556:
 	yyaccept = 54;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy594;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy557;
 	}
-yy594:
-#line 11642 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy557:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INCLUDES (context_.location); }
-#line 19690 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy595:
+yy558:
 	yyaccept = 55;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy596;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy559;
 	}
-yy596:
-#line 11643 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy559:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INSTANCE (context_.location); }
-#line 19764 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy597:
+yy560:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy646;
-	default:	goto yy49;
+		case 'I': goto yy609;
+		default: goto yy35;
 	}
-yy598:
+yy561:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy647;
-	default:	goto yy49;
+		case 'T': goto yy610;
+		default: goto yy35;
 	}
-yy599:
+yy562:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy648;
-	default:	goto yy49;
+		case 'r': goto yy611;
+		default: goto yy35;
 	}
-yy600:
+yy563:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'F':	goto yy649;
-	default:	goto yy49;
+		case 'F': goto yy612;
+		default: goto yy35;
 	}
-yy601:
+yy564:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'M':	goto yy650;
-	default:	goto yy49;
+		case 'M': goto yy613;
+		default: goto yy35;
 	}
-yy602:
+yy565:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy651;
-	default:	goto yy49;
+		case 't': goto yy614;
+		default: goto yy35;
 	}
-yy603:
+yy566:
 	yyaccept = 56;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy604;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy567;
 	}
-yy604:
-#line 11659 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy567:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OPTIONAL (context_.location); }
-#line 19880 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy605:
+yy568:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 's':	goto yy652;
-	default:	goto yy49;
+		case 's': goto yy615;
+		default: goto yy35;
 	}
-yy606:
+yy569:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy653;
-	default:	goto yy49;
+		case 'I': goto yy616;
+		default: goto yy35;
 	}
-yy607:
+yy570:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'e':	goto yy654;
-	default:	goto yy49;
+		case 'e': goto yy617;
+		default: goto yy35;
 	}
-yy608:
+yy571:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy655;
-	default:	goto yy49;
+		case '-': goto yy618;
+		default: goto yy35;
 	}
-yy609:
+yy572:
 	yyaccept = 57;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy610;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy573;
 	}
-yy610:
-#line 11669 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy573:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SEQUENCE (context_.location); }
-#line 19982 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy611:
+yy574:
 	yyaccept = 58;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy612;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy575;
 	}
-yy612:
-#line 11671 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy575:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SETTINGS (context_.location); }
-#line 20056 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy613:
+yy576:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'g':	goto yy656;
-	default:	goto yy49;
+		case 'g': goto yy619;
+		default: goto yy35;
 	}
-yy614:
+yy577:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	case 'D':	goto yy658;
-	default:	goto yy101;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		case 'D': goto yy621;
+		default: goto yy73;
 	}
-yy615:
+yy578:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy659;
-	default:	goto yy49;
+		case 'N': goto yy622;
+		default: goto yy35;
 	}
-yy616:
+yy579:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy660;
-	default:	goto yy49;
+		case 't': goto yy623;
+		default: goto yy35;
 	}
-yy617:
+yy580:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy661;
-	default:	goto yy49;
+		case 'L': goto yy624;
+		default: goto yy35;
 	}
-yy618:
+yy581:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'n':	goto yy663;
-	default:	goto yy49;
+		case 'n': goto yy626;
+		default: goto yy35;
 	}
-yy619:
+yy582:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'l':	goto yy664;
-	default:	goto yy49;
+		case 'l': goto yy627;
+		default: goto yy35;
 	}
-yy620:
+yy583:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy665;
-	default:	goto yy49;
+		case 'S': goto yy628;
+		default: goto yy35;
 	}
-yy621:
+yy584:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy666;
-	default:	goto yy49;
+		case 't': goto yy629;
+		default: goto yy35;
 	}
-yy622:
+yy585:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	case 'S':	goto yy667;
-	default:	goto yy101;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		case 'S': goto yy630;
+		default: goto yy73;
 	}
-yy623:
+yy586:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy668;
-	default:	goto yy49;
+		case 'O': goto yy631;
+		default: goto yy35;
 	}
-yy624:
+yy587:
 	yyaccept = 59;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy625;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy588;
 	}
-yy625:
-#line 11604 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy588:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_AUTOMATIC (context_.location); }
-#line 20329 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy626:
+yy589:
 	yyaccept = 60;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy627;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy590;
 	}
-yy627:
-#line 11607 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy590:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BMPString (context_.location); }
-#line 20403 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy628:
+yy591:
 	yyaccept = 61;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy629;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy592;
 	}
-yy629:
-#line 11610 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy592:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CHARACTER (context_.location); }
-#line 20477 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy630:
+yy593:
 	yyaccept = 62;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	case 'S':	goto yy669;
-	default:	goto yy631;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		case 'S': goto yy632;
+		default: goto yy594;
 	}
-yy631:
-#line 11613 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy594:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COMPONENT (context_.location); }
-#line 20551 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy632:
+yy595:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy671;
-	default:	goto yy49;
+		case 'E': goto yy634;
+		default: goto yy35;
 	}
-yy633:
+yy596:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'G':	goto yy672;
-	default:	goto yy49;
+		case 'G': goto yy635;
+		default: goto yy35;
 	}
-yy634:
+yy597:
 	yyaccept = 63;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy635;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy598;
 	}
-yy635:
-#line 11618 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy598:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DATE_TIME (context_.location); }
-#line 20639 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy636:
+yy599:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy674;
-	default:	goto yy49;
+		case 'N': goto yy637;
+		default: goto yy35;
 	}
-yy637:
+yy600:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'C':	goto yy675;
-	default:	goto yy49;
+		case 'C': goto yy638;
+		default: goto yy35;
 	}
-yy638:
+yy601:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'D':	goto yy676;
-	default:	goto yy49;
+		case 'D': goto yy639;
+		default: goto yy35;
 	}
-yy639:
+yy602:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy678;
-	default:	goto yy49;
+		case 'L': goto yy641;
+		default: goto yy35;
 	}
-yy640:
+yy603:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy679;
-	default:	goto yy49;
+		case 'r': goto yy642;
+		default: goto yy35;
 	}
-yy641:
+yy604:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'e':	goto yy680;
-	default:	goto yy49;
+		case 'e': goto yy643;
+		default: goto yy35;
 	}
-yy642:
+yy605:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy681;
-	default:	goto yy49;
+		case 'r': goto yy644;
+		default: goto yy35;
 	}
-yy643:
+yy606:
 	yyaccept = 64;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy644;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy607;
 	}
-yy644:
-#line 11637 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy607:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IA5String (context_.location); }
-#line 20762 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy645:
+yy608:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy682;
-	default:	goto yy49;
+		case 'R': goto yy645;
+		default: goto yy35;
 	}
-yy646:
+yy609:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy684;
-	default:	goto yy49;
+		case 'O': goto yy647;
+		default: goto yy35;
 	}
-yy647:
+yy610:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy685;
-	default:	goto yy49;
+		case 'I': goto yy648;
+		default: goto yy35;
 	}
-yy648:
+yy611:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy686;
-	default:	goto yy49;
+		case 'i': goto yy649;
+		default: goto yy35;
 	}
-yy649:
+yy612:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy687;
-	default:	goto yy49;
+		case 'I': goto yy650;
+		default: goto yy35;
 	}
-yy650:
+yy613:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'B':	goto yy688;
-	default:	goto yy49;
+		case 'B': goto yy651;
+		default: goto yy35;
 	}
-yy651:
+yy614:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy689;
-	default:	goto yy49;
+		case 'r': goto yy652;
+		default: goto yy35;
 	}
-yy652:
+yy615:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'c':	goto yy690;
-	default:	goto yy49;
+		case 'c': goto yy653;
+		default: goto yy35;
 	}
-yy653:
+yy616:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy691;
-	default:	goto yy49;
+		case 'N': goto yy654;
+		default: goto yy35;
 	}
-yy654:
+yy617:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy692;
-	default:	goto yy49;
+		case 'S': goto yy655;
+		default: goto yy35;
 	}
-yy655:
+yy618:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	case 'O':	goto yy693;
-	default:	goto yy101;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		case 'O': goto yy656;
+		default: goto yy73;
 	}
-yy656:
+yy619:
 	yyaccept = 65;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy657;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy620;
 	}
-yy657:
-#line 11675 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy620:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_T61String (context_.location); }
-#line 20974 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy658:
+yy621:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy694;
-	default:	goto yy49;
+		case 'A': goto yy657;
+		default: goto yy35;
 	}
-yy659:
+yy622:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy695;
-	default:	goto yy49;
+		case 'T': goto yy658;
+		default: goto yy35;
 	}
-yy660:
+yy623:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy696;
-	default:	goto yy49;
+		case 'r': goto yy659;
+		default: goto yy35;
 	}
-yy661:
+yy624:
 	yyaccept = 66;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy662;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy625;
 	}
-yy662:
-#line 11684 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy625:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UNIVERSAL (context_.location); }
-#line 21069 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy663:
+yy626:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'g':	goto yy697;
-	default:	goto yy49;
+		case 'g': goto yy660;
+		default: goto yy35;
 	}
-yy664:
+yy627:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy699;
-	default:	goto yy49;
+		case 'S': goto yy662;
+		default: goto yy35;
 	}
-yy665:
+yy628:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy700;
-	default:	goto yy49;
+		case 't': goto yy663;
+		default: goto yy35;
 	}
-yy666:
+yy629:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy701;
-	default:	goto yy49;
+		case 'r': goto yy664;
+		default: goto yy35;
 	}
-yy667:
+yy630:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'Y':	goto yy702;
-	default:	goto yy49;
+		case 'Y': goto yy665;
+		default: goto yy35;
 	}
-yy668:
+yy631:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy703;
-	default:	goto yy49;
+		case 'N': goto yy666;
+		default: goto yy35;
 	}
-yy669:
+yy632:
 	yyaccept = 67;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy670;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy633;
 	}
-yy670:
-#line 11614 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy633:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COMPONENTS (context_.location); }
-#line 21185 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy671:
+yy634:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'D':	goto yy705;
-	default:	goto yy49;
+		case 'D': goto yy668;
+		default: goto yy35;
 	}
-yy672:
+yy635:
 	yyaccept = 68;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy673;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy636;
 	}
-yy673:
-#line 11616 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy636:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CONTAINING (context_.location); }
-#line 21266 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy674:
+yy637:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy707;
-	default:	goto yy49;
+		case 'S': goto yy670;
+		default: goto yy35;
 	}
-yy675:
+yy638:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy709;
-	default:	goto yy49;
+		case 'O': goto yy672;
+		default: goto yy35;
 	}
-yy676:
+yy639:
 	yyaccept = 69;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy677;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy640;
 	}
-yy677:
-#line 11626 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy640:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ENUMERATED (context_.location); }
-#line 21354 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy678:
+yy641:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy710;
-	default:	goto yy49;
+		case 'I': goto yy673;
+		default: goto yy35;
 	}
-yy679:
+yy642:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy711;
-	default:	goto yy49;
+		case 'i': goto yy674;
+		default: goto yy35;
 	}
-yy680:
+yy643:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'd':	goto yy712;
-	default:	goto yy49;
+		case 'd': goto yy675;
+		default: goto yy35;
 	}
-yy681:
+yy644:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy713;
-	default:	goto yy49;
+		case 'i': goto yy676;
+		default: goto yy35;
 	}
-yy682:
+yy645:
 	yyaccept = 70;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy683;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy646;
 	}
-yy683:
-#line 11638 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy646:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IDENTIFIER (context_.location); }
-#line 21456 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy684:
+yy647:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy714;
-	default:	goto yy49;
+		case 'N': goto yy677;
+		default: goto yy35;
 	}
-yy685:
+yy648:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy715;
-	default:	goto yy49;
+		case 'O': goto yy678;
+		default: goto yy35;
 	}
-yy686:
+yy649:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'n':	goto yy716;
-	default:	goto yy49;
+		case 'n': goto yy679;
+		default: goto yy35;
 	}
-yy687:
+yy650:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy717;
-	default:	goto yy49;
+		case 'N': goto yy680;
+		default: goto yy35;
 	}
-yy688:
+yy651:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy718;
-	default:	goto yy49;
+		case 'E': goto yy681;
+		default: goto yy35;
 	}
-yy689:
+yy652:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy719;
-	default:	goto yy49;
+		case 'i': goto yy682;
+		default: goto yy35;
 	}
-yy690:
+yy653:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy720;
-	default:	goto yy49;
+		case 'r': goto yy683;
+		default: goto yy35;
 	}
-yy691:
+yy654:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy721;
-	default:	goto yy49;
+		case 'I': goto yy684;
+		default: goto yy35;
 	}
-yy692:
+yy655:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy722;
-	default:	goto yy49;
+		case 't': goto yy685;
+		default: goto yy35;
 	}
-yy693:
+yy656:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy723;
-	default:	goto yy49;
+		case 'I': goto yy686;
+		default: goto yy35;
 	}
-yy694:
+yy657:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'Y':	goto yy724;
-	default:	goto yy49;
+		case 'Y': goto yy687;
+		default: goto yy35;
 	}
-yy695:
+yy658:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy726;
-	default:	goto yy49;
+		case 'I': goto yy689;
+		default: goto yy35;
 	}
-yy696:
+yy659:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy727;
-	default:	goto yy49;
+		case 'i': goto yy690;
+		default: goto yy35;
 	}
-yy697:
+yy660:
 	yyaccept = 71;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy698;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy661;
 	}
-yy698:
-#line 11687 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy661:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UTF8String (context_.location); }
-#line 21621 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy699:
+yy662:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy728;
-	default:	goto yy49;
+		case 't': goto yy691;
+		default: goto yy35;
 	}
-yy700:
+yy663:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy729;
-	default:	goto yy49;
+		case 'r': goto yy692;
+		default: goto yy35;
 	}
-yy701:
+yy664:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy730;
-	default:	goto yy49;
+		case 'i': goto yy693;
+		default: goto yy35;
 	}
-yy702:
+yy665:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy731;
-	default:	goto yy49;
+		case 'N': goto yy694;
+		default: goto yy35;
 	}
-yy703:
+yy666:
 	yyaccept = 72;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy704;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy667;
 	}
-yy704:
-#line 11603 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy667:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_APPLICATION (context_.location); }
-#line 21723 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy705:
+yy668:
 	yyaccept = 73;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy706;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy669;
 	}
-yy706:
-#line 11615 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy669:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CONSTRAINED (context_.location); }
-#line 21797 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy707:
+yy670:
 	yyaccept = 74;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy708;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy671;
 	}
-yy708:
-#line 11620 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy671:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DEFINITIONS (context_.location); }
-#line 21871 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy709:
+yy672:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy732;
-	default:	goto yy49;
+		case 'N': goto yy695;
+		default: goto yy35;
 	}
-yy710:
+yy673:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy733;
-	default:	goto yy49;
+		case 'T': goto yy696;
+		default: goto yy35;
 	}
-yy711:
+yy674:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'n':	goto yy734;
-	default:	goto yy49;
+		case 'n': goto yy697;
+		default: goto yy35;
 	}
-yy712:
+yy675:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy735;
-	default:	goto yy49;
+		case 'T': goto yy698;
+		default: goto yy35;
 	}
-yy713:
+yy676:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'n':	goto yy736;
-	default:	goto yy49;
+		case 'n': goto yy699;
+		default: goto yy35;
 	}
-yy714:
+yy677:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'S':	goto yy737;
-	default:	goto yy49;
+		case 'S': goto yy700;
+		default: goto yy35;
 	}
-yy715:
+yy678:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'N':	goto yy739;
-	default:	goto yy49;
+		case 'N': goto yy702;
+		default: goto yy35;
 	}
-yy716:
+yy679:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'g':	goto yy741;
-	default:	goto yy49;
+		case 'g': goto yy704;
+		default: goto yy35;
 	}
-yy717:
+yy680:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy743;
-	default:	goto yy49;
+		case 'I': goto yy706;
+		default: goto yy35;
 	}
-yy718:
+yy681:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy744;
-	default:	goto yy49;
+		case 'R': goto yy707;
+		default: goto yy35;
 	}
-yy719:
+yy682:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'n':	goto yy746;
-	default:	goto yy49;
+		case 'n': goto yy709;
+		default: goto yy35;
 	}
-yy720:
+yy683:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy747;
-	default:	goto yy49;
+		case 'i': goto yy710;
+		default: goto yy35;
 	}
-yy721:
+yy684:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy748;
-	default:	goto yy49;
+		case 'T': goto yy711;
+		default: goto yy35;
 	}
-yy722:
+yy685:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy749;
-	default:	goto yy49;
+		case 'r': goto yy712;
+		default: goto yy35;
 	}
-yy723:
+yy686:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'D':	goto yy750;
-	default:	goto yy49;
+		case 'D': goto yy713;
+		default: goto yy35;
 	}
-yy724:
+yy687:
 	yyaccept = 75;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy725;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy688;
 	}
-yy725:
-#line 11679 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy688:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TIME_OF_DAY (context_.location); }
-#line 22050 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy726:
+yy689:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'F':	goto yy752;
-	default:	goto yy49;
+		case 'F': goto yy715;
+		default: goto yy35;
 	}
-yy727:
+yy690:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'n':	goto yy753;
-	default:	goto yy49;
+		case 'n': goto yy716;
+		default: goto yy35;
 	}
-yy728:
+yy691:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy754;
-	default:	goto yy49;
+		case 'r': goto yy717;
+		default: goto yy35;
 	}
-yy729:
+yy692:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy755;
-	default:	goto yy49;
+		case 'i': goto yy718;
+		default: goto yy35;
 	}
-yy730:
+yy693:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'n':	goto yy756;
-	default:	goto yy49;
+		case 'n': goto yy719;
+		default: goto yy35;
 	}
-yy731:
+yy694:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy757;
-	default:	goto yy49;
+		case 'T': goto yy720;
+		default: goto yy35;
 	}
-yy732:
+yy695:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy758;
-	default:	goto yy49;
+		case 'T': goto yy721;
+		default: goto yy35;
 	}
-yy733:
+yy696:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'Y':	goto yy759;
-	default:	goto yy49;
+		case 'Y': goto yy722;
+		default: goto yy35;
 	}
-yy734:
+yy697:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'g':	goto yy761;
-	default:	goto yy49;
+		case 'g': goto yy724;
+		default: goto yy35;
 	}
-yy735:
+yy698:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy763;
-	default:	goto yy49;
+		case 'i': goto yy726;
+		default: goto yy35;
 	}
-yy736:
+yy699:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'g':	goto yy764;
-	default:	goto yy49;
+		case 'g': goto yy727;
+		default: goto yy35;
 	}
-yy737:
+yy700:
 	yyaccept = 76;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy738;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy701;
 	}
-yy738:
-#line 11644 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy701:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INSTRUCTIONS (context_.location); }
-#line 22201 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy739:
+yy702:
 	yyaccept = 77;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy740;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy703;
 	}
-yy740:
-#line 11646 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy703:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INTERSECTION (context_.location); }
-#line 22275 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy741:
+yy704:
 	yyaccept = 78;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy742;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy705;
 	}
-yy742:
-#line 11647 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy705:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ISO646String (context_.location); }
-#line 22349 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy743:
+yy706:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'T':	goto yy766;
-	default:	goto yy49;
+		case 'T': goto yy729;
+		default: goto yy35;
 	}
-yy744:
+yy707:
 	yyaccept = 79;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy745;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy708;
 	}
-yy745:
-#line 11651 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy708:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_NOT_A_NUMBER (context_.location); }
-#line 22430 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy746:
+yy709:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'g':	goto yy767;
-	default:	goto yy49;
+		case 'g': goto yy730;
+		default: goto yy35;
 	}
-yy747:
+yy710:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'p':	goto yy769;
-	default:	goto yy49;
+		case 'p': goto yy732;
+		default: goto yy35;
 	}
-yy748:
+yy711:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'Y':	goto yy770;
-	default:	goto yy49;
+		case 'Y': goto yy733;
+		default: goto yy35;
 	}
-yy749:
+yy712:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy772;
-	default:	goto yy49;
+		case 'i': goto yy735;
+		default: goto yy35;
 	}
-yy750:
+yy713:
 	yyaccept = 80;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy773;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy751;
+		case '-': goto yy736;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy714;
 	}
-yy751:
-#line 11667 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy714:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_RELATIVE_OID (context_.location); }
-#line 22532 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy752:
+yy715:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy774;
-	default:	goto yy49;
+		case 'I': goto yy737;
+		default: goto yy35;
 	}
-yy753:
+yy716:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'g':	goto yy775;
-	default:	goto yy49;
+		case 'g': goto yy738;
+		default: goto yy35;
 	}
-yy754:
+yy717:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'i':	goto yy777;
-	default:	goto yy49;
+		case 'i': goto yy740;
+		default: goto yy35;
 	}
-yy755:
+yy718:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'n':	goto yy778;
-	default:	goto yy49;
+		case 'n': goto yy741;
+		default: goto yy35;
 	}
-yy756:
+yy719:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'g':	goto yy779;
-	default:	goto yy49;
+		case 'g': goto yy742;
+		default: goto yy35;
 	}
-yy757:
+yy720:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'A':	goto yy781;
-	default:	goto yy49;
+		case 'A': goto yy744;
+		default: goto yy35;
 	}
-yy758:
+yy721:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy782;
-	default:	goto yy49;
+		case 'R': goto yy745;
+		default: goto yy35;
 	}
-yy759:
+yy722:
 	yyaccept = 81;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy760;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy723;
 	}
-yy760:
-#line 11630 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy723:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXTENSIBILITY (context_.location); }
-#line 22655 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy761:
+yy724:
 	yyaccept = 82;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy762;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy725;
 	}
-yy762:
-#line 11635 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy725:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GeneralString (context_.location); }
-#line 22729 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy763:
+yy726:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'm':	goto yy783;
-	default:	goto yy49;
+		case 'm': goto yy746;
+		default: goto yy35;
 	}
-yy764:
+yy727:
 	yyaccept = 83;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy765;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy728;
 	}
-yy765:
-#line 11636 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy728:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GraphicString (context_.location); }
-#line 22810 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy766:
+yy729:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'Y':	goto yy784;
-	default:	goto yy49;
+		case 'Y': goto yy747;
+		default: goto yy35;
 	}
-yy767:
+yy730:
 	yyaccept = 84;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy768;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy731;
 	}
-yy768:
-#line 11653 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy731:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_NumericString (context_.location); }
-#line 22891 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy769:
+yy732:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 't':	goto yy786;
-	default:	goto yy49;
+		case 't': goto yy749;
+		default: goto yy35;
 	}
-yy770:
+yy733:
 	yyaccept = 85;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy771;
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy734;
 	}
-yy771:
-#line 11662 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+yy734:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PLUS_INFINITY (context_.location); }
-#line 22972 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy772:
+yy735:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'n':	goto yy787;
-	default:	goto yy49;
+		case 'n': goto yy750;
+		default: goto yy35;
 	}
-yy773:
+yy736:
 	yych = *++context_.cursor;
 	switch (yych) {
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	case 'I':	goto yy788;
-	default:	goto yy101;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		case 'I': goto yy751;
+		default: goto yy73;
 	}
-yy774:
+yy737:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'E':	goto yy789;
-	default:	goto yy49;
+		case 'E': goto yy752;
+		default: goto yy35;
 	}
-yy775:
+yy738:
 	yyaccept = 86;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy776;
-	}
-yy776:
-#line 11677 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy739;
+	}
+yy739:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TeletexString (context_.location); }
-#line 23128 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy777:
+yy740:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'n':	goto yy790;
-	default:	goto yy49;
+		case 'n': goto yy753;
+		default: goto yy35;
 	}
-yy778:
+yy741:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'g':	goto yy791;
-	default:	goto yy49;
+		case 'g': goto yy754;
+		default: goto yy35;
 	}
-yy779:
+yy742:
 	yyaccept = 87;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy780;
-	}
-yy780:
-#line 11689 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy743;
+	}
+yy743:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_VisibleString (context_.location); }
-#line 23216 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy781:
+yy744:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'X':	goto yy793;
-	default:	goto yy49;
+		case 'X': goto yy756;
+		default: goto yy35;
 	}
-yy782:
+yy745:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'O':	goto yy795;
-	default:	goto yy49;
+		case 'O': goto yy758;
+		default: goto yy35;
 	}
-yy783:
+yy746:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'e':	goto yy796;
-	default:	goto yy49;
+		case 'e': goto yy759;
+		default: goto yy35;
 	}
-yy784:
+yy747:
 	yyaccept = 88;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy785;
-	}
-yy785:
-#line 11650 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy748;
+	}
+yy748:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_MINUS_INFINITY (context_.location); }
-#line 23311 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy786:
+yy749:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'o':	goto yy798;
-	default:	goto yy49;
+		case 'o': goto yy761;
+		default: goto yy35;
 	}
-yy787:
+yy750:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'g':	goto yy799;
-	default:	goto yy49;
+		case 'g': goto yy762;
+		default: goto yy35;
 	}
-yy788:
+yy751:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy801;
-	default:	goto yy49;
+		case 'R': goto yy764;
+		default: goto yy35;
 	}
-yy789:
+yy752:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'R':	goto yy802;
-	default:	goto yy49;
+		case 'R': goto yy765;
+		default: goto yy35;
 	}
-yy790:
+yy753:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'g':	goto yy804;
-	default:	goto yy49;
+		case 'g': goto yy767;
+		default: goto yy35;
 	}
-yy791:
+yy754:
 	yyaccept = 89;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy792;
-	}
-yy792:
-#line 11688 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy755;
+	}
+yy755:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_VideotexString (context_.location); }
-#line 23420 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy793:
+yy756:
 	yyaccept = 90;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy794;
-	}
-yy794:
-#line 11600 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy757;
+	}
+yy757:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ABSTRACT_SYNTAX (context_.location); }
-#line 23494 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy795:
+yy758:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'L':	goto yy806;
-	default:	goto yy49;
+		case 'L': goto yy769;
+		default: goto yy35;
 	}
-yy796:
+yy759:
 	yyaccept = 91;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy797;
-	}
-yy797:
-#line 11634 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy760;
+	}
+yy760:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GeneralizedTime (context_.location); }
-#line 23575 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy798:
+yy761:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'r':	goto yy808;
-	default:	goto yy49;
+		case 'r': goto yy771;
+		default: goto yy35;
 	}
-yy799:
+yy762:
 	yyaccept = 92;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy800;
-	}
-yy800:
-#line 11664 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy763;
+	}
+yy763:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PrintableString (context_.location); }
-#line 23656 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy801:
+yy764:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case 'I':	goto yy810;
-	default:	goto yy49;
+		case 'I': goto yy773;
+		default: goto yy35;
 	}
-yy802:
+yy765:
 	yyaccept = 93;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy803;
-	}
-yy803:
-#line 11681 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy766;
+	}
+yy766:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TYPE_IDENTIFIER (context_.location); }
-#line 23737 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy804:
+yy767:
 	yyaccept = 94;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy805;
-	}
-yy805:
-#line 11685 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy768;
+	}
+yy768:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UniversalString (context_.location); }
-#line 23811 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy806:
+yy769:
 	yyaccept = 95;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy807;
-	}
-yy807:
-#line 11624 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy770;
+	}
+yy770:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ENCODING_CONTROL (context_.location); }
-#line 23885 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy808:
+yy771:
 	yyaccept = 96;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy809;
-	}
-yy809:
-#line 11655 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy772;
+	}
+yy772:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ObjectDescriptor (context_.location); }
-#line 23959 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
-yy810:
+yy773:
 	yyaccept = 97;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-	case '-':	goto yy103;
-	case '0':
-	case '1':
-	case '2':
-	case '3':
-	case '4':
-	case '5':
-	case '6':
-	case '7':
-	case '8':
-	case '9':
-	case 'A':
-	case 'B':
-	case 'C':
-	case 'D':
-	case 'E':
-	case 'F':
-	case 'G':
-	case 'H':
-	case 'I':
-	case 'J':
-	case 'K':
-	case 'L':
-	case 'M':
-	case 'N':
-	case 'O':
-	case 'P':
-	case 'Q':
-	case 'R':
-	case 'S':
-	case 'T':
-	case 'U':
-	case 'V':
-	case 'W':
-	case 'X':
-	case 'Y':
-	case 'Z':
-	case '_':
-	case 'a':
-	case 'b':
-	case 'c':
-	case 'd':
-	case 'e':
-	case 'f':
-	case 'g':
-	case 'h':
-	case 'i':
-	case 'j':
-	case 'k':
-	case 'l':
-	case 'm':
-	case 'n':
-	case 'o':
-	case 'p':
-	case 'q':
-	case 'r':
-	case 's':
-	case 't':
-	case 'u':
-	case 'v':
-	case 'w':
-	case 'x':
-	case 'y':
-	case 'z':	goto yy48;
-	default:	goto yy811;
-	}
-yy811:
-#line 11668 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
+		case '-': goto yy75;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'G':
+		case 'H':
+		case 'I':
+		case 'J':
+		case 'K':
+		case 'L':
+		case 'M':
+		case 'N':
+		case 'O':
+		case 'P':
+		case 'Q':
+		case 'R':
+		case 'S':
+		case 'T':
+		case 'U':
+		case 'V':
+		case 'W':
+		case 'X':
+		case 'Y':
+		case 'Z':
+		case '_':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f':
+		case 'g':
+		case 'h':
+		case 'i':
+		case 'j':
+		case 'k':
+		case 'l':
+		case 'm':
+		case 'n':
+		case 'o':
+		case 'p':
+		case 'q':
+		case 'r':
+		case 's':
+		case 't':
+		case 'u':
+		case 'v':
+		case 'w':
+		case 'x':
+		case 'y':
+		case 'z': goto yy34;
+		default: goto yy774;
+	}
+yy774:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_RELATIVE_OID_IRI (context_.location); }
-#line 24033 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.hpp"
 }
-#line 11743 "/home/styler/git/fast_ber/build/src/autogen/asn_compiler.re"
 
     }
 }
diff --git a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
index 095d889..cca3863 100644
--- a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
+++ b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
@@ -427,7 +427,8 @@ struct ChoiceType
 
 struct DefinedValue
 {
-    std::string reference;
+    std::string                 reference;
+    absl::optional<std::string> module_reference; // The module of the value, if it is not the one where it is used
 };
 
 struct ObjectClassFieldType
@@ -491,6 +492,7 @@ struct ComponentType
     absl::optional<Value> default_value;
     absl::optional<Type>  components_of;
     StorageMode           optional_storage;
+    bool                  is_extension; // Follows an extension marker
 };
 
 struct Tag
@@ -753,3 +755,6 @@ bool is_generated(const Type& type);
 struct Context;
 
 std::string gen_anon_member_name();
+
+// Appends the components which follow an extension marker
+void add_extensions(ComponentTypeList& components, const ComponentTypeList& extensions);
diff --git a/src/compiler/include/fast_ber/compiler/ReorderAssignments.hpp b/src/compiler/include/fast_ber/compiler/ReorderAssignments.hpp
index 5473ea3..28415ba 100644
--- a/src/compiler/include/fast_ber/compiler/ReorderAssignments.hpp
+++ b/src/compiler/include/fast_ber/compiler/ReorderAssignments.hpp
@@ -2,9 +2,18 @@
 
 #include "fast_ber/compiler/CompilerTypes.hpp"
 
+#include <functional>
+
 std::string to_string(const std::vector<Assignment>& assignments);
 void        check_duplicated_names(const std::vector<Assignment>& assignments, const std::string& module_name);
 
+// Calls function on a type and every type within it
+void visit_types(Type& type, const std::function<void(Type&)>& function);
+
+// Makes a type of another module one of the module where it is used, as to the names within it
+void qualify_names(Type& type, const std::string& module_reference,
+                   const std::function<bool(const std::string&)>& is_parameter);
+
 // Automatic tagging is decided upon the components as they are written and done once COMPONENTS OF is resolved.
 // Afterwards every tag states whether it is explicit or implicit
 void select_automatic_tags(Asn1Tree& tree);
diff --git a/src/compiler_main/CompilerMain.cpp b/src/compiler_main/CompilerMain.cpp
index 9af9345..ee9b87b 100644
--- a/src/compiler_main/CompilerMain.cpp
+++ b/src/compiler_main/CompilerMain.cpp
@@ -278,10 +278,15 @@ int main(int argc, char** argv)
             module.assignments = split_imports(context.asn1_tree, module.assignments, module.imports);
             module.assignments = split_definitions(module.assignments);
             check_duplicated_names(module.assignments, module.module_reference);
-            module.assignments = split_nested_structures(module);
         }
 
         resolve_components_of(context.asn1_tree);
+
+        for (auto& module : context.asn1_tree.modules)
+        {
+            module.assignments = split_nested_structures(module);
+        }
+
         apply_automatic_tags(context.asn1_tree);
         resolve_object_classes(context.asn1_tree);
 
-- 
2.43.0


From 18082a988be4d7b231f6cabd3438e258426105d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:09 +0000
Subject: [PATCH 47/66] fix: parameterized types take their parameters in
 reverse, and fail when nested or imported

Actual parameters were matched with formal ones in reverse order, templates of other modules were not
found or their names resolved in the module which uses them, and an instantiation within another one was
refused.
---
 src/compiler/Parameters.cpp                   |  133 +-
 src/compiler/asn_compiler.yacc                |   22 +-
 src/compiler/autogen_copy/asn_compiler.hpp    | 3091 +++++++++--------
 .../include/fast_ber/compiler/Parameters.hpp  |   18 +-
 4 files changed, 1672 insertions(+), 1592 deletions(-)

diff --git a/src/compiler/Parameters.cpp b/src/compiler/Parameters.cpp
index 1bc66b8..aecdbaf 100644
--- a/src/compiler/Parameters.cpp
+++ b/src/compiler/Parameters.cpp
@@ -1,4 +1,5 @@
 #include "fast_ber/compiler/Parameters.hpp"
+#include "fast_ber/compiler/ReorderAssignments.hpp"
 #include "fast_ber/compiler/ResolveType.hpp"
 
 void resolve_parameterized(const Asn1Tree& tree, const Module& module, ChoiceType& choice,
@@ -14,7 +15,8 @@ void resolve_parameterized(const Asn1Tree& tree, const Module& module, SequenceT
 {
     for (ComponentType& component : sequence.components)
     {
-        resolve_parameterized(tree, module, component.named_type.type, parameters);
+        resolve_parameterized(
+            tree, module, component.components_of ? *component.components_of : component.named_type.type, parameters);
     }
 }
 void resolve_parameterized(const Asn1Tree& tree, const Module& module, SequenceOfType& sequence,
@@ -27,7 +29,8 @@ void resolve_parameterized(const Asn1Tree& tree, const Module& module, SetType&
 {
     for (ComponentType& component : set.components)
     {
-        resolve_parameterized(tree, module, component.named_type.type, parameters);
+        resolve_parameterized(
+            tree, module, component.components_of ? *component.components_of : component.named_type.type, parameters);
     }
 }
 void resolve_parameterized(const Asn1Tree& tree, const Module& module, SetOfType& set, const ParameterTypes& parameters)
@@ -75,22 +78,20 @@ void resolve_parameterized(const Asn1Tree& tree, const Module& module, Type& par
 {
     if (absl::holds_alternative<DefinedType>(param_type))
     {
-        const DefinedType& defined = absl::get<DefinedType>(param_type);
-        if (defined.parameters.size() > 0)
+        DefinedType& defined = absl::get<DefinedType>(param_type);
+        for (Type& parameter : defined.parameters)
         {
-            throw std::runtime_error("Nested parameters!");
+            resolve_parameterized(tree, module, parameter, parameters);
         }
-        else if (!defined.module_reference)
+
+        if (!defined.module_reference)
         {
             if (parameters.count(defined.type_reference) > 0)
             {
-                param_type = parameters.find(defined.type_reference)->second;
+                param_type = Type(parameters.find(defined.type_reference)->second);
                 return;
             }
         }
-
-        // param_type = type(resolve(tree, module.module_reference, defined));
-        // resolve_parameterized(tree, module, param_type, parameters);
     }
     else if (absl::holds_alternative<BuiltinType>(param_type))
     {
@@ -98,78 +99,113 @@ void resolve_parameterized(const Asn1Tree& tree, const Module& module, Type& par
     }
 }
 
-void parameterized_to_concrete(const Asn1Tree& tree, const Module& module, ChoiceType& choice)
+// Expansion of a template which is nested deeper than this does not end
+const int max_template_depth = 100;
+
+// The module which defines a type, which may be imported
+std::string find_home(const Asn1Tree& tree, const DefinedType& defined, const std::string& current_module_reference)
+{
+    std::string home = defined.module_reference ? *defined.module_reference : current_module_reference;
+    for (size_t hops = 0; hops < tree.modules.size() && !exists(tree, home, defined.type_reference); hops++)
+    {
+        for (const Module& module : tree.modules)
+        {
+            const auto imports_type = [&](const Import& import) {
+                return module.module_reference == home &&
+                       std::find(import.imported_types.begin(), import.imported_types.end(), defined.type_reference) !=
+                           import.imported_types.end();
+            };
+            const auto import = std::find_if(module.imports.begin(), module.imports.end(), imports_type);
+            if (import != module.imports.end())
+            {
+                home = import->module_reference;
+                break;
+            }
+        }
+    }
+    return home;
+}
+
+void parameterized_to_concrete(const Asn1Tree& tree, const Module& module, ChoiceType& choice, int depth)
 {
     for (NamedType& named_type : choice.choices)
     {
-        parameterized_to_concrete(tree, module, named_type.type);
+        parameterized_to_concrete(tree, module, named_type.type, depth);
     }
 }
-void parameterized_to_concrete(const Asn1Tree& tree, const Module& module, SequenceType& sequence)
+void parameterized_to_concrete(const Asn1Tree& tree, const Module& module, SequenceType& sequence, int depth)
 {
     for (ComponentType& component : sequence.components)
     {
-        parameterized_to_concrete(tree, module, component.named_type.type);
+        parameterized_to_concrete(
+            tree, module, component.components_of ? *component.components_of : component.named_type.type, depth);
     }
 }
-void parameterized_to_concrete(const Asn1Tree& tree, const Module& module, SequenceOfType& sequence)
+void parameterized_to_concrete(const Asn1Tree& tree, const Module& module, SequenceOfType& sequence, int depth)
 {
     Type& type = sequence.has_name ? sequence.named_type->type : *sequence.type;
-    parameterized_to_concrete(tree, module, type);
+    parameterized_to_concrete(tree, module, type, depth);
 }
-void parameterized_to_concrete(const Asn1Tree& tree, const Module& module, SetType& set)
+void parameterized_to_concrete(const Asn1Tree& tree, const Module& module, SetType& set, int depth)
 {
     for (ComponentType& component : set.components)
     {
-        parameterized_to_concrete(tree, module, component.named_type.type);
+        parameterized_to_concrete(
+            tree, module, component.components_of ? *component.components_of : component.named_type.type, depth);
     }
 }
-void parameterized_to_concrete(const Asn1Tree& tree, const Module& module, SetOfType& set)
+void parameterized_to_concrete(const Asn1Tree& tree, const Module& module, SetOfType& set, int depth)
 {
     Type& type = set.has_name ? set.named_type->type : *set.type;
-    parameterized_to_concrete(tree, module, type);
+    parameterized_to_concrete(tree, module, type, depth);
 }
-void parameterized_to_concrete(const Asn1Tree& tree, const Module& module, PrefixedType& prefixed_type)
+void parameterized_to_concrete(const Asn1Tree& tree, const Module& module, PrefixedType& prefixed_type, int depth)
 {
-    parameterized_to_concrete(tree, module, prefixed_type.tagged_type->type);
+    parameterized_to_concrete(tree, module, prefixed_type.tagged_type->type, depth);
 }
 
-void parameterized_to_concrete(const Asn1Tree& tree, const Module& module, BuiltinType& type)
+void parameterized_to_concrete(const Asn1Tree& tree, const Module& module, BuiltinType& type, int depth)
 {
     if (absl::holds_alternative<ChoiceType>(type))
     {
-        parameterized_to_concrete(tree, module, absl::get<ChoiceType>(type));
+        parameterized_to_concrete(tree, module, absl::get<ChoiceType>(type), depth);
     }
     else if (absl::holds_alternative<SequenceType>(type))
     {
-        parameterized_to_concrete(tree, module, absl::get<SequenceType>(type));
+        parameterized_to_concrete(tree, module, absl::get<SequenceType>(type), depth);
     }
     else if (absl::holds_alternative<SequenceOfType>(type))
     {
-        parameterized_to_concrete(tree, module, absl::get<SequenceOfType>(type));
+        parameterized_to_concrete(tree, module, absl::get<SequenceOfType>(type), depth);
     }
     else if (absl::holds_alternative<SetType>(type))
     {
-        parameterized_to_concrete(tree, module, absl::get<SetType>(type));
+        parameterized_to_concrete(tree, module, absl::get<SetType>(type), depth);
     }
     else if (absl::holds_alternative<SetOfType>(type))
     {
-        parameterized_to_concrete(tree, module, absl::get<SetOfType>(type));
+        parameterized_to_concrete(tree, module, absl::get<SetOfType>(type), depth);
     }
     else if (absl::holds_alternative<PrefixedType>(type))
     {
-        parameterized_to_concrete(tree, module, absl::get<PrefixedType>(type));
+        parameterized_to_concrete(tree, module, absl::get<PrefixedType>(type), depth);
     }
 }
 
-void parameterized_to_concrete(const Asn1Tree& tree, const Module& module, Type& param_type)
+void parameterized_to_concrete(const Asn1Tree& tree, const Module& module, Type& param_type, int depth)
 {
     if (absl::holds_alternative<DefinedType>(param_type))
     {
-        const DefinedType& defined = absl::get<DefinedType>(param_type);
+        const DefinedType defined = absl::get<DefinedType>(param_type);
         if (defined.parameters.size() > 0)
         {
-            const Assignment& parameter_template = resolve(tree, module.module_reference, defined);
+            if (depth > max_template_depth)
+            {
+                throw std::runtime_error("Parameterized type " + defined.type_reference + " contains itself");
+            }
+
+            const std::string home               = find_home(tree, defined, module.module_reference);
+            const Assignment& parameter_template = resolve(tree, home, defined.type_reference);
             if (parameter_template.parameters.size() != defined.parameters.size())
             {
                 throw std::runtime_error("Invalid number of parameters for parameterized assignment, expected " +
@@ -183,19 +219,44 @@ void parameterized_to_concrete(const Asn1Tree& tree, const Module& module, Type&
                 new_parameters[parameter_template.parameters[i].reference] = defined.parameters[i];
             }
 
-            param_type = type(parameter_template);
+            param_type = Type(type(parameter_template));
+            if (home != module.module_reference)
+            {
+                // The names within a template are names of the module of the template
+                qualify_names(param_type, home,
+                              [&](const std::string& name) { return new_parameters.count(name) > 0; });
+            }
             resolve_parameterized(tree, module, param_type, new_parameters);
+
+            // Both the template and its parameters may use parameterized types
+            parameterized_to_concrete(tree, module, param_type, depth + 1);
             return;
         }
     }
     else if (absl::holds_alternative<BuiltinType>(param_type))
     {
-        parameterized_to_concrete(tree, module, absl::get<BuiltinType>(param_type));
+        parameterized_to_concrete(tree, module, absl::get<BuiltinType>(param_type), depth);
     }
 }
 
 void remove_parameter_templates(Asn1Tree& tree)
 {
+    const Asn1Tree original = tree;
+    for (Module& module : tree.modules)
+    {
+        for (Import& import : module.imports)
+        {
+            const auto is_template = [&](const std::string& imported) {
+                const DefinedType defined{import.module_reference, imported, {}};
+                std::string       home = find_home(original, defined, import.module_reference);
+                return exists(original, home, imported) && resolve(original, home, imported).parameters.size() > 0;
+            };
+            import.imported_types.erase(
+                std::remove_if(import.imported_types.begin(), import.imported_types.end(), is_template),
+                import.imported_types.end());
+        }
+    }
+
     for (Module& module : tree.modules)
     {
         module.assignments.erase(
@@ -219,6 +280,10 @@ void resolve_parameters(Asn1Tree& tree)
                     parameterized_to_concrete(tree, module, type(assignment));
                 }
             }
+            else if (is_value(assignment) && assignment.parameters.size() == 0)
+            {
+                parameterized_to_concrete(tree, module, value(assignment).type);
+            }
         }
     }
 
diff --git a/src/compiler/asn_compiler.yacc b/src/compiler/asn_compiler.yacc
index 086c4c6..03eb2e7 100644
--- a/src/compiler/asn_compiler.yacc
+++ b/src/compiler/asn_compiler.yacc
@@ -218,7 +218,7 @@
 %type<BuiltinType>       BuiltinType;
 %type<DefinedType>       DefinedType;
 %type<DefinedType>       ExternalTypeReference;
-%type<std::string>       SimpleDefinedType;
+%type<DefinedType>       SimpleDefinedType;
 %type<DefinedType>       ParameterizedType;
 %type<EnumeratedType>    Enumerations;
 %type<EnumeratedType>    Enumeration;
@@ -678,8 +678,9 @@ ParameterizedReference:
 
 SimpleDefinedType:
     ExternalTypeReference
-|   typereference
     { $$ = $1; }
+|   typereference
+    { $$ = DefinedType{absl::nullopt, $1, {}}; }
 
 SimpleDefinedValue:
     ExternalValueReference
@@ -917,7 +918,7 @@ DefinedValue:
 
 ParameterizedType:
     SimpleDefinedType "{" ActualParameterList "}"
-    { $$ = DefinedType{ absl::nullopt, $1, $3}; }
+    { $$ = DefinedType{$1.module_reference, $1.type_reference, $3}; }
 
 ParameterizedValue:
     SimpleDefinedValue "{" ActualParameterList "}"
@@ -926,18 +927,29 @@ ActualParameterList:
     ActualParameter 
     { $$.push_back($1); }
 |   ActualParameter "," ActualParameterList
-    { $$ = $3; $$.push_back($1); }
+    { $$ = $3; $$.insert($$.begin(), $1); }
 
 ActualParameter:
     Type
     { $$ = $1; }
-|   ValueWithoutTypeIdentifier
+|   ActualValue
     { std::cerr << "Warning: Not yet dealing with value paramaters\n"; }
 //|   ValueSet
 |   DefinedObjectClass
 //|   Object
 //|   ObjectSet 
 
+// NULL and a list of values are not distinguishable from types
+ActualValue:
+    BooleanValue
+|   bstring
+|   hstring
+|   cstring
+|   DefinedValue
+|   SignedNumber
+|   realnumber
+|   "{" SequenceOfValues "}"
+
 NonParameterizedTypeName:
     ExternalTypeReference
 |   typereference
diff --git a/src/compiler/autogen_copy/asn_compiler.hpp b/src/compiler/autogen_copy/asn_compiler.hpp
index da0796d..587aa43 100644
--- a/src/compiler/autogen_copy/asn_compiler.hpp
+++ b/src/compiler/autogen_copy/asn_compiler.hpp
@@ -693,6 +693,7 @@ namespace yy {
       // DateType
       char dummy13[sizeof (DateType)];
 
+      // SimpleDefinedType
       // DefinedType
       // ParameterizedType
       // ExternalTypeReference
@@ -845,7 +846,6 @@ namespace yy {
       // GENERIC_IDENTIFIER_LOWERCASE
       // UsefulObjectClassReference
       // FieldName
-      // SimpleDefinedType
       // ModuleIdentifier
       // GlobalModuleReference
       // Symbol
@@ -1376,126 +1376,127 @@ namespace yy {
         S_ParameterizedValue = 255,              // ParameterizedValue
         S_ActualParameterList = 256,             // ActualParameterList
         S_ActualParameter = 257,                 // ActualParameter
-        S_ExternalTypeReference = 258,           // ExternalTypeReference
-        S_ExternalValueReference = 259,          // ExternalValueReference
-        S_TypeAssignment = 260,                  // TypeAssignment
-        S_ValueAssignment = 261,                 // ValueAssignment
-        S_ValueSetTypeAssignment = 262,          // ValueSetTypeAssignment
-        S_Type = 263,                            // Type
-        S_BuiltinType = 264,                     // BuiltinType
-        S_NamedType = 265,                       // NamedType
-        S_ValueWithoutTypeIdentifier = 266,      // ValueWithoutTypeIdentifier
-        S_Value = 267,                           // Value
-        S_ValueCommaListChoice = 268,            // ValueCommaListChoice
-        S_ValueChoice = 269,                     // ValueChoice
-        S_ValueSet = 270,                        // ValueSet
-        S_SequenceOfValues = 271,                // SequenceOfValues
-        S_BooleanType = 272,                     // BooleanType
-        S_BooleanValue = 273,                    // BooleanValue
-        S_IntegerType = 274,                     // IntegerType
-        S_NamedNumberList = 275,                 // NamedNumberList
-        S_NamedNumber = 276,                     // NamedNumber
-        S_SignedNumber = 277,                    // SignedNumber
-        S_EnumeratedType = 278,                  // EnumeratedType
-        S_Enumerations = 279,                    // Enumerations
-        S_Enumeration = 280,                     // Enumeration
-        S_EnumerationItem = 281,                 // EnumerationItem
-        S_RealType = 282,                        // RealType
-        S_BitStringType = 283,                   // BitStringType
-        S_NamedBitList = 284,                    // NamedBitList
-        S_NamedBit = 285,                        // NamedBit
-        S_OctetStringType = 286,                 // OctetStringType
-        S_NullType = 287,                        // NullType
-        S_SequenceType = 288,                    // SequenceType
-        S_ComponentTypeLists = 289,              // ComponentTypeLists
-        S_ComponentTypeList = 290,               // ComponentTypeList
-        S_ComponentType = 291,                   // ComponentType
-        S_SequenceOfType = 292,                  // SequenceOfType
-        S_SetType = 293,                         // SetType
-        S_SetOfType = 294,                       // SetOfType
-        S_ChoiceType = 295,                      // ChoiceType
-        S_AlternativeTypeLists = 296,            // AlternativeTypeLists
-        S_RootAlternativeTypeList = 297,         // RootAlternativeTypeList
-        S_AlternativeTypeList = 298,             // AlternativeTypeList
-        S_SelectionType = 299,                   // SelectionType
-        S_PrefixedType = 300,                    // PrefixedType
-        S_TaggedType = 301,                      // TaggedType
-        S_Tag = 302,                             // Tag
-        S_EncodingReference = 303,               // EncodingReference
-        S_ClassNumber = 304,                     // ClassNumber
-        S_Class = 305,                           // Class
-        S_ObjectIdentifierType = 306,            // ObjectIdentifierType
-        S_ObjectIdentifierValue = 307,           // ObjectIdentifierValue
-        S_ObjIdComponentsList = 308,             // ObjIdComponentsList
-        S_ObjIdComponents = 309,                 // ObjIdComponents
-        S_NameForm = 310,                        // NameForm
-        S_NumberForm = 311,                      // NumberForm
-        S_NameAndNumberForm = 312,               // NameAndNumberForm
-        S_RelativeOIDType = 313,                 // RelativeOIDType
-        S_IRIType = 314,                         // IRIType
-        S_IRIValue = 315,                        // IRIValue
-        S_FirstArcIdentifier = 316,              // FirstArcIdentifier
-        S_SubsequentArcIdentifier = 317,         // SubsequentArcIdentifier
-        S_ArcIdentifier = 318,                   // ArcIdentifier
-        S_RelativeIRIType = 319,                 // RelativeIRIType
-        S_EmbeddedPDVType = 320,                 // EmbeddedPDVType
-        S_ExternalType = 321,                    // ExternalType
-        S_TimeType = 322,                        // TimeType
-        S_TimeValue = 323,                       // TimeValue
-        S_DateType = 324,                        // DateType
-        S_TimeOfDayType = 325,                   // TimeOfDayType
-        S_DateTimeType = 326,                    // DateTimeType
-        S_DurationType = 327,                    // DurationType
-        S_CharacterStringType = 328,             // CharacterStringType
-        S_RestrictedCharacterStringType = 329,   // RestrictedCharacterStringType
-        S_UnrestrictedCharacterStringType = 330, // UnrestrictedCharacterStringType
-        S_ConstrainedType = 331,                 // ConstrainedType
-        S_TypeWithConstraint = 332,              // TypeWithConstraint
-        S_Constraint = 333,                      // Constraint
-        S_ConstraintSpec = 334,                  // ConstraintSpec
-        S_SubtypeConstraint = 335,               // SubtypeConstraint
-        S_ElementSetSpecs = 336,                 // ElementSetSpecs
-        S_ElementSetSpec = 337,                  // ElementSetSpec
-        S_Unions = 338,                          // Unions
-        S_UElems = 339,                          // UElems
-        S_Intersections = 340,                   // Intersections
-        S_IElems = 341,                          // IElems
-        S_IntersectionElements = 342,            // IntersectionElements
-        S_Elems = 343,                           // Elems
-        S_Exclusions = 344,                      // Exclusions
-        S_UnionMark = 345,                       // UnionMark
-        S_IntersectionMark = 346,                // IntersectionMark
-        S_Elements = 347,                        // Elements
-        S_SubtypeElements = 348,                 // SubtypeElements
-        S_SingleValue = 349,                     // SingleValue
-        S_ContainedSubtype = 350,                // ContainedSubtype
-        S_Includes = 351,                        // Includes
-        S_ValueRange = 352,                      // ValueRange
-        S_LowerEndpoint = 353,                   // LowerEndpoint
-        S_UpperEndpoint = 354,                   // UpperEndpoint
-        S_LowerEndValue = 355,                   // LowerEndValue
-        S_UpperEndValue = 356,                   // UpperEndValue
-        S_SizeConstraint = 357,                  // SizeConstraint
-        S_TypeConstraint = 358,                  // TypeConstraint
-        S_PermittedAlphabet = 359,               // PermittedAlphabet
-        S_InnerTypeConstraints = 360,            // InnerTypeConstraints
-        S_SingleTypeConstraint = 361,            // SingleTypeConstraint
-        S_MultipleTypeConstraints = 362,         // MultipleTypeConstraints
-        S_TypeConstraints = 363,                 // TypeConstraints
-        S_NamedConstraint = 364,                 // NamedConstraint
-        S_ComponentConstraint = 365,             // ComponentConstraint
-        S_ValueConstraint = 366,                 // ValueConstraint
-        S_PresenceConstraint = 367,              // PresenceConstraint
-        S_PatternConstraint = 368,               // PatternConstraint
-        S_PropertySettings = 369,                // PropertySettings
-        S_ExceptionSpec = 370,                   // ExceptionSpec
-        S_ExceptionIdentification = 371,         // ExceptionIdentification
-        S_typereference = 372,                   // typereference
-        S_identifier = 373,                      // identifier
-        S_valuereference = 374,                  // valuereference
-        S_modulereference = 375,                 // modulereference
-        S_objectclassreference = 376,            // objectclassreference
-        S_word = 377                             // word
+        S_ActualValue = 258,                     // ActualValue
+        S_ExternalTypeReference = 259,           // ExternalTypeReference
+        S_ExternalValueReference = 260,          // ExternalValueReference
+        S_TypeAssignment = 261,                  // TypeAssignment
+        S_ValueAssignment = 262,                 // ValueAssignment
+        S_ValueSetTypeAssignment = 263,          // ValueSetTypeAssignment
+        S_Type = 264,                            // Type
+        S_BuiltinType = 265,                     // BuiltinType
+        S_NamedType = 266,                       // NamedType
+        S_ValueWithoutTypeIdentifier = 267,      // ValueWithoutTypeIdentifier
+        S_Value = 268,                           // Value
+        S_ValueCommaListChoice = 269,            // ValueCommaListChoice
+        S_ValueChoice = 270,                     // ValueChoice
+        S_ValueSet = 271,                        // ValueSet
+        S_SequenceOfValues = 272,                // SequenceOfValues
+        S_BooleanType = 273,                     // BooleanType
+        S_BooleanValue = 274,                    // BooleanValue
+        S_IntegerType = 275,                     // IntegerType
+        S_NamedNumberList = 276,                 // NamedNumberList
+        S_NamedNumber = 277,                     // NamedNumber
+        S_SignedNumber = 278,                    // SignedNumber
+        S_EnumeratedType = 279,                  // EnumeratedType
+        S_Enumerations = 280,                    // Enumerations
+        S_Enumeration = 281,                     // Enumeration
+        S_EnumerationItem = 282,                 // EnumerationItem
+        S_RealType = 283,                        // RealType
+        S_BitStringType = 284,                   // BitStringType
+        S_NamedBitList = 285,                    // NamedBitList
+        S_NamedBit = 286,                        // NamedBit
+        S_OctetStringType = 287,                 // OctetStringType
+        S_NullType = 288,                        // NullType
+        S_SequenceType = 289,                    // SequenceType
+        S_ComponentTypeLists = 290,              // ComponentTypeLists
+        S_ComponentTypeList = 291,               // ComponentTypeList
+        S_ComponentType = 292,                   // ComponentType
+        S_SequenceOfType = 293,                  // SequenceOfType
+        S_SetType = 294,                         // SetType
+        S_SetOfType = 295,                       // SetOfType
+        S_ChoiceType = 296,                      // ChoiceType
+        S_AlternativeTypeLists = 297,            // AlternativeTypeLists
+        S_RootAlternativeTypeList = 298,         // RootAlternativeTypeList
+        S_AlternativeTypeList = 299,             // AlternativeTypeList
+        S_SelectionType = 300,                   // SelectionType
+        S_PrefixedType = 301,                    // PrefixedType
+        S_TaggedType = 302,                      // TaggedType
+        S_Tag = 303,                             // Tag
+        S_EncodingReference = 304,               // EncodingReference
+        S_ClassNumber = 305,                     // ClassNumber
+        S_Class = 306,                           // Class
+        S_ObjectIdentifierType = 307,            // ObjectIdentifierType
+        S_ObjectIdentifierValue = 308,           // ObjectIdentifierValue
+        S_ObjIdComponentsList = 309,             // ObjIdComponentsList
+        S_ObjIdComponents = 310,                 // ObjIdComponents
+        S_NameForm = 311,                        // NameForm
+        S_NumberForm = 312,                      // NumberForm
+        S_NameAndNumberForm = 313,               // NameAndNumberForm
+        S_RelativeOIDType = 314,                 // RelativeOIDType
+        S_IRIType = 315,                         // IRIType
+        S_IRIValue = 316,                        // IRIValue
+        S_FirstArcIdentifier = 317,              // FirstArcIdentifier
+        S_SubsequentArcIdentifier = 318,         // SubsequentArcIdentifier
+        S_ArcIdentifier = 319,                   // ArcIdentifier
+        S_RelativeIRIType = 320,                 // RelativeIRIType
+        S_EmbeddedPDVType = 321,                 // EmbeddedPDVType
+        S_ExternalType = 322,                    // ExternalType
+        S_TimeType = 323,                        // TimeType
+        S_TimeValue = 324,                       // TimeValue
+        S_DateType = 325,                        // DateType
+        S_TimeOfDayType = 326,                   // TimeOfDayType
+        S_DateTimeType = 327,                    // DateTimeType
+        S_DurationType = 328,                    // DurationType
+        S_CharacterStringType = 329,             // CharacterStringType
+        S_RestrictedCharacterStringType = 330,   // RestrictedCharacterStringType
+        S_UnrestrictedCharacterStringType = 331, // UnrestrictedCharacterStringType
+        S_ConstrainedType = 332,                 // ConstrainedType
+        S_TypeWithConstraint = 333,              // TypeWithConstraint
+        S_Constraint = 334,                      // Constraint
+        S_ConstraintSpec = 335,                  // ConstraintSpec
+        S_SubtypeConstraint = 336,               // SubtypeConstraint
+        S_ElementSetSpecs = 337,                 // ElementSetSpecs
+        S_ElementSetSpec = 338,                  // ElementSetSpec
+        S_Unions = 339,                          // Unions
+        S_UElems = 340,                          // UElems
+        S_Intersections = 341,                   // Intersections
+        S_IElems = 342,                          // IElems
+        S_IntersectionElements = 343,            // IntersectionElements
+        S_Elems = 344,                           // Elems
+        S_Exclusions = 345,                      // Exclusions
+        S_UnionMark = 346,                       // UnionMark
+        S_IntersectionMark = 347,                // IntersectionMark
+        S_Elements = 348,                        // Elements
+        S_SubtypeElements = 349,                 // SubtypeElements
+        S_SingleValue = 350,                     // SingleValue
+        S_ContainedSubtype = 351,                // ContainedSubtype
+        S_Includes = 352,                        // Includes
+        S_ValueRange = 353,                      // ValueRange
+        S_LowerEndpoint = 354,                   // LowerEndpoint
+        S_UpperEndpoint = 355,                   // UpperEndpoint
+        S_LowerEndValue = 356,                   // LowerEndValue
+        S_UpperEndValue = 357,                   // UpperEndValue
+        S_SizeConstraint = 358,                  // SizeConstraint
+        S_TypeConstraint = 359,                  // TypeConstraint
+        S_PermittedAlphabet = 360,               // PermittedAlphabet
+        S_InnerTypeConstraints = 361,            // InnerTypeConstraints
+        S_SingleTypeConstraint = 362,            // SingleTypeConstraint
+        S_MultipleTypeConstraints = 363,         // MultipleTypeConstraints
+        S_TypeConstraints = 364,                 // TypeConstraints
+        S_NamedConstraint = 365,                 // NamedConstraint
+        S_ComponentConstraint = 366,             // ComponentConstraint
+        S_ValueConstraint = 367,                 // ValueConstraint
+        S_PresenceConstraint = 368,              // PresenceConstraint
+        S_PatternConstraint = 369,               // PatternConstraint
+        S_PropertySettings = 370,                // PropertySettings
+        S_ExceptionSpec = 371,                   // ExceptionSpec
+        S_ExceptionIdentification = 372,         // ExceptionIdentification
+        S_typereference = 373,                   // typereference
+        S_identifier = 374,                      // identifier
+        S_valuereference = 375,                  // valuereference
+        S_modulereference = 376,                 // modulereference
+        S_objectclassreference = 377,            // objectclassreference
+        S_word = 378                             // word
       };
     };
 
@@ -1596,6 +1597,7 @@ namespace yy {
         value.move< DateType > (std::move (that.value));
         break;
 
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
       case symbol_kind::S_DefinedType: // DefinedType
       case symbol_kind::S_ParameterizedType: // ParameterizedType
       case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
@@ -1788,7 +1790,6 @@ namespace yy {
       case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
       case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
       case symbol_kind::S_FieldName: // FieldName
-      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
       case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
       case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
       case symbol_kind::S_Symbol: // Symbol
@@ -2878,6 +2879,7 @@ switch (yykind)
         value.template destroy< DateType > ();
         break;
 
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
       case symbol_kind::S_DefinedType: // DefinedType
       case symbol_kind::S_ParameterizedType: // ParameterizedType
       case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
@@ -3070,7 +3072,6 @@ switch (yykind)
       case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
       case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
       case symbol_kind::S_FieldName: // FieldName
-      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
       case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
       case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
       case symbol_kind::S_Symbol: // Symbol
@@ -5911,8 +5912,8 @@ switch (yykind)
     /// Constants.
     enum
     {
-      yylast_ = 5042,     ///< Last index in yytable_.
-      yynnts_ = 225,  ///< Number of nonterminal symbols.
+      yylast_ = 5004,     ///< Last index in yytable_.
+      yynnts_ = 226,  ///< Number of nonterminal symbols.
       yyfinal_ = 6 ///< Termination state number.
     };
 
@@ -6057,6 +6058,7 @@ switch (yykind)
         value.copy< DateType > (YY_MOVE (that.value));
         break;
 
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
       case symbol_kind::S_DefinedType: // DefinedType
       case symbol_kind::S_ParameterizedType: // ParameterizedType
       case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
@@ -6249,7 +6251,6 @@ switch (yykind)
       case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
       case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
       case symbol_kind::S_FieldName: // FieldName
-      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
       case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
       case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
       case symbol_kind::S_Symbol: // Symbol
@@ -6413,6 +6414,7 @@ switch (yykind)
         value.move< DateType > (YY_MOVE (s.value));
         break;
 
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
       case symbol_kind::S_DefinedType: // DefinedType
       case symbol_kind::S_ParameterizedType: // ParameterizedType
       case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
@@ -6605,7 +6607,6 @@ switch (yykind)
       case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
       case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
       case symbol_kind::S_FieldName: // FieldName
-      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
       case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
       case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
       case symbol_kind::S_Symbol: // Symbol
@@ -6976,6 +6977,7 @@ namespace yy {
         value.YY_MOVE_OR_COPY< DateType > (YY_MOVE (that.value));
         break;
 
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
       case symbol_kind::S_DefinedType: // DefinedType
       case symbol_kind::S_ParameterizedType: // ParameterizedType
       case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
@@ -7168,7 +7170,6 @@ namespace yy {
       case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
       case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
       case symbol_kind::S_FieldName: // FieldName
-      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
       case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
       case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
       case symbol_kind::S_Symbol: // Symbol
@@ -7316,6 +7317,7 @@ namespace yy {
         value.move< DateType > (YY_MOVE (that.value));
         break;
 
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
       case symbol_kind::S_DefinedType: // DefinedType
       case symbol_kind::S_ParameterizedType: // ParameterizedType
       case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
@@ -7508,7 +7510,6 @@ namespace yy {
       case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
       case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
       case symbol_kind::S_FieldName: // FieldName
-      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
       case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
       case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
       case symbol_kind::S_Symbol: // Symbol
@@ -7656,6 +7657,7 @@ namespace yy {
         value.copy< DateType > (that.value);
         break;
 
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
       case symbol_kind::S_DefinedType: // DefinedType
       case symbol_kind::S_ParameterizedType: // ParameterizedType
       case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
@@ -7848,7 +7850,6 @@ namespace yy {
       case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
       case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
       case symbol_kind::S_FieldName: // FieldName
-      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
       case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
       case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
       case symbol_kind::S_Symbol: // Symbol
@@ -7995,6 +7996,7 @@ namespace yy {
         value.move< DateType > (that.value);
         break;
 
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
       case symbol_kind::S_DefinedType: // DefinedType
       case symbol_kind::S_ParameterizedType: // ParameterizedType
       case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
@@ -8187,7 +8189,6 @@ namespace yy {
       case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
       case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
       case symbol_kind::S_FieldName: // FieldName
-      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
       case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
       case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
       case symbol_kind::S_Symbol: // Symbol
@@ -8579,6 +8580,7 @@ namespace yy {
         yylhs.value.emplace< DateType > ();
         break;
 
+      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
       case symbol_kind::S_DefinedType: // DefinedType
       case symbol_kind::S_ParameterizedType: // ParameterizedType
       case symbol_kind::S_ExternalTypeReference: // ExternalTypeReference
@@ -8771,7 +8773,6 @@ namespace yy {
       case symbol_kind::S_GENERIC_IDENTIFIER_LOWERCASE: // GENERIC_IDENTIFIER_LOWERCASE
       case symbol_kind::S_UsefulObjectClassReference: // UsefulObjectClassReference
       case symbol_kind::S_FieldName: // FieldName
-      case symbol_kind::S_SimpleDefinedType: // SimpleDefinedType
       case symbol_kind::S_ModuleIdentifier: // ModuleIdentifier
       case symbol_kind::S_GlobalModuleReference: // GlobalModuleReference
       case symbol_kind::S_Symbol: // Symbol
@@ -9022,8 +9023,12 @@ namespace yy {
     { feature_not_implemented(context_.location, context_.asn1_tree, "InstanceOfType"); }
     break;
 
+  case 115: // SimpleDefinedType: ExternalTypeReference
+    { yylhs.value.as < DefinedType > () = yystack_[0].value.as < DefinedType > (); }
+    break;
+
   case 116: // SimpleDefinedType: typereference
-    { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
+    { yylhs.value.as < DefinedType > () = DefinedType{absl::nullopt, yystack_[0].value.as < std::string > (), {}}; }
     break;
 
   case 122: // UserDefinedConstraint: CONSTRAINED BY "{" UserDefinedConstraintParameter "}"
@@ -9181,7 +9186,7 @@ namespace yy {
     break;
 
   case 200: // ParameterizedType: SimpleDefinedType "{" ActualParameterList "}"
-    { yylhs.value.as < DefinedType > () = DefinedType{ absl::nullopt, yystack_[3].value.as < std::string > (), yystack_[1].value.as < std::vector<Type> > ()}; }
+    { yylhs.value.as < DefinedType > () = DefinedType{yystack_[3].value.as < DefinedType > ().module_reference, yystack_[3].value.as < DefinedType > ().type_reference, yystack_[1].value.as < std::vector<Type> > ()}; }
     break;
 
   case 202: // ActualParameterList: ActualParameter
@@ -9189,758 +9194,758 @@ namespace yy {
     break;
 
   case 203: // ActualParameterList: ActualParameter "," ActualParameterList
-    { yylhs.value.as < std::vector<Type> > () = yystack_[0].value.as < std::vector<Type> > (); yylhs.value.as < std::vector<Type> > ().push_back(yystack_[2].value.as < Type > ()); }
+    { yylhs.value.as < std::vector<Type> > () = yystack_[0].value.as < std::vector<Type> > (); yylhs.value.as < std::vector<Type> > ().insert(yylhs.value.as < std::vector<Type> > ().begin(), yystack_[2].value.as < Type > ()); }
     break;
 
   case 204: // ActualParameter: Type
     { yylhs.value.as < Type > () = yystack_[0].value.as < Type > (); }
     break;
 
-  case 205: // ActualParameter: ValueWithoutTypeIdentifier
+  case 205: // ActualParameter: ActualValue
     { std::cerr << "Warning: Not yet dealing with value paramaters\n"; }
     break;
 
-  case 207: // ExternalTypeReference: typereference "." typereference
+  case 215: // ExternalTypeReference: typereference "." typereference
     { yylhs.value.as < DefinedType > () = DefinedType{yystack_[2].value.as < std::string > (), yystack_[0].value.as < std::string > (), {}}; }
     break;
 
-  case 209: // TypeAssignment: typereference "::=" Type
+  case 217: // TypeAssignment: typereference "::=" Type
     { yylhs.value.as < Assignment > () = Assignment{ yystack_[2].value.as < std::string > (), TypeAssignment{yystack_[0].value.as < Type > ()}, {} }; }
     break;
 
-  case 210: // ValueAssignment: valuereference Type "::=" Value
+  case 218: // ValueAssignment: valuereference Type "::=" Value
     { yylhs.value.as < Assignment > () = Assignment{ yystack_[3].value.as < std::string > (), ValueAssignment{yystack_[2].value.as < Type > (), yystack_[0].value.as < Value > ()}, {} }; }
     break;
 
-  case 211: // ValueSetTypeAssignment: typereference Type "::=" ValueSet
+  case 219: // ValueSetTypeAssignment: typereference Type "::=" ValueSet
     { yylhs.value.as < Assignment > () = Assignment{ yystack_[3].value.as < std::string > (), TypeAssignment{yystack_[2].value.as < Type > ()}, {} }; }
     break;
 
-  case 212: // Type: BuiltinType
+  case 220: // Type: BuiltinType
     { yylhs.value.as < Type > () = yystack_[0].value.as < BuiltinType > (); }
     break;
 
-  case 213: // Type: ConstrainedType
+  case 221: // Type: ConstrainedType
     { yylhs.value.as < Type > () = yystack_[0].value.as < Type > (); }
     break;
 
-  case 214: // Type: DefinedType
+  case 222: // Type: DefinedType
     { yylhs.value.as < Type > () = yystack_[0].value.as < DefinedType > (); }
     break;
 
-  case 215: // Type: SelectionType
+  case 223: // Type: SelectionType
     { feature_not_implemented(context_.location, context_.asn1_tree, "SelectionType"); }
     break;
 
-  case 216: // Type: TypeFromObject
+  case 224: // Type: TypeFromObject
     { feature_not_implemented(context_.location, context_.asn1_tree, "TypeFromObject"); }
     break;
 
-  case 217: // BuiltinType: ANY
+  case 225: // BuiltinType: ANY
         { yylhs.value.as < BuiltinType > () = AnyType(); }
     break;
 
-  case 218: // BuiltinType: BitStringType
+  case 226: // BuiltinType: BitStringType
                   { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < BitStringType > (); }
     break;
 
-  case 219: // BuiltinType: BooleanType
+  case 227: // BuiltinType: BooleanType
                 { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < BooleanType > (); }
     break;
 
-  case 220: // BuiltinType: CharacterStringType
+  case 228: // BuiltinType: CharacterStringType
                         { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < CharacterStringType > (); }
     break;
 
-  case 221: // BuiltinType: ChoiceType
+  case 229: // BuiltinType: ChoiceType
                { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < ChoiceType > (); }
     break;
 
-  case 222: // BuiltinType: DateType
+  case 230: // BuiltinType: DateType
              { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < DateType > (); feature_not_implemented(context_.location, context_.asn1_tree, "DateType"); }
     break;
 
-  case 223: // BuiltinType: DateTimeType
+  case 231: // BuiltinType: DateTimeType
                  { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < DateTimeType > (); feature_not_implemented(context_.location, context_.asn1_tree, "DateTimeType"); }
     break;
 
-  case 224: // BuiltinType: DurationType
+  case 232: // BuiltinType: DurationType
                  { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < DurationType > (); feature_not_implemented(context_.location, context_.asn1_tree, "DurationType"); }
     break;
 
-  case 225: // BuiltinType: EmbeddedPDVType
+  case 233: // BuiltinType: EmbeddedPDVType
                     { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < EmbeddedPDVType > (); feature_not_implemented(context_.location, context_.asn1_tree, "EmbeddedPDVType"); }
     break;
 
-  case 226: // BuiltinType: EnumeratedType
+  case 234: // BuiltinType: EnumeratedType
                    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < EnumeratedType > (); }
     break;
 
-  case 227: // BuiltinType: ExternalType
+  case 235: // BuiltinType: ExternalType
                  { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < ExternalType > (); feature_not_implemented(context_.location, context_.asn1_tree, "ExternalType"); }
     break;
 
-  case 228: // BuiltinType: GeneralizedTime
+  case 236: // BuiltinType: GeneralizedTime
                     { yylhs.value.as < BuiltinType > () = GeneralizedTimeType(); }
     break;
 
-  case 229: // BuiltinType: InstanceOfType
+  case 237: // BuiltinType: InstanceOfType
                    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < InstanceOfType > (); feature_not_implemented(context_.location, context_.asn1_tree, "InstanceOfType"); }
     break;
 
-  case 230: // BuiltinType: IntegerType
+  case 238: // BuiltinType: IntegerType
                 { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < IntegerType > (); }
     break;
 
-  case 231: // BuiltinType: IRIType
+  case 239: // BuiltinType: IRIType
             { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < IRIType > (); feature_not_implemented(context_.location, context_.asn1_tree, "IRIType"); }
     break;
 
-  case 232: // BuiltinType: NullType
+  case 240: // BuiltinType: NullType
              { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < NullType > (); }
     break;
 
-  case 233: // BuiltinType: ObjectClassFieldType
+  case 241: // BuiltinType: ObjectClassFieldType
                          { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < ObjectClassFieldType > (); feature_not_implemented(context_.location, context_.asn1_tree, "ObjectClassFieldType"); }
     break;
 
-  case 234: // BuiltinType: ObjectDescriptor
+  case 242: // BuiltinType: ObjectDescriptor
                      { yylhs.value.as < BuiltinType > () = ObjectDescriptorType(); }
     break;
 
-  case 235: // BuiltinType: ObjectIdentifierType
+  case 243: // BuiltinType: ObjectIdentifierType
                          { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < ObjectIdentifierType > (); }
     break;
 
-  case 236: // BuiltinType: OctetStringType
+  case 244: // BuiltinType: OctetStringType
                     { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < OctetStringType > (); }
     break;
 
-  case 237: // BuiltinType: RealType
+  case 245: // BuiltinType: RealType
              { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < RealType > (); feature_not_implemented(context_.location, context_.asn1_tree, "RealType"); }
     break;
 
-  case 238: // BuiltinType: RelativeIRIType
+  case 246: // BuiltinType: RelativeIRIType
                     { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < RelativeIRIType > (); feature_not_implemented(context_.location, context_.asn1_tree, "RelativeIRIType"); }
     break;
 
-  case 239: // BuiltinType: RelativeOIDType
+  case 247: // BuiltinType: RelativeOIDType
                     { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < RelativeOIDType > (); feature_not_implemented(context_.location, context_.asn1_tree, "RelativeOIDType"); }
     break;
 
-  case 240: // BuiltinType: SequenceType
+  case 248: // BuiltinType: SequenceType
                  { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < SequenceType > (); }
     break;
 
-  case 241: // BuiltinType: SequenceOfType
+  case 249: // BuiltinType: SequenceOfType
                    { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < SequenceOfType > (); }
     break;
 
-  case 242: // BuiltinType: SetType
+  case 250: // BuiltinType: SetType
             { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < SetType > (); }
     break;
 
-  case 243: // BuiltinType: SetOfType
+  case 251: // BuiltinType: SetOfType
               { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < SetOfType > (); }
     break;
 
-  case 244: // BuiltinType: PrefixedType
+  case 252: // BuiltinType: PrefixedType
                  { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < PrefixedType > (); }
     break;
 
-  case 245: // BuiltinType: TimeType
+  case 253: // BuiltinType: TimeType
              { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < TimeType > (); feature_not_implemented(context_.location, context_.asn1_tree, "TimeType"); }
     break;
 
-  case 246: // BuiltinType: TimeOfDayType
+  case 254: // BuiltinType: TimeOfDayType
                   { yylhs.value.as < BuiltinType > () = yystack_[0].value.as < TimeOfDayType > (); feature_not_implemented(context_.location, context_.asn1_tree, "TimeOfDayType"); }
     break;
 
-  case 247: // BuiltinType: UTCTime
+  case 255: // BuiltinType: UTCTime
             { yylhs.value.as < BuiltinType > () = UTCTimeType(); feature_not_implemented(context_.location, context_.asn1_tree, "UTCTime"); }
     break;
 
-  case 248: // NamedType: identifier Type
+  case 256: // NamedType: identifier Type
     { yylhs.value.as < NamedType > () = NamedType{ yystack_[1].value.as < std::string > (), yystack_[0].value.as < Type > () }; }
     break;
 
-  case 249: // ValueWithoutTypeIdentifier: BooleanValue
+  case 257: // ValueWithoutTypeIdentifier: BooleanValue
     { std::cerr << std::string("Warning: Unhandled field: BooleanValue\n"); }
     break;
 
-  case 250: // ValueWithoutTypeIdentifier: IRIValue
+  case 258: // ValueWithoutTypeIdentifier: IRIValue
     { std::cerr << std::string("Warning: Unhandled field: IRIValue\n"); }
     break;
 
-  case 251: // ValueWithoutTypeIdentifier: ASN_NULL
+  case 259: // ValueWithoutTypeIdentifier: ASN_NULL
     { std::cerr << std::string("Warning: Unhandled field: ASN_NULL\n"); }
     break;
 
-  case 252: // ValueWithoutTypeIdentifier: TimeValue
+  case 260: // ValueWithoutTypeIdentifier: TimeValue
     { std::cerr << std::string("Warning: Unhandled field: TimeValue\n"); }
     break;
 
-  case 253: // ValueWithoutTypeIdentifier: bstring
+  case 261: // ValueWithoutTypeIdentifier: bstring
     { yylhs.value.as < Value > ().value_selection = BitStringValue{yystack_[0].value.as < std::string > ()}; }
     break;
 
-  case 254: // ValueWithoutTypeIdentifier: hstring
+  case 262: // ValueWithoutTypeIdentifier: hstring
     { yylhs.value.as < Value > ().value_selection = HexStringValue{yystack_[0].value.as < std::string > ()}; }
     break;
 
-  case 255: // ValueWithoutTypeIdentifier: cstring
+  case 263: // ValueWithoutTypeIdentifier: cstring
     { yylhs.value.as < Value > ().value_selection = CharStringValue{yystack_[0].value.as < std::string > ()}; }
     break;
 
-  case 256: // ValueWithoutTypeIdentifier: CONTAINING Value
+  case 264: // ValueWithoutTypeIdentifier: CONTAINING Value
     { std::cerr << std::string("Warning: Unhandled field: CONTAINING\n"); }
     break;
 
-  case 257: // ValueWithoutTypeIdentifier: DefinedValue
+  case 265: // ValueWithoutTypeIdentifier: DefinedValue
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < DefinedValue > (); }
     break;
 
-  case 258: // ValueWithoutTypeIdentifier: GENERIC_IDENTIFIER_LOWERCASE "(" number ")"
+  case 266: // ValueWithoutTypeIdentifier: GENERIC_IDENTIFIER_LOWERCASE "(" number ")"
     { yylhs.value.as < Value > ().value_selection = NamedNumber{yystack_[3].value.as < std::string > (), yystack_[1].value.as < int64_t > ()}; }
     break;
 
-  case 260: // ValueWithoutTypeIdentifier: SignedNumber
+  case 268: // ValueWithoutTypeIdentifier: SignedNumber
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < int64_t > (); }
     break;
 
-  case 261: // ValueWithoutTypeIdentifier: realnumber
+  case 269: // ValueWithoutTypeIdentifier: realnumber
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < double > (); }
     break;
 
-  case 262: // ValueWithoutTypeIdentifier: ObjectClassFieldType
+  case 270: // ValueWithoutTypeIdentifier: ObjectClassFieldType
     { std::cerr << std::string("Warning: Unhandled field: ValueCommaListChoice\n"); }
     break;
 
-  case 263: // ValueWithoutTypeIdentifier: Value ":" Value
+  case 271: // ValueWithoutTypeIdentifier: Value ":" Value
     { std::cerr << std::string("Warning: Unhandled field: ValueCommaListChoice\n"); }
     break;
 
-  case 268: // ValueWithoutTypeIdentifier: "{" SequenceOfValues "}"
+  case 276: // ValueWithoutTypeIdentifier: "{" SequenceOfValues "}"
     { yylhs.value.as < Value > ().value_selection = yystack_[1].value.as < std::vector<Value> > (); }
     break;
 
-  case 269: // ValueWithoutTypeIdentifier: ValueChoice
+  case 277: // ValueWithoutTypeIdentifier: ValueChoice
     { std::cerr << std::string("Warning: Unhandled field: ValueChoice\n"); }
     break;
 
-  case 270: // ValueWithoutTypeIdentifier: OPTIONAL
+  case 278: // ValueWithoutTypeIdentifier: OPTIONAL
     { std::cerr << std::string("Warning: Unhandled field: OPTIONAL\n"); }
     break;
 
-  case 271: // ValueWithoutTypeIdentifier: ValueCommaListChoice
+  case 279: // ValueWithoutTypeIdentifier: ValueCommaListChoice
     { std::cerr << std::string("Warning: Unhandled field: ValueCommaListChoice\n"); }
     break;
 
-  case 272: // ValueWithoutTypeIdentifier: BY
+  case 280: // ValueWithoutTypeIdentifier: BY
     { std::cerr << std::string("Warning: Unhandled field: BY\n"); }
     break;
 
-  case 273: // ValueWithoutTypeIdentifier: WITH
+  case 281: // ValueWithoutTypeIdentifier: WITH
     { std::cerr << std::string("Warning: Unhandled field: WITH\n"); }
     break;
 
-  case 274: // Value: ValueWithoutTypeIdentifier
+  case 282: // Value: ValueWithoutTypeIdentifier
     { yylhs.value.as < Value > () = yystack_[0].value.as < Value > (); }
     break;
 
-  case 275: // Value: GENERIC_IDENTIFIER_UPPERCASE
+  case 283: // Value: GENERIC_IDENTIFIER_UPPERCASE
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < std::string > (); }
     break;
 
-  case 282: // SequenceOfValues: Value
+  case 290: // SequenceOfValues: Value
     { yylhs.value.as < std::vector<Value> > ().push_back(yystack_[0].value.as < Value > ()); }
     break;
 
-  case 283: // SequenceOfValues: SequenceOfValues Value
+  case 291: // SequenceOfValues: SequenceOfValues Value
     { yylhs.value.as < std::vector<Value> > () = yystack_[1].value.as < std::vector<Value> > (); yylhs.value.as < std::vector<Value> > ().push_back(yystack_[0].value.as < Value > ()); }
     break;
 
-  case 285: // BooleanValue: TRUE
+  case 293: // BooleanValue: TRUE
     { yylhs.value.as < BooleanValue > () = {true}; }
     break;
 
-  case 286: // BooleanValue: FALSE
+  case 294: // BooleanValue: FALSE
     { yylhs.value.as < BooleanValue > () = {false}; }
     break;
 
-  case 287: // IntegerType: INTEGER
+  case 295: // IntegerType: INTEGER
     { yylhs.value.as < IntegerType > () = IntegerType{{}}; }
     break;
 
-  case 288: // IntegerType: INTEGER "{" NamedNumberList "}"
+  case 296: // IntegerType: INTEGER "{" NamedNumberList "}"
     { yylhs.value.as < IntegerType > () = IntegerType{yystack_[1].value.as < std::vector<NamedNumber> > ()}; }
     break;
 
-  case 289: // NamedNumberList: NamedNumber
+  case 297: // NamedNumberList: NamedNumber
     { yylhs.value.as < std::vector<NamedNumber> > () = {yystack_[0].value.as < NamedNumber > ()}; }
     break;
 
-  case 290: // NamedNumberList: NamedNumberList "," NamedNumber
+  case 298: // NamedNumberList: NamedNumberList "," NamedNumber
     { yylhs.value.as < std::vector<NamedNumber> > () = yystack_[2].value.as < std::vector<NamedNumber> > (); yylhs.value.as < std::vector<NamedNumber> > ().push_back(yystack_[0].value.as < NamedNumber > ()); }
     break;
 
-  case 291: // NamedNumber: identifier "(" SignedNumber ")"
+  case 299: // NamedNumber: identifier "(" SignedNumber ")"
     { yylhs.value.as < NamedNumber > () = NamedNumber{ yystack_[3].value.as < std::string > (), yystack_[1].value.as < int64_t > () }; }
     break;
 
-  case 292: // NamedNumber: identifier "(" DefinedValue ")"
+  case 300: // NamedNumber: identifier "(" DefinedValue ")"
     { yylhs.value.as < NamedNumber > () = NamedNumber{ yystack_[3].value.as < std::string > (), 0 }; }
     break;
 
-  case 293: // SignedNumber: number
+  case 301: // SignedNumber: number
     { yylhs.value.as < int64_t > () = yystack_[0].value.as < int64_t > (); }
     break;
 
-  case 294: // SignedNumber: negativenumber
+  case 302: // SignedNumber: negativenumber
     { yylhs.value.as < int64_t > () = yystack_[0].value.as < int64_t > (); }
     break;
 
-  case 295: // EnumeratedType: ENUMERATED "{" Enumerations "}"
+  case 303: // EnumeratedType: ENUMERATED "{" Enumerations "}"
     { yylhs.value.as < EnumeratedType > () = yystack_[1].value.as < EnumeratedType > (); }
     break;
 
-  case 296: // Enumerations: Enumeration
+  case 304: // Enumerations: Enumeration
     { yylhs.value.as < EnumeratedType > () = yystack_[0].value.as < EnumeratedType > ();
       yylhs.value.as < EnumeratedType > ().accept_anything = false; }
     break;
 
-  case 297: // Enumerations: Enumeration "," "..." ExceptionSpec
+  case 305: // Enumerations: Enumeration "," "..." ExceptionSpec
     { yylhs.value.as < EnumeratedType > () = yystack_[3].value.as < EnumeratedType > ();
       yylhs.value.as < EnumeratedType > ().accept_anything = true; }
     break;
 
-  case 298: // Enumerations: Enumeration "," "..." ExceptionSpec "," Enumeration
+  case 306: // Enumerations: Enumeration "," "..." ExceptionSpec "," Enumeration
     { yylhs.value.as < EnumeratedType > () = yystack_[5].value.as < EnumeratedType > ();
       yylhs.value.as < EnumeratedType > ().accept_anything = true;
       yylhs.value.as < EnumeratedType > ().enum_values.insert(yylhs.value.as < EnumeratedType > ().enum_values.end(), yystack_[0].value.as < EnumeratedType > ().enum_values.begin(), yystack_[0].value.as < EnumeratedType > ().enum_values.end()); }
     break;
 
-  case 300: // Enumeration: EnumerationItem
+  case 308: // Enumeration: EnumerationItem
     { yylhs.value.as < EnumeratedType > ().enum_values.push_back(yystack_[0].value.as < EnumerationValue > ()); }
     break;
 
-  case 301: // Enumeration: Enumeration "," EnumerationItem
+  case 309: // Enumeration: Enumeration "," EnumerationItem
     { yylhs.value.as < EnumeratedType > () = yystack_[2].value.as < EnumeratedType > (); yylhs.value.as < EnumeratedType > ().enum_values.push_back(yystack_[0].value.as < EnumerationValue > ()); }
     break;
 
-  case 302: // EnumerationItem: identifier
+  case 310: // EnumerationItem: identifier
     { yylhs.value.as < EnumerationValue > ().name  = yystack_[0].value.as < std::string > (); }
     break;
 
-  case 303: // EnumerationItem: NamedNumber
+  case 311: // EnumerationItem: NamedNumber
     { yylhs.value.as < EnumerationValue > ().name  = yystack_[0].value.as < NamedNumber > ().name;
       yylhs.value.as < EnumerationValue > ().value = yystack_[0].value.as < NamedNumber > ().number; }
     break;
 
-  case 305: // BitStringType: BIT STRING
+  case 313: // BitStringType: BIT STRING
     { yylhs.value.as < BitStringType > () = BitStringType{}; }
     break;
 
-  case 306: // BitStringType: BIT STRING "{" NamedBitList "}"
+  case 314: // BitStringType: BIT STRING "{" NamedBitList "}"
     { yylhs.value.as < BitStringType > () = BitStringType{}; }
     break;
 
-  case 313: // SequenceType: SEQUENCE "{" "}"
+  case 321: // SequenceType: SEQUENCE "{" "}"
     { yylhs.value.as < SequenceType > () = SequenceType(); }
     break;
 
-  case 314: // SequenceType: SEQUENCE "{" ComponentTypeLists "}"
+  case 322: // SequenceType: SEQUENCE "{" ComponentTypeLists "}"
     { yylhs.value.as < SequenceType > () = SequenceType{yystack_[1].value.as < Collection > ()}; }
     break;
 
-  case 315: // ComponentTypeLists: ComponentTypeList
+  case 323: // ComponentTypeLists: ComponentTypeList
     { yylhs.value.as < Collection > ().components = yystack_[0].value.as < ComponentTypeList > (); }
     break;
 
-  case 316: // ComponentTypeLists: ComponentTypeList "," "..." ExceptionSpec
+  case 324: // ComponentTypeLists: ComponentTypeList "," "..." ExceptionSpec
     { yylhs.value.as < Collection > ().components = yystack_[3].value.as < ComponentTypeList > ();
       yylhs.value.as < Collection > ().allow_extensions = true; }
     break;
 
-  case 317: // ComponentTypeLists: ComponentTypeList "," "..." ExceptionSpec "," ComponentTypeList
+  case 325: // ComponentTypeLists: ComponentTypeList "," "..." ExceptionSpec "," ComponentTypeList
     { yylhs.value.as < Collection > ().components = yystack_[5].value.as < ComponentTypeList > ();
       add_extensions(yylhs.value.as < Collection > ().components, yystack_[0].value.as < ComponentTypeList > ());
       yylhs.value.as < Collection > ().allow_extensions = true; }
     break;
 
-  case 318: // ComponentTypeLists: ComponentTypeList "," "..." ExceptionSpec "," ComponentTypeList "," "..."
+  case 326: // ComponentTypeLists: ComponentTypeList "," "..." ExceptionSpec "," ComponentTypeList "," "..."
     { yylhs.value.as < Collection > ().components = yystack_[7].value.as < ComponentTypeList > ();
       add_extensions(yylhs.value.as < Collection > ().components, yystack_[2].value.as < ComponentTypeList > ());
       yylhs.value.as < Collection > ().allow_extensions = true; }
     break;
 
-  case 319: // ComponentTypeLists: ComponentTypeList "," "..." ExceptionSpec "," ComponentTypeList "," "..." "," ComponentTypeList
+  case 327: // ComponentTypeLists: ComponentTypeList "," "..." ExceptionSpec "," ComponentTypeList "," "..." "," ComponentTypeList
     { yylhs.value.as < Collection > ().components = yystack_[9].value.as < ComponentTypeList > ();
       add_extensions(yylhs.value.as < Collection > ().components, yystack_[4].value.as < ComponentTypeList > ());
       yylhs.value.as < Collection > ().components.insert(yylhs.value.as < Collection > ().components.end(), yystack_[0].value.as < ComponentTypeList > ().begin(), yystack_[0].value.as < ComponentTypeList > ().end());
       yylhs.value.as < Collection > ().allow_extensions = true; }
     break;
 
-  case 320: // ComponentTypeLists: "..." ExceptionSpec "," ComponentTypeList
+  case 328: // ComponentTypeLists: "..." ExceptionSpec "," ComponentTypeList
     { add_extensions(yylhs.value.as < Collection > ().components, yystack_[0].value.as < ComponentTypeList > ());
       yylhs.value.as < Collection > ().allow_extensions = true; }
     break;
 
-  case 321: // ComponentTypeLists: "..." ExceptionSpec "," ComponentTypeList "," "..."
+  case 329: // ComponentTypeLists: "..." ExceptionSpec "," ComponentTypeList "," "..."
     { add_extensions(yylhs.value.as < Collection > ().components, yystack_[2].value.as < ComponentTypeList > ());
       yylhs.value.as < Collection > ().allow_extensions = true; }
     break;
 
-  case 322: // ComponentTypeLists: "..." ExceptionSpec
+  case 330: // ComponentTypeLists: "..." ExceptionSpec
     { yylhs.value.as < Collection > ().components = {};
       yylhs.value.as < Collection > ().allow_extensions = true; }
     break;
 
-  case 323: // ComponentTypeLists: "..." ExceptionSpec "," "..."
+  case 331: // ComponentTypeLists: "..." ExceptionSpec "," "..."
     { yylhs.value.as < Collection > ().components = {};
       yylhs.value.as < Collection > ().allow_extensions = true; }
     break;
 
-  case 324: // ComponentTypeList: ComponentType
+  case 332: // ComponentTypeList: ComponentType
     { yylhs.value.as < ComponentTypeList > () = ComponentTypeList{yystack_[0].value.as < ComponentType > ()}; }
     break;
 
-  case 325: // ComponentTypeList: ComponentTypeList "," ComponentType
+  case 333: // ComponentTypeList: ComponentTypeList "," ComponentType
     { yystack_[2].value.as < ComponentTypeList > ().push_back(yystack_[0].value.as < ComponentType > ()); yylhs.value.as < ComponentTypeList > () = yystack_[2].value.as < ComponentTypeList > (); }
     break;
 
-  case 326: // ComponentType: Type
+  case 334: // ComponentType: Type
     { std::cerr << context_.location << " WARNING: unnamed type\n";
       yylhs.value.as < ComponentType > () = ComponentType{{gen_anon_member_name(), yystack_[0].value.as < Type > ()}, false, absl::nullopt, absl::nullopt, StorageMode::static_, false }; }
     break;
 
-  case 327: // ComponentType: Type OPTIONAL
+  case 335: // ComponentType: Type OPTIONAL
     { std::cerr << context_.location << " WARNING: unnamed type\n";
       yylhs.value.as < ComponentType > () = ComponentType{{gen_anon_member_name(), yystack_[1].value.as < Type > ()}, true, absl::nullopt, absl::nullopt, StorageMode::static_, false }; }
     break;
 
-  case 328: // ComponentType: Type DEFAULT SingleValue
+  case 336: // ComponentType: Type DEFAULT SingleValue
     { yylhs.value.as < ComponentType > () = ComponentType{{gen_anon_member_name(), yystack_[2].value.as < Type > ()}, false, yystack_[0].value.as < Value > (), absl::nullopt, StorageMode::static_, false };
       std::cerr << context_.location << " WARNING: unnamed type\n"; }
     break;
 
-  case 329: // ComponentType: NamedType
+  case 337: // ComponentType: NamedType
     { yylhs.value.as < ComponentType > () = ComponentType{yystack_[0].value.as < NamedType > (), false, absl::nullopt, absl::nullopt, StorageMode::static_, false }; }
     break;
 
-  case 330: // ComponentType: NamedType OPTIONAL
+  case 338: // ComponentType: NamedType OPTIONAL
     { yylhs.value.as < ComponentType > () = ComponentType{yystack_[1].value.as < NamedType > (), true, absl::nullopt, absl::nullopt, StorageMode::static_, false }; }
     break;
 
-  case 331: // ComponentType: NamedType DEFAULT SingleValue
+  case 339: // ComponentType: NamedType DEFAULT SingleValue
     { yylhs.value.as < ComponentType > () = ComponentType{yystack_[2].value.as < NamedType > (), false, yystack_[0].value.as < Value > (), absl::nullopt, StorageMode::static_, false }; }
     break;
 
-  case 332: // ComponentType: COMPONENTS OF Type
+  case 340: // ComponentType: COMPONENTS OF Type
     { yylhs.value.as < ComponentType > () = ComponentType{{}, false, absl::nullopt, yystack_[0].value.as < Type > (), StorageMode::static_, false}; }
     break;
 
-  case 333: // SequenceOfType: SEQUENCE OF Type
+  case 341: // SequenceOfType: SEQUENCE OF Type
     { yylhs.value.as < SequenceOfType > () = SequenceOfType{ false, nullptr, std::unique_ptr<Type>(new Type(yystack_[0].value.as < Type > ())) }; }
     break;
 
-  case 334: // SequenceOfType: SEQUENCE OF NamedType
+  case 342: // SequenceOfType: SEQUENCE OF NamedType
     { yylhs.value.as < SequenceOfType > () = SequenceOfType{ true, std::unique_ptr<NamedType>(new NamedType(yystack_[0].value.as < NamedType > ())), nullptr }; }
     break;
 
-  case 335: // SetType: SET "{" "}"
+  case 343: // SetType: SET "{" "}"
     { yylhs.value.as < SetType > () = SetType{}; }
     break;
 
-  case 336: // SetType: SET "{" ComponentTypeLists "}"
+  case 344: // SetType: SET "{" ComponentTypeLists "}"
     { yylhs.value.as < SetType > () = SetType{yystack_[1].value.as < Collection > ()}; }
     break;
 
-  case 337: // SetOfType: SET OF Type
+  case 345: // SetOfType: SET OF Type
     { yylhs.value.as < SetOfType > () = SetOfType{ false, nullptr, std::unique_ptr<Type>(new Type(yystack_[0].value.as < Type > ())) }; }
     break;
 
-  case 338: // SetOfType: SET OF NamedType
+  case 346: // SetOfType: SET OF NamedType
     { yylhs.value.as < SetOfType > () = SetOfType{ true, std::unique_ptr<NamedType>(new NamedType(yystack_[0].value.as < NamedType > ())), nullptr }; }
     break;
 
-  case 339: // ChoiceType: CHOICE "{" AlternativeTypeLists "}"
+  case 347: // ChoiceType: CHOICE "{" AlternativeTypeLists "}"
     { yylhs.value.as < ChoiceType > () = ChoiceType{ yystack_[1].value.as < std::vector<NamedType> > (), StorageMode::static_ }; }
     break;
 
-  case 340: // AlternativeTypeLists: RootAlternativeTypeList
+  case 348: // AlternativeTypeLists: RootAlternativeTypeList
     { yylhs.value.as < std::vector<NamedType> > () = yystack_[0].value.as < std::vector<NamedType> > (); }
     break;
 
-  case 341: // RootAlternativeTypeList: AlternativeTypeList
+  case 349: // RootAlternativeTypeList: AlternativeTypeList
     { yylhs.value.as < std::vector<NamedType> > () = yystack_[0].value.as < std::vector<NamedType> > (); }
     break;
 
-  case 342: // RootAlternativeTypeList: AlternativeTypeList "," "..."
+  case 350: // RootAlternativeTypeList: AlternativeTypeList "," "..."
     { yylhs.value.as < std::vector<NamedType> > () = yystack_[2].value.as < std::vector<NamedType> > (); }
     break;
 
-  case 343: // RootAlternativeTypeList: AlternativeTypeList "," "..." "," AlternativeTypeList
+  case 351: // RootAlternativeTypeList: AlternativeTypeList "," "..." "," AlternativeTypeList
     { yylhs.value.as < std::vector<NamedType> > () = yystack_[4].value.as < std::vector<NamedType> > (); yylhs.value.as < std::vector<NamedType> > ().insert(yylhs.value.as < std::vector<NamedType> > ().end(), yystack_[0].value.as < std::vector<NamedType> > ().begin(), yystack_[0].value.as < std::vector<NamedType> > ().end()); }
     break;
 
-  case 344: // AlternativeTypeList: NamedType
+  case 352: // AlternativeTypeList: NamedType
     { yylhs.value.as < std::vector<NamedType> > () = std::vector<NamedType> { yystack_[0].value.as < NamedType > () }; }
     break;
 
-  case 345: // AlternativeTypeList: AlternativeTypeList "," NamedType
+  case 353: // AlternativeTypeList: AlternativeTypeList "," NamedType
     { yystack_[2].value.as < std::vector<NamedType> > ().push_back( yystack_[0].value.as < NamedType > () ); yylhs.value.as < std::vector<NamedType> > () = yystack_[2].value.as < std::vector<NamedType> > (); }
     break;
 
-  case 347: // PrefixedType: TaggedType
+  case 355: // PrefixedType: TaggedType
     { yylhs.value.as < PrefixedType > () = PrefixedType(yystack_[0].value.as < TaggedType > ()); }
     break;
 
-  case 348: // TaggedType: Tag Type
+  case 356: // TaggedType: Tag Type
     { yylhs.value.as < TaggedType > () = TaggedType{ yystack_[1].value.as < Tag > (), TaggingMode::automatic, yystack_[0].value.as < Type > () }; }
     break;
 
-  case 349: // TaggedType: Tag IMPLICIT Type
+  case 357: // TaggedType: Tag IMPLICIT Type
     { yylhs.value.as < TaggedType > () = TaggedType{ yystack_[2].value.as < Tag > (), TaggingMode::implicit, yystack_[0].value.as < Type > () }; }
     break;
 
-  case 350: // TaggedType: Tag EXPLICIT Type
+  case 358: // TaggedType: Tag EXPLICIT Type
     { yylhs.value.as < TaggedType > () = TaggedType{ yystack_[2].value.as < Tag > (), TaggingMode::explicit_, yystack_[0].value.as < Type > () }; }
     break;
 
-  case 351: // Tag: "[" EncodingReference Class ClassNumber "]"
+  case 359: // Tag: "[" EncodingReference Class ClassNumber "]"
     { yylhs.value.as < Tag > () = Tag{ yystack_[2].value.as < Class > (), yystack_[1].value.as < int > () }; }
     break;
 
-  case 354: // ClassNumber: number
+  case 362: // ClassNumber: number
     { yylhs.value.as < int > () = yystack_[0].value.as < int64_t > (); }
     break;
 
-  case 356: // Class: UNIVERSAL
+  case 364: // Class: UNIVERSAL
     { yylhs.value.as < Class > () = Class::universal; }
     break;
 
-  case 357: // Class: APPLICATION
+  case 365: // Class: APPLICATION
     { yylhs.value.as < Class > () = Class::application; }
     break;
 
-  case 358: // Class: PRIVATE
+  case 366: // Class: PRIVATE
     { yylhs.value.as < Class > () = Class::private_; }
     break;
 
-  case 359: // Class: %empty
+  case 367: // Class: %empty
     { yylhs.value.as < Class > () = Class::context_specific; }
     break;
 
-  case 361: // ObjectIdentifierValue: "{" ObjIdComponentsList "}"
+  case 369: // ObjectIdentifierValue: "{" ObjIdComponentsList "}"
     { yylhs.value.as < std::vector<ObjectIdComponentValue> > () = yystack_[1].value.as < std::vector<ObjectIdComponentValue> > (); std::reverse(yylhs.value.as < std::vector<ObjectIdComponentValue> > ().begin(), yylhs.value.as < std::vector<ObjectIdComponentValue> > ().end()); }
     break;
 
-  case 362: // ObjectIdentifierValue: "{" DefinedValue ObjIdComponentsList "}"
+  case 370: // ObjectIdentifierValue: "{" DefinedValue ObjIdComponentsList "}"
     { yylhs.value.as < std::vector<ObjectIdComponentValue> > () = yystack_[1].value.as < std::vector<ObjectIdComponentValue> > (); std::reverse(yylhs.value.as < std::vector<ObjectIdComponentValue> > ().begin(), yylhs.value.as < std::vector<ObjectIdComponentValue> > ().end()); }
     break;
 
-  case 363: // ObjIdComponentsList: ObjIdComponents
+  case 371: // ObjIdComponentsList: ObjIdComponents
     { yylhs.value.as < std::vector<ObjectIdComponentValue> > ().push_back(yystack_[0].value.as < ObjectIdComponentValue > ()); }
     break;
 
-  case 364: // ObjIdComponentsList: ObjIdComponents ObjIdComponentsList
+  case 372: // ObjIdComponentsList: ObjIdComponents ObjIdComponentsList
     { yylhs.value.as < std::vector<ObjectIdComponentValue> > () = yystack_[0].value.as < std::vector<ObjectIdComponentValue> > (); yylhs.value.as < std::vector<ObjectIdComponentValue> > ().push_back(yystack_[1].value.as < ObjectIdComponentValue > ()); }
     break;
 
-  case 365: // ObjIdComponents: NameForm
+  case 373: // ObjIdComponents: NameForm
     { yylhs.value.as < ObjectIdComponentValue > () = yystack_[0].value.as < ObjectIdComponentValue > (); }
     break;
 
-  case 366: // ObjIdComponents: NumberForm
+  case 374: // ObjIdComponents: NumberForm
     { yylhs.value.as < ObjectIdComponentValue > () = yystack_[0].value.as < ObjectIdComponentValue > (); }
     break;
 
-  case 367: // ObjIdComponents: NameAndNumberForm
+  case 375: // ObjIdComponents: NameAndNumberForm
     { yylhs.value.as < ObjectIdComponentValue > () = yystack_[0].value.as < ObjectIdComponentValue > (); }
     break;
 
-  case 368: // NameForm: identifier
+  case 376: // NameForm: identifier
     { yylhs.value.as < ObjectIdComponentValue > ().name = yystack_[0].value.as < std::string > (); }
     break;
 
-  case 369: // NumberForm: number
+  case 377: // NumberForm: number
     { yylhs.value.as < ObjectIdComponentValue > ().value = yystack_[0].value.as < int64_t > (); }
     break;
 
-  case 371: // NameAndNumberForm: identifier "(" NumberForm ")"
+  case 379: // NameAndNumberForm: identifier "(" NumberForm ")"
     { yylhs.value.as < ObjectIdComponentValue > () = yystack_[1].value.as < ObjectIdComponentValue > (); yylhs.value.as < ObjectIdComponentValue > ().name = yystack_[3].value.as < std::string > (); }
     break;
 
-  case 389: // CharacterStringType: RestrictedCharacterStringType
+  case 397: // CharacterStringType: RestrictedCharacterStringType
     { yylhs.value.as < CharacterStringType > () = yystack_[0].value.as < CharacterStringType > (); }
     break;
 
-  case 390: // CharacterStringType: UnrestrictedCharacterStringType
+  case 398: // CharacterStringType: UnrestrictedCharacterStringType
     { yylhs.value.as < CharacterStringType > () = yystack_[0].value.as < CharacterStringType > (); }
     break;
 
-  case 391: // RestrictedCharacterStringType: BMPString
+  case 399: // RestrictedCharacterStringType: BMPString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::bmp_string; }
     break;
 
-  case 392: // RestrictedCharacterStringType: GeneralString
+  case 400: // RestrictedCharacterStringType: GeneralString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::general_string; }
     break;
 
-  case 393: // RestrictedCharacterStringType: GraphicString
+  case 401: // RestrictedCharacterStringType: GraphicString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::graphic_string; }
     break;
 
-  case 394: // RestrictedCharacterStringType: IA5String
+  case 402: // RestrictedCharacterStringType: IA5String
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::ia5_string; }
     break;
 
-  case 395: // RestrictedCharacterStringType: ISO646String
+  case 403: // RestrictedCharacterStringType: ISO646String
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::iso646_string; }
     break;
 
-  case 396: // RestrictedCharacterStringType: NumericString
+  case 404: // RestrictedCharacterStringType: NumericString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::numeric_string; }
     break;
 
-  case 397: // RestrictedCharacterStringType: PrintableString
+  case 405: // RestrictedCharacterStringType: PrintableString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::printable_string; }
     break;
 
-  case 398: // RestrictedCharacterStringType: TeletexString
+  case 406: // RestrictedCharacterStringType: TeletexString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::teletex_string; }
     break;
 
-  case 399: // RestrictedCharacterStringType: T61String
+  case 407: // RestrictedCharacterStringType: T61String
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::t61_string; }
     break;
 
-  case 400: // RestrictedCharacterStringType: UniversalString
+  case 408: // RestrictedCharacterStringType: UniversalString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::universal_string; }
     break;
 
-  case 401: // RestrictedCharacterStringType: UTF8String
+  case 409: // RestrictedCharacterStringType: UTF8String
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::utf8_string; }
     break;
 
-  case 402: // RestrictedCharacterStringType: VideotexString
+  case 410: // RestrictedCharacterStringType: VideotexString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::videotex_string; }
     break;
 
-  case 403: // RestrictedCharacterStringType: VisibleString
+  case 411: // RestrictedCharacterStringType: VisibleString
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::visible_string; }
     break;
 
-  case 404: // UnrestrictedCharacterStringType: CHARACTER STRING
+  case 412: // UnrestrictedCharacterStringType: CHARACTER STRING
     { yylhs.value.as < CharacterStringType > () = CharacterStringType::character_string; }
     break;
 
-  case 405: // ConstrainedType: Type Constraint
+  case 413: // ConstrainedType: Type Constraint
     { yylhs.value.as < Type > () = yystack_[1].value.as < Type > (); }
     break;
 
-  case 406: // ConstrainedType: TypeWithConstraint
+  case 414: // ConstrainedType: TypeWithConstraint
     { yylhs.value.as < Type > () = yystack_[0].value.as < Type > (); feature_not_implemented(context_.location, context_.asn1_tree, "TypeWithConstraint", "Not yet checking contraints. ");  }
     break;
 
-  case 407: // TypeWithConstraint: SET Constraint OF Type
+  case 415: // TypeWithConstraint: SET Constraint OF Type
     { yylhs.value.as < Type > () = SetOfType{ false, nullptr, std::unique_ptr<Type>(new Type(yystack_[0].value.as < Type > ())) }; }
     break;
 
-  case 408: // TypeWithConstraint: SET SizeConstraint OF Type
+  case 416: // TypeWithConstraint: SET SizeConstraint OF Type
     { yylhs.value.as < Type > () = SetOfType{ false, nullptr, std::unique_ptr<Type>(new Type(yystack_[0].value.as < Type > ())) }; }
     break;
 
-  case 409: // TypeWithConstraint: SEQUENCE Constraint OF Type
+  case 417: // TypeWithConstraint: SEQUENCE Constraint OF Type
     { yylhs.value.as < Type > () = SequenceOfType{ false, nullptr, std::unique_ptr<Type>(new Type(yystack_[0].value.as < Type > ())) }; }
     break;
 
-  case 410: // TypeWithConstraint: SEQUENCE SizeConstraint OF Type
+  case 418: // TypeWithConstraint: SEQUENCE SizeConstraint OF Type
     { yylhs.value.as < Type > () = SequenceOfType{ false, nullptr, std::unique_ptr<Type>(new Type(yystack_[0].value.as < Type > ())) }; }
     break;
 
-  case 411: // TypeWithConstraint: SET Constraint OF NamedType
+  case 419: // TypeWithConstraint: SET Constraint OF NamedType
     { yylhs.value.as < Type > () = SetOfType{ true, std::unique_ptr<NamedType>(new NamedType(yystack_[0].value.as < NamedType > ())), nullptr }; }
     break;
 
-  case 412: // TypeWithConstraint: SET SizeConstraint OF NamedType
+  case 420: // TypeWithConstraint: SET SizeConstraint OF NamedType
     { yylhs.value.as < Type > () = SetOfType{ true, std::unique_ptr<NamedType>(new NamedType(yystack_[0].value.as < NamedType > ())), nullptr }; }
     break;
 
-  case 413: // TypeWithConstraint: SEQUENCE Constraint OF NamedType
+  case 421: // TypeWithConstraint: SEQUENCE Constraint OF NamedType
     { yylhs.value.as < Type > () = SequenceOfType{ true, std::unique_ptr<NamedType>(new NamedType(yystack_[0].value.as < NamedType > ())), nullptr }; }
     break;
 
-  case 414: // TypeWithConstraint: SEQUENCE SizeConstraint OF NamedType
+  case 422: // TypeWithConstraint: SEQUENCE SizeConstraint OF NamedType
     { yylhs.value.as < Type > () = SequenceOfType{ true, std::unique_ptr<NamedType>(new NamedType(yystack_[0].value.as < NamedType > ())), nullptr }; }
     break;
 
-  case 415: // Constraint: "(" ConstraintSpec ExceptionSpec ")"
+  case 423: // Constraint: "(" ConstraintSpec ExceptionSpec ")"
     { feature_not_implemented(context_.location, context_.asn1_tree, "ConstraintSpec", "Not yet checking contraints. "); }
     break;
 
-  case 449: // SingleValue: BooleanValue
+  case 457: // SingleValue: BooleanValue
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < BooleanValue > (); }
     break;
 
-  case 450: // SingleValue: ASN_NULL
+  case 458: // SingleValue: ASN_NULL
     { yylhs.value.as < Value > ().value_selection = NullValue{}; }
     break;
 
-  case 451: // SingleValue: TimeValue
+  case 459: // SingleValue: TimeValue
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < TimeValue > (); }
     break;
 
-  case 452: // SingleValue: bstring
+  case 460: // SingleValue: bstring
     { yylhs.value.as < Value > ().value_selection = BitStringValue{yystack_[0].value.as < std::string > ()}; }
     break;
 
-  case 453: // SingleValue: hstring
+  case 461: // SingleValue: hstring
     { yylhs.value.as < Value > ().value_selection = HexStringValue{yystack_[0].value.as < std::string > ()}; }
     break;
 
-  case 454: // SingleValue: cstring
+  case 462: // SingleValue: cstring
     { yylhs.value.as < Value > ().value_selection = CharStringValue{yystack_[0].value.as < std::string > ()}; }
     break;
 
-  case 455: // SingleValue: GENERIC_IDENTIFIER_UPPERCASE
+  case 463: // SingleValue: GENERIC_IDENTIFIER_UPPERCASE
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < std::string > (); }
     break;
 
-  case 456: // SingleValue: DefinedValue
+  case 464: // SingleValue: DefinedValue
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < DefinedValue > (); }
     break;
 
-  case 457: // SingleValue: SignedNumber
+  case 465: // SingleValue: SignedNumber
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < int64_t > (); }
     break;
 
-  case 458: // SingleValue: realnumber
+  case 466: // SingleValue: realnumber
     { yylhs.value.as < Value > ().value_selection = yystack_[0].value.as < double > (); }
     break;
 
-  case 497: // typereference: GENERIC_IDENTIFIER_UPPERCASE
+  case 505: // typereference: GENERIC_IDENTIFIER_UPPERCASE
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
     break;
 
-  case 498: // identifier: GENERIC_IDENTIFIER_LOWERCASE
+  case 506: // identifier: GENERIC_IDENTIFIER_LOWERCASE
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
     break;
 
-  case 499: // valuereference: GENERIC_IDENTIFIER_LOWERCASE
+  case 507: // valuereference: GENERIC_IDENTIFIER_LOWERCASE
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
     break;
 
-  case 500: // modulereference: GENERIC_IDENTIFIER_UPPERCASE
+  case 508: // modulereference: GENERIC_IDENTIFIER_UPPERCASE
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
     break;
 
-  case 501: // objectclassreference: GENERIC_IDENTIFIER_UPPERCASE
+  case 509: // objectclassreference: GENERIC_IDENTIFIER_UPPERCASE
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
     break;
 
-  case 502: // word: GENERIC_IDENTIFIER_UPPERCASE
+  case 510: // word: GENERIC_IDENTIFIER_UPPERCASE
     { yylhs.value.as < std::string > () = yystack_[0].value.as < std::string > (); }
     break;
 
@@ -10296,548 +10301,566 @@ namespace yy {
   }
 
 
-  const short asn1_parser::yypact_ninf_ = -663;
+  const short asn1_parser::yypact_ninf_ = -672;
 
-  const short asn1_parser::yytable_ninf_ = -502;
+  const short asn1_parser::yytable_ninf_ = -510;
 
   const short
   asn1_parser::yypact_[] =
   {
-     -86,  -663,   173,   -86,    35,    75,  -663,  -663,   242,    19,
-    -663,    73,  -663,    87,   162,  -663,  -663,   136,    19,  -663,
-    -663,  -663,   158,   132,  -663,  -663,   193,   224,   240,   246,
-    -663,  -663,   355,   307,   221,  -663,  -663,  -663,   293,   248,
-     244,  -663,  -663,  -663,   307,   243,  -663,   343,  -663,   221,
-    -663,   222,  -663,    -1,  -663,   309,   245,  -663,  -663,   252,
-     253,  -663,  -663,   273,  -663,   348,   199,   199,  -663,  -663,
-     199,   280,  -663,   264,   199,  -663,   -15,  -663,  -663,  -663,
-    -663,  -663,  -663,  -663,  -663,   199,  -663,  -663,  -663,  2747,
-    3444,  -663,  -663,  -663,  -663,   -86,  -663,  -663,  -663,  -663,
-    -663,   304,  -663,  -663,   305,   287,  -663,  -663,  -663,   322,
-     294,  -663,  -663,  -663,  -663,  -663,   332,   296,  -663,  -663,
-     357,  -663,   321,  -663,  -663,  -663,  -663,  -663,    -6,     0,
-    -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,
-    3543,  4042,   411,  -663,   290,  -663,  -663,   314,  -663,  -663,
-    3642,   299,  -663,  -663,   316,  -663,  -663,   317,   184,  -663,
-    -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,
-    -663,  -663,  -663,  -663,  -663,  2850,  -663,  -663,  -663,  -663,
-    -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,
-    -663,  -663,   122,   315,   308,  4141,   187,    -5,   311,  -663,
-     323,   324,  -663,   300,  -663,   -50,    43,   300,  -663,  -663,
-    4141,   326,  2549,  1557,   366,   367,  4141,  2648,   370,   371,
-     336,  -663,  -663,  -663,   290,  -663,  -663,   326,   330,  -663,
-      88,  -663,    27,  -663,   320,  -663,   329,   326,   -41,   335,
-      20,   328,   338,  3543,   188,   328,  1813,   349,  -663,  4141,
-    4141,   326,    36,  4141,    18,   190,  2443,   452,    34,  -663,
-     300,  -663,   352,  -663,   341,  4141,   350,  -663,   356,   346,
-    -663,   354,   347,  -663,  -663,   358,    94,  -663,   354,   326,
-    -663,  3745,  -663,   397,   350,  -663,     2,    24,   362,   351,
-    -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,   432,    -7,
-     455,  4141,   458,  -663,   326,  -663,  -663,  2443,   479,  -663,
-     310,  1682,  1938,    96,   375,   377,  -663,  -663,  -663,  -663,
-    -663,  -663,  -663,   326,  -663,  -663,  -663,   350,  -663,  -663,
-     365,   -44,   -33,   -10,     1,  -663,   432,   449,  -663,    72,
-    -663,  4141,  -663,   395,   390,  -663,  -663,  -663,  -663,  -663,
-    -663,   398,   383,  4141,  4141,   326,  -663,  -663,   400,  4141,
-    4141,   201,    26,  -663,  4042,   199,  -663,  -663,  -663,  -663,
-      39,  -663,  -663,  -663,   385,  -663,  -663,   326,  2443,   385,
-    -663,  -663,  -663,  -663,  -663,  -663,   401,  -663,  2443,   209,
-    -663,  -663,  2443,  -663,   144,   171,  -663,   381,  -663,   403,
-     392,   326,   178,   146,   404,   399,  -663,  -663,  -663,  -663,
-     103,   405,  1938,  -663,   326,   326,   385,  -663,   326,  -663,
-    -663,  2443,  -663,  -663,    98,   416,  -663,  -663,   146,   408,
-     409,  -663,    34,   427,    34,  -663,  -663,  -663,   429,   117,
-    -663,   430,  -663,   -47,   326,  2293,  -663,  -663,   -46,    41,
-     410,  -663,   300,  4141,   421,   759,  -663,   759,  -663,  -663,
-    2949,  2194,  -663,   433,    12,  2443,  -663,   146,  -663,   326,
-     436,   426,   439,   428,   441,   422,  1813,   443,   450,  -663,
-    -663,  2194,  -663,  -663,  2194,  -663,   326,    30,  -663,    11,
-     326,  -663,   326,  -663,  -663,   326,  -663,   326,  -663,  4240,
-    3048,    43,   125,  -663,  -663,    32,  -663,  -663,  -663,  -663,
-    -663,  -663,  -663,  -663,  -663,  -663,  -663,   442,   328,   146,
-     146,   146,  1083,   569,  -663,  1813,  2443,  2443,  2443,  2443,
-    2443,   333,     9,   460,   146,   328,   424,  -663,   462,  -663,
-    -663,    55,  -663,   300,    61,   451,  -663,  -663,     5,  -663,
-    -663,   350,  -663,   453,   465,  -663,   326,  3147,  -663,   347,
-    -663,  -663,   350,  -663,  -663,  3844,   549,   146,  -663,  -663,
-      59,  -663,  1938,  -663,   471,  -663,   114,   134,  -663,   469,
-    -663,   461,   -10,  -663,  -663,   499,  -663,  -663,  -663,  -663,
-      38,   -18,    74,   -18,    40,   481,   201,  -663,  4141,  -663,
-    -663,  -663,  -663,  -663,   146,   472,  -663,   146,   146,   146,
-     146,   146,  -663,  -663,  -663,  -663,   475,  -663,   476,   478,
-     300,  2443,   470,  -663,  -663,  -663,   473,   477,  -663,   483,
-    -663,   480,   487,   241,   468,  2443,   142,   491,   482,   326,
-    -663,   485,   488,   492,  -663,  -663,   422,  -663,  1938,  -663,
-      29,  -663,  -663,  -663,  -663,    48,    56,    56,  -663,  -663,
-    -663,   514,  -663,  -663,   326,  -663,  -663,  -663,  -663,   497,
-     146,   300,  3246,  3943,  2411,  -663,    33,   146,  -663,   300,
-    -663,   300,  -663,  -663,    81,  1938,   488,   300,   300,  -663,
-    -663,  1432,  -663,  -663,  -663,  -663,  -663,   349,  -663,  -663,
-     759,  -663,  -663,  -663,   501,   300,   498,  -663,   500,  1432,
-    -663,   146,   495,   504,  -663,  -663,  -663,  -663,  -663,  -663,
-    -663,   492,  -663,  4809,  4897,  -663,   502,  -663,  -663,   401,
-    -663,  -663,   304,  -663,  -663,  -663,   305,   287,  -663,  -663,
-    -663,  -663,  2443,  -663,  -663,  -663,  -663,  -663,   322,  -663,
-    -663,  -663,   294,  -663,  -663,  -663,  -663,  -663,  -663,  -663,
-    -663,  -663,  -663,  -663,  -663,   332,  -663,   212,  -663,  -663,
-    -663,  -663,  -663,   357,   321,  -663,  -663,  -663,  -663,  -663,
-    -663,  -663,  -663,  -663,  -663,  -663,    -6,     0,  -663,  -663,
-    -663,  -663,  -663,  -663,  -663,  -663,   503,  -663,  -663,  -663,
-    -663,  -663,    98,  2069,  -663,   506,  1285,  -663,  -663,   326,
-     146,  -663,  -663,  -663,  4713,  -663,   300,  3345,   146,  -663,
-    -663,   490,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,
-    -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,
-    -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,
-    -663,  -663,  -663,  -663,  -663,  -663,  4713,  -663,  4479,  -663,
-    -663,  -663,  4362,  -663,   507,   517,  4596,  -663,  -663,  -663,
-    -663,  3943,  -663,  -663,   509,  3943
+    -100,  -672,    81,  -100,   190,   139,  -672,  -672,   254,    29,
+    -672,   194,  -672,   241,   205,  -672,  -672,   215,    29,  -672,
+    -672,  -672,   204,   207,  -672,  -672,   251,   264,   266,   315,
+    -672,  -672,   371,   317,   242,  -672,  -672,  -672,   310,   269,
+     260,  -672,  -672,  -672,   317,   258,  -672,   357,  -672,   242,
+    -672,    78,  -672,     9,  -672,   324,   256,  -672,  -672,   259,
+     265,  -672,  -672,   281,  -672,   350,    15,    15,  -672,  -672,
+      15,   282,  -672,   267,    15,  -672,    -1,  -672,  -672,  -672,
+    -672,  -672,  -672,  -672,  -672,    15,  -672,  -672,  -672,  2709,
+    3406,  -672,  -672,  -672,  -672,  -100,  -672,  -672,  -672,  -672,
+    -672,   305,  -672,  -672,   307,   287,  -672,  -672,  -672,   321,
+     290,  -672,  -672,  -672,  -672,  -672,   330,   292,  -672,  -672,
+     349,  -672,   316,  -672,  -672,  -672,  -672,  -672,   145,   150,
+    -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,
+    3505,  4004,   407,  -672,   291,  -672,  -672,   309,  -672,  -672,
+    3604,   293,  -672,  -672,   304,  -672,  -672,   319,   -41,  -672,
+    -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,
+    -672,  -672,  -672,  -672,  -672,  2812,  -672,  -672,  -672,  -672,
+    -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,
+    -672,  -672,   162,   318,   297,  4103,   110,   -52,   299,  -672,
+     323,   325,  -672,   301,  -672,   -29,    26,   301,  -672,  -672,
+    4103,   328,  2511,  1525,   365,   368,  4103,  2610,   369,   373,
+     334,  -672,  -672,  -672,   291,  -672,  -672,   328,   327,  -672,
+      80,  -672,    20,  -672,   322,  -672,   333,   328,   155,   337,
+      38,   329,   340,  3505,   163,   329,  2156,   342,  -672,  4103,
+    4103,   328,    21,  4103,    46,   189,  2405,   448,    17,  -672,
+     301,  -672,   346,  -672,   338,  4103,   344,  -672,   354,   343,
+    -672,   358,   345,  -672,  -672,   347,   125,  -672,   358,   328,
+    -672,  3707,  -672,   399,   344,  -672,     5,     1,   362,   353,
+    -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,   433,    25,
+     452,  4103,   454,  -672,   328,  -672,  -672,  2405,   482,  -672,
+     311,  1650,  1775,   156,   374,   376,  -672,  -672,  -672,  -672,
+    -672,  -672,  -672,   328,  -672,  -672,  -672,   344,  -672,  -672,
+     364,   103,   112,   -27,   -18,  -672,   433,   445,  -672,   137,
+    -672,  4103,  -672,   381,   377,  -672,  -672,  -672,  -672,  -672,
+    -672,   382,   370,  4103,  4103,   328,  -672,  -672,   384,  4103,
+    4103,   295,    51,  -672,  4004,    15,  -672,  -672,  -672,  -672,
+      24,  -672,  -672,  -672,   372,  -672,  -672,   328,  2405,   372,
+    -672,  -672,  -672,  -672,  2405,  -672,  -672,   387,   378,  -672,
+     328,  -672,  -672,   379,  1775,  -672,   328,   328,   372,  -672,
+     328,  -672,  -672,  2405,  -672,  -672,  -672,  -672,  -672,  -672,
+    -672,  -672,  2405,  -672,  -672,  -672,  2405,  -672,   147,   388,
+    -672,  -672,  -672,   -62,   383,   380,  -672,  -672,  -672,  -672,
+     386,    96,   390,  -672,    17,   391,    17,  -672,  -672,  -672,
+     393,   158,  -672,   395,  -672,    92,   328,  2255,  -672,  -672,
+     105,    43,   385,  -672,   301,  4103,   389,   332,  -672,   332,
+    -672,  -672,  2911,  2031,  -672,   398,   -20,  2405,  -672,   -62,
+    -672,   328,   405,   394,   411,   404,   421,   406,  2156,   422,
+     410,  -672,  -672,  2031,  -672,  -672,  2031,  -672,   328,   109,
+    -672,    39,   328,  -672,   328,  -672,  -672,   328,  -672,   328,
+    -672,  4202,  3010,    26,   167,  -672,  -672,    50,  -672,  -672,
+    -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,   423,
+     329,   -62,   -62,   965,  -672,  2156,    35,   428,   -62,   -62,
+    1122,   551,  2405,  2405,  2405,  2405,  2405,   329,   335,   408,
+    -672,   431,  -672,  -672,    27,  -672,   301,    63,   425,  -672,
+    -672,   -50,  -672,  -672,   344,  -672,   432,   436,  -672,   328,
+    3109,  -672,   345,  -672,  -672,   344,  -672,  -672,  3806,   525,
+     -62,  -672,  -672,   111,  -672,  1775,  -672,   446,  -672,   161,
+     177,  -672,   442,  -672,   434,   -27,  -672,  -672,    32,  -672,
+    -672,  -672,  -672,     3,   -24,   122,   -24,     8,   453,   295,
+    -672,  4103,  -672,  -672,  -672,  -672,  -672,   -62,  -672,  -672,
+    -672,   447,   -62,   -62,   -62,   -62,   -62,  -672,  -672,  -672,
+     449,  -672,   450,   456,   301,  2405,   438,  -672,  -672,  -672,
+     443,   444,  -672,   459,  -672,   455,   468,   236,   461,  2405,
+     181,   472,   465,   328,  -672,   470,   467,   471,  -672,  -672,
+     406,  -672,  1775,  -672,    22,  -672,  -672,  -672,  -672,    14,
+      19,    19,  -672,  -672,  -672,   506,  -672,  -672,   328,  -672,
+    -672,  -672,  -672,   474,   -62,   301,  3208,  3905,  2373,  -672,
+      60,   -62,  -672,   301,  -672,   301,  -672,  -672,    67,  1775,
+     467,   301,   301,  -672,  -672,  1400,  -672,  -672,  -672,  -672,
+    -672,   342,  -672,  -672,   332,  -672,  -672,  -672,   488,   301,
+     479,  -672,   480,  1400,  -672,   -62,   481,   496,  -672,  -672,
+    -672,  -672,  -672,  -672,  -672,   471,  -672,  4771,  4859,  -672,
+     486,  -672,  -672,   501,  -672,  -672,   305,  -672,  -672,  -672,
+     307,   287,  -672,  -672,  -672,  -672,  2405,  -672,  -672,  -672,
+    -672,  -672,   321,  -672,  -672,  -672,   290,  -672,  -672,  -672,
+    -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,   330,
+    -672,   183,  -672,  -672,  -672,  -672,  -672,   349,   316,  -672,
+    -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,
+     145,   150,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,
+     490,  -672,  -672,  -672,  -672,  -672,   147,   198,  1906,  -672,
+     492,  1253,  -672,  -672,   485,   328,   -62,  -672,  -672,  -672,
+    4675,  -672,   301,  3307,   -62,  -672,   501,   183,  -672,   483,
+    -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,
+    -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,
+    -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,
+    -672,  -672,  -672,  -672,  4675,  -672,  4441,  -672,  -672,  -672,
+    4324,  -672,   497,   508,  4558,  -672,  -672,  -672,  -672,  3905,
+    -672,  -672,   499,  3905
   };
 
   const short
   asn1_parser::yydefact_[] =
   {
-       0,   500,     0,     2,     0,   147,     1,     3,   158,     0,
-     144,   145,   146,     0,   162,   155,   498,     0,   150,   153,
-     154,   152,   368,     0,   149,   157,     0,     0,     0,   164,
-     148,   151,     0,     0,   377,   161,   159,   160,     0,     0,
-       0,   378,   379,   375,     0,     0,   163,     0,   156,   377,
-     374,   169,   376,   171,   143,   173,     0,   497,   499,     0,
+       0,   508,     0,     2,     0,   147,     1,     3,   158,     0,
+     144,   145,   146,     0,   162,   155,   506,     0,   150,   153,
+     154,   152,   376,     0,   149,   157,     0,     0,     0,   164,
+     148,   151,     0,     0,   385,   161,   159,   160,     0,     0,
+       0,   386,   387,   383,     0,     0,   163,     0,   156,   385,
+     382,   169,   384,   171,   143,   173,     0,   505,   507,     0,
      170,   181,   183,   184,   186,     0,   175,     0,   168,   167,
        0,     0,     4,     0,   174,   176,     0,   191,   193,   194,
       95,    96,    97,    98,   165,   187,   189,   190,   192,     0,
-       0,   182,   185,   172,   177,     0,   188,    68,    11,   217,
-     312,     0,   391,   284,     0,     0,   385,   387,   388,     0,
-       0,   382,   228,   392,   393,   394,     0,   287,   395,   396,
-       0,   234,     0,   373,   397,   304,   372,   380,     0,     0,
-     399,   398,   383,   386,    10,   400,   247,   401,   402,   403,
-       0,     0,   353,   497,     0,   112,    67,     0,    83,   233,
-       0,     0,   216,   229,     0,   214,   197,   195,     0,   212,
-     219,   230,   226,   237,   218,   236,   232,   240,   241,   242,
-     243,   221,   215,   244,   347,     0,   235,   239,   231,   238,
-     225,   227,   245,   222,   246,   223,   224,   220,   389,   390,
-     213,   406,    84,     0,     0,     0,     0,   196,     0,   178,
-     179,   305,   404,     0,   381,     0,     0,     0,   360,   311,
+       0,   182,   185,   172,   177,     0,   188,    68,    11,   225,
+     320,     0,   399,   292,     0,     0,   393,   395,   396,     0,
+       0,   390,   236,   400,   401,   402,     0,   295,   403,   404,
+       0,   242,     0,   381,   405,   312,   380,   388,     0,     0,
+     407,   406,   391,   394,    10,   408,   255,   409,   410,   411,
+       0,     0,   361,   505,     0,   112,    67,     0,    83,   241,
+       0,     0,   224,   237,     0,   222,   197,   195,     0,   220,
+     227,   238,   234,   245,   226,   244,   240,   248,   249,   250,
+     251,   229,   223,   252,   355,     0,   243,   247,   239,   246,
+     233,   235,   253,   230,   254,   231,   232,   228,   397,   398,
+     221,   414,    84,     0,     0,     0,     0,   196,     0,   178,
+     179,   313,   412,     0,   389,     0,     0,     0,   368,   319,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,   497,    13,     6,     8,    12,    14,   209,     0,     7,
-     499,   111,     0,   104,     0,   108,   107,   110,   184,     0,
-     359,     0,     0,     0,     0,     0,     0,     0,   405,     0,
-       0,   348,     0,     0,     0,     0,     0,     0,     0,   180,
-       0,   344,     0,   340,   341,     0,   493,   303,     0,   296,
-     300,   302,   501,   114,     8,     0,     0,   289,     0,   333,
-     334,     0,   470,     0,   493,   313,   326,   329,     0,   315,
-     324,   293,   294,   458,   452,   453,   454,   384,     0,   312,
-       0,     0,     0,   286,     0,   460,   467,     0,     0,   285,
-       0,     0,     0,   455,   130,     0,   417,   119,   120,   121,
-     456,   199,   117,   471,   449,   457,   451,   493,   416,   418,
-     419,   422,     0,   424,     0,   427,     0,   430,   438,   440,
-     441,     0,   442,     0,   462,   444,   445,   443,   446,   447,
-     448,   198,     0,     0,     0,   337,   338,   335,     0,     0,
-       0,     0,     0,   103,     0,     0,   352,   357,   358,   356,
+       0,   505,    13,     6,     8,    12,    14,   217,     0,     7,
+     507,   111,     0,   104,     0,   108,   107,   110,   184,     0,
+     367,     0,     0,     0,     0,     0,     0,     0,   413,     0,
+       0,   356,     0,     0,     0,     0,     0,     0,     0,   180,
+       0,   352,     0,   348,   349,     0,   501,   311,     0,   304,
+     308,   310,   509,   114,     8,     0,     0,   297,     0,   341,
+     342,     0,   478,     0,   501,   321,   334,   337,     0,   323,
+     332,   301,   302,   466,   460,   461,   462,   392,     0,   320,
+       0,     0,     0,   294,     0,   468,   475,     0,     0,   293,
+       0,     0,     0,   463,   130,     0,   425,   119,   120,   121,
+     464,   199,   117,   479,   457,   465,   459,   501,   424,   426,
+     427,   430,     0,   432,     0,   435,     0,   438,   446,   448,
+     449,     0,   450,     0,   470,   452,   453,   451,   454,   455,
+     456,   198,     0,     0,     0,   345,   346,   343,     0,     0,
+       0,     0,     0,   103,     0,     0,   360,   365,   366,   364,
        0,    24,    25,    26,    93,    86,   102,    99,     0,   113,
-     261,   253,   254,   255,   266,   267,   251,   272,     0,   276,
-     270,   273,     0,   259,   497,   499,   206,   233,   257,     0,
-     202,   204,   205,     0,   271,   269,   249,   260,   250,   252,
-     198,     0,     0,   211,   350,   349,    94,   207,   346,    69,
-      85,     0,   251,   276,   275,   499,   262,   274,   210,     0,
-       0,   369,   370,     0,   363,   365,   366,   367,   368,     0,
-     307,     0,   339,     0,   248,     0,   299,   295,     0,     0,
-       0,   288,     0,     0,   322,     0,   327,     0,   330,   314,
-       0,     0,   423,     0,   140,     0,   472,   490,   491,     0,
-     476,    90,     0,    88,     0,     0,     0,     0,     0,   435,
-     434,     0,   437,   436,     0,   431,   459,     0,   463,     0,
-     409,   413,   410,   414,   336,   407,   411,   408,   412,    29,
-       0,     0,     0,    16,    18,    33,    19,    20,    21,    22,
-      23,   501,     9,   105,   106,   354,   355,     0,     0,   101,
-     256,   282,     0,     0,   200,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,   100,     0,     0,   370,     0,   361,
-     364,     0,   306,     0,     0,   342,   345,   495,     0,   494,
-     492,   493,   301,     0,     0,   290,   332,     0,   450,   455,
-     328,   331,   493,   325,   433,   129,     0,   141,   475,   473,
-       0,   474,     0,    87,     0,   439,     0,     0,   132,     0,
-     415,   420,   425,   428,   469,     0,   468,   461,   464,   208,
-      49,    36,    36,    36,    53,    55,     0,    30,     0,    31,
-      28,   351,    27,   268,   283,     0,   203,   277,   263,   279,
-     278,   280,   264,   265,   281,   362,     0,   308,     0,     0,
-       0,     0,   297,   292,   291,   323,   320,   316,   128,   111,
-     125,     0,     0,   110,     0,     0,     0,     0,   480,   485,
-      91,    89,   137,   134,   138,   131,     0,   201,     0,   465,
-       0,    47,    46,    34,    35,    45,    40,    40,    52,    51,
-      50,     0,    15,    17,    32,   258,   371,   309,   310,   343,
-     496,     0,     0,     0,     0,   122,     0,   142,   477,     0,
-     479,     0,   484,   482,   489,     0,   137,     0,     0,   133,
-     421,     0,    70,    48,    71,    72,    73,     0,    43,    42,
-       0,    38,    41,    37,     0,     0,   298,   321,   317,     0,
-     124,   123,   497,     0,   481,   487,   488,   486,   483,    92,
-     136,   135,   139,    24,    25,   503,   504,   505,   506,   251,
-     508,   509,   510,   391,   284,   272,   514,   515,   516,   517,
-     518,   519,   520,   385,   387,   523,   524,   388,   526,   527,
-     528,   529,   530,   531,   532,   533,   534,   382,   286,   537,
-     538,   539,   540,   541,   542,   543,   544,   276,   546,   547,
-     548,   549,   550,   551,   552,   553,   373,   270,   556,   557,
-     558,   559,   560,   304,   372,   380,   564,   565,   566,   567,
-     568,   569,   570,   383,   386,   285,   574,   575,   576,   577,
-     273,    66,   275,     0,    79,     0,     0,    77,    80,    81,
-      82,    65,    44,    39,    64,    54,     0,     0,    82,   478,
-      75,     0,    76,    78,   504,   507,   510,   511,   512,   513,
-     514,   515,   520,   521,   522,   525,   526,   530,   535,   536,
-     543,   545,   551,   552,   554,   555,   561,   562,   563,   564,
-     565,   571,   572,   573,   574,   578,    64,   502,    64,    56,
-      59,    58,     0,    62,   318,     0,    64,     5,    57,    61,
-      63,     0,    74,    60,   319,     0
+     213,   208,   209,   210,     0,   206,   211,     0,   202,   205,
+     204,   207,   212,     0,     0,   219,   358,   357,    94,   215,
+     354,    69,    85,     0,   269,   261,   262,   263,   274,   275,
+     259,   280,     0,   284,   278,   281,     0,   267,   283,   507,
+     270,   265,   282,   218,   279,   277,   257,   268,   258,   260,
+       0,   198,     0,   377,   378,     0,   371,   373,   374,   375,
+     376,     0,   315,     0,   347,     0,   256,     0,   307,   303,
+       0,     0,     0,   296,     0,     0,   330,     0,   335,     0,
+     338,   322,     0,     0,   431,     0,   140,     0,   480,   498,
+     499,     0,   484,    90,     0,    88,     0,     0,     0,     0,
+       0,   443,   442,     0,   445,   444,     0,   439,   467,     0,
+     471,     0,   417,   421,   418,   422,   344,   415,   419,   416,
+     420,    29,     0,     0,     0,    16,    18,    33,    19,    20,
+      21,    22,    23,   509,     9,   105,   106,   362,   363,     0,
+       0,   101,   290,     0,   200,     0,     0,     0,   100,   264,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+     378,     0,   369,   372,     0,   314,     0,     0,   350,   353,
+     503,     0,   502,   500,   501,   309,     0,     0,   298,   340,
+       0,   458,   463,   336,   339,   501,   333,   441,   129,     0,
+     141,   483,   481,     0,   482,     0,    87,     0,   447,     0,
+       0,   132,     0,   423,   428,   433,   436,   477,     0,   476,
+     469,   472,   216,    49,    36,    36,    36,    53,    55,     0,
+      30,     0,    31,    28,   359,    27,   214,   291,   203,   289,
+     276,     0,   285,   271,   287,   286,   288,   272,   273,   370,
+       0,   316,     0,     0,     0,     0,   305,   300,   299,   331,
+     328,   324,   128,   111,   125,     0,     0,   110,     0,     0,
+       0,     0,   488,   493,    91,    89,   137,   134,   138,   131,
+       0,   201,     0,   473,     0,    47,    46,    34,    35,    45,
+      40,    40,    52,    51,    50,     0,    15,    17,    32,   266,
+     379,   317,   318,   351,   504,     0,     0,     0,     0,   122,
+       0,   142,   485,     0,   487,     0,   492,   490,   497,     0,
+     137,     0,     0,   133,   429,     0,    70,    48,    71,    72,
+      73,     0,    43,    42,     0,    38,    41,    37,     0,     0,
+     306,   329,   325,     0,   124,   123,   505,     0,   489,   495,
+     496,   494,   491,    92,   136,   135,   139,    24,    25,   511,
+     512,   513,   514,   259,   516,   517,   518,   399,   292,   280,
+     522,   523,   524,   525,   526,   527,   528,   393,   395,   531,
+     532,   396,   534,   535,   536,   537,   538,   539,   540,   541,
+     542,   390,   294,   545,   546,   547,   548,   549,   550,   551,
+     552,   284,   554,   555,   556,   557,   558,   559,   560,   561,
+     381,   278,   564,   565,   566,   567,   568,   312,   380,   388,
+     572,   573,   574,   575,   576,   577,   578,   391,   394,   293,
+     582,   583,   584,   585,   281,    66,   283,   507,     0,    79,
+       0,     0,    77,    80,   241,    81,    82,    65,    44,    39,
+      64,    54,     0,     0,    82,   486,   259,   284,    75,     0,
+      76,    78,   512,   515,   518,   519,   520,   521,   522,   523,
+     528,   529,   530,   533,   534,   538,   543,   544,   551,   553,
+     559,   560,   562,   563,   569,   570,   571,   572,   573,   579,
+     580,   581,   582,   586,    64,   510,    64,    56,    59,    58,
+       0,    62,   326,     0,    64,     5,    57,    61,    63,     0,
+      74,    60,   327,     0
   };
 
   const short
   asn1_parser::yypgoto_[] =
   {
-    -663,   644,  -663,  -663,  -136,  -663,  -129,  -663,   407,  -663,
-    -663,    57,  -476,    86,  -663,  -663,  -663,  -192,  -663,    -3,
-    -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -205,  -563,
-    -663,  -663,  -663,  -662,  -457,  -663,   -22,  -663,  -663,  -663,
-    -663,  -663,  -150,  -146,   102,  -663,  -663,   419,  -663,   505,
-    -663,  -663,  -663,  -663,  -663,   578,  -663,   312,  -663,   104,
-    -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,
-      28,   -13,    -4,  -663,  -663,  -663,  -663,  -663,  -663,   659,
-    -663,   648,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,
-    -663,  -663,   607,  -663,   629,   615,  -120,   601,  -663,  -663,
-     -72,  -663,  -663,  -414,  -663,  -663,  -663,  -663,  -663,  -663,
-     374,  -663,  -188,  -229,  -253,  -663,  -663,     3,  -663,  -663,
-    -169,  -663,  -663,  -187,  -155,  -663,  -663,    16,  -432,  -663,
-    -663,  -663,   145,  -663,  -663,  -663,   474,  -543,  -442,  -663,
-    -663,  -663,  -663,  -663,  -663,    77,  -663,  -663,  -663,  -663,
-    -663,  -663,  -663,  -663,  -663,   -95,  -663,    71,   151,  -663,
-    -663,  -663,   682,  -663,   645,   654,  -663,  -663,  -663,  -663,
-     420,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,  -663,
-    -127,  -663,  -663,  -280,  -292,  -663,  -663,   218,  -663,   220,
-    -663,   369,  -663,  -663,   247,  -663,  -430,  -663,  -663,  -663,
-    -663,  -663,  -663,   121,  -121,  -663,  -663,  -663,  -663,  -663,
-    -338,  -663,  -663,  -663,  -663,  -663,  -663,  -258,  -663,   325,
-      -9,   530,    10,  -356,  -663
+    -672,   636,  -672,  -672,  -118,  -672,  -136,  -672,   397,  -672,
+    -672,    42,  -491,    84,  -672,  -672,  -672,  -227,  -672,   -19,
+    -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -221,  -561,
+    -672,  -672,  -672,  -671,  -433,  -672,   -34,  -672,  -672,  -672,
+    -672,  -672,  -166,  -162,    79,  -672,  -672,   409,  -672,   313,
+    -672,  -672,  -672,  -672,  -672,   558,  -672,   288,  -672,    85,
+    -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,
+       4,   -35,   -33,  -672,  -672,  -672,  -672,  -672,  -672,   638,
+    -672,   625,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,
+    -672,  -672,   587,  -672,   612,   599,  -121,   585,  -672,  -672,
+     348,  -672,  -672,  -424,  -672,  -672,  -672,  -672,  -672,  -672,
+    -672,   -63,  -672,  -191,  -672,   510,  -672,  -672,   -30,   289,
+    -672,   326,  -672,  -672,  -189,   314,  -672,  -672,    -3,  -444,
+    -672,  -672,  -672,   133,  -672,  -672,  -672,   463,  -553,  -459,
+    -672,  -672,  -672,  -672,  -672,  -672,    61,  -672,  -672,  -672,
+    -672,  -672,  -672,  -672,  -672,  -672,  -103,  -672,   126,   140,
+    -672,  -672,  -672,   675,  -672,   640,   643,  -672,  -672,  -672,
+    -672,   -86,  -672,  -672,  -672,  -672,  -672,  -672,  -672,  -672,
+    -672,  -113,  -672,  -672,  -277,  -303,  -672,  -672,   209,  -672,
+     208,  -672,   360,  -672,  -672,   227,  -672,  -427,  -672,  -672,
+    -672,  -672,  -672,  -672,   113,  -127,  -672,  -672,  -672,  -672,
+    -672,  -337,  -672,  -672,  -672,  -672,  -672,  -672,  -267,  -672,
+     534,    -9,    56,    10,  -348,  -672
   };
 
   const short
   asn1_parser::yydefgoto_[] =
   {
-       0,     2,     3,   815,   396,   223,   144,    77,   225,   226,
-     502,   503,   373,   416,   504,   505,   600,   655,   506,   702,
-     507,   508,   699,   509,   652,   510,   660,   662,   858,   859,
-     860,   861,   862,   863,   145,   146,   693,   694,   695,   805,
-     696,   806,   807,   808,   147,   148,    78,   314,   472,   149,
+       0,     2,     3,   821,   385,   223,   144,    77,   225,   226,
+     504,   505,   373,   398,   506,   507,   603,   659,   508,   706,
+     509,   510,   703,   511,   656,   512,   664,   666,   866,   867,
+     868,   869,   870,   871,   145,   146,   697,   698,   699,   810,
+     700,   811,   812,   813,   147,   148,    78,   314,   474,   149,
       79,    80,    81,    82,    83,   150,   232,   233,   234,   235,
-     151,   152,   153,   154,   315,   316,   317,   632,   318,   577,
-     578,   687,   643,   319,    65,     4,    10,    11,    12,    17,
+     151,   152,   153,   154,   315,   316,   317,   636,   318,   580,
+     581,   691,   647,   319,    65,     4,    10,    11,    12,    17,
       18,    19,    20,    14,    29,    39,    54,    55,    59,    67,
       73,    74,    75,   199,    76,    61,    62,    84,    85,   155,
-     398,   156,   321,   399,   400,   157,   322,    86,    87,    88,
-     323,   159,   287,   427,   403,   404,   405,   413,   522,   160,
-     406,   161,   276,   267,   407,   162,   268,   269,   270,   163,
-     164,   439,   440,   165,   166,   167,   288,   289,   290,   168,
-     169,   170,   171,   262,   263,   264,   172,   173,   174,   175,
-     240,   517,   370,   176,   259,   433,   434,   435,   436,   437,
-     177,   178,   408,    34,    45,    43,   179,   180,   181,   182,
-     409,   183,   184,   185,   186,   187,   188,   189,   190,   191,
-     248,   327,   328,   329,   330,   331,   332,   333,   334,   335,
-     336,   462,   481,   484,   337,   338,   339,   340,   341,   342,
-     343,   587,   344,   588,   345,   346,   347,   348,   569,   571,
-     637,   638,   683,   684,   718,   349,   350,   446,   550,   197,
-     193,   410,   198,   229,   811
+     421,   156,   321,   387,   388,   389,   157,   322,    86,    87,
+      88,   323,   159,   287,   422,   816,   424,   425,   395,   530,
+     160,   426,   161,   276,   267,   427,   162,   268,   269,   270,
+     163,   164,   441,   442,   165,   166,   167,   288,   289,   290,
+     168,   169,   170,   171,   262,   263,   264,   172,   173,   174,
+     175,   240,   519,   370,   176,   259,   435,   436,   437,   438,
+     439,   177,   178,   428,    34,    45,    43,   179,   180,   181,
+     182,   429,   183,   184,   185,   186,   187,   188,   189,   190,
+     191,   248,   327,   328,   329,   330,   331,   332,   333,   334,
+     335,   336,   464,   483,   486,   337,   338,   339,   340,   341,
+     342,   343,   590,   344,   591,   345,   346,   347,   348,   572,
+     574,   641,   642,   687,   688,   722,   349,   350,   448,   553,
+     197,   193,   351,   198,   229,   817
   };
 
   const short
   asn1_parser::yytable_[] =
   {
-      22,   214,   218,   428,   222,   231,   512,   215,   219,    22,
-       5,   224,   224,     5,   626,   261,   552,   402,   563,   473,
-     277,   236,   280,    15,   592,   560,   454,   561,   356,   804,
-      56,   419,   474,   419,   291,   292,   293,   294,   431,   295,
-     419,   296,   602,   515,   324,   291,   292,   804,   419,    95,
-     297,    97,   455,   367,   467,   419,   597,   586,   325,   431,
-     371,   372,   579,     1,   558,   618,   566,  -429,  -426,   477,
-     273,   653,   266,    98,   457,   545,   551,   274,   482,   479,
-      21,   210,   598,    71,   282,  -196,     8,   216,   650,    21,
-     658,   456,  -498,   303,   512,   654,   211,   252,   697,   194,
-      16,  -426,   211,    16,    16,   200,   700,   222,   213,   584,
-     715,   606,   480,   458,   224,   368,  -450,   224,   212,  -116,
-     213,   599,    70,  -450,   217,   519,   213,   651,   213,   659,
-     708,   213,   533,   252,   369,   520,  -429,   698,   213,   521,
-     309,   320,   324,   324,   804,   701,   621,   483,    57,    58,
-     228,   228,   363,   691,   134,   586,   325,   325,   511,    58,
-     585,    58,    25,   653,   364,   491,   493,    57,   534,    16,
-     716,   496,   498,     6,   717,   511,   512,   466,     1,   559,
-      58,   636,   712,     1,   230,    57,   432,   654,     1,    58,
-       1,    58,   272,   692,   265,  -466,   271,    26,   278,     9,
-     870,   281,  -466,   281,     1,    58,    23,   281,   281,    16,
-       1,    58,   567,  -498,  -498,   803,   275,   692,  -498,   451,
-    -497,    27,  -497,   352,  -497,   499,   500,  -118,   231,   501,
-     563,   452,    28,   803,  -497,   224,  -497,  -498,  -498,   320,
-     320,   531,   542,   324,   236,   514,  -116,   402,  -196,   438,
-     595,   441,   642,   228,   543,   546,   411,   325,    13,   645,
-     252,    30,   596,  -196,    16,   555,   430,   678,   430,   604,
-     813,   646,    33,   607,   608,   609,   610,   611,  -166,   679,
-     640,  -275,    53,   526,    32,  -275,   324,   527,   324,  -275,
-     549,   528,   324,   622,   554,   868,   402,   523,   516,    35,
-     325,  -498,   325,   868,   627,   247,   325,    38,   256,   378,
-     213,   421,   324,   213,   213,   324,   213,   430,   324,  -274,
-     512,   352,   352,  -274,    41,    42,   325,   374,   874,   325,
-      36,   379,   325,   207,  -287,  -287,   207,   538,  -287,   540,
-     320,   713,   568,   714,   281,   281,    37,   224,    57,    58,
-     281,   281,   371,   372,   469,   470,   690,   612,   613,    15,
-     537,    44,   537,   590,    46,   594,  -126,   213,   670,    47,
-     224,    48,   274,   547,   228,   563,    50,   553,    63,    51,
-     430,    66,   677,   320,   552,   320,   869,    68,   430,   320,
-      70,    63,    89,   719,    69,    63,   224,    71,   430,    63,
-     656,   657,   430,   324,    72,    92,    93,   201,   202,   320,
-      89,   203,   320,   204,   192,   320,   324,   325,   205,   206,
-     207,   711,   352,   438,   209,   438,   208,   239,   241,   629,
-     325,   430,   261,   563,   265,   242,   224,   245,   810,   271,
-     246,  -115,   430,   278,   430,   253,   254,   258,   260,   257,
-      16,   281,   213,   353,   354,   352,   818,   359,   360,   430,
-     361,   365,   311,   158,   196,   430,   238,   430,   362,   537,
-    -109,   352,   619,   412,   419,   430,   366,   442,   443,   324,
-     449,   447,   445,   448,   453,  -500,   411,   459,   460,   520,
-     461,   352,   468,   325,   352,   463,   450,   430,   465,   475,
-     320,   476,   478,   291,   292,   293,   294,  -432,   295,   228,
-     296,   275,   682,   320,   227,   237,   324,   546,   487,   297,
-     488,   489,  -118,   518,   244,   494,  -262,  -312,   524,   525,
-     325,   324,   430,   558,   441,   411,   430,   430,   430,   430,
-     430,   529,   523,   532,   530,   325,   535,   536,   281,   251,
-     810,   430,   539,   810,   430,   541,   544,   565,   557,   511,
-     570,   639,   303,   572,   573,   574,   576,   644,   575,   255,
-     580,   601,   581,   605,    58,   634,   320,   417,   584,   420,
-     623,   429,   352,    64,   279,   614,   286,   615,   620,   635,
-     355,   286,   624,   641,   647,   430,    64,    90,   648,   665,
-      64,   661,   666,   667,    64,   668,   676,   671,  -127,   309,
-     672,   265,   675,   320,   673,    90,   680,   377,   704,   681,
-     401,   674,   685,   414,   415,   814,   686,   418,   320,   819,
-     688,   430,   429,   326,   705,   816,  -501,   817,   865,   444,
-     -11,   -10,   872,   821,   871,   430,   875,     7,   559,    58,
-     376,   866,   710,   663,   703,   444,   823,   820,   352,   214,
-     218,   375,   271,   281,   281,   215,   219,   630,   195,   631,
-     639,    64,   639,   720,   689,   464,   513,    31,   644,   722,
-      40,    94,    60,   721,   352,    91,    96,   706,   617,   238,
-      63,   358,   616,    24,    52,   352,   265,   669,    49,   582,
-     812,   352,     0,   429,   583,   485,   649,     0,   564,     0,
-     430,     0,     0,   429,     0,   486,     0,   429,     0,   352,
-       0,     0,     0,     0,     0,     0,     0,   490,   492,     0,
-       0,   326,   326,   495,   497,     0,     0,     0,   237,     0,
-       0,     0,     0,   351,     0,     0,   429,     0,     0,     0,
-       0,   397,   430,     0,     0,     0,     0,     0,     0,     0,
-       0,   426,     0,   291,   292,   293,   294,     0,   295,     0,
-     296,     0,     0,     0,     0,     0,     0,     0,     0,   297,
-       0,     0,     0,     0,     0,     0,     0,     0,   351,     0,
-     429,     0,     0,   558,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,   271,   281,     0,
-       0,     0,   426,   352,     0,     0,   352,     0,     0,   548,
-       0,     0,   303,     0,     0,     0,     0,   556,     0,     0,
-       0,     0,   326,     0,   286,     0,     0,     0,     0,     0,
-       0,   351,   351,     0,     0,     0,     0,   429,     0,     0,
-     401,   429,   429,   429,   429,   429,     0,     0,     0,     0,
-       0,     0,   281,     0,     0,     0,   281,     0,     0,   309,
-       0,     0,     0,   591,   593,   326,     0,   326,     0,     0,
-       0,   326,     0,   426,     0,     0,     0,     0,     0,     0,
-     192,     0,     0,   426,    64,    64,     0,   426,     0,   401,
-     351,   326,     0,     0,   326,     0,     0,   326,   559,    58,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,   426,     0,     0,     0,
-       0,   286,     0,     0,     0,     0,     0,     0,     0,   633,
-       0,     0,   351,     0,     0,     0,   429,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-     429,     0,   351,     0,   351,     0,     0,     0,     0,     0,
-     426,     0,   664,     0,     0,   351,     0,     0,     0,   351,
-       0,   397,     0,     0,     0,   351,     0,   351,     0,     0,
-       0,   351,   326,     0,     0,     0,     0,     0,     0,   429,
-       0,   420,     0,     0,     0,   326,     0,     0,     0,     0,
-       0,   351,     0,     0,   351,     0,     0,   351,     0,   589,
-       0,     0,     0,     0,     0,     0,     0,   426,     0,     0,
-     397,   426,   426,   426,   426,   426,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,   286,   286,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,   589,     0,     0,   809,   589,   429,   326,     0,
-       0,   351,     0,     0,   351,     0,     0,     0,     0,     0,
-       0,     0,     0,   809,     0,     0,     0,   291,   292,   380,
-     381,     0,   382,     0,   383,     0,     0,     0,     0,     0,
-       0,     0,   351,   297,     0,   326,     0,   384,   385,     0,
-       0,     0,     0,    98,     0,   351,     0,   422,     0,     0,
-     326,     0,     0,   387,     0,     0,   426,     0,     0,     0,
-     388,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-     426,     0,     0,     0,     0,     0,   303,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,   423,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,   390,     0,     0,     0,     0,   809,   351,   426,
-     809,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,   286,     0,   309,   134,     0,   397,     0,     0,     0,
-       0,     0,     0,   391,     0,     0,     0,   392,   603,     0,
-       0,     0,     0,     0,   397,   351,    23,     0,     0,     0,
-       0,     0,     0,     0,   393,     0,     0,     0,     0,     0,
-     351,     0,   424,   425,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,   286,     0,   426,     0,   286,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+      22,   215,   219,   566,   224,   224,   555,   630,   475,    22,
+       5,   595,   261,     5,   514,   214,   218,   456,   277,   280,
+     236,   433,   222,   231,   809,   356,   158,   196,   517,   605,
+     563,   433,   564,    15,   569,   476,   291,   292,   293,   294,
+      56,   295,   809,   296,    97,   371,   372,   291,   292,     1,
+    -437,   459,   297,   654,   582,   457,    98,   401,   662,   484,
+     479,   401,   589,    95,   701,   657,   561,   622,   401,   704,
+     274,   367,  -116,   401,   600,   532,   213,   227,   237,   533,
+     247,     6,   401,   534,  -506,   213,   252,   244,   273,   658,
+     460,   625,   655,   266,   458,   303,   719,   663,   282,   194,
+     601,   608,   213,   702,   514,   200,   213,   224,   705,    64,
+     224,   587,   251,   291,   292,   293,   294,   527,   295,  -437,
+     296,    16,    64,    90,   712,   222,    64,   326,   485,   297,
+      64,   213,   255,   368,  -166,    21,    70,   134,    53,   602,
+     809,    90,   309,   561,    21,   363,   695,   279,  -458,   286,
+     228,   228,   369,   355,   286,  -458,   720,   364,    57,    58,
+     721,   589,   493,   495,    57,    58,     1,   230,   498,   500,
+      57,     1,   303,     1,    58,   272,     1,    58,   514,    16,
+     377,   562,    58,   390,   513,    58,   396,   397,   587,    58,
+     400,   468,     1,    58,   265,    57,   271,    64,   278,   878,
+     513,   281,   446,   281,   808,  -506,  -506,   281,   281,   716,
+    -506,   657,     1,    58,   548,  -434,   275,   566,   446,   309,
+    -118,   696,   808,   352,   481,   326,   326,   554,   224,  -506,
+    -506,   256,   210,   640,   538,   658,   213,   216,   466,   588,
+      26,     8,    16,   236,   516,   696,   231,   211,  -434,   440,
+     453,   443,   211,   228,   549,    16,   393,   482,   562,    58,
+    -474,    16,   454,     9,    27,   558,   432,  -474,   432,   212,
+      13,   213,   644,  -505,   217,    28,   213,   819,   488,    71,
+    -505,  -196,  -505,   545,   378,  -505,  -116,   626,  -196,   213,
+     492,   494,   598,   252,  -505,   546,   497,   499,   631,   646,
+     252,   237,   649,  -196,   599,   876,   682,   207,   326,  -295,
+     403,    16,   431,   876,   650,   213,    25,   432,   683,   501,
+     502,   352,   352,   503,   531,   374,   882,    23,  -506,   379,
+      32,   541,   514,   543,    41,    42,   291,   292,   293,   294,
+      30,   295,   224,   296,   281,   281,   717,    33,   718,   694,
+     281,   281,   297,   371,   372,   471,   472,    35,   571,   617,
+     618,  -126,   213,   431,   566,   224,   561,   274,   660,   661,
+      36,   326,    37,   326,   228,    15,    38,   326,   555,   877,
+     432,    46,    44,   593,   551,   597,   723,    48,   432,   224,
+      47,    50,   559,    51,   432,   303,    66,   326,    68,   286,
+     326,    69,    70,   326,   352,    71,    72,    92,   201,    93,
+     202,   203,   204,   432,   205,   390,   207,   206,   208,   209,
+      64,    64,   432,   239,   566,   440,   432,   440,   246,   241,
+     242,   245,   224,   261,   431,   254,   265,   257,   594,   596,
+     431,   271,   309,  -115,   432,   278,   432,   258,   253,   260,
+     633,    16,   353,   281,   213,   354,   359,   352,   361,   431,
+     360,   432,   390,   365,   311,   362,   394,   432,   431,   432,
+     401,   444,   431,   352,  -109,   445,   447,   432,   366,   449,
+     450,   562,    58,  -508,   451,   452,   455,   461,   393,   326,
+     462,   463,   465,   352,   467,   470,   352,   286,   477,   432,
+     478,   480,   326,  -440,   489,   637,  -118,   490,   491,   496,
+     520,   228,   524,   275,   531,   525,   542,   526,   549,   544,
+     535,   547,   568,   431,   537,   536,   560,   325,   539,   573,
+     686,   575,   584,   432,   513,   393,   576,   443,   668,   324,
+     432,   577,   432,   432,   432,   432,   432,   592,   578,   583,
+     579,   281,   604,   609,   432,   611,   619,   432,    58,   627,
+     392,   320,   624,   628,   643,   639,   326,   651,   645,   420,
+     648,   652,   391,   665,   669,   675,   670,   671,   638,   431,
+     676,   677,   592,   672,  -127,   352,   431,    63,   431,   431,
+     431,   431,   431,   679,   386,   592,   678,   684,   432,   680,
+      63,    89,   685,   326,    63,   690,   434,   689,    63,   692,
+     708,   709,   820,   286,   286,   265,   822,   823,   326,    89,
+     420,   825,  -509,   192,   -11,   325,   325,  -320,   -10,   829,
+    -270,   873,   815,   880,   879,   432,   883,   324,   324,     7,
+     376,   667,   707,   874,   714,   831,   828,   634,   195,   432,
+     815,   375,   515,   635,   693,   724,    31,    40,   725,   320,
+     320,    94,   352,   215,   219,    60,   271,   281,   281,    91,
+      96,   818,   710,   523,   643,   238,   643,   214,   218,   621,
+     358,   431,   648,   726,   620,   673,    24,    49,   352,    52,
+     567,   420,   585,     0,   586,   431,   487,   420,     0,   352,
+     265,   653,     0,     0,     0,   352,     0,     0,   325,     0,
+       0,     0,     0,     0,   432,     0,   420,     0,   518,     0,
+     324,     0,     0,   352,     0,   420,     0,     0,     0,   420,
+       0,     0,     0,     0,   431,     0,     0,     0,     0,     0,
+       0,     0,   320,     0,     0,   815,     0,     0,   815,     0,
+       0,   431,     0,     0,     0,     0,   432,     0,     0,     0,
+     286,   552,     0,     0,     0,   557,   423,     0,     0,   431,
+       0,   325,     0,   325,     0,     0,     0,   325,     0,     0,
+     420,     0,   540,   324,   540,   324,   399,     0,   402,   324,
+     430,     0,   392,     0,     0,   550,     0,   325,     0,   556,
+     325,     0,   431,   325,   391,   320,     0,   320,     0,   324,
+       0,   320,   324,   271,   281,   324,   286,   469,   352,     0,
+     286,   352,     0,     0,     0,     0,   386,     0,     0,     0,
+       0,   320,     0,     0,   320,     0,   420,   320,     0,   392,
+       0,   430,     0,   420,     0,   420,   420,   420,   420,   420,
+       0,   391,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,   431,     0,     0,   431,     0,     0,
+     281,     0,     0,   386,   281,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,   521,   325,
+       0,     0,   540,     0,   522,   623,     0,     0,   238,    63,
+       0,   324,   325,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,   430,   528,   324,     0,     0,     0,   430,     0,
+       0,     0,   529,   320,     0,     0,   522,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,   320,   430,   420,     0,
+       0,     0,     0,     0,     0,     0,   430,     0,     0,     0,
+     430,     0,   420,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,   325,     0,     0,   291,
+     292,   404,   405,     0,   406,     0,   407,   570,   324,     0,
+       0,     0,     0,     0,     0,   297,     0,     0,     0,   408,
+     409,   420,     0,     0,     0,    98,     0,     0,     0,   410,
+     320,   430,     0,   325,     0,   411,     0,     0,   814,     0,
+       0,     0,   412,     0,     0,   324,     0,     0,   325,     0,
+       0,     0,     0,     0,     0,     0,   814,     0,   303,     0,
+     324,     0,     0,   607,     0,     0,     0,   320,     0,     0,
+     607,   413,   612,   613,   614,   615,   616,     0,     0,     0,
+       0,     0,   320,     0,   414,     0,     0,   430,     0,   420,
+       0,     0,     0,     0,   430,     0,   430,   430,   430,   430,
+     430,     0,     0,     0,     0,   309,   134,     0,     0,     0,
+       0,     0,     0,     0,     0,   415,     0,     0,     0,   416,
+     606,     0,     0,     0,     0,     0,     0,     0,    23,     0,
+       0,     0,   192,     0,     0,     0,   417,     0,     0,     0,
+       0,     0,     0,     0,   418,   419,     0,     0,     0,     0,
+       0,   814,     0,     0,   814,     0,   291,   292,   404,   405,
+       0,   406,     0,   407,     0,   674,     0,     0,     0,     0,
+       0,     0,   297,     0,     0,     0,   408,   409,     0,   681,
+       0,     0,    98,     0,     0,     0,   410,     0,     0,   430,
+       0,     0,   411,     0,     0,     0,     0,     0,     0,   412,
+       0,     0,     0,   430,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,   303,     0,     0,   715,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,   413,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,   414,   430,     0,   402,     0,     0,     0,     0,     0,
+       0,     0,     0,   824,     0,     0,     0,     0,     0,     0,
+       0,     0,   309,   134,     0,     0,     0,     0,     0,     0,
+       0,     0,   415,     0,     0,     0,   416,   610,     0,     0,
+       0,     0,     0,     0,     0,    23,   529,   291,   292,   404,
+     405,     0,   406,   417,   407,     0,     0,     0,     0,     0,
+       0,   418,   419,   297,     0,    97,     0,   408,   409,     0,
+     430,     0,   729,   730,   731,    99,   732,   733,   734,   735,
+     736,   737,   738,   739,   740,   741,   742,   743,   744,   745,
+     746,   747,   748,   749,   750,   751,   752,   753,   754,   755,
+     756,   757,   758,   759,   760,   761,   762,   763,   112,   113,
+     114,   115,   764,   765,   766,   767,   768,   769,   770,   771,
+     772,   118,   773,   774,   775,   776,   119,   777,   121,   778,
+     779,   780,   781,   782,   783,   784,   785,   124,   786,   787,
+     788,   789,   790,   791,   792,   793,   794,   795,   130,   796,
+     131,   797,   798,   799,   800,   801,   802,   803,   135,   136,
+     137,   138,   139,   804,     0,     0,     0,   416,   830,     0,
+       0,   142,     0,     0,     0,     0,    23,     0,     0,     0,
+     805,     0,     0,     0,   417,     0,     0,     0,     0,     0,
+       0,     0,   806,   807,   291,   292,   404,   405,     0,   406,
+       0,   407,     0,     0,     0,     0,     0,     0,     0,     0,
+     297,     0,    97,     0,   727,   728,     0,     0,     0,   729,
+     730,   731,    99,   732,   733,   734,   735,   736,   737,   738,
+     739,   740,   741,   742,   743,   744,   745,   746,   747,   748,
+     749,   750,   751,   752,   753,   754,   755,   756,   757,   758,
+     759,   760,   761,   762,   763,   112,   113,   114,   115,   764,
+     765,   766,   767,   768,   769,   770,   771,   772,   118,   773,
+     774,   775,   776,   119,   777,   121,   778,   779,   780,   781,
+     782,   783,   784,   785,   124,   786,   787,   788,   789,   790,
+     791,   792,   793,   794,   795,   130,   796,   131,   797,   798,
+     799,   800,   801,   802,   803,   135,   136,   137,   138,   139,
+     804,     0,     0,     0,   416,     0,     0,     0,   142,   291,
+     292,   293,   294,    23,   295,     0,   296,   805,     0,     0,
+       0,   417,     0,     0,     0,   297,     0,    97,     0,   806,
+     807,     0,     0,     0,     0,    98,   298,    99,     0,   299,
+       0,     0,   101,   102,   103,     0,   104,   105,     0,     0,
+       0,   300,   301,   106,   107,     0,     0,   108,   109,   302,
+       0,     0,   110,     0,     0,     0,     0,   111,   303,   304,
+     112,   113,   114,   115,     0,     0,     0,     0,   305,   116,
+       0,   117,     0,   118,     0,   306,     0,     0,   119,   120,
+     121,   122,     0,   123,     0,   307,     0,     0,     0,   124,
+       0,   125,   126,   127,   128,   129,   308,   211,     0,     0,
+     130,     0,   131,   132,   133,   309,   134,     0,     0,     0,
+     135,   136,   137,   138,   139,   310,     0,     0,     0,   311,
+       0,   312,     0,   142,   291,   292,   293,   294,     0,   295,
+       0,   296,     0,     0,     0,     0,     0,     0,     0,     0,
+     297,     0,    97,     0,   313,   230,     0,     0,     0,     0,
+      98,   298,    99,     0,   299,     0,     0,   101,   102,   103,
+       0,   104,   105,     0,     0,     0,     0,     0,   106,   107,
+       0,     0,   108,   109,     0,     0,     0,   110,     0,     0,
+       0,     0,   111,   303,   304,   112,   113,   114,   115,     0,
+       0,     0,     0,   305,   116,     0,   117,     0,   118,     0,
+     306,     0,     0,   119,   120,   121,   122,     0,   123,     0,
+     307,     0,     0,     0,   124,     0,   125,   126,   127,   128,
+     129,   308,   211,     0,     0,   130,     0,   131,   132,   133,
+     309,   134,     0,     0,     0,   135,   136,   137,   138,   139,
+     310,     0,   473,     0,     0,     0,   312,     0,   142,   291,
+     292,   293,   294,     0,   295,     0,   296,     0,     0,     0,
+       0,     0,     0,     0,     0,   297,     0,    97,     0,   313,
+     230,     0,     0,     0,     0,    98,   298,    99,     0,   299,
+       0,     0,   101,   102,   103,     0,   104,   105,     0,     0,
+       0,     0,     0,   106,   107,     0,     0,   108,   109,     0,
+       0,     0,   110,     0,     0,     0,     0,   111,   303,   304,
+     112,   113,   114,   115,     0,     0,     0,     0,   305,   116,
+       0,   117,     0,   118,     0,   306,     0,     0,   119,   120,
+     121,   122,     0,   123,     0,   307,     0,     0,     0,   124,
+       0,   125,   126,   127,   128,   129,   308,   211,     0,     0,
+     130,     0,   131,   132,   133,   309,   134,     0,     0,     0,
+     135,   136,   137,   138,   139,   310,     0,     0,     0,     0,
+       0,   312,     0,   142,     0,     0,     0,     0,     0,     0,
+     291,   292,   404,   405,     0,   406,     0,   407,     0,     0,
+       0,     0,     0,     0,   313,   230,   297,     0,    97,     0,
+     408,   409,     0,     0,     0,     0,    98,     0,    99,     0,
+     826,     0,     0,   101,   102,   103,   411,   104,   105,     0,
+       0,     0,     0,   412,   106,   107,     0,     0,   108,   109,
+       0,     0,     0,   110,     0,     0,     0,     0,   111,   303,
+       0,   112,   113,   114,   115,     0,     0,     0,     0,     0,
+     116,     0,   827,     0,   118,     0,     0,     0,     0,   119,
+     120,   121,   122,     0,   123,   414,     0,     0,     0,     0,
+     124,     0,   125,   126,   127,   128,   129,     0,     0,     0,
+       0,   130,     0,   131,   132,   133,   309,   134,     0,     0,
+       0,   135,   136,   137,   138,   139,   415,     0,     0,     0,
+     416,     0,     0,     0,   142,   291,   292,   293,   294,    23,
+     295,     0,   296,     0,     0,     0,     0,   417,     0,     0,
+       0,   297,     0,    97,     0,   418,   807,     0,     0,     0,
+       0,    98,     0,    99,     0,   299,     0,     0,   101,   102,
+     103,     0,   104,   105,     0,     0,     0,     0,     0,   106,
+     107,     0,     0,   108,   109,     0,     0,     0,   110,     0,
+       0,     0,     0,   111,   303,   304,   112,   113,   114,   115,
+       0,     0,     0,     0,   305,   116,     0,   117,     0,   118,
+       0,   306,     0,     0,   119,   120,   121,   122,     0,   123,
+       0,   307,     0,     0,     0,   124,     0,   125,   126,   127,
+     128,   129,   308,   211,     0,     0,   130,     0,   131,   132,
+     133,   309,   134,     0,     0,     0,   135,   136,   137,   138,
+     139,   310,     0,     0,     0,     0,     0,   312,     0,   142,
+     291,   292,   380,   381,     0,   382,     0,   383,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,    97,     0,
+     313,   230,     0,     0,     0,     0,    98,     0,    99,     0,
+     100,     0,     0,   101,   102,   103,     0,   104,   105,     0,
+       0,     0,     0,     0,   106,   107,     0,     0,   108,   109,
+       0,     0,     0,   110,     0,     0,     0,     0,   111,   303,
+       0,   112,   113,   114,   115,     0,     0,     0,     0,     0,
+     116,     0,   117,     0,   118,     0,     0,     0,     0,   119,
+     120,   121,   122,     0,   123,     0,     0,     0,     0,     0,
+     124,     0,   125,   126,   127,   128,   129,     0,     0,   291,
+     292,   130,     0,   131,   132,   133,   309,   134,     0,     0,
+       0,   135,   136,   137,   138,   139,     0,    97,     0,     0,
+     384,     0,     0,     0,   142,    98,     0,    99,     0,   100,
+       0,     0,   101,   102,   103,     0,   104,   105,     0,     0,
+       0,     0,     0,   106,   107,   221,   230,   108,   109,     0,
+       0,     0,   110,     0,     0,     0,     0,   111,     0,     0,
+     112,   113,   114,   115,     0,     0,     0,     0,     0,   116,
+       0,   117,     0,   118,     0,     0,     0,     0,   119,   120,
+     121,   122,     0,   123,     0,     0,     0,     0,     0,   124,
+       0,   125,   126,   127,   128,   129,     0,     0,     0,     0,
+     130,     0,   131,   132,   133,     0,   134,     0,     0,     0,
+     135,   136,   137,   138,   139,     0,     0,   291,   292,   404,
+     405,     0,   406,   142,   407,     0,     0,     0,     0,     0,
+       0,     0,     0,   297,     0,    97,     0,   408,   409,     0,
+       0,     0,     0,    98,   143,   230,     0,   410,     0,   291,
+     292,   404,   405,   411,   406,     0,   407,     0,     0,     0,
+     412,     0,     0,     0,     0,   297,     0,     0,     0,   408,
+     409,     0,     0,     0,     0,    98,   303,     0,     0,   410,
+       0,     0,     0,     0,     0,   411,     0,     0,     0,   413,
+       0,     0,   412,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,   414,     0,     0,     0,     0,     0,   303,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,   291,
-     292,   380,   381,     0,   382,     0,   383,     0,     0,     0,
-       0,     0,     0,     0,     0,   297,     0,    97,   397,   384,
-     385,   397,     0,     0,   725,   726,   727,    99,   728,   729,
-     730,   731,   732,   733,   734,   735,   736,   737,   738,   739,
-     740,   741,   742,   743,   744,   745,   746,   747,   748,   749,
-     750,   751,   752,   753,   754,   755,   756,   757,   758,   759,
-     112,   113,   114,   115,   760,   761,   762,   763,   764,   765,
-     766,   767,   768,   118,   769,   770,   771,   772,   119,   773,
-     121,   774,   775,   776,   777,   778,   779,   780,   781,   124,
-     782,   783,   784,   785,   786,   787,   788,   789,   790,   791,
-     130,   792,   131,   793,   794,   795,   796,   797,   798,   799,
-     135,   136,   137,   138,   139,   800,     0,     0,     0,   392,
-     822,     0,     0,   142,     0,     0,     0,     0,    23,     0,
-       0,     0,   801,     0,     0,     0,   393,     0,     0,     0,
-       0,     0,     0,     0,   802,   395,   291,   292,   380,   381,
-       0,   382,     0,   383,     0,     0,     0,     0,     0,     0,
-       0,     0,   297,     0,    97,     0,   723,   724,     0,     0,
-       0,   725,   726,   727,    99,   728,   729,   730,   731,   732,
-     733,   734,   735,   736,   737,   738,   739,   740,   741,   742,
-     743,   744,   745,   746,   747,   748,   749,   750,   751,   752,
-     753,   754,   755,   756,   757,   758,   759,   112,   113,   114,
-     115,   760,   761,   762,   763,   764,   765,   766,   767,   768,
-     118,   769,   770,   771,   772,   119,   773,   121,   774,   775,
-     776,   777,   778,   779,   780,   781,   124,   782,   783,   784,
-     785,   786,   787,   788,   789,   790,   791,   130,   792,   131,
-     793,   794,   795,   796,   797,   798,   799,   135,   136,   137,
-     138,   139,   800,     0,     0,     0,   392,     0,     0,     0,
-     142,   291,   292,   293,   294,    23,   295,     0,   296,   801,
-       0,     0,     0,   393,     0,     0,     0,   297,     0,    97,
-       0,   802,   395,     0,     0,     0,     0,    98,   298,    99,
-       0,   299,     0,     0,   101,   102,   103,     0,   104,   105,
-       0,     0,     0,   300,   301,   106,   107,     0,     0,   108,
-     109,   302,     0,     0,   110,     0,     0,     0,     0,   111,
-     303,   304,   112,   113,   114,   115,     0,     0,     0,     0,
-     305,   116,     0,   117,     0,   118,     0,   306,     0,     0,
-     119,   120,   121,   122,     0,   123,     0,   307,     0,     0,
-       0,   124,     0,   125,   126,   127,   128,   129,   308,   211,
-       0,     0,   130,     0,   131,   132,   133,   309,   134,     0,
-       0,     0,   135,   136,   137,   138,   139,   310,     0,     0,
-       0,   311,     0,   312,     0,   142,   291,   292,   293,   294,
-       0,   295,     0,   296,     0,     0,     0,     0,     0,     0,
-       0,     0,   297,     0,    97,     0,   313,   230,     0,     0,
-       0,     0,    98,   298,    99,     0,   299,     0,     0,   101,
-     102,   103,     0,   104,   105,     0,     0,     0,     0,     0,
-     106,   107,     0,     0,   108,   109,     0,     0,     0,   110,
-       0,     0,     0,     0,   111,   303,   304,   112,   113,   114,
-     115,     0,     0,     0,     0,   305,   116,     0,   117,     0,
-     118,     0,   306,     0,     0,   119,   120,   121,   122,     0,
-     123,     0,   307,     0,     0,     0,   124,     0,   125,   126,
-     127,   128,   129,   308,   211,     0,     0,   130,     0,   131,
-     132,   133,   309,   134,     0,     0,     0,   135,   136,   137,
-     138,   139,   310,     0,   471,     0,     0,     0,   312,     0,
-     142,     0,     0,     0,     0,     0,     0,   291,   292,   380,
-     381,     0,   382,     0,   383,     0,     0,     0,     0,     0,
-       0,   313,   230,   297,     0,    97,     0,   384,   385,     0,
-       0,     0,     0,    98,     0,    99,     0,   386,     0,     0,
-     101,   102,   103,   387,   104,   105,     0,     0,     0,     0,
-     388,   106,   107,     0,     0,   108,   109,     0,     0,     0,
-     110,     0,     0,     0,     0,   111,   303,     0,   112,   113,
-     114,   115,     0,     0,     0,     0,     0,   116,     0,   389,
-       0,   118,     0,     0,     0,     0,   119,   120,   121,   122,
-       0,   123,   390,     0,     0,     0,     0,   124,     0,   125,
-     126,   127,   128,   129,     0,     0,     0,     0,   130,     0,
-     131,   132,   133,   309,   134,     0,     0,     0,   135,   136,
-     137,   138,   139,   391,     0,     0,     0,   392,     0,     0,
-       0,   142,   291,   292,   293,   294,    23,   295,     0,   296,
-       0,     0,     0,     0,   393,     0,     0,     0,   297,     0,
-      97,     0,   394,   395,     0,     0,     0,     0,    98,   298,
-      99,     0,   299,     0,     0,   101,   102,   103,     0,   104,
-     105,     0,     0,     0,     0,     0,   106,   107,     0,     0,
-     108,   109,     0,     0,     0,   110,     0,     0,     0,     0,
-     111,   303,   304,   112,   113,   114,   115,     0,     0,     0,
-       0,   305,   116,     0,   117,     0,   118,     0,   306,     0,
-       0,   119,   120,   121,   122,     0,   123,     0,   307,     0,
-       0,     0,   124,     0,   125,   126,   127,   128,   129,   308,
-     211,     0,     0,   130,     0,   131,   132,   133,   309,   134,
-       0,     0,     0,   135,   136,   137,   138,   139,   310,     0,
-       0,     0,     0,     0,   312,     0,   142,     0,     0,     0,
-       0,     0,     0,   291,   292,   380,   381,     0,   382,     0,
-     383,     0,     0,     0,     0,     0,     0,   313,   230,   297,
-       0,    97,     0,   384,   385,     0,     0,     0,     0,    98,
-       0,    99,     0,   386,     0,     0,   101,   102,   103,   387,
-     104,   105,     0,     0,     0,     0,   388,   106,   107,     0,
-       0,   108,   109,     0,     0,     0,   110,     0,     0,     0,
-       0,   111,   303,     0,   112,   113,   114,   115,     0,     0,
-       0,     0,     0,   116,     0,   389,     0,   118,     0,     0,
-       0,     0,   119,   120,   121,   122,     0,   123,   390,     0,
-       0,     0,     0,   124,     0,   125,   126,   127,   128,   129,
-       0,     0,     0,     0,   130,     0,   131,   132,   133,   309,
-     134,     0,     0,     0,   135,   136,   137,   138,   139,   391,
-       0,     0,     0,   392,     0,     0,     0,   142,   291,   292,
-     293,   294,    23,   295,     0,   296,     0,     0,     0,     0,
-     393,     0,     0,     0,   297,     0,    97,     0,   424,   395,
-       0,     0,     0,     0,    98,     0,    99,     0,   299,     0,
-       0,   101,   102,   103,     0,   104,   105,     0,     0,     0,
-       0,     0,   106,   107,     0,     0,   108,   109,     0,     0,
-       0,   110,     0,     0,     0,     0,   111,   303,   304,   112,
-     113,   114,   115,     0,     0,     0,     0,   305,   116,     0,
-     117,     0,   118,     0,   306,     0,     0,   119,   120,   121,
-     122,     0,   123,     0,   307,     0,     0,     0,   124,     0,
-     125,   126,   127,   128,   129,   308,   211,   291,   292,   130,
-       0,   131,   132,   133,   309,   134,     0,     0,     0,   135,
-     136,   137,   138,   139,   310,    97,     0,     0,     0,     0,
-     312,     0,   142,    98,     0,    99,     0,   100,     0,     0,
-     101,   102,   103,     0,   104,   105,     0,     0,     0,     0,
-       0,   106,   107,   313,   230,   108,   109,     0,     0,     0,
-     110,     0,     0,     0,     0,   111,     0,     0,   112,   113,
-     114,   115,     0,     0,     0,     0,     0,   116,     0,   117,
-       0,   118,     0,     0,     0,     0,   119,   120,   121,   122,
-       0,   123,     0,     0,     0,     0,     0,   124,     0,   125,
-     126,   127,   128,   129,     0,     0,     0,     0,   130,     0,
-     131,   132,   133,     0,   134,     0,     0,     0,   135,   136,
-     137,   138,   139,     0,     0,   291,   292,   380,   381,     0,
-     382,   142,   383,     0,     0,     0,     0,     0,     0,     0,
-       0,   297,     0,    97,     0,   384,   385,     0,     0,     0,
-       0,    98,   143,   230,     0,   422,     0,   291,   292,   380,
-     381,   387,   382,     0,   383,     0,     0,     0,   388,     0,
-       0,     0,     0,   297,     0,     0,     0,   384,   385,     0,
-       0,     0,     0,    98,   303,     0,     0,   422,     0,     0,
-       0,     0,     0,   387,     0,     0,     0,   423,     0,     0,
-     388,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-     390,     0,     0,     0,     0,     0,   303,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,   423,
-       0,   309,   134,     0,     0,     0,     0,     0,     0,     0,
-       0,   391,   390,     0,     0,   709,     0,     0,     0,     0,
-       0,     0,     0,     0,    23,     0,     0,     0,     0,     0,
-       0,     0,   393,   309,   134,     0,     0,     0,     0,     0,
-     424,   425,     0,   391,     0,     0,     0,   392,     0,     0,
-       0,    97,     0,     0,     0,     0,    23,     0,     0,    98,
-       0,    99,     0,   100,   393,     0,   101,   102,   103,     0,
-     104,   105,   424,   425,   283,     0,     0,   106,   107,     0,
-       0,   108,   109,     0,     0,     0,   110,     0,     0,     0,
+       0,   413,     0,   309,   134,     0,     0,     0,     0,     0,
+       0,     0,     0,   415,   414,     0,     0,   713,     0,     0,
+       0,     0,     0,     0,     0,     0,    23,     0,     0,     0,
+       0,     0,     0,     0,   417,   309,   134,     0,     0,     0,
+       0,     0,   418,   419,     0,   415,     0,     0,     0,   416,
+       0,     0,     0,    97,     0,     0,     0,     0,    23,     0,
+       0,    98,     0,    99,     0,   100,   417,     0,   101,   102,
+     103,     0,   104,   105,   418,   419,   283,     0,     0,   106,
+     107,     0,     0,   108,   109,     0,     0,     0,   110,     0,
+       0,     0,     0,   111,     0,     0,   112,   113,   114,   115,
+       0,     0,     0,     0,     0,   116,     0,   117,     0,   118,
+       0,     0,     0,     0,   119,   120,   121,   122,     0,   123,
+       0,     0,     0,     0,     0,   124,     0,   125,   126,   127,
+     128,   129,     0,     0,     0,     0,   130,     0,   131,   132,
+     133,     0,   134,     0,     0,     0,   135,   136,   137,   138,
+     139,     0,    97,   284,     0,     0,   285,     0,     0,   142,
+      98,     0,    99,     0,   100,     0,     0,   101,   102,   103,
+       0,   104,   105,     0,     0,   283,     0,     0,   106,   107,
+     143,    16,   108,   109,     0,     0,     0,   110,     0,     0,
+       0,     0,   111,     0,     0,   112,   113,   114,   115,     0,
+       0,     0,     0,     0,   116,     0,   117,     0,   118,     0,
+       0,     0,     0,   119,   120,   121,   122,     0,   123,     0,
+       0,     0,     0,     0,   124,     0,   125,   126,   127,   128,
+     129,     0,     0,     0,     0,   130,     0,   131,   132,   133,
+       0,   134,     0,     0,     0,   135,   136,   137,   138,   139,
+       0,    97,   284,     0,     0,   357,     0,     0,   142,    98,
+       0,    99,     0,   100,     0,     0,   101,   102,   103,     0,
+     104,   105,     0,     0,     0,     0,     0,   106,   107,   143,
+      16,   108,   109,     0,     0,     0,   110,     0,     0,     0,
        0,   111,     0,     0,   112,   113,   114,   115,     0,     0,
        0,     0,     0,   116,     0,   117,     0,   118,     0,     0,
        0,     0,   119,   120,   121,   122,     0,   123,     0,     0,
        0,     0,     0,   124,     0,   125,   126,   127,   128,   129,
        0,     0,     0,     0,   130,     0,   131,   132,   133,     0,
      134,     0,     0,     0,   135,   136,   137,   138,   139,     0,
-      97,   284,     0,     0,   285,     0,     0,   142,    98,     0,
-      99,     0,   100,     0,     0,   101,   102,   103,     0,   104,
-     105,     0,     0,   283,     0,     0,   106,   107,   143,    16,
-     108,   109,     0,     0,     0,   110,     0,     0,     0,     0,
-     111,     0,     0,   112,   113,   114,   115,     0,     0,     0,
-       0,     0,   116,     0,   117,     0,   118,     0,     0,     0,
-       0,   119,   120,   121,   122,     0,   123,     0,     0,     0,
-       0,     0,   124,     0,   125,   126,   127,   128,   129,     0,
-       0,     0,     0,   130,     0,   131,   132,   133,     0,   134,
-       0,     0,     0,   135,   136,   137,   138,   139,     0,    97,
-     284,     0,     0,   357,     0,     0,   142,    98,     0,    99,
-       0,   100,     0,     0,   101,   102,   103,     0,   104,   105,
-       0,     0,     0,     0,     0,   106,   107,   143,    16,   108,
-     109,     0,     0,     0,   110,     0,     0,     0,     0,   111,
-       0,     0,   112,   113,   114,   115,     0,     0,     0,     0,
-       0,   116,     0,   117,     0,   118,     0,     0,     0,     0,
-     119,   120,   121,   122,     0,   123,     0,     0,     0,     0,
-       0,   124,     0,   125,   126,   127,   128,   129,     0,     0,
-       0,     0,   130,     0,   131,   132,   133,     0,   134,     0,
-       0,     0,   135,   136,   137,   138,   139,     0,   140,     0,
-       0,   141,    97,     0,     0,   142,     0,     0,     0,     0,
+     140,     0,     0,   141,    97,     0,     0,   142,     0,     0,
+       0,     0,    98,     0,    99,     0,   100,     0,     0,   101,
+     102,   103,     0,   104,   105,     0,     0,     0,   143,    16,
+     106,   107,     0,     0,   108,   109,     0,     0,     0,   110,
+       0,   249,     0,     0,   111,     0,     0,   112,   113,   114,
+     115,     0,   250,     0,     0,     0,   116,     0,   117,     0,
+     118,     0,     0,     0,     0,   119,   120,   121,   122,     0,
+     123,     0,     0,     0,     0,     0,   124,     0,   125,   126,
+     127,   128,   129,     0,     0,     0,     0,   130,     0,   131,
+     132,   133,     0,   134,     0,     0,     0,   135,   136,   137,
+     138,   139,     0,    97,     0,     0,     0,     0,     0,     0,
+     142,    98,     0,    99,     0,   100,     0,     0,   101,   102,
+     103,     0,   104,   105,     0,     0,   283,     0,     0,   106,
+     107,   143,    16,   108,   109,     0,     0,     0,   110,     0,
+       0,     0,     0,   111,     0,     0,   112,   113,   114,   115,
+       0,     0,     0,     0,     0,   116,     0,   117,     0,   118,
+       0,     0,     0,     0,   119,   120,   121,   122,     0,   123,
+       0,     0,     0,     0,     0,   124,     0,   125,   126,   127,
+     128,   129,     0,     0,     0,     0,   130,     0,   131,   132,
+     133,     0,   134,     0,     0,     0,   135,   136,   137,   138,
+     139,     0,    97,   565,   371,   372,     0,     0,     0,   142,
       98,     0,    99,     0,   100,     0,     0,   101,   102,   103,
-       0,   104,   105,     0,     0,     0,   143,    16,   106,   107,
-       0,     0,   108,   109,     0,     0,     0,   110,     0,   249,
+       0,   104,   105,     0,     0,     0,     0,     0,   106,   107,
+     143,    16,   108,   109,     0,     0,     0,   110,     0,     0,
        0,     0,   111,     0,     0,   112,   113,   114,   115,     0,
-     250,     0,     0,     0,   116,     0,   117,     0,   118,     0,
+       0,     0,     0,     0,   116,     0,   117,     0,   118,     0,
        0,     0,     0,   119,   120,   121,   122,     0,   123,     0,
        0,     0,     0,     0,   124,     0,   125,   126,   127,   128,
      129,     0,     0,     0,     0,   130,     0,   131,   132,   133,
@@ -10852,9 +10875,9 @@ namespace yy {
        0,     0,     0,   124,     0,   125,   126,   127,   128,   129,
        0,     0,     0,     0,   130,     0,   131,   132,   133,     0,
      134,     0,     0,     0,   135,   136,   137,   138,   139,     0,
-      97,   562,   371,   372,     0,     0,     0,   142,    98,     0,
+      97,   629,     0,     0,     0,     0,     0,   142,    98,     0,
       99,     0,   100,     0,     0,   101,   102,   103,     0,   104,
-     105,     0,     0,     0,     0,     0,   106,   107,   143,    16,
+     105,     0,     0,   283,     0,     0,   106,   107,   143,    16,
      108,   109,     0,     0,     0,   110,     0,     0,     0,     0,
      111,     0,     0,   112,   113,   114,   115,     0,     0,     0,
        0,     0,   116,     0,   117,     0,   118,     0,     0,     0,
@@ -10862,7 +10885,7 @@ namespace yy {
        0,     0,   124,     0,   125,   126,   127,   128,   129,     0,
        0,     0,     0,   130,     0,   131,   132,   133,     0,   134,
        0,     0,     0,   135,   136,   137,   138,   139,     0,    97,
-       0,     0,     0,     0,     0,     0,   142,    98,     0,    99,
+     711,     0,     0,     0,     0,     0,   142,    98,     0,    99,
        0,   100,     0,     0,   101,   102,   103,     0,   104,   105,
        0,     0,   283,     0,     0,   106,   107,   143,    16,   108,
      109,     0,     0,     0,   110,     0,     0,     0,     0,   111,
@@ -10871,60 +10894,60 @@ namespace yy {
      119,   120,   121,   122,     0,   123,     0,     0,     0,     0,
        0,   124,     0,   125,   126,   127,   128,   129,     0,     0,
        0,     0,   130,     0,   131,   132,   133,     0,   134,     0,
-       0,     0,   135,   136,   137,   138,   139,     0,    97,   625,
+       0,     0,   135,   136,   137,   138,   139,     0,    97,   872,
        0,     0,     0,     0,     0,   142,    98,     0,    99,     0,
      100,     0,     0,   101,   102,   103,     0,   104,   105,     0,
-       0,   283,     0,     0,   106,   107,   143,    16,   108,   109,
+       0,     0,     0,     0,   106,   107,   143,    16,   108,   109,
        0,     0,     0,   110,     0,     0,     0,     0,   111,     0,
        0,   112,   113,   114,   115,     0,     0,     0,     0,     0,
      116,     0,   117,     0,   118,     0,     0,     0,     0,   119,
      120,   121,   122,     0,   123,     0,     0,     0,     0,     0,
      124,     0,   125,   126,   127,   128,   129,     0,     0,     0,
        0,   130,     0,   131,   132,   133,     0,   134,     0,     0,
-       0,   135,   136,   137,   138,   139,     0,    97,   707,     0,
-       0,     0,     0,     0,   142,    98,     0,    99,     0,   100,
-       0,     0,   101,   102,   103,     0,   104,   105,     0,     0,
-     283,     0,     0,   106,   107,   143,    16,   108,   109,     0,
+       0,   135,   136,   137,   138,   139,     0,    97,     0,     0,
+     141,     0,     0,     0,   142,    98,     0,    99,     0,   100,
+       0,     0,   101,   102,   103,     0,   104,   105,   220,     0,
+       0,     0,     0,   106,   107,   143,    16,   108,   109,     0,
        0,     0,   110,     0,     0,     0,     0,   111,     0,     0,
      112,   113,   114,   115,     0,     0,     0,     0,     0,   116,
        0,   117,     0,   118,     0,     0,     0,     0,   119,   120,
      121,   122,     0,   123,     0,     0,     0,     0,     0,   124,
        0,   125,   126,   127,   128,   129,     0,     0,     0,     0,
      130,     0,   131,   132,   133,     0,   134,     0,     0,     0,
-     135,   136,   137,   138,   139,     0,    97,   864,     0,     0,
+     135,   136,   137,   138,   139,     0,    97,     0,     0,     0,
        0,     0,     0,   142,    98,     0,    99,     0,   100,     0,
        0,   101,   102,   103,     0,   104,   105,     0,     0,     0,
-       0,     0,   106,   107,   143,    16,   108,   109,     0,     0,
+       0,     0,   106,   107,   221,    16,   108,   109,     0,     0,
        0,   110,     0,     0,     0,     0,   111,     0,     0,   112,
      113,   114,   115,     0,     0,     0,     0,     0,   116,     0,
      117,     0,   118,     0,     0,     0,     0,   119,   120,   121,
      122,     0,   123,     0,     0,     0,     0,     0,   124,     0,
      125,   126,   127,   128,   129,     0,     0,     0,     0,   130,
        0,   131,   132,   133,     0,   134,     0,     0,     0,   135,
-     136,   137,   138,   139,     0,    97,     0,     0,   141,     0,
-       0,     0,   142,    98,     0,    99,     0,   100,     0,     0,
-     101,   102,   103,     0,   104,   105,   220,     0,     0,     0,
-       0,   106,   107,   143,    16,   108,   109,     0,     0,     0,
-     110,     0,     0,     0,     0,   111,     0,     0,   112,   113,
-     114,   115,     0,     0,     0,     0,     0,   116,     0,   117,
-       0,   118,     0,     0,     0,     0,   119,   120,   121,   122,
-       0,   123,     0,     0,     0,     0,     0,   124,     0,   125,
-     126,   127,   128,   129,     0,     0,     0,     0,   130,     0,
-     131,   132,   133,     0,   134,     0,     0,     0,   135,   136,
-     137,   138,   139,     0,    97,     0,     0,     0,     0,     0,
-       0,   142,    98,     0,    99,     0,   100,     0,     0,   101,
-     102,   103,     0,   104,   105,     0,     0,     0,     0,     0,
-     106,   107,   221,    16,   108,   109,     0,     0,     0,   110,
-       0,     0,     0,     0,   111,     0,     0,   112,   113,   114,
-     115,     0,     0,     0,     0,     0,   116,     0,   117,     0,
-     118,     0,     0,     0,     0,   119,   120,   121,   122,     0,
-     123,     0,     0,     0,     0,     0,   124,     0,   125,   126,
-     127,   128,   129,     0,     0,     0,     0,   130,     0,   131,
-     132,   133,     0,   134,     0,     0,     0,   135,   136,   137,
-     138,   139,     0,   243,     0,     0,     0,    97,     0,     0,
-     142,     0,     0,     0,     0,    98,     0,    99,     0,   100,
+     136,   137,   138,   139,     0,   243,     0,     0,     0,    97,
+       0,     0,   142,     0,     0,     0,     0,    98,     0,    99,
+       0,   100,     0,     0,   101,   102,   103,     0,   104,   105,
+       0,     0,     0,   143,    16,   106,   107,     0,     0,   108,
+     109,     0,     0,     0,   110,     0,     0,     0,     0,   111,
+       0,     0,   112,   113,   114,   115,     0,     0,     0,     0,
+       0,   116,     0,   117,     0,   118,     0,     0,     0,     0,
+     119,   120,   121,   122,     0,   123,     0,     0,     0,     0,
+       0,   124,     0,   125,   126,   127,   128,   129,     0,     0,
+       0,     0,   130,     0,   131,   132,   133,     0,   134,     0,
+       0,     0,   135,   136,   137,   138,   139,     0,    97,     0,
+       0,     0,     0,     0,     0,   142,    98,   253,    99,     0,
+     100,     0,     0,   101,   102,   103,     0,   104,   105,     0,
+       0,     0,     0,     0,   106,   107,   143,    16,   108,   109,
+       0,     0,     0,   110,     0,     0,     0,     0,   111,     0,
+       0,   112,   113,   114,   115,     0,     0,     0,     0,     0,
+     116,     0,   117,     0,   118,     0,     0,     0,     0,   119,
+     120,   121,   122,     0,   123,     0,     0,     0,     0,     0,
+     124,     0,   125,   126,   127,   128,   129,     0,     0,     0,
+       0,   130,     0,   131,   132,   133,     0,   134,     0,     0,
+       0,   135,   136,   137,   138,   139,     0,    97,   632,     0,
+       0,     0,     0,     0,   142,    98,     0,    99,     0,   100,
        0,     0,   101,   102,   103,     0,   104,   105,     0,     0,
-       0,   143,    16,   106,   107,     0,     0,   108,   109,     0,
+     283,     0,     0,   106,   107,   221,    16,   108,   109,     0,
        0,     0,   110,     0,     0,     0,     0,   111,     0,     0,
      112,   113,   114,   115,     0,     0,     0,     0,     0,   116,
        0,   117,     0,   118,     0,     0,     0,     0,   119,   120,
@@ -10932,7 +10955,7 @@ namespace yy {
        0,   125,   126,   127,   128,   129,     0,     0,     0,     0,
      130,     0,   131,   132,   133,     0,   134,     0,     0,     0,
      135,   136,   137,   138,   139,     0,    97,     0,     0,     0,
-       0,     0,     0,   142,    98,   253,    99,     0,   100,     0,
+       0,     0,     0,   142,    98,     0,    99,     0,   100,     0,
        0,   101,   102,   103,     0,   104,   105,     0,     0,     0,
        0,     0,   106,   107,   143,    16,   108,   109,     0,     0,
        0,   110,     0,     0,     0,     0,   111,     0,     0,   112,
@@ -10941,10 +10964,10 @@ namespace yy {
      122,     0,   123,     0,     0,     0,     0,     0,   124,     0,
      125,   126,   127,   128,   129,     0,     0,     0,     0,   130,
        0,   131,   132,   133,     0,   134,     0,     0,     0,   135,
-     136,   137,   138,   139,     0,    97,   628,     0,     0,     0,
+     136,   137,   138,   139,     0,    97,     0,     0,     0,     0,
        0,     0,   142,    98,     0,    99,     0,   100,     0,     0,
-     101,   102,   103,     0,   104,   105,     0,     0,   283,     0,
-       0,   106,   107,   221,    16,   108,   109,     0,     0,     0,
+     101,   102,   103,     0,   104,   105,     0,     0,     0,     0,
+       0,   106,   107,   221,   230,   108,   109,     0,     0,     0,
      110,     0,     0,     0,     0,   111,     0,     0,   112,   113,
      114,   115,     0,     0,     0,     0,     0,   116,     0,   117,
        0,   118,     0,     0,     0,     0,   119,   120,   121,   122,
@@ -10961,393 +10984,389 @@ namespace yy {
      123,     0,     0,     0,     0,     0,   124,     0,   125,   126,
      127,   128,   129,     0,     0,     0,     0,   130,     0,   131,
      132,   133,     0,   134,     0,     0,     0,   135,   136,   137,
-     138,   139,     0,    97,     0,     0,     0,     0,     0,     0,
-     142,    98,     0,    99,     0,   100,     0,     0,   101,   102,
-     103,     0,   104,   105,     0,     0,     0,     0,     0,   106,
-     107,   221,   230,   108,   109,     0,     0,     0,   110,     0,
-       0,     0,     0,   111,     0,     0,   112,   113,   114,   115,
-       0,     0,     0,     0,     0,   116,     0,   117,     0,   118,
-       0,     0,     0,     0,   119,   120,   121,   122,     0,   123,
-       0,     0,     0,     0,     0,   124,     0,   125,   126,   127,
-     128,   129,     0,     0,     0,     0,   130,     0,   131,   132,
-     133,     0,   134,     0,     0,     0,   135,   136,   137,   138,
-     139,     0,    97,     0,     0,     0,     0,     0,     0,   142,
-      98,     0,    99,     0,   100,     0,     0,   101,   102,   103,
-       0,   104,   105,     0,     0,     0,     0,     0,   106,   107,
-     143,    16,   108,   109,     0,     0,     0,   110,     0,     0,
-       0,     0,   111,     0,     0,   112,   113,   114,   115,     0,
-       0,     0,     0,     0,   116,     0,   117,     0,   118,     0,
-       0,     0,     0,   119,   120,   121,   122,     0,   123,     0,
-       0,     0,     0,     0,   124,     0,   125,   126,   127,   128,
-     129,     0,     0,     0,     0,   130,     0,   131,   132,   133,
-       0,   134,     0,     0,     0,   135,   136,   137,   138,   139,
-       0,     0,     0,     0,     0,     0,     0,     0,   142,     0,
+     138,   139,     0,     0,     0,     0,     0,     0,     0,     0,
+     142,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,   371,   372,
+       0,   221,    16,   729,   832,   731,     0,   732,   833,   734,
+     735,   834,   835,   836,   837,   838,   839,   742,   743,   744,
+     745,   840,   841,   842,   749,   750,   843,   844,   753,   754,
+     755,   845,   757,   758,   759,   760,   846,   847,   763,     0,
+       0,     0,     0,   764,   765,   766,   767,   768,   848,   770,
+     849,   772,     0,   773,   774,   775,   776,     0,   850,     0,
+     851,   779,   852,   853,   782,   783,   784,   785,     0,   786,
+     854,   855,   856,   857,   858,   792,   793,   794,   795,     0,
+     796,     0,   859,   860,   861,   862,   801,   802,   803,     0,
+       0,     0,     0,     0,   863,     0,     0,     0,     0,     0,
        0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,   371,   372,     0,   221,
-      16,   725,   824,   727,     0,   728,   825,   730,   731,   826,
-     827,   828,   829,   830,   831,   738,   739,   740,   741,   832,
-     833,   834,   745,   746,   835,   836,   749,   750,   751,   837,
-     753,   754,   755,   756,   838,   839,   759,     0,     0,     0,
-       0,   760,   761,   762,   763,   764,   840,   766,   841,   768,
-       0,   769,   770,   771,   772,     0,   842,     0,   843,   775,
-     844,   845,   778,   779,   780,   781,     0,   782,   846,   847,
-     848,   849,   850,   788,   789,   790,   791,     0,   792,     0,
-     851,   852,   853,   854,   797,   798,   799,     0,     0,     0,
-       0,     0,   855,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,     0,     0,     0,     0,     0,   801,
-       0,     0,     0,     0,     0,     0,     0,     0,   725,   824,
-     727,   857,   728,   825,   730,   731,   826,   827,   828,   829,
-     830,   831,   738,   739,   740,   741,   832,   833,   834,   745,
-     746,   835,   836,   749,   750,   751,   837,   753,   754,   755,
-     756,   838,   839,   759,     0,     0,     0,     0,   760,   761,
-     762,   763,   764,   840,   766,   841,   768,     0,   769,   770,
-     771,   772,     0,   842,     0,   843,   775,   844,   845,   778,
-     779,   780,   781,     0,   782,   846,   847,   848,   849,   850,
-     788,   789,   790,   791,     0,   792,     0,   851,   852,   853,
-     854,   797,   798,   799,     0,     0,     0,     0,     0,   855,
-       0,     0,     0,     0,   867,     0,     0,   856,     0,     0,
-       0,     0,     0,     0,     0,     0,   801,     0,     0,     0,
-       0,     0,     0,     0,     0,   725,   824,   727,   857,   728,
-     825,   730,   731,   826,   827,   828,   829,   830,   831,   738,
-     739,   740,   741,   832,   833,   834,   745,   746,   835,   836,
-     749,   750,   751,   837,   753,   754,   755,   756,   838,   839,
-     759,     0,     0,     0,     0,   760,   761,   762,   763,   764,
-     840,   766,   841,   768,     0,   769,   770,   771,   772,     0,
-     842,     0,   843,   775,   844,   845,   778,   779,   780,   781,
-       0,   782,   846,   847,   848,   849,   850,   788,   789,   790,
-     791,     0,   792,     0,   851,   852,   853,   854,   797,   798,
-     799,     0,     0,     0,     0,     0,   855,     0,     0,     0,
-       0,     0,     0,     0,   856,   873,     0,     0,     0,     0,
-       0,     0,     0,   801,     0,     0,     0,     0,     0,     0,
-       0,     0,   725,   824,   727,   857,   728,   825,   730,   731,
-     826,   827,   828,   829,   830,   831,   738,   739,   740,   741,
-     832,   833,   834,   745,   746,   835,   836,   749,   750,   751,
-     837,   753,   754,   755,   756,   838,   839,   759,     0,     0,
-       0,     0,   760,   761,   762,   763,   764,   840,   766,   841,
-     768,     0,   769,   770,   771,   772,     0,   842,     0,   843,
-     775,   844,   845,   778,   779,   780,   781,     0,   782,   846,
-     847,   848,   849,   850,   788,   789,   790,   791,     0,   792,
-       0,   851,   852,   853,   854,   797,   798,   799,     0,     0,
-       0,     0,     0,   855,     0,     0,     0,     0,  -266,     0,
-    -266,   856,  -266,     0,  -266,  -266,     0,     0,     0,     0,
-     801,     0,  -266,  -266,  -266,  -266,     0,     0,     0,  -266,
-    -266,     0,   857,  -266,  -266,  -266,     0,  -266,  -266,  -266,
-    -266,     0,     0,  -266,     0,     0,     0,     0,  -266,  -266,
-    -266,  -266,  -266,     0,  -266,     0,  -266,     0,  -266,  -266,
-    -266,  -266,     0,     0,     0,     0,  -266,     0,     0,  -266,
-    -266,  -266,  -266,     0,  -266,     0,     0,     0,     0,     0,
-    -266,  -266,  -266,  -266,     0,  -266,     0,     0,     0,     0,
-       0,  -266,  -266,  -266,     0,     0,  -267,     0,  -267,     0,
-    -267,     0,  -267,  -267,  -266,     0,     0,     0,     0,     0,
-    -267,  -267,  -267,  -267,     0,     0,  -266,  -267,  -267,     0,
-       0,  -267,  -267,  -267,  -266,  -267,  -267,  -267,  -267,     0,
-       0,  -267,     0,     0,     0,     0,  -267,  -267,  -267,  -267,
-    -267,     0,  -267,     0,  -267,     0,  -267,  -267,  -267,  -267,
-       0,     0,     0,     0,  -267,     0,     0,  -267,  -267,  -267,
-    -267,     0,  -267,     0,     0,     0,     0,     0,  -267,  -267,
-    -267,  -267,     0,  -267,     0,     0,     0,     0,     0,  -267,
-    -267,  -267,     0,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,  -267,     0,     0,     0,     0,     0,     0,     0,
-       0,     0,     0,     0,  -267,     0,     0,     0,     0,     0,
-       0,     0,  -267
+       0,   805,     0,     0,     0,     0,     0,     0,     0,     0,
+     729,   832,   731,   865,   732,   833,   734,   735,   834,   835,
+     836,   837,   838,   839,   742,   743,   744,   745,   840,   841,
+     842,   749,   750,   843,   844,   753,   754,   755,   845,   757,
+     758,   759,   760,   846,   847,   763,     0,     0,     0,     0,
+     764,   765,   766,   767,   768,   848,   770,   849,   772,     0,
+     773,   774,   775,   776,     0,   850,     0,   851,   779,   852,
+     853,   782,   783,   784,   785,     0,   786,   854,   855,   856,
+     857,   858,   792,   793,   794,   795,     0,   796,     0,   859,
+     860,   861,   862,   801,   802,   803,     0,     0,     0,     0,
+       0,   863,     0,     0,     0,     0,   875,     0,     0,   864,
+       0,     0,     0,     0,     0,     0,     0,     0,   805,     0,
+       0,     0,     0,     0,     0,     0,     0,   729,   832,   731,
+     865,   732,   833,   734,   735,   834,   835,   836,   837,   838,
+     839,   742,   743,   744,   745,   840,   841,   842,   749,   750,
+     843,   844,   753,   754,   755,   845,   757,   758,   759,   760,
+     846,   847,   763,     0,     0,     0,     0,   764,   765,   766,
+     767,   768,   848,   770,   849,   772,     0,   773,   774,   775,
+     776,     0,   850,     0,   851,   779,   852,   853,   782,   783,
+     784,   785,     0,   786,   854,   855,   856,   857,   858,   792,
+     793,   794,   795,     0,   796,     0,   859,   860,   861,   862,
+     801,   802,   803,     0,     0,     0,     0,     0,   863,     0,
+       0,     0,     0,     0,     0,     0,   864,   881,     0,     0,
+       0,     0,     0,     0,     0,   805,     0,     0,     0,     0,
+       0,     0,     0,     0,   729,   832,   731,   865,   732,   833,
+     734,   735,   834,   835,   836,   837,   838,   839,   742,   743,
+     744,   745,   840,   841,   842,   749,   750,   843,   844,   753,
+     754,   755,   845,   757,   758,   759,   760,   846,   847,   763,
+       0,     0,     0,     0,   764,   765,   766,   767,   768,   848,
+     770,   849,   772,     0,   773,   774,   775,   776,     0,   850,
+       0,   851,   779,   852,   853,   782,   783,   784,   785,     0,
+     786,   854,   855,   856,   857,   858,   792,   793,   794,   795,
+       0,   796,     0,   859,   860,   861,   862,   801,   802,   803,
+       0,     0,     0,     0,     0,   863,     0,     0,     0,     0,
+    -274,     0,  -274,   864,  -274,     0,  -274,  -274,     0,     0,
+       0,     0,   805,     0,  -274,  -274,  -274,  -274,     0,     0,
+       0,  -274,  -274,     0,   865,  -274,  -274,  -274,     0,  -274,
+    -274,  -274,  -274,     0,     0,  -274,     0,     0,     0,     0,
+    -274,  -274,  -274,  -274,  -274,     0,  -274,     0,  -274,     0,
+    -274,  -274,  -274,  -274,     0,     0,     0,     0,  -274,     0,
+       0,  -274,  -274,  -274,  -274,     0,  -274,     0,     0,     0,
+       0,     0,  -274,  -274,  -274,  -274,     0,  -274,     0,     0,
+       0,     0,     0,  -274,  -274,  -274,     0,     0,  -275,     0,
+    -275,     0,  -275,     0,  -275,  -275,  -274,     0,     0,     0,
+       0,     0,  -275,  -275,  -275,  -275,     0,     0,  -274,  -275,
+    -275,     0,     0,  -275,  -275,  -275,  -274,  -275,  -275,  -275,
+    -275,     0,     0,  -275,     0,     0,     0,     0,  -275,  -275,
+    -275,  -275,  -275,     0,  -275,     0,  -275,     0,  -275,  -275,
+    -275,  -275,     0,     0,     0,     0,  -275,     0,     0,  -275,
+    -275,  -275,  -275,     0,  -275,     0,     0,     0,     0,     0,
+    -275,  -275,  -275,  -275,     0,  -275,     0,     0,     0,     0,
+       0,  -275,  -275,  -275,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,  -275,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,  -275,     0,     0,     0,
+       0,     0,     0,     0,  -275
   };
 
   const short
   asn1_parser::yycheck_[] =
   {
-       9,   128,   129,   256,   140,   141,   362,   128,   129,    18,
-       0,   140,   141,     3,   557,   203,   448,   246,   460,   311,
-     207,   141,   210,     4,   500,   455,   284,   457,   216,   691,
-      31,    22,   312,    22,     4,     5,     6,     7,     4,     9,
-      22,    11,   518,     4,   213,     4,     5,   709,    22,    64,
-      20,    22,    50,    33,   307,    22,    24,   487,   213,     4,
-      24,    25,   476,   149,    34,     4,    54,    77,   112,   327,
-     206,    89,   122,    30,    50,   122,   122,   206,    77,   112,
-       9,    87,    50,   124,   211,   126,    51,    87,    50,    18,
-      50,    89,     4,    63,   450,   113,   102,   138,    50,    89,
-     150,   145,   102,   150,   150,    95,    50,   243,   126,    79,
-      29,   525,   145,    89,   243,    95,   123,   246,   124,   124,
-     126,    89,   137,   130,   124,   378,   126,    89,   126,    89,
-     673,   126,   412,   138,   114,   388,   146,    89,   126,   392,
-     110,   213,   311,   312,   806,    89,   141,   146,   149,   150,
-     140,   141,   125,   124,   111,   585,   311,   312,   149,   150,
-     130,   150,    75,    89,   137,   353,   354,   149,   421,   150,
-      89,   359,   360,     0,    93,   149,   532,   304,   149,   149,
-     150,   122,   149,   149,   150,   149,   258,   113,   149,   150,
-     149,   150,   149,   650,   203,   123,   205,    35,   207,   124,
-     862,   210,   130,   212,   149,   150,   133,   216,   217,   150,
-     149,   150,   465,   125,   126,   691,   206,   674,   130,   125,
-     124,    59,   126,   213,   126,    24,    25,   124,   364,    28,
-     672,   137,    70,   709,   138,   364,   138,   149,   150,   311,
-     312,   138,   125,   412,   364,   365,   124,   476,   126,   258,
-     125,   260,   138,   243,   137,   443,   246,   412,    16,   125,
-     138,   125,   137,   141,   150,   452,   256,   125,   258,   522,
-     700,   137,   140,   526,   527,   528,   529,   530,    56,   137,
-     572,   137,    60,   137,   126,   141,   455,   141,   457,   145,
-     445,   145,   461,   551,   449,   858,   525,   126,   370,   106,
-     455,   130,   457,   866,   562,   121,   461,    61,   121,   121,
-     126,   121,   481,   126,   126,   484,   126,   307,   487,   141,
-     676,   311,   312,   145,    17,    18,   481,   241,   871,   484,
-     106,   245,   487,   124,   125,   126,   124,   432,   126,   434,
-     412,   679,   469,   681,   353,   354,   106,   476,   149,   150,
-     359,   360,    24,    25,    44,    45,   648,    24,    25,     4,
-     432,   140,   434,   499,    71,   501,   125,   126,   621,   121,
-     499,   127,   501,   445,   364,   817,   133,   449,    53,    36,
-     370,    72,   635,   455,   816,   457,   862,   142,   378,   461,
-     137,    66,    67,   685,   142,    70,   525,   124,   388,    74,
-     592,   593,   392,   572,    56,   125,   142,   103,   103,   481,
-      85,   124,   484,    91,    89,   487,   585,   572,   124,    87,
-     124,   674,   412,   432,   103,   434,    69,    16,   138,   565,
-     585,   421,   620,   875,   443,   121,   565,   138,   691,   448,
-     124,   124,   432,   452,   434,   130,   138,   124,   124,   138,
-     150,   460,   126,    87,    87,   445,   709,    87,    87,   449,
-     124,   141,   124,    89,    90,   455,   141,   457,   138,   541,
-     141,   461,   544,   124,    22,   465,   141,   125,   137,   648,
-     126,   125,   132,   137,    87,   138,   476,   125,   137,   742,
-      58,   481,    13,   648,   484,    40,   138,   487,    40,   124,
-     572,   124,   137,     4,     5,     6,     7,    58,     9,   499,
-      11,   501,   639,   585,   140,   141,   685,   705,   123,    20,
-     130,   138,   124,   138,   150,   125,   145,   126,   125,   137,
-     685,   700,   522,    34,   543,   525,   526,   527,   528,   529,
-     530,   137,   126,   138,   145,   700,   138,   138,   557,   175,
-     803,   541,   125,   806,   544,   126,   126,   124,   137,   149,
-     124,   570,    63,   137,   125,   137,   144,   576,   127,   195,
-     127,   129,   122,     4,   150,   565,   648,   252,    79,   254,
-     127,   256,   572,    53,   210,   125,   212,   125,   137,    40,
-     216,   217,   127,   122,   125,   585,    66,    67,   137,   127,
-      70,   120,   127,   127,    74,   127,   138,   137,   125,   110,
-     137,   620,   125,   685,   137,    85,   125,   243,   104,   137,
-     246,   141,   137,   249,   250,   124,   138,   253,   700,   125,
-     138,   621,   307,   213,   137,   137,   141,   137,   148,   265,
-     138,   138,   125,   137,   137,   635,   137,     3,   149,   150,
-     243,   856,   674,   596,   657,   281,   806,   803,   648,   786,
-     787,   242,   671,   672,   673,   786,   787,   565,    90,   565,
-     679,   141,   681,   686,   646,   301,   364,    18,   687,   688,
-      32,    74,    53,   687,   674,    70,    85,   671,   543,   364,
-     365,   217,   541,    11,    49,   685,   705,   620,    44,   481,
-     697,   691,    -1,   378,   484,   336,   585,    -1,   461,    -1,
-     700,    -1,    -1,   388,    -1,   341,    -1,   392,    -1,   709,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,   353,   354,    -1,
-      -1,   311,   312,   359,   360,    -1,    -1,    -1,   364,    -1,
-      -1,    -1,    -1,   213,    -1,    -1,   421,    -1,    -1,    -1,
-      -1,   246,   742,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,   256,    -1,     4,     5,     6,     7,    -1,     9,    -1,
-      11,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    20,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   258,    -1,
-     465,    -1,    -1,    34,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,   816,   817,    -1,
-      -1,    -1,   307,   803,    -1,    -1,   806,    -1,    -1,   445,
-      -1,    -1,    63,    -1,    -1,    -1,    -1,   453,    -1,    -1,
-      -1,    -1,   412,    -1,   460,    -1,    -1,    -1,    -1,    -1,
-      -1,   311,   312,    -1,    -1,    -1,    -1,   522,    -1,    -1,
-     476,   526,   527,   528,   529,   530,    -1,    -1,    -1,    -1,
-      -1,    -1,   871,    -1,    -1,    -1,   875,    -1,    -1,   110,
-      -1,    -1,    -1,   499,   500,   455,    -1,   457,    -1,    -1,
-      -1,   461,    -1,   378,    -1,    -1,    -1,    -1,    -1,    -1,
-     565,    -1,    -1,   388,   364,   365,    -1,   392,    -1,   525,
-     370,   481,    -1,    -1,   484,    -1,    -1,   487,   149,   150,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,   421,    -1,    -1,    -1,
-      -1,   557,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   565,
-      -1,    -1,   412,    -1,    -1,    -1,   621,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-     635,    -1,   432,    -1,   434,    -1,    -1,    -1,    -1,    -1,
-     465,    -1,   598,    -1,    -1,   445,    -1,    -1,    -1,   449,
-      -1,   476,    -1,    -1,    -1,   455,    -1,   457,    -1,    -1,
-      -1,   461,   572,    -1,    -1,    -1,    -1,    -1,    -1,   674,
-      -1,   676,    -1,    -1,    -1,   585,    -1,    -1,    -1,    -1,
-      -1,   481,    -1,    -1,   484,    -1,    -1,   487,    -1,   489,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,   522,    -1,    -1,
-     525,   526,   527,   528,   529,   530,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,   672,   673,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,   532,    -1,    -1,   691,   536,   742,   648,    -1,
-      -1,   541,    -1,    -1,   544,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,   709,    -1,    -1,    -1,     4,     5,     6,
-       7,    -1,     9,    -1,    11,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,   572,    20,    -1,   685,    -1,    24,    25,    -1,
-      -1,    -1,    -1,    30,    -1,   585,    -1,    34,    -1,    -1,
-     700,    -1,    -1,    40,    -1,    -1,   621,    -1,    -1,    -1,
-      47,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-     635,    -1,    -1,    -1,    -1,    -1,    63,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    76,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    89,    -1,    -1,    -1,    -1,   803,   648,   674,
-     806,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,   817,    -1,   110,   111,    -1,   691,    -1,    -1,    -1,
-      -1,    -1,    -1,   120,    -1,    -1,    -1,   124,   125,    -1,
-      -1,    -1,    -1,    -1,   709,   685,   133,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,   141,    -1,    -1,    -1,    -1,    -1,
-     700,    -1,   149,   150,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,   871,    -1,   742,    -1,   875,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+       9,   128,   129,   462,   140,   141,   450,   560,   311,    18,
+       0,   502,   203,     3,   362,   128,   129,   284,   207,   210,
+     141,     4,   140,   141,   695,   216,    89,    90,     4,   520,
+     457,     4,   459,     4,    54,   312,     4,     5,     6,     7,
+      31,     9,   713,    11,    22,    24,    25,     4,     5,   149,
+      77,    50,    20,    50,   478,    50,    30,    22,    50,    77,
+     327,    22,   489,    64,    50,    89,    34,     4,    22,    50,
+     206,    33,   124,    22,    24,   137,   126,   140,   141,   141,
+     121,     0,    22,   145,     4,   126,   138,   150,   206,   113,
+      89,   141,    89,   122,    89,    63,    29,    89,   211,    89,
+      50,   525,   126,    89,   452,    95,   126,   243,    89,    53,
+     246,    79,   175,     4,     5,     6,     7,   394,     9,   146,
+      11,   150,    66,    67,   677,   243,    70,   213,   146,    20,
+      74,   126,   195,    95,    56,     9,   137,   111,    60,    89,
+     811,    85,   110,    34,    18,   125,   124,   210,   123,   212,
+     140,   141,   114,   216,   217,   130,    89,   137,   149,   150,
+      93,   588,   353,   354,   149,   150,   149,   150,   359,   360,
+     149,   149,    63,   149,   150,   149,   149,   150,   526,   150,
+     243,   149,   150,   246,   149,   150,   249,   250,    79,   150,
+     253,   304,   149,   150,   203,   149,   205,   141,   207,   870,
+     149,   210,   265,   212,   695,   125,   126,   216,   217,   149,
+     130,    89,   149,   150,   122,   112,   206,   676,   281,   110,
+     124,   654,   713,   213,   112,   311,   312,   122,   364,   149,
+     150,   121,    87,   122,   138,   113,   126,    87,   301,   130,
+      35,    51,   150,   364,   365,   678,   364,   102,   145,   258,
+     125,   260,   102,   243,   445,   150,   246,   145,   149,   150,
+     123,   150,   137,   124,    59,   454,   256,   130,   258,   124,
+      16,   126,   575,   126,   124,    70,   126,   704,   341,   124,
+     124,   126,   126,   125,   121,   138,   124,   554,   126,   126,
+     353,   354,   125,   138,   138,   137,   359,   360,   565,   138,
+     138,   364,   125,   141,   137,   866,   125,   124,   394,   126,
+     121,   150,   256,   874,   137,   126,    75,   307,   137,    24,
+      25,   311,   312,    28,   126,   241,   879,   133,   130,   245,
+     126,   434,   680,   436,    17,    18,     4,     5,     6,     7,
+     125,     9,   478,    11,   353,   354,   683,   140,   685,   652,
+     359,   360,    20,    24,    25,    44,    45,   106,   471,    24,
+      25,   125,   126,   307,   823,   501,    34,   503,   595,   596,
+     106,   457,   106,   459,   364,     4,    61,   463,   822,   870,
+     370,    71,   140,   501,   447,   503,   689,   127,   378,   525,
+     121,   133,   455,    36,   384,    63,    72,   483,   142,   462,
+     486,   142,   137,   489,   394,   124,    56,   125,   103,   142,
+     103,   124,    91,   403,   124,   478,   124,    87,    69,   103,
+     364,   365,   412,    16,   883,   434,   416,   436,   124,   138,
+     121,   138,   568,   624,   378,   138,   445,   138,   501,   502,
+     384,   450,   110,   124,   434,   454,   436,   124,   130,   124,
+     568,   150,    87,   462,   126,    87,    87,   447,   124,   403,
+      87,   451,   525,   141,   124,   138,   124,   457,   412,   459,
+      22,   125,   416,   463,   141,   137,   132,   467,   141,   125,
+     137,   149,   150,   138,   126,   138,    87,   125,   478,   575,
+     137,    58,    40,   483,    40,    13,   486,   560,   124,   489,
+     124,   137,   588,    58,   123,   568,   124,   130,   138,   125,
+     138,   501,   125,   503,   126,   137,   125,   138,   709,   126,
+     137,   126,   124,   467,   138,   145,   137,   213,   138,   124,
+     643,   137,   122,   523,   149,   525,   125,   546,   601,   213,
+     530,   137,   532,   533,   534,   535,   536,   491,   127,   127,
+     144,   560,   129,   125,   544,     4,   125,   547,   150,   127,
+     246,   213,   137,   127,   573,    40,   652,   125,   122,   256,
+     579,   137,   246,   120,   127,   137,   127,   127,   568,   523,
+     137,   137,   526,   127,   125,   575,   530,    53,   532,   533,
+     534,   535,   536,   125,   246,   539,   141,   125,   588,   138,
+      66,    67,   137,   689,    70,   138,   258,   137,    74,   138,
+     104,   137,   124,   676,   677,   624,   137,   137,   704,    85,
+     307,   125,   141,    89,   138,   311,   312,   126,   138,   137,
+     145,   148,   695,   125,   137,   625,   137,   311,   312,     3,
+     243,   599,   661,   864,   678,   811,   808,   568,    90,   639,
+     713,   242,   364,   568,   650,   690,    18,    32,   691,   311,
+     312,    74,   652,   790,   791,    53,   675,   676,   677,    70,
+      85,   701,   675,   384,   683,   141,   685,   790,   791,   546,
+     217,   625,   691,   692,   544,   624,    11,    44,   678,    49,
+     463,   378,   483,    -1,   486,   639,   336,   384,    -1,   689,
+     709,   588,    -1,    -1,    -1,   695,    -1,    -1,   394,    -1,
+      -1,    -1,    -1,    -1,   704,    -1,   403,    -1,   370,    -1,
+     394,    -1,    -1,   713,    -1,   412,    -1,    -1,    -1,   416,
+      -1,    -1,    -1,    -1,   678,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   394,    -1,    -1,   808,    -1,    -1,   811,    -1,
+      -1,   695,    -1,    -1,    -1,    -1,   746,    -1,    -1,    -1,
+     823,   447,    -1,    -1,    -1,   451,   256,    -1,    -1,   713,
+      -1,   457,    -1,   459,    -1,    -1,    -1,   463,    -1,    -1,
+     467,    -1,   434,   457,   436,   459,   252,    -1,   254,   463,
+     256,    -1,   478,    -1,    -1,   447,    -1,   483,    -1,   451,
+     486,    -1,   746,   489,   478,   457,    -1,   459,    -1,   483,
+      -1,   463,   486,   822,   823,   489,   879,   307,   808,    -1,
+     883,   811,    -1,    -1,    -1,    -1,   478,    -1,    -1,    -1,
+      -1,   483,    -1,    -1,   486,    -1,   523,   489,    -1,   525,
+      -1,   307,    -1,   530,    -1,   532,   533,   534,   535,   536,
+      -1,   525,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   808,    -1,    -1,   811,    -1,    -1,
+     879,    -1,    -1,   525,   883,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   378,   575,
+      -1,    -1,   544,    -1,   384,   547,    -1,    -1,   364,   365,
+      -1,   575,   588,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   378,   403,   588,    -1,    -1,    -1,   384,    -1,
+      -1,    -1,   412,   575,    -1,    -1,   416,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   588,   403,   625,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   412,    -1,    -1,    -1,
+     416,    -1,   639,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   652,    -1,    -1,     4,
+       5,     6,     7,    -1,     9,    -1,    11,   467,   652,    -1,
+      -1,    -1,    -1,    -1,    -1,    20,    -1,    -1,    -1,    24,
+      25,   678,    -1,    -1,    -1,    30,    -1,    -1,    -1,    34,
+     652,   467,    -1,   689,    -1,    40,    -1,    -1,   695,    -1,
+      -1,    -1,    47,    -1,    -1,   689,    -1,    -1,   704,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   713,    -1,    63,    -1,
+     704,    -1,    -1,   523,    -1,    -1,    -1,   689,    -1,    -1,
+     530,    76,   532,   533,   534,   535,   536,    -1,    -1,    -1,
+      -1,    -1,   704,    -1,    89,    -1,    -1,   523,    -1,   746,
+      -1,    -1,    -1,    -1,   530,    -1,   532,   533,   534,   535,
+     536,    -1,    -1,    -1,    -1,   110,   111,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   120,    -1,    -1,    -1,   124,
+     125,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   133,    -1,
+      -1,    -1,   568,    -1,    -1,    -1,   141,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   149,   150,    -1,    -1,    -1,    -1,
+      -1,   808,    -1,    -1,   811,    -1,     4,     5,     6,     7,
+      -1,     9,    -1,    11,    -1,   625,    -1,    -1,    -1,    -1,
+      -1,    -1,    20,    -1,    -1,    -1,    24,    25,    -1,   639,
+      -1,    -1,    30,    -1,    -1,    -1,    34,    -1,    -1,   625,
+      -1,    -1,    40,    -1,    -1,    -1,    -1,    -1,    -1,    47,
+      -1,    -1,    -1,   639,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    63,    -1,    -1,   678,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    76,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,     4,
-       5,     6,     7,    -1,     9,    -1,    11,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    20,    -1,    22,   803,    24,
-      25,   806,    -1,    -1,    29,    30,    31,    32,    33,    34,
-      35,    36,    37,    38,    39,    40,    41,    42,    43,    44,
-      45,    46,    47,    48,    49,    50,    51,    52,    53,    54,
-      55,    56,    57,    58,    59,    60,    61,    62,    63,    64,
-      65,    66,    67,    68,    69,    70,    71,    72,    73,    74,
-      75,    76,    77,    78,    79,    80,    81,    82,    83,    84,
-      85,    86,    87,    88,    89,    90,    91,    92,    93,    94,
-      95,    96,    97,    98,    99,   100,   101,   102,   103,   104,
-     105,   106,   107,   108,   109,   110,   111,   112,   113,   114,
-     115,   116,   117,   118,   119,   120,    -1,    -1,    -1,   124,
-     125,    -1,    -1,   128,    -1,    -1,    -1,    -1,   133,    -1,
-      -1,    -1,   137,    -1,    -1,    -1,   141,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,   149,   150,     4,     5,     6,     7,
-      -1,     9,    -1,    11,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    20,    -1,    22,    -1,    24,    25,    -1,    -1,
-      -1,    29,    30,    31,    32,    33,    34,    35,    36,    37,
-      38,    39,    40,    41,    42,    43,    44,    45,    46,    47,
-      48,    49,    50,    51,    52,    53,    54,    55,    56,    57,
-      58,    59,    60,    61,    62,    63,    64,    65,    66,    67,
-      68,    69,    70,    71,    72,    73,    74,    75,    76,    77,
-      78,    79,    80,    81,    82,    83,    84,    85,    86,    87,
-      88,    89,    90,    91,    92,    93,    94,    95,    96,    97,
-      98,    99,   100,   101,   102,   103,   104,   105,   106,   107,
-     108,   109,   110,   111,   112,   113,   114,   115,   116,   117,
-     118,   119,   120,    -1,    -1,    -1,   124,    -1,    -1,    -1,
-     128,     4,     5,     6,     7,   133,     9,    -1,    11,   137,
-      -1,    -1,    -1,   141,    -1,    -1,    -1,    20,    -1,    22,
-      -1,   149,   150,    -1,    -1,    -1,    -1,    30,    31,    32,
-      -1,    34,    -1,    -1,    37,    38,    39,    -1,    41,    42,
-      -1,    -1,    -1,    46,    47,    48,    49,    -1,    -1,    52,
-      53,    54,    -1,    -1,    57,    -1,    -1,    -1,    -1,    62,
-      63,    64,    65,    66,    67,    68,    -1,    -1,    -1,    -1,
-      73,    74,    -1,    76,    -1,    78,    -1,    80,    -1,    -1,
-      83,    84,    85,    86,    -1,    88,    -1,    90,    -1,    -1,
-      -1,    94,    -1,    96,    97,    98,    99,   100,   101,   102,
-      -1,    -1,   105,    -1,   107,   108,   109,   110,   111,    -1,
-      -1,    -1,   115,   116,   117,   118,   119,   120,    -1,    -1,
-      -1,   124,    -1,   126,    -1,   128,     4,     5,     6,     7,
-      -1,     9,    -1,    11,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    20,    -1,    22,    -1,   149,   150,    -1,    -1,
-      -1,    -1,    30,    31,    32,    -1,    34,    -1,    -1,    37,
-      38,    39,    -1,    41,    42,    -1,    -1,    -1,    -1,    -1,
-      48,    49,    -1,    -1,    52,    53,    -1,    -1,    -1,    57,
-      -1,    -1,    -1,    -1,    62,    63,    64,    65,    66,    67,
-      68,    -1,    -1,    -1,    -1,    73,    74,    -1,    76,    -1,
-      78,    -1,    80,    -1,    -1,    83,    84,    85,    86,    -1,
-      88,    -1,    90,    -1,    -1,    -1,    94,    -1,    96,    97,
-      98,    99,   100,   101,   102,    -1,    -1,   105,    -1,   107,
-     108,   109,   110,   111,    -1,    -1,    -1,   115,   116,   117,
-     118,   119,   120,    -1,   122,    -1,    -1,    -1,   126,    -1,
-     128,    -1,    -1,    -1,    -1,    -1,    -1,     4,     5,     6,
-       7,    -1,     9,    -1,    11,    -1,    -1,    -1,    -1,    -1,
+      -1,    89,   678,    -1,   680,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   713,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   110,   111,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   120,    -1,    -1,    -1,   124,   125,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   133,   746,     4,     5,     6,
+       7,    -1,     9,   141,    11,    -1,    -1,    -1,    -1,    -1,
       -1,   149,   150,    20,    -1,    22,    -1,    24,    25,    -1,
-      -1,    -1,    -1,    30,    -1,    32,    -1,    34,    -1,    -1,
-      37,    38,    39,    40,    41,    42,    -1,    -1,    -1,    -1,
-      47,    48,    49,    -1,    -1,    52,    53,    -1,    -1,    -1,
-      57,    -1,    -1,    -1,    -1,    62,    63,    -1,    65,    66,
-      67,    68,    -1,    -1,    -1,    -1,    -1,    74,    -1,    76,
-      -1,    78,    -1,    -1,    -1,    -1,    83,    84,    85,    86,
-      -1,    88,    89,    -1,    -1,    -1,    -1,    94,    -1,    96,
-      97,    98,    99,   100,    -1,    -1,    -1,    -1,   105,    -1,
-     107,   108,   109,   110,   111,    -1,    -1,    -1,   115,   116,
-     117,   118,   119,   120,    -1,    -1,    -1,   124,    -1,    -1,
-      -1,   128,     4,     5,     6,     7,   133,     9,    -1,    11,
-      -1,    -1,    -1,    -1,   141,    -1,    -1,    -1,    20,    -1,
-      22,    -1,   149,   150,    -1,    -1,    -1,    -1,    30,    31,
-      32,    -1,    34,    -1,    -1,    37,    38,    39,    -1,    41,
-      42,    -1,    -1,    -1,    -1,    -1,    48,    49,    -1,    -1,
-      52,    53,    -1,    -1,    -1,    57,    -1,    -1,    -1,    -1,
-      62,    63,    64,    65,    66,    67,    68,    -1,    -1,    -1,
-      -1,    73,    74,    -1,    76,    -1,    78,    -1,    80,    -1,
-      -1,    83,    84,    85,    86,    -1,    88,    -1,    90,    -1,
-      -1,    -1,    94,    -1,    96,    97,    98,    99,   100,   101,
-     102,    -1,    -1,   105,    -1,   107,   108,   109,   110,   111,
-      -1,    -1,    -1,   115,   116,   117,   118,   119,   120,    -1,
-      -1,    -1,    -1,    -1,   126,    -1,   128,    -1,    -1,    -1,
-      -1,    -1,    -1,     4,     5,     6,     7,    -1,     9,    -1,
-      11,    -1,    -1,    -1,    -1,    -1,    -1,   149,   150,    20,
-      -1,    22,    -1,    24,    25,    -1,    -1,    -1,    -1,    30,
-      -1,    32,    -1,    34,    -1,    -1,    37,    38,    39,    40,
-      41,    42,    -1,    -1,    -1,    -1,    47,    48,    49,    -1,
-      -1,    52,    53,    -1,    -1,    -1,    57,    -1,    -1,    -1,
-      -1,    62,    63,    -1,    65,    66,    67,    68,    -1,    -1,
-      -1,    -1,    -1,    74,    -1,    76,    -1,    78,    -1,    -1,
-      -1,    -1,    83,    84,    85,    86,    -1,    88,    89,    -1,
-      -1,    -1,    -1,    94,    -1,    96,    97,    98,    99,   100,
-      -1,    -1,    -1,    -1,   105,    -1,   107,   108,   109,   110,
-     111,    -1,    -1,    -1,   115,   116,   117,   118,   119,   120,
-      -1,    -1,    -1,   124,    -1,    -1,    -1,   128,     4,     5,
-       6,     7,   133,     9,    -1,    11,    -1,    -1,    -1,    -1,
-     141,    -1,    -1,    -1,    20,    -1,    22,    -1,   149,   150,
-      -1,    -1,    -1,    -1,    30,    -1,    32,    -1,    34,    -1,
-      -1,    37,    38,    39,    -1,    41,    42,    -1,    -1,    -1,
-      -1,    -1,    48,    49,    -1,    -1,    52,    53,    -1,    -1,
-      -1,    57,    -1,    -1,    -1,    -1,    62,    63,    64,    65,
-      66,    67,    68,    -1,    -1,    -1,    -1,    73,    74,    -1,
-      76,    -1,    78,    -1,    80,    -1,    -1,    83,    84,    85,
-      86,    -1,    88,    -1,    90,    -1,    -1,    -1,    94,    -1,
-      96,    97,    98,    99,   100,   101,   102,     4,     5,   105,
-      -1,   107,   108,   109,   110,   111,    -1,    -1,    -1,   115,
-     116,   117,   118,   119,   120,    22,    -1,    -1,    -1,    -1,
-     126,    -1,   128,    30,    -1,    32,    -1,    34,    -1,    -1,
-      37,    38,    39,    -1,    41,    42,    -1,    -1,    -1,    -1,
-      -1,    48,    49,   149,   150,    52,    53,    -1,    -1,    -1,
-      57,    -1,    -1,    -1,    -1,    62,    -1,    -1,    65,    66,
-      67,    68,    -1,    -1,    -1,    -1,    -1,    74,    -1,    76,
-      -1,    78,    -1,    -1,    -1,    -1,    83,    84,    85,    86,
-      -1,    88,    -1,    -1,    -1,    -1,    -1,    94,    -1,    96,
-      97,    98,    99,   100,    -1,    -1,    -1,    -1,   105,    -1,
-     107,   108,   109,    -1,   111,    -1,    -1,    -1,   115,   116,
-     117,   118,   119,    -1,    -1,     4,     5,     6,     7,    -1,
-       9,   128,    11,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    20,    -1,    22,    -1,    24,    25,    -1,    -1,    -1,
-      -1,    30,   149,   150,    -1,    34,    -1,     4,     5,     6,
-       7,    40,     9,    -1,    11,    -1,    -1,    -1,    47,    -1,
-      -1,    -1,    -1,    20,    -1,    -1,    -1,    24,    25,    -1,
-      -1,    -1,    -1,    30,    63,    -1,    -1,    34,    -1,    -1,
-      -1,    -1,    -1,    40,    -1,    -1,    -1,    76,    -1,    -1,
-      47,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      89,    -1,    -1,    -1,    -1,    -1,    63,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    76,
-      -1,   110,   111,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,   120,    89,    -1,    -1,   124,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,   133,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,   141,   110,   111,    -1,    -1,    -1,    -1,    -1,
-     149,   150,    -1,   120,    -1,    -1,    -1,   124,    -1,    -1,
-      -1,    22,    -1,    -1,    -1,    -1,   133,    -1,    -1,    30,
-      -1,    32,    -1,    34,   141,    -1,    37,    38,    39,    -1,
-      41,    42,   149,   150,    45,    -1,    -1,    48,    49,    -1,
-      -1,    52,    53,    -1,    -1,    -1,    57,    -1,    -1,    -1,
+     746,    -1,    29,    30,    31,    32,    33,    34,    35,    36,
+      37,    38,    39,    40,    41,    42,    43,    44,    45,    46,
+      47,    48,    49,    50,    51,    52,    53,    54,    55,    56,
+      57,    58,    59,    60,    61,    62,    63,    64,    65,    66,
+      67,    68,    69,    70,    71,    72,    73,    74,    75,    76,
+      77,    78,    79,    80,    81,    82,    83,    84,    85,    86,
+      87,    88,    89,    90,    91,    92,    93,    94,    95,    96,
+      97,    98,    99,   100,   101,   102,   103,   104,   105,   106,
+     107,   108,   109,   110,   111,   112,   113,   114,   115,   116,
+     117,   118,   119,   120,    -1,    -1,    -1,   124,   125,    -1,
+      -1,   128,    -1,    -1,    -1,    -1,   133,    -1,    -1,    -1,
+     137,    -1,    -1,    -1,   141,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,   149,   150,     4,     5,     6,     7,    -1,     9,
+      -1,    11,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      20,    -1,    22,    -1,    24,    25,    -1,    -1,    -1,    29,
+      30,    31,    32,    33,    34,    35,    36,    37,    38,    39,
+      40,    41,    42,    43,    44,    45,    46,    47,    48,    49,
+      50,    51,    52,    53,    54,    55,    56,    57,    58,    59,
+      60,    61,    62,    63,    64,    65,    66,    67,    68,    69,
+      70,    71,    72,    73,    74,    75,    76,    77,    78,    79,
+      80,    81,    82,    83,    84,    85,    86,    87,    88,    89,
+      90,    91,    92,    93,    94,    95,    96,    97,    98,    99,
+     100,   101,   102,   103,   104,   105,   106,   107,   108,   109,
+     110,   111,   112,   113,   114,   115,   116,   117,   118,   119,
+     120,    -1,    -1,    -1,   124,    -1,    -1,    -1,   128,     4,
+       5,     6,     7,   133,     9,    -1,    11,   137,    -1,    -1,
+      -1,   141,    -1,    -1,    -1,    20,    -1,    22,    -1,   149,
+     150,    -1,    -1,    -1,    -1,    30,    31,    32,    -1,    34,
+      -1,    -1,    37,    38,    39,    -1,    41,    42,    -1,    -1,
+      -1,    46,    47,    48,    49,    -1,    -1,    52,    53,    54,
+      -1,    -1,    57,    -1,    -1,    -1,    -1,    62,    63,    64,
+      65,    66,    67,    68,    -1,    -1,    -1,    -1,    73,    74,
+      -1,    76,    -1,    78,    -1,    80,    -1,    -1,    83,    84,
+      85,    86,    -1,    88,    -1,    90,    -1,    -1,    -1,    94,
+      -1,    96,    97,    98,    99,   100,   101,   102,    -1,    -1,
+     105,    -1,   107,   108,   109,   110,   111,    -1,    -1,    -1,
+     115,   116,   117,   118,   119,   120,    -1,    -1,    -1,   124,
+      -1,   126,    -1,   128,     4,     5,     6,     7,    -1,     9,
+      -1,    11,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      20,    -1,    22,    -1,   149,   150,    -1,    -1,    -1,    -1,
+      30,    31,    32,    -1,    34,    -1,    -1,    37,    38,    39,
+      -1,    41,    42,    -1,    -1,    -1,    -1,    -1,    48,    49,
+      -1,    -1,    52,    53,    -1,    -1,    -1,    57,    -1,    -1,
+      -1,    -1,    62,    63,    64,    65,    66,    67,    68,    -1,
+      -1,    -1,    -1,    73,    74,    -1,    76,    -1,    78,    -1,
+      80,    -1,    -1,    83,    84,    85,    86,    -1,    88,    -1,
+      90,    -1,    -1,    -1,    94,    -1,    96,    97,    98,    99,
+     100,   101,   102,    -1,    -1,   105,    -1,   107,   108,   109,
+     110,   111,    -1,    -1,    -1,   115,   116,   117,   118,   119,
+     120,    -1,   122,    -1,    -1,    -1,   126,    -1,   128,     4,
+       5,     6,     7,    -1,     9,    -1,    11,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    20,    -1,    22,    -1,   149,
+     150,    -1,    -1,    -1,    -1,    30,    31,    32,    -1,    34,
+      -1,    -1,    37,    38,    39,    -1,    41,    42,    -1,    -1,
+      -1,    -1,    -1,    48,    49,    -1,    -1,    52,    53,    -1,
+      -1,    -1,    57,    -1,    -1,    -1,    -1,    62,    63,    64,
+      65,    66,    67,    68,    -1,    -1,    -1,    -1,    73,    74,
+      -1,    76,    -1,    78,    -1,    80,    -1,    -1,    83,    84,
+      85,    86,    -1,    88,    -1,    90,    -1,    -1,    -1,    94,
+      -1,    96,    97,    98,    99,   100,   101,   102,    -1,    -1,
+     105,    -1,   107,   108,   109,   110,   111,    -1,    -1,    -1,
+     115,   116,   117,   118,   119,   120,    -1,    -1,    -1,    -1,
+      -1,   126,    -1,   128,    -1,    -1,    -1,    -1,    -1,    -1,
+       4,     5,     6,     7,    -1,     9,    -1,    11,    -1,    -1,
+      -1,    -1,    -1,    -1,   149,   150,    20,    -1,    22,    -1,
+      24,    25,    -1,    -1,    -1,    -1,    30,    -1,    32,    -1,
+      34,    -1,    -1,    37,    38,    39,    40,    41,    42,    -1,
+      -1,    -1,    -1,    47,    48,    49,    -1,    -1,    52,    53,
+      -1,    -1,    -1,    57,    -1,    -1,    -1,    -1,    62,    63,
+      -1,    65,    66,    67,    68,    -1,    -1,    -1,    -1,    -1,
+      74,    -1,    76,    -1,    78,    -1,    -1,    -1,    -1,    83,
+      84,    85,    86,    -1,    88,    89,    -1,    -1,    -1,    -1,
+      94,    -1,    96,    97,    98,    99,   100,    -1,    -1,    -1,
+      -1,   105,    -1,   107,   108,   109,   110,   111,    -1,    -1,
+      -1,   115,   116,   117,   118,   119,   120,    -1,    -1,    -1,
+     124,    -1,    -1,    -1,   128,     4,     5,     6,     7,   133,
+       9,    -1,    11,    -1,    -1,    -1,    -1,   141,    -1,    -1,
+      -1,    20,    -1,    22,    -1,   149,   150,    -1,    -1,    -1,
+      -1,    30,    -1,    32,    -1,    34,    -1,    -1,    37,    38,
+      39,    -1,    41,    42,    -1,    -1,    -1,    -1,    -1,    48,
+      49,    -1,    -1,    52,    53,    -1,    -1,    -1,    57,    -1,
+      -1,    -1,    -1,    62,    63,    64,    65,    66,    67,    68,
+      -1,    -1,    -1,    -1,    73,    74,    -1,    76,    -1,    78,
+      -1,    80,    -1,    -1,    83,    84,    85,    86,    -1,    88,
+      -1,    90,    -1,    -1,    -1,    94,    -1,    96,    97,    98,
+      99,   100,   101,   102,    -1,    -1,   105,    -1,   107,   108,
+     109,   110,   111,    -1,    -1,    -1,   115,   116,   117,   118,
+     119,   120,    -1,    -1,    -1,    -1,    -1,   126,    -1,   128,
+       4,     5,     6,     7,    -1,     9,    -1,    11,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    22,    -1,
+     149,   150,    -1,    -1,    -1,    -1,    30,    -1,    32,    -1,
+      34,    -1,    -1,    37,    38,    39,    -1,    41,    42,    -1,
+      -1,    -1,    -1,    -1,    48,    49,    -1,    -1,    52,    53,
+      -1,    -1,    -1,    57,    -1,    -1,    -1,    -1,    62,    63,
+      -1,    65,    66,    67,    68,    -1,    -1,    -1,    -1,    -1,
+      74,    -1,    76,    -1,    78,    -1,    -1,    -1,    -1,    83,
+      84,    85,    86,    -1,    88,    -1,    -1,    -1,    -1,    -1,
+      94,    -1,    96,    97,    98,    99,   100,    -1,    -1,     4,
+       5,   105,    -1,   107,   108,   109,   110,   111,    -1,    -1,
+      -1,   115,   116,   117,   118,   119,    -1,    22,    -1,    -1,
+     124,    -1,    -1,    -1,   128,    30,    -1,    32,    -1,    34,
+      -1,    -1,    37,    38,    39,    -1,    41,    42,    -1,    -1,
+      -1,    -1,    -1,    48,    49,   149,   150,    52,    53,    -1,
+      -1,    -1,    57,    -1,    -1,    -1,    -1,    62,    -1,    -1,
+      65,    66,    67,    68,    -1,    -1,    -1,    -1,    -1,    74,
+      -1,    76,    -1,    78,    -1,    -1,    -1,    -1,    83,    84,
+      85,    86,    -1,    88,    -1,    -1,    -1,    -1,    -1,    94,
+      -1,    96,    97,    98,    99,   100,    -1,    -1,    -1,    -1,
+     105,    -1,   107,   108,   109,    -1,   111,    -1,    -1,    -1,
+     115,   116,   117,   118,   119,    -1,    -1,     4,     5,     6,
+       7,    -1,     9,   128,    11,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    20,    -1,    22,    -1,    24,    25,    -1,
+      -1,    -1,    -1,    30,   149,   150,    -1,    34,    -1,     4,
+       5,     6,     7,    40,     9,    -1,    11,    -1,    -1,    -1,
+      47,    -1,    -1,    -1,    -1,    20,    -1,    -1,    -1,    24,
+      25,    -1,    -1,    -1,    -1,    30,    63,    -1,    -1,    34,
+      -1,    -1,    -1,    -1,    -1,    40,    -1,    -1,    -1,    76,
+      -1,    -1,    47,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    89,    -1,    -1,    -1,    -1,    -1,    63,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    76,    -1,   110,   111,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,   120,    89,    -1,    -1,   124,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   133,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   141,   110,   111,    -1,    -1,    -1,
+      -1,    -1,   149,   150,    -1,   120,    -1,    -1,    -1,   124,
+      -1,    -1,    -1,    22,    -1,    -1,    -1,    -1,   133,    -1,
+      -1,    30,    -1,    32,    -1,    34,   141,    -1,    37,    38,
+      39,    -1,    41,    42,   149,   150,    45,    -1,    -1,    48,
+      49,    -1,    -1,    52,    53,    -1,    -1,    -1,    57,    -1,
+      -1,    -1,    -1,    62,    -1,    -1,    65,    66,    67,    68,
+      -1,    -1,    -1,    -1,    -1,    74,    -1,    76,    -1,    78,
+      -1,    -1,    -1,    -1,    83,    84,    85,    86,    -1,    88,
+      -1,    -1,    -1,    -1,    -1,    94,    -1,    96,    97,    98,
+      99,   100,    -1,    -1,    -1,    -1,   105,    -1,   107,   108,
+     109,    -1,   111,    -1,    -1,    -1,   115,   116,   117,   118,
+     119,    -1,    22,   122,    -1,    -1,   125,    -1,    -1,   128,
+      30,    -1,    32,    -1,    34,    -1,    -1,    37,    38,    39,
+      -1,    41,    42,    -1,    -1,    45,    -1,    -1,    48,    49,
+     149,   150,    52,    53,    -1,    -1,    -1,    57,    -1,    -1,
+      -1,    -1,    62,    -1,    -1,    65,    66,    67,    68,    -1,
+      -1,    -1,    -1,    -1,    74,    -1,    76,    -1,    78,    -1,
+      -1,    -1,    -1,    83,    84,    85,    86,    -1,    88,    -1,
+      -1,    -1,    -1,    -1,    94,    -1,    96,    97,    98,    99,
+     100,    -1,    -1,    -1,    -1,   105,    -1,   107,   108,   109,
+      -1,   111,    -1,    -1,    -1,   115,   116,   117,   118,   119,
+      -1,    22,   122,    -1,    -1,   125,    -1,    -1,   128,    30,
+      -1,    32,    -1,    34,    -1,    -1,    37,    38,    39,    -1,
+      41,    42,    -1,    -1,    -1,    -1,    -1,    48,    49,   149,
+     150,    52,    53,    -1,    -1,    -1,    57,    -1,    -1,    -1,
       -1,    62,    -1,    -1,    65,    66,    67,    68,    -1,    -1,
       -1,    -1,    -1,    74,    -1,    76,    -1,    78,    -1,    -1,
       -1,    -1,    83,    84,    85,    86,    -1,    88,    -1,    -1,
       -1,    -1,    -1,    94,    -1,    96,    97,    98,    99,   100,
       -1,    -1,    -1,    -1,   105,    -1,   107,   108,   109,    -1,
      111,    -1,    -1,    -1,   115,   116,   117,   118,   119,    -1,
-      22,   122,    -1,    -1,   125,    -1,    -1,   128,    30,    -1,
-      32,    -1,    34,    -1,    -1,    37,    38,    39,    -1,    41,
-      42,    -1,    -1,    45,    -1,    -1,    48,    49,   149,   150,
-      52,    53,    -1,    -1,    -1,    57,    -1,    -1,    -1,    -1,
-      62,    -1,    -1,    65,    66,    67,    68,    -1,    -1,    -1,
-      -1,    -1,    74,    -1,    76,    -1,    78,    -1,    -1,    -1,
-      -1,    83,    84,    85,    86,    -1,    88,    -1,    -1,    -1,
-      -1,    -1,    94,    -1,    96,    97,    98,    99,   100,    -1,
-      -1,    -1,    -1,   105,    -1,   107,   108,   109,    -1,   111,
-      -1,    -1,    -1,   115,   116,   117,   118,   119,    -1,    22,
-     122,    -1,    -1,   125,    -1,    -1,   128,    30,    -1,    32,
-      -1,    34,    -1,    -1,    37,    38,    39,    -1,    41,    42,
-      -1,    -1,    -1,    -1,    -1,    48,    49,   149,   150,    52,
-      53,    -1,    -1,    -1,    57,    -1,    -1,    -1,    -1,    62,
-      -1,    -1,    65,    66,    67,    68,    -1,    -1,    -1,    -1,
-      -1,    74,    -1,    76,    -1,    78,    -1,    -1,    -1,    -1,
-      83,    84,    85,    86,    -1,    88,    -1,    -1,    -1,    -1,
-      -1,    94,    -1,    96,    97,    98,    99,   100,    -1,    -1,
-      -1,    -1,   105,    -1,   107,   108,   109,    -1,   111,    -1,
-      -1,    -1,   115,   116,   117,   118,   119,    -1,   121,    -1,
-      -1,   124,    22,    -1,    -1,   128,    -1,    -1,    -1,    -1,
+     121,    -1,    -1,   124,    22,    -1,    -1,   128,    -1,    -1,
+      -1,    -1,    30,    -1,    32,    -1,    34,    -1,    -1,    37,
+      38,    39,    -1,    41,    42,    -1,    -1,    -1,   149,   150,
+      48,    49,    -1,    -1,    52,    53,    -1,    -1,    -1,    57,
+      -1,    59,    -1,    -1,    62,    -1,    -1,    65,    66,    67,
+      68,    -1,    70,    -1,    -1,    -1,    74,    -1,    76,    -1,
+      78,    -1,    -1,    -1,    -1,    83,    84,    85,    86,    -1,
+      88,    -1,    -1,    -1,    -1,    -1,    94,    -1,    96,    97,
+      98,    99,   100,    -1,    -1,    -1,    -1,   105,    -1,   107,
+     108,   109,    -1,   111,    -1,    -1,    -1,   115,   116,   117,
+     118,   119,    -1,    22,    -1,    -1,    -1,    -1,    -1,    -1,
+     128,    30,    -1,    32,    -1,    34,    -1,    -1,    37,    38,
+      39,    -1,    41,    42,    -1,    -1,    45,    -1,    -1,    48,
+      49,   149,   150,    52,    53,    -1,    -1,    -1,    57,    -1,
+      -1,    -1,    -1,    62,    -1,    -1,    65,    66,    67,    68,
+      -1,    -1,    -1,    -1,    -1,    74,    -1,    76,    -1,    78,
+      -1,    -1,    -1,    -1,    83,    84,    85,    86,    -1,    88,
+      -1,    -1,    -1,    -1,    -1,    94,    -1,    96,    97,    98,
+      99,   100,    -1,    -1,    -1,    -1,   105,    -1,   107,   108,
+     109,    -1,   111,    -1,    -1,    -1,   115,   116,   117,   118,
+     119,    -1,    22,   122,    24,    25,    -1,    -1,    -1,   128,
       30,    -1,    32,    -1,    34,    -1,    -1,    37,    38,    39,
-      -1,    41,    42,    -1,    -1,    -1,   149,   150,    48,    49,
-      -1,    -1,    52,    53,    -1,    -1,    -1,    57,    -1,    59,
+      -1,    41,    42,    -1,    -1,    -1,    -1,    -1,    48,    49,
+     149,   150,    52,    53,    -1,    -1,    -1,    57,    -1,    -1,
       -1,    -1,    62,    -1,    -1,    65,    66,    67,    68,    -1,
-      70,    -1,    -1,    -1,    74,    -1,    76,    -1,    78,    -1,
+      -1,    -1,    -1,    -1,    74,    -1,    76,    -1,    78,    -1,
       -1,    -1,    -1,    83,    84,    85,    86,    -1,    88,    -1,
       -1,    -1,    -1,    -1,    94,    -1,    96,    97,    98,    99,
      100,    -1,    -1,    -1,    -1,   105,    -1,   107,   108,   109,
@@ -11362,9 +11381,9 @@ namespace yy {
       -1,    -1,    -1,    94,    -1,    96,    97,    98,    99,   100,
       -1,    -1,    -1,    -1,   105,    -1,   107,   108,   109,    -1,
      111,    -1,    -1,    -1,   115,   116,   117,   118,   119,    -1,
-      22,   122,    24,    25,    -1,    -1,    -1,   128,    30,    -1,
+      22,   122,    -1,    -1,    -1,    -1,    -1,   128,    30,    -1,
       32,    -1,    34,    -1,    -1,    37,    38,    39,    -1,    41,
-      42,    -1,    -1,    -1,    -1,    -1,    48,    49,   149,   150,
+      42,    -1,    -1,    45,    -1,    -1,    48,    49,   149,   150,
       52,    53,    -1,    -1,    -1,    57,    -1,    -1,    -1,    -1,
       62,    -1,    -1,    65,    66,    67,    68,    -1,    -1,    -1,
       -1,    -1,    74,    -1,    76,    -1,    78,    -1,    -1,    -1,
@@ -11372,7 +11391,7 @@ namespace yy {
       -1,    -1,    94,    -1,    96,    97,    98,    99,   100,    -1,
       -1,    -1,    -1,   105,    -1,   107,   108,   109,    -1,   111,
       -1,    -1,    -1,   115,   116,   117,   118,   119,    -1,    22,
-      -1,    -1,    -1,    -1,    -1,    -1,   128,    30,    -1,    32,
+     122,    -1,    -1,    -1,    -1,    -1,   128,    30,    -1,    32,
       -1,    34,    -1,    -1,    37,    38,    39,    -1,    41,    42,
       -1,    -1,    45,    -1,    -1,    48,    49,   149,   150,    52,
       53,    -1,    -1,    -1,    57,    -1,    -1,    -1,    -1,    62,
@@ -11384,24 +11403,24 @@ namespace yy {
       -1,    -1,   115,   116,   117,   118,   119,    -1,    22,   122,
       -1,    -1,    -1,    -1,    -1,   128,    30,    -1,    32,    -1,
       34,    -1,    -1,    37,    38,    39,    -1,    41,    42,    -1,
-      -1,    45,    -1,    -1,    48,    49,   149,   150,    52,    53,
+      -1,    -1,    -1,    -1,    48,    49,   149,   150,    52,    53,
       -1,    -1,    -1,    57,    -1,    -1,    -1,    -1,    62,    -1,
       -1,    65,    66,    67,    68,    -1,    -1,    -1,    -1,    -1,
       74,    -1,    76,    -1,    78,    -1,    -1,    -1,    -1,    83,
       84,    85,    86,    -1,    88,    -1,    -1,    -1,    -1,    -1,
       94,    -1,    96,    97,    98,    99,   100,    -1,    -1,    -1,
       -1,   105,    -1,   107,   108,   109,    -1,   111,    -1,    -1,
-      -1,   115,   116,   117,   118,   119,    -1,    22,   122,    -1,
-      -1,    -1,    -1,    -1,   128,    30,    -1,    32,    -1,    34,
-      -1,    -1,    37,    38,    39,    -1,    41,    42,    -1,    -1,
-      45,    -1,    -1,    48,    49,   149,   150,    52,    53,    -1,
+      -1,   115,   116,   117,   118,   119,    -1,    22,    -1,    -1,
+     124,    -1,    -1,    -1,   128,    30,    -1,    32,    -1,    34,
+      -1,    -1,    37,    38,    39,    -1,    41,    42,    43,    -1,
+      -1,    -1,    -1,    48,    49,   149,   150,    52,    53,    -1,
       -1,    -1,    57,    -1,    -1,    -1,    -1,    62,    -1,    -1,
       65,    66,    67,    68,    -1,    -1,    -1,    -1,    -1,    74,
       -1,    76,    -1,    78,    -1,    -1,    -1,    -1,    83,    84,
       85,    86,    -1,    88,    -1,    -1,    -1,    -1,    -1,    94,
       -1,    96,    97,    98,    99,   100,    -1,    -1,    -1,    -1,
      105,    -1,   107,   108,   109,    -1,   111,    -1,    -1,    -1,
-     115,   116,   117,   118,   119,    -1,    22,   122,    -1,    -1,
+     115,   116,   117,   118,   119,    -1,    22,    -1,    -1,    -1,
       -1,    -1,    -1,   128,    30,    -1,    32,    -1,    34,    -1,
       -1,    37,    38,    39,    -1,    41,    42,    -1,    -1,    -1,
       -1,    -1,    48,    49,   149,   150,    52,    53,    -1,    -1,
@@ -11411,30 +11430,30 @@ namespace yy {
       86,    -1,    88,    -1,    -1,    -1,    -1,    -1,    94,    -1,
       96,    97,    98,    99,   100,    -1,    -1,    -1,    -1,   105,
       -1,   107,   108,   109,    -1,   111,    -1,    -1,    -1,   115,
-     116,   117,   118,   119,    -1,    22,    -1,    -1,   124,    -1,
-      -1,    -1,   128,    30,    -1,    32,    -1,    34,    -1,    -1,
-      37,    38,    39,    -1,    41,    42,    43,    -1,    -1,    -1,
-      -1,    48,    49,   149,   150,    52,    53,    -1,    -1,    -1,
-      57,    -1,    -1,    -1,    -1,    62,    -1,    -1,    65,    66,
-      67,    68,    -1,    -1,    -1,    -1,    -1,    74,    -1,    76,
-      -1,    78,    -1,    -1,    -1,    -1,    83,    84,    85,    86,
-      -1,    88,    -1,    -1,    -1,    -1,    -1,    94,    -1,    96,
-      97,    98,    99,   100,    -1,    -1,    -1,    -1,   105,    -1,
-     107,   108,   109,    -1,   111,    -1,    -1,    -1,   115,   116,
-     117,   118,   119,    -1,    22,    -1,    -1,    -1,    -1,    -1,
-      -1,   128,    30,    -1,    32,    -1,    34,    -1,    -1,    37,
-      38,    39,    -1,    41,    42,    -1,    -1,    -1,    -1,    -1,
-      48,    49,   149,   150,    52,    53,    -1,    -1,    -1,    57,
-      -1,    -1,    -1,    -1,    62,    -1,    -1,    65,    66,    67,
-      68,    -1,    -1,    -1,    -1,    -1,    74,    -1,    76,    -1,
-      78,    -1,    -1,    -1,    -1,    83,    84,    85,    86,    -1,
-      88,    -1,    -1,    -1,    -1,    -1,    94,    -1,    96,    97,
-      98,    99,   100,    -1,    -1,    -1,    -1,   105,    -1,   107,
-     108,   109,    -1,   111,    -1,    -1,    -1,   115,   116,   117,
-     118,   119,    -1,   121,    -1,    -1,    -1,    22,    -1,    -1,
-     128,    -1,    -1,    -1,    -1,    30,    -1,    32,    -1,    34,
+     116,   117,   118,   119,    -1,   121,    -1,    -1,    -1,    22,
+      -1,    -1,   128,    -1,    -1,    -1,    -1,    30,    -1,    32,
+      -1,    34,    -1,    -1,    37,    38,    39,    -1,    41,    42,
+      -1,    -1,    -1,   149,   150,    48,    49,    -1,    -1,    52,
+      53,    -1,    -1,    -1,    57,    -1,    -1,    -1,    -1,    62,
+      -1,    -1,    65,    66,    67,    68,    -1,    -1,    -1,    -1,
+      -1,    74,    -1,    76,    -1,    78,    -1,    -1,    -1,    -1,
+      83,    84,    85,    86,    -1,    88,    -1,    -1,    -1,    -1,
+      -1,    94,    -1,    96,    97,    98,    99,   100,    -1,    -1,
+      -1,    -1,   105,    -1,   107,   108,   109,    -1,   111,    -1,
+      -1,    -1,   115,   116,   117,   118,   119,    -1,    22,    -1,
+      -1,    -1,    -1,    -1,    -1,   128,    30,   130,    32,    -1,
+      34,    -1,    -1,    37,    38,    39,    -1,    41,    42,    -1,
+      -1,    -1,    -1,    -1,    48,    49,   149,   150,    52,    53,
+      -1,    -1,    -1,    57,    -1,    -1,    -1,    -1,    62,    -1,
+      -1,    65,    66,    67,    68,    -1,    -1,    -1,    -1,    -1,
+      74,    -1,    76,    -1,    78,    -1,    -1,    -1,    -1,    83,
+      84,    85,    86,    -1,    88,    -1,    -1,    -1,    -1,    -1,
+      94,    -1,    96,    97,    98,    99,   100,    -1,    -1,    -1,
+      -1,   105,    -1,   107,   108,   109,    -1,   111,    -1,    -1,
+      -1,   115,   116,   117,   118,   119,    -1,    22,   122,    -1,
+      -1,    -1,    -1,    -1,   128,    30,    -1,    32,    -1,    34,
       -1,    -1,    37,    38,    39,    -1,    41,    42,    -1,    -1,
-      -1,   149,   150,    48,    49,    -1,    -1,    52,    53,    -1,
+      45,    -1,    -1,    48,    49,   149,   150,    52,    53,    -1,
       -1,    -1,    57,    -1,    -1,    -1,    -1,    62,    -1,    -1,
       65,    66,    67,    68,    -1,    -1,    -1,    -1,    -1,    74,
       -1,    76,    -1,    78,    -1,    -1,    -1,    -1,    83,    84,
@@ -11442,7 +11461,7 @@ namespace yy {
       -1,    96,    97,    98,    99,   100,    -1,    -1,    -1,    -1,
      105,    -1,   107,   108,   109,    -1,   111,    -1,    -1,    -1,
      115,   116,   117,   118,   119,    -1,    22,    -1,    -1,    -1,
-      -1,    -1,    -1,   128,    30,   130,    32,    -1,    34,    -1,
+      -1,    -1,    -1,   128,    30,    -1,    32,    -1,    34,    -1,
       -1,    37,    38,    39,    -1,    41,    42,    -1,    -1,    -1,
       -1,    -1,    48,    49,   149,   150,    52,    53,    -1,    -1,
       -1,    57,    -1,    -1,    -1,    -1,    62,    -1,    -1,    65,
@@ -11451,9 +11470,9 @@ namespace yy {
       86,    -1,    88,    -1,    -1,    -1,    -1,    -1,    94,    -1,
       96,    97,    98,    99,   100,    -1,    -1,    -1,    -1,   105,
       -1,   107,   108,   109,    -1,   111,    -1,    -1,    -1,   115,
-     116,   117,   118,   119,    -1,    22,   122,    -1,    -1,    -1,
+     116,   117,   118,   119,    -1,    22,    -1,    -1,    -1,    -1,
       -1,    -1,   128,    30,    -1,    32,    -1,    34,    -1,    -1,
-      37,    38,    39,    -1,    41,    42,    -1,    -1,    45,    -1,
+      37,    38,    39,    -1,    41,    42,    -1,    -1,    -1,    -1,
       -1,    48,    49,   149,   150,    52,    53,    -1,    -1,    -1,
       57,    -1,    -1,    -1,    -1,    62,    -1,    -1,    65,    66,
       67,    68,    -1,    -1,    -1,    -1,    -1,    74,    -1,    76,
@@ -11471,188 +11490,169 @@ namespace yy {
       88,    -1,    -1,    -1,    -1,    -1,    94,    -1,    96,    97,
       98,    99,   100,    -1,    -1,    -1,    -1,   105,    -1,   107,
      108,   109,    -1,   111,    -1,    -1,    -1,   115,   116,   117,
-     118,   119,    -1,    22,    -1,    -1,    -1,    -1,    -1,    -1,
-     128,    30,    -1,    32,    -1,    34,    -1,    -1,    37,    38,
-      39,    -1,    41,    42,    -1,    -1,    -1,    -1,    -1,    48,
-      49,   149,   150,    52,    53,    -1,    -1,    -1,    57,    -1,
-      -1,    -1,    -1,    62,    -1,    -1,    65,    66,    67,    68,
-      -1,    -1,    -1,    -1,    -1,    74,    -1,    76,    -1,    78,
-      -1,    -1,    -1,    -1,    83,    84,    85,    86,    -1,    88,
-      -1,    -1,    -1,    -1,    -1,    94,    -1,    96,    97,    98,
-      99,   100,    -1,    -1,    -1,    -1,   105,    -1,   107,   108,
-     109,    -1,   111,    -1,    -1,    -1,   115,   116,   117,   118,
-     119,    -1,    22,    -1,    -1,    -1,    -1,    -1,    -1,   128,
-      30,    -1,    32,    -1,    34,    -1,    -1,    37,    38,    39,
-      -1,    41,    42,    -1,    -1,    -1,    -1,    -1,    48,    49,
-     149,   150,    52,    53,    -1,    -1,    -1,    57,    -1,    -1,
-      -1,    -1,    62,    -1,    -1,    65,    66,    67,    68,    -1,
-      -1,    -1,    -1,    -1,    74,    -1,    76,    -1,    78,    -1,
-      -1,    -1,    -1,    83,    84,    85,    86,    -1,    88,    -1,
-      -1,    -1,    -1,    -1,    94,    -1,    96,    97,    98,    99,
-     100,    -1,    -1,    -1,    -1,   105,    -1,   107,   108,   109,
-      -1,   111,    -1,    -1,    -1,   115,   116,   117,   118,   119,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   128,    -1,
+     118,   119,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+     128,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    24,    25,
+      -1,   149,   150,    29,    30,    31,    -1,    33,    34,    35,
+      36,    37,    38,    39,    40,    41,    42,    43,    44,    45,
+      46,    47,    48,    49,    50,    51,    52,    53,    54,    55,
+      56,    57,    58,    59,    60,    61,    62,    63,    64,    -1,
+      -1,    -1,    -1,    69,    70,    71,    72,    73,    74,    75,
+      76,    77,    -1,    79,    80,    81,    82,    -1,    84,    -1,
+      86,    87,    88,    89,    90,    91,    92,    93,    -1,    95,
+      96,    97,    98,    99,   100,   101,   102,   103,   104,    -1,
+     106,    -1,   108,   109,   110,   111,   112,   113,   114,    -1,
+      -1,    -1,    -1,    -1,   120,    -1,    -1,    -1,    -1,    -1,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    24,    25,    -1,   149,
-     150,    29,    30,    31,    -1,    33,    34,    35,    36,    37,
-      38,    39,    40,    41,    42,    43,    44,    45,    46,    47,
-      48,    49,    50,    51,    52,    53,    54,    55,    56,    57,
-      58,    59,    60,    61,    62,    63,    64,    -1,    -1,    -1,
-      -1,    69,    70,    71,    72,    73,    74,    75,    76,    77,
-      -1,    79,    80,    81,    82,    -1,    84,    -1,    86,    87,
-      88,    89,    90,    91,    92,    93,    -1,    95,    96,    97,
-      98,    99,   100,   101,   102,   103,   104,    -1,   106,    -1,
-     108,   109,   110,   111,   112,   113,   114,    -1,    -1,    -1,
-      -1,    -1,   120,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   137,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    29,    30,
-      31,   149,    33,    34,    35,    36,    37,    38,    39,    40,
-      41,    42,    43,    44,    45,    46,    47,    48,    49,    50,
-      51,    52,    53,    54,    55,    56,    57,    58,    59,    60,
-      61,    62,    63,    64,    -1,    -1,    -1,    -1,    69,    70,
-      71,    72,    73,    74,    75,    76,    77,    -1,    79,    80,
-      81,    82,    -1,    84,    -1,    86,    87,    88,    89,    90,
-      91,    92,    93,    -1,    95,    96,    97,    98,    99,   100,
-     101,   102,   103,   104,    -1,   106,    -1,   108,   109,   110,
-     111,   112,   113,   114,    -1,    -1,    -1,    -1,    -1,   120,
-      -1,    -1,    -1,    -1,   125,    -1,    -1,   128,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    -1,   137,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    29,    30,    31,   149,    33,
-      34,    35,    36,    37,    38,    39,    40,    41,    42,    43,
-      44,    45,    46,    47,    48,    49,    50,    51,    52,    53,
-      54,    55,    56,    57,    58,    59,    60,    61,    62,    63,
-      64,    -1,    -1,    -1,    -1,    69,    70,    71,    72,    73,
-      74,    75,    76,    77,    -1,    79,    80,    81,    82,    -1,
-      84,    -1,    86,    87,    88,    89,    90,    91,    92,    93,
-      -1,    95,    96,    97,    98,    99,   100,   101,   102,   103,
-     104,    -1,   106,    -1,   108,   109,   110,   111,   112,   113,
-     114,    -1,    -1,    -1,    -1,    -1,   120,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,   128,   129,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,   137,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    29,    30,    31,   149,    33,    34,    35,    36,
-      37,    38,    39,    40,    41,    42,    43,    44,    45,    46,
-      47,    48,    49,    50,    51,    52,    53,    54,    55,    56,
-      57,    58,    59,    60,    61,    62,    63,    64,    -1,    -1,
-      -1,    -1,    69,    70,    71,    72,    73,    74,    75,    76,
-      77,    -1,    79,    80,    81,    82,    -1,    84,    -1,    86,
-      87,    88,    89,    90,    91,    92,    93,    -1,    95,    96,
-      97,    98,    99,   100,   101,   102,   103,   104,    -1,   106,
-      -1,   108,   109,   110,   111,   112,   113,   114,    -1,    -1,
-      -1,    -1,    -1,   120,    -1,    -1,    -1,    -1,    29,    -1,
-      31,   128,    33,    -1,    35,    36,    -1,    -1,    -1,    -1,
-     137,    -1,    43,    44,    45,    46,    -1,    -1,    -1,    50,
-      51,    -1,   149,    54,    55,    56,    -1,    58,    59,    60,
+      -1,   137,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
+      29,    30,    31,   149,    33,    34,    35,    36,    37,    38,
+      39,    40,    41,    42,    43,    44,    45,    46,    47,    48,
+      49,    50,    51,    52,    53,    54,    55,    56,    57,    58,
+      59,    60,    61,    62,    63,    64,    -1,    -1,    -1,    -1,
+      69,    70,    71,    72,    73,    74,    75,    76,    77,    -1,
+      79,    80,    81,    82,    -1,    84,    -1,    86,    87,    88,
+      89,    90,    91,    92,    93,    -1,    95,    96,    97,    98,
+      99,   100,   101,   102,   103,   104,    -1,   106,    -1,   108,
+     109,   110,   111,   112,   113,   114,    -1,    -1,    -1,    -1,
+      -1,   120,    -1,    -1,    -1,    -1,   125,    -1,    -1,   128,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,   137,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    29,    30,    31,
+     149,    33,    34,    35,    36,    37,    38,    39,    40,    41,
+      42,    43,    44,    45,    46,    47,    48,    49,    50,    51,
+      52,    53,    54,    55,    56,    57,    58,    59,    60,    61,
+      62,    63,    64,    -1,    -1,    -1,    -1,    69,    70,    71,
+      72,    73,    74,    75,    76,    77,    -1,    79,    80,    81,
+      82,    -1,    84,    -1,    86,    87,    88,    89,    90,    91,
+      92,    93,    -1,    95,    96,    97,    98,    99,   100,   101,
+     102,   103,   104,    -1,   106,    -1,   108,   109,   110,   111,
+     112,   113,   114,    -1,    -1,    -1,    -1,    -1,   120,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   128,   129,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,   137,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    29,    30,    31,   149,    33,    34,
+      35,    36,    37,    38,    39,    40,    41,    42,    43,    44,
+      45,    46,    47,    48,    49,    50,    51,    52,    53,    54,
+      55,    56,    57,    58,    59,    60,    61,    62,    63,    64,
+      -1,    -1,    -1,    -1,    69,    70,    71,    72,    73,    74,
+      75,    76,    77,    -1,    79,    80,    81,    82,    -1,    84,
+      -1,    86,    87,    88,    89,    90,    91,    92,    93,    -1,
+      95,    96,    97,    98,    99,   100,   101,   102,   103,   104,
+      -1,   106,    -1,   108,   109,   110,   111,   112,   113,   114,
+      -1,    -1,    -1,    -1,    -1,   120,    -1,    -1,    -1,    -1,
+      29,    -1,    31,   128,    33,    -1,    35,    36,    -1,    -1,
+      -1,    -1,   137,    -1,    43,    44,    45,    46,    -1,    -1,
+      -1,    50,    51,    -1,   149,    54,    55,    56,    -1,    58,
+      59,    60,    61,    -1,    -1,    64,    -1,    -1,    -1,    -1,
+      69,    70,    71,    72,    73,    -1,    75,    -1,    77,    -1,
+      79,    80,    81,    82,    -1,    -1,    -1,    -1,    87,    -1,
+      -1,    90,    91,    92,    93,    -1,    95,    -1,    -1,    -1,
+      -1,    -1,   101,   102,   103,   104,    -1,   106,    -1,    -1,
+      -1,    -1,    -1,   112,   113,   114,    -1,    -1,    29,    -1,
+      31,    -1,    33,    -1,    35,    36,   125,    -1,    -1,    -1,
+      -1,    -1,    43,    44,    45,    46,    -1,    -1,   137,    50,
+      51,    -1,    -1,    54,    55,    56,   145,    58,    59,    60,
       61,    -1,    -1,    64,    -1,    -1,    -1,    -1,    69,    70,
       71,    72,    73,    -1,    75,    -1,    77,    -1,    79,    80,
       81,    82,    -1,    -1,    -1,    -1,    87,    -1,    -1,    90,
       91,    92,    93,    -1,    95,    -1,    -1,    -1,    -1,    -1,
      101,   102,   103,   104,    -1,   106,    -1,    -1,    -1,    -1,
-      -1,   112,   113,   114,    -1,    -1,    29,    -1,    31,    -1,
-      33,    -1,    35,    36,   125,    -1,    -1,    -1,    -1,    -1,
-      43,    44,    45,    46,    -1,    -1,   137,    50,    51,    -1,
-      -1,    54,    55,    56,   145,    58,    59,    60,    61,    -1,
-      -1,    64,    -1,    -1,    -1,    -1,    69,    70,    71,    72,
-      73,    -1,    75,    -1,    77,    -1,    79,    80,    81,    82,
-      -1,    -1,    -1,    -1,    87,    -1,    -1,    90,    91,    92,
-      93,    -1,    95,    -1,    -1,    -1,    -1,    -1,   101,   102,
-     103,   104,    -1,   106,    -1,    -1,    -1,    -1,    -1,   112,
-     113,   114,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,   125,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,   137,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,   145
+      -1,   112,   113,   114,    -1,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   125,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,   137,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,   145
   };
 
   const short
   asn1_parser::yystos_[] =
   {
-       0,   149,   154,   155,   228,   375,     0,   154,    51,   124,
+       0,   149,   154,   155,   228,   376,     0,   154,    51,   124,
      229,   230,   231,    16,   236,     4,   150,   232,   233,   234,
-     235,   310,   373,   133,   315,    75,    35,    59,    70,   237,
-     125,   232,   126,   140,   316,   106,   106,   106,    61,   238,
-     234,    17,    18,   318,   140,   317,    71,   121,   127,   318,
-     133,    36,   317,    60,   239,   240,    31,   149,   150,   241,
-     247,   248,   249,   372,   374,   227,    72,   242,   142,   142,
+     235,   311,   374,   133,   316,    75,    35,    59,    70,   237,
+     125,   232,   126,   140,   317,   106,   106,   106,    61,   238,
+     234,    17,    18,   319,   140,   318,    71,   121,   127,   319,
+     133,    36,   318,    60,   239,   240,    31,   149,   150,   241,
+     247,   248,   249,   373,   375,   227,    72,   242,   142,   142,
      137,   124,    56,   243,   244,   245,   247,   160,   199,   203,
-     204,   205,   206,   207,   250,   251,   260,   261,   262,   372,
-     374,   248,   125,   142,   245,    64,   250,    22,    30,    32,
+     204,   205,   206,   207,   250,   251,   261,   262,   263,   373,
+     375,   248,   125,   142,   245,    64,   250,    22,    30,    32,
       34,    37,    38,    39,    41,    42,    48,    49,    52,    53,
       57,    62,    65,    66,    67,    68,    74,    76,    78,    83,
       84,    85,    86,    88,    94,    96,    97,    98,    99,   100,
      105,   107,   108,   109,   111,   115,   116,   117,   118,   119,
      121,   124,   128,   149,   159,   187,   188,   197,   198,   202,
-     208,   213,   214,   215,   216,   252,   254,   258,   263,   264,
-     272,   274,   278,   282,   283,   286,   287,   288,   292,   293,
-     294,   295,   299,   300,   301,   302,   306,   313,   314,   319,
-     320,   321,   322,   324,   325,   326,   327,   328,   329,   330,
-     331,   332,   372,   373,   375,   208,   263,   372,   375,   246,
-     375,   103,   103,   124,    91,   124,    87,   124,    69,   103,
-      87,   102,   124,   126,   333,   357,    87,   124,   333,   357,
-      43,   149,   157,   158,   159,   161,   162,   263,   375,   376,
-     150,   157,   209,   210,   211,   212,   249,   263,   372,    16,
-     303,   138,   121,   121,   263,   138,   124,   121,   333,    59,
-      70,   263,   138,   130,   138,   263,   121,   138,   124,   307,
-     124,   265,   296,   297,   298,   373,   122,   276,   279,   280,
-     281,   373,   149,   157,   159,   375,   275,   276,   373,   263,
-     265,   373,   333,    45,   122,   125,   263,   265,   289,   290,
-     291,     4,     5,     6,     7,     9,    11,    20,    31,    34,
+     208,   213,   214,   215,   216,   252,   254,   259,   264,   265,
+     273,   275,   279,   283,   284,   287,   288,   289,   293,   294,
+     295,   296,   300,   301,   302,   303,   307,   314,   315,   320,
+     321,   322,   323,   325,   326,   327,   328,   329,   330,   331,
+     332,   333,   373,   374,   376,   208,   264,   373,   376,   246,
+     376,   103,   103,   124,    91,   124,    87,   124,    69,   103,
+      87,   102,   124,   126,   334,   358,    87,   124,   334,   358,
+      43,   149,   157,   158,   159,   161,   162,   264,   376,   377,
+     150,   157,   209,   210,   211,   212,   249,   264,   373,    16,
+     304,   138,   121,   121,   264,   138,   124,   121,   334,    59,
+      70,   264,   138,   130,   138,   264,   121,   138,   124,   308,
+     124,   266,   297,   298,   299,   374,   122,   277,   280,   281,
+     282,   374,   149,   157,   159,   376,   276,   277,   374,   264,
+     266,   374,   334,    45,   122,   125,   264,   266,   290,   291,
+     292,     4,     5,     6,     7,     9,    11,    20,    31,    34,
       46,    47,    54,    63,    64,    73,    80,    90,   101,   110,
      120,   124,   126,   149,   200,   217,   218,   219,   221,   226,
-     253,   255,   259,   263,   273,   277,   323,   334,   335,   336,
-     337,   338,   339,   340,   341,   342,   343,   347,   348,   349,
-     350,   351,   352,   353,   355,   357,   358,   359,   360,   368,
-     369,   374,   375,    87,    87,   263,   265,   125,   289,    87,
+     253,   255,   260,   264,   274,   278,   324,   335,   336,   337,
+     338,   339,   340,   341,   342,   343,   344,   348,   349,   350,
+     351,   352,   353,   354,   356,   358,   359,   360,   361,   369,
+     370,   375,   376,    87,    87,   264,   266,   125,   290,    87,
       87,   124,   138,   125,   137,   141,   141,    33,    95,   114,
-     305,    24,    25,   165,   166,   200,   161,   263,   121,   166,
-       6,     7,     9,    11,    24,    25,    34,    40,    47,    76,
-      89,   120,   124,   141,   149,   150,   157,   202,   253,   256,
-     257,   263,   266,   267,   268,   269,   273,   277,   315,   323,
-     374,   375,   124,   270,   263,   263,   166,   372,   263,    22,
-     372,   121,    34,    76,   149,   150,   202,   266,   267,   372,
-     375,     4,   253,   308,   309,   310,   311,   312,   373,   284,
-     285,   373,   125,   137,   263,   132,   370,   125,   137,   126,
-     138,   125,   137,    87,   370,    50,    89,    50,    89,   125,
-     137,    58,   344,    40,   263,    40,   333,   267,    13,    44,
-      45,   122,   201,   337,   336,   124,   124,   370,   137,   112,
-     145,   345,    77,   146,   346,   344,   263,   123,   130,   138,
-     263,   265,   263,   265,   125,   263,   265,   263,   265,    24,
-      25,    28,   163,   164,   167,   168,   171,   173,   174,   176,
-     178,   149,   376,   210,   249,     4,   253,   304,   138,   267,
-     267,   267,   271,   126,   125,   137,   137,   141,   145,   137,
-     145,   138,   138,   336,   267,   138,   138,   253,   308,   125,
-     308,   126,   125,   137,   126,   122,   265,   253,   263,   277,
-     371,   122,   281,   253,   277,   276,   263,   137,    34,   149,
-     349,   349,   122,   291,   347,   124,    54,   267,   333,   361,
-     124,   362,   137,   125,   137,   127,   144,   222,   223,   256,
-     127,   122,   340,   342,    79,   130,   349,   354,   356,   374,
-     157,   263,   165,   263,   157,   125,   137,    24,    50,    89,
-     169,   129,   165,   125,   267,     4,   256,   267,   267,   267,
-     267,   267,    24,    25,   125,   125,   311,   285,     4,   253,
-     137,   141,   370,   127,   127,   122,   290,   370,   122,   157,
-     197,   212,   220,   263,   375,    40,   122,   363,   364,   373,
-     337,   122,   138,   225,   373,   125,   137,   125,   137,   356,
-      50,    89,   177,    89,   113,   170,   170,   170,    50,    89,
-     179,   120,   180,   164,   263,   127,   127,   127,   127,   298,
-     267,   137,   137,   137,   141,   125,   138,   267,   125,   137,
-     125,   137,   333,   365,   366,   137,   138,   224,   138,   223,
-     337,   124,   187,   189,   190,   191,   193,    50,    89,   175,
-      50,    89,   172,   172,   104,   137,   280,   122,   290,   124,
-     189,   267,   149,   363,   363,    29,    89,    93,   367,   337,
-     224,   225,   373,    24,    25,    29,    30,    31,    33,    34,
-      35,    36,    37,    38,    39,    40,    41,    42,    43,    44,
-      45,    46,    47,    48,    49,    50,    51,    52,    53,    54,
-      55,    56,    57,    58,    59,    60,    61,    62,    63,    64,
-      69,    70,    71,    72,    73,    74,    75,    76,    77,    79,
-      80,    81,    82,    84,    86,    87,    88,    89,    90,    91,
-      92,    93,    95,    96,    97,    98,    99,   100,   101,   102,
-     103,   104,   106,   108,   109,   110,   111,   112,   113,   114,
-     120,   137,   149,   165,   186,   192,   194,   195,   196,   263,
-     267,   377,   270,   349,   124,   156,   137,   137,   267,   125,
-     196,   137,   125,   195,    30,    34,    37,    38,    39,    40,
-      41,    42,    47,    48,    49,    52,    53,    57,    62,    63,
-      74,    76,    84,    86,    88,    89,    96,    97,    98,    99,
-     100,   108,   109,   110,   111,   120,   128,   149,   181,   182,
-     183,   184,   185,   186,   122,   148,   181,   125,   182,   165,
-     186,   137,   125,   129,   290,   137
+     306,    24,    25,   165,   166,   200,   161,   264,   121,   166,
+       6,     7,     9,    11,   124,   157,   253,   256,   257,   258,
+     264,   274,   278,   376,   124,   271,   264,   264,   166,   373,
+     264,    22,   373,   121,     6,     7,     9,    11,    24,    25,
+      34,    40,    47,    76,    89,   120,   124,   141,   149,   150,
+     202,   253,   267,   268,   269,   270,   274,   278,   316,   324,
+     373,   375,   376,     4,   253,   309,   310,   311,   312,   313,
+     374,   285,   286,   374,   125,   137,   264,   132,   371,   125,
+     137,   126,   138,   125,   137,    87,   371,    50,    89,    50,
+      89,   125,   137,    58,   345,    40,   264,    40,   334,   268,
+      13,    44,    45,   122,   201,   338,   337,   124,   124,   371,
+     137,   112,   145,   346,    77,   146,   347,   345,   264,   123,
+     130,   138,   264,   266,   264,   266,   125,   264,   266,   264,
+     266,    24,    25,    28,   163,   164,   167,   168,   171,   173,
+     174,   176,   178,   149,   377,   210,   249,     4,   253,   305,
+     138,   268,   268,   272,   125,   137,   138,   337,   268,   268,
+     272,   126,   137,   141,   145,   137,   145,   138,   138,   138,
+     253,   309,   125,   309,   126,   125,   137,   126,   122,   266,
+     253,   264,   278,   372,   122,   282,   253,   278,   277,   264,
+     137,    34,   149,   350,   350,   122,   292,   348,   124,    54,
+     268,   334,   362,   124,   363,   137,   125,   137,   127,   144,
+     222,   223,   256,   127,   122,   341,   343,    79,   130,   350,
+     355,   357,   375,   157,   264,   165,   264,   157,   125,   137,
+      24,    50,    89,   169,   129,   165,   125,   268,   256,   125,
+     125,     4,   268,   268,   268,   268,   268,    24,    25,   125,
+     312,   286,     4,   253,   137,   141,   371,   127,   127,   122,
+     291,   371,   122,   157,   197,   212,   220,   264,   376,    40,
+     122,   364,   365,   374,   338,   122,   138,   225,   374,   125,
+     137,   125,   137,   357,    50,    89,   177,    89,   113,   170,
+     170,   170,    50,    89,   179,   120,   180,   164,   264,   127,
+     127,   127,   127,   299,   268,   137,   137,   137,   141,   125,
+     138,   268,   125,   137,   125,   137,   334,   366,   367,   137,
+     138,   224,   138,   223,   338,   124,   187,   189,   190,   191,
+     193,    50,    89,   175,    50,    89,   172,   172,   104,   137,
+     281,   122,   291,   124,   189,   268,   149,   364,   364,    29,
+      89,    93,   368,   338,   224,   225,   374,    24,    25,    29,
+      30,    31,    33,    34,    35,    36,    37,    38,    39,    40,
+      41,    42,    43,    44,    45,    46,    47,    48,    49,    50,
+      51,    52,    53,    54,    55,    56,    57,    58,    59,    60,
+      61,    62,    63,    64,    69,    70,    71,    72,    73,    74,
+      75,    76,    77,    79,    80,    81,    82,    84,    86,    87,
+      88,    89,    90,    91,    92,    93,    95,    96,    97,    98,
+      99,   100,   101,   102,   103,   104,   106,   108,   109,   110,
+     111,   112,   113,   114,   120,   137,   149,   150,   165,   186,
+     192,   194,   195,   196,   202,   264,   268,   378,   271,   350,
+     124,   156,   137,   137,   268,   125,    34,    76,   196,   137,
+     125,   195,    30,    34,    37,    38,    39,    40,    41,    42,
+      47,    48,    49,    52,    53,    57,    62,    63,    74,    76,
+      84,    86,    88,    89,    96,    97,    98,    99,   100,   108,
+     109,   110,   111,   120,   128,   149,   181,   182,   183,   184,
+     185,   186,   122,   148,   181,   125,   182,   165,   186,   137,
+     125,   129,   291,   137
   };
 
   const short
@@ -11678,44 +11678,45 @@ namespace yy {
      241,   241,   242,   242,   243,   243,   244,   244,   245,   246,
      246,   247,   247,   248,   249,   249,   249,   250,   250,   251,
      251,   251,   251,   251,   251,   252,   252,   252,   253,   253,
-     254,   255,   256,   256,   257,   257,   257,   258,   259,   260,
-     261,   262,   263,   263,   263,   263,   263,   264,   264,   264,
-     264,   264,   264,   264,   264,   264,   264,   264,   264,   264,
-     264,   264,   264,   264,   264,   264,   264,   264,   264,   264,
-     264,   264,   264,   264,   264,   264,   264,   264,   265,   266,
-     266,   266,   266,   266,   266,   266,   266,   266,   266,   266,
-     266,   266,   266,   266,   266,   266,   266,   266,   266,   266,
-     266,   266,   266,   266,   267,   267,   267,   268,   268,   269,
-     269,   270,   271,   271,   272,   273,   273,   274,   274,   275,
-     275,   276,   276,   277,   277,   278,   279,   279,   279,   279,
-     280,   280,   281,   281,   282,   283,   283,   284,   284,   285,
-     285,   286,   287,   288,   288,   289,   289,   289,   289,   289,
-     289,   289,   289,   289,   290,   290,   291,   291,   291,   291,
-     291,   291,   291,   292,   292,   293,   293,   294,   294,   295,
-     296,   297,   297,   297,   298,   298,   299,   300,   301,   301,
-     301,   302,   303,   303,   304,   304,   305,   305,   305,   305,
-     306,   307,   307,   308,   308,   309,   309,   309,   310,   311,
-     311,   312,   313,   314,   315,   316,   317,   317,   318,   318,
-     319,   320,   321,   322,   323,   324,   325,   326,   327,   328,
-     328,   329,   329,   329,   329,   329,   329,   329,   329,   329,
-     329,   329,   329,   329,   330,   331,   331,   332,   332,   332,
-     332,   332,   332,   332,   332,   333,   334,   334,   335,   336,
-     336,   336,   337,   337,   338,   338,   339,   340,   340,   341,
-     342,   342,   343,   344,   345,   345,   346,   346,   347,   347,
-     348,   348,   348,   348,   348,   348,   348,   348,   348,   349,
-     349,   349,   349,   349,   349,   349,   349,   349,   349,   350,
-     351,   352,   353,   353,   354,   354,   355,   355,   356,   356,
-     357,   358,   359,   360,   360,   361,   362,   362,   362,   362,
-     363,   363,   364,   365,   366,   366,   367,   367,   367,   367,
-     368,   369,   370,   370,   371,   371,   371,   372,   373,   374,
-     375,   376,   377,   377,   377,   377,   377,   377,   377,   377,
-     377,   377,   377,   377,   377,   377,   377,   377,   377,   377,
-     377,   377,   377,   377,   377,   377,   377,   377,   377,   377,
-     377,   377,   377,   377,   377,   377,   377,   377,   377,   377,
-     377,   377,   377,   377,   377,   377,   377,   377,   377,   377,
-     377,   377,   377,   377,   377,   377,   377,   377,   377,   377,
-     377,   377,   377,   377,   377,   377,   377,   377,   377,   377,
-     377,   377,   377,   377,   377,   377,   377,   377,   377
+     254,   255,   256,   256,   257,   257,   257,   258,   258,   258,
+     258,   258,   258,   258,   258,   259,   260,   261,   262,   263,
+     264,   264,   264,   264,   264,   265,   265,   265,   265,   265,
+     265,   265,   265,   265,   265,   265,   265,   265,   265,   265,
+     265,   265,   265,   265,   265,   265,   265,   265,   265,   265,
+     265,   265,   265,   265,   265,   265,   266,   267,   267,   267,
+     267,   267,   267,   267,   267,   267,   267,   267,   267,   267,
+     267,   267,   267,   267,   267,   267,   267,   267,   267,   267,
+     267,   267,   268,   268,   268,   269,   269,   270,   270,   271,
+     272,   272,   273,   274,   274,   275,   275,   276,   276,   277,
+     277,   278,   278,   279,   280,   280,   280,   280,   281,   281,
+     282,   282,   283,   284,   284,   285,   285,   286,   286,   287,
+     288,   289,   289,   290,   290,   290,   290,   290,   290,   290,
+     290,   290,   291,   291,   292,   292,   292,   292,   292,   292,
+     292,   293,   293,   294,   294,   295,   295,   296,   297,   298,
+     298,   298,   299,   299,   300,   301,   302,   302,   302,   303,
+     304,   304,   305,   305,   306,   306,   306,   306,   307,   308,
+     308,   309,   309,   310,   310,   310,   311,   312,   312,   313,
+     314,   315,   316,   317,   318,   318,   319,   319,   320,   321,
+     322,   323,   324,   325,   326,   327,   328,   329,   329,   330,
+     330,   330,   330,   330,   330,   330,   330,   330,   330,   330,
+     330,   330,   331,   332,   332,   333,   333,   333,   333,   333,
+     333,   333,   333,   334,   335,   335,   336,   337,   337,   337,
+     338,   338,   339,   339,   340,   341,   341,   342,   343,   343,
+     344,   345,   346,   346,   347,   347,   348,   348,   349,   349,
+     349,   349,   349,   349,   349,   349,   349,   350,   350,   350,
+     350,   350,   350,   350,   350,   350,   350,   351,   352,   353,
+     354,   354,   355,   355,   356,   356,   357,   357,   358,   359,
+     360,   361,   361,   362,   363,   363,   363,   363,   364,   364,
+     365,   366,   367,   367,   368,   368,   368,   368,   369,   370,
+     371,   371,   372,   372,   372,   373,   374,   375,   376,   377,
+     378,   378,   378,   378,   378,   378,   378,   378,   378,   378,
+     378,   378,   378,   378,   378,   378,   378,   378,   378,   378,
+     378,   378,   378,   378,   378,   378,   378,   378,   378,   378,
+     378,   378,   378,   378,   378,   378,   378,   378,   378,   378,
+     378,   378,   378,   378,   378,   378,   378,   378,   378,   378,
+     378,   378,   378,   378,   378,   378,   378,   378,   378,   378,
+     378,   378,   378,   378,   378,   378,   378,   378,   378,   378,
+     378,   378,   378,   378,   378,   378,   378
   };
 
   const signed char
@@ -11741,36 +11742,37 @@ namespace yy {
        1,     0,     3,     0,     1,     0,     1,     2,     3,     1,
        2,     1,     3,     1,     1,     3,     1,     1,     2,     1,
        1,     1,     1,     1,     1,     1,     1,     1,     1,     1,
-       4,     4,     1,     3,     1,     1,     1,     3,     3,     3,
-       4,     4,     1,     1,     1,     1,     1,     1,     1,     1,
+       4,     4,     1,     3,     1,     1,     1,     1,     1,     1,
+       1,     1,     1,     1,     3,     3,     3,     3,     4,     4,
+       1,     1,     1,     1,     1,     1,     1,     1,     1,     1,
+       1,     1,     1,     1,     1,     1,     1,     1,     1,     1,
        1,     1,     1,     1,     1,     1,     1,     1,     1,     1,
+       1,     1,     1,     1,     1,     1,     2,     1,     1,     1,
+       1,     1,     1,     1,     2,     1,     4,     1,     1,     1,
+       1,     3,     3,     3,     1,     1,     3,     1,     1,     1,
+       1,     1,     1,     1,     1,     3,     3,     3,     3,     3,
+       1,     2,     1,     1,     1,     1,     4,     1,     3,     4,
+       4,     1,     1,     4,     1,     4,     6,     2,     1,     3,
+       1,     1,     1,     2,     5,     1,     3,     4,     4,     2,
+       1,     3,     4,     1,     4,     6,     8,    10,     4,     6,
+       2,     4,     1,     3,     1,     2,     3,     1,     2,     3,
+       3,     3,     3,     3,     4,     3,     3,     4,     1,     1,
+       3,     5,     1,     3,     3,     1,     2,     3,     3,     5,
+       2,     0,     1,     1,     1,     1,     1,     0,     2,     3,
+       4,     1,     2,     1,     1,     1,     1,     1,     1,     4,
+       1,     1,     4,     2,     3,     0,     1,     1,     1,     2,
        1,     1,     1,     1,     1,     1,     1,     1,     1,     1,
-       1,     1,     1,     1,     1,     1,     1,     1,     2,     1,
-       1,     1,     1,     1,     1,     1,     2,     1,     4,     1,
-       1,     1,     1,     3,     3,     3,     1,     1,     3,     1,
-       1,     1,     1,     1,     1,     1,     1,     3,     3,     3,
-       3,     3,     1,     2,     1,     1,     1,     1,     4,     1,
-       3,     4,     4,     1,     1,     4,     1,     4,     6,     2,
-       1,     3,     1,     1,     1,     2,     5,     1,     3,     4,
-       4,     2,     1,     3,     4,     1,     4,     6,     8,    10,
-       4,     6,     2,     4,     1,     3,     1,     2,     3,     1,
-       2,     3,     3,     3,     3,     3,     4,     3,     3,     4,
-       1,     1,     3,     5,     1,     3,     3,     1,     2,     3,
-       3,     5,     2,     0,     1,     1,     1,     1,     1,     0,
-       2,     3,     4,     1,     2,     1,     1,     1,     1,     1,
-       1,     4,     1,     1,     4,     2,     3,     0,     1,     1,
-       1,     2,     1,     1,     1,     1,     1,     1,     1,     1,
        1,     1,     1,     1,     1,     1,     1,     1,     1,     1,
-       1,     1,     1,     1,     2,     2,     1,     4,     4,     4,
-       4,     4,     4,     4,     4,     4,     1,     1,     1,     1,
-       3,     5,     1,     2,     1,     3,     1,     1,     3,     1,
-       1,     2,     1,     2,     1,     1,     1,     1,     1,     3,
+       1,     1,     2,     2,     1,     4,     4,     4,     4,     4,
+       4,     4,     4,     4,     1,     1,     1,     1,     3,     5,
+       1,     2,     1,     3,     1,     1,     3,     1,     1,     2,
+       1,     2,     1,     1,     1,     1,     1,     3,     1,     1,
        1,     1,     1,     1,     1,     1,     1,     1,     1,     1,
-       1,     1,     1,     1,     1,     1,     1,     1,     1,     2,
-       1,     3,     1,     2,     1,     2,     1,     1,     1,     1,
-       2,     1,     2,     3,     3,     1,     0,     3,     5,     3,
-       1,     3,     2,     2,     1,     0,     1,     1,     1,     0,
-       2,     2,     2,     0,     1,     1,     3,     1,     1,     1,
+       1,     1,     1,     1,     1,     1,     1,     2,     1,     3,
+       1,     2,     1,     2,     1,     1,     1,     1,     2,     1,
+       2,     3,     3,     1,     0,     3,     5,     3,     1,     3,
+       2,     2,     1,     0,     1,     1,     1,     0,     2,     2,
+       2,     0,     1,     1,     3,     1,     1,     1,     1,     1,
        1,     1,     1,     1,     1,     1,     1,     1,     1,     1,
        1,     1,     1,     1,     1,     1,     1,     1,     1,     1,
        1,     1,     1,     1,     1,     1,     1,     1,     1,     1,
@@ -11778,7 +11780,7 @@ namespace yy {
        1,     1,     1,     1,     1,     1,     1,     1,     1,     1,
        1,     1,     1,     1,     1,     1,     1,     1,     1,     1,
        1,     1,     1,     1,     1,     1,     1,     1,     1,     1,
-       1,     1,     1,     1,     1,     1,     1,     1,     1
+       1,     1,     1,     1,     1,     1,     1
   };
 
 
@@ -11851,17 +11853,17 @@ namespace yy {
   "SymbolsFromModuleList", "SymbolsFromModule", "GlobalModuleReference",
   "SymbolList", "Symbol", "Reference", "AssignmentList", "Assignment",
   "DefinedType", "DefinedValue", "ParameterizedType", "ParameterizedValue",
-  "ActualParameterList", "ActualParameter", "ExternalTypeReference",
-  "ExternalValueReference", "TypeAssignment", "ValueAssignment",
-  "ValueSetTypeAssignment", "Type", "BuiltinType", "NamedType",
-  "ValueWithoutTypeIdentifier", "Value", "ValueCommaListChoice",
-  "ValueChoice", "ValueSet", "SequenceOfValues", "BooleanType",
-  "BooleanValue", "IntegerType", "NamedNumberList", "NamedNumber",
-  "SignedNumber", "EnumeratedType", "Enumerations", "Enumeration",
-  "EnumerationItem", "RealType", "BitStringType", "NamedBitList",
-  "NamedBit", "OctetStringType", "NullType", "SequenceType",
-  "ComponentTypeLists", "ComponentTypeList", "ComponentType",
-  "SequenceOfType", "SetType", "SetOfType", "ChoiceType",
+  "ActualParameterList", "ActualParameter", "ActualValue",
+  "ExternalTypeReference", "ExternalValueReference", "TypeAssignment",
+  "ValueAssignment", "ValueSetTypeAssignment", "Type", "BuiltinType",
+  "NamedType", "ValueWithoutTypeIdentifier", "Value",
+  "ValueCommaListChoice", "ValueChoice", "ValueSet", "SequenceOfValues",
+  "BooleanType", "BooleanValue", "IntegerType", "NamedNumberList",
+  "NamedNumber", "SignedNumber", "EnumeratedType", "Enumerations",
+  "Enumeration", "EnumerationItem", "RealType", "BitStringType",
+  "NamedBitList", "NamedBit", "OctetStringType", "NullType",
+  "SequenceType", "ComponentTypeLists", "ComponentTypeList",
+  "ComponentType", "SequenceOfType", "SetType", "SetOfType", "ChoiceType",
   "AlternativeTypeLists", "RootAlternativeTypeList", "AlternativeTypeList",
   "SelectionType", "PrefixedType", "TaggedType", "Tag",
   "EncodingReference", "ClassNumber", "Class", "ObjectIdentifierType",
@@ -11904,53 +11906,54 @@ namespace yy {
      530,   533,   534,   538,   539,   542,   545,   549,   552,   553,
      554,   555,   556,   565,   567,   574,   576,   578,   580,   587,
      591,   595,   599,   611,   615,   617,   621,   623,   627,   629,
-     633,   635,   651,   663,   672,   680,   681,   685,   686,   689,
-     690,   691,   694,   699,   700,   701,   702,   703,   704,   705,
-     708,   710,   714,   715,   718,   719,   722,   723,   726,   727,
-     730,   731,   732,   743,   751,   758,   759,   760,   763,   766,
-     770,   771,   775,   776,   777,   780,   783,   787,   788,   791,
-     793,   795,   797,   801,   802,   805,   807,   811,   812,   813,
-     816,   817,   820,   822,   825,   827,   830,   832,   836,   852,
-     854,   860,   862,   866,   870,   872,   874,   883,   885,   889,
-     891,   893,   895,   898,   900,   904,   906,   908,   914,   916,
-     919,   923,   926,   928,   932,   934,   937,   947,   951,   976,
-     980,   984,   988,   990,   992,   994,   996,  1001,  1002,  1003,
-    1004,  1005,  1006,  1007,  1008,  1009,  1010,  1011,  1012,  1013,
-    1014,  1015,  1016,  1017,  1018,  1019,  1020,  1021,  1022,  1023,
-    1024,  1025,  1026,  1027,  1028,  1029,  1030,  1031,  1034,  1038,
-    1040,  1042,  1044,  1046,  1048,  1050,  1052,  1054,  1056,  1058,
-    1059,  1061,  1063,  1065,  1069,  1070,  1071,  1072,  1073,  1075,
-    1077,  1079,  1081,  1083,  1088,  1090,  1092,  1095,  1096,  1099,
-    1100,  1103,  1106,  1108,  1116,  1119,  1121,  1125,  1127,  1131,
-    1133,  1137,  1139,  1143,  1145,  1149,  1153,  1156,  1159,  1163,
-    1166,  1168,  1172,  1174,  1182,  1185,  1187,  1191,  1192,  1195,
-    1196,  1210,  1213,  1216,  1218,  1222,  1224,  1227,  1231,  1235,
-    1240,  1243,  1246,  1249,  1254,  1256,  1260,  1263,  1266,  1269,
-    1271,  1273,  1275,  1287,  1289,  1293,  1295,  1299,  1301,  1305,
-    1309,  1313,  1315,  1317,  1321,  1323,  1330,  1333,  1337,  1339,
-    1341,  1345,  1349,  1350,  1353,  1355,  1358,  1360,  1362,  1364,
-    1374,  1377,  1379,  1383,  1385,  1389,  1391,  1393,  1397,  1401,
-    1403,  1406,  1410,  1422,  1425,  1431,  1434,  1435,  1438,  1439,
-    1442,  1448,  1455,  1461,  1464,  1467,  1470,  1473,  1476,  1479,
-    1481,  1485,  1487,  1489,  1491,  1493,  1495,  1497,  1499,  1501,
-    1503,  1505,  1507,  1509,  1513,  1517,  1519,  1523,  1525,  1527,
-    1529,  1531,  1533,  1535,  1537,  1541,  1545,  1546,  1549,  1552,
-    1553,  1554,  1557,  1558,  1561,  1562,  1565,  1568,  1569,  1572,
-    1575,  1576,  1579,  1582,  1585,  1586,  1589,  1590,  1593,  1595,
-    1598,  1599,  1600,  1601,  1602,  1603,  1604,  1605,  1606,  1612,
-    1615,  1617,  1619,  1621,  1623,  1625,  1627,  1629,  1631,  1635,
-    1638,  1641,  1644,  1645,  1648,  1649,  1652,  1653,  1656,  1657,
-    1660,  1663,  1666,  1669,  1670,  1673,  1675,  1676,  1677,  1678,
-    1681,  1682,  1685,  1688,  1691,  1692,  1695,  1696,  1697,  1698,
-    1701,  1704,  1707,  1708,  1711,  1712,  1713,  1716,  1720,  1724,
-    1728,  1732,  1736,  1737,  1738,  1739,  1740,  1741,  1742,  1743,
-    1744,  1745,  1746,  1747,  1748,  1749,  1750,  1751,  1752,  1753,
-    1754,  1755,  1756,  1757,  1758,  1759,  1760,  1761,  1762,  1763,
-    1764,  1765,  1766,  1767,  1768,  1769,  1770,  1771,  1772,  1773,
-    1774,  1775,  1776,  1777,  1778,  1779,  1780,  1781,  1782,  1783,
-    1784,  1785,  1786,  1787,  1788,  1789,  1790,  1791,  1792,  1793,
-    1794,  1795,  1796,  1797,  1798,  1799,  1800,  1801,  1802,  1803,
-    1804,  1805,  1806,  1807,  1808,  1809,  1810,  1811,  1812
+     633,   635,   651,   663,   672,   680,   682,   686,   687,   690,
+     691,   692,   695,   700,   701,   702,   703,   704,   705,   706,
+     709,   711,   715,   716,   719,   720,   723,   724,   727,   728,
+     731,   732,   733,   744,   752,   759,   760,   761,   764,   767,
+     771,   772,   776,   777,   778,   781,   784,   788,   789,   792,
+     794,   796,   798,   802,   803,   806,   808,   812,   813,   814,
+     817,   818,   821,   823,   826,   828,   831,   833,   837,   853,
+     855,   861,   863,   867,   871,   873,   875,   884,   886,   890,
+     892,   894,   896,   899,   901,   905,   907,   909,   915,   917,
+     920,   924,   927,   929,   933,   935,   938,   944,   945,   946,
+     947,   948,   949,   950,   951,   959,   963,   988,   992,   996,
+    1000,  1002,  1004,  1006,  1008,  1013,  1014,  1015,  1016,  1017,
+    1018,  1019,  1020,  1021,  1022,  1023,  1024,  1025,  1026,  1027,
+    1028,  1029,  1030,  1031,  1032,  1033,  1034,  1035,  1036,  1037,
+    1038,  1039,  1040,  1041,  1042,  1043,  1046,  1050,  1052,  1054,
+    1056,  1058,  1060,  1062,  1064,  1066,  1068,  1070,  1071,  1073,
+    1075,  1077,  1081,  1082,  1083,  1084,  1085,  1087,  1089,  1091,
+    1093,  1095,  1100,  1102,  1104,  1107,  1108,  1111,  1112,  1115,
+    1118,  1120,  1128,  1131,  1133,  1137,  1139,  1143,  1145,  1149,
+    1151,  1155,  1157,  1161,  1165,  1168,  1171,  1175,  1178,  1180,
+    1184,  1186,  1194,  1197,  1199,  1203,  1204,  1207,  1208,  1222,
+    1225,  1228,  1230,  1234,  1236,  1239,  1243,  1247,  1252,  1255,
+    1258,  1261,  1266,  1268,  1272,  1275,  1278,  1281,  1283,  1285,
+    1287,  1299,  1301,  1305,  1307,  1311,  1313,  1317,  1321,  1325,
+    1327,  1329,  1333,  1335,  1342,  1345,  1349,  1351,  1353,  1357,
+    1361,  1362,  1365,  1367,  1370,  1372,  1374,  1376,  1386,  1389,
+    1391,  1395,  1397,  1401,  1403,  1405,  1409,  1413,  1415,  1418,
+    1422,  1434,  1437,  1443,  1446,  1447,  1450,  1451,  1454,  1460,
+    1467,  1473,  1476,  1479,  1482,  1485,  1488,  1491,  1493,  1497,
+    1499,  1501,  1503,  1505,  1507,  1509,  1511,  1513,  1515,  1517,
+    1519,  1521,  1525,  1529,  1531,  1535,  1537,  1539,  1541,  1543,
+    1545,  1547,  1549,  1553,  1557,  1558,  1561,  1564,  1565,  1566,
+    1569,  1570,  1573,  1574,  1577,  1580,  1581,  1584,  1587,  1588,
+    1591,  1594,  1597,  1598,  1601,  1602,  1605,  1607,  1610,  1611,
+    1612,  1613,  1614,  1615,  1616,  1617,  1618,  1624,  1627,  1629,
+    1631,  1633,  1635,  1637,  1639,  1641,  1643,  1647,  1650,  1653,
+    1656,  1657,  1660,  1661,  1664,  1665,  1668,  1669,  1672,  1675,
+    1678,  1681,  1682,  1685,  1687,  1688,  1689,  1690,  1693,  1694,
+    1697,  1700,  1703,  1704,  1707,  1708,  1709,  1710,  1713,  1716,
+    1719,  1720,  1723,  1724,  1725,  1728,  1732,  1736,  1740,  1744,
+    1748,  1749,  1750,  1751,  1752,  1753,  1754,  1755,  1756,  1757,
+    1758,  1759,  1760,  1761,  1762,  1763,  1764,  1765,  1766,  1767,
+    1768,  1769,  1770,  1771,  1772,  1773,  1774,  1775,  1776,  1777,
+    1778,  1779,  1780,  1781,  1782,  1783,  1784,  1785,  1786,  1787,
+    1788,  1789,  1790,  1791,  1792,  1793,  1794,  1795,  1796,  1797,
+    1798,  1799,  1800,  1801,  1802,  1803,  1804,  1805,  1806,  1807,
+    1808,  1809,  1810,  1811,  1812,  1813,  1814,  1815,  1816,  1817,
+    1818,  1819,  1820,  1821,  1822,  1823,  1824
   };
 
   void
diff --git a/src/compiler/include/fast_ber/compiler/Parameters.hpp b/src/compiler/include/fast_ber/compiler/Parameters.hpp
index ab96213..81edd46 100644
--- a/src/compiler/include/fast_ber/compiler/Parameters.hpp
+++ b/src/compiler/include/fast_ber/compiler/Parameters.hpp
@@ -14,15 +14,15 @@ void resolve_parameterized(const Asn1Tree&, const Module&, PrefixedType&, const
 void resolve_parameterized(const Asn1Tree&, const Module&, BuiltinType&, const ParameterTypes&);
 void resolve_parameterized(const Asn1Tree&, const Module&, Type&, const ParameterTypes&);
 
-void parameterized_to_concrete(const Asn1Tree&, const Module&, Type&);
-void parameterized_to_concrete(const Asn1Tree&, const Module&, ChoiceType&);
-void parameterized_to_concrete(const Asn1Tree&, const Module&, SequenceType&);
-void parameterized_to_concrete(const Asn1Tree&, const Module&, SequenceOfType&);
-void parameterized_to_concrete(const Asn1Tree&, const Module&, SetType&);
-void parameterized_to_concrete(const Asn1Tree&, const Module&, SetOfType&);
-void parameterized_to_concrete(const Asn1Tree&, const Module&, PrefixedType&);
-void parameterized_to_concrete(const Asn1Tree&, const Module&, BuiltinType&);
-void parameterized_to_concrete(const Asn1Tree&, const Module&, Type&);
+void parameterized_to_concrete(const Asn1Tree&, const Module&, Type&, int depth = 0);
+void parameterized_to_concrete(const Asn1Tree&, const Module&, ChoiceType&, int depth);
+void parameterized_to_concrete(const Asn1Tree&, const Module&, SequenceType&, int depth);
+void parameterized_to_concrete(const Asn1Tree&, const Module&, SequenceOfType&, int depth);
+void parameterized_to_concrete(const Asn1Tree&, const Module&, SetType&, int depth);
+void parameterized_to_concrete(const Asn1Tree&, const Module&, SetOfType&, int depth);
+void parameterized_to_concrete(const Asn1Tree&, const Module&, PrefixedType&, int depth);
+void parameterized_to_concrete(const Asn1Tree&, const Module&, BuiltinType&, int depth);
+void parameterized_to_concrete(const Asn1Tree&, const Module&, Type&, int depth);
 
 void remove_parameter_templates(Asn1Tree&);
 
-- 
2.43.0


From 59d57cd3f7574bab64d755da0704ee48c4bbddac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:25 +0000
Subject: [PATCH 48/66] fix: DEFAULTs and values of ENUMERATED and OBJECT
 IDENTIFIER types which refer to other values do not compile

---
 src/compiler/ReorderAssignments.cpp           |  3 ++-
 src/compiler/ValueAsString.cpp                | 20 ++++++++++++++++++-
 .../fast_ber/compiler/ValueAsString.hpp       |  3 +++
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/compiler/ReorderAssignments.cpp b/src/compiler/ReorderAssignments.cpp
index fe1b017..44621d0 100644
--- a/src/compiler/ReorderAssignments.cpp
+++ b/src/compiler/ReorderAssignments.cpp
@@ -315,7 +315,8 @@ bool refers_to_assignment(const Asn1Tree& tree, const Module& module, const Type
         resolved = Type(absl::get<PrefixedType>(absl::get<BuiltinType>(resolved)).tagged_type->type);
     }
 
-    return !is_enumerated(resolved) && !find_named_number(resolved, Value{DefinedValue{reference, absl::nullopt}}) &&
+    return !is_enumerator(resolved, reference) &&
+           !find_named_number(resolved, Value{DefinedValue{reference, absl::nullopt}}) &&
            std::none_of(module.imports.begin(), module.imports.end(), [&](const Import& import) {
                return std::find(import.imported_values.begin(), import.imported_values.end(), reference) !=
                       import.imported_values.end();
diff --git a/src/compiler/ValueAsString.cpp b/src/compiler/ValueAsString.cpp
index 1e91360..8c08585 100644
--- a/src/compiler/ValueAsString.cpp
+++ b/src/compiler/ValueAsString.cpp
@@ -1,5 +1,6 @@
 #include "fast_ber/compiler/ValueAsString.hpp"
 
+#include <algorithm>
 #include <iomanip>
 #include <iostream>
 #include <limits>
@@ -89,6 +90,17 @@ const NamedNumber* find_named_number(const Type& type, const Value& value)
     return nullptr;
 }
 
+bool is_enumerator(const Type& type, const std::string& name)
+{
+    if (!is_enumerated(type))
+    {
+        return false;
+    }
+    const EnumeratedType& enumerated = absl::get<EnumeratedType>(absl::get<BuiltinType>(type));
+    return std::any_of(enumerated.enum_values.begin(), enumerated.enum_values.end(),
+                       [&](const EnumerationValue& enumerator) { return enumerator.name == name; });
+}
+
 std::string value_as_string(const NamedType& value_type, const Value& value, const std::string& scope)
 {
     assert(!is_defined(value_type.type)); // value_type should be concrete
@@ -131,6 +143,10 @@ std::string value_as_string(const NamedType& value_type, const Value& value, con
         }
         result += "}";
     }
+    else if (is_oid(value_type.type)) // Object identifiers with different tags do not convert
+    {
+        result += qualified_name(scope, absl::get<DefinedValue>(value.value_selection)) + ".value()";
+    }
     else if (is_bit_string(value_type.type))
     {
         if (absl::holds_alternative<BitStringValue>(value.value_selection) ||
@@ -157,7 +173,9 @@ std::string value_as_string(const NamedType& value_type, const Value& value, con
         if (absl::holds_alternative<DefinedValue>(value.value_selection))
         {
             const DefinedValue& defined = absl::get<DefinedValue>(value.value_selection);
-            result += value_type.name + "Values::" + defined.reference;
+            result += is_enumerator(value_type.type, defined.reference)
+                          ? value_type.name + "Values::" + defined.reference
+                          : qualified_name(scope, defined);
         }
         else
         {
diff --git a/src/compiler/include/fast_ber/compiler/ValueAsString.hpp b/src/compiler/include/fast_ber/compiler/ValueAsString.hpp
index 2c60aa7..5808d41 100644
--- a/src/compiler/include/fast_ber/compiler/ValueAsString.hpp
+++ b/src/compiler/include/fast_ber/compiler/ValueAsString.hpp
@@ -5,5 +5,8 @@
 // The named number of an integer type which a value refers to, if any
 const NamedNumber* find_named_number(const Type& type, const Value& value);
 
+// Whether the name is one of the enumerators of the type
+bool is_enumerator(const Type& type, const std::string& name);
+
 // Scope is put in front of references to other values
 std::string value_as_string(const NamedType& value_type, const Value& value, const std::string& scope = {});
-- 
2.43.0


From 9527d582d0dc8366ffbe0d53b853ed3cec9dcb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:30 +0000
Subject: [PATCH 49/66] fix: unfinished comments and strings are read past the
 end of the schema, long white space overflows the stack

---
 src/compiler/asn_compiler.yacc             |   26 +-
 src/compiler/autogen_copy/asn_compiler.hpp | 6002 ++++++++++----------
 2 files changed, 3034 insertions(+), 2994 deletions(-)

diff --git a/src/compiler/asn_compiler.yacc b/src/compiler/asn_compiler.yacc
index 03eb2e7..2a48c73 100644
--- a/src/compiler/asn_compiler.yacc
+++ b/src/compiler/asn_compiler.yacc
@@ -1830,6 +1830,9 @@ namespace yy {
 
     asn1_parser::symbol_type yylex(Context& context_)
     {
+        // Comments, white space and unknown symbols are skipped
+        for (;;)
+        {
         const char* start = context_.cursor;
         const char* YYMARKER = nullptr;
         context_.location.step();
@@ -1934,19 +1937,21 @@ re2c:define:YYCURSOR = "context_.cursor";
 "WITH"                  { context_.location.columns(context_.cursor - start); return asn1_parser::make_WITH (context_.location); }
 
 // Comments
-"--" ([\-]?[^\r\n\-])* "--"
-                        { context_.location.columns(context_.cursor - start); return yylex(context_); }
-"--" ([\-]?[^\r\n\-])*[\-]?
-                        { context_.location.columns(context_.cursor - start); return yylex(context_); }
-"/*" ([^\*]|([\*]+[^\*\/]))*[\*]+ "/"
-                        { for (char c: std::string(start, context_.cursor)) { context_.location.columns(); if (c == '\n') context_.location.lines(); } return yylex(context_); }
+"--" ([\-]?[^\r\n\-\000])* "--"
+                        { context_.location.columns(context_.cursor - start); continue; }
+"--" ([\-]?[^\r\n\-\000])*[\-]?
+                        { context_.location.columns(context_.cursor - start); continue; }
+"/*" ([^\*\000]|([\*]+[^\*\/\000]))*[\*]+ "/"
+                        { for (char c: std::string(start, context_.cursor)) { context_.location.columns(); if (c == '\n') context_.location.lines(); } continue; }
+"/*"                    { throw asn1_parser::syntax_error(context_.location, "syntax error, comment without end"); }
 
 // Identifiers
 [0-9]+'\.'[0-9]+        { context_.location.columns(context_.cursor - start); return asn1_parser::make_realnumber(std::stod(std::string(start, context_.cursor)), context_.location); }
 [0-9]+                  { context_.location.columns(context_.cursor - start); return asn1_parser::make_number(std::stoll(std::string(start, context_.cursor)), context_.location); }
 "-"[0-9]+               { context_.location.columns(context_.cursor - start); return asn1_parser::make_negativenumber(std::stoll(std::string(start, context_.cursor)), context_.location); }
-['\"']('\\'.|"\"\""|[^'\"'])*['\"']
+[\x22]([\x22][\x22]|[^\x22\000])*[\x22]
                         { context_.location.columns(context_.cursor - start); return asn1_parser::make_cstring(std::string(start, context_.cursor), context_.location); }
+[\x22]                  { throw asn1_parser::syntax_error(context_.location, "syntax error, string without end"); }
 ['\'']('0'|'1')*['\'']"B"
                         { context_.location.columns(context_.cursor - start); return asn1_parser::make_bstring(std::string(start + 1, context_.cursor - 2), context_.location); }
 ['\''][0-9A-Fa-f]*['\'']"H"
@@ -1960,8 +1965,8 @@ re2c:define:YYCURSOR = "context_.cursor";
 "\000"                  { context_.location.columns(context_.cursor - start); return asn1_parser::make_END_OF_FILE(context_.location); }
 
 // White space
-"\r\n" | "\n"           { context_.location.columns(context_.cursor - start); context_.location.lines();   return yylex(context_); }
-[\t\v\b\f ]             { context_.location.columns(context_.cursor - start); context_.location.columns(); return yylex(context_); }
+"\r\n" | "\n"           { context_.location.columns(context_.cursor - start); context_.location.lines();   continue; }
+[\t\v\b\f ]             { context_.location.columns(context_.cursor - start); context_.location.columns(); continue; }
 
 // Symbols
 "::="                   { context_.location.columns(context_.cursor - start); return asn1_parser::make_DEFINED_AS (context_.location); }
@@ -1983,7 +1988,8 @@ re2c:define:YYCURSOR = "context_.cursor";
 "<"                     { context_.location.columns(context_.cursor - start); return asn1_parser::make_LESS_THAN (context_.location); }
 "^"                     { context_.location.columns(context_.cursor - start); return asn1_parser::make_ACCENT (context_.location); }
 "@"                     { context_.location.columns(context_.cursor - start); return asn1_parser::make_AT (context_.location); }
-.                       { std::cerr << "Ignoring unknown symbol: " <<  static_cast<int>(*start) << std::endl; return yylex(context_); }
+.                       { std::cerr << "Ignoring unknown symbol: " <<  static_cast<int>(*start) << std::endl; continue; }
 %}
+        }
     }
 }
diff --git a/src/compiler/autogen_copy/asn_compiler.hpp b/src/compiler/autogen_copy/asn_compiler.hpp
index 587aa43..826eae2 100644
--- a/src/compiler/autogen_copy/asn_compiler.hpp
+++ b/src/compiler/autogen_copy/asn_compiler.hpp
@@ -11993,6 +11993,9 @@ namespace yy {
 
     asn1_parser::symbol_type yylex(Context& context_)
     {
+        // Comments, white space and unknown symbols are skipped
+        for (;;)
+        {
         const char* start = context_.cursor;
         const char* YYMARKER = nullptr;
         context_.location.step();
@@ -12013,14 +12016,14 @@ namespace yy {
 		case '\r': goto yy6;
 		case '!': goto yy7;
 		case '"': goto yy8;
-		case '&': goto yy9;
-		case '\'': goto yy10;
-		case '(': goto yy11;
-		case ')': goto yy12;
-		case ',': goto yy13;
-		case '-': goto yy14;
-		case '.': goto yy16;
-		case '/': goto yy18;
+		case '&': goto yy10;
+		case '\'': goto yy11;
+		case '(': goto yy12;
+		case ')': goto yy13;
+		case ',': goto yy14;
+		case '-': goto yy15;
+		case '.': goto yy17;
+		case '/': goto yy19;
 		case '0':
 		case '1':
 		case '2':
@@ -12030,18 +12033,18 @@ namespace yy {
 		case '6':
 		case '7':
 		case '8':
-		case '9': goto yy19;
-		case ':': goto yy21;
-		case ';': goto yy23;
-		case '<': goto yy24;
-		case '@': goto yy25;
-		case 'A': goto yy26;
-		case 'B': goto yy28;
-		case 'C': goto yy29;
-		case 'D': goto yy30;
-		case 'E': goto yy31;
-		case 'F': goto yy32;
-		case 'G': goto yy33;
+		case '9': goto yy20;
+		case ':': goto yy22;
+		case ';': goto yy24;
+		case '<': goto yy25;
+		case '@': goto yy26;
+		case 'A': goto yy27;
+		case 'B': goto yy29;
+		case 'C': goto yy30;
+		case 'D': goto yy31;
+		case 'E': goto yy32;
+		case 'F': goto yy33;
+		case 'G': goto yy34;
 		case 'H':
 		case 'J':
 		case 'K':
@@ -12049,21 +12052,21 @@ namespace yy {
 		case 'Q':
 		case 'X':
 		case 'Y':
-		case 'Z': goto yy34;
-		case 'I': goto yy36;
-		case 'M': goto yy37;
-		case 'N': goto yy38;
-		case 'O': goto yy39;
-		case 'P': goto yy40;
-		case 'R': goto yy41;
-		case 'S': goto yy42;
-		case 'T': goto yy43;
-		case 'U': goto yy44;
-		case 'V': goto yy45;
-		case 'W': goto yy46;
-		case '[': goto yy47;
-		case ']': goto yy48;
-		case '^': goto yy49;
+		case 'Z': goto yy35;
+		case 'I': goto yy37;
+		case 'M': goto yy38;
+		case 'N': goto yy39;
+		case 'O': goto yy40;
+		case 'P': goto yy41;
+		case 'R': goto yy42;
+		case 'S': goto yy43;
+		case 'T': goto yy44;
+		case 'U': goto yy45;
+		case 'V': goto yy46;
+		case 'W': goto yy47;
+		case '[': goto yy48;
+		case ']': goto yy49;
+		case '^': goto yy50;
 		case 'a':
 		case 'b':
 		case 'c':
@@ -12089,10 +12092,10 @@ namespace yy {
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy50;
-		case '{': goto yy52;
-		case '|': goto yy53;
-		case '}': goto yy54;
+		case 'z': goto yy51;
+		case '{': goto yy53;
+		case '|': goto yy54;
+		case '}': goto yy55;
 		default: goto yy2;
 	}
 yy1:
@@ -12101,13 +12104,13 @@ yy1:
 yy2:
 	++context_.cursor;
 yy3:
-	{ std::cerr << "Ignoring unknown symbol: " <<  static_cast<int>(*start) << std::endl; return yylex(context_); }
+	{ std::cerr << "Ignoring unknown symbol: " <<  static_cast<int>(*start) << std::endl; continue; }
 yy4:
 	++context_.cursor;
-	{ context_.location.columns(context_.cursor - start); context_.location.columns(); return yylex(context_); }
+	{ context_.location.columns(context_.cursor - start); context_.location.columns(); continue; }
 yy5:
 	++context_.cursor;
-	{ context_.location.columns(context_.cursor - start); context_.location.lines();   return yylex(context_); }
+	{ context_.location.columns(context_.cursor - start); context_.location.lines();   continue; }
 yy6:
 	yych = *++context_.cursor;
 	switch (yych) {
@@ -12118,14 +12121,12 @@ yy7:
 	++context_.cursor;
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXCLAMATION_MARK (context_.location); }
 yy8:
-	yych = *++context_.cursor;
-	switch (yych) {
-		case '"': goto yy55;
-		case '\'': goto yy57;
-		case '\\': goto yy58;
-		default: goto yy8;
-	}
+	yyaccept = 0;
+	yych = *(YYMARKER = ++context_.cursor);
+	if (yych >= 0x01) goto yy57;
 yy9:
+	{ throw asn1_parser::syntax_error(context_.location, "syntax error, string without end"); }
+yy10:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case 'A':
@@ -12153,7 +12154,7 @@ yy9:
 		case 'W':
 		case 'X':
 		case 'Y':
-		case 'Z': goto yy59;
+		case 'Z': goto yy61;
 		case 'a':
 		case 'b':
 		case 'c':
@@ -12179,16 +12180,16 @@ yy9:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy61;
+		case 'z': goto yy63;
 		default: goto yy3;
 	}
-yy10:
-	yych = *++context_.cursor;
+yy11:
+	yyaccept = 1;
+	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '"': goto yy55;
-		case '\'': goto yy63;
+		case '\'':
 		case '0':
-		case '1': goto yy10;
+		case '1':
 		case '2':
 		case '3':
 		case '4':
@@ -12208,23 +12209,22 @@ yy10:
 		case 'c':
 		case 'd':
 		case 'e':
-		case 'f': goto yy64;
-		case '\\': goto yy58;
-		default: goto yy8;
+		case 'f': goto yy67;
+		default: goto yy3;
 	}
-yy11:
+yy12:
 	++context_.cursor;
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OPEN_PARENTHESIS (context_.location); }
-yy12:
+yy13:
 	++context_.cursor;
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CLOSE_PARENTHESIS (context_.location); }
-yy13:
+yy14:
 	++context_.cursor;
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COMMA (context_.location); }
-yy14:
+yy15:
 	yych = *++context_.cursor;
 	switch (yych) {
-		case '-': goto yy65;
+		case '-': goto yy69;
 		case '0':
 		case '1':
 		case '2':
@@ -12234,30 +12234,30 @@ yy14:
 		case '6':
 		case '7':
 		case '8':
-		case '9': goto yy67;
-		default: goto yy15;
+		case '9': goto yy71;
+		default: goto yy16;
 	}
-yy15:
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_HYPHEN_MINUS (context_.location); }
 yy16:
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_HYPHEN_MINUS (context_.location); }
+yy17:
 	yych = *++context_.cursor;
 	switch (yych) {
-		case '.': goto yy69;
-		default: goto yy17;
+		case '.': goto yy73;
+		default: goto yy18;
 	}
-yy17:
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_FULL_STOP (context_.location); }
 yy18:
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_FULL_STOP (context_.location); }
+yy19:
 	yych = *++context_.cursor;
 	switch (yych) {
-		case '*': goto yy71;
+		case '*': goto yy75;
 		default: goto yy3;
 	}
-yy19:
-	yyaccept = 0;
+yy20:
+	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '.': goto yy72;
+		case '.': goto yy77;
 		case '0':
 		case '1':
 		case '2':
@@ -12267,102 +12267,102 @@ yy19:
 		case '6':
 		case '7':
 		case '8':
-		case '9': goto yy19;
-		default: goto yy20;
+		case '9': goto yy20;
+		default: goto yy21;
 	}
-yy20:
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_number(std::stoll(std::string(start, context_.cursor)), context_.location); }
 yy21:
-	yyaccept = 1;
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_number(std::stoll(std::string(start, context_.cursor)), context_.location); }
+yy22:
+	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case ':': goto yy74;
-		default: goto yy22;
+		case ':': goto yy78;
+		default: goto yy23;
 	}
-yy22:
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COLON (context_.location); }
 yy23:
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COLON (context_.location); }
+yy24:
 	++context_.cursor;
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SEMICOLON (context_.location); }
-yy24:
+yy25:
 	++context_.cursor;
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_LESS_THAN (context_.location); }
-yy25:
+yy26:
 	++context_.cursor;
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_AT (context_.location); }
-yy26:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'B': goto yy76;
-		case 'L': goto yy77;
-		case 'N': goto yy78;
-		case 'P': goto yy79;
-		case 'U': goto yy80;
-		default: goto yy35;
-	}
 yy27:
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GENERIC_IDENTIFIER_UPPERCASE(santize_name(std::string(start, context_.cursor)), context_.location); }
-yy28:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy81;
-		case 'I': goto yy82;
-		case 'M': goto yy83;
-		case 'O': goto yy84;
-		case 'Y': goto yy85;
-		default: goto yy35;
+		case 'B': goto yy80;
+		case 'L': goto yy81;
+		case 'N': goto yy82;
+		case 'P': goto yy83;
+		case 'U': goto yy84;
+		default: goto yy36;
 	}
+yy28:
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GENERIC_IDENTIFIER_UPPERCASE(santize_name(std::string(start, context_.cursor)), context_.location); }
 yy29:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'H': goto yy87;
-		case 'L': goto yy88;
-		case 'O': goto yy89;
-		default: goto yy35;
+		case 'E': goto yy85;
+		case 'I': goto yy86;
+		case 'M': goto yy87;
+		case 'O': goto yy88;
+		case 'Y': goto yy89;
+		default: goto yy36;
 	}
 yy30:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy90;
-		case 'E': goto yy91;
-		case 'U': goto yy92;
-		default: goto yy35;
+		case 'H': goto yy91;
+		case 'L': goto yy92;
+		case 'O': goto yy93;
+		default: goto yy36;
 	}
 yy31:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'M': goto yy93;
-		case 'N': goto yy94;
-		case 'X': goto yy95;
-		default: goto yy35;
+		case 'A': goto yy94;
+		case 'E': goto yy95;
+		case 'U': goto yy96;
+		default: goto yy36;
 	}
 yy32:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy96;
-		case 'R': goto yy97;
-		default: goto yy35;
+		case 'M': goto yy97;
+		case 'N': goto yy98;
+		case 'X': goto yy99;
+		default: goto yy36;
 	}
 yy33:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy98;
-		case 'r': goto yy99;
-		default: goto yy35;
+		case 'A': goto yy100;
+		case 'R': goto yy101;
+		default: goto yy36;
 	}
 yy34:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'e': goto yy102;
+		case 'r': goto yy103;
+		default: goto yy36;
+	}
 yy35:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+yy36:
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -12425,126 +12425,126 @@ yy35:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy27;
-	}
-yy36:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'A': goto yy100;
-		case 'D': goto yy101;
-		case 'M': goto yy102;
-		case 'N': goto yy103;
-		case 'S': goto yy104;
-		default: goto yy35;
+		case 'z': goto yy35;
+		default: goto yy28;
 	}
 yy37:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy105;
-		case 'I': goto yy106;
-		default: goto yy35;
+		case 'A': goto yy104;
+		case 'D': goto yy105;
+		case 'M': goto yy106;
+		case 'N': goto yy107;
+		case 'S': goto yy108;
+		default: goto yy36;
 	}
 yy38:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy107;
-		case 'U': goto yy108;
-		case 'u': goto yy109;
-		default: goto yy35;
+		case 'A': goto yy109;
+		case 'I': goto yy110;
+		default: goto yy36;
 	}
 yy39:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'B': goto yy110;
-		case 'C': goto yy111;
-		case 'F': goto yy112;
-		case 'I': goto yy114;
-		case 'P': goto yy115;
-		case 'b': goto yy116;
-		default: goto yy35;
+		case 'O': goto yy111;
+		case 'U': goto yy112;
+		case 'u': goto yy113;
+		default: goto yy36;
 	}
 yy40:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy117;
-		case 'D': goto yy118;
-		case 'L': goto yy119;
-		case 'R': goto yy120;
-		case 'r': goto yy121;
-		default: goto yy35;
+		case 'B': goto yy114;
+		case 'C': goto yy115;
+		case 'F': goto yy116;
+		case 'I': goto yy118;
+		case 'P': goto yy119;
+		case 'b': goto yy120;
+		default: goto yy36;
 	}
 yy41:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy122;
-		default: goto yy35;
+		case 'A': goto yy121;
+		case 'D': goto yy122;
+		case 'L': goto yy123;
+		case 'R': goto yy124;
+		case 'r': goto yy125;
+		default: goto yy36;
 	}
 yy42:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy123;
-		case 'I': goto yy124;
-		case 'T': goto yy125;
-		case 'Y': goto yy126;
-		default: goto yy35;
+		case 'E': goto yy126;
+		default: goto yy36;
 	}
 yy43:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '6': goto yy127;
-		case 'A': goto yy128;
-		case 'I': goto yy129;
-		case 'R': goto yy130;
-		case 'Y': goto yy131;
-		case 'e': goto yy132;
-		default: goto yy35;
+		case 'E': goto yy127;
+		case 'I': goto yy128;
+		case 'T': goto yy129;
+		case 'Y': goto yy130;
+		default: goto yy36;
 	}
 yy44:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy133;
-		case 'T': goto yy134;
-		case 'n': goto yy135;
-		default: goto yy35;
+		case '6': goto yy131;
+		case 'A': goto yy132;
+		case 'I': goto yy133;
+		case 'R': goto yy134;
+		case 'Y': goto yy135;
+		case 'e': goto yy136;
+		default: goto yy36;
 	}
 yy45:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy136;
-		default: goto yy35;
+		case 'N': goto yy137;
+		case 'T': goto yy138;
+		case 'n': goto yy139;
+		default: goto yy36;
 	}
 yy46:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy137;
-		default: goto yy35;
+		case 'i': goto yy140;
+		default: goto yy36;
 	}
 yy47:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'I': goto yy141;
+		default: goto yy36;
+	}
+yy48:
 	++context_.cursor;
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OPEN_SQUARE_BRACKET (context_.location); }
-yy48:
+yy49:
 	++context_.cursor;
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CLOSE_SQUARE_BRACKET (context_.location); }
-yy49:
+yy50:
 	++context_.cursor;
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ACCENT (context_.location); }
-yy50:
-	yyaccept = 3;
+yy51:
+	yyaccept = 5;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy138;
+		case '-': goto yy142;
 		case '0':
 		case '1':
 		case '2':
@@ -12607,43 +12607,148 @@ yy50:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy50;
-		default: goto yy51;
+		case 'z': goto yy51;
+		default: goto yy52;
 	}
-yy51:
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GENERIC_IDENTIFIER_LOWERCASE(santize_name(std::string(start, context_.cursor)), context_.location); }
 yy52:
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GENERIC_IDENTIFIER_LOWERCASE(santize_name(std::string(start, context_.cursor)), context_.location); }
+yy53:
 	++context_.cursor;
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OPEN_BRACE (context_.location); }
-yy53:
+yy54:
 	++context_.cursor;
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_VERTICAL_LINE (context_.location); }
-yy54:
+yy55:
 	++context_.cursor;
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CLOSE_BRACE (context_.location); }
-yy55:
+yy56:
 	yych = *++context_.cursor;
+yy57:
 	switch (yych) {
-		case '"': goto yy8;
+		case 0x00: goto yy58;
+		case '"': goto yy59;
 		default: goto yy56;
 	}
-yy56:
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_cstring(std::string(start, context_.cursor), context_.location); }
-yy57:
-	++context_.cursor;
-	goto yy56;
 yy58:
-	yych = *++context_.cursor;
-	switch (yych) {
-		case '"': goto yy139;
-		case '\\': goto yy58;
-		default: goto yy8;
+	context_.cursor = YYMARKER;
+	switch (yyaccept) {
+		case 0: goto yy9;
+		case 1: goto yy3;
+		case 2: goto yy21;
+		case 3: goto yy23;
+		case 4: goto yy28;
+		case 5: goto yy52;
+		case 6: goto yy60;
+		case 7: goto yy62;
+		case 8: goto yy64;
+		case 9: goto yy76;
+		case 10: goto yy90;
+		case 11: goto yy117;
+		case 12: goto yy158;
+		case 13: goto yy160;
+		case 14: goto yy165;
+		case 15: goto yy179;
+		case 16: goto yy196;
+		case 17: goto yy198;
+		case 18: goto yy209;
+		case 19: goto yy218;
+		case 20: goto yy251;
+		case 21: goto yy264;
+		case 22: goto yy278;
+		case 23: goto yy291;
+		case 24: goto yy296;
+		case 25: goto yy301;
+		case 26: goto yy303;
+		case 27: goto yy305;
+		case 28: goto yy317;
+		case 29: goto yy323;
+		case 30: goto yy329;
+		case 31: goto yy346;
+		case 32: goto yy364;
+		case 33: goto yy383;
+		case 34: goto yy392;
+		case 35: goto yy400;
+		case 36: goto yy413;
+		case 37: goto yy435;
+		case 38: goto yy448;
+		case 39: goto yy450;
+		case 40: goto yy456;
+		case 41: goto yy468;
+		case 42: goto yy475;
+		case 43: goto yy480;
+		case 44: goto yy485;
+		case 45: goto yy494;
+		case 46: goto yy496;
+		case 47: goto yy501;
+		case 48: goto yy508;
+		case 49: goto yy512;
+		case 50: goto yy515;
+		case 51: goto yy517;
+		case 52: goto yy528;
+		case 53: goto yy544;
+		case 54: goto yy546;
+		case 55: goto yy550;
+		case 56: goto yy553;
+		case 57: goto yy560;
+		case 58: goto yy562;
+		case 59: goto yy564;
+		case 60: goto yy572;
+		case 61: goto yy578;
+		case 62: goto yy580;
+		case 63: goto yy593;
+		case 64: goto yy595;
+		case 65: goto yy597;
+		case 66: goto yy599;
+		case 67: goto yy603;
+		case 68: goto yy612;
+		case 69: goto yy625;
+		case 70: goto yy630;
+		case 71: goto yy638;
+		case 72: goto yy641;
+		case 73: goto yy645;
+		case 74: goto yy651;
+		case 75: goto yy666;
+		case 76: goto yy672;
+		case 77: goto yy674;
+		case 78: goto yy676;
+		case 79: goto yy693;
+		case 80: goto yy706;
+		case 81: goto yy708;
+		case 82: goto yy710;
+		case 83: goto yy713;
+		case 84: goto yy719;
+		case 85: goto yy728;
+		case 86: goto yy730;
+		case 87: goto yy733;
+		case 88: goto yy736;
+		case 89: goto yy739;
+		case 90: goto yy744;
+		case 91: goto yy748;
+		case 92: goto yy753;
+		case 93: goto yy760;
+		case 94: goto yy762;
+		case 95: goto yy765;
+		case 96: goto yy768;
+		case 97: goto yy771;
+		case 98: goto yy773;
+		case 99: goto yy775;
+		case 100: goto yy777;
+		default: goto yy779;
 	}
 yy59:
-	yyaccept = 4;
+	yyaccept = 6;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case '"': goto yy56;
+		default: goto yy60;
+	}
+yy60:
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_cstring(std::string(start, context_.cursor), context_.location); }
+yy61:
+	yyaccept = 7;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy140;
+		case '-': goto yy143;
 		case '0':
 		case '1':
 		case '2':
@@ -12706,16 +12811,16 @@ yy59:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy59;
-		default: goto yy60;
+		case 'z': goto yy61;
+		default: goto yy62;
 	}
-yy60:
+yy62:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_typefieldreference(santize_name(std::string(start, context_.cursor)), context_.location); }
-yy61:
-	yyaccept = 5;
+yy63:
+	yyaccept = 8;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy141;
+		case '-': goto yy144;
 		case '0':
 		case '1':
 		case '2':
@@ -12778,25 +12883,25 @@ yy61:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy61;
-		default: goto yy62;
+		case 'z': goto yy63;
+		default: goto yy64;
 	}
-yy62:
+yy64:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_valuefieldreference(santize_name(std::string(start, context_.cursor)), context_.location); }
-yy63:
+yy65:
 	yych = *++context_.cursor;
 	switch (yych) {
-		case 'B': goto yy142;
-		case 'H': goto yy143;
-		default: goto yy56;
+		case 'B': goto yy145;
+		case 'H': goto yy146;
+		default: goto yy58;
 	}
-yy64:
+yy66:
 	yych = *++context_.cursor;
+yy67:
 	switch (yych) {
-		case '"': goto yy55;
-		case '\'': goto yy144;
+		case '\'': goto yy65;
 		case '0':
-		case '1':
+		case '1': goto yy66;
 		case '2':
 		case '3':
 		case '4':
@@ -12816,23 +12921,13 @@ yy64:
 		case 'c':
 		case 'd':
 		case 'e':
-		case 'f': goto yy64;
-		case '\\': goto yy58;
-		default: goto yy8;
+		case 'f': goto yy68;
+		default: goto yy58;
 	}
-yy65:
-	yych = *++context_.cursor;
-	switch (yych) {
-		case '\n':
-		case '\r': goto yy66;
-		case '-': goto yy145;
-		default: goto yy65;
-	}
-yy66:
-	{ context_.location.columns(context_.cursor - start); return yylex(context_); }
-yy67:
+yy68:
 	yych = *++context_.cursor;
 	switch (yych) {
+		case '\'': goto yy147;
 		case '0':
 		case '1':
 		case '2':
@@ -12842,26 +12937,64 @@ yy67:
 		case '6':
 		case '7':
 		case '8':
-		case '9': goto yy67;
-		default: goto yy68;
+		case '9':
+		case 'A':
+		case 'B':
+		case 'C':
+		case 'D':
+		case 'E':
+		case 'F':
+		case 'a':
+		case 'b':
+		case 'c':
+		case 'd':
+		case 'e':
+		case 'f': goto yy68;
+		default: goto yy58;
 	}
-yy68:
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_negativenumber(std::stoll(std::string(start, context_.cursor)), context_.location); }
 yy69:
 	yych = *++context_.cursor;
 	switch (yych) {
-		case '.': goto yy146;
-		default: goto yy70;
+		case 0x00:
+		case '\n':
+		case '\r': goto yy70;
+		case '-': goto yy148;
+		default: goto yy69;
 	}
 yy70:
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_RANGE (context_.location); }
+	{ context_.location.columns(context_.cursor - start); continue; }
 yy71:
 	yych = *++context_.cursor;
 	switch (yych) {
-		case '*': goto yy147;
-		default: goto yy71;
+		case '0':
+		case '1':
+		case '2':
+		case '3':
+		case '4':
+		case '5':
+		case '6':
+		case '7':
+		case '8':
+		case '9': goto yy71;
+		default: goto yy72;
 	}
 yy72:
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_negativenumber(std::stoll(std::string(start, context_.cursor)), context_.location); }
+yy73:
+	yych = *++context_.cursor;
+	switch (yych) {
+		case '.': goto yy149;
+		default: goto yy74;
+	}
+yy74:
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_RANGE (context_.location); }
+yy75:
+	yyaccept = 9;
+	yych = *(YYMARKER = ++context_.cursor);
+	if (yych >= 0x01) goto yy151;
+yy76:
+	{ throw asn1_parser::syntax_error(context_.location, "syntax error, comment without end"); }
+yy77:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -12873,118 +13006,16 @@ yy72:
 		case '6':
 		case '7':
 		case '8':
-		case '9': goto yy148;
-		default: goto yy73;
-	}
-yy73:
-	context_.cursor = YYMARKER;
-	switch (yyaccept) {
-		case 0: goto yy20;
-		case 1: goto yy22;
-		case 2: goto yy27;
-		case 3: goto yy51;
-		case 4: goto yy60;
-		case 5: goto yy62;
-		case 6: goto yy86;
-		case 7: goto yy113;
-		case 8: goto yy153;
-		case 9: goto yy155;
-		case 10: goto yy160;
-		case 11: goto yy174;
-		case 12: goto yy191;
-		case 13: goto yy193;
-		case 14: goto yy204;
-		case 15: goto yy213;
-		case 16: goto yy246;
-		case 17: goto yy259;
-		case 18: goto yy273;
-		case 19: goto yy286;
-		case 20: goto yy291;
-		case 21: goto yy296;
-		case 22: goto yy298;
-		case 23: goto yy300;
-		case 24: goto yy312;
-		case 25: goto yy318;
-		case 26: goto yy324;
-		case 27: goto yy341;
-		case 28: goto yy359;
-		case 29: goto yy378;
-		case 30: goto yy387;
-		case 31: goto yy395;
-		case 32: goto yy408;
-		case 33: goto yy430;
-		case 34: goto yy443;
-		case 35: goto yy445;
-		case 36: goto yy451;
-		case 37: goto yy463;
-		case 38: goto yy470;
-		case 39: goto yy475;
-		case 40: goto yy480;
-		case 41: goto yy489;
-		case 42: goto yy491;
-		case 43: goto yy496;
-		case 44: goto yy503;
-		case 45: goto yy507;
-		case 46: goto yy510;
-		case 47: goto yy512;
-		case 48: goto yy523;
-		case 49: goto yy539;
-		case 50: goto yy541;
-		case 51: goto yy545;
-		case 52: goto yy548;
-		case 53: goto yy555;
-		case 54: goto yy557;
-		case 55: goto yy559;
-		case 56: goto yy567;
-		case 57: goto yy573;
-		case 58: goto yy575;
-		case 59: goto yy588;
-		case 60: goto yy590;
-		case 61: goto yy592;
-		case 62: goto yy594;
-		case 63: goto yy598;
-		case 64: goto yy607;
-		case 65: goto yy620;
-		case 66: goto yy625;
-		case 67: goto yy633;
-		case 68: goto yy636;
-		case 69: goto yy640;
-		case 70: goto yy646;
-		case 71: goto yy661;
-		case 72: goto yy667;
-		case 73: goto yy669;
-		case 74: goto yy671;
-		case 75: goto yy688;
-		case 76: goto yy701;
-		case 77: goto yy703;
-		case 78: goto yy705;
-		case 79: goto yy708;
-		case 80: goto yy714;
-		case 81: goto yy723;
-		case 82: goto yy725;
-		case 83: goto yy728;
-		case 84: goto yy731;
-		case 85: goto yy734;
-		case 86: goto yy739;
-		case 87: goto yy743;
-		case 88: goto yy748;
-		case 89: goto yy755;
-		case 90: goto yy757;
-		case 91: goto yy760;
-		case 92: goto yy763;
-		case 93: goto yy766;
-		case 94: goto yy768;
-		case 95: goto yy770;
-		case 96: goto yy772;
-		default: goto yy774;
+		case '9': goto yy153;
+		default: goto yy58;
 	}
-yy74:
+yy78:
 	yych = *++context_.cursor;
 	switch (yych) {
-		case '=': goto yy150;
-		default: goto yy73;
+		case '=': goto yy155;
+		default: goto yy58;
 	}
-yy75:
+yy79:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -13049,80 +13080,80 @@ yy75:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy73;
-	}
-yy76:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'S': goto yy151;
-		default: goto yy35;
-	}
-yy77:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'L': goto yy152;
-		default: goto yy35;
-	}
-yy78:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'Y': goto yy154;
-		default: goto yy35;
-	}
-yy79:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'P': goto yy156;
-		default: goto yy35;
+		case 'z': goto yy35;
+		default: goto yy58;
 	}
 yy80:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy157;
-		default: goto yy35;
+		case 'S': goto yy156;
+		default: goto yy36;
 	}
 yy81:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'G': goto yy158;
-		default: goto yy35;
+		case 'L': goto yy157;
+		default: goto yy36;
 	}
 yy82:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy159;
-		default: goto yy35;
+		case 'Y': goto yy159;
+		default: goto yy36;
 	}
 yy83:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
 		case 'P': goto yy161;
-		default: goto yy35;
+		default: goto yy36;
 	}
 yy84:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy162;
-		default: goto yy35;
+		case 'T': goto yy162;
+		default: goto yy36;
 	}
 yy85:
-	yyaccept = 6;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
-		case '0':
-		case '1':
-		case '2':
+		case 'G': goto yy163;
+		default: goto yy36;
+	}
+yy86:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'T': goto yy164;
+		default: goto yy36;
+	}
+yy87:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'P': goto yy166;
+		default: goto yy36;
+	}
+yy88:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'O': goto yy167;
+		default: goto yy36;
+	}
+yy89:
+	yyaccept = 10;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case '-': goto yy79;
+		case '0':
+		case '1':
+		case '2':
 		case '3':
 		case '4':
 		case '5':
@@ -13182,199 +13213,199 @@ yy85:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy86;
-	}
-yy86:
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BY (context_.location); }
-yy87:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'A': goto yy163;
-		case 'O': goto yy164;
-		default: goto yy35;
-	}
-yy88:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'A': goto yy165;
-		default: goto yy35;
-	}
-yy89:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'M': goto yy166;
-		case 'N': goto yy167;
-		default: goto yy35;
+		case 'z': goto yy35;
+		default: goto yy90;
 	}
 yy90:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'T': goto yy168;
-		default: goto yy35;
-	}
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BY (context_.location); }
 yy91:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'F': goto yy169;
-		default: goto yy35;
+		case 'A': goto yy168;
+		case 'O': goto yy169;
+		default: goto yy36;
 	}
 yy92:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy170;
-		default: goto yy35;
+		case 'A': goto yy170;
+		default: goto yy36;
 	}
 yy93:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'B': goto yy171;
-		default: goto yy35;
+		case 'M': goto yy171;
+		case 'N': goto yy172;
+		default: goto yy36;
 	}
 yy94:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy172;
-		case 'D': goto yy173;
-		case 'U': goto yy175;
-		default: goto yy35;
+		case 'T': goto yy173;
+		default: goto yy36;
 	}
 yy95:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy176;
-		case 'P': goto yy177;
-		case 'T': goto yy178;
-		default: goto yy35;
+		case 'F': goto yy174;
+		default: goto yy36;
 	}
 yy96:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy179;
-		default: goto yy35;
+		case 'R': goto yy175;
+		default: goto yy36;
 	}
 yy97:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy180;
-		default: goto yy35;
+		case 'B': goto yy176;
+		default: goto yy36;
 	}
 yy98:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy181;
-		default: goto yy35;
+		case 'C': goto yy177;
+		case 'D': goto yy178;
+		case 'U': goto yy180;
+		default: goto yy36;
 	}
 yy99:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'a': goto yy182;
-		default: goto yy35;
+		case 'C': goto yy181;
+		case 'P': goto yy182;
+		case 'T': goto yy183;
+		default: goto yy36;
 	}
 yy100:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '5': goto yy183;
-		default: goto yy35;
+		case 'L': goto yy184;
+		default: goto yy36;
 	}
 yy101:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy184;
-		default: goto yy35;
+		case 'O': goto yy185;
+		default: goto yy36;
 	}
 yy102:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'P': goto yy185;
-		default: goto yy35;
+		case 'n': goto yy186;
+		default: goto yy36;
 	}
 yy103:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy186;
-		case 'S': goto yy187;
-		case 'T': goto yy188;
-		default: goto yy35;
+		case 'a': goto yy187;
+		default: goto yy36;
 	}
 yy104:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy189;
-		default: goto yy35;
+		case '5': goto yy188;
+		default: goto yy36;
 	}
 yy105:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'X': goto yy190;
-		default: goto yy35;
+		case 'E': goto yy189;
+		default: goto yy36;
 	}
 yy106:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy192;
-		default: goto yy35;
+		case 'P': goto yy190;
+		default: goto yy36;
 	}
 yy107:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy194;
-		default: goto yy35;
+		case 'C': goto yy191;
+		case 'S': goto yy192;
+		case 'T': goto yy193;
+		default: goto yy36;
 	}
 yy108:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy195;
-		default: goto yy35;
+		case 'O': goto yy194;
+		default: goto yy36;
 	}
 yy109:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'm': goto yy196;
-		default: goto yy35;
+		case 'X': goto yy195;
+		default: goto yy36;
 	}
 yy110:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'J': goto yy197;
-		default: goto yy35;
+		case 'N': goto yy197;
+		default: goto yy36;
 	}
 yy111:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy198;
-		default: goto yy35;
+		case 'T': goto yy199;
+		default: goto yy36;
 	}
 yy112:
-	yyaccept = 7;
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'L': goto yy200;
+		default: goto yy36;
+	}
+yy113:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'm': goto yy201;
+		default: goto yy36;
+	}
+yy114:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'J': goto yy202;
+		default: goto yy36;
+	}
+yy115:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case 'T': goto yy203;
+		default: goto yy36;
+	}
+yy116:
+	yyaccept = 11;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -13437,185 +13468,185 @@ yy112:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy113;
-	}
-yy113:
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OF (context_.location); }
-yy114:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'D': goto yy199;
-		default: goto yy35;
-	}
-yy115:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'T': goto yy200;
-		default: goto yy35;
-	}
-yy116:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'j': goto yy201;
-		default: goto yy35;
+		case 'z': goto yy35;
+		default: goto yy117;
 	}
 yy117:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'T': goto yy202;
-		default: goto yy35;
-	}
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OF (context_.location); }
 yy118:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'V': goto yy203;
-		default: goto yy35;
+		case 'D': goto yy204;
+		default: goto yy36;
 	}
 yy119:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'U': goto yy205;
-		default: goto yy35;
+		case 'T': goto yy205;
+		default: goto yy36;
 	}
 yy120:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy206;
-		case 'I': goto yy207;
-		default: goto yy35;
+		case 'j': goto yy206;
+		default: goto yy36;
 	}
 yy121:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy208;
-		default: goto yy35;
+		case 'T': goto yy207;
+		default: goto yy36;
 	}
 yy122:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy209;
-		case 'L': goto yy210;
-		default: goto yy35;
+		case 'V': goto yy208;
+		default: goto yy36;
 	}
 yy123:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'Q': goto yy211;
-		case 'T': goto yy212;
-		default: goto yy35;
+		case 'U': goto yy210;
+		default: goto yy36;
 	}
 yy124:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'Z': goto yy214;
-		default: goto yy35;
+		case 'E': goto yy211;
+		case 'I': goto yy212;
+		default: goto yy36;
 	}
 yy125:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy215;
-		default: goto yy35;
+		case 'i': goto yy213;
+		default: goto yy36;
 	}
 yy126:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy216;
-		default: goto yy35;
+		case 'A': goto yy214;
+		case 'L': goto yy215;
+		default: goto yy36;
 	}
 yy127:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '1': goto yy217;
-		default: goto yy35;
+		case 'Q': goto yy216;
+		case 'T': goto yy217;
+		default: goto yy36;
 	}
 yy128:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'G': goto yy218;
-		default: goto yy35;
+		case 'Z': goto yy219;
+		default: goto yy36;
 	}
 yy129:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'M': goto yy219;
-		default: goto yy35;
+		case 'R': goto yy220;
+		default: goto yy36;
 	}
 yy130:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'U': goto yy220;
-		default: goto yy35;
+		case 'N': goto yy221;
+		default: goto yy36;
 	}
 yy131:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'P': goto yy221;
-		default: goto yy35;
+		case '1': goto yy222;
+		default: goto yy36;
 	}
 yy132:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'l': goto yy222;
-		default: goto yy35;
+		case 'G': goto yy223;
+		default: goto yy36;
 	}
 yy133:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy223;
-		default: goto yy35;
+		case 'M': goto yy224;
+		default: goto yy36;
 	}
 yy134:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy224;
-		case 'F': goto yy225;
-		default: goto yy35;
+		case 'U': goto yy225;
+		default: goto yy36;
 	}
 yy135:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy226;
-		default: goto yy35;
+		case 'P': goto yy226;
+		default: goto yy36;
 	}
 yy136:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'd': goto yy227;
-		case 's': goto yy228;
-		default: goto yy35;
+		case 'l': goto yy227;
+		default: goto yy36;
 	}
 yy137:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy229;
-		default: goto yy35;
+		case 'I': goto yy228;
+		default: goto yy36;
 	}
 yy138:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'C': goto yy229;
+		case 'F': goto yy230;
+		default: goto yy36;
+	}
+yy139:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'i': goto yy231;
+		default: goto yy36;
+	}
+yy140:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'd': goto yy232;
+		case 's': goto yy233;
+		default: goto yy36;
+	}
+yy141:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'T': goto yy234;
+		default: goto yy36;
+	}
+yy142:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -13680,18 +13711,10 @@ yy138:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy50;
-		default: goto yy73;
-	}
-yy139:
-	yych = *++context_.cursor;
-	switch (yych) {
-		case '"': goto yy139;
-		case '\'': goto yy57;
-		case '\\': goto yy58;
-		default: goto yy8;
+		case 'z': goto yy51;
+		default: goto yy58;
 	}
-yy140:
+yy143:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -13756,10 +13779,10 @@ yy140:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy59;
-		default: goto yy73;
+		case 'z': goto yy61;
+		default: goto yy58;
 	}
-yy141:
+yy144:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -13824,40 +13847,50 @@ yy141:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy61;
-		default: goto yy73;
+		case 'z': goto yy63;
+		default: goto yy58;
 	}
-yy142:
+yy145:
 	++context_.cursor;
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_bstring(std::string(start + 1, context_.cursor - 2), context_.location); }
-yy143:
+yy146:
 	++context_.cursor;
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_hstring(std::string(start + 1, context_.cursor - 2), context_.location); }
-yy144:
+yy147:
 	yych = *++context_.cursor;
 	switch (yych) {
-		case 'H': goto yy143;
-		default: goto yy56;
+		case 'H': goto yy146;
+		default: goto yy58;
 	}
-yy145:
+yy148:
 	yych = *++context_.cursor;
 	switch (yych) {
+		case 0x00:
 		case '\n':
-		case '\r': goto yy66;
-		case '-': goto yy230;
-		default: goto yy65;
+		case '\r': goto yy70;
+		case '-': goto yy235;
+		default: goto yy69;
 	}
-yy146:
+yy149:
 	++context_.cursor;
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ELIPSIS (context_.location); }
-yy147:
+yy150:
 	yych = *++context_.cursor;
+yy151:
 	switch (yych) {
-		case '*': goto yy147;
-		case '/': goto yy231;
-		default: goto yy71;
+		case 0x00: goto yy58;
+		case '*': goto yy152;
+		default: goto yy150;
 	}
-yy148:
+yy152:
+	yych = *++context_.cursor;
+	switch (yych) {
+		case 0x00: goto yy58;
+		case '*': goto yy152;
+		case '/': goto yy236;
+		default: goto yy150;
+	}
+yy153:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -13869,27 +13902,27 @@ yy148:
 		case '6':
 		case '7':
 		case '8':
-		case '9': goto yy148;
-		default: goto yy149;
+		case '9': goto yy153;
+		default: goto yy154;
 	}
-yy149:
+yy154:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_realnumber(std::stod(std::string(start, context_.cursor)), context_.location); }
-yy150:
+yy155:
 	++context_.cursor;
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DEFINED_AS (context_.location); }
-yy151:
-	yyaccept = 2;
+yy156:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy232;
-		case 'T': goto yy233;
-		default: goto yy35;
+		case 'E': goto yy237;
+		case 'T': goto yy238;
+		default: goto yy36;
 	}
-yy152:
-	yyaccept = 8;
+yy157:
+	yyaccept = 12;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -13952,16 +13985,16 @@ yy152:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy153;
+		case 'z': goto yy35;
+		default: goto yy158;
 	}
-yy153:
+yy158:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ALL (context_.location); }
-yy154:
-	yyaccept = 9;
+yy159:
+	yyaccept = 13;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -14024,37 +14057,37 @@ yy154:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy155;
+		case 'z': goto yy35;
+		default: goto yy160;
 	}
-yy155:
+yy160:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ANY (context_.location); }
-yy156:
-	yyaccept = 2;
+yy161:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy234;
-		default: goto yy35;
+		case 'L': goto yy239;
+		default: goto yy36;
 	}
-yy157:
-	yyaccept = 2;
+yy162:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy235;
-		default: goto yy35;
+		case 'O': goto yy240;
+		default: goto yy36;
 	}
-yy158:
-	yyaccept = 2;
+yy163:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy236;
-		default: goto yy35;
+		case 'I': goto yy241;
+		default: goto yy36;
 	}
-yy159:
-	yyaccept = 10;
+yy164:
+	yyaccept = 14;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -14117,102 +14150,102 @@ yy159:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy160;
+		case 'z': goto yy35;
+		default: goto yy165;
 	}
-yy160:
+yy165:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BIT (context_.location); }
-yy161:
-	yyaccept = 2;
+yy166:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy237;
-		default: goto yy35;
+		case 'S': goto yy242;
+		default: goto yy36;
 	}
-yy162:
-	yyaccept = 2;
+yy167:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy238;
-		default: goto yy35;
+		case 'L': goto yy243;
+		default: goto yy36;
 	}
-yy163:
-	yyaccept = 2;
+yy168:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy239;
-		default: goto yy35;
+		case 'R': goto yy244;
+		default: goto yy36;
 	}
-yy164:
-	yyaccept = 2;
+yy169:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy240;
-		default: goto yy35;
+		case 'I': goto yy245;
+		default: goto yy36;
 	}
-yy165:
-	yyaccept = 2;
+yy170:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy241;
-		default: goto yy35;
+		case 'S': goto yy246;
+		default: goto yy36;
 	}
-yy166:
-	yyaccept = 2;
+yy171:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'P': goto yy242;
-		default: goto yy35;
+		case 'P': goto yy247;
+		default: goto yy36;
 	}
-yy167:
-	yyaccept = 2;
+yy172:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy243;
-		case 'T': goto yy244;
-		default: goto yy35;
+		case 'S': goto yy248;
+		case 'T': goto yy249;
+		default: goto yy36;
 	}
-yy168:
-	yyaccept = 2;
+yy173:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy245;
-		default: goto yy35;
+		case 'E': goto yy250;
+		default: goto yy36;
 	}
-yy169:
-	yyaccept = 2;
+yy174:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy247;
-		case 'I': goto yy248;
-		default: goto yy35;
+		case 'A': goto yy252;
+		case 'I': goto yy253;
+		default: goto yy36;
 	}
-yy170:
-	yyaccept = 2;
+yy175:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy249;
-		default: goto yy35;
+		case 'A': goto yy254;
+		default: goto yy36;
 	}
-yy171:
-	yyaccept = 2;
+yy176:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy250;
-		default: goto yy35;
+		case 'E': goto yy255;
+		default: goto yy36;
 	}
-yy172:
-	yyaccept = 2;
+yy177:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy251;
-		default: goto yy35;
+		case 'O': goto yy256;
+		default: goto yy36;
 	}
-yy173:
-	yyaccept = 11;
+yy178:
+	yyaccept = 15;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -14275,123 +14308,123 @@ yy173:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy174;
+		case 'z': goto yy35;
+		default: goto yy179;
 	}
-yy174:
+yy179:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_END (context_.location); }
-yy175:
-	yyaccept = 2;
+yy180:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'M': goto yy252;
-		default: goto yy35;
+		case 'M': goto yy257;
+		default: goto yy36;
 	}
-yy176:
-	yyaccept = 2;
+yy181:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy253;
-		default: goto yy35;
+		case 'E': goto yy258;
+		default: goto yy36;
 	}
-yy177:
-	yyaccept = 2;
+yy182:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy254;
-		case 'O': goto yy255;
-		default: goto yy35;
+		case 'L': goto yy259;
+		case 'O': goto yy260;
+		default: goto yy36;
 	}
-yy178:
-	yyaccept = 2;
+yy183:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy256;
-		default: goto yy35;
+		case 'E': goto yy261;
+		default: goto yy36;
 	}
-yy179:
-	yyaccept = 2;
+yy184:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy257;
-		default: goto yy35;
+		case 'S': goto yy262;
+		default: goto yy36;
 	}
-yy180:
-	yyaccept = 2;
+yy185:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'M': goto yy258;
-		default: goto yy35;
+		case 'M': goto yy263;
+		default: goto yy36;
 	}
-yy181:
-	yyaccept = 2;
+yy186:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy260;
-		default: goto yy35;
+		case 'e': goto yy265;
+		default: goto yy36;
 	}
-yy182:
-	yyaccept = 2;
+yy187:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'p': goto yy261;
-		default: goto yy35;
+		case 'p': goto yy266;
+		default: goto yy36;
 	}
-yy183:
-	yyaccept = 2;
+yy188:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy262;
-		default: goto yy35;
+		case 'S': goto yy267;
+		default: goto yy36;
 	}
-yy184:
-	yyaccept = 2;
+yy189:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy263;
-		default: goto yy35;
+		case 'N': goto yy268;
+		default: goto yy36;
 	}
-yy185:
-	yyaccept = 2;
+yy190:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy264;
-		case 'O': goto yy265;
-		default: goto yy35;
+		case 'L': goto yy269;
+		case 'O': goto yy270;
+		default: goto yy36;
 	}
-yy186:
-	yyaccept = 2;
+yy191:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy266;
-		default: goto yy35;
+		case 'L': goto yy271;
+		default: goto yy36;
 	}
-yy187:
-	yyaccept = 2;
+yy192:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy267;
-		default: goto yy35;
+		case 'T': goto yy272;
+		default: goto yy36;
 	}
-yy188:
-	yyaccept = 2;
+yy193:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy268;
-		default: goto yy35;
+		case 'E': goto yy273;
+		default: goto yy36;
 	}
-yy189:
-	yyaccept = 2;
+yy194:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '6': goto yy269;
-		default: goto yy35;
+		case '6': goto yy274;
+		default: goto yy36;
 	}
-yy190:
-	yyaccept = 12;
+yy195:
+	yyaccept = 16;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -14454,16 +14487,16 @@ yy190:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy191;
+		case 'z': goto yy35;
+		default: goto yy196;
 	}
-yy191:
+yy196:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_MAX (context_.location); }
-yy192:
-	yyaccept = 13;
+yy197:
+	yyaccept = 17;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -14525,80 +14558,80 @@ yy192:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		case 'U': goto yy270;
-		default: goto yy193;
+		case 'z': goto yy35;
+		case 'U': goto yy275;
+		default: goto yy198;
 	}
-yy193:
+yy198:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_MIN (context_.location); }
-yy194:
-	yyaccept = 2;
+yy199:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy271;
-		default: goto yy35;
+		case '-': goto yy276;
+		default: goto yy36;
 	}
-yy195:
-	yyaccept = 2;
+yy200:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy272;
-		default: goto yy35;
+		case 'L': goto yy277;
+		default: goto yy36;
 	}
-yy196:
-	yyaccept = 2;
+yy201:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy274;
-		default: goto yy35;
+		case 'e': goto yy279;
+		default: goto yy36;
 	}
-yy197:
-	yyaccept = 2;
+yy202:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy275;
-		default: goto yy35;
+		case 'E': goto yy280;
+		default: goto yy36;
 	}
-yy198:
-	yyaccept = 2;
+yy203:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy276;
-		default: goto yy35;
+		case 'E': goto yy281;
+		default: goto yy36;
 	}
-yy199:
-	yyaccept = 2;
+yy204:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '_': goto yy277;
-		default: goto yy35;
+		case '_': goto yy282;
+		default: goto yy36;
 	}
-yy200:
-	yyaccept = 2;
+yy205:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy278;
-		default: goto yy35;
+		case 'I': goto yy283;
+		default: goto yy36;
 	}
-yy201:
-	yyaccept = 2;
+yy206:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy279;
-		default: goto yy35;
+		case 'e': goto yy284;
+		default: goto yy36;
 	}
-yy202:
-	yyaccept = 2;
+yy207:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy280;
-		default: goto yy35;
+		case 'T': goto yy285;
+		default: goto yy36;
 	}
-yy203:
-	yyaccept = 14;
+yy208:
+	yyaccept = 18;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -14661,65 +14694,65 @@ yy203:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy204;
+		case 'z': goto yy35;
+		default: goto yy209;
 	}
-yy204:
+yy209:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PDV (context_.location); }
-yy205:
-	yyaccept = 2;
+yy210:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy281;
-		default: goto yy35;
+		case 'S': goto yy286;
+		default: goto yy36;
 	}
-yy206:
-	yyaccept = 2;
+yy211:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy282;
-		default: goto yy35;
+		case 'S': goto yy287;
+		default: goto yy36;
 	}
-yy207:
-	yyaccept = 2;
+yy212:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'V': goto yy283;
-		default: goto yy35;
+		case 'V': goto yy288;
+		default: goto yy36;
 	}
-yy208:
-	yyaccept = 2;
+yy213:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy284;
-		default: goto yy35;
+		case 'n': goto yy289;
+		default: goto yy36;
 	}
-yy209:
-	yyaccept = 2;
+yy214:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy285;
-		default: goto yy35;
+		case 'L': goto yy290;
+		default: goto yy36;
 	}
-yy210:
-	yyaccept = 2;
+yy215:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy287;
-		default: goto yy35;
+		case 'A': goto yy292;
+		default: goto yy36;
 	}
-yy211:
-	yyaccept = 2;
+yy216:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'U': goto yy288;
-		default: goto yy35;
+		case 'U': goto yy293;
+		default: goto yy36;
 	}
-yy212:
-	yyaccept = 15;
+yy217:
+	yyaccept = 19;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -14781,228 +14814,228 @@ yy212:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		case 'T': goto yy289;
-		default: goto yy213;
-	}
-yy213:
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SET (context_.location); }
-yy214:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'E': goto yy290;
-		default: goto yy35;
-	}
-yy215:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'I': goto yy292;
-		default: goto yy35;
-	}
-yy216:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'T': goto yy293;
-		default: goto yy35;
-	}
-yy217:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'S': goto yy294;
-		default: goto yy35;
+		case 'z': goto yy35;
+		case 'T': goto yy294;
+		default: goto yy218;
 	}
 yy218:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'S': goto yy295;
-		default: goto yy35;
-	}
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SET (context_.location); }
 yy219:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy297;
-		default: goto yy35;
+		case 'E': goto yy295;
+		default: goto yy36;
 	}
 yy220:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy299;
-		default: goto yy35;
+		case 'I': goto yy297;
+		default: goto yy36;
 	}
 yy221:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy301;
-		default: goto yy35;
+		case 'T': goto yy298;
+		default: goto yy36;
 	}
 yy222:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy302;
-		default: goto yy35;
+		case 'S': goto yy299;
+		default: goto yy36;
 	}
 yy223:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy303;
-		case 'Q': goto yy304;
-		case 'V': goto yy305;
-		default: goto yy35;
+		case 'S': goto yy300;
+		default: goto yy36;
 	}
 yy224:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy306;
-		default: goto yy35;
+		case 'E': goto yy302;
+		default: goto yy36;
 	}
 yy225:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '8': goto yy307;
-		default: goto yy35;
+		case 'E': goto yy304;
+		default: goto yy36;
 	}
 yy226:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'v': goto yy308;
-		default: goto yy35;
+		case 'E': goto yy306;
+		default: goto yy36;
 	}
 yy227:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy309;
-		default: goto yy35;
+		case 'e': goto yy307;
+		default: goto yy36;
 	}
 yy228:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy310;
-		default: goto yy35;
+		case 'O': goto yy308;
+		case 'Q': goto yy309;
+		case 'V': goto yy310;
+		default: goto yy36;
 	}
 yy229:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'H': goto yy311;
-		default: goto yy35;
+		case 'T': goto yy311;
+		default: goto yy36;
 	}
 yy230:
-	++context_.cursor;
-	{ context_.location.columns(context_.cursor - start); return yylex(context_); }
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case '8': goto yy312;
+		default: goto yy36;
+	}
 yy231:
-	++context_.cursor;
-	{ for (char c: std::string(start, context_.cursor)) { context_.location.columns(); if (c == '\n') context_.location.lines(); } return yylex(context_); }
-yy232:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy313;
-		default: goto yy35;
+		case 'v': goto yy313;
+		default: goto yy36;
 	}
-yy233:
-	yyaccept = 2;
+yy232:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy314;
-		default: goto yy35;
+		case 'e': goto yy314;
+		default: goto yy36;
 	}
-yy234:
-	yyaccept = 2;
+yy233:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy315;
-		default: goto yy35;
+		case 'i': goto yy315;
+		default: goto yy36;
 	}
-yy235:
-	yyaccept = 2;
+yy234:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'M': goto yy316;
-		default: goto yy35;
+		case 'H': goto yy316;
+		default: goto yy36;
 	}
+yy235:
+	++context_.cursor;
+	{ context_.location.columns(context_.cursor - start); continue; }
 yy236:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'N': goto yy317;
-		default: goto yy35;
-	}
+	++context_.cursor;
+	{ for (char c: std::string(start, context_.cursor)) { context_.location.columns(); if (c == '\n') context_.location.lines(); } continue; }
 yy237:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy319;
-		default: goto yy35;
+		case 'N': goto yy318;
+		default: goto yy36;
 	}
 yy238:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy320;
-		default: goto yy35;
+		case 'R': goto yy319;
+		default: goto yy36;
 	}
 yy239:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy321;
-		default: goto yy35;
+		case 'I': goto yy320;
+		default: goto yy36;
 	}
 yy240:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy322;
-		default: goto yy35;
+		case 'M': goto yy321;
+		default: goto yy36;
 	}
 yy241:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy323;
-		default: goto yy35;
+		case 'N': goto yy322;
+		default: goto yy36;
 	}
 yy242:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy325;
-		default: goto yy35;
+		case 't': goto yy324;
+		default: goto yy36;
 	}
 yy243:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy326;
-		default: goto yy35;
+		case 'E': goto yy325;
+		default: goto yy36;
 	}
 yy244:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy327;
-		default: goto yy35;
+		case 'A': goto yy326;
+		default: goto yy36;
 	}
 yy245:
-	yyaccept = 16;
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'C': goto yy327;
+		default: goto yy36;
+	}
+yy246:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'S': goto yy328;
+		default: goto yy36;
+	}
+yy247:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'O': goto yy330;
+		default: goto yy36;
+	}
+yy248:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'T': goto yy331;
+		default: goto yy36;
+	}
+yy249:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'A': goto yy332;
+		default: goto yy36;
+	}
+yy250:
+	yyaccept = 20;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy328;
+		case '-': goto yy333;
 		case '0':
 		case '1':
 		case '2':
@@ -15065,94 +15098,94 @@ yy245:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy246;
+		case 'z': goto yy35;
+		default: goto yy251;
 	}
-yy246:
+yy251:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DATE (context_.location); }
-yy247:
-	yyaccept = 2;
+yy252:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'U': goto yy329;
-		default: goto yy35;
+		case 'U': goto yy334;
+		default: goto yy36;
 	}
-yy248:
-	yyaccept = 2;
+yy253:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy330;
-		default: goto yy35;
+		case 'N': goto yy335;
+		default: goto yy36;
 	}
-yy249:
-	yyaccept = 2;
+yy254:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy331;
-		default: goto yy35;
+		case 'T': goto yy336;
+		default: goto yy36;
 	}
-yy250:
-	yyaccept = 2;
+yy255:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'D': goto yy332;
-		default: goto yy35;
+		case 'D': goto yy337;
+		default: goto yy36;
 	}
-yy251:
-	yyaccept = 2;
+yy256:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'D': goto yy333;
-		default: goto yy35;
+		case 'D': goto yy338;
+		default: goto yy36;
 	}
-yy252:
-	yyaccept = 2;
+yy257:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy334;
-		default: goto yy35;
+		case 'E': goto yy339;
+		default: goto yy36;
 	}
-yy253:
-	yyaccept = 2;
+yy258:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'P': goto yy335;
-		default: goto yy35;
+		case 'P': goto yy340;
+		default: goto yy36;
 	}
-yy254:
-	yyaccept = 2;
+yy259:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy336;
-		default: goto yy35;
+		case 'I': goto yy341;
+		default: goto yy36;
 	}
-yy255:
-	yyaccept = 2;
+yy260:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy337;
-		default: goto yy35;
+		case 'R': goto yy342;
+		default: goto yy36;
 	}
-yy256:
-	yyaccept = 2;
+yy261:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy338;
-		case 'R': goto yy339;
-		default: goto yy35;
+		case 'N': goto yy343;
+		case 'R': goto yy344;
+		default: goto yy36;
 	}
-yy257:
-	yyaccept = 2;
+yy262:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy340;
-		default: goto yy35;
+		case 'E': goto yy345;
+		default: goto yy36;
 	}
-yy258:
-	yyaccept = 17;
+yy263:
+	yyaccept = 21;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -15215,91 +15248,91 @@ yy258:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy259;
+		case 'z': goto yy35;
+		default: goto yy264;
 	}
-yy259:
+yy264:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_FROM (context_.location); }
-yy260:
-	yyaccept = 2;
+yy265:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy342;
-		default: goto yy35;
+		case 'r': goto yy347;
+		default: goto yy36;
 	}
-yy261:
-	yyaccept = 2;
+yy266:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'h': goto yy343;
-		default: goto yy35;
+		case 'h': goto yy348;
+		default: goto yy36;
 	}
-yy262:
-	yyaccept = 2;
+yy267:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy344;
-		default: goto yy35;
+		case 't': goto yy349;
+		default: goto yy36;
 	}
-yy263:
-	yyaccept = 2;
+yy268:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy345;
-		default: goto yy35;
+		case 'T': goto yy350;
+		default: goto yy36;
 	}
-yy264:
-	yyaccept = 2;
+yy269:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy346;
-		default: goto yy35;
+		case 'I': goto yy351;
+		default: goto yy36;
 	}
-yy265:
-	yyaccept = 2;
+yy270:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy347;
-		default: goto yy35;
+		case 'R': goto yy352;
+		default: goto yy36;
 	}
-yy266:
-	yyaccept = 2;
+yy271:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'U': goto yy348;
-		default: goto yy35;
+		case 'U': goto yy353;
+		default: goto yy36;
 	}
-yy267:
-	yyaccept = 2;
+yy272:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy349;
-		case 'R': goto yy350;
-		default: goto yy35;
+		case 'A': goto yy354;
+		case 'R': goto yy355;
+		default: goto yy36;
 	}
-yy268:
-	yyaccept = 2;
+yy273:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'G': goto yy351;
-		case 'R': goto yy352;
-		default: goto yy35;
+		case 'G': goto yy356;
+		case 'R': goto yy357;
+		default: goto yy36;
 	}
-yy269:
-	yyaccept = 2;
+yy274:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '4': goto yy353;
-		default: goto yy35;
+		case '4': goto yy358;
+		default: goto yy36;
 	}
-yy270:
-	yyaccept = 2;
+yy275:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy354;
-		default: goto yy35;
+		case 'S': goto yy359;
+		default: goto yy36;
 	}
-yy271:
+yy276:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -15363,15 +15396,15 @@ yy271:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		case 'A': goto yy355;
-		default: goto yy73;
+		case 'z': goto yy35;
+		case 'A': goto yy360;
+		default: goto yy58;
 	}
-yy272:
-	yyaccept = 18;
+yy277:
+	yyaccept = 22;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -15434,93 +15467,93 @@ yy272:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy273;
+		case 'z': goto yy35;
+		default: goto yy278;
 	}
-yy273:
+yy278:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ASN_NULL (context_.location); }
-yy274:
-	yyaccept = 2;
+yy279:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy356;
-		default: goto yy35;
+		case 'r': goto yy361;
+		default: goto yy36;
 	}
-yy275:
-	yyaccept = 2;
+yy280:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy357;
-		default: goto yy35;
+		case 'C': goto yy362;
+		default: goto yy36;
 	}
-yy276:
-	yyaccept = 2;
+yy281:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy358;
-		default: goto yy35;
+		case 'T': goto yy363;
+		default: goto yy36;
 	}
-yy277:
-	yyaccept = 2;
+yy282:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy360;
-		default: goto yy35;
+		case 'I': goto yy365;
+		default: goto yy36;
 	}
-yy278:
-	yyaccept = 2;
+yy283:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy361;
-		default: goto yy35;
+		case 'O': goto yy366;
+		default: goto yy36;
 	}
-yy279:
-	yyaccept = 2;
+yy284:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'c': goto yy362;
-		default: goto yy35;
+		case 'c': goto yy367;
+		default: goto yy36;
 	}
-yy280:
-	yyaccept = 2;
+yy285:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy363;
-		default: goto yy35;
+		case 'E': goto yy368;
+		default: goto yy36;
 	}
-yy281:
-	yyaccept = 2;
+yy286:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '_': goto yy364;
-		default: goto yy35;
+		case '_': goto yy369;
+		default: goto yy36;
 	}
-yy282:
-	yyaccept = 2;
+yy287:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy365;
-		default: goto yy35;
+		case 'E': goto yy370;
+		default: goto yy36;
 	}
-yy283:
-	yyaccept = 2;
+yy288:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy366;
-		default: goto yy35;
+		case 'A': goto yy371;
+		default: goto yy36;
 	}
-yy284:
-	yyaccept = 2;
+yy289:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy367;
-		default: goto yy35;
+		case 't': goto yy372;
+		default: goto yy36;
 	}
-yy285:
-	yyaccept = 19;
+yy290:
+	yyaccept = 23;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -15583,37 +15616,37 @@ yy285:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy286;
+		case 'z': goto yy35;
+		default: goto yy291;
 	}
-yy286:
+yy291:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_REAL (context_.location); }
-yy287:
-	yyaccept = 2;
+yy292:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy368;
-		default: goto yy35;
+		case 'T': goto yy373;
+		default: goto yy36;
 	}
-yy288:
-	yyaccept = 2;
+yy293:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy369;
-		default: goto yy35;
+		case 'E': goto yy374;
+		default: goto yy36;
 	}
-yy289:
-	yyaccept = 2;
+yy294:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy370;
-		default: goto yy35;
+		case 'I': goto yy375;
+		default: goto yy36;
 	}
-yy290:
-	yyaccept = 20;
+yy295:
+	yyaccept = 24;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -15676,37 +15709,37 @@ yy290:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy291;
+		case 'z': goto yy35;
+		default: goto yy296;
 	}
-yy291:
+yy296:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SIZE (context_.location); }
-yy292:
-	yyaccept = 2;
+yy297:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy371;
-		default: goto yy35;
+		case 'N': goto yy376;
+		default: goto yy36;
 	}
-yy293:
-	yyaccept = 2;
+yy298:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy372;
-		default: goto yy35;
+		case 'A': goto yy377;
+		default: goto yy36;
 	}
-yy294:
-	yyaccept = 2;
+yy299:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy373;
-		default: goto yy35;
+		case 't': goto yy378;
+		default: goto yy36;
 	}
-yy295:
-	yyaccept = 21;
+yy300:
+	yyaccept = 25;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -15769,16 +15802,16 @@ yy295:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy296;
+		case 'z': goto yy35;
+		default: goto yy301;
 	}
-yy296:
+yy301:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TAGS (context_.location); }
-yy297:
-	yyaccept = 22;
+yy302:
+	yyaccept = 26;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy374;
+		case '-': goto yy379;
 		case '0':
 		case '1':
 		case '2':
@@ -15841,16 +15874,16 @@ yy297:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy298;
+		case 'z': goto yy35;
+		default: goto yy303;
 	}
-yy298:
+yy303:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TIME (context_.location); }
-yy299:
-	yyaccept = 23;
+yy304:
+	yyaccept = 27;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -15913,86 +15946,86 @@ yy299:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy300;
+		case 'z': goto yy35;
+		default: goto yy305;
 	}
-yy300:
+yy305:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TRUE (context_.location); }
-yy301:
-	yyaccept = 2;
+yy306:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy375;
-		default: goto yy35;
+		case '-': goto yy380;
+		default: goto yy36;
 	}
-yy302:
-	yyaccept = 2;
+yy307:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy376;
-		default: goto yy35;
+		case 't': goto yy381;
+		default: goto yy36;
 	}
-yy303:
-	yyaccept = 2;
+yy308:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy377;
-		default: goto yy35;
+		case 'N': goto yy382;
+		default: goto yy36;
 	}
-yy304:
-	yyaccept = 2;
+yy309:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'U': goto yy379;
-		default: goto yy35;
+		case 'U': goto yy384;
+		default: goto yy36;
 	}
-yy305:
-	yyaccept = 2;
+yy310:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy380;
-		default: goto yy35;
+		case 'E': goto yy385;
+		default: goto yy36;
 	}
-yy306:
-	yyaccept = 2;
+yy311:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy381;
-		default: goto yy35;
+		case 'i': goto yy386;
+		default: goto yy36;
 	}
-yy307:
-	yyaccept = 2;
+yy312:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy382;
-		default: goto yy35;
+		case 'S': goto yy387;
+		default: goto yy36;
 	}
-yy308:
-	yyaccept = 2;
+yy313:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy383;
-		default: goto yy35;
+		case 'e': goto yy388;
+		default: goto yy36;
 	}
-yy309:
-	yyaccept = 2;
+yy314:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'o': goto yy384;
-		default: goto yy35;
+		case 'o': goto yy389;
+		default: goto yy36;
 	}
-yy310:
-	yyaccept = 2;
+yy315:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'b': goto yy385;
-		default: goto yy35;
+		case 'b': goto yy390;
+		default: goto yy36;
 	}
-yy311:
-	yyaccept = 24;
+yy316:
+	yyaccept = 28;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -16055,44 +16088,44 @@ yy311:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy312;
+		case 'z': goto yy35;
+		default: goto yy317;
 	}
-yy312:
+yy317:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_WITH (context_.location); }
-yy313:
-	yyaccept = 2;
+yy318:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy386;
-		default: goto yy35;
+		case 'T': goto yy391;
+		default: goto yy36;
 	}
-yy314:
-	yyaccept = 2;
+yy319:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy388;
-		default: goto yy35;
+		case 'A': goto yy393;
+		default: goto yy36;
 	}
-yy315:
-	yyaccept = 2;
+yy320:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy389;
-		default: goto yy35;
+		case 'C': goto yy394;
+		default: goto yy36;
 	}
-yy316:
-	yyaccept = 2;
+yy321:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy390;
-		default: goto yy35;
+		case 'A': goto yy395;
+		default: goto yy36;
 	}
-yy317:
-	yyaccept = 25;
+yy322:
+	yyaccept = 29;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -16155,44 +16188,44 @@ yy317:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy318;
+		case 'z': goto yy35;
+		default: goto yy323;
 	}
-yy318:
+yy323:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BEGIN (context_.location); }
-yy319:
-	yyaccept = 2;
+yy324:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy391;
-		default: goto yy35;
+		case 'r': goto yy396;
+		default: goto yy36;
 	}
-yy320:
-	yyaccept = 2;
+yy325:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy392;
-		default: goto yy35;
+		case 'A': goto yy397;
+		default: goto yy36;
 	}
-yy321:
-	yyaccept = 2;
+yy326:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy393;
-		default: goto yy35;
+		case 'C': goto yy398;
+		default: goto yy36;
 	}
-yy322:
-	yyaccept = 2;
+yy327:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy394;
-		default: goto yy35;
+		case 'E': goto yy399;
+		default: goto yy36;
 	}
-yy323:
-	yyaccept = 26;
+yy328:
+	yyaccept = 30;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -16255,33 +16288,33 @@ yy323:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy324;
+		case 'z': goto yy35;
+		default: goto yy329;
 	}
-yy324:
+yy329:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CLASS (context_.location); }
-yy325:
-	yyaccept = 2;
+yy330:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy396;
-		default: goto yy35;
+		case 'N': goto yy401;
+		default: goto yy36;
 	}
-yy326:
-	yyaccept = 2;
+yy331:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy397;
-		default: goto yy35;
+		case 'R': goto yy402;
+		default: goto yy36;
 	}
-yy327:
-	yyaccept = 2;
+yy332:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy398;
-		default: goto yy35;
+		case 'I': goto yy403;
+		default: goto yy36;
 	}
-yy328:
+yy333:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -16345,93 +16378,93 @@ yy328:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		case 'T': goto yy399;
-		default: goto yy73;
+		case 'z': goto yy35;
+		case 'T': goto yy404;
+		default: goto yy58;
 	}
-yy329:
-	yyaccept = 2;
+yy334:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy400;
-		default: goto yy35;
+		case 'L': goto yy405;
+		default: goto yy36;
 	}
-yy330:
-	yyaccept = 2;
+yy335:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy401;
-		default: goto yy35;
+		case 'I': goto yy406;
+		default: goto yy36;
 	}
-yy331:
-	yyaccept = 2;
+yy336:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy402;
-		default: goto yy35;
+		case 'I': goto yy407;
+		default: goto yy36;
 	}
-yy332:
-	yyaccept = 2;
+yy337:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'D': goto yy403;
-		default: goto yy35;
+		case 'D': goto yy408;
+		default: goto yy36;
 	}
-yy333:
-	yyaccept = 2;
+yy338:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy404;
-		case 'I': goto yy405;
-		default: goto yy35;
+		case 'E': goto yy409;
+		case 'I': goto yy410;
+		default: goto yy36;
 	}
-yy334:
-	yyaccept = 2;
+yy339:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy406;
-		default: goto yy35;
+		case 'R': goto yy411;
+		default: goto yy36;
 	}
-yy335:
-	yyaccept = 2;
+yy340:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy407;
-		default: goto yy35;
+		case 'T': goto yy412;
+		default: goto yy36;
 	}
-yy336:
-	yyaccept = 2;
+yy341:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy409;
-		default: goto yy35;
+		case 'C': goto yy414;
+		default: goto yy36;
 	}
-yy337:
-	yyaccept = 2;
+yy342:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy410;
-		default: goto yy35;
+		case 'T': goto yy415;
+		default: goto yy36;
 	}
-yy338:
-	yyaccept = 2;
+yy343:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy411;
-		default: goto yy35;
+		case 'S': goto yy416;
+		default: goto yy36;
 	}
-yy339:
-	yyaccept = 2;
+yy344:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy412;
-		default: goto yy35;
+		case 'N': goto yy417;
+		default: goto yy36;
 	}
-yy340:
-	yyaccept = 27;
+yy345:
+	yyaccept = 31;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -16494,129 +16527,129 @@ yy340:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy341;
+		case 'z': goto yy35;
+		default: goto yy346;
 	}
-yy341:
+yy346:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_FALSE (context_.location); }
-yy342:
-	yyaccept = 2;
+yy347:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'a': goto yy413;
-		default: goto yy35;
+		case 'a': goto yy418;
+		default: goto yy36;
 	}
-yy343:
-	yyaccept = 2;
+yy348:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy414;
-		default: goto yy35;
+		case 'i': goto yy419;
+		default: goto yy36;
 	}
-yy344:
-	yyaccept = 2;
+yy349:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy415;
-		default: goto yy35;
+		case 'r': goto yy420;
+		default: goto yy36;
 	}
-yy345:
-	yyaccept = 2;
+yy350:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy416;
-		default: goto yy35;
+		case 'I': goto yy421;
+		default: goto yy36;
 	}
-yy346:
-	yyaccept = 2;
+yy351:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy417;
-		case 'E': goto yy418;
-		default: goto yy35;
+		case 'C': goto yy422;
+		case 'E': goto yy423;
+		default: goto yy36;
 	}
-yy347:
-	yyaccept = 2;
+yy352:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy419;
-		default: goto yy35;
+		case 'T': goto yy424;
+		default: goto yy36;
 	}
-yy348:
-	yyaccept = 2;
+yy353:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'D': goto yy420;
-		default: goto yy35;
+		case 'D': goto yy425;
+		default: goto yy36;
 	}
-yy349:
-	yyaccept = 2;
+yy354:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy421;
-		default: goto yy35;
+		case 'N': goto yy426;
+		default: goto yy36;
 	}
-yy350:
-	yyaccept = 2;
+yy355:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'U': goto yy422;
-		default: goto yy35;
+		case 'U': goto yy427;
+		default: goto yy36;
 	}
-yy351:
-	yyaccept = 2;
+yy356:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy423;
-		default: goto yy35;
+		case 'E': goto yy428;
+		default: goto yy36;
 	}
-yy352:
-	yyaccept = 2;
+yy357:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy424;
-		default: goto yy35;
+		case 'S': goto yy429;
+		default: goto yy36;
 	}
-yy353:
-	yyaccept = 2;
+yy358:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '6': goto yy425;
-		default: goto yy35;
+		case '6': goto yy430;
+		default: goto yy36;
 	}
-yy354:
-	yyaccept = 2;
+yy359:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy426;
-		default: goto yy35;
+		case '-': goto yy431;
+		default: goto yy36;
 	}
-yy355:
-	yyaccept = 2;
+yy360:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy427;
-		default: goto yy35;
+		case '-': goto yy432;
+		default: goto yy36;
 	}
-yy356:
-	yyaccept = 2;
+yy361:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy428;
-		default: goto yy35;
+		case 'i': goto yy433;
+		default: goto yy36;
 	}
-yy357:
-	yyaccept = 2;
+yy362:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy429;
-		default: goto yy35;
+		case 'T': goto yy434;
+		default: goto yy36;
 	}
-yy358:
-	yyaccept = 28;
+yy363:
+	yyaccept = 32;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -16679,110 +16712,110 @@ yy358:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy359;
-	}
-yy359:
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OCTET (context_.location); }
-yy360:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'R': goto yy431;
-		default: goto yy35;
-	}
-yy361:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'N': goto yy432;
-		default: goto yy35;
-	}
-yy362:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 't': goto yy433;
-		default: goto yy35;
-	}
-yy363:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'R': goto yy434;
-		default: goto yy35;
+		case 'z': goto yy35;
+		default: goto yy364;
 	}
 yy364:
-	yyaccept = 2;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'I': goto yy435;
-		default: goto yy35;
-	}
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OCTET (context_.location); }
 yy365:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy436;
-		default: goto yy35;
+		case 'R': goto yy436;
+		default: goto yy36;
 	}
 yy366:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy437;
-		default: goto yy35;
+		case 'N': goto yy437;
+		default: goto yy36;
 	}
 yy367:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'a': goto yy438;
-		default: goto yy35;
+		case 't': goto yy438;
+		default: goto yy36;
 	}
 yy368:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy439;
-		default: goto yy35;
+		case 'R': goto yy439;
+		default: goto yy36;
 	}
 yy369:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy440;
-		default: goto yy35;
+		case 'I': goto yy440;
+		default: goto yy36;
 	}
 yy370:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
 		case 'N': goto yy441;
-		default: goto yy35;
+		default: goto yy36;
 	}
 yy371:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'G': goto yy442;
-		default: goto yy35;
+		case 'T': goto yy442;
+		default: goto yy36;
 	}
 yy372:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'X': goto yy444;
-		default: goto yy35;
+		case 'a': goto yy443;
+		default: goto yy36;
 	}
 yy373:
-	yyaccept = 2;
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy446;
-		default: goto yy35;
+		case 'I': goto yy444;
+		default: goto yy36;
 	}
 yy374:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'N': goto yy445;
+		default: goto yy36;
+	}
+yy375:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'N': goto yy446;
+		default: goto yy36;
+	}
+yy376:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'G': goto yy447;
+		default: goto yy36;
+	}
+yy377:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'X': goto yy449;
+		default: goto yy36;
+	}
+yy378:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'r': goto yy451;
+		default: goto yy36;
+	}
+yy379:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -16846,11 +16879,11 @@ yy374:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		case 'O': goto yy447;
-		default: goto yy73;
+		case 'z': goto yy35;
+		case 'O': goto yy452;
+		default: goto yy58;
 	}
-yy375:
+yy380:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -16914,22 +16947,22 @@ yy375:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		case 'I': goto yy448;
-		default: goto yy73;
+		case 'z': goto yy35;
+		case 'I': goto yy453;
+		default: goto yy58;
 	}
-yy376:
-	yyaccept = 2;
+yy381:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy449;
-		default: goto yy35;
+		case 'e': goto yy454;
+		default: goto yy36;
 	}
-yy377:
-	yyaccept = 29;
+yy382:
+	yyaccept = 33;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -16992,65 +17025,65 @@ yy377:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy378;
+		case 'z': goto yy35;
+		default: goto yy383;
 	}
-yy378:
+yy383:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UNION (context_.location); }
-yy379:
-	yyaccept = 2;
+yy384:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy450;
-		default: goto yy35;
+		case 'E': goto yy455;
+		default: goto yy36;
 	}
-yy380:
-	yyaccept = 2;
+yy385:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy452;
-		default: goto yy35;
+		case 'R': goto yy457;
+		default: goto yy36;
 	}
-yy381:
-	yyaccept = 2;
+yy386:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'm': goto yy453;
-		default: goto yy35;
+		case 'm': goto yy458;
+		default: goto yy36;
 	}
-yy382:
-	yyaccept = 2;
+yy387:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy454;
-		default: goto yy35;
+		case 't': goto yy459;
+		default: goto yy36;
 	}
-yy383:
-	yyaccept = 2;
+yy388:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy455;
-		default: goto yy35;
+		case 'r': goto yy460;
+		default: goto yy36;
 	}
-yy384:
-	yyaccept = 2;
+yy389:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy456;
-		default: goto yy35;
+		case 't': goto yy461;
+		default: goto yy36;
 	}
-yy385:
-	yyaccept = 2;
+yy390:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'l': goto yy457;
-		default: goto yy35;
+		case 'l': goto yy462;
+		default: goto yy36;
 	}
-yy386:
-	yyaccept = 30;
+yy391:
+	yyaccept = 34;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -17113,58 +17146,58 @@ yy386:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy387;
+		case 'z': goto yy35;
+		default: goto yy392;
 	}
-yy387:
+yy392:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ABSENT (context_.location); }
-yy388:
-	yyaccept = 2;
+yy393:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy458;
-		default: goto yy35;
+		case 'C': goto yy463;
+		default: goto yy36;
 	}
-yy389:
-	yyaccept = 2;
+yy394:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy459;
-		default: goto yy35;
+		case 'A': goto yy464;
+		default: goto yy36;
 	}
-yy390:
-	yyaccept = 2;
+yy395:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy460;
-		default: goto yy35;
+		case 'T': goto yy465;
+		default: goto yy36;
 	}
-yy391:
-	yyaccept = 2;
+yy396:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy461;
-		default: goto yy35;
+		case 'i': goto yy466;
+		default: goto yy36;
 	}
-yy392:
-	yyaccept = 2;
+yy397:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy462;
-		default: goto yy35;
+		case 'N': goto yy467;
+		default: goto yy36;
 	}
-yy393:
-	yyaccept = 2;
+yy398:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy464;
-		default: goto yy35;
+		case 'T': goto yy469;
+		default: goto yy36;
 	}
-yy394:
-	yyaccept = 31;
+yy399:
+	yyaccept = 35;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -17227,93 +17260,93 @@ yy394:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy395;
+		case 'z': goto yy35;
+		default: goto yy400;
 	}
-yy395:
+yy400:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CHOICE (context_.location); }
-yy396:
-	yyaccept = 2;
+yy401:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy465;
-		default: goto yy35;
+		case 'E': goto yy470;
+		default: goto yy36;
 	}
-yy397:
-	yyaccept = 2;
+yy402:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy466;
-		default: goto yy35;
+		case 'A': goto yy471;
+		default: goto yy36;
 	}
-yy398:
-	yyaccept = 2;
+yy403:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy467;
-		default: goto yy35;
+		case 'N': goto yy472;
+		default: goto yy36;
 	}
-yy399:
-	yyaccept = 2;
+yy404:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy468;
-		default: goto yy35;
+		case 'I': goto yy473;
+		default: goto yy36;
 	}
-yy400:
-	yyaccept = 2;
+yy405:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy469;
-		default: goto yy35;
+		case 'T': goto yy474;
+		default: goto yy36;
 	}
-yy401:
-	yyaccept = 2;
+yy406:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy471;
-		default: goto yy35;
+		case 'T': goto yy476;
+		default: goto yy36;
 	}
-yy402:
-	yyaccept = 2;
+yy407:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy472;
-		default: goto yy35;
+		case 'O': goto yy477;
+		default: goto yy36;
 	}
-yy403:
-	yyaccept = 2;
+yy408:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy473;
-		default: goto yy35;
+		case 'E': goto yy478;
+		default: goto yy36;
 	}
-yy404:
-	yyaccept = 2;
+yy409:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'D': goto yy474;
-		default: goto yy35;
+		case 'D': goto yy479;
+		default: goto yy36;
 	}
-yy405:
-	yyaccept = 2;
+yy410:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy476;
-		default: goto yy35;
+		case 'N': goto yy481;
+		default: goto yy36;
 	}
-yy406:
-	yyaccept = 2;
+yy411:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy477;
-		default: goto yy35;
+		case 'A': goto yy482;
+		default: goto yy36;
 	}
-yy407:
-	yyaccept = 32;
+yy412:
+	yyaccept = 36;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -17376,131 +17409,131 @@ yy407:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy408;
+		case 'z': goto yy35;
+		default: goto yy413;
 	}
-yy408:
+yy413:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXCEPT (context_.location); }
-yy409:
-	yyaccept = 2;
+yy414:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy478;
-		default: goto yy35;
+		case 'I': goto yy483;
+		default: goto yy36;
 	}
-yy410:
-	yyaccept = 2;
+yy415:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy479;
-		default: goto yy35;
+		case 'S': goto yy484;
+		default: goto yy36;
 	}
-yy411:
-	yyaccept = 2;
+yy416:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy481;
-		default: goto yy35;
+		case 'I': goto yy486;
+		default: goto yy36;
 	}
-yy412:
-	yyaccept = 2;
+yy417:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy482;
-		default: goto yy35;
+		case 'A': goto yy487;
+		default: goto yy36;
 	}
-yy413:
-	yyaccept = 2;
+yy418:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'l': goto yy483;
-		default: goto yy35;
+		case 'l': goto yy488;
+		default: goto yy36;
 	}
-yy414:
-	yyaccept = 2;
+yy419:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'c': goto yy484;
-		default: goto yy35;
+		case 'c': goto yy489;
+		default: goto yy36;
 	}
-yy415:
-	yyaccept = 2;
+yy420:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy485;
-		default: goto yy35;
+		case 'i': goto yy490;
+		default: goto yy36;
 	}
-yy416:
-	yyaccept = 2;
+yy421:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'F': goto yy486;
-		default: goto yy35;
+		case 'F': goto yy491;
+		default: goto yy36;
 	}
-yy417:
-	yyaccept = 2;
+yy422:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy487;
-		default: goto yy35;
+		case 'I': goto yy492;
+		default: goto yy36;
 	}
-yy418:
-	yyaccept = 2;
+yy423:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'D': goto yy488;
-		default: goto yy35;
+		case 'D': goto yy493;
+		default: goto yy36;
 	}
-yy419:
-	yyaccept = 2;
+yy424:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy490;
-		default: goto yy35;
+		case 'S': goto yy495;
+		default: goto yy36;
 	}
-yy420:
-	yyaccept = 2;
+yy425:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy492;
-		default: goto yy35;
+		case 'E': goto yy497;
+		default: goto yy36;
 	}
-yy421:
-	yyaccept = 2;
+yy426:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy493;
-		default: goto yy35;
+		case 'C': goto yy498;
+		default: goto yy36;
 	}
-yy422:
-	yyaccept = 2;
+yy427:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy494;
-		default: goto yy35;
+		case 'C': goto yy499;
+		default: goto yy36;
 	}
-yy423:
-	yyaccept = 2;
+yy428:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy495;
-		default: goto yy35;
+		case 'R': goto yy500;
+		default: goto yy36;
 	}
-yy424:
-	yyaccept = 2;
+yy429:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy497;
-		default: goto yy35;
+		case 'E': goto yy502;
+		default: goto yy36;
 	}
-yy425:
-	yyaccept = 2;
+yy430:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy498;
-		default: goto yy35;
+		case 'S': goto yy503;
+		default: goto yy36;
 	}
-yy426:
+yy431:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -17564,11 +17597,11 @@ yy426:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		case 'I': goto yy499;
-		default: goto yy73;
+		case 'z': goto yy35;
+		case 'I': goto yy504;
+		default: goto yy58;
 	}
-yy427:
+yy432:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -17632,22 +17665,22 @@ yy427:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		case 'N': goto yy500;
-		default: goto yy73;
+		case 'z': goto yy35;
+		case 'N': goto yy505;
+		default: goto yy58;
 	}
-yy428:
-	yyaccept = 2;
+yy433:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'c': goto yy501;
-		default: goto yy35;
+		case 'c': goto yy506;
+		default: goto yy36;
 	}
-yy429:
-	yyaccept = 33;
+yy434:
+	yyaccept = 37;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -17710,93 +17743,93 @@ yy429:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy430;
+		case 'z': goto yy35;
+		default: goto yy435;
 	}
-yy430:
+yy435:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OBJECT (context_.location); }
-yy431:
-	yyaccept = 2;
+yy436:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy502;
-		default: goto yy35;
+		case 'I': goto yy507;
+		default: goto yy36;
 	}
-yy432:
-	yyaccept = 2;
+yy437:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy504;
-		default: goto yy35;
+		case 'A': goto yy509;
+		default: goto yy36;
 	}
-yy433:
-	yyaccept = 2;
+yy438:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'D': goto yy505;
-		default: goto yy35;
+		case 'D': goto yy510;
+		default: goto yy36;
 	}
-yy434:
-	yyaccept = 2;
+yy439:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy506;
-		default: goto yy35;
+		case 'N': goto yy511;
+		default: goto yy36;
 	}
-yy435:
-	yyaccept = 2;
+yy440:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy508;
-		default: goto yy35;
+		case 'N': goto yy513;
+		default: goto yy36;
 	}
-yy436:
-	yyaccept = 2;
+yy441:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy509;
-		default: goto yy35;
+		case 'T': goto yy514;
+		default: goto yy36;
 	}
-yy437:
-	yyaccept = 2;
+yy442:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy511;
-		default: goto yy35;
+		case 'E': goto yy516;
+		default: goto yy36;
 	}
-yy438:
-	yyaccept = 2;
+yy443:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'b': goto yy513;
-		default: goto yy35;
+		case 'b': goto yy518;
+		default: goto yy36;
 	}
-yy439:
-	yyaccept = 2;
+yy444:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'V': goto yy514;
-		default: goto yy35;
+		case 'V': goto yy519;
+		default: goto yy36;
 	}
-yy440:
-	yyaccept = 2;
+yy445:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy515;
-		default: goto yy35;
+		case 'C': goto yy520;
+		default: goto yy36;
 	}
-yy441:
-	yyaccept = 2;
+yy446:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'G': goto yy516;
-		default: goto yy35;
+		case 'G': goto yy521;
+		default: goto yy36;
 	}
-yy442:
-	yyaccept = 34;
+yy447:
+	yyaccept = 38;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -17859,16 +17892,16 @@ yy442:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy443;
+		case 'z': goto yy35;
+		default: goto yy448;
 	}
-yy443:
+yy448:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_STRING (context_.location); }
-yy444:
-	yyaccept = 35;
+yy449:
+	yyaccept = 39;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -17931,44 +17964,44 @@ yy444:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy445;
+		case 'z': goto yy35;
+		default: goto yy450;
 	}
-yy445:
+yy450:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SYNTAX (context_.location); }
-yy446:
-	yyaccept = 2;
+yy451:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy517;
-		default: goto yy35;
+		case 'i': goto yy522;
+		default: goto yy36;
 	}
-yy447:
-	yyaccept = 2;
+yy452:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'F': goto yy518;
-		default: goto yy35;
+		case 'F': goto yy523;
+		default: goto yy36;
 	}
-yy448:
-	yyaccept = 2;
+yy453:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'D': goto yy519;
-		default: goto yy35;
+		case 'D': goto yy524;
+		default: goto yy36;
 	}
-yy449:
-	yyaccept = 2;
+yy454:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'x': goto yy520;
-		default: goto yy35;
+		case 'x': goto yy525;
+		default: goto yy36;
 	}
-yy450:
-	yyaccept = 36;
+yy455:
+	yyaccept = 40;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -18031,86 +18064,86 @@ yy450:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy451;
+		case 'z': goto yy35;
+		default: goto yy456;
 	}
-yy451:
+yy456:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UNIQUE (context_.location); }
-yy452:
-	yyaccept = 2;
+yy457:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy521;
-		default: goto yy35;
+		case 'S': goto yy526;
+		default: goto yy36;
 	}
-yy453:
-	yyaccept = 2;
+yy458:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy522;
-		default: goto yy35;
+		case 'e': goto yy527;
+		default: goto yy36;
 	}
-yy454:
-	yyaccept = 2;
+yy459:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy524;
-		default: goto yy35;
+		case 'r': goto yy529;
+		default: goto yy36;
 	}
-yy455:
-	yyaccept = 2;
+yy460:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 's': goto yy525;
-		default: goto yy35;
+		case 's': goto yy530;
+		default: goto yy36;
 	}
-yy456:
-	yyaccept = 2;
+yy461:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy526;
-		default: goto yy35;
+		case 'e': goto yy531;
+		default: goto yy36;
 	}
-yy457:
-	yyaccept = 2;
+yy462:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy527;
-		default: goto yy35;
+		case 'e': goto yy532;
+		default: goto yy36;
 	}
-yy458:
-	yyaccept = 2;
+yy463:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy528;
-		default: goto yy35;
+		case 'T': goto yy533;
+		default: goto yy36;
 	}
-yy459:
-	yyaccept = 2;
+yy464:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy529;
-		default: goto yy35;
+		case 'T': goto yy534;
+		default: goto yy36;
 	}
-yy460:
-	yyaccept = 2;
+yy465:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy530;
-		default: goto yy35;
+		case 'I': goto yy535;
+		default: goto yy36;
 	}
-yy461:
-	yyaccept = 2;
+yy466:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy531;
-		default: goto yy35;
+		case 'n': goto yy536;
+		default: goto yy36;
 	}
-yy462:
-	yyaccept = 37;
+yy467:
+	yyaccept = 41;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -18173,51 +18206,51 @@ yy462:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy463;
+		case 'z': goto yy35;
+		default: goto yy468;
 	}
-yy463:
+yy468:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BOOLEAN (context_.location); }
-yy464:
-	yyaccept = 2;
+yy469:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy532;
-		default: goto yy35;
+		case 'E': goto yy537;
+		default: goto yy36;
 	}
-yy465:
-	yyaccept = 2;
+yy470:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy533;
-		default: goto yy35;
+		case 'N': goto yy538;
+		default: goto yy36;
 	}
-yy466:
-	yyaccept = 2;
+yy471:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy534;
-		default: goto yy35;
+		case 'I': goto yy539;
+		default: goto yy36;
 	}
-yy467:
-	yyaccept = 2;
+yy472:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy535;
-		default: goto yy35;
+		case 'I': goto yy540;
+		default: goto yy36;
 	}
-yy468:
-	yyaccept = 2;
+yy473:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'M': goto yy536;
-		default: goto yy35;
+		case 'M': goto yy541;
+		default: goto yy36;
 	}
-yy469:
-	yyaccept = 38;
+yy474:
+	yyaccept = 42;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -18280,37 +18313,37 @@ yy469:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy470;
+		case 'z': goto yy35;
+		default: goto yy475;
 	}
-yy470:
+yy475:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DEFAULT (context_.location); }
-yy471:
-	yyaccept = 2;
+yy476:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy537;
-		default: goto yy35;
+		case 'I': goto yy542;
+		default: goto yy36;
 	}
-yy472:
-	yyaccept = 2;
+yy477:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy538;
-		default: goto yy35;
+		case 'N': goto yy543;
+		default: goto yy36;
 	}
-yy473:
-	yyaccept = 2;
+yy478:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'D': goto yy540;
-		default: goto yy35;
+		case 'D': goto yy545;
+		default: goto yy36;
 	}
-yy474:
-	yyaccept = 39;
+yy479:
+	yyaccept = 43;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -18373,37 +18406,37 @@ yy474:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy475;
+		case 'z': goto yy35;
+		default: goto yy480;
 	}
-yy475:
+yy480:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ENCODED (context_.location); }
-yy476:
-	yyaccept = 2;
+yy481:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'G': goto yy542;
-		default: goto yy35;
+		case 'G': goto yy547;
+		default: goto yy36;
 	}
-yy477:
-	yyaccept = 2;
+yy482:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy543;
-		default: goto yy35;
+		case 'T': goto yy548;
+		default: goto yy36;
 	}
-yy478:
-	yyaccept = 2;
+yy483:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy544;
-		default: goto yy35;
+		case 'T': goto yy549;
+		default: goto yy36;
 	}
-yy479:
-	yyaccept = 40;
+yy484:
+	yyaccept = 44;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -18466,66 +18499,66 @@ yy479:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy480;
+		case 'z': goto yy35;
+		default: goto yy485;
 	}
-yy480:
+yy485:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXPORTS (context_.location); }
-yy481:
-	yyaccept = 2;
+yy486:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'B': goto yy546;
-		default: goto yy35;
+		case 'B': goto yy551;
+		default: goto yy36;
 	}
-yy482:
-	yyaccept = 2;
+yy487:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy547;
-		default: goto yy35;
+		case 'L': goto yy552;
+		default: goto yy36;
 	}
-yy483:
-	yyaccept = 2;
+yy488:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy549;
-		case 'i': goto yy550;
-		default: goto yy35;
+		case 'S': goto yy554;
+		case 'i': goto yy555;
+		default: goto yy36;
 	}
-yy484:
-	yyaccept = 2;
+yy489:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy551;
-		default: goto yy35;
+		case 'S': goto yy556;
+		default: goto yy36;
 	}
-yy485:
-	yyaccept = 2;
+yy490:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy552;
-		default: goto yy35;
+		case 'n': goto yy557;
+		default: goto yy36;
 	}
-yy486:
-	yyaccept = 2;
+yy491:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy553;
-		default: goto yy35;
+		case 'I': goto yy558;
+		default: goto yy36;
 	}
-yy487:
-	yyaccept = 2;
+yy492:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy554;
-		default: goto yy35;
+		case 'T': goto yy559;
+		default: goto yy36;
 	}
-yy488:
-	yyaccept = 41;
+yy493:
+	yyaccept = 45;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -18588,16 +18621,16 @@ yy488:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy489;
+		case 'z': goto yy35;
+		default: goto yy494;
 	}
-yy489:
+yy494:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IMPLIED (context_.location); }
-yy490:
-	yyaccept = 42;
+yy495:
+	yyaccept = 46;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -18660,37 +18693,37 @@ yy490:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy491;
+		case 'z': goto yy35;
+		default: goto yy496;
 	}
-yy491:
+yy496:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IMPORTS (context_.location); }
-yy492:
-	yyaccept = 2;
+yy497:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy556;
-		default: goto yy35;
+		case 'S': goto yy561;
+		default: goto yy36;
 	}
-yy493:
-	yyaccept = 2;
+yy498:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy558;
-		default: goto yy35;
+		case 'E': goto yy563;
+		default: goto yy36;
 	}
-yy494:
-	yyaccept = 2;
+yy499:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy560;
-		default: goto yy35;
-	}
-yy495:
-	yyaccept = 43;
+		case 'T': goto yy565;
+		default: goto yy36;
+	}
+yy500:
+	yyaccept = 47;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -18753,51 +18786,51 @@ yy495:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy496;
+		case 'z': goto yy35;
+		default: goto yy501;
 	}
-yy496:
+yy501:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INTEGER (context_.location); }
-yy497:
-	yyaccept = 2;
+yy502:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy561;
-		default: goto yy35;
+		case 'C': goto yy566;
+		default: goto yy36;
 	}
-yy498:
-	yyaccept = 2;
+yy503:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy562;
-		default: goto yy35;
+		case 't': goto yy567;
+		default: goto yy36;
 	}
-yy499:
-	yyaccept = 2;
+yy504:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy563;
-		default: goto yy35;
+		case 'N': goto yy568;
+		default: goto yy36;
 	}
-yy500:
-	yyaccept = 2;
+yy505:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'U': goto yy564;
-		default: goto yy35;
+		case 'U': goto yy569;
+		default: goto yy36;
 	}
-yy501:
-	yyaccept = 2;
+yy506:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy565;
-		default: goto yy35;
+		case 'S': goto yy570;
+		default: goto yy36;
 	}
-yy502:
-	yyaccept = 44;
+yy507:
+	yyaccept = 48;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -18860,30 +18893,30 @@ yy502:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy503;
+		case 'z': goto yy35;
+		default: goto yy508;
 	}
-yy503:
+yy508:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OID_IRI (context_.location); }
-yy504:
-	yyaccept = 2;
+yy509:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy566;
-		default: goto yy35;
+		case 'L': goto yy571;
+		default: goto yy36;
 	}
-yy505:
-	yyaccept = 2;
+yy510:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy568;
-		default: goto yy35;
+		case 'e': goto yy573;
+		default: goto yy36;
 	}
-yy506:
-	yyaccept = 45;
+yy511:
+	yyaccept = 49;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -18946,23 +18979,23 @@ yy506:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy507;
+		case 'z': goto yy35;
+		default: goto yy512;
 	}
-yy507:
+yy512:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PATTERN (context_.location); }
-yy508:
-	yyaccept = 2;
+yy513:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'F': goto yy569;
-		default: goto yy35;
+		case 'F': goto yy574;
+		default: goto yy36;
 	}
-yy509:
-	yyaccept = 46;
+yy514:
+	yyaccept = 50;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -19025,16 +19058,16 @@ yy509:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy510;
+		case 'z': goto yy35;
+		default: goto yy515;
 	}
-yy510:
+yy515:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PRESENT (context_.location); }
-yy511:
-	yyaccept = 47;
+yy516:
+	yyaccept = 51;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -19097,79 +19130,79 @@ yy511:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy512;
+		case 'z': goto yy35;
+		default: goto yy517;
 	}
-yy512:
+yy517:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PRIVATE (context_.location); }
-yy513:
-	yyaccept = 2;
+yy518:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'l': goto yy570;
-		default: goto yy35;
+		case 'l': goto yy575;
+		default: goto yy36;
 	}
-yy514:
-	yyaccept = 2;
+yy519:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy571;
-		default: goto yy35;
+		case 'E': goto yy576;
+		default: goto yy36;
 	}
-yy515:
-	yyaccept = 2;
+yy520:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy572;
-		default: goto yy35;
+		case 'E': goto yy577;
+		default: goto yy36;
 	}
-yy516:
-	yyaccept = 2;
+yy521:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy574;
-		default: goto yy35;
+		case 'S': goto yy579;
+		default: goto yy36;
 	}
-yy517:
-	yyaccept = 2;
+yy522:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy576;
-		default: goto yy35;
+		case 'n': goto yy581;
+		default: goto yy36;
 	}
-yy518:
-	yyaccept = 2;
+yy523:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy577;
-		default: goto yy35;
+		case '-': goto yy582;
+		default: goto yy36;
 	}
-yy519:
-	yyaccept = 2;
+yy524:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy578;
-		default: goto yy35;
+		case 'E': goto yy583;
+		default: goto yy36;
 	}
-yy520:
-	yyaccept = 2;
+yy525:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy579;
-		default: goto yy35;
+		case 'S': goto yy584;
+		default: goto yy36;
 	}
-yy521:
-	yyaccept = 2;
+yy526:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy580;
-		default: goto yy35;
+		case 'A': goto yy585;
+		default: goto yy36;
 	}
-yy522:
-	yyaccept = 48;
+yy527:
+	yyaccept = 52;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -19232,114 +19265,114 @@ yy522:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy523;
+		case 'z': goto yy35;
+		default: goto yy528;
 	}
-yy523:
+yy528:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UTCTime (context_.location); }
-yy524:
-	yyaccept = 2;
+yy529:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy581;
-		default: goto yy35;
+		case 'i': goto yy586;
+		default: goto yy36;
 	}
-yy525:
-	yyaccept = 2;
+yy530:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'a': goto yy582;
-		default: goto yy35;
+		case 'a': goto yy587;
+		default: goto yy36;
 	}
-yy526:
-	yyaccept = 2;
+yy531:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'x': goto yy583;
-		default: goto yy35;
+		case 'x': goto yy588;
+		default: goto yy36;
 	}
-yy527:
-	yyaccept = 2;
+yy532:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy584;
-		default: goto yy35;
+		case 'S': goto yy589;
+		default: goto yy36;
 	}
-yy528:
-	yyaccept = 2;
+yy533:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy585;
-		default: goto yy35;
+		case '-': goto yy590;
+		default: goto yy36;
 	}
-yy529:
-	yyaccept = 2;
+yy534:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy586;
-		default: goto yy35;
+		case 'I': goto yy591;
+		default: goto yy36;
 	}
-yy530:
-	yyaccept = 2;
+yy535:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy587;
-		default: goto yy35;
+		case 'C': goto yy592;
+		default: goto yy36;
 	}
-yy531:
-	yyaccept = 2;
+yy536:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'g': goto yy589;
-		default: goto yy35;
+		case 'g': goto yy594;
+		default: goto yy36;
 	}
-yy532:
-	yyaccept = 2;
+yy537:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy591;
-		default: goto yy35;
+		case 'R': goto yy596;
+		default: goto yy36;
 	}
-yy533:
-	yyaccept = 2;
+yy538:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy593;
-		default: goto yy35;
+		case 'T': goto yy598;
+		default: goto yy36;
 	}
-yy534:
-	yyaccept = 2;
+yy539:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy595;
-		default: goto yy35;
+		case 'N': goto yy600;
+		default: goto yy36;
 	}
-yy535:
-	yyaccept = 2;
+yy540:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy596;
-		default: goto yy35;
+		case 'N': goto yy601;
+		default: goto yy36;
 	}
-yy536:
-	yyaccept = 2;
+yy541:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy597;
-		default: goto yy35;
+		case 'E': goto yy602;
+		default: goto yy36;
 	}
-yy537:
-	yyaccept = 2;
+yy542:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy599;
-		default: goto yy35;
+		case 'O': goto yy604;
+		default: goto yy36;
 	}
-yy538:
-	yyaccept = 49;
+yy543:
+	yyaccept = 53;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -19402,16 +19435,16 @@ yy538:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy539;
+		case 'z': goto yy35;
+		default: goto yy544;
 	}
-yy539:
+yy544:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DURATION (context_.location); }
-yy540:
-	yyaccept = 50;
+yy545:
+	yyaccept = 54;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -19474,30 +19507,30 @@ yy540:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy541;
+		case 'z': goto yy35;
+		default: goto yy546;
 	}
-yy541:
+yy546:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EMBEDDED (context_.location); }
-yy542:
-	yyaccept = 2;
+yy547:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '_': goto yy600;
-		default: goto yy35;
+		case '_': goto yy605;
+		default: goto yy36;
 	}
-yy543:
-	yyaccept = 2;
+yy548:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy601;
-		default: goto yy35;
+		case 'E': goto yy606;
+		default: goto yy36;
 	}
-yy544:
-	yyaccept = 51;
+yy549:
+	yyaccept = 55;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -19560,23 +19593,23 @@ yy544:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy545;
+		case 'z': goto yy35;
+		default: goto yy550;
 	}
-yy545:
+yy550:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXPLICIT (context_.location); }
-yy546:
-	yyaccept = 2;
+yy551:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy602;
-		default: goto yy35;
+		case 'I': goto yy607;
+		default: goto yy36;
 	}
-yy547:
-	yyaccept = 52;
+yy552:
+	yyaccept = 56;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -19639,51 +19672,51 @@ yy547:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy548;
+		case 'z': goto yy35;
+		default: goto yy553;
 	}
-yy548:
+yy553:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXTERNAL (context_.location); }
-yy549:
-	yyaccept = 2;
+yy554:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy603;
-		default: goto yy35;
+		case 't': goto yy608;
+		default: goto yy36;
 	}
-yy550:
-	yyaccept = 2;
+yy555:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'z': goto yy604;
-		default: goto yy35;
+		case 'z': goto yy609;
+		default: goto yy36;
 	}
-yy551:
-	yyaccept = 2;
+yy556:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy605;
-		default: goto yy35;
+		case 't': goto yy610;
+		default: goto yy36;
 	}
-yy552:
-	yyaccept = 2;
+yy557:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'g': goto yy606;
-		default: goto yy35;
+		case 'g': goto yy611;
+		default: goto yy36;
 	}
-yy553:
-	yyaccept = 2;
+yy558:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy608;
-		default: goto yy35;
+		case 'E': goto yy613;
+		default: goto yy36;
 	}
-yy554:
-	yyaccept = 53;
+yy559:
+	yyaccept = 57;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -19746,16 +19779,16 @@ yy554:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy555;
+		case 'z': goto yy35;
+		default: goto yy560;
 	}
-yy555:
+yy560:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IMPLICIT (context_.location); }
-yy556:
-	yyaccept = 54;
+yy561:
+	yyaccept = 58;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -19818,16 +19851,16 @@ yy556:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy557;
+		case 'z': goto yy35;
+		default: goto yy562;
 	}
-yy557:
+yy562:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INCLUDES (context_.location); }
-yy558:
-	yyaccept = 55;
+yy563:
+	yyaccept = 59;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -19890,58 +19923,58 @@ yy558:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy559;
+		case 'z': goto yy35;
+		default: goto yy564;
 	}
-yy559:
+yy564:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INSTANCE (context_.location); }
-yy560:
-	yyaccept = 2;
+yy565:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy609;
-		default: goto yy35;
+		case 'I': goto yy614;
+		default: goto yy36;
 	}
-yy561:
-	yyaccept = 2;
+yy566:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy610;
-		default: goto yy35;
+		case 'T': goto yy615;
+		default: goto yy36;
 	}
-yy562:
-	yyaccept = 2;
+yy567:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy611;
-		default: goto yy35;
+		case 'r': goto yy616;
+		default: goto yy36;
 	}
-yy563:
-	yyaccept = 2;
+yy568:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'F': goto yy612;
-		default: goto yy35;
+		case 'F': goto yy617;
+		default: goto yy36;
 	}
-yy564:
-	yyaccept = 2;
+yy569:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'M': goto yy613;
-		default: goto yy35;
+		case 'M': goto yy618;
+		default: goto yy36;
 	}
-yy565:
-	yyaccept = 2;
+yy570:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy614;
-		default: goto yy35;
+		case 't': goto yy619;
+		default: goto yy36;
 	}
-yy566:
-	yyaccept = 56;
+yy571:
+	yyaccept = 60;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -20004,44 +20037,44 @@ yy566:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy567;
+		case 'z': goto yy35;
+		default: goto yy572;
 	}
-yy567:
+yy572:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OPTIONAL (context_.location); }
-yy568:
-	yyaccept = 2;
+yy573:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 's': goto yy615;
-		default: goto yy35;
+		case 's': goto yy620;
+		default: goto yy36;
 	}
-yy569:
-	yyaccept = 2;
+yy574:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy616;
-		default: goto yy35;
+		case 'I': goto yy621;
+		default: goto yy36;
 	}
-yy570:
-	yyaccept = 2;
+yy575:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy617;
-		default: goto yy35;
+		case 'e': goto yy622;
+		default: goto yy36;
 	}
-yy571:
-	yyaccept = 2;
+yy576:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy618;
-		default: goto yy35;
+		case '-': goto yy623;
+		default: goto yy36;
 	}
-yy572:
-	yyaccept = 57;
+yy577:
+	yyaccept = 61;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -20104,16 +20137,16 @@ yy572:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy573;
+		case 'z': goto yy35;
+		default: goto yy578;
 	}
-yy573:
+yy578:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SEQUENCE (context_.location); }
-yy574:
-	yyaccept = 58;
+yy579:
+	yyaccept = 62;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -20176,19 +20209,19 @@ yy574:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy575;
+		case 'z': goto yy35;
+		default: goto yy580;
 	}
-yy575:
+yy580:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SETTINGS (context_.location); }
-yy576:
-	yyaccept = 2;
+yy581:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'g': goto yy619;
-		default: goto yy35;
+		case 'g': goto yy624;
+		default: goto yy36;
 	}
-yy577:
+yy582:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -20252,60 +20285,60 @@ yy577:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		case 'D': goto yy621;
-		default: goto yy73;
+		case 'z': goto yy35;
+		case 'D': goto yy626;
+		default: goto yy58;
 	}
-yy578:
-	yyaccept = 2;
+yy583:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy622;
-		default: goto yy35;
+		case 'N': goto yy627;
+		default: goto yy36;
 	}
-yy579:
-	yyaccept = 2;
+yy584:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy623;
-		default: goto yy35;
+		case 't': goto yy628;
+		default: goto yy36;
 	}
-yy580:
-	yyaccept = 2;
+yy585:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy624;
-		default: goto yy35;
+		case 'L': goto yy629;
+		default: goto yy36;
 	}
-yy581:
-	yyaccept = 2;
+yy586:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy626;
-		default: goto yy35;
+		case 'n': goto yy631;
+		default: goto yy36;
 	}
-yy582:
-	yyaccept = 2;
+yy587:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'l': goto yy627;
-		default: goto yy35;
+		case 'l': goto yy632;
+		default: goto yy36;
 	}
-yy583:
-	yyaccept = 2;
+yy588:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy628;
-		default: goto yy35;
+		case 'S': goto yy633;
+		default: goto yy36;
 	}
-yy584:
-	yyaccept = 2;
+yy589:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy629;
-		default: goto yy35;
+		case 't': goto yy634;
+		default: goto yy36;
 	}
-yy585:
+yy590:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -20369,22 +20402,22 @@ yy585:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		case 'S': goto yy630;
-		default: goto yy73;
+		case 'z': goto yy35;
+		case 'S': goto yy635;
+		default: goto yy58;
 	}
-yy586:
-	yyaccept = 2;
+yy591:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy631;
-		default: goto yy35;
+		case 'O': goto yy636;
+		default: goto yy36;
 	}
-yy587:
-	yyaccept = 59;
+yy592:
+	yyaccept = 63;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -20447,16 +20480,16 @@ yy587:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy588;
+		case 'z': goto yy35;
+		default: goto yy593;
 	}
-yy588:
+yy593:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_AUTOMATIC (context_.location); }
-yy589:
-	yyaccept = 60;
+yy594:
+	yyaccept = 64;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -20519,16 +20552,16 @@ yy589:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy590;
+		case 'z': goto yy35;
+		default: goto yy595;
 	}
-yy590:
+yy595:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BMPString (context_.location); }
-yy591:
-	yyaccept = 61;
+yy596:
+	yyaccept = 65;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -20591,16 +20624,16 @@ yy591:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy592;
+		case 'z': goto yy35;
+		default: goto yy597;
 	}
-yy592:
+yy597:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CHARACTER (context_.location); }
-yy593:
-	yyaccept = 62;
+yy598:
+	yyaccept = 66;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -20662,31 +20695,31 @@ yy593:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		case 'S': goto yy632;
-		default: goto yy594;
+		case 'z': goto yy35;
+		case 'S': goto yy637;
+		default: goto yy599;
 	}
-yy594:
+yy599:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COMPONENT (context_.location); }
-yy595:
-	yyaccept = 2;
+yy600:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy634;
-		default: goto yy35;
+		case 'E': goto yy639;
+		default: goto yy36;
 	}
-yy596:
-	yyaccept = 2;
+yy601:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'G': goto yy635;
-		default: goto yy35;
+		case 'G': goto yy640;
+		default: goto yy36;
 	}
-yy597:
-	yyaccept = 63;
+yy602:
+	yyaccept = 67;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -20749,65 +20782,65 @@ yy597:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy598;
+		case 'z': goto yy35;
+		default: goto yy603;
 	}
-yy598:
+yy603:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DATE_TIME (context_.location); }
-yy599:
-	yyaccept = 2;
+yy604:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy637;
-		default: goto yy35;
+		case 'N': goto yy642;
+		default: goto yy36;
 	}
-yy600:
-	yyaccept = 2;
+yy605:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy638;
-		default: goto yy35;
+		case 'C': goto yy643;
+		default: goto yy36;
 	}
-yy601:
-	yyaccept = 2;
+yy606:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'D': goto yy639;
-		default: goto yy35;
+		case 'D': goto yy644;
+		default: goto yy36;
 	}
-yy602:
-	yyaccept = 2;
+yy607:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy641;
-		default: goto yy35;
+		case 'L': goto yy646;
+		default: goto yy36;
 	}
-yy603:
-	yyaccept = 2;
+yy608:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy642;
-		default: goto yy35;
+		case 'r': goto yy647;
+		default: goto yy36;
 	}
-yy604:
-	yyaccept = 2;
+yy609:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy643;
-		default: goto yy35;
+		case 'e': goto yy648;
+		default: goto yy36;
 	}
-yy605:
-	yyaccept = 2;
+yy610:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy644;
-		default: goto yy35;
+		case 'r': goto yy649;
+		default: goto yy36;
 	}
-yy606:
-	yyaccept = 64;
+yy611:
+	yyaccept = 68;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -20870,82 +20903,82 @@ yy606:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy607;
+		case 'z': goto yy35;
+		default: goto yy612;
 	}
-yy607:
+yy612:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IA5String (context_.location); }
-yy608:
-	yyaccept = 2;
+yy613:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy645;
-		default: goto yy35;
+		case 'R': goto yy650;
+		default: goto yy36;
 	}
-yy609:
-	yyaccept = 2;
+yy614:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy647;
-		default: goto yy35;
+		case 'O': goto yy652;
+		default: goto yy36;
 	}
-yy610:
-	yyaccept = 2;
+yy615:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy648;
-		default: goto yy35;
+		case 'I': goto yy653;
+		default: goto yy36;
 	}
-yy611:
-	yyaccept = 2;
+yy616:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy649;
-		default: goto yy35;
+		case 'i': goto yy654;
+		default: goto yy36;
 	}
-yy612:
-	yyaccept = 2;
+yy617:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy650;
-		default: goto yy35;
+		case 'I': goto yy655;
+		default: goto yy36;
 	}
-yy613:
-	yyaccept = 2;
+yy618:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'B': goto yy651;
-		default: goto yy35;
+		case 'B': goto yy656;
+		default: goto yy36;
 	}
-yy614:
-	yyaccept = 2;
+yy619:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy652;
-		default: goto yy35;
+		case 'r': goto yy657;
+		default: goto yy36;
 	}
-yy615:
-	yyaccept = 2;
+yy620:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'c': goto yy653;
-		default: goto yy35;
+		case 'c': goto yy658;
+		default: goto yy36;
 	}
-yy616:
-	yyaccept = 2;
+yy621:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy654;
-		default: goto yy35;
+		case 'N': goto yy659;
+		default: goto yy36;
 	}
-yy617:
-	yyaccept = 2;
+yy622:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy655;
-		default: goto yy35;
+		case 'S': goto yy660;
+		default: goto yy36;
 	}
-yy618:
+yy623:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -21009,15 +21042,15 @@ yy618:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		case 'O': goto yy656;
-		default: goto yy73;
+		case 'z': goto yy35;
+		case 'O': goto yy661;
+		default: goto yy58;
 	}
-yy619:
-	yyaccept = 65;
+yy624:
+	yyaccept = 69;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -21080,37 +21113,37 @@ yy619:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy620;
+		case 'z': goto yy35;
+		default: goto yy625;
 	}
-yy620:
+yy625:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_T61String (context_.location); }
-yy621:
-	yyaccept = 2;
+yy626:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy657;
-		default: goto yy35;
+		case 'A': goto yy662;
+		default: goto yy36;
 	}
-yy622:
-	yyaccept = 2;
+yy627:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy658;
-		default: goto yy35;
+		case 'T': goto yy663;
+		default: goto yy36;
 	}
-yy623:
-	yyaccept = 2;
+yy628:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy659;
-		default: goto yy35;
+		case 'r': goto yy664;
+		default: goto yy36;
 	}
-yy624:
-	yyaccept = 66;
+yy629:
+	yyaccept = 70;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -21173,58 +21206,58 @@ yy624:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy625;
+		case 'z': goto yy35;
+		default: goto yy630;
 	}
-yy625:
+yy630:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UNIVERSAL (context_.location); }
-yy626:
-	yyaccept = 2;
+yy631:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'g': goto yy660;
-		default: goto yy35;
+		case 'g': goto yy665;
+		default: goto yy36;
 	}
-yy627:
-	yyaccept = 2;
+yy632:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy662;
-		default: goto yy35;
+		case 'S': goto yy667;
+		default: goto yy36;
 	}
-yy628:
-	yyaccept = 2;
+yy633:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy663;
-		default: goto yy35;
+		case 't': goto yy668;
+		default: goto yy36;
 	}
-yy629:
-	yyaccept = 2;
+yy634:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy664;
-		default: goto yy35;
+		case 'r': goto yy669;
+		default: goto yy36;
 	}
-yy630:
-	yyaccept = 2;
+yy635:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'Y': goto yy665;
-		default: goto yy35;
+		case 'Y': goto yy670;
+		default: goto yy36;
 	}
-yy631:
-	yyaccept = 2;
+yy636:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy666;
-		default: goto yy35;
+		case 'N': goto yy671;
+		default: goto yy36;
 	}
-yy632:
-	yyaccept = 67;
+yy637:
+	yyaccept = 71;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -21287,23 +21320,23 @@ yy632:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy633;
+		case 'z': goto yy35;
+		default: goto yy638;
 	}
-yy633:
+yy638:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COMPONENTS (context_.location); }
-yy634:
-	yyaccept = 2;
+yy639:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'D': goto yy668;
-		default: goto yy35;
+		case 'D': goto yy673;
+		default: goto yy36;
 	}
-yy635:
-	yyaccept = 68;
+yy640:
+	yyaccept = 72;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -21366,30 +21399,30 @@ yy635:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy636;
+		case 'z': goto yy35;
+		default: goto yy641;
 	}
-yy636:
+yy641:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CONTAINING (context_.location); }
-yy637:
-	yyaccept = 2;
+yy642:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy670;
-		default: goto yy35;
+		case 'S': goto yy675;
+		default: goto yy36;
 	}
-yy638:
-	yyaccept = 2;
+yy643:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy672;
-		default: goto yy35;
+		case 'O': goto yy677;
+		default: goto yy36;
 	}
-yy639:
-	yyaccept = 69;
+yy644:
+	yyaccept = 73;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -21452,44 +21485,44 @@ yy639:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy640;
+		case 'z': goto yy35;
+		default: goto yy645;
 	}
-yy640:
+yy645:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ENUMERATED (context_.location); }
-yy641:
-	yyaccept = 2;
+yy646:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy673;
-		default: goto yy35;
+		case 'I': goto yy678;
+		default: goto yy36;
 	}
-yy642:
-	yyaccept = 2;
+yy647:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy674;
-		default: goto yy35;
+		case 'i': goto yy679;
+		default: goto yy36;
 	}
-yy643:
-	yyaccept = 2;
+yy648:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'd': goto yy675;
-		default: goto yy35;
+		case 'd': goto yy680;
+		default: goto yy36;
 	}
-yy644:
-	yyaccept = 2;
+yy649:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy676;
-		default: goto yy35;
+		case 'i': goto yy681;
+		default: goto yy36;
 	}
-yy645:
-	yyaccept = 70;
+yy650:
+	yyaccept = 74;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -21552,107 +21585,107 @@ yy645:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy646;
+		case 'z': goto yy35;
+		default: goto yy651;
 	}
-yy646:
+yy651:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IDENTIFIER (context_.location); }
-yy647:
-	yyaccept = 2;
+yy652:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy677;
-		default: goto yy35;
+		case 'N': goto yy682;
+		default: goto yy36;
 	}
-yy648:
-	yyaccept = 2;
+yy653:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy678;
-		default: goto yy35;
+		case 'O': goto yy683;
+		default: goto yy36;
 	}
-yy649:
-	yyaccept = 2;
+yy654:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy679;
-		default: goto yy35;
+		case 'n': goto yy684;
+		default: goto yy36;
 	}
-yy650:
-	yyaccept = 2;
+yy655:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy680;
-		default: goto yy35;
+		case 'N': goto yy685;
+		default: goto yy36;
 	}
-yy651:
-	yyaccept = 2;
+yy656:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy681;
-		default: goto yy35;
+		case 'E': goto yy686;
+		default: goto yy36;
 	}
-yy652:
-	yyaccept = 2;
+yy657:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy682;
-		default: goto yy35;
+		case 'i': goto yy687;
+		default: goto yy36;
 	}
-yy653:
-	yyaccept = 2;
+yy658:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy683;
-		default: goto yy35;
+		case 'r': goto yy688;
+		default: goto yy36;
 	}
-yy654:
-	yyaccept = 2;
+yy659:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy684;
-		default: goto yy35;
+		case 'I': goto yy689;
+		default: goto yy36;
 	}
-yy655:
-	yyaccept = 2;
+yy660:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy685;
-		default: goto yy35;
+		case 't': goto yy690;
+		default: goto yy36;
 	}
-yy656:
-	yyaccept = 2;
+yy661:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy686;
-		default: goto yy35;
+		case 'I': goto yy691;
+		default: goto yy36;
 	}
-yy657:
-	yyaccept = 2;
+yy662:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'Y': goto yy687;
-		default: goto yy35;
+		case 'Y': goto yy692;
+		default: goto yy36;
 	}
-yy658:
-	yyaccept = 2;
+yy663:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy689;
-		default: goto yy35;
+		case 'I': goto yy694;
+		default: goto yy36;
 	}
-yy659:
-	yyaccept = 2;
+yy664:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy690;
-		default: goto yy35;
+		case 'i': goto yy695;
+		default: goto yy36;
 	}
-yy660:
-	yyaccept = 71;
+yy665:
+	yyaccept = 75;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -21715,44 +21748,44 @@ yy660:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy661;
+		case 'z': goto yy35;
+		default: goto yy666;
 	}
-yy661:
+yy666:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UTF8String (context_.location); }
-yy662:
-	yyaccept = 2;
+yy667:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy691;
-		default: goto yy35;
+		case 't': goto yy696;
+		default: goto yy36;
 	}
-yy663:
-	yyaccept = 2;
+yy668:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy692;
-		default: goto yy35;
+		case 'r': goto yy697;
+		default: goto yy36;
 	}
-yy664:
-	yyaccept = 2;
+yy669:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy693;
-		default: goto yy35;
+		case 'i': goto yy698;
+		default: goto yy36;
 	}
-yy665:
-	yyaccept = 2;
+yy670:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy694;
-		default: goto yy35;
+		case 'N': goto yy699;
+		default: goto yy36;
 	}
-yy666:
-	yyaccept = 72;
+yy671:
+	yyaccept = 76;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -21815,16 +21848,16 @@ yy666:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy667;
+		case 'z': goto yy35;
+		default: goto yy672;
 	}
-yy667:
+yy672:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_APPLICATION (context_.location); }
-yy668:
-	yyaccept = 73;
+yy673:
+	yyaccept = 77;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -21887,16 +21920,16 @@ yy668:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy669;
+		case 'z': goto yy35;
+		default: goto yy674;
 	}
-yy669:
+yy674:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CONSTRAINED (context_.location); }
-yy670:
-	yyaccept = 74;
+yy675:
+	yyaccept = 78;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -21959,121 +21992,121 @@ yy670:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy671;
+		case 'z': goto yy35;
+		default: goto yy676;
 	}
-yy671:
+yy676:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DEFINITIONS (context_.location); }
-yy672:
-	yyaccept = 2;
+yy677:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy695;
-		default: goto yy35;
+		case 'N': goto yy700;
+		default: goto yy36;
 	}
-yy673:
-	yyaccept = 2;
+yy678:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy696;
-		default: goto yy35;
+		case 'T': goto yy701;
+		default: goto yy36;
 	}
-yy674:
-	yyaccept = 2;
+yy679:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy697;
-		default: goto yy35;
+		case 'n': goto yy702;
+		default: goto yy36;
 	}
-yy675:
-	yyaccept = 2;
+yy680:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy698;
-		default: goto yy35;
+		case 'T': goto yy703;
+		default: goto yy36;
 	}
-yy676:
-	yyaccept = 2;
+yy681:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy699;
-		default: goto yy35;
+		case 'n': goto yy704;
+		default: goto yy36;
 	}
-yy677:
-	yyaccept = 2;
+yy682:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy700;
-		default: goto yy35;
+		case 'S': goto yy705;
+		default: goto yy36;
 	}
-yy678:
-	yyaccept = 2;
+yy683:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy702;
-		default: goto yy35;
+		case 'N': goto yy707;
+		default: goto yy36;
 	}
-yy679:
-	yyaccept = 2;
+yy684:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'g': goto yy704;
-		default: goto yy35;
+		case 'g': goto yy709;
+		default: goto yy36;
 	}
-yy680:
-	yyaccept = 2;
+yy685:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy706;
-		default: goto yy35;
+		case 'I': goto yy711;
+		default: goto yy36;
 	}
-yy681:
-	yyaccept = 2;
+yy686:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy707;
-		default: goto yy35;
+		case 'R': goto yy712;
+		default: goto yy36;
 	}
-yy682:
-	yyaccept = 2;
+yy687:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy709;
-		default: goto yy35;
+		case 'n': goto yy714;
+		default: goto yy36;
 	}
-yy683:
-	yyaccept = 2;
+yy688:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy710;
-		default: goto yy35;
+		case 'i': goto yy715;
+		default: goto yy36;
 	}
-yy684:
-	yyaccept = 2;
+yy689:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy711;
-		default: goto yy35;
+		case 'T': goto yy716;
+		default: goto yy36;
 	}
-yy685:
-	yyaccept = 2;
+yy690:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy712;
-		default: goto yy35;
+		case 'r': goto yy717;
+		default: goto yy36;
 	}
-yy686:
-	yyaccept = 2;
+yy691:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'D': goto yy713;
-		default: goto yy35;
+		case 'D': goto yy718;
+		default: goto yy36;
 	}
-yy687:
-	yyaccept = 75;
+yy692:
+	yyaccept = 79;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -22136,93 +22169,93 @@ yy687:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy688;
+		case 'z': goto yy35;
+		default: goto yy693;
 	}
-yy688:
+yy693:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TIME_OF_DAY (context_.location); }
-yy689:
-	yyaccept = 2;
+yy694:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'F': goto yy715;
-		default: goto yy35;
+		case 'F': goto yy720;
+		default: goto yy36;
 	}
-yy690:
-	yyaccept = 2;
+yy695:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy716;
-		default: goto yy35;
+		case 'n': goto yy721;
+		default: goto yy36;
 	}
-yy691:
-	yyaccept = 2;
+yy696:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy717;
-		default: goto yy35;
+		case 'r': goto yy722;
+		default: goto yy36;
 	}
-yy692:
-	yyaccept = 2;
+yy697:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy718;
-		default: goto yy35;
+		case 'i': goto yy723;
+		default: goto yy36;
 	}
-yy693:
-	yyaccept = 2;
+yy698:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy719;
-		default: goto yy35;
+		case 'n': goto yy724;
+		default: goto yy36;
 	}
-yy694:
-	yyaccept = 2;
+yy699:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy720;
-		default: goto yy35;
+		case 'T': goto yy725;
+		default: goto yy36;
 	}
-yy695:
-	yyaccept = 2;
+yy700:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy721;
-		default: goto yy35;
+		case 'T': goto yy726;
+		default: goto yy36;
 	}
-yy696:
-	yyaccept = 2;
+yy701:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'Y': goto yy722;
-		default: goto yy35;
+		case 'Y': goto yy727;
+		default: goto yy36;
 	}
-yy697:
-	yyaccept = 2;
+yy702:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'g': goto yy724;
-		default: goto yy35;
+		case 'g': goto yy729;
+		default: goto yy36;
 	}
-yy698:
-	yyaccept = 2;
+yy703:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy726;
-		default: goto yy35;
+		case 'i': goto yy731;
+		default: goto yy36;
 	}
-yy699:
-	yyaccept = 2;
+yy704:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'g': goto yy727;
-		default: goto yy35;
+		case 'g': goto yy732;
+		default: goto yy36;
 	}
-yy700:
-	yyaccept = 76;
+yy705:
+	yyaccept = 80;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -22285,16 +22318,16 @@ yy700:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy701;
+		case 'z': goto yy35;
+		default: goto yy706;
 	}
-yy701:
+yy706:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INSTRUCTIONS (context_.location); }
-yy702:
-	yyaccept = 77;
+yy707:
+	yyaccept = 81;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -22357,16 +22390,16 @@ yy702:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy703;
+		case 'z': goto yy35;
+		default: goto yy708;
 	}
-yy703:
+yy708:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INTERSECTION (context_.location); }
-yy704:
-	yyaccept = 78;
+yy709:
+	yyaccept = 82;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -22429,23 +22462,23 @@ yy704:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy705;
+		case 'z': goto yy35;
+		default: goto yy710;
 	}
-yy705:
+yy710:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ISO646String (context_.location); }
-yy706:
-	yyaccept = 2;
+yy711:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy729;
-		default: goto yy35;
+		case 'T': goto yy734;
+		default: goto yy36;
 	}
-yy707:
-	yyaccept = 79;
+yy712:
+	yyaccept = 83;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -22508,44 +22541,44 @@ yy707:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy708;
+		case 'z': goto yy35;
+		default: goto yy713;
 	}
-yy708:
+yy713:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_NOT_A_NUMBER (context_.location); }
-yy709:
-	yyaccept = 2;
+yy714:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'g': goto yy730;
-		default: goto yy35;
+		case 'g': goto yy735;
+		default: goto yy36;
 	}
-yy710:
-	yyaccept = 2;
+yy715:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'p': goto yy732;
-		default: goto yy35;
+		case 'p': goto yy737;
+		default: goto yy36;
 	}
-yy711:
-	yyaccept = 2;
+yy716:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'Y': goto yy733;
-		default: goto yy35;
+		case 'Y': goto yy738;
+		default: goto yy36;
 	}
-yy712:
-	yyaccept = 2;
+yy717:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy735;
-		default: goto yy35;
+		case 'i': goto yy740;
+		default: goto yy36;
 	}
-yy713:
-	yyaccept = 80;
+yy718:
+	yyaccept = 84;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy736;
+		case '-': goto yy741;
 		case '0':
 		case '1':
 		case '2':
@@ -22608,65 +22641,65 @@ yy713:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy714;
+		case 'z': goto yy35;
+		default: goto yy719;
 	}
-yy714:
+yy719:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_RELATIVE_OID (context_.location); }
-yy715:
-	yyaccept = 2;
+yy720:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy737;
-		default: goto yy35;
+		case 'I': goto yy742;
+		default: goto yy36;
 	}
-yy716:
-	yyaccept = 2;
+yy721:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'g': goto yy738;
-		default: goto yy35;
+		case 'g': goto yy743;
+		default: goto yy36;
 	}
-yy717:
-	yyaccept = 2;
+yy722:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy740;
-		default: goto yy35;
+		case 'i': goto yy745;
+		default: goto yy36;
 	}
-yy718:
-	yyaccept = 2;
+yy723:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy741;
-		default: goto yy35;
+		case 'n': goto yy746;
+		default: goto yy36;
 	}
-yy719:
-	yyaccept = 2;
+yy724:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'g': goto yy742;
-		default: goto yy35;
+		case 'g': goto yy747;
+		default: goto yy36;
 	}
-yy720:
-	yyaccept = 2;
+yy725:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy744;
-		default: goto yy35;
+		case 'A': goto yy749;
+		default: goto yy36;
 	}
-yy721:
-	yyaccept = 2;
+yy726:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy745;
-		default: goto yy35;
+		case 'R': goto yy750;
+		default: goto yy36;
 	}
-yy722:
-	yyaccept = 81;
+yy727:
+	yyaccept = 85;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -22729,16 +22762,16 @@ yy722:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy723;
+		case 'z': goto yy35;
+		default: goto yy728;
 	}
-yy723:
+yy728:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXTENSIBILITY (context_.location); }
-yy724:
-	yyaccept = 82;
+yy729:
+	yyaccept = 86;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -22801,23 +22834,23 @@ yy724:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy725;
+		case 'z': goto yy35;
+		default: goto yy730;
 	}
-yy725:
+yy730:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GeneralString (context_.location); }
-yy726:
-	yyaccept = 2;
+yy731:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'm': goto yy746;
-		default: goto yy35;
+		case 'm': goto yy751;
+		default: goto yy36;
 	}
-yy727:
-	yyaccept = 83;
+yy732:
+	yyaccept = 87;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -22880,23 +22913,23 @@ yy727:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy728;
+		case 'z': goto yy35;
+		default: goto yy733;
 	}
-yy728:
+yy733:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GraphicString (context_.location); }
-yy729:
-	yyaccept = 2;
+yy734:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'Y': goto yy747;
-		default: goto yy35;
+		case 'Y': goto yy752;
+		default: goto yy36;
 	}
-yy730:
-	yyaccept = 84;
+yy735:
+	yyaccept = 88;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -22959,23 +22992,23 @@ yy730:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy731;
+		case 'z': goto yy35;
+		default: goto yy736;
 	}
-yy731:
+yy736:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_NumericString (context_.location); }
-yy732:
-	yyaccept = 2;
+yy737:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy749;
-		default: goto yy35;
+		case 't': goto yy754;
+		default: goto yy36;
 	}
-yy733:
-	yyaccept = 85;
+yy738:
+	yyaccept = 89;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -23038,19 +23071,19 @@ yy733:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy734;
+		case 'z': goto yy35;
+		default: goto yy739;
 	}
-yy734:
+yy739:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PLUS_INFINITY (context_.location); }
-yy735:
-	yyaccept = 2;
+yy740:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy750;
-		default: goto yy35;
+		case 'n': goto yy755;
+		default: goto yy36;
 	}
-yy736:
+yy741:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -23114,22 +23147,22 @@ yy736:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		case 'I': goto yy751;
-		default: goto yy73;
+		case 'z': goto yy35;
+		case 'I': goto yy756;
+		default: goto yy58;
 	}
-yy737:
-	yyaccept = 2;
+yy742:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy752;
-		default: goto yy35;
+		case 'E': goto yy757;
+		default: goto yy36;
 	}
-yy738:
-	yyaccept = 86;
+yy743:
+	yyaccept = 90;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -23192,30 +23225,30 @@ yy738:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy739;
+		case 'z': goto yy35;
+		default: goto yy744;
 	}
-yy739:
+yy744:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TeletexString (context_.location); }
-yy740:
-	yyaccept = 2;
+yy745:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy753;
-		default: goto yy35;
+		case 'n': goto yy758;
+		default: goto yy36;
 	}
-yy741:
-	yyaccept = 2;
+yy746:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'g': goto yy754;
-		default: goto yy35;
+		case 'g': goto yy759;
+		default: goto yy36;
 	}
-yy742:
-	yyaccept = 87;
+yy747:
+	yyaccept = 91;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -23278,37 +23311,37 @@ yy742:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy743;
+		case 'z': goto yy35;
+		default: goto yy748;
 	}
-yy743:
+yy748:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_VisibleString (context_.location); }
-yy744:
-	yyaccept = 2;
+yy749:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'X': goto yy756;
-		default: goto yy35;
+		case 'X': goto yy761;
+		default: goto yy36;
 	}
-yy745:
-	yyaccept = 2;
+yy750:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy758;
-		default: goto yy35;
+		case 'O': goto yy763;
+		default: goto yy36;
 	}
-yy746:
-	yyaccept = 2;
+yy751:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy759;
-		default: goto yy35;
+		case 'e': goto yy764;
+		default: goto yy36;
 	}
-yy747:
-	yyaccept = 88;
+yy752:
+	yyaccept = 92;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -23371,51 +23404,51 @@ yy747:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy748;
+		case 'z': goto yy35;
+		default: goto yy753;
 	}
-yy748:
+yy753:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_MINUS_INFINITY (context_.location); }
-yy749:
-	yyaccept = 2;
+yy754:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'o': goto yy761;
-		default: goto yy35;
+		case 'o': goto yy766;
+		default: goto yy36;
 	}
-yy750:
-	yyaccept = 2;
+yy755:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'g': goto yy762;
-		default: goto yy35;
+		case 'g': goto yy767;
+		default: goto yy36;
 	}
-yy751:
-	yyaccept = 2;
+yy756:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy764;
-		default: goto yy35;
+		case 'R': goto yy769;
+		default: goto yy36;
 	}
-yy752:
-	yyaccept = 2;
+yy757:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy765;
-		default: goto yy35;
+		case 'R': goto yy770;
+		default: goto yy36;
 	}
-yy753:
-	yyaccept = 2;
+yy758:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'g': goto yy767;
-		default: goto yy35;
+		case 'g': goto yy772;
+		default: goto yy36;
 	}
-yy754:
-	yyaccept = 89;
+yy759:
+	yyaccept = 93;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -23478,16 +23511,16 @@ yy754:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy755;
+		case 'z': goto yy35;
+		default: goto yy760;
 	}
-yy755:
+yy760:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_VideotexString (context_.location); }
-yy756:
-	yyaccept = 90;
+yy761:
+	yyaccept = 94;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -23550,23 +23583,23 @@ yy756:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy757;
+		case 'z': goto yy35;
+		default: goto yy762;
 	}
-yy757:
+yy762:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ABSTRACT_SYNTAX (context_.location); }
-yy758:
-	yyaccept = 2;
+yy763:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy769;
-		default: goto yy35;
+		case 'L': goto yy774;
+		default: goto yy36;
 	}
-yy759:
-	yyaccept = 91;
+yy764:
+	yyaccept = 95;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -23629,23 +23662,23 @@ yy759:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy760;
+		case 'z': goto yy35;
+		default: goto yy765;
 	}
-yy760:
+yy765:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GeneralizedTime (context_.location); }
-yy761:
-	yyaccept = 2;
+yy766:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy771;
-		default: goto yy35;
+		case 'r': goto yy776;
+		default: goto yy36;
 	}
-yy762:
-	yyaccept = 92;
+yy767:
+	yyaccept = 96;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -23708,23 +23741,23 @@ yy762:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy763;
+		case 'z': goto yy35;
+		default: goto yy768;
 	}
-yy763:
+yy768:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PrintableString (context_.location); }
-yy764:
-	yyaccept = 2;
+yy769:
+	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy773;
-		default: goto yy35;
+		case 'I': goto yy778;
+		default: goto yy36;
 	}
-yy765:
-	yyaccept = 93;
+yy770:
+	yyaccept = 97;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -23787,16 +23820,16 @@ yy765:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy766;
+		case 'z': goto yy35;
+		default: goto yy771;
 	}
-yy766:
+yy771:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TYPE_IDENTIFIER (context_.location); }
-yy767:
-	yyaccept = 94;
+yy772:
+	yyaccept = 98;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -23859,16 +23892,16 @@ yy767:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy768;
+		case 'z': goto yy35;
+		default: goto yy773;
 	}
-yy768:
+yy773:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UniversalString (context_.location); }
-yy769:
-	yyaccept = 95;
+yy774:
+	yyaccept = 99;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -23931,16 +23964,16 @@ yy769:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy770;
+		case 'z': goto yy35;
+		default: goto yy775;
 	}
-yy770:
+yy775:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ENCODING_CONTROL (context_.location); }
-yy771:
-	yyaccept = 96;
+yy776:
+	yyaccept = 100;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -24003,16 +24036,16 @@ yy771:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy772;
+		case 'z': goto yy35;
+		default: goto yy777;
 	}
-yy772:
+yy777:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ObjectDescriptor (context_.location); }
-yy773:
-	yyaccept = 97;
+yy778:
+	yyaccept = 101;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy75;
+		case '-': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -24075,12 +24108,13 @@ yy773:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy34;
-		default: goto yy774;
+		case 'z': goto yy35;
+		default: goto yy779;
 	}
-yy774:
+yy779:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_RELATIVE_OID_IRI (context_.location); }
 }
 
+        }
     }
 }
-- 
2.43.0


From 1f20e41b0c9b6cef04c477953fdc43c93119c034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:30 +0000
Subject: [PATCH 50/66] fix: strings with backslashes or several lines do not
 denote what the schema says

---
 src/compiler/ValueAsString.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/compiler/ValueAsString.cpp b/src/compiler/ValueAsString.cpp
index 8c08585..044a4c2 100644
--- a/src/compiler/ValueAsString.cpp
+++ b/src/compiler/ValueAsString.cpp
@@ -49,7 +49,7 @@ std::string octets_literal(const std::string& octets)
     return res + "\", " + std::to_string(octets.length()) + ")";
 }
 
-// Quotation marks within an ASN.1 string are doubled
+// Quotation marks within an ASN.1 string are doubled, and the end of a line and the space around it are no part of it
 std::string cpp_value(const CharStringValue& cstring)
 {
     std::string res = "\"";
@@ -60,9 +60,14 @@ std::string cpp_value(const CharStringValue& cstring)
             res += "\\\"";
             i++;
         }
+        else if (cstring.value[i] == '\n')
+        {
+            res.erase(res.find_last_not_of(" \t\v\f\r") + 1);
+            i = cstring.value.find_first_not_of(" \t\v\f\r\n", i) - 1;
+        }
         else
         {
-            res += cstring.value[i];
+            res += cstring.value[i] == '\\' ? "\\\\" : std::string(1, cstring.value[i]);
         }
     }
     return res + "\"";
-- 
2.43.0


From 300005bb9a13b663131a127c07777bfc4900d07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:34 +0000
Subject: [PATCH 51/66] fix: imports of undefined values, and undefined or
 duplicated names of parameterized types, are accepted

---
 src/compiler/ReorderAssignments.cpp           | 62 ++++++++++++++++++-
 .../fast_ber/compiler/ReorderAssignments.hpp  |  3 +
 src/compiler_main/CompilerMain.cpp            |  1 +
 3 files changed, 63 insertions(+), 3 deletions(-)

diff --git a/src/compiler/ReorderAssignments.cpp b/src/compiler/ReorderAssignments.cpp
index 44621d0..5fd05a7 100644
--- a/src/compiler/ReorderAssignments.cpp
+++ b/src/compiler/ReorderAssignments.cpp
@@ -98,6 +98,63 @@ void visit_types(Module& module, const std::function<void(Type&)>& function)
     }
 }
 
+void check_names(const Asn1Tree& tree)
+{
+    for (const Module& module : tree.modules)
+    {
+        // Neither parameterized nor imported definitions are definitions of the generated module
+        std::vector<Assignment> definitions = module.assignments;
+        for (const Import& import : module.imports)
+        {
+            for (const std::string& type : import.imported_types)
+            {
+                definitions.push_back(Assignment{type, TypeAssignment{NullType{}}, {}, {}});
+            }
+
+            const Module& exporter = find_module(tree, import.module_reference);
+            for (const std::string& value : import.imported_values)
+            {
+                const auto imports_value = [&](const Import& indirect) {
+                    return std::find(indirect.imported_values.begin(), indirect.imported_values.end(), value) !=
+                           indirect.imported_values.end();
+                };
+                if (!exists(tree, exporter, value) &&
+                    std::none_of(exporter.imports.begin(), exporter.imports.end(), imports_value))
+                {
+                    throw std::runtime_error("Reference to undefined value: " + import.module_reference + "." + value);
+                }
+                definitions.push_back(Assignment{value, TypeAssignment{NullType{}}, {}, {}});
+            }
+        }
+        check_duplicated_names(definitions, module.module_reference);
+
+        // Parameterized types which are not used are not generated
+        for (const Assignment& assignment : module.assignments)
+        {
+            if (!is_type(assignment) || assignment.parameters.empty())
+            {
+                continue;
+            }
+
+            Type parameterized = type(assignment);
+            visit_types(parameterized, [&](Type& type) {
+                if (!is_defined(type) || absl::get<DefinedType>(type).module_reference)
+                {
+                    return;
+                }
+                const std::string& reference = absl::get<DefinedType>(type).type_reference;
+                if (std::none_of(definitions.begin(), definitions.end(),
+                                 [&](const Assignment& definition) { return definition.name == reference; }) &&
+                    std::none_of(assignment.parameters.begin(), assignment.parameters.end(),
+                                 [&](const Parameter& parameter) { return parameter.reference == reference; }))
+                {
+                    throw std::runtime_error("Reference to undefined type: " + reference);
+                }
+            });
+        }
+    }
+}
+
 void qualify_names(Type& type, const std::string& module_reference,
                    const std::function<bool(const std::string&)>& is_parameter)
 {
@@ -743,13 +800,12 @@ void resolve_module_dependencies(const std::unordered_map<std::string, Module>&
                                  std::unordered_set<std::string>& assigned_names,
                                  std::unordered_set<std::string>& visited_names, std::vector<Module>& ordered_modules)
 {
-    const auto&   module_iter = module_map.find(name);
-    const Module& module      = module_iter->second;
-
+    const auto& module_iter = module_map.find(name);
     if (module_iter == module_map.end())
     {
         throw std::runtime_error("Reference to undefined module: " + name);
     }
+    const Module& module = module_iter->second;
 
     if (assigned_names.count(name) == 1)
     {
diff --git a/src/compiler/include/fast_ber/compiler/ReorderAssignments.hpp b/src/compiler/include/fast_ber/compiler/ReorderAssignments.hpp
index 28415ba..0629995 100644
--- a/src/compiler/include/fast_ber/compiler/ReorderAssignments.hpp
+++ b/src/compiler/include/fast_ber/compiler/ReorderAssignments.hpp
@@ -10,6 +10,9 @@ void        check_duplicated_names(const std::vector<Assignment>& assignments, c
 // Calls function on a type and every type within it
 void visit_types(Type& type, const std::function<void(Type&)>& function);
 
+// Checks that the names of each module are unique, and that those which are not generated refer to something
+void check_names(const Asn1Tree& tree);
+
 // Makes a type of another module one of the module where it is used, as to the names within it
 void qualify_names(Type& type, const std::string& module_reference,
                    const std::function<bool(const std::string&)>& is_parameter);
diff --git a/src/compiler_main/CompilerMain.cpp b/src/compiler_main/CompilerMain.cpp
index ee9b87b..38263ef 100644
--- a/src/compiler_main/CompilerMain.cpp
+++ b/src/compiler_main/CompilerMain.cpp
@@ -269,6 +269,7 @@ int main(int argc, char** argv)
             return -1;
         }
 
+        check_names(context.asn1_tree);
         select_automatic_tags(context.asn1_tree);
         resolve_parameters(context.asn1_tree);
         context.asn1_tree.modules = reorder_modules(context.asn1_tree.modules);
-- 
2.43.0


From 9073d205f91b7a068ed8fad4c987d81ac470aaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:32 +0000
Subject: [PATCH 52/66] fix: values which refer to imported values do not
 compile

---
 src/compiler_main/CompilerMain.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler_main/CompilerMain.cpp b/src/compiler_main/CompilerMain.cpp
index 38263ef..8827838 100644
--- a/src/compiler_main/CompilerMain.cpp
+++ b/src/compiler_main/CompilerMain.cpp
@@ -99,7 +99,7 @@ std::string create_imports(const Asn1Tree& tree, const Module& module)
             log_debug(tree, "Value import " + module.module_reference + "." + import_name + " <- " +
                                 import.module_reference + "." + import_name);
 
-            output += "static const auto " + import_name + " = " + import.module_reference + "::" + import_name + ";\n";
+            output += "using " + import.module_reference + "::" + import_name + ";\n";
         }
         if (import.imported_values.size() > 0)
         {
-- 
2.43.0


From 4e43bd038b39d044b886902344c75b9337b61034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:36 +0000
Subject: [PATCH 53/66] fix: refuse external references to undefined types in
 parameterized types which are not used

---
 src/compiler/ReorderAssignments.cpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/compiler/ReorderAssignments.cpp b/src/compiler/ReorderAssignments.cpp
index 5fd05a7..191dbd6 100644
--- a/src/compiler/ReorderAssignments.cpp
+++ b/src/compiler/ReorderAssignments.cpp
@@ -138,15 +138,30 @@ void check_names(const Asn1Tree& tree)
 
             Type parameterized = type(assignment);
             visit_types(parameterized, [&](Type& type) {
-                if (!is_defined(type) || absl::get<DefinedType>(type).module_reference)
+                if (!is_defined(type))
                 {
                     return;
                 }
-                const std::string& reference = absl::get<DefinedType>(type).type_reference;
-                if (std::none_of(definitions.begin(), definitions.end(),
-                                 [&](const Assignment& definition) { return definition.name == reference; }) &&
-                    std::none_of(assignment.parameters.begin(), assignment.parameters.end(),
-                                 [&](const Parameter& parameter) { return parameter.reference == reference; }))
+                const DefinedType& defined   = absl::get<DefinedType>(type);
+                const std::string& reference = defined.type_reference;
+                if (defined.module_reference)
+                {
+                    const Module& other        = find_module(tree, *defined.module_reference);
+                    const auto    imports_type = [&](const Import& indirect) {
+                        return std::find(indirect.imported_types.begin(), indirect.imported_types.end(), reference) !=
+                               indirect.imported_types.end();
+                    };
+                    if (!exists(tree, other, reference) &&
+                        std::none_of(other.imports.begin(), other.imports.end(), imports_type))
+                    {
+                        throw std::runtime_error("Reference to undefined type: " + *defined.module_reference + "." +
+                                                 reference);
+                    }
+                }
+                else if (std::none_of(definitions.begin(), definitions.end(),
+                                      [&](const Assignment& definition) { return definition.name == reference; }) &&
+                         std::none_of(assignment.parameters.begin(), assignment.parameters.end(),
+                                      [&](const Parameter& parameter) { return parameter.reference == reference; }))
                 {
                     throw std::runtime_error("Reference to undefined type: " + reference);
                 }
-- 
2.43.0


From a46ffdf34561065bfb0ad16239b930862481c375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:53 +0000
Subject: [PATCH 54/66] fix: refuse schemas with symbols outside the notation
 instead of ignoring these

---
 src/compiler/asn_compiler.yacc             |    1 +
 src/compiler/autogen_copy/asn_compiler.hpp | 4548 ++++++++++----------
 2 files changed, 2283 insertions(+), 2266 deletions(-)

diff --git a/src/compiler/asn_compiler.yacc b/src/compiler/asn_compiler.yacc
index 2a48c73..24d2c52 100644
--- a/src/compiler/asn_compiler.yacc
+++ b/src/compiler/asn_compiler.yacc
@@ -1988,6 +1988,7 @@ re2c:define:YYCURSOR = "context_.cursor";
 "<"                     { context_.location.columns(context_.cursor - start); return asn1_parser::make_LESS_THAN (context_.location); }
 "^"                     { context_.location.columns(context_.cursor - start); return asn1_parser::make_ACCENT (context_.location); }
 "@"                     { context_.location.columns(context_.cursor - start); return asn1_parser::make_AT (context_.location); }
+[\x21-\x7e]             { throw asn1_parser::syntax_error(context_.location, "syntax error, unknown symbol"); }
 .                       { std::cerr << "Ignoring unknown symbol: " <<  static_cast<int>(*start) << std::endl; continue; }
 %}
         }
diff --git a/src/compiler/autogen_copy/asn_compiler.hpp b/src/compiler/autogen_copy/asn_compiler.hpp
index 826eae2..4a3b191 100644
--- a/src/compiler/autogen_copy/asn_compiler.hpp
+++ b/src/compiler/autogen_copy/asn_compiler.hpp
@@ -12016,14 +12016,26 @@ namespace yy {
 		case '\r': goto yy6;
 		case '!': goto yy7;
 		case '"': goto yy8;
-		case '&': goto yy10;
-		case '\'': goto yy11;
-		case '(': goto yy12;
-		case ')': goto yy13;
-		case ',': goto yy14;
-		case '-': goto yy15;
-		case '.': goto yy17;
-		case '/': goto yy19;
+		case '#':
+		case '$':
+		case '%':
+		case '*':
+		case '+':
+		case '=':
+		case '>':
+		case '?':
+		case '\\':
+		case '_':
+		case '`':
+		case '~': goto yy10;
+		case '&': goto yy12;
+		case '\'': goto yy13;
+		case '(': goto yy14;
+		case ')': goto yy15;
+		case ',': goto yy16;
+		case '-': goto yy17;
+		case '.': goto yy19;
+		case '/': goto yy21;
 		case '0':
 		case '1':
 		case '2':
@@ -12033,18 +12045,18 @@ namespace yy {
 		case '6':
 		case '7':
 		case '8':
-		case '9': goto yy20;
-		case ':': goto yy22;
-		case ';': goto yy24;
-		case '<': goto yy25;
-		case '@': goto yy26;
-		case 'A': goto yy27;
-		case 'B': goto yy29;
-		case 'C': goto yy30;
-		case 'D': goto yy31;
-		case 'E': goto yy32;
-		case 'F': goto yy33;
-		case 'G': goto yy34;
+		case '9': goto yy22;
+		case ':': goto yy24;
+		case ';': goto yy26;
+		case '<': goto yy27;
+		case '@': goto yy28;
+		case 'A': goto yy29;
+		case 'B': goto yy31;
+		case 'C': goto yy32;
+		case 'D': goto yy33;
+		case 'E': goto yy34;
+		case 'F': goto yy35;
+		case 'G': goto yy36;
 		case 'H':
 		case 'J':
 		case 'K':
@@ -12052,21 +12064,21 @@ namespace yy {
 		case 'Q':
 		case 'X':
 		case 'Y':
-		case 'Z': goto yy35;
-		case 'I': goto yy37;
-		case 'M': goto yy38;
-		case 'N': goto yy39;
-		case 'O': goto yy40;
-		case 'P': goto yy41;
-		case 'R': goto yy42;
-		case 'S': goto yy43;
-		case 'T': goto yy44;
-		case 'U': goto yy45;
-		case 'V': goto yy46;
-		case 'W': goto yy47;
-		case '[': goto yy48;
-		case ']': goto yy49;
-		case '^': goto yy50;
+		case 'Z': goto yy37;
+		case 'I': goto yy39;
+		case 'M': goto yy40;
+		case 'N': goto yy41;
+		case 'O': goto yy42;
+		case 'P': goto yy43;
+		case 'R': goto yy44;
+		case 'S': goto yy45;
+		case 'T': goto yy46;
+		case 'U': goto yy47;
+		case 'V': goto yy48;
+		case 'W': goto yy49;
+		case '[': goto yy50;
+		case ']': goto yy51;
+		case '^': goto yy52;
 		case 'a':
 		case 'b':
 		case 'c':
@@ -12092,10 +12104,10 @@ namespace yy {
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy51;
-		case '{': goto yy53;
-		case '|': goto yy54;
-		case '}': goto yy55;
+		case 'z': goto yy53;
+		case '{': goto yy55;
+		case '|': goto yy56;
+		case '}': goto yy57;
 		default: goto yy2;
 	}
 yy1:
@@ -12123,10 +12135,14 @@ yy7:
 yy8:
 	yyaccept = 0;
 	yych = *(YYMARKER = ++context_.cursor);
-	if (yych >= 0x01) goto yy57;
+	if (yych >= 0x01) goto yy59;
 yy9:
 	{ throw asn1_parser::syntax_error(context_.location, "syntax error, string without end"); }
 yy10:
+	++context_.cursor;
+yy11:
+	{ throw asn1_parser::syntax_error(context_.location, "syntax error, unknown symbol"); }
+yy12:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case 'A':
@@ -12154,7 +12170,7 @@ yy10:
 		case 'W':
 		case 'X':
 		case 'Y':
-		case 'Z': goto yy61;
+		case 'Z': goto yy63;
 		case 'a':
 		case 'b':
 		case 'c':
@@ -12180,10 +12196,10 @@ yy10:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy63;
-		default: goto yy3;
+		case 'z': goto yy65;
+		default: goto yy11;
 	}
-yy11:
+yy13:
 	yyaccept = 1;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
@@ -12209,22 +12225,22 @@ yy11:
 		case 'c':
 		case 'd':
 		case 'e':
-		case 'f': goto yy67;
-		default: goto yy3;
+		case 'f': goto yy69;
+		default: goto yy11;
 	}
-yy12:
+yy14:
 	++context_.cursor;
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OPEN_PARENTHESIS (context_.location); }
-yy13:
+yy15:
 	++context_.cursor;
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CLOSE_PARENTHESIS (context_.location); }
-yy14:
+yy16:
 	++context_.cursor;
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COMMA (context_.location); }
-yy15:
+yy17:
 	yych = *++context_.cursor;
 	switch (yych) {
-		case '-': goto yy69;
+		case '-': goto yy71;
 		case '0':
 		case '1':
 		case '2':
@@ -12234,30 +12250,30 @@ yy15:
 		case '6':
 		case '7':
 		case '8':
-		case '9': goto yy71;
-		default: goto yy16;
+		case '9': goto yy73;
+		default: goto yy18;
 	}
-yy16:
+yy18:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_HYPHEN_MINUS (context_.location); }
-yy17:
+yy19:
 	yych = *++context_.cursor;
 	switch (yych) {
-		case '.': goto yy73;
-		default: goto yy18;
+		case '.': goto yy75;
+		default: goto yy20;
 	}
-yy18:
+yy20:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_FULL_STOP (context_.location); }
-yy19:
+yy21:
 	yych = *++context_.cursor;
 	switch (yych) {
-		case '*': goto yy75;
-		default: goto yy3;
+		case '*': goto yy77;
+		default: goto yy11;
 	}
-yy20:
+yy22:
 	yyaccept = 2;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '.': goto yy77;
+		case '.': goto yy79;
 		case '0':
 		case '1':
 		case '2':
@@ -12267,102 +12283,102 @@ yy20:
 		case '6':
 		case '7':
 		case '8':
-		case '9': goto yy20;
-		default: goto yy21;
+		case '9': goto yy22;
+		default: goto yy23;
 	}
-yy21:
+yy23:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_number(std::stoll(std::string(start, context_.cursor)), context_.location); }
-yy22:
+yy24:
 	yyaccept = 3;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case ':': goto yy78;
-		default: goto yy23;
+		case ':': goto yy80;
+		default: goto yy25;
 	}
-yy23:
+yy25:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COLON (context_.location); }
-yy24:
+yy26:
 	++context_.cursor;
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SEMICOLON (context_.location); }
-yy25:
+yy27:
 	++context_.cursor;
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_LESS_THAN (context_.location); }
-yy26:
+yy28:
 	++context_.cursor;
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_AT (context_.location); }
-yy27:
+yy29:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'B': goto yy80;
-		case 'L': goto yy81;
-		case 'N': goto yy82;
-		case 'P': goto yy83;
-		case 'U': goto yy84;
-		default: goto yy36;
+		case 'B': goto yy82;
+		case 'L': goto yy83;
+		case 'N': goto yy84;
+		case 'P': goto yy85;
+		case 'U': goto yy86;
+		default: goto yy38;
 	}
-yy28:
+yy30:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GENERIC_IDENTIFIER_UPPERCASE(santize_name(std::string(start, context_.cursor)), context_.location); }
-yy29:
+yy31:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy85;
-		case 'I': goto yy86;
-		case 'M': goto yy87;
-		case 'O': goto yy88;
-		case 'Y': goto yy89;
-		default: goto yy36;
+		case 'E': goto yy87;
+		case 'I': goto yy88;
+		case 'M': goto yy89;
+		case 'O': goto yy90;
+		case 'Y': goto yy91;
+		default: goto yy38;
 	}
-yy30:
+yy32:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'H': goto yy91;
-		case 'L': goto yy92;
-		case 'O': goto yy93;
-		default: goto yy36;
+		case 'H': goto yy93;
+		case 'L': goto yy94;
+		case 'O': goto yy95;
+		default: goto yy38;
 	}
-yy31:
+yy33:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy94;
-		case 'E': goto yy95;
-		case 'U': goto yy96;
-		default: goto yy36;
+		case 'A': goto yy96;
+		case 'E': goto yy97;
+		case 'U': goto yy98;
+		default: goto yy38;
 	}
-yy32:
+yy34:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'M': goto yy97;
-		case 'N': goto yy98;
-		case 'X': goto yy99;
-		default: goto yy36;
+		case 'M': goto yy99;
+		case 'N': goto yy100;
+		case 'X': goto yy101;
+		default: goto yy38;
 	}
-yy33:
+yy35:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy100;
-		case 'R': goto yy101;
-		default: goto yy36;
+		case 'A': goto yy102;
+		case 'R': goto yy103;
+		default: goto yy38;
 	}
-yy34:
+yy36:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy102;
-		case 'r': goto yy103;
-		default: goto yy36;
+		case 'e': goto yy104;
+		case 'r': goto yy105;
+		default: goto yy38;
 	}
-yy35:
+yy37:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
-yy36:
+yy38:
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -12425,126 +12441,126 @@ yy36:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy28;
-	}
-yy37:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'A': goto yy104;
-		case 'D': goto yy105;
-		case 'M': goto yy106;
-		case 'N': goto yy107;
-		case 'S': goto yy108;
-		default: goto yy36;
-	}
-yy38:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'A': goto yy109;
-		case 'I': goto yy110;
-		default: goto yy36;
+		case 'z': goto yy37;
+		default: goto yy30;
 	}
 yy39:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy111;
-		case 'U': goto yy112;
-		case 'u': goto yy113;
-		default: goto yy36;
+		case 'A': goto yy106;
+		case 'D': goto yy107;
+		case 'M': goto yy108;
+		case 'N': goto yy109;
+		case 'S': goto yy110;
+		default: goto yy38;
 	}
 yy40:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'B': goto yy114;
-		case 'C': goto yy115;
-		case 'F': goto yy116;
-		case 'I': goto yy118;
-		case 'P': goto yy119;
-		case 'b': goto yy120;
-		default: goto yy36;
+		case 'A': goto yy111;
+		case 'I': goto yy112;
+		default: goto yy38;
 	}
 yy41:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy121;
-		case 'D': goto yy122;
-		case 'L': goto yy123;
-		case 'R': goto yy124;
-		case 'r': goto yy125;
-		default: goto yy36;
+		case 'O': goto yy113;
+		case 'U': goto yy114;
+		case 'u': goto yy115;
+		default: goto yy38;
 	}
 yy42:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy126;
-		default: goto yy36;
+		case 'B': goto yy116;
+		case 'C': goto yy117;
+		case 'F': goto yy118;
+		case 'I': goto yy120;
+		case 'P': goto yy121;
+		case 'b': goto yy122;
+		default: goto yy38;
 	}
 yy43:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy127;
-		case 'I': goto yy128;
-		case 'T': goto yy129;
-		case 'Y': goto yy130;
-		default: goto yy36;
+		case 'A': goto yy123;
+		case 'D': goto yy124;
+		case 'L': goto yy125;
+		case 'R': goto yy126;
+		case 'r': goto yy127;
+		default: goto yy38;
 	}
 yy44:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '6': goto yy131;
-		case 'A': goto yy132;
-		case 'I': goto yy133;
-		case 'R': goto yy134;
-		case 'Y': goto yy135;
-		case 'e': goto yy136;
-		default: goto yy36;
+		case 'E': goto yy128;
+		default: goto yy38;
 	}
 yy45:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy137;
-		case 'T': goto yy138;
-		case 'n': goto yy139;
-		default: goto yy36;
+		case 'E': goto yy129;
+		case 'I': goto yy130;
+		case 'T': goto yy131;
+		case 'Y': goto yy132;
+		default: goto yy38;
 	}
 yy46:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy140;
-		default: goto yy36;
+		case '6': goto yy133;
+		case 'A': goto yy134;
+		case 'I': goto yy135;
+		case 'R': goto yy136;
+		case 'Y': goto yy137;
+		case 'e': goto yy138;
+		default: goto yy38;
 	}
 yy47:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy141;
-		default: goto yy36;
+		case 'N': goto yy139;
+		case 'T': goto yy140;
+		case 'n': goto yy141;
+		default: goto yy38;
 	}
 yy48:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'i': goto yy142;
+		default: goto yy38;
+	}
+yy49:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'I': goto yy143;
+		default: goto yy38;
+	}
+yy50:
 	++context_.cursor;
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OPEN_SQUARE_BRACKET (context_.location); }
-yy49:
+yy51:
 	++context_.cursor;
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CLOSE_SQUARE_BRACKET (context_.location); }
-yy50:
+yy52:
 	++context_.cursor;
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ACCENT (context_.location); }
-yy51:
+yy53:
 	yyaccept = 5;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy142;
+		case '-': goto yy144;
 		case '0':
 		case '1':
 		case '2':
@@ -12607,148 +12623,148 @@ yy51:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy51;
-		default: goto yy52;
+		case 'z': goto yy53;
+		default: goto yy54;
 	}
-yy52:
+yy54:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GENERIC_IDENTIFIER_LOWERCASE(santize_name(std::string(start, context_.cursor)), context_.location); }
-yy53:
+yy55:
 	++context_.cursor;
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OPEN_BRACE (context_.location); }
-yy54:
+yy56:
 	++context_.cursor;
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_VERTICAL_LINE (context_.location); }
-yy55:
+yy57:
 	++context_.cursor;
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CLOSE_BRACE (context_.location); }
-yy56:
+yy58:
 	yych = *++context_.cursor;
-yy57:
+yy59:
 	switch (yych) {
-		case 0x00: goto yy58;
-		case '"': goto yy59;
-		default: goto yy56;
+		case 0x00: goto yy60;
+		case '"': goto yy61;
+		default: goto yy58;
 	}
-yy58:
+yy60:
 	context_.cursor = YYMARKER;
 	switch (yyaccept) {
 		case 0: goto yy9;
-		case 1: goto yy3;
-		case 2: goto yy21;
-		case 3: goto yy23;
-		case 4: goto yy28;
-		case 5: goto yy52;
-		case 6: goto yy60;
-		case 7: goto yy62;
-		case 8: goto yy64;
-		case 9: goto yy76;
-		case 10: goto yy90;
-		case 11: goto yy117;
-		case 12: goto yy158;
-		case 13: goto yy160;
-		case 14: goto yy165;
-		case 15: goto yy179;
-		case 16: goto yy196;
-		case 17: goto yy198;
-		case 18: goto yy209;
-		case 19: goto yy218;
-		case 20: goto yy251;
-		case 21: goto yy264;
-		case 22: goto yy278;
-		case 23: goto yy291;
-		case 24: goto yy296;
-		case 25: goto yy301;
-		case 26: goto yy303;
-		case 27: goto yy305;
-		case 28: goto yy317;
-		case 29: goto yy323;
-		case 30: goto yy329;
-		case 31: goto yy346;
-		case 32: goto yy364;
-		case 33: goto yy383;
-		case 34: goto yy392;
-		case 35: goto yy400;
-		case 36: goto yy413;
-		case 37: goto yy435;
-		case 38: goto yy448;
-		case 39: goto yy450;
-		case 40: goto yy456;
-		case 41: goto yy468;
-		case 42: goto yy475;
-		case 43: goto yy480;
-		case 44: goto yy485;
-		case 45: goto yy494;
-		case 46: goto yy496;
-		case 47: goto yy501;
-		case 48: goto yy508;
-		case 49: goto yy512;
-		case 50: goto yy515;
-		case 51: goto yy517;
-		case 52: goto yy528;
-		case 53: goto yy544;
-		case 54: goto yy546;
-		case 55: goto yy550;
-		case 56: goto yy553;
-		case 57: goto yy560;
-		case 58: goto yy562;
-		case 59: goto yy564;
-		case 60: goto yy572;
-		case 61: goto yy578;
-		case 62: goto yy580;
-		case 63: goto yy593;
-		case 64: goto yy595;
-		case 65: goto yy597;
-		case 66: goto yy599;
-		case 67: goto yy603;
-		case 68: goto yy612;
-		case 69: goto yy625;
-		case 70: goto yy630;
-		case 71: goto yy638;
-		case 72: goto yy641;
-		case 73: goto yy645;
-		case 74: goto yy651;
-		case 75: goto yy666;
-		case 76: goto yy672;
-		case 77: goto yy674;
-		case 78: goto yy676;
-		case 79: goto yy693;
-		case 80: goto yy706;
-		case 81: goto yy708;
-		case 82: goto yy710;
-		case 83: goto yy713;
-		case 84: goto yy719;
-		case 85: goto yy728;
-		case 86: goto yy730;
-		case 87: goto yy733;
-		case 88: goto yy736;
-		case 89: goto yy739;
-		case 90: goto yy744;
-		case 91: goto yy748;
-		case 92: goto yy753;
-		case 93: goto yy760;
-		case 94: goto yy762;
-		case 95: goto yy765;
-		case 96: goto yy768;
-		case 97: goto yy771;
-		case 98: goto yy773;
-		case 99: goto yy775;
-		case 100: goto yy777;
-		default: goto yy779;
+		case 1: goto yy11;
+		case 2: goto yy23;
+		case 3: goto yy25;
+		case 4: goto yy30;
+		case 5: goto yy54;
+		case 6: goto yy62;
+		case 7: goto yy64;
+		case 8: goto yy66;
+		case 9: goto yy78;
+		case 10: goto yy92;
+		case 11: goto yy119;
+		case 12: goto yy160;
+		case 13: goto yy162;
+		case 14: goto yy167;
+		case 15: goto yy181;
+		case 16: goto yy198;
+		case 17: goto yy200;
+		case 18: goto yy211;
+		case 19: goto yy220;
+		case 20: goto yy253;
+		case 21: goto yy266;
+		case 22: goto yy280;
+		case 23: goto yy293;
+		case 24: goto yy298;
+		case 25: goto yy303;
+		case 26: goto yy305;
+		case 27: goto yy307;
+		case 28: goto yy319;
+		case 29: goto yy325;
+		case 30: goto yy331;
+		case 31: goto yy348;
+		case 32: goto yy366;
+		case 33: goto yy385;
+		case 34: goto yy394;
+		case 35: goto yy402;
+		case 36: goto yy415;
+		case 37: goto yy437;
+		case 38: goto yy450;
+		case 39: goto yy452;
+		case 40: goto yy458;
+		case 41: goto yy470;
+		case 42: goto yy477;
+		case 43: goto yy482;
+		case 44: goto yy487;
+		case 45: goto yy496;
+		case 46: goto yy498;
+		case 47: goto yy503;
+		case 48: goto yy510;
+		case 49: goto yy514;
+		case 50: goto yy517;
+		case 51: goto yy519;
+		case 52: goto yy530;
+		case 53: goto yy546;
+		case 54: goto yy548;
+		case 55: goto yy552;
+		case 56: goto yy555;
+		case 57: goto yy562;
+		case 58: goto yy564;
+		case 59: goto yy566;
+		case 60: goto yy574;
+		case 61: goto yy580;
+		case 62: goto yy582;
+		case 63: goto yy595;
+		case 64: goto yy597;
+		case 65: goto yy599;
+		case 66: goto yy601;
+		case 67: goto yy605;
+		case 68: goto yy614;
+		case 69: goto yy627;
+		case 70: goto yy632;
+		case 71: goto yy640;
+		case 72: goto yy643;
+		case 73: goto yy647;
+		case 74: goto yy653;
+		case 75: goto yy668;
+		case 76: goto yy674;
+		case 77: goto yy676;
+		case 78: goto yy678;
+		case 79: goto yy695;
+		case 80: goto yy708;
+		case 81: goto yy710;
+		case 82: goto yy712;
+		case 83: goto yy715;
+		case 84: goto yy721;
+		case 85: goto yy730;
+		case 86: goto yy732;
+		case 87: goto yy735;
+		case 88: goto yy738;
+		case 89: goto yy741;
+		case 90: goto yy746;
+		case 91: goto yy750;
+		case 92: goto yy755;
+		case 93: goto yy762;
+		case 94: goto yy764;
+		case 95: goto yy767;
+		case 96: goto yy770;
+		case 97: goto yy773;
+		case 98: goto yy775;
+		case 99: goto yy777;
+		case 100: goto yy779;
+		default: goto yy781;
 	}
-yy59:
+yy61:
 	yyaccept = 6;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '"': goto yy56;
-		default: goto yy60;
+		case '"': goto yy58;
+		default: goto yy62;
 	}
-yy60:
+yy62:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_cstring(std::string(start, context_.cursor), context_.location); }
-yy61:
+yy63:
 	yyaccept = 7;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy143;
+		case '-': goto yy145;
 		case '0':
 		case '1':
 		case '2':
@@ -12811,16 +12827,16 @@ yy61:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy61;
-		default: goto yy62;
+		case 'z': goto yy63;
+		default: goto yy64;
 	}
-yy62:
+yy64:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_typefieldreference(santize_name(std::string(start, context_.cursor)), context_.location); }
-yy63:
+yy65:
 	yyaccept = 8;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy144;
+		case '-': goto yy146;
 		case '0':
 		case '1':
 		case '2':
@@ -12883,25 +12899,25 @@ yy63:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy63;
-		default: goto yy64;
+		case 'z': goto yy65;
+		default: goto yy66;
 	}
-yy64:
+yy66:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_valuefieldreference(santize_name(std::string(start, context_.cursor)), context_.location); }
-yy65:
+yy67:
 	yych = *++context_.cursor;
 	switch (yych) {
-		case 'B': goto yy145;
-		case 'H': goto yy146;
-		default: goto yy58;
+		case 'B': goto yy147;
+		case 'H': goto yy148;
+		default: goto yy60;
 	}
-yy66:
+yy68:
 	yych = *++context_.cursor;
-yy67:
+yy69:
 	switch (yych) {
-		case '\'': goto yy65;
+		case '\'': goto yy67;
 		case '0':
-		case '1': goto yy66;
+		case '1': goto yy68;
 		case '2':
 		case '3':
 		case '4':
@@ -12921,13 +12937,13 @@ yy67:
 		case 'c':
 		case 'd':
 		case 'e':
-		case 'f': goto yy68;
-		default: goto yy58;
+		case 'f': goto yy70;
+		default: goto yy60;
 	}
-yy68:
+yy70:
 	yych = *++context_.cursor;
 	switch (yych) {
-		case '\'': goto yy147;
+		case '\'': goto yy149;
 		case '0':
 		case '1':
 		case '2':
@@ -12949,21 +12965,21 @@ yy68:
 		case 'c':
 		case 'd':
 		case 'e':
-		case 'f': goto yy68;
-		default: goto yy58;
+		case 'f': goto yy70;
+		default: goto yy60;
 	}
-yy69:
+yy71:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case 0x00:
 		case '\n':
-		case '\r': goto yy70;
-		case '-': goto yy148;
-		default: goto yy69;
+		case '\r': goto yy72;
+		case '-': goto yy150;
+		default: goto yy71;
 	}
-yy70:
+yy72:
 	{ context_.location.columns(context_.cursor - start); continue; }
-yy71:
+yy73:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -12975,26 +12991,26 @@ yy71:
 		case '6':
 		case '7':
 		case '8':
-		case '9': goto yy71;
-		default: goto yy72;
+		case '9': goto yy73;
+		default: goto yy74;
 	}
-yy72:
+yy74:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_negativenumber(std::stoll(std::string(start, context_.cursor)), context_.location); }
-yy73:
+yy75:
 	yych = *++context_.cursor;
 	switch (yych) {
-		case '.': goto yy149;
-		default: goto yy74;
+		case '.': goto yy151;
+		default: goto yy76;
 	}
-yy74:
+yy76:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_RANGE (context_.location); }
-yy75:
+yy77:
 	yyaccept = 9;
 	yych = *(YYMARKER = ++context_.cursor);
-	if (yych >= 0x01) goto yy151;
-yy76:
+	if (yych >= 0x01) goto yy153;
+yy78:
 	{ throw asn1_parser::syntax_error(context_.location, "syntax error, comment without end"); }
-yy77:
+yy79:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -13006,16 +13022,16 @@ yy77:
 		case '6':
 		case '7':
 		case '8':
-		case '9': goto yy153;
-		default: goto yy58;
+		case '9': goto yy155;
+		default: goto yy60;
 	}
-yy78:
+yy80:
 	yych = *++context_.cursor;
 	switch (yych) {
-		case '=': goto yy155;
-		default: goto yy58;
+		case '=': goto yy157;
+		default: goto yy60;
 	}
-yy79:
+yy81:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -13080,77 +13096,77 @@ yy79:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy58;
-	}
-yy80:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'S': goto yy156;
-		default: goto yy36;
-	}
-yy81:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'L': goto yy157;
-		default: goto yy36;
+		case 'z': goto yy37;
+		default: goto yy60;
 	}
 yy82:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'Y': goto yy159;
-		default: goto yy36;
+		case 'S': goto yy158;
+		default: goto yy38;
 	}
 yy83:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'P': goto yy161;
-		default: goto yy36;
+		case 'L': goto yy159;
+		default: goto yy38;
 	}
 yy84:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy162;
-		default: goto yy36;
+		case 'Y': goto yy161;
+		default: goto yy38;
 	}
 yy85:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'G': goto yy163;
-		default: goto yy36;
+		case 'P': goto yy163;
+		default: goto yy38;
 	}
 yy86:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
 		case 'T': goto yy164;
-		default: goto yy36;
+		default: goto yy38;
 	}
 yy87:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'P': goto yy166;
-		default: goto yy36;
+		case 'G': goto yy165;
+		default: goto yy38;
 	}
 yy88:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy167;
-		default: goto yy36;
+		case 'T': goto yy166;
+		default: goto yy38;
 	}
 yy89:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'P': goto yy168;
+		default: goto yy38;
+	}
+yy90:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'O': goto yy169;
+		default: goto yy38;
+	}
+yy91:
 	yyaccept = 10;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -13213,199 +13229,199 @@ yy89:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy90;
-	}
-yy90:
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BY (context_.location); }
-yy91:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'A': goto yy168;
-		case 'O': goto yy169;
-		default: goto yy36;
+		case 'z': goto yy37;
+		default: goto yy92;
 	}
 yy92:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'A': goto yy170;
-		default: goto yy36;
-	}
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BY (context_.location); }
 yy93:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'M': goto yy171;
-		case 'N': goto yy172;
-		default: goto yy36;
+		case 'A': goto yy170;
+		case 'O': goto yy171;
+		default: goto yy38;
 	}
 yy94:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy173;
-		default: goto yy36;
+		case 'A': goto yy172;
+		default: goto yy38;
 	}
 yy95:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'F': goto yy174;
-		default: goto yy36;
+		case 'M': goto yy173;
+		case 'N': goto yy174;
+		default: goto yy38;
 	}
 yy96:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy175;
-		default: goto yy36;
+		case 'T': goto yy175;
+		default: goto yy38;
 	}
 yy97:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'B': goto yy176;
-		default: goto yy36;
+		case 'F': goto yy176;
+		default: goto yy38;
 	}
 yy98:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy177;
-		case 'D': goto yy178;
-		case 'U': goto yy180;
-		default: goto yy36;
+		case 'R': goto yy177;
+		default: goto yy38;
 	}
 yy99:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy181;
-		case 'P': goto yy182;
-		case 'T': goto yy183;
-		default: goto yy36;
+		case 'B': goto yy178;
+		default: goto yy38;
 	}
 yy100:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy184;
-		default: goto yy36;
+		case 'C': goto yy179;
+		case 'D': goto yy180;
+		case 'U': goto yy182;
+		default: goto yy38;
 	}
 yy101:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy185;
-		default: goto yy36;
+		case 'C': goto yy183;
+		case 'P': goto yy184;
+		case 'T': goto yy185;
+		default: goto yy38;
 	}
 yy102:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy186;
-		default: goto yy36;
+		case 'L': goto yy186;
+		default: goto yy38;
 	}
 yy103:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'a': goto yy187;
-		default: goto yy36;
+		case 'O': goto yy187;
+		default: goto yy38;
 	}
 yy104:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '5': goto yy188;
-		default: goto yy36;
+		case 'n': goto yy188;
+		default: goto yy38;
 	}
 yy105:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy189;
-		default: goto yy36;
+		case 'a': goto yy189;
+		default: goto yy38;
 	}
 yy106:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'P': goto yy190;
-		default: goto yy36;
+		case '5': goto yy190;
+		default: goto yy38;
 	}
 yy107:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy191;
-		case 'S': goto yy192;
-		case 'T': goto yy193;
-		default: goto yy36;
+		case 'E': goto yy191;
+		default: goto yy38;
 	}
 yy108:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy194;
-		default: goto yy36;
+		case 'P': goto yy192;
+		default: goto yy38;
 	}
 yy109:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'X': goto yy195;
-		default: goto yy36;
+		case 'C': goto yy193;
+		case 'S': goto yy194;
+		case 'T': goto yy195;
+		default: goto yy38;
 	}
 yy110:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy197;
-		default: goto yy36;
+		case 'O': goto yy196;
+		default: goto yy38;
 	}
 yy111:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy199;
-		default: goto yy36;
+		case 'X': goto yy197;
+		default: goto yy38;
 	}
 yy112:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy200;
-		default: goto yy36;
+		case 'N': goto yy199;
+		default: goto yy38;
 	}
 yy113:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'm': goto yy201;
-		default: goto yy36;
+		case 'T': goto yy201;
+		default: goto yy38;
 	}
 yy114:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'J': goto yy202;
-		default: goto yy36;
+		case 'L': goto yy202;
+		default: goto yy38;
 	}
 yy115:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy203;
-		default: goto yy36;
+		case 'm': goto yy203;
+		default: goto yy38;
 	}
 yy116:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'J': goto yy204;
+		default: goto yy38;
+	}
+yy117:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'T': goto yy205;
+		default: goto yy38;
+	}
+yy118:
 	yyaccept = 11;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -13468,185 +13484,185 @@ yy116:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy117;
-	}
-yy117:
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OF (context_.location); }
-yy118:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'D': goto yy204;
-		default: goto yy36;
+		case 'z': goto yy37;
+		default: goto yy119;
 	}
 yy119:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'T': goto yy205;
-		default: goto yy36;
-	}
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OF (context_.location); }
 yy120:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'j': goto yy206;
-		default: goto yy36;
+		case 'D': goto yy206;
+		default: goto yy38;
 	}
 yy121:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
 		case 'T': goto yy207;
-		default: goto yy36;
+		default: goto yy38;
 	}
 yy122:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'V': goto yy208;
-		default: goto yy36;
+		case 'j': goto yy208;
+		default: goto yy38;
 	}
 yy123:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'U': goto yy210;
-		default: goto yy36;
+		case 'T': goto yy209;
+		default: goto yy38;
 	}
 yy124:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy211;
-		case 'I': goto yy212;
-		default: goto yy36;
+		case 'V': goto yy210;
+		default: goto yy38;
 	}
 yy125:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy213;
-		default: goto yy36;
+		case 'U': goto yy212;
+		default: goto yy38;
 	}
 yy126:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy214;
-		case 'L': goto yy215;
-		default: goto yy36;
+		case 'E': goto yy213;
+		case 'I': goto yy214;
+		default: goto yy38;
 	}
 yy127:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'Q': goto yy216;
-		case 'T': goto yy217;
-		default: goto yy36;
+		case 'i': goto yy215;
+		default: goto yy38;
 	}
 yy128:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'Z': goto yy219;
-		default: goto yy36;
+		case 'A': goto yy216;
+		case 'L': goto yy217;
+		default: goto yy38;
 	}
 yy129:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy220;
-		default: goto yy36;
+		case 'Q': goto yy218;
+		case 'T': goto yy219;
+		default: goto yy38;
 	}
 yy130:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy221;
-		default: goto yy36;
+		case 'Z': goto yy221;
+		default: goto yy38;
 	}
 yy131:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '1': goto yy222;
-		default: goto yy36;
+		case 'R': goto yy222;
+		default: goto yy38;
 	}
 yy132:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'G': goto yy223;
-		default: goto yy36;
+		case 'N': goto yy223;
+		default: goto yy38;
 	}
 yy133:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'M': goto yy224;
-		default: goto yy36;
+		case '1': goto yy224;
+		default: goto yy38;
 	}
 yy134:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'U': goto yy225;
-		default: goto yy36;
+		case 'G': goto yy225;
+		default: goto yy38;
 	}
 yy135:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'P': goto yy226;
-		default: goto yy36;
+		case 'M': goto yy226;
+		default: goto yy38;
 	}
 yy136:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'l': goto yy227;
-		default: goto yy36;
+		case 'U': goto yy227;
+		default: goto yy38;
 	}
 yy137:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy228;
-		default: goto yy36;
+		case 'P': goto yy228;
+		default: goto yy38;
 	}
 yy138:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy229;
-		case 'F': goto yy230;
-		default: goto yy36;
+		case 'l': goto yy229;
+		default: goto yy38;
 	}
 yy139:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy231;
-		default: goto yy36;
+		case 'I': goto yy230;
+		default: goto yy38;
 	}
 yy140:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'd': goto yy232;
-		case 's': goto yy233;
-		default: goto yy36;
+		case 'C': goto yy231;
+		case 'F': goto yy232;
+		default: goto yy38;
 	}
 yy141:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy234;
-		default: goto yy36;
+		case 'i': goto yy233;
+		default: goto yy38;
 	}
 yy142:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'd': goto yy234;
+		case 's': goto yy235;
+		default: goto yy38;
+	}
+yy143:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'T': goto yy236;
+		default: goto yy38;
+	}
+yy144:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -13711,10 +13727,10 @@ yy142:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy51;
-		default: goto yy58;
+		case 'z': goto yy53;
+		default: goto yy60;
 	}
-yy143:
+yy145:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -13779,10 +13795,10 @@ yy143:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy61;
-		default: goto yy58;
+		case 'z': goto yy63;
+		default: goto yy60;
 	}
-yy144:
+yy146:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -13847,50 +13863,50 @@ yy144:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy63;
-		default: goto yy58;
+		case 'z': goto yy65;
+		default: goto yy60;
 	}
-yy145:
+yy147:
 	++context_.cursor;
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_bstring(std::string(start + 1, context_.cursor - 2), context_.location); }
-yy146:
+yy148:
 	++context_.cursor;
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_hstring(std::string(start + 1, context_.cursor - 2), context_.location); }
-yy147:
+yy149:
 	yych = *++context_.cursor;
 	switch (yych) {
-		case 'H': goto yy146;
-		default: goto yy58;
+		case 'H': goto yy148;
+		default: goto yy60;
 	}
-yy148:
+yy150:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case 0x00:
 		case '\n':
-		case '\r': goto yy70;
-		case '-': goto yy235;
-		default: goto yy69;
+		case '\r': goto yy72;
+		case '-': goto yy237;
+		default: goto yy71;
 	}
-yy149:
+yy151:
 	++context_.cursor;
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ELIPSIS (context_.location); }
-yy150:
+yy152:
 	yych = *++context_.cursor;
-yy151:
+yy153:
 	switch (yych) {
-		case 0x00: goto yy58;
-		case '*': goto yy152;
-		default: goto yy150;
+		case 0x00: goto yy60;
+		case '*': goto yy154;
+		default: goto yy152;
 	}
-yy152:
+yy154:
 	yych = *++context_.cursor;
 	switch (yych) {
-		case 0x00: goto yy58;
-		case '*': goto yy152;
-		case '/': goto yy236;
-		default: goto yy150;
+		case 0x00: goto yy60;
+		case '*': goto yy154;
+		case '/': goto yy238;
+		default: goto yy152;
 	}
-yy153:
+yy155:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -13902,27 +13918,27 @@ yy153:
 		case '6':
 		case '7':
 		case '8':
-		case '9': goto yy153;
-		default: goto yy154;
+		case '9': goto yy155;
+		default: goto yy156;
 	}
-yy154:
+yy156:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_realnumber(std::stod(std::string(start, context_.cursor)), context_.location); }
-yy155:
+yy157:
 	++context_.cursor;
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DEFINED_AS (context_.location); }
-yy156:
+yy158:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy237;
-		case 'T': goto yy238;
-		default: goto yy36;
+		case 'E': goto yy239;
+		case 'T': goto yy240;
+		default: goto yy38;
 	}
-yy157:
+yy159:
 	yyaccept = 12;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -13985,16 +14001,16 @@ yy157:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy158;
+		case 'z': goto yy37;
+		default: goto yy160;
 	}
-yy158:
+yy160:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ALL (context_.location); }
-yy159:
+yy161:
 	yyaccept = 13;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -14057,37 +14073,37 @@ yy159:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy160;
+		case 'z': goto yy37;
+		default: goto yy162;
 	}
-yy160:
+yy162:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ANY (context_.location); }
-yy161:
+yy163:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy239;
-		default: goto yy36;
+		case 'L': goto yy241;
+		default: goto yy38;
 	}
-yy162:
+yy164:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy240;
-		default: goto yy36;
+		case 'O': goto yy242;
+		default: goto yy38;
 	}
-yy163:
+yy165:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy241;
-		default: goto yy36;
+		case 'I': goto yy243;
+		default: goto yy38;
 	}
-yy164:
+yy166:
 	yyaccept = 14;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -14150,102 +14166,102 @@ yy164:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy165;
-	}
-yy165:
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BIT (context_.location); }
-yy166:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'S': goto yy242;
-		default: goto yy36;
+		case 'z': goto yy37;
+		default: goto yy167;
 	}
 yy167:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'L': goto yy243;
-		default: goto yy36;
-	}
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BIT (context_.location); }
 yy168:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy244;
-		default: goto yy36;
+		case 'S': goto yy244;
+		default: goto yy38;
 	}
 yy169:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy245;
-		default: goto yy36;
+		case 'L': goto yy245;
+		default: goto yy38;
 	}
 yy170:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy246;
-		default: goto yy36;
+		case 'R': goto yy246;
+		default: goto yy38;
 	}
 yy171:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'P': goto yy247;
-		default: goto yy36;
+		case 'I': goto yy247;
+		default: goto yy38;
 	}
 yy172:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
 		case 'S': goto yy248;
-		case 'T': goto yy249;
-		default: goto yy36;
+		default: goto yy38;
 	}
 yy173:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy250;
-		default: goto yy36;
+		case 'P': goto yy249;
+		default: goto yy38;
 	}
 yy174:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy252;
-		case 'I': goto yy253;
-		default: goto yy36;
+		case 'S': goto yy250;
+		case 'T': goto yy251;
+		default: goto yy38;
 	}
 yy175:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy254;
-		default: goto yy36;
+		case 'E': goto yy252;
+		default: goto yy38;
 	}
 yy176:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy255;
-		default: goto yy36;
+		case 'A': goto yy254;
+		case 'I': goto yy255;
+		default: goto yy38;
 	}
 yy177:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy256;
-		default: goto yy36;
+		case 'A': goto yy256;
+		default: goto yy38;
 	}
 yy178:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'E': goto yy257;
+		default: goto yy38;
+	}
+yy179:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'O': goto yy258;
+		default: goto yy38;
+	}
+yy180:
 	yyaccept = 15;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -14308,123 +14324,123 @@ yy178:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy179;
-	}
-yy179:
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_END (context_.location); }
-yy180:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'M': goto yy257;
-		default: goto yy36;
+		case 'z': goto yy37;
+		default: goto yy181;
 	}
 yy181:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'E': goto yy258;
-		default: goto yy36;
-	}
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_END (context_.location); }
 yy182:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy259;
-		case 'O': goto yy260;
-		default: goto yy36;
+		case 'M': goto yy259;
+		default: goto yy38;
 	}
 yy183:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy261;
-		default: goto yy36;
+		case 'E': goto yy260;
+		default: goto yy38;
 	}
 yy184:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy262;
-		default: goto yy36;
+		case 'L': goto yy261;
+		case 'O': goto yy262;
+		default: goto yy38;
 	}
 yy185:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'M': goto yy263;
-		default: goto yy36;
+		case 'E': goto yy263;
+		default: goto yy38;
 	}
 yy186:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy265;
-		default: goto yy36;
+		case 'S': goto yy264;
+		default: goto yy38;
 	}
 yy187:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'p': goto yy266;
-		default: goto yy36;
+		case 'M': goto yy265;
+		default: goto yy38;
 	}
 yy188:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy267;
-		default: goto yy36;
+		case 'e': goto yy267;
+		default: goto yy38;
 	}
 yy189:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy268;
-		default: goto yy36;
+		case 'p': goto yy268;
+		default: goto yy38;
 	}
 yy190:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy269;
-		case 'O': goto yy270;
-		default: goto yy36;
+		case 'S': goto yy269;
+		default: goto yy38;
 	}
 yy191:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy271;
-		default: goto yy36;
+		case 'N': goto yy270;
+		default: goto yy38;
 	}
 yy192:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy272;
-		default: goto yy36;
+		case 'L': goto yy271;
+		case 'O': goto yy272;
+		default: goto yy38;
 	}
 yy193:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy273;
-		default: goto yy36;
+		case 'L': goto yy273;
+		default: goto yy38;
 	}
 yy194:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '6': goto yy274;
-		default: goto yy36;
+		case 'T': goto yy274;
+		default: goto yy38;
 	}
 yy195:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'E': goto yy275;
+		default: goto yy38;
+	}
+yy196:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case '6': goto yy276;
+		default: goto yy38;
+	}
+yy197:
 	yyaccept = 16;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -14487,16 +14503,16 @@ yy195:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy196;
+		case 'z': goto yy37;
+		default: goto yy198;
 	}
-yy196:
+yy198:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_MAX (context_.location); }
-yy197:
+yy199:
 	yyaccept = 17;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -14558,80 +14574,80 @@ yy197:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		case 'U': goto yy275;
-		default: goto yy198;
-	}
-yy198:
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_MIN (context_.location); }
-yy199:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case '-': goto yy276;
-		default: goto yy36;
+		case 'z': goto yy37;
+		case 'U': goto yy277;
+		default: goto yy200;
 	}
 yy200:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'L': goto yy277;
-		default: goto yy36;
-	}
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_MIN (context_.location); }
 yy201:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy279;
-		default: goto yy36;
+		case '-': goto yy278;
+		default: goto yy38;
 	}
 yy202:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy280;
-		default: goto yy36;
+		case 'L': goto yy279;
+		default: goto yy38;
 	}
 yy203:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy281;
-		default: goto yy36;
+		case 'e': goto yy281;
+		default: goto yy38;
 	}
 yy204:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '_': goto yy282;
-		default: goto yy36;
+		case 'E': goto yy282;
+		default: goto yy38;
 	}
 yy205:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy283;
-		default: goto yy36;
+		case 'E': goto yy283;
+		default: goto yy38;
 	}
 yy206:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy284;
-		default: goto yy36;
+		case '_': goto yy284;
+		default: goto yy38;
 	}
 yy207:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy285;
-		default: goto yy36;
+		case 'I': goto yy285;
+		default: goto yy38;
 	}
 yy208:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'e': goto yy286;
+		default: goto yy38;
+	}
+yy209:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'T': goto yy287;
+		default: goto yy38;
+	}
+yy210:
 	yyaccept = 18;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -14694,65 +14710,65 @@ yy208:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy209;
+		case 'z': goto yy37;
+		default: goto yy211;
 	}
-yy209:
+yy211:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PDV (context_.location); }
-yy210:
+yy212:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy286;
-		default: goto yy36;
+		case 'S': goto yy288;
+		default: goto yy38;
 	}
-yy211:
+yy213:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy287;
-		default: goto yy36;
+		case 'S': goto yy289;
+		default: goto yy38;
 	}
-yy212:
+yy214:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'V': goto yy288;
-		default: goto yy36;
+		case 'V': goto yy290;
+		default: goto yy38;
 	}
-yy213:
+yy215:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy289;
-		default: goto yy36;
+		case 'n': goto yy291;
+		default: goto yy38;
 	}
-yy214:
+yy216:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy290;
-		default: goto yy36;
+		case 'L': goto yy292;
+		default: goto yy38;
 	}
-yy215:
+yy217:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy292;
-		default: goto yy36;
+		case 'A': goto yy294;
+		default: goto yy38;
 	}
-yy216:
+yy218:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'U': goto yy293;
-		default: goto yy36;
+		case 'U': goto yy295;
+		default: goto yy38;
 	}
-yy217:
+yy219:
 	yyaccept = 19;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -14814,228 +14830,228 @@ yy217:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		case 'T': goto yy294;
-		default: goto yy218;
-	}
-yy218:
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SET (context_.location); }
-yy219:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'E': goto yy295;
-		default: goto yy36;
+		case 'z': goto yy37;
+		case 'T': goto yy296;
+		default: goto yy220;
 	}
 yy220:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'I': goto yy297;
-		default: goto yy36;
-	}
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SET (context_.location); }
 yy221:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy298;
-		default: goto yy36;
+		case 'E': goto yy297;
+		default: goto yy38;
 	}
 yy222:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy299;
-		default: goto yy36;
+		case 'I': goto yy299;
+		default: goto yy38;
 	}
 yy223:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy300;
-		default: goto yy36;
+		case 'T': goto yy300;
+		default: goto yy38;
 	}
 yy224:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy302;
-		default: goto yy36;
+		case 'S': goto yy301;
+		default: goto yy38;
 	}
 yy225:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy304;
-		default: goto yy36;
+		case 'S': goto yy302;
+		default: goto yy38;
 	}
 yy226:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy306;
-		default: goto yy36;
+		case 'E': goto yy304;
+		default: goto yy38;
 	}
 yy227:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy307;
-		default: goto yy36;
+		case 'E': goto yy306;
+		default: goto yy38;
 	}
 yy228:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy308;
-		case 'Q': goto yy309;
-		case 'V': goto yy310;
-		default: goto yy36;
+		case 'E': goto yy308;
+		default: goto yy38;
 	}
 yy229:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy311;
-		default: goto yy36;
+		case 'e': goto yy309;
+		default: goto yy38;
 	}
 yy230:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '8': goto yy312;
-		default: goto yy36;
+		case 'O': goto yy310;
+		case 'Q': goto yy311;
+		case 'V': goto yy312;
+		default: goto yy38;
 	}
 yy231:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'v': goto yy313;
-		default: goto yy36;
+		case 'T': goto yy313;
+		default: goto yy38;
 	}
 yy232:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy314;
-		default: goto yy36;
+		case '8': goto yy314;
+		default: goto yy38;
 	}
 yy233:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy315;
-		default: goto yy36;
+		case 'v': goto yy315;
+		default: goto yy38;
 	}
 yy234:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'H': goto yy316;
-		default: goto yy36;
+		case 'e': goto yy316;
+		default: goto yy38;
 	}
 yy235:
-	++context_.cursor;
-	{ context_.location.columns(context_.cursor - start); continue; }
-yy236:
-	++context_.cursor;
-	{ for (char c: std::string(start, context_.cursor)) { context_.location.columns(); if (c == '\n') context_.location.lines(); } continue; }
-yy237:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy318;
-		default: goto yy36;
+		case 'i': goto yy317;
+		default: goto yy38;
 	}
-yy238:
+yy236:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy319;
-		default: goto yy36;
+		case 'H': goto yy318;
+		default: goto yy38;
 	}
+yy237:
+	++context_.cursor;
+	{ context_.location.columns(context_.cursor - start); continue; }
+yy238:
+	++context_.cursor;
+	{ for (char c: std::string(start, context_.cursor)) { context_.location.columns(); if (c == '\n') context_.location.lines(); } continue; }
 yy239:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy320;
-		default: goto yy36;
+		case 'N': goto yy320;
+		default: goto yy38;
 	}
 yy240:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'M': goto yy321;
-		default: goto yy36;
+		case 'R': goto yy321;
+		default: goto yy38;
 	}
 yy241:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy322;
-		default: goto yy36;
+		case 'I': goto yy322;
+		default: goto yy38;
 	}
 yy242:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy324;
-		default: goto yy36;
+		case 'M': goto yy323;
+		default: goto yy38;
 	}
 yy243:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy325;
-		default: goto yy36;
+		case 'N': goto yy324;
+		default: goto yy38;
 	}
 yy244:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy326;
-		default: goto yy36;
+		case 't': goto yy326;
+		default: goto yy38;
 	}
 yy245:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy327;
-		default: goto yy36;
+		case 'E': goto yy327;
+		default: goto yy38;
 	}
 yy246:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy328;
-		default: goto yy36;
+		case 'A': goto yy328;
+		default: goto yy38;
 	}
 yy247:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy330;
-		default: goto yy36;
+		case 'C': goto yy329;
+		default: goto yy38;
 	}
 yy248:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy331;
-		default: goto yy36;
+		case 'S': goto yy330;
+		default: goto yy38;
 	}
 yy249:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy332;
-		default: goto yy36;
+		case 'O': goto yy332;
+		default: goto yy38;
 	}
 yy250:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'T': goto yy333;
+		default: goto yy38;
+	}
+yy251:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'A': goto yy334;
+		default: goto yy38;
+	}
+yy252:
 	yyaccept = 20;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy333;
+		case '-': goto yy335;
 		case '0':
 		case '1':
 		case '2':
@@ -15098,94 +15114,94 @@ yy250:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy251;
-	}
-yy251:
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DATE (context_.location); }
-yy252:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'U': goto yy334;
-		default: goto yy36;
+		case 'z': goto yy37;
+		default: goto yy253;
 	}
 yy253:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'N': goto yy335;
-		default: goto yy36;
-	}
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DATE (context_.location); }
 yy254:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy336;
-		default: goto yy36;
+		case 'U': goto yy336;
+		default: goto yy38;
 	}
 yy255:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'D': goto yy337;
-		default: goto yy36;
+		case 'N': goto yy337;
+		default: goto yy38;
 	}
 yy256:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'D': goto yy338;
-		default: goto yy36;
+		case 'T': goto yy338;
+		default: goto yy38;
 	}
 yy257:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy339;
-		default: goto yy36;
+		case 'D': goto yy339;
+		default: goto yy38;
 	}
 yy258:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'P': goto yy340;
-		default: goto yy36;
+		case 'D': goto yy340;
+		default: goto yy38;
 	}
 yy259:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy341;
-		default: goto yy36;
+		case 'E': goto yy341;
+		default: goto yy38;
 	}
 yy260:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy342;
-		default: goto yy36;
+		case 'P': goto yy342;
+		default: goto yy38;
 	}
 yy261:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy343;
-		case 'R': goto yy344;
-		default: goto yy36;
+		case 'I': goto yy343;
+		default: goto yy38;
 	}
 yy262:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy345;
-		default: goto yy36;
+		case 'R': goto yy344;
+		default: goto yy38;
+	}
+yy263:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'N': goto yy345;
+		case 'R': goto yy346;
+		default: goto yy38;
+	}
+yy264:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'E': goto yy347;
+		default: goto yy38;
 	}
-yy263:
+yy265:
 	yyaccept = 21;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -15248,91 +15264,91 @@ yy263:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy264;
-	}
-yy264:
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_FROM (context_.location); }
-yy265:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'r': goto yy347;
-		default: goto yy36;
+		case 'z': goto yy37;
+		default: goto yy266;
 	}
 yy266:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'h': goto yy348;
-		default: goto yy36;
-	}
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_FROM (context_.location); }
 yy267:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy349;
-		default: goto yy36;
+		case 'r': goto yy349;
+		default: goto yy38;
 	}
 yy268:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy350;
-		default: goto yy36;
+		case 'h': goto yy350;
+		default: goto yy38;
 	}
 yy269:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy351;
-		default: goto yy36;
+		case 't': goto yy351;
+		default: goto yy38;
 	}
 yy270:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy352;
-		default: goto yy36;
+		case 'T': goto yy352;
+		default: goto yy38;
 	}
 yy271:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'U': goto yy353;
-		default: goto yy36;
+		case 'I': goto yy353;
+		default: goto yy38;
 	}
 yy272:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy354;
-		case 'R': goto yy355;
-		default: goto yy36;
+		case 'R': goto yy354;
+		default: goto yy38;
 	}
 yy273:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'G': goto yy356;
-		case 'R': goto yy357;
-		default: goto yy36;
+		case 'U': goto yy355;
+		default: goto yy38;
 	}
 yy274:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '4': goto yy358;
-		default: goto yy36;
+		case 'A': goto yy356;
+		case 'R': goto yy357;
+		default: goto yy38;
 	}
 yy275:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy359;
-		default: goto yy36;
+		case 'G': goto yy358;
+		case 'R': goto yy359;
+		default: goto yy38;
 	}
 yy276:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case '4': goto yy360;
+		default: goto yy38;
+	}
+yy277:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'S': goto yy361;
+		default: goto yy38;
+	}
+yy278:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -15396,15 +15412,15 @@ yy276:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		case 'A': goto yy360;
-		default: goto yy58;
+		case 'z': goto yy37;
+		case 'A': goto yy362;
+		default: goto yy60;
 	}
-yy277:
+yy279:
 	yyaccept = 22;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -15467,93 +15483,93 @@ yy277:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy278;
-	}
-yy278:
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ASN_NULL (context_.location); }
-yy279:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'r': goto yy361;
-		default: goto yy36;
+		case 'z': goto yy37;
+		default: goto yy280;
 	}
 yy280:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'C': goto yy362;
-		default: goto yy36;
-	}
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ASN_NULL (context_.location); }
 yy281:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy363;
-		default: goto yy36;
+		case 'r': goto yy363;
+		default: goto yy38;
 	}
 yy282:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy365;
-		default: goto yy36;
+		case 'C': goto yy364;
+		default: goto yy38;
 	}
 yy283:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy366;
-		default: goto yy36;
+		case 'T': goto yy365;
+		default: goto yy38;
 	}
 yy284:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'c': goto yy367;
-		default: goto yy36;
+		case 'I': goto yy367;
+		default: goto yy38;
 	}
 yy285:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy368;
-		default: goto yy36;
+		case 'O': goto yy368;
+		default: goto yy38;
 	}
 yy286:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '_': goto yy369;
-		default: goto yy36;
+		case 'c': goto yy369;
+		default: goto yy38;
 	}
 yy287:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
 		case 'E': goto yy370;
-		default: goto yy36;
+		default: goto yy38;
 	}
 yy288:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy371;
-		default: goto yy36;
+		case '_': goto yy371;
+		default: goto yy38;
 	}
 yy289:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy372;
-		default: goto yy36;
+		case 'E': goto yy372;
+		default: goto yy38;
 	}
 yy290:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'A': goto yy373;
+		default: goto yy38;
+	}
+yy291:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 't': goto yy374;
+		default: goto yy38;
+	}
+yy292:
 	yyaccept = 23;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -15616,37 +15632,37 @@ yy290:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy291;
+		case 'z': goto yy37;
+		default: goto yy293;
 	}
-yy291:
+yy293:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_REAL (context_.location); }
-yy292:
+yy294:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy373;
-		default: goto yy36;
+		case 'T': goto yy375;
+		default: goto yy38;
 	}
-yy293:
+yy295:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy374;
-		default: goto yy36;
+		case 'E': goto yy376;
+		default: goto yy38;
 	}
-yy294:
+yy296:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy375;
-		default: goto yy36;
+		case 'I': goto yy377;
+		default: goto yy38;
 	}
-yy295:
+yy297:
 	yyaccept = 24;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -15709,37 +15725,37 @@ yy295:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy296;
+		case 'z': goto yy37;
+		default: goto yy298;
 	}
-yy296:
+yy298:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SIZE (context_.location); }
-yy297:
+yy299:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy376;
-		default: goto yy36;
+		case 'N': goto yy378;
+		default: goto yy38;
 	}
-yy298:
+yy300:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy377;
-		default: goto yy36;
+		case 'A': goto yy379;
+		default: goto yy38;
 	}
-yy299:
+yy301:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy378;
-		default: goto yy36;
+		case 't': goto yy380;
+		default: goto yy38;
 	}
-yy300:
+yy302:
 	yyaccept = 25;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -15802,16 +15818,16 @@ yy300:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy301;
+		case 'z': goto yy37;
+		default: goto yy303;
 	}
-yy301:
+yy303:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TAGS (context_.location); }
-yy302:
+yy304:
 	yyaccept = 26;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy379;
+		case '-': goto yy381;
 		case '0':
 		case '1':
 		case '2':
@@ -15874,16 +15890,16 @@ yy302:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy303;
+		case 'z': goto yy37;
+		default: goto yy305;
 	}
-yy303:
+yy305:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TIME (context_.location); }
-yy304:
+yy306:
 	yyaccept = 27;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -15946,86 +15962,86 @@ yy304:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy305;
-	}
-yy305:
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TRUE (context_.location); }
-yy306:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case '-': goto yy380;
-		default: goto yy36;
+		case 'z': goto yy37;
+		default: goto yy307;
 	}
 yy307:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 't': goto yy381;
-		default: goto yy36;
-	}
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TRUE (context_.location); }
 yy308:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy382;
-		default: goto yy36;
+		case '-': goto yy382;
+		default: goto yy38;
 	}
 yy309:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'U': goto yy384;
-		default: goto yy36;
+		case 't': goto yy383;
+		default: goto yy38;
 	}
 yy310:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy385;
-		default: goto yy36;
+		case 'N': goto yy384;
+		default: goto yy38;
 	}
 yy311:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy386;
-		default: goto yy36;
+		case 'U': goto yy386;
+		default: goto yy38;
 	}
 yy312:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy387;
-		default: goto yy36;
+		case 'E': goto yy387;
+		default: goto yy38;
 	}
 yy313:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy388;
-		default: goto yy36;
+		case 'i': goto yy388;
+		default: goto yy38;
 	}
 yy314:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'o': goto yy389;
-		default: goto yy36;
+		case 'S': goto yy389;
+		default: goto yy38;
 	}
 yy315:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'b': goto yy390;
-		default: goto yy36;
+		case 'e': goto yy390;
+		default: goto yy38;
 	}
 yy316:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'o': goto yy391;
+		default: goto yy38;
+	}
+yy317:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'b': goto yy392;
+		default: goto yy38;
+	}
+yy318:
 	yyaccept = 28;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -16088,44 +16104,44 @@ yy316:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy317;
+		case 'z': goto yy37;
+		default: goto yy319;
 	}
-yy317:
+yy319:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_WITH (context_.location); }
-yy318:
+yy320:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy391;
-		default: goto yy36;
+		case 'T': goto yy393;
+		default: goto yy38;
 	}
-yy319:
+yy321:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy393;
-		default: goto yy36;
+		case 'A': goto yy395;
+		default: goto yy38;
 	}
-yy320:
+yy322:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy394;
-		default: goto yy36;
+		case 'C': goto yy396;
+		default: goto yy38;
 	}
-yy321:
+yy323:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy395;
-		default: goto yy36;
+		case 'A': goto yy397;
+		default: goto yy38;
 	}
-yy322:
+yy324:
 	yyaccept = 29;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -16188,44 +16204,44 @@ yy322:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy323;
+		case 'z': goto yy37;
+		default: goto yy325;
 	}
-yy323:
+yy325:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BEGIN (context_.location); }
-yy324:
+yy326:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy396;
-		default: goto yy36;
+		case 'r': goto yy398;
+		default: goto yy38;
 	}
-yy325:
+yy327:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy397;
-		default: goto yy36;
+		case 'A': goto yy399;
+		default: goto yy38;
 	}
-yy326:
+yy328:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy398;
-		default: goto yy36;
+		case 'C': goto yy400;
+		default: goto yy38;
 	}
-yy327:
+yy329:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy399;
-		default: goto yy36;
+		case 'E': goto yy401;
+		default: goto yy38;
 	}
-yy328:
+yy330:
 	yyaccept = 30;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -16288,33 +16304,33 @@ yy328:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy329;
+		case 'z': goto yy37;
+		default: goto yy331;
 	}
-yy329:
+yy331:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CLASS (context_.location); }
-yy330:
+yy332:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy401;
-		default: goto yy36;
+		case 'N': goto yy403;
+		default: goto yy38;
 	}
-yy331:
+yy333:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy402;
-		default: goto yy36;
+		case 'R': goto yy404;
+		default: goto yy38;
 	}
-yy332:
+yy334:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy403;
-		default: goto yy36;
+		case 'I': goto yy405;
+		default: goto yy38;
 	}
-yy333:
+yy335:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -16378,93 +16394,93 @@ yy333:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		case 'T': goto yy404;
-		default: goto yy58;
-	}
-yy334:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'L': goto yy405;
-		default: goto yy36;
-	}
-yy335:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'I': goto yy406;
-		default: goto yy36;
+		case 'z': goto yy37;
+		case 'T': goto yy406;
+		default: goto yy60;
 	}
 yy336:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy407;
-		default: goto yy36;
+		case 'L': goto yy407;
+		default: goto yy38;
 	}
 yy337:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'D': goto yy408;
-		default: goto yy36;
+		case 'I': goto yy408;
+		default: goto yy38;
 	}
 yy338:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy409;
-		case 'I': goto yy410;
-		default: goto yy36;
+		case 'I': goto yy409;
+		default: goto yy38;
 	}
 yy339:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy411;
-		default: goto yy36;
+		case 'D': goto yy410;
+		default: goto yy38;
 	}
 yy340:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy412;
-		default: goto yy36;
+		case 'E': goto yy411;
+		case 'I': goto yy412;
+		default: goto yy38;
 	}
 yy341:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy414;
-		default: goto yy36;
+		case 'R': goto yy413;
+		default: goto yy38;
 	}
 yy342:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy415;
-		default: goto yy36;
+		case 'T': goto yy414;
+		default: goto yy38;
 	}
 yy343:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy416;
-		default: goto yy36;
+		case 'C': goto yy416;
+		default: goto yy38;
 	}
 yy344:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy417;
-		default: goto yy36;
+		case 'T': goto yy417;
+		default: goto yy38;
 	}
 yy345:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'S': goto yy418;
+		default: goto yy38;
+	}
+yy346:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'N': goto yy419;
+		default: goto yy38;
+	}
+yy347:
 	yyaccept = 31;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -16527,129 +16543,129 @@ yy345:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy346;
-	}
-yy346:
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_FALSE (context_.location); }
-yy347:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'a': goto yy418;
-		default: goto yy36;
+		case 'z': goto yy37;
+		default: goto yy348;
 	}
 yy348:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'i': goto yy419;
-		default: goto yy36;
-	}
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_FALSE (context_.location); }
 yy349:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy420;
-		default: goto yy36;
+		case 'a': goto yy420;
+		default: goto yy38;
 	}
 yy350:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy421;
-		default: goto yy36;
+		case 'i': goto yy421;
+		default: goto yy38;
 	}
 yy351:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy422;
-		case 'E': goto yy423;
-		default: goto yy36;
+		case 'r': goto yy422;
+		default: goto yy38;
 	}
 yy352:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy424;
-		default: goto yy36;
+		case 'I': goto yy423;
+		default: goto yy38;
 	}
 yy353:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'D': goto yy425;
-		default: goto yy36;
+		case 'C': goto yy424;
+		case 'E': goto yy425;
+		default: goto yy38;
 	}
 yy354:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy426;
-		default: goto yy36;
+		case 'T': goto yy426;
+		default: goto yy38;
 	}
 yy355:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'U': goto yy427;
-		default: goto yy36;
+		case 'D': goto yy427;
+		default: goto yy38;
 	}
 yy356:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy428;
-		default: goto yy36;
+		case 'N': goto yy428;
+		default: goto yy38;
 	}
 yy357:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy429;
-		default: goto yy36;
+		case 'U': goto yy429;
+		default: goto yy38;
 	}
 yy358:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '6': goto yy430;
-		default: goto yy36;
+		case 'E': goto yy430;
+		default: goto yy38;
 	}
 yy359:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy431;
-		default: goto yy36;
+		case 'S': goto yy431;
+		default: goto yy38;
 	}
 yy360:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy432;
-		default: goto yy36;
+		case '6': goto yy432;
+		default: goto yy38;
 	}
 yy361:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy433;
-		default: goto yy36;
+		case '-': goto yy433;
+		default: goto yy38;
 	}
 yy362:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy434;
-		default: goto yy36;
+		case '-': goto yy434;
+		default: goto yy38;
 	}
 yy363:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'i': goto yy435;
+		default: goto yy38;
+	}
+yy364:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'T': goto yy436;
+		default: goto yy38;
+	}
+yy365:
 	yyaccept = 32;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -16712,110 +16728,110 @@ yy363:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy364;
-	}
-yy364:
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OCTET (context_.location); }
-yy365:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'R': goto yy436;
-		default: goto yy36;
+		case 'z': goto yy37;
+		default: goto yy366;
 	}
 yy366:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'N': goto yy437;
-		default: goto yy36;
-	}
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OCTET (context_.location); }
 yy367:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy438;
-		default: goto yy36;
+		case 'R': goto yy438;
+		default: goto yy38;
 	}
 yy368:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy439;
-		default: goto yy36;
+		case 'N': goto yy439;
+		default: goto yy38;
 	}
 yy369:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy440;
-		default: goto yy36;
+		case 't': goto yy440;
+		default: goto yy38;
 	}
 yy370:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy441;
-		default: goto yy36;
+		case 'R': goto yy441;
+		default: goto yy38;
 	}
 yy371:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy442;
-		default: goto yy36;
+		case 'I': goto yy442;
+		default: goto yy38;
 	}
 yy372:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'a': goto yy443;
-		default: goto yy36;
+		case 'N': goto yy443;
+		default: goto yy38;
 	}
 yy373:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy444;
-		default: goto yy36;
+		case 'T': goto yy444;
+		default: goto yy38;
 	}
 yy374:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy445;
-		default: goto yy36;
+		case 'a': goto yy445;
+		default: goto yy38;
 	}
 yy375:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy446;
-		default: goto yy36;
+		case 'I': goto yy446;
+		default: goto yy38;
 	}
 yy376:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'G': goto yy447;
-		default: goto yy36;
+		case 'N': goto yy447;
+		default: goto yy38;
 	}
 yy377:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'X': goto yy449;
-		default: goto yy36;
+		case 'N': goto yy448;
+		default: goto yy38;
 	}
 yy378:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy451;
-		default: goto yy36;
+		case 'G': goto yy449;
+		default: goto yy38;
 	}
 yy379:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'X': goto yy451;
+		default: goto yy38;
+	}
+yy380:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'r': goto yy453;
+		default: goto yy38;
+	}
+yy381:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -16879,11 +16895,11 @@ yy379:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		case 'O': goto yy452;
-		default: goto yy58;
+		case 'z': goto yy37;
+		case 'O': goto yy454;
+		default: goto yy60;
 	}
-yy380:
+yy382:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -16947,22 +16963,22 @@ yy380:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		case 'I': goto yy453;
-		default: goto yy58;
+		case 'z': goto yy37;
+		case 'I': goto yy455;
+		default: goto yy60;
 	}
-yy381:
+yy383:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy454;
-		default: goto yy36;
+		case 'e': goto yy456;
+		default: goto yy38;
 	}
-yy382:
+yy384:
 	yyaccept = 33;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -17025,65 +17041,65 @@ yy382:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy383;
+		case 'z': goto yy37;
+		default: goto yy385;
 	}
-yy383:
+yy385:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UNION (context_.location); }
-yy384:
+yy386:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy455;
-		default: goto yy36;
+		case 'E': goto yy457;
+		default: goto yy38;
 	}
-yy385:
+yy387:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy457;
-		default: goto yy36;
+		case 'R': goto yy459;
+		default: goto yy38;
 	}
-yy386:
+yy388:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'm': goto yy458;
-		default: goto yy36;
+		case 'm': goto yy460;
+		default: goto yy38;
 	}
-yy387:
+yy389:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy459;
-		default: goto yy36;
+		case 't': goto yy461;
+		default: goto yy38;
 	}
-yy388:
+yy390:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy460;
-		default: goto yy36;
+		case 'r': goto yy462;
+		default: goto yy38;
 	}
-yy389:
+yy391:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy461;
-		default: goto yy36;
+		case 't': goto yy463;
+		default: goto yy38;
 	}
-yy390:
+yy392:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'l': goto yy462;
-		default: goto yy36;
+		case 'l': goto yy464;
+		default: goto yy38;
 	}
-yy391:
+yy393:
 	yyaccept = 34;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -17146,58 +17162,58 @@ yy391:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy392;
+		case 'z': goto yy37;
+		default: goto yy394;
 	}
-yy392:
+yy394:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ABSENT (context_.location); }
-yy393:
+yy395:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy463;
-		default: goto yy36;
+		case 'C': goto yy465;
+		default: goto yy38;
 	}
-yy394:
+yy396:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy464;
-		default: goto yy36;
+		case 'A': goto yy466;
+		default: goto yy38;
 	}
-yy395:
+yy397:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy465;
-		default: goto yy36;
+		case 'T': goto yy467;
+		default: goto yy38;
 	}
-yy396:
+yy398:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy466;
-		default: goto yy36;
+		case 'i': goto yy468;
+		default: goto yy38;
 	}
-yy397:
+yy399:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy467;
-		default: goto yy36;
+		case 'N': goto yy469;
+		default: goto yy38;
 	}
-yy398:
+yy400:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy469;
-		default: goto yy36;
+		case 'T': goto yy471;
+		default: goto yy38;
 	}
-yy399:
+yy401:
 	yyaccept = 35;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -17260,93 +17276,93 @@ yy399:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy400;
-	}
-yy400:
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CHOICE (context_.location); }
-yy401:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'E': goto yy470;
-		default: goto yy36;
+		case 'z': goto yy37;
+		default: goto yy402;
 	}
 yy402:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'A': goto yy471;
-		default: goto yy36;
-	}
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CHOICE (context_.location); }
 yy403:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy472;
-		default: goto yy36;
+		case 'E': goto yy472;
+		default: goto yy38;
 	}
 yy404:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy473;
-		default: goto yy36;
+		case 'A': goto yy473;
+		default: goto yy38;
 	}
 yy405:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy474;
-		default: goto yy36;
+		case 'N': goto yy474;
+		default: goto yy38;
 	}
 yy406:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy476;
-		default: goto yy36;
+		case 'I': goto yy475;
+		default: goto yy38;
 	}
 yy407:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy477;
-		default: goto yy36;
+		case 'T': goto yy476;
+		default: goto yy38;
 	}
 yy408:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy478;
-		default: goto yy36;
+		case 'T': goto yy478;
+		default: goto yy38;
 	}
 yy409:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'D': goto yy479;
-		default: goto yy36;
+		case 'O': goto yy479;
+		default: goto yy38;
 	}
 yy410:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy481;
-		default: goto yy36;
+		case 'E': goto yy480;
+		default: goto yy38;
 	}
 yy411:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy482;
-		default: goto yy36;
+		case 'D': goto yy481;
+		default: goto yy38;
 	}
 yy412:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'N': goto yy483;
+		default: goto yy38;
+	}
+yy413:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'A': goto yy484;
+		default: goto yy38;
+	}
+yy414:
 	yyaccept = 36;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -17409,131 +17425,131 @@ yy412:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy413;
-	}
-yy413:
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXCEPT (context_.location); }
-yy414:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'I': goto yy483;
-		default: goto yy36;
+		case 'z': goto yy37;
+		default: goto yy415;
 	}
 yy415:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'S': goto yy484;
-		default: goto yy36;
-	}
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXCEPT (context_.location); }
 yy416:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy486;
-		default: goto yy36;
+		case 'I': goto yy485;
+		default: goto yy38;
 	}
 yy417:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy487;
-		default: goto yy36;
+		case 'S': goto yy486;
+		default: goto yy38;
 	}
 yy418:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'l': goto yy488;
-		default: goto yy36;
+		case 'I': goto yy488;
+		default: goto yy38;
 	}
 yy419:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'c': goto yy489;
-		default: goto yy36;
+		case 'A': goto yy489;
+		default: goto yy38;
 	}
 yy420:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy490;
-		default: goto yy36;
+		case 'l': goto yy490;
+		default: goto yy38;
 	}
 yy421:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'F': goto yy491;
-		default: goto yy36;
+		case 'c': goto yy491;
+		default: goto yy38;
 	}
 yy422:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy492;
-		default: goto yy36;
+		case 'i': goto yy492;
+		default: goto yy38;
 	}
 yy423:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'D': goto yy493;
-		default: goto yy36;
+		case 'F': goto yy493;
+		default: goto yy38;
 	}
 yy424:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy495;
-		default: goto yy36;
+		case 'I': goto yy494;
+		default: goto yy38;
 	}
 yy425:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy497;
-		default: goto yy36;
+		case 'D': goto yy495;
+		default: goto yy38;
 	}
 yy426:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy498;
-		default: goto yy36;
+		case 'S': goto yy497;
+		default: goto yy38;
 	}
 yy427:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy499;
-		default: goto yy36;
+		case 'E': goto yy499;
+		default: goto yy38;
 	}
 yy428:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy500;
-		default: goto yy36;
+		case 'C': goto yy500;
+		default: goto yy38;
 	}
 yy429:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy502;
-		default: goto yy36;
+		case 'C': goto yy501;
+		default: goto yy38;
 	}
 yy430:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy503;
-		default: goto yy36;
+		case 'R': goto yy502;
+		default: goto yy38;
 	}
 yy431:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'E': goto yy504;
+		default: goto yy38;
+	}
+yy432:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'S': goto yy505;
+		default: goto yy38;
+	}
+yy433:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -17597,11 +17613,11 @@ yy431:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		case 'I': goto yy504;
-		default: goto yy58;
+		case 'z': goto yy37;
+		case 'I': goto yy506;
+		default: goto yy60;
 	}
-yy432:
+yy434:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -17665,22 +17681,22 @@ yy432:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		case 'N': goto yy505;
-		default: goto yy58;
+		case 'z': goto yy37;
+		case 'N': goto yy507;
+		default: goto yy60;
 	}
-yy433:
+yy435:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'c': goto yy506;
-		default: goto yy36;
+		case 'c': goto yy508;
+		default: goto yy38;
 	}
-yy434:
+yy436:
 	yyaccept = 37;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -17743,93 +17759,93 @@ yy434:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy435;
-	}
-yy435:
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OBJECT (context_.location); }
-yy436:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'I': goto yy507;
-		default: goto yy36;
+		case 'z': goto yy37;
+		default: goto yy437;
 	}
 yy437:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'A': goto yy509;
-		default: goto yy36;
-	}
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OBJECT (context_.location); }
 yy438:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'D': goto yy510;
-		default: goto yy36;
+		case 'I': goto yy509;
+		default: goto yy38;
 	}
 yy439:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy511;
-		default: goto yy36;
+		case 'A': goto yy511;
+		default: goto yy38;
 	}
 yy440:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy513;
-		default: goto yy36;
+		case 'D': goto yy512;
+		default: goto yy38;
 	}
 yy441:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy514;
-		default: goto yy36;
+		case 'N': goto yy513;
+		default: goto yy38;
 	}
 yy442:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy516;
-		default: goto yy36;
+		case 'N': goto yy515;
+		default: goto yy38;
 	}
 yy443:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'b': goto yy518;
-		default: goto yy36;
+		case 'T': goto yy516;
+		default: goto yy38;
 	}
 yy444:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'V': goto yy519;
-		default: goto yy36;
+		case 'E': goto yy518;
+		default: goto yy38;
 	}
 yy445:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy520;
-		default: goto yy36;
+		case 'b': goto yy520;
+		default: goto yy38;
 	}
 yy446:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'G': goto yy521;
-		default: goto yy36;
+		case 'V': goto yy521;
+		default: goto yy38;
 	}
 yy447:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'C': goto yy522;
+		default: goto yy38;
+	}
+yy448:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'G': goto yy523;
+		default: goto yy38;
+	}
+yy449:
 	yyaccept = 38;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -17892,16 +17908,16 @@ yy447:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy448;
+		case 'z': goto yy37;
+		default: goto yy450;
 	}
-yy448:
+yy450:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_STRING (context_.location); }
-yy449:
+yy451:
 	yyaccept = 39;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -17964,44 +17980,44 @@ yy449:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy450;
+		case 'z': goto yy37;
+		default: goto yy452;
 	}
-yy450:
+yy452:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SYNTAX (context_.location); }
-yy451:
+yy453:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy522;
-		default: goto yy36;
+		case 'i': goto yy524;
+		default: goto yy38;
 	}
-yy452:
+yy454:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'F': goto yy523;
-		default: goto yy36;
+		case 'F': goto yy525;
+		default: goto yy38;
 	}
-yy453:
+yy455:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'D': goto yy524;
-		default: goto yy36;
+		case 'D': goto yy526;
+		default: goto yy38;
 	}
-yy454:
+yy456:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'x': goto yy525;
-		default: goto yy36;
+		case 'x': goto yy527;
+		default: goto yy38;
 	}
-yy455:
+yy457:
 	yyaccept = 40;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -18064,86 +18080,86 @@ yy455:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy456;
-	}
-yy456:
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UNIQUE (context_.location); }
-yy457:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'S': goto yy526;
-		default: goto yy36;
+		case 'z': goto yy37;
+		default: goto yy458;
 	}
 yy458:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'e': goto yy527;
-		default: goto yy36;
-	}
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UNIQUE (context_.location); }
 yy459:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy529;
-		default: goto yy36;
+		case 'S': goto yy528;
+		default: goto yy38;
 	}
 yy460:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 's': goto yy530;
-		default: goto yy36;
+		case 'e': goto yy529;
+		default: goto yy38;
 	}
 yy461:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy531;
-		default: goto yy36;
+		case 'r': goto yy531;
+		default: goto yy38;
 	}
 yy462:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy532;
-		default: goto yy36;
+		case 's': goto yy532;
+		default: goto yy38;
 	}
 yy463:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy533;
-		default: goto yy36;
+		case 'e': goto yy533;
+		default: goto yy38;
 	}
 yy464:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy534;
-		default: goto yy36;
+		case 'e': goto yy534;
+		default: goto yy38;
 	}
 yy465:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy535;
-		default: goto yy36;
+		case 'T': goto yy535;
+		default: goto yy38;
 	}
 yy466:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy536;
-		default: goto yy36;
+		case 'T': goto yy536;
+		default: goto yy38;
 	}
 yy467:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'I': goto yy537;
+		default: goto yy38;
+	}
+yy468:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'n': goto yy538;
+		default: goto yy38;
+	}
+yy469:
 	yyaccept = 41;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -18206,51 +18222,51 @@ yy467:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy468;
+		case 'z': goto yy37;
+		default: goto yy470;
 	}
-yy468:
+yy470:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BOOLEAN (context_.location); }
-yy469:
+yy471:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy537;
-		default: goto yy36;
+		case 'E': goto yy539;
+		default: goto yy38;
 	}
-yy470:
+yy472:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy538;
-		default: goto yy36;
+		case 'N': goto yy540;
+		default: goto yy38;
 	}
-yy471:
+yy473:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy539;
-		default: goto yy36;
+		case 'I': goto yy541;
+		default: goto yy38;
 	}
-yy472:
+yy474:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy540;
-		default: goto yy36;
+		case 'I': goto yy542;
+		default: goto yy38;
 	}
-yy473:
+yy475:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'M': goto yy541;
-		default: goto yy36;
+		case 'M': goto yy543;
+		default: goto yy38;
 	}
-yy474:
+yy476:
 	yyaccept = 42;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -18313,37 +18329,37 @@ yy474:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy475;
+		case 'z': goto yy37;
+		default: goto yy477;
 	}
-yy475:
+yy477:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DEFAULT (context_.location); }
-yy476:
+yy478:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy542;
-		default: goto yy36;
+		case 'I': goto yy544;
+		default: goto yy38;
 	}
-yy477:
+yy479:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy543;
-		default: goto yy36;
+		case 'N': goto yy545;
+		default: goto yy38;
 	}
-yy478:
+yy480:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'D': goto yy545;
-		default: goto yy36;
+		case 'D': goto yy547;
+		default: goto yy38;
 	}
-yy479:
+yy481:
 	yyaccept = 43;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -18406,37 +18422,37 @@ yy479:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy480;
+		case 'z': goto yy37;
+		default: goto yy482;
 	}
-yy480:
+yy482:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ENCODED (context_.location); }
-yy481:
+yy483:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'G': goto yy547;
-		default: goto yy36;
+		case 'G': goto yy549;
+		default: goto yy38;
 	}
-yy482:
+yy484:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy548;
-		default: goto yy36;
+		case 'T': goto yy550;
+		default: goto yy38;
 	}
-yy483:
+yy485:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy549;
-		default: goto yy36;
+		case 'T': goto yy551;
+		default: goto yy38;
 	}
-yy484:
+yy486:
 	yyaccept = 44;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -18499,66 +18515,66 @@ yy484:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy485;
+		case 'z': goto yy37;
+		default: goto yy487;
 	}
-yy485:
+yy487:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXPORTS (context_.location); }
-yy486:
+yy488:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'B': goto yy551;
-		default: goto yy36;
+		case 'B': goto yy553;
+		default: goto yy38;
 	}
-yy487:
+yy489:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy552;
-		default: goto yy36;
+		case 'L': goto yy554;
+		default: goto yy38;
 	}
-yy488:
+yy490:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy554;
-		case 'i': goto yy555;
-		default: goto yy36;
+		case 'S': goto yy556;
+		case 'i': goto yy557;
+		default: goto yy38;
 	}
-yy489:
+yy491:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy556;
-		default: goto yy36;
+		case 'S': goto yy558;
+		default: goto yy38;
 	}
-yy490:
+yy492:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy557;
-		default: goto yy36;
+		case 'n': goto yy559;
+		default: goto yy38;
 	}
-yy491:
+yy493:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy558;
-		default: goto yy36;
+		case 'I': goto yy560;
+		default: goto yy38;
 	}
-yy492:
+yy494:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy559;
-		default: goto yy36;
+		case 'T': goto yy561;
+		default: goto yy38;
 	}
-yy493:
+yy495:
 	yyaccept = 45;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -18621,16 +18637,16 @@ yy493:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy494;
+		case 'z': goto yy37;
+		default: goto yy496;
 	}
-yy494:
+yy496:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IMPLIED (context_.location); }
-yy495:
+yy497:
 	yyaccept = 46;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -18693,37 +18709,37 @@ yy495:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy496;
+		case 'z': goto yy37;
+		default: goto yy498;
 	}
-yy496:
+yy498:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IMPORTS (context_.location); }
-yy497:
+yy499:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy561;
-		default: goto yy36;
+		case 'S': goto yy563;
+		default: goto yy38;
 	}
-yy498:
+yy500:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy563;
-		default: goto yy36;
+		case 'E': goto yy565;
+		default: goto yy38;
 	}
-yy499:
+yy501:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy565;
-		default: goto yy36;
+		case 'T': goto yy567;
+		default: goto yy38;
 	}
-yy500:
+yy502:
 	yyaccept = 47;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -18786,51 +18802,51 @@ yy500:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy501;
+		case 'z': goto yy37;
+		default: goto yy503;
 	}
-yy501:
+yy503:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INTEGER (context_.location); }
-yy502:
+yy504:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy566;
-		default: goto yy36;
+		case 'C': goto yy568;
+		default: goto yy38;
 	}
-yy503:
+yy505:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy567;
-		default: goto yy36;
+		case 't': goto yy569;
+		default: goto yy38;
 	}
-yy504:
+yy506:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy568;
-		default: goto yy36;
+		case 'N': goto yy570;
+		default: goto yy38;
 	}
-yy505:
+yy507:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'U': goto yy569;
-		default: goto yy36;
+		case 'U': goto yy571;
+		default: goto yy38;
 	}
-yy506:
+yy508:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy570;
-		default: goto yy36;
+		case 'S': goto yy572;
+		default: goto yy38;
 	}
-yy507:
+yy509:
 	yyaccept = 48;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -18893,30 +18909,30 @@ yy507:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy508;
+		case 'z': goto yy37;
+		default: goto yy510;
 	}
-yy508:
+yy510:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OID_IRI (context_.location); }
-yy509:
+yy511:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy571;
-		default: goto yy36;
+		case 'L': goto yy573;
+		default: goto yy38;
 	}
-yy510:
+yy512:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy573;
-		default: goto yy36;
+		case 'e': goto yy575;
+		default: goto yy38;
 	}
-yy511:
+yy513:
 	yyaccept = 49;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -18979,23 +18995,23 @@ yy511:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy512;
+		case 'z': goto yy37;
+		default: goto yy514;
 	}
-yy512:
+yy514:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PATTERN (context_.location); }
-yy513:
+yy515:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'F': goto yy574;
-		default: goto yy36;
+		case 'F': goto yy576;
+		default: goto yy38;
 	}
-yy514:
+yy516:
 	yyaccept = 50;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -19058,16 +19074,16 @@ yy514:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy515;
+		case 'z': goto yy37;
+		default: goto yy517;
 	}
-yy515:
+yy517:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PRESENT (context_.location); }
-yy516:
+yy518:
 	yyaccept = 51;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -19130,79 +19146,79 @@ yy516:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy517;
-	}
-yy517:
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PRIVATE (context_.location); }
-yy518:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'l': goto yy575;
-		default: goto yy36;
+		case 'z': goto yy37;
+		default: goto yy519;
 	}
 yy519:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'E': goto yy576;
-		default: goto yy36;
-	}
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PRIVATE (context_.location); }
 yy520:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy577;
-		default: goto yy36;
+		case 'l': goto yy577;
+		default: goto yy38;
 	}
 yy521:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy579;
-		default: goto yy36;
+		case 'E': goto yy578;
+		default: goto yy38;
 	}
 yy522:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy581;
-		default: goto yy36;
+		case 'E': goto yy579;
+		default: goto yy38;
 	}
 yy523:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy582;
-		default: goto yy36;
+		case 'S': goto yy581;
+		default: goto yy38;
 	}
 yy524:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy583;
-		default: goto yy36;
+		case 'n': goto yy583;
+		default: goto yy38;
 	}
 yy525:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy584;
-		default: goto yy36;
+		case '-': goto yy584;
+		default: goto yy38;
 	}
 yy526:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy585;
-		default: goto yy36;
+		case 'E': goto yy585;
+		default: goto yy38;
 	}
 yy527:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'S': goto yy586;
+		default: goto yy38;
+	}
+yy528:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'A': goto yy587;
+		default: goto yy38;
+	}
+yy529:
 	yyaccept = 52;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -19264,115 +19280,115 @@ yy527:
 		case 'v':
 		case 'w':
 		case 'x':
-		case 'y':
-		case 'z': goto yy35;
-		default: goto yy528;
-	}
-yy528:
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UTCTime (context_.location); }
-yy529:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'i': goto yy586;
-		default: goto yy36;
+		case 'y':
+		case 'z': goto yy37;
+		default: goto yy530;
 	}
 yy530:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'a': goto yy587;
-		default: goto yy36;
-	}
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UTCTime (context_.location); }
 yy531:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'x': goto yy588;
-		default: goto yy36;
+		case 'i': goto yy588;
+		default: goto yy38;
 	}
 yy532:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy589;
-		default: goto yy36;
+		case 'a': goto yy589;
+		default: goto yy38;
 	}
 yy533:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy590;
-		default: goto yy36;
+		case 'x': goto yy590;
+		default: goto yy38;
 	}
 yy534:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy591;
-		default: goto yy36;
+		case 'S': goto yy591;
+		default: goto yy38;
 	}
 yy535:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy592;
-		default: goto yy36;
+		case '-': goto yy592;
+		default: goto yy38;
 	}
 yy536:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'g': goto yy594;
-		default: goto yy36;
+		case 'I': goto yy593;
+		default: goto yy38;
 	}
 yy537:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy596;
-		default: goto yy36;
+		case 'C': goto yy594;
+		default: goto yy38;
 	}
 yy538:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy598;
-		default: goto yy36;
+		case 'g': goto yy596;
+		default: goto yy38;
 	}
 yy539:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy600;
-		default: goto yy36;
+		case 'R': goto yy598;
+		default: goto yy38;
 	}
 yy540:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy601;
-		default: goto yy36;
+		case 'T': goto yy600;
+		default: goto yy38;
 	}
 yy541:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy602;
-		default: goto yy36;
+		case 'N': goto yy602;
+		default: goto yy38;
 	}
 yy542:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy604;
-		default: goto yy36;
+		case 'N': goto yy603;
+		default: goto yy38;
 	}
 yy543:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'E': goto yy604;
+		default: goto yy38;
+	}
+yy544:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'O': goto yy606;
+		default: goto yy38;
+	}
+yy545:
 	yyaccept = 53;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -19435,16 +19451,16 @@ yy543:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy544;
+		case 'z': goto yy37;
+		default: goto yy546;
 	}
-yy544:
+yy546:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DURATION (context_.location); }
-yy545:
+yy547:
 	yyaccept = 54;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -19507,30 +19523,30 @@ yy545:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy546;
+		case 'z': goto yy37;
+		default: goto yy548;
 	}
-yy546:
+yy548:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EMBEDDED (context_.location); }
-yy547:
+yy549:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '_': goto yy605;
-		default: goto yy36;
+		case '_': goto yy607;
+		default: goto yy38;
 	}
-yy548:
+yy550:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy606;
-		default: goto yy36;
+		case 'E': goto yy608;
+		default: goto yy38;
 	}
-yy549:
+yy551:
 	yyaccept = 55;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -19593,23 +19609,23 @@ yy549:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy550;
+		case 'z': goto yy37;
+		default: goto yy552;
 	}
-yy550:
+yy552:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXPLICIT (context_.location); }
-yy551:
+yy553:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy607;
-		default: goto yy36;
+		case 'I': goto yy609;
+		default: goto yy38;
 	}
-yy552:
+yy554:
 	yyaccept = 56;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -19672,51 +19688,51 @@ yy552:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy553;
+		case 'z': goto yy37;
+		default: goto yy555;
 	}
-yy553:
+yy555:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXTERNAL (context_.location); }
-yy554:
+yy556:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy608;
-		default: goto yy36;
+		case 't': goto yy610;
+		default: goto yy38;
 	}
-yy555:
+yy557:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'z': goto yy609;
-		default: goto yy36;
+		case 'z': goto yy611;
+		default: goto yy38;
 	}
-yy556:
+yy558:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy610;
-		default: goto yy36;
+		case 't': goto yy612;
+		default: goto yy38;
 	}
-yy557:
+yy559:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'g': goto yy611;
-		default: goto yy36;
+		case 'g': goto yy613;
+		default: goto yy38;
 	}
-yy558:
+yy560:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy613;
-		default: goto yy36;
+		case 'E': goto yy615;
+		default: goto yy38;
 	}
-yy559:
+yy561:
 	yyaccept = 57;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -19779,16 +19795,16 @@ yy559:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy560;
+		case 'z': goto yy37;
+		default: goto yy562;
 	}
-yy560:
+yy562:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IMPLICIT (context_.location); }
-yy561:
+yy563:
 	yyaccept = 58;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -19851,16 +19867,16 @@ yy561:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy562;
+		case 'z': goto yy37;
+		default: goto yy564;
 	}
-yy562:
+yy564:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INCLUDES (context_.location); }
-yy563:
+yy565:
 	yyaccept = 59;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -19923,58 +19939,58 @@ yy563:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy564;
+		case 'z': goto yy37;
+		default: goto yy566;
 	}
-yy564:
+yy566:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INSTANCE (context_.location); }
-yy565:
+yy567:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy614;
-		default: goto yy36;
+		case 'I': goto yy616;
+		default: goto yy38;
 	}
-yy566:
+yy568:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy615;
-		default: goto yy36;
+		case 'T': goto yy617;
+		default: goto yy38;
 	}
-yy567:
+yy569:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy616;
-		default: goto yy36;
+		case 'r': goto yy618;
+		default: goto yy38;
 	}
-yy568:
+yy570:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'F': goto yy617;
-		default: goto yy36;
+		case 'F': goto yy619;
+		default: goto yy38;
 	}
-yy569:
+yy571:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'M': goto yy618;
-		default: goto yy36;
+		case 'M': goto yy620;
+		default: goto yy38;
 	}
-yy570:
+yy572:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy619;
-		default: goto yy36;
+		case 't': goto yy621;
+		default: goto yy38;
 	}
-yy571:
+yy573:
 	yyaccept = 60;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -20037,44 +20053,44 @@ yy571:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy572;
+		case 'z': goto yy37;
+		default: goto yy574;
 	}
-yy572:
+yy574:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_OPTIONAL (context_.location); }
-yy573:
+yy575:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 's': goto yy620;
-		default: goto yy36;
+		case 's': goto yy622;
+		default: goto yy38;
 	}
-yy574:
+yy576:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy621;
-		default: goto yy36;
+		case 'I': goto yy623;
+		default: goto yy38;
 	}
-yy575:
+yy577:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy622;
-		default: goto yy36;
+		case 'e': goto yy624;
+		default: goto yy38;
 	}
-yy576:
+yy578:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy623;
-		default: goto yy36;
+		case '-': goto yy625;
+		default: goto yy38;
 	}
-yy577:
+yy579:
 	yyaccept = 61;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -20137,16 +20153,16 @@ yy577:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy578;
+		case 'z': goto yy37;
+		default: goto yy580;
 	}
-yy578:
+yy580:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SEQUENCE (context_.location); }
-yy579:
+yy581:
 	yyaccept = 62;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -20209,19 +20225,19 @@ yy579:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy580;
+		case 'z': goto yy37;
+		default: goto yy582;
 	}
-yy580:
+yy582:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_SETTINGS (context_.location); }
-yy581:
+yy583:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'g': goto yy624;
-		default: goto yy36;
+		case 'g': goto yy626;
+		default: goto yy38;
 	}
-yy582:
+yy584:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -20285,60 +20301,60 @@ yy582:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		case 'D': goto yy626;
-		default: goto yy58;
+		case 'z': goto yy37;
+		case 'D': goto yy628;
+		default: goto yy60;
 	}
-yy583:
+yy585:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy627;
-		default: goto yy36;
+		case 'N': goto yy629;
+		default: goto yy38;
 	}
-yy584:
+yy586:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy628;
-		default: goto yy36;
+		case 't': goto yy630;
+		default: goto yy38;
 	}
-yy585:
+yy587:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy629;
-		default: goto yy36;
+		case 'L': goto yy631;
+		default: goto yy38;
 	}
-yy586:
+yy588:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy631;
-		default: goto yy36;
+		case 'n': goto yy633;
+		default: goto yy38;
 	}
-yy587:
+yy589:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'l': goto yy632;
-		default: goto yy36;
+		case 'l': goto yy634;
+		default: goto yy38;
 	}
-yy588:
+yy590:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy633;
-		default: goto yy36;
+		case 'S': goto yy635;
+		default: goto yy38;
 	}
-yy589:
+yy591:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy634;
-		default: goto yy36;
+		case 't': goto yy636;
+		default: goto yy38;
 	}
-yy590:
+yy592:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -20402,22 +20418,22 @@ yy590:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		case 'S': goto yy635;
-		default: goto yy58;
+		case 'z': goto yy37;
+		case 'S': goto yy637;
+		default: goto yy60;
 	}
-yy591:
+yy593:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy636;
-		default: goto yy36;
+		case 'O': goto yy638;
+		default: goto yy38;
 	}
-yy592:
+yy594:
 	yyaccept = 63;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -20480,16 +20496,16 @@ yy592:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy593;
+		case 'z': goto yy37;
+		default: goto yy595;
 	}
-yy593:
+yy595:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_AUTOMATIC (context_.location); }
-yy594:
+yy596:
 	yyaccept = 64;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -20552,16 +20568,16 @@ yy594:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy595;
+		case 'z': goto yy37;
+		default: goto yy597;
 	}
-yy595:
+yy597:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_BMPString (context_.location); }
-yy596:
+yy598:
 	yyaccept = 65;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -20624,16 +20640,16 @@ yy596:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy597;
+		case 'z': goto yy37;
+		default: goto yy599;
 	}
-yy597:
+yy599:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CHARACTER (context_.location); }
-yy598:
+yy600:
 	yyaccept = 66;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -20695,31 +20711,31 @@ yy598:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		case 'S': goto yy637;
-		default: goto yy599;
+		case 'z': goto yy37;
+		case 'S': goto yy639;
+		default: goto yy601;
 	}
-yy599:
+yy601:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COMPONENT (context_.location); }
-yy600:
+yy602:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy639;
-		default: goto yy36;
+		case 'E': goto yy641;
+		default: goto yy38;
 	}
-yy601:
+yy603:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'G': goto yy640;
-		default: goto yy36;
+		case 'G': goto yy642;
+		default: goto yy38;
 	}
-yy602:
+yy604:
 	yyaccept = 67;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -20782,65 +20798,65 @@ yy602:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy603;
+		case 'z': goto yy37;
+		default: goto yy605;
 	}
-yy603:
+yy605:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DATE_TIME (context_.location); }
-yy604:
+yy606:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy642;
-		default: goto yy36;
+		case 'N': goto yy644;
+		default: goto yy38;
 	}
-yy605:
+yy607:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'C': goto yy643;
-		default: goto yy36;
+		case 'C': goto yy645;
+		default: goto yy38;
 	}
-yy606:
+yy608:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'D': goto yy644;
-		default: goto yy36;
+		case 'D': goto yy646;
+		default: goto yy38;
 	}
-yy607:
+yy609:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy646;
-		default: goto yy36;
+		case 'L': goto yy648;
+		default: goto yy38;
 	}
-yy608:
+yy610:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy647;
-		default: goto yy36;
+		case 'r': goto yy649;
+		default: goto yy38;
 	}
-yy609:
+yy611:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy648;
-		default: goto yy36;
+		case 'e': goto yy650;
+		default: goto yy38;
 	}
-yy610:
+yy612:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy649;
-		default: goto yy36;
+		case 'r': goto yy651;
+		default: goto yy38;
 	}
-yy611:
+yy613:
 	yyaccept = 68;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -20903,82 +20919,82 @@ yy611:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy612;
-	}
-yy612:
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IA5String (context_.location); }
-yy613:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'R': goto yy650;
-		default: goto yy36;
+		case 'z': goto yy37;
+		default: goto yy614;
 	}
 yy614:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'O': goto yy652;
-		default: goto yy36;
-	}
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IA5String (context_.location); }
 yy615:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy653;
-		default: goto yy36;
+		case 'R': goto yy652;
+		default: goto yy38;
 	}
 yy616:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy654;
-		default: goto yy36;
+		case 'O': goto yy654;
+		default: goto yy38;
 	}
 yy617:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
 		case 'I': goto yy655;
-		default: goto yy36;
+		default: goto yy38;
 	}
 yy618:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'B': goto yy656;
-		default: goto yy36;
+		case 'i': goto yy656;
+		default: goto yy38;
 	}
 yy619:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy657;
-		default: goto yy36;
+		case 'I': goto yy657;
+		default: goto yy38;
 	}
 yy620:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'c': goto yy658;
-		default: goto yy36;
+		case 'B': goto yy658;
+		default: goto yy38;
 	}
 yy621:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy659;
-		default: goto yy36;
+		case 'r': goto yy659;
+		default: goto yy38;
 	}
 yy622:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy660;
-		default: goto yy36;
+		case 'c': goto yy660;
+		default: goto yy38;
 	}
 yy623:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'N': goto yy661;
+		default: goto yy38;
+	}
+yy624:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'S': goto yy662;
+		default: goto yy38;
+	}
+yy625:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -21042,15 +21058,15 @@ yy623:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		case 'O': goto yy661;
-		default: goto yy58;
+		case 'z': goto yy37;
+		case 'O': goto yy663;
+		default: goto yy60;
 	}
-yy624:
+yy626:
 	yyaccept = 69;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -21113,37 +21129,37 @@ yy624:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy625;
+		case 'z': goto yy37;
+		default: goto yy627;
 	}
-yy625:
+yy627:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_T61String (context_.location); }
-yy626:
+yy628:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy662;
-		default: goto yy36;
+		case 'A': goto yy664;
+		default: goto yy38;
 	}
-yy627:
+yy629:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy663;
-		default: goto yy36;
+		case 'T': goto yy665;
+		default: goto yy38;
 	}
-yy628:
+yy630:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy664;
-		default: goto yy36;
+		case 'r': goto yy666;
+		default: goto yy38;
 	}
-yy629:
+yy631:
 	yyaccept = 70;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -21206,58 +21222,58 @@ yy629:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy630;
+		case 'z': goto yy37;
+		default: goto yy632;
 	}
-yy630:
+yy632:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UNIVERSAL (context_.location); }
-yy631:
+yy633:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'g': goto yy665;
-		default: goto yy36;
+		case 'g': goto yy667;
+		default: goto yy38;
 	}
-yy632:
+yy634:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy667;
-		default: goto yy36;
+		case 'S': goto yy669;
+		default: goto yy38;
 	}
-yy633:
+yy635:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy668;
-		default: goto yy36;
+		case 't': goto yy670;
+		default: goto yy38;
 	}
-yy634:
+yy636:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy669;
-		default: goto yy36;
+		case 'r': goto yy671;
+		default: goto yy38;
 	}
-yy635:
+yy637:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'Y': goto yy670;
-		default: goto yy36;
+		case 'Y': goto yy672;
+		default: goto yy38;
 	}
-yy636:
+yy638:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy671;
-		default: goto yy36;
+		case 'N': goto yy673;
+		default: goto yy38;
 	}
-yy637:
+yy639:
 	yyaccept = 71;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -21320,23 +21336,23 @@ yy637:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy638;
+		case 'z': goto yy37;
+		default: goto yy640;
 	}
-yy638:
+yy640:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_COMPONENTS (context_.location); }
-yy639:
+yy641:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'D': goto yy673;
-		default: goto yy36;
+		case 'D': goto yy675;
+		default: goto yy38;
 	}
-yy640:
+yy642:
 	yyaccept = 72;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -21399,30 +21415,30 @@ yy640:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy641;
+		case 'z': goto yy37;
+		default: goto yy643;
 	}
-yy641:
+yy643:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CONTAINING (context_.location); }
-yy642:
+yy644:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy675;
-		default: goto yy36;
+		case 'S': goto yy677;
+		default: goto yy38;
 	}
-yy643:
+yy645:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy677;
-		default: goto yy36;
+		case 'O': goto yy679;
+		default: goto yy38;
 	}
-yy644:
+yy646:
 	yyaccept = 73;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -21485,44 +21501,44 @@ yy644:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy645;
+		case 'z': goto yy37;
+		default: goto yy647;
 	}
-yy645:
+yy647:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ENUMERATED (context_.location); }
-yy646:
+yy648:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy678;
-		default: goto yy36;
+		case 'I': goto yy680;
+		default: goto yy38;
 	}
-yy647:
+yy649:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy679;
-		default: goto yy36;
+		case 'i': goto yy681;
+		default: goto yy38;
 	}
-yy648:
+yy650:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'd': goto yy680;
-		default: goto yy36;
+		case 'd': goto yy682;
+		default: goto yy38;
 	}
-yy649:
+yy651:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy681;
-		default: goto yy36;
+		case 'i': goto yy683;
+		default: goto yy38;
 	}
-yy650:
+yy652:
 	yyaccept = 74;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -21585,107 +21601,107 @@ yy650:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy651;
-	}
-yy651:
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IDENTIFIER (context_.location); }
-yy652:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'N': goto yy682;
-		default: goto yy36;
+		case 'z': goto yy37;
+		default: goto yy653;
 	}
 yy653:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'O': goto yy683;
-		default: goto yy36;
-	}
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_IDENTIFIER (context_.location); }
 yy654:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy684;
-		default: goto yy36;
+		case 'N': goto yy684;
+		default: goto yy38;
 	}
 yy655:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy685;
-		default: goto yy36;
+		case 'O': goto yy685;
+		default: goto yy38;
 	}
 yy656:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy686;
-		default: goto yy36;
+		case 'n': goto yy686;
+		default: goto yy38;
 	}
 yy657:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy687;
-		default: goto yy36;
+		case 'N': goto yy687;
+		default: goto yy38;
 	}
 yy658:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy688;
-		default: goto yy36;
+		case 'E': goto yy688;
+		default: goto yy38;
 	}
 yy659:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy689;
-		default: goto yy36;
+		case 'i': goto yy689;
+		default: goto yy38;
 	}
 yy660:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy690;
-		default: goto yy36;
+		case 'r': goto yy690;
+		default: goto yy38;
 	}
 yy661:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
 		case 'I': goto yy691;
-		default: goto yy36;
+		default: goto yy38;
 	}
 yy662:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'Y': goto yy692;
-		default: goto yy36;
+		case 't': goto yy692;
+		default: goto yy38;
 	}
 yy663:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy694;
-		default: goto yy36;
+		case 'I': goto yy693;
+		default: goto yy38;
 	}
 yy664:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy695;
-		default: goto yy36;
+		case 'Y': goto yy694;
+		default: goto yy38;
 	}
 yy665:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'I': goto yy696;
+		default: goto yy38;
+	}
+yy666:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'i': goto yy697;
+		default: goto yy38;
+	}
+yy667:
 	yyaccept = 75;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -21748,44 +21764,44 @@ yy665:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy666;
+		case 'z': goto yy37;
+		default: goto yy668;
 	}
-yy666:
+yy668:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UTF8String (context_.location); }
-yy667:
+yy669:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy696;
-		default: goto yy36;
+		case 't': goto yy698;
+		default: goto yy38;
 	}
-yy668:
+yy670:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy697;
-		default: goto yy36;
+		case 'r': goto yy699;
+		default: goto yy38;
 	}
-yy669:
+yy671:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy698;
-		default: goto yy36;
+		case 'i': goto yy700;
+		default: goto yy38;
 	}
-yy670:
+yy672:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy699;
-		default: goto yy36;
+		case 'N': goto yy701;
+		default: goto yy38;
 	}
-yy671:
+yy673:
 	yyaccept = 76;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -21848,16 +21864,16 @@ yy671:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy672;
+		case 'z': goto yy37;
+		default: goto yy674;
 	}
-yy672:
+yy674:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_APPLICATION (context_.location); }
-yy673:
+yy675:
 	yyaccept = 77;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -21920,16 +21936,16 @@ yy673:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy674;
+		case 'z': goto yy37;
+		default: goto yy676;
 	}
-yy674:
+yy676:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_CONSTRAINED (context_.location); }
-yy675:
+yy677:
 	yyaccept = 78;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -21992,121 +22008,121 @@ yy675:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy676;
-	}
-yy676:
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DEFINITIONS (context_.location); }
-yy677:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'N': goto yy700;
-		default: goto yy36;
+		case 'z': goto yy37;
+		default: goto yy678;
 	}
 yy678:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'T': goto yy701;
-		default: goto yy36;
-	}
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_DEFINITIONS (context_.location); }
 yy679:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy702;
-		default: goto yy36;
+		case 'N': goto yy702;
+		default: goto yy38;
 	}
 yy680:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
 		case 'T': goto yy703;
-		default: goto yy36;
+		default: goto yy38;
 	}
 yy681:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
 		case 'n': goto yy704;
-		default: goto yy36;
+		default: goto yy38;
 	}
 yy682:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'S': goto yy705;
-		default: goto yy36;
+		case 'T': goto yy705;
+		default: goto yy38;
 	}
 yy683:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'N': goto yy707;
-		default: goto yy36;
+		case 'n': goto yy706;
+		default: goto yy38;
 	}
 yy684:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'g': goto yy709;
-		default: goto yy36;
+		case 'S': goto yy707;
+		default: goto yy38;
 	}
 yy685:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy711;
-		default: goto yy36;
+		case 'N': goto yy709;
+		default: goto yy38;
 	}
 yy686:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy712;
-		default: goto yy36;
+		case 'g': goto yy711;
+		default: goto yy38;
 	}
 yy687:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy714;
-		default: goto yy36;
+		case 'I': goto yy713;
+		default: goto yy38;
 	}
 yy688:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy715;
-		default: goto yy36;
+		case 'R': goto yy714;
+		default: goto yy38;
 	}
 yy689:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy716;
-		default: goto yy36;
+		case 'n': goto yy716;
+		default: goto yy38;
 	}
 yy690:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy717;
-		default: goto yy36;
+		case 'i': goto yy717;
+		default: goto yy38;
 	}
 yy691:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'D': goto yy718;
-		default: goto yy36;
+		case 'T': goto yy718;
+		default: goto yy38;
 	}
 yy692:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'r': goto yy719;
+		default: goto yy38;
+	}
+yy693:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'D': goto yy720;
+		default: goto yy38;
+	}
+yy694:
 	yyaccept = 79;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -22169,93 +22185,93 @@ yy692:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy693;
-	}
-yy693:
-	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TIME_OF_DAY (context_.location); }
-yy694:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'F': goto yy720;
-		default: goto yy36;
+		case 'z': goto yy37;
+		default: goto yy695;
 	}
 yy695:
-	yyaccept = 4;
-	yych = *(YYMARKER = ++context_.cursor);
-	switch (yych) {
-		case 'n': goto yy721;
-		default: goto yy36;
-	}
+	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TIME_OF_DAY (context_.location); }
 yy696:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy722;
-		default: goto yy36;
+		case 'F': goto yy722;
+		default: goto yy38;
 	}
 yy697:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy723;
-		default: goto yy36;
+		case 'n': goto yy723;
+		default: goto yy38;
 	}
 yy698:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy724;
-		default: goto yy36;
+		case 'r': goto yy724;
+		default: goto yy38;
 	}
 yy699:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy725;
-		default: goto yy36;
+		case 'i': goto yy725;
+		default: goto yy38;
 	}
 yy700:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy726;
-		default: goto yy36;
+		case 'n': goto yy726;
+		default: goto yy38;
 	}
 yy701:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'Y': goto yy727;
-		default: goto yy36;
+		case 'T': goto yy727;
+		default: goto yy38;
 	}
 yy702:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'g': goto yy729;
-		default: goto yy36;
+		case 'T': goto yy728;
+		default: goto yy38;
 	}
 yy703:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy731;
-		default: goto yy36;
+		case 'Y': goto yy729;
+		default: goto yy38;
 	}
 yy704:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'g': goto yy732;
-		default: goto yy36;
+		case 'g': goto yy731;
+		default: goto yy38;
 	}
 yy705:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'i': goto yy733;
+		default: goto yy38;
+	}
+yy706:
+	yyaccept = 4;
+	yych = *(YYMARKER = ++context_.cursor);
+	switch (yych) {
+		case 'g': goto yy734;
+		default: goto yy38;
+	}
+yy707:
 	yyaccept = 80;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -22318,16 +22334,16 @@ yy705:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy706;
+		case 'z': goto yy37;
+		default: goto yy708;
 	}
-yy706:
+yy708:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INSTRUCTIONS (context_.location); }
-yy707:
+yy709:
 	yyaccept = 81;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -22390,16 +22406,16 @@ yy707:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy708;
+		case 'z': goto yy37;
+		default: goto yy710;
 	}
-yy708:
+yy710:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_INTERSECTION (context_.location); }
-yy709:
+yy711:
 	yyaccept = 82;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -22462,23 +22478,23 @@ yy709:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy710;
+		case 'z': goto yy37;
+		default: goto yy712;
 	}
-yy710:
+yy712:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ISO646String (context_.location); }
-yy711:
+yy713:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'T': goto yy734;
-		default: goto yy36;
+		case 'T': goto yy736;
+		default: goto yy38;
 	}
-yy712:
+yy714:
 	yyaccept = 83;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -22541,44 +22557,44 @@ yy712:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy713;
+		case 'z': goto yy37;
+		default: goto yy715;
 	}
-yy713:
+yy715:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_NOT_A_NUMBER (context_.location); }
-yy714:
+yy716:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'g': goto yy735;
-		default: goto yy36;
+		case 'g': goto yy737;
+		default: goto yy38;
 	}
-yy715:
+yy717:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'p': goto yy737;
-		default: goto yy36;
+		case 'p': goto yy739;
+		default: goto yy38;
 	}
-yy716:
+yy718:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'Y': goto yy738;
-		default: goto yy36;
+		case 'Y': goto yy740;
+		default: goto yy38;
 	}
-yy717:
+yy719:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy740;
-		default: goto yy36;
+		case 'i': goto yy742;
+		default: goto yy38;
 	}
-yy718:
+yy720:
 	yyaccept = 84;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy741;
+		case '-': goto yy743;
 		case '0':
 		case '1':
 		case '2':
@@ -22641,65 +22657,65 @@ yy718:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy719;
+		case 'z': goto yy37;
+		default: goto yy721;
 	}
-yy719:
+yy721:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_RELATIVE_OID (context_.location); }
-yy720:
+yy722:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy742;
-		default: goto yy36;
+		case 'I': goto yy744;
+		default: goto yy38;
 	}
-yy721:
+yy723:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'g': goto yy743;
-		default: goto yy36;
+		case 'g': goto yy745;
+		default: goto yy38;
 	}
-yy722:
+yy724:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'i': goto yy745;
-		default: goto yy36;
+		case 'i': goto yy747;
+		default: goto yy38;
 	}
-yy723:
+yy725:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy746;
-		default: goto yy36;
+		case 'n': goto yy748;
+		default: goto yy38;
 	}
-yy724:
+yy726:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'g': goto yy747;
-		default: goto yy36;
+		case 'g': goto yy749;
+		default: goto yy38;
 	}
-yy725:
+yy727:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'A': goto yy749;
-		default: goto yy36;
+		case 'A': goto yy751;
+		default: goto yy38;
 	}
-yy726:
+yy728:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy750;
-		default: goto yy36;
+		case 'R': goto yy752;
+		default: goto yy38;
 	}
-yy727:
+yy729:
 	yyaccept = 85;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -22762,16 +22778,16 @@ yy727:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy728;
+		case 'z': goto yy37;
+		default: goto yy730;
 	}
-yy728:
+yy730:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_EXTENSIBILITY (context_.location); }
-yy729:
+yy731:
 	yyaccept = 86;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -22834,23 +22850,23 @@ yy729:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy730;
+		case 'z': goto yy37;
+		default: goto yy732;
 	}
-yy730:
+yy732:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GeneralString (context_.location); }
-yy731:
+yy733:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'm': goto yy751;
-		default: goto yy36;
+		case 'm': goto yy753;
+		default: goto yy38;
 	}
-yy732:
+yy734:
 	yyaccept = 87;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -22913,23 +22929,23 @@ yy732:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy733;
+		case 'z': goto yy37;
+		default: goto yy735;
 	}
-yy733:
+yy735:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GraphicString (context_.location); }
-yy734:
+yy736:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'Y': goto yy752;
-		default: goto yy36;
+		case 'Y': goto yy754;
+		default: goto yy38;
 	}
-yy735:
+yy737:
 	yyaccept = 88;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -22992,23 +23008,23 @@ yy735:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy736;
+		case 'z': goto yy37;
+		default: goto yy738;
 	}
-yy736:
+yy738:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_NumericString (context_.location); }
-yy737:
+yy739:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 't': goto yy754;
-		default: goto yy36;
+		case 't': goto yy756;
+		default: goto yy38;
 	}
-yy738:
+yy740:
 	yyaccept = 89;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -23071,19 +23087,19 @@ yy738:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy739;
+		case 'z': goto yy37;
+		default: goto yy741;
 	}
-yy739:
+yy741:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PLUS_INFINITY (context_.location); }
-yy740:
+yy742:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy755;
-		default: goto yy36;
+		case 'n': goto yy757;
+		default: goto yy38;
 	}
-yy741:
+yy743:
 	yych = *++context_.cursor;
 	switch (yych) {
 		case '0':
@@ -23147,22 +23163,22 @@ yy741:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		case 'I': goto yy756;
-		default: goto yy58;
+		case 'z': goto yy37;
+		case 'I': goto yy758;
+		default: goto yy60;
 	}
-yy742:
+yy744:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'E': goto yy757;
-		default: goto yy36;
+		case 'E': goto yy759;
+		default: goto yy38;
 	}
-yy743:
+yy745:
 	yyaccept = 90;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -23225,30 +23241,30 @@ yy743:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy744;
+		case 'z': goto yy37;
+		default: goto yy746;
 	}
-yy744:
+yy746:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TeletexString (context_.location); }
-yy745:
+yy747:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'n': goto yy758;
-		default: goto yy36;
+		case 'n': goto yy760;
+		default: goto yy38;
 	}
-yy746:
+yy748:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'g': goto yy759;
-		default: goto yy36;
+		case 'g': goto yy761;
+		default: goto yy38;
 	}
-yy747:
+yy749:
 	yyaccept = 91;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -23311,37 +23327,37 @@ yy747:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy748;
+		case 'z': goto yy37;
+		default: goto yy750;
 	}
-yy748:
+yy750:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_VisibleString (context_.location); }
-yy749:
+yy751:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'X': goto yy761;
-		default: goto yy36;
+		case 'X': goto yy763;
+		default: goto yy38;
 	}
-yy750:
+yy752:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'O': goto yy763;
-		default: goto yy36;
+		case 'O': goto yy765;
+		default: goto yy38;
 	}
-yy751:
+yy753:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'e': goto yy764;
-		default: goto yy36;
+		case 'e': goto yy766;
+		default: goto yy38;
 	}
-yy752:
+yy754:
 	yyaccept = 92;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -23404,51 +23420,51 @@ yy752:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy753;
+		case 'z': goto yy37;
+		default: goto yy755;
 	}
-yy753:
+yy755:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_MINUS_INFINITY (context_.location); }
-yy754:
+yy756:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'o': goto yy766;
-		default: goto yy36;
+		case 'o': goto yy768;
+		default: goto yy38;
 	}
-yy755:
+yy757:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'g': goto yy767;
-		default: goto yy36;
+		case 'g': goto yy769;
+		default: goto yy38;
 	}
-yy756:
+yy758:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy769;
-		default: goto yy36;
+		case 'R': goto yy771;
+		default: goto yy38;
 	}
-yy757:
+yy759:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'R': goto yy770;
-		default: goto yy36;
+		case 'R': goto yy772;
+		default: goto yy38;
 	}
-yy758:
+yy760:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'g': goto yy772;
-		default: goto yy36;
+		case 'g': goto yy774;
+		default: goto yy38;
 	}
-yy759:
+yy761:
 	yyaccept = 93;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -23511,16 +23527,16 @@ yy759:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy760;
+		case 'z': goto yy37;
+		default: goto yy762;
 	}
-yy760:
+yy762:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_VideotexString (context_.location); }
-yy761:
+yy763:
 	yyaccept = 94;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -23583,23 +23599,23 @@ yy761:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy762;
+		case 'z': goto yy37;
+		default: goto yy764;
 	}
-yy762:
+yy764:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ABSTRACT_SYNTAX (context_.location); }
-yy763:
+yy765:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'L': goto yy774;
-		default: goto yy36;
+		case 'L': goto yy776;
+		default: goto yy38;
 	}
-yy764:
+yy766:
 	yyaccept = 95;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -23662,23 +23678,23 @@ yy764:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy765;
+		case 'z': goto yy37;
+		default: goto yy767;
 	}
-yy765:
+yy767:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_GeneralizedTime (context_.location); }
-yy766:
+yy768:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'r': goto yy776;
-		default: goto yy36;
+		case 'r': goto yy778;
+		default: goto yy38;
 	}
-yy767:
+yy769:
 	yyaccept = 96;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -23741,23 +23757,23 @@ yy767:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy768;
+		case 'z': goto yy37;
+		default: goto yy770;
 	}
-yy768:
+yy770:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_PrintableString (context_.location); }
-yy769:
+yy771:
 	yyaccept = 4;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case 'I': goto yy778;
-		default: goto yy36;
+		case 'I': goto yy780;
+		default: goto yy38;
 	}
-yy770:
+yy772:
 	yyaccept = 97;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -23820,16 +23836,16 @@ yy770:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy771;
+		case 'z': goto yy37;
+		default: goto yy773;
 	}
-yy771:
+yy773:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_TYPE_IDENTIFIER (context_.location); }
-yy772:
+yy774:
 	yyaccept = 98;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -23892,16 +23908,16 @@ yy772:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy773;
+		case 'z': goto yy37;
+		default: goto yy775;
 	}
-yy773:
+yy775:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_UniversalString (context_.location); }
-yy774:
+yy776:
 	yyaccept = 99;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -23964,16 +23980,16 @@ yy774:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy775;
+		case 'z': goto yy37;
+		default: goto yy777;
 	}
-yy775:
+yy777:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ENCODING_CONTROL (context_.location); }
-yy776:
+yy778:
 	yyaccept = 100;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -24036,16 +24052,16 @@ yy776:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy777;
+		case 'z': goto yy37;
+		default: goto yy779;
 	}
-yy777:
+yy779:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_ObjectDescriptor (context_.location); }
-yy778:
+yy780:
 	yyaccept = 101;
 	yych = *(YYMARKER = ++context_.cursor);
 	switch (yych) {
-		case '-': goto yy79;
+		case '-': goto yy81;
 		case '0':
 		case '1':
 		case '2':
@@ -24108,10 +24124,10 @@ yy778:
 		case 'w':
 		case 'x':
 		case 'y':
-		case 'z': goto yy35;
-		default: goto yy779;
+		case 'z': goto yy37;
+		default: goto yy781;
 	}
-yy779:
+yy781:
 	{ context_.location.columns(context_.cursor - start); return asn1_parser::make_RELATIVE_OID_IRI (context_.location); }
 }
 
-- 
2.43.0


From eef078125c88049f3a8a91d7b1ef197937a680ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:34 +0000
Subject: [PATCH 55/66] fix: viewer prints ENUMERATED, REAL and contents which
 are not of their type

---
 src/util/BerView.cpp | 62 ++++++++++++++++++++++++++++----------------
 1 file changed, 40 insertions(+), 22 deletions(-)

diff --git a/src/util/BerView.cpp b/src/util/BerView.cpp
index f2925f8..4d467f2 100644
--- a/src/util/BerView.cpp
+++ b/src/util/BerView.cpp
@@ -3,6 +3,24 @@
 
 namespace fast_ber
 {
+namespace
+{
+// Content which is not a value of its type is shown as it is
+template <typename T>
+void print_value(std::ostream& os, const BerView& view)
+{
+    T object;
+    if (object.decode(view).success)
+    {
+        os << object;
+    }
+    else
+    {
+        os << OctetString<>(view.content());
+    }
+}
+} // namespace
+
 std::ostream& operator<<(std::ostream& os, BerView view) noexcept
 {
     if (!view.is_valid())
@@ -23,70 +41,70 @@ std::ostream& operator<<(std::ostream& os, BerView view) noexcept
                 switch (static_cast<UniversalTag>(view.tag()))
                 {
                 case UniversalTag::boolean:
-                    os << Boolean<>(view);
+                    print_value<Boolean<>>(os, view);
                     break;
                 case UniversalTag::integer:
-                    os << Integer<>(view);
+                    print_value<Integer<>>(os, view);
                     break;
                 case UniversalTag::bit_string:
-                    os << BitString<>(view);
+                    print_value<BitString<>>(os, view);
                     break;
                 case UniversalTag::octet_string:
-                    os << OctetString<>(view);
+                    print_value<OctetString<>>(os, view);
                     break;
                 case UniversalTag::null:
-                    os << Null<>(view);
+                    print_value<Null<>>(os, view);
                     break;
                 case UniversalTag::object_identifier:
-                    os << ObjectIdentifier<>(view);
+                    print_value<ObjectIdentifier<>>(os, view);
                     break;
                 case UniversalTag::real:
-                    // os << Real<>(view);
+                    print_value<Real<>>(os, view);
                     break;
                 case UniversalTag::enumerated:
-                    os << Integer<>(view);
+                    print_value<Integer<ExplicitId<UniversalTag::enumerated>>>(os, view);
                     break;
                 case UniversalTag::utf8_string:
-                    os << UTF8String<>(view);
+                    print_value<UTF8String<>>(os, view);
                     break;
                 case UniversalTag::numeric_string:
-                    os << NumericString<>(view);
+                    print_value<NumericString<>>(os, view);
                     break;
                 case UniversalTag::printable_string:
-                    os << PrintableString<>(view);
+                    print_value<PrintableString<>>(os, view);
                     break;
                 case UniversalTag::teletex_string:
-                    os << TeletexString<>(view);
+                    print_value<TeletexString<>>(os, view);
                     break;
                 case UniversalTag::videotex_string:
-                    os << VideotexString<>(view);
+                    print_value<VideotexString<>>(os, view);
                     break;
                 case UniversalTag::ia5_string:
-                    os << IA5String<>(view);
+                    print_value<IA5String<>>(os, view);
                     break;
                 case UniversalTag::utc_time:
-                    os << UTCTime<>(view);
+                    print_value<UTCTime<>>(os, view);
                     break;
                 case UniversalTag::generalized_time:
-                    os << GeneralizedTime<>(view);
+                    print_value<GeneralizedTime<>>(os, view);
                     break;
                 case UniversalTag::graphic_string:
-                    os << GraphicString<>(view);
+                    print_value<GraphicString<>>(os, view);
                     break;
                 case UniversalTag::visible_string:
-                    os << VisibleString<>(view);
+                    print_value<VisibleString<>>(os, view);
                     break;
                 case UniversalTag::general_string:
-                    os << GeneralString<>(view);
+                    print_value<GeneralString<>>(os, view);
                     break;
                 case UniversalTag::universal_string:
-                    os << UniversalString<>(view);
+                    print_value<UniversalString<>>(os, view);
                     break;
                 case UniversalTag::character_string:
-                    os << CharacterString<>(view);
+                    print_value<CharacterString<>>(os, view);
                     break;
                 case UniversalTag::bmp_string:
-                    os << BMPString<>(view);
+                    print_value<BMPString<>>(os, view);
                     break;
 
                 case UniversalTag::embedded_pdv:
-- 
2.43.0


From 17878b3c09078c7348d760e89ea00ba8d62f4f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:02 +0000
Subject: [PATCH 56/66] fix: viewer overflows the stack on deeply nested
 elements

---
 src/util/BerView.cpp | 61 ++++++++++++++++++++++++++++++++------------
 1 file changed, 44 insertions(+), 17 deletions(-)

diff --git a/src/util/BerView.cpp b/src/util/BerView.cpp
index 4d467f2..26f20c5 100644
--- a/src/util/BerView.cpp
+++ b/src/util/BerView.cpp
@@ -1,6 +1,8 @@
 #include "fast_ber/util/BerView.hpp"
 #include "fast_ber/ber_types/All.hpp"
 
+#include <vector>
+
 namespace fast_ber
 {
 namespace
@@ -19,16 +21,16 @@ void print_value(std::ostream& os, const BerView& view)
         os << OctetString<>(view.content());
     }
 }
-} // namespace
 
-std::ostream& operator<<(std::ostream& os, BerView view) noexcept
+struct OpenElement
 {
-    if (!view.is_valid())
-    {
-        os << "null";
-        return os;
-    }
+    BerViewIterator next_child;
+    bool            first_child;
+};
 
+// Prints an element, up to its children if it is constructed
+void print_element(std::ostream& os, const BerView& view, std::vector<OpenElement>& open_elements)
+{
     os << "{ \"length\": " << view.ber_length();
     os << ", \"identifier\": " << view.identifier();
     os << ", \"content\": ";
@@ -130,20 +132,45 @@ std::ostream& operator<<(std::ostream& os, BerView view) noexcept
     }
     else
     {
-        bool first = true;
         os << "[";
-        for (const BerView& child : view)
+        open_elements.push_back(OpenElement{view.begin(), true});
+        return;
+    }
+    os << " }";
+}
+} // namespace
+
+std::ostream& operator<<(std::ostream& os, BerView view) noexcept
+{
+    if (!view.is_valid())
+    {
+        os << "null";
+        return os;
+    }
+
+    // Elements may be nested as deep as the input is long
+    std::vector<OpenElement> open_elements;
+    print_element(os, view, open_elements);
+    while (!open_elements.empty())
+    {
+        OpenElement&  parent = open_elements.back();
+        const BerView child  = *parent.next_child;
+        if (!child.is_valid())
         {
-            if (!first)
-            {
-                os << ", ";
-            }
-            os << child;
-            first = false;
+            os << "] }";
+            open_elements.pop_back();
+            continue;
+        }
+
+        if (!parent.first_child)
+        {
+            os << ", ";
         }
-        os << "]";
+        parent.first_child = false;
+        ++parent.next_child;
+        print_element(os, child, open_elements);
     }
-    return os << " }";
+    return os;
 }
 
 } // namespace fast_ber
-- 
2.43.0


From 77eb677fd30608f49faebf2566a17846212ecad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:04 +0000
Subject: [PATCH 57/66] fix: several modules with one name are accepted, or not
 terminated on

---
 src/compiler/ReorderAssignments.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/compiler/ReorderAssignments.cpp b/src/compiler/ReorderAssignments.cpp
index 191dbd6..e86b377 100644
--- a/src/compiler/ReorderAssignments.cpp
+++ b/src/compiler/ReorderAssignments.cpp
@@ -100,8 +100,14 @@ void visit_types(Module& module, const std::function<void(Type&)>& function)
 
 void check_names(const Asn1Tree& tree)
 {
+    std::unordered_set<std::string> module_references;
     for (const Module& module : tree.modules)
     {
+        if (!module_references.insert(module.module_reference).second)
+        {
+            throw std::runtime_error("Error: Duplicated module \"" + module.module_reference + '\"');
+        }
+
         // Neither parameterized nor imported definitions are definitions of the generated module
         std::vector<Assignment> definitions = module.assignments;
         for (const Import& import : module.imports)
-- 
2.43.0


From b2f43973ef33ff3a3004382703f7fae3d5268cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:41 +0000
Subject: [PATCH 58/66] fix: undefined types as arguments of unused parameters
 are accepted

---
 src/compiler/ReorderAssignments.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/compiler/ReorderAssignments.cpp b/src/compiler/ReorderAssignments.cpp
index e86b377..66dd571 100644
--- a/src/compiler/ReorderAssignments.cpp
+++ b/src/compiler/ReorderAssignments.cpp
@@ -134,16 +134,16 @@ void check_names(const Asn1Tree& tree)
         }
         check_duplicated_names(definitions, module.module_reference);
 
-        // Parameterized types which are not used are not generated
+        // Neither parameterized types which are not used nor arguments of parameters which are not used are generated
         for (const Assignment& assignment : module.assignments)
         {
-            if (!is_type(assignment) || assignment.parameters.empty())
+            if (!is_type(assignment))
             {
                 continue;
             }
 
-            Type parameterized = type(assignment);
-            visit_types(parameterized, [&](Type& type) {
+            Type assigned = type(assignment);
+            visit_types(assigned, [&](Type& type) {
                 if (!is_defined(type))
                 {
                     return;
-- 
2.43.0


From 6c40d6b6ee2e437f5c2849e8ee70c3d4d3adf52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:39 +0000
Subject: [PATCH 59/66] fix: COMPONENTS OF a type within itself is not
 terminated on

---
 src/compiler/ReorderAssignments.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/compiler/ReorderAssignments.cpp b/src/compiler/ReorderAssignments.cpp
index 66dd571..72322fa 100644
--- a/src/compiler/ReorderAssignments.cpp
+++ b/src/compiler/ReorderAssignments.cpp
@@ -43,20 +43,26 @@ void check_duplicated_names(const std::vector<Assignment>& assignments, const st
 }
 
 // Calls function on a type and every type within it
-void visit_types(Type& type, const std::function<void(Type&)>& function)
+void visit_types(Type& type, const std::function<void(Type&)>& function, size_t depth)
 {
+    // A function which puts types into those which are visited may not come to an end
+    if (depth > 1000)
+    {
+        throw std::runtime_error("Types are nested too deeply");
+    }
+
     function(type);
 
     if (is_defined(type))
     {
         for (Type& parameter : absl::get<DefinedType>(type).parameters)
         {
-            visit_types(parameter, function);
+            visit_types(parameter, function, depth + 1);
         }
     }
     else if (is_prefixed(type))
     {
-        visit_types(absl::get<PrefixedType>(absl::get<BuiltinType>(type)).tagged_type->type, function);
+        visit_types(absl::get<PrefixedType>(absl::get<BuiltinType>(type)).tagged_type->type, function, depth + 1);
     }
     else if (is_sequence(type) || is_set(type))
     {
@@ -65,28 +71,31 @@ void visit_types(Type& type, const std::function<void(Type&)>& function)
                                      : static_cast<Collection&>(absl::get<SetType>(absl::get<BuiltinType>(type)));
         for (ComponentType& component : collection.components)
         {
-            visit_types(component.components_of ? *component.components_of : component.named_type.type, function);
+            visit_types(component.components_of ? *component.components_of : component.named_type.type, function,
+                        depth + 1);
         }
     }
     else if (is_choice(type))
     {
         for (NamedType& alternative : absl::get<ChoiceType>(absl::get<BuiltinType>(type)).choices)
         {
-            visit_types(alternative.type, function);
+            visit_types(alternative.type, function, depth + 1);
         }
     }
     else if (is_sequence_of(type))
     {
         SequenceOfType& sequence_of = absl::get<SequenceOfType>(absl::get<BuiltinType>(type));
-        visit_types(sequence_of.has_name ? sequence_of.named_type->type : *sequence_of.type, function);
+        visit_types(sequence_of.has_name ? sequence_of.named_type->type : *sequence_of.type, function, depth + 1);
     }
     else if (is_set_of(type))
     {
         SetOfType& set_of = absl::get<SetOfType>(absl::get<BuiltinType>(type));
-        visit_types(set_of.has_name ? set_of.named_type->type : *set_of.type, function);
+        visit_types(set_of.has_name ? set_of.named_type->type : *set_of.type, function, depth + 1);
     }
 }
 
+void visit_types(Type& type, const std::function<void(Type&)>& function) { visit_types(type, function, 0); }
+
 void visit_types(Module& module, const std::function<void(Type&)>& function)
 {
     for (Assignment& assignment : module.assignments)
-- 
2.43.0


From 1e3ae1263861fc3b57c0c11aacc088653622e185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:38 +0000
Subject: [PATCH 60/66] fix: CHOICE which is an untagged alternative of itself
 overflows the stack

---
 src/compiler/ReorderAssignments.cpp           | 39 +++++++++++++++++++
 .../fast_ber/compiler/ReorderAssignments.hpp  |  3 ++
 src/compiler_main/CompilerMain.cpp            |  1 +
 3 files changed, 43 insertions(+)

diff --git a/src/compiler/ReorderAssignments.cpp b/src/compiler/ReorderAssignments.cpp
index 72322fa..7bbe501 100644
--- a/src/compiler/ReorderAssignments.cpp
+++ b/src/compiler/ReorderAssignments.cpp
@@ -393,6 +393,45 @@ void resolve_components_of(Asn1Tree& tree)
     }
 }
 
+// Alternatives without a tag are known by the tags of their own alternatives, and cannot be those they belong to
+void check_alternatives(const Asn1Tree& tree, const Module& module, const Type& type, size_t depth)
+{
+    if (depth > 1000)
+    {
+        throw std::runtime_error("CHOICE which is an alternative of itself in module " + module.module_reference);
+    }
+
+    if (is_defined(type))
+    {
+        const DefinedType& defined    = absl::get<DefinedType>(type);
+        const Assignment&  assignment = resolve(tree, module.module_reference, defined);
+        if (is_type(assignment))
+        {
+            check_alternatives(tree, find_module(tree, module, defined), ::type(assignment), depth + 1);
+        }
+    }
+    else if (is_choice(type))
+    {
+        for (const NamedType& alternative : absl::get<ChoiceType>(absl::get<BuiltinType>(type)).choices)
+        {
+            check_alternatives(tree, module, alternative.type, depth + 1);
+        }
+    }
+}
+
+void check_choices(Asn1Tree& tree)
+{
+    for (Module& module : tree.modules)
+    {
+        visit_types(module, [&](Type& type) {
+            if (is_choice(type))
+            {
+                check_alternatives(tree, module, type, 0);
+            }
+        });
+    }
+}
+
 // A name used as a value of a type may be an enumerator or a named number, or may be imported
 bool refers_to_assignment(const Asn1Tree& tree, const Module& module, const Type& type, const std::string& reference)
 {
diff --git a/src/compiler/include/fast_ber/compiler/ReorderAssignments.hpp b/src/compiler/include/fast_ber/compiler/ReorderAssignments.hpp
index 0629995..04f896c 100644
--- a/src/compiler/include/fast_ber/compiler/ReorderAssignments.hpp
+++ b/src/compiler/include/fast_ber/compiler/ReorderAssignments.hpp
@@ -22,6 +22,9 @@ void qualify_names(Type& type, const std::string& module_reference,
 void select_automatic_tags(Asn1Tree& tree);
 void apply_automatic_tags(Asn1Tree& tree);
 
+// Checks that no CHOICE is an alternative of itself, once tagged
+void check_choices(Asn1Tree& tree);
+
 void resolve_components_of(Asn1Tree& tree);
 void resolve_dependencies(const std::unordered_map<std::string, Assignment>& assignment_infos, const std::string& name,
                           const Asn1Tree& tree, const Module& module, std::unordered_set<std::string>& assigned_names,
diff --git a/src/compiler_main/CompilerMain.cpp b/src/compiler_main/CompilerMain.cpp
index 8827838..5dec9f2 100644
--- a/src/compiler_main/CompilerMain.cpp
+++ b/src/compiler_main/CompilerMain.cpp
@@ -289,6 +289,7 @@ int main(int argc, char** argv)
         }
 
         apply_automatic_tags(context.asn1_tree);
+        check_choices(context.asn1_tree);
         resolve_object_classes(context.asn1_tree);
 
         for (auto& module : context.asn1_tree.modules)
-- 
2.43.0


From 8a7d918d50b0714552e65d60be2d923aba734623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:55 +0000
Subject: [PATCH 61/66] fix: recursive SEQUENCE OF / SET OF refers to itself
 before its definition in the generated code

---
 src/compiler/TypeAsString.cpp | 52 +++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/src/compiler/TypeAsString.cpp b/src/compiler/TypeAsString.cpp
index d644559..b696d0f 100644
--- a/src/compiler/TypeAsString.cpp
+++ b/src/compiler/TypeAsString.cpp
@@ -280,10 +280,25 @@ std::string type_as_string(const SequenceType&, const Module&, const Asn1Tree&,
 {
     return type_name;
 }
-std::string type_as_string(const SequenceOfType& sequence, const Module&, const Asn1Tree&, const std::string& type_name,
-                           const std::string& identifier_override)
+// Elements which refer to a type with a declaration of its own go by its name, as they may come before its definition
+absl::optional<std::string> contained_reference(const SequenceOfType& sequence, const Module& module,
+                                                const Asn1Tree& tree)
+{
+    const Type& contained = sequence.has_name ? sequence.named_type->type : *sequence.type;
+    if (is_defined(contained))
+    {
+        const Type& resolved = resolve_type(tree, module.module_reference, absl::get<DefinedType>(contained)).type;
+        if (is_generated(resolved) || is_sequence_of(resolved) || is_set_of(resolved))
+        {
+            return type_as_string(contained, module, tree, "", "");
+        }
+    }
+    return absl::nullopt;
+}
+std::string type_as_string(const SequenceOfType& sequence, const Module& module, const Asn1Tree& tree,
+                           const std::string& type_name, const std::string& identifier_override)
 {
-    std::string res = "SequenceOf<" + type_name + "Contained";
+    std::string res = "SequenceOf<" + contained_reference(sequence, module, tree).value_or(type_name + "Contained");
     if (identifier_override.empty())
     {
         res += ", ExplicitId<UniversalTag::sequence>";
@@ -436,23 +451,24 @@ CodeBlock create_type_assignment(const std::string& name, const Type& assignment
                            ',');
         }
     }
-    else if (is_set_of(assignment_type))
+    else if (is_sequence_of(assignment_type) || is_set_of(assignment_type))
     {
-        const SetOfType& sequence = absl::get<SetOfType>(absl::get<BuiltinType>(assignment_type));
-        const Type&      type     = sequence.has_name ? sequence.named_type->type : *sequence.type;
-        // Contained types encode themselves, so a generated type with a tag needs a type of its own
-        const bool introduce_contained =
-            is_prefixed(type) && is_generated(resolve_type(tree, module.module_reference, NamedType{name, type}).type);
-        block.add_block(create_type_assignment(name + "Contained", type, module, tree, {}, introduce_contained));
-    }
-    else if (is_sequence_of(assignment_type))
-    {
-        const SequenceOfType& sequence = absl::get<SequenceOfType>(absl::get<BuiltinType>(assignment_type));
+        const BuiltinType&    builtin  = absl::get<BuiltinType>(assignment_type);
+        const SequenceOfType& sequence = is_sequence_of(assignment_type) ? absl::get<SequenceOfType>(builtin)
+                                                                         : absl::get<SetOfType>(builtin).base();
         const Type&           type     = sequence.has_name ? sequence.named_type->type : *sequence.type;
-        // Contained types encode themselves, so a generated type with a tag needs a type of its own
-        const bool introduce_contained =
-            is_prefixed(type) && is_generated(resolve_type(tree, module.module_reference, NamedType{name, type}).type);
-        block.add_block(create_type_assignment(name + "Contained", type, module, tree, {}, introduce_contained));
+        if (const auto reference = contained_reference(sequence, module, tree))
+        {
+            block.add_line("using " + name + "Contained = " + *reference + ";");
+        }
+        else
+        {
+            // Contained types encode themselves, so a generated type with a tag needs a type of its own
+            const bool introduce_contained =
+                is_prefixed(type) &&
+                is_generated(resolve_type(tree, module.module_reference, NamedType{name, type}).type);
+            block.add_block(create_type_assignment(name + "Contained", type, module, tree, {}, introduce_contained));
+        }
     }
     else if (is_set(assignment_type))
     {
-- 
2.43.0


From 555a82ff502c93ce1a2faa3b1e10a4ad128a380c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:03 +0000
Subject: [PATCH 62/66] fix: SET OF without a name for its elements is read
 through a null pointer

---
 src/compiler/ValueType.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/ValueType.cpp b/src/compiler/ValueType.cpp
index e3d5764..4ac4344 100644
--- a/src/compiler/ValueType.cpp
+++ b/src/compiler/ValueType.cpp
@@ -156,7 +156,7 @@ std::string value_type(const SetOfType& set, const Module& module, const Asn1Tre
 {
     std::string name = set.has_name ? set.named_type->name : "";
     const Type& type = set.has_name ? set.named_type->type : *set.type;
-    std::string res  = "SetOf<" + value_type(type, module, tree, set.named_type->name, {});
+    std::string res  = "SetOf<" + value_type(type, module, tree, name, {});
     if (identifier_override.empty())
     {
         res += ", ExplicitId<UniversalTag::sequence>";
-- 
2.43.0


From f849277995ae668ae5141aa1f8631c3d88053d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:03 +0000
Subject: [PATCH 63/66] fix: undefined values as DEFAULTs of parameterized
 types which are not used are accepted

---
 src/compiler/Parameters.cpp                   | 24 ------
 src/compiler/ReorderAssignments.cpp           | 83 ++++++++++++++++++-
 src/compiler/ResolveType.cpp                  | 24 ++++++
 .../include/fast_ber/compiler/ResolveType.hpp |  3 +
 4 files changed, 107 insertions(+), 27 deletions(-)

diff --git a/src/compiler/Parameters.cpp b/src/compiler/Parameters.cpp
index aecdbaf..cdef22e 100644
--- a/src/compiler/Parameters.cpp
+++ b/src/compiler/Parameters.cpp
@@ -102,30 +102,6 @@ void resolve_parameterized(const Asn1Tree& tree, const Module& module, Type& par
 // Expansion of a template which is nested deeper than this does not end
 const int max_template_depth = 100;
 
-// The module which defines a type, which may be imported
-std::string find_home(const Asn1Tree& tree, const DefinedType& defined, const std::string& current_module_reference)
-{
-    std::string home = defined.module_reference ? *defined.module_reference : current_module_reference;
-    for (size_t hops = 0; hops < tree.modules.size() && !exists(tree, home, defined.type_reference); hops++)
-    {
-        for (const Module& module : tree.modules)
-        {
-            const auto imports_type = [&](const Import& import) {
-                return module.module_reference == home &&
-                       std::find(import.imported_types.begin(), import.imported_types.end(), defined.type_reference) !=
-                           import.imported_types.end();
-            };
-            const auto import = std::find_if(module.imports.begin(), module.imports.end(), imports_type);
-            if (import != module.imports.end())
-            {
-                home = import->module_reference;
-                break;
-            }
-        }
-    }
-    return home;
-}
-
 void parameterized_to_concrete(const Asn1Tree& tree, const Module& module, ChoiceType& choice, int depth)
 {
     for (NamedType& named_type : choice.choices)
diff --git a/src/compiler/ReorderAssignments.cpp b/src/compiler/ReorderAssignments.cpp
index 7bbe501..f5bd208 100644
--- a/src/compiler/ReorderAssignments.cpp
+++ b/src/compiler/ReorderAssignments.cpp
@@ -42,11 +42,14 @@ void check_duplicated_names(const std::vector<Assignment>& assignments, const st
     }
 }
 
+// Types within types, and references to references, are not followed any deeper than this
+const size_t max_type_depth = 1000;
+
 // Calls function on a type and every type within it
 void visit_types(Type& type, const std::function<void(Type&)>& function, size_t depth)
 {
     // A function which puts types into those which are visited may not come to an end
-    if (depth > 1000)
+    if (depth > max_type_depth)
     {
         throw std::runtime_error("Types are nested too deeply");
     }
@@ -107,6 +110,69 @@ void visit_types(Module& module, const std::function<void(Type&)>& function)
     }
 }
 
+// The type a value of a type has, without references and tags. Depends on the arguments for parameterized types
+absl::optional<Type> governing_type(const Asn1Tree& tree, const Module& module,
+                                    const std::vector<Parameter>& parameters, Type type)
+{
+    std::string home = module.module_reference;
+    for (size_t depth = 0; depth < max_type_depth; depth++)
+    {
+        if (is_prefixed(type))
+        {
+            type = Type(absl::get<PrefixedType>(absl::get<BuiltinType>(type)).tagged_type->type);
+        }
+        else if (is_defined(type))
+        {
+            const DefinedType& defined = absl::get<DefinedType>(type);
+            if (home == module.module_reference && !defined.module_reference &&
+                std::any_of(parameters.begin(), parameters.end(),
+                            [&](const Parameter& parameter) { return parameter.reference == defined.type_reference; }))
+            {
+                return absl::nullopt;
+            }
+
+            home                         = find_home(tree, defined, home);
+            const Assignment& assignment = resolve(tree, home, defined.type_reference);
+            if (!is_type(assignment) || assignment.parameters.size() > 0)
+            {
+                return absl::nullopt;
+            }
+            type = Type(::type(assignment));
+        }
+        else
+        {
+            return type;
+        }
+    }
+    throw std::runtime_error("Circular dependency when trying to resolve a type");
+}
+
+void check_default_names(const Asn1Tree& tree, const Module& module, const std::vector<Assignment>& definitions,
+                         const std::vector<Parameter>& parameters, const Collection& collection)
+{
+    for (const ComponentType& component : collection.components)
+    {
+        if (!component.default_value ||
+            !absl::holds_alternative<DefinedValue>(component.default_value->value_selection))
+        {
+            continue;
+        }
+
+        const std::string& name = absl::get<DefinedValue>(component.default_value->value_selection).reference;
+        if (std::any_of(definitions.begin(), definitions.end(),
+                        [&](const Assignment& definition) { return definition.name == name; }))
+        {
+            continue;
+        }
+
+        const absl::optional<Type> governing = governing_type(tree, module, parameters, component.named_type.type);
+        if (governing && !is_enumerator(*governing, name) && !find_named_number(*governing, *component.default_value))
+        {
+            throw std::runtime_error("Reference to undefined value: " + name);
+        }
+    }
+}
+
 void check_names(const Asn1Tree& tree)
 {
     std::unordered_set<std::string> module_references;
@@ -153,6 +219,17 @@ void check_names(const Asn1Tree& tree)
 
             Type assigned = type(assignment);
             visit_types(assigned, [&](Type& type) {
+                if (is_sequence(type))
+                {
+                    check_default_names(tree, module, definitions, assignment.parameters,
+                                        absl::get<SequenceType>(absl::get<BuiltinType>(type)));
+                }
+                else if (is_set(type))
+                {
+                    check_default_names(tree, module, definitions, assignment.parameters,
+                                        absl::get<SetType>(absl::get<BuiltinType>(type)));
+                }
+
                 if (!is_defined(type))
                 {
                     return;
@@ -327,7 +404,7 @@ ComponentTypeList expand_components(const Asn1Tree& tree, const Module& module,
         }
 
         // A type may only refer to itself by way of types which are not expanded
-        if (depth > 1000)
+        if (depth > max_type_depth)
         {
             throw std::runtime_error("COMPONENTS OF a type which includes itself in module " + module.module_reference);
         }
@@ -396,7 +473,7 @@ void resolve_components_of(Asn1Tree& tree)
 // Alternatives without a tag are known by the tags of their own alternatives, and cannot be those they belong to
 void check_alternatives(const Asn1Tree& tree, const Module& module, const Type& type, size_t depth)
 {
-    if (depth > 1000)
+    if (depth > max_type_depth)
     {
         throw std::runtime_error("CHOICE which is an alternative of itself in module " + module.module_reference);
     }
diff --git a/src/compiler/ResolveType.cpp b/src/compiler/ResolveType.cpp
index c7f4109..10c31de 100644
--- a/src/compiler/ResolveType.cpp
+++ b/src/compiler/ResolveType.cpp
@@ -1,4 +1,5 @@
 #include "fast_ber/compiler/ResolveType.hpp"
+#include <algorithm>
 
 Module& find_module(Asn1Tree& tree, const std::string& module_reference)
 {
@@ -135,6 +136,29 @@ const Assignment& resolve(const Asn1Tree& tree, const std::string& module_refere
     throw std::runtime_error("Reference to undefined object: " + module_reference + "." + reference);
 }
 
+std::string find_home(const Asn1Tree& tree, const DefinedType& defined, const std::string& current_module_reference)
+{
+    std::string home = defined.module_reference ? *defined.module_reference : current_module_reference;
+    for (size_t hops = 0; hops < tree.modules.size() && !exists(tree, home, defined.type_reference); hops++)
+    {
+        for (const Module& module : tree.modules)
+        {
+            const auto imports_type = [&](const Import& import) {
+                return module.module_reference == home &&
+                       std::find(import.imported_types.begin(), import.imported_types.end(), defined.type_reference) !=
+                           import.imported_types.end();
+            };
+            const auto import = std::find_if(module.imports.begin(), module.imports.end(), imports_type);
+            if (import != module.imports.end())
+            {
+                home = import->module_reference;
+                break;
+            }
+        }
+    }
+    return home;
+}
+
 const Module& resolve_module(const Asn1Tree& tree, const std::string& current_module_reference,
                              const DefinedType& defined)
 {
diff --git a/src/compiler/include/fast_ber/compiler/ResolveType.hpp b/src/compiler/include/fast_ber/compiler/ResolveType.hpp
index e038b8b..8b3301d 100644
--- a/src/compiler/include/fast_ber/compiler/ResolveType.hpp
+++ b/src/compiler/include/fast_ber/compiler/ResolveType.hpp
@@ -35,6 +35,9 @@ bool exists(const Asn1Tree& tree, const Module& module, const std::string& refer
 bool exists(const Asn1Tree& tree, const std::string& module_reference, const std::string& reference);
 bool exists(const Asn1Tree& tree, const std::string& current_module_reference, const DefinedType& defined);
 
+// The module which defines a type, which may be imported
+std::string find_home(const Asn1Tree& tree, const DefinedType& defined, const std::string& current_module_reference);
+
 bool is_type(const Assignment& assignment);
 bool is_value(const Assignment& assignment);
 bool is_object_class(const Assignment& assignment);
-- 
2.43.0


From 307bb87df53d8d583c1dc8840dcff2ff0b0060ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:03 +0000
Subject: [PATCH 64/66] fix: a type which is a tagged version of itself and has
 a value is not terminated on

---
 src/compiler/ResolveType.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/compiler/ResolveType.cpp b/src/compiler/ResolveType.cpp
index 10c31de..bbba6d5 100644
--- a/src/compiler/ResolveType.cpp
+++ b/src/compiler/ResolveType.cpp
@@ -1,5 +1,6 @@
 #include "fast_ber/compiler/ResolveType.hpp"
 #include <algorithm>
+#include <set>
 
 Module& find_module(Asn1Tree& tree, const std::string& module_reference)
 {
@@ -181,7 +182,7 @@ const Assignment& resolve(const Asn1Tree& tree, const std::string& current_modul
 }
 
 NamedTypeAndModule resolve_type_and_module(const Asn1Tree& tree, const std::string& current_module_reference,
-                                           const DefinedType& original_defined)
+                                           const DefinedType& original_defined, std::set<std::string> visited)
 {
     DefinedType defined = original_defined;
     std::string module  = current_module_reference;
@@ -194,6 +195,10 @@ NamedTypeAndModule resolve_type_and_module(const Asn1Tree& tree, const std::stri
         {
             throw std::runtime_error("Defined must be a type in this context! " + original_defined.type_reference);
         }
+        if (!visited.insert(working_module.module_reference + "." + defined.type_reference).second)
+        {
+            throw std::runtime_error("Circular dependency when trying to resolve " + original_defined.type_reference);
+        }
         if (is_defined(type(assignment)))
         {
             if (defined.module_reference)
@@ -208,7 +213,7 @@ NamedTypeAndModule resolve_type_and_module(const Asn1Tree& tree, const std::stri
             if (is_defined(prefixed.tagged_type->type))
             {
                 NamedTypeAndModule const& inner = resolve_type_and_module(
-                    tree, working_module.module_reference, absl::get<DefinedType>(prefixed.tagged_type->type));
+                    tree, working_module.module_reference, absl::get<DefinedType>(prefixed.tagged_type->type), visited);
                 prefixed.tagged_type->type = inner.type.type;
                 return {NamedType{inner.type.name, prefixed}, inner.module};
             }
@@ -224,6 +229,12 @@ NamedTypeAndModule resolve_type_and_module(const Asn1Tree& tree, const std::stri
     }
 }
 
+NamedTypeAndModule resolve_type_and_module(const Asn1Tree& tree, const std::string& current_module_reference,
+                                           const DefinedType& defined)
+{
+    return resolve_type_and_module(tree, current_module_reference, defined, {});
+}
+
 NamedTypeAndModule resolve_type_and_module(const Asn1Tree& tree, const std::string& current_module_reference,
                                            const NamedType& type_info)
 {
-- 
2.43.0


From 7f9c107b596c4981f9727bb371c7c1944694df4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:29 +0000
Subject: [PATCH 65/66] fix: constructing a recursive CHOICE whose first
 alternative contains it does not come to an end

---
 src/compiler/GenerateChoice.cpp               | 13 ++-
 src/compiler/ReorderAssignments.cpp           | 95 +++++++++++++++++++
 .../fast_ber/compiler/CompilerTypes.hpp       |  1 +
 .../fast_ber/compiler/ReorderAssignments.hpp  |  3 +
 src/compiler_main/CompilerMain.cpp            |  2 +
 5 files changed, 113 insertions(+), 1 deletion(-)

diff --git a/src/compiler/GenerateChoice.cpp b/src/compiler/GenerateChoice.cpp
index 4438e7d..8b049e8 100644
--- a/src/compiler/GenerateChoice.cpp
+++ b/src/compiler/GenerateChoice.cpp
@@ -67,7 +67,18 @@ CodeBlock create_choice_definition(const ChoiceType& choice, const Module& modul
         block.add_line();
 
         // Standard Constructors / Assignment
-        block.add_line(name + "() noexcept {}");
+        if (choice.default_alternative == 0)
+        {
+            block.add_line(name + "() noexcept {}");
+        }
+        else
+        {
+            // A template, as the alternatives may be completed later on
+            block.add_line("template <typename Storage_>");
+            block.add_line("static Storage_ default_storage() { return Storage_(in_place_index_t<" +
+                           std::to_string(choice.default_alternative) + ">{}); }");
+            block.add_line(name + "() noexcept : m_storage(default_storage<Storage>()) {}");
+        }
         block.add_line(name + "(const " + name + "& rhs) noexcept : m_storage(rhs.m_storage) {}");
         block.add_line(name + "(" + name + "&& rhs) noexcept : m_storage(rhs.m_storage) {}");
         block.add_line(name + "& operator=(const " + name +
diff --git a/src/compiler/ReorderAssignments.cpp b/src/compiler/ReorderAssignments.cpp
index f5bd208..1d3b0b2 100644
--- a/src/compiler/ReorderAssignments.cpp
+++ b/src/compiler/ReorderAssignments.cpp
@@ -6,6 +6,7 @@
 #include "fast_ber/compiler/ValueAsString.hpp"
 #include <cctype>
 #include <functional>
+#include <set>
 #include <string>
 #include <unordered_map>
 #include <unordered_set>
@@ -1004,3 +1005,97 @@ std::vector<Module> reorder_modules(const std::vector<Module>& modules)
     }
     return ordered_modules;
 }
+
+using FiniteTypes = std::set<std::pair<std::string, std::string>>;
+
+// Whether constructing a type comes to an end, as far as that is known. Finite types are those known to do so
+bool is_finite(const Module& module, const Type& type, const FiniteTypes& finite_types)
+{
+    const auto component_is_finite = [&](const ComponentType& component) {
+        return component.is_optional || is_finite(module, component.named_type.type, finite_types);
+    };
+
+    if (is_defined(type))
+    {
+        const DefinedType& defined = absl::get<DefinedType>(type);
+        return finite_types.count(
+                   {defined.module_reference.value_or(module.module_reference), defined.type_reference}) > 0;
+    }
+    else if (is_prefixed(type))
+    {
+        return is_finite(module, absl::get<PrefixedType>(absl::get<BuiltinType>(type)).tagged_type->type, finite_types);
+    }
+    else if (is_sequence(type))
+    {
+        const auto& components = absl::get<SequenceType>(absl::get<BuiltinType>(type)).components;
+        return std::all_of(components.begin(), components.end(), component_is_finite);
+    }
+    else if (is_set(type))
+    {
+        const auto& components = absl::get<SetType>(absl::get<BuiltinType>(type)).components;
+        return std::all_of(components.begin(), components.end(), component_is_finite);
+    }
+    else if (is_choice(type))
+    {
+        const ChoiceType& choice = absl::get<ChoiceType>(absl::get<BuiltinType>(type));
+        return choice.choices.empty() ||
+               is_finite(module, choice.choices[choice.default_alternative].type, finite_types);
+    }
+    return true;
+}
+
+void select_default_alternatives(Asn1Tree& tree)
+{
+    FiniteTypes finite_types;
+    for (bool changed = true; changed;)
+    {
+        changed = false;
+
+        const auto for_each_infinite = [&](const std::function<void(const Module&, Assignment&)>& function) {
+            for (Module& module : tree.modules)
+            {
+                for (Assignment& assignment : module.assignments)
+                {
+                    if (is_type(assignment) && finite_types.count({module.module_reference, assignment.name}) == 0)
+                    {
+                        function(module, assignment);
+                    }
+                }
+            }
+        };
+
+        for_each_infinite([&](const Module& module, Assignment& assignment) {
+            if (is_finite(module, type(assignment), finite_types))
+            {
+                finite_types.insert({module.module_reference, assignment.name});
+                changed = true;
+            }
+        });
+
+        if (changed)
+        {
+            continue;
+        }
+
+        // The types which are left contain themselves
+        for_each_infinite([&](const Module& module, Assignment& assignment) {
+            visit_types(type(assignment), [&](Type& type) {
+                if (!is_choice(type) || is_finite(module, type, finite_types))
+                {
+                    return;
+                }
+
+                ChoiceType& choice = absl::get<ChoiceType>(absl::get<BuiltinType>(type));
+                const auto  alternative =
+                    std::find_if(choice.choices.begin(), choice.choices.end(), [&](const NamedType& named_type) {
+                        return is_finite(module, named_type.type, finite_types);
+                    });
+                if (alternative != choice.choices.end())
+                {
+                    choice.default_alternative = std::distance(choice.choices.begin(), alternative);
+                    changed                    = true;
+                }
+            });
+        });
+    }
+}
diff --git a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
index cca3863..6af19b2 100644
--- a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
+++ b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
@@ -423,6 +423,7 @@ struct ChoiceType
     std::vector<NamedType> choices;
     StorageMode            storage;
     bool                   automatic_tags; // The alternatives are to be tagged automatically
+    size_t                 default_alternative; // The alternative of a choice which has not been assigned to
 };
 
 struct DefinedValue
diff --git a/src/compiler/include/fast_ber/compiler/ReorderAssignments.hpp b/src/compiler/include/fast_ber/compiler/ReorderAssignments.hpp
index 04f896c..c118480 100644
--- a/src/compiler/include/fast_ber/compiler/ReorderAssignments.hpp
+++ b/src/compiler/include/fast_ber/compiler/ReorderAssignments.hpp
@@ -55,3 +55,6 @@ void resolve_module_dependencies(const std::unordered_map<std::string, Module>&
                                  std::unordered_set<std::string>& visited_names, std::vector<Module>& ordered_modules);
 
 std::vector<Module> reorder_modules(const std::vector<Module>& modules);
+
+// Selects the alternatives of choices which have not been assigned to: the first ones, unless these contain the choice
+void select_default_alternatives(Asn1Tree& tree);
diff --git a/src/compiler_main/CompilerMain.cpp b/src/compiler_main/CompilerMain.cpp
index 5dec9f2..8a2e483 100644
--- a/src/compiler_main/CompilerMain.cpp
+++ b/src/compiler_main/CompilerMain.cpp
@@ -297,6 +297,8 @@ int main(int argc, char** argv)
             module.assignments = reorder_assignments(module.assignments, context.asn1_tree, module);
         }
 
+        select_default_alternatives(context.asn1_tree);
+
         output_file << create_output_file(context.asn1_tree, fwd_filame, detail_filame);
         fwd_output_file << create_fwd_body(context.asn1_tree);
         detail_output_file << create_detail_body(context.asn1_tree);
-- 
2.43.0


From f37d0e9f7e268b8d07929b1e5f1699f15c9c419d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:30 +0000
Subject: [PATCH 66/66] fix: T61String names its own type, with the tag of
 TeletexString

---
 include/fast_ber/ber_types/All.hpp                       | 1 +
 include/fast_ber/ber_types/T61String.hpp                 | 5 ++---
 src/compiler/CompilerTypes.cpp                           | 1 +
 src/compiler/include/fast_ber/compiler/CompilerTypes.hpp | 2 +-
 4 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/fast_ber/ber_types/All.hpp b/include/fast_ber/ber_types/All.hpp
index 7825bb9..2d67bb4 100644
--- a/include/fast_ber/ber_types/All.hpp
+++ b/include/fast_ber/ber_types/All.hpp
@@ -34,6 +34,7 @@
 #include "SequenceOf.hpp"
 #include "Set.hpp"
 #include "SetOf.hpp"
+#include "T61String.hpp"
 #include "TeletexString.hpp"
 #include "Time.hpp"
 #include "TimeOfDay.hpp"
diff --git a/include/fast_ber/ber_types/T61String.hpp b/include/fast_ber/ber_types/T61String.hpp
index 166f597..1782f93 100644
--- a/include/fast_ber/ber_types/T61String.hpp
+++ b/include/fast_ber/ber_types/T61String.hpp
@@ -2,10 +2,9 @@
 
 #include "fast_ber/ber_types/StringImpl.hpp"
 #include "fast_ber/ber_types/Tag.hpp"
-#include "fast_ber/ber_types/TaggedType.hpp"
 
 namespace fast_ber
 {
-template <typename Identifier = ExplicitId<UniversalTag::visible_string>>
-using T61String = fast_ber::StringImpl<UniversalTag::visible_string, Identifier>;
+template <typename Identifier = ExplicitId<UniversalTag::teletex_string>>
+using T61String = fast_ber::StringImpl<UniversalTag::teletex_string, Identifier>;
 }
diff --git a/src/compiler/CompilerTypes.cpp b/src/compiler/CompilerTypes.cpp
index b4a7f7c..2c8212c 100644
--- a/src/compiler/CompilerTypes.cpp
+++ b/src/compiler/CompilerTypes.cpp
@@ -168,6 +168,7 @@ static const std::unordered_set<std::string> reserved_keywords = {
     "Set",
     "SetOf",
     "StorageMode",
+    "T61String",
     "TaggedType",
     "TeletexString",
     "Time",
diff --git a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
index 6af19b2..eb06ac2 100644
--- a/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
+++ b/src/compiler/include/fast_ber/compiler/CompilerTypes.hpp
@@ -214,7 +214,7 @@ inline std::string to_string(CharacterStringType type)
     case CharacterStringType::teletex_string:
         return "fast_ber::TeletexString";
     case CharacterStringType::t61_string:
-        return "fast_ber::T161String";
+        return "fast_ber::T61String";
     case CharacterStringType::universal_string:
         return "fast_ber::UniversalString";
     case CharacterStringType::utf8_string:
-- 
2.43.0

