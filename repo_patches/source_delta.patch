From 4a4fdcbf1b218bd39d08055706643030889241e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:53 +0000
Subject: [PATCH 01/58] fix: ASCIIHexDecode pads an odd last digit on the right
 and stops at the '>' marker

---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 18 +++++++++++++-----
 src/pdfmm/private/PdfFiltersPrivate.h   |  1 +
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index bf89236..54913c1 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -223,7 +223,7 @@ private:
 #pragma region PdfHexFilter
 
 PdfHexFilter::PdfHexFilter()
-    : m_DecodedByte(0), m_Low(true)
+    : m_DecodedByte(0), m_Low(true), m_EndOfData(false)
 {
 }
 
@@ -242,12 +242,13 @@ void PdfHexFilter::BeginDecodeImpl(const PdfDictionary*)
 {
     m_DecodedByte = 0;
     m_Low = true;
+    m_EndOfData = false;
 }
 
 void PdfHexFilter::DecodeBlockImpl(const char* buffer, size_t len)
 {
     unsigned char val;
-    while (len-- != 0)
+    while (len-- != 0 && !m_EndOfData)
     {
         if (PdfTokenizer::IsWhitespace(*buffer))
         {
@@ -255,6 +256,13 @@ void PdfHexFilter::DecodeBlockImpl(const char* buffer, size_t len)
             continue;
         }
 
+        if (*buffer == '>')
+        {
+            // Nothing after the end-of-data marker is decoded
+            m_EndOfData = true;
+            break;
+        }
+
         (void)utls::TryGetHexValue(*buffer, val);
         if (m_Low)
         {
@@ -277,9 +285,9 @@ void PdfHexFilter::EndDecodeImpl()
 {
     if (!m_Low)
     {
-        // an odd number of bytes was read,
-        // so the last byte is 0
-        GetStream()->Write(m_DecodedByte);
+        // an odd number of digits was read, the
+        // missing low digit is assumed to be 0
+        GetStream()->Write((char)(m_DecodedByte << 4));
     }
 }
 
diff --git a/src/pdfmm/private/PdfFiltersPrivate.h b/src/pdfmm/private/PdfFiltersPrivate.h
index b41d766..0c9f421 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.h
+++ b/src/pdfmm/private/PdfFiltersPrivate.h
@@ -49,6 +49,7 @@ public:
 private:
     char m_DecodedByte;
     bool m_Low;
+    bool m_EndOfData;
 };
 
 /** The Ascii85 filter.
-- 
2.43.0


From 1cbb896ba83b2a05ea3c27a7cadd1b99df439a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:53 +0000
Subject: [PATCH 02/58] fix: ASCII85Decode recognises the end marker across and
 after block boundaries

---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 23 +++++++++++++----------
 src/pdfmm/private/PdfFiltersPrivate.h   |  1 +
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index 54913c1..b5a33d9 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -301,7 +301,7 @@ void PdfHexFilter::EndDecodeImpl()
 // Paul Haahr - http://www.webcom.com/~haahr/
 
 PdfAscii85Filter::PdfAscii85Filter()
-    : m_count(0), m_tuple(0)
+    : m_count(0), m_tuple(0), m_EndMarkerLen(0)
 {
 }
 
@@ -377,14 +377,22 @@ void PdfAscii85Filter::BeginDecodeImpl(const PdfDictionary*)
 {
     m_count = 0;
     m_tuple = 0;
+    m_EndMarkerLen = 0;
 }
 
 void PdfAscii85Filter::DecodeBlockImpl(const char* buffer, size_t len)
 {
-    bool foundEndMarker = false;
-
-    while (len != 0 && !foundEndMarker)
+    while (len != 0 && m_EndMarkerLen < 2)
     {
+        if (m_EndMarkerLen == 1)
+        {
+            if (*buffer != '>')
+                PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
+
+            m_EndMarkerLen = 2;
+            break;
+        }
+
         switch (*buffer)
         {
             default:
@@ -410,12 +418,7 @@ void PdfAscii85Filter::DecodeBlockImpl(const char* buffer, size_t len)
                 this->WidePut(0, 4);
                 break;
             case '~':
-                buffer++;
-                len--;
-                if (len != 0 && *buffer != '>')
-                    PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
-
-                foundEndMarker = true;
+                m_EndMarkerLen = 1;
                 break;
             case '\n': case '\r': case '\t': case ' ':
             case '\0': case '\f': case '\b': case 0177:
diff --git a/src/pdfmm/private/PdfFiltersPrivate.h b/src/pdfmm/private/PdfFiltersPrivate.h
index 0c9f421..c3f671f 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.h
+++ b/src/pdfmm/private/PdfFiltersPrivate.h
@@ -84,6 +84,7 @@ private:
 private:
     int m_count;
     unsigned m_tuple;
+    int m_EndMarkerLen; // Number of characters of the end-of-data marker "~>" found so far
 };
 
 /** The Flate filter.
-- 
2.43.0


From 565925679087cf4f06542bd41f2ed97bc51fed65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:53 +0000
Subject: [PATCH 03/58] fix: RunLengthDecode reads length bytes as the PDF
 specification says

---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index b5a33d9..3382322 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -633,27 +633,34 @@ void PdfRLEFilter::BeginDecodeImpl(const PdfDictionary*)
 
 void PdfRLEFilter::DecodeBlockImpl(const char* buffer, size_t len)
 {
+    // m_CodeLen is 0 when a length byte is expected, 1-128 when
+    // that many bytes are still to be copied, 129-255 when the
+    // next byte must be repeated and 256 after the end of data
     while (len-- != 0)
     {
         if (m_CodeLen == 0)
         {
-            m_CodeLen = static_cast<int>(*buffer);
+            m_CodeLen = static_cast<unsigned char>(*buffer);
+            if (m_CodeLen < 128)
+                m_CodeLen++;
+            else if (m_CodeLen == 128)
+                m_CodeLen = 256;
         }
-        else if (m_CodeLen == 128)
+        else if (m_CodeLen == 256)
         {
             break;
         }
-        else if (m_CodeLen <= 127)
+        else if (m_CodeLen <= 128)
         {
             GetStream()->Write(buffer, 1);
             m_CodeLen--;
         }
         else if (m_CodeLen >= 129)
         {
-            m_CodeLen = 257 - m_CodeLen;
-
-            while (m_CodeLen--)
+            for (int i = 257 - m_CodeLen; i > 0; i--)
                 GetStream()->Write(buffer, 1);
+
+            m_CodeLen = 0;
         }
 
         buffer++;
-- 
2.43.0


From a97029ff2697c3d3e28af604dddaa925093960b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:53 +0000
Subject: [PATCH 04/58] fix: LZWDecode keeps its state between blocks

---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 25 +++++++++++++------------
 src/pdfmm/private/PdfFiltersPrivate.h   |  6 +++++-
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index 3382322..0c62d7e 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -679,7 +679,10 @@ PdfLZWFilter::PdfLZWFilter() :
     m_mask(0),
     m_code_len(0),
     m_character(0),
-    m_First(false)
+    m_bufferSize(0),
+    m_codeBuff(0),
+    m_old(0),
+    m_EndOfData(false)
 {
 }
 
@@ -704,7 +707,10 @@ void PdfLZWFilter::BeginDecodeImpl(const PdfDictionary* decodeParms)
     m_code_len = 9;
     m_character = 0;
 
-    m_First = true;
+    m_bufferSize = 0;
+    m_codeBuff = 0;
+    m_old = 0;
+    m_EndOfData = false;
 
     if (decodeParms != nullptr)
         m_Predictor.reset(new PdfPredictorDecoder(*decodeParms));
@@ -714,23 +720,18 @@ void PdfLZWFilter::BeginDecodeImpl(const PdfDictionary* decodeParms)
 
 void PdfLZWFilter::DecodeBlockImpl(const char* buffer, size_t len)
 {
-    unsigned buffer_size = 0;
+    unsigned& buffer_size = m_bufferSize;
     const unsigned buffer_max = 24;
 
-    uint32_t old = 0;
+    uint32_t& old = m_old;
     uint32_t code = 0;
-    uint32_t codeBuff = 0;
+    uint32_t& codeBuff = m_codeBuff;
 
     TLzwItem item;
 
     vector<unsigned char> data;
-    if (m_First)
-    {
-        m_character = *buffer;
-        m_First = false;
-    }
 
-    while (len != 0)
+    while (len != 0 && !m_EndOfData)
     {
         // Fill the buffer
         while (buffer_size <= (buffer_max - 8) && len)
@@ -758,7 +759,7 @@ void PdfLZWFilter::DecodeBlockImpl(const char* buffer, size_t len)
             }
             else if (code == PdfLZWFilter::s_eod)
             {
-                len = 0;
+                m_EndOfData = true;
                 break;
             }
             else
diff --git a/src/pdfmm/private/PdfFiltersPrivate.h b/src/pdfmm/private/PdfFiltersPrivate.h
index c3f671f..529f967 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.h
+++ b/src/pdfmm/private/PdfFiltersPrivate.h
@@ -199,7 +199,11 @@ private:
     unsigned m_code_len;
     unsigned char m_character;
 
-    bool m_First;
+    // State kept between blocks
+    unsigned m_bufferSize;
+    uint32_t m_codeBuff;
+    uint32_t m_old;
+    bool m_EndOfData;
 
     std::shared_ptr<PdfPredictorDecoder> m_Predictor;
 };
-- 
2.43.0


From c335d9ec3f42ea676c2b3ffb0a46147a7fac5c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:53 +0000
Subject: [PATCH 05/58] fix: PNG predictors with partial byte pixels and
 unsigned averages

---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index 0c62d7e..2bfa495 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -55,8 +55,6 @@ public:
         }
 
         m_CurrRowIndex = 0;
-        m_BytesPerPixel = (m_BitsPerComponent * m_Colors) >> 3;
-        m_Rows = (m_ColumnCount * m_Colors * m_BitsPerComponent) >> 3;
 
         // check for multiplication overflow on buffer sizes (e.g. if m_nBPC=2 and m_nColors=SIZE_MAX/2+1)
         if (utls::DoesMultiplicationOverflow(m_BitsPerComponent, m_Colors)
@@ -65,6 +63,10 @@ public:
             PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
         }
 
+        // NOTE: A pixel or a row that doesn't fill its last byte still uses all of it
+        m_BytesPerPixel = ((m_BitsPerComponent * m_Colors - 1) >> 3) + 1;
+        m_Rows = ((m_ColumnCount * m_Colors * m_BitsPerComponent - 1) >> 3) + 1;
+
         // check that computed allocation sizes are > 0 (CVE-2018-20797)
         if (m_Rows < 1 || m_BitsPerComponent < 1)
             PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
@@ -129,8 +131,8 @@ public:
                     case 13: // png average
                     {
                         int prev = (m_CurrRowIndex - m_BytesPerPixel < 0
-                            ? 0 : m_Prev[m_CurrRowIndex - m_BytesPerPixel]);
-                        m_Prev[m_CurrRowIndex] = ((prev + m_Prev[m_CurrRowIndex]) >> 1) + *buffer;
+                            ? 0 : static_cast<unsigned char>(m_Prev[m_CurrRowIndex - m_BytesPerPixel]));
+                        m_Prev[m_CurrRowIndex] = ((prev + static_cast<unsigned char>(m_Prev[m_CurrRowIndex])) >> 1) + *buffer;
                         break;
                     }
                     case 14: // png paeth
-- 
2.43.0


From d9b38c8ed6559f072ff0d806aa9221c1dc2404b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:45 +0000
Subject: [PATCH 06/58] fix: literal strings keep parentheses after octal
 escapes, unknown escaped characters and escaped CRLF

---
 src/pdfmm/base/PdfTokenizer.cpp | 55 +++++++++++++++------------------
 1 file changed, 25 insertions(+), 30 deletions(-)

diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index 0a7618b..cebebf9 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -495,10 +495,31 @@ void PdfTokenizer::ReadString(InputStreamDevice& device, PdfVariant& variant, co
     int octCharCount = 0;
     char octValue = 0;
     int balanceCount = 0; // Balanced parathesis do not have to be escaped in strings
+    bool skipLineFeed = false; // The last character was an escaped carriage return
 
     m_charBuffer.clear();
     while (device.Read(ch))
     {
+        if (skipLineFeed)
+        {
+            // The line feed of an escaped CRLF line ending
+            skipLineFeed = false;
+            if (ch == '\n')
+                continue;
+        }
+
+        if (octEscape && !isOctalChar(ch))
+        {
+            // No octal character anymore,
+            // so the octal sequence must be ended
+            // and the character has to be treated as normal character!
+            m_charBuffer.push_back(octValue);
+            escape = false;
+            octEscape = false;
+            octCharCount = 0;
+            octValue = 0;
+        }
+
         if (escape)
         {
             // Handle escape sequences
@@ -506,33 +527,6 @@ void PdfTokenizer::ReadString(InputStreamDevice& device, PdfVariant& variant, co
             {
                 // Handle octal escape sequences
                 octCharCount++;
-
-                if (!isOctalChar(ch))
-                {
-                    if (ch == ')')
-                    {
-                        // Handle end of string while reading octal code
-                        // NOTE: The octal value is added outside of the loop
-                        break;
-                    }
-
-                    // No octal character anymore,
-                    // so the octal sequence must be ended
-                    // and the character has to be treated as normal character!
-                    m_charBuffer.push_back(octValue);
-
-                    if (ch != '\\')
-                    {
-                        m_charBuffer.push_back(ch);
-                        escape = false;
-                    }
-
-                    octEscape = false;
-                    octCharCount = 0;
-                    octValue = 0;
-                    continue;
-                }
-
                 octValue <<= 3;
                 octValue |= ((ch - '0') & 0x07);
 
@@ -558,12 +552,13 @@ void PdfTokenizer::ReadString(InputStreamDevice& device, PdfVariant& variant, co
                 // Ignore end of line characters when reading escaped sequences
                 if (ch != '\n' && ch != '\r')
                 {
-                    // Handle plain escape sequences
+                    // Handle plain escape sequences. The reverse solidus
+                    // is ignored when it precedes any other character
                     char escapedCh = getEscapedCharacter(ch);
-                    if (escapedCh != '\0')
-                        m_charBuffer.push_back(escapedCh);
+                    m_charBuffer.push_back(escapedCh == '\0' ? ch : escapedCh);
                 }
 
+                skipLineFeed = ch == '\r';
                 escape = false;
             }
         }
-- 
2.43.0


From 30374047e9a7a429987f2374a707af11e7d500c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:45 +0000
Subject: [PATCH 07/58] fix: odd last digit of hexadecimal string data is the
 high one

---
 src/pdfmm/base/PdfString.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfString.cpp b/src/pdfmm/base/PdfString.cpp
index 31be2a3..b0c04f5 100644
--- a/src/pdfmm/base/PdfString.cpp
+++ b/src/pdfmm/base/PdfString.cpp
@@ -95,9 +95,9 @@ PdfString PdfString::FromHexData(const string_view& hexView, const PdfStatefulEn
 
     if (!low)
     {
-        // an odd number of bytes was read,
-        // so the last byte is 0
-        buffer.push_back(decodedChar);
+        // an odd number of digits was read,
+        // so the last digit is 0
+        buffer.push_back((char)(decodedChar << 4));
     }
 
     if (encrypt.HasEncrypt())
-- 
2.43.0


From 3b27cd7412fb22259af944afc3f53521f3e6c44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:15 +0000
Subject: [PATCH 08/58] fix: the token after a number at the end of the input
 is not lost

---
 src/pdfmm/base/PdfTokenizer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index cebebf9..85ff519 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -337,6 +337,7 @@ PdfTokenizer::PdfLiteralDataType PdfTokenizer::DetermineDataType(InputStreamDevi
                 if (!gotToken)
                 {
                     // No third token, so it can't be a reference
+                    this->EnqueueToken(tmp, secondTokenType);
                     return PdfLiteralDataType::Number;
                 }
                 if (thirdTokenType == PdfTokenType::Literal &&
-- 
2.43.0


From d200287445785fd950e67d5346a09d14084a0c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:15 +0000
Subject: [PATCH 09/58] fix: numbers that do not fit 64 bits are read as reals

---
 src/pdfmm/base/PdfTokenizer.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index 85ff519..4474719 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -295,7 +295,17 @@ PdfTokenizer::PdfLiteralDataType PdfTokenizer::DetermineDataType(InputStreamDevi
             else if (dataType == PdfLiteralDataType::Number)
             {
                 int64_t num;
-                if (std::from_chars(token.data(), token.data() + token.size(), num).ec != std::errc())
+                auto res = std::from_chars(token.data(), token.data() + token.size(), num);
+                double val;
+                if (res.ec == std::errc::result_out_of_range
+                    && std::from_chars(token.data(), token.data() + token.size(), val, chars_format::fixed).ec == std::errc())
+                {
+                    // Integers that are too big, as reals without
+                    // a fractional part can be, are kept as reals
+                    variant = PdfVariant(val);
+                    return PdfLiteralDataType::Real;
+                }
+                if (res.ec != std::errc())
                 {
                     // Don't consume the token
                     this->EnqueueToken(token, tokenType);
-- 
2.43.0


From bdc2d19af0c7c88cf11e6e7b2b48d0dcad11cd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:15 +0000
Subject: [PATCH 10/58] fix: trailing zeroes of numbers written without
 fraction are kept

---
 src/pdfmm/private/PdfDeclarationsPrivate.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/private/PdfDeclarationsPrivate.cpp b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
index e90393b..5c7cea2 100644
--- a/src/pdfmm/private/PdfDeclarationsPrivate.cpp
+++ b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
@@ -1197,7 +1197,10 @@ void utls::ReadInt16BE(const char* buf, int16_t& value)
 
 void removeTrailingZeroes(string& str)
 {
-    // Remove trailing zeroes
+    // Remove trailing zeroes of the fractional part, if any
+    if (str.find('.') == string::npos)
+        return;
+
     const char* cursor = str.data();
     size_t len = str.size();
     while (cursor[len - 1] == '0')
-- 
2.43.0


From 9e2a29aa5b56d6afcd203620f42271117b4d4654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:15 +0000
Subject: [PATCH 11/58] fix: the buffer for formatting integers has room for
 all digits and the sign

---
 src/pdfmm/private/PdfDeclarationsPrivate.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/private/PdfDeclarationsPrivate.cpp b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
index 5c7cea2..0985c49 100644
--- a/src/pdfmm/private/PdfDeclarationsPrivate.cpp
+++ b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
@@ -72,7 +72,8 @@ template<typename TInt, class = typename std::enable_if_t<std::is_integral_v<TIn
 void formatTo(string& str, TInt value)
 {
     str.clear();
-    array<char, numeric_limits<TInt>::digits10> arr;
+    // NOTE: There may be one more digit than digits10, and the sign
+    array<char, numeric_limits<TInt>::digits10 + 2> arr;
     auto res = std::to_chars(arr.data(), arr.data() + arr.size(), value);
     str.append(arr.data(), res.ptr - arr.data());
 }
-- 
2.43.0


From 4dc2d5f9238efeeb9298de8ed95b8717d88fe0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:15 +0000
Subject: [PATCH 12/58] fix: comparison of values: inequality is the opposite
 of equality, null equals only null

---
 src/pdfmm/base/PdfVariant.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfVariant.cpp b/src/pdfmm/base/PdfVariant.cpp
index 170c458..6d5aa25 100644
--- a/src/pdfmm/base/PdfVariant.cpp
+++ b/src/pdfmm/base/PdfVariant.cpp
@@ -405,7 +405,7 @@ bool PdfVariant::operator==(const PdfVariant& rhs) const
         case PdfDataType::RawData:
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NotImplemented, "Equality not yet implemented for RawData");
         case PdfDataType::Null:
-            return m_DataType == PdfDataType::Null;
+            return rhs.m_DataType == PdfDataType::Null;
         case PdfDataType::Unknown:
             return false;
         default:
@@ -415,8 +415,8 @@ bool PdfVariant::operator==(const PdfVariant& rhs) const
 
 bool PdfVariant::operator!=(const PdfVariant& rhs) const
 {
-    if (this != &rhs)
-        return true;
+    if (this == &rhs)
+        return false;
 
     switch (m_DataType)
     {
@@ -488,7 +488,7 @@ bool PdfVariant::operator!=(const PdfVariant& rhs) const
         case PdfDataType::RawData:
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NotImplemented, "Disequality not yet implemented for RawData");
         case PdfDataType::Null:
-            return m_DataType != PdfDataType::Null;
+            return rhs.m_DataType != PdfDataType::Null;
         case PdfDataType::Unknown:
             return true;
         default:
-- 
2.43.0


From 3cfddccfc142b3fb674afab5d0730f409837deee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:21 +0000
Subject: [PATCH 13/58] fix: inequality of dictionaries and objects is the
 opposite of equality

---
 src/pdfmm/base/PdfDictionary.cpp | 4 ++--
 src/pdfmm/base/PdfObject.cpp     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfDictionary.cpp b/src/pdfmm/base/PdfDictionary.cpp
index 582fd24..1d1135f 100644
--- a/src/pdfmm/base/PdfDictionary.cpp
+++ b/src/pdfmm/base/PdfDictionary.cpp
@@ -51,8 +51,8 @@ bool PdfDictionary::operator==(const PdfDictionary& rhs) const
 
 bool PdfDictionary::operator!=(const PdfDictionary& rhs) const
 {
-    if (this != &rhs)
-        return true;
+    if (this == &rhs)
+        return false;
 
     // We don't check owner
     return m_Map != rhs.m_Map;
diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index b9c16f3..1c5be31 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -837,8 +837,8 @@ bool PdfObject::operator==(const PdfObject& rhs) const
 
 bool PdfObject::operator!=(const PdfObject& rhs) const
 {
-    if (this != &rhs)
-        return true;
+    if (this == &rhs)
+        return false;
 
     if (m_IndirectReference.IsIndirect())
     {
-- 
2.43.0


From 214cd630091998c0bf8f9d47a4b80dc55bd6d35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:22 +0000
Subject: [PATCH 14/58] fix: precision of doubles written to string streams is
 not cut to 8 bits

---
 src/pdfmm/base/PdfStringStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfStringStream.cpp b/src/pdfmm/base/PdfStringStream.cpp
index 14f03b7..3d548a7 100644
--- a/src/pdfmm/base/PdfStringStream.cpp
+++ b/src/pdfmm/base/PdfStringStream.cpp
@@ -28,7 +28,7 @@ PdfStringStream& PdfStringStream::operator<<(float val)
 
 PdfStringStream& PdfStringStream::operator<<(double val)
 {
-    utls::FormatTo(m_temp, val, (unsigned char)m_stream->precision());
+    utls::FormatTo(m_temp, val, (unsigned short)m_stream->precision());
     (*m_stream) << m_temp;
     return *this;
 }
-- 
2.43.0


From bf619025e30c925c4ccb8eb9938f3ccfcba97a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:00 +0000
Subject: [PATCH 15/58] fix: values inside arrays and dictionaries are
 separated whatever the write flags

---
 src/pdfmm/base/PdfArray.cpp      | 2 ++
 src/pdfmm/base/PdfDictionary.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/pdfmm/base/PdfArray.cpp b/src/pdfmm/base/PdfArray.cpp
index e76d091..21c3ad7 100644
--- a/src/pdfmm/base/PdfArray.cpp
+++ b/src/pdfmm/base/PdfArray.cpp
@@ -201,6 +201,8 @@ void PdfArray::Write(OutputStreamDevice& device, PdfWriteFlags writeMode,
     else
         device.Write('[');
 
+    // NOTE: Consecutive literals inside the array must be separated
+    writeMode &= ~PdfWriteFlags::NoInlineLiteral;
     while (it != m_Objects.end())
     {
         it->GetVariant().Write(device, writeMode, encrypt, buffer);
diff --git a/src/pdfmm/base/PdfDictionary.cpp b/src/pdfmm/base/PdfDictionary.cpp
index 1d1135f..1e513b3 100644
--- a/src/pdfmm/base/PdfDictionary.cpp
+++ b/src/pdfmm/base/PdfDictionary.cpp
@@ -195,6 +195,8 @@ void PdfDictionary::Write(OutputStreamDevice& device, PdfWriteFlags writeMode,
     else
         device.Write("<<");
 
+    // NOTE: Literals must be separated from the keys
+    writeMode &= ~PdfWriteFlags::NoInlineLiteral;
     if (this->HasKey(PdfName::KeyType))
     {
         // Type has to be the first key in any dictionary
-- 
2.43.0


From 5f64d3a28c353030001f20cbcde31a100083933c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:39 +0000
Subject: [PATCH 16/58] fix: a value can be assigned to itself and from a part
 of itself

---
 src/pdfmm/base/PdfVariant.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/pdfmm/base/PdfVariant.cpp b/src/pdfmm/base/PdfVariant.cpp
index 6d5aa25..af8beac 100644
--- a/src/pdfmm/base/PdfVariant.cpp
+++ b/src/pdfmm/base/PdfVariant.cpp
@@ -239,18 +239,20 @@ void PdfVariant::ToString(string& str) const
 
 PdfVariant& PdfVariant::operator=(const PdfVariant& rhs)
 {
-    clear();
-    assign(rhs);
-    return *this;
+    // NOTE: rhs may be this variant, or be owned by it
+    return operator=(PdfVariant(rhs));
 }
 
 PdfVariant& PdfVariant::operator=(PdfVariant&& rhs) noexcept
 {
-    clear();
-    m_DataType = rhs.m_DataType;
-    m_Data = rhs.m_Data;
+    // NOTE: rhs may be this variant, or be owned by it
+    auto dataType = rhs.m_DataType;
+    auto data = rhs.m_Data;
     rhs.m_DataType = PdfDataType::Null;
     rhs.m_Data = { };
+    clear();
+    m_DataType = dataType;
+    m_Data = data;
     return *this;
 }
 
-- 
2.43.0


From 9359014d8663c9ea02077102475688f09439f61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:09 +0000
Subject: [PATCH 17/58] fix: leave the refused recursion level when raising

RecursionGuard raises in its constructor, so its destructor never ran for
the refused level and every refusal lowered the limit by one for good
---
 src/pdfmm/private/PdfDeclarationsPrivate.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pdfmm/private/PdfDeclarationsPrivate.cpp b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
index 0985c49..48b6e6e 100644
--- a/src/pdfmm/private/PdfDeclarationsPrivate.cpp
+++ b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
@@ -1226,6 +1226,10 @@ void utls::RecursionGuard::Enter()
     s_recursionDepth++;
     if (s_recursionDepth > s_MaxRecursionDepth)
     {
+        // The guard is not destructed if its construction
+        // fails, so the refused level must be left here
+        Exit();
+
         // avoid stack overflow on documents that have circular cross references, loops
         // or very deeply nested structures, can happen with
         // /Prev entries in trailer and XRef streams (possible via a chain of entries with a loop)
-- 
2.43.0


From e7760f3290a6786bd6a5304c888690a74f9c5e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:09 +0000
Subject: [PATCH 18/58] fix: count nested dictionaries for the recursion limit

Values of dictionaries don't go through TryReadNextVariant(), so deeply
nested dictionaries weren't refused and overflowed the stack
---
 src/pdfmm/base/PdfTokenizer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index 4474719..79dfb2b 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -231,7 +231,6 @@ void PdfTokenizer::ReadNextVariant(InputStreamDevice& device, const string_view&
 
 bool PdfTokenizer::TryReadNextVariant(InputStreamDevice& device, const string_view& token, PdfTokenType tokenType, PdfVariant& variant, const PdfStatefulEncrypt& encrypt)
 {
-    utls::RecursionGuard guard;
     PdfLiteralDataType dataType = DetermineDataType(device, token, tokenType, variant);
     return tryReadDataType(device, dataType, variant, encrypt);
 }
@@ -383,6 +382,8 @@ PdfTokenizer::PdfLiteralDataType PdfTokenizer::DetermineDataType(InputStreamDevi
 
 bool PdfTokenizer::tryReadDataType(InputStreamDevice& device, PdfLiteralDataType dataType, PdfVariant& variant, const PdfStatefulEncrypt& encrypt)
 {
+    // NOTE: Values of dictionaries are read directly with this method
+    utls::RecursionGuard guard;
     switch (dataType)
     {
         case PdfLiteralDataType::Dictionary:
-- 
2.43.0


From f9951a01fc1dd02fda306e3bc3193248a950a1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:02 +0000
Subject: [PATCH 19/58] fix: report unknown operators in
 TryGetPdfOperatorName()

It returned true with an empty name for PdfOperator::Unknown and values
that are no operator, so GetPdfOperatorName() never raised an error
---
 src/pdfmm/base/PdfOperatorUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfOperatorUtils.cpp b/src/pdfmm/base/PdfOperatorUtils.cpp
index 0ba5714..2c0dce2 100644
--- a/src/pdfmm/base/PdfOperatorUtils.cpp
+++ b/src/pdfmm/base/PdfOperatorUtils.cpp
@@ -1013,6 +1013,6 @@ bool mm::TryGetPdfOperatorName(PdfOperator op, string_view& opstr)
         case PdfOperator::Unknown:
         default:
             opstr = { };
-            return true;
+            return false;
     }
 }
-- 
2.43.0


From 552d3dd5203cf8bd8e478dea5648e28da6662515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:01 +0000
Subject: [PATCH 20/58] fix: don't truncate the next object number to 16 bits

---
 src/pdfmm/base/PdfIndirectObjectList.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index 823f1e6..59c3877 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -192,7 +192,7 @@ PdfReference PdfIndirectObjectList::getNextFreeObject()
     }
 
     // If no free objects are available, create a new object with generation 0
-    uint16_t nextObjectNum = static_cast<uint16_t>(m_ObjectCount);
+    uint32_t nextObjectNum = m_ObjectCount;
     while (true)
     {
         if ((size_t)(nextObjectNum + 1) == MaxReserveSize)
-- 
2.43.0


From 7ec91fcf30260034e16e2818327d65cc9d869b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:01 +0000
Subject: [PATCH 21/58] fix: mark the object number unavailable, not its
 generation

---
 src/pdfmm/base/PdfIndirectObjectList.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index 59c3877..c8042ab 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -274,7 +274,7 @@ int32_t PdfIndirectObjectList::tryAddFreeObject(uint32_t objnum, uint32_t gennum
     // NOTE: gennum is uint32 to accomodate overflows from callers
     if (gennum >= MaxXRefGenerationNum)
     {
-        m_unavailableObjects.insert(gennum);
+        m_unavailableObjects.insert(objnum);
         return -1;
     }
 
-- 
2.43.0


From 27df4fe904d2cabf35df95361d2cb7913c8353b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:01 +0000
Subject: [PATCH 22/58] fix: ReplaceObject() replaces only the object with the
 given reference

---
 src/pdfmm/base/PdfIndirectObjectList.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index c8042ab..13dbb44 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -157,7 +157,7 @@ unique_ptr<PdfObject> PdfIndirectObjectList::ReplaceObject(const PdfReference& r
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidHandle, "Object must be non null");
 
     auto it = std::lower_bound(m_Objects.begin(), m_Objects.end(), ref, CompareReference);
-    if (it == m_Objects.end())
+    if (it == m_Objects.end() || (*it)->GetIndirectReference() != ref)
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidHandle, "Unable to find object with reference {}", ref.ToString());
 
     auto node = m_Objects.extract(it);
-- 
2.43.0


From 1e6b2bf361935cf67484394ca2cc4b7fc3339117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:02 +0000
Subject: [PATCH 23/58] fix: forget free and unavailable object numbers when
 clearing

---
 src/pdfmm/base/PdfIndirectObjectList.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index 13dbb44..092254c 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -110,6 +110,9 @@ void PdfIndirectObjectList::Clear()
         delete obj;
 
     m_Objects.clear();
+    m_FreeObjects.clear();
+    m_unavailableObjects.clear();
+    m_objectStreams.clear();
     m_ObjectCount = 1;
     m_StreamFactory = nullptr;
 }
-- 
2.43.0


From d18015aff941462c6247dbf131edf9aeef777f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:13 +0000
Subject: [PATCH 24/58] fix: a list without document doesn't give out object
 number 0

---
 src/pdfmm/base/PdfIndirectObjectList.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index 092254c..8839c28 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -66,7 +66,7 @@ PdfIndirectObjectList::PdfIndirectObjectList() :
     m_Document(nullptr),
     m_CanReuseObjectNumbers(true),
     m_Objects(CompareObject),
-    m_ObjectCount(0),
+    m_ObjectCount(1),
     m_StreamFactory(nullptr)
 {
 }
-- 
2.43.0


From 8c7197743c3d408c42bd7129954b7617da738a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:13 +0000
Subject: [PATCH 25/58] fix: appended objects must not take the numbers of
 present ones

---
 src/pdfmm/base/PdfDocument.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfDocument.cpp b/src/pdfmm/base/PdfDocument.cpp
index 2b9d3c1..2713c39 100644
--- a/src/pdfmm/base/PdfDocument.cpp
+++ b/src/pdfmm/base/PdfDocument.cpp
@@ -116,7 +116,8 @@ void PdfDocument::AppendDocumentPages(const PdfDocument& doc)
 
 void PdfDocument::append(const PdfDocument& doc, bool appendAll)
 {
-    unsigned difference = static_cast<unsigned>(m_Objects.GetSize() + m_Objects.GetFreeObjects().size());
+    // All the object numbers up to the object count may be already taken
+    unsigned difference = m_Objects.GetObjectCount() - 1;
 
     // Because GetNextObject uses m_ObjectCount instead 
     // of m_Objects.GetSize() + m_Objects.GetFreeObjects().size() + 1
-- 
2.43.0


From 6bdea8f634ea3ffc323d1d1d2016e7b93401170f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:26 +0000
Subject: [PATCH 26/58] fix: InsertDocumentPageAt() copies the objects of the
 other document

---
 src/pdfmm/base/PdfDocument.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfDocument.cpp b/src/pdfmm/base/PdfDocument.cpp
index 2713c39..e969863 100644
--- a/src/pdfmm/base/PdfDocument.cpp
+++ b/src/pdfmm/base/PdfDocument.cpp
@@ -202,8 +202,8 @@ void PdfDocument::append(const PdfDocument& doc, bool appendAll)
 void PdfDocument::InsertDocumentPageAt(unsigned atIndex, const PdfDocument& doc, unsigned pageIndex)
 {
     // copy of PdfDocument::Append, only restricts which page to add
-    unsigned difference = static_cast<unsigned>(m_Objects.GetSize() + m_Objects.GetFreeObjects().size());
-
+    // All the object numbers up to the object count may be already taken
+    unsigned difference = m_Objects.GetObjectCount() - 1;
 
     // Because GetNextObject uses m_ObjectCount instead 
     // of m_Objects.GetSize() + m_Objects.GetFreeObjects().size() + 1
@@ -211,13 +211,13 @@ void PdfDocument::InsertDocumentPageAt(unsigned atIndex, const PdfDocument& doc,
     // prevent overlapping obj-numbers
 
     // create all free objects again, to have a clean free object list
-    for (auto& freeObj : GetObjects().GetFreeObjects())
+    for (auto& freeObj : doc.GetObjects().GetFreeObjects())
     {
         m_Objects.AddFreeObject(PdfReference(freeObj.ObjectNumber() + difference, freeObj.GenerationNumber()));
     }
 
     // append all objects first and fix their references
-    for (auto& obj : GetObjects())
+    for (auto& obj : doc.GetObjects())
     {
         PdfReference ref(static_cast<uint32_t>(obj->GetIndirectReference().ObjectNumber() + difference), obj->GetIndirectReference().GenerationNumber());
         auto newObj = new PdfObject(PdfDictionary());
-- 
2.43.0


From 1a1e0c7c22cc42bf92b44c8c91917252cbad68a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:28 +0000
Subject: [PATCH 27/58] fix: an object put in place of another belongs to the
 document

---
 src/pdfmm/base/PdfIndirectObjectList.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index 8839c28..0f71e35 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -163,6 +163,7 @@ unique_ptr<PdfObject> PdfIndirectObjectList::ReplaceObject(const PdfReference& r
     if (it == m_Objects.end() || (*it)->GetIndirectReference() != ref)
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidHandle, "Unable to find object with reference {}", ref.ToString());
 
+    obj->SetDocument(m_Document);
     auto node = m_Objects.extract(it);
     unique_ptr<PdfObject> ret(node.value());
     node.value() = obj;
-- 
2.43.0


From 540fb8313768aff92df766c4d880b5de330384bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:54 +0000
Subject: [PATCH 28/58] fix: date parsing doesn't read beyond the end of the
 text

---
 src/pdfmm/base/PdfDate.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfDate.cpp b/src/pdfmm/base/PdfDate.cpp
index 9683b4c..b94f70c 100644
--- a/src/pdfmm/base/PdfDate.cpp
+++ b/src/pdfmm/base/PdfDate.cpp
@@ -211,10 +211,13 @@ bool tryParse(const string_view& dateStr, chrono::seconds& secondsFromEpoch, nul
     int zoneHour = 0;
     int zoneMin = 0;
 
-    const char* cursor = dateStr.data();
-    if (cursor == nullptr)
+    if (dateStr.data() == nullptr)
         return false;
 
+    // The text may not be null terminated
+    const string str(dateStr);
+    const char* cursor = str.c_str();
+
     if (*cursor == 'D')
     {
         cursor++;
@@ -303,10 +306,13 @@ bool tryParseW3C(const string_view& dateStr, chrono::seconds& secondsFromEpoch,
     int zoneHour = 0;
     int zoneMin = 0;
 
-    const char* cursor = dateStr.data();
-    if (cursor == nullptr || *cursor == '\0')
+    if (dateStr.empty())
         return false;
 
+    // The text may not be null terminated
+    const string str(dateStr);
+    const char* cursor = str.c_str();
+
     if (!parseFixLenNumber(cursor, 4, 0, 9999, y))
         return false;
 
-- 
2.43.0


From ed268e62de9a751bbad61a634235418717e5b653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:54 +0000
Subject: [PATCH 29/58] fix: dates followed by other text are invalid

---
 src/pdfmm/base/PdfDate.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pdfmm/base/PdfDate.cpp b/src/pdfmm/base/PdfDate.cpp
index b94f70c..b0637b7 100644
--- a/src/pdfmm/base/PdfDate.cpp
+++ b/src/pdfmm/base/PdfDate.cpp
@@ -257,6 +257,8 @@ bool tryParse(const string_view& dateStr, chrono::seconds& secondsFromEpoch, nul
 
     PEEK_DATE_CHAR(cursor, zoneShift);
 
+    return false;
+
 ParseShift:
     hasZoneShift = true;
     if (*cursor != '\0')
@@ -285,6 +287,10 @@ ParseShift:
     }
 
 End:
+    // Nothing can follow the date
+    if (cursor != str.c_str() + str.length())
+        return false;
+
     inferTimeComponents(y, m, d, h, M, s,
         hasZoneShift, zoneShift, zoneHour, zoneMin,
         secondsFromEpoch, minutesFromUtc);
@@ -372,6 +378,10 @@ ParseShift:
     }
 
 End:
+    // Nothing can follow the date
+    if (cursor != str.c_str() + str.length())
+        return false;
+
     inferTimeComponents(y, m, d, h, M, s,
         hasZoneShift, zoneShift, zoneHour, zoneMin,
         secondsFromEpoch, minutesFromUtc);
-- 
2.43.0


From c3851fe1d3afc9cabbd7d4812cbfee474c4393e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:54 +0000
Subject: [PATCH 30/58] fix: omitted month and day of dates are 1, not 0

---
 src/pdfmm/base/PdfDate.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfDate.cpp b/src/pdfmm/base/PdfDate.cpp
index b0637b7..998c24e 100644
--- a/src/pdfmm/base/PdfDate.cpp
+++ b/src/pdfmm/base/PdfDate.cpp
@@ -200,8 +200,8 @@ bool PdfDate::operator!=(const PdfDate& rhs) const
 bool tryParse(const string_view& dateStr, chrono::seconds& secondsFromEpoch, nullable<chrono::minutes>& minutesFromUtc)
 {
     int y = 0;
-    int m = 0;
-    int d = 0;
+    int m = 1;
+    int d = 1;
     int h = 0;
     int M = 0;
     int s = 0;
@@ -301,8 +301,8 @@ End:
 bool tryParseW3C(const string_view& dateStr, chrono::seconds& secondsFromEpoch, nullable<chrono::minutes>& minutesFromUtc)
 {
     int y = 0;
-    int m = 0;
-    int d = 0;
+    int m = 1;
+    int d = 1;
     int h = 0;
     int M = 0;
     int s = 0;
@@ -458,7 +458,11 @@ bool parseFixLenNumber(const char*& in, unsigned maxLength, int min, int max, in
     for (unsigned i = 0; i < maxLength; i++)
     {
         if (in == nullptr || !isdigit(*in))
+        {
+            // An incomplete number is at least the minimum
+            ret = std::max(ret, min);
             return i != 0;
+        }
 
         ret = ret * 10 + (*in - '0');
         in++;
-- 
2.43.0


From 6c87c18887aa18592eaf8a199d14c4d7dd99c168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:54 +0000
Subject: [PATCH 31/58] fix: dates without year are invalid

---
 src/pdfmm/base/PdfDate.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/pdfmm/base/PdfDate.cpp b/src/pdfmm/base/PdfDate.cpp
index 998c24e..96c8287 100644
--- a/src/pdfmm/base/PdfDate.cpp
+++ b/src/pdfmm/base/PdfDate.cpp
@@ -225,8 +225,6 @@ bool tryParse(const string_view& dateStr, chrono::seconds& secondsFromEpoch, nul
             return false;
     }
 
-    PEEK_DATE_CHAR(cursor, zoneShift);
-
     if (!parseFixLenNumber(cursor, 4, 0, 9999, y))
         return false;
 
-- 
2.43.0


From 8d475c81ce374a1134e4dccc2b51f79fe50d0586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:54 +0000
Subject: [PATCH 32/58] fix: offsets of dates have less than 24 hours

---
 src/pdfmm/base/PdfDate.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfDate.cpp b/src/pdfmm/base/PdfDate.cpp
index 96c8287..3f86ded 100644
--- a/src/pdfmm/base/PdfDate.cpp
+++ b/src/pdfmm/base/PdfDate.cpp
@@ -261,7 +261,7 @@ ParseShift:
     hasZoneShift = true;
     if (*cursor != '\0')
     {
-        if (!parseFixLenNumber(cursor, 2, 0, 59, zoneHour))
+        if (!parseFixLenNumber(cursor, 2, 0, 23, zoneHour))
             goto End;
 
         if (*cursor == '\'')
@@ -355,7 +355,7 @@ ParseShift:
     hasZoneShift = true;
     if (*cursor != '\0')
     {
-        if (!parseFixLenNumber(cursor, 2, 0, 59, zoneHour))
+        if (!parseFixLenNumber(cursor, 2, 0, 23, zoneHour))
             goto End;
 
         if (*cursor == ':')
-- 
2.43.0


From 322b2aed711fbd88a81f9e182a90ca9b03d2d0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:54 +0000
Subject: [PATCH 33/58] fix: dates with a day the month doesn't have are
 invalid

---
 src/pdfmm/base/PdfDate.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pdfmm/base/PdfDate.cpp b/src/pdfmm/base/PdfDate.cpp
index 3f86ded..9d1e487 100644
--- a/src/pdfmm/base/PdfDate.cpp
+++ b/src/pdfmm/base/PdfDate.cpp
@@ -289,6 +289,9 @@ End:
     if (cursor != str.c_str() + str.length())
         return false;
 
+    if (!(chrono::year(y) / m / d).ok())
+        return false;
+
     inferTimeComponents(y, m, d, h, M, s,
         hasZoneShift, zoneShift, zoneHour, zoneMin,
         secondsFromEpoch, minutesFromUtc);
@@ -380,6 +383,9 @@ End:
     if (cursor != str.c_str() + str.length())
         return false;
 
+    if (!(chrono::year(y) / m / d).ok())
+        return false;
+
     inferTimeComponents(y, m, d, h, M, s,
         hasZoneShift, zoneShift, zoneHour, zoneMin,
         secondsFromEpoch, minutesFromUtc);
-- 
2.43.0


From 9efddbabc3bab36fbdd732f31c69e9537c2a4e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:54 +0000
Subject: [PATCH 34/58] fix: read the offset of W3C dates with a fraction of
 seconds

---
 src/pdfmm/base/PdfDate.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pdfmm/base/PdfDate.cpp b/src/pdfmm/base/PdfDate.cpp
index 9d1e487..8f04c27 100644
--- a/src/pdfmm/base/PdfDate.cpp
+++ b/src/pdfmm/base/PdfDate.cpp
@@ -351,6 +351,15 @@ bool tryParseW3C(const string_view& dateStr, chrono::seconds& secondsFromEpoch,
     if (!parseFixLenNumber(cursor, 2, 0, 59, s))
         return false;
 
+    // Skip the decimal fraction of a second
+    if (*cursor == '.')
+    {
+        do
+        {
+            cursor++;
+        } while (*cursor >= '0' && *cursor <= '9');
+    }
+
     if (!tryReadShiftChar(cursor, zoneShift))
         goto End;
 
-- 
2.43.0


From a162d2f6a6143b35f7a7b7cae649ac0f7814e98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:36 +0000
Subject: [PATCH 35/58] fix: dates with an invalid offset at the end are
 invalid

---
 src/pdfmm/base/PdfDate.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfDate.cpp b/src/pdfmm/base/PdfDate.cpp
index 8f04c27..e668b82 100644
--- a/src/pdfmm/base/PdfDate.cpp
+++ b/src/pdfmm/base/PdfDate.cpp
@@ -262,7 +262,7 @@ ParseShift:
     if (*cursor != '\0')
     {
         if (!parseFixLenNumber(cursor, 2, 0, 23, zoneHour))
-            goto End;
+            return false;
 
         if (*cursor == '\'')
         {
@@ -368,7 +368,7 @@ ParseShift:
     if (*cursor != '\0')
     {
         if (!parseFixLenNumber(cursor, 2, 0, 23, zoneHour))
-            goto End;
+            return false;
 
         if (*cursor == ':')
         {
-- 
2.43.0


From 5c16a95821697d8853229a108aba4f34e9ec5dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:59 +0000
Subject: [PATCH 36/58] fix: character codes of different widths are different
 keys

---
 src/pdfmm/base/PdfEncodingCommon.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfEncodingCommon.cpp b/src/pdfmm/base/PdfEncodingCommon.cpp
index c19a8d4..4130717 100644
--- a/src/pdfmm/base/PdfEncodingCommon.cpp
+++ b/src/pdfmm/base/PdfEncodingCommon.cpp
@@ -27,7 +27,10 @@ PdfCharCode::PdfCharCode(unsigned code, unsigned char codeSpaceSize)
 
 bool PdfCharCode::operator<(const PdfCharCode& rhs) const
 {
-    return Code < rhs.Code;
+    if (Code != rhs.Code)
+        return Code < rhs.Code;
+
+    return CodeSpaceSize < rhs.CodeSpaceSize;
 }
 
 bool PdfCharCode::operator==(const PdfCharCode& rhs) const
-- 
2.43.0


From dfc72bbe3bf26fe03f4a65e6521dd11bbf8b4adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:59 +0000
Subject: [PATCH 37/58] fix: width of the character code 0, largest code of
 four bytes

---
 src/pdfmm/private/PdfDeclarationsPrivate.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/private/PdfDeclarationsPrivate.cpp b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
index 48b6e6e..85b6292 100644
--- a/src/pdfmm/private/PdfDeclarationsPrivate.cpp
+++ b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
@@ -1064,12 +1064,17 @@ string utls::GetWin32ErrorMessage(unsigned rc)
 
 unsigned char utls::GetCharCodeSize(unsigned code)
 {
-    return (unsigned char)(std::log(code) / std::log(256)) + 1;
+    // NOTE: The code 0 also takes a byte
+    unsigned char ret = 1;
+    while ((code >>= CHAR_BIT) != 0)
+        ret++;
+
+    return ret;
 }
 
 unsigned utls::GetCharCodeMaxValue(unsigned char codeSize)
 {
-    return (unsigned)(std::pow(2, codeSize * CHAR_BIT)) - 1;
+    return (unsigned)(((uint64_t)1 << (codeSize * CHAR_BIT)) - 1);
 }
 
 void utls::WriteUInt32BE(OutputStream& output, uint32_t value)
-- 
2.43.0


From 399795f9d5bd1374bc7ad9300183b02ab3e0c533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:59 +0000
Subject: [PATCH 38/58] fix: last code of identity encodings has the width of
 the encoding

---
 src/pdfmm/base/PdfIdentityEncoding.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfIdentityEncoding.cpp b/src/pdfmm/base/PdfIdentityEncoding.cpp
index 491d3ff..8d3bf7b 100644
--- a/src/pdfmm/base/PdfIdentityEncoding.cpp
+++ b/src/pdfmm/base/PdfIdentityEncoding.cpp
@@ -112,5 +112,5 @@ PdfEncodingLimits getLimits(unsigned char codeSpaceSize)
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "Code space size can't be zero or bigger than 4");
 
     return { codeSpaceSize, codeSpaceSize, PdfCharCode(0, codeSpaceSize),
-        PdfCharCode((unsigned)std::pow(2, codeSpaceSize * CHAR_BIT), codeSpaceSize) };
+        PdfCharCode(utls::GetCharCodeMaxValue(codeSpaceSize), codeSpaceSize) };
 }
-- 
2.43.0


From 69997d9aa9c6043d05e0246995902debbab0d74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:59 +0000
Subject: [PATCH 39/58] fix: codes in CMaps have up to four bytes and are not
 negative

---
 src/pdfmm/base/PdfCMapEncoding.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pdfmm/base/PdfCMapEncoding.cpp b/src/pdfmm/base/PdfCMapEncoding.cpp
index 11d39be..a098781 100644
--- a/src/pdfmm/base/PdfCMapEncoding.cpp
+++ b/src/pdfmm/base/PdfCMapEncoding.cpp
@@ -329,6 +329,9 @@ static uint32_t getCodeFromVariant(const PdfVariant& var, unsigned char& codeSiz
     if (var.IsNumber())
     {
         int64_t num = var.GetNumber();
+        if (num < 0 || num > numeric_limits<uint32_t>::max())
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "CMap code out of range");
+
         uint32_t ret = (uint32_t)num;
         if (num == 0)
         {
@@ -351,6 +354,9 @@ static uint32_t getCodeFromVariant(const PdfVariant& var, unsigned char& codeSiz
     uint32_t ret = 0;
     auto& rawstr = str.GetRawData();
     unsigned len = (unsigned)rawstr.length();
+    if (len > sizeof(uint32_t))
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "CMap code is longer than four bytes");
+
     for (unsigned i = 0; i < len; i++)
     {
         uint8_t code = (uint8_t)rawstr[len - 1 - i];
-- 
2.43.0


From 8fe248dd507493f8cf73ee94889edd199793379f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:59 +0000
Subject: [PATCH 40/58] fix: ranges of ligatures in CMaps repeated the last
 character

---
 src/pdfmm/base/PdfCMapEncoding.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pdfmm/base/PdfCMapEncoding.cpp b/src/pdfmm/base/PdfCMapEncoding.cpp
index a098781..4f07eea 100644
--- a/src/pdfmm/base/PdfCMapEncoding.cpp
+++ b/src/pdfmm/base/PdfCMapEncoding.cpp
@@ -298,17 +298,17 @@ void handleRangeMapping(PdfCharCodeMap& map,
 {
     auto it = dstCodeLo.begin();
     auto end = dstCodeLo.end();
-    PDFMM_INVARIANT(it != end);
+    if (it == end)
+        return;
+
     char32_t back = dstCodeLo.back();
     vector<char32_t> newdstbase;
     // Compute a destination string that has all code points except the last one
-    if (dstCodeLo.size() != 1)
+    end--;
+    while (it != end)
     {
-        do
-        {
-            newdstbase.push_back(*it);
-            it++;
-        } while (it != end);
+        newdstbase.push_back(*it);
+        it++;
     }
 
     // Compute new destination string with last chracter/code point incremented by one
-- 
2.43.0


From eae048684946aa66b99014209ff70a8f15cea8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:59 +0000
Subject: [PATCH 41/58] fix: range of a CMap with a shorter array read beyond
 it

---
 src/pdfmm/base/PdfCMapEncoding.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdfmm/base/PdfCMapEncoding.cpp b/src/pdfmm/base/PdfCMapEncoding.cpp
index 4f07eea..e4ad507 100644
--- a/src/pdfmm/base/PdfCMapEncoding.cpp
+++ b/src/pdfmm/base/PdfCMapEncoding.cpp
@@ -154,6 +154,9 @@ PdfCharCodeMap parseCMapObject(const PdfObjectStream& stream, CodeLimits& limits
                         if (var->IsArray())
                         {
                             PdfArray& arr = var->GetArray();
+                            if (rangeSize > arr.GetSize())
+                                PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "beginbfrange: array is shorter than the range");
+
                             for (unsigned i = 0; i < rangeSize; i++)
                             {
                                 auto& dst = arr[i];
-- 
2.43.0


From 5905cc036469be35f84f543018ea5cd8f09e9279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:59 +0000
Subject: [PATCH 42/58] fix: the last code of one byte encodings was not
 written in CMaps

---
 src/pdfmm/base/PdfEncodingMap.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfEncodingMap.cpp b/src/pdfmm/base/PdfEncodingMap.cpp
index f707770..c502d75 100644
--- a/src/pdfmm/base/PdfEncodingMap.cpp
+++ b/src/pdfmm/base/PdfEncodingMap.cpp
@@ -419,7 +419,7 @@ void PdfEncodingMapOneByte::AppendToUnicodeEntries(OutputStream& stream, charbuf
     stream.Write(temp);
     stream.Write(" [\n");
     u16string u16tmp;
-    for (; code < lastCode; code++)
+    for (; code <= lastCode; code++)
     {
         if (!TryGetCodePoints(PdfCharCode(code), codePoints))
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidFontFile, "Unable to find character code");
@@ -446,7 +446,7 @@ void PdfEncodingMapOneByte::AppendCIDMappingEntries(OutputStream& stream, const
     };
 
     vector<Mapping> mappings;
-    for (; code < lastCode; code++)
+    for (; code <= lastCode; code++)
     {
         PdfCharCode charCode(code);
         if (!TryGetCodePoints(charCode, codePoints))
-- 
2.43.0


From 6dde55828d8a81fa352ad3bb24b7957654394c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:59 +0000
Subject: [PATCH 43/58] fix: the first character of a ligature alone has no
 character code

---
 src/pdfmm/base/PdfCharCodeMap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfCharCodeMap.cpp b/src/pdfmm/base/PdfCharCodeMap.cpp
index cd65fd5..9ae8e3e 100644
--- a/src/pdfmm/base/PdfCharCodeMap.cpp
+++ b/src/pdfmm/base/PdfCharCodeMap.cpp
@@ -128,7 +128,7 @@ bool PdfCharCodeMap::TryGetCharCode(codepoint codePoint, PdfCharCode& code) cons
 {
     const_cast<PdfCharCodeMap&>(*this).reviseCPMap();
     auto node = findNode(m_codePointMapHead, codePoint);
-    if (node == nullptr)
+    if (node == nullptr || node->CodeUnit.CodeSpaceSize == 0)
     {
         code = { };
         return false;
-- 
2.43.0


From 96d3ccf8466a48c06252444c8c065287c04399c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:16 +0000
Subject: [PATCH 44/58] fix: last incomplete entry of a cross-reference stream
 read beyond its data

---
 src/pdfmm/base/PdfXRefStreamParserObject.cpp | 21 ++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/pdfmm/base/PdfXRefStreamParserObject.cpp b/src/pdfmm/base/PdfXRefStreamParserObject.cpp
index 472ffd9..e9b4c5b 100644
--- a/src/pdfmm/base/PdfXRefStreamParserObject.cpp
+++ b/src/pdfmm/base/PdfXRefStreamParserObject.cpp
@@ -104,6 +104,15 @@ void PdfXRefStreamParserObject::parseStream(const int64_t wArray[W_ARRAY_SIZE],
         {
             lengthSum += wArray[i];
         }
+
+        if (wArray[i] > W_MAX_BYTES)
+        {
+            mm::LogMessage(PdfLogSeverity::Error,
+                "The XRef stream dictionary has an entry in /W of size {}. The maximum supported value is {}",
+                wArray[i], W_MAX_BYTES);
+
+            PDFMM_RAISE_ERROR(PdfErrorCode::InvalidXRefStream);
+        }
     }
 
     const size_t entryLen = static_cast<size_t>(wArray[0] + wArray[1] + wArray[2]);
@@ -121,7 +130,8 @@ void PdfXRefStreamParserObject::parseStream(const int64_t wArray[W_ARRAY_SIZE],
         m_entries->Enlarge(firstObj + count);
         for (unsigned index = 0; index < (unsigned)count; index++)
         {
-            if ((size_t)(cursor - buffer.data()) >= buffer.size())
+            size_t offset = (size_t)(cursor - buffer.data());
+            if (offset >= buffer.size() || buffer.size() - offset < entryLen)
                 PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NoXRef, "Invalid count in XRef stream");
 
             unsigned objIndex = (unsigned)firstObj + index;
@@ -165,15 +175,6 @@ void PdfXRefStreamParserObject::readXRefStreamEntry(PdfXRefEntry& entry, char* b
     uint64_t entryRaw[W_ARRAY_SIZE];
     for (unsigned i = 0; i < W_ARRAY_SIZE; i++)
     {
-        if (wArray[i] > W_MAX_BYTES)
-        {
-            mm::LogMessage(PdfLogSeverity::Error,
-                "The XRef stream dictionary has an entry in /W of size {}. The maximum supported value is {}",
-                wArray[i], W_MAX_BYTES);
-
-            PDFMM_RAISE_ERROR(PdfErrorCode::InvalidXRefStream);
-        }
-
         entryRaw[i] = 0;
         for (int64_t z = W_MAX_BYTES - wArray[i]; z < W_MAX_BYTES; z++)
         {
-- 
2.43.0


From 42b725d62618b72a350c6a7dd59d67092d1bb8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:16 +0000
Subject: [PATCH 45/58] fix: negative numbers and counts in the index of
 cross-reference streams

---
 src/pdfmm/base/PdfXRefStreamParserObject.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdfmm/base/PdfXRefStreamParserObject.cpp b/src/pdfmm/base/PdfXRefStreamParserObject.cpp
index e9b4c5b..2c36b3d 100644
--- a/src/pdfmm/base/PdfXRefStreamParserObject.cpp
+++ b/src/pdfmm/base/PdfXRefStreamParserObject.cpp
@@ -127,6 +127,9 @@ void PdfXRefStreamParserObject::parseStream(const int64_t wArray[W_ARRAY_SIZE],
         int64_t firstObj = *it++;
         int64_t count = *it++;
 
+        if (firstObj < 0 || count < 0 || count > numeric_limits<int64_t>::max() - firstObj)
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NoXRef, "Invalid XRef Stream /Index");
+
         m_entries->Enlarge(firstObj + count);
         for (unsigned index = 0; index < (unsigned)count; index++)
         {
-- 
2.43.0


From e8808d68d6ea667a0ccc3e5597988ceea5d3dc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:16 +0000
Subject: [PATCH 46/58] fix: overflow of the size of cross-reference sections

---
 src/pdfmm/base/PdfParser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfParser.cpp b/src/pdfmm/base/PdfParser.cpp
index a74b5e9..80ae158 100644
--- a/src/pdfmm/base/PdfParser.cpp
+++ b/src/pdfmm/base/PdfParser.cpp
@@ -456,7 +456,10 @@ void PdfParser::ReadXRefSubsection(InputStreamDevice& device, int64_t& firstObje
     if (objectCount < 0)
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "ReadXRefSubsection: object count is negative");
 
-    m_entries.Enlarge((uint64_t)(firstObject + objectCount));
+    if (objectCount > numeric_limits<int64_t>::max() - firstObject)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "ReadXRefSubsection: too many objects");
+
+    m_entries.Enlarge(firstObject + objectCount);
 
     // consume all whitespaces
     char ch;
-- 
2.43.0


From b9c43b38bcad7a5cb6a30ee52ebb898eefe49b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:32 +0000
Subject: [PATCH 47/58] fix: AES-256 data decrypted without removing the
 padding after authentication

---
 src/pdfmm/base/PdfEncrypt.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index 507a095..c0633c8 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -1190,6 +1190,9 @@ void PdfEncryptAESBase::BaseDecrypt(const unsigned char* key, unsigned keyLen, c
     if (rc != 1)
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error initializing AES decryption engine");
 
+    // The engine may have been used without padding before
+    EVP_CIPHER_CTX_set_padding(aes, 1);
+
     int dataOutMoved;
     rc = EVP_DecryptUpdate(aes, textout, &dataOutMoved, textin, (int)textlen);
     outLen = dataOutMoved;
@@ -1222,6 +1225,9 @@ void PdfEncryptAESBase::BaseEncrypt(const unsigned char* key, unsigned keyLen, c
     if (rc != 1)
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error initializing AES encryption engine");
 
+    // The engine may have been used without padding before
+    EVP_CIPHER_CTX_set_padding(aes, 1);
+
     int dataOutMoved;
     rc = EVP_EncryptUpdate(aes, textout, &dataOutMoved, textin, (int)textlen);
     if (rc != 1)
-- 
2.43.0


From 9bd14f3e5e6801b4c59b708a85c346e323827b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:32 +0000
Subject: [PATCH 48/58] fix: RC4 file keys of a length other than the one of
 the handler

---
 src/pdfmm/base/PdfEncrypt.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index c0633c8..00cb75d 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -654,6 +654,7 @@ bool PdfEncryptMD5Base::Authenticate(const string_view& documentID, const string
     PdfPermissions pValue, int lengthValue, int rValue)
 {
     m_pValue = pValue;
+    m_eKeyLength = static_cast<PdfKeyLength>(lengthValue);
     m_keyLength = lengthValue / 8;
     m_rValue = rValue;
 
@@ -1106,7 +1107,6 @@ PdfEncryptRC4::PdfEncryptRC4(const string_view& userPassword, const string_view&
     m_userPass = userPassword;
     m_ownerPass = ownerPassword;
     m_Algorithm = algorithm;
-    m_eKeyLength = keyLength;
     int intKeyLength = static_cast<int>(keyLength);
 
     switch (algorithm)
@@ -1136,6 +1136,8 @@ PdfEncryptRC4::PdfEncryptRC4(const string_view& userPassword, const string_view&
         }
     }
 
+    m_eKeyLength = static_cast<PdfKeyLength>(m_keyLength * 8);
+
     // Init buffers
     std::memset(m_rc4key, 0, 16);
     std::memset(m_oValue, 0, 48);
-- 
2.43.0


From 89a7a29bea81ce6cba4cd1ea7cac72f29882dfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:32 +0000
Subject: [PATCH 49/58] fix: EncryptMetadata considered in encryption
 dictionaries below version 4

---
 src/pdfmm/base/PdfEncrypt.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index 00cb75d..2a8d867 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -488,7 +488,8 @@ unique_ptr<PdfEncrypt> PdfEncrypt::CreateFromObject(const PdfObject& encryptObj)
             length = 0;
 
         const PdfObject* encryptMetadataObj = encryptObj.GetDictionary().GetKey("EncryptMetadata");
-        if (encryptMetadataObj != nullptr && encryptMetadataObj->IsBool())
+        // The key is meaningful only in encryption dictionaries of version 4 or greater
+        if (lV >= 4 && encryptMetadataObj != nullptr && encryptMetadataObj->IsBool())
             encryptMetadata = encryptMetadataObj->GetBool();
 
         auto stmfObj = encryptObj.GetDictionary().GetKey("StmF");
-- 
2.43.0


From dfb1439e68d2f29829c0ba82e02697fde6e838ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:32 +0000
Subject: [PATCH 50/58] fix: passwords checked with only a part of the user
 entry

---
 src/pdfmm/base/PdfEncrypt.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index 2a8d867..0e56606 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -608,9 +608,11 @@ PdfEncrypt::PdfEncrypt(const PdfEncrypt& rhs)
 
 bool PdfEncrypt::CheckKey(unsigned char key1[32], unsigned char key2[32])
 {
-    // Check whether the right password had been given
+    // Check whether the right password had been given. The last
+    // 16 bytes of the U value are arbitrary in revision 3 and 4
     bool success = true;
-    for (unsigned k = 0; success && k < m_keyLength; k++)
+    unsigned length = m_rValue == 3 || m_rValue == 4 ? 16 : 32;
+    for (unsigned k = 0; success && k < length; k++)
         success = success && (key1[k] == key2[k]);
 
     return success;
-- 
2.43.0


From c41a42b44bd66edf99b37ffb6fa772c477eaff66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:32 +0000
Subject: [PATCH 51/58] fix: empty owner password accepted where no owner
 password is set

---
 src/pdfmm/base/PdfEncrypt.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index 0e56606..d238870 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -1007,8 +1007,9 @@ void PdfEncryptRC4::GenerateEncryptionKey(const string_view& documentId)
     unsigned char ownerpswd[32];
 
     // Pad passwords
+    // NOTE: Without owner password the user password is used instead
     PadPassword(m_userPass, userpswd);
-    PadPassword(m_ownerPass, ownerpswd);
+    PadPassword(m_ownerPass.empty() ? m_userPass : m_ownerPass, ownerpswd);
 
     // Compute O value
     ComputeOwnerKey(userpswd, ownerpswd, m_keyLength, m_rValue, false, m_oValue);
@@ -1249,8 +1250,9 @@ void PdfEncryptAESV2::GenerateEncryptionKey(const string_view& documentId)
     unsigned char ownerpswd[32];
 
     // Pad passwords
+    // NOTE: Without owner password the user password is used instead
     PadPassword(m_userPass, userpswd);
-    PadPassword(m_ownerPass, ownerpswd);
+    PadPassword(m_ownerPass.empty() ? m_userPass : m_ownerPass, ownerpswd);
 
     // Compute O value
     ComputeOwnerKey(userpswd, ownerpswd, m_keyLength, m_rValue, false, m_oValue);
-- 
2.43.0


From f17062b8b9fa95517b7496628671ac66989efd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:21 +0000
Subject: [PATCH 52/58] fix: values of encryption dictionaries read beyond
 their end, key lengths out of range

---
 src/pdfmm/base/PdfEncrypt.cpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index d238870..d02c282 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -485,7 +485,7 @@ unique_ptr<PdfEncrypt> PdfEncrypt::CreateFromObject(const PdfObject& encryptObj)
         if (encryptObj.GetDictionary().HasKey("Length"))
             length = encryptObj.GetDictionary().GetKey("Length")->GetNumber();
         else
-            length = 0;
+            length = lV == 4 ? 128 : 40;
 
         const PdfObject* encryptMetadataObj = encryptObj.GetDictionary().GetKey("EncryptMetadata");
         // The key is meaningful only in encryption dictionaries of version 4 or greater
@@ -514,9 +514,17 @@ unique_ptr<PdfEncrypt> PdfEncrypt::CreateFromObject(const PdfObject& encryptObj)
         throw e;
     }
 
+    // O and U values are accessed to their full length later
+    auto checkEntries = [&](size_t minSize)
+    {
+        if (oValue.GetRawData().size() < minSize || uValue.GetRawData().size() < minSize)
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidEncryptionDict, "Invalid size of O or U value");
+    };
+
     if ((lV == 1) && (rValue == 2 || rValue == 3)
         && PdfEncrypt::IsEncryptionEnabled(PdfEncryptAlgorithm::RC4V1))
     {
+        checkEntries(32);
         return unique_ptr<PdfEncrypt>(new PdfEncryptRC4(oValue, uValue, pValue, rValue, PdfEncryptAlgorithm::RC4V1, (int)PdfKeyLength::L40, encryptMetadata));
     }
     else if ((((lV == 2) && (rValue == 3)) || cfmName == "V2")
@@ -529,6 +537,11 @@ unique_ptr<PdfEncrypt> PdfEncrypt::CreateFromObject(const PdfObject& encryptObj)
         {
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "Given key length too large for MD5");
         }
+        if (length < (int)PdfKeyLength::L40 || length % CHAR_BIT != 0)
+        {
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "Given key length too small or not a multiple of 8");
+        }
+        checkEntries(32);
         return unique_ptr<PdfEncrypt>(new PdfEncryptRC4(oValue, uValue, pValue, rValue, PdfEncryptAlgorithm::RC4V2, static_cast<int>(length), encryptMetadata));
     }
     else
@@ -536,6 +549,7 @@ unique_ptr<PdfEncrypt> PdfEncrypt::CreateFromObject(const PdfObject& encryptObj)
         if ((lV == 4) && (rValue == 4)
             && PdfEncrypt::IsEncryptionEnabled(PdfEncryptAlgorithm::AESV2))
         {
+            checkEntries(32);
             return unique_ptr<PdfEncrypt>(new PdfEncryptAESV2(oValue, uValue, pValue, encryptMetadata));
         }
 #ifdef PDFMM_HAVE_LIBIDN
@@ -543,9 +557,12 @@ unique_ptr<PdfEncrypt> PdfEncrypt::CreateFromObject(const PdfObject& encryptObj)
             (rValue == 5 && PdfEncrypt::IsEncryptionEnabled(PdfEncryptAlgorithm::AESV3))
             || (rValue == 6 && PdfEncrypt::IsEncryptionEnabled(PdfEncryptAlgorithm::AESV3R6))))
         {
-            PdfString permsValue = encryptObj.GetDictionary().GetKey("Perms")->GetString();
-            PdfString oeValue = encryptObj.GetDictionary().GetKey("OE")->GetString();
-            PdfString ueValue = encryptObj.GetDictionary().GetKey("UE")->GetString();
+            checkEntries(48);
+            PdfString permsValue = encryptObj.GetDictionary().MustGetKey("Perms").GetString();
+            PdfString oeValue = encryptObj.GetDictionary().MustGetKey("OE").GetString();
+            PdfString ueValue = encryptObj.GetDictionary().MustGetKey("UE").GetString();
+            if (permsValue.GetRawData().size() < 16 || oeValue.GetRawData().size() < 32 || ueValue.GetRawData().size() < 32)
+                PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidEncryptionDict, "Invalid size of Perms, OE or UE value");
 
             return unique_ptr<PdfEncrypt>(new PdfEncryptAESV3(oValue, oeValue, uValue,
                 ueValue, pValue, permsValue, (PdfAESV3Revision)rValue));
-- 
2.43.0


From e39dbd9b18f0d24bbf64da9c964b4d46a430709a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:21 +0000
Subject: [PATCH 53/58] fix: RC4 key schedule of another key reused

---
 src/pdfmm/base/PdfEncrypt.cpp | 54 ++++++++++-------------------------
 src/pdfmm/base/PdfEncrypt.h   |  4 ---
 2 files changed, 15 insertions(+), 43 deletions(-)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index d02c282..b618543 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -140,34 +140,23 @@ private:
 class PdfRC4Stream
 {
 public:
-    PdfRC4Stream(unsigned char rc4key[256], unsigned char rc4last[256],
-        unsigned char* key, unsigned keylen) :
+    PdfRC4Stream(const unsigned char* key, unsigned keylen) :
         m_a(0), m_b(0)
     {
         size_t i;
         size_t j;
         size_t t;
 
-        if (std::memcmp(key, rc4key, keylen) != 0)
-        {
-            for (i = 0; i < 256; i++)
-                m_rc4[i] = static_cast<unsigned char>(i);
-
-            j = 0;
-            for (i = 0; i < 256; i++)
-            {
-                t = static_cast<size_t>(m_rc4[i]);
-                j = (j + t + static_cast<size_t>(key[i % keylen])) % 256;
-                m_rc4[i] = m_rc4[j];
-                m_rc4[j] = static_cast<unsigned char>(t);
-            }
+        for (i = 0; i < 256; i++)
+            m_rc4[i] = static_cast<unsigned char>(i);
 
-            std::memcpy(rc4key, key, keylen);
-            std::memcpy(rc4last, m_rc4, 256);
-        }
-        else
+        j = 0;
+        for (i = 0; i < 256; i++)
         {
-            std::memcpy(m_rc4, rc4last, 256);
+            t = static_cast<size_t>(m_rc4[i]);
+            j = (j + t + static_cast<size_t>(key[i % keylen])) % 256;
+            m_rc4[i] = m_rc4[j];
+            m_rc4[j] = static_cast<unsigned char>(t);
         }
     }
 
@@ -219,9 +208,8 @@ private:
 class PdfRC4OutputStream : public OutputStream
 {
 public:
-    PdfRC4OutputStream(OutputStream& outputStream, unsigned char rc4key[256],
-        unsigned char rc4last[256], unsigned char* key, unsigned keylen) :
-        m_OutputStream(&outputStream), m_stream(rc4key, rc4last, key, keylen)
+    PdfRC4OutputStream(OutputStream& outputStream, const unsigned char* key, unsigned keylen) :
+        m_OutputStream(&outputStream), m_stream(key, keylen)
     {
     }
 
@@ -245,11 +233,10 @@ private:
 class PdfRC4InputStream : public InputStream
 {
 public:
-    PdfRC4InputStream(InputStream& inputStream, size_t inputLen, unsigned char rc4key[256], unsigned char rc4last[256],
-        unsigned char* key, unsigned keylen) :
+    PdfRC4InputStream(InputStream& inputStream, size_t inputLen, const unsigned char* key, unsigned keylen) :
         m_InputStream(&inputStream),
         m_inputLen(inputLen),
-        m_stream(rc4key, rc4last, key, keylen) { }
+        m_stream(key, keylen) { }
 
 protected:
     size_t readBuffer(char* buffer, size_t size, bool& eof) override
@@ -636,7 +623,6 @@ bool PdfEncrypt::CheckKey(unsigned char key1[32], unsigned char key2[32])
 }
 
 PdfEncryptMD5Base::PdfEncryptMD5Base()
-    : m_rc4key{ }, m_rc4last{ }
 {
 }
 
@@ -649,8 +635,6 @@ PdfEncryptMD5Base::PdfEncryptMD5Base(const PdfEncrypt& rhs) : PdfEncrypt(rhs)
 
     std::memcpy(m_encryptionKey, rhs.GetEncryptionKey(), sizeof(unsigned char) * 16);
 
-    std::memcpy(m_rc4key, static_cast<const PdfEncryptMD5Base*>(ptr)->m_rc4key, sizeof(unsigned char) * 16);
-    std::memcpy(m_rc4last, static_cast<const PdfEncryptMD5Base*>(ptr)->m_rc4last, sizeof(unsigned char) * 256);
     m_EncryptMetadata = static_cast<const PdfEncryptMD5Base*>(ptr)->m_EncryptMetadata;
 }
 
@@ -1100,7 +1084,7 @@ unique_ptr<InputStream> PdfEncryptRC4::CreateEncryptionInputStream(InputStream&
     unsigned char objkey[MD5_DIGEST_LENGTH];
     unsigned keylen;
     this->CreateObjKey(objkey, keylen, objref);
-    return unique_ptr<InputStream>(new PdfRC4InputStream(inputStream, inputLen, m_rc4key, m_rc4last, objkey, keylen));
+    return unique_ptr<InputStream>(new PdfRC4InputStream(inputStream, inputLen, objkey, keylen));
 }
 
 PdfEncryptRC4::PdfEncryptRC4(PdfString oValue, PdfString uValue, PdfPermissions pValue, int rValue,
@@ -1116,8 +1100,6 @@ PdfEncryptRC4::PdfEncryptRC4(PdfString oValue, PdfString uValue, PdfPermissions
     std::memcpy(m_uValue, uValue.GetRawData().data(), 32);
 
     // Init buffers
-    std::memset(m_rc4key, 0, 16);
-    std::memset(m_rc4last, 0, 256);
     std::memset(m_encryptionKey, 0, 32);
 }
 
@@ -1160,10 +1142,8 @@ PdfEncryptRC4::PdfEncryptRC4(const string_view& userPassword, const string_view&
     m_eKeyLength = static_cast<PdfKeyLength>(m_keyLength * 8);
 
     // Init buffers
-    std::memset(m_rc4key, 0, 16);
     std::memset(m_oValue, 0, 48);
     std::memset(m_uValue, 0, 48);
-    std::memset(m_rc4last, 0, 256);
     std::memset(m_encryptionKey, 0, 32);
 
     // Compute P value
@@ -1178,7 +1158,7 @@ unique_ptr<OutputStream> PdfEncryptRC4::CreateEncryptionOutputStream(OutputStrea
     unsigned char objkey[MD5_DIGEST_LENGTH];
     unsigned keylen;
     this->CreateObjKey(objkey, keylen, objref);
-    return unique_ptr<OutputStream>(new PdfRC4OutputStream(outputStream, m_rc4key, m_rc4last, objkey, keylen));
+    return unique_ptr<OutputStream>(new PdfRC4OutputStream(outputStream, objkey, keylen));
 }
     
 PdfEncryptAESBase::PdfEncryptAESBase()
@@ -1360,8 +1340,6 @@ PdfEncryptAESV2::PdfEncryptAESV2(const string_view& userPassword, const string_v
     m_keyLength = (int)PdfKeyLength::L128 / 8;
 
     // Init buffers
-    std::memset(m_rc4key, 0, 16);
-    std::memset(m_rc4last, 0, 256);
     std::memset(m_oValue, 0, 48);
     std::memset(m_uValue, 0, 48);
     std::memset(m_encryptionKey, 0, 32);
@@ -1386,8 +1364,6 @@ PdfEncryptAESV2::PdfEncryptAESV2(PdfString oValue, PdfString uValue, PdfPermissi
     std::memcpy(m_uValue, uValue.GetRawData().data(), 32);
 
     // Init buffers
-    std::memset(m_rc4key, 0, 16);
-    std::memset(m_rc4last, 0, 256);
     std::memset(m_encryptionKey, 0, 32);
 }
 
diff --git a/src/pdfmm/base/PdfEncrypt.h b/src/pdfmm/base/PdfEncrypt.h
index d4cb626..3cbf81c 100644
--- a/src/pdfmm/base/PdfEncrypt.h
+++ b/src/pdfmm/base/PdfEncrypt.h
@@ -574,10 +574,6 @@ protected:
      *  \param pnKeyLen pointer to an integer where the actual keylength is stored.
      */
     void CreateObjKey(unsigned char objkey[16], unsigned& pnKeyLen, const PdfReference& objref) const;
-
-    unsigned char m_rc4key[16];         // last RC4 key
-    unsigned char m_rc4last[256];       // last RC4 state table
-
 };
 
 /** A class that is used to encrypt a PDF file (AES-128)
-- 
2.43.0


From 2feaa7a89127514cd771607e221df90db4e7e3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:14 +0000
Subject: [PATCH 54/58] fix: AES input stream wrote beyond the buffer, repeated
 and lost data

---
 src/pdfmm/base/PdfEncrypt.cpp | 128 ++++++++++++++++++----------------
 1 file changed, 68 insertions(+), 60 deletions(-)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index b618543..d09279d 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -268,7 +268,8 @@ public:
         m_inputEof(false),
         m_init(true),
         m_keyLen(keylen),
-        m_drainLeft(-1)
+        m_tempOffset(0),
+        m_tempLeft(0)
     {
         m_ctx = EVP_CIPHER_CTX_new();
         if (m_ctx == nullptr)
@@ -285,88 +286,94 @@ public:
 protected:
     size_t readBuffer(char* buffer, size_t len, bool& eof) override
     {
-        int outlen = 0;
-        size_t drainLen;
-        size_t read;
-        if (m_inputEof)
-            goto DrainBuffer;
-
-        int rc;
         if (m_init)
         {
-            // Read the initialization vector separately first
-            char iv[AES_IV_LENGTH];
-            bool streameof;
-            read = ReadBuffer(*m_InputStream, iv, AES_IV_LENGTH, streameof);
-            if (read != AES_IV_LENGTH)
-                PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnexpectedEOF, "Can't read enough bytes for AES IV");
-
-            const EVP_CIPHER* cipher;
-            switch (m_keyLen)
+            initDecryption();
+            m_init = false;
+        }
+
+        if (m_tempLeft == 0 && !m_inputEof)
+            decryptChunk(buffer, len);
+
+        size_t count = std::min(len, m_tempLeft);
+        std::memcpy(buffer, m_tempBuffer.data() + m_tempOffset, count);
+        m_tempOffset += count;
+        m_tempLeft -= count;
+        eof = m_inputEof && m_tempLeft == 0;
+        return count;
+    }
+
+private:
+    void initDecryption()
+    {
+        if (m_inputLen <= AES_IV_LENGTH)
+        {
+            // Is empty
+            m_inputEof = true;
+            return;
+        }
+
+        // Read the initialization vector separately first
+        char iv[AES_IV_LENGTH];
+        bool streameof;
+        size_t read = ReadBuffer(*m_InputStream, iv, AES_IV_LENGTH, streameof);
+        if (read != AES_IV_LENGTH)
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnexpectedEOF, "Can't read enough bytes for AES IV");
+
+        const EVP_CIPHER* cipher;
+        switch (m_keyLen)
+        {
+            case (size_t)PdfKeyLength::L128 / 8:
             {
-                case (size_t)PdfKeyLength::L128 / 8:
-                {
-                    cipher = EVP_aes_128_cbc();
-                    break;
-                }
+                cipher = EVP_aes_128_cbc();
+                break;
+            }
 #ifdef PDFMM_HAVE_LIBIDN
-                case (size_t)PdfKeyLength::L256 / 8:
-                {
-                    cipher = EVP_aes_256_cbc();
-                    break;
-                }
-#endif
-                default:
-                    PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Invalid AES key length");
+            case (size_t)PdfKeyLength::L256 / 8:
+            {
+                cipher = EVP_aes_256_cbc();
+                break;
             }
+#endif
+            default:
+                PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Invalid AES key length");
+        }
 
-            rc = EVP_DecryptInit_ex(m_ctx, cipher, nullptr, m_key, (unsigned char*)iv);
-            if (rc != 1)
-                PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error initializing AES encryption engine");
+        int rc = EVP_DecryptInit_ex(m_ctx, cipher, nullptr, m_key, (unsigned char*)iv);
+        if (rc != 1)
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error initializing AES encryption engine");
 
-            m_inputLen -= AES_IV_LENGTH;
-            m_init = false;
-        }
+        m_inputLen -= AES_IV_LENGTH;
+    }
 
+    // Decrypt the next at most len bytes, using buffer to read them
+    void decryptChunk(char* buffer, size_t len)
+    {
         bool streameof;
-        read = ReadBuffer(*m_InputStream, buffer, std::min(len, m_inputLen), streameof);
+        size_t read = ReadBuffer(*m_InputStream, buffer, std::min(len, m_inputLen), streameof);
         m_inputLen -= read;
 
         // Quote openssl.org: "the decrypted data buffer out passed to EVP_DecryptUpdate() should have sufficient room
         //  for (inl + cipher_block_size) bytes unless the cipher block size is 1 in which case inl bytes is sufficient."
-        // So we need to create a buffer that is bigger than len.
-        m_tempBuffer.resize(len + AES_BLOCK_SIZE);
-        rc = EVP_DecryptUpdate(m_ctx, m_tempBuffer.data(), &outlen, (unsigned char*)buffer, (int)read);
-
+        // One more block can be needed for EVP_DecryptFinal_ex()
+        m_tempBuffer.resize(len + 2 * AES_BLOCK_SIZE);
+        int outlen = 0;
+        int rc = EVP_DecryptUpdate(m_ctx, m_tempBuffer.data(), &outlen, (unsigned char*)buffer, (int)read);
         if (rc != 1)
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error AES-decryption data");
 
-        PDFMM_ASSERT((size_t)outlen <= len);
-        std::memcpy(buffer, m_tempBuffer.data(), (size_t)outlen);
+        m_tempOffset = 0;
+        m_tempLeft = (size_t)outlen;
 
         if (m_inputLen == 0 || streameof)
         {
             m_inputEof = true;
-
-            int drainLeft;
-            rc = EVP_DecryptFinal_ex(m_ctx, m_tempBuffer.data(), &drainLeft);
+            rc = EVP_DecryptFinal_ex(m_ctx, m_tempBuffer.data() + outlen, &outlen);
             if (rc != 1)
                 PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error AES-decryption data padding");
 
-            m_drainLeft = (size_t)drainLeft;
-            goto DrainBuffer;
+            m_tempLeft += (size_t)outlen;
         }
-
-        return outlen;
-
-    DrainBuffer:
-        drainLen = std::min(len - outlen, m_drainLeft);
-        std::memcpy(buffer + outlen, m_tempBuffer.data(), drainLen);
-        m_drainLeft -= (int)drainLen;
-        if (m_drainLeft == 0)
-            eof = true;
-
-        return outlen + drainLen;
     }
 
 private:
@@ -378,7 +385,8 @@ private:
     unsigned char m_key[32];
     unsigned m_keyLen;
     vector<unsigned char> m_tempBuffer;
-    size_t m_drainLeft;
+    size_t m_tempOffset;
+    size_t m_tempLeft;
 };
 
 }
-- 
2.43.0


From fa1d1140cba9df5fec17c72f3dd8d6e1d0ffa75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:13 +0000
Subject: [PATCH 55/58] fix: key length not kept in encryption dictionaries
 with crypt filters

---
 src/pdfmm/base/PdfEncrypt.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index d09279d..6e5d097 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -974,7 +974,7 @@ void PdfEncryptMD5Base::CreateEncryptionDictionary(PdfDictionary& dictionary) co
             stdCf.AddKey("CFM", PdfName("V2"));
         else
             stdCf.AddKey("CFM", PdfName("AESV2"));
-        stdCf.AddKey("Length", static_cast<int64_t>(16));
+        stdCf.AddKey("Length", static_cast<int64_t>(m_keyLength));
 
         dictionary.AddKey("O", PdfString::FromRaw({ reinterpret_cast<const char*>(this->GetOValue()), 32 }));
         dictionary.AddKey("U", PdfString::FromRaw({ reinterpret_cast<const char*>(this->GetUValue()), 32 }));
@@ -988,7 +988,7 @@ void PdfEncryptMD5Base::CreateEncryptionDictionary(PdfDictionary& dictionary) co
 
         dictionary.AddKey("V", static_cast<int64_t>(4));
         dictionary.AddKey("R", static_cast<int64_t>(4));
-        dictionary.AddKey("Length", static_cast<int64_t>(128));
+        dictionary.AddKey("Length", static_cast<int64_t>(m_eKeyLength));
         if (!m_EncryptMetadata)
             dictionary.AddKey("EncryptMetadata", PdfVariant(false));
     }
-- 
2.43.0


From 2e5cb48e9dba7499156fdd6ad06e0ac7f4972c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:54 +0000
Subject: [PATCH 56/58] fix: PDFDocEncoding code 0x16 was mapped to U+0017

---
 src/pdfmm/private/PdfEncodingPrivate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/private/PdfEncodingPrivate.cpp b/src/pdfmm/private/PdfEncodingPrivate.cpp
index 7bb4cce..6908955 100644
--- a/src/pdfmm/private/PdfEncodingPrivate.cpp
+++ b/src/pdfmm/private/PdfEncodingPrivate.cpp
@@ -37,7 +37,7 @@ static const char32_t s_cEncoding[] = {
     0x0013,
     0x0014,
     0x0015,
-    0x0017,
+    0x0016,
     0x0017,
     0x02D8,
     0x02C7, // dec 25
-- 
2.43.0


From a72b17b32f2158d0847bc77b4cfb97fa87cf6113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:54 +0000
Subject: [PATCH 57/58] fix: comparison of PDFDocEncoding with UTF-8 used
 positions as codes

---
 src/pdfmm/private/PdfEncodingPrivate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/private/PdfEncodingPrivate.cpp b/src/pdfmm/private/PdfEncodingPrivate.cpp
index 6908955..b609651 100644
--- a/src/pdfmm/private/PdfEncodingPrivate.cpp
+++ b/src/pdfmm/private/PdfEncodingPrivate.cpp
@@ -307,7 +307,7 @@ bool mm::IsPdfDocEncodingCoincidentToUTF8(const string_view& view)
     for (size_t i = 0; i < view.length(); i++)
     {
         unsigned char ch = view[i];
-        if (ch != s_cEncoding[i])
+        if (ch >= 0x80 || ch != s_cEncoding[ch])
             return false;
     }
 
-- 
2.43.0


From c25f80fd0118a627f2d9430b3081a08e9ba829d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:54 +0000
Subject: [PATCH 58/58] fix: text starting with the characters of an encoding
 marker was read back as UTF-16 or UTF-8

---
 src/pdfmm/base/PdfString.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfString.cpp b/src/pdfmm/base/PdfString.cpp
index b0c04f5..da1d290 100644
--- a/src/pdfmm/base/PdfString.cpp
+++ b/src/pdfmm/base/PdfString.cpp
@@ -312,8 +312,11 @@ void PdfString::initFromUtf8String(const string_view& view)
         return;
     }
 
+    // NOTE: Text that starts with the characters of an encoding
+    // marker can't be represented in PdfDocEncoding
     bool isAsciiEqual;
-    if (mm::CheckValidUTF8ToPdfDocEcondingChars(view, isAsciiEqual))
+    if (mm::CheckValidUTF8ToPdfDocEcondingChars(view, isAsciiEqual)
+            && (isAsciiEqual || getEncoding(mm::ConvertUTF8ToPdfDocEncoding(view)) == StringEncoding::PdfDocEncoding))
         m_data.reset(new StringData{ isAsciiEqual ? PdfStringState::Ascii : PdfStringState::PdfDocEncoding, charbuff(view) });
     else
         m_data.reset(new StringData{ PdfStringState::Unicode, charbuff(view) });
-- 
2.43.0

