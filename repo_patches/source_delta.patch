From 2a27d355e6e842a742690d05f840411bf0db9b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:07 +0000
Subject: [PATCH 001/126] fix: write text that starts like a byte order mark in
 UTF-16

---
 src/pdfmm/base/PdfString.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfString.cpp b/src/pdfmm/base/PdfString.cpp
index 31be2a3..6322ce6 100644
--- a/src/pdfmm/base/PdfString.cpp
+++ b/src/pdfmm/base/PdfString.cpp
@@ -312,8 +312,11 @@ void PdfString::initFromUtf8String(const string_view& view)
         return;
     }
 
+    // NOTE: A text starting with characters whose PdfDocEncoding bytes
+    // coincide with a byte order mark must be written in UTF-16
     bool isAsciiEqual;
-    if (mm::CheckValidUTF8ToPdfDocEcondingChars(view, isAsciiEqual))
+    if (mm::CheckValidUTF8ToPdfDocEcondingChars(view, isAsciiEqual)
+        && (isAsciiEqual || getEncoding(mm::ConvertUTF8ToPdfDocEncoding(view)) == StringEncoding::PdfDocEncoding))
         m_data.reset(new StringData{ isAsciiEqual ? PdfStringState::Ascii : PdfStringState::PdfDocEncoding, charbuff(view) });
     else
         m_data.reset(new StringData{ PdfStringState::Unicode, charbuff(view) });
-- 
2.43.0


From 3e2f571993c842a5698adfa65c9bcdaeb3556e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:45 +0000
Subject: [PATCH 002/126] fix: keep the second of two numbers at the end of the
 input

---
 src/pdfmm/base/PdfTokenizer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index 0a7618b..f98995c 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -337,6 +337,7 @@ PdfTokenizer::PdfLiteralDataType PdfTokenizer::DetermineDataType(InputStreamDevi
                 if (!gotToken)
                 {
                     // No third token, so it can't be a reference
+                    this->EnqueueToken(tmp, secondTokenType);
                     return PdfLiteralDataType::Number;
                 }
                 if (thirdTokenType == PdfTokenType::Literal &&
-- 
2.43.0


From 38ecb763eecfce373fd512fa66462a90caf35eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:45 +0000
Subject: [PATCH 003/126] fix: read a reference only from valid object and
 generation numbers

---
 src/pdfmm/base/PdfTokenizer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index f98995c..5bc5901 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -324,9 +324,12 @@ PdfTokenizer::PdfLiteralDataType PdfTokenizer::DetermineDataType(InputStreamDevi
                     return PdfLiteralDataType::Number;
                 }
 
-                if (std::from_chars(nextToken.data(), nextToken.data() + nextToken.length(), num).ec != std::errc())
+                auto second = std::from_chars(nextToken.data(), nextToken.data() + nextToken.length(), num);
+                if (second.ec != std::errc() || second.ptr != nextToken.data() + nextToken.length()
+                    || num < 0 || num > numeric_limits<uint16_t>::max()
+                    || variant.GetNumber() < 0 || variant.GetNumber() > numeric_limits<uint32_t>::max())
                 {
-                    // Don't consume the token
+                    // It can't be the generation number of a reference. Don't consume the token
                     this->EnqueueToken(nextToken, secondTokenType);
                     return PdfLiteralDataType::Number;
                 }
-- 
2.43.0


From f57c7b988e226ffc679a991ae1d935ce5fb2bf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:45 +0000
Subject: [PATCH 004/126] fix: accept numbers with a plus sign

---
 src/pdfmm/base/PdfTokenizer.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index 5bc5901..cb1f8d4 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -22,6 +22,7 @@ using namespace std;
 using namespace mm;
 
 static char getEscapedCharacter(char ch);
+static const char* skipPlusSign(const string_view& token);
 static void readHexString(InputStreamDevice& device, charbuff& buffer);
 static bool isOctalChar(char ch);
 
@@ -282,7 +283,7 @@ PdfTokenizer::PdfLiteralDataType PdfTokenizer::DetermineDataType(InputStreamDevi
             if (dataType == PdfLiteralDataType::Real)
             {
                 double val;
-                if (std::from_chars(token.data(), token.data() + token.length(), val, chars_format::fixed).ec != std::errc())
+                if (std::from_chars(skipPlusSign(token), token.data() + token.length(), val, chars_format::fixed).ec != std::errc())
                 {
                     // Don't consume the token
                     this->EnqueueToken(token, tokenType);
@@ -295,7 +296,7 @@ PdfTokenizer::PdfLiteralDataType PdfTokenizer::DetermineDataType(InputStreamDevi
             else if (dataType == PdfLiteralDataType::Number)
             {
                 int64_t num;
-                if (std::from_chars(token.data(), token.data() + token.size(), num).ec != std::errc())
+                if (std::from_chars(skipPlusSign(token), token.data() + token.size(), num).ec != std::errc())
                 {
                     // Don't consume the token
                     this->EnqueueToken(token, tokenType);
@@ -748,6 +749,15 @@ bool PdfTokenizer::IsPrintable(char ch)
     return ch > 32 && ch < 125;
 }
 
+// std::from_chars doesn't accept the plus sign, which is legal in PDF numbers
+const char* skipPlusSign(const string_view& token)
+{
+    if (token.length() > 1 && token[0] == '+' && token[1] != '-')
+        return token.data() + 1;
+    else
+        return token.data();
+}
+
 char getEscapedCharacter(char ch)
 {
     switch (ch)
-- 
2.43.0


From d38c5b87e038f321aa253ce5addcec7d45fe5453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:45 +0000
Subject: [PATCH 005/126] fix: keep the character of an unknown escape in a
 literal string

---
 src/pdfmm/base/PdfTokenizer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index cb1f8d4..7715fa6 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -564,9 +564,9 @@ void PdfTokenizer::ReadString(InputStreamDevice& device, PdfVariant& variant, co
                 if (ch != '\n' && ch != '\r')
                 {
                     // Handle plain escape sequences
+                    // NOTE: If the escape is unknown only the backslash is ignored
                     char escapedCh = getEscapedCharacter(ch);
-                    if (escapedCh != '\0')
-                        m_charBuffer.push_back(escapedCh);
+                    m_charBuffer.push_back(escapedCh == '\0' ? ch : escapedCh);
                 }
 
                 escape = false;
-- 
2.43.0


From d600137882d10ee31d3f277b761001374a9ae1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:45 +0000
Subject: [PATCH 006/126] fix: skip an escaped CR LF in a literal string as one
 line end

---
 src/pdfmm/base/PdfTokenizer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index 7715fa6..de76c9f 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -568,6 +568,11 @@ void PdfTokenizer::ReadString(InputStreamDevice& device, PdfVariant& variant, co
                     char escapedCh = getEscapedCharacter(ch);
                     m_charBuffer.push_back(escapedCh == '\0' ? ch : escapedCh);
                 }
+                else if (ch == '\r' && device.Peek(ch) && ch == '\n')
+                {
+                    // The end of line marker is CR LF
+                    (void)device.ReadChar();
+                }
 
                 escape = false;
             }
-- 
2.43.0


From 22697c2c6cfccd2de17883741eaad9fa15459693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:45 +0000
Subject: [PATCH 007/126] fix: balance parentheses that follow an octal escape

---
 src/pdfmm/base/PdfTokenizer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index de76c9f..d254a97 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -514,7 +514,7 @@ void PdfTokenizer::ReadString(InputStreamDevice& device, PdfVariant& variant, co
 
                 if (!isOctalChar(ch))
                 {
-                    if (ch == ')')
+                    if (ch == ')' && balanceCount-- == 0)
                     {
                         // Handle end of string while reading octal code
                         // NOTE: The octal value is added outside of the loop
@@ -528,6 +528,9 @@ void PdfTokenizer::ReadString(InputStreamDevice& device, PdfVariant& variant, co
 
                     if (ch != '\\')
                     {
+                        if (ch == '(')
+                            balanceCount++;
+
                         m_charBuffer.push_back(ch);
                         escape = false;
                     }
-- 
2.43.0


From 8da5039782166debc93a880692d6966410d3f922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:45 +0000
Subject: [PATCH 008/126] fix: end an empty name at a comment

---
 src/pdfmm/base/PdfTokenizer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index d254a97..0a86277 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -636,10 +636,10 @@ void PdfTokenizer::ReadName(InputStreamDevice& device, PdfVariant& variant)
     // 10 0 obj / endobj
     // which stupid but legal PDF
     char ch;
-    if (!device.Peek(ch) || IsWhitespace(ch))
+    if (!device.Peek(ch) || IsWhitespace(ch) || ch == '%')
     {
         // We have an empty PdfName
-        // NOTE: Delimeters are handled correctly by tryReadNextToken
+        // NOTE: Other delimeters are handled correctly by tryReadNextToken
         variant = PdfName();
         return;
     }
-- 
2.43.0


From 33a26c1618dfda5004d671e87778bf1ff571a333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:45 +0000
Subject: [PATCH 009/126] fix: pad an odd hexadecimal string with a zero digit

---
 src/pdfmm/base/PdfString.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfString.cpp b/src/pdfmm/base/PdfString.cpp
index 6322ce6..dd649d7 100644
--- a/src/pdfmm/base/PdfString.cpp
+++ b/src/pdfmm/base/PdfString.cpp
@@ -96,8 +96,8 @@ PdfString PdfString::FromHexData(const string_view& hexView, const PdfStatefulEn
     if (!low)
     {
         // an odd number of bytes was read,
-        // so the last byte is 0
-        buffer.push_back(decodedChar);
+        // so the last digit is 0
+        buffer.push_back((char)(decodedChar << 4));
     }
 
     if (encrypt.HasEncrypt())
-- 
2.43.0


From 2d244ac9ebb17520ed19d220ba0dd56067b1f025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:56 +0000
Subject: [PATCH 010/126] fix: set the type of an angle bracket at the end of
 the input

---
 src/pdfmm/base/PdfTokenizer.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index 0a86277..3a18861 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -109,6 +109,11 @@ bool PdfTokenizer::TryReadNextToken(InputStreamDevice& device, string_view& toke
             buffer[count] = ch1;
             count++;
 
+            if (ch1 == '<')
+                tokenType = PdfTokenType::AngleBracketLeft;
+            else
+                tokenType = PdfTokenType::AngleBracketRight;
+
             if (!device.Peek(ch2))
                 goto Eof;
 
@@ -124,13 +129,6 @@ bool PdfTokenizer::TryReadNextToken(InputStreamDevice& device, string_view& toke
                     tokenType = PdfTokenType::DoubleAngleBracketsRight;
                 count++;
             }
-            else
-            {
-                if (ch1 == '<')
-                    tokenType = PdfTokenType::AngleBracketLeft;
-                else
-                    tokenType = PdfTokenType::AngleBracketRight;
-            }
 
             break;
         }
-- 
2.43.0


From a26076bb9488bfa50d5e53ccd049214613b91aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:43 +0000
Subject: [PATCH 011/126] fix: make the integer format buffer large enough

---
 src/pdfmm/private/PdfDeclarationsPrivate.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/private/PdfDeclarationsPrivate.cpp b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
index e90393b..1fe41e5 100644
--- a/src/pdfmm/private/PdfDeclarationsPrivate.cpp
+++ b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
@@ -72,7 +72,8 @@ template<typename TInt, class = typename std::enable_if_t<std::is_integral_v<TIn
 void formatTo(string& str, TInt value)
 {
     str.clear();
-    array<char, numeric_limits<TInt>::digits10> arr;
+    // NOTE: Reserve space for the digit not counted by digits10 and the sign
+    array<char, numeric_limits<TInt>::digits10 + 2> arr;
     auto res = std::to_chars(arr.data(), arr.data() + arr.size(), value);
     str.append(arr.data(), res.ptr - arr.data());
 }
-- 
2.43.0


From 22dd32cdd5befadecef2ee763a5fa9c06a11ee06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:43 +0000
Subject: [PATCH 012/126] fix: keep the zeros of an integer part without
 fraction

---
 src/pdfmm/private/PdfDeclarationsPrivate.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/private/PdfDeclarationsPrivate.cpp b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
index 1fe41e5..38b2191 100644
--- a/src/pdfmm/private/PdfDeclarationsPrivate.cpp
+++ b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
@@ -1198,7 +1198,10 @@ void utls::ReadInt16BE(const char* buf, int16_t& value)
 
 void removeTrailingZeroes(string& str)
 {
-    // Remove trailing zeroes
+    // Remove trailing zeroes, but only in the fractional part
+    if (str.find('.') == string::npos)
+        return;
+
     const char* cursor = str.data();
     size_t len = str.size();
     while (cursor[len - 1] == '0')
-- 
2.43.0


From cb29f4c78b9aea3c354e40f6fd4ba799ccbb9e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:43 +0000
Subject: [PATCH 013/126] fix: correct inequality of variants and comparison
 with null

---
 src/pdfmm/base/PdfVariant.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfVariant.cpp b/src/pdfmm/base/PdfVariant.cpp
index 170c458..6d5aa25 100644
--- a/src/pdfmm/base/PdfVariant.cpp
+++ b/src/pdfmm/base/PdfVariant.cpp
@@ -405,7 +405,7 @@ bool PdfVariant::operator==(const PdfVariant& rhs) const
         case PdfDataType::RawData:
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NotImplemented, "Equality not yet implemented for RawData");
         case PdfDataType::Null:
-            return m_DataType == PdfDataType::Null;
+            return rhs.m_DataType == PdfDataType::Null;
         case PdfDataType::Unknown:
             return false;
         default:
@@ -415,8 +415,8 @@ bool PdfVariant::operator==(const PdfVariant& rhs) const
 
 bool PdfVariant::operator!=(const PdfVariant& rhs) const
 {
-    if (this != &rhs)
-        return true;
+    if (this == &rhs)
+        return false;
 
     switch (m_DataType)
     {
@@ -488,7 +488,7 @@ bool PdfVariant::operator!=(const PdfVariant& rhs) const
         case PdfDataType::RawData:
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NotImplemented, "Disequality not yet implemented for RawData");
         case PdfDataType::Null:
-            return m_DataType != PdfDataType::Null;
+            return rhs.m_DataType != PdfDataType::Null;
         case PdfDataType::Unknown:
             return true;
         default:
-- 
2.43.0


From 4dca8284b88d0cfef77bd51113ac2b17a7118f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:43 +0000
Subject: [PATCH 014/126] fix: correct inequality of dictionaries

---
 src/pdfmm/base/PdfDictionary.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfDictionary.cpp b/src/pdfmm/base/PdfDictionary.cpp
index 582fd24..1d1135f 100644
--- a/src/pdfmm/base/PdfDictionary.cpp
+++ b/src/pdfmm/base/PdfDictionary.cpp
@@ -51,8 +51,8 @@ bool PdfDictionary::operator==(const PdfDictionary& rhs) const
 
 bool PdfDictionary::operator!=(const PdfDictionary& rhs) const
 {
-    if (this != &rhs)
-        return true;
+    if (this == &rhs)
+        return false;
 
     // We don't check owner
     return m_Map != rhs.m_Map;
-- 
2.43.0


From 045ac14e9449090f6bbcad460299bf124a15482c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:43 +0000
Subject: [PATCH 015/126] fix: correct inequality of objects and make equality
 symmetric

---
 src/pdfmm/base/PdfObject.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index b9c16f3..825fd74 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -820,9 +820,9 @@ bool PdfObject::operator==(const PdfObject& rhs) const
     if (this == &rhs)
         return true;
 
-    if (m_IndirectReference.IsIndirect())
+    if (m_IndirectReference.IsIndirect() || rhs.m_IndirectReference.IsIndirect())
     {
-        // If lhs is indirect, just check document and reference
+        // If lhs or rhs is indirect, just check document and reference
         return m_Document == rhs.m_Document &&
             m_IndirectReference == rhs.m_IndirectReference;
     }
@@ -837,12 +837,12 @@ bool PdfObject::operator==(const PdfObject& rhs) const
 
 bool PdfObject::operator!=(const PdfObject& rhs) const
 {
-    if (this != &rhs)
-        return true;
+    if (this == &rhs)
+        return false;
 
-    if (m_IndirectReference.IsIndirect())
+    if (m_IndirectReference.IsIndirect() || rhs.m_IndirectReference.IsIndirect())
     {
-        // If lhs is indirect, just check document and reference
+        // If lhs or rhs is indirect, just check document and reference
         return m_Document != rhs.m_Document ||
             m_IndirectReference != rhs.m_IndirectReference;
     }
-- 
2.43.0


From 95f2ee0efe3a6411f066300369dd802dc93b62e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:43 +0000
Subject: [PATCH 016/126] fix: compare a raw string with a text by its text

---
 src/pdfmm/base/PdfString.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/pdfmm/base/PdfString.cpp b/src/pdfmm/base/PdfString.cpp
index dd649d7..4073c75 100644
--- a/src/pdfmm/base/PdfString.cpp
+++ b/src/pdfmm/base/PdfString.cpp
@@ -242,6 +242,13 @@ bool PdfString::operator==(const PdfString& rhs) const
     if (this->m_data == rhs.m_data)
         return true;
 
+    // If only one of the strings is raw, compare its text. Evaluate
+    // a copy of it, so the string will keep its raw data
+    if (!this->isValidText() && rhs.isValidText())
+        return FromRaw(this->m_data->Chars).GetString() == rhs.m_data->Chars;
+    else if (this->isValidText() && !rhs.isValidText())
+        return FromRaw(rhs.m_data->Chars).GetString() == this->m_data->Chars;
+
     return this->m_data->Chars == rhs.m_data->Chars;
 }
 
@@ -268,13 +275,7 @@ bool PdfString::operator!=(const PdfString& rhs) const
     if (this == &rhs)
         return false;
 
-    if (!canPerformComparison(*this, rhs))
-        return true;
-
-    if (this->m_data == rhs.m_data)
-        return false;
-
-    return this->m_data->Chars != rhs.m_data->Chars;
+    return !operator==(rhs);
 }
 
 bool PdfString::operator!=(const char* str) const
-- 
2.43.0


From 8a1932028d4efcfa3d57ceee2a28a2c0b3753963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:00 +0000
Subject: [PATCH 017/126] fix: decode the end marker and an odd digit of
 hexadecimal data

---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 21 +++++++++++++++------
 src/pdfmm/private/PdfFiltersPrivate.h   |  1 +
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index bf89236..5d38f92 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -223,7 +223,7 @@ private:
 #pragma region PdfHexFilter
 
 PdfHexFilter::PdfHexFilter()
-    : m_DecodedByte(0), m_Low(true)
+    : m_DecodedByte(0), m_Low(true), m_EndOfData(false)
 {
 }
 
@@ -242,12 +242,13 @@ void PdfHexFilter::BeginDecodeImpl(const PdfDictionary*)
 {
     m_DecodedByte = 0;
     m_Low = true;
+    m_EndOfData = false;
 }
 
 void PdfHexFilter::DecodeBlockImpl(const char* buffer, size_t len)
 {
     unsigned char val;
-    while (len-- != 0)
+    while (len-- != 0 && !m_EndOfData)
     {
         if (PdfTokenizer::IsWhitespace(*buffer))
         {
@@ -255,7 +256,15 @@ void PdfHexFilter::DecodeBlockImpl(const char* buffer, size_t len)
             continue;
         }
 
-        (void)utls::TryGetHexValue(*buffer, val);
+        if (*buffer == '>')
+        {
+            m_EndOfData = true;
+            break;
+        }
+
+        if (!utls::TryGetHexValue(*buffer, val))
+            PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
+
         if (m_Low)
         {
             m_DecodedByte = (char)(val & 0x0F);
@@ -277,9 +286,9 @@ void PdfHexFilter::EndDecodeImpl()
 {
     if (!m_Low)
     {
-        // an odd number of bytes was read,
-        // so the last byte is 0
-        GetStream()->Write(m_DecodedByte);
+        // an odd number of digits was read,
+        // so the last digit is 0
+        GetStream()->Write(static_cast<char>(m_DecodedByte << 4));
     }
 }
 
diff --git a/src/pdfmm/private/PdfFiltersPrivate.h b/src/pdfmm/private/PdfFiltersPrivate.h
index b41d766..0c9f421 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.h
+++ b/src/pdfmm/private/PdfFiltersPrivate.h
@@ -49,6 +49,7 @@ public:
 private:
     char m_DecodedByte;
     bool m_Low;
+    bool m_EndOfData;
 };
 
 /** The Ascii85 filter.
-- 
2.43.0


From 79b5bf431532b2695f122bd9ce42968e51235309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:00 +0000
Subject: [PATCH 018/126] fix: find the end marker of base-85 data across
 blocks

---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 25 +++++++++++++++----------
 src/pdfmm/private/PdfFiltersPrivate.h   |  2 ++
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index 5d38f92..d5df46b 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -302,7 +302,7 @@ void PdfHexFilter::EndDecodeImpl()
 // Paul Haahr - http://www.webcom.com/~haahr/
 
 PdfAscii85Filter::PdfAscii85Filter()
-    : m_count(0), m_tuple(0)
+    : m_count(0), m_tuple(0), m_tilde(false), m_EndOfData(false)
 {
 }
 
@@ -378,14 +378,24 @@ void PdfAscii85Filter::BeginDecodeImpl(const PdfDictionary*)
 {
     m_count = 0;
     m_tuple = 0;
+    m_tilde = false;
+    m_EndOfData = false;
 }
 
 void PdfAscii85Filter::DecodeBlockImpl(const char* buffer, size_t len)
 {
-    bool foundEndMarker = false;
-
-    while (len != 0 && !foundEndMarker)
+    while (len != 0 && !m_EndOfData)
     {
+        if (m_tilde)
+        {
+            // The end marker may be split between two blocks
+            if (*buffer != '>')
+                PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
+
+            m_EndOfData = true;
+            break;
+        }
+
         switch (*buffer)
         {
             default:
@@ -411,12 +421,7 @@ void PdfAscii85Filter::DecodeBlockImpl(const char* buffer, size_t len)
                 this->WidePut(0, 4);
                 break;
             case '~':
-                buffer++;
-                len--;
-                if (len != 0 && *buffer != '>')
-                    PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
-
-                foundEndMarker = true;
+                m_tilde = true;
                 break;
             case '\n': case '\r': case '\t': case ' ':
             case '\0': case '\f': case '\b': case 0177:
diff --git a/src/pdfmm/private/PdfFiltersPrivate.h b/src/pdfmm/private/PdfFiltersPrivate.h
index 0c9f421..72d930b 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.h
+++ b/src/pdfmm/private/PdfFiltersPrivate.h
@@ -84,6 +84,8 @@ private:
 private:
     int m_count;
     unsigned m_tuple;
+    bool m_tilde;
+    bool m_EndOfData;
 };
 
 /** The Flate filter.
-- 
2.43.0


From 6946a5a808e105c990130f3a8c620666582f9d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:00 +0000
Subject: [PATCH 019/126] fix: decode run lengths as specified

---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 26 ++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index d5df46b..0b7ff58 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -634,28 +634,32 @@ void PdfRLEFilter::BeginDecodeImpl(const PdfDictionary*)
     m_CodeLen = 0;
 }
 
+// Length byte of the end of data marker. A positive length is the number of
+// bytes to copy, a negative one the number of times to repeat the next byte
+constexpr int RLEEndOfData = 256;
+
 void PdfRLEFilter::DecodeBlockImpl(const char* buffer, size_t len)
 {
-    while (len-- != 0)
+    while (len-- != 0 && m_CodeLen != RLEEndOfData)
     {
         if (m_CodeLen == 0)
         {
-            m_CodeLen = static_cast<int>(*buffer);
-        }
-        else if (m_CodeLen == 128)
-        {
-            break;
+            int length = static_cast<unsigned char>(*buffer);
+            if (length == 128)
+                m_CodeLen = RLEEndOfData;
+            else if (length < 128)
+                m_CodeLen = length + 1;
+            else
+                m_CodeLen = length - 257;
         }
-        else if (m_CodeLen <= 127)
+        else if (m_CodeLen > 0)
         {
             GetStream()->Write(buffer, 1);
             m_CodeLen--;
         }
-        else if (m_CodeLen >= 129)
+        else
         {
-            m_CodeLen = 257 - m_CodeLen;
-
-            while (m_CodeLen--)
+            for (; m_CodeLen != 0; m_CodeLen++)
                 GetStream()->Write(buffer, 1);
         }
 
-- 
2.43.0


From b4269e802802546ac081026568c9cc8efdad45e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:22 +0000
Subject: [PATCH 020/126] fix: keep the state of LZW decoding between blocks

---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 47 ++++++++++++-------------
 src/pdfmm/private/PdfFiltersPrivate.h   |  6 ++--
 2 files changed, 26 insertions(+), 27 deletions(-)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index 0b7ff58..3479f13 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -679,7 +679,10 @@ PdfLZWFilter::PdfLZWFilter() :
     m_mask(0),
     m_code_len(0),
     m_character(0),
-    m_First(false)
+    m_buffer_size(0),
+    m_code_buff(0),
+    m_old(0),
+    m_EndOfData(false)
 {
 }
 
@@ -703,8 +706,10 @@ void PdfLZWFilter::BeginDecodeImpl(const PdfDictionary* decodeParms)
     m_mask = 0;
     m_code_len = 9;
     m_character = 0;
-
-    m_First = true;
+    m_buffer_size = 0;
+    m_code_buff = 0;
+    m_old = 0;
+    m_EndOfData = false;
 
     if (decodeParms != nullptr)
         m_Predictor.reset(new PdfPredictorDecoder(*decodeParms));
@@ -714,40 +719,32 @@ void PdfLZWFilter::BeginDecodeImpl(const PdfDictionary* decodeParms)
 
 void PdfLZWFilter::DecodeBlockImpl(const char* buffer, size_t len)
 {
-    unsigned buffer_size = 0;
     const unsigned buffer_max = 24;
 
-    uint32_t old = 0;
     uint32_t code = 0;
-    uint32_t codeBuff = 0;
 
     TLzwItem item;
 
     vector<unsigned char> data;
-    if (m_First)
-    {
-        m_character = *buffer;
-        m_First = false;
-    }
 
-    while (len != 0)
+    while (len != 0 && !m_EndOfData)
     {
         // Fill the buffer
-        while (buffer_size <= (buffer_max - 8) && len)
+        while (m_buffer_size <= (buffer_max - 8) && len)
         {
-            codeBuff <<= 8;
-            codeBuff |= static_cast<uint32_t>(static_cast<unsigned char>(*buffer));
-            buffer_size += 8;
+            m_code_buff <<= 8;
+            m_code_buff |= static_cast<uint32_t>(static_cast<unsigned char>(*buffer));
+            m_buffer_size += 8;
 
             buffer++;
             len--;
         }
 
         // read from the buffer
-        while (buffer_size >= m_code_len)
+        while (m_buffer_size >= m_code_len)
         {
-            code = (codeBuff >> (buffer_size - m_code_len)) & PdfLZWFilter::s_masks[m_mask];
-            buffer_size -= m_code_len;
+            code = (m_code_buff >> (m_buffer_size - m_code_len)) & PdfLZWFilter::s_masks[m_mask];
+            m_buffer_size -= m_code_len;
 
             if (code == PdfLZWFilter::s_clear)
             {
@@ -758,18 +755,18 @@ void PdfLZWFilter::DecodeBlockImpl(const char* buffer, size_t len)
             }
             else if (code == PdfLZWFilter::s_eod)
             {
-                len = 0;
+                m_EndOfData = true;
                 break;
             }
             else
             {
                 if (code >= m_table.size())
                 {
-                    if (old >= m_table.size())
+                    if (m_old >= m_table.size())
                     {
                         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
                     }
-                    data = m_table[old].value;
+                    data = m_table[m_old].value;
                     data.push_back(m_character);
                 }
                 else
@@ -782,14 +779,14 @@ void PdfLZWFilter::DecodeBlockImpl(const char* buffer, size_t len)
                     GetStream()->Write(reinterpret_cast<char*>(data.data()), data.size());
 
                 m_character = data[0];
-                if (old < m_table.size()) // fix the first loop
-                    data = m_table[old].value;
+                if (m_old < m_table.size()) // fix the first loop
+                    data = m_table[m_old].value;
                 data.push_back(m_character);
 
                 item.value = data;
                 m_table.push_back(item);
 
-                old = code;
+                m_old = code;
 
                 switch (m_table.size())
                 {
diff --git a/src/pdfmm/private/PdfFiltersPrivate.h b/src/pdfmm/private/PdfFiltersPrivate.h
index 72d930b..0d8db6d 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.h
+++ b/src/pdfmm/private/PdfFiltersPrivate.h
@@ -199,8 +199,10 @@ private:
     unsigned m_mask;
     unsigned m_code_len;
     unsigned char m_character;
-
-    bool m_First;
+    unsigned m_buffer_size;
+    uint32_t m_code_buff;
+    uint32_t m_old;
+    bool m_EndOfData;
 
     std::shared_ptr<PdfPredictorDecoder> m_Predictor;
 };
-- 
2.43.0


From 878835b18cea08bcfa8a4d95fbc10a435220b26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:22 +0000
Subject: [PATCH 021/126] fix: honour EarlyChange in LZW decoding

---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 13 +++++++++----
 src/pdfmm/private/PdfFiltersPrivate.h   |  1 +
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index 3479f13..da77dc9 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -682,6 +682,7 @@ PdfLZWFilter::PdfLZWFilter() :
     m_buffer_size(0),
     m_code_buff(0),
     m_old(0),
+    m_early_change(1),
     m_EndOfData(false)
 {
 }
@@ -710,9 +711,13 @@ void PdfLZWFilter::BeginDecodeImpl(const PdfDictionary* decodeParms)
     m_code_buff = 0;
     m_old = 0;
     m_EndOfData = false;
+    m_early_change = 1;
 
     if (decodeParms != nullptr)
+    {
         m_Predictor.reset(new PdfPredictorDecoder(*decodeParms));
+        m_early_change = decodeParms->FindKeyAs<int64_t>("EarlyChange", 1) == 0 ? 0 : 1;
+    }
 
     InitTable();
 }
@@ -788,11 +793,11 @@ void PdfLZWFilter::DecodeBlockImpl(const char* buffer, size_t len)
 
                 m_old = code;
 
-                switch (m_table.size())
+                switch (m_table.size() + m_early_change)
                 {
-                    case 511:
-                    case 1023:
-                    case 2047:
+                    case 512:
+                    case 1024:
+                    case 2048:
                         m_code_len++;
                         m_mask++;
                         break;
diff --git a/src/pdfmm/private/PdfFiltersPrivate.h b/src/pdfmm/private/PdfFiltersPrivate.h
index 0d8db6d..2c309c0 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.h
+++ b/src/pdfmm/private/PdfFiltersPrivate.h
@@ -202,6 +202,7 @@ private:
     unsigned m_buffer_size;
     uint32_t m_code_buff;
     uint32_t m_old;
+    unsigned m_early_change;
     bool m_EndOfData;
 
     std::shared_ptr<PdfPredictorDecoder> m_Predictor;
-- 
2.43.0


From 05bf2bfcf8a38c5bb201395e1741df137d5bf335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:22 +0000
Subject: [PATCH 022/126] fix: round the size of predicted pixels and rows up
 to bytes

---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index da77dc9..136d784 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -55,9 +55,6 @@ public:
         }
 
         m_CurrRowIndex = 0;
-        m_BytesPerPixel = (m_BitsPerComponent * m_Colors) >> 3;
-        m_Rows = (m_ColumnCount * m_Colors * m_BitsPerComponent) >> 3;
-
         // check for multiplication overflow on buffer sizes (e.g. if m_nBPC=2 and m_nColors=SIZE_MAX/2+1)
         if (utls::DoesMultiplicationOverflow(m_BitsPerComponent, m_Colors)
             || utls::DoesMultiplicationOverflow(m_ColumnCount, m_BitsPerComponent * m_Colors))
@@ -65,6 +62,10 @@ public:
             PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
         }
 
+        // NOTE: Round up to whole bytes
+        m_BytesPerPixel = (m_BitsPerComponent * m_Colors + 7ll) >> 3;
+        m_Rows = ((int64_t)m_ColumnCount * m_Colors * m_BitsPerComponent + 7) >> 3;
+
         // check that computed allocation sizes are > 0 (CVE-2018-20797)
         if (m_Rows < 1 || m_BitsPerComponent < 1)
             PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
-- 
2.43.0


From e533723de3062fe09aaaf5e7da14dde88e6c55e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:22 +0000
Subject: [PATCH 023/126] fix: compute the average predictor from unsigned
 bytes

---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index 136d784..c8f29e7 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -130,8 +130,8 @@ public:
                     case 13: // png average
                     {
                         int prev = (m_CurrRowIndex - m_BytesPerPixel < 0
-                            ? 0 : m_Prev[m_CurrRowIndex - m_BytesPerPixel]);
-                        m_Prev[m_CurrRowIndex] = ((prev + m_Prev[m_CurrRowIndex]) >> 1) + *buffer;
+                            ? 0 : static_cast<unsigned char>(m_Prev[m_CurrRowIndex - m_BytesPerPixel]));
+                        m_Prev[m_CurrRowIndex] = ((prev + static_cast<unsigned char>(m_Prev[m_CurrRowIndex])) >> 1) + *buffer;
                         break;
                     }
                     case 14: // png paeth
-- 
2.43.0


From acb47fcbed3f660b12470277b9576bd98f56307a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:36 +0000
Subject: [PATCH 024/126] fix: write the compressed data of a stream, not an
 empty one

---
 src/pdfmm/base/PdfObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index 825fd74..35bf97d 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -251,7 +251,7 @@ void PdfObject::Write(OutputStreamDevice& device, PdfWriteFlags writeMode,
                 input.CopyTo(output);
             }
 
-            stream.MoveFrom(*m_Stream);
+            m_Stream->MoveFrom(stream);
         }
 
         // Set length if it's not handled by the underlying provider
-- 
2.43.0


From 52d673571e8152659d7b6a9bf9940a928664fa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:36 +0000
Subject: [PATCH 025/126] fix: let a moved stream belong to the object it moved
 to

---
 src/pdfmm/base/PdfObject.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index 35bf97d..606f05f 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -393,6 +393,8 @@ void PdfObject::moveStreamFrom(PdfObject& obj)
 {
     obj.DelayedLoadStream();
     m_Stream = std::move(obj.m_Stream);
+    if (m_Stream != nullptr)
+        m_Stream->m_Parent = this;
 }
 
 void PdfObject::EnableDelayedLoading()
-- 
2.43.0


From d310d4f484e4d25103f65d793cb35652808e1392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:36 +0000
Subject: [PATCH 026/126] fix: drop the stream when assigning an object without
 one

---
 src/pdfmm/base/PdfObject.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index 606f05f..077c208 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -387,6 +387,11 @@ void PdfObject::copyStreamFrom(const PdfObject& obj)
         auto& stream = getOrCreateStream();
         stream = *obj.m_Stream;
     }
+    else
+    {
+        // The assigned object has no stream
+        FreeStream();
+    }
 }
 
 void PdfObject::moveStreamFrom(PdfObject& obj)
-- 
2.43.0


From dc2e83580de9aa326ed9a2ac7ace6bbe20e09517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:36 +0000
Subject: [PATCH 027/126] fix: move the underlying stream with object streams

---
 src/pdfmm/base/PdfObjectStream.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index f29f152..27ea78b 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -390,7 +390,9 @@ PdfObjectInputStream::~PdfObjectInputStream()
 PdfObjectInputStream::PdfObjectInputStream(PdfObjectInputStream&& rhs) noexcept
 {
     utls::move(rhs.m_stream, m_stream);
-    utls::move(rhs.m_MediaDecodeParms, m_MediaDecodeParms);
+    m_input = std::move(rhs.m_input);
+    m_MediaFilters = std::move(rhs.m_MediaFilters);
+    m_MediaDecodeParms = std::move(rhs.m_MediaDecodeParms);
 }
 
 PdfObjectInputStream::PdfObjectInputStream(PdfObjectStream& stream, bool raw)
@@ -413,6 +415,9 @@ bool PdfObjectInputStream::readChar(char& ch)
 PdfObjectInputStream& PdfObjectInputStream::operator=(PdfObjectInputStream&& rhs) noexcept
 {
     utls::move(rhs.m_stream, m_stream);
+    m_input = std::move(rhs.m_input);
+    m_MediaFilters = std::move(rhs.m_MediaFilters);
+    m_MediaDecodeParms = std::move(rhs.m_MediaDecodeParms);
     return *this;
 }
 
@@ -460,7 +465,7 @@ PdfObjectOutputStream::~PdfObjectOutputStream()
 }
 
 PdfObjectOutputStream::PdfObjectOutputStream(PdfObjectOutputStream&& rhs) noexcept
-    : m_filters(std::move(rhs.m_filters))
+    : m_filters(std::move(rhs.m_filters)), m_output(std::move(rhs.m_output))
 {
     utls::move(rhs.m_stream, m_stream);
 }
-- 
2.43.0


From 34a38b2140777766ae25f88540a04d7d072be858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:36 +0000
Subject: [PATCH 028/126] fix: remove the decode parameters of replaced filters

---
 src/pdfmm/base/PdfObjectStream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index 27ea78b..6894429 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -452,6 +452,8 @@ PdfObjectOutputStream::~PdfObjectOutputStream()
                 m_stream->GetParent().GetDictionary().AddKey(PdfName::KeyFilter, arrFilters);
             }
 
+            // The parameters belong to the filters being replaced
+            m_stream->GetParent().GetDictionary().RemoveKey(DecodeParmsKey);
             m_stream->m_Filters = std::move(filters);
         }
 
-- 
2.43.0


From 533d6261891580c6b83f27e7646f7798d7e73bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:36 +0000
Subject: [PATCH 029/126] fix: ignore decode parameters beyond the filters

---
 src/pdfmm/base/PdfObjectStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index 6894429..878a0e3 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -317,7 +317,7 @@ unique_ptr<InputStream> PdfObjectStream::getInputStream(bool raw, PdfFilterList&
             }
             else if (decodeParmsObj->TryGetArray(decodeParmsArr))
             {
-                for (unsigned i = 0; i < decodeParmsArr->GetSize(); i++)
+                for (unsigned i = 0; i < decodeParmsArr->GetSize() && i < decodeParms.size(); i++)
                 {
                     auto decodeParmsEntry = decodeParmsArr->FindAt(i);
                     if (decodeParmsEntry == nullptr || !decodeParmsEntry->TryGetDictionary(decodeParmsDict))
-- 
2.43.0


From 0c18601340808970043714d594aa3bdca0567851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:32 +0000
Subject: [PATCH 030/126] fix: reject invalid ranges and short data in
 cross-reference streams

---
 src/pdfmm/base/PdfXRefStreamParserObject.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfXRefStreamParserObject.cpp b/src/pdfmm/base/PdfXRefStreamParserObject.cpp
index 472ffd9..f5ecfcb 100644
--- a/src/pdfmm/base/PdfXRefStreamParserObject.cpp
+++ b/src/pdfmm/base/PdfXRefStreamParserObject.cpp
@@ -106,6 +106,13 @@ void PdfXRefStreamParserObject::parseStream(const int64_t wArray[W_ARRAY_SIZE],
         }
     }
 
+    for (unsigned i = 0; i < W_ARRAY_SIZE; i++)
+    {
+        // Report fields that are too wide before checking the size of the data
+        if (wArray[i] > W_MAX_BYTES)
+            PDFMM_RAISE_ERROR(PdfErrorCode::InvalidXRefStream);
+    }
+
     const size_t entryLen = static_cast<size_t>(wArray[0] + wArray[1] + wArray[2]);
 
     charbuff buffer;
@@ -118,10 +125,15 @@ void PdfXRefStreamParserObject::parseStream(const int64_t wArray[W_ARRAY_SIZE],
         int64_t firstObj = *it++;
         int64_t count = *it++;
 
+        if (firstObj < 0 || count < 0 || firstObj > numeric_limits<int64_t>::max() - count)
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NoXRef, "Invalid range in XRef stream");
+
         m_entries->Enlarge(firstObj + count);
         for (unsigned index = 0; index < (unsigned)count; index++)
         {
-            if ((size_t)(cursor - buffer.data()) >= buffer.size())
+            // The whole entry must be available
+            size_t offset = (size_t)(cursor - buffer.data());
+            if (offset >= buffer.size() || entryLen > buffer.size() - offset)
                 PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NoXRef, "Invalid count in XRef stream");
 
             unsigned objIndex = (unsigned)firstObj + index;
-- 
2.43.0


From 290fdec2fb9ba5812815e05f4c232cf8578f07cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:32 +0000
Subject: [PATCH 031/126] fix: read the previous offset of cross-reference
 streams as an integer

---
 src/pdfmm/base/PdfXRefStreamParserObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfXRefStreamParserObject.cpp b/src/pdfmm/base/PdfXRefStreamParserObject.cpp
index f5ecfcb..f5ce045 100644
--- a/src/pdfmm/base/PdfXRefStreamParserObject.cpp
+++ b/src/pdfmm/base/PdfXRefStreamParserObject.cpp
@@ -52,7 +52,7 @@ void PdfXRefStreamParserObject::DelayedLoadImpl()
     }
 
     if (dict.HasKey("Prev"))
-        m_NextOffset = static_cast<ssize_t>(dict.FindKeyAs<double>("Prev", 0));
+        m_NextOffset = static_cast<ssize_t>(dict.FindKeyAs<int64_t>("Prev", 0));
 
     if (!this->HasStreamToParse())
         PDFMM_RAISE_ERROR(PdfErrorCode::NoXRef);
-- 
2.43.0


From 7ba59730225b44f8e7f06fbaf8303a79a543dcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:33 +0000
Subject: [PATCH 032/126] fix: accept fields of up to 8 bytes in
 cross-reference streams

---
 src/pdfmm/base/PdfXRefStreamParserObject.cpp | 5 +++++
 src/pdfmm/base/PdfXRefStreamParserObject.h   | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfXRefStreamParserObject.cpp b/src/pdfmm/base/PdfXRefStreamParserObject.cpp
index f5ce045..71b1344 100644
--- a/src/pdfmm/base/PdfXRefStreamParserObject.cpp
+++ b/src/pdfmm/base/PdfXRefStreamParserObject.cpp
@@ -194,6 +194,11 @@ void PdfXRefStreamParserObject::readXRefStreamEntry(PdfXRefEntry& entry, char* b
         }
     }
 
+    // The second field is an offset or an object number, the third
+    // one a generation or an index
+    if (entryRaw[1] > (uint64_t)PTRDIFF_MAX || entryRaw[2] > numeric_limits<uint32_t>::max())
+        PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
+
     entry.Parsed = true;
 
     // TABLE 3.15 Additional entries specific to a cross - reference stream dictionary
diff --git a/src/pdfmm/base/PdfXRefStreamParserObject.h b/src/pdfmm/base/PdfXRefStreamParserObject.h
index d9e4a68..63ab275 100644
--- a/src/pdfmm/base/PdfXRefStreamParserObject.h
+++ b/src/pdfmm/base/PdfXRefStreamParserObject.h
@@ -27,7 +27,7 @@ class PDFMM_API PdfXRefStreamParserObject final : public PdfParserObject
     friend class PdfParser;
 
     static constexpr unsigned W_ARRAY_SIZE = 3;
-    static constexpr unsigned W_MAX_BYTES = 4;
+    static constexpr unsigned W_MAX_BYTES = 8;
 
 private:
     /** Parse the object data from the given file handle starting at
-- 
2.43.0


From 359a9380edb06f68c53d66ccfc8aa04306b39e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:16 +0000
Subject: [PATCH 033/126] fix: always write object 0, the head of the free list

---
 src/pdfmm/base/PdfXRef.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pdfmm/base/PdfXRef.cpp b/src/pdfmm/base/PdfXRef.cpp
index c59a0fb..a4ac80e 100644
--- a/src/pdfmm/base/PdfXRef.cpp
+++ b/src/pdfmm/base/PdfXRef.cpp
@@ -76,7 +76,6 @@ void PdfXRef::addObject(const PdfReference& ref, nullable<uint64_t> offset, bool
 
 void PdfXRef::Write(OutputStreamDevice& device, charbuff& buffer)
 {
-    auto it = m_blocks.begin();
     XRefItemList::const_iterator itItems;
     ReferenceList::const_iterator itFree;
     const PdfReference* nextFree = nullptr;
@@ -84,8 +83,13 @@ void PdfXRef::Write(OutputStreamDevice& device, charbuff& buffer)
     uint32_t first = 0;
     uint32_t count = 0;
 
+    // The head of the list of free objects is always written
+    if (m_blocks.size() != 0)
+        SetFirstEmptyBlock();
+
     mergeBlocks();
 
+    auto it = m_blocks.begin();
     m_offset = device.GetPosition();
     this->BeginWrite(device, buffer);
     while (it != m_blocks.end())
@@ -96,13 +100,6 @@ void PdfXRef::Write(OutputStreamDevice& device, charbuff& buffer)
         itFree = block.FreeItems.begin();
         itItems = block.Items.begin();
 
-        if (first == 1)
-        {
-            first--;
-            count++;
-        }
-
-        // when there is only one, then we need to start with 0 and the bogus object...
         this->WriteSubSection(device, first, count, buffer);
 
         if (first == 0)
@@ -306,6 +303,9 @@ void PdfXRef::endWrite(OutputStreamDevice& device, charbuff& buffer)
 
 void PdfXRef::SetFirstEmptyBlock()
 {
+    if (m_blocks.size() != 0 && m_blocks.front().First == 0)
+        return;
+
     PdfXRefBlock block;
     block.First = 0;
     block.Count = 1;
-- 
2.43.0


From d473740ca1b06f1ff093b7fb6102bcf8e5fca5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:16 +0000
Subject: [PATCH 034/126] fix: reject offsets that do not fit a cross-reference
 table

---
 src/pdfmm/base/PdfXRef.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pdfmm/base/PdfXRef.cpp b/src/pdfmm/base/PdfXRef.cpp
index a4ac80e..f477bc3 100644
--- a/src/pdfmm/base/PdfXRef.cpp
+++ b/src/pdfmm/base/PdfXRef.cpp
@@ -271,6 +271,10 @@ void PdfXRef::WriteXRefEntry(OutputStreamDevice& device, const PdfReference& ref
         case XRefEntryType::InUse:
         {
             variant = entry.Offset;
+
+            // The offset has exactly 10 digits
+            if (variant > 9999999999)
+                PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
             break;
         }
         default:
-- 
2.43.0


From 833542cd391019aa976dd8dd6551b3d54ba107c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:16 +0000
Subject: [PATCH 035/126] fix: write offsets beyond 4 GiB to cross-reference
 streams

---
 src/pdfmm/base/PdfXRefStream.cpp | 48 ++++++++++++++++++++++----------
 src/pdfmm/base/PdfXRefStream.h   |  7 ++---
 2 files changed, 36 insertions(+), 19 deletions(-)

diff --git a/src/pdfmm/base/PdfXRefStream.cpp b/src/pdfmm/base/PdfXRefStream.cpp
index 6bdbf35..c6e6f01 100644
--- a/src/pdfmm/base/PdfXRefStream.cpp
+++ b/src/pdfmm/base/PdfXRefStream.cpp
@@ -12,6 +12,7 @@
 #include "PdfWriter.h"
 #include "PdfDictionary.h"
 
+using namespace std;
 using namespace mm;
 
 PdfXRefStream::PdfXRefStream(PdfWriter& writer) :
@@ -60,7 +61,7 @@ void PdfXRefStream::WriteXRefEntry(OutputStreamDevice& device, const PdfReferenc
     (void)device;
     (void)buffer;
     XRefStreamEntry stmEntry;
-    stmEntry.Type = static_cast<uint8_t>(entry.Type);
+    stmEntry.Type = entry.Type;
 
     if (m_xrefStreamObj->GetIndirectReference() == ref)
         m_xrefStreamEntryIndex = (int)m_rawEntries.size();
@@ -68,39 +69,58 @@ void PdfXRefStream::WriteXRefEntry(OutputStreamDevice& device, const PdfReferenc
     switch (entry.Type)
     {
         case XRefEntryType::Free:
-            stmEntry.Variant = AS_BIG_ENDIAN(static_cast<uint32_t>(entry.ObjectNumber));
+            stmEntry.Variant = entry.ObjectNumber;
             break;
         case XRefEntryType::InUse:
-            stmEntry.Variant = AS_BIG_ENDIAN(static_cast<uint32_t>(entry.Offset));
+            stmEntry.Variant = entry.Offset;
             break;
         default:
             PDFMM_RAISE_ERROR(PdfErrorCode::InvalidEnumValue);
     }
 
-    stmEntry.Generation = AS_BIG_ENDIAN(static_cast<uint16_t>(entry.Generation));
+    stmEntry.Generation = static_cast<uint16_t>(entry.Generation);
     m_rawEntries.push_back(stmEntry);
 }
 
 void PdfXRefStream::EndWriteImpl(OutputStreamDevice& device, charbuff& buffer)
 {
+    // Set the actual offset of the XRefStm object
+    uint64_t offset = device.GetPosition();
+    PDFMM_ASSERT(m_xrefStreamEntryIndex >= 0);
+    m_rawEntries[m_xrefStreamEntryIndex].Variant = offset;
+
+    // Offsets beyond 4 GiB need a wider field
+    unsigned variantSize = sizeof(uint32_t);
+    for (auto& entry : m_rawEntries)
+    {
+        if (entry.Variant > numeric_limits<uint32_t>::max())
+            variantSize = sizeof(uint64_t);
+    }
+
     PdfArray wArr;
     wArr.Add(static_cast<int64_t>(sizeof(XRefStreamEntry::Type)));
-    wArr.Add(static_cast<int64_t>(sizeof(XRefStreamEntry::Variant)));
+    wArr.Add(static_cast<int64_t>(variantSize));
     wArr.Add(static_cast<int64_t>(sizeof(XRefStreamEntry::Generation)));
- 
+
     m_xrefStreamObj->GetDictionary().AddKey("Index", m_indices);
     m_xrefStreamObj->GetDictionary().AddKey("W", wArr);
- 
-    // Set the actual offset of the XRefStm object
-    uint32_t offset = (uint32_t)device.GetPosition();
-    PDFMM_ASSERT(m_xrefStreamEntryIndex >= 0);
-    m_rawEntries[m_xrefStreamEntryIndex].Variant = AS_BIG_ENDIAN(offset);
- 
+
     // Write the actual entries data to the XRefStm object stream
+    charbuff data;
+    for (auto& entry : m_rawEntries)
+    {
+        data.push_back(static_cast<char>(entry.Type));
+        for (unsigned i = variantSize; i > 0; i--)
+            data.push_back(static_cast<char>(entry.Variant >> 8 * (i - 1)));
+
+        data.push_back(static_cast<char>(entry.Generation >> 8));
+        data.push_back(static_cast<char>(entry.Generation));
+    }
+
     auto& stream = m_xrefStreamObj->GetOrCreateStream();
-    stream.SetData(bufferview((const char*)m_rawEntries.data(), m_rawEntries.size() * sizeof(XRefStreamEntry)));
+    stream.SetData(data);
     GetWriter().FillTrailerObject(*m_xrefStreamObj, this->GetSize(), false);
 
     m_xrefStreamObj->Write(device, GetWriter().GetWriteFlags(), nullptr, buffer); // CHECK-ME: Requires encryption info??
-    m_offset = offset;
+    m_offset = (int64_t)offset;
 }
diff --git a/src/pdfmm/base/PdfXRefStream.h b/src/pdfmm/base/PdfXRefStream.h
index 266f268..af6cc12 100644
--- a/src/pdfmm/base/PdfXRefStream.h
+++ b/src/pdfmm/base/PdfXRefStream.h
@@ -48,15 +48,12 @@ protected:
     void EndWriteImpl(OutputStreamDevice& device, charbuff& buffer) override;
 
 private:
-#pragma pack(push, 1)
-    // TODO: Handle for different byte size for object number/offset/generation
     struct XRefStreamEntry
     {
-        uint8_t Type;
-        uint32_t Variant; // Can be an object number or an offset
+        XRefEntryType Type;
+        uint64_t Variant; // Can be an object number or an offset
         uint16_t Generation;
     };
-#pragma pack(pop)
 
 private:
     std::vector<XRefStreamEntry> m_rawEntries;
-- 
2.43.0


From eb99d7189c01046772cde8cc7d05b7980b5fa900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:16 +0000
Subject: [PATCH 036/126] fix: keep the generation of free entries that are
 read

---
 src/pdfmm/base/PdfParser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfParser.cpp b/src/pdfmm/base/PdfParser.cpp
index a74b5e9..6f76337 100644
--- a/src/pdfmm/base/PdfParser.cpp
+++ b/src/pdfmm/base/PdfParser.cpp
@@ -744,7 +744,8 @@ void PdfParser::ReadObjectsInternal(InputStreamDevice& device)
                         {
                             mm::LogMessage(PdfLogSeverity::Warning,
                                 "Treating object {} 0 R as a free object", i);
-                            m_Objects->AddFreeObject(PdfReference(i, 1));
+                            if (i != 0)
+                                m_Objects->AddFreeObject(PdfReference(i, 1));
                         }
                     }
                     break;
@@ -753,8 +754,9 @@ void PdfParser::ReadObjectsInternal(InputStreamDevice& device)
                 {
                     // NOTE: We don't need entry.ObjectNumber, which is supposed to be
                     // the entry of the next free object
+                    // NOTE: The generation is already the one to use the next time
                     if (i != 0)
-                        m_Objects->SafeAddFreeObject(PdfReference(i, entry.Generation));
+                        m_Objects->TryAddFreeObject(PdfReference(i, (uint16_t)std::min<uint32_t>(entry.Generation, 65535)));
 
                     break;
                 }
-- 
2.43.0


From 399f26160ec1fd38f248bcef9e4039c0c5c81cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:16 +0000
Subject: [PATCH 037/126] fix: mark exhausted object numbers as unavailable

---
 src/pdfmm/base/PdfIndirectObjectList.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index 823f1e6..30a13d8 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -274,7 +274,7 @@ int32_t PdfIndirectObjectList::tryAddFreeObject(uint32_t objnum, uint32_t gennum
     // NOTE: gennum is uint32 to accomodate overflows from callers
     if (gennum >= MaxXRefGenerationNum)
     {
-        m_unavailableObjects.insert(gennum);
+        m_unavailableObjects.insert(objnum);
         return -1;
     }
 
-- 
2.43.0


From 98218e085c8f44bf85f9673b091c76cbf3d5b930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:21 +0000
Subject: [PATCH 038/126] fix: do not load the streams of objects in object
 streams

---
 src/pdfmm/base/PdfParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfParser.cpp b/src/pdfmm/base/PdfParser.cpp
index 6f76337..aea70c5 100644
--- a/src/pdfmm/base/PdfParser.cpp
+++ b/src/pdfmm/base/PdfParser.cpp
@@ -805,7 +805,8 @@ void PdfParser::ReadObjectsInternal(InputStreamDevice& device)
         for (auto objToLoad : *m_Objects)
         {
             auto obj = dynamic_cast<PdfParserObject*>(objToLoad);
-            obj->ParseStream();
+            if (obj != nullptr) // Objects of object streams are already loaded
+                obj->ParseStream();
         }
     }
 
-- 
2.43.0


From 6c7e0b0a952480689a2e5263af2294884b198c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:21 +0000
Subject: [PATCH 039/126] fix: reject negative offsets in object streams

---
 src/pdfmm/base/PdfObjectStreamParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfObjectStreamParser.cpp b/src/pdfmm/base/PdfObjectStreamParser.cpp
index ddf516c..55c0750 100644
--- a/src/pdfmm/base/PdfObjectStreamParser.cpp
+++ b/src/pdfmm/base/PdfObjectStreamParser.cpp
@@ -53,7 +53,7 @@ void PdfObjectStreamParser::readObjectsFromStream(char* buffer, size_t bufferLen
         int64_t offset = tokenizer.ReadNextNumber(device);
         size_t pos = device.GetPosition();
 
-        if (first >= std::numeric_limits<int64_t>::max() - offset)
+        if (first < 0 || offset < 0 || first >= std::numeric_limits<int64_t>::max() - offset)
         {
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::BrokenFile,
                 "Object position out of max limit");
-- 
2.43.0


From 1bb2d8137a2b4fd7f4692d6f2367899ab4f960fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:23 +0000
Subject: [PATCH 040/126] fix: don't truncate new object numbers to 16 bits

---
 src/pdfmm/base/PdfIndirectObjectList.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index 30a13d8..c8166d8 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -192,10 +192,10 @@ PdfReference PdfIndirectObjectList::getNextFreeObject()
     }
 
     // If no free objects are available, create a new object with generation 0
-    uint16_t nextObjectNum = static_cast<uint16_t>(m_ObjectCount);
+    uint32_t nextObjectNum = m_ObjectCount;
     while (true)
     {
-        if ((size_t)(nextObjectNum + 1) == MaxReserveSize)
+        if ((size_t)nextObjectNum + 1 >= MaxReserveSize)
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "Reached the maximum number of indirect objects");
 
         // Check also if the object number it not available,
-- 
2.43.0


From ba51c62bb737bbd316587df470f5718e9e3ad839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:23 +0000
Subject: [PATCH 041/126] fix: replace only the object with the given reference

---
 src/pdfmm/base/PdfIndirectObjectList.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index c8166d8..6752a9c 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -157,12 +157,13 @@ unique_ptr<PdfObject> PdfIndirectObjectList::ReplaceObject(const PdfReference& r
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidHandle, "Object must be non null");
 
     auto it = std::lower_bound(m_Objects.begin(), m_Objects.end(), ref, CompareReference);
-    if (it == m_Objects.end())
+    if (it == m_Objects.end() || (*it)->GetIndirectReference() != ref)
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidHandle, "Unable to find object with reference {}", ref.ToString());
 
     auto node = m_Objects.extract(it);
     unique_ptr<PdfObject> ret(node.value());
     node.value() = obj;
+    obj->SetDocument(m_Document);
     obj->SetIndirectReference(ref);
     pushObject(node, obj);
     return ret;
-- 
2.43.0


From d3406c168fc2256fb43b67e1c20d8d9f48da5012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:23 +0000
Subject: [PATCH 042/126] fix: forget free numbers when clearing the objects

---
 src/pdfmm/base/PdfIndirectObjectList.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index 6752a9c..64ed126 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -110,6 +110,9 @@ void PdfIndirectObjectList::Clear()
         delete obj;
 
     m_Objects.clear();
+    m_FreeObjects.clear();
+    m_unavailableObjects.clear();
+    m_objectStreams.clear();
     m_ObjectCount = 1;
     m_StreamFactory = nullptr;
 }
-- 
2.43.0


From 6201d251099331e9a32f5cfb3dba99f75ff1f84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:23 +0000
Subject: [PATCH 043/126] fix: number appended objects after all used numbers

---
 src/pdfmm/base/PdfDocument.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfDocument.cpp b/src/pdfmm/base/PdfDocument.cpp
index 2b9d3c1..421f6ca 100644
--- a/src/pdfmm/base/PdfDocument.cpp
+++ b/src/pdfmm/base/PdfDocument.cpp
@@ -116,7 +116,7 @@ void PdfDocument::AppendDocumentPages(const PdfDocument& doc)
 
 void PdfDocument::append(const PdfDocument& doc, bool appendAll)
 {
-    unsigned difference = static_cast<unsigned>(m_Objects.GetSize() + m_Objects.GetFreeObjects().size());
+    unsigned difference = m_Objects.GetObjectCount() - 1;
 
     // Because GetNextObject uses m_ObjectCount instead 
     // of m_Objects.GetSize() + m_Objects.GetFreeObjects().size() + 1
@@ -201,7 +201,7 @@ void PdfDocument::append(const PdfDocument& doc, bool appendAll)
 void PdfDocument::InsertDocumentPageAt(unsigned atIndex, const PdfDocument& doc, unsigned pageIndex)
 {
     // copy of PdfDocument::Append, only restricts which page to add
-    unsigned difference = static_cast<unsigned>(m_Objects.GetSize() + m_Objects.GetFreeObjects().size());
+    unsigned difference = m_Objects.GetObjectCount() - 1;
 
 
     // Because GetNextObject uses m_ObjectCount instead 
@@ -350,7 +350,7 @@ PdfRect PdfDocument::FillXObjectFromPage(PdfXObjectForm& xobj, const PdfPage& pa
     auto& sourceDoc = page.GetDocument();
     if (this != &sourceDoc)
     {
-        difference = static_cast<unsigned>(m_Objects.GetSize() + m_Objects.GetFreeObjects().size());
+        difference = m_Objects.GetObjectCount() - 1;
         append(sourceDoc, false);
     }
 
-- 
2.43.0


From 03749a15ee67af70136d2f918ea8d4b86733879a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:23 +0000
Subject: [PATCH 044/126] fix: insert the objects of the given document

---
 src/pdfmm/base/PdfDocument.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfDocument.cpp b/src/pdfmm/base/PdfDocument.cpp
index 421f6ca..9a9302b 100644
--- a/src/pdfmm/base/PdfDocument.cpp
+++ b/src/pdfmm/base/PdfDocument.cpp
@@ -210,13 +210,15 @@ void PdfDocument::InsertDocumentPageAt(unsigned atIndex, const PdfDocument& doc,
     // prevent overlapping obj-numbers
 
     // create all free objects again, to have a clean free object list
-    for (auto& freeObj : GetObjects().GetFreeObjects())
+    for (auto& freeObj : doc.GetObjects().GetFreeObjects())
     {
         m_Objects.AddFreeObject(PdfReference(freeObj.ObjectNumber() + difference, freeObj.GenerationNumber()));
     }
 
     // append all objects first and fix their references
-    for (auto& obj : GetObjects())
+    // NOTE: the document may be inserted into itself
+    vector<PdfObject*> objects(doc.GetObjects().begin(), doc.GetObjects().end());
+    for (auto& obj : objects)
     {
         PdfReference ref(static_cast<uint32_t>(obj->GetIndirectReference().ObjectNumber() + difference), obj->GetIndirectReference().GenerationNumber());
         auto newObj = new PdfObject(PdfDictionary());
-- 
2.43.0


From c928747c7dbf6dcb1e3960aa141c85ca4a470916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:03 +0000
Subject: [PATCH 045/126] fix: let objects and variants be assigned from
 themselves or from their parts

---
 src/pdfmm/base/PdfObject.cpp  | 10 ++++++++++
 src/pdfmm/base/PdfVariant.cpp | 15 ++++++++-------
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index 077c208..745b2c2 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -365,6 +365,9 @@ void PdfObject::delayedLoadStream() const
 //        For dictionaries/lists maybe we can rely on auomatic dirty set
 PdfObject& PdfObject::operator=(const PdfObject& rhs)
 {
+    if (&rhs == this)
+        return *this;
+
     assign(rhs);
     SetDirty();
     return *this;
@@ -372,6 +375,9 @@ PdfObject& PdfObject::operator=(const PdfObject& rhs)
 
 PdfObject& PdfObject::operator=(PdfObject&& rhs) noexcept
 {
+    if (&rhs == this)
+        return *this;
+
     moveFrom(rhs);
     SetDirty();
     return *this;
@@ -439,6 +445,8 @@ void PdfObject::SetParent(PdfDataContainer& parent)
 void PdfObject::assign(const PdfObject& rhs)
 {
     rhs.DelayedLoad();
+    // Keep the previous value until the end, rhs may be part of it
+    PdfVariant previous(std::move(m_Variant));
     m_Variant = rhs.m_Variant;
     m_IsDelayedLoadDone = true;
     SetVariantOwner();
@@ -451,6 +459,8 @@ void PdfObject::assign(const PdfObject& rhs)
 void PdfObject::moveFrom(PdfObject& rhs)
 {
     rhs.DelayedLoad();
+    // Keep the previous value until the end, rhs may be part of it
+    PdfVariant previous(std::move(m_Variant));
     m_Variant = std::move(rhs.m_Variant);
     m_IsDelayedLoadDone = true;
     SetVariantOwner();
diff --git a/src/pdfmm/base/PdfVariant.cpp b/src/pdfmm/base/PdfVariant.cpp
index 6d5aa25..c9462e5 100644
--- a/src/pdfmm/base/PdfVariant.cpp
+++ b/src/pdfmm/base/PdfVariant.cpp
@@ -239,18 +239,19 @@ void PdfVariant::ToString(string& str) const
 
 PdfVariant& PdfVariant::operator=(const PdfVariant& rhs)
 {
-    clear();
-    assign(rhs);
+    // NOTE: rhs may be this variant, or part of it
+    PdfVariant copy(rhs);
+    std::swap(m_DataType, copy.m_DataType);
+    std::swap(m_Data, copy.m_Data);
     return *this;
 }
 
 PdfVariant& PdfVariant::operator=(PdfVariant&& rhs) noexcept
 {
-    clear();
-    m_DataType = rhs.m_DataType;
-    m_Data = rhs.m_Data;
-    rhs.m_DataType = PdfDataType::Null;
-    rhs.m_Data = { };
+    // NOTE: rhs may be this variant, or part of it
+    PdfVariant moved(std::move(rhs));
+    std::swap(m_DataType, moved.m_DataType);
+    std::swap(m_Data, moved.m_Data);
     return *this;
 }
 
-- 
2.43.0


From 02feaf75ae94b51269c5999af50275bab8e2f540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:03 +0000
Subject: [PATCH 046/126] fix: keep the parent of array elements when they are
 moved in memory

---
 src/pdfmm/base/PdfArray.cpp | 18 +++++++++++-------
 src/pdfmm/base/PdfArray.h   |  6 +-----
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/pdfmm/base/PdfArray.cpp b/src/pdfmm/base/PdfArray.cpp
index e76d091..b1bd5d5 100644
--- a/src/pdfmm/base/PdfArray.cpp
+++ b/src/pdfmm/base/PdfArray.cpp
@@ -237,8 +237,11 @@ PdfObject& PdfArray::add(PdfObject&& obj)
 
 PdfArray::iterator PdfArray::insertAt(const iterator& pos, PdfObject&& obj)
 {
+    auto data = m_Objects.data();
     auto ret = m_Objects.emplace(pos, std::move(obj));
-    ret->SetParent(*this);
+    // Elements that have been moved in memory lost their parent
+    for (auto it = m_Objects.data() == data ? ret : m_Objects.begin(); it != m_Objects.end(); it++)
+        it->SetParent(*this);
     return ret;
 }
 
@@ -299,11 +302,7 @@ void PdfArray::Resize(unsigned count, const PdfObject& val)
 {
     size_t currentSize = m_Objects.size();
     m_Objects.resize(count, val);
-    for (size_t i = currentSize; i < count; i++)
-    {
-        auto& obj = m_Objects[i];
-        obj.SetParent(*this);
-    }
+    setChildrenParent();
 
     if (currentSize != count)
         SetDirty();
@@ -311,7 +310,7 @@ void PdfArray::Resize(unsigned count, const PdfObject& val)
 
 void PdfArray::Reserve(unsigned n)
 {
-    m_Objects.reserve(n);
+    reserve(n);
 }
 
 PdfObject& PdfArray::operator[](size_type idx)
@@ -370,7 +369,11 @@ void PdfArray::resize(size_t size)
     if (size > numeric_limits<unsigned>::max())
         throw length_error("Too big size");
 #endif
+    size_t currentSize = m_Objects.size();
     m_Objects.resize(size);
+    setChildrenParent();
+    if (currentSize != size)
+        SetDirty();
 }
 
 void PdfArray::reserve(size_t size)
@@ -380,6 +383,7 @@ void PdfArray::reserve(size_t size)
         throw length_error("Too big size");
 #endif
     m_Objects.reserve(size);
+    setChildrenParent();
 }
 
 PdfObject& PdfArray::front()
diff --git a/src/pdfmm/base/PdfArray.h b/src/pdfmm/base/PdfArray.h
index 0b65b56..a6fff49 100644
--- a/src/pdfmm/base/PdfArray.h
+++ b/src/pdfmm/base/PdfArray.h
@@ -379,14 +379,10 @@ void PdfArray::insert(const PdfArray::iterator& pos,
     const InputIterator& first,
     const InputIterator& last)
 {
-    auto document = GetObjectDocument();
     InputIterator it1 = first;
     iterator it2 = pos;
     for (; it1 != last; it1++, it2++)
-    {
-        it2 = m_Objects.insert(it2, *it1);
-        it2->SetDocument(document);
-    }
+        it2 = insertAt(it2, PdfObject(*it1));
 
     SetDirty();
 }
-- 
2.43.0


From a6ed85332b9b4584a957805ecea89d16a1afdcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:03 +0000
Subject: [PATCH 047/126] fix: mark objects as modified when their array,
 dictionary or stream is replaced

---
 src/pdfmm/base/PdfArray.cpp        | 2 ++
 src/pdfmm/base/PdfDictionary.cpp   | 2 ++
 src/pdfmm/base/PdfObjectStream.cpp | 5 +++++
 3 files changed, 9 insertions(+)

diff --git a/src/pdfmm/base/PdfArray.cpp b/src/pdfmm/base/PdfArray.cpp
index b1bd5d5..04cdcd2 100644
--- a/src/pdfmm/base/PdfArray.cpp
+++ b/src/pdfmm/base/PdfArray.cpp
@@ -67,6 +67,7 @@ PdfArray& PdfArray::operator=(const PdfArray& rhs)
 {
     m_Objects = rhs.m_Objects;
     setChildrenParent();
+    SetDirty();
     return *this;
 }
 
@@ -74,6 +75,7 @@ PdfArray& PdfArray::operator=(PdfArray&& rhs) noexcept
 {
     m_Objects = std::move(rhs.m_Objects);
     setChildrenParent();
+    SetDirty();
     return *this;
 }
 
diff --git a/src/pdfmm/base/PdfDictionary.cpp b/src/pdfmm/base/PdfDictionary.cpp
index 1d1135f..39fd840 100644
--- a/src/pdfmm/base/PdfDictionary.cpp
+++ b/src/pdfmm/base/PdfDictionary.cpp
@@ -30,6 +30,7 @@ PdfDictionary& PdfDictionary::operator=(const PdfDictionary& rhs)
 {
     m_Map = rhs.m_Map;
     setChildrenParent();
+    SetDirty();
     return *this;
 }
 
@@ -37,6 +38,7 @@ PdfDictionary& PdfDictionary::operator=(PdfDictionary&& rhs) noexcept
 {
     m_Map = std::move(rhs.m_Map);
     setChildrenParent();
+    SetDirty();
     return *this;
 }
 
diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index 878a0e3..5cc3efb 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -34,18 +34,21 @@ PdfObjectStream::~PdfObjectStream() { }
 PdfObjectOutputStream PdfObjectStream::GetOutputStreamRaw(bool append)
 {
     ensureClosed();
+    m_Parent->SetDirty();
     return PdfObjectOutputStream(*this, PdfFilterList(), append);
 }
 
 PdfObjectOutputStream PdfObjectStream::GetOutputStream(bool append)
 {
     ensureClosed();
+    m_Parent->SetDirty();
     return PdfObjectOutputStream(*this, { DefaultFilter }, append);
 }
 
 PdfObjectOutputStream PdfObjectStream::GetOutputStream(const PdfFilterList& filters, bool append)
 {
     ensureClosed();
+    m_Parent->SetDirty();
     return PdfObjectOutputStream(*this, PdfFilterList(filters), append);
 }
 
@@ -179,12 +182,14 @@ void PdfObjectStream::Unwrap()
 PdfObjectStream& PdfObjectStream::operator=(const PdfObjectStream& rhs)
 {
     CopyFrom(rhs);
+    m_Parent->SetDirty();
     return (*this);
 }
 
 PdfObjectStream& PdfObjectStream::operator=(PdfObjectStream&& rhs) noexcept
 {
     MoveFrom(rhs);
+    m_Parent->SetDirty();
     return (*this);
 }
 
-- 
2.43.0


From 0d94aa9133389c935aa904c2fafcb7855fb00840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:38 +0000
Subject: [PATCH 048/126] fix: check for read access when copying from a device

---
 src/pdfmm/base/PdfInputStream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfInputStream.cpp b/src/pdfmm/base/PdfInputStream.cpp
index 25a1009..2d765b5 100644
--- a/src/pdfmm/base/PdfInputStream.cpp
+++ b/src/pdfmm/base/PdfInputStream.cpp
@@ -73,6 +73,7 @@ size_t InputStream::Read(char* buffer, size_t size, bool& eof)
 
 void InputStream::CopyTo(OutputStream& stream)
 {
+    checkRead();
     size_t read = 0;
     char buffer[BUFFER_SIZE];
 
@@ -88,6 +89,7 @@ void InputStream::CopyTo(OutputStream& stream)
 
 void InputStream::CopyTo(OutputStream& stream, size_t size)
 {
+    checkRead();
     size_t read = 0;
     char buffer[BUFFER_SIZE];
 
-- 
2.43.0


From 759824653aec4ed2b84b6697ba3ca508316f2b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:38 +0000
Subject: [PATCH 049/126] fix: set the character that could not be read from a
 C++ stream

---
 src/pdfmm/private/PdfDeclarationsPrivate.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/private/PdfDeclarationsPrivate.cpp b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
index 38b2191..a39fbd1 100644
--- a/src/pdfmm/private/PdfDeclarationsPrivate.cpp
+++ b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
@@ -851,6 +851,7 @@ bool utls::ReadChar(istream& stream, char& ch)
 
     } while (!stream.eof());
 
+    ch = '\0';
     return false;
 }
 
-- 
2.43.0


From c83ea98e957640dd51c17b3a0cbf4cd71a21c3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:47 +0000
Subject: [PATCH 050/126] fix: keep the index of pages right when others are
 inserted or removed

---
 src/pdfmm/base/PdfPage.h            |  1 +
 src/pdfmm/base/PdfPageTreeCache.cpp | 12 ++++++++++++
 src/pdfmm/base/PdfPageTreeCache.h   |  5 +++++
 3 files changed, 18 insertions(+)

diff --git a/src/pdfmm/base/PdfPage.h b/src/pdfmm/base/PdfPage.h
index e8950bd..a5df4d5 100644
--- a/src/pdfmm/base/PdfPage.h
+++ b/src/pdfmm/base/PdfPage.h
@@ -47,6 +47,7 @@ class PDFMM_API PdfPage final : public PdfDictionaryElement, public PdfCanvas
 {
     PDFMM_UNIT_TEST(PdfPageTest);
     friend class PdfPageCollection;
+    friend class PdfPageTreeCache;
 
 private:
     /** Create a new PdfPage object.
diff --git a/src/pdfmm/base/PdfPageTreeCache.cpp b/src/pdfmm/base/PdfPageTreeCache.cpp
index 46f6bad..31b2a95 100644
--- a/src/pdfmm/base/PdfPageTreeCache.cpp
+++ b/src/pdfmm/base/PdfPageTreeCache.cpp
@@ -67,6 +67,8 @@ void PdfPageTreeCache::InsertPlaceHolders(unsigned atIndex, unsigned count)
 
     for (unsigned i = 0; i < count; i++)
         m_PageObjs.insert(m_PageObjs.begin() + atIndex + i, static_cast<PdfPage*>(nullptr));
+
+    updateIndices(atIndex + count);
 }
 
 void PdfPageTreeCache::DeletePage(unsigned atIndex)
@@ -76,6 +78,16 @@ void PdfPageTreeCache::DeletePage(unsigned atIndex)
 
     delete m_PageObjs[atIndex];
     m_PageObjs.erase(m_PageObjs.begin() + atIndex);
+    updateIndices(atIndex);
+}
+
+void PdfPageTreeCache::updateIndices(unsigned fromIndex)
+{
+    for (unsigned i = fromIndex; i < m_PageObjs.size(); i++)
+    {
+        if (m_PageObjs[i] != nullptr)
+            m_PageObjs[i]->m_Index = i;
+    }
 }
 
 void PdfPageTreeCache::ClearCache()
diff --git a/src/pdfmm/base/PdfPageTreeCache.h b/src/pdfmm/base/PdfPageTreeCache.h
index cd01bf1..a4ff13e 100644
--- a/src/pdfmm/base/PdfPageTreeCache.h
+++ b/src/pdfmm/base/PdfPageTreeCache.h
@@ -73,6 +73,11 @@ public:
      */
     void ClearCache();
 
+private:
+    /** Let the cached pages know their index, from the given one onward
+     */
+    void updateIndices(unsigned fromIndex);
+
 private:
     List m_PageObjs;
 };
-- 
2.43.0


From 62788b235c16c251d5003955304e6445f386e45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:55 +0000
Subject: [PATCH 051/126] fix: look for keys in empty name trees

---
 src/pdfmm/base/PdfNameTree.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfNameTree.cpp b/src/pdfmm/base/PdfNameTree.cpp
index ae19b9e..ef3654c 100644
--- a/src/pdfmm/base/PdfNameTree.cpp
+++ b/src/pdfmm/base/PdfNameTree.cpp
@@ -370,7 +370,12 @@ PdfObject* PdfNameTree::GetKeyValue(PdfObject& obj, const PdfString& key) const
     }
     else
     {
-        auto& names = obj.GetDictionary().MustFindKey("Names").GetArray();
+        // NOTE: A root node without any value yet has no names
+        auto namesObj = obj.GetDictionary().FindKey("Names");
+        if (namesObj == nullptr)
+            return nullptr;
+
+        auto& names = namesObj->GetArray();
         PdfArray::iterator it = names.begin();
 
         // a names array is a set of PdfString/PdfObject pairs
-- 
2.43.0


From fbbb21ab65b4793ba8830bfd983fc4b26cf2cca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:02 +0000
Subject: [PATCH 052/126] fix: load outlines with their last items and with any
 number of items

---
 src/pdfmm/base/PdfOutlines.cpp | 44 +++++++++++++++++++++++++++-------
 src/pdfmm/base/PdfOutlines.h   |  5 ++++
 2 files changed, 40 insertions(+), 9 deletions(-)

diff --git a/src/pdfmm/base/PdfOutlines.cpp b/src/pdfmm/base/PdfOutlines.cpp
index 6df8ed7..59504bc 100644
--- a/src/pdfmm/base/PdfOutlines.cpp
+++ b/src/pdfmm/base/PdfOutlines.cpp
@@ -6,6 +6,8 @@
 #include <pdfmm/private/PdfDeclarationsPrivate.h>
 #include "PdfOutlines.h"
 
+#include <set>
+
 #include "PdfDocument.h"
 #include "PdfArray.h"
 #include "PdfDictionary.h"
@@ -47,19 +49,16 @@ PdfOutlineItem::PdfOutlineItem(PdfObject& obj, PdfOutlineItem* parentOutline, Pd
     m_Next(nullptr), m_First(nullptr), m_Last(nullptr), m_destination(nullptr), m_action(nullptr)
 {
     utls::RecursionGuard guard;
-    PdfReference first, next;
-
     if (this->GetObject().GetDictionary().HasKey("First"))
     {
-        first = this->GetObject().GetDictionary().GetKey("First")->GetReference();
+        auto first = this->GetObject().GetDictionary().GetKey("First")->GetReference();
         m_First = new PdfOutlineItem(obj.GetDocument()->GetObjects().MustGetObject(first), this, nullptr);
+        m_Last = m_First->loadFollowing();
     }
 
-    if (this->GetObject().GetDictionary().HasKey("Next"))
-    {
-        next = this->GetObject().GetDictionary().GetKey("Next")->GetReference();
-        m_Next = new PdfOutlineItem(obj.GetDocument()->GetObjects().MustGetObject(next), parentOutline, this);
-    }
+    // The items following a child are loaded by its parent
+    if (parentOutline == nullptr)
+        (void)loadFollowing();
 }
 
 PdfOutlineItem::PdfOutlineItem(PdfDocument& doc)
@@ -70,10 +69,37 @@ PdfOutlineItem::PdfOutlineItem(PdfDocument& doc)
 
 PdfOutlineItem::~PdfOutlineItem()
 {
-    delete m_Next;
+    // NOTE: Avoid recursion, there may be a lot of following items
+    PdfOutlineItem* item = m_Next;
+    while (item != nullptr)
+    {
+        PdfOutlineItem* next = item->m_Next;
+        item->m_Next = nullptr;
+        delete item;
+        item = next;
+    }
+
     delete m_First;
 }
 
+PdfOutlineItem* PdfOutlineItem::loadFollowing()
+{
+    auto& objects = this->GetObject().GetDocument()->GetObjects();
+    set<PdfReference> visited = { this->GetObject().GetIndirectReference() };
+    PdfOutlineItem* item = this;
+    while (item->GetObject().GetDictionary().HasKey("Next"))
+    {
+        auto next = item->GetObject().GetDictionary().GetKey("Next")->GetReference();
+        if (!visited.insert(next).second)
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidXRef, "Loop in outline items");
+
+        item->m_Next = new PdfOutlineItem(objects.MustGetObject(next), m_ParentOutline, item);
+        item = item->m_Next;
+    }
+
+    return item;
+}
+
 PdfOutlineItem* PdfOutlineItem::CreateChild(const PdfString& title, const shared_ptr<PdfDestination>& dest)
 {
     PdfOutlineItem* item = new PdfOutlineItem(*this->GetObject().GetDocument(), title, dest, this);
diff --git a/src/pdfmm/base/PdfOutlines.h b/src/pdfmm/base/PdfOutlines.h
index 1db0e43..3ade114 100644
--- a/src/pdfmm/base/PdfOutlines.h
+++ b/src/pdfmm/base/PdfOutlines.h
@@ -195,6 +195,11 @@ private:
 
     void InsertChildInternal(PdfOutlineItem* item, bool checkParent);
 
+    /** Load the items following this one
+     *  \returns the last of them, or this item
+     */
+    PdfOutlineItem* loadFollowing();
+
 protected:
     /** Create a new PdfOutlineItem dictionary
      *  \param parent parent vector of objects
-- 
2.43.0


From 769cacadddbb11e9e86269054661bd421a29d12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:02 +0000
Subject: [PATCH 053/126] fix: link inserted outline items to their parent and
 reject items of the same tree

---
 src/pdfmm/base/PdfOutlines.cpp | 55 +++++++++++++---------------------
 1 file changed, 21 insertions(+), 34 deletions(-)

diff --git a/src/pdfmm/base/PdfOutlines.cpp b/src/pdfmm/base/PdfOutlines.cpp
index 59504bc..8a885f7 100644
--- a/src/pdfmm/base/PdfOutlines.cpp
+++ b/src/pdfmm/base/PdfOutlines.cpp
@@ -114,52 +114,39 @@ void PdfOutlineItem::InsertChild(PdfOutlineItem* item)
 
 void PdfOutlineItem::InsertChildInternal(PdfOutlineItem* item, bool checkParent)
 {
-    PdfOutlineItem* itemToCheckParent = item;
-    PdfOutlineItem* root = nullptr;
-    PdfOutlineItem* rootOfThis = nullptr;
-
-    if (itemToCheckParent == nullptr)
+    if (item == nullptr)
         return;
 
     if (checkParent)
     {
-        while (itemToCheckParent != nullptr)
-        {
-            while (itemToCheckParent->GetParentOutline())
-                itemToCheckParent = itemToCheckParent->GetParentOutline();
-
-            if (itemToCheckParent == item) // item can't have a parent
-            {
-                root = item; // needed later, "root" can mean "standalone" here
-                break;         // for performance in standalone or doc-merge case
-            }
-
-            if (root == nullptr)
-            {
-                rootOfThis = itemToCheckParent;
-                itemToCheckParent = nullptr;
-            }
-            else
-            {
-                root = itemToCheckParent;
-                itemToCheckParent = this;
-            }
-        }
-
-        if (root == rootOfThis) // later nullptr if check skipped for performance
+        // The item can't be in the same tree
+        PdfOutlineItem* root = item;
+        while (root->GetParentOutline() != nullptr)
+            root = root->GetParentOutline();
+
+        PdfOutlineItem* rootOfThis = this;
+        while (rootOfThis->GetParentOutline() != nullptr)
+            rootOfThis = rootOfThis->GetParentOutline();
+
+        if (root == rootOfThis)
             PDFMM_RAISE_ERROR(PdfErrorCode::OutlineItemAlreadyPresent);
     }
 
     if (m_Last != nullptr)
-    {
         m_Last->SetNext(item);
-        item->SetPrevious(m_Last);
-    }
 
-    m_Last = item;
+    item->SetPrevious(m_Last);
 
     if (m_First == nullptr)
-        m_First = m_Last;
+        m_First = item;
+
+    // The item comes along with the ones following it
+    for (PdfOutlineItem* child = item; child != nullptr; child = child->m_Next)
+    {
+        child->m_ParentOutline = this;
+        child->GetObject().GetDictionary().AddKey("Parent", this->GetObject().GetIndirectReference());
+        m_Last = child;
+    }
 
     this->GetObject().GetDictionary().AddKey("First", m_First->GetObject().GetIndirectReference());
     this->GetObject().GetDictionary().AddKey("Last", m_Last->GetObject().GetIndirectReference());
-- 
2.43.0


From 3b9c2a66cdb48fcaeb78488221f12d42dcb9a281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:02 +0000
Subject: [PATCH 054/126] fix: create the outlines when appending a document
 that has some

---
 src/pdfmm/base/PdfDocument.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfDocument.cpp b/src/pdfmm/base/PdfDocument.cpp
index 9a9302b..42de24a 100644
--- a/src/pdfmm/base/PdfDocument.cpp
+++ b/src/pdfmm/base/PdfDocument.cpp
@@ -180,11 +180,11 @@ void PdfDocument::append(const PdfDocument& doc, bool appendAll)
         }
 
         // append all outlines
-        PdfOutlineItem* root = this->GetOutlines();
         PdfOutlines* appendRoot = const_cast<PdfDocument&>(doc).GetOutlines();
         if (appendRoot && appendRoot->First())
         {
             // only append outlines if appended document has outlines
+            PdfOutlineItem* root = &this->GetOrCreateOutlines();
             while (root && root->Next())
                 root = root->Next();
 
@@ -271,11 +271,11 @@ void PdfDocument::InsertDocumentPageAt(unsigned atIndex, const PdfDocument& doc,
     }
 
     // append all outlines
-    PdfOutlineItem* root = this->GetOutlines();
     PdfOutlines* appendRoot = const_cast<PdfDocument&>(doc).GetOutlines();
     if (appendRoot != nullptr && appendRoot->First())
     {
         // only append outlines if appended document has outlines
+        PdfOutlineItem* root = &this->GetOrCreateOutlines();
         while (root != nullptr && root->Next())
             root = root->Next();
 
-- 
2.43.0


From c5e84f451f47391a847fc66118a0dbfa55df499e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:01 +0000
Subject: [PATCH 055/126] fix: default month and day of shortened dates to 1

---
 src/pdfmm/base/PdfDate.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/pdfmm/base/PdfDate.cpp b/src/pdfmm/base/PdfDate.cpp
index 9683b4c..a9aef73 100644
--- a/src/pdfmm/base/PdfDate.cpp
+++ b/src/pdfmm/base/PdfDate.cpp
@@ -200,8 +200,8 @@ bool PdfDate::operator!=(const PdfDate& rhs) const
 bool tryParse(const string_view& dateStr, chrono::seconds& secondsFromEpoch, nullable<chrono::minutes>& minutesFromUtc)
 {
     int y = 0;
-    int m = 0;
-    int d = 0;
+    int m = 1;
+    int d = 1;
     int h = 0;
     int M = 0;
     int s = 0;
@@ -292,8 +292,8 @@ End:
 bool tryParseW3C(const string_view& dateStr, chrono::seconds& secondsFromEpoch, nullable<chrono::minutes>& minutesFromUtc)
 {
     int y = 0;
-    int m = 0;
-    int d = 0;
+    int m = 1;
+    int d = 1;
     int h = 0;
     int M = 0;
     int s = 0;
@@ -441,8 +441,12 @@ bool parseFixLenNumber(const char*& in, unsigned maxLength, int min, int max, in
     ret = 0;
     for (unsigned i = 0; i < maxLength; i++)
     {
-        if (in == nullptr || !isdigit(*in))
+        if (in == nullptr || !isdigit((unsigned char)*in))
+        {
+            // Accept a truncated number
+            ret = std::max(ret, min);
             return i != 0;
+        }
 
         ret = ret * 10 + (*in - '0');
         in++;
-- 
2.43.0


From 023a9dd926b3d617ccba64ad5db8051b6c917942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:01 +0000
Subject: [PATCH 056/126] fix: parse dates within their text only

---
 src/pdfmm/base/PdfDate.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/pdfmm/base/PdfDate.cpp b/src/pdfmm/base/PdfDate.cpp
index a9aef73..59b7535 100644
--- a/src/pdfmm/base/PdfDate.cpp
+++ b/src/pdfmm/base/PdfDate.cpp
@@ -211,9 +211,9 @@ bool tryParse(const string_view& dateStr, chrono::seconds& secondsFromEpoch, nul
     int zoneHour = 0;
     int zoneMin = 0;
 
-    const char* cursor = dateStr.data();
-    if (cursor == nullptr)
-        return false;
+    // NOTE: The view may not be terminated
+    string date(dateStr);
+    const char* cursor = date.c_str();
 
     if (*cursor == 'D')
     {
@@ -222,8 +222,6 @@ bool tryParse(const string_view& dateStr, chrono::seconds& secondsFromEpoch, nul
             return false;
     }
 
-    PEEK_DATE_CHAR(cursor, zoneShift);
-
     if (!parseFixLenNumber(cursor, 4, 0, 9999, y))
         return false;
 
@@ -282,6 +280,9 @@ ParseShift:
     }
 
 End:
+    if (cursor != date.c_str() + date.size())
+        return false;
+
     inferTimeComponents(y, m, d, h, M, s,
         hasZoneShift, zoneShift, zoneHour, zoneMin,
         secondsFromEpoch, minutesFromUtc);
@@ -303,9 +304,9 @@ bool tryParseW3C(const string_view& dateStr, chrono::seconds& secondsFromEpoch,
     int zoneHour = 0;
     int zoneMin = 0;
 
-    const char* cursor = dateStr.data();
-    if (cursor == nullptr || *cursor == '\0')
-        return false;
+    // NOTE: The view may not be terminated
+    string date(dateStr);
+    const char* cursor = date.c_str();
 
     if (!parseFixLenNumber(cursor, 4, 0, 9999, y))
         return false;
@@ -366,6 +367,9 @@ ParseShift:
     }
 
 End:
+    if (cursor != date.c_str() + date.size())
+        return false;
+
     inferTimeComponents(y, m, d, h, M, s,
         hasZoneShift, zoneShift, zoneHour, zoneMin,
         secondsFromEpoch, minutesFromUtc);
-- 
2.43.0


From 9e3d769b05f8818e3ca1795ef1c26db2812dfbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:01 +0000
Subject: [PATCH 057/126] fix: check the time zone of dates and read fractions
 of seconds

---
 src/pdfmm/base/PdfDate.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfDate.cpp b/src/pdfmm/base/PdfDate.cpp
index 59b7535..8f4b7ab 100644
--- a/src/pdfmm/base/PdfDate.cpp
+++ b/src/pdfmm/base/PdfDate.cpp
@@ -252,12 +252,14 @@ bool tryParse(const string_view& dateStr, chrono::seconds& secondsFromEpoch, nul
 
     PEEK_DATE_CHAR(cursor, zoneShift);
 
+    return false;
+
 ParseShift:
     hasZoneShift = true;
     if (*cursor != '\0')
     {
-        if (!parseFixLenNumber(cursor, 2, 0, 59, zoneHour))
-            goto End;
+        if (!parseFixLenNumber(cursor, 2, 0, 23, zoneHour))
+            return false;
 
         if (*cursor == '\'')
         {
@@ -339,6 +341,15 @@ bool tryParseW3C(const string_view& dateStr, chrono::seconds& secondsFromEpoch,
     if (!parseFixLenNumber(cursor, 2, 0, 59, s))
         return false;
 
+    // Skip the decimal fraction of the second
+    if (*cursor == '.' && isdigit((unsigned char)cursor[1]))
+    {
+        do
+        {
+            cursor++;
+        } while (isdigit((unsigned char)*cursor));
+    }
+
     if (!tryReadShiftChar(cursor, zoneShift))
         goto End;
 
@@ -346,8 +357,8 @@ ParseShift:
     hasZoneShift = true;
     if (*cursor != '\0')
     {
-        if (!parseFixLenNumber(cursor, 2, 0, 59, zoneHour))
-            goto End;
+        if (!parseFixLenNumber(cursor, 2, 0, 23, zoneHour))
+            return false;
 
         if (*cursor == ':')
         {
-- 
2.43.0


From 1de583872a3d0e5b46ddabe5f85c7fc379bf5f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:02 +0000
Subject: [PATCH 058/126] fix: make the intersection of disjoint rectangles
 empty

---
 src/pdfmm/base/PdfRect.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pdfmm/base/PdfRect.cpp b/src/pdfmm/base/PdfRect.cpp
index e929903..4207c92 100644
--- a/src/pdfmm/base/PdfRect.cpp
+++ b/src/pdfmm/base/PdfRect.cpp
@@ -128,6 +128,13 @@ void PdfRect::Intersect(const PdfRect& rect)
         {
             m_Height -= diff;
         }
+
+        // There may be no common area
+        if (m_Width < 0)
+            m_Width = 0;
+
+        if (m_Height < 0)
+            m_Height = 0;
     }
 }
 
-- 
2.43.0


From 69e4b1c0f5c55a4ab2829f314ce96a954fc3c3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:02 +0000
Subject: [PATCH 059/126] fix: bound all corners of transformed rectangles

---
 src/pdfmm/base/PdfRect.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/pdfmm/base/PdfRect.cpp b/src/pdfmm/base/PdfRect.cpp
index 4207c92..4c049d6 100644
--- a/src/pdfmm/base/PdfRect.cpp
+++ b/src/pdfmm/base/PdfRect.cpp
@@ -140,11 +140,15 @@ void PdfRect::Intersect(const PdfRect& rect)
 
 PdfRect PdfRect::operator*(const Matrix& m) const
 {
-    Vector2 corner1(m_Left, m_Bottom);
-    Vector2 corner2(GetRight(), GetTop());
-    corner1 = corner1 * m;
-    corner2 = corner2 * m;
-    return PdfRect::FromCorners(corner1.X, corner1.Y, corner2.X, corner2.Y);
+    // Bound all the corners, as the transformed
+    // rectangle may not be aligned to the axes
+    Vector2 corner1 = Vector2(m_Left, m_Bottom) * m;
+    Vector2 corner2 = Vector2(GetRight(), m_Bottom) * m;
+    Vector2 corner3 = Vector2(m_Left, GetTop()) * m;
+    Vector2 corner4 = Vector2(GetRight(), GetTop()) * m;
+    auto x = std::minmax({ corner1.X, corner2.X, corner3.X, corner4.X });
+    auto y = std::minmax({ corner1.Y, corner2.Y, corner3.Y, corner4.Y });
+    return PdfRect::FromCorners(x.first, y.first, x.second, y.second);
 }
 
 void CreateRect(double x1, double y1, double x2, double y2, double& left, double& bottom, double& width, double& height)
-- 
2.43.0


From c133e7250e02973b9044091b1191b9d94d260f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:02 +0000
Subject: [PATCH 060/126] fix: apply translations to rotated matrices

---
 src/pdfmm/base/PdfMathBase.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfMathBase.h b/src/pdfmm/base/PdfMathBase.h
index fd868b2..3e3be75 100644
--- a/src/pdfmm/base/PdfMathBase.h
+++ b/src/pdfmm/base/PdfMathBase.h
@@ -40,6 +40,7 @@ namespace mm
         static void Apply(double m[6], double value)
         {
             m[4] = value * m[0] + m[4];
+            m[5] = value * m[1] + m[5];
         }
     };
 
@@ -58,6 +59,7 @@ namespace mm
 
         static void Apply(double m[6], double value)
         {
+            m[4] = value * m[2] + m[4];
             m[5] = value * m[3] + m[5];
         }
     };
-- 
2.43.0


From c01f55c5259d93f6c5610a0f0b2a4c8f6e5c1584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:03 +0000
Subject: [PATCH 061/126] fix: read all of the text of gray and named colors

---
 src/pdfmm/base/PdfColor.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfColor.cpp b/src/pdfmm/base/PdfColor.cpp
index b4563d6..4ce34f3 100644
--- a/src/pdfmm/base/PdfColor.cpp
+++ b/src/pdfmm/base/PdfColor.cpp
@@ -684,10 +684,11 @@ PdfColor PdfColor::FromString(const string_view& name)
         return PdfColor();
 
     // first see if it's a single number - if so, that's a single gray value
-    if (isdigit(name[0]) || name[0] == '.')
+    if (isdigit((unsigned char)name[0]) || name[0] == '.')
     {
         double grayVal = 0.0;
-        if (std::from_chars(name.data() + 1, name.data() + name.size(), grayVal, chars_format::fixed).ec != std::errc())
+        auto res = std::from_chars(name.data(), name.data() + name.size(), grayVal, chars_format::fixed);
+        if (res.ec != std::errc() || res.ptr != name.data() + name.size())
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NoNumber, "Could not read number");
 
         return PdfColor(grayVal);
@@ -780,7 +781,7 @@ PdfColor PdfColor::FromString(const string_view& name)
         pair<const PdfNamedColor*, const PdfNamedColor*> iterators =
             std::equal_range(&(s_NamedColors[0]),
                 s_NamedColors + s_NamedColorsCount,
-                PdfNamedColor(name.data(), PdfColor()), NamedColorComparatorPredicate());
+                PdfNamedColor(name, PdfColor()), NamedColorComparatorPredicate());
 
         if (iterators.first != iterators.second)
             return iterators.first->GetColor();
-- 
2.43.0


From 5b8c8643e2b09d23b85d33a0926f0ec9ed658b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:03 +0000
Subject: [PATCH 062/126] fix: convert transparent colors to and from empty
 arrays

---
 src/pdfmm/base/PdfColor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pdfmm/base/PdfColor.cpp b/src/pdfmm/base/PdfColor.cpp
index 4ce34f3..cfcde6e 100644
--- a/src/pdfmm/base/PdfColor.cpp
+++ b/src/pdfmm/base/PdfColor.cpp
@@ -665,6 +665,10 @@ PdfArray PdfColor::ToArray() const
         case PdfColorSpace::Indexed:
         case PdfColorSpace::Unknown:
         {
+            // A transparent color has no components
+            if (m_IsTransparent)
+                break;
+
             PDFMM_RAISE_ERROR(PdfErrorCode::CannotConvertColor);
             break;
         }
@@ -813,6 +817,7 @@ bool PdfColor::TryCreateFromArray(const PdfArray& arr, PdfColor& color)
     if (arr.GetSize() == 0) // Transparent
     {
         color = CreateTransparent();
+        return true;
     }
     else if (arr.GetSize() == 1) // grayscale
     {
-- 
2.43.0


From 16dab498ba08552c4022587a810e2b37ad67ddcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:03 +0000
Subject: [PATCH 063/126] fix: check the range of the density of separation
 colors

---
 src/pdfmm/base/PdfColor.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfColor.cpp b/src/pdfmm/base/PdfColor.cpp
index cfcde6e..bb92a7b 100644
--- a/src/pdfmm/base/PdfColor.cpp
+++ b/src/pdfmm/base/PdfColor.cpp
@@ -296,7 +296,8 @@ static const PdfNamedColor s_NamedColors[s_NamedColorsCount] =
 
 inline void CheckDoubleRange(double val, double min, double max)
 {
-    if ((val < min) || (val > max))
+    // NOTE: This rejects NaN as well
+    if (!(val >= min && val <= max))
         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 }
 
@@ -385,6 +386,8 @@ PdfColor PdfColor::CreateCieLab(double cieL, double cieA, double cieB)
 
 PdfColor PdfColor::CreateSeparation(const std::string_view& name, double density, const PdfColor& alternateColor)
 {
+    CheckDoubleRange(density, 0.0, 1.0);
+
     Color color{ };
     switch (alternateColor.GetColorSpace())
     {
-- 
2.43.0


From f85f666525cec26ff9aa801c6e2512fae91f146f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:33 +0000
Subject: [PATCH 064/126] fix: don't return undefined codes for prefixes of
 ligatures

---
 src/pdfmm/base/PdfCharCodeMap.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfCharCodeMap.cpp b/src/pdfmm/base/PdfCharCodeMap.cpp
index cd65fd5..ce722c6 100644
--- a/src/pdfmm/base/PdfCharCodeMap.cpp
+++ b/src/pdfmm/base/PdfCharCodeMap.cpp
@@ -128,8 +128,9 @@ bool PdfCharCodeMap::TryGetCharCode(codepoint codePoint, PdfCharCode& code) cons
 {
     const_cast<PdfCharCodeMap&>(*this).reviseCPMap();
     auto node = findNode(m_codePointMapHead, codePoint);
-    if (node == nullptr)
+    if (node == nullptr || node->CodeUnit.CodeSpaceSize == 0)
     {
+        // Not found, or just the start of ligatures
         code = { };
         return false;
     }
-- 
2.43.0


From f472ed3494c4819e2f4c8f4faa6ea00b78ba4c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:33 +0000
Subject: [PATCH 065/126] fix: order character codes by size as well

---
 src/pdfmm/base/PdfEncodingCommon.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfEncodingCommon.cpp b/src/pdfmm/base/PdfEncodingCommon.cpp
index c19a8d4..9bb944e 100644
--- a/src/pdfmm/base/PdfEncodingCommon.cpp
+++ b/src/pdfmm/base/PdfEncodingCommon.cpp
@@ -27,7 +27,11 @@ PdfCharCode::PdfCharCode(unsigned code, unsigned char codeSpaceSize)
 
 bool PdfCharCode::operator<(const PdfCharCode& rhs) const
 {
-    return Code < rhs.Code;
+    // Codes of different sizes are different codes, eg. <01> and <0001>
+    if (Code != rhs.Code)
+        return Code < rhs.Code;
+
+    return CodeSpaceSize < rhs.CodeSpaceSize;
 }
 
 bool PdfCharCode::operator==(const PdfCharCode& rhs) const
-- 
2.43.0


From 9cd18981a02d0f8c25e0d5e69868771232d8a473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:33 +0000
Subject: [PATCH 066/126] fix: determine character code sizes with integers

---
 src/pdfmm/private/PdfDeclarationsPrivate.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/private/PdfDeclarationsPrivate.cpp b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
index a39fbd1..34e78af 100644
--- a/src/pdfmm/private/PdfDeclarationsPrivate.cpp
+++ b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
@@ -1065,12 +1065,17 @@ string utls::GetWin32ErrorMessage(unsigned rc)
 
 unsigned char utls::GetCharCodeSize(unsigned code)
 {
-    return (unsigned char)(std::log(code) / std::log(256)) + 1;
+    unsigned char ret = 1;
+    while ((code >>= CHAR_BIT) != 0)
+        ret++;
+
+    return ret;
 }
 
 unsigned utls::GetCharCodeMaxValue(unsigned char codeSize)
 {
-    return (unsigned)(std::pow(2, codeSize * CHAR_BIT)) - 1;
+    // NOTE: Use 64 bits, as the size can be 4
+    return (unsigned)((UINT64_C(1) << codeSize * CHAR_BIT) - 1);
 }
 
 void utls::WriteUInt32BE(OutputStream& output, uint32_t value)
-- 
2.43.0


From c8241f8dbba96f6c0f529610f913403cd9a6069e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:33 +0000
Subject: [PATCH 067/126] fix: keep the limits of the map of created CMap
 encodings

---
 src/pdfmm/base/PdfCMapEncoding.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfCMapEncoding.cpp b/src/pdfmm/base/PdfCMapEncoding.cpp
index 11d39be..7d09645 100644
--- a/src/pdfmm/base/PdfCMapEncoding.cpp
+++ b/src/pdfmm/base/PdfCMapEncoding.cpp
@@ -39,7 +39,7 @@ static void pushMapping(PdfCharCodeMap& map, const PdfCharCode& codeUnit, const
 static PdfCharCodeMap parseCMapObject(const PdfObjectStream& stream, CodeLimits& limits);
 
 PdfCMapEncoding::PdfCMapEncoding(PdfCharCodeMap&& map)
-    : PdfCMapEncoding(std::move(map), map.GetLimits()) { }
+    : PdfCMapEncoding(std::move(map), PdfEncodingLimits(map.GetLimits())) { }
 
 PdfCMapEncoding::PdfCMapEncoding(PdfCharCodeMap&& map, const PdfEncodingLimits& limits)
     : PdfEncodingMapBase(std::move(map), PdfEncodingMapType::CMap), m_Limits(limits) { }
-- 
2.43.0


From f13ddbc934fa1fc8f8ce2b7c3a4904052ea7ddbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:33 +0000
Subject: [PATCH 068/126] fix: don't repeat the last code point of ligatures in
 ranges

---
 src/pdfmm/base/PdfCMapEncoding.cpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/pdfmm/base/PdfCMapEncoding.cpp b/src/pdfmm/base/PdfCMapEncoding.cpp
index 7d09645..d80e28e 100644
--- a/src/pdfmm/base/PdfCMapEncoding.cpp
+++ b/src/pdfmm/base/PdfCMapEncoding.cpp
@@ -296,20 +296,12 @@ void handleRangeMapping(PdfCharCodeMap& map,
     uint32_t srcCodeLo, const vector<char32_t>& dstCodeLo,
     unsigned char codeSize, unsigned rangeSize)
 {
-    auto it = dstCodeLo.begin();
-    auto end = dstCodeLo.end();
-    PDFMM_INVARIANT(it != end);
+    if (dstCodeLo.size() == 0)
+        return;
+
     char32_t back = dstCodeLo.back();
-    vector<char32_t> newdstbase;
     // Compute a destination string that has all code points except the last one
-    if (dstCodeLo.size() != 1)
-    {
-        do
-        {
-            newdstbase.push_back(*it);
-            it++;
-        } while (it != end);
-    }
+    vector<char32_t> newdstbase(dstCodeLo.begin(), dstCodeLo.end() - 1);
 
     // Compute new destination string with last chracter/code point incremented by one
     vector<char32_t> newdst;
-- 
2.43.0


From 84efb984f5a55e1ea855e86d5299cf74d084bf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:34 +0000
Subject: [PATCH 069/126] fix: reject invalid codes in CMaps

---
 src/pdfmm/base/PdfCMapEncoding.cpp | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/pdfmm/base/PdfCMapEncoding.cpp b/src/pdfmm/base/PdfCMapEncoding.cpp
index d80e28e..82cc70b 100644
--- a/src/pdfmm/base/PdfCMapEncoding.cpp
+++ b/src/pdfmm/base/PdfCMapEncoding.cpp
@@ -321,32 +321,25 @@ static uint32_t getCodeFromVariant(const PdfVariant& var, unsigned char& codeSiz
     if (var.IsNumber())
     {
         int64_t num = var.GetNumber();
-        uint32_t ret = (uint32_t)num;
-        if (num == 0)
-        {
-            codeSize = 1;
-        }
-        else
-        {
-            codeSize = 0;
-            do
-            {
-                codeSize++;
-                num >>= 8;
-            } while (num != 0);
-        }
+        if (num < 0 || num > numeric_limits<uint32_t>::max())
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidStream, "CMap code out of range");
 
+        uint32_t ret = (uint32_t)num;
+        codeSize = utls::GetCharCodeSize(ret);
         return ret;
     }
 
     const PdfString& str = var.GetString();
     uint32_t ret = 0;
     auto& rawstr = str.GetRawData();
+    if (rawstr.length() == 0 || rawstr.length() > 4)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidStream, "CMap code size must be [1,4]");
+
     unsigned len = (unsigned)rawstr.length();
     for (unsigned i = 0; i < len; i++)
     {
         uint8_t code = (uint8_t)rawstr[len - 1 - i];
-        ret += code << i * 8;
+        ret += (uint32_t)code << i * 8;
     }
 
     codeSize = len;
-- 
2.43.0


From 74c4500365ad174790fd992b356777f090ea9fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:34 +0000
Subject: [PATCH 070/126] fix: reject inverted and huge CMap ranges

---
 src/pdfmm/base/PdfCMapEncoding.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfCMapEncoding.cpp b/src/pdfmm/base/PdfCMapEncoding.cpp
index 82cc70b..c0c44d0 100644
--- a/src/pdfmm/base/PdfCMapEncoding.cpp
+++ b/src/pdfmm/base/PdfCMapEncoding.cpp
@@ -29,6 +29,7 @@ static void readNextVariantSequence(PdfPostScriptTokenizer& tokenizer, InputStre
     PdfVariant& variant, const string_view& endSequenceKeyword, bool& endOfSequence);
 static uint32_t getCodeFromVariant(const PdfVariant& var, CodeLimits& limits);
 static uint32_t getCodeFromVariant(const PdfVariant& var, CodeLimits& limits, unsigned char& codeSize);
+static unsigned getRangeSize(uint32_t srcCodeLo, uint32_t srcCodeHi);
 static vector<char32_t> handleNameMapping(const PdfName& name);
 static vector<char32_t> handleStringMapping(const PdfString& str);
 static void handleRangeMapping(PdfCharCodeMap& map,
@@ -149,7 +150,7 @@ PdfCharCodeMap parseCMapObject(const PdfObjectStream& stream, CodeLimits& limits
                         uint32_t srcCodeLo = getCodeFromVariant(*var, limits, codeSize);
                         tokenizer.ReadNextVariant(device, *var);
                         uint32_t srcCodeHi = getCodeFromVariant(*var, limits);
-                        unsigned rangeSize = srcCodeHi - srcCodeLo + 1;
+                        unsigned rangeSize = getRangeSize(srcCodeLo, srcCodeHi);
                         tokenizer.ReadNextVariant(device, *var);
                         if (var->IsArray())
                         {
@@ -231,7 +232,7 @@ PdfCharCodeMap parseCMapObject(const PdfObjectStream& stream, CodeLimits& limits
                         tokenizer.ReadNextVariant(device, *var);
                         char32_t dstCIDLo = (char32_t)getCodeFromVariant(*var, limits);
 
-                        unsigned rangeSize = srcCodeHi - srcCodeLo + 1;
+                        unsigned rangeSize = getRangeSize(srcCodeLo, srcCodeHi);
                         vector<char32_t> mappedCodes;
                         for (unsigned i = 0; i < rangeSize; i++)
                         {
@@ -346,6 +347,15 @@ static uint32_t getCodeFromVariant(const PdfVariant& var, unsigned char& codeSiz
     return ret;
 }
 
+unsigned getRangeSize(uint32_t srcCodeLo, uint32_t srcCodeHi)
+{
+    // A range can't be bigger than the number of the unicode code points
+    if (srcCodeHi < srcCodeLo || srcCodeHi - srcCodeLo >= 0x110000)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidStream, "Invalid CMap range");
+
+    return srcCodeHi - srcCodeLo + 1;
+}
+
 void pushMapping(PdfCharCodeMap& map, const PdfCharCode& codeUnit, const vector<char32_t>& codePoints)
 {
     if (codePoints.size() == 0)
-- 
2.43.0


From f349e3801dc5ceb4634cba664036704fa41950aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:34 +0000
Subject: [PATCH 071/126] fix: don't determine CMap code sizes from
 destinations

---
 src/pdfmm/base/PdfCMapEncoding.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfCMapEncoding.cpp b/src/pdfmm/base/PdfCMapEncoding.cpp
index c0c44d0..6bc444a 100644
--- a/src/pdfmm/base/PdfCMapEncoding.cpp
+++ b/src/pdfmm/base/PdfCMapEncoding.cpp
@@ -27,6 +27,7 @@ struct CodeLimits
 
 static void readNextVariantSequence(PdfPostScriptTokenizer& tokenizer, InputStreamDevice& device,
     PdfVariant& variant, const string_view& endSequenceKeyword, bool& endOfSequence);
+static uint32_t getCodeFromVariant(const PdfVariant& var, unsigned char& codeSize);
 static uint32_t getCodeFromVariant(const PdfVariant& var, CodeLimits& limits);
 static uint32_t getCodeFromVariant(const PdfVariant& var, CodeLimits& limits, unsigned char& codeSize);
 static unsigned getRangeSize(uint32_t srcCodeLo, uint32_t srcCodeHi);
@@ -197,7 +198,9 @@ PdfCharCodeMap parseCMapObject(const PdfObjectStream& stream, CodeLimits& limits
                         tokenizer.ReadNextVariant(device, *var);
                         if (var->IsNumber())
                         {
-                            char32_t dstCode = (char32_t)getCodeFromVariant(*var, limits);
+                            // NOTE: Destinations are not codes and don't contribute to the limits
+                            unsigned char dstSize;
+                            char32_t dstCode = (char32_t)getCodeFromVariant(*var, dstSize);
                             mappedCodes.clear();
                             mappedCodes.push_back(dstCode);
                         }
@@ -230,7 +233,8 @@ PdfCharCodeMap parseCMapObject(const PdfObjectStream& stream, CodeLimits& limits
                         tokenizer.ReadNextVariant(device, *var);
                         uint32_t srcCodeHi = getCodeFromVariant(*var, limits);
                         tokenizer.ReadNextVariant(device, *var);
-                        char32_t dstCIDLo = (char32_t)getCodeFromVariant(*var, limits);
+                        unsigned char dstSize;
+                        char32_t dstCIDLo = (char32_t)getCodeFromVariant(*var, dstSize);
 
                         unsigned rangeSize = getRangeSize(srcCodeLo, srcCodeHi);
                         vector<char32_t> mappedCodes;
@@ -256,7 +260,8 @@ PdfCharCodeMap parseCMapObject(const PdfObjectStream& stream, CodeLimits& limits
                         unsigned char codeSize;
                         uint32_t srcCode = getCodeFromVariant(*var, limits, codeSize);
                         tokenizer.ReadNextVariant(device, *var);
-                        char32_t dstCode = (char32_t)getCodeFromVariant(*var, limits);
+                        unsigned char dstSize;
+                        char32_t dstCode = (char32_t)getCodeFromVariant(*var, dstSize);
                         mappedCodes.clear();
                         mappedCodes.push_back(dstCode);
                         pushMapping(ret, { srcCode, codeSize }, mappedCodes);
-- 
2.43.0


From 9c645482784530271b4b4298b879e20887f7c709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:34 +0000
Subject: [PATCH 072/126] fix: read all mappings of begincidchar sections

---
 src/pdfmm/base/PdfCMapEncoding.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/pdfmm/base/PdfCMapEncoding.cpp b/src/pdfmm/base/PdfCMapEncoding.cpp
index 6bc444a..9edcd69 100644
--- a/src/pdfmm/base/PdfCMapEncoding.cpp
+++ b/src/pdfmm/base/PdfCMapEncoding.cpp
@@ -111,7 +111,6 @@ PdfCharCodeMap parseCMapObject(const PdfObjectStream& stream, CodeLimits& limits
 
     SpanStreamDevice device(streamBuffer);
     PdfPostScriptTokenizer tokenizer;
-    deque<unique_ptr<PdfVariant>> tokens;
     PdfString str;
     auto var = make_unique<PdfVariant>();
     PdfPostScriptTokenType tokenType;
@@ -249,14 +248,13 @@ PdfCharCodeMap parseCMapObject(const PdfObjectStream& stream, CodeLimits& limits
                 }
                 else if (token == "begincidchar")
                 {
-                    if (tokens.size() != 1)
-                        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidStream, "CMap missing object number before begincidchar");
-
-                    int charCount = (int)tokens.front()->GetNumber();
                     vector<char32_t> mappedCodes;
-                    for (int i = 0; i < charCount; i++)
+                    while (true)
                     {
-                        tokenizer.TryReadNext(device, tokenType, token, *var);
+                        readNextVariantSequence(tokenizer, device, *var, "endcidchar", endOfSequence);
+                        if (endOfSequence)
+                            break;
+
                         unsigned char codeSize;
                         uint32_t srcCode = getCodeFromVariant(*var, limits, codeSize);
                         tokenizer.ReadNextVariant(device, *var);
@@ -268,13 +266,11 @@ PdfCharCodeMap parseCMapObject(const PdfObjectStream& stream, CodeLimits& limits
                     }
                 }
 
-                tokens.clear();
                 break;
             }
             case PdfPostScriptTokenType::Variant:
             {
-                tokens.push_front(std::move(var));
-                var.reset(new PdfVariant());
+                // Operands of other operators
                 break;
             }
             default:
-- 
2.43.0


From 3f69ad6fdaafae39b2544157b5e36562ad6dae51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:34 +0000
Subject: [PATCH 073/126] fix: read only CMaps that map all codes as identity

---
 src/pdfmm/base/PdfCMapEncoding.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfCMapEncoding.cpp b/src/pdfmm/base/PdfCMapEncoding.cpp
index 9edcd69..062c636 100644
--- a/src/pdfmm/base/PdfCMapEncoding.cpp
+++ b/src/pdfmm/base/PdfCMapEncoding.cpp
@@ -59,8 +59,11 @@ unique_ptr<PdfEncodingMap> PdfCMapEncoding::CreateFromObject(const PdfObject& cm
     if (codeLimits.MaxCodeSize > mapLimits.MaxCodeSize)
         mapLimits.MaxCodeSize = codeLimits.MaxCodeSize;
 
+    // NOTE: The identity encoding maps all the codes of its size
     if (map.GetSize() != 0
-        && mapLimits.MinCodeSize == mapLimits.MaxCodeSize)
+        && mapLimits.MinCodeSize == mapLimits.MaxCodeSize
+        && mapLimits.FirstChar.Code == 0
+        && mapLimits.LastChar.Code == utls::GetCharCodeMaxValue(mapLimits.MaxCodeSize))
     {
         // Try to determine if the encoding is actually
         // an identity encoding
-- 
2.43.0


From 3662bc9d46db5ea50e45705bc7229ebe3829cf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:34 +0000
Subject: [PATCH 074/126] fix: don't exceed the code space in identity
 encodings

---
 src/pdfmm/base/PdfIdentityEncoding.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfIdentityEncoding.cpp b/src/pdfmm/base/PdfIdentityEncoding.cpp
index 491d3ff..8d3bf7b 100644
--- a/src/pdfmm/base/PdfIdentityEncoding.cpp
+++ b/src/pdfmm/base/PdfIdentityEncoding.cpp
@@ -112,5 +112,5 @@ PdfEncodingLimits getLimits(unsigned char codeSpaceSize)
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "Code space size can't be zero or bigger than 4");
 
     return { codeSpaceSize, codeSpaceSize, PdfCharCode(0, codeSpaceSize),
-        PdfCharCode((unsigned)std::pow(2, codeSpaceSize * CHAR_BIT), codeSpaceSize) };
+        PdfCharCode(utls::GetCharCodeMaxValue(codeSpaceSize), codeSpaceSize) };
 }
-- 
2.43.0


From 95d6e6cb88636ca9ae739a9f0b4090e464b6e569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:34 +0000
Subject: [PATCH 075/126] fix: write the last code of one byte encodings to
 CMaps

---
 src/pdfmm/base/PdfEncodingMap.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfEncodingMap.cpp b/src/pdfmm/base/PdfEncodingMap.cpp
index f707770..c502d75 100644
--- a/src/pdfmm/base/PdfEncodingMap.cpp
+++ b/src/pdfmm/base/PdfEncodingMap.cpp
@@ -419,7 +419,7 @@ void PdfEncodingMapOneByte::AppendToUnicodeEntries(OutputStream& stream, charbuf
     stream.Write(temp);
     stream.Write(" [\n");
     u16string u16tmp;
-    for (; code < lastCode; code++)
+    for (; code <= lastCode; code++)
     {
         if (!TryGetCodePoints(PdfCharCode(code), codePoints))
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidFontFile, "Unable to find character code");
@@ -446,7 +446,7 @@ void PdfEncodingMapOneByte::AppendCIDMappingEntries(OutputStream& stream, const
     };
 
     vector<Mapping> mappings;
-    for (; code < lastCode; code++)
+    for (; code <= lastCode; code++)
     {
         PdfCharCode charCode(code);
         if (!TryGetCodePoints(charCode, codePoints))
-- 
2.43.0


From a569c4265fea71adc0c98eb35ad8a7af7c7b87b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:34 +0000
Subject: [PATCH 076/126] fix: raise errors for invalid strings in CMaps

---
 src/pdfmm/base/PdfCMapEncoding.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfCMapEncoding.cpp b/src/pdfmm/base/PdfCMapEncoding.cpp
index 062c636..4130c6c 100644
--- a/src/pdfmm/base/PdfCMapEncoding.cpp
+++ b/src/pdfmm/base/PdfCMapEncoding.cpp
@@ -291,8 +291,19 @@ PdfCharCodeMap parseCMapObject(const PdfObjectStream& stream, CodeLimits& limits
 vector<char32_t> handleStringMapping(const PdfString& str)
 {
     auto& rawdata = str.GetRawData();
+    if (rawdata.size() % 2 != 0)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidStream, "Invalid UTF-16BE string in CMap");
+
     string utf8;
-    utls::ReadUtf16BEString(rawdata, utf8);
+    try
+    {
+        utls::ReadUtf16BEString(rawdata, utf8);
+    }
+    catch (const utf8::exception&)
+    {
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidStream, "Invalid UTF-16BE string in CMap");
+    }
+
     return handleUtf8String(utf8);
 }
 
-- 
2.43.0


From 85ae09d832635482cf66d27cfae2f228ac8237cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:50 +0000
Subject: [PATCH 077/126] fix: read glyph names of code points with more than 4
 digits

---
 src/pdfmm/base/PdfDifferenceEncoding.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfDifferenceEncoding.cpp b/src/pdfmm/base/PdfDifferenceEncoding.cpp
index 6533d83..220413f 100644
--- a/src/pdfmm/base/PdfDifferenceEncoding.cpp
+++ b/src/pdfmm/base/PdfDifferenceEncoding.cpp
@@ -2659,11 +2659,16 @@ char32_t PdfDifferenceEncoding::NameToCodePoint(const string_view& name)
     // so try looking for our special format..
     if (name.substr(0, 3) == "uni")
     {
+        // The code point has 4 to 6 hexadecimal digits. Names as "union" are undefined
         auto code = name.substr(3);
-        // force base16 IF it's 4 characters line
         unsigned val;
-        if (std::from_chars(code.data(), name.data() + name.length(), val, code.length() == 4 ? 16 : 10).ec != std::errc())
-            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NoNumber, "Could not read number");
+        auto end = name.data() + name.length();
+        if (code.length() < 4 || code.length() > 6)
+            return U'\0';
+
+        auto res = std::from_chars(code.data(), end, val, 16);
+        if (res.ec != std::errc() || res.ptr != end || val > 0x10FFFF)
+            return U'\0';
 
         return (char32_t)val;
     }
-- 
2.43.0


From c67430b975754420eb198004a1d18db3ac011dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:50 +0000
Subject: [PATCH 078/126] fix: ignore differences without a valid code

---
 src/pdfmm/base/PdfDifferenceEncoding.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfDifferenceEncoding.cpp b/src/pdfmm/base/PdfDifferenceEncoding.cpp
index 220413f..98fe687 100644
--- a/src/pdfmm/base/PdfDifferenceEncoding.cpp
+++ b/src/pdfmm/base/PdfDifferenceEncoding.cpp
@@ -2539,8 +2539,12 @@ unique_ptr<PdfDifferenceEncoding> PdfDifferenceEncoding::Create(
             }
             else if (diff.IsName())
             {
-                difference.AddDifference(static_cast<unsigned>(curCode), diff.GetName(), explicitNames);
-                curCode++;
+                // Ignore names that have no valid code
+                if (curCode >= 0 && curCode <= 0xFF)
+                {
+                    difference.AddDifference(static_cast<unsigned char>(curCode), diff.GetName(), explicitNames);
+                    curCode++;
+                }
             }
         }
     }
-- 
2.43.0


From ed8aab9c9e02d712add1b4d4239912bb7fb65fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:05 +0000
Subject: [PATCH 079/126] fix: don't advance past codes that have no CID

---
 src/pdfmm/base/PdfEncodingMap.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfEncodingMap.cpp b/src/pdfmm/base/PdfEncodingMap.cpp
index c502d75..e47d137 100644
--- a/src/pdfmm/base/PdfEncodingMap.cpp
+++ b/src/pdfmm/base/PdfEncodingMap.cpp
@@ -113,14 +113,17 @@ bool PdfEncodingMap::TryGetNextCID(string_view::iterator& it,
     if (GetType() == PdfEncodingMapType::CMap)
     {
         vector<char32_t> codePoints;
-        bool success = tryGetNextCodePoints(it, end, cid.Unit, codePoints);
+        string_view::iterator curr = it;
+        bool success = tryGetNextCodePoints(curr, end, cid.Unit, codePoints);
         if (!success || codePoints.size() != 1)
         {
-            // Return false on missing lookup or malformed multiple code points found
+            // Return false on missing lookup or malformed multiple code points found.
+            // The iterator is not advanced in this case
             cid = { };
             return false;
         }
 
+        it = curr;
         // char32_t is also unsigned
         cid.Id = (unsigned)codePoints[0];
         return true;
-- 
2.43.0


From 4830c623b58c128dec74a68b7db49c9877996e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:28 +0000
Subject: [PATCH 080/126] fix: take inherited resources from the nearest
 ancestor

---
 src/pdfmm/base/PdfPage.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfPage.cpp b/src/pdfmm/base/PdfPage.cpp
index 04bc157..bfced60 100644
--- a/src/pdfmm/base/PdfPage.cpp
+++ b/src/pdfmm/base/PdfPage.cpp
@@ -516,8 +516,9 @@ PdfResources* getResources(PdfObject& obj, const deque<PdfObject*>& listOfParent
     if (resources == nullptr)
     {
         // Resources might be inherited
-        for (auto& parent : listOfParents)
-            resources = parent->GetDictionary().FindKey("Resources");
+        // The last parent in the list is the nearest one
+        for (auto it = listOfParents.rbegin(); it != listOfParents.rend() && resources == nullptr; it++)
+            resources = (*it)->GetDictionary().FindKey("Resources");
     }
 
     if (resources == nullptr)
-- 
2.43.0


From 226dc6d146d0401be40df8244e144664ce8eda89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:28 +0000
Subject: [PATCH 081/126] fix: end the search for inherited keys in a loop of
 parents

---
 src/pdfmm/base/PdfDictionary.cpp | 33 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/pdfmm/base/PdfDictionary.cpp b/src/pdfmm/base/PdfDictionary.cpp
index 39fd840..e3e9a25 100644
--- a/src/pdfmm/base/PdfDictionary.cpp
+++ b/src/pdfmm/base/PdfDictionary.cpp
@@ -7,6 +7,8 @@
 #include <pdfmm/private/PdfDeclarationsPrivate.h>
 #include "PdfDictionary.h"
 
+#include <set>
+
 #include "PdfOutputDevice.h"
 
 using namespace std;
@@ -149,26 +151,23 @@ PdfObject* PdfDictionary::findKey(const string_view& key) const
 
 PdfObject* PdfDictionary::findKeyParent(const string_view& key) const
 {
-    PdfObject* obj = findKey(key);
-    if (obj == nullptr)
+    // NOTE: In a broken file the parents may be a loop
+    set<const PdfDictionary*> visited;
+    auto dict = this;
+    while (visited.insert(dict).second)
     {
-        PdfObject* parent = findKey("Parent");
-        if (parent == nullptr)
-        {
+        PdfObject* obj = dict->findKey(key);
+        if (obj != nullptr)
+            return obj;
+
+        PdfObject* parent = dict->findKey("Parent");
+        if (parent == nullptr || !parent->IsDictionary())
             return nullptr;
-        }
-        else
-        {
-            if (parent->IsDictionary())
-                return parent->GetDictionary().findKeyParent(key);
-            else
-                return nullptr;
-        }
-    }
-    else
-    {
-        return obj;
+
+        dict = &parent->GetDictionary();
     }
+
+    return nullptr;
 }
 
 bool PdfDictionary::HasKey(const string_view& key) const
-- 
2.43.0


From e6aaa9aa90cb0208eee4a9305ba33e4811309cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:28 +0000
Subject: [PATCH 082/126] fix: ignore rotations that are not numbers

---
 src/pdfmm/base/PdfPage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfPage.cpp b/src/pdfmm/base/PdfPage.cpp
index bfced60..8ae2409 100644
--- a/src/pdfmm/base/PdfPage.cpp
+++ b/src/pdfmm/base/PdfPage.cpp
@@ -196,7 +196,7 @@ int PdfPage::GetRotationRaw() const
     int rot = 0;
 
     auto obj = GetDictionary().FindKeyParent("Rotate");
-    if (obj != nullptr && (obj->IsNumber() || obj->GetReal()))
+    if (obj != nullptr && obj->IsNumberOrReal())
         rot = static_cast<int>(obj->GetNumber());
 
     return rot;
-- 
2.43.0


From e69d9500d0a539d99dfcda12ab7913924d3fa690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:28 +0000
Subject: [PATCH 083/126] fix: don't change inherited boxes in
 SetPageWidth/SetPageHeight

---
 src/pdfmm/base/PdfPage.cpp | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/pdfmm/base/PdfPage.cpp b/src/pdfmm/base/PdfPage.cpp
index 8ae2409..510f865 100644
--- a/src/pdfmm/base/PdfPage.cpp
+++ b/src/pdfmm/base/PdfPage.cpp
@@ -248,25 +248,26 @@ bool PdfPage::SetPageWidth(int newWidth)
     // assign the value of the box from the array
     if (mediaBoxObj != nullptr && mediaBoxObj->IsArray())
     {
-        auto& mediaBoxArr = mediaBoxObj->GetArray();
-
-        // in PdfRect::FromArray(), the Left value is subtracted from Width
-        double dLeftMediaBox = mediaBoxArr[0].GetReal();
-        mediaBoxArr[2] = PdfObject(newWidth + dLeftMediaBox);
+        // NOTE: The box may be inherited, don't change the one of the ancestor
+        PdfRect mediaBox(mediaBoxObj->GetArray());
+        mediaBox.SetWidth(newWidth);
 
         // Take advantage of inherited values - walking up the tree if necessary
         auto cropBoxObj = GetDictionary().FindKeyParent("CropBox");
 
         if (cropBoxObj != nullptr && cropBoxObj->IsArray())
         {
-            auto& cropBoxArr = cropBoxObj->GetArray();
-            // in PdfRect::FromArray(), the Left value is subtracted from Width
-            double dLeftCropBox = cropBoxArr[0].GetReal();
-            cropBoxArr[2] = PdfObject(newWidth + dLeftCropBox);
+            PdfRect cropBox(cropBoxObj->GetArray());
+            cropBox.SetWidth(newWidth);
+            PdfArray cropBoxArr;
+            cropBox.ToArray(cropBoxArr);
+            SetMediaBox(mediaBox);
+            GetDictionary().AddKey("CropBox", cropBoxArr);
             return true;
         }
         else
         {
+            SetMediaBox(mediaBox);
             return false;
         }
     }
@@ -284,24 +285,26 @@ bool PdfPage::SetPageHeight(int newHeight)
     // assign the value of the box from the array
     if (obj != nullptr && obj->IsArray())
     {
-        auto& mediaBoxArr = obj->GetArray();
-        // in PdfRect::FromArray(), the Bottom value is subtracted from Height
-        double bottom = mediaBoxArr[1].GetReal();
-        mediaBoxArr[3] = PdfObject(newHeight + bottom);
+        // NOTE: The box may be inherited, don't change the one of the ancestor
+        PdfRect mediaBox(obj->GetArray());
+        mediaBox.SetHeight(newHeight);
 
         // Take advantage of inherited values - walking up the tree if necessary
         auto cropBoxObj = GetDictionary().FindKeyParent("CropBox");
 
         if (cropBoxObj != nullptr && cropBoxObj->IsArray())
         {
-            auto& cropBoxArr = cropBoxObj->GetArray();
-            // in PdfRect::FromArray(), the Bottom value is subtracted from Height
-            double dBottomCropBox = cropBoxArr[1].GetReal();
-            cropBoxArr[3] = PdfObject(newHeight + dBottomCropBox);
+            PdfRect cropBox(cropBoxObj->GetArray());
+            cropBox.SetHeight(newHeight);
+            PdfArray cropBoxArr;
+            cropBox.ToArray(cropBoxArr);
+            SetMediaBox(mediaBox);
+            GetDictionary().AddKey("CropBox", cropBoxArr);
             return true;
         }
         else
         {
+            SetMediaBox(mediaBox);
             return false;
         }
     }
-- 
2.43.0


From 3fb4c113c7b82c24316a35e2c28a773c96d009cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:28 +0000
Subject: [PATCH 084/126] fix: keep other color spaces when setting an ICC
 profile

---
 src/pdfmm/base/PdfPage.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfPage.cpp b/src/pdfmm/base/PdfPage.cpp
index 510f865..82e9365 100644
--- a/src/pdfmm/base/PdfPage.cpp
+++ b/src/pdfmm/base/PdfPage.cpp
@@ -409,11 +409,8 @@ void PdfPage::SetICCProfile(const string_view& csTag, InputStream& stream,
     array.Add(PdfName("ICCBased"));
     array.Add(iccObject.GetIndirectReference());
 
-    PdfDictionary iccBasedDictionary;
-    iccBasedDictionary.AddKey(csTag, array);
-
     // Add the colorspace to resource
-    GetOrCreateResources().GetDictionary().AddKey("ColorSpace", iccBasedDictionary);
+    GetOrCreateResources().AddResource("ColorSpace", csTag, PdfObject(array));
 }
 
 PdfContents& PdfPage::GetOrCreateContents()
-- 
2.43.0


From 02b438c485f9f25312bbb3ec683623f3f053a653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:28 +0000
Subject: [PATCH 085/126] fix: separate the streams of a contents array

---
 src/pdfmm/base/PdfContents.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pdfmm/base/PdfContents.cpp b/src/pdfmm/base/PdfContents.cpp
index e8565a0..607a8a2 100644
--- a/src/pdfmm/base/PdfContents.cpp
+++ b/src/pdfmm/base/PdfContents.cpp
@@ -137,7 +137,13 @@ void PdfContents::copyTo(OutputStream& stream, const PdfArray& arr) const
         const PdfObjectStream* objStream;
         auto streamObj = arr.FindAt(i);
         if (streamObj != nullptr && (objStream = streamObj->GetStream()) != nullptr)
+        {
             objStream->CopyTo(stream);
+
+            // The division between streams separates tokens
+            if (i + 1 != arr.GetSize())
+                stream.Write('\n');
+        }
     }
 }
 
-- 
2.43.0


From bc8522d8fc644dec61af455a06c164f6a9ec0380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:28 +0000
Subject: [PATCH 086/126] fix: keep inherited resources and separate streams in
 forms made from pages

---
 src/pdfmm/base/PdfDocument.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfDocument.cpp b/src/pdfmm/base/PdfDocument.cpp
index 42de24a..18c0121 100644
--- a/src/pdfmm/base/PdfDocument.cpp
+++ b/src/pdfmm/base/PdfDocument.cpp
@@ -370,8 +370,9 @@ PdfRect PdfDocument::FillXObjectFromPage(PdfXObjectForm& xobj, const PdfPage& pa
         box.Intersect(page.GetTrimBox());
 
     // link resources from external doc to x-object
-    if (pageObj.IsDictionary() && pageObj.GetDictionary().HasKey("Resources"))
-        xobj.GetObject().GetDictionary().AddKey("Resources", *pageObj.GetDictionary().GetKey("Resources"));
+    const PdfObject* resources;
+    if (pageObj.IsDictionary() && (resources = pageObj.GetDictionary().FindKeyParent("Resources")) != nullptr)
+        xobj.GetObject().GetDictionary().AddKeyIndirectSafe("Resources", *resources);
 
     // copy top-level content from external doc to x-object
     if (pageObj.IsDictionary() && pageObj.GetDictionary().HasKey("Contents"))
@@ -406,6 +407,8 @@ PdfRect PdfDocument::FillXObjectFromPage(PdfXObjectForm& xobj, const PdfPage& pa
                             charbuff contStreamBuffer;
                             contStream.CopyTo(contStreamBuffer);
                             output.Write(contStreamBuffer);
+                            // The division between streams separates tokens
+                            output.Write("\n");
                             break;
                         }
                         else
-- 
2.43.0


From 2eb7602f109bd72851b9264c1d9030061e889b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:28 +0000
Subject: [PATCH 087/126] fix: don't add the Lab color space again

---
 src/pdfmm/base/PdfResources.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfResources.cpp b/src/pdfmm/base/PdfResources.cpp
index ba6051f..693dce5 100644
--- a/src/pdfmm/base/PdfResources.cpp
+++ b/src/pdfmm/base/PdfResources.cpp
@@ -102,7 +102,7 @@ void PdfResources::AddColorResource(const PdfColor& color)
         case PdfColorSpace::Lab:
         {
             if (!GetDictionary().HasKey("ColorSpace")
-                || !GetDictionary().MustFindKey("ColorSpace").GetDictionary().HasKey("ColorSpaceLab"))
+                || !GetDictionary().MustFindKey("ColorSpace").GetDictionary().HasKey("ColorSpaceCieLab"))
             {
                 // Build color-spaces for CIE-lab
                 auto csp = color.BuildColorSpace(GetDocument());
-- 
2.43.0


From 225f9eaacfa776ed86c5ca0e6f33b51ce54a07e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:24 +0000
Subject: [PATCH 088/126] fix: read rotations given as real numbers

---
 src/pdfmm/base/PdfPage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfPage.cpp b/src/pdfmm/base/PdfPage.cpp
index 82e9365..d6edfe3 100644
--- a/src/pdfmm/base/PdfPage.cpp
+++ b/src/pdfmm/base/PdfPage.cpp
@@ -197,7 +197,7 @@ int PdfPage::GetRotationRaw() const
 
     auto obj = GetDictionary().FindKeyParent("Rotate");
     if (obj != nullptr && obj->IsNumberOrReal())
-        rot = static_cast<int>(obj->GetNumber());
+        rot = static_cast<int>(obj->GetNumberLenient());
 
     return rot;
 }
-- 
2.43.0


From 578cbb6f9bc9083b77d606fed0b466bfc68e9dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:04 +0000
Subject: [PATCH 089/126] fix: don't raise on annotations of unknown type

---
 src/pdfmm/base/PdfAnnotation.cpp             | 9 +++++++--
 src/pdfmm/private/PdfDeclarationsPrivate.cpp | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfAnnotation.cpp b/src/pdfmm/base/PdfAnnotation.cpp
index 6ca8597..48302a6 100644
--- a/src/pdfmm/base/PdfAnnotation.cpp
+++ b/src/pdfmm/base/PdfAnnotation.cpp
@@ -506,7 +506,8 @@ bool PdfAnnotation::tryCreateFromObject(const PdfObject& obj, PdfAnnotationType
             xobj = new PdfAnnotationProjection(const_cast<PdfObject&>(obj));
             return true;
         default:
-            PDFMM_RAISE_ERROR(PdfErrorCode::InvalidEnumValue);
+            xobj = nullptr;
+            return false;
     }
 }
 
@@ -577,7 +578,11 @@ PdfAnnotationType PdfAnnotation::getAnnotationType(const type_info& typeInfo)
 PdfAnnotationType PdfAnnotation::getAnnotationType(const PdfObject& obj)
 {
     const PdfName* name;
-    auto subTypeObj = obj.GetDictionary().FindKey(PdfName::KeySubtype);
+    const PdfDictionary* dict;
+    if (!obj.TryGetDictionary(dict))
+        return PdfAnnotationType::Unknown;
+
+    auto subTypeObj = dict->FindKey(PdfName::KeySubtype);
     if (subTypeObj == nullptr || !subTypeObj->TryGetName(name))
         return PdfAnnotationType::Unknown;
 
diff --git a/src/pdfmm/private/PdfDeclarationsPrivate.cpp b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
index 34e78af..ca301ff 100644
--- a/src/pdfmm/private/PdfDeclarationsPrivate.cpp
+++ b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
@@ -292,7 +292,7 @@ PdfAnnotationType mm::NameToAnnotationType(const string_view& str)
     else if (str == "Projection"sv)
         return PdfAnnotationType::Projection;
     else
-        PDFMM_RAISE_ERROR(PdfErrorCode::InternalLogic);
+        return PdfAnnotationType::Unknown;
 }
 
 PdfColorSpace mm::NameToColorSpaceRaw(const string_view& name)
-- 
2.43.0


From c49233da0e5276503efb1c402cd64a7e502ee0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:04 +0000
Subject: [PATCH 090/126] fix: iterate the annotations of loaded pages

---
 src/pdfmm/base/PdfAnnotationCollection.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pdfmm/base/PdfAnnotationCollection.cpp b/src/pdfmm/base/PdfAnnotationCollection.cpp
index af15e10..26145dd 100644
--- a/src/pdfmm/base/PdfAnnotationCollection.cpp
+++ b/src/pdfmm/base/PdfAnnotationCollection.cpp
@@ -86,21 +86,25 @@ unsigned PdfAnnotationCollection::GetCount() const
 
 PdfAnnotationCollection::iterator PdfAnnotationCollection::begin()
 {
+    initAnnotations();
     return m_Annots.begin();
 }
 
 PdfAnnotationCollection::iterator PdfAnnotationCollection::end()
 {
+    initAnnotations();
     return m_Annots.end();
 }
 
 PdfAnnotationCollection::const_iterator PdfAnnotationCollection::begin() const
 {
+    const_cast<PdfAnnotationCollection&>(*this).initAnnotations();
     return m_Annots.begin();
 }
 
 PdfAnnotationCollection::const_iterator PdfAnnotationCollection::end() const
 {
+    const_cast<PdfAnnotationCollection&>(*this).initAnnotations();
     return m_Annots.end();
 }
 
-- 
2.43.0


From a745d516e63749a2317d0abf5fea75284366765c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:04 +0000
Subject: [PATCH 091/126] fix: handle direct and invalid annotations of a page

---
 src/pdfmm/base/PdfAnnotationCollection.cpp | 30 ++++++++++++++++------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/pdfmm/base/PdfAnnotationCollection.cpp b/src/pdfmm/base/PdfAnnotationCollection.cpp
index 26145dd..3f706c5 100644
--- a/src/pdfmm/base/PdfAnnotationCollection.cpp
+++ b/src/pdfmm/base/PdfAnnotationCollection.cpp
@@ -47,10 +47,14 @@ void PdfAnnotationCollection::RemoveAnnotAt(unsigned index)
     if (index >= m_Annots.size())
         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 
-    if (m_Annots[index] != nullptr)
+    // The annotation may be missing in the map, if it's not an indirect object
+    for (auto it = m_annotMap->begin(); it != m_annotMap->end(); it++)
     {
-        // It may be null if the annotation is invalid
-        m_annotMap->erase(m_annotMap->find(m_Annots[index]->GetObject().GetIndirectReference()));
+        if (it->second == index)
+        {
+            m_annotMap->erase(it);
+            break;
+        }
     }
 
     m_annotArray->RemoveAt(index);
@@ -129,10 +133,11 @@ PdfAnnotation& PdfAnnotationCollection::addAnnotation(unique_ptr<PdfAnnotation>&
 PdfArray* PdfAnnotationCollection::getAnnotationsArray() const
 {
     auto obj = const_cast<PdfAnnotationCollection&>(*this).m_Page->GetDictionary().FindKey("Annots");
-    if (obj == nullptr)
+    PdfArray* arr;
+    if (obj == nullptr || !obj->TryGetArray(arr))
         return nullptr;
 
-    return &obj->GetArray();
+    return arr;
 }
 
 PdfAnnotation& PdfAnnotationCollection::getAnnotAt(unsigned index) const
@@ -141,13 +146,20 @@ PdfAnnotation& PdfAnnotationCollection::getAnnotAt(unsigned index) const
     if (index >= m_Annots.size())
         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 
+    if (m_Annots[index] == nullptr)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDataType, "The annotation is invalid");
+
     return *m_Annots[index];
 }
 
 PdfAnnotation& PdfAnnotationCollection::getAnnot(const PdfReference& ref) const
 {
     const_cast<PdfAnnotationCollection&>(*this).initAnnotations();
-    return *m_Annots[(*m_annotMap).at(ref)];
+    auto found = m_annotMap->find(ref);
+    if (found == m_annotMap->end())
+        PDFMM_RAISE_ERROR(PdfErrorCode::NoObject);
+
+    return getAnnotAt(found->second);
 }
 
 void PdfAnnotationCollection::initAnnotations()
@@ -165,9 +177,11 @@ void PdfAnnotationCollection::initAnnotations()
     unsigned i = 0;
     for (auto obj : m_annotArray->GetIndirectIterator())
     {
-        (*m_annotMap)[obj->GetIndirectReference()] = i;
+        if (obj != nullptr && obj->IsIndirect())
+            (*m_annotMap)[obj->GetIndirectReference()] = i;
+
         // The annotation may be invalid. In that case we push a placeholder
-        if (PdfAnnotation::TryCreateFromObject(*obj, annot))
+        if (obj != nullptr && PdfAnnotation::TryCreateFromObject(*obj, annot))
         {
             annot->SetPage(*m_Page);
             m_Annots.push_back(std::move(annot));
-- 
2.43.0


From c1c7a3161764c2a2b153c22d5916ec023456f8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:04 +0000
Subject: [PATCH 092/126] fix: don't mix appearances with and without state

---
 src/pdfmm/base/PdfAnnotation.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfAnnotation.cpp b/src/pdfmm/base/PdfAnnotation.cpp
index 48302a6..dbbd57c 100644
--- a/src/pdfmm/base/PdfAnnotation.cpp
+++ b/src/pdfmm/base/PdfAnnotation.cpp
@@ -86,7 +86,7 @@ void mm::SetAppearanceStreamForObject(PdfObject& obj, PdfXObjectForm& xobj,
     {
         // when the state is defined, then the appearance is expected to be a dictionary
         auto apInnerObj = apObj->GetDictionary().FindKey(name);
-        if (apInnerObj == nullptr || !apInnerObj->IsDictionary())
+        if (apInnerObj == nullptr || !apInnerObj->IsDictionary() || apInnerObj->HasStream())
             apInnerObj = &apObj->GetDictionary().AddKey(name, PdfDictionary());
 
         apInnerObj->GetDictionary().AddKeyIndirectSafe(state, xobj.GetObject());
@@ -213,7 +213,11 @@ void PdfAnnotation::GetAppearanceStreams(vector<PdfAppearanceIdentity>& streams)
             continue;
 
         PdfDictionary* apStateDict;
-        if ( pair1.second->HasStream())
+        if (pair1.second == nullptr)
+        {
+            continue;
+        }
+        else if (pair1.second->HasStream())
         {
             streams.push_back({ pair1.second, apType, PdfName() });
         }
@@ -221,7 +225,7 @@ void PdfAnnotation::GetAppearanceStreams(vector<PdfAppearanceIdentity>& streams)
         {
             for (auto& pair2 : apStateDict->GetIndirectIterator())
             {
-                if (pair2.second->HasStream())
+                if (pair2.second != nullptr && pair2.second->HasStream())
                     streams.push_back({ pair2.second, apType, pair2.first });
             }
         }
@@ -262,7 +266,11 @@ PdfObject* PdfAnnotation::getAppearanceStream(PdfAppearanceType appearance, cons
     if (state.IsNull())
         return apObjInn;
 
-    return apObjInn->GetDictionary().FindKey(state);
+    PdfDictionary* apStateDict;
+    if (apObjInn->HasStream() || !apObjInn->TryGetDictionary(apStateDict))
+        return nullptr;
+
+    return apStateDict->FindKey(state);
 }
 
 PdfDictionary* PdfAnnotation::getAppearanceDictionary() const
-- 
2.43.0


From 2ee49141dd227649f8153acf082f58c837a2db7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:04 +0000
Subject: [PATCH 093/126] fix: resolve the reference to the open flag of
 annotations

---
 src/pdfmm/base/PdfAnnotation_Types.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfAnnotation_Types.cpp b/src/pdfmm/base/PdfAnnotation_Types.cpp
index 5cc5ae0..be400e1 100644
--- a/src/pdfmm/base/PdfAnnotation_Types.cpp
+++ b/src/pdfmm/base/PdfAnnotation_Types.cpp
@@ -73,7 +73,7 @@ void PdfAnnotationPopup::SetOpen(const nullable<bool>& value)
 
 bool PdfAnnotationPopup::GetOpen() const
 {
-    return GetDictionary().GetKeyAs<bool>("Open", false);
+    return GetDictionary().FindKeyAs<bool>("Open", false);
 }
 
 void PdfAnnotationText::SetOpen(const nullable<bool>& value)
@@ -86,7 +86,7 @@ void PdfAnnotationText::SetOpen(const nullable<bool>& value)
 
 bool PdfAnnotationText::GetOpen() const
 {
-    return GetDictionary().GetKeyAs<bool>("Open", false);
+    return GetDictionary().FindKeyAs<bool>("Open", false);
 }
 
 PdfAnnotationTextMarkupBase::PdfAnnotationTextMarkupBase(PdfPage& page, PdfAnnotationType annotType, const PdfRect& rect)
-- 
2.43.0


From 742d8d6ee21435b0512a22df87d45d4f5a4f08d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:59 +0000
Subject: [PATCH 094/126] fix: make the annotation iterators usable

---
 src/pdfmm/base/PdfAnnotationCollection.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfAnnotationCollection.h b/src/pdfmm/base/PdfAnnotationCollection.h
index 11d32f5..25566da 100644
--- a/src/pdfmm/base/PdfAnnotationCollection.h
+++ b/src/pdfmm/base/PdfAnnotationCollection.h
@@ -77,11 +77,11 @@ namespace mm
             }
             value_type operator*()
             {
-                return m_iterator.get();
+                return m_iterator->get();
             }
             value_type operator->()
             {
-                return m_iterator.get();
+                return m_iterator->get();
             }
         private:
             TListIterator m_iterator;
-- 
2.43.0


From 7097261606d3343d4a71333dcffee3d0680c7e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:04 +0000
Subject: [PATCH 095/126] fix: don't refer to annotations inside the array of
 the page

---
 src/pdfmm/base/PdfAnnotationCollection.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pdfmm/base/PdfAnnotationCollection.cpp b/src/pdfmm/base/PdfAnnotationCollection.cpp
index 3f706c5..547e940 100644
--- a/src/pdfmm/base/PdfAnnotationCollection.cpp
+++ b/src/pdfmm/base/PdfAnnotationCollection.cpp
@@ -6,6 +6,7 @@
 
 #include <pdfmm/private/PdfDeclarationsPrivate.h>
 #include "PdfAnnotationCollection.h"
+#include "PdfDocument.h"
 #include "PdfPage.h"
 
 using namespace std;
@@ -172,6 +173,14 @@ void PdfAnnotationCollection::initAnnotations()
     if (m_annotArray == nullptr)
         return;
 
+    // Annotations refer to their object, which must not move when the
+    // array changes: annotations that are no indirect objects become so
+    for (auto& obj : *m_annotArray)
+    {
+        if (obj.IsDictionary())
+            obj = PdfObject(m_Page->GetDocument().GetObjects().CreateObject(obj).GetIndirectReference());
+    }
+
     m_Annots.reserve(m_annotArray->size());
     unique_ptr<PdfAnnotation> annot;
     unsigned i = 0;
-- 
2.43.0


From 771baeeac5cea10223c074d2991d10463144a333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:09 +0000
Subject: [PATCH 096/126] fix: return the maximum length of text fields

---
 src/pdfmm/base/PdfTextBox.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfTextBox.cpp b/src/pdfmm/base/PdfTextBox.cpp
index 6f3ceb2..7ffa038 100644
--- a/src/pdfmm/base/PdfTextBox.cpp
+++ b/src/pdfmm/base/PdfTextBox.cpp
@@ -76,7 +76,7 @@ int64_t PdfTextBox::GetMaxLen() const
 {
     int64_t ret;
     auto found = GetDictionary().FindKeyParent("MaxLen");
-    if (found == nullptr || found->TryGetNumber(ret))
+    if (found == nullptr || !found->TryGetNumber(ret))
         return -1;
 
     return ret;
-- 
2.43.0


From 1fdc8dfc7a285060087ea5d83decd624cfc462f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:09 +0000
Subject: [PATCH 097/126] fix: don't invert the spellchecking and scroll flags
 of fields

---
 src/pdfmm/base/PdfChoiceField.cpp | 2 +-
 src/pdfmm/base/PdfTextBox.cpp     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfChoiceField.cpp b/src/pdfmm/base/PdfChoiceField.cpp
index 12188c0..ee20d12 100644
--- a/src/pdfmm/base/PdfChoiceField.cpp
+++ b/src/pdfmm/base/PdfChoiceField.cpp
@@ -184,7 +184,7 @@ void PdChoiceField::SetSpellcheckingEnabled(bool spellCheck)
 
 bool PdChoiceField::IsSpellcheckingEnabled() const
 {
-    return this->GetFieldFlag(static_cast<int>(ePdfListField_NoSpellcheck), true);
+    return !this->GetFieldFlag(static_cast<int>(ePdfListField_NoSpellcheck), false);
 }
 
 void PdChoiceField::SetSorted(bool sorted)
diff --git a/src/pdfmm/base/PdfTextBox.cpp b/src/pdfmm/base/PdfTextBox.cpp
index 7ffa038..7ac10ba 100644
--- a/src/pdfmm/base/PdfTextBox.cpp
+++ b/src/pdfmm/base/PdfTextBox.cpp
@@ -119,7 +119,7 @@ void PdfTextBox::SetSpellcheckingEnabled(bool spellcheck)
 
 bool PdfTextBox::IsSpellcheckingEnabled() const
 {
-    return this->GetFieldFlag(static_cast<int>(PdfTextBox_NoSpellcheck), true);
+    return !this->GetFieldFlag(static_cast<int>(PdfTextBox_NoSpellcheck), false);
 }
 
 void PdfTextBox::SetScrollBarsEnabled(bool scroll)
@@ -129,7 +129,7 @@ void PdfTextBox::SetScrollBarsEnabled(bool scroll)
 
 bool PdfTextBox::IsScrollBarsEnabled() const
 {
-    return this->GetFieldFlag(static_cast<int>(PdfTextBox_NoScroll), true);
+    return !this->GetFieldFlag(static_cast<int>(PdfTextBox_NoScroll), false);
 }
 
 void PdfTextBox::SetCombs(bool combs)
-- 
2.43.0


From 0b001ba03d1fdf2fddb45a88c51d945815b79a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:09 +0000
Subject: [PATCH 098/126] fix: write the focus leave action as /Bl

---
 src/pdfmm/base/PdfField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfField.cpp b/src/pdfmm/base/PdfField.cpp
index 428a2d1..10c3dd5 100644
--- a/src/pdfmm/base/PdfField.cpp
+++ b/src/pdfmm/base/PdfField.cpp
@@ -769,7 +769,7 @@ void PdfField::SetFocusEnterAction(const PdfAction& action)
 
 void PdfField::SetFocusLeaveAction(const PdfAction& action)
 {
-    this->addAlternativeAction("BI", action);
+    this->addAlternativeAction("Bl", action);
 }
 
 void PdfField::SetPageOpenAction(const PdfAction& action)
-- 
2.43.0


From 73905a38062f38de8e51bdbebbf558781e68f1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:09 +0000
Subject: [PATCH 099/126] fix: make fields know themselves as parents of their
 children

---
 src/pdfmm/base/PdfField.cpp | 7 +------
 src/pdfmm/base/PdfField.h   | 2 +-
 2 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/pdfmm/base/PdfField.cpp b/src/pdfmm/base/PdfField.cpp
index 10c3dd5..c2ba7fa 100644
--- a/src/pdfmm/base/PdfField.cpp
+++ b/src/pdfmm/base/PdfField.cpp
@@ -349,12 +349,7 @@ PdfFieldType PdfField::getFieldType(const type_info& typeInfo)
 
 shared_ptr<PdfField> PdfField::GetPtr()
 {
-    if (m_AcroForm != nullptr)
-        return m_AcroForm->GetFieldPtr(GetObject().GetIndirectReference());
-    else if (m_Widget != nullptr)
-        return m_Widget->GetFieldPtr();
-    else
-        return nullptr;
+    return weak_from_this().lock();
 }
 
 PdfField* PdfField::getParentTyped(PdfFieldType type) const
diff --git a/src/pdfmm/base/PdfField.h b/src/pdfmm/base/PdfField.h
index 8ef8781..a0d96f1 100644
--- a/src/pdfmm/base/PdfField.h
+++ b/src/pdfmm/base/PdfField.h
@@ -22,7 +22,7 @@ class PdfPage;
 class PdfAcroForm;
 class PdfAnnotationWidget;
 
-class PDFMM_API PdfField : public PdfDictionaryElement
+class PDFMM_API PdfField : public PdfDictionaryElement, public std::enable_shared_from_this<PdfField>
 {
     friend class PdfSignature;
     friend class PdfButton;
-- 
2.43.0


From 45e0b763992dec3097dfff4af4196e28ec39ff21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:09 +0000
Subject: [PATCH 100/126] fix: iterate the fields of loaded forms and the
 children of fields

---
 src/pdfmm/base/PdfAcroForm.cpp                | 4 ++++
 src/pdfmm/base/PdfFieldChildrenCollection.cpp | 4 ++++
 src/pdfmm/base/PdfFieldChildrenCollection.h   | 4 ++--
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfAcroForm.cpp b/src/pdfmm/base/PdfAcroForm.cpp
index ddf5fd1..46d884b 100644
--- a/src/pdfmm/base/PdfAcroForm.cpp
+++ b/src/pdfmm/base/PdfAcroForm.cpp
@@ -150,21 +150,25 @@ unsigned PdfAcroForm::GetFieldCount() const
 
 PdfAcroForm::iterator PdfAcroForm::begin()
 {
+    initFields();
     return iterator(m_Fields.begin());
 }
 
 PdfAcroForm::iterator PdfAcroForm::end()
 {
+    initFields();
     return iterator(m_Fields.end());
 }
 
 PdfAcroForm::const_iterator PdfAcroForm::begin() const
 {
+    const_cast<PdfAcroForm&>(*this).initFields();
     return const_iterator(m_Fields.begin());
 }
 
 PdfAcroForm::const_iterator PdfAcroForm::end() const
 {
+    const_cast<PdfAcroForm&>(*this).initFields();
     return const_iterator(m_Fields.end());
 }
 
diff --git a/src/pdfmm/base/PdfFieldChildrenCollection.cpp b/src/pdfmm/base/PdfFieldChildrenCollection.cpp
index 76e05e8..bf760e2 100644
--- a/src/pdfmm/base/PdfFieldChildrenCollection.cpp
+++ b/src/pdfmm/base/PdfFieldChildrenCollection.cpp
@@ -99,21 +99,25 @@ bool PdfFieldChildrenCollectionBase::HasKidsArray() const
 
 PdfFieldChildrenCollectionBase::iterator PdfFieldChildrenCollectionBase::begin()
 {
+    initFields();
     return m_Fields.begin();
 }
 
 PdfFieldChildrenCollectionBase::iterator PdfFieldChildrenCollectionBase::end()
 {
+    initFields();
     return m_Fields.end();
 }
 
 PdfFieldChildrenCollectionBase::const_iterator PdfFieldChildrenCollectionBase::begin() const
 {
+    const_cast<PdfFieldChildrenCollectionBase&>(*this).initFields();
     return m_Fields.begin();
 }
 
 PdfFieldChildrenCollectionBase::const_iterator PdfFieldChildrenCollectionBase::end() const
 {
+    const_cast<PdfFieldChildrenCollectionBase&>(*this).initFields();
     return m_Fields.end();
 }
 
diff --git a/src/pdfmm/base/PdfFieldChildrenCollection.h b/src/pdfmm/base/PdfFieldChildrenCollection.h
index 4057501..0e97b54 100644
--- a/src/pdfmm/base/PdfFieldChildrenCollection.h
+++ b/src/pdfmm/base/PdfFieldChildrenCollection.h
@@ -77,11 +77,11 @@ namespace mm
             }
             value_type operator*()
             {
-                return m_iterator.get();
+                return m_iterator->get();
             }
             value_type operator->()
             {
-                return m_iterator.get();
+                return m_iterator->get();
             }
         private:
             TListIterator m_iterator;
-- 
2.43.0


From 026d0041c633796467652df71f5e43ab00753732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:09 +0000
Subject: [PATCH 101/126] fix: handle direct and invalid fields of forms

---
 src/pdfmm/base/PdfAcroForm.cpp                | 38 ++++++++++++++----
 src/pdfmm/base/PdfField.cpp                   | 15 +++++--
 src/pdfmm/base/PdfFieldChildrenCollection.cpp | 39 +++++++++++++++----
 3 files changed, 73 insertions(+), 19 deletions(-)

diff --git a/src/pdfmm/base/PdfAcroForm.cpp b/src/pdfmm/base/PdfAcroForm.cpp
index 46d884b..0e1a5f4 100644
--- a/src/pdfmm/base/PdfAcroForm.cpp
+++ b/src/pdfmm/base/PdfAcroForm.cpp
@@ -96,13 +96,20 @@ PdfField& PdfAcroForm::getField(unsigned index) const
     if (index >= m_Fields.size())
         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 
+    if (m_Fields[index] == nullptr)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDataType, "The field is invalid");
+
     return *m_Fields[index];
 }
 
 PdfField& PdfAcroForm::getField(const PdfReference& ref) const
 {
     const_cast<PdfAcroForm&>(*this).initFields();
-    return *m_Fields[(*m_fieldMap).at(ref)];
+    auto found = m_fieldMap->find(ref);
+    if (found == m_fieldMap->end())
+        PDFMM_RAISE_ERROR(PdfErrorCode::NoObject);
+
+    return getField(found->second);
 }
 
 void PdfAcroForm::RemoveFieldAt(unsigned index)
@@ -111,10 +118,14 @@ void PdfAcroForm::RemoveFieldAt(unsigned index)
     if (index >= m_Fields.size())
         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 
-    if (m_Fields[index] != nullptr)
+    // The field may be missing in the map, if it's not an indirect object
+    for (auto it = m_fieldMap->begin(); it != m_fieldMap->end(); it++)
     {
-        // It may be null if the field is invalid
-        m_fieldMap->erase(m_fieldMap->find(m_Fields[index]->GetObject().GetIndirectReference()));
+        if (it->second == index)
+        {
+            m_fieldMap->erase(it);
+            break;
+        }
     }
 
     m_fieldArray->RemoveAt(index);
@@ -208,10 +219,11 @@ bool PdfAcroForm::GetNeedAppearances() const
 PdfArray* PdfAcroForm::getFieldArray() const
 {
     auto obj = const_cast<PdfAcroForm&>(*this).GetDictionary().FindKey("Fields");
-    if (obj == nullptr)
+    PdfArray* arr;
+    if (obj == nullptr || !obj->TryGetArray(arr))
         return nullptr;
 
-    return &obj->GetArray();
+    return arr;
 }
 
 void PdfAcroForm::initFields()
@@ -224,14 +236,24 @@ void PdfAcroForm::initFields()
     if (m_fieldArray == nullptr)
         return;
 
+    // Fields refer to their object, which must not move when the
+    // array changes: fields that are no indirect objects become so
+    for (auto& obj : *m_fieldArray)
+    {
+        if (obj.IsDictionary())
+            obj = PdfObject(GetDocument().GetObjects().CreateObject(obj).GetIndirectReference());
+    }
+
     m_Fields.reserve(m_fieldArray->size());
     unique_ptr<PdfField> field;
     unsigned i = 0;
     for (auto obj : m_fieldArray->GetIndirectIterator())
     {
-        (*m_fieldMap)[obj->GetIndirectReference()] = i;
+        if (obj != nullptr && obj->IsIndirect())
+            (*m_fieldMap)[obj->GetIndirectReference()] = i;
+
         // The field may be invalid. In that case we push a placeholder
-        if (PdfField::TryCreateFromObject(*obj, field))
+        if (obj != nullptr && PdfField::TryCreateFromObject(*obj, field))
             m_Fields.push_back(std::move(field));
         else
             m_Fields.push_back(nullptr);
diff --git a/src/pdfmm/base/PdfField.cpp b/src/pdfmm/base/PdfField.cpp
index c2ba7fa..c3a8601 100644
--- a/src/pdfmm/base/PdfField.cpp
+++ b/src/pdfmm/base/PdfField.cpp
@@ -79,6 +79,12 @@ PdfField::PdfField(PdfObject& obj, PdfAcroForm* acroform, PdfFieldType fieldType
 
 bool PdfField::TryCreateFromObject(PdfObject& obj, unique_ptr<PdfField>& field)
 {
+    if (!obj.IsDictionary())
+    {
+        field.reset();
+        return false;
+    }
+
     return tryCreateField(obj, getFieldType(obj), field);
 }
 
@@ -169,6 +175,10 @@ PdfField& PdfField::Create(const string_view& name,
     {
         for (auto field : *acroForm)
         {
+            // The field may be null if it's invalid
+            if (field == nullptr)
+                continue;
+
             // Find a candidate parent with same name and type
             auto fieldName = field->GetNameRaw();
             if (fieldName.has_value() && *fieldName == name)
@@ -409,7 +419,7 @@ PdfFieldType PdfField::getFieldType(const PdfObject& obj)
 
     // ISO 32000:2008, Section 12.7.3.1, Table 220, Page #432.
     auto ftObj = obj.GetDictionary().FindKeyParent("FT");
-    if (ftObj == nullptr)
+    if (ftObj == nullptr || !ftObj->IsName())
         return PdfFieldType::Unknown;
 
     auto& fieldType = ftObj->GetName();
@@ -550,13 +560,12 @@ bool PdfField::GetFieldFlag(int64_t value, bool defvalue) const
 bool PdfField::GetFieldFlags(const PdfObject& obj, int64_t& value)
 {
     auto flagsObject = obj.GetDictionary().FindKeyParent("Ff");
-    if (flagsObject == nullptr)
+    if (flagsObject == nullptr || !flagsObject->TryGetNumber(value))
     {
         value = 0;
         return false;
     }
 
-    value = flagsObject->GetNumber();
     return true;
 }
 
diff --git a/src/pdfmm/base/PdfFieldChildrenCollection.cpp b/src/pdfmm/base/PdfFieldChildrenCollection.cpp
index bf760e2..4715a11 100644
--- a/src/pdfmm/base/PdfFieldChildrenCollection.cpp
+++ b/src/pdfmm/base/PdfFieldChildrenCollection.cpp
@@ -9,6 +9,7 @@
 #include "PdfField.h"
 #include "PdfArray.h"
 #include "PdfDictionary.h"
+#include "PdfDocument.h"
 
 using namespace std;
 using namespace mm;
@@ -54,10 +55,14 @@ void PdfFieldChildrenCollectionBase::RemoveFieldAt(unsigned index)
     if (index >= m_Fields.size())
         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 
-    if (m_Fields[index] != nullptr)
+    // The field may be missing in the map, if it's not an indirect object
+    for (auto it = m_fieldMap->begin(); it != m_fieldMap->end(); it++)
     {
-        // It may be null if the annotation is invalid
-        m_fieldMap->erase(m_fieldMap->find(m_Fields[index]->GetObject().GetIndirectReference()));
+        if (it->second == index)
+        {
+            m_fieldMap->erase(it);
+            break;
+        }
     }
 
     m_kidsArray->RemoveAt(index);
@@ -138,10 +143,11 @@ PdfField& PdfFieldChildrenCollectionBase::AddChild(const shared_ptr<PdfField>& f
 PdfArray* PdfFieldChildrenCollectionBase::getKidsArray() const
 {
     auto obj = const_cast<PdfFieldChildrenCollectionBase&>(*this).m_field->GetDictionary().FindKey("Kids");
-    if (obj == nullptr)
+    PdfArray* arr;
+    if (obj == nullptr || !obj->TryGetArray(arr))
         return nullptr;
 
-    return &obj->GetArray();
+    return arr;
 }
 
 PdfField& PdfFieldChildrenCollectionBase::getFieldAt(unsigned index) const
@@ -150,13 +156,20 @@ PdfField& PdfFieldChildrenCollectionBase::getFieldAt(unsigned index) const
     if (index >= m_Fields.size())
         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 
+    if (m_Fields[index] == nullptr)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDataType, "The field is invalid");
+
     return *m_Fields[index];
 }
 
 PdfField& PdfFieldChildrenCollectionBase::getField(const PdfReference& ref) const
 {
     const_cast<PdfFieldChildrenCollectionBase&>(*this).initFields();
-    return *m_Fields[(*m_fieldMap).at(ref)];
+    auto found = m_fieldMap->find(ref);
+    if (found == m_fieldMap->end())
+        PDFMM_RAISE_ERROR(PdfErrorCode::NoObject);
+
+    return getFieldAt(found->second);
 }
 
 void PdfFieldChildrenCollectionBase::initFields()
@@ -169,14 +182,24 @@ void PdfFieldChildrenCollectionBase::initFields()
     if (m_kidsArray == nullptr)
         return;
 
+    // Fields refer to their object, which must not move when the
+    // array changes: fields that are no indirect objects become so
+    for (auto& obj : *m_kidsArray)
+    {
+        if (obj.IsDictionary())
+            obj = PdfObject(m_field->GetDocument().GetObjects().CreateObject(obj).GetIndirectReference());
+    }
+
     m_Fields.reserve(m_kidsArray->size());
     unique_ptr<PdfField> field;
     unsigned i = 0;
     for (auto obj : m_kidsArray->GetIndirectIterator())
     {
-        (*m_fieldMap)[obj->GetIndirectReference()] = i;
+        if (obj != nullptr && obj->IsIndirect())
+            (*m_fieldMap)[obj->GetIndirectReference()] = i;
+
         // The annotation may be invalid. In that case we push a placeholder
-        if (PdfField::TryCreateFromObject(*obj, field))
+        if (obj != nullptr && PdfField::TryCreateFromObject(*obj, field))
         {
             field->SetParent(m_field->GetPtr());
             m_Fields.push_back(std::move(field));
-- 
2.43.0


From eef4c60b69d7e828d9b23d38e0f3cf474ce21edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:09 +0000
Subject: [PATCH 102/126] fix: raise an error for captions of fields without a
 widget

---
 src/pdfmm/base/PdfButton.cpp     |  6 +++---
 src/pdfmm/base/PdfPushButton.cpp | 12 ++++++------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/pdfmm/base/PdfButton.cpp b/src/pdfmm/base/PdfButton.cpp
index 37cf698..f128442 100644
--- a/src/pdfmm/base/PdfButton.cpp
+++ b/src/pdfmm/base/PdfButton.cpp
@@ -48,11 +48,11 @@ void PdfButton::SetCaption(nullable<const PdfString&> text)
 {
     if (text.has_value())
     {
-        GetWidget()->GetOrCreateAppearanceCharacteristics().SetCaption(*text);
+        MustGetWidget().GetOrCreateAppearanceCharacteristics().SetCaption(*text);
     }
     else
     {
-        auto apChars = GetWidget()->GetAppearanceCharacteristics();
+        auto apChars = MustGetWidget().GetAppearanceCharacteristics();
         if (apChars != nullptr)
             apChars->SetCaption(nullptr);
     }
@@ -60,7 +60,7 @@ void PdfButton::SetCaption(nullable<const PdfString&> text)
 
 nullable<const PdfString&> PdfButton::GetCaption() const
 {
-    auto apChars = GetWidget()->GetAppearanceCharacteristics();
+    auto apChars = MustGetWidget().GetAppearanceCharacteristics();
     if (apChars == nullptr)
         return { };
 
diff --git a/src/pdfmm/base/PdfPushButton.cpp b/src/pdfmm/base/PdfPushButton.cpp
index 987c1de..9b749e8 100644
--- a/src/pdfmm/base/PdfPushButton.cpp
+++ b/src/pdfmm/base/PdfPushButton.cpp
@@ -39,11 +39,11 @@ void PdfPushButton::SetRolloverCaption(nullable<const PdfString&> text)
 {
     if (text.has_value())
     {
-        GetWidget()->GetOrCreateAppearanceCharacteristics().SetRolloverCaption(*text);
+        MustGetWidget().GetOrCreateAppearanceCharacteristics().SetRolloverCaption(*text);
     }
     else
     {
-        auto apChars = GetWidget()->GetAppearanceCharacteristics();
+        auto apChars = MustGetWidget().GetAppearanceCharacteristics();
         if (apChars != nullptr)
             apChars->SetRolloverCaption(nullptr);
     }
@@ -51,7 +51,7 @@ void PdfPushButton::SetRolloverCaption(nullable<const PdfString&> text)
 
 nullable<const PdfString&>  PdfPushButton::GetRolloverCaption() const
 {
-    auto apChars = GetWidget()->GetAppearanceCharacteristics();
+    auto apChars = MustGetWidget().GetAppearanceCharacteristics();
     if (apChars == nullptr)
         return { };
 
@@ -62,11 +62,11 @@ void PdfPushButton::SetAlternateCaption(nullable<const PdfString&> text)
 {
     if (text.has_value())
     {
-        GetWidget()->GetOrCreateAppearanceCharacteristics().SetAlternateCaption(*text);
+        MustGetWidget().GetOrCreateAppearanceCharacteristics().SetAlternateCaption(*text);
     }
     else
     {
-        auto apChars = GetWidget()->GetAppearanceCharacteristics();
+        auto apChars = MustGetWidget().GetAppearanceCharacteristics();
         if (apChars != nullptr)
             apChars->SetAlternateCaption(nullptr);
     }
@@ -75,7 +75,7 @@ void PdfPushButton::SetAlternateCaption(nullable<const PdfString&> text)
 
 nullable<const PdfString&> PdfPushButton::GetAlternateCaption() const
 {
-    auto apChars = GetWidget()->GetAppearanceCharacteristics();
+    auto apChars = MustGetWidget().GetAppearanceCharacteristics();
     if (apChars == nullptr)
         return { };
 
-- 
2.43.0


From ae5c97c280708fa549b75756443584374966ceb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:09 +0000
Subject: [PATCH 103/126] fix: find inherited selections and indirect items of
 choice fields

---
 src/pdfmm/base/PdfChoiceField.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfChoiceField.cpp b/src/pdfmm/base/PdfChoiceField.cpp
index ee20d12..505647c 100644
--- a/src/pdfmm/base/PdfChoiceField.cpp
+++ b/src/pdfmm/base/PdfChoiceField.cpp
@@ -78,7 +78,7 @@ PdfString PdChoiceField::GetItem(unsigned index) const
     if (index >= optArray.GetSize())
         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 
-    auto& item = optArray[index];
+    auto& item = optArray.MustFindAt(index);
     if (item.IsArray())
     {
         auto& itemArray = item.GetArray();
@@ -105,7 +105,7 @@ nullable<const PdfString&> PdChoiceField::GetItemDisplayText(int index) const
         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
     }
 
-    auto& item = optArray[index];
+    auto& item = optArray.MustFindAt(index);
     if (item.IsArray())
     {
         auto& itemArray = item.GetArray();
@@ -139,7 +139,7 @@ void PdChoiceField::SetSelectedIndex(int index)
 int PdChoiceField::GetSelectedIndex() const
 {
     AssertTerminalField();
-    auto* valueObj = GetObject().GetDictionary().FindKey("V");
+    auto* valueObj = GetObject().GetDictionary().FindKeyParent("V");
     if (valueObj == nullptr || !valueObj->IsString())
         return -1;
 
-- 
2.43.0


From 9d16e825adad3f58fe17b40bfed700829ca0f7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:37 +0000
Subject: [PATCH 104/126] fix: make the null object null

---
 src/pdfmm/base/PdfObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index 745b2c2..4c8d08c 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -18,7 +18,7 @@
 using namespace std;
 using namespace mm;
 
-PdfObject PdfObject::Null;
+PdfObject PdfObject::Null((PdfVariant()));
 
 PdfObject::PdfObject()
     : PdfObject(PdfDictionary(), PdfReference(), false) { }
-- 
2.43.0


From f683236fd7c17afde4d7bf310297ff1197003d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:37 +0000
Subject: [PATCH 105/126] fix: don't invert the comparison of optional values
 with optional references

---
 src/pdfmm/common/nullable.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/common/nullable.h b/src/pdfmm/common/nullable.h
index 1fbb79e..99b2fa1 100644
--- a/src/pdfmm/common/nullable.h
+++ b/src/pdfmm/common/nullable.h
@@ -241,12 +241,12 @@ namespace COMMON_NAMESPACE
     bool operator==(const nullable<std::decay_t<T2>>& lhs, const nullable<T2&>& rhs)
     {
         if (lhs.m_hasValue != rhs.m_hasValue)
-            return true;
+            return false;
 
         if (lhs.m_hasValue)
-            return lhs.m_value != *rhs.m_value;
+            return lhs.m_value == *rhs.m_value;
         else
-            return false;
+            return true;
     }
 
     template <typename T2>
-- 
2.43.0


From 32d2fcb589555a424410fa4d572e9fdb1cbd8de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:35 +0000
Subject: [PATCH 106/126] fix: link a further update of the same document to
 the previous one

---
 src/pdfmm/base/PdfMemDocument.cpp | 3 +++
 src/pdfmm/base/PdfWriter.cpp      | 2 ++
 src/pdfmm/base/PdfWriter.h        | 7 +++++++
 3 files changed, 12 insertions(+)

diff --git a/src/pdfmm/base/PdfMemDocument.cpp b/src/pdfmm/base/PdfMemDocument.cpp
index 9aa21f3..d754ffd 100644
--- a/src/pdfmm/base/PdfMemDocument.cpp
+++ b/src/pdfmm/base/PdfMemDocument.cpp
@@ -288,6 +288,9 @@ void PdfMemDocument::SaveUpdate(OutputStreamDevice& device, PdfSaveOptions opts)
     {
         device.Seek(0, SeekDirection::End);
         writer.Write(device);
+
+        // The next update follows this one
+        m_PrevXRefOffset = (int64_t)writer.GetXRefOffset();
     }
     catch (PdfError& e)
     {
diff --git a/src/pdfmm/base/PdfWriter.cpp b/src/pdfmm/base/PdfWriter.cpp
index f6ba8d3..64e9f53 100644
--- a/src/pdfmm/base/PdfWriter.cpp
+++ b/src/pdfmm/base/PdfWriter.cpp
@@ -37,6 +37,7 @@ PdfWriter::PdfWriter(PdfIndirectObjectList* objects, const PdfObject& trailer, P
     m_SaveOptions(PdfSaveOptions::None),
     m_WriteFlags(PdfWriteFlags::None),
     m_PrevXRefOffset(0),
+    m_XRefOffset(0),
     m_IncrementalUpdate(false),
     m_rewriteXRefTable(false)
 {
@@ -100,6 +101,7 @@ void PdfWriter::Write(OutputStreamDevice& device)
             xRef->SetFirstEmptyBlock();
 
         xRef->Write(device, m_buffer);
+        m_XRefOffset = xRef->GetOffset();
     }
     catch (PdfError& e)
     {
diff --git a/src/pdfmm/base/PdfWriter.h b/src/pdfmm/base/PdfWriter.h
index 6b4ce3e..17da1f5 100644
--- a/src/pdfmm/base/PdfWriter.h
+++ b/src/pdfmm/base/PdfWriter.h
@@ -114,6 +114,12 @@ public:
      */
     inline int64_t GetPrevXRefOffset() const { return m_PrevXRefOffset; }
 
+    /**
+     *  \returns offset of the cross-reference section written by
+     *     the last successful Write, 0 if there is none
+     */
+    inline uint64_t GetXRefOffset() const { return m_XRefOffset; }
+
     /** Set whether writing an incremental update.
      *  Default is false.
      *  \param incrementalUpdate if true an incremental update will be written
@@ -190,6 +196,7 @@ private:
     PdfString m_identifier;
     PdfString m_originalIdentifier; // used for incremental update
     int64_t m_PrevXRefOffset;
+    uint64_t m_XRefOffset;
     bool m_IncrementalUpdate;
     bool m_rewriteXRefTable; // Only used if incremental update
 };
-- 
2.43.0


From bc6552339914a38b6727715b062d677eea4897a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:15 +0000
Subject: [PATCH 107/126] fix: throw on warnings only if there are some

---
 src/pdfmm/base/PdfContentsReader.cpp | 7 ++++---
 src/pdfmm/base/PdfContentsReader.h   | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfContentsReader.cpp b/src/pdfmm/base/PdfContentsReader.cpp
index 7e7b2c0..77ca11d 100644
--- a/src/pdfmm/base/PdfContentsReader.cpp
+++ b/src/pdfmm/base/PdfContentsReader.cpp
@@ -87,7 +87,7 @@ bool PdfContentsReader::TryReadNext(PdfContent& content)
 
     HandleContent:
         afterReadClear(content);
-        handleWarnings();
+        handleWarnings(content);
         return true;
 
     PopDevice:
@@ -423,9 +423,10 @@ bool PdfContentsReader::tryReadInlineImgData(charbuff& data)
     return false;
 }
 
-void PdfContentsReader::handleWarnings()
+void PdfContentsReader::handleWarnings(const PdfContent& content)
 {
-    if ((m_args.Flags & PdfContentReaderFlags::ThrowOnWarnings) != PdfContentReaderFlags::None)
+    if (content.Warnings != PdfContentWarnings::None
+        && (m_args.Flags & PdfContentReaderFlags::ThrowOnWarnings) != PdfContentReaderFlags::None)
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidContentStream, "Unsupported PostScript content");
 }
 
diff --git a/src/pdfmm/base/PdfContentsReader.h b/src/pdfmm/base/PdfContentsReader.h
index e549c37..fdd55ad 100644
--- a/src/pdfmm/base/PdfContentsReader.h
+++ b/src/pdfmm/base/PdfContentsReader.h
@@ -105,7 +105,7 @@ private:
 
     void tryFollowXObject(PdfContent& content);
 
-    void handleWarnings();
+    void handleWarnings(const PdfContent& content);
 
     bool isCalledRecursively(const PdfObject* xobj);
 
-- 
2.43.0


From 14df1bdcbc9aa0ce58e3f3023b6b0b5324dd1b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:15 +0000
Subject: [PATCH 108/126] fix: end unterminated inline images with their
 content

---
 src/pdfmm/base/PdfContentsReader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfContentsReader.cpp b/src/pdfmm/base/PdfContentsReader.cpp
index 77ca11d..730d034 100644
--- a/src/pdfmm/base/PdfContentsReader.cpp
+++ b/src/pdfmm/base/PdfContentsReader.cpp
@@ -92,6 +92,8 @@ bool PdfContentsReader::TryReadNext(PdfContent& content)
 
     PopDevice:
         PDFMM_INVARIANT(m_inputs.size() != 0);
+        // Inline image data never continues in the calling content
+        m_readingInlineImgData = false;
         m_inputs.pop_back();
         if (m_inputs.size() == 0)
             goto Eof;
-- 
2.43.0


From ffe80059df332f8829544d1529a88cfe67ae9a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:15 +0000
Subject: [PATCH 109/126] fix: find the end of inline images after an E and at
 the end of the content

---
 src/pdfmm/base/PdfContentsReader.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfContentsReader.cpp b/src/pdfmm/base/PdfContentsReader.cpp
index 730d034..c7c1299 100644
--- a/src/pdfmm/base/PdfContentsReader.cpp
+++ b/src/pdfmm/base/PdfContentsReader.cpp
@@ -393,7 +393,7 @@ bool PdfContentsReader::tryReadInlineImgData(charbuff& data)
             {
                 if (ch == 'I')
                     status = ReadEIStatus::ReadWhiteSpace;
-                else
+                else if (ch != 'E')
                     status = ReadEIStatus::ReadE;
 
                 break;
@@ -405,6 +405,8 @@ bool PdfContentsReader::tryReadInlineImgData(charbuff& data)
                     data = bufferview(m_buffer->data(), readCount - 2);
                     return true;
                 }
+                else if (ch == 'E')
+                    status = ReadEIStatus::ReadI;
                 else
                     status = ReadEIStatus::ReadE;
 
@@ -422,6 +424,13 @@ bool PdfContentsReader::tryReadInlineImgData(charbuff& data)
         readCount++;
     }
 
+    if (status == ReadEIStatus::ReadWhiteSpace)
+    {
+        // The content ends with the end image operator
+        data = bufferview(m_buffer->data(), readCount - 2);
+        return true;
+    }
+
     return false;
 }
 
-- 
2.43.0


From b35049172fd3ca03113f17dc123e6fe1ad4f0520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:16 +0000
Subject: [PATCH 110/126] fix: keep the rest of a content stream that was read
 in part

---
 src/pdfmm/base/PdfCanvasInputDevice.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfCanvasInputDevice.cpp b/src/pdfmm/base/PdfCanvasInputDevice.cpp
index 1c0cb19..25dae53 100644
--- a/src/pdfmm/base/PdfCanvasInputDevice.cpp
+++ b/src/pdfmm/base/PdfCanvasInputDevice.cpp
@@ -102,9 +102,6 @@ size_t PdfCanvasInputDevice::readBuffer(char* buffer, size_t size, bool& eof)
             return count;
         }
 
-        if (size == 0)
-            return count;
-
         if (m_deviceSwitchOccurred)
         {
             // Handle device switch by inserting
@@ -115,7 +112,10 @@ size_t PdfCanvasInputDevice::readBuffer(char* buffer, size_t size, bool& eof)
             count += 1;
             m_deviceSwitchOccurred = false;
             if (size == 0)
+            {
+                eof = false;
                 return count;
+            }
         }
 
         // Span reads into multple input devices
@@ -124,6 +124,12 @@ size_t PdfCanvasInputDevice::readBuffer(char* buffer, size_t size, bool& eof)
         read = device->Read(buffer + count, size, eof);
         size -= read;
         count += read;
+        if (size == 0)
+        {
+            // There can be more data in this device or in the next
+            eof = false;
+            return count;
+        }
     }
 }
 
-- 
2.43.0


From cabc86f4c403abcc46cb9734a0683109869b9a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:41 +0000
Subject: [PATCH 111/126] fix: report a missing trailer instead of using it

---
 src/pdfmm/base/PdfParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfParser.cpp b/src/pdfmm/base/PdfParser.cpp
index aea70c5..29788e4 100644
--- a/src/pdfmm/base/PdfParser.cpp
+++ b/src/pdfmm/base/PdfParser.cpp
@@ -605,7 +605,9 @@ void PdfParser::ReadXRefStreamContents(InputStreamDevice& device, size_t offset,
 
 void PdfParser::ReadObjects(InputStreamDevice& device)
 {
-    PDFMM_ASSERT(m_Trailer != nullptr);
+    if (m_Trailer == nullptr)
+        PDFMM_RAISE_ERROR(PdfErrorCode::NoTrailer);
+
     // Check for encryption and make sure that the encryption object
     // is loaded before all other objects
     PdfObject* encrypt = m_Trailer->GetDictionary().GetKey("Encrypt");
-- 
2.43.0


From 07c12cf3e6ce24b7717e913200d9377d7f8fe406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:41 +0000
Subject: [PATCH 112/126] fix: limit the nesting of dictionaries

---
 src/pdfmm/base/PdfTokenizer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index 3a18861..26edaa1 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -407,6 +407,7 @@ bool PdfTokenizer::tryReadDataType(InputStreamDevice& device, PdfLiteralDataType
 
 void PdfTokenizer::ReadDictionary(InputStreamDevice& device, PdfVariant& variant, const PdfStatefulEncrypt& encrypt)
 {
+    utls::RecursionGuard guard;
     PdfVariant val;
     PdfName key;
     PdfTokenType tokenType;
-- 
2.43.0


From 58e00d4d30c28da3e56b5d42542abd5bdbb3d5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:41 +0000
Subject: [PATCH 113/126] fix: do not count levels that were refused by the
 recursion limit

---
 src/pdfmm/private/PdfDeclarationsPrivate.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/private/PdfDeclarationsPrivate.cpp b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
index ca301ff..ad8737c 100644
--- a/src/pdfmm/private/PdfDeclarationsPrivate.cpp
+++ b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
@@ -1229,8 +1229,7 @@ void removeTrailingZeroes(string& str)
 
 void utls::RecursionGuard::Enter()
 {
-    s_recursionDepth++;
-    if (s_recursionDepth > s_MaxRecursionDepth)
+    if (s_recursionDepth >= s_MaxRecursionDepth)
     {
         // avoid stack overflow on documents that have circular cross references, loops
         // or very deeply nested structures, can happen with
@@ -1240,6 +1239,10 @@ void utls::RecursionGuard::Enter()
         // mutually recursive loops involving several objects are possible
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidXRef, "Stack overflow");
     }
+
+    // Count the level only when it is entered: no guard
+    // leaves it again if the limit was reached
+    s_recursionDepth++;
 }
 
 void utls::RecursionGuard::Exit()
-- 
2.43.0


From 5df585161fe4b24a67c75b9d0476797dbdfe3696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:21 +0000
Subject: [PATCH 114/126] fix: limit the depth of name trees when looking up a
 value

---
 src/pdfmm/base/PdfNameTree.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/base/PdfNameTree.cpp b/src/pdfmm/base/PdfNameTree.cpp
index ef3654c..ac23024 100644
--- a/src/pdfmm/base/PdfNameTree.cpp
+++ b/src/pdfmm/base/PdfNameTree.cpp
@@ -341,6 +341,7 @@ PdfObject* PdfNameTree::GetValue(const PdfName& tree, const PdfString& key) cons
 
 PdfObject* PdfNameTree::GetKeyValue(PdfObject& obj, const PdfString& key) const
 {
+    utls::RecursionGuard guard;
     if (PdfNameTree::CheckLimits(obj, key) != PdfNameLimits::Inside)
         return nullptr;
 
-- 
2.43.0


From f5bbd20de3d308ba3328ab095346d055eabc1501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:21 +0000
Subject: [PATCH 115/126] fix: limit the depth of form field parents

---
 src/pdfmm/base/PdfField.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/base/PdfField.cpp b/src/pdfmm/base/PdfField.cpp
index c3a8601..7b40e4f 100644
--- a/src/pdfmm/base/PdfField.cpp
+++ b/src/pdfmm/base/PdfField.cpp
@@ -845,6 +845,7 @@ void PdfField::linkFieldObjectToParent(const shared_ptr<PdfField>& field, PdfFie
 
 void getFullName(const PdfObject& obj, bool escapePartialNames, string& fullname)
 {
+    utls::RecursionGuard guard;
     auto& dict = obj.GetDictionary();
     auto parent = dict.FindKey("Parent");
     if (parent != nullptr)
-- 
2.43.0


From 8947a56be8997d754c8d1353ca30909d08d8d446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:11 +0000
Subject: [PATCH 116/126] fix: don't read past the end of /Names arrays

---
 src/pdfmm/base/PdfNameTree.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfNameTree.cpp b/src/pdfmm/base/PdfNameTree.cpp
index ac23024..ac4b797 100644
--- a/src/pdfmm/base/PdfNameTree.cpp
+++ b/src/pdfmm/base/PdfNameTree.cpp
@@ -380,8 +380,9 @@ PdfObject* PdfNameTree::GetKeyValue(PdfObject& obj, const PdfString& key) const
         PdfArray::iterator it = names.begin();
 
         // a names array is a set of PdfString/PdfObject pairs
-        // so we loop in sets of two - getting each pair
-        while (it != names.end())
+        // so we loop in sets of two - getting each pair. A last
+        // key without a value is ignored
+        while (names.end() - it >= 2)
         {
             if (it->GetString() == key)
             {
-- 
2.43.0


From af5fcc9cea7cdb4e9d37c53b2335181571a35b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:55 +0000
Subject: [PATCH 117/126] fix: Painter state follows Save, Restore and the
 start of new content

---
 src/pdfmm/base/PdfGraphicsState.cpp |  4 ++--
 src/pdfmm/base/PdfPainter.cpp       | 13 +++++++++++++
 src/pdfmm/base/PdfPainter.h         |  1 +
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfGraphicsState.cpp b/src/pdfmm/base/PdfGraphicsState.cpp
index 4bbb717..8c3d85b 100644
--- a/src/pdfmm/base/PdfGraphicsState.cpp
+++ b/src/pdfmm/base/PdfGraphicsState.cpp
@@ -10,9 +10,9 @@ using namespace std;
 using namespace mm;
 
 PdfGraphicsState::PdfGraphicsState() :
-    LineWidth(0),
+    LineWidth(1),
     MiterLimit(10),
-    LineCapStyle(PdfLineCapStyle::Square),
+    LineCapStyle(PdfLineCapStyle::Butt),
     LineJoinStyle(PdfLineJoinStyle::Miter)
 {
 }
diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index 7c6df66..abb7262 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -168,6 +168,12 @@ void PdfPainter::finishDrawing()
 
     // Reset temporary stream
     m_tmpStream.Clear();
+
+    // The next content starts with the initial graphics
+    // state and with no text object open
+    m_savedStates.clear();
+    m_GraphicsState = { };
+    m_isTextOpen = false;
 }
 
 void PdfPainter::SetStrokingShadingPattern(const PdfShadingPattern& pattern)
@@ -1167,12 +1173,19 @@ void PdfPainter::Save()
 {
     checkStream();
     m_tmpStream << "q" << endl;
+    m_savedStates.push_back({ m_GraphicsState, m_TextState });
 }
 
 void PdfPainter::Restore()
 {
     checkStream();
     m_tmpStream << "Q" << endl;
+    if (m_savedStates.size() != 0)
+    {
+        m_GraphicsState = m_savedStates.back().first;
+        m_TextState = m_savedStates.back().second;
+        m_savedStates.pop_back();
+    }
 }
 
 
diff --git a/src/pdfmm/base/PdfPainter.h b/src/pdfmm/base/PdfPainter.h
index 12a969c..2e432a2 100644
--- a/src/pdfmm/base/PdfPainter.h
+++ b/src/pdfmm/base/PdfPainter.h
@@ -758,6 +758,7 @@ private:
 
     PdfGraphicsState m_GraphicsState;
     PdfTextState m_TextState;
+    std::vector<std::pair<PdfGraphicsState, PdfTextState>> m_savedStates;
     PdfGraphicsStateWrapper m_PainterGraphicsState;
     PdfTextStateWrapper m_PainterTextState;
 
-- 
2.43.0


From 0c500d13c19226e850a58fd5fc3d6d160fc6b958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:55 +0000
Subject: [PATCH 118/126] fix: Write the text state in every text object

---
 src/pdfmm/base/PdfPainter.cpp | 24 +++++++++++++++++-------
 src/pdfmm/base/PdfPainter.h   |  9 ++++++++-
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index abb7262..9bd6871 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -173,6 +173,7 @@ void PdfPainter::finishDrawing()
     // state and with no text object open
     m_savedStates.clear();
     m_GraphicsState = { };
+    m_writtenTextState = { };
     m_isTextOpen = false;
 }
 
@@ -499,6 +500,7 @@ void PdfPainter::BeginText(double x, double y)
     checkTextModeClosed();
 
     m_tmpStream << "BT" << endl;
+    writeTextState();
     m_tmpStream << x << " " << y << " Td" << endl;
     m_isTextOpen = true;
 }
@@ -1173,7 +1175,7 @@ void PdfPainter::Save()
 {
     checkStream();
     m_tmpStream << "q" << endl;
-    m_savedStates.push_back({ m_GraphicsState, m_TextState });
+    m_savedStates.push_back({ m_GraphicsState, m_TextState, m_writtenTextState });
 }
 
 void PdfPainter::Restore()
@@ -1182,8 +1184,9 @@ void PdfPainter::Restore()
     m_tmpStream << "Q" << endl;
     if (m_savedStates.size() != 0)
     {
-        m_GraphicsState = m_savedStates.back().first;
-        m_TextState = m_savedStates.back().second;
+        m_GraphicsState = m_savedStates.back().Graphics;
+        m_TextState = m_savedStates.back().Text;
+        m_writtenTextState = m_savedStates.back().WrittenText;
         m_savedStates.pop_back();
     }
 }
@@ -1430,16 +1433,18 @@ void PdfPainter::writeTextState()
     if (m_TextState.Font != nullptr)
         setFont(m_TextState.Font, m_TextState.FontSize);
 
-    if (m_TextState.FontScale != 1)
+    // The values remain in effect after the end of a text object,
+    // so those written before have to be considered
+    if (m_TextState.FontScale != m_writtenTextState.FontScale)
         setFontScale(m_TextState.FontScale);
 
-    if (m_TextState.CharSpacing != 0)
+    if (m_TextState.CharSpacing != m_writtenTextState.CharSpacing)
         setCharSpacing(m_TextState.CharSpacing);
 
-    if (m_TextState.WordSpacing != 0)
+    if (m_TextState.WordSpacing != m_writtenTextState.WordSpacing)
         setWordSpacing(m_TextState.WordSpacing);
 
-    if (m_TextState.RenderingMode != PdfTextRenderingMode::Fill)
+    if (m_TextState.RenderingMode != m_writtenTextState.RenderingMode)
         setTextRenderingMode(m_TextState.RenderingMode);
 }
 
@@ -1456,6 +1461,7 @@ void PdfPainter::SetFont(const PdfFont* font, double fontSize)
 void PdfPainter::setFont(const PdfFont* font, double fontSize)
 {
     checkStream();
+    this->addToPageResources("Font", font->GetIdentifier(), font->GetObject());
     m_tmpStream << "/" << font->GetIdentifier().GetString()
         << " " << fontSize
         << " Tf" << endl;
@@ -1471,6 +1477,7 @@ void PdfPainter::setFontScale(double value)
 {
     checkStream();
     m_tmpStream << value * 100 << " Tz" << endl;
+    m_writtenTextState.FontScale = value;
 }
 
 void PdfPainter::SetCharSpacing(double value)
@@ -1483,6 +1490,7 @@ void PdfPainter::setCharSpacing(double value)
 {
     checkStream();
     m_tmpStream << value << " Tc" << endl;
+    m_writtenTextState.CharSpacing = value;
 }
 
 void PdfPainter::SetWordSpacing(double value)
@@ -1495,6 +1503,7 @@ void PdfPainter::setWordSpacing(double value)
 {
     checkStream();
     m_tmpStream << value << " Tw" << endl;
+    m_writtenTextState.WordSpacing = value;
 }
 
 void PdfPainter::SetTextRenderingMode(PdfTextRenderingMode value)
@@ -1507,6 +1516,7 @@ void PdfPainter::setTextRenderingMode(PdfTextRenderingMode value)
 {
     checkStream();
     m_tmpStream << (int)value << " Tr" << endl;
+    m_writtenTextState.RenderingMode = value;
 }
 
 string PdfPainter::expandTabs(const string_view& str) const
diff --git a/src/pdfmm/base/PdfPainter.h b/src/pdfmm/base/PdfPainter.h
index 2e432a2..0b15f9c 100644
--- a/src/pdfmm/base/PdfPainter.h
+++ b/src/pdfmm/base/PdfPainter.h
@@ -758,7 +758,14 @@ private:
 
     PdfGraphicsState m_GraphicsState;
     PdfTextState m_TextState;
-    std::vector<std::pair<PdfGraphicsState, PdfTextState>> m_savedStates;
+    PdfTextState m_writtenTextState; // The text state in effect in the content
+    struct SavedState
+    {
+        PdfGraphicsState Graphics;
+        PdfTextState Text;
+        PdfTextState WrittenText;
+    };
+    std::vector<SavedState> m_savedStates;
     PdfGraphicsStateWrapper m_PainterGraphicsState;
     PdfTextStateWrapper m_PainterTextState;
 
-- 
2.43.0


From 2db75ae6459a8322f3da21ea66f8f041c7fd6a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:55 +0000
Subject: [PATCH 119/126] fix: Always write graphics state changes

---
 src/pdfmm/base/PdfPainter.cpp | 21 ---------------------
 1 file changed, 21 deletions(-)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index 9bd6871..eebba54 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -1598,63 +1598,42 @@ void PdfGraphicsStateWrapper::SetCurrentMatrix(const Matrix& matrix)
 
 void PdfGraphicsStateWrapper::SetLineWidth(double lineWidth)
 {
-    if (m_state->LineWidth == lineWidth)
-        return;
-
     m_state->LineWidth = lineWidth;
     m_painter->SetLineWidth(m_state->LineWidth);
 }
 
 void PdfGraphicsStateWrapper::SetMiterLevel(double value)
 {
-    if (m_state->MiterLimit == value)
-        return;
-
     m_state->MiterLimit = value;
     m_painter->SetMiterLimit(m_state->MiterLimit);
 }
 
 void PdfGraphicsStateWrapper::SetLineCapStyle(PdfLineCapStyle capStyle)
 {
-    if (m_state->LineCapStyle == capStyle)
-        return;
-
     m_state->LineCapStyle = capStyle;
     m_painter->SetLineCapStyle(m_state->LineCapStyle);
 }
 
 void PdfGraphicsStateWrapper::SetLineJoinStyle(PdfLineJoinStyle joinStyle)
 {
-    if (m_state->LineJoinStyle == joinStyle)
-        return;
-
     m_state->LineJoinStyle = joinStyle;
     m_painter->SetLineJoinStyle(m_state->LineJoinStyle);
 }
 
 void PdfGraphicsStateWrapper::SetRenderingIntent(const string_view& intent)
 {
-    if (m_state->RenderingIntent == intent)
-        return;
-
     m_state->RenderingIntent = intent;
     m_painter->SetRenderingIntent(m_state->RenderingIntent);
 }
 
 void PdfGraphicsStateWrapper::SetFillColor(const PdfColor& color)
 {
-    if (m_state->FillColor == color)
-        return;
-
     m_state->FillColor = color;
     m_painter->SetFillColor(m_state->FillColor);
 }
 
 void PdfGraphicsStateWrapper::SetStrokeColor(const PdfColor& color)
 {
-    if (m_state->StrokeColor == color)
-        return;
-
     m_state->StrokeColor = color;
     m_painter->SetStrokeColor(m_state->StrokeColor);
 }
-- 
2.43.0


From 1248a2ad51685479c758c45dbfb2dd991f682f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:55 +0000
Subject: [PATCH 120/126] fix: Relative path operations start at the current
 point

---
 src/pdfmm/base/PdfPainter.cpp | 63 +++++++++++++++++++----------------
 src/pdfmm/base/PdfPainter.h   |  5 +++
 2 files changed, 39 insertions(+), 29 deletions(-)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index eebba54..c1746d7 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -66,7 +66,9 @@ PdfPainter::PdfPainter(PdfPainterFlags flags) :
     m_lcx(0),
     m_lcy(0),
     m_lrx(0),
-    m_lry(0)
+    m_lry(0),
+    m_startx(0),
+    m_starty(0)
 {
 }
 
@@ -395,6 +397,9 @@ void PdfPainter::Rectangle(double x, double y, double width, double height,
             << width << " "
             << height
             << " re" << endl;
+        setCurrentPoint(x, y, x, y);
+        m_startx = x;
+        m_starty = y;
     }
 }
 
@@ -407,19 +412,13 @@ void PdfPainter::Ellipse(double x, double y, double width, double height)
 
     convertRectToBezier(x, y, width, height, dPointX, dPointY);
 
-    m_tmpStream << dPointX[0] << " "
-        << dPointY[0]
-        << " m" << endl;
+    MoveTo(dPointX[0], dPointY[0]);
 
     for (unsigned i = 1; i < BEZIER_POINTS; i += 3)
     {
-        m_tmpStream << dPointX[i] << " "
-            << dPointY[i] << " "
-            << dPointX[i + 1] << " "
-            << dPointY[i + 1] << " "
-            << dPointX[i + 2] << " "
-            << dPointY[i + 2]
-            << " c" << endl;
+        CubicBezierTo(dPointX[i], dPointY[i],
+            dPointX[i + 1], dPointY[i + 1],
+            dPointX[i + 2], dPointY[i + 2]);
     }
 }
 
@@ -824,8 +823,7 @@ void PdfPainter::DrawXObject(const PdfXObject& obj, double x, double y, double s
 
 void PdfPainter::ClosePath()
 {
-    checkStream();
-    m_tmpStream << "h" << endl;
+    Close();
 }
 
 void PdfPainter::LineTo(double x, double y)
@@ -834,6 +832,7 @@ void PdfPainter::LineTo(double x, double y)
     m_tmpStream << x << " "
         << y
         << " l" << endl;
+    setCurrentPoint(x, y, x, y);
 }
 
 void PdfPainter::MoveTo(double x, double y)
@@ -842,6 +841,9 @@ void PdfPainter::MoveTo(double x, double y)
     m_tmpStream << x << " "
         << y
         << " m" << endl;
+    setCurrentPoint(x, y, x, y);
+    m_startx = x;
+    m_starty = y;
 }
 
 void PdfPainter::CubicBezierTo(double x1, double y1, double x2, double y2, double x3, double y3)
@@ -854,6 +856,15 @@ void PdfPainter::CubicBezierTo(double x1, double y1, double x2, double y2, doubl
         << x3 << " "
         << y3
         << " c" << endl;
+    setCurrentPoint(x3, y3, x2, y2);
+}
+
+void PdfPainter::setCurrentPoint(double x, double y, double reflectX, double reflectY)
+{
+    m_lpx3 = m_lcx = x;
+    m_lpy3 = m_lcy = y;
+    m_lrx = reflectX;
+    m_lry = reflectY;
 }
 
 void PdfPainter::HorizontalLineTo(double x)
@@ -881,12 +892,6 @@ void PdfPainter::SmoothCurveTo(double x2, double y2, double x3, double y3)
     m_lpy = py;
     m_lpx2 = px2;
     m_lpy2 = py2;
-    m_lpx3 = px3;
-    m_lpy3 = py3;
-    m_lcx = px3;
-    m_lcy = py3;
-    m_lrx = px2;
-    m_lry = py2;
 
     CubicBezierTo(px, py, px2, py2, px3, py3);
 }
@@ -901,21 +906,19 @@ void PdfPainter::QuadCurveTo(double x1, double y1, double x3, double y3)
     // http://www.icce.rug.nl/erikjan/bluefuzz/beziers/beziers/beziers.html
     px = (m_lcx + 2 * px) * (1.0 / 3.0);
     py = (m_lcy + 2 * py) * (1.0 / 3.0);
-    px2 = (px3 + 2 * px) * (1.0 / 3.0);
-    py2 = (py3 + 2 * py) * (1.0 / 3.0);
+    px2 = (px3 + 2 * x1) * (1.0 / 3.0);
+    py2 = (py3 + 2 * y1) * (1.0 / 3.0);
 
     m_lpx = px;
     m_lpy = py;
     m_lpx2 = px2;
     m_lpy2 = py2;
-    m_lpx3 = px3;
-    m_lpy3 = py3;
-    m_lcx = px3;
-    m_lcy = py3;
-    m_lrx = px2;
-    m_lry = py2;
 
     CubicBezierTo(px, py, px2, py2, px3, py3);
+
+    // A smooth quadratic curve reflects the quadratic control point
+    m_lrx = x1;
+    m_lry = y1;
 }
 
 void PdfPainter::SmoothQuadCurveTo(double x3, double y3)
@@ -933,10 +936,11 @@ void PdfPainter::SmoothQuadCurveTo(double x3, double y3)
     px2 = (px3 + 2 * xc) * (1.0 / 3.0);
     py2 = (py3 + 2 * yc) * (1.0 / 3.0);
 
-    m_lpx = px; m_lpy = py; m_lpx2 = px2; m_lpy2 = py2; m_lpx3 = px3; m_lpy3 = py3;
-    m_lcx = px3;    m_lcy = py3;    m_lrx = xc;    m_lry = yc;    // thanks Raph!
+    m_lpx = px; m_lpy = py; m_lpx2 = px2; m_lpy2 = py2;
 
     CubicBezierTo(px, py, px2, py2, px3, py3);
+
+    m_lrx = xc;    m_lry = yc;    // thanks Raph!
 }
 
 void PdfPainter::ArcTo(double x, double y, double radiusX, double radiusY,
@@ -1130,6 +1134,7 @@ void PdfPainter::Close()
 {
     checkStream();
     m_tmpStream << "h" << endl;
+    setCurrentPoint(m_startx, m_starty, m_startx, m_starty);
 }
 
 void PdfPainter::Stroke()
diff --git a/src/pdfmm/base/PdfPainter.h b/src/pdfmm/base/PdfPainter.h
index 0b15f9c..e72073b 100644
--- a/src/pdfmm/base/PdfPainter.h
+++ b/src/pdfmm/base/PdfPainter.h
@@ -726,6 +726,8 @@ private:
 
     void setLineWidth(double width);
 
+    void setCurrentPoint(double x, double y, double reflectX, double reflectY);
+
     /** Expand all tab characters in a string
      *  using spaces.
      *
@@ -799,6 +801,9 @@ private:
     double m_lcy;
     double m_lrx;
     double m_lry;
+    // start of the current subpath
+    double m_startx;
+    double m_starty;
 };
 
 }
-- 
2.43.0


From 13a13402a5b1ec45d6e83575fa6eeed83278d6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:55 +0000
Subject: [PATCH 121/126] fix: Save and clip before the text object of multi
 line text

---
 src/pdfmm/base/PdfPainter.cpp | 16 ++++++++--------
 src/pdfmm/base/PdfPainter.h   |  2 +-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index c1746d7..dd64ab6 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -551,10 +551,16 @@ void PdfPainter::DrawMultiLineText(const string_view& str, double x, double y, d
     if (width <= 0.0 || height <= 0.0) // nonsense arguments
         return;
 
+    // Clipping and saving the state are not allowed in text objects
+    this->Save();
+    if (clip)
+        this->SetClipRect(x, y, width, height);
+
     m_tmpStream << "BT" << endl;
     writeTextState();
-    drawMultiLineText(str, x, y, width, height, hAlignment, vAlignment, clip, skipSpaces);
+    drawMultiLineText(str, x, y, width, height, hAlignment, vAlignment, skipSpaces);
     m_tmpStream << "ET" << endl;
+    this->Restore();
 }
 
 void PdfPainter::DrawTextAligned(const string_view& str, double x, double y, double width, PdfHorizontalAlignment hAlignment)
@@ -572,14 +578,9 @@ void PdfPainter::DrawTextAligned(const string_view& str, double x, double y, dou
     m_tmpStream << "ET" << endl;
 }
 
-void PdfPainter::drawMultiLineText(const std::string_view& str, double x, double y, double width, double height, PdfHorizontalAlignment hAlignment, PdfVerticalAlignment vAlignment, bool clip, bool skipSpaces)
+void PdfPainter::drawMultiLineText(const std::string_view& str, double x, double y, double width, double height, PdfHorizontalAlignment hAlignment, PdfVerticalAlignment vAlignment, bool skipSpaces)
 {
     auto& font = *m_TextState.Font;
-
-    this->Save();
-    if (clip)
-        this->SetClipRect(x, y, width, height);
-
     auto expanded = this->expandTabs(str);
 
     vector<string> lines = getMultiLineTextAsLines(expanded, width, skipSpaces);
@@ -609,7 +610,6 @@ void PdfPainter::drawMultiLineText(const std::string_view& str, double x, double
         y -= font.GetLineSpacing(m_TextState);
         it++;
     }
-    this->Restore();
 }
 
 // FIX-ME/CLEAN-ME: The following was found
diff --git a/src/pdfmm/base/PdfPainter.h b/src/pdfmm/base/PdfPainter.h
index e72073b..aaaba14 100644
--- a/src/pdfmm/base/PdfPainter.h
+++ b/src/pdfmm/base/PdfPainter.h
@@ -720,7 +720,7 @@ private:
     void drawText(const std::string_view& str, double x, double y, bool isUnderline, bool isStrikeOut);
 
     void drawMultiLineText(const std::string_view& str, double x, double y, double width, double height,
-        PdfHorizontalAlignment hAlignment, PdfVerticalAlignment vAlignment, bool clip, bool skipSpaces);
+        PdfHorizontalAlignment hAlignment, PdfVerticalAlignment vAlignment, bool skipSpaces);
 
     void internalArc(double x, double y, double ray, double ang1, double ang2, bool contFlg);
 
-- 
2.43.0


From 086b1aa890aa67db70dcf4cb27c99a3b06048ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:55 +0000
Subject: [PATCH 122/126] fix: Escape names written to the content

---
 src/pdfmm/base/PdfPainter.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index dd64ab6..2539fa9 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -203,7 +203,7 @@ void PdfPainter::SetStrokingTilingPattern(const PdfTilingPattern& pattern)
 void PdfPainter::SetStrokingTilingPattern(const string_view& patternName)
 {
     checkStream();
-    m_tmpStream << "/Pattern CS /" << patternName << " SCN" << endl;
+    m_tmpStream << "/Pattern CS /" << PdfName(patternName).GetEscapedName() << " SCN" << endl;
 }
 
 void PdfPainter::SetTilingPattern(const PdfTilingPattern& pattern)
@@ -216,7 +216,7 @@ void PdfPainter::SetTilingPattern(const PdfTilingPattern& pattern)
 void PdfPainter::SetTilingPattern(const string_view& patternName)
 {
     checkStream();
-    m_tmpStream << "/Pattern cs /" << patternName << " scn" << endl;
+    m_tmpStream << "/Pattern cs /" << PdfName(patternName).GetEscapedName() << " scn" << endl;
 }
 
 void PdfPainter::SetStrokeStyle(PdfStrokeStyle strokeStyle, const string_view& custom, bool inverted, double scale, bool subtractJoinCap)
@@ -1224,11 +1224,13 @@ void PdfPainter::Rectangle(const PdfRect& rect, double roundX, double roundY)
 
 void PdfPainter::BeginMarkedContext(const string_view& tag)
 {
-    m_tmpStream << '/' << tag << " BMC" << endl;
+    checkStream();
+    m_tmpStream << '/' << PdfName(tag).GetEscapedName() << " BMC" << endl;
 }
 
 void PdfPainter::EndMarkedContext()
 {
+    checkStream();
     m_tmpStream << "EMC" << endl;
 }
 
@@ -1326,7 +1328,7 @@ void PdfPainter::SetLineJoinStyle(PdfLineJoinStyle style)
 void PdfPainter::SetRenderingIntent(const string_view& intent)
 {
     checkStream();
-    m_tmpStream << "/" << intent << " ri" << endl;
+    m_tmpStream << "/" << PdfName(intent).GetEscapedName() << " ri" << endl;
 }
 
 void PdfPainter::SetFillColor(const PdfColor& color)
-- 
2.43.0


From 5334d6c7644d8ae75c6b5e2b9c31ef67be9db0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:55 +0000
Subject: [PATCH 123/126] fix: Replace tabs by spaces when drawing text

---
 src/pdfmm/base/PdfPainter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index 2539fa9..f957db5 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -1584,8 +1584,8 @@ string expandTabs(const string_view& str, unsigned tabWidth, unsigned tabCount)
         char32_t ch = (char32_t)utf8::next(it, end);
         if (ch == U'\t')
             ret.append(tabWidth, ' ');
-
-        utf8::append(ch, ret);
+        else
+            utf8::append(ch, ret);
     }
 
     return ret;
-- 
2.43.0


From 69a1585cd6f219e2ae9c666746a1815ad4a7560c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:55 +0000
Subject: [PATCH 124/126] fix: Keep prior form content exactly once

---
 src/pdfmm/base/PdfPainter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index f957db5..2225670 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -131,7 +131,7 @@ void PdfPainter::finishDrawing()
             }
             else
             {
-                output = m_stream->GetOutputStream();
+                output = m_stream->GetOutputStream(true);
                 // there is already content here - so let's assume we are appending
                 // as such, we MUST put in a "space" to separate whatever we do.
                 output.Write("\n");
@@ -149,10 +149,10 @@ void PdfPainter::finishDrawing()
             }
             else
             {
-                output = m_stream->GetOutputStream(true);
+                output = m_stream->GetOutputStream();
                 output.Write("q\n");
                 output.Write(buffer);
-                output.Write("Q\n");
+                output.Write("\nQ\n");
             }
         }
 
-- 
2.43.0


From 2ec467750f420c9c2d8fab8b10b864262aad61a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:18 +0000
Subject: [PATCH 125/126] fix: Write the operand of the text rendering mode

---
 src/pdfmm/base/PdfPainter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index 2225670..8d78b91 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -1522,7 +1522,8 @@ void PdfPainter::SetTextRenderingMode(PdfTextRenderingMode value)
 void PdfPainter::setTextRenderingMode(PdfTextRenderingMode value)
 {
     checkStream();
-    m_tmpStream << (int)value << " Tr" << endl;
+    // NOTE: The operand of Tr starts with 0 for filling the text
+    m_tmpStream << (int)value - (int)PdfTextRenderingMode::Fill << " Tr" << endl;
     m_writtenTextState.RenderingMode = value;
 }
 
-- 
2.43.0


From 75f43e255587b8f101e7bb498a67078ee19a0045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:58 +0000
Subject: [PATCH 126/126] fix: Reserve what expanded tabs need

---
 src/pdfmm/base/PdfPainter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index 8d78b91..b0a573a 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -1579,7 +1579,7 @@ string expandTabs(const string_view& str, unsigned tabWidth, unsigned tabCount)
     auto end = str.end();
 
     string ret;
-    ret.reserve(str.length() + tabCount * (tabWidth - 1));
+    ret.reserve(str.length() + (size_t)tabCount * tabWidth);
     while (it != end)
     {
         char32_t ch = (char32_t)utf8::next(it, end);
-- 
2.43.0

