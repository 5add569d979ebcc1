From 8c77c26bd8437526ef063e167d4dc7e7f5cacd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:36 +0000
Subject: [PATCH 01/22] fix: report a failed output stream at the end of dump

The serializer writes through its own ostream, so a sink that fails while
brackets, separators, numbers or literals are written left the document
truncated without any report.
---
 include/configor/details/serializer.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/configor/details/serializer.hpp b/include/configor/details/serializer.hpp
index 6eba96f..1c80076 100644
--- a/include/configor/details/serializer.hpp
+++ b/include/configor/details/serializer.hpp
@@ -60,6 +60,10 @@ public:
         {
             do_dump(c);
             next(token_type::end_of_input);
+            if (!os_.good())
+            {
+                throw configor_serialization_error("writing to the output stream failed");
+            }
         }
         catch (...)
         {
-- 
2.43.0


From 7d1254d9234b232332f9e911cf64f4e99101df28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:36 +0000
Subject: [PATCH 02/22] fix: do not lose an escaped character when the string
 cannot grow

scan_string checked the output stream after ordinary characters only; a
failed append of an escape such as \\n was dropped silently.
---
 include/configor/json.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index e41aaa0..bcc7ac0 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -360,6 +360,10 @@ public:
             case '\"':
             {
                 // end of string
+                if (!oss.good())
+                {
+                    fail("writing the parsed string failed");
+                }
                 // skip last `\"`
                 read_next();
                 return;
-- 
2.43.0


From 6c36872f24b6a176e6c0271f35a7d552871a314d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:36 +0000
Subject: [PATCH 03/22] fix: apply the error handler to a failure on the first
 character

The first code point was decoded before the guarded part of parse(), so the
error policy was bypassed.
---
 include/configor/json.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index bcc7ac0..16c93ca 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -156,8 +156,18 @@ public:
 
     virtual void parse(value_type& c) override
     {
-        // read first char
-        read_next();
+        try
+        {
+            // read first char
+            read_next();
+        }
+        catch (...)
+        {
+            if (!this->err_handler_)
+                throw;
+            this->err_handler_->handle(std::current_exception());
+            return;
+        }
         basic_parser<value_type, source_char_type>::parse(c);
     }
 
-- 
2.43.0


From d2ca8e54b4504997af1465c80fc003b7d7ea4ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:36 +0000
Subject: [PATCH 04/22] fix: reject an object member without a value

{"a"} was accepted and the key dropped.
---
 include/configor/details/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/configor/details/parser.hpp b/include/configor/details/parser.hpp
index 74555fa..9b11ca4 100644
--- a/include/configor/details/parser.hpp
+++ b/include/configor/details/parser.hpp
@@ -182,7 +182,7 @@ protected:
 
                 token = scan();
                 if (token != token_type::name_separator)
-                    break;
+                    fail(token, token_type::name_separator);
 
                 _ValTy object;
                 do_parse(object, token);
-- 
2.43.0


From 84b9e0e166bd7c086f801eea544015bb6a2324d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:36 +0000
Subject: [PATCH 05/22] fix: always write four hex digits in \\u escapes

The width was sizeof(uint16_t) == 2, so control characters and code points
below U+1000 were escaped as \\u01 or \\u3B1, which no parser accepts.
---
 include/configor/json.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 16c93ca..d07828e 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -82,7 +82,7 @@ struct json_hex
     friend inline std::basic_ostream<_CharTy>& operator<<(std::basic_ostream<_CharTy>& os, const json_hex& i)
     {
         os << std::setfill(_CharTy('0')) << std::hex << std::uppercase;
-        os << '\\' << 'u' << std::setw(sizeof(i.i)) << i.i;
+        os << '\\' << 'u' << std::setw(4) << i.i;
         os << std::dec << std::nouppercase;
         return os;
     }
-- 
2.43.0


From 4cebd7b43b2dbabf06d462b07ebc9b2e5c08f5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:36 +0000
Subject: [PATCH 06/22] fix: do not cast floats beyond int64_t to int64_t when
 dumping

1e20 was dumped as -9223372036854775808.0.
---
 include/configor/json.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index d07828e..7fa4229 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -876,7 +876,8 @@ public:
 
     virtual void put_float(typename value_type::float_type f) override
     {
-        if (std::ceil(f) == std::floor(f))
+        // 2^63: from there on the integral part does not fit in int64_t
+        if (std::ceil(f) == std::floor(f) && std::fabs(f) < 9223372036854775808.0)
         {
             // integer
             this->os_ << static_cast<int64_t>(f) << ".0";
-- 
2.43.0


From b546ba646ec2f6c9464cc116688273ca18c4d242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 07/22] fix: report FILE read errors and keep NUL characters

A failing read was taken for the end of the file, so a truncated document
was accepted. A peeked NUL character was dropped, and block reads went
through fgets: they stopped at newlines, reported a wrong count and lost
the peeked character.
---
 include/configor/details/stream.hpp | 48 +++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/include/configor/details/stream.hpp b/include/configor/details/stream.hpp
index a99761e..391a885 100644
--- a/include/configor/details/stream.hpp
+++ b/include/configor/details/stream.hpp
@@ -21,7 +21,7 @@
 #pragma once
 #include <algorithm>    // std::none_of
 #include <cmath>        // std::ceil, std::floor
-#include <cstdio>       // std::FILE, std::fgetc, std::fgets, std::fgetwc, std::fgetws, std::snprintf
+#include <cstdio>       // std::FILE, std::feof, std::ferror, std::fgetc, std::fgetwc, std::snprintf
 #include <iomanip>      // std::fill, std::setw
 #include <ios>          // std::basic_ios, std::streamsize, std::hex, std::dec, std::uppercase, std::nouppercase
 #include <istream>      // std::basic_istream
@@ -347,31 +347,42 @@ public:
 
     explicit fast_cfile_istreambuf(std::FILE* file)
         : file_(file)
-        , last_char_(0)
+        , last_char_(traits_type::eof())
     {
     }
 
 protected:
     virtual int_type underflow() override
     {
-        if (last_char_ != 0)
+        if (!traits_type::eq_int_type(last_char_, traits_type::eof()))
             return last_char_;
         last_char_ = std::fgetc(file_);
+        if (traits_type::eq_int_type(last_char_, traits_type::eof()) && std::ferror(file_) && !std::feof(file_))
+        {
+            // a stream buffer can only report an error by throwing
+            throw std::ios_base::failure("reading the file failed");
+        }
         return last_char_;
     }
 
     virtual int_type uflow() override
     {
         int_type c = underflow();
-        last_char_ = 0;
+        last_char_ = traits_type::eof();
         return c;
     }
 
     virtual std::streamsize xsgetn(char_type* s, std::streamsize num) override
     {
-        if (std::fgets(s, static_cast<int>(num), file_) == nullptr)
-            return 0;
-        return num;
+        std::streamsize copied = 0;
+        for (; copied < num; ++copied)
+        {
+            const int_type c = uflow();
+            if (traits_type::eq_int_type(c, traits_type::eof()))
+                break;
+            s[copied] = traits_type::to_char_type(c);
+        }
+        return copied;
     }
 
 private:
@@ -390,31 +401,42 @@ public:
 
     explicit fast_cfile_istreambuf(std::FILE* file)
         : file_(file)
-        , last_char_(0)
+        , last_char_(traits_type::eof())
     {
     }
 
 protected:
     virtual int_type underflow() override
     {
-        if (last_char_ != 0)
+        if (!traits_type::eq_int_type(last_char_, traits_type::eof()))
             return last_char_;
         last_char_ = std::fgetwc(file_);
+        if (traits_type::eq_int_type(last_char_, traits_type::eof()) && std::ferror(file_) && !std::feof(file_))
+        {
+            // a stream buffer can only report an error by throwing
+            throw std::ios_base::failure("reading the file failed");
+        }
         return last_char_;
     }
 
     virtual int_type uflow() override
     {
         int_type c = underflow();
-        last_char_ = 0;
+        last_char_ = traits_type::eof();
         return c;
     }
 
     virtual std::streamsize xsgetn(char_type* s, std::streamsize num) override
     {
-        if (std::fgetws(s, static_cast<int>(num), file_) == nullptr)
-            return 0;
-        return num;
+        std::streamsize copied = 0;
+        for (; copied < num; ++copied)
+        {
+            const int_type c = uflow();
+            if (traits_type::eq_int_type(c, traits_type::eof()))
+                break;
+            s[copied] = traits_type::to_char_type(c);
+        }
+        return copied;
     }
 
 private:
-- 
2.43.0


From c740e54c3360874947a896a5716990f21a2b6ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 08/22] fix: deliver the characters of an iadapter unchanged

Peeking a NUL character consumed it, a character above 0x7F was returned
sign extended, and block reads reported one character less than they
stored, went past the end of the input, and wrote out of bounds for a
request of zero characters.
---
 include/configor/details/stream.hpp | 47 ++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/include/configor/details/stream.hpp b/include/configor/details/stream.hpp
index 391a885..6b6788f 100644
--- a/include/configor/details/stream.hpp
+++ b/include/configor/details/stream.hpp
@@ -155,43 +155,60 @@ private:
     public:
         explicit streambuf(basic_iadapter<char_type>& adapter)
             : adapter_(adapter)
-            , last_char_(0)
+            , has_last_char_(false)
+            , last_char_()
         {
         }
 
     protected:
         virtual int_type underflow() override
         {
-            if (last_char_ != 0)
-                return last_char_;
-            last_char_ = traits_type::to_char_type(adapter_.read());
-            return last_char_;
+            if (!has_last_char_)
+            {
+                last_char_     = adapter_.read();
+                has_last_char_ = true;
+            }
+            return is_end(last_char_) ? traits_type::eof() : traits_type::to_int_type(last_char_);
         }
 
         virtual int_type uflow() override
         {
-            int_type c = underflow();
-            last_char_ = 0;
+            int_type c     = underflow();
+            has_last_char_ = false;
             return c;
         }
 
         virtual std::streamsize xsgetn(char_type* s, std::streamsize num) override
         {
-            if (last_char_ != 0)
+            std::streamsize read = 0;
+            if (has_last_char_ && num > 0)
             {
                 // read last char
-                s[0]       = traits_type::to_char_type(last_char_);
-                last_char_ = 0;
-                ++s;
-                --num;
+                s[read++]      = last_char_;
+                has_last_char_ = false;
+                if (is_end(s[0]))
+                    return 0;
             }
-            adapter_.read(s, static_cast<size_t>(num));
-            return num;
+            if (read < num)
+            {
+                adapter_.read(s + read, static_cast<size_t>(num - read));
+            }
+            while (read < num && !is_end(s[read]))
+                ++read;
+            return read;
+        }
+
+    private:
+        // an adapter marks its end by returning EOF
+        static inline bool is_end(char_type c)
+        {
+            return c == traits_type::to_char_type(traits_type::eof());
         }
 
     private:
         basic_iadapter<char_type>& adapter_;
-        int_type                   last_char_;
+        bool                       has_last_char_;
+        char_type                  last_char_;
     };
 
     streambuf buf_;
-- 
2.43.0


From 9890e4152efec8e68c1c343413493fa0cec426ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 09/22] fix: make block reads of the string and buffer stream
 advance

A custom encoding that reads its input with istream::read saw the same
characters again, or always the start of the buffer.
---
 include/configor/details/stream.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/configor/details/stream.hpp b/include/configor/details/stream.hpp
index 6b6788f..812010f 100644
--- a/include/configor/details/stream.hpp
+++ b/include/configor/details/stream.hpp
@@ -294,7 +294,10 @@ protected:
 
     virtual std::streamsize xsgetn(char_type* s, std::streamsize num) override
     {
+        if (index_ >= str_.size())
+            return 0;
         const auto copied = str_.copy(s, static_cast<size_t>(num), index_);
+        index_ += copied;
         return static_cast<std::streamsize>(copied);
     }
 
@@ -336,11 +339,12 @@ protected:
 
     virtual std::streamsize xsgetn(char_type* s, std::streamsize num) override
     {
-        if (index_ + static_cast<size_t>(num) >= size_)
-            num = static_cast<std::streamsize>(size_ - index_);
-        if (num == 0)
+        if (index_ >= size_)
             return 0;
-        traits_type::copy(s, buffer_, static_cast<size_t>(num));
+        if (static_cast<size_t>(num) > size_ - index_)
+            num = static_cast<std::streamsize>(size_ - index_);
+        traits_type::copy(s, buffer_ + index_, static_cast<size_t>(num));
+        index_ += static_cast<size_t>(num);
         return num;
     }
 
-- 
2.43.0


From eb5ad85b05faa0c78748f14ca06022dd4f61fc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 10/22] fix: reject malformed numbers and literals
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A sign without a digit aborted (or gave garbage without assertions), an
exponent sign without a digit was read as zero, and a code point whose low
bits happen to be a digit or a letter was taken for it, as in "tŲue".
---
 include/configor/json.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 7fa4229..b69d2b2 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -336,7 +336,7 @@ public:
     {
         for (const auto ch : text)
         {
-            if (ch != std::char_traits<source_char_type>::to_char_type(current_))
+            if (static_cast<uint32_t>(ch) != current_)
             {
                 detail::fast_ostringstream ss;
                 ss << "unexpected character '" << static_cast<char>(current_) << "'";
@@ -523,7 +523,8 @@ public:
     {
         using integer_type = typename value_type::integer_type;
 
-        CONFIGOR_ASSERT(is_digit(current_));
+        if (!is_digit(current_))
+            fail("invalid number, got", current_);
 
         number_integer_ = static_cast<integer_type>(current_ - '0');
         while (true)
@@ -597,6 +598,9 @@ public:
             read_next();
         }
 
+        if (!is_digit(current_))
+            fail("invalid exponent number, got", current_);
+
         uint32_t exponent = static_cast<uint32_t>(current_ - '0');
         while (is_digit(read_next()))
         {
@@ -638,9 +642,9 @@ public:
         return code;
     }
 
-    inline bool is_digit(source_char_type ch) const
+    inline bool is_digit(uint32_t ch) const
     {
-        return source_char_type('0') <= ch && ch <= source_char_type('9');
+        return '0' <= ch && ch <= '9';
     }
 
     inline void fail(const std::string& msg)
-- 
2.43.0


From 4feb8a4061d990dc2791cfb1a9b02e4217571d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 11/22] fix: reject numbers that do not fit the number types

An integer beyond int64_t wrapped around (signed overflow), a long integral
part of a float did the same, a large exponent wrapped modulo 2^32, and
zero with a large exponent became NaN.
---
 include/configor/json.hpp | 56 ++++++++++++++++++++++++++++++---------
 1 file changed, 43 insertions(+), 13 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index b69d2b2..537815e 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -22,8 +22,10 @@
 #include "configor.hpp"
 
 #include <algorithm>  // std::for_each
+#include <cmath>      // std::fabs, std::isfinite
 #include <iomanip>    // std::setprecision
 #include <ios>        // std::noskipws, std::noshowbase, std::right
+#include <limits>     // std::numeric_limits
 
 namespace configor
 {
@@ -173,11 +175,14 @@ public:
 
     virtual void get_integer(typename value_type::integer_type& out) override
     {
-        out = is_negative_ ? -number_integer_ : number_integer_;
+        out = number_integer_;
     }
 
     virtual void get_float(typename value_type::float_type& out) override
     {
+        if (!std::isfinite(number_float_))
+            fail("float number out of range");
+
         out = is_negative_ ? -number_float_ : number_float_;
     }
 
@@ -497,6 +502,7 @@ public:
     {
         is_negative_    = false;
         number_integer_ = 0;
+        number_float_   = 0;
 
         if (current_ == '-' || current_ == '+')
         {
@@ -522,22 +528,43 @@ public:
     token_type scan_integer()
     {
         using integer_type = typename value_type::integer_type;
+        using float_type   = typename value_type::float_type;
+        using limits       = std::numeric_limits<integer_type>;
 
         if (!is_digit(current_))
             fail("invalid number, got", current_);
 
-        number_integer_ = static_cast<integer_type>(current_ - '0');
-        while (true)
+        bool overflow = false;
+        while (is_digit(current_))
         {
-            const auto ch = read_next();
-            if (ch == '.' || ch == 'e' || ch == 'E')
-                return scan_float();
+            const auto digit = static_cast<integer_type>(current_ - '0');
 
-            if (is_digit(ch))
-                number_integer_ = number_integer_ * 10 + static_cast<integer_type>(ch - '0');
-            else
-                break;
+            if (!overflow)
+            {
+                // apply the sign to every digit, as the lowest integer has no positive counterpart
+                overflow = is_negative_ ? number_integer_ < (limits::min() + digit) / 10
+                                        : number_integer_ > (limits::max() - digit) / 10;
+                if (overflow)
+                    number_float_ = std::fabs(static_cast<float_type>(number_integer_));
+                else
+                    number_integer_ = number_integer_ * 10 + (is_negative_ ? -digit : digit);
+            }
+
+            if (overflow)
+                number_float_ = number_float_ * 10 + static_cast<float_type>(digit);
+
+            read_next();
         }
+
+        if (!overflow)
+            number_float_ = std::fabs(static_cast<float_type>(number_integer_));
+
+        if (current_ == '.' || current_ == 'e' || current_ == 'E')
+            return scan_float();
+
+        if (overflow)
+            fail("integer number out of range");
+
         return token_type::value_integer;
     }
 
@@ -545,8 +572,6 @@ public:
     {
         using float_type = typename value_type::float_type;
 
-        number_float_ = static_cast<float_type>(number_integer_);
-
         if (current_ == 'e' || current_ == 'E')
             return scan_exponent();
 
@@ -604,9 +629,14 @@ public:
         uint32_t exponent = static_cast<uint32_t>(current_ - '0');
         while (is_digit(read_next()))
         {
-            exponent = (exponent * 10) + static_cast<uint32_t>(current_ - '0');
+            // far beyond any representable number
+            if (exponent < 100000000)
+                exponent = (exponent * 10) + static_cast<uint32_t>(current_ - '0');
         }
 
+        if (number_float_ == 0)
+            return token_type::value_float;
+
         float_type power = 1;
         for (; exponent; exponent >>= 1, base *= base)
             if (exponent & 1)
-- 
2.43.0


From 6d44df5eed3337114a34e4feab0846ddc72afe3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 12/22] fix: end comments where they end

A comment ending in "**/" swallowed the rest of the document, an adapter
that ends with NUL inside a comment was read forever, and every comment of
a sequence took another stack frame.
---
 include/configor/json.hpp | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 537815e..5b8cddf 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -277,12 +277,14 @@ public:
 
     void skip_spaces()
     {
-        while (current_ == ' ' || current_ == '\t' || current_ == '\n' || current_ == '\r')
-            read_next();
-
-        // skip comments
-        if (current_ == '/')
+        while (true)
         {
+            while (current_ == ' ' || current_ == '\t' || current_ == '\n' || current_ == '\r')
+                read_next();
+
+            // skip comments
+            if (current_ != '/')
+                break;
             skip_comments();
         }
     }
@@ -299,12 +301,12 @@ public:
                 if (current_ == '\n' || current_ == '\r')
                 {
                     // end of comment
-                    skip_spaces();
                     break;
                 }
 
-                if (this->is_.eof())
+                if (this->is_.eof() || current_ == '\0')
                 {
+                    // end of input
                     break;
                 }
             }
@@ -312,24 +314,22 @@ public:
         else if (current_ == '*')
         {
             // multiple line comment
+            read_next();
             while (true)
             {
-                if (read_next() == '*')
+                if (this->is_.eof() || current_ == '\0')
                 {
-                    if (read_next() == '/')
-                    {
-                        // end of comment
-                        read_next();
-                        break;
-                    }
+                    fail("unexpected eof while reading comment");
                 }
 
-                if (this->is_.eof())
+                const bool is_star = (current_ == '*');
+                if (read_next() == '/' && is_star)
                 {
-                    fail("unexpected eof while reading comment");
+                    // end of comment
+                    read_next();
+                    break;
                 }
             }
-            skip_spaces();
         }
         else
         {
-- 
2.43.0


From 49899daac934f0d429bd56920385602a281f9788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 13/22] fix: do not leak when constructing a value throws

The storage of a string, array or object leaked when its construction threw,
and a value that to_value had already filled leaked when it threw afterwards.
---
 include/configor/details/value.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/configor/details/value.hpp b/include/configor/details/value.hpp
index 97c9bbe..e895d44 100644
--- a/include/configor/details/value.hpp
+++ b/include/configor/details/value.hpp
@@ -156,8 +156,7 @@ public:
               typename std::enable_if<!is_value<_UTy>::value && detail::has_to_value<basic_value, _UTy>::value,
                                       int>::type = 0>
     basic_value(_CompatibleTy&& value)
-        : type_{ value_constant::null }
-        , data_{}
+        : basic_value(nullptr)  // from here on, the destructor cleans up if the conversion throws
     {
         binder_type<_UTy>::to_value(*this, std::forward<_CompatibleTy>(value));
     }
@@ -1103,7 +1102,15 @@ private:
         static allocator_type<_Ty> allocator;
 
         auto ptr = allocator_traits::allocate(allocator, 1);
-        allocator_traits::construct(allocator, ptr, std::forward<_Args>(args)...);
+        try
+        {
+            allocator_traits::construct(allocator, ptr, std::forward<_Args>(args)...);
+        }
+        catch (...)
+        {
+            allocator_traits::deallocate(allocator, ptr, 1);
+            throw;
+        }
         return ptr;
     }
 
-- 
2.43.0


From d8c670d8a09ffa73dd101ec4485dc06af97c02b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 14/22] fix: keep the value valid when a conversion into it
 throws

value_constructor::reset destroyed the old data first, so a throwing
construction left a value that owned freed memory.
---
 include/configor/details/value.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/configor/details/value.hpp b/include/configor/details/value.hpp
index e895d44..e468ce5 100644
--- a/include/configor/details/value.hpp
+++ b/include/configor/details/value.hpp
@@ -1022,9 +1022,11 @@ public:
     template <value_constant::type _Ty, typename... _Args>
     static void reset(value_type& v, _Args&&... args)
     {
-        destroy(v);
-        v.type(_Ty);
-        construct<_Ty>(v, std::forward<_Args>(args)...);
+        // construct first, so that `v` is left unchanged if that throws
+        value_type tmp;
+        construct<_Ty>(tmp, std::forward<_Args>(args)...);
+        tmp.type(_Ty);
+        v.swap(tmp);
     }
 
     template <value_constant::type _Ty, typename... _Args>
-- 
2.43.0


From 566c389d6f50a9139d9d6d847e540dfbf894d7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:15 +0000
Subject: [PATCH 15/22] fix: do not hide an allocation failure in get(value)

get(value) reports a type mismatch by returning false; it also swallowed
std::bad_alloc, so that CONFIGOR_BIND silently left fields out.
---
 include/configor/details/value.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/configor/details/value.hpp b/include/configor/details/value.hpp
index e468ce5..3c36b8e 100644
--- a/include/configor/details/value.hpp
+++ b/include/configor/details/value.hpp
@@ -25,6 +25,7 @@
 #include <cmath>        // std::fabs
 #include <limits>       // std::numeric_limits
 #include <memory>       // std::allocator_traits
+#include <new>          // std::bad_alloc
 #include <sstream>      // std::stringstream
 #include <type_traits>  // std::enable_if, std::is_same, std::is_integral, std::is_floating_point
 #include <utility>      // std::swap, std::forward, std::declval
@@ -661,6 +662,11 @@ public:
             do_get<_Ty>(value, detail::priority<3>{});
             return true;
         }
+        catch (const std::bad_alloc&)
+        {
+            // not a matter of type
+            throw;
+        }
         catch (...)
         {
         }
-- 
2.43.0


From 05422e6058275825102039c0af73e9e1aec86396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:15 +0000
Subject: [PATCH 16/22] fix: clear a map before reading a value into it

As with every other container; old entries survived, and even won over the
ones in the value.
---
 include/configor/details/conversion.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/configor/details/conversion.hpp b/include/configor/details/conversion.hpp
index e3bcba9..218b6db 100644
--- a/include/configor/details/conversion.hpp
+++ b/include/configor/details/conversion.hpp
@@ -449,6 +449,7 @@ template <typename _ValTy, typename _KeyTy, typename _Ty,
                                   int>::type = 0>
 void from_value(const _ValTy& c, std::map<_KeyTy, _Ty>& v)
 {
+    v.clear();
     for (auto iter = c.cbegin(); iter != c.cend(); iter++)
     {
         v.emplace(iter.key(), iter.value().template get<_Ty>());
@@ -474,6 +475,7 @@ template <typename _ValTy, typename _KeyTy, typename _Ty,
                                   int>::type = 0>
 void from_value(const _ValTy& c, std::unordered_map<_KeyTy, _Ty>& v)
 {
+    v.clear();
     for (auto iter = c.cbegin(); iter != c.cend(); iter++)
     {
         v.emplace(iter.key(), iter.value().template get<_Ty>());
-- 
2.43.0


From c8cbcff452e8295169dac377f29fb9c66fbfd8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:50 +0000
Subject: [PATCH 17/22] fix: reject malformed UTF-8

Stray, missing and overlong bytes were accepted; a truncated character
swallowed the quote or bracket that followed it.
---
 include/configor/details/encoding.hpp | 42 +++++++++++++++------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/include/configor/details/encoding.hpp b/include/configor/details/encoding.hpp
index 7ca64fa..954b775 100644
--- a/include/configor/details/encoding.hpp
+++ b/include/configor/details/encoding.hpp
@@ -169,6 +169,11 @@ public:
             0x00000000, 0x00003080, 0x000E2080, 0x03C82080, 0xFA082080, 0x82082080,
         };
 
+        // smallest codepoint that needs as many bytes
+        static const std::array<std::uint32_t, 4> utf8_min_codepoints = {
+            0x00000000, 0x00000080, 0x00000800, 0x00010000,
+        };
+
         // peek one byte and check eof
         const auto first_byte = static_cast<uint8_t>(is.peek());
 
@@ -179,28 +184,27 @@ public:
 
         // read bytes
         const auto extra_bytes_to_read = utf8_extra_bytes[first_byte];
-        switch (extra_bytes_to_read)
+        if (extra_bytes_to_read > 3 || (first_byte & 0xC0) == 0x80)
+        {
+            // not the first byte of a character
+            is.setstate(std::ios_base::failbit);
+            return true;
+        }
+
+        for (std::uint8_t i = 0; i <= extra_bytes_to_read; ++i)
         {
-        case 5:
-            codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
-            codepoint <<= 6;
-        case 4:
-            codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
-            codepoint <<= 6;
-        case 3:
-            codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
-            codepoint <<= 6;
-        case 2:
-            codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
-            codepoint <<= 6;
-        case 1:
-            codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
-            codepoint <<= 6;
-        case 0:
-            codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
+            const auto byte = static_cast<uint8_t>(is.peek());
+            if (!is.good() || (i > 0 && (byte & 0xC0) != 0x80))
+            {
+                // not a byte that continues the character
+                is.setstate(std::ios_base::failbit);
+                return true;
+            }
+            is.get();
+            codepoint = (codepoint << 6) + byte;
         }
         codepoint -= utf8_offsets[extra_bytes_to_read];
-        if (codepoint > 0x10FFFF)
+        if (codepoint > 0x10FFFF || codepoint < utf8_min_codepoints[extra_bytes_to_read])
         {
             is.setstate(std::ios_base::failbit);
         }
-- 
2.43.0


From 2c28a833d34d9ab509962496be2050bffd47a43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:56 +0000
Subject: [PATCH 18/22] fix: read and write strings that have an allocator of
 their own

---
 include/configor/details/stream.hpp | 8 ++++----
 include/configor/json.hpp           | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/configor/details/stream.hpp b/include/configor/details/stream.hpp
index 812010f..43000f3 100644
--- a/include/configor/details/stream.hpp
+++ b/include/configor/details/stream.hpp
@@ -224,14 +224,14 @@ namespace detail
 // ostreambuf
 //
 
-template <typename _CharTy>
+template <typename _CharTy, typename _StringTy = std::basic_string<_CharTy>>
 class fast_string_ostreambuf : public std::basic_streambuf<_CharTy>
 {
 public:
     using char_type   = _CharTy;
     using traits_type = typename std::basic_streambuf<char_type>::traits_type;
     using int_type    = typename std::basic_streambuf<char_type>::int_type;
-    using string_type = std::basic_string<char_type>;
+    using string_type = _StringTy;
 
     explicit fast_string_ostreambuf(string_type& str)
         : str_(str)
@@ -262,14 +262,14 @@ private:
 // istreambuf
 //
 
-template <typename _CharTy>
+template <typename _CharTy, typename _StringTy = std::basic_string<_CharTy>>
 class fast_string_istreambuf : public std::basic_streambuf<_CharTy>
 {
 public:
     using char_type   = _CharTy;
     using traits_type = typename std::basic_streambuf<char_type>::traits_type;
     using int_type    = typename std::basic_streambuf<char_type>::int_type;
-    using string_type = std::basic_string<char_type>;
+    using string_type = _StringTy;
 
     explicit fast_string_istreambuf(const string_type& str)
         : str_(str)
diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 5b8cddf..fefe7a5 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -360,8 +360,8 @@ public:
     {
         CONFIGOR_ASSERT(current_ == '\"');
 
-        detail::fast_string_ostreambuf<target_char_type> buf{ out };
-        std::basic_ostream<target_char_type>             oss{ &buf };
+        detail::fast_string_ostreambuf<target_char_type, typename value_type::string_type> buf{ out };
+        std::basic_ostream<target_char_type>                                               oss{ &buf };
         while (true)
         {
             read_next();
@@ -926,8 +926,8 @@ public:
     {
         output('\"');
 
-        fast_string_istreambuf<source_char_type> buf{ s };
-        std::basic_istream<source_char_type>     iss{ &buf };
+        fast_string_istreambuf<source_char_type, typename value_type::string_type> buf{ s };
+        std::basic_istream<source_char_type>                                       iss{ &buf };
 
         uint32_t codepoint = 0;
         while (this->source_decoder_(iss, codepoint))
-- 
2.43.0


From ffdfb3f734d5480c59a65bfc345fe08cca46a1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:39 +0000
Subject: [PATCH 19/22] fix: construct values from replaced container types

---
 include/configor/details/conversion.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/configor/details/conversion.hpp b/include/configor/details/conversion.hpp
index 218b6db..9ea8751 100644
--- a/include/configor/details/conversion.hpp
+++ b/include/configor/details/conversion.hpp
@@ -97,14 +97,14 @@ void to_value(_ValTy& c, const _Ty& v)
 
 template <typename _ValTy, typename _Ty,
           typename std::enable_if<std::is_same<_Ty, typename _ValTy::array_type>::value, int>::type = 0>
-void to_value(_ValTy& c, _Ty& v)
+void to_value(_ValTy& c, const _Ty& v)
 {
     value_constructor<_ValTy>::template reset<value_constant::array>(c, v);
 }
 
 template <typename _ValTy, typename _Ty,
           typename std::enable_if<std::is_same<_Ty, typename _ValTy::object_type>::value, int>::type = 0>
-void to_value(_ValTy& c, _Ty& v)
+void to_value(_ValTy& c, const _Ty& v)
 {
     value_constructor<_ValTy>::template reset<value_constant::object>(c, v);
 }
-- 
2.43.0


From dd0e17dd3c2e9bfbf6e9f3134271417e779efb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:51 +0000
Subject: [PATCH 20/22] fix: read numbers with the accuracy of the float type

---
 include/configor/json.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index fefe7a5..26784e4 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -580,7 +580,7 @@ public:
         if (!is_digit(read_next()))
             fail("invalid float number, got", current_);
 
-        float_type fraction = static_cast<float_type>(0.1);
+        float_type fraction = float_type(1) / 10;
         number_float_ += static_cast<float_type>(static_cast<uint32_t>(current_ - '0')) * fraction;
 
         while (true)
@@ -591,7 +591,7 @@ public:
 
             if (is_digit(ch))
             {
-                fraction *= static_cast<float_type>(0.1);
+                fraction *= float_type(1) / 10;
                 number_float_ += static_cast<float_type>(static_cast<uint32_t>(current_ - '0')) * fraction;
             }
             else
@@ -619,7 +619,7 @@ public:
         }
         else if (current_ == '-')
         {
-            base = static_cast<float_type>(0.1);
+            base = float_type(1) / 10;
             read_next();
         }
 
-- 
2.43.0


From cb9abb41587e12f7dbba40c0170e49a1ff6d412f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:19 +0000
Subject: [PATCH 21/22] fix: refuse wide units that are no UTF-8 or UTF-16
 units instead of truncating them

---
 include/configor/details/encoding.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/configor/details/encoding.hpp b/include/configor/details/encoding.hpp
index 954b775..5099b9f 100644
--- a/include/configor/details/encoding.hpp
+++ b/include/configor/details/encoding.hpp
@@ -175,7 +175,7 @@ public:
         };
 
         // peek one byte and check eof
-        const auto first_byte = static_cast<uint8_t>(is.peek());
+        const auto first_byte = static_cast<uint32_t>(is.peek());
 
         if (is.eof())
             return false;
@@ -183,7 +183,7 @@ public:
         codepoint = 0;
 
         // read bytes
-        const auto extra_bytes_to_read = utf8_extra_bytes[first_byte];
+        const auto extra_bytes_to_read = first_byte <= 0xFF ? utf8_extra_bytes[first_byte] : std::uint8_t{ 4 };
         if (extra_bytes_to_read > 3 || (first_byte & 0xC0) == 0x80)
         {
             // not the first byte of a character
@@ -193,8 +193,8 @@ public:
 
         for (std::uint8_t i = 0; i <= extra_bytes_to_read; ++i)
         {
-            const auto byte = static_cast<uint8_t>(is.peek());
-            if (!is.good() || (i > 0 && (byte & 0xC0) != 0x80))
+            const auto byte = static_cast<uint32_t>(is.peek());
+            if (!is.good() || (i > 0 && (byte & ~0x3Fu) != 0x80))
             {
                 // not a byte that continues the character
                 is.setstate(std::ios_base::failbit);
@@ -244,15 +244,22 @@ public:
 
     static bool decode(istream_type& is, uint32_t& codepoint)
     {
-        codepoint = static_cast<uint32_t>(static_cast<uint16_t>(is.get()));
+        codepoint = static_cast<uint32_t>(is.get());
 
         if (is.eof())
             return false;
 
+        if (codepoint > 0xFFFF)
+        {
+            // not a 16-bit unit
+            is.setstate(std::ios_base::failbit);
+            return true;
+        }
+
         if (unicode::is_lead_surrogate(codepoint))
         {
             uint32_t lead_surrogate  = codepoint;
-            uint32_t trail_surrogate = static_cast<uint32_t>(static_cast<uint16_t>(is.get()));
+            uint32_t trail_surrogate = static_cast<uint32_t>(is.get());
 
             if (unicode::is_trail_surrogate(trail_surrogate))
             {
-- 
2.43.0


From 0aee12ec671cb1484cda457cf3e69b44aedf70f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:23 +0000
Subject: [PATCH 22/22] fix: refuse a string with a unit that streams take for
 their end instead of cutting it short

---
 include/configor/json.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 26784e4..0c3c311 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -924,8 +924,19 @@ public:
 
     virtual void put_string(const typename value_type::string_type& s) override
     {
+        using source_traits = std::char_traits<source_char_type>;
+
         output('\"');
 
+        // a character that a stream cannot tell from its end
+        for (std::size_t i = 0; i < s.size(); ++i)
+        {
+            if (source_traits::eq_int_type(source_traits::to_int_type(s[i]), source_traits::eof()))
+            {
+                fail("unexpected character", static_cast<uint32_t>(s[i]));
+            }
+        }
+
         fast_string_istreambuf<source_char_type, typename value_type::string_type> buf{ s };
         std::basic_istream<source_char_type>                                       iss{ &buf };
 
-- 
2.43.0

