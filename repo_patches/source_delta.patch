From b6e16328bfc0e86bd364254be4b493b168d1e44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 01/15] fix: report numbers that are out of range as
 SyntaxError

---
 libhext/ragel/Parser.cpp.rl   | 12 ++++++++++++
 libhext/ragel/hext-machine.rl |  8 ++++----
 libhext/src/Parser.cpp        | 34 +++++++++++++++++++++++-----------
 libhext/src/Parser.h          |  4 ++++
 4 files changed, 43 insertions(+), 15 deletions(-)

diff --git a/libhext/ragel/Parser.cpp.rl b/libhext/ragel/Parser.cpp.rl
index b0c7523..25128b7 100644
--- a/libhext/ragel/Parser.cpp.rl
+++ b/libhext/ragel/Parser.cpp.rl
@@ -48,6 +48,8 @@
 
 #include <vector>
 #include <sstream>
+#include <stdexcept>
+#include <string>
 #include <utility>
 #include <algorithm>
 
@@ -336,6 +338,16 @@ void Parser::validate_close_tag_or_throw(const std::string& tag_name)
   }
 }
 
+int Parser::parse_int_or_throw(const std::string& number) const
+{
+  try {
+    return std::stoi(number);
+  }
+  catch( const std::out_of_range& ) {
+    this->throw_error_message("Number '" + number + "' is out of range");
+  }
+}
+
 void Parser::throw_unexpected() const
 {
   assert(this->p && this->p_begin_ && this->pe);
diff --git a/libhext/ragel/hext-machine.rl b/libhext/ragel/hext-machine.rl
index 9b9502f..a2bb61c 100644
--- a/libhext/ragel/hext-machine.rl
+++ b/libhext/ragel/hext-machine.rl
@@ -70,13 +70,13 @@ nth_pattern = (
 
   ( ( ( '-'? [0-9]+ )
       >{ tk_start(); }
-      %{ tk_stop(); pv.nth = {0, std::stoi(tok)}; }
+      %{ tk_stop(); pv.nth = {0, parse_int_or_throw(tok)}; }
     )
     ( 'n'
       %{ pv.nth = {pv.nth.second, 0}; }
       ( ( ('+'|'-') [0-9]+ )
         >{ tk_start(); }
-        %{ tk_stop(); pv.nth.second = std::stoi(tok); }
+        %{ tk_stop(); pv.nth.second = parse_int_or_throw(tok); }
       )?
     )?
   )
@@ -120,14 +120,14 @@ trait = ':' (
   ( 'child-count('
     ( [0-9]+
       >{ tk_start(); }
-      %{ tk_stop(); pv.set_trait<ChildCountMatch>(std::stoi(tok)); } )
+      %{ tk_stop(); pv.set_trait<ChildCountMatch>(parse_int_or_throw(tok)); } )
     ')' )
   |
 
   ( 'attribute-count('
     ( [0-9]+
       >{ tk_start(); }
-      %{ tk_stop(); pv.set_trait<AttributeCountMatch>(std::stoi(tok)); } )
+      %{ tk_stop(); pv.set_trait<AttributeCountMatch>(parse_int_or_throw(tok)); } )
     ')' )
   |
 
diff --git a/libhext/src/Parser.cpp b/libhext/src/Parser.cpp
index b299e10..f416937 100644
--- a/libhext/src/Parser.cpp
+++ b/libhext/src/Parser.cpp
@@ -51,6 +51,8 @@
 
 #include <vector>
 #include <sstream>
+#include <stdexcept>
+#include <string>
 #include <utility>
 #include <algorithm>
 
@@ -64,7 +66,7 @@ namespace hext {
 namespace ragel {
   /// Embed the ragel state machine.
   
-#line 67 "Parser.cpp.tmp"
+#line 66 "Parser.cpp.tmp"
 static const char _hext_actions[] = {
 	0, 1, 2, 1, 3, 1, 4, 1, 
 	5, 1, 6, 1, 7, 1, 8, 1, 
@@ -1758,7 +1760,7 @@ static const int hext_error = 0;
 static const int hext_en_main = 816;
 
 
-#line 67 "Parser.cpp.rl"
+#line 69 "Parser.cpp.rl"
 
 } // namespace ragel
 
@@ -1830,12 +1832,12 @@ Rule Parser::parse()
 #endif
 #endif
   
-#line 1833 "Parser.cpp.tmp"
+#line 1828 "Parser.cpp.tmp"
 	{
 	cs = hext_start;
 	}
 
-#line 1838 "Parser.cpp.tmp"
+#line 1831 "Parser.cpp.tmp"
 	{
 	int _klen;
 	unsigned int _trans;
@@ -1971,7 +1973,7 @@ _match:
 	break;
 	case 15:
 #line 73 "hext-machine.rl"
-	{ tk_stop(); pv.nth = {0, std::stoi(tok)}; }
+	{ tk_stop(); pv.nth = {0, parse_int_or_throw(tok)}; }
 	break;
 	case 16:
 #line 76 "hext-machine.rl"
@@ -1983,7 +1985,7 @@ _match:
 	break;
 	case 18:
 #line 79 "hext-machine.rl"
-	{ tk_stop(); pv.nth.second = std::stoi(tok); }
+	{ tk_stop(); pv.nth.second = parse_int_or_throw(tok); }
 	break;
 	case 19:
 #line 88 "hext-machine.rl"
@@ -2043,7 +2045,7 @@ _match:
 	break;
 	case 31:
 #line 123 "hext-machine.rl"
-	{ tk_stop(); pv.set_trait<ChildCountMatch>(std::stoi(tok)); }
+	{ tk_stop(); pv.set_trait<ChildCountMatch>(parse_int_or_throw(tok)); }
 	break;
 	case 32:
 #line 129 "hext-machine.rl"
@@ -2051,7 +2053,7 @@ _match:
 	break;
 	case 33:
 #line 130 "hext-machine.rl"
-	{ tk_stop(); pv.set_trait<AttributeCountMatch>(std::stoi(tok)); }
+	{ tk_stop(); pv.set_trait<AttributeCountMatch>(parse_int_or_throw(tok)); }
 	break;
 	case 34:
 #line 135 "hext-machine.rl"
@@ -2283,7 +2285,7 @@ _match:
 #line 360 "hext-machine.rl"
 	{ this->throw_unexpected(); }
 	break;
-#line 2286 "Parser.cpp.tmp"
+#line 2189 "Parser.cpp.tmp"
 		}
 	}
 
@@ -2315,7 +2317,7 @@ _again:
 #line 360 "hext-machine.rl"
 	{ this->throw_unexpected(); }
 	break;
-#line 2318 "Parser.cpp.tmp"
+#line 2216 "Parser.cpp.tmp"
 		}
 	}
 	}
@@ -2323,7 +2325,7 @@ _again:
 	_out: {}
 	}
 
-#line 142 "Parser.cpp.rl"
+#line 144 "Parser.cpp.rl"
 
 #ifndef _MSC_VER
 #pragma GCC diagnostic pop
@@ -2521,6 +2523,16 @@ void Parser::validate_close_tag_or_throw(const std::string& tag_name)
   }
 }
 
+int Parser::parse_int_or_throw(const std::string& number) const
+{
+  try {
+    return std::stoi(number);
+  }
+  catch( const std::out_of_range& ) {
+    this->throw_error_message("Number '" + number + "' is out of range");
+  }
+}
+
 void Parser::throw_unexpected() const
 {
   assert(this->p && this->p_begin_ && this->pe);
diff --git a/libhext/src/Parser.h b/libhext/src/Parser.h
index c44f4fc..d1cd47b 100644
--- a/libhext/src/Parser.h
+++ b/libhext/src/Parser.h
@@ -93,6 +93,10 @@ private:
   /// does not equal the tag from the top most rule.
   void validate_close_tag_or_throw(const std::string& tag_name);
 
+  /// Converts a decimal number to int. Throws SyntaxError if the number cannot
+  /// be represented.
+  int parse_int_or_throw(const std::string& number) const;
+
   /// Throws SyntaxError with an error message marking an unexpected character.
   [[noreturn]]
   void throw_unexpected() const;
-- 
2.43.0


From 0e26fb9faa1652eea7dd1a4cb4cdcfe4031d907f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 02/15] fix: regex flags no longer carry over to later regexes
 of the same pattern

---
 libhext/ragel/hext-machine.rl |   2 +
 libhext/src/Parser.cpp        | 136 +++++++++++++++++-----------------
 2 files changed, 71 insertions(+), 67 deletions(-)

diff --git a/libhext/ragel/hext-machine.rl b/libhext/ragel/hext-machine.rl
index a2bb61c..e975e47 100644
--- a/libhext/ragel/hext-machine.rl
+++ b/libhext/ragel/hext-machine.rl
@@ -101,6 +101,8 @@ regex = (
 )*
 %{ try {
      pv.regex = boost::regex(tok, pv.regex_flag);
+     // The flags belong to this regex only.
+     pv.regex_flag = boost::regex::perl;
    }
    catch( const boost::regex_error& e ) {
      // Mark whole regex as error, including slashes and flags
diff --git a/libhext/src/Parser.cpp b/libhext/src/Parser.cpp
index f416937..6762387 100644
--- a/libhext/src/Parser.cpp
+++ b/libhext/src/Parser.cpp
@@ -2023,6 +2023,8 @@ _match:
 #line 102 "hext-machine.rl"
 	{ try {
      pv.regex = boost::regex(tok, pv.regex_flag);
+     // The flags belong to this regex only.
+     pv.regex_flag = boost::regex::perl;
    }
    catch( const boost::regex_error& e ) {
      // Mark whole regex as error, including slashes and flags
@@ -2032,179 +2034,179 @@ _match:
 }
 	break;
 	case 28:
-#line 112 "hext-machine.rl"
+#line 114 "hext-machine.rl"
 	{ assert(pv.regex); pv.set_test<RegexTest>(*pv.regex); }
 	break;
 	case 29:
-#line 117 "hext-machine.rl"
+#line 119 "hext-machine.rl"
 	{ pv.set_trait<ChildCountMatch>(0); }
 	break;
 	case 30:
-#line 122 "hext-machine.rl"
+#line 124 "hext-machine.rl"
 	{ tk_start(); }
 	break;
 	case 31:
-#line 123 "hext-machine.rl"
+#line 125 "hext-machine.rl"
 	{ tk_stop(); pv.set_trait<ChildCountMatch>(parse_int_or_throw(tok)); }
 	break;
 	case 32:
-#line 129 "hext-machine.rl"
+#line 131 "hext-machine.rl"
 	{ tk_start(); }
 	break;
 	case 33:
-#line 130 "hext-machine.rl"
+#line 132 "hext-machine.rl"
 	{ tk_stop(); pv.set_trait<AttributeCountMatch>(parse_int_or_throw(tok)); }
 	break;
 	case 34:
-#line 135 "hext-machine.rl"
+#line 137 "hext-machine.rl"
 	{ pv.set_trait<NthChildMatch>(pv.nth); }
 	break;
 	case 35:
-#line 139 "hext-machine.rl"
+#line 141 "hext-machine.rl"
 	{ pv.set_trait<NthChildMatch>(pv.nth, NthChildMatch::Last); }
 	break;
 	case 36:
-#line 143 "hext-machine.rl"
+#line 145 "hext-machine.rl"
 	{ pv.set_trait<NthChildMatch>(pv.nth, NthChildMatch::First|NthChildMatch::OfType); }
 	break;
 	case 37:
-#line 147 "hext-machine.rl"
+#line 149 "hext-machine.rl"
 	{ pv.set_trait<NthChildMatch>(0, 1); }
 	break;
 	case 38:
-#line 151 "hext-machine.rl"
+#line 153 "hext-machine.rl"
 	{ pv.set_trait<NthChildMatch>(0, 1, NthChildMatch::First|NthChildMatch::OfType); }
 	break;
 	case 39:
-#line 155 "hext-machine.rl"
+#line 157 "hext-machine.rl"
 	{ pv.set_trait<NthChildMatch>(0, 1, NthChildMatch::Last); }
 	break;
 	case 40:
-#line 159 "hext-machine.rl"
+#line 161 "hext-machine.rl"
 	{ pv.set_trait<NthChildMatch>(0, 1, NthChildMatch::Last|NthChildMatch::OfType); }
 	break;
 	case 41:
-#line 163 "hext-machine.rl"
+#line 165 "hext-machine.rl"
 	{ pv.set_trait<NthChildMatch>(pv.nth, NthChildMatch::Last|NthChildMatch::OfType); }
 	break;
 	case 42:
-#line 166 "hext-machine.rl"
+#line 168 "hext-machine.rl"
 	{ pv.set_trait<OnlyChildMatch>(); }
 	break;
 	case 43:
-#line 169 "hext-machine.rl"
+#line 171 "hext-machine.rl"
 	{ pv.set_trait<OnlyChildMatch>(OnlyChildMatch::OfType); }
 	break;
 	case 44:
-#line 173 "hext-machine.rl"
+#line 175 "hext-machine.rl"
 	{ pv.set_trait<TypeRegexMatch>(*pv.regex); }
 	break;
 	case 45:
-#line 177 "hext-machine.rl"
+#line 179 "hext-machine.rl"
 	{ pv.negate = std::make_unique<NegateMatch>(); }
 	break;
 	case 46:
-#line 180 "hext-machine.rl"
+#line 182 "hext-machine.rl"
 	{
        assert(pv.negate);
        pv.negate->append_match(std::move(pv.trait));
      }
 	break;
 	case 47:
-#line 191 "hext-machine.rl"
+#line 193 "hext-machine.rl"
 	{ pv.builtin = TextBuiltin; }
 	break;
 	case 48:
-#line 193 "hext-machine.rl"
+#line 195 "hext-machine.rl"
 	{ pv.builtin = InnerHtmlBuiltin; }
 	break;
 	case 49:
-#line 195 "hext-machine.rl"
+#line 197 "hext-machine.rl"
 	{ pv.builtin = StripTagsBuiltin; }
 	break;
 	case 50:
-#line 203 "hext-machine.rl"
+#line 205 "hext-machine.rl"
 	{ pv.add_pipe<TrimPipe>(); }
 	break;
 	case 51:
-#line 205 "hext-machine.rl"
+#line 207 "hext-machine.rl"
 	{ pv.add_pipe<TrimPipe>(pv.literal_value); }
 	break;
 	case 52:
-#line 207 "hext-machine.rl"
+#line 209 "hext-machine.rl"
 	{ pv.add_pipe<CollapseWsPipe>(); }
 	break;
 	case 53:
-#line 209 "hext-machine.rl"
+#line 211 "hext-machine.rl"
 	{ pv.add_pipe<CasePipe>(); }
 	break;
 	case 54:
-#line 211 "hext-machine.rl"
+#line 213 "hext-machine.rl"
 	{ pv.add_pipe<CasePipe>(CasePipe::ToUpper); }
 	break;
 	case 55:
-#line 213 "hext-machine.rl"
+#line 215 "hext-machine.rl"
 	{ pv.add_pipe<PrependPipe>(pv.literal_value); }
 	break;
 	case 56:
-#line 215 "hext-machine.rl"
+#line 217 "hext-machine.rl"
 	{ pv.add_pipe<AppendPipe>(pv.literal_value); }
 	break;
 	case 57:
-#line 217 "hext-machine.rl"
+#line 219 "hext-machine.rl"
 	{ pv.add_pipe<RegexPipe>(*pv.regex); }
 	break;
 	case 58:
-#line 220 "hext-machine.rl"
+#line 222 "hext-machine.rl"
 	{ pv.add_pipe<RegexReplacePipe>(*pv.regex, pv.literal_value); }
 	break;
 	case 59:
-#line 226 "hext-machine.rl"
+#line 228 "hext-machine.rl"
 	{ pv.cap_var = pv.literal_value; }
 	break;
 	case 60:
-#line 228 "hext-machine.rl"
+#line 230 "hext-machine.rl"
 	{ tk_start(); }
 	break;
 	case 61:
-#line 229 "hext-machine.rl"
+#line 231 "hext-machine.rl"
 	{ tk_stop(); pv.cap_var = tok; }
 	break;
 	case 62:
-#line 236 "hext-machine.rl"
+#line 238 "hext-machine.rl"
 	{ pv.set_test<ContainsWordsTest>(pv.literal_value); }
 	break;
 	case 63:
-#line 239 "hext-machine.rl"
+#line 241 "hext-machine.rl"
 	{ pv.set_test<EqualsTest>(pv.literal_value); }
 	break;
 	case 64:
-#line 242 "hext-machine.rl"
+#line 244 "hext-machine.rl"
 	{ pv.set_test<BeginsWithTest>(pv.literal_value); }
 	break;
 	case 65:
-#line 245 "hext-machine.rl"
+#line 247 "hext-machine.rl"
 	{ pv.set_test<ContainsTest>(pv.literal_value); }
 	break;
 	case 66:
-#line 248 "hext-machine.rl"
+#line 250 "hext-machine.rl"
 	{ pv.set_test<EndsWithTest>(pv.literal_value); }
 	break;
 	case 67:
-#line 256 "hext-machine.rl"
+#line 258 "hext-machine.rl"
 	{ cur_rule().append_capture<FunctionCapture>(
              pv.builtin, pv.cap_var, std::move(pv.pipe)); }
 	break;
 	case 68:
-#line 261 "hext-machine.rl"
+#line 263 "hext-machine.rl"
 	{ cur_rule().append_match<FunctionValueMatch>(pv.builtin, std::move(pv.test)); }
 	break;
 	case 69:
-#line 265 "hext-machine.rl"
+#line 267 "hext-machine.rl"
 	{ cur_rule().append_match<FunctionValueMatch>(pv.builtin, std::move(pv.test)); }
 	break;
 	case 70:
-#line 269 "hext-machine.rl"
+#line 271 "hext-machine.rl"
 	{ cur_rule().append_capture<AttributeCapture>(
              pv.attr_name, pv.cap_var, std::move(pv.pipe));
          if( !pv.optional )
@@ -2212,80 +2214,80 @@ _match:
        }
 	break;
 	case 71:
-#line 277 "hext-machine.rl"
+#line 279 "hext-machine.rl"
 	{ cur_rule().append_match<AttributeMatch>(pv.attr_name, std::move(pv.test)); }
 	break;
 	case 72:
-#line 281 "hext-machine.rl"
+#line 283 "hext-machine.rl"
 	{ cur_rule().append_match<AttributeMatch>(pv.attr_name, std::move(pv.test)); }
 	break;
 	case 73:
-#line 285 "hext-machine.rl"
+#line 287 "hext-machine.rl"
 	{ pv.test = nullptr; }
 	break;
 	case 74:
-#line 288 "hext-machine.rl"
+#line 290 "hext-machine.rl"
 	{ cur_rule().append_match<AttributeMatch>(pv.attr_name, std::move(pv.test)); }
 	break;
 	case 75:
-#line 289 "hext-machine.rl"
+#line 291 "hext-machine.rl"
 	{ pv.reset(); }
 	break;
 	case 76:
-#line 299 "hext-machine.rl"
+#line 301 "hext-machine.rl"
 	{ push_rule(); }
 	break;
 	case 77:
-#line 304 "hext-machine.rl"
+#line 306 "hext-machine.rl"
 	{ cur_rule().set_optional(true); }
 	break;
 	case 78:
-#line 308 "hext-machine.rl"
+#line 310 "hext-machine.rl"
 	{ cur_rule().set_greedy(true); }
 	break;
 	case 79:
-#line 312 "hext-machine.rl"
+#line 314 "hext-machine.rl"
 	{ tk_start(); }
 	break;
 	case 80:
-#line 313 "hext-machine.rl"
+#line 315 "hext-machine.rl"
 	{ tk_stop(); set_open_tag_or_throw(tok); }
 	break;
 	case 81:
-#line 316 "hext-machine.rl"
+#line 318 "hext-machine.rl"
 	{ cur_rule().append_match(std::move(pv.negate)); }
 	break;
 	case 82:
-#line 319 "hext-machine.rl"
+#line 321 "hext-machine.rl"
 	{ cur_rule().append_match(std::move(pv.trait)); }
 	break;
 	case 83:
-#line 327 "hext-machine.rl"
+#line 329 "hext-machine.rl"
 	{ pop_rule(); }
 	break;
 	case 84:
-#line 334 "hext-machine.rl"
+#line 336 "hext-machine.rl"
 	{ tk_start(); }
 	break;
 	case 85:
-#line 335 "hext-machine.rl"
+#line 337 "hext-machine.rl"
 	{ tk_stop();
                             validate_close_tag_or_throw(tok);
                             pop_rule(); }
 	break;
 	case 86:
-#line 352 "hext-machine.rl"
+#line 354 "hext-machine.rl"
 	{ push_nested(); }
 	break;
 	case 87:
-#line 356 "hext-machine.rl"
+#line 358 "hext-machine.rl"
 	{ pop_nested(); }
 	break;
 	case 88:
-#line 360 "hext-machine.rl"
+#line 362 "hext-machine.rl"
 	{ this->throw_unexpected(); }
 	break;
-#line 2189 "Parser.cpp.tmp"
+#line 2191 "Parser.cpp.tmp"
 		}
 	}
 
@@ -2302,22 +2304,22 @@ _again:
 	while ( __nacts-- > 0 ) {
 		switch ( *__acts++ ) {
 	case 83:
-#line 327 "hext-machine.rl"
+#line 329 "hext-machine.rl"
 	{ pop_rule(); }
 	break;
 	case 86:
-#line 352 "hext-machine.rl"
+#line 354 "hext-machine.rl"
 	{ push_nested(); }
 	break;
 	case 87:
-#line 356 "hext-machine.rl"
+#line 358 "hext-machine.rl"
 	{ pop_nested(); }
 	break;
 	case 88:
-#line 360 "hext-machine.rl"
+#line 362 "hext-machine.rl"
 	{ this->throw_unexpected(); }
 	break;
-#line 2216 "Parser.cpp.tmp"
+#line 2218 "Parser.cpp.tmp"
 		}
 	}
 	}
-- 
2.43.0


From 0587104c6a2fd6a449815a5f3328270676bdb350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 03/15] fix: assigning captures without pipe no longer
 dereferences null

---
 libhext/src/AttributeCapture.cpp | 2 +-
 libhext/src/FunctionCapture.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libhext/src/AttributeCapture.cpp b/libhext/src/AttributeCapture.cpp
index 8631433..c772099 100644
--- a/libhext/src/AttributeCapture.cpp
+++ b/libhext/src/AttributeCapture.cpp
@@ -43,7 +43,7 @@ AttributeCapture& AttributeCapture::operator=(const AttributeCapture& other)
   {
     this->attr_name_ = other.attr_name_;
     this->name_ = other.name_;
-    this->pipe_ = other.pipe_->clone();
+    this->pipe_ = other.pipe_ ? other.pipe_->clone() : nullptr;
   }
 
   return *this;
diff --git a/libhext/src/FunctionCapture.cpp b/libhext/src/FunctionCapture.cpp
index a3b0d0b..dd60108 100644
--- a/libhext/src/FunctionCapture.cpp
+++ b/libhext/src/FunctionCapture.cpp
@@ -43,7 +43,7 @@ FunctionCapture& FunctionCapture::operator=(const FunctionCapture& other)
   {
     this->func_ = other.func_;
     this->name_ = other.name_;
-    this->pipe_ = other.pipe_->clone();
+    this->pipe_ = other.pipe_ ? other.pipe_->clone() : nullptr;
   }
 
   return *this;
-- 
2.43.0


From cd261c7f68e637a173eabd8186f3b39f8d11c837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 04/15] fix: moving a document transfers the ownership of its
 parse tree

---
 libhext/include/hext/Html.h |  4 ++--
 libhext/src/Html.cpp        | 13 +++++++++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/libhext/include/hext/Html.h b/libhext/include/hext/Html.h
index bbee510..c71e201 100644
--- a/libhext/include/hext/Html.h
+++ b/libhext/include/hext/Html.h
@@ -64,8 +64,8 @@ public:
   Html(const char * buffer, std::size_t size) noexcept;
 
   ~Html() noexcept;
-  Html(Html&&) noexcept = default;
-  Html& operator=(Html&&) noexcept = default;
+  Html(Html&& other) noexcept;
+  Html& operator=(Html&& other) noexcept;
 
   /// Returns a non-owning pointer to the root node of the HTML document.
   ///
diff --git a/libhext/src/Html.cpp b/libhext/src/Html.cpp
index 553ce7c..24a8702 100644
--- a/libhext/src/Html.cpp
+++ b/libhext/src/Html.cpp
@@ -15,6 +15,7 @@
 #include "hext/Html.h"
 
 #include <cstring>
+#include <utility>
 
 
 namespace hext {
@@ -42,6 +43,18 @@ Html::~Html() noexcept
     gumbo_destroy_output(&kGumboDefaultOptions, this->g_outp_);
 }
 
+Html::Html(Html&& other) noexcept
+: g_outp_(std::exchange(other.g_outp_, nullptr))
+{
+}
+
+Html& Html::operator=(Html&& other) noexcept
+{
+  Html tmp(std::move(other));
+  std::swap(this->g_outp_, tmp.g_outp_);
+  return *this;
+}
+
 const GumboNode * Html::root() const noexcept
 {
   return this->g_outp_ ? this->g_outp_->root : nullptr;
-- 
2.43.0


From 43f20364150913e3b9ee3e547c1cbe7b3a8103f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 05/15] fix: NextNode no longer dereferences the missing parent
 of a document node

---
 libhext/src/NodeUtil.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libhext/src/NodeUtil.cpp b/libhext/src/NodeUtil.cpp
index 5328b8e..74a8ab3 100644
--- a/libhext/src/NodeUtil.cpp
+++ b/libhext/src/NodeUtil.cpp
@@ -304,7 +304,8 @@ bool TagWrapsText(GumboTag tag) noexcept
 
 const GumboNode * NextNode(const GumboNode * node) noexcept
 {
-  if( !node || node->parent->type != GUMBO_NODE_ELEMENT )
+  // The document node has no parent
+  if( !node || !node->parent || node->parent->type != GUMBO_NODE_ELEMENT )
     return nullptr;
 
   const GumboNode * parent = node->parent;
-- 
2.43.0


From 48b8df3d86e76799569aacbf981fecddb32135a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 06/15] fix: CharName no longer calls isprint with negative
 values

---
 libhext/src/StringUtil.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libhext/src/StringUtil.cpp b/libhext/src/StringUtil.cpp
index d9bcc3a..6b272c7 100644
--- a/libhext/src/StringUtil.cpp
+++ b/libhext/src/StringUtil.cpp
@@ -100,7 +100,8 @@ std::string CharName(char c)
   }
 
   int ci = c;
-  if( std::isprint(ci) )
+  // std::isprint is undefined for negative values
+  if( std::isprint(static_cast<unsigned char>(c)) )
     return std::string(1, c);
   else
     return std::string("[ascii: ") + std::to_string(ci) + "]";
-- 
2.43.0


From 6ab7aa0d5b7b9f2b3901b047877a380dcc0d90e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:51 +0000
Subject: [PATCH 07/15] fix: nth-child arithmetic no longer overflows

---
 libhext/src/NthChildMatch.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/libhext/src/NthChildMatch.cpp b/libhext/src/NthChildMatch.cpp
index 6c266e8..a7b0a15 100644
--- a/libhext/src/NthChildMatch.cpp
+++ b/libhext/src/NthChildMatch.cpp
@@ -15,6 +15,7 @@
 #include "hext/NthChildMatch.h"
 
 #include <cassert>
+#include <cstdint>
 
 
 namespace hext {
@@ -47,7 +48,11 @@ bool NthChildMatch::matches(const GumboNode * node) const noexcept
   if( this->options_ & Option::OfType )
     count_tag = static_cast<HtmlTag>(node->v.element.tag);
 
-  int node_pos = 0;
+  // Use a type that can hold the difference of any two ints.
+  const std::int64_t step = this->step_;
+  const std::int64_t shift = this->shift_;
+
+  std::int64_t node_pos = 0;
   if( this->options_ & Option::First )
     node_pos = this->count_preceding_siblings(node, count_tag);
   else
@@ -55,28 +60,28 @@ bool NthChildMatch::matches(const GumboNode * node) const noexcept
 
   // If step is zero, the user gave a specific number of the child element to
   // match. E.g. nth-child(23) or nth-child(0n+23).
-  if( !this->step_ )
-    return node_pos == this->shift_;
+  if( !step )
+    return node_pos == shift;
 
-  if( this->step_ > 0 )
+  if( step > 0 )
   {
     // If step is positive, but the node is positioned before the shift, it
     // cannot possibly match.
-    if( node_pos < this->shift_ )
+    if( node_pos < shift )
       return false;
 
     // If step is positive, and the node is positioned after or equal to the
     // shift it must be a multiple of step, or it doesn't match.
-    return ( node_pos - this->shift_ ) % this->step_ == 0;
+    return ( node_pos - shift ) % step == 0;
   }
   else
   {
     // Since step is negative, the node must be positioned before or equal to
     // the shift.
-    if( node_pos > this->shift_ )
+    if( node_pos > shift )
       return false;
 
-    return ( this->shift_ - node_pos ) % ( -1 * this->step_ ) == 0;
+    return ( shift - node_pos ) % ( -1 * step ) == 0;
   }
 }
 
-- 
2.43.0


From d4eeede0670af3eedabb22e28a961c3098a9c73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:51 +0000
Subject: [PATCH 08/15] fix: report read errors instead of treating unreadable
 files as empty

---
 htmlext/htmlext/File.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/htmlext/htmlext/File.cpp b/htmlext/htmlext/File.cpp
index e014da2..928c32b 100644
--- a/htmlext/htmlext/File.cpp
+++ b/htmlext/htmlext/File.cpp
@@ -14,8 +14,8 @@
 
 #include "htmlext/File.h"
 
+#include <cstddef>
 #include <fstream>
-#include <sstream>
 // strerror_r, strerror_s are not part of the C++ stdlib
 #include <string.h>
 
@@ -77,15 +77,17 @@ std::string ReadFileOrThrow(const std::string& path)
       );
   }
 
-  std::stringstream buffer;
-  buffer << file.rdbuf();
+  std::string contents;
+  char chunk[4096];
+  while( file.read(chunk, sizeof(chunk)) || file.gcount() )
+    contents.append(chunk, static_cast<std::size_t>(file.gcount()));
 
-  if( file.fail() )
+  if( file.bad() )
     throw FileError(
       "cannot read '" + path + "': " + StrError(errno)
     );
 
-  return buffer.str();
+  return contents;
 }
 
 
-- 
2.43.0


From 24a5b72cf69d47edd08a82463d15c37c4a85e7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:51 +0000
Subject: [PATCH 09/15] fix: htmlext exits with failure if its output cannot be
 written

---
 htmlext/main.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/htmlext/main.cpp b/htmlext/main.cpp
index c4049c3..a85c768 100644
--- a/htmlext/main.cpp
+++ b/htmlext/main.cpp
@@ -25,10 +25,25 @@
 #include <ios>
 #include <iostream>
 #include <memory>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
 
+namespace {
+
+
+/// Throws if anything written to standard output did not get there.
+void FlushStdoutOrThrow()
+{
+  if( !std::cout.flush() )
+    throw std::runtime_error("cannot write to standard output");
+}
+
+
+} // namespace
+
+
 int main(int argc, const char ** argv)
 {
   std::ios_base::sync_with_stdio(false);
@@ -43,12 +58,14 @@ int main(int argc, const char ** argv)
     if( po.contains("help") )
     {
       po.print(argv[0], std::cout);
+      FlushStdoutOrThrow();
       return EXIT_SUCCESS;
     }
 
     if( po.contains("version") )
     {
       htmlext::PrintVersion(std::cout);
+      FlushStdoutOrThrow();
       return EXIT_SUCCESS;
     }
 
@@ -115,6 +132,8 @@ int main(int argc, const char ** argv)
           htmlext::PrintJson(result, po.get_json_options(), std::cout);
         }
       }
+
+    FlushStdoutOrThrow();
   }
   catch( const htmlext::FileError& e )
   {
-- 
2.43.0


From 475b61c78744e2cdf30f91eecb5cd1873f40637b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:51 +0000
Subject: [PATCH 10/15] fix: hext, names and values are no longer cut off at
 NUL bytes

---
 htmlext/htmlext/Json.cpp             | 10 ++++++--
 htmlext/main.cpp                     |  6 ++---
 libhext/bindings/nodejs/src/Rule.cpp |  3 ++-
 libhext/bindings/php/phphext.i       | 13 ++++++++---
 libhext/bindings/python/pyhext.i     | 35 ++++++++++++++++++----------
 5 files changed, 46 insertions(+), 21 deletions(-)

diff --git a/htmlext/htmlext/Json.cpp b/htmlext/htmlext/Json.cpp
index ab3c672..a6785cb 100644
--- a/htmlext/htmlext/Json.cpp
+++ b/htmlext/htmlext/Json.cpp
@@ -34,8 +34,14 @@ void PrintJson(const hext::Result result, JsonOption opt, std::ostream& out)
 
     for(const auto& p : group)
     {
-      rapidjson::Value name(p.first.c_str(), alloc);
-      rapidjson::Value value(p.second.c_str(), alloc);
+      rapidjson::Value name(
+          p.first.c_str(),
+          static_cast<rapidjson::SizeType>(p.first.size()),
+          alloc);
+      rapidjson::Value value(
+          p.second.c_str(),
+          static_cast<rapidjson::SizeType>(p.second.size()),
+          alloc);
       // If the key is already taken, transform the value into an array
       if( obj.HasMember(name) )
       {
diff --git a/htmlext/main.cpp b/htmlext/main.cpp
index a85c768..b27de87 100644
--- a/htmlext/main.cpp
+++ b/htmlext/main.cpp
@@ -81,8 +81,8 @@ int main(int argc, const char ** argv)
     for(const auto& filename : hext_filenames)
     {
       try {
-        rules.emplace_back(
-            hext::ParseHext(htmlext::ReadFileOrThrow(filename).c_str()));
+        const std::string hext = htmlext::ReadFileOrThrow(filename);
+        rules.emplace_back(hext::ParseHext(hext.c_str(), hext.size()));
       } catch( const hext::SyntaxError& e ) {
         errout.print(std::string("Error in " + filename), e.what());
         return EXIT_FAILURE;
@@ -92,7 +92,7 @@ int main(int argc, const char ** argv)
     for(const auto& hext_input : hext_inputs)
     {
       try {
-        rules.emplace_back(hext::ParseHext(hext_input.c_str()));
+        rules.emplace_back(hext::ParseHext(hext_input.c_str(), hext_input.size()));
       } catch( const hext::SyntaxError& e ) {
         errout.print("Error in <hext-string>", e.what());
         return EXIT_FAILURE;
diff --git a/libhext/bindings/nodejs/src/Rule.cpp b/libhext/bindings/nodejs/src/Rule.cpp
index b950767..1918d77 100644
--- a/libhext/bindings/nodejs/src/Rule.cpp
+++ b/libhext/bindings/nodejs/src/Rule.cpp
@@ -48,8 +48,9 @@ Rule::Rule(const Napi::CallbackInfo& info)
 
   try
   {
+    const std::string hext = info[0].As<Napi::String>().Utf8Value();
     this->rule_ = std::make_unique<hext::Rule>(
-        hext::ParseHext(info[0].As<Napi::String>().Utf8Value().c_str()));
+        hext::ParseHext(hext.c_str(), hext.size()));
   }
   catch( const hext::SyntaxError& e )
   {
diff --git a/libhext/bindings/php/phphext.i b/libhext/bindings/php/phphext.i
index 52a143b..7ce9699 100644
--- a/libhext/bindings/php/phphext.i
+++ b/libhext/bindings/php/phphext.i
@@ -32,10 +32,12 @@
     {
       if( map.count(it->first) < 2 )
       {
-        add_assoc_string(
+        add_assoc_stringl_ex(
           &out_map,
           it->first.c_str(),
-          it->second.c_str()
+          it->first.size(),
+          it->second.c_str(),
+          it->second.size()
         );
         ++it;
       }
@@ -54,7 +56,12 @@
             lower->second.size()
           );
 
-        add_assoc_zval(&out_map, it->first.c_str(), &values);
+        add_assoc_zval_ex(
+          &out_map,
+          it->first.c_str(),
+          it->first.size(),
+          &values
+        );
         it = upper;
       }
     }
diff --git a/libhext/bindings/python/pyhext.i b/libhext/bindings/python/pyhext.i
index 813d5df..6951a70 100644
--- a/libhext/bindings/python/pyhext.i
+++ b/libhext/bindings/python/pyhext.i
@@ -47,6 +47,17 @@ struct ScopedPyObject
 };
 
 
+PyObject * StdStringToPyString(const std::string& str) noexcept
+{
+#if PY_MAJOR_VERSION >= 3
+  return PyUnicode_FromStringAndSize(
+#else
+  return PyString_FromStringAndSize(
+#endif
+      str.data(), static_cast<Py_ssize_t>(str.size()));
+}
+
+
 } // namespace
 
 
@@ -69,17 +80,20 @@ struct ScopedPyObject
     auto it = map.cbegin();
     while( it != map.cend() )
     {
+      ScopedPyObject key(StdStringToPyString(it->first));
+      if( !key.obj )
+        SWIG_exception(SWIG_RuntimeError, "cannot convert name to string");
+
       if( map.count(it->first) < 2 )
       {
-        ScopedPyObject value(PyString_FromString(it->second.c_str()));
+        ScopedPyObject value(StdStringToPyString(it->second));
         if( !value.obj )
           SWIG_exception(SWIG_RuntimeError,
-              "PyString_FromString returned nullptr");
+              "cannot convert value to string");
 
         // does not steal a reference to value
-        if( PyDict_SetItemString(dict.obj, it->first.c_str(), value.obj) )
-          SWIG_exception(SWIG_RuntimeError,
-              "PyDict_SetItemString returned != 0");
+        if( PyDict_SetItem(dict.obj, key.obj, value.obj) )
+          SWIG_exception(SWIG_RuntimeError, "PyDict_SetItem returned != 0");
 
         ++it;
       }
@@ -93,12 +107,10 @@ struct ScopedPyObject
         auto upper = map.upper_bound(it->first);
         for(; lower != upper; ++lower)
         {
-          // Swig defines PyString_FromString, which forwards to
-          // PyUnicode_FromString
-          ScopedPyObject value(PyString_FromString(lower->second.c_str()));
+          ScopedPyObject value(StdStringToPyString(lower->second));
           if( !value.obj )
             SWIG_exception(SWIG_RuntimeError,
-                "PyString_FromString returned nullptr");
+                "cannot convert value to string");
 
           // does not steal a reference to value
           if( PyList_Append(list.obj, value.obj) )
@@ -106,9 +118,8 @@ struct ScopedPyObject
         }
 
         // does not steal a reference to list
-        if( PyDict_SetItemString(dict.obj, it->first.c_str(), list.obj) )
-          SWIG_exception(SWIG_RuntimeError,
-              "PyDict_SetItemString returned != 0");
+        if( PyDict_SetItem(dict.obj, key.obj, list.obj) )
+          SWIG_exception(SWIG_RuntimeError, "PyDict_SetItem returned != 0");
 
         it = upper;
       }
-- 
2.43.0


From c76b13e14637d06c02b841984701fcd65d2fbcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:51 +0000
Subject: [PATCH 11/15] fix: failed conversions in the Python binding neither
 release null nor leak

---
 libhext/bindings/python/pyhext.i | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/libhext/bindings/python/pyhext.i b/libhext/bindings/python/pyhext.i
index 6951a70..0baa780 100644
--- a/libhext/bindings/python/pyhext.i
+++ b/libhext/bindings/python/pyhext.i
@@ -41,7 +41,15 @@ struct ScopedPyObject
   : obj(object)
   {}
 
-  ~ScopedPyObject() noexcept { Py_DECREF(this->obj); }
+  ~ScopedPyObject() noexcept { Py_XDECREF(this->obj); }
+
+  /// Gives up ownership.
+  PyObject * release() noexcept
+  {
+    PyObject * object = this->obj;
+    this->obj = nullptr;
+    return object;
+  }
 
   PyObject * obj;
 };
@@ -67,8 +75,8 @@ PyObject * StdStringToPyString(const std::string& str) noexcept
 // Convert vector of multimaps to list of dicts
 %typemap(out) std::vector<std::multimap<std::string, std::string>>
 {
-  $result = PyList_New(0);
-  if( !$result )
+  ScopedPyObject result_list(PyList_New(0));
+  if( !result_list.obj )
     SWIG_exception(SWIG_RuntimeError, "PyList_New returned nullptr");
 
   for(const auto& map : *(&$1))
@@ -126,9 +134,11 @@ PyObject * StdStringToPyString(const std::string& str) noexcept
     }
 
     // does not steal a reference to dict
-    if( PyList_Append($result, dict.obj) )
+    if( PyList_Append(result_list.obj, dict.obj) )
       SWIG_exception(SWIG_RuntimeError, "PyList_Append returned != 0");
   }
+
+  $result = result_list.release();
 }
 
 %include "exception.i"
-- 
2.43.0


From 3ca8ae95485d742becedf91202185f2a50757365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:51 +0000
Subject: [PATCH 12/15] fix: bindings convert every C++ exception

---
 libhext/bindings/nodejs/src/Html.cpp | 19 ++++++++++++++++---
 libhext/bindings/nodejs/src/Rule.cpp | 12 ++++++++++--
 libhext/bindings/php/phphext.i       | 16 +++++++++++++++-
 libhext/bindings/python/pyhext.i     | 16 +++++++++++++++-
 libhext/bindings/ruby/rbhext.i       | 16 +++++++++++++++-
 5 files changed, 71 insertions(+), 8 deletions(-)

diff --git a/libhext/bindings/nodejs/src/Html.cpp b/libhext/bindings/nodejs/src/Html.cpp
index b52fd17..996f59c 100644
--- a/libhext/bindings/nodejs/src/Html.cpp
+++ b/libhext/bindings/nodejs/src/Html.cpp
@@ -14,6 +14,10 @@
 
 #include "Html.h"
 
+#include <exception>
+#include <memory>
+#include <string>
+
 
 Html::Html(const Napi::CallbackInfo& info)
 : ObjectWrap(info)
@@ -50,9 +54,18 @@ Html::Html(const Napi::CallbackInfo& info)
     return;
   }
 
-  this->buffer_ = info[0].As<Napi::String>().Utf8Value();
-  this->html_ = std::make_unique<hext::Html>(
-      this->buffer_.c_str(), this->buffer_.size());
+  try
+  {
+    this->buffer_ = info[0].As<Napi::String>().Utf8Value();
+    this->html_ = std::make_unique<hext::Html>(
+        this->buffer_.c_str(), this->buffer_.size());
+  }
+  catch( const std::exception& e )
+  {
+    auto message = std::string("Error: ") + e.what();
+    Napi::Error::New(env, message).ThrowAsJavaScriptException();
+    return;
+  }
 }
 
 Napi::Function Html::GetClass(Napi::Env env)
diff --git a/libhext/bindings/nodejs/src/Rule.cpp b/libhext/bindings/nodejs/src/Rule.cpp
index 1918d77..8389dd7 100644
--- a/libhext/bindings/nodejs/src/Rule.cpp
+++ b/libhext/bindings/nodejs/src/Rule.cpp
@@ -15,11 +15,13 @@
 #include "Rule.h"
 #include "Html.h"
 
-#include <hext/MaxSearchError.h>
 #include <hext/ParseHext.h>
 #include <hext/Result.h>
+#include <hext/SyntaxError.h>
 
 #include <cstdint>
+#include <exception>
+#include <string>
 
 
 Rule::Rule(const Napi::CallbackInfo& info)
@@ -58,6 +60,12 @@ Rule::Rule(const Napi::CallbackInfo& info)
     Napi::Error::New(env, message).ThrowAsJavaScriptException();
     return;
   }
+  catch( const std::exception& e )
+  {
+    auto message = std::string("Error: ") + e.what();
+    Napi::Error::New(env, message).ThrowAsJavaScriptException();
+    return;
+  }
 }
 
 Napi::Value Rule::extract(const Napi::CallbackInfo& info)
@@ -144,7 +152,7 @@ Napi::Value Rule::extract(const Napi::CallbackInfo& info)
   {
     result = this->rule_->extract(html->root(), max_searches);
   }
-  catch( const hext::MaxSearchError& e )
+  catch( const std::exception& e )
   {
     auto message = std::string("Error: ") + e.what();
     Napi::Error::New(
diff --git a/libhext/bindings/php/phphext.i b/libhext/bindings/php/phphext.i
index 7ce9699..c7eb7f5 100644
--- a/libhext/bindings/php/phphext.i
+++ b/libhext/bindings/php/phphext.i
@@ -71,6 +71,16 @@
 }
 
 %include "exception.i"
+%exception Html::Html {
+  try
+  {
+    $action
+  }
+  catch(const std::exception& e)
+  {
+    SWIG_exception(SWIG_RuntimeError, e.what());
+  }
+}
 %exception Rule::Rule {
   try
   {
@@ -80,13 +90,17 @@
   {
     SWIG_exception(SWIG_ValueError, e.what());
   }
+  catch(const std::exception& e)
+  {
+    SWIG_exception(SWIG_RuntimeError, e.what());
+  }
 }
 %exception Rule::extract {
   try
   {
     $action
   }
-  catch(const hext::MaxSearchError& e)
+  catch(const std::exception& e)
   {
     SWIG_exception(SWIG_RuntimeError, e.what());
   }
diff --git a/libhext/bindings/python/pyhext.i b/libhext/bindings/python/pyhext.i
index 0baa780..874684e 100644
--- a/libhext/bindings/python/pyhext.i
+++ b/libhext/bindings/python/pyhext.i
@@ -142,6 +142,16 @@ PyObject * StdStringToPyString(const std::string& str) noexcept
 }
 
 %include "exception.i"
+%exception Html::Html {
+  try
+  {
+    $action
+  }
+  catch(const std::exception& e)
+  {
+    SWIG_exception(SWIG_RuntimeError, e.what());
+  }
+}
 %exception Rule::Rule {
   try
   {
@@ -151,13 +161,17 @@ PyObject * StdStringToPyString(const std::string& str) noexcept
   {
     SWIG_exception(SWIG_ValueError, e.what());
   }
+  catch(const std::exception& e)
+  {
+    SWIG_exception(SWIG_RuntimeError, e.what());
+  }
 }
 %exception Rule::extract {
   try
   {
     $action
   }
-  catch(const hext::MaxSearchError& e)
+  catch(const std::exception& e)
   {
     SWIG_exception(SWIG_RuntimeError, e.what());
   }
diff --git a/libhext/bindings/ruby/rbhext.i b/libhext/bindings/ruby/rbhext.i
index 4f68d3c..f325c7c 100644
--- a/libhext/bindings/ruby/rbhext.i
+++ b/libhext/bindings/ruby/rbhext.i
@@ -60,6 +60,16 @@
 }
 
 %include "exception.i"
+%exception Html::Html {
+  try
+  {
+    $action
+  }
+  catch(const std::exception& e)
+  {
+    SWIG_exception(SWIG_RuntimeError, e.what());
+  }
+}
 %exception Rule::Rule {
   try
   {
@@ -69,13 +79,17 @@
   {
     SWIG_exception(SWIG_ValueError, e.what());
   }
+  catch(const std::exception& e)
+  {
+    SWIG_exception(SWIG_RuntimeError, e.what());
+  }
 }
 %exception Rule::extract {
   try
   {
     $action
   }
-  catch(const hext::MaxSearchError& e)
+  catch(const std::exception& e)
   {
     SWIG_exception(SWIG_RuntimeError, e.what());
   }
-- 
2.43.0


From eb4a0bcfeb8f65c6f38738f19f074c06543683f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:51 +0000
Subject: [PATCH 13/15] fix: Node.js binding no longer truncates max_searches
 to 32 bits

---
 libhext/bindings/nodejs/src/Rule.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libhext/bindings/nodejs/src/Rule.cpp b/libhext/bindings/nodejs/src/Rule.cpp
index 8389dd7..372fab6 100644
--- a/libhext/bindings/nodejs/src/Rule.cpp
+++ b/libhext/bindings/nodejs/src/Rule.cpp
@@ -104,7 +104,8 @@ Napi::Value Rule::extract(const Napi::CallbackInfo& info)
     }
     else
     {
-      max_searches = info[1].ToNumber().Uint32Value();
+      max_searches = static_cast<std::uint64_t>(
+          info[1].ToNumber().Int64Value());
     }
   }
 
-- 
2.43.0


From 425278f756ed8a307c59432154881543bad60882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:02 +0000
Subject: [PATCH 14/15] fix: document the option --max-searches in the manual
 page

---
 man/htmlext.1    | 7 +++++++
 man/htmlext.ronn | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/man/htmlext.1 b/man/htmlext.1
index c3ce668..7955a7d 100644
--- a/man/htmlext.1
+++ b/man/htmlext.1
@@ -93,6 +93,13 @@ Only print values whose name matches \fIkey\fR, one per line\.
 Only do Hext syntax check and exit signaling success\.
 .
 .TP
+\fB\-m\fR \fIamount\fR,\fB\-\-max\-searches\fR \fIamount\fR
+Abort with an error after this many searches\.
+.
+.IP
+The default is 0, which never aborts\.
+.
+.TP
 \fB\-h\fR,\fB\-\-help\fR
 Print help\.
 .
diff --git a/man/htmlext.ronn b/man/htmlext.ronn
index 538110e..9402fd8 100644
--- a/man/htmlext.ronn
+++ b/man/htmlext.ronn
@@ -72,6 +72,11 @@ $ htmlext -s '<a href:link @text:title />' -i index.html -f link
   * `-l`,`--lint`:
     Only do Hext syntax check and exit signaling success.
 
+  * `-m` <amount>,`--max-searches` <amount>:
+    Abort with an error after this many searches.
+
+    The default is 0, which never aborts.
+
   * `-h`,`--help`:
     Print help.
 
-- 
2.43.0


From 188d893d677fb4e0456467ec823df9a38c1f45fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:20 +0000
Subject: [PATCH 15/15] fix: change case independently of the global locale

---
 libhext/src/CasePipe.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libhext/src/CasePipe.cpp b/libhext/src/CasePipe.cpp
index a828d16..0f2b528 100644
--- a/libhext/src/CasePipe.cpp
+++ b/libhext/src/CasePipe.cpp
@@ -14,6 +14,8 @@
 
 #include "hext/CasePipe.h"
 
+#include <locale>
+
 #include <boost/algorithm/string.hpp>
 
 
@@ -28,9 +30,9 @@ CasePipe::CasePipe(CasePipe::Option option) noexcept
 std::string CasePipe::transform(std::string str) const
 {
   if( this->option_ & Option::ToLower )
-    boost::algorithm::to_lower(str);
+    boost::algorithm::to_lower(str, std::locale::classic());
   else
-    boost::algorithm::to_upper(str);
+    boost::algorithm::to_upper(str, std::locale::classic());
 
   return str;
 }
-- 
2.43.0

