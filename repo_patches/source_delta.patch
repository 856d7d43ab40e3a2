From e022a5824b47201b1e919edb803def39a650c0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:12 +0000
Subject: [PATCH 01/91] fix: scan all 8-bit characters

The table-driven scanner was generated for 7-bit input, so a byte above 127
(e.g. UTF-8 text in a character literal) indexed outside of its tables.
---
 src/flpr/scan_fort.l | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flpr/scan_fort.l b/src/flpr/scan_fort.l
index a274ae2..abc9d02 100644
--- a/src/flpr/scan_fort.l
+++ b/src/flpr/scan_fort.l
@@ -17,6 +17,7 @@ int curr_line_pos = 0;
 using FLPR::Syntax_Tags;
 %}
 %option full
+%option 8bit
 %option case-insensitive
 %option noyywrap
 %option stack
-- 
2.43.0


From 784d9c9a6a15d3e4a7edc458026608a3883a8c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:12 +0000
Subject: [PATCH 02/91] fix: reset the scanner state at the end of a line

After a line that ended in a real literal, the next line was scanned as if it
continued that literal ("x=1.0" then "e5=2" gave an exponent).
---
 src/flpr/scan_fort.l | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/flpr/scan_fort.l b/src/flpr/scan_fort.l
index abc9d02..6507ebf 100644
--- a/src/flpr/scan_fort.l
+++ b/src/flpr/scan_fort.l
@@ -284,4 +284,7 @@ write { return Syntax_Tags::KW_WRITE; }
 
 . { return Syntax_Tags::UNKNOWN; }
 
+  /* Don't let the literal parsing states leak into the next line */
+<*><<EOF>> { BEGIN(INITIAL); yyterminate(); }
+
 
-- 
2.43.0


From b2b43ff845a2535c891edc656325bba3c3fb7685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:12 +0000
Subject: [PATCH 03/91] fix: don't read the period of a dot operator as part of
 an integer

"1.eq.i" was scanned as "1." "eq" "." "i".
---
 src/flpr/scan_fort.l | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/flpr/scan_fort.l b/src/flpr/scan_fort.l
index 6507ebf..3ced671 100644
--- a/src/flpr/scan_fort.l
+++ b/src/flpr/scan_fort.l
@@ -263,6 +263,14 @@ write { return Syntax_Tags::KW_WRITE; }
                    yyless(0);  BEGIN(INITIAL); }
 }
 
+  /* An integer followed by a dot operator (e.g. "1.eq.i"): the period is not
+     part of the number */
+{DIGIT}+\.[a-z]+\.   { int digits = 0;
+                       while (yytext[digits] != '.') digits += 1;
+                       curr_line_pos -= yyleng - digits;
+                       yyless(digits);
+                       return Syntax_Tags::SG_INT_LITERAL_CONSTANT; }
+
   /* R714: real-literal-constant (7.4.3.2) */
   /* significand [exponent-letter exponent] [_ kind-param] */
 {SIGNIFICAND}{EXPONENT}?(_{KIND})?   { curr_line_pos -= yyleng;
-- 
2.43.0


From 1b5fb8b64d2113d1b47ab1d80fdc236fb422e09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:34 +0000
Subject: [PATCH 04/91] fix: locate the first token when the accumulated text
 starts with a space

Its position was that of the space, and Line_Accum asserted when the space came
from a line with an empty body ("&" followed by " a").
---
 src/flpr/Logical_Line.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 6e4b5df..5e668b9 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -758,6 +758,9 @@ void Logical_Line::tokenize(Line_Accum const &la) {
   YY_BUFFER_STATE bs = yy_scan_string(la.accum().c_str());
   const int N = la.accum().size();
   int tok_start_col = curr_line_pos;
+  /* main_txt can begin with spaces (e.g. after a leading continuation) */
+  while (tok_start_col < N && std::isspace(la.accum()[tok_start_col]))
+    tok_start_col += 1;
   int next_pre_sp = 0;
   int space_between;
 
-- 
2.43.0


From dfaf6be6b72a5e3a9340c0eb1cc06a64bfafd37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:34 +0000
Subject: [PATCH 05/91] fix: set the position and spacing of both halves of a
 split keyword

For a name such as "endif", the first token's location in the text was never
set, and the second one was given the location of the first.
---
 src/flpr/Logical_Line.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 5e668b9..471b502 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -769,6 +769,7 @@ void Logical_Line::tokenize(Line_Accum const &la) {
     /* tok_start is an index into la.accum().  Convert this into a file line and
      column number */
     int li, ci, tli, tci;
+    auto const num_frags = fragments_.size();
     la.linecolno(tok_start_col, li, ci, tli, tci);
     fragments_.emplace_back(std::string(yytext, yyleng), result_tok, li, ci);
     /* Break up keywords with no space. */
@@ -785,6 +786,21 @@ void Logical_Line::tokenize(Line_Accum const &la) {
                  end_text_line_idx, end_text_col_idx);
     end_text_col_idx += 1;
 
+    /* if the name was split into two tokens, locate each of them */
+    if (fragments_.size() > num_frags + 1) {
+      Token_Text &tt1{*std::prev(fragments_.end(), 2)};
+      Token_Text &tt2{fragments_.back()};
+      int const split = tok_start_col + static_cast<int>(tt1.text().size());
+      int l, c;
+      tt1.mt_begin_line_ = tli;
+      tt1.mt_begin_col_ = tci;
+      la.linecolno(split - 1, l, c, tt1.mt_end_line_, tt1.mt_end_col_);
+      tt1.mt_end_col_ += 1;
+      tt1.pre_spaces_ = next_pre_sp;
+      la.linecolno(split, tt2.start_line, tt2.start_pos, tli, tci);
+      next_pre_sp = 0;
+    }
+
     /* yylex advances curr_line_pos to the end of the last token recognized, but
        we want where the next token begins */
     tok_start_col = curr_line_pos;
-- 
2.43.0


From b62a3986000424911d352b8604ea7238fc3f618d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:34 +0000
Subject: [PATCH 06/91] fix: count interspersed comment lines in token line
 indices

The tokens' line index is used to address the layout, but comment and blank
lines within a continued statement were not counted.
---
 src/flpr/Logical_Line.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 471b502..b4dd1fe 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -131,6 +131,9 @@ void Logical_Line::init_from_layout() noexcept {
          have the correct breaks between lexemes. */
       la.add_line(fl.linenum, fl.left_space.size(), first_col, fl.main_txt,
                   fl.right_space.size());
+    } else {
+      /* No text, but keep the line indices in step with layout_ */
+      la.add_line(fl.linenum, 0, 0, std::string(), 0);
     }
   }
 
-- 
2.43.0


From 5ab7339fe0c2fd8aae9fa87ca702b68fb6227d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:34 +0000
Subject: [PATCH 07/91] fix: keep the continuation across comment and blank
 lines (free format)

A comment or blank line between the lines of a continued statement dropped the
open character context, and a blank line made the next line look like the start
of a statement.
---
 src/flpr/Logical_File.cc | 7 +++++--
 src/flpr/Logical_Line.cc | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 4b6b535..368db93 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -196,8 +196,11 @@ bool Logical_File::scan_free(std::vector<std::string> const &raw_lines) {
                 << "scan_free error: " << e.what() << std::endl;
       return false;
     }
-    prev_open_delim = fl[i].open_delim;
-    prev_line_cont = fl[i].is_continued();
+    /* comments and blank lines don't interrupt a continued statement */
+    if (!fl[i].is_trivial()) {
+      prev_open_delim = fl[i].open_delim;
+      prev_line_cont = fl[i].is_continued();
+    }
   }
 
   // Identify "logical lines": blocks of lines that represent a
diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index b4dd1fe..cadfca7 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -81,8 +81,11 @@ Logical_Line::Logical_Line(std::vector<std::string> const &raw_text) {
   for (auto const &l : raw_text) {
     layout_.emplace_back(File_Line::analyze_free(
         line_no++, l, prev_open_delim, prev_line_cont, in_literal_block));
-    prev_open_delim = layout_.back().open_delim;
-    prev_line_cont = layout_.back().is_continued();
+    /* comments and blank lines don't interrupt a continued statement */
+    if (!layout_.back().is_trivial()) {
+      prev_open_delim = layout_.back().open_delim;
+      prev_line_cont = layout_.back().is_continued();
+    }
   }
   init_from_layout();
 }
-- 
2.43.0


From bbf86bc12325a9c12a5b92e7827175e63f2f70ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:45 +0000
Subject: [PATCH 08/91] fix: keep the character context across comment lines
 (fixed format)

A comment or blank line between the lines of a continued character literal
dropped the open character context.
---
 src/flpr/Logical_File.cc | 4 +++-
 src/flpr/Logical_Line.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 368db93..7a5ccb9 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -100,7 +100,9 @@ bool Logical_File::scan_fixed(Line_Buf const &raw_lines, int const last_col) {
                 << "scan_fixed error: " << e.what() << std::endl;
       return false;
     }
-    prev_open_delim = fl[i].open_delim;
+    /* comments and blank lines don't interrupt a continued statement */
+    if (!fl[i].is_trivial())
+      prev_open_delim = fl[i].open_delim;
   }
 
   /* Identify "logical lines": blocks of lines that represent a
diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index cadfca7..fa12ece 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -106,7 +106,9 @@ Logical_Line::Logical_Line(std::vector<std::string> const &raw_text,
   for (auto const &l : raw_text) {
     layout_.emplace_back(
         File_Line::analyze_fixed(line_no++, l, prev_open_delim, last_col));
-    prev_open_delim = layout_.back().open_delim;
+    /* comments and blank lines don't interrupt a continued statement */
+    if (!layout_.back().is_trivial())
+      prev_open_delim = layout_.back().open_delim;
   }
   init_from_layout();
 }
-- 
2.43.0


From aa50baf0ff42ceba774f5e402e3c9a45ab5db0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:45 +0000
Subject: [PATCH 09/91] fix: group the lines of a continued statement at the
 end of the file

When the last line of the file was itself continued, each of the lines of that
statement became a statement of its own.
---
 src/flpr/Logical_File.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 7a5ccb9..c22249d 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -272,9 +272,10 @@ bool Logical_File::scan_free(std::vector<std::string> const &raw_lines) {
 
       size_t last_code_line = curr;
       while (curr < N) {
-        if (!fl[curr].is_trivial() && !fl[curr].is_continued()) {
+        if (!fl[curr].is_trivial()) {
           last_code_line = curr;
-          break;
+          if (!fl[curr].is_continued())
+            break;
         }
         curr += 1;
       }
-- 
2.43.0


From 6b2ce97bf5a1907efcbd551021de57fa53f2e0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:53 +0000
Subject: [PATCH 10/91] fix: keep the control columns of continued preprocessor
 lines (fixed format)

A line absorbed by a preprocessor line ending in a backslash lost the six
leading blanks that are implicit in a fixed-format statement.
---
 src/flpr/File_Line.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 1d6250f..e40ba2e 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -395,6 +395,9 @@ void File_Line::make_preprocessor() {
   size_t const ff{static_cast<size_t>(class_flags::fixed_format)};
   size_t const pp{static_cast<size_t>(class_flags::preprocessor)};
   bool const is_fixed_format = classification_[ff];
+  /* the control columns of a fixed-format statement are implicit */
+  if (is_fixed_format && is_fortran() && left_txt.size() < 6)
+    left_txt.append(6 - left_txt.size(), ' ');
   classification_.reset();
   classification_[ff] = is_fixed_format;
   classification_[pp] = true;
-- 
2.43.0


From 7161cfc18a91d53699664790311f2fbfd1c038db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:52 +0000
Subject: [PATCH 11/91] fix: accept a zero in column 6 of a labelled line
 (fixed format)

The zero was taken for the first character of the statement, or for a sixth
digit of the label.
---
 src/flpr/File_Line.cc    | 8 +++++++-
 src/flpr/Logical_Line.cc | 8 ++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index e40ba2e..65f17bf 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -144,10 +144,16 @@ File_Line File_Line::analyze_fixed(int const linenum,
     } else if (std::isdigit(c)) {
       // Read a <= 5-digit integer statement label
       const ST N = raw_txt.size();
-      while (ri < N && ri < 6 && std::isdigit(raw_txt[ri]))
+      while (ri < N && ri < 5 && std::isdigit(raw_txt[ri]))
         ri += 1;
       left_text = raw_txt.substr(0, ri);
       SET_CLASS(label);
+      // A zero in column 6 marks an initial line, just like a blank does
+      if (N > 5 && raw_txt[5] == '0' &&
+          raw_txt.find_first_not_of(' ', ri) == 5) {
+        ri = 6;
+        left_text = raw_txt.substr(0, ri);
+      }
     }
 
     // If we set anything in the left text, we need to advance to the
diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index fa12ece..47be618 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -145,8 +145,12 @@ void Logical_Line::init_from_layout() noexcept {
   if (layout_.front().has_label()) {
     assert(!layout_.front().left_txt.empty());
     std::size_t pos;
-    label = std::stoi(layout_.front().left_txt, &pos);
-    if (pos < layout_.front().left_txt.size()) {
+    /* (a fixed-format left_txt may include control column 6) */
+    std::string const label_txt{layout_.front().is_fixed_format()
+                                    ? layout_.front().left_txt.substr(0, 5)
+                                    : layout_.front().left_txt};
+    label = std::stoi(label_txt, &pos);
+    if (label_txt.find_first_not_of(' ', pos) != std::string::npos) {
       std::cerr << "Label \"" << layout_.front().left_txt
                 << "\" not fully converted to integer" << std::endl;
     }
-- 
2.43.0


From b9ba1ea8f3e196652d99bada336a8eca02dfadb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:58 +0000
Subject: [PATCH 12/91] fix: don't analyze continued preprocessor lines as
 Fortran

The lines absorbed by a preprocessor line ending in a backslash were first
analyzed as statements: text in the control columns of a fixed-format file was
moved, and quotes were taken for open character literals.
---
 src/flpr/Logical_File.cc | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index c22249d..dffcd5a 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -83,6 +83,23 @@ bool Logical_File::scan(Line_Buf const &buf, std::string const &buffer_name,
   return res;
 }
 
+namespace {
+//! Return true if the line following fl belongs to a preprocessor line
+bool continues_preprocessor(File_Line const &fl) {
+  return (fl.is_preprocessor() || fl.is_flpr_pp() || fl.is_include()) &&
+         last_non_blank_char(fl.left_txt) == '\\';
+}
+
+//! Create a preprocessor line from the unanalyzed text
+File_Line preprocessor_line(int const linenum, std::string const &raw_txt) {
+  File_Line fl;
+  fl.linenum = linenum;
+  fl.left_txt = raw_txt;
+  fl.set_classification(File_Line::class_flags::preprocessor);
+  return fl;
+}
+} // namespace
+
 bool Logical_File::scan_fixed(Line_Buf const &raw_lines, int const last_col) {
   const size_t N = raw_lines.size();
   num_input_lines = N;
@@ -90,6 +107,11 @@ bool Logical_File::scan_fixed(Line_Buf const &raw_lines, int const last_col) {
   std::vector<File_Line> fl(N);
   char prev_open_delim = '\0';
   for (size_t i = 0; i < N; ++i) {
+    if (i > 0 && continues_preprocessor(fl[i - 1])) {
+      fl[i] = preprocessor_line((int)i + 1, raw_lines[i]);
+      fl[i].set_classification(File_Line::class_flags::fixed_format);
+      continue;
+    }
     try {
       fl[i] = File_Line::analyze_fixed((int)i + 1, raw_lines[i],
                                        prev_open_delim, last_col);
@@ -188,6 +210,10 @@ bool Logical_File::scan_free(std::vector<std::string> const &raw_lines) {
   char prev_open_delim = '\0';
   bool prev_line_cont = false;
   for (size_t i = 0; i < N; ++i) {
+    if (i > 0 && continues_preprocessor(fl[i - 1])) {
+      fl[i] = preprocessor_line((int)i + 1, raw_lines[i]);
+      continue;
+    }
     try {
       fl[i] = File_Line::analyze_free((int)i + 1, raw_lines[i], prev_open_delim,
                                       prev_line_cont, in_literal_block);
-- 
2.43.0


From d97081de398ca6019fca64cfb83a584b22605bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:50 +0000
Subject: [PATCH 13/91] fix: end the character context at the end of a
 statement (fixed format)

An unterminated character literal carried over into the statements that follow,
whose text was then moved and whose comments were missed.
---
 src/flpr/File_Line.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 65f17bf..79fc75a 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -158,7 +158,8 @@ File_Line File_Line::analyze_fixed(int const linenum,
 
     // If we set anything in the left text, we need to advance to the
     // next non-blank, UNLESS we are in a character context
-    if (!left_text.empty() && prev_open_delim == '\0') {
+    if (!left_text.empty() &&
+        (prev_open_delim == '\0' || !IS_CLASS(continuation))) {
       while (ri < raw_txt.size() && std::isspace(raw_txt[ri]))
         ri += 1;
       if (ri == raw_txt.size()) {
@@ -173,10 +174,12 @@ File_Line File_Line::analyze_fixed(int const linenum,
   if (ri > indent_begin)
     left_sp = raw_txt.substr(indent_begin, ri - indent_begin);
 
-  // We're at the first character of Fortran text.
+  // We're at the first character of Fortran text.  Only a continuation line can
+  // be in the character context of the previous line.
   char open_delim_char(0);
-  ST trailing_begin = find_trailing_fixed(raw_txt, ri, last_column,
-                                          prev_open_delim, open_delim_char);
+  ST trailing_begin = find_trailing_fixed(
+      raw_txt, ri, last_column,
+      IS_CLASS(continuation) ? prev_open_delim : '\0', open_delim_char);
 
   if (trailing_begin == std::string::npos) {
     main_text = raw_txt.substr(ri);
-- 
2.43.0


From 1c9b28a4dc454ee69a7f7985abc9004b17dbf93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:56 +0000
Subject: [PATCH 14/91] fix: update the end column of a replaced fragment

---
 src/flpr/Logical_Line.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 47be618..a2747a6 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -332,6 +332,7 @@ void Logical_Line::replace_fragment(typename TT_SEQ::iterator frag,
   int const layout_line = frag->mt_begin_line_;
   std::string &main_txt = layout_[layout_line].main_txt;
   main_txt.replace(frag->mt_begin_col_, old_text_len, new_text);
+  frag->mt_end_col_ += len_change;
 
   // Update the mt_begin_col_ for all fragments following on this line
   for (frag = std::next(frag);
-- 
2.43.0


From 0eeb43df96702170d9d7736d5b966412ac93941a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:56 +0000
Subject: [PATCH 15/91] fix: keep the continuation of a line when replacing
 part of its text

---
 src/flpr/Logical_Line.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index a2747a6..ff3bbab 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -455,11 +455,11 @@ void Logical_Line::erase_stmt_text_(int stln, int stcol, int eln, int ecol) {
       layout_[stln].make_comment_or_blank();
   }
 
-  int count_fortran{0};
-  for (int i = hold_stln; i <= eln; ++i)
-    if (layout_[i].is_fortran())
-      count_fortran += 1;
-  if (count_fortran == 1)
+  /* the first line is only continued if there is still text after it */
+  bool more_fortran{false};
+  for (size_t i = hold_stln + 1; i < layout_.size(); ++i)
+    more_fortran |= layout_[i].is_fortran();
+  if (!more_fortran)
     layout_[hold_stln].make_uncontinued();
 }
 
-- 
2.43.0


From 002b3faf375c37fe8576a01220ac8d6624bfa553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:56 +0000
Subject: [PATCH 16/91] fix: continue the lines added, and drop the lines
 removed, by replace_main_text

---
 src/flpr/Logical_Line.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index ff3bbab..63008ca 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -400,9 +400,9 @@ void Logical_Line::replace_main_text(std::vector<std::string> const &new_text) {
   if (layout_.size() < new_text.size()) {
     int const indent = layout_[ref_line].main_first_col() - 1;
     File_Line ref_fl = layout_[ref_line];
-    ref_fl.make_continued();
     ref_fl.left_txt.clear();
     ref_fl.right_txt.clear();
+    ref_fl.make_continued();
     ref_fl.set_leading_spaces(indent);
     layout_.insert(layout_.end(), new_text.size() - old_size, ref_fl);
   }
@@ -412,7 +412,6 @@ void Logical_Line::replace_main_text(std::vector<std::string> const &new_text) {
   for (std::string const &s : new_text) {
     layout_[fl_idx++].main_txt = s;
   }
-  assert(ref_line < fl_idx);
 
   /* fix continuations */
   if (ref_line < fl_idx - 1) {
-- 
2.43.0


From 87c789434041c94715db9c87958690809b63f780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:56 +0000
Subject: [PATCH 17/91] fix: count leading comment lines in the token positions
 of a split line

---
 src/flpr/Logical_Line.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 63008ca..b66272f 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -629,7 +629,7 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
                            std::make_move_iterator(fragments_.end()));
 
   /* update the main_txt line numbers for the new fragments  */
-  int const move_up = new_ll.fragments_.front().mt_begin_line_;
+  int const move_up = split_line + 1;
   for (auto &tt : new_ll.fragments_) {
     tt.mt_begin_line_ -= move_up;
     tt.mt_end_line_ -= move_up;
-- 
2.43.0


From ce07ab6c64b6f5da384c01b1cfee4b3b1fef8e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:44 +0000
Subject: [PATCH 18/91] fix: keep the trailing comment when the text of a line
 is removed

---
 src/flpr/File_Line.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 79fc75a..cb79f1d 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -448,13 +448,14 @@ void File_Line::make_comment_or_blank() {
     right_txt[0] = ' ';
   }
   auto comment_start = right_txt.find('!');
-  if (comment_start != std::string::npos && comment_start > 0) {
+  if (comment_start != std::string::npos) {
     /* transfer any leading blanks from right_txt to right_space */
     right_space.append(comment_start, ' ');
     right_txt.erase(0, comment_start);
     /* set each of the earlier text fields to be blank of the same length */
     left_txt.assign(left_txt.size(), ' ');
-    right_txt.assign(right_txt.size(), ' ');
+    main_txt.assign(main_txt.size(), ' ');
+    open_delim = '\0';
     bool const is_fixed_format = classification_[ff];
     classification_.reset();
     classification_[ff] = is_fixed_format;
-- 
2.43.0


From 4fb0e33a41fea2216937e8e7e372e3c91352a9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:44 +0000
Subject: [PATCH 19/91] fix: keep the insert position valid when all the text
 of a line is replaced

---
 src/flpr/Logical_Line.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index b66272f..3659af3 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -449,9 +449,10 @@ void Logical_Line::erase_stmt_text_(int stln, int stcol, int eln, int ecol) {
   assert(ecol <= static_cast<int>(layout_[eln].main_txt.size()));
   layout_[stln].main_txt.erase(stcol, ecol - stcol);
   if (layout_[stln].main_txt.find_first_not_of(' ') == std::string::npos) {
-    layout_[stln].main_txt.clear();
-    if (multiline)
+    if (multiline) {
+      layout_[stln].main_txt.clear();
       layout_[stln].make_comment_or_blank();
+    }
   }
 
   /* the first line is only continued if there is still text after it */
-- 
2.43.0


From 072d9710f69c3a2941735ebdef80b61c43d43f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:44 +0000
Subject: [PATCH 20/91] fix: clear the label when it is set to zero

---
 src/flpr/File_Line.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index cb79f1d..73c8dc9 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -623,8 +623,16 @@ bool File_Line::set_label(int new_label) {
 
   auto &bits = classification_;
 
-  if (new_label == 0 && !has_label())
-    return false;
+  if (new_label == 0) {
+    if (!has_label())
+      return false;
+    /* replace the label with blanks */
+    if (!is_fixed_format())
+      left_space.insert(0, left_txt.size(), ' ');
+    left_txt.clear();
+    UNSET_CLASS(label);
+    return true;
+  }
   if (is_fixed_format()) {
     if (left_txt.empty()) {
       left_txt = std::to_string(new_label);
-- 
2.43.0


From 30f524e8096777f23bee038604768ae927a017ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:26 +0000
Subject: [PATCH 21/91] fix: don't append a comment to a line that ends in a
 character context

---
 src/flpr/Logical_Line.cc | 25 +++++++++++++++----------
 src/flpr/Logical_Line.hh |  2 +-
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 3659af3..2cab088 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -841,21 +841,26 @@ void Logical_Line::tokenize(Line_Accum const &la) {
 void Logical_Line::append_comment(std::string const &comment_text) {
   if (comment_text.empty())
     return;
-  if (layout_[0].right_txt.empty()) {
-    int lline_len = layout_[0].main_first_col() + layout_[0].main_txt.size();
+  /* a line that ends inside a character literal can't have a comment */
+  size_t idx{0};
+  while (idx + 1 < layout_.size() && layout_[idx].open_delim != '\0')
+    idx += 1;
+  File_Line &fl{layout_[idx]};
+  if (fl.right_txt.empty()) {
+    int lline_len = fl.main_first_col() + fl.main_txt.size();
     int c_len = 2 + comment_text.size();
     if (72 - c_len > lline_len)
-      layout_[0].right_space = std::string(72 - c_len - lline_len, ' ');
+      fl.right_space = std::string(72 - c_len - lline_len, ' ');
     else
-      layout_[0].right_space = "    ";
-    layout_[0].right_txt = "! ";
-    layout_[0].right_txt.append(comment_text);
+      fl.right_space = "    ";
+    fl.right_txt = "! ";
+    fl.right_txt.append(comment_text);
   } else {
-    if (layout_[0].right_txt.find('!') == std::string::npos)
-      layout_[0].right_txt.append(" ! ");
+    if (fl.right_txt.find('!') == std::string::npos)
+      fl.right_txt.append(" ! ");
     else
-      layout_[0].right_txt.append(" : ");
-    layout_[0].right_txt.append(comment_text);
+      fl.right_txt.append(" : ");
+    fl.right_txt.append(comment_text);
   }
 }
 
diff --git a/src/flpr/Logical_Line.hh b/src/flpr/Logical_Line.hh
index 6748d73..af679d7 100644
--- a/src/flpr/Logical_Line.hh
+++ b/src/flpr/Logical_Line.hh
@@ -172,7 +172,7 @@ public:
   //! Diagnostic output
   std::ostream &dump(std::ostream &os) const;
 
-  //! Appends an eol comment to first line.  Don't put a leading '!' in text
+  //! Appends an eol comment to first possible line.  Don't put a leading '!' in text
   void append_comment(std::string const &text);
 
   //! Returns true if this Logical_Line contains some Fortran statements
-- 
2.43.0


From f306ca49fa5ac136c1dff3b9c7865cb11d0e5468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:25 +0000
Subject: [PATCH 22/91] fix: update the statements that stay on a split line

---
 src/flpr/Logical_File.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index dffcd5a..5420918 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -349,6 +349,18 @@ bool Logical_File::split_compound_before(LL_STMT_SEQ::iterator pos) {
   assert(!ll_seq_new->stmts().empty());
   assert(ll_seq_orig->stmts().size() + ll_seq_new->stmts().size() == num_stmts);
 
+  /* update the statements that stay on the original Logical_Line: the end of
+     the last one and the compound numbers have changed */
+  LL_STMT_SEQ::iterator keep_stmt = pos;
+  for (size_t i = ll_seq_orig->stmts().size(); i > 0; --i) {
+    keep_stmt = std::prev(keep_stmt);
+    assert(keep_stmt->it() == ll_seq_orig);
+    keep_stmt->assign_range(ll_seq_orig->stmts()[i - 1]);
+    keep_stmt->set_compound(ll_seq_orig->is_compound() ? static_cast<int>(i)
+                                                       : 0);
+    keep_stmt->drop_stmt_tree();
+  }
+
   /* update statements inplace for the new Logical_Line */
   LL_Stmt_Src ss{ll_seq_new, false};
   size_t num_changed{0};
-- 
2.43.0


From 100bbd87a24d6b8d12c00c634601a7a7220902a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:25 +0000
Subject: [PATCH 23/91] fix: a split-off line has no label and is no
 continuation

---
 src/flpr/Logical_Line.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 2cab088..a098abd 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -574,6 +574,8 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
 
     /* clean new: remove left_txt */
     export_beg->left_txt.clear();
+    export_beg->unset_classification(File_Line::class_flags::label);
+    export_beg->unset_classification(File_Line::class_flags::continuation);
     /* clean new: indent column */
     export_beg->set_leading_spaces(num_left_sp);
 
@@ -609,6 +611,7 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
     }
     if (non_trivial != layout_.end()) {
       non_trivial->left_txt.clear();
+      non_trivial->unset_classification(File_Line::class_flags::continuation);
       non_trivial->set_leading_spaces(num_left_sp);
     }
   }
-- 
2.43.0


From 94f462e1c76c66a21a7c67edffab8dada45d9486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:25 +0000
Subject: [PATCH 24/91] fix: locate the text to edit when empty statements
 precede it

---
 src/flpr/Logical_File.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 5420918..5a3344a 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -468,8 +468,8 @@ void Logical_File::replace_stmt_substr(LL_STMT_SEQ::iterator stmt,
   isolate_stmt(stmt);
 
   /* find the updated TT_Range using the offsets */
-  auto new_beg_it = std::next(stmt->ll().fragments().begin(), beg_off);
-  auto new_end_it = std::next(stmt->ll().fragments().begin(), end_off);
+  auto new_beg_it = std::next(stmt->begin(), beg_off);
+  auto new_end_it = std::next(stmt->begin(), end_off);
 
   stmt->ll().replace_stmt_substr(TT_Range{new_beg_it, new_end_it}, new_text);
   assert(stmt->ll().has_stmts());
@@ -484,7 +484,7 @@ void Logical_File::insert_text_after(LL_STMT_SEQ::iterator stmt,
                                      std::string const &new_text) {
   auto const frag_off = std::distance(stmt->begin(), frag);
   isolate_stmt(stmt);
-  auto new_frag_it = std::next(stmt->ll().fragments().begin(), frag_off);
+  auto new_frag_it = std::next(stmt->begin(), frag_off);
   stmt->ll().insert_text_after(new_frag_it, new_text);
   stmt->assign_range(stmt->ll().stmts()[0]);
   stmt->drop_stmt_tree();
-- 
2.43.0


From 536c189e5de8fe508f0c1f093ad9557a4ab00ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:12 +0000
Subject: [PATCH 25/91] fix: start a split-off line with its own text, not with
 comment lines

---
 src/flpr/Logical_Line.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index a098abd..a2a7b19 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -514,7 +514,7 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
   if (frag == fragments_.end())
     return false;
   int const split_line = frag->mt_end_line_;
-  assert(split_line < static_cast<int>(fragments_.size()));
+  assert(split_line < static_cast<int>(layout_.size()));
 
   auto const num_left_sp = layout_[0].main_first_col() - 1;
 
@@ -614,6 +614,9 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
       non_trivial->unset_classification(File_Line::class_flags::continuation);
       non_trivial->set_leading_spaces(num_left_sp);
     }
+
+    /* the comments stay here: the new line has to start with its own text */
+    export_beg = non_trivial;
   }
 
   if (export_beg == layout_.end())
@@ -621,6 +624,8 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
 
   new_ll.clear();
 
+  int const export_line = static_cast<int>(export_beg - layout_.begin());
+
   /* Export all of the remainder lines out to new_ll */
   new_ll.layout_.insert(new_ll.layout_.end(),
                         std::make_move_iterator(export_beg),
@@ -633,14 +638,13 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
                            std::make_move_iterator(fragments_.end()));
 
   /* update the main_txt line numbers for the new fragments  */
-  int const move_up = split_line + 1;
   for (auto &tt : new_ll.fragments_) {
-    tt.mt_begin_line_ -= move_up;
-    tt.mt_end_line_ -= move_up;
+    tt.mt_begin_line_ -= export_line;
+    tt.mt_end_line_ -= export_line;
   }
 
   /* Trim down this layout_ */
-  layout_.resize(split_line + 1);
+  layout_.resize(export_line);
 
   /* Statements is now invalid */
   clear_stmts();
-- 
2.43.0


From a0eb5f7cfc6d3b5cbfd25569d1f3810a610b43e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:06 +0000
Subject: [PATCH 26/91] fix: don't insert spaces into a token continued past a
 split line

---
 src/flpr/Logical_Line.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index a2a7b19..6d55afa 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -564,7 +564,9 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
       export_beg->right_txt = '&';
       size_t const new_rs =
           export_beg->right_txt.size() + lr_beg->mt_begin_col_ - 1;
-      if (export_beg->right_space.size() != new_rs) {
+      /* (no space inside of a token that is continued on the next line) */
+      if (!std::prev(lr_end)->is_split_token_() &&
+          export_beg->right_space.size() != new_rs) {
         export_beg->right_space.assign(new_rs, ' ');
       }
     } else {
-- 
2.43.0


From 0004251fcff63c1651168dbc07d85f56065e586d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:14 +0000
Subject: [PATCH 27/91] fix: don't look at the statement after the end of the
 file

---
 src/flpr/Prgm_Parsers_impl.hh  |  3 ++-
 src/flpr/Prgm_Parsers_utils.hh | 27 +++++++++++++++++++++------
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/flpr/Prgm_Parsers_impl.hh b/src/flpr/Prgm_Parsers_impl.hh
index cedfa32..c026112 100644
--- a/src/flpr/Prgm_Parsers_impl.hh
+++ b/src/flpr/Prgm_Parsers_impl.hh
@@ -165,7 +165,8 @@ PPARSER(executable_construct) {
   /* If the current statement has a label that matches a label-do-stmt label
      that we are looking for, we force a non-match so that the end-do-stmt rule
      can look at it */
-  if(state.do_label_stack.is_top(state.ss->label())) return PP_Result{};
+  if(!state.ss || state.do_label_stack.is_top(state.ss->label()))
+    return PP_Result{};
   EVAL(PG_EXECUTABLE_CONSTRUCT, p(state));
 }
 
diff --git a/src/flpr/Prgm_Parsers_utils.hh b/src/flpr/Prgm_Parsers_utils.hh
index 01c48a2..d2fe3ff 100644
--- a/src/flpr/Prgm_Parsers_utils.hh
+++ b/src/flpr/Prgm_Parsers_utils.hh
@@ -79,6 +79,17 @@ static void cover_branches(typename Prgm_Tree::reference node) {
   }
 }
 
+//! Report the statement that stopped the parse of \p syntag
+static void report_unrecognized(State &state, int const syntag) {
+  if (state.ss) {
+    std::cerr << "Unrecognized statement\n";
+    state.ss->print_me(std::cerr, false) << "\nwhile parsing ";
+  } else {
+    std::cerr << "Unexpected end of file\nwhile parsing ";
+  }
+  FLPR::Syntax_Tags::print(std::cerr, syntag) << std::endl;
+}
+
 /******************************* COMBINATORS **********************************/
 
 //! Return a result if any of the alternatives match
@@ -267,9 +278,7 @@ public:
     };
     bool const match = std::apply(fold, parsers_);
     if (!match) {
-      std::cerr << "Unrecognized statement\n";
-      state.ss->print_me(std::cerr, false) << "\nwhile parsing ";
-      FLPR::Syntax_Tags::print(std::cerr, syntag_) << std::endl;
+      report_unrecognized(state, syntag_);
       return PP_Result{};
     }
     if (root)
@@ -323,9 +332,7 @@ public:
     if (attach_if(parser0_)) {
       bool const match = std::apply(fold, rest_);
       if (!match) {
-        std::cerr << "Unrecognized statement\n";
-        state.ss->print_me(std::cerr, false) << "\nwhile parsing ";
-        FLPR::Syntax_Tags::print(std::cerr, syntag_) << std::endl;
+        report_unrecognized(state, syntag_);
         return PP_Result{};
       }
       if (root)
@@ -393,6 +400,8 @@ public:
   Statement_Parser(Statement_Parser const &) = default;
   constexpr explicit Statement_Parser(parser_function f) noexcept : f_{f} {}
   PP_Result operator()(State &state) const noexcept {
+    if (!state.ss)
+      return PP_Result{}; // no statement left
     FLPR::TT_Stream tts(*(state.ss));
     FLPR::Stmt::Stmt_Tree st = f_(tts);
     if (!st)
@@ -497,6 +506,9 @@ public:
   PP_Result operator()(State &state) const noexcept {
 
     /****************************** DO-STMT ***********************************/
+    if (!state.ss)
+      return PP_Result{}; // no statement left
+
     FLPR::Stmt::Stmt_Tree do_stmt_tree;
     {
       FLPR::TT_Stream tts(*(state.ss));
@@ -543,6 +555,9 @@ public:
 
     /*********************** TERMINATING STATEMENT ****************************/
 
+    if (!state.ss)
+      return PP_Result{}; // the file ends inside of the loop
+
     FLPR::TT_Stream tts(*(state.ss));
     FLPR::LL_STMT_SEQ::iterator end_stmt_it{state.ss};
     int end_stmt_pg_tag{TAG(UNKNOWN)};
-- 
2.43.0


From 1fc47a355579e1370211109cc0ef4b520a512f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:37 +0000
Subject: [PATCH 28/91] fix: a construct that doesn't parse gives its
 statements back

---
 src/flpr/Prgm_Parsers_utils.hh | 36 ++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/flpr/Prgm_Parsers_utils.hh b/src/flpr/Prgm_Parsers_utils.hh
index d2fe3ff..3c3a4ef 100644
--- a/src/flpr/Prgm_Parsers_utils.hh
+++ b/src/flpr/Prgm_Parsers_utils.hh
@@ -79,6 +79,23 @@ static void cover_branches(typename Prgm_Tree::reference node) {
   }
 }
 
+//! Where a parser started, to return there if it doesn't match
+class State_Mark {
+public:
+  explicit State_Mark(State const &state)
+      : ss_{state.ss}, num_labels_{state.do_label_stack.size()} {}
+  //! Give back the statements and do-labels taken since the mark was made
+  void rewind(State &state) const {
+    state.ss = ss_;
+    while (state.do_label_stack.size() > num_labels_)
+      state.do_label_stack.pop();
+  }
+
+private:
+  SL_Range_Iterator<LL_Stmt> ss_;
+  size_t num_labels_;
+};
+
 //! Report the statement that stopped the parse of \p syntag
 static void report_unrecognized(State &state, int const syntag) {
   if (state.ss) {
@@ -265,6 +282,7 @@ public:
   constexpr explicit Sequence_Parser(int const syntag, Ps &&... ps) noexcept
       : syntag_{syntag}, parsers_{std::forward<Ps>(ps)...} {}
   PP_Result operator()(State &state) const noexcept {
+    State_Mark const start{state};
     Prgm_Tree root(syntag_);
     auto attach_if = [&state, &root ](auto const &p) constexpr {
       auto [pt, match] = p(state);
@@ -279,6 +297,7 @@ public:
     bool const match = std::apply(fold, parsers_);
     if (!match) {
       report_unrecognized(state, syntag_);
+      start.rewind(state);
       return PP_Result{};
     }
     if (root)
@@ -313,6 +332,7 @@ public:
       : syntag_{syntag}, parser0_{p0}, rest_{std::forward<Ps>(ps)...} {}
 
   PP_Result operator()(State &state) const noexcept {
+    State_Mark const start{state};
     Prgm_Tree root(syntag_);
 
     /* define a functor to attach the parse tree if a parser matches */
@@ -333,6 +353,7 @@ public:
       bool const match = std::apply(fold, rest_);
       if (!match) {
         report_unrecognized(state, syntag_);
+        start.rewind(state);
         return PP_Result{};
       }
       if (root)
@@ -509,6 +530,7 @@ public:
     if (!state.ss)
       return PP_Result{}; // no statement left
 
+    State_Mark const start{state};
     FLPR::Stmt::Stmt_Tree do_stmt_tree;
     {
       FLPR::TT_Stream tts(*(state.ss));
@@ -555,8 +577,14 @@ public:
 
     /*********************** TERMINATING STATEMENT ****************************/
 
+    /* without the right terminating statement this isn't a do-construct */
+    auto no_match = [&state, &start]() {
+      start.rewind(state);
+      return PP_Result{};
+    };
+
     if (!state.ss)
-      return PP_Result{}; // the file ends inside of the loop
+      return no_match(); // the file ends inside of the loop
 
     FLPR::TT_Stream tts(*(state.ss));
     FLPR::LL_STMT_SEQ::iterator end_stmt_it{state.ss};
@@ -567,7 +595,7 @@ public:
     if (!state.ss->has_label()) {
       FLPR::Stmt::Stmt_Tree end_stmt_tree{FLPR::Stmt::end_do_stmt(tts)};
       if (!end_stmt_tree)
-        return PP_Result{}; // wasn't end-do-stmt, so match fails
+        return no_match(); // wasn't end-do-stmt, so match fails
       end_stmt_sg_tag = (*end_stmt_tree)->syntag;
       end_stmt_pg_tag = TAG(HOIST);
       do_construct_tag = TAG(PG_DO_CONSTRUCT);
@@ -598,7 +626,7 @@ public:
            an outer-shared-do-construct form of a nonblock-do-construct. */
         FLPR::Stmt::Stmt_Tree end_stmt_tree{FLPR::Stmt::action_stmt(tts)};
         if (!end_stmt_tree)
-          return PP_Result{};
+          return no_match();
 
         end_stmt_sg_tag = (*end_stmt_tree)->syntag;
         end_stmt_pg_tag = TAG(PG_DO_TERM_SHARED_STMT);
@@ -631,7 +659,7 @@ public:
           end_stmt_pg_tag = TAG(HOIST);
         }
         if (!end_stmt_tree)
-          return PP_Result{};
+          return no_match();
         end_stmt_sg_tag = (*end_stmt_tree)->syntag;
         end_stmt_it->set_stmt_tree(std::move(end_stmt_tree));
         state.ss.advance();
-- 
2.43.0


From 648c3556c43fcb5f4e50333e68981af4791fae9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:37 +0000
Subject: [PATCH 29/91] fix: end a do-construct only with its own label

---
 src/flpr/Prgm_Parsers_utils.hh | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/flpr/Prgm_Parsers_utils.hh b/src/flpr/Prgm_Parsers_utils.hh
index 3c3a4ef..057ce70 100644
--- a/src/flpr/Prgm_Parsers_utils.hh
+++ b/src/flpr/Prgm_Parsers_utils.hh
@@ -591,8 +591,11 @@ public:
     int end_stmt_pg_tag{TAG(UNKNOWN)};
     int end_stmt_sg_tag{TAG(UNKNOWN)};
 
-    /* Without a label, the only end-do this can be is a end-do-statment */
-    if (!state.ss->has_label()) {
+    /* Without a label on the do-stmt, the only end-do this can be is an
+       end-do-statment that isn't the end of an enclosing label-do */
+    if (label <= 0) {
+      if (state.do_label_stack.is_top(state.ss->label()))
+        return no_match();
       FLPR::Stmt::Stmt_Tree end_stmt_tree{FLPR::Stmt::end_do_stmt(tts)};
       if (!end_stmt_tree)
         return no_match(); // wasn't end-do-stmt, so match fails
@@ -615,10 +618,10 @@ public:
          label the layers of label-do-stmts, which is provided by Label_Stack
       */
 
-      int const label{state.ss->label()};
-      int const level{state.do_label_stack.level(label)};
+      int const level{state.do_label_stack.level(state.ss->label())};
 
-      assert(level > -1);
+      if (level < 0)
+        return no_match(); // not the label that the do-stmt asks for
 
       if (level > 0) {
         /* this is a do-term-shared-stmt, and the first N-1 label-do-stmts that
-- 
2.43.0


From f70b7a83cbdc24040aa5739f77a707356436807d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:37 +0000
Subject: [PATCH 30/91] fix: don't link the tree of a file that doesn't parse

---
 src/flpr/Parsed_File.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flpr/Parsed_File.hh b/src/flpr/Parsed_File.hh
index 960a0ba..a3b7065 100644
--- a/src/flpr/Parsed_File.hh
+++ b/src/flpr/Parsed_File.hh
@@ -181,6 +181,7 @@ template <typename PG_NODE_DATA> void Parsed_File<PG_NODE_DATA>::build_tree_() {
     if (!result.match) {
       std::cerr << "\tparsing FAILED" << std::endl;
       bad_state_ = true;
+      return;
     }
     parse_tree_.swap(result.parse_tree);
     link_stmts_recurse_(*parse_tree_);
-- 
2.43.0


From 6c3c139c69081c95170e8899211705d5f3891135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:37 +0000
Subject: [PATCH 31/91] fix: Parsed_File::read_file returns true on success

---
 src/flpr/Parsed_File.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/Parsed_File.hh b/src/flpr/Parsed_File.hh
index a3b7065..8c76227 100644
--- a/src/flpr/Parsed_File.hh
+++ b/src/flpr/Parsed_File.hh
@@ -165,7 +165,7 @@ bool Parsed_File<PG_NODE_DATA>::read_file(std::string const &filename,
   if (logical_file_.read_and_scan(filename, last_fixed_col, file_type)) {
     bad_state_ = false;
   }
-  return bad_state_;
+  return !bad_state_;
 }
 
 template <typename PG_NODE_DATA> void Parsed_File<PG_NODE_DATA>::build_tree_() {
-- 
2.43.0


From a36ac0460c6f817096ce83dcae2d3ec38f292c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:06 +0000
Subject: [PATCH 32/91] fix: rank and format statements aren't macro statements

---
 src/flpr/parse_stmt.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 7fe6153..e7e9f8e 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -2449,6 +2449,8 @@ Stmt_Tree macro_stmt(TT_Stream &ts) {
         neg(peek(TAG(KW_WHERE))),
         neg(peek(TAG(KW_FORALL))),
         neg(peek(TAG(KW_CASE))),
+        neg(peek(TAG(KW_RANK))),
+        neg(peek(TAG(KW_FORMAT))),
         name(),
         rule(consume_parens),
         eol());
-- 
2.43.0


From e9527b1f808417d2a46a3bc535b8579eaeafacca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:49 +0000
Subject: [PATCH 33/91] fix: a label has at most five digits

---
 src/flpr/parse_stmt.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index e7e9f8e..ecefcac 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -2299,6 +2299,7 @@ Stmt_Tree label(TT_Stream &ts) {
      actual rule is "digit [digit [digit [ digit [ digit ] ] ] ]" */
   constexpr auto p =
     tag_if(rule_tag, TOK(SG_INT_LITERAL_CONSTANT));
+  if(ts.peek_tt().text().size() > 5) return Stmt_Tree{};
   EVAL(SG_LABEL, p(ts));
 }
 
-- 
2.43.0


From 57ce789e13ea7880275fd8c0f9ac19f8fab2cb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:49 +0000
Subject: [PATCH 34/91] fix: a type may be both private and sequence

---
 src/flpr/Prgm_Parsers_impl.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/Prgm_Parsers_impl.hh b/src/flpr/Prgm_Parsers_impl.hh
index c026112..b1a869f 100644
--- a/src/flpr/Prgm_Parsers_impl.hh
+++ b/src/flpr/Prgm_Parsers_impl.hh
@@ -112,7 +112,7 @@ PPARSER(derived_type_def) {
   constexpr auto p =
     seq_if(rule_tag,
            STMT(derived_type_stmt),
-           opt(STMT(private_or_sequence)),
+           star(STMT(private_or_sequence)),
            component_part,
            opt(type_bound_procedure_part),
            STMT(end_type_stmt));
-- 
2.43.0


From a982569a0ab62f101782e190e60f596f9306f33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:50 +0000
Subject: [PATCH 35/91] fix: a statement with unbalanced parentheses doesn't
 parse

---
 src/flpr/parse_stmt.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index ecefcac..9333741 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -83,6 +83,9 @@ Stmt_Tree consume_until_break(TT_Stream &ts, int const rule_tag) {
         root.clear();
         break;
       }
+    } else if (Syntax_Tags::BAD == ts.peek()) {
+      // The statement ends inside of parentheses or brackets
+      FAIL;
     }
     /* See if we can collapse some multi-token sequences that can appear 
        in an expression */
@@ -103,6 +106,7 @@ Stmt_Tree consume_until_break(TT_Stream &ts, int const rule_tag) {
 
 //! helper function to consume until the matching PARENR
 Stmt_Tree consume_parens(TT_Stream &ts) {
+  INIT_FAIL;
   int nesting_depth = 1;
   if (Syntax_Tags::TK_PARENL != ts.peek())
     return Stmt_Tree{};
@@ -114,8 +118,8 @@ Stmt_Tree consume_parens(TT_Stream &ts) {
       nesting_depth += 1;
     } else if (Syntax_Tags::TK_PARENR == ts.peek()) {
       nesting_depth -= 1;
-    } else {
-      assert(Syntax_Tags::BAD != ts.peek());
+    } else if (Syntax_Tags::BAD == ts.peek()) {
+      FAIL; // no matching PARENR
     }
     root.graft_back(Stmt_Tree{ts.peek(), ts.digest(1)});
   }
-- 
2.43.0


From 3a6ed3536831f078f8e640fe59be6a028abbfe8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:53 +0000
Subject: [PATCH 36/91] fix: tag sync images and sync memory statements as such

---
 src/flpr/parse_stmt.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 9333741..fc685e9 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -3355,7 +3355,7 @@ Stmt_Tree sync_all_stmt(TT_Stream &ts) {
 
 //! R1164: sync-images-stmt (11.6.3)
 Stmt_Tree sync_images_stmt(TT_Stream &ts) {
-  RULE(SG_SYNC_ALL_STMT);
+  RULE(SG_SYNC_IMAGES_STMT);
   constexpr auto p =
     seq(rule_tag,
         TOK(KW_SYNC),
@@ -3379,7 +3379,7 @@ Stmt_Tree sync_memory_stmt(TT_Stream &ts) {
         TOK(KW_MEMORY),
         opt(h_parens(opt(h_list(rule(sync_stat))))),
         eol());
-  EVAL(SG_SYNC_ALL_STMT, p(ts));
+  EVAL(SG_SYNC_MEMORY_STMT, p(ts));
 }
 
 //! R1165: sync-stat (11.6.3)
-- 
2.43.0


From fb636865cf34d2c5ae47b0aa8c00520dbbd6e92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:53 +0000
Subject: [PATCH 37/91] fix: recognise .eqv. and .neqv. as intrinsic operators

---
 src/flpr/parse_stmt.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index fc685e9..33b0f31 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -1609,8 +1609,8 @@ Stmt_Tree equiv_op(TT_Stream &ts) {
   RULE(SG_EQUIV_OP);
   constexpr auto p =
     alts(rule_tag,
-         TOK(TK_REL_EQ),   // the lexer merges ".EQ." and "=="
-         TOK(TK_REL_NE));
+         TOK(TK_EQV_OP),
+         TOK(TK_NEQV_OP));
   EVAL(SG_EQUIV_OP, p(ts));
 }
 
@@ -3067,6 +3067,8 @@ Stmt_Tree rel_op(TT_Stream &ts) {
   RULE(SG_REL_OP);
   constexpr auto p =
     alts(rule_tag,
+         TOK(TK_REL_EQ),  // the lexer merges .EQ. and ==
+         TOK(TK_REL_NE),
          TOK(TK_REL_LT),  // the lexer merges .LT. and <
          TOK(TK_REL_LE),  // similar for the rest of these
          TOK(TK_REL_GT),
-- 
2.43.0


From 9960b36b045c6d4a5d308459c38465c9e56c07d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:53 +0000
Subject: [PATCH 38/91] fix: require the end of the statement after "abstract
 interface"

---
 src/flpr/parse_stmt.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 33b0f31..9969221 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -2175,7 +2175,7 @@ Stmt_Tree interface_stmt(TT_Stream &ts) {
   constexpr auto p =
     alts(rule_tag,
          h_seq(TOK(KW_INTERFACE), opt(rule(generic_spec)), eol()),
-         h_seq(TOK(KW_ABSTRACT), TOK(KW_INTERFACE)), eol());
+         h_seq(TOK(KW_ABSTRACT), TOK(KW_INTERFACE), eol()));
   EVAL(SG_INTERFACE_STMT, p(ts));
 }
 
-- 
2.43.0


From 81a5ba6daafd1624e3267481b970abcc26b75b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:53 +0000
Subject: [PATCH 39/91] fix: require the end of the statement after "import,
 none" and "import, all"

---
 src/flpr/parse_stmt.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 9969221..31968d1 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -2085,7 +2085,7 @@ Stmt_Tree import_stmt(TT_Stream &ts) {
          h_seq(TOK(KW_IMPORT), TOK(TK_COMMA), TOK(KW_ONLY), TOK(TK_COLON),
                list(TAG(SG_IMPORT_NAME_LIST), name()), eol()),
          h_seq(TOK(KW_IMPORT), TOK(TK_COMMA),
-               h_alts(TOK(KW_NONE), TOK(KW_ALL))), eol());
+               h_alts(TOK(KW_NONE), TOK(KW_ALL)), eol()));
   EVAL(SG_IMPORT_STMT, p(ts));
 }
 
-- 
2.43.0


From 56c71ed054b3d0f8a3ebce8d443f46fe6a8eda7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:53 +0000
Subject: [PATCH 40/91] fix: a component's coarray-spec is written in brackets

---
 src/flpr/parse_stmt.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 31968d1..8520cdf 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -857,7 +857,7 @@ Stmt_Tree component_decl(TT_Stream &ts) {
     seq(rule_tag,
         name(), // component-name
         opt(h_parens(rule(component_array_spec))),
-        opt(h_parens(rule(coarray_spec))),
+        opt(h_brackets(rule(coarray_spec))),
         opt(h_seq(TOK(TK_ASTERISK), rule(char_length))),
         opt(rule(component_initialization)));
   EVAL(SG_COMPONENT_DECL, p(ts));
-- 
2.43.0


From 64c36928ebdab0607d1b109d0c2bc97d72dab37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:53 +0000
Subject: [PATCH 41/91] fix: accept the name in a submodule statement

---
 src/flpr/parse_stmt.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 8520cdf..a7dadb0 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -3288,6 +3288,7 @@ Stmt_Tree submodule_stmt(TT_Stream &ts) {
     seq(rule_tag, TOK(KW_SUBMODULE), TOK(TK_PARENL),
         name(), opt(h_seq(TOK(TK_COLON), name())),
         TOK(TK_PARENR),
+        name(), // submodule-name
         eol());
   EVAL(SG_SUBMODULE_STMT, p(ts));
 }
-- 
2.43.0


From dec913d7a3a4a64775e9a1352b4ea2a751d6a677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:53 +0000
Subject: [PATCH 42/91] fix: accept the construct name in a select-rank-case
 statement

---
 src/flpr/parse_stmt.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index a7dadb0..a75175f 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -3184,6 +3184,7 @@ Stmt_Tree select_rank_case_stmt(TT_Stream &ts) {
         h_alts(TOK(KW_DEFAULT),
                h_parens(TOK(TK_ASTERISK)),
                h_parens(rule(int_constant_expr))),
+        opt(name()), // select-construct-name
         eol());
   EVAL(SG_SELECT_RANK_CASE_STMT, p(ts));
 }
-- 
2.43.0


From 114b9997d418af803eb458c146cb56d9aa53f3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:53 +0000
Subject: [PATCH 43/91] fix: the comma between the sets of a data statement is
 optional

---
 src/flpr/parse_stmt.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index a75175f..d30ab0c 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -1038,8 +1038,10 @@ Stmt_Tree data_stmt(TT_Stream &ts) {
   constexpr auto p =
     seq(rule_tag,
         TOK(KW_DATA),
-        list(TAG(SG_DATA_STMT_SET_LIST),
-             rule(data_stmt_set)),
+        seq(TAG(SG_DATA_STMT_SET_LIST),
+            rule(data_stmt_set),
+            star(h_seq(opt(TOK(TK_COMMA)),
+                       rule(data_stmt_set)))),
         eol()
         );
   EVAL(SG_DATA_STMT, p(ts));
-- 
2.43.0


From b841ec03a9c2abb870737313e6c60b502247d49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:22 +0000
Subject: [PATCH 44/91] fix: recognise null() wherever a null-init may be
 written

---
 src/flpr/parse_stmt.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index d30ab0c..b97a0c1 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -145,6 +145,17 @@ Stmt_Tree list_name(TT_Stream &ts) {
   return Stmt_Tree{};
 }
 
+//! helper: null-init (R806), a reference to NULL without arguments
+/*! function_reference() cannot be used here, as it only works at the end of a
+    statement. */
+Stmt_Tree null_init(TT_Stream &ts) {
+  auto p = seq(Syntax_Tags::SG_NULL_INIT,
+               seq(Syntax_Tags::SG_FUNCTION_REFERENCE,
+                   seq(Syntax_Tags::SG_PROCEDURE_DESIGNATOR, name()),
+                   TOK(TK_PARENL), TOK(TK_PARENR)));
+  return p(ts);
+}
+
 //! helper: bind_c (local)
 Stmt_Tree bind_c(TT_Stream &ts) {
   auto p = h_seq(TOK(KW_BIND), TOK(TK_PARENL), literal("c"), TOK(TK_PARENR));
@@ -1056,7 +1067,7 @@ Stmt_Tree data_stmt_constant(TT_Stream &ts) {
          rule(signed_real_literal_constant),
          h_seq(opt(rule(sign)), TOK(SG_INT_LITERAL_CONSTANT)),
          rule(logical_literal_constant),
-         tag_if(TAG(SG_NULL_INIT), rule(function_reference)),
+         rule(null_init),
          tag_if(TAG(SG_INITIAL_DATA_TARGET), rule(designator)),
          rule(structure_constructor)
          );
@@ -2898,7 +2909,7 @@ Stmt_Tree proc_pointer_init(TT_Stream &ts) {
   RULE(SG_PROC_POINTER_INIT);
   constexpr auto p =
     alts(rule_tag,
-         tag_if(TAG(SG_NULL_INIT), rule(function_reference)),
+         rule(null_init),
          name() // initial-proc-target
          );
   EVAL(SG_PROC_POINTER_INIT, p(ts));
-- 
2.43.0


From f53c5a8e39f68308e678efd96e04a635249d6929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:22 +0000
Subject: [PATCH 45/91] fix: recognise structure constructors in data
 statements

---
 src/flpr/parse_stmt.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index b97a0c1..c39f5e8 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -1068,7 +1068,8 @@ Stmt_Tree data_stmt_constant(TT_Stream &ts) {
          h_seq(opt(rule(sign)), TOK(SG_INT_LITERAL_CONSTANT)),
          rule(logical_literal_constant),
          rule(null_init),
-         tag_if(TAG(SG_INITIAL_DATA_TARGET), rule(designator)),
+         tag_if(TAG(SG_INITIAL_DATA_TARGET),
+                h_seq(rule(designator), neg(peek(TAG(TK_PARENL))))),
          rule(structure_constructor)
          );
   EVAL(SG_DATA_STMT_CONSTANT, p(ts));
@@ -3288,10 +3289,15 @@ Stmt_Tree structure_component(TT_Stream &ts) {
 Stmt_Tree structure_constructor(TT_Stream &ts) {
   RULE(SG_STRUCTURE_CONSTRUCTOR);
   constexpr auto p =
-    seq(rule_tag,
-        rule(derived_type_spec),
-        h_parens(opt(list(TAG(SG_COMPONENT_SPEC_LIST),
-                          rule(component_spec)))));
+    alts(rule_tag,
+         // a type with parameters
+         h_seq(rule(derived_type_spec),
+               h_parens(opt(list(TAG(SG_COMPONENT_SPEC_LIST),
+                                 rule(component_spec))))),
+         // derived_type_spec would consume the component-spec-list
+         h_seq(tag_if(TAG(SG_DERIVED_TYPE_SPEC), name()),
+               h_parens(opt(list(TAG(SG_COMPONENT_SPEC_LIST),
+                                 rule(component_spec))))));
   EVAL(SG_STRUCTURE_CONSTRUCTOR, p(ts));
 }
 
-- 
2.43.0


From 4078e50db954beacf637de96cc44a2ddc64da59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:22 +0000
Subject: [PATCH 46/91] fix: accept an array element as the repeat count of a
 data statement

---
 src/flpr/parse_stmt.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index c39f5e8..892bb5b 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -1091,7 +1091,7 @@ Stmt_Tree data_stmt_repeat(TT_Stream &ts) {
   constexpr auto p =
     alts(rule_tag,
          TOK(SG_INT_LITERAL_CONSTANT),  // integer-constant
-         name(),
+         h_seq(name(), peek(TAG(TK_ASTERISK))),
          rule(designator)  // int-constant-subobject
          );
   EVAL(SG_DATA_STMT_REPEAT, p(ts));
-- 
2.43.0


From db2ff1d3fc7a717aeef37cbe3af34fc5e4914c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:22 +0000
Subject: [PATCH 47/91] fix: accept a substring of an array element in an
 equivalence statement

---
 src/flpr/parse_stmt.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 892bb5b..abb47cd 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -1633,8 +1633,8 @@ Stmt_Tree equivalence_object(TT_Stream &ts) {
   RULE(SG_EQUIVALENCE_OBJECT);
   constexpr auto p =
     alts(rule_tag,
+         rule(substring), // check the longer form first
          rule(array_element),
-         rule(substring),
          tag_if(TAG(SG_VARIABLE_NAME), name()));
   EVAL(SG_EQUIVALENCE_OBJECT, p(ts));
 }
-- 
2.43.0


From d31f44a7e995305ece765ba4d6e13555a0e7ae0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:22 +0000
Subject: [PATCH 48/91] fix: recognise a function reference without arguments
 as a variable

---
 src/flpr/parse_stmt.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index abb47cd..9626088 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -3752,6 +3752,14 @@ Stmt_Tree variable(TT_Stream &ts) {
     alts(rule_tag,
          // func-ref needs to be first to accept "name()"
          rule(function_reference),
+         h_seq(rule(designator), neg(peek(TAG(TK_PARENL)))),
+         // function_reference only works at the end of a statement
+         seq(TAG(SG_FUNCTION_REFERENCE),
+             seq(TAG(SG_PROCEDURE_DESIGNATOR),
+                 star(h_seq(rule(part_ref), TOK(TK_PERCENT))),
+                 name()),
+             h_parens(opt(list(TAG(SG_ACTUAL_ARG_SPEC_LIST),
+                               rule(actual_arg_spec))))),
          rule(designator)
          );
   EVAL(SG_VARIABLE, p(ts));
-- 
2.43.0


From f29617efd1ee24a39eea7de7b47e2faf16497ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:39 +0000
Subject: [PATCH 49/91] fix: accept a type with parameters as a procedure
 interface

---
 src/flpr/parse_stmt.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 9626088..6b4ecd6 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -2892,8 +2892,9 @@ Stmt_Tree proc_interface(TT_Stream &ts) {
   RULE(SG_PROC_INTERFACE);
   constexpr auto p =
     alts(rule_tag,
-         name(), // interface-name
-         rule(declaration_type_spec));
+         // first, because an interface-name matches the keyword of a type
+         rule(declaration_type_spec),
+         name()); // interface-name
   EVAL(SG_PROC_INTERFACE, p(ts));
 }
 
-- 
2.43.0


From a9e547408e7bc51c2d7aec83d19f3af82e93a837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:16 +0000
Subject: [PATCH 50/91] fix: accept alternate returns among the arguments of a
 call

---
 src/flpr/parse_stmt.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 6b4ecd6..ab61d78 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -259,9 +259,10 @@ Stmt_Tree actual_arg(TT_Stream &ts) {
   RULE(SG_ACTUAL_ARG);
   /* procedure-name and proc-component-ref reduce to data-ref in variable */
   constexpr auto p =
-    seq(rule_tag,
-        rule(expr)
-        );
+    alts(rule_tag,
+         rule(expr),
+         h_seq(TOK(TK_ASTERISK), rule(label))  // R1525: alt-return-spec
+         );
   EVAL(SG_ACTUAL_ARG, p(ts));
 }
 
-- 
2.43.0


From d0d18c0e91c20be37cc2aababdf2b60237033114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:10 +0000
Subject: [PATCH 51/91] fix: an expression does not contain =>

---
 src/flpr/parse_stmt.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index ab61d78..7b0cc5d 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -78,7 +78,8 @@ Stmt_Tree consume_until_break(TT_Stream &ts, int const rule_tag) {
         break;
       if (Syntax_Tags::TK_COLON == ts.peek())
         break;
-      if (Syntax_Tags::TK_EQUAL == ts.peek()) {
+      if (Syntax_Tags::TK_EQUAL == ts.peek() ||
+          Syntax_Tags::TK_ARROW == ts.peek()) {
         FAIL;
         root.clear();
         break;
-- 
2.43.0


From a89d5d6be4b420eadd40a650b192b7c0ff9f78dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:25 +0000
Subject: [PATCH 52/91] fix: parentheses and brackets close what they opened

---
 src/flpr/parse_stmt.cc | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 7b0cc5d..bccda0f 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -19,6 +19,7 @@
 #define TRACE_SG 0
 
 #include <iostream>
+#include <vector>
 
 namespace FLPR {
 namespace Stmt {
@@ -55,22 +56,21 @@ namespace Stmt {
 //! Subparser to consume until the end of an expression
 Stmt_Tree consume_until_break(TT_Stream &ts, int const rule_tag) {
   INIT_FAIL;
-  int nesting_depth = 1;
+  std::vector<int> closers; // expected, innermost last
   Stmt_Tree root{rule_tag};
-  while (nesting_depth > 0) {
+  while (true) {
     if (Syntax_Tags::TK_PARENL == ts.peek()) {
-      nesting_depth += 1;
+      closers.push_back(Syntax_Tags::TK_PARENR);
     } else if (Syntax_Tags::TK_BRACKETL == ts.peek()) {
-      nesting_depth += 1;
-    } else if (Syntax_Tags::TK_PARENR == ts.peek()) {
-      nesting_depth -= 1;
-      if (!nesting_depth)
+      closers.push_back(Syntax_Tags::TK_BRACKETR);
+    } else if (Syntax_Tags::TK_PARENR == ts.peek() ||
+               Syntax_Tags::TK_BRACKETR == ts.peek()) {
+      if (closers.empty())
         break;
-    } else if (Syntax_Tags::TK_BRACKETR == ts.peek()) {
-      nesting_depth -= 1;
-      if (!nesting_depth)
-        break;
-    } else if (nesting_depth == 1) {
+      if (closers.back() != ts.peek())
+        FAIL;
+      closers.pop_back();
+    } else if (closers.empty()) {
       // Other things you can run into that terminate an expression
       if (Syntax_Tags::BAD == ts.peek())
         break;
@@ -108,17 +108,22 @@ Stmt_Tree consume_until_break(TT_Stream &ts, int const rule_tag) {
 //! helper function to consume until the matching PARENR
 Stmt_Tree consume_parens(TT_Stream &ts) {
   INIT_FAIL;
-  int nesting_depth = 1;
   if (Syntax_Tags::TK_PARENL != ts.peek())
     return Stmt_Tree{};
 
+  std::vector<int> closers{Syntax_Tags::TK_PARENR}; // expected, innermost last
   Stmt_Tree root{Syntax_Tags::HOIST};
   root.graft_back(Stmt_Tree{ts.peek(), ts.digest(1)});
-  while (nesting_depth > 0) {
+  while (!closers.empty()) {
     if (Syntax_Tags::TK_PARENL == ts.peek()) {
-      nesting_depth += 1;
-    } else if (Syntax_Tags::TK_PARENR == ts.peek()) {
-      nesting_depth -= 1;
+      closers.push_back(Syntax_Tags::TK_PARENR);
+    } else if (Syntax_Tags::TK_BRACKETL == ts.peek()) {
+      closers.push_back(Syntax_Tags::TK_BRACKETR);
+    } else if (Syntax_Tags::TK_PARENR == ts.peek() ||
+               Syntax_Tags::TK_BRACKETR == ts.peek()) {
+      if (closers.back() != ts.peek())
+        FAIL;
+      closers.pop_back();
     } else if (Syntax_Tags::BAD == ts.peek()) {
       FAIL; // no matching PARENR
     }
-- 
2.43.0


From eafd3257cfaef93708ec53b268bf26ef998407f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:44 +0000
Subject: [PATCH 53/91] fix: accept a read statement whose format is in
 parentheses

---
 src/flpr/parse_stmt.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index bccda0f..ca13d10 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -3060,6 +3060,8 @@ Stmt_Tree read_stmt(TT_Stream &ts) {
             // This first alternative fakes the io-control-spec-list
             h_seq(tag_if(TAG(SG_IO_CONTROL_SPEC_LIST),
                          rule(consume_parens)),
+                  // otherwise, a format: "read ('(a)'), x"
+                  neg(peek(TAG(TK_COMMA))),
                   opt(list(TAG(SG_INPUT_ITEM_LIST),
                            rule(input_item)))),
             h_seq(rule(format),
-- 
2.43.0


From 141f77394f9e1a3b00e9705914f7ec66246cadb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:18 +0000
Subject: [PATCH 54/91] fix: only the mark that begins a comment line is its
 start

---
 src/flpr/File_Line.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 73c8dc9..bcab326 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -472,8 +472,10 @@ size_t File_Line::size() const noexcept {
 
 bool File_Line::set_leading_spaces(int const spaces) {
   if (is_comment()) {
-    std::string::size_type pos = left_txt.find('!');
-    if (pos != std::string::npos) {
+    std::string::size_type pos = left_txt.find_first_not_of(" \t");
+    /* (fixed-format comments that begin with C or * have to stay in column 1)
+     */
+    if (pos != std::string::npos && left_txt[pos] == '!') {
       left_space.clear();
       main_txt.clear();
       right_space.clear();
-- 
2.43.0


From 6139ae1a10f85da4360c553652f5acff7185df1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:18 +0000
Subject: [PATCH 55/91] fix: do not move a fixed-format comment into the
 continuation column

---
 src/flpr/File_Line.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index bcab326..28bbefe 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -482,6 +482,8 @@ bool File_Line::set_leading_spaces(int const spaces) {
       right_txt.clear();
       if (static_cast<int>(pos) == spaces)
         return false; // no change needed
+      if (is_fixed_format() && spaces == 5)
+        return false; // it would become a continuation line
 
       /* If the comment began in the first column, it could have been from
          fixed-format.  Remove any empty control columns. */
-- 
2.43.0


From 58b2b1d959bda9b1908960e78d731b01dad5a534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:18 +0000
Subject: [PATCH 56/91] fix: make room in front of a trailing comment when
 indenting

---
 src/flpr/File_Line.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 28bbefe..dd02316 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -579,7 +579,7 @@ bool File_Line::set_leading_spaces(int const spaces) {
         if (offset < 0) {
           /* The main_txt moved left, so we can introduce more spaces on the
              right */
-          right_space.insert(pos, -offset, ' ');
+          right_space.append(-offset, ' ');
         } else {
           /* The main_txt moved right, so see if we can squeeze right_space */
           int const min_size = (right_space.empty()) ? 0 : 1;
-- 
2.43.0


From f59381e430a437143ef28f72e5b2af19a67ec0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:18 +0000
Subject: [PATCH 57/91] fix: do not report a change of indentation that was not
 made

---
 src/flpr/File_Line.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index dd02316..b38e3e4 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -566,9 +566,15 @@ bool File_Line::set_leading_spaces(int const spaces) {
           assert(pos != std::string::npos);
           size_t const desired = orig_spaces - spaces;
           size_t const remove_count = std::min(pos, desired);
+          if (remove_count == 0)
+            return false; // nothing to remove
           offset = -remove_count;
           left_txt.erase(0, remove_count);
         }
+      } else {
+        /* Leave fixed-format continuation lines: there may be text in front of
+           the first non-blank (in a character context) */
+        return false;
       }
     }
     /* See if we can adjust spacing to leave right_txt comments in their
-- 
2.43.0


From b0895dad3aebf301c817303afc25c2b070f5e364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:18 +0000
Subject: [PATCH 58/91] fix: indent labelled fixed-format lines like the others

---
 src/flpr/File_Line.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index b38e3e4..c07451b 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -527,7 +527,8 @@ bool File_Line::set_leading_spaces(int const spaces) {
   } else if (is_fortran()) {
     int orig_spaces{-1};
     int offset;
-    if (left_txt.empty()) {
+    if (left_txt.empty() || (is_fixed_format() && !is_continuation())) {
+      /* (left_txt always takes up six columns in fixed format) */
       if (static_cast<int>(left_space.size()) == spaces)
         return false; // no change needed
       orig_spaces = left_space.size();
-- 
2.43.0


From 0246056c5e7c1f6a20ab5fedc1b4598d481787d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:37 +0000
Subject: [PATCH 59/91] fix: do not move fixed-format lines that end inside a
 character context

---
 src/flpr/File_Line.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index c07451b..948798f 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -527,6 +527,9 @@ bool File_Line::set_leading_spaces(int const spaces) {
   } else if (is_fortran()) {
     int orig_spaces{-1};
     int offset;
+    /* The character context includes everything up to the last column */
+    if (is_fixed_format() && open_delim)
+      return false;
     if (left_txt.empty() || (is_fixed_format() && !is_continuation())) {
       /* (left_txt always takes up six columns in fixed format) */
       if (static_cast<int>(left_space.size()) == spaces)
-- 
2.43.0


From 535e66dbf50ace380259be4b2d4a91df73ff30cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:41 +0000
Subject: [PATCH 60/91] fix: an ampersand in column 73 stays there when its
 line is indented

---
 src/flpr/File_Line.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 948798f..ed581d4 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -582,10 +582,11 @@ bool File_Line::set_leading_spaces(int const spaces) {
       }
     }
     /* See if we can adjust spacing to leave right_txt comments in their
-       original position */
+       original position (and anything beyond the fixed-format columns, which
+       would turn into statement text when moved left) */
     if (!right_txt.empty() && offset) {
       std::string::size_type pos = right_txt.find('!');
-      if (pos != std::string::npos) {
+      if (pos != std::string::npos || is_fixed_format()) {
         if (offset < 0) {
           /* The main_txt moved left, so we can introduce more spaces on the
              right */
-- 
2.43.0


From ed9fefdd1bc93a07868f9dc3334c1d863ed329b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:19 +0000
Subject: [PATCH 61/91] fix: the first statement line of a logical line is not
 indented as continued

---
 src/flpr/Logical_Line.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 6d55afa..a8f3dca 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -748,11 +748,16 @@ bool Logical_Line::set_leading_spaces(int const spaces, int continued_offset) {
     continued_offset = 0;
   bool changed = false;
 
-  // Re-indent the first File_Line
-  changed |= layout_[0].set_leading_spaces(spaces);
-  // Re-indent any continuation File_Lines
+  // Re-indent everything through the first Fortran File_Line
   size_t const N = layout_.size();
-  for (size_t i = 1; i < N; ++i) {
+  size_t i = 0;
+  while (i < N) {
+    changed |= layout_[i].set_leading_spaces(spaces);
+    if (layout_[i++].is_fortran())
+      break;
+  }
+  // Re-indent any continuation File_Lines
+  for (; i < N; ++i) {
     changed |= layout_[i].set_leading_spaces(spaces + continued_offset);
   }
   return changed;
-- 
2.43.0


From 2c0a799eec33d3d87eadb0b51540834a4d678a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:04 +0000
Subject: [PATCH 62/91] fix: keep the label columns when converting to free
 form

---
 src/flpr/Logical_File.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 5a3344a..6c80dd9 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -573,9 +573,12 @@ bool Logical_File::convert_fixed_to_free() {
 
           /* Adjust left_txt and left_spaces */
           if (curr_fortran_line == 0) {
-            if (fl.left_txt.empty()) {
-              fl.left_space.insert(0, 6, ' ');
+            if (fl.left_txt.size() == 6) {
+              /* drop a zero from the continuation column */
+              fl.left_txt.erase(fl.left_txt.find_last_not_of(' ', 4) + 1);
             }
+            /* the control columns are padded in fixed format */
+            fl.left_space.insert(0, 6 - fl.left_txt.size(), ' ');
           } else {
             /* Need to adjust the control column 6 continuation mark */
             assert(fl.left_txt.size() == 6);
-- 
2.43.0


From 0eb705f38dd7940f0d22b9e9f7180eb8ed28ce67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:01 +0000
Subject: [PATCH 63/91] fix: mark every line that continues a token when
 converting to free form

---
 src/flpr/Logical_File.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 6c80dd9..5d1fac8 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -544,11 +544,11 @@ bool Logical_File::convert_fixed_to_free() {
 
       /* Scan the tokens to find multiline tokens (continued strings or tokens
          that are split across two lines */
-      std::deque<size_t> needs_front_continuation;
+      std::vector<bool> needs_front_continuation(N_FL, false);
       for (auto const &tt : ll.fragments()) {
         if (tt.is_split_token_()) {
           for (int fli = tt.mt_begin_line_ + 1; fli <= tt.mt_end_line_; ++fli) {
-            needs_front_continuation.push_back(static_cast<size_t>(fli));
+            needs_front_continuation[fli] = true;
           }
         }
       }
@@ -583,9 +583,7 @@ bool Logical_File::convert_fixed_to_free() {
             /* Need to adjust the control column 6 continuation mark */
             assert(fl.left_txt.size() == 6);
 
-            if (!needs_front_continuation.empty() &&
-                needs_front_continuation.front() == curr_idx) {
-              needs_front_continuation.pop_front();
+            if (needs_front_continuation[curr_idx]) {
               fl.left_txt[5] = '&';
             } else {
               layout[curr_idx].unset_classification(
-- 
2.43.0


From 922d6ace7e64a18447de04444203473627d629cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:17 +0000
Subject: [PATCH 64/91] fix: text beyond the fixed-format columns is no part of
 a free-form statement

---
 src/flpr/Logical_File.cc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 5d1fac8..5a9d518 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -557,13 +557,26 @@ bool Logical_File::convert_fixed_to_free() {
       for (size_t curr_idx = 0; curr_idx < N_FL; ++curr_idx) {
         if (layout[curr_idx].is_fortran()) {
           File_Line &fl = layout[curr_idx];
+          /* An ampersand beyond the last column would be a continuation */
+          auto const amp = fl.right_txt.find_first_not_of(" \t");
+          if (amp != std::string::npos && fl.right_txt[amp] == '&') {
+            fl.right_txt.erase(0, amp + 1);
+            auto const rest = fl.right_txt.find_first_not_of(" \t\r");
+            if (rest == std::string::npos)
+              fl.right_txt.clear();
+            else if (fl.right_txt[rest] != '!')
+              fl.right_txt.insert(0, "! ");
+          }
+          /* A comment can't follow an open character context */
+          if (fl.open_delim != '\0')
+            fl.right_txt.clear();
           if (curr_fortran_line + 1 < total_fortran_lines) {
             /* Need to add a trailing continuation mark */
             if (fl.right_txt.empty()) {
               fl.right_txt = "&";
             } else {
               fl.right_txt.insert(0, "& ");
-              if (fl.open_delim == '\0' && fl.right_space.size() > 2) {
+              if (fl.right_space.size() > 2) {
                 fl.right_space.erase(0, 2);
               }
             }
-- 
2.43.0


From 6bb7467e14fdf9e5de3fd58d192eed1612dc6e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:17 +0000
Subject: [PATCH 65/91] fix: convert the mark of a directive line, too, to free
 form

---
 src/flpr/Logical_File.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 5a9d518..f776c14 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -611,7 +611,8 @@ bool Logical_File::convert_fixed_to_free() {
             }
           }
           curr_fortran_line += 1;
-        } else if (layout[curr_idx].is_comment()) {
+        } else if (layout[curr_idx].is_comment() ||
+                   layout[curr_idx].is_flpr_pp()) {
           /* The only thing that we have to change is a comment initiated by a
              character in control column one... anything else that has been
              identified as a comment line must already begin with a '!' */
@@ -625,7 +626,7 @@ bool Logical_File::convert_fixed_to_free() {
       /* This is a non-Fortran Logical_Line, so we just have to adjust comments,
          and not worry about continuations. */
       for (size_t curr_idx = 0; curr_idx < N_FL; ++curr_idx) {
-        if (layout[curr_idx].is_comment()) {
+        if (layout[curr_idx].is_comment() || layout[curr_idx].is_flpr_pp()) {
           File_Line &fl = layout[curr_idx];
           assert(!fl.left_txt.empty());
           if (fl.left_txt[0] != ' ')
-- 
2.43.0


From c1f737368ec5ac09320dddf71b3cc6e737032a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:17 +0000
Subject: [PATCH 66/91] fix: only replace the comment marks of fixed form

---
 src/flpr/Logical_File.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index f776c14..3bf6a32 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -618,7 +618,7 @@ bool Logical_File::convert_fixed_to_free() {
              identified as a comment line must already begin with a '!' */
           File_Line &fl = layout[curr_idx];
           assert(!fl.left_txt.empty());
-          if (fl.left_txt[0] != ' ')
+          if (!std::isspace(fl.left_txt[0]))
             fl.left_txt[0] = '!';
         }
       }
@@ -629,7 +629,7 @@ bool Logical_File::convert_fixed_to_free() {
         if (layout[curr_idx].is_comment() || layout[curr_idx].is_flpr_pp()) {
           File_Line &fl = layout[curr_idx];
           assert(!fl.left_txt.empty());
-          if (fl.left_txt[0] != ' ')
+          if (!std::isspace(fl.left_txt[0]))
             fl.left_txt[0] = '!';
         }
       }
-- 
2.43.0


From 64e00f04c6e3371b11fe97c9070fdff5af71476e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:01 +0000
Subject: [PATCH 67/91] fix: a range partition with one active part is not
 inactive

---
 src/flpr/Range_Partition.hh | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/flpr/Range_Partition.hh b/src/flpr/Range_Partition.hh
index be97d04..c27a3de 100644
--- a/src/flpr/Range_Partition.hh
+++ b/src/flpr/Range_Partition.hh
@@ -167,14 +167,25 @@ private:
     std::optional<Chg_Trkr> chg_trkr;
 
   public:
-    constexpr bool active() const noexcept { return pred != succ; }
+    /* Note that the only active partition has pred == succ == end_idx_ */
+    constexpr bool active() const noexcept { return active_; }
+    constexpr void activate(const_index new_pred,
+                            const_index new_succ) noexcept {
+      pred = new_pred;
+      succ = new_succ;
+      active_ = true;
+    }
     constexpr void deactivate(const_index my_idx) noexcept {
       pred = my_idx;
       succ = my_idx;
+      active_ = false;
     }
     constexpr bool okay() const noexcept {
       return pred != bad_idx && succ != bad_idx;
     }
+
+  private:
+    bool active_{false};
   };
 
   std::vector<Partition> parts_;
@@ -227,8 +238,7 @@ private:
       parts_[pred].succ = idx;
       parts_[succ].pred = idx;
       parts_[idx].begin = parts_[succ].begin;
-      parts_[idx].pred = pred;
-      parts_[idx].succ = succ;
+      parts_[idx].activate(pred, succ);
     }
   }
   constexpr void deactivate_(const_index idx) noexcept {
-- 
2.43.0


From 7f937b937de06de0ca662040cfa772a9ca98fdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:39 +0000
Subject: [PATCH 68/91] fix: a statement inserted at the beginning of a region
 is in that region

---
 src/flpr/Procedure.hh       |  4 ++--
 src/flpr/Range_Partition.hh | 16 +++++++++++-----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/flpr/Procedure.hh b/src/flpr/Procedure.hh
index e532ca8..4e03795 100644
--- a/src/flpr/Procedure.hh
+++ b/src/flpr/Procedure.hh
@@ -167,7 +167,7 @@ public:
   //! emplace a single statement, stored in ll, before position pos
   /*! \param[in] new_syntag the Syntax_Tag for this statement
       \param[in] before_prefix if true, the new statement is inserted
-                 _under_ the prefix of pos.  If false, it is inserted _above_
+                 _above_ the prefix of pos.  If false, it is inserted _under_
                  the prefix of pos.
   */
   Region_Iterator emplace_stmt(Region_Iterator pos, Logical_Line &&ll,
@@ -179,7 +179,7 @@ public:
     else
       iter = file_.logical_file().emplace_ll_stmt_after_prefix(
           pos, std::move(ll), new_syntag);
-    ranges_.insert(pos.get_region(), pos, iter);
+    ranges_.insert(pos.get_region(), iter, pos);
     return Region_Iterator(pos.get_region(), iter);
   }
 
diff --git a/src/flpr/Range_Partition.hh b/src/flpr/Range_Partition.hh
index c27a3de..d48365a 100644
--- a/src/flpr/Range_Partition.hh
+++ b/src/flpr/Range_Partition.hh
@@ -138,15 +138,21 @@ public:
   void insert(const_index idx, iterator new_begin, iterator insert_pos) {
     assert(active_idx_(idx));
     difference_type const size_change = std::distance(new_begin, insert_pos);
-    iterator old_begin = begin();
+    iterator old_begin = parts_[idx].begin;
     if (insert_pos == old_begin) {
-      /* inserting before the body changes our begin, and we tell the tracker
-         for the previous partition that their end has changed. */
+      /* inserting before the body changes our begin (and that of the empty
+         partitions right before us), and we tell the tracker for the previous
+         partition that their end has changed. */
       parts_[idx].begin = new_begin;
       if (has_tracker(idx))
         parts_[idx].chg_trkr->update_begin(old_begin, new_begin, size_change);
-      if (valid_idx_(idx - 1) && has_tracker(idx - 1)) {
-        parts_[idx - 1].chg_trkr->update_end(old_begin, new_begin);
+      index_type prev = parts_[idx].pred;
+      while (prev != end_idx_ && parts_[prev].begin == old_begin) {
+        parts_[prev].begin = new_begin;
+        prev = parts_[prev].pred;
+      }
+      if (prev != end_idx_ && has_tracker(prev)) {
+        parts_[prev].chg_trkr->update_end(old_begin, new_begin);
       }
     } else {
       /* inserting anywhere in the body only changes the length of tracked
-- 
2.43.0


From 39a7b951951640467d2182343b405a03769360c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:24 +0000
Subject: [PATCH 69/91] fix: a renamed main program without program-stmt has a
 name

---
 src/flpr/Procedure.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/flpr/Procedure.hh b/src/flpr/Procedure.hh
index 4e03795..fb6466d 100644
--- a/src/flpr/Procedure.hh
+++ b/src/flpr/Procedure.hh
@@ -342,7 +342,8 @@ template <typename PFile_T> std::string Procedure<PFile_T>::name() const {
   if (headless_main_program())
     return std::string();
 
-  Stmt_Const_Cursor s = range_cursor(PROC_BEGIN)->stmt_tree().ccursor();
+  /* A program-stmt that was added by rename() has no Prgm_Tree node */
+  Stmt_Const_Cursor s = ranges_.cbegin(PROC_BEGIN)->stmt_tree().ccursor();
   s.down();
   if (Syntax_Tags::SG_PREFIX == s->syntag)
     s.next();
@@ -368,7 +369,7 @@ bool Procedure<PFile_T>::rename(std::string const &new_name) {
   }
 
   /* fix the subprogram statement */
-  Stmt_Cursor s = range_cursor_(PROC_BEGIN)->stmt_tree().cursor();
+  Stmt_Cursor s = ranges_.begin(PROC_BEGIN)->stmt_tree().cursor();
   s.down();
   if (Syntax_Tags::SG_PREFIX == s->syntag)
     s.next();
-- 
2.43.0


From 45c1710bcec501292489f04e44e55ca19f82ccb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:24 +0000
Subject: [PATCH 70/91] fix: no trailing blank in the end statement of a
 nameless main program

---
 src/flpr/Procedure.hh | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/flpr/Procedure.hh b/src/flpr/Procedure.hh
index fb6466d..c7590b2 100644
--- a/src/flpr/Procedure.hh
+++ b/src/flpr/Procedure.hh
@@ -406,20 +406,21 @@ template <typename PFile_T> bool Procedure<PFile_T>::complete_end_stmt() {
     /* needs subprogram type and name */
     switch (subprogram_tag_) {
     case Syntax_Tags::PG_FUNCTION_SUBPROGRAM:
-      suffix = " function ";
+      suffix = " function";
       break;
     case Syntax_Tags::PG_SUBROUTINE_SUBPROGRAM:
-      suffix = " subroutine ";
+      suffix = " subroutine";
       break;
     case Syntax_Tags::PG_SEPARATE_MODULE_SUBPROGRAM:
-      suffix = " procedure ";
+      suffix = " procedure";
       break;
     case Syntax_Tags::PG_MAIN_PROGRAM:
-      suffix = " program ";
+      suffix = " program";
       break;
     }
     assert(!suffix.empty());
-    suffix.append(name());
+    if (!headless_main_program())
+      suffix.append(" " + name());
   } else {
     es.next();
     if (!es.has_next()) {
-- 
2.43.0


From 3086733bf4f5ebb6fde59f5933684d2b3b87660b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:47 +0000
Subject: [PATCH 71/91] fix: the range of an absent region is an empty one of
 the file

---
 src/flpr/Range_Partition.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/flpr/Range_Partition.hh b/src/flpr/Range_Partition.hh
index d48365a..20b4306 100644
--- a/src/flpr/Range_Partition.hh
+++ b/src/flpr/Range_Partition.hh
@@ -70,11 +70,11 @@ public:
   }
   constexpr const_iterator begin(const_index idx) const noexcept {
     assert(valid_idx_(idx)); // doesn't have to be active
-    return parts_[idx].begin;
+    return parts_[parts_[idx].active() ? idx : next_active_idx_(idx)].begin;
   }
   constexpr const_iterator cbegin(const_index idx) const noexcept {
     assert(valid_idx_(idx)); // doesn't have to be active
-    return parts_[idx].begin;
+    return parts_[parts_[idx].active() ? idx : next_active_idx_(idx)].begin;
   }
   constexpr iterator end(const_index idx) noexcept {
     assert(valid_idx_(idx)); // doesn't have to be active
@@ -83,11 +83,11 @@ public:
   }
   constexpr const_iterator end(const_index idx) const noexcept {
     assert(valid_idx_(idx)); // doesn't have to be active
-    return succ_(idx).begin;
+    return parts_[next_active_idx_(idx)].begin;
   }
   constexpr const_iterator cend(const_index idx) const noexcept {
     assert(valid_idx_(idx)); // doesn't have to be active
-    return succ_(idx).begin;
+    return parts_[next_active_idx_(idx)].begin;
   }
 
   constexpr void set_tracker(const_index idx, Chg_Trkr const &trkr) {
-- 
2.43.0


From ac92c1b2feceae4d68772a3f73d2fc4904627bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:23 +0000
Subject: [PATCH 72/91] fix: removing default-valued elements keeps the end of
 a Safe_List

---
 src/flpr/Safe_List.hh | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/flpr/Safe_List.hh b/src/flpr/Safe_List.hh
index a4f2578..13056c5 100644
--- a/src/flpr/Safe_List.hh
+++ b/src/flpr/Safe_List.hh
@@ -108,10 +108,13 @@ public:
   constexpr void push_back(T &&value) { list_.insert(my_end_, value); }
   constexpr void pop_back() { list_.erase(std::prev(my_end_)); }
   template <class UnaryPredicate> constexpr void remove_if(UnaryPredicate p) {
-    list_.remove_if(p);
-    // If the predicate removed our sentry, replace it
-    if (list_.empty() && std::prev(list_.end()) != my_end_)
-      append_sentry_();
+    // Do not give our sentry to the predicate
+    for (iterator it = begin(); it != my_end_;) {
+      if (p(*it))
+        it = list_.erase(it);
+      else
+        ++it;
+    }
   }
 
   /*********************** Pass-thru functions ***********************/
-- 
2.43.0


From e5b0ea87c94b953978fae120a3e8a46048344684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:23 +0000
Subject: [PATCH 73/91] fix: clearing a Safe_List keeps its end

---
 src/flpr/Safe_List.hh | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/flpr/Safe_List.hh b/src/flpr/Safe_List.hh
index 13056c5..06ee9d1 100644
--- a/src/flpr/Safe_List.hh
+++ b/src/flpr/Safe_List.hh
@@ -94,10 +94,7 @@ public:
   constexpr iterator end() noexcept { return my_end_; }
   constexpr const_iterator end() const noexcept { return my_end_; }
   constexpr const_iterator cend() const noexcept { return my_end_; }
-  constexpr void clear() {
-    list_.clear();
-    append_sentry_();
-  }
+  constexpr void clear() { list_.erase(list_.begin(), my_end_); }
   constexpr size_type size() const noexcept { return list_.size() - 1; };
   constexpr bool empty() const noexcept { return list_.size() < 2; };
   template <class... Args> constexpr reference emplace_back(Args &&... args) {
-- 
2.43.0


From aec811ee212ad49a9180808bc1ae2c91f0f29308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:23 +0000
Subject: [PATCH 74/91] fix: a Safe_List that was moved from is an empty one

---
 src/flpr/Safe_List.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/flpr/Safe_List.hh b/src/flpr/Safe_List.hh
index 06ee9d1..20d7099 100644
--- a/src/flpr/Safe_List.hh
+++ b/src/flpr/Safe_List.hh
@@ -74,6 +74,8 @@ public:
   }
   constexpr Safe_List(Safe_List &&src) : list_{std::move(src.list_)} {
     my_end_ = std::prev(list_.end());
+    src.list_.clear();
+    src.append_sentry_();
   }
   constexpr Safe_List &operator=(Safe_List const &src) {
     list_ = src.list_;
@@ -84,6 +86,8 @@ public:
     if (this != &src) {
       list_ = std::move(src.list_);
       my_end_ = std::prev(list_.end());
+      src.list_.clear();
+      src.append_sentry_();
     }
     return *this;
   }
-- 
2.43.0


From 568300ab25c57c3b365b0ebca84bba9b3a9311ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:40 +0000
Subject: [PATCH 75/91] fix: a tree without a root can be checked and printed

---
 src/flpr/Tree.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flpr/Tree.hh b/src/flpr/Tree.hh
index 77b8713..5de7384 100644
--- a/src/flpr/Tree.hh
+++ b/src/flpr/Tree.hh
@@ -718,7 +718,7 @@ private:
 };
 
 template <class Tp, class Alloc> void Tree<Tp, Alloc>::check() const {
-  if (root_list_p_) {
+  if (!empty()) {
     assert(root_list_p_->size() == 1);
     root_node().check();
   }
@@ -726,7 +726,7 @@ template <class Tp, class Alloc> void Tree<Tp, Alloc>::check() const {
 
 template <class Tp, class Alloc>
 std::ostream &operator<<(std::ostream &os, Tree<Tp, Alloc> const &t) {
-  if (!t)
+  if (t.empty())
     return os << "<empty>";
   return os << *t;
 }
-- 
2.43.0


From ac7e30dc7104ebbac6722dbb46bc72ec2fbdb65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:37 +0000
Subject: [PATCH 76/91] fix: moving to a closing bracket doesn't skip the token
 after the opening one

---
 src/flpr/TT_Stream.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/flpr/TT_Stream.cc b/src/flpr/TT_Stream.cc
index a8e38ba..605b81a 100644
--- a/src/flpr/TT_Stream.cc
+++ b/src/flpr/TT_Stream.cc
@@ -109,7 +109,6 @@ void TT_Stream::w_general(char const *const warnmsg) const {
 // substrings.
 bool TT_Stream::move_to_close_paren() {
   expect_tok(Syntax_Tags::TK_PARENL);
-  consume();
   int nesting_depth = 1;
   while (nesting_depth > 0) {
     if (Syntax_Tags::TK_PARENR == peek())
@@ -128,7 +127,6 @@ bool TT_Stream::move_to_close_paren() {
 // substrings.
 bool TT_Stream::move_before_close_paren() {
   expect_tok(Syntax_Tags::TK_PARENL);
-  consume();
   int nesting_depth = 1;
   while (nesting_depth > 0) {
     if (Syntax_Tags::TK_PARENR == peek())
@@ -176,7 +174,7 @@ bool TT_Stream::ignore_bracket_expr() {
       break;
     consume();
   }
-  return nesting_depth == -1;
+  return nesting_depth == 0;
 }
 
 void TT_Stream::debug_print(std::ostream &os) const {
-- 
2.43.0


From 5f6efd3784bda8f01364244e81f13aef0db52067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:37 +0000
Subject: [PATCH 77/91] fix: looking ahead stops at the end of a statement

---
 src/flpr/TT_Stream.hh | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/flpr/TT_Stream.hh b/src/flpr/TT_Stream.hh
index 9430352..668194a 100644
--- a/src/flpr/TT_Stream.hh
+++ b/src/flpr/TT_Stream.hh
@@ -183,8 +183,19 @@ inline int TT_Stream::curr() const { return curr_tt().token; }
 // FRAGS[curr_tok_+1].token or Syntax_Tags::BAD
 inline Token_Text const &TT_Stream::peek_tt(int const offset) const {
   static const Token_Text bad_tt;
-  // the -1 is because next_token_ is already advanced one.
-  auto tmp = std::next(next_tok_, offset - 1);
+  if (offset < 1) {
+    auto tmp = next_tok_;
+    for (int i = offset; i < 1; ++i) {
+      if (tmp == ll_tt_range_.begin())
+        return bad_tt;
+      --tmp;
+    }
+    return *tmp;
+  }
+  auto tmp = next_tok_;
+  // the i = 1 is because next_token_ is already advanced one.
+  for (int i = 1; i < offset && tmp != ll_tt_range_.end(); ++i)
+    ++tmp;
   if (tmp != ll_tt_range_.end())
     return *tmp;
   else
-- 
2.43.0


From 3d671a7ebf1727774f2c849b744e3bf76543cb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:29 +0000
Subject: [PATCH 78/91] fix: look up whether a client's tag may be a name in
 its registration

---
 src/flpr/Syntax_Tags.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flpr/Syntax_Tags.hh b/src/flpr/Syntax_Tags.hh
index a232529..889b311 100644
--- a/src/flpr/Syntax_Tags.hh
+++ b/src/flpr/Syntax_Tags.hh
@@ -35,7 +35,8 @@ public:
   static constexpr int pg_begin_tag() { return PG_000_LB + 1; }
   static constexpr int pg_end_tag() { return PG_ZZZ_UB; }
   static constexpr bool is_name(int const tag) {
-    return tag == TK_NAME || types_[tag] == 4;
+    return tag == TK_NAME ||
+           (tag < CLIENT_EXTENSION ? types_[tag] == 4 : is_keyword(tag));
   }
   static int type(int const syntag);
 
-- 
2.43.0


From 4a0ca921aa918a74f7181536b7afa805859ba2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:29 +0000
Subject: [PATCH 79/91] fix: rebuild the tree of an extension's statement

---
 src/flpr/LL_Stmt.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flpr/LL_Stmt.cc b/src/flpr/LL_Stmt.cc
index 48a6b0d..9264b23 100644
--- a/src/flpr/LL_Stmt.cc
+++ b/src/flpr/LL_Stmt.cc
@@ -66,7 +66,8 @@ bool LL_Stmt::rebuild_tree_() const {
     return false;
   }
   TT_Stream tts{*const_cast<LL_Stmt *>(this)};
-  if (Stmt::is_action_stmt(stmt_syntag_)) {
+  if (Stmt::is_action_stmt(stmt_syntag_) ||
+      stmt_syntag_ >= Syntax_Tags::CLIENT_EXTENSION) {
     stmt_tree_ = Stmt::parse_stmt_dispatch(Syntax_Tags::SG_ACTION_STMT, tts);
   } else {
     stmt_tree_ = Stmt::parse_stmt_dispatch(stmt_syntag_, tts);
-- 
2.43.0


From dd347c55133b9a6168141211918cf2526cb6df77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:35 +0000
Subject: [PATCH 80/91] fix: the module application only reports a change if it
 made one

---
 apps/module_base.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/module_base.cc b/apps/module_base.cc
index 7dfa730..67cd9dd 100644
--- a/apps/module_base.cc
+++ b/apps/module_base.cc
@@ -102,7 +102,7 @@ bool Module_Action::operator()(File &file, Cursor c,
     use_it->set_leading_spaces(std::next(use_it)->get_leading_spaces(), 2);
   }
 
-  return true;
+  return !found;
 }
 
 /*--------------------------------------------------------------------------*/
-- 
2.43.0


From 6cf166a4635bcd726b996ad05bc04cf5162de49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:25 +0000
Subject: [PATCH 81/91] fix: remove empty statements from lines that have
 statements

---
 apps/flpr_format_base.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/flpr_format_base.cc b/apps/flpr_format_base.cc
index bfcd0b5..3f6dff3 100644
--- a/apps/flpr_format_base.cc
+++ b/apps/flpr_format_base.cc
@@ -125,7 +125,7 @@ int flpr_format_file(File &file, Options const &options,
 bool remove_empty_stmts(typename FLPR::LL_SEQ &ll_seq) {
   bool changed = false;
   for (FLPR::Logical_Line &ll : ll_seq) {
-    if (!ll.has_fortran() && ll.has_empty_statements())
+    if (ll.has_fortran() && ll.has_empty_statements())
       changed |= ll.remove_empty_statements();
   }
   return changed;
-- 
2.43.0


From aa0096d8ef88d2ecaa04ed3c59445c4e4ce035c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:21 +0000
Subject: [PATCH 82/91] fix: split compound lines without repeating their
 comments and labels

---
 apps/flpr_format_base.cc | 63 +++++++++-------------------------------
 1 file changed, 14 insertions(+), 49 deletions(-)

diff --git a/apps/flpr_format_base.cc b/apps/flpr_format_base.cc
index 3f6dff3..6450a77 100644
--- a/apps/flpr_format_base.cc
+++ b/apps/flpr_format_base.cc
@@ -131,59 +131,24 @@ bool remove_empty_stmts(typename FLPR::LL_SEQ &ll_seq) {
   return changed;
 }
 
-/* This needs to be updated to take advantage of newer features. As it is, it
-   probably corrupts the Token_Text layout position information.  DON'T USE AS
-   AN EXAMPLE! */
+/* Put each statement on a line of its own.  This works on the Logical_Lines
+   alone, so it has to happen before the list of statements is built. */
 bool split_compound_stmts(typename FLPR::LL_SEQ &ll_seq) {
-  bool changed = false;
-  bool cleanup_split = false;
-
+  bool changed = remove_empty_stmts(ll_seq);
   for (FLPR::LL_SEQ::iterator ll_it = ll_seq.begin(); ll_it != ll_seq.end();
        ++ll_it) {
-
-    if (!ll_it->has_fortran())
+    if (!ll_it->has_fortran() || ll_it->stmts().size() < 2)
       continue;
-    FLPR::Logical_Line &ll{*ll_it};
-    if (ll.stmts().size() < 2) {
-      if (cleanup_split) {
-        ll.fragments().erase(ll.stmts()[0].end(), ll.fragments().end());
-        ll.text_from_frags();
-        cleanup_split = false;
-      } else if (ll.has_empty_statements()) {
-        changed |= ll.remove_empty_statements();
-      }
-    } else {
-      assert(ll_it->stmts().size() > 1);
-      /* Insert a copy above the current LL. The Logical_Line copy constructor
-         updates the new stmt TT_Ranges to reference the new copy of lines. */
-      auto new_ll_it = ll_seq.insert(ll_it, *ll_it);
-      /* Fix it up to contain only one statement */
-      FLPR::Logical_Line &new_ll{*new_ll_it};
-      /* Remove trailing fragments from new LL (the semicolon and the rest of
-         the compound statments) */
-      new_ll.fragments().erase(new_ll.stmts()[0].end(),
-                               new_ll.fragments().end());
-      /* Remove leading fragments from new LL (this handles the case of there
-         being empty statements before the beginning of this one). */
-      new_ll.fragments().erase(new_ll.fragments().begin(),
-                               new_ll.stmts()[0].begin());
-      /* Fix-up the File_Lines (text) in the new LL */
-      new_ll.text_from_frags();
-
-      /* Fix-up the stmts list */
-      new_ll.init_stmts();
-
-      /* Remove leading fragments from old LL */
-      ll.fragments().erase(ll.fragments().begin(), ll.stmts()[1].begin());
-      cleanup_split = true; /* this will reformat the old LL once it gets down
-                               to one statement */
-
-      /* Fix-up the stmts list */
-      ll.init_stmts();
-
-      ll_it = new_ll_it; // revisit the source line
-      changed = true;
-    }
+    /* Move everything after the first statement to a new line, which is
+       visited next */
+    auto new_ll_it = ll_seq.emplace(std::next(ll_it));
+    ll_it->split_after(std::prev(ll_it->stmts()[0].end()), *new_ll_it);
+    ll_it->init_stmts();
+    new_ll_it->init_stmts();
+    /* The semicolon stays if the next statement was on another line */
+    if (ll_it->has_empty_statements())
+      ll_it->remove_empty_statements();
+    changed = true;
   }
   return changed;
 }
-- 
2.43.0


From 6791d5b4ec2d81eb5d7d97c38a0a031aa50f6cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:21 +0000
Subject: [PATCH 83/91] fix: initialise the force-output option of flpr-format

---
 apps/flpr_format_base.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/flpr_format_base.hh b/apps/flpr_format_base.hh
index 881c61c..558ce41 100644
--- a/apps/flpr_format_base.hh
+++ b/apps/flpr_format_base.hh
@@ -30,8 +30,8 @@ struct Options {
   };
 
   Options() noexcept
-      : write_inplace_{false}, verbose_{false}, do_timing_{false}, quiet_{
-                                                                       false} {
+      : write_inplace_{false}, verbose_{false}, do_timing_{false},
+        quiet_{false}, do_output_{false} {
     disable_all_filters();
   }
   void disable_all_filters() noexcept { filters_.fill(false); }
-- 
2.43.0


From f5ece5ca3286cd7bcf89d757930e36339649693b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:32 +0000
Subject: [PATCH 84/91] fix: replacing the text of a fixed-form line keeps
 fixed-form continuations

---
 src/flpr/File_Line.cc    | 6 ++++++
 src/flpr/Logical_Line.cc | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index ed581d4..b4a8168 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -369,6 +369,9 @@ void File_Line::unspace_main() {
 void File_Line::make_uncontinued() {
   auto &bits = classification_;
   UNSET_CLASS(continued);
+  /* fixed-format has no mark on the line that is continued */
+  if (is_fixed_format())
+    return;
   size_t pos = 0;
   if (!right_txt.empty()) {
     if (right_txt[0] == '&')
@@ -387,6 +390,9 @@ void File_Line::make_uncontinued() {
 void File_Line::make_continued() {
   auto &bits = classification_;
   SET_CLASS(continued);
+  /* fixed-format has no mark on the line that is continued */
+  if (is_fixed_format())
+    return;
   if (right_space.empty())
     right_space.assign(1, ' ');
   if (right_txt.empty())
diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index a8f3dca..06d6a71 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -401,7 +401,13 @@ void Logical_Line::replace_main_text(std::vector<std::string> const &new_text) {
     int const indent = layout_[ref_line].main_first_col() - 1;
     File_Line ref_fl = layout_[ref_line];
     ref_fl.left_txt.clear();
+    ref_fl.unset_classification(File_Line::class_flags::label);
     ref_fl.right_txt.clear();
+    if (ref_fl.is_fixed_format()) {
+      ref_fl.left_txt = "     &";
+      ref_fl.right_space.clear();
+      ref_fl.set_classification(File_Line::class_flags::continuation);
+    }
     ref_fl.make_continued();
     ref_fl.set_leading_spaces(indent);
     layout_.insert(layout_.end(), new_text.size() - old_size, ref_fl);
-- 
2.43.0


From 6c046586bd916aa555f4656c20417e56e2b7b26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:32 +0000
Subject: [PATCH 85/91] fix: text_from_frags records where it puts the tokens

---
 apps/flpr_format_base.cc |  7 +++++--
 src/flpr/Logical_Line.cc | 13 +++++++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/apps/flpr_format_base.cc b/apps/flpr_format_base.cc
index 6450a77..2dfe418 100644
--- a/apps/flpr_format_base.cc
+++ b/apps/flpr_format_base.cc
@@ -141,8 +141,11 @@ bool split_compound_stmts(typename FLPR::LL_SEQ &ll_seq) {
       continue;
     /* Move everything after the first statement to a new line, which is
        visited next */
-    auto new_ll_it = ll_seq.emplace(std::next(ll_it));
-    ll_it->split_after(std::prev(ll_it->stmts()[0].end()), *new_ll_it);
+    auto new_ll_it = ll_seq.insert(std::next(ll_it), FLPR::Logical_Line());
+    auto semi = ll_it->fragments().begin();
+    while (FLPR::Syntax_Tags::TK_SEMICOLON != semi->token)
+      ++semi;
+    ll_it->split_after(std::prev(semi), *new_ll_it);
     ll_it->init_stmts();
     new_ll_it->init_stmts();
     /* The semicolon stays if the next statement was on another line */
diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 06d6a71..5c95493 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -238,6 +238,13 @@ void Logical_Line::text_from_frags() noexcept {
     int redo = 0;
     do {
       if (append_tt_if_(fline_it->main_txt, max_llen, *tt_it, line_start)) {
+        /* Record where the token is now */
+        std::string const &main_txt = fline_it->main_txt;
+        tt_it->mt_begin_line_ = tt_it->mt_end_line_ =
+            static_cast<int>(std::distance(layout_.begin(), fline_it));
+        tt_it->mt_end_col_ = static_cast<int>(main_txt.size());
+        tt_it->mt_begin_col_ =
+            static_cast<int>(main_txt.size() - tt_it->text().size());
         //	    std::cout << "APPEND " << redo << ' ' << *tt_it << '\n';
         redo = 0;
         line_start = false;
@@ -255,6 +262,9 @@ void Logical_Line::text_from_frags() noexcept {
         size_t split_size = token_size / splits + 1;
         size_t pos{0}, count{split_size};
 
+        tt_it->mt_begin_line_ =
+            static_cast<int>(std::distance(layout_.begin(), fline_it));
+        tt_it->mt_begin_col_ = static_cast<int>(fline_it->main_txt.size());
         for (size_t i = 0; i < splits; ++i) {
           if (i > 0)
             fline_it->main_txt.append(1, '&');
@@ -267,6 +277,9 @@ void Logical_Line::text_from_frags() noexcept {
           }
           pos = pos + count;
         }
+        tt_it->mt_end_line_ =
+            static_cast<int>(std::distance(layout_.begin(), fline_it));
+        tt_it->mt_end_col_ = static_cast<int>(fline_it->main_txt.size());
         line_start = false;
         add_line = false;
         redo = 0;
-- 
2.43.0


From b73fb950cbec00df6710d14dc3e9f716b52e90da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:18 +0000
Subject: [PATCH 86/91] fix: lay out fixed-form lines as fixed form, and leave
 lines of other kinds in place

---
 src/flpr/Logical_Line.cc | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 5c95493..2545129 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -162,7 +162,7 @@ void Logical_Line::init_from_layout() noexcept {
 
 namespace {
 size_t max_main_txt_len(File_Line const &fl) noexcept {
-  const size_t MAX_CHARS{76};
+  const size_t MAX_CHARS{fl.is_fixed_format() ? size_t{72} : size_t{76}};
   if (fl.is_comment())
     return 0;
 
@@ -183,6 +183,7 @@ size_t max_main_txt_len(File_Line const &fl) noexcept {
 Logical_Line::FL_VEC::iterator
 continue_fl(Logical_Line::FL_VEC &text, Logical_Line::FL_VEC::iterator curr) {
   curr->make_continued();
+  bool const fixed = curr->is_fixed_format();
 
   size_t spaces = curr->left_txt.size() + curr->left_space.size();
   if (curr == text.begin())
@@ -190,15 +191,23 @@ continue_fl(Logical_Line::FL_VEC &text, Logical_Line::FL_VEC::iterator curr) {
   // Add (or move to) the next line in text
   do
     std::advance(curr, 1);
-  while (curr != text.end() && curr->is_comment());
+  while (curr != text.end() && !curr->is_fortran());
 
-  if (curr == text.end())
+  if (curr == text.end()) {
     curr = text.insert(text.end(), File_Line());
-  else {
+    if (fixed)
+      curr->set_classification(File_Line::class_flags::fixed_format);
+  } else {
     curr->left_txt.clear();
     curr->make_uncontinued();
     curr->main_txt.clear();
   }
+  if (fixed) {
+    /* (the control columns are a part of spaces) */
+    curr->left_txt = "     &";
+    curr->set_classification(File_Line::class_flags::continuation);
+    spaces -= curr->left_txt.size();
+  }
   curr->left_space.assign(spaces, ' ');
   return curr;
 }
@@ -266,7 +275,7 @@ void Logical_Line::text_from_frags() noexcept {
             static_cast<int>(std::distance(layout_.begin(), fline_it));
         tt_it->mt_begin_col_ = static_cast<int>(fline_it->main_txt.size());
         for (size_t i = 0; i < splits; ++i) {
-          if (i > 0)
+          if (i > 0 && !fline_it->is_fixed_format())
             fline_it->main_txt.append(1, '&');
           fline_it->main_txt.append(tt_it->text().substr(pos, count));
           // Move the continuation ampersand in close
@@ -306,22 +315,18 @@ void Logical_Line::text_from_frags() noexcept {
     std::advance(fline_it, 1);
 
   bool blanked{false};
+  auto const unused_beg = fline_it;
   while (fline_it != layout_.end()) {
-    if (!fline_it->is_comment()) {
+    if (fline_it->is_fortran() || fline_it->is_blank()) {
       fline_it->make_uncontinued();
-      if (fline_it->right_txt.empty()) {
-        fline_it->set_classification(File_Line::class_flags::blank);
-        blanked = true;
-      } else {
-        fline_it->main_txt.clear();
-        fline_it->set_classification(File_Line::class_flags::comment);
-      }
+      fline_it->make_comment_or_blank();
+      blanked |= fline_it->is_blank();
     }
     std::advance(fline_it, 1);
   }
   if (blanked) {
     auto newend =
-        std::remove_if(layout_.begin(), layout_.end(),
+        std::remove_if(unused_beg, layout_.end(),
                        [](File_Line const &fl) { return fl.is_blank(); });
     layout_.erase(newend, layout_.end());
     if (layout_.empty())
-- 
2.43.0


From e966527736210e2326bd5a800dbd118ff716f00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:18 +0000
Subject: [PATCH 87/91] fix: blanking a continued fixed-form line does not look
 for an ampersand

---
 src/flpr/File_Line.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index b4a8168..e040f87 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -449,7 +449,7 @@ void File_Line::make_comment_or_blank() {
     make_blank(); // force the clearing of the strings
     return;
   }
-  if (classification_[trail]) {
+  if (classification_[trail] && !classification_[ff]) {
     assert(right_txt[0] == '&');
     right_txt[0] = ' ';
   }
-- 
2.43.0


From 20d50b7b229da81d7989557a30c03df70d607069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:58 +0000
Subject: [PATCH 88/91] fix: splitting a compound line at the end of a line
 removes the semicolon, too

---
 src/flpr/Logical_Line.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 2545129..063f048 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -624,6 +624,16 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
        continuation and adjust indent */
     export_beg = layout_.begin() + split_line + 1;
 
+    /* cleanup the source: remove any semicolons past the end of frag */
+    size_t const erase_start_pos = frag->mt_end_col_;
+    if (!layout_[split_line].right_txt.empty()) {
+      size_t const new_size = layout_[split_line].right_space.size() +
+                              layout_[split_line].main_txt.size() -
+                              erase_start_pos;
+      layout_[split_line].right_space.assign(new_size, ' ');
+    }
+    layout_[split_line].main_txt.erase(erase_start_pos);
+
     /* cleanup the source: remove any trailing ampersand continuations */
     layout_[split_line].make_uncontinued();
 
-- 
2.43.0


From 0b4eac7abd68c8d78d2bf4fc5039676a1c15162d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:54 +0000
Subject: [PATCH 89/91] fix: files named .F90 are in free form

---
 src/flpr/File_Info.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flpr/File_Info.cc b/src/flpr/File_Info.cc
index 0e5ae3f..1695227 100644
--- a/src/flpr/File_Info.cc
+++ b/src/flpr/File_Info.cc
@@ -50,9 +50,9 @@ FLPR::File_Type file_type_from_extension(std::string const &filename) {
               << "filename extension for \"" << filename << "\"\n";
   } else {
     const std::string extension = filename.substr(ptpos + 1);
-    if (extension == "f" || extension == "F" || extension == "F90") {
+    if (extension == "f" || extension == "F") {
       file_type = File_Type::FIXEDFMT;
-    } else if (extension == "f90") {
+    } else if (extension == "f90" || extension == "F90") {
       file_type = File_Type::FREEFMT;
     } else {
       std::cerr << "FLPR::file_type_from_extension: Error: unrecognized "
-- 
2.43.0


From 09bcbef619f9937ef6a60f5f152843798ede2f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:54 +0000
Subject: [PATCH 90/91] fix: scanning a file drops what was scanned before

---
 src/flpr/Logical_File.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 3bf6a32..59e63bf 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -64,6 +64,7 @@ bool Logical_File::read_and_scan(std::istream &is,
 
 bool Logical_File::scan(Line_Buf const &buf, std::string const &buffer_name,
                         int const last_fixed_col, File_Type buffer_type) {
+  clear();
   file_info = std::make_shared<File_Info>(buffer_name, buffer_type);
 
   bool res = false;
-- 
2.43.0


From a95a7bfde307225c3f7063bc3099f87c3b0d9952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:54 +0000
Subject: [PATCH 91/91] fix: reading a file drops the statements and tree of an
 earlier one

---
 src/flpr/Parsed_File.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flpr/Parsed_File.hh b/src/flpr/Parsed_File.hh
index 8c76227..92a6ff1 100644
--- a/src/flpr/Parsed_File.hh
+++ b/src/flpr/Parsed_File.hh
@@ -162,6 +162,8 @@ bool Parsed_File<PG_NODE_DATA>::read_file(std::string const &filename,
                                           int const last_fixed_col,
                                           File_Type file_type) {
   assert(bad_state_);
+  from_stream_ = stmts_ok_ = tree_ok_ = false;
+  parse_tree_ = Parse_Tree{};
   if (logical_file_.read_and_scan(filename, last_fixed_col, file_type)) {
     bad_state_ = false;
   }
-- 
2.43.0

