From 4bd259ea09c8c4ac0e58f26c4985e6d13714eee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:06 +0000
Subject: [PATCH 01/77] fix: locate the first token of a statement whose first
 line is empty

A continued statement whose first physical line holds no statement text
(e.g. only a label or continuation marks) made Line_Accum::linecolno abort,
because the leading blank was taken for the first token.
---
 src/flpr/Logical_Line.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 6e4b5df..09db22b 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -758,6 +758,10 @@ void Logical_Line::tokenize(Line_Accum const &la) {
   YY_BUFFER_STATE bs = yy_scan_string(la.accum().c_str());
   const int N = la.accum().size();
   int tok_start_col = curr_line_pos;
+  /* If the first line of a continued statement holds no text, the accumulated
+     text begins with blanks: the first token starts after them. */
+  while (tok_start_col < N && std::isspace(la.accum()[tok_start_col]))
+    tok_start_col += 1;
   int next_pre_sp = 0;
   int space_between;
 
-- 
2.43.0


From 2804229343bb541d6256b0f66e0f89556a80ffe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:06 +0000
Subject: [PATCH 02/77] fix: carry open literals and continuations across
 comment and blank lines

An interposed comment line closed an open character literal (so its
continuation line was rejected or misread), and an interposed blank line ended
a continuation (so a digit starting the next line was taken for a label).
---
 src/flpr/Logical_File.cc | 11 ++++++++---
 src/flpr/Logical_Line.cc | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 4b6b535..aa8d348 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -100,7 +100,9 @@ bool Logical_File::scan_fixed(Line_Buf const &raw_lines, int const last_col) {
                 << "scan_fixed error: " << e.what() << std::endl;
       return false;
     }
-    prev_open_delim = fl[i].open_delim;
+    /* Comment and blank lines don't interrupt a continuation */
+    if (!fl[i].is_trivial())
+      prev_open_delim = fl[i].open_delim;
   }
 
   /* Identify "logical lines": blocks of lines that represent a
@@ -196,8 +198,11 @@ bool Logical_File::scan_free(std::vector<std::string> const &raw_lines) {
                 << "scan_free error: " << e.what() << std::endl;
       return false;
     }
-    prev_open_delim = fl[i].open_delim;
-    prev_line_cont = fl[i].is_continued();
+    /* Comment and blank lines don't interrupt a continuation */
+    if (!fl[i].is_trivial()) {
+      prev_open_delim = fl[i].open_delim;
+      prev_line_cont = fl[i].is_continued();
+    }
   }
 
   // Identify "logical lines": blocks of lines that represent a
diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 09db22b..5752b81 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -81,8 +81,11 @@ Logical_Line::Logical_Line(std::vector<std::string> const &raw_text) {
   for (auto const &l : raw_text) {
     layout_.emplace_back(File_Line::analyze_free(
         line_no++, l, prev_open_delim, prev_line_cont, in_literal_block));
-    prev_open_delim = layout_.back().open_delim;
-    prev_line_cont = layout_.back().is_continued();
+    /* Comment and blank lines don't interrupt a continuation */
+    if (!layout_.back().is_trivial()) {
+      prev_open_delim = layout_.back().open_delim;
+      prev_line_cont = layout_.back().is_continued();
+    }
   }
   init_from_layout();
 }
@@ -103,7 +106,9 @@ Logical_Line::Logical_Line(std::vector<std::string> const &raw_text,
   for (auto const &l : raw_text) {
     layout_.emplace_back(
         File_Line::analyze_fixed(line_no++, l, prev_open_delim, last_col));
-    prev_open_delim = layout_.back().open_delim;
+    /* Comment and blank lines don't interrupt a continuation */
+    if (!layout_.back().is_trivial())
+      prev_open_delim = layout_.back().open_delim;
   }
   init_from_layout();
 }
-- 
2.43.0


From dcb470830ceb94124fec12234726dacc18aaf62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:35 +0000
Subject: [PATCH 03/77] fix: don't scan the continuation lines of preprocessor
 directives as Fortran

The lines following a backslash-continued directive were analysed as Fortran
before being absorbed, so an apostrophe in them made the scan fail, or leaked
literal/continuation state into the following lines.
---
 src/flpr/Logical_File.cc | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index aa8d348..3b4215e 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -25,6 +25,13 @@
 #include <iostream>
 #include <set>
 
+namespace {
+//! True if this is a preprocessor line that is continued with a backslash
+bool is_continued_pp(FLPR::File_Line const &fl) {
+  return fl.is_preprocessor() && FLPR::last_non_blank_char(fl.left_txt) == '\\';
+}
+} // namespace
+
 namespace FLPR {
 void Logical_File::clear() {
   file_info.reset();
@@ -90,6 +97,14 @@ bool Logical_File::scan_fixed(Line_Buf const &raw_lines, int const last_col) {
   std::vector<File_Line> fl(N);
   char prev_open_delim = '\0';
   for (size_t i = 0; i < N; ++i) {
+    if (i > 0 && is_continued_pp(fl[i - 1])) {
+      /* This text belongs to a preprocessor directive: it isn't Fortran */
+      fl[i].linenum = (int)i + 1;
+      fl[i].left_txt = raw_lines[i];
+      fl[i].set_classification(File_Line::class_flags::preprocessor);
+      fl[i].set_classification(File_Line::class_flags::fixed_format);
+      continue;
+    }
     try {
       fl[i] = File_Line::analyze_fixed((int)i + 1, raw_lines[i],
                                        prev_open_delim, last_col);
@@ -188,6 +203,13 @@ bool Logical_File::scan_free(std::vector<std::string> const &raw_lines) {
   char prev_open_delim = '\0';
   bool prev_line_cont = false;
   for (size_t i = 0; i < N; ++i) {
+    if (i > 0 && is_continued_pp(fl[i - 1])) {
+      /* This text belongs to a preprocessor directive: it isn't Fortran */
+      fl[i].linenum = (int)i + 1;
+      fl[i].left_txt = raw_lines[i];
+      fl[i].set_classification(File_Line::class_flags::preprocessor);
+      continue;
+    }
     try {
       fl[i] = File_Line::analyze_free((int)i + 1, raw_lines[i], prev_open_delim,
                                       prev_line_cont, in_literal_block);
-- 
2.43.0


From ac4747cf7ec90cba9691c8edfa4f9ffe2372f8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:33 +0000
Subject: [PATCH 04/77] fix: Safe_List::remove_if must not remove the hidden
 end element

A predicate matching a default-constructed value removed the sentry while
elements remained, leaving end() dangling.
---
 src/flpr/Safe_List.hh | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/flpr/Safe_List.hh b/src/flpr/Safe_List.hh
index a4f2578..049c629 100644
--- a/src/flpr/Safe_List.hh
+++ b/src/flpr/Safe_List.hh
@@ -108,10 +108,13 @@ public:
   constexpr void push_back(T &&value) { list_.insert(my_end_, value); }
   constexpr void pop_back() { list_.erase(std::prev(my_end_)); }
   template <class UnaryPredicate> constexpr void remove_if(UnaryPredicate p) {
-    list_.remove_if(p);
-    // If the predicate removed our sentry, replace it
-    if (list_.empty() && std::prev(list_.end()) != my_end_)
-      append_sentry_();
+    // Don't show our sentry to the predicate
+    for (iterator i = list_.begin(); i != my_end_;) {
+      if (p(*i))
+        i = list_.erase(i);
+      else
+        ++i;
+    }
   }
 
   /*********************** Pass-thru functions ***********************/
-- 
2.43.0


From 1bde9cb8f2842a8c589e150a0ca82868cb7ccda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:33 +0000
Subject: [PATCH 05/77] fix: keep Safe_List's end element through clear() and
 in moved-from lists

clear() replaced the hidden end element, so a stored end() iterator dangled,
and a moved-from list was left without one (size() wrapped around, end()
referred to the other list).
---
 src/flpr/Safe_List.hh | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/flpr/Safe_List.hh b/src/flpr/Safe_List.hh
index 049c629..2877c56 100644
--- a/src/flpr/Safe_List.hh
+++ b/src/flpr/Safe_List.hh
@@ -74,6 +74,7 @@ public:
   }
   constexpr Safe_List(Safe_List &&src) : list_{std::move(src.list_)} {
     my_end_ = std::prev(list_.end());
+    src.reset_();
   }
   constexpr Safe_List &operator=(Safe_List const &src) {
     list_ = src.list_;
@@ -84,6 +85,7 @@ public:
     if (this != &src) {
       list_ = std::move(src.list_);
       my_end_ = std::prev(list_.end());
+      src.reset_();
     }
     return *this;
   }
@@ -94,10 +96,7 @@ public:
   constexpr iterator end() noexcept { return my_end_; }
   constexpr const_iterator end() const noexcept { return my_end_; }
   constexpr const_iterator cend() const noexcept { return my_end_; }
-  constexpr void clear() {
-    list_.clear();
-    append_sentry_();
-  }
+  constexpr void clear() { list_.erase(list_.begin(), my_end_); }
   constexpr size_type size() const noexcept { return list_.size() - 1; };
   constexpr bool empty() const noexcept { return list_.size() < 2; };
   template <class... Args> constexpr reference emplace_back(Args &&... args) {
@@ -154,6 +153,11 @@ private:
   //! Append the hidden element to an existing list
   /*! Note, this should only be used after some ctor initialization of list_ */
   constexpr void append_sentry_() { my_end_ = list_.insert(list_.end(), T()); }
+  //! Return to the empty state after the contents (and sentry) were moved away
+  constexpr void reset_() {
+    list_.clear();
+    append_sentry_();
+  }
 };
 
 //! Define a range of elements in a Safe_List
-- 
2.43.0


From f91f1c63d09381694fb2477c2dc4eab238461a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:53 +0000
Subject: [PATCH 06/77] fix: let SL_Range::update_end compile

It assigned a const_iterator to an iterator, so any use was a compile error.
---
 src/flpr/Safe_List.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/Safe_List.hh b/src/flpr/Safe_List.hh
index 2877c56..9e3a1a3 100644
--- a/src/flpr/Safe_List.hh
+++ b/src/flpr/Safe_List.hh
@@ -280,7 +280,7 @@ public:
       }
     }
   }
-  constexpr void update_end(const_iterator it) {
+  constexpr void update_end(iterator it) {
     if (empty_()) {
       bad_ = false;
       begin_ = end_ = it;
-- 
2.43.0


From d2434715b83a389415ac7926cfb01767bdcab8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:16 +0000
Subject: [PATCH 07/77] fix: let a Tree be constructed from a const value

Tree(value const &) called a nonexistent Safe_List::push_front.
---
 src/flpr/Tree.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/Tree.hh b/src/flpr/Tree.hh
index 77b8713..10fe65f 100644
--- a/src/flpr/Tree.hh
+++ b/src/flpr/Tree.hh
@@ -590,7 +590,7 @@ public:
 
   constexpr explicit Tree(value const &src)
       : root_list_p_{std::make_unique<node_list>()} {
-    root_list_p_->push_front(node(src));
+    root_list_p_->emplace_front(src);
     root_list_p_->front().link(root_list_p_->begin());
   }
 
-- 
2.43.0


From 18338bcedc320a24a196e9807b73fa0dde4063b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:50 +0000
Subject: [PATCH 08/77] fix: don't skip the token after the opening paren when
 matching parens

move_to_close_paren/move_before_close_paren ignored the first token inside the
parens, so "()" and "((a))" were not matched.
---
 src/flpr/TT_Stream.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/flpr/TT_Stream.cc b/src/flpr/TT_Stream.cc
index a8e38ba..813f343 100644
--- a/src/flpr/TT_Stream.cc
+++ b/src/flpr/TT_Stream.cc
@@ -109,7 +109,6 @@ void TT_Stream::w_general(char const *const warnmsg) const {
 // substrings.
 bool TT_Stream::move_to_close_paren() {
   expect_tok(Syntax_Tags::TK_PARENL);
-  consume();
   int nesting_depth = 1;
   while (nesting_depth > 0) {
     if (Syntax_Tags::TK_PARENR == peek())
@@ -128,7 +127,6 @@ bool TT_Stream::move_to_close_paren() {
 // substrings.
 bool TT_Stream::move_before_close_paren() {
   expect_tok(Syntax_Tags::TK_PARENL);
-  consume();
   int nesting_depth = 1;
   while (nesting_depth > 0) {
     if (Syntax_Tags::TK_PARENR == peek())
-- 
2.43.0


From 58efc07c7432f5f4ebcb57ea014950a62e392a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:50 +0000
Subject: [PATCH 09/77] fix: report success of TT_Stream::ignore_bracket_expr

It compared the nesting depth with -1, which is never reached.
---
 src/flpr/TT_Stream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/TT_Stream.cc b/src/flpr/TT_Stream.cc
index 813f343..605b81a 100644
--- a/src/flpr/TT_Stream.cc
+++ b/src/flpr/TT_Stream.cc
@@ -174,7 +174,7 @@ bool TT_Stream::ignore_bracket_expr() {
       break;
     consume();
   }
-  return nesting_depth == -1;
+  return nesting_depth == 0;
 }
 
 void TT_Stream::debug_print(std::ostream &os) const {
-- 
2.43.0


From 6a7d0435dc5fc24d07dc5634d6b2ae6e45251232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:51 +0000
Subject: [PATCH 10/77] fix: don't peek past the end of a token stream

TT_Stream::peek(n) stepped over end(), returning tokens of the following
statement or reading outside the token list.
---
 src/flpr/TT_Stream.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/flpr/TT_Stream.hh b/src/flpr/TT_Stream.hh
index 9430352..303152c 100644
--- a/src/flpr/TT_Stream.hh
+++ b/src/flpr/TT_Stream.hh
@@ -183,8 +183,12 @@ inline int TT_Stream::curr() const { return curr_tt().token; }
 // FRAGS[curr_tok_+1].token or Syntax_Tags::BAD
 inline Token_Text const &TT_Stream::peek_tt(int const offset) const {
   static const Token_Text bad_tt;
-  // the -1 is because next_token_ is already advanced one.
-  auto tmp = std::next(next_tok_, offset - 1);
+  if (offset < 1)
+    return *std::next(next_tok_, offset - 1);
+  // start at 1 because next_token_ is already advanced one.
+  auto tmp = next_tok_;
+  for (int i = 1; i < offset && tmp != ll_tt_range_.end(); ++i)
+    ++tmp;
   if (tmp != ll_tt_range_.end())
     return *tmp;
   else
-- 
2.43.0


From b3b2229709fd3cd1cda4ddfa3c94e28b9ba9d4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:23 +0000
Subject: [PATCH 11/77] fix: don't carry the real-literal scanner state over to
 the next line

---
 src/flpr/scan_fort.l | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flpr/scan_fort.l b/src/flpr/scan_fort.l
index a274ae2..60d135d 100644
--- a/src/flpr/scan_fort.l
+++ b/src/flpr/scan_fort.l
@@ -260,6 +260,7 @@ write { return Syntax_Tags::KW_WRITE; }
                    yyless(0); yy_push_state(kind_parse); }
   .|\n           { curr_line_pos -= yyleng;
                    yyless(0);  BEGIN(INITIAL); }
+  <<EOF>>        { BEGIN(INITIAL); yyterminate(); }
 }
 
   /* R714: real-literal-constant (7.4.3.2) */
-- 
2.43.0


From 9e35a94241fe66f53b3ccef70a68ba3fc5e39f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:23 +0000
Subject: [PATCH 12/77] fix: don't take the dot of an operator as part of the
 integer before it

---
 src/flpr/scan_fort.l | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/flpr/scan_fort.l b/src/flpr/scan_fort.l
index 60d135d..170f85a 100644
--- a/src/flpr/scan_fort.l
+++ b/src/flpr/scan_fort.l
@@ -273,6 +273,14 @@ write { return Syntax_Tags::KW_WRITE; }
   				  
   /* R708: int-literal-constant (7.4.3.1) */
 {DIGIT}+(_{KIND})?   { return Syntax_Tags::SG_INT_LITERAL_CONSTANT; }
+  /* The dot in something like "1.and." belongs to the operator, and not to a
+     significand. */
+{DIGIT}+\.[a-z]+\. { int num_digits = 0;
+                     while (yytext[num_digits] != '.')
+                       num_digits += 1;
+                     curr_line_pos -= yyleng - num_digits;
+                     yyless(num_digits);
+                     return Syntax_Tags::SG_INT_LITERAL_CONSTANT; }
 
   /* These must be last to allow keyword and operator completion */
 
-- 
2.43.0


From 0b7bbe3fb00adfaea311c46aff6e9bbf931e99ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:56 +0000
Subject: [PATCH 13/77] fix: record positions and spacing for both halves of a
 split keyword

---
 src/flpr/Logical_Line.cc | 43 ++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 5752b81..766edd3 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -770,26 +770,32 @@ void Logical_Line::tokenize(Line_Accum const &la) {
   int next_pre_sp = 0;
   int space_between;
 
+  /* Record the positions of tt, which occupies [beg,end) in la.accum().  The
+     "end" address is one character beyond the last character of the token. */
+  auto locate = [&la](Token_Text &tt, int const beg, int const end) {
+    int li, ci;
+    la.linecolno(beg, tt.start_line, tt.start_pos, tt.mt_begin_line_,
+                 tt.mt_begin_col_);
+    la.linecolno(end - 1, li, ci, tt.mt_end_line_, tt.mt_end_col_);
+    tt.mt_end_col_ += 1;
+  };
+
   for (int result_tok = yylex(); result_tok != Syntax_Tags::EOL;
        result_tok = yylex()) {
-    /* tok_start is an index into la.accum().  Convert this into a file line and
-     column number */
-    int li, ci, tli, tci;
-    la.linecolno(tok_start_col, li, ci, tli, tci);
-    fragments_.emplace_back(std::string(yytext, yyleng), result_tok, li, ci);
+    fragments_.emplace_back(std::string(yytext, yyleng), result_tok, -1, -1);
+    Token_Text &first{fragments_.back()};
+    first.pre_spaces_ = next_pre_sp;
     /* Break up keywords with no space. */
     if (result_tok == Syntax_Tags::TK_NAME)
       unsmash();
+    Token_Text &last{fragments_.back()};
 
-    /* calculate the "end" address (one character beyond the last character of
-       the token */
-
-    int end_file_line_idx, end_file_col_idx, end_text_line_idx,
-        end_text_col_idx;
-
-    la.linecolno(curr_line_pos - 1, end_file_line_idx, end_file_col_idx,
-                 end_text_line_idx, end_text_col_idx);
-    end_text_col_idx += 1;
+    /* tok_start_col is an index into la.accum().  Convert this into file line
+     and column numbers */
+    int const split_col = curr_line_pos - static_cast<int>(last.text().size());
+    if (&first != &last)
+      locate(first, tok_start_col, split_col);
+    locate(last, split_col, curr_line_pos);
 
     /* yylex advances curr_line_pos to the end of the last token recognized, but
        we want where the next token begins */
@@ -800,13 +806,7 @@ void Logical_Line::tokenize(Line_Accum const &la) {
       space_between += 1;
     }
 
-    Token_Text &tt{fragments_.back()};
-    tt.mt_begin_line_ = tli;
-    tt.mt_begin_col_ = tci;
-    tt.mt_end_line_ = end_text_line_idx;
-    tt.mt_end_col_ = end_text_col_idx;
-    tt.pre_spaces_ = next_pre_sp;
-    tt.post_spaces_ = space_between;
+    last.post_spaces_ = space_between;
 
     next_pre_sp = space_between;
   }
@@ -860,7 +860,6 @@ void Logical_Line::unsmash() {
   // Add a new second token
   new2.token = ptr->tok2;
   new2.mod_text().erase(0, ptr->splitpos);
-  new2.start_pos += ptr->splitpos;
   new2.pre_spaces_ = 0;
   fragments_.emplace_back(std::move(new2));
 }
-- 
2.43.0


From a85305e1f4616b55d73e5c86737270391e69fdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:56 +0000
Subject: [PATCH 14/77] fix: record token positions as layout indices when
 comments are interspersed

---
 src/flpr/Logical_Line.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 766edd3..c55d1a8 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -127,6 +127,8 @@ void Logical_Line::clear() noexcept {
 /* ------------------------------------------------------------------------ */
 void Logical_Line::init_from_layout() noexcept {
   Line_Accum la;
+  // The layout_ index of each of the lines given to la
+  std::vector<int> layout_idx;
 
   for (auto &fl : layout_) {
     if (!fl.is_trivial()) {
@@ -136,6 +138,7 @@ void Logical_Line::init_from_layout() noexcept {
          have the correct breaks between lexemes. */
       la.add_line(fl.linenum, fl.left_space.size(), first_col, fl.main_txt,
                   fl.right_space.size());
+      layout_idx.push_back(static_cast<int>(&fl - layout_.data()));
     }
   }
 
@@ -151,6 +154,12 @@ void Logical_Line::init_from_layout() noexcept {
     label = 0;
 
   tokenize(la);
+
+  /* la doesn't know about the trivial lines in layout_ */
+  for (auto &tt : fragments_) {
+    tt.mt_begin_line_ = layout_idx[tt.mt_begin_line_];
+    tt.mt_end_line_ = layout_idx[tt.mt_end_line_];
+  }
 }
 
 namespace {
-- 
2.43.0


From 2ae6d18b436d41a6ad7eddc35cf54e72f5cb1be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:00 +0000
Subject: [PATCH 15/77] fix: end a token at the end of a line continued without
 a leading ampersand

---
 src/flpr/Logical_Line.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index c55d1a8..11642c5 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -129,15 +129,19 @@ void Logical_Line::init_from_layout() noexcept {
   Line_Accum la;
   // The layout_ index of each of the lines given to la
   std::vector<int> layout_idx;
+  char open_delim = '\0';
 
   for (auto &fl : layout_) {
     if (!fl.is_trivial()) {
       int const first_col = fl.main_first_col();
 
       /* need to add the left and right space sizes here so that continued lines
-         have the correct breaks between lexemes. */
-      la.add_line(fl.linenum, fl.left_space.size(), first_col, fl.main_txt,
-                  fl.right_space.size());
+         have the correct breaks between lexemes.  A lexeme can't be split
+         across lines unless there is a leading continuation mark. */
+      bool const no_split = fl.left_txt.empty() && open_delim == '\0';
+      la.add_line(fl.linenum, no_split ? 1 : fl.left_space.size(), first_col,
+                  fl.main_txt, fl.right_space.size());
+      open_delim = fl.open_delim;
       layout_idx.push_back(static_cast<int>(&fl - layout_.data()));
     }
   }
-- 
2.43.0


From ba0298940a4c4c74912f88418b94f138a2fb0788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:29 +0000
Subject: [PATCH 16/77] fix: generate an 8-bit scanner, so that non-ASCII text
 isn't read out of bounds

---
 src/flpr/scan_fort.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/scan_fort.l b/src/flpr/scan_fort.l
index 170f85a..079c7e7 100644
--- a/src/flpr/scan_fort.l
+++ b/src/flpr/scan_fort.l
@@ -16,7 +16,7 @@ int curr_line_pos = 0;
 #define YY_USER_ACTION curr_line_pos += yyleng;
 using FLPR::Syntax_Tags;
 %}
-%option full
+%option full 8bit
 %option case-insensitive
 %option noyywrap
 %option stack
-- 
2.43.0


From 03c2d1c09c96945e693fed6ad1f24f04a654bf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:57 +0000
Subject: [PATCH 17/77] fix: keep the comment when a line is reduced to its
 comment

---
 src/flpr/File_Line.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 1d6250f..8534d02 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -436,13 +436,13 @@ void File_Line::make_comment_or_blank() {
     right_txt[0] = ' ';
   }
   auto comment_start = right_txt.find('!');
-  if (comment_start != std::string::npos && comment_start > 0) {
+  if (comment_start != std::string::npos) {
     /* transfer any leading blanks from right_txt to right_space */
     right_space.append(comment_start, ' ');
     right_txt.erase(0, comment_start);
     /* set each of the earlier text fields to be blank of the same length */
     left_txt.assign(left_txt.size(), ' ');
-    right_txt.assign(right_txt.size(), ' ');
+    main_txt.assign(main_txt.size(), ' ');
     bool const is_fixed_format = classification_[ff];
     classification_.reset();
     classification_[ff] = is_fixed_format;
-- 
2.43.0


From 6c410ffcbcf88f11efd9c1936f8433749f4e4cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:57 +0000
Subject: [PATCH 18/77] fix: move trailing comments by the indentation change
 of their line

---
 src/flpr/File_Line.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 8534d02..13cf5ad 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -509,7 +509,7 @@ bool File_Line::set_leading_spaces(int const spaces) {
 
   } else if (is_fortran()) {
     int orig_spaces{-1};
-    int offset;
+    int offset{0};
     if (left_txt.empty()) {
       if (static_cast<int>(left_space.size()) == spaces)
         return false; // no change needed
@@ -562,7 +562,7 @@ bool File_Line::set_leading_spaces(int const spaces) {
         if (offset < 0) {
           /* The main_txt moved left, so we can introduce more spaces on the
              right */
-          right_space.insert(pos, -offset, ' ');
+          right_space.append(-offset, ' ');
         } else {
           /* The main_txt moved right, so see if we can squeeze right_space */
           int const min_size = (right_space.empty()) ? 0 : 1;
-- 
2.43.0


From fd1828f7c5c580afe4214c941b13bf6f74bd4261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:57 +0000
Subject: [PATCH 19/77] fix: count right_space in the position of a comment

---
 src/flpr/File_Line.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 13cf5ad..42536a9 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -593,7 +593,7 @@ int File_Line::get_leading_spaces() const noexcept {
         pos = right_txt.find('!');
         if (pos != std::string::npos) {
           retval = left_txt.size() + left_space.size() + main_txt.size() +
-                   right_txt.size() + pos;
+                   right_space.size() + pos;
         }
       }
     }
-- 
2.43.0


From 86eb87db5d0fcb20b2fdd691b3022dc13f9ea7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:57 +0000
Subject: [PATCH 20/77] fix: let set_label(0) clear the label, and keep
 fixed-format indentation

---
 src/flpr/File_Line.cc | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 42536a9..9545ce4 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -612,17 +612,18 @@ bool File_Line::set_label(int new_label) {
 
   if (new_label == 0 && !has_label())
     return false;
+  if (new_label == 0) {
+    /* Remove the label, but leave the main_txt where it is */
+    if (!is_fixed_format())
+      left_space.insert(0, left_txt.size(), ' ');
+    left_txt.clear();
+    UNSET_CLASS(label);
+    return true;
+  }
   if (is_fixed_format()) {
-    if (left_txt.empty()) {
-      left_txt = std::to_string(new_label);
-      left_txt.append(6 - left_txt.size(), ' ');
-      if (left_space.size() > 6)
-        left_space.erase(0, 6);
-    } else {
-      assert(has_label());
-      left_txt = std::to_string(new_label);
-      left_txt.append(6 - left_txt.size(), ' ');
-    }
+    /* left_space begins after the control columns */
+    left_txt = std::to_string(new_label);
+    left_txt.append(6 - left_txt.size(), ' ');
   } else {
     /* free-format */
     size_t const old_size = left_txt.size();
-- 
2.43.0


From d56580eee15869ec8b3e725833755074595a3cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:52 +0000
Subject: [PATCH 21/77] fix: update the end of a replaced fragment

---
 src/flpr/Logical_Line.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 11642c5..cb897f9 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -338,6 +338,7 @@ void Logical_Line::replace_fragment(typename TT_SEQ::iterator frag,
   int const layout_line = frag->mt_begin_line_;
   std::string &main_txt = layout_[layout_line].main_txt;
   main_txt.replace(frag->mt_begin_col_, old_text_len, new_text);
+  frag->mt_end_col_ += len_change;
 
   // Update the mt_begin_col_ for all fragments following on this line
   for (frag = std::next(frag);
-- 
2.43.0


From f0d2209a7fe23028b356dd27da6db3d331929ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:52 +0000
Subject: [PATCH 22/77] fix: don't add or remove trailing ampersands in
 fixed-format lines

---
 src/flpr/File_Line.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 9545ce4..5cf6321 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -360,6 +360,8 @@ void File_Line::unspace_main() {
 void File_Line::make_uncontinued() {
   auto &bits = classification_;
   UNSET_CLASS(continued);
+  if (is_fixed_format())
+    return; // there is no trailing continuation character
   size_t pos = 0;
   if (!right_txt.empty()) {
     if (right_txt[0] == '&')
@@ -377,6 +379,8 @@ void File_Line::make_uncontinued() {
 
 void File_Line::make_continued() {
   auto &bits = classification_;
+  if (is_fixed_format())
+    return; // there is no trailing continuation character
   SET_CLASS(continued);
   if (right_space.empty())
     right_space.assign(1, ' ');
-- 
2.43.0


From 4088eeadaa30b03adf5405daffbccd6d6f6b38fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:52 +0000
Subject: [PATCH 23/77] fix: continue every line but the last one in
 replace_main_text

---
 src/flpr/Logical_Line.cc | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index cb897f9..3939788 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -406,23 +406,35 @@ void Logical_Line::replace_main_text(std::vector<std::string> const &new_text) {
   if (layout_.size() < new_text.size()) {
     int const indent = layout_[ref_line].main_first_col() - 1;
     File_Line ref_fl = layout_[ref_line];
-    ref_fl.make_continued();
-    ref_fl.left_txt.clear();
+    ref_fl.unset_classification(File_Line::class_flags::label);
+    ref_fl.right_space.clear();
     ref_fl.right_txt.clear();
-    ref_fl.set_leading_spaces(indent);
+    if (ref_fl.is_fixed_format()) {
+      ref_fl.set_classification(File_Line::class_flags::continuation);
+      ref_fl.left_txt = "     &";
+    } else {
+      ref_fl.unset_classification(File_Line::class_flags::continuation);
+      ref_fl.left_txt.clear();
+      ref_fl.set_leading_spaces(indent);
+    }
     layout_.insert(layout_.end(), new_text.size() - old_size, ref_fl);
   }
 
   /* copy the new text into place */
   size_t fl_idx{0};
   for (std::string const &s : new_text) {
-    layout_[fl_idx++].main_txt = s;
+    File_Line &fl = layout_[fl_idx++];
+    fl.main_txt = s;
+    fl.open_delim = '\0';
+    /* keep the text of a fixed-format continuation from joining the line before
+     */
+    if (fl.is_fixed_format() && fl_idx > 1 && fl.left_space.empty())
+      fl.left_space.assign(1, ' ');
   }
-  assert(ref_line < fl_idx);
 
   /* fix continuations */
-  if (ref_line < fl_idx - 1) {
-    layout_[ref_line].make_continued();
+  for (size_t i = 0; i + 1 < fl_idx; ++i) {
+    layout_[i].make_continued();
   }
   layout_[fl_idx - 1].make_uncontinued();
 
-- 
2.43.0


From 87e2fc4ee3db5443cc4a509ab93ab56e4ebc22bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:35 +0000
Subject: [PATCH 24/77] fix: clean up lines left empty by removing or replacing
 text

---
 src/flpr/Logical_Line.cc | 70 ++++++++++++++++++++++++++++++++++------
 src/flpr/Logical_Line.hh |  2 ++
 2 files changed, 62 insertions(+), 10 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 3939788..eb167ab 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -372,6 +372,7 @@ void Logical_Line::remove_fragment(typename TT_SEQ::iterator frag) {
       frag->mt_end_col_ += len_change;
   }
 
+  tidy_layout_();
   init_stmts();
 }
 
@@ -467,18 +468,66 @@ void Logical_Line::erase_stmt_text_(int stln, int stcol, int eln, int ecol) {
   assert(stcol >= 0);
   assert(ecol <= static_cast<int>(layout_[eln].main_txt.size()));
   layout_[stln].main_txt.erase(stcol, ecol - stcol);
-  if (layout_[stln].main_txt.find_first_not_of(' ') == std::string::npos) {
-    layout_[stln].main_txt.clear();
-    if (multiline)
-      layout_[stln].make_comment_or_blank();
+  /* Any character context that was open in between is gone */
+  for (int i = hold_stln; i < eln; ++i)
+    layout_[i].open_delim = '\0';
+}
+
+/* ------------------------------------------------------------------------ */
+void Logical_Line::tidy_layout_() {
+  size_t const N = layout_.size();
+  auto is_blank_text = [](File_Line const &fl) {
+    return fl.main_txt.find_first_not_of(' ') == std::string::npos;
+  };
+
+  /* Lines that don't have any Fortran text left are only kept for their label
+     or comment. */
+  for (auto &fl : layout_) {
+    if (fl.is_fortran() && is_blank_text(fl)) {
+      fl.main_txt.clear();
+      if (fragments_.empty() || !fl.has_label())
+        fl.make_comment_or_blank();
+    }
   }
 
-  int count_fortran{0};
-  for (int i = hold_stln; i <= eln; ++i)
-    if (layout_[i].is_fortran())
-      count_fortran += 1;
-  if (count_fortran == 1)
-    layout_[hold_stln].make_uncontinued();
+  size_t first = N, last = N;
+  for (size_t i = 0; i < N; ++i) {
+    if (!layout_[i].is_fortran())
+      continue;
+    File_Line &fl = layout_[i];
+    if (first == N) {
+      first = i;
+      /* There is nothing to continue */
+      if (fl.is_continuation()) {
+        if (!fl.is_fixed_format())
+          fl.left_space.insert(0, fl.left_txt.size(), ' ');
+        fl.left_txt.clear();
+        fl.unset_classification(File_Line::class_flags::continuation);
+      }
+    }
+    /* Move leading and trailing blanks out of main_txt */
+    if (last == N || layout_[last].open_delim == '\0') {
+      int const blanks = std::min(fl.main_txt.find_first_not_of(' '),
+                                  fl.main_txt.size());
+      fl.left_space.append(blanks, ' ');
+      fl.main_txt.erase(0, blanks);
+      for (auto &tt : fragments_) {
+        if (tt.mt_begin_line_ == static_cast<int>(i))
+          tt.mt_begin_col_ -= blanks;
+        if (tt.mt_end_line_ == static_cast<int>(i))
+          tt.mt_end_col_ -= blanks;
+      }
+    }
+    if (fl.open_delim == '\0') {
+      size_t const len = fl.main_txt.find_last_not_of(' ') + 1;
+      if (!fl.right_txt.empty())
+        fl.right_space.append(fl.main_txt.size() - len, ' ');
+      fl.main_txt.erase(len);
+    }
+    last = i;
+  }
+  if (last != N)
+    layout_[last].make_uncontinued();
 }
 
 /* ------------------------------------------------------------------------ */
@@ -491,6 +540,7 @@ void Logical_Line::replace_stmt_substr(TT_Range const &orig,
   int const ec = orig.back().mt_end_col_;
   erase_stmt_text_(sl, sc, el, ec);
   layout_[sl].main_txt.insert(sc, new_text);
+  tidy_layout_();
   init_from_layout();
 }
 
diff --git a/src/flpr/Logical_Line.hh b/src/flpr/Logical_Line.hh
index 6748d73..dea26b9 100644
--- a/src/flpr/Logical_Line.hh
+++ b/src/flpr/Logical_Line.hh
@@ -234,6 +234,8 @@ private:
                      Token_Text const &tt, bool first);
 
   void erase_stmt_text_(int stln, int stcol, int eln, int ecol);
+  //! Clean up layout_ after Fortran text has been removed from it
+  void tidy_layout_();
 
 private:
   int num_semicolons_; // set by init_stmts, -1 -> not initialized
-- 
2.43.0


From 1a9441ff1edf24274441e0f8325ae87352e8cd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:36 +0000
Subject: [PATCH 25/77] fix: keep layout and positions when removing empty
 statements

---
 src/flpr/Logical_Line.cc | 57 +++++++++++++---------------------------
 1 file changed, 18 insertions(+), 39 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index eb167ab..47a2918 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -720,52 +720,31 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
 bool Logical_Line::remove_empty_statements() {
   bool changed{false};
 
+  // A semicolon at the beginning, or after another one, ends an empty statement
+  bool stmt_is_empty{true};
   TT_SEQ::iterator tt = fragments_.begin();
-  while (tt != fragments_.end() && tt->token == Syntax_Tags::TK_SEMICOLON)
-    ++tt;
-  if (tt != fragments_.begin()) {
-    changed = true;
-    fragments_.erase(fragments_.begin(), tt);
-  }
-
-  bool back_changed{false};
-  while (!fragments_.empty() &&
-         fragments_.back().token == Syntax_Tags::TK_SEMICOLON) {
-    // If we get here, there is at least one non-semi token, otherwise
-    // the previous loop would have cleaned them out
-    fragments_.pop_back();
-    back_changed = true;
-  }
-
-  if (stmts_.size() > 1) {
-    bool internal_empty{false};
-    for (tt = fragments_.begin(); tt != fragments_.end(); ++tt) {
-      if (tt->token != Syntax_Tags::TK_SEMICOLON)
-        continue;
-      auto next_tt = std::next(tt);
-      if (next_tt != fragments_.end() &&
-          next_tt->token == Syntax_Tags::TK_SEMICOLON) {
-        // Clear the second, third, whatever semis, as the first one
-        // is the end to a statement.
-        next_tt->mod_text().clear();
-        internal_empty = true;
-      }
-    }
-    if (internal_empty) {
-      fragments_.remove_if([](Token_Text const &tt) {
-        return (tt.token == Syntax_Tags::TK_SEMICOLON) && tt.text().empty();
-      });
+  while (tt != fragments_.end()) {
+    TT_SEQ::iterator const curr = tt++;
+    bool const is_semicolon = curr->token == Syntax_Tags::TK_SEMICOLON;
+    if (is_semicolon && stmt_is_empty) {
+      remove_fragment(curr);
       changed = true;
     }
+    stmt_is_empty = is_semicolon;
   }
-  if (back_changed) {
-    // Fix up the end of the last statement
-    stmts_.back() = TT_Range(stmts_.back().begin(), fragments_.end());
+
+  // The last statement doesn't need one
+  if (!fragments_.empty() &&
+      fragments_.back().token == Syntax_Tags::TK_SEMICOLON) {
+    remove_fragment(std::prev(fragments_.end()));
     changed = true;
   }
 
-  if (changed)
-    text_from_frags();
+  if (fragments_.empty() && changed) {
+    // Only comments remain, if anything
+    suppress = std::all_of(layout_.begin(), layout_.end(),
+                           [](File_Line const &fl) { return fl.is_blank(); });
+  }
   return changed;
 }
 
-- 
2.43.0


From b11e82415ab693068367c27b2e5338fd40709ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:24 +0000
Subject: [PATCH 26/77] fix: keep labels, semicolons and positions straight in
 split_after

---
 src/flpr/Logical_Line.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 47a2918..ae438d0 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -582,7 +582,7 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
   if (frag == fragments_.end())
     return false;
   int const split_line = frag->mt_end_line_;
-  assert(split_line < static_cast<int>(fragments_.size()));
+  assert(split_line < static_cast<int>(layout_.size()));
 
   auto const num_left_sp = layout_[0].main_first_col() - 1;
 
@@ -642,6 +642,8 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
 
     /* clean new: remove left_txt */
     export_beg->left_txt.clear();
+    export_beg->unset_classification(File_Line::class_flags::label);
+    export_beg->unset_classification(File_Line::class_flags::continuation);
     /* clean new: indent column */
     export_beg->set_leading_spaces(num_left_sp);
 
@@ -664,6 +666,13 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
        continuation and adjust indent */
     export_beg = layout_.begin() + split_line + 1;
 
+    /* cleanup the source: remove main_txt past the end of frag (semicolons) */
+    if (frag->mt_end_col_ <
+        static_cast<int>(layout_[split_line].main_txt.size())) {
+      layout_[split_line].main_txt.erase(frag->mt_end_col_);
+      fragments_.erase(std::next(frag), lr_end);
+    }
+
     /* cleanup the source: remove any trailing ampersand continuations */
     layout_[split_line].make_uncontinued();
 
@@ -677,6 +686,7 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
     }
     if (non_trivial != layout_.end()) {
       non_trivial->left_txt.clear();
+      non_trivial->unset_classification(File_Line::class_flags::continuation);
       non_trivial->set_leading_spaces(num_left_sp);
     }
   }
@@ -698,7 +708,7 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
                            std::make_move_iterator(fragments_.end()));
 
   /* update the main_txt line numbers for the new fragments  */
-  int const move_up = new_ll.fragments_.front().mt_begin_line_;
+  int const move_up = split_line + 1;
   for (auto &tt : new_ll.fragments_) {
     tt.mt_begin_line_ -= move_up;
     tt.mt_end_line_ -= move_up;
-- 
2.43.0


From 1ec5a650054f8cd217298fd18eb1f6b494173264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:24 +0000
Subject: [PATCH 27/77] fix: don't report a spacing change when nothing could
 be changed

---
 src/flpr/File_Line.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 5cf6321..8ecbe91 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -578,7 +578,7 @@ bool File_Line::set_leading_spaces(int const spaces) {
         }
       }
     }
-    return true;
+    return offset != 0;
   }
   return false; // wasn't a comment or fortran line
 }
-- 
2.43.0


From cda87e49ffc7b5a9d3790b855d9af0ae504dd4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:50 +0000
Subject: [PATCH 28/77] fix: don't append a comment inside an open character
 context

---
 src/flpr/Logical_Line.cc | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index ae438d0..a320ef9 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -12,6 +12,7 @@
   \file Logical_Line.cc
 */
 
+#include <algorithm>
 #include <iomanip>
 #include <iostream>
 #include <stdexcept>
@@ -883,21 +884,26 @@ void Logical_Line::tokenize(Line_Accum const &la) {
 void Logical_Line::append_comment(std::string const &comment_text) {
   if (comment_text.empty())
     return;
-  if (layout_[0].right_txt.empty()) {
-    int lline_len = layout_[0].main_first_col() + layout_[0].main_txt.size();
+  // A comment can't follow an open character context
+  auto fl_it = std::find_if(layout_.begin(), layout_.end(), [](auto const &fl) {
+    return fl.is_fortran() && fl.open_delim == '\0';
+  });
+  File_Line &fl = (fl_it == layout_.end()) ? layout_[0] : *fl_it;
+  if (fl.right_txt.empty()) {
+    int lline_len = fl.main_first_col() + fl.main_txt.size();
     int c_len = 2 + comment_text.size();
     if (72 - c_len > lline_len)
-      layout_[0].right_space = std::string(72 - c_len - lline_len, ' ');
+      fl.right_space = std::string(72 - c_len - lline_len, ' ');
     else
-      layout_[0].right_space = "    ";
-    layout_[0].right_txt = "! ";
-    layout_[0].right_txt.append(comment_text);
+      fl.right_space = "    ";
+    fl.right_txt = "! ";
+    fl.right_txt.append(comment_text);
   } else {
-    if (layout_[0].right_txt.find('!') == std::string::npos)
-      layout_[0].right_txt.append(" ! ");
+    if (fl.right_txt.find('!') == std::string::npos)
+      fl.right_txt.append(" ! ");
     else
-      layout_[0].right_txt.append(" : ");
-    layout_[0].right_txt.append(comment_text);
+      fl.right_txt.append(" : ");
+    fl.right_txt.append(comment_text);
   }
 }
 
-- 
2.43.0


From 368093e8a92862a0f2d203a9a28b073d07792744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:46 +0000
Subject: [PATCH 29/77] fix: don't put blanks into a continued token to hold a
 comment in place

---
 src/flpr/File_Line.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 8ecbe91..2a68fb4 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -566,7 +566,12 @@ bool File_Line::set_leading_spaces(int const spaces) {
         if (offset < 0) {
           /* The main_txt moved left, so we can introduce more spaces on the
              right */
-          right_space.append(-offset, ' ');
+          if (right_space.empty() && is_continued()) {
+            /* The last token may go on in the next line */
+            right_txt.insert(pos, -offset, ' ');
+          } else {
+            right_space.append(-offset, ' ');
+          }
         } else {
           /* The main_txt moved right, so see if we can squeeze right_space */
           int const min_size = (right_space.empty()) ? 0 : 1;
-- 
2.43.0


From 19e012e1215f738be742c3432302c028964adf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:42 +0000
Subject: [PATCH 30/77] fix: indent split statements by the first Fortran line

---
 src/flpr/Logical_Line.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index a320ef9..10eea41 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -585,7 +585,11 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
   int const split_line = frag->mt_end_line_;
   assert(split_line < static_cast<int>(layout_.size()));
 
-  auto const num_left_sp = layout_[0].main_first_col() - 1;
+  auto const first_fl =
+      std::find_if(layout_.begin(), layout_.end(),
+                   [](auto const &fl) { return fl.is_fortran(); });
+  assert(first_fl != layout_.end());
+  auto const num_left_sp = first_fl->main_first_col() - 1;
 
   /* collect the range of tokens that follow frag on the same layout_ line */
   auto lr_beg = std::next(frag);
-- 
2.43.0


From dfc45d4083a3b55b0a68c36f5e9ef4d818ef452f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:35 +0000
Subject: [PATCH 31/77] fix: drop an empty line when its label is removed

---
 src/flpr/Logical_Line.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 10eea41..22bd8cb 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -817,6 +817,9 @@ bool Logical_Line::set_label(int new_label) {
     return false;
   layout_[0].set_label(new_label);
   label = new_label;
+  /* A line that was only kept for its label isn't needed any more */
+  if (label == 0)
+    tidy_layout_();
   return true;
 }
 
-- 
2.43.0


From a6597b7ee5e20876b87f4516c65e8a6628c359ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:40 +0000
Subject: [PATCH 32/77] fix: don't take RANK and FORMAT statements for macro
 invocations

---
 src/flpr/parse_stmt.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 7fe6153..e7e9f8e 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -2449,6 +2449,8 @@ Stmt_Tree macro_stmt(TT_Stream &ts) {
         neg(peek(TAG(KW_WHERE))),
         neg(peek(TAG(KW_FORALL))),
         neg(peek(TAG(KW_CASE))),
+        neg(peek(TAG(KW_RANK))),
+        neg(peek(TAG(KW_FORMAT))),
         name(),
         rule(consume_parens),
         eol());
-- 
2.43.0


From 9cbbec11511dcd0caefc1cf5aa1d2db8f7834fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:31 +0000
Subject: [PATCH 33/77] fix: let a derived type hold both PRIVATE and SEQUENCE
 statements

---
 src/flpr/Prgm_Parsers_impl.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/Prgm_Parsers_impl.hh b/src/flpr/Prgm_Parsers_impl.hh
index cedfa32..feca9d6 100644
--- a/src/flpr/Prgm_Parsers_impl.hh
+++ b/src/flpr/Prgm_Parsers_impl.hh
@@ -112,7 +112,7 @@ PPARSER(derived_type_def) {
   constexpr auto p =
     seq_if(rule_tag,
            STMT(derived_type_stmt),
-           opt(STMT(private_or_sequence)),
+           star(STMT(private_or_sequence)),
            component_part,
            opt(type_bound_procedure_part),
            STMT(end_type_stmt));
-- 
2.43.0


From c6a82bc76ec95399bf4e8a07d8724a259d02c872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:50 +0000
Subject: [PATCH 34/77] fix: recognise type parameter definitions in derived
 types

---
 src/flpr/Prgm_Parsers_impl.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flpr/Prgm_Parsers_impl.hh b/src/flpr/Prgm_Parsers_impl.hh
index feca9d6..f9a5528 100644
--- a/src/flpr/Prgm_Parsers_impl.hh
+++ b/src/flpr/Prgm_Parsers_impl.hh
@@ -112,6 +112,7 @@ PPARSER(derived_type_def) {
   constexpr auto p =
     seq_if(rule_tag,
            STMT(derived_type_stmt),
+           star(STMT(type_param_def_stmt)),
            star(STMT(private_or_sequence)),
            component_part,
            opt(type_bound_procedure_part),
-- 
2.43.0


From 73ec5725091942e534e3e437d006d21047340342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:34 +0000
Subject: [PATCH 35/77] fix: don't link the statements of a program that wasn't
 parsed

---
 src/flpr/Parsed_File.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flpr/Parsed_File.hh b/src/flpr/Parsed_File.hh
index 960a0ba..d00e184 100644
--- a/src/flpr/Parsed_File.hh
+++ b/src/flpr/Parsed_File.hh
@@ -183,7 +183,8 @@ template <typename PG_NODE_DATA> void Parsed_File<PG_NODE_DATA>::build_tree_() {
       bad_state_ = true;
     }
     parse_tree_.swap(result.parse_tree);
-    link_stmts_recurse_(*parse_tree_);
+    if (!parse_tree_.empty())
+      link_stmts_recurse_(*parse_tree_);
   }
   tree_ok_ = true;
 }
-- 
2.43.0


From b178394445262e393bee139eb72f9655982f20f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:34 +0000
Subject: [PATCH 36/77] fix: don't drop the statements of an incomplete
 construct, or read past the last one

---
 src/flpr/Prgm_Parsers_impl.hh  |  2 +-
 src/flpr/Prgm_Parsers_utils.hh | 44 +++++++++++++++++++++++++++-------
 2 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/src/flpr/Prgm_Parsers_impl.hh b/src/flpr/Prgm_Parsers_impl.hh
index f9a5528..79997ec 100644
--- a/src/flpr/Prgm_Parsers_impl.hh
+++ b/src/flpr/Prgm_Parsers_impl.hh
@@ -166,7 +166,7 @@ PPARSER(executable_construct) {
   /* If the current statement has a label that matches a label-do-stmt label
      that we are looking for, we force a non-match so that the end-do-stmt rule
      can look at it */
-  if(state.do_label_stack.is_top(state.ss->label())) return PP_Result{};
+  if(state.ss && state.do_label_stack.is_top(state.ss->label())) return PP_Result{};
   EVAL(PG_EXECUTABLE_CONSTRUCT, p(state));
 }
 
diff --git a/src/flpr/Prgm_Parsers_utils.hh b/src/flpr/Prgm_Parsers_utils.hh
index 01c48a2..30a271f 100644
--- a/src/flpr/Prgm_Parsers_utils.hh
+++ b/src/flpr/Prgm_Parsers_utils.hh
@@ -79,6 +79,18 @@ static void cover_branches(typename Prgm_Tree::reference node) {
   }
 }
 
+//! Report that a construct couldn't be completed
+static void report_mismatch(State &state, int const syntag) {
+  if (state.ss) {
+    std::cerr << "Unrecognized statement\n";
+    state.ss->print_me(std::cerr, false);
+  } else {
+    std::cerr << "Unexpected end of the statements";
+  }
+  FLPR::Syntax_Tags::print(std::cerr << "\nwhile parsing ", syntag)
+      << std::endl;
+}
+
 /******************************* COMBINATORS **********************************/
 
 //! Return a result if any of the alternatives match
@@ -254,6 +266,7 @@ public:
   constexpr explicit Sequence_Parser(int const syntag, Ps &&... ps) noexcept
       : syntag_{syntag}, parsers_{std::forward<Ps>(ps)...} {}
   PP_Result operator()(State &state) const noexcept {
+    State const start{state};
     Prgm_Tree root(syntag_);
     auto attach_if = [&state, &root ](auto const &p) constexpr {
       auto [pt, match] = p(state);
@@ -267,9 +280,8 @@ public:
     };
     bool const match = std::apply(fold, parsers_);
     if (!match) {
-      std::cerr << "Unrecognized statement\n";
-      state.ss->print_me(std::cerr, false) << "\nwhile parsing ";
-      FLPR::Syntax_Tags::print(std::cerr, syntag_) << std::endl;
+      report_mismatch(state, syntag_);
+      state = start;
       return PP_Result{};
     }
     if (root)
@@ -304,6 +316,7 @@ public:
       : syntag_{syntag}, parser0_{p0}, rest_{std::forward<Ps>(ps)...} {}
 
   PP_Result operator()(State &state) const noexcept {
+    State const start{state};
     Prgm_Tree root(syntag_);
 
     /* define a functor to attach the parse tree if a parser matches */
@@ -323,9 +336,8 @@ public:
     if (attach_if(parser0_)) {
       bool const match = std::apply(fold, rest_);
       if (!match) {
-        std::cerr << "Unrecognized statement\n";
-        state.ss->print_me(std::cerr, false) << "\nwhile parsing ";
-        FLPR::Syntax_Tags::print(std::cerr, syntag_) << std::endl;
+        report_mismatch(state, syntag_);
+        state = start;
         return PP_Result{};
       }
       if (root)
@@ -393,6 +405,8 @@ public:
   Statement_Parser(Statement_Parser const &) = default;
   constexpr explicit Statement_Parser(parser_function f) noexcept : f_{f} {}
   PP_Result operator()(State &state) const noexcept {
+    if (!state.ss)
+      return PP_Result{};
     FLPR::TT_Stream tts(*(state.ss));
     FLPR::Stmt::Stmt_Tree st = f_(tts);
     if (!st)
@@ -497,6 +511,15 @@ public:
   PP_Result operator()(State &state) const noexcept {
 
     /****************************** DO-STMT ***********************************/
+    if (!state.ss)
+      return PP_Result{};
+
+    State const start{state};
+    auto no_match = [&state, &start]() {
+      state = start;
+      return PP_Result{};
+    };
+
     FLPR::Stmt::Stmt_Tree do_stmt_tree;
     {
       FLPR::TT_Stream tts(*(state.ss));
@@ -543,6 +566,9 @@ public:
 
     /*********************** TERMINATING STATEMENT ****************************/
 
+    if (!state.ss)
+      return no_match();
+
     FLPR::TT_Stream tts(*(state.ss));
     FLPR::LL_STMT_SEQ::iterator end_stmt_it{state.ss};
     int end_stmt_pg_tag{TAG(UNKNOWN)};
@@ -552,7 +578,7 @@ public:
     if (!state.ss->has_label()) {
       FLPR::Stmt::Stmt_Tree end_stmt_tree{FLPR::Stmt::end_do_stmt(tts)};
       if (!end_stmt_tree)
-        return PP_Result{}; // wasn't end-do-stmt, so match fails
+        return no_match(); // wasn't end-do-stmt, so match fails
       end_stmt_sg_tag = (*end_stmt_tree)->syntag;
       end_stmt_pg_tag = TAG(HOIST);
       do_construct_tag = TAG(PG_DO_CONSTRUCT);
@@ -583,7 +609,7 @@ public:
            an outer-shared-do-construct form of a nonblock-do-construct. */
         FLPR::Stmt::Stmt_Tree end_stmt_tree{FLPR::Stmt::action_stmt(tts)};
         if (!end_stmt_tree)
-          return PP_Result{};
+          return no_match();
 
         end_stmt_sg_tag = (*end_stmt_tree)->syntag;
         end_stmt_pg_tag = TAG(PG_DO_TERM_SHARED_STMT);
@@ -616,7 +642,7 @@ public:
           end_stmt_pg_tag = TAG(HOIST);
         }
         if (!end_stmt_tree)
-          return PP_Result{};
+          return no_match();
         end_stmt_sg_tag = (*end_stmt_tree)->syntag;
         end_stmt_it->set_stmt_tree(std::move(end_stmt_tree));
         state.ss.advance();
-- 
2.43.0


From 4cb54bccd2d7f402075fbb578583e8b01c774d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:51 +0000
Subject: [PATCH 37/77] fix: end a DO loop by its own label, whatever label its
 END DO has

---
 src/flpr/Prgm_Parsers_utils.hh | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/flpr/Prgm_Parsers_utils.hh b/src/flpr/Prgm_Parsers_utils.hh
index 30a271f..f04ca1e 100644
--- a/src/flpr/Prgm_Parsers_utils.hh
+++ b/src/flpr/Prgm_Parsers_utils.hh
@@ -574,8 +574,9 @@ public:
     int end_stmt_pg_tag{TAG(UNKNOWN)};
     int end_stmt_sg_tag{TAG(UNKNOWN)};
 
-    /* Without a label, the only end-do this can be is a end-do-statment */
-    if (!state.ss->has_label()) {
+    /* A nonlabel-do-stmt can only be ended by an end-do-stmt, which may have a
+       label of its own (e.g. as the target of a branch) */
+    if (label == 0) {
       FLPR::Stmt::Stmt_Tree end_stmt_tree{FLPR::Stmt::end_do_stmt(tts)};
       if (!end_stmt_tree)
         return no_match(); // wasn't end-do-stmt, so match fails
@@ -585,8 +586,8 @@ public:
       end_stmt_it->set_stmt_tree(std::move(end_stmt_tree));
       state.ss.advance();
     } else {
-      /* So, we've got a label. Let NL be the number of instances of this
-         label on the stack. This means, evaluated in order:
+      /* A label-do-stmt has to end at its label. Let NL be the number of
+         instances of this label on the stack. This means, evaluated in order:
 
          - if NL > 1 && and is action statement  => outer-shared-do-construct
          - if NL == 1 && end-do => block-do-construct
@@ -598,7 +599,9 @@ public:
          label the layers of label-do-stmts, which is provided by Label_Stack
       */
 
-      int const label{state.ss->label()};
+      if (state.ss->label() != label)
+        return no_match(); // the labeled statement is missing
+
       int const level{state.do_label_stack.level(label)};
 
       assert(level > -1);
-- 
2.43.0


From ea354dbbe542b2b99319c495171414f8077d2311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:09 +0000
Subject: [PATCH 38/77] fix: fail on expressions and parens left open at the
 end of a statement

---
 src/flpr/parse_stmt.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index e7e9f8e..465b961 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -58,6 +58,12 @@ Stmt_Tree consume_until_break(TT_Stream &ts, int const rule_tag) {
   int nesting_depth = 1;
   Stmt_Tree root{rule_tag};
   while (nesting_depth > 0) {
+    if (Syntax_Tags::BAD == ts.peek()) {
+      // The statement ends: nothing more can close what is still open
+      if (nesting_depth > 1)
+        FAIL;
+      break;
+    }
     if (Syntax_Tags::TK_PARENL == ts.peek()) {
       nesting_depth += 1;
     } else if (Syntax_Tags::TK_BRACKETL == ts.peek()) {
@@ -72,8 +78,6 @@ Stmt_Tree consume_until_break(TT_Stream &ts, int const rule_tag) {
         break;
     } else if (nesting_depth == 1) {
       // Other things you can run into that terminate an expression
-      if (Syntax_Tags::BAD == ts.peek())
-        break;
       if (Syntax_Tags::TK_COMMA == ts.peek())
         break;
       if (Syntax_Tags::TK_COLON == ts.peek())
@@ -103,6 +107,7 @@ Stmt_Tree consume_until_break(TT_Stream &ts, int const rule_tag) {
 
 //! helper function to consume until the matching PARENR
 Stmt_Tree consume_parens(TT_Stream &ts) {
+  INIT_FAIL;
   int nesting_depth = 1;
   if (Syntax_Tags::TK_PARENL != ts.peek())
     return Stmt_Tree{};
@@ -114,8 +119,8 @@ Stmt_Tree consume_parens(TT_Stream &ts) {
       nesting_depth += 1;
     } else if (Syntax_Tags::TK_PARENR == ts.peek()) {
       nesting_depth -= 1;
-    } else {
-      assert(Syntax_Tags::BAD != ts.peek());
+    } else if (Syntax_Tags::BAD == ts.peek()) {
+      FAIL; // the statement ends before the parens do
     }
     root.graft_back(Stmt_Tree{ts.peek(), ts.digest(1)});
   }
-- 
2.43.0


From f7068204418839a15698432e86efff317f5d4d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:25 +0000
Subject: [PATCH 39/77] fix: report success of Parsed_File::read_file

---
 src/flpr/Parsed_File.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/Parsed_File.hh b/src/flpr/Parsed_File.hh
index d00e184..c02ee8d 100644
--- a/src/flpr/Parsed_File.hh
+++ b/src/flpr/Parsed_File.hh
@@ -165,7 +165,7 @@ bool Parsed_File<PG_NODE_DATA>::read_file(std::string const &filename,
   if (logical_file_.read_and_scan(filename, last_fixed_col, file_type)) {
     bad_state_ = false;
   }
-  return bad_state_;
+  return !bad_state_;
 }
 
 template <typename PG_NODE_DATA> void Parsed_File<PG_NODE_DATA>::build_tree_() {
-- 
2.43.0


From c85bb0a7104b244590d7fcadebc99771f5b72cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:11 +0000
Subject: [PATCH 40/77] fix: require matching kinds of brackets in expressions
 and parens

---
 src/flpr/parse_stmt.cc | 74 +++++++++++++++++++++++++-----------------
 1 file changed, 44 insertions(+), 30 deletions(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 465b961..01a45d7 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -52,31 +52,52 @@ namespace Stmt {
 #define TAG(X) Syntax_Tags::X
 #define TOK(X) tok(Syntax_Tags::X)
 
+//! Does this token close a bracketed group?
+static bool is_closing_bracket(int const tok) {
+  return Syntax_Tags::TK_PARENR == tok || Syntax_Tags::TK_BRACKETR == tok;
+}
+
+//! The parentheses and brackets that are currently open
+class Bracket_Stack {
+public:
+  bool empty() const { return open_.empty(); }
+  //! Update for the next token, false if it closes the wrong kind of bracket
+  bool track(int const tok) {
+    if (Syntax_Tags::TK_PARENL == tok || Syntax_Tags::TK_BRACKETL == tok) {
+      open_.push_back(tok);
+    } else if (is_closing_bracket(tok)) {
+      int const opener = (Syntax_Tags::TK_PARENR == tok)
+                             ? Syntax_Tags::TK_PARENL
+                             : Syntax_Tags::TK_BRACKETL;
+      if (open_.empty() || open_.back() != opener)
+        return false;
+      open_.pop_back();
+    }
+    return true;
+  }
+
+private:
+  std::vector<int> open_;
+};
+
 //! Subparser to consume until the end of an expression
 Stmt_Tree consume_until_break(TT_Stream &ts, int const rule_tag) {
   INIT_FAIL;
-  int nesting_depth = 1;
+  Bracket_Stack open;
   Stmt_Tree root{rule_tag};
-  while (nesting_depth > 0) {
+  while (true) {
     if (Syntax_Tags::BAD == ts.peek()) {
       // The statement ends: nothing more can close what is still open
-      if (nesting_depth > 1)
+      if (!open.empty())
         FAIL;
       break;
     }
-    if (Syntax_Tags::TK_PARENL == ts.peek()) {
-      nesting_depth += 1;
-    } else if (Syntax_Tags::TK_BRACKETL == ts.peek()) {
-      nesting_depth += 1;
-    } else if (Syntax_Tags::TK_PARENR == ts.peek()) {
-      nesting_depth -= 1;
-      if (!nesting_depth)
-        break;
-    } else if (Syntax_Tags::TK_BRACKETR == ts.peek()) {
-      nesting_depth -= 1;
-      if (!nesting_depth)
-        break;
-    } else if (nesting_depth == 1) {
+    // Stop at a bracket that closes something opened before the expression
+    if (open.empty() && is_closing_bracket(ts.peek()))
+      break;
+    if (!open.track(ts.peek()))
+      FAIL;
+    if (open.empty()) {
       // Other things you can run into that terminate an expression
       if (Syntax_Tags::TK_COMMA == ts.peek())
         break;
@@ -108,25 +129,18 @@ Stmt_Tree consume_until_break(TT_Stream &ts, int const rule_tag) {
 //! helper function to consume until the matching PARENR
 Stmt_Tree consume_parens(TT_Stream &ts) {
   INIT_FAIL;
-  int nesting_depth = 1;
+  Bracket_Stack open;
   if (Syntax_Tags::TK_PARENL != ts.peek())
     return Stmt_Tree{};
 
   Stmt_Tree root{Syntax_Tags::HOIST};
-  root.graft_back(Stmt_Tree{ts.peek(), ts.digest(1)});
-  while (nesting_depth > 0) {
-    if (Syntax_Tags::TK_PARENL == ts.peek()) {
-      nesting_depth += 1;
-    } else if (Syntax_Tags::TK_PARENR == ts.peek()) {
-      nesting_depth -= 1;
-    } else if (Syntax_Tags::BAD == ts.peek()) {
-      FAIL; // the statement ends before the parens do
-    }
+  do {
+    // Fails if the statement ends before the parens do
+    if (Syntax_Tags::BAD == ts.peek() || !open.track(ts.peek()))
+      FAIL;
     root.graft_back(Stmt_Tree{ts.peek(), ts.digest(1)});
-  }
-  if (!root.empty()) {
-    cover_branches(*root);
-  }
+  } while (!open.empty());
+  cover_branches(*root);
   return root;
 }
 
-- 
2.43.0


From 562cebc92e9141dee1b8eb9069c04aa2189c241c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:27 +0000
Subject: [PATCH 41/77] fix: take the longest procedure designator and
 variable, whatever follows

---
 src/flpr/parse_stmt.cc | 49 ++++++++----------------------------------
 1 file changed, 9 insertions(+), 40 deletions(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 01a45d7..14dc211 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -2958,47 +2958,16 @@ Stmt_Tree procedure_declaration_stmt(TT_Stream &ts) {
 //! R1520: procedure-designator (15.5.1)
 Stmt_Tree procedure_designator(TT_Stream &ts) {
   RULE(SG_PROCEDURE_DESIGNATOR);
-
-  /* This is unfortunately tricky, and this implementation will only really work
-     for call-stmt.  The problem is that it is impossible to distinguish between
-     a paren delimited actual-arg-spec-list at the end of a call-stmt rule, from
-     a section-subset-list in a part-ref.  So, we try chopping off the last
-     paren-delimited term, and see if we can still match.  However, it isn't a
-     full data-ref, but more like: (<part-ref> '%')* <name>, which will math all
+  /* This isn't a full data-ref, but (<part-ref> '%')* <name>, which matches all
      three definitions of procedure-designator, but is unable to distinguish
-     between them. */
-
-  /* We start by creating a TT_Stream::Capture that should cover the
-     procedure-designator by: */
-
-  //     - Capture where we start
-  auto designator = ts.capture_begin();
-
-  //     - Move to the last token
-  ts.consume_until_eol();
-
-  //     - Assuming that the token is ')', move back to preceding matching '('
-  bool move_okay = ts.move_to_open_paren();
-
-  //     - If we found one, curr is on '(', move back one so peek() is '('
-  if (move_okay)
-    ts.put_back();
-
-  //     - Mark this as the end of the (possible) designator sequence
-  ts.capture_end(designator);
-
-  //     - Create a stream that covers that token range
-  TT_Stream designator_ts(ts.capture_to_range(designator));
-
-  //     - Make a parser that can match our designator rule
+     between them.  Parentheses after the last name are never part of it: they
+     hold the actual-arg-spec-list. */
   constexpr auto p =
     seq(rule_tag,
-        opt(h_seq(star(h_seq(rule(part_ref),
-                             TOK(TK_PERCENT))))),
-        name(),
-        eol()  // This is the EOL for the sub-stream
+        star(h_seq(rule(part_ref), TOK(TK_PERCENT))),
+        name()
         );
-  EVAL(SG_PROCEDURE_DESIGNATOR, p(designator_ts));
+  EVAL(SG_PROCEDURE_DESIGNATOR, p(ts));
 }
 
 //! R1506: procedure-stmt (15.4.3.2)
@@ -3741,9 +3710,9 @@ Stmt_Tree variable(TT_Stream &ts) {
   RULE(SG_VARIABLE);
   constexpr auto p =
     alts(rule_tag,
-         // func-ref needs to be first to accept "name()"
-         rule(function_reference),
-         rule(designator)
+         // a "(" left over means that this isn't a designator: "name()"
+         h_seq(rule(designator), neg(peek(TAG(TK_PARENL)))),
+         rule(function_reference)
          );
   EVAL(SG_VARIABLE, p(ts));
 }
-- 
2.43.0


From b88740269b37c81f2a5ae1337ca0fa989b59507a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:43 +0000
Subject: [PATCH 42/77] fix: accept DATA sets without commas, and complex and
 BOZ constants in them

---
 src/flpr/parse_stmt.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 14dc211..8847c0b 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -1053,8 +1053,9 @@ Stmt_Tree data_stmt(TT_Stream &ts) {
   constexpr auto p =
     seq(rule_tag,
         TOK(KW_DATA),
-        list(TAG(SG_DATA_STMT_SET_LIST),
-             rule(data_stmt_set)),
+        seq(TAG(SG_DATA_STMT_SET_LIST),
+            rule(data_stmt_set),
+            star(h_seq(opt(TOK(TK_COMMA)), rule(data_stmt_set)))),
         eol()
         );
   EVAL(SG_DATA_STMT, p(ts));
@@ -1069,6 +1070,8 @@ Stmt_Tree data_stmt_constant(TT_Stream &ts) {
          rule(signed_real_literal_constant),
          h_seq(opt(rule(sign)), TOK(SG_INT_LITERAL_CONSTANT)),
          rule(logical_literal_constant),
+         h_parens(rule(expr), TOK(TK_COMMA), rule(expr)),  // complex
+         h_seq(letter(), TOK(SG_CHAR_LITERAL_CONSTANT)),   // BOZ
          tag_if(TAG(SG_NULL_INIT), rule(function_reference)),
          tag_if(TAG(SG_INITIAL_DATA_TARGET), rule(designator)),
          rule(structure_constructor)
-- 
2.43.0


From aa054cffe4a1f7d371c795e353b225d03fcad103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:57 +0000
Subject: [PATCH 43/77] fix: take the coarray-spec of a component in brackets

---
 src/flpr/parse_stmt.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 8847c0b..a32a8a6 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -872,7 +872,7 @@ Stmt_Tree component_decl(TT_Stream &ts) {
     seq(rule_tag,
         name(), // component-name
         opt(h_parens(rule(component_array_spec))),
-        opt(h_parens(rule(coarray_spec))),
+        opt(h_brackets(rule(coarray_spec))),
         opt(h_seq(TOK(TK_ASTERISK), rule(char_length))),
         opt(rule(component_initialization)));
   EVAL(SG_COMPONENT_DECL, p(ts));
-- 
2.43.0


From f6b6f9f53b87d018711fd2c766f3c7cb3a506443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:12 +0000
Subject: [PATCH 44/77] fix: tag SYNC IMAGES statements as what they are

---
 src/flpr/parse_stmt.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index a32a8a6..e04fce4 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -3341,7 +3341,7 @@ Stmt_Tree sync_all_stmt(TT_Stream &ts) {
 
 //! R1164: sync-images-stmt (11.6.3)
 Stmt_Tree sync_images_stmt(TT_Stream &ts) {
-  RULE(SG_SYNC_ALL_STMT);
+  RULE(SG_SYNC_IMAGES_STMT);
   constexpr auto p =
     seq(rule_tag,
         TOK(KW_SYNC),
-- 
2.43.0


From 758418a6f62a2a40e146cc3a173ca2cd41203e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:28 +0000
Subject: [PATCH 45/77] fix: accept substrings in EQUIVALENCE

---
 src/flpr/parse_stmt.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index e04fce4..226008a 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -1637,8 +1637,8 @@ Stmt_Tree equivalence_object(TT_Stream &ts) {
   RULE(SG_EQUIVALENCE_OBJECT);
   constexpr auto p =
     alts(rule_tag,
-         rule(array_element),
          rule(substring),
+         rule(array_element),
          tag_if(TAG(SG_VARIABLE_NAME), name()));
   EVAL(SG_EQUIVALENCE_OBJECT, p(ts));
 }
-- 
2.43.0


From 2399ac1e71091a552bbf642862a38e7892a8fba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:44 +0000
Subject: [PATCH 46/77] fix: accept a type as the interface of a procedure
 declaration

---
 src/flpr/parse_stmt.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 226008a..070ac08 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -2895,8 +2895,8 @@ Stmt_Tree proc_interface(TT_Stream &ts) {
   RULE(SG_PROC_INTERFACE);
   constexpr auto p =
     alts(rule_tag,
-         name(), // interface-name
-         rule(declaration_type_spec));
+         rule(declaration_type_spec),
+         name()); // interface-name
   EVAL(SG_PROC_INTERFACE, p(ts));
 }
 
-- 
2.43.0


From 3e42fbe1fe02175e91d576700c48037e6418a703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:00 +0000
Subject: [PATCH 47/77] fix: keep .EQV. and == apart

---
 src/flpr/parse_stmt.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 070ac08..e0a8898 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -1627,8 +1627,8 @@ Stmt_Tree equiv_op(TT_Stream &ts) {
   RULE(SG_EQUIV_OP);
   constexpr auto p =
     alts(rule_tag,
-         TOK(TK_REL_EQ),   // the lexer merges ".EQ." and "=="
-         TOK(TK_REL_NE));
+         TOK(TK_EQV_OP),
+         TOK(TK_NEQV_OP));
   EVAL(SG_EQUIV_OP, p(ts));
 }
 
@@ -3053,6 +3053,8 @@ Stmt_Tree rel_op(TT_Stream &ts) {
   RULE(SG_REL_OP);
   constexpr auto p =
     alts(rule_tag,
+         TOK(TK_REL_EQ),  // the lexer merges .EQ. and ==
+         TOK(TK_REL_NE),
          TOK(TK_REL_LT),  // the lexer merges .LT. and <
          TOK(TK_REL_LE),  // similar for the rest of these
          TOK(TK_REL_GT),
-- 
2.43.0


From e47de6ca9af558189e232a73af856772d45c58c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:17 +0000
Subject: [PATCH 48/77] fix: accept a construct name on RANK statements

---
 src/flpr/parse_stmt.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index e0a8898..6bdca77 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -3170,6 +3170,7 @@ Stmt_Tree select_rank_case_stmt(TT_Stream &ts) {
         h_alts(TOK(KW_DEFAULT),
                h_parens(TOK(TK_ASTERISK)),
                h_parens(rule(int_constant_expr))),
+        opt(name()),
         eol());
   EVAL(SG_SELECT_RANK_CASE_STMT, p(ts));
 }
-- 
2.43.0


From c138711cd4a3096fd95ff10b847c32134aad624c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:34 +0000
Subject: [PATCH 49/77] fix: accept READ (expr), list

---
 src/flpr/parse_stmt.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 6bdca77..39bf6fe 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -3025,12 +3025,13 @@ Stmt_Tree read_stmt(TT_Stream &ts) {
             h_seq(tag_if(TAG(SG_IO_CONTROL_SPEC_LIST),
                          rule(consume_parens)),
                   opt(list(TAG(SG_INPUT_ITEM_LIST),
-                           rule(input_item)))),
+                           rule(input_item))),
+                  eol()),
             h_seq(rule(format),
                   opt(h_seq(TOK(TK_COMMA),
                             list(TAG(SG_INPUT_ITEM_LIST),
-                                 rule(input_item)))))),
-        eol());
+                                 rule(input_item)))),
+                  eol())));
   EVAL(SG_READ_STMT, p(ts));
 }
 
-- 
2.43.0


From 97b86f12948849d310d9fb89bf136df3f6ccf700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:50 +0000
Subject: [PATCH 50/77] fix: accept alternate returns in CALL

---
 src/flpr/parse_stmt.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 39bf6fe..2a2a581 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -263,9 +263,10 @@ Stmt_Tree actual_arg(TT_Stream &ts) {
   RULE(SG_ACTUAL_ARG);
   /* procedure-name and proc-component-ref reduce to data-ref in variable */
   constexpr auto p =
-    seq(rule_tag,
-        rule(expr)
-        );
+    alts(rule_tag,
+         rule(expr),
+         h_seq(TOK(TK_ASTERISK), rule(label)) // alt-return-spec
+         );
   EVAL(SG_ACTUAL_ARG, p(ts));
 }
 
-- 
2.43.0


From 6f781b135d450fbe45ed4df6d9728ad00ae88eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:07 +0000
Subject: [PATCH 51/77] fix: require the name of a submodule

---
 src/flpr/parse_stmt.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 2a2a581..c548628 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -3277,6 +3277,7 @@ Stmt_Tree submodule_stmt(TT_Stream &ts) {
     seq(rule_tag, TOK(KW_SUBMODULE), TOK(TK_PARENL),
         name(), opt(h_seq(TOK(TK_COLON), name())),
         TOK(TK_PARENR),
+        name(),
         eol());
   EVAL(SG_SUBMODULE_STMT, p(ts));
 }
-- 
2.43.0


From a93ca84414656fb168252aee3f2be2931214797d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:25 +0000
Subject: [PATCH 52/77] fix: don't take an empty statement for IMPORT or
 ABSTRACT INTERFACE

---
 src/flpr/parse_stmt.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index c548628..f897f11 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -2104,7 +2104,7 @@ Stmt_Tree import_stmt(TT_Stream &ts) {
          h_seq(TOK(KW_IMPORT), TOK(TK_COMMA), TOK(KW_ONLY), TOK(TK_COLON),
                list(TAG(SG_IMPORT_NAME_LIST), name()), eol()),
          h_seq(TOK(KW_IMPORT), TOK(TK_COMMA),
-               h_alts(TOK(KW_NONE), TOK(KW_ALL))), eol());
+               h_alts(TOK(KW_NONE), TOK(KW_ALL)), eol()));
   EVAL(SG_IMPORT_STMT, p(ts));
 }
 
@@ -2194,7 +2194,7 @@ Stmt_Tree interface_stmt(TT_Stream &ts) {
   constexpr auto p =
     alts(rule_tag,
          h_seq(TOK(KW_INTERFACE), opt(rule(generic_spec)), eol()),
-         h_seq(TOK(KW_ABSTRACT), TOK(KW_INTERFACE)), eol());
+         h_seq(TOK(KW_ABSTRACT), TOK(KW_INTERFACE), eol()));
   EVAL(SG_INTERFACE_STMT, p(ts));
 }
 
-- 
2.43.0


From e4d8dbe7164303893528e76feb1b0d0991ceabe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:40 +0000
Subject: [PATCH 53/77] fix: dispatch every statement kind the program parser
 assigns

---
 src/flpr/parse_stmt.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index f897f11..02d4da3 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -3918,6 +3918,9 @@ Stmt_Tree parse_stmt_dispatch(int stmt_tag, TT_Stream &ts) {
   case TAG(SG_END_BLOCK_STMT):
     return end_block_stmt(ts);
     break;
+  case TAG(SG_END_DO):
+    return end_do(ts);
+    break;
   case TAG(SG_END_DO_STMT):
     return end_do_stmt(ts);
     break;
@@ -4107,6 +4110,9 @@ Stmt_Tree parse_stmt_dispatch(int stmt_tag, TT_Stream &ts) {
   case TAG(SG_PRIVATE_COMPONENTS_STMT):
     return private_components_stmt(ts);
     break;
+  case TAG(SG_PRIVATE_OR_SEQUENCE):
+    return private_or_sequence(ts);
+    break;
   case TAG(SG_PROC_COMPONENT_DEF_STMT):
     return proc_component_def_stmt(ts);
     break;
@@ -4176,6 +4182,9 @@ Stmt_Tree parse_stmt_dispatch(int stmt_tag, TT_Stream &ts) {
   case TAG(SG_TYPE_BOUND_GENERIC_STMT):
     return type_bound_generic_stmt(ts);
     break;
+  case TAG(SG_TYPE_BOUND_PROC_BINDING):
+    return type_bound_proc_binding(ts);
+    break;
   case TAG(SG_TYPE_BOUND_PROCEDURE_STMT):
     return type_bound_procedure_stmt(ts);
     break;
-- 
2.43.0


From 26ac8159cb10085d5c78f83b69fba66d98b19933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:49 +0000
Subject: [PATCH 54/77] fix: refresh the statements that stay on a split line

---
 src/flpr/Logical_File.cc | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 3b4215e..87c4c1e 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -344,20 +344,24 @@ bool Logical_File::split_compound_before(LL_STMT_SEQ::iterator pos) {
   assert(!ll_seq_new->stmts().empty());
   assert(ll_seq_orig->stmts().size() + ll_seq_new->stmts().size() == num_stmts);
 
-  /* update statements inplace for the new Logical_Line */
-  LL_Stmt_Src ss{ll_seq_new, false};
+  /* update statements inplace for both Logical_Lines: the ranges, compound
+     sequence numbers and trees of the original are out of date, too */
   size_t num_changed{0};
-  LL_STMT_SEQ::iterator update_stmt = pos;
-  while (ss.advance()) {
-    assert(update_stmt->it() == ll_seq_orig);
-    int hold = update_stmt->stmt_tag(false);
-    update_stmt->update_range(ss.move());
-    assert(hold == update_stmt->stmt_tag(false));
-    num_changed += 1;
-    assert(update_stmt->it() == ll_seq_new);
-    std::advance(update_stmt, 1);
+  LL_STMT_SEQ::iterator update_stmt =
+      std::prev(pos, prev_stmt->is_compound());
+  for (auto const &ll_seq : {ll_seq_orig, ll_seq_new}) {
+    LL_Stmt_Src ss{ll_seq, false};
+    while (ss.advance()) {
+      assert(update_stmt->it() == ll_seq_orig);
+      int const hold = update_stmt->stmt_tag(false);
+      update_stmt->update_range(ss.move());
+      assert(hold == update_stmt->stmt_tag(false));
+      num_changed += 1;
+      assert(update_stmt->it() == ll_seq);
+      std::advance(update_stmt, 1);
+    }
   }
-  assert(num_changed == ll_seq_new->stmts().size());
+  assert(num_changed == num_stmts);
   return true;
 }
 
-- 
2.43.0


From c9328cd6840d34b690f9b46cdfebae119fcfb8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:49 +0000
Subject: [PATCH 55/77] fix: edit the right tokens of a statement that follows
 an empty one

---
 src/flpr/Logical_File.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 87c4c1e..bbad49d 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -455,8 +455,8 @@ void Logical_File::replace_stmt_substr(LL_STMT_SEQ::iterator stmt,
   isolate_stmt(stmt);
 
   /* find the updated TT_Range using the offsets */
-  auto new_beg_it = std::next(stmt->ll().fragments().begin(), beg_off);
-  auto new_end_it = std::next(stmt->ll().fragments().begin(), end_off);
+  auto new_beg_it = std::next(stmt->begin(), beg_off);
+  auto new_end_it = std::next(stmt->begin(), end_off);
 
   stmt->ll().replace_stmt_substr(TT_Range{new_beg_it, new_end_it}, new_text);
   assert(stmt->ll().has_stmts());
@@ -471,7 +471,7 @@ void Logical_File::insert_text_after(LL_STMT_SEQ::iterator stmt,
                                      std::string const &new_text) {
   auto const frag_off = std::distance(stmt->begin(), frag);
   isolate_stmt(stmt);
-  auto new_frag_it = std::next(stmt->ll().fragments().begin(), frag_off);
+  auto new_frag_it = std::next(stmt->begin(), frag_off);
   stmt->ll().insert_text_after(new_frag_it, new_text);
   stmt->assign_range(stmt->ll().stmts()[0]);
   stmt->drop_stmt_tree();
-- 
2.43.0


From ac9afec7851098d724a19c8445ac95cd217dd2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:49 +0000
Subject: [PATCH 56/77] fix: drop the tree of replaced statement text

---
 src/flpr/Logical_File.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index bbad49d..36aa37a 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -437,6 +437,7 @@ void Logical_File::replace_stmt_text(LL_STMT_SEQ::iterator stmt,
   assert(stmt->ll().has_stmts());
   assert(stmt->ll().stmts().size() == 1);
   stmt->assign_range(stmt->ll().stmts()[0]);
+  stmt->drop_stmt_tree();
   stmt->set_stmt_syntag(new_syntag);
   stmt->unhook();
 }
-- 
2.43.0


From 03a915544b0abbc243aaa4cbd66cc2f8bd96cfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:15 +0000
Subject: [PATCH 57/77] fix: convert tokens continued around comment lines to
 free form

---
 src/flpr/Logical_File.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 36aa37a..8300225 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -536,7 +536,9 @@ bool Logical_File::convert_fixed_to_free() {
       for (auto const &tt : ll.fragments()) {
         if (tt.is_split_token_()) {
           for (int fli = tt.mt_begin_line_ + 1; fli <= tt.mt_end_line_; ++fli) {
-            needs_front_continuation.push_back(static_cast<size_t>(fli));
+            /* There may be comments in between */
+            if (layout[fli].is_fortran())
+              needs_front_continuation.push_back(static_cast<size_t>(fli));
           }
         }
       }
-- 
2.43.0


From eccec3e121dae09202bbc59dbe6f39248c5bd3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:15 +0000
Subject: [PATCH 58/77] fix: keep labels apart from statements, and drop
 initial line marks, in free form

---
 src/flpr/Logical_File.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 8300225..d2ffc8a 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -563,9 +563,10 @@ bool Logical_File::convert_fixed_to_free() {
 
           /* Adjust left_txt and left_spaces */
           if (curr_fortran_line == 0) {
-            if (fl.left_txt.empty()) {
-              fl.left_space.insert(0, 6, ' ');
-            }
+            /* Labels keep their distance, a '0' in column 6 means nothing */
+            if (!fl.has_label())
+              fl.left_txt.clear();
+            fl.left_space.insert(0, 6 - fl.left_txt.size(), ' ');
           } else {
             /* Need to adjust the control column 6 continuation mark */
             assert(fl.left_txt.size() == 6);
-- 
2.43.0


From f8ca90e84c99f95c59d43b6aecc6ee4ed27c5300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:31 +0000
Subject: [PATCH 59/77] fix: keep what follows the text of a fixed-form line a
 comment in free form

---
 src/flpr/Logical_File.cc | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index d2ffc8a..c4affb2 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -30,6 +30,20 @@ namespace {
 bool is_continued_pp(FLPR::File_Line const &fl) {
   return fl.is_preprocessor() && FLPR::last_non_blank_char(fl.left_txt) == '\\';
 }
+
+//! Make sure that text following a fixed-format line can only be a comment
+/*! Text beyond the last column may begin with the trailing continuation mark of
+    the "intersection" format, and whatever follows that is a comment. */
+void drop_intersection_mark(std::string &right_txt) {
+  auto const mark = right_txt.find_first_not_of(" \t\r");
+  if (mark == std::string::npos || right_txt[mark] != '&')
+    return;
+  auto const text = right_txt.find_first_not_of(" \t\r&", mark);
+  if (text == std::string::npos)
+    right_txt.clear();
+  else
+    right_txt.replace(0, text, right_txt[text] == '!' ? "" : "! ");
+}
 } // namespace
 
 namespace FLPR {
@@ -543,11 +557,18 @@ bool Logical_File::convert_fixed_to_free() {
         }
       }
 
+      std::vector<std::pair<size_t, std::string>> displaced_comments;
       size_t curr_fortran_line{0};
       for (size_t curr_idx = 0; curr_idx < N_FL; ++curr_idx) {
         if (layout[curr_idx].is_fortran()) {
           File_Line &fl = layout[curr_idx];
+          drop_intersection_mark(fl.right_txt);
           if (curr_fortran_line + 1 < total_fortran_lines) {
+            if (fl.open_delim != '\0' && !fl.right_txt.empty()) {
+              /* A continued character context can't be followed by a comment */
+              displaced_comments.emplace_back(curr_idx, fl.right_txt);
+              fl.right_txt.clear();
+            }
             /* Need to add a trailing continuation mark */
             if (fl.right_txt.empty()) {
               fl.right_txt = "&";
@@ -598,6 +619,19 @@ bool Logical_File::convert_fixed_to_free() {
             fl.left_txt[0] = '!';
         }
       }
+
+      /* Put the displaced comments on lines of their own, last one first */
+      while (!displaced_comments.empty()) {
+        auto const &[idx, text] = displaced_comments.back();
+        File_Line comment =
+            File_Line::analyze_free(text, layout[idx].linenum);
+        layout.insert(layout.begin() + idx + 1, std::move(comment));
+        for (auto &tt : ll.fragments()) {
+          tt.mt_begin_line_ += tt.mt_begin_line_ > static_cast<int>(idx);
+          tt.mt_end_line_ += tt.mt_end_line_ > static_cast<int>(idx);
+        }
+        displaced_comments.pop_back();
+      }
     } else {
       /* This is a non-Fortran Logical_Line, so we just have to adjust comments,
          and not worry about continuations. */
-- 
2.43.0


From f696c408b42189cbe256535e831ee35764a4cc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:31 +0000
Subject: [PATCH 60/77] fix: don't keep the control columns of a blank line in
 free form

---
 src/flpr/Logical_File.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index c4affb2..459fdd6 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -617,6 +617,9 @@ bool Logical_File::convert_fixed_to_free() {
           assert(!fl.left_txt.empty());
           if (fl.left_txt[0] != ' ')
             fl.left_txt[0] = '!';
+        } else if (layout[curr_idx].is_blank()) {
+          /* Nothing follows the label or mark in the control columns */
+          layout[curr_idx].left_txt.clear();
         }
       }
 
@@ -641,6 +644,9 @@ bool Logical_File::convert_fixed_to_free() {
           assert(!fl.left_txt.empty());
           if (fl.left_txt[0] != ' ')
             fl.left_txt[0] = '!';
+        } else if (layout[curr_idx].is_blank()) {
+          /* Nothing follows the label or mark in the control columns */
+          layout[curr_idx].left_txt.clear();
         }
       }
     }
-- 
2.43.0


From 6132bc88c824b7a4ddc7bab22878811be551b075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:48 +0000
Subject: [PATCH 61/77] fix: don't cut a comment marked in the first column
 when indenting

---
 src/flpr/File_Line.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 2a68fb4..a86063b 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -463,7 +463,9 @@ size_t File_Line::size() const noexcept {
 
 bool File_Line::set_leading_spaces(int const spaces) {
   if (is_comment()) {
-    std::string::size_type pos = left_txt.find('!');
+    std::string::size_type pos = left_txt.find_first_not_of(" \t");
+    if (pos != std::string::npos && left_txt[pos] != '!')
+      return false; // fixed-format comment marked in the first column
     if (pos != std::string::npos) {
       left_space.clear();
       main_txt.clear();
-- 
2.43.0


From c907afb825326a4bd09a19d1103fb95954f17732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:48 +0000
Subject: [PATCH 62/77] fix: don't turn a fixed-format comment into a
 continuation line when indenting

---
 src/flpr/File_Line.cc | 4 +++-
 src/flpr/File_Line.hh | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index a86063b..c86d8bb 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -461,11 +461,13 @@ size_t File_Line::size() const noexcept {
          right_space.size() + right_txt.size();
 }
 
-bool File_Line::set_leading_spaces(int const spaces) {
+bool File_Line::set_leading_spaces(int spaces) {
   if (is_comment()) {
     std::string::size_type pos = left_txt.find_first_not_of(" \t");
     if (pos != std::string::npos && left_txt[pos] != '!')
       return false; // fixed-format comment marked in the first column
+    if (is_fixed_format() && spaces == 5)
+      spaces = 6; // a '!' in column six would be a continuation mark
     if (pos != std::string::npos) {
       left_space.clear();
       main_txt.clear();
diff --git a/src/flpr/File_Line.hh b/src/flpr/File_Line.hh
index 7e3021a..3490191 100644
--- a/src/flpr/File_Line.hh
+++ b/src/flpr/File_Line.hh
@@ -185,7 +185,7 @@ public:
   //! Set the number of spaces aligning the main_txt or comment
   /*! Note that this will make no changes if not is_fortran() or is_comment().
       This function returns true if the spacing was altered, false otherwise. */
-  bool set_leading_spaces(int const spaces);
+  bool set_leading_spaces(int spaces);
   int get_leading_spaces() const noexcept;
 
   //! Set a new label (new_label == 0 clears it)
-- 
2.43.0


From 201e288c87dfaba3a9ace69d2fa3e3fba564609b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:48 +0000
Subject: [PATCH 63/77] fix: indent labelled fixed-format statements like
 others

---
 src/flpr/File_Line.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index c86d8bb..423c8be 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -518,7 +518,8 @@ bool File_Line::set_leading_spaces(int spaces) {
   } else if (is_fortran()) {
     int orig_spaces{-1};
     int offset{0};
-    if (left_txt.empty()) {
+    if (left_txt.empty() || (is_fixed_format() && !is_continuation())) {
+      /* Control columns of fixed-format lines don't count as indent */
       if (static_cast<int>(left_space.size()) == spaces)
         return false; // no change needed
       orig_spaces = left_space.size();
-- 
2.43.0


From 1592a1adba54bb47e015ee87aaf29b028a3dd4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:48 +0000
Subject: [PATCH 64/77] fix: keep text beyond the last column there when
 indenting

---
 src/flpr/File_Line.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 423c8be..a038784 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -567,6 +567,8 @@ bool File_Line::set_leading_spaces(int spaces) {
        original position */
     if (!right_txt.empty() && offset) {
       std::string::size_type pos = right_txt.find('!');
+      if (is_fixed_format())
+        pos = 0; // text beyond the last column has to stay there
       if (pos != std::string::npos) {
         if (offset < 0) {
           /* The main_txt moved left, so we can introduce more spaces on the
-- 
2.43.0


From a285126a6ff8a9e1bc673f21a7c9063ca4f14feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:53 +0000
Subject: [PATCH 65/77] fix: let a procedure consist of its end statement only

---
 src/flpr/Range_Partition.hh | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/flpr/Range_Partition.hh b/src/flpr/Range_Partition.hh
index be97d04..3fcf8be 100644
--- a/src/flpr/Range_Partition.hh
+++ b/src/flpr/Range_Partition.hh
@@ -167,7 +167,10 @@ private:
     std::optional<Chg_Trkr> chg_trkr;
 
   public:
-    constexpr bool active() const noexcept { return pred != succ; }
+    /* n.b. the only active partition has the same pred and succ */
+    constexpr bool active(const_index my_idx) const noexcept {
+      return pred != my_idx;
+    }
     constexpr void deactivate(const_index my_idx) noexcept {
       pred = my_idx;
       succ = my_idx;
@@ -185,7 +188,7 @@ private:
     return /* idx >= 0 && */ idx < end_idx_ && parts_[idx].okay();
   }
   constexpr bool active_idx_(const_index idx) const noexcept {
-    return valid_idx_(idx) && parts_[idx].active();
+    return valid_idx_(idx) && parts_[idx].active(idx);
   }
   constexpr index_type first_active_idx_() const noexcept {
     return parts_.back().succ;
@@ -197,11 +200,11 @@ private:
     return parts_.back().pred == end_idx_;
   }
   constexpr index_type next_active_idx_(index_type idx) const noexcept {
-    if (parts_[idx].active())
+    if (parts_[idx].active(idx))
       return parts_[idx].succ;
     do {
       idx += 1;
-    } while (valid_idx_(idx) && !parts_[idx].active());
+    } while (valid_idx_(idx) && !parts_[idx].active(idx));
     /* note that this could be end_idx_ */
     return idx;
   }
@@ -221,7 +224,7 @@ private:
   }
 
   constexpr void activate_(const_index idx) noexcept {
-    if (!parts_[idx].active()) {
+    if (!parts_[idx].active(idx)) {
       const_index succ = next_active_idx_(idx);
       const_index pred = parts_[succ].pred;
       parts_[pred].succ = idx;
@@ -232,7 +235,7 @@ private:
     }
   }
   constexpr void deactivate_(const_index idx) noexcept {
-    if (parts_[idx].active()) {
+    if (parts_[idx].active(idx)) {
       const_index succ = parts_[idx].succ;
       const_index pred = parts_[idx].pred;
       parts_[pred].succ = succ;
@@ -255,7 +258,7 @@ bool Range_Partition<Range, Chg_Trkr>::validate() const {
   for (index_type i = 0; i < end_idx_; ++i) {
     assert(valid_idx_(i));
     if ((parts_[i].succ == i) && (parts_[i].pred == i)) {
-      assert(!parts_[i].active());
+      assert(!parts_[i].active(i));
     } else {
       assert(active_idx_(i));
       if (first_idx == my_bad) {
-- 
2.43.0


From b303775727211e99ff8bdde8ec16243a2f8d3d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:15 +0000
Subject: [PATCH 66/77] fix: give empty regions of a const procedure valid
 iterators

---
 src/flpr/Range_Partition.hh | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/flpr/Range_Partition.hh b/src/flpr/Range_Partition.hh
index 3fcf8be..256e14f 100644
--- a/src/flpr/Range_Partition.hh
+++ b/src/flpr/Range_Partition.hh
@@ -69,12 +69,12 @@ public:
     return parts_[idx].begin;
   }
   constexpr const_iterator begin(const_index idx) const noexcept {
-    assert(valid_idx_(idx)); // doesn't have to be active
-    return parts_[idx].begin;
+    return cbegin(idx);
   }
   constexpr const_iterator cbegin(const_index idx) const noexcept {
     assert(valid_idx_(idx)); // doesn't have to be active
-    return parts_[idx].begin;
+    /* an inactive partition is an empty range before the next active one */
+    return parts_[parts_[idx].active(idx) ? idx : next_active_idx_(idx)].begin;
   }
   constexpr iterator end(const_index idx) noexcept {
     assert(valid_idx_(idx)); // doesn't have to be active
@@ -82,12 +82,11 @@ public:
     return succ_(idx).begin;
   }
   constexpr const_iterator end(const_index idx) const noexcept {
-    assert(valid_idx_(idx)); // doesn't have to be active
-    return succ_(idx).begin;
+    return cend(idx);
   }
   constexpr const_iterator cend(const_index idx) const noexcept {
     assert(valid_idx_(idx)); // doesn't have to be active
-    return succ_(idx).begin;
+    return parts_[next_active_idx_(idx)].begin;
   }
 
   constexpr void set_tracker(const_index idx, Chg_Trkr const &trkr) {
-- 
2.43.0


From 4b53821ffb3319d732527ae35825ac899fe97fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:36 +0000
Subject: [PATCH 67/77] fix: put emplaced statements into the region they were
 meant for

---
 src/flpr/Procedure.hh       |  2 +-
 src/flpr/Range_Partition.hh | 21 +++++++++++++--------
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/flpr/Procedure.hh b/src/flpr/Procedure.hh
index e532ca8..3e3c0a6 100644
--- a/src/flpr/Procedure.hh
+++ b/src/flpr/Procedure.hh
@@ -179,7 +179,7 @@ public:
     else
       iter = file_.logical_file().emplace_ll_stmt_after_prefix(
           pos, std::move(ll), new_syntag);
-    ranges_.insert(pos.get_region(), pos, iter);
+    ranges_.insert(pos.get_region(), iter, pos);
     return Region_Iterator(pos.get_region(), iter);
   }
 
diff --git a/src/flpr/Range_Partition.hh b/src/flpr/Range_Partition.hh
index 256e14f..7295aea 100644
--- a/src/flpr/Range_Partition.hh
+++ b/src/flpr/Range_Partition.hh
@@ -134,19 +134,24 @@ public:
     parts_.back().begin = range_end;
   }
 
+  //! Record that [new_begin, insert_pos) was put into partition idx
   void insert(const_index idx, iterator new_begin, iterator insert_pos) {
     assert(active_idx_(idx));
     difference_type const size_change = std::distance(new_begin, insert_pos);
-    iterator old_begin = begin();
-    if (insert_pos == old_begin) {
-      /* inserting before the body changes our begin, and we tell the tracker
-         for the previous partition that their end has changed. */
+    if (insert_pos == parts_[idx].begin) {
+      /* inserting before the body changes our begin, the position of empty
+         partitions in front of it, and we tell the tracker for the previous
+         partition that their end has changed. */
       parts_[idx].begin = new_begin;
-      if (has_tracker(idx))
-        parts_[idx].chg_trkr->update_begin(old_begin, new_begin, size_change);
-      if (valid_idx_(idx - 1) && has_tracker(idx - 1)) {
-        parts_[idx - 1].chg_trkr->update_end(old_begin, new_begin);
+      index_type prev = parts_[idx].pred;
+      while (prev != end_idx_ && parts_[prev].begin == insert_pos) {
+        parts_[prev].begin = new_begin;
+        prev = parts_[prev].pred;
       }
+      if (has_tracker(idx))
+        parts_[idx].chg_trkr->update_begin(insert_pos, new_begin, size_change);
+      if (prev != end_idx_ && has_tracker(prev))
+        parts_[prev].chg_trkr->update_end(insert_pos, new_begin);
     } else {
       /* inserting anywhere in the body only changes the length of tracked
          ranges */
-- 
2.43.0


From 9ac5610446dd57d364d55d95ccad1017af9dde28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:34 +0000
Subject: [PATCH 68/77] fix: name a procedure by its statement, also one added
 by rename()

---
 src/flpr/Procedure.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flpr/Procedure.hh b/src/flpr/Procedure.hh
index 3e3c0a6..8e2bd15 100644
--- a/src/flpr/Procedure.hh
+++ b/src/flpr/Procedure.hh
@@ -342,7 +342,7 @@ template <typename PFile_T> std::string Procedure<PFile_T>::name() const {
   if (headless_main_program())
     return std::string();
 
-  Stmt_Const_Cursor s = range_cursor(PROC_BEGIN)->stmt_tree().ccursor();
+  Stmt_Const_Cursor s = cbegin(PROC_BEGIN)->stmt_tree().ccursor();
   s.down();
   if (Syntax_Tags::SG_PREFIX == s->syntag)
     s.next();
@@ -368,7 +368,7 @@ bool Procedure<PFile_T>::rename(std::string const &new_name) {
   }
 
   /* fix the subprogram statement */
-  Stmt_Cursor s = range_cursor_(PROC_BEGIN)->stmt_tree().cursor();
+  Stmt_Cursor s = begin(PROC_BEGIN)->stmt_tree().cursor();
   s.down();
   if (Syntax_Tags::SG_PREFIX == s->syntag)
     s.next();
-- 
2.43.0


From 2ec45a2473c3c3e5b2539e575602df81fe6fe723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:19 +0000
Subject: [PATCH 69/77] fix: report a change only when a USE was inserted

Reporting one for a procedure that already uses the module makes the
tool rewrite the file and replace the backup of the original.
---
 apps/module_base.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/module_base.cc b/apps/module_base.cc
index 7dfa730..67cd9dd 100644
--- a/apps/module_base.cc
+++ b/apps/module_base.cc
@@ -102,7 +102,7 @@ bool Module_Action::operator()(File &file, Cursor c,
     use_it->set_leading_spaces(std::next(use_it)->get_leading_spaces(), 2);
   }
 
-  return true;
+  return !found;
 }
 
 /*--------------------------------------------------------------------------*/
-- 
2.43.0


From 56984dfe78ed5affc18f6e568aef4f5892868c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:03 +0000
Subject: [PATCH 70/77] fix: remove empty statements from the lines that have
 statements

---
 apps/flpr_format_base.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/flpr_format_base.cc b/apps/flpr_format_base.cc
index bfcd0b5..3f6dff3 100644
--- a/apps/flpr_format_base.cc
+++ b/apps/flpr_format_base.cc
@@ -125,7 +125,7 @@ int flpr_format_file(File &file, Options const &options,
 bool remove_empty_stmts(typename FLPR::LL_SEQ &ll_seq) {
   bool changed = false;
   for (FLPR::Logical_Line &ll : ll_seq) {
-    if (!ll.has_fortran() && ll.has_empty_statements())
+    if (ll.has_fortran() && ll.has_empty_statements())
       changed |= ll.remove_empty_statements();
   }
   return changed;
-- 
2.43.0


From 6e164fcc1deb6e0385433516d5a6952d249d9fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:03 +0000
Subject: [PATCH 71/77] fix: keep labels, comments and token positions when
 splitting compounds

The label and the comments of the line were repeated on every part, and
continued lines were split at stale positions.
---
 apps/flpr_format_base.cc | 55 +++++++++-------------------------------
 1 file changed, 12 insertions(+), 43 deletions(-)

diff --git a/apps/flpr_format_base.cc b/apps/flpr_format_base.cc
index 3f6dff3..75b1c4a 100644
--- a/apps/flpr_format_base.cc
+++ b/apps/flpr_format_base.cc
@@ -131,12 +131,8 @@ bool remove_empty_stmts(typename FLPR::LL_SEQ &ll_seq) {
   return changed;
 }
 
-/* This needs to be updated to take advantage of newer features. As it is, it
-   probably corrupts the Token_Text layout position information.  DON'T USE AS
-   AN EXAMPLE! */
 bool split_compound_stmts(typename FLPR::LL_SEQ &ll_seq) {
   bool changed = false;
-  bool cleanup_split = false;
 
   for (FLPR::LL_SEQ::iterator ll_it = ll_seq.begin(); ll_it != ll_seq.end();
        ++ll_it) {
@@ -144,46 +140,19 @@ bool split_compound_stmts(typename FLPR::LL_SEQ &ll_seq) {
     if (!ll_it->has_fortran())
       continue;
     FLPR::Logical_Line &ll{*ll_it};
-    if (ll.stmts().size() < 2) {
-      if (cleanup_split) {
-        ll.fragments().erase(ll.stmts()[0].end(), ll.fragments().end());
-        ll.text_from_frags();
-        cleanup_split = false;
-      } else if (ll.has_empty_statements()) {
-        changed |= ll.remove_empty_statements();
-      }
-    } else {
-      assert(ll_it->stmts().size() > 1);
-      /* Insert a copy above the current LL. The Logical_Line copy constructor
-         updates the new stmt TT_Ranges to reference the new copy of lines. */
-      auto new_ll_it = ll_seq.insert(ll_it, *ll_it);
-      /* Fix it up to contain only one statement */
-      FLPR::Logical_Line &new_ll{*new_ll_it};
-      /* Remove trailing fragments from new LL (the semicolon and the rest of
-         the compound statments) */
-      new_ll.fragments().erase(new_ll.stmts()[0].end(),
-                               new_ll.fragments().end());
-      /* Remove leading fragments from new LL (this handles the case of there
-         being empty statements before the beginning of this one). */
-      new_ll.fragments().erase(new_ll.fragments().begin(),
-                               new_ll.stmts()[0].begin());
-      /* Fix-up the File_Lines (text) in the new LL */
-      new_ll.text_from_frags();
-
-      /* Fix-up the stmts list */
-      new_ll.init_stmts();
-
-      /* Remove leading fragments from old LL */
-      ll.fragments().erase(ll.fragments().begin(), ll.stmts()[1].begin());
-      cleanup_split = true; /* this will reformat the old LL once it gets down
-                               to one statement */
-
-      /* Fix-up the stmts list */
-      ll.init_stmts();
+    if (ll.has_empty_statements())
+      changed |= ll.remove_empty_statements();
+    if (ll.stmts().size() < 2)
+      continue;
 
-      ll_it = new_ll_it; // revisit the source line
-      changed = true;
-    }
+    /* Move everything but the first statement to a new LL below the current
+       one, which is visited next */
+    auto new_ll_it = ll_seq.insert(std::next(ll_it), FLPR::Logical_Line{});
+    FLPR::TT_Range first_stmt{ll.stmts()[0]};
+    ll.split_after(std::prev(first_stmt.end()), *new_ll_it);
+    ll.init_stmts();
+    new_ll_it->init_stmts();
+    changed = true;
   }
   return changed;
 }
-- 
2.43.0


From e8bd19a35f98e21d219b6e922939173ce4d3f3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:03 +0000
Subject: [PATCH 72/77] fix: initialise the output option

---
 apps/flpr_format_base.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/flpr_format_base.hh b/apps/flpr_format_base.hh
index 881c61c..558ce41 100644
--- a/apps/flpr_format_base.hh
+++ b/apps/flpr_format_base.hh
@@ -30,8 +30,8 @@ struct Options {
   };
 
   Options() noexcept
-      : write_inplace_{false}, verbose_{false}, do_timing_{false}, quiet_{
-                                                                       false} {
+      : write_inplace_{false}, verbose_{false}, do_timing_{false},
+        quiet_{false}, do_output_{false} {
     disable_all_filters();
   }
   void disable_all_filters() noexcept { filters_.fill(false); }
-- 
2.43.0


From a0260876d9c0fdfc3e7ba1c46b255866d95269bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:03 +0000
Subject: [PATCH 73/77] fix: don't separate or join the parts of a continued
 token when splitting

---
 src/flpr/Logical_Line.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 22bd8cb..626fbfa 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -637,11 +637,16 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
       export_beg->right_txt = '&';
       size_t const new_rs =
           export_beg->right_txt.size() + lr_beg->mt_begin_col_ - 1;
-      if (export_beg->right_space.size() != new_rs) {
+      /* without a space, the last token may go on in the next line */
+      if (!export_beg->right_space.empty()) {
         export_beg->right_space.assign(new_rs, ' ');
       }
     } else {
-      export_beg->right_space.clear();
+      /* in fixed-format, a space separates this text from a continuation */
+      if (!export_beg->is_fixed_format() || export_beg->right_space.empty())
+        export_beg->right_space.clear();
+      else
+        export_beg->right_space.assign(1, ' ');
       export_beg->right_txt.clear();
     }
 
-- 
2.43.0


From 328da1a577f2b50f39e8dc1ff0f8f16c8ee4ad64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:03 +0000
Subject: [PATCH 74/77] fix: don't count leading comments as the first line of
 a statement

The first Fortran line of a logical line that begins with comments or
blank lines was indented like a continuation.
---
 src/flpr/Logical_Line.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 626fbfa..4b3b968 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -806,11 +806,16 @@ bool Logical_Line::set_leading_spaces(int const spaces, int continued_offset) {
     continued_offset = 0;
   bool changed = false;
 
-  // Re-indent the first File_Line
-  changed |= layout_[0].set_leading_spaces(spaces);
-  // Re-indent any continuation File_Lines
+  // Re-indent the first File_Line, and any trivial ones that precede it
   size_t const N = layout_.size();
-  for (size_t i = 1; i < N; ++i) {
+  size_t i{0};
+  bool first_done{false};
+  while (i < N && !first_done) {
+    first_done = !has_fortran() || layout_[i].is_fortran();
+    changed |= layout_[i++].set_leading_spaces(spaces);
+  }
+  // Re-indent any continuation File_Lines
+  for (; i < N; ++i) {
     changed |= layout_[i].set_leading_spaces(spaces + continued_offset);
   }
   return changed;
-- 
2.43.0


From e6db9e10d2a3df37055334d6306a94d2d7d22ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:49 +0000
Subject: [PATCH 75/77] fix: rebuild the trees of extended action statements

---
 src/flpr/LL_Stmt.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/flpr/LL_Stmt.cc b/src/flpr/LL_Stmt.cc
index 48a6b0d..d1b5390 100644
--- a/src/flpr/LL_Stmt.cc
+++ b/src/flpr/LL_Stmt.cc
@@ -66,7 +66,9 @@ bool LL_Stmt::rebuild_tree_() const {
     return false;
   }
   TT_Stream tts{*const_cast<LL_Stmt *>(this)};
-  if (Stmt::is_action_stmt(stmt_syntag_)) {
+  /* Extensions that aren't an other-specification-stmt extend action-stmt */
+  if (Stmt::is_action_stmt(stmt_syntag_) ||
+      stmt_syntag_ >= Syntax_Tags::CLIENT_EXTENSION) {
     stmt_tree_ = Stmt::parse_stmt_dispatch(Syntax_Tags::SG_ACTION_STMT, tts);
   } else {
     stmt_tree_ = Stmt::parse_stmt_dispatch(stmt_syntag_, tts);
-- 
2.43.0


From 4eedd91e349cb52d8c457e7c2b5f8e90883f2048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:49 +0000
Subject: [PATCH 76/77] fix: module -f without a module name and a file is a
 usage error

---
 apps/module.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/module.cc b/apps/module.cc
index 44971de..4ba1a2d 100644
--- a/apps/module.cc
+++ b/apps/module.cc
@@ -110,7 +110,7 @@ void parse_cmd_line(int argc, char *const argv[], vec_str &only_names,
     }
     call_name = std::string{argv[idx++]};
   } else {
-    if (argc < 3) {
+    if (argc - idx < 2) {
       print_usage(std::cerr);
       exit(1);
     }
-- 
2.43.0


From 1162eab13bbc79bcaa30227797f8126708f3a0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:16 +0000
Subject: [PATCH 77/77] fix: split_after: the first line may hold only a label

---
 src/flpr/Logical_Line.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 4b3b968..db636bf 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -585,9 +585,11 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
   int const split_line = frag->mt_end_line_;
   assert(split_line < static_cast<int>(layout_.size()));
 
-  auto const first_fl =
-      std::find_if(layout_.begin(), layout_.end(),
-                   [](auto const &fl) { return fl.is_fortran(); });
+  /* A line may hold only a label: it has no column where text begins */
+  auto const first_fl = std::find_if(
+      layout_.begin(), layout_.end(), [](auto const &fl) {
+        return fl.is_fortran() && !fl.main_txt.empty();
+      });
   assert(first_fl != layout_.end());
   auto const num_left_sp = first_fl->main_first_col() - 1;
 
-- 
2.43.0

