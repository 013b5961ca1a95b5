From cc5d86364fecb9977a7030510def65728bf2ed5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:18 +0000
Subject: [PATCH 01/58] fix: comment ending at end of file reads past the
 source buffer

---
 source/lib_compiler/lexer.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/source/lib_compiler/lexer.cpp b/source/lib_compiler/lexer.cpp
index df9c690..b9f8c74 100644
--- a/source/lib_compiler/lexer.cpp
+++ b/source/lib_compiler/lexer.cpp
@@ -80,12 +80,8 @@ bool lexer_t::lex(const char *s, int32_t file_no) {
       for (; *s && *s != '\n'; ++s) {
         // empty
       }
-      {
-        assert(s >= new_line_);
-        new_line_ = s + 1;
-        ++line_.line;
-      }
-      push_(TOK_EOL);
+      // step back so the new line or end of file terminator is lexed next
+      --s;
       continue;
     }
 
-- 
2.43.0


From 7dd01ac145bd95298733cda6f78bbcfabd3bb1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:18 +0000
Subject: [PATCH 02/58] fix: end of line tokens carry the line they terminate

---
 source/lib_compiler/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/lib_compiler/lexer.cpp b/source/lib_compiler/lexer.cpp
index b9f8c74..f67fd4e 100644
--- a/source/lib_compiler/lexer.cpp
+++ b/source/lib_compiler/lexer.cpp
@@ -202,8 +202,8 @@ bool lexer_t::lex(const char *s, int32_t file_no) {
     case '\n':
       assert(s >= new_line_);
       new_line_ = s + 1;
-      ++line_.line;
       push_(TOK_EOL);
+      ++line_.line;
       continue;
     case '=':
       if (s[1] == '=') {
-- 
2.43.0


From ff97ac2038856ad9fa7b424c027ac17ff2946bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:18 +0000
Subject: [PATCH 03/58] fix: float literals with many digits overflow the
 integer accumulators

---
 source/lib_compiler/lexer.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/lib_compiler/lexer.cpp b/source/lib_compiler/lexer.cpp
index f67fd4e..3b1d649 100644
--- a/source/lib_compiler/lexer.cpp
+++ b/source/lib_compiler/lexer.cpp
@@ -288,7 +288,9 @@ void lexer_t::push_string_(const char *start, const char *end) {
 
 void lexer_t::push_val_(const char *s, const char *e) {
   int32_t v = 0;
-  int32_t f = 0;
+  // note: float literals can have more digits then an int32_t can hold
+  double d = 0.0;
+  double f = 0.0;
   for (; s != e; ++s) {
     if (*s == '.') {
       assert(f == 0);
@@ -296,7 +298,8 @@ void lexer_t::push_val_(const char *s, const char *e) {
     }
     else {
       assert(is_numeric(*s));
-      v = v * 10 + (*s - '0');
+      v = int32_t(uint32_t(v) * 10u + uint32_t(*s - '0'));
+      d = d * 10.0 + double(*s - '0');
       f *= 10;
     }
   }
@@ -304,7 +307,7 @@ void lexer_t::push_val_(const char *s, const char *e) {
     stream_.push(token_t(v, line_));
   }
   else {
-    const float x = float(v) / float(f);
+    const float x = float(d / f);
     stream_.push(token_t(x, line_));
   }
 }
-- 
2.43.0


From e9f26098e549ba223135d92071af3ab6bea200d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:48 +0000
Subject: [PATCH 04/58] fix: top level syntax errors report the offending
 token, not the one after it

---
 source/lib_compiler/parser.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/source/lib_compiler/parser.cpp b/source/lib_compiler/parser.cpp
index c4c9957..32821fb 100644
--- a/source/lib_compiler/parser.cpp
+++ b/source/lib_compiler/parser.cpp
@@ -53,9 +53,7 @@ bool parser_t::parse(error_t &error) {
       default:
         break;
       }
-      const token_t *tok = stream_.pop();
-      assert(tok);
-      nano_.errors().unexpected_token(*tok);
+      nano_.errors().unexpected_token(*t);
     }
   } catch (const error_t &e) {
     error = e;
-- 
2.43.0


From ddf02f01043377a881544573ca7d317545390b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:48 +0000
Subject: [PATCH 05/58] fix: prefix not binds to the expression on its right

---
 source/lib_compiler/parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/lib_compiler/parser.cpp b/source/lib_compiler/parser.cpp
index 32821fb..70c6cc9 100644
--- a/source/lib_compiler/parser.cpp
+++ b/source/lib_compiler/parser.cpp
@@ -225,8 +225,10 @@ void parser_t::parse_expr_ex_(uint32_t tide) {
 
   // not
   if (const token_t *n = stream_.found(TOK_NOT)) {
+    // a prefix operator applies to whats on its right so must not reduce any
+    // pending operators to its left
+    op_stack_.push_back(n);
     parse_expr_ex_(tide);
-    op_push_(n, tide);
     return;
   }
 
-- 
2.43.0


From b4e8d99947a7df6fe822e6f2aafe2275d3915f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:48 +0000
Subject: [PATCH 06/58] fix: unary minus binds to its own operand only

---
 source/lib_compiler/parser.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/source/lib_compiler/parser.cpp b/source/lib_compiler/parser.cpp
index 70c6cc9..abf77f9 100644
--- a/source/lib_compiler/parser.cpp
+++ b/source/lib_compiler/parser.cpp
@@ -233,14 +233,9 @@ void parser_t::parse_expr_ex_(uint32_t tide) {
   }
 
   // unary minus
-  if (const token_t *n = stream_.found(TOK_SUB)) {
-    parse_expr_ex_(tide);
-    ast_node_t *back = exp_stack_.back();
-    exp_stack_.pop_back();
-    auto *op = nano_.ast().alloc<ast_exp_unary_op_t>(n);
-    op->child = back;
-    exp_stack_.push_back(op);
-    return;
+  std::vector<const token_t*> minus;
+  while (const token_t *n = stream_.found(TOK_SUB)) {
+    minus.push_back(n);
   }
 
   parse_lhs_();
@@ -277,6 +272,13 @@ void parser_t::parse_expr_ex_(uint32_t tide) {
     break;
   }
 
+  // apply any unary minus to this operand only
+  for (; !minus.empty(); minus.pop_back()) {
+    auto *op = ast.alloc<ast_exp_unary_op_t>(minus.back());
+    op->child = exp_stack_.back();
+    exp_stack_.back() = op;
+  }
+
   if (is_operator_()) {
     const token_t *op = stream_.pop();
     op_push_(op, tide);
-- 
2.43.0


From c3181b735cc82b4807f33fec38ae50805dd54062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:48 +0000
Subject: [PATCH 07/58] fix: reject 'not' used as a binary operator

---
 source/lib_compiler/parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/lib_compiler/parser.cpp b/source/lib_compiler/parser.cpp
index abf77f9..169398a 100644
--- a/source/lib_compiler/parser.cpp
+++ b/source/lib_compiler/parser.cpp
@@ -108,7 +108,8 @@ int32_t parser_t::op_type_(token_e type) const {
 
 bool parser_t::is_operator_() const {
   token_stream_t &stream_ = nano_.lexer().stream();
-  return op_type_(stream_.type()) > 0;
+  // note: 'not' is a prefix operator so can not join two operands
+  return stream_.type() != TOK_NOT && op_type_(stream_.type()) > 0;
 }
 
 ast_node_t *parser_t::parse_array_init_(const token_t &t) {
-- 
2.43.0


From a587b66675c9e33986b8fadf9531a8cb7636e9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:48 +0000
Subject: [PATCH 08/58] fix: parser reset also clears the expression stack

---
 source/lib_compiler/parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/lib_compiler/parser.cpp b/source/lib_compiler/parser.cpp
index 169398a..a5665c3 100644
--- a/source/lib_compiler/parser.cpp
+++ b/source/lib_compiler/parser.cpp
@@ -796,6 +796,7 @@ void parser_t::op_pop_all_(uint32_t tide) {
 
 void parser_t::reset() {
   op_stack_.clear();
+  exp_stack_.clear();
 }
 
 parser_t::parser_t(nano_t &c)
-- 
2.43.0


From 42aeb7ac09f73797038847dae57efdf6f655b541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:48 +0000
Subject: [PATCH 09/58] fix: string and import tokens have printable names

---
 source/lib_compiler/token.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/lib_compiler/token.cpp b/source/lib_compiler/token.cpp
index 89c0bab..b74583c 100644
--- a/source/lib_compiler/token.cpp
+++ b/source/lib_compiler/token.cpp
@@ -99,6 +99,8 @@ const char *token_t::token_name(token_e e) {
   case TOK_RBRACKET: return "]";
   case TOK_NONE:     return "none";
   case TOK_DOT:      return ".";
+  case TOK_STRING:   return "string";
+  case TOK_IMPORT:   return "import";
   default:
     assert(!"unhandled token type");
     return "";
-- 
2.43.0


From 6eb0bbdef8a437579ea0ae4245238b57db676401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:41 +0000
Subject: [PATCH 10/58] fix: a loaded path that is a prefix of another path no
 longer hides it

---
 source/lib_common/source.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/lib_common/source.cpp b/source/lib_common/source.cpp
index 9fe9b63..e7619d2 100644
--- a/source/lib_common/source.cpp
+++ b/source/lib_common/source.cpp
@@ -28,7 +28,8 @@ bool path_cmp(const char *x, const char *y) {
     }
     return false;
   }
-  return true;
+  // both paths must end at the same point, a prefix is not a match
+  return *y == '\0';
 }
 
 } // namespace {}
-- 
2.43.0


From aefdcb6e15d90f250877c6ffd06dfd324c1fd816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:41 +0000
Subject: [PATCH 11/58] fix: a source that fails to load is not kept in the
 source list

---
 source/lib_common/source.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/source/lib_common/source.cpp b/source/lib_common/source.cpp
index e7619d2..271fb5c 100644
--- a/source/lib_common/source.cpp
+++ b/source/lib_common/source.cpp
@@ -48,13 +48,21 @@ bool source_manager_t::load(const char *path) {
       return true;
     }
   }
-  sources_.emplace_back(new source_t);
-  return sources_.back()->load_from_file(path);
+  std::unique_ptr<source_t> source(new source_t);
+  if (!source->load_from_file(path)) {
+    return false;
+  }
+  sources_.push_back(std::move(source));
+  return true;
 }
 
 bool source_manager_t::load_from_string(const char *str) {
-  sources_.emplace_back(new source_t);
-  return sources_.back()->load_from_string(str);
+  std::unique_ptr<source_t> source(new source_t);
+  if (!source->load_from_string(str)) {
+    return false;
+  }
+  sources_.push_back(std::move(source));
+  return true;
 }
 
 } // namespace nano
-- 
2.43.0


From b4eafc533499ef3c9f427cbd58097859da31e911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:41 +0000
Subject: [PATCH 12/58] fix: imports from a source without a directory resolve
 relative to it

---
 source/lib_common/source.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/lib_common/source.cpp b/source/lib_common/source.cpp
index 271fb5c..6e508b5 100644
--- a/source/lib_common/source.cpp
+++ b/source/lib_common/source.cpp
@@ -7,8 +7,9 @@ namespace {
 std::string base_path(std::string in) {
   const size_t last1 = in.rfind('/');
   const size_t last2 = in.rfind('\\');
-  const size_t last = std::max(last1 == std::string::npos ? 0 : last1,
-                               last2 == std::string::npos ? 0 : last2);
+  // note: the trailing slash is kept, and a bare filename has no base path
+  const size_t last = std::max(last1 == std::string::npos ? 0 : last1 + 1,
+                               last2 == std::string::npos ? 0 : last2 + 1);
   in.resize(last);
   return in;
 }
@@ -38,7 +39,7 @@ namespace nano {
 
 void source_manager_t::imported_path(const source_t &s, std::string &in_out) {
   std::string base = base_path(s.file_path());
-  in_out = base + "/" + in_out;
+  in_out = base + in_out;
 }
 
 bool source_manager_t::load(const char *path) {
-- 
2.43.0


From b4fcd6a76de92392a1b33303dd5a1fb3df60cbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:41 +0000
Subject: [PATCH 13/58] fix: loading a directory as a file fails instead of
 throwing

---
 source/lib_common/file.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/source/lib_common/file.h b/source/lib_common/file.h
index e51203a..bc6ff54 100644
--- a/source/lib_common/file.h
+++ b/source/lib_common/file.h
@@ -1,4 +1,5 @@
 #include <memory>
+#include <new>
 #include <stdio.h>
 #include <stdlib.h>
 
@@ -23,7 +24,13 @@ struct file_t {
       fclose(fd);
       return false;
     }
-    _data.reset(new uint8_t[_size]);
+    // note: a directory opens fine but reports an absurd size
+    _data.reset(new (std::nothrow) uint8_t[_size]);
+    if (!_data) {
+      fclose(fd);
+      unload();
+      return false;
+    }
 
     const size_t read = fread(_data.get(), 1, _size, fd);
 
@@ -49,5 +56,5 @@ struct file_t {
 
 protected:
   std::unique_ptr<uint8_t[]> _data;
-  size_t _size;
+  size_t _size = 0;
 };
-- 
2.43.0


From e8a8cd312ac6832418222e7d51d9779d609a574b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:25 +0000
Subject: [PATCH 14/58] fix: loading a program accepts long strings and rejects
 bad sizes

---
 source/lib_common/program.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/source/lib_common/program.cpp b/source/lib_common/program.cpp
index 73afec5..53143a5 100644
--- a/source/lib_common/program.cpp
+++ b/source/lib_common/program.cpp
@@ -72,15 +72,24 @@ bool consume(FILE *fd, nano::program_t::linetable_t &s) {
   return true;
 }
 
+// return true if the file holds at least size more bytes
+bool has_bytes(FILE *fd, int32_t size) {
+  const long pos = ftell(fd);
+  if (size < 0 || pos < 0 || fseek(fd, 0, SEEK_END) != 0) {
+    return false;
+  }
+  const long end = ftell(fd);
+  return fseek(fd, pos, SEEK_SET) == 0 && end - pos >= size;
+}
+
 bool consume(FILE *fd, std::string &string) {
   int32_t size = 0;
   if (1 != fread(&size, 4, 1, fd)) {
     return false;
   }
-  assert(size < 256);
-  string.resize(size);
+  TRY(has_bytes(fd, size));
   auto data = std::make_unique<char[]>(size + 1);
-  if (fread(data.get(), 1, size, fd) != size) {
+  if (fread(data.get(), 1, size, fd) != size_t(size)) {
     return false;
   }
   data[size] = '\0';
@@ -184,7 +193,7 @@ bool program_t::serial_load(const char *path) {
   for (int32_t i = 0; i < num_syscalls; ++i) {
     syscalls_.emplace_back();
     syscalls_.back().call_ = nullptr;
-    consume(fd, syscalls_.back().name_);
+    TRY(consume(fd, syscalls_.back().name_));
   }
   // read functions
   int32_t num_functions = 0;
@@ -196,8 +205,9 @@ bool program_t::serial_load(const char *path) {
   // read bytecode
   int32_t code_size = 0;
   TRY(consume(fd, code_size));
+  TRY(has_bytes(fd, code_size));
   code_.resize(code_size);
-  if (fread(code_.data(), 1, code_size, fd) != code_size) {
+  if (fread(code_.data(), 1, code_size, fd) != size_t(code_size)) {
     return false;
   }
   // emit the line table
-- 
2.43.0


From 0e242486754d9a629041bd3d37868508a064bf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:25 +0000
Subject: [PATCH 15/58] fix: a failed program load closes its file

---
 source/lib_common/program.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/lib_common/program.cpp b/source/lib_common/program.cpp
index 53143a5..daad7c5 100644
--- a/source/lib_common/program.cpp
+++ b/source/lib_common/program.cpp
@@ -170,7 +170,8 @@ bool program_t::serial_save(const char *path) {
 
 bool program_t::serial_load(const char *path) {
   // open the output file
-  FILE *fd = fopen(path, "rb");
+  std::unique_ptr<FILE, int (*)(FILE *)> file(fopen(path, "rb"), fclose);
+  FILE *fd = file.get();
   if (!fd) {
     return false;
   }
@@ -220,7 +221,6 @@ bool program_t::serial_load(const char *path) {
     TRY(consume(fd, strings_.back()));
   }
   // done
-  fclose(fd);
   return true;
 }
 
-- 
2.43.0


From 8d3f1b18f919dd64236864e2fd1d9636bacb4743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:25 +0000
Subject: [PATCH 16/58] fix: saving a program reports write failures

---
 source/lib_common/program.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/lib_common/program.cpp b/source/lib_common/program.cpp
index daad7c5..6526446 100644
--- a/source/lib_common/program.cpp
+++ b/source/lib_common/program.cpp
@@ -163,9 +163,9 @@ bool program_t::serial_save(const char *path) {
   for (const auto &s : strings_) {
     emit(fd, s);
   }
-  // done
-  fclose(fd);
-  return true;
+  // done, all data must have reached the file
+  const bool written = !ferror(fd);
+  return fclose(fd) == 0 && written;
 }
 
 bool program_t::serial_load(const char *path) {
-- 
2.43.0


From 00c95afcd59d7b3e46e650da21a422a025b29f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:46 +0000
Subject: [PATCH 17/58] fix: instruction operand metadata covers indirect calls
 and function references

---
 source/lib_common/instructions.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/lib_common/instructions.cpp b/source/lib_common/instructions.cpp
index f413a79..53d37e5 100644
--- a/source/lib_common/instructions.cpp
+++ b/source/lib_common/instructions.cpp
@@ -10,10 +10,13 @@ bool ins_has_operand(const instruction_e ins) {
   case INS_CALL:
   case INS_RET:
   case INS_SCALL:
+  case INS_ICALL:
   case INS_POP:
   case INS_NEW_INT:
   case INS_NEW_STR:
   case INS_NEW_FLT:
+  case INS_NEW_FUNC:
+  case INS_NEW_SCALL:
   case INS_LOCALS:
   case INS_GLOBALS:
   case INS_GETV:
-- 
2.43.0


From 4cafd9d32f6c7435843a8718e9397b4584dca611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:07 +0000
Subject: [PATCH 18/58] fix: global initialisers with non constant unary
 operands compile

---
 source/lib_compiler/sema.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index 32a0d6f..6126bf2 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -21,12 +21,19 @@ struct eval_t: public ast_visitor_t {
     }
 
     decend_(n);
+    // the operand may not have been constant
+    if (!valid_) {
+      return;
+    }
     const int32_t v = value_.back();
     int32_t r = 0;
     value_.pop_back();
     switch (n->op->type_) {
     case TOK_SUB:
-      r = -v;
+      r = int32_t(0u - uint32_t(v));
+      break;
+    case TOK_NOT:
+      r = !v;
       break;
     default:
       assert(!"unknown operator");
@@ -53,8 +60,8 @@ struct eval_t: public ast_visitor_t {
   void visit(ast_exp_ident_t *n) override {
     assert(n->decl);
     ast_decl_var_t *decl = n->decl->cast<ast_decl_var_t>();
-    assert(decl);
-    if (decl->is_const) {
+    // note: the identifier could also name a function
+    if (decl && decl->is_const) {
       if (auto *v = decl->expr->cast<ast_exp_lit_var_t>()) {
         value_.push_back(v->val);
         return;
-- 
2.43.0


From 2bf5dbc8ebe70be7b1ee46cc54c0db482b4f0c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:07 +0000
Subject: [PATCH 19/58] fix: variables declared in a then block are not visible
 in its else block

---
 source/lib_compiler/sema.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index 6126bf2..7f272ef 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -411,8 +411,13 @@ struct sema_decl_annotate_t : public ast_visitor_t {
   }
 
   void visit(ast_stmt_if_t *n) override {
+    dispatch(n->expr);
+    // each branch has its own scope
     scope_.emplace_back();
-    ast_visitor_t::visit(n);
+    dispatch(n->then_block);
+    scope_.pop_back();
+    scope_.emplace_back();
+    dispatch(n->else_block);
     scope_.pop_back();
   }
 
-- 
2.43.0


From 8b8eed98646c7e0aefe91fa1721be647d141881a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:07 +0000
Subject: [PATCH 20/58] fix: member access on a function name is a compile
 error

---
 source/lib_compiler/sema.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index 7f272ef..84459e8 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -375,7 +375,8 @@ struct sema_decl_annotate_t : public ast_visitor_t {
     n->decl = find_decl(n->name->str_);
     if (n->decl) {
       if (!n->decl->cast<ast_decl_var_t>()) {
-        assert(!"TODO: Revise this later please");
+        // functions have no members
+        errs_.unexpected_token(*n->name);
       }
       return;
     }
-- 
2.43.0


From 69b7419c0beeaa2a15b1e0d8ae2136f503581da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:07 +0000
Subject: [PATCH 21/58] fix: every way of assigning to or calling a constant is
 diagnosed

---
 source/lib_compiler/ast.h    |  1 +
 source/lib_compiler/sema.cpp | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/source/lib_compiler/ast.h b/source/lib_compiler/ast.h
index 631728d..124ea9f 100644
--- a/source/lib_compiler/ast.h
+++ b/source/lib_compiler/ast.h
@@ -276,6 +276,7 @@ struct ast_exp_call_t : public ast_node_t {
         args[i] = with;
       }
     }
+    callee = (callee == which) ? with : callee;
   }
 
   const token_t *token;
diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index 84459e8..ca4402d 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -200,6 +200,38 @@ struct sema_const_t: public ast_visitor_t {
     ast_visitor_t::visit(n);
   }
 
+  void visit(ast_stmt_assign_array_t *n) override {
+    assert(n->decl);
+    if (n->decl->is_const) {
+      errs_.cant_assign_const(*n->name);
+    }
+    ast_visitor_t::visit(n);
+  }
+
+  void visit(ast_stmt_assign_member_t *n) override {
+    assert(n->decl);
+    if (n->decl->is_const) {
+      errs_.cant_assign_const(*n->name);
+    }
+    ast_visitor_t::visit(n);
+  }
+
+  void visit(ast_stmt_for_t *n) override {
+    assert(n->decl);
+    if (n->decl->is_const) {
+      errs_.cant_assign_const(*n->name);
+    }
+    ast_visitor_t::visit(n);
+  }
+
+  void visit(ast_exp_member_t *n) override {
+    ast_decl_var_t *decl = n->decl->cast<ast_decl_var_t>();
+    if (decl && decl->is_const) {
+      // constants have no members
+      errs_.unexpected_token(*n->name);
+    }
+  }
+
   void visit(ast_decl_var_t *n) override {
     ast_visitor_t::visit(n);
     if (n->is_const) {
-- 
2.43.0


From 992a08d23fb167ec26d99e1a27ea69752c0fe94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:07 +0000
Subject: [PATCH 22/58] fix: uses of a constant do not share one literal node

---
 source/lib_compiler/sema.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index ca4402d..8cdba50 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -165,6 +165,7 @@ struct sema_const_t: public ast_visitor_t {
 
   sema_const_t(nano_t &nano)
     : errs_(nano.errors())
+    , ast_(nano.ast())
   {
   }
 
@@ -179,12 +180,26 @@ struct sema_const_t: public ast_visitor_t {
     ast_node_t *parent = stack.rbegin()[1];
     if (decl->expr) {
       ast_node_t *e = decl->expr;
+      // note: each use gets its own literal, located where the constant is
+      //       used, as later passes may modify it.
       switch (e->type) {
-      case ast_exp_lit_var_e:
-      case ast_exp_lit_str_e:
-      case ast_exp_lit_float_e:
+      case ast_exp_lit_var_e: {
+        auto *lit = ast_.alloc<ast_exp_lit_var_t>(e->cast<ast_exp_lit_var_t>()->val);
+        lit->token = n->name;
+        parent->replace_child(n, lit);
+      } break;
+      case ast_exp_lit_str_e: {
+        auto *lit = ast_.alloc<ast_exp_lit_str_t>(e->cast<ast_exp_lit_str_t>()->value);
+        lit->token = n->name;
+        parent->replace_child(n, lit);
+      } break;
+      case ast_exp_lit_float_e: {
+        auto *lit = ast_.alloc<ast_exp_lit_float_t>(e->cast<ast_exp_lit_float_t>()->val);
+        lit->token = n->name;
+        parent->replace_child(n, lit);
+      } break;
       case ast_exp_none_e:
-        parent->replace_child(n, e);
+        parent->replace_child(n, ast_.alloc<ast_exp_none_t>(n->name));
         break;
       default:
         errs_.cant_evaluate_constant(*n->name);
@@ -246,6 +261,7 @@ struct sema_const_t: public ast_visitor_t {
   }
 
   error_manager_t &errs_;
+  ast_t &ast_;
 };
 
 // ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ----
-- 
2.43.0


From dde5378426d1c67e2296a812ca936860fa0883a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:07 +0000
Subject: [PATCH 23/58] fix: ast garbage collection keeps array literals and
 member assignments

---
 source/lib_compiler/ast.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/lib_compiler/ast.cpp b/source/lib_compiler/ast.cpp
index ce29b6f..0bbd716 100644
--- a/source/lib_compiler/ast.cpp
+++ b/source/lib_compiler/ast.cpp
@@ -141,6 +141,16 @@ struct gc_visitor_t: public ast_visitor_t {
     ast_visitor_t::visit(n);
   }
 
+  void visit(ast_exp_array_init_t* n) override {
+    nodes_.insert(n);
+    ast_visitor_t::visit(n);
+  }
+
+  void visit(ast_stmt_assign_member_t* n) override {
+    nodes_.insert(n);
+    ast_visitor_t::visit(n);
+  }
+
   void visit(ast_decl_func_t* n) override {
     nodes_.insert(n);
     ast_visitor_t::visit(n);
-- 
2.43.0


From a62e81e53d92afffb8ec012207efa90555912b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:07 +0000
Subject: [PATCH 24/58] fix: a variable declared without an initialiser starts
 out as none

---
 source/lib_compiler/codegen.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/lib_compiler/codegen.cpp b/source/lib_compiler/codegen.cpp
index d0a0230..dd21537 100644
--- a/source/lib_compiler/codegen.cpp
+++ b/source/lib_compiler/codegen.cpp
@@ -469,8 +469,12 @@ struct codegen_pass_t: ast_visitor_t {
     assert(n->is_local());
     if (n->expr) {
       dispatch(n->expr);
-      emit(INS_SETV, n->offset, n->name);
     }
+    else {
+      // the slot may hold a stale value from another block or iteration
+      emit(INS_NEW_NONE, n->name);
+    }
+    emit(INS_SETV, n->offset, n->name);
   }
 
   const std::vector<function_t> &functions() const {
-- 
2.43.0


From 3a8b1bbcb2da20b190dd28bb17b1c7c3b9b29019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:48 +0000
Subject: [PATCH 25/58] fix: garbage collection terminates on cyclic, shared
 and deeply nested arrays

---
 source/lib_vm/vm_gc.cpp | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/source/lib_vm/vm_gc.cpp b/source/lib_vm/vm_gc.cpp
index f40f2e4..4f1d4c2 100644
--- a/source/lib_vm/vm_gc.cpp
+++ b/source/lib_vm/vm_gc.cpp
@@ -120,20 +120,32 @@ void value_gc_t::trace(value_t **list, size_t num) {
   // area data should be moved to
   arena_t &to = space_to();
 
-  for (size_t i = 0; i < num; ++i) {
-    value_t *&v = list[i];
-
-    // a value may be new yet contain referenced to old data therefore we must
-    // visit these nodes regardless
-    switch (v->type()) {
-    case val_type_array:
-      // collect child elements
-      const int32_t size = v->array_size();
-      trace(v->array(), size);
+  // arrays that have been reached but whose elements have not been traced yet
+  std::vector<value_t *> pending;
+
+  for (size_t i = 0; ; ++i) {
+    // when this list is exhausted move onto the next array
+    while (i >= num) {
+      if (pending.empty()) {
+        return;
+      }
+      list = pending.back()->array();
+      num = size_t(pending.back()->array_size());
+      pending.pop_back();
+      i = 0;
     }
 
-    // already collected so skip to avoid cyclic trace loops
+    value_t *&v = list[i];
+
+    // this value is already in the correct space
     if (to.owns(v)) {
+      // an array may be new yet contain references to old data therefore we
+      // must visit its elements, but only once as arrays can be shared and
+      // can be cyclic
+      if (v->is_a<val_type_array>() && !forward_find(v)) {
+        forward_add(v, v);
+        pending.push_back(v);
+      }
       continue;
     }
     assert(v == nullptr || space_from().owns(v));
@@ -177,8 +189,6 @@ void value_gc_t::trace(value_t **list, size_t num) {
         break;
       }
 
-      // may want to swap in the new pointer prior to trace to break cycles
-
       const int32_t size = v->array_size();
       // move into to space
       value_t *n = to.alloc<value_t>(size * sizeof(value_t *));
@@ -187,6 +197,9 @@ void value_gc_t::trace(value_t **list, size_t num) {
       memcpy(n->array(), v->array(), size * sizeof(value_t *));
       // keep track of forwarded global arrays that may have to move
       forward_add(v, n);
+      // the new location has been reached too and has elements to trace
+      forward_add(n, n);
+      pending.push_back(n);
       list[i] = n;
       break;
     }
-- 
2.43.0


From 069012918aa3c4ab780dad40ffba796a833055cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:49 +0000
Subject: [PATCH 26/58] fix: garbage collection does not duplicate shared
 strings

---
 source/lib_vm/vm_gc.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/lib_vm/vm_gc.cpp b/source/lib_vm/vm_gc.cpp
index 4f1d4c2..ddae0e0 100644
--- a/source/lib_vm/vm_gc.cpp
+++ b/source/lib_vm/vm_gc.cpp
@@ -172,12 +172,18 @@ void value_gc_t::trace(value_t **list, size_t num) {
       break;
     }
     case val_type_string: {
+      // strings are shared too so must only be moved once
+      if (value_t *x = forward_find(v)) {
+        list[i] = x;
+        break;
+      }
       assert(int32_t(strlen(v->string())) == v->v);
       const int32_t size = v->v;
       value_t *n = to.alloc<value_t>(size + 1);
       n->type_ = v->type();
       n->v = size;
       memcpy(n->string(), v->string(), size + 1);
+      forward_add(v, n);
       list[i] = n;
       break;
     }
-- 
2.43.0


From ff41e3a9549c96d25a47ecdf2ce3ba73ba1c10f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:49 +0000
Subject: [PATCH 27/58] fix: arrays can be passed as arguments to a new thread

---
 source/lib_vm/vm_gc.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/lib_vm/vm_gc.cpp b/source/lib_vm/vm_gc.cpp
index ddae0e0..bceb35d 100644
--- a/source/lib_vm/vm_gc.cpp
+++ b/source/lib_vm/vm_gc.cpp
@@ -103,6 +103,9 @@ value_t *value_gc_t::copy(const value_t &a) {
     return new_syscall(a.v);
   case val_type_none:
     return nullptr;
+  case val_type_array:
+    // arrays are a reference type so are not duplicated
+    return const_cast<value_t *>(&a);
   default:
     assert(false);
     return nullptr;
-- 
2.43.0


From 054a3a1e2e14b0c6123b549d107a8b5a4d21b846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:49 +0000
Subject: [PATCH 28/58] fix: string concatenation keeps both operands whole and
 rejects arrays

---
 source/lib_vm/thread.cpp | 46 ++++++++++++----------------------------
 1 file changed, 14 insertions(+), 32 deletions(-)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 6208816..7e1d9e9 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -32,25 +32,25 @@ namespace nano {
 
 namespace {
 
-bool to_string(char *buf, size_t size, const value_t *val) {
+// return false if this value can not be joined onto a string
+bool to_string(std::string &out, const value_t *val) {
   switch (val->type()) {
   case val_type_float:
-    snprintf(buf, size, "%f", val->f);
+    out = std::to_string(val->f);
     return true;
   case val_type_int:
-    snprintf(buf, size, "%i", val->integer());
+    out = std::to_string(val->integer());
     return true;
   case val_type_string:
-    snprintf(buf, size, "%s", val->string());
+    out.assign(val->string(), val->strlen());
     return true;
   case val_type_none:
-    snprintf(buf, size, "none");
+    out = "none";
     return true;
   case val_type_func:
-    snprintf(buf, size, "function@%d", val->v);
+    out = "function@" + std::to_string(val->v);
     return true;
   default:
-    assert(false);
     return false;
   }
 }
@@ -108,31 +108,13 @@ void thread_t::do_INS_ADD_() {
     stack_.push_float(l->as_float() + r->as_float());
     return;
   }
-  if (l->is_a<val_type_string>()) {
-    char rbuf[16] = {0};
-    to_string(rbuf, sizeof(rbuf), r);
-    int32_t rsize = int32_t(strlen(rbuf));
-    const int32_t len = l->strlen() + rsize;
-    value_t *s = gc_.new_string(len);
-    char *dst = s->string();
-    memcpy(dst, l->string(), l->strlen());
-    memcpy(dst + l->strlen(), rbuf, rsize);
-    dst[len] = '\0';
-    stack_.push(s);
-    return;
-  }
-  if (r->is_a<val_type_string>()) {
-    char lbuf[16] = {0};
-    to_string(lbuf, sizeof(lbuf), l);
-    int32_t lsize = int32_t(strlen(lbuf));
-    const int32_t len = lsize + r->strlen();
-    value_t *s = gc_.new_string(len);
-    char *dst = s->string();
-    memcpy(dst, lbuf, lsize);
-    memcpy(dst + lsize, r->string(), r->strlen());
-    dst[len] = '\0';
-    stack_.push(s);
-    return;
+  // string concatenation
+  if (l->is_a<val_type_string>() || r->is_a<val_type_string>()) {
+    std::string lstr, rstr;
+    if (to_string(lstr, l) && to_string(rstr, r)) {
+      stack_.push_string(lstr + rstr);
+      return;
+    }
   }
   // try a user handler
   if (vm_.handlers.on_add) {
-- 
2.43.0


From 1d80152437a8a851ced2a8e27458785690c2a894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:49 +0000
Subject: [PATCH 29/58] fix: dividing the smallest integer by minus one does
 not trap

---
 source/lib_compiler/optimize.cpp | 5 +++--
 source/lib_compiler/sema.cpp     | 5 +++--
 source/lib_vm/thread.cpp         | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/source/lib_compiler/optimize.cpp b/source/lib_compiler/optimize.cpp
index 957198a..f6035a5 100644
--- a/source/lib_compiler/optimize.cpp
+++ b/source/lib_compiler/optimize.cpp
@@ -291,8 +291,9 @@ protected:
       case TOK_LT:  v = a <  b; break;
       case TOK_GT:  v = a >  b; break;
       case TOK_EQ:  v = a == b; break;
-      case TOK_DIV: v = a /  b; break;
-      case TOK_MOD: v = a %  b; break;
+      // note: INT_MIN / -1 does not fit in an int32_t so wrap it
+      case TOK_DIV: v = (b == -1) ? int32_t(0u - uint32_t(a)) : a / b; break;
+      case TOK_MOD: v = (b == -1) ? 0 : a % b; break;
       default: assert(!"unknown operator");
       }
       val_[o] = v;
diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index 8cdba50..b4c6e7b 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -144,8 +144,9 @@ protected:
     case TOK_LT:      return a <  b;
     case TOK_GT:      return a >  b;
     case TOK_EQ:      return a == b;
-    case TOK_DIV:     return a /  b;
-    case TOK_MOD:     return a %  b;
+    // note: INT_MIN / -1 does not fit in an int32_t so wrap it
+    case TOK_DIV:     return (b == -1) ? int32_t(0u - uint32_t(a)) : a / b;
+    case TOK_MOD:     return (b == -1) ? 0 : a % b;
     default:
       assert(!"unknown operator");
     }
diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 7e1d9e9..da632ab 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -178,7 +178,8 @@ void thread_t::do_INS_DIV_() {
     if (r->v == 0) {
       set_error_(thread_error_t::e_bad_divide_by_zero);
     } else {
-      const int32_t o = l->v / r->v;
+      // note: INT_MIN / -1 does not fit in an int32_t so wrap it
+      const int32_t o = (r->v == -1) ? int32_t(0u - uint32_t(l->v)) : l->v / r->v;
       stack_.push_int(o);
     }
     return;
@@ -205,7 +206,7 @@ void thread_t::do_INS_MOD_() {
     if (r->v == 0) {
       set_error_(thread_error_t::e_bad_divide_by_zero);
     } else {
-      const int32_t o = l->v % r->v;
+      const int32_t o = (r->v == -1) ? 0 : l->v % r->v;
       stack_.push_int(o);
     }
     return;
-- 
2.43.0


From 9967a5cda2e3550946169f1c26ebc08c0d647963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:49 +0000
Subject: [PATCH 30/58] fix: unary minus works on floats

---
 source/lib_vm/thread.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index da632ab..1d04d85 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -234,7 +234,11 @@ void thread_t::do_INS_NOT_() {
 void thread_t::do_INS_NEG_() {
   const value_t *o = stack_.pop();
   if (o->is_a<val_type_int>()) {
-    stack_.push_int(-o->v);
+    stack_.push_int(int32_t(0u - uint32_t(o->v)));
+    return;
+  }
+  if (o->is_a<val_type_float>()) {
+    stack_.push_float(-o->f);
     return;
   }
   raise_error(thread_error_t::e_bad_type_operation);
-- 
2.43.0


From cab5bd00f3d65461d15126d34860a69edd022100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:49 +0000
Subject: [PATCH 31/58] fix: calling none or an unresolved syscall raises a
 thread error

---
 source/lib_vm/thread.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 1d04d85..47dfd6b 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -402,7 +402,11 @@ void thread_t::do_syscall_(int32_t operand, int32_t num_args) {
   const auto &calls = vm_.program_.syscalls();
   assert(operand >= 0 && operand < int32_t(calls.size()));
   nano_syscall_t sys = calls[operand].call_;
-  assert(sys);
+  if (!sys) {
+    // this syscall was never resolved by the host
+    set_error_(thread_error_t::e_bad_syscall);
+    return;
+  }
   sys(*this, num_args);
 }
 
@@ -415,7 +419,6 @@ void thread_t::do_INS_SCALL_() {
 void thread_t::do_INS_ICALL_() {
   const int32_t num_args = read_operand_();
   value_t *callee = stack_.pop();
-  assert(callee);
   if (callee->is_a<val_type_syscall>()) {
     const int32_t operand = callee->v;
     do_syscall_(operand, num_args);
@@ -428,6 +431,7 @@ void thread_t::do_INS_ICALL_() {
     assert(func);
     if (int32_t(func->num_args()) != num_args) {
       set_error_(thread_error_t::e_bad_num_args);
+      return;
     }
     // new frame
     enter_(stack_.head(), pc_, addr);
-- 
2.43.0


From 57d76ce10e5d07d5ea76cea06a740196a56cc524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:49 +0000
Subject: [PATCH 32/58] fix: resetting a vm drops its globals

---
 source/lib_vm/vm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/lib_vm/vm.cpp b/source/lib_vm/vm.cpp
index cc70142..99d7131 100644
--- a/source/lib_vm/vm.cpp
+++ b/source/lib_vm/vm.cpp
@@ -38,6 +38,8 @@ void vm_t::reset() {
     delete t;
   }
   threads_.clear();
+  // the values held by any globals are gone too
+  g_.clear();
 }
 
 bool vm_t::call_init() {
-- 
2.43.0


From 06bfc98548e229fa2d891f08cc6f111aaa63bcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:49 +0000
Subject: [PATCH 33/58] fix: call_init runs long global initialisers to
 completion

---
 source/lib_vm/vm.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/lib_vm/vm.cpp b/source/lib_vm/vm.cpp
index 99d7131..15707b0 100644
--- a/source/lib_vm/vm.cpp
+++ b/source/lib_vm/vm.cpp
@@ -51,7 +51,13 @@ bool vm_t::call_init() {
   if (!t) {
     return false;
   }
-  return resume(1024 * 8);
+  // run until all globals have been initalized
+  do {
+    if (!resume(1024 * 8)) {
+      return false;
+    }
+  } while (!t->finished());
+  return true;
 }
 
 bool vm_t::call_once(const function_t &func,
-- 
2.43.0


From 839e73d4d0e0f89287716815e36b4384bba79f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:49 +0000
Subject: [PATCH 34/58] fix: call_once reports a wrong number of arguments

---
 source/lib_vm/vm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/lib_vm/vm.cpp b/source/lib_vm/vm.cpp
index 15707b0..f2e40b9 100644
--- a/source/lib_vm/vm.cpp
+++ b/source/lib_vm/vm.cpp
@@ -70,6 +70,10 @@ bool vm_t::call_once(const function_t &func,
   return_code = nullptr;
 
   thread_t *thread = new_thread(func, argc, argv);
+  if (!thread) {
+    error = nano::thread_error_t::e_bad_num_args;
+    return false;
+  }
   gc_collect();
   while (!thread->finished() && !thread->has_error()) {
     if (!thread->resume(128 * 1024)) {
-- 
2.43.0


From 24c35172ae0d6e7c0b0e223e36b04a331929f98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:49 +0000
Subject: [PATCH 35/58] fix: vm_t::has_error reports thread errors

---
 source/lib_vm/vm.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/lib_vm/vm.cpp b/source/lib_vm/vm.cpp
index f2e40b9..3be34c0 100644
--- a/source/lib_vm/vm.cpp
+++ b/source/lib_vm/vm.cpp
@@ -129,6 +129,11 @@ bool vm_t::resume(uint32_t cycles) {
 }
 
 bool vm_t::has_error() const {
+  for (const auto &t : threads_) {
+    if (t->has_error()) {
+      return true;
+    }
+  }
   return false;
 }
 
-- 
2.43.0


From e98e7b752b1f83e484c4049de3697622b255b3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:49 +0000
Subject: [PATCH 36/58] fix: a negative wait does not suspend a thread

---
 source/lib_vm/vm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/lib_vm/vm.cpp b/source/lib_vm/vm.cpp
index 3be34c0..f071ca8 100644
--- a/source/lib_vm/vm.cpp
+++ b/source/lib_vm/vm.cpp
@@ -106,7 +106,7 @@ bool vm_t::resume(uint32_t cycles) {
   for (; itt != threads_.end();) {
     thread_t *t = *itt;
     assert(t);
-    if (t->waits) {
+    if (t->waits > 0) {
       --t->waits;
       ++itt;
       continue;
-- 
2.43.0


From 69686ddf4104f18d9b3b2db8d1db85c0191fd06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:49 +0000
Subject: [PATCH 37/58] fix: stepping by line collects garbage

---
 source/lib_vm/thread.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 47dfd6b..fe032bf 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -832,6 +832,7 @@ bool thread_t::step_line() {
   const line_t line = get_source_line();
   // step until the source line changes
   do {
+    tick_gc_(1);
     step_imp_();
     if (finished_) {
       break;
-- 
2.43.0


From 5a7a35022aebc8856ed1c96bb3790a98fa1a68f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:49 +0000
Subject: [PATCH 38/58] fix: every thread error has a name

---
 source/lib_vm/thread_error.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/lib_vm/thread_error.cpp b/source/lib_vm/thread_error.cpp
index 267c93c..5c578c0 100644
--- a/source/lib_vm/thread_error.cpp
+++ b/source/lib_vm/thread_error.cpp
@@ -8,6 +8,7 @@ const char *get_thread_error(const nano::thread_error_t &err) {
   switch (err) {
   case thread_error_t::e_success:             return "e_success";
   case thread_error_t::e_max_cycle_count:     return "e_max_cycle_count";
+  case thread_error_t::e_bad_prepare:         return "e_bad_prepare";
   case thread_error_t::e_bad_getv:            return "e_bad_getv";
   case thread_error_t::e_bad_setv:            return "e_bad_setv";
   case thread_error_t::e_bad_num_args:        return "e_bad_num_args";
@@ -21,6 +22,7 @@ const char *get_thread_error(const nano::thread_error_t &err) {
   case thread_error_t::e_stack_underflow:     return "e_stack_underflow";
   case thread_error_t::e_bad_globals_size:    return "e_bad_globals_size";
   case thread_error_t::e_bad_array_bounds:    return "e_bad_array_bounds";
+  case thread_error_t::e_bad_array_object:    return "e_bad_array_object";
   case thread_error_t::e_bad_type_operation:  return "e_bad_type_operation";
   case thread_error_t::e_bad_argument:        return "e_bad_argument";
   case thread_error_t::e_bad_array_index:     return "e_bad_array_index";
-- 
2.43.0


From 8a8ce2d73aff2b81945987641ba34fd38bc23260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:49 +0000
Subject: [PATCH 39/58] fix: the source line of a runtime error is that of the
 faulting instruction

---
 source/lib_vm/thread.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index fe032bf..21dbbfa 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -722,6 +722,8 @@ bool thread_t::prepare(const function_t &func, int32_t argc,
 }
 
 void thread_t::step_imp_() {
+  // remember where this instruction starts
+  const int32_t pc = pc_;
   // fetch opcode
   const uint8_t opcode = read_opcode_();
   // dispatch
@@ -769,6 +771,10 @@ void thread_t::step_imp_() {
   default:
     set_error_(thread_error_t::e_bad_opcode);
   }
+  // an errors location is the instruction that raised it
+  if (has_error()) {
+    pc_ = pc;
+  }
   // check for any breakpoints
   if (!breakpoints_.empty()) {
     // check if the source line is in our list
-- 
2.43.0


From dfc5169274dc711dbf2a68917ddf0ae259fac447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:11 +0000
Subject: [PATCH 40/58] fix: instructions without a source line do not end a
 step or rearm a breakpoint

---
 source/lib_vm/thread.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 21dbbfa..5019c61 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -785,7 +785,10 @@ void thread_t::step_imp_() {
       }
     }
     // keep track of the last source line we were on
-    last_line_ = l;
+    // note: some instructions have no line and are part of the last one
+    if (l != line_t{}) {
+      last_line_ = l;
+    }
   }
   // increment cycle count
   ++cycles_;
@@ -845,7 +848,8 @@ bool thread_t::step_line() {
     }
     assert(!f_.empty());
     assert(!has_error());
-  } while (line == get_source_line());
+    // note: some instructions have no line and are part of the last one
+  } while (line == get_source_line() || get_source_line() == line_t{});
   return !has_error();
 }
 
-- 
2.43.0


From 569cad5d4ce4bfb3dfec1103990116375a47693b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:31 +0000
Subject: [PATCH 41/58] fix: indirect syscalls check the number of arguments
 given

---
 source/lib_common/program.cpp         | 2 ++
 source/lib_common/program.h           | 2 ++
 source/lib_compiler/codegen.cpp       | 3 ++-
 source/lib_compiler/pre_codegen.cpp   | 2 +-
 source/lib_compiler/program_builder.h | 4 ++--
 source/lib_vm/thread.cpp              | 8 ++++++++
 6 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/source/lib_common/program.cpp b/source/lib_common/program.cpp
index 6526446..49ba527 100644
--- a/source/lib_common/program.cpp
+++ b/source/lib_common/program.cpp
@@ -147,6 +147,7 @@ bool program_t::serial_save(const char *path) {
   emit(fd, int32_t(syscalls_.size()));
   for (const auto &s : syscalls_) {
     emit(fd, s.name_);
+    emit(fd, s.num_args_);
   }
   // emit functions
   emit(fd, int32_t(functions_.size()));
@@ -195,6 +196,7 @@ bool program_t::serial_load(const char *path) {
     syscalls_.emplace_back();
     syscalls_.back().call_ = nullptr;
     TRY(consume(fd, syscalls_.back().name_));
+    TRY(consume(fd, syscalls_.back().num_args_));
   }
   // read functions
   int32_t num_functions = 0;
diff --git a/source/lib_common/program.h b/source/lib_common/program.h
index 1a2b2e7..49ba8c4 100644
--- a/source/lib_common/program.h
+++ b/source/lib_common/program.h
@@ -23,6 +23,8 @@ struct program_t {
   struct syscall_entry_t {
     std::string name_;
     nano_syscall_t call_;
+    // number of arguments taken, negative for a variable number
+    int32_t num_args_;
   };
 
   // access the raw opcodes
diff --git a/source/lib_compiler/codegen.cpp b/source/lib_compiler/codegen.cpp
index dd21537..2b41440 100644
--- a/source/lib_compiler/codegen.cpp
+++ b/source/lib_compiler/codegen.cpp
@@ -188,7 +188,8 @@ struct codegen_pass_t: ast_visitor_t {
         assert(func->is_varargs || func->args.size() == num_args);
         if (func->is_syscall) {
           // emit a syscall
-          uint32_t index = stream_.add_syscall(func->name);
+          uint32_t index = stream_.add_syscall(
+            func->name, func->is_varargs ? -1 : int32_t(func->args.size()));
           emit(INS_SCALL, int32_t(num_args), index, ident->name);
         }
         else {
diff --git a/source/lib_compiler/pre_codegen.cpp b/source/lib_compiler/pre_codegen.cpp
index 4e94724..b958d95 100644
--- a/source/lib_compiler/pre_codegen.cpp
+++ b/source/lib_compiler/pre_codegen.cpp
@@ -126,7 +126,7 @@ struct pregen_functions_t: public ast_visitor_t {
     if (n->is_syscall) {
       // add syscall to the syscall table
       program_builder_t builder(nano_.program_);
-      builder.add_syscall(n->name);
+      builder.add_syscall(n->name, n->is_varargs ? -1 : int32_t(n->args.size()));
       return;
     }
 
diff --git a/source/lib_compiler/program_builder.h b/source/lib_compiler/program_builder.h
index 657d1b4..943b0fc 100644
--- a/source/lib_compiler/program_builder.h
+++ b/source/lib_compiler/program_builder.h
@@ -46,7 +46,7 @@ struct program_builder_t {
     *d = value;
   }
 
-  int32_t add_syscall(const std::string &name) {
+  int32_t add_syscall(const std::string &name, int32_t num_args) {
     auto &sys = program_.syscalls_;
     // it may already exist
     // XXX: we should change the design so that we dont insert multiple times
@@ -57,7 +57,7 @@ struct program_builder_t {
     }
     // insert new syscall
     int32_t index = int32_t(sys.size());
-    sys.push_back({name, nullptr});
+    sys.push_back({name, nullptr, num_args});
     return index;
   }
 
diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 5019c61..8a7997b 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -421,6 +421,14 @@ void thread_t::do_INS_ICALL_() {
   value_t *callee = stack_.pop();
   if (callee->is_a<val_type_syscall>()) {
     const int32_t operand = callee->v;
+    // check number of arguments given to a syscall
+    const auto &calls = vm_.program_.syscalls();
+    assert(operand >= 0 && operand < int32_t(calls.size()));
+    const int32_t takes = calls[operand].num_args_;
+    if (takes >= 0 && takes != num_args) {
+      set_error_(thread_error_t::e_bad_num_args);
+      return;
+    }
     do_syscall_(operand, num_args);
     return;
   }
-- 
2.43.0


From af4e1fe0852cc7f0ad1e8a0b14fbcae65b068f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:31 +0000
Subject: [PATCH 42/58] fix: printing none raises a bad argument error

---
 source/driver/driver.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/source/driver/driver.cpp b/source/driver/driver.cpp
index 2297161..5febbf6 100644
--- a/source/driver/driver.cpp
+++ b/source/driver/driver.cpp
@@ -39,7 +39,6 @@ void vm_getc(nano::thread_t &t, int32_t) {
 void vm_putc(nano::thread_t &t, int32_t) {
   using namespace nano;
   const value_t *v = t.get_stack().pop();
-  assert(v);
   if (!v->is_a<val_type_int>()) {
     t.raise_error(thread_error_t::e_bad_argument);
   } else {
@@ -63,7 +62,6 @@ void vm_gets(nano::thread_t &t, int32_t) {
 void vm_puts(nano::thread_t &t, int32_t) {
   using namespace nano;
   value_t *s = t.get_stack().pop();
-  assert(s);
   if (!s->is_a<val_type_string>()) {
     t.raise_error(thread_error_t::e_bad_argument);
   } else {
-- 
2.43.0


From 3fefa754448816fd91c6f59f0925d139d7a27f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:31 +0000
Subject: [PATCH 43/58] fix: gets at the end of input gives an empty string

---
 source/driver/driver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/driver/driver.cpp b/source/driver/driver.cpp
index 5febbf6..c07d153 100644
--- a/source/driver/driver.cpp
+++ b/source/driver/driver.cpp
@@ -50,7 +50,7 @@ void vm_putc(nano::thread_t &t, int32_t) {
 
 void vm_gets(nano::thread_t &t, int32_t) {
   using namespace nano;
-  char buffer[80];
+  char buffer[80] = {'\0'};
   fgets(buffer, sizeof(buffer), stdin);
   for (size_t i = 0; i < sizeof(buffer); ++i) {
     buffer[i] = (buffer[i] == '\n') ? '\0' : buffer[i];
-- 
2.43.0


From c2caecffea8cc1972affc6e0ad7cfc5eb60debe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:35 +0000
Subject: [PATCH 44/58] fix: flip copies whole rows of screens that are not
 square

---
 source/driver_sdl/driver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/driver_sdl/driver.cpp b/source/driver_sdl/driver.cpp
index 59dab76..bc55944 100644
--- a/source/driver_sdl/driver.cpp
+++ b/source/driver_sdl/driver.cpp
@@ -284,7 +284,7 @@ void vm_flip(nano::thread_t &t, int32_t) {
     uint32_t *d = (uint32_t *)global.screen_->pixels;
 
     for (uint32_t y = 0; y < h; ++y) {
-      for (uint32_t x = 0, j = 0; x < h; ++x, j += 3) {
+      for (uint32_t x = 0, j = 0; x < w; ++x, j += 3) {
         const uint32_t c = s[x];
         d[j + 0 + p0] = d[j + 1 + p0] = d[j + 2 + p0] = c;
         d[j + 0 + p1] = d[j + 1 + p1] = d[j + 2 + p1] = c;
-- 
2.43.0


From 2cf152a65ebe3533e376773be81e201ddbae621e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:35 +0000
Subject: [PATCH 45/58] fix: reject invalid screen sizes

---
 source/driver_sdl/driver.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/driver_sdl/driver.cpp b/source/driver_sdl/driver.cpp
index bc55944..a6f0c17 100644
--- a/source/driver_sdl/driver.cpp
+++ b/source/driver_sdl/driver.cpp
@@ -67,7 +67,11 @@ void vm_video(nano::thread_t &t, int32_t) {
 
   bool ok = false;
 
-  if (w->is_a<val_type_int>() && h->is_a<val_type_int>()) {
+  // largest supported screen dimension
+  const int32_t max_size = 4096;
+
+  if (w->is_a<val_type_int>() && w->v > 0 && w->v <= max_size &&
+      h->is_a<val_type_int>() && h->v > 0 && h->v <= max_size) {
     global.width_ = (uint32_t)w->v;
     global.height_ = (uint32_t)h->v;
     global.video_.reset(new uint32_t[(uint32_t)(w->v * h->v)]);
-- 
2.43.0


From 5c1d0e5661e13396734b20401a78e414072d3009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:35 +0000
Subject: [PATCH 46/58] fix: video returns true when a screen was created

---
 source/driver_sdl/driver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/driver_sdl/driver.cpp b/source/driver_sdl/driver.cpp
index a6f0c17..710b258 100644
--- a/source/driver_sdl/driver.cpp
+++ b/source/driver_sdl/driver.cpp
@@ -86,7 +86,7 @@ void vm_video(nano::thread_t &t, int32_t) {
     if (global.window_) {
       global.screen_ = SDL_GetWindowSurface(global.window_);
     }
-    if (!global.window_ || !global.screen_) {
+    if (global.window_ && global.screen_) {
       ok = true;
     }
   }
-- 
2.43.0


From 723bcceb45747c4c6cc394f20685ee7dcb8649f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:21 +0000
Subject: [PATCH 47/58] fix: blocks holding only blank lines or comments are
 accepted

---
 source/lib_compiler/parser.cpp | 11 +++++++++++
 source/lib_compiler/parser.h   |  3 +++
 2 files changed, 14 insertions(+)

diff --git a/source/lib_compiler/parser.cpp b/source/lib_compiler/parser.cpp
index a5665c3..03d4d3d 100644
--- a/source/lib_compiler/parser.cpp
+++ b/source/lib_compiler/parser.cpp
@@ -106,6 +106,12 @@ int32_t parser_t::op_type_(token_e type) const {
   }
 }
 
+void parser_t::skip_blank_lines_() {
+  // a block can be empty except for blank lines and comments
+  token_stream_t &stream_ = nano_.lexer().stream();
+  while (stream_.found(TOK_EOL));
+}
+
 bool parser_t::is_operator_() const {
   token_stream_t &stream_ = nano_.lexer().stream();
   // note: 'not' is a prefix operator so can not join two operands
@@ -380,6 +386,7 @@ ast_node_t* parser_t::parse_if_(const token_t &t) {
   stmt->expr = parse_expr_();
   stream_.pop(TOK_RPAREN);
   stream_.pop(TOK_EOL);
+  skip_blank_lines_();
 
   // IF body
   stmt->then_block = ast.alloc<ast_block_t>();
@@ -387,6 +394,7 @@ ast_node_t* parser_t::parse_if_(const token_t &t) {
   while (!stream_.found(TOK_END)) {
     if (stream_.found(TOK_ELSE)) {
       stream_.pop(TOK_EOL);
+      skip_blank_lines_();
       has_else = true;
       break;
     }
@@ -423,6 +431,7 @@ ast_node_t* parser_t::parse_while_(const token_t &t) {
   stmt->expr = parse_expr_();
   stream_.pop(TOK_RPAREN);
   stream_.pop(TOK_EOL);
+  skip_blank_lines_();
 
   // WHILE body
   stmt->body = ast.alloc<ast_block_t>();
@@ -457,6 +466,7 @@ ast_node_t* parser_t::parse_for_(const token_t &t) {
   stmt->end = parse_expr_();
   stream_.pop(TOK_RPAREN);
   stream_.pop(TOK_EOL);
+  skip_blank_lines_();
 
   // FOR body
   stmt->body = ast.alloc<ast_block_t>();
@@ -655,6 +665,7 @@ ast_node_t* parser_t::parse_function_(const token_t &t) {
     stream_.pop(TOK_RPAREN);
   }
   stream_.pop(TOK_EOL);
+  skip_blank_lines_();
 
   // function body
   func->body = ast.alloc<ast_block_t>();
diff --git a/source/lib_compiler/parser.h b/source/lib_compiler/parser.h
index b3c3afa..3bedc6a 100644
--- a/source/lib_compiler/parser.h
+++ b/source/lib_compiler/parser.h
@@ -51,6 +51,9 @@ protected:
   void parse_expr_ex_(uint32_t tide);
   void parse_lhs_();
 
+  // consume any blank lines at the start of a block
+  void skip_blank_lines_();
+
   // return true if next token is an operator
   bool is_operator_() const;
 
-- 
2.43.0


From 1201cb5909888e833cdb22ce543bacc5ded74c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:05 +0000
Subject: [PATCH 48/58] fix: a global initialised to none is assigned none

---
 source/lib_compiler/sema.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index b4c6e7b..27e42b7 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -285,7 +285,11 @@ struct sema_global_var_t : public ast_visitor_t {
     assert(n->expr);
     switch (n->expr->type) {
     case ast_exp_none_e:
-      n->expr = nullptr;
+      // note: an earlier initialiser may have set this global so it must still
+      //       be assigned
+      if (n->is_const) {
+        n->expr = nullptr;
+      }
       break;
     case ast_exp_bin_op_e:
     case ast_exp_unary_op_e: {
-- 
2.43.0


From 4c1c97a887f6981c4873d1578f0b421c9052998b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:50 +0000
Subject: [PATCH 49/58] fix: folded constant expressions keep their source line

---
 source/lib_compiler/optimize.cpp | 15 +++++++++++----
 source/lib_compiler/sema.cpp     |  4 +++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/source/lib_compiler/optimize.cpp b/source/lib_compiler/optimize.cpp
index f6035a5..1539c45 100644
--- a/source/lib_compiler/optimize.cpp
+++ b/source/lib_compiler/optimize.cpp
@@ -178,7 +178,7 @@ struct opt_const_expr_t: public ast_visitor_t {
     int32_t v = 0;
     if (auto *e = s->expr->cast<ast_exp_bin_op_t>()) {
       if (eval_(e, v)) {
-        s->expr = ast_.alloc<ast_exp_lit_var_t>(v);
+        s->expr = literal_(v, e->token);
       }
     }
   }
@@ -188,7 +188,7 @@ struct opt_const_expr_t: public ast_visitor_t {
     int32_t v = 0;
     if (auto *e = s->expr->cast<ast_exp_bin_op_t>()) {
       if (eval_(e, v)) {
-        s->expr = ast_.alloc<ast_exp_lit_var_t>(v);
+        s->expr = literal_(v, e->token);
       }
     }
   }
@@ -198,7 +198,7 @@ struct opt_const_expr_t: public ast_visitor_t {
     int32_t v = 0;
     if (auto *e = s->expr->cast<ast_exp_bin_op_t>()) {
       if (eval_(e, v)) {
-        s->expr = ast_.alloc<ast_exp_lit_var_t>(v);
+        s->expr = literal_(v, e->token);
       }
     }
   }
@@ -208,7 +208,7 @@ struct opt_const_expr_t: public ast_visitor_t {
     int32_t v = 0;
     if (auto *e = s->expr->cast<ast_exp_bin_op_t>()) {
       if (eval_(e, v)) {
-        s->expr = ast_.alloc<ast_exp_lit_var_t>(v);
+        s->expr = literal_(v, e->token);
       }
     }
   }
@@ -221,6 +221,13 @@ protected:
 
   std::map<const ast_node_t *, int32_t> val_;
 
+  // a folded expression keeps its place in the source
+  ast_node_t *literal_(int32_t v, const token_t *token) {
+    auto *lit = ast_.alloc<ast_exp_lit_var_t>(v);
+    lit->token = token;
+    return lit;
+  }
+
   bool value_(const ast_node_t *n, int32_t &v) const {
     if (const auto *e = n->cast<ast_exp_lit_var_t>()) {
       v = e->val;
diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index 27e42b7..345e412 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -296,7 +296,9 @@ struct sema_global_var_t : public ast_visitor_t {
       int32_t val = 0;
       if (eval.eval(n->expr, val)) {
         change_ = true;
-        n->expr = ast_.alloc<ast_exp_lit_var_t>(val);
+        auto *lit = ast_.alloc<ast_exp_lit_var_t>(val);
+        lit->token = n->name;
+        n->expr = lit;
       }
       else {
         if (strict_) {
-- 
2.43.0


From ef1c354d6ca7b17c687ee0313d286035913045cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:15 +0000
Subject: [PATCH 50/58] fix: breakpoints on a threads first line, and on lines
 left while none were set

---
 source/lib_vm/thread.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 8a7997b..2d42784 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -877,6 +877,14 @@ bool thread_t::resume(int32_t cycles) {
     return false;
   }
   halted_ = false;
+  // a thread can start on a line with a breakpoint
+  if (cycles_ == 0 && breakpoints_.count(get_source_line())) {
+    if (last_line_ != get_source_line()) {
+      last_line_ = get_source_line();
+      halted_ = true;
+      return true;
+    }
+  }
   // while we should keep processing instructions
   for (; cycles; --cycles) {
     tick_gc_(cycles);
@@ -911,6 +919,10 @@ void thread_t::setv_(int32_t offs, value_t *val) {
 }
 
 void thread_t::breakpoint_add(line_t line) {
+  // lines are only tracked while there are breakpoints
+  if (breakpoints_.empty() && cycles_ > 0) {
+    last_line_ = get_source_line();
+  }
   breakpoints_.insert(line);
 }
 
-- 
2.43.0


From cd4061572d700ddc2e4579fb38780cb1bbc95e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:19 +0000
Subject: [PATCH 51/58] fix: only underscore joins the letters in identifiers

---
 source/lib_compiler/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/lib_compiler/lexer.cpp b/source/lib_compiler/lexer.cpp
index 3b1d649..e08f234 100644
--- a/source/lib_compiler/lexer.cpp
+++ b/source/lib_compiler/lexer.cpp
@@ -8,7 +8,7 @@ namespace {
 
 // ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ----
 bool is_alpha(const char t) {
-  return (t >= 'a' && t <= 'z') || (t >= 'A' && t <= 'Z') || (t >= '_');
+  return (t >= 'a' && t <= 'z') || (t >= 'A' && t <= 'Z') || (t == '_');
 }
 
 bool is_numeric(const char t) {
-- 
2.43.0


From 6f79da1ef5d0f56cd054fa5e6336b621679ecaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:15 +0000
Subject: [PATCH 52/58] fix: constants are not listed as global or local
 variables

Constants have no storage, yet they were listed with slot 0 in the program's
global table and in the locals of functions, so that a debugger reading the
slot showed another variable's value or read past the globals.
---
 source/lib_compiler/codegen.cpp     | 5 ++++-
 source/lib_compiler/pre_codegen.cpp | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/lib_compiler/codegen.cpp b/source/lib_compiler/codegen.cpp
index 2b41440..5547876 100644
--- a/source/lib_compiler/codegen.cpp
+++ b/source/lib_compiler/codegen.cpp
@@ -458,7 +458,10 @@ struct codegen_pass_t: ast_visitor_t {
   void visit(ast_decl_var_t* n) override {
     // collect the globals
     if (n->is_global()) {
-      stream_.add_global(n->name->str_, n->offset);
+      // const variables have no storage
+      if (!n->is_const) {
+        stream_.add_global(n->name->str_, n->offset);
+      }
       return;
     }
     // must be local
diff --git a/source/lib_compiler/pre_codegen.cpp b/source/lib_compiler/pre_codegen.cpp
index b958d95..5c40bc5 100644
--- a/source/lib_compiler/pre_codegen.cpp
+++ b/source/lib_compiler/pre_codegen.cpp
@@ -112,7 +112,8 @@ struct pregen_functions_t: public ast_visitor_t {
   void visit(ast_decl_var_t *n) override {
     // if we have a function
     if (f_) {
-      if (n->is_local()) {
+      // const variables have no storage
+      if (n->is_local() && !n->is_const) {
         f_->locals_.emplace_back();
         auto &l = f_->locals_.back();
         l.name_ = n->name->string();
-- 
2.43.0


From 93726b810fe4143d4612660b094f556a00aa74dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:15 +0000
Subject: [PATCH 53/58] fix: instruction metadata covers new arrays and
 branching of indirect calls

---
 source/lib_common/instructions.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/lib_common/instructions.cpp b/source/lib_common/instructions.cpp
index 53d37e5..bddc16a 100644
--- a/source/lib_common/instructions.cpp
+++ b/source/lib_common/instructions.cpp
@@ -14,6 +14,7 @@ bool ins_has_operand(const instruction_e ins) {
   case INS_POP:
   case INS_NEW_INT:
   case INS_NEW_STR:
+  case INS_NEW_ARY:
   case INS_NEW_FLT:
   case INS_NEW_FUNC:
   case INS_NEW_SCALL:
@@ -38,6 +39,7 @@ bool ins_will_branch(const instruction_e ins) {
   case INS_FJMP:
   case INS_TJMP:
   case INS_CALL:
+  case INS_ICALL:
   case INS_RET:
     return true;
   default:
-- 
2.43.0


From 59b23ec7f0f4772dd53070316b4e11c9ef2c3dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:38 +0000
Subject: [PATCH 54/58] fix: nano_comp output paths may be longer than 1024
 characters

---
 source/comp/driver.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/comp/driver.cpp b/source/comp/driver.cpp
index a4db833..d504912 100644
--- a/source/comp/driver.cpp
+++ b/source/comp/driver.cpp
@@ -1,4 +1,5 @@
 #include <cstdio>
+#include <string>
 
 #include "../lib_compiler/nano.h"
 #include "../lib_compiler/codegen.h"
@@ -21,9 +22,8 @@ void on_error(const nano::error_t &error) {
 } // namespace
 
 FILE *fd_open(const char *base, const char *ext) {
-  char buf[1024];
-  sprintf(buf, "%s%s", base, ext);
-  return fopen(buf, "wb");
+  const std::string path = std::string(base) + ext;
+  return fopen(path.c_str(), "wb");
 }
 
 void usage(const char *path) {
-- 
2.43.0


From 0828543580aa3d979484a975ef7601cfc48bc021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:41 +0000
Subject: [PATCH 55/58] fix: nano_comp reports outputs that cannot be written

---
 source/comp/driver.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/source/comp/driver.cpp b/source/comp/driver.cpp
index d504912..3e59056 100644
--- a/source/comp/driver.cpp
+++ b/source/comp/driver.cpp
@@ -23,7 +23,20 @@ void on_error(const nano::error_t &error) {
 
 FILE *fd_open(const char *base, const char *ext) {
   const std::string path = std::string(base) + ext;
-  return fopen(path.c_str(), "wb");
+  FILE *fd = fopen(path.c_str(), "wb");
+  if (!fd) {
+    fprintf(stderr, "unable to open output '%s'\n", path.c_str());
+    exit(1);
+  }
+  return fd;
+}
+
+void fd_close(FILE *fd) {
+  const bool failed = ferror(fd) != 0;
+  if (fclose(fd) != 0 || failed) {
+    fprintf(stderr, "unable to write output\n");
+    exit(1);
+  }
 }
 
 void usage(const char *path) {
@@ -99,6 +112,7 @@ int main(int argc, char **argv) {
     // dump the ast
     if (fd_ast) {
       nano.ast().dump(fd_ast);
+      fd_close(fd_ast);
     }
   }
 
@@ -106,12 +120,14 @@ int main(int argc, char **argv) {
   if (fd_dis) {
     disassembler_t disasm;
     disasm.dump(program, fd_dis);
+    fd_close(fd_dis);
   }
 
   // dump the binary
   if (fd_bin) {
     const uint8_t *data = program.data();
     fwrite(data, 1, program.size(), fd_bin);
+    fd_close(fd_bin);
   }
 
   return 0;
-- 
2.43.0


From 7ebff4dac3811dec6af4ae00957ec946cf072471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:56 +0000
Subject: [PATCH 56/58] fix: a screen that cannot be created does not leave the
 previous one in use

The old surface was kept with the new dimensions, so that flip wrote past it.
---
 source/driver_sdl/driver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/driver_sdl/driver.cpp b/source/driver_sdl/driver.cpp
index 710b258..a138606 100644
--- a/source/driver_sdl/driver.cpp
+++ b/source/driver_sdl/driver.cpp
@@ -77,6 +77,8 @@ void vm_video(nano::thread_t &t, int32_t) {
     global.video_.reset(new uint32_t[(uint32_t)(w->v * h->v)]);
     memset(global.video_.get(), 0, w->v * h->v * sizeof(uint32_t));
 
+    // a previous screen does not fit the new size
+    global.screen_ = nullptr;
     global.window_ = SDL_CreateWindow("Nano Script",
                                       SDL_WINDOWPOS_CENTERED,
                                       SDL_WINDOWPOS_CENTERED,
-- 
2.43.0


From 7799824362b512dc44ef1939bb312dfb18264348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:56 +0000
Subject: [PATCH 57/58] fix: sleeping for a negative time does not freeze the
 program

---
 source/driver_sdl/driver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/driver_sdl/driver.cpp b/source/driver_sdl/driver.cpp
index a138606..9647913 100644
--- a/source/driver_sdl/driver.cpp
+++ b/source/driver_sdl/driver.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <cstdio>
 #include <memory>
 
@@ -53,7 +54,8 @@ void vm_cls(nano::thread_t &t, int32_t) {
 void vm_sleep(nano::thread_t &t, int32_t) {
   nano::value_t *val = t.get_stack().pop();
   if (val->is_number()) {
-    tick_mark = SDL_GetTicks() + val->as_int();
+    // note: a negative delay would wrap around to a very long one
+    tick_mark = SDL_GetTicks() + std::max<int32_t>(val->as_int(), 0);
     t.halt();
   }
   // return value
-- 
2.43.0


From 17a1bc12252cdbd35cf3196dfe68c4145dcb664a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:30 +0000
Subject: [PATCH 58/58] fix: a thread prepared again forgets what it did before

---
 source/lib_vm/thread.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 2d42784..e1ddbee 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -698,6 +698,10 @@ bool thread_t::prepare(const function_t &func, int32_t argc,
   cycles_ = 0;
   halted_ = false;
 
+  // nothing is left of what this thread did before
+  waits = 0;
+  last_line_ = line_t{};
+  f_.clear();
   stack_.clear();
 
   // load the target pc (entry point)
-- 
2.43.0

