From 86be00bbc8457bbc1860b317a55c0b9f71c55e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:26 +0000
Subject: [PATCH 01/29] fix: including a file no longer disables the reference
 checks

---
 src/state.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index 39a984e..eb20b58 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -302,13 +302,18 @@ bool State::includeFile(const std::string& s, bool isSignature, bool isReference
     return false;
   }
 
+  if (isReference)
+  {
+    // Only set when reading a reference file. In particular, an ordinary
+    // include must not disable the reference that was read previously.
+    Assert(!d_hasReference);
+    d_hasReference = true;
+    d_referenceNf = referenceNf;
+  }
   if (!markIncluded(inputPath))
   {
     return true;
   }
-  Assert (!isReference || !d_hasReference);
-  d_hasReference = isReference;
-  d_referenceNf = referenceNf;
   Filepath currentPath = d_inputFile;
   d_inputFile = inputPath;
   if (d_plugin!=nullptr)
-- 
2.43.0


From fc0ad97e711736da047c66e69d9c5e29a7e3393a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:26 +0000
Subject: [PATCH 02/29] fix: check assume commands in nested scopes against the
 reference

---
 src/state.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index eb20b58..77e7222 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -459,8 +459,11 @@ bool State::addAssumption(const Expr& a)
   d_assumptions.push_back(a);
   if (d_hasReference)
   {
-    // only care if at assumption level zero
-    if (d_assumptionsSizeCtx.empty())
+    // We do not care about local assumptions, i.e. the first assumption of each
+    // assumption scope. All other assumptions must be a reference assertion,
+    // including those that occur in a nested assumption scope.
+    if (d_assumptionsSizeCtx.empty()
+        || d_assumptions.size() - 1 > d_assumptionsSizeCtx.back())
     {
       Expr aa = a;
       if (!d_referenceNf.isNull())
-- 
2.43.0


From a24b64ae6164f43e21cb172844859449493b0fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:26 +0000
Subject: [PATCH 03/29] fix: extract of a bit-vector at an index equal to its
 width

---
 src/literal.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/literal.cpp b/src/literal.cpp
index 8d22580..59d735a 100644
--- a/src/literal.cpp
+++ b/src/literal.cpp
@@ -356,14 +356,14 @@ Literal Literal::evaluate(Kind k, const std::vector<const Literal*>& args)
           case Kind::BINARY:
           {
             Integer dsize(args[0]->d_bv.getSize());
-            if (i1.sgn()<0 || i2.sgn()<0 || i1>dsize || dsize.sgn()==0)
+            if (i1.sgn()<0 || i2.sgn()<0 || i1>=dsize)
             {
               return Literal(ka, BitVector(0));
             }
             Assert (i1.fitsUnsignedInt() && dsize.fitsUnsignedInt());
             uint32_t v1 = i1.toUnsignedInt();
             uint32_t vs = dsize.toUnsignedInt();
-            uint32_t v2 = i2>dsize ? vs-1 : i2.toUnsignedInt();
+            uint32_t v2 = i2>=dsize ? vs-1 : i2.toUnsignedInt();
             if (v1>v2)
             {
               return Literal(ka, BitVector(0));
-- 
2.43.0


From 02900be85b9aeb99b412455f59c69a1bdadc6918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:26 +0000
Subject: [PATCH 04/29] fix: eo::extract requires three arguments

---
 src/type_checker.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index 25de2f5..65e362e 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -189,6 +189,7 @@ bool TypeChecker::checkArity(Kind k, size_t nargs, std::ostream* out)
     case Kind::EVAL_REQUIRES:
     case Kind::EVAL_IF_THEN_ELSE:
     case Kind::EVAL_CONS:
+    case Kind::EVAL_EXTRACT:
     case Kind::EVAL_LIST_FIND:
     case Kind::EVAL_LIST_ERASE:
     case Kind::EVAL_LIST_ERASE_ALL:
@@ -197,9 +198,6 @@ bool TypeChecker::checkArity(Kind k, size_t nargs, std::ostream* out)
     case Kind::EVAL_LIST_MEQ:
     case Kind::EVAL_LIST_DIFF:
     case Kind::EVAL_LIST_INTER: ret = (nargs == 3); break;
-    case Kind::EVAL_EXTRACT:
-      ret = (nargs==3 || nargs==2);
-      break;
     default:
       if (isNaryLiteralOp(k))
       {
-- 
2.43.0


From 70903be9ddc99b4719a0157386e011cb3362c365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:26 +0000
Subject: [PATCH 05/29] fix: eo::to_str does not evaluate on numerals that are
 not code points

---
 src/literal.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/literal.cpp b/src/literal.cpp
index 59d735a..be9643f 100644
--- a/src/literal.cpp
+++ b/src/literal.cpp
@@ -451,6 +451,7 @@ Literal Literal::evaluate(Kind k, const std::vector<const Literal*>& args)
             }
           }
         }
+        break;
         case Kind::RATIONAL:return Literal(String(args[0]->toString()));
         case Kind::HEXADECIMAL:return Literal(String("#x" + args[0]->toString()));
         case Kind::BINARY:return Literal(String("#b" + args[0]->toString()));
-- 
2.43.0


From e2f1cd2d2188c17b6a6e948e15b3480765266244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:26 +0000
Subject: [PATCH 06/29] fix: concatenation of bit-vectors whose total width
 overflows

---
 src/literal.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/literal.cpp b/src/literal.cpp
index be9643f..7b70b14 100644
--- a/src/literal.cpp
+++ b/src/literal.cpp
@@ -235,7 +235,14 @@ Literal Literal::evaluate(Kind k, const std::vector<const Literal*>& args)
             case Kind::EVAL_XOR:res = (res ^ args[i]->d_bv); break;
             case Kind::EVAL_ADD: res = (res + args[i]->d_bv); break;
             case Kind::EVAL_MUL: res = (res * args[i]->d_bv); break;
-            case Kind::EVAL_CONCAT: res = res.concat(args[i]->d_bv);break;
+            case Kind::EVAL_CONCAT:
+              // does not evaluate if the bitwidth is not representable
+              if (res.getSize() + args[i]->d_bv.getSize() < res.getSize())
+              {
+                return Literal();
+              }
+              res = res.concat(args[i]->d_bv);
+              break;
             default: return Literal(); break;
             }
           }
-- 
2.43.0


From a5ad5bff438cf94dcec66ee9388e8e8ed0b0f3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:26 +0000
Subject: [PATCH 07/29] fix: byte 0xff in the input is not the end of file

---
 src/lexer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lexer.h b/src/lexer.h
index 30122c8..77fda1a 100644
--- a/src/lexer.h
+++ b/src/lexer.h
@@ -92,7 +92,7 @@ class Lexer
   {
     if (d_bufferPos < d_bufferEnd)
     {
-      d_ch = d_buffer[d_bufferPos];
+      d_ch = static_cast<unsigned char>(d_buffer[d_bufferPos]);
       d_bufferPos++;
     }
     else if (d_isInteractive)
@@ -110,7 +110,7 @@ class Lexer
       }
       else
       {
-        d_ch = d_buffer[0];
+        d_ch = static_cast<unsigned char>(d_buffer[0]);
         d_bufferPos = 1;
       }
     }
-- 
2.43.0


From 096caa9f15d78b782b9ca6f92409ec77acc1f264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:26 +0000
Subject: [PATCH 08/29] fix: removing an entry from the expression trie
 preserves the others

---
 src/expr_trie.h | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/expr_trie.h b/src/expr_trie.h
index d912c01..a2f3154 100644
--- a/src/expr_trie.h
+++ b/src/expr_trie.h
@@ -39,31 +39,30 @@ public:
   void remove(const std::vector<ExprValue*>& children)
   {
     ExprTrie* et = this;
+    // etd is the candidate trie to delete from
     ExprTrie* etd = nullptr;
     std::map<const ExprValue*, ExprTrie>::iterator itet;
     std::map<const ExprValue*, ExprTrie>::iterator itetd;
     for (ExprValue* e : children)
     {
       itet = et->d_children.find(e);
-      if (etd == nullptr)
+      Assert (itet!=et->d_children.end());
+      // If this node is used for another entry, then we can only delete
+      // below it.
+      if (etd == nullptr || et->d_data != nullptr || et->d_children.size() > 1)
       {
-        // etd is the candidate trie to delete from
         etd = et;
         itetd = itet;
       }
-      Assert (itet!=et->d_children.end());
-      if (et->d_children.size() > 1)
-      {
-        etd = nullptr;
-      }
       et = &itet->second;
     }
-    // delete the subtree for which et->d_data occurs in a single path
-    if (etd!=nullptr)
+    et->d_data = nullptr;
+    // delete the subtree for which et->d_data occurs in a single path, unless
+    // it contains further entries
+    if (etd != nullptr && et->d_children.empty())
     {
       etd->d_children.erase(itetd);
     }
-    et->d_data = nullptr;
   }
 };
 
-- 
2.43.0


From d207f7b0c67b59d804092acf92a5614dc2e20e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:26 +0000
Subject: [PATCH 09/29] fix: list operators preserve the order of left
 associative lists

---
 src/type_checker.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index 65e362e..afd075e 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -1025,10 +1025,10 @@ Expr TypeChecker::prependNAryChildren(ExprValue* op,
   if (isLeft)
   {
     ExprValue* c1;
-    for (auto it = hargs.begin(); it != hargs.end(); ++it)
+    for (auto rit = hargs.rbegin(); rit != hargs.rend(); ++rit)
     {
       c1 = d_state.mkExprInternal(Kind::APPLY, {op, ret});
-      ret = d_state.mkExprInternal(Kind::APPLY, {c1, *it});
+      ret = d_state.mkExprInternal(Kind::APPLY, {c1, *rit});
     }
   }
   else
-- 
2.43.0


From fcfd487bfa7f87583ddb4ece04ed7f551bb44349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:25 +0000
Subject: [PATCH 10/29] fix: leading zeroes when printing hexadecimal values

---
 src/util/bitvector.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/util/bitvector.cpp b/src/util/bitvector.cpp
index 69f8541..9f7efc3 100644
--- a/src/util/bitvector.cpp
+++ b/src/util/bitvector.cpp
@@ -36,13 +36,11 @@ Integer BitVector::toInteger() const { return d_value; }
 std::string BitVector::toString(unsigned int base) const
 {
   std::string str = d_value.toString(base);
-  if (base == 2 && d_size > str.size())
+  // the number of digits, where each hexadecimal digit has 4 bits
+  size_t ndigits = base == 2 ? d_size : (base == 16 ? (d_size + 3) / 4 : 0);
+  if (ndigits > str.size())
   {
-    std::string zeroes;
-    for (unsigned int i = 0; i < d_size - str.size(); ++i)
-    {
-      zeroes.append("0");
-    }
+    std::string zeroes(ndigits - str.size(), '0');
     return zeroes + str;
   }
   else if (d_size==0)
-- 
2.43.0


From ed793f52b86d51f48d2725e0a7ca278a09570aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:25 +0000
Subject: [PATCH 11/29] fix: do not drop unprintable characters of string
 literals

---
 src/util/string.cpp | 16 ++++------------
 src/util/string.h   |  3 +--
 2 files changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/util/string.cpp b/src/util/string.cpp
index acfb368..4e0f38d 100644
--- a/src/util/string.cpp
+++ b/src/util/string.cpp
@@ -54,18 +54,10 @@ String String::concat(const String &other) const
 
 void String::addCharToInternal(unsigned char ch, std::vector<unsigned>& str)
 {
-  // if not a printable character
-  if (ch > 127 || ch < 32)
-  {
-    std::stringstream serr;
-    serr << "Illegal string character: \"" << ch
-         << "\", must use escape sequence";
-    //throw cvc5::internal::Exception(serr.str());
-  }
-  else
-  {
-    str.push_back(static_cast<unsigned>(ch));
-  }
+  // Note that characters are never dropped, otherwise distinct strings would
+  // be identified. Characters that are not printable are printed using escape
+  // sequences.
+  str.push_back(static_cast<unsigned>(ch));
 }
 
 std::vector<unsigned> String::toInternal(const std::string& s,
diff --git a/src/util/string.h b/src/util/string.h
index 97a120a..c285cd6 100644
--- a/src/util/string.h
+++ b/src/util/string.h
@@ -149,8 +149,7 @@ class String
  private:
   /**
    * Helper for toInternal: add character ch to vector vec, storing a string in
-   * internal format. This throws an error if ch is not a printable character,
-   * since non-printable characters must be escaped in SMT-LIB.
+   * internal format.
    */
   static void addCharToInternal(unsigned char ch, std::vector<unsigned>& vec);
   /**
-- 
2.43.0


From 5cf42d4d30e3442013f019bc067532d4098fd8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:25 +0000
Subject: [PATCH 12/29] fix: reject streamed inputs with an open assumption
 scope

---
 src/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index dff12d3..a5c8f10 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -176,6 +176,10 @@ int main( int argc, char* argv[] )
     while (p.parseNextCommand())
     {
     }
+    if (s.getAssumptionLevel() != 0)
+    {
+      EO_FATAL() << "Error: input ended with an open assumption scope";
+    }
   }
   else
   {
-- 
2.43.0


From 038596e3d742dab3141f6a35f89e479e457634e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:25 +0000
Subject: [PATCH 13/29] fix: builtin symbols are available after a reset

---
 src/state.cpp | 9 ++++++++-
 src/state.h   | 2 ++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/state.cpp b/src/state.cpp
index 77e7222..fb3e97c 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -192,13 +192,20 @@ State::State(Options& opts, Stats& stats)
   // Proof is the return type of terms with kind Kind::PROOF, which is an
   // ordinary type (not available in the parser).
   d_proofType = Expr(mkSymbolInternal(Kind::CONST, "eo::Proof", d_type));
+
+  // remember the builtin symbols, which are available after a reset
+  d_builtinSymTable = d_symTable;
 }
 
 State::~State() {}
 
 void State::reset()
 {
-  d_symTable.clear();
+  // restore the builtin symbols only
+  d_symTable = d_builtinSymTable;
+  d_ruleSymTable.clear();
+  d_overloads.clear();
+  d_overloadedDecls.clear();
   d_assumptions.clear();
   d_assumptionsSizeCtx.clear();
   d_decls.clear();
diff --git a/src/state.h b/src/state.h
index 7174e27..6eba8a4 100644
--- a/src/state.h
+++ b/src/state.h
@@ -341,6 +341,8 @@ class State
   //--------------------- parsing state
   /** The symbol table, mapping symbols */
   std::map<std::string, Expr> d_symTable;
+  /** The builtin symbols, i.e. the initial state of the above table */
+  std::map<std::string, Expr> d_builtinSymTable;
   /** Symbol table for proof rules, if using separate table */
   std::map<std::string, Expr> d_ruleSymTable;
   /** The (canonical) bound variables for binders */
-- 
2.43.0


From cab17b42b2048f3fe68df94f48a3e4c3cf7c013f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:38 +0000
Subject: [PATCH 14/29] fix: the hash of a term does not change when the term
 is released

---
 src/state.cpp | 7 ++-----
 src/state.h   | 2 ++
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index fb3e97c..b3412d6 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -431,11 +431,6 @@ void State::markDeleted(ExprValue* e)
       }
       break;
     }
-    std::map<const ExprValue*, size_t>::const_iterator ith = d_hashMap.find(e);
-    if (ith != d_hashMap.end())
-    {
-      d_hashMap.erase(ith);
-    }
     std::map<const ExprValue*, Expr>::const_iterator itt = d_typeCache.find(e);
     if (itt != d_typeCache.end())
     {
@@ -1628,6 +1623,8 @@ size_t State::getHash(const ExprValue* e)
   d_hashCounter++;
   size_t ret = d_hashCounter;
   d_hashMap[e] = ret;
+  // the term must remain alive, since its hash must not change
+  d_hashTerms.emplace_back(e);
   return ret;
 }
 
diff --git a/src/state.h b/src/state.h
index 6eba8a4..bf5a6da 100644
--- a/src/state.h
+++ b/src/state.h
@@ -384,6 +384,8 @@ class State
   size_t d_hashCounter;
   /** The database of created expressions */
   std::map<Kind, ExprTrie> d_trie;
+  /** The terms in d_hashMap, which are not released */
+  std::vector<Expr> d_hashTerms;
   //--------------------- literals
   /** Cache for literals */
   std::unordered_map<Rational, Expr, RationalHashFunction> d_litRatMap[2];
-- 
2.43.0


From 3ef1914e87ddabb715275493195944c9af97b267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:16 +0000
Subject: [PATCH 15/29] fix: list operators do not evaluate on stuck terms

---
 src/type_checker.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index afd075e..5a3db1c 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -1346,6 +1346,14 @@ Expr TypeChecker::evaluateLiteralOpInternal(
     // not an associative operator
     return d_null;
   }
+  // list operators are only evaluated if their arguments are values
+  for (ExprValue* e : args)
+  {
+    if (e->isEvaluatable())
+    {
+      return d_null;
+    }
+  }
   bool isLeft = (ck == Attr::LEFT_ASSOC_NIL || ck == Attr::LEFT_ASSOC_NS_NIL);
   Trace("type_checker_debug") << "EVALUATE-LIT (list) " << k << " " << isLeft << " " << args << std::endl;
   // infer the nil expression, which depends on the type of args[1]
-- 
2.43.0


From aeec4b2f2cc5e913b3adab2dcdec580834e3b0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:16 +0000
Subject: [PATCH 16/29] fix: evaluate ground results of programs in nested
 evaluations

---
 src/type_checker.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index 5a3db1c..851d752 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -690,10 +690,13 @@ Expr TypeChecker::evaluate(ExprValue* e, Ctx& ctx)
                 // see if we evaluate
                 evaluated = evaluateProgramInternal(cchildren, newCtx);
                 //std::cout << "Evaluate prog returned " << evaluated << std::endl;
-                if (evaluated.isNull() || evaluated.isGround() || newCtx.empty())
+                if (evaluated.isNull()
+                    || (!evaluated.isEvaluatable()
+                        && (evaluated.isGround() || newCtx.empty())))
                 {
                   // if the evaluation can be shortcircuited, don't need to
-                  // push a context
+                  // push a context. Note that this is not the case if the
+                  // result is a ground term that must be evaluated further.
                   // store the base evaluation (if applicable)
                   et->d_data = evaluated.getValue();
                 }
-- 
2.43.0


From 12cacb9c745afbd0049adfb0ea6246884fc07e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:42 +0000
Subject: [PATCH 17/29] fix: remember the use of :sorry rules when the step is
 accepted

---
 src/cmd_parser.cpp |  8 ++++++--
 src/main.cpp       | 12 +-----------
 src/state.cpp      |  6 ++++++
 src/state.h        |  6 ++++++
 4 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/cmd_parser.cpp b/src/cmd_parser.cpp
index b0dc1ed..5bedf4e 100644
--- a/src/cmd_parser.cpp
+++ b/src/cmd_parser.cpp
@@ -968,9 +968,13 @@ bool CmdParser::parseNextCommand()
       d_eparser.bind(name, pfTerm);
       // d_eparser.bind(name, def);
       Assert (rs!=nullptr);
-      // increment the count regardless of whether stats are enabled, since it
-      // may impact whether we report incomplete
+      // increment the count regardless of whether stats are enabled
       rs->d_count++;
+      // remember this now, since the rule may be deleted later
+      if (d_state.isProofRuleSorry(rule.getValue()))
+      {
+        d_state.markIncomplete();
+      }
       if (d_statsEnabled)
       {
         // increment the stats
diff --git a/src/main.cpp b/src/main.cpp
index a5c8f10..857a9da 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -191,17 +191,7 @@ int main( int argc, char* argv[] )
       EO_FATAL() << "Error: cannot include file " << file;
     }
   }
-  bool wasIncomplete = false;
-  std::map<const ExprValue*, RuleStat>& rs = stats.d_rstats;
-  for (const std::pair<const ExprValue* const, RuleStat>& r : rs)
-  {
-    if (s.isProofRuleSorry(r.first))
-    {
-      wasIncomplete = true;
-      break;
-    }
-  }
-  if (wasIncomplete)
+  if (s.isIncomplete())
   {
     std::cout << "incomplete" << std::endl;
   }
diff --git a/src/state.cpp b/src/state.cpp
index b3412d6..a4bcc49 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -83,6 +83,7 @@ bool Options::setOption(const std::string& key, bool val)
 
 State::State(Options& opts, Stats& stats)
     : d_hashCounter(0),
+      d_isIncomplete(false),
       d_hasReference(false),
       d_inGarbageCollection(false),
       d_opts(opts),
@@ -427,6 +428,7 @@ void State::markDeleted(ExprValue* e)
           {
             d_appData.erase(it);
           }
+          d_pfrSorry.erase(e);
         }
       }
       break;
@@ -1643,6 +1645,10 @@ bool State::isProofRuleSorry(const ExprValue* e) const
   return d_pfrSorry.find(e)!=d_pfrSorry.end();
 }
 
+void State::markIncomplete() { d_isIncomplete = true; }
+
+bool State::isIncomplete() const { return d_isIncomplete; }
+
 AppInfo* State::getAppInfo(const ExprValue* e)
 {
   std::map<const ExprValue *, AppInfo>::iterator it = d_appData.find(e);
diff --git a/src/state.h b/src/state.h
index bf5a6da..bac4c37 100644
--- a/src/state.h
+++ b/src/state.h
@@ -252,6 +252,10 @@ class State
   void markProofRuleSorry(const ExprValue * e);
   /** Does e refer to a proof rule marked :sorry? */
   bool isProofRuleSorry(const ExprValue* e) const;
+  /** Mark that an accepted step used a proof rule marked :sorry */
+  void markIncomplete();
+  /** Was there an accepted step of a proof rule marked :sorry? */
+  bool isIncomplete() const;
   //--------------------------------------
   /** Get the type checker */
   TypeChecker& getTypeChecker();
@@ -400,6 +404,8 @@ class State
   Filepath d_inputFile;
   /** The proof rules marked :sorry */
   std::unordered_set<const ExprValue*> d_pfrSorry;
+  /** Whether an accepted step used a proof rule marked :sorry */
+  bool d_isIncomplete;
   /** Cache of files included */
   std::set<Filepath> d_includes;
   /** Have we parsed a reference file to check assumptions? */
-- 
2.43.0


From 64811e8bd596d199a302c24c9a6ef5bd1731e608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:06 +0000
Subject: [PATCH 18/29] fix: push and pop preserve the scopes of assumptions

---
 src/cmd_parser.cpp |  4 ++++
 src/state.cpp      | 17 +++++++++++++++--
 src/state.h        |  4 ++++
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/cmd_parser.cpp b/src/cmd_parser.cpp
index 5bedf4e..60068bb 100644
--- a/src/cmd_parser.cpp
+++ b/src/cmd_parser.cpp
@@ -1017,6 +1017,10 @@ bool CmdParser::parseNextCommand()
         }
         else
         {
+          if (d_state.isAssumptionScope())
+          {
+            d_lex.parseError("Cannot pop the scope of an assumption");
+          }
           d_state.popScope();
         }
       }
diff --git a/src/state.cpp b/src/state.cpp
index a4bcc49..4041849 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -209,6 +209,7 @@ void State::reset()
   d_overloadedDecls.clear();
   d_assumptions.clear();
   d_assumptionsSizeCtx.clear();
+  d_assumptionsDeclsCtx.clear();
   d_decls.clear();
   d_declsSizeCtx.clear();
   if (d_plugin!=nullptr)
@@ -272,6 +273,7 @@ void State::popScope()
 void State::pushAssumptionScope()
 {
   // push scope
+  d_assumptionsDeclsCtx.push_back(d_declsSizeCtx.size());
   pushScope();
   // remember assumption size
   d_assumptionsSizeCtx.push_back(d_assumptions.size());
@@ -283,8 +285,19 @@ void State::popAssumptionScope()
   size_t lastSize = d_assumptionsSizeCtx.back();
   d_assumptionsSizeCtx.pop_back();
   d_assumptions.resize(lastSize);
-  // pop the parsing scope
-  popScope();
+  // pop the parsing scope, including the scopes that were pushed since
+  size_t lastScope = d_assumptionsDeclsCtx.back();
+  d_assumptionsDeclsCtx.pop_back();
+  while (d_declsSizeCtx.size() > lastScope)
+  {
+    popScope();
+  }
+}
+
+bool State::isAssumptionScope() const
+{
+  return !d_assumptionsDeclsCtx.empty()
+         && d_declsSizeCtx.size() == d_assumptionsDeclsCtx.back() + 1;
 }
 bool State::includeFile(const std::string& s, bool isSignature)
 {
diff --git a/src/state.h b/src/state.h
index bac4c37..d96a113 100644
--- a/src/state.h
+++ b/src/state.h
@@ -69,6 +69,8 @@ class State
   void pushAssumptionScope();
   /** Pop assumption scope */
   void popAssumptionScope();
+  /** Is the innermost scope the scope of an assumption? */
+  bool isAssumptionScope() const;
   /** include file, if not already done, return false if error */
   bool includeFile(const std::string& s, bool isSignature);
   /** include file, possibly as a reference */
@@ -377,6 +379,8 @@ class State
   std::vector<Expr> d_assumptions;
   /** Context size */
   std::vector<size_t> d_assumptionsSizeCtx;
+  /** The number of scopes that were open before each assumption scope */
+  std::vector<size_t> d_assumptionsDeclsCtx;
   //--------------------- expression info
   /** Map from expressions to constructor info */
   std::map<const ExprValue*, AppInfo> d_appData;
-- 
2.43.0


From aad40bfaa8dee60939be46a84e81bd17d883aabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:08 +0000
Subject: [PATCH 19/29] fix: overloads of a name do not apply to other symbols
 bound to it

---
 src/state.cpp | 42 ++++++++++++++++++++++++++++++------------
 src/state.h   |  5 +++++
 2 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index 4041849..ff9db83 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -690,12 +690,11 @@ Expr State::mkExpr(Kind k, const std::vector<Expr>& children)
         // must call mkExpr again, since we may auto-evaluate
         return mkExpr(ai->d_kind, achildren);
       }
-      if (ai->d_isOverloaded)
+      const std::vector<Expr>* ov = getOverloads(hd);
+      if (ov != nullptr)
       {
         Trace("overload") << "Use overload when constructing " << k << " " << children << std::endl;
-        std::vector<Expr>& ov = d_overloads[ai->d_overloadName];
-        Assert (ov.size()>=2);
-        Expr ret = getOverloadInternal(ov, children, nullptr, true);
+        Expr ret = getOverloadInternal(*ov, children, nullptr, true);
         if (!ret.isNull())
         {
           Trace("overload") << "...found overload " << ret << std::endl;
@@ -828,7 +827,6 @@ Expr State::mkExpr(Kind k, const std::vector<Expr>& children)
     if (vchildren.size()==2)
     {
       Trace("overload") << "process eo::as " << children[0] << " " << children[1] << std::endl;
-      AppInfo* ai = getAppInfo(vchildren[0]);
       Expr ret = children[0];
       std::pair<std::vector<Expr>, Expr> ftype = children[1].getFunctionType();
       Expr reto;
@@ -839,13 +837,12 @@ Expr State::mkExpr(Kind k, const std::vector<Expr>& children)
       {
         dummyChildren.emplace_back(mkSymbol(Kind::CONST, "tmp", t));
       }
-      if (ai!=nullptr && ai->d_isOverloaded)
+      const std::vector<Expr>* ov = getOverloads(vchildren[0]);
+      if (ov != nullptr)
       {
         Trace("overload") << "...overloaded" << std::endl;
-        std::vector<Expr>& ov = d_overloads[ai->d_overloadName];
-        Assert (ov.size()>=2);
         reto = getOverloadInternal(
-            ov, dummyChildren, ftype.second.getValue(), false);
+            *ov, dummyChildren, ftype.second.getValue(), false);
       }
       else
       {
@@ -1298,9 +1295,13 @@ bool State::bind(const std::string& name, const Expr& e)
   {
     Trace("overload") << "** overload: " << name << std::endl;
     // if already bound, mark as overloaded
-    AppInfo& ain = d_appData[e.getValue()];
-    ain.d_isOverloaded = true;
-    ain.d_overloadName = name;
+    // (but not if e is another symbol, which keeps the overloads of its name)
+    if (!isSymbol(e.getKind()) || e.getSymbol() == name)
+    {
+      AppInfo& ain = d_appData[e.getValue()];
+      ain.d_isOverloaded = true;
+      ain.d_overloadName = name;
+    }
     std::vector<Expr>& ov = d_overloads[name];
     if (ov.empty())
     {
@@ -1800,6 +1801,23 @@ bool State::markConstructorKind(const Expr& v, Attr a, const Expr& cons)
   return true;
 }
 
+const std::vector<Expr>* State::getOverloads(const ExprValue* hd)
+{
+  AppInfo* ai = getAppInfo(hd);
+  if (ai == nullptr || !ai->d_isOverloaded)
+  {
+    return nullptr;
+  }
+  // hd may have been marked as overloaded in a scope that was popped
+  std::map<std::string, std::vector<Expr>>::const_iterator it =
+      d_overloads.find(ai->d_overloadName);
+  if (it == d_overloads.end() || it->second.back().getValue() != hd)
+  {
+    return nullptr;
+  }
+  return &it->second;
+}
+
 Expr State::getOverloadInternal(const std::vector<Expr>& overloads,
                                 const std::vector<Expr>& children,
                                 const ExprValue* retType,
diff --git a/src/state.h b/src/state.h
index d96a113..f024837 100644
--- a/src/state.h
+++ b/src/state.h
@@ -315,6 +315,11 @@ class State
                               const Expr& type);
   /** Make literal internal */
   ExprValue* mkLiteralInternal(Literal& l);
+  /**
+   * Get the overloads to consider when applying hd, or null if hd is not the
+   * most recent binding of an overloaded name.
+   */
+  const std::vector<Expr>* getOverloads(const ExprValue* hd);
   /**
    * Get overload internal. This determines which one of the operators
    * in overloads (if any) should be applied in the Kind::APPLY we are
-- 
2.43.0


From 100e8f5b239efd671888512300aaf1d163753de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:26 +0000
Subject: [PATCH 20/29] fix: double the quotes when printing string literals

---
 src/expr.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 9f32d9b..6faac5c 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -347,7 +347,15 @@ void Expr::printDebugInternal(const Expr& e,
                 os << "#b" << l->toString();
               }
               break;
-            case Kind::STRING:os << "\"" << l->toString() << "\"";break;
+            case Kind::STRING:
+              os << "\"";
+              for (char c : l->toString())
+              {
+                // quotes are doubled
+                os << (c == '"' ? "\"" : "") << c;
+              }
+              os << "\"";
+              break;
             case Kind::DECIMAL:
               // currently don't have a way to print decimals natively, just
               // use attribute
-- 
2.43.0


From 13bcbe91965a2faf1016deda73eb6eb502d02c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:26 +0000
Subject: [PATCH 21/29] fix: forget the types of literals on reset

---
 src/state.cpp        | 21 +++++++++++++++++++++
 src/type_checker.cpp |  8 ++++++++
 src/type_checker.h   |  2 ++
 3 files changed, 31 insertions(+)

diff --git a/src/state.cpp b/src/state.cpp
index ff9db83..6b71276 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -212,6 +212,27 @@ void State::reset()
   d_assumptionsDeclsCtx.clear();
   d_decls.clear();
   d_declsSizeCtx.clear();
+  // the types of literals are declared anew, forget those already computed
+  d_tc.clearLiteralTypeRules();
+  for (const std::pair<const Integer, Expr>& l : d_litIntMap)
+  {
+    d_typeCache.erase(l.second.getValue());
+  }
+  for (size_t i = 0; i < 2; i++)
+  {
+    for (const std::pair<const Rational, Expr>& l : d_litRatMap[i])
+    {
+      d_typeCache.erase(l.second.getValue());
+    }
+    for (const std::pair<const BitVector, Expr>& l : d_litBvMap[i])
+    {
+      d_typeCache.erase(l.second.getValue());
+    }
+  }
+  for (const std::pair<const String, Expr>& l : d_litStrMap)
+  {
+    d_typeCache.erase(l.second.getValue());
+  }
   if (d_plugin!=nullptr)
   {
     d_plugin->reset();
diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index 851d752..a4b5259 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -57,6 +57,14 @@ void TypeChecker::setLiteralTypeRule(Kind k, const Expr& t)
   it->second = t;
 }
 
+void TypeChecker::clearLiteralTypeRules()
+{
+  for (std::pair<const Kind, Expr>& r : d_literalTypeRules)
+  {
+    r.second = d_null;
+  }
+}
+
 Expr TypeChecker::getOrSetLiteralTypeRule(Kind k, ExprValue* self)
 {
   std::map<Kind, Expr>::iterator it = d_literalTypeRules.find(k);
diff --git a/src/type_checker.h b/src/type_checker.h
index 4f04b72..ab54d79 100644
--- a/src/type_checker.h
+++ b/src/type_checker.h
@@ -45,6 +45,8 @@ class TypeChecker
   static bool checkArity(Kind k, size_t nargs, std::ostream* out = nullptr);
   /** Set type rule for literal kind k to t */
   void setLiteralTypeRule(Kind k, const Expr& t);
+  /** Forget the types of all literal kinds */
+  void clearLiteralTypeRules();
   /**
    * Evaluate the expression e in the given context.
    */
-- 
2.43.0


From e2215e5237aed3b7532f65ed66bdbb2ed7999d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:09 +0000
Subject: [PATCH 22/29] fix: a minus sign must be followed by a digit in
 numeric literals

---
 src/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 37278ae..062b230 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -411,7 +411,7 @@ Token Lexer::tokenizeCurrentSymbol() const
           {
             continue;
           }
-          else if (i+1<tsize && ret==Token::INTEGER_LITERAL)
+          else if (i>1 && i+1<tsize && ret==Token::INTEGER_LITERAL)
           {
             if (d_token[i]=='.')
             {
-- 
2.43.0


From e7119d6a5fc08b29e846846e59535e8c32a02191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:27 +0000
Subject: [PATCH 23/29] fix: reject null characters within tokens

---
 src/lexer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 062b230..d5c3d25 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -8,6 +8,7 @@
  ******************************************************************************/
 #include "lexer.h"
 
+#include <algorithm>
 #include <cassert>
 #include <iostream>
 #include <sstream>
@@ -189,6 +190,11 @@ Token Lexer::nextTokenInternal()
 {
   d_token.clear();
   Token ret = computeNextToken();
+  // tokens are read as null terminated strings, hence they cannot contain null
+  if (std::find(d_token.begin(), d_token.end(), 0) != d_token.end())
+  {
+    parseError("Unexpected null character");
+  }
   // null terminate?
   d_token.push_back(0);
   return ret;
-- 
2.43.0


From 135b11d29c26a7908b56cd6fd913cc46f901c5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 24/29] fix: no crash for a premise list constructor without
 attributes

A step with no premises of a rule marked :premise-list dereferenced a null
pointer if the constructor had no attributes. It now reports that the
constructor has no nil element.
---
 src/state.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index 6b71276..851ed6e 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -1552,8 +1552,7 @@ bool State::notifyStep(const std::string& name,
       {
         // the nil terminator if applied to empty list
         AppInfo* aic = getAppInfo(plCons.getValue());
-        Attr ck = aic->d_attrCons;
-        if (isListNilAttr(ck))
+        if (aic != nullptr && isListNilAttr(aic->d_attrCons))
         {
           ap = aic->d_attrConsTerm;
         }
-- 
2.43.0


From 246b591781255bb6fb6e4c3ae7cf2352f2c6c830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:15 +0000
Subject: [PATCH 25/29] fix: reject arguments and premises of a nullary proof
 rule

The conclusion of a nullary rule was applied to the arguments or premises of
the step as if it were a program: a rule concluding the function p proved
(p a), and reporting other failures read past the end of a term.
---
 src/state.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/state.cpp b/src/state.cpp
index 851ed6e..876a8e0 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -1581,6 +1581,16 @@ bool State::notifyStep(const std::string& name,
     }
     if (children.size() > 1)
     {
+      // a rule that is not desugared to a program expects no arguments
+      if (children[0].getKind() != Kind::PROGRAM_CONST)
+      {
+        if (err)
+        {
+          (*err) << "Provided arguments or premises to a nullary rule"
+                 << std::endl;
+        }
+        return false;
+      }
       // evaluate the program app
       result = d_tc.evaluateProgramApp(children);
       // if error stream is provided, print details on the failure
-- 
2.43.0


From 0ac0be01566a180ab3654d2ba1e1e6ef0dec5250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 26/29] fix: builtin operators applied to no arguments no
 longer crash

---
 src/state.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index 876a8e0..33d6fde 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -690,6 +690,13 @@ Expr State::mkExpr(Kind k, const std::vector<Expr>& children)
       if (ai->d_kind!=Kind::NONE)
       {
         Trace("state-debug") << "Process builtin app " << ai->d_kind << std::endl;
+        if (children.size() == 1
+            && (ai->d_kind == Kind::FUNCTION_TYPE || ai->d_kind == Kind::APPLY))
+        {
+          // a bogus term, which will fail to type check
+          Warning() << "No arguments given to builtin " << ai->d_kind << std::endl;
+          return Expr(mkExprInternal(k, vchildren));
+        }
         if (ai->d_kind==Kind::FUNCTION_TYPE)
         {
           // functions (from parsing) are flattened here
@@ -831,12 +838,15 @@ Expr State::mkExpr(Kind k, const std::vector<Expr>& children)
   else if (k == Kind::AS_RETURN)
   {
     // (as nil (List Int)) --> (_ nil (List Int))
-    Attr ck = getConstructorKind(vchildren[0]);
-    if ((ck == Attr::AMB_DATATYPE_CONSTRUCTOR || ck == Attr::AMB)
-        && children.size() == 2)
+    if (children.size() == 2)
     {
-      Trace("overload") << "...type arg for ambiguous constructor" << std::endl;
-      return mkExpr(Kind::APPLY_OPAQUE, {children[0], children[1]});
+      Attr ck = getConstructorKind(vchildren[0]);
+      if (ck == Attr::AMB_DATATYPE_CONSTRUCTOR || ck == Attr::AMB)
+      {
+        Trace("overload") << "...type arg for ambiguous constructor"
+                          << std::endl;
+        return mkExpr(Kind::APPLY_OPAQUE, {children[0], children[1]});
+      }
     }
     // note we don't support other uses of `as` for symbol disambiguation yet,
     // we fallthrough and construct the bogus term of kind AS_RETURN.
-- 
2.43.0


From 09316892b824e0b108421b4af4e863b053773547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 27/29] fix: builtin operators with the wrong number of
 arguments in programs no longer crash

---
 src/type_checker.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index a4b5259..38c3421 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -1059,6 +1059,13 @@ Expr TypeChecker::evaluateLiteralOpInternal(
 {
   Assert (!args.empty());
   Trace("type_checker") << "EVALUATE-LIT " << k << " " << args << std::endl;
+  if (!checkArity(k, args.size()))
+  {
+    Warning() << "Wrong number of arguments when applying literal op " << k
+              << ", " << args.size() << " arguments (" << args << ")" << std::endl;
+    // does not evaluate if arity is wrong
+    return d_null;
+  }
   // special cases: ITE may evaluate if non-ground
   switch (k)
   {
@@ -1316,13 +1323,6 @@ Expr TypeChecker::evaluateLiteralOpInternal(
   // if all values, run the literal evaluator
   if (allValues)
   {
-    if (!checkArity(k, args.size()))
-    {
-      Warning() << "Wrong number of arguments when applying literal op " << k
-                << ", " << args.size() << " arguments (" << args << ")" << std::endl;
-      // does not evaluate if arity is wrong
-      return d_null;
-    }
     // evaluate
     Literal eval = Literal::evaluate(k, lits);
     if (eval.getKind()==Kind::NONE)
-- 
2.43.0


From cffa112287740971bc99ae736d926f5d8353d7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:44 +0000
Subject: [PATCH 28/29] fix: do not drop the character after a keyword of one
 letter

---
 src/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index d5c3d25..d69ded1 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -298,7 +298,7 @@ Token Lexer::computeNextToken()
       {
         parseError("Error expected symbol following :");
       }
-      parseNonEmptyCharList(CharacterClass::SYMBOL);
+      parseCharList(CharacterClass::SYMBOL);
       return Token::KEYWORD;
     default:
       if (isCharacterClass(ch, CharacterClass::DECIMAL_DIGIT))
-- 
2.43.0


From bca72d6bd3c5898c94d3e2fa982d125a074f8f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:49 +0000
Subject: [PATCH 29/29] fix: reject declare-datatypes with fewer bodies than
 names

---
 src/expr_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index 6b26697..41a37e7 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -826,7 +826,7 @@ bool ExprParser::parseDatatypesDef(
     tok = d_lex.nextToken();
     i++;
   }
-  if (dtlist.size() != dnames.size())
+  if (i != dnames.size())
   {
     d_lex.unexpectedTokenError(tok, "Wrong number of datatypes provided.");
   }
-- 
2.43.0

