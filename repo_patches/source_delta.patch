From f3eb4297911a13fb804eb212dbd8c69660ab1505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:09 +0000
Subject: [PATCH 01/47] fix: eo::extract of a bit-vector reached one bit past
 the end

---
 src/literal.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/literal.cpp b/src/literal.cpp
index 8d22580..bc4e5b1 100644
--- a/src/literal.cpp
+++ b/src/literal.cpp
@@ -356,14 +356,14 @@ Literal Literal::evaluate(Kind k, const std::vector<const Literal*>& args)
           case Kind::BINARY:
           {
             Integer dsize(args[0]->d_bv.getSize());
-            if (i1.sgn()<0 || i2.sgn()<0 || i1>dsize || dsize.sgn()==0)
+            if (i1.sgn()<0 || i2.sgn()<0 || i1>=dsize || dsize.sgn()==0)
             {
               return Literal(ka, BitVector(0));
             }
             Assert (i1.fitsUnsignedInt() && dsize.fitsUnsignedInt());
             uint32_t v1 = i1.toUnsignedInt();
             uint32_t vs = dsize.toUnsignedInt();
-            uint32_t v2 = i2>dsize ? vs-1 : i2.toUnsignedInt();
+            uint32_t v2 = i2>=dsize ? vs-1 : i2.toUnsignedInt();
             if (v1>v2)
             {
               return Literal(ka, BitVector(0));
-- 
2.43.0


From 165f3398c8655dcf9b1e34e37c47bb1af8235ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:09 +0000
Subject: [PATCH 02/47] fix: eo::to_str of a numeral that is not a code point
 does not evaluate

---
 src/literal.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/literal.cpp b/src/literal.cpp
index bc4e5b1..c10fd82 100644
--- a/src/literal.cpp
+++ b/src/literal.cpp
@@ -451,6 +451,7 @@ Literal Literal::evaluate(Kind k, const std::vector<const Literal*>& args)
             }
           }
         }
+          break;
         case Kind::RATIONAL:return Literal(String(args[0]->toString()));
         case Kind::HEXADECIMAL:return Literal(String("#x" + args[0]->toString()));
         case Kind::BINARY:return Literal(String("#b" + args[0]->toString()));
-- 
2.43.0


From d28c55c43bf33cc5f103ab6c5922c27c8ccba0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:09 +0000
Subject: [PATCH 03/47] fix: eo::to_bin of a negative numeral does not evaluate

---
 src/literal.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/literal.cpp b/src/literal.cpp
index c10fd82..106caaa 100644
--- a/src/literal.cpp
+++ b/src/literal.cpp
@@ -426,7 +426,12 @@ Literal Literal::evaluate(Kind k, const std::vector<const Literal*>& args)
         uint32_t size = args[0]->d_int.toUnsignedInt();
         switch (args[1]->d_kind)
         {
-          case Kind::NUMERAL:return Literal(Kind::BINARY, BitVector(size, args[1]->d_int));
+          case Kind::NUMERAL:
+            if (args[1]->d_int.sgn()<0)
+            {
+              break;
+            }
+            return Literal(Kind::BINARY, BitVector(size, args[1]->d_int));
           case Kind::HEXADECIMAL:
           case Kind::BINARY:return Literal(Kind::BINARY, BitVector(size, args[1]->d_bv.getValue()));
           default: break;
-- 
2.43.0


From 1c30ad18d87caabf76d7f6589a409188a8f0f440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:09 +0000
Subject: [PATCH 04/47] fix: hexadecimal literals keep their leading zeroes
 when printed

---
 src/util/bitvector.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/util/bitvector.cpp b/src/util/bitvector.cpp
index 69f8541..fb44314 100644
--- a/src/util/bitvector.cpp
+++ b/src/util/bitvector.cpp
@@ -36,10 +36,13 @@ Integer BitVector::toInteger() const { return d_value; }
 std::string BitVector::toString(unsigned int base) const
 {
   std::string str = d_value.toString(base);
-  if (base == 2 && d_size > str.size())
+  // the number of digits of a value of this size
+  unsigned int ndigits =
+      base == 2 ? d_size : (base == 16 ? (d_size + 3) / 4 : 0);
+  if (ndigits > str.size())
   {
     std::string zeroes;
-    for (unsigned int i = 0; i < d_size - str.size(); ++i)
+    for (unsigned int i = 0; i < ndigits - str.size(); ++i)
     {
       zeroes.append("0");
     }
-- 
2.43.0


From f50a579da2968c886c113e169c244109020e3ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:09 +0000
Subject: [PATCH 05/47] fix: a one-letter keyword swallowed the character after
 it

---
 src/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 37278ae..9f97694 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -292,7 +292,7 @@ Token Lexer::computeNextToken()
       {
         parseError("Error expected symbol following :");
       }
-      parseNonEmptyCharList(CharacterClass::SYMBOL);
+      parseCharList(CharacterClass::SYMBOL);
       return Token::KEYWORD;
     default:
       if (isCharacterClass(ch, CharacterClass::DECIMAL_DIGIT))
-- 
2.43.0


From 10a5a5e42423f3e45f52bf858248a307d1927e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:09 +0000
Subject: [PATCH 06/47] fix: byte 0xff does not end the input

---
 src/lexer.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lexer.h b/src/lexer.h
index 30122c8..1463390 100644
--- a/src/lexer.h
+++ b/src/lexer.h
@@ -92,7 +92,8 @@ class Lexer
   {
     if (d_bufferPos < d_bufferEnd)
     {
-      d_ch = d_buffer[d_bufferPos];
+      // cast so that byte 0xff is not taken for EOF
+      d_ch = static_cast<unsigned char>(d_buffer[d_bufferPos]);
       d_bufferPos++;
     }
     else if (d_isInteractive)
@@ -110,7 +111,7 @@ class Lexer
       }
       else
       {
-        d_ch = d_buffer[0];
+        d_ch = static_cast<unsigned char>(d_buffer[0]);
         d_bufferPos = 1;
       }
     }
-- 
2.43.0


From 1c26005383d9d86b8b1392588ddc94530b3bda0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:09 +0000
Subject: [PATCH 07/47] fix: -/5 is not a rational literal

---
 src/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 9f97694..38a286e 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -411,7 +411,7 @@ Token Lexer::tokenizeCurrentSymbol() const
           {
             continue;
           }
-          else if (i+1<tsize && ret==Token::INTEGER_LITERAL)
+          else if (i>1 && i+1<tsize && ret==Token::INTEGER_LITERAL)
           {
             if (d_token[i]=='.')
             {
-- 
2.43.0


From 610a9d52942f8a3c338fc43939beb4e0c901450f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:53 +0000
Subject: [PATCH 08/47] fix: including a file must not disable the reference
 check of assumptions

---
 src/main.cpp  | 4 ++++
 src/state.cpp | 8 ++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index dff12d3..d449e8b 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -149,6 +149,10 @@ int main( int argc, char* argv[] )
   {
     std::string file = includes[i].first;
     bool isInclude = includes[i].second;
+    if (!isInclude && s.hasReference())
+    {
+      EO_FATAL() << "Error: cannot use more than one reference";
+    }
     // cannot provide reference
     Expr refNf;
     if (!s.includeFile(file, isInclude, !isInclude, refNf))
diff --git a/src/state.cpp b/src/state.cpp
index 39a984e..0dab780 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -307,8 +307,12 @@ bool State::includeFile(const std::string& s, bool isSignature, bool isReference
     return true;
   }
   Assert (!isReference || !d_hasReference);
-  d_hasReference = isReference;
-  d_referenceNf = referenceNf;
+  if (isReference)
+  {
+    // a reference stays in force for all files that are read after it
+    d_hasReference = true;
+    d_referenceNf = referenceNf;
+  }
   Filepath currentPath = d_inputFile;
   d_inputFile = inputPath;
   if (d_plugin!=nullptr)
-- 
2.43.0


From b22bd931fdd4335a6f9d9c1540605ba767a6aac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:53 +0000
Subject: [PATCH 09/47] fix: a file that was already included cannot silently
 serve as reference

---
 src/state.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/state.cpp b/src/state.cpp
index 0dab780..b37070d 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -304,7 +304,8 @@ bool State::includeFile(const std::string& s, bool isSignature, bool isReference
 
   if (!markIncluded(inputPath))
   {
-    return true;
+    // cannot be used as the reference if its commands were not read as such
+    return !isReference;
   }
   Assert (!isReference || !d_hasReference);
   if (isReference)
-- 
2.43.0


From 3c63ee2774f87b4dd4d9b046e4cdfb5a49c42beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:26 +0000
Subject: [PATCH 10/47] fix: assumptions in a local scope must be part of the
 reference too

---
 src/cmd_parser.cpp | 2 +-
 src/state.cpp      | 7 ++++---
 src/state.h        | 2 +-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/cmd_parser.cpp b/src/cmd_parser.cpp
index b0dc1ed..0360c3d 100644
--- a/src/cmd_parser.cpp
+++ b/src/cmd_parser.cpp
@@ -117,7 +117,7 @@ bool CmdParser::parseNextCommand()
       // bind the assumption to (pf <proven>).
       Expr pt = d_state.mkProof(proven);
       d_eparser.bind(name, pt);
-      if (!d_state.addAssumption(proven))
+      if (!d_state.addAssumption(proven, tok == Token::ASSUME_PUSH))
       {
         std::stringstream ss;
         ss << "The assumption " << name << " was not part of the referenced assertions";
diff --git a/src/state.cpp b/src/state.cpp
index b37070d..d524b86 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -454,13 +454,14 @@ void State::markDeleted(ExprValue* e)
   d_inGarbageCollection = false;
 }
 
-bool State::addAssumption(const Expr& a)
+bool State::addAssumption(const Expr& a, bool isPush)
 {
   d_assumptions.push_back(a);
   if (d_hasReference)
   {
-    // only care if at assumption level zero
-    if (d_assumptionsSizeCtx.empty())
+    // pushed assumptions are discharged by step-pop, all others must be part
+    // of the reference, no matter in which scope they are
+    if (!isPush)
     {
       Expr aa = a;
       if (!d_referenceNf.isNull())
diff --git a/src/state.h b/src/state.h
index 7174e27..a3683df 100644
--- a/src/state.h
+++ b/src/state.h
@@ -74,7 +74,7 @@ class State
   /** include file, possibly as a reference */
   bool includeFile(const std::string& s, bool isSignature, bool isReference, const Expr& referenceNf);
   /** add assumption */
-  bool addAssumption(const Expr& a);
+  bool addAssumption(const Expr& a, bool isPush = false);
   /** add reference assert */
   void addReferenceAssert(const Expr& a);
   /** Set type rule for literal kind k to t */
-- 
2.43.0


From ea24de6d0f443da80ebe3422e72d3c1b3da0d470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:44 +0000
Subject: [PATCH 11/47] fix: pushed scopes must not keep a local assumption
 alive after step-pop

---
 src/state.cpp | 17 +++++++++++++++--
 src/state.h   |  2 ++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index d524b86..04f5493 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -201,6 +201,7 @@ void State::reset()
   d_symTable.clear();
   d_assumptions.clear();
   d_assumptionsSizeCtx.clear();
+  d_assumptionsScopeCtx.clear();
   d_decls.clear();
   d_declsSizeCtx.clear();
   if (d_plugin!=nullptr)
@@ -228,6 +229,12 @@ void State::popScope()
   {
     EO_FATAL() << "State::popScope: empty context";
   }
+  if (!d_assumptionsScopeCtx.empty()
+      && d_declsSizeCtx.size() == d_assumptionsScopeCtx.back() + 1)
+  {
+    // the scope of an assumption is left with step-pop only
+    EO_FATAL() << "Error: cannot pop the scope of a local assumption";
+  }
   size_t lastSize = d_declsSizeCtx.back();
   d_declsSizeCtx.pop_back();
   size_t i = d_decls.size();
@@ -264,6 +271,7 @@ void State::popScope()
 void State::pushAssumptionScope()
 {
   // push scope
+  d_assumptionsScopeCtx.push_back(d_declsSizeCtx.size());
   pushScope();
   // remember assumption size
   d_assumptionsSizeCtx.push_back(d_assumptions.size());
@@ -275,8 +283,13 @@ void State::popAssumptionScope()
   size_t lastSize = d_assumptionsSizeCtx.back();
   d_assumptionsSizeCtx.pop_back();
   d_assumptions.resize(lastSize);
-  // pop the parsing scope
-  popScope();
+  // pop the parsing scope, and those the user pushed inside of it
+  size_t nscopes = d_assumptionsScopeCtx.back();
+  d_assumptionsScopeCtx.pop_back();
+  while (d_declsSizeCtx.size() > nscopes)
+  {
+    popScope();
+  }
 }
 bool State::includeFile(const std::string& s, bool isSignature)
 {
diff --git a/src/state.h b/src/state.h
index a3683df..c307b7e 100644
--- a/src/state.h
+++ b/src/state.h
@@ -371,6 +371,8 @@ class State
   std::vector<Expr> d_assumptions;
   /** Context size */
   std::vector<size_t> d_assumptionsSizeCtx;
+  /** The number of scopes that were open when each assumption scope was pushed */
+  std::vector<size_t> d_assumptionsScopeCtx;
   //--------------------- expression info
   /** Map from expressions to constructor info */
   std::map<const ExprValue*, AppInfo> d_appData;
-- 
2.43.0


From c17dd5ddb6dab828cbdfb5c05653c29a6a0d3e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:08 +0000
Subject: [PATCH 12/47] fix: input from stdin must close its local assumptions

---
 src/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index d449e8b..980111d 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -180,6 +180,10 @@ int main( int argc, char* argv[] )
     while (p.parseNextCommand())
     {
     }
+    if (s.getAssumptionLevel() != 0)
+    {
+      EO_FATAL() << "Error: the input did not preserve assumption scope.";
+    }
   }
   else
   {
-- 
2.43.0


From 6e233434637571bc30e31837a8edb873b2a53458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:08 +0000
Subject: [PATCH 13/47] fix: double quotes in printed string literals are
 doubled

---
 src/expr.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 9f32d9b..7a725af 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -347,7 +347,15 @@ void Expr::printDebugInternal(const Expr& e,
                 os << "#b" << l->toString();
               }
               break;
-            case Kind::STRING:os << "\"" << l->toString() << "\"";break;
+            case Kind::STRING:
+              os << "\"";
+              for (char c : l->toString())
+              {
+                // a double quote is written twice in a string literal
+                os << (c == '"' ? "\"\"" : std::string(1, c));
+              }
+              os << "\"";
+              break;
             case Kind::DECIMAL:
               // currently don't have a way to print decimals natively, just
               // use attribute
-- 
2.43.0


From 7061b4a3dd3bd52980d8742922e02d7130502e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:16 +0000
Subject: [PATCH 14/47] fix: null characters in quoted symbols and strings are
 diagnosed

---
 src/lexer.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lexer.h b/src/lexer.h
index 1463390..70ba97e 100644
--- a/src/lexer.h
+++ b/src/lexer.h
@@ -205,6 +205,11 @@ class Lexer
   void pushToToken(int32_t ch)
   {
     Assert(ch != EOF);
+    if (ch == 0)
+    {
+      // tokens are null terminated
+      parseError("Unexpected null character");
+    }
     d_token.push_back(static_cast<char>(ch));
   }
   //----------- Utilities for parsing the current character stream
-- 
2.43.0


From acfc22f22de0ebdacfae6ad98e33f50fa900e169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:18 +0000
Subject: [PATCH 15/47] fix: unprintable characters in string literals are not
 dropped silently

---
 src/util/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/string.cpp b/src/util/string.cpp
index acfb368..914134e 100644
--- a/src/util/string.cpp
+++ b/src/util/string.cpp
@@ -60,7 +60,7 @@ void String::addCharToInternal(unsigned char ch, std::vector<unsigned>& str)
     std::stringstream serr;
     serr << "Illegal string character: \"" << ch
          << "\", must use escape sequence";
-    //throw cvc5::internal::Exception(serr.str());
+    EO_FATAL() << serr.str();
   }
   else
   {
-- 
2.43.0


From 286085d06d24fbdacc3e0375d6acac489db63e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:50 +0000
Subject: [PATCH 16/47] fix: deleting a term must not remove terms that extend
 its children

---
 src/expr_trie.h | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/expr_trie.h b/src/expr_trie.h
index d912c01..e82fba9 100644
--- a/src/expr_trie.h
+++ b/src/expr_trie.h
@@ -45,25 +45,22 @@ public:
     for (ExprValue* e : children)
     {
       itet = et->d_children.find(e);
-      if (etd == nullptr)
+      Assert (itet!=et->d_children.end());
+      if (etd == nullptr || et->d_children.size() > 1 || et->d_data != nullptr)
       {
-        // etd is the candidate trie to delete from
+        // etd is the deepest node known to be used by another expression
         etd = et;
         itetd = itet;
       }
-      Assert (itet!=et->d_children.end());
-      if (et->d_children.size() > 1)
-      {
-        etd = nullptr;
-      }
       et = &itet->second;
     }
-    // delete the subtree for which et->d_data occurs in a single path
-    if (etd!=nullptr)
+    et->d_data = nullptr;
+    // delete the subtree for which et->d_data occurs in a single path, unless
+    // it also stores expressions whose children extend the given ones
+    if (etd!=nullptr && et->d_children.empty())
     {
       etd->d_children.erase(itetd);
     }
-    et->d_data = nullptr;
   }
 };
 
-- 
2.43.0


From 4956d39a8f25f87955e1599724819dce769a34c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:45 +0000
Subject: [PATCH 17/47] fix: rules declared in a pushed scope are unbound when
 it is popped

---
 src/state.cpp | 15 +++++++++++++--
 src/state.h   |  5 +++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index 04f5493..e692f49 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -204,6 +204,7 @@ void State::reset()
   d_assumptionsScopeCtx.clear();
   d_decls.clear();
   d_declsSizeCtx.clear();
+  d_ruleDecls.clear();
   if (d_plugin!=nullptr)
   {
     d_plugin->reset();
@@ -266,6 +267,13 @@ void State::popScope()
     d_symTable.erase(d_decls[i]);
   }
   d_decls.resize(lastSize);
+  // unbind the rules that were declared in the scope
+  while (!d_ruleDecls.empty()
+         && d_ruleDecls.back().first > d_declsSizeCtx.size())
+  {
+    d_ruleSymTable.erase(d_ruleDecls.back().second);
+    d_ruleDecls.pop_back();
+  }
 }
 
 void State::pushAssumptionScope()
@@ -1277,13 +1285,16 @@ bool State::bind(const std::string& name, const Expr& e)
   // if using a separate symbol table for rules
   if (d_opts.d_ruleSymTable && e.getKind() == Kind::PROOF_RULE)
   {
-    // don't bind at non-global scope
-    Assert (d_declsSizeCtx.empty());
     if (d_ruleSymTable.find(name)!=d_ruleSymTable.end())
     {
       return false;
     }
     d_ruleSymTable[name] = e;
+    // only have to remember if not at global scope
+    if (!d_declsSizeCtx.empty())
+    {
+      d_ruleDecls.emplace_back(d_declsSizeCtx.size(), name);
+    }
     return true;
   }
   // otherwise use the main symbol table
diff --git a/src/state.h b/src/state.h
index c307b7e..1f639e0 100644
--- a/src/state.h
+++ b/src/state.h
@@ -367,6 +367,11 @@ class State
    * current pushScope was called.
    */
   std::vector<size_t> d_declsSizeCtx;
+  /**
+   * The rules bound in the separate symbol table for proof rules at non-global
+   * scope, where each is paired with the number of scopes that were open.
+   */
+  std::vector<std::pair<size_t, std::string>> d_ruleDecls;
   /** All free assumptions */
   std::vector<Expr> d_assumptions;
   /** Context size */
-- 
2.43.0


From 598b5d275e94e333c104f48c422e9beba4dceb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:22 +0000
Subject: [PATCH 18/47] fix: popping a scope restores how its terms were marked
 as overloads

---
 src/state.cpp | 13 ++++++++++---
 src/state.h   |  4 +++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index e692f49..9eca7ea 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -244,8 +244,10 @@ void State::popScope()
     i--;
     // Check if overloaded, which is the case if the last overloaded
     // declaration had the same name.
-    if (!d_overloadedDecls.empty() && d_overloadedDecls.back()==d_decls[i])
+    if (!d_overloadedDecls.empty()
+        && d_overloadedDecls.back().first == d_decls[i])
     {
+      std::string prevName = d_overloadedDecls.back().second;
       d_overloadedDecls.pop_back();
       std::map<std::string, Expr>::iterator its = d_symTable.find(d_decls[i]);
       Assert (its!=d_symTable.end());
@@ -253,7 +255,11 @@ void State::popScope()
       std::vector<Expr>& ov = d_overloads[d_decls[i]];
       // we always have at least 2 overloads
       Assert (ov.size()>=2);
-      // was overloaded, we revert the binding
+      // was overloaded, we revert the binding, and how the term was marked
+      AppInfo* ain = getAppInfo(ov.back().getValue());
+      Assert (ain!=nullptr);
+      ain->d_isOverloaded = !prevName.empty();
+      ain->d_overloadName = prevName;
       ov.pop_back();
       Expr tmp = ov.back();
       its->second = tmp;
@@ -1304,6 +1310,7 @@ bool State::bind(const std::string& name, const Expr& e)
     Trace("overload") << "** overload: " << name << std::endl;
     // if already bound, mark as overloaded
     AppInfo& ain = d_appData[e.getValue()];
+    std::string prevName = ain.d_overloadName;
     ain.d_isOverloaded = true;
     ain.d_overloadName = name;
     std::vector<Expr>& ov = d_overloads[name];
@@ -1316,7 +1323,7 @@ bool State::bind(const std::string& name, const Expr& e)
     // add to declaration
     if (!d_declsSizeCtx.empty())
     {
-      d_overloadedDecls.emplace_back(name);
+      d_overloadedDecls.emplace_back(name, prevName);
     }
   }
   // Trace("state-debug") << "bind " << name << " -> " << &e << std::endl;
diff --git a/src/state.h b/src/state.h
index 1f639e0..587aa79 100644
--- a/src/state.h
+++ b/src/state.h
@@ -355,8 +355,10 @@ class State
    *   d_decls = { "A", "B", "A", "C", "A", "B" }
    * then
    *   d_overloadedDecls = { "A", "A", "B" }.
+   * Each is paired with the name that its term was an overload of before, or
+   * the empty string if there was none.
    */
-  std::vector<std::string> d_overloadedDecls;
+  std::vector<std::pair<std::string, std::string>> d_overloadedDecls;
   /**
    * Maps symbols that are bound to >= 2 terms to the list of all terms bound
    * to that symbol. Each vector in the range of this map has size >=2.
-- 
2.43.0


From 11fb51dd5c387acff8b2a0d2441f6c6ee7ab8eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:53 +0000
Subject: [PATCH 19/47] fix: applications of overloaded definitions are
 expanded

---
 src/state.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/state.cpp b/src/state.cpp
index 9eca7ea..eece637 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -1848,6 +1848,20 @@ Expr State::getOverloadInternal(const std::vector<Expr>& overloads,
     {
       Trace("overload") << "...return success" << std::endl;
       // return the operator, do not check the remainder
+      if (retApply && hd->getKind() == Kind::LAMBDA)
+      {
+        const std::vector<ExprValue*>& vars = (*hd)[0]->getChildren();
+        if (vars.size() == vchildren.size() - 1)
+        {
+          // definitions are beta-reduced
+          Ctx ctx;
+          for (size_t j = 0, nvars = vars.size(); j < nvars; j++)
+          {
+            ctx[vars[j]] = vchildren[j + 1];
+          }
+          return d_tc.evaluate((*hd)[1], ctx);
+        }
+      }
       return retApply ? x : overloads[ii];
     }
   }
-- 
2.43.0


From 8afd64fcc6661ee59eb1e5f2ea8bea3e60db5521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:42 +0000
Subject: [PATCH 20/47] fix: list operators keep the order of the elements of
 left associative lists

---
 src/type_checker.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index 25de2f5..01c516f 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -1026,11 +1026,12 @@ Expr TypeChecker::prependNAryChildren(ExprValue* op,
   // note we take the tail verbatim
   if (isLeft)
   {
+    // the children are in the order of getNAryChildren, i.e. outermost first
     ExprValue* c1;
-    for (auto it = hargs.begin(); it != hargs.end(); ++it)
+    for (auto rit = hargs.rbegin(); rit != hargs.rend(); ++rit)
     {
       c1 = d_state.mkExprInternal(Kind::APPLY, {op, ret});
-      ret = d_state.mkExprInternal(Kind::APPLY, {c1, *it});
+      ret = d_state.mkExprInternal(Kind::APPLY, {c1, *rit});
     }
   }
   else
-- 
2.43.0


From 6202cacd6b828b7ac1601608aea3d76e71a697b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:03 +0000
Subject: [PATCH 21/47] fix: steps with wrong numbers of arguments and premises
 are rejected

An application of a nullary rule to arguments failed an internal check, and
the assumption of a step-pop could be matched with an argument pattern when a
premise was given in the place of an argument.
---
 src/state.cpp | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/state.cpp b/src/state.cpp
index eece637..835a524 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -1469,6 +1469,40 @@ bool State::notifyStep(const std::string& name,
     }
     bool isAssume = tupleVal[1]==d_true;
     bool isConcExplicit = tupleVal[2]==d_true;
+    // The numbers of arguments and premises must be the expected ones. Terms to
+    // be matched with arguments may also be given as premises, but not if this
+    // moves them to the place of the explicit conclusion or the assumption.
+    size_t nargs = 0;
+    size_t npremises = 0;
+    Expr prog = getProgram(tupleVal[3].getValue());
+    if (!prog.isNull())
+    {
+      Expr pat = prog[0][0];
+      for (size_t i = 1, nchild = pat.getNumChildren(); i < nchild; i++)
+      {
+        // exactly the patterns for premises are proofs
+        (pat[i].getKind() == Kind::PROOF ? npremises : nargs)++;
+      }
+      nargs -= (isAssume ? 1 : 0) + (isConcExplicit ? 1 : 0);
+    }
+    bool checkArgs = isAssume || isConcExplicit;
+    size_t nprovided = plCons.isNull() ? premises.size() : 1;
+    if (args.size() + nprovided != nargs + npremises
+        || (checkArgs && args.size() != nargs))
+    {
+      if (err)
+      {
+        (*err) << "Expected " << nargs << " arguments";
+        if (plCons.isNull())
+        {
+          (*err) << " and " << npremises << " premises";
+        }
+        (*err) << std::endl;
+        (*err) << "Provided args: " << args << std::endl;
+        (*err) << "Provided premises: " << premises << std::endl;
+      }
+      return false;
+    }
     if (isConcExplicit)
     {
       if (proven.isNull())
-- 
2.43.0


From 3ea4b158f9476edd9e91c3897333c6f074a160cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:40 +0000
Subject: [PATCH 22/47] fix: unexpected keywords in a step are diagnosed

---
 src/cmd_parser.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/cmd_parser.cpp b/src/cmd_parser.cpp
index 0360c3d..128817e 100644
--- a/src/cmd_parser.cpp
+++ b/src/cmd_parser.cpp
@@ -902,24 +902,31 @@ bool CmdParser::parseNextCommand()
         RuleStat::start(d_sts);
       }
       // parse premises, optionally
-      if (d_lex.peekToken()==Token::KEYWORD)
+      bool hasKeyword = d_lex.peekToken() == Token::KEYWORD;
+      if (hasKeyword)
       {
         keyword = d_eparser.parseKeyword();
       }
       std::vector<Expr> premises;
-      if (keyword=="premises")
+      if (hasKeyword && keyword=="premises")
       {
         premises = d_eparser.parseExprList();
-        if (d_lex.peekToken()==Token::KEYWORD)
+        hasKeyword = d_lex.peekToken() == Token::KEYWORD;
+        if (hasKeyword)
         {
           keyword = d_eparser.parseKeyword();
         }
       }
       // parse args, optionally
       std::vector<Expr> args;
-      if (keyword=="args")
+      if (hasKeyword && keyword=="args")
       {
         args = d_eparser.parseExprList();
+        hasKeyword = false;
+      }
+      if (hasKeyword)
+      {
+        d_lex.parseError("Unexpected keyword in step");
       }
       // compute the conclusion of the proof rule
       Expr concTerm;
-- 
2.43.0


From c6ddf867fa6dd5b3069e7ed1d9e067be41c2dc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:51 +0000
Subject: [PATCH 23/47] fix: reporting an open assumption of an included file
 with further open scopes

---
 src/state.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index 835a524..1496c68 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -362,11 +362,14 @@ bool State::includeFile(const std::string& s, bool isSignature, bool isReference
   Trace("state") << "...finished" << std::endl;
   if (getAssumptionLevel()!=0)
   {
-    Assert(!d_declsSizeCtx.empty() && d_declsSizeCtx.back() < d_decls.size());
+    // the scope of the assumption, where others may be open inside of it
+    size_t scope = d_assumptionsScopeCtx.back();
+    Assert(scope < d_declsSizeCtx.size()
+           && d_declsSizeCtx[scope] < d_decls.size());
     EO_FATAL() << "Including file " << inputPath.getRawPath()
                << " did not preserve assumption scope. The most recent open "
                   "assumption was "
-               << d_decls[d_declsSizeCtx.back()] << ".";
+               << d_decls[d_declsSizeCtx[scope]] << ".";
   }
   if (d_plugin != nullptr)
   {
-- 
2.43.0


From fe12ebc74e7f6466d028cb1ca921e13c4cb5ea68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:31 +0000
Subject: [PATCH 24/47] fix: a closing parenthesis without a term must not read
 from an empty stack

---
 src/expr_parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index 6b26697..1cdff4e 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -236,13 +236,13 @@ Expr ExprParser::parseExpr()
       // ------------------- close paren
       case Token::RPAREN:
       {
-        StackFrame& sf = pstack.back();
         // should only be here if we are expecting arguments
-        if (pstack.empty() || sf.d_ctx != ParseCtx::NEXT_ARG)
+        if (pstack.empty() || pstack.back().d_ctx != ParseCtx::NEXT_ARG)
         {
           d_lex.unexpectedTokenError(
               tok, "Mismatched parentheses in SMT-LIBv2 term");
         }
+        StackFrame& sf = pstack.back();
         // Construct the application term specified by tstack.back()
         ret = d_state.mkExpr(Kind::APPLY, sf.d_args);
         //typeCheck(ret);
-- 
2.43.0


From 8fe4e54859850b3c5717f744d41e2db669825846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:31 +0000
Subject: [PATCH 25/47] fix: ground bodies of programs are evaluated when
 called from another evaluation

---
 src/type_checker.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index 01c516f..3df90a8 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -692,10 +692,14 @@ Expr TypeChecker::evaluate(ExprValue* e, Ctx& ctx)
                 // see if we evaluate
                 evaluated = evaluateProgramInternal(cchildren, newCtx);
                 //std::cout << "Evaluate prog returned " << evaluated << std::endl;
-                if (evaluated.isNull() || evaluated.isGround() || newCtx.empty())
+                if (evaluated.isNull()
+                    || (!evaluated.isEvaluatable()
+                        && (evaluated.isGround() || newCtx.empty())))
                 {
                   // if the evaluation can be shortcircuited, don't need to
-                  // push a context
+                  // push a context. Note that ground bodies may be
+                  // evaluatable, e.g. if they apply a program that was not
+                  // defined yet when they were parsed.
                   // store the base evaluation (if applicable)
                   et->d_data = evaluated.getValue();
                 }
-- 
2.43.0


From 693d9682c11f119f56b30f48962cacc5ef210727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:24 +0000
Subject: [PATCH 26/47] fix: define-fun of a reference binds variables and
 requires lambda to be a binder

---
 src/cmd_parser.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cmd_parser.cpp b/src/cmd_parser.cpp
index 128817e..c9b68a9 100644
--- a/src/cmd_parser.cpp
+++ b/src/cmd_parser.cpp
@@ -577,8 +577,9 @@ bool CmdParser::parseNextCommand()
       std::vector<Expr> impls;
       std::vector<Expr> opaques;
       std::map<ExprValue*, AttrMap> pattrMap;
-      std::vector<Expr> vars =
-          d_eparser.parseAndBindSortedVarList(Kind::LAMBDA, pattrMap);
+      // the arguments of define-fun are bound variables of its definition
+      std::vector<Expr> vars = d_eparser.parseAndBindSortedVarList(
+          tok == Token::DEFINE_FUN ? Kind::NONE : Kind::LAMBDA, pattrMap);
       if (vars.size() < pattrMap.size())
       {
         // If there were implicit variables, we go back and refine what is
@@ -628,6 +629,10 @@ bool CmdParser::parseNextCommand()
           {
             d_lex.parseError("Expected symbol 'lambda' to be defined when parsing define-fun.");
           }
+          if (d_state.getConstructorKind(lambda.getValue()) != Attr::BINDER)
+          {
+            d_lex.parseError("Expected symbol 'lambda' to be a binder when parsing define-fun.");
+          }
           Expr bvl = d_state.mkBinderList(lambda.getValue(), vars);
           rhs = d_state.mkExpr(Kind::APPLY, {lambda, bvl, rhs});
           std::vector<Expr> types;
-- 
2.43.0


From af3d09dd343a92d13ce3f0c52af31e590e96f876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:24 +0000
Subject: [PATCH 27/47] fix: calls of programs that are only declared do not
 evaluate

---
 src/type_checker.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index 3df90a8..2ca0afa 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -903,7 +903,7 @@ Expr TypeChecker::evaluateProgramInternal(
     RuleStat* ps = &d_sts.d_pstats[hd];
     ps->d_count++;
   }
-  Assert(!prog.isNull());
+  // it has no definition (yet) if it was only forward declared
   if (!prog.isNull())
   {
     Trace("type_checker") << "INTERPRET program " << children << std::endl;
-- 
2.43.0


From 7dc0c95a094309b79a9438228794fdde6dd31c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:26 +0000
Subject: [PATCH 28/47] fix: rules of popped scopes must not be confused with
 later ones in the verdict

---
 src/state.cpp | 9 ++++++++-
 src/state.h   | 2 ++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/state.cpp b/src/state.cpp
index 1496c68..df867f2 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -627,7 +627,14 @@ Expr State::mkBuiltinType(Kind k)
 
 Expr State::mkSymbol(Kind k, const std::string& name, const Expr& type)
 {
-  return Expr(mkSymbolInternal(k, name, type));
+  Expr sym(mkSymbolInternal(k, name, type));
+  if (k == Kind::PROOF_RULE || k == Kind::PROGRAM_CONST)
+  {
+    // the statistics and the verdict refer to rules and programs by address,
+    // which must not be reused when their scope is popped
+    d_rulesAndPrograms.push_back(sym);
+  }
+  return sym;
 }
 
 Expr State::mkSelf() const { return d_self; }
diff --git a/src/state.h b/src/state.h
index 587aa79..5a9d6f8 100644
--- a/src/state.h
+++ b/src/state.h
@@ -405,6 +405,8 @@ class State
   Filepath d_inputFile;
   /** The proof rules marked :sorry */
   std::unordered_set<const ExprValue*> d_pfrSorry;
+  /** All proof rules and programs, which are never deleted */
+  std::vector<Expr> d_rulesAndPrograms;
   /** Cache of files included */
   std::set<Filepath> d_includes;
   /** Have we parsed a reference file to check assumptions? */
-- 
2.43.0


From 5f3eef1962e460e2f17fdffc943daad39d4aba23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:43 +0000
Subject: [PATCH 29/47] fix: the hash of a term must not change when it is
 deleted and built again

---
 src/state.cpp | 2 ++
 src/state.h   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/state.cpp b/src/state.cpp
index df867f2..cb70e77 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -1694,6 +1694,8 @@ size_t State::getHash(const ExprValue* e)
   d_hashCounter++;
   size_t ret = d_hashCounter;
   d_hashMap[e] = ret;
+  // ensure ref count, otherwise the same term could get another hash later
+  d_hashedTerms.emplace_back(e);
   return ret;
 }
 
diff --git a/src/state.h b/src/state.h
index 5a9d6f8..bfa6e43 100644
--- a/src/state.h
+++ b/src/state.h
@@ -385,6 +385,8 @@ class State
   std::map<const ExprValue*, AppInfo> d_appData;
   /** Map from expressions to hash */
   std::map<const ExprValue*, size_t> d_hashMap;
+  /** The expressions in the above map, which are never deleted */
+  std::vector<Expr> d_hashedTerms;
   /** Mapping expressions to types */
   std::map<const ExprValue*, Expr> d_typeCache;
   /** Hash counter */
-- 
2.43.0


From 8898eb0c269ca040c46609eeac01736cf05e9e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:27 +0000
Subject: [PATCH 30/47] fix: overloads are resolved by the name that is
 applied, not by the term it denotes

---
 src/cmd_parser.cpp  |  4 ++--
 src/expr_parser.cpp | 15 +++++++++++----
 src/state.cpp       | 45 +++++++++++++++++++++++++++++----------------
 src/state.h         |  5 +++++
 4 files changed, 47 insertions(+), 22 deletions(-)

diff --git a/src/cmd_parser.cpp b/src/cmd_parser.cpp
index c9b68a9..f05aabc 100644
--- a/src/cmd_parser.cpp
+++ b/src/cmd_parser.cpp
@@ -634,7 +634,7 @@ bool CmdParser::parseNextCommand()
             d_lex.parseError("Expected symbol 'lambda' to be a binder when parsing define-fun.");
           }
           Expr bvl = d_state.mkBinderList(lambda.getValue(), vars);
-          rhs = d_state.mkExpr(Kind::APPLY, {lambda, bvl, rhs});
+          rhs = d_state.mkNamedApply("lambda", {lambda, bvl, rhs});
           std::vector<Expr> types;
           for (Expr& e : vars)
           {
@@ -643,7 +643,7 @@ bool CmdParser::parseNextCommand()
           t = d_state.mkFunctionType(types, t);
         }
         expr = d_state.mkSymbol(Kind::CONST, name, t);
-        Expr a = d_state.mkExpr(Kind::APPLY, {eq, expr, rhs});
+        Expr a = d_state.mkNamedApply("=", {eq, expr, rhs});
         Trace("define") << "Define-fun reference assert " << a << std::endl;
         d_state.addReferenceAssert(a);
       }
diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index 1cdff4e..818aa86 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -96,10 +96,17 @@ class StackFrame
 public:
   StackFrame(ParseCtx ctx, size_t nscopes = 0) : 
     d_ctx(ctx), d_nscopes(nscopes) {}
-  StackFrame(ParseCtx ctx, size_t nscopes, const std::vector<Expr>& args) : 
-    d_ctx(ctx), d_nscopes(nscopes), d_args(args) {}
+  StackFrame(ParseCtx ctx,
+             size_t nscopes,
+             const std::vector<Expr>& args,
+             const std::string& name)
+      : d_ctx(ctx), d_nscopes(nscopes), d_name(name), d_args(args)
+  {
+  }
   ParseCtx d_ctx;
   size_t d_nscopes;
+  /** The name of the head, if an application */
+  std::string d_name;
   std::vector<Expr> d_args;
   void pop(State& s)
   {
@@ -221,7 +228,7 @@ Expr ExprParser::parseExpr()
                 d_lex.reinsertToken(tok);
               }
             }
-            pstack.emplace_back(ParseCtx::NEXT_ARG, nscopes, args);
+            pstack.emplace_back(ParseCtx::NEXT_ARG, nscopes, args, name);
           }
           break;
           case Token::UNTERMINATED_QUOTED_SYMBOL:
@@ -244,7 +251,7 @@ Expr ExprParser::parseExpr()
         }
         StackFrame& sf = pstack.back();
         // Construct the application term specified by tstack.back()
-        ret = d_state.mkExpr(Kind::APPLY, sf.d_args);
+        ret = d_state.mkNamedApply(sf.d_name, sf.d_args);
         //typeCheck(ret);
         // pop the stack
         sf.pop(d_state);
diff --git a/src/state.cpp b/src/state.cpp
index cb70e77..3bdc040 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -708,20 +708,6 @@ Expr State::mkExpr(Kind k, const std::vector<Expr>& children)
         // must call mkExpr again, since we may auto-evaluate
         return mkExpr(ai->d_kind, achildren);
       }
-      if (ai->d_isOverloaded)
-      {
-        Trace("overload") << "Use overload when constructing " << k << " " << children << std::endl;
-        std::vector<Expr>& ov = d_overloads[ai->d_overloadName];
-        Assert (ov.size()>=2);
-        Expr ret = getOverloadInternal(ov, children, nullptr, true);
-        if (!ret.isNull())
-        {
-          Trace("overload") << "...found overload " << ret << std::endl;
-          return ret;
-        }
-        Warning() << "No overload found when constructing application "
-                  << children << std::endl;
-      }
       // Compute the "constructor term" for the operator, which may involve
       // type inference. We store the constructor term in consTerm and operator
       // in hdTerm, where notice hdTerm is of kind PARAMETERIZED if consTerm
@@ -881,6 +867,29 @@ Expr State::mkExpr(Kind k, const std::vector<Expr>& children)
   return Expr(mkExprInternal(k, vchildren));
 }
 
+Expr State::mkNamedApply(const std::string& name,
+                         const std::vector<Expr>& children)
+{
+  Assert(!children.empty());
+  std::map<std::string, std::vector<Expr>>::iterator it =
+      d_overloads.find(name);
+  if (it != d_overloads.end() && it->second.back() == children[0])
+  {
+    Trace("overload") << "Use overload when constructing " << name << " "
+                      << children << std::endl;
+    Assert(it->second.size() >= 2);
+    Expr ret = getOverloadInternal(it->second, children, nullptr, true);
+    if (!ret.isNull())
+    {
+      Trace("overload") << "...found overload " << ret << std::endl;
+      return ret;
+    }
+    Warning() << "No overload found when constructing application " << children
+              << std::endl;
+  }
+  return mkExpr(Kind::APPLY, children);
+}
+
 Expr State::mkTrue() const { return d_true; }
 
 Expr State::mkFalse() const { return d_false; }
@@ -1321,8 +1330,12 @@ bool State::bind(const std::string& name, const Expr& e)
     // if already bound, mark as overloaded
     AppInfo& ain = d_appData[e.getValue()];
     std::string prevName = ain.d_overloadName;
-    ain.d_isOverloaded = true;
-    ain.d_overloadName = name;
+    // a symbol that has another name is not overloaded by this one
+    if (!isSymbol(e.getKind()) || e.getSymbol() == name)
+    {
+      ain.d_isOverloaded = true;
+      ain.d_overloadName = name;
+    }
     std::vector<Expr>& ov = d_overloads[name];
     if (ov.empty())
     {
diff --git a/src/state.h b/src/state.h
index bfa6e43..ccf41ee 100644
--- a/src/state.h
+++ b/src/state.h
@@ -137,6 +137,11 @@ class State
   Expr mkPair(const Expr& t1, const Expr& t2);
   /** */
   Expr mkExpr(Kind k, const std::vector<Expr>& children);
+  /**
+   * Make the application of a symbol that was given by its name, which is
+   * resolved if that name is overloaded.
+   */
+  Expr mkNamedApply(const std::string& name, const std::vector<Expr>& children);
   /** make true */
   Expr mkTrue() const;
   /** make false */
-- 
2.43.0


From 2f3d36412d7e490f58699db808c5b4e7a849ba13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:13 +0000
Subject: [PATCH 31/47] fix: let-binder variables of non-ground type are bound
 by their name

---
 src/expr_parser.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index 818aa86..d755b90 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -674,6 +674,7 @@ std::vector<Expr> ExprParser::parseAndBindSortedVarList(
 std::vector<std::pair<Expr, Expr>> ExprParser::parseAndBindLetList()
 {
   std::vector<std::pair<Expr, Expr>> letList;
+  std::vector<std::string> names;
   d_lex.eatToken(Token::LPAREN);
   std::string name;
   Expr v, t, tt;
@@ -686,11 +687,13 @@ std::vector<std::pair<Expr, Expr>> ExprParser::parseAndBindLetList()
     tt = typeCheck(t);
     v = d_state.getBoundVar(name, tt);
     letList.emplace_back(v, t);
+    names.push_back(name);
   }
-  // now perform the bindings, which bind to the variable, not its definition
-  for (std::pair<Expr, Expr>& ll : letList)
+  // now perform the bindings, which bind to the variable, not its definition;
+  // note that a variable whose type is non-ground is not a symbol (yet)
+  for (size_t i = 0, nlets = letList.size(); i < nlets; i++)
   {
-    bind(ll.first.getSymbol(), ll.first);
+    bind(names[i], letList[i].first);
   }
   return letList;
 }
-- 
2.43.0


From 8594732c10bd3ae285c5e2ec981862ad85fe02e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:13 +0000
Subject: [PATCH 32/47] fix: an input that cannot be read, such as a directory,
 is an error

---
 src/lexer.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lexer.h b/src/lexer.h
index 70ba97e..a69242c 100644
--- a/src/lexer.h
+++ b/src/lexer.h
@@ -87,6 +87,14 @@ class Lexer
   // -----------------
   /** Compute the next token by reading from the stream */
   Token nextTokenInternal();
+  /** Fail if the last read failed, e.g. since the input is a directory */
+  void checkRead()
+  {
+    if (d_istream->bad())
+    {
+      parseError("Could not read the input");
+    }
+  }
   /** Get the next character */
   int32_t readNextChar()
   {
@@ -99,11 +107,13 @@ class Lexer
     else if (d_isInteractive)
     {
       d_ch = d_istream->get();
+      checkRead();
     }
     else
     {
       d_istream->read(d_buffer, INPUT_BUFFER_SIZE);
       d_bufferEnd = static_cast<size_t>(d_istream->gcount());
+      checkRead();
       if (d_bufferEnd == 0)
       {
         d_ch = EOF;
-- 
2.43.0


From 10c1a9507163eaf1ec8788ca68f11258e24f6882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:13 +0000
Subject: [PATCH 33/47] fix: the root directory is its own parent in file paths

---
 src/util/filesystem.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/util/filesystem.cpp b/src/util/filesystem.cpp
index b9de792..5ac84d0 100644
--- a/src/util/filesystem.cpp
+++ b/src/util/filesystem.cpp
@@ -144,7 +144,11 @@ void Filepath::makeCanonical()
       start = next + 1;
       if (segments.empty())
       {
-        parent_prefix_len += 1;
+        // the root is its own parent
+        if (!is_absolute)
+        {
+          parent_prefix_len += 1;
+        }
       }
       else
       {
-- 
2.43.0


From 66150dc831046111c2f8530819c103190ef89d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:13 +0000
Subject: [PATCH 34/47] fix: reset keeps the builtin symbols, and unbinds
 overloads and rules

---
 src/state.cpp | 28 ++++++++++++++++++----------
 src/state.h   |  4 ++++
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index 3bdc040..a3f9a69 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -82,7 +82,8 @@ bool Options::setOption(const std::string& key, bool val)
 }
 
 State::State(Options& opts, Stats& stats)
-    : d_hashCounter(0),
+    : d_numBuiltinDecls(0),
+      d_hashCounter(0),
       d_hasReference(false),
       d_inGarbageCollection(false),
       d_opts(opts),
@@ -192,19 +193,21 @@ State::State(Options& opts, Stats& stats)
   // Proof is the return type of terms with kind Kind::PROOF, which is an
   // ordinary type (not available in the parser).
   d_proofType = Expr(mkSymbolInternal(Kind::CONST, "eo::Proof", d_type));
+  d_numBuiltinDecls = d_decls.size();
 }
 
 State::~State() {}
 
 void State::reset()
 {
-  d_symTable.clear();
   d_assumptions.clear();
   d_assumptionsSizeCtx.clear();
   d_assumptionsScopeCtx.clear();
-  d_decls.clear();
   d_declsSizeCtx.clear();
+  // the builtin symbols remain
+  unbindDecls(d_numBuiltinDecls);
   d_ruleDecls.clear();
+  d_ruleSymTable.clear();
   if (d_plugin!=nullptr)
   {
     d_plugin->reset();
@@ -238,6 +241,18 @@ void State::popScope()
   }
   size_t lastSize = d_declsSizeCtx.back();
   d_declsSizeCtx.pop_back();
+  unbindDecls(lastSize);
+  // unbind the rules that were declared in the scope
+  while (!d_ruleDecls.empty()
+         && d_ruleDecls.back().first > d_declsSizeCtx.size())
+  {
+    d_ruleSymTable.erase(d_ruleDecls.back().second);
+    d_ruleDecls.pop_back();
+  }
+}
+
+void State::unbindDecls(size_t lastSize)
+{
   size_t i = d_decls.size();
   while (i > lastSize)
   {
@@ -273,13 +288,6 @@ void State::popScope()
     d_symTable.erase(d_decls[i]);
   }
   d_decls.resize(lastSize);
-  // unbind the rules that were declared in the scope
-  while (!d_ruleDecls.empty()
-         && d_ruleDecls.back().first > d_declsSizeCtx.size())
-  {
-    d_ruleSymTable.erase(d_ruleDecls.back().second);
-    d_ruleDecls.pop_back();
-  }
 }
 
 void State::pushAssumptionScope()
diff --git a/src/state.h b/src/state.h
index ccf41ee..2b74e6e 100644
--- a/src/state.h
+++ b/src/state.h
@@ -284,6 +284,8 @@ class State
   Expr d_listCons;
   /** The proof type */
   Expr d_proofType;
+  /** Unbind all symbols but the first size declared ones */
+  void unbindDecls(size_t size);
   /** Mark that file s was included */
   bool markIncluded(const Filepath& s);
   /** mark deleted */
@@ -354,6 +356,8 @@ class State
    * The list of declared symbols in the order they were bound.
    */
   std::vector<std::string> d_decls;
+  /** The number of builtin symbols, which are first in the above list */
+  size_t d_numBuiltinDecls;
   /**
    * The list of declared symbols that were overloaded when they
    * were bound. This is a sublist of d_decls. For example if
-- 
2.43.0


From 00dd225449f1677a076c1e1f2202b344ec4a5ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:01 +0000
Subject: [PATCH 35/47] fix: parametric datatypes of declare-datatype remain
 bound

---
 src/expr_parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index d755b90..386a691 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -825,6 +825,11 @@ bool ExprParser::parseDatatypesDef(
     {
       d_lex.eatToken(Token::RPAREN);
       d_state.popScope();
+      // the datatype was bound in the scope if its arity was not known
+      if (i >= arities.size() && !d_state.bind(dnames[i], dt))
+      {
+        return false;
+      }
     }
     for (std::pair<std::string, Expr>& b : toBind)
     {
-- 
2.43.0


From 4e4b782efeee28dc721f67fe3ebaa138f00b659c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:09 +0000
Subject: [PATCH 36/47] fix: every datatype of declare-datatypes must be
 defined

---
 src/expr_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index 386a691..6d1853c 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -841,7 +841,7 @@ bool ExprParser::parseDatatypesDef(
     tok = d_lex.nextToken();
     i++;
   }
-  if (dtlist.size() != dnames.size())
+  if (i != dnames.size())
   {
     d_lex.unexpectedTokenError(tok, "Wrong number of datatypes provided.");
   }
-- 
2.43.0


From 97e41e30850b31a5184a2a341f7b00f0cb247e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 37/47] fix: applications of functions with attributes are
 printed undesugared

---
 src/expr.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 7a725af..ac3eb04 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -403,8 +403,12 @@ void Expr::printDebugInternal(const Expr& e,
           }
           // otherwise printed as ordinary app
         }
-        else if (k != Kind::APPLY || (*cur.first)[0]->getNumChildren() > 0)
+        else if (k != Kind::APPLY || (*cur.first)[0]->getNumChildren() > 0
+                 || isNAryAttr(ExprValue::d_state->getConstructorKind(
+                     (*cur.first)[0])))
         {
+          // includes partial applications of functions that are desugared
+          // based on their attributes when applied otherwise
           os << kindToTerm(k) << " ";
         }
         visit.back().second++;
-- 
2.43.0


From 41454a4f48ae19e6cbb42b6c3f3acf3290255ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 38/47] fix: let variables of printed terms are not symbols of
 the user

---
 src/expr.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/expr.cpp b/src/expr.cpp
index ac3eb04..0ae72a6 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -300,6 +300,11 @@ std::map<const ExprValue*, size_t> Expr::computeLetBinding(
     const ExprValue* lv = l.getValue();
     if (lcount[lv] > 1)
     {
+      // the name should not be that of a symbol
+      while (!ExprValue::d_state->getVar("_v" + std::to_string(idc)).isNull())
+      {
+        idc++;
+      }
       ll.push_back(l);
       lbind[lv] = idc;
       idc++;
-- 
2.43.0


From 59a60a519bca409832cba02b2824b36ac14b3c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 39/47] fix: double quotes in the names of printed variables
 are written twice

---
 src/expr.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 0ae72a6..b1285f4 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -238,6 +238,20 @@ std::string quoteSymbol(const std::string& s)
   return "|" + tmp + "|";
 }
 
+/**
+ * The string literal for a string
+ */
+std::string quoteString(const std::string& s)
+{
+  std::string ret = "\"";
+  for (char c : s)
+  {
+    // a double quote is written twice in a string literal
+    ret += c == '"' ? "\"\"" : std::string(1, c);
+  }
+  return ret + "\"";
+}
+
 std::vector<Expr> Expr::getPrintChildren(const ExprValue* e)
 {
   std::vector<Expr> ret;
@@ -353,13 +367,7 @@ void Expr::printDebugInternal(const Expr& e,
               }
               break;
             case Kind::STRING:
-              os << "\"";
-              for (char c : l->toString())
-              {
-                // a double quote is written twice in a string literal
-                os << (c == '"' ? "\"\"" : std::string(1, c));
-              }
-              os << "\"";
+              os << quoteString(l->toString());
               break;
             case Kind::DECIMAL:
               // currently don't have a way to print decimals natively, just
@@ -391,7 +399,7 @@ void Expr::printDebugInternal(const Expr& e,
         Expr tt(ExprValue::d_state->lookupType(cur.first));
         const Literal* l = cur.first->asLiteral();
         Assert(l != nullptr);
-        os << "(eo::var \"" << l->toString() << "\" ";
+        os << "(eo::var " << quoteString(l->toString()) << " ";
         visit.back().second++;
         visit.emplace_back(tt.getValue(), 0);
       }
-- 
2.43.0


From b0dccf229de2df379ac6816bb4b6830709a7fc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 40/47] fix: printed symbols that would be read as other tokens
 are quoted

---
 src/expr.cpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index b1285f4..4ff5441 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -206,18 +206,25 @@ std::string quoteSymbol(const std::string& s)
   {
     return "||";
   }
-  // special case: if an "eo::" symbol, it is not quoted
-  if (s.compare(0, 4, "eo::") == 0)
-  {
-    return s;
-  }
-
   // this is the set of SMT-LIBv2 permitted characters in "simple" (non-quoted)
   // symbols
-  if (s.find_first_not_of("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
-                          "0123456789~!@$%^&*_-+=<>.?/")
-          == std::string::npos
-      && (s[0] < '0' || s[0] > '9'))
+  // where colons are permitted in "eo::" symbols
+  // words and negative literals are tokens of their own when not quoted
+  static const std::unordered_set<std::string> reserved{
+      "!", "eo::define", "let", "par", "Bool", "Type"};
+  bool isNegLit =
+      s.size() > 1 && s[0] == '-' && s[1] >= '0' && s[1] <= '9';
+  size_t start = s.compare(0, 4, "eo::") == 0 ? 4 : 0;
+  std::string permitted =
+      "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
+      "0123456789~!@$%^&*_-+=<>.?/";
+  if (start == 4)
+  {
+    permitted += ":";
+  }
+  if (s.find_first_not_of(permitted, start) == std::string::npos
+      && (s[0] < '0' || s[0] > '9') && !isNegLit
+      && reserved.find(s) == reserved.end())
   {
     return s;
   }
-- 
2.43.0


From 2863b744dff91c15c94a7a2dcd41d0de14871add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 41/47] fix: printed hexadecimal literals keep their width

---
 src/expr.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 4ff5441..ecaf71f 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -362,7 +362,20 @@ void Expr::printDebugInternal(const Expr& e,
         {
           switch (k)
           {
-            case Kind::HEXADECIMAL:os << "#x" << l->toString();break;
+            case Kind::HEXADECIMAL:
+              if (l->d_bv.getSize() % 4 != 0 || l->d_bv.getSize() == 0)
+              {
+                // a part of a hexadecimal literal
+                std::string digits = l->toString();
+                os << "(eo::extract #x" << (digits.empty() ? "0" : digits)
+                   << " 0 " << static_cast<int64_t>(l->d_bv.getSize()) - 1
+                   << ")";
+              }
+              else
+              {
+                os << "#x" << l->toString();
+              }
+              break;
             case Kind::BINARY:
               if (l->d_bv.getSize() == 0)
               {
-- 
2.43.0


From 7682bec4e825f3f361f5290d0bf82c9d811ee89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:00 +0000
Subject: [PATCH 42/47] fix: applications of variables are printed with _

---
 src/expr.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index ecaf71f..03533fb 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -437,10 +437,12 @@ void Expr::printDebugInternal(const Expr& e,
           // otherwise printed as ordinary app
         }
         else if (k != Kind::APPLY || (*cur.first)[0]->getNumChildren() > 0
+                 || (*cur.first)[0]->getKind() == Kind::VARIABLE
                  || isNAryAttr(ExprValue::d_state->getConstructorKind(
                      (*cur.first)[0])))
         {
-          // includes partial applications of functions that are desugared
+          // includes applications of variables, which are not printed as
+          // symbols, and partial applications of functions that are desugared
           // based on their attributes when applied otherwise
           os << kindToTerm(k) << " ";
         }
-- 
2.43.0


From f7d201f9cfeed0d1535c47020c67bc70dfb5174e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:38 +0000
Subject: [PATCH 43/47] fix: applications of ->, _ and as to no arguments are
 diagnosed

---
 src/expr_parser.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index 6d1853c..3abae22 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -250,6 +250,15 @@ Expr ExprParser::parseExpr()
               tok, "Mismatched parentheses in SMT-LIBv2 term");
         }
         StackFrame& sf = pstack.back();
+        // the builtin operators that are not evaluated cannot be applied to
+        // no arguments
+        if (sf.d_args.empty()
+            || (sf.d_args.size() == 1
+                && sf.d_args[0].getKind() == Kind::BUILTIN_CONST
+                && (sf.d_name == "->" || sf.d_name == "_" || sf.d_name == "as")))
+        {
+          d_lex.parseError("Expected at least one argument");
+        }
         // Construct the application term specified by tstack.back()
         ret = d_state.mkNamedApply(sf.d_name, sf.d_args);
         //typeCheck(ret);
-- 
2.43.0


From 1fadefbf29d31bd0184b77841bedd88375c370df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:42 +0000
Subject: [PATCH 44/47] fix: eo::extract has three arguments, with two it read
 beyond them

---
 src/type_checker.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index 2ca0afa..c9408b2 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -196,10 +196,8 @@ bool TypeChecker::checkArity(Kind k, size_t nargs, std::ostream* out)
     case Kind::EVAL_LIST_MINCLUDE:
     case Kind::EVAL_LIST_MEQ:
     case Kind::EVAL_LIST_DIFF:
-    case Kind::EVAL_LIST_INTER: ret = (nargs == 3); break;
-    case Kind::EVAL_EXTRACT:
-      ret = (nargs==3 || nargs==2);
-      break;
+    case Kind::EVAL_LIST_INTER:
+    case Kind::EVAL_EXTRACT: ret = (nargs == 3); break;
     default:
       if (isNaryLiteralOp(k))
       {
-- 
2.43.0


From 38d15339f5cf02566a1e9dd811e815d19cc9847e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:44 +0000
Subject: [PATCH 45/47] fix: an s-expression cannot begin with a closing
 parenthesis

---
 src/expr_parser.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index 3abae22..b43a569 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -598,7 +598,15 @@ std::string ExprParser::parseSymbolicExpr()
     switch (tok)
     {
       case Token::LPAREN: nparen++; break;
-      case Token::RPAREN: nparen--; break;
+      case Token::RPAREN:
+      {
+        if (nparen == 0)
+        {
+          d_lex.parseError("Expected s-expression");
+        }
+        nparen--;
+      }
+      break;
       case Token::EOF_TOK:
       {
         d_lex.parseError("Expected s-expression");
-- 
2.43.0


From da5ef1066b3184df94f03d228ec202c0af691cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:58 +0000
Subject: [PATCH 46/47] fix: reset forgets the declared types of literals

---
 src/state.cpp        | 16 ++++++++++++++++
 src/type_checker.cpp |  8 ++++++++
 src/type_checker.h   |  2 ++
 3 files changed, 26 insertions(+)

diff --git a/src/state.cpp b/src/state.cpp
index a3f9a69..dbe84eb 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -208,6 +208,22 @@ void State::reset()
   unbindDecls(d_numBuiltinDecls);
   d_ruleDecls.clear();
   d_ruleSymTable.clear();
+  // the types of literals can be declared anew, the types of terms other than
+  // symbols may depend on them
+  d_tc.resetLiteralTypeRules();
+  std::vector<Expr> types;
+  std::map<const ExprValue*, Expr>::iterator it = d_typeCache.begin();
+  while (it != d_typeCache.end())
+  {
+    if (it->first->getNumChildren() == 0 && !isLiteral(it->first->getKind()))
+    {
+      ++it;
+      continue;
+    }
+    // types are released once we are done iterating
+    types.push_back(it->second);
+    it = d_typeCache.erase(it);
+  }
   if (d_plugin!=nullptr)
   {
     d_plugin->reset();
diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index c9408b2..42ec56b 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -57,6 +57,14 @@ void TypeChecker::setLiteralTypeRule(Kind k, const Expr& t)
   it->second = t;
 }
 
+void TypeChecker::resetLiteralTypeRules()
+{
+  for (std::pair<const Kind, Expr>& r : d_literalTypeRules)
+  {
+    r.second = d_null;
+  }
+}
+
 Expr TypeChecker::getOrSetLiteralTypeRule(Kind k, ExprValue* self)
 {
   std::map<Kind, Expr>::iterator it = d_literalTypeRules.find(k);
diff --git a/src/type_checker.h b/src/type_checker.h
index 4f04b72..ba07bb6 100644
--- a/src/type_checker.h
+++ b/src/type_checker.h
@@ -45,6 +45,8 @@ class TypeChecker
   static bool checkArity(Kind k, size_t nargs, std::ostream* out = nullptr);
   /** Set type rule for literal kind k to t */
   void setLiteralTypeRule(Kind k, const Expr& t);
+  /** Forget the type rules for literals */
+  void resetLiteralTypeRules();
   /**
    * Evaluate the expression e in the given context.
    */
-- 
2.43.0


From ad404b01eff2b2bd0757a02c23822e8ad32df5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:48 +0000
Subject: [PATCH 47/47] fix: reset unbinds the symbols of the global scope

---
 src/state.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index dbe84eb..90bac93 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -1368,18 +1368,12 @@ bool State::bind(const std::string& name, const Expr& e)
     }
     ov.emplace_back(e);
     // add to declaration
-    if (!d_declsSizeCtx.empty())
-    {
-      d_overloadedDecls.emplace_back(name, prevName);
-    }
+    d_overloadedDecls.emplace_back(name, prevName);
   }
   // Trace("state-debug") << "bind " << name << " -> " << &e << std::endl;
   d_symTable[name] = e;
-  // only have to remember if not at global scope
-  if (!d_declsSizeCtx.empty())
-  {
-    d_decls.emplace_back(name);
-  }
+  // also remembered at global scope, for reset
+  d_decls.emplace_back(name);
   return true;
 }
 
-- 
2.43.0

