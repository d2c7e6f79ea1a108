From d2273b73552c42ab83acae457998c522d38798cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:23 +0000
Subject: [PATCH 01/22] fix: keep the priority of stopping over later branches

A fragment which can be skipped, or left, before some of its branches are
tried lost that position at the end of a pattern and when repeated: a
matching state then preferred every one of its branches over stopping.
E.g. 'a(b?|c)' took 'ac' for a whole match where the preferred match is 'a'.
---
 src/lib/nfabuilder.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lib/nfabuilder.cpp b/src/lib/nfabuilder.cpp
index 39b4134..3668449 100644
--- a/src/lib/nfabuilder.cpp
+++ b/src/lib/nfabuilder.cpp
@@ -315,8 +315,9 @@ void NFABuilder::plus(const ParseNode& n) {
   Fragment& repeat = Stack.top();
   repeat.N = n;
 
-  // make back edges
-  patch_pre(repeat.OutList, repeat.InList);
+  // make back edges; when the body can match the empty string, doing
+  // so ends the loop, hence edges after the skip go after the exit
+  patch_mid(repeat.OutList, repeat.InList, repeat.Skippable);
 }
 
 void NFABuilder::plus_ng(const ParseNode& n) {
@@ -446,6 +447,13 @@ void NFABuilder::finish(const ParseNode& n) {
         NFA::Vertex& final((*Fsm)[v]);
         final.Label = CurLabel;
         final.IsMatch = true;
+
+        // Edges after the insertion point have lower priority than
+        // stopping here. As stopping here always succeeds, they can
+        // never be part of the preferred match.
+        for (uint32_t j = Fsm->outDegree(v); j > i->second; --j) {
+          Fsm->removeEdge(Fsm->outEdge(v, j-1));
+        }
       }
     }
     // std::cout << "final is " << final << std::endl;
-- 
2.43.0


From c37b9c66c6ef1fdbd516cea18bf7160cce3ef774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:23 +0000
Subject: [PATCH 02/22] fix: do not rewrite the tail of a repeated subpattern
 as a suffix

The tail of S in S{n,m} is followed by S again, so the reductions for
trailing nongreedy repetitions do not apply to it when S can be repeated,
e.g. '(ab??){2}' must still match 'aba'.
---
 src/lib/rewriter.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/lib/rewriter.cpp b/src/lib/rewriter.cpp
index 79a6ab1..e40212d 100644
--- a/src/lib/rewriter.cpp
+++ b/src/lib/rewriter.cpp
@@ -508,8 +508,15 @@ bool reduceTrailingNongreedyThenGreedy(ParseNode* n, std::stack<ParseNode*>& bra
   case ParseNode::LOOKBEHIND_NEG:
   case ParseNode::LOOKAHEAD_POS:
   case ParseNode::LOOKAHEAD_NEG:
+    ret = reduceTrailingNongreedyThenGreedy(n->Child.Left, branch);
+    break;
+
   case ParseNode::REPETITION:
   case ParseNode::REPETITION_NG:
+    // a suffix of S is a suffix of S{n,m} only if S cannot be repeated
+    if (n->Child.Rep.Max > 1) {
+      break;
+    }
     ret = reduceTrailingNongreedyThenGreedy(n->Child.Left, branch);
     break;
 
@@ -615,15 +622,23 @@ bool reduceTrailingNongreedyThenEmpty(ParseNode* n, std::stack<ParseNode*>& bran
   case ParseNode::LOOKBEHIND_NEG:
   case ParseNode::LOOKAHEAD_POS:
   case ParseNode::LOOKAHEAD_NEG:
-  case ParseNode::REPETITION:
     ret = reduceTrailingNongreedyThenEmpty(n->Child.Left, branch);
     break;
 
+  case ParseNode::REPETITION:
+    // a suffix of S is a suffix of S{n,m} only if S cannot be repeated
+    if (n->Child.Rep.Max <= 1) {
+      ret = reduceTrailingNongreedyThenEmpty(n->Child.Left, branch);
+    }
+    break;
+
   case ParseNode::REPETITION_NG:
     // replace S{n,m}? with S{n}
     n->setType(ParseNode::REPETITION);
     n->Child.Rep.Max = n->Child.Rep.Min;
-    reduceTrailingNongreedyThenEmpty(n->Child.Left, branch);
+    if (n->Child.Rep.Max <= 1) {
+      reduceTrailingNongreedyThenEmpty(n->Child.Left, branch);
+    }
     ret = true;
     break;
 
-- 
2.43.0


From 546a85aa37401ce96c859a8feefd82f4d1fd01de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:53 +0000
Subject: [PATCH 03/22] fix: combine only repetitions of a subpattern which
 matches in one way

'(a|ab)+(a|ab)+' prefers 'aaba' over 'aa' while '(a|ab){2,}' prefers 'aa'.
---
 src/lib/rewriter.cpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/lib/rewriter.cpp b/src/lib/rewriter.cpp
index e40212d..7086ae5 100644
--- a/src/lib/rewriter.cpp
+++ b/src/lib/rewriter.cpp
@@ -337,12 +337,33 @@ bool reduceUselessRepetitions(ParseNode* root) {
   return reduceUselessRepetitions(root, branch);
 }
 
+bool matchesInOneWay(const ParseNode* n) {
+  switch (n->Type) {
+  case ParseNode::CONCATENATION:
+    return matchesInOneWay(n->Child.Left) && matchesInOneWay(n->Child.Right);
+
+  case ParseNode::CHAR_CLASS:
+    return n->Set.Breakout.Bytes.none();
+
+  case ParseNode::DOT:
+  case ParseNode::LITERAL:
+  case ParseNode::BYTE:
+    return true;
+
+  default:
+    return false;
+  }
+}
+
 bool combinable(ParseNode* x, ParseNode* y) {
+  // If T can match in several ways at the same position, then T{a,b}T{c,d}
+  // tries these in another order than T{a+c,b+d} does, unless a = b.
   return
   (
     (x->Type == ParseNode::REPETITION && y->Type == ParseNode::REPETITION) ||
     (x->Type == ParseNode::REPETITION_NG && y->Type == ParseNode::REPETITION_NG)
-  ) && *x == *y;
+  ) && *x == *y &&
+  (x->Child.Rep.Min == x->Child.Rep.Max || matchesInOneWay(x->Child.Left));
 }
 
 bool combineConsecutiveRepetitions(ParseNode* n, std::stack<ParseNode*>& branch) {
-- 
2.43.0


From 7076e520fbe8bce8c59f1cebd9a598d4172ead56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:41 +0000
Subject: [PATCH 04/22] fix: an alternative which matches only the empty string
 is not always taken

(T{0}|S) can be replaced by T{0} only as a suffix; anywhere else S is still
tried, e.g. '(a{0}|b)c' must match all of 'bc'.
---
 src/lib/rewriter.cpp | 44 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/src/lib/rewriter.cpp b/src/lib/rewriter.cpp
index 7086ae5..ec2c55b 100644
--- a/src/lib/rewriter.cpp
+++ b/src/lib/rewriter.cpp
@@ -144,8 +144,8 @@ bool has_only_zero_length_match(const ParseNode* n) {
     return !n->Child.Left || has_only_zero_length_match(n->Child.Left);
 
   case ParseNode::ALTERNATION:
-    // Left has priority, so we don't need to check right.
-    return has_only_zero_length_match(n->Child.Left);
+    return has_only_zero_length_match(n->Child.Left) &&
+           has_only_zero_length_match(n->Child.Right);
 
   case ParseNode::CONCATENATION:
     return has_only_zero_length_match(n->Child.Left) &&
@@ -168,11 +168,12 @@ bool has_only_zero_length_match(const ParseNode* n) {
   }
 }
 
-bool reduceEmptySubtrees(ParseNode* n, std::stack<ParseNode*>& branch) {
+bool reduceEmptySubtrees(ParseNode* n, std::stack<ParseNode*>& branch, bool suffix) {
 
   // ST{0}Q = ST{0}?Q = T{0}QS = T{0}?Q = S
-  // R(S{0}Q|T) = (S{0}Q|T)R = R
   // (S|T{0}Q) = S?
+  // (S{0}Q|T) = T??
+  // As a suffix, R(S{0}Q|T) = R
 
   bool ret = false;
   branch.push(n);
@@ -208,15 +209,30 @@ bool reduceEmptySubtrees(ParseNode* n, std::stack<ParseNode*>& branch) {
   else {
     switch (n->Type) {
     case ParseNode::REGEXP:
+      ret = reduceEmptySubtrees(n->Child.Left, branch, suffix);
+      if (has_only_zero_length_match(n->Child.Left)) {
+        n->Child.Left = 0;
+      }
+      break;
+
     case ParseNode::REPETITION:
     case ParseNode::REPETITION_NG:
-      ret = reduceEmptySubtrees(n->Child.Left, branch);
+      ret = reduceEmptySubtrees(
+        n->Child.Left, branch, suffix && n->Child.Rep.Max <= 1
+      );
       break;
 
     case ParseNode::ALTERNATION:
+      ret = reduceEmptySubtrees(n->Child.Left, branch, suffix);
+      ret |= reduceEmptySubtrees(n->Child.Right, branch, suffix);
+      break;
+
     case ParseNode::CONCATENATION:
-      ret = reduceEmptySubtrees(n->Child.Left, branch);
-      ret |= reduceEmptySubtrees(n->Child.Right, branch);
+      ret = reduceEmptySubtrees(
+        n->Child.Left, branch,
+        suffix && has_only_zero_length_match(n->Child.Right)
+      );
+      ret |= reduceEmptySubtrees(n->Child.Right, branch, suffix);
       break;
 
     case ParseNode::DOT:
@@ -246,7 +262,17 @@ bool reduceEmptySubtrees(ParseNode* n, std::stack<ParseNode*>& branch) {
     }
   }
   else if (n->Type == ParseNode::ALTERNATION) {
-    if (has_only_zero_length_match(n->Child.Right)) {
+    if (has_only_zero_length_match(n->Child.Left)) {
+      // convert T{0}|S into S??, or into T{0} as a suffix
+      if (!suffix) {
+        n->Child.Left = n->Child.Right;
+      }
+      n->setType(ParseNode::REPETITION_NG);
+      n->Child.Rep.Min = 0;
+      n->Child.Rep.Max = suffix ? 0 : 1;
+      ret = true;
+    }
+    else if (has_only_zero_length_match(n->Child.Right)) {
       // convert S|T{0} into S?
       n->setType(ParseNode::REPETITION);
       n->Child.Rep.Min = 0;
@@ -259,7 +285,7 @@ bool reduceEmptySubtrees(ParseNode* n, std::stack<ParseNode*>& branch) {
 
 bool reduceEmptySubtrees(ParseNode* root) {
   std::stack<ParseNode*> branch;
-  return reduceEmptySubtrees(root, branch);
+  return reduceEmptySubtrees(root, branch, true);
 }
 
 bool prune_useless_repetitions(ParseNode* n, const std::stack<ParseNode*>& branch) {
-- 
2.43.0


From f5314dba6889c964d9eb4bee96553668cfb613ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:40 +0000
Subject: [PATCH 05/22] fix: lg_starts_with ignored matches in buffers too
 short for the filter

With a filter offset of 1 or more, a buffer of two or more bytes which does
not reach past the filter was never searched.
---
 src/lib/vm.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lib/vm.cpp b/src/lib/vm.cpp
index 7688743..23a0e26 100644
--- a/src/lib/vm.cpp
+++ b/src/lib/vm.cpp
@@ -531,10 +531,9 @@ void Vm::startsWith(const byte* const beg, const byte* const end, const uint64_t
   const Instruction* const base = &(*Prog)[0];
   uint64_t offset = startOffset;
 
-  const byte* const filterOff = beg+Prog->FilterOff;
-
-  if (end - beg == 1 || (filterOff < end - 1 &&
-      Prog->Filter[*(reinterpret_cast<const uint16_t*>(filterOff))]))
+  // a buffer too short to reach the filter might still hold a match
+  if (end - beg < static_cast<ptrdiff_t>(Prog->FilterOff) + 2 ||
+      Prog->Filter[*(reinterpret_cast<const uint16_t*>(beg+Prog->FilterOff))])
   {
     for (ThreadList::const_iterator t(First.begin()); t != First.end(); ++t) {
       Active.emplace_back(t->PC, Thread::NOLABEL, offset, Thread::NONE);
-- 
2.43.0


From 332bdf43b3fbd241fd12f7dd38a540eabe8c6502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:49 +0000
Subject: [PATCH 06/22] fix: lg_read_program read outside malformed images

Sizes in the image were added to pointers before being compared, strings of
the pattern map were not looked for inside it, a program part shorter than
its own header was read all the same, and negative sizes were accepted.
---
 src/lib/lightgrep_c_api.cpp | 19 +++++++++++++++----
 src/lib/pattern_map.cpp     | 16 ++++++++++++++--
 src/lib/program.cpp         |  6 +++++-
 3 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/lib/lightgrep_c_api.cpp b/src/lib/lightgrep_c_api.cpp
index cefa0d9..2439f93 100644
--- a/src/lib/lightgrep_c_api.cpp
+++ b/src/lib/lightgrep_c_api.cpp
@@ -414,34 +414,45 @@ namespace {
     const char* src = reinterpret_cast<const char*>(buffer);
     const char* const end = src + size;
 
-    if (src + sizeof(uint64_t) > end) {
+    // compare sizes, not pointers: the sizes read might be anything
+    if (sizeof(uint64_t) > static_cast<size_t>(end - src)) {
       return nullptr;
     }
     const uint64_t pmap_size = *reinterpret_cast<const uint64_t*>(src);
     src += sizeof(pmap_size);
 
-    if (src + pmap_size > end) {
+    if (pmap_size > static_cast<size_t>(end - src)) {
       return nullptr;
     }
     hProg->PMap = PatternMap::unmarshall(src, pmap_size);
+    if (!hProg->PMap) {
+      return nullptr;
+    }
     src += pmap_size;
 
-    if (src + sizeof(uint64_t) > end) {
+    if (sizeof(uint64_t) > static_cast<size_t>(end - src)) {
       return nullptr;
     }
     const uint64_t prog_size = *reinterpret_cast<const uint64_t*>(src);
     src += sizeof(prog_size);
 
-    if (src + prog_size > end) {
+    if (prog_size > static_cast<size_t>(end - src)) {
       return nullptr;
     }
     hProg->Prog = Program::unmarshall(src, prog_size);
+    if (!hProg->Prog) {
+      return nullptr;
+    }
 
     return hProg.release();
   }
 }
 
 LG_HPROGRAM lg_read_program(const void* buffer, int size) {
+  if (size < 0) {
+    return nullptr;
+  }
+
   return trapWithRetval(
     [buffer, size](){ return read_program(buffer, size); },
     nullptr
diff --git a/src/lib/pattern_map.cpp b/src/lib/pattern_map.cpp
index 539a787..4a479db 100644
--- a/src/lib/pattern_map.cpp
+++ b/src/lib/pattern_map.cpp
@@ -125,9 +125,21 @@ std::unique_ptr<PatternMap> PatternMap::unmarshall(const void* buf, size_t len)
   const char* const end = i + len;
   
   while (i < end) {
+    // both strings must be terminated and the index complete before the end
     pat = i;
-    chain = pat + std::strlen(pat) + 1;
-    idx = chain + std::strlen(chain) + 1;
+    chain = static_cast<const char*>(std::memchr(pat, '\0', end - pat));
+    if (!chain) {
+      return nullptr;
+    }
+    ++chain;
+    idx = static_cast<const char*>(std::memchr(chain, '\0', end - chain));
+    if (!idx) {
+      return nullptr;
+    }
+    ++idx;
+    if (static_cast<size_t>(end - idx) < sizeof(LG_PatternInfo::UserIndex)) {
+      return nullptr;
+    }
 
     p->usePattern(pat, chain, *reinterpret_cast<const uint64_t*>(idx));
 
diff --git a/src/lib/program.cpp b/src/lib/program.cpp
index 2fec54e..3c16aff 100644
--- a/src/lib/program.cpp
+++ b/src/lib/program.cpp
@@ -68,7 +68,11 @@ std::vector<char> Program::marshall() const {
 
 ProgramPtr Program::unmarshall(const void* buf, size_t len) {
   const char* i = static_cast<const char*>(buf);
-  const size_t icount = (len - (sizeof(Program::MaxLabel) + sizeof(Program::MaxCheck) + sizeof(Program::FilterOff) + 256*256/8)) / sizeof(Instruction);
+  const size_t hlen = sizeof(Program::MaxLabel) + sizeof(Program::MaxCheck) + sizeof(Program::FilterOff) + 256*256/8;
+  if (len < hlen) {
+    return nullptr;
+  }
+  const size_t icount = (len - hlen) / sizeof(Instruction);
 
   ProgramPtr p(new Program(0));
 
-- 
2.43.0


From 8c0373e5e5f553ea2a969c4886bcadf0f58ac2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:29 +0000
Subject: [PATCH 07/22] fix: the number of bad bytes and huge context sizes of
 hit windows

---
 src/lib/lightgrep_c_util.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/lib/lightgrep_c_util.cpp b/src/lib/lightgrep_c_util.cpp
index 8282f2b..3bf2731 100644
--- a/src/lib/lightgrep_c_util.cpp
+++ b/src/lib/lightgrep_c_util.cpp
@@ -118,6 +118,11 @@ namespace {
     unsigned int bad = 0;
     std::pair<int32_t,const byte*> cp;
 
+    // there cannot be more context than bytes; this also keeps the
+    // products below from overflowing
+    leading = std::min(leading, static_cast<size_t>(hbeg - bbeg));
+    trailing = std::min(trailing, static_cast<size_t>(bend - hend));
+
     //
     // leading context
     //
@@ -168,20 +173,15 @@ namespace {
       }
     }
 
-    bad = std::numeric_limits<unsigned int>::max() - max_inv_bad;
-
     //
     // hit
     //
     dh.begin = cps.size();
 
-    dec.reset(hbeg, std::min(hend + trailing*dec.maxByteLength(), bend));
+    dec.reset(hbeg, hend + std::min(trailing*dec.maxByteLength(), static_cast<size_t>(bend - hend)));
 
     while ((cp = dec.next()).second < hend) {
       cps.push_back(cp);
-      if (cp.first < 0) {
-        ++bad;
-      }
     }
 
     dh.end = cps.size();
@@ -195,14 +195,15 @@ namespace {
       }
 
       cps.push_back(cp);
-
-      if (cp.first < 0) {
-        ++bad;
-      }
-
       cp = dec.next();
     } while (--trailing > 0);
 
+    // count the bad values which are part of the window
+    bad = std::count_if(
+      cps.cbegin(), cps.cend(),
+      [](const std::pair<int32_t,const byte*>& p) { return p.first < 0; }
+    );
+
     //
     // termination
     //
-- 
2.43.0


From 92c7752d1c8b7388eb69e83bbfb6c0768830502d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:34 +0000
Subject: [PATCH 08/22] fix: give the end of the pattern a location in the
 lexer

At the end of the pattern yylex left last_column as it was: for the empty
pattern uninitialised, so that yyerror took the error for a repetition of a
non-atom and read the pattern's missing first token.
---
 src/lib/re_grammar.ypp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/re_grammar.ypp b/src/lib/re_grammar.ypp
index a1365c0..9d4fbc0 100644
--- a/src/lib/re_grammar.ypp
+++ b/src/lib/re_grammar.ypp
@@ -1297,6 +1297,7 @@ namespace {
 
   int yylex(YYSTYPE* yylval, YYLTYPE* yylloc, Context* ctx) {
     yylloc->first_column = ctx->Text - ctx->TextBegin;
+    yylloc->last_column = yylloc->first_column;
 
     ctx->TokenType = -1;  // EOF
 
-- 
2.43.0


From 97ca6d5c1ea840e4ef2aa83626a07cce7eedfd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:34 +0000
Subject: [PATCH 09/22] fix: copy just the slice into a parse error

lg_parse_pattern_slice() copied the pattern into the error as a C string,
reading beyond the slice.
---
 src/lib/lightgrep_c_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/lightgrep_c_api.cpp b/src/lib/lightgrep_c_api.cpp
index 2439f93..59b39e8 100644
--- a/src/lib/lightgrep_c_api.cpp
+++ b/src/lib/lightgrep_c_api.cpp
@@ -102,7 +102,7 @@ int lg_parse_pattern_slice(LG_HPATTERN hPattern,
 
   int result = trapWithVals([hPattern](){ parseAndReduce(hPattern->Pat, hPattern->Tree); }, 1, 0, err);
   if (result == 0) {
-    (*err)->Pattern = clone_c_str(pattern);
+    (*err)->Pattern = clone_c_str(hPattern->Pat.Expression.c_str());
   }
 
   return result;
-- 
2.43.0


From 85382cebdf648fcd5ba3d54a1a858a93a44e5af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:34 +0000
Subject: [PATCH 10/22] fix: accept a null error pointer when parsing and
 adding patterns

---
 src/lib/lightgrep_c_api.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/lib/lightgrep_c_api.cpp b/src/lib/lightgrep_c_api.cpp
index 59b39e8..1cbb1a3 100644
--- a/src/lib/lightgrep_c_api.cpp
+++ b/src/lib/lightgrep_c_api.cpp
@@ -101,7 +101,7 @@ int lg_parse_pattern_slice(LG_HPATTERN hPattern,
   };
 
   int result = trapWithVals([hPattern](){ parseAndReduce(hPattern->Pat, hPattern->Tree); }, 1, 0, err);
-  if (result == 0) {
+  if (result == 0 && err && *err) {
     (*err)->Pattern = clone_c_str(hPattern->Pat.Expression.c_str());
   }
 
@@ -186,7 +186,7 @@ int lg_add_pattern(LG_HFSM hFsm,
     err
   );
 
-  if (result == -1) {
+  if (result == -1 && err && *err) {
     (*err)->Pattern = clone_c_str(hPattern->Pat.Expression.c_str());
     (*err)->EncodingChain = clone_c_str(encoding);
   }
@@ -204,19 +204,21 @@ namespace {
                   int lnum,
                   LG_Error**& err)
   {
-    lg_parse_pattern(hPat, pat.c_str(), keyOpts, err);
-    if (*err) {
-      (*err)->Index = lnum;
-      err = &((*err)->Next);
+    const auto failed = [lnum, &err]() {
+      if (err && *err) {
+        (*err)->Index = lnum;
+        err = &((*err)->Next);
+      }
+    };
+
+    if (!lg_parse_pattern(hPat, pat.c_str(), keyOpts, err)) {
+      failed();
       return;
     }
 
     for (const std::string& enc : encodings) {
-      lg_add_pattern(hFsm, hPat, enc.c_str(), lnum, err);
-      if (*err) {
-        (*err)->Index = lnum;
-        err = &((*err)->Next);
-        continue;
+      if (lg_add_pattern(hFsm, hPat, enc.c_str(), lnum, err) < 0) {
+        failed();
       }
     }
   }
-- 
2.43.0


From b2a9408f36708674f943ad05df144f4b9cc65b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:00 +0000
Subject: [PATCH 11/22] fix: name the source of the list in the errors of its
 patterns

Errors::outputErrors() writes the source when there are several pattern
files; being null, it put the stream into a failed state and no error was
shown at all.
---
 src/lib/lightgrep_c_api.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib/lightgrep_c_api.cpp b/src/lib/lightgrep_c_api.cpp
index 1cbb1a3..4cc8ad6 100644
--- a/src/lib/lightgrep_c_api.cpp
+++ b/src/lib/lightgrep_c_api.cpp
@@ -201,11 +201,13 @@ namespace {
                   const std::string& pat,
                   LG_KeyOptions* keyOpts,
                   const E& encodings,
+                  const char* source,
                   int lnum,
                   LG_Error**& err)
   {
-    const auto failed = [lnum, &err]() {
+    const auto failed = [source, lnum, &err]() {
       if (err && *err) {
+        (*err)->Source = source ? clone_c_str(source) : nullptr;
         (*err)->Index = lnum;
         err = &((*err)->Next);
       }
@@ -297,11 +299,11 @@ namespace {
           }
         }
 
-        addPatternHelper(hFsm, ph.get(), pat, &opts, etok, lnum, err);
+        addPatternHelper(hFsm, ph.get(), pat, &opts, etok, source, lnum, err);
       }
       else {
         // use default encodings and options
-        addPatternHelper(hFsm, ph.get(), pat, &opts, defEncs, lnum, err);
+        addPatternHelper(hFsm, ph.get(), pat, &opts, defEncs, source, lnum, err);
       }
     }
 
-- 
2.43.0


From 031299e1a8851c00c22af266c318407fc52d6218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:00 +0000
Subject: [PATCH 12/22] fix: return 0 from lg_add_pattern_list when every
 pattern was added

It returned -1 whenever the error pointer was not null, whether or not
there was an error, and 0 despite errors when it was.
---
 src/lib/lightgrep_c_api.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/lib/lightgrep_c_api.cpp b/src/lib/lightgrep_c_api.cpp
index 4cc8ad6..e7265ca 100644
--- a/src/lib/lightgrep_c_api.cpp
+++ b/src/lib/lightgrep_c_api.cpp
@@ -196,7 +196,7 @@ int lg_add_pattern(LG_HFSM hFsm,
 
 namespace {
   template <class E>
-  void addPatternHelper(LG_HFSM hFsm,
+  bool addPatternHelper(LG_HFSM hFsm,
                   LG_HPATTERN hPat,
                   const std::string& pat,
                   LG_KeyOptions* keyOpts,
@@ -215,14 +215,19 @@ namespace {
 
     if (!lg_parse_pattern(hPat, pat.c_str(), keyOpts, err)) {
       failed();
-      return;
+      return false;
     }
 
+    bool ok = true;
+
     for (const std::string& enc : encodings) {
       if (lg_add_pattern(hFsm, hPat, enc.c_str(), lnum, err) < 0) {
         failed();
+        ok = false;
       }
     }
+
+    return ok;
   }
 
   int addPatternList(LG_HFSM hFsm,
@@ -251,6 +256,8 @@ namespace {
       patterns, patterns + std::strlen(patterns), char_separator("\r\n")
     );
 
+    bool ok = true;
+
     cstr_tokenizer::const_iterator lcur(ltok.begin());
     const cstr_tokenizer::const_iterator lend(ltok.end());
     for (int lnum = 0; lcur != lend; ++lcur, ++lnum) {
@@ -260,6 +267,7 @@ namespace {
       const tokenizer::const_iterator cend(ctok.end());
 
       if (ccur == cend) { // FIXME: is this possible?
+        ok = false;
         if (err) {
           *err = makeError("no pattern", nullptr, nullptr, source, lnum);
           err = &((*err)->Next);
@@ -278,6 +286,7 @@ namespace {
         const tokenizer etok(el, char_separator(","));
 
         if (etok.begin() == etok.end()) {
+          ok = false;
           if (err) {
             *err = makeError(
               "no encoding list",
@@ -299,15 +308,15 @@ namespace {
           }
         }
 
-        addPatternHelper(hFsm, ph.get(), pat, &opts, etok, source, lnum, err);
+        ok &= addPatternHelper(hFsm, ph.get(), pat, &opts, etok, source, lnum, err);
       }
       else {
         // use default encodings and options
-        addPatternHelper(hFsm, ph.get(), pat, &opts, defEncs, source, lnum, err);
+        ok &= addPatternHelper(hFsm, ph.get(), pat, &opts, defEncs, source, lnum, err);
       }
     }
 
-    return err ? -1 : 0;
+    return ok ? 0 : -1;
   }
 }
 
-- 
2.43.0


From f3e1caadf9569229df1e46dbff59bf8a0df682f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:00 +0000
Subject: [PATCH 13/22] fix: report a bad option column of a pattern list and
 go on

The exception ended the list there, and its error, without line or
pattern, replaced the errors found until then.
---
 src/lib/lightgrep_c_api.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/lib/lightgrep_c_api.cpp b/src/lib/lightgrep_c_api.cpp
index e7265ca..bc4047d 100644
--- a/src/lib/lightgrep_c_api.cpp
+++ b/src/lib/lightgrep_c_api.cpp
@@ -298,15 +298,28 @@ namespace {
         }
 
         // read the options
-        if (++ccur != cend) {
-          opts.FixedString = boost::lexical_cast<bool>(*ccur);
+        try {
           if (++ccur != cend) {
-            opts.CaseInsensitive = boost::lexical_cast<bool>(*ccur);
+            opts.FixedString = boost::lexical_cast<bool>(*ccur);
             if (++ccur != cend) {
-              opts.UnicodeMode = boost::lexical_cast<bool>(*ccur);
+              opts.CaseInsensitive = boost::lexical_cast<bool>(*ccur);
+              if (++ccur != cend) {
+                opts.UnicodeMode = boost::lexical_cast<bool>(*ccur);
+              }
             }
           }
         }
+        catch (const boost::bad_lexical_cast&) {
+          ok = false;
+          if (err) {
+            *err = makeError(
+              "bad option, must be 0 or 1",
+              pat.c_str(), el.c_str(), source, lnum
+            );
+            err = &((*err)->Next);
+          }
+          continue;
+        }
 
         ok &= addPatternHelper(hFsm, ph.get(), pat, &opts, etok, source, lnum, err);
       }
-- 
2.43.0


From 02d088bb1042e02e9b895b5f87cf8e16a186261f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:23 +0000
Subject: [PATCH 14/22] fix: stop at the end of a pattern with an incomplete
 UTF-8 sequence

The decoder claimed to have used the missing continuation byte, too, so
that the conversion of the pattern ran on beyond its end.
---
 include/unicode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/unicode.h b/include/unicode.h
index 47bfe35..9ad5adb 100644
--- a/include/unicode.h
+++ b/include/unicode.h
@@ -24,7 +24,7 @@
 #define CONTINUATION(cp, i, end, used) \
   if (++i == end) { \
     cp = -1; \
-    return used; \
+    return used - 1; \
   } \
   b = *i & 0xFF; \
   if (b < 0x80 || 0xBF < b) { \
-- 
2.43.0


From 06d3ad1601cdd9a6e753ca04954a67dc85d8bb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:09 +0000
Subject: [PATCH 15/22] fix: reject repetition counts that overflow

a{4294967298} meant a{2}, and a{4294967295} a{4294967295,}.
---
 src/lib/re_grammar.ypp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/lib/re_grammar.ypp b/src/lib/re_grammar.ypp
index 9d4fbc0..18c86f6 100644
--- a/src/lib/re_grammar.ypp
+++ b/src/lib/re_grammar.ypp
@@ -7,6 +7,7 @@
 #include "encoders/utf8.h"
 
 #include <iomanip>
+#include <limits>
 #include <sstream>
 #include <stack>
 #include <string>
@@ -53,6 +54,7 @@ namespace {
     enum {
       NONATOMIC_REPETITON,
       REVERSED_REPETITION_BOUNDS,
+      REPETITION_TOO_LARGE,
       INVALID_ESCAPE,
       UNMATCHED_PARENTHESIS,
       UNMATCHED_BRACKET,
@@ -297,6 +299,15 @@ number:
 | number DIGIT
   {
     $$ = $1;
+    if ($$->Val > (std::numeric_limits<int>::max() - ($2 - 48)) / 10) {
+      throwError(
+        {
+          ParseError::REPETITION_TOO_LARGE,
+          @1.first_column, @2.last_column
+        },
+        ctx
+      );
+    }
     $$->Val = $$->Val*10 + ($2 - 48);
   }
 ;
@@ -1461,6 +1472,9 @@ namespace {
     case ParseError::REVERSED_REPETITION_BOUNDS:
       ss << e.First << " > " << e.Second << " in ";
       break;
+    case ParseError::REPETITION_TOO_LARGE:
+      ss << "repetition count too large ";
+      break;
     case ParseError::INVALID_ESCAPE:
       ss << "invalid escape ";
       break;
-- 
2.43.0


From cf35e3a84b5ba91465f500b8172adfec01e619a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:33 +0000
Subject: [PATCH 16/22] fix: keep the FSM usable after a program was created

Finalizing labelled (and, depending on the options, determinized) the
FSM itself: creating a second program from it did not return, nor did
creating one after adding further patterns.
---
 include/fsmthingy.h         |  3 ++-
 src/lib/fsmthingy.cpp       | 17 +++++++++++------
 src/lib/lightgrep_c_api.cpp |  4 ++--
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/include/fsmthingy.h b/include/fsmthingy.h
index 8cf92d1..1432be3 100644
--- a/include/fsmthingy.h
+++ b/include/fsmthingy.h
@@ -35,5 +35,6 @@ public:
 
   void addPattern(const ParseTree& tree, const char* chain, uint32_t label);
 
-  void finalizeGraph(uint32_t determinizeDepth);
+  // makes the graph to compile; patterns may still be added to Fsm after that
+  NFAPtr finalizeGraph(uint32_t determinizeDepth);
 };
diff --git a/src/lib/fsmthingy.cpp b/src/lib/fsmthingy.cpp
index fc40f42..01f3c26 100644
--- a/src/lib/fsmthingy.cpp
+++ b/src/lib/fsmthingy.cpp
@@ -45,17 +45,22 @@ void FSMThingy::addPattern(const ParseTree& tree, const char* chain, uint32_t la
   }
 }
 
-void FSMThingy::finalizeGraph(uint32_t determinizeDepth) {
+NFAPtr FSMThingy::finalizeGraph(uint32_t determinizeDepth) {
   if (Fsm->verticesSize() < 2) {
     throw std::runtime_error("No valid patterns were parsed");
   }
 
+  NFAPtr graph;
+
   if (determinizeDepth && !Fsm->Deterministic) {
-    NFAPtr dfa(new NFA(1, 2 * Fsm->verticesSize(), Fsm->edgesSize()));
-    dfa->TransFac = Fsm->TransFac;
-    Comp.subsetDFA(*dfa, *Fsm, determinizeDepth);
-    Fsm = dfa;
+    graph.reset(new NFA(1, 2 * Fsm->verticesSize(), Fsm->edgesSize()));
+    graph->TransFac = Fsm->TransFac;
+    Comp.subsetDFA(*graph, *Fsm, determinizeDepth);
+  }
+  else {
+    graph.reset(new NFA(*Fsm));
   }
 
-  Comp.labelGuardStates(*Fsm);
+  Comp.labelGuardStates(*graph);
+  return graph;
 }
diff --git a/src/lib/lightgrep_c_api.cpp b/src/lib/lightgrep_c_api.cpp
index bc4047d..59fbd14 100644
--- a/src/lib/lightgrep_c_api.cpp
+++ b/src/lib/lightgrep_c_api.cpp
@@ -391,10 +391,10 @@ namespace {
       lg_destroy_program
     );
 
-    hFsm->Impl->finalizeGraph(opts->DeterminizeDepth);
+    const NFAPtr graph = hFsm->Impl->finalizeGraph(opts->DeterminizeDepth);
 
     hProg->PMap = hFsm->PMap;
-    hProg->Prog = Compiler::createProgram(*hFsm->Impl->Fsm);
+    hProg->Prog = Compiler::createProgram(*graph);
 
     return hProg.release();
   }
-- 
2.43.0


From 8db168d1fbb5462dc267fe673ab4fa507a51fbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:18 +0000
Subject: [PATCH 17/22] fix: refuse to add a pattern that was not parsed

---
 include/parsetree.h         |  2 +-
 src/lib/lightgrep_c_api.cpp | 13 +++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/parsetree.h b/include/parsetree.h
index 89a0b4d..abbcc5e 100644
--- a/include/parsetree.h
+++ b/include/parsetree.h
@@ -28,7 +28,7 @@ uint32_t nodesUpperBound(const std::string& expr);
 
 class ParseTree {
 public:
-  ParseNode* Root;
+  ParseNode* Root = nullptr;
 
   template <class... Args>
   ParseNode* add(Args&&... args) {
diff --git a/src/lib/lightgrep_c_api.cpp b/src/lib/lightgrep_c_api.cpp
index 59fbd14..4ceba3f 100644
--- a/src/lib/lightgrep_c_api.cpp
+++ b/src/lib/lightgrep_c_api.cpp
@@ -101,8 +101,13 @@ int lg_parse_pattern_slice(LG_HPATTERN hPattern,
   };
 
   int result = trapWithVals([hPattern](){ parseAndReduce(hPattern->Pat, hPattern->Tree); }, 1, 0, err);
-  if (result == 0 && err && *err) {
-    (*err)->Pattern = clone_c_str(hPattern->Pat.Expression.c_str());
+  if (result == 0) {
+    // leave neither a partial tree nor that of an earlier pattern behind
+    hPattern->Tree.Root = nullptr;
+
+    if (err && *err) {
+      (*err)->Pattern = clone_c_str(hPattern->Pat.Expression.c_str());
+    }
   }
 
   return result;
@@ -147,6 +152,10 @@ void lg_destroy_fsm(LG_HFSM hFsm) {
 
 namespace {
   int addPattern(LG_HFSM hFsm, LG_HPATTERN hPattern, const char* encoding, uint64_t userIndex) {
+    if (!hPattern->Tree.Root) {
+      THROW_RUNTIME_ERROR_WITH_OUTPUT("No pattern was parsed successfully");
+    }
+
     const uint32_t label = hFsm->PMap->count();
     hFsm->Impl->addPattern(hPattern->Tree, encoding, label);
 
-- 
2.43.0


From 00f13d9bbcea2222085fa8280d152bdca56a3274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:47 +0000
Subject: [PATCH 18/22] fix: do not duplicate threads with the same start at a
 checked state

---
 include/vm.h   |  4 ++++
 src/lib/vm.cpp | 21 +++++++++++++++++++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/include/vm.h b/include/vm.h
index 26186ad..b7f872f 100644
--- a/include/vm.h
+++ b/include/vm.h
@@ -120,6 +120,10 @@ private:
 
   SparseSet CheckLabels;
 
+  // starts of the threads which passed a check without taking the lock
+  SparseSet CheckSeen;
+  std::vector<uint64_t> CheckStarts;
+
   bool LiveNoLabel;
   SparseSet Live;
 
diff --git a/src/lib/vm.cpp b/src/lib/vm.cpp
index 23a0e26..f196c71 100644
--- a/src/lib/vm.cpp
+++ b/src/lib/vm.cpp
@@ -124,6 +124,7 @@ Vm::Vm(ProgramPtr prog):
   ProgEnd(&(*prog)[prog->size() - 2]), // not end, but penultimate, guaranteed to be a halt; threads die just short of the finish
   First(), Active(1, &(*prog)[0]), Next(),
   CheckLabels(prog->MaxCheck+1),
+  CheckSeen(prog->MaxCheck+1), CheckStarts(prog->MaxCheck+1),
   LiveNoLabel(false), Live(prog->MaxLabel+1),
   MatchEnds(prog->MaxLabel+1), MatchEndsMax(0),
   CurHitFn(nullptr), UserData(nullptr)
@@ -164,6 +165,7 @@ void Vm::reset() {
   Next.clear();
 
   CheckLabels.clear();
+  CheckSeen.clear();
 
   LiveNoLabel = false;
   Live.clear();
@@ -337,16 +339,30 @@ inline bool Vm::_executeEpsilon(const Instruction* const base, ThreadList::itera
 
   case CHECK_HALT_OP:
     {
-      if (CheckLabels.find(instr.Op.Offset)) {
+      const uint32_t check = instr.Op.Offset;
+
+      if (CheckLabels.find(check)) {
         // another thread has the lock, we die
         t->PC = 0;
         return false;
       }
       else if (!_liveCheck(t->Start, t->Label)) {
         // nothing blocks us, we take the lock
-        CheckLabels.insert(instr.Op.Offset);
+        CheckLabels.insert(check);
+      }
+      else if (!CheckSeen.find(check)) {
+        CheckSeen.insert(check);
+      }
+      else if (CheckStarts[check] == t->Start) {
+        // a thread with our start and higher priority is already here and
+        // does all we could do, we die
+        t->PC = 0;
+        return false;
       }
 
+      // threads are ordered by start, so the last one seen suffices
+      CheckStarts[check] = t->Start;
+
       t->advance(InstructionSize<CHECK_HALT_OP>::VAL);
       return true;
     }
@@ -493,6 +509,7 @@ inline void Vm::_cleanup() {
   Next.clear();
 
   CheckLabels.clear();
+  CheckSeen.clear();
 
   LiveNoLabel = false;
   Live.clear();
-- 
2.43.0


From 2b077c117c918882f758999f3d99ea3dac196fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:12 +0000
Subject: [PATCH 19/22] fix: show the context of hits that reach outside the
 buffer, and of many lines

---
 src/cmd/hitwriter.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/cmd/hitwriter.cpp b/src/cmd/hitwriter.cpp
index 122056f..b098804 100644
--- a/src/cmd/hitwriter.cpp
+++ b/src/cmd/hitwriter.cpp
@@ -29,7 +29,7 @@ const char* find_leading_context(const char* const bbeg, const char* const hbeg,
   const auto lend = std::reverse_iterator<const char*>(bbeg);
 
   auto lnl = lbeg - 1;
-  for (int i = lines + 1; i > 0 && lnl != lend; --i) {
+  for (size_t i = 0; i <= lines && lnl != lend; ++i) {
     lnl = std::find(lnl + 1, lend, '\n');
   }
   return bbeg + (lend - lnl);
@@ -38,7 +38,7 @@ const char* find_leading_context(const char* const bbeg, const char* const hbeg,
 const char* find_trailing_context(const char* const hend, const char* const bend, size_t lines) {
   // context right of hit
   auto rnl = hend - 1;
-  for (int i = lines + 1; i > 0 && rnl != bend; --i) {
+  for (size_t i = 0; i <= lines && rnl != bend; ++i) {
     rnl = std::find(rnl + 1, bend, '\n');
   }
 
@@ -192,8 +192,15 @@ void HitOutputData::setBuffer(const char* buf, size_t blen, uint64_t boff) {
 }
 
 HitBuffer HitOutputData::decodeContext(const LG_SearchHit& searchHit) {
-  const char* const hbeg = CtxBuf.Buf + (searchHit.Start < CtxBuf.BufOff ? 0 : searchHit.Start - CtxBuf.BufOff);
-  const char* const hend = CtxBuf.Buf + std::min(searchHit.End - CtxBuf.BufOff, static_cast<uint64_t>(CtxBuf.BufLen));
+  // the part of the hit which lies in the buffer
+  const uint64_t bufEnd = CtxBuf.BufOff + CtxBuf.BufLen;
+  const LG_Window inner{
+    std::clamp(searchHit.Start, CtxBuf.BufOff, bufEnd),
+    std::clamp(searchHit.End, CtxBuf.BufOff, bufEnd)
+  };
+
+  const char* const hbeg = CtxBuf.Buf + (inner.begin - CtxBuf.BufOff);
+  const char* const hend = CtxBuf.Buf + (inner.end - CtxBuf.BufOff);
 
   // beginning of context (left of hit)
   const char* const cbeg = OutInfo.BeforeContext < 0 ? hbeg : find_leading_context(CtxBuf.Buf, hbeg, OutInfo.BeforeContext);
@@ -205,9 +212,7 @@ HitBuffer HitOutputData::decodeContext(const LG_SearchHit& searchHit) {
 
   // transcode the context to UTF-8
   LG_Error* err = nullptr;
-  LG_Window inner{searchHit.Start, searchHit.End},
-            outer,
-            decodedHit;
+  LG_Window outer, decodedHit;
   const char* utf8 = nullptr;
   const LG_PatternInfo* info = lg_prog_pattern_info(Prog, searchHit.KeywordIndex);
 
-- 
2.43.0


From 9521968f86c0925209f4fd10948ebf40808aad82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:34 +0000
Subject: [PATCH 20/22] fix: keep the last block for hits reported when the
 search is closed

---
 src/cmd/searchcontroller.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/cmd/searchcontroller.cpp b/src/cmd/searchcontroller.cpp
index 7f051df..bcc7805 100644
--- a/src/cmd/searchcontroller.cpp
+++ b/src/cmd/searchcontroller.cpp
@@ -68,14 +68,9 @@ bool SearchController::searchFile(
     std::tie(buf, blkSize) = fut.get(); // block on i/o thread completion
   }
 
-  // assert: all data has been read, offset + blkSize == file size,
-  // cur is last block
-  hinfo->setBuffer(buf, blkSize, offset);
-
-  lg_search(searcher, buf, buf + blkSize, offset, hinfo, callback);
-
+  // assert: all data has been read, offset == file size; the output still
+  // has the last block, from which hits reported now take their context
   lg_closeout_search(searcher, hinfo, callback);
-  offset += blkSize;  // be sure to count the last block
 
   TotalTime += searchClock.elapsed();
   BytesSearched += offset;
-- 
2.43.0


From 1f2f2a8727deee68d701d181b1a935e7bff74ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:55 +0000
Subject: [PATCH 21/22] fix: allow empty files with memory mapping

---
 src/cmd/reader.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/cmd/reader.cpp b/src/cmd/reader.cpp
index bc7d8b1..9f1e572 100644
--- a/src/cmd/reader.cpp
+++ b/src/cmd/reader.cpp
@@ -18,6 +18,7 @@
 #include <algorithm>
 #include <cerrno>
 #include <cstring>
+#include <filesystem>
 #include <stdexcept>
 
 #include "reader.h"
@@ -37,6 +38,15 @@ FILE* try_open(const std::string& path) {
   }
 }
 
+bip::mapped_region map_file(const bip::file_mapping& m, const std::string& path) {
+  // an empty file cannot be mapped
+  std::error_code err;
+  if (std::filesystem::file_size(path, err) == 0 && !err) {
+    return bip::mapped_region();
+  }
+  return bip::mapped_region(m, bip::read_only);
+}
+
 }
 
 FileReader::FileReader(const std::string& path, size_t blockSize):
@@ -67,7 +77,7 @@ std::future<std::pair<const char*, size_t>> FileReader::read(size_t len){
 }
 
 MemoryMappedFileReader::MemoryMappedFileReader(const std::string& path):
-  M(path.c_str(), bip::read_only), R(M, bip::read_only),
+  M(path.c_str(), bip::read_only), R(map_file(M, path)),
   Buf(static_cast<const char*>(R.get_address())), Bend(Buf + R.get_size())
 {
   R.advise(bip::mapped_region::advice_sequential);
-- 
2.43.0


From ed32904cd61bb08d388ebe63686e2eef53fd3f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:38 +0000
Subject: [PATCH 22/22] fix: let generated samples match, and be no more than
 requested

---
 src/lib/matchgen.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib/matchgen.cpp b/src/lib/matchgen.cpp
index bb3afbc..4f3f65e 100644
--- a/src/lib/matchgen.cpp
+++ b/src/lib/matchgen.cpp
@@ -93,6 +93,9 @@ void matchgen(const NFA& g, std::set<std::string>& matches,
 
         // report the match
         matches.insert(match);
+        if (matches.size() >= maxMatches) {
+          return;
+        }
 
         // should we try to extend the match?
         if (extend(rng)) {
@@ -148,7 +151,13 @@ void matchgen(const NFA& g, std::set<std::string>& matches,
       if (scount == 0) {
         // backtrack if all successors exhausted
         path.pop_back();
+        if (path.empty()) {
+          break;
+        }
+
+        // v goes back onto the path when it is visited again
         v = path.back();
+        path.pop_back();
       }
       else {
         // otherwise move on to s
-- 
2.43.0

