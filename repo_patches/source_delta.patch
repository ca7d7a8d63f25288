From 59a927afea80f1a5403bd9f235ff3dc270025d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:09 +0000
Subject: [PATCH 01/81] fix: case-insensitive merge of string patterns with
 one-case regex moves

With option i, merging the tree DFA of string patterns with the DFA moves of
regex patterns assumed that a move includes both the upper and lower case of a
letter. Moves on a single case, such as \u and \L, were dropped or replaced
by the move of the other case, e.g. (?i)bab|\L|a and b|abc|\u on input A.
---
 lib/pattern.cpp | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 3d59bc3..1af14d7 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -1375,12 +1375,18 @@ void Pattern::compile(
                 Positions pos(i->second);
                 if (opt_.i && std::isalpha(c))
                 {
-                  if (c >= 'a' && c <= 'z')
+                  // upper and lower case share a target state when this move includes both, but a move may include only one of the two
+                  bool both = common.contains(reversecase(c));
+                  if (!both || c == lowercase(c))
                   {
-                    DFA::State *target_state = last_state = last_state->next = dfa_.state(state->tnode->edge[c], pos);
+                    DFA::State *target_state = last_state = last_state->next = dfa_.state(state->tnode->edge[lowercase(c)], pos);
                     state->edges[c] = std::pair<Char,DFA::State*>(c, target_state);
-                    state->edges[uppercase(c)] = std::pair<Char,DFA::State*>(uppercase(c), target_state);
-                    eno_ += 2;
+                    ++eno_;
+                    if (both)
+                    {
+                      state->edges[uppercase(c)] = std::pair<Char,DFA::State*>(uppercase(c), target_state);
+                      ++eno_;
+                    }
                   }
                 }
                 else
@@ -1402,12 +1408,6 @@ void Pattern::compile(
             ++i;
           }
         }
-        if (opt_.i)
-        {
-          // normalize by removing upper case if option i (case insensitivem matching) is enabled
-          static const uint64_t upper[5] = { 0x0000000000000000, 0x0000000007FFFFFE, 0, 0, 0 };
-          chars -= Chars(upper);
-        }
         if (chars.any())
         {
           Char lo = chars.lo();
@@ -1416,15 +1416,24 @@ void Pattern::compile(
           {
             if (chars.contains(c))
             {
-              DFA::State *target_state = last_state = last_state->next = dfa_.state(state->tnode->edge[c]);
               if (opt_.i && std::isalpha(c))
               {
-                state->edges[lowercase(c)] = std::pair<Char,DFA::State*>(lowercase(c), target_state);
-                state->edges[uppercase(c)] = std::pair<Char,DFA::State*>(uppercase(c), target_state);
-                eno_ += 2;
+                bool both = chars.contains(reversecase(c));
+                if (!both || c == lowercase(c))
+                {
+                  DFA::State *target_state = last_state = last_state->next = dfa_.state(state->tnode->edge[lowercase(c)]);
+                  state->edges[c] = std::pair<Char,DFA::State*>(c, target_state);
+                  ++eno_;
+                  if (both)
+                  {
+                    state->edges[uppercase(c)] = std::pair<Char,DFA::State*>(uppercase(c), target_state);
+                    ++eno_;
+                  }
+                }
               }
               else
               {
+                DFA::State *target_state = last_state = last_state->next = dfa_.state(state->tnode->edge[c]);
                 state->edges[c] = std::pair<Char,DFA::State*>(c, target_state);
                 ++eno_;
               }
-- 
2.43.0


From 0b9189af2fb27d7f3d00a893f8d46287c9f23e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 02/81] fix: case-insensitive matching of an escape at the end
 of the modified regex

compile_transition() checked the (?i) modifier at the location after the
escape, which is outside of the modified range when the escape ends it, so
that for example (?i)a\x62 did not match aB.
---
 lib/pattern.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 1af14d7..5c8e87c 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -1871,7 +1871,8 @@ void Pattern::compile_transition(
                       trim_anchors(follow, *k);
                       break;
                     default:
-                      c = parse_esc(loc, &chars);
+                      Location esc_loc = loc;
+                      c = parse_esc(esc_loc, &chars);
                       if (c <= 'z' && std::isalpha(c) && is_modified('i', modifiers, loc))
                       {
                         chars.insert(uppercase(c));
-- 
2.43.0


From 9a15fac974c1a3ae9723ae72a432b46290073dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:55 +0000
Subject: [PATCH 03/81] hook: REFLEX_VERIF_BLOCK overrides the matcher buffer
 block size

---
 include/reflex/absmatcher.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index ff9cce7..b6e8e7e 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -101,7 +101,11 @@ class AbstractMatcher {
     static const int UNK      = 256;        ///< unknown/undefined character meta-char marker
     static const int BOB      = 257;        ///< begin of buffer meta-char marker
     static const int EOB      = EOF;        ///< end of buffer meta-char marker
+#ifdef REFLEX_VERIF_BLOCK // verification builds shrink the buffer to exercise shifting and growing it
+    static const size_t BLOCK = REFLEX_VERIF_BLOCK;
+#else
     static const size_t BLOCK = (256*1024); ///< buffer size and growth, buffer is initially 2*BLOCK size, at least 4096 bytes
+#endif
     static const size_t REDO  = 0x7FFFFFFF; ///< reflex::Matcher::accept() returns "redo" with reflex::Matcher option "A"
     static const size_t EMPTY = 0xFFFFFFFF; ///< accept() returns "empty" last split at end of input
   };
-- 
2.43.0


From 0984720222d0f3dc66e974a7bef9b2a9f02f3fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:14 +0000
Subject: [PATCH 04/81] fix: split drops or misses input after a match attempt
 that reads up to the end of input

---
 include/reflex/matcher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index 0e65be7..53fafaf 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -801,7 +801,7 @@ unrolled:
       DBGLOG("Split: len = %zu cap = %zu cur = %zu pos = %zu end = %zu txt-buf = %zu eob = %d got = %d", len_, cap_, cur_, pos_, end_, txt_-buf_, (int)eof_, got_);
       if (cap_ == 0 || (cur_ == static_cast<size_t>(txt_ - buf_) && !at_bob()))
       {
-        if (!hit_end() && (txt_ + len_ < buf_ + end_ || peek() != EOF))
+        if (txt_ + len_ < buf_ + end_ || peek() != EOF)
         {
           ++len_;
           DBGLOG("Split continue: len = %zu", len_);
-- 
2.43.0


From 6cfbe8cf213cda2c7b0f15f33094326697988a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:07 +0000
Subject: [PATCH 05/81] fix: find stops before the end of input when the
 pattern loops back to its start

---
 include/reflex/matcher.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index 53fafaf..309d1d4 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -835,13 +835,13 @@ unrolled:
     {
       if (method == Const::FIND)
       {
+        if (anc_)
+        {
+          cur_ = txt_ - buf_; // reset current to pattern start when a word boundary was encountered
+          anc_ = false;
+        }
         if (!at_end())
         {
-          if (anc_)
-          {
-            cur_ = txt_ - buf_; // reset current to pattern start when a word boundary was encountered
-            anc_ = false;
-          }
           if (pos_ > cur_) // if we didn't fail on META alone
           {
             if (advance())
@@ -854,8 +854,8 @@ unrolled:
               return cap_ = 1;
             }
           }
-          txt_ = buf_ + cur_;
         }
+        txt_ = buf_ + cur_; // no match at the current position, continue after it (if not at the end)
       }
       else
       {
-- 
2.43.0


From b1aab6ae9ae66b6aaf418080debeaf0ced01863e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:32 +0000
Subject: [PATCH 06/81] fix: split loses a single remaining character after an
 empty match at the begin of input

---
 include/reflex/matcher.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index 309d1d4..8a90b26 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -818,6 +818,7 @@ unrolled:
         DBGLOG("END Matcher::match()");
         return cap_;
       }
+      pos_ = cur_; // discard lookahead read past the match to check for the end of input
       if (cur_ == 0 && at_bob() && at_end())
       {
         cap_ = Const::EMPTY;
-- 
2.43.0


From 868daaadfa5a1a9a8a144ebc679ea2dc7f513b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:32 +0000
Subject: [PATCH 07/81] fix: input() after text() returns a negative value for
 bytes above 0x7F

---
 include/reflex/absmatcher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index b6e8e7e..fcdadde 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -969,7 +969,7 @@ class AbstractMatcher {
     if (pos_ < end_)
     {
       if (chr_ != '\0' && buf_ + pos_ == txt_ + len_)
-        got_ = chr_;
+        got_ = static_cast<unsigned char>(chr_);
       else
         got_ = static_cast<unsigned char>(buf_[pos_]);
       ++pos_;
-- 
2.43.0


From 784a7899f2f40f030283c8eaba56dfcc7cf45224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:32 +0000
Subject: [PATCH 08/81] fix: peek() after text() returns the 0 that terminates
 the text

---
 include/reflex/absmatcher.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index fcdadde..a887415 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -1050,6 +1050,8 @@ class AbstractMatcher {
     /// @returns the character (unsigned char 0..255) or EOF (-1)
   {
     DBGLOG("AbstractMatcher::peek()");
+    if (chr_ != '\0' && pos_ < end_ && buf_ + pos_ == txt_ + len_)
+      return static_cast<unsigned char>(chr_); // this character is replaced by the \0 of text()
 #if defined(WITH_FAST_GET)
     return pos_ < end_ ? static_cast<unsigned char>(buf_[pos_]) : peek_more();
 #else
-- 
2.43.0


From 5465928f9c13c9030b6f787fa9f21ae3da35e907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:32 +0000
Subject: [PATCH 09/81] fix: winput() does not decode multibyte characters

---
 include/reflex/absmatcher.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index a887415..456d3fe 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -995,11 +995,8 @@ class AbstractMatcher {
     if ((c = input()) == EOF)
       return EOF;
     if (static_cast<unsigned char>(*s++ = c) >= 0x80)
-    {
-      while (((++*s = get()) & 0xC0) == 0x80)
-        continue;
-      got_ = static_cast<unsigned char>(buf_[cur_ = --pos_]);
-    }
+      while (s < tmp + 6 && (peek() & 0xC0) == 0x80)
+        *s++ = input();
     return utf8(tmp);
   }
   /// Put back one character (8-bit) on the input character sequence for matching, DANGER: invalidates the previous text() pointer and match info, unput is not honored when matching in-place using buffer(base, size) and nothing has been read yet.
-- 
2.43.0


From 6a606dd17256274bf56c53c419827ced124262f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:32 +0000
Subject: [PATCH 10/81] fix: skip() to a character that is not found leaves a
 NULL match text

---
 include/reflex/absmatcher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 456d3fe..409b459 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -1188,7 +1188,7 @@ class AbstractMatcher {
         break;
       }
     }
-    set_current(end_);
+    set_current_match(end_);
     return false;
   }
   /// Skip input until the specified Unicode character is consumed and return true, or EOF is reached and return false.
-- 
2.43.0


From 0585df447e94d8a78cb7df661262e56c90a86711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:32 +0000
Subject: [PATCH 11/81] fix: skip() to a string that is cut off by the end of
 input does not skip all input

---
 include/reflex/absmatcher.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 409b459..ff49649 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -1215,12 +1215,15 @@ class AbstractMatcher {
       {
         if (*t == '\0')
         {
-          set_current(pos_);
+          set_current_match(pos_);
           return true;
         }
         int c = get();
         if (c == EOF)
+        {
+          set_current_match(pos_);
           return false;
+        }
         if (c != static_cast<unsigned char>(*t))
           break;
         ++t;
-- 
2.43.0


From ea72ce71137db423b3a91290dc26f6791b9b5764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:32 +0000
Subject: [PATCH 12/81] fix: wunput() after text() corrupts the buffer

---
 include/reflex/absmatcher.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index ff49649..761a55b 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -1024,6 +1024,7 @@ class AbstractMatcher {
   void wunput(int c) ///< character to put back
   {
     DBGLOG("AbstractMatcher::wunput()");
+    reset_text();
     char tmp[8];
     size_t n = utf8(c, tmp);
     if (pos_ >= n)
-- 
2.43.0


From fd03af8048b197eecd39178fd773aeb61bbf0fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:36 +0000
Subject: [PATCH 13/81] fix: text() at the end of the buffered input corrupts
 the input that is read next

---
 include/reflex/absmatcher.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 761a55b..cc243f6 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -559,7 +559,8 @@ class AbstractMatcher {
   {
     if (chr_ == '\0')
     {
-      chr_ = txt_[len_];
+      if (txt_ + len_ < buf_ + end_)
+        chr_ = txt_[len_]; // otherwise there is nothing to restore yet
       txt_[len_] = '\0';
     }
     return txt_;
-- 
2.43.0


From 31ec60c06e9891704c73b8a95be6976da2350e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:36 +0000
Subject: [PATCH 14/81] fix: characters put back at the end of input are not
 matched

---
 include/reflex/absmatcher.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index cc243f6..46077c8 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -1005,6 +1005,8 @@ class AbstractMatcher {
   {
     DBGLOG("AbstractMatcher::unput()");
     reset_text();
+    if (got_ == Const::EOB)
+      got_ = Const::UNK; // no longer at the end of input
     if (pos_ > 0)
     {
       --pos_;
@@ -1026,6 +1028,8 @@ class AbstractMatcher {
   {
     DBGLOG("AbstractMatcher::wunput()");
     reset_text();
+    if (got_ == Const::EOB)
+      got_ = Const::UNK; // no longer at the end of input
     char tmp[8];
     size_t n = utf8(c, tmp);
     if (pos_ >= n)
-- 
2.43.0


From ce4a35f17f7e8823f53861b577d18e4142df64e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:36 +0000
Subject: [PATCH 15/81] fix: anchors after less() look at the character before
 the truncated text

---
 include/reflex/absmatcher.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 46077c8..95535de 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -1271,10 +1271,9 @@ class AbstractMatcher {
     {
       DBGCHK(pos_ < max_);
       reset_text();
-      pos_ = txt_ - buf_ + n;
+      set_current(txt_ - buf_ + n);
       DBGCHK(pos_ < max_);
       len_ = n;
-      cur_ = pos_;
     }
   }
   /// Cast this matcher to positive integer indicating the nonzero capture index of the matched text in the pattern, same as AbstractMatcher::accept.
-- 
2.43.0


From 88b3d18d8e2969601833d9733dfce554ca861a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:23 +0000
Subject: [PATCH 16/81] fix: \B between a letter or digit and an underscore

---
 include/reflex/absmatcher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 95535de..81bd4a6 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -60,7 +60,7 @@ namespace reflex {
 inline int isword(int c) ///< Character to check
   /// @returns nonzero if argument c is in `[A-Za-z0-9_]`, zero otherwise
 {
-  return std::isalnum(static_cast<unsigned char>(c)) | (c == '_');
+  return (std::isalnum(static_cast<unsigned char>(c)) != 0) | (c == '_');
 }
 
 /// The abstract matcher base class template defines an interface for all pattern matcher engines.
-- 
2.43.0


From 682c243ed2ca00f7f030ad42c12b8940b55cc039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:29 +0000
Subject: [PATCH 17/81] fix: word boundary at the end of input looks at a stale
 character

---
 include/reflex/matcher.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index 8a90b26..6e0230a 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -360,17 +360,23 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
     anc_ = true;
     return !isword(c0) && isword(c1);
   }
+  /// Returns the next character at the begin of the match, EOF when there is none.
+  inline int next_char() const
+    /// @returns the next character, 0..255 or EOF
+  {
+    return txt_ + len_ < buf_ + end_ ? static_cast<unsigned char>(txt_[len_]) : EOF;
+  }
   /// FSM code META EWB.
   inline bool FSM_META_EWB()
   {
     anc_ = true;
-    return isword(got_) && !isword(static_cast<unsigned char>(txt_[len_]));
+    return isword(got_) && !isword(next_char());
   }
   /// FSM code META BWB.
   inline bool FSM_META_BWB()
   {
     anc_ = true;
-    return !isword(got_) && (opt_.W || isword(static_cast<unsigned char>(txt_[len_])));
+    return !isword(got_) && (opt_.W || isword(next_char()));
   }
   /// FSM code META NWE.
   inline bool FSM_META_NWE(int c0, int c1)
@@ -382,7 +388,7 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
   inline bool FSM_META_NWB()
   {
     anc_ = true;
-    return isword(got_) == isword(static_cast<unsigned char>(txt_[len_]));
+    return isword(got_) == isword(next_char());
   }
  protected:
   typedef std::vector<size_t> Stops; ///< indent margin/tab stops
@@ -628,7 +634,7 @@ redo:
                   DBGLOG("EWB? %d", at_eow());
                   anc_ = true;
                   if (jump == Pattern::Const::IMAX && isword(got_) &&
-                      !isword(static_cast<unsigned char>(txt_[len_])))
+                      !isword(next_char()))
                   {
                     jump = Pattern::index_of(opcode);
                     if (jump == Pattern::Const::LONG)
@@ -640,7 +646,7 @@ redo:
                   DBGLOG("BWB? %d", at_bow());
                   anc_ = true;
                   if (jump == Pattern::Const::IMAX && !isword(got_) &&
-                      (opt_.W || isword(static_cast<unsigned char>(txt_[len_]))))
+                      (opt_.W || isword(next_char())))
                   {
                     jump = Pattern::index_of(opcode);
                     if (jump == Pattern::Const::LONG)
@@ -663,7 +669,7 @@ redo:
                   DBGLOG("NWB? %d %d", at_bow(), at_eow());
                   anc_ = true;
                   if (jump == Pattern::Const::IMAX &&
-                      isword(got_) == isword(static_cast<unsigned char>(txt_[len_])))
+                      isword(got_) == isword(next_char()))
                   {
                     jump = Pattern::index_of(opcode);
                     if (jump == Pattern::Const::LONG)
-- 
2.43.0


From fd4ea3953fded4eb2112276e9c432da53bab1189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:47 +0000
Subject: [PATCH 18/81] fix: UTF-8 pattern of a range whose bounds have an
 inner 80 or BF byte

---
 lib/utf8.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/utf8.cpp b/lib/utf8.cpp
index a5316f3..c4a0634 100644
--- a/lib/utf8.cpp
+++ b/lib/utf8.cpp
@@ -116,6 +116,14 @@ std::string latin1(int a, int b, int esc, bool brackets)
   return regex_range(buf, a, b, esc, brackets);
 }
 
+/// Check that the bytes s[i..n-1] are all equal to c.
+static bool all_bytes(const unsigned char *s, size_t i, size_t n, unsigned char c)
+{
+  while (i < n && s[i] == c)
+    ++i;
+  return i >= n;
+}
+
 /// Convert a UCS-4 range [a,b] to a UTF-8 regex pattern.
 std::string utf8(int a, int b, int esc, const char *par, bool strict)
 {
@@ -195,7 +203,7 @@ std::string utf8(int a, int b, int esc, const char *par, bool strict)
         ++i;
         while (i + 1 < n)
         {
-          if (as[i + 1] == 0x80) // pattern compression
+          if (all_bytes(as, i + 1, n, 0x80)) // pattern compression
           {
             regex.append(regex_range(buf, as[i], 0xbf, esc));
             for (++i; i < n && as[i] == 0x80; ++i)
@@ -236,7 +244,7 @@ std::string utf8(int a, int b, int esc, const char *par, bool strict)
         ++i;
         while (i + 1 < n)
         {
-          if (bs[i + 1] == 0xbf) // pattern compression
+          if (all_bytes(bs, i + 1, n, 0xbf)) // pattern compression
           {
             regex.append(regex_range(buf, 0x80, bs[i], esc));
             for (++i; i < n && bs[i] == 0xbf; ++i)
-- 
2.43.0


From c0e934eefa2409b9b3ed40a3a6f3b319b691ec4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:47 +0000
Subject: [PATCH 19/81] fix: inverted class escapes in Unicode bracket lists,
 such as [\W] and [\D]

---
 lib/convert.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 5c930fb..5318492 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -562,6 +562,9 @@ static void insert_escape_class(const char *pattern, size_t pos, const std::map<
         if (last < 0xD800)
           ranges.insert(last, 0xD7FF);
         ranges.insert(0xE000, 0x10FFFF);
+      }
+      else
+      {
         ranges.insert(last, 0x10FFFF);
       }
     }
-- 
2.43.0


From f39751427fd5ff504ca08b2495c8a0b1d90da3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:47 +0000
Subject: [PATCH 20/81] fix: [[:>:]] is the end of a word

---
 lib/convert.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 5318492..51d9014 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -1813,12 +1813,12 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
           {
             if (!supports_escape(signature, 'b') || !supports_escape(signature, 'w') || !supports_modifier(signature, '<'))
               throw regex_error(regex_error::invalid_anchor, pattern, pos);
-            // translate \< to \b(?<=\w)
-            regex.append(&pattern[loc], pos - loc - 1).append("\\b(?<=\\w)");
+            // translate \> to \b(?<=\w)
+            regex.append(&pattern[loc], pos - loc).append("\\b(?<=\\w)");
           }
           else
           {
-            regex.append(&pattern[loc], pos - loc).append("\\<");
+            regex.append(&pattern[loc], pos - loc).append("\\>");
           }
           pos += 6;
           loc = pos + 1;
-- 
2.43.0


From cc7716ff1b0e4ef4be56bb9b3899c321658350ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:47 +0000
Subject: [PATCH 21/81] fix: \B and \Y translate to the non-word boundary

---
 lib/convert.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 51d9014..154c116 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -1100,7 +1100,7 @@ static void convert_escape_char(const char *pattern, size_t len, size_t& loc, si
         if (!supports_escape(signature, 'Y'))
           throw regex_error(regex_error::invalid_anchor, pattern, pos);
         // translate \B to \Y
-        regex.append(&pattern[loc], pos - loc - 1).append("\\y");
+        regex.append(&pattern[loc], pos - loc - 1).append("\\Y");
         loc = pos + 1;
       }
       else if (c == 'Y')
@@ -1108,7 +1108,7 @@ static void convert_escape_char(const char *pattern, size_t len, size_t& loc, si
         if (!supports_escape(signature, 'B'))
           throw regex_error(regex_error::invalid_anchor, pattern, pos);
         // translate \Y to \B
-        regex.append(&pattern[loc], pos - loc - 1).append("\\b");
+        regex.append(&pattern[loc], pos - loc - 1).append("\\B");
         loc = pos + 1;
       }
       else if (c == '<')
-- 
2.43.0


From 8482de41d06c476ebf3dffc502970d21c6357bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:01 +0000
Subject: [PATCH 22/81] fix: reject a repeat {n,m} whose upper bound exceeds
 the limit

---
 lib/pattern.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 5c8e87c..fe8a3db 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -768,9 +768,12 @@ void Pattern::parse3(
       {
         if (std::isdigit(at(loc + 1)))
         {
-          m = 0;
+          k = 0;
           for (Location i = 0; i < 7 && std::isdigit(c = at(++loc)); ++i)
-            m = 10 * m + (c - '0');
+            k = 10 * k + (c - '0');
+          if (k > Position::MAXITER)
+            error(regex_error::exceeds_limits, loc);
+          m = static_cast<Iter>(k);
         }
         else
         {
-- 
2.43.0


From cba78070f1d00325a659a60b94cbe1778d8df045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:01 +0000
Subject: [PATCH 23/81] fix: non-ASCII bytes in bracket lists are dropped

---
 lib/convert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 154c116..9567fc8 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -912,7 +912,7 @@ static void insert_list(const char *pattern, size_t len, size_t& pos, convert_fl
   }
   while (pos + 1 < len)
   {
-    int c = pattern[pos];
+    int c = static_cast<unsigned char>(pattern[pos]);
     if (c == '\\')
     {
       ++pos;
-- 
2.43.0


From d1bed24473681289369a50d55f2c8913520c0b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:37 +0000
Subject: [PATCH 24/81] fix: inverted bracket lists under a (?i) that is left
 to the regex library

---
 lib/convert.cpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 9567fc8..84a0e65 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -203,6 +203,12 @@ inline bool is_modified(const std::map<size_t,std::string>& mod, int c)
   return false;
 }
 
+/// (?i) is in effect, either converted ('i') or left to the regex library to apply ('j')
+inline bool is_anycase(const std::map<size_t,std::string>& mod)
+{
+  return is_modified(mod, 'i') || is_modified(mod, 'j');
+}
+
 inline bool supports_modifier(const char *signature, int c)
 {
   const char *escapes = std::strchr(signature, ':');
@@ -401,7 +407,7 @@ static void convert_anycase_ranges(ORanges<int>& ranges)
 
 static std::string convert_ranges(const char *pattern, size_t pos, ORanges<int>& ranges, const std::map<size_t,std::string>& mod, convert_flag_type flags, const char *signature, const char *par)
 {
-  if (is_modified(mod, 'i'))
+  if (is_anycase(mod))
     convert_anycase_ranges(ranges);
   if (is_modified(mod, 'u') && ranges.hi() > 0x7F)
     return convert_unicode_ranges(ranges, flags, signature, par);
@@ -879,7 +885,7 @@ static void extend_list(const char *pattern, size_t len, size_t& pos, convert_fl
 
 static void negate_list(convert_flag_type flags, const std::map<size_t,std::string>& mod, ORanges<int>& ranges)
 {
-  if (is_modified(mod, 'i'))
+  if (is_anycase(mod))
     convert_anycase_ranges(ranges);
   if (is_modified(mod, 'u'))
   {
@@ -1439,6 +1445,8 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
         if (supports_modifier(signature, pattern[k]))
         {
           mods.push_back(pattern[k]);
+          if (pattern[k] == 'i')
+            mod[lev].push_back('j');
         }
         else if (pattern[k] == 'm')
         {
@@ -1452,7 +1460,11 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
       else
       {
         if (supports_modifier(signature, pattern[k]))
+        {
           unmods.push_back(pattern[k]);
+          if (pattern[k] == 'i')
+            mod[lev].push_back('J');
+        }
         else if (pattern[k] == 'm')
           throw regex_error(regex_error::invalid_modifier, pattern, pos);
         else
@@ -1648,16 +1660,28 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
                   else if (!invert)
                   {
                     if (supports_modifier(signature, pattern[k]))
+                    {
                       mods.push_back(pattern[k]);
+                      if (pattern[k] == 'i')
+                        mod[lev].push_back('j');
+                    }
                     else
+                    {
                       enable_modifier(pattern[k], pattern, k, mod, lev);
+                    }
                   }
                   else
                   {
                     if (supports_modifier(signature, pattern[k]))
+                    {
                       unmods.push_back(pattern[k]);
+                      if (pattern[k] == 'i')
+                        mod[lev].push_back('J');
+                    }
                     else
+                    {
                       disable_modifier(pattern[k], pattern, k, mod, lev);
+                    }
                   }
                   ++k;
                 }
-- 
2.43.0


From e8f5cfd68aed5f277dc05c607645d323beb1ec2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:47 +0000
Subject: [PATCH 25/81] fix: \0 matches the NUL character

---
 lib/convert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 84a0e65..2c728ed 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -1210,7 +1210,7 @@ static void convert_escape(const char *pattern, size_t len, size_t& loc, size_t&
       loc = pos + 1;
     }
   }
-  else if (c >= '0' && c <= '7' && pattern[pos + 1] >= '0' && pattern[pos + 1] <= '7')
+  else if (c == '0' || (c >= '1' && c <= '7' && pattern[pos + 1] >= '0' && pattern[pos + 1] <= '7'))
   {
     size_t k = pos;
     size_t n = k + 3 + (pattern[k] == '0');
-- 
2.43.0


From d112a97d600bbd6bb14e944f45b8ca06276db0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:15 +0000
Subject: [PATCH 26/81] fix: \s and \p{Space} lack U+0085, U+2028 and U+2029 in
 Unicode mode

---
 unicode/language_scripts.cpp | 2 ++
 unicode/language_scripts.l   | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/unicode/language_scripts.cpp b/unicode/language_scripts.cpp
index 08fd4eb..907db04 100644
--- a/unicode/language_scripts.cpp
+++ b/unicode/language_scripts.cpp
@@ -9160,9 +9160,11 @@ void reflex::Unicode::Tables::language_scripts(void)
   static const int Space[] = {
     9, 13,
     32, 32,
+    133, 133,
     160, 160,
     5760, 5760,
     8192, 8202,
+    8232, 8233,
     8239, 8239,
     8287, 8287,
     12288, 12288,
diff --git a/unicode/language_scripts.l b/unicode/language_scripts.l
index 3af5705..e6e41a2 100644
--- a/unicode/language_scripts.l
+++ b/unicode/language_scripts.l
@@ -85,8 +85,8 @@ int main()
   (p["Unicode"]           = Chars(0x00, 0x10FFFF)) -= Chars(0xD800, 0xDFFF);
   (p["Non_ASCII_Unicode"] = p["Unicode"])          -= p["ASCII"];
 
-  // Add Unicode Space, includes blank characters HT (9), LF (10), VT (11), FF (12), CR (13)
-  (p["Space"] = p["Zs"]) |= Chars(0x09, 0x0D);
+  // Add Unicode Space, includes blank characters HT (9), LF (10), VT (11), FF (12), CR (13), NEL (133)
+  ((p["Space"] = p["Z"]) |= Chars(0x09, 0x0D)) |= Chars(0x85, 0x85);
 
   // Add Unicode Word
   ((p["Word"]  = p["L"]) |= p["Nd"]) |= p["Pc"];
-- 
2.43.0


From 59bc194636aae18debeb7057191624114ea9d183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 27/81] fix: union of a bracket list with an inverted bracket
 list

---
 lib/convert.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 2c728ed..c6bfe16 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -781,10 +781,12 @@ static void insert_list(const char *pattern, size_t len, size_t& pos, convert_fl
 
 static void merge_list(const char *pattern, size_t len, size_t& pos, convert_flag_type flags, const std::map<size_t,std::string>& mod, ORanges<int>& ranges, const std::map<std::string,std::string> *macros)
 {
+  ORanges<int> merge;
   if (pattern[pos] == '[')
   {
     ++pos;
-    insert_list(pattern, len, pos, flags, mod, ranges, macros);
+    insert_list(pattern, len, pos, flags, mod, merge, macros);
+    ranges |= merge;
   }
   else if (pattern[pos] == '{' && macros != NULL)
   {
@@ -793,7 +795,8 @@ static void merge_list(const char *pattern, size_t len, size_t& pos, convert_fla
     if (list.size() < 2 || list.at(0) != '[')
       throw regex_error(regex_error::invalid_class_range, pattern, pos);
     size_t subpos = 1;
-    insert_list(list.c_str(), list.size(), subpos, flags, mod, ranges, macros);
+    insert_list(list.c_str(), list.size(), subpos, flags, mod, merge, macros);
+    ranges |= merge;
     if (subpos + 1 < list.size())
       throw regex_error(regex_error::invalid_class_range, pattern, pos);
   }
-- 
2.43.0


From 54723a883a6c2261d7f77fcc7faaf1ac29b99294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:30 +0000
Subject: [PATCH 28/81] fix: quantifier after an escaped Latin-1 character in
 Unicode mode

---
 lib/convert.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index c6bfe16..2eb61f6 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -241,6 +241,15 @@ inline int hex_or_octal_escape(const char *signature)
 //                                                                            //
 ////////////////////////////////////////////////////////////////////////////////
 
+/// A character in UTF-8, grouped when it takes more than one byte
+static std::string utf8_char(int wc, int esc, const char *par)
+{
+  std::string regex = utf8(wc, wc, esc, par);
+  if (wc > 0x7F)
+    regex.insert(0, par).push_back(')');
+  return regex;
+}
+
 static const char* hex_escape(char *buf, int wc)
 {
   static const char digits[] = "0123456789abcdef";
@@ -1237,7 +1246,7 @@ static void convert_escape(const char *pattern, size_t len, size_t& loc, size_t&
     {
       int esc = hex_or_octal_escape(signature);
       if (is_modified(mod, 'u'))
-        regex.append(&pattern[loc], pos - loc - 1).append(utf8(wc, wc, esc, par));
+        regex.append(&pattern[loc], pos - loc - 1).append(utf8_char(wc, esc, par));
       else
         regex.append(&pattern[loc], pos - loc - 1).append(latin1(wc, wc, esc));
     }
@@ -1284,7 +1293,7 @@ static void convert_escape(const char *pattern, size_t len, size_t& loc, size_t&
           {
             int esc = hex_or_octal_escape(signature);
             if (is_modified(mod, 'u'))
-              regex.append(&pattern[loc], pos - loc - 1).append(utf8(wc, wc, esc, par));
+              regex.append(&pattern[loc], pos - loc - 1).append(utf8_char(wc, esc, par));
             else
               regex.append(&pattern[loc], pos - loc - 1).append(latin1(wc, wc, esc));
           }
-- 
2.43.0


From 45c64084d52d3cfc8d0e3128037871e5a5dc3bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:19 +0000
Subject: [PATCH 29/81] fix: quantifier after a Unicode class with a single
 range

---
 lib/convert.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 2eb61f6..f82ba18 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -163,7 +163,8 @@ static std::string unicode_class(const char *s, int esc, convert_flag_type flags
         regex.append("|").append(utf8(wc[0], wc[1], esc, par, !(flags & convert_flag::permissive)));
     }
   }
-  if (regex.find('|') != std::string::npos)
+  // group alternatives and a character that takes more than one byte
+  if (!regex.empty())
     regex.insert(0, par).push_back(')');
   return regex;
 }
-- 
2.43.0


From d1e283baa6feb57efaaf6c9655b8bf67ae7080fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:07 +0000
Subject: [PATCH 30/81] fix: \s in a bracket list removes newline from the list

---
 lib/convert.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index f82ba18..7351b9a 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -727,8 +727,10 @@ static int insert_escape(const char *pattern, size_t len, size_t& pos, convert_f
   else if (c == 's' && (flags & convert_flag::notnewline))
   {
     // \s is the same as \p{Space} but without newline \n
-    insert_escape_class(pattern, pos, mod, ranges);
-    ranges.erase('\n');
+    ORanges<int> space;
+    insert_escape_class(pattern, pos, mod, space);
+    space.erase('\n');
+    ranges |= space;
     return -1;
   }
   else if (std::isalpha(c))
-- 
2.43.0


From d0ac8e99d93df2913ea0be4f056f92b9a6cb8114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:39 +0000
Subject: [PATCH 31/81] fix: multibyte characters cut off by the end of the
 get() buffer

When the UTF-8 encoding of a converted character did not fit in the buffer,
file_get() kept the length of the whole encoding instead of the length of
the remainder, and the next get() returned up to five bytes too many.
---
 lib/input.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/input.cpp b/lib/input.cpp
index b13a67a..4bfba87 100644
--- a/lib/input.cpp
+++ b/lib/input.cpp
@@ -796,7 +796,7 @@ size_t Input::file_get(char *s, size_t n)
           {
             std::memcpy(t, utf8_, n);
             uidx_ = static_cast<unsigned short>(n);
-            ulen_ = static_cast<unsigned short>(l);
+            ulen_ = static_cast<unsigned short>(l - n);
             t += n;
             n = 0;
           }
@@ -835,7 +835,7 @@ size_t Input::file_get(char *s, size_t n)
           {
             std::memcpy(t, utf8_, n);
             uidx_ = static_cast<unsigned short>(n);
-            ulen_ = static_cast<unsigned short>(l);
+            ulen_ = static_cast<unsigned short>(l - n);
             t += n;
             n = 0;
           }
@@ -866,7 +866,7 @@ size_t Input::file_get(char *s, size_t n)
           {
             std::memcpy(t, utf8_, n);
             uidx_ = static_cast<unsigned short>(n);
-            ulen_ = static_cast<unsigned short>(l);
+            ulen_ = static_cast<unsigned short>(l - n);
             t += n;
             n = 0;
           }
@@ -897,7 +897,7 @@ size_t Input::file_get(char *s, size_t n)
           {
             std::memcpy(t, utf8_, n);
             uidx_ = static_cast<unsigned short>(n);
-            ulen_ = static_cast<unsigned short>(l);
+            ulen_ = static_cast<unsigned short>(l - n);
             t += n;
             n = 0;
           }
@@ -934,7 +934,7 @@ size_t Input::file_get(char *s, size_t n)
           else
           {
             uidx_ = 1;
-            ulen_ = 2;
+            ulen_ = 1;
           }
         }
       }
@@ -988,7 +988,7 @@ size_t Input::file_get(char *s, size_t n)
           {
             std::memcpy(t, utf8_, n);
             uidx_ = static_cast<unsigned short>(n);
-            ulen_ = static_cast<unsigned short>(l);
+            ulen_ = static_cast<unsigned short>(l - n);
             t += n;
             n = 0;
           }
-- 
2.43.0


From 878b9f568cf71339d65f1f8015c2a872b398c994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:39 +0000
Subject: [PATCH 32/81] fix: bytes lost when detecting the BOM of a file

The first character after a UTF-16 little endian BOM was reduced to its low
byte, an empty UTF-16 little endian file was taken for two plain bytes, and
the last byte of a file 00 00 XX was lost.
---
 lib/input.cpp | 47 +++++++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/lib/input.cpp b/lib/input.cpp
index 4bfba87..83a855c 100644
--- a/lib/input.cpp
+++ b/lib/input.cpp
@@ -684,15 +684,12 @@ void Input::file_init(file_encoding_type enc)
           ulen_ = 2;
           if (utf8_[0] == '\0' && utf8_[1] == '\0')  // UTF-32 big endian BOM 0000XXXX?
           {
-            if (::fread(&utf8_[2], 2, 1, file_) == 1)
+            ulen_ += static_cast<unsigned short>(::fread(&utf8_[2], 1, 2, file_));
+            if (ulen_ == 4 && utf8_[2] == '\xfe' && utf8_[3] == '\xff') // UTF-32 big endian BOM 0000FEFF?
             {
-              ulen_ = 4;
-              if (utf8_[2] == '\xfe' && utf8_[3] == '\xff') // UTF-32 big endian BOM 0000FEFF?
-              {
-                size_ = 0;
-                ulen_ = 0;
-                utfx_ = file_encoding::utf32be;
-              }
+              size_ = 0;
+              ulen_ = 0;
+              utfx_ = file_encoding::utf32be;
             }
           }
           else if (utf8_[0] == '\xfe' && utf8_[1] == '\xff') // UTF-16 big endian BOM FEFF?
@@ -703,20 +700,30 @@ void Input::file_init(file_encoding_type enc)
           }
           else if (utf8_[0] == '\xff' && utf8_[1] == '\xfe') // UTF-16 or UTF-32 little endian BOM FFFEXXXX?
           {
-            if (::fread(&utf8_[2], 2, 1, file_) == 1)
+            size_t k = ::fread(&utf8_[2], 1, 2, file_);
+            size_ = 0;
+            ulen_ = 0;
+            if (k == 2 && utf8_[2] == '\0' && utf8_[3] == '\0') // UTF-32 little endian BOM FFFE0000?
             {
-              if (utf8_[2] == '\0' && utf8_[3] == '\0') // UTF-32 little endian BOM FFFE0000?
-              {
-                size_ = 0;
-                ulen_ = 0;
-                utfx_ = file_encoding::utf32le;
-              }
-              else
+              utfx_ = file_encoding::utf32le;
+            }
+            else
+            {
+              utfx_ = file_encoding::utf16le;
+              if (k == 2)
               {
-                size_ = 0;
-                uidx_ = 2;
-                ulen_ = 1;
-                utfx_ = file_encoding::utf16le;
+                // translate the first UTF-16 character following the BOM to UTF-8
+                unsigned char buf[2];
+                int c = static_cast<unsigned char>(utf8_[2]) | static_cast<unsigned char>(utf8_[3]) << 8;
+                if (c >= 0xD800 && c < 0xE000)
+                {
+                  // UTF-16 surrogate pair
+                  if (c < 0xDC00 && ::fread(buf, 2, 1, file_) == 1 && (buf[1] & 0xFC) == 0xDC)
+                    c = 0x010000 - 0xDC00 + ((c - 0xD800) << 10) + (buf[0] | buf[1] << 8);
+                  else
+                    c = REFLEX_NONCHAR;
+                }
+                ulen_ = static_cast<unsigned short>(utf8(c, utf8_));
               }
             }
           }
-- 
2.43.0


From 4f281929b844d314d460c74a479f9e947c8f7b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:39 +0000
Subject: [PATCH 33/81] fix: conversion of the first bytes of a code page file
 overruns the buffer

A file that starts with EF BB XX or 00 00 XX XX has up to four bytes read
ahead to detect a BOM, which a code page converts to up to 12 UTF-8 bytes.
---
 include/reflex/input.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/input.h b/include/reflex/input.h
index d9df043..d820385 100644
--- a/include/reflex/input.h
+++ b/include/reflex/input.h
@@ -783,7 +783,7 @@ class Input {
   FILE                 *file_;    ///< FILE* input (when non-null)
   std::istream         *istream_; ///< stream input (when non-null)
   size_t                size_;    ///< size of the remaining input in bytes (size_ == 0 may indicate size is not set)
-  char                  utf8_[8]; ///< UTF-8 normalization buffer, >=8 bytes
+  char                  utf8_[16]; ///< UTF-8 normalization buffer, >=16 bytes to hold up to four converted bytes
   unsigned short        uidx_;    ///< index in utf8_[]
   unsigned short        ulen_;    ///< length of data (remaining after uidx_) in utf8_[] or 0 if no data
   file_encoding_type    utfx_;    ///< file_encoding
-- 
2.43.0


From cc68e9edb9bbd749b8b0793e7855cfddcda6f09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:11 +0000
Subject: [PATCH 34/81] fix: UTF-16 and UTF-32 files without BOM lose or garble
 the first characters

file_encoding() did not take the number of bytes read ahead to detect a BOM
into account: it guessed the number from NUL bytes, such that UTF-16 big
endian and UTF-32 big endian files without BOM were not converted properly.
---
 lib/input.cpp | 93 ++++++++++++++-------------------------------------
 1 file changed, 25 insertions(+), 68 deletions(-)

diff --git a/lib/input.cpp b/lib/input.cpp
index 83a855c..000466e 100644
--- a/lib/input.cpp
+++ b/lib/input.cpp
@@ -1197,6 +1197,7 @@ void Input::file_encoding(unsigned short enc, const unsigned short *page)
       unsigned char *b = buf;
       char *t = utf8_;
       int c1, c2;
+      size_t k;
       switch (enc)
       {
         case file_encoding::latin:
@@ -1275,92 +1276,48 @@ void Input::file_encoding(unsigned short enc, const unsigned short *page)
           }
           break;
         case file_encoding::utf16be:
-          // enforcing non-BOM UTF-16: translate utf8_[] to UTF-16 then to UTF-8
-          if (b[1] == '\0' && ::fread(b + 1, 1, 1, file_) == 1)
-          {
-            if (b[2] == '\0' ? ::fread(b + 2, 2, 1, file_) == 1 :
-                b[3] == '\0' ? ::fread(b + 3, 1, 1, file_) == 1 :
-                false
-               )
-            {
-              c1 = b[0] << 8 | b[1];
-              c2 = b[2] << 8 | b[3];
-              if (c1 >= 0xD800 && c1 < 0xE000)
-              {
-                // UTF-16 surrogate pair
-                if (c1 < 0xDC00 && (c2 & 0xFC00) == 0xDC00)
-                  c1 = 0x010000 - 0xDC00 + ((c1 - 0xD800) << 10) + c2;
-                else
-                  c1 = REFLEX_NONCHAR;
-                t += utf8(c1, t);
-              }
-              else
-              {
-                t += utf8(c1, t);
-                t += utf8(c2, t);
-              }
-              uidx_ = 0;
-              ulen_ = static_cast<unsigned short>(t - utf8_);
-            }
-          }
-          break;
         case file_encoding::utf16le:
           // enforcing non-BOM UTF-16: translate utf8_[] to UTF-16 then to UTF-8
-          if (b[1] == '\0' && ::fread(b + 1, 1, 1, file_) == 1)
+          k = ulen_;
+          if (k % 2 != 0)
+            k += ::fread(b + k, 1, 1, file_);
+          while (k >= 2)
           {
-            if (b[2] == '\0' ? ::fread(b + 2, 2, 1, file_) == 1 :
-                b[3] == '\0' ? ::fread(b + 3, 1, 1, file_) == 1 :
-                false
-               )
+            c1 = enc == file_encoding::utf16be ? b[0] << 8 | b[1] : b[0] | b[1] << 8;
+            b += 2;
+            k -= 2;
+            if (c1 >= 0xD800 && c1 < 0xE000)
             {
-              c1 = b[0] | b[1] << 8;
-              c2 = b[2] | b[3] << 8;
-              if (c1 >= 0xD800 && c1 < 0xE000)
+              // UTF-16 surrogate pair
+              if (c1 < 0xDC00 && (k >= 2 || ::fread(b, 2, 1, file_) == 1))
               {
-                // UTF-16 surrogate pair
-                if (c1 < 0xDC00 && (c2 & 0xFC00) == 0xDC00)
-                  c1 = 0x010000 - 0xDC00 + ((c1 - 0xD800) << 10) + c2;
-                else
-                  c1 = REFLEX_NONCHAR;
-                t += utf8(c1, t);
+                c2 = enc == file_encoding::utf16be ? b[0] << 8 | b[1] : b[0] | b[1] << 8;
+                c1 = (c2 & 0xFC00) == 0xDC00 ? 0x010000 - 0xDC00 + ((c1 - 0xD800) << 10) + c2 : REFLEX_NONCHAR;
+                b += 2;
+                k -= k >= 2 ? 2 : 0;
               }
               else
               {
-                t += utf8(c1, t);
-                t += utf8(c2, t);
+                c1 = REFLEX_NONCHAR;
               }
-              uidx_ = 0;
-              ulen_ = static_cast<unsigned short>(t - utf8_);
             }
-          }
-          break;
-        case file_encoding::utf32be:
-          // enforcing non-BOM UTF-32: translate utf8_[] to UTF-32 then to UTF-8
-          if (b[1] == '\0' ? ::fread(b + 1, 3, 1, file_) == 1 :
-              b[2] == '\0' ? ::fread(b + 2, 2, 1, file_) == 1 :
-              b[3] == '\0' ? ::fread(b + 3, 1, 1, file_) == 1 :
-              false
-             )
-          {
-            c1 = buf[0] << 24 | buf[1] << 16 | buf[2] << 8 | buf[3];
             t += utf8(c1, t);
-            uidx_ = 0;
-            ulen_ = static_cast<unsigned short>(t - utf8_);
           }
+          uidx_ = 0;
+          ulen_ = static_cast<unsigned short>(t - utf8_);
           break;
+        case file_encoding::utf32be:
         case file_encoding::utf32le:
           // enforcing non-BOM UTF-32: translate utf8_[] to UTF-32 then to UTF-8
-          if (b[1] == '\0' ? ::fread(b + 1, 3, 1, file_) == 1 :
-              b[2] == '\0' ? ::fread(b + 2, 2, 1, file_) == 1 :
-              b[3] == '\0' ? ::fread(b + 3, 1, 1, file_) == 1 :
-              false
-             )
+          k = ulen_;
+          k += ::fread(b + k, 1, 4 - k, file_);
+          if (k == 4)
           {
-            c1 = buf[0] | buf[1] << 8 | buf[2] << 16 | buf[3] << 24;
+            c1 = enc == file_encoding::utf32be ? b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3] : b[0] | b[1] << 8 | b[2] << 16 | b[3] << 24;
             t += utf8(c1, t);
-            uidx_ = 0;
-            ulen_ = static_cast<unsigned short>(t - utf8_);
           }
+          uidx_ = 0;
+          ulen_ = static_cast<unsigned short>(t - utf8_);
           break;
         default:
           break;
-- 
2.43.0


From 527abde1810930be8b27d163ec77e3258f88584b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:26 +0000
Subject: [PATCH 35/81] fix: crash when a code page is assigned after the first
 bytes of a file were read

file_encoding() assigned the code page only when bytes were read ahead, for
example not after a UTF-8 BOM, such that the next get() used a NULL or
previous code page.  Also translate only what is left of the bytes read ahead.
---
 lib/input.cpp | 36 ++++++++++++++----------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/lib/input.cpp b/lib/input.cpp
index 000466e..b0cd1c4 100644
--- a/lib/input.cpp
+++ b/lib/input.cpp
@@ -1189,12 +1189,24 @@ void Input::file_encoding(unsigned short enc, const unsigned short *page)
 {
   if (file_ && utfx_ != enc)
   {
+    // assign the code page, also when no plain bytes are buffered to translate
+    if (enc == file_encoding::custom)
+    {
+      if (page != NULL)
+        page_ = page;
+      else
+        enc = file_encoding::plain;
+    }
+    else if (enc > file_encoding::latin && enc < file_encoding::custom)
+    {
+      page_ = codepages[enc - file_encoding::latin - 1];
+    }
     if (utfx_ == file_encoding::plain && ulen_ > 0)
     {
       // translate (non-BOM) plain bytes (1 to 4 bytes) buffered in utf8_[]
       unsigned char buf[sizeof(utf8_)];
       std::memcpy(buf, utf8_, sizeof(utf8_));
-      unsigned char *b = buf;
+      unsigned char *b = buf + uidx_;
       char *t = utf8_;
       int c1, c2;
       size_t k;
@@ -1243,7 +1255,7 @@ void Input::file_encoding(unsigned short enc, const unsigned short *page)
         case file_encoding::koi8_r:
         case file_encoding::koi8_u:
         case file_encoding::koi8_ru:
-          page_ = codepages[enc - file_encoding::latin - 1];
+        case file_encoding::custom:
           while (ulen_-- > 0)
           {
             c1 = page_[*b++];
@@ -1255,26 +1267,6 @@ void Input::file_encoding(unsigned short enc, const unsigned short *page)
           uidx_ = 0;
           ulen_ = static_cast<unsigned short>(t - utf8_);
           break;
-        case file_encoding::custom:
-          if (page)
-          {
-            page_ = page;
-            while (ulen_-- > 0)
-            {
-              c1 = page_[*b++];
-              if (c1 < 0x80)
-                *t++ = static_cast<char>(c1);
-              else
-                t += utf8(c1, t);
-            }
-            uidx_ = 0;
-            ulen_ = static_cast<unsigned short>(t - utf8_);
-          }
-          else
-          {
-            enc = file_encoding::plain;
-          }
-          break;
         case file_encoding::utf16be:
         case file_encoding::utf16le:
           // enforcing non-BOM UTF-16: translate utf8_[] to UTF-16 then to UTF-8
-- 
2.43.0


From c8cb32c161aaa2c33fe19e14ce0c38c1996ce9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:26 +0000
Subject: [PATCH 36/81] fix: size of UTF-16 little endian files with surrogate
 pairs

---
 lib/input.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/input.cpp b/lib/input.cpp
index b0cd1c4..e948b80 100644
--- a/lib/input.cpp
+++ b/lib/input.cpp
@@ -1124,8 +1124,8 @@ void Input::file_size()
           if (c >= 0xD800 && c < 0xE000)
           {
             // UTF-16 surrogate pair
-            if (c < 0xDC00 && ::fread(buf + 2, 2, 1, file_) == 1 && (buf[2] & 0xFC) == 0xDC)
-              c = 0x010000 - 0xDC00 + ((c - 0xD800) << 10) + (buf[2] << 8 | buf[3]);
+            if (c < 0xDC00 && ::fread(buf + 2, 2, 1, file_) == 1 && (buf[3] & 0xFC) == 0xDC)
+              c = 0x010000 - 0xDC00 + ((c - 0xD800) << 10) + (buf[2] | buf[3] << 8);
             else
               c = REFLEX_NONCHAR;
           }
-- 
2.43.0


From ec1442f53541dbe317e114b0fbb4fd36786f5998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:26 +0000
Subject: [PATCH 37/81] fix: size() of a file that is read ahead or that is
 positioned past its start

The bytes read ahead to detect a BOM were not included in the size of files
with UTF-16, UTF-32, Latin-1 and code page content, and the bytes of the file
before the current position were included in the size of plain files.
---
 lib/input.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/input.cpp b/lib/input.cpp
index e948b80..a01bcab 100644
--- a/lib/input.cpp
+++ b/lib/input.cpp
@@ -666,7 +666,11 @@ void Input::file_init(file_encoding_type enc)
   struct stat st;
   if (::fstat(::fileno(file_), &st) == 0 && S_ISREG(st.st_mode) && st.st_size <= 4294967295LL)
 #endif
-    size_ = static_cast<size_t>(st.st_size);
+  {
+    // the bytes available to read are the bytes from the current position in the file
+    off_t k = ftello(file_);
+    size_ = static_cast<size_t>(k > 0 ? k < st.st_size ? st.st_size - k : 0 : st.st_size);
+  }
 #endif
   // assume plain (ASCII, binary or UTF-8 without BOM) content by default
   utfx_ = file_encoding::plain;
@@ -1052,6 +1056,8 @@ void Input::file_size()
   if (k >= 0)
   {
     unsigned char buf[4];
+    // include the converted characters that are buffered in utf8_[]
+    size_ += ulen_;
     switch (utfx_)
     {
       case file_encoding::latin:
@@ -1164,7 +1170,7 @@ void Input::file_size()
         fseeko(file_, k, SEEK_END);
         off_t n = ftello(file_);
         if (n >= k)
-          size_ = static_cast<size_t>(n - k);
+          size_ += static_cast<size_t>(n - k);
     }
     ::clearerr(file_);
     fseeko(file_, k, SEEK_SET);
-- 
2.43.0


From a8731d6aad8a4d67964ebae64ee14d2f80dacfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:48 +0000
Subject: [PATCH 38/81] fix: Input good() and eof() report EOF while converted
 bytes remain to be read

---
 include/reflex/input.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/reflex/input.h b/include/reflex/input.h
index d820385..b473c08 100644
--- a/include/reflex/input.h
+++ b/include/reflex/input.h
@@ -608,9 +608,9 @@ class Input {
     if (cstring_)
       return size_ > 0;
     if (wstring_)
-      return *wstring_ != L'\0';
+      return ulen_ > 0 || *wstring_ != L'\0';
     if (file_)
-      return !::feof(file_) && !::ferror(file_);
+      return ulen_ > 0 || (!::feof(file_) && !::ferror(file_));
     if (istream_)
       return istream_->good();
     return false;
@@ -622,9 +622,9 @@ class Input {
     if (cstring_)
       return size_ == 0;
     if (wstring_)
-      return *wstring_ == L'\0';
+      return ulen_ == 0 && *wstring_ == L'\0';
     if (file_)
-      return ::feof(file_) != 0;
+      return ulen_ == 0 && ::feof(file_) != 0;
     if (istream_)
       return istream_->eof();
     return true;
-- 
2.43.0


From 568c4b3195e0ac439537b19225591c4c968de3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:48 +0000
Subject: [PATCH 39/81] fix: Input::streambuf loses input after a short
 non-blocking read

---
 include/reflex/input.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/reflex/input.h b/include/reflex/input.h
index b473c08..7f0acd7 100644
--- a/include/reflex/input.h
+++ b/include/reflex/input.h
@@ -817,11 +817,18 @@ class Input::streambuf : public std::streambuf {
     if (n <= 0 || ch_ == EOF)
       return 0;
     *s++ = ch_;
-    std::streamsize k = static_cast<std::streamsize>(input_.get(s, static_cast<size_t>(n - 1)));
-    if (k < n - 1)
+    std::streamsize k = 1;
+    while (k < n)
     {
-      ch_ = EOF;
-      return k + 1;
+      // get() may return fewer bytes before the end of input is reached
+      std::streamsize l = static_cast<std::streamsize>(input_.get(s, static_cast<size_t>(n - k)));
+      if (l == 0)
+      {
+        ch_ = EOF;
+        return k;
+      }
+      s += l;
+      k += l;
     }
     ch_ = input_.get();
     return n;
-- 
2.43.0


From cf2d64d442c7592c99b87def86aa62ebb367e9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:48 +0000
Subject: [PATCH 40/81] fix: wrong code points in code pages

CP-1251 A5 C0, CP-1254 FB, CP-1255 C3-CF, CP-1257 AF BF F3, ISO-8859-3 A2 E5,
ISO-8859-4 A1, ISO-8859-6 DA, ISO-8859-13 F3 and KOI8-RU AE BE.
---
 lib/input.cpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/lib/input.cpp b/lib/input.cpp
index a01bcab..b9de43a 100644
--- a/lib/input.cpp
+++ b/lib/input.cpp
@@ -167,9 +167,9 @@ const unsigned short codepages[38][256] =
      112,   113,   114,   115,   116,   117,   118,   119,   120,   121,   122,   123,   124,   125,   126,   127,
   0x0402,0x0403,0x201A,0x0453,0x201E,0x2026,0x2020,0x2021,0x20AC,0x2030,0x0409,0x2039,0x040A,0x040C,0x040B,0x040F,
   0x0452,0x2018,0x2019,0x201C,0x201D,0x2022,0x2013,0x2014,   152,0x2122,0x0459,0x203A,0x045A,0x045C,0x045B,0x045F,
-     160,0x040E,0x045E,0x0408,   164,0x0409,   166,   167,0x0401,   169,0x0404,   171,   172,   173,   174,0x0407,
+     160,0x040E,0x045E,0x0408,   164,0x0490,   166,   167,0x0401,   169,0x0404,   171,   172,   173,   174,0x0407,
      176,   177,0x0406,0x0456,0x0491,   181,   182,   183,0x0451,0x2116,0x0454,   187,0x0458,0x0405,0x0455,0x0457,
-  0x0100,0x0411,0x0412,0x0413,0x0414,0x0415,0x0416,0x0417,0x0418,0x0419,0x041A,0x041B,0x041C,0x041D,0x041E,0x041F,
+  0x0410,0x0411,0x0412,0x0413,0x0414,0x0415,0x0416,0x0417,0x0418,0x0419,0x041A,0x041B,0x041C,0x041D,0x041E,0x041F,
   0x0420,0x0421,0x0422,0x0423,0x0424,0x0425,0x0426,0x0427,0x0428,0x0429,0x042A,0x042B,0x042C,0x042D,0x042E,0x042F,
   0x0430,0x0431,0x0432,0x0433,0x0434,0x0435,0x0436,0x0437,0x0438,0x0439,0x043A,0x043B,0x043C,0x043D,0x043E,0x043F,
   0x0440,0x0441,0x0442,0x0443,0x0444,0x0445,0x0446,0x0447,0x0448,0x0449,0x044A,0x044B,0x044C,0x044D,0x044E,0x044F
@@ -229,7 +229,7 @@ const unsigned short codepages[38][256] =
      192,   193,   194,   195,   196,   197,   198,   199,   200,   201,   202,   203,   204,   205,   206,   207,
   0x011E,   209,   210,   211,   212,   213,   214,   215,   216,   217,   218,   219,   220,0x0130,0x015E,   223,
      224,   225,   226,   227,   228,   229,   230,   231,   232,   233,   234,   235,   236,   237,   238,   239,
-  0x011F,   241,   242,   243,   244,   245,   246,   247,   248,   249,   250,   252,   252,0x0131,0x015F,   255
+  0x011F,   241,   242,   243,   244,   245,   246,   247,   248,   249,   250,   251,   252,0x0131,0x015F,   255
   },
   // Windows CP 1255 to Unicode
   {
@@ -245,7 +245,7 @@ const unsigned short codepages[38][256] =
      144,0x2018,0x2019,0x201C,0x201D,0x2022,0x2013,0x2014,0x02DC,0x2122,   154,0x203A,   156,   157,   158,   159,
      160,   161,   162,   163,0x20AA,   165,   166,   167,   168,   169,0x00D7,   171,   172,   173,   174,   175,
      176,   177,   178,   179,   180,   181,   182,   183,   184,   185,0x00F7,   187,   188,   189,   190,   191,
-  0x05B0,0x05B1,0x05B2,0x0583,0x0584,0x0585,0x0586,0x0587,0x0588,0x0589,0x058A,0x058B,0x058C,0x058D,0x058E,0x058F,
+  0x05B0,0x05B1,0x05B2,0x05B3,0x05B4,0x05B5,0x05B6,0x05B7,0x05B8,0x05B9,0x058A,0x05BB,0x05BC,0x05BD,0x05BE,0x05BF,
   0x05C0,0x05C1,0x05C2,0x05C3,0x05F0,0x05F1,0x05F2,0x05F3,0x05F4,   217,   218,   219,   220,   221,   222,   223,
   0x05D0,0x05D1,0x05D2,0x05D3,0x05D4,0x05D5,0x05D6,0x05D7,0x05D8,0x05D9,0x05DA,0x05DB,0x05DC,0x05DD,0x05DE,0x05DF,
   0x05E0,0x05E1,0x05E2,0x05E3,0x05E4,0x05E5,0x05E6,0x05E7,0x05E8,0x05E9,0x05EA,   251,   252,0x200E,0x200F,   255
@@ -281,12 +281,12 @@ const unsigned short codepages[38][256] =
      112,   113,   114,   115,   116,   117,   118,   119,   120,   121,   122,   123,   124,   125,   126,   127,
   0x20AC,   129,0x201A,   131,0x201E,0x2026,0x2020,0x2021,   136,0x2030,   138,0x2039,   140,0x00A8,0x02C7,0x00B8,
      144,0x2018,0x2019,0x201C,0x201D,0x2022,0x2013,0x2014,   152,0x2122,   154,0x203A,   156,0x00AF,0x02DB,   159,
-     160,   161,   162,   163,   164,   165,   166,   167,0x00D8,   169,0x0156,   171,   172,   173,   174,   175,
-     176,   177,   178,   179,   180,   181,   182,   183,0x00F8,   185,0x0157,   187,   188,   189,   190,   191,
+     160,   161,   162,   163,   164,   165,   166,   167,0x00D8,   169,0x0156,   171,   172,   173,   174,   198,
+     176,   177,   178,   179,   180,   181,   182,   183,0x00F8,   185,0x0157,   187,   188,   189,   190,   230,
   0x0104,0x012E,0x0100,0x0106,   196,   197,0x0118,0x0112,0x010C,   201,0x0179,0x0116,0x0122,0x0136,0x012A,0x013B,
   0x0160,0x0143,0x0145,   211,0x014C,   213,   214,   215,0x0172,0x0141,0x015A,0x016A,   220,0x017B,0x017D,   223,
   0x0105,0x012F,0x0101,0x0107,   228,   229,0x0119,0x0113,0x010D,   233,0x017A,0x0117,0x0123,0x0137,0x012B,0x013C,
-  0x0161,0x0144,0x0146,   242,0x014D,   245,   246,   247,0x0173,0x0142,0x015B,0x016B,   252,0x017C,0x017E,0x02D9
+  0x0161,0x0144,0x0146,   243,0x014D,   245,   246,   247,0x0173,0x0142,0x015B,0x016B,   252,0x017C,0x017E,0x02D9
   },
   // Windows CP 1258 to Unicode
   {
@@ -338,11 +338,11 @@ const unsigned short codepages[38][256] =
      112,   113,   114,   115,   116,   117,   118,   119,   120,   121,   122,   123,   124,   125,   126,   127,
      128,   129,   130,   131,   132,   133,   134,   135,   136,   137,   138,   139,   140,   141,   142,   143,
      144,   145,   146,   147,   148,   149,   150,   151,   152,   153,   154,   155,   156,   157,   158,   159,
-     160,0x0126,0x2DB2,   163,   164,   165,0x0124,   167,   168,0x0130,0x015E,0x011E,0x0134,   173,   174,0x017B,
+     160,0x0126,0x02D8,   163,   164,   165,0x0124,   167,   168,0x0130,0x015E,0x011E,0x0134,   173,   174,0x017B,
      176,0x0127,   178,   179,   180,   181,0x0125,   183,   184,0x0131,0x015F,0x011F,0x0135,   189,   190,0x017C,
      192,   193,   194,   195,   196,0x010A,0x0108,   199,   200,   201,   202,   203,   204,   205,   206,   207,
      208,   209,   210,   211,   212,0x0120,   214,   215,0x011C,   217,   218,   219,   220,0x016C,0x015C,   223,
-     224,   225,   226,   227,   228,0x10B9,0x0109,   231,   232,   233,   234,   235,   236,   237,   238,   239,
+     224,   225,   226,   227,   228,0x010B,0x0109,   231,   232,   233,   234,   235,   236,   237,   238,   239,
      240,   241,   242,   243,   244,0x0121,   246,   247,0x011D,   249,   250,   251,   252,0x016D,0x015D,0x02D9
   },
   // ISO-8859-4 to Unicode
@@ -357,7 +357,7 @@ const unsigned short codepages[38][256] =
      112,   113,   114,   115,   116,   117,   118,   119,   120,   121,   122,   123,   124,   125,   126,   127,
      128,   129,   130,   131,   132,   133,   134,   135,   136,   137,   138,   139,   140,   141,   142,   143,
      144,   145,   146,   147,   148,   149,   150,   151,   152,   153,   154,   155,   156,   157,   158,   159,
-     160,0x1041,0x0138,0x0156,   164,0x0128,0x013B,   167,   168,0x0160,0x0112,0x0122,0x0166,   173,0x017D,   175,
+     160,0x0104,0x0138,0x0156,   164,0x0128,0x013B,   167,   168,0x0160,0x0112,0x0122,0x0166,   173,0x017D,   175,
      176,0x0105,0x02DB,0x0157,   180,0x0129,0x013C,0x02C7,   184,0x0161,0x0113,0x0123,0x0167,0x014A,0x017E,0x014B,
   0x0100,   193,   194,   195,   196,   197,   198,0x012E,0x010C,   201,0x0118,   203,0x0116,   205,   206,0x012A,
   0x0110,0x0145,0x014C,0x0136,   212,   213,   214,   215,   216,0x0172,   218,   219,   220,0x0168,0x016A,   223,
@@ -398,7 +398,7 @@ const unsigned short codepages[38][256] =
      160,   161,   162,   163,   164,   165,   166,   167,   168,   169,   170,   171,0x060C,   173,   174,   175,
      176,   177,   178,   179,   180,   181,   182,   183,   184,   185,   186,0x061B,   188,   189,   190,0x061F,
      192,0x0621,0x0622,0x0623,0x0624,0x0625,0x0626,0x0627,0x0628,0x0629,0x062A,0x062B,0x062C,0x062D,0x062E,0x062F,
-  0x0630,0x0631,0x0632,0x0633,0x0634,0x0635,0x0636,0x0637,0x0638,0x0639,0x062A,   219,   220,   221,   222,   223,
+  0x0630,0x0631,0x0632,0x0633,0x0634,0x0635,0x0636,0x0637,0x0638,0x0639,0x063A,   219,   220,   221,   222,   223,
   0x0640,0x0641,0x0642,0x0643,0x0644,0x0645,0x0646,0x0647,0x0648,0x0649,0x064A,0x064B,0x064C,0x064D,0x064E,0x064F,
   0x0650,0x0651,0x0652,   243,   244,   245,   246,   247,   248,   249,   250,   251,   252,   253,   254,   255
   },
@@ -514,7 +514,7 @@ const unsigned short codepages[38][256] =
   0x0104,0x012E,0x0100,0x0106,   196,   197,0x0118,0x0112,0x010C,   201,0x0179,0x0116,0x0122,0x0136,0x012A,0x013B,
   0x0160,0x0143,0x0145,   211,0x014C,   213,   214,   215,0x0172,0x0141,0x015A,0x016A,   220,0x017B,0x017D,   223,
   0x0105,0x012F,0x0101,0x0107,   228,   229,0x0119,0x0113,0x010D,   233,0x017A,0x0117,0x0123,0x0137,0x012B,0x013C,
-  0x0161,0x0144,0x0146,   242,0x014D,   245,   246,   247,0x0173,0x0142,0x015B,0x016B,   252,0x017C,0x017E,0x2019
+  0x0161,0x0144,0x0146,   243,0x014D,   245,   246,   247,0x0173,0x0142,0x015B,0x016B,   252,0x017C,0x017E,0x2019
   },
   // ISO-8859-14 to Unicode
   {
@@ -642,8 +642,8 @@ const unsigned short codepages[38][256] =
      112,   113,   114,   115,   116,   117,   118,   119,   120,   121,   122,   123,   124,   125,   126,   127,
   0x2500,0x2502,0x250C,0x2510,0x2514,0x2518,0x251C,0x2524,0x252C,0x2534,0x253C,0x2580,0x2584,0x2588,0x258C,0x2590,
   0x2591,0x2592,0x2593,0x201C,0x25A0,0x2219,0x201D,0x2014,0x2116,0x2122,0x00A0,0x00BB,0x00AE,0x00AB,0x00B7,0x00A4,
-  0x2550,0x2551,0x2552,0x0451,0x0454,0x2554,0x0456,0x0457,0x2557,0x2558,0x2559,0x255A,0x255B,0x0491,0x045D,0x255E,
-  0x255F,0x2560,0x2561,0x0401,0x0404,0x2563,0x0406,0x0407,0x2566,0x2567,0x2568,0x2569,0x256A,0x0490,0x040D,0x00A9,
+  0x2550,0x2551,0x2552,0x0451,0x0454,0x2554,0x0456,0x0457,0x2557,0x2558,0x2559,0x255A,0x255B,0x0491,0x045E,0x255E,
+  0x255F,0x2560,0x2561,0x0401,0x0404,0x2563,0x0406,0x0407,0x2566,0x2567,0x2568,0x2569,0x256A,0x0490,0x040E,0x00A9,
   0x044E,0x0430,0x0431,0x0446,0x0434,0x0435,0x0444,0x0433,0x0445,0x0438,0x0439,0x043A,0x043B,0x043C,0x043D,0x043E,
   0x043F,0x044F,0x0440,0x0441,0x0442,0x0443,0x0436,0x0432,0x044C,0x044B,0x0437,0x0448,0x044D,0x0449,0x0447,0x044A,
   0x042E,0x0410,0x0411,0x0426,0x0414,0x0415,0x0424,0x0413,0x0425,0x0418,0x0419,0x041A,0x041B,0x041C,0x041D,0x041E,
-- 
2.43.0


From fc4e07459e3cb072538953e0e4b6b2c9deed7e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:03 +0000
Subject: [PATCH 41/81] fix: size() of plain files seeks past the end of the
 file

size() of a buffered or partly read file counted bytes already read.
---
 lib/input.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/input.cpp b/lib/input.cpp
index b9de43a..342b829 100644
--- a/lib/input.cpp
+++ b/lib/input.cpp
@@ -1167,7 +1167,7 @@ void Input::file_size()
         }
         break;
       default:
-        fseeko(file_, k, SEEK_END);
+        fseeko(file_, 0, SEEK_END);
         off_t n = ftello(file_);
         if (n >= k)
           size_ += static_cast<size_t>(n - k);
-- 
2.43.0


From 350567f17c47155e53d6f259492fc9e4c8313520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:03 +0000
Subject: [PATCH 42/81] fix: size() of wide strings with characters that are
 out of range

---
 lib/input.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/input.cpp b/lib/input.cpp
index 342b829..bfba062 100644
--- a/lib/input.cpp
+++ b/lib/input.cpp
@@ -1042,7 +1042,7 @@ void Input::wstring_size()
     else
     {
 #ifndef WITH_UTF8_UNRESTRICTED
-      size_ += 1 + (c >= 0x80) + (c >= 0x0800) + (c >= 0x010000);
+      size_ += c > 0x10FFFF ? sizeof(REFLEX_NONCHAR_UTF8) - 1 : 1 + (c >= 0x80) + (c >= 0x0800) + (c >= 0x010000);
 #else
       size_ += 1 + (c >= 0x80) + (c >= 0x0800) + (c >= 0x010000) + (c >= 0x200000) + (c >= 0x04000000);
 #endif
-- 
2.43.0


From 710019b47a649f5136a4c041a096cb049b671c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:23 +0000
Subject: [PATCH 43/81] fix: find() returns trailing context and negative
 matches of a string pattern

---
 lib/pattern.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index fe8a3db..ca9677d 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -3069,7 +3069,8 @@ void Pattern::predict_match_dfa(DFA::State *start)
     }
     state = next;
   }
-  if (state != NULL && state->accept > 0 && !state->edges.empty())
+  // not just a string when more can be matched, when negative or when trailing context is to be removed from the match
+  if (state != NULL && state->accept > 0 && (!state->edges.empty() || state->redo || !state->tails.empty()))
     one_ = false;
   min_ = 0;
   std::memset(bit_, 0xFF, sizeof(bit_));
-- 
2.43.0


From e2f33600fc58b8e524844462d72b694a2e04c036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:23 +0000
Subject: [PATCH 44/81] fix: split() at matches of a negative pattern

---
 include/reflex/matcher.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index 6e0230a..dc8a599 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -805,6 +805,14 @@ unrolled:
     if (method == Const::SPLIT)
     {
       DBGLOG("Split: len = %zu cap = %zu cur = %zu pos = %zu end = %zu txt-buf = %zu eob = %d got = %d", len_, cap_, cur_, pos_, end_, txt_-buf_, (int)eof_, got_);
+      if (cap_ == Const::REDO && !opt_.A && cur_ > static_cast<size_t>(txt_ - buf_) + len_)
+      {
+        // ignore a negative match, include it in the text
+        len_ = cur_ - static_cast<size_t>(txt_ - buf_);
+        set_current(cur_);
+        DBGLOG("Split ignore accept and continue: len = %zu", len_);
+        goto find;
+      }
       if (cap_ == 0 || (cur_ == static_cast<size_t>(txt_ - buf_) && !at_bob()))
       {
         if (txt_ + len_ < buf_ + end_ || peek() != EOF)
-- 
2.43.0


From 390ae70e7558cfb9cdd956c8164a6c5d928ac8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:59 +0000
Subject: [PATCH 45/81] fix: trailing context of a pattern that is not accepted
 truncates the match

---
 lib/pattern.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index ca9677d..ef7bf89 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -1890,6 +1890,18 @@ void Pattern::compile_transition(
       }
     }
   }
+  // a lookahead tail applies to the pattern that is accepted, not when nothing (yet) or another pattern is accepted
+  if (!state->tails.empty() && !state->redo)
+  {
+    Lookahead n = 0;
+    for (Map::const_iterator i = lookahead.begin(); i != lookahead.end(); ++i)
+    {
+      Lookahead m = n + static_cast<Lookahead>(i->second.size());
+      if (state->accept != i->first)
+        state->tails.erase(state->tails.lower_bound(n), state->tails.lower_bound(m));
+      n = m;
+    }
+  }
   Moves::iterator i = moves.begin();
   Moves::iterator e = moves.end();
   while (i != e)
-- 
2.43.0


From 21e662095cbe3dc0f7396c595f6d3cfe98dd9645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:03 +0000
Subject: [PATCH 46/81] fix: undent anchor matches when the indent depth did
 not change

---
 include/reflex/matcher.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index dc8a599..7b1f953 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -555,7 +555,7 @@ redo:
                   continue;
                 case Pattern::META_UND - Pattern::META_MIN:
                   DBGLOG("UND");
-                  if (mrk_)
+                  if (mrk_ && !nodent())
                   {
                     jump = Pattern::index_of(opcode);
                     if (jump == Pattern::Const::LONG)
@@ -955,11 +955,10 @@ unrolled:
     newline();
     return !tab_.empty() && tab_.back() > col_;
   }
-  /// Returns true if nodent.
+  /// Returns true if nodent, after checking indent() and dedent() at the margin.
   inline bool nodent()
     /// @returns true if nodent
   {
-    newline();
     return (col_ <= 0 || (!tab_.empty() && tab_.back() >= col_)) && (tab_.empty() || tab_.back() <= col_);
   }
 #endif
-- 
2.43.0


From e19e0404682e4b7f09ef1baf4ccd349385174488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:06 +0000
Subject: [PATCH 47/81] fix: patterns that continue on the next line with a
 backslash

---
 src/reflex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reflex.cpp b/src/reflex.cpp
index b9b29c2..e4ecc69 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -1080,7 +1080,7 @@ bool Reflex::get_pattern(size_t& pos, std::string& pattern, std::string& regex)
       if (pos == linelen)
       {
         // line ends in \ and continues on the next line
-        pattern.append(line.substr(loc, pos - loc));
+        pattern.append(line.substr(loc, pos - loc - 1)); // without the backslash
         if (!get_line())
           error("EOF encountered inside a pattern", NULL, at_lineno);
         if (is("%%"))
-- 
2.43.0


From a1194258ffef89396cca648d54d8ca41f7c5ad7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:06 +0000
Subject: [PATCH 48/81] fix: rules after a | action of an <<EOF>> rule are
 numbered wrong

---
 src/reflex.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reflex.cpp b/src/reflex.cpp
index e4ecc69..deb51c3 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -3088,7 +3088,8 @@ void Reflex::write_lexer()
             *out <<
               "            break;\n";
         }
-        ++accept;
+        if (!eof_rule)
+          ++accept;
       }
     }
     *out <<
-- 
2.43.0


From dea040f8849e76062de961b0cf025095502f2e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:18 +0000
Subject: [PATCH 49/81] fix: end of comments /*/ and \*/ in actions and
 sections

---
 src/reflex.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/reflex.cpp b/src/reflex.cpp
index deb51c3..de9d35b 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -785,6 +785,7 @@ bool Reflex::skip_comment(size_t& pos)
     }
     else if (pos + 1 < linelen && line.at(pos) == '/' && line.at(pos + 1) == '*')
     {
+      pos += 2;
       while (true)
       {
         while (pos + 1 < linelen && (line.at(pos) != '*' || line.at(pos + 1) != '/'))
@@ -1235,15 +1236,22 @@ std::string Reflex::get_code(size_t& pos)
           if (line.at(pos + 1) == '/')
             pos = linelen;
           else if (line.at(pos + 1) == '*')
+          {
             tok = COMMENT;
+            ++pos;
+          }
         }
         break;
       case '*':
         if (tok == COMMENT && pos + 1 < linelen && line.at(pos + 1) == '/')
+        {
           tok = CODE;
+          ++pos;
+        }
         break;
       case '\\':
-        ++pos;
+        if (tok != COMMENT)
+          ++pos;
         break;
     }
     ++pos;
-- 
2.43.0


From d42310452daa3f0006c3fc6bdd22f5a33c19d01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:32 +0000
Subject: [PATCH 50/81] fix: <<EOF>> rules are ignored with option find

---
 src/reflex.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/reflex.cpp b/src/reflex.cpp
index de9d35b..ad2c573 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -2952,8 +2952,24 @@ void Reflex::write_lexer()
           "        switch (matcher().find())\n";
       *out <<
         "        {\n"
-        "          case 0:\n"
-        "            return " << token_eof << ";\n";
+        "          case 0:\n";
+      Rules::const_iterator rule = rules[start].begin();
+      while (rule != rules[start].end() && rule->regex != "<<EOF>>")
+        ++rule;
+      if (rule == rules[start].end())
+      {
+        *out << "            return " << token_eof << ";\n";
+      }
+      else
+      {
+        if (!options["debug"].empty())
+          *out <<
+            "            if (debug()) std::cerr << \"--" <<
+            SGR("\\033[1;35m") << "EOF rule " << escape_bs(rule->code.file) << ":" << rule->code.lineno << SGR("\\033[0m") <<
+            " start(\" << start() << \")\\n\";\n";
+        write_code(rule->code);
+        *out << (!options["flex"].empty() ? "            YY_BREAK\n" : "            break;\n");
+      }
     }
     else
     {
-- 
2.43.0


From fee2cb5aa78b07158bcd0d7e6569a2d122a82272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:46 +0000
Subject: [PATCH 51/81] fix: Pattern size(), [n] and reachable(n) skip the
 subpatterns that are strings

---
 lib/pattern.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index ef7bf89..11bb8a7 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -449,7 +449,6 @@ void Pattern::parse(
           modifiers,
           lookahead[choice],
           iter);
-      end_.push_back(loc);
       set_insert(startpos, firstpos);
       if (nullable)
       {
@@ -476,6 +475,7 @@ void Pattern::parse(
         }
       }
     }
+    end_.push_back(loc);
     if (++choice == 0)
       error(regex_error::exceeds_limits, loc); // overflow: too many top-level alternations (should never happen)
   } while (at(loc++) == '|');
-- 
2.43.0


From abec523068580662d0d0059dc85b95a3ac17eacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:46 +0000
Subject: [PATCH 52/81] fix: copying and reassigning Pattern objects

A copy did not include the find() search data, was empty for saved tables and the
copy constructor cleared uninitialized members. Reassigning reused freed tree DFA
nodes and kept the subpatterns of the previous regex.
---
 include/reflex/pattern.h | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/include/reflex/pattern.h b/include/reflex/pattern.h
index d9e4597..22b3c3f 100644
--- a/include/reflex/pattern.h
+++ b/include/reflex/pattern.h
@@ -82,9 +82,18 @@ class Pattern {
   /// Construct an unset pattern.
   Pattern()
     :
+      vno_(0),
+      eno_(0),
       opc_(NULL),
       nop_(0),
-      fsm_(NULL)
+      fsm_(NULL),
+      len_(0),
+      min_(0),
+      pms_(0.0),
+      vms_(0.0),
+      ems_(0.0),
+      wms_(0.0),
+      one_(false)
   { }
   /// Construct a pattern object given a regex string.
   explicit Pattern(
@@ -152,6 +161,10 @@ class Pattern {
   }
   /// Copy constructor.
   Pattern(const Pattern& pattern) ///< pattern to copy
+    :
+      opc_(NULL),
+      nop_(0),
+      fsm_(NULL)
   {
     operator=(pattern);
   }
@@ -164,6 +177,10 @@ class Pattern {
   void clear()
   {
     rex_.clear();
+    end_.clear();
+    acc_.clear();
+    tfa_.clear();
+    dfa_.clear();
     if (nop_ > 0 && opc_ != NULL)
       delete[] opc_;
     opc_ = NULL;
@@ -224,6 +241,8 @@ class Pattern {
   /// Assign a (new) pattern.
   Pattern& operator=(const Pattern& pattern)
   {
+    if (this == &pattern)
+      return *this;
     clear();
     opt_ = pattern.opt_;
     rex_ = pattern.rex_;
@@ -245,8 +264,16 @@ class Pattern {
     }
     else
     {
+      opc_ = pattern.opc_;
       fsm_ = pattern.fsm_;
     }
+    len_ = pattern.len_;
+    min_ = pattern.min_;
+    one_ = pattern.one_;
+    std::memcpy(pre_, pattern.pre_, sizeof(pre_));
+    std::memcpy(bit_, pattern.bit_, sizeof(bit_));
+    std::memcpy(pmh_, pattern.pmh_, sizeof(pmh_));
+    std::memcpy(pma_, pattern.pma_, sizeof(pma_));
     return *this;
   }
   /// Assign a (new) pattern.
@@ -506,7 +533,9 @@ class Pattern {
     {
       for (List::iterator i = list.begin(); i != list.end(); ++i)
         delete[] *i;
+      tree = NULL;
       list.clear();
+      next = ALLOC;
     }
     /// return the root of the tree.
     Node *root()
@@ -586,6 +615,7 @@ class Pattern {
       for (List::iterator i = list.begin(); i != list.end(); ++i)
         delete[] *i;
       list.clear();
+      next = ALLOC;
     }
     /// new DFA state with optional tree DFA node.
     State *state(Tree::Node *node)
-- 
2.43.0


From bb87aad6228afd5dee33b9ceac326adffcee02e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:01 +0000
Subject: [PATCH 53/81] fix: find() uses the Boyer-Moore table of the previous
 pattern

The Boyer-Moore table that find() builds for a string pattern belongs to
the pattern of the matcher, but is kept when the matcher gets another
pattern, so that find() then searches for the old string.  Reset the table
when the pattern changes and do not copy it with the matcher.

property: R17
---
 include/reflex/matcher.h | 43 +++++++++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index 7b1f953..7e55997 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -102,12 +102,10 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
     :
       PatternMatcher<reflex::Pattern>(matcher),
       ded_(matcher.ded_),
-      tab_(matcher.tab_)
+      tab_(matcher.tab_),
+      bmd_(0)
   {
     DBGLOG("Matcher::Matcher(matcher)");
-    bmd_ = matcher.bmd_;
-    if (bmd_ != 0)
-      std::memcpy(bms_, matcher.bms_, sizeof(bms_));
   }
   /// Assign a matcher.
   Matcher& operator=(const Matcher& matcher) ///< matcher to copy
@@ -115,9 +113,40 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
     PatternMatcher<reflex::Pattern>::operator=(matcher);
     ded_ = matcher.ded_;
     tab_ = matcher.tab_;
-    bmd_ = matcher.bmd_;
-    if (bmd_ != 0)
-      std::memcpy(bms_, matcher.bms_, sizeof(bms_));
+    bmd_ = 0;
+    return *this;
+  }
+  using PatternMatcher<reflex::Pattern>::pattern;
+  /// Set the pattern to use with this matcher (the given pattern is shared and must be persistent).
+  virtual Matcher& pattern(const Pattern& pattern) ///< pattern object for this matcher
+    /// @returns this matcher
+  {
+    bmd_ = 0;
+    PatternMatcher<reflex::Pattern>::pattern(pattern);
+    return *this;
+  }
+  /// Set the pattern to use with this matcher (the given pattern is shared and must be persistent).
+  virtual Matcher& pattern(const Pattern *pattern) ///< pattern object for this matcher
+    /// @returns this matcher
+  {
+    bmd_ = 0;
+    PatternMatcher<reflex::Pattern>::pattern(pattern);
+    return *this;
+  }
+  /// Set the pattern from a regex string to use with this matcher.
+  virtual Matcher& pattern(const char *pattern) ///< regex string to instantiate internal pattern object
+    /// @returns this matcher
+  {
+    bmd_ = 0;
+    PatternMatcher<reflex::Pattern>::pattern(pattern);
+    return *this;
+  }
+  /// Set the pattern from a regex string to use with this matcher.
+  virtual Matcher& pattern(const std::string& pattern) ///< regex string to instantiate internal pattern object
+    /// @returns this matcher
+  {
+    bmd_ = 0;
+    PatternMatcher<reflex::Pattern>::pattern(pattern);
     return *this;
   }
   /// Polymorphic cloning.
-- 
2.43.0


From 289a986996168cb17e499bcf037b3ed7dfb6950f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:08 +0000
Subject: [PATCH 54/81] fix: --fast skips input when the start state is
 revisited

FSM_FIND() moves the start of the match ahead each time the generated code
returns to the start state, also with scan(), matches() and split() and after
more than one character.  Matches that start in between are missed and split()
omits text.  Use the condition that match() applies with the opcode table.

property: R16
---
 include/reflex/matcher.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index 7e55997..dbed84b 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -261,7 +261,8 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
   /// FSM code FIND.
   inline void FSM_FIND()
   {
-    if (cap_ == 0)
+    // loop back to start state after only one char matched (one transition) but w/o full match, then optimize
+    if (cap_ == 0 && pos_ == cur_ + 1 && fsm_.fnd)
       cur_ = pos_;
   }
   /// FSM code CHAR.
@@ -423,9 +424,10 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
   typedef std::vector<size_t> Stops; ///< indent margin/tab stops
   /// FSM data for FSM code
   struct FSM {
-    FSM() : bol(), nul(), c1() { }
+    FSM() : bol(), nul(), fnd(), c1() { }
     bool bol;
     bool nul;
+    bool fnd;
     int  c1;
   };
   /// Returns true if input matched the pattern using method Const::SCAN, Const::FIND, Const::SPLIT, or Const::MATCH.
@@ -459,6 +461,7 @@ redo:
       DBGLOG("FSM code %p", pat_->fsm_);
       fsm_.bol = bol;
       fsm_.nul = nul;
+      fsm_.fnd = method == Const::FIND;
       pat_->fsm_(*this);
       nul = fsm_.nul;
       c1 = fsm_.c1;
-- 
2.43.0


From f16e07ac57456aee5d0a85cb9bda5a93db34d89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:44 +0000
Subject: [PATCH 55/81] fix: convert() accepts the empty group (?:) and the
 empty list [^]

The documentation says that [^] is invalid: it is rejected only when more
regex text follows.  (?:) and (?:|a) are empty (sub)expressions, which are
rejected only as the first part of a regex.

property: R19
---
 lib/convert.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 7351b9a..ab8394d 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -1022,7 +1022,7 @@ static void insert_list(const char *pattern, size_t len, size_t& pos, convert_fl
       break;
     }
   }
-  if (pos >= len || pattern[pos] != ']')
+  if (pos >= len || pattern[pos] != ']' || pos == loc + negate)
     throw regex_error(regex_error::mismatched_brackets, pattern, loc);
   if (negate)
     negate_list(flags, mod, ranges);
@@ -1733,6 +1733,7 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
                         regex.append("-").append(unmods);
                       regex.push_back(':');
                     }
+                    beg = true;
                   }
                   pos = k;
                   loc = pos + 1;
-- 
2.43.0


From dfde09910d650c3e621a08bd635c533cea602eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:44 +0000
Subject: [PATCH 56/81] fix: Pattern reads beyond the end of malformed regexes

A backslash or \Q at the end of a regex, and \p{Name} in a list with an
unknown name when errors are not raised, make the parser read memory outside
of the regex string and the class table.  A backslash at the end is reported
as an invalid escape.  An empty alternative of a group that does not begin the
regex leaves nullable uninitialized: initialize like parse4().

property: R19
---
 include/reflex/pattern.h |  2 +-
 lib/pattern.cpp          | 26 ++++++++++++++++++++++++--
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/include/reflex/pattern.h b/include/reflex/pattern.h
index 22b3c3f..b5e77ad 100644
--- a/include/reflex/pattern.h
+++ b/include/reflex/pattern.h
@@ -801,7 +801,7 @@ class Pattern {
   }
   Char at(Location k) const
   {
-    return static_cast<unsigned char>(rex_[k]);
+    return k < rex_.size() ? static_cast<unsigned char>(rex_[k]) : '\0';
   }
   bool eq_at(
       Location    loc,
diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 11bb8a7..88b40ba 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -389,6 +389,11 @@ void Pattern::parse(
             while ((c = at(++end)) != '\0')
               if (c == opt_.e && at(end + 1) == 'E')
                 break;
+            if (c == '\0')
+            {
+              end = loc; // mismatched quotation
+              break;
+            }
           }
         }
         ++end;
@@ -670,6 +675,15 @@ void Pattern::parse2(
         iter = iter1;
     }
   }
+  else
+  {
+    // empty subpattern
+    firstpos.clear();
+    lastpos.clear();
+    nullable = true;
+    lazyset.clear();
+    iter = 1;
+  }
   for (Positions::const_iterator p = a_pos.begin(); p != a_pos.end(); ++p)
   {
     for (Positions::const_iterator k = lastpos.begin(); k != lastpos.end(); ++k)
@@ -1153,7 +1167,11 @@ void Pattern::parse4(
 Pattern::Char Pattern::parse_esc(Location& loc, Chars *chars) const
 {
   Char c = at(++loc);
-  if (c == '0')
+  if (c == '\0')
+  {
+    error(regex_error::invalid_escape, loc);
+  }
+  else if (c == '0')
   {
     c = 0;
     int d = at(++loc);
@@ -1239,7 +1257,11 @@ Pattern::Char Pattern::parse_esc(Location& loc, Chars *chars) const
         error(regex_error::invalid_class, loc);
       if (c == 'P')
         flip(*chars);
-      loc += static_cast<Location>(strlen(posix_class[i]));
+      if (i < 14)
+        loc += static_cast<Location>(strlen(posix_class[i]));
+      else
+        while ((c = at(loc)) != '\0' && c != '}')
+          ++loc;
       if (at(loc) == '}')
         ++loc;
       else
-- 
2.43.0


From 4830484c5c92307ed7ffc4c6ae800a96751ff933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:17 +0000
Subject: [PATCH 57/81] fix: PCRE2Matcher scan and matches start later in the
 input after a partial match

---
 include/reflex/pcre2matcher.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/reflex/pcre2matcher.h b/include/reflex/pcre2matcher.h
index f370e99..324e482 100644
--- a/include/reflex/pcre2matcher.h
+++ b/include/reflex/pcre2matcher.h
@@ -385,9 +385,9 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
       if (rc > 0)
       {
         PCRE2_SIZE *ovector = pcre2_get_ovector_pointer(dat_);
-        cur_ = ovector[0];
-        if (method == Const::FIND || method == Const::SPLIT || pos_ == cur_)
+        if (method == Const::FIND || method == Const::SPLIT || pos_ == ovector[0])
         {
+          cur_ = ovector[0];
           pos_ = ovector[1];
           if (cur_ == pos_ && (method == Const::FIND || method == Const::SPLIT))
             flg_ |= PCRE2_NOTEMPTY_ATSTART | PCRE2_ANCHORED;
@@ -400,6 +400,8 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
       if (rc == PCRE2_ERROR_PARTIAL)
       {
         PCRE2_SIZE *ovector = pcre2_get_ovector_pointer(dat_);
+        if (method != Const::FIND && method != Const::SPLIT && pos_ != ovector[0])
+          return false; // SCAN and MATCH must be anchored, no match when the partial match starts later
         cur_ = ovector[0]; // advance to the start of the partial match
         if (method == Const::FIND)
           txt_ = buf_ + cur_;
-- 
2.43.0


From 15640df0f4bbf1251c4e00d6507a458c8e9b2504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:17 +0000
Subject: [PATCH 58/81] fix: BoostMatcher loses matches after a partial match
 at the end of the input

---
 include/reflex/boostmatcher.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/reflex/boostmatcher.h b/include/reflex/boostmatcher.h
index b8fa915..04bcd7b 100644
--- a/include/reflex/boostmatcher.h
+++ b/include/reflex/boostmatcher.h
@@ -216,6 +216,13 @@ class BoostMatcher : public PatternMatcher<boost::regex> {
       }
       if (pos_ == end_) // if pos_ is hitting the end_ then
       {
+        if (eof_ && itr_ != fin_ && !(*itr_)[0].matched) // if partial match that cannot be completed at EOF then
+        {
+          itr_ = fin_; // need new iterator to find a full match
+          pos_ = cur_;
+          if (pos_ != end_)
+            continue;
+        }
         if (method == Const::SPLIT)
         {
           DBGLOGN("Split end");
@@ -338,6 +345,8 @@ class BoostMatcher : public PatternMatcher<boost::regex> {
   {
     DBGLOGN("New iterator");
     boost::match_flag_type flg = flg_;
+    if (eof_) // all remaining data read into the buffer, no more partial matching
+      flg &= ~boost::regex_constants::match_partial;
     if (!at_bob())
       flg |= boost::regex_constants::match_not_bob;
     if (!at_bol())
-- 
2.43.0


From 45cb935061880dc5e3e31c7621d7ca6980c04db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:27 +0000
Subject: [PATCH 59/81] fix: Boost and std matchers continue a match iterator
 that shifted or new input made invalid

---
 include/reflex/boostmatcher.h | 12 +++++++++++-
 include/reflex/stdmatcher.h   | 12 +++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/reflex/boostmatcher.h b/include/reflex/boostmatcher.h
index 04bcd7b..01055cc 100644
--- a/include/reflex/boostmatcher.h
+++ b/include/reflex/boostmatcher.h
@@ -193,7 +193,7 @@ class BoostMatcher : public PatternMatcher<boost::regex> {
     cur_ = pos_;
     if (itr_ != fin_) // if regex iterator is still valid then
     {
-      if ((*itr_)[0].second == buf_ + pos_) // if last of regex iterator is still valid in buf_[] then
+      if ((*itr_)[0].second == buf_ + pos_ && (*itr_).suffix().second == buf_ + end_) // if last of regex iterator is still valid in buf_[] then
       {
         DBGLOGN("Continue iterating, pos = %zu", pos_);
         ++itr_;
@@ -209,9 +209,19 @@ class BoostMatcher : public PatternMatcher<boost::regex> {
     {
       if (pos_ == end_ && !eof_)
       {
+        bool again = false;
         if (end_ + blk_ + 1 >= max_ && grow()) // make sure we have enough storage to read input
+        {
+          again = itr_ != fin_;
           itr_ = fin_; // buffer shifting/growing invalidates iterator
+        }
         (void)peek_more();
+        if (again) // match again
+        {
+          pos_ = cur_;
+          if (pos_ != end_)
+            continue;
+        }
         DBGLOGN("Got more input pos = %zu end = %zu max = %zu", pos_, end_, max_);
       }
       if (pos_ == end_) // if pos_ is hitting the end_ then
diff --git a/include/reflex/stdmatcher.h b/include/reflex/stdmatcher.h
index e2bc303..b9746ca 100644
--- a/include/reflex/stdmatcher.h
+++ b/include/reflex/stdmatcher.h
@@ -192,7 +192,7 @@ class StdMatcher : public PatternMatcher<std::regex> {
     cur_ = pos_; // reset cur_ when changed in more()
     if (itr_ != fin_) // if regex iterator is still valid then
     {
-      if ((*itr_)[0].second == buf_ + pos_) // if last of regex iterator is still valid in buf_[] then
+      if ((*itr_)[0].second == buf_ + pos_ && (*itr_).suffix().second == buf_ + end_) // if last of regex iterator is still valid in buf_[] then
       {
         DBGLOGN("Continue iterating, pos = %zu", pos_);
         ++itr_;
@@ -223,9 +223,19 @@ class StdMatcher : public PatternMatcher<std::regex> {
     {
       if (pos_ == end_ && !eof_)
       {
+        bool again = false;
         if (end_ + blk_ + 1 >= max_ && grow()) // make sure we have enough storage to read input
+        {
+          again = itr_ != fin_;
           itr_ = fin_; // buffer shifting/growing invalidates iterator
+        }
         (void)peek_more();
+        if (again) // match again
+        {
+          pos_ = cur_;
+          if (pos_ != end_)
+            continue;
+        }
         DBGLOGN("Got more input pos = %zu end = %zu max = %zu", pos_, end_, max_);
       }
       if (pos_ == end_) // if pos_ is hitting the end_ then
-- 
2.43.0


From 062789c5ae79cea4f4a172bf99c61041a5c680cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:20 +0000
Subject: [PATCH 60/81] fix: FuzzyMatcher matches() accepts extra text without
 counting edits, flags INS, DEL and SUB

---
 fuzzy/fuzzymatcher.h | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/fuzzy/fuzzymatcher.h b/fuzzy/fuzzymatcher.h
index e2590d6..f9cdbca 100644
--- a/fuzzy/fuzzymatcher.h
+++ b/fuzzy/fuzzymatcher.h
@@ -280,8 +280,10 @@ class FuzzyMatcher : public Matcher {
           if ((c = get()) == EOF)
             break;
       }
-      bpt.sub = false;
-      bpt.pc1 += !bpt.alt;
+      if (del_)
+        bpt.sub = false; // next, insert this pattern char
+      else
+        ++bpt.pc1; // next, substitute another pattern char
     }
     else
     {
@@ -665,19 +667,19 @@ unrolled:
           // exit fuzzy loop if fuzzy match succeeds till end of input
           if (cap_ > 0)
           {
-            if (c1 == EOF)
-              break;
-            while (err_ < max_)
+            // the input after the accepted text must be skipped as inserted chars, but never NUL and LF
+            size_t pos = pos_ - (txt_ - buf_);
+            uint8_t err = err_;
+            pos_ = cur_;
+            while (ins_ && err_ < max_ && peek() != EOF && peek() != '\0' && peek() != '\n')
             {
-              c1 = get();
-              if (c1 == EOF)
-                break;
               // skip one (multibyte) char
-              if (c1 >= 0xC0)
+              int c = get();
+              if (c >= 0xC0)
               {
-                int n = (c1 >= 0xE0) + (c1 >= 0xF0);
+                int n = (c >= 0xE0) + (c >= 0xF0);
                 while (n-- >= 0)
-                  if ((c1 = get()) == EOF)
+                  if (get() == EOF)
                     break;
               }
               ++err_;
@@ -688,6 +690,10 @@ unrolled:
               set_current(pos_);
               break;
             }
+            // continue fuzzy matching
+            pos_ = (txt_ - buf_) + pos;
+            err_ = err;
+            cap_ = 0;
           }
         }
         else
@@ -748,6 +754,20 @@ unrolled:
               pc = pc0;
               DBGLOG("delete %c at pos %zu", c1, pos_ - 1);
             }
+            else
+            {
+              // try insertion or substitution of pattern char
+              pc = NULL;
+              while (stack > 0 && pc == NULL)
+              {
+                pc = backtrack(bpt_[stack - 1], c1);
+                if (pc == NULL)
+                  --stack;
+              }
+              // exhausted all backtracking points?
+              if (pc == NULL)
+                break;
+            }
           }
           else
           {
-- 
2.43.0


From 5f4591379465a39a1eb2e8a0e86c00f1a75b8803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:39 +0000
Subject: [PATCH 61/81] fix: FuzzyMatcher split() and find() lose or repeat
 text when the second pass is taken

---
 fuzzy/fuzzymatcher.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/fuzzy/fuzzymatcher.h b/fuzzy/fuzzymatcher.h
index f9cdbca..7e5f85e 100644
--- a/fuzzy/fuzzymatcher.h
+++ b/fuzzy/fuzzymatcher.h
@@ -173,6 +173,7 @@ class FuzzyMatcher : public Matcher {
         loc(0),
         cap(0),
         txt(0),
+        len(0),
         cur(0),
         pos(0),
         ded(ded),
@@ -183,6 +184,7 @@ class FuzzyMatcher : public Matcher {
     size_t  loc;
     size_t  cap;
     size_t  txt;
+    size_t  len;
     size_t  cur;
     size_t  pos;
     size_t  ded;
@@ -790,7 +792,7 @@ unrolled:
     if (cap_ > 0 && err_ > 0 && !sst.use && (method == Const::FIND || method == Const::SPLIT))
     {
       // this part is based on advance() in matcher.cpp, limited to advancing ahead till the one of the first pattern char(s) match excluding \n
-      size_t loc = txt_ - buf_ + 1;
+      size_t loc = txt_ - buf_ + len_ + 1;
       const char *s = buf_ + loc;
       const char *e = static_cast<const char*>(std::memchr(s, '\n', cur_ - loc));
       if (e == NULL)
@@ -809,6 +811,8 @@ unrolled:
             sst.loc = loc;
             sst.cap = cap_;
             sst.txt = txt_ - buf_;
+            sst.len = len_;
+            len_ = 0;
             sst.cur = cur_;
             sst.pos = pos_;
             size_t tmp = ded_;
@@ -831,6 +835,8 @@ unrolled:
           sst.loc = loc;
           sst.cap = cap_;
           sst.txt = txt_ - buf_;
+          sst.len = len_;
+          len_ = 0;
           sst.cur = cur_;
           sst.pos = pos_;
           size_t tmp = ded_;
@@ -855,12 +861,14 @@ unrolled:
       mrk_ = sst.mrk;
       err_ = sst.err;
       txt_ = buf_ + sst.txt - shift;
+      len_ = sst.len;
     }
     else if (sst.use && cap_ > 0 && method == Const::SPLIT)
     {
       size_t loc = txt_ - buf_;
       size_t shift = sst.loc - loc;
       len_ = loc - sst.txt + shift;
+      txt_ = buf_ + sst.txt - shift; // the split text starts before the first pass
     }
 #if !defined(WITH_NO_INDENT)
     if (mrk_ && cap_ != Const::REDO)
@@ -905,7 +913,7 @@ unrolled:
       DBGLOG("Split: len = %zu cap = %zu cur = %zu pos = %zu end = %zu txt-buf = %zu eob = %d got = %d", len_, cap_, cur_, pos_, end_, txt_-buf_, (int)eof_, got_);
       if (cap_ == 0 || (cur_ == static_cast<size_t>(txt_ - buf_) && !at_bob()))
       {
-        if (!hit_end() && (txt_ + len_ < buf_ + end_ || peek() != EOF))
+        if (txt_ + len_ < buf_ + end_ || peek() != EOF)
         {
           ++len_;
           DBGLOG("Split continue: len = %zu", len_);
@@ -922,6 +930,7 @@ unrolled:
         DBGLOG("END FuzzyMatcher::match()");
         return cap_;
       }
+      pos_ = cur_; // discard lookahead read past the match to check for the end of input
       if (cur_ == 0 && at_bob() && at_end())
       {
         cap_ = Const::EMPTY;
-- 
2.43.0


From b8912356fb137a2d170da07e0d73773c73038d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:39 +0000
Subject: [PATCH 62/81] fix: FuzzyMatcher copy drops the INS, DEL and SUB
 flags, assignment overflows the backtrack points

---
 fuzzy/fuzzymatcher.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fuzzy/fuzzymatcher.h b/fuzzy/fuzzymatcher.h
index 7e5f85e..bf26c25 100644
--- a/fuzzy/fuzzymatcher.h
+++ b/fuzzy/fuzzymatcher.h
@@ -134,9 +134,9 @@ class FuzzyMatcher : public Matcher {
       Matcher(matcher),
       max_(matcher.max_),
       err_(0),
-      ins_(true),
-      del_(true),
-      sub_(true)
+      ins_(matcher.ins_),
+      del_(matcher.del_),
+      sub_(matcher.sub_)
   {
     DBGLOG("FuzzyMatcher::FuzzyMatcher(matcher)");
     bpt_.resize(max_);
@@ -150,6 +150,7 @@ class FuzzyMatcher : public Matcher {
     ins_ = matcher.ins_;
     del_ = matcher.del_;
     sub_ = matcher.sub_;
+    bpt_.resize(max_);
     return *this;
   }
   /// Polymorphic cloning.
-- 
2.43.0


From 673396aed69bb71e4f52c1a6e7e660580bddb254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:16 +0000
Subject: [PATCH 63/81] fix: AbstractLexer::in(FILE*) loses the first bytes of
 the file when a matcher exists

---
 include/reflex/abslexer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/abslexer.h b/include/reflex/abslexer.h
index 46ae3f5..359ee6b 100644
--- a/include/reflex/abslexer.h
+++ b/include/reflex/abslexer.h
@@ -130,7 +130,7 @@ class AbstractLexer {
   {
     in_ = input;
     if (has_matcher())
-      matcher().input(input); // reset and assign new input
+      matcher().input(in_); // reset and assign new input, do not construct it from a FILE* twice, which reads from the file
     return *this;
   }
   /// Reset the matcher and start scanning from the given byte sequence.
-- 
2.43.0


From bbe2367275b5dc2588d9cff4820ffbc8d344ba39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:16 +0000
Subject: [PATCH 64/81] fix: ECHO uses yytext and yyleng, which option prefix
 with flex and bison removes

---
 include/reflex/flexlexer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/flexlexer.h b/include/reflex/flexlexer.h
index d4ef52c..97877be 100644
--- a/include/reflex/flexlexer.h
+++ b/include/reflex/flexlexer.h
@@ -137,7 +137,7 @@ int yywrap(void);
 
 /// Flex-compatible macro: ECHO action to output the content of yytext.
 #ifndef ECHO
-#define ECHO                    YY_SCANNER_DOT_ LexerOutput(yytext, yyleng)
+#define ECHO                    YY_SCANNER_DOT_ LexerOutput(YY_SCANNER_DOT_ YYText(), YY_SCANNER_DOT_ YYLeng())
 #endif
 
 /// Flex-compatible macro: BEGIN action to set a start condition.
-- 
2.43.0


From f65faa80a23d22e294a5b94a60112a7d06574133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:24 +0000
Subject: [PATCH 65/81] fix: option lex with bison-cc calls yylex, not the
 scanner function

---
 src/reflex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reflex.cpp b/src/reflex.cpp
index ad2c573..e7d9c62 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -2201,7 +2201,7 @@ void Reflex::write_class()
           "  }\n"
           "  virtual " << token_type << " " << lex << "(" << yystype << " *lvalp" << comma_params << ")\n"
           "  {\n"
-          "    return yylex(*lvalp" << comma_args << ");\n"
+          "    return " << lex << "(*lvalp" << comma_args << ");\n"
           "  }\n"
           "  virtual " << token_type << " " << lex << "(" << yystype << "& yylval" << comma_params << ")";
     }
-- 
2.43.0


From 3716209575751c2fee1ea1d0eeca1ecad666d693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:24 +0000
Subject: [PATCH 66/81] fix: scanner class is abstract with options flex and
 params, or bison-complete and lex

---
 src/reflex.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/reflex.cpp b/src/reflex.cpp
index e7d9c62..c48b4c8 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -2168,6 +2168,13 @@ void Reflex::write_class()
           "    yylloc.end.column = static_cast<unsigned int>(matcher().columno_end());\n"
           "    return yylloc;\n"
           "  }\n";
+      if (lex != "yylex" || !options["params"].empty())
+        *out <<
+          "  virtual " << token_type << " yylex(void)\n"
+          "  {\n"
+          "    LexerError(\"" << lexer << "::yylex invoked but %option " << (lex != "yylex" ? "lex=" + lex : "params") << " is used\");\n"
+          "    yyterminate();\n"
+          "  }\n";
       *out <<
         "  virtual " << token_type << " " << lex << "(" << params << ")";
     }
@@ -2234,11 +2241,11 @@ void Reflex::write_class()
     }
     else
     {
-      if (lex != "yylex")
+      if (lex != "yylex" || !options["params"].empty())
         *out <<
           "  virtual " << token_type << " yylex(void)\n"
           "  {\n"
-          "    LexerError(\"" << lexer << "::yylex invoked but %option lex=" << lex << " is used\");\n"
+          "    LexerError(\"" << lexer << "::yylex invoked but %option " << (lex != "yylex" ? "lex=" + lex : "params") << " is used\");\n"
           "    yyterminate();\n"
           "  }\n";
       *out <<
-- 
2.43.0


From 08f64a0a7bb53e0f79570a886fc39260d890a51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:24 +0000
Subject: [PATCH 67/81] fix: yylex_destroy is missing without flex,
 yylex_init_extra does not compile in a namespace

---
 src/reflex.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/reflex.cpp b/src/reflex.cpp
index c48b4c8..a6eeb41 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -2623,6 +2623,11 @@ void Reflex::write_lexer()
       "{\n"
       "  *scanner = static_cast<yyscan_t>(new yyscanner_t);\n"
       "}\n"
+      "\n"
+      "YY_EXTERN_C void yylex_destroy(yyscan_t scanner)\n"
+      "{\n"
+      "  delete static_cast<yyscanner_t*>(scanner);\n"
+      "}\n"
       "\n";
     if (!options["flex"].empty())
     {
@@ -2630,12 +2635,7 @@ void Reflex::write_lexer()
         "YY_EXTERN_C void yylex_init_extra(" << (options["extra_type"].empty() ? "void*" : options["extra_type"].c_str()) << " extra, yyscan_t *scanner)\n"
         "{\n"
         "  *scanner = static_cast<yyscan_t>(new yyscanner_t);\n"
-        "  " << prefix << "set_extra(extra, *scanner);\n"
-        "}\n"
-        "\n"
-        "YY_EXTERN_C void yylex_destroy(yyscan_t scanner)\n"
-        "{\n"
-        "  delete static_cast<yyscanner_t*>(scanner);\n"
+        "  static_cast<yyscanner_t*>(*scanner)->yyextra = extra;\n"
         "}\n"
         "\n"
         "#undef " << prefix << "get_text\n"
-- 
2.43.0


From 15e0f42bb3794eb33b3b512ff2dfeb0340f8f83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:27 +0000
Subject: [PATCH 68/81] fix: compare a match with a C string without reading
 past the string

When the matched text holds a null character, strncmp() stops at the end of
a shorter C string that equals the text up to that null, and rhs[len_] was
then read past the end of the string. The result depended on that byte.
---
 include/reflex/absmatcher.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 81bd4a6..dedd70c 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -1305,7 +1305,7 @@ class AbstractMatcher {
     /// @returns true if matched text is equal to rhs string
     const
   {
-    return std::strncmp(rhs, txt_, len_) == 0 && rhs[len_] == '\0';
+    return std::strlen(rhs) == len_ && std::memcmp(rhs, txt_, len_) == 0;
   }
   /// Returns true if matched text is equalt to a string, useful for std::algorithm.
   bool operator==(const std::string& rhs) ///< rhs string to compare to
@@ -1333,7 +1333,7 @@ class AbstractMatcher {
     /// @returns true if matched text is not equal to rhs string
     const
   {
-    return std::strncmp(rhs, txt_, len_) != 0 || rhs[len_] != '\0'; // if static checkers complain here, they are wrong
+    return std::strlen(rhs) != len_ || std::memcmp(rhs, txt_, len_) != 0;
   }
   /// Returns true if matched text is not equal to a string, useful for std::algorithm.
   bool operator!=(const std::string& rhs) ///< rhs string to compare to
-- 
2.43.0


From 17ea3c4a6db8d32af115deadb62787184bdd0f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:11 +0000
Subject: [PATCH 69/81] fix: saved code misses matches after more than five
 anchors in a row

The generated code followed at most five anchors from a state, to not loop
on a cycle of anchors. Follow all of them and stop at states already on the path.
---
 include/reflex/pattern.h | 16 ++++++++--------
 lib/pattern.cpp          | 36 +++++++++++++++++++++---------------
 2 files changed, 29 insertions(+), 23 deletions(-)

diff --git a/include/reflex/pattern.h b/include/reflex/pattern.h
index b5e77ad..6f6ae40 100644
--- a/include/reflex/pattern.h
+++ b/include/reflex/pattern.h
@@ -775,15 +775,15 @@ class Pattern {
   void encode_dfa(DFA::State *start);
   void gencode_dfa(const DFA::State *start) const;
   void check_dfa_closure(
-      const DFA::State *state,
-      int               nest,
-      bool&             peek,
-      bool&             prev) const;
+      const DFA::State                *state,
+      std::vector<const DFA::State*>&  path,
+      bool&                            peek,
+      bool&                            prev) const;
   void gencode_dfa_closure(
-      FILE             *fd,
-      const DFA::State *start,
-      int               nest,
-      bool              peek) const;
+      FILE                            *fd,
+      const DFA::State                *start,
+      std::vector<const DFA::State*>&  path,
+      bool                             peek) const;
   void export_dfa(const DFA::State *start) const;
   void export_code() const;
   void predict_match_dfa(DFA::State *start);
diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 88b40ba..853711a 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -2472,6 +2472,7 @@ void Pattern::gencode_dfa(const DFA::State *start) const
             ::fprintf(file, "  if (m.FSM_DENT()) goto S%u;\n", state->edges.rbegin()->second.second->index);
           bool peek = false; // if we need to read a character into c1
           bool prev = false; // if we need to keep the previous character in c0
+          std::vector<const DFA::State*> path(1, state); // states on the path of anchors taken
           for (DFA::State::Edges::const_reverse_iterator i = state->edges.rbegin(); i != state->edges.rend(); ++i)
           {
 #if WITH_COMPACT_DFA == -1
@@ -2501,7 +2502,7 @@ void Pattern::gencode_dfa(const DFA::State *start) const
                   prev = peek = true;
                 if (prev && peek)
                   break;
-                check_dfa_closure(i->second.second, 1, peek, prev);
+                check_dfa_closure(i->second.second, path, peek, prev);
               } while (++lo <= hi);
             }
           }
@@ -2572,7 +2573,7 @@ void Pattern::gencode_dfa(const DFA::State *start) const
                     if (elif)
                       ::fprintf(file, "else ");
                     ::fprintf(file, "if (m.FSM_META_%s(c1)) {\n", meta_label[lo - META_MIN]);
-                    gencode_dfa_closure(file, i->second.second, 2, peek);
+                    gencode_dfa_closure(file, i->second.second, path, peek);
                     ::fprintf(file, "  }\n");
                     elif = true;
                     break;
@@ -2583,7 +2584,7 @@ void Pattern::gencode_dfa(const DFA::State *start) const
                     if (elif)
                       ::fprintf(file, "else ");
                     ::fprintf(file, "if (m.FSM_META_%s(c0, c1)) {\n", meta_label[lo - META_MIN]);
-                    gencode_dfa_closure(file, i->second.second, 2, peek);
+                    gencode_dfa_closure(file, i->second.second, path, peek);
                     ::fprintf(file, "  }\n");
                     elif = true;
                     break;
@@ -2592,7 +2593,7 @@ void Pattern::gencode_dfa(const DFA::State *start) const
                     if (elif)
                       ::fprintf(file, "else ");
                     ::fprintf(file, "if (m.FSM_META_%s()) {\n", meta_label[lo - META_MIN]);
-                    gencode_dfa_closure(file, i->second.second, 2, peek);
+                    gencode_dfa_closure(file, i->second.second, path, peek);
                     ::fprintf(file, "  }\n");
                     elif = true;
                 }
@@ -2624,7 +2625,7 @@ void Pattern::gencode_dfa(const DFA::State *start) const
                     if (elif)
                       ::fprintf(file, "else ");
                     ::fprintf(file, "if (m.FSM_META_%s(c1)) {\n", meta_label[lo - META_MIN]);
-                    gencode_dfa_closure(file, i->second.second, 2, peek);
+                    gencode_dfa_closure(file, i->second.second, path, peek);
                     ::fprintf(file, "  }\n");
                     elif = true;
                     break;
@@ -2635,7 +2636,7 @@ void Pattern::gencode_dfa(const DFA::State *start) const
                     if (elif)
                       ::fprintf(file, "else ");
                     ::fprintf(file, "if (m.FSM_META_%s(c0, c1)) {\n", meta_label[lo - META_MIN]);
-                    gencode_dfa_closure(file, i->second.second, 2, peek);
+                    gencode_dfa_closure(file, i->second.second, path, peek);
                     ::fprintf(file, "  }\n");
                     elif = true;
                     break;
@@ -2644,7 +2645,7 @@ void Pattern::gencode_dfa(const DFA::State *start) const
                     if (elif)
                       ::fprintf(file, "else ");
                     ::fprintf(file, "if (m.FSM_META_%s()) {\n", meta_label[lo - META_MIN]);
-                    gencode_dfa_closure(file, i->second.second, 2, peek);
+                    gencode_dfa_closure(file, i->second.second, path, peek);
                     ::fprintf(file, "  }\n");
                     elif = true;
                 }
@@ -2721,10 +2722,11 @@ void Pattern::gencode_dfa(const DFA::State *start) const
   }
 }
 
-void Pattern::check_dfa_closure(const DFA::State *state, int nest, bool& peek, bool& prev) const
+void Pattern::check_dfa_closure(const DFA::State *state, std::vector<const DFA::State*>& path, bool& peek, bool& prev) const
 {
-  if (nest > 4)
+  if (std::find(path.begin(), path.end(), state) != path.end())
     return;
+  path.push_back(state);
   for (DFA::State::Edges::const_reverse_iterator i = state->edges.rbegin(); i != state->edges.rend(); ++i)
   {
 #if WITH_COMPACT_DFA == -1
@@ -2744,14 +2746,16 @@ void Pattern::check_dfa_closure(const DFA::State *state, int nest, bool& peek, b
           prev = peek = true;
         if (prev && peek)
           break;
-        check_dfa_closure(i->second.second, nest + 1, peek, prev);
+        check_dfa_closure(i->second.second, path, peek, prev);
       } while (++lo <= hi);
     }
   }
+  path.pop_back();
 }
 
-void Pattern::gencode_dfa_closure(FILE *file, const DFA::State *state, int nest, bool peek) const
+void Pattern::gencode_dfa_closure(FILE *file, const DFA::State *state, std::vector<const DFA::State*>& path, bool peek) const
 {
+  int nest = static_cast<int>(path.size()) + 1;
   bool elif = false;
   if (state->redo)
   {
@@ -2769,8 +2773,9 @@ void Pattern::gencode_dfa_closure(FILE *file, const DFA::State *state, int nest,
   }
   for (Lookaheads::const_iterator i = state->tails.begin(); i != state->tails.end(); ++i)
     ::fprintf(file, "%*sm.FSM_TAIL(%u);\n", 2*nest, "", *i);
-  if (nest > 5)
+  if (std::find(path.begin(), path.end(), state) != path.end())
     return;
+  path.push_back(state);
   for (DFA::State::Edges::const_reverse_iterator i = state->edges.rbegin(); i != state->edges.rend(); ++i)
   {
 #if WITH_COMPACT_DFA == -1
@@ -2792,7 +2797,7 @@ void Pattern::gencode_dfa_closure(FILE *file, const DFA::State *state, int nest,
             if (elif)
               ::fprintf(file, "else ");
             ::fprintf(file, "if (m.FSM_META_%s(c1)) {\n", meta_label[lo - META_MIN]);
-            gencode_dfa_closure(file, i->second.second, nest + 1, peek);
+            gencode_dfa_closure(file, i->second.second, path, peek);
             ::fprintf(file, "%*s}\n", 2*nest, "");
             elif = true;
             break;
@@ -2803,7 +2808,7 @@ void Pattern::gencode_dfa_closure(FILE *file, const DFA::State *state, int nest,
             if (elif)
               ::fprintf(file, "else ");
             ::fprintf(file, "if (m.FSM_META_%s(c0, c1)) {\n", meta_label[lo - META_MIN]);
-            gencode_dfa_closure(file, i->second.second, nest + 1, peek);
+            gencode_dfa_closure(file, i->second.second, path, peek);
             ::fprintf(file, "%*s}\n", 2*nest, "");
             elif = true;
             break;
@@ -2812,13 +2817,14 @@ void Pattern::gencode_dfa_closure(FILE *file, const DFA::State *state, int nest,
             if (elif)
               ::fprintf(file, "else ");
             ::fprintf(file, "if (m.FSM_META_%s()) {\n", meta_label[lo - META_MIN]);
-            gencode_dfa_closure(file, i->second.second, nest + 1, peek);
+            gencode_dfa_closure(file, i->second.second, path, peek);
             ::fprintf(file, "%*s}\n", 2*nest, "");
             elif = true;
         }
       } while (++lo <= hi);
     }
   }
+  path.pop_back();
 }
 
 void Pattern::export_dfa(const DFA::State *start) const
-- 
2.43.0


From 00c094f48f0c4d3a089e3c7daeaddb8dbe3d2751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:58 +0000
Subject: [PATCH 70/81] fix: %include of a file that ends in code or a comment
 fails with EOF encountered inside an action

---
 src/reflex.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/reflex.cpp b/src/reflex.cpp
index a6eeb41..3ab18ad 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -753,7 +753,11 @@ void Reflex::include(const std::string& filename)
 bool Reflex::get_line()
 {
   if (in.eof())
+  {
+    line.clear();
+    linelen = 0;
     return false;
+  }
   if (!in.good())
     abort("error in reading");
   ++lineno;
@@ -1159,7 +1163,11 @@ std::string Reflex::get_code(size_t& pos)
     while (pos >= linelen)
     {
       if (!get_line())
-        error("EOF encountered inside an action", NULL, at_lineno);
+      {
+        if (blk > 0 || lev > 0 || tok != CODE)
+          error("EOF encountered inside an action", NULL, at_lineno);
+        return code;
+      }
       pos = 0;
       if (tok == CODE)
       {
@@ -1190,8 +1198,7 @@ std::string Reflex::get_code(size_t& pos)
           {
             if (lev > 0)
               error("%} encountered where } is expected");
-            if (!get_line())
-              error("EOF encountered where %% is expected");
+            (void)get_line();
             return code;
           }
           pos = linelen;
-- 
2.43.0


From 697734b4811cfe79df3c1ce0f46c275cf2ad7fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:58 +0000
Subject: [PATCH 71/81] fix: FuzzyMatcher backtracks into the opcodes of
 another state when a state has no HALT

---
 fuzzy/fuzzymatcher.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/fuzzy/fuzzymatcher.h b/fuzzy/fuzzymatcher.h
index bf26c25..0ea52a7 100644
--- a/fuzzy/fuzzymatcher.h
+++ b/fuzzy/fuzzymatcher.h
@@ -223,6 +223,14 @@ class FuzzyMatcher : public Matcher {
     bpt.alt = sub_ && alternate;
     bpt.sub = bpt.alt;
   }
+  /// Move to the next goto opcode of the state, if any, the last one matches down to 0x00 and may not be a HALT.
+  void next(BacktrackPoint& bpt)
+  {
+    if (Pattern::lo_of(*bpt.pc1) == 0)
+      bpt.pc1 = NULL;
+    else
+      ++bpt.pc1;
+  }
   /// backtrack on a backtrack point to insert or substitute a pattern char, restoring current text char matched and errors.
   const Pattern::Opcode *backtrack(BacktrackPoint& bpt, int& c1)
   {
@@ -286,13 +294,13 @@ class FuzzyMatcher : public Matcher {
       if (del_)
         bpt.sub = false; // next, insert this pattern char
       else
-        ++bpt.pc1; // next, substitute another pattern char
+        next(bpt); // next, substitute another pattern char
     }
     else
     {
       DBGLOG("Insert, jump to %u at pos %zu", jump, pos_);
       bpt.sub = bpt.alt;
-      ++bpt.pc1;
+      next(bpt);
     }
     return pat_->opc_ + jump;
   }
-- 
2.43.0


From 80af8377a6b00a8d6af64b6ababbe2f66c43f885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:58 +0000
Subject: [PATCH 72/81] fix: FuzzyMatcher loses text when the buffer is shifted
 in the second pass

---
 fuzzy/fuzzymatcher.h | 47 +++++++++++++++++---------------------------
 1 file changed, 18 insertions(+), 29 deletions(-)

diff --git a/fuzzy/fuzzymatcher.h b/fuzzy/fuzzymatcher.h
index 0ea52a7..27eaa55 100644
--- a/fuzzy/fuzzymatcher.h
+++ b/fuzzy/fuzzymatcher.h
@@ -171,9 +171,7 @@ class FuzzyMatcher : public Matcher {
     SaveState(size_t ded)
       :
         use(false),
-        loc(0),
         cap(0),
-        txt(0),
         len(0),
         cur(0),
         pos(0),
@@ -182,9 +180,7 @@ class FuzzyMatcher : public Matcher {
         err(0)
     { }
     bool    use;
-    size_t  loc;
     size_t  cap;
-    size_t  txt;
     size_t  len;
     size_t  cur;
     size_t  pos;
@@ -315,6 +311,7 @@ class FuzzyMatcher : public Matcher {
     anc_ = false; // no word boundary anchor found and applied
 scan:
     txt_ = buf_ + cur_;
+pass:
 #if !defined(WITH_NO_INDENT)
     mrk_ = false;
     ind_ = pos_; // ind scans input in buf[] in newline() up to pos - 1
@@ -538,7 +535,7 @@ redo:
                     DBGLOG("EWB? %d", at_eow());
                     anc_ = true;
                     if (jump == Pattern::Const::IMAX && isword(got_) &&
-                        !isword(static_cast<unsigned char>(method == Const::SPLIT ? txt_[len_] : *txt_)))
+                        !isword(static_cast<unsigned char>(txt_[len_])))
                     {
                       jump = Pattern::index_of(opcode);
                       if (jump == Pattern::Const::LONG)
@@ -550,7 +547,7 @@ redo:
                     DBGLOG("BWB? %d", at_bow());
                     anc_ = true;
                     if (jump == Pattern::Const::IMAX && !isword(got_) &&
-                        (opt_.W || isword(static_cast<unsigned char>(method == Const::SPLIT ? txt_[len_] : *txt_))))
+                        (opt_.W || isword(static_cast<unsigned char>(txt_[len_]))))
                     {
                       jump = Pattern::index_of(opcode);
                       if (jump == Pattern::Const::LONG)
@@ -816,21 +813,20 @@ unrolled:
           if (s < e)
           {
             loc = s - buf_;
+            // keep txt_ to not lose the text of the first pass when the buffer is shifted to get more input
             sst.use = true;
-            sst.loc = loc;
             sst.cap = cap_;
-            sst.txt = txt_ - buf_;
             sst.len = len_;
-            len_ = 0;
-            sst.cur = cur_;
-            sst.pos = pos_;
+            len_ = loc - (txt_ - buf_);
+            sst.cur = cur_ - (txt_ - buf_);
+            sst.pos = pos_ - (txt_ - buf_);
             size_t tmp = ded_;
             ded_ = sst.ded;
             sst.ded = tmp;
             sst.mrk = mrk_;
             sst.err = err_;
             set_current(loc);
-            goto scan;
+            goto pass;
           }
         }
       }
@@ -840,44 +836,37 @@ unrolled:
         if (s != NULL)
         {
           loc = s - buf_;
+          // keep txt_ to not lose the text of the first pass when the buffer is shifted to get more input
           sst.use = true;
-          sst.loc = loc;
           sst.cap = cap_;
-          sst.txt = txt_ - buf_;
           sst.len = len_;
-          len_ = 0;
-          sst.cur = cur_;
-          sst.pos = pos_;
+          len_ = loc - (txt_ - buf_);
+          sst.cur = cur_ - (txt_ - buf_);
+          sst.pos = pos_ - (txt_ - buf_);
           size_t tmp = ded_;
           ded_ = sst.ded;
           sst.ded = tmp;
           sst.mrk = mrk_;
           sst.err = err_;
           set_current(loc);
-          goto scan;
+          goto pass;
         }
       }
     }
     else if (sst.use && (cap_ == 0 || err_ >= sst.err))
     {
-      // if the buffer was shifted then cur_, pos_ and txt_ are no longer at the same location in the buffer, we must adjust for this
-      size_t loc = txt_ - buf_;
-      size_t shift = sst.loc - loc;
       cap_ = sst.cap;
-      cur_ = sst.cur - shift;
-      pos_ = sst.pos - shift;
+      cur_ = (txt_ - buf_) + sst.cur;
+      pos_ = (txt_ - buf_) + sst.pos;
       ded_ = sst.ded;
       mrk_ = sst.mrk;
       err_ = sst.err;
-      txt_ = buf_ + sst.txt - shift;
       len_ = sst.len;
     }
-    else if (sst.use && cap_ > 0 && method == Const::SPLIT)
+    else if (sst.use && cap_ > 0 && method == Const::FIND)
     {
-      size_t loc = txt_ - buf_;
-      size_t shift = sst.loc - loc;
-      len_ = loc - sst.txt + shift;
-      txt_ = buf_ + sst.txt - shift; // the split text starts before the first pass
+      txt_ += len_;
+      len_ = 0;
     }
 #if !defined(WITH_NO_INDENT)
     if (mrk_ && cap_ != Const::REDO)
-- 
2.43.0


From 9a1c29b979c2d6a75489c62c511fb1bfc1a04985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:15 +0000
Subject: [PATCH 73/81] fix: a range set does not contain ranges above all of
 its own

---
 include/reflex/ranges.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/ranges.h b/include/reflex/ranges.h
index 554ab82..f174072 100644
--- a/include/reflex/ranges.h
+++ b/include/reflex/ranges.h
@@ -513,7 +513,7 @@ class Ranges : public std::set< std::pair<T,T>,range_compare<T> > {
         ++j;
       }
     }
-    return true;
+    return j == rs.end(); // false if there are ranges in rs that are above the ranges in this set
   }
   /// Return the lowest value in the set of ranges (the set cannot be empty)
   bound_type lo() const
-- 
2.43.0


From a532ea15d4e01f9ea0ed4b05052dde92cfe3c6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:15 +0000
Subject: [PATCH 74/81] fix: a range set that is a proper prefix of another is
 less than it

---
 include/reflex/ranges.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/ranges.h b/include/reflex/ranges.h
index f174072..9cd8fde 100644
--- a/include/reflex/ranges.h
+++ b/include/reflex/ranges.h
@@ -446,7 +446,7 @@ class Ranges : public std::set< std::pair<T,T>,range_compare<T> > {
       ++i;
       ++j;
     }
-    return false;
+    return i == this->end() && j != rs.end();
   }
   /// True if this range set is lexicographically greater than range set rs.
   bool operator>(const Ranges& rs) ///< ranges
-- 
2.43.0


From 8711262236e7567b3704aa24b0df4d3a4a30b753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:15 +0000
Subject: [PATCH 75/81] fix: intersection of closed range sets keeps a shared
 end value

---
 include/reflex/ranges.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/ranges.h b/include/reflex/ranges.h
index 9cd8fde..076ddb5 100644
--- a/include/reflex/ranges.h
+++ b/include/reflex/ranges.h
@@ -332,7 +332,7 @@ class Ranges : public std::set< std::pair<T,T>,range_compare<T> > {
         }
         // put upper part of the range back if next range in rs overlaps with it
         if (++j != rs.end())
-          if (std::less<bound_type>()(j->first, hi))
+          if (!std::less<bound_type>()(hi, j->first))
             i = container_type::insert(i, value_type(j->first, hi)); // insert with hint i that follows the insertion point
       }
       else if (std::less<bound_type>()(i->second, j->second))
-- 
2.43.0


From 09fa74a3551144cd36cbd7a59b58afdbb027fba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:15 +0000
Subject: [PATCH 76/81] fix: subtracting an open range set from itself uses
 freed ranges

---
 include/reflex/ranges.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/reflex/ranges.h b/include/reflex/ranges.h
index 076ddb5..a844726 100644
--- a/include/reflex/ranges.h
+++ b/include/reflex/ranges.h
@@ -718,6 +718,11 @@ class ORanges : public Ranges<T> {
   ORanges& operator-=(const ORanges& rs)
     /// @returns reference to this object.
   {
+    if (this == &rs)
+    {
+      container_type::clear();
+      return *this;
+    }
     iterator i = this->begin();
     const_iterator j = rs.begin();
     while (i != this->end() && j != rs.end())
-- 
2.43.0


From f5e72f03e2e19189d2634f26555e95155ce4ea69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:15 +0000
Subject: [PATCH 77/81] fix: erasing bits up to a position past the end leaves
 bits set

---
 include/reflex/bits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/bits.h b/include/reflex/bits.h
index f3b231d..18f29cc 100644
--- a/include/reflex/bits.h
+++ b/include/reflex/bits.h
@@ -251,7 +251,7 @@ class Bits {
     if (n1 >> 6 < len_)
     {
       if (n2 >> 6 >= len_)
-        n2 = (len_ - 1) << 6;
+        n2 = (len_ << 6) - 1;
       for (size_t i = n1; i <= n2; ++i)
         vec_[i >> 6] &= ~(1ULL << (i & 0x3F));
     }
-- 
2.43.0


From baaec6b9fd0f4fabd6d8f8edc7b658c8b3dce8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:15 +0000
Subject: [PATCH 78/81] fix: bit set assignment leaks and breaks
 self-assignment

---
 include/reflex/bits.h | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/reflex/bits.h b/include/reflex/bits.h
index 18f29cc..8c3ae7c 100644
--- a/include/reflex/bits.h
+++ b/include/reflex/bits.h
@@ -155,6 +155,9 @@ class Bits {
   { }
   /// Copy constructor
   Bits(const Bits& bits) ///< bits to copy
+    :
+      len_(0),
+      vec_(NULL)
   {
     operator=(bits);
   }
@@ -186,11 +189,16 @@ class Bits {
   Bits& operator=(const Bits& bits) ///< bits to copy
     /// @returns reference to this object.
   {
-    len_ = bits.len_;
-    if (len_)
-      std::memcpy(vec_ = new uint64_t[len_], bits.vec_, len_ << 3);
-    else
-      vec_ = NULL;
+    if (this != &bits)
+    {
+      if (vec_)
+        delete[] vec_;
+      len_ = bits.len_;
+      if (len_)
+        std::memcpy(vec_ = new uint64_t[len_], bits.vec_, len_ << 3);
+      else
+        vec_ = NULL;
+    }
     return *this;
   }
   /// Reference n'th bit in the bit vector to assign a value to that bit.
-- 
2.43.0


From 031b908fcafb0b5aa8cb6e6a332fdab5fa24e324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:15 +0000
Subject: [PATCH 79/81] fix: bit set left shift puts the carry in the wrong
 word

---
 include/reflex/bits.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/reflex/bits.h b/include/reflex/bits.h
index 8c3ae7c..93bcecb 100644
--- a/include/reflex/bits.h
+++ b/include/reflex/bits.h
@@ -290,8 +290,9 @@ class Bits {
       }
       if (lo)
       {
-        alloc(len_ + 1);
-        vec_[len_ - 1] = 1;
+        size_t k = len_;
+        alloc(k + 1); // may allocate more than one word
+        vec_[k] = 1;
       }
     }
     return *this;
-- 
2.43.0


From 2c1f4ebd9d505f66e0c8d52eece6d69fe8817cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:15 +0000
Subject: [PATCH 80/81] fix: lazy union of sets yields elements out of order or
 past the end

---
 include/reflex/setop.h | 60 +++++++-----------------------------------
 1 file changed, 9 insertions(+), 51 deletions(-)

diff --git a/include/reflex/setop.h b/include/reflex/setop.h
index 446e725..c004313 100644
--- a/include/reflex/setop.h
+++ b/include/reflex/setop.h
@@ -335,60 +335,18 @@ struct lazy_union {
     }
     void find(void)
     {
-      if (i1 == i1_end)
-      {
-        second = true;
-      }
-      else
-      {
-        while (i2 != i2_end && !lt(*i1, *i2) && !lt(*i2, *i1))
-          ++i2;
-      }
+      // skip elements of the second set that are also in the first set, then select the lowest element
+      while (i1 != i1_end && i2 != i2_end && !lt(*i1, *i2) && !lt(*i2, *i1))
+        ++i2;
+      second = i1 == i1_end || (i2 != i2_end && lt(*i2, *i1));
     }
     void next(void)
     {
-      if (i1 == i1_end)
-      {
-        if (i2 != i2_end)
-          ++i2;
-        second = true;
-      }
-      else if (i2 == i2_end)
-      { 
-        if (i1 != i1_end)
-          ++i1;
-        second = false;
-      }
-      else
-      {
-        if (second)
-        {
-          ++i2;
-          second = false;
-        }
-        else
-        {
-          ++i1;
-          second = true;
-        }
-        while (i1 != i1_end && i2 != i2_end)
-        {
-          if (lt(*i1, *i2))
-          {
-            second = false;
-            break;
-          }
-          else if (lt(*i2, *i1))
-          {
-            second = true;
-            break;
-          }
-          else
-          {
-            ++i2;
-          }
-        }
-      }
+      if (!second)
+        ++i1;
+      else if (i2 != i2_end)
+        ++i2;
+      find();
     }
     typename S1::const_iterator i1, i1_end;
     typename S2::const_iterator i2, i2_end;
-- 
2.43.0


From 71e2dcd1c09cdc038526eec6cefbe4f8ccbaa565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:16 +0000
Subject: [PATCH 81/81] fix: deleting a set from itself uses freed elements

---
 include/reflex/setop.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/reflex/setop.h b/include/reflex/setop.h
index c004313..690e156 100644
--- a/include/reflex/setop.h
+++ b/include/reflex/setop.h
@@ -168,6 +168,11 @@ void set_delete(
 {
   if (s1.empty() || s2.empty())
     return;
+  if (static_cast<const void*>(&s1) == static_cast<const void*>(&s2))
+  {
+    s1.clear();
+    return;
+  }
   typename S1::const_iterator i1 = s1.begin();
   typename S2::const_iterator i2 = s2.begin();
   typename S1::key_compare lt = s1.key_comp();
-- 
2.43.0

