From 5b8186b638c28bb817a38fde13a9d6956aeaa85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:23 +0000
Subject: [PATCH 001/127] fix: find() treated a single string with a lookahead
 or a negative pattern as a plain string

---
 lib/pattern.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 3d59bc3..a0c441a 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -3056,7 +3056,7 @@ void Pattern::predict_match_dfa(DFA::State *start)
     }
     state = next;
   }
-  if (state != NULL && state->accept > 0 && !state->edges.empty())
+  if (state != NULL && state->accept > 0 && (!state->edges.empty() || state->redo || !state->tails.empty()))
     one_ = false;
   min_ = 0;
   std::memset(bit_, 0xFF, sizeof(bit_));
-- 
2.43.0


From 2c5c8fd70c551f0be73f08f4a9cba39a4419c6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 002/127] fix: find() gave up at the end of input after
 skipping ahead in a failed match attempt

---
 include/reflex/matcher.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index 0e65be7..14c2ae9 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -835,13 +835,13 @@ unrolled:
     {
       if (method == Const::FIND)
       {
+        if (anc_)
+        {
+          cur_ = txt_ - buf_; // reset current to pattern start when a word boundary was encountered
+          anc_ = false;
+        }
         if (!at_end())
         {
-          if (anc_)
-          {
-            cur_ = txt_ - buf_; // reset current to pattern start when a word boundary was encountered
-            anc_ = false;
-          }
           if (pos_ > cur_) // if we didn't fail on META alone
           {
             if (advance())
@@ -854,8 +854,8 @@ unrolled:
               return cap_ = 1;
             }
           }
-          txt_ = buf_ + cur_;
         }
+        txt_ = buf_ + cur_;
       }
       else
       {
-- 
2.43.0


From fa8c6815f36fc4a9112f59de998bd70f7a64da0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 003/127] fix: split() dropped text when the engine had read
 ahead to the end of input

---
 include/reflex/matcher.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index 14c2ae9..1f70942 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -801,7 +801,8 @@ unrolled:
       DBGLOG("Split: len = %zu cap = %zu cur = %zu pos = %zu end = %zu txt-buf = %zu eob = %d got = %d", len_, cap_, cur_, pos_, end_, txt_-buf_, (int)eof_, got_);
       if (cap_ == 0 || (cur_ == static_cast<size_t>(txt_ - buf_) && !at_bob()))
       {
-        if (!hit_end() && (txt_ + len_ < buf_ + end_ || peek() != EOF))
+        pos_ = cur_ = txt_ - buf_ + len_; // back to the end of the text split off so far
+        if (pos_ < end_ || peek() != EOF)
         {
           ++len_;
           DBGLOG("Split continue: len = %zu", len_);
@@ -818,6 +819,7 @@ unrolled:
         DBGLOG("END Matcher::match()");
         return cap_;
       }
+      pos_ = cur_;
       if (cur_ == 0 && at_bob() && at_end())
       {
         cap_ = Const::EMPTY;
-- 
2.43.0


From 6450540608d1ba626941c698db5fa6b6fb7117ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 004/127] mc hook: buffer block size can be set with
 REFLEX_MC_BLOCK

---
 include/reflex/absmatcher.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index ff9cce7..b5e4a6c 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -101,7 +101,11 @@ class AbstractMatcher {
     static const int UNK      = 256;        ///< unknown/undefined character meta-char marker
     static const int BOB      = 257;        ///< begin of buffer meta-char marker
     static const int EOB      = EOF;        ///< end of buffer meta-char marker
+#if defined(REFLEX_MC_BLOCK)
+    static const size_t BLOCK = REFLEX_MC_BLOCK; // model checking: small buffer, to shift and grow it with small inputs
+#else
     static const size_t BLOCK = (256*1024); ///< buffer size and growth, buffer is initially 2*BLOCK size, at least 4096 bytes
+#endif
     static const size_t REDO  = 0x7FFFFFFF; ///< reflex::Matcher::accept() returns "redo" with reflex::Matcher option "A"
     static const size_t EMPTY = 0xFFFFFFFF; ///< accept() returns "empty" last split at end of input
   };
-- 
2.43.0


From 689be074514d2a7de05a810c725a8c599f47ab1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:13 +0000
Subject: [PATCH 005/127] fix: text() lost or overwrote input read after the
 match, peek() returned the text terminator

---
 include/reflex/absmatcher.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index b5e4a6c..c8e9f60 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -559,7 +559,8 @@ class AbstractMatcher {
   {
     if (chr_ == '\0')
     {
-      chr_ = txt_[len_];
+      if (txt_ + len_ < buf_ + end_)
+        chr_ = static_cast<unsigned char>(txt_[len_]); // save to restore later, nothing to save when not buffered yet
       txt_[len_] = '\0';
     }
     return txt_;
@@ -1051,10 +1052,12 @@ class AbstractMatcher {
   {
     DBGLOG("AbstractMatcher::peek()");
 #if defined(WITH_FAST_GET)
-    return pos_ < end_ ? static_cast<unsigned char>(buf_[pos_]) : peek_more();
+    if (pos_ < end_)
+      return chr_ != '\0' && buf_ + pos_ == txt_ + len_ ? chr_ : static_cast<unsigned char>(buf_[pos_]);
+    return peek_more();
 #else
     if (pos_ < end_)
-      return static_cast<unsigned char>(buf_[pos_]);
+      return chr_ != '\0' && buf_ + pos_ == txt_ + len_ ? chr_ : static_cast<unsigned char>(buf_[pos_]);
     if (eof_)
       return EOF;
     while (true)
-- 
2.43.0


From 6a7b1b39a3b0f888445449ee15fc59449acc1a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 006/127] fix: winput() returned the wrong character and wrong
 position for multibyte characters

---
 include/reflex/absmatcher.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index c8e9f60..ad137a0 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -995,11 +995,11 @@ class AbstractMatcher {
     int c;
     if ((c = input()) == EOF)
       return EOF;
-    if (static_cast<unsigned char>(*s++ = c) >= 0x80)
+    if (static_cast<unsigned char>(*s = c) >= 0xC0)
     {
-      while (((++*s = get()) & 0xC0) == 0x80)
-        continue;
-      got_ = static_cast<unsigned char>(buf_[cur_ = --pos_]);
+      // get the UTF-8 continuation bytes
+      while (s < tmp + 5 && ((c = peek()) & 0xC0) == 0x80)
+        *++s = input();
     }
     return utf8(tmp);
   }
-- 
2.43.0


From 93011a702ae7743f388aa131d6c6d397537a63ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 007/127] fix: wunput() after text() lost the character that
 follows the match

---
 include/reflex/absmatcher.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index ad137a0..41456e6 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -1028,6 +1028,7 @@ class AbstractMatcher {
   void wunput(int c) ///< character to put back
   {
     DBGLOG("AbstractMatcher::wunput()");
+    reset_text();
     char tmp[8];
     size_t n = utf8(c, tmp);
     if (pos_ >= n)
-- 
2.43.0


From 7f33eee83f14d2a978ae2a292838e217764482b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 008/127] fix: skip() left a NULL text pointer at the end of
 input

---
 include/reflex/absmatcher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 41456e6..3ef3c4c 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -1193,7 +1193,7 @@ class AbstractMatcher {
         break;
       }
     }
-    set_current(end_);
+    set_current_match(end_);
     return false;
   }
   /// Skip input until the specified Unicode character is consumed and return true, or EOF is reached and return false.
-- 
2.43.0


From 8df19aa172eabb9451d1bf8ec865339836d6cce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 009/127] fix: no match after input() returned EOF and a
 character was put back

---
 include/reflex/absmatcher.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 3ef3c4c..3d4a812 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -978,10 +978,14 @@ class AbstractMatcher {
     else
     {
 #if defined(WITH_FAST_GET)
-      got_ = get_more();
+      int c = get_more();
 #else
-      got_ = get();
+      int c = get();
 #endif
+      cur_ = pos_;
+      if (c != EOF)
+        got_ = c;
+      return c;
     }
     cur_ = pos_;
     return got_;
-- 
2.43.0


From 1f626b5ac783f18818075e41b84bd498424d9216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:59 +0000
Subject: [PATCH 010/127] fix: flush() had no effect on the next match

---
 include/reflex/absmatcher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 3d4a812..82ce97d 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -453,7 +453,7 @@ class AbstractMatcher {
   void flush()
   {
     DBGLOG("AbstractMatcher::flush()");
-    pos_ = end_;
+    pos_ = cur_ = end_;
   }
   /// Returns more input data directly from the source (method can be overriden, as by reflex::FlexLexer::get(s, n) for example that invokes reflex::FlexLexer::LexerInput(s, n)).
   virtual size_t get(
-- 
2.43.0


From 021efde60a6672a7c98c746385c4300bb76b6f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 011/127] fix: skip() of a string that is cut off by the end of
 input left the input unread

---
 include/reflex/absmatcher.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 82ce97d..efae678 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -1229,7 +1229,10 @@ class AbstractMatcher {
         }
         int c = get();
         if (c == EOF)
+        {
+          set_current_match(end_);
           return false;
+        }
         if (c != static_cast<unsigned char>(*t))
           break;
         ++t;
-- 
2.43.0


From e9c97c8c41689552f674dab4e6577a15cb0e3d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 012/127] fix: anchors of the next match after less() looked at
 the last character cut off

---
 include/reflex/absmatcher.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index efae678..cecb0f4 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -1278,6 +1278,8 @@ class AbstractMatcher {
       DBGCHK(pos_ < max_);
       len_ = n;
       cur_ = pos_;
+      // the next match is preceded by the last character kept, or begins the input or a line
+      got_ = pos_ > 0 ? static_cast<unsigned char>(buf_[pos_ - 1]) : num_ == 0 ? static_cast<int>(Const::BOB) : '\n';
     }
   }
   /// Cast this matcher to positive integer indicating the nonzero capture index of the matched text in the pattern, same as AbstractMatcher::accept.
-- 
2.43.0


From 8f4125c9b0d8544b2b7250744f01e648d8db3662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:56 +0000
Subject: [PATCH 013/127] fix: columns() of a multi-line match counted tabs
 from the wrong column

---
 include/reflex/absmatcher.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index cecb0f4..85ff3ac 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -815,17 +815,27 @@ class AbstractMatcher {
 #if defined(WITH_SPAN)
     const char *s = txt_;
     const char *e = txt_ + len_;
+    size_t m = 0;
     size_t n = columno();
     size_t k = n;
     while (s < e)
     {
       if (*s == '\t')
+      {
         k += 1 + (~k & (opt_.T - 1)); // count tab spacing
-      else if (*s != '\r' && *s != '\n')
+      }
+      else if (*s == '\n')
+      {
+        m += k - n; // add columns of this line, continue counting on the next line
+        k = n = 0;
+      }
+      else if (*s != '\r')
+      {
         k += ((*s & 0xC0) != 0x80); // count column offset in UTF-8 chars
+      }
       ++s;
     }
-    return k - n;
+    return m + k - n;
 #else
     size_t n = cno_;
     size_t m = 0;
-- 
2.43.0


From 0bf6a61a4310beb7a3f47e2f9404eab747639026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:31 +0000
Subject: [PATCH 014/127] fix: \B took a letter or digit next to an underscore
 for a word boundary

---
 include/reflex/absmatcher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 85ff3ac..f9db5d9 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -60,7 +60,7 @@ namespace reflex {
 inline int isword(int c) ///< Character to check
   /// @returns nonzero if argument c is in `[A-Za-z0-9_]`, zero otherwise
 {
-  return std::isalnum(static_cast<unsigned char>(c)) | (c == '_');
+  return (std::isalnum(static_cast<unsigned char>(c)) != 0) | (c == '_');
 }
 
 /// The abstract matcher base class template defines an interface for all pattern matcher engines.
-- 
2.43.0


From 68c5987fea7025340a9d4f63433a7d5c729e69cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:31 +0000
Subject: [PATCH 015/127] fix: word boundary anchors looked at buffer contents
 beyond the end of input

---
 include/reflex/matcher.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index 1f70942..d32dc4d 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -364,13 +364,13 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
   inline bool FSM_META_EWB()
   {
     anc_ = true;
-    return isword(got_) && !isword(static_cast<unsigned char>(txt_[len_]));
+    return isword(got_) && !begins_word();
   }
   /// FSM code META BWB.
   inline bool FSM_META_BWB()
   {
     anc_ = true;
-    return !isword(got_) && (opt_.W || isword(static_cast<unsigned char>(txt_[len_])));
+    return !isword(got_) && (opt_.W || begins_word());
   }
   /// FSM code META NWE.
   inline bool FSM_META_NWE(int c0, int c1)
@@ -382,10 +382,16 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
   inline bool FSM_META_NWB()
   {
     anc_ = true;
-    return isword(got_) == isword(static_cast<unsigned char>(txt_[len_]));
+    return isword(got_) == begins_word();
   }
  protected:
   typedef std::vector<size_t> Stops; ///< indent margin/tab stops
+  /// Check if the text to match begins with a word character.
+  inline int begins_word() const
+    /// @returns nonzero if the text to match begins with a word character, zero if not or at end of input
+  {
+    return txt_ + len_ < buf_ + end_ ? isword(static_cast<unsigned char>(txt_[len_])) : 0;
+  }
   /// FSM data for FSM code
   struct FSM {
     FSM() : bol(), nul(), c1() { }
@@ -628,7 +634,7 @@ redo:
                   DBGLOG("EWB? %d", at_eow());
                   anc_ = true;
                   if (jump == Pattern::Const::IMAX && isword(got_) &&
-                      !isword(static_cast<unsigned char>(txt_[len_])))
+                      !begins_word())
                   {
                     jump = Pattern::index_of(opcode);
                     if (jump == Pattern::Const::LONG)
@@ -640,7 +646,7 @@ redo:
                   DBGLOG("BWB? %d", at_bow());
                   anc_ = true;
                   if (jump == Pattern::Const::IMAX && !isword(got_) &&
-                      (opt_.W || isword(static_cast<unsigned char>(txt_[len_]))))
+                      (opt_.W || begins_word()))
                   {
                     jump = Pattern::index_of(opcode);
                     if (jump == Pattern::Const::LONG)
@@ -663,7 +669,7 @@ redo:
                   DBGLOG("NWB? %d %d", at_bow(), at_eow());
                   anc_ = true;
                   if (jump == Pattern::Const::IMAX &&
-                      isword(got_) == isword(static_cast<unsigned char>(txt_[len_])))
+                      isword(got_) == begins_word())
                   {
                     jump = Pattern::index_of(opcode);
                     if (jump == Pattern::Const::LONG)
-- 
2.43.0


From be8c5b80f34264efe284cf855967b4d7e35ee8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:33 +0000
Subject: [PATCH 016/127] fix: Ranges::contains() was true for ranges beyond
 the last range of the set

---
 include/reflex/ranges.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/ranges.h b/include/reflex/ranges.h
index 554ab82..7cc6fcd 100644
--- a/include/reflex/ranges.h
+++ b/include/reflex/ranges.h
@@ -513,7 +513,7 @@ class Ranges : public std::set< std::pair<T,T>,range_compare<T> > {
         ++j;
       }
     }
-    return true;
+    return j == rs.end();
   }
   /// Return the lowest value in the set of ranges (the set cannot be empty)
   bound_type lo() const
-- 
2.43.0


From 0856e6a87232534d80fb7cc73451e0198e2980ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:33 +0000
Subject: [PATCH 017/127] fix: Ranges::operator<() was false for a set that is
 a prefix of the other set

---
 include/reflex/ranges.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/ranges.h b/include/reflex/ranges.h
index 7cc6fcd..e1d0422 100644
--- a/include/reflex/ranges.h
+++ b/include/reflex/ranges.h
@@ -446,7 +446,7 @@ class Ranges : public std::set< std::pair<T,T>,range_compare<T> > {
       ++i;
       ++j;
     }
-    return false;
+    return i == this->end() && j != rs.end();
   }
   /// True if this range set is lexicographically greater than range set rs.
   bool operator>(const Ranges& rs) ///< ranges
-- 
2.43.0


From 522b0c2a840dd9d1a7047cb9c81244e117eebc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:53 +0000
Subject: [PATCH 018/127] fix: Ranges::operator&=() dropped a value at the
 upper bound of a range

---
 include/reflex/ranges.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/ranges.h b/include/reflex/ranges.h
index e1d0422..53cc12f 100644
--- a/include/reflex/ranges.h
+++ b/include/reflex/ranges.h
@@ -332,7 +332,7 @@ class Ranges : public std::set< std::pair<T,T>,range_compare<T> > {
         }
         // put upper part of the range back if next range in rs overlaps with it
         if (++j != rs.end())
-          if (std::less<bound_type>()(j->first, hi))
+          if (!std::less<bound_type>()(hi, j->first))
             i = container_type::insert(i, value_type(j->first, hi)); // insert with hint i that follows the insertion point
       }
       else if (std::less<bound_type>()(i->second, j->second))
-- 
2.43.0


From 4f3c97e441ea549c435caec45078d1130f7cacc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:28 +0000
Subject: [PATCH 019/127] fix: Bits::operator=() leaked memory and destroyed
 the bits assigned to themselves

---
 include/reflex/bits.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/reflex/bits.h b/include/reflex/bits.h
index f3b231d..e74388d 100644
--- a/include/reflex/bits.h
+++ b/include/reflex/bits.h
@@ -155,6 +155,9 @@ class Bits {
   { }
   /// Copy constructor
   Bits(const Bits& bits) ///< bits to copy
+    :
+      len_(0),
+      vec_(NULL)
   {
     operator=(bits);
   }
@@ -186,11 +189,15 @@ class Bits {
   Bits& operator=(const Bits& bits) ///< bits to copy
     /// @returns reference to this object.
   {
-    len_ = bits.len_;
-    if (len_)
-      std::memcpy(vec_ = new uint64_t[len_], bits.vec_, len_ << 3);
-    else
-      vec_ = NULL;
+    if (this != &bits)
+    {
+      if (vec_)
+        delete[] vec_;
+      len_ = bits.len_;
+      vec_ = len_ ? new uint64_t[len_] : NULL;
+      if (len_)
+        std::memcpy(vec_, bits.vec_, len_ << 3);
+    }
     return *this;
   }
   /// Reference n'th bit in the bit vector to assign a value to that bit.
-- 
2.43.0


From 382fcfa004940dff13645965c6c5820d9073f782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:28 +0000
Subject: [PATCH 020/127] fix: Bits::erase() of a range beyond the last word
 left bits of the last word set

---
 include/reflex/bits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/bits.h b/include/reflex/bits.h
index e74388d..bc60395 100644
--- a/include/reflex/bits.h
+++ b/include/reflex/bits.h
@@ -258,7 +258,7 @@ class Bits {
     if (n1 >> 6 < len_)
     {
       if (n2 >> 6 >= len_)
-        n2 = (len_ - 1) << 6;
+        n2 = (len_ << 6) - 1;
       for (size_t i = n1; i <= n2; ++i)
         vec_[i >> 6] &= ~(1ULL << (i & 0x3F));
     }
-- 
2.43.0


From 598f8a539d2ceaf66f93cbbeb91b95ffa59fcb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:28 +0000
Subject: [PATCH 021/127] fix: assigning a bit of a Bits object to another bit
 had no effect

---
 include/reflex/bits.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/reflex/bits.h b/include/reflex/bits.h
index bc60395..0870d18 100644
--- a/include/reflex/bits.h
+++ b/include/reflex/bits.h
@@ -119,6 +119,13 @@ class Bits {
         *p &= ~m;
       return *this;
     }
+    /// Assign the bit value of another bit.
+    const Bitref& operator=(const Bitref& b) ///< bit to assign
+      /// @returns result value true or false.
+      const
+    {
+      return operator=(static_cast<bool>(b));
+    }
     /// Bit-or bit value.
     bool operator|=(bool b) ///< bit-or with this bit
       /// @returns result value true or false.
-- 
2.43.0


From 03a9d82e8dc533b94910c27419d5b9540f8c988f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:42 +0000
Subject: [PATCH 022/127] fix: Bits::lshift() moved the highest bit to the
 wrong word when the bit vector grows

---
 include/reflex/bits.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/reflex/bits.h b/include/reflex/bits.h
index 0870d18..527cf99 100644
--- a/include/reflex/bits.h
+++ b/include/reflex/bits.h
@@ -296,8 +296,9 @@ class Bits {
       }
       if (lo)
       {
-        alloc(len_ + 1);
-        vec_[len_ - 1] = 1;
+        size_t k = len_;
+        alloc(k + 1);
+        vec_[k] = 1;
       }
     }
     return *this;
-- 
2.43.0


From 67fbb26647c97984a2fed16f143119fbefeb4294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:35 +0000
Subject: [PATCH 023/127] fix: utf8() ranges of four byte characters missed
 characters when a middle byte of a bound was 0x80 or 0xbf

---
 lib/utf8.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/utf8.cpp b/lib/utf8.cpp
index a5316f3..32e43a8 100644
--- a/lib/utf8.cpp
+++ b/lib/utf8.cpp
@@ -195,7 +195,10 @@ std::string utf8(int a, int b, int esc, const char *par, bool strict)
         ++i;
         while (i + 1 < n)
         {
-          if (as[i + 1] == 0x80) // pattern compression
+          size_t k = i + 1;
+          while (k < n && as[k] == 0x80)
+            ++k;
+          if (k == n) // pattern compression
           {
             regex.append(regex_range(buf, as[i], 0xbf, esc));
             for (++i; i < n && as[i] == 0x80; ++i)
@@ -236,7 +239,10 @@ std::string utf8(int a, int b, int esc, const char *par, bool strict)
         ++i;
         while (i + 1 < n)
         {
-          if (bs[i + 1] == 0xbf) // pattern compression
+          size_t k = i + 1;
+          while (k < n && bs[k] == 0xbf)
+            ++k;
+          if (k == n) // pattern compression
           {
             regex.append(regex_range(buf, 0x80, bs[i], esc));
             for (++i; i < n && bs[i] == 0xbf; ++i)
-- 
2.43.0


From 7835ed96eb11d182565b3416275dfc978e191aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:50 +0000
Subject: [PATCH 024/127] fix: wide text of a match that ends inside a UTF-8
 sequence was decoded from the bytes after the match

---
 include/reflex/absmatcher.h |  2 +-
 include/reflex/utf8.h       | 22 ++++++++++++++++++++--
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index f9db5d9..6e35ed6 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -603,7 +603,7 @@ class AbstractMatcher {
   inline int wchr() const
     /// @returns wide char (UTF-8 converted to Unicode)
   {
-    return utf8(txt_);
+    return utf8(txt_, txt_ + len_, NULL);
   }
   /// Set or change the starting line number of the last match.
   inline void lineno(size_t n) ///< new line number
diff --git a/include/reflex/utf8.h b/include/reflex/utf8.h
index b36896d..8c7c5f6 100644
--- a/include/reflex/utf8.h
+++ b/include/reflex/utf8.h
@@ -217,6 +217,24 @@ inline int utf8(
   return c;
 }
 
+/// Convert UTF-8 to UCS without reading beyond the end of the buffer, a UTF-8 sequence that is cut off by the end is invalid UTF-8.
+inline int utf8(
+    const char *s,  ///< points to the buffer with UTF-8 (1 to 6 bytes)
+    const char *e,  ///< points to the end of the buffer, s < e
+    const char **r) ///< points to pointer to set to the new position in s after the UTF-8 sequence, or NULL
+  /// @returns UCS character
+{
+  if (e - s >= 6)
+    return utf8(s, r);
+  char tmp[6] = { 0 };
+  std::memcpy(tmp, s, e - s);
+  const char *t;
+  int c = utf8(tmp, &t);
+  if (r != NULL)
+    *r = t - tmp < e - s ? s + (t - tmp) : e;
+  return c;
+}
+
 /// Convert UTF-8 string to wide string.
 inline std::wstring wcs(
     const char *s, ///< string with UTF-8 to convert
@@ -230,7 +248,7 @@ inline std::wstring wcs(
     // sizeof(wchar_t) == 2 bytes: store wide string in std::wstring encoded in UTF-16
     while (s < e)
     {
-      int wc = utf8(s, &s);
+      int wc = utf8(s, e, &s);
       if (wc > 0xFFFF)
       {
         if (wc <= 0x10FFFF)
@@ -252,7 +270,7 @@ inline std::wstring wcs(
   else
   {
     while (s < e)
-      ws.push_back(utf8(s, &s));
+      ws.push_back(utf8(s, e, &s));
   }
   return ws;
 }
-- 
2.43.0


From b6d906cda9d5582d7e7d56c190f9434042b5f1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:42 +0000
Subject: [PATCH 025/127] fix: a multibyte character cut off at the end of a
 read was followed by garbage bytes

---
 lib/input.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/input.cpp b/lib/input.cpp
index b13a67a..4bfba87 100644
--- a/lib/input.cpp
+++ b/lib/input.cpp
@@ -796,7 +796,7 @@ size_t Input::file_get(char *s, size_t n)
           {
             std::memcpy(t, utf8_, n);
             uidx_ = static_cast<unsigned short>(n);
-            ulen_ = static_cast<unsigned short>(l);
+            ulen_ = static_cast<unsigned short>(l - n);
             t += n;
             n = 0;
           }
@@ -835,7 +835,7 @@ size_t Input::file_get(char *s, size_t n)
           {
             std::memcpy(t, utf8_, n);
             uidx_ = static_cast<unsigned short>(n);
-            ulen_ = static_cast<unsigned short>(l);
+            ulen_ = static_cast<unsigned short>(l - n);
             t += n;
             n = 0;
           }
@@ -866,7 +866,7 @@ size_t Input::file_get(char *s, size_t n)
           {
             std::memcpy(t, utf8_, n);
             uidx_ = static_cast<unsigned short>(n);
-            ulen_ = static_cast<unsigned short>(l);
+            ulen_ = static_cast<unsigned short>(l - n);
             t += n;
             n = 0;
           }
@@ -897,7 +897,7 @@ size_t Input::file_get(char *s, size_t n)
           {
             std::memcpy(t, utf8_, n);
             uidx_ = static_cast<unsigned short>(n);
-            ulen_ = static_cast<unsigned short>(l);
+            ulen_ = static_cast<unsigned short>(l - n);
             t += n;
             n = 0;
           }
@@ -934,7 +934,7 @@ size_t Input::file_get(char *s, size_t n)
           else
           {
             uidx_ = 1;
-            ulen_ = 2;
+            ulen_ = 1;
           }
         }
       }
@@ -988,7 +988,7 @@ size_t Input::file_get(char *s, size_t n)
           {
             std::memcpy(t, utf8_, n);
             uidx_ = static_cast<unsigned short>(n);
-            ulen_ = static_cast<unsigned short>(l);
+            ulen_ = static_cast<unsigned short>(l - n);
             t += n;
             n = 0;
           }
-- 
2.43.0


From 05f439636776ae8a1133804919110389b65f9ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:42 +0000
Subject: [PATCH 026/127] fix: first character of UTF-16LE input, input that is
 only a UTF-16LE BOM and a third byte after two zero bytes were misread

---
 lib/input.cpp | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/lib/input.cpp b/lib/input.cpp
index 4bfba87..7d2aa3d 100644
--- a/lib/input.cpp
+++ b/lib/input.cpp
@@ -684,9 +684,9 @@ void Input::file_init(file_encoding_type enc)
           ulen_ = 2;
           if (utf8_[0] == '\0' && utf8_[1] == '\0')  // UTF-32 big endian BOM 0000XXXX?
           {
-            if (::fread(&utf8_[2], 2, 1, file_) == 1)
+            ulen_ += static_cast<unsigned short>(::fread(&utf8_[2], 1, 2, file_));
+            if (ulen_ == 4)
             {
-              ulen_ = 4;
               if (utf8_[2] == '\xfe' && utf8_[3] == '\xff') // UTF-32 big endian BOM 0000FEFF?
               {
                 size_ = 0;
@@ -703,20 +703,29 @@ void Input::file_init(file_encoding_type enc)
           }
           else if (utf8_[0] == '\xff' && utf8_[1] == '\xfe') // UTF-16 or UTF-32 little endian BOM FFFEXXXX?
           {
-            if (::fread(&utf8_[2], 2, 1, file_) == 1)
+            unsigned char buf[4];
+            size_ = 0;
+            ulen_ = 0;
+            utfx_ = file_encoding::utf16le;
+            if (::fread(buf, 2, 1, file_) == 1)
             {
-              if (utf8_[2] == '\0' && utf8_[3] == '\0') // UTF-32 little endian BOM FFFE0000?
+              if (buf[0] == '\0' && buf[1] == '\0') // UTF-32 little endian BOM FFFE0000?
               {
-                size_ = 0;
-                ulen_ = 0;
                 utfx_ = file_encoding::utf32le;
               }
               else
               {
-                size_ = 0;
-                uidx_ = 2;
-                ulen_ = 1;
-                utfx_ = file_encoding::utf16le;
+                // translate the first UTF-16 character after the BOM to UTF-8
+                int c = buf[0] | buf[1] << 8;
+                if (c >= 0xD800 && c < 0xE000)
+                {
+                  // UTF-16 surrogate pair
+                  if (c < 0xDC00 && ::fread(buf + 2, 2, 1, file_) == 1 && (buf[3] & 0xFC) == 0xDC)
+                    c = 0x010000 - 0xDC00 + ((c - 0xD800) << 10) + (buf[2] | buf[3] << 8);
+                  else
+                    c = REFLEX_NONCHAR;
+                }
+                ulen_ = static_cast<unsigned short>(utf8(c, utf8_));
               }
             }
           }
-- 
2.43.0


From f50291c072d793e6fb5bbfb41dbaf1b3224a4c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:42 +0000
Subject: [PATCH 027/127] fix: UTF-32 values above 0x7FFFFFFF were passed on as
 a single byte

---
 lib/input.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/input.cpp b/lib/input.cpp
index 7d2aa3d..8853b77 100644
--- a/lib/input.cpp
+++ b/lib/input.cpp
@@ -863,6 +863,8 @@ size_t Input::file_get(char *s, size_t n)
       while (n > 0 && ::fread(buf, 4, 1, file_) == 1)
       {
         int c = buf[0] << 24 | buf[1] << 16 | buf[2] << 8 | buf[3];
+        if (c < 0)
+          c = REFLEX_NONCHAR;
         if (c < 0x80)
         {
           *t++ = static_cast<char>(c);
@@ -894,6 +896,8 @@ size_t Input::file_get(char *s, size_t n)
       while (n > 0 && ::fread(buf, 4, 1, file_) == 1)
       {
         int c = buf[0] | buf[1] << 8 | buf[2] << 16 | buf[3] << 24;
+        if (c < 0)
+          c = REFLEX_NONCHAR;
         if (c < 0x80)
         {
           *t++ = static_cast<char>(c);
@@ -1144,6 +1148,8 @@ void Input::file_size()
         while (::fread(buf, 4, 1, file_) == 1)
         {
           int c = buf[0] << 24 | buf[1] << 16 | buf[2] << 8 | buf[3];
+          if (c < 0)
+            c = REFLEX_NONCHAR;
 #ifndef WITH_UTF8_UNRESTRICTED
           if (c > 0x10FFFF)
             c = REFLEX_NONCHAR;
@@ -1155,6 +1161,8 @@ void Input::file_size()
         while (::fread(buf, 4, 1, file_) == 1)
         {
           int c = buf[0] | buf[1] << 8 | buf[2] << 16 | buf[3] << 24;
+          if (c < 0)
+            c = REFLEX_NONCHAR;
 #ifndef WITH_UTF8_UNRESTRICTED
           if (c > 0x10FFFF)
             c = REFLEX_NONCHAR;
-- 
2.43.0


From a53e157d3716dcae71b3410fb53e04f733ba4aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:42 +0000
Subject: [PATCH 028/127] fix: size() was wrong for UTF-16LE with surrogate
 pairs, after reading part or all of a file and from a position in a file

---
 lib/input.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lib/input.cpp b/lib/input.cpp
index 8853b77..15afc3b 100644
--- a/lib/input.cpp
+++ b/lib/input.cpp
@@ -666,7 +666,12 @@ void Input::file_init(file_encoding_type enc)
   struct stat st;
   if (::fstat(::fileno(file_), &st) == 0 && S_ISREG(st.st_mode) && st.st_size <= 4294967295LL)
 #endif
-    size_ = static_cast<size_t>(st.st_size);
+  {
+    // the size of the file from the current position in the file
+    off_t k = ftello(file_);
+    if (k >= 0 && k <= static_cast<off_t>(st.st_size))
+      size_ = static_cast<size_t>(st.st_size - k);
+  }
 #endif
   // assume plain (ASCII, binary or UTF-8 without BOM) content by default
   utfx_ = file_encoding::plain;
@@ -1130,8 +1135,8 @@ void Input::file_size()
           if (c >= 0xD800 && c < 0xE000)
           {
             // UTF-16 surrogate pair
-            if (c < 0xDC00 && ::fread(buf + 2, 2, 1, file_) == 1 && (buf[2] & 0xFC) == 0xDC)
-              c = 0x010000 - 0xDC00 + ((c - 0xD800) << 10) + (buf[2] << 8 | buf[3]);
+            if (c < 0xDC00 && ::fread(buf + 2, 2, 1, file_) == 1 && (buf[3] & 0xFC) == 0xDC)
+              c = 0x010000 - 0xDC00 + ((c - 0xD800) << 10) + (buf[2] | buf[3] << 8);
             else
               c = REFLEX_NONCHAR;
           }
@@ -1171,11 +1176,13 @@ void Input::file_size()
         }
         break;
       default:
-        fseeko(file_, k, SEEK_END);
+        fseeko(file_, 0, SEEK_END);
         off_t n = ftello(file_);
         if (n >= k)
           size_ = static_cast<size_t>(n - k);
     }
+    // add the bytes that are already converted and buffered in utf8_[]
+    size_ += ulen_;
     ::clearerr(file_);
     fseeko(file_, k, SEEK_SET);
   }
-- 
2.43.0


From e5f17c1093f5afeaa217f1e9ddbdc06fd6e957fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:19 +0000
Subject: [PATCH 029/127] fix: size() of wide strings with code points above
 U+10FFFF or partly read, invalid surrogate pairs with 32 bit wide characters

---
 include/reflex/input.h | 10 +++++-----
 lib/input.cpp          |  6 ++++--
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/reflex/input.h b/include/reflex/input.h
index d9df043..e458fb5 100644
--- a/include/reflex/input.h
+++ b/include/reflex/input.h
@@ -674,8 +674,8 @@ class Input {
         s += l;
         ulen_ = 0;
       }
-      wchar_t c;
-      while ((c = *wstring_) != L'\0' && k > 0)
+      unsigned int c;
+      while (k > 0 && (c = *wstring_) != L'\0')
       {
         if (c < 0x80)
         {
@@ -688,14 +688,14 @@ class Input {
           if (c >= 0xD800 && c < 0xE000)
           {
             // UTF-16 surrogate pair
-            if (c < 0xDC00 && (wstring_[1] & 0xFC00) == 0xDC00)
-              l = utf8(0x010000 - 0xDC00 + ((c - 0xD800) << 10) + *++wstring_, utf8_);
+            if (c < 0xDC00 && wstring_[1] >= 0xDC00 && wstring_[1] < 0xE000)
+              l = utf8(static_cast<int>(0x010000 - 0xDC00 + ((c - 0xD800) << 10) + *++wstring_), utf8_);
             else
               l = utf8(REFLEX_NONCHAR, utf8_);
           }
           else
           {
-            l = utf8(c, utf8_);
+            l = utf8(c > 0x7FFFFFFF ? REFLEX_NONCHAR : static_cast<int>(c), utf8_);
           }
           if (k < l)
           {
diff --git a/lib/input.cpp b/lib/input.cpp
index 15afc3b..ea0938b 100644
--- a/lib/input.cpp
+++ b/lib/input.cpp
@@ -1036,7 +1036,7 @@ void Input::wstring_size()
   {
     if (c >= 0xD800 && c < 0xE000)
     {
-      if (c < 0xDC00 && (s[1] & 0xFC00) == 0xDC00)
+      if (c < 0xDC00 && s[1] >= 0xDC00 && s[1] < 0xE000)
       {
         ++s;
         size_ += 4;
@@ -1049,12 +1049,14 @@ void Input::wstring_size()
     else
     {
 #ifndef WITH_UTF8_UNRESTRICTED
-      size_ += 1 + (c >= 0x80) + (c >= 0x0800) + (c >= 0x010000);
+      size_ += c > 0x10FFFF ? sizeof(REFLEX_NONCHAR_UTF8) - 1 : 1 + (c >= 0x80) + (c >= 0x0800) + (c >= 0x010000);
 #else
       size_ += 1 + (c >= 0x80) + (c >= 0x0800) + (c >= 0x010000) + (c >= 0x200000) + (c >= 0x04000000);
 #endif
     }
   }
+  // add the bytes that are already converted and buffered in utf8_[]
+  size_ += ulen_;
 }
 
 void Input::file_size()
-- 
2.43.0


From 0ae169cfae4b79e1327d7c80c830a139be3deab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:20 +0000
Subject: [PATCH 030/127] fix: good() and eof() ignored the bytes of a
 character that is partly read

---
 include/reflex/input.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/reflex/input.h b/include/reflex/input.h
index e458fb5..8839737 100644
--- a/include/reflex/input.h
+++ b/include/reflex/input.h
@@ -608,9 +608,9 @@ class Input {
     if (cstring_)
       return size_ > 0;
     if (wstring_)
-      return *wstring_ != L'\0';
+      return ulen_ > 0 || *wstring_ != L'\0';
     if (file_)
-      return !::feof(file_) && !::ferror(file_);
+      return ulen_ > 0 || (!::feof(file_) && !::ferror(file_));
     if (istream_)
       return istream_->good();
     return false;
@@ -622,9 +622,9 @@ class Input {
     if (cstring_)
       return size_ == 0;
     if (wstring_)
-      return *wstring_ == L'\0';
+      return ulen_ == 0 && *wstring_ == L'\0';
     if (file_)
-      return ::feof(file_) != 0;
+      return ulen_ == 0 && ::feof(file_) != 0;
     if (istream_)
       return istream_->eof();
     return true;
-- 
2.43.0


From f58f58a8b703a11ae10e0697934139432513ad29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:30 +0000
Subject: [PATCH 031/127] fix: forced UTF-16 and UTF-32 file encodings misread
 the first bytes of input without BOM, code pages were not set for empty files

---
 include/reflex/input.h |   2 +-
 lib/input.cpp          | 153 +++++++++++++----------------------------
 2 files changed, 48 insertions(+), 107 deletions(-)

diff --git a/include/reflex/input.h b/include/reflex/input.h
index 8839737..b99d984 100644
--- a/include/reflex/input.h
+++ b/include/reflex/input.h
@@ -783,7 +783,7 @@ class Input {
   FILE                 *file_;    ///< FILE* input (when non-null)
   std::istream         *istream_; ///< stream input (when non-null)
   size_t                size_;    ///< size of the remaining input in bytes (size_ == 0 may indicate size is not set)
-  char                  utf8_[8]; ///< UTF-8 normalization buffer, >=8 bytes
+  char                  utf8_[16];///< UTF-8 normalization buffer, >=12 bytes
   unsigned short        uidx_;    ///< index in utf8_[]
   unsigned short        ulen_;    ///< length of data (remaining after uidx_) in utf8_[] or 0 if no data
   file_encoding_type    utfx_;    ///< file_encoding
diff --git a/lib/input.cpp b/lib/input.cpp
index ea0938b..d8c503c 100644
--- a/lib/input.cpp
+++ b/lib/input.cpp
@@ -1206,29 +1206,33 @@ void Input::istream_size()
 
 void Input::file_encoding(unsigned short enc, const unsigned short *page)
 {
+  if (enc == file_encoding::custom && page == NULL)
+    enc = file_encoding::plain;
   if (file_ && utfx_ != enc)
   {
+    if (enc == file_encoding::custom)
+      page_ = page;
+    else if (enc > file_encoding::latin && enc < file_encoding::custom)
+      page_ = codepages[enc - file_encoding::latin - 1];
     if (utfx_ == file_encoding::plain && ulen_ > 0)
     {
       // translate (non-BOM) plain bytes (1 to 4 bytes) buffered in utf8_[]
       unsigned char buf[sizeof(utf8_)];
-      std::memcpy(buf, utf8_, sizeof(utf8_));
+      std::memcpy(buf, utf8_ + uidx_, ulen_);
       unsigned char *b = buf;
       char *t = utf8_;
-      int c1, c2;
+      int c;
       switch (enc)
       {
         case file_encoding::latin:
           while (ulen_-- > 0)
           {
-            c1 = *b++;
-            if (c1 < 0x80)
-              *t++ = static_cast<char>(c1);
+            c = *b++;
+            if (c < 0x80)
+              *t++ = static_cast<char>(c);
             else
-              t += utf8(c1, t);
+              t += utf8(c, t);
           }
-          uidx_ = 0;
-          ulen_ = static_cast<unsigned short>(t - utf8_);
           break;
         case file_encoding::cp437:
         case file_encoding::cp850:
@@ -1261,129 +1265,66 @@ void Input::file_encoding(unsigned short enc, const unsigned short *page)
         case file_encoding::koi8_r:
         case file_encoding::koi8_u:
         case file_encoding::koi8_ru:
-          page_ = codepages[enc - file_encoding::latin - 1];
+        case file_encoding::custom:
           while (ulen_-- > 0)
           {
-            c1 = page_[*b++];
-            if (c1 < 0x80)
-              *t++ = static_cast<char>(c1);
+            c = page_[*b++];
+            if (c < 0x80)
+              *t++ = static_cast<char>(c);
             else
-              t += utf8(c1, t);
-          }
-          uidx_ = 0;
-          ulen_ = static_cast<unsigned short>(t - utf8_);
-          break;
-        case file_encoding::custom:
-          if (page)
-          {
-            page_ = page;
-            while (ulen_-- > 0)
-            {
-              c1 = page_[*b++];
-              if (c1 < 0x80)
-                *t++ = static_cast<char>(c1);
-              else
-                t += utf8(c1, t);
-            }
-            uidx_ = 0;
-            ulen_ = static_cast<unsigned short>(t - utf8_);
-          }
-          else
-          {
-            enc = file_encoding::plain;
+              t += utf8(c, t);
           }
           break;
         case file_encoding::utf16be:
-          // enforcing non-BOM UTF-16: translate utf8_[] to UTF-16 then to UTF-8
-          if (b[1] == '\0' && ::fread(b + 1, 1, 1, file_) == 1)
-          {
-            if (b[2] == '\0' ? ::fread(b + 2, 2, 1, file_) == 1 :
-                b[3] == '\0' ? ::fread(b + 3, 1, 1, file_) == 1 :
-                false
-               )
-            {
-              c1 = b[0] << 8 | b[1];
-              c2 = b[2] << 8 | b[3];
-              if (c1 >= 0xD800 && c1 < 0xE000)
-              {
-                // UTF-16 surrogate pair
-                if (c1 < 0xDC00 && (c2 & 0xFC00) == 0xDC00)
-                  c1 = 0x010000 - 0xDC00 + ((c1 - 0xD800) << 10) + c2;
-                else
-                  c1 = REFLEX_NONCHAR;
-                t += utf8(c1, t);
-              }
-              else
-              {
-                t += utf8(c1, t);
-                t += utf8(c2, t);
-              }
-              uidx_ = 0;
-              ulen_ = static_cast<unsigned short>(t - utf8_);
-            }
-          }
-          break;
         case file_encoding::utf16le:
           // enforcing non-BOM UTF-16: translate utf8_[] to UTF-16 then to UTF-8
-          if (b[1] == '\0' && ::fread(b + 1, 1, 1, file_) == 1)
+          if ((ulen_ & 1) != 0)
+            ulen_ += static_cast<unsigned short>(::fread(b + ulen_, 1, 1, file_));
+          while (ulen_ >= 2)
           {
-            if (b[2] == '\0' ? ::fread(b + 2, 2, 1, file_) == 1 :
-                b[3] == '\0' ? ::fread(b + 3, 1, 1, file_) == 1 :
-                false
-               )
+            c = enc == file_encoding::utf16be ? b[0] << 8 | b[1] : b[0] | b[1] << 8;
+            b += 2;
+            ulen_ -= 2;
+            if (c >= 0xD800 && c < 0xE000)
             {
-              c1 = b[0] | b[1] << 8;
-              c2 = b[2] | b[3] << 8;
-              if (c1 >= 0xD800 && c1 < 0xE000)
+              // UTF-16 surrogate pair
+              int d = 0;
+              if (c < 0xDC00 && (ulen_ >= 2 || ::fread(b, 2, 1, file_) == 1))
               {
-                // UTF-16 surrogate pair
-                if (c1 < 0xDC00 && (c2 & 0xFC00) == 0xDC00)
-                  c1 = 0x010000 - 0xDC00 + ((c1 - 0xD800) << 10) + c2;
-                else
-                  c1 = REFLEX_NONCHAR;
-                t += utf8(c1, t);
+                d = enc == file_encoding::utf16be ? b[0] << 8 | b[1] : b[0] | b[1] << 8;
+                if (ulen_ >= 2)
+                {
+                  b += 2;
+                  ulen_ -= 2;
+                }
               }
+              if ((d & 0xFC00) == 0xDC00)
+                c = 0x010000 - 0xDC00 + ((c - 0xD800) << 10) + d;
               else
-              {
-                t += utf8(c1, t);
-                t += utf8(c2, t);
-              }
-              uidx_ = 0;
-              ulen_ = static_cast<unsigned short>(t - utf8_);
+                c = REFLEX_NONCHAR;
             }
+            t += utf8(c, t);
           }
           break;
         case file_encoding::utf32be:
-          // enforcing non-BOM UTF-32: translate utf8_[] to UTF-32 then to UTF-8
-          if (b[1] == '\0' ? ::fread(b + 1, 3, 1, file_) == 1 :
-              b[2] == '\0' ? ::fread(b + 2, 2, 1, file_) == 1 :
-              b[3] == '\0' ? ::fread(b + 3, 1, 1, file_) == 1 :
-              false
-             )
-          {
-            c1 = buf[0] << 24 | buf[1] << 16 | buf[2] << 8 | buf[3];
-            t += utf8(c1, t);
-            uidx_ = 0;
-            ulen_ = static_cast<unsigned short>(t - utf8_);
-          }
-          break;
         case file_encoding::utf32le:
           // enforcing non-BOM UTF-32: translate utf8_[] to UTF-32 then to UTF-8
-          if (b[1] == '\0' ? ::fread(b + 1, 3, 1, file_) == 1 :
-              b[2] == '\0' ? ::fread(b + 2, 2, 1, file_) == 1 :
-              b[3] == '\0' ? ::fread(b + 3, 1, 1, file_) == 1 :
-              false
-             )
+          if (ulen_ < 4)
+            ulen_ += static_cast<unsigned short>(::fread(b + ulen_, 1, 4 - ulen_, file_));
+          if (ulen_ >= 4)
           {
-            c1 = buf[0] | buf[1] << 8 | buf[2] << 16 | buf[3] << 24;
-            t += utf8(c1, t);
-            uidx_ = 0;
-            ulen_ = static_cast<unsigned short>(t - utf8_);
+            c = enc == file_encoding::utf32be ? b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3] : b[0] | b[1] << 8 | b[2] << 16 | b[3] << 24;
+            t += utf8(c < 0 ? REFLEX_NONCHAR : c, t);
           }
           break;
         default:
+          // keep the plain bytes as they are
+          while (ulen_-- > 0)
+            *t++ = static_cast<char>(*b++);
           break;
       }
+      uidx_ = 0;
+      ulen_ = static_cast<unsigned short>(t - utf8_);
     }
     size_ = 0;
     utfx_ = enc;
-- 
2.43.0


From ae9319d2176c36aef9f963ecfb73618cda4d6900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:35 +0000
Subject: [PATCH 032/127] fix: wrong characters in the tables of code pages
 1251, 1254, 1255, 1257, ISO-8859-3, 4, 6 and 13 and KOI8-RU

---
 lib/input.cpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/lib/input.cpp b/lib/input.cpp
index d8c503c..20c479e 100644
--- a/lib/input.cpp
+++ b/lib/input.cpp
@@ -167,9 +167,9 @@ const unsigned short codepages[38][256] =
      112,   113,   114,   115,   116,   117,   118,   119,   120,   121,   122,   123,   124,   125,   126,   127,
   0x0402,0x0403,0x201A,0x0453,0x201E,0x2026,0x2020,0x2021,0x20AC,0x2030,0x0409,0x2039,0x040A,0x040C,0x040B,0x040F,
   0x0452,0x2018,0x2019,0x201C,0x201D,0x2022,0x2013,0x2014,   152,0x2122,0x0459,0x203A,0x045A,0x045C,0x045B,0x045F,
-     160,0x040E,0x045E,0x0408,   164,0x0409,   166,   167,0x0401,   169,0x0404,   171,   172,   173,   174,0x0407,
+     160,0x040E,0x045E,0x0408,   164,0x0490,   166,   167,0x0401,   169,0x0404,   171,   172,   173,   174,0x0407,
      176,   177,0x0406,0x0456,0x0491,   181,   182,   183,0x0451,0x2116,0x0454,   187,0x0458,0x0405,0x0455,0x0457,
-  0x0100,0x0411,0x0412,0x0413,0x0414,0x0415,0x0416,0x0417,0x0418,0x0419,0x041A,0x041B,0x041C,0x041D,0x041E,0x041F,
+  0x0410,0x0411,0x0412,0x0413,0x0414,0x0415,0x0416,0x0417,0x0418,0x0419,0x041A,0x041B,0x041C,0x041D,0x041E,0x041F,
   0x0420,0x0421,0x0422,0x0423,0x0424,0x0425,0x0426,0x0427,0x0428,0x0429,0x042A,0x042B,0x042C,0x042D,0x042E,0x042F,
   0x0430,0x0431,0x0432,0x0433,0x0434,0x0435,0x0436,0x0437,0x0438,0x0439,0x043A,0x043B,0x043C,0x043D,0x043E,0x043F,
   0x0440,0x0441,0x0442,0x0443,0x0444,0x0445,0x0446,0x0447,0x0448,0x0449,0x044A,0x044B,0x044C,0x044D,0x044E,0x044F
@@ -229,7 +229,7 @@ const unsigned short codepages[38][256] =
      192,   193,   194,   195,   196,   197,   198,   199,   200,   201,   202,   203,   204,   205,   206,   207,
   0x011E,   209,   210,   211,   212,   213,   214,   215,   216,   217,   218,   219,   220,0x0130,0x015E,   223,
      224,   225,   226,   227,   228,   229,   230,   231,   232,   233,   234,   235,   236,   237,   238,   239,
-  0x011F,   241,   242,   243,   244,   245,   246,   247,   248,   249,   250,   252,   252,0x0131,0x015F,   255
+  0x011F,   241,   242,   243,   244,   245,   246,   247,   248,   249,   250,0x00FB,   252,0x0131,0x015F,   255
   },
   // Windows CP 1255 to Unicode
   {
@@ -245,7 +245,7 @@ const unsigned short codepages[38][256] =
      144,0x2018,0x2019,0x201C,0x201D,0x2022,0x2013,0x2014,0x02DC,0x2122,   154,0x203A,   156,   157,   158,   159,
      160,   161,   162,   163,0x20AA,   165,   166,   167,   168,   169,0x00D7,   171,   172,   173,   174,   175,
      176,   177,   178,   179,   180,   181,   182,   183,   184,   185,0x00F7,   187,   188,   189,   190,   191,
-  0x05B0,0x05B1,0x05B2,0x0583,0x0584,0x0585,0x0586,0x0587,0x0588,0x0589,0x058A,0x058B,0x058C,0x058D,0x058E,0x058F,
+  0x05B0,0x05B1,0x05B2,0x05B3,0x05B4,0x05B5,0x05B6,0x05B7,0x05B8,0x05B9,0x058A,0x05BB,0x05BC,0x05BD,0x05BE,0x05BF,
   0x05C0,0x05C1,0x05C2,0x05C3,0x05F0,0x05F1,0x05F2,0x05F3,0x05F4,   217,   218,   219,   220,   221,   222,   223,
   0x05D0,0x05D1,0x05D2,0x05D3,0x05D4,0x05D5,0x05D6,0x05D7,0x05D8,0x05D9,0x05DA,0x05DB,0x05DC,0x05DD,0x05DE,0x05DF,
   0x05E0,0x05E1,0x05E2,0x05E3,0x05E4,0x05E5,0x05E6,0x05E7,0x05E8,0x05E9,0x05EA,   251,   252,0x200E,0x200F,   255
@@ -281,12 +281,12 @@ const unsigned short codepages[38][256] =
      112,   113,   114,   115,   116,   117,   118,   119,   120,   121,   122,   123,   124,   125,   126,   127,
   0x20AC,   129,0x201A,   131,0x201E,0x2026,0x2020,0x2021,   136,0x2030,   138,0x2039,   140,0x00A8,0x02C7,0x00B8,
      144,0x2018,0x2019,0x201C,0x201D,0x2022,0x2013,0x2014,   152,0x2122,   154,0x203A,   156,0x00AF,0x02DB,   159,
-     160,   161,   162,   163,   164,   165,   166,   167,0x00D8,   169,0x0156,   171,   172,   173,   174,   175,
-     176,   177,   178,   179,   180,   181,   182,   183,0x00F8,   185,0x0157,   187,   188,   189,   190,   191,
+     160,   161,   162,   163,   164,   165,   166,   167,0x00D8,   169,0x0156,   171,   172,   173,   174,   0x00C6,
+     176,   177,   178,   179,   180,   181,   182,   183,0x00F8,   185,0x0157,   187,   188,   189,   190,   0x00E6,
   0x0104,0x012E,0x0100,0x0106,   196,   197,0x0118,0x0112,0x010C,   201,0x0179,0x0116,0x0122,0x0136,0x012A,0x013B,
   0x0160,0x0143,0x0145,   211,0x014C,   213,   214,   215,0x0172,0x0141,0x015A,0x016A,   220,0x017B,0x017D,   223,
   0x0105,0x012F,0x0101,0x0107,   228,   229,0x0119,0x0113,0x010D,   233,0x017A,0x0117,0x0123,0x0137,0x012B,0x013C,
-  0x0161,0x0144,0x0146,   242,0x014D,   245,   246,   247,0x0173,0x0142,0x015B,0x016B,   252,0x017C,0x017E,0x02D9
+  0x0161,0x0144,0x0146,0x00F3,0x014D,   245,   246,   247,0x0173,0x0142,0x015B,0x016B,   252,0x017C,0x017E,0x02D9
   },
   // Windows CP 1258 to Unicode
   {
@@ -338,11 +338,11 @@ const unsigned short codepages[38][256] =
      112,   113,   114,   115,   116,   117,   118,   119,   120,   121,   122,   123,   124,   125,   126,   127,
      128,   129,   130,   131,   132,   133,   134,   135,   136,   137,   138,   139,   140,   141,   142,   143,
      144,   145,   146,   147,   148,   149,   150,   151,   152,   153,   154,   155,   156,   157,   158,   159,
-     160,0x0126,0x2DB2,   163,   164,   165,0x0124,   167,   168,0x0130,0x015E,0x011E,0x0134,   173,   174,0x017B,
+     160,0x0126,0x02D8,   163,   164,   165,0x0124,   167,   168,0x0130,0x015E,0x011E,0x0134,   173,   174,0x017B,
      176,0x0127,   178,   179,   180,   181,0x0125,   183,   184,0x0131,0x015F,0x011F,0x0135,   189,   190,0x017C,
      192,   193,   194,   195,   196,0x010A,0x0108,   199,   200,   201,   202,   203,   204,   205,   206,   207,
      208,   209,   210,   211,   212,0x0120,   214,   215,0x011C,   217,   218,   219,   220,0x016C,0x015C,   223,
-     224,   225,   226,   227,   228,0x10B9,0x0109,   231,   232,   233,   234,   235,   236,   237,   238,   239,
+     224,   225,   226,   227,   228,0x010B,0x0109,   231,   232,   233,   234,   235,   236,   237,   238,   239,
      240,   241,   242,   243,   244,0x0121,   246,   247,0x011D,   249,   250,   251,   252,0x016D,0x015D,0x02D9
   },
   // ISO-8859-4 to Unicode
@@ -357,7 +357,7 @@ const unsigned short codepages[38][256] =
      112,   113,   114,   115,   116,   117,   118,   119,   120,   121,   122,   123,   124,   125,   126,   127,
      128,   129,   130,   131,   132,   133,   134,   135,   136,   137,   138,   139,   140,   141,   142,   143,
      144,   145,   146,   147,   148,   149,   150,   151,   152,   153,   154,   155,   156,   157,   158,   159,
-     160,0x1041,0x0138,0x0156,   164,0x0128,0x013B,   167,   168,0x0160,0x0112,0x0122,0x0166,   173,0x017D,   175,
+     160,0x0104,0x0138,0x0156,   164,0x0128,0x013B,   167,   168,0x0160,0x0112,0x0122,0x0166,   173,0x017D,   175,
      176,0x0105,0x02DB,0x0157,   180,0x0129,0x013C,0x02C7,   184,0x0161,0x0113,0x0123,0x0167,0x014A,0x017E,0x014B,
   0x0100,   193,   194,   195,   196,   197,   198,0x012E,0x010C,   201,0x0118,   203,0x0116,   205,   206,0x012A,
   0x0110,0x0145,0x014C,0x0136,   212,   213,   214,   215,   216,0x0172,   218,   219,   220,0x0168,0x016A,   223,
@@ -398,7 +398,7 @@ const unsigned short codepages[38][256] =
      160,   161,   162,   163,   164,   165,   166,   167,   168,   169,   170,   171,0x060C,   173,   174,   175,
      176,   177,   178,   179,   180,   181,   182,   183,   184,   185,   186,0x061B,   188,   189,   190,0x061F,
      192,0x0621,0x0622,0x0623,0x0624,0x0625,0x0626,0x0627,0x0628,0x0629,0x062A,0x062B,0x062C,0x062D,0x062E,0x062F,
-  0x0630,0x0631,0x0632,0x0633,0x0634,0x0635,0x0636,0x0637,0x0638,0x0639,0x062A,   219,   220,   221,   222,   223,
+  0x0630,0x0631,0x0632,0x0633,0x0634,0x0635,0x0636,0x0637,0x0638,0x0639,0x063A,   219,   220,   221,   222,   223,
   0x0640,0x0641,0x0642,0x0643,0x0644,0x0645,0x0646,0x0647,0x0648,0x0649,0x064A,0x064B,0x064C,0x064D,0x064E,0x064F,
   0x0650,0x0651,0x0652,   243,   244,   245,   246,   247,   248,   249,   250,   251,   252,   253,   254,   255
   },
@@ -514,7 +514,7 @@ const unsigned short codepages[38][256] =
   0x0104,0x012E,0x0100,0x0106,   196,   197,0x0118,0x0112,0x010C,   201,0x0179,0x0116,0x0122,0x0136,0x012A,0x013B,
   0x0160,0x0143,0x0145,   211,0x014C,   213,   214,   215,0x0172,0x0141,0x015A,0x016A,   220,0x017B,0x017D,   223,
   0x0105,0x012F,0x0101,0x0107,   228,   229,0x0119,0x0113,0x010D,   233,0x017A,0x0117,0x0123,0x0137,0x012B,0x013C,
-  0x0161,0x0144,0x0146,   242,0x014D,   245,   246,   247,0x0173,0x0142,0x015B,0x016B,   252,0x017C,0x017E,0x2019
+  0x0161,0x0144,0x0146,0x00F3,0x014D,   245,   246,   247,0x0173,0x0142,0x015B,0x016B,   252,0x017C,0x017E,0x2019
   },
   // ISO-8859-14 to Unicode
   {
@@ -642,8 +642,8 @@ const unsigned short codepages[38][256] =
      112,   113,   114,   115,   116,   117,   118,   119,   120,   121,   122,   123,   124,   125,   126,   127,
   0x2500,0x2502,0x250C,0x2510,0x2514,0x2518,0x251C,0x2524,0x252C,0x2534,0x253C,0x2580,0x2584,0x2588,0x258C,0x2590,
   0x2591,0x2592,0x2593,0x201C,0x25A0,0x2219,0x201D,0x2014,0x2116,0x2122,0x00A0,0x00BB,0x00AE,0x00AB,0x00B7,0x00A4,
-  0x2550,0x2551,0x2552,0x0451,0x0454,0x2554,0x0456,0x0457,0x2557,0x2558,0x2559,0x255A,0x255B,0x0491,0x045D,0x255E,
-  0x255F,0x2560,0x2561,0x0401,0x0404,0x2563,0x0406,0x0407,0x2566,0x2567,0x2568,0x2569,0x256A,0x0490,0x040D,0x00A9,
+  0x2550,0x2551,0x2552,0x0451,0x0454,0x2554,0x0456,0x0457,0x2557,0x2558,0x2559,0x255A,0x255B,0x0491,0x045E,0x255E,
+  0x255F,0x2560,0x2561,0x0401,0x0404,0x2563,0x0406,0x0407,0x2566,0x2567,0x2568,0x2569,0x256A,0x0490,0x040E,0x00A9,
   0x044E,0x0430,0x0431,0x0446,0x0434,0x0435,0x0444,0x0433,0x0445,0x0438,0x0439,0x043A,0x043B,0x043C,0x043D,0x043E,
   0x043F,0x044F,0x0440,0x0441,0x0442,0x0443,0x0436,0x0432,0x044C,0x044B,0x0437,0x0448,0x044D,0x0449,0x0447,0x044A,
   0x042E,0x0410,0x0411,0x0426,0x0414,0x0415,0x0424,0x0413,0x0425,0x0418,0x0419,0x041A,0x041B,0x041C,0x041D,0x041E,
-- 
2.43.0


From 3cdbf39bda9f1b65f8fb4062386484e0f5899ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:20 +0000
Subject: [PATCH 033/127] fix: \D, \L, \U and \W in bracket lists missed the
 Unicode characters after the last of the class

---
 lib/convert.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 5c930fb..5318492 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -562,6 +562,9 @@ static void insert_escape_class(const char *pattern, size_t pos, const std::map<
         if (last < 0xD800)
           ranges.insert(last, 0xD7FF);
         ranges.insert(0xE000, 0x10FFFF);
+      }
+      else
+      {
         ranges.insert(last, 0x10FFFF);
       }
     }
-- 
2.43.0


From 8036aa800f4287fe77b140e869a82e1d89883d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:20 +0000
Subject: [PATCH 034/127] fix: negated POSIX classes [:^class:] in bracket
 lists did not match Unicode characters above U+00FF

---
 lib/convert.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 5318492..4472668 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -729,7 +729,7 @@ static int insert_escape(const char *pattern, size_t len, size_t& pos, convert_f
   return c;
 }
 
-static void insert_posix_class(const char *pattern, size_t len, size_t& pos, ORanges<int>& ranges)
+static void insert_posix_class(const char *pattern, size_t len, size_t& pos, const std::map<size_t,std::string>& mod, ORanges<int>& ranges)
 {
   pos += 2;
   char buf[8] = "";
@@ -760,8 +760,16 @@ static void insert_posix_class(const char *pattern, size_t len, size_t& pos, ORa
         ranges.insert(last, wc[0] - 1);
       last = wc[1] + 1;
     }
-    if (last < 0xFF)
+    if (is_modified(mod, 'u'))
+    {
+      // exclude U+D800 to U+DFFF
+      ranges.insert(last, 0xD7FF);
+      ranges.insert(0xE000, 0x10FFFF);
+    }
+    else
+    {
       ranges.insert(last, 0xFF);
+    }
   }
   else
   {
@@ -931,7 +939,7 @@ static void insert_list(const char *pattern, size_t len, size_t& pos, convert_fl
       // POSIX character class (ASCII only)
       if (range)
         throw regex_error(regex_error::invalid_class_range, pattern, pos);
-      insert_posix_class(pattern, len, pos, ranges);
+      insert_posix_class(pattern, len, pos, mod, ranges);
       pc = -1;
     }
     else if (c == '|' && pattern[pos + 1] == '|' && pos + 3 < len && (pattern[pos + 2] == '[' || (pattern[pos + 2] == '{' && macros != NULL)))
-- 
2.43.0


From 2b9d30de9c62d5e8f5a84b2bb5aace77ee8a62c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 035/127] fix: Unicode class Space lacked NEL, the line
 separator and the paragraph separator

---
 unicode/language_scripts.cpp | 2 ++
 unicode/language_scripts.l   | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/unicode/language_scripts.cpp b/unicode/language_scripts.cpp
index 08fd4eb..907db04 100644
--- a/unicode/language_scripts.cpp
+++ b/unicode/language_scripts.cpp
@@ -9160,9 +9160,11 @@ void reflex::Unicode::Tables::language_scripts(void)
   static const int Space[] = {
     9, 13,
     32, 32,
+    133, 133,
     160, 160,
     5760, 5760,
     8192, 8202,
+    8232, 8233,
     8239, 8239,
     8287, 8287,
     12288, 12288,
diff --git a/unicode/language_scripts.l b/unicode/language_scripts.l
index 3af5705..c6ea27a 100644
--- a/unicode/language_scripts.l
+++ b/unicode/language_scripts.l
@@ -85,8 +85,8 @@ int main()
   (p["Unicode"]           = Chars(0x00, 0x10FFFF)) -= Chars(0xD800, 0xDFFF);
   (p["Non_ASCII_Unicode"] = p["Unicode"])          -= p["ASCII"];
 
-  // Add Unicode Space, includes blank characters HT (9), LF (10), VT (11), FF (12), CR (13)
-  (p["Space"] = p["Zs"]) |= Chars(0x09, 0x0D);
+  // Add Unicode Space, includes blank characters HT (9), LF (10), VT (11), FF (12), CR (13) and NEL (133)
+  ((p["Space"] = p["Z"]) |= Chars(0x09, 0x0D)) |= Chars(0x85);
 
   // Add Unicode Word
   ((p["Word"]  = p["L"]) |= p["Nd"]) |= p["Pc"];
-- 
2.43.0


From e2f3f70854871b988e9bd3bcd144b2d9485dae37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 036/127] fix: endless loop to convert a Unicode regex that
 ends with the first byte of a UTF-8 sequence

---
 lib/convert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 4472668..afc532d 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -2128,7 +2128,7 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
           // unicode: group UTF-8 sequence
           regex.append(&pattern[loc], pos - loc);
           loc = pos;
-          while (pos + 1 < len && ((c = pattern[++pos]) & 0xC0) == 0x80)
+          while (++pos < len && (pattern[pos] & 0xC0) == 0x80)
             continue;
           if (pos < len &&
               (pattern[pos] == '*' ||
-- 
2.43.0


From 0d1945e8b9e28ab5236315c5de3b4c46a6e46469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 037/127] fix: [[:>:]] was converted to \<

---
 lib/convert.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index afc532d..be47365 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -1822,11 +1822,11 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
             if (!supports_escape(signature, 'b') || !supports_escape(signature, 'w') || !supports_modifier(signature, '<'))
               throw regex_error(regex_error::invalid_anchor, pattern, pos);
             // translate \< to \b(?<=\w)
-            regex.append(&pattern[loc], pos - loc - 1).append("\\b(?<=\\w)");
+            regex.append(&pattern[loc], pos - loc).append("\\b(?<=\\w)");
           }
           else
           {
-            regex.append(&pattern[loc], pos - loc).append("\\<");
+            regex.append(&pattern[loc], pos - loc).append("\\>");
           }
           pos += 6;
           loc = pos + 1;
-- 
2.43.0


From 748a7e0145f7fe7d912e93b47ce82413d6d3caf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 038/127] fix: \Y and \B were converted to a word boundary
 instead of a non-word boundary

---
 lib/convert.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index be47365..2001877 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -1108,7 +1108,7 @@ static void convert_escape_char(const char *pattern, size_t len, size_t& loc, si
         if (!supports_escape(signature, 'Y'))
           throw regex_error(regex_error::invalid_anchor, pattern, pos);
         // translate \B to \Y
-        regex.append(&pattern[loc], pos - loc - 1).append("\\y");
+        regex.append(&pattern[loc], pos - loc - 1).append("\\Y");
         loc = pos + 1;
       }
       else if (c == 'Y')
@@ -1116,7 +1116,7 @@ static void convert_escape_char(const char *pattern, size_t len, size_t& loc, si
         if (!supports_escape(signature, 'B'))
           throw regex_error(regex_error::invalid_anchor, pattern, pos);
         // translate \Y to \B
-        regex.append(&pattern[loc], pos - loc - 1).append("\\b");
+        regex.append(&pattern[loc], pos - loc - 1).append("\\B");
         loc = pos + 1;
       }
       else if (c == '<')
-- 
2.43.0


From c67b750c7146b1f9cecbc8e793ccea83d45b8740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 039/127] fix: a - after a range that ends with an escape and
 after \N in a bracket list made a range

---
 lib/convert.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 2001877..529469c 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -605,6 +605,7 @@ static int insert_escape(const char *pattern, size_t len, size_t& pos, convert_f
       ranges.insert(0, 9);
       ranges.insert(11, 0xFF);
     }
+    return -1;
   }
   else if (c >= '0' && c <= '7')
   {
@@ -931,6 +932,7 @@ static void insert_list(const char *pattern, size_t len, size_t& pos, convert_fl
           throw regex_error(regex_error::invalid_class_range, pattern, pos);
         ranges.insert(pc, c);
         range = false;
+        c = -2;
       }
       pc = c;
     }
-- 
2.43.0


From 1ae07a135690255e67b7950c93270b34911674fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 040/127] fix: lazy .+? in Unicode mode matched a part of a
 UTF-8 sequence

---
 lib/convert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 529469c..e4f4b4d 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -2035,7 +2035,7 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
         }
         break;
       case '.':
-        if (is_modified(mod, 'u') && (pos + 1 >= len || (pattern[pos + 1] != '*' && pattern[pos + 1] != '+')))
+        if (is_modified(mod, 'u') && (pos + 1 >= len || (pattern[pos + 1] != '*' && pattern[pos + 1] != '+') || (pos + 2 < len && pattern[pos + 2] == '?')))
         {
           // unicode: translate . to match any UTF-8 so . matches anything (also beyond U+10FFFF)
           if (is_modified(mod, 's'))
-- 
2.43.0


From 60efaa4145e5b2c5e07dcf267f4584b814245564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 041/127] fix: \D, \H, \L, \S, \U, \W, \X and \P in a bracket
 list inverted the characters listed before

---
 lib/pattern.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index a0c441a..76ca34e 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -1230,12 +1230,14 @@ Pattern::Char Pattern::parse_esc(Location& loc, Chars *chars) const
       for (i = 0; i < 14; ++i)
         if (eq_at(loc, posix_class[i]))
           break;
+      Chars posix_chars;
       if (i < 14)
-        posix(i, *chars);
+        posix(i, posix_chars);
       else
         error(regex_error::invalid_class, loc);
       if (c == 'P')
-        flip(*chars);
+        flip(posix_chars);
+      *chars |= posix_chars;
       loc += static_cast<Location>(strlen(posix_class[i]));
       if (at(loc) == '}')
         ++loc;
@@ -1269,9 +1271,11 @@ Pattern::Char Pattern::parse_esc(Location& loc, Chars *chars) const
       {
         if (chars != NULL)
         {
-          posix((s - escapes) / 2, *chars);
+          Chars posix_chars;
+          posix((s - escapes) / 2, posix_chars);
           if ((s - escapes) % 2)
-            flip(*chars);
+            flip(posix_chars);
+          *chars |= posix_chars;
         }
         c = META_EOL;
       }
-- 
2.43.0


From 693e92f70c5074c1cf20f14c4cb23a4bac6eb58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:38 +0000
Subject: [PATCH 042/127] fix: [:^digit:] in a bracket list of a pattern was
 taken for [:xdigit:], negated and misspelled POSIX classes

---
 lib/pattern.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 76ca34e..1276fe3 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -1970,14 +1970,25 @@ void Pattern::compile_list(Location loc, Chars& chars, const Map& modifiers) con
         }
         else
         {
+          bool invert = at(loc + 2) == '^';
           size_t i;
           for (i = 0; i < 14; ++i)
-            if (eq_at(loc + 4, posix_class[i] + 2)) // ignore first two letters (upper/lower) when matching
+          {
+            const char *s = posix_class[i];
+            size_t k = loc + 2 + invert;
+            while (k < c_loc && *s != '\0' && (at(static_cast<Location>(k)) | 0x20) == (*s | 0x20)) // ignore case when matching
+              ++k, ++s;
+            if (k == c_loc && *s == '\0')
               break;
+          }
+          Chars posix_chars;
           if (i < 14)
-            posix(i, chars);
+            posix(i, posix_chars);
           else
             error(regex_error::invalid_class, loc);
+          if (invert)
+            flip(posix_chars);
+          chars |= posix_chars;
           c = META_EOL;
         }
         loc = static_cast<Location>(c_loc + 1);
-- 
2.43.0


From 4193e259271384ce545de6dbb0af76d8a0ac1526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:48 +0000
Subject: [PATCH 043/127] fix: access beyond the table of POSIX classes for an
 unknown class \p{...} when errors are not thrown

---
 lib/pattern.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 1276fe3..3e5859f 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -1232,13 +1232,17 @@ Pattern::Char Pattern::parse_esc(Location& loc, Chars *chars) const
           break;
       Chars posix_chars;
       if (i < 14)
+      {
         posix(i, posix_chars);
+        loc += static_cast<Location>(strlen(posix_class[i]));
+      }
       else
+      {
         error(regex_error::invalid_class, loc);
+      }
       if (c == 'P')
         flip(posix_chars);
       *chars |= posix_chars;
-      loc += static_cast<Location>(strlen(posix_class[i]));
       if (at(loc) == '}')
         ++loc;
       else
-- 
2.43.0


From e0b1b4bc9ef2802f6f1c0e765f13d0326ba628de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:58 +0000
Subject: [PATCH 044/127] fix: [^] at the end of a regex was converted to a
 list of all characters

---
 lib/convert.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index e4f4b4d..73b9d17 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -1013,6 +1013,8 @@ static void insert_list(const char *pattern, size_t len, size_t& pos, convert_fl
   }
   if (pos >= len || pattern[pos] != ']')
     throw regex_error(regex_error::mismatched_brackets, pattern, loc);
+  if (pos == loc + negate)
+    throw regex_error(regex_error::empty_class, pattern, loc);
   if (negate)
     negate_list(flags, mod, ranges);
   extend_list(pattern, len, pos, flags, mod, ranges, macros);
-- 
2.43.0


From 2a176302370ed034d57f37e7363bc1d12160de18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:42 +0000
Subject: [PATCH 045/127] fix: bytes above 0x7F in bracket lists of non-Unicode
 regexes were dropped by the regex converter

---
 lib/convert.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 73b9d17..cb82d68 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -577,7 +577,7 @@ static void insert_escape_class(const char *pattern, size_t pos, const std::map<
 
 static int insert_escape(const char *pattern, size_t len, size_t& pos, convert_flag_type flags, const std::map<size_t,std::string>& mod, ORanges<int>& ranges)
 {
-  int c = pattern[pos];
+  int c = static_cast<unsigned char>(pattern[pos]);
   if (c == 'c')
   {
     ++pos;
@@ -921,7 +921,7 @@ static void insert_list(const char *pattern, size_t len, size_t& pos, convert_fl
   }
   while (pos + 1 < len)
   {
-    int c = pattern[pos];
+    int c = static_cast<unsigned char>(pattern[pos]);
     if (c == '\\')
     {
       ++pos;
-- 
2.43.0


From 686e03341b84efdb944550e400f86d255041b313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:49 +0000
Subject: [PATCH 046/127] fix: std::regex rejected converted . in dotall mode,
 \X and bracket lists with a range from below to above 0x80

---
 lib/convert.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index cb82d68..41a306f 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -366,6 +366,14 @@ static std::string convert_unicode_ranges(const ORanges<int>& ranges, convert_fl
   return regex;
 }
 
+static std::string convert_latin1_range(int a, int b, int esc)
+{
+  // std::regex compares signed char, a range should not include both 0x7F and 0x80
+  if (a <= 0x7F && b >= 0x80)
+    return latin1(a, 0x7F, esc, false).append(latin1(0x80, b, esc, false));
+  return latin1(a, b, esc, false);
+}
+
 static std::string convert_posix_ranges(const ORanges<int>& ranges, const char *signature)
 {
   int esc = hex_or_octal_escape(signature);
@@ -377,13 +385,13 @@ static std::string convert_posix_ranges(const ORanges<int>& ranges, const char *
     inverse -= ranges;
     regex = "[^";
     for (ORanges<int>::const_iterator i = inverse.begin(); i != inverse.end(); ++i)
-      regex.append(latin1(i->first, i->second - 1, esc, false));
+      regex.append(convert_latin1_range(i->first, i->second - 1, esc));
   }
   else
   {
     regex = "[";
     for (ORanges<int>::const_iterator i = ranges.begin(); i != ranges.end(); ++i)
-      regex.append(latin1(i->first, i->second - 1, esc, false));
+      regex.append(convert_latin1_range(i->first, i->second - 1, esc));
   }
   regex.push_back(']');
   return regex;
@@ -1564,10 +1572,10 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
           {
 #ifndef WITH_UTF8_UNRESTRICTED
             // translate \X to match any ISO-8859-1 and valid UTF-8
-            regex.append(&pattern[loc], pos - loc - 1).append(par).append("[\\x00-\\xff]|[\\xc2-\\xdf][\\x80-\\xbf]|\\xe0[\\xa0-\\xbf][\\x80-\\xbf]|[\\xe1-\\xec][\\x80-\\xbf][\\x80-\\xbf]|\\xed[\\x80-\\x9f][\\x80-\\xbf]|[\\xee\\xef][\\x80-\\xbf][\\x80-\\xbf]|\\xf0[\\x90-\\xbf][\\x80-\\xbf][\\x80-\\xbf]|[\\xf1-\\xf3][\\x80-\\xbf][\\x80-\\xbf][\\x80-\\xbf]|\\xf4[\\x80-\\x8f][\\x80-\\xbf][\\x80-\\xbf]").push_back(')');
+            regex.append(&pattern[loc], pos - loc - 1).append(par).append("[\\x00-\\x7f\\x80-\\xff]|[\\xc2-\\xdf][\\x80-\\xbf]|\\xe0[\\xa0-\\xbf][\\x80-\\xbf]|[\\xe1-\\xec][\\x80-\\xbf][\\x80-\\xbf]|\\xed[\\x80-\\x9f][\\x80-\\xbf]|[\\xee\\xef][\\x80-\\xbf][\\x80-\\xbf]|\\xf0[\\x90-\\xbf][\\x80-\\xbf][\\x80-\\xbf]|[\\xf1-\\xf3][\\x80-\\xbf][\\x80-\\xbf][\\x80-\\xbf]|\\xf4[\\x80-\\x8f][\\x80-\\xbf][\\x80-\\xbf]").push_back(')');
 #else
             // translate \X to match any ISO-8859-1 and UTF-8 encodings, including malformed UTF-8 with overruns
-            regex.append(&pattern[loc], pos - loc - 1).append(par).append("[\\x00-\\xff]|[\\xc0-\\xff][\\x80-\\xbf]+").push_back(')');
+            regex.append(&pattern[loc], pos - loc - 1).append(par).append("[\\x00-\\x7f\\x80-\\xff]|[\\xc0-\\xff][\\x80-\\xbf]+").push_back(')');
 #endif
             loc = pos + 1;
           }
@@ -2042,7 +2050,7 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
           // unicode: translate . to match any UTF-8 so . matches anything (also beyond U+10FFFF)
           if (is_modified(mod, 's'))
           {
-            regex.append(&pattern[loc], pos - loc).append(par).append("[\\x00-\\xff][\\x80-\\xbf]*)");
+            regex.append(&pattern[loc], pos - loc).append(par).append("[\\x00-\\x7f\\x80-\\xff][\\x80-\\xbf]*)");
             loc = pos + 1;
           }
           else if (!supports_escape(signature, 'p'))
@@ -2057,8 +2065,8 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
         }
         else if (is_modified(mod, 's'))
         {
-          // dotall: translate . to [\x00-\xff]
-          regex.append(&pattern[loc], pos - loc).append("[\\x00-\\xff]");
+          // dotall: translate . to [\x00-\xff], as two ranges because char is signed for std::regex
+          regex.append(&pattern[loc], pos - loc).append("[\\x00-\\x7f\\x80-\\xff]");
           loc = pos + 1;
         }
         else if (!supports_modifier(signature, 's') && !supports_escape(signature, '.'))
-- 
2.43.0


From efd3bd9d8e7b22614eda538ba16103c56f72b637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:20 +0000
Subject: [PATCH 047/127] fix: \s removed \n that is listed before it in a
 bracket list of a lexer specification

---
 lib/convert.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 41a306f..a33f961 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -720,8 +720,10 @@ static int insert_escape(const char *pattern, size_t len, size_t& pos, convert_f
   else if (c == 's' && (flags & convert_flag::notnewline))
   {
     // \s is the same as \p{Space} but without newline \n
-    insert_escape_class(pattern, pos, mod, ranges);
-    ranges.erase('\n');
+    ORanges<int> spaces;
+    insert_escape_class(pattern, pos, mod, spaces);
+    spaces.erase('\n');
+    ranges |= spaces;
     return -1;
   }
   else if (std::isalpha(c))
-- 
2.43.0


From a0f3923217577b8063c4c5a7627d318f4425c184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:08 +0000
Subject: [PATCH 048/127] fix: union with a negated list in a bracket list
 inverted the characters listed before the union

---
 lib/convert.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index a33f961..d64cba7 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -794,10 +794,12 @@ static void insert_list(const char *pattern, size_t len, size_t& pos, convert_fl
 
 static void merge_list(const char *pattern, size_t len, size_t& pos, convert_flag_type flags, const std::map<size_t,std::string>& mod, ORanges<int>& ranges, const std::map<std::string,std::string> *macros)
 {
+  ORanges<int> merge;
   if (pattern[pos] == '[')
   {
     ++pos;
-    insert_list(pattern, len, pos, flags, mod, ranges, macros);
+    insert_list(pattern, len, pos, flags, mod, merge, macros);
+    ranges |= merge;
   }
   else if (pattern[pos] == '{' && macros != NULL)
   {
@@ -806,7 +808,8 @@ static void merge_list(const char *pattern, size_t len, size_t& pos, convert_fla
     if (list.size() < 2 || list.at(0) != '[')
       throw regex_error(regex_error::invalid_class_range, pattern, pos);
     size_t subpos = 1;
-    insert_list(list.c_str(), list.size(), subpos, flags, mod, ranges, macros);
+    insert_list(list.c_str(), list.size(), subpos, flags, mod, merge, macros);
+    ranges |= merge;
     if (subpos + 1 < list.size())
       throw regex_error(regex_error::invalid_class_range, pattern, pos);
   }
-- 
2.43.0


From 504c088d55d18d47e2f63a85957101aa6d8b7027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:04 +0000
Subject: [PATCH 049/127] fix: complements of Unicode classes of surrogates
 included surrogates

---
 lib/convert.cpp | 140 +++++++-----------------------------------------
 1 file changed, 18 insertions(+), 122 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index d64cba7..51724ce 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -98,6 +98,18 @@ static std::string posix_class(const char *s, int esc)
   return regex;
 }
 
+/// insert the characters 0x00 to max that are not in the class, excludes U+D800 to U+DFFF
+static void insert_inverse(const int *wc, int max, ORanges<int>& ranges)
+{
+  ORanges<int> inverse(0x00, max);
+  inverse -= ORanges<int>(0xD800, 0xDFFF);
+  ORanges<int> chars;
+  for (; wc[1] != 0; wc += 2)
+    chars.insert(wc[0], wc[1]);
+  inverse -= chars;
+  ranges |= inverse;
+}
+
 static std::string unicode_class(const char *s, int esc, convert_flag_type flags, const char *par)
 {
   std::string regex;
@@ -106,52 +118,10 @@ static std::string unicode_class(const char *s, int esc, convert_flag_type flags
   {
     if (s[0] == '^') // inverted class \P{C} or \p{^C}
     {
-      if (wc[0] > 0x00)
-      {
-        if (wc[0] > 0xDFFF)
-        {
-          // exclude U+D800 to U+DFFF
-          regex.assign(utf8(0x00, 0xD7FF, esc, par, !(flags & convert_flag::permissive))).push_back('|');
-          if (wc[0] > 0xE000)
-            regex.append(utf8(0xE000, wc[0] - 1, esc, par, !(flags & convert_flag::permissive))).push_back('|');
-        }
-        else
-        {
-          regex.assign(utf8(0x00, wc[0] - 1, esc, par, !(flags & convert_flag::permissive))).push_back('|');
-        }
-      }
-      int last = wc[1] + 1;
-      wc += 2;
-      for (; wc[1] != 0; wc += 2)
-      {
-        if (last <= 0xD800 && wc[0] > 0xDFFF)
-        {
-          // exclude U+D800 to U+DFFF
-          if (last < 0xD800)
-            regex.append(utf8(last, 0xD7FF, esc, par, !(flags & convert_flag::permissive))).push_back('|');
-          if (wc[0] > 0xE000)
-            regex.append(utf8(0xE000, wc[0] - 1, esc, par, !(flags & convert_flag::permissive))).push_back('|');
-        }
-        else
-        {
-          regex.append(utf8(last, wc[0] - 1, esc, par, !(flags & convert_flag::permissive))).push_back('|');
-        }
-        last = wc[1] + 1;
-      }
-      if (last <= 0x10FFFF)
-      {
-        if (last <= 0xD800)
-        {
-          // exclude U+D800 to U+DFFF
-          if (last < 0xD800)
-            regex.append(utf8(last, 0xD7FF, esc, par, !(flags & convert_flag::permissive))).push_back('|');
-          regex.append(utf8(0xE000, 0x10FFFF, esc, par, !(flags & convert_flag::permissive))).push_back('|');
-        }
-        else
-        {
-          regex.append(utf8(last, 0x10FFFF, esc, par, !(flags & convert_flag::permissive))).push_back('|');
-        }
-      }
+      ORanges<int> ranges;
+      insert_inverse(wc, 0x10FFFF, ranges);
+      for (ORanges<int>::const_iterator i = ranges.begin(); i != ranges.end(); ++i)
+        regex.append(utf8(i->first, i->second - 1, esc, par, !(flags & convert_flag::permissive))).push_back('|');
       if (!regex.empty())
         regex.resize(regex.size() - 1);
     }
@@ -542,44 +512,7 @@ static void insert_escape_class(const char *pattern, size_t pos, const std::map<
   }
   else
   {
-    int last = 0x00;
-    for (const int *wc = translated; wc[1] != 0; wc += 2)
-    {
-      if (wc[0] > 0x00)
-      {
-        if (last <= 0xD800 && wc[0] > 0xDFFF)
-        {
-          // exclude U+D800 to U+DFFF
-          if (last < 0xD800)
-            ranges.insert(last, 0xD7FF);
-          if (wc[0] > 0xE000)
-            ranges.insert(0xE000, wc[0] - 1);
-        }
-        else
-        {
-          ranges.insert(last, wc[0] - 1);
-        }
-      }
-      last = wc[1] + 1;
-    }
-    if (is_modified(mod, 'u') && last <= 0x10FFFF)
-    {
-      if (last <= 0xD800)
-      {
-        // exclude U+D800 to U+DFFF
-        if (last < 0xD800)
-          ranges.insert(last, 0xD7FF);
-        ranges.insert(0xE000, 0x10FFFF);
-      }
-      else
-      {
-        ranges.insert(last, 0x10FFFF);
-      }
-    }
-    else if (last <= 0xFF)
-    {
-      ranges.insert(last, 0xFF);
-    }
+    insert_inverse(translated, is_modified(mod, 'u') ? 0x10FFFF : 0xFF, ranges);
   }
 }
 
@@ -670,44 +603,7 @@ static int insert_escape(const char *pattern, size_t len, size_t& pos, convert_f
       throw regex_error(regex_error::invalid_class, pattern, pos);
     if (c == 'P' || name.at(0) == '^')
     {
-      int last = 0x00;
-      for (const int *wc = translated; wc[1] != 0; wc += 2)
-      {
-        if (wc[0] > 0x00)
-        {
-          if (last <= 0xD800 && wc[0] > 0xDFFF)
-          {
-            // exclude U+D800 to U+DFFF
-            if (last < 0xD800)
-              ranges.insert(last, 0xD7FF);
-            if (wc[0] > 0xE000)
-              ranges.insert(0xE000, wc[0] - 1);
-          }
-          else
-          {
-            ranges.insert(last, wc[0] - 1);
-          }
-        }
-        last = wc[1] + 1;
-      }
-      if (is_modified(mod, 'u') && last <= 0x10FFFF)
-      {
-        if (last <= 0xD800)
-        {
-          // exclude U+D800 to U+DFFF
-          if (last < 0xD800)
-            ranges.insert(last, 0xD7FF);
-          ranges.insert(0xE000, 0x10FFFF);
-        }
-        else
-        {
-          ranges.insert(last, 0x10FFFF);
-        }
-      }
-      else if (last <= 0xFF)
-      {
-        ranges.insert(last, 0xFF);
-      }
+      insert_inverse(translated, is_modified(mod, 'u') ? 0x10FFFF : 0xFF, ranges);
     }
     else
     {
-- 
2.43.0


From 644dee242708ea53ef926c97e210972f6216fd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:10 +0000
Subject: [PATCH 050/127] fix: \X converted for Perl matching engines matched
 the first byte of a UTF-8 sequence

---
 lib/convert.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 51724ce..888d6c7 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -1473,10 +1473,10 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
           {
 #ifndef WITH_UTF8_UNRESTRICTED
             // translate \X to match any ISO-8859-1 and valid UTF-8
-            regex.append(&pattern[loc], pos - loc - 1).append(par).append("[\\x00-\\x7f\\x80-\\xff]|[\\xc2-\\xdf][\\x80-\\xbf]|\\xe0[\\xa0-\\xbf][\\x80-\\xbf]|[\\xe1-\\xec][\\x80-\\xbf][\\x80-\\xbf]|\\xed[\\x80-\\x9f][\\x80-\\xbf]|[\\xee\\xef][\\x80-\\xbf][\\x80-\\xbf]|\\xf0[\\x90-\\xbf][\\x80-\\xbf][\\x80-\\xbf]|[\\xf1-\\xf3][\\x80-\\xbf][\\x80-\\xbf][\\x80-\\xbf]|\\xf4[\\x80-\\x8f][\\x80-\\xbf][\\x80-\\xbf]").push_back(')');
+            regex.append(&pattern[loc], pos - loc - 1).append(par).append("[\\xc2-\\xdf][\\x80-\\xbf]|\\xe0[\\xa0-\\xbf][\\x80-\\xbf]|[\\xe1-\\xec][\\x80-\\xbf][\\x80-\\xbf]|\\xed[\\x80-\\x9f][\\x80-\\xbf]|[\\xee\\xef][\\x80-\\xbf][\\x80-\\xbf]|\\xf0[\\x90-\\xbf][\\x80-\\xbf][\\x80-\\xbf]|[\\xf1-\\xf3][\\x80-\\xbf][\\x80-\\xbf][\\x80-\\xbf]|\\xf4[\\x80-\\x8f][\\x80-\\xbf][\\x80-\\xbf]|[\\x00-\\x7f\\x80-\\xff]").push_back(')');
 #else
             // translate \X to match any ISO-8859-1 and UTF-8 encodings, including malformed UTF-8 with overruns
-            regex.append(&pattern[loc], pos - loc - 1).append(par).append("[\\x00-\\x7f\\x80-\\xff]|[\\xc0-\\xff][\\x80-\\xbf]+").push_back(')');
+            regex.append(&pattern[loc], pos - loc - 1).append(par).append("[\\xc0-\\xff][\\x80-\\xbf]+|[\\x00-\\x7f\\x80-\\xff]").push_back(')');
 #endif
             loc = pos + 1;
           }
-- 
2.43.0


From fdb68beffb2b4b32f4407f239885b245a14bb16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:06 +0000
Subject: [PATCH 051/127] fix: \X and \R of PCRE2Matcher in Unicode mode
 matched bytes instead of UTF-8 sequences

---
 include/reflex/pcre2matcher.h | 2 +-
 src/reflex.cpp                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/reflex/pcre2matcher.h b/include/reflex/pcre2matcher.h
index f370e99..e23e3e0 100644
--- a/include/reflex/pcre2matcher.h
+++ b/include/reflex/pcre2matcher.h
@@ -50,7 +50,7 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
   template<typename T>
   static std::string convert(T regex, convert_flag_type flags = convert_flag::none)
   {
-    return reflex::convert(regex, "imPRsx!#<>=&|'(0123456789*:abcdefghnrstvwxzABCDGHKNQRSVWXZ0123456789?+", flags);
+    return reflex::convert(regex, "imPRsx!#<>=&|'(0123456789*:abcdefghnrstvwxzABCDGHKNQSVWZ0123456789?+", flags);
   }
   /// Default constructor.
   PCRE2Matcher()
diff --git a/src/reflex.cpp b/src/reflex.cpp
index b9b29c2..65ef86a 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -252,7 +252,7 @@ static const Reflex::Library library_table[] = {
     "reflex/pcre2matcher.h",
     "std::string",
     "reflex::PCRE2Matcher",
-    "imsx!#<=:abcdefghlnrstuvwxzABDGHKLNQRSUWXZ0?+.",
+    "imsx!#<=:abcdefghlnrstuvwxzABDGHKLNQSUWZ0?+.",
   },
   {
     "std_ecma", // this is an experimental option, not recommended!!
-- 
2.43.0


From b4e42a8db91f02a87f5cfe520ed4e1f60c140fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:57 +0000
Subject: [PATCH 052/127] fix: (?i)[^a] in Unicode mode matched a

---
 lib/convert.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 888d6c7..4a8c8ed 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -158,6 +158,13 @@ inline void disable_modifier(int c, const char *pattern, size_t pos, std::map<si
   mod[lev].push_back(uppercase(c));
 }
 
+/// modifier of the regex that is supported by the regex library, letters are matched in any case by the regex library when modified with 'n'
+inline void native_modifier(int c, bool enable, std::map<size_t,std::string>& mod, size_t lev)
+{
+  if (c == 'i')
+    mod[lev].push_back(enable ? 'n' : 'N');
+}
+
 inline bool is_modified(const std::map<size_t,std::string>& mod, int c)
 {
   for (std::map<size_t,std::string>::const_reverse_iterator i = mod.rbegin(); i != mod.rend(); ++i)
@@ -797,7 +804,7 @@ static void extend_list(const char *pattern, size_t len, size_t& pos, convert_fl
 
 static void negate_list(convert_flag_type flags, const std::map<size_t,std::string>& mod, ORanges<int>& ranges)
 {
-  if (is_modified(mod, 'i'))
+  if (is_modified(mod, 'i') || is_modified(mod, 'n'))
     convert_anycase_ranges(ranges);
   if (is_modified(mod, 'u'))
   {
@@ -1360,6 +1367,7 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
         if (supports_modifier(signature, pattern[k]))
         {
           mods.push_back(pattern[k]);
+          native_modifier(pattern[k], true, mod, lev);
         }
         else if (pattern[k] == 'm')
         {
@@ -1373,7 +1381,10 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
       else
       {
         if (supports_modifier(signature, pattern[k]))
+        {
           unmods.push_back(pattern[k]);
+          native_modifier(pattern[k], false, mod, lev);
+        }
         else if (pattern[k] == 'm')
           throw regex_error(regex_error::invalid_modifier, pattern, pos);
         else
@@ -1569,14 +1580,20 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
                   else if (!invert)
                   {
                     if (supports_modifier(signature, pattern[k]))
+                    {
                       mods.push_back(pattern[k]);
+                      native_modifier(pattern[k], true, mod, lev);
+                    }
                     else
                       enable_modifier(pattern[k], pattern, k, mod, lev);
                   }
                   else
                   {
                     if (supports_modifier(signature, pattern[k]))
+                    {
                       unmods.push_back(pattern[k]);
+                      native_modifier(pattern[k], false, mod, lev);
+                    }
                     else
                       disable_modifier(pattern[k], pattern, k, mod, lev);
                   }
-- 
2.43.0


From 64d54a984bc066d98955cea48b0fed7f33d5efe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:32 +0000
Subject: [PATCH 053/127] fix: scan() and matches() of PCRE2Matcher accepted a
 match that begins later in the input after a partial match

---
 include/reflex/pcre2matcher.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/reflex/pcre2matcher.h b/include/reflex/pcre2matcher.h
index e23e3e0..4581958 100644
--- a/include/reflex/pcre2matcher.h
+++ b/include/reflex/pcre2matcher.h
@@ -385,9 +385,9 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
       if (rc > 0)
       {
         PCRE2_SIZE *ovector = pcre2_get_ovector_pointer(dat_);
-        cur_ = ovector[0];
-        if (method == Const::FIND || method == Const::SPLIT || pos_ == cur_)
+        if (method == Const::FIND || method == Const::SPLIT || pos_ == ovector[0])
         {
+          cur_ = ovector[0];
           pos_ = ovector[1];
           if (cur_ == pos_ && (method == Const::FIND || method == Const::SPLIT))
             flg_ |= PCRE2_NOTEMPTY_ATSTART | PCRE2_ANCHORED;
@@ -400,6 +400,8 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
       if (rc == PCRE2_ERROR_PARTIAL)
       {
         PCRE2_SIZE *ovector = pcre2_get_ovector_pointer(dat_);
+        if (method != Const::FIND && method != Const::SPLIT && pos_ != ovector[0])
+          return false; // SCAN and MATCH must be anchored
         cur_ = ovector[0]; // advance to the start of the partial match
         if (method == Const::FIND)
           txt_ = buf_ + cur_;
-- 
2.43.0


From 20fde0530130651b3ba8bec2d39f3b222a39702b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:37 +0000
Subject: [PATCH 054/127] fix: (?i)\x41 at the end of a regex did not match a

---
 lib/pattern.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 3e5859f..d76b8cc 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -1870,12 +1870,15 @@ void Pattern::compile_transition(
                       trim_anchors(follow, *k);
                       break;
                     default:
+                    {
+                      Location esc_loc = loc;
                       c = parse_esc(loc, &chars);
-                      if (c <= 'z' && std::isalpha(c) && is_modified('i', modifiers, loc))
+                      if (c <= 'z' && std::isalpha(c) && is_modified('i', modifiers, esc_loc))
                       {
                         chars.insert(uppercase(c));
                         chars.insert(lowercase(c));
                       }
+                    }
                   }
                 }
             }
-- 
2.43.0


From 80c4c7c35b3383b945831af7329dc82c16fb8e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:37 +0000
Subject: [PATCH 055/127] fix: string alternatives of a case-insensitive regex
 ignored (?-i:) in other alternatives

---
 lib/pattern.cpp | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index d76b8cc..58c8bed 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -1383,12 +1383,17 @@ void Pattern::compile(
                 Positions pos(i->second);
                 if (opt_.i && std::isalpha(c))
                 {
-                  if (c >= 'a' && c <= 'z')
+                  bool both = common.contains(reversecase(c));
+                  if ((c >= 'a' && c <= 'z') || !both)
                   {
-                    DFA::State *target_state = last_state = last_state->next = dfa_.state(state->tnode->edge[c], pos);
+                    DFA::State *target_state = last_state = last_state->next = dfa_.state(state->tnode->edge[lowercase(c)], pos);
                     state->edges[c] = std::pair<Char,DFA::State*>(c, target_state);
-                    state->edges[uppercase(c)] = std::pair<Char,DFA::State*>(uppercase(c), target_state);
-                    eno_ += 2;
+                    ++eno_;
+                    if (both)
+                    {
+                      state->edges[uppercase(c)] = std::pair<Char,DFA::State*>(uppercase(c), target_state);
+                      ++eno_;
+                    }
                   }
                 }
                 else
@@ -1410,12 +1415,6 @@ void Pattern::compile(
             ++i;
           }
         }
-        if (opt_.i)
-        {
-          // normalize by removing upper case if option i (case insensitivem matching) is enabled
-          static const uint64_t upper[5] = { 0x0000000000000000, 0x0000000007FFFFFE, 0, 0, 0 };
-          chars -= Chars(upper);
-        }
         if (chars.any())
         {
           Char lo = chars.lo();
@@ -1424,15 +1423,24 @@ void Pattern::compile(
           {
             if (chars.contains(c))
             {
-              DFA::State *target_state = last_state = last_state->next = dfa_.state(state->tnode->edge[c]);
               if (opt_.i && std::isalpha(c))
               {
-                state->edges[lowercase(c)] = std::pair<Char,DFA::State*>(lowercase(c), target_state);
-                state->edges[uppercase(c)] = std::pair<Char,DFA::State*>(uppercase(c), target_state);
-                eno_ += 2;
+                bool both = chars.contains(reversecase(c));
+                if ((c >= 'a' && c <= 'z') || !both)
+                {
+                  DFA::State *target_state = last_state = last_state->next = dfa_.state(state->tnode->edge[lowercase(c)]);
+                  state->edges[c] = std::pair<Char,DFA::State*>(c, target_state);
+                  ++eno_;
+                  if (both)
+                  {
+                    state->edges[uppercase(c)] = std::pair<Char,DFA::State*>(uppercase(c), target_state);
+                    ++eno_;
+                  }
+                }
               }
               else
               {
+                DFA::State *target_state = last_state = last_state->next = dfa_.state(state->tnode->edge[c]);
                 state->edges[c] = std::pair<Char,DFA::State*>(c, target_state);
                 ++eno_;
               }
-- 
2.43.0


From a9fd1e24367a6582edbcef8e6dd7ed02fc119078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:42 +0000
Subject: [PATCH 056/127] fix: (?-i:), (?-s:) and (?-x:) had no effect in
 regexes converted with the corresponding convert_flag

---
 lib/convert.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 4a8c8ed..6441f32 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -158,9 +158,13 @@ inline void disable_modifier(int c, const char *pattern, size_t pos, std::map<si
   mod[lev].push_back(uppercase(c));
 }
 
-/// modifier of the regex that is supported by the regex library, letters are matched in any case by the regex library when modified with 'n'
+inline bool is_modified(const std::map<size_t,std::string>& mod, int c);
+
+/// modifier that is supported by the regex library: 'n' if letters are matched in any case by the regex library, a disabled modifier also ends the conversions of a convert_flag
 inline void native_modifier(int c, bool enable, std::map<size_t,std::string>& mod, size_t lev)
 {
+  if (!enable && is_modified(mod, c))
+    mod[lev].insert(mod[lev].begin(), uppercase(c));
   if (c == 'i')
     mod[lev].push_back(enable ? 'n' : 'N');
 }
-- 
2.43.0


From c39f46dcc2962b3ccc393d51b0a5d563ce02f7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:42 +0000
Subject: [PATCH 057/127] fix: convert_flag::multiline was ignored for regexes
 that begin with a group (?

---
 lib/convert.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 6441f32..c29e18b 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -1414,6 +1414,8 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
     else
     {
       mod[lev].clear();
+      if ((flags & convert_flag::multiline))
+        regex.assign("(?m)");
     }
   }
   else if ((flags & convert_flag::multiline))
-- 
2.43.0


From 7279118c29a489d927f7ab12f60f11bd309c278e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:42 +0000
Subject: [PATCH 058/127] fix: \Q...\E was converted to a case-sensitive string
 in case-insensitive mode

---
 lib/convert.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index c29e18b..cba59ed 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -1440,9 +1440,10 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
         c = pattern[++pos];
         if (c == 'Q')
         {
-          if (!supports_escape(signature, 'Q'))
+          bool anycase = is_modified(mod, 'i');
+          if (!supports_escape(signature, 'Q') || anycase)
           {
-            // \Q is not a supported escape, translate by grouping and escaping meta chars up to the closing \E
+            // \Q is not a supported escape or anycase, translate by escaping meta chars up to the closing \E
             regex.append(&pattern[loc], pos - loc - 1);
             size_t k = loc = ++pos;
             while (pos + 1 < len && (pattern[pos] != '\\' || pattern[pos + 1] != 'E'))
@@ -1452,6 +1453,15 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
                 regex.append(&pattern[loc], pos - loc).push_back('\\');
                 loc = pos;
               }
+              else if (anycase && std::isalpha(static_cast<unsigned char>(pattern[pos])))
+              {
+                // anycase: translate A to [Aa]
+                regex.append(&pattern[loc], pos - loc).push_back('[');
+                regex.push_back(pattern[pos]);
+                regex.push_back(pattern[pos] ^ 0x20);
+                regex.push_back(']');
+                loc = pos + 1;
+              }
               ++pos;
             }
             if (pos + 1 >= len || pattern[pos] != '\\')
-- 
2.43.0


From 88b4f7de646369898510be1345e994420ac925cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:10 +0000
Subject: [PATCH 059/127] fix: copied Patterns deleted an uninitialized pointer
 and lost the opcode table and the search data

---
 include/reflex/pattern.h | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/include/reflex/pattern.h b/include/reflex/pattern.h
index d9e4597..53ea4b1 100644
--- a/include/reflex/pattern.h
+++ b/include/reflex/pattern.h
@@ -82,9 +82,18 @@ class Pattern {
   /// Construct an unset pattern.
   Pattern()
     :
+      vno_(0),
+      eno_(0),
       opc_(NULL),
       nop_(0),
-      fsm_(NULL)
+      fsm_(NULL),
+      len_(0),
+      min_(0),
+      pms_(0.0),
+      vms_(0.0),
+      ems_(0.0),
+      wms_(0.0),
+      one_(false)
   { }
   /// Construct a pattern object given a regex string.
   explicit Pattern(
@@ -152,6 +161,10 @@ class Pattern {
   }
   /// Copy constructor.
   Pattern(const Pattern& pattern) ///< pattern to copy
+    :
+      opc_(NULL),
+      nop_(0),
+      fsm_(NULL)
   {
     operator=(pattern);
   }
@@ -224,6 +237,8 @@ class Pattern {
   /// Assign a (new) pattern.
   Pattern& operator=(const Pattern& pattern)
   {
+    if (this == &pattern)
+      return *this;
     clear();
     opt_ = pattern.opt_;
     rex_ = pattern.rex_;
@@ -245,8 +260,16 @@ class Pattern {
     }
     else
     {
+      opc_ = pattern.opc_;
       fsm_ = pattern.fsm_;
     }
+    len_ = pattern.len_;
+    min_ = pattern.min_;
+    one_ = pattern.one_;
+    std::memcpy(pre_, pattern.pre_, sizeof(pre_));
+    std::memcpy(bit_, pattern.bit_, sizeof(bit_));
+    std::memcpy(pmh_, pattern.pmh_, sizeof(pmh_));
+    std::memcpy(pma_, pattern.pma_, sizeof(pma_));
     return *this;
   }
   /// Assign a (new) pattern.
-- 
2.43.0


From 707451f0b78ccc0971a958664ebd328b9541c74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:10 +0000
Subject: [PATCH 060/127] fix: size() and reachable() of a Pattern that is
 assigned a new regex counted the subpatterns of the old regex

---
 include/reflex/pattern.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/reflex/pattern.h b/include/reflex/pattern.h
index 53ea4b1..1ac5df6 100644
--- a/include/reflex/pattern.h
+++ b/include/reflex/pattern.h
@@ -177,6 +177,8 @@ class Pattern {
   void clear()
   {
     rex_.clear();
+    end_.clear();
+    acc_.clear();
     if (nop_ > 0 && opc_ != NULL)
       delete[] opc_;
     opc_ = NULL;
-- 
2.43.0


From 032170819bee35367ca135ca287c81f388134d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:27 +0000
Subject: [PATCH 061/127] fix: assigning a regex to a Pattern that was compiled
 before used freed memory

---
 include/reflex/pattern.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/reflex/pattern.h b/include/reflex/pattern.h
index 1ac5df6..f0715db 100644
--- a/include/reflex/pattern.h
+++ b/include/reflex/pattern.h
@@ -176,6 +176,8 @@ class Pattern {
   /// Clear and delete pattern data.
   void clear()
   {
+    tfa_.clear();
+    dfa_.clear();
     rex_.clear();
     end_.clear();
     acc_.clear();
@@ -532,6 +534,8 @@ class Pattern {
       for (List::iterator i = list.begin(); i != list.end(); ++i)
         delete[] *i;
       list.clear();
+      tree = NULL;
+      next = ALLOC;
     }
     /// return the root of the tree.
     Node *root()
@@ -611,6 +615,7 @@ class Pattern {
       for (List::iterator i = list.begin(); i != list.end(); ++i)
         delete[] *i;
       list.clear();
+      next = ALLOC;
     }
     /// new DFA state with optional tree DFA node.
     State *state(Tree::Node *node)
-- 
2.43.0


From be89a040b09119ff130f1b6aaa5b8121fe8db452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:45 +0000
Subject: [PATCH 062/127] fix: an assigned matcher did not delete the pattern
 it owned

---
 include/reflex/absmatcher.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 6e35ed6..9e89322 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -1673,8 +1673,13 @@ class PatternMatcher : public AbstractMatcher {
     in = matcher.in;
     reset();
     opt_ = matcher.opt_;
-    pat_ = matcher.pat_,
-    own_ = false;
+    if (pat_ != matcher.pat_)
+    {
+      if (own_ && pat_ != NULL)
+        delete pat_;
+      pat_ = matcher.pat_;
+      own_ = false;
+    }
     return *this;
   }
   /// Set the pattern to use with this matcher as a shared pointer to another matcher pattern.
@@ -1826,8 +1831,13 @@ class PatternMatcher<std::string> : public AbstractMatcher {
     in = matcher.in;
     reset();
     opt_ = matcher.opt_;
-    pat_ = matcher.pat_,
-    own_ = false;
+    if (pat_ != matcher.pat_)
+    {
+      if (own_ && pat_ != NULL)
+        delete pat_;
+      pat_ = matcher.pat_;
+      own_ = false;
+    }
     return *this;
   }
   /// Set the pattern to use with this matcher as a shared pointer to another matcher pattern.
-- 
2.43.0


From b5a1b20cc7e9ac1f3d467ae82f2727498611b49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:45 +0000
Subject: [PATCH 063/127] fix: copies of a Matcher searched with uninitialized
 string search positions

---
 include/reflex/matcher.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index d32dc4d..5cd0b7d 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -105,6 +105,8 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
       tab_(matcher.tab_)
   {
     DBGLOG("Matcher::Matcher(matcher)");
+    lcp_ = matcher.lcp_;
+    lcs_ = matcher.lcs_;
     bmd_ = matcher.bmd_;
     if (bmd_ != 0)
       std::memcpy(bms_, matcher.bms_, sizeof(bms_));
@@ -115,6 +117,8 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
     PatternMatcher<reflex::Pattern>::operator=(matcher);
     ded_ = matcher.ded_;
     tab_ = matcher.tab_;
+    lcp_ = matcher.lcp_;
+    lcs_ = matcher.lcs_;
     bmd_ = matcher.bmd_;
     if (bmd_ != 0)
       std::memcpy(bms_, matcher.bms_, sizeof(bms_));
-- 
2.43.0


From a42e3448445f91c7957c7f10c92339de847dc407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:45 +0000
Subject: [PATCH 064/127] fix: a Matcher given another pattern searched with
 the string search tables of the previous pattern

---
 include/reflex/matcher.h | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index 5cd0b7d..78c67c2 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -138,6 +138,43 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
     tab_.resize(0);
     bmd_ = 0;
   }
+  using PatternMatcher<reflex::Pattern>::pattern;
+  /// Set the pattern to use with this matcher as a shared pointer to another matcher pattern.
+  virtual PatternMatcher<reflex::Pattern>& pattern(const PatternMatcher<reflex::Pattern>& matcher) ///< the other matcher
+    /// @returns this matcher
+  {
+    return PatternMatcher<reflex::Pattern>::pattern(matcher);
+  }
+  /// Set the pattern to use with this matcher (the given pattern is shared and must be persistent).
+  virtual PatternMatcher<reflex::Pattern>& pattern(const Pattern& pattern) ///< pattern object for this matcher
+    /// @returns this matcher
+  {
+    if (pat_ != &pattern)
+      bmd_ = 0; // the string search tables are for the previous pattern
+    return PatternMatcher<reflex::Pattern>::pattern(pattern);
+  }
+  /// Set the pattern to use with this matcher (the given pattern is shared and must be persistent).
+  virtual PatternMatcher<reflex::Pattern>& pattern(const Pattern *pattern) ///< pattern object for this matcher
+    /// @returns this matcher
+  {
+    if (pat_ != pattern)
+      bmd_ = 0; // the string search tables are for the previous pattern
+    return PatternMatcher<reflex::Pattern>::pattern(pattern);
+  }
+  /// Set the pattern from a regex string to use with this matcher.
+  virtual PatternMatcher<reflex::Pattern>& pattern(const char *pattern) ///< regex string to instantiate internal pattern object
+    /// @returns this matcher
+  {
+    bmd_ = 0; // the string search tables are for the previous pattern
+    return PatternMatcher<reflex::Pattern>::pattern(pattern);
+  }
+  /// Set the pattern from a regex string to use with this matcher.
+  virtual PatternMatcher<reflex::Pattern>& pattern(const std::string& pattern) ///< regex string to instantiate internal pattern object
+    /// @returns this matcher
+  {
+    bmd_ = 0; // the string search tables are for the previous pattern
+    return PatternMatcher<reflex::Pattern>::pattern(pattern);
+  }
   /// Returns captured text as a std::pair<const char*,size_t> with string pointer (non-0-terminated) and length.
   virtual std::pair<const char*,size_t> operator[](size_t n) const
   {
-- 
2.43.0


From 47d7a7e270dbc5dfb16bf456444e1424e9efedc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:02 +0000
Subject: [PATCH 065/127] fix: a matcher deleted its pattern before a new one
 was made from it, or twice when the new one was not valid

---
 include/reflex/absmatcher.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 9e89322..f6ff330 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -1722,9 +1722,10 @@ class PatternMatcher : public AbstractMatcher {
     /// @returns this matcher
   {
     DBGLOG("PatternMatcher::pattern(\"%s\")", pattern);
+    const Pattern *new_pattern = new Pattern(pattern); // may throw, or copy from the pattern that is deleted next
     if (own_ && pat_ != NULL)
       delete pat_;
-    pat_ = new Pattern(pattern);
+    pat_ = new_pattern;
     own_ = true;
     return *this;
   }
@@ -1733,9 +1734,10 @@ class PatternMatcher : public AbstractMatcher {
     /// @returns this matcher
   {
     DBGLOG("PatternMatcher::pattern(\"%s\")", pattern.c_str());
+    const Pattern *new_pattern = new Pattern(pattern); // may throw, or copy from the pattern that is deleted next
     if (own_ && pat_ != NULL)
       delete pat_;
-    pat_ = new Pattern(pattern);
+    pat_ = new_pattern;
     own_ = true;
     return *this;
   }
@@ -1866,9 +1868,10 @@ class PatternMatcher<std::string> : public AbstractMatcher {
     /// @returns this matcher
   {
     DBGLOG("Patternatcher::pattern(\"%s\")", pattern);
+    const Pattern *new_pattern = new Pattern(pattern); // may throw, or copy from the pattern that is deleted next
     if (own_ && pat_ != NULL)
       delete pat_;
-    pat_ = new Pattern(pattern);
+    pat_ = new_pattern;
     own_ = true;
     return *this;
   }
@@ -1877,9 +1880,10 @@ class PatternMatcher<std::string> : public AbstractMatcher {
     /// @returns this matcher
   {
     DBGLOG("Patternatcher::pattern(\"%s\")", pattern.c_str());
+    const Pattern *new_pattern = new Pattern(pattern); // may throw, or copy from the pattern that is deleted next
     if (own_ && pat_ != NULL)
       delete pat_;
-    pat_ = new Pattern(pattern);
+    pat_ = new_pattern;
     own_ = true;
     return *this;
   }
-- 
2.43.0


From d0e22ca92740a6cb82164a1eae4373ff974ac733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:16 +0000
Subject: [PATCH 066/127] fix: PCRE2Matcher crashed when copied without a
 pattern and when assigned to itself

---
 include/reflex/pcre2matcher.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/reflex/pcre2matcher.h b/include/reflex/pcre2matcher.h
index 4581958..af836e3 100644
--- a/include/reflex/pcre2matcher.h
+++ b/include/reflex/pcre2matcher.h
@@ -113,13 +113,16 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
     reset();
     cop_ = matcher.cop_;
     flg_ = matcher.flg_;
+    if (matcher.opc_ != NULL)
+    {
 #ifdef pcre2_code_copy_with_tables
-    opc_ = pcre2_code_copy_with_tables(matcher.opc_);
-    dat_ = pcre2_match_data_create_from_pattern(opc_, NULL);
-    jit_ = pcre2_jit_compile(opc_, PCRE2_JIT_COMPLETE | PCRE2_JIT_PARTIAL_HARD) == 0 && pcre2_pattern_info(opc_, PCRE2_INFO_JITSIZE, NULL) != 0;
+      opc_ = pcre2_code_copy_with_tables(matcher.opc_);
+      dat_ = pcre2_match_data_create_from_pattern(opc_, NULL);
+      jit_ = pcre2_jit_compile(opc_, PCRE2_JIT_COMPLETE | PCRE2_JIT_PARTIAL_HARD) == 0 && pcre2_pattern_info(opc_, PCRE2_INFO_JITSIZE, NULL) != 0;
 #else
-    compile();
+      compile();
 #endif
+    }
   }
   /// Delete matcher.
   virtual ~PCRE2Matcher()
@@ -137,7 +140,8 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
   PCRE2Matcher& operator=(const PCRE2Matcher& matcher) ///< matcher to copy
   {
     PatternMatcher<std::string>::operator=(matcher);
-    pattern(matcher);
+    if (this != &matcher && matcher.has_pattern())
+      pattern(matcher);
     return *this;
   }
   /// Polymorphic cloning.
@@ -165,8 +169,10 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
   virtual PatternMatcher& pattern(const PCRE2Matcher& matcher) ///< the other matcher
     /// @returns this matcher.
   {
-    PatternMatcher<std::string>::pattern(matcher);
+    if (this == &matcher)
+      return *this;
     cop_ = matcher.cop_;
+    PatternMatcher<std::string>::pattern(matcher);
     flg_ = matcher.flg_;
 #ifdef pcre2_code_copy_with_tables
     if (dat_ != NULL)
-- 
2.43.0


From 17b2a29459a854559f9239ed5f86565e53868284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:16 +0000
Subject: [PATCH 067/127] fix: PCRE2, Boost and std matchers constructed
 without a pattern did not have the match options of their class

---
 include/reflex/boostmatcher.h | 8 ++++++--
 include/reflex/pcre2matcher.h | 8 ++++++--
 include/reflex/stdmatcher.h   | 2 +-
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/reflex/boostmatcher.h b/include/reflex/boostmatcher.h
index b8fa915..30c249c 100644
--- a/include/reflex/boostmatcher.h
+++ b/include/reflex/boostmatcher.h
@@ -374,7 +374,9 @@ class BoostPosixMatcher : public BoostMatcher {
   }
   /// Default constructor.
   BoostPosixMatcher() : BoostMatcher()
-  { }
+  {
+    flg_ |= boost::regex_constants::match_posix;
+  }
   /// Construct a POSIX matcher engine from a boost::regex pattern and an input character sequence.
   template<typename P>
   BoostPosixMatcher(
@@ -407,7 +409,9 @@ class BoostPerlMatcher : public BoostMatcher {
  public:
   /// Default constructor.
   BoostPerlMatcher() : BoostMatcher()
-  { }
+  {
+    flg_ |= boost::regex_constants::match_perl;
+  }
   /// Construct a Perl matcher engine from a boost::regex pattern and an input character sequence.
   template<typename P>
   BoostPerlMatcher(
diff --git a/include/reflex/pcre2matcher.h b/include/reflex/pcre2matcher.h
index af836e3..20eafa3 100644
--- a/include/reflex/pcre2matcher.h
+++ b/include/reflex/pcre2matcher.h
@@ -56,10 +56,12 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
   PCRE2Matcher()
     :
       PatternMatcher<std::string>(),
+      cop_(0),
       opc_(NULL),
       dat_(NULL),
       ctx_(NULL),
-      stk_(NULL)
+      stk_(NULL),
+      jit_(false)
   {
     reset();
   }
@@ -466,7 +468,9 @@ class PCRE2UTFMatcher : public PCRE2Matcher {
   }
   /// Default constructor.
   PCRE2UTFMatcher() : PCRE2Matcher()
-  { }
+  {
+    cop_ = PCRE2_UTF | PCRE2_UCP;
+  }
   /// Construct matcher engine from a string regex, and an input character sequence.
   template<typename P> /// @tparam <P> pattern is a string regex
   PCRE2UTFMatcher(
diff --git a/include/reflex/stdmatcher.h b/include/reflex/stdmatcher.h
index e2bc303..7adcd7d 100644
--- a/include/reflex/stdmatcher.h
+++ b/include/reflex/stdmatcher.h
@@ -52,7 +52,7 @@ class StdMatcher : public PatternMatcher<std::regex> {
     return reflex::convert(regex, "!=:bcdfnrstvwxBDSW?", flags);
   }
   /// Default constructor.
-  StdMatcher() : PatternMatcher<std::regex>()
+  StdMatcher() : PatternMatcher<std::regex>(), flg_()
   {
     reset();
   }
-- 
2.43.0


From 48f83b3b4d997664f6721f90e97578577b7d6928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:59 +0000
Subject: [PATCH 068/127] fix: group_next_id() of the Boost and std matchers
 never ended the groups with (0,NULL)

---
 include/reflex/boostmatcher.h | 2 +-
 include/reflex/stdmatcher.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/reflex/boostmatcher.h b/include/reflex/boostmatcher.h
index 30c249c..b41fc38 100644
--- a/include/reflex/boostmatcher.h
+++ b/include/reflex/boostmatcher.h
@@ -180,7 +180,7 @@ class BoostMatcher : public PatternMatcher<boost::regex> {
         break;
     if (grp_ < n)
       return std::pair<size_t,const char*>(grp_, static_cast<const char*>(NULL)); // cast to appease MSVC 2010
-    return std::pair<size_t,const char*>(1, static_cast<const char*>(NULL)); // cast to appease MSVC 2010
+    return std::pair<size_t,const char*>(0, static_cast<const char*>(NULL)); // cast to appease MSVC 2010
   }
  protected:
   /// The match method Const::SCAN, Const::FIND, Const::SPLIT, or Const::MATCH, implemented with boost::regex.
diff --git a/include/reflex/stdmatcher.h b/include/reflex/stdmatcher.h
index 7adcd7d..08601ad 100644
--- a/include/reflex/stdmatcher.h
+++ b/include/reflex/stdmatcher.h
@@ -179,7 +179,7 @@ class StdMatcher : public PatternMatcher<std::regex> {
         break;
     if (grp_ < n)
       return std::pair<size_t,const char*>(grp_, static_cast<const char*>(NULL)); // cast to appease MSVC 2010
-    return std::pair<size_t,const char*>(1, static_cast<const char*>(NULL)); // cast to appease MSVC 2010
+    return std::pair<size_t,const char*>(0, static_cast<const char*>(NULL)); // cast to appease MSVC 2010
   }
  protected:
   /// The match method Const::SCAN, Const::FIND, Const::SPLIT, or Const::MATCH, implemented with std::regex.
-- 
2.43.0


From e91c0c730843a0de9dc3f7a60c881adf47bb5cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:16 +0000
Subject: [PATCH 069/127] fix: matches() returned 1 instead of the capture
 index

---
 include/reflex/absmatcher.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index f6ff330..12bafb3 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -389,7 +389,7 @@ class AbstractMatcher {
     num_ = 0;
     own_ = true;
     eof_ = false;
-    mat_ = false;
+    mat_ = 0;
   }
   /// Set buffer block size for reading: use 0 (or omit argument) to buffer all input in which case returns true if all the data could be read and false if a read error occurred.
   bool buffer(size_t blk = 0) ///< new block size between 1 and Const::BLOCK, or 0 to buffer all input (default)
@@ -522,7 +522,7 @@ class AbstractMatcher {
       num_ = 0;
       own_ = false;
       eof_ = true;
-      mat_ = false;
+      mat_ = 0;
     }
     return *this;
   }
@@ -532,7 +532,11 @@ class AbstractMatcher {
     /// @returns nonzero capture index (i.e. true) if the entire input matched this matcher's pattern, zero (i.e. false) otherwise
   {
     if (!mat_ && at_bob())
-      mat_ = match(Const::MATCH) && at_end();
+    {
+      mat_ = match(Const::MATCH);
+      if (!at_end())
+        mat_ = 0;
+    }
     return mat_;
   }
   /// Returns a positive integer (true) indicating the capture index of the matched text in the pattern or zero (false) for a mismatch.
@@ -1640,7 +1644,7 @@ class AbstractMatcher {
   size_t    num_; ///< character count of the input till bol_
   bool      own_; ///< true if AbstractMatcher::buf_ was allocated and should be deleted
   bool      eof_; ///< input has reached EOF
-  bool      mat_; ///< true if AbstractMatcher::matches() was successful
+  size_t    mat_; ///< nonzero capture index if AbstractMatcher::matches() was successful
 };
 
 /// The pattern matcher class template extends abstract matcher base class.
-- 
2.43.0


From 0461ca91c6b06d58320933eed938955d4600e663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:10 +0000
Subject: [PATCH 070/127] fix: PCRE2UTFMatcher did not match a character of
 which the UTF-8 sequence was read in part, split at empty matches inside
 UTF-8 sequences

---
 include/reflex/pcre2matcher.h | 49 +++++++++++++++++++++++++++++++----
 1 file changed, 44 insertions(+), 5 deletions(-)

diff --git a/include/reflex/pcre2matcher.h b/include/reflex/pcre2matcher.h
index 20eafa3..e41fd78 100644
--- a/include/reflex/pcre2matcher.h
+++ b/include/reflex/pcre2matcher.h
@@ -373,6 +373,7 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
   {
     if (pos_ == end_ && !eof_)
       (void)peek_more();
+    bool utf = utf_mode();
     uint32_t flg = flg_;
     if (!eof_)
       flg |= PCRE2_PARTIAL_HARD;
@@ -385,11 +386,25 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
     while (true)
     {
       DBGLOGN("pcre2_match() pos = %zu end = %zu", pos_, end_);
+      size_t end = end_;
+      while (utf && !eof_)
+      {
+        size_t rest = utf_incomplete(); // a UTF-8 sequence that is not completely read yet cannot be matched
+        end = end_ - rest;
+        if (rest == 0 || pos_ < end)
+          break;
+        pos_ = end_;
+        (void)peek_more(); // read more text into the buffer after end_
+        pos_ -= rest;
+        end = end_;
+      }
+      if (eof_)
+        flg &= ~PCRE2_PARTIAL_HARD; // all remaining data read into the buffer, no more partial matching
       int rc;
       if (jit_ && !(flg & PCRE2_ANCHORED))
-        rc = pcre2_jit_match(opc_, reinterpret_cast<PCRE2_SPTR>(buf_), end_, pos_, flg, dat_, ctx_);
+        rc = pcre2_jit_match(opc_, reinterpret_cast<PCRE2_SPTR>(buf_), end, pos_, flg, dat_, ctx_);
       else
-        rc = pcre2_match(opc_, reinterpret_cast<PCRE2_SPTR>(buf_), end_, pos_, flg, dat_, ctx_);
+        rc = pcre2_match(opc_, reinterpret_cast<PCRE2_SPTR>(buf_), end, pos_, flg, dat_, ctx_);
       if (rc > 0)
       {
         PCRE2_SIZE *ovector = pcre2_get_ovector_pointer(dat_);
@@ -426,13 +441,17 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
             return false;
           flg &= ~(PCRE2_NOTEMPTY_ATSTART | PCRE2_ANCHORED);
           ++pos_;
+          while (utf && pos_ < end_ && (buf_[pos_] & 0xC0) == 0x80)
+            ++pos_; // advance to the next character
           continue;
         }
+        size_t rest = end_ - end;
         if (method == Const::FIND)
-          txt_ = buf_ + end_;
+          txt_ = buf_ + end;
         pos_ = end_;
         if (peek_more() == EOF) // read more text into the buffer after end_
           return false;
+        pos_ -= rest; // back to the UTF-8 sequence that was not completely read
       }
       else
       {
@@ -443,8 +462,6 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
 #endif
         return false;
       }
-      if (eof_)
-        flg &= ~PCRE2_PARTIAL_HARD; // all remaining data read into the buffer, no more partial matching
     }
   }
   uint32_t             cop_; ///< PCRE2 compiled options
@@ -453,6 +470,28 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
   pcre2_match_data    *dat_; ///< PCRE2 match data
   pcre2_match_context *ctx_; ///< PCRE2 match context;
   pcre2_jit_stack     *stk_; ///< PCRE2 jit match stack
+  /// Returns true if the pattern is compiled in UTF mode.
+  bool utf_mode()
+    /// @returns true if the pattern is compiled with PCRE2_UTF or starts with (*UTF)
+    const
+  {
+    uint32_t options = 0;
+    return opc_ != NULL && pcre2_pattern_info(opc_, PCRE2_INFO_ALLOPTIONS, &options) == 0 && (options & PCRE2_UTF) != 0;
+  }
+  /// Returns the number of bytes at the end of the buffered input that begin a UTF-8 sequence that is not completely read.
+  size_t utf_incomplete()
+    /// @returns 0 to 3
+    const
+  {
+    size_t n = 0;
+    while (n < 4 && pos_ + n < end_)
+    {
+      unsigned char c = static_cast<unsigned char>(buf_[end_ - ++n]);
+      if ((c & 0xC0) != 0x80)
+        return (c >= 0xF0 && n < 4) || (c >= 0xE0 && n < 3) || (c >= 0xC0 && n < 2) ? n : 0;
+    }
+    return 0;
+  }
   PCRE2_SIZE           grp_; ///< last index for group_next_id()
   bool                 jit_; ///< true if jit-compiled PCRE2 code
 };
-- 
2.43.0


From 50b535d21d2d66584f02dda277bc05ffa6dda4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:27 +0000
Subject: [PATCH 071/127] fix: BoostMatcher lost matches in the last partial
 match of the input, Boost and std matchers lost the last match when the
 buffer was full at the end of the input

---
 include/reflex/boostmatcher.h | 14 ++++++++++++++
 include/reflex/stdmatcher.h   | 16 ++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/include/reflex/boostmatcher.h b/include/reflex/boostmatcher.h
index b41fc38..063ca63 100644
--- a/include/reflex/boostmatcher.h
+++ b/include/reflex/boostmatcher.h
@@ -197,6 +197,8 @@ class BoostMatcher : public PatternMatcher<boost::regex> {
       {
         DBGLOGN("Continue iterating, pos = %zu", pos_);
         ++itr_;
+        if (itr_ != fin_ && eof_ && !(*itr_)[0].matched) // no partial match at the end of the input
+          itr_ = fin_;
         if (itr_ != fin_) // set pos_ to last of the (partial) match
           pos_ = (*itr_)[0].second - buf_;
       }
@@ -209,10 +211,20 @@ class BoostMatcher : public PatternMatcher<boost::regex> {
     {
       if (pos_ == end_ && !eof_)
       {
+        bool renew = itr_ != fin_ && !(*itr_)[0].matched;
         if (end_ + blk_ + 1 >= max_ && grow()) // make sure we have enough storage to read input
+        {
+          renew = renew || itr_ != fin_;
           itr_ = fin_; // buffer shifting/growing invalidates iterator
+        }
         (void)peek_more();
         DBGLOGN("Got more input pos = %zu end = %zu max = %zu", pos_, end_, max_);
+        if (renew && pos_ == end_) // at the end of the input the match is lost or was partial
+        {
+          itr_ = fin_;
+          pos_ = cur_;
+          continue; // find the match again
+        }
       }
       if (pos_ == end_) // if pos_ is hitting the end_ then
       {
@@ -338,6 +350,8 @@ class BoostMatcher : public PatternMatcher<boost::regex> {
   {
     DBGLOGN("New iterator");
     boost::match_flag_type flg = flg_;
+    if (eof_)
+      flg &= ~boost::regex_constants::match_partial;
     if (!at_bob())
       flg |= boost::regex_constants::match_not_bob;
     if (!at_bol())
diff --git a/include/reflex/stdmatcher.h b/include/reflex/stdmatcher.h
index 08601ad..06a338d 100644
--- a/include/reflex/stdmatcher.h
+++ b/include/reflex/stdmatcher.h
@@ -223,10 +223,26 @@ class StdMatcher : public PatternMatcher<std::regex> {
     {
       if (pos_ == end_ && !eof_)
       {
+        bool renew = false;
         if (end_ + blk_ + 1 >= max_ && grow()) // make sure we have enough storage to read input
+        {
+          renew = itr_ != fin_;
           itr_ = fin_; // buffer shifting/growing invalidates iterator
+        }
         (void)peek_more();
         DBGLOGN("Got more input pos = %zu end = %zu max = %zu", pos_, end_, max_);
+        if (renew && pos_ == end_) // at the end of the input the match is lost
+        {
+          new_itr(method); // find the match again
+          if (itr_ != fin_)
+          {
+            if ((*itr_)[0].second == buf_ + cur_ && !at_bob()) // match is at same pos as previous
+              ++itr_; // advance to next match
+            if (itr_ != fin_)
+              pos_ = (*itr_)[0].second - buf_;
+          }
+          continue;
+        }
       }
       if (pos_ == end_) // if pos_ is hitting the end_ then
       {
-- 
2.43.0


From 19019e56c2a2a0356b050c82679445b26133f0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:42 +0000
Subject: [PATCH 072/127] fix: find() with option N of Boost and std matchers
 skipped the last character in the buffer after an empty match

---
 include/reflex/boostmatcher.h | 2 --
 include/reflex/stdmatcher.h   | 2 --
 2 files changed, 4 deletions(-)

diff --git a/include/reflex/boostmatcher.h b/include/reflex/boostmatcher.h
index 063ca63..467ba38 100644
--- a/include/reflex/boostmatcher.h
+++ b/include/reflex/boostmatcher.h
@@ -338,8 +338,6 @@ class BoostMatcher : public PatternMatcher<boost::regex> {
       continue; // set cap_ to the capture group index
     set_current(pos_);
     len_ = cur_ - (txt_ - buf_); // size() spans txt_ to cur_ in buf_[]
-    if (len_ == 0 && cap_ != 0 && opt_.N && pos_ + 1 == end_)
-      set_current(end_);
     DBGLOGN("Accept: act = %zu txt = '%s' len = %zu", cap_, txt_, len_);
     DBGCHK(len_ != 0 || method == Const::MATCH || (method == Const::FIND && opt_.N));
     DBGLOG("END BoostMatcher::match()");
diff --git a/include/reflex/stdmatcher.h b/include/reflex/stdmatcher.h
index 06a338d..6494094 100644
--- a/include/reflex/stdmatcher.h
+++ b/include/reflex/stdmatcher.h
@@ -349,8 +349,6 @@ class StdMatcher : public PatternMatcher<std::regex> {
       continue; // set cap_ to the capture group index
     set_current(pos_);
     len_ = cur_ - (txt_ - buf_); // size() spans txt_ to cur_ in buf_[]
-    if (len_ == 0 && cap_ != 0 && opt_.N && pos_ + 1 == end_)
-      set_current(end_);
     if (len_ == 0 && (method == Const::SCAN || (method == Const::FIND && !opt_.N))) // work around std::regex match_not_null bug
       return 0;
     DBGLOGN("Accept: act = %zu txt = '%s' len = %zu", cap_, txt_, len_);
-- 
2.43.0


From 0a4622c101f38cd17b2462da65886998b31b002b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:51 +0000
Subject: [PATCH 073/127] fix: <<EOF>> rules were ignored with option --find

---
 src/reflex.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/reflex.cpp b/src/reflex.cpp
index 65ef86a..7971914 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -2944,8 +2944,26 @@ void Reflex::write_lexer()
           "        switch (matcher().find())\n";
       *out <<
         "        {\n"
-        "          case 0:\n"
-        "            return " << token_eof << ";\n";
+        "          case 0:\n";
+      bool has_eof = false;
+      for (Rules::const_iterator rule = rules[start].begin(); rule != rules[start].end(); ++rule)
+      {
+        if (rule->regex == "<<EOF>>")
+        {
+          write_code(rule->code);
+          has_eof = true;
+          break;
+        }
+      }
+      if (!has_eof)
+        *out <<
+          "            return " << token_eof << ";\n";
+      else if (!options["flex"].empty())
+        *out <<
+          "            YY_BREAK\n";
+      else
+        *out <<
+          "            break;\n";
     }
     else
     {
-- 
2.43.0


From 5ccf9a8fe97b5b53e3fd0251c827fbb1f75c5c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:17 +0000
Subject: [PATCH 074/127] fix: rules after a <<EOF>> rule that shares its
 action with the rule before it ran the wrong action

---
 src/reflex.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reflex.cpp b/src/reflex.cpp
index 7971914..bd70c75 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -3106,7 +3106,8 @@ void Reflex::write_lexer()
             *out <<
               "            break;\n";
         }
-        ++accept;
+        if (!eof_rule)
+          ++accept;
       }
     }
     *out <<
-- 
2.43.0


From a0a7e51010d8905e3c62363b6a507c78379a0958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:49 +0000
Subject: [PATCH 075/127] fix: \k matched when the indent depth did not change
 and overruled \j of the opcode table

---
 include/reflex/matcher.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index 78c67c2..2a1441b 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -596,14 +596,17 @@ redo:
                   continue;
                 case Pattern::META_UND - Pattern::META_MIN:
                   DBGLOG("UND");
-                  if (mrk_)
+                  if (jump == Pattern::Const::IMAX)
                   {
-                    jump = Pattern::index_of(opcode);
-                    if (jump == Pattern::Const::LONG)
-                      jump = Pattern::long_index_of(*++pc);
+                    if (mrk_ && !nodent())
+                    {
+                      jump = Pattern::index_of(opcode);
+                      if (jump == Pattern::Const::LONG)
+                        jump = Pattern::long_index_of(*++pc);
+                    }
+                    mrk_ = false;
+                    ded_ = 0;
                   }
-                  mrk_ = false;
-                  ded_ = 0;
                   opcode = *++pc;
                   continue;
 #endif
@@ -989,11 +992,10 @@ unrolled:
     newline();
     return !tab_.empty() && tab_.back() > col_;
   }
-  /// Returns true if nodent.
+  /// Returns true if nodent, at the margin column that was last checked for an indent or dedent.
   inline bool nodent()
     /// @returns true if nodent
   {
-    newline();
     return (col_ <= 0 || (!tab_.empty() && tab_.back() >= col_)) && (tab_.empty() || tab_.back() <= col_);
   }
 #endif
-- 
2.43.0


From df80f98600fda794c671aac065b9fc6ef7a4d6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:15 +0000
Subject: [PATCH 076/127] fix: the regex compiler read beyond the end of a
 regex that is cut off, and reported errors beyond its end

---
 include/reflex/pattern.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/pattern.h b/include/reflex/pattern.h
index f0715db..13bdb1c 100644
--- a/include/reflex/pattern.h
+++ b/include/reflex/pattern.h
@@ -801,7 +801,7 @@ class Pattern {
   }
   Char at(Location k) const
   {
-    return static_cast<unsigned char>(rex_[k]);
+    return k < rex_.size() ? static_cast<unsigned char>(rex_[k]) : '\0';
   }
   bool eq_at(
       Location    loc,
-- 
2.43.0


From 5b169a5da524a61b02377f65077fdd704f5b8bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:33 +0000
Subject: [PATCH 077/127] fix: a regex with a repeated anchor, e.g. ($|a)*b,
 matched in an endless loop

---
 include/reflex/pattern.h |  1 +
 lib/pattern.cpp          | 13 +++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/include/reflex/pattern.h b/include/reflex/pattern.h
index 13bdb1c..b110240 100644
--- a/include/reflex/pattern.h
+++ b/include/reflex/pattern.h
@@ -752,6 +752,7 @@ class Pattern {
   void greedy(Positions& pos) const;
   void trim_anchors(Positions& follow, const Position p) const;
   void trim_lazy(Positions *pos) const;
+  bool anchors_lead_to(const DFA::State *from, const DFA::State *to) const;
   void compile_transition(
       DFA::State *state,
       Follow&     followpos,
diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 58c8bed..db081a2 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -1479,6 +1479,9 @@ void Pattern::compile(
         }
         Char lo = i->first.lo();
         Char max = i->first.hi();
+        // anchors do not consume input, skip a transition that makes a cycle of anchors, e.g. ($|a)*b
+        if (is_meta(lo) && anchors_lead_to(target_state, state))
+          continue;
 #ifdef DEBUG
         DBGLOGN("from state %p on %02x-%02x move to {", state, lo, max);
         for (Positions::const_iterator p = pos.begin(); p != pos.end(); ++p)
@@ -1595,6 +1598,16 @@ void Pattern::trim_anchors(Positions& follow, const Position p) const
 #endif
 }
 
+bool Pattern::anchors_lead_to(const DFA::State *from, const DFA::State *to) const
+{
+  if (from == to)
+    return true;
+  for (DFA::State::Edges::const_iterator i = from->edges.begin(); i != from->edges.end(); ++i)
+    if (is_meta(i->first) && anchors_lead_to(i->second.second, to))
+      return true;
+  return false;
+}
+
 void Pattern::trim_lazy(Positions *pos) const
 {
 #ifdef DEBUG
-- 
2.43.0


From 5d55b552da60f57739c893c28deedce13d9a8db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:09 +0000
Subject: [PATCH 078/127] fix: a backslash and \Q at the end of a regex matched
 other characters instead of being rejected, escaped NUL matched another
 character

---
 lib/pattern.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index db081a2..43b7a75 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -389,6 +389,11 @@ void Pattern::parse(
             while ((c = at(++end)) != '\0')
               if (c == opt_.e && at(end + 1) == 'E')
                 break;
+            if (c == '\0')
+            {
+              end = loc;
+              break;
+            }
           }
         }
         ++end;
@@ -1150,7 +1155,11 @@ void Pattern::parse4(
 Pattern::Char Pattern::parse_esc(Location& loc, Chars *chars) const
 {
   Char c = at(++loc);
-  if (c == '0')
+  if (loc >= rex_.size())
+  {
+    error(regex_error::invalid_escape, loc);
+  }
+  else if (c == '0')
   {
     c = 0;
     int d = at(++loc);
@@ -1204,7 +1213,10 @@ Pattern::Char Pattern::parse_esc(Location& loc, Chars *chars) const
   else if (c == 'c')
   {
     c = at(++loc) % 32;
-    ++loc;
+    if (loc < rex_.size())
+      ++loc;
+    else
+      error(regex_error::invalid_escape, loc);
   }
   else if (c == 'e')
   {
@@ -1262,7 +1274,7 @@ Pattern::Char Pattern::parse_esc(Location& loc, Chars *chars) const
   else if (c != '_')
   {
     static const char abtnvfr[] = "abtnvfr";
-    const char *s = std::strchr(abtnvfr, c);
+    const char *s = c != '\0' ? std::strchr(abtnvfr, c) : NULL;
     if (s != NULL)
     {
       c = static_cast<Char>(s - abtnvfr + '\a');
@@ -1270,7 +1282,7 @@ Pattern::Char Pattern::parse_esc(Location& loc, Chars *chars) const
     else
     {
       static const char escapes[] = "__sSxX________hHdD__lL__uUwW";
-      s = std::strchr(escapes, c);
+      s = c != '\0' ? std::strchr(escapes, c) : NULL;
       if (s != NULL)
       {
         if (chars != NULL)
-- 
2.43.0


From 5fa12783e52b4512a1ce8c68388a826da3783c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:28 +0000
Subject: [PATCH 079/127] fix: (* at the end of a regex was reported beyond the
 end

---
 lib/convert.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index cba59ed..eb8a90a 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -1669,8 +1669,9 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
             pos += 2;
             while (pos < len && pattern[pos] != ')')
               ++pos;
-            if (pos < len)
-              --lev;
+            if (pos >= len)
+              throw regex_error(regex_error::mismatched_parens, pattern, pos);
+            --lev;
           }
           else
           {
-- 
2.43.0


From 1d91db0d4ae805c8363ad814bec7e77358113f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:28 +0000
Subject: [PATCH 080/127] fix: errors in a regex that is cut off were reported
 at a position beyond its end

---
 lib/pattern.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 43b7a75..ba341f5 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -154,7 +154,7 @@ const std::string Pattern::operator[](Accept choice) const
 
 void Pattern::error(regex_error_type code, size_t pos) const
 {
-  regex_error err(code, rex_, pos);
+  regex_error err(code, rex_, pos < rex_.size() ? pos : rex_.size());
   if (opt_.w)
     std::cerr << err.what();
   if (code == regex_error::exceeds_limits || opt_.r)
-- 
2.43.0


From 7a4b6191b73886e509bb627d6daa8bc66167073c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:47 +0000
Subject: [PATCH 081/127] fix: the converter skipped the character after a line
 continuation and added a NUL for one that ends the regex

---
 lib/convert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index eb8a90a..299ef58 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -1092,7 +1092,7 @@ static void convert_escape(const char *pattern, size_t len, size_t& loc, size_t&
       ++pos;
     while (pos < len && ((c = pattern[pos]) == ' ' || c == '\t'))
       ++pos;
-    loc = pos;
+    loc = pos--;
   }
   else if (c == 'c')
   {
-- 
2.43.0


From 30484c5dc3cbd8d9b3ea0de2ae39c74dca6f032c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:07 +0000
Subject: [PATCH 082/127] fix: upper bounds of repeats above 65535 were
 truncated, large nested repeats passed the limit check

---
 lib/pattern.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index ba341f5..e9a1246 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -773,9 +773,12 @@ void Pattern::parse3(
       {
         if (std::isdigit(at(loc + 1)))
         {
-          m = 0;
+          k = 0;
           for (Location i = 0; i < 7 && std::isdigit(c = at(++loc)); ++i)
-            m = 10 * m + (c - '0');
+            k = 10 * k + (c - '0');
+          if (k > Position::MAXITER)
+            error(regex_error::exceeds_limits, loc);
+          m = static_cast<Iter>(k);
         }
         else
         {
@@ -826,7 +829,7 @@ void Pattern::parse3(
         }
         else if (m > 0)
         {
-          if (iter * m > Position::MAXITER)
+          if (static_cast<size_t>(iter) * m > Position::MAXITER)
             error(regex_error::exceeds_limits, loc);
           // update followpos by virtually repeating sub-regex m-1 times
           Follow followpos1;
-- 
2.43.0


From c1b54d8db022b560c03d8fc9063d5342a97076d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:10 +0000
Subject: [PATCH 083/127] fix: yy_flex_debug could not be used in expressions

---
 include/reflex/flexlexer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/flexlexer.h b/include/reflex/flexlexer.h
index d4ef52c..4a2ba0d 100644
--- a/include/reflex/flexlexer.h
+++ b/include/reflex/flexlexer.h
@@ -335,7 +335,7 @@ int yywrap(void);
 #define yyless(n)               YY_SCANNER_DOT_ matcher().less(n)
 
 /// Flex-compatible macro: the debug flag.
-#define yy_flex_debug           YY_SCANNER_DOT_ debug_;
+#define yy_flex_debug           YY_SCANNER_DOT_ debug_
 
 ////////////////////////////////////////////////////////////////////////////////
 //                                                                            //
-- 
2.43.0


From 99e66ab5461c6090bcf539395d540d9bb0abd04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:10 +0000
Subject: [PATCH 084/127] fix: yywunput() did not compile

---
 include/reflex/flexlexer.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/reflex/flexlexer.h b/include/reflex/flexlexer.h
index 4a2ba0d..05abe5e 100644
--- a/include/reflex/flexlexer.h
+++ b/include/reflex/flexlexer.h
@@ -492,6 +492,11 @@ class FlexLexer : public AbstractLexer<M> {
   {
     this->matcher().wunput(c);
   }
+  /// Put back one wide character on the input character sequence for matching, invalidating the current match info and text.
+  inline void wunput(int c) ///< wide character to put back
+  {
+    this->matcher().wunput(c);
+  }
   /// Output one character.
   inline void output(char c) ///< 8-bit char to output via LexerOutput
   {
-- 
2.43.0


From c583f86e7031417faf3e6bb3fa139fa9ad639bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:10 +0000
Subject: [PATCH 085/127] fix: buffers created with yy_create_buffer() did not
 use yywrap() and LexerInput()

---
 include/reflex/flexlexer.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/reflex/flexlexer.h b/include/reflex/flexlexer.h
index 05abe5e..d6b9db4 100644
--- a/include/reflex/flexlexer.h
+++ b/include/reflex/flexlexer.h
@@ -509,6 +509,15 @@ class FlexLexer : public AbstractLexer<M> {
     size_t n = utf8(c, buf);
     this->LexerOutput(buf, n);
   }
+  /// Returns a new copy of the matcher for the given input, that uses LexerInput() and yywrap() of this lexer.
+  virtual typename AbstractBaseLexer::Matcher *new_matcher(
+      const Input& input = Input(), ///< reflex::Input character sequence to match
+      const char *opt    = NULL)    ///< options, if any
+    /// @returns pointer to new reflex::FlexLexer::Matcher
+  {
+    char tabs[4] = "T=n";
+    return new Matcher(this->matcher().pattern(), input, this, opt ? opt : (tabs[2] = this->matcher().tabs() + '0', tabs));
+  }
   /// Switch input and output streams.
   virtual void switch_streams(
       const Input&  input = Input(), ///< new input to read from
-- 
2.43.0


From 8a2f2f76cb0ca3a874bc4f8daab9ca1c13ccc09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:13 +0000
Subject: [PATCH 086/127] fix: fuzzy split() dropped text when the engine had
 read ahead to the end of input

---
 fuzzy/fuzzymatcher.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fuzzy/fuzzymatcher.h b/fuzzy/fuzzymatcher.h
index e2590d6..a3930a7 100644
--- a/fuzzy/fuzzymatcher.h
+++ b/fuzzy/fuzzymatcher.h
@@ -885,7 +885,8 @@ unrolled:
       DBGLOG("Split: len = %zu cap = %zu cur = %zu pos = %zu end = %zu txt-buf = %zu eob = %d got = %d", len_, cap_, cur_, pos_, end_, txt_-buf_, (int)eof_, got_);
       if (cap_ == 0 || (cur_ == static_cast<size_t>(txt_ - buf_) && !at_bob()))
       {
-        if (!hit_end() && (txt_ + len_ < buf_ + end_ || peek() != EOF))
+        pos_ = cur_ = txt_ - buf_ + len_; // back to the end of the text split off so far
+        if (pos_ < end_ || peek() != EOF)
         {
           ++len_;
           DBGLOG("Split continue: len = %zu", len_);
@@ -902,6 +903,7 @@ unrolled:
         DBGLOG("END FuzzyMatcher::match()");
         return cap_;
       }
+      pos_ = cur_;
       if (cur_ == 0 && at_bob() && at_end())
       {
         cap_ = Const::EMPTY;
-- 
2.43.0


From a330a410e91aa2b08552ed614a6feba24bf58858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:13 +0000
Subject: [PATCH 087/127] fix: fuzzy find() gave up at the end of input after
 skipping ahead in a failed match attempt

---
 fuzzy/fuzzymatcher.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fuzzy/fuzzymatcher.h b/fuzzy/fuzzymatcher.h
index a3930a7..9b9b31c 100644
--- a/fuzzy/fuzzymatcher.h
+++ b/fuzzy/fuzzymatcher.h
@@ -921,13 +921,13 @@ unrolled:
     {
       if (method == Const::FIND)
       {
+        if (anc_)
+        {
+          cur_ = txt_ - buf_; // reset current to pattern start when a word boundary was encountered
+          anc_ = false;
+        }
         if (!at_end())
         {
-          if (anc_)
-          {
-            cur_ = txt_ - buf_; // reset current to pattern start when a word boundary was encountered
-            anc_ = false;
-          }
           // fuzzy search with find() can safely advance on a single prefix char of the regex
           if (pos_ > cur_)
           {
@@ -981,8 +981,8 @@ unrolled:
               }
             }
           }
-          txt_ = buf_ + cur_;
         }
+        txt_ = buf_ + cur_;
       }
       else
       {
-- 
2.43.0


From 5e76a345e5440333070535262228846747996d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:13 +0000
Subject: [PATCH 088/127] fix: word boundary anchors of fuzzy patterns looked
 at buffer contents beyond the end of input

---
 fuzzy/fuzzymatcher.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fuzzy/fuzzymatcher.h b/fuzzy/fuzzymatcher.h
index 9b9b31c..bc69532 100644
--- a/fuzzy/fuzzymatcher.h
+++ b/fuzzy/fuzzymatcher.h
@@ -525,7 +525,7 @@ redo:
                     DBGLOG("EWB? %d", at_eow());
                     anc_ = true;
                     if (jump == Pattern::Const::IMAX && isword(got_) &&
-                        !isword(static_cast<unsigned char>(method == Const::SPLIT ? txt_[len_] : *txt_)))
+                        !begins_word())
                     {
                       jump = Pattern::index_of(opcode);
                       if (jump == Pattern::Const::LONG)
@@ -537,7 +537,7 @@ redo:
                     DBGLOG("BWB? %d", at_bow());
                     anc_ = true;
                     if (jump == Pattern::Const::IMAX && !isword(got_) &&
-                        (opt_.W || isword(static_cast<unsigned char>(method == Const::SPLIT ? txt_[len_] : *txt_))))
+                        (opt_.W || begins_word()))
                     {
                       jump = Pattern::index_of(opcode);
                       if (jump == Pattern::Const::LONG)
@@ -560,7 +560,7 @@ redo:
                     DBGLOG("NWB? %d %d", at_bow(), at_eow());
                     anc_ = true;
                     if (jump == Pattern::Const::IMAX &&
-                        isword(got_) == isword(static_cast<unsigned char>(txt_[len_])))
+                        isword(got_) == begins_word())
                     {
                       jump = Pattern::index_of(opcode);
                       if (jump == Pattern::Const::LONG)
-- 
2.43.0


From b97b6dbb17d576b94fcc9311863d88a76a6f4254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:13 +0000
Subject: [PATCH 089/127] fix: \k of fuzzy patterns matched when the indent
 depth did not change and overruled \j

---
 fuzzy/fuzzymatcher.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/fuzzy/fuzzymatcher.h b/fuzzy/fuzzymatcher.h
index bc69532..f894c04 100644
--- a/fuzzy/fuzzymatcher.h
+++ b/fuzzy/fuzzymatcher.h
@@ -446,14 +446,17 @@ redo:
                     continue;
                   case Pattern::META_UND - Pattern::META_MIN:
                     DBGLOG("UND");
-                    if (mrk_)
+                    if (jump == Pattern::Const::IMAX)
                     {
-                      jump = Pattern::index_of(opcode);
-                      if (jump == Pattern::Const::LONG)
-                        jump = Pattern::long_index_of(*++pc);
+                      if (mrk_ && !nodent())
+                      {
+                        jump = Pattern::index_of(opcode);
+                        if (jump == Pattern::Const::LONG)
+                          jump = Pattern::long_index_of(*++pc);
+                      }
+                      mrk_ = false;
+                      ded_ = 0;
                     }
-                    mrk_ = false;
-                    ded_ = 0;
                     opcode = *++pc;
                     continue;
 #endif
-- 
2.43.0


From dbca47e78b743b3a62f2abfcffc22319c529d1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:13 +0000
Subject: [PATCH 090/127] fix: copies of fuzzy matchers allowed other edits,
 and wrote beyond the backtrack points when assigned from one with more edits

---
 fuzzy/fuzzymatcher.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fuzzy/fuzzymatcher.h b/fuzzy/fuzzymatcher.h
index f894c04..bf2f6ab 100644
--- a/fuzzy/fuzzymatcher.h
+++ b/fuzzy/fuzzymatcher.h
@@ -134,9 +134,9 @@ class FuzzyMatcher : public Matcher {
       Matcher(matcher),
       max_(matcher.max_),
       err_(0),
-      ins_(true),
-      del_(true),
-      sub_(true)
+      ins_(matcher.ins_),
+      del_(matcher.del_),
+      sub_(matcher.sub_)
   {
     DBGLOG("FuzzyMatcher::FuzzyMatcher(matcher)");
     bpt_.resize(max_);
@@ -150,6 +150,7 @@ class FuzzyMatcher : public Matcher {
     ins_ = matcher.ins_;
     del_ = matcher.del_;
     sub_ = matcher.sub_;
+    bpt_.resize(max_);
     return *this;
   }
   /// Polymorphic cloning.
-- 
2.43.0


From 7832f9bb4259c1b9d747de141a222c8f3a99b45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:57 +0000
Subject: [PATCH 091/127] fix: fuzzy matches() accepted texts with more edits
 than reported and with other kinds of edits than allowed, after a match of a
 part

---
 fuzzy/fuzzymatcher.h | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/fuzzy/fuzzymatcher.h b/fuzzy/fuzzymatcher.h
index bf2f6ab..643dbc3 100644
--- a/fuzzy/fuzzymatcher.h
+++ b/fuzzy/fuzzymatcher.h
@@ -669,19 +669,22 @@ unrolled:
           // exit fuzzy loop if fuzzy match succeeds till end of input
           if (cap_ > 0)
           {
-            if (c1 == EOF)
-              break;
-            while (err_ < max_)
+            // the rest of the input after the match are inserted chars, except NUL and LF
+            size_t pos = pos_;
+            uint8_t err = err_;
+            pos_ = cur_;
+            while (ins_ && err_ < max_)
             {
-              c1 = get();
-              if (c1 == EOF)
+              int c = peek();
+              if (c == EOF || c == '\0' || c == '\n')
                 break;
               // skip one (multibyte) char
-              if (c1 >= 0xC0)
+              ++pos_;
+              if (c >= 0xC0)
               {
-                int n = (c1 >= 0xE0) + (c1 >= 0xF0);
+                int n = (c >= 0xE0) + (c >= 0xF0);
                 while (n-- >= 0)
-                  if ((c1 = get()) == EOF)
+                  if (get() == EOF)
                     break;
               }
               ++err_;
@@ -692,6 +695,10 @@ unrolled:
               set_current(pos_);
               break;
             }
+            // continue to find another match that may include the rest of the input
+            cap_ = 0;
+            pos_ = pos;
+            err_ = err;
           }
         }
         else
-- 
2.43.0


From 03a2829bd722983e2c379722d5b75f1936161902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:57 +0000
Subject: [PATCH 092/127] fix: fuzzy matches with SUB but not DEL allowed
 missing characters

---
 fuzzy/fuzzymatcher.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fuzzy/fuzzymatcher.h b/fuzzy/fuzzymatcher.h
index 643dbc3..b06c913 100644
--- a/fuzzy/fuzzymatcher.h
+++ b/fuzzy/fuzzymatcher.h
@@ -281,8 +281,9 @@ class FuzzyMatcher : public Matcher {
           if ((c = get()) == EOF)
             break;
       }
-      bpt.sub = false;
-      bpt.pc1 += !bpt.alt;
+      // next an insertion, when a missing char is allowed
+      bpt.sub = !del_;
+      bpt.pc1 += !del_;
     }
     else
     {
-- 
2.43.0


From cdd066c894461c685712c4c16278f2229f61638d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:59 +0000
Subject: [PATCH 093/127] fix: second pass of fuzzy find() and split() lost or
 damaged text

---
 fuzzy/fuzzymatcher.h | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/fuzzy/fuzzymatcher.h b/fuzzy/fuzzymatcher.h
index b06c913..0787f2f 100644
--- a/fuzzy/fuzzymatcher.h
+++ b/fuzzy/fuzzymatcher.h
@@ -171,9 +171,9 @@ class FuzzyMatcher : public Matcher {
     SaveState(size_t ded)
       :
         use(false),
-        loc(0),
         cap(0),
         txt(0),
+        len(0),
         cur(0),
         pos(0),
         ded(ded),
@@ -181,9 +181,9 @@ class FuzzyMatcher : public Matcher {
         err(0)
     { }
     bool    use;
-    size_t  loc;
     size_t  cap;
     size_t  txt;
+    size_t  len;
     size_t  cur;
     size_t  pos;
     size_t  ded;
@@ -304,6 +304,7 @@ class FuzzyMatcher : public Matcher {
     anc_ = false; // no word boundary anchor found and applied
 scan:
     txt_ = buf_ + cur_;
+pass:
 #if !defined(WITH_NO_INDENT)
     mrk_ = false;
     ind_ = pos_; // ind scans input in buf[] in newline() up to pos - 1
@@ -782,9 +783,9 @@ unrolled:
     if (cap_ > 0 && err_ > 0 && !sst.use && (method == Const::FIND || method == Const::SPLIT))
     {
       // this part is based on advance() in matcher.cpp, limited to advancing ahead till the one of the first pattern char(s) match excluding \n
-      size_t loc = txt_ - buf_ + 1;
+      size_t loc = txt_ + len_ - buf_ + 1;
       const char *s = buf_ + loc;
-      const char *e = static_cast<const char*>(std::memchr(s, '\n', cur_ - loc));
+      const char *e = cur_ > loc ? static_cast<const char*>(std::memchr(s, '\n', cur_ - loc)) : NULL;
       if (e == NULL)
         e = buf_ + cur_;
       if (pat_->len_ == 0)
@@ -798,9 +799,9 @@ unrolled:
           {
             loc = s - buf_;
             sst.use = true;
-            sst.loc = loc;
             sst.cap = cap_;
             sst.txt = txt_ - buf_;
+            sst.len = len_;
             sst.cur = cur_;
             sst.pos = pos_;
             size_t tmp = ded_;
@@ -808,8 +809,10 @@ unrolled:
             sst.ded = tmp;
             sst.mrk = mrk_;
             sst.err = err_;
+            // keep the text of the match found in the buffer, match at the offset len_ in this text
+            len_ = loc - sst.txt;
             set_current(loc);
-            goto scan;
+            goto pass;
           }
         }
       }
@@ -820,9 +823,9 @@ unrolled:
         {
           loc = s - buf_;
           sst.use = true;
-          sst.loc = loc;
           sst.cap = cap_;
           sst.txt = txt_ - buf_;
+          sst.len = len_;
           sst.cur = cur_;
           sst.pos = pos_;
           size_t tmp = ded_;
@@ -830,29 +833,30 @@ unrolled:
           sst.ded = tmp;
           sst.mrk = mrk_;
           sst.err = err_;
+          // keep the text of the match found in the buffer, match at the offset len_ in this text
+          len_ = loc - sst.txt;
           set_current(loc);
-          goto scan;
+          goto pass;
         }
       }
     }
     else if (sst.use && (cap_ == 0 || err_ >= sst.err))
     {
       // if the buffer was shifted then cur_, pos_ and txt_ are no longer at the same location in the buffer, we must adjust for this
-      size_t loc = txt_ - buf_;
-      size_t shift = sst.loc - loc;
+      size_t shift = sst.txt - (txt_ - buf_);
       cap_ = sst.cap;
+      len_ = sst.len;
       cur_ = sst.cur - shift;
       pos_ = sst.pos - shift;
       ded_ = sst.ded;
       mrk_ = sst.mrk;
       err_ = sst.err;
-      txt_ = buf_ + sst.txt - shift;
     }
-    else if (sst.use && cap_ > 0 && method == Const::SPLIT)
+    else if (sst.use && cap_ > 0 && method == Const::FIND)
     {
-      size_t loc = txt_ - buf_;
-      size_t shift = sst.loc - loc;
-      len_ = loc - sst.txt + shift;
+      // found a better match after the begin of the text
+      txt_ += len_;
+      len_ = 0;
     }
 #if !defined(WITH_NO_INDENT)
     if (mrk_ && cap_ != Const::REDO)
-- 
2.43.0


From 514cbc86ecb7062f9c1a6762c97a8fc8e958d6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:47 +0000
Subject: [PATCH 094/127] fix: fuzzy matches without INS skipped a character of
 the text when a character is excluded by the pattern

---
 fuzzy/fuzzymatcher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fuzzy/fuzzymatcher.h b/fuzzy/fuzzymatcher.h
index 0787f2f..f0066d6 100644
--- a/fuzzy/fuzzymatcher.h
+++ b/fuzzy/fuzzymatcher.h
@@ -760,9 +760,9 @@ unrolled:
               }
               pc = pc0;
               DBGLOG("delete %c at pos %zu", c1, pos_ - 1);
+              continue;
             }
           }
-          else
           {
             // try insertion or substitution of pattern char
             pc = NULL;
-- 
2.43.0


From 039ec92421e2d5498d216abe20659448f2cd2f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:47 +0000
Subject: [PATCH 095/127] fix: fuzzy matches with DEL ended or continued in the
 middle of a multibyte character

---
 fuzzy/fuzzymatcher.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fuzzy/fuzzymatcher.h b/fuzzy/fuzzymatcher.h
index f0066d6..a6e5f04 100644
--- a/fuzzy/fuzzymatcher.h
+++ b/fuzzy/fuzzymatcher.h
@@ -268,6 +268,13 @@ class FuzzyMatcher : public Matcher {
       c1 = static_cast<unsigned char>(buf_[pos_ - 1]);
     else
       c1 = got_;
+    // do not insert a pattern char in the middle of a multibyte char of the text
+    if (!bpt.sub && c1 >= 0x80 && (peek() & 0xC0) == 0x80)
+    {
+      bpt.sub = bpt.alt;
+      ++bpt.pc1;
+      return backtrack(bpt, c1);
+    }
     // substitute or insert a pattern char in the text?
     if (bpt.sub)
     {
-- 
2.43.0


From 527ec6d2cde4507cda913ea865cae8e5caf2e01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:41 +0000
Subject: [PATCH 096/127] fix: edits of multibyte pattern characters were
 counted by the byte, missing ones were skipped at no cost

---
 fuzzy/fuzzymatcher.h | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/fuzzy/fuzzymatcher.h b/fuzzy/fuzzymatcher.h
index a6e5f04..fbedd0e 100644
--- a/fuzzy/fuzzymatcher.h
+++ b/fuzzy/fuzzymatcher.h
@@ -233,32 +233,25 @@ class FuzzyMatcher : public Matcher {
     Pattern::Index jump = Pattern::index_of(*bpt.pc1);
     // last opcode is a HALT?
     if (jump == Pattern::Const::HALT)
+      return bpt.pc1 = NULL;
+    if (jump == Pattern::Const::LONG)
+      jump = Pattern::long_index_of(bpt.pc1[1]);
+    // loop over the UTF-8 multibytes of the pattern char, checking linear case only (i.e. one wide char or a short range)
+    if (Pattern::lo_of(*bpt.pc1) >= 0xC0)
     {
-      if (!Pattern::is_opcode_goto(*bpt.pc0) || (Pattern::lo_of(*bpt.pc0) & 0xC0) != 0xC0)
-        return bpt.pc1 = NULL;
-      // loop over UTF-8 multibytes, checking linear case only (i.e. one wide char or a short range)
       for (int i = 0; i < 3; ++i)
       {
-        jump = Pattern::index_of(*bpt.pc0);
-        if (jump == Pattern::Const::HALT)
-          return bpt.pc1 = NULL;
-        if (jump == Pattern::Const::LONG)
-          jump = Pattern::long_index_of(bpt.pc0[1]);
-        const Pattern::Opcode *pc0 = pat_->opc_ + jump;
-        const Pattern::Opcode *pc1 = pc0;
-        while (!Pattern::is_opcode_goto(*pc1))
-          ++pc1;
-        if (!Pattern::is_opcode_goto(*pc1) || Pattern::is_meta(Pattern::lo_of(*pc1)) || (Pattern::lo_of(*pc1) & 0x80) != 0x80)
+        const Pattern::Opcode *pc = pat_->opc_ + jump;
+        while (!Pattern::is_opcode_goto(*pc))
+          ++pc;
+        if (Pattern::is_meta(Pattern::lo_of(*pc)) || (Pattern::lo_of(*pc) & 0xC0) != 0x80 || Pattern::index_of(*pc) == Pattern::Const::HALT)
           break;
-        bpt.pc0 = pc0;
-        bpt.pc1 = pc1;
+        jump = Pattern::index_of(*pc);
+        if (jump == Pattern::Const::LONG)
+          jump = Pattern::long_index_of(pc[1]);
+        DBGLOG("Multibyte jump to %u", jump);
       }
-      jump = Pattern::index_of(*bpt.pc1);
-      bpt.sub = bpt.alt;
-      DBGLOG("Multibyte jump to %u", jump);
     }
-    if (jump == Pattern::Const::LONG)
-      jump = Pattern::long_index_of(bpt.pc1[1]);
     // restore errors
     err_ = bpt.err;
     // restore pos in the input
-- 
2.43.0


From a3256be975e7f3b263368cd1356d995aa746182c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:28 +0000
Subject: [PATCH 097/127] fix: fuzzy matches skipped missing characters at no
 cost after a state with transitions on all characters

---
 fuzzy/fuzzymatcher.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/fuzzy/fuzzymatcher.h b/fuzzy/fuzzymatcher.h
index fbedd0e..2a49f48 100644
--- a/fuzzy/fuzzymatcher.h
+++ b/fuzzy/fuzzymatcher.h
@@ -265,7 +265,7 @@ class FuzzyMatcher : public Matcher {
     if (!bpt.sub && c1 >= 0x80 && (peek() & 0xC0) == 0x80)
     {
       bpt.sub = bpt.alt;
-      ++bpt.pc1;
+      next(bpt);
       return backtrack(bpt, c1);
     }
     // substitute or insert a pattern char in the text?
@@ -283,16 +283,25 @@ class FuzzyMatcher : public Matcher {
       }
       // next an insertion, when a missing char is allowed
       bpt.sub = !del_;
-      bpt.pc1 += !del_;
+      if (!del_)
+        next(bpt);
     }
     else
     {
       DBGLOG("Insert, jump to %u at pos %zu", jump, pos_);
       bpt.sub = bpt.alt;
-      ++bpt.pc1;
+      next(bpt);
     }
     return pat_->opc_ + jump;
   }
+  /// Advance a backtrack point to the next goto opcode of the state, if any.
+  void next(BacktrackPoint& bpt)
+  {
+    if (Pattern::hi_of(*bpt.pc1) == 0xFF)
+      bpt.pc1 = NULL; // was the last goto opcode on characters, there is no HALT opcode that follows
+    else
+      ++bpt.pc1;
+  }
   /// Returns true if input fuzzy-matched the pattern using method Const::SCAN, Const::FIND, Const::SPLIT, or Const::MATCH.
   virtual size_t match(Method method) ///< Const::SCAN, Const::FIND, Const::SPLIT, or Const::MATCH
     /// @returns nonzero if input matched the pattern
-- 
2.43.0


From 9f3980415562bddecca68601ad0273a04d9e2496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:29 +0000
Subject: [PATCH 098/127] fix: the PCRE2 matcher missed a match of ^ at the
 begin of a line, or matched ^ not at the begin of a line, when the buffer was
 shifted to it while searching

---
 include/reflex/pcre2matcher.h | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/include/reflex/pcre2matcher.h b/include/reflex/pcre2matcher.h
index e41fd78..9b5913c 100644
--- a/include/reflex/pcre2matcher.h
+++ b/include/reflex/pcre2matcher.h
@@ -56,6 +56,7 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
   PCRE2Matcher()
     :
       PatternMatcher<std::string>(),
+      multi_(false),
       cop_(0),
       opc_(NULL),
       dat_(NULL),
@@ -105,6 +106,7 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
   PCRE2Matcher(const PCRE2Matcher& matcher) ///< matcher to copy
     :
       PatternMatcher<std::string>(matcher),
+      multi_(matcher.multi_),
       cop_(matcher.cop_),
       flg_(matcher.flg_),
       opc_(NULL),
@@ -173,6 +175,7 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
   {
     if (this == &matcher)
       return *this;
+    multi_ = matcher.multi_;
     cop_ = matcher.cop_;
     PatternMatcher<std::string>::pattern(matcher);
     flg_ = matcher.flg_;
@@ -310,6 +313,13 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
     jit_ = pcre2_jit_compile(opc_, PCRE2_JIT_COMPLETE | PCRE2_JIT_PARTIAL_HARD) == 0 && pcre2_pattern_info(opc_, PCRE2_INFO_JITSIZE, NULL) != 0;
     dat_ = pcre2_match_data_create_from_pattern(opc_, NULL);
     DBGLOGN("jit=%d", jit_);
+    // does ^ match at the begin of lines, i.e. is PCRE2_MULTILINE or a (?m) modifier used?
+    multi_ = (cop_ & PCRE2_MULTILINE) != 0;
+    for (size_t loc = pat_->find("(?"); !multi_ && loc != std::string::npos; loc = pat_->find("(?", loc + 2))
+    {
+      size_t end = pat_->find_first_not_of("^imnsxJU", loc + 2);
+      multi_ = pat_->substr(loc, end == std::string::npos ? end : end - loc).find('m') != std::string::npos;
+    }
   }
   /// The match method Const::SCAN, Const::FIND, Const::SPLIT, or Const::MATCH, implemented with PCRE2.
   virtual size_t match(Method method) ///< match method Const::SCAN, Const::FIND, Const::SPLIT, or Const::MATCH
@@ -367,6 +377,20 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
     DBGLOG("END PCRE2Matcher::match()");
     return cap_;
   }
+  /// Update the PCRE2_NOTBOL flag for a match attempt at the given position, before the buffer may be shifted to begin at this position.
+  void set_notbol(
+      uint32_t& flg, ///< match flags to update
+      size_t    pos) ///< position in the buffer
+    const
+  {
+    if (pos > 0)
+    {
+      if (multi_ && buf_[pos - 1] == '\n')
+        flg &= ~PCRE2_NOTBOL;
+      else
+        flg |= PCRE2_NOTBOL;
+    }
+  }
   /// Perform next PCRE2 match, return true if a match is found.
   bool next_match(Method method) ///< match method Const::SCAN, Const::FIND, Const::SPLIT, or Const::MATCH
     /// @returns true when PCRE2 match found
@@ -377,7 +401,7 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
     uint32_t flg = flg_;
     if (!eof_)
       flg |= PCRE2_PARTIAL_HARD;
-    if (!at_bol())
+    if (multi_ ? !at_bol() : !at_bob())
       flg |= PCRE2_NOTBOL;
     if (method == Const::SCAN || (method == Const::FIND && !opt_.N))
       flg |= PCRE2_NOTEMPTY;
@@ -393,6 +417,7 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
         end = end_ - rest;
         if (rest == 0 || pos_ < end)
           break;
+        set_notbol(flg, pos_);
         pos_ = end_;
         (void)peek_more(); // read more text into the buffer after end_
         pos_ -= rest;
@@ -428,6 +453,7 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
         cur_ = ovector[0]; // advance to the start of the partial match
         if (method == Const::FIND)
           txt_ = buf_ + cur_;
+        set_notbol(flg, cur_);
         pos_ = end_;
         if (peek_more() == EOF && (flg & PCRE2_PARTIAL_HARD) == 0) // read more text into the buffer after end_
           return false;
@@ -448,6 +474,7 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
         size_t rest = end_ - end;
         if (method == Const::FIND)
           txt_ = buf_ + end;
+        set_notbol(flg, end);
         pos_ = end_;
         if (peek_more() == EOF) // read more text into the buffer after end_
           return false;
@@ -464,6 +491,7 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
       }
     }
   }
+  bool                 multi_; ///< true if ^ matches at the begin of lines
   uint32_t             cop_; ///< PCRE2 compiled options
   uint32_t             flg_; ///< PCRE2 match flags
   pcre2_code          *opc_; ///< PCRE2 opcode
-- 
2.43.0


From 6c06defad0a2c20faaff1049cab44154e15b6177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:12 +0000
Subject: [PATCH 099/127] fix: a lexer that is given a buffer and then another
 input before its first use scanned the buffer

---
 include/reflex/abslexer.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/reflex/abslexer.h b/include/reflex/abslexer.h
index 46ae3f5..459d8a7 100644
--- a/include/reflex/abslexer.h
+++ b/include/reflex/abslexer.h
@@ -129,6 +129,8 @@ class AbstractLexer {
     /// @returns reference to *this
   {
     in_ = input;
+    base_ = NULL; // replaces the buffer that was assigned to scan, if any
+    size_ = 0;
     if (has_matcher())
       matcher().input(input); // reset and assign new input
     return *this;
-- 
2.43.0


From 96247e11fcebb7282d84172dc3ad2e772e407129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:02 +0000
Subject: [PATCH 100/127] fix: buffer(base, size) did not reset the state of
 the matcher engine, such as indent stops and the iterator of a regex library

---
 include/reflex/absmatcher.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 12bafb3..b15ea23 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -486,6 +486,7 @@ class AbstractMatcher {
   {
     if (size > 0)
     {
+      reset(); // also reset the state of the matcher engine
       if (own_)
       {
 #if defined(WITH_REALLOC)
-- 
2.43.0


From 1bd2757cd71232f4bf0efc1f8eaf862ee6e07b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:26 +0000
Subject: [PATCH 101/127] fix: reflex ended with an exception on a quoted
 option value or file name that ends the line with a backslash

---
 src/reflex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reflex.cpp b/src/reflex.cpp
index bd70c75..119d343 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -991,7 +991,7 @@ std::string Reflex::get_string(size_t& pos)
   std::string string;
   while (++pos < linelen && line.at(pos) != '"')
   {
-    if (line.at(pos) == '\\' && (line.at(pos + 1) == '"' || line.at(pos + 1) == '\\'))
+    if (line.at(pos) == '\\' && pos + 1 < linelen && (line.at(pos + 1) == '"' || line.at(pos + 1) == '\\'))
       ++pos;
     string.push_back(line.at(pos));
   }
-- 
2.43.0


From 306bfa07e26a1eaeca95bf5c8aa77572222625fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:26 +0000
Subject: [PATCH 102/127] fix: reflex crashed on a specification that ends with
 the first %% line

---
 src/reflex.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/reflex.cpp b/src/reflex.cpp
index 119d343..82f612c 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -1585,8 +1585,7 @@ void Reflex::parse_section_2()
     error("missing %% section 2");
   bool init = true;
   std::stack<Starts> scopes;
-  if (!get_line())
-    return;
+  (void)get_line();
   while (!is("%%"))
   {
     if (linelen == 0)
-- 
2.43.0


From 69a2cc5472b25b3ce2714b0104abcb9f49228c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:26 +0000
Subject: [PATCH 103/127] fix: reflex ended with an exception or read out of
 bounds when a scope without start conditions is not closed

---
 src/reflex.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reflex.cpp b/src/reflex.cpp
index 82f612c..82cf507 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -1631,7 +1631,7 @@ void Reflex::parse_section_2()
         {
           scopes.push(starts);
           if (!get_line())
-            error("EOF encountered inside scope ", conditions.at(*starts.begin()).c_str());
+            error("EOF encountered inside scope ", starts.empty() ? NULL : conditions.at(*starts.begin()).c_str());
           init = true;
         }
         else
@@ -1674,7 +1674,7 @@ void Reflex::parse_section_2()
   }
   if (!scopes.empty())
   {
-    const char *name = conditions.at(*scopes.top().begin()).c_str();
+    const char *name = scopes.top().empty() ? NULL : conditions.at(*scopes.top().begin()).c_str();
     if (in.eof())
       error("EOF encountered inside scope ", name);
     else
-- 
2.43.0


From 2b7731e061ef009395ea895e25a89fd37e532885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:25 +0000
Subject: [PATCH 104/127] fix: reflex generated a scanner that does not compile
 when the last rule of a start condition or an <<EOF>> rule has the action |

---
 src/reflex.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/reflex.cpp b/src/reflex.cpp
index 82cf507..b0faba9 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -1644,6 +1644,8 @@ void Reflex::parse_section_2()
             error("bad line in section 2: ", line.c_str());
           size_t rule_lineno = lineno;
           std::string code = get_code(pos);
+          if (regex == "<<EOF>>" && code == "|")
+            error("bad <<EOF>> action | in section 2", NULL, rule_lineno);
           if (has_starts)
           {
             for (Starts::const_iterator start = starts.begin(); start != starts.end(); ++start)
@@ -1652,8 +1654,6 @@ void Reflex::parse_section_2()
           else if (scopes.empty() && regex == "<<EOF>>")
           {
             // only the first <<EOF>> code should be used
-            if (code == "|")
-              error("bad <<EOF>> action | in section 2: ", line.c_str());
             for (Start start = 0; start < conditions.size(); ++start)
               rules[start].push_back(Rule(pattern, regex, Code(code, infile, rule_lineno)));
           }
@@ -1683,6 +1683,8 @@ void Reflex::parse_section_2()
   patterns.resize(conditions.size());
   for (Start start = 0; start < conditions.size(); ++start)
   {
+    if (!rules[start].empty() && rules[start].back().code.line == "|")
+      error("action | has no next rule in start condition ", conditions.at(start).c_str(), rules[start].back().code.lineno);
     std::string& pattern = patterns[start];
     pattern.assign("(?m");
     if (!options["case_insensitive"].empty())
-- 
2.43.0


From 809a618d7ebd7ec77d986abb8585a3fd3a22b75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:43 +0000
Subject: [PATCH 105/127] fix: the rule action | was not recognized when
 followed by a blank line

---
 src/reflex.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reflex.cpp b/src/reflex.cpp
index b0faba9..26efb11 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -1644,6 +1644,8 @@ void Reflex::parse_section_2()
             error("bad line in section 2: ", line.c_str());
           size_t rule_lineno = lineno;
           std::string code = get_code(pos);
+          if (code.compare(0, 1, "|") == 0 && code.find_first_not_of(" \t\n", 1) == std::string::npos)
+            code = "|"; // ignore blank lines after |
           if (regex == "<<EOF>>" && code == "|")
             error("bad <<EOF>> action | in section 2", NULL, rule_lineno);
           if (has_starts)
-- 
2.43.0


From c271a110181a13584fb401a000ad4ea4dcaca329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:33 +0000
Subject: [PATCH 106/127] fix: white space in a (?#...) comment ended the
 pattern of a rule

---
 src/reflex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reflex.cpp b/src/reflex.cpp
index 26efb11..232f9f3 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -1067,7 +1067,7 @@ bool Reflex::get_pattern(size_t& pos, std::string& pattern, std::string& regex)
       }
       ++pos;
     }
-    else if (c == '(' && pos + 2 < linelen && line.at(pos + 1) == '?' && line.at(pos + 2) == '#')
+    else if (c == '(' && pos + 1 < linelen && line.at(pos) == '?' && line.at(pos + 1) == '#')
     {
       // eat (?#...)
       pos += 2; 
-- 
2.43.0


From b17f9f61c2ad5a1ad35ebd245acb2cc580be112f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:51 +0000
Subject: [PATCH 107/127] fix: the escape at the end of a line that continues a
 pattern on the next line was kept in the pattern

---
 src/reflex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reflex.cpp b/src/reflex.cpp
index 232f9f3..3ee568f 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -1080,7 +1080,7 @@ bool Reflex::get_pattern(size_t& pos, std::string& pattern, std::string& regex)
       if (pos == linelen)
       {
         // line ends in \ and continues on the next line
-        pattern.append(line.substr(loc, pos - loc));
+        pattern.append(line.substr(loc, pos - loc - 1));
         if (!get_line())
           error("EOF encountered inside a pattern", NULL, at_lineno);
         if (is("%%"))
-- 
2.43.0


From d5467e85d7cecaf248e42b6b9a487cab385d0911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:41 +0000
Subject: [PATCH 108/127] fix: #line of an initial code block was the line
 after the block

---
 src/reflex.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/reflex.cpp b/src/reflex.cpp
index 3ee568f..19d7c61 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -1598,19 +1598,20 @@ void Reflex::parse_section_2()
       size_t pos = 0;
       if (init && is_code())
       {
+        size_t this_lineno = lineno;
         std::string code = get_code(pos);
         if (scopes.empty())
         {
           for (Start start = 0; start < conditions.size(); ++start)
           {
             if (inclusive.find(start) != inclusive.end())
-              section_2[start].push_back(Code(code, infile, lineno));
+              section_2[start].push_back(Code(code, infile, this_lineno));
           }
         }
         else
         {
           for (Starts::const_iterator start = scopes.top().begin(); start != scopes.top().end(); ++start)
-            section_2[*start].push_back(Code(code, infile, lineno));
+            section_2[*start].push_back(Code(code, infile, this_lineno));
         }
       }
       else if (ins("}") && !scopes.empty())
-- 
2.43.0


From 55b90ab2e09d1dbb1b5d094b1247c1b97b98ec19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:48 +0000
Subject: [PATCH 109/127] fix: reflex generated a scanner that does not compile
 when a start condition is declared twice

---
 src/reflex.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/reflex.cpp b/src/reflex.cpp
index 19d7c61..3ce8874 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -35,6 +35,7 @@
 */
 
 #include "reflex.h"
+#include <algorithm>
 
 /// Work around the Boost.Regex partial_match bug by forcing the generated scanner to buffer all input
 #define WITH_BOOST_PARTIAL_MATCH_BUG
@@ -1478,6 +1479,8 @@ void Reflex::parse_section_1()
                 std::string name = get_start(pos);
                 if (name.empty())
                   error("bad start condition name");
+                if (std::find(conditions.begin(), conditions.end(), name) != conditions.end())
+                  error("attempt to redefine start condition ", name.c_str());
                 inclusive.insert(conditions.size());
                 conditions.push_back(name);
               } while (!nl(pos));
@@ -1492,6 +1495,8 @@ void Reflex::parse_section_1()
                   std::string name = get_start(pos);
                   if (name.empty())
                     error("bad start condition name");
+                  if (std::find(conditions.begin(), conditions.end(), name) != conditions.end())
+                    error("attempt to redefine start condition ", name.c_str());
                   conditions.push_back(name);
                 } while (!nl(pos));
               }
-- 
2.43.0


From 5f30463b7165b78daf7a8cd7be036cd4d75ed5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:58 +0000
Subject: [PATCH 110/127] fix: names of start conditions with --flex were
 macros before the RE/flex headers were included, the headers did not compile
 with conditions such as A

---
 src/reflex.cpp | 9 +++++----
 src/reflex.h   | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/reflex.cpp b/src/reflex.cpp
index 3ce8874..544c756 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -1794,8 +1794,7 @@ void Reflex::write()
   *out << "// " << options["outfile"] << " generated by reflex " REFLEX_VERSION " from " << infile << "\n\n";
   write_prelude();
   write_section_top();
-  write_defines();
-  write_class();
+  write_class(true);
   write_section_1();
   write_lexer();
   write_main();
@@ -1863,7 +1862,7 @@ void Reflex::write()
     write_section_top();
     if (options["bison_cc"].empty() && (!options["bison"].empty() || !options["reentrant"].empty() || !options["bison_bridge"].empty() || !options["bison_locations"].empty()))
       *out << "\n#ifdef __cplusplus\n";
-    write_class();
+    write_class(false);
     if (!options["bison_cc"].empty())
     {
       write_banner("BISON C++");
@@ -2077,7 +2076,7 @@ void Reflex::write_defines()
 }
 
 /// Write the lexer class to lex.yy.cpp
-void Reflex::write_class()
+void Reflex::write_class(bool defines)
 {
   if (!out->good())
     return;
@@ -2099,6 +2098,8 @@ void Reflex::write_class()
   {
     write_banner("FLEX-COMPATIBLE ABSTRACT LEXER CLASS");
     *out << "#include <reflex/flexlexer.h>\n";
+    if (defines)
+      write_defines();
     if (!options["namespace"].empty())
     {
       *out << '\n';
diff --git a/src/reflex.h b/src/reflex.h
index 6ad1778..f62341f 100644
--- a/src/reflex.h
+++ b/src/reflex.h
@@ -147,7 +147,7 @@ class Reflex
   void        write_banner(const char *title);
   void        write_prelude();
   void        write_defines();
-  void        write_class();
+  void        write_class(bool defines);
   void        write_section_top();
   void        write_section_class();
   void        write_section_init();
-- 
2.43.0


From 47845cbbb54d3e44ab7b42e2c1de6d2e49194b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:10 +0000
Subject: [PATCH 111/127] fix: yylex_destroy() was declared but not defined for
 reentrant scanners without --flex

---
 src/reflex.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/reflex.cpp b/src/reflex.cpp
index 544c756..424f207 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -2618,6 +2618,11 @@ void Reflex::write_lexer()
       "{\n"
       "  *scanner = static_cast<yyscan_t>(new yyscanner_t);\n"
       "}\n"
+      "\n"
+      "YY_EXTERN_C void yylex_destroy(yyscan_t scanner)\n"
+      "{\n"
+      "  delete static_cast<yyscanner_t*>(scanner);\n"
+      "}\n"
       "\n";
     if (!options["flex"].empty())
     {
@@ -2628,11 +2633,6 @@ void Reflex::write_lexer()
         "  " << prefix << "set_extra(extra, *scanner);\n"
         "}\n"
         "\n"
-        "YY_EXTERN_C void yylex_destroy(yyscan_t scanner)\n"
-        "{\n"
-        "  delete static_cast<yyscanner_t*>(scanner);\n"
-        "}\n"
-        "\n"
         "#undef " << prefix << "get_text\n"
         "YY_EXTERN_C char *" << prefix << "get_text(yyscan_t scanner)\n"
         "{\n"
-- 
2.43.0


From b31c0051c972c0fe8fa8f5935911900e395f3496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:24 +0000
Subject: [PATCH 112/127] fix: in(FILE*) lost the first byte of the file when
 the lexer was used before

---
 include/reflex/abslexer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/abslexer.h b/include/reflex/abslexer.h
index 459d8a7..50239d5 100644
--- a/include/reflex/abslexer.h
+++ b/include/reflex/abslexer.h
@@ -132,7 +132,7 @@ class AbstractLexer {
     base_ = NULL; // replaces the buffer that was assigned to scan, if any
     size_ = 0;
     if (has_matcher())
-      matcher().input(input); // reset and assign new input
+      matcher().input(in_); // reset and assign new input, not the argument: a FILE* is converted once, since its BOM is checked by reading
     return *this;
   }
   /// Reset the matcher and start scanning from the given byte sequence.
-- 
2.43.0


From e5f4c38f84ea27c8735e3b2eeaa93eb9cf2d961b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:48 +0000
Subject: [PATCH 113/127] fix: scanners with --flex and --params were abstract
 classes

---
 src/reflex.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reflex.cpp b/src/reflex.cpp
index 424f207..57ee99c 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -2236,11 +2236,11 @@ void Reflex::write_class(bool defines)
     }
     else
     {
-      if (lex != "yylex")
+      if (lex != "yylex" || !options["params"].empty())
         *out <<
           "  virtual " << token_type << " yylex(void)\n"
           "  {\n"
-          "    LexerError(\"" << lexer << "::yylex invoked but %option lex=" << lex << " is used\");\n"
+          "    LexerError(\"" << lexer << "::yylex invoked but %option " << (lex != "yylex" ? "lex=" + lex : "params") << " is used\");\n"
           "    yyterminate();\n"
           "  }\n";
       *out <<
-- 
2.43.0


From 60eae882d4a88edf71ef9f291a3bf25ce1a2dc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:00 +0000
Subject: [PATCH 114/127] fix: yyscan_t was not declared before yywrap() of
 reentrant scanners with --yy

---
 include/reflex/flexlexer.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/reflex/flexlexer.h b/include/reflex/flexlexer.h
index d6b9db4..5b87581 100644
--- a/include/reflex/flexlexer.h
+++ b/include/reflex/flexlexer.h
@@ -77,6 +77,9 @@
 #if (defined(REFLEX_OPTION_yywrap) || defined(REFLEX_OPTION_bison)) && !defined(REFLEX_OPTION_noyywrap)
 #if defined(REFLEX_OPTION_reentrant)
 
+/// Flex-compatible reentrant scanner type.
+typedef void *yyscan_t;
+
 /// Flex-compatible global yywrap() is enabled with `%%option yywrap` or `%%option bison`.
 #if defined(YY_EXTERN_C)
 YY_EXTERN_C int yywrap(yyscan_t);
-- 
2.43.0


From 67697ffca8461569f3d9886ef7f1a5228638b087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:00 +0000
Subject: [PATCH 115/127] fix: scanners with --yy and --array did not compile

---
 src/reflex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reflex.cpp b/src/reflex.cpp
index 57ee99c..0df1179 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -2743,7 +2743,7 @@ void Reflex::write_lexer()
             "{\n";
         if (!options["yy"].empty())
           *out <<
-            "  if (" << prefix << "in != YY_SCANNER.in()->file())\n"
+            "  if (" << prefix << "in != YY_SCANNER.in())\n"
             "    YY_SCANNER.in(" << prefix << "in);\n";
         if (!options["bison_locations"].empty())
           *out <<
-- 
2.43.0


From 31b1d3a9179d6b1b9130c67c78a0463230b5b78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:00 +0000
Subject: [PATCH 116/127] fix: the global yyout of --yy did not have the name
 with the --prefix that its declaration has

---
 src/reflex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reflex.cpp b/src/reflex.cpp
index 0df1179..9f7c0ad 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -2720,7 +2720,7 @@ void Reflex::write_lexer()
       if (!options["yy"].empty())
         *out <<
           "FILE *" << prefix << "in = stdin;\n"
-          "FILE *yyout = stdout;\n"
+          "FILE *" << prefix << "out = stdout;\n"
           "\n";
       if (!options["array"].empty() && options["pointer"].empty())
       {
-- 
2.43.0


From da5deec6a50b6942c7a02ef212574d169e752df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:59 +0000
Subject: [PATCH 117/127] fix: %option matcher=reflex did not select the
 RE/flex matcher when another matcher was specified before

---
 src/reflex.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/reflex.cpp b/src/reflex.cpp
index 9f7c0ad..b732595 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -676,6 +676,7 @@ void Reflex::set_library()
   if (options["matcher"] == "reflex")
   {
     options["matcher"].clear();
+    library = &libraries["reflex"];
   }
   else if (!options["matcher"].empty())
   {
-- 
2.43.0


From bc6332fd403c791da66818388fee2282315400cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:42 +0000
Subject: [PATCH 118/127] fix: iterators of lazy_union produced elements twice
 and accessed elements beyond the end of a set

---
 include/reflex/setop.h | 56 +++++++++---------------------------------
 1 file changed, 12 insertions(+), 44 deletions(-)

diff --git a/include/reflex/setop.h b/include/reflex/setop.h
index 446e725..1503df1 100644
--- a/include/reflex/setop.h
+++ b/include/reflex/setop.h
@@ -339,57 +339,25 @@ struct lazy_union {
       {
         second = true;
       }
-      else
-      {
-        while (i2 != i2_end && !lt(*i1, *i2) && !lt(*i2, *i1))
-          ++i2;
-      }
-    }
-    void next(void)
-    {
-      if (i1 == i1_end)
-      {
-        if (i2 != i2_end)
-          ++i2;
-        second = true;
-      }
       else if (i2 == i2_end)
-      { 
-        if (i1 != i1_end)
-          ++i1;
+      {
         second = false;
       }
       else
       {
-        if (second)
-        {
-          ++i2;
-          second = false;
-        }
-        else
-        {
-          ++i1;
-          second = true;
-        }
-        while (i1 != i1_end && i2 != i2_end)
-        {
-          if (lt(*i1, *i2))
-          {
-            second = false;
-            break;
-          }
-          else if (lt(*i2, *i1))
-          {
-            second = true;
-            break;
-          }
-          else
-          {
-            ++i2;
-          }
-        }
+        second = lt(*i2, *i1);
+        if (!second && !lt(*i1, *i2))
+          ++i2; // element is in both sets
       }
     }
+    void next(void)
+    {
+      if (!second)
+        ++i1;
+      else if (i2 != i2_end)
+        ++i2;
+      find();
+    }
     typename S1::const_iterator i1, i1_end;
     typename S2::const_iterator i2, i2_end;
     typename S1::key_compare lt;
-- 
2.43.0


From ca63de22a976f42b22fdea3be63e4921a265b378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:33 +0000
Subject: [PATCH 119/127] fix: alternatives of a regex that are strings were
 not counted by size() and not reported by [] and reachable()

---
 lib/pattern.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index e9a1246..a7fcb4c 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -454,7 +454,6 @@ void Pattern::parse(
           modifiers,
           lookahead[choice],
           iter);
-      end_.push_back(loc);
       set_insert(startpos, firstpos);
       if (nullable)
       {
@@ -481,6 +480,7 @@ void Pattern::parse(
         }
       }
     }
+    end_.push_back(loc);
     if (++choice == 0)
       error(regex_error::exceeds_limits, loc); // overflow: too many top-level alternations (should never happen)
   } while (at(loc++) == '|');
-- 
2.43.0


From f0aa24b6bb46c9949c77599f1d93e45bbd01d3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:10 +0000
Subject: [PATCH 120/127] fix: yylex_init_extra() did not compile with --prefix
 and with --namespace

---
 src/reflex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reflex.cpp b/src/reflex.cpp
index b732595..1eea826 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -2631,7 +2631,7 @@ void Reflex::write_lexer()
         "YY_EXTERN_C void yylex_init_extra(" << (options["extra_type"].empty() ? "void*" : options["extra_type"].c_str()) << " extra, yyscan_t *scanner)\n"
         "{\n"
         "  *scanner = static_cast<yyscan_t>(new yyscanner_t);\n"
-        "  " << prefix << "set_extra(extra, *scanner);\n"
+        "  static_cast<yyscanner_t*>(*scanner)->yyextra = extra;\n"
         "}\n"
         "\n"
         "#undef " << prefix << "get_text\n"
-- 
2.43.0


From 4405f8ba1bcea1a2fa536ebb6e0ee62dd4ed5174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:10 +0000
Subject: [PATCH 121/127] fix: scanners with --flex, --bison-cc and --prefix or
 --lex did not compile

---
 src/reflex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reflex.cpp b/src/reflex.cpp
index 1eea826..b4ebc1e 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -2204,7 +2204,7 @@ void Reflex::write_class(bool defines)
           "  }\n"
           "  virtual " << token_type << " " << lex << "(" << yystype << " *lvalp" << comma_params << ")\n"
           "  {\n"
-          "    return yylex(*lvalp" << comma_args << ");\n"
+          "    return " << lex << "(*lvalp" << comma_args << ");\n"
           "  }\n"
           "  virtual " << token_type << " " << lex << "(" << yystype << "& yylval" << comma_params << ")";
     }
-- 
2.43.0


From 43ec2f549e34ac1b94619526a9327f95c414955a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:10 +0000
Subject: [PATCH 122/127] fix: scanners with --flex, --bison-complete and
 --params, --prefix or --lex were abstract classes

---
 src/reflex.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/reflex.cpp b/src/reflex.cpp
index b4ebc1e..397bff4 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -2171,6 +2171,13 @@ void Reflex::write_class(bool defines)
           "    yylloc.end.column = static_cast<unsigned int>(matcher().columno_end());\n"
           "    return yylloc;\n"
           "  }\n";
+      if (lex != "yylex" || !options["params"].empty())
+        *out <<
+          "  virtual " << token_type << " yylex(void)\n"
+          "  {\n"
+          "    LexerError(\"" << lexer << "::yylex invoked but %option " << (lex != "yylex" ? "lex=" + lex : "params") << " is used\");\n"
+          "    yyterminate();\n"
+          "  }\n";
       *out <<
         "  virtual " << token_type << " " << lex << "(" << params << ")";
     }
-- 
2.43.0


From 1b1e762b1511e851ae3b70493bed3c6ea0600b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:05 +0000
Subject: [PATCH 123/127] fix: comments such as /*/ and those with a backslash
 before the end were not skipped correctly in specifications

---
 src/reflex.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/reflex.cpp b/src/reflex.cpp
index 397bff4..2caadd3 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -787,6 +787,7 @@ bool Reflex::skip_comment(size_t& pos)
     }
     else if (pos + 1 < linelen && line.at(pos) == '/' && line.at(pos + 1) == '*')
     {
+      pos += 2;
       while (true)
       {
         while (pos + 1 < linelen && (line.at(pos) != '*' || line.at(pos + 1) != '/'))
@@ -1235,17 +1236,26 @@ std::string Reflex::get_code(size_t& pos)
         if (tok == CODE && pos + 1 < linelen)
         {
           if (line.at(pos + 1) == '/')
+          {
             pos = linelen;
+          }
           else if (line.at(pos + 1) == '*')
+          {
             tok = COMMENT;
+            ++pos;
+          }
         }
         break;
       case '*':
         if (tok == COMMENT && pos + 1 < linelen && line.at(pos + 1) == '/')
+        {
           tok = CODE;
+          ++pos;
+        }
         break;
       case '\\':
-        ++pos;
+        if (tok != COMMENT)
+          ++pos;
         break;
     }
     ++pos;
-- 
2.43.0


From 3bb43cfb22d49619dfe848587dcb8ed5174d504c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:33 +0000
Subject: [PATCH 124/127] fix: of opposite options on the command line the last
 one did not count

---
 src/reflex.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/reflex.cpp b/src/reflex.cpp
index 2caadd3..40aaad7 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -383,9 +383,17 @@ void Reflex::init(int argc, char **argv)
               if (i == options.end())
                 help("unknown option --", arg);
               if (val != NULL)
+              {
                 i->second = val + 1;
+              }
               else
+              {
                 i->second = "true";
+                // the last of two opposite options counts
+                StringMap::iterator j = options.find(name.compare(0, 2, "no") == 0 ? name.substr(2) : "no" + name);
+                if (j != options.end() && j->second.compare("true") == 0)
+                  j->second.clear();
+              }
             }
             is_grouped = false;
             break;
-- 
2.43.0


From 4a0b2f7074a40a47cf771186f4c4de697af07190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:37 +0000
Subject: [PATCH 125/127] fix: parameters of lex() with default arguments,
 arrays and types with commas did not compile

---
 src/reflex.cpp | 85 +++++++++++++++++++++++++++++++++++++-------------
 src/reflex.h   |  2 +-
 2 files changed, 64 insertions(+), 23 deletions(-)

diff --git a/src/reflex.cpp b/src/reflex.cpp
index 40aaad7..03d52f7 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -1298,33 +1298,74 @@ std::string Reflex::upper_name(const std::string& s)
   return t;
 }
 
-/// Extract a list of argument names from function parameters
-std::string Reflex::param_args(const std::string& params)
+/// Extract a list of argument names from function parameters, or the parameters without their default arguments
+std::string Reflex::param_args(const std::string& params, bool names)
 {
   std::string args;
   size_t from = 0;
   while (from < params.size())
   {
-    size_t to = params.find(',', from + 1);
-    if (to == std::string::npos)
-      to = params.size();
-    size_t i = to;
-    while (--i > from)
-      if (params.at(i) == '=')
+    // find the end of this parameter and its default argument, a comma or = in brackets is part of the type
+    size_t to, end = std::string::npos;
+    int nest = 0, angles = 0;
+    for (to = from; to < params.size(); ++to)
+    {
+      int c = params.at(to);
+      if (c == '(' || c == '[' || c == '{')
+        ++nest;
+      else if (c == ')' || c == ']' || c == '}')
+        --nest;
+      else if (c == '<' && (end == std::string::npos || (std::isalnum(static_cast<unsigned char>(params.at(to - 1))) && to + 1 < params.size() && (std::isalpha(static_cast<unsigned char>(params.at(to + 1))) || params.at(to + 1) == ':'))))
+        ++angles;
+      else if (c == '>' && angles > 0)
+        --angles;
+      else if (c == ',' && nest <= 0 && angles == 0)
         break;
-    if (i <= from)
-      i = to;
-    while (--i > from)
-      if (!std::isspace(params.at(i)))
-        break;
-    size_t j = i++;
-    while (--i > from)
-      if (!std::isalnum(params.at(i)) && params.at(i) != '_')
-        break;
-    if (!args.empty())
-      args.append(", ");
-    args.append(params, i + 1, j - i);
-    from = to;
+      else if (c == '=' && nest <= 0 && angles == 0 && end == std::string::npos)
+        end = to;
+    }
+    if (end == std::string::npos)
+      end = to;
+    while (end > from && std::isspace(static_cast<unsigned char>(params.at(end - 1))))
+      --end;
+    if (names)
+    {
+      size_t i, j = params.find("(*", from);
+      if (j == std::string::npos || j >= end)
+        j = params.find("(&", from);
+      if (j != std::string::npos && j < end)
+      {
+        // a pointer or reference to a function or to an array
+        for (i = j + 2; i < end && std::isspace(static_cast<unsigned char>(params.at(i))); ++i)
+          continue;
+        for (j = i; j < end && (std::isalnum(static_cast<unsigned char>(params.at(j))) || params.at(j) == '_'); ++j)
+          continue;
+      }
+      else
+      {
+        // the name is before the [] of an array
+        for (j = end; j > from && params.at(j - 1) == ']'; )
+        {
+          size_t k = params.rfind('[', j - 1);
+          if (k == std::string::npos || k <= from)
+            break;
+          for (j = k; j > from && std::isspace(static_cast<unsigned char>(params.at(j - 1))); --j)
+            continue;
+        }
+        for (i = j; i > from && (std::isalnum(static_cast<unsigned char>(params.at(i - 1))) || params.at(i - 1) == '_'); --i)
+          continue;
+      }
+      if (!args.empty())
+        args.append(", ");
+      args.append(params, i, j - i);
+    }
+    else
+    {
+      if (!args.empty())
+        args.append(",");
+      args.append(params, from, end - from);
+    }
+    from = to + 1;
   }
   return args;
 }
@@ -2584,7 +2625,7 @@ void Reflex::write_lexer()
   std::string token_eof = options["token_eof"].empty() ? token_type + "()" : options["token_eof"];
   std::string yyltype = options["YYLTYPE"].empty() ? "YYLTYPE" : options["YYLTYPE"];
   std::string yystype = options["YYSTYPE"].empty() ? "YYSTYPE" : options["YYSTYPE"];
-  std::string params = options["params"].empty() ? "void" : options["params"];
+  std::string params = options["params"].empty() ? "void" : param_args(options["params"], false);
   std::string comma_params = options["params"].empty() ? "" : ", " + params;
   std::string args = options["params"].empty() ? "" : param_args(params);
   std::string comma_args = options["params"].empty() ? "" : ", " + args;
diff --git a/src/reflex.h b/src/reflex.h
index f62341f..ce385b4 100644
--- a/src/reflex.h
+++ b/src/reflex.h
@@ -186,7 +186,7 @@ class Reflex
   std::string get_code(size_t& pos);
   std::string escape_bs(const std::string& s);
   std::string upper_name(const std::string& s);
-  std::string param_args(const std::string& s);
+  std::string param_args(const std::string& s, bool names = true);
   bool        get_starts(size_t& pos, Starts& starts);
   void        abort(const char *message, const char *arg = NULL);
   void        error(const char *message, const char *arg = NULL, size_t at_lineno = 0);
-- 
2.43.0


From c55ab43089701fcf9e97e485553acd58c3bd3b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:59 +0000
Subject: [PATCH 126/127] fix: the end of the line of a match was searched
 after the separator instead of after the match when splitting

---
 include/reflex/absmatcher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index b15ea23..9faec71 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -1110,7 +1110,7 @@ class AbstractMatcher {
   {
     if (chr_ == '\n' || (txt_ + len_ < buf_ + end_ && txt_[len_] == '\n'))
       return txt_ + len_ + inclusive;
-    size_t loc = pos_;
+    size_t loc = txt_ + len_ - buf_;
     while (true)
     {
       if (loc < end_)
-- 
2.43.0


From ee91eb158235202e901cf4719447d5e8eb2d73d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:59 +0000
Subject: [PATCH 127/127] fix: comparing a match with a C string read past the
 end of the string when the match has a zero byte

---
 include/reflex/absmatcher.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 9faec71..6bef748 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -1326,7 +1326,7 @@ class AbstractMatcher {
     /// @returns true if matched text is equal to rhs string
     const
   {
-    return std::strncmp(rhs, txt_, len_) == 0 && rhs[len_] == '\0';
+    return std::strlen(rhs) == len_ && std::memcmp(rhs, txt_, len_) == 0;
   }
   /// Returns true if matched text is equalt to a string, useful for std::algorithm.
   bool operator==(const std::string& rhs) ///< rhs string to compare to
@@ -1354,7 +1354,7 @@ class AbstractMatcher {
     /// @returns true if matched text is not equal to rhs string
     const
   {
-    return std::strncmp(rhs, txt_, len_) != 0 || rhs[len_] != '\0'; // if static checkers complain here, they are wrong
+    return std::strlen(rhs) != len_ || std::memcmp(rhs, txt_, len_) != 0;
   }
   /// Returns true if matched text is not equal to a string, useful for std::algorithm.
   bool operator!=(const std::string& rhs) ///< rhs string to compare to
-- 
2.43.0

