From 44193ec4b1fe691d16b2ee5412e936e1afb0ea23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:56 +0000
Subject: [PATCH 01/62] fix: a constant no longer inherits the modifier of the
 previous label

'IF 0' was taken as true after any expression naming a register or a bit
reference, because testtrue() compares modifiers and cst() left it stale.
---
 src/operator.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/operator.c b/src/operator.c
index e589756..bd620cc 100644
--- a/src/operator.c
+++ b/src/operator.c
@@ -35,6 +35,8 @@ static void cst(struct result* presult, long int val)
 {
   presult->flags = 0;
   presult->type = L_ABSOLUTE;
+  presult->modifier = 0;
+  presult->ptr = NULL;
   presult->value = val;
 }
 
-- 
2.43.0


From 166a800fc516bfc4ec1eab0c56251b77719f6a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:11 +0000
Subject: [PATCH 02/62] fix: bytes that do not continue the pending record
 start a new one

The pending record kept its old start address when the program counter had
moved without setpc() seeing a jump (after a DUMMY section, or when the
second pass started at the address where the first had ended), so the bytes
were written at wrong addresses.
---
 src/scode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scode.c b/src/scode.c
index bc85b32..fd0ab2e 100644
--- a/src/scode.c
+++ b/src/scode.c
@@ -72,7 +72,7 @@ void insert8(unsigned char x)
   {
     if (scode != NULL)
     {
-      if (rawnumber >= 16)
+      if (rawnumber >= 16 || rawstart + rawnumber != pc)
       {
         flushscoderaw();
       }
-- 
2.43.0


From a601efc9f11eac031175df4f40c47ba856a34823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 03/62] fix: the reported code length no longer counts every
 byte in both passes

---
 src/crasm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/crasm.c b/src/crasm.c
index f09dcf3..70ffede 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -44,6 +44,7 @@ int warnnumber;
 int segment;
 extern int includelevel;
 extern int thiscall;
+extern unsigned long codelen;
 struct label* starlabel;
 int llen;
 int ppos;
@@ -261,6 +262,7 @@ void pass(int n)
   fprintf(stderr, "Pass #%d\n", n);
 
   errnumber = warnnumber = 0;
+  codelen = 0;
 
   while (!feof(file))
   {
-- 
2.43.0


From 712750bd6fb5fdef1fa75a7b08834c0780d5fd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 04/62] fix: count the warnings, the summary always said
 WARNINGS: 0

---
 src/crasm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/crasm.c b/src/crasm.c
index 70ffede..5f8eccb 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -635,6 +635,7 @@ void warning(char* s)
 
   if (!(asmflags & F_NOWARNING))
   {
+    warnnumber++;
     sprintf(raw, "%7d WARNING: %c%s", linenumber, c, s + 1);
 
     for (s = raw; s[1] == ' '; s++)
-- 
2.43.0


From 714feb591c1c8b676567c950acd8610140311d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:13 +0000
Subject: [PATCH 05/62] fix: a long FAIL message overflowed the buffer of
 error()

---
 src/crasm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crasm.c b/src/crasm.c
index 5f8eccb..421863f 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -597,7 +597,7 @@ start:
 
 void error(char* s)
 {
-  char raw[80];
+  char raw[300]; /* FAIL passes up to a whole line */
   int oldflags;
   char c = toupper(*s);
 
@@ -605,7 +605,7 @@ void error(char* s)
 
   if (!(asmflags & F_NOERROR))
   {
-    sprintf(raw, "%7d ERROR: %c%s", linenumber, c, s + 1);
+    snprintf(raw, sizeof(raw), "%7d ERROR: %c%s", linenumber, c, s + 1);
 
     for (s = raw; s[1] == ' '; s++)
     {
-- 
2.43.0


From a4ef4a9d739e3c071e87c8d8a5e2fd9a84f5708f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:45 +0000
Subject: [PATCH 06/62] fix: filter() overflowed its buffer on a line with many
 operands

---
 src/filter.c | 9 ++++++++-
 src/output.c | 4 ++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/filter.c b/src/filter.c
index b4a88ed..5252225 100644
--- a/src/filter.c
+++ b/src/filter.c
@@ -31,7 +31,7 @@
 #define SPACES   '_'    /* saute X espaces, X>=0    */
 
 char* bufferpos;
-char buffer[4000];
+char buffer[256 * 1024]; /* all the filters of one line */
 unsigned int chars_consumed_by_filter;
 
 /* zerobuffer()
@@ -59,6 +59,13 @@ int filter(char* s, char* fil, ...)
   char* str_start = (s) ? s : "";
 
   s = str_start;
+
+  if (strlen(s) + 8 > buffer + sizeof(buffer) - bufferpos)
+  {
+    zerobuffer();
+    error("too complex line");
+  }
+
   oldbufferpos = bufferpos;
   starts = NULL;
   startf = NULL;
diff --git a/src/output.c b/src/output.c
index 389e396..2f9a6cb 100644
--- a/src/output.c
+++ b/src/output.c
@@ -45,6 +45,7 @@
 static int lastoffset;
 
 extern unsigned int chars_consumed_by_filter;
+extern char* bufferpos;
 char linebuffer[1000];
 char title[31] = "";
 int pagenumber = 0;
@@ -173,6 +174,8 @@ void outputcar(char c)
   {
     if (lpos >= llen)
     {
+      char* oldbufferpos = bufferpos;
+
       outputEOL();
 
       if (filter(linebuffer + LMARGIN, "?;_?", &dummy, &dummy))
@@ -204,6 +207,7 @@ void outputcar(char c)
         }
 
       lastoffset = lpos;
+      bufferpos = oldbufferpos; /* nothing was kept */
     }
 
     if (isprint((unsigned char)c) || !isascii((unsigned char)c))
-- 
2.43.0


From 689af2304721870d38082171db787dcb2ea0890a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:45 +0000
Subject: [PATCH 07/62] fix: an unterminated ASC string was read past its end

---
 src/pseudos.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pseudos.c b/src/pseudos.c
index 802939c..6b45e8d 100644
--- a/src/pseudos.c
+++ b/src/pseudos.c
@@ -232,6 +232,11 @@ int Xasc(int modifier, char* label, char* mnemo, char* oper)
 
   while ((r = *++s) != delimiter)
   {
+    if (r == 0)
+    {
+      error("unterminated string");
+    }
+
     if (r == '\\')
     {
       switch (*++s)
-- 
2.43.0


From 8f5e7caefbe297963ffe2df0445411b82b97cbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:46 +0000
Subject: [PATCH 08/62] fix: a 1000 columns wide page overflowed the line
 buffer by one

---
 src/output.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output.c b/src/output.c
index 2f9a6cb..70e3205 100644
--- a/src/output.c
+++ b/src/output.c
@@ -83,7 +83,7 @@ void setpage(int xplen, int xllen)
     warning("page redefinition");
   }
 
-  if (xplen > 200 || (xplen && xplen < 10) || xllen < 39 || xllen > (int)sizeof(linebuffer))
+  if (xplen > 200 || (xplen && xplen < 10) || xllen < 39 || xllen >= (int)sizeof(linebuffer))
   {
     error("illegal values");
   }
-- 
2.43.0


From 11739b57d5b7c97ab504dd0b0b6d27466e468e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:46 +0000
Subject: [PATCH 09/62] fix: evaluating a register range never ended

---
 src/operator.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/operator.c b/src/operator.c
index bd620cc..6e3e0a7 100644
--- a/src/operator.c
+++ b/src/operator.c
@@ -328,12 +328,12 @@ void opsub(struct result* presult, struct result* parg)
     register int lo = 0;
     register int hi = 0;
 
-    while (1 << lo != presult->value  && lo < 32)
+    while (lo < 32 && 1L << lo != presult->value)
     {
       lo++;
     }
 
-    while (1 << hi != parg->value     && hi < 32)
+    while (hi < 32 && 1L << hi != parg->value)
     {
       hi++;
     }
@@ -345,7 +345,7 @@ void opsub(struct result* presult, struct result* parg)
 
     while (lo <= hi)
     {
-      presult->value |= 1 << lo;
+      presult->value |= 1L << lo++;
     }
   }
   else
-- 
2.43.0


From b9693ec3ecd05e119a6f92137e004975b58502e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:47 +0000
Subject: [PATCH 10/62] fix: Z80 8 bit operations on 16 bit or memory operands
 are errors

They assembled silently to the code of another instruction.
---
 src/cpuz80.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cpuz80.c b/src/cpuz80.c
index 1a370cd..c590b4b 100644
--- a/src/cpuz80.c
+++ b/src/cpuz80.c
@@ -622,6 +622,10 @@ static int logical(int code, char* label, char* mnemo, char* oper)
     reg = 0x46;
     arg8flag = TRUE;
   }
+  else if (!isreg8(reg))
+  {
+    error(needreg8);
+  }
 
   return docode(code + reg);
 }
-- 
2.43.0


From 5853d556ace341e1d7ab5944b84c012fa02fc33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:47 +0000
Subject: [PATCH 11/62] fix: ROR is again refused on the 6500

The 16 bit code of the mnemonic arrives sign extended.
---
 src/cpu6502.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu6502.c b/src/cpu6502.c
index 3964262..5feb150 100644
--- a/src/cpu6502.c
+++ b/src/cpu6502.c
@@ -239,7 +239,7 @@ static int standard(int code, char* label, char* mnemo, char* oper)
   /* test specials modes */
   if (cpuflag < 1)
   {
-    if (code == (0x60 | 0x100 | F_noimm | F_noindy))
+    if ((code & 0xffff) == (0x60 | 0x100 | F_noimm | F_noindy))
     {
       error("no ROR instruction on 6500");
     }
-- 
2.43.0


From 22108f6d03394b4864b1af094f3dae0d8fcece2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:47 +0000
Subject: [PATCH 12/62] fix: BIT zp,X and BIT abs,X are refused on the 6500 and
 6502

---
 src/cpu6502.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cpu6502.c b/src/cpu6502.c
index 5feb150..01b6ede 100644
--- a/src/cpu6502.c
+++ b/src/cpu6502.c
@@ -248,7 +248,8 @@ static int standard(int code, char* label, char* mnemo, char* oper)
   if (cpuflag < 2)
   {
     if (mode == 4 || opcode == 0x7c || opcode == 0x89 ||
-                     opcode == 0x1a || opcode == 0x3a)
+                     opcode == 0x1a || opcode == 0x3a ||
+                     opcode == 0x34 || opcode == 0x3c)
     {
       error("illegal use of 65C02 addressing mode");
     }
-- 
2.43.0


From fbb15f34197c10aeabb2ac93cc32bf6a38246d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:11 +0000
Subject: [PATCH 13/62] fix: keep accepting a 1000 columns wide page

---
 src/output.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output.c b/src/output.c
index 70e3205..82f1e8e 100644
--- a/src/output.c
+++ b/src/output.c
@@ -46,7 +46,7 @@ static int lastoffset;
 
 extern unsigned int chars_consumed_by_filter;
 extern char* bufferpos;
-char linebuffer[1000];
+char linebuffer[1000 + 1];
 char title[31] = "";
 int pagenumber = 0;
 
-- 
2.43.0


From aa6244ada504bf18fe8f7c9b264279de19e73dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 14/62] fix: evaluate expressions on 32 bits as documented

On machines with 64 bit longs, divisions, right shifts and comparisons saw
bits above the 32nd, a quotient could overflow and kill crasm (SIGFPE), and
shift counts beyond the word were undefined.
---
 src/operator.c | 43 +++++++++++++++++++++++++++++++++----------
 src/scode.c    |  2 ++
 2 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/operator.c b/src/operator.c
index 6e3e0a7..cc4ffe7 100644
--- a/src/operator.c
+++ b/src/operator.c
@@ -31,13 +31,20 @@
 
 /****************************************  Usage general */
 
+/* expressions are evaluated on 32 bits, and overflow silently */
+static long wrap32(unsigned long val)
+{
+  val &= 0xffffffffUL;
+  return (val & 0x80000000UL) ? -(long)(0xffffffffUL - val) - 1 : (long)val;
+}
+
 static void cst(struct result* presult, long int val)
 {
   presult->flags = 0;
   presult->type = L_ABSOLUTE;
   presult->modifier = 0;
   presult->ptr = NULL;
-  presult->value = val;
+  presult->value = wrap32(val);
 }
 
 static char overflow[] = "overflow";
@@ -231,7 +238,7 @@ void cstascii(struct result* presult, char* s)
 
     oval = val;
 
-    val = (val << 8) + r;
+    val = ((val << 8) + r) & 0xffffffffUL;
 
     if ((val >> 8) != oval)
     {
@@ -255,7 +262,7 @@ void cstlabel(struct result* presult, char* s)
   q = findlabel(s);
   presult->flags    = q->flags;
   presult->type     = q->type;
-  presult->value    = q->value;
+  presult->value    = wrap32(q->value);
   presult->modifier = q->modifier;
   presult->ptr      = q->ptr;
 
@@ -270,7 +277,7 @@ void cstlabel(struct result* presult, char* s)
 void opminus(struct result* presult)
 {
   checktype(presult, L_ABSOLUTE);
-  presult->value = -presult->value;
+  presult->value = wrap32(-(unsigned long)presult->value);
 }
 
 
@@ -285,7 +292,7 @@ void opnot(struct result* presult)
 
 void opadd(struct result* presult, struct result* parg)
 {
-  presult->value += parg->value;
+  presult->value = wrap32((unsigned long)presult->value + parg->value);
   presult->flags |= parg->flags;
 
   if (presult->type == L_ABSOLUTE
@@ -355,7 +362,7 @@ void opsub(struct result* presult, struct result* parg)
 
   if (presult->type != L_REGS)
   {
-    presult->value -= parg->value;
+    presult->value = wrap32((unsigned long)presult->value - parg->value);
   }
 }
 
@@ -406,7 +413,7 @@ void opmul(struct result* presult, struct result* parg)
   checktype(presult, L_ABSOLUTE);
   checktype(parg, L_ABSOLUTE);
   presult->flags |= parg->flags;
-  presult->value *= parg->value;
+  presult->value = wrap32((unsigned long)presult->value * parg->value);
 }
 
 void opdiv(struct result* presult, struct result* parg)
@@ -416,7 +423,7 @@ void opdiv(struct result* presult, struct result* parg)
   checktype(parg, L_ABSOLUTE);
   if (parg->value != 0)
   {
-    presult->value /= parg->value;
+    presult->value = wrap32(presult->value / parg->value);
   }
 }
 
@@ -458,7 +465,15 @@ void oplsh(struct result* presult, struct result* parg)
   checktype(presult, L_ABSOLUTE);
   checktype(parg, L_ABSOLUTE);
   presult->flags |= parg->flags;
-  presult->value <<= parg->value;
+
+  if (parg->value < 0 || parg->value > 31)
+  {
+    presult->value = 0;
+  }
+  else
+  {
+    presult->value = wrap32((unsigned long)presult->value << parg->value);
+  }
 }
 
 void oprsh(struct result* presult, struct result* parg)
@@ -466,6 +481,14 @@ void oprsh(struct result* presult, struct result* parg)
   checktype(presult, L_ABSOLUTE);
   checktype(parg, L_ABSOLUTE);
   presult->flags |= parg->flags;
-  presult->value >>= parg->value;
+
+  if (parg->value < 0 || parg->value > 31)
+  {
+    presult->value = (presult->value < 0) ? -1 : 0;
+  }
+  else
+  {
+    presult->value >>= parg->value;
+  }
 }
 
diff --git a/src/scode.c b/src/scode.c
index fd0ab2e..c740485 100644
--- a/src/scode.c
+++ b/src/scode.c
@@ -37,6 +37,8 @@ extern int includelevel;
 
 void setpc(long unsigned int addr)
 {
+  addr &= 0xffffffffUL; /* expressions are signed, addresses are not */
+
   if (addr != pc)
   {
     flushscoderaw();
-- 
2.43.0


From 92db34df92dcb00e565051697f8345fe81a5fc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:40 +0000
Subject: [PATCH 15/62] fix: refuse binary constants that do not fit in 32 bits

---
 src/operator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operator.c b/src/operator.c
index cc4ffe7..621f23a 100644
--- a/src/operator.c
+++ b/src/operator.c
@@ -173,7 +173,7 @@ void cstbinary(struct result* presult, char* s)
 
     r = *s - '0';
 
-    if (val > 0xefffffff)
+    if (val > 0x7fffffff)
     {
       error(overflow);
     }
-- 
2.43.0


From aaf2ea089b02825a31d0df6cce56ca1ed281b8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:51 +0000
Subject: [PATCH 16/62] fix: operators of equal precedence associate to the
 left

parse2() meant to pick the rightmost operator of a group, but it compared the
addresses of two copies instead of the lengths of the right operands, and so
evaluated 8*3/2 as 8*(3/2).
---
 src/parse.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 9395b2e..7a624b8 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -133,7 +133,8 @@ static void parse2(char* expr, struct result* presult)
 
         if (filter(expr, q[i].filtre, &ca, &cb))
         {
-          if (cb < c2 || j < 0)
+          /* the rightmost operator: left associativity */
+          if (j < 0 || strlen(ca) < strlen(c1))
           {
             c1 = ca;
             c2 = cb;
-- 
2.43.0


From e370be1216f77018573d175712854b8463f88496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:07 +0000
Subject: [PATCH 17/62] fix: process a last line that lacks its newline like
 any other

feof() is already true after reading it, so an ENDC or ENDM there raised
'Unexpected End of File', and a file included there was skipped by the first
pass and read ahead of the whole program by the second.  A source that
cannot be read (a directory) looped forever.
---
 src/macro.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/macro.c b/src/macro.c
index c107558..d43d69c 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -567,6 +567,17 @@ void linegets(char* buffer, int length)
     register char* s2;
     buffer[0] = 0;
     s1 = fgets(buffer, length, source[slevel].filedesc.file);
+
+    if (s1)
+    {
+      /* a last line without newline is not the end yet */
+      clearerr(source[slevel].filedesc.file);
+    }
+    else if (ferror(source[slevel].filedesc.file))
+    {
+      fatal("can't read source file");
+    }
+
     s2 = buffer;
     s1 = buffer;
 
-- 
2.43.0


From 58183e8e1fef7c36a1f4d490748ffd016b4d845d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:28 +0000
Subject: [PATCH 18/62] fix: a program that emits no byte no longer leaves a
 stale code file

The assembly was reported as successful, but the file named by -o was that of
an earlier run, or missing.
---
 src/crasm.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/crasm.c b/src/crasm.c
index 421863f..6b81e14 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -203,6 +203,17 @@ void crasm(int flag)
   undeflabels(lroot);
   pass(2);
 
+  if ((flag & SCODE) && scode == NULL && errnumber == 0)
+  {
+    /* a program without code replaces the previous file as well */
+    scode = fopen(scodename, "w");
+
+    if (scode == NULL)
+    {
+      fatal("can't open scode file");
+    }
+  }
+
   if (scode)
   {
     closescodefile();
-- 
2.43.0


From f6ba27de847c6d7cd047a4c2659cada08d5e62e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 19/62] fix: a code file that could not be written is an error

The last block is written by fclose(), whose failure was ignored: crasm said
'Successful assembly' and left a truncated file.
---
 src/scode.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/scode.c b/src/scode.c
index c740485..7132591 100644
--- a/src/scode.c
+++ b/src/scode.c
@@ -34,6 +34,7 @@ int rawnumber;
 int rawextended;
 char raw[16];
 extern int includelevel;
+extern int errnumber;
 
 void setpc(long unsigned int addr)
 {
@@ -167,7 +168,15 @@ void closescodefile(void)
 
   if (scode)
   {
-    fclose(scode);
+    int failed = ferror(scode);
+
+    if (fclose(scode) || failed)
+    {
+      fileerror(scodename);
+      errnumber++;
+    }
+
+    scode = NULL;
   }
 }
 
-- 
2.43.0


From 742a9feb1e1850b9f270f593cf57758d8d7c7cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 20/62] fix: a fatal error no longer leaves a partial code file

---
 src/crasm.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/crasm.c b/src/crasm.c
index 6b81e14..1462a79 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -662,6 +662,14 @@ void warning(char* s)
 void fatal(char* s)
 {
   printf("FATAL ERROR: %s\n", s);
+
+  if (scode)
+  {
+    /* do not leave half a program behind */
+    fclose(scode);
+    remove(scodename);
+  }
+
   exit(10);
 }
 
-- 
2.43.0


From f4756212e34dc32482ee2b5fd2b716a880792528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:46 +0000
Subject: [PATCH 21/62] fix: the lines that a conditional skips raise no error

They were only scanned for the end of the block, but an unknown mnemonic in
them still failed the assembly.
---
 src/crasm.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/crasm.c b/src/crasm.c
index 1462a79..c40bb98 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -459,7 +459,7 @@ int asmline(char* s, int status)
     mnemo = "equ";
     labmnemo = findmnemo(mnemo);
 
-    if (checklabel(label) == FALSE)
+    if ((status & 2) && checklabel(label) == FALSE)
     {
       error("malformed label");
     }
@@ -479,7 +479,7 @@ start:
       {
         label = mnemo;
 
-        if (checklabel(label) == FALSE)
+        if ((status & 2) && checklabel(label) == FALSE)
         {
           error("malformed label");
         }
@@ -497,6 +497,17 @@ start:
 
   if (labmnemo == NULL)
   {
+    if (!(status & 2))
+    {
+      /* a skipped line needs not make sense */
+      if (status & 1)
+      {
+        outputline();
+      }
+
+      return 0;
+    }
+
     if (linestartswithoutblanks && label == NULL && oper == NULL && mnemo != NULL)
     {
       label = mnemo;
@@ -519,7 +530,7 @@ start:
 
   if (labmnemo->flags & NOLABEL)
   {
-    if (label)
+    if (label && (status & 2))
     {
       error("labels not allowed here");
     }
@@ -527,7 +538,7 @@ start:
 
   if (labmnemo->flags & DEFLABEL)
   {
-    if (!label)
+    if (!label && ((status & 2) || (labmnemo->flags & DEFMACRO)))
     {
       error("label required here");
     }
-- 
2.43.0


From eaabbc0ff5ebe630ebc1460afddd996b6ae4513c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:23 +0000
Subject: [PATCH 22/62] fix: refuse a label whose forward references got
 another value

Code above the definition is assembled with the value the label had at the
end of the first pass.  When the second pass gives it another one ('DS' or
'*' set from a later label, chains of forward definitions) the references
were silently wrong.
---
 src/label.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/label.c b/src/label.c
index 6948501..2ac2d09 100644
--- a/src/label.c
+++ b/src/label.c
@@ -38,6 +38,8 @@ struct labelarray
 
 struct label* lroot = NULL;
 
+extern int errnumber;
+
 /* checklabel(name)
    Retourne TRUE si name est une chaine acceptable pour un label
 */
@@ -204,6 +206,7 @@ struct label* findlabel(char* name)
 struct label* deflabel(char* name, unsigned char flags, unsigned char type, long value)
 {
   register struct label* q;
+  register int r = FALSE;
 
   q = searchlabel(name);
 
@@ -227,6 +230,14 @@ struct label* deflabel(char* name, unsigned char flags, unsigned char type, long
     }
   }
 
+  if (passnumber == 2 && errnumber == 0 && (q->flags & UNDEF) && (q->flags & FORWARD)
+      && (q->flags & NOREDEF) && q->value != value)
+  {
+    /* the code above used the value of the first pass
+       (an error on a line above may be all that moved it) */
+    r = TRUE;
+  }
+
   q->flags &= USED | NOREDEF | FORWARD;
   flags    &= ~USED;
 
@@ -234,6 +245,12 @@ struct label* deflabel(char* name, unsigned char flags, unsigned char type, long
   q->flags |= flags;
   q->ptr = NULL;
   q->value = value;
+
+  if (r)
+  {
+    error("forward referenced label moved between passes");
+  }
+
   return q;
 }
 
-- 
2.43.0


From 2366fe4a77a73580030ac6bc4bf408f9bd78a481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:24 +0000
Subject: [PATCH 23/62] fix: refuse a negative DS size, it emitted bytes almost
 forever

---
 src/pseudos.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pseudos.c b/src/pseudos.c
index 6b45e8d..95c71e1 100644
--- a/src/pseudos.c
+++ b/src/pseudos.c
@@ -187,6 +187,11 @@ int Xds(int modifier, char* label, char* mnemo, char* oper)
   checktype(r, L_ABSOLUTE);
   i = r->value;
 
+  if (i < 0)
+  {
+    error("negative size");
+  }
+
   while (i--)
   {
     insert8(init);
-- 
2.43.0


From 2e9ddbec6d286efa95138b898631993691a6ef38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 24/62] fix: a line longer than 249 characters was split into
 two lines

---
 src/macro.c | 68 ++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 46 insertions(+), 22 deletions(-)

diff --git a/src/macro.c b/src/macro.c
index d43d69c..7bd0fd3 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -563,38 +563,49 @@ void linegets(char* buffer, int length)
 
   if (source[slevel].type == S_FILE)
   {
-    register char* s1;
-    register char* s2;
-    buffer[0] = 0;
-    s1 = fgets(buffer, length, source[slevel].filedesc.file);
+    int c;
+    int removed = 0;
+    int toolong = 0;
+    int empty = 1;
+    register char* s = buffer;
 
-    if (s1)
-    {
-      /* a last line without newline is not the end yet */
-      clearerr(source[slevel].filedesc.file);
-    }
-    else if (ferror(source[slevel].filedesc.file))
+    while ((c = getc(source[slevel].filedesc.file)) != EOF)
     {
-      fatal("can't read source file");
-    }
+      empty = 0;
 
-    s2 = buffer;
-    s1 = buffer;
+      if (c == '\n')
+      {
+        break;
+      }
 
-    while (s1 && *s1 && *s1 != '\n' && s1 - buffer < length)
-    {
-      if (*s1 == '\t' || isprint((unsigned char)*s1)
-          || !isascii((unsigned char)*s1))
+      if (c != '\t' && !isprint(c) && isascii(c))
+      {
+        removed = 1;
+      }
+      else if (s - buffer < length - 1)
+      {
+        *s++ = c;
+      }
+      else
       {
-        *s2++ = *s1;
+        toolong = 1;
       }
+    }
+
+    *s = 0;
 
-      s1++;
+    if (c == EOF && ferror(source[slevel].filedesc.file))
+    {
+      fatal("can't read source file");
     }
 
-    *s2 = 0;
+    if (!empty)
+    {
+      /* a last line without newline is not the end yet */
+      clearerr(source[slevel].filedesc.file);
+    }
 
-    if (s1 != s2)
+    if (removed)
     {
       warning("Unprintable characters removed");
     }
@@ -611,6 +622,19 @@ void linegets(char* buffer, int length)
     {
       source[slevel].type = S_END;
     }
+
+    if (toolong)
+    {
+      char* dummy;
+      zerobuffer();
+
+      if (!filter(buffer, "?;?", &dummy, &dummy))
+      {
+        /* more than a comment was lost */
+        advance = 0;
+        error("too long line");
+      }
+    }
   }
   else
   {
-- 
2.43.0


From ff62e5a645a7a88a01a35d44ea96f9ac680281a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 25/62] fix: the warning about unprintable characters named the
 previous line

---
 src/macro.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/macro.c b/src/macro.c
index 7bd0fd3..4604b15 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -605,13 +605,13 @@ void linegets(char* buffer, int length)
       clearerr(source[slevel].filedesc.file);
     }
 
+    linenumber++;
+
     if (removed)
     {
       warning("Unprintable characters removed");
     }
 
-    linenumber++;
-
     if ((linenumber & 7) == 1 && passnumber == 1)
     {
       fprintf(stderr, "%d    \r", linenumber);
-- 
2.43.0


From 809ed52231ffbce1431f4128711d4d63b877dce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 26/62] fix: macro arguments and expanded macro lines are no
 longer cut silently

---
 src/macro.c | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/macro.c b/src/macro.c
index 4604b15..96bfcd7 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -512,7 +512,7 @@ union
     byte oldlist;
     byte oldprefix;
     int  oldlinnum;
-    char (*replace)[60];
+    char (*replace)[256];
     int  numarg;
     struct macroline* mlineptr;
   } macrodesc;
@@ -640,28 +640,30 @@ void linegets(char* buffer, int length)
   {
     register struct macroline* q;
     int numarg;
-    char (*replace)[60];
+    int toolong = 0;
+    char (*replace)[256];
     register char* s1;
     register char* s2;
 
     q = source[slevel].macrodesc.mlineptr;
     numarg = source[slevel].macrodesc.numarg;
     replace = source[slevel].macrodesc.replace;
-    s1 = buffer;
-    s2 = q->line;
 
     if (!q)
     {
       fatal("internal macrocall error");
     }
 
+    s1 = buffer;
+    s2 = q->line;
+
     source[slevel].macrodesc.mlineptr = q->next;
 
     while (*s2)
     {
-      if (s1 - buffer > length - 10)
+      if (s1 - buffer > length - 3)
       {
-        warning("Too long line");
+        toolong = 1;
         break;
       }
 
@@ -693,8 +695,9 @@ void linegets(char* buffer, int length)
 
         while (s && *s)
         {
-          if (s1 - buffer > length - 10)
+          if (s1 - buffer > length - 3)
           {
+            toolong = 1;
             break;
           }
 
@@ -710,6 +713,12 @@ void linegets(char* buffer, int length)
     }
 
     *s1 = 0;
+
+    if (toolong)
+    {
+      advance = 0;
+      error("too long line");
+    }
   }
 }
 
@@ -768,7 +777,7 @@ extern int segment;
 
 int macrocall(struct label* labmacro, int status, char* oper)
 {
-  char replace[10][60];
+  char replace[10][256];
   register int slevel, flag;
   int numarg, oldsegment, mystatus;
   jmp_buf errjmpsav;
@@ -794,8 +803,8 @@ int macrocall(struct label* labmacro, int status, char* oper)
 
   if (oper && *oper)
   {
-    strncpy(replace[9], oper, 59);
-    replace[9][59] = 0;
+    strncpy(replace[9], oper, 255);
+    replace[9][255] = 0;
   }
 
   while (oper && *oper)
@@ -811,13 +820,13 @@ int macrocall(struct label* labmacro, int status, char* oper)
     if (filter(oper, "?_,_?", &arg1, &arg2))
     {
       oper = arg2;
-      strncpy(replace[numarg], arg1, 59);
-      replace[numarg++][59] = 0;
+      strncpy(replace[numarg], arg1, 255);
+      replace[numarg++][255] = 0;
     }
     else
     {
-      strncpy(replace[numarg], oper, 59);
-      replace[numarg++][59] = 0;
+      strncpy(replace[numarg], oper, 255);
+      replace[numarg++][255] = 0;
       oper = NULL;
     }
   }
-- 
2.43.0


From 293df345d5c6fba2c7360bfe6702240eeeffd4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:26 +0000
Subject: [PATCH 27/62] fix: CPU Z80 no longer overrides an OUTPUT SCODE

---
 src/cpuz80.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cpuz80.c b/src/cpuz80.c
index c590b4b..bdaa3c7 100644
--- a/src/cpuz80.c
+++ b/src/cpuz80.c
@@ -979,7 +979,11 @@ endmnemos
 
 void initz80(int code)
 {
-  setflag(F_CODE_HEX);  /* Intel hex by default */
+
+  if (!(asmflags & F_CODE_SCODE))
+  {
+    setflag(F_CODE_HEX);  /* Intel hex by default */
+  }
   setflag(F_ADDR16);    /* 16 bits address      */
   setflag(F_LOHI);      /* LSB first            */
   clrflag(F_RELATIF);   /* no translatable code */
-- 
2.43.0


From e975bf31953e3c89a2325a46e01053c58221d5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:40 +0000
Subject: [PATCH 28/62] fix: JR, CALL and JP without condition shifted a
 negative value

---
 src/cpuz80.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cpuz80.c b/src/cpuz80.c
index bdaa3c7..2bffa71 100644
--- a/src/cpuz80.c
+++ b/src/cpuz80.c
@@ -352,7 +352,7 @@ static int searchcond(int maxcond, char* oper, char** pres)
 static int jr(int code, char* label, char* mnemo, char* oper)
 {
   char* operand2;
-  code = 0x20 + (searchcond(4, oper, &operand2) << 3);
+  code = 0x20 + (searchcond(4, oper, &operand2) * 8);
   return relbranch(code, label, mnemo, operand2);
 }
 
@@ -389,7 +389,7 @@ static int call(int code, char* label, char* mnemo, char* oper)
   register int cond;
   register struct result* r;
 
-  cond = searchcond(8, oper, &operand2) << 3;
+  cond = searchcond(8, oper, &operand2) * 8;
   r = parse(operand2);
   checktype(r, L_ABSOLUTE);
 
@@ -428,7 +428,7 @@ static int jp(int code, char* label, char* mnemo, char* oper)
   }
   else
   {
-    cond = searchcond(8, oper, &operand2) << 3;
+    cond = searchcond(8, oper, &operand2) * 8;
     r = parse(operand2);
     checktype(r, L_ABSOLUTE);
 
-- 
2.43.0


From af3f766bad8d20780ba933f9c73f73212611e54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:51 +0000
Subject: [PATCH 29/62] fix: a page narrower than 62 columns aborted in the
 symbol table

---
 src/xref.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/xref.c b/src/xref.c
index ed21d52..19c1ebc 100644
--- a/src/xref.c
+++ b/src/xref.c
@@ -42,7 +42,7 @@ void printlabel(struct label* label)
   int newpos;
   register int i;
 
-  if (lpos + RECLEN >= llen)
+  if (lpos && lpos + RECLEN >= llen)
   {
     outputEOL();
   }
@@ -108,7 +108,15 @@ void printlabel(struct label* label)
 
   *b = 0;
   output(buffer);
-  position(newpos);
+
+  if (newpos < llen)
+  {
+    position(newpos);
+  }
+  else
+  {
+    outputEOL();
+  }
 }
 
 
-- 
2.43.0


From e4f2fb8fca3bc1f6afb8432b3403753f3cfb1d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:51 +0000
Subject: [PATCH 30/62] fix: ILIST ON no longer lasts from the first pass into
 the second

---
 src/crasm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/crasm.c b/src/crasm.c
index c40bb98..1dc7b64 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -257,6 +257,7 @@ void pass(int n)
 #else
   asmflags &= ~ F_MACROLIST_ON;
   asmflags |=   F_IFLIST_ON;
+  asmflags &= ~ F_INCLUDELIST_ON;
 #endif
   macrolevel    = 0;
   thiscall      = 0;
-- 
2.43.0


From 5e8894d8ac52201e0de28966e60b1a78dfab6aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:12 +0000
Subject: [PATCH 31/62] fix: LDX A, LDY A, CPX A, CPY A and BIT A assembled to
 other instructions

---
 src/cpu6502.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cpu6502.c b/src/cpu6502.c
index 01b6ede..3de4242 100644
--- a/src/cpu6502.c
+++ b/src/cpu6502.c
@@ -185,6 +185,11 @@ static int standard(int code, char* label, char* mnemo, char* oper)
     if (mode == 10 && r->type == L_REGS && r->modifier == 0)
     {
       mode = 15;
+
+      if (code & F_noacc)
+      {
+        error("illegal addressing mode");
+      }
     }
     else
     {
-- 
2.43.0


From 1cfa9e414506482247bd1cfb45bf4017c071911f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:43 +0000
Subject: [PATCH 32/62] fix: IN and OUT refused blanks inside the parentheses
 of the port

---
 src/cpuz80.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpuz80.c b/src/cpuz80.c
index 2bffa71..bdfa974 100644
--- a/src/cpuz80.c
+++ b/src/cpuz80.c
@@ -495,8 +495,8 @@ static int inout(int code, char* label, char* mnemo, char* oper)
   CLRALL;
 
   if ((!(code & 8)) ?
-      filter(oper, "(?)_,_?", &op1, &op2)
-      : filter(oper, "?_,_(?)", &op2, &op1))
+      filter(oper, "(_?_)_,_?", &op1, &op2)
+      : filter(oper, "?_,_(_?_)", &op2, &op1))
   {
     reg = getreg(op1);
 
-- 
2.43.0


From 9c1dd97c03985952f0f521587756e443b44c3566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:46 +0000
Subject: [PATCH 33/62] fix: an escaped backslash before other escapes or the
 end of a constant broke expressions

---
 src/filter.c | 69 ++++++++++++++++------------------------------------
 1 file changed, 21 insertions(+), 48 deletions(-)

diff --git a/src/filter.c b/src/filter.c
index 5252225..a960300 100644
--- a/src/filter.c
+++ b/src/filter.c
@@ -178,6 +178,9 @@ int filter(char* s, char* fil, ...)
 }
 
 
+/* reverse(s)
+   Reverses s in place.  The escape sequences of strings are not reversed.
+*/
 void reverse(char* s)
 {
   register char* d;
@@ -185,61 +188,31 @@ void reverse(char* s)
   register char c;
   register int quote = 0;
 
-  d = s;
-  f = s;
-
-  while (*d)
+  /* turn the escape sequences, the reversal below turns them back */
+  for (d = s; *d; d++)
   {
-    d++;
+    if (quote && *d == '\\' && d[1])
+    {
+      c = d[0];
+      d[0] = d[1];
+      *++d = c;
+    }
+    else if (*d == '\'' && quote != 0x2)
+    {
+      quote ^= 0x1;
+    }
+    else if (*d == '\"' && quote != 0x1)
+    {
+      quote ^= 0x2;
+    }
   }
 
+  f = s;
+
   while (--d > f)
   {
     c = *f;
     *f++ = *d;
     *d = c;
   }
-
-  for (d = s; *d; d++)
-  {
-    switch (*d)
-    {
-    case '\'':
-      if (! quote)
-      {
-        quote |= 0x1;
-      }
-      else if (quote & 0x1)
-      {
-        if (d[1] != '\\')
-        {
-          quote &= ~0x1;
-        }
-      }
-      break;
-
-    case '\"':
-      if (! quote)
-      {
-        quote |= 0x2;
-      }
-      else if (quote & 0x2)
-      {
-        if (d[1] != '\\')
-        {
-          quote &= ~0x2;
-        }
-      }
-      break;
-
-    case '\\':
-      if (quote)
-      {
-        d[0] = d[-1];
-        d[-1] = '\\';
-      }
-      break;
-    }
-  }
 }
-
-- 
2.43.0


From cc15b7ccf06592a8d86222413bbfa8d591d048ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:56 +0000
Subject: [PATCH 34/62] fix: the star label next to other operators was taken
 for a multiplication

---
 src/parse.c | 57 +++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 57 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index 7a624b8..cf556eb 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -106,6 +106,47 @@ struct oplist
   { NULL, 0, 0, 0 }
 };
 
+#define STAR '\001'  /* the star label, once told from the multiplication */
+
+/* markstar(expr)
+   An asterisk which does not follow an operand is the star label.
+*/
+static void markstar(char* s)
+{
+  register int quote = 0;
+  register int operand = 0;
+
+  for (; *s; s++)
+  {
+    if (quote)
+    {
+      if (*s == '\\' && s[1])
+      {
+        s++;
+      }
+      else if (*s == quote)
+      {
+        quote = 0;
+      }
+    }
+    else if (*s == '*' && !operand)
+    {
+      *s = STAR;
+      operand = 1;
+    }
+    else if (*s != ' ' && *s != '\t')
+    {
+      operand = !strchr("+-*/|&^<>~({\\", *s);
+
+      if (*s == '\'' || *s == '\"')
+      {
+        quote = *s;
+      }
+    }
+  }
+}
+
+
 
 static void parse2(char* expr, struct result* presult)
 {
@@ -185,6 +226,12 @@ static void parse2(char* expr, struct result* presult)
     case -3:    /* label */
       reverse(expr);
 
+      if (*expr == STAR && !expr[1])
+      {
+        cstlabel(presult, "*");
+        return;
+      }
+
       if (checklabel(expr))
       {
         cstlabel(presult, expr);
@@ -230,9 +277,19 @@ struct result* parse(char* expr)
     warning("external parenthesis ignored");
   }
 
+  markstar(expr);
   reverse(expr);
   parse2(expr, &calcresult);
   reverse(expr);
+
+  for (dummy = expr; *dummy; dummy++)
+  {
+    if (*dummy == STAR)
+    {
+      *dummy = '*';
+    }
+  }
+
   return &calcresult;
 }
 
-- 
2.43.0


From 863142426621db863f3a6a37ac6d7e959ee4d8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:20 +0000
Subject: [PATCH 35/62] fix: deeply nested IFs overflowed the stack

---
 src/crasm.c |  1 +
 src/dcl.h   |  1 +
 src/macro.c | 15 +++++++++++++++
 3 files changed, 17 insertions(+)

diff --git a/src/crasm.c b/src/crasm.c
index 1dc7b64..4b1f174 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -283,6 +283,7 @@ void pass(int n)
       errnumber++;
     }
 
+    iflevel = 0;
     linegets(curline, 250);
 
     if (asmline(curline, 3))
diff --git a/src/dcl.h b/src/dcl.h
index 5d5e059..c217f9d 100644
--- a/src/dcl.h
+++ b/src/dcl.h
@@ -50,6 +50,7 @@ typedef signed char byte;
 extern int asmflags;
 extern int passnumber;
 extern int macrolevel;
+extern int iflevel;
 extern int advance;
 
 extern FILE* file;
diff --git a/src/macro.c b/src/macro.c
index 96bfcd7..818c25b 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -31,6 +31,9 @@
 #include <ctype.h>
 
 #define MAXSOURCEDEEP 10
+#define MAXIFDEEP 1000
+
+int iflevel;
 
 extern jmp_buf errorjump;
 extern int errnumber;
@@ -184,6 +187,12 @@ int Xif(int status, char* label, char* mnemo, char* oper)
   int booleanvalue;
   char oldprefix;
   jmp_buf errjmpsav;
+  int level = iflevel + 1;
+
+  if (level > MAXIFDEEP)
+  {
+    fatal("too many nested IFs");
+  }
 
   booleanvalue = FALSE;
 
@@ -231,6 +240,7 @@ int Xif(int status, char* label, char* mnemo, char* oper)
       errnumber++;
     }
 
+    iflevel = level;
     linegets(curline, 250);
 
     if (feof(file))
@@ -252,6 +262,7 @@ int Xif(int status, char* label, char* mnemo, char* oper)
 
   jmp_buf_copy(errorjump, errjmpsav);
   lineprefix = oldprefix;
+  iflevel = level - 1;
 
 
   if (flag == ENDM)
@@ -304,6 +315,7 @@ int Xif(int status, char* label, char* mnemo, char* oper)
       errnumber++;
     }
 
+    iflevel = level;
     linegets(curline, 250);
 
     if (feof(file))
@@ -325,6 +337,7 @@ int Xif(int status, char* label, char* mnemo, char* oper)
 
   jmp_buf_copy(errorjump, errjmpsav);
   lineprefix = oldprefix;
+  iflevel = level - 1;
 
   if (flag == ENDM || flag == ELSE)
   {
@@ -780,6 +793,7 @@ int macrocall(struct label* labmacro, int status, char* oper)
   char replace[10][256];
   register int slevel, flag;
   int numarg, oldsegment, mystatus;
+  int level = iflevel;
   jmp_buf errjmpsav;
   char curlinesav[256];
 
@@ -866,6 +880,7 @@ int macrocall(struct label* labmacro, int status, char* oper)
       errnumber++;
     }
 
+    iflevel = level;
     linegets(curline, 250);
     flag = asmline(curline, status & mystatus);
   } while (flag == 0);
-- 
2.43.0


From f8c2d1737c16c9d7e6c3a21c05f4de7dd39c6ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:10 +0000
Subject: [PATCH 36/62] fix: remove a previous code file on fatal errors too

---
 src/crasm.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/crasm.c b/src/crasm.c
index 4b1f174..6e09125 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -678,8 +678,12 @@ void fatal(char* s)
 
   if (scode)
   {
-    /* do not leave half a program behind */
     fclose(scode);
+  }
+
+  if (scodename && file)
+  {
+    /* leave neither half a program nor a previous one behind */
     remove(scodename);
   }
 
-- 
2.43.0


From d89bcea4869c0e0de8983884b09498a8a156842b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:07 +0000
Subject: [PATCH 37/62] fix: labels like ret.1 or asl.x were taken for
 mnemonics with a size field

---
 src/crasm.c | 18 ++----------------
 src/label.h |  3 +--
 2 files changed, 3 insertions(+), 18 deletions(-)

diff --git a/src/crasm.c b/src/crasm.c
index 6e09125..182a2ae 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -328,26 +328,12 @@ static void herelabel(char* label)
 
 static struct label* findmnemo(char* mnemo)
 {
-  char* aux1;
-  char* aux2;
   register struct label* labmnemo;
 
+  /* no processor here has mnemonics with a size field ("move.b"), and the
+     sign of the modifier does not tell: many opcodes look negative */
   labmnemo = searchlabel(mnemo);
 
-  if (labmnemo == NULL) /* sizer 68k */
-  {
-    if (filter(mnemo, "?.?", &aux1, &aux2))
-    {
-      if ((labmnemo = searchlabel(aux1)))
-      {
-        if (labmnemo->modifier >= 0)
-        {
-          labmnemo = NULL;
-        }
-      }
-    }
-  }
-
   if (labmnemo)
   {
     if (!(labmnemo->flags & UNDEF))
diff --git a/src/label.h b/src/label.h
index f2da603..dbdf356 100644
--- a/src/label.h
+++ b/src/label.h
@@ -59,8 +59,7 @@ struct result
 #define L_REGS    5
 #define L_DIRECTBIT 6 /* etc... */
 
-/* flags
-modifier < 0 =>         size field allowed 68k-like */
+/* flags */
 
 #define UNDEF     (1<<0)
 #define FORWARD   (1<<1)
-- 
2.43.0


From 6f9c2ec97c93122dbaedb918cbaf03a2d9effb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:01 +0000
Subject: [PATCH 38/62] fix: a label alone on its line may not be any text

---
 src/crasm.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/crasm.c b/src/crasm.c
index 182a2ae..125a005 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -502,6 +502,11 @@ start:
 
       if (status & 2)
       {
+        if (checklabel(label) == FALSE)
+        {
+          error("malformed label");
+        }
+
         herelabel(label);
       }
 
-- 
2.43.0


From 2d26514edb9076ffe481eb5318ed7fbb63772b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:29 +0000
Subject: [PATCH 39/62] fix: an alias of a mnemonic that is used was marked as
 never used

---
 src/crasm.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/crasm.c b/src/crasm.c
index 125a005..72de499 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -544,6 +544,11 @@ start:
     }
   }
 
+  if (status & 2)
+  {
+    labmnemo->flags |= USED;
+  }
+
   if (labmnemo->flags & DEFCOND)
   {
     return (*labmnemo->ptr)(status, label, mnemo, oper);
-- 
2.43.0


From 16413ec7dceff45a267001c20d289a7a8ad469fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:00 +0000
Subject: [PATCH 40/62] fix: the symbol table ran kind and name together next
 to 8 digit values

---
 src/xref.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/xref.c b/src/xref.c
index 19c1ebc..65b2f6c 100644
--- a/src/xref.c
+++ b/src/xref.c
@@ -98,6 +98,11 @@ void printlabel(struct label* label)
   position(newpos - LABLEN - 2 - strlen(buffer));
   output(buffer);
 
+  if (lpos >= newpos - LABLEN - 1)
+  {
+    outputcar(' '); /* an 8 digits value takes the room before the name */
+  }
+
   position(newpos - LABLEN - 1);
   b = buffer;
 
-- 
2.43.0


From df99f9e69988f6a79448988e6955ffc80301d769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:35 +0000
Subject: [PATCH 41/62] fix: a second definition of a macro was taken for a
 call of it

---
 src/crasm.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/crasm.c b/src/crasm.c
index 72de499..a3c1eca 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -463,6 +463,17 @@ start:
     {
       labmnemo = findmnemo(mnemo);
 
+      if (labmnemo && labmnemo->type == L_MACRO && label == NULL && !strcasecmp(oper, "MACRO"))
+      {
+        /* defined a second time, not called */
+        if (status & 2)
+        {
+          error("macro is already defined");
+        }
+
+        labmnemo = NULL;
+      }
+
       if (labmnemo == NULL && label == NULL)
       {
         label = mnemo;
-- 
2.43.0


From 45820487fc82ed5534634b8cc9b31014fb7c588a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 42/62] fix: RST took vectors beyond 16 bits, and shifted
 negative ones

---
 src/cpuz80.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpuz80.c b/src/cpuz80.c
index bdfa974..00647dd 100644
--- a/src/cpuz80.c
+++ b/src/cpuz80.c
@@ -307,14 +307,14 @@ static int rst(int code, char* label, char* mnemo, char* oper)
   r = parse(oper);
   checktype(r, L_ABSOLUTE);
 
-  if (!(r->value & 0xfff8))
+  if (!(r->value & ~0x7L))
   {
     r->value <<= 3;
   }
 
   insert8(0xc7 | r->value);
 
-  if (r->value & 0xffc7)
+  if (r->value & ~0x38L)
   {
     error("Bad RST vector");
   }
-- 
2.43.0


From d840261e2a7a0876082b0b916365d91ece24aae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:30 +0000
Subject: [PATCH 43/62] fix: do not list the INCLUDE lines of macros that are
 not listed

---
 src/macro.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/macro.c b/src/macro.c
index 818c25b..bedac06 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -766,7 +766,8 @@ int Xinclude(int modifier, char* label, char* mnemo, char* oper)
   source[slevel].filedesc.oldlist = (asmflags & F_LIST_ON) ? 1 : 0;
   source[slevel].filedesc.file  = f;
 
-  if (asmflags & F_LIST_ON)
+  /* a line of a macro, unless macro expansions are listed, is not shown */
+  if ((asmflags & F_LIST_ON) && (macrolevel == 0 || asmflags & F_MACROLIST_ON))
   {
     outputline();
   }
-- 
2.43.0


From 15001aba721a50a2950faa20176e4b7698a47e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:05 +0000
Subject: [PATCH 44/62] fix: EXITM closes the files that the macro has included

---
 src/macro.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/macro.c b/src/macro.c
index bedac06..9d65811 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -886,6 +886,13 @@ int macrocall(struct label* labmacro, int status, char* oper)
     flag = asmline(curline, status & mystatus);
   } while (flag == 0);
 
+  /* an EXITM leaves the files that the macro has included */
+  for (; sourcelevel > slevel; sourcelevel--)
+  {
+    includelevel--;
+    fclose(source[sourcelevel].filedesc.file);
+  }
+
   macrolevel--;
   linenumber = source[slevel].filedesc.oldlinnum;
   lineprefix = source[slevel].filedesc.oldprefix;
-- 
2.43.0


From 3475236c9a9c1a1619a12edd57100932e2af39bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:06 +0000
Subject: [PATCH 45/62] fix: the call of an unlisted macro shows the code of
 its include files

---
 src/macro.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/macro.c b/src/macro.c
index 9d65811..1103c0e 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -776,7 +776,8 @@ int Xinclude(int modifier, char* label, char* mnemo, char* oper)
   sourcelevel = slevel;
   includelevel++;
 
-  if (!(asmflags & F_INCLUDELIST_ON))
+  /* the call of a macro that is not listed shows all the code it generates */
+  if (!(asmflags & F_INCLUDELIST_ON) && (macrolevel == 0 || asmflags & F_MACROLIST_ON))
   {
     asmflags &= ~F_LIST_ON;
   }
-- 
2.43.0


From 2caec08899503602bb135ccb6169187393225574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:11 +0000
Subject: [PATCH 46/62] fix: refuse an origin that is not a number

---
 src/pseudos.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pseudos.c b/src/pseudos.c
index 95c71e1..4539e23 100644
--- a/src/pseudos.c
+++ b/src/pseudos.c
@@ -39,6 +39,11 @@ int Xequ(int modifier, char* label, char* mnemo, char* oper)
   r = parse(oper);
   r->flags &= ~(UNDEF | USED | NOREDEF);
 
+  if (*label == '*' && r->type != L_RELATIVE)
+  {
+    checktype(r, L_ABSOLUTE); /* an origin is a number */
+  }
+
   if (r->type == L_ABSOLUTE || r->type == L_RELATIVE)
   {
     if (macrolevel == 0 || asmflags & F_MACROLIST_ON)
-- 
2.43.0


From e0d2d4ae0627265f5b4ee5c0de4c51ee56946b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:16 +0000
Subject: [PATCH 47/62] fix: a macro with an illegal ENDM is not called

---
 src/macro.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/macro.c b/src/macro.c
index 1103c0e..ebe1164 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -493,6 +493,11 @@ int Xmacro(int status, char* label, char* mnemo, char* oper)
 
   if (*s1 || *s2)
   {
+    if (lbl)
+    {
+      lbl->flags |= UNDEF; /* there is nothing to call */
+    }
+
     error("illegal ENDM instruction");
   }
 
-- 
2.43.0


From 75aaaafff8814c6ca0623c6bd10128e788eae337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:28 +0000
Subject: [PATCH 48/62] fix: a stray ELSE or ENDC does not end a macro call

---
 src/macro.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/macro.c b/src/macro.c
index ebe1164..594ffe0 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -890,6 +890,11 @@ int macrocall(struct label* labmacro, int status, char* oper)
     iflevel = level;
     linegets(curline, 250);
     flag = asmline(curline, status & mystatus);
+
+    if (flag != 0 && flag != ENDM && flag != EXITM)
+    {
+      error("ELSE or ENDC illegal here");
+    }
   } while (flag == 0);
 
   /* an EXITM leaves the files that the macro has included */
@@ -913,11 +918,6 @@ int macrocall(struct label* labmacro, int status, char* oper)
   segment = oldsegment;
   jmp_buf_copy(errorjump, errjmpsav);
 
-  if (flag != ENDM && flag != EXITM)
-  {
-    error("ELSE or ENDC illegal here");
-  }
-
   if (!(asmflags & F_MACROLIST_ON))
   {
     strcpy(curline, curlinesav);
-- 
2.43.0


From dd77953bd5e1f67d627a58f631115d121bc1d033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:15 +0000
Subject: [PATCH 49/62] fix: an illegal ENDM is listed once

---
 src/macro.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/macro.c b/src/macro.c
index 594ffe0..3d52de9 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -423,6 +423,7 @@ int Xmacro(int status, char* label, char* mnemo, char* oper)
   char* s1;
   char* s2;
   struct macroline* startmacro;
+  int ended;
   register struct macroline** where;
   char mname[LABLEN + 1];
   struct label* lbl = 0;
@@ -483,11 +484,13 @@ int Xmacro(int status, char* label, char* mnemo, char* oper)
       where = & ((*where)->next);
     }
 
-    if (status & 1)
+    ended = filter(s1, "_?_ENDM_?", &s1, &s2);
+
+    if ((status & 1) && !(ended && (*s1 || *s2))) /* the error lists its line */
     {
       outputline();
     }
-  } while (! filter(s1, "_?_ENDM_?", &s1, &s2));
+  } while (!ended);
 
   jmp_buf_copy(errorjump, errjmpsav);
 
-- 
2.43.0


From 68039c1d2dc2b6ce94087eae410558ed0e012460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:31 +0000
Subject: [PATCH 50/62] fix: skipped MACRO, ENDM and EXITM lines need not make
 sense

---
 src/crasm.c |  2 +-
 src/macro.c | 19 +++++++++++++++----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/crasm.c b/src/crasm.c
index a3c1eca..695520a 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -542,7 +542,7 @@ start:
 
   if (labmnemo->flags & DEFLABEL)
   {
-    if (!label && ((status & 2) || (labmnemo->flags & DEFMACRO)))
+    if (!label && (status & 2))
     {
       error("label required here");
     }
diff --git a/src/macro.c b/src/macro.c
index 3d52de9..d83fdaa 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -377,7 +377,7 @@ struct macroline
 
 int Xexitm(int status, char* label, char* mnemo, char* oper)
 {
-  if (oper)
+  if (oper && (status & 2))
   {
     error("no operand allowed in EXITM statement");
   }
@@ -398,7 +398,7 @@ int Xexitm(int status, char* label, char* mnemo, char* oper)
 
 int Xendm(int status, char* label, char* mnemo, char* oper)
 {
-  if (oper)
+  if (oper && (status & 2))
   {
     error("no operand allowed in ENDM statement");
   }
@@ -428,6 +428,17 @@ int Xmacro(int status, char* label, char* mnemo, char* oper)
   char mname[LABLEN + 1];
   struct label* lbl = 0;
 
+  if (!(status & 2) && (!label || oper || macrolevel))
+  {
+    /* a skipped line needs not make sense */
+    if (status & 1)
+    {
+      outputline();
+    }
+
+    return 0;
+  }
+
   where = &startmacro;
   strncpy(mname, label, LABLEN);
   mname[LABLEN] = 0;
@@ -486,7 +497,7 @@ int Xmacro(int status, char* label, char* mnemo, char* oper)
 
     ended = filter(s1, "_?_ENDM_?", &s1, &s2);
 
-    if ((status & 1) && !(ended && (*s1 || *s2))) /* the error lists its line */
+    if ((status & 1) && !((status & 2) && ended && (*s1 || *s2))) /* the error lists its line */
     {
       outputline();
     }
@@ -494,7 +505,7 @@ int Xmacro(int status, char* label, char* mnemo, char* oper)
 
   jmp_buf_copy(errorjump, errjmpsav);
 
-  if (*s1 || *s2)
+  if ((status & 2) && (*s1 || *s2))
   {
     if (lbl)
     {
-- 
2.43.0


From 831e4c6912ccd6c8faf7392631b31685f3c5037e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:38 +0000
Subject: [PATCH 51/62] fix: a macro call with a label may have an operand that
 starts with MACRO

---
 src/crasm.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/crasm.c b/src/crasm.c
index 695520a..c4af3f4 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -572,11 +572,6 @@ start:
 
   if (labmnemo->type == L_MACRO)
   {
-    if (label && oper && !strncmp(oper, "MACRO", 5))
-    {
-      error("macro is already defined");
-    }
-
     if (status & 2)
     {
       macrocall(labmnemo, status, oper);
-- 
2.43.0


From b1d19de73f29b814ca3fac50316ac61c058999e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:04 +0000
Subject: [PATCH 52/62] fix: only the mnemonic ENDM ends a macro, not any text
 that contains it

---
 src/macro.c | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/macro.c b/src/macro.c
index d83fdaa..cc53319 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -417,6 +417,33 @@ int Xendm(int status, char* label, char* mnemo, char* oper)
 }
 
 
+/* endmline(s,alone)
+   TRUE if ENDM is the first or second word of the line, *alone if it is the only one
+*/
+static int endmline(char* s, int* alone)
+{
+  int i;
+  int len;
+
+  for (i = 0; i < 2; i++)
+  {
+    s += strspn(s, " \t");
+    len = strcspn(s, " \t");
+
+    if (len == 4 && !strncasecmp(s, "ENDM", 4))
+    {
+      s += len;
+      *alone = (i == 0 && !s[strspn(s, " \t")]);
+      return TRUE;
+    }
+
+    s += len;
+  }
+
+  return FALSE;
+}
+
+
 int Xmacro(int status, char* label, char* mnemo, char* oper)
 {
   jmp_buf errjmpsav;
@@ -424,6 +451,7 @@ int Xmacro(int status, char* label, char* mnemo, char* oper)
   char* s2;
   struct macroline* startmacro;
   int ended;
+  int alone;
   register struct macroline** where;
   char mname[LABLEN + 1];
   struct label* lbl = 0;
@@ -495,9 +523,9 @@ int Xmacro(int status, char* label, char* mnemo, char* oper)
       where = & ((*where)->next);
     }
 
-    ended = filter(s1, "_?_ENDM_?", &s1, &s2);
+    ended = endmline(s1, &alone);
 
-    if ((status & 1) && !((status & 2) && ended && (*s1 || *s2))) /* the error lists its line */
+    if ((status & 1) && !((status & 2) && ended && !alone)) /* the error lists its line */
     {
       outputline();
     }
@@ -505,7 +533,7 @@ int Xmacro(int status, char* label, char* mnemo, char* oper)
 
   jmp_buf_copy(errorjump, errjmpsav);
 
-  if ((status & 2) && (*s1 || *s2))
+  if ((status & 2) && !alone)
   {
     if (lbl)
     {
-- 
2.43.0


From 5b3799f043bcd95c46af1ed99ace29a9827b1752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:26 +0000
Subject: [PATCH 53/62] fix: the shift operators of a condition are no
 comparisons

---
 src/macro.c | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/macro.c b/src/macro.c
index cc53319..91598cf 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -94,6 +94,35 @@ static struct compar
 
 static struct result zero = { 0, L_ABSOLUTE, 0, 0, 0 };
 
+/* the operators << and >> are no comparisons */
+#define SHIFTLEFT '\002'
+#define SHIFTRIGHT '\003'
+
+static void hideshifts(char* s)
+{
+  for (; *s; s++)
+  {
+    if ((*s == '<' || *s == '>') && s[1] == *s)
+    {
+      s[0] = s[1] = (*s == '<') ? SHIFTLEFT : SHIFTRIGHT;
+      s++;
+    }
+  }
+}
+
+
+static void showshifts(char* s)
+{
+  for (; *s; s++)
+  {
+    if (*s == SHIFTLEFT || *s == SHIFTRIGHT)
+    {
+      *s = (*s == SHIFTLEFT) ? '<' : '>';
+    }
+  }
+}
+
+
 static int testtrue(char* oper)
 {
   char* s1, *s2;
@@ -106,6 +135,7 @@ static int testtrue(char* oper)
   }
 
   q = compar;
+  hideshifts(oper);
 
   while (q->comp)
   {
@@ -119,11 +149,14 @@ static int testtrue(char* oper)
 
   if (!q->comp)
   {
+    showshifts(oper);
     r1 = *parse(oper);
     r2 = zero;
   }
   else
   {
+    showshifts(s1);
+    showshifts(s2);
     r1 = *parse(s1);
     r2 = *parse(s2);
   }
-- 
2.43.0


From 2eaaa9f4e407e5c856650fa2f84a5b807cb74a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:51 +0000
Subject: [PATCH 54/62] fix: an expression that starts and ends with different
 parentheses is not enclosed in them

---
 src/filter.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/filter.c b/src/filter.c
index a960300..1bb52c0 100644
--- a/src/filter.c
+++ b/src/filter.c
@@ -55,6 +55,8 @@ int filter(char* s, char* fil, ...)
   register char* starts;
   register char* startf;
   register int quote;
+  int level = 0;      /* () of the filter that are open */
+  int startlevel = 0;
   char* oldbufferpos;
   char* str_start = (s) ? s : "";
 
@@ -96,6 +98,7 @@ int filter(char* s, char* fil, ...)
       {
         startf = fil;
         starts = s;
+        startlevel = level;
       }
     }
     else if (*fil == SPACES)
@@ -109,12 +112,16 @@ int filter(char* s, char* fil, ...)
              (toupper(*fil) == toupper(*s) ||
               (*fil == ' ' && *s == '\t')))
     {
+      level += (*fil == '(') - (*fil == ')');
       s++;
     }
 
     else
     {
-      if (startf == NULL || *s == 0)
+      /* "(?)" is not "(x)+(x)", even reversed */
+      if (startf == NULL || *s == 0 ||
+          (quote == 0 && ((startlevel > 0 && *starts == ')') ||
+                          (startlevel < 0 && *starts == '('))))
       {
         *bufferpos = 0;
         bufferpos = oldbufferpos;
@@ -169,6 +176,7 @@ int filter(char* s, char* fil, ...)
       *bufferpos++ = *starts;
       s = ++starts;
       fil = startf;
+      level = startlevel;
     }
   } while (*fil++ != 0);
 
-- 
2.43.0


From 868f39e7826535ececd41a917f1f43e2bc280acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:58 +0000
Subject: [PATCH 55/62] fix: the distance of (IX-expr) is negated without
 overflowing

---
 src/cpuz80.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpuz80.c b/src/cpuz80.c
index 00647dd..943d348 100644
--- a/src/cpuz80.c
+++ b/src/cpuz80.c
@@ -74,7 +74,7 @@ static int getreg(char* oper)
 
         if (i > 3)
         {
-          offset = -offset;
+          offset = (int)(0u - (unsigned int)offset);
         }
       }
 
-- 
2.43.0


From 47cef1bba258f994cd918e17de6ffe565ea98c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:54 +0000
Subject: [PATCH 56/62] fix: several OUTPUT directives do not mix two formats
 in one code file

---
 src/pseudos.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pseudos.c b/src/pseudos.c
index 4539e23..a92a3c2 100644
--- a/src/pseudos.c
+++ b/src/pseudos.c
@@ -454,21 +454,27 @@ int Xskip(int modifier, char* label, char* mnemo, char* oper)
 /* Xoutput  OUTPUT SCODE | OUTPUT HEX */
 int Xoutput(int modifier, char* label, char* mnemo, char* oper)
 {
-  asmflags &= ~(F_CODE_HEX | F_CODE_SCODE);
+  int format = 0;
 
   if (filter(oper, "_HEX_"))
   {
-    asmflags |= F_CODE_HEX;
+    format = F_CODE_HEX;
   }
   else if (filter(oper, "_SCODE_"))
   {
-    asmflags |= F_CODE_SCODE;
+    format = F_CODE_SCODE;
   }
   else
   {
     error("please, use options SCODE or HEX");
   }
 
+  if (passnumber == 1) /* a code file has one format, the last one given */
+  {
+    asmflags &= ~(F_CODE_HEX | F_CODE_SCODE);
+    asmflags |= format;
+  }
+
   return 0;
 }
 
-- 
2.43.0


From 709439da0212bbf2786656ee5903e045c8a847a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:46 +0000
Subject: [PATCH 57/62] fix: long local labels are distinguished by all their
 characters

---
 src/label.c | 10 +++++-----
 src/label.h |  3 ++-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/label.c b/src/label.c
index 2ac2d09..455462c 100644
--- a/src/label.c
+++ b/src/label.c
@@ -80,7 +80,7 @@ int checklabel(char* name)
    stocke dans  addrpos  l'adresse du pointeur vers ce label
 */
 static struct label** addrpos;
-static char localname[LABLEN + 2];
+static char localname[NAMELEN + 2];
 
 struct label* searchlabel(char* name)
 {
@@ -101,7 +101,7 @@ struct label* searchlabel(char* name)
     }
   }
 
-  while (s - localname < LABLEN)
+  while (s - localname < NAMELEN)
   {
     if (*name)
     {
@@ -118,7 +118,7 @@ struct label* searchlabel(char* name)
   q = lroot;
   addrpos = &lroot;
 
-  while (q != NULL && (r = strncmp(s, q->name, LABLEN)) != 0)
+  while (q != NULL && (r = strncmp(s, q->name, NAMELEN)) != 0)
   {
     if (r > 0)
     {
@@ -171,7 +171,7 @@ struct label* makelabel(char* name, unsigned char flags, unsigned char type)
 
   *addrpos = q;
 
-  strncpy(q->name, localname, LABLEN);
+  strncpy(q->name, localname, NAMELEN);
   q->type  = type;
   q->flags = flags;
 
@@ -302,7 +302,7 @@ void init_label_list(struct label* array)
       else
       {
         *addrpos = q;
-        strncpy(q->name, localname, LABLEN);
+        strncpy(q->name, localname, NAMELEN);
       }
 
       i += incr;
diff --git a/src/label.h b/src/label.h
index dbdf356..cd0f75f 100644
--- a/src/label.h
+++ b/src/label.h
@@ -29,12 +29,13 @@
 #define LABEL_H
 
 #define LABLEN 48
+#define NAMELEN (LABLEN + 10) /* a local label has the number of its scope in front */
 
 struct label
 {
   struct label* left;
   struct label* right;
-  char name[LABLEN];
+  char name[NAMELEN];
   byte flags;
   byte type;
   short modifier;
-- 
2.43.0


From 48b89b7797d3b3a43ee53b6c3ffdcdfcb29ae4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:06 +0000
Subject: [PATCH 58/62] fix: the code file does not overwrite a source file

---
 src/crasm.c | 25 +++++++++++++++++++++++++
 src/dcl.h   |  1 +
 src/macro.c |  1 +
 3 files changed, 27 insertions(+)

diff --git a/src/crasm.c b/src/crasm.c
index c4af3f4..3177a2e 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -28,6 +28,8 @@
 #include "dcl.h"
 #include "version.h"
 #include "label.h"
+#include <sys/types.h>
+#include <sys/stat.h>
 
 #define SCODE 1
 #define LIST  2
@@ -156,6 +158,28 @@ int main(int argc, char** argv)
 }
 
 
+/* keepsource(f)
+   The code file must not take the place of f, a source file of the program.
+*/
+void keepsource(FILE* f)
+{
+  struct stat source;
+  struct stat code;
+
+  if (scodename && stat(scodename, &code) == 0 && fstat(fileno(f), &source) == 0
+      && S_ISREG(code.st_mode)
+      && source.st_dev == code.st_dev && source.st_ino == code.st_ino)
+  {
+    if (scode == NULL)
+    {
+      scodename = NULL; /* not to be removed */
+    }
+
+    fatal("scode file is a source file");
+  }
+}
+
+
 void crasm(int flag)
 {
   init_label_list(pseudos);
@@ -166,6 +190,7 @@ void crasm(int flag)
     fatal("can't open source file");
   }
 
+  keepsource(file);
   scode = NULL;
   llen = 76;
   plen = 66;
diff --git a/src/dcl.h b/src/dcl.h
index c217f9d..eeb744e 100644
--- a/src/dcl.h
+++ b/src/dcl.h
@@ -95,6 +95,7 @@ extern int lpos;
 /* external: crasm.c */
 extern void jmp_buf_copy(jmp_buf in, jmp_buf out);
 extern void crasm(int flag);
+extern void keepsource(FILE* f);
 extern void pass(int pass);
 extern int  asmline(char* s, int status);
 extern void error(char* s);
diff --git a/src/macro.c b/src/macro.c
index 91598cf..44514c5 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -833,6 +833,7 @@ int Xinclude(int modifier, char* label, char* mnemo, char* oper)
     error("can't open include file");
   }
 
+  keepsource(f);
   slevel = sourcelevel + 1;
 
   if (slevel >= MAXSOURCEDEEP)
-- 
2.43.0


From 3428d181a249b5dcaeb15cb2e8ca79cfc651e2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:42 +0000
Subject: [PATCH 59/62] fix: a directory or device in place of the code file is
 not removed

---
 src/crasm.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/crasm.c b/src/crasm.c
index 3177a2e..503c1f7 100644
--- a/src/crasm.c
+++ b/src/crasm.c
@@ -158,6 +158,20 @@ int main(int argc, char** argv)
 }
 
 
+/* removescode()
+   After an error there is no code file.  A directory or a device is none.
+*/
+static void removescode(void)
+{
+  struct stat code;
+
+  if (stat(scodename, &code) == 0 && S_ISREG(code.st_mode))
+  {
+    remove(scodename);
+  }
+}
+
+
 /* keepsource(f)
    The code file must not take the place of f, a source file of the program.
 */
@@ -255,7 +269,7 @@ void crasm(int flag)
 
   if (errnumber && (flag & SCODE))
   {
-    remove(scodename);
+    removescode();
   }
 
   if (flag & XREF)
@@ -711,7 +725,7 @@ void fatal(char* s)
   if (scodename && file)
   {
     /* leave neither half a program nor a previous one behind */
-    remove(scodename);
+    removescode();
   }
 
   exit(10);
-- 
2.43.0


From 06e6f581cdf4f7829deefc4524f9af639ca61d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:24 +0000
Subject: [PATCH 60/62] fix: refuse ADD, ADC and SBC of the Z80 with three
 operands

---
 src/cpuz80.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cpuz80.c b/src/cpuz80.c
index 943d348..3ac0a11 100644
--- a/src/cpuz80.c
+++ b/src/cpuz80.c
@@ -673,6 +673,11 @@ static int arith(int code, char* label, char* mnemo, char* oper)
 
   if (reg == ACCUMULATOR)
   {
+    if (filter(op2, "?_,_?", &op1, &oper))
+    {
+      error(badop);
+    }
+
     logical(code, label, mnemo, op2);
   }
   else if (reg == HLREGISTER)
-- 
2.43.0


From f1b345135b2c180c017108eed28fc0607514c5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:45 +0000
Subject: [PATCH 61/62] fix: symbols defined in alphabetical order do not
 degenerate the symbol tree

---
 src/label.c | 75 +++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 62 insertions(+), 13 deletions(-)

diff --git a/src/label.c b/src/label.c
index 455462c..275a685 100644
--- a/src/label.c
+++ b/src/label.c
@@ -77,9 +77,7 @@ int checklabel(char* name)
 
 /* searchlabel(name)
    Retourne NULL ou l'adresse du label 'name'
-   stocke dans  addrpos  l'adresse du pointeur vers ce label
 */
-static struct label** addrpos;
 static char localname[NAMELEN + 2];
 
 struct label* searchlabel(char* name)
@@ -116,23 +114,80 @@ struct label* searchlabel(char* name)
   s = localname;
 
   q = lroot;
-  addrpos = &lroot;
 
   while (q != NULL && (r = strncmp(s, q->name, NAMELEN)) != 0)
   {
     if (r > 0)
     {
-      q = * (addrpos = &(q->right)) ;
+      q = q->right;
     }
     else
     {
-      q = * (addrpos = &(q->left)) ;
+      q = q->left;
     }
   }
 
   return q;
 }
 
+/* rank(name)
+   a number that has nothing to do with the alphabetical order
+*/
+static unsigned int rank(char* name)
+{
+  unsigned int h = 2166136261u;
+  register int i;
+
+  for (i = 0; i < NAMELEN && name[i]; i++)
+  {
+    h = (h ^ (unsigned char) name[i]) * 16777619u;
+  }
+
+  h = (h ^ (h >> 16)) * 0x85ebca6bu;
+  h = (h ^ (h >> 13)) * 0xc2b2ae35u;
+  return h ^ (h >> 16);
+}
+
+/* placelabel(q)
+   Puts q, a label with the name in localname, into the tree.  The ranks go down
+   from the root, so the tree is flat whatever the order of the definitions.
+*/
+static void placelabel(struct label* q)
+{
+  struct label** where = &lroot;
+  struct label** less = &(q->left);
+  struct label** more = &(q->right);
+  struct label* p;
+
+  strncpy(q->name, localname, NAMELEN);
+
+  while ((p = *where) != NULL && rank(p->name) >= rank(q->name))
+  {
+    where = (strncmp(q->name, p->name, NAMELEN) > 0) ? &(p->right) : &(p->left);
+  }
+
+  *where = q;
+
+  while (p != NULL)
+  {
+    if (strncmp(q->name, p->name, NAMELEN) > 0)
+    {
+      *less = p;
+      less = &(p->right);
+      p = *less;
+    }
+    else
+    {
+      *more = p;
+      more = &(p->left);
+      p = *more;
+    }
+  }
+
+  *less = NULL;
+  *more = NULL;
+}
+
 /* makelabel(name,flags,type)
    Cree et place le label ci dessus.
 */
@@ -166,12 +221,7 @@ struct label* makelabel(char* name, unsigned char flags, unsigned char type)
     labelarray_inst = NULL;
   }
 
-  q->left = NULL;
-  q->right = NULL;
-
-  *addrpos = q;
-
-  strncpy(q->name, localname, NAMELEN);
+  placelabel(q);
   q->type  = type;
   q->flags = flags;
 
@@ -301,8 +351,7 @@ void init_label_list(struct label* array)
       }
       else
       {
-        *addrpos = q;
-        strncpy(q->name, localname, NAMELEN);
+        placelabel(q);
       }
 
       i += incr;
-- 
2.43.0


From 72a3c375631e2932d72a535ee7b7f17a4b0354e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:15 +0000
Subject: [PATCH 62/62] fix: ALIGN needs an origin, as all data do

---
 src/pseudos.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pseudos.c b/src/pseudos.c
index a92a3c2..e35444c 100644
--- a/src/pseudos.c
+++ b/src/pseudos.c
@@ -484,6 +484,11 @@ int Xalign(int modifier, char* label, char* mnemo, char* oper)
 {
   extern unsigned long pc;
 
+  if (!(asmflags & F_ORG_GV))
+  {
+    error("no org given"); /* there is no address to align */
+  }
+
   if (filter(oper, "_EVEN_"))
   {
     if (pc & 1)
-- 
2.43.0

