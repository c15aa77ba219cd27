From 240d659ce6d53635f748c84c33f1d4213d0e25f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 01/39] fix: lst_truncate: count the elements that are kept

The loop that looks for the new last element never advanced its counter,
so truncating to 2 or more elements ran off the end of the list.
---
 maa/list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/list.c b/maa/list.c
index e9d7c14..48cd7c6 100644
--- a/maa/list.c
+++ b/maa/list.c
@@ -290,7 +290,7 @@ void lst_truncate(lst_List list, unsigned int length)
 		l->head = l->tail = NULL;
 	} else {
 		/* Find new end of list */
-		for (i = 1, d = l->head; i < length && d; d = d->next);
+		for (i = 1, d = l->head; i < length && d; i++, d = d->next);
    
 		/* Remember start of remainder of list */   
 		next = d->next;		
-- 
2.43.0


From e7143bb0079a7e991b2a140236681f7c173f8663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 02/39] fix: str_pool_finish: return the string already in the
 pool

A string grown piecewise and finished was returned as a second copy when
an equal string was in the pool, although growing and finishing is
documented to be equivalent to str_pool_find.
---
 maa/string.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/maa/string.c b/maa/string.c
index 97cfe97..3e2bb20 100644
--- a/maa/string.c
+++ b/maa/string.c
@@ -221,9 +221,11 @@ const char *str_pool_finish( str_Pool pool )
 {
 	poolInfo   p      = (poolInfo)pool;
 	const char *datum;
+	const char *old;
 
 	mem_grow( p->string, "\0", 1 ); /* guarantee null termination */
 	datum = mem_finish( p->string );
+	if ((old = hsh_retrieve( p->hash, datum ))) return old;
 	hsh_insert( p->hash, datum, datum );
 
 	return datum;
-- 
2.43.0


From 668499996b59241964709f941cb5e433a9428224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 03/39] fix: str_pool_iterate: end the iteration when the
 callback stops it

The table was left read-only, so that the next str_pool_find of a new
string or str_pool_destroy aborted.
---
 maa/string.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/maa/string.c b/maa/string.c
index 3e2bb20..cd44bf6 100644
--- a/maa/string.c
+++ b/maa/string.c
@@ -120,8 +120,10 @@ int str_pool_iterate(
 	/*   printf ("inside str_pool_iterate\n"); */
 
 	HSH_ITERATE_KEYS (hash, hash_pos, key){
-		if ((*iterator) ((const char *) key))
+		if ((*iterator) ((const char *) key)){
+			HSH_ITERATE_END (hash);
 			return 1;
+		}
 	}
 
 	return 0;
-- 
2.43.0


From a160eca0849ffa6ad4b2b94e9495f1d08a258eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 04/39] fix: str_exists, str_copyn: create the global pool when
 needed

Both (and str_unique through str_exists) dereferenced NULL when called
before any other operation on the global pool or after str_destroy.
---
 maa/string.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/maa/string.c b/maa/string.c
index cd44bf6..1aea49a 100644
--- a/maa/string.c
+++ b/maa/string.c
@@ -291,6 +291,7 @@ static void _str_check_global( void )
 
 int str_exists( const char *s )
 {
+	_str_check_global();
 	return str_pool_exists( global, s );
 }
 
@@ -339,6 +340,7 @@ const char *str_copy( const char *s )
 
 const char *str_copyn( const char *s, int length )
 {
+	_str_check_global();
 	return str_pool_copyn( global, s, length );
 }
 
-- 
2.43.0


From 2e8c9f3a92d6680a4e98b4bab975a7abaa6c7f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 05/39] fix: mem_strncpy: terminate the copy and do not read
 past len

One byte more than asked for was read, and the copy was not terminated
unless that byte happened to be NUL (mem_strncpy, arg_addn, str_copyn,
src_line).
---
 maa/memory.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maa/memory.c b/maa/memory.c
index de2e2da..4682833 100644
--- a/maa/memory.c
+++ b/maa/memory.c
@@ -151,7 +151,8 @@ const char *mem_strncpy(mem_String info,
 	i->growing_size = 0;
 
 	str = xmalloc(len + 1);
-	memcpy(str, string, len + 1);
+	memcpy(str, string, len);
+	str[len] = 0;
 	stk_push(i->allocated, str);
 
 	return str;
-- 
2.43.0


From 7ea691b2464e5796386d8eceab9618db18753ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 06/39] fix: test flags of group 2 in their own group

The test macro looked at group 3 for flags of group 2 (0x80000000), so
debug and run-time flags of that group could never be seen set.
---
 maa/debug.c | 4 ++--
 maa/flags.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/maa/debug.c b/maa/debug.c
index bff990b..b98bbfa 100644
--- a/maa/debug.c
+++ b/maa/debug.c
@@ -38,10 +38,10 @@
 #include "maaP.h"
 
 #define TEST(flags,var) (((flags)>>31)                         \
-			 ? (((flags)>>30)                                  \
+			 ? ((((flags)>>30)&1)                                \
 			    ? ((var[3] & (flags)) << 2)                    \
 			    : ((var[2] & (flags)) << 2))                   \
-			 : (((flags)>>30)                                  \
+			 : ((((flags)>>30)&1)                                \
 			    ? ((var[1] & (flags)) << 2)                    \
 			    : ((var[0] & (flags)) << 2)))
 
diff --git a/maa/flags.c b/maa/flags.c
index 3a4ab84..0c4a040 100644
--- a/maa/flags.c
+++ b/maa/flags.c
@@ -37,10 +37,10 @@
 #include "maaP.h"
 
 #define TEST(flags,var) (((flags)>>31)                                     \
-			 ? (((flags)>>30)                                  \
+			 ? ((((flags)>>30)&1)                                \
 			    ? ((var[3] & (flags)) << 2)                    \
 			    : ((var[2] & (flags)) << 2))                   \
-			 : (((flags)>>30)                                  \
+			 : ((((flags)>>30)&1)                                \
 			    ? ((var[1] & (flags)) << 2)                    \
 			    : ((var[0] & (flags)) << 2)))
 
-- 
2.43.0


From 295ed20a38bbb25de1bd1cbda1653c1c8e51d252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 07/39] fix: remember which flags are registered

The record of used flags was never written, so that a flag could be
registered for a second name although this is meant to be refused.
---
 maa/debug.c | 1 +
 maa/flags.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/maa/debug.c b/maa/debug.c
index b98bbfa..b4cec29 100644
--- a/maa/debug.c
+++ b/maa/debug.c
@@ -101,6 +101,7 @@ void _dbg_register(dbg_Type flag, const char *name)
 				  name);
 
 	hsh_insert(hash, name, (void *)flag);
+	usedFlags[ flag >> 30 ] |= flag;
 }
 
 /* \doc |dbg_register| is used to set up an asociated between a |flag| and
diff --git a/maa/flags.c b/maa/flags.c
index 0c4a040..f7f73f9 100644
--- a/maa/flags.c
+++ b/maa/flags.c
@@ -101,6 +101,7 @@ void flg_register(flg_Type flag, const char *name)
 				  name);
 
 	hsh_insert(hash, name, (void *)flag);
+	usedFlags[ flag >> 30 ] |= flag;
 }
 
 /* \doc |flg_set| sets the |name| flag.  If |name| is ``none,'' then all
-- 
2.43.0


From c0fbc31d82a614259086457815b9e2fff95dcd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 08/39] fix: dbg_set: refuse unknown names

A known name behind any first character cleared its flag, an unknown
name behind + or - was accepted, and the empty name was read past its
end. The condition is now that of flg_set.
---
 maa/debug.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/maa/debug.c b/maa/debug.c
index b4cec29..3f1642e 100644
--- a/maa/debug.c
+++ b/maa/debug.c
@@ -142,9 +142,8 @@ void dbg_set(const char *name)
 	}
    
 	if (!(flag = (dbg_Type)hsh_retrieve(hash, name))) {
-		if (!(flag = (dbg_Type)hsh_retrieve(hash, name+1))
-			&& *name != '-'
-			&& *name != '+') {
+		if ((*name != '-' && *name != '+')
+			|| !(flag = (dbg_Type)hsh_retrieve(hash, name+1))) {
 	 
 			fprintf(stderr, "Valid debugging flags are:\n");
 			dbg_list(stderr);
-- 
2.43.0


From 3094ce9fc277b9e0aefc4755887c78e39ee07f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 09/39] fix: b26_decode, b64_decode: no overflow for values
 above 2^31

The place value and the shifted digit were computed as int.
---
 maa/base26.c | 2 +-
 maa/base64.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/maa/base26.c b/maa/base26.c
index 9e94027..4eb03b4 100644
--- a/maa/base26.c
+++ b/maa/base26.c
@@ -82,7 +82,7 @@ unsigned long b26_decode(const char *val)
 {
 	unsigned long v = 0;
 	int           i;
-	int           offset = 1;
+	unsigned long offset = 1;
 	int           len = strlen(val);
 
 	for (i = len - 1; i >= 0; i--) {
diff --git a/maa/base64.c b/maa/base64.c
index b864949..2ab9007 100644
--- a/maa/base64.c
+++ b/maa/base64.c
@@ -109,7 +109,7 @@ unsigned long b64_decode_buf(const char *val, size_t len)
 			err_internal(__func__,
 						 "Illegal character in base64 value: `%c'", val[i]);
 
-		v |= tmp << offset;
+		v |= (unsigned long)tmp << offset;
 		offset += 6;
 	}
 
-- 
2.43.0


From e60fa92ff31dea900b23cff2254f267b936fc9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 10/39] fix: bit_tst: see bits above 31

The masked unsigned long was truncated to int.
---
 maa/bit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/bit.c b/maa/bit.c
index 20dc204..d1b7299 100644
--- a/maa/bit.c
+++ b/maa/bit.c
@@ -50,7 +50,7 @@ void bit_clr(unsigned long *flags, int bit)
 
 int bit_tst(unsigned long *flags, int bit)
 {
-	return (*flags & (1UL << bit));
+	return (*flags & (1UL << bit)) != 0;
 }
 
 /* \doc Return a count of the number of bits set in |flags|. */
-- 
2.43.0


From 9f1cad309ca807f9c86ac680910bd3415a6c7838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 11/39] fix: timers keep fractions of a second

The microsecond difference was divided as an integer, dropping the
fraction (and adding up to a second when it was negative).
---
 maa/timer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/timer.c b/maa/timer.c
index 23ec520..3175154 100644
--- a/maa/timer.c
+++ b/maa/timer.c
@@ -82,7 +82,7 @@ void tim_stop(const char *name)
 
 #define DIFFTIME(now,then)							\
 	(((now).tv_sec - (then).tv_sec)					\
-	 + ((now).tv_usec - (then).tv_usec)/1000000)
+	 + ((now).tv_usec - (then).tv_usec)/1000000.0)
 
 	_tim_check();
 	gettimeofday(&real, NULL);
-- 
2.43.0


From 60fadd69cabf1a807b118586340960353d944264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 12/39] fix: src_destroy: start afresh

The line count and the current place survived, so that a re-created
manager wrote beyond its new line table (after 1000 lines in all),
continued the old line numbers and kept a dangling file name.
---
 maa/source.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/maa/source.c b/maa/source.c
index 8bf4015..639305d 100644
--- a/maa/source.c
+++ b/maa/source.c
@@ -79,6 +79,8 @@ void src_destroy(void)
 	mem_destroy_strings(StringHeap);
 	xfree(Lines);		/* terminal */
 	Lines = StringHeap = InfoHeap = NULL;
+	Count = Used = 0;
+	memset(&Info, 0, sizeof(Info));
 }
 
 /* \doc |src_line| stores a |line| of length |len|. */
-- 
2.43.0


From a5989cf53e249dd642bb5f2aa0f65b70ee37564c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 13/39] fix: src_print_error, src_print_message: NULL means
 stdout

As documented; both crashed.
---
 maa/source.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/maa/source.c b/maa/source.c
index 639305d..f8893f6 100644
--- a/maa/source.c
+++ b/maa/source.c
@@ -405,10 +405,11 @@ void src_parse_error(FILE *stream, src_Type source, const char *message)
    by the line of source code specified by |source|.  If |stream| is
    "NULL", then "stdout" will be used. */
 
-void src_print_error(FILE *str, src_Type source, const char *format, ...)
+void src_print_error(FILE *stream, src_Type source, const char *format, ...)
 {
 	va_list    ap;
-	sourceType *s = (sourceType *)source;
+	sourceType *s   = (sourceType *)source;
+	FILE       *str = stream ? stream : stdout;
 
 	fflush(str);
 	if (format) {
@@ -427,10 +428,11 @@ void src_print_error(FILE *str, src_Type source, const char *format, ...)
 
 /* \doc |src_print_message| will just print a message labeled with a line. */
 
-void src_print_message(FILE *str, src_Type source, const char *format, ...)
+void src_print_message(FILE *stream, src_Type source, const char *format, ...)
 {
 	va_list    ap;
-	sourceType *s = (sourceType *)source;
+	sourceType *s   = (sourceType *)source;
+	FILE       *str = stream ? stream : stdout;
 
 	fflush(str);
 	if (format) {
-- 
2.43.0


From 05a5393c1db2d3db76abb67fdfb524db642bde07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 14/39] fix: src_parse_error: symbols of any length and without
 closing quote

A symbol longer than 1023 bytes overflowed a buffer on the stack, and
an unterminated one made the loop run past the end of the message.
---
 maa/source.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/maa/source.c b/maa/source.c
index f8893f6..b556950 100644
--- a/maa/source.c
+++ b/maa/source.c
@@ -312,8 +312,8 @@ void src_print_stats(FILE *stream)
 static void _src_print_yyerror(FILE *str, const char *message)
 {
 	const char *pt;
-	char       buf[1024];
-	char       *b;
+	const char *end;
+	char       *buf;
 	const char *concrete;
 
 	assert(str);
@@ -328,13 +328,18 @@ static void _src_print_yyerror(FILE *str, const char *message)
 			if (pt[1] == '`' && pt[2] && pt[3] == '\'' && pt[4] == '\'') {
 				fprintf(str, "`%c'", pt[2]);
 				pt += 4;
-			} else if (pt[1] == 'T' && pt[2] == '_') { /* replace symbols */
-				for (b = buf, ++pt; *pt && *pt != '\''; b++, pt++) *b = *pt;
-				*b = '\0';
+			} else if (pt[1] == 'T' && pt[2] == '_'
+					   && (end = strchr(pt, '\''))) { /* replace symbols */
+				++pt;
+				buf = xmalloc(end - pt + 1);
+				memcpy(buf, pt, end - pt);
+				buf[end - pt] = '\0';
 				if ((concrete = prs_concrete(buf)))
 					fprintf(str, "`%s'", concrete);
 				else
 					fprintf(str, "`%s'", buf);
+				xfree(buf);
+				pt = end;
 			} else
 				putc(*pt, str);
 		} else
-- 
2.43.0


From 03c6d2158990450495f1a3c3a67d0e0170791558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 15/39] fix: pr_readwrite: empty input

The descriptor was closed only after a write, so a filter that waits
for the end of its (empty) input waited for ever.
---
 maa/pr.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/maa/pr.c b/maa/pr.c
index e56e061..1020739 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -316,6 +316,11 @@ int pr_readwrite(int in, int out,
 
 	n = max(in, out) + 1;
 
+	if (!inLen) {
+		pr_close_nowait(in);
+		n = out + 1;
+	}
+
 	for (;;) {
 		tv.tv_sec  = 5;
 		tv.tv_usec = 0;
-- 
2.43.0


From 779003b11c61d0a66be4848d969fc5db0059ea76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 16/39] fix: pr_readwrite: go on after interruptions

A signal handled during select, read or write ended the program.
---
 maa/pr.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/maa/pr.c b/maa/pr.c
index 1020739..cb00d47 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -336,7 +336,10 @@ int pr_readwrite(int in, int out,
    
 		switch ((retval = select(n, &rfds, &wfds, &efds, &tv)))
 		{
-			case -1: err_fatal_errno(__func__, "Filter failed"); break;
+			case -1:
+				if (errno != EINTR)
+					err_fatal_errno(__func__, "Filter failed");
+				break;
 				/*       case 0:  err_fatal(__func__, "Filter hung\n");         break; */
 			default:
 				if (dbg_test(MAA_PR)) {
@@ -352,7 +355,7 @@ int pr_readwrite(int in, int out,
 				}
 				if (inLen) {
 					if ((count = write(in, inPt, inLen)) <= 0) {
-						if (errno != EAGAIN)
+						if (errno != EAGAIN && errno != EINTR)
 							err_fatal_errno(__func__, "Error writing to filter");
 					} else {
 						PRINTF(MAA_PR,("  wrote %d\n",count));
@@ -374,7 +377,7 @@ int pr_readwrite(int in, int out,
 										"Filter had non-zero exit status: 0x%x",
 										status);
 						return outLen;
-					} else if (errno != EAGAIN)
+					} else if (errno != EAGAIN && errno != EINTR)
 						err_fatal_errno(__func__, "Error reading from filter");
 				} else {
 					PRINTF(MAA_PR,("  read %d\n",count));
-- 
2.43.0


From 1713cacfc246e13513caa4cc45ae4c1710a59b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 17/39] fix: pr_readwrite: a full output buffer is not the end
 of output

Reading 0 bytes into the full buffer was taken for the end: more output
was dropped silently (the overflow test could never fire), and with
input left the program ended although the output would have fitted.
---
 maa/pr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/maa/pr.c b/maa/pr.c
index cb00d47..bb49b5e 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -295,6 +295,7 @@ int pr_readwrite(int in, int out,
 	int            count;
 	int            retval;
 	int            status;
+	char           extra;
    
 	if ((flags = fcntl(in, F_GETFL)) < 0)
 		err_fatal_errno(__func__, "Can't get flags for output stream");
@@ -367,7 +368,9 @@ int pr_readwrite(int in, int out,
 						}
 					}
 				}
-				if ((count = read(out, outPt, outMaxLen)) <= 0) {
+				/* a full buffer still needs to see the end of output */
+				if ((count = read(out, outMaxLen ? outPt : &extra,
+								  outMaxLen ? outMaxLen : 1)) <= 0) {
 					if (!count) {
 						if (inLen)
 							err_fatal(__func__,
-- 
2.43.0


From d2cf7887c16b268309e904ff87591d4aac40318b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 18/39] fix: prm_is_prime: 1 is no prime, and no overflow near
 2^32

The square of the divisor wrapped around for values above 65521^2, which
made large primes look composite.
---
 maa/prime.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maa/prime.c b/maa/prime.c
index abe82fa..27388d7 100644
--- a/maa/prime.c
+++ b/maa/prime.c
@@ -43,8 +43,9 @@
 int prm_is_prime(unsigned int value)
 {
 	unsigned int divisor = 3;
-	unsigned int square  = divisor * divisor;
+	unsigned long long square = divisor * divisor;
 
+	if (value == 1)   return 0;
 	if (value == 2)   return 1;
 	if (value == 3)   return 1;
 	if (!(value & 1)) return 0;	/* even */
-- 
2.43.0


From 11bc10ac4493f43b1e2cb5769d905f643f6921b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 19/39] fix: maa_shutdown: forget the concrete symbols

Their table was never destroyed and kept pointers into the destroyed
global string pool.
---
 maa/maa.c            | 1 +
 maa/parse-concrete.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/maa/maa.c b/maa/maa.c
index 3206cd8..43d9df8 100644
--- a/maa/maa.c
+++ b/maa/maa.c
@@ -56,6 +56,7 @@ void maa_shutdown(void)
 	}
 
 	_pr_shutdown();
+	_prs_shutdown();
 	str_destroy();
 	_lst_shutdown();
 	_sl_shutdown();
diff --git a/maa/parse-concrete.c b/maa/parse-concrete.c
index f591732..5e21075 100644
--- a/maa/parse-concrete.c
+++ b/maa/parse-concrete.c
@@ -43,4 +43,5 @@ const char *prs_concrete(const char *symbol)
 void _prs_shutdown(void)
 {
 	if (_prs_hash) hsh_destroy(_prs_hash);
+	_prs_hash = NULL;
 }
-- 
2.43.0


From f280f667b775c2f5e4177008ea38eb507cfb0854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 20/39] fix: set_add, set_del: both operands may be the same
 set

The chain being walked was freed by the growing or deleting.
---
 maa/set.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/maa/set.c b/maa/set.c
index c338d15..622c443 100644
--- a/maa/set.c
+++ b/maa/set.c
@@ -491,6 +491,8 @@ set_Set set_add(set_Set set1, set_Set set2)
 	_set_check(t1, __func__);
 	_set_check(t2, __func__);
    
+	if (t1 == t2) return set1;
+
 	if (t1->hash != t2->hash)
 		err_fatal(__func__,
 				  "Sets do not have identical hash functions");
@@ -537,9 +539,12 @@ set_Set set_del(set_Set set1, set_Set set2)
 	for (i = 0; i < t2->prime; i++) {
 		if (t2->buckets[i]) {
 			bucketType pt;
+			bucketType next;
 	 
-			for (pt = t2->buckets[i]; pt; pt = pt->next)
+			for (pt = t2->buckets[i]; pt; pt = next) {
+				next = pt->next; /* set1 may be set2 */
 				set_delete(set1, pt->elem);
+			}
 		}
 	}
 
-- 
2.43.0


From c49e11166b398b2d1aba839b3560fed5ea634585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 21/39] fix: _pr_shutdown: signal no process that was waited
 for

A child with several descriptors, of which one was closed by pr_close,
or that was waited for by pr_wait, was sent SIGKILL although its process
id could belong to another process by then.
---
 maa/pr.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/maa/pr.c b/maa/pr.c
index bb49b5e..a7f3696 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -93,13 +93,17 @@ static void _pr_init(void)
 void _pr_shutdown(void)
 {
 	int i;
+	int status;
 
 	if (_pr_objects) {
 		for (i = 0; i < max_fd(); i++) {
 			/* FIXME: blah */;
 			if (_pr_objects[i].pid) {
-				kill(_pr_objects[i].pid, SIGKILL); /* FIXME! be gentler. */
-				pr_wait(_pr_objects[i].pid);
+				/* no kill for what was waited for: the pid may be anyone's */
+				if (!waitpid(_pr_objects[i].pid, &status, WNOHANG)) {
+					kill(_pr_objects[i].pid, SIGKILL); /* FIXME! be gentler. */
+					pr_wait(_pr_objects[i].pid);
+				}
 				_pr_objects[i].pid = 0;
 			}
 		}
-- 
2.43.0


From 808006a9d5e0c20ed6363cdef737fdc261b1e3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 22/39] fix: logs keep their own identifier and file name

They were kept in the global string pool, so logs left open over
str_destroy or maa_shutdown used freed memory.
---
 maa/log.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/maa/log.c b/maa/log.c
index 563d987..24f9cbc 100644
--- a/maa/log.c
+++ b/maa/log.c
@@ -45,8 +45,8 @@ static int        inhibitFull = 0;
 static int        logOpen;
 static int        logFacility = LOG_USER;
 
-static const char *logIdent;
-static const char *logFilenameOrig;
+static char       *logIdent;
+static char       *logFilenameOrig;
 static char       *logFilename;
 static char       *logFilenameTmp;
 static int        logFilenameLen;
@@ -227,8 +227,10 @@ void log_file(const char *ident, const char *filename)
 						  "Log file \"%s\" open when trying to open \"%s\"",
 						  logFilename, filename);
 
-		logIdent        = str_find(ident);
-		logFilenameOrig = str_find(filename);
+		if (logIdent) xfree (logIdent);
+		logIdent        = xstrdup(ident);
+		if (logFilenameOrig) xfree (logFilenameOrig);
+		logFilenameOrig = xstrdup(filename);
 		logFilenameLen  = strlen(filename)*3+1024;
 		logFilename     = xmalloc(logFilenameLen + 1);
 		logFilenameTmp  = xmalloc(logFilenameLen + 1);
@@ -264,7 +266,8 @@ void log_stream(const char *ident, FILE *stream)
 			err_internal(__func__, "User stream already open");
 
 		logUserStream = stream;
-		logIdent      = str_find(ident);
+		if (logIdent) xfree (logIdent);
+		logIdent      = xstrdup(ident);
 
 		_log_set_hostname();
 		++logOpen;
-- 
2.43.0


From 92de90f209e7413a37c403e882b9772083e9a54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:11 +0000
Subject: [PATCH 23/39] fix: sl_iterate: no copy of the list on the run-time
 stack

---
 maa/sl.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/maa/sl.c b/maa/sl.c
index fddfb56..809f745 100644
--- a/maa/sl.c
+++ b/maa/sl.c
@@ -399,13 +399,15 @@ int sl_iterate(sl_List list, sl_Iterator f)
 	   walk.  Only memory locations for data to
 	   the left of the point may change! */
 	count = l->count;
-	copy = alloca(count * sizeof(void *));
+	copy = xmalloc((count + 1) * sizeof(void *));
 	for (i = 0, pt = l->head->forward[0]; pt; i++, pt = pt->forward[0]) {
 		copy[i] = pt->datum;
 	}
 	for (i = 0; i < count; i++) {
-		if ((retcode = f(copy[i]))) return retcode;
+		if ((retcode = f(copy[i]))) break;
 	}
+	xfree(copy);
+	if (i < count) return retcode;
 
 	_sl_check(list);
    
@@ -436,14 +438,16 @@ int sl_iterate_arg(sl_List list, sl_IteratorArg f, void *arg)
 	   walk.  Only memory locations for data to
 	   the left of the point may change! */
 	count = l->count;
-	copy = alloca(count * sizeof(void *));
+	copy = xmalloc((count + 1) * sizeof(void *));
 	for (i = 0, pt = l->head->forward[0]; pt; i++, pt = pt->forward[0]) {
 		_sl_check_entry(pt, __func__);
 		copy[i] = pt->datum;
 	}
 	for (i = 0; i < count; i++) {
-		if ((retcode = f(copy[i], arg))) return retcode;
+		if ((retcode = f(copy[i], arg))) break;
 	}
+	xfree(copy);
+	if (i < count) return retcode;
 
 	_sl_check(list);
    
-- 
2.43.0


From f8d730969bd4006d5442b201ad82e8c1472ace6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:16 +0000
Subject: [PATCH 24/39] fix: str_pool_readonly treated the pool itself as a
 hash table, STR_ITERATE_END did not compile

---
 maa/export.sym |  1 +
 maa/maa.h      |  4 ++--
 maa/string.c   | 11 +++++++++++
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/maa/export.sym b/maa/export.sym
index 0bfbb45..9bcce3b 100644
--- a/maa/export.sym
+++ b/maa/export.sym
@@ -115,6 +115,7 @@ str_pool_grow
 str_pool_finish
 str_pool_get_stats
 str_pool_print_stats
+str_pool_readonly
 str_pool_init_position
 str_pool_next_position
 str_pool_get_position
diff --git a/maa/maa.h b/maa/maa.h
index c4c4154..786e1e5 100644
--- a/maa/maa.h
+++ b/maa/maa.h
@@ -389,7 +389,7 @@ extern str_Position  str_pool_next_position(
 extern void str_pool_get_position(
 	str_Position position,
 	char const *const *key);
-#define str_pool_readonly(pool, flag) hsh_readonly ((pool), (flag))
+extern int        str_pool_readonly(str_Pool pool, int flag);
 
 extern int        str_pool_iterate(
 	str_Pool pool,
@@ -413,7 +413,7 @@ extern int        str_pool_iterate_arg(
 /* If the STR_ITERATE loop is exited before all elements in the table are
    seen, then STR_ITERATE_END should be called.  Calling this function
    after complete loops does no harm. */
-#define STR_ITERATE_END(T) str_readonly(T,0)
+#define STR_ITERATE_END(T) str_pool_readonly(T,0)
 
 extern int        str_exists(const char *s);
 extern const char *str_find(const char *s);
diff --git a/maa/string.c b/maa/string.c
index 1aea49a..fe25074 100644
--- a/maa/string.c
+++ b/maa/string.c
@@ -176,6 +176,17 @@ void str_pool_get_position (str_Position position, char const * const*key)
 	hsh_get_position (position, (void **) __UNCONST(key));
 }
 
+/* \doc |str_pool_readonly| sets the |readonly| flag for the |pool| to
+   |flag| (see |hsh_readonly|).  The previous value of the |readonly| flag
+   is returned. */
+
+int str_pool_readonly (str_Pool pool, int flag)
+{
+	poolInfo p = (poolInfo) pool;
+
+	return hsh_readonly (p -> hash, flag);
+}
+
 /* \doc |str_pool_copy| returns a copy of the string, |s|, using memory
    from the string pool object, |pool|.  This can be used for data that is
    known to be unique.  No checks are made for uniqueness, however; and a
-- 
2.43.0


From 7dc4ed90ef3e709f3419065a6aa02e675d47fcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:19 +0000
Subject: [PATCH 25/39] fix: pr_open: one descriptor given for several standard
 streams was closed after the first

---
 maa/pr.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/maa/pr.c b/maa/pr.c
index a7f3696..40e9e65 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -175,7 +175,6 @@ int pr_open2(const char *command, void(*callback)(void),
 		} else if (flags & USE) {								\
 			if (fd && *fd) {									\
 				dup2(*fd, FILENO);								\
-				close(*fd);										\
 			} else {											\
 				if ((null = open("/dev/null", flag)) >= 0) {	\
 					dup2(null, FILENO);							\
@@ -193,6 +192,11 @@ int pr_open2(const char *command, void(*callback)(void),
       
 #undef CHILD
 
+		/* only now, for one may have been given for several streams */
+		if ((flags & PR_USE_STDIN)  && infd  && *infd)  close(*infd);
+		if ((flags & PR_USE_STDOUT) && outfd && *outfd) close(*outfd);
+		if ((flags & PR_USE_STDERR) && errfd && *errfd) close(*errfd);
+
 		if (flags & PR_STDERR_TO_STDOUT)
 			dup2(STDOUT_FILENO, STDERR_FILENO);
       
-- 
2.43.0


From cb073c3900b58c12a200b18d200c763e0f948578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:23 +0000
Subject: [PATCH 26/39] fix: pr_spawn: the command inherited the caller's pipes
 to other children

---
 maa/pr.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/maa/pr.c b/maa/pr.c
index 40e9e65..3dd1b2c 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -432,6 +432,11 @@ int pr_spawn(const char *command)
 		err_fatal_errno(__func__, "Cannot fork");
 
 	if (pid == 0) {		/* child */
+		int i;
+
+		for (i = 0; i < max_fd(); i++)
+			if (_pr_objects[i].pid > 0) close(i);
+
 		execvp(argv[0], argv);
 		_exit(127);
 	}
-- 
2.43.0


From 6fc73744d57b506b80472d024bfb5a03b96ce071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:28 +0000
Subject: [PATCH 27/39] fix: pr_close: out of bounds access for a descriptor
 out of range

---
 maa/pr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/pr.c b/maa/pr.c
index 3dd1b2c..50531e4 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -273,7 +273,7 @@ int pr_close_nowait(int fd)
 
 	if (!_pr_objects)
 		err_internal(__func__, "No previous call to pr_open()");
-	if (!(pid = _pr_objects[ fd ].pid))
+	if (fd < 0 || fd >= max_fd() || !(pid = _pr_objects[ fd ].pid))
 		err_internal(__func__, "File (%d) not created by pr_open()", fd);
 
 	_pr_objects[ fd ].pid = 0;
-- 
2.43.0


From 41da5b963504b53b350f156f89571ee067f35d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:07 +0000
Subject: [PATCH 28/39] fix: src_destroy forgets the file name even when no
 line was stored

---
 maa/source.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/source.c b/maa/source.c
index b556950..2aafcd3 100644
--- a/maa/source.c
+++ b/maa/source.c
@@ -74,13 +74,13 @@ void src_create(void)
 
 void src_destroy(void)
 {
+	memset(&Info, 0, sizeof(Info));
 	if (!Lines) return;
 	mem_destroy_objects(InfoHeap);
 	mem_destroy_strings(StringHeap);
 	xfree(Lines);		/* terminal */
 	Lines = StringHeap = InfoHeap = NULL;
 	Count = Used = 0;
-	memset(&Info, 0, sizeof(Info));
 }
 
 /* \doc |src_line| stores a |line| of length |len|. */
-- 
2.43.0


From c1197739f76752543eef97835e6dabbc1a942537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:16 +0000
Subject: [PATCH 29/39] fix: hash, set, list and object operations check the
 object before they use it

---
 maa/hash.c   | 10 +++++++---
 maa/list.c   | 13 ++++++++-----
 maa/memory.c |  3 ++-
 maa/set.c    | 10 +++++++---
 4 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/maa/hash.c b/maa/hash.c
index 72ff75f..fffde91 100644
--- a/maa/hash.c
+++ b/maa/hash.c
@@ -219,12 +219,14 @@ int hsh_insert(
 	const void *datum)
 {
 	tableType     t         = (tableType)table;
-	unsigned long hashValue = t->hash(key);
+	unsigned long hashValue;
 	unsigned long h;
 
 	_hsh_check(t, __func__);
 	if (t->readonly)
 		err_internal(__func__, "Attempt to insert into readonly table");
+
+	hashValue = t->hash(key);
    
 	/* Keep table less than half full */
 	if (t->entries * 2 > t->prime) {
@@ -268,12 +270,13 @@ int hsh_insert(
 int hsh_delete(hsh_HashTable table, const void *key)
 {
 	tableType     t = (tableType)table;
-	unsigned long h = t->hash(key) % t->prime;
+	unsigned long h;
 
 	_hsh_check(t, __func__);
 	if (t->readonly)
 		err_internal(__func__, "Attempt to delete from readonly table");
 
+	h = t->hash(key) % t->prime;
 	if (t->buckets[h]) {
 		bucketType pt;
 		bucketType prev;
@@ -301,10 +304,11 @@ const void *hsh_retrieve(hsh_HashTable table,
 						 const void *key)
 {
 	tableType     t = (tableType)table;
-	unsigned long h = t->hash(key) % t->prime;
+	unsigned long h;
 
 	_hsh_check(t, __func__);
    
+	h = t->hash(key) % t->prime;
 	++t->retrievals;
 	if (t->buckets[h]) {
 		bucketType pt;
diff --git a/maa/list.c b/maa/list.c
index 48cd7c6..956c662 100644
--- a/maa/list.c
+++ b/maa/list.c
@@ -128,10 +128,11 @@ void lst_append(lst_List list, const void *datum)
 		return;
 
 	l = (listType)list;
-	d = mem_get_object(mem);
 
-	_lst_allocated += sizeof(struct data);
 	_lst_check(l, __func__);
+
+	d = mem_get_object(mem);
+	_lst_allocated += sizeof(struct data);
    
 	d->datum = datum;
 	d->next  = NULL;
@@ -149,11 +150,13 @@ void lst_append(lst_List list, const void *datum)
 void lst_push(lst_List list, const void *datum)
 {
 	listType l = (listType)list;
-	dataType d = mem_get_object(mem);
+	dataType d;
 
-	_lst_allocated += sizeof(struct data);
 	_lst_check(l, __func__);
-   
+
+	d = mem_get_object(mem);
+	_lst_allocated += sizeof(struct data);
+
 	d->datum = datum;
 	d->next  = l->head;
 	l->head  = d;
diff --git a/maa/memory.c b/maa/memory.c
index 4682833..faf9541 100644
--- a/maa/memory.c
+++ b/maa/memory.c
@@ -304,10 +304,11 @@ void mem_destroy_objects(mem_Object info)
 void *mem_get_object(mem_Object info)
 {
 	objectInfo  i   = (objectInfo)info;
-	void       *obj = stk_pop(i->stack);
+	void       *obj;
 
 	_mem_magic_objects(i, __func__);
 
+	obj = stk_pop(i->stack);
 	if (!obj) {
 		obj = xmalloc(i->size);
 		stk_push(i->allocated, obj);
diff --git a/maa/set.c b/maa/set.c
index 622c443..d6f47cf 100644
--- a/maa/set.c
+++ b/maa/set.c
@@ -226,12 +226,14 @@ static void _set_insert(set_Set set, unsigned long hash, const void *elem)
 int set_insert(set_Set set, const void *elem)
 {
 	setType       t         = (setType)set;
-	unsigned long hashValue = t->hash(elem);
+	unsigned long hashValue;
 	unsigned long h;
 
 	_set_check(t, __func__);
 	if (t->readonly)
 		err_internal(__func__, "Attempt to insert into readonly set");
+
+	hashValue = t->hash(elem);
    
 	/* Keep table less than half full */
 	if (t->entries * 2 > t->prime) {
@@ -274,12 +276,13 @@ int set_insert(set_Set set, const void *elem)
 int set_delete(set_Set set, const void *elem)
 {
 	setType       t = (setType)set;
-	unsigned long h = t->hash(elem) % t->prime;
+	unsigned long h;
 
 	_set_check(t, __func__);
 	if (t->readonly)
 		err_internal(__func__, "Attempt to delete from readonly set");
    
+	h = t->hash(elem) % t->prime;
 	if (t->buckets[h]) {
 		bucketType pt;
 		bucketType prev;
@@ -305,10 +308,11 @@ int set_delete(set_Set set, const void *elem)
 int set_member(set_Set set, const void *elem)
 {
 	setType       t = (setType)set;
-	unsigned long h = t->hash(elem) % t->prime;
+	unsigned long h;
 
 	_set_check(t, __func__);
    
+	h = t->hash(elem) % t->prime;
 	++t->retrievals;
 	if (t->buckets[h]) {
 		bucketType pt;
-- 
2.43.0


From 3c7f7ac769a1e7eb07d2fb455774761c0e229080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:27 +0000
Subject: [PATCH 30/39] fix: stk_push: report when memory runs out instead of
 crashing

---
 maa/stack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maa/stack.c b/maa/stack.c
index 14c03a3..8cfa79c 100644
--- a/maa/stack.c
+++ b/maa/stack.c
@@ -71,7 +71,7 @@ void stk_destroy(stk_Stack stack)
 void stk_push(stk_Stack stack, void *datum)
 {
 	stackType s = (stackType)stack;
-	dataType  d = (dataType)malloc(sizeof(struct data));
+	dataType  d = (dataType)xmalloc(sizeof(struct data));
 
 	d->datum = datum;
 	d->prev  = s->data;
@@ -92,7 +92,7 @@ void *stk_pop(stk_Stack stack)
 		datum = __UNCONST(old->datum); /* Discard const */
 		s->data = s->data->prev;
 
-		free(old);
+		xfree(old);
 	}
 
 	return datum;
-- 
2.43.0


From 3649691c5012c7f175ab17aee12d277f7f62459e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:31 +0000
Subject: [PATCH 31/39] fix: pr_open: standard descriptors closed in the caller
 or handed over do not get in the way of the child's streams

---
 maa/pr.c | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/maa/pr.c b/maa/pr.c
index 50531e4..c184624 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -112,6 +112,26 @@ void _pr_shutdown(void)
 	}
 }
 
+/* The standard streams may be closed in the caller, or given to the
+   child in another order: keep out of the way of their numbers. */
+static int _pr_above_std(int fd)
+{
+	return fd > STDERR_FILENO ? fd : fcntl(fd, F_DUPFD, STDERR_FILENO + 1);
+}
+
+static int _pr_pipe(int *fds)
+{
+	int i;
+	int fd;
+
+	if (pipe(fds) < 0) return -1;
+	for (i = 0; i < 2; i++) {
+		if ((fd = _pr_above_std(fds[i])) < 0) return -1;
+		if (fd != fds[i]) close(fds[i]);
+		fds[i] = fd;
+	}
+	return 0;
+}
 
 int pr_open(const char *command, int flags, int *infd, int *outfd, int *errfs)
 {
@@ -151,11 +171,11 @@ int pr_open2(const char *command, void(*callback)(void),
 	arg_get_vector(list, &argc, &argv);
 	PRINTF(MAA_PR,("Execing %s with \"%s\"\n", argv[0], command));
 
-	if ((flags & PR_CREATE_STDIN) && pipe(fdin) < 0)
+	if ((flags & PR_CREATE_STDIN) && _pr_pipe(fdin) < 0)
 		err_fatal_errno(__func__, "Cannot create pipe for stdin");
-	if ((flags & PR_CREATE_STDOUT) && pipe(fdout) < 0)
+	if ((flags & PR_CREATE_STDOUT) && _pr_pipe(fdout) < 0)
 		err_fatal_errno(__func__, "Cannot create pipe for stdout");
-	if ((flags & PR_CREATE_STDERR) && pipe(fderr) < 0)
+	if ((flags & PR_CREATE_STDERR) && _pr_pipe(fderr) < 0)
 		err_fatal_errno(__func__, "Cannot create pipe for stderr");
 
 	if ((pid = fork()) < 0)
@@ -167,6 +187,13 @@ int pr_open2(const char *command, void(*callback)(void),
 		if (callback)
 			callback();
 
+		if ((flags & PR_USE_STDIN)  && infd  && *infd)
+			*infd = _pr_above_std(*infd);
+		if ((flags & PR_USE_STDOUT) && outfd && *outfd)
+			*outfd = _pr_above_std(*outfd);
+		if ((flags & PR_USE_STDERR) && errfd && *errfd)
+			*errfd = _pr_above_std(*errfd);
+
 #define CHILD(CREATE,USE,fds,writefd,readfd,fd,FILENO,flag)		\
 		if (flags & CREATE) {									\
 			close(fds[writefd]);                                \
@@ -176,7 +203,8 @@ int pr_open2(const char *command, void(*callback)(void),
 			if (fd && *fd) {									\
 				dup2(*fd, FILENO);								\
 			} else {											\
-				if ((null = open("/dev/null", flag)) >= 0) {	\
+				if ((null = open("/dev/null", flag)) >= 0		\
+					&& null != FILENO) {						\
 					dup2(null, FILENO);							\
 					close(null);								\
 				}												\
-- 
2.43.0


From 625a947c9235ca6e0bdaffde3e67f35b5190fae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:06 +0000
Subject: [PATCH 32/39] fix: log_file: names whose time directives expand to
 more than three times their length

---
 maa/log.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/maa/log.c b/maa/log.c
index 24f9cbc..7f44c49 100644
--- a/maa/log.c
+++ b/maa/log.c
@@ -36,6 +36,7 @@
 #ifndef MAXHOSTNAMELEN
 #define MAXHOSTNAMELEN 64
 #endif
+#define LOG_MAXFILENAME 65536 /* well above any PATH_MAX */
 
 static int        logFd = -1;
 static FILE       *logUserStream;
@@ -208,8 +209,17 @@ static void _log_check_filename(void)
 	time(&t);
 	tm = localtime(&t);
    
-	strftime(logFilenameTmp, logFilenameLen, logFilenameOrig, tm);
-	if (strcmp(logFilenameTmp, logFilename)) {
+	while (!strftime(logFilenameTmp, logFilenameLen, logFilenameOrig, tm)) {
+		if (logFilenameLen > LOG_MAXFILENAME) {
+			logFilenameTmp[0] = '\0'; /* expands to nothing */
+			break;
+		}
+		/* does not fit */
+		logFilenameLen *= 2;
+		logFilename    = xrealloc(logFilename, logFilenameLen + 1);
+		logFilenameTmp = xrealloc(logFilenameTmp, logFilenameLen + 1);
+	}
+	if (logFd < 0 || strcmp(logFilenameTmp, logFilename)) {
 		strcpy(logFilename, logFilenameTmp);
 		if (logFd >= 0) close(logFd);
 		log_mkpath(logFilename);
-- 
2.43.0


From 90ec31bf054ca8b7ab98e1533da77b77ff1ac406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:48 +0000
Subject: [PATCH 33/39] fix: str_findn, str_unique, src_cpp_line: no copy of
 the text on the run-time stack

---
 maa/source.c |  3 ++-
 maa/string.c | 14 ++++++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/maa/source.c b/maa/source.c
index 2aafcd3..9cfe8d0 100644
--- a/maa/source.c
+++ b/maa/source.c
@@ -133,7 +133,7 @@ void src_advance(int length)
 void src_cpp_line(const char *line, int length)
 {
 	arg_List args;
-	char     *tmp = alloca(length + 1);
+	char     *tmp = xmalloc(length + 1);
 	int      lineno;
 
 	strncpy(tmp, line, length);
@@ -156,6 +156,7 @@ void src_cpp_line(const char *line, int length)
 	}
    
 	arg_destroy(args);
+	xfree(tmp);
 }
 
 /* \doc |src_get| is used to get a |src_Type| object for the current token.
diff --git a/maa/string.c b/maa/string.c
index fe25074..ba50776 100644
--- a/maa/string.c
+++ b/maa/string.c
@@ -324,13 +324,16 @@ const char *str_find( const char *s )
 
 const char *str_findn( const char *s, int length )
 {
-	char *tmp = alloca( sizeof( char ) * (length + 1) );
+	const char *r;
+	char       *tmp = xmalloc( sizeof( char ) * (length + 1) );
 
 	_str_check_global();
 	strncpy( tmp, s, length);
 	tmp [ length ] = 0;
 
-	return str_pool_find( global, tmp );
+	r = str_pool_find( global, tmp );
+	xfree( tmp );
+	return r;
 }
 
 /* \doc |str_copy| acts like |str_pool_copy|, except the global string pool
@@ -385,12 +388,15 @@ const char *str_finish( void )
 const char *str_unique( const char *prefix )
 {
 	static int i       = 1;
-	char       *buf    = alloca( strlen( prefix ) + 100 );
+	const char *r;
+	char       *buf    = xmalloc( strlen( prefix ) + 100 );
 
 	do {
 		sprintf( buf, "%s%d", prefix, i++ );
 	} while (str_exists( buf ));
-	return str_find( buf );
+	r = str_find( buf );
+	xfree( buf );
+	return r;
 }
 
 /* \doc |str_destroy| frees all of the memory associated with the global
-- 
2.43.0


From 2e25905b6a970b0679669beb00f1d6f089800c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:54 +0000
Subject: [PATCH 34/39] fix: pr: descriptors above the limit in force at the
 first call

---
 maa/pr.c | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/maa/pr.c b/maa/pr.c
index c184624..fde4dd8 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -43,6 +43,7 @@ typedef struct _pr_Obj {
 } *_pr_Obj;
 
 static _pr_Obj _pr_objects = NULL;
+static int     _pr_count   = 0;	/* how many _pr_objects */
 
 #if 0
 static void _pr_check(pr_Object object, const char *function)
@@ -86,8 +87,22 @@ static int max_fd(void)
 
 static void _pr_init(void)
 {
-	if (!_pr_objects)
-		_pr_objects = xcalloc(max_fd(), sizeof(struct _pr_Obj));
+	if (!_pr_objects) {
+		_pr_count   = max_fd();
+		_pr_objects = xcalloc(_pr_count, sizeof(struct _pr_Obj));
+	}
+}
+
+/* The limit on open files may have been raised since |_pr_init|. */
+static void _pr_track(int fd, int pid)
+{
+	if (fd >= _pr_count) {
+		_pr_objects = xrealloc(_pr_objects, (fd + 1) * sizeof(struct _pr_Obj));
+		memset(_pr_objects + _pr_count, 0,
+			   (fd + 1 - _pr_count) * sizeof(struct _pr_Obj));
+		_pr_count = fd + 1;
+	}
+	_pr_objects[fd].pid = pid;
 }
 
 void _pr_shutdown(void)
@@ -96,7 +111,7 @@ void _pr_shutdown(void)
 	int status;
 
 	if (_pr_objects) {
-		for (i = 0; i < max_fd(); i++) {
+		for (i = 0; i < _pr_count; i++) {
 			/* FIXME: blah */;
 			if (_pr_objects[i].pid) {
 				/* no kill for what was waited for: the pid may be anyone's */
@@ -228,7 +243,7 @@ int pr_open2(const char *command, void(*callback)(void),
 		if (flags & PR_STDERR_TO_STDOUT)
 			dup2(STDOUT_FILENO, STDERR_FILENO);
       
-		for (i = 0; i < max_fd(); i++)
+		for (i = 0; i < _pr_count; i++)
 			if (_pr_objects[i].pid > 0) close(i);
 
 		execvp(argv[0], argv);
@@ -239,12 +254,12 @@ int pr_open2(const char *command, void(*callback)(void),
 	if (flags & CREATE) {									\
 		close(fds[ readfd ]);                               \
 		*fd = fds[ writefd ];								\
-		_pr_objects[ *fd ].pid = pid;						\
+		_pr_track(*fd, pid);								\
 		PRINTF(MAA_PR,(name " = %d; ",*fd));				\
 	} else if (flags & USE) {								\
 		if (fd && *fd) {									\
 			PRINTF(MAA_PR,(name " = %d*; ",*fd));			\
-			_pr_objects[ *fd ].pid =0;						\
+			_pr_track(*fd, 0);								\
 			close(*fd);										\
 		}													\
 	}
@@ -301,7 +316,7 @@ int pr_close_nowait(int fd)
 
 	if (!_pr_objects)
 		err_internal(__func__, "No previous call to pr_open()");
-	if (fd < 0 || fd >= max_fd() || !(pid = _pr_objects[ fd ].pid))
+	if (fd < 0 || fd >= _pr_count || !(pid = _pr_objects[ fd ].pid))
 		err_internal(__func__, "File (%d) not created by pr_open()", fd);
 
 	_pr_objects[ fd ].pid = 0;
@@ -462,7 +477,7 @@ int pr_spawn(const char *command)
 	if (pid == 0) {		/* child */
 		int i;
 
-		for (i = 0; i < max_fd(); i++)
+		for (i = 0; i < _pr_count; i++)
 			if (_pr_objects[i].pid > 0) close(i);
 
 		execvp(argv[0], argv);
-- 
2.43.0


From 64e7bcd7d7785ae04341186f6c7dbd249d13af63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:00 +0000
Subject: [PATCH 35/39] fix: pr_readwrite: descriptors beyond FD_SETSIZE

---
 maa/pr.c | 50 +++++++++++++++++---------------------------------
 1 file changed, 17 insertions(+), 33 deletions(-)

diff --git a/maa/pr.c b/maa/pr.c
index fde4dd8..c0f11f7 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -35,6 +35,7 @@
 #include <errno.h>
 #include <signal.h>
 #include <fcntl.h>
+#include <poll.h>
 #include <sys/param.h>
 #include <sys/wait.h>
 
@@ -340,9 +341,7 @@ int pr_readwrite(int in, int out,
 	const char     *inPt  = inBuffer;
 	char           *outPt = outBuffer;
 	int            outLen = 0;
-	fd_set         rfds, wfds, efds;
-	struct timeval tv;
-	int            n;
+	struct pollfd  fds[2];
 	int            count;
 	int            retval;
 	int            status;
@@ -366,27 +365,17 @@ int pr_readwrite(int in, int out,
 #endif
 	fcntl(out, F_SETFL, flags);
 
-	n = max(in, out) + 1;
-
-	if (!inLen) {
-		pr_close_nowait(in);
-		n = out + 1;
-	}
+	if (!inLen) pr_close_nowait(in);
 
 	for (;;) {
-		tv.tv_sec  = 5;
-		tv.tv_usec = 0;
-		FD_ZERO(&rfds);
-		FD_ZERO(&wfds);
-		FD_ZERO(&efds);
-		FD_SET(out, &rfds);
-		FD_SET(out, &efds);
-		if (inLen) {
-			FD_SET(in, &wfds);
-			FD_SET(in, &efds);
-		}
-   
-		switch ((retval = select(n, &rfds, &wfds, &efds, &tv)))
+		fds[0].fd      = out;
+		fds[0].events  = POLLIN;
+		fds[0].revents = 0;
+		fds[1].fd      = in;
+		fds[1].events  = POLLOUT;
+		fds[1].revents = 0;
+
+		switch ((retval = poll(fds, inLen ? 2 : 1, 5000)))
 		{
 			case -1:
 				if (errno != EINTR)
@@ -395,15 +384,13 @@ int pr_readwrite(int in, int out,
 				/*       case 0:  err_fatal(__func__, "Filter hung\n");         break; */
 			default:
 				if (dbg_test(MAA_PR)) {
-					printf("select(2) returns %d,"
+					printf("poll(2) returns %d,"
 						   " inLen = %d, outLen = %d, outMaxLen = %d\n",
 						   retval, inLen, outLen, outMaxLen);
-					if (FD_ISSET(in, &rfds))  printf("  in/read\n");
-					if (FD_ISSET(out, &rfds)) printf("  out/read\n");
-					if (FD_ISSET(in, &wfds))  printf("  in/write\n");
-					if (FD_ISSET(out, &wfds)) printf("  out/write\n");
-					if (FD_ISSET(in, &efds))  printf("  in/error\n");
-					if (FD_ISSET(out, &efds)) printf("  out/error\n");
+					if (fds[0].revents & POLLIN)  printf("  out/read\n");
+					if (fds[1].revents & POLLOUT) printf("  in/write\n");
+					if (fds[0].revents & (POLLERR | POLLHUP)) printf("  out/error\n");
+					if (fds[1].revents & (POLLERR | POLLHUP)) printf("  in/error\n");
 				}
 				if (inLen) {
 					if ((count = write(in, inPt, inLen)) <= 0) {
@@ -413,10 +400,7 @@ int pr_readwrite(int in, int out,
 						PRINTF(MAA_PR,("  wrote %d\n",count));
 						inLen -= count;
 						inPt  += count;
-						if (!inLen) {
-							pr_close_nowait(in);
-							n = out + 1;
-						}
+						if (!inLen) pr_close_nowait(in);
 					}
 				}
 				/* a full buffer still needs to see the end of output */
-- 
2.43.0


From e5f3c05039bd5be89ea03cc89c6f30c899b55651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:58 +0000
Subject: [PATCH 36/39] fix: log_syslog: own copy of the identifier

---
 maa/log.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/maa/log.c b/maa/log.c
index 7f44c49..8782869 100644
--- a/maa/log.c
+++ b/maa/log.c
@@ -47,6 +47,7 @@ static int        logOpen;
 static int        logFacility = LOG_USER;
 
 static char       *logIdent;
+static char       *logSyslogIdent;
 static char       *logFilenameOrig;
 static char       *logFilename;
 static char       *logFilenameTmp;
@@ -170,7 +171,9 @@ void log_syslog(const char *ident)
 		if (logSyslog)
 			err_internal(__func__, "Syslog facility already open");
 
-		openlog(ident, LOG_PID|LOG_NOWAIT, logFacility);
+		/* openlog(3) may keep the pointer */
+		logSyslogIdent = xstrdup(ident);
+		openlog(logSyslogIdent, LOG_PID|LOG_NOWAIT, logFacility);
 		++logOpen;
 		++logSyslog;
 	}else{
@@ -178,6 +181,8 @@ void log_syslog(const char *ident)
 			return;
 
 		closelog ();
+		xfree (logSyslogIdent);
+		logSyslogIdent = NULL;
 		--logOpen;
 		--logSyslog;
 	}
-- 
2.43.0


From 8c3f3eed54ab45b37660c1bb1dfee8dfff64402d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:03 +0000
Subject: [PATCH 37/39] fix: tim_start: own copy of the timer's name

---
 maa/timer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maa/timer.c b/maa/timer.c
index 3175154..8bb39c4 100644
--- a/maa/timer.c
+++ b/maa/timer.c
@@ -63,7 +63,7 @@ void tim_start(const char *name)
 		entry->self_system     = 0.0;
 		entry->children_user   = 0.0;
 		entry->children_system = 0.0;
-		hsh_insert(_tim_Hash, name, entry);
+		hsh_insert(_tim_Hash, xstrdup(name), entry);
 	}
 
 	gettimeofday(&entry->real_mark, NULL);
@@ -233,6 +233,7 @@ void tim_print_timers(FILE *str)
 static int _tim_freer(const void *key, const void *datum)
 {
 	xfree(__UNCONST(datum)); /* Discard const */
+	xfree(__UNCONST(key));
 	return 0;
 }
    
-- 
2.43.0


From a46fa55e8c098deab8bdfb65f2498b117d82d88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:10 +0000
Subject: [PATCH 38/39] fix: dbg_register: own copy of the flag's name

---
 maa/debug.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/maa/debug.c b/maa/debug.c
index 3f1642e..d13d554 100644
--- a/maa/debug.c
+++ b/maa/debug.c
@@ -82,6 +82,7 @@ static const char *_dbg_name(dbg_Type flag)
 void _dbg_register(dbg_Type flag, const char *name)
 {
 	dbg_Type tmp;
+	char     *copy;
    
 	for (tmp = flag & 0x3fffffff; tmp && !(tmp & 1); tmp >>= 1);
 	if (!tmp || tmp >> 1)
@@ -100,7 +101,8 @@ void _dbg_register(dbg_Type flag, const char *name)
 				  _dbg_name(flag),
 				  name);
 
-	hsh_insert(hash, name, (void *)flag);
+	copy = name ? xstrdup(name) : NULL;
+	if (hsh_insert(hash, copy, (void *)flag)) xfree(copy);
 	usedFlags[ flag >> 30 ] |= flag;
 }
 
@@ -183,6 +185,12 @@ int dbg_test(dbg_Type flag)
 	return TEST(flag, setFlags);
 }
 
+static int _dbg_free_name(const void *key, const void *datum)
+{
+	xfree(__UNCONST(key)); /* Discard const */
+	return 0;
+}
+
 /* \doc |dbg_destroy| destroys the memory associated with the debugging
    support routines.  This routine should \emph{never} be called by the
    programmer: it is automatically called at program termination on systems
@@ -190,7 +198,10 @@ int dbg_test(dbg_Type flag)
 
 void dbg_destroy(void)
 {
-	if (hash) hsh_destroy(hash);
+	if (hash) {
+		hsh_iterate(hash, _dbg_free_name);
+		hsh_destroy(hash);
+	}
 	hash = NULL;
 	setFlags[0] = setFlags[1] = setFlags[2] = setFlags[3] = 0;
 	usedFlags[0] = usedFlags[1] = usedFlags[2] = usedFlags[3] = 0;
-- 
2.43.0


From 9614fe86857ba76474a9496dbca7a0e3c667def1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:16 +0000
Subject: [PATCH 39/39] fix: flg_register: own copy of the flag's name

---
 maa/flags.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/maa/flags.c b/maa/flags.c
index f7f73f9..9d69ead 100644
--- a/maa/flags.c
+++ b/maa/flags.c
@@ -82,6 +82,7 @@ const char *flg_name(flg_Type flag)
 void flg_register(flg_Type flag, const char *name)
 {
 	flg_Type tmp;
+	char     *copy;
    
 	for (tmp = flag & 0x3fffffff; tmp && !(tmp & 1); tmp >>= 1);
 	if (!tmp || tmp >> 1)
@@ -100,7 +101,8 @@ void flg_register(flg_Type flag, const char *name)
 				  flg_name(flag),
 				  name);
 
-	hsh_insert(hash, name, (void *)flag);
+	copy = name ? xstrdup(name) : NULL;
+	if (hsh_insert(hash, copy, (void *)flag)) xfree(copy);
 	usedFlags[ flag >> 30 ] |= flag;
 }
 
@@ -153,6 +155,12 @@ int flg_test(flg_Type flag)
 	return TEST(flag, setFlags);
 }
 
+static int _flg_free_name(const void *key, const void *datum)
+{
+	xfree(__UNCONST(key)); /* Discard const */
+	return 0;
+}
+
 /* \doc |flg_destroy| destroys the memory associated with the flag support
    routines.  This routine should \emph{never} be called by the programmer:
    it is automatically called at program termination on systems that
@@ -160,7 +168,10 @@ int flg_test(flg_Type flag)
 
 void flg_destroy(void)
 {
-	if (hash) hsh_destroy(hash);
+	if (hash) {
+		hsh_iterate(hash, _flg_free_name);
+		hsh_destroy(hash);
+	}
 	hash = NULL;
 	setFlags[0] = setFlags[1] = setFlags[2] = setFlags[3] = 0;
 	usedFlags[0] = usedFlags[1] = usedFlags[2] = usedFlags[3] = 0;
-- 
2.43.0

