From 36498ca50a143763b97399c80410d4ee633c5f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 01/16] fix: report a failure to write out buffered data

A failing fclose of the output file was only warned about, and standard
output was never flushed before declaring success, so that 'scrypt enc' and
'scrypt dec' exited 0 after losing data on a full disk.
---
 main.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/main.c b/main.c
index d4c106b..b482573 100644
--- a/main.c
+++ b/main.c
@@ -180,8 +180,19 @@ cleanup:
 	/* Close any files we opened. */
 	if ((infile != stdin) && fclose(infile))
 		warnp("fclose");
-	if ((outfile != stdout) && fclose(outfile))
-		warnp("fclose");
+	if (outfile != stdout) {
+		/* If we can't close it, the output is not complete. */
+		if (fclose(outfile)) {
+			if (rc == SCRYPT_OK)
+				rc = SCRYPT_EWRFILE;
+			else
+				warnp("fclose");
+		}
+	} else {
+		/* Make sure that buffered output has been written. */
+		if ((rc == SCRYPT_OK) && fflush(stdout))
+			rc = SCRYPT_EWRFILE;
+	}
 
 	/* If we failed, print the right error message and exit. */
 	if (rc != SCRYPT_OK) {
-- 
2.43.0


From 26ffcb8ae2c8f398cafe27ec04c0b8645c0d6389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 02/16] fix: don't overflow when displaying large parameters

128 * r was computed in 32 bits, and 128Nr and 4Nrp could overflow 64 bits,
so that a file which needs petabytes was reported as requiring 0 B.
---
 lib/scryptenc/scryptenc.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/lib/scryptenc/scryptenc.c b/lib/scryptenc/scryptenc.c
index 5f87382..d860b9e 100644
--- a/lib/scryptenc/scryptenc.c
+++ b/lib/scryptenc/scryptenc.c
@@ -72,10 +72,22 @@ display_params(int logN, uint32_t r, uint32_t p, size_t memlimit,
     double opps, double maxtime)
 {
 	uint64_t N = (uint64_t)(1) << logN;
-	uint64_t mem_minimum = 128 * r * N;
-	double expected_seconds = opps > 0 ? (double)(4 * N * r * p) / opps : 0;
-	char * human_memlimit = humansize(memlimit);
-	char * human_mem_minimum = humansize(mem_minimum);
+	uint64_t mem_minimum;
+	double expected_seconds;
+	char * human_memlimit;
+	char * human_mem_minimum;
+
+	/* Avoid overflowing if the parameters are huge. */
+	if ((uint64_t)(128) * r > UINT64_MAX / N)
+		mem_minimum = UINT64_MAX;
+	else
+		mem_minimum = (uint64_t)(128) * r * N;
+	expected_seconds = opps > 0 ?
+	    4.0 * (double)N * (double)r * (double)p / opps : 0;
+
+	/* Get human-readable sizes. */
+	human_memlimit = humansize(memlimit);
+	human_mem_minimum = humansize(mem_minimum);
 
 	/* Parameters */
 	fprintf(stderr, "Parameters used: N = %" PRIu64 "; r = %" PRIu32
-- 
2.43.0


From 9fd32a95c3e17e28052d07b5e102e8b827ee98a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 03/16] fix: don't display invalid parameters in info mode

A header with log2(N) outside of 1..63 made 'scrypt info' shift by more than
the width of the type and print an N which has nothing to do with the file.
---
 lib/scryptenc/scryptenc.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/scryptenc/scryptenc.c b/lib/scryptenc/scryptenc.c
index d860b9e..1c26bb3 100644
--- a/lib/scryptenc/scryptenc.c
+++ b/lib/scryptenc/scryptenc.c
@@ -346,6 +346,13 @@ scryptdec_file_printparams(FILE * infile)
 	r = be32dec(&header[8]);
 	p = be32dec(&header[12]);
 
+	/* Sanity-check values. */
+	if ((logN < 1) || (logN > 63) || (r == 0) || (p == 0) ||
+	    ((uint64_t)(r) * (uint64_t)(p) >= 0x40000000)) {
+		rc = SCRYPT_EINVAL;
+		goto err0;
+	}
+
 	/* Print parameters. */
 	display_params(logN, r, p, 0, 0, 0);
 
-- 
2.43.0


From 358666b4b46df34460f43da25da0c1f5e25d492f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 04/16] fix: reject NaN as being out of range in PARSENUM

'scrypt dec -t nan' disabled the time limit, and '-m nan' failed an assertion.
---
 libcperciva/util/parsenum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcperciva/util/parsenum.h b/libcperciva/util/parsenum.h
index d8406c9..3a6db81 100644
--- a/libcperciva/util/parsenum.h
+++ b/libcperciva/util/parsenum.h
@@ -151,7 +151,7 @@ parsenum_float(const char * s, double min, double max, int trailing)
 	val = strtod(s, &eptr);
 	if (eptr == s || (!trailing && (*eptr != '\0')))
 		errno = EINVAL;
-	else if ((val < min) || (val > max))
+	else if (!((val >= min) && (val <= max)))
 		errno = ERANGE;
 	return (val);
 }
-- 
2.43.0


From 182b726d4ad57e90df8e614775622e2e9b5d8323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 05/16] fix: reject negative numbers which wrap to a valid
 unsigned value

PARSENUM parsed -18446744073709551615 as 1.
---
 libcperciva/util/parsenum.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libcperciva/util/parsenum.h b/libcperciva/util/parsenum.h
index 3a6db81..cd21cb6 100644
--- a/libcperciva/util/parsenum.h
+++ b/libcperciva/util/parsenum.h
@@ -7,6 +7,7 @@
 #include <math.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
 /* Handle compiler warnings about implicit variable conversion in PARSENUM. */
 #ifdef __clang__
@@ -189,6 +190,8 @@ parsenum_unsigned(const char * s, uintmax_t min, uintmax_t max,
 	val = strtoumax(s, &eptr, base);
 	if (eptr == s || (!trailing && (*eptr != '\0')))
 		errno = EINVAL;
+	else if ((val != 0) && (s[strspn(s, " \t\n\v\f\r")] == '-'))
+		errno = ERANGE;	/* strtoumax wraps negative numbers. */
 	else if ((val < min) || (val > max) || (val > typemax))
 		errno = ERANGE;
 	return (val);
-- 
2.43.0


From b3279df5d03fda9bffc684720b8626c5da1f8b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 06/16] fix: free the expanded AES key if writing fails

The key schedule was leaked, and not zeroed.
---
 lib/scryptenc/scryptenc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/scryptenc/scryptenc.c b/lib/scryptenc/scryptenc.c
index 1c26bb3..bff2e64 100644
--- a/lib/scryptenc/scryptenc.c
+++ b/lib/scryptenc/scryptenc.c
@@ -646,6 +646,7 @@ scryptenc_file(FILE * infile, FILE * outfile,
 		HMAC_SHA256_Update(&hctx, buf, readlen);
 		if (fwrite(buf, 1, readlen, outfile) < readlen) {
 			crypto_aesctr_free(AES);
+			crypto_aes_key_free(key_enc_exp);
 			rc = SCRYPT_EWRFILE;
 			goto err1;
 		}
@@ -864,6 +865,7 @@ scryptdec_file_copy(struct scryptdec_file_cookie * C, FILE * outfile)
 		crypto_aesctr_stream(AES, buf, buf, buflen - 32);
 		if (fwrite(buf, 1, buflen - 32, outfile) < buflen - 32) {
 			crypto_aesctr_free(AES);
+			crypto_aes_key_free(key_enc_exp);
 			rc = SCRYPT_EWRFILE;
 			goto err0;
 		}
-- 
2.43.0


From 1706dc187f715e5220cab22660aa967d2c25b9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 07/16] fix: reject explicit parameters when decrypting

'scrypt dec --logN 12 -r 8 -p 1 file' failed an assertion.
---
 main.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/main.c b/main.c
index b482573..e31a897 100644
--- a/main.c
+++ b/main.c
@@ -357,6 +357,12 @@ main(int argc, char * argv[])
 		goto err0;
 	}
 
+	/* The explicit parameters come from the file when decrypting. */
+	if (dec && (params.logN != 0)) {
+		warn0("--logN, -r, and -p cannot be used when decrypting");
+		goto err0;
+	}
+
 	/* We can't have a maxmemfrac of 0. */
 	if (params.maxmemfrac == 0.0) {
 		warn0("-m must be greater than 0");
-- 
2.43.0


From 9f0c830654319e5df035840a57c75cda72772792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 08/16] fix: notice a read error after the first line of a
 passphrase file

---
 libcperciva/util/readpass_file.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libcperciva/util/readpass_file.c b/libcperciva/util/readpass_file.c
index 957502a..289b99d 100644
--- a/libcperciva/util/readpass_file.c
+++ b/libcperciva/util/readpass_file.c
@@ -46,6 +46,12 @@ readpass_file(char ** passwd, const char * filename)
 		goto err2;
 	}
 
+	/* Bail if that was an error rather than the end of the file. */
+	if (ferror(f)) {
+		warnp("fread(%s)", filename);
+		goto err2;
+	}
+
 	/* Close the file. */
 	if (fclose(f)) {
 		warnp("fclose(%s)", filename);
-- 
2.43.0


From a44ef3e223e78b189a1b91ba1a461639ae9968d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 09/16] fix: reject overlong passphrases rather than silently
 truncating them

readpass used the first 2047 bytes of a longer line, and if confirming, took
the rest of that line as the confirmation.  (readpass_file already rejects
lines which do not fit.)
---
 libcperciva/util/readpass.c | 45 +++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/libcperciva/util/readpass.c b/libcperciva/util/readpass.c
index 3683aa1..079cfb3 100644
--- a/libcperciva/util/readpass.c
+++ b/libcperciva/util/readpass.c
@@ -54,6 +54,37 @@ resetsigs(struct sigaction savedsa[NSIGS])
 	}
 }
 
+/* Read a line which is less than MAXPASSLEN bytes long (excluding '\n'). */
+static int
+readline(char buf[MAXPASSLEN], FILE * readfrom)
+{
+	int c;
+
+	/* Read the line. */
+	if (fgets(buf, MAXPASSLEN, readfrom) == NULL) {
+		if (feof(readfrom))
+			warn0("EOF reading password");
+		else
+			warnp("Cannot read password");
+		goto err0;
+	}
+
+	/* If we filled the buffer, it must be because the line ended there. */
+	if ((strlen(buf) == MAXPASSLEN - 1) && (buf[MAXPASSLEN - 2] != '\n')) {
+		if (((c = fgetc(readfrom)) != '\n') && (c != EOF)) {
+			warn0("Password is too long");
+			goto err0;
+		}
+	}
+
+	/* Success! */
+	return (0);
+
+err0:
+	/* Failure! */
+	return (-1);
+}
+
 /**
  * readpass(passwd, prompt, confirmprompt, devtty):
  * If ${devtty} is 0, read a password from stdin.  If ${devtty} is 1, read a
@@ -136,25 +167,15 @@ retry:
 		fprintf(stderr, "%s: ", prompt);
 
 	/* Read the password. */
-	if (fgets(passbuf, MAXPASSLEN, readfrom) == NULL) {
-		if (feof(readfrom))
-			warn0("EOF reading password");
-		else
-			warnp("Cannot read password");
+	if (readline(passbuf, readfrom))
 		goto err3;
-	}
 
 	/* Confirm the password if necessary. */
 	if (confirmprompt != NULL) {
 		if (usingtty)
 			fprintf(stderr, "%s: ", confirmprompt);
-		if (fgets(confpassbuf, MAXPASSLEN, readfrom) == NULL) {
-			if (feof(readfrom))
-				warn0("EOF reading password");
-			else
-				warnp("Cannot read password");
+		if (readline(confpassbuf, readfrom))
 			goto err3;
-		}
 		if (strcmp(passbuf, confpassbuf)) {
 			fprintf(stderr,
 			    "Passwords mismatch, please try again\n");
-- 
2.43.0


From 31d1435218cd9ad355d0c349673f7e64d1431bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:55 +0000
Subject: [PATCH 10/16] fix: verify the header checksum in info mode

---
 lib/scryptenc/scryptenc.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/scryptenc/scryptenc.c b/lib/scryptenc/scryptenc.c
index bff2e64..85857dc 100644
--- a/lib/scryptenc/scryptenc.c
+++ b/lib/scryptenc/scryptenc.c
@@ -332,6 +332,8 @@ int
 scryptdec_file_printparams(FILE * infile)
 {
 	uint8_t header[96];
+	uint8_t hbuf[32];
+	SHA256_CTX ctx;
 	int logN;
 	uint32_t r;
 	uint32_t p;
@@ -341,6 +343,15 @@ scryptdec_file_printparams(FILE * infile)
 	if ((rc = scryptdec_file_load_header(infile, header)) != 0)
 		goto err0;
 
+	/* Verify header checksum. */
+	SHA256_Init(&ctx);
+	SHA256_Update(&ctx, header, 48);
+	SHA256_Final(hbuf, &ctx);
+	if (crypto_verify_bytes(&header[48], hbuf, 16)) {
+		rc = SCRYPT_EINVAL;
+		goto err0;
+	}
+
 	/* Parse N, r, p. */
 	logN = header[7];
 	r = be32dec(&header[8]);
-- 
2.43.0


From 2f8cea14cf698373320ffaa37d97d4018028ab15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:43 +0000
Subject: [PATCH 11/16] fix: don't abort if memory runs out while testing smix
 routines

A failure to allocate memory during the first key derivation was mistaken for
a broken smix implementation: the SSE2 code was permanently disabled, and if
the generic code's test failed likewise, the process aborted.  Return failure
from crypto_scrypt instead (and test again next time).
---
 lib-platform/crypto/crypto_scrypt.c | 30 +++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/lib-platform/crypto/crypto_scrypt.c b/lib-platform/crypto/crypto_scrypt.c
index 6057f0a..0fa4d0b 100644
--- a/lib-platform/crypto/crypto_scrypt.c
+++ b/lib-platform/crypto/crypto_scrypt.c
@@ -191,6 +191,10 @@ static struct scrypt_test {
 	}
 };
 
+/*
+ * Test whether ${smix} gives the correct result.  Return 0 if it does, 1 if
+ * it does not, or -1 if the computation could not be performed.
+ */
 static int
 testsmix(void (* smix)(uint8_t *, size_t, uint64_t, void *, void *))
 {
@@ -204,10 +208,14 @@ testsmix(void (* smix)(uint8_t *, size_t, uint64_t, void *, void *))
 		return (-1);
 
 	/* Does it match? */
-	return (memcmp(testcase.result, hbuf, TESTLEN));
+	return (memcmp(testcase.result, hbuf, TESTLEN) ? 1 : 0);
 }
 
-static void
+/*
+ * Select a smix routine.  Return 0 on success, or -1 if we couldn't test the
+ * routines (e.g. because we ran out of memory).
+ */
+static int
 selectsmix(void)
 {
 
@@ -215,18 +223,24 @@ selectsmix(void)
 	/* If we're running on an SSE2-capable CPU, try that code. */
 	if (cpusupport_x86_sse2()) {
 		/* If SSE2ized smix works, use it. */
-		if (!testsmix(crypto_scrypt_smix_sse2)) {
+		switch (testsmix(crypto_scrypt_smix_sse2)) {
+		case 0:
 			smix_func = crypto_scrypt_smix_sse2;
-			return;
+			return (0);
+		case -1:
+			return (-1);
 		}
 		warn0("Disabling broken SSE2 scrypt support - please report bug!");
 	}
 #endif
 
 	/* If generic smix works, use it. */
-	if (!testsmix(crypto_scrypt_smix)) {
+	switch (testsmix(crypto_scrypt_smix)) {
+	case 0:
 		smix_func = crypto_scrypt_smix;
-		return;
+		return (0);
+	case -1:
+		return (-1);
 	}
 	warn0("Generic scrypt code is broken - please report bug!");
 
@@ -249,8 +263,8 @@ crypto_scrypt(const uint8_t * passwd, size_t passwdlen,
     uint8_t * buf, size_t buflen)
 {
 
-	if (smix_func == NULL)
-		selectsmix();
+	if ((smix_func == NULL) && selectsmix())
+		return (-1);
 
 	return (crypto_scrypt_internal(passwd, passwdlen, salt, saltlen, N,
 	    _r, _p, buf, buflen, smix_func));
-- 
2.43.0


From 6e746c6b9a6d91593f7eeccc744fb07a59339c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:22 +0000
Subject: [PATCH 12/16] fix: don't ignore read errors in the middle of a
 passphrase

fgets() can return what it read before an error (glibc does on EAGAIN), and
fgetc() after a full buffer does not distinguish an error from the end of the
file; either way a truncated passphrase was accepted.
---
 libcperciva/util/readpass.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libcperciva/util/readpass.c b/libcperciva/util/readpass.c
index 079cfb3..25166a6 100644
--- a/libcperciva/util/readpass.c
+++ b/libcperciva/util/readpass.c
@@ -77,6 +77,12 @@ readline(char buf[MAXPASSLEN], FILE * readfrom)
 		}
 	}
 
+	/* Don't take what came before a read error for the whole password. */
+	if (ferror(readfrom)) {
+		warnp("Cannot read password");
+		goto err0;
+	}
+
 	/* Success! */
 	return (0);
 
-- 
2.43.0


From cb4b79c018eff6b91ec14b311c23392ce0af1375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:17 +0000
Subject: [PATCH 13/16] fix: restore terminal settings even if a signal
 interrupts that

tcsetattr(..., TCSAFLUSH, ...) waits for pending output; a (further) signal
arriving meanwhile makes it fail with EINTR, and echo was left disabled.
---
 libcperciva/util/readpass.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/libcperciva/util/readpass.c b/libcperciva/util/readpass.c
index 25166a6..7b514a5 100644
--- a/libcperciva/util/readpass.c
+++ b/libcperciva/util/readpass.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <signal.h>
 #include <stdio.h>
 #include <string.h>
@@ -54,6 +55,15 @@ resetsigs(struct sigaction savedsa[NSIGS])
 	}
 }
 
+/* Restore terminal settings, even if further signals arrive meanwhile. */
+static void
+resetterm(int fd, int action, const struct termios * term_old)
+{
+
+	while (tcsetattr(fd, action, term_old) && (errno == EINTR))
+		continue;
+}
+
 /* Read a line which is less than MAXPASSLEN bytes long (excluding '\n'). */
 static int
 readline(char buf[MAXPASSLEN], FILE * readfrom)
@@ -194,7 +204,7 @@ retry:
 
 	/* If we changed terminal settings, reset them. */
 	if (usingtty)
-		tcsetattr(fileno(readfrom), TCSANOW, &term_old);
+		resetterm(fileno(readfrom), TCSANOW, &term_old);
 
 	/* Restore old signals and re-issue intercepted signals. */
 	resetsigs(savedsa);
@@ -228,7 +238,7 @@ retry:
 err3:
 	/* Reset terminal settings if necessary. */
 	if (usingtty)
-		tcsetattr(fileno(readfrom), TCSAFLUSH, &term_old);
+		resetterm(fileno(readfrom), TCSAFLUSH, &term_old);
 err2:
 	/* Close /dev/tty if we opened it. */
 	if ((readfrom != stdin) && fclose(readfrom))
-- 
2.43.0


From f0ac56a6437fffba0540fdba69bb316663e74037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:37 +0000
Subject: [PATCH 14/16] fix: don't leave passphrases in freed stdio buffers

Both readpass() (when it opens /dev/tty) and readpass_file() wiped their own
buffers, but the stdio buffer which fclose() releases still held the whole
passphrase.
---
 libcperciva/util/readpass.c      | 7 +++++++
 libcperciva/util/readpass_file.c | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/libcperciva/util/readpass.c b/libcperciva/util/readpass.c
index 7b514a5..4d31257 100644
--- a/libcperciva/util/readpass.c
+++ b/libcperciva/util/readpass.c
@@ -147,6 +147,13 @@ readpass(char ** passwd, const char * prompt,
 		goto err1;
 	}
 
+	/*
+	 * If we opened /dev/tty, don't buffer it, since the buffer would still
+	 * contain the password when fclose() frees it.
+	 */
+	if (readfrom != stdin)
+		(void)setvbuf(readfrom, NULL, _IONBF, 0);
+
 	/* We have not received any signals yet. */
 	for (i = 0; i <= MAXBADSIG; i++)
 		gotsig[i] = 0;
diff --git a/libcperciva/util/readpass_file.c b/libcperciva/util/readpass_file.c
index 289b99d..5868ca9 100644
--- a/libcperciva/util/readpass_file.c
+++ b/libcperciva/util/readpass_file.c
@@ -29,6 +29,12 @@ readpass_file(char ** passwd, const char * filename)
 		goto err1;
 	}
 
+	/*
+	 * Don't buffer the file, since the buffer would still contain the
+	 * password when fclose() frees it.
+	 */
+	(void)setvbuf(f, NULL, _IONBF, 0);
+
 	/* Get a line from the file. */
 	if ((fgets(passbuf, MAXPASSLEN, f)) == NULL) {
 		if (ferror(f)) {
-- 
2.43.0


From 7f9884c7170dc231bebb0ad1e3e7f5aa22d63857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:57 +0000
Subject: [PATCH 15/16] fix: fail cleanly if there is no memory to report the
 parameters

display_params() passed the NULL returned by humansize() to printf's %s, so
that 'info' and -v printed "(null)" (or worse) and carried on.
---
 lib/scryptenc/scryptenc.c | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/lib/scryptenc/scryptenc.c b/lib/scryptenc/scryptenc.c
index 85857dc..fddb7b8 100644
--- a/lib/scryptenc/scryptenc.c
+++ b/lib/scryptenc/scryptenc.c
@@ -67,7 +67,8 @@ struct scryptdec_file_cookie {
 	uint8_t	dk[64];
 };
 
-static void
+/* Return 0 on success, or -1 if we ran out of memory. */
+static int
 display_params(int logN, uint32_t r, uint32_t p, size_t memlimit,
     double opps, double maxtime)
 {
@@ -86,8 +87,10 @@ display_params(int logN, uint32_t r, uint32_t p, size_t memlimit,
 	    4.0 * (double)N * (double)r * (double)p / opps : 0;
 
 	/* Get human-readable sizes. */
-	human_memlimit = humansize(memlimit);
-	human_mem_minimum = humansize(mem_minimum);
+	if ((human_memlimit = humansize(memlimit)) == NULL)
+		goto err0;
+	if ((human_mem_minimum = humansize(mem_minimum)) == NULL)
+		goto err1;
 
 	/* Parameters */
 	fprintf(stderr, "Parameters used: N = %" PRIu64 "; r = %" PRIu32
@@ -108,6 +111,15 @@ display_params(int logN, uint32_t r, uint32_t p, size_t memlimit,
 	/* Clean up */
 	free(human_memlimit);
 	free(human_mem_minimum);
+
+	/* Success! */
+	return (0);
+
+err1:
+	free(human_memlimit);
+err0:
+	/* Failure! */
+	return (-1);
 }
 
 static int
@@ -177,8 +189,9 @@ pickparams(size_t maxmem, double maxmemfrac, double maxtime,
 		*p = (uint32_t)(maxrp) / *r;
 	}
 
-	if (verbose)
-		display_params(*logN, *r, *p, memlimit, opps, maxtime);
+	if (verbose &&
+	    display_params(*logN, *r, *p, memlimit, opps, maxtime))
+		return (SCRYPT_ENOMEM);
 
 	/* Success! */
 	return (SCRYPT_OK);
@@ -213,8 +226,9 @@ checkparams(size_t maxmem, double maxmemfrac, double maxtime,
 			return (rc);
 		opslimit = opps * maxtime;
 
-		if (verbose)
-			display_params(logN, r, p, memlimit, opps, maxtime);
+		if (verbose &&
+		    display_params(logN, r, p, memlimit, opps, maxtime))
+			return (SCRYPT_ENOMEM);
 
 		/* Check limits. */
 		N = (uint64_t)(1) << logN;
@@ -230,8 +244,9 @@ checkparams(size_t maxmem, double maxmemfrac, double maxtime,
 		memlimit = 0;
 		opps = 0;
 
-		if (verbose)
-			display_params(logN, r, p, memlimit, opps, maxtime);
+		if (verbose &&
+		    display_params(logN, r, p, memlimit, opps, maxtime))
+			return (SCRYPT_ENOMEM);
 	}
 
 	/* Success! */
@@ -365,7 +380,10 @@ scryptdec_file_printparams(FILE * infile)
 	}
 
 	/* Print parameters. */
-	display_params(logN, r, p, 0, 0, 0);
+	if (display_params(logN, r, p, 0, 0, 0)) {
+		rc = SCRYPT_ENOMEM;
+		goto err0;
+	}
 
 	/* Success! */
 	return (SCRYPT_OK);
-- 
2.43.0


From 12d3b2d8fac25bc944e7d0c08a87170f596d2bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:57 +0000
Subject: [PATCH 16/16] fix: keep the cause of a failure when a file fails to
 close too

If the operation failed and then closing a file failed as well, warnp()
left errno cleared and scryptenc_print_error() reported the original
failure without its system error.
---
 main.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/main.c b/main.c
index e31a897..8bb8a6c 100644
--- a/main.c
+++ b/main.c
@@ -118,6 +118,7 @@ scrypt_mode_enc_dec(struct scryptenc_params params,
 	FILE * outfile = stdout;
 	char * passwd;
 	int rc;
+	int saved_errno;
 
 	/* If the input isn't stdin, open the file. */
 	if (infilename != NULL) {
@@ -170,6 +171,9 @@ scrypt_mode_enc_dec(struct scryptenc_params params,
 		    strlen(passwd), &params, verbose, force_resources);
 
 cleanup:
+	/* Save errno in case it gets clobbered before we report a failure. */
+	saved_errno = errno;
+
 	/* Free the decryption cookie, if any. */
 	scryptdec_file_cookie_free(C);
 
@@ -183,19 +187,23 @@ cleanup:
 	if (outfile != stdout) {
 		/* If we can't close it, the output is not complete. */
 		if (fclose(outfile)) {
-			if (rc == SCRYPT_OK)
+			if (rc == SCRYPT_OK) {
+				saved_errno = errno;
 				rc = SCRYPT_EWRFILE;
-			else
+			} else
 				warnp("fclose");
 		}
 	} else {
 		/* Make sure that buffered output has been written. */
-		if ((rc == SCRYPT_OK) && fflush(stdout))
+		if ((rc == SCRYPT_OK) && fflush(stdout)) {
+			saved_errno = errno;
 			rc = SCRYPT_EWRFILE;
+		}
 	}
 
 	/* If we failed, print the right error message and exit. */
 	if (rc != SCRYPT_OK) {
+		errno = saved_errno;
 		scryptenc_print_error(rc, infilename, outfilename);
 		goto err0;
 	}
-- 
2.43.0

