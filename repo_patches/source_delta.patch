From 03d0eab15b3ccad360fc5de6a942fcab323a4ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:41 +0000
Subject: [PATCH 01/13] fix: latch decode error for an invalid third character

An invalid character at the third position of a quantum made the call
return 0, but unlike at the other positions did not mark the stream as
ended: a later call to base64_stream_decode() could return 1 and produce
output. Set st.eof, as the other error paths do.
---
 lib/arch/generic/dec_tail.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/arch/generic/dec_tail.c b/lib/arch/generic/dec_tail.c
index e64f724..0c8adef 100644
--- a/lib/arch/generic/dec_tail.c
+++ b/lib/arch/generic/dec_tail.c
@@ -55,6 +55,7 @@
 				}
 			}
 			// If we get here, there was an error:
+			st.eof = BASE64_EOF;
 			break;
 		}
 		*o++ = st.carry | (q >> 2);
-- 
2.43.0


From 31db088024046c51bc0e82cbc97b21d66e2d0d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:41 +0000
Subject: [PATCH 02/13] fix: set *outlen in the decoder stub

The decoder stub returned -1 without touching *outlen, although
libbase64.h documents that it is set to zero when the function starts.
The encoder stub already did this.
---
 lib/codecs.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/codecs.h b/lib/codecs.h
index f6af0e7..e5bb9d1 100644
--- a/lib/codecs.h
+++ b/lib/codecs.h
@@ -40,7 +40,8 @@ base64_dec_stub BASE64_DEC_PARAMS
 	(void) src;
 	(void) srclen;
 	(void) out;
-	(void) outlen;
+
+	*outlen = 0;
 
 	return -1;
 }
-- 
2.43.0


From 3f67a9831164ec5789da59bfba5a1650744ace30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:41 +0000
Subject: [PATCH 03/13] fix: base64 -di: treat '=' and not '"' as a base64
 character

The table of non-garbage characters listed '"' where the padding
character '=' was meant. As a result, a '"' in the input was not ignored
but gave a decoding error, and padding was ignored.
---
 bin/base64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/base64.c b/bin/base64.c
index 02dcd1e..34f983d 100644
--- a/bin/base64.c
+++ b/bin/base64.c
@@ -376,7 +376,7 @@ find_garbage (const char *p, const size_t avail)
 		['z'] = 1,
 		['0'] = 1, ['1'] = 1, ['2'] = 1, ['3'] = 1, ['4'] = 1,
 		['5'] = 1, ['6'] = 1, ['7'] = 1, ['8'] = 1, ['9'] = 1,
-		['+'] = 1, ['/'] = 1, ['"'] = 1,
+		['+'] = 1, ['/'] = 1, ['='] = 1,
 	};
 
 	for (size_t len = 0; len < avail; len++) {
-- 
2.43.0


From f44c147469add3d9d15142bdcee16e0d853d2c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:41 +0000
Subject: [PATCH 04/13] fix: base64 -d: fail on truncated input

Input that ends in the middle of a four-character quantum was decoded
without complaint, and the utility exited with success. Report it as a
decoding error, like base64_decode() and GNU base64 do.
---
 bin/base64.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bin/base64.c b/bin/base64.c
index 34f983d..9b3ee18 100644
--- a/bin/base64.c
+++ b/bin/base64.c
@@ -478,6 +478,13 @@ decode (const struct config *config, struct buffer *buf)
 		return false;
 	}
 
+	// Fail if the input ended in the middle of a quantum.
+	if (state.bytes != 0) {
+		fprintf(stderr, "%s: %s: decoding error\n",
+		        config->name, config->file);
+		return false;
+	}
+
 	return true;
 }
 
-- 
2.43.0


From 1875485e86cc31ccdc793023db818cd3856e0642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:41 +0000
Subject: [PATCH 05/13] fix: OpenMP: do not overflow when calculating the
 output offset

On 32-bit platforms, i * len * 4 and i * len * 3 overflow for inputs of
1 GB and larger, so that parts were written to the wrong place. The part
length is a multiple of the divisor, so divide first.
---
 lib/lib_openmp.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/lib_openmp.c b/lib/lib_openmp.c
index 6b87c52..12e20e9 100644
--- a/lib/lib_openmp.c
+++ b/lib/lib_openmp.c
@@ -53,7 +53,7 @@ base64_encode_openmp
 		for (i = 0; i < num_threads; i++)
 		{
 			// Feed each part of the string to the stream reader:
-			base64_stream_encode(&state, src + i * len, len, out + i * len * 4 / 3, &s);
+			base64_stream_encode(&state, src + i * len, len, out + i * (len / 3 * 4), &s);
 			sum += s;
 		}
 	}
@@ -63,10 +63,10 @@ base64_encode_openmp
 	state = initial_state;
 
 	// Encode the remaining bytes:
-	base64_stream_encode(&state, src + num_threads * len, last_len, out + num_threads * len * 4 / 3, &s);
+	base64_stream_encode(&state, src + num_threads * len, last_len, out + num_threads * (len / 3 * 4), &s);
 
 	// Finalize the stream by writing trailer if any:
-	base64_stream_encode_final(&state, out + num_threads * len * 4 / 3 + s, &t);
+	base64_stream_encode_final(&state, out + num_threads * (len / 3 * 4) + s, &t);
 
 	// Final output length is stream length plus tail:
 	sum += s + t;
@@ -116,7 +116,7 @@ base64_decode_openmp
 			int this_result;
 
 			// Feed each part of the string to the stream reader:
-			this_result = base64_stream_decode(&state, src + i * len, len, out + i * len * 3 / 4, &s);
+			this_result = base64_stream_decode(&state, src + i * len, len, out + i * (len / 4 * 3), &s);
 			sum += s;
 			result += this_result;
 		}
@@ -137,7 +137,7 @@ base64_decode_openmp
 	// So far so good, now decode whatever remains in the buffer. Reuse the
 	// initial state, since we are at a 4-byte boundary:
 	state = initial_state;
-	result = base64_stream_decode(&state, src + num_threads * len, last_len, out + num_threads * len * 3 / 4, &s);
+	result = base64_stream_decode(&state, src + num_threads * len, last_len, out + num_threads * (len / 4 * 3), &s);
 	sum += s;
 	*outlen = sum;
 
-- 
2.43.0


From 012b0ab56c9c7b2b3861fe17b401fa98925c1c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:41 +0000
Subject: [PATCH 06/13] fix: OpenMP: reject padding in the middle of the input

When the input is split into parts, padding at the end of a part was
accepted even if more input followed, so that base64_decode() returned
success for invalid input, with a gap in the output. Also, *outlen was
left unset when decoding failed.
---
 lib/lib_openmp.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/lib_openmp.c b/lib/lib_openmp.c
index 12e20e9..70cd7d0 100644
--- a/lib/lib_openmp.c
+++ b/lib/lib_openmp.c
@@ -86,6 +86,9 @@ base64_decode_openmp
 	size_t sum = 0, len, last_len, s;
 	struct base64_state state, initial_state;
 
+	// There is no valid output until everything has been decoded:
+	*outlen = 0;
+
 	// Request a number of threads but not necessarily get them:
 	#pragma omp parallel
 	{
@@ -118,6 +121,11 @@ base64_decode_openmp
 			// Feed each part of the string to the stream reader:
 			this_result = base64_stream_decode(&state, src + i * len, len, out + i * (len / 4 * 3), &s);
 			sum += s;
+
+			// Padding is only valid at the end of the last part:
+			if (this_result == 1 && state.eof && (i + 1 < num_threads || last_len > 0)) {
+				this_result = 0;
+			}
 			result += this_result;
 		}
 	}
-- 
2.43.0


From 98c1f668d8755ec6c81d0bd77dbaebc29e9c047e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 07/13] fix: make the choice of codec a property of the stream

The codec that the flags of the last initialized stream asked for was
used for all streams, in all threads, including streams that were already
initialized and later ones initialized with flags set to zero. After
testing for the availability of a codec that turns out to be missing, as
libbase64.h suggests, default encoding gave empty output. The flags
BASE64_FORCE_AVX512 was also not recognized when encoding.

Choose the codec based on the flags of the stream.
---
 lib/lib.c | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/lib/lib.c b/lib/lib.c
index 053931a..dca88cb 100644
--- a/lib/lib.c
+++ b/lib/lib.c
@@ -14,13 +14,27 @@
 // The idea being that CPU features don't change at runtime.
 static struct codec codec = { NULL, NULL };
 
+// Get the codec to use for a stream that was initialized with the given flags.
+static inline struct codec
+codec_get (int flags)
+{
+	struct codec ret;
+
+	// If any of the codec flags are set, redo choice, for this stream only:
+	if (flags & 0xFFFF) {
+		codec_choose(&ret, flags);
+		return ret;
+	}
+
+	if (codec.enc == NULL || codec.dec == NULL) {
+		codec_choose(&codec, 0);
+	}
+	return codec;
+}
+
 void
 base64_stream_encode_init (struct base64_state *state, int flags)
 {
-	// If any of the codec flags are set, redo choice:
-	if (codec.enc == NULL || flags & 0xFF) {
-		codec_choose(&codec, flags);
-	}
 	state->eof = 0;
 	state->bytes = 0;
 	state->carry = 0;
@@ -36,7 +50,7 @@ base64_stream_encode
 	, size_t		*outlen
 	)
 {
-	codec.enc(state, src, srclen, out, outlen);
+	codec_get(state->flags).enc(state, src, srclen, out, outlen);
 }
 
 void
@@ -67,10 +81,6 @@ base64_stream_encode_final
 void
 base64_stream_decode_init (struct base64_state *state, int flags)
 {
-	// If any of the codec flags are set, redo choice:
-	if (codec.dec == NULL || flags & 0xFFFF) {
-		codec_choose(&codec, flags);
-	}
 	state->eof = 0;
 	state->bytes = 0;
 	state->carry = 0;
@@ -86,7 +96,7 @@ base64_stream_decode
 	, size_t		*outlen
 	)
 {
-	return codec.dec(state, src, srclen, out, outlen);
+	return codec_get(state->flags).dec(state, src, srclen, out, outlen);
 }
 
 #ifdef _OPENMP
-- 
2.43.0


From 84ac48c304f51e3c01e6fef3ec85120f1d8f2019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 08/13] fix: avoid a data race when the library is first used

Threads that use the library for the first time at the same moment raced
on the static function pointers of the codec: one could see one of them
half set up. Choose into a local variable and publish the pointers with
relaxed atomic accesses.
---
 lib/lib.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/lib/lib.c b/lib/lib.c
index dca88cb..addaef3 100644
--- a/lib/lib.c
+++ b/lib/lib.c
@@ -14,6 +14,15 @@
 // The idea being that CPU features don't change at runtime.
 static struct codec codec = { NULL, NULL };
 
+// Access the function pointers above without a data race between threads.
+#if defined(__GNUC__) || defined(__clang__)
+  #define CODEC_LOAD(p)		__atomic_load_n(p, __ATOMIC_RELAXED)
+  #define CODEC_STORE(p, v)	__atomic_store_n(p, v, __ATOMIC_RELAXED)
+#else
+  #define CODEC_LOAD(p)		(*(p))
+  #define CODEC_STORE(p, v)	(*(p) = (v))
+#endif
+
 // Get the codec to use for a stream that was initialized with the given flags.
 static inline struct codec
 codec_get (int flags)
@@ -26,10 +35,15 @@ codec_get (int flags)
 		return ret;
 	}
 
-	if (codec.enc == NULL || codec.dec == NULL) {
-		codec_choose(&codec, 0);
+	// Threads that race here all store the same values:
+	ret.enc = CODEC_LOAD(&codec.enc);
+	ret.dec = CODEC_LOAD(&codec.dec);
+	if (ret.enc == NULL || ret.dec == NULL) {
+		codec_choose(&ret, 0);
+		CODEC_STORE(&codec.enc, ret.enc);
+		CODEC_STORE(&codec.dec, ret.dec);
 	}
-	return codec;
+	return ret;
 }
 
 void
-- 
2.43.0


From 738ebf19935f135945daee6fd4d1d69406786a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:41 +0000
Subject: [PATCH 09/13] fix: do not shift a bit into the sign bit

'1 << 31' is undefined for a 32-bit int; UBSan reports it whenever a codec is
chosen in a build with AVX512.
---
 lib/codec_choose.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/codec_choose.c b/lib/codec_choose.c
index a98b947..b5b7f0c 100644
--- a/lib/codec_choose.c
+++ b/lib/codec_choose.c
@@ -47,7 +47,7 @@
 #endif
 
 #ifndef bit_AVX512vl
-#define bit_AVX512vl (1 << 31)
+#define bit_AVX512vl (1U << 31)
 #endif
 #ifndef bit_AVX512vbmi
 #define bit_AVX512vbmi (1 << 1)
-- 
2.43.0


From 9608fb9a51e9912fa4fe1ed8a91510d04201a4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:06 +0000
Subject: [PATCH 10/13] fix: base64: report errors when flushing and closing
 the output

The help text could be lost without a failing exit status when standard output
is full, and so could encoded or decoded data for which the operating system
reports the failure to write only on close.
---
 bin/base64.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/bin/base64.c b/bin/base64.c
index 9b3ee18..cf4185e 100644
--- a/bin/base64.c
+++ b/bin/base64.c
@@ -488,6 +488,22 @@ decode (const struct config *config, struct buffer *buf)
 	return true;
 }
 
+static bool
+close_stdout (const struct config *config)
+{
+	// Errors in writing the output may only come to light when the stream
+	// is flushed or closed. It is not an error if standard output was not
+	// open to begin with, so long as there was nothing to write.
+	if (ferror(stdout) || fflush(stdout) != 0 ||
+	    (fclose(stdout) != 0 && errno != EBADF)) {
+		fprintf(stderr, "%s: stdout: %s\n",
+		        config->name, strerror(errno));
+		return false;
+	}
+
+	return true;
+}
+
 static void
 usage (FILE *fp, const struct config *config)
 {
@@ -648,7 +664,7 @@ main (int argc, char **argv)
 	// Return early if the user just wanted the help text.
 	if (config.print_help) {
 		usage(stdout, &config);
-		return 0;
+		return close_stdout(&config) ? 0 : 1;
 	}
 
 	// Allocate buffers.
@@ -666,7 +682,7 @@ main (int argc, char **argv)
 #endif
 
 	// Encode or decode the input based on the user's choice.
-	const bool ret = config.decode
+	bool ret = config.decode
 		? decode(&config, &buf)
 		: encode(&config, &buf);
 
@@ -677,7 +693,9 @@ main (int argc, char **argv)
 	fclose(config.fp);
 
 	// Close the output stream.
-	fclose(stdout);
+	if (close_stdout(&config) == false) {
+		ret = false;
+	}
 
 	// That's all, folks.
 	return ret ? 0 : 1;
-- 
2.43.0


From e3f2e99c1e05fdab1a801bdc90cf6bceef9c2a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:12 +0000
Subject: [PATCH 11/13] fix: base64: let emulated writev report what it wrote
 before an error

When a write was interrupted by a signal after earlier vectors had been written,
the emulation returned -1, so that the caller's retry wrote those vectors twice.
---
 bin/base64.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/bin/base64.c b/bin/base64.c
index cf4185e..a5831ad 100644
--- a/bin/base64.c
+++ b/bin/base64.c
@@ -110,12 +110,11 @@ writev (const int fd, const struct iovec *iov, int iovcnt)
 
 	while (iovcnt-- > 0) {
 
-		// Write the vector; propagate errors back to the caller. Note
-		// that this loses information about how much vectors have been
-		// successfully written, but that also seems to be the case
-		// with the real function. The API is somewhat flawed.
+		// Write the vector. Propagate an error back to the caller, but
+		// if data was already written, first let the caller know how
+		// much. Retrying will bring up the error again if it persists.
 		if ((r = write(fd, iov->iov_base, iov->iov_len)) < 0) {
-			return r;
+			return (nwrite > 0) ? nwrite : r;
 		}
 
 		// Update the total write count.
-- 
2.43.0


From 0ac68bbbcd5d4828fee6a42735ee73b73b05ee62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:59 +0000
Subject: [PATCH 12/13] fix: CMake: find OpenMP for users of an installed
 static library

The exported target of a static library with OpenMP refers to OpenMP::OpenMP_C, which
the package configuration did not look for, so that linking with it failed.
---
 cmake/base64-config.cmake.in | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmake/base64-config.cmake.in b/cmake/base64-config.cmake.in
index d009bf7..fd591d1 100644
--- a/cmake/base64-config.cmake.in
+++ b/cmake/base64-config.cmake.in
@@ -1,5 +1,11 @@
 @PACKAGE_INIT@
 
+# A static library that uses OpenMP passes on its link dependency.
+if ("@BASE64_WITH_OpenMP@" AND NOT "@BUILD_SHARED_LIBS@")
+    include(CMakeFindDependencyMacro)
+    find_dependency(OpenMP COMPONENTS C)
+endif()
+
 include("${CMAKE_CURRENT_LIST_DIR}/base64-targets.cmake")
 
 check_required_components(base64)
-- 
2.43.0


From ccad29f47f45ae00ba0828d5df74d91b5a8612da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:02 +0000
Subject: [PATCH 13/13] fix: Makefile: keep 32-bit x86 PC thunks linkable

---
 Makefile | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Makefile b/Makefile
index bba3fde..190624c 100644
--- a/Makefile
+++ b/Makefile
@@ -75,7 +75,7 @@ endif
 
 lib/libbase64.o: lib/exports.build.txt $(OBJS)
 	$(LD) -r -o $@ $(OBJS)
-	$(OBJCOPY) --keep-global-symbols=$< $@
+	$(OBJCOPY) --wildcard --keep-global-symbol='__x86.get_pc_thunk.*' --keep-global-symbols=$< $@
 
 lib/config.h:
 	@echo "#define HAVE_AVX512 $(HAVE_AVX512)"  > $@
-- 
2.43.0

