From 3800de9cd524b4cdeb31afbc2387b2e91b6b2672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:55:10 +0000
Subject: [PATCH 1/2] fix: stop pgpdf_derive_iterated from looping forever on
 empty salt and password

---
 src/kdf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kdf.c b/src/kdf.c
index d9ac09b..cd60baf 100644
--- a/src/kdf.c
+++ b/src/kdf.c
@@ -894,7 +894,7 @@ pgpdf_derive_iterated(unsigned char *out,
   if (total < salt_len)
     return 0;
 
-  if (count < total)
+  if (count < total || total == 0)
     count = total;
 
   i = 0;
@@ -907,7 +907,7 @@ pgpdf_derive_iterated(unsigned char *out,
 
     left = count;
 
-    while (left >= total) {
+    while (left > 0 && left >= total) {
       hash_update(&hash, salt, salt_len);
       hash_update(&hash, pass, pass_len);
 
-- 
2.43.0


From af41bb39da42f6db34458a60006befcd2fe3e2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:18:18 +0000
Subject: [PATCH 2/2] fix: make mpz_setbit and mpz_clrbit change only the
 requested bit of a negative integer

For a negative integer whose lower bits are all zero, both functions edited
the bit of the magnitude directly. That set or cleared a different
two's complement value: clearing bit 0 of -1 gave 0 instead of -2, and
setting bit 0 of -4 gave -5 instead of -3.
---
 src/mpi.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 4c1a0d1..0f39625 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -7248,18 +7248,24 @@ mpz_clrbit_abs(mpz_ptr z, mp_bits_t pos) {
 
 void
 mpz_setbit(mpz_ptr z, mp_bits_t pos) {
-  if (z->size < 0 && !mpz_divisible_2exp_p(z, pos))
+  if (z->size < 0) {
+    mpz_com(z, z);
     mpz_clrbit_abs(z, pos);
-  else
+    mpz_com(z, z);
+  } else {
     mpz_setbit_abs(z, pos);
+  }
 }
 
 void
 mpz_clrbit(mpz_ptr z, mp_bits_t pos) {
-  if (z->size < 0 && !mpz_divisible_2exp_p(z, pos))
+  if (z->size < 0) {
+    mpz_com(z, z);
     mpz_setbit_abs(z, pos);
-  else
+    mpz_com(z, z);
+  } else {
     mpz_clrbit_abs(z, pos);
+  }
 }
 
 void
-- 
2.43.0

