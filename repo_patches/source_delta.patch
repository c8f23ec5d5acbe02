From f6dcb003821da4ce99e0816160b4fef01df33603 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 13:30:58 +0000
Subject: [PATCH 01/27] fix: copy both real and imaginary parts for
 out-of-place FFTs without an initial remap

---
 src/fft2d.cpp | 12 ++++++------
 src/fft3d.cpp | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index e5fe4c7..108d44d 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -533,7 +533,7 @@ void FFT2d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   if (flag == FORWARD || inout_layout_same) {
 
     if (remap_prefast) remap(in,out,remap_prefast);
-    else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
 
     if (remaponly) {
       if (remap_fastslow) remap(data,data,remap_fastslow);
@@ -548,7 +548,7 @@ void FFT2d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   } else {
 
     if (remap_preslow) remap(in,out,remap_preslow);
-    else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
 
     if (remaponly) {
       if (remap_slowfast) remap(data,data,remap_slowfast);
@@ -600,7 +600,7 @@ void FFT2d::only_remaps(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   if (flag == FORWARD || inout_layout_same) {
 
     if (remap_prefast) remap(in,out,remap_prefast);
-    else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
 
     if (remap_fastslow) remap(data,data,remap_fastslow);
 
@@ -609,7 +609,7 @@ void FFT2d::only_remaps(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   } else {
 
     if (remap_preslow) remap(in,out,remap_preslow);
-    else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
 
     if (remap_slowfast) remap(data,data,remap_slowfast);
 
@@ -636,7 +636,7 @@ void FFT2d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
   if (flag == FORWARD || inout_layout_same) {
     if (which == 1) {
       if (remap_prefast) remap(in,out,remap_prefast);
-      else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+      else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
     } else if (which == 2) {
       if (remap_fastslow) remap(in,out,remap_fastslow);
     } else if (which == 3) {
@@ -646,7 +646,7 @@ void FFT2d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
   } else {
     if (which == 3) {
       if (remap_preslow) remap(in,out,remap_preslow);
-      else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+      else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
     } else if (which == 2) {
       if (remap_slowfast) remap(in,out,remap_slowfast);
     } else if (which == 1) {
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index a643992..82d8cdb 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -567,7 +567,7 @@ void FFT3d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   if (flag == FORWARD || inout_layout_same) {
 
     if (remap_prefast) remap(in,out,remap_prefast);
-    else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
 
     if (remaponly) {
       if (remap_fastmid) remap(data,data,remap_fastmid);
@@ -585,7 +585,7 @@ void FFT3d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   } else {
 
     if (remap_preslow) remap(in,out,remap_preslow);
-    else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
 
     if (remaponly) {
       if (remap_slowmid) remap(data,data,remap_slowmid);
@@ -641,7 +641,7 @@ void FFT3d::only_remaps(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   if (flag == FORWARD || inout_layout_same) {
 
     if (remap_prefast) remap(in,out,remap_prefast);
-    else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
 
     if (remap_fastmid) remap(data,data,remap_fastmid);
     if (remap_midslow) remap(data,data,remap_midslow);
@@ -651,7 +651,7 @@ void FFT3d::only_remaps(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   } else {
 
     if (remap_preslow) remap(in,out,remap_preslow);
-    else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
 
     if (remap_slowmid) remap(data,data,remap_slowmid);
     if (remap_midfast) remap(data,data,remap_midfast);
@@ -679,7 +679,7 @@ void FFT3d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
   if (flag == FORWARD || inout_layout_same) {
     if (which == 1) {
       if (remap_prefast) remap(in,out,remap_prefast);
-      else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+      else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
     } else if (which == 2) {
       if (remap_fastmid) remap(in,out,remap_fastmid);
     } else if (which == 3) {
@@ -691,7 +691,7 @@ void FFT3d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
   } else {
     if (which == 4) {
       if (remap_preslow) remap(in,out,remap_preslow);
-      else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+      else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
     } else if (which == 3) {
       if (remap_slowmid) remap(in,out,remap_slowmid);
     } else if (which == 2) {
-- 
2.43.0


From 4a9f72fc23c70917df693409fabe1de9a0ce896d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 13:30:58 +0000
Subject: [PATCH 02/27] fix: last remap of an out-of-place backward FFT must
 act on the output array

---
 src/fft2d.cpp | 2 +-
 src/fft3d.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 108d44d..135a0f2 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -558,7 +558,7 @@ void FFT2d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
       perform_ffts((FFT_DATA *) data,flag,fft_fast);
     }
 
-    if (remap_postfast) remap(in,out,remap_postfast);
+    if (remap_postfast) remap(data,data,remap_postfast);
   }
 
   if (flag == BACKWARD && scaled && !remaponly) scale_ffts((FFT_DATA *) data);
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 82d8cdb..d913b2a 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -598,7 +598,7 @@ void FFT3d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
       perform_ffts((FFT_DATA *) data,flag,fft_fast);
     }
 
-    if (remap_postfast) remap(in,out,remap_postfast);
+    if (remap_postfast) remap(data,data,remap_postfast);
   }
 
   if (flag == BACKWARD && scaled && !remaponly) scale_ffts((FFT_DATA *) data);
-- 
2.43.0


From 9defad4046ab72f35983aaa98a4d6e0bbbb833b3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 13:30:58 +0000
Subject: [PATCH 03/27] fix: scale all elements of a backward FFT result, which
 is in the input layout

---
 src/fft2d.cpp | 4 ++--
 src/fft3d.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 135a0f2..2c77415 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -411,7 +411,7 @@ void FFT2d::setup(int user_nfast, int user_nslow,
   if (exchange) fftsize = MAX(fftsize,bricksize);
 
   // setup for 2 sets of 1d FFTs, also scaling normalization
-  // outsize must be already set for setup_ffts() to use to setup scaling
+  // insize must be already set for setup_ffts() to use to setup scaling
   // norm must allow for nfast*nmid*nslow to exceed a 4-byte int (2B)
 
   fft_fast = new FFT1d;
@@ -428,7 +428,7 @@ void FFT2d::setup(int user_nfast, int user_nslow,
   setup_ffts();
 
   norm = 1.0/((bigint) nfast * nslow);
-  normnum = outsize;
+  normnum = insize;
 
   // allocate sendbuf, recvbuf arrays to max sizes needed by any remap
 
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index d913b2a..344aac7 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -437,7 +437,7 @@ void FFT3d::setup(int user_nfast, int user_nmid, int user_nslow,
   if (exchange) fftsize = MAX(fftsize,bricksize);
 
   // setup for 3 sets of 1d FFTs, also scaling normalization
-  // outsize must be already set for setup_ffts() to use to setup scaling
+  // insize must be already set for setup_ffts() to use to setup scaling
   // norm must allow for nfast*nmid*nslow to exceed a 4-byte int (2B)
 
   fft_fast = new FFT1d;
@@ -459,7 +459,7 @@ void FFT3d::setup(int user_nfast, int user_nmid, int user_nslow,
   setup_ffts();
 
   norm = 1.0/((bigint) nfast * nmid*nslow);
-  normnum = outsize;
+  normnum = insize;
 
   // allocate sendbuf, recvbuf arrays to max sizes needed by any remap
 
-- 
2.43.0


From a1208e7b8c40a91769539b590b40f863a6379749 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 13:30:58 +0000
Subject: [PATCH 04/27] fix: second stage of a two-stage remap must start from
 the result of the first

---
 src/fft2d.cpp | 2 +-
 src/fft3d.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 2c77415..1a25486 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -1056,7 +1056,7 @@ void FFT2d::remap(FFT_SCALAR *in, FFT_SCALAR *out, Remap *remap)
 {
   remap->remap2d->remap(in,out,sendbuf,recvbuf);
   if (remap->remap2d_extra) 
-    remap->remap2d_extra->remap(in,out,sendbuf,recvbuf);
+    remap->remap2d_extra->remap(out,out,sendbuf,recvbuf);
 }
 
 /* ----------------------------------------------------------------------
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 344aac7..f083f6a 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -1117,7 +1117,7 @@ void FFT3d::remap(FFT_SCALAR *in, FFT_SCALAR *out, Remap *remap)
 {
   remap->remap3d->remap(in,out,sendbuf,recvbuf);
   if (remap->remap3d_extra) 
-    remap->remap3d_extra->remap(in,out,sendbuf,recvbuf);
+    remap->remap3d_extra->remap(out,out,sendbuf,recvbuf);
 }
 
 /* ----------------------------------------------------------------------
-- 
2.43.0


From e7ab2c7de188d97e8b0e24c2e2d32af94e8fd998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:35 +0000
Subject: [PATCH 05/27] fix: account for the last brick-to-pencil remap in the
 send/recv buffer sizes

---
 src/fft3d.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index f083f6a..81f2071 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -1372,6 +1372,8 @@ void FFT3d::remap_inverse_create(int &sendsize, int &recvsize)
       setup(brick_jlo,brick_jhi,brick_klo,brick_khi,brick_ilo,brick_ihi,
             fast_jlo,fast_jhi,fast_klo,fast_khi,fast_ilo,fast_ihi,
             2,2,0,ssize,rsize);
+    sendsize = MAX(sendsize,ssize);
+    recvsize = MAX(recvsize,rsize);
   }
 
   // remap uses I=fast, J=mid, K=slow, b/c current permute=0
-- 
2.43.0


From e3d12d011f3e46a06055deea9f77e70506d49e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:35 +0000
Subject: [PATCH 06/27] fix: tune() must select the same settings on every
 process

---
 src/fft2d.cpp | 2 ++
 src/fft3d.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 1a25486..dc30613 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -863,6 +863,7 @@ void FFT2d::tune(int user_nfast, int user_nslow,
         deallocate_setup();
         if (memoryflag) deallocate_setup_memory();
         
+        MPI_Bcast(&tfft[ntrial],1,MPI_DOUBLE,0,world);
         if (tfft[ntrial] < besttime) {
           besttime = tfft[ntrial];
           cbest = cflag;
@@ -903,6 +904,7 @@ void FFT2d::tune(int user_nfast, int user_nslow,
       deallocate_setup();
       if (memoryflag) deallocate_setup_memory();
       
+      MPI_Bcast(&tfft[ntrial],1,MPI_DOUBLE,0,world);
       if (tfft[ntrial] < besttime) {
         besttime = tfft[ntrial];
         pbest = pflag;
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 81f2071..2009352 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -915,6 +915,7 @@ void FFT3d::tune(int user_nfast, int user_nmid, int user_nslow,
         deallocate_setup();
         if (memoryflag) deallocate_setup_memory();
         
+        MPI_Bcast(&tfft[ntrial],1,MPI_DOUBLE,0,world);
         if (tfft[ntrial] < besttime) {
           besttime = tfft[ntrial];
           cbest = cflag;
@@ -958,6 +959,7 @@ void FFT3d::tune(int user_nfast, int user_nmid, int user_nslow,
       deallocate_setup();
       if (memoryflag) deallocate_setup_memory();
       
+      MPI_Bcast(&tfft[ntrial],1,MPI_DOUBLE,0,world);
       if (tfft[ntrial] < besttime) {
         besttime = tfft[ntrial];
         pbest = pflag;
-- 
2.43.0


From 3f9e34bb0ddff72df68b1088bf0882f3f3279852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:14 +0000
Subject: [PATCH 07/27] fix: a Remap can be destroyed without having been set
 up

---
 src/remap2d.cpp | 6 ++++++
 src/remap3d.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/remap2d.cpp b/src/remap2d.cpp
index 92028f2..1426044 100644
--- a/src/remap2d.cpp
+++ b/src/remap2d.cpp
@@ -90,7 +90,13 @@ Remap2d::Remap2d(MPI_Comm user_comm)
   request = NULL;
   unpackplan = NULL;
 
+  pgroup = NULL;
+  newcomm = MPI_COMM_NULL;
+  sendcnts = senddispls = sendmap = NULL;
+  recvcnts = recvdispls = recvmap = NULL;
+
   memusage = 0;
+  memoryflag = 0;
   sendbuf = recvbuf = NULL;
 
   setupflag = 0;
diff --git a/src/remap3d.cpp b/src/remap3d.cpp
index 948056e..6436c3b 100644
--- a/src/remap3d.cpp
+++ b/src/remap3d.cpp
@@ -90,7 +90,13 @@ Remap3d::Remap3d(MPI_Comm user_comm)
   request = NULL;
   unpackplan = NULL;
 
+  pgroup = NULL;
+  newcomm = MPI_COMM_NULL;
+  sendcnts = senddispls = sendmap = NULL;
+  recvcnts = recvdispls = recvmap = NULL;
+
   memusage = 0;
+  memoryflag = 0;
   sendbuf = recvbuf = NULL;
 
   setupflag = 0;
-- 
2.43.0


From 342247c2f753f8c7a7ff135c73aa2e5717c64648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:14 +0000
Subject: [PATCH 08/27] fix: a 2d FFT can be destroyed without having been set
 up

---
 src/fft2d.cpp | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index dc30613..69a516b 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -183,17 +183,7 @@ FFT2d::~FFT2d()
   delete [] primes;
   delete [] factors;
 
-  deallocate_remap(remap_prefast);
-  deallocate_remap(remap_fastslow);
-  deallocate_remap(remap_postslow);
-
-  deallocate_remap(remap_preslow);
-  deallocate_remap(remap_slowfast);
-  deallocate_remap(remap_postfast);
-
-  deallocate_ffts();
-  delete fft_fast;
-  delete fft_slow;
+  if (setupflag) deallocate_setup();
 
   // only deallocated send/recv bufs if allocated internally
 
-- 
2.43.0


From 515f9e2acfefbbb142812127754882e76a696647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:29 +0000
Subject: [PATCH 09/27] fix: 2d memcpy packing must copy FFT_SCALAR sized data

---
 src/pack2d.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pack2d.h b/src/pack2d.h
index d296efc..433d0ef 100644
--- a/src/pack2d.h
+++ b/src/pack2d.h
@@ -322,7 +322,7 @@ static void pack_2d_memcpy(PACK_DATA *data, PACK_DATA *buf,
   nslow = plan->nslow;
   nstride = plan->nstride;
 
-  size = nfast*sizeof(double);
+  size = nfast*sizeof(PACK_DATA);
   for (slow = 0; slow < nslow; slow++) {
     in = &(buf[slow*nfast]);
     out = &(data[slow*nstride]);
@@ -346,7 +346,7 @@ static void unpack_2d_memcpy(PACK_DATA *buf, PACK_DATA *data,
   nslow = plan->nslow;
   nstride = plan->nstride;
 
-  size = nfast*sizeof(double);
+  size = nfast*sizeof(PACK_DATA);
   for (slow = 0; slow < nslow; slow++) {
     in = &(data[slow*nstride]);
     out = &(buf[slow*nfast]);
-- 
2.43.0


From 8cdfde6acbd5ddf548d3f9371ffe416f9cc2c6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:29 +0000
Subject: [PATCH 10/27] fix: Fortran setup_memory() must pass the buffers by
 value

---
 src/fft2d_wrap.f90 | 2 +-
 src/fft3d_wrap.f90 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fft2d_wrap.f90 b/src/fft2d_wrap.f90
index afe43d9..b7a1494 100644
--- a/src/fft2d_wrap.f90
+++ b/src/fft2d_wrap.f90
@@ -99,7 +99,7 @@ interface
   subroutine fft2d_setup_memory(ptr,sendbuf,recvbuf) bind(c)
     use iso_c_binding
     type(c_ptr), value :: ptr
-    type(c_ptr) :: sendbuf,recvbuf
+    type(c_ptr), value :: sendbuf,recvbuf
   end subroutine fft2d_setup_memory
 
   subroutine fft2d_compute(ptr,in,out,flag) bind(c)
diff --git a/src/fft3d_wrap.f90 b/src/fft3d_wrap.f90
index f6ccc2a..f80082a 100644
--- a/src/fft3d_wrap.f90
+++ b/src/fft3d_wrap.f90
@@ -99,7 +99,7 @@ interface
   subroutine fft3d_setup_memory(ptr,sendbuf,recvbuf) bind(c)
     use iso_c_binding
     type(c_ptr), value :: ptr
-    type(c_ptr) :: sendbuf,recvbuf
+    type(c_ptr), value :: sendbuf,recvbuf
   end subroutine fft3d_setup_memory
 
   subroutine fft3d_compute(ptr,in,out,flag) bind(c)
-- 
2.43.0


From 93332028c11d8bcce74632ce4921869fc10578e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:45 +0000
Subject: [PATCH 11/27] fix: refuse a second setup() of a 2d FFT, as for 3d

---
 src/fft2d.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 69a516b..cfc9e57 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -224,6 +224,7 @@ void FFT2d::setup(int user_nfast, int user_nslow,
 {
   int flag,allflag;
 
+  if (setupflag) error->all("FFT is already setup");
   setupflag = 1;
 
   // internal copies of input params
-- 
2.43.0


From 0bdc5c3ddf3ee510ea31fa7bb84f7994b8b82789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:45 +0000
Subject: [PATCH 12/27] fix: changing a Remap's collective option after setup()
 must have no effect

---
 src/remap2d.cpp | 8 +++++---
 src/remap2d.h   | 1 +
 src/remap3d.cpp | 8 +++++---
 src/remap3d.h   | 1 +
 4 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/remap2d.cpp b/src/remap2d.cpp
index 1426044..2ba8e77 100644
--- a/src/remap2d.cpp
+++ b/src/remap2d.cpp
@@ -100,6 +100,7 @@ Remap2d::Remap2d(MPI_Comm user_comm)
   sendbuf = recvbuf = NULL;
 
   setupflag = 0;
+  usecollective = 0;
 }
 
 /* ----------------------------------------------------------------------
@@ -113,7 +114,7 @@ Remap2d::~Remap2d()
 
   // free new MPI communicator for collective comm
 
-  if (collective) {
+  if (usecollective) {
     if (newcomm != MPI_COMM_NULL) MPI_Comm_free(&newcomm);
     memory->sfree(pgroup);
   }
@@ -135,7 +136,7 @@ Remap2d::~Remap2d()
 
   // free internal arrays for collective commm
     
-  if (collective) {
+  if (usecollective) {
     memory->sfree(sendcnts);
     memory->sfree(recvcnts);
     memory->sfree(senddispls);
@@ -186,6 +187,7 @@ void Remap2d::setup(int in_ilo, int in_ihi, int in_jlo, int in_jhi,
 
   permute = user_permute;
   memoryflag = user_memoryflag;
+  usecollective = collective;
 
   // store parameters in local data structs
 
@@ -599,7 +601,7 @@ void Remap2d::remap(FFT_SCALAR *in, FFT_SCALAR *out,
 
   // point-to-point remap communication
 
-  if (!collective) {
+  if (!usecollective) {
 
     // post all recvs into scratch space
 
diff --git a/src/remap2d.h b/src/remap2d.h
index 52a3c57..7e683b9 100644
--- a/src/remap2d.h
+++ b/src/remap2d.h
@@ -46,6 +46,7 @@ class Remap2d {
 
   int permute;                      // permutation setting = 0,1
   int memoryflag;                   // 0 = user-provided bufs, 1 = internal
+  int usecollective;                // collective setting when setup() was called
 
   // point to point communication
 
diff --git a/src/remap3d.cpp b/src/remap3d.cpp
index 6436c3b..d4b4fd7 100644
--- a/src/remap3d.cpp
+++ b/src/remap3d.cpp
@@ -100,6 +100,7 @@ Remap3d::Remap3d(MPI_Comm user_comm)
   sendbuf = recvbuf = NULL;
 
   setupflag = 0;
+  usecollective = 0;
 }
 
 /* ----------------------------------------------------------------------
@@ -113,7 +114,7 @@ Remap3d::~Remap3d()
 
   // free new MPI communicator for collective comm
 
-  if (collective) {
+  if (usecollective) {
     if (newcomm != MPI_COMM_NULL) MPI_Comm_free(&newcomm);
     memory->sfree(pgroup);
   }
@@ -135,7 +136,7 @@ Remap3d::~Remap3d()
 
   // free internal arrays for collective commm
     
-  if (collective) {
+  if (usecollective) {
     memory->sfree(sendcnts);
     memory->sfree(recvcnts);
     memory->sfree(senddispls);
@@ -191,6 +192,7 @@ void Remap3d::setup(int in_ilo, int in_ihi, int in_jlo, int in_jhi,
 
   permute = user_permute;
   memoryflag = user_memoryflag;
+  usecollective = collective;
 
   // store parameters in local data structs
 
@@ -646,7 +648,7 @@ void Remap3d::remap(FFT_SCALAR *in, FFT_SCALAR *out,
 
   // point-to-point remap communication
 
-  if (!collective) {
+  if (!usecollective) {
 
     // post all recvs into scratch space
 
diff --git a/src/remap3d.h b/src/remap3d.h
index afc58d8..fe6a442 100644
--- a/src/remap3d.h
+++ b/src/remap3d.h
@@ -47,6 +47,7 @@ class Remap3d {
 
   int permute;                      // permutation setting = 0,1,2
   int memoryflag;                   // 0 = user-provided bufs, 1 = internal
+  int usecollective;                // collective setting when setup() was called
 
   // point to point communication
 
-- 
2.43.0


From 39e234a78811b3973f1f36141e034b6e2d63f09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:59 +0000
Subject: [PATCH 13/27] fix: refuse a second setup() of a Remap, which can only
 be called once

---
 src/remap2d.cpp | 1 +
 src/remap3d.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/remap2d.cpp b/src/remap2d.cpp
index 2ba8e77..73e9146 100644
--- a/src/remap2d.cpp
+++ b/src/remap2d.cpp
@@ -183,6 +183,7 @@ void Remap2d::setup(int in_ilo, int in_ihi, int in_jlo, int in_jhi,
   struct extent_2d in,out,overlap;
   struct extent_2d *inarray,*outarray;
 
+  if (setupflag) error->all("Remap is already setup");
   setupflag = 1;
 
   permute = user_permute;
diff --git a/src/remap3d.cpp b/src/remap3d.cpp
index d4b4fd7..bf559ea 100644
--- a/src/remap3d.cpp
+++ b/src/remap3d.cpp
@@ -188,6 +188,7 @@ void Remap3d::setup(int in_ilo, int in_ihi, int in_jlo, int in_jhi,
   struct extent_3d in,out,overlap;
   struct extent_3d *inarray,*outarray;
 
+  if (setupflag) error->all("Remap is already setup");
   setupflag = 1;
 
   permute = user_permute;
-- 
2.43.0


From 9b8ed432ec1035b66c6fefb9861497349d5b2b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:59 +0000
Subject: [PATCH 14/27] fix: changing an FFT's memory option after setup() must
 have no effect

---
 src/fft2d.cpp | 7 +++++--
 src/fft2d.h   | 1 +
 src/fft3d.cpp | 7 +++++--
 src/fft3d.h   | 1 +
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index cfc9e57..c7baa60 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -169,6 +169,7 @@ FFT2d::FFT2d(MPI_Comm user_comm, int user_precision)
 
   setupflag = 0;
   setup_memory_flag = 0;
+  usememory = 0;
 }
 
 /* ----------------------------------------------------------------------
@@ -187,7 +188,7 @@ FFT2d::~FFT2d()
 
   // only deallocated send/recv bufs if allocated internally
 
-  if (memoryflag) {
+  if (usememory) {
     memory->sfree(sendbuf);
     memory->sfree(recvbuf);
   }
@@ -423,6 +424,8 @@ void FFT2d::setup(int user_nfast, int user_nslow,
 
   // allocate sendbuf, recvbuf arrays to max sizes needed by any remap
 
+  usememory = memoryflag;
+
   if (memoryflag) {
     setup_memory_flag = 1;
     if (sendsize) {
@@ -487,7 +490,7 @@ void FFT2d::deallocate_setup()
 void FFT2d::setup_memory(FFT_SCALAR *user_sendbuf, FFT_SCALAR *user_recvbuf)
 {
   if (!setupflag) error->all("Cannot setup FFT memory before setup");
-  if (memoryflag) error-> all("Cannot setup FFT memory with memoryflag set");
+  if (usememory) error-> all("Cannot setup FFT memory with memoryflag set");
 
   setup_memory_flag = 1;
   sendbuf = user_sendbuf;
diff --git a/src/fft2d.h b/src/fft2d.h
index 411da1f..590ff93 100644
--- a/src/fft2d.h
+++ b/src/fft2d.h
@@ -63,6 +63,7 @@ class FFT2d {
   MPI_Comm world;
   int me,nprocs;
   int setupflag,setup_memory_flag;
+  int usememory;                    // memoryflag setting when setup() was called
 
   class Memory *memory;
   class Error *error;
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 2009352..1e413cb 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -175,6 +175,7 @@ FFT3d::FFT3d(MPI_Comm user_comm, int user_precision)
 
   setupflag = 0;
   setup_memory_flag = 0;
+  usememory = 0;
 }
 
 /* ----------------------------------------------------------------------
@@ -190,7 +191,7 @@ FFT3d::~FFT3d()
   delete [] factors;
 
   if (setupflag) deallocate_setup();
-  if (memoryflag) deallocate_setup_memory();
+  if (usememory) deallocate_setup_memory();
 }
 
 /* ----------------------------------------------------------------------
@@ -463,6 +464,8 @@ void FFT3d::setup(int user_nfast, int user_nmid, int user_nslow,
 
   // allocate sendbuf, recvbuf arrays to max sizes needed by any remap
 
+  usememory = memoryflag;
+
   if (memoryflag) {
     setup_memory_flag = 1;
     if (sendsize) {
@@ -530,7 +533,7 @@ void FFT3d::deallocate_setup()
 void FFT3d::setup_memory(FFT_SCALAR *user_sendbuf, FFT_SCALAR *user_recvbuf)
 {
   if (!setupflag) error->all("Cannot setup FFT memory before setup");
-  if (memoryflag) error-> all("Cannot setup FFT memory with memoryflag set");
+  if (usememory) error-> all("Cannot setup FFT memory with memoryflag set");
 
   setup_memory_flag = 1;
   sendbuf = user_sendbuf;
diff --git a/src/fft3d.h b/src/fft3d.h
index 17ba5ee..8ef5e80 100644
--- a/src/fft3d.h
+++ b/src/fft3d.h
@@ -68,6 +68,7 @@ class FFT3d {
  private:
   int me,nprocs;
   int setupflag,setup_memory_flag;
+  int usememory;                    // memoryflag setting when setup() was called
 
   class Memory *memory;
   class Error *error;
-- 
2.43.0


From ba2135ffadd850a4e52dc723070814fff103742a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:40 +0000
Subject: [PATCH 15/27] fix: initialize the tuning statistics of a 2d FFT, as
 for 3d

---
 src/fft2d.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index c7baa60..e732575 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -130,6 +130,12 @@ FFT2d::FFT2d(MPI_Comm user_comm, int user_precision)
   scaled = 1;
   remaponly = 0;
 
+  // tuning results
+
+  ntrial = npertrial = 0;
+  cbest = ebest = pbest = -1;
+  besttime = 0.0;
+
   // Memory and Error classes
 
   memory = new Memory();
-- 
2.43.0


From db5035c86b766faa236fc05f824a7f2a3812d431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:02 +0000
Subject: [PATCH 16/27] fix: tune() must never perform more FFTs per trial than
 requested

When the time limit does not allow for timing of the 1d FFTs and remaps,
niter was recomputed without regard to the value the caller asked for.
---
 src/fft2d.cpp | 2 ++
 src/fft3d.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index e732575..3e455f2 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -757,11 +757,13 @@ void FFT2d::tune(int user_nfast, int user_nslow,
   else timetotal = nruns * (timesetup + niter*timefft);
 
   if (tmax > 0.0 && timetotal > tmax) {
+    int user_niter = niter;
     if (tflag) niter = static_cast<int> ((tmax/nruns-timesetup) / timefft/3);
     else niter = static_cast<int> ((tmax/nruns-timesetup) / timefft);
     if (niter <= 0) {
       tflag = 0;
       niter = static_cast<int> ((tmax/nruns-timesetup) / timefft);
+      if (niter > user_niter) niter = user_niter;
       if (niter <= 0) {
         niter = 1;
         nruns = static_cast<int> (tmax/(timesetup+timefft));
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 1e413cb..b9693da 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -809,11 +809,13 @@ void FFT3d::tune(int user_nfast, int user_nmid, int user_nslow,
   else timetotal = nruns * (timesetup + niter*timefft);
 
   if (tmax > 0.0 && timetotal > tmax) {
+    int user_niter = niter;
     if (tflag) niter = static_cast<int> ((tmax/nruns-timesetup) / timefft/3);
     else niter = static_cast<int> ((tmax/nruns-timesetup) / timefft);
     if (niter <= 0) {
       tflag = 0;
       niter = static_cast<int> ((tmax/nruns-timesetup) / timefft);
+      if (niter > user_niter) niter = user_niter;
       if (niter <= 0) {
         niter = 1;
         nruns = static_cast<int> (tmax/(timesetup+timefft));
-- 
2.43.0


From 401245bdc6bfdbebddb2f1e4c8b5720b4c1a1c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:23 +0000
Subject: [PATCH 17/27] fix: Python setup_memory() raised UnboundLocalError for
 every buffer

---
 src/fftmpi.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/fftmpi.py b/src/fftmpi.py
index 4b7a2d4..c36ff1f 100644
--- a/src/fftmpi.py
+++ b/src/fftmpi.py
@@ -210,11 +210,11 @@ class FFT3dMPI:
       sys.exit()
       
     if self.precision == 1:
-      csendbuf = csendbuf.ctypes.data_as(POINTER(c_float))
-      crecvbuf = crecvbuf.ctypes.data_as(POINTER(c_float))
+      csendbuf = sendbuf.ctypes.data_as(POINTER(c_float))
+      crecvbuf = recvbuf.ctypes.data_as(POINTER(c_float))
     else:
-      csendbuf = csendbuf.ctypes.data_as(POINTER(c_double))
-      crecvbuf = crecvbuf.ctypes.data_as(POINTER(c_double))
+      csendbuf = sendbuf.ctypes.data_as(POINTER(c_double))
+      crecvbuf = recvbuf.ctypes.data_as(POINTER(c_double))
       
     self.lib.fft3d_setup_memory(self.fft,csendbuf,crecvbuf)
       
@@ -464,11 +464,11 @@ class FFT2dMPI:
       sys.exit()
       
     if self.precision == 1:
-      csendbuf = csendbuf.ctypes.data_as(POINTER(c_float))
-      crecvbuf = crecvbuf.ctypes.data_as(POINTER(c_float))
+      csendbuf = sendbuf.ctypes.data_as(POINTER(c_float))
+      crecvbuf = recvbuf.ctypes.data_as(POINTER(c_float))
     else:
-      csendbuf = csendbuf.ctypes.data_as(POINTER(c_double))
-      crecvbuf = crecvbuf.ctypes.data_as(POINTER(c_double))
+      csendbuf = sendbuf.ctypes.data_as(POINTER(c_double))
+      crecvbuf = recvbuf.ctypes.data_as(POINTER(c_double))
       
     self.lib.fft2d_setup_memory(self.fft,csendbuf,crecvbuf)
       
-- 
2.43.0


From 0bae8716ff14c8421a848e0c7df7e29a4b2f7aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:00 +0000
Subject: [PATCH 18/27] fix: Python remap classes could not be created or set
 up

create passed a precision argument the C function does not have, the
constructor referred to a C function that does not exist, and setup()
used undefined variables and too few argument types.
---
 src/fftmpi.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/fftmpi.py b/src/fftmpi.py
index c36ff1f..7c57769 100644
--- a/src/fftmpi.py
+++ b/src/fftmpi.py
@@ -574,7 +574,7 @@ class Remap3dMPI:
     if mpi4pyflag and MPI._sizeof(comm) == sizeof(c_int): MPI_Comm = c_int
     else: MPI_Comm = c_void_p
 
-    self.lib.remap3d_create.argtypes = [MPI_Comm,c_int,POINTER(c_void_p)]
+    self.lib.remap3d_create.argtypes = [MPI_Comm,POINTER(c_void_p)]
     self.lib.remap3d_create.restype = None
 
     self.lib.remap3d_destroy.argtypes = [c_void_p]
@@ -586,7 +586,7 @@ class Remap3dMPI:
     self.lib.remap3d_setup.argtypes = \
       [c_void_p,c_int,c_int,c_int,c_int,c_int,c_int,
        c_int,c_int,c_int,c_int,c_int,c_int,
-       c_int,c_int,c_int,POINTER(c_int)]
+       c_int,c_int,c_int,POINTER(c_int),POINTER(c_int)]
     self.lib.remap3d_setup.restype = None
     
     if precision == 1:
@@ -597,14 +597,14 @@ class Remap3dMPI:
       self.lib.remap3d_remap.argtypes = \
         [c_void_p,POINTER(c_double),POINTER(c_double),
            POINTER(c_double),POINTER(c_double)]
-    self.lib.remap3d_compute.restype = None
+    self.lib.remap3d_remap.restype = None
 
     # create an instance of Remap3d
 
     self.remap = c_void_p()
     comm_ptr = MPI._addressof(comm)
     comm_value = MPI_Comm.from_address(comm_ptr)
-    self.lib.remap3d_create(comm_value,precision,byref(self.remap))
+    self.lib.remap3d_create(comm_value,byref(self.remap))
 
   # destroy instance of Remap3d
   
@@ -623,9 +623,14 @@ class Remap3dMPI:
   def setup(self,in_ilo,in_ihi,in_jlo,in_jhi,in_klo,in_khi,
             out_ilo,out_ihi,out_jlo,out_jhi,out_klo,out_khi,
             nqty,permute,memoryflag):
+    sendsize = c_int()
+    recvsize = c_int()
     self.lib.remap3d_setup(self.remap,in_ilo,in_ihi,in_jlo,in_jhi,in_klo,in_khi,
                            out_ilo,out_ihi,out_jlo,out_jhi,out_klo,out_khi,
-                           nqty,permute,memoryflag,sendsize,recvsize)
+                           nqty,permute,memoryflag,
+                           byref(sendsize),byref(recvsize))
+    sendsize = sendsize.value
+    recvsize = recvsize.value
     return sendsize,recvsize
       
   # remap
@@ -678,7 +683,7 @@ class Remap2dMPI:
     if mpi4pyflag and MPI._sizeof(comm) == sizeof(c_int): MPI_Comm = c_int
     else: MPI_Comm = c_void_p
 
-    self.lib.remap2d_create.argtypes = [MPI_Comm,c_int,POINTER(c_void_p)]
+    self.lib.remap2d_create.argtypes = [MPI_Comm,POINTER(c_void_p)]
     self.lib.remap2d_create.restype = None
 
     self.lib.remap2d_destroy.argtypes = [c_void_p]
@@ -689,7 +694,7 @@ class Remap2dMPI:
     
     self.lib.remap2d_setup.argtypes = \
     [c_void_p,c_int,c_int,c_int,c_int,c_int,c_int,c_int,c_int,
-        c_int,c_int,c_int,POINTER(c_int)]
+        c_int,c_int,c_int,POINTER(c_int),POINTER(c_int)]
     self.lib.remap2d_setup.restype = None
     
     if precision == 1:
@@ -700,14 +705,14 @@ class Remap2dMPI:
       self.lib.remap2d_remap.argtypes = \
         [c_void_p,POINTER(c_double),POINTER(c_double),
          POINTER(c_double),POINTER(c_double)]
-    self.lib.remap2d_compute.restype = None
+    self.lib.remap2d_remap.restype = None
 
     # create an instance of Remap2d
 
     self.remap = c_void_p()
     comm_ptr = MPI._addressof(comm)
     comm_value = MPI_Comm.from_address(comm_ptr)
-    self.lib.remap2d_create(comm_value,precision,byref(self.remap))
+    self.lib.remap2d_create(comm_value,byref(self.remap))
 
   # destroy instance of Remap2d
   
@@ -725,9 +730,14 @@ class Remap2dMPI:
 
   def setup(self,in_ilo,in_ihi,in_jlo,in_jhi,
             out_ilo,out_ihi,out_jlo,out_jhi,nqty,permute,memoryflag):
+    sendsize = c_int()
+    recvsize = c_int()
     self.lib.remap2d_setup(self.remap,in_ilo,in_ihi,in_jlo,in_jhi,
                            out_ilo,out_ihi,out_jlo,out_jhi,
-                           nqty,permute,memoryflag,sendsize,recvsize)
+                           nqty,permute,memoryflag,
+                           byref(sendsize),byref(recvsize))
+    sendsize = sendsize.value
+    recvsize = recvsize.value
     return sendsize,recvsize
       
   # remap
-- 
2.43.0


From ab7475beecf1efd2e93e9daef2c735f76359a9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:28 +0000
Subject: [PATCH 19/27] fix: Python remap() method was hidden by the instance
 attribute of the same name

---
 src/fftmpi.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/fftmpi.py b/src/fftmpi.py
index 7c57769..1a6f94b 100644
--- a/src/fftmpi.py
+++ b/src/fftmpi.py
@@ -601,31 +601,31 @@ class Remap3dMPI:
 
     # create an instance of Remap3d
 
-    self.remap = c_void_p()
+    self.plan = c_void_p()
     comm_ptr = MPI._addressof(comm)
     comm_value = MPI_Comm.from_address(comm_ptr)
-    self.lib.remap3d_create(comm_value,byref(self.remap))
+    self.lib.remap3d_create(comm_value,byref(self.plan))
 
   # destroy instance of Remap3d
   
   def __del__(self):
-    self.lib.remap3d_destroy(self.remap)
+    self.lib.remap3d_destroy(self.plan)
 
   def destroy(self):
-    self.lib.remap3d_destroy(self.remap)
+    self.lib.remap3d_destroy(self.plan)
     self.lib = None
 
   # setup
 
   def set(self,keyword,value):
-    self.lib.remap3d_set(self.remap,keyword,value)
+    self.lib.remap3d_set(self.plan,keyword,value)
 
   def setup(self,in_ilo,in_ihi,in_jlo,in_jhi,in_klo,in_khi,
             out_ilo,out_ihi,out_jlo,out_jhi,out_klo,out_khi,
             nqty,permute,memoryflag):
     sendsize = c_int()
     recvsize = c_int()
-    self.lib.remap3d_setup(self.remap,in_ilo,in_ihi,in_jlo,in_jhi,in_klo,in_khi,
+    self.lib.remap3d_setup(self.plan,in_ilo,in_ihi,in_jlo,in_jhi,in_klo,in_khi,
                            out_ilo,out_ihi,out_jlo,out_jhi,out_klo,out_khi,
                            nqty,permute,memoryflag,
                            byref(sendsize),byref(recvsize))
@@ -654,7 +654,7 @@ class Remap3dMPI:
       csendbuf = sendbuf.ctypes.data_as(POINTER(c_double))
       crecvbuf = recvbuf.ctypes.data_as(POINTER(c_double))
       
-    self.lib.remap3d_remap(self.remap,cin,cout,csendbuf,crecvbuf)
+    self.lib.remap3d_remap(self.plan,cin,cout,csendbuf,crecvbuf)
 
 # ------------------------------------------------------------------
 # instantiate remap2dMPI thru its C-interface
@@ -709,30 +709,30 @@ class Remap2dMPI:
 
     # create an instance of Remap2d
 
-    self.remap = c_void_p()
+    self.plan = c_void_p()
     comm_ptr = MPI._addressof(comm)
     comm_value = MPI_Comm.from_address(comm_ptr)
-    self.lib.remap2d_create(comm_value,byref(self.remap))
+    self.lib.remap2d_create(comm_value,byref(self.plan))
 
   # destroy instance of Remap2d
   
   def __del__(self):
-    self.lib.remap2d_destroy(self.remap)
+    self.lib.remap2d_destroy(self.plan)
 
   def destroy(self):
-    self.lib.remap2d_destroy(self.remap)
+    self.lib.remap2d_destroy(self.plan)
     self.lib = None
 
   # setup
 
   def set(self,keyword,value):
-    self.lib.remap2d_set(self.remap,keyword,value)
+    self.lib.remap2d_set(self.plan,keyword,value)
 
   def setup(self,in_ilo,in_ihi,in_jlo,in_jhi,
             out_ilo,out_ihi,out_jlo,out_jhi,nqty,permute,memoryflag):
     sendsize = c_int()
     recvsize = c_int()
-    self.lib.remap2d_setup(self.remap,in_ilo,in_ihi,in_jlo,in_jhi,
+    self.lib.remap2d_setup(self.plan,in_ilo,in_ihi,in_jlo,in_jhi,
                            out_ilo,out_ihi,out_jlo,out_jhi,
                            nqty,permute,memoryflag,
                            byref(sendsize),byref(recvsize))
@@ -761,4 +761,4 @@ class Remap2dMPI:
       csendbuf = sendbuf.ctypes.data_as(POINTER(c_double))
       crecvbuf = recvbuf.ctypes.data_as(POINTER(c_double))
       
-    self.lib.remap2d_remap(self.remap,cin,cout,csendbuf,crecvbuf)
+    self.lib.remap2d_remap(self.plan,cin,cout,csendbuf,crecvbuf)
-- 
2.43.0


From 901d7d0208af3cb1ca54807c1b6bb409d7fd61fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:40 +0000
Subject: [PATCH 20/27] fix: collective remap setup dereferenced group arrays
 that could not be allocated

---
 src/remap2d.cpp | 3 +++
 src/remap3d.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/remap2d.cpp b/src/remap2d.cpp
index 73e9146..57b2656 100644
--- a/src/remap2d.cpp
+++ b/src/remap2d.cpp
@@ -398,9 +398,11 @@ void Remap2d::setup(int in_ilo, int in_ihi, int in_jlo, int in_jhi,
     // allocate pgroup as large as all procs
 
     int *pflag = (int *) memory->smalloc(nprocs*sizeof(int));
+    if (!pflag) error->one("Could not allocate remap group info");
     for (i = 0; i < nprocs; i++) pflag[i] = 0;
 
     pgroup = (int *) memory->smalloc(nprocs*sizeof(int));
+    if (!pgroup) error->one("Could not allocate remap group info");
     ngroup = 0;
 
     // add procs to pgroup that I send to and recv from, including self
@@ -453,6 +455,7 @@ void Remap2d::setup(int in_ilo, int in_ihi, int in_jlo, int in_jhi,
     // recreate sorted pgroup from pflag
 
     pgroup = (int *) memory->srealloc(pgroup,ngroup*sizeof(int));
+    if (ngroup && !pgroup) error->one("Could not allocate remap group info");
 
     ngroup = 0;
     for (i = 0; i < nprocs; i++) 
diff --git a/src/remap3d.cpp b/src/remap3d.cpp
index bf559ea..7955c9a 100644
--- a/src/remap3d.cpp
+++ b/src/remap3d.cpp
@@ -445,9 +445,11 @@ void Remap3d::setup(int in_ilo, int in_ihi, int in_jlo, int in_jhi,
     // allocate pgroup as large as all procs
 
     int *pflag = (int *) memory->smalloc(nprocs*sizeof(int));
+    if (!pflag) error->one("Could not allocate remap group info");
     for (i = 0; i < nprocs; i++) pflag[i] = 0;
 
     pgroup = (int *) memory->smalloc(nprocs*sizeof(int));
+    if (!pgroup) error->one("Could not allocate remap group info");
     ngroup = 0;
 
     // add procs to pgroup that I send to and recv from, including self
@@ -500,6 +502,7 @@ void Remap3d::setup(int in_ilo, int in_ihi, int in_jlo, int in_jhi,
     // recreate sorted pgroup from pflag
 
     pgroup = (int *) memory->srealloc(pgroup,ngroup*sizeof(int));
+    if (ngroup && !pgroup) error->one("Could not allocate remap group info");
 
     ngroup = 0;
     for (i = 0; i < nprocs; i++) 
-- 
2.43.0


From 1fdeebbfa591a970491f3593a5d117281b8f385d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:40 +0000
Subject: [PATCH 21/27] fix: tune() dereferenced its data array when it could
 not be allocated

---
 src/fft2d.cpp | 3 +++
 src/fft3d.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 3e455f2..8b44f3b 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -725,6 +725,7 @@ void FFT2d::tune(int user_nfast, int user_nslow,
   if (user_fftsize > maxfftsize) {
     data = (FFT_SCALAR *) 
       memory->srealloc(data,user_fftsize*2*sizeof(FFT_SCALAR));
+    if (!data) error->one("Could not allocate tune data array");
     for (int i = 2*maxfftsize; i < 2*user_fftsize; i++) data[i] = 0.0;
     maxfftsize = user_fftsize;
   }
@@ -855,6 +856,7 @@ void FFT2d::tune(int user_nfast, int user_nslow,
         if (user_fftsize > maxfftsize) {
           data = (FFT_SCALAR *) 
             memory->srealloc(data,user_fftsize*2*sizeof(FFT_SCALAR));
+          if (!data) error->one("Could not allocate tune data array");
           for (int i = 2*maxfftsize; i < 2*user_fftsize; i++) data[i] = 0.0;
           maxfftsize = user_fftsize;
         }
@@ -896,6 +898,7 @@ void FFT2d::tune(int user_nfast, int user_nslow,
       if (user_fftsize > maxfftsize) {
         data = (FFT_SCALAR *) 
           memory->srealloc(data,user_fftsize*2*sizeof(FFT_SCALAR));
+        if (!data) error->one("Could not allocate tune data array");
         for (int i = 2*maxfftsize; i < 2*user_fftsize; i++) data[i] = 0.0;
         maxfftsize = user_fftsize;
       }
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index b9693da..5c54d24 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -777,6 +777,7 @@ void FFT3d::tune(int user_nfast, int user_nmid, int user_nslow,
   if (user_fftsize > maxfftsize) {
     data = (FFT_SCALAR *) 
       memory->srealloc(data,user_fftsize*2*sizeof(FFT_SCALAR));
+    if (!data) error->one("Could not allocate tune data array");
     for (int i = 2*maxfftsize; i < 2*user_fftsize; i++) data[i] = 0.0;
     maxfftsize = user_fftsize;
   }
@@ -909,6 +910,7 @@ void FFT3d::tune(int user_nfast, int user_nmid, int user_nslow,
         if (user_fftsize > maxfftsize) {
           data = (FFT_SCALAR *) 
             memory->srealloc(data,user_fftsize*2*sizeof(FFT_SCALAR));
+          if (!data) error->one("Could not allocate tune data array");
           for (int i = 2*maxfftsize; i < 2*user_fftsize; i++) data[i] = 0.0;
           maxfftsize = user_fftsize;
         }
@@ -953,6 +955,7 @@ void FFT3d::tune(int user_nfast, int user_nmid, int user_nslow,
       if (user_fftsize > maxfftsize) {
         data = (FFT_SCALAR *) 
           memory->srealloc(data,user_fftsize*2*sizeof(FFT_SCALAR));
+        if (!data) error->one("Could not allocate tune data array");
         for (int i = 2*maxfftsize; i < 2*user_fftsize; i++) data[i] = 0.0;
         maxfftsize = user_fftsize;
       }
-- 
2.43.0


From 78c6ecf3d7afbeae6ef694fe3137ab6c56858684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:41 +0000
Subject: [PATCH 22/27] fix: 1d FFT plans that could not be created were used

---
 src/fft2d.cpp | 10 ++++++++++
 src/fft3d.cpp | 14 ++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 8b44f3b..f3e6603 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -1424,6 +1424,11 @@ void FFT2d::setup_ffts()
   fft_slow->plan_backward =
     FFTW_API(plan_many_dft)(1,&nslow,n,NULL,&nslow,1,nslow,NULL,&nslow,1,nslow,
                             FFTW_BACKWARD,FFTW_ESTIMATE);
+
+  if (fft_fast->n && (!fft_fast->plan_forward || !fft_fast->plan_backward))
+    error->one("Could not create 1d FFT plans");
+  if (fft_slow->n && (!fft_slow->plan_forward || !fft_slow->plan_backward))
+    error->one("Could not create 1d FFT plans");
 }
 
 void FFT2d::perform_ffts(FFT_DATA *data, int flag, FFT1d *plan)
@@ -1470,6 +1475,11 @@ void FFT2d::setup_ffts()
     fft_slow->plan_forward = kiss_fft_alloc(nslow,0,NULL,NULL);
     fft_slow->plan_backward = kiss_fft_alloc(nslow,1,NULL,NULL);
   }
+
+  if (!fft_fast->plan_forward || !fft_fast->plan_backward)
+    error->one("Could not create 1d FFT plans");
+  if (!fft_slow->plan_forward || !fft_slow->plan_backward)
+    error->one("Could not create 1d FFT plans");
 }
 
 void FFT2d::perform_ffts(FFT_DATA *data, int flag, FFT1d *plan)
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 5c54d24..2ba286a 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -1618,6 +1618,13 @@ void FFT3d::setup_ffts()
   fft_slow->plan_backward =
     FFTW_API(plan_many_dft)(1,&nslow,n,NULL,&nslow,1,nslow,NULL,&nslow,1,nslow,
                             FFTW_BACKWARD,FFTW_ESTIMATE);
+
+  if (fft_fast->n && (!fft_fast->plan_forward || !fft_fast->plan_backward))
+    error->one("Could not create 1d FFT plans");
+  if (fft_mid->n && (!fft_mid->plan_forward || !fft_mid->plan_backward))
+    error->one("Could not create 1d FFT plans");
+  if (fft_slow->n && (!fft_slow->plan_forward || !fft_slow->plan_backward))
+    error->one("Could not create 1d FFT plans");
 }
 
 void FFT3d::perform_ffts(FFT_DATA *data, int flag, FFT1d *plan)
@@ -1677,6 +1684,13 @@ void FFT3d::setup_ffts()
     fft_slow->plan_forward = kiss_fft_alloc(nslow,0,NULL,NULL);
     fft_slow->plan_backward = kiss_fft_alloc(nslow,1,NULL,NULL);
   }
+
+  if (!fft_fast->plan_forward || !fft_fast->plan_backward)
+    error->one("Could not create 1d FFT plans");
+  if (!fft_mid->plan_forward || !fft_mid->plan_backward)
+    error->one("Could not create 1d FFT plans");
+  if (!fft_slow->plan_forward || !fft_slow->plan_backward)
+    error->one("Could not create 1d FFT plans");
 }
 
 void FFT3d::perform_ffts(FFT_DATA *data, int flag, FFT1d *plan)
-- 
2.43.0


From 123e078141e9cae08c16384382b6e5c790b31a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:13 +0000
Subject: [PATCH 23/27] fix: FFTW3 builds crashed on data arrays without SIMD
 alignment

FFTW's new-array execute requires the alignment the plan was made for;
the plans are made for NULL, i.e. aligned, data. Nothing in the documented
interface asks callers to align their arrays beyond FFT_SCALAR.
---
 src/fft2d.cpp | 16 ++++++++++++++++
 src/fft3d.cpp | 16 ++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index f3e6603..51e4e11 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -1433,6 +1433,22 @@ void FFT2d::setup_ffts()
 
 void FFT2d::perform_ffts(FFT_DATA *data, int flag, FFT1d *plan)
 {
+  // plans were made for data with SIMD alignment, FFTW requires the same of
+  //   data they are applied to, use a temporary plan if caller's is not
+
+  if (plan->n && FFTW_API(alignment_of)((FFT_SCALAR *) data)) {
+    int length = plan->length;
+    FFTW_API(plan) tmp =
+      FFTW_API(plan_many_dft)(1,&length,plan->n,data,&length,1,length,
+                              data,&length,1,length,
+                              flag == FORWARD ? FFTW_FORWARD : FFTW_BACKWARD,
+                              FFTW_ESTIMATE);
+    if (!tmp) error->one("Could not create 1d FFT plans");
+    FFTW_API(execute)(tmp);
+    FFTW_API(destroy_plan)(tmp);
+    return;
+  }
+
   if (flag == FORWARD) FFTW_API(execute_dft)(plan->plan_forward,data,data);
   else FFTW_API(execute_dft)(plan->plan_backward,data,data);
 }
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 2ba286a..8506b6a 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -1629,6 +1629,22 @@ void FFT3d::setup_ffts()
 
 void FFT3d::perform_ffts(FFT_DATA *data, int flag, FFT1d *plan)
 {
+  // plans were made for data with SIMD alignment, FFTW requires the same of
+  //   data they are applied to, use a temporary plan if caller's is not
+
+  if (plan->n && FFTW_API(alignment_of)((FFT_SCALAR *) data)) {
+    int length = plan->length;
+    FFTW_API(plan) tmp =
+      FFTW_API(plan_many_dft)(1,&length,plan->n,data,&length,1,length,
+                              data,&length,1,length,
+                              flag == FORWARD ? FFTW_FORWARD : FFTW_BACKWARD,
+                              FFTW_ESTIMATE);
+    if (!tmp) error->one("Could not create 1d FFT plans");
+    FFTW_API(execute)(tmp);
+    FFTW_API(destroy_plan)(tmp);
+    return;
+  }
+
   if (flag == FORWARD) FFTW_API(execute_dft)(plan->plan_forward,data,data);
   else FFTW_API(execute_dft)(plan->plan_backward,data,data);
 }
-- 
2.43.0


From 1d51ff57c7767fc9b6226cec357c1cdd01ef6559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:47 +0000
Subject: [PATCH 24/27] fix: report missing memory for the KISS in-place
 transform instead of crashing

---
 src/fft2d.cpp |  6 ++++--
 src/fft3d.cpp |  6 ++++--
 src/kissfft.h | 11 +++++++----
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 51e4e11..fcedfa1 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -1506,11 +1506,13 @@ void FFT2d::perform_ffts(FFT_DATA *data, int flag, FFT1d *plan)
   if (flag == FORWARD) {
     kiss_fft_cfg plan_forward = plan->plan_forward;
     for (int offset = 0; offset < total; offset += length)
-      kiss_fft(plan_forward,&data[offset],&data[offset]);
+      if (!kiss_fft(plan_forward,&data[offset],&data[offset]))
+        error->one("Could not allocate 1d FFT memory");
   } else {
     kiss_fft_cfg plan_backward = plan->plan_backward;
     for (int offset = 0; offset < total; offset += length)
-      kiss_fft(plan_backward,&data[offset],&data[offset]);
+      if (!kiss_fft(plan_backward,&data[offset],&data[offset]))
+        error->one("Could not allocate 1d FFT memory");
   }
 }
 
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 8506b6a..96e26d4 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -1717,11 +1717,13 @@ void FFT3d::perform_ffts(FFT_DATA *data, int flag, FFT1d *plan)
   if (flag == FORWARD) {
     kiss_fft_cfg plan_forward = plan->plan_forward;
     for (int offset = 0; offset < total; offset += length)
-      kiss_fft(plan_forward,&data[offset],&data[offset]);
+      if (!kiss_fft(plan_forward,&data[offset],&data[offset]))
+        error->one("Could not allocate 1d FFT memory");
   } else {
     kiss_fft_cfg plan_backward = plan->plan_backward;
     for (int offset = 0; offset < total; offset += length)
-      kiss_fft(plan_backward,&data[offset],&data[offset]);
+      if (!kiss_fft(plan_backward,&data[offset],&data[offset]))
+        error->one("Could not allocate 1d FFT memory");
   }
 }
 
diff --git a/src/kissfft.h b/src/kissfft.h
index b7964b1..6171b83 100644
--- a/src/kissfft.h
+++ b/src/kissfft.h
@@ -103,7 +103,7 @@ struct kiss_fft_state {
 #endif
 
 static kiss_fft_cfg kiss_fft_alloc(int,int,void *,size_t *);
-static void kiss_fft(kiss_fft_cfg,const FFT_DATA *,FFT_DATA *);
+static int kiss_fft(kiss_fft_cfg,const FFT_DATA *,FFT_DATA *);
 
 /*
   Explanation of macros dealing with complex math:
@@ -461,23 +461,26 @@ static kiss_fft_cfg kiss_fft_alloc(int nfft, int inverse_fft, void *mem, size_t
     return st;
 }
 
-static void kiss_fft_stride(kiss_fft_cfg st, const FFT_DATA *fin, FFT_DATA *fout, int in_stride)
+/* return 1 if successful, 0 if memory for the temp buffer is not available */
+static int kiss_fft_stride(kiss_fft_cfg st, const FFT_DATA *fin, FFT_DATA *fout, int in_stride)
 {
     if (fin == fout) {
         // NOTE: this is not really an in-place FFT algorithm
         // just performs an out-of-place FFT into a temp buffer
         FFT_DATA * tmpbuf = (FFT_DATA*)KISS_FFT_TMP_ALLOC( sizeof(FFT_DATA)*st->nfft);
+        if (tmpbuf == NULL) return 0;
         kf_work(tmpbuf,fin,1,in_stride, st->factors,st);
         memcpy(fout,tmpbuf,sizeof(FFT_DATA)*st->nfft);
         KISS_FFT_TMP_FREE(tmpbuf);
     }else{
         kf_work( fout, fin, 1,in_stride, st->factors,st );
     }
+    return 1;
 }
 
-static void kiss_fft(kiss_fft_cfg cfg, const FFT_DATA *fin, FFT_DATA *fout)
+static int kiss_fft(kiss_fft_cfg cfg, const FFT_DATA *fin, FFT_DATA *fout)
 {
-    kiss_fft_stride(cfg,fin,fout,1);
+    return kiss_fft_stride(cfg,fin,fout,1);
 }
 
 #endif
-- 
2.43.0


From 117b0fa9ecdb7d84df6b70ffa1450ecb8a2799af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:39 +0000
Subject: [PATCH 25/27] fix: name of 1d FFT library was uninitialised until
 setup

---
 src/fft2d.cpp | 20 ++++++++++++--------
 src/fft3d.cpp | 20 ++++++++++++--------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index fcedfa1..36d8c54 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -153,6 +153,18 @@ FFT2d::FFT2d(MPI_Comm user_comm, int user_precision)
   if (sizeof(FFT_SCALAR) == 4) precision = "single";
   if (sizeof(FFT_SCALAR) == 8) precision = "double";
 
+  // name of 1d FFT library
+
+#if defined(FFT_MKL)
+  fft1d = "MKL";
+#elif defined(FFT_FFTW2)
+  fft1d = "FFTW2";
+#elif defined(FFT_FFTW3)
+  fft1d = "FFTW3";
+#elif defined(FFT_KISS)
+  fft1d = "KISS";
+#endif
+
   // allowed prime factors for each FFT grid dimension
 
   nprime = 3;
@@ -1310,8 +1322,6 @@ int64_t FFT2d::remap_memory()
 
 void FFT2d::setup_ffts()
 {
-  fft1d = "MKL";
-
   DftiCreateDescriptor(&fft_fast->handle, FFT_MKL_PREC, DFTI_COMPLEX, 1, 
                        (MKL_LONG) nfast);
   DftiSetValue(fft_fast->handle, DFTI_NUMBER_OF_TRANSFORMS, 
@@ -1357,8 +1367,6 @@ void FFT2d::deallocate_ffts()
 
 void FFT2d::setup_ffts()
 {
-  fft1d = "FFTW2";
-
   fft_fast->plan_forward =
     fftw_create_plan(nfast,FFTW_FORWARD,FFTW_ESTIMATE | FFTW_IN_PLACE);
   fft_fast->plan_backward =
@@ -1408,8 +1416,6 @@ void FFT2d::deallocate_ffts()
 
 void FFT2d::setup_ffts()
 {
-  fft1d = "FFTW3";
-
   int n = fft_fast->n;
   fft_fast->plan_forward =
     FFTW_API(plan_many_dft)(1,&nfast,n,NULL,&nfast,1,nfast,NULL,&nfast,1,nfast,
@@ -1479,8 +1485,6 @@ void FFT2d::deallocate_ffts()
 
 void FFT2d::setup_ffts()
 {
-  fft1d = "KISS";
-
   fft_fast->plan_forward = kiss_fft_alloc(nfast,0,NULL,NULL);
   fft_fast->plan_backward = kiss_fft_alloc(nfast,1,NULL,NULL);
 
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 96e26d4..c24b304 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -153,6 +153,18 @@ FFT3d::FFT3d(MPI_Comm user_comm, int user_precision)
   if (sizeof(FFT_SCALAR) == 4) precision = "single";
   if (sizeof(FFT_SCALAR) == 8) precision = "double";
 
+  // name of 1d FFT library
+
+#if defined(FFT_MKL)
+  fft1d = "MKL";
+#elif defined(FFT_FFTW2)
+  fft1d = "FFTW2";
+#elif defined(FFT_FFTW3)
+  fft1d = "FFTW3";
+#elif defined(FFT_KISS)
+  fft1d = "KISS";
+#endif
+
   // allowed prime factors for each FFT grid dimension
 
   nprime = 3;
@@ -1470,8 +1482,6 @@ int64_t FFT3d::remap_memory()
 
 void FFT3d::setup_ffts()
 {
-  fft1d = "MKL";
-
   DftiCreateDescriptor(&fft_fast->handle, FFT_MKL_PREC, DFTI_COMPLEX, 1, 
                        (MKL_LONG) nfast);
   DftiSetValue(fft_fast->handle, DFTI_NUMBER_OF_TRANSFORMS, 
@@ -1527,8 +1537,6 @@ void FFT3d::deallocate_ffts()
 
 void FFT3d::setup_ffts()
 {
-  fft1d = "FFTW2";
-
   fft_fast->plan_forward =
     fftw_create_plan(nfast,FFTW_FORWARD,FFTW_ESTIMATE | FFTW_IN_PLACE);
   fft_fast->plan_backward =
@@ -1595,8 +1603,6 @@ void FFT3d::deallocate_ffts()
 
 void FFT3d::setup_ffts()
 {
-  fft1d = "FFTW3";
-
   int n = fft_fast->n;
   fft_fast->plan_forward =
     FFTW_API(plan_many_dft)(1,&nfast,n,NULL,&nfast,1,nfast,NULL,&nfast,1,nfast,
@@ -1677,8 +1683,6 @@ void FFT3d::deallocate_ffts()
 
 void FFT3d::setup_ffts()
 {
-  fft1d = "KISS";
-
   fft_fast->plan_forward = kiss_fft_alloc(nfast,0,NULL,NULL);
   fft_fast->plan_backward = kiss_fft_alloc(nfast,1,NULL,NULL);
 
-- 
2.43.0


From abebac64994e70064b0b6f1d5b5a9bcbd97c68cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:52 +0000
Subject: [PATCH 26/27] fix: default packing of 2d FFTs is memcpy, as
 documented and for 3d FFTs

---
 src/fft2d.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 36d8c54..121a226 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -85,7 +85,7 @@ typedef int64_t bigint;
        style of data exchanges
        0 = pencil to pencil
        1 = brick to pencil and pencil to brick
-     packflag = 0/1/2 (default = 0)
+     packflag = 0/1/2 (default = 2)
        style of pack/unpack methods for remapping data
        0 = array
        1 = pointer
@@ -121,7 +121,7 @@ FFT2d::FFT2d(MPI_Comm user_comm, int user_precision)
 
   collective = 2;
   exchange = 0;
-  packflag = 0;
+  packflag = 2;
   memoryflag = 1;
 
   // default settings
-- 
2.43.0


From 57c869fcc159f2d4ec064fb7715406f722f4ee4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:18 +0000
Subject: [PATCH 27/27] fix: tile boundaries overflowed for long dimensions on
 many processes

Boundaries of pencil and brick layouts are computed as rank*length/procs in
4-byte ints, which overflows once procs*length exceeds 2^31, e.g. for a
dimension of 2^20 on 4096 processes: layouts with negative indices.
---
 src/fft2d.cpp | 16 ++++++++--------
 src/fft3d.cpp | 36 ++++++++++++++++++------------------
 2 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 121a226..0618151 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -347,8 +347,8 @@ void FFT2d::setup(int user_nfast, int user_nslow,
     remap_preflag = 1;
     fast_ilo = 0;
     fast_ihi = nfast - 1;
-    fast_jlo = ipfast2*nslow/npfast2;
-    fast_jhi = (ipfast2+1)*nslow/npfast2 - 1;
+    fast_jlo = (bigint) ipfast2*nslow/npfast2;
+    fast_jhi = (bigint) (ipfast2+1)*nslow/npfast2 - 1;
   }
 
   // remap from fast pencil layout to slow pencil layout
@@ -366,8 +366,8 @@ void FFT2d::setup(int user_nfast, int user_nslow,
     slow_jlo = out_jlo;
     slow_jhi = out_jhi;
   } else {
-    slow_ilo = ipslow1*nfast/npslow1;
-    slow_ihi = (ipslow1+1)*nfast/npslow1 - 1;
+    slow_ilo = (bigint) ipslow1*nfast/npslow1;
+    slow_ihi = (bigint) (ipslow1+1)*nfast/npslow1 - 1;
     slow_jlo = 0;
     slow_jhi = nslow - 1;
   }
@@ -389,10 +389,10 @@ void FFT2d::setup(int user_nfast, int user_nslow,
   // remap will be two stages, with brick layout and brick indices inbetween
 
   if (exchange) {
-    brick_ilo = ipbrick1*nfast/npbrick1;
-    brick_ihi = (ipbrick1+1)*nfast/npbrick1 - 1;
-    brick_jlo = ipbrick2*nslow/npbrick2;
-    brick_jhi = (ipbrick2+1)*nslow/npbrick2 - 1;
+    brick_ilo = (bigint) ipbrick1*nfast/npbrick1;
+    brick_ihi = (bigint) (ipbrick1+1)*nfast/npbrick1 - 1;
+    brick_jlo = (bigint) ipbrick2*nslow/npbrick2;
+    brick_jhi = (bigint) (ipbrick2+1)*nslow/npbrick2 - 1;
   }
 
   // create Remap instances for 3 forward remaps
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index c24b304..1832a8e 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -348,22 +348,22 @@ void FFT3d::setup(int user_nfast, int user_nmid, int user_nslow,
     remap_preflag = 1;
     fast_ilo = 0;
     fast_ihi = nfast - 1;
-    fast_jlo = ipfast2*nmid/npfast2;
-    fast_jhi = (ipfast2+1)*nmid/npfast2 - 1;
-    fast_klo = ipfast3*nslow/npfast3;
-    fast_khi = (ipfast3+1)*nslow/npfast3 - 1;
+    fast_jlo = (bigint) ipfast2*nmid/npfast2;
+    fast_jhi = (bigint) (ipfast2+1)*nmid/npfast2 - 1;
+    fast_klo = (bigint) ipfast3*nslow/npfast3;
+    fast_khi = (bigint) (ipfast3+1)*nslow/npfast3 - 1;
   }
 
   // remap from fast pencil layout to mid pencil layout
   // always needed, b/c permutation changes
   // mid indices = data layout before/after 2nd set of FFTs
 
-  mid_ilo = ipmid1*nfast/npmid1;
-  mid_ihi = (ipmid1+1)*nfast/npmid1 - 1;
+  mid_ilo = (bigint) ipmid1*nfast/npmid1;
+  mid_ihi = (bigint) (ipmid1+1)*nfast/npmid1 - 1;
   mid_jlo = 0;
   mid_jhi = nmid - 1;
-  mid_klo = ipmid3*nslow/npmid3;
-  mid_khi = (ipmid3+1)*nslow/npmid3 - 1;
+  mid_klo = (bigint) ipmid3*nslow/npmid3;
+  mid_khi = (bigint) (ipmid3+1)*nslow/npmid3 - 1;
 
   // remap from mid pencil layout to slow pencil layout
   // always needed, b/c permutation changes
@@ -382,10 +382,10 @@ void FFT3d::setup(int user_nfast, int user_nmid, int user_nslow,
     slow_klo = out_klo;
     slow_khi = out_khi;
   } else {
-    slow_ilo = ipslow1*nfast/npslow1;
-    slow_ihi = (ipslow1+1)*nfast/npslow1 - 1;
-    slow_jlo = ipslow2*nmid/npslow2;
-    slow_jhi = (ipslow2+1)*nmid/npslow2 - 1;
+    slow_ilo = (bigint) ipslow1*nfast/npslow1;
+    slow_ihi = (bigint) (ipslow1+1)*nfast/npslow1 - 1;
+    slow_jlo = (bigint) ipslow2*nmid/npslow2;
+    slow_jhi = (bigint) (ipslow2+1)*nmid/npslow2 - 1;
     slow_klo = 0;
     slow_khi = nslow - 1;
   }
@@ -408,12 +408,12 @@ void FFT3d::setup(int user_nfast, int user_nmid, int user_nslow,
   // remap will be two stages, with brick layout and brick indices inbetween
 
   if (exchange) {
-    brick_ilo = ipbrick1*nfast/npbrick1;
-    brick_ihi = (ipbrick1+1)*nfast/npbrick1 - 1;
-    brick_jlo = ipbrick2*nmid/npbrick2;
-    brick_jhi = (ipbrick2+1)*nmid/npbrick2 - 1;
-    brick_klo = ipbrick3*nslow/npbrick3;
-    brick_khi = (ipbrick3+1)*nslow/npbrick3 - 1;
+    brick_ilo = (bigint) ipbrick1*nfast/npbrick1;
+    brick_ihi = (bigint) (ipbrick1+1)*nfast/npbrick1 - 1;
+    brick_jlo = (bigint) ipbrick2*nmid/npbrick2;
+    brick_jhi = (bigint) (ipbrick2+1)*nmid/npbrick2 - 1;
+    brick_klo = (bigint) ipbrick3*nslow/npbrick3;
+    brick_khi = (bigint) (ipbrick3+1)*nslow/npbrick3 - 1;
   }
 
   // create Remap instances for 4 forward remaps
-- 
2.43.0

