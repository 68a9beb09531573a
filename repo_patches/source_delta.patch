From 6ee25037be3e80ee5ea70fd2efa3ea5d6311a7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:27 +0000
Subject: [PATCH 01/38] fix: StartDIS2CO of a cumulated vector must not leave
 old values to be added by ApplyDIS2CO

---
 src/base/linalg/dcc_map.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/base/linalg/dcc_map.cpp b/src/base/linalg/dcc_map.cpp
index bb46e3a..820c073 100644
--- a/src/base/linalg/dcc_map.cpp
+++ b/src/base/linalg/dcc_map.cpp
@@ -85,7 +85,13 @@ StartDIS2CO (BaseVector & vec) const
 #endif
   BufferG(vec);
   if (vec.GetParallelStatus() != DISTRIBUTED) // just nulling-out entries is enough
-    { vec.SetParallelStatus(DISTRIBUTED); return; }
+  {
+    // nothing is received, so ApplyDIS2CO, which sees a DISTRIBUTED vector, must not add anything
+    for (auto row : m_buffer)
+      { row = TSCAL(0); }
+    vec.SetParallelStatus(DISTRIBUTED);
+    return;
+  }
   auto ex_dofs = pardofs->GetDistantProcs();
   auto comm = pardofs->GetCommunicator();
   if (g_send.Size())
-- 
2.43.0


From 822b37b4ccc131c7eb8bc2736d03fdee81b43313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:44 +0000
Subject: [PATCH 02/38] fix: the sum of two sparse matrices uses the values of
 the second one

---
 src/base/linalg/utils_sparseLA.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/base/linalg/utils_sparseLA.cpp b/src/base/linalg/utils_sparseLA.cpp
index 7cecef3..068fb91 100644
--- a/src/base/linalg/utils_sparseLA.cpp
+++ b/src/base/linalg/utils_sparseLA.cpp
@@ -174,22 +174,22 @@ AddMergeSPM (double const &alpha,
       {
         for (auto j : Range(risA))
         {
-          lam(k, risA[j], rvsA[j]);
+          lam(k, risA[j], alpha * rvsA[j]);
         }
       }
       else if (risA.Size() == 0)
       {
         for (auto j : Range(risB))
         {
-          lam(k, risB[j], rvsB[j]);
+          lam(k, risB[j], beta * rvsB[j]);
         }
       }
       else
       {
         iterate_ABC(risA, risB,
-          [&](auto const &idxA) { lam(k, risA[idxA], rvsA[idxA]); },
-          [&](auto const &idxB) { lam(k, risB[idxB], rvsA[idxB]); },
-          [&](auto const &idxA, auto const &idxB) { lam(k, risA[idxA], rvsA[idxA] + rvsA[idxB]); });
+          [&](auto const &idxA) { lam(k, risA[idxA], alpha * rvsA[idxA]); },
+          [&](auto const &idxB) { lam(k, risB[idxB], beta * rvsB[idxB]); },
+          [&](auto const &idxA, auto const &idxB) { lam(k, risA[idxA], alpha * rvsA[idxA] + beta * rvsB[idxB]); });
       }
     }
   };
-- 
2.43.0


From cfe518d55d8d8fb1e0a34b590fc690029f0ae75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:44 +0000
Subject: [PATCH 03/38] fix: the sparse identity has its entries on the
 diagonal

---
 src/base/linalg/utils_sparseLA.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/base/linalg/utils_sparseLA.cpp b/src/base/linalg/utils_sparseLA.cpp
index 068fb91..161e549 100644
--- a/src/base/linalg/utils_sparseLA.cpp
+++ b/src/base/linalg/utils_sparseLA.cpp
@@ -836,7 +836,7 @@ EmbedSparseMatrix(shared_ptr<BaseMatrix> A, IntRange r, int const bigH)
 
 template<int BS>
 INLINE
-shared_ptr<stripped_spm_tm<Mat<BS, BS, double>>>
+shared_ptr<stripped_spm<Mat<BS, BS, double>>>
 createSparseIdentityImpl(int H, BitArray const *onRows)
 {
   Array<int> perow(H); perow = 1;
@@ -852,14 +852,14 @@ createSparseIdentityImpl(int H, BitArray const *onRows)
     }
   }
 
-  auto spI = make_shared<stripped_spm_tm<Mat<BS, BS, double>>>(perow, H);
+  auto spI = make_shared<stripped_spm<Mat<BS, BS, double>>>(perow, H);
 
   for (auto k : Range(perow))
   {
     if ( (onRows == nullptr) || (onRows->Test(k) ) )
     {
-      spI->GetRowIndices(k)[0] = 1;
-      spI->GetRowValues(k)[0] = 1.0;
+      spI->GetRowIndices(k)[0] = k;
+      SetIdentity(spI->GetRowValues(k)[0]);
     }
   }
 
-- 
2.43.0


From 359d41eae6dd497584d5dd9fd5e7d6126775a185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:44 +0000
Subject: [PATCH 04/38] fix: compressing a scalar sparse matrix keeps its
 negative entries

---
 src/base/linalg/utils_sparseLA.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/linalg/utils_sparseLA.cpp b/src/base/linalg/utils_sparseLA.cpp
index 161e549..d898b7c 100644
--- a/src/base/linalg/utils_sparseLA.cpp
+++ b/src/base/linalg/utils_sparseLA.cpp
@@ -963,7 +963,7 @@ template<int N, int M> INLINE double abssum_tm(Mat<N, M, double> const &x)
   return s;
 }
 
-INLINE double abssum_tm(double const &x) { return x; }
+INLINE double abssum_tm(double const &x) { return abs(x); }
 
 template<class TSPM>
 shared_ptr<TSPM>
-- 
2.43.0


From 29399ea64194e2253043a79cb0591c3c8526a36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:44 +0000
Subject: [PATCH 05/38] fix: converting a block matrix to a sparse matrix
 places every block

---
 src/base/linalg/utils_sparseLA.cpp | 33 +++++++++++++++---------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/base/linalg/utils_sparseLA.cpp b/src/base/linalg/utils_sparseLA.cpp
index d898b7c..896011c 100644
--- a/src/base/linalg/utils_sparseLA.cpp
+++ b/src/base/linalg/utils_sparseLA.cpp
@@ -505,10 +505,10 @@ shared_ptr<BaseMatrix> BaseMatrixToSparse (shared_ptr<BaseMatrix> A);
 
 template<int BH, int BW>
 INLINE
-shared_ptr<stripped_spm_tm<Mat<BH, BW, double>>>
+shared_ptr<stripped_spm<Mat<BH, BW, double>>>
 Block2SparseMatrix_impl (BlockMatrix &A)
 {
-  typedef stripped_spm_tm<Mat<BH, BW, double>> TSPM;
+  typedef stripped_spm<Mat<BH, BW, double>> TSPM;
 
   // cout << "Block2SparseMatrix_impl " << BH << " x " << BW << endl;
 
@@ -559,8 +559,8 @@ Block2SparseMatrix_impl (BlockMatrix &A)
 
   for (auto j : Range(W))
   {
-    rowOff[j] = totalH;
-    totalH += getBlockInCol(j)->Width();
+    colOff[j] = totalW;
+    totalW += getBlockInCol(j)->Width();
   }
 
   auto iterateBlockWise = [&](auto lam)
@@ -591,7 +591,7 @@ Block2SparseMatrix_impl (BlockMatrix &A)
     }
   });
 
-  auto spA = make_shared<stripped_spm_tm<Mat<BH, BW, double>>>(perow, totalW);
+  auto spA = make_shared<TSPM>(perow, totalW);
 
   perow = 0;
 
@@ -602,15 +602,16 @@ Block2SparseMatrix_impl (BlockMatrix &A)
       auto Akj_ris = Akj.GetRowIndices(kk);
       auto Akj_rvs = Akj.GetRowValues(kk);
 
-      auto ris = spA->GetRowIndices(kk);
-      auto rvs = spA->GetRowValues(kk);
+      int const row = offRow + kk;
+
+      auto ris = spA->GetRowIndices(row);
+      auto rvs = spA->GetRowValues(row);
 
-      for (auto l : Range(ris))
+      for (auto l : Range(Akj_ris))
       {
-        int const row = offRow + kk;
         int const inRow = perow[row]++;
-        ris[inRow] = offCol + Akj_ris[j];
-        rvs[inRow] = Akj_rvs[j];
+        ris[inRow] = offCol + Akj_ris[l];
+        rvs[inRow] = Akj_rvs[l];
       }
     }
   });
@@ -702,8 +703,8 @@ Block2SparseMatrix (BlockMatrix &A)
 
         if (kjPar)
         {
-          rowPds[k] = parAkj->GetRowParallelDofs();
-          colPds[j] = parAkj->GetColParallelDofs();
+          rowPds[j] = parAkj->GetRowParallelDofs();
+          colPds[k] = parAkj->GetColParallelDofs();
         }
 
         if (blockPar == -1)
@@ -760,15 +761,15 @@ Block2SparseMatrix (BlockMatrix &A)
   shared_ptr<ParallelDofs> fusedRowParDOFs = nullptr;
   shared_ptr<ParallelDofs> fusedColParDOFs = nullptr;
 
-  if (blockPar)
+  if (blockPar == 1)
   {
     fusedRowParDOFs = fuseParallelDOFs(rowPds);
     fusedColParDOFs = fuseParallelDOFs(colPds);
   }
 
   return WrapParallelMatrix(singleSparseMat,
-                            UniversalDofs(fusedRowParDOFs, singleSparseMat->Height(), BH),
-                            UniversalDofs(fusedColParDOFs, singleSparseMat->Width(), BW),
+                            UniversalDofs(fusedRowParDOFs, singleSparseMat->Width(), BW),
+                            UniversalDofs(fusedColParDOFs, singleSparseMat->Height(), BH),
                             blockOp);
 }
 
-- 
2.43.0


From c261aeebc6d96816a773407b508e70c03f8edaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:52 +0000
Subject: [PATCH 06/38] fix: residual update of hybrid smoothers with a
 cumulated residual

The local stages and the update with G leave distributed values; a
cumulated residual was only declared to be distributed.
---
 src/base/smoothers/hybrid_base_smoother.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/base/smoothers/hybrid_base_smoother.cpp b/src/base/smoothers/hybrid_base_smoother.cpp
index ad87541..78c021d 100644
--- a/src/base/smoothers/hybrid_base_smoother.cpp
+++ b/src/base/smoothers/hybrid_base_smoother.cpp
@@ -319,7 +319,10 @@ SmoothImplRES (BaseVector       &x,
 
   // most of the time status is correct here and this is a noop
   x.Cumulate();
-  // res.Distribute(); // no! can use it if cumulated (so basically never)
+
+  // the update of the residual with G (see below) needs distributed values
+  if (hybA.HasGGlobal())
+    { res.Distribute(); }
 
   gx.SetParallelStatus(DISTRIBUTED);
 
-- 
2.43.0


From 6884e06200f6a88d0c7d01edab73fc84a1bb71ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:52 +0000
Subject: [PATCH 07/38] fix: order of the stages with several local steps in
 hybrid smoothers

---
 src/base/smoothers/hybrid_base_smoother.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/base/smoothers/hybrid_base_smoother.cpp b/src/base/smoothers/hybrid_base_smoother.cpp
index 78c021d..673ac2c 100644
--- a/src/base/smoothers/hybrid_base_smoother.cpp
+++ b/src/base/smoothers/hybrid_base_smoother.cpp
@@ -552,13 +552,15 @@ CallStageKernelsImpl(BaseVector       &x,
   {
     // these smoothes continue to use "old" values of x for non-master DOFs which is what we want
 
+    // every local step is P1 - EX - P2, so that the backward steps are the transposed ones
+
     callSM(P2);
 
     xZero = false; // cannot use x ZIG any more from this point on
 
-    callSM(EX_PART);
-
     callSM(P1);
+
+    callSM(EX_PART);
   }
 
   /**
-- 
2.43.0


From 5d65326f2eea004d4923c19ca43fd8b0de7d0b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:52 +0000
Subject: [PATCH 08/38] fix: arguments of the base constructor in
 HybridGSSmoother and HybridDISmoother

---
 src/base/smoothers/gssmoother.cpp      | 2 +-
 src/base/smoothers/hybrid_smoother.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/smoothers/gssmoother.cpp b/src/base/smoothers/gssmoother.cpp
index 4386934..7e1abc2 100644
--- a/src/base/smoothers/gssmoother.cpp
+++ b/src/base/smoothers/gssmoother.cpp
@@ -609,7 +609,7 @@ HybridGSSmoother (shared_ptr<BaseMatrix> _A,
                   bool _in_thread,
                   bool _symm_loc,
                   int _nsteps_loc)
-  : HybridSmoother<TM>(_A, _overlap, _in_thread, _nsteps_loc)
+  : HybridSmoother<TM>(_A, _nsteps_loc, _in_thread, _overlap)
   , subset(_subset)
   , pinv(_pinv)
   , symm_loc(_symm_loc)
diff --git a/src/base/smoothers/hybrid_smoother.cpp b/src/base/smoothers/hybrid_smoother.cpp
index 1b9cc4b..ceb1b0c 100644
--- a/src/base/smoothers/hybrid_smoother.cpp
+++ b/src/base/smoothers/hybrid_smoother.cpp
@@ -236,7 +236,7 @@ HybridDISmoother (shared_ptr<BaseMatrix> _A,
                   shared_ptr<BitArray> _freedofs,
                   bool overlap,
                   bool NG_MPI_thread)
-  : HybridSmoother<TM>(_A, overlap, NG_MPI_thread, 1)
+  : HybridSmoother<TM>(_A, 1, NG_MPI_thread, overlap)
 {
   Array<TM> mod_diag = this->CalcModDiag(nullptr);
 
-- 
2.43.0


From 204f6440bf70639e0f8eefa3374b668c255e95c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:52 +0000
Subject: [PATCH 09/38] fix: diagonal entries of GSS4 on a subset of the rows

---
 src/base/smoothers/gssmoother.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/smoothers/gssmoother.cpp b/src/base/smoothers/gssmoother.cpp
index 7e1abc2..0991b73 100644
--- a/src/base/smoothers/gssmoother.cpp
+++ b/src/base/smoothers/gssmoother.cpp
@@ -428,7 +428,7 @@ GSS4<TM> :: GSS4 (shared_ptr<SparseMatrix<TM>> A, FlatArray<TM> repl_diag, share
       if (repl_diag.Size())
         { dinv[i] = repl_diag[xdofs[i]]; }
       else
-        { dinv[i] = ncA(i, i); } // yeah, that is correct
+        { dinv[i] = ncA(i, xdofs[i]); } // rows of cA are compressed, columns are not
       if (pinv)
         { HeapReset hr(lh); CalcPseudoInverseTryNormal(dinv[i], lh); }
       else
@@ -517,7 +517,7 @@ void GSS4<TM> :: CalcDiags ()
   ParallelForRange (IntRange(dinv.Size()), [&] ( IntRange r ) {
 LocalHeap lh = glh.Split();
 for (auto i : r) {
-  dinv[i] = ncA(i, i);
+  dinv[i] = ncA(i, xdofs[i]); // rows of cA are compressed, columns are not
   if (pinv)
     { HeapReset hr(lh); CalcPseudoInverseTryNormal(dinv[i], lh); }
   else
-- 
2.43.0


From 08b7f8aea5407787a511127fc86ba4f8def48c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:34 +0000
Subject: [PATCH 10/38] fix: backward steps of locally symmetric hybrid
 smoothers are the transposed of the forward steps

---
 src/base/smoothers/block_gssmoother.cpp     | 20 ++++++++++----------
 src/base/smoothers/gssmoother.cpp           | 12 ++++++++----
 src/base/smoothers/hybrid_base_smoother.hpp |  6 ++++++
 3 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/base/smoothers/block_gssmoother.cpp b/src/base/smoothers/block_gssmoother.cpp
index 2b4f7ac..872b199 100644
--- a/src/base/smoothers/block_gssmoother.cpp
+++ b/src/base/smoothers/block_gssmoother.cpp
@@ -703,9 +703,9 @@ SmoothStageRHS (SMOOTH_STAGE        const &stage,
   {
     if ( symm_loc )
     {
-      // SYMM:      F,-,F / -,FB,- / B,-,B
-      
-      switch(stage)
+      // SYMM:      F,-,F / -,FB,- / B,-,B  (the first local stage is LOC_PART_2 when smoothing backward)
+
+      switch(this->GetSymmStage(stage, direction))
       {
         case(SMOOTH_STAGE::LOC_PART_1):
         {
@@ -771,9 +771,9 @@ SmoothStageRHS (SMOOTH_STAGE        const &stage,
   {
     if ( symm_loc )
     {
-      // SYMM:      F,-,F / -,FB,- / B,-,B
-      
-      switch(stage)
+      // SYMM:      F,-,F / -,FB,- / B,-,B  (the first local stage is LOC_PART_2 when smoothing backward)
+
+      switch(this->GetSymmStage(stage, direction))
       {
         case(SMOOTH_STAGE::LOC_PART_1):
         {
@@ -822,9 +822,9 @@ SmoothStageRes (SMOOTH_STAGE        const &stage,
   {
     if ( symm_loc )
     {
-      // SYMM:      F,-,F / -,FB,- / B,-,B
+      // SYMM:      F,-,F / -,FB,- / B,-,B  (the first local stage is LOC_PART_2 when smoothing backward)
 
-      switch(stage)
+      switch(this->GetSymmStage(stage, direction))
       {
         case(SMOOTH_STAGE::LOC_PART_1):
         {
@@ -871,9 +871,9 @@ SmoothStageRes (SMOOTH_STAGE        const &stage,
   {
     if ( symm_loc )
     {
-      // SYMM:      F,-,F / -,FB,- / B,-,B
+      // SYMM:      F,-,F / -,FB,- / B,-,B  (the first local stage is LOC_PART_2 when smoothing backward)
 
-      switch(stage)
+      switch(this->GetSymmStage(stage, direction))
       {
         case(SMOOTH_STAGE::LOC_PART_1):
         {
diff --git a/src/base/smoothers/gssmoother.cpp b/src/base/smoothers/gssmoother.cpp
index 0991b73..812eb98 100644
--- a/src/base/smoothers/gssmoother.cpp
+++ b/src/base/smoothers/gssmoother.cpp
@@ -720,9 +720,11 @@ SmoothStageRHS (SMOOTH_STAGE        const &stage,
 
   if ( symm_loc )
   {
-    // SYMM:      F,-,F / -,FB,- / B,-,B
+    auto const symmStage = this->GetSymmStage(stage, direction);
 
-    switch(stage)
+    // SYMM:      F,-,F / -,FB,- / B,-,B  (the first local stage is LOC_PART_2 when smoothing backward)
+
+    switch(symmStage)
     {
       case(SMOOTH_STAGE::LOC_PART_1):
       {
@@ -799,9 +801,11 @@ SmoothStageRes (SMOOTH_STAGE        const &stage,
 
   if ( symm_loc )
   {
-    // SYMM:      F,-,F / -,FB,- / B,-,B
+    auto const symmStage = this->GetSymmStage(stage, direction);
+
+    // SYMM:      F,-,F / -,FB,- / B,-,B  (the first local stage is LOC_PART_2 when smoothing backward)
 
-    switch(stage)
+    switch(symmStage)
     {
       case(SMOOTH_STAGE::LOC_PART_1):
       {
diff --git a/src/base/smoothers/hybrid_base_smoother.hpp b/src/base/smoothers/hybrid_base_smoother.hpp
index e215407..f65bb70 100644
--- a/src/base/smoothers/hybrid_base_smoother.hpp
+++ b/src/base/smoothers/hybrid_base_smoother.hpp
@@ -60,6 +60,12 @@ protected:
     LOC_PART_2 = 2  // smooth local part 2 (hides concentrated -> cumulated)
   };
 
+  /** Smoothers that are symmetric by themselves do the same whatever the direction is **/
+  static SMOOTH_STAGE GetSymmStage (SMOOTH_STAGE const &stage, SMOOTHING_DIRECTION const &direction)
+  {
+    return ( direction == FORWARD || stage == EX_PART ) ? stage : ( stage == LOC_PART_1 ? LOC_PART_2 : LOC_PART_1 );
+  }
+
   virtual
   void
   SmoothStageRHS (SMOOTH_STAGE        const &stage,
-- 
2.43.0


From d989e698ec65dee3f730c89042f559089289a5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:34 +0000
Subject: [PATCH 11/38] fix: residual update of the locally symmetric hybrid
 smoother with disjoint blocks

---
 src/base/smoothers/block_gssmoother.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/base/smoothers/block_gssmoother.cpp b/src/base/smoothers/block_gssmoother.cpp
index 872b199..51a5ef5 100644
--- a/src/base/smoothers/block_gssmoother.cpp
+++ b/src/base/smoothers/block_gssmoother.cpp
@@ -829,28 +829,19 @@ SmoothStageRes (SMOOTH_STAGE        const &stage,
         case(SMOOTH_STAGE::LOC_PART_1):
         {
           Array<int> groups({ 0 });
-          if (no_blocks)
-            { loc_smoother_2->Smooth_savebL(groups, x, res, res, x_zero); } // wrong ?! need b,res here, not res,res
-          else
-            { loc_smoother_2->SmoothRESSimple(groups, x, res, 1, false, false); }
+          loc_smoother_2->SmoothRESSimple(groups, x, res, 1, false, false);
           break;
         }
         case(SMOOTH_STAGE::EX_PART):
         {
           Array<int> groups({ 1 });
-          if (no_blocks)
-            { loc_smoother_2->Smooth_SYMM_CR(groups, x, b, res, 1, x_zero); }
-          else
-            { loc_smoother_2->SmoothRESSimple(groups, x, res, 1, false, true); }
+          loc_smoother_2->SmoothRESSimple(groups, x, res, 1, false, true);
           break;
         }
         case(SMOOTH_STAGE::LOC_PART_2):
         {
           Array<int> groups({ 0 });
-          if (no_blocks)
-            { loc_smoother_2->SmoothBack_usebL_saveL(groups, x, b, res); } // does not update RES!
-          else
-            { loc_smoother_2->SmoothRESSimple(groups, x, res, 1, true, false); }
+          loc_smoother_2->SmoothRESSimple(groups, x, res, 1, true, false);
           break;
         }
       }
-- 
2.43.0


From bd151d1e20aa94e639a3857cada3fd0b5cf7d5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:48 +0000
Subject: [PATCH 12/38] fix: BSmoother2: backward order of groups, sweeps over
 disjoint blocks that start at zero or keep the residual

---
 src/base/smoothers/loc_block_gssmoother.cpp   |  4 ++--
 .../smoothers/loc_block_gssmoother_impl.hpp   | 21 +++++++++----------
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/base/smoothers/loc_block_gssmoother.cpp b/src/base/smoothers/loc_block_gssmoother.cpp
index 811939a..a59363b 100644
--- a/src/base/smoothers/loc_block_gssmoother.cpp
+++ b/src/base/smoothers/loc_block_gssmoother.cpp
@@ -239,9 +239,9 @@ namespace amg
   {
     RegionTimer rt(SG_thack());
     if (blocks_no)
-      { SmoothNO(groups, x, b, res, steps, res_updated, update_res, x_zero, true, symm); }
+      { SmoothNO(groups, x, b, res, steps, res_updated, update_res, x_zero, reverse, symm); }
     else
-      { SmoothWO(groups, x, b, res, steps, res_updated, update_res, x_zero, true, symm); }
+      { SmoothWO(groups, x, b, res, steps, res_updated, update_res, x_zero, reverse, symm); }
   } // BSmoother2<TM> :: SmoothGroups
 
 
diff --git a/src/base/smoothers/loc_block_gssmoother_impl.hpp b/src/base/smoothers/loc_block_gssmoother_impl.hpp
index 743f438..3fb5ce5 100644
--- a/src/base/smoothers/loc_block_gssmoother_impl.hpp
+++ b/src/base/smoothers/loc_block_gssmoother_impl.hpp
@@ -326,7 +326,7 @@ namespace amg
     // res -= (D+L^T) x_new
     for (auto k : Range(dofnrs)) {
       for (auto l : Range(firsti[k], firsti[k+1]))
-	{ bigres(cols[l]) -= vals[l] * smallsol[k]; }
+	{ bigres(cols[l]) -= Trans(vals[l]) * smallsol[k]; }
     }
   } // BSBlock::RichardsonUpdate_FW_zig
 
@@ -373,8 +373,8 @@ namespace amg
       { bigres(dnr) = 0.0; }
     // res -= L x_new
     for (auto k : Range(dofnrs)) {
-      for (auto l : Range(firsti[nds], firsti[nds+1]))
-	{ bigres(cols[l]) -= vals[l] * smallsol[k]; }
+      for (auto l : Range(firsti[nds+k], firsti[nds+k+1])) // <- firsti offset for U
+	{ bigres(cols[l]) -= Trans(vals[l]) * smallsol[k]; }
     }
   } // BSBlock::RichardsonUpdate_FW_zig
 
@@ -408,7 +408,7 @@ namespace amg
     // res -= L^T (x_new-x)
     for (auto k : Range(dofnrs)) {
       for (auto l : Range(firsti[k], firsti[k+1]))
-	{ bigres(cols[l]) -= vals[l] * smallsol[k]; }
+	{ bigres(cols[l]) -= Trans(vals[l]) * smallsol[k]; }
     }
   } // BSBlock::RichardsonUpdate_FW_zig
 
@@ -442,7 +442,7 @@ namespace amg
     // res -= U^T (x_new-x)
     for (auto k : Range(dofnrs)) {
       for (auto l : Range(firsti[nds+k], firsti[nds+k+1])) // <- firsti offset for U
-	{ bigres(cols[l]) -= vals[l] * smallsol[k]; }
+	{ bigres(cols[l]) -= Trans(vals[l]) * smallsol[k]; }
     }
   } // BSBlock::RichardsonUpdate_FW_zig
 
@@ -508,7 +508,7 @@ namespace amg
     // res -= U (x_new-x)
     for (auto k : Range(dofnrs))
       for (auto l : Range(firsti[nds+k], firsti[nds+k+1])) // <- firsti offset for U
-	{ bigres(cols[l]) -= vals[l] * smallsol[k]; }
+	{ bigres(cols[l]) -= Trans(vals[l]) * smallsol[k]; }
   } // BSBlock::RichardsonUpdate_FW_zig
 
 
@@ -626,7 +626,7 @@ namespace amg
     {
       if (reverse)
       {
-        int group_num = groups[sg-1]-k;
+        int group_num = groups[sg-1-k];
         int finext = fi_blocks[group_num+1], fifirst = fi_blocks[group_num];
 
         for (int block_num = finext-1; block_num > fifirst; block_num--)
@@ -719,8 +719,7 @@ namespace amg
       if (update_res)
       { // writes res-A*update = b-Ax_new into "res" vector
         *myresb = res;
-        // for omega!=1, need to zero out update-vec
-        //   even then, not really sure this works?
+        *update = 0; // all of it is added to x in the end
         if (symm)
           { Smooth_SYMM_CR(groups, *update, *myresb, res, steps, true); }
         else
@@ -763,9 +762,9 @@ namespace amg
 	  FlatVector<TV> hb = hymax.Range(0, n);
 	  if (zig) { // zero initial guess - save U/L part of residuum
 	    if (reverse)
-	      { blocks[block_nr].RichardsonUpdate_FW_zig(1.0, hx, fx, hb, fb); }
-	    else
 	      { blocks[block_nr].RichardsonUpdate_BW_zig(1.0, hx, fx, hb, fb); }
+	    else
+	      { blocks[block_nr].RichardsonUpdate_FW_zig(1.0, hx, fx, hb, fb); }
 	  }
 	  else
 	    { blocks[block_nr].RichardsonUpdate(1.0, hx, fx, hb, fb); }
-- 
2.43.0


From 17beca5304c292ae9f41f9bbf9738e6cc99d2ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:13 +0000
Subject: [PATCH 13/38] fix: BSmoother2: rows in multiple blocks in the product
 with the matrix

---
 src/base/smoothers/loc_block_gssmoother.cpp | 18 ++++++++++++++++--
 src/base/smoothers/loc_block_gssmoother.hpp |  1 +
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/base/smoothers/loc_block_gssmoother.cpp b/src/base/smoothers/loc_block_gssmoother.cpp
index a59363b..464ae18 100644
--- a/src/base/smoothers/loc_block_gssmoother.cpp
+++ b/src/base/smoothers/loc_block_gssmoother.cpp
@@ -155,6 +155,11 @@ namespace amg
 
     // cout << " have set all " << endl;
 
+    num_blocks_row.SetSize(height); num_blocks_row = 0;
+    for (const auto & block : blocks)
+      for (auto dof : block.dofnrs)
+	{ num_blocks_row[dof]++; }
+
     /** working vectors **/
     myresb.AssignPointer(CreateColVector());
     update.AssignPointer(CreateColVector());
@@ -307,9 +312,18 @@ namespace amg
 	});
     }
     else {
-      IterateBlocks(allgroups, false, [&](auto block_nr, auto & hx, auto & hy) {
-	  blocks[block_nr].MultAdd_mat(s, hx, fx, hy, fy);
+      // a row that is in multiple blocks must be counted only once
+      auto fu = update.FV<TV>();
+      fu = 0.0;
+      IterateBlocks(allgroups, false, [&](auto block_nr, auto & hxmax, auto & hymax) {
+	  int n = blocks[block_nr].dofnrs.Size();
+	  FlatVector<TV> hx = hxmax.Range(0, n);
+	  FlatVector<TV> hy = hymax.Range(0, n);
+	  blocks[block_nr].MultAdd_mat(1.0, hx, fx, hy, fu);
 	});
+      for (auto k : Range(height))
+	if (num_blocks_row[k] > 0)
+	  { fy(k) += (s / num_blocks_row[k]) * fu(k); }
     }
   } // BSmoother2::MultAdd
 
diff --git a/src/base/smoothers/loc_block_gssmoother.hpp b/src/base/smoothers/loc_block_gssmoother.hpp
index f65de5d..5ec892e 100644
--- a/src/base/smoothers/loc_block_gssmoother.hpp
+++ b/src/base/smoothers/loc_block_gssmoother.hpp
@@ -84,6 +84,7 @@ namespace amg
     size_t maxbs, height;
     size_t n_groups, n_blocks_tot;
     Array<size_t> n_blocks_group, fi_blocks;
+    Array<int> num_blocks_row; // in how many blocks a row is
 
     // Table<int> block_colors;
     // Array<SharedLoop2> loops;
-- 
2.43.0


From 7133649f2a9c588c72807fec364826cca179fc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:14 +0000
Subject: [PATCH 14/38] fix: residual update of DynBlockSmoother for blocks of
 rows without entries

---
 src/base/smoothers/dyn_block_smoother.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/base/smoothers/dyn_block_smoother.cpp b/src/base/smoothers/dyn_block_smoother.cpp
index 945e989..5e04bed 100644
--- a/src/base/smoothers/dyn_block_smoother.cpp
+++ b/src/base/smoothers/dyn_block_smoother.cpp
@@ -308,6 +308,11 @@ updateBlockRes (unsigned          const &kBlock,
   // Note: timers cause real slowdown here!
   auto const &A = getDynA();
 
+  if (A.GetScalNZE(kBlock) == 0) // no entries (see also updateBlockRHS)
+  {
+    return;
+  }
+
   auto nScalRows = A.ItRows(A.GetBlockRows(kBlock), [&](auto l, auto scalRow) {
     _rowBuffer0(l) = res(scalRow);
   });
-- 
2.43.0


From ef978dd2a6b21ebb833b18f165b68fd799321195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:14 +0000
Subject: [PATCH 15/38] fix: backward HiptMairSmoother that starts at zero in
 the range space

---
 src/base/smoothers/base_smoother.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/base/smoothers/base_smoother.cpp b/src/base/smoothers/base_smoother.cpp
index d7a0057..348d937 100644
--- a/src/base/smoothers/base_smoother.cpp
+++ b/src/base/smoothers/base_smoother.cpp
@@ -292,6 +292,8 @@ void HiptMairSmoother :: SmoothBack (BaseVector &x, const BaseVector &b, BaseVec
     RegionTimer rt(tr);
 
     smrange->SmoothBack(x, b, res, resUp, resUp, x_zero);
+
+    xZero = false;
   }
 
   resUp = CalcPotRhs(x, b, res, *rhspot, resUp, xZero, resUp);
-- 
2.43.0


From d12f7d098d8267e09e6635de42297f646cd8775e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:13 +0000
Subject: [PATCH 16/38] fix: HybridDISmoother adds a correction, keeps the
 residual and leaves the master DOFs alone

---
 src/base/smoothers/hybrid_smoother.cpp | 30 +++++++++++++++++++-------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/base/smoothers/hybrid_smoother.cpp b/src/base/smoothers/hybrid_smoother.cpp
index ceb1b0c..434486d 100644
--- a/src/base/smoothers/hybrid_smoother.cpp
+++ b/src/base/smoothers/hybrid_smoother.cpp
@@ -250,9 +250,8 @@ HybridDISmoother (shared_ptr<BaseMatrix> _A,
 
     if (_freedofs)
     {
-      BitArray fd = freedofs->And(*_freedofs);
-      BitArray* fd2 = new BitArray(std::move(fd));
-      freedofs = shared_ptr<BitArray>(fd2);
+      freedofs = make_shared<BitArray>(*freedofs); // the original belongs to the DCCMap
+      freedofs->And(*_freedofs);
     }
 
     A.GetM()->SetInverseType(SPARSECHOLESKY);
@@ -265,7 +264,8 @@ HybridDISmoother (shared_ptr<BaseMatrix> _A,
       dg = tmp;
     }
 
-    loc_inv = A.GetM()->InverseMatrix(freedofs);
+    if (freedofs->NumSet() > 0) // otherwise, there is nothing to do
+      { loc_inv = A.GetM()->InverseMatrix(freedofs); }
 
     for (auto k : Range(mod_diag))
     {
@@ -290,9 +290,19 @@ SmoothStageRHS (SMOOTH_STAGE        const &stage,
                 BaseVector                &res,
                 bool                const &x_zero) const
 {
-  if (stage == SMOOTH_STAGE::LOC_PART_1)
+  // all at once when b has been collected and before x is spread, in both directions
+  if ( ( stage == SMOOTH_STAGE::EX_PART ) && ( loc_inv != nullptr ) )
   {
-    x = (*loc_inv) * b;
+    if (x_zero)
+    {
+      x += (*loc_inv) * b;
+    }
+    else
+    {
+      res = b;
+      res -= (*this->GetHybSparseA().GetM()) * x;
+      x += (*loc_inv) * res;
+    }
   }
 } // HybridDISmoother::SmoothStageRHS
 
@@ -307,9 +317,13 @@ SmoothStageRes (SMOOTH_STAGE        const &stage,
                 BaseVector                &res,
                 bool                const &x_zero) const
 {
-  if (stage == SMOOTH_STAGE::LOC_PART_1)
+  if ( ( stage == SMOOTH_STAGE::EX_PART ) && ( loc_inv != nullptr ) )
   {
-    x += (*loc_inv) * res;
+    auto up = x.CreateVector();
+
+    up = (*loc_inv) * res;
+    x += up;
+    res -= (*this->GetHybSparseA().GetM()) * up;
   }
 } // HybridDISmoother::SmoothStageRes
 
-- 
2.43.0


From 720c3113eaffdf6a1f39baa5a1d2128fdce9a739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:25 +0000
Subject: [PATCH 17/38] fix: parallel type of the transposed of a matrix (C2D
 -> C2D, C2C -> D2D)

---
 src/base/linalg/utils_sparseLA.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/base/linalg/utils_sparseLA.cpp b/src/base/linalg/utils_sparseLA.cpp
index 896011c..3648111 100644
--- a/src/base/linalg/utils_sparseLA.cpp
+++ b/src/base/linalg/utils_sparseLA.cpp
@@ -348,7 +348,8 @@ shared_ptr<BaseMatrix> TransposeAGeneric (shared_ptr<BaseMatrix> A)
 
   shared_ptr<BaseSparseMatrix> spA = my_dynamic_pointer_cast<BaseSparseMatrix>(locA, "TransposeAGeneric - Sparse-A");
 
-  PARALLEL_OP opAT = ParallelOp(ColType(opA), RowType(opA));
+  // the transposed of a map to X takes functionals on X, i.e. C2D -> C2D, C2C -> D2D
+  PARALLEL_OP opAT = ParallelOp(InvertType(ColType(opA)), InvertType(RowType(opA)));
 
   shared_ptr<BaseMatrix> AT = nullptr;
 
-- 
2.43.0


From b190041db7cb2640bcb184ac18ba84efef32b8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:49 +0000
Subject: [PATCH 18/38] fix: end of the background thread of hybrid smoothers
 cannot be missed

---
 src/base/smoothers/hybrid_base_smoother.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/base/smoothers/hybrid_base_smoother.cpp b/src/base/smoothers/hybrid_base_smoother.cpp
index 673ac2c..ffc6331 100644
--- a/src/base/smoothers/hybrid_base_smoother.cpp
+++ b/src/base/smoothers/hybrid_base_smoother.cpp
@@ -26,7 +26,16 @@ public:
     t = make_unique<std::thread>([this](){ this->thread_fpf(); });
   } // BackgroundMPIThread (..)
 
-  ~BackgroundMPIThread () { thread_ready = true; end_thread = true; cv.notify_one(); t->join(); }
+  ~BackgroundMPIThread ()
+  {
+    {
+      // without the lock, the thread can miss the notification between looking at the flags and waiting
+      std::lock_guard<std::mutex> lk(glob_mut);
+      thread_ready = true; end_thread = true;
+    }
+    cv.notify_one();
+    t->join();
+  }
 
   void thread_fpf () {
 #ifdef USE_TAU
-- 
2.43.0


From 92501d74f7788a4496f890d6e4eb69b77d292fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:19 +0000
Subject: [PATCH 19/38] fix: composed steps returned by DOFMap::ConcStep have
 their temporary vectors

---
 src/base/coarsening/dof_map.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/base/coarsening/dof_map.cpp b/src/base/coarsening/dof_map.cpp
index 1f06873..c297275 100644
--- a/src/base/coarsening/dof_map.cpp
+++ b/src/base/coarsening/dof_map.cpp
@@ -245,7 +245,9 @@ ConcStep (int la, int lb, bool symbolic) const
     //     simpleSteps.Append(steps[k]);
     //   }
     // }
-    return MakeSingleStep3(steps.Range(la, lb));
+    auto step = MakeSingleStep3(steps.Range(la, lb));
+    step->Finalize(); // a ConcDMS needs its temporary vectors
+    return step;
   }
   // return make_shared<ConcDMS>(steps.Range(la, lb-1), vecs.Range(la+1, lb-1));
 } // DOFMap::ConcStep
-- 
2.43.0


From fcdbf6b7fe1e50e09a3a29be235f77430ae15aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:19 +0000
Subject: [PATCH 20/38] fix: exchange of a CtrMap and a prolongation after the
 set up of buffers and MPI types

---
 src/base/coarsening/dof_contract.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/base/coarsening/dof_contract.cpp b/src/base/coarsening/dof_contract.cpp
index c86c4a4..6bf9e4d 100644
--- a/src/base/coarsening/dof_contract.cpp
+++ b/src/base/coarsening/dof_contract.cpp
@@ -496,6 +496,15 @@ return Pchunk;
   _originDofs = UniversalDofs(mid_pardofs);
   _mappedDofs = UniversalDofs((pm_in == nullptr) ? nullptr : pm_in->GetMappedParDofs());
 
+  if (buffers.Size() > 0) // MPI-types and buffers still belong to the old dof-maps
+  {
+    for (auto k : Range(NG_MPI_types))
+      { NG_MPI_Type_free(&NG_MPI_types[k]); }
+    NG_MPI_types.SetSize0();
+    buffers = Table<TV>();
+    SetUpMPIStuff();
+  }
+
   return prol_map;
 } // CtrMap::SplitProl
 
-- 
2.43.0


From 73deac350727ace7eb586dc125ce1de38ce1b3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:54 +0000
Subject: [PATCH 21/38] fix: EmbeddedAMGMatrix without a smoother applies the
 configured cycle

---
 src/base/solve/amg_matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/solve/amg_matrix.cpp b/src/base/solve/amg_matrix.cpp
index dd6a353..e1417f0 100644
--- a/src/base/solve/amg_matrix.cpp
+++ b/src/base/solve/amg_matrix.cpp
@@ -624,7 +624,7 @@ namespace amg
     }
     else { /** **/
       ds->TransferF2C(&b, cr.get());
-      clm->SmoothV(*cx, *cr);
+      clm->Smooth(*cx, *cr);
       ds->TransferC2F(&x, cx.get());
     }
 
-- 
2.43.0


From 40a7e706bd064d29d6690fe680c15e0c80b7ee4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:40 +0000
Subject: [PATCH 22/38] fix: AMGSmoother with a single finest level smoother on
 the last two levels

---
 src/base/solve/amg_matrix.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/base/solve/amg_matrix.cpp b/src/base/solve/amg_matrix.cpp
index e1417f0..ff2d52e 100644
--- a/src/base/solve/amg_matrix.cpp
+++ b/src/base/solve/amg_matrix.cpp
@@ -706,7 +706,8 @@ Smooth (BaseVector  &x, const BaseVector &b,
 
     auto const &map = *amg_mat->GetMap();
 
-    bool const haveNextLevel = map.GetNLevels() > start_level;
+    // nullptr if this rank drops out
+    bool const haveNextLevel = amg_mat->x_level[start_level + 1] != nullptr;
 
     if (haveNextLevel)
     {
@@ -717,10 +718,15 @@ Smooth (BaseVector  &x, const BaseVector &b,
       map.TransferAtoB(start_level, start_level + 1, &res, bC.get());
       *xC = 0.0;
 
-      if (map.GetNLevels() > start_level)
+      if (start_level + 1 < amg_mat->smoothers.Size())
       {
         amg_mat->SmoothVFromLevel(start_level + 1, *xC, *bC, *resC, false, false, true);
       }
+      else if (amg_mat->crs_inv != nullptr) // coarsest level
+      {
+        amg_mat->crs_inv->Mult(*bC, *xC);
+        xC->Cumulate();
+      }
 
       map.AddC2F(start_level, 1.0, &x, xC.get());
     }
@@ -750,7 +756,8 @@ SmoothBack (BaseVector  &x, const BaseVector &b,
   {
     auto const &map = *amg_mat->GetMap();
 
-    bool const haveNextLevel = map.GetNLevels() > start_level;
+    // nullptr if this rank drops out
+    bool const haveNextLevel = amg_mat->x_level[start_level + 1] != nullptr;
 
     amg_mat->GetSmoother(start_level)->SmoothBack(x, b, res, res_updated, true, x_zero);
 
@@ -763,10 +770,15 @@ SmoothBack (BaseVector  &x, const BaseVector &b,
       map.TransferAtoB(start_level, start_level + 1, &res, bC.get());
       *xC = 0.0;
 
-      if (map.GetNLevels() > start_level)
+      if (start_level + 1 < amg_mat->smoothers.Size())
       {
         amg_mat->SmoothVFromLevel(start_level + 1, *xC, *bC, *resC, false, false, true);
       }
+      else if (amg_mat->crs_inv != nullptr) // coarsest level
+      {
+        amg_mat->crs_inv->Mult(*bC, *xC);
+        xC->Cumulate();
+      }
 
       map.AddC2F(start_level, 1.0, &x, xC.get());
     }
-- 
2.43.0


From e969bf51f67df4698fbe12836cead01be5c99c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:40 +0000
Subject: [PATCH 23/38] fix: AMGMatrix.SubAMGMatrix (python) on the coarsest
 level

---
 src/base/solve/python_solve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/solve/python_solve.cpp b/src/base/solve/python_solve.cpp
index 9841a1c..f3f3d74 100644
--- a/src/base/solve/python_solve.cpp
+++ b/src/base/solve/python_solve.cpp
@@ -98,7 +98,7 @@ namespace amg
       shared_ptr<BaseMatrix> out = nullptr;
       if (level == 0)
         { out = amgMat; }
-      else if ( level == amgMat->GetNLevels(0) )
+      else if ( level + 1 == amgMat->GetNLevels(0) ) // no smoother on the coarsest level
         { out = amgMat->GetCINV(); }
       else {
         auto sm = make_shared<AMGSmoother>(amgMat, level);
-- 
2.43.0


From c9c4c1876590add043d310f1aa00e6966ce0d59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:24 +0000
Subject: [PATCH 24/38] fix: LinearSolver: checks for convergence unless told
 otherwise, reports the number of steps done

check_error and save_errs were used without ever being set; with tolerance zero an
uncomputed error of -1 counted as converged after the first step, the reported
number of steps was one too many, and errors that were never computed stayed in
the list of recorded errors.
---
 src/base/solve/LinearSolver.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/base/solve/LinearSolver.cpp b/src/base/solve/LinearSolver.cpp
index cbf0e1c..b92178b 100644
--- a/src/base/solve/LinearSolver.cpp
+++ b/src/base/solve/LinearSolver.cpp
@@ -10,9 +10,16 @@ LinearSolver :: LinearSolver (shared_ptr<BaseMatrix> _A, int _max_steps, double
   : BaseMatrix(_A->GetParallelDofs())
   , A(_A)
   , max_steps(_max_steps)
+  , check_error(true)
   , rtol(_rtol)
   , print(_print)
+  , save_errs(false)
   , prefix(_prefix)
+  , init_err(-1.0)
+  , curr_err(-1.0)
+  , curr_iter(-1)
+  , converged(false)
+  , needed_steps(-1)
 {
   ;
 } // LinearSolver(..)
@@ -96,11 +103,15 @@ void LinearSolver :: Solve (BaseVector &x, const BaseVector &b, BaseVector &res,
     if (master && print)
       { do_output(); }
 
-    if (check_error)
+    if (check_err)
       { converged = ( curr_err < rtol * init_err ); }
   }
 
-  needed_steps = converged ? (curr_iter + 1) : -1;
+  // curr_iter has already been increased after the last step
+  needed_steps = converged ? curr_iter : -1;
+
+  if (save_errs)
+    { errors.SetSize(1 + curr_iter); }
 
 } // LinearSolver::Solve
 
-- 
2.43.0


From a3a0c637ba33061e3045043d60e6a0c25f012dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:03 +0000
Subject: [PATCH 25/38] fix: SpecOpt: copies keep the general value, |= keeps
 the levels of both, xbool keeps its default; key of aaf_scale

The copy constructor initialised default_opt with itself, operator|= ignored the special
values of the other set beyond its own, an xbool lost its default when no flag was given,
and aaf_scale was read from the flag aafaaf_scale.
---
 src/base/factory/base_factory.cpp |  2 +-
 src/base/utils/SpecOpt.hpp        | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/base/factory/base_factory.cpp b/src/base/factory/base_factory.cpp
index aaa27f7..e29ae18 100644
--- a/src/base/factory/base_factory.cpp
+++ b/src/base/factory/base_factory.cpp
@@ -29,7 +29,7 @@ void BaseAMGFactory::Options::SetFromFlags (const Flags & flags, string prefix)
 
   set_num(aaf, "aaf");
   set_num(first_aaf, "first_aaf");
-  set_num(aaf_scale, "aafaaf_scale");
+  set_num(aaf_scale, "aaf_scale");
 
   set_bool(enable_redist, "enable_redist");
   set_num(rdaf, "rdaf");
diff --git a/src/base/utils/SpecOpt.hpp b/src/base/utils/SpecOpt.hpp
index 5fe44ed..e105696 100644
--- a/src/base/utils/SpecOpt.hpp
+++ b/src/base/utils/SpecOpt.hpp
@@ -23,7 +23,7 @@ public:
   SpecOpt (OC _default_opt) : default_opt(_default_opt), spec_opt(0) { ; }
   SpecOpt (OC _default_opt, Array<OC> & _spec_opt) : default_opt(_default_opt), spec_opt(_spec_opt) { ; }
   SpecOpt (OC _default_opt, Array<OC> _spec_opt) : default_opt(_default_opt), spec_opt(_spec_opt) { ; }
-  SpecOpt (const SpecOpt<OC> & other) : default_opt(default_opt), spec_opt(other.spec_opt) { ; }
+  SpecOpt (const SpecOpt<OC> & other) : default_opt(other.default_opt), spec_opt(other.spec_opt) { ; }
   SpecOpt (SpecOpt<OC> && other) : default_opt(other.default_opt), spec_opt(move(other.spec_opt)) { ; }
   SpecOpt (const Flags & flags, OC defopt, string defkey, FlatArray<string> optkeys, FlatArray<OC> enum_vals)
     : SpecOpt(defopt)
@@ -65,12 +65,12 @@ public:
 
   SpecOpt<OC> & operator |= (const SpecOpt<OC> & other) {
     if constexpr(std::is_same<OC, bool>::value) {
+      // levels that have a special value in only one of the two
+      while (spec_opt.Size() < other.spec_opt.Size())
+        { spec_opt.Append(default_opt); }
+      for (auto k : Range(spec_opt))
+        { spec_opt[k] |= other.GetOpt(k); }
       default_opt |= other.default_opt;
-      for (auto k : Range(min(spec_opt.Size(), other.spec_opt.Size())))
-        { spec_opt[k] |= other.spec_opt[k]; }
-      if (spec_opt.Size() > other.spec_opt.Size())
-        for (auto k : Range(other.spec_opt.Size(), spec_opt.Size()))
-          { spec_opt[k] |= other.default_opt; }
     }
     return *this;
   }
@@ -99,7 +99,7 @@ INLINE void SpecOpt<bool> :: SetFromFlags (const Flags & flags, string key)
 template<>
 INLINE void SpecOpt<xbool> :: SetFromFlags (const Flags & flags, string key)
 {
-  default_opt = flags.GetDefineFlagX(key);
+  if (auto val = flags.GetDefineFlagX(key); !val.IsMaybe()) { default_opt = val; }
   auto & arr = flags.GetNumListFlag(key+"_spec");
   spec_opt.SetSize(arr.Size()); spec_opt = default_opt;
   for (auto k : Range(spec_opt))
-- 
2.43.0


From 56c50182c4703d97f3ec124f92a4202bbb41d1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:54 +0000
Subject: [PATCH 26/38] fix: special values set as defaults of an option are
 kept unless the flags give the option

---
 src/base/utils/SpecOpt.hpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/base/utils/SpecOpt.hpp b/src/base/utils/SpecOpt.hpp
index e105696..6de21c3 100644
--- a/src/base/utils/SpecOpt.hpp
+++ b/src/base/utils/SpecOpt.hpp
@@ -44,6 +44,16 @@ public:
     return *this;
   }
 
+  // is anything given for this option? if not, special values set as defaults are kept
+  static bool IsGiven (const Flags & flags, string key)
+  {
+    auto defined = [&](string k) {
+      return flags.StringFlagDefined(k) || flags.NumFlagDefined(k) || !flags.GetDefineFlagX(k).IsMaybe() ||
+             flags.StringListFlagDefined(k) || flags.NumListFlagDefined(k);
+    };
+    return defined(key) || defined(key + "_spec");
+  }
+
   void SetFromFlagsEnum (const Flags & flags, string defkey, FlatArray<string> optkeys, FlatArray<OC> enum_vals)
   {
     auto setoc = [&](auto & oc, string val) {
@@ -52,6 +62,8 @@ public:
         { oc = enum_vals[index]; }
     };
     setoc(default_opt, flags.GetStringFlag(defkey, ""));
+    if ( !IsGiven(flags, defkey) )
+      { return; }
     auto & specfa = flags.GetStringListFlag(defkey + "_spec");
     spec_opt.SetSize(specfa.Size()); spec_opt = default_opt;
     for (auto k : Range(spec_opt))
@@ -90,6 +102,8 @@ INLINE void SpecOpt<bool> :: SetFromFlags (const Flags & flags, string key)
 {
   if (default_opt) { default_opt = !flags.GetDefineFlagX(key).IsFalse(); }
   else { default_opt = flags.GetDefineFlagX(key).IsTrue(); }
+  if ( !IsGiven(flags, key) )
+    { return; }
   auto & arr = flags.GetNumListFlag(key+"_spec");
   spec_opt.SetSize(arr.Size()); spec_opt = default_opt;
   for (auto k : Range(spec_opt))
@@ -100,6 +114,8 @@ template<>
 INLINE void SpecOpt<xbool> :: SetFromFlags (const Flags & flags, string key)
 {
   if (auto val = flags.GetDefineFlagX(key); !val.IsMaybe()) { default_opt = val; }
+  if ( !IsGiven(flags, key) )
+    { return; }
   auto & arr = flags.GetNumListFlag(key+"_spec");
   spec_opt.SetSize(arr.Size()); spec_opt = default_opt;
   for (auto k : Range(spec_opt))
@@ -110,6 +126,8 @@ template<>
 INLINE void SpecOpt<double> :: SetFromFlags (const Flags & flags, string key)
 {
   default_opt = flags.GetNumFlag(key, default_opt);
+  if ( !IsGiven(flags, key) )
+    { return; }
   auto & arr = flags.GetNumListFlag(key+"_spec");
   spec_opt.SetSize(arr.Size()); spec_opt = default_opt;
   for (auto k : Range(spec_opt))
@@ -121,6 +139,8 @@ template<>
 INLINE void SpecOpt<int> :: SetFromFlags (const Flags & flags, string key)
 {
   default_opt = int(flags.GetNumFlag(key, double(default_opt)));
+  if ( !IsGiven(flags, key) )
+    { return; }
   auto & arr = flags.GetNumListFlag(key+"_spec");
   spec_opt.SetSize(arr.Size()); spec_opt = default_opt;
   for (auto k : Range(spec_opt))
@@ -132,6 +152,8 @@ template<>
 INLINE void SpecOpt<string> :: SetFromFlags (const Flags & flags, string key)
 {
   default_opt = flags.GetStringFlag(key, default_opt);
+  if ( !IsGiven(flags, key) )
+    { return; }
   auto & arr = flags.GetStringListFlag(key+"_spec");
   spec_opt.SetSize(arr.Size()); spec_opt = default_opt;
   for (auto k : Range(spec_opt))
-- 
2.43.0


From ae1e48118e5256e98d0c86605a379ce2935cb812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:54 +0000
Subject: [PATCH 27/38] fix: assigning an option to itself keeps its special
 values

---
 src/base/utils/SpecOpt.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/base/utils/SpecOpt.hpp b/src/base/utils/SpecOpt.hpp
index 6de21c3..1b77aba 100644
--- a/src/base/utils/SpecOpt.hpp
+++ b/src/base/utils/SpecOpt.hpp
@@ -38,6 +38,8 @@ public:
   }
   
   SpecOpt<OC> & operator = (const SpecOpt<OC> & other) {
+    if (this == &other)
+      { return *this; }
     default_opt = other.default_opt;
     spec_opt.SetSize(other.spec_opt.Size());
     spec_opt = other.spec_opt;
-- 
2.43.0


From 884b39430e4e191346cfae12b0b1dbe581c80053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:21 +0000
Subject: [PATCH 28/38] fix: SPW agglomeration on a rank that shares no
 vertices in a parallel run

---
 src/base/coarsening/spw_agg_impl.hpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/base/coarsening/spw_agg_impl.hpp b/src/base/coarsening/spw_agg_impl.hpp
index 5ead0f1..ad373f7 100644
--- a/src/base/coarsening/spw_agg_impl.hpp
+++ b/src/base/coarsening/spw_agg_impl.hpp
@@ -72,24 +72,27 @@ public:
       // we are the first map - construct cv_to_eqc. for other maps, concatenate it!
       auto vMap = GetMap<NT_VERTEX>();
 
-      if ( eqc_h->GetNEQCS() > 1 )
+      if ( eqc_h->IsTrulyParallel() )
       {
         cv_to_eqc.SetSize(GetMappedNN<NT_VERTEX>());
         cv_to_eqc = 0;
 
         // works as long as we only go up/down in hierarchy
-        pbtm->template ApplyEQ<NT_VERTEX>(Range(1ul, eqc_h->GetNEQCS()), [&](auto eqc, auto fVNr)
+        if ( eqc_h->GetNEQCS() > 1 )
         {
-          auto cVNr = vMap[fVNr];
-
-          if ( cVNr != -1 )
+          pbtm->template ApplyEQ<NT_VERTEX>(Range(1ul, eqc_h->GetNEQCS()), [&](auto eqc, auto fVNr)
           {
-            auto cVEQ = cv_to_eqc[cVNr];
+            auto cVNr = vMap[fVNr];
 
-            cv_to_eqc[cVNr] = ( cVEQ == 0 ) ? eqc
-                                            : ( eqc_h->IsLEQ(eqc, cVEQ) ? cVEQ : eqc );
-          }
-        }, false);
+            if ( cVNr != -1 )
+            {
+              auto cVEQ = cv_to_eqc[cVNr];
+
+              cv_to_eqc[cVNr] = ( cVEQ == 0 ) ? eqc
+                                              : ( eqc_h->IsLEQ(eqc, cVEQ) ? cVEQ : eqc );
+            }
+          }, false);
+        }
       }
       else
       {
-- 
2.43.0


From f094905ad21d5e3b762b5cbb6c0d494fc6e14e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:12 +0000
Subject: [PATCH 29/38] fix: MIS agglomeration starts no agglomerate at a
 Dirichlet vertex

---
 src/base/coarsening/mis_agg_impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/base/coarsening/mis_agg_impl.hpp b/src/base/coarsening/mis_agg_impl.hpp
index 5df1e3c..8cbf72f 100644
--- a/src/base/coarsening/mis_agg_impl.hpp
+++ b/src/base/coarsening/mis_agg_impl.hpp
@@ -758,7 +758,8 @@ INLINE void MISAgglomerator<ENERGY, TMESH, ROBUST> :: FormAgglomerates_impl (Arr
         } else { // neib is not in an agg - force start a new one at neib and add this vertex (which must be OK!)
           auto N_eqc = M.template GetEQCOfNode<NT_VERTEX>(N);
           // if ( (eqc_h.IsMasterOfEQC(N_eqc)) && (eqa_to_eqb(eqc, N_eqc) ) ) { // only if it is OK eqc-wise
-          if ( is_mine(N) && eqa_to_eqb(eqc, N_eqc) ) { // have to check if neib is active!
+          // (a marked neib without an agg is dirichlet, or already in a fixed agg)
+          if ( (!marked.Test(N)) && is_mine(N) && eqa_to_eqb(eqc, N_eqc) ) { // have to check if neib is active!
             init_agglomerate(N, N_eqc, true); // have to force new agg even if we dont really want to ...
             auto new_agg_id = v_to_agg[N];
             if (!marked.Test(v)) { // might already have been added by init_agg, but probably not
-- 
2.43.0


From 89f860e207b393fa778a09ea8a96516868cf9e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:00 +0000
Subject: [PATCH 30/38] fix: redistribution keeps distributed edge data
 distributed

---
 src/base/coarsening/grid_contract.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/base/coarsening/grid_contract.hpp b/src/base/coarsening/grid_contract.hpp
index c3de741..4f4e2f9 100644
--- a/src/base/coarsening/grid_contract.hpp
+++ b/src/base/coarsening/grid_contract.hpp
@@ -193,6 +193,10 @@ public:
 
     if(!anodes.Size())
       { return; } // no annoying nodes for this type!!
+
+    // distributed parts already add up (summing them up on every holder would count them once per holder)
+    if (stat == DISTRIBUTED)
+      { return; }
     
     auto cneqcs = c_eqc_h->GetNEQCS();
     Array<size_t> sz(cneqcs);
-- 
2.43.0


From 7c80ce158c40b29ba291c60a98cf5f0a09a59c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:41 +0000
Subject: [PATCH 31/38] fix: the prolongation is not smoothed with a matrix
 that has more unknowns than the mesh has vertices

---
 src/base/factory/vertex_factory_impl.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/base/factory/vertex_factory_impl.hpp b/src/base/factory/vertex_factory_impl.hpp
index 5723141..d4b16af 100644
--- a/src/base/factory/vertex_factory_impl.hpp
+++ b/src/base/factory/vertex_factory_impl.hpp
@@ -1888,6 +1888,9 @@ SemiAuxSProlMap (shared_ptr<ProlMap<TM>> pw_step,
   /** if "fmat" has no pardofs, it is not the original finest level matrix, so fine to use! !**/
   if ( have_fmat && (fmat->GetParallelDofs() != nullptr) )
     { have_fmat &= (fmat->GetParallelDofs() == fpds); }
+  /** a matrix with more unknowns than there are vertices (e.g. high order) is the pre-embedded one **/
+  if ( have_fmat )
+    { have_fmat &= (fmat->Height() == FM.template GetNN<NT_VERTEX>()); }
 
   // cout << " have fmat " << have_fmat << " " << (fmat != nullptr) << endl; //" " << (fmat->GetParallelDofs() == fpds) << endl;
   // cout << " pds " << fmat->GetParallelDofs() << fpds << endl;
@@ -2354,7 +2357,7 @@ SemiAuxSProlMap (shared_ptr<ProlMap<TM>> pw_step,
 
     fmat = actualFmat;
 
-    if ( fmat == nullptr )
+    if ( ( fmat == nullptr ) || ( fmat->Height() != FNV ) )
     {
       shared_ptr<BaseMatrix> mat = embMap->AssembleMatrix(fcap->mat);
 
-- 
2.43.0


From e28669e61ef73ebe3930db0db99daf4723967be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:52 +0000
Subject: [PATCH 32/38] fix: block smoothers take the unknowns that are in no
 agglomerate

---
 src/base/precond/amg_pc_vertex_impl.hpp | 27 ++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/base/precond/amg_pc_vertex_impl.hpp b/src/base/precond/amg_pc_vertex_impl.hpp
index 6f085b9..25bdbd7 100644
--- a/src/base/precond/amg_pc_vertex_impl.hpp
+++ b/src/base/precond/amg_pc_vertex_impl.hpp
@@ -1265,7 +1265,32 @@ Table<int> VertexAMGPC<FACTORY> :: GetGSBlocks (const BaseAMGFactory::AMGLevel &
 
   auto blocks = cblocks.MoveTable();
 
-  return std::move(blocks);
+  // free DOFs without a coarse vertex (high order DOFs, dropped vertices) are in none of these blocks, they get one each
+  bool const isFESpaceLevel = (amg_level.level == 0) && (!O.smooth_after_emb);
+  BitArray rest(isFESpaceLevel ? GetLocalMat(finest_mat)->Height() : amg_level.cap->mat->Height());
+  rest.Set();
+  if (auto freedofs = this->GetFreeDofs(amg_level))
+    { rest.And(*freedofs); }
+  for (auto k : Range(blocks.Size()))
+    for (auto dof : blocks[k])
+      { rest.Clear(dof); }
+
+  if (rest.NumSet() == 0)
+    { return std::move(blocks); }
+
+  TableCreator<int> callblocks(blocks.Size() + rest.NumSet());
+  for (; !callblocks.Done(); callblocks++)
+  {
+    for (auto k : Range(blocks.Size()))
+      for (auto dof : blocks[k])
+        { callblocks.Add(k, dof); }
+    int c = blocks.Size();
+    for (auto dof : Range(rest.Size()))
+      if (rest.Test(dof))
+        { callblocks.Add(c++, dof); }
+  }
+
+  return callblocks.MoveTable();
 } // VertexAMGPC<FACTORY>::GetGSBlocks
 
 
-- 
2.43.0


From c94eb354841ad0a9b415b7be409c481b498b09dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:26 +0000
Subject: [PATCH 33/38] fix: set-up that finds no coarse level reports an error
 instead of crashing

---
 src/base/factory/base_factory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/factory/base_factory.cpp b/src/base/factory/base_factory.cpp
index e29ae18..d98a58a 100644
--- a/src/base/factory/base_factory.cpp
+++ b/src/base/factory/base_factory.cpp
@@ -254,8 +254,8 @@ SetUpLevels (Array<shared_ptr<BaseAMGFactory::AMGLevel>> & amg_levels, shared_pt
       { logger->PrintLog(cout); }
   }
 
-  // if (dof_map->GetNSteps() == 0)
-  //   { throw Exception("Failed to construct any coarse levels!"); }
+  if (dof_map->GetNSteps() == 0)
+    { throw Exception("Failed to construct any coarse levels!"); }
 
   if (options->check_kvecs)
     { CheckKVecs(amg_levels, dof_map); }
-- 
2.43.0


From 153361be06aa23f0f9799ca8825df950951ffbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:18 +0000
Subject: [PATCH 34/38] fix: coarse matrices of 2D elasticity are regularised
 like those of 3D elasticity

A coarse vertex whose displacements are all interpolated away, or a diagonal
entry that is small on one of the ranks that share it only, made the coarsest
matrix singular: the preconditioner was not symmetric or gave NaN.
---
 src/elasticity/elasticity_pc_impl.hpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/elasticity/elasticity_pc_impl.hpp b/src/elasticity/elasticity_pc_impl.hpp
index e35c700..59aeb71 100644
--- a/src/elasticity/elasticity_pc_impl.hpp
+++ b/src/elasticity/elasticity_pc_impl.hpp
@@ -711,20 +711,25 @@ BuildED (size_t height, shared_ptr<TopologicMesh> mesh)
 template<> void VertexAMGPC<ElasticityAMGFactory<2>> :: RegularizeMatrix (shared_ptr<BaseSparseMatrix> mat, shared_ptr<ParallelDofs> & pardofs) const
 {
   auto& A = static_cast<ElasticityAMGFactory<2>::TSPM_TM&>(*mat);
+  typedef ElasticityAMGFactory<2>::TM TM;
   if ( (pardofs != nullptr) && (pardofs->GetDistantProcs().Size() != 0) ) {
-    Array<int> is_zero(A.Height());
-    for(auto k : Range(A.Height()))
-{ is_zero[k] = (fabs(A(k,k)(2,2)) < 1e-10 ) ?  1 : 0; }
-    AllReduceDofData(is_zero, NG_MPI_SUM, pardofs);
+    Array<TM> diags(A.Height());
     for(auto k : Range(A.Height()))
-if ( (pardofs->IsMasterDof(k)) && (is_zero[k] != 0) )
-  { A(k,k)(2,2) = 1; }
+{ diags[k] = A(k,k); }
+    MyAllReduceDofData(*pardofs, diags, [](auto & a, const auto & b) LAMBDA_INLINE { a+= b; });
+    for(auto k : Range(A.Height())) {
+if (pardofs->IsMasterDof(k)) {
+  auto & dg_etr = A(k,k);
+  dg_etr = diags[k];
+  RegTM<0,3,3>(dg_etr);
+}
+else
+  { A(k,k) = 0; }
+    }
   }
   else {
     for(auto k : Range(A.Height())) {
-auto & diag_etr = A(k,k);
-if (fabs(diag_etr(2,2)) < 1e-8)
-  { diag_etr(2,2) = 1; }
+RegTM<0,3,3>(A(k,k));
     }
   }
 } // ElasticityAMGFactory<DIM>::RegularizeMatrix
-- 
2.43.0


From 7321e5bc3a4b2ce6b9fd01b9ff5055850a7402a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:32 +0000
Subject: [PATCH 35/38] fix: the smoothed prolongation keeps vertices tied to
 their agglomerate by edges of weight zero only

All members of such an agglomerate got their values from other agglomerates,
its column of the prolongation was zero and the coarse matrix singular
(e.g. MIS on a uniform mesh of right triangles).
---
 src/base/factory/vertex_factory_impl.hpp | 34 ++++++++++++++----------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/base/factory/vertex_factory_impl.hpp b/src/base/factory/vertex_factory_impl.hpp
index d4b16af..a117478 100644
--- a/src/base/factory/vertex_factory_impl.hpp
+++ b/src/base/factory/vertex_factory_impl.hpp
@@ -1919,14 +1919,29 @@ SemiAuxSProlMap (shared_ptr<ProlMap<TM>> pw_step,
   // cout << "FM: " << endl << FM << endl;
   // cout << "fecon: " << endl << fecon << endl;
 
+  /** Judge connection to coarse neibs by sum of fine connections. **/
+  Array<double> dg_wt(FNV); dg_wt = 0;
+  FM.template Apply<NT_EDGE>([&](auto & edge) LAMBDA_INLINE {
+    auto approx_wt = ENERGY::GetApproxWeight(fedata[edge.id]);
+    dg_wt[edge.v[0]] = max2(dg_wt[edge.v[0]], approx_wt);
+    dg_wt[edge.v[1]] = max2(dg_wt[edge.v[1]], approx_wt);
+  }, false );
+  FM.template AllreduceNodalData<NT_VERTEX>(dg_wt, [](auto & tab){return std::move(max_table(tab)); }, false);
+
+  /** does the edge tie the vertex to its agglomerate? (e.g. the long edges of right triangles do not) **/
+  auto is_tie = [&](auto fvnr, auto enr) {
+    return ENERGY::GetApproxWeight(fedata[int(enr)]) > 1e-10 * dg_wt[fvnr];
+  };
+
   auto get_cols_classic = [&](auto eqc, auto fvnr) {
     if (eqc != 0) // might still have non-hierarchic neibs on other side!
       { return false; }
     auto ovs = fecon.GetRowIndices(fvnr);
+    auto oes = fecon.GetRowValues(fvnr);
     int nniscv = 0; // number neibs in same cv
     auto cvnr = vmap[fvnr];
-    for (auto v : ovs)
-      if (vmap[v] == cvnr)
+    for (auto j : Range(ovs))
+      if ( (vmap[ovs[j]] == cvnr) && is_tie(fvnr, oes[j]) )
         { nniscv++; }
     if (nniscv == 0) { // no neib that maps to same coarse vertex - use pwprol!
       cols.SetSize(1);
@@ -1953,15 +1968,6 @@ SemiAuxSProlMap (shared_ptr<ProlMap<TM>> pw_step,
     return is_ok;
   }; // get_cols_classic
 
-  /** Judge connection to coarse neibs by sum of fine connections. **/
-  Array<double> dg_wt(FNV); dg_wt = 0;
-  FM.template Apply<NT_EDGE>([&](auto & edge) LAMBDA_INLINE {
-    auto approx_wt = ENERGY::GetApproxWeight(fedata[edge.id]);
-    dg_wt[edge.v[0]] = max2(dg_wt[edge.v[0]], approx_wt);
-    dg_wt[edge.v[1]] = max2(dg_wt[edge.v[1]], approx_wt);
-  }, false );
-  FM.template AllreduceNodalData<NT_VERTEX>(dg_wt, [](auto & tab){return std::move(max_table(tab)); }, false);
-
   Array<IVec<2,double>> trow;
   Array<int> tcv;
   auto get_cols_aux = [&](auto EQ, auto V) {
@@ -1971,16 +1977,16 @@ SemiAuxSProlMap (shared_ptr<ProlMap<TM>> pw_step,
       { return; }
     trow.SetSize0(); tcv.SetSize0();
     auto ovs = fecon.GetRowIndices(V);
+    auto eis = fecon.GetRowValues(V);
     int nniscv = 0; // number neibs in same cv
-    for (auto v : ovs)
-    if (vmap[v] == CV)
+    for (auto j : Range(ovs))
+    if ( (vmap[ovs[j]] == CV) && is_tie(V, eis[j]) )
       { nniscv++; }
     if (nniscv == 0) { // no neib that maps to same coarse vertex - use pwprol!
       cols.SetSize(1);
       cols[0] = CV;
       return;
     }
-    auto eis = fecon.GetRowValues(V);
     size_t pos; double in_wt = 0;
     for (auto j : Range(ovs.Size())) {
       auto ov = ovs[j];
-- 
2.43.0


From b0ade505f542d762ce1b814e31388ba5a94c8c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:54 +0000
Subject: [PATCH 36/38] fix: the limit of one level no longer means no limit at
 all

---
 src/base/factory/base_factory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/factory/base_factory.cpp b/src/base/factory/base_factory.cpp
index d98a58a..d0aecc9 100644
--- a/src/base/factory/base_factory.cpp
+++ b/src/base/factory/base_factory.cpp
@@ -336,7 +336,7 @@ RSU (Array<shared_ptr<AMGLevel>> & amg_levels, shared_ptr<DOFMap> & dof_map, Sta
     DoDebuggingTests(amg_levels, dof_map);
     return;
     }
-  else if ( (f_lev->level + 2 == O.max_n_levels) ||                // max n levels reached
+  else if ( (f_lev->level + 2 >= O.max_n_levels) ||                // max n levels reached
           (O.max_meas >= ComputeMeshMeasure (*c_lev->cap->mesh) ) ) { // max coarse size reached
     logger->LogLevel (*c_lev);
     amg_levels.Append(std::move(c_lev));
-- 
2.43.0


From 85f76f1800afaf7308f8141b580b61a73d66ef31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:54 +0000
Subject: [PATCH 37/38] fix: off-process traces are computed for all vertices,
 not left undefined where another rank is the master

---
 src/base/coarsening/agglomerator_impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/coarsening/agglomerator_impl.hpp b/src/base/coarsening/agglomerator_impl.hpp
index 52a8d65..556afee 100644
--- a/src/base/coarsening/agglomerator_impl.hpp
+++ b/src/base/coarsening/agglomerator_impl.hpp
@@ -174,7 +174,7 @@ InitializeAggData(AgglomerationData<TMESH, ENERGY, TMU, TWEIGHT> &aggData)
     FM.template Apply<NT_VERTEX>([&](auto vi)
     {
       offProcTrace[vi] = calc_trace(baseDiags[vi]);
-    }, true);
+    }, false);
 
     // reduce diagonals
     FM.template AllreduceNodalData<NT_VERTEX>(baseDiags, [&](auto tab_in) LAMBDA_INLINE { return sum_table(tab_in); });
@@ -183,7 +183,7 @@ InitializeAggData(AgglomerationData<TMESH, ENERGY, TMU, TWEIGHT> &aggData)
     FM.template Apply<NT_VERTEX>([&](auto vi)
     {
       offProcTrace[vi] = ( calc_trace(baseDiags[vi]) - offProcTrace[vi] ) / BS;
-    }, true);
+    }, false);
   }
 
   // L2 contribution (add AFTER reduction above)
-- 
2.43.0


From dcf697031983a193c7d5541e3d2c257ffeef949a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:19 +0000
Subject: [PATCH 38/38] fix: a preconditioner can be set up again when its form
 is assembled again

SetUpLevels discards the logger at its end, so a second Assemble() of the
bilinear form dereferenced a null logger.
---
 src/base/factory/base_factory.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/base/factory/base_factory.cpp b/src/base/factory/base_factory.cpp
index d0aecc9..a592a3f 100644
--- a/src/base/factory/base_factory.cpp
+++ b/src/base/factory/base_factory.cpp
@@ -224,6 +224,9 @@ SetUpLevels (Array<shared_ptr<BaseAMGFactory::AMGLevel>> & amg_levels, shared_pt
 
   const auto & O(*options);
 
+  // the previous set-up (if any) has discarded its logger
+  logger = make_shared<Logger>(options->log_level);
+
   if ( options->log_level > Options::LOG_LEVEL::BASIC)
   {
     if ( amg_levels[0]->cap->uDofs.GetCommunicator().Rank() == 0 )
-- 
2.43.0

