From 098ea31bd67fde829d62ddee58ad61f53700ad26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 01/50] fix: flat-sky bin search assigns wavenumbers in gaps to
 no band

---
 src/nmt_bins_flat.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nmt_bins_flat.c b/src/nmt_bins_flat.c
index f265108..8322f78 100644
--- a/src/nmt_bins_flat.c
+++ b/src/nmt_bins_flat.c
@@ -11,8 +11,8 @@ int nmt_bins_flat_search_fast(nmt_binning_scheme_flat *bin,flouble l,int il)
     while(ilback>=0) {
       if(l<bin->ell_0_list[ilback])
 	ilback--;
-      else
-	return ilback;
+      else //l may lie in a gap between bands
+	return (l<bin->ell_f_list[ilback]) ? ilback : -1;
     }
     return -1;
   }
@@ -21,8 +21,8 @@ int nmt_bins_flat_search_fast(nmt_binning_scheme_flat *bin,flouble l,int il)
     while(ilback<bin->n_bands) {
       if(l>=bin->ell_f_list[ilback])
 	ilback++;
-      else
-	return ilback;
+      else //l may lie in a gap between bands
+	return (l>=bin->ell_0_list[ilback]) ? ilback : -1;
     }
     return -1;
   }
-- 
2.43.0


From e488d9689053bacd555c68cd6c177e7b5096dbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 02/50] fix: log-factorial table too short for the Wigner 3j
 symbols it is used for

---
 src/nmt_master.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index a8ca0dc..41e5bc1 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -744,12 +744,13 @@ nmt_master_calculator *nmt_compute_master_coefficients(int lmax, int lmax_mask,
     }
   }
 
+  // The largest argument needed is l1+l2+l3+1, with l1 up to l2+l3<=2*lmax
   int lmax_max = NMT_MAX(c->lmax, c->lmax_mask);
-  c->lfac = my_malloc(3*(lmax_max+1)*sizeof(double));
+  c->lfac = my_malloc(4*(lmax_max+1)*sizeof(double));
   // Precompute log-factorial
   c->lfac[0] = 0.0;
   c->lfac[1] = 0.0;
-  for(ii=2;ii<3*(lmax_max+1);ii++)
+  for(ii=2;ii<4*(lmax_max+1);ii++)
     c->lfac[ii] = c->lfac[ii-1]+log((double)(ii));
 
   if(l_toeplitz>0)
-- 
2.43.0


From a224ce018471a876eca74bae41c38cee5af47b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 03/50] fix: purified spin-2 field correlated with a field of
 another spin uses the right Wigner 3j symbols

---
 src/nmt_master.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index 41e5bc1..69c2c83 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -891,9 +891,16 @@ nmt_master_calculator *nmt_compute_master_coefficients(int lmax, int lmax_mask,
                 wfac_ispure[0]=wss1;
                 wfac_ispure[0]*=wss2*pcl[l1];
                 if(c->pure_any) {
-                  wfac_ispure[1]=wss1+fac_12*w12+fac_02*w02;
+                  //Only spin-2 fields can be purified. If spins differ, the
+                  //purified field may be either of them.
+                  double wpure=wss1,wother=wss2;
+                  if(has_ss2 && (c->s2==2)) {
+                    wpure=wss2;
+                    wother=wss1;
+                  }
+                  wfac_ispure[1]=wpure+fac_12*w12+fac_02*w02;
                   wfac_ispure[2]=wfac_ispure[1]*wfac_ispure[1]*pcl[l1];
-                  wfac_ispure[1]*=wss2*pcl[l1];
+                  wfac_ispure[1]*=wother*pcl[l1];
                 }
 
                 if(suml & 1) { //Odd sum
-- 
2.43.0


From 2ac66125a230997da5b965b6e30efef24127de04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 04/50] fix: uninitialised Wigner 3j symbols used in the
 purified T-E-B coupling matrix

---
 src/nmt_master.c | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index 69c2c83..40b9518 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -856,14 +856,7 @@ nmt_master_calculator *nmt_compute_master_coefficients(int lmax, int lmax_mask,
 		fac_12=0;
 		fac_02=0;
 	      }
-	      if(j12<0) { //If out of range, w12 is just 0
-		fac_12=0;
-		j12=0;
-	      }
-	      if(j02<0) { //if out of range, w02 is just 0
-		fac_02=0;
-		j02=0;
-	      }
+              //If out of range, w12 and w02 are just 0
               w12=j12 < 0 ? 0 : wigner_12[j12];
               w02=j02 < 0 ? 0 : wigner_02[j02];
 	    }
-- 
2.43.0


From 2b4e56dc7aa12d9b3b615d642c205c6d2b7aacff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 05/50] fix: sign of the TT and polarization blocks of the
 T-E-B coupling matrix for odd spins

---
 src/nmt_master.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index 40b9518..7457ce0 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -1117,17 +1117,18 @@ nmt_workspace *nmt_compute_coupling_matrix(int spin1,int spin2,
           w->coupling_matrix_unbinned[4*ll2+3][4*ll3+3]=fac*c->xi_pp[0][pb1+pb2][ll2][ll3]; //BB,BB
         }
         if(w->ncls==7) {
-          w->coupling_matrix_unbinned[7*ll2+0][7*ll3+0]=fac*c->xi_00[0][ll2][ll3]; //TT,TT
+          double fac_even=2*ll3+1.; //Only the spin-0-spin-s block changes sign for odd spins
+          w->coupling_matrix_unbinned[7*ll2+0][7*ll3+0]=fac_even*c->xi_00[0][ll2][ll3]; //TT,TT
           w->coupling_matrix_unbinned[7*ll2+1][7*ll3+1]=fac*c->xi_0s[0][pe2][ll2][ll3]; //TE,TE
           w->coupling_matrix_unbinned[7*ll2+2][7*ll3+2]=fac*c->xi_0s[0][pb2][ll2][ll3]; //TB,TB
-          w->coupling_matrix_unbinned[7*ll2+3][7*ll3+6]=fac*c->xi_mm[0][pe2+pe2][ll2][ll3]; //EE,BB
-          w->coupling_matrix_unbinned[7*ll2+4][7*ll3+5]=-fac*c->xi_mm[0][pe2+pb2][ll2][ll3]; //EB,BE
-          w->coupling_matrix_unbinned[7*ll2+5][7*ll3+4]=-fac*c->xi_mm[0][pb2+pe2][ll2][ll3]; //BE,EB
-          w->coupling_matrix_unbinned[7*ll2+6][7*ll3+3]=fac*c->xi_mm[0][pb2+pb2][ll2][ll3]; //BB,EE
-          w->coupling_matrix_unbinned[7*ll2+3][7*ll3+3]=fac*c->xi_pp[0][pe2+pe2][ll2][ll3]; //EE,EE
-          w->coupling_matrix_unbinned[7*ll2+4][7*ll3+4]=fac*c->xi_pp[0][pe2+pb2][ll2][ll3]; //EB,EB
-          w->coupling_matrix_unbinned[7*ll2+5][7*ll3+5]=fac*c->xi_pp[0][pb2+pe2][ll2][ll3]; //BE,BE
-          w->coupling_matrix_unbinned[7*ll2+6][7*ll3+6]=fac*c->xi_pp[0][pb2+pb2][ll2][ll3]; //BB,BB
+          w->coupling_matrix_unbinned[7*ll2+3][7*ll3+6]=fac_even*c->xi_mm[0][pe2+pe2][ll2][ll3]; //EE,BB
+          w->coupling_matrix_unbinned[7*ll2+4][7*ll3+5]=-fac_even*c->xi_mm[0][pe2+pb2][ll2][ll3]; //EB,BE
+          w->coupling_matrix_unbinned[7*ll2+5][7*ll3+4]=-fac_even*c->xi_mm[0][pb2+pe2][ll2][ll3]; //BE,EB
+          w->coupling_matrix_unbinned[7*ll2+6][7*ll3+3]=fac_even*c->xi_mm[0][pb2+pb2][ll2][ll3]; //BB,EE
+          w->coupling_matrix_unbinned[7*ll2+3][7*ll3+3]=fac_even*c->xi_pp[0][pe2+pe2][ll2][ll3]; //EE,EE
+          w->coupling_matrix_unbinned[7*ll2+4][7*ll3+4]=fac_even*c->xi_pp[0][pe2+pb2][ll2][ll3]; //EB,EB
+          w->coupling_matrix_unbinned[7*ll2+5][7*ll3+5]=fac_even*c->xi_pp[0][pb2+pe2][ll2][ll3]; //BE,BE
+          w->coupling_matrix_unbinned[7*ll2+6][7*ll3+6]=fac_even*c->xi_pp[0][pb2+pb2][ll2][ll3]; //BB,BB
         }
       }
     } //end omp for
-- 
2.43.0


From 471aa04f90bec40f50c14c19ee3e46d9e86c6d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:33 +0000
Subject: [PATCH 06/50] fix: beams longer than lmax+1 are accepted by fields
 but rejected by workspaces

---
 pymaster/workspaces.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index 447feed..34e720b 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -309,6 +309,10 @@ class NmtWorkspace(object):
                 msk2 = fl2.get_mask()
                 wawb = fl1.minfo.si.dot_map(msk1, msk2)/(4*np.pi)
 
+        # Fields accept beams that go beyond their maximum multipole
+        beam1 = fl1.beam[:fl1.ainfo.lmax+1]
+        beam2 = fl2.beam[:fl2.ainfo.lmax+1]
+
         if anisotropic_mask_any:
             self.wsp = lib.comp_coupling_matrix_anisotropic(
                 int(fl1.spin), int(fl2.spin),
@@ -316,7 +320,7 @@ class NmtWorkspace(object):
                 int(fl1.ainfo.lmax), int(fl1.ainfo_mask.lmax),
                 pclm_00, pclm_0e, pclm_0b, pclm_e0, pclm_b0,
                 pclm_ee, pclm_eb, pclm_be, pclm_bb,
-                fl1.beam, fl2.beam, bins.bin,
+                beam1, beam2, bins.bin,
                 int(norm_type), wawb)
         else:
             self.wsp = lib.comp_coupling_matrix(
@@ -325,7 +329,7 @@ class NmtWorkspace(object):
                 int(fl1.pure_e), int(fl1.pure_b),
                 int(fl2.pure_e), int(fl2.pure_b),
                 int(norm_type), wawb,
-                fl1.beam, fl2.beam, pcl_mask.flatten()-Nw,
+                beam1, beam2, pcl_mask.flatten()-Nw,
                 bins.bin, int(is_teb), l_toeplitz, l_exact, dl_band)
         self.has_unbinned = True
 
-- 
2.43.0


From cb58a2ea0f9cae597e31717b4bd1ef292b32dfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 07/50] fix: argument order of the mask spectra in
 nmt_compute_coupling_matrix_anisotropic

Its callers pass 00,0e,0b,e0,b0,...; 0b and e0 were interchanged.
---
 src/namaster.h   | 2 +-
 src/nmt_master.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/namaster.h b/src/namaster.h
index a7c9ff6..4ae7877 100644
--- a/src/namaster.h
+++ b/src/namaster.h
@@ -745,8 +745,8 @@ nmt_workspace *nmt_compute_coupling_matrix_anisotropic(int spin1, int spin2,
 						       int lmax, int lmax_mask,
 						       flouble *pcl_masks_00,
 						       flouble *pcl_masks_0e,
-						       flouble *pcl_masks_e0,
 						       flouble *pcl_masks_0b,
+						       flouble *pcl_masks_e0,
 						       flouble *pcl_masks_b0,
 						       flouble *pcl_masks_ee,
 						       flouble *pcl_masks_eb,
diff --git a/src/nmt_master.c b/src/nmt_master.c
index 7457ce0..3d35358 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -423,8 +423,8 @@ nmt_workspace *nmt_compute_coupling_matrix_anisotropic(int spin1, int spin2,
 						       int lmax, int lmax_mask,
 						       flouble *pcl_masks_00,
 						       flouble *pcl_masks_0e,
-						       flouble *pcl_masks_e0,
 						       flouble *pcl_masks_0b,
+						       flouble *pcl_masks_e0,
 						       flouble *pcl_masks_b0,
 						       flouble *pcl_masks_ee,
 						       flouble *pcl_masks_eb,
-- 
2.43.0


From 0210e74f67d7faebac8bcc2af800975934acb3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 08/50] fix: signs of the anisotropic-mask coupling matrix when
 the spins have different parity

---
 src/nmt_master.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index 3d35358..e799d44 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -478,10 +478,10 @@ nmt_workspace *nmt_compute_coupling_matrix_anisotropic(int spin1, int spin2,
     }
   }
 
-  int sign_00 = 1;
-  int sign_0P = (spin2 & 1) ? -1 : 1;
-  int sign_P0 = (spin1 & 1) ? -1 : 1;
-  int sign_PP = ((spin1+spin2) & 1) ? -1 : 1;
+  int sign_00 = ((spin1+spin2) & 1) ? -1 : 1;
+  int sign_0P = (spin1 & 1) ? -1 : 1;
+  int sign_P0 = (spin2 & 1) ? -1 : 1;
+  int sign_PP = 1;
   for(l2=0;l2<=lmax_mask;l2++) {
     flouble fac=(2*l2+1)/(4*M_PI);
     pcl_masks[i_00][l2] *= sign_00*fac;
-- 
2.43.0


From 2182789ac0ff53d0d9b2be89c0d152cf7efb0e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 09/50] fix: anisotropic-mask coupling matrix written out of
 bounds if the bins end before lmax

---
 src/nmt_master.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index e799d44..67c9b68 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -503,7 +503,7 @@ nmt_workspace *nmt_compute_coupling_matrix_anisotropic(int spin1, int spin2,
   int is_ss=(spin1!=0) && (spin2!=0);
 
 #pragma omp parallel default(none)				\
-  shared(pcl_masks, lstart, reuse_ss1, lmax, lmax_mask)		\
+  shared(pcl_masks, lstart, reuse_ss1, lmax_mask)		\
   shared(mask_aniso_1, mask_aniso_2, is_0s, is_s0, is_ss)	\
   shared(spin1, spin2, i_00, i_0e, i_0b, i_e0, i_b0)		\
   shared(i_ee, i_eb, i_be, i_bb, w)
@@ -528,8 +528,8 @@ nmt_workspace *nmt_compute_coupling_matrix_anisotropic(int spin1, int spin2,
     }
 
 #pragma omp for schedule(dynamic)
-    for(ll2=lstart;ll2<=lmax;ll2++) {
-      for(ll3=lstart;ll3<=lmax;ll3++) {  //TODO: investigate if there are ell-ell' symmetries to exploit
+    for(ll2=lstart;ll2<=w->lmax;ll2++) {
+      for(ll3=lstart;ll3<=w->lmax;ll3++) {  //TODO: investigate if there are ell-ell' symmetries to exploit
 	int l1,lmin_here,lmax_here;
 	int l3fac=2*ll3+1;
 	int lmin_ss1=0,lmax_ss1=2*(lmax_mask+1)+1;
-- 
2.43.0


From 28a3f8af81cf95c03a2c31f1f2660f39093b10df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:01 +0000
Subject: [PATCH 10/50] fix: decouple_cell with input spectra longer than
 lmax+1

---
 pymaster/workspaces.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index 34e720b..85dba4e 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -460,6 +460,10 @@ class NmtWorkspace(object):
         else:
             cln = np.zeros_like(cl_in)
 
+        # Shorten C_ells if they're too long
+        cl_in, cln, clb = (np.array(c)[:, :self.wsp.lmax+1]
+                           for c in (cl_in, cln, clb))
+
         cl1d = lib.decouple_cell_py(
             self.wsp, cl_in, cln, clb, self.wsp.ncls * self.wsp.bin.n_bands
         )
-- 
2.43.0


From f3f89bceb0edc9714ae4f00a0826cb9d1e9166ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 11/50] fix: Toeplitz approximation overwrote part of the band
 of coefficients computed exactly

---
 src/nmt_master.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index 67c9b68..66e172f 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -940,6 +940,8 @@ nmt_master_calculator *nmt_compute_master_coefficients(int lmax, int lmax_mask,
         flouble m;
 	int is_den_zero;
         int lx=l_exact+l2-l3;
+        if((l3==l_exact) || (l2-l3<=dl_band)) //These have been computed exactly
+          continue;
         for(ic=0;ic<c->npcl;ic++) {
           if(c->has_00) {
             mat = c->xi_00[ic];
-- 
2.43.0


From a7199e50918bddd25e72891d5b95a3a270b53e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:46 +0000
Subject: [PATCH 12/50] fix: coupling coefficients for masks with lmax_mask <
 lmax

The arrays of Wigner 3j symbols were sized for lmax_mask only, so any mask
multipole limit below lmax ended in an error raised inside a parallel region
(a crash with more than one thread).
---
 src/nmt_master.c | 75 +++++++++++++++++++++++++-----------------------
 1 file changed, 39 insertions(+), 36 deletions(-)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index 66e172f..ed58f1f 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -227,13 +227,14 @@ static void populate_toeplitz(nmt_master_calculator *c, flouble **pcl_masks, int
   {
     int il3,ll2,icc;
     int l3_list[2];
+    int n_wig=2*(NMT_MAX(c->lmax,c->lmax_mask)+1); // Largest number of Wigner symbols
     double *wigner_00=NULL,*wigner_ss1=NULL,*wigner_ss2=NULL;
     if(c->has_00 || c->has_0s)
-      wigner_00=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_00=my_malloc(n_wig*sizeof(double));
     if(c->has_0s || c->has_ss)
-      wigner_ss1=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_ss1=my_malloc(n_wig*sizeof(double));
     if(has_ss2)
-      wigner_ss2=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_ss2=my_malloc(n_wig*sizeof(double));
     else
       wigner_ss2=wigner_ss1;
 
@@ -246,18 +247,18 @@ static void populate_toeplitz(nmt_master_calculator *c, flouble **pcl_masks, int
       for(il3=0;il3<2;il3++) {
         int ll3=l3_list[il3];
         int l1,lmin_here,lmax_here;
-	int lmin_00=0,lmax_00=2*(c->lmax_mask+1)+1;
-	int lmin_ss1=0,lmax_ss1=2*(c->lmax_mask+1)+1;
-	int lmin_ss2=0,lmax_ss2=2*(c->lmax_mask+1)+1;
+	int lmin_00=0,lmax_00=n_wig+1;
+	int lmin_ss1=0,lmax_ss1=n_wig+1;
+	int lmin_ss2=0,lmax_ss2=n_wig+1;
         lmin_here=abs(ll2-ll3);
         lmax_here=ll2+ll3;
 
 	if(c->has_00 || c->has_0s)
-	  drc3jj_000(ll2,ll3,&lmin_00,&lmax_00,c->lfac,wigner_00,2*(c->lmax_mask+1));
+	  drc3jj_000(ll2,ll3,&lmin_00,&lmax_00,c->lfac,wigner_00,n_wig);
 	if(c->has_0s || c->has_ss)
-	  drc3jj(ll2,ll3,c->s1,-c->s1,&lmin_ss1,&lmax_ss1,wigner_ss1,2*(c->lmax_mask+1));
+	  drc3jj(ll2,ll3,c->s1,-c->s1,&lmin_ss1,&lmax_ss1,wigner_ss1,n_wig);
         if(has_ss2)
-          drc3jj(ll2,ll3,c->s2,-c->s2,&lmin_ss2,&lmax_ss2,wigner_ss2,2*(c->lmax_mask+1));
+          drc3jj(ll2,ll3,c->s2,-c->s2,&lmin_ss2,&lmax_ss2,wigner_ss2,n_wig);
         else {
           lmin_ss2=lmin_ss1;
           lmax_ss2=lmax_ss1;
@@ -509,20 +510,21 @@ nmt_workspace *nmt_compute_coupling_matrix_anisotropic(int spin1, int spin2,
   shared(i_ee, i_eb, i_be, i_bb, w)
   {
     int ll2,ll3;
+    int n_wig=2*(NMT_MAX(w->lmax,lmax_mask)+1); // Largest number of Wigner symbols
     double *wigner_ss1=NULL, *wigner_ss2=NULL, *wigner_ss1a=NULL, *wigner_ss2a=NULL;
     // s -s 0 terms
-    wigner_ss1=my_malloc(2*(lmax_mask+1)*sizeof(double));
+    wigner_ss1=my_malloc(n_wig*sizeof(double));
     if(reuse_ss1)
       wigner_ss2=wigner_ss1;
     else
-      wigner_ss2=my_malloc(2*(lmax_mask+1)*sizeof(double));
+      wigner_ss2=my_malloc(n_wig*sizeof(double));
 
     // s s -2s terms
     if(mask_aniso_1)
-      wigner_ss1a=my_malloc(2*(lmax_mask+1)*sizeof(double));
+      wigner_ss1a=my_malloc(n_wig*sizeof(double));
     if(mask_aniso_2) {
       if((!reuse_ss1) || (mask_aniso_1 == 0))
-	wigner_ss2a=my_malloc(2*(lmax_mask+1)*sizeof(double));
+	wigner_ss2a=my_malloc(n_wig*sizeof(double));
       else
 	wigner_ss2a=wigner_ss1a;
     }
@@ -532,28 +534,28 @@ nmt_workspace *nmt_compute_coupling_matrix_anisotropic(int spin1, int spin2,
       for(ll3=lstart;ll3<=w->lmax;ll3++) {  //TODO: investigate if there are ell-ell' symmetries to exploit
 	int l1,lmin_here,lmax_here;
 	int l3fac=2*ll3+1;
-	int lmin_ss1=0,lmax_ss1=2*(lmax_mask+1)+1;
-	int lmin_ss2=0,lmax_ss2=2*(lmax_mask+1)+1;
-	int lmin_ss1a=0,lmax_ss1a=2*(lmax_mask+1)+1;
-	int lmin_ss2a=0,lmax_ss2a=2*(lmax_mask+1)+1;
+	int lmin_ss1=0,lmax_ss1=n_wig+1;
+	int lmin_ss2=0,lmax_ss2=n_wig+1;
+	int lmin_ss1a=0,lmax_ss1a=n_wig+1;
+	int lmin_ss2a=0,lmax_ss2a=n_wig+1;
 	lmin_here=abs(ll2-ll3);
 	lmax_here=ll2+ll3;
 
 	// s -s 0 terms
-	drc3jj(ll2,ll3,spin1,-spin1,&lmin_ss1,&lmax_ss1,wigner_ss1,2*(lmax_mask+1));
+	drc3jj(ll2,ll3,spin1,-spin1,&lmin_ss1,&lmax_ss1,wigner_ss1,n_wig);
 	if(reuse_ss1) {
 	  lmin_ss2=lmin_ss1;
 	  lmax_ss2=lmax_ss1;
 	}
 	else
-	  drc3jj(ll2,ll3,spin2,-spin2,&lmin_ss2,&lmax_ss2,wigner_ss2,2*(lmax_mask+1));
+	  drc3jj(ll2,ll3,spin2,-spin2,&lmin_ss2,&lmax_ss2,wigner_ss2,n_wig);
 
 	// s s -2s terms
 	if(mask_aniso_1)
-	  drc3jj(ll2,ll3,spin1,spin1,&lmin_ss1a,&lmax_ss1a,wigner_ss1a,2*(lmax_mask+1));
+	  drc3jj(ll2,ll3,spin1,spin1,&lmin_ss1a,&lmax_ss1a,wigner_ss1a,n_wig);
 	if(mask_aniso_2) {
 	  if((!reuse_ss1) || (mask_aniso_1 == 0))
-	    drc3jj(ll2,ll3,spin2,spin2,&lmin_ss2a,&lmax_ss2a,wigner_ss2a,2*(lmax_mask+1));
+	    drc3jj(ll2,ll3,spin2,spin2,&lmin_ss2a,&lmax_ss2a,wigner_ss2a,n_wig);
 	  else {
 	    lmin_ss2a=lmin_ss1a;
 	    lmax_ss2a=lmax_ss1a;
@@ -767,18 +769,19 @@ nmt_master_calculator *nmt_compute_master_coefficients(int lmax, int lmax_mask,
   shared(l_toeplitz, l_exact, dl_band)
   {
     int ll2,ll3,icc;
+    int n_wig=2*(NMT_MAX(c->lmax,c->lmax_mask)+1); // Largest number of Wigner symbols
     double *wigner_00=NULL,*wigner_ss1=NULL,*wigner_12=NULL,*wigner_02=NULL,*wigner_ss2=NULL;
     if(c->has_00 || c->has_0s)
-      wigner_00=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_00=my_malloc(n_wig*sizeof(double));
     if(c->has_0s || c->has_ss)
-      wigner_ss1=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_ss1=my_malloc(n_wig*sizeof(double));
     if(has_ss2)
-      wigner_ss2=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_ss2=my_malloc(n_wig*sizeof(double));
     else
       wigner_ss2=wigner_ss1;
     if(c->pure_any) {
-      wigner_12=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
-      wigner_02=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_12=my_malloc(n_wig*sizeof(double));
+      wigner_02=my_malloc(n_wig*sizeof(double));
     }
 
 #pragma omp for schedule(dynamic)
@@ -789,11 +792,11 @@ nmt_master_calculator *nmt_compute_master_coefficients(int lmax, int lmax_mask,
         l3_start=ll2;
       for(ll3=l3_start;ll3<=l3_end;ll3++) {
         int l1,lmin_here,lmax_here;
-        int lmin_00=0,lmax_00=2*(c->lmax_mask+1)+1;
-        int lmin_ss1=0,lmax_ss1=2*(c->lmax_mask+1)+1;
-        int lmin_ss2=0,lmax_ss2=2*(c->lmax_mask+1)+1;
-        int lmin_12=0,lmax_12=2*(c->lmax_mask+1)+1;
-        int lmin_02=0,lmax_02=2*(c->lmax_mask+1)+1;
+        int lmin_00=0,lmax_00=n_wig+1;
+        int lmin_ss1=0,lmax_ss1=n_wig+1;
+        int lmin_ss2=0,lmax_ss2=n_wig+1;
+        int lmin_12=0,lmax_12=n_wig+1;
+        int lmin_02=0,lmax_02=n_wig+1;
         lmin_here=abs(ll2-ll3);
         lmax_here=ll2+ll3;
 
@@ -812,18 +815,18 @@ nmt_master_calculator *nmt_compute_master_coefficients(int lmax, int lmax_mask,
         }
 
         if(c->has_00 || c->has_0s)
-	  drc3jj_000(ll2,ll3,&lmin_00,&lmax_00,c->lfac,wigner_00,2*(c->lmax_mask+1));
+	  drc3jj_000(ll2,ll3,&lmin_00,&lmax_00,c->lfac,wigner_00,n_wig);
         if(c->has_0s || c->has_ss)
-          drc3jj(ll2,ll3,c->s1,-c->s1,&lmin_ss1,&lmax_ss1,wigner_ss1,2*(c->lmax_mask+1));
+          drc3jj(ll2,ll3,c->s1,-c->s1,&lmin_ss1,&lmax_ss1,wigner_ss1,n_wig);
         if(has_ss2)
-          drc3jj(ll2,ll3,c->s2,-c->s2,&lmin_ss2,&lmax_ss2,wigner_ss2,2*(c->lmax_mask+1));
+          drc3jj(ll2,ll3,c->s2,-c->s2,&lmin_ss2,&lmax_ss2,wigner_ss2,n_wig);
         else {
           lmin_ss2=lmin_ss1;
           lmax_ss2=lmax_ss1;
         }
 	if(c->pure_any) {
-	  drc3jj(ll2,ll3,1,-2,&lmin_12,&lmax_12,wigner_12,2*(c->lmax_mask+1));
-	  drc3jj(ll2,ll3,0,-2,&lmin_02,&lmax_02,wigner_02,2*(c->lmax_mask+1));
+	  drc3jj(ll2,ll3,1,-2,&lmin_12,&lmax_12,wigner_12,n_wig);
+	  drc3jj(ll2,ll3,0,-2,&lmin_02,&lmax_02,wigner_02,n_wig);
 	}
 
         for(l1=lmin_here;l1<=lmax_here;l1++) {
-- 
2.43.0


From df7e150a8cc7db1577b463876c507b7269f0b4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:52 +0000
Subject: [PATCH 13/50] fix: covariance of coupled pseudo-C_ells undefined
 outside the bandpowers

compute the covariance of the pseudo-C_ells for all multipoles; it was only
filled in for those in some bandpower (the rest of the output was never
written), and scaled by the f_ell of the bandpowers, which the pseudo-C_ells
do not include.
---
 src/nmt_covar.c | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/nmt_covar.c b/src/nmt_covar.c
index 75a74ee..8967911 100644
--- a/src/nmt_covar.c
+++ b/src/nmt_covar.c
@@ -113,12 +113,13 @@ void  nmt_compute_gaussian_covariance_coupled(nmt_covar_workspace *cw,
   shared(wa,wb,clac,clad,clbc,clbd)			\
   shared(nmaps_a,nmaps_b,nmaps_c,nmaps_d,covar_out)
   {
-    int band_a;
+    int la;
 
+    // The pseudo-C_ells do not depend on the bandpowers
 #pragma omp for
-    for(band_a=0;band_a<wa->bin->n_bands;band_a++) {
-      int band_b;
-      for(band_b=0;band_b<wb->bin->n_bands;band_b++) {
+    for(la=0;la<=cw->lmax;la++) {
+      int lb;
+      for(lb=0;lb<=cw->lmax;lb++) {
 	int ia;
 	for(ia=0;ia<nmaps_a;ia++) {
 	  int ib;
@@ -128,14 +129,8 @@ void  nmt_compute_gaussian_covariance_coupled(nmt_covar_workspace *cw,
 	    for(ic=0;ic<nmaps_c;ic++) {
 	      int id;
 	      for(id=0;id<nmaps_d;id++) {
-		int ila;
+		int iap;
 		int icl_b=id+nmaps_d*ic;
-		for(ila=0;ila<wa->bin->nell_list[band_a];ila++) {
-		  int ilb;
-		  int la=wa->bin->ell_list[band_a][ila];
-		  for(ilb=0;ilb<wb->bin->nell_list[band_b];ilb++) {
-		    int iap;
-		    int lb=wb->bin->ell_list[band_b][ilb];
 		    double xis_1122[6]={cw->xi00_1122[la][lb],
                                         cw->xi02_1122[la][lb],
                                         cw->xi22p_1122[la][lb],
@@ -146,7 +141,6 @@ void  nmt_compute_gaussian_covariance_coupled(nmt_covar_workspace *cw,
                                         cw->xi22p_1221[la][lb],
 					cw->xi22m_1221[la][lb],
                                         -cw->xi22m_1221[la][lb],0};
-		    double prefac_ell=wa->bin->f_ell[band_a][ila]*wb->bin->f_ell[band_b][ilb];
                     double cov_element=0;
 		    for(iap=0;iap<nmaps_a;iap++) {
 		      int ibp;
@@ -166,14 +160,12 @@ void  nmt_compute_gaussian_covariance_coupled(nmt_covar_workspace *cw,
 			    int ind_1221=cov_get_coupling_pair_index(nmaps_a,nmaps_d,nmaps_b,nmaps_c,
 								     ia,iap,id,idp,ib,ibp,ic,icp);
 			    
-                            cov_element+=(xis_1122[ind_1122]*fac_1122+xis_1221[ind_1221]*fac_1221)*prefac_ell;
+                            cov_element+=xis_1122[ind_1122]*fac_1122+xis_1221[ind_1221]*fac_1221;
 			  }
 			}
 		      }
 		    }
                     covar_out[((wa->ncls*la+icl_a)*(cw->lmax+1)+lb)*wb->ncls+icl_b]=cov_element;
-		  }
-		}
 	      }
 	    }
 	  }
-- 
2.43.0


From 0c4407ca5212eda7b442263689ea213d7ad00266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:51 +0000
Subject: [PATCH 14/50] fix: mean of the mask product undefined in FKP
 workspaces read from file

---
 src/nmt_io.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index bb53372..f0de4c6 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -390,6 +390,11 @@ nmt_workspace *nmt_workspace_read_fits(char *fname, int w_unbinned)
   check_fits(status,fname,1);
   fits_close_file(fptr,&status);
 
+  // With the FKP normalisation the binned MCM is w2 times the identity
+  w->w2=0;
+  if(w->norm_type)
+    w->w2=gsl_matrix_get(w->coupling_matrix_binned,0,0);
+
   return w;
 }
 
-- 
2.43.0


From e8bbca4dccace5bba6cca12814e28ef21b2af03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:51 +0000
Subject: [PATCH 15/50] fix: beam and bin updates of workspaces read without
 unbinned coupling matrix crash

---
 pymaster/workspaces.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index 85dba4e..811d1c5 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -183,6 +183,7 @@ class NmtWorkspace(object):
         lmax = self.wsp.lmax_fields
         if (len(beam1) <= lmax) or (len(beam2) <= lmax):
             raise ValueError("The new beams must go up to ell = %d" % lmax)
+        self.check_unbinned()
         lib.wsp_update_beams(self.wsp, beam1, beam2)
 
     def update_bins(self, bins):
@@ -198,6 +199,7 @@ class NmtWorkspace(object):
                              "the mode-coupling matrix")
         if bins.bin is None:
             raise ValueError("Can't replace with uninitialized bins")
+        self.check_unbinned()
         lib.wsp_update_bins(self.wsp, bins.bin)
 
     def compute_coupling_matrix(self, fl1, fl2, bins, is_teb=False,
-- 
2.43.0


From 9eaef823070f7647f8a4edda745bf4f895e378e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:51 +0000
Subject: [PATCH 16/50] fix: lmax_mask of covariance workspaces changed by
 writing and undefined after reading

---
 src/nmt_io.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index f0de4c6..d31631e 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -796,7 +796,7 @@ void nmt_covar_workspace_write_fits(nmt_covar_workspace *cw,char *fname)
   fits_create_img(fptr,BYTE_IMG,0,NULL,&status);
   fits_write_key(fptr,TSTRING,"EXTNAME","CWSP_PRIMARY",NULL,&status);
   fits_write_key(fptr,TINT,"LMAX",&(cw->lmax),NULL,&status);
-  cw->lmax_mask=cw->lmax;
+  fits_write_key(fptr,TINT,"LMAX_MASK",&(cw->lmax_mask),NULL,&status);
   fits_write_key(fptr,TINT,"SPIN0_ONLY",&(cw->spin0_only),NULL,&status);
   check_fits(status,fname,0);
 
@@ -832,6 +832,11 @@ nmt_covar_workspace *nmt_covar_workspace_read_fits(char *fname, int force_spin0)
   fits_movnam_hdu(fptr,ANY_HDU,"CWSP_PRIMARY",0,&status);
   fits_read_key(fptr,TINT,"LMAX",&(cw->lmax),NULL,&status);
   check_fits(status,fname,1);
+  fits_read_key(fptr,TINT,"LMAX_MASK",&(cw->lmax_mask),NULL,&status);
+  if(status) {//Old format, does not include this
+    cw->lmax_mask=cw->lmax;
+    status=0;
+  }
   if(force_spin0)
     cw->spin0_only=1;
   else {
-- 
2.43.0


From cf6875b2ef98142864ab95b47439aa252006e926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:51 +0000
Subject: [PATCH 17/50] fix: binning schemes with a multipole in several bands
 not preserved in workspace files

---
 src/nmt_io.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index d31631e..c677943 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -200,24 +200,24 @@ static void nmt_binning_scheme_tohdus(fitsfile *fptr,
 				      int *status)
 {
   int ii;
-  int nrows=b->ell_max+1;
+  //One row per multipole in each band (multipoles may be in several bands)
+  long nrows=0;
+  for(ii=0;ii<b->n_bands;ii++)
+    nrows+=b->nell_list[ii];
   int *bpws=my_malloc(nrows*sizeof(int));
   int *ells=my_malloc(nrows*sizeof(int));
-  flouble *weights=my_calloc(nrows,sizeof(flouble));
-  flouble *f_ell=my_calloc(nrows,sizeof(flouble));
-  for(ii=0;ii<nrows;ii++) {
-    bpws[ii]=-1;
-    ells[ii]=-1;
-  }
+  flouble *weights=my_malloc(nrows*sizeof(flouble));
+  flouble *f_ell=my_malloc(nrows*sizeof(flouble));
 
+  long irow=0;
   for(ii=0;ii<b->n_bands;ii++) {
     int jj;
     for(jj=0;jj<b->nell_list[ii];jj++) {
-      int l=b->ell_list[ii][jj];
-      ells[l]=l;
-      bpws[l]=ii;
-      weights[l]=b->w_list[ii][jj];
-      f_ell[l]=b->f_ell[ii][jj];
+      bpws[irow]=ii;
+      ells[irow]=b->ell_list[ii][jj];
+      weights[irow]=b->w_list[ii][jj];
+      f_ell[irow]=b->f_ell[ii][jj];
+      irow++;
     }
   }
 
-- 
2.43.0


From ad5faaa3889692442b06c22836a8fd19a3a8a4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:51 +0000
Subject: [PATCH 18/50] fix: error messages with long file names overflow their
 buffer

---
 src/utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.c b/src/utils.c
index 57ecc14..5971ad5 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -18,7 +18,7 @@ void report_error(int level,char *fmt,...)
   char msg[256];
 
   va_start(args,fmt);
-  vsprintf(msg,fmt,args);
+  vsnprintf(msg,sizeof(msg),fmt,args);
   va_end(args);
   
   if(level) {
-- 
2.43.0


From fa48ec76965ae04cd4430f270a5189e70c272290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:22 +0000
Subject: [PATCH 19/50] fix: files lacking the expected HDUs or keywords read
 with undefined sizes

---
 src/nmt_io.c | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index c677943..72042cf 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -42,6 +42,8 @@ static void nmt_workspace_info_fromhdus(fitsfile *fptr,
     w->norm_type=0;
     *status=status_pre;
   }
+  if(*status)
+    return;
   long ii;
   long n_el=w->ncls*(w->lmax+1);
   long fpixel[2]={1,1};
@@ -102,6 +104,8 @@ static double *nmt_l_arr_fromhdus(fitsfile *fptr, int lmax_expect, char *arrname
   *status=0;
   fits_movnam_hdu(fptr,BINARY_TBL,arrname,0,status);
   fits_get_num_rows(fptr,&nrows,status);
+  if(*status)
+    return NULL;
   if(nrows!=lmax_expect+1) {
     report_error(NMT_ERROR_INCONSISTENT,
 		 "Expected %d elements, but got %ld\n",
@@ -125,6 +129,8 @@ static nmt_binning_scheme *nmt_binning_scheme_fromhdus(fitsfile *fptr,
   fits_read_key(fptr,TINT,"N_BANDS",&n_bands,NULL,status);
   fits_read_key(fptr,TINT,"ELL_MAX",&ell_max,NULL,status);
   fits_get_num_rows(fptr,&nrows,status);
+  if(*status)
+    return NULL;
   bpws=my_malloc(nrows*sizeof(int));
   ells=my_malloc(nrows*sizeof(int));
   weights=my_malloc(nrows*sizeof(flouble));
@@ -161,6 +167,8 @@ static nmt_binning_scheme *nmt_binning_scheme_fromhdus_old(fitsfile *fptr,
   fits_read_key(fptr,TINT,"N_BANDS",&(b->n_bands),NULL,status);
   fits_read_key(fptr,TINT,"ELL_MAX",&(b->ell_max),NULL,status);
   fits_get_num_rows(fptr,&nrows,status);
+  if(*status)
+    return NULL;
   if(nrows!=b->n_bands) {
     report_error(NMT_ERROR_INCONSISTENT,
 		 "Number of bands doesn't match table size\n");
@@ -177,6 +185,8 @@ static nmt_binning_scheme *nmt_binning_scheme_fromhdus_old(fitsfile *fptr,
     sprintf(hduname,"BINS_BAND_%d",ii+1);
     fits_movnam_hdu(fptr,BINARY_TBL,hduname,0,status);
     fits_get_num_rows(fptr,&nrows,status);
+    if(*status)
+      return NULL;
     if(nrows!=b->nell_list[ii]) {
       report_error(NMT_ERROR_INCONSISTENT,
 		   "Number of rows doesn't match number of ells\n");
@@ -382,8 +392,10 @@ nmt_workspace *nmt_workspace_read_fits(char *fname, int w_unbinned)
   check_fits(status,fname,1);
   // bins HDUs
   w->bin=nmt_binning_scheme_fromhdus(fptr,&status);
-  if(status) // maybe used old format
+  if(status) { // maybe used old format
+    status=0;
     w->bin=nmt_binning_scheme_fromhdus_old(fptr,&status);
+  }
   check_fits(status,fname,1);
   // binned MCM HDU
   nmt_coupling_binned_fromhdus(fptr,w,&status);
@@ -445,6 +457,8 @@ static void nmt_workspace_flat_info_fromhdus(fitsfile *fptr,
   long ii;
   long naxes[2],fpixel[2]={1,1};
   fits_get_img_size(fptr,2,naxes,status);
+  if(*status)
+    return;
   w->coupling_matrix_unbinned=my_malloc(naxes[1]*sizeof(flouble *));
   for(ii=0;ii<naxes[1];ii++) {
     fpixel[1]=ii+1;
@@ -503,6 +517,8 @@ static nmt_flatsky_info *nmt_flatsky_info_fromhdus(fitsfile *fptr,
   double nulval;
   int anynul;
   fits_get_num_rows(fptr,&nrows,status);
+  if(*status)
+    return NULL;
   fs->n_ell=nrows;
   fs->ell_min=my_malloc(fs->n_ell*sizeof(flouble));
   fits_read_col(fptr,TDOUBLE,1,1,1,nrows,&nulval,fs->ell_min,&anynul,status);
@@ -541,6 +557,8 @@ static int *nmt_n_cells_fromhdus(fitsfile *fptr,
   int nulval,anynul;
   fits_movnam_hdu(fptr,BINARY_TBL,"N_CELLS",0,status);
   fits_get_num_rows(fptr,&nrows,status);
+  if(*status)
+    return NULL;
   n_cells=my_malloc(nrows*sizeof(int));
   fits_read_col(fptr,TINT,1,1,1,nrows,&nulval,n_cells,&anynul,status);
 
@@ -601,6 +619,8 @@ static void nmt_flat_coupling_binned_fromhdus(fitsfile *fptr,
   //Non-GSL
   fits_movnam_hdu(fptr,IMAGE_HDU,"MCM_BINNED",0,status);
   fits_get_img_size(fptr,2,naxes,status);
+  if(*status)
+    return;
   n_el=naxes[0];
   matrix=my_malloc(n_el*n_el*sizeof(flouble));
   fits_read_pix(fptr,TDOUBLE,fpixel,naxes[0]*naxes[1],NULL,matrix,NULL,status);
@@ -681,6 +701,8 @@ static nmt_binning_scheme_flat *nmt_binning_scheme_flat_fromhdus(fitsfile *fptr,
 
   fits_movnam_hdu(fptr,BINARY_TBL,"BINS_SUMMARY",0,status);
   fits_get_num_rows(fptr,&nrows,status);
+  if(*status)
+    return NULL;
   b->n_bands=nrows;
   b->ell_0_list=my_malloc(b->n_bands*sizeof(flouble));
   b->ell_f_list=my_malloc(b->n_bands*sizeof(flouble));
@@ -770,6 +792,8 @@ static double **nmt_covar_coeffs_fromhdus(fitsfile *fptr,
 
   fits_movnam_hdu(fptr,IMAGE_HDU,name,0,status);
   fits_get_img_size(fptr,2,naxes,status);
+  if(*status)
+    return NULL;
   n_el=naxes[0];
   if(n_el!=n_expected)
     report_error(NMT_ERROR_INCONSISTENT,"Mistmatching coefficient size\n");
-- 
2.43.0


From bcafc14c9ec1f8baa644b17df1f844e3a519487e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:53 +0000
Subject: [PATCH 20/50] fix: flat-sky modes with negative kx were looked up at
 the wrong ky

---
 src/flatsky_utils.c   | 8 +++++---
 src/nmt_covar_flat.c  | 8 +++++---
 src/nmt_master_flat.c | 8 +++++---
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/flatsky_utils.c b/src/flatsky_utils.c
index 4f8c387..29f2953 100644
--- a/src/flatsky_utils.c
+++ b/src/flatsky_utils.c
@@ -393,21 +393,23 @@ void fs_alm2cl(nmt_flatsky_info *fs,nmt_binning_scheme_flat *bin,
 	  if((ky>=lmn_y) && (ky<=lmx_y))
 	    continue;
 	  for(ix=0;ix<fs->nx;ix++) {
-	    int ix_here;
+	    int ix_here,iy_here;
 	    long index;
 	    flouble kmod,kx;
 	    if(2*ix<=fs->nx) {
 	      kx=ix*dkx;
 	      ix_here=ix;
+	      iy_here=iy;
 	    }
-	    else {
+	    else { //Only kx>=0 is stored: use a(kx,ky)=a^*(-kx,-ky)
 	      kx=-(fs->nx-ix)*dkx;
 	      ix_here=fs->nx-ix;
+	      iy_here=(fs->ny-iy)%fs->ny;
 	    }
 	    if((kx>=lmn_x) && (kx<=lmx_x))
 	      continue;
 
-	    index=ix_here+((long)(fs->nx/2+1))*iy;
+	    index=ix_here+((long)(fs->nx/2+1))*iy_here;
 	    kmod=sqrt(kx*kx+ky*ky);
 	    ik=nmt_bins_flat_search_fast(bin,kmod,ik);
 	    if(ik>=0) {
diff --git a/src/nmt_covar_flat.c b/src/nmt_covar_flat.c
index 6fa3921..0521ae2 100644
--- a/src/nmt_covar_flat.c
+++ b/src/nmt_covar_flat.c
@@ -98,17 +98,19 @@ nmt_covar_workspace_flat *nmt_covar_workspace_flat_init(nmt_field_flat *fla1,nmt
 	ky=-(fs->ny-iy1)*dky;
       for(ix1=0;ix1<fs->nx;ix1++) {
 	flouble kx,kmod,c,s;
-	int ix_here,index_here,index;
+	int ix_here,iy_here,index_here,index;
 	index=ix1+fs->nx*iy1;
 	if(2*ix1<=fs->nx) {
 	  kx=ix1*dkx;
 	  ix_here=ix1;
+	  iy_here=iy1;
 	}
-	else {
+	else { //Only kx>=0 is stored: use a(kx,ky)=a^*(-kx,-ky)
 	  kx=-(fs->nx-ix1)*dkx;
 	  ix_here=fs->nx-ix1;
+	  iy_here=(fs->ny-iy1)%fs->ny;
 	}
-	index_here=ix_here+(fs->nx/2+1)*iy1;
+	index_here=ix_here+(fs->nx/2+1)*iy_here;
 	
 	cl_mask_1122[index]=(creal(cm_a1b1[index_here])*creal(cm_a2b2[index_here])+
 			     cimag(cm_a1b1[index_here])*cimag(cm_a2b2[index_here]));
diff --git a/src/nmt_master_flat.c b/src/nmt_master_flat.c
index 3520ff0..0757f64 100644
--- a/src/nmt_master_flat.c
+++ b/src/nmt_master_flat.c
@@ -180,17 +180,19 @@ nmt_workspace_flat *nmt_compute_coupling_matrix_flat(nmt_field_flat *fl1,nmt_fie
 	ky=-(fs->ny-iy1)*dky;
       for(ix1=0;ix1<fs->nx;ix1++) {
 	flouble kx,kmod,beam1,beam2;
-	int ix_here,index_here,index;
+	int ix_here,iy_here,index_here,index;
 	index=ix1+fs->nx*iy1;
 	if(2*ix1<=fs->nx) {
 	  kx=ix1*dkx;
 	  ix_here=ix1;
+	  iy_here=iy1;
 	}
-	else {
+	else { //Only kx>=0 is stored: use a(kx,ky)=a^*(-kx,-ky)
 	  kx=-(fs->nx-ix1)*dkx;
 	  ix_here=fs->nx-ix1;
+	  iy_here=(fs->ny-iy1)%fs->ny;
 	}
-	index_here=ix_here+(fs->nx/2+1)*iy1;
+	index_here=ix_here+(fs->nx/2+1)*iy_here;
 	
 	maskprod[index]=(creal(cmask1[index_here])*creal(cmask2[index_here])+
 			 cimag(cmask1[index_here])*cimag(cmask2[index_here]));
-- 
2.43.0


From aae01bec2d3e57f6f3c55b0b74991475e4470a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:31 +0000
Subject: [PATCH 21/50] fix: flat-sky purification took wavenumbers in inverse
 pixels, wrong for non-square ones

---
 src/nmt_field_flat.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/nmt_field_flat.c b/src/nmt_field_flat.c
index de5d736..91c96d8 100644
--- a/src/nmt_field_flat.c
+++ b/src/nmt_field_flat.c
@@ -116,8 +116,8 @@ static void walm_x_lpower(nmt_flatsky_info *fs,fcomplex **walm_in,fcomplex **wal
   shared(fs,walm_in,walm_out,power)
   {
     int iy;
-    flouble dkx=2*M_PI/fs->nx;
-    flouble dky=2*M_PI/fs->ny;
+    flouble dkx=2*M_PI/fs->lx;
+    flouble dky=2*M_PI/fs->ly;
 
 #pragma omp for   
     for(iy=0;iy<fs->ny;iy++) {
@@ -190,8 +190,8 @@ void nmt_purify_flat(nmt_field_flat *fl,flouble *mask,fcomplex **walm0,
 #pragma omp parallel default(none) shared(fl,imap,alm_out,palm)
       {
 	int iy;
-	flouble dkx=2*M_PI/fl->fs->nx;
-	flouble dky=2*M_PI/fl->fs->ny;
+	flouble dkx=2*M_PI/fl->fs->lx;
+	flouble dky=2*M_PI/fl->fs->ly;
 	
 #pragma omp for
 	for(iy=0;iy<fl->fs->ny;iy++) {
@@ -228,8 +228,8 @@ void nmt_purify_flat(nmt_field_flat *fl,flouble *mask,fcomplex **walm0,
 #pragma omp parallel default(none) shared(fl,imap,alm_out,palm)
       {
 	int iy;
-	flouble dkx=2*M_PI/fl->fs->nx;
-	flouble dky=2*M_PI/fl->fs->ny;
+	flouble dkx=2*M_PI/fl->fs->lx;
+	flouble dky=2*M_PI/fl->fs->ly;
 	
 #pragma omp for
 	for(iy=0;iy<fl->fs->ny;iy++) {
-- 
2.43.0


From b1318dce5a7e29535438913e2cbbd8a652750c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:05 +0000
Subject: [PATCH 22/50] fix: flat-sky apodization used the x pixel size along y

---
 src/nmt_mask_flat.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nmt_mask_flat.c b/src/nmt_mask_flat.c
index bb29c96..ffe4773 100644
--- a/src/nmt_mask_flat.c
+++ b/src/nmt_mask_flat.c
@@ -24,7 +24,7 @@ static void apodize_mask_CX(nmt_flatsky_info *fs,flouble *mask_in,flouble *mask_
     double x_thr=aporad;
     double inv_x_thr=1./x_thr;
     flouble dx=fs->lx/fs->nx;
-    flouble dy=fs->lx/fs->nx;
+    flouble dy=fs->ly/fs->ny;
     int nx_patch=(int)(1.2*aporad/dx);
     int ny_patch=(int)(1.2*aporad/dy);
     rarr=my_malloc((2*ny_patch+1)*sizeof(flouble *));
@@ -95,7 +95,7 @@ static void apodize_mask_smooth(nmt_flatsky_info *fs,flouble *mask_in,flouble *m
     flouble **rarr;
     double x_thr=2.5*aporad;
     flouble dx=fs->lx/fs->nx;
-    flouble dy=fs->lx/fs->nx;
+    flouble dy=fs->ly/fs->ny;
     int nx_patch=(int)(1.2*x_thr/dx);
     int ny_patch=(int)(1.2*x_thr/dy);
     rarr=my_malloc((2*ny_patch+1)*sizeof(flouble *));
-- 
2.43.0


From e3d2692db074f10cbad2371efa136e40fad38622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:21 +0000
Subject: [PATCH 23/50] fix: pseudo-inverse of singular matrices with null
 maximum eigenvalue

A template that vanishes within the mask led to 1/0 in the pseudo-inverse.
---
 pymaster/utils.py | 2 +-
 src/utils.c       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index b8a717c..9d3a7ca 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -793,7 +793,7 @@ def moore_penrose_pinvh(mat, tol_pinv):
         return np.linalg.inv(mat)
 
     w, v = np.linalg.eigh(mat)
-    goodw = w >= tol_pinv*np.max(w)
+    goodw = (w != 0) & (w >= tol_pinv*np.max(w))
     w_inv = np.zeros_like(w)
     w_inv[goodw] = 1./w[goodw]
     pinv = np.dot(v, np.dot(np.diag(w_inv), v.T))
diff --git a/src/utils.c b/src/utils.c
index 5971ad5..98d62f3 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -362,7 +362,7 @@ void moore_penrose_pinv(gsl_matrix *M,double threshold)
   gsl_matrix_set_zero(M);
   for(ii=0;ii<M->size1;ii++) {
     double v=gsl_vector_get(eval,ii);
-    if(v<threshold*eval_max)
+    if((v==0) || (v<threshold*eval_max))
       gsl_matrix_set(M,ii,ii,0);
     else
       gsl_matrix_set(M,ii,ii,1./v);
-- 
2.43.0


From a3038ca40dc43cb815caf79918ef44de69a82c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:42 +0000
Subject: [PATCH 24/50] fix: HEALPix disc queries reaching around a ring

A conservative range covering all pixels of a ring wrapped onto itself and
returned a single pixel, and inclusive radii above pi shrank the disc, so that
apodization missed nearby masked pixels.
---
 src/healpix_extra.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/healpix_extra.c b/src/healpix_extra.c
index d220180..e7d6f6e 100644
--- a/src/healpix_extra.c
+++ b/src/healpix_extra.c
@@ -325,6 +325,13 @@ void he_in_ring(int nside,int iz,flouble phi0,flouble dphi,
     kshift=1;
   }
 
+  //Inclusive range reaching around the ring
+  shift=0.5*kshift;
+  if(conservative) {
+    if(nint_he(nr*(phi0+dphi)/(2*M_PI)-shift)-nint_he(nr*(phi0-dphi)/(2*M_PI)-shift)>=nr-1)
+      take_all=1;
+  }
+
   //Constructs the pixel list
   if(take_all) {
     *nir=ipix2-ipix1+1;
@@ -336,7 +343,6 @@ void he_in_ring(int nside,int iz,flouble phi0,flouble dphi,
     return;
   }
 
-  shift=0.5*kshift;
   if(conservative) {
     ip_low=nint_he(nr*phi_low/(2*M_PI)-shift);
     ip_hi=nint_he(nr*phi_hi/(2*M_PI)-shift);
@@ -417,6 +423,8 @@ void he_query_disc(int nside,double cth0,double phi,flouble radius,
     radius_eff=radius+1.071*M_PI/(4*((flouble)nside)); //TODO:check this
   else
     radius_eff=radius;
+  if(radius_eff>M_PI)
+    radius_eff=M_PI;
   cosang=cos(radius_eff);
 
   //Circle center
-- 
2.43.0


From 7cc23f52428c367bfd9a561c39db6c2c4e949359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:05 +0000
Subject: [PATCH 25/50] fix: purification of fields with different lmax and
 lmax_mask

The masked maps were transformed up to lmax_mask but their purification
terms up to lmax, so creating the field failed whenever both differ.
---
 pymaster/field.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/pymaster/field.py b/pymaster/field.py
index 2028122..d30f2c6 100644
--- a/pymaster/field.py
+++ b/pymaster/field.py
@@ -472,7 +472,7 @@ class NmtField(object):
         maps = maps_u*mask[None, :]
         # Compute alms
         alms = ut.map2alm(maps, 2, self.minfo,
-                          self.ainfo_mask, n_iter=n_iter)
+                          self.ainfo, n_iter=n_iter)
 
         # 2. Spin-1 mask bit
         # Compute spin-1 mask
@@ -490,12 +490,13 @@ class NmtField(object):
         # 2*sqrt((l+1)!(l-2)!/((l-1)!(l+2)!)) and add to alms
         palm = ut.map2alm(maps, 1, self.minfo,
                           self.ainfo, n_iter=n_iter)
-        fl[2:] = 2/np.sqrt((ls[2:]+2.0)*(ls[2:]-1.0))
-        fl[:2] = 0
+        # The maps may be sampled to a different lmax than the mask
+        lp = np.arange(self.ainfo.lmax+1)
+        flp = np.zeros(self.ainfo.lmax+1)
+        flp[2:] = 2/np.sqrt((lp[2:]+2.0)*(lp[2:]-1.0))
         for ipol, purify in enumerate(task):
             if purify:
-                alms[ipol] += hp.almxfl(palm[ipol],
-                                        fl[:self.ainfo.lmax+1],
+                alms[ipol] += hp.almxfl(palm[ipol], flp,
                                         mmax=self.ainfo.mmax)
 
         # 3. Spin-2 mask bit
@@ -514,13 +515,11 @@ class NmtField(object):
         palm = np.array([ut.map2alm(np.array([m]), 0, self.minfo,
                                     self.ainfo, n_iter=n_iter)[0]
                          for m in maps])
-        fl[2:] = 1/np.sqrt((ls[2:]+2.0)*(ls[2:]+1.0) *
-                           ls[2:]*(ls[2:]-1))
-        fl[:2] = 0
+        flp[2:] = 1/np.sqrt((lp[2:]+2.0)*(lp[2:]+1.0) *
+                            lp[2:]*(lp[2:]-1))
         for ipol, purify in enumerate(task):
             if purify:
-                alms[ipol] += hp.almxfl(palm[ipol],
-                                        fl[:self.ainfo.lmax+1],
+                alms[ipol] += hp.almxfl(palm[ipol], flp,
                                         mmax=self.ainfo.mmax)
 
         if return_maps:
-- 
2.43.0


From 16786917ef71d26ea87727e5371993d558d02e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:24 +0000
Subject: [PATCH 26/50] fix: bring CAR variance maps to internal pixel order in
 uncorr_noise_deprojection_bias

---
 pymaster/workspaces.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index 811d1c5..f491fc0 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -820,8 +820,11 @@ def uncorr_noise_deprojection_bias(f1, map_var, n_iter=None):
     if n_iter is None:
         n_iter = ut.nmt_params.n_iter_default
 
-    # Flatten in case it's a 2D map
-    sig2 = map_var.flatten()
+    # 2D maps must have the same pixel ordering as the field's maps
+    sig2 = map_var
+    if sig2.ndim == 2 and not f1.minfo.is_healpix:
+        sig2 = f1.minfo.reform_map(sig2)
+    sig2 = sig2.flatten()
     if len(sig2) != f1.minfo.npix:
         raise ValueError("Variance map doesn't match map resolution")
 
-- 
2.43.0


From 9b963d93ffb12c2f32f7fd0976cc5c158793d941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:24 +0000
Subject: [PATCH 27/50] fix: symmetrise the cross term of the deprojection
 noise bias

---
 pymaster/workspaces.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index f491fc0..e7d2da1 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -848,8 +848,9 @@ def uncorr_noise_deprojection_bias(f1, map_var, n_iter=None):
             cl = np.array([[hp.alm2cl(a1, a2, lmax=f1.ainfo.lmax)
                             for a1 in fi]
                            for a2 in fj_v_s])
-            pcl_ff[i, j, :, :, :] = cl
-    clb -= 2*np.einsum('ij,ijklm', f1.iM, pcl_ff)
+            # Both orderings of the two maps contribute
+            pcl_ff[i, j, :, :, :] = cl + np.transpose(cl, (1, 0, 2))
+    clb -= np.einsum('ij,ijklm', f1.iM, pcl_ff)
 
     # Second term in Eq. 39 of the namaster paper
     # PCL(fi, fs)
-- 
2.43.0


From 417ae919be27deeb404edf87bc5098b5624f0b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:24 +0000
Subject: [PATCH 28/50] fix: use purified transforms in the deprojection noise
 bias of purified fields

---
 pymaster/workspaces.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index e7d2da1..09db6bc 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -842,8 +842,14 @@ def uncorr_noise_deprojection_bias(f1, map_var, n_iter=None):
                        f1.ainfo.lmax+1))
     for j, fj in enumerate(f1.temp):
         # SHT(v^2 sig^2 f_j)
-        fj_v_s = ut.map2alm(fj*(f1.mask**2*sig2)[None, :], f1.spin,
-                            f1.minfo, f1.ainfo, n_iter=n_iter)
+        if f1.pure_e or f1.pure_b:
+            fj_v_s = f1._purify(f1.mask, f1.get_mask_alms(),
+                                fj*(f1.mask*sig2)[None, :],
+                                n_iter=n_iter, return_maps=False,
+                                task=[f1.pure_e, f1.pure_b])
+        else:
+            fj_v_s = ut.map2alm(fj*(f1.mask**2*sig2)[None, :], f1.spin,
+                                f1.minfo, f1.ainfo, n_iter=n_iter)
         for i, fi in enumerate(f1.alm_temp):
             cl = np.array([[hp.alm2cl(a1, a2, lmax=f1.ainfo.lmax)
                             for a1 in fi]
-- 
2.43.0


From 72bd4bb646bcdddd94228810015b8a0192af885a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:24 +0000
Subject: [PATCH 29/50] fix: maximum multipole of CAR maps lost to rounding

---
 pymaster/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index 9d3a7ca..69771d2 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -433,7 +433,8 @@ class NmtMapInfo(object):
             return 3*self.nside-1
         else:
             dxmin = min(self.d_theta, self.d_phi)
-            return int(np.pi/dxmin)
+            # Tolerance needed if pi/dxmin is an integer up to rounding
+            return int(np.pi/dxmin+1E-4)
 
 
 class NmtAlmInfo(object):
-- 
2.43.0


From 5d4f99a2202edc3759f0eddfc8247e828d9ba204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:24 +0000
Subject: [PATCH 30/50] fix: flat-sky simulations depend only on the seed, not
 on thread scheduling

---
 src/flatsky_utils.c | 50 +++++++++++++++++++++------------------------
 1 file changed, 23 insertions(+), 27 deletions(-)

diff --git a/src/flatsky_utils.c b/src/flatsky_utils.c
index 29f2953..2c1d1a5 100644
--- a/src/flatsky_utils.c
+++ b/src/flatsky_utils.c
@@ -480,22 +480,25 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
   for(imap=0;imap<nmaps;imap++)
     alms[imap]=dftw_malloc(nmodes*sizeof(fcomplex));
 
+  //White noise. All random numbers come from a single stream, so that
+  //they only depend on the seed (and not on the number of threads).
+  long ii;
+  gsl_rng *rng=init_rng((unsigned int)seed);
+  for(ii=0;ii<nmodes;ii++) {
+    for(imap=0;imap<nmaps;imap++) {
+      double dr,di;
+      rng_gauss(rng,&dr,&di);
+      alms[imap][ii]=(fcomplex)(dr+I*di);
+    }
+  }
+  end_rng(rng);
+
   //Switch off error handler for Cholesky decomposition
   gsl_error_handler_t *geh=gsl_set_error_handler_off();
 
-  int numthr=0;
-
 #pragma omp parallel default(none)			\
-  shared(nx,ny,lx,ly,nmaps,cells,beam,seed,alms,numthr)
+  shared(nx,ny,lx,ly,nmaps,cells,beam,alms)
   {
-    //This is to avoid using the omp.h library
-    int ithr;
-#pragma omp critical
-    {
-      ithr=numthr;
-      numthr++;
-    }
-
     int iy;
     double dkx=2*M_PI/lx,dky=2*M_PI/ly;
     double inv_dkvol=1./(dkx*dky);
@@ -507,8 +510,6 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
     gsl_vector *eval =gsl_vector_alloc(nmaps);
     gsl_matrix *evec =gsl_matrix_alloc(nmaps,nmaps); 
     gsl_eigen_symmv_workspace *wsym=gsl_eigen_symmv_alloc(nmaps);
-    unsigned int seed_thr=(unsigned int)(seed+ithr);
-    gsl_rng *rng=init_rng(seed_thr);
     gsl_interp_accel *intacc_cells=gsl_interp_accel_alloc();
     gsl_interp_accel *intacc_beam=gsl_interp_accel_alloc();
 
@@ -525,6 +526,8 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
 	flouble kx=ix*dkx;
 	long index=ix+((long)(nx/2+1))*iy;
 	flouble kmod=sqrt(kx*kx+ky*ky);
+	if((ix==0) && (iy>ny/2))
+	  continue; //These are set below from their complex conjugates
 	if(kmod<0) {
 	  for(imp1=0;imp1<nmaps;imp1++)
 	    alms[imp1][index]=0;
@@ -545,10 +548,8 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
 	  //Take square root
 	  gsl_eigen_symmv(clmat,eval,evec,wsym);
 	  for(imp1=0;imp1<nmaps;imp1++) {
-	    double dr,di; //At the same time get white random numbers
-	    rng_gauss(rng,&dr,&di);
-	    gsl_vector_set(rv1,imp1,dr);
-	    gsl_vector_set(iv1,imp1,di);
+	    gsl_vector_set(rv1,imp1,creal(alms[imp1][index]));
+	    gsl_vector_set(iv1,imp1,cimag(alms[imp1][index]));
 	    for(imp2=0;imp2<nmaps;imp2++) {
 	      double oij=gsl_matrix_get(evec,imp1,imp2);
 	      double lambda=gsl_vector_get(eval,imp2);
@@ -566,16 +567,12 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
 	    flouble a_re=bm*gsl_vector_get(rv2,imp1);
 	    flouble a_im=bm*gsl_vector_get(iv2,imp1);
 	    if(ix==0) {
-	      if(iy>ny/2)
-		continue;
+	      if(iy==0)
+		alms[imp1][index]=(fcomplex)(M_SQRT2*a_re+I*0*a_im);
 	      else {
-		if(iy==0)
-		  alms[imp1][index]=(fcomplex)(M_SQRT2*a_re+I*0*a_im);
-		else {
-		  int iyy=ny-iy;
-		  alms[imp1][index]=(fcomplex)(a_re+I*a_im);
-		  alms[imp1][ix+((long)(nx/2+1))*iyy]=(fcomplex)(a_re-I*a_im);
-		}
+		int iyy=ny-iy;
+		alms[imp1][index]=(fcomplex)(a_re+I*a_im);
+		alms[imp1][ix+((long)(nx/2+1))*iyy]=(fcomplex)(a_re-I*a_im);
 	      }
 	    }
 	    else
@@ -592,7 +589,6 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
     gsl_vector_free(eval);
     gsl_matrix_free(evec);
     gsl_eigen_symmv_free(wsym);
-    end_rng(rng);
     gsl_interp_accel_free(intacc_cells);
     gsl_interp_accel_free(intacc_beam);
   } //omp end parallel
-- 
2.43.0


From 86149ab61a131d5b65ce12ac77a1b53a4ff1225e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:24 +0000
Subject: [PATCH 31/50] fix: Nyquist modes of flat-sky simulations had half of
 their power

---
 src/flatsky_utils.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/flatsky_utils.c b/src/flatsky_utils.c
index 2c1d1a5..5ecf836 100644
--- a/src/flatsky_utils.c
+++ b/src/flatsky_utils.c
@@ -526,7 +526,9 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
 	flouble kx=ix*dkx;
 	long index=ix+((long)(nx/2+1))*iy;
 	flouble kmod=sqrt(kx*kx+ky*ky);
-	if((ix==0) && (iy>ny/2))
+	//Columns that contain their own complex conjugates
+	int self_col=(ix==0) || (2*ix==nx);
+	if(self_col && (2*iy>ny))
 	  continue; //These are set below from their complex conjugates
 	if(kmod<0) {
 	  for(imp1=0;imp1<nmaps;imp1++)
@@ -566,8 +568,8 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
 	    flouble bm=nmt_k_function_eval(beam[imp1],kmod,intacc_beam);
 	    flouble a_re=bm*gsl_vector_get(rv2,imp1);
 	    flouble a_im=bm*gsl_vector_get(iv2,imp1);
-	    if(ix==0) {
-	      if(iy==0)
+	    if(self_col) {
+	      if((iy==0) || (2*iy==ny))
 		alms[imp1][index]=(fcomplex)(M_SQRT2*a_re+I*0*a_im);
 	      else {
 		int iyy=ny-iy;
-- 
2.43.0


From 59003cece6b1167d6252839d06765296b209f695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:24 +0000
Subject: [PATCH 32/50] fix: use the seed in synfast_spherical

---
 pymaster/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index 69771d2..2236e76 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -651,7 +651,10 @@ def synfast_spherical(nside, cls, spin_arr, beam=None, seed=-1,
     # 1. Generate alms
     # Note that, if `new=False` stops being allowed in healpy, we'll need
     # to change the Cl ordering.
+    rng_state = np.random.get_state()
+    np.random.seed(seed)
     alms = np.array(hp.synalm(cls, lmax=lmax, mmax=lmax, new=False))
+    np.random.set_state(rng_state)
 
     # 2. Multiply by beam
     if beam is not None:
-- 
2.43.0


From d3a8604789b155b67bd86d9a70adb6cdce02be77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:10 +0000
Subject: [PATCH 33/50] fix: unsynchronised writes to the mask in flat-sky
 Smooth apodization

---
 src/nmt_mask_flat.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nmt_mask_flat.c b/src/nmt_mask_flat.c
index ffe4773..c039cac 100644
--- a/src/nmt_mask_flat.c
+++ b/src/nmt_mask_flat.c
@@ -125,6 +125,7 @@ static void apodize_mask_smooth(nmt_flatsky_info *fs,flouble *mask_in,flouble *m
 	      if(ix+ixx-nx_patch>=fs->nx) break;
 	      if(rarr[iyy][ixx]<=x_thr) {
 		int index2=ix+ixx-nx_patch+fs->nx*(iy+iyy-ny_patch);
+#pragma omp atomic
 		mask_dum[index2]*=0;
 	      }
 	    }
-- 
2.43.0


From c698766af9c5a0a499266e346b4bb43afaf6fabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:11 +0000
Subject: [PATCH 34/50] fix: negative bandpower, map and template indices read
 outside the arrays

---
 pymaster/namaster.i      | 12 ++++++------
 pymaster/namaster_wrap.c | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/pymaster/namaster.i b/pymaster/namaster.i
index 710d208..d34650e 100644
--- a/pymaster/namaster.i
+++ b/pymaster/namaster.i
@@ -75,14 +75,14 @@ void get_nell_list(nmt_binning_scheme *bins,int *iout,int niout)
 
 int get_nell(nmt_binning_scheme *bins,int ibin)
 {
-  asserting(ibin<bins->n_bands);
+  asserting((ibin>=0) && (ibin<bins->n_bands));
   
   return bins->nell_list[ibin];
 }
 
 void get_ell_list(nmt_binning_scheme *bins,int ibin,int *iout,int niout)
 {
-  asserting(ibin<bins->n_bands);
+  asserting((ibin>=0) && (ibin<bins->n_bands));
   asserting(bins->nell_list[ibin]==niout);
 
   memcpy(iout,bins->ell_list[ibin],bins->nell_list[ibin]*sizeof(int));
@@ -90,7 +90,7 @@ void get_ell_list(nmt_binning_scheme *bins,int ibin,int *iout,int niout)
 
 void get_weight_list(nmt_binning_scheme *bins,int ibin,double *dout,int ndout)
 {
-  asserting(ibin<bins->n_bands);
+  asserting((ibin>=0) && (ibin<bins->n_bands));
   asserting(bins->nell_list[ibin]==ndout);
 
   memcpy(dout,bins->w_list[ibin],bins->nell_list[ibin]*sizeof(double));
@@ -341,15 +341,15 @@ void get_mask_flat(nmt_field_flat *fl,double *dout,int ndout)
 
 void get_map_flat(nmt_field_flat *fl,int imap,double *dout,int ndout)
 {
-  asserting(imap<fl->nmaps);
+  asserting((imap>=0) && (imap<fl->nmaps));
   asserting(ndout==fl->npix);
   memcpy(dout,fl->maps[imap],fl->npix*sizeof(double));
 }
 
 void get_temp_flat(nmt_field_flat *fl,int itemp,int imap,double *dout,int ndout)
 {
-  asserting(itemp<fl->ntemp);
-  asserting(imap<fl->nmaps);
+  asserting((itemp>=0) && (itemp<fl->ntemp));
+  asserting((imap>=0) && (imap<fl->nmaps));
   asserting(ndout==fl->npix);
   memcpy(dout,fl->temp[itemp][imap],fl->npix*sizeof(double));
 }
diff --git a/pymaster/namaster_wrap.c b/pymaster/namaster_wrap.c
index 8bfc6d7..2ed26bc 100644
--- a/pymaster/namaster_wrap.c
+++ b/pymaster/namaster_wrap.c
@@ -3042,14 +3042,14 @@ void get_nell_list(nmt_binning_scheme *bins,int *iout,int niout)
 
 int get_nell(nmt_binning_scheme *bins,int ibin)
 {
-  asserting(ibin<bins->n_bands);
+  asserting((ibin>=0) && (ibin<bins->n_bands));
   
   return bins->nell_list[ibin];
 }
 
 void get_ell_list(nmt_binning_scheme *bins,int ibin,int *iout,int niout)
 {
-  asserting(ibin<bins->n_bands);
+  asserting((ibin>=0) && (ibin<bins->n_bands));
   asserting(bins->nell_list[ibin]==niout);
 
   memcpy(iout,bins->ell_list[ibin],bins->nell_list[ibin]*sizeof(int));
@@ -3057,7 +3057,7 @@ void get_ell_list(nmt_binning_scheme *bins,int ibin,int *iout,int niout)
 
 void get_weight_list(nmt_binning_scheme *bins,int ibin,double *dout,int ndout)
 {
-  asserting(ibin<bins->n_bands);
+  asserting((ibin>=0) && (ibin<bins->n_bands));
   asserting(bins->nell_list[ibin]==ndout);
 
   memcpy(dout,bins->w_list[ibin],bins->nell_list[ibin]*sizeof(double));
@@ -3308,15 +3308,15 @@ void get_mask_flat(nmt_field_flat *fl,double *dout,int ndout)
 
 void get_map_flat(nmt_field_flat *fl,int imap,double *dout,int ndout)
 {
-  asserting(imap<fl->nmaps);
+  asserting((imap>=0) && (imap<fl->nmaps));
   asserting(ndout==fl->npix);
   memcpy(dout,fl->maps[imap],fl->npix*sizeof(double));
 }
 
 void get_temp_flat(nmt_field_flat *fl,int itemp,int imap,double *dout,int ndout)
 {
-  asserting(itemp<fl->ntemp);
-  asserting(imap<fl->nmaps);
+  asserting((itemp>=0) && (itemp<fl->ntemp));
+  asserting((imap>=0) && (imap<fl->nmaps));
   asserting(ndout==fl->npix);
   memcpy(dout,fl->temp[itemp][imap],fl->npix*sizeof(double));
 }
-- 
2.43.0


From 411e7d63dc5ddf2ce578f1c7eeb1562c7177f490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:11 +0000
Subject: [PATCH 35/50] fix: bandpowers with negative multipoles read outside
 the power spectra

---
 src/nmt_bins.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nmt_bins.c b/src/nmt_bins.c
index ea24dcd..3e23188 100644
--- a/src/nmt_bins.c
+++ b/src/nmt_bins.c
@@ -76,8 +76,11 @@ nmt_binning_scheme *nmt_bins_create(int nell,int *bpws,int *ells,flouble *weight
 
   for(ii=0;ii<nell;ii++) {
     if(ells[ii]<=lmax) {
-      if(bpws[ii]>=0)
+      if(bpws[ii]>=0) {
+	if(ells[ii]<0)
+	  report_error(NMT_ERROR_VALUE,"Multipoles in bandpowers must not be negative\n");
 	bins->nell_list[bpws[ii]]++;
+      }
     }
   }
 
-- 
2.43.0


From e299852fe1efad238b1f0e0c6ae68fa6a75ec683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:04 +0000
Subject: [PATCH 36/50] fix: bin_cl and unbin_cl do not check the number of
 multipoles

---
 pymaster/namaster.i      | 4 +++-
 pymaster/namaster_wrap.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pymaster/namaster.i b/pymaster/namaster.i
index d34650e..6a81333 100644
--- a/pymaster/namaster.i
+++ b/pymaster/namaster.i
@@ -160,6 +160,7 @@ void bin_cl(nmt_binning_scheme *bins,
 	    double *dout,int ndout)
 {
   int i;
+  asserting(nell1==bins->ell_max+1);
   asserting(ndout==ncl1*bins->n_bands);
   double **cls_in,**cls_out;
   cls_in=malloc(ncl1*sizeof(double *));
@@ -198,8 +199,9 @@ void unbin_cl(nmt_binning_scheme *bins,
 	      double *dout,int ndout)
 {
   int i;
-  int nellout=ndout/ncl1;
+  int nellout=bins->ell_max+1;
   asserting(nell1==bins->n_bands);
+  asserting(ndout==ncl1*nellout);
   double **cls_in,**cls_out;
   cls_in=malloc(ncl1*sizeof(double *));
   cls_out=malloc(ncl1*sizeof(double *));
diff --git a/pymaster/namaster_wrap.c b/pymaster/namaster_wrap.c
index 2ed26bc..9a5c6b5 100644
--- a/pymaster/namaster_wrap.c
+++ b/pymaster/namaster_wrap.c
@@ -3127,6 +3127,7 @@ void bin_cl(nmt_binning_scheme *bins,
 	    double *dout,int ndout)
 {
   int i;
+  asserting(nell1==bins->ell_max+1);
   asserting(ndout==ncl1*bins->n_bands);
   double **cls_in,**cls_out;
   cls_in=malloc(ncl1*sizeof(double *));
@@ -3165,8 +3166,9 @@ void unbin_cl(nmt_binning_scheme *bins,
 	      double *dout,int ndout)
 {
   int i;
-  int nellout=ndout/ncl1;
+  int nellout=bins->ell_max+1;
   asserting(nell1==bins->n_bands);
+  asserting(ndout==ncl1*nellout);
   double **cls_in,**cls_out;
   cls_in=malloc(ncl1*sizeof(double *));
   cls_out=malloc(ncl1*sizeof(double *));
-- 
2.43.0


From 396298634f702dd7bb2441da3e4eb7cc721a2e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:04 +0000
Subject: [PATCH 37/50] fix: flat fields do not check the numbers of maps and
 of beam multipoles

---
 pymaster/namaster.i      | 4 +++-
 pymaster/namaster_wrap.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pymaster/namaster.i b/pymaster/namaster.i
index 6a81333..c77d35c 100644
--- a/pymaster/namaster.i
+++ b/pymaster/namaster.i
@@ -244,6 +244,7 @@ nmt_field_flat *field_alloc_empty_flat(int nx,int ny,double lx,double ly,int spi
   nmt_field_flat *fl;
   asserting(npix_1==nx*ny);
   asserting(ncl1==2);
+  asserting(nell1>0);
   asserting(lx>0);
   asserting(ly>0);
 
@@ -276,9 +277,10 @@ nmt_field_flat *field_alloc_new_flat(int nx,int ny,double lx,double ly,int spin,
   double ***temp=NULL;
   nmt_field_flat *fl;
   asserting(npix_1==npix_2);
-  asserting((nmap_2==1) || (nmap_2==2));
+  asserting(nmap_2==(spin ? 2 : 1));
   asserting(npix_1==nx*ny);
   asserting(ncl1==2);
+  asserting(nell1>0);
   asserting(lx>0);
   asserting(ly>0);
 
diff --git a/pymaster/namaster_wrap.c b/pymaster/namaster_wrap.c
index 9a5c6b5..b785b44 100644
--- a/pymaster/namaster_wrap.c
+++ b/pymaster/namaster_wrap.c
@@ -3211,6 +3211,7 @@ nmt_field_flat *field_alloc_empty_flat(int nx,int ny,double lx,double ly,int spi
   nmt_field_flat *fl;
   asserting(npix_1==nx*ny);
   asserting(ncl1==2);
+  asserting(nell1>0);
   asserting(lx>0);
   asserting(ly>0);
 
@@ -3243,9 +3244,10 @@ nmt_field_flat *field_alloc_new_flat(int nx,int ny,double lx,double ly,int spin,
   double ***temp=NULL;
   nmt_field_flat *fl;
   asserting(npix_1==npix_2);
-  asserting((nmap_2==1) || (nmap_2==2));
+  asserting(nmap_2==(spin ? 2 : 1));
   asserting(npix_1==nx*ny);
   asserting(ncl1==2);
+  asserting(nell1>0);
   asserting(lx>0);
   asserting(ly>0);
 
-- 
2.43.0


From 28d240ef8d8aca291c02527e7f495029ef804204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:04 +0000
Subject: [PATCH 38/50] fix: synfast_new_flat does not check the size of its
 output

---
 pymaster/namaster.i      | 1 +
 pymaster/namaster_wrap.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pymaster/namaster.i b/pymaster/namaster.i
index c77d35c..f4b8d24 100644
--- a/pymaster/namaster.i
+++ b/pymaster/namaster.i
@@ -408,6 +408,7 @@ void synfast_new_flat(int nx,int ny,double lx,double ly,
   asserting(ncl2==nfields);
   asserting(ncl1==(nmaps*(nmaps+1))/2);
   asserting(nell1==nell2);
+  asserting(ndout==nmaps*npix);
   
   cls=malloc(ncl1*sizeof(double *));
   for(icl=0;icl<ncl1;icl++)
diff --git a/pymaster/namaster_wrap.c b/pymaster/namaster_wrap.c
index b785b44..10fb090 100644
--- a/pymaster/namaster_wrap.c
+++ b/pymaster/namaster_wrap.c
@@ -3375,6 +3375,7 @@ void synfast_new_flat(int nx,int ny,double lx,double ly,
   asserting(ncl2==nfields);
   asserting(ncl1==(nmaps*(nmaps+1))/2);
   asserting(nell1==nell2);
+  asserting(ndout==nmaps*npix);
   
   cls=malloc(ncl1*sizeof(double *));
   for(icl=0;icl<ncl1;icl++)
-- 
2.43.0


From 7ab5f9b36a9ebd93cabb9cb72548ea7db0970325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:04 +0000
Subject: [PATCH 39/50] fix: get_mcm does not check the size of its output

---
 pymaster/namaster.i      | 6 ++++--
 pymaster/namaster_wrap.c | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pymaster/namaster.i b/pymaster/namaster.i
index f4b8d24..78abde2 100644
--- a/pymaster/namaster.i
+++ b/pymaster/namaster.i
@@ -136,12 +136,14 @@ void get_bandpower_windows(nmt_workspace *w,double *dout,int ndout)
 
 void get_mcm(nmt_workspace *w,double *ldout,long nldout)
 {
-  int ii,nrows=(w->lmax+1)*w->ncls;
+  int ii;
+  long nrows=(w->lmax+1)*w->ncls;
+  asserting(nldout==nrows*nrows);
 
   for(ii=0;ii<nrows;ii++) {
     int jj;
     for(jj=0;jj<nrows;jj++) {
-      long index=(long)(ii*nrows)+jj;
+      long index=ii*nrows+jj;
       ldout[index]=w->coupling_matrix_unbinned[ii][jj];
     }
   }
diff --git a/pymaster/namaster_wrap.c b/pymaster/namaster_wrap.c
index 10fb090..56b14fd 100644
--- a/pymaster/namaster_wrap.c
+++ b/pymaster/namaster_wrap.c
@@ -3103,12 +3103,14 @@ void get_bandpower_windows(nmt_workspace *w,double *dout,int ndout)
 
 void get_mcm(nmt_workspace *w,double *ldout,long nldout)
 {
-  int ii,nrows=(w->lmax+1)*w->ncls;
+  int ii;
+  long nrows=(w->lmax+1)*w->ncls;
+  asserting(nldout==nrows*nrows);
 
   for(ii=0;ii<nrows;ii++) {
     int jj;
     for(jj=0;jj<nrows;jj++) {
-      long index=(long)(ii*nrows)+jj;
+      long index=ii*nrows+jj;
       ldout[index]=w->coupling_matrix_unbinned[ii][jj];
     }
   }
-- 
2.43.0


From 95809c0a7e14f459294b9de4655a863b8a97adc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:45 +0000
Subject: [PATCH 40/50] fix: Gaussian covariances do not check the sizes of the
 input spectra and of the output

---
 pymaster/namaster.i      | 17 +++++++++++++++++
 pymaster/namaster_wrap.c | 17 +++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/pymaster/namaster.i b/pymaster/namaster.i
index 78abde2..abc1684 100644
--- a/pymaster/namaster.i
+++ b/pymaster/namaster.i
@@ -622,6 +622,12 @@ void comp_gaussian_covariance(nmt_covar_workspace *cw,
   asserting(nell11==nell12);
   asserting(nell11==nell21);
   asserting(nell11==nell22);
+  asserting(nell11>cw->lmax);
+  asserting(ncl11==(spin_a1 ? 2 : 1)*(spin_b1 ? 2 : 1));
+  asserting(ncl12==(spin_a1 ? 2 : 1)*(spin_b2 ? 2 : 1));
+  asserting(ncl21==(spin_a2 ? 2 : 1)*(spin_b1 ? 2 : 1));
+  asserting(ncl22==(spin_a2 ? 2 : 1)*(spin_b2 ? 2 : 1));
+  asserting(ndout==(long)wa->ncls*wa->bin->n_bands*wb->ncls*wb->bin->n_bands);
   int i;
   double **c11p=malloc(ncl11*sizeof(double *));
   for(i=0;i<ncl11;i++)
@@ -652,6 +658,12 @@ void comp_gaussian_covariance_coupled(nmt_covar_workspace *cw,
   asserting(nell11==nell12);
   asserting(nell11==nell21);
   asserting(nell11==nell22);
+  asserting(nell11>cw->lmax);
+  asserting(ncl11==(spin_a1 ? 2 : 1)*(spin_b1 ? 2 : 1));
+  asserting(ncl12==(spin_a1 ? 2 : 1)*(spin_b2 ? 2 : 1));
+  asserting(ncl21==(spin_a2 ? 2 : 1)*(spin_b1 ? 2 : 1));
+  asserting(ncl22==(spin_a2 ? 2 : 1)*(spin_b2 ? 2 : 1));
+  asserting(ndout==(long)wa->ncls*(wa->lmax+1)*wb->ncls*(wb->lmax+1));
   int i;
   double **c11p=malloc(ncl11*sizeof(double *));
   for(i=0;i<ncl11;i++)
@@ -684,6 +696,11 @@ void comp_gaussian_covariance_flat(nmt_covar_workspace_flat *cw,
   asserting(nell11==nell12);
   asserting(nell11==nell21);
   asserting(nell11==nell22);
+  asserting(ncl11==(spin_a1 ? 2 : 1)*(spin_b1 ? 2 : 1));
+  asserting(ncl12==(spin_a1 ? 2 : 1)*(spin_b2 ? 2 : 1));
+  asserting(ncl21==(spin_a2 ? 2 : 1)*(spin_b1 ? 2 : 1));
+  asserting(ncl22==(spin_a2 ? 2 : 1)*(spin_b2 ? 2 : 1));
+  asserting(ndout==(long)wa->ncls*wa->bin->n_bands*wb->ncls*wb->bin->n_bands);
   int i;
   double **c11p=malloc(ncl11*sizeof(double *));
   for(i=0;i<ncl11;i++)
diff --git a/pymaster/namaster_wrap.c b/pymaster/namaster_wrap.c
index 56b14fd..939ade7 100644
--- a/pymaster/namaster_wrap.c
+++ b/pymaster/namaster_wrap.c
@@ -3589,6 +3589,12 @@ void comp_gaussian_covariance(nmt_covar_workspace *cw,
   asserting(nell11==nell12);
   asserting(nell11==nell21);
   asserting(nell11==nell22);
+  asserting(nell11>cw->lmax);
+  asserting(ncl11==(spin_a1 ? 2 : 1)*(spin_b1 ? 2 : 1));
+  asserting(ncl12==(spin_a1 ? 2 : 1)*(spin_b2 ? 2 : 1));
+  asserting(ncl21==(spin_a2 ? 2 : 1)*(spin_b1 ? 2 : 1));
+  asserting(ncl22==(spin_a2 ? 2 : 1)*(spin_b2 ? 2 : 1));
+  asserting(ndout==(long)wa->ncls*wa->bin->n_bands*wb->ncls*wb->bin->n_bands);
   int i;
   double **c11p=malloc(ncl11*sizeof(double *));
   for(i=0;i<ncl11;i++)
@@ -3619,6 +3625,12 @@ void comp_gaussian_covariance_coupled(nmt_covar_workspace *cw,
   asserting(nell11==nell12);
   asserting(nell11==nell21);
   asserting(nell11==nell22);
+  asserting(nell11>cw->lmax);
+  asserting(ncl11==(spin_a1 ? 2 : 1)*(spin_b1 ? 2 : 1));
+  asserting(ncl12==(spin_a1 ? 2 : 1)*(spin_b2 ? 2 : 1));
+  asserting(ncl21==(spin_a2 ? 2 : 1)*(spin_b1 ? 2 : 1));
+  asserting(ncl22==(spin_a2 ? 2 : 1)*(spin_b2 ? 2 : 1));
+  asserting(ndout==(long)wa->ncls*(wa->lmax+1)*wb->ncls*(wb->lmax+1));
   int i;
   double **c11p=malloc(ncl11*sizeof(double *));
   for(i=0;i<ncl11;i++)
@@ -3651,6 +3663,11 @@ void comp_gaussian_covariance_flat(nmt_covar_workspace_flat *cw,
   asserting(nell11==nell12);
   asserting(nell11==nell21);
   asserting(nell11==nell22);
+  asserting(ncl11==(spin_a1 ? 2 : 1)*(spin_b1 ? 2 : 1));
+  asserting(ncl12==(spin_a1 ? 2 : 1)*(spin_b2 ? 2 : 1));
+  asserting(ncl21==(spin_a2 ? 2 : 1)*(spin_b1 ? 2 : 1));
+  asserting(ncl22==(spin_a2 ? 2 : 1)*(spin_b2 ? 2 : 1));
+  asserting(ndout==(long)wa->ncls*wa->bin->n_bands*wb->ncls*wb->bin->n_bands);
   int i;
   double **c11p=malloc(ncl11*sizeof(double *));
   for(i=0;i<ncl11;i++)
-- 
2.43.0


From f55cb3b489ef3e2af4abf6157e5b1f46bdf24a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:45 +0000
Subject: [PATCH 41/50] fix: compute_full_master_flat uses workspaces for other
 spins or bandpowers

---
 src/nmt_bins_flat.c   | 13 +++++++++++++
 src/nmt_master_flat.c |  4 +++-
 src/utils.h           |  9 +++++++++
 3 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/nmt_bins_flat.c b/src/nmt_bins_flat.c
index 8322f78..c198706 100644
--- a/src/nmt_bins_flat.c
+++ b/src/nmt_bins_flat.c
@@ -105,6 +105,19 @@ void nmt_unbin_cls_flat(nmt_binning_scheme_flat *bin,flouble **cls_in,
   }
 }
 
+int nmt_bins_flat_differ(nmt_binning_scheme_flat *b1,nmt_binning_scheme_flat *b2)
+{
+  int ib;
+
+  if(b1->n_bands!=b2->n_bands)
+    return 1;
+  for(ib=0;ib<b1->n_bands;ib++) {
+    if((b1->ell_0_list[ib]!=b2->ell_0_list[ib]) || (b1->ell_f_list[ib]!=b2->ell_f_list[ib]))
+      return 1;
+  }
+  return 0;
+}
+
 void nmt_ell_eff_flat(nmt_binning_scheme_flat *bin,flouble *larr)
 {
   int ib;
diff --git a/src/nmt_master_flat.c b/src/nmt_master_flat.c
index 0757f64..95dca80 100644
--- a/src/nmt_master_flat.c
+++ b/src/nmt_master_flat.c
@@ -927,8 +927,10 @@ nmt_workspace_flat *nmt_compute_power_spectra_flat(nmt_field_flat *fl1,nmt_field
     w=w0;
     if((check_flatsky_infos(fl1->fs,w->fs)) || (check_flatsky_infos(fl2->fs,w->fs)))
       report_error(NMT_ERROR_CONSISTENT_RESO,"Input workspace has different pixels!\n");
-    if(bin->n_bands!=w->bin->n_bands)
+    if(nmt_bins_flat_differ(bin,w->bin))
       report_error(NMT_ERROR_CONSISTENT_RESO,"Input workspace has different bandpowers!\n");
+    if((w->is_teb) || (w->ncls!=fl1->nmaps*fl2->nmaps))
+      report_error(NMT_ERROR_INCONSISTENT,"Input workspace was computed for fields with other spins!\n");
   }
 
   cl_bias=my_malloc(w->ncls*sizeof(flouble *));
diff --git a/src/utils.h b/src/utils.h
index b324ac6..5db5d49 100644
--- a/src/utils.h
+++ b/src/utils.h
@@ -492,6 +492,15 @@ void he_map_product(long nside,flouble *mp1,flouble *mp2,flouble *mp_out);
  */
 flouble he_map_dot(long nside,flouble *mp1,flouble *mp2);
 
+/**
+ * @brief Checks whether two flat-sky binning schemes have different bandpowers.
+ *
+ * @param b1 First binning scheme.
+ * @param b2 Second binning scheme.
+ * @return 1 if the number of bandpowers or any of their edges differ, 0 otherwise.
+ */
+int nmt_bins_flat_differ(nmt_binning_scheme_flat *b1,nmt_binning_scheme_flat *b2);
+
 int cov_get_coupling_pair_index(int na,int nc,int nb,int nd,
 				int ia1,int ia2,int ic1,int ic2,
 				int ib1,int ib2,int id1,int id2);
-- 
2.43.0


From 4d9e4cda28647f076c0325ef08649909150be273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:45 +0000
Subject: [PATCH 42/50] fix: flat-sky covariances mix patches of different
 sizes or different bandpowers

---
 src/nmt_covar_flat.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/nmt_covar_flat.c b/src/nmt_covar_flat.c
index 0521ae2..cfa7b7b 100644
--- a/src/nmt_covar_flat.c
+++ b/src/nmt_covar_flat.c
@@ -33,10 +33,13 @@ nmt_covar_workspace_flat *nmt_covar_workspace_flat_init(nmt_field_flat *fla1,nmt
   
   if((fla1->fs->nx!=fla2->fs->nx) || (fla1->fs->ny!=fla2->fs->ny) ||
      (fla1->fs->nx!=flb1->fs->nx) || (fla1->fs->ny!=flb1->fs->ny) ||     
-     (fla1->fs->nx!=flb2->fs->nx) || (fla1->fs->ny!=flb2->fs->ny))
+     (fla1->fs->nx!=flb2->fs->nx) || (fla1->fs->ny!=flb2->fs->ny) ||
+     (fla1->fs->lx!=fla2->fs->lx) || (fla1->fs->ly!=fla2->fs->ly) ||
+     (fla1->fs->lx!=flb1->fs->lx) || (fla1->fs->ly!=flb1->fs->ly) ||
+     (fla1->fs->lx!=flb2->fs->lx) || (fla1->fs->ly!=flb2->fs->ly))
     report_error(NMT_ERROR_COVAR,"Can't compute covariance for fields with different resolutions\n");
   nmt_flatsky_info *fs=fla1->fs;
-  if(ba->n_bands!=bb->n_bands)
+  if(nmt_bins_flat_differ(ba,bb))
     report_error(NMT_ERROR_COVAR,"Can't compute covariance for different binning schemes\n");
 
   nmt_covar_workspace_flat *cw=my_malloc(sizeof(nmt_covar_workspace_flat));
@@ -321,7 +324,7 @@ void nmt_compute_gaussian_covariance_flat(nmt_covar_workspace_flat *cw,
 					  flouble **clac,flouble **clad,
 					  flouble **clbc,flouble **clbd,flouble *covar_out)
 {
-  if((wa->bin->n_bands!=cw->bin->n_bands) || (wb->bin->n_bands!=cw->bin->n_bands))
+  if((nmt_bins_flat_differ(wa->bin,cw->bin)) || (nmt_bins_flat_differ(wb->bin,cw->bin)))
     report_error(NMT_ERROR_COVAR,"Coupling coefficients were computed for a different binning scheme\n");
 
   int nmaps_a=spin_a ? 2 : 1;
-- 
2.43.0


From 731702b6c666f6c39e50e6467bb4b3e928cfcd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:17 +0000
Subject: [PATCH 43/50] fix: workspaces lose their contents when they cannot be
 recomputed or read

---
 pymaster/covariance.py | 52 +++++++++++++++++++++---------------------
 pymaster/workspaces.py | 38 +++++++++++++++---------------
 2 files changed, 45 insertions(+), 45 deletions(-)

diff --git a/pymaster/covariance.py b/pymaster/covariance.py
index 49e9f9c..da0b5c0 100644
--- a/pymaster/covariance.py
+++ b/pymaster/covariance.py
@@ -145,6 +145,12 @@ class NmtCovarianceWorkspace(object):
                 lib.covar_workspace_free(self.wsp)
             self.wsp = None
 
+    def _set_wsp(self, wsp):
+        # The old workspace is only discarded once the new one is ready
+        if self.wsp is not None:
+            lib.covar_workspace_free(self.wsp)
+        self.wsp = wsp
+
     def read_from(self, fname, force_spin0_only=False):
         """ Reads the contents of an :obj:`NmtCovarianceWorkspace`
         object from a FITS file.
@@ -155,11 +161,8 @@ class NmtCovarianceWorkspace(object):
                 combinations of the mode-coupling coefficients will
                 be read and stored.
         """
-        if self.wsp is not None:
-            lib.covar_workspace_free(self.wsp)
-            self.wsp = None
-        self.wsp = lib.read_covar_workspace(fname,
-                                            int(force_spin0_only))
+        self._set_wsp(lib.read_covar_workspace(fname,
+                                               int(force_spin0_only)))
 
     def compute_coupling_coefficients(self, fla1, fla2,
                                       flb1=None, flb2=None, *,
@@ -220,10 +223,6 @@ class NmtCovarianceWorkspace(object):
         ut._toeplitz_sanity(l_toeplitz, l_exact, dl_band,
                             fla1.ainfo.lmax, fla1, flb1)
 
-        if self.wsp is not None:
-            lib.covar_workspace_free(self.wsp)
-            self.wsp = None
-
         def get_mask_prod_cl(f1_p1, f2_p1, f1_p2, f2_p2):
             mask_p1 = f1_p1.get_mask()*f2_p1.get_mask()
             alm_p1 = ut.map2alm(np.array([mask_p1]), 0,
@@ -237,12 +236,13 @@ class NmtCovarianceWorkspace(object):
 
         pcl_mask_11_22 = get_mask_prod_cl(fla1, flb1, fla2, flb2)
         pcl_mask_12_21 = get_mask_prod_cl(fla1, flb2, fla2, flb1)
-        self.wsp = lib.covar_workspace_init_py(pcl_mask_11_22,
-                                               pcl_mask_12_21,
-                                               int(fla1.ainfo.lmax),
-                                               int(fla1.ainfo_mask.lmax),
-                                               l_toeplitz, l_exact, dl_band,
-                                               int(spin0_only))
+        wsp = lib.covar_workspace_init_py(pcl_mask_11_22,
+                                          pcl_mask_12_21,
+                                          int(fla1.ainfo.lmax),
+                                          int(fla1.ainfo_mask.lmax),
+                                          l_toeplitz, l_exact, dl_band,
+                                          int(spin0_only))
+        self._set_wsp(wsp)
 
     def write_to(self, fname):
         """ Writes the contents of an :obj:`NmtCovarianceWorkspace`
@@ -274,6 +274,12 @@ class NmtCovarianceWorkspaceFlat(object):
                 lib.covar_workspace_flat_free(self.wsp)
             self.wsp = None
 
+    def _set_wsp(self, wsp):
+        # The old workspace is only discarded once the new one is ready
+        if self.wsp is not None:
+            lib.covar_workspace_flat_free(self.wsp)
+        self.wsp = wsp
+
     def read_from(self, fname):
         """ Reads the contents of an :obj:`NmtCovarianceWorkspaceFlat`
         object from a FITS file.
@@ -281,10 +287,7 @@ class NmtCovarianceWorkspaceFlat(object):
         Args:
             fname (:obj:`str`): Input file name.
         """
-        if self.wsp is not None:
-            lib.covar_workspace_flat_free(self.wsp)
-            self.wsp = None
-        self.wsp = lib.read_covar_workspace_flat(fname)
+        self._set_wsp(lib.read_covar_workspace_flat(fname))
 
     def compute_coupling_coefficients(self, fla1, fla2, bin_a,
                                       flb1=None, flb2=None, bin_b=None):
@@ -330,13 +333,10 @@ class NmtCovarianceWorkspaceFlat(object):
            (fla1.fl.fs.ny != flb2.fl.fs.ny):
             raise ValueError("Everything should have the same resolution!")
 
-        if self.wsp is not None:
-            lib.covar_workspace_flat_free(self.wsp)
-            self.wsp = None
-        self.wsp = lib.covar_workspace_flat_init_py(fla1.fl, fla2.fl,
-                                                    bin_a.bin,
-                                                    flb1.fl, flb2.fl,
-                                                    bin_b.bin)
+        self._set_wsp(lib.covar_workspace_flat_init_py(fla1.fl, fla2.fl,
+                                                       bin_a.bin,
+                                                       flb1.fl, flb2.fl,
+                                                       bin_b.bin))
 
     def write_to(self, fname):
         """ Writes the contents of an :obj:`NmtCovarianceWorkspaceFlat` object
diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index 09db6bc..04d634c 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -139,6 +139,12 @@ class NmtWorkspace(object):
                 lib.workspace_free(self.wsp)
             self.wsp = None
 
+    def _set_wsp(self, wsp):
+        # The old workspace is only discarded once the new one is ready
+        if self.wsp is not None:
+            lib.workspace_free(self.wsp)
+        self.wsp = wsp
+
     def check_unbinned(self):
         """ Raises an error if this workspace does not contain the
         unbinned mode-coupling matrix.
@@ -157,10 +163,7 @@ class NmtWorkspace(object):
                 mode-coupling matrix will not be read. This can save
                 significant IO time.
         """
-        if self.wsp is not None:
-            lib.workspace_free(self.wsp)
-            self.wsp = None
-        self.wsp = lib.read_workspace(fname, int(read_unbinned_MCM))
+        self._set_wsp(lib.read_workspace(fname, int(read_unbinned_MCM)))
         self.has_unbinned = read_unbinned_MCM
 
     def update_beams(self, beam1, beam2):
@@ -244,9 +247,6 @@ class NmtWorkspace(object):
             raise ValueError(f"Maximum multipoles in bins ({bins.lmax}) "
                              f"and fields ({fl1.ainfo.lmax}) "
                              "are not the same.")
-        if self.wsp is not None:
-            lib.workspace_free(self.wsp)
-            self.wsp = None
 
         anisotropic_mask_any = fl1.anisotropic_mask or fl2.anisotropic_mask
         if anisotropic_mask_any and (l_toeplitz >= 0):
@@ -316,7 +316,7 @@ class NmtWorkspace(object):
         beam2 = fl2.beam[:fl2.ainfo.lmax+1]
 
         if anisotropic_mask_any:
-            self.wsp = lib.comp_coupling_matrix_anisotropic(
+            wsp = lib.comp_coupling_matrix_anisotropic(
                 int(fl1.spin), int(fl2.spin),
                 int(fl1.anisotropic_mask), int(fl2.anisotropic_mask),
                 int(fl1.ainfo.lmax), int(fl1.ainfo_mask.lmax),
@@ -325,7 +325,7 @@ class NmtWorkspace(object):
                 beam1, beam2, bins.bin,
                 int(norm_type), wawb)
         else:
-            self.wsp = lib.comp_coupling_matrix(
+            wsp = lib.comp_coupling_matrix(
                 int(fl1.spin), int(fl2.spin),
                 int(fl1.ainfo.lmax), int(fl1.ainfo_mask.lmax),
                 int(fl1.pure_e), int(fl1.pure_b),
@@ -333,6 +333,7 @@ class NmtWorkspace(object):
                 int(norm_type), wawb,
                 beam1, beam2, pcl_mask.flatten()-Nw,
                 bins.bin, int(is_teb), l_toeplitz, l_exact, dl_band)
+        self._set_wsp(wsp)
         self.has_unbinned = True
 
     def write_to(self, fname):
@@ -520,6 +521,12 @@ class NmtWorkspaceFlat(object):
                 lib.workspace_flat_free(self.wsp)
             self.wsp = None
 
+    def _set_wsp(self, wsp):
+        # The old workspace is only discarded once the new one is ready
+        if self.wsp is not None:
+            lib.workspace_flat_free(self.wsp)
+        self.wsp = wsp
+
     def read_from(self, fname):
         """ Reads the contents of an :obj:`NmtWorkspaceFlat` object from a
         FITS file.
@@ -527,10 +534,7 @@ class NmtWorkspaceFlat(object):
         Args:
             fname (:obj:`str`): Input file name.
         """
-        if self.wsp is not None:
-            lib.workspace_flat_free(self.wsp)
-            self.wsp = None
-        self.wsp = lib.read_workspace_flat(fname)
+        self._set_wsp(lib.read_workspace_flat(fname))
 
     def compute_coupling_matrix(self, fl1, fl2, bins, ell_cut_x=[1., -1.],
                                 ell_cut_y=[1., -1.], is_teb=False):
@@ -555,11 +559,7 @@ class NmtWorkspaceFlat(object):
                 case, ``fl1`` must be a spin-0 field and ``fl2`` must be
                 spin-s.
         """
-        if self.wsp is not None:
-            lib.workspace_flat_free(self.wsp)
-            self.wsp = None
-
-        self.wsp = lib.comp_coupling_matrix_flat(
+        self._set_wsp(lib.comp_coupling_matrix_flat(
             fl1.fl,
             fl2.fl,
             bins.bin,
@@ -568,7 +568,7 @@ class NmtWorkspaceFlat(object):
             ell_cut_y[0],
             ell_cut_y[1],
             int(is_teb),
-        )
+        ))
 
     def write_to(self, fname):
         """ Writes the contents of an :obj:`NmtWorkspaceFlat` object
-- 
2.43.0


From 160f21c89f21901d59c75a911839a4522a7fcf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:28 +0000
Subject: [PATCH 44/50] fix: from_edges and the linear binnings accept bands
 that contain no multipoles

---
 pymaster/bins.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pymaster/bins.py b/pymaster/bins.py
index c7e0b14..1b2f9d3 100644
--- a/pymaster/bins.py
+++ b/pymaster/bins.py
@@ -3,6 +3,8 @@ import numpy as np
 
 
 def _get_bpw_arrays_linear(lmax, nlb):
+    if nlb <= 0:
+        raise ValueError("The bandpower width must be positive")
     ells = np.arange(lmax+1, dtype=np.int32)
     bpws = ((ells-2) // nlb).astype(np.int32)
     bpws[:2] = -1
@@ -158,9 +160,14 @@ class NmtBin(object):
                 ``is_Dell`` is ignored. If provided, it must be sampled at
                 all :math:`\\ell` s covered by ``ell_ini`` and ``ell_end``.
         """
+        if len(ell_ini) != len(ell_end):
+            raise ValueError("ell_ini and ell_end must have the same length")
         ells, bpws, weights = [], [], []
         for ib, (li, le) in enumerate(zip(ell_ini, ell_end)):
             nlb = int(le - li)
+            if nlb <= 0:
+                raise ValueError("Bandpowers must contain at least one "
+                                 "multipole")
             ells += list(range(li, le))
             bpws += [ib] * nlb
             weights += [1./nlb] * nlb
-- 
2.43.0


From 5ee04fb7795f21672ba7db0555a68e5e941902fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:18 +0000
Subject: [PATCH 45/50] fix: functions sampled at no, one or unsorted points
 abort the process

---
 pymaster/namaster.i      |  6 ++++++
 pymaster/namaster_wrap.c |  6 ++++++
 src/nmt_field_flat.c     | 10 ++++++++++
 3 files changed, 22 insertions(+)

diff --git a/pymaster/namaster.i b/pymaster/namaster.i
index abc1684..41ce592 100644
--- a/pymaster/namaster.i
+++ b/pymaster/namaster.i
@@ -183,6 +183,7 @@ void bin_cl_flat(nmt_binning_scheme_flat *bins,
 {
   int i;
   asserting(nell3==nell1);
+  asserting(nell3>0);
   asserting(ndout==ncl1*bins->n_bands);
   double **cls_in,**cls_out;
   cls_in=malloc(ncl1*sizeof(double *));
@@ -410,6 +411,7 @@ void synfast_new_flat(int nx,int ny,double lx,double ly,
   asserting(ncl2==nfields);
   asserting(ncl1==(nmaps*(nmaps+1))/2);
   asserting(nell1==nell2);
+  asserting(nell1>0);
   asserting(ndout==nmaps*npix);
   
   cls=malloc(ncl1*sizeof(double *));
@@ -556,6 +558,7 @@ void comp_deproj_bias_flat(nmt_field_flat *fl1,nmt_field_flat *fl2,
   double **cl_bias,**cl_guess;
   asserting(ncl1==fl1->nmaps*fl2->nmaps);
   asserting(nell1==nell3);
+  asserting(nell3>0);
   asserting(ndout==bin->n_bands*ncl1);
   cl_bias=malloc(ncl1*sizeof(double *));
   cl_guess=malloc(ncl1*sizeof(double *));
@@ -693,6 +696,7 @@ void comp_gaussian_covariance_flat(nmt_covar_workspace_flat *cw,
 				   double *dout,int ndout)
 {
   asserting(nell11==nell3);
+  asserting(nell3>0);
   asserting(nell11==nell12);
   asserting(nell11==nell21);
   asserting(nell11==nell22);
@@ -836,6 +840,7 @@ void couple_cell_py_flat(nmt_workspace_flat *w,
   int i;
   double **cl_in,**cl_out;
   asserting(nell3==nell1);
+  asserting(nell3>0);
   asserting(ncl1==w->ncls);
   asserting(ncl1*w->bin->n_bands==ndout);
   cl_in=malloc(ncl1*sizeof(double *));
@@ -876,6 +881,7 @@ void comp_pspec_flat(nmt_field_flat *fl1,nmt_field_flat *fl2,
   asserting(nell1==bin->n_bands);
   asserting(ndout==bin->n_bands*ncl1);
   asserting(nell3==nell2);
+  asserting(nell3>0);
   asserting(ncl1==ncl2);
   cl_noise=malloc(ncl1*sizeof(double *));
   cl_guess=malloc(ncl1*sizeof(double *));
diff --git a/pymaster/namaster_wrap.c b/pymaster/namaster_wrap.c
index 939ade7..b43382c 100644
--- a/pymaster/namaster_wrap.c
+++ b/pymaster/namaster_wrap.c
@@ -3150,6 +3150,7 @@ void bin_cl_flat(nmt_binning_scheme_flat *bins,
 {
   int i;
   asserting(nell3==nell1);
+  asserting(nell3>0);
   asserting(ndout==ncl1*bins->n_bands);
   double **cls_in,**cls_out;
   cls_in=malloc(ncl1*sizeof(double *));
@@ -3377,6 +3378,7 @@ void synfast_new_flat(int nx,int ny,double lx,double ly,
   asserting(ncl2==nfields);
   asserting(ncl1==(nmaps*(nmaps+1))/2);
   asserting(nell1==nell2);
+  asserting(nell1>0);
   asserting(ndout==nmaps*npix);
   
   cls=malloc(ncl1*sizeof(double *));
@@ -3523,6 +3525,7 @@ void comp_deproj_bias_flat(nmt_field_flat *fl1,nmt_field_flat *fl2,
   double **cl_bias,**cl_guess;
   asserting(ncl1==fl1->nmaps*fl2->nmaps);
   asserting(nell1==nell3);
+  asserting(nell3>0);
   asserting(ndout==bin->n_bands*ncl1);
   cl_bias=malloc(ncl1*sizeof(double *));
   cl_guess=malloc(ncl1*sizeof(double *));
@@ -3660,6 +3663,7 @@ void comp_gaussian_covariance_flat(nmt_covar_workspace_flat *cw,
 				   double *dout,int ndout)
 {
   asserting(nell11==nell3);
+  asserting(nell3>0);
   asserting(nell11==nell12);
   asserting(nell11==nell21);
   asserting(nell11==nell22);
@@ -3803,6 +3807,7 @@ void couple_cell_py_flat(nmt_workspace_flat *w,
   int i;
   double **cl_in,**cl_out;
   asserting(nell3==nell1);
+  asserting(nell3>0);
   asserting(ncl1==w->ncls);
   asserting(ncl1*w->bin->n_bands==ndout);
   cl_in=malloc(ncl1*sizeof(double *));
@@ -3843,6 +3848,7 @@ void comp_pspec_flat(nmt_field_flat *fl1,nmt_field_flat *fl2,
   asserting(nell1==bin->n_bands);
   asserting(ndout==bin->n_bands*ncl1);
   asserting(nell3==nell2);
+  asserting(nell3>0);
   asserting(ncl1==ncl2);
   cl_noise=malloc(ncl1*sizeof(double *));
   cl_guess=malloc(ncl1*sizeof(double *));
diff --git a/src/nmt_field_flat.c b/src/nmt_field_flat.c
index 91c96d8..a819bff 100644
--- a/src/nmt_field_flat.c
+++ b/src/nmt_field_flat.c
@@ -7,6 +7,16 @@ nmt_k_function *nmt_k_function_alloc(int nk,flouble *karr,flouble *farr,flouble
   f->is_const=is_const;
   f->y0=y0;
   if(!is_const) {
+    int ii;
+    int is_sorted=1;
+    for(ii=1;ii<nk;ii++) {
+      if(!(karr[ii]>karr[ii-1]))
+        is_sorted=0;
+    }
+    if((nk<2) || (!is_sorted)) {
+      free(f);
+      report_error(NMT_ERROR_VALUE,"Functions must be sampled at two or more strictly increasing points\n");
+    }
     f->x0=karr[0];
     f->xf=karr[nk-1];
     f->yf=yf;
-- 
2.43.0


From 7b09bfca2792d167dfab91946ab6f57e0929379e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:34 +0000
Subject: [PATCH 46/50] fix: compute_full_master_flat fails with a single
 bandpower

---
 pymaster/workspaces.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index 04d634c..d98ae6b 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -1152,8 +1152,8 @@ def compute_full_master_flat(f1, f2, b, cl_noise=None, cl_guess=None,
         lf = ells_guess.copy()
         clg = cl_guess.copy()
     else:
-        lf = b.get_effective_ells()
-        clg = np.zeros([f1.fl.nmaps * f2.fl.nmaps, b.bin.n_bands])
+        lf = np.array([0., 1.])
+        clg = np.zeros([f1.fl.nmaps * f2.fl.nmaps, 2])
 
     if workspace is None:
         cl1d = lib.comp_pspec_flat(
-- 
2.43.0


From 2e4e2c470201c238e1962e18afdae921dfa903a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:56 +0000
Subject: [PATCH 47/50] fix: write double-precision keywords of flat workspaces
 with 17 digits, so that they are read back exactly

---
 src/nmt_io.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index 72042cf..a7ca022 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -410,6 +410,8 @@ nmt_workspace *nmt_workspace_read_fits(char *fname, int w_unbinned)
   return w;
 }
 
+//Double-precision keywords are written with 17 significant digits, so that
+//they are read back exactly.
 static void nmt_workspace_flat_info_tohdus(fitsfile *fptr,
 					   nmt_workspace_flat *w,
 					   int *status)
@@ -421,11 +423,11 @@ static void nmt_workspace_flat_info_tohdus(fitsfile *fptr,
   long fpixel[2]={1,1};
   fits_create_img(fptr,DOUBLE_IMG,2,naxes,status);
   fits_write_key(fptr,TSTRING,"EXTNAME","WSP_PRIMARY",NULL,status);
-  fits_write_key(fptr,TDOUBLE,"LMAX",&(w->lmax),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"ELLCUT_X_I",&(w->ellcut_x[0]),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"ELLCUT_X_F",&(w->ellcut_x[1]),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"ELLCUT_Y_I",&(w->ellcut_y[0]),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"ELLCUT_Y_F",&(w->ellcut_y[1]),NULL,status);
+  fits_write_key_dbl(fptr,"LMAX",w->lmax,-17,NULL,status);
+  fits_write_key_dbl(fptr,"ELLCUT_X_I",w->ellcut_x[0],-17,NULL,status);
+  fits_write_key_dbl(fptr,"ELLCUT_X_F",w->ellcut_x[1],-17,NULL,status);
+  fits_write_key_dbl(fptr,"ELLCUT_Y_I",w->ellcut_y[0],-17,NULL,status);
+  fits_write_key_dbl(fptr,"ELLCUT_Y_F",w->ellcut_y[1],-17,NULL,status);
   fits_write_key(fptr,TINT,"PURE_E1",&(w->pe1),NULL,status);
   fits_write_key(fptr,TINT,"PURE_E2",&(w->pe2),NULL,status);
   fits_write_key(fptr,TINT,"PURE_B1",&(w->pb1),NULL,status);
@@ -487,11 +489,11 @@ static void nmt_flatsky_info_tohdus(fitsfile *fptr,
   fits_write_key(fptr,TINT   ,"NX",&(fs->nx),NULL,status);
   fits_write_key(fptr,TINT   ,"NY",&(fs->ny),NULL,status);
   fits_write_key(fptr,TLONG  ,"NPIX",&(fs->npix),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"LX",&(fs->lx),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"LY",&(fs->ly),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"PIXSIZE",&(fs->pixsize),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"DELL",&(fs->dell),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"I_DELL",&(fs->i_dell),NULL,status);
+  fits_write_key_dbl(fptr,"LX",fs->lx,-17,NULL,status);
+  fits_write_key_dbl(fptr,"LY",fs->ly,-17,NULL,status);
+  fits_write_key_dbl(fptr,"PIXSIZE",fs->pixsize,-17,NULL,status);
+  fits_write_key_dbl(fptr,"DELL",fs->dell,-17,NULL,status);
+  fits_write_key_dbl(fptr,"I_DELL",fs->i_dell,-17,NULL,status);
 
   free(ttype[0]); free(ttype);
   free(tform[0]); free(tform);
-- 
2.43.0


From b470bd8375050c7a4de8417fc6707c83c60e1295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:29 +0000
Subject: [PATCH 48/50] fix: fields keep their own copy of the beam

The beam passed to NmtField and NmtFieldCatalog was stored by reference,
so changing the array later changed the field.
---
 pymaster/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymaster/field.py b/pymaster/field.py
index d30f2c6..055ec1c 100644
--- a/pymaster/field.py
+++ b/pymaster/field.py
@@ -193,7 +193,7 @@ class NmtField(object):
             if len(beam) <= lmax:
                 raise ValueError("Input beam must have at least %d elements "
                                  "given the input map resolution" % (lmax+1))
-            beam_use = beam
+            beam_use = np.array(beam, dtype=np.float64)
         else:
             if beam is None:
                 beam_use = np.ones(lmax+1)
@@ -934,7 +934,7 @@ class NmtFieldCatalog(NmtField):
                 raise ValueError("Input beam must have at least %d elements "
                                  "given the input maximum "
                                  "multipole" % (lmax+1))
-            beam_use = beam
+            beam_use = np.array(beam, dtype=np.float64)
         else:
             if beam is None:
                 beam_use = np.ones(lmax+1)
-- 
2.43.0


From fb2d8a7b4084fe63c1bff424b809e26972a14327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:56 +0000
Subject: [PATCH 49/50] fix: flat-sky covariance of bands with more than 46340
 modes (the number of mode pairs overflowed an int)

---
 src/nmt_covar_flat.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nmt_covar_flat.c b/src/nmt_covar_flat.c
index cfa7b7b..0d318d9 100644
--- a/src/nmt_covar_flat.c
+++ b/src/nmt_covar_flat.c
@@ -264,8 +264,9 @@ nmt_covar_workspace_flat *nmt_covar_workspace_flat_init(nmt_field_flat *fla1,nmt
       int ib2;
       for(ib2=0;ib2<cw->bin->n_bands;ib2++) {
 	flouble norm;
-	if(n_cells[ib1]*n_cells[ib2]>0)
-	  norm=fac_norm/(n_cells[ib1]*n_cells[ib2]);
+	long n_pairs=((long)(n_cells[ib1]))*n_cells[ib2]; //May not fit in an int
+	if(n_pairs>0)
+	  norm=fac_norm/n_pairs;
 	else
 	  norm=0;
 	cw->xi00_1122[ib1][ib2]*=norm;
-- 
2.43.0


From ee7100f108715f191000575a02a3f7cabd3d91f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:56 +0000
Subject: [PATCH 50/50] fix: release the coefficient tables of covariance
 workspaces (pointer arrays and the log-factorial table leaked)

---
 src/nmt_covar.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/nmt_covar.c b/src/nmt_covar.c
index 8967911..1e86cd4 100644
--- a/src/nmt_covar.c
+++ b/src/nmt_covar.c
@@ -63,6 +63,7 @@ nmt_covar_workspace *nmt_covar_workspace_init(flouble *cl_masks_11_22,
     free(c->xi_mm);
   }
   free(c->xi_00);
+  free(c->lfac);
   free(c);
   free(cl_masks[0]);
   free(cl_masks[1]);
@@ -85,6 +86,16 @@ void nmt_covar_workspace_free(nmt_covar_workspace *cw)
       free(cw->xi22m_1221[ii]);
     }
   }
+  free(cw->xi00_1122);
+  free(cw->xi00_1221);
+  if(cw->spin0_only==0) {
+    free(cw->xi02_1122);
+    free(cw->xi02_1221);
+    free(cw->xi22p_1122);
+    free(cw->xi22p_1221);
+    free(cw->xi22m_1122);
+    free(cw->xi22m_1221);
+  }
   free(cw);
 }
 
-- 
2.43.0

