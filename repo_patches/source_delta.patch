From 43f8f7961cc89585fca8398977cf87678f44f665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 01/62] fix: get_ell_min and get_ell_max with unsorted
 multipoles

---
 pymaster/bins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymaster/bins.py b/pymaster/bins.py
index c7e0b14..8dbaa4e 100644
--- a/pymaster/bins.py
+++ b/pymaster/bins.py
@@ -206,7 +206,7 @@ class NmtBin(object):
         Returns:
             (:obj:`int`): Minimum :math:`\\ell` value.
         """
-        return self.get_ell_list(b)[0]
+        return np.amin(self.get_ell_list(b))
 
     def get_ell_max(self, b):
         """ Returns the maximum ell value used by bandpower with
@@ -218,7 +218,7 @@ class NmtBin(object):
         Returns:
             (:obj:`int`): Maximum :math:`\\ell` value.
         """
-        return self.get_ell_list(b)[-1]
+        return np.amax(self.get_ell_list(b))
 
     def get_ell_list(self, b):
         """ Returns an array with the multipoles in the
-- 
2.43.0


From 2ff515d9f689c3c35ac647f4c210fc8c66057083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 02/62] fix: flat bandpowers with gaps: multipoles between
 bands belong to none

---
 src/nmt_bins_flat.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/nmt_bins_flat.c b/src/nmt_bins_flat.c
index f265108..6139aae 100644
--- a/src/nmt_bins_flat.c
+++ b/src/nmt_bins_flat.c
@@ -11,8 +11,10 @@ int nmt_bins_flat_search_fast(nmt_binning_scheme_flat *bin,flouble l,int il)
     while(ilback>=0) {
       if(l<bin->ell_0_list[ilback])
 	ilback--;
-      else
+      else if(l<bin->ell_f_list[ilback])
 	return ilback;
+      else //Gap between bands
+	return -1;
     }
     return -1;
   }
@@ -21,8 +23,10 @@ int nmt_bins_flat_search_fast(nmt_binning_scheme_flat *bin,flouble l,int il)
     while(ilback<bin->n_bands) {
       if(l>=bin->ell_f_list[ilback])
 	ilback++;
-      else
+      else if(l>=bin->ell_0_list[ilback])
 	return ilback;
+      else //Gap between bands
+	return -1;
     }
     return -1;
   }
-- 
2.43.0


From a9d23104bbdd18b27b039d46a7680eafc50892b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:45 +0000
Subject: [PATCH 03/62] fix: Wigner-3j buffers too small when lmax_mask < lmax

---
 src/nmt_master.c | 48 ++++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index a8ca0dc..8dcccc3 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -229,11 +229,11 @@ static void populate_toeplitz(nmt_master_calculator *c, flouble **pcl_masks, int
     int l3_list[2];
     double *wigner_00=NULL,*wigner_ss1=NULL,*wigner_ss2=NULL;
     if(c->has_00 || c->has_0s)
-      wigner_00=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_00=my_malloc(2*(NMT_MAX(c->lmax,c->lmax_mask)+1)*sizeof(double));
     if(c->has_0s || c->has_ss)
-      wigner_ss1=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_ss1=my_malloc(2*(NMT_MAX(c->lmax,c->lmax_mask)+1)*sizeof(double));
     if(has_ss2)
-      wigner_ss2=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_ss2=my_malloc(2*(NMT_MAX(c->lmax,c->lmax_mask)+1)*sizeof(double));
     else
       wigner_ss2=wigner_ss1;
 
@@ -253,11 +253,11 @@ static void populate_toeplitz(nmt_master_calculator *c, flouble **pcl_masks, int
         lmax_here=ll2+ll3;
 
 	if(c->has_00 || c->has_0s)
-	  drc3jj_000(ll2,ll3,&lmin_00,&lmax_00,c->lfac,wigner_00,2*(c->lmax_mask+1));
+	  drc3jj_000(ll2,ll3,&lmin_00,&lmax_00,c->lfac,wigner_00,2*(NMT_MAX(c->lmax,c->lmax_mask)+1));
 	if(c->has_0s || c->has_ss)
-	  drc3jj(ll2,ll3,c->s1,-c->s1,&lmin_ss1,&lmax_ss1,wigner_ss1,2*(c->lmax_mask+1));
+	  drc3jj(ll2,ll3,c->s1,-c->s1,&lmin_ss1,&lmax_ss1,wigner_ss1,2*(NMT_MAX(c->lmax,c->lmax_mask)+1));
         if(has_ss2)
-          drc3jj(ll2,ll3,c->s2,-c->s2,&lmin_ss2,&lmax_ss2,wigner_ss2,2*(c->lmax_mask+1));
+          drc3jj(ll2,ll3,c->s2,-c->s2,&lmin_ss2,&lmax_ss2,wigner_ss2,2*(NMT_MAX(c->lmax,c->lmax_mask)+1));
         else {
           lmin_ss2=lmin_ss1;
           lmax_ss2=lmax_ss1;
@@ -511,18 +511,18 @@ nmt_workspace *nmt_compute_coupling_matrix_anisotropic(int spin1, int spin2,
     int ll2,ll3;
     double *wigner_ss1=NULL, *wigner_ss2=NULL, *wigner_ss1a=NULL, *wigner_ss2a=NULL;
     // s -s 0 terms
-    wigner_ss1=my_malloc(2*(lmax_mask+1)*sizeof(double));
+    wigner_ss1=my_malloc(2*(NMT_MAX(lmax,lmax_mask)+1)*sizeof(double));
     if(reuse_ss1)
       wigner_ss2=wigner_ss1;
     else
-      wigner_ss2=my_malloc(2*(lmax_mask+1)*sizeof(double));
+      wigner_ss2=my_malloc(2*(NMT_MAX(lmax,lmax_mask)+1)*sizeof(double));
 
     // s s -2s terms
     if(mask_aniso_1)
-      wigner_ss1a=my_malloc(2*(lmax_mask+1)*sizeof(double));
+      wigner_ss1a=my_malloc(2*(NMT_MAX(lmax,lmax_mask)+1)*sizeof(double));
     if(mask_aniso_2) {
       if((!reuse_ss1) || (mask_aniso_1 == 0))
-	wigner_ss2a=my_malloc(2*(lmax_mask+1)*sizeof(double));
+	wigner_ss2a=my_malloc(2*(NMT_MAX(lmax,lmax_mask)+1)*sizeof(double));
       else
 	wigner_ss2a=wigner_ss1a;
     }
@@ -540,20 +540,20 @@ nmt_workspace *nmt_compute_coupling_matrix_anisotropic(int spin1, int spin2,
 	lmax_here=ll2+ll3;
 
 	// s -s 0 terms
-	drc3jj(ll2,ll3,spin1,-spin1,&lmin_ss1,&lmax_ss1,wigner_ss1,2*(lmax_mask+1));
+	drc3jj(ll2,ll3,spin1,-spin1,&lmin_ss1,&lmax_ss1,wigner_ss1,2*(NMT_MAX(lmax,lmax_mask)+1));
 	if(reuse_ss1) {
 	  lmin_ss2=lmin_ss1;
 	  lmax_ss2=lmax_ss1;
 	}
 	else
-	  drc3jj(ll2,ll3,spin2,-spin2,&lmin_ss2,&lmax_ss2,wigner_ss2,2*(lmax_mask+1));
+	  drc3jj(ll2,ll3,spin2,-spin2,&lmin_ss2,&lmax_ss2,wigner_ss2,2*(NMT_MAX(lmax,lmax_mask)+1));
 
 	// s s -2s terms
 	if(mask_aniso_1)
-	  drc3jj(ll2,ll3,spin1,spin1,&lmin_ss1a,&lmax_ss1a,wigner_ss1a,2*(lmax_mask+1));
+	  drc3jj(ll2,ll3,spin1,spin1,&lmin_ss1a,&lmax_ss1a,wigner_ss1a,2*(NMT_MAX(lmax,lmax_mask)+1));
 	if(mask_aniso_2) {
 	  if((!reuse_ss1) || (mask_aniso_1 == 0))
-	    drc3jj(ll2,ll3,spin2,spin2,&lmin_ss2a,&lmax_ss2a,wigner_ss2a,2*(lmax_mask+1));
+	    drc3jj(ll2,ll3,spin2,spin2,&lmin_ss2a,&lmax_ss2a,wigner_ss2a,2*(NMT_MAX(lmax,lmax_mask)+1));
 	  else {
 	    lmin_ss2a=lmin_ss1a;
 	    lmax_ss2a=lmax_ss1a;
@@ -768,16 +768,16 @@ nmt_master_calculator *nmt_compute_master_coefficients(int lmax, int lmax_mask,
     int ll2,ll3,icc;
     double *wigner_00=NULL,*wigner_ss1=NULL,*wigner_12=NULL,*wigner_02=NULL,*wigner_ss2=NULL;
     if(c->has_00 || c->has_0s)
-      wigner_00=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_00=my_malloc(2*(NMT_MAX(c->lmax,c->lmax_mask)+1)*sizeof(double));
     if(c->has_0s || c->has_ss)
-      wigner_ss1=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_ss1=my_malloc(2*(NMT_MAX(c->lmax,c->lmax_mask)+1)*sizeof(double));
     if(has_ss2)
-      wigner_ss2=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_ss2=my_malloc(2*(NMT_MAX(c->lmax,c->lmax_mask)+1)*sizeof(double));
     else
       wigner_ss2=wigner_ss1;
     if(c->pure_any) {
-      wigner_12=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
-      wigner_02=my_malloc(2*(c->lmax_mask+1)*sizeof(double));
+      wigner_12=my_malloc(2*(NMT_MAX(c->lmax,c->lmax_mask)+1)*sizeof(double));
+      wigner_02=my_malloc(2*(NMT_MAX(c->lmax,c->lmax_mask)+1)*sizeof(double));
     }
 
 #pragma omp for schedule(dynamic)
@@ -811,18 +811,18 @@ nmt_master_calculator *nmt_compute_master_coefficients(int lmax, int lmax_mask,
         }
 
         if(c->has_00 || c->has_0s)
-	  drc3jj_000(ll2,ll3,&lmin_00,&lmax_00,c->lfac,wigner_00,2*(c->lmax_mask+1));
+	  drc3jj_000(ll2,ll3,&lmin_00,&lmax_00,c->lfac,wigner_00,2*(NMT_MAX(c->lmax,c->lmax_mask)+1));
         if(c->has_0s || c->has_ss)
-          drc3jj(ll2,ll3,c->s1,-c->s1,&lmin_ss1,&lmax_ss1,wigner_ss1,2*(c->lmax_mask+1));
+          drc3jj(ll2,ll3,c->s1,-c->s1,&lmin_ss1,&lmax_ss1,wigner_ss1,2*(NMT_MAX(c->lmax,c->lmax_mask)+1));
         if(has_ss2)
-          drc3jj(ll2,ll3,c->s2,-c->s2,&lmin_ss2,&lmax_ss2,wigner_ss2,2*(c->lmax_mask+1));
+          drc3jj(ll2,ll3,c->s2,-c->s2,&lmin_ss2,&lmax_ss2,wigner_ss2,2*(NMT_MAX(c->lmax,c->lmax_mask)+1));
         else {
           lmin_ss2=lmin_ss1;
           lmax_ss2=lmax_ss1;
         }
 	if(c->pure_any) {
-	  drc3jj(ll2,ll3,1,-2,&lmin_12,&lmax_12,wigner_12,2*(c->lmax_mask+1));
-	  drc3jj(ll2,ll3,0,-2,&lmin_02,&lmax_02,wigner_02,2*(c->lmax_mask+1));
+	  drc3jj(ll2,ll3,1,-2,&lmin_12,&lmax_12,wigner_12,2*(NMT_MAX(c->lmax,c->lmax_mask)+1));
+	  drc3jj(ll2,ll3,0,-2,&lmin_02,&lmax_02,wigner_02,2*(NMT_MAX(c->lmax,c->lmax_mask)+1));
 	}
 
         for(l1=lmin_here;l1<=lmax_here;l1++) {
-- 
2.43.0


From db1abb516f3ed1cf47051592d4781d49d5f8d53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:45 +0000
Subject: [PATCH 04/62] fix: out-of-bounds read of the log-factorial table in
 drc3jj_000

---
 src/nmt_master.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index 8dcccc3..d7fd044 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -745,11 +745,11 @@ nmt_master_calculator *nmt_compute_master_coefficients(int lmax, int lmax_mask,
   }
 
   int lmax_max = NMT_MAX(c->lmax, c->lmax_mask);
-  c->lfac = my_malloc(3*(lmax_max+1)*sizeof(double));
+  c->lfac = my_malloc(4*(lmax_max+1)*sizeof(double)); // Need up to 4*lmax+1
   // Precompute log-factorial
   c->lfac[0] = 0.0;
   c->lfac[1] = 0.0;
-  for(ii=2;ii<3*(lmax_max+1);ii++)
+  for(ii=2;ii<4*(lmax_max+1);ii++)
     c->lfac[ii] = c->lfac[ii-1]+log((double)(ii));
 
   if(l_toeplitz>0)
-- 
2.43.0


From 99539f28c72812c7a6a7fb0c62d2e041103f31d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 05/62] fix: sign of the TT and spin-spin blocks of the joint
 matrix for odd spins

---
 src/nmt_master.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index d7fd044..a17e8d5 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -1099,6 +1099,7 @@ nmt_workspace *nmt_compute_coupling_matrix(int spin1,int spin2,
     for(ll2=0;ll2<=w->lmax;ll2++) {
       for(ll3=0;ll3<=w->lmax;ll3++) {
         double fac=(2*ll3+1.)*sign_overall;
+        double fac_even=2*ll3+1.; //For pairs of fields with the same spin
         if(w->ncls==1)
           w->coupling_matrix_unbinned[1*ll2+0][1*ll3+0]=fac*c->xi_00[0][ll2][ll3]; //TT,TT
         if(w->ncls==2) {
@@ -1116,17 +1117,17 @@ nmt_workspace *nmt_compute_coupling_matrix(int spin1,int spin2,
           w->coupling_matrix_unbinned[4*ll2+3][4*ll3+3]=fac*c->xi_pp[0][pb1+pb2][ll2][ll3]; //BB,BB
         }
         if(w->ncls==7) {
-          w->coupling_matrix_unbinned[7*ll2+0][7*ll3+0]=fac*c->xi_00[0][ll2][ll3]; //TT,TT
+          w->coupling_matrix_unbinned[7*ll2+0][7*ll3+0]=fac_even*c->xi_00[0][ll2][ll3]; //TT,TT
           w->coupling_matrix_unbinned[7*ll2+1][7*ll3+1]=fac*c->xi_0s[0][pe2][ll2][ll3]; //TE,TE
           w->coupling_matrix_unbinned[7*ll2+2][7*ll3+2]=fac*c->xi_0s[0][pb2][ll2][ll3]; //TB,TB
-          w->coupling_matrix_unbinned[7*ll2+3][7*ll3+6]=fac*c->xi_mm[0][pe2+pe2][ll2][ll3]; //EE,BB
-          w->coupling_matrix_unbinned[7*ll2+4][7*ll3+5]=-fac*c->xi_mm[0][pe2+pb2][ll2][ll3]; //EB,BE
-          w->coupling_matrix_unbinned[7*ll2+5][7*ll3+4]=-fac*c->xi_mm[0][pb2+pe2][ll2][ll3]; //BE,EB
-          w->coupling_matrix_unbinned[7*ll2+6][7*ll3+3]=fac*c->xi_mm[0][pb2+pb2][ll2][ll3]; //BB,EE
-          w->coupling_matrix_unbinned[7*ll2+3][7*ll3+3]=fac*c->xi_pp[0][pe2+pe2][ll2][ll3]; //EE,EE
-          w->coupling_matrix_unbinned[7*ll2+4][7*ll3+4]=fac*c->xi_pp[0][pe2+pb2][ll2][ll3]; //EB,EB
-          w->coupling_matrix_unbinned[7*ll2+5][7*ll3+5]=fac*c->xi_pp[0][pb2+pe2][ll2][ll3]; //BE,BE
-          w->coupling_matrix_unbinned[7*ll2+6][7*ll3+6]=fac*c->xi_pp[0][pb2+pb2][ll2][ll3]; //BB,BB
+          w->coupling_matrix_unbinned[7*ll2+3][7*ll3+6]=fac_even*c->xi_mm[0][pe2+pe2][ll2][ll3]; //EE,BB
+          w->coupling_matrix_unbinned[7*ll2+4][7*ll3+5]=-fac_even*c->xi_mm[0][pe2+pb2][ll2][ll3]; //EB,BE
+          w->coupling_matrix_unbinned[7*ll2+5][7*ll3+4]=-fac_even*c->xi_mm[0][pb2+pe2][ll2][ll3]; //BE,EB
+          w->coupling_matrix_unbinned[7*ll2+6][7*ll3+3]=fac_even*c->xi_mm[0][pb2+pb2][ll2][ll3]; //BB,EE
+          w->coupling_matrix_unbinned[7*ll2+3][7*ll3+3]=fac_even*c->xi_pp[0][pe2+pe2][ll2][ll3]; //EE,EE
+          w->coupling_matrix_unbinned[7*ll2+4][7*ll3+4]=fac_even*c->xi_pp[0][pe2+pb2][ll2][ll3]; //EB,EB
+          w->coupling_matrix_unbinned[7*ll2+5][7*ll3+5]=fac_even*c->xi_pp[0][pb2+pe2][ll2][ll3]; //BE,BE
+          w->coupling_matrix_unbinned[7*ll2+6][7*ll3+6]=fac_even*c->xi_pp[0][pb2+pb2][ll2][ll3]; //BB,BB
         }
       }
     } //end omp for
-- 
2.43.0


From 1922288222d57ed055e2d5fb6db4fd307519f5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 06/62] fix: coupling of a purified spin-2 field with a field
 of another spin

---
 src/nmt_master.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index a17e8d5..e8b3268 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -890,9 +890,12 @@ nmt_master_calculator *nmt_compute_master_coefficients(int lmax, int lmax_mask,
                 wfac_ispure[0]=wss1;
                 wfac_ispure[0]*=wss2*pcl[l1];
                 if(c->pure_any) {
-                  wfac_ispure[1]=wss1+fac_12*w12+fac_02*w02;
+                  //Only spin-2 fields can be purified
+                  flouble wpure=(c->s1==2) ? wss1 : wss2;
+                  flouble wother=(c->s1==2) ? wss2 : wss1;
+                  wfac_ispure[1]=wpure+fac_12*w12+fac_02*w02;
                   wfac_ispure[2]=wfac_ispure[1]*wfac_ispure[1]*pcl[l1];
-                  wfac_ispure[1]*=wss2*pcl[l1];
+                  wfac_ispure[1]*=wother*pcl[l1];
                 }
 
                 if(suml & 1) { //Odd sum
-- 
2.43.0


From 4e6c9cff30bdd1e6a974c54808c205e337b1d5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 07/62] fix: beams longer than lmax+1 are accepted as
 documented

---
 pymaster/workspaces.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index 447feed..68776d5 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -309,6 +309,10 @@ class NmtWorkspace(object):
                 msk2 = fl2.get_mask()
                 wawb = fl1.minfo.si.dot_map(msk1, msk2)/(4*np.pi)
 
+        # Beams may be sampled beyond the maximum multipole of the fields
+        beam1 = fl1.beam[:fl1.ainfo.lmax+1]
+        beam2 = fl2.beam[:fl2.ainfo.lmax+1]
+
         if anisotropic_mask_any:
             self.wsp = lib.comp_coupling_matrix_anisotropic(
                 int(fl1.spin), int(fl2.spin),
@@ -316,7 +320,7 @@ class NmtWorkspace(object):
                 int(fl1.ainfo.lmax), int(fl1.ainfo_mask.lmax),
                 pclm_00, pclm_0e, pclm_0b, pclm_e0, pclm_b0,
                 pclm_ee, pclm_eb, pclm_be, pclm_bb,
-                fl1.beam, fl2.beam, bins.bin,
+                beam1, beam2, bins.bin,
                 int(norm_type), wawb)
         else:
             self.wsp = lib.comp_coupling_matrix(
@@ -325,7 +329,7 @@ class NmtWorkspace(object):
                 int(fl1.pure_e), int(fl1.pure_b),
                 int(fl2.pure_e), int(fl2.pure_b),
                 int(norm_type), wawb,
-                fl1.beam, fl2.beam, pcl_mask.flatten()-Nw,
+                beam1, beam2, pcl_mask.flatten()-Nw,
                 bins.bin, int(is_teb), l_toeplitz, l_exact, dl_band)
         self.has_unbinned = True
 
-- 
2.43.0


From 51944f193b077b3a7421c49e2e7491a17d0719f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 08/62] fix: purification with lmax different from lmax_mask

---
 pymaster/field.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/pymaster/field.py b/pymaster/field.py
index 2028122..56020d1 100644
--- a/pymaster/field.py
+++ b/pymaster/field.py
@@ -472,14 +472,14 @@ class NmtField(object):
         maps = maps_u*mask[None, :]
         # Compute alms
         alms = ut.map2alm(maps, 2, self.minfo,
-                          self.ainfo_mask, n_iter=n_iter)
+                          self.ainfo, n_iter=n_iter)
 
         # 2. Spin-1 mask bit
         # Compute spin-1 mask
-        ls = np.arange(self.ainfo_mask.lmax+1)
+        ls_mask = np.arange(self.ainfo_mask.lmax+1)
         # The minus sign is because of the definition of E-modes
-        fl = -np.sqrt((ls+1.0)*ls)
-        walm = hp.almxfl(alm_mask, fl,
+        fl_mask = -np.sqrt((ls_mask+1.0)*ls_mask)
+        walm = hp.almxfl(alm_mask, fl_mask,
                          mmax=self.ainfo_mask.mmax)
         walm = np.array([walm, walm*0])
         wmap = ut.alm2map(walm, 1, self.minfo, self.ainfo_mask)
@@ -490,21 +490,21 @@ class NmtField(object):
         # 2*sqrt((l+1)!(l-2)!/((l-1)!(l+2)!)) and add to alms
         palm = ut.map2alm(maps, 1, self.minfo,
                           self.ainfo, n_iter=n_iter)
+        ls = np.arange(self.ainfo.lmax+1)
+        fl = np.zeros(self.ainfo.lmax+1)
         fl[2:] = 2/np.sqrt((ls[2:]+2.0)*(ls[2:]-1.0))
-        fl[:2] = 0
         for ipol, purify in enumerate(task):
             if purify:
-                alms[ipol] += hp.almxfl(palm[ipol],
-                                        fl[:self.ainfo.lmax+1],
+                alms[ipol] += hp.almxfl(palm[ipol], fl,
                                         mmax=self.ainfo.mmax)
 
         # 3. Spin-2 mask bit
         # Compute spin-0 mask
         # The extra minus sign is because of the scalar SHT below
         # (E-mode definition for spin=0).
-        fl[2:] = -np.sqrt((ls[2:]+2.0)*(ls[2:]-1.0))
-        fl[:2] = 0
-        walm[0] = hp.almxfl(walm[0], fl, mmax=self.ainfo_mask.mmax)
+        fl_mask[2:] = -np.sqrt((ls_mask[2:]+2.0)*(ls_mask[2:]-1.0))
+        fl_mask[:2] = 0
+        walm[0] = hp.almxfl(walm[0], fl_mask, mmax=self.ainfo_mask.mmax)
         wmap = ut.alm2map(walm, 2, self.minfo, self.ainfo_mask)
         # Product with spin-2 mask
         maps = np.array([wmap[0]*maps_u[0]+wmap[1]*maps_u[1],
@@ -516,11 +516,9 @@ class NmtField(object):
                          for m in maps])
         fl[2:] = 1/np.sqrt((ls[2:]+2.0)*(ls[2:]+1.0) *
                            ls[2:]*(ls[2:]-1))
-        fl[:2] = 0
         for ipol, purify in enumerate(task):
             if purify:
-                alms[ipol] += hp.almxfl(palm[ipol],
-                                        fl[:self.ainfo.lmax+1],
+                alms[ipol] += hp.almxfl(palm[ipol], fl,
                                         mmax=self.ainfo.mmax)
 
         if return_maps:
-- 
2.43.0


From f850db49abc1b98ec37bd8e292534b9984906b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 09/62] fix: order of the scalar-spin mask spectra in the
 anisotropic coupling matrix

---
 src/namaster.h   | 2 +-
 src/nmt_master.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/namaster.h b/src/namaster.h
index a7c9ff6..4ae7877 100644
--- a/src/namaster.h
+++ b/src/namaster.h
@@ -745,8 +745,8 @@ nmt_workspace *nmt_compute_coupling_matrix_anisotropic(int spin1, int spin2,
 						       int lmax, int lmax_mask,
 						       flouble *pcl_masks_00,
 						       flouble *pcl_masks_0e,
-						       flouble *pcl_masks_e0,
 						       flouble *pcl_masks_0b,
+						       flouble *pcl_masks_e0,
 						       flouble *pcl_masks_b0,
 						       flouble *pcl_masks_ee,
 						       flouble *pcl_masks_eb,
diff --git a/src/nmt_master.c b/src/nmt_master.c
index e8b3268..b17f26a 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -423,8 +423,8 @@ nmt_workspace *nmt_compute_coupling_matrix_anisotropic(int spin1, int spin2,
 						       int lmax, int lmax_mask,
 						       flouble *pcl_masks_00,
 						       flouble *pcl_masks_0e,
-						       flouble *pcl_masks_e0,
 						       flouble *pcl_masks_0b,
+						       flouble *pcl_masks_e0,
 						       flouble *pcl_masks_b0,
 						       flouble *pcl_masks_ee,
 						       flouble *pcl_masks_eb,
-- 
2.43.0


From 12b0df0c7a282afad97feedc1e5a96d030da22b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 10/62] fix: sign of the anisotropic coupling matrix for fields
 of different spin parity

---
 src/nmt_master.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index b17f26a..577d796 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -478,10 +478,10 @@ nmt_workspace *nmt_compute_coupling_matrix_anisotropic(int spin1, int spin2,
     }
   }
 
-  int sign_00 = 1;
-  int sign_0P = (spin2 & 1) ? -1 : 1;
-  int sign_P0 = (spin1 & 1) ? -1 : 1;
-  int sign_PP = ((spin1+spin2) & 1) ? -1 : 1;
+  int sign_00 = ((spin1+spin2) & 1) ? -1 : 1;
+  int sign_0P = (spin1 & 1) ? -1 : 1;
+  int sign_P0 = (spin2 & 1) ? -1 : 1;
+  int sign_PP = 1;
   for(l2=0;l2<=lmax_mask;l2++) {
     flouble fac=(2*l2+1)/(4*M_PI);
     pcl_masks[i_00][l2] *= sign_00*fac;
-- 
2.43.0


From 3ad92389b91bd2d20ec9a9d2d10bd65a14475a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 11/62] fix: refuse to update beams or bins without the
 unbinned coupling matrix

---
 pymaster/workspaces.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index 68776d5..d4524ce 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -180,6 +180,7 @@ class NmtWorkspace(object):
         if ((not b1arr) or (not b2arr)):
             raise ValueError("The new beams must be provided as arrays")
 
+        self.check_unbinned()
         lmax = self.wsp.lmax_fields
         if (len(beam1) <= lmax) or (len(beam2) <= lmax):
             raise ValueError("The new beams must go up to ell = %d" % lmax)
@@ -198,6 +199,7 @@ class NmtWorkspace(object):
                              "the mode-coupling matrix")
         if bins.bin is None:
             raise ValueError("Can't replace with uninitialized bins")
+        self.check_unbinned()
         lib.wsp_update_bins(self.wsp, bins.bin)
 
     def compute_coupling_matrix(self, fl1, fl2, bins, is_teb=False,
-- 
2.43.0


From 7241aae9f62291b9dbed527dfba51d7c5a286e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 12/62] fix: a refused computation or read leaves the workspace
 as it was

---
 pymaster/covariance.py | 39 +++++++++++++++++++--------------------
 pymaster/workspaces.py | 28 +++++++++++++---------------
 2 files changed, 32 insertions(+), 35 deletions(-)

diff --git a/pymaster/covariance.py b/pymaster/covariance.py
index 49e9f9c..e12f46e 100644
--- a/pymaster/covariance.py
+++ b/pymaster/covariance.py
@@ -155,11 +155,11 @@ class NmtCovarianceWorkspace(object):
                 combinations of the mode-coupling coefficients will
                 be read and stored.
         """
+        wsp = lib.read_covar_workspace(fname,
+                                       int(force_spin0_only))
         if self.wsp is not None:
             lib.covar_workspace_free(self.wsp)
-            self.wsp = None
-        self.wsp = lib.read_covar_workspace(fname,
-                                            int(force_spin0_only))
+        self.wsp = wsp
 
     def compute_coupling_coefficients(self, fla1, fla2,
                                       flb1=None, flb2=None, *,
@@ -220,10 +220,6 @@ class NmtCovarianceWorkspace(object):
         ut._toeplitz_sanity(l_toeplitz, l_exact, dl_band,
                             fla1.ainfo.lmax, fla1, flb1)
 
-        if self.wsp is not None:
-            lib.covar_workspace_free(self.wsp)
-            self.wsp = None
-
         def get_mask_prod_cl(f1_p1, f2_p1, f1_p2, f2_p2):
             mask_p1 = f1_p1.get_mask()*f2_p1.get_mask()
             alm_p1 = ut.map2alm(np.array([mask_p1]), 0,
@@ -237,12 +233,15 @@ class NmtCovarianceWorkspace(object):
 
         pcl_mask_11_22 = get_mask_prod_cl(fla1, flb1, fla2, flb2)
         pcl_mask_12_21 = get_mask_prod_cl(fla1, flb2, fla2, flb1)
-        self.wsp = lib.covar_workspace_init_py(pcl_mask_11_22,
-                                               pcl_mask_12_21,
-                                               int(fla1.ainfo.lmax),
-                                               int(fla1.ainfo_mask.lmax),
-                                               l_toeplitz, l_exact, dl_band,
-                                               int(spin0_only))
+        wsp = lib.covar_workspace_init_py(pcl_mask_11_22,
+                                          pcl_mask_12_21,
+                                          int(fla1.ainfo.lmax),
+                                          int(fla1.ainfo_mask.lmax),
+                                          l_toeplitz, l_exact, dl_band,
+                                          int(spin0_only))
+        if self.wsp is not None:
+            lib.covar_workspace_free(self.wsp)
+        self.wsp = wsp
 
     def write_to(self, fname):
         """ Writes the contents of an :obj:`NmtCovarianceWorkspace`
@@ -281,10 +280,10 @@ class NmtCovarianceWorkspaceFlat(object):
         Args:
             fname (:obj:`str`): Input file name.
         """
+        wsp = lib.read_covar_workspace_flat(fname)
         if self.wsp is not None:
             lib.covar_workspace_flat_free(self.wsp)
-            self.wsp = None
-        self.wsp = lib.read_covar_workspace_flat(fname)
+        self.wsp = wsp
 
     def compute_coupling_coefficients(self, fla1, fla2, bin_a,
                                       flb1=None, flb2=None, bin_b=None):
@@ -330,13 +329,13 @@ class NmtCovarianceWorkspaceFlat(object):
            (fla1.fl.fs.ny != flb2.fl.fs.ny):
             raise ValueError("Everything should have the same resolution!")
 
+        wsp = lib.covar_workspace_flat_init_py(fla1.fl, fla2.fl,
+                                               bin_a.bin,
+                                               flb1.fl, flb2.fl,
+                                               bin_b.bin)
         if self.wsp is not None:
             lib.covar_workspace_flat_free(self.wsp)
-            self.wsp = None
-        self.wsp = lib.covar_workspace_flat_init_py(fla1.fl, fla2.fl,
-                                                    bin_a.bin,
-                                                    flb1.fl, flb2.fl,
-                                                    bin_b.bin)
+        self.wsp = wsp
 
     def write_to(self, fname):
         """ Writes the contents of an :obj:`NmtCovarianceWorkspaceFlat` object
diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index d4524ce..d3c2416 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -157,10 +157,10 @@ class NmtWorkspace(object):
                 mode-coupling matrix will not be read. This can save
                 significant IO time.
         """
+        wsp = lib.read_workspace(fname, int(read_unbinned_MCM))
         if self.wsp is not None:
             lib.workspace_free(self.wsp)
-            self.wsp = None
-        self.wsp = lib.read_workspace(fname, int(read_unbinned_MCM))
+        self.wsp = wsp
         self.has_unbinned = read_unbinned_MCM
 
     def update_beams(self, beam1, beam2):
@@ -244,10 +244,6 @@ class NmtWorkspace(object):
             raise ValueError(f"Maximum multipoles in bins ({bins.lmax}) "
                              f"and fields ({fl1.ainfo.lmax}) "
                              "are not the same.")
-        if self.wsp is not None:
-            lib.workspace_free(self.wsp)
-            self.wsp = None
-
         anisotropic_mask_any = fl1.anisotropic_mask or fl2.anisotropic_mask
         if anisotropic_mask_any and (l_toeplitz >= 0):
             raise NotImplementedError("Toeplitz approximation not "
@@ -316,7 +312,7 @@ class NmtWorkspace(object):
         beam2 = fl2.beam[:fl2.ainfo.lmax+1]
 
         if anisotropic_mask_any:
-            self.wsp = lib.comp_coupling_matrix_anisotropic(
+            wsp = lib.comp_coupling_matrix_anisotropic(
                 int(fl1.spin), int(fl2.spin),
                 int(fl1.anisotropic_mask), int(fl2.anisotropic_mask),
                 int(fl1.ainfo.lmax), int(fl1.ainfo_mask.lmax),
@@ -325,7 +321,7 @@ class NmtWorkspace(object):
                 beam1, beam2, bins.bin,
                 int(norm_type), wawb)
         else:
-            self.wsp = lib.comp_coupling_matrix(
+            wsp = lib.comp_coupling_matrix(
                 int(fl1.spin), int(fl2.spin),
                 int(fl1.ainfo.lmax), int(fl1.ainfo_mask.lmax),
                 int(fl1.pure_e), int(fl1.pure_b),
@@ -333,6 +329,9 @@ class NmtWorkspace(object):
                 int(norm_type), wawb,
                 beam1, beam2, pcl_mask.flatten()-Nw,
                 bins.bin, int(is_teb), l_toeplitz, l_exact, dl_band)
+        if self.wsp is not None:
+            lib.workspace_free(self.wsp)
+        self.wsp = wsp
         self.has_unbinned = True
 
     def write_to(self, fname):
@@ -523,10 +522,10 @@ class NmtWorkspaceFlat(object):
         Args:
             fname (:obj:`str`): Input file name.
         """
+        wsp = lib.read_workspace_flat(fname)
         if self.wsp is not None:
             lib.workspace_flat_free(self.wsp)
-            self.wsp = None
-        self.wsp = lib.read_workspace_flat(fname)
+        self.wsp = wsp
 
     def compute_coupling_matrix(self, fl1, fl2, bins, ell_cut_x=[1., -1.],
                                 ell_cut_y=[1., -1.], is_teb=False):
@@ -551,11 +550,7 @@ class NmtWorkspaceFlat(object):
                 case, ``fl1`` must be a spin-0 field and ``fl2`` must be
                 spin-s.
         """
-        if self.wsp is not None:
-            lib.workspace_flat_free(self.wsp)
-            self.wsp = None
-
-        self.wsp = lib.comp_coupling_matrix_flat(
+        wsp = lib.comp_coupling_matrix_flat(
             fl1.fl,
             fl2.fl,
             bins.bin,
@@ -565,6 +560,9 @@ class NmtWorkspaceFlat(object):
             ell_cut_y[1],
             int(is_teb),
         )
+        if self.wsp is not None:
+            lib.workspace_flat_free(self.wsp)
+        self.wsp = wsp
 
     def write_to(self, fname):
         """ Writes the contents of an :obj:`NmtWorkspaceFlat` object
-- 
2.43.0


From b408426d6d0a1d4e6f5d7d3579e7662959bac97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 13/62] fix: FKP-normalised workspaces read from a file can be
 rebinned

---
 src/nmt_io.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index bb53372..04e01e4 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -327,6 +327,11 @@ static void nmt_coupling_binned_fromhdus(fitsfile *fptr,
   for(ii=0;ii<n_el;ii++)
     w->coupling_matrix_perm->data[ii]=perm[ii];
   free(perm);
+
+  //With the FKP normalisation, the binned matrix is w2 times the identity.
+  w->w2=0;
+  if(w->norm_type==1)
+    w->w2=gsl_matrix_get(w->coupling_matrix_binned,0,0);
 }
 
 static void check_fits(int status,char *fname,int is_read)
-- 
2.43.0


From 3106a12227ef5c68efbe9ee4f0363aba539d40db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:44 +0000
Subject: [PATCH 14/62] fix: flat-sky simulations with a given seed depended on
 the number and order of threads

The Fourier modes along the Nyquist column and row also had half of their power.
---
 src/flatsky_utils.c | 55 ++++++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 28 deletions(-)

diff --git a/src/flatsky_utils.c b/src/flatsky_utils.c
index 4f8c387..f73c9a2 100644
--- a/src/flatsky_utils.c
+++ b/src/flatsky_utils.c
@@ -478,22 +478,25 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
   for(imap=0;imap<nmaps;imap++)
     alms[imap]=dftw_malloc(nmodes*sizeof(fcomplex));
 
+  //White random numbers. Drawn serially from a single stream, so that the
+  //result depends only on the seed (and not on the number of threads).
+  long imode;
+  gsl_rng *rng=init_rng((unsigned int)seed);
+  for(imode=0;imode<nmodes;imode++) {
+    for(imap=0;imap<nmaps;imap++) {
+      double dr,di;
+      rng_gauss(rng,&dr,&di);
+      alms[imap][imode]=(fcomplex)(dr+I*di);
+    }
+  }
+  end_rng(rng);
+
   //Switch off error handler for Cholesky decomposition
   gsl_error_handler_t *geh=gsl_set_error_handler_off();
 
-  int numthr=0;
-
 #pragma omp parallel default(none)			\
-  shared(nx,ny,lx,ly,nmaps,cells,beam,seed,alms,numthr)
+  shared(nx,ny,lx,ly,nmaps,cells,beam,alms)
   {
-    //This is to avoid using the omp.h library
-    int ithr;
-#pragma omp critical
-    {
-      ithr=numthr;
-      numthr++;
-    }
-
     int iy;
     double dkx=2*M_PI/lx,dky=2*M_PI/ly;
     double inv_dkvol=1./(dkx*dky);
@@ -505,8 +508,6 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
     gsl_vector *eval =gsl_vector_alloc(nmaps);
     gsl_matrix *evec =gsl_matrix_alloc(nmaps,nmaps); 
     gsl_eigen_symmv_workspace *wsym=gsl_eigen_symmv_alloc(nmaps);
-    unsigned int seed_thr=(unsigned int)(seed+ithr);
-    gsl_rng *rng=init_rng(seed_thr);
     gsl_interp_accel *intacc_cells=gsl_interp_accel_alloc();
     gsl_interp_accel *intacc_beam=gsl_interp_accel_alloc();
 
@@ -523,6 +524,10 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
 	flouble kx=ix*dkx;
 	long index=ix+((long)(nx/2+1))*iy;
 	flouble kmod=sqrt(kx*kx+ky*ky);
+	//Columns where k_y and -k_y are complex conjugates of each other
+	int is_conj=((ix==0) || (2*ix==nx));
+	if(is_conj && (2*iy>ny)) //Filled with its conjugate
+	  continue;
 	if(kmod<0) {
 	  for(imp1=0;imp1<nmaps;imp1++)
 	    alms[imp1][index]=0;
@@ -543,10 +548,9 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
 	  //Take square root
 	  gsl_eigen_symmv(clmat,eval,evec,wsym);
 	  for(imp1=0;imp1<nmaps;imp1++) {
-	    double dr,di; //At the same time get white random numbers
-	    rng_gauss(rng,&dr,&di);
-	    gsl_vector_set(rv1,imp1,dr);
-	    gsl_vector_set(iv1,imp1,di);
+	    //At the same time get white random numbers
+	    gsl_vector_set(rv1,imp1,creal(alms[imp1][index]));
+	    gsl_vector_set(iv1,imp1,cimag(alms[imp1][index]));
 	    for(imp2=0;imp2<nmaps;imp2++) {
 	      double oij=gsl_matrix_get(evec,imp1,imp2);
 	      double lambda=gsl_vector_get(eval,imp2);
@@ -563,17 +567,13 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
 	    flouble bm=nmt_k_function_eval(beam[imp1],kmod,intacc_beam);
 	    flouble a_re=bm*gsl_vector_get(rv2,imp1);
 	    flouble a_im=bm*gsl_vector_get(iv2,imp1);
-	    if(ix==0) {
-	      if(iy>ny/2)
-		continue;
+	    if(is_conj) {
+	      if((iy==0) || (2*iy==ny)) //Real mode
+		alms[imp1][index]=(fcomplex)(M_SQRT2*a_re);
 	      else {
-		if(iy==0)
-		  alms[imp1][index]=(fcomplex)(M_SQRT2*a_re+I*0*a_im);
-		else {
-		  int iyy=ny-iy;
-		  alms[imp1][index]=(fcomplex)(a_re+I*a_im);
-		  alms[imp1][ix+((long)(nx/2+1))*iyy]=(fcomplex)(a_re-I*a_im);
-		}
+		int iyy=ny-iy;
+		alms[imp1][index]=(fcomplex)(a_re+I*a_im);
+		alms[imp1][ix+((long)(nx/2+1))*iyy]=(fcomplex)(a_re-I*a_im);
 	      }
 	    }
 	    else
@@ -590,7 +590,6 @@ fcomplex **fs_synalm(int nx,int ny,flouble lx,flouble ly,int nmaps,
     gsl_vector_free(eval);
     gsl_matrix_free(evec);
     gsl_eigen_symmv_free(wsym);
-    end_rng(rng);
     gsl_interp_accel_free(intacc_cells);
     gsl_interp_accel_free(intacc_beam);
   } //omp end parallel
-- 
2.43.0


From 20d3576584e3081d2f736a53963327bd27f6ad99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 15/62] fix: refuse anisotropic weights that are
 negative-definite, or not positive for weights of small amplitude

---
 pymaster/field.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pymaster/field.py b/pymaster/field.py
index 56020d1..41feb36 100644
--- a/pymaster/field.py
+++ b/pymaster/field.py
@@ -158,8 +158,9 @@ class NmtField(object):
                                  "either of them is passed.")
             # Check that the noise covariance that the masks derive from
             # is positive-definite
-            mask_scale = np.mean(mask+mask_22)
-            if np.any(mask*mask_22-mask_12**2 < -1E-5*mask_scale):
+            mask_scale = 0.5*np.mean(np.fabs(mask)+np.fabs(mask_22))
+            if (np.any(mask*mask_22-mask_12**2 < -1E-5*mask_scale**2) or
+                    np.any(mask+mask_22 < -1E-5*mask_scale)):
                 raise ValueError("The anisotropic mask does not seem to be "
                                  "positive-definite.")
             mask0 = (0.5*(mask + mask_22)).astype(np.float64)
-- 
2.43.0


From 9050ccbab7b8f234913231adcfa5d1475e4011be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 16/62] fix: refuse purified fields and joint matrices together
 with anisotropic masks

---
 pymaster/workspaces.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index d3c2416..a8153a7 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -248,6 +248,11 @@ class NmtWorkspace(object):
         if anisotropic_mask_any and (l_toeplitz >= 0):
             raise NotImplementedError("Toeplitz approximation not "
                                       "implemented for anisotropic masks.")
+        if anisotropic_mask_any and (is_teb or fl1.pure_e or fl1.pure_b or
+                                     fl2.pure_e or fl2.pure_b):
+            raise NotImplementedError("Purification and joint "
+                                      "temperature-polarization matrices not "
+                                      "implemented for anisotropic masks.")
         ut._toeplitz_sanity(l_toeplitz, l_exact, dl_band,
                             bins.bin.ell_max, fl1, fl2)
 
-- 
2.43.0


From 3d88ff3b13e81f7e7d157f8053b1f5b02019cb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 17/62] fix: default lmax of rectangular maps could be one too
 small due to rounding

---
 pymaster/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index b8a717c..afa0dde 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -433,7 +433,8 @@ class NmtMapInfo(object):
             return 3*self.nside-1
         else:
             dxmin = min(self.d_theta, self.d_phi)
-            return int(np.pi/dxmin)
+            # The margin protects integers from rounding errors
+            return int(np.pi/dxmin+1E-2)
 
 
 class NmtAlmInfo(object):
-- 
2.43.0


From 14dcb0bbb0c84248e381b6511bd07ea32892810a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:18 +0000
Subject: [PATCH 18/62] fix: iterated transforms of rectangular patches
 depended on the rows the patch was cut at

The residuals were only evaluated on the rings of the patch, instead of over the full sphere (where the map is zero).
---
 pymaster/utils.py | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index afa0dde..d259aed 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -131,7 +131,8 @@ def get_default_params():
 
 class _SHTInfo(object):
     def __init__(self, nring, theta, phi0, nphi, weight,
-                 is_CAR=False, nx_short=-1, nx_full=-1, nside=-1):
+                 is_CAR=False, nx_short=-1, nx_full=-1, nside=-1,
+                 full_rings=None):
         self.nring = nring
         self.theta = theta
         self.phi0 = phi0
@@ -145,6 +146,8 @@ class _SHTInfo(object):
         self.offsets = off.astype(np.uint64, copy=False)
         self.weight = weight
         self.nside = nside
+        # Index of the first ring, and all the rings in the sphere (CAR only)
+        self.full_rings = full_rings
 
     @classmethod
     def from_rectpix(cls, n_theta, theta_min, d_theta,
@@ -164,12 +167,17 @@ class _SHTInfo(object):
         w = ducc0.sht.experimental.get_gridweights('CC', nth_full)
         w *= d_phi/(2*np.pi)
         weight_th = w[i_theta_0:i_theta_0+n_theta]
+        full_rings = None
+        if n_theta < nth_full:
+            theta_full = theta_min + (np.arange(nth_full)-i_theta_0)*d_theta
+            full_rings = (i_theta_0, np.clip(theta_full, 0, np.pi), w)
         # Alternatively, we could use the pixel area as below
         # weight_th = (np.cos(th[:-1])-np.cos(th[1:]))*d_phi
 
         return cls(nring=nring, theta=theta, phi0=phi0,
                    nphi=nphi, weight=weight_th, is_CAR=True,
-                   nx_short=nx_short, nx_full=nx_full)
+                   nx_short=nx_short, nx_full=nx_full,
+                   full_rings=full_rings)
 
     @classmethod
     def from_nside(cls, nside):
@@ -218,6 +226,24 @@ class _SHTInfo(object):
         maps_pad = maps_pad.reshape(shape_flat)
         return maps_pad
 
+    def pad_rings(self, maps):
+        # Adds all missing rings (filled with zeros) to a padded map.
+        # Returns the new map and the corresponding `_SHTInfo`.
+        if self.full_rings is None:
+            return maps, self
+        i0, theta, weight = self.full_rings
+        nring = len(theta)
+        si = _SHTInfo(nring=nring, theta=theta,
+                      phi0=np.zeros(nring)+self.phi0[0],
+                      nphi=np.zeros(nring, dtype=np.uint64)+self.nx_full,
+                      weight=weight, is_CAR=True,
+                      nx_short=self.nx_full, nx_full=self.nx_full)
+        pre = maps.shape[:-1]
+        maps_pad = np.zeros(pre + (nring, self.nx_full))
+        maps_pad[..., i0:i0+self.nring, :] = \
+            maps.reshape(pre + (self.nring, self.nx_full))
+        return maps_pad.reshape(pre + (nring*self.nx_full,)), si
+
     def unpad_map(self, maps):
         if not self.is_CAR:
             return maps
@@ -888,9 +914,13 @@ def map2alm(map, spin, map_info, alm_info, *, n_iter):
     m2a = _m2a_d[nmt_params.sht_calculator]
     a2m = _a2m_d[nmt_params.sht_calculator]
     alm = m2a(map, spin, map_info.si, alm_info)
+    if n_iter > 0:
+        # The map is zero outside of its footprint, and the
+        # residuals must account for this over the full sphere.
+        map, si = map_info.si.pad_rings(map)
     for i in range(n_iter):
-        dmap = a2m(alm, spin, map_info.si, alm_info)-map
-        alm -= m2a(dmap, spin, map_info.si, alm_info)
+        dmap = a2m(alm, spin, si, alm_info)-map
+        alm -= m2a(dmap, spin, si, alm_info)
     return alm
 
 
-- 
2.43.0


From bef135a45afae79fb5bd42f9d8d78e33b81a8cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 19/62] fix: catalogue fields without values and clustering
 fields lack nmaps

---
 pymaster/field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymaster/field.py b/pymaster/field.py
index 41feb36..8dd34fd 100644
--- a/pymaster/field.py
+++ b/pymaster/field.py
@@ -949,6 +949,7 @@ class NmtFieldCatalog(NmtField):
                 raise ValueError("If field is None, spin needs to be "
                                  "provided.")
             self.spin = spin
+            self.nmaps = 2 if spin else 1
             return
 
         # Ensure it's 2D
@@ -1017,6 +1018,7 @@ class NmtFieldCatalogClustering(NmtField):
         self.ainfo = ut.NmtAlmInfo(lmax)
         self._alpha = 0
         self.spin = 0
+        self.nmaps = 1
         self.is_catalog = True
 
         # The remaining attributes are only required for non-lite maps
-- 
2.43.0


From 8a8d69c2bac6cc2b46810a2ff4f085bfe2c8f655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 20/62] fix: one-call estimator failed for lightweight and
 catalogue fields

---
 pymaster/workspaces.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index a8153a7..f22db83 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -1059,14 +1059,14 @@ def compute_full_master(f1, f2, b=None, cl_noise=None, cl_guess=None,
         if cl_guess.shape != pcl_shape:
             raise ValueError(
                 f"Guess Cl should have shape {pcl_shape}")
-        clg = cl_guess
-    else:
-        clg = np.zeros(pcl_shape)
 
     # Data power spectrum
     pcld = compute_coupled_cell(f1, f2)
-    # Deprojection bias
-    pclb = deprojection_bias(f1, f2, clg)
+    # Deprojection bias (zero if no guess is given)
+    if cl_guess is not None:
+        pclb = deprojection_bias(f1, f2, cl_guess)
+    else:
+        pclb = np.zeros(pcl_shape)
 
     if workspace is None:
         w = NmtWorkspace.from_fields(
-- 
2.43.0


From ac6a47b148cc2c0ff914b6a948354acfdb6187bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 21/62] fix: deprojection bias inexact for transforms with
 iterations

---
 pymaster/workspaces.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index f22db83..bd7dadb 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -722,9 +722,10 @@ def deprojection_bias(f1, f2, cl_guess, n_iter=None):
                            f1.nmaps, f2.nmaps,
                            f1.ainfo.lmax+1))
         for ij, tj in enumerate(f1.temp):
-            # SHT(v*fj)
+            # SHT(v*fj). No iterations, since this stands for the inner
+            # product of the template and the sky used in deprojection.
             ftild_j = ut.map2alm(tj*f1.mask[None, :], f1.spin,
-                                 f1.minfo, f1.ainfo, n_iter=n_iter)
+                                 f1.minfo, f1.ainfo, n_iter=0)
             # C^ba*SHT[v*fj]
             ftild_j = np.array([
                 np.sum([hp.almxfl(ftild_j[m], clg[m, n],
@@ -755,9 +756,9 @@ def deprojection_bias(f1, f2, cl_guess, n_iter=None):
                                f1.ainfo.lmax+1))
 
         for ij, tj in enumerate(f2.temp):
-            # SHT(w*gj)
+            # SHT(w*gj) (no iterations, as above)
             gtild_j = ut.map2alm(tj*f2.mask[None, :], f2.spin,
-                                 f2.minfo, f2.ainfo, n_iter=n_iter)
+                                 f2.minfo, f2.ainfo, n_iter=0)
             # C^ab*SHT[w*gj]
             gtild_j = np.array([
                 np.sum([hp.almxfl(gtild_j[n], clg[m, n],
-- 
2.43.0


From f5dbb6c6b282cb40fd85cd35edb018cdf6f93066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 22/62] fix: deprojection bias of a field with an anisotropic
 mask and a field with templates

---
 pymaster/workspaces.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index bd7dadb..1f28fd6 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -701,7 +701,13 @@ def deprojection_bias(f1, f2, cl_guess, n_iter=None):
                                n_iter=n_iter, return_maps=False,
                                task=[fld.pure_e, fld.pure_b])
         else:
-            return ut.map2alm(mp*fld.mask[None, :], fld.spin,
+            mpw = mp*fld.mask[None, :]
+            if fld.anisotropic_mask:
+                mpw = mpw + np.array([mp[0]*fld.mask_a[0] +
+                                      mp[1]*fld.mask_a[1],
+                                      mp[0]*fld.mask_a[1] -
+                                      mp[1]*fld.mask_a[0]])
+            return ut.map2alm(mpw, fld.spin,
                               fld.minfo, fld.ainfo, n_iter=n_iter)
 
     pcl_shape = (f1.nmaps * f2.nmaps, f1.ainfo.lmax+1)
-- 
2.43.0


From e7100ac3047b3717b8f080475c5d9222c22280a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:15 +0000
Subject: [PATCH 23/62] fix: noise deprojection bias with variance maps on
 flipped rectangular grids

---
 pymaster/workspaces.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index 1f28fd6..537b921 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -826,10 +826,13 @@ def uncorr_noise_deprojection_bias(f1, map_var, n_iter=None):
     if n_iter is None:
         n_iter = ut.nmt_params.n_iter_default
 
-    # Flatten in case it's a 2D map
-    sig2 = map_var.flatten()
-    if len(sig2) != f1.minfo.npix:
+    # Same pixel ordering as the field
+    sig2 = np.array(map_var, dtype=np.float64)
+    if sig2.size != f1.minfo.npix:
         raise ValueError("Variance map doesn't match map resolution")
+    if not f1.minfo.is_healpix:
+        sig2 = sig2.reshape([f1.minfo.ny, f1.minfo.nx])
+    sig2 = f1.minfo.reform_map(sig2).flatten()
 
     pcl_shape = (f1.nmaps * f1.nmaps, f1.ainfo.lmax+1)
 
-- 
2.43.0


From 87bd58d0f9cf98b6a5f5cea6aeffc6dfba51fcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:31 +0000
Subject: [PATCH 24/62] fix: noise deprojection bias of spin and purified
 fields

---
 pymaster/workspaces.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index 537b921..9f2adb7 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -848,14 +848,22 @@ def uncorr_noise_deprojection_bias(f1, map_var, n_iter=None):
                        f1.ainfo.lmax+1))
     for j, fj in enumerate(f1.temp):
         # SHT(v^2 sig^2 f_j)
-        fj_v_s = ut.map2alm(fj*(f1.mask**2*sig2)[None, :], f1.spin,
-                            f1.minfo, f1.ainfo, n_iter=n_iter)
+        # (with the same purification as the field, if any)
+        if f1.pure_e or f1.pure_b:
+            fj_v_s = f1._purify(f1.mask, f1.get_mask_alms(),
+                                fj*(f1.mask*sig2)[None, :],
+                                n_iter=n_iter, return_maps=False,
+                                task=[f1.pure_e, f1.pure_b])
+        else:
+            fj_v_s = ut.map2alm(fj*(f1.mask**2*sig2)[None, :], f1.spin,
+                                f1.minfo, f1.ainfo, n_iter=n_iter)
         for i, fi in enumerate(f1.alm_temp):
             cl = np.array([[hp.alm2cl(a1, a2, lmax=f1.ainfo.lmax)
                             for a1 in fi]
                            for a2 in fj_v_s])
-            pcl_ff[i, j, :, :, :] = cl
-    clb -= 2*np.einsum('ij,ijklm', f1.iM, pcl_ff)
+            # Noise-template and template-noise terms
+            pcl_ff[i, j, :, :, :] = cl + np.transpose(cl, (1, 0, 2))
+    clb -= np.einsum('ij,ijklm', f1.iM, pcl_ff)
 
     # Second term in Eq. 39 of the namaster paper
     # PCL(fi, fs)
-- 
2.43.0


From 4364b6a3151daf80da8dc06a94fb868108f959d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:55 +0000
Subject: [PATCH 25/62] fix: covariance of coupled spectra depended on the
 bands (prefactors; uninitialised multipoles outside all bands)

---
 src/nmt_covar.c | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/nmt_covar.c b/src/nmt_covar.c
index 75a74ee..2e84ef9 100644
--- a/src/nmt_covar.c
+++ b/src/nmt_covar.c
@@ -113,12 +113,12 @@ void  nmt_compute_gaussian_covariance_coupled(nmt_covar_workspace *cw,
   shared(wa,wb,clac,clad,clbc,clbd)			\
   shared(nmaps_a,nmaps_b,nmaps_c,nmaps_d,covar_out)
   {
-    int band_a;
+    int la;
 
 #pragma omp for
-    for(band_a=0;band_a<wa->bin->n_bands;band_a++) {
-      int band_b;
-      for(band_b=0;band_b<wb->bin->n_bands;band_b++) {
+    for(la=0;la<=cw->lmax;la++) {
+      int lb;
+      for(lb=0;lb<=cw->lmax;lb++) {
 	int ia;
 	for(ia=0;ia<nmaps_a;ia++) {
 	  int ib;
@@ -128,14 +128,8 @@ void  nmt_compute_gaussian_covariance_coupled(nmt_covar_workspace *cw,
 	    for(ic=0;ic<nmaps_c;ic++) {
 	      int id;
 	      for(id=0;id<nmaps_d;id++) {
-		int ila;
-		int icl_b=id+nmaps_d*ic;
-		for(ila=0;ila<wa->bin->nell_list[band_a];ila++) {
-		  int ilb;
-		  int la=wa->bin->ell_list[band_a][ila];
-		  for(ilb=0;ilb<wb->bin->nell_list[band_b];ilb++) {
 		    int iap;
-		    int lb=wb->bin->ell_list[band_b][ilb];
+		    int icl_b=id+nmaps_d*ic;
 		    double xis_1122[6]={cw->xi00_1122[la][lb],
                                         cw->xi02_1122[la][lb],
                                         cw->xi22p_1122[la][lb],
@@ -146,7 +140,6 @@ void  nmt_compute_gaussian_covariance_coupled(nmt_covar_workspace *cw,
                                         cw->xi22p_1221[la][lb],
 					cw->xi22m_1221[la][lb],
                                         -cw->xi22m_1221[la][lb],0};
-		    double prefac_ell=wa->bin->f_ell[band_a][ila]*wb->bin->f_ell[band_b][ilb];
                     double cov_element=0;
 		    for(iap=0;iap<nmaps_a;iap++) {
 		      int ibp;
@@ -166,14 +159,12 @@ void  nmt_compute_gaussian_covariance_coupled(nmt_covar_workspace *cw,
 			    int ind_1221=cov_get_coupling_pair_index(nmaps_a,nmaps_d,nmaps_b,nmaps_c,
 								     ia,iap,id,idp,ib,ibp,ic,icp);
 			    
-                            cov_element+=(xis_1122[ind_1122]*fac_1122+xis_1221[ind_1221]*fac_1221)*prefac_ell;
+                            cov_element+=(xis_1122[ind_1122]*fac_1122+xis_1221[ind_1221]*fac_1221);
 			  }
 			}
 		      }
 		    }
                     covar_out[((wa->ncls*la+icl_a)*(cw->lmax+1)+lb)*wb->ncls+icl_b]=cov_element;
-		  }
-		}
 	      }
 	    }
 	  }
-- 
2.43.0


From 75b109e6b915c69db9e752548e66880f01ab0dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:53 +0000
Subject: [PATCH 26/62] fix: error messages longer than 256 characters
 overflowed a buffer

---
 src/utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.c b/src/utils.c
index 57ecc14..5971ad5 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -18,7 +18,7 @@ void report_error(int level,char *fmt,...)
   char msg[256];
 
   va_start(args,fmt);
-  vsprintf(msg,fmt,args);
+  vsnprintf(msg,sizeof(msg),fmt,args);
   va_end(args);
   
   if(level) {
-- 
2.43.0


From 56811ae4ec0ea9fd49213da27fb766e909be1cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:47 +0000
Subject: [PATCH 27/62] fix: numerical errors inside GSL (e.g. singular
 coupling matrices) aborted the process

---
 src/utils.c | 7 +++++++
 src/utils.h | 1 +
 2 files changed, 8 insertions(+)

diff --git a/src/utils.c b/src/utils.c
index 5971ad5..d62f558 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -7,9 +7,16 @@ int nmt_exception_status;
 int nmt_error_policy=EXIT_ON_ERROR;
 char nmt_error_message[256]="No error\n";
 
+//Reports GSL errors (e.g. singular matrices) instead of aborting
+static void gsl_error_reporter(const char *reason,const char *file,int line,int gsl_errno)
+{
+  report_error(NMT_ERROR_GSL,"GSL error: %s\n",reason);
+}
+
 void set_error_policy(int i)
 {
   nmt_error_policy=i;
+  gsl_set_error_handler(&gsl_error_reporter);
 }
 
 void report_error(int level,char *fmt,...)
diff --git a/src/utils.h b/src/utils.h
index b324ac6..e73c3f2 100644
--- a/src/utils.h
+++ b/src/utils.h
@@ -34,6 +34,7 @@ extern char nmt_error_message[256];
 #define NMT_ERROR_VALUE 1014
 #define NMT_ERROR_NOT_IMPLEMENTED 1015
 #define NMT_ERROR_LITE 1016
+#define NMT_ERROR_GSL 1017
 #endif //NO_DOXY
 
 /**
-- 
2.43.0


From 85a6d790eae68354407f2574705782698dacff72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:54 +0000
Subject: [PATCH 28/62] fix: rectangular maps whose rings are not those of the
 Clenshaw-Curtis grid were silently given wrong weights

---
 pymaster/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index d259aed..f306887 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -363,6 +363,11 @@ class NmtMapInfo(object):
                 raise ValueError("The colatitude map edges are "
                                  "outside the sphere")
 
+            # Check that the rings are those of the CC grid
+            if np.fabs(round(theta_min/dth) - theta_min/dth) > 0.01:
+                raise ValueError("The pixel rings must be aligned with "
+                                 "the poles")
+
             if np.fabs(nx*d_ra) > 360+0.1*np.fabs(d_ra):
                 raise ValueError("Seems like you're wrapping the "
                                  "sphere more than once")
-- 
2.43.0


From a4eb733f10279144fca6e983efdbb27f0cda66fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:06 +0000
Subject: [PATCH 29/62] fix: disc queries missed pixels of rings almost
 completely inside the disc

---
 src/healpix_extra.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/healpix_extra.c b/src/healpix_extra.c
index d220180..fe9293c 100644
--- a/src/healpix_extra.c
+++ b/src/healpix_extra.c
@@ -325,6 +325,11 @@ void he_in_ring(int nside,int iz,flouble phi0,flouble dphi,
     kshift=1;
   }
 
+  //Does the arc cover all pixels? (both ends may fall in the same one)
+  if(nint_he(nr*(phi0+dphi)/(2*M_PI)-0.5*kshift)-
+     nint_he(nr*(phi0-dphi)/(2*M_PI)-0.5*kshift)>=nr-1)
+    take_all=1;
+
   //Constructs the pixel list
   if(take_all) {
     *nir=ipix2-ipix1+1;
-- 
2.43.0


From 6b3c921afae035251f4e3a2577216ae4119719c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:51 +0000
Subject: [PATCH 30/62] fix: mask apodization with scales close to the pixel
 size or above 72 degrees crashed or left pixels unmasked

---
 src/healpix_extra.c |  2 ++
 src/nmt_mask.c      | 43 ++++++++++++++++++++++++++++++-------------
 2 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/healpix_extra.c b/src/healpix_extra.c
index fe9293c..d9169a7 100644
--- a/src/healpix_extra.c
+++ b/src/healpix_extra.c
@@ -422,6 +422,8 @@ void he_query_disc(int nside,double cth0,double phi,flouble radius,
     radius_eff=radius+1.071*M_PI/(4*((flouble)nside)); //TODO:check this
   else
     radius_eff=radius;
+  if(radius_eff>M_PI)
+    radius_eff=M_PI;
   cosang=cos(radius_eff);
 
   //Circle center
diff --git a/src/nmt_mask.c b/src/nmt_mask.c
index 2f89fc6..ebaad9b 100644
--- a/src/nmt_mask.c
+++ b/src/nmt_mask.c
@@ -1,6 +1,17 @@
 #include "config.h"
 #include "utils.h"
 
+//Upper bound for the number of pixels in a disc returned by `he_query_disc`, accounting
+//for those that only overlap with it.
+static int max_pixels_in_disc(long nside,double radius)
+{
+  double r=radius+3./nside;
+
+  if(r>M_PI)
+    r=M_PI;
+  return (int)(0.5*he_nside2npix(nside)*(1-cos(r)))+1;
+}
+
 static void apodize_mask_CX(long nside,flouble *mask_in,flouble *mask_out,flouble aposize,char *apotype)
 {
   long npix=he_nside2npix(nside);
@@ -37,25 +48,28 @@ static void apodize_mask_CX(long nside,flouble *mask_in,flouble *mask_out,floubl
     } //end omp for
   }//end omp parallel
 
-  int lenlist0=(int)(4*npix*(1-cos(1.2*aporad)));
-  if(lenlist0 < 2)
+  if(4*npix*(1-cos(1.2*aporad)) < 2)
     report_error(NMT_ERROR_APO,"Your apodization scale is too small for this pixel size\n");
-  
+  double radius=1.2*aporad;
+  if(radius>M_PI)
+    radius=M_PI;
+  int lenlist0=max_pixels_in_disc(nside,radius);
+
 #pragma omp parallel default(none)			\
   shared(vec,npix,x2_thr,inv_x2_thr,mask_in,mask_out)	\
-  shared(nside,cthv,phiv,aporad,apotyp,lenlist0)
+  shared(nside,cthv,phiv,radius,apotyp,lenlist0)
   {
     long ip;
-    int *listpix=my_malloc(lenlist0*sizeof(int));
+    int *listpix=my_malloc(2*(size_t)lenlist0*sizeof(int));
 
 #pragma omp for schedule(dynamic)
     for(ip=0;ip<npix;ip++) {
       if(mask_in[ip]>0) {
 	int j;
-	int lenlist_half=lenlist0/2;
+	int lenlist_half=lenlist0;
 	flouble *v0=vec+3*ip;
 	flouble x2dist=1000;
-	he_query_disc(nside,cthv[ip],phiv[ip],1.2*aporad,listpix,&lenlist_half,1);
+	he_query_disc(nside,cthv[ip],phiv[ip],radius,listpix,&lenlist_half,1);
 	for(j=0;j<lenlist_half;j++) {
 	  int ip2=listpix[j];
 	  if(mask_in[ip2]<=0) {
@@ -93,28 +107,31 @@ static void apodize_mask_smooth_binary(long nside,flouble *mask_in,flouble *mask
   double aporad=aposize*M_PI/180;
   memcpy(mask_out,mask_in,npix*sizeof(flouble));
 
-  int lenlist0=(int)(4*npix*(1-cos(2.5*aporad)));
-  if(lenlist0 < 2)
+  if(4*npix*(1-cos(2.5*aporad)) < 2)
     report_error(NMT_ERROR_APO,"Your apodization scale is too small for this pixel size\n");
+  double radius=2.5*aporad;
+  if(radius>M_PI)
+    radius=M_PI;
+  int lenlist0=max_pixels_in_disc(nside,radius);
 
 #pragma omp parallel default(none)                      \
-  shared(npix,mask_in,mask_out,nside,aporad,lenlist0)
+  shared(npix,mask_in,mask_out,nside,radius,lenlist0)
   {
     long ip;
-    int *listpix=my_malloc(lenlist0*sizeof(int));
+    int *listpix=my_malloc(2*(size_t)lenlist0*sizeof(int));
 
 #pragma omp for schedule(dynamic)
     for(ip=0;ip<npix;ip++) {
       if(mask_in[ip]<=0) {
 	int j;
 	flouble v[3],cthv,phiv;
-	int lenlist_half=lenlist0/2;
+	int lenlist_half=lenlist0;
 	he_pix2vec_ring(nside,ip,v);
 	cthv=v[2];
 	phiv=atan2(v[1],v[0]);
 	if(phiv<0)
 	  phiv+=2*M_PI;
-	he_query_disc(nside,cthv,phiv,2.5*aporad,listpix,&lenlist_half,1);
+	he_query_disc(nside,cthv,phiv,radius,listpix,&lenlist_half,1);
 	for(j=0;j<lenlist_half;j++) {
 	  int ip2=listpix[j];
 #pragma omp atomic
-- 
2.43.0


From a0104a3d4d4cdf0c0c9b825314b0319da0f92b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:20 +0000
Subject: [PATCH 31/62] fix: flat-sky apodization assumed square pixels

---
 src/nmt_mask_flat.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nmt_mask_flat.c b/src/nmt_mask_flat.c
index bb29c96..ffe4773 100644
--- a/src/nmt_mask_flat.c
+++ b/src/nmt_mask_flat.c
@@ -24,7 +24,7 @@ static void apodize_mask_CX(nmt_flatsky_info *fs,flouble *mask_in,flouble *mask_
     double x_thr=aporad;
     double inv_x_thr=1./x_thr;
     flouble dx=fs->lx/fs->nx;
-    flouble dy=fs->lx/fs->nx;
+    flouble dy=fs->ly/fs->ny;
     int nx_patch=(int)(1.2*aporad/dx);
     int ny_patch=(int)(1.2*aporad/dy);
     rarr=my_malloc((2*ny_patch+1)*sizeof(flouble *));
@@ -95,7 +95,7 @@ static void apodize_mask_smooth(nmt_flatsky_info *fs,flouble *mask_in,flouble *m
     flouble **rarr;
     double x_thr=2.5*aporad;
     flouble dx=fs->lx/fs->nx;
-    flouble dy=fs->lx/fs->nx;
+    flouble dy=fs->ly/fs->ny;
     int nx_patch=(int)(1.2*x_thr/dx);
     int ny_patch=(int)(1.2*x_thr/dy);
     rarr=my_malloc((2*ny_patch+1)*sizeof(flouble *));
-- 
2.43.0


From 58349ef704ea5dfb3013f1894119b92a0025a281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:56 +0000
Subject: [PATCH 32/62] fix: flat-sky apodization with scales much larger than
 the patch exhausted memory

---
 src/nmt_mask_flat.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nmt_mask_flat.c b/src/nmt_mask_flat.c
index ffe4773..988d4d6 100644
--- a/src/nmt_mask_flat.c
+++ b/src/nmt_mask_flat.c
@@ -25,8 +25,8 @@ static void apodize_mask_CX(nmt_flatsky_info *fs,flouble *mask_in,flouble *mask_
     double inv_x_thr=1./x_thr;
     flouble dx=fs->lx/fs->nx;
     flouble dy=fs->ly/fs->ny;
-    int nx_patch=(int)(1.2*aporad/dx);
-    int ny_patch=(int)(1.2*aporad/dy);
+    int nx_patch=(int)(fmin(1.2*aporad/dx,fs->nx));
+    int ny_patch=(int)(fmin(1.2*aporad/dy,fs->ny));
     rarr=my_malloc((2*ny_patch+1)*sizeof(flouble *));
     for(iy=0;iy<=2*ny_patch;iy++) {
       int ix;
@@ -96,8 +96,8 @@ static void apodize_mask_smooth(nmt_flatsky_info *fs,flouble *mask_in,flouble *m
     double x_thr=2.5*aporad;
     flouble dx=fs->lx/fs->nx;
     flouble dy=fs->ly/fs->ny;
-    int nx_patch=(int)(1.2*x_thr/dx);
-    int ny_patch=(int)(1.2*x_thr/dy);
+    int nx_patch=(int)(fmin(1.2*x_thr/dx,fs->nx));
+    int ny_patch=(int)(fmin(1.2*x_thr/dy,fs->ny));
     rarr=my_malloc((2*ny_patch+1)*sizeof(flouble *));
     for(iy=0;iy<=2*ny_patch;iy++) {
       int ix;
-- 
2.43.0


From 140f199960023523ff5aadba6f1ddda600e42cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 33/62] fix: scales for which the search radius is close to a
 full turn were refused as too small

---
 src/nmt_mask.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nmt_mask.c b/src/nmt_mask.c
index ebaad9b..8528be2 100644
--- a/src/nmt_mask.c
+++ b/src/nmt_mask.c
@@ -48,11 +48,11 @@ static void apodize_mask_CX(long nside,flouble *mask_in,flouble *mask_out,floubl
     } //end omp for
   }//end omp parallel
 
-  if(4*npix*(1-cos(1.2*aporad)) < 2)
-    report_error(NMT_ERROR_APO,"Your apodization scale is too small for this pixel size\n");
   double radius=1.2*aporad;
   if(radius>M_PI)
     radius=M_PI;
+  if(4*npix*(1-cos(radius)) < 2)
+    report_error(NMT_ERROR_APO,"Your apodization scale is too small for this pixel size\n");
   int lenlist0=max_pixels_in_disc(nside,radius);
 
 #pragma omp parallel default(none)			\
@@ -107,11 +107,11 @@ static void apodize_mask_smooth_binary(long nside,flouble *mask_in,flouble *mask
   double aporad=aposize*M_PI/180;
   memcpy(mask_out,mask_in,npix*sizeof(flouble));
 
-  if(4*npix*(1-cos(2.5*aporad)) < 2)
-    report_error(NMT_ERROR_APO,"Your apodization scale is too small for this pixel size\n");
   double radius=2.5*aporad;
   if(radius>M_PI)
     radius=M_PI;
+  if(4*npix*(1-cos(radius)) < 2)
+    report_error(NMT_ERROR_APO,"Your apodization scale is too small for this pixel size\n");
   int lenlist0=max_pixels_in_disc(nside,radius);
 
 #pragma omp parallel default(none)                      \
-- 
2.43.0


From a942cfa1fcf290276a4a4ae1b9834038ce9ae704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:12 +0000
Subject: [PATCH 34/62] fix: flat-sky coupling matrix used one lookup
 accelerator for two beams

The accelerator remembers a position in the table of one beam, which may lie
beyond the end of the other one: out-of-bounds reads for fields with
different beam tables.
---
 src/nmt_master_flat.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/nmt_master_flat.c b/src/nmt_master_flat.c
index 3520ff0..334d28c 100644
--- a/src/nmt_master_flat.c
+++ b/src/nmt_master_flat.c
@@ -168,7 +168,8 @@ nmt_workspace_flat *nmt_compute_coupling_matrix_flat(nmt_field_flat *fl1,nmt_fie
     flouble dky=2*M_PI/fs->ly;
     int iy1,ix1;
     int *n_cells_thr=my_calloc(w->bin->n_bands,sizeof(int));
-    gsl_interp_accel *intacc_beam=gsl_interp_accel_alloc();
+    gsl_interp_accel *intacc_beam1=gsl_interp_accel_alloc();
+    gsl_interp_accel *intacc_beam2=gsl_interp_accel_alloc();
 
 #pragma omp for
     for(iy1=0;iy1<fs->ny;iy1++) {
@@ -196,8 +197,8 @@ nmt_workspace_flat *nmt_compute_coupling_matrix_flat(nmt_field_flat *fl1,nmt_fie
 			 cimag(cmask1[index_here])*cimag(cmask2[index_here]));
 
 	kmod=sqrt(kx*kx+ky*ky);
-	beam1=nmt_k_function_eval(fl1->beam,kmod,intacc_beam);
-	beam2=nmt_k_function_eval(fl2->beam,kmod,intacc_beam);	
+	beam1=nmt_k_function_eval(fl1->beam,kmod,intacc_beam1);
+	beam2=nmt_k_function_eval(fl2->beam,kmod,intacc_beam2);	
 	kmodarr[index]=kmod;
 	beamprod[index]=beam1*beam2;
 	ik=nmt_bins_flat_search_fast(w->bin,kmod,ik);
@@ -265,7 +266,8 @@ nmt_workspace_flat *nmt_compute_coupling_matrix_flat(nmt_field_flat *fl1,nmt_fie
 	w->n_cells[iy1]+=n_cells_thr[iy1];
     } //end omp critical
     free(n_cells_thr);
-    gsl_interp_accel_free(intacc_beam);
+    gsl_interp_accel_free(intacc_beam1);
+    gsl_interp_accel_free(intacc_beam2);
   } //end omp parallel
   free(x_out_range);
   free(y_out_range);
-- 
2.43.0


From ed5c1564e40c6494c574337b054956117294618b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:52 +0000
Subject: [PATCH 35/62] fix: flat-sky averages paired modes of negative kx with
 the wrong ky

The Fourier modes with kx<0 are the complex conjugates of those at -k, not
those at (-kx,ky). The averages over Fourier modes were wrong for mode cuts
that are not symmetric in ky, as were the terms of the coupling matrix that
mix E and B modes.
---
 src/flatsky_utils.c   | 8 +++++---
 src/nmt_master_flat.c | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/flatsky_utils.c b/src/flatsky_utils.c
index f73c9a2..d73ab74 100644
--- a/src/flatsky_utils.c
+++ b/src/flatsky_utils.c
@@ -393,21 +393,23 @@ void fs_alm2cl(nmt_flatsky_info *fs,nmt_binning_scheme_flat *bin,
 	  if((ky>=lmn_y) && (ky<=lmx_y))
 	    continue;
 	  for(ix=0;ix<fs->nx;ix++) {
-	    int ix_here;
+	    int ix_here,iy_here;
 	    long index;
 	    flouble kmod,kx;
 	    if(2*ix<=fs->nx) {
 	      kx=ix*dkx;
 	      ix_here=ix;
+	      iy_here=iy;
 	    }
-	    else {
+	    else { //Complex conjugate of the mode at -k
 	      kx=-(fs->nx-ix)*dkx;
 	      ix_here=fs->nx-ix;
+	      iy_here=(fs->ny-iy)%fs->ny;
 	    }
 	    if((kx>=lmn_x) && (kx<=lmx_x))
 	      continue;
 
-	    index=ix_here+((long)(fs->nx/2+1))*iy;
+	    index=ix_here+((long)(fs->nx/2+1))*iy_here;
 	    kmod=sqrt(kx*kx+ky*ky);
 	    ik=nmt_bins_flat_search_fast(bin,kmod,ik);
 	    if(ik>=0) {
diff --git a/src/nmt_master_flat.c b/src/nmt_master_flat.c
index 334d28c..5a08144 100644
--- a/src/nmt_master_flat.c
+++ b/src/nmt_master_flat.c
@@ -181,17 +181,19 @@ nmt_workspace_flat *nmt_compute_coupling_matrix_flat(nmt_field_flat *fl1,nmt_fie
 	ky=-(fs->ny-iy1)*dky;
       for(ix1=0;ix1<fs->nx;ix1++) {
 	flouble kx,kmod,beam1,beam2;
-	int ix_here,index_here,index;
+	int ix_here,iy_here,index_here,index;
 	index=ix1+fs->nx*iy1;
 	if(2*ix1<=fs->nx) {
 	  kx=ix1*dkx;
 	  ix_here=ix1;
+	  iy_here=iy1;
 	}
-	else {
+	else { //Complex conjugate of the mode at -k
 	  kx=-(fs->nx-ix1)*dkx;
 	  ix_here=fs->nx-ix1;
+	  iy_here=(fs->ny-iy1)%fs->ny;
 	}
-	index_here=ix_here+(fs->nx/2+1)*iy1;
+	index_here=ix_here+(fs->nx/2+1)*iy_here;
 	
 	maskprod[index]=(creal(cmask1[index_here])*creal(cmask2[index_here])+
 			 cimag(cmask1[index_here])*cimag(cmask2[index_here]));
-- 
2.43.0


From 62fb78a4a486a9ba0024ed621702d9f0b5fc1314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:09 +0000
Subject: [PATCH 36/62] fix: flat-sky purification assumed square pixels

The derivatives of the mask used pixel indices instead of wave numbers, so
that E modes leaked into pure B modes on pixels that are not square.
---
 src/nmt_field_flat.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/nmt_field_flat.c b/src/nmt_field_flat.c
index de5d736..91c96d8 100644
--- a/src/nmt_field_flat.c
+++ b/src/nmt_field_flat.c
@@ -116,8 +116,8 @@ static void walm_x_lpower(nmt_flatsky_info *fs,fcomplex **walm_in,fcomplex **wal
   shared(fs,walm_in,walm_out,power)
   {
     int iy;
-    flouble dkx=2*M_PI/fs->nx;
-    flouble dky=2*M_PI/fs->ny;
+    flouble dkx=2*M_PI/fs->lx;
+    flouble dky=2*M_PI/fs->ly;
 
 #pragma omp for   
     for(iy=0;iy<fs->ny;iy++) {
@@ -190,8 +190,8 @@ void nmt_purify_flat(nmt_field_flat *fl,flouble *mask,fcomplex **walm0,
 #pragma omp parallel default(none) shared(fl,imap,alm_out,palm)
       {
 	int iy;
-	flouble dkx=2*M_PI/fl->fs->nx;
-	flouble dky=2*M_PI/fl->fs->ny;
+	flouble dkx=2*M_PI/fl->fs->lx;
+	flouble dky=2*M_PI/fl->fs->ly;
 	
 #pragma omp for
 	for(iy=0;iy<fl->fs->ny;iy++) {
@@ -228,8 +228,8 @@ void nmt_purify_flat(nmt_field_flat *fl,flouble *mask,fcomplex **walm0,
 #pragma omp parallel default(none) shared(fl,imap,alm_out,palm)
       {
 	int iy;
-	flouble dkx=2*M_PI/fl->fs->nx;
-	flouble dky=2*M_PI/fl->fs->ny;
+	flouble dkx=2*M_PI/fl->fs->lx;
+	flouble dky=2*M_PI/fl->fs->ly;
 	
 #pragma omp for
 	for(iy=0;iy<fl->fs->ny;iy++) {
-- 
2.43.0


From 8888cd81e85fedbaf549299e92bdbdf6c9a6001a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:47 +0000
Subject: [PATCH 37/62] fix: one-call flat-sky estimator failed without a guess
 spectrum

The deprojection bias of a null guess spectrum was computed, which failed
for a single bandpower and for lightweight fields.
---
 pymaster/workspaces.py | 5 +++--
 src/nmt_master_flat.c  | 6 ++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index 9f2adb7..49f8201 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -1159,8 +1159,9 @@ def compute_full_master_flat(f1, f2, b, cl_noise=None, cl_guess=None,
         lf = ells_guess.copy()
         clg = cl_guess.copy()
     else:
-        lf = b.get_effective_ells()
-        clg = np.zeros([f1.fl.nmaps * f2.fl.nmaps, b.bin.n_bands])
+        # No guess, no deprojection bias
+        lf = np.zeros(0)
+        clg = np.zeros([f1.fl.nmaps * f2.fl.nmaps, 0])
 
     if workspace is None:
         cl1d = lib.comp_pspec_flat(
diff --git a/src/nmt_master_flat.c b/src/nmt_master_flat.c
index 5a08144..ce2e713 100644
--- a/src/nmt_master_flat.c
+++ b/src/nmt_master_flat.c
@@ -940,8 +940,10 @@ nmt_workspace_flat *nmt_compute_power_spectra_flat(nmt_field_flat *fl1,nmt_field
     cl_data[ii]=my_calloc(w->bin->n_bands,sizeof(flouble));
   }
   nmt_compute_coupled_cell_flat(fl1,fl2,bin,cl_data,lmn_x,lmx_x,lmn_y,lmx_y);
-  nmt_compute_deprojection_bias_flat(fl1,fl2,bin,lmn_x,lmx_x,lmn_y,lmx_y,
-				     nl_prop,l_prop,cl_prop,cl_bias);
+  if(nl_prop>0) { //No bias without a guess spectrum
+    nmt_compute_deprojection_bias_flat(fl1,fl2,bin,lmn_x,lmx_x,lmn_y,lmx_y,
+				       nl_prop,l_prop,cl_prop,cl_bias);
+  }
   nmt_decouple_cl_l_flat(w,cl_data,cl_noise,cl_bias,cl_out);
   for(ii=0;ii<w->ncls;ii++) {
     free(cl_bias[ii]);
-- 
2.43.0


From 44388dd6e3a1df1abda328c8eb3f810e9aef4abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:54 +0000
Subject: [PATCH 38/62] fix: pseudo-inverse of a null matrix was not finite

Fields with a single template that vanishes within the mask had NaN maps.
---
 pymaster/utils.py | 2 +-
 src/utils.c       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index f306887..e182161 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -825,7 +825,7 @@ def moore_penrose_pinvh(mat, tol_pinv):
         return np.linalg.inv(mat)
 
     w, v = np.linalg.eigh(mat)
-    goodw = w >= tol_pinv*np.max(w)
+    goodw = (w >= tol_pinv*np.max(w)) & (w != 0)
     w_inv = np.zeros_like(w)
     w_inv[goodw] = 1./w[goodw]
     pinv = np.dot(v, np.dot(np.diag(w_inv), v.T))
diff --git a/src/utils.c b/src/utils.c
index d62f558..19da49e 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -369,7 +369,7 @@ void moore_penrose_pinv(gsl_matrix *M,double threshold)
   gsl_matrix_set_zero(M);
   for(ii=0;ii<M->size1;ii++) {
     double v=gsl_vector_get(eval,ii);
-    if(v<threshold*eval_max)
+    if((v<threshold*eval_max) || (v==0))
       gsl_matrix_set(M,ii,ii,0);
     else
       gsl_matrix_set(M,ii,ii,1./v);
-- 
2.43.0


From d38becaac8c9098dbc9edc13ea0337f637e3460c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:34 +0000
Subject: [PATCH 39/62] fix: flat-sky covariance of bands with many modes
 overflowed

---
 src/nmt_covar_flat.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nmt_covar_flat.c b/src/nmt_covar_flat.c
index 6fa3921..d2e3d5b 100644
--- a/src/nmt_covar_flat.c
+++ b/src/nmt_covar_flat.c
@@ -259,8 +259,9 @@ nmt_covar_workspace_flat *nmt_covar_workspace_flat_init(nmt_field_flat *fla1,nmt
       int ib2;
       for(ib2=0;ib2<cw->bin->n_bands;ib2++) {
 	flouble norm;
-	if(n_cells[ib1]*n_cells[ib2]>0)
-	  norm=fac_norm/(n_cells[ib1]*n_cells[ib2]);
+	flouble n_pairs=((flouble)(n_cells[ib1]))*n_cells[ib2];
+	if(n_pairs>0)
+	  norm=fac_norm/n_pairs;
 	else
 	  norm=0;
 	cw->xi00_1122[ib1][ib2]*=norm;
-- 
2.43.0


From 2e0ca0520d9a331230b44877ea3fa3141b33392e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:10 +0000
Subject: [PATCH 40/62] fix: flat-sky covariance and estimator accepted
 workspaces of other bands, patches or spins

---
 src/namaster.h        |  9 +++++++++
 src/nmt_bins_flat.c   | 12 ++++++++++++
 src/nmt_covar_flat.c  |  9 ++++-----
 src/nmt_master_flat.c |  6 ++++--
 src/utils.h           |  9 +++++++++
 5 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/src/namaster.h b/src/namaster.h
index 4ae7877..6fa3eac 100644
--- a/src/namaster.h
+++ b/src/namaster.h
@@ -141,6 +141,15 @@ void nmt_unbin_cls_flat(nmt_binning_scheme_flat *bin,flouble **cls_in,
  */
 void nmt_ell_eff_flat(nmt_binning_scheme_flat *bin,flouble *larr);
 
+/**
+ * @brief Checks whether two flat-sky binning schemes have different bandpowers.
+ *
+ * @param b1 nmt_binning_scheme_flat structure.
+ * @param b2 nmt_binning_scheme_flat structure.
+ * @return 1 if the edges of any bandpower differ. 0 otherwise.
+ */
+int nmt_bins_flat_differ(nmt_binning_scheme_flat *b1,nmt_binning_scheme_flat *b2);
+
 /**
  * @brief Fast bin-searching routine for flat-sky bandpowers
  *
diff --git a/src/nmt_bins_flat.c b/src/nmt_bins_flat.c
index 6139aae..bbf50ac 100644
--- a/src/nmt_bins_flat.c
+++ b/src/nmt_bins_flat.c
@@ -35,6 +35,18 @@ int nmt_bins_flat_search_fast(nmt_binning_scheme_flat *bin,flouble l,int il)
   }
 }
 
+int nmt_bins_flat_differ(nmt_binning_scheme_flat *b1,nmt_binning_scheme_flat *b2)
+{
+  int ii;
+  if(b1->n_bands!=b2->n_bands)
+    return 1;
+  for(ii=0;ii<b1->n_bands;ii++) {
+    if((b1->ell_0_list[ii]!=b2->ell_0_list[ii]) || (b1->ell_f_list[ii]!=b2->ell_f_list[ii]))
+      return 1;
+  }
+  return 0;
+}
+
 void nmt_bins_flat_free(nmt_binning_scheme_flat *bin)
 {
   free(bin->ell_0_list);
diff --git a/src/nmt_covar_flat.c b/src/nmt_covar_flat.c
index d2e3d5b..69303cb 100644
--- a/src/nmt_covar_flat.c
+++ b/src/nmt_covar_flat.c
@@ -31,12 +31,11 @@ nmt_covar_workspace_flat *nmt_covar_workspace_flat_init(nmt_field_flat *fla1,nmt
 {
   int ii;
   
-  if((fla1->fs->nx!=fla2->fs->nx) || (fla1->fs->ny!=fla2->fs->ny) ||
-     (fla1->fs->nx!=flb1->fs->nx) || (fla1->fs->ny!=flb1->fs->ny) ||     
-     (fla1->fs->nx!=flb2->fs->nx) || (fla1->fs->ny!=flb2->fs->ny))
+  if(check_flatsky_infos(fla1->fs,fla2->fs) || check_flatsky_infos(fla1->fs,flb1->fs) ||
+     check_flatsky_infos(fla1->fs,flb2->fs))
     report_error(NMT_ERROR_COVAR,"Can't compute covariance for fields with different resolutions\n");
   nmt_flatsky_info *fs=fla1->fs;
-  if(ba->n_bands!=bb->n_bands)
+  if(nmt_bins_flat_differ(ba,bb))
     report_error(NMT_ERROR_COVAR,"Can't compute covariance for different binning schemes\n");
 
   nmt_covar_workspace_flat *cw=my_malloc(sizeof(nmt_covar_workspace_flat));
@@ -320,7 +319,7 @@ void nmt_compute_gaussian_covariance_flat(nmt_covar_workspace_flat *cw,
 					  flouble **clac,flouble **clad,
 					  flouble **clbc,flouble **clbd,flouble *covar_out)
 {
-  if((wa->bin->n_bands!=cw->bin->n_bands) || (wb->bin->n_bands!=cw->bin->n_bands))
+  if(nmt_bins_flat_differ(wa->bin,cw->bin) || nmt_bins_flat_differ(wb->bin,cw->bin))
     report_error(NMT_ERROR_COVAR,"Coupling coefficients were computed for a different binning scheme\n");
 
   int nmaps_a=spin_a ? 2 : 1;
diff --git a/src/nmt_master_flat.c b/src/nmt_master_flat.c
index ce2e713..f45f6df 100644
--- a/src/nmt_master_flat.c
+++ b/src/nmt_master_flat.c
@@ -67,7 +67,7 @@ static nmt_workspace_flat *nmt_workspace_flat_new(int ncls,nmt_flatsky_info *fs,
   return w;
 }
 
-static int check_flatsky_infos(nmt_flatsky_info *fs1,nmt_flatsky_info *fs2)
+int check_flatsky_infos(nmt_flatsky_info *fs1,nmt_flatsky_info *fs2)
 {
   if(fs1->nx!=fs2->nx) return 1;
   if(fs1->ny!=fs2->ny) return 1;
@@ -929,7 +929,9 @@ nmt_workspace_flat *nmt_compute_power_spectra_flat(nmt_field_flat *fl1,nmt_field
     w=w0;
     if((check_flatsky_infos(fl1->fs,w->fs)) || (check_flatsky_infos(fl2->fs,w->fs)))
       report_error(NMT_ERROR_CONSISTENT_RESO,"Input workspace has different pixels!\n");
-    if(bin->n_bands!=w->bin->n_bands)
+    if(w->ncls!=fl1->nmaps*fl2->nmaps)
+      report_error(NMT_ERROR_CONSISTENT_RESO,"Input workspace has a different number of power spectra!\n");
+    if(nmt_bins_flat_differ(bin,w->bin))
       report_error(NMT_ERROR_CONSISTENT_RESO,"Input workspace has different bandpowers!\n");
   }
 
diff --git a/src/utils.h b/src/utils.h
index e73c3f2..2241d5c 100644
--- a/src/utils.h
+++ b/src/utils.h
@@ -156,6 +156,15 @@ void *dftw_malloc(size_t n);
  */
 void dftw_free(void *p);
 
+/**
+ * @brief Checks whether two flat-sky patches have different pixelisations.
+ *
+ * @param fs1 nmt_flatsky_info structure.
+ * @param fs2 nmt_flatsky_info structure.
+ * @return 1 if the patches differ. 0 otherwise.
+ */
+int check_flatsky_infos(nmt_flatsky_info *fs1,nmt_flatsky_info *fs2);
+
 /**
  * @brief Copies a map.
  *
-- 
2.43.0


From 94cd47790b0f53f40ee6c42aad061afe4e4670a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:35 +0000
Subject: [PATCH 41/62] fix: flat-sky covariance read the wrong mode of the
 mask products for negative kx

---
 src/nmt_covar_flat.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nmt_covar_flat.c b/src/nmt_covar_flat.c
index 69303cb..a7cc890 100644
--- a/src/nmt_covar_flat.c
+++ b/src/nmt_covar_flat.c
@@ -97,17 +97,19 @@ nmt_covar_workspace_flat *nmt_covar_workspace_flat_init(nmt_field_flat *fla1,nmt
 	ky=-(fs->ny-iy1)*dky;
       for(ix1=0;ix1<fs->nx;ix1++) {
 	flouble kx,kmod,c,s;
-	int ix_here,index_here,index;
+	int ix_here,iy_here,index_here,index;
 	index=ix1+fs->nx*iy1;
 	if(2*ix1<=fs->nx) {
 	  kx=ix1*dkx;
 	  ix_here=ix1;
+	  iy_here=iy1;
 	}
 	else {
 	  kx=-(fs->nx-ix1)*dkx;
 	  ix_here=fs->nx-ix1;
+	  iy_here=(fs->ny-iy1)%fs->ny;
 	}
-	index_here=ix_here+(fs->nx/2+1)*iy1;
+	index_here=ix_here+(fs->nx/2+1)*iy_here;
 	
 	cl_mask_1122[index]=(creal(cm_a1b1[index_here])*creal(cm_a2b2[index_here])+
 			     cimag(cm_a1b1[index_here])*cimag(cm_a2b2[index_here]));
-- 
2.43.0


From 05f5bffa05f4c966b32b695572a798fb24dbeb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:47 +0000
Subject: [PATCH 42/62] fix: flat-sky workspaces lost digits of the patch size
 and mode cuts when stored

---
 src/nmt_io.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index 04e01e4..3c59bc6 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -409,11 +409,11 @@ static void nmt_workspace_flat_info_tohdus(fitsfile *fptr,
   long fpixel[2]={1,1};
   fits_create_img(fptr,DOUBLE_IMG,2,naxes,status);
   fits_write_key(fptr,TSTRING,"EXTNAME","WSP_PRIMARY",NULL,status);
-  fits_write_key(fptr,TDOUBLE,"LMAX",&(w->lmax),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"ELLCUT_X_I",&(w->ellcut_x[0]),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"ELLCUT_X_F",&(w->ellcut_x[1]),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"ELLCUT_Y_I",&(w->ellcut_y[0]),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"ELLCUT_Y_F",&(w->ellcut_y[1]),NULL,status);
+  fits_write_key_dbl(fptr,"LMAX",w->lmax,-17,NULL,status);
+  fits_write_key_dbl(fptr,"ELLCUT_X_I",w->ellcut_x[0],-17,NULL,status);
+  fits_write_key_dbl(fptr,"ELLCUT_X_F",w->ellcut_x[1],-17,NULL,status);
+  fits_write_key_dbl(fptr,"ELLCUT_Y_I",w->ellcut_y[0],-17,NULL,status);
+  fits_write_key_dbl(fptr,"ELLCUT_Y_F",w->ellcut_y[1],-17,NULL,status);
   fits_write_key(fptr,TINT,"PURE_E1",&(w->pe1),NULL,status);
   fits_write_key(fptr,TINT,"PURE_E2",&(w->pe2),NULL,status);
   fits_write_key(fptr,TINT,"PURE_B1",&(w->pb1),NULL,status);
@@ -473,11 +473,11 @@ static void nmt_flatsky_info_tohdus(fitsfile *fptr,
   fits_write_key(fptr,TINT   ,"NX",&(fs->nx),NULL,status);
   fits_write_key(fptr,TINT   ,"NY",&(fs->ny),NULL,status);
   fits_write_key(fptr,TLONG  ,"NPIX",&(fs->npix),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"LX",&(fs->lx),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"LY",&(fs->ly),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"PIXSIZE",&(fs->pixsize),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"DELL",&(fs->dell),NULL,status);
-  fits_write_key(fptr,TDOUBLE,"I_DELL",&(fs->i_dell),NULL,status);
+  fits_write_key_dbl(fptr,"LX",fs->lx,-17,NULL,status);
+  fits_write_key_dbl(fptr,"LY",fs->ly,-17,NULL,status);
+  fits_write_key_dbl(fptr,"PIXSIZE",fs->pixsize,-17,NULL,status);
+  fits_write_key_dbl(fptr,"DELL",fs->dell,-17,NULL,status);
+  fits_write_key_dbl(fptr,"I_DELL",fs->i_dell,-17,NULL,status);
 
   free(ttype[0]); free(ttype);
   free(tform[0]); free(tform);
-- 
2.43.0


From e8e0ec2179ee80dc38de81c439ccddf41240f7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:58 +0000
Subject: [PATCH 43/62] fix: spherical simulations ignored the seed

---
 pymaster/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index e182161..8c3cd50 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -682,7 +682,13 @@ def synfast_spherical(nside, cls, spin_arr, beam=None, seed=-1,
     # 1. Generate alms
     # Note that, if `new=False` stops being allowed in healpy, we'll need
     # to change the Cl ordering.
-    alms = np.array(hp.synalm(cls, lmax=lmax, mmax=lmax, new=False))
+    # `synalm` draws from numpy's global generator, whose state is restored.
+    state = np.random.get_state()
+    np.random.seed(seed)
+    try:
+        alms = np.array(hp.synalm(cls, lmax=lmax, mmax=lmax, new=False))
+    finally:
+        np.random.set_state(state)
 
     # 2. Multiply by beam
     if beam is not None:
-- 
2.43.0


From 270a8923bf5aa7fa2e8f4810bb1a6a5556b08d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:58 +0000
Subject: [PATCH 44/62] fix: spherical simulations accepted beams that are too
 short

---
 pymaster/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index 8c3cd50..8e148ae 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -694,7 +694,7 @@ def synfast_spherical(nside, cls, spin_arr, beam=None, seed=-1,
     if beam is not None:
         if len(beam) != nfields:
             raise ValueError("Must provide one beam per field")
-        if len(beam[0]) < lmax + 1:
+        if any(len(bl) < lmax + 1 for bl in beam):
             raise ValueError(f"The beam should be provided to ell = {lmax}")
         beam_per = []
         for ifield, n in enumerate(nmap_arr):
-- 
2.43.0


From 76b87e23c5857b5feb5ad4850681b4dd65cd780c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:13 +0000
Subject: [PATCH 45/62] fix: Toeplitz fill overwrote matrix elements computed
 exactly

---
 src/nmt_master.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nmt_master.c b/src/nmt_master.c
index 577d796..fee7ccf 100644
--- a/src/nmt_master.c
+++ b/src/nmt_master.c
@@ -937,7 +937,9 @@ nmt_master_calculator *nmt_compute_master_coefficients(int lmax, int lmax_mask,
   if(l_toeplitz > 0) {
     int l2, l3;
     for(l2=c->lmax+l_exact-l_toeplitz;l2<=c->lmax;l2++) {
-      for(l3=l_exact;l3<=l2+l_toeplitz-c->lmax;l3++){
+      for(l3=l_exact+1;l3<=l2+l_toeplitz-c->lmax;l3++){
+        if(l2<=l3+dl_band) //Computed exactly
+          break;
         flouble **mat;
         flouble m;
 	int is_den_zero;
-- 
2.43.0


From 4432e3fbe388f1cddd3a18afc1af3e9be0533b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:32 +0000
Subject: [PATCH 46/62] fix: flat-sky patches of zero, infinite or undefined
 size hung forever

---
 pymaster/field.py    | 3 ++-
 src/nmt_field_flat.c | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/pymaster/field.py b/pymaster/field.py
index 8dd34fd..3d5bb7c 100644
--- a/pymaster/field.py
+++ b/pymaster/field.py
@@ -629,7 +629,7 @@ class NmtFieldFlat(object):
         if masked_on_input:
             masked_input = 1
 
-        if (lx < 0) or (ly < 0):
+        if not ((lx > 0) and (ly > 0)):
             raise ValueError("Must supply sensible dimensions for "
                              "flat-sky field")
         # Flatten arrays and check dimensions
@@ -642,6 +642,7 @@ class NmtFieldFlat(object):
             if spin is None:
                 raise ValueError("Please supply field spin")
             lite = True
+            nmaps = 1 if spin == 0 else 2
         else:
             mask_only = False
             # As in the curved case, to ensure right type and endianness (and
diff --git a/src/nmt_field_flat.c b/src/nmt_field_flat.c
index 91c96d8..ca03a27 100644
--- a/src/nmt_field_flat.c
+++ b/src/nmt_field_flat.c
@@ -36,6 +36,8 @@ flouble nmt_k_function_eval(nmt_k_function *f,flouble k,gsl_interp_accel *intacc
 #define N_DELL 1
 nmt_flatsky_info *nmt_flatsky_info_alloc(int nx,int ny,flouble lx,flouble ly)
 {
+  if((nx<=0) || (ny<=0) || !(isfinite(lx) && (lx>0)) || !(isfinite(ly) && (ly>0)))
+    report_error(NMT_ERROR_VALUE,"Map dimensions must be positive\n");
   nmt_flatsky_info *fs=my_malloc(sizeof(nmt_flatsky_info));
   fs->nx=nx;
   fs->ny=ny;
@@ -54,6 +56,10 @@ nmt_flatsky_info *nmt_flatsky_info_alloc(int nx,int ny,flouble lx,flouble ly)
   fs->dell=N_DELL*dk;
   fs->i_dell=1./fs->dell;
   fs->n_ell=0;
+  if(!(kmax/fs->dell<1E8)) {
+    free(fs);
+    report_error(NMT_ERROR_VALUE,"Map dimensions are too different\n");
+  }
   while((fs->n_ell+1)*fs->dell<=kmax)
     fs->n_ell++;
   fs->ell_min=my_malloc(fs->n_ell*sizeof(flouble));
-- 
2.43.0


From 35bfa9b6b9e2a6468f360914727334243c0d9bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:32 +0000
Subject: [PATCH 47/62] fix: band indices out of range read outside the band
 lists

---
 pymaster/bins.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pymaster/bins.py b/pymaster/bins.py
index 8dbaa4e..f586b09 100644
--- a/pymaster/bins.py
+++ b/pymaster/bins.py
@@ -196,6 +196,13 @@ class NmtBin(object):
         """
         return lib.get_nell_list(self.bin, self.bin.n_bands)
 
+    def _check_band(self, b):
+        b = int(b)
+        if (b < 0) or (b >= self.bin.n_bands):
+            raise ValueError(f"There is no bandpower {b} among the "
+                             f"{self.bin.n_bands} in this object.")
+        return b
+
     def get_ell_min(self, b):
         """ Returns the minimum ell value used by bandpower with
         index ``b``.
@@ -231,8 +238,8 @@ class NmtBin(object):
             (`array`): Array of multipoles associated with bandpower
             ``b``.
         """
-        return lib.get_ell_list(self.bin, int(b),
-                                lib.get_nell(self.bin, int(b)))
+        b = self._check_band(b)
+        return lib.get_ell_list(self.bin, b, lib.get_nell(self.bin, b))
 
     def get_weight_list(self, b):
         """ Returns an array with the weights associated with each
@@ -246,8 +253,8 @@ class NmtBin(object):
             (`array`): Weights associated to multipoles in bandpower
             ``b``.
         """
-        return lib.get_weight_list(self.bin, int(b),
-                                   lib.get_nell(self.bin, int(b)))
+        b = self._check_band(b)
+        return lib.get_weight_list(self.bin, b, lib.get_nell(self.bin, b))
 
     def get_effective_ells(self):
         """ Returns an array with the effective multipole of each
-- 
2.43.0


From 19fb0da3a3f144c16c23bf788c77d63c04daf13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:33 +0000
Subject: [PATCH 48/62] fix: reading or writing files without a name crashed
 the process

---
 src/nmt_io.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index 3c59bc6..1b60f3a 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -348,6 +348,8 @@ void nmt_workspace_write_fits(nmt_workspace *w,char *fname)
 {
   fitsfile *fptr;
   int status=0;
+  if(fname==NULL)
+    report_error(NMT_ERROR_WRITE,"File name missing\n");
   fits_create_file(&fptr,fname,&status);
   check_fits(status,fname,0);
   // Workspace info HDU
@@ -372,6 +374,9 @@ nmt_workspace *nmt_workspace_read_fits(char *fname, int w_unbinned)
 {
   fitsfile *fptr;
   int status=0;
+
+  if(fname==NULL)
+    report_error(NMT_ERROR_READ,"File name missing\n");
   nmt_workspace *w=my_malloc(sizeof(nmt_workspace));
 
   fits_open_file(&fptr,fname,READONLY,&status);
@@ -696,6 +701,8 @@ void nmt_workspace_flat_write_fits(nmt_workspace_flat *w,char *fname)
 {
   fitsfile *fptr;
   int status=0;
+  if(fname==NULL)
+    report_error(NMT_ERROR_WRITE,"File name missing\n");
   fits_create_file(&fptr,fname,&status);
   check_fits(status,fname,0);
   // Workspace info HDU
@@ -720,6 +727,9 @@ nmt_workspace_flat *nmt_workspace_flat_read_fits(char *fname)
 {
   fitsfile *fptr;
   int status=0;
+
+  if(fname==NULL)
+    report_error(NMT_ERROR_READ,"File name missing\n");
   nmt_workspace_flat *w=my_malloc(sizeof(nmt_workspace_flat));
 
   fits_open_file(&fptr,fname,READONLY,&status);
@@ -789,6 +799,8 @@ void nmt_covar_workspace_write_fits(nmt_covar_workspace *cw,char *fname)
 {
   fitsfile *fptr;
   int status=0;
+  if(fname==NULL)
+    report_error(NMT_ERROR_WRITE,"File name missing\n");
   fits_create_file(&fptr,fname,&status);
   check_fits(status,fname,0);
 
@@ -825,6 +837,9 @@ nmt_covar_workspace *nmt_covar_workspace_read_fits(char *fname, int force_spin0)
 {
   fitsfile *fptr;
   int status=0;
+
+  if(fname==NULL)
+    report_error(NMT_ERROR_READ,"File name missing\n");
   nmt_covar_workspace *cw=my_malloc(sizeof(nmt_covar_workspace));
 
   fits_open_file(&fptr,fname,READONLY,&status);
@@ -878,6 +893,8 @@ void nmt_covar_workspace_flat_write_fits(nmt_covar_workspace_flat *cw,char *fnam
 {
   fitsfile *fptr;
   int status=0;
+  if(fname==NULL)
+    report_error(NMT_ERROR_WRITE,"File name missing\n");
   fits_create_file(&fptr,fname,&status);
   check_fits(status,fname,0);
 
@@ -914,6 +931,9 @@ nmt_covar_workspace_flat *nmt_covar_workspace_flat_read_fits(char *fname)
 {
   fitsfile *fptr;
   int status=0;
+
+  if(fname==NULL)
+    report_error(NMT_ERROR_READ,"File name missing\n");
   nmt_covar_workspace_flat *cw=my_malloc(sizeof(nmt_covar_workspace_flat));
 
   fits_open_file(&fptr,fname,READONLY,&status);
-- 
2.43.0


From 876ab6d27453a1b6c7e66405a2a499513233fd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:33 +0000
Subject: [PATCH 49/62] fix: apodization with an undefined scale crashed the
 process

---
 src/nmt_mask.c      | 2 +-
 src/nmt_mask_flat.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nmt_mask.c b/src/nmt_mask.c
index 8528be2..0d9e6fc 100644
--- a/src/nmt_mask.c
+++ b/src/nmt_mask.c
@@ -147,7 +147,7 @@ static void apodize_mask_smooth_binary(long nside,flouble *mask_in,flouble *mask
 
 void nmt_apodize_mask(long nside,flouble *mask_in,flouble *mask_out,flouble aposize,char *apotype)
 {
-  if(aposize<0)
+  if(!(aposize>=0))
     report_error(NMT_ERROR_APO,"Apodization scale must be a positive number\n");
   else if(aposize==0)
     memcpy(mask_out,mask_in,he_nside2npix(nside)*sizeof(flouble));
diff --git a/src/nmt_mask_flat.c b/src/nmt_mask_flat.c
index 988d4d6..8f3e486 100644
--- a/src/nmt_mask_flat.c
+++ b/src/nmt_mask_flat.c
@@ -149,7 +149,7 @@ static void apodize_mask_smooth(nmt_flatsky_info *fs,flouble *mask_in,flouble *m
 void nmt_apodize_mask_flat(int nx,int ny,flouble lx,flouble ly,
 			   flouble *mask_in,flouble *mask_out,flouble aposize,char *apotype)
 {
-  if(aposize<0)
+  if(!(aposize>=0))
     report_error(NMT_ERROR_APO,"Apodization scale must be a positive number\n");
   else if(aposize==0) {
     int ii;
-- 
2.43.0


From ced96973e53114dedfaf897edb25fe18e876a24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:51 +0000
Subject: [PATCH 50/62] fix: storing a workspace lost multipoles shared by
 several bandpowers

---
 src/nmt_io.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/nmt_io.c b/src/nmt_io.c
index 1b60f3a..6d1e1cb 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -199,8 +199,10 @@ static void nmt_binning_scheme_tohdus(fitsfile *fptr,
 				      nmt_binning_scheme *b,
 				      int *status)
 {
-  int ii;
+  int ii,nextra=0;
   int nrows=b->ell_max+1;
+  for(ii=0;ii<b->n_bands;ii++)
+    nrows+=b->nell_list[ii];
   int *bpws=my_malloc(nrows*sizeof(int));
   int *ells=my_malloc(nrows*sizeof(int));
   flouble *weights=my_calloc(nrows,sizeof(flouble));
@@ -214,12 +216,18 @@ static void nmt_binning_scheme_tohdus(fitsfile *fptr,
     int jj;
     for(jj=0;jj<b->nell_list[ii];jj++) {
       int l=b->ell_list[ii][jj];
-      ells[l]=l;
-      bpws[l]=ii;
-      weights[l]=b->w_list[ii][jj];
-      f_ell[l]=b->f_ell[ii][jj];
+      int row=l;
+      if(bpws[row]>=0) { //Multipoles used more than once go at the end
+	row=b->ell_max+1+nextra;
+	nextra++;
+      }
+      ells[row]=l;
+      bpws[row]=ii;
+      weights[row]=b->w_list[ii][jj];
+      f_ell[row]=b->f_ell[ii][jj];
     }
   }
+  nrows=b->ell_max+1+nextra;
 
   char **ttype,**tform,**tunit;
   ttype=my_malloc(4*sizeof(char *));
-- 
2.43.0


From 4a4d8564c52b3fe55ae3fa1936ae5d17d1c89dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:51 +0000
Subject: [PATCH 51/62] fix: negative multipoles and excessive band indices
 crashed NmtBin

---
 src/nmt_bins.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/nmt_bins.c b/src/nmt_bins.c
index ea24dcd..ed8ca9d 100644
--- a/src/nmt_bins.c
+++ b/src/nmt_bins.c
@@ -59,11 +59,15 @@ nmt_binning_scheme *nmt_bins_create(int nell,int *bpws,int *ells,flouble *weight
   int ii,nband_max=0;
 
   for(ii=0;ii<nell;ii++) {
+    if((bpws[ii]>=0) && (ells[ii]<0))
+      report_error(NMT_ERROR_VALUE,"Negative multipole in band %d\n",bpws[ii]);
     if(ells[ii]<=lmax) {
       if(bpws[ii]>nband_max)
 	nband_max=bpws[ii];
     }
   }
+  if(nband_max>=NMT_MAX(nell,1)) //At least one band must be empty
+    report_error(NMT_ERROR_BWEIGHT,"There are more bands than multipoles\n");
   nband_max++;
 
   bins=my_malloc(sizeof(nmt_binning_scheme));
@@ -118,8 +122,10 @@ nmt_binning_scheme *nmt_bins_create(int nell,int *bpws,int *ells,flouble *weight
     flouble norm=0;
     for(jj=0;jj<bins->nell_list[ii];jj++)
       norm+=bins->w_list[ii][jj];
-    if(norm<=0)
+    if(!(norm>0)) {
+      nmt_bins_free(bins);
       report_error(NMT_ERROR_BWEIGHT,"Weights in band %d are wrong\n",ii);
+    }
     for(jj=0;jj<bins->nell_list[ii];jj++)
       bins->w_list[ii][jj]/=norm;
   }
-- 
2.43.0


From 8489adb5f684e16ecd4befe8270393db8f304494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:51 +0000
Subject: [PATCH 52/62] fix: apodization without a type crashed the process

---
 src/nmt_mask.c      | 2 ++
 src/nmt_mask_flat.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/nmt_mask.c b/src/nmt_mask.c
index 0d9e6fc..d907562 100644
--- a/src/nmt_mask.c
+++ b/src/nmt_mask.c
@@ -147,6 +147,8 @@ static void apodize_mask_smooth_binary(long nside,flouble *mask_in,flouble *mask
 
 void nmt_apodize_mask(long nside,flouble *mask_in,flouble *mask_out,flouble aposize,char *apotype)
 {
+  if(apotype==NULL)
+    report_error(NMT_ERROR_APO,"Unknown apodization type\n");
   if(!(aposize>=0))
     report_error(NMT_ERROR_APO,"Apodization scale must be a positive number\n");
   else if(aposize==0)
diff --git a/src/nmt_mask_flat.c b/src/nmt_mask_flat.c
index 8f3e486..f683456 100644
--- a/src/nmt_mask_flat.c
+++ b/src/nmt_mask_flat.c
@@ -149,6 +149,8 @@ static void apodize_mask_smooth(nmt_flatsky_info *fs,flouble *mask_in,flouble *m
 void nmt_apodize_mask_flat(int nx,int ny,flouble lx,flouble ly,
 			   flouble *mask_in,flouble *mask_out,flouble aposize,char *apotype)
 {
+  if(apotype==NULL)
+    report_error(NMT_ERROR_APO,"Unknown apodization type\n");
   if(!(aposize>=0))
     report_error(NMT_ERROR_APO,"Apodization scale must be a positive number\n");
   else if(aposize==0) {
-- 
2.43.0


From 6d495c04041fad31ef45d9899fa70b8e00f1032e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:04 +0000
Subject: [PATCH 53/62] fix: an undefined pseudo-inverse tolerance was accepted
 as default

---
 pymaster/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index 8e148ae..ae52809 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -113,7 +113,7 @@ def set_tol_pinv_default(tol_pinv):
     Args:
         tol_pinv (:obj:`float`): Relative eigenvalue threshold.
     """
-    if (tol_pinv > 1) or (tol_pinv < 0):
+    if not (0 <= tol_pinv <= 1):
         raise ValueError('tol_pinv must be between 0 and 1.')
     nmt_params.tol_pinv_default = tol_pinv
 
-- 
2.43.0


From 38455ad686a1c521554fc1e6b1327eede42a247a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:37 +0000
Subject: [PATCH 54/62] fix: check the contents of the files that workspaces
 are read from

---
 src/nmt_covar.c       |  31 +--
 src/nmt_covar_flat.c  |  37 ++--
 src/nmt_io.c          | 432 ++++++++++++++++++++++++++----------------
 src/nmt_master_flat.c |  22 ++-
 4 files changed, 320 insertions(+), 202 deletions(-)

diff --git a/src/nmt_covar.c b/src/nmt_covar.c
index 2e84ef9..a9c72c6 100644
--- a/src/nmt_covar.c
+++ b/src/nmt_covar.c
@@ -70,20 +70,27 @@ nmt_covar_workspace *nmt_covar_workspace_init(flouble *cl_masks_11_22,
   return cw;
 }
 
-void nmt_covar_workspace_free(nmt_covar_workspace *cw)
+static void free_coeffs(flouble **xi,int n)
 {
   int ii;
-  for(ii=0;ii<=cw->lmax;ii++) {
-    free(cw->xi00_1122[ii]);
-    free(cw->xi00_1221[ii]);
-    if(cw->spin0_only==0) {
-      free(cw->xi02_1122[ii]);
-      free(cw->xi02_1221[ii]);
-      free(cw->xi22p_1122[ii]);
-      free(cw->xi22p_1221[ii]);
-      free(cw->xi22m_1122[ii]);
-      free(cw->xi22m_1221[ii]);
-    }
+  if(xi==NULL)
+    return;
+  for(ii=0;ii<n;ii++)
+    free(xi[ii]);
+  free(xi);
+}
+
+void nmt_covar_workspace_free(nmt_covar_workspace *cw)
+{
+  free_coeffs(cw->xi00_1122,cw->lmax+1);
+  free_coeffs(cw->xi00_1221,cw->lmax+1);
+  if(cw->spin0_only==0) {
+    free_coeffs(cw->xi02_1122,cw->lmax+1);
+    free_coeffs(cw->xi02_1221,cw->lmax+1);
+    free_coeffs(cw->xi22p_1122,cw->lmax+1);
+    free_coeffs(cw->xi22p_1221,cw->lmax+1);
+    free_coeffs(cw->xi22m_1122,cw->lmax+1);
+    free_coeffs(cw->xi22m_1221,cw->lmax+1);
   }
   free(cw);
 }
diff --git a/src/nmt_covar_flat.c b/src/nmt_covar_flat.c
index a7cc890..f282664 100644
--- a/src/nmt_covar_flat.c
+++ b/src/nmt_covar_flat.c
@@ -288,27 +288,26 @@ nmt_covar_workspace_flat *nmt_covar_workspace_flat_init(nmt_field_flat *fla1,nmt
   return cw;
 }
 
-void nmt_covar_workspace_flat_free(nmt_covar_workspace_flat *cw)
+static void free_coeffs(flouble **xi,int n)
 {
   int ii;
-  for(ii=0;ii<cw->bin->n_bands;ii++) {
-    free(cw->xi00_1122[ii]);
-    free(cw->xi00_1221[ii]);
-    free(cw->xi02_1122[ii]);
-    free(cw->xi02_1221[ii]);
-    free(cw->xi22p_1122[ii]);
-    free(cw->xi22p_1221[ii]);
-    free(cw->xi22m_1122[ii]);
-    free(cw->xi22m_1221[ii]);
-  }
-  free(cw->xi00_1122);
-  free(cw->xi00_1221);
-  free(cw->xi02_1122);
-  free(cw->xi02_1221);
-  free(cw->xi22p_1122);
-  free(cw->xi22p_1221);
-  free(cw->xi22m_1122);
-  free(cw->xi22m_1221);
+  if(xi==NULL)
+    return;
+  for(ii=0;ii<n;ii++)
+    free(xi[ii]);
+  free(xi);
+}
+
+void nmt_covar_workspace_flat_free(nmt_covar_workspace_flat *cw)
+{
+  free_coeffs(cw->xi00_1122,cw->bin->n_bands);
+  free_coeffs(cw->xi00_1221,cw->bin->n_bands);
+  free_coeffs(cw->xi02_1122,cw->bin->n_bands);
+  free_coeffs(cw->xi02_1221,cw->bin->n_bands);
+  free_coeffs(cw->xi22p_1122,cw->bin->n_bands);
+  free_coeffs(cw->xi22p_1221,cw->bin->n_bands);
+  free_coeffs(cw->xi22m_1122,cw->bin->n_bands);
+  free_coeffs(cw->xi22m_1221,cw->bin->n_bands);
   nmt_bins_flat_free(cw->bin);
 
   free(cw);
diff --git a/src/nmt_io.c b/src/nmt_io.c
index 6d1e1cb..997bf61 100644
--- a/src/nmt_io.c
+++ b/src/nmt_io.c
@@ -1,7 +1,66 @@
 #include "config.h"
 #include "utils.h"
+#include <limits.h>
 #include <fitsio.h>
 
+//Moves to an image extension and checks that it has the expected size
+static void move_to_image(fitsfile *fptr,char *name,int ndim,
+			  long n0,long n1,int *status)
+{
+  int naxis=0;
+  long naxes[2]={0,0};
+  fits_movnam_hdu(fptr,IMAGE_HDU,name,0,status);
+  fits_get_img_dim(fptr,&naxis,status);
+  fits_get_img_size(fptr,2,naxes,status);
+  if(*status)
+    return;
+  if((naxis!=ndim) || (naxes[0]!=n0) || ((ndim>1) && (naxes[1]!=n1)))
+    *status=NMT_ERROR_INCONSISTENT;
+}
+
+//Moves to a table and returns its number of rows
+static long move_to_table(fitsfile *fptr,char *name,int *status)
+{
+  long nrows=0;
+  fits_movnam_hdu(fptr,BINARY_TBL,name,0,status);
+  fits_get_num_rows(fptr,&nrows,status);
+  if(*status)
+    return 0;
+  if((nrows<0) || (nrows>INT_MAX/16)) {
+    *status=NMT_ERROR_INCONSISTENT;
+    return 0;
+  }
+  return nrows;
+}
+
+//Reads a permutation of n elements
+static gsl_permutation *permutation_fromhdus(fitsfile *fptr,long n,int *status)
+{
+  long ii,fpixel[2]={1,1};
+  move_to_image(fptr,"MCM_PERM",1,n,0,status);
+  if(*status)
+    return NULL;
+  int *perm=my_malloc(n*sizeof(int));
+  char *used=my_calloc(n,sizeof(char));
+  gsl_permutation *p=gsl_permutation_alloc(n);
+  fits_read_pix(fptr,TINT,fpixel,n,NULL,perm,NULL,status);
+  for(ii=0;(ii<n) && (*status==0);ii++) {
+    if((perm[ii]<0) || (perm[ii]>=n) || used[perm[ii]])
+      *status=NMT_ERROR_INCONSISTENT;
+    else {
+      used[perm[ii]]=1;
+      p->data[ii]=perm[ii];
+    }
+  }
+  free(used);
+  free(perm);
+  if(*status) {
+    gsl_permutation_free(p);
+    return NULL;
+  }
+  return p;
+}
+
 static void nmt_workspace_info_tohdus(fitsfile *fptr,
 				      nmt_workspace *w,
 				      int *status)
@@ -36,18 +95,30 @@ static void nmt_workspace_info_fromhdus(fitsfile *fptr,
   fits_read_key(fptr,TINT,"LMAX_MASK",&(w->lmax_mask),NULL,status);
   fits_read_key(fptr,TINT,"IS_TEB",&(w->is_teb),NULL,status);
   fits_read_key(fptr,TINT,"NCLS",&(w->ncls),NULL,status);
+  if(*status)
+    return;
   status_pre = *status;
   fits_read_key(fptr,TINT,"NORM_TYPE",&(w->norm_type),NULL,status);
   if(*status) {// maybe used old format
     w->norm_type=0;
     *status=status_pre;
   }
+  if(((w->ncls!=1) && (w->ncls!=2) && (w->ncls!=4) && (w->ncls!=7)) ||
+     ((w->is_teb!=0)!=(w->ncls==7)) ||
+     (w->lmax<0) || (w->lmax>=INT_MAX/16) ||
+     (w->lmax_fields<w->lmax) || (w->lmax_mask<0)) {
+    *status=NMT_ERROR_INCONSISTENT;
+    return;
+  }
   long ii;
   long n_el=w->ncls*(w->lmax+1);
   long fpixel[2]={1,1};
+  move_to_image(fptr,"WSP_PRIMARY",2,n_el,n_el,status);
+  if(*status)
+    return;
   if(w_unbinned) {
-    w->coupling_matrix_unbinned=my_malloc(n_el*sizeof(flouble *));
-    for(ii=0;ii<n_el;ii++) {
+    w->coupling_matrix_unbinned=my_calloc(n_el,sizeof(flouble *));
+    for(ii=0;(ii<n_el) && (*status==0);ii++) {
       fpixel[1]=ii+1;
       w->coupling_matrix_unbinned[ii]=my_malloc(n_el*sizeof(flouble));
       fits_read_pix(fptr,TDOUBLE,fpixel,n_el,NULL,
@@ -96,17 +167,13 @@ static void nmt_l_arr_tohdus(fitsfile *fptr,
 static double *nmt_l_arr_fromhdus(fitsfile *fptr, int lmax_expect, char *arrname, int *status)
 {
   double *f;
-  double nulval;
+  double nulval=0;
   int anynul;
-  long nrows;
-  *status=0;
-  fits_movnam_hdu(fptr,BINARY_TBL,arrname,0,status);
-  fits_get_num_rows(fptr,&nrows,status);
-  if(nrows!=lmax_expect+1) {
-    report_error(NMT_ERROR_INCONSISTENT,
-		 "Expected %d elements, but got %ld\n",
-		 lmax_expect+1,nrows);
-  }
+  long nrows=move_to_table(fptr,arrname,status);
+  if((*status==0) && (nrows!=lmax_expect+1L))
+    *status=NMT_ERROR_INCONSISTENT;
+  if(*status)
+    return NULL;
   f=my_malloc(nrows*sizeof(double));
   fits_read_col(fptr,TDOUBLE,2,1,1,nrows,&nulval,f,&anynul,status);
   return f;
@@ -115,33 +182,35 @@ static double *nmt_l_arr_fromhdus(fitsfile *fptr, int lmax_expect, char *arrname
 static nmt_binning_scheme *nmt_binning_scheme_fromhdus(fitsfile *fptr,
 						       int *status)
 {
-  nmt_binning_scheme *b;
+  nmt_binning_scheme *b=NULL;
   int *bpws,*ells;
   flouble *weights,*f_ell;
-  int anynul,n_bands,ell_max;
+  int anynul,n_bands,ell_max,inulval=0;
   long nrows;
-  double nulval;
-  fits_movnam_hdu(fptr,BINARY_TBL,"BANDPOWERS",0,status);
+  double nulval=0;
+  nrows=move_to_table(fptr,"BANDPOWERS",status);
   fits_read_key(fptr,TINT,"N_BANDS",&n_bands,NULL,status);
   fits_read_key(fptr,TINT,"ELL_MAX",&ell_max,NULL,status);
-  fits_get_num_rows(fptr,&nrows,status);
+  if(*status)
+    return NULL;
   bpws=my_malloc(nrows*sizeof(int));
   ells=my_malloc(nrows*sizeof(int));
   weights=my_malloc(nrows*sizeof(flouble));
   f_ell=my_malloc(nrows*sizeof(flouble));
-  fits_read_col(fptr,TINT,1,1,1,nrows,&nulval,
+  fits_read_col(fptr,TINT,1,1,1,nrows,&inulval,
 		bpws,&anynul,status);
-  fits_read_col(fptr,TINT,2,1,1,nrows,&nulval,
+  fits_read_col(fptr,TINT,2,1,1,nrows,&inulval,
 		ells,&anynul,status);
   fits_read_col(fptr,TDOUBLE,3,1,1,nrows,&nulval,
 		weights,&anynul,status);
   fits_read_col(fptr,TDOUBLE,4,1,1,nrows,&nulval,
 		f_ell,&anynul,status);
-  b=nmt_bins_create((int)nrows,bpws,ells,weights,f_ell,ell_max);
-  if(n_bands!=b->n_bands) {
-    report_error(NMT_ERROR_INCONSISTENT,
-		 "Number of bands doesn't match table contents %d %d\n",
-		 n_bands, b->n_bands);
+  if(*status==0)
+    b=nmt_bins_create((int)nrows,bpws,ells,weights,f_ell,ell_max);
+  if((b!=NULL) && (n_bands!=b->n_bands)) {
+    nmt_bins_free(b);
+    b=NULL;
+    *status=NMT_ERROR_INCONSISTENT;
   }
   free(bpws);
   free(ells);
@@ -153,45 +222,54 @@ static nmt_binning_scheme *nmt_binning_scheme_fromhdus(fitsfile *fptr,
 static nmt_binning_scheme *nmt_binning_scheme_fromhdus_old(fitsfile *fptr,
 							   int *status)
 {
-  int ii,anynul;
+  int ii,jj,anynul,n_bands,ell_max,inulval=0;
   long nrows;
-  double nulval;
+  double nulval=0;
+  nrows=move_to_table(fptr,"BINS_SUMMARY",status);
+  fits_read_key(fptr,TINT,"N_BANDS",&n_bands,NULL,status);
+  fits_read_key(fptr,TINT,"ELL_MAX",&ell_max,NULL,status);
+  if((*status==0) && ((n_bands<1) || (nrows!=n_bands)))
+    *status=NMT_ERROR_INCONSISTENT;
+  if(*status)
+    return NULL;
+
   nmt_binning_scheme *b=my_malloc(sizeof(nmt_binning_scheme));
-  fits_movnam_hdu(fptr,BINARY_TBL,"BINS_SUMMARY",0,status);
-  fits_read_key(fptr,TINT,"N_BANDS",&(b->n_bands),NULL,status);
-  fits_read_key(fptr,TINT,"ELL_MAX",&(b->ell_max),NULL,status);
-  fits_get_num_rows(fptr,&nrows,status);
-  if(nrows!=b->n_bands) {
-    report_error(NMT_ERROR_INCONSISTENT,
-		 "Number of bands doesn't match table size\n");
-  }
-  b->nell_list=my_malloc(b->n_bands*sizeof(int));
-  b->ell_list=my_malloc(b->n_bands*sizeof(int *));
-  b->w_list=my_malloc(b->n_bands*sizeof(double *));
-  b->f_ell=my_malloc(b->n_bands*sizeof(double *));
-  fits_read_col(fptr,TINT,1,1,1,nrows,&nulval,
+  b->n_bands=n_bands;
+  b->ell_max=ell_max;
+  b->nell_list=my_calloc(b->n_bands,sizeof(int));
+  b->ell_list=my_calloc(b->n_bands,sizeof(int *));
+  b->w_list=my_calloc(b->n_bands,sizeof(double *));
+  b->f_ell=my_calloc(b->n_bands,sizeof(double *));
+  fits_read_col(fptr,TINT,1,1,1,nrows,&inulval,
 		b->nell_list,&anynul,status);
 
-  for(ii=0;ii<b->n_bands;ii++) {
+  for(ii=0;(ii<b->n_bands) && (*status==0);ii++) {
     char hduname[256];
     sprintf(hduname,"BINS_BAND_%d",ii+1);
-    fits_movnam_hdu(fptr,BINARY_TBL,hduname,0,status);
-    fits_get_num_rows(fptr,&nrows,status);
-    if(nrows!=b->nell_list[ii]) {
-      report_error(NMT_ERROR_INCONSISTENT,
-		   "Number of rows doesn't match number of ells\n");
-    }
+    nrows=move_to_table(fptr,hduname,status);
+    if((*status==0) && ((nrows<1) || (nrows!=b->nell_list[ii])))
+      *status=NMT_ERROR_INCONSISTENT;
+    if(*status)
+      break;
     b->ell_list[ii]=my_malloc(b->nell_list[ii]*sizeof(int));
     b->w_list[ii]=my_malloc(b->nell_list[ii]*sizeof(double));
     b->f_ell[ii]=my_malloc(b->nell_list[ii]*sizeof(double));
-    fits_read_col(fptr,TINT,1,1,1,nrows,&nulval,
+    fits_read_col(fptr,TINT,1,1,1,nrows,&inulval,
 		  b->ell_list[ii],&anynul,status);
     fits_read_col(fptr,TDOUBLE,2,1,1,nrows,&nulval,
 		  b->w_list[ii],&anynul,status);
     fits_read_col(fptr,TDOUBLE,3,1,1,nrows,&nulval,
 		  b->f_ell[ii],&anynul,status);
+    for(jj=0;(jj<b->nell_list[ii]) && (*status==0);jj++) {
+      if((b->ell_list[ii][jj]<0) || (b->ell_list[ii][jj]>b->ell_max))
+	*status=NMT_ERROR_INCONSISTENT;
+    }
   }
 
+  if(*status) {
+    nmt_bins_free(b);
+    b=NULL;
+  }
   return b;
 }
 
@@ -281,7 +359,7 @@ static void nmt_coupling_binned_tohdus(fitsfile *fptr,
   //Flatten matrix
   double *matrix_binned=my_malloc(n_el*n_el*sizeof(double));
   for(ii=0;ii<n_el;ii++) {
-    int i0=ii*n_el;
+    long i0=ii*n_el;
     for(jj=0;jj<n_el;jj++)
       matrix_binned[i0+jj]=gsl_matrix_get(w->coupling_matrix_binned,ii,jj);
   }
@@ -312,29 +390,24 @@ static void nmt_coupling_binned_fromhdus(fitsfile *fptr,
   long fpixel[2]={1,1};
 
   //Read flattened coupling matrix
-  double *matrix_binned=my_malloc(n_el*n_el*sizeof(double));
-  fits_movnam_hdu(fptr,IMAGE_HDU,"MCM_BINNED",0,status);
+  move_to_image(fptr,"MCM_BINNED",2,n_el,n_el,status);
+  if(*status)
+    return;
+  double *matrix_binned=my_calloc(n_el*n_el,sizeof(double));
   fits_read_pix(fptr,TDOUBLE,fpixel,n_el*n_el,NULL,matrix_binned,NULL,status);
 
   //Unflatten
   w->coupling_matrix_binned=gsl_matrix_alloc(n_el,n_el);
   long ii,jj;
   for(ii=0;ii<n_el;ii++) {
-    int i0=ii*n_el;
+    long i0=ii*n_el;
     for(jj=0;jj<n_el;jj++)
       gsl_matrix_set(w->coupling_matrix_binned,ii,jj,matrix_binned[i0+jj]);
   }
   free(matrix_binned);
 
   //Read permutation
-  int *perm=my_malloc(n_el*sizeof(int));
-  fits_movnam_hdu(fptr,IMAGE_HDU,"MCM_PERM",0,status);
-  fits_read_pix(fptr,TINT,fpixel,n_el,NULL,perm,NULL,status);
-
-  w->coupling_matrix_perm=gsl_permutation_alloc(n_el);
-  for(ii=0;ii<n_el;ii++)
-    w->coupling_matrix_perm->data[ii]=perm[ii];
-  free(perm);
+  w->coupling_matrix_perm=permutation_fromhdus(fptr,n_el,status);
 
   //With the FKP normalisation, the binned matrix is w2 times the identity.
   w->w2=0;
@@ -352,6 +425,13 @@ static void check_fits(int status,char *fname,int is_read)
   }
 }
 
+//Closes a file that was being read, possibly after an error
+static void close_read(fitsfile *fptr)
+{
+  int status=0;
+  fits_close_file(fptr,&status);
+}
+
 void nmt_workspace_write_fits(nmt_workspace *w,char *fname)
 {
   fitsfile *fptr;
@@ -385,28 +465,35 @@ nmt_workspace *nmt_workspace_read_fits(char *fname, int w_unbinned)
 
   if(fname==NULL)
     report_error(NMT_ERROR_READ,"File name missing\n");
-  nmt_workspace *w=my_malloc(sizeof(nmt_workspace));
 
   fits_open_file(&fptr,fname,READONLY,&status);
   check_fits(status,fname,1);
+  nmt_workspace *w=my_calloc(1,sizeof(nmt_workspace));
   // Workspace info HDU
   nmt_workspace_info_fromhdus(fptr,w,w_unbinned,&status);
-  check_fits(status,fname,1);
   // beam_prod HDU
-  w->beam_prod=nmt_l_arr_fromhdus(fptr,w->lmax_fields,"BEAMS",&status);
-  check_fits(status,fname,1);
+  if(status==0)
+    w->beam_prod=nmt_l_arr_fromhdus(fptr,w->lmax_fields,"BEAMS",&status);
   // pcl_masks HDU
-  w->pcl_masks=nmt_l_arr_fromhdus(fptr,w->lmax_mask,"PCL_MASKS",&status);
-  check_fits(status,fname,1);
+  if(status==0)
+    w->pcl_masks=nmt_l_arr_fromhdus(fptr,w->lmax_mask,"PCL_MASKS",&status);
   // bins HDUs
-  w->bin=nmt_binning_scheme_fromhdus(fptr,&status);
-  if(status) // maybe used old format
-    w->bin=nmt_binning_scheme_fromhdus_old(fptr,&status);
-  check_fits(status,fname,1);
+  if(status==0) {
+    w->bin=nmt_binning_scheme_fromhdus(fptr,&status);
+    if(status) { // maybe used old format
+      status=0;
+      w->bin=nmt_binning_scheme_fromhdus_old(fptr,&status);
+    }
+  }
+  if((status==0) && (w->bin->ell_max>w->lmax))
+    status=NMT_ERROR_INCONSISTENT;
   // binned MCM HDU
-  nmt_coupling_binned_fromhdus(fptr,w,&status);
+  if(status==0)
+    nmt_coupling_binned_fromhdus(fptr,w,&status);
+  close_read(fptr);
+  if(status)
+    nmt_workspace_free(w);
   check_fits(status,fname,1);
-  fits_close_file(fptr,&status);
 
   return w;
 }
@@ -455,18 +542,29 @@ static void nmt_workspace_flat_info_fromhdus(fitsfile *fptr,
   fits_read_key(fptr,TINT,"PURE_B2",&(w->pb2),NULL,status);
   fits_read_key(fptr,TINT,"IS_TEB",&(w->is_teb),NULL,status);
   fits_read_key(fptr,TINT,"NCLS",&(w->ncls),NULL,status);
+  if(*status)
+    return;
+  if(((w->ncls!=1) && (w->ncls!=2) && (w->ncls!=4) && (w->ncls!=7)) ||
+     ((w->is_teb!=0)!=(w->ncls==7))) {
+    *status=NMT_ERROR_INCONSISTENT;
+    return;
+  }
   long ii;
-  long naxes[2],fpixel[2]={1,1};
-  fits_get_img_size(fptr,2,naxes,status);
-  w->coupling_matrix_unbinned=my_malloc(naxes[1]*sizeof(flouble *));
-  for(ii=0;ii<naxes[1];ii++) {
+  long n_el1=w->ncls*w->bin->n_bands;
+  long n_el2=w->ncls*w->fs->n_ell;
+  long fpixel[2]={1,1};
+  move_to_image(fptr,"WSP_PRIMARY",2,n_el2,n_el1,status);
+  if(*status)
+    return;
+  w->coupling_matrix_unbinned=my_calloc(n_el1,sizeof(flouble *));
+  for(ii=0;(ii<n_el1) && (*status==0);ii++) {
     fpixel[1]=ii+1;
-    w->coupling_matrix_unbinned[ii]=my_malloc(naxes[0]*sizeof(flouble));
-    fits_read_pix(fptr,TDOUBLE,fpixel,naxes[0],NULL,
+    w->coupling_matrix_unbinned[ii]=my_calloc(n_el2,sizeof(flouble));
+    fits_read_pix(fptr,TDOUBLE,fpixel,n_el2,NULL,
 		  w->coupling_matrix_unbinned[ii],NULL,status);
+    if(*status == 412)
+      *status=0;
   }
-  if(*status == 412)
-    *status=0;
 }
 
 static void nmt_flatsky_info_tohdus(fitsfile *fptr,
@@ -500,9 +598,9 @@ static void nmt_flatsky_info_tohdus(fitsfile *fptr,
 static nmt_flatsky_info *nmt_flatsky_info_fromhdus(fitsfile *fptr,
 						   int *status)
 {
-  nmt_flatsky_info *fs=my_malloc(sizeof(nmt_flatsky_info));
+  nmt_flatsky_info *fs=my_calloc(1,sizeof(nmt_flatsky_info));
+  long nrows=move_to_table(fptr,"FS_INFO",status);
 
-  fits_movnam_hdu(fptr,BINARY_TBL,"FS_INFO",0,status);
   fits_read_key(fptr,TINT   ,"NX",&(fs->nx),NULL,status);
   fits_read_key(fptr,TINT   ,"NY",&(fs->ny),NULL,status);
   fits_read_key(fptr,TLONG  ,"NPIX",&(fs->npix),NULL,status);
@@ -512,10 +610,24 @@ static nmt_flatsky_info *nmt_flatsky_info_fromhdus(fitsfile *fptr,
   fits_read_key(fptr,TDOUBLE,"DELL",&(fs->dell),NULL,status);
   fits_read_key(fptr,TDOUBLE,"I_DELL",&(fs->i_dell),NULL,status);
 
-  long nrows;
-  double nulval;
+  if(*status==0) {
+    //Rings of Fourier modes that the map has
+    double kx=2*M_PI*(fs->nx/2)/fs->lx,ky=2*M_PI*(fs->ny/2)/fs->ly;
+    double nring=sqrt(kx*kx+ky*ky)*fs->i_dell;
+    if((fs->nx<1) || (fs->ny<1) || (fs->npix!=fs->nx*((long)fs->ny)) ||
+       (fs->npix>INT_MAX) || !(isfinite(fs->lx) && (fs->lx>0)) ||
+       !(isfinite(fs->ly) && (fs->ly>0)) ||
+       !(isfinite(fs->dell) && (fs->dell>0)) ||
+       !(fs->i_dell>0) || !(nring<nrows+2))
+      *status=NMT_ERROR_INCONSISTENT;
+  }
+  if(*status) {
+    free(fs);
+    return NULL;
+  }
+
+  double nulval=0;
   int anynul;
-  fits_get_num_rows(fptr,&nrows,status);
   fs->n_ell=nrows;
   fs->ell_min=my_malloc(fs->n_ell*sizeof(flouble));
   fits_read_col(fptr,TDOUBLE,1,1,1,nrows,&nulval,fs->ell_min,&anynul,status);
@@ -546,14 +658,17 @@ static void nmt_n_cells_tohdus(fitsfile *fptr,
   free(tunit[0]); free(tunit);
 }
 
-static int *nmt_n_cells_fromhdus(fitsfile *fptr,
+static int *nmt_n_cells_fromhdus(fitsfile *fptr,int n_bands,
 				 int *status)
 {
   int *n_cells;
   long nrows;
-  int nulval,anynul;
-  fits_movnam_hdu(fptr,BINARY_TBL,"N_CELLS",0,status);
-  fits_get_num_rows(fptr,&nrows,status);
+  int nulval=0,anynul;
+  nrows=move_to_table(fptr,"N_CELLS",status);
+  if((*status==0) && (nrows!=n_bands))
+    *status=NMT_ERROR_INCONSISTENT;
+  if(*status)
+    return NULL;
   n_cells=my_malloc(nrows*sizeof(int));
   fits_read_col(fptr,TINT,1,1,1,nrows,&nulval,n_cells,&anynul,status);
 
@@ -608,15 +723,16 @@ static void nmt_flat_coupling_binned_fromhdus(fitsfile *fptr,
 					      int *status)
 {
   flouble *matrix;
-  long ii,n_el;
-  long naxes[2],fpixel[2]={1,1};
+  long ii;
+  long n_el=w->ncls*w->bin->n_bands;
+  long fpixel[2]={1,1};
 
   //Non-GSL
-  fits_movnam_hdu(fptr,IMAGE_HDU,"MCM_BINNED",0,status);
-  fits_get_img_size(fptr,2,naxes,status);
-  n_el=naxes[0];
-  matrix=my_malloc(n_el*n_el*sizeof(flouble));
-  fits_read_pix(fptr,TDOUBLE,fpixel,naxes[0]*naxes[1],NULL,matrix,NULL,status);
+  move_to_image(fptr,"MCM_BINNED",2,n_el,n_el,status);
+  if(*status)
+    return;
+  matrix=my_calloc(n_el*n_el,sizeof(flouble));
+  fits_read_pix(fptr,TDOUBLE,fpixel,n_el*n_el,NULL,matrix,NULL,status);
   w->coupling_matrix_binned=my_malloc(n_el*sizeof(flouble *));
   for(ii=0;ii<n_el;ii++) {
     w->coupling_matrix_binned[ii]=my_malloc(n_el*sizeof(flouble));
@@ -625,13 +741,8 @@ static void nmt_flat_coupling_binned_fromhdus(fitsfile *fptr,
   }
 
   //GSL
-  fits_movnam_hdu(fptr,IMAGE_HDU,"MCM_BINNED_GSL",0,status);
-  fits_get_img_size(fptr,2,naxes,status);
-  if((naxes[0]!=n_el) || (naxes[1]!=n_el)) {
-    report_error(NMT_ERROR_INCONSISTENT,
-		 "Inconsistent size for GSL binned MCM\n");
-  }
-  fits_read_pix(fptr,TDOUBLE,fpixel,naxes[0]*naxes[1],NULL,matrix,NULL,status);
+  move_to_image(fptr,"MCM_BINNED_GSL",2,n_el,n_el,status);
+  fits_read_pix(fptr,TDOUBLE,fpixel,n_el*n_el,NULL,matrix,NULL,status);
   w->coupling_matrix_binned_gsl=gsl_matrix_alloc(n_el,n_el);
   for(ii=0;ii<n_el;ii++) {
     long jj,i0=ii*n_el;
@@ -641,14 +752,7 @@ static void nmt_flat_coupling_binned_fromhdus(fitsfile *fptr,
   free(matrix);
 
   //Read permutation
-  int *perm=my_malloc(n_el*sizeof(int));
-  fits_movnam_hdu(fptr,IMAGE_HDU,"MCM_PERM",0,status);
-  fits_read_pix(fptr,TINT,fpixel,n_el,NULL,perm,NULL,status);
-
-  w->coupling_matrix_perm=gsl_permutation_alloc(n_el);
-  for(ii=0;ii<n_el;ii++)
-    w->coupling_matrix_perm->data[ii]=perm[ii];
-  free(perm);
+  w->coupling_matrix_perm=permutation_fromhdus(fptr,n_el,status);
 }
 
 static void nmt_binning_scheme_flat_tohdus(fitsfile *fptr,
@@ -688,12 +792,14 @@ static nmt_binning_scheme_flat *nmt_binning_scheme_flat_fromhdus(fitsfile *fptr,
 								 int *status)
 {
   int anynul;
-  long nrows;
-  double nulval;
-  nmt_binning_scheme_flat *b=my_malloc(sizeof(nmt_binning_scheme_flat));
+  double nulval=0;
+  long nrows=move_to_table(fptr,"BINS_SUMMARY",status);
+  if((*status==0) && (nrows<1))
+    *status=NMT_ERROR_INCONSISTENT;
+  if(*status)
+    return NULL;
 
-  fits_movnam_hdu(fptr,BINARY_TBL,"BINS_SUMMARY",0,status);
-  fits_get_num_rows(fptr,&nrows,status);
+  nmt_binning_scheme_flat *b=my_malloc(sizeof(nmt_binning_scheme_flat));
   b->n_bands=nrows;
   b->ell_0_list=my_malloc(b->n_bands*sizeof(flouble));
   b->ell_f_list=my_malloc(b->n_bands*sizeof(flouble));
@@ -738,26 +844,28 @@ nmt_workspace_flat *nmt_workspace_flat_read_fits(char *fname)
 
   if(fname==NULL)
     report_error(NMT_ERROR_READ,"File name missing\n");
-  nmt_workspace_flat *w=my_malloc(sizeof(nmt_workspace_flat));
 
   fits_open_file(&fptr,fname,READONLY,&status);
   check_fits(status,fname,1);
-  // Workspace info HDU
-  nmt_workspace_flat_info_fromhdus(fptr,w,&status);
-  check_fits(status,fname,1);
+  nmt_workspace_flat *w=my_calloc(1,sizeof(nmt_workspace_flat));
+  // bins HDU
+  w->bin=nmt_binning_scheme_flat_fromhdus(fptr,&status);
   // FS info HDU
-  w->fs=nmt_flatsky_info_fromhdus(fptr,&status);
-  check_fits(status,fname,1);
+  if(status==0)
+    w->fs=nmt_flatsky_info_fromhdus(fptr,&status);
+  // Workspace info HDU
+  if(status==0)
+    nmt_workspace_flat_info_fromhdus(fptr,w,&status);
   // n_cells HDU
-  w->n_cells=nmt_n_cells_fromhdus(fptr,&status);
-  check_fits(status,fname,1);
+  if(status==0)
+    w->n_cells=nmt_n_cells_fromhdus(fptr,w->bin->n_bands,&status);
   // binned MCM HDUs
-  nmt_flat_coupling_binned_fromhdus(fptr,w,&status);
+  if(status==0)
+    nmt_flat_coupling_binned_fromhdus(fptr,w,&status);
+  close_read(fptr);
+  if(status)
+    nmt_workspace_flat_free(w);
   check_fits(status,fname,1);
-  // bins HDU
-  w->bin=nmt_binning_scheme_flat_fromhdus(fptr,&status);
-  check_fits(status,fname,1);
-  fits_close_file(fptr,&status);
 
   return w;
 }
@@ -782,24 +890,19 @@ static double **nmt_covar_coeffs_fromhdus(fitsfile *fptr,
 					  char *name,
 					  int *status)
 {
-  flouble *matrix;
-  long ii,n_el;
-  long naxes[2],fpixel[2]={1,1};
+  long ii,n_el=n_expected;
+  long fpixel[2]={1,1};
 
-  fits_movnam_hdu(fptr,IMAGE_HDU,name,0,status);
-  fits_get_img_size(fptr,2,naxes,status);
-  n_el=naxes[0];
-  if(n_el!=n_expected)
-    report_error(NMT_ERROR_INCONSISTENT,"Mistmatching coefficient size\n");
-  matrix=my_malloc(n_el*n_el*sizeof(flouble));
-  fits_read_pix(fptr,TDOUBLE,fpixel,naxes[0]*naxes[1],NULL,matrix,NULL,status);
+  move_to_image(fptr,name,2,n_el,n_el,status);
+  if(*status)
+    return NULL;
 
-  double **coeff=my_malloc(n_el*sizeof(flouble *));
+  double **coeff=my_calloc(n_el,sizeof(flouble *));
   for(ii=0;ii<n_el;ii++) {
-    coeff[ii]=my_malloc(n_el*sizeof(flouble));
-    memcpy(coeff[ii],&(matrix[ii*n_el]),n_el*sizeof(flouble));
+    fpixel[1]=ii+1;
+    coeff[ii]=my_calloc(n_el,sizeof(flouble));
+    fits_read_pix(fptr,TDOUBLE,fpixel,n_el,NULL,coeff[ii],NULL,status);
   }
-  free(matrix);
   return coeff;
 }
 
@@ -848,13 +951,20 @@ nmt_covar_workspace *nmt_covar_workspace_read_fits(char *fname, int force_spin0)
 
   if(fname==NULL)
     report_error(NMT_ERROR_READ,"File name missing\n");
-  nmt_covar_workspace *cw=my_malloc(sizeof(nmt_covar_workspace));
 
   fits_open_file(&fptr,fname,READONLY,&status);
   check_fits(status,fname,1);
+  nmt_covar_workspace *cw=my_calloc(1,sizeof(nmt_covar_workspace));
   fits_movnam_hdu(fptr,ANY_HDU,"CWSP_PRIMARY",0,&status);
   fits_read_key(fptr,TINT,"LMAX",&(cw->lmax),NULL,&status);
-  check_fits(status,fname,1);
+  if((status==0) && ((cw->lmax<0) || (cw->lmax>=INT_MAX/16)))
+    status=NMT_ERROR_INCONSISTENT;
+  if(status) {
+    close_read(fptr);
+    free(cw);
+    check_fits(status,fname,1);
+  }
+  cw->lmax_mask=cw->lmax;
   if(force_spin0)
     cw->spin0_only=1;
   else {
@@ -867,9 +977,7 @@ nmt_covar_workspace *nmt_covar_workspace_read_fits(char *fname, int force_spin0)
   //Empty primary
 
   cw->xi00_1122=nmt_covar_coeffs_fromhdus(fptr,cw->lmax+1,"XI00_1122",&status);
-  check_fits(status,fname,1);
   cw->xi00_1221=nmt_covar_coeffs_fromhdus(fptr,cw->lmax+1,"XI00_1221",&status);
-  check_fits(status,fname,1);
   if(cw->spin0_only) {
     cw->xi02_1122=cw->xi00_1122;
     cw->xi02_1221=cw->xi00_1221;
@@ -880,19 +988,16 @@ nmt_covar_workspace *nmt_covar_workspace_read_fits(char *fname, int force_spin0)
   }
   else {
     cw->xi02_1122=nmt_covar_coeffs_fromhdus(fptr,cw->lmax+1,"XI02_1122",&status);
-    check_fits(status,fname,1);
     cw->xi02_1221=nmt_covar_coeffs_fromhdus(fptr,cw->lmax+1,"XI02_1221",&status);
-    check_fits(status,fname,1);
     cw->xi22p_1122=nmt_covar_coeffs_fromhdus(fptr,cw->lmax+1,"XI22P_1122",&status);
-    check_fits(status,fname,1);
     cw->xi22p_1221=nmt_covar_coeffs_fromhdus(fptr,cw->lmax+1,"XI22P_1221",&status);
-    check_fits(status,fname,1);
     cw->xi22m_1122=nmt_covar_coeffs_fromhdus(fptr,cw->lmax+1,"XI22M_1122",&status);
-    check_fits(status,fname,1);
     cw->xi22m_1221=nmt_covar_coeffs_fromhdus(fptr,cw->lmax+1,"XI22M_1221",&status);
-    check_fits(status,fname,1);
   }
-  fits_close_file(fptr,&status);
+  close_read(fptr);
+  if(status)
+    nmt_covar_workspace_free(cw);
+  check_fits(status,fname,1);
 
   return cw;
 }
@@ -942,34 +1047,35 @@ nmt_covar_workspace_flat *nmt_covar_workspace_flat_read_fits(char *fname)
 
   if(fname==NULL)
     report_error(NMT_ERROR_READ,"File name missing\n");
-  nmt_covar_workspace_flat *cw=my_malloc(sizeof(nmt_covar_workspace_flat));
 
   fits_open_file(&fptr,fname,READONLY,&status);
   check_fits(status,fname,1);
+  nmt_covar_workspace_flat *cw=my_calloc(1,sizeof(nmt_covar_workspace_flat));
   fits_movnam_hdu(fptr,IMAGE_HDU,"CWSP_PRIMARY",0,&status);
 
   //Bins
   cw->bin=nmt_binning_scheme_flat_fromhdus(fptr,&status);
-  check_fits(status,fname,1);
+  if(status) {
+    close_read(fptr);
+    if(cw->bin!=NULL)
+      nmt_bins_flat_free(cw->bin);
+    free(cw);
+    check_fits(status,fname,1);
+  }
 
   //Coeffs
   cw->xi00_1122=nmt_covar_coeffs_fromhdus(fptr,cw->bin->n_bands,"XI00_1122",&status);
-  check_fits(status,fname,1);
   cw->xi00_1221=nmt_covar_coeffs_fromhdus(fptr,cw->bin->n_bands,"XI00_1221",&status);
-  check_fits(status,fname,1);
   cw->xi02_1122=nmt_covar_coeffs_fromhdus(fptr,cw->bin->n_bands,"XI02_1122",&status);
-  check_fits(status,fname,1);
   cw->xi02_1221=nmt_covar_coeffs_fromhdus(fptr,cw->bin->n_bands,"XI02_1221",&status);
-  check_fits(status,fname,1);
   cw->xi22p_1122=nmt_covar_coeffs_fromhdus(fptr,cw->bin->n_bands,"XI22P_1122",&status);
-  check_fits(status,fname,1);
   cw->xi22p_1221=nmt_covar_coeffs_fromhdus(fptr,cw->bin->n_bands,"XI22P_1221",&status);
-  check_fits(status,fname,1);
   cw->xi22m_1122=nmt_covar_coeffs_fromhdus(fptr,cw->bin->n_bands,"XI22M_1122",&status);
-  check_fits(status,fname,1);
   cw->xi22m_1221=nmt_covar_coeffs_fromhdus(fptr,cw->bin->n_bands,"XI22M_1221",&status);
+  close_read(fptr);
+  if(status)
+    nmt_covar_workspace_flat_free(cw);
   check_fits(status,fname,1);
-  fits_close_file(fptr,&status);
 
   return cw;
 }
diff --git a/src/nmt_master_flat.c b/src/nmt_master_flat.c
index f45f6df..ea3af4e 100644
--- a/src/nmt_master_flat.c
+++ b/src/nmt_master_flat.c
@@ -19,15 +19,21 @@ void nmt_workspace_flat_free(nmt_workspace_flat *w)
   int ii;
   gsl_permutation_free(w->coupling_matrix_perm);
   gsl_matrix_free(w->coupling_matrix_binned_gsl);
-  for(ii=0;ii<w->ncls*w->bin->n_bands;ii++)
-    free(w->coupling_matrix_unbinned[ii]);
-  free(w->coupling_matrix_unbinned);
-  for(ii=0;ii<w->ncls*w->bin->n_bands;ii++)
-    free(w->coupling_matrix_binned[ii]);
-  free(w->coupling_matrix_binned);
+  if(w->coupling_matrix_unbinned!=NULL) {
+    for(ii=0;ii<w->ncls*w->bin->n_bands;ii++)
+      free(w->coupling_matrix_unbinned[ii]);
+    free(w->coupling_matrix_unbinned);
+  }
+  if(w->coupling_matrix_binned!=NULL) {
+    for(ii=0;ii<w->ncls*w->bin->n_bands;ii++)
+      free(w->coupling_matrix_binned[ii]);
+    free(w->coupling_matrix_binned);
+  }
   free(w->n_cells);
-  nmt_bins_flat_free(w->bin);
-  nmt_flatsky_info_free(w->fs);
+  if(w->bin!=NULL)
+    nmt_bins_flat_free(w->bin);
+  if(w->fs!=NULL)
+    nmt_flatsky_info_free(w->fs);
   free(w);
 }
 
-- 
2.43.0


From 3949af5e0a17800979514bb5aeb88080b4a1da55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:11 +0000
Subject: [PATCH 55/62] fix: an empty beam was read out of bounds in flat-sky
 fields

---
 pymaster/field.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymaster/field.py b/pymaster/field.py
index 3d5bb7c..5d6ee6c 100644
--- a/pymaster/field.py
+++ b/pymaster/field.py
@@ -702,6 +702,9 @@ class NmtFieldFlat(object):
         # Form beam
         if isinstance(beam, (list, tuple, np.ndarray)):
             beam_use = beam
+            if (len(beam) != 2) or (len(beam[0]) == 0):
+                raise ValueError("The beam should contain two arrays with "
+                                 "the multipoles and the beam values")
         else:
             if beam is None:
                 beam_use = np.array([[-1.], [-1.]])
-- 
2.43.0


From ad7c404aaa9e0ce1d201b011b59abd043817a0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:45 +0000
Subject: [PATCH 56/62] fix: arrays that are not in the native byte order were
 misread

---
 pymaster/namaster_wrap.c | 6 ++++--
 pymaster/numpy.i         | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pymaster/namaster_wrap.c b/pymaster/namaster_wrap.c
index 8bfc6d7..62ebc5f 100644
--- a/pymaster/namaster_wrap.c
+++ b/pymaster/namaster_wrap.c
@@ -4008,8 +4008,10 @@ void get_ell_sampling_flat(nmt_field_flat *f, double *dout, int ndout)
   {
     PyArrayObject* ary = NULL;
     PyObject*      py_obj;
-    if (is_array(input) && (typecode == NPY_NOTYPE ||
-                            PyArray_EquivTypenums(array_type(input),typecode)))
+    if (is_array(input) &&
+        PyArray_ISBEHAVED_RO((PyArrayObject*) input) &&
+        (typecode == NPY_NOTYPE ||
+         PyArray_EquivTypenums(array_type(input),typecode)))
     {
       ary = (PyArrayObject*) input;
       *is_new_object = 0;
diff --git a/pymaster/numpy.i b/pymaster/numpy.i
index 7429677..71aa1e0 100644
--- a/pymaster/numpy.i
+++ b/pymaster/numpy.i
@@ -233,8 +233,10 @@
   {
     PyArrayObject* ary = NULL;
     PyObject*      py_obj;
-    if (is_array(input) && (typecode == NPY_NOTYPE ||
-                            PyArray_EquivTypenums(array_type(input),typecode)))
+    if (is_array(input) &&
+        PyArray_ISBEHAVED_RO((PyArrayObject*) input) &&
+        (typecode == NPY_NOTYPE ||
+         PyArray_EquivTypenums(array_type(input),typecode)))
     {
       ary = (PyArrayObject*) input;
       *is_new_object = 0;
-- 
2.43.0


From af48226f40761c292381caee98fa323bb3610c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:04 +0000
Subject: [PATCH 57/62] fix: fields kept a reference to the beam array of the
 caller

---
 pymaster/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymaster/field.py b/pymaster/field.py
index 5d6ee6c..5439f79 100644
--- a/pymaster/field.py
+++ b/pymaster/field.py
@@ -194,7 +194,7 @@ class NmtField(object):
             if len(beam) <= lmax:
                 raise ValueError("Input beam must have at least %d elements "
                                  "given the input map resolution" % (lmax+1))
-            beam_use = beam
+            beam_use = np.array(beam, dtype=np.float64)
         else:
             if beam is None:
                 beam_use = np.ones(lmax+1)
@@ -938,7 +938,7 @@ class NmtFieldCatalog(NmtField):
                 raise ValueError("Input beam must have at least %d elements "
                                  "given the input maximum "
                                  "multipole" % (lmax+1))
-            beam_use = beam
+            beam_use = np.array(beam, dtype=np.float64)
         else:
             if beam is None:
                 beam_use = np.ones(lmax+1)
-- 
2.43.0


From d24663e8ca8fe9173d4eab78fb7986fc15253230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:59 +0000
Subject: [PATCH 58/62] fix: pseudo-inverse of complex Hermitian matrices was
 wrong

---
 pymaster/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index ae52809..e61fc63 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -834,7 +834,7 @@ def moore_penrose_pinvh(mat, tol_pinv):
     goodw = (w >= tol_pinv*np.max(w)) & (w != 0)
     w_inv = np.zeros_like(w)
     w_inv[goodw] = 1./w[goodw]
-    pinv = np.dot(v, np.dot(np.diag(w_inv), v.T))
+    pinv = np.dot(v, np.dot(np.diag(w_inv), v.conj().T))
     return pinv
 
 
-- 
2.43.0


From 1b987164b0c28da90d7db54b730791a31a422bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:59 +0000
Subject: [PATCH 59/62] fix: fractional numbers of iterations were silently
 truncated

---
 pymaster/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymaster/utils.py b/pymaster/utils.py
index e61fc63..8752ad1 100644
--- a/pymaster/utils.py
+++ b/pymaster/utils.py
@@ -99,6 +99,8 @@ def set_n_iter_default(n_iter, mask=False):
     """
     if n_iter < 0:
         raise ValueError('n_iter must be positive.')
+    if n_iter != int(n_iter):
+        raise ValueError('n_iter must be an integer.')
     if mask:
         nmt_params.n_iter_mask_default = int(n_iter)
     else:
-- 
2.43.0


From 296c12dd234c4147b9bef0ebdf6a73e882f3c1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:56 +0000
Subject: [PATCH 60/62] fix: decoupling refused noise or deprojection biases
 that extend beyond the spectra

---
 pymaster/workspaces.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pymaster/workspaces.py b/pymaster/workspaces.py
index 49f8201..2c01b44 100644
--- a/pymaster/workspaces.py
+++ b/pymaster/workspaces.py
@@ -452,7 +452,7 @@ class NmtWorkspace(object):
                     "Input bias power spectrum has wrong shape. "
                     f"Expected ({self.wsp.ncls}, {self.wsp.lmax+1}), "
                     f"but got {cl_bias.shape}")
-            clb = cl_bias.copy()
+            clb = cl_bias
         else:
             clb = np.zeros_like(cl_in)
         if cl_noise is not None:
@@ -462,10 +462,14 @@ class NmtWorkspace(object):
                     "Input noise power spectrum has wrong shape. "
                     f"Expected ({self.wsp.ncls}, {self.wsp.lmax+1}), "
                     f"but got {cl_noise.shape}")
-            cln = cl_noise.copy()
+            cln = cl_noise
         else:
             cln = np.zeros_like(cl_in)
 
+        # Only the multipoles of this workspace are used. The three sets
+        # of spectra need not extend equally far beyond them.
+        cl_in, clb, cln = [np.array(cl)[:, :self.wsp.lmax+1]
+                           for cl in (cl_in, clb, cln)]
         cl1d = lib.decouple_cell_py(
             self.wsp, cl_in, cln, clb, self.wsp.ncls * self.wsp.bin.n_bands
         )
-- 
2.43.0


From 4d764c3b2a7918630df4c9a073c283b3b3843e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:57 +0000
Subject: [PATCH 61/62] fix: purified fields masked on input were wrong in
 pixels of negative weight

---
 pymaster/field.py    | 2 +-
 src/nmt_field_flat.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymaster/field.py b/pymaster/field.py
index 5439f79..441c53f 100644
--- a/pymaster/field.py
+++ b/pymaster/field.py
@@ -274,7 +274,7 @@ class NmtField(object):
             if w_temp:
                 temp_unmasked = np.array(templates)
             if masked_on_input:
-                good = self.mask > 0
+                good = self.mask != 0
                 goodm = self.mask[good]
                 maps_unmasked[:, good] /= goodm[None, :]
                 if w_temp:
diff --git a/src/nmt_field_flat.c b/src/nmt_field_flat.c
index ca03a27..c19da26 100644
--- a/src/nmt_field_flat.c
+++ b/src/nmt_field_flat.c
@@ -341,7 +341,7 @@ nmt_field_flat *nmt_field_flat_alloc(int nx,int ny,flouble lx,flouble ly,
       //Unmask if masked
       if(masked_input) {
         for(ip=0;ip<fl->npix;ip++) {
-          if(fl->mask[ip]>0)
+          if(fl->mask[ip]!=0)
             maps_unmasked[imap][ip]/=fl->mask[ip];
           else
             maps_unmasked[imap][ip]=0;
@@ -358,7 +358,7 @@ nmt_field_flat *nmt_field_flat_alloc(int nx,int ny,flouble lx,flouble ly,
           //Unmask if masked
           if(masked_input) {
             for(ip=0;ip<fl->npix;ip++) {
-              if(mask[ip]>0)
+              if(fl->mask[ip]!=0)
                 temp_unmasked[itemp][imap][ip]/=fl->mask[ip];
               else
                 temp_unmasked[itemp][imap][ip]=0;
-- 
2.43.0


From 4f80c01131804077a1a04c7108142b28de15567e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:40 +0000
Subject: [PATCH 62/62] fix: mask-only fields accepted purification they do not
 support

---
 pymaster/field.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pymaster/field.py b/pymaster/field.py
index 441c53f..573b95b 100644
--- a/pymaster/field.py
+++ b/pymaster/field.py
@@ -210,6 +210,13 @@ class NmtField(object):
             if (self.spin == 0) and self.anisotropic_mask:
                 raise ValueError("Anisotropic masks can't be used "
                                  "with scalar fields.")
+            if self.pure_e or self.pure_b:
+                if self.spin != 2:
+                    raise ValueError("Purification only implemented for "
+                                     "spin-2 fields")
+                if self.anisotropic_mask:
+                    raise NotImplementedError("Purification not implemented "
+                                              "for anisotropic masks")
             self.nmaps = 2 if spin else 1
             return
 
-- 
2.43.0

