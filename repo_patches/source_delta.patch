From 2051b86542eebbea42f7cd558f05d9a571d29180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:45 +0000
Subject: [PATCH 01/14] fix: row strides of the mpz matrix products for
 non-square matrices

---
 matrix/mul.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/matrix/mul.cc b/matrix/mul.cc
index e03bec4..5daef91 100644
--- a/matrix/mul.cc
+++ b/matrix/mul.cc
@@ -28,10 +28,10 @@ void mul(mpz_t* result, mpz_t* A, int64_t rowsA, int64_t colsA, mpz_t* B, int64_
             mpz_set_ui(acc,0);
             for(k = 0; k < rowsB; k++)
             {
-                mpz_mul(tmp, A[i*rowsA + k], B[k*rowsB + j]);
+                mpz_mul(tmp, A[i*colsA + k], B[k*colsB + j]);
                 mpz_add(acc,acc,tmp);
             }
-            mpz_set(result[i*rowsA + j],acc);
+            mpz_set(result[i*colsB + j],acc);
         }
     }
     mpz_clears(tmp, acc, NULL);
@@ -46,7 +46,7 @@ void mul(mpz_t* result, mpz_t a, mpz_t* A, int64_t rowsA, int64_t colsA)
     {
         for(j = 0; j < colsA; j++)
         {
-            mpz_mul(result[i*rowsA+j], a, A[i*rowsA+j]);
+            mpz_mul(result[i*colsA+j], a, A[i*colsA+j]);
         }
     }
 }
@@ -63,7 +63,7 @@ void mul(mpz_t* result, mpz_t* A, int64_t rowsA, int64_t colsA, mpz_t* v, int64_
         mpz_set_ui(acc,0);
         for(j = 0; j < colsA; j++)
         {
-            mpz_mul(tmp,A[i*rowsA +j],v[j]);
+            mpz_mul(tmp,A[i*colsA +j],v[j]);
             mpz_add(acc,acc,tmp);
         }
         mpz_set(result[i],acc);
-- 
2.43.0


From 171d4c9c3e0c34fdd8314b31446b4ea0675d9061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:45 +0000
Subject: [PATCH 02/14] fix: row strides of the mpz product with a transpose
 for non-square matrices

---
 matrix/mul_tranpose.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix/mul_tranpose.cc b/matrix/mul_tranpose.cc
index 48a6a38..e0d2704 100644
--- a/matrix/mul_tranpose.cc
+++ b/matrix/mul_tranpose.cc
@@ -55,10 +55,10 @@ void mul_transpose(mpz_t* result, mpz_t* A, int64_t rowsA, int64_t colsA, mpz_t*
             mpz_set_ui(acc,0);
             for(k = 0; k < rowsB; k++)
             {
-                mpz_mul(tmp, A[i*rowsA + k], B[j*colsB + k]);
+                mpz_mul(tmp, A[i*colsA + k], B[j*rowsB + k]);
                 mpz_add(acc,acc,tmp);
             }
-            mpz_set(result[i*rowsA + j],acc);
+            mpz_set(result[i*colsB + j],acc);
         }
     }
     mpz_clears(tmp, acc,NULL);
-- 
2.43.0


From 67b242839f3e4499b4392187f99f66017ae1bfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:45 +0000
Subject: [PATCH 03/14] fix: row stride in the conversions between Mat<ZZ> and
 mpz_t arrays

---
 conv/conv.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conv/conv.cc b/conv/conv.cc
index 97aa639..fd2f261 100644
--- a/conv/conv.cc
+++ b/conv/conv.cc
@@ -69,7 +69,7 @@ void conv(mpz_t* A, const Mat<ZZ> &B)
     {
         for(j = 0; j < colsB; j++)
         {
-            conv(A[i*rowsB+j], B[i][j]);
+            conv(A[i*colsB+j], B[i][j]);
         }
     }
 }
@@ -83,7 +83,7 @@ void conv(Mat<ZZ> &A, mpz_t* B, int64_t rowsB, int64_t colsB)
     {
         for(j = 0; j < colsB; j++)
         {
-            conv(A[i][j], B[i*rowsB + j]);
+            conv(A[i][j], B[i*colsB + j]);
         }
     }
 
-- 
2.43.0


From d1671ec7a412c7b12e864fb30020ca7c0a11bc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:45 +0000
Subject: [PATCH 04/14] fix: binomial must not return a wrapped value

---
 tools/binomial.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/binomial.cc b/tools/binomial.cc
index 1ed321d..a198324 100644
--- a/tools/binomial.cc
+++ b/tools/binomial.cc
@@ -25,7 +25,7 @@ int64_t binomial(const int64_t n, int64_t k)
         den *=i;
     }
     num = num/den;
-    assert( NumBytes(num) <= 8 );
+    assert( NumBits(num) <= 63 );
     return int64_t{conv<long>(num)};
 }
 
-- 
2.43.0


From f522df26cf22ad6483e9b3298b1fbc7619a9a942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:09 +0000
Subject: [PATCH 05/14] fix: overflow of the swap file name when saving

---
 dr/save.cc     | 8 +++-----
 dr_nd/dr_nd.cc | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/dr/save.cc b/dr/save.cc
index 4354562..fbf42b4 100644
--- a/dr/save.cc
+++ b/dr/save.cc
@@ -10,10 +10,8 @@ bool de_Rham_local::save(const char * filename)
         cout <<"Saving de_Rham_local to: "<< filename << endl;
 
     ofstream fileswp;
-    char fileswpname[sizeof(filename)+4];
-    strcpy(fileswpname, filename);
-    strcat(fileswpname,".swp");
-    fileswp.open(fileswpname);
+    std::string fileswpname = std::string(filename) + ".swp";
+    fileswp.open(fileswpname.c_str());
 
     int64_t i;
     ofstream file;
@@ -51,7 +49,7 @@ bool de_Rham_local::save(const char * filename)
         file << solve_pair->second <<endl;
         file.close();
         fileswp.close();
-        remove(fileswpname);
+        remove(fileswpname.c_str());
         return true;
     }
     else
diff --git a/dr_nd/dr_nd.cc b/dr_nd/dr_nd.cc
index f682f4a..25a68f8 100644
--- a/dr_nd/dr_nd.cc
+++ b/dr_nd/dr_nd.cc
@@ -248,10 +248,8 @@ bool de_Rham_non_degenerate_local::save( const char* filename)
         cout <<"Saving de_Rham_non_degenerate_local to: "<< filename << endl;
 
     ofstream fileswp;
-    char fileswpname[sizeof(filename)+4];
-    strcpy(fileswpname, filename);
-    strcat(fileswpname,".swp");
-    fileswp.open(fileswpname);
+    std::string fileswpname = std::string(filename) + ".swp";
+    fileswp.open(fileswpname.c_str());
 
     int64_t i;
     ofstream file;
@@ -305,7 +303,7 @@ bool de_Rham_non_degenerate_local::save( const char* filename)
 
         file.close();
         fileswp.close();
-        remove(fileswpname);
+        remove(fileswpname.c_str());
         return true;
     }
     else
-- 
2.43.0


From c574ed103447510f75107070da80339815e68426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:09 +0000
Subject: [PATCH 06/14] fix: modulus cleared inside the loop that uses it
 (several threads)

---
 hypersurface_nd/hypersurface_nd.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hypersurface_nd/hypersurface_nd.cc b/hypersurface_nd/hypersurface_nd.cc
index 48f192c..e7b382f 100644
--- a/hypersurface_nd/hypersurface_nd.cc
+++ b/hypersurface_nd/hypersurface_nd.cc
@@ -650,7 +650,6 @@ Vec<ZZ_p> hypersurface_non_degenerate::frob_ND_flint(const int64_t coordinate, c
             flint_free(v_list);
             flint_free(poly_list);
             _fmpz_vec_clear(G_list,Hlen*dpowern);
-            fmpz_clear(modulus);
             // reduced all terms from p*e to p*(e-1) and if e = 1 to basis
             H.swap(Hnew);
         }
-- 
2.43.0


From 90ebbb85af8b25ffd23fb2c34f8128a58f2731ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:56 +0000
Subject: [PATCH 07/14] fix: frob_J_ZZ_p must finish the factorial when p is at
 most the dimension

---
 hypersurface/frob_J_ZZ_p.cc | 46 +++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/hypersurface/frob_J_ZZ_p.cc b/hypersurface/frob_J_ZZ_p.cc
index 03ad9ee..6f61159 100644
--- a/hypersurface/frob_J_ZZ_p.cc
+++ b/hypersurface/frob_J_ZZ_p.cc
@@ -214,33 +214,35 @@ Vec<ZZ_p> hypersurface::frob_J_ZZ_p(const int64_t coordinate, const int64_t N, c
     // H_last has the poles with order n
     // final reduction step for H_last
     mul(F, *(dR->get_final_reduction_matrix_J(n)), H_last);
-    for(e = n/p; e != 0 && e >= m; e-- )
+    for(e = n/p; e != 0; e-- )
     {
-        if(verbose)
-            cout<<"e = "<<e<<endl<<"\tadding new terms\n";
+        if(e >= m)
+        {
+            if(verbose)
+                cout<<"e = "<<e<<endl<<"\tadding new terms\n";
 
-        dict_G0 = &dR->tuple_dict[ d * p * e - (n + 1) ];
-        clear(G0);
-        G0.SetLength( dict_G0->size() );
+            dict_G0 = &dR->tuple_dict[ d * p * e - (n + 1) ];
+            clear(G0);
+            G0.SetLength( dict_G0->size() );
 
-        j = e - m;
-        Djm = 0;
-        for( i = j ; i < N ; i++)
-        {
-            bin = binomial(m + i - 1, m - 1) * binomial(i,j);
-            if(j%2 == 0)
-                Djm += bin;
-            else
-                Djm -= bin;
-        }
+            j = e - m;
+            Djm = 0;
+            for( i = j ; i < N ; i++)
+            {
+                bin = binomial(m + i - 1, m - 1) * binomial(i,j);
+                if(j%2 == 0)
+                    Djm += bin;
+                else
+                    Djm -= bin;
+            }
 
-        for( it = fpow[j].begin(); it != fpow[j].end(); it++)
-        {
-            monomial = p * ( it->first + ei + ones ) - ones;
-            G0[ (*dict_G0)[ monomial ] ] += fact * Djm * it->second;
+            for( it = fpow[j].begin(); it != fpow[j].end(); it++)
+            {
+                monomial = p * ( it->first + ei + ones ) - ones;
+                G0[ (*dict_G0)[ monomial ] ] += fact * Djm * it->second;
+            }
+            F += (*(dR->get_final_reduction_matrix_J(p * e))) * G0;
         }
-        F += (*(dR->get_final_reduction_matrix_J(p * e))) * G0;
-
         /*
          * before
          * fact = (p * (m + N - 1))!/(p * e)!
-- 
2.43.0


From 6cef9cfef6db54f7b6ab4177590935d402dbad94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 08/14] fix: finite differences of reduction matrices with
 sparse coefficients

---
 dr_nd/dr_nd.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dr_nd/dr_nd.cc b/dr_nd/dr_nd.cc
index 25a68f8..2782afd 100644
--- a/dr_nd/dr_nd.cc
+++ b/dr_nd/dr_nd.cc
@@ -1905,13 +1905,18 @@ void finitediff_flint_nmod(fmpz * result, fmpz_mat_struct * M_fmpz, const int64_
         }
     }
     i = n + 1;
-    while( max_row[i] == 0 and min_col[i] == d and i >= 0)
+    while( i > 0 and max_row[i] == 0 and min_col[i] == d )
     {
         //M[i] = 0;
         n--;
         i--;
     }
-
+    // the differences of order i involve M[i], ..., M[n + 1]
+    for(i = n; i >= 0; i--)
+    {
+        max_row[i] = std::max(max_row[i], max_row[i + 1]);
+        min_col[i] = std::min(min_col[i], min_col[i + 1]);
+    }
 
 
 
-- 
2.43.0


From d1d302bb34b180747fc866b24218687d3b80201c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 09/14] fix: reduce the step index modulo the word-size modulus

---
 dr_nd/dr_nd.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dr_nd/dr_nd.cc b/dr_nd/dr_nd.cc
index 2782afd..9a1b334 100644
--- a/dr_nd/dr_nd.cc
+++ b/dr_nd/dr_nd.cc
@@ -831,11 +831,11 @@ void de_Rham_non_degenerate_local::reduce_vector_ND_poly_flint(fmpz * result, fm
                 mul(Gout, poly_nmod + 0, Gin, dot_params);
                 for(int64_t i = 1; i <= n; i++)
                 {
-                    xpower = nmod_mul(xpower, x, mod); // xpower = x^i
+                    xpower = nmod_mul(xpower, x % mod.n, mod); // xpower = x^i
                     mul(Gtmp, poly_nmod + i, Gin, dot_params);
                     _nmod_vec_scalar_addmul_nmod(Gout, Gtmp, dpowern, xpower, mod);
                 }
-                xpower = nmod_mul(xpower, x, mod);
+                xpower = nmod_mul(xpower, x % mod.n, mod);
                 tmp = nmod_vec_dot_compat(nmod_mat_row_srcptr(poly_nmod + n + 1, 0), Gin, dpowern, mod, dot_params);
                 //NMOD_VEC_DOT(tmp, i, dpowern, (poly_nmod + n+1)->rows[0], Gin, mod, nlimbs);
                 tmp = nmod_mul(tmp, xpower, mod);
-- 
2.43.0


From 78a59f8e3ce15afa28bc932960f522dcd6e05393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:40 +0000
Subject: [PATCH 10/14] fix: solve_system must clear the whole output matrix

---
 solve_system/solve_system.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/solve_system/solve_system.cc b/solve_system/solve_system.cc
index 885005a..6b1a736 100644
--- a/solve_system/solve_system.cc
+++ b/solve_system/solve_system.cc
@@ -210,8 +210,8 @@ void solve_system_zz_p_NTL(Vec<int64_t> &B, Mat<zz_p> &U, const Mat<zz_p> &T)
     if(ncols == 0)
     {
         B.SetLength(nrows);
-        clear(U);
         U.SetDims(nrows,nrows);
+        clear(U);
         for(i = 0; i < nrows; i++)
         {
             B[i] = i;
@@ -287,8 +287,8 @@ void solve_system_zz_p_NTL(Vec<int64_t> &B, Mat<zz_p> &U, const Mat<zz_p> &T)
     // n = ncols
     // |B| = nrows - rank
     //U from Fp^m to Fp^n \oplus Fp^B, such that (T + J) U = identity on Fp^m
-    clear(U);
     U.SetDims(ncols + nrows  - rank, nrows);
+    clear(U);
     
     for(i = 0; i < rank; i++)
     {
@@ -343,6 +343,7 @@ void solve_system_padic_flint(Vec<int64_t> &B, Mat<ZZ_p> &U, const Mat<ZZ_p> &T,
     {
         B.SetLength(nrows);
         U.SetDims(nrows,nrows);
+        clear(U);
         for(i = 0; i < nrows; i++)
         {
             B[i] = i;
@@ -501,6 +502,7 @@ void solve_system_padic_NTL(Vec<int64_t> &B, Mat<ZZ_p> &U, const Mat<ZZ_p> &T, i
     {
         B.SetLength(nrows);
         U.SetDims(nrows,nrows);
+        clear(U);
         for(i = 0; i < nrows; i++)
         {
             B[i] = i;
-- 
2.43.0


From 2bfbe51390cd22e80f6252782efc5677bee5d3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:25 +0000
Subject: [PATCH 11/14] fix: sign of the functional equation when the middle
 coefficients do not tell it

---
 matrix/charpoly_frob.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/matrix/charpoly_frob.cc b/matrix/charpoly_frob.cc
index 270a76c..2dc2b4a 100644
--- a/matrix/charpoly_frob.cc
+++ b/matrix/charpoly_frob.cc
@@ -32,18 +32,25 @@ Vec<ZZ> charpoly_frob(const Mat<ZZ> M,  Vec<int64_t> prec, const int64_t p, cons
     {
         // figure out the sign if dimension is even, i.e., weight is even
         // for odd case the sign is 1
+        bool found = false;
         for (int64_t i = 1; i <= degree/2; ++i) {
             ZZ p_power = power_ZZ(p, std::min(prec[i], prec[degree - i] + ((degree-2*i)*dimension) /2));
-            if( cp[i] % p_power !=0 &&  cp[degree-i] % p_power != 0) {
+            // a coefficient equal to its negative doesn't tell the sign
+            if( (2 * cp[i]) % p_power !=0 &&  cp[degree-i] % p_power != 0) {
                 if (0 == (cp[i] + cp[degree - i] * power_ZZ(p, ((degree-2*i)*dimension) /2)) %  p_power )
                     signal = -1;
                 else {
                     signal = 1;
                     assert(0 == (cp[i] - cp[degree - i] * power_ZZ(p, ((degree-2*i)*dimension) /2)) %  p_power );
                 }
+                found = true;
                 break;
             }
         }
+        // otherwise the constant coefficient, signal * p^(degree * dimension/2), tells it
+        ZZ c0 = power_ZZ(p, (degree * dimension) /2);
+        if( !found && (cp[0] + c0) % mod[0] == 0 && (cp[0] - c0) % mod[0] != 0 )
+            signal = -1;
     }
     cp[0] = signal *  power_ZZ(p, (degree * dimension) /2);
     //apply the symmetry
-- 
2.43.0


From c3aa6ccc13846fbf3249c42c3ebe0a447ec5ba94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:57 +0000
Subject: [PATCH 12/14] fix: conversions between Mat and nmod_mat for moduli of
 64 bits

---
 conv.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conv.h b/conv.h
index c2bf60e..e6a9f5f 100644
--- a/conv.h
+++ b/conv.h
@@ -47,7 +47,7 @@ void conv(nmod_mat_t A, const NTL::Mat<T> &B)
     assert( B.NumCols() == nmod_mat_ncols(A));
     for (int64_t i = 0; i < B.NumRows(); ++i)
         for (int64_t j = 0; j < B.NumCols(); j++)
-            nmod_mat_entry(A, i, j) = NTL::conv<ulong>(rep(B[i][j]) % A->mod.n );
+            nmod_mat_entry(A, i, j) = NTL::conv<ulong>(NTL::conv<NTL::ZZ>(rep(B[i][j])) % NTL::conv<NTL::ZZ>(A->mod.n));
 }
 
 void conv(NTL::Mat<NTL::ZZ> &A, mpz_t* B, int64_t rowsB, int64_t colsB);
@@ -85,5 +85,5 @@ void conv(NTL::Mat<T> &A, const nmod_mat_t B) {
     A.SetDims(rowsA, colsA);
     for(int64_t i = 0; i < rowsA; ++i)
         for(int64_t j = 0; j < colsA; j++)
-            conv(A[i][j], nmod_mat_entry(B, i, j));
+            conv(A[i][j], NTL::conv<NTL::ZZ>(nmod_mat_entry(B, i, j)));
 }
-- 
2.43.0


From fb83b10a7bfb7b5aba923005cb62500eb89d57c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:12 +0000
Subject: [PATCH 13/14] fix: save the lift of f instead of its reduction, which
 doesn't determine it

---
 dr/constructors.cc | 14 +++++++-------
 dr/save.cc         | 13 +++++++------
 dr_nd/dr_nd.cc     | 27 ++++++++++++++-------------
 3 files changed, 28 insertions(+), 26 deletions(-)

diff --git a/dr/constructors.cc b/dr/constructors.cc
index c8e845a..d2295e1 100644
--- a/dr/constructors.cc
+++ b/dr/constructors.cc
@@ -96,7 +96,7 @@ de_Rham_local::de_Rham_local(const char* filename)
 {
     int64_t i, j;
     ifstream file;
-    Vec<zz_p> fbar_vector;
+    Vec<ZZ_p> f_vector;
     pair< Vec<int64_t>, Mat<ZZ_p> > *solve_pair;
     file.open(filename);
 
@@ -111,7 +111,7 @@ de_Rham_local::de_Rham_local(const char* filename)
         file >> n;
         file >> d;
         file >> Hilbert_J;
-        file >> fbar_vector;
+        file >> f_vector;
 
         tuple_list.SetLength( (n + 1) * d + 1);
         tuple_dict.SetLength( (n + 1) * d + 1);
@@ -123,13 +123,13 @@ de_Rham_local::de_Rham_local(const char* filename)
                 tuple_dict[i][ ((tuple_list[i])[j]) ] = j;
             }
         }
-        assert( tuple_list[d].length() == fbar_vector.length() );
-        for(i = 0 ; i < (int64_t) fbar_vector.length() ; i++)
+        assert( tuple_list[d].length() == f_vector.length() );
+        for(i = 0 ; i < (int64_t) f_vector.length() ; i++)
         {
-            if( ! IsZero(fbar_vector[i]) )
+            if( ! IsZero(f_vector[i]) )
             {
-                f[ tuple_list[d][i] ] = rep( fbar_vector[i] );
-                fbar[ tuple_list[d][i] ] = fbar_vector[i];
+                f[ tuple_list[d][i] ] = f_vector[i];
+                fbar[ tuple_list[d][i] ] = rep( f_vector[i] ) % p;
             }
         }
 
diff --git a/dr/save.cc b/dr/save.cc
index fbf42b4..37aacc0 100644
--- a/dr/save.cc
+++ b/dr/save.cc
@@ -15,13 +15,14 @@ bool de_Rham_local::save(const char * filename)
 
     int64_t i;
     ofstream file;
-    Vec<zz_p> fbar_vector;
-    map< Vec<int64_t>, zz_p, vi64less>::const_iterator it;
+    Vec<ZZ_p> f_vector;
+    map< Vec<int64_t>, ZZ_p, vi64less>::const_iterator it;
     pair< Vec<int64_t> , Mat<ZZ_p> > *solve_pair;
 
-    fbar_vector.SetLength( tuple_list[d].length() );
-    for( it = fbar.begin(); it != fbar.end(); it++)
-        fbar_vector[ tuple_dict[d][it->first] ] = it->second;
+    // the lift itself, as its reduction doesn't determine it
+    f_vector.SetLength( tuple_list[d].length() );
+    for( it = f.begin(); it != f.end(); it++)
+        f_vector[ tuple_dict[d][it->first] ] = it->second;
 
     file.open(filename, ios::out | ios::trunc);
 
@@ -36,7 +37,7 @@ bool de_Rham_local::save(const char * filename)
         file << n <<endl;
         file << d <<endl;
         file << Hilbert_J <<endl;
-        file << fbar_vector << endl;
+        file << f_vector << endl;
 
         for( i = 0; i < n ; i++)
         {
diff --git a/dr_nd/dr_nd.cc b/dr_nd/dr_nd.cc
index 9a1b334..a9da5f9 100644
--- a/dr_nd/dr_nd.cc
+++ b/dr_nd/dr_nd.cc
@@ -105,7 +105,7 @@ de_Rham_non_degenerate_local::de_Rham_non_degenerate_local(const char* filename)
 {
     int64_t i, j;
     ifstream file;
-    Vec<zz_p> fbar_vector;
+    Vec<ZZ_p> f_vector;
     pair< Vec<int64_t>, Mat<ZZ_p> > *solve_pair;
     file.open(filename);
 
@@ -120,7 +120,7 @@ de_Rham_non_degenerate_local::de_Rham_non_degenerate_local(const char* filename)
         file >> n;
         file >> d;
         file >> Hilbert_J;
-        file >> fbar_vector;
+        file >> f_vector;
 
         tuple_list.SetLength( (n + 1) * d + 1);
         tuple_dict.SetLength( (n + 1) * d + 1);
@@ -132,13 +132,13 @@ de_Rham_non_degenerate_local::de_Rham_non_degenerate_local(const char* filename)
                 tuple_dict[i][ ((tuple_list[i])[j]) ] = j;
             }
         }
-        assert( tuple_list[d].length() == fbar_vector.length() );
-        for(i = 0 ; i < (int64_t) fbar_vector.length() ; i++)
+        assert( tuple_list[d].length() == f_vector.length() );
+        for(i = 0 ; i < (int64_t) f_vector.length() ; i++)
         {
-            if( ! IsZero(fbar_vector[i]) )
+            if( ! IsZero(f_vector[i]) )
             {
-                f[ tuple_list[d][i] ] = rep( fbar_vector[i] );
-                fbar[ tuple_list[d][i] ] = fbar_vector[i];
+                f[ tuple_list[d][i] ] = f_vector[i];
+                fbar[ tuple_list[d][i] ] = rep( f_vector[i] ) % p;
             }
         }
 
@@ -253,13 +253,14 @@ bool de_Rham_non_degenerate_local::save( const char* filename)
 
     int64_t i;
     ofstream file;
-    Vec<zz_p> fbar_vector;
-    map< Vec<int64_t>, zz_p, vi64less>::const_iterator it;
+    Vec<ZZ_p> f_vector;
+    map< Vec<int64_t>, ZZ_p, vi64less>::const_iterator it;
     pair< Vec<int64_t> , Mat<ZZ_p> > *solve_pair;
 
-    fbar_vector.SetLength( tuple_list[d].length() );
-    for( it = fbar.begin(); it != fbar.end(); it++)
-        fbar_vector[ tuple_dict[d][it->first] ] = it->second;
+    // the lift itself, as its reduction doesn't determine it
+    f_vector.SetLength( tuple_list[d].length() );
+    for( it = f.begin(); it != f.end(); it++)
+        f_vector[ tuple_dict[d][it->first] ] = it->second;
 
     file.open(filename, ios::out | ios::trunc);
 
@@ -274,7 +275,7 @@ bool de_Rham_non_degenerate_local::save( const char* filename)
         file << n <<endl;
         file << d <<endl;
         file << Hilbert_J <<endl;
-        file << fbar_vector << endl;
+        file << f_vector << endl;
 
         for( i = 0; i < n ; i++)
         {
-- 
2.43.0


From 28a2bc7d88b88dbabe4bb2572f4a9c5b1eb336dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:11 +0000
Subject: [PATCH 14/14] fix: products with an empty inner dimension read past
 the operands

---
 matrix/mul.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/matrix/mul.cc b/matrix/mul.cc
index 5daef91..8f3513e 100644
--- a/matrix/mul.cc
+++ b/matrix/mul.cc
@@ -112,6 +112,11 @@ void mul(fmpz * result, const fmpz_mat_t A, const fmpz * v)
     ac = fmpz_mat_ncols(A);
     for(i = 0; i < ar; ++i)
     {
+        if(ac == 0)
+        {
+            fmpz_zero(result + i);
+            continue;
+        }
         fmpz_mul(result + i,fmpz_mat_entry(A, i, 0), v);
         for(j = 1; j < ac; j++)
             fmpz_addmul(result + i, fmpz_mat_entry(A, i, j), v + j);
@@ -121,6 +126,11 @@ void mul(fmpz * result, const fmpz_mat_t A, const fmpz * v)
 void mul(fmpz_t result, const fmpz * v, const fmpz * w, const int64_t len)
 {
     int64_t i;
+    if(len == 0)
+    {
+        fmpz_zero(result);
+        return;
+    }
     fmpz_mul(result, v, w);
     for(i = 1; i < len; ++i)
         fmpz_addmul(result, v + i, w + i);
-- 
2.43.0

