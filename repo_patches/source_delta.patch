From 9146904ca5cd39b37de74439131c2277806b32ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:35 +0000
Subject: [PATCH 01/63] fix: let the ASCII_CHECK build of the g2g3 writer
 compile

---
 src/Cuts/cut_output.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Cuts/cut_output.c b/src/Cuts/cut_output.c
index 4505df2..a6ffdb4 100755
--- a/src/Cuts/cut_output.c
+++ b/src/Cuts/cut_output.c
@@ -314,14 +314,14 @@ write_g2g3_to_list( FILE *Ap ,
 		    size_t num_mom[ 1 ] ) 
 {
 #ifdef ASCII_CHECK
-  fprintf( stout , "[CUTS] g2g3\n%d\n", num_mom[ 0 ] ) ;
+  fprintf( stdout , "[CUTS] g2g3\n%d\n", num_mom[ 0 ] ) ;
   size_t i ;
   for( i = 0 ; i < num_mom[0] ; i++ ) { 
-    printf( stdout , "%e\n", g2[i] ) ; 
+    fprintf( stdout , "%e\n", g2[i] ) ; 
   }
-  printf("%d \n", num_mom[ 0 ] ) ;
+  fprintf( stdout , "%d\n", num_mom[ 0 ] ) ;
   for( i = 0 ; i < num_mom[0] ; i++ ) { 
-    printf( stdout , "%e\n", g3[i] ) ; 
+    fprintf( stdout , "%e\n", g3[i] ) ; 
   }
 #else
   uint32_t nmom[1] = { num_mom[0] } ;
-- 
2.43.0


From d8fe1f5ca4e21eca67900e32be2720d2d16286cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:35 +0000
Subject: [PATCH 02/63] fix: non-SSE SU(2) plaquette returned undeclared
 variables

---
 src/Field/plaqs_links.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Field/plaqs_links.c b/src/Field/plaqs_links.c
index a2518d1..deabe2a 100755
--- a/src/Field/plaqs_links.c
+++ b/src/Field/plaqs_links.c
@@ -190,7 +190,7 @@ complete_plaquette( const GLU_complex *__restrict a ,
   tr += (double)creal( ( tra3 * conj(c[0]) + tra4 * conj(c[1]))*conj(d[2]) ) ;
   tr += (double)creal( ( tra3 * conj(c[2]) + tra4 * conj(c[3]))*conj(d[3]) ) ;
 
-  return tra + trb ;
+  return tr ;
   
   #endif
 #else
-- 
2.43.0


From f8592f417569f4b51391201c585a2734ae7dc77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:46 +0000
Subject: [PATCH 03/63] fix: declare the direction index in the single
 precision CERN writer

---
 src/IO/CERN.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IO/CERN.c b/src/IO/CERN.c
index 79a46bf..4db2f5f 100644
--- a/src/IO/CERN.c
+++ b/src/IO/CERN.c
@@ -198,7 +198,7 @@ write_CLS_field( const struct site *__restrict lat ,
             memcpy( uoutd+14*NCNC , lp[4]->O[2] , NCNC*sizeof(GLU_complex) ) ;
 	    #else
 	    size_t shift = lat[idx].back[ ND-1 ] ;
-	    size_t j , a = 0 ;
+	    size_t j , mu , a = 0 ;
 	    // t first
 	    for( j = 0 ; j < NCNC ; j++ ) {
 	      uoutd[ a + 0 ] = ( double )creal( lat[idx].O[ ND - 1 ][ j ] ) ; 
-- 
2.43.0


From 5054866ebe66fbc6d0cc4f687503b567114350c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:03 +0000
Subject: [PATCH 04/63] fix: single precision residual gauge fixing called a
 function that does not exist

---
 src/Gfix/MAG.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Gfix/MAG.c b/src/Gfix/MAG.c
index 031c2e5..6b83e99 100755
--- a/src/Gfix/MAG.c
+++ b/src/Gfix/MAG.c
@@ -224,14 +224,14 @@ residual_fix( struct site *lat )
     multab_dag_suNC( temp , lat[i].O[ND-1] , gauge[tup] ) ;
     multab_suNC( lat[i].O[ND-1] , gauge[t] , temp ) ; 
     #ifdef SINGLE_PREC
-    reunit2( lat[i].O[ND-1] ) ;
+    gram_reunit( lat[i].O[ND-1] ) ;
     #endif
     size_t mu ;
     for( mu = 0 ; mu < ND-1 ; mu ++ ) {
       multab_dag_suNC( temp , lat[i].O[mu] , gauge[t] ) ;
       multab_suNC( lat[i].O[mu] , gauge[t] , temp ) ; 
       #ifdef SINGLE_PREC
-      reunit2( lat[i].O[mu] ) ;
+      gram_reunit( lat[i].O[mu] ) ;
       #endif
     }
   }
-- 
2.43.0


From 572a3e09aa81af9197b56daee4eed458e1da6c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:03 +0000
Subject: [PATCH 05/63] fix: pass GLU_real results to the trace in the single
 precision SU(N) Polak-Ribiere sum

---
 src/Gfix/FACG.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Gfix/FACG.c b/src/Gfix/FACG.c
index 41d0c2c..776a117 100755
--- a/src/Gfix/FACG.c
+++ b/src/Gfix/FACG.c
@@ -134,8 +134,11 @@ sum_PR3( double *red ,
       a[mu] = in[mu][i] ;
       b[mu] = in[mu][i] - in_old[mu][i];
     }
-    trace_ab_herm_short( &loc_sum1 , a , a ) ;
-    trace_ab_herm_short( &loc_sum2 , a , b ) ;
+    GLU_real tr1 = 0.0 , tr2 = 0.0 ;
+    trace_ab_herm_short( &tr1 , a , a ) ;
+    trace_ab_herm_short( &tr2 , a , b ) ;
+    loc_sum1 = (double)tr1 ;
+    loc_sum2 = (double)tr2 ;
     #endif
     const size_t th = get_GLU_thread() ;
     red[ LINE_NSTEPS + 0 + th * CLINE ] += loc_sum1 ;
-- 
2.43.0


From 4b315c4f8a9c4db2025441a7f33a929c4aafda3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:03 +0000
Subject: [PATCH 06/63] fix: LU determinant misread single precision matrices
 as double

---
 src/Matrix_Ops/LU.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Matrix_Ops/LU.c b/src/Matrix_Ops/LU.c
index f1ae8c6..577d70e 100644
--- a/src/Matrix_Ops/LU.c
+++ b/src/Matrix_Ops/LU.c
@@ -33,7 +33,7 @@
 double complex
 LU_det( const size_t N , const GLU_complex U[ N*N ] )
 {
-  double complex a[ N*N ] ;
+  GLU_complex a[ N*N ] ;
   memcpy( a , U , N*N * sizeof( GLU_complex ) ) ;
   return LU_det_overwrite( N , a ) ;
 }
@@ -77,7 +77,7 @@ LU_det_overwrite( const size_t N , GLU_complex U[ N*N ] )
     }
     // perform gaussian elimination
     dt = 1.0 / U[ i*(N+1) ] ;
-    double complex *pA = U + i*N ;
+    GLU_complex *pA = U + i*N ;
     for( j = N-1 ; j > i ; j-- ) { // go up in other column
       register double complex fac1 = U[ i + j*N ] * dt ; 
       // go along the row performing the subtraction, there is no point in
-- 
2.43.0


From b0ac2d29f71e19d19f1485841af3f77a63a9c368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:03 +0000
Subject: [PATCH 07/63] fix: do not use double precision intrinsics on single
 precision hermitian matrices

---
 src/Matrix_Ops/exactQ.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrix_Ops/exactQ.c b/src/Matrix_Ops/exactQ.c
index 54dee52..86321a1 100755
--- a/src/Matrix_Ops/exactQ.c
+++ b/src/Matrix_Ops/exactQ.c
@@ -404,7 +404,7 @@ Hermitian_proj_short( GLU_complex Q[ HERMSIZE ] ,
   register const GLU_real cimU0 = cimag( *( U + 0 ) ) ;
   register const GLU_real cimU4 = cimag( *( U + 4 ) ) ;
   register const GLU_real cimU8 = cimag( *( U + 8 ) ) ;
-  #ifdef HAVE_IMMINTRIN_H
+  #if (defined HAVE_IMMINTRIN_H) && !(defined SINGLE_PREC)
   const __m128d *pU = (const __m128d*)U ;
   __m128d *pQ = (__m128d*)Q ;
   const __m128d half = _mm_set_pd( 0.5 , 0.5 ) ;
-- 
2.43.0


From 52a0d87d5cda0ca7bab4c7922dcf354ef86a598d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:03 +0000
Subject: [PATCH 08/63] fix: null the FFT temporaries with their own types in
 FFTW-free builds

---
 src/Field/Qcorr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Field/Qcorr.c b/src/Field/Qcorr.c
index f858a70..20d268c 100644
--- a/src/Field/Qcorr.c
+++ b/src/Field/Qcorr.c
@@ -118,7 +118,8 @@ compute_Qcorr( struct site *__restrict lat ,
   // set up the matrix-valued array of the topological charge
   struct fftw_small_stuff FFTW ;
 #ifndef HAVE_FFTW3_H
-  FFTW.in = FFTW.out = FFTW.psq = NULL ;
+  FFTW.in = FFTW.out = NULL ;
+  FFTW.psq = NULL ;
   FFTW.in = malloc( LVOLUME * sizeof( GLU_complex ) ) ;
 #else
   small_create_plans_DFT( &FFTW , Latt.dims , ND ) ;
-- 
2.43.0


From d49f241cb4c230ab81f38dc083c91fb1cff1802d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:03 +0000
Subject: [PATCH 09/63] fix: stochastic subgroup over-relaxation used an
 undeclared thread index

---
 src/Update/relax.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Update/relax.c b/src/Update/relax.c
index 5f59ac8..39cece5 100644
--- a/src/Update/relax.c
+++ b/src/Update/relax.c
@@ -48,7 +48,7 @@ static void
 overrelax( GLU_complex U[ NCNC ] , 
 	   const GLU_complex staple[ NCNC ] )
 {
-  #ifdef SOR
+  #if (defined SOR) || (NSTOCH != NSU2SUBGROUPS)
   const uint32_t thread = get_GLU_thread() ;
   #endif
   GLU_complex s0 GLUalign , s1 GLUalign ;
-- 
2.43.0


From b08a2587a7798c2b5d59046d33022d2bc58a9d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:03 +0000
Subject: [PATCH 10/63] fix: WELL_512 builds called a generator that does not
 exist

---
 src/Utils/par_rng.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils/par_rng.c b/src/Utils/par_rng.c
index 6a66874..06526db 100644
--- a/src/Utils/par_rng.c
+++ b/src/Utils/par_rng.c
@@ -198,7 +198,7 @@ par_rng_dbl( const uint32_t thread )
 #elif (defined MWC_1038_RNG)
   return par_MWC_1038_dbl( thread ) ;
 #elif (defined WELL_512_RNG)
-  return par_Well_512_dbl( thread ) ;
+  return par_WELL_512_dbl( thread ) ;
 #else
   return par_MWC_4096_dbl( thread ) ;
 #endif
-- 
2.43.0


From d26fa79fe8173d0ccdb6673950f661cfecd5e53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:03 +0000
Subject: [PATCH 11/63] fix: declare the KISS table initialisation

---
 src/Headers/par_KISS.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Headers/par_KISS.h b/src/Headers/par_KISS.h
index 30232b9..a925964 100755
--- a/src/Headers/par_KISS.h
+++ b/src/Headers/par_KISS.h
@@ -37,6 +37,14 @@ free_par_KISS( void ) ;
 double
 par_KISS_dbl( const uint32_t thread ) ;
 
+/**
+   @fn void GLU_set_par_KISS_table( const uint32_t seed[ Latt.Nthreads ] )
+   @brief set the parallel table
+   @param seed :: seeds for the RNG
+ */
+void
+GLU_set_par_KISS_table( const uint32_t seed[ Latt.Nthreads ] ) ;
+
 /**
    @fn int read_par_KISS_table( FILE *rng_file ) 
    @brief read the KISS table from a file
-- 
2.43.0


From 3bbcd9b0c823b678caedcfe6c4536aa535cebc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:39 +0000
Subject: [PATCH 12/63] fix: six headers declared functions with another type
 than their definition

---
 src/Headers/SUNCxU1_config.h | 4 ++--
 src/Headers/evalues.h        | 3 +--
 src/Headers/staples.h        | 4 ++--
 src/Headers/taylor_logs.h    | 4 ++--
 src/Headers/wflowfuncs.h     | 4 ++--
 src/Headers/write_headers.h  | 4 ++--
 src/Utils/GLU_splines.c      | 2 +-
 7 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/Headers/SUNCxU1_config.h b/src/Headers/SUNCxU1_config.h
index 6d81587..fab33aa 100755
--- a/src/Headers/SUNCxU1_config.h
+++ b/src/Headers/SUNCxU1_config.h
@@ -24,7 +24,7 @@
 #define GLU_SUNCxU1_CONFIG_H
 
 /**
-   @fn void suNC_cross_u1( struct site *__restrict lat , const struct u1_info U1INFO ) 
+   @fn int suNC_cross_u1( struct site *__restrict lat , const struct u1_info U1INFO ) 
    @brief creates links which are multiplied by a non-compact U(1) field
 
    @warning rewrites the gauge field
@@ -33,7 +33,7 @@
    calls compute_U1_obs()
    
  */
-void 
+int 
 suNC_cross_u1( struct site *__restrict lat , 
 	       const struct u1_info U1INFO ) ;
 
diff --git a/src/Headers/evalues.h b/src/Headers/evalues.h
index 2cd786a..dd42b24 100755
--- a/src/Headers/evalues.h
+++ b/src/Headers/evalues.h
@@ -39,9 +39,8 @@ Eigenvalues( double complex z[ NC ] ,
    @param U :: some link matrix
    @param z :: its eigenvalues
    @warning U must be special unitary
-   @return a flag saying whether we are close to eigenvlue degeneracy
  */
-int 
+void
 Eigenvalues_suNC( double complex z[ NC ] ,
 		 const GLU_complex U[ NCNC ] ) ;
 
diff --git a/src/Headers/staples.h b/src/Headers/staples.h
index 234bcee..43d884b 100755
--- a/src/Headers/staples.h
+++ b/src/Headers/staples.h
@@ -42,7 +42,7 @@ all_staples( GLU_complex stap[ NCNC ] ,
 	     const smearing_types type ) ;
 
 /**
-   @fn void all_staples_improve( GLU_complex stap[ NCNC ] , const struct site *__restrict lat , const size_t i , const size_t mu , const size_t dir , const size_t type )
+   @fn void all_staples_improve( GLU_complex stap[ NCNC ] , const struct site *__restrict lat , const size_t i , const size_t mu , const size_t dir , const smearing_types type )
    @brief he computation of the (over)improved staple(s)
    @param stap :: sum of the contributing mu-nu staples
    @param lat :: lattice gauge field
@@ -64,6 +64,6 @@ all_staples_improve( GLU_complex stap[ NCNC ] ,
 		     const size_t i , 
 		     const size_t mu , 
 		     const size_t dir , 
-		     const size_t type ) ;
+		     const smearing_types type ) ;
 
 #endif
diff --git a/src/Headers/taylor_logs.h b/src/Headers/taylor_logs.h
index dc0d16e..0f5f926 100755
--- a/src/Headers/taylor_logs.h
+++ b/src/Headers/taylor_logs.h
@@ -68,11 +68,11 @@ void
 free_taylors( void ) ;
 
 /**
-   @fn void nape_reunit( GLU_complex *__restrict U )
+   @fn int nape_reunit( GLU_complex *__restrict U )
    @brief reunitarizes a matrix to SU(N) using the n-APE projection
    @param U :: matrix being reunitarised
  */
-void
+int
 nape_reunit( GLU_complex *__restrict U ) ;
 
 
diff --git a/src/Headers/wflowfuncs.h b/src/Headers/wflowfuncs.h
index 34809cc..9e302d4 100755
--- a/src/Headers/wflowfuncs.h
+++ b/src/Headers/wflowfuncs.h
@@ -96,7 +96,7 @@ void
 print_GG_info( void ) ;
 
 /**
-   @fn void scaleset( struct wfmeas *curr , const double W0 , const double T0 , const size_t count , const GLU_bool is_clover ) 
+   @fn int scaleset( struct wfmeas *curr , const double W0 , const double T0 , const size_t count , const GLU_bool is_clover ) 
    @brief computes the flow in curr for T0 and W0
    @param curr :: measurement list
    @param T_0 :: wilson flow scale G(t) = W_0
@@ -104,7 +104,7 @@ print_GG_info( void ) ;
    @param count :: number of measurements made
    @param is_clover :: boolean plaquette is false
  */
-void
+int
 scaleset( struct wfmeas *curr , 
 	  const double T_0 ,
 	  const double W_0 ,
diff --git a/src/Headers/write_headers.h b/src/Headers/write_headers.h
index 9a119af..49622c5 100755
--- a/src/Headers/write_headers.h
+++ b/src/Headers/write_headers.h
@@ -36,7 +36,7 @@ write_header_MILC( FILE *__restrict out ,
 		   const uint32_t milc_cksum31 ) ;
 
 /**
-   @fn void write_header_NERSC( FILE *__restrict out , const double tr , const double plaq , const uint32_t chksum , const char *details , const int type ) ;
+   @fn void write_header_NERSC( FILE *__restrict out , const double tr , const double plaq , const uint32_t chksum , const char *details , const GLU_output type ) ;
    @brief writes the NERSC header format to the top of "out"
    @param out :: file to be written in
    @param tr :: average trace of the lattice links
@@ -51,6 +51,6 @@ write_header_NERSC( FILE *__restrict out ,
 		    const double plaq ,
 		    const uint32_t chksum ,
 		    const char *details ,
-		    const int type ) ;
+		    const GLU_output type ) ;
 
 #endif
diff --git a/src/Utils/GLU_splines.c b/src/Utils/GLU_splines.c
index 18d16c6..1affccf 100755
--- a/src/Utils/GLU_splines.c
+++ b/src/Utils/GLU_splines.c
@@ -219,7 +219,7 @@ cubic_eval( const double *__restrict x ,
 	    const double *__restrict y ,
 	    const double *__restrict der ,
 	    const double mu ,
-	    const int datalength )
+	    const size_t datalength )
 {
   const size_t ref = find_idx( mu , x , datalength , 0 ) ;
 
-- 
2.43.0


From 5cc7144ca3117cf962c17dad6611444559acdd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 13/63] fix: the program exited with success after a failed run

---
 src/Run/Mainfile.c | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/Run/Mainfile.c b/src/Run/Mainfile.c
index 6e7303f..a13666d 100755
--- a/src/Run/Mainfile.c
+++ b/src/Run/Mainfile.c
@@ -60,34 +60,38 @@ main( const int argc ,
   const struct infile_data INFILE = infile_struct ;
 
   // and the options
+  int status = GLU_SUCCESS ;
   switch( INFILE.mode ) {
   case MODE_GF :
-    read_and_fix( argv[ READ ] , INFILE.rtrans , INFILE.GFINFO ,
-		  argv[ WRITE ] , INFILE.storage , INFILE.output_details ) ;
+    status = read_and_fix( argv[ READ ] , INFILE.rtrans , INFILE.GFINFO ,
+			   argv[ WRITE ] , INFILE.storage , 
+			   INFILE.output_details ) ;
     break ;
   case MODE_CUTS :
-    read_and_cut( argv[ READ ] , INFILE.CUTINFO , INFILE.SMINFO ) ;
+    status = read_and_cut( argv[ READ ] , INFILE.CUTINFO , INFILE.SMINFO ) ;
     break ;
   case MODE_SMEARING :
-    read_and_smear( argv[ READ ] , INFILE.rtrans , INFILE.SMINFO ,
-		    argv[ WRITE ] , INFILE.storage , INFILE.output_details ) ;
+    status = read_and_smear( argv[ READ ] , INFILE.rtrans , INFILE.SMINFO ,
+			     argv[ WRITE ] , INFILE.storage , 
+			     INFILE.output_details ) ;
     break ;
   case MODE_CROSS_U1 :
-    read_and_U1( argv[ READ ] , INFILE.rtrans , INFILE.U1INFO ,
-		 argv[ WRITE ] , INFILE.storage , INFILE.output_details ) ;
+    status = read_and_U1( argv[ READ ] , INFILE.rtrans , INFILE.U1INFO ,
+			  argv[ WRITE ] , INFILE.storage , 
+			  INFILE.output_details ) ;
     break ;
   case MODE_HEATBATH :
-    heatbath( argv[ READ ] , INFILE.HBINFO , INFILE.storage ,
-	      INFILE.output_details ) ;
+    status = heatbath( argv[ READ ] , INFILE.HBINFO , INFILE.storage ,
+		       INFILE.output_details ) ;
     break ;
   default :
-    read_and_check( argv[ READ ] , INFILE.rtrans , argv[ WRITE ] , 
-		    INFILE.storage , INFILE.output_details ) ;
+    status = read_and_check( argv[ READ ] , INFILE.rtrans , argv[ WRITE ] , 
+			     INFILE.storage , INFILE.output_details ) ;
     break ;
   }
 
   // un-initialise GLU
   unstick_GLU( ) ;
 
-  return GLU_SUCCESS ;
+  return status ;
 }
-- 
2.43.0


From 055478fd2119377f2ab863c7846d3363e3582913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:22 +0000
Subject: [PATCH 14/63] fix: smeared cuts overwrote the unsmeared field, check
 its stages

---
 src/Cuts/smearing_param.c | 44 +++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/src/Cuts/smearing_param.c b/src/Cuts/smearing_param.c
index 063b86f..c35eec5 100755
--- a/src/Cuts/smearing_param.c
+++ b/src/Cuts/smearing_param.c
@@ -212,8 +212,11 @@ cuts_struct_smeared( struct site *__restrict A ,
   }
 
   // allocate room for the smeared gauge field
-  struct site *SM_A = malloc( LVOLUME * sizeof ( struct site ) ) ;
-  init_navig( SM_A ) ;
+  struct site *SM_A = allocate_lat( ) ;
+  if( SM_A == NULL ) {
+    fprintf( stderr , "[CUTS] smeared field allocation failure\n" ) ;
+    return GLU_FAILURE ;
+  }
 
   // dirty, create a very weak field
 #ifdef WEAK_FIELD
@@ -223,9 +226,15 @@ cuts_struct_smeared( struct site *__restrict A ,
   size_t j ; 
 #pragma omp parallel for private(j)
   for( j = 0 ; j < LVOLUME ; j++ ) {
-    memcpy( &SM_A[j] , &A[j] , sizeof( struct site ) ) ; 
+    size_t mu ;
+    for( mu = 0 ; mu < ND ; mu++ ) {
+      equiv( SM_A[j].O[mu] , A[j].O[mu] ) ;
+    }
+  }
+  if( SM_wrap_struct( SM_A , SMINFO ) == GLU_FAILURE ) {
+    free_lat( SM_A ) ;
+    return GLU_FAILURE ;
   }
-  SM_wrap_struct( SM_A , SMINFO ) ;
 
 #ifdef TADPOLE_IMPROVE
   const double u0 = 1.0 / sqrt( av_plaquette( A ) ) ;
@@ -235,13 +244,22 @@ cuts_struct_smeared( struct site *__restrict A ,
 #endif
 
   // performs LOG and FFT , rewrites "A"
-  mom_gauge( A , CUTINFO.definition ) ;
-  mom_gauge( SM_A , CUTINFO.definition ) ;
+  if( mom_gauge( A , CUTINFO.definition ) == GLU_FAILURE ||
+      mom_gauge( SM_A , CUTINFO.definition ) == GLU_FAILURE ) {
+    fprintf( stderr , "[CUTS] FFT of the fields failed\n" ) ;
+    free_lat( SM_A ) ;
+    return GLU_FAILURE ;
+  }
   
   // this contains the length of the momentum list
   size_t *in = malloc( sizeof(size_t) ) ;
   const struct veclist *list = compute_veclist( in , CUTINFO , 
 						ND , GLU_FALSE) ;
+  if( list == NULL ) {
+    free( in ) ;
+    free_lat( SM_A ) ;
+    return GLU_FAILURE ;
+  }
 
   // correct for the Landau condition, actually not necessary
   correct_pspace_landau( A , list , in , ND ) ;
@@ -250,6 +268,14 @@ cuts_struct_smeared( struct site *__restrict A ,
   // set up the outputs
   char *str = output_str_struct( CUTINFO ) ;  
   FILE *Ap = fopen( str , "wb" ) ; 
+  if( Ap == NULL ) {
+    fprintf( stderr , "[CUTS] cannot open %s\n" , str ) ;
+    free( (void*)list ) ;
+    free( in ) ;
+    free( str ) ;
+    free_lat( SM_A ) ;
+    return GLU_FAILURE ;
+  }
 
   // Here we write the two LANDAU gauge gluon propagators, 
   // unsmeared first and then smeared
@@ -295,13 +321,13 @@ cuts_struct_smeared( struct site *__restrict A ,
   free( g2_SM ) ;
 
   // free everything else
-  fclose( Ap ) ;
+  const int FLAG = close_output( Ap , str ) ;
   free( (void*)list ) ;
   free( in ) ;
   free( str ) ;
-  free( SM_A ) ;
+  free_lat( SM_A ) ;
 
-  return GLU_SUCCESS ;
+  return FLAG ;
 }
 
 // undefine the weak field
-- 
2.43.0


From 7d89f77b7c620d5895c5d630e6523e85991a23ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:22 +0000
Subject: [PATCH 15/63] fix: a triplet momentum missing from the list was used
 as an index

---
 src/Cuts/triplet_gen.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/Cuts/triplet_gen.c b/src/Cuts/triplet_gen.c
index 530fa80..b8b9105 100755
--- a/src/Cuts/triplet_gen.c
+++ b/src/Cuts/triplet_gen.c
@@ -216,7 +216,8 @@ static int
 get_triplet( int *__restrict *__restrict triplet , 
 	     const int *__restrict *__restrict momentum , 
 	     const size_t nnmax , 
-	     const size_t nmom )
+	     const size_t nmom ,
+	     const size_t ntriplets )
 {
   size_t nn , count = 0 , mu ;
   simorb_ratios( ND ) ;
@@ -238,6 +239,12 @@ get_triplet( int *__restrict *__restrict triplet ,
 
     printf( "Checking mom-conservation orbit :: %zu \n" , nn ) ; 
   }
+  // a momentum that is not in the list cannot be used as an index
+  for( nn = 0 ; nn < ntriplets ; nn++ ) {
+    for( mu = 0 ; mu < 3 ; mu++ ) {
+      if( triplet[ nn ][ mu ] < 0 ) return GLU_FAILURE ;
+    }
+  }
   return GLU_SUCCESS ;
 }
 
@@ -569,7 +576,17 @@ read_triplet_and_proj( int *__restrict *__restrict triplet ,
     }
     fprintf( stdout , "[CUTS] Precomputing triplet \n" ) ;
     // compute the triplet in the stupidest manner possible
-    get_triplet( triple , momentum , nnmax , nmom ) ;
+    if( get_triplet( triple , momentum , nnmax , nmom , count ) == GLU_FAILURE ) {
+      fclose( config2 ) ;
+      remove( str ) ;
+      for( i = 0 ; i < count ; i++ ) {
+	free( triple[i] ) ;
+      }
+      free( triple ) ;
+      free_delta( ) ;
+      free( str ) ;
+      return GLU_FAILURE ;
+    }
     // write out "triple" our triplet
     for( i = 0 ; i < count ; i++ ) {
       fwrite( triple[i] , sizeof(int) , 3 , config2 ) ;
@@ -613,7 +630,7 @@ read_triplet_and_proj( int *__restrict *__restrict triplet ,
   // initialise the delta
   init_delta( ) ;
   // If the triplet fails we leave
-  if( get_triplet( triplet , momentum , nnmax , nmom ) == GLU_FAILURE ) {
+  if( get_triplet( triplet , momentum , nnmax , nmom , count ) == GLU_FAILURE ) {
     free_delta( ) ;
     return GLU_FAILURE ;
   }
-- 
2.43.0


From ff8a17a6fb4e697f793021bb44b265394230195c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:22 +0000
Subject: [PATCH 16/63] fix: cuts reported success after a failed transform,
 list or output

---
 src/Cuts/3Dcuts.c        | 20 +++++++++++++++++---
 src/Cuts/config_gluons.c | 13 +++++++++++--
 src/Cuts/cut_output.c    | 13 +++++++++++++
 src/Cuts/cuts.c          | 17 +++++++++++++++--
 src/Headers/cut_output.h | 11 +++++++++++
 5 files changed, 67 insertions(+), 7 deletions(-)

diff --git a/src/Cuts/3Dcuts.c b/src/Cuts/3Dcuts.c
index 067a158..ada8cfa 100755
--- a/src/Cuts/3Dcuts.c
+++ b/src/Cuts/3Dcuts.c
@@ -135,7 +135,10 @@ cuts_spatial ( struct site *__restrict A ,
 {
   fprintf( stdout , "\n[CUTS] Instantaneous Spatial/Temporal prop calculating ... \n" ) ; 
   // performs LOG and FFT of A, rewrites "A" to save space
-  mom_gauge_spatial( A , CUTINFO.definition ) ; 
+  if( mom_gauge_spatial( A , CUTINFO.definition ) == GLU_FAILURE ) {
+    fprintf( stderr , "[CUTS] FFT of the fields failed\n" ) ;
+    return GLU_FAILURE ;
+  }
 
   if( check_psq( CUTINFO ) == GLU_FAILURE ) {
     return GLU_FAILURE ;
@@ -145,6 +148,10 @@ cuts_spatial ( struct site *__restrict A ,
   size_t *num_mom = malloc( sizeof( size_t ) ) ; 
   const struct veclist *list = compute_veclist( num_mom , CUTINFO ,
 						ND-1 , GLU_FALSE ) ;
+  if( list == NULL ) {
+    free( num_mom ) ;
+    return GLU_FAILURE ;
+  }
 
   // Landau correction required for Coulomb gauge too.
   correct_pspace_landau( A , list , num_mom , ND-1 ) ;
@@ -152,6 +159,13 @@ cuts_spatial ( struct site *__restrict A ,
   // create some useful output and open the file
   char *str = output_str_struct( CUTINFO ) ;
   FILE *Aps = fopen( str , "wb" ) ; 
+  if( Aps == NULL ) {
+    fprintf( stderr , "[CUTS] cannot open %s\n" , str ) ;
+    free( (void*)list ) ;
+    free( num_mom ) ;
+    free( str ) ;
+    return GLU_FAILURE ;
+  }
 
   write_mom_veclist( Aps , num_mom , list , ND - 1 ) ;
 
@@ -224,7 +238,7 @@ g( p ) =   ----------    >    Tr < A_( ND - 1 )( p ) . A_( ND - 1 )( -p ) >
   fprintf( stdout , "[CUTS] Writing finished...\n[CUTS] Outputting to %s \n" , str ) ;
  
   // FREE STUFF //
-  fclose( Aps ) ;
+  const int FLAG = close_output( Aps , str ) ;
   free( (void*)list ) ; 
   free( num_mom ) ; 
   free( str ) ;
@@ -232,7 +246,7 @@ g( p ) =   ----------    >    Tr < A_( ND - 1 )( p ) . A_( ND - 1 )( -p ) >
   free( g2_temporal ) ;
 
   // Exit with a smile
-  return GLU_SUCCESS ;
+  return FLAG ;
 }
 
 
diff --git a/src/Cuts/config_gluons.c b/src/Cuts/config_gluons.c
index bc9eb0c..8cdfc2f 100755
--- a/src/Cuts/config_gluons.c
+++ b/src/Cuts/config_gluons.c
@@ -346,7 +346,9 @@ cuts_struct_configspace( struct site *__restrict A ,
 	   "gluon propagator\n" ) ;
 
   // smeared gluon field to extract the ground state?
-  SM_wrap_struct( A , SMINFO ) ;
+  if( SM_wrap_struct( A , SMINFO ) == GLU_FAILURE ) {
+    return GLU_FAILURE ;
+  }
 
   // take the log
   if( Amu_fields( A , CUTINFO.definition ) != GLU_SUCCESS ) {
@@ -361,6 +363,11 @@ cuts_struct_configspace( struct site *__restrict A ,
   // set up the outputs
   char *str = output_str_struct( CUTINFO ) ;  
   FILE *Ap = fopen( str , "wb" ) ; 
+  if( Ap == NULL ) {
+    fprintf( stderr , "[CUTS] cannot open %s\n" , str ) ;
+    free( str ) ;
+    return GLU_FAILURE ;
+  }
 
   // compute the temporal and spatial correlators
   double *gsp = malloc( Latt.dims[ ND-1 ] * sizeof( double ) ) ;
@@ -395,7 +402,9 @@ cuts_struct_configspace( struct site *__restrict A ,
  memfree :
 
   // close the file
-  fclose( Ap ) ;
+  if( close_output( Ap , str ) == GLU_FAILURE ) {
+    FLAG = GLU_FAILURE ;
+  }
   // and its name
   free( str ) ;
 
diff --git a/src/Cuts/cut_output.c b/src/Cuts/cut_output.c
index a6ffdb4..92edd1d 100755
--- a/src/Cuts/cut_output.c
+++ b/src/Cuts/cut_output.c
@@ -51,6 +51,19 @@ FWRITE( void *arr ,
   return GLU_SUCCESS ;
 }
 
+// closes an output file, a write error anywhere in it is a failure
+int
+close_output( FILE *file ,
+	      const char *filename )
+{
+  const int write_error = ferror( file ) ;
+  if( fclose( file ) != 0 || write_error != 0 ) {
+    fprintf( stderr , "[CUT] error writing %s\n" , filename ) ;
+    return GLU_FAILURE ;
+  }
+  return GLU_SUCCESS ;
+}
+
 // gives us some nominal information on the cutting procedure
 int
 check_psq( const struct cut_info CUTINFO )
diff --git a/src/Cuts/cuts.c b/src/Cuts/cuts.c
index de4a2b5..60a060f 100755
--- a/src/Cuts/cuts.c
+++ b/src/Cuts/cuts.c
@@ -135,12 +135,23 @@ cuts_struct( struct site *__restrict A ,
   
   const struct veclist *list = compute_veclist( in , TEMP ,
 						ND , GLU_FALSE ) ;
+  if( list == NULL ) {
+    free( in ) ;
+    return GLU_FAILURE ;
+  }
 
   // correct for the Landau condition
   correct_pspace_landau( A , list , in , ND ) ;
   
   char *str = output_str_struct( CUTINFO ) ;  
   FILE *Ap = fopen( str , "wb" ) ; 
+  if( Ap == NULL ) {
+    fprintf( stderr , "[CUTS] cannot open %s\n" , str ) ;
+    free( (void*)list ) ;
+    free( in ) ;
+    free( str ) ;
+    return GLU_FAILURE ;
+  }
 
   int check = 0 ;
   switch( CUTINFO.dir ) {
@@ -156,7 +167,7 @@ cuts_struct( struct site *__restrict A ,
   case NONEXCEPTIONAL :
     // we write the mom-list internally in the g2g3 code as it can
     // be different from the cut-momentum one..
-    write_nonexceptional_g2g3( Ap , A , list , in , CUTINFO.max_mom ) ;
+    check = write_nonexceptional_g2g3( Ap , A , list , in , CUTINFO.max_mom ) ;
     break ;
   case GLUON_PROPS :
     write_mom_veclist( Ap , in , list , ND ) ;
@@ -171,7 +182,9 @@ cuts_struct( struct site *__restrict A ,
 	            "[CUTS] Outputting to %s\n" , str ) ;
 
   // Free allocated memory
-  fclose( Ap ) ;
+  if( close_output( Ap , str ) == GLU_FAILURE ) {
+    check = GLU_FAILURE ;
+  }
   free( (void*)list ) ;
   free( in ) ;
   free( str ) ;
diff --git a/src/Headers/cut_output.h b/src/Headers/cut_output.h
index ef30e84..65f6765 100755
--- a/src/Headers/cut_output.h
+++ b/src/Headers/cut_output.h
@@ -24,6 +24,17 @@
 #ifndef GLU_CUT_OUTPUT_H
 #define GLU_CUT_OUTPUT_H
 
+/**
+   @fn int close_output( FILE *file , const char *filename )
+   @brief closes an output file checking that everything written to it got there
+   @param file :: the file that was written
+   @param filename :: its name, for the error message
+   @return #GLU_SUCCESS or #GLU_FAILURE
+ */
+int
+close_output( FILE *file ,
+	      const char *filename ) ;
+
 /**
    @fn int check_psq( const struct cut_info CUTINFO )
    @brief checks whether the psq is allowed
-- 
2.43.0


From 93c60e2a54b42d4db035e56cdcda111fe93768f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:52 +0000
Subject: [PATCH 17/63] fix: random transformations ignored a failed RNG
 initialisation

---
 src/Geometry/random_config.c | 33 +++++++++++++++++++++------------
 src/Headers/random_config.h  | 16 ++++++++--------
 2 files changed, 29 insertions(+), 20 deletions(-)

diff --git a/src/Geometry/random_config.c b/src/Geometry/random_config.c
index 1cae438..3972788 100755
--- a/src/Geometry/random_config.c
+++ b/src/Geometry/random_config.c
@@ -57,10 +57,12 @@ latt_reunitU( struct site *__restrict lat )
 }
 
 // random gauge transform for our su(NC) matrix
-void 
+int
 random_gtrans( struct site *__restrict lat )
 {
-  initialise_par_rng( NULL ) ; 
+  if( initialise_par_rng( NULL ) == GLU_FAILURE ) {
+    return GLU_FAILURE ;
+  }
  
   fprintf( stdout , "\n[RNG] Performing a RANDOM gauge transformation \n" ) ;
 
@@ -68,6 +70,7 @@ random_gtrans( struct site *__restrict lat )
   
   if( GLU_malloc( (void**)&gauge , ALIGNMENT , LVOLUME * sizeof( GLU_complex* ) ) != 0 ) {
     fprintf( stdout , "[RANDOM] Allocation failed \n" ) ;
+    return GLU_FAILURE ;
   }
 
   size_t i ;
@@ -85,14 +88,16 @@ random_gtrans( struct site *__restrict lat )
   }
   free( gauge ) ;
 
-  return ;
+  return GLU_SUCCESS ;
 }
 
 // randomly generate a new gauge transform slice
-void
+int
 random_gtrans_slice( GLU_complex *__restrict *__restrict slice_gauge )
 {
-  initialise_par_rng( NULL ) ; 
+  if( initialise_par_rng( NULL ) == GLU_FAILURE ) {
+    return GLU_FAILURE ;
+  }
 
   size_t i ;
   #pragma omp parallel for private(i)
@@ -100,15 +105,17 @@ random_gtrans_slice( GLU_complex *__restrict *__restrict slice_gauge )
     Sunitary_gen( slice_gauge[i] , get_GLU_thread( ) ) ;
   }
   
-  return ;
+  return GLU_SUCCESS ;
 }
 
 // perform a random transform of the gauge links
-void
+int
 random_transform( struct site *__restrict lat ,
 		  GLU_complex *__restrict *__restrict gauge )
 {
-  initialise_par_rng( NULL ) ; 
+  if( initialise_par_rng( NULL ) == GLU_FAILURE ) {
+    return GLU_FAILURE ;
+  }
 
   size_t i ; 
   #pragma omp parallel for private(i)
@@ -116,14 +123,16 @@ random_transform( struct site *__restrict lat ,
     Sunitary_gen( gauge[i] , get_GLU_thread( ) ) ;
   }
   gtransform( lat , (const GLU_complex **)gauge ) ; 
-  return ;
+  return GLU_SUCCESS ;
 }
 
 // random gauge matrices
-void 
+int
 random_suNC( struct site *__restrict lat )
 {
-  initialise_par_rng( NULL ) ; 
+  if( initialise_par_rng( NULL ) == GLU_FAILURE ) {
+    return GLU_FAILURE ;
+  }
 
   size_t i ;
   // openmp does not play nice with RNG
@@ -135,7 +144,7 @@ random_suNC( struct site *__restrict lat )
       Sunitary_gen( lat[i].O[mu] , thread ) ;
     }
   }
-  return ;
+  return GLU_SUCCESS ;
 }
 
 /// reunit two slices
diff --git a/src/Headers/random_config.h b/src/Headers/random_config.h
index 535e513..6dd8cae 100755
--- a/src/Headers/random_config.h
+++ b/src/Headers/random_config.h
@@ -42,38 +42,38 @@ void
 latt_reunitU( struct site *__restrict lat ) ;
 
 /**
-   @fn void random_gtrans( struct site *__restrict lat )
+   @fn int random_gtrans( struct site *__restrict lat )
    @brief generates a random gauge transform on the field
    @param lat :: lattice gauge field
  */
-void 
+int
 random_gtrans( struct site *__restrict lat ) ;
 
 /**
-   @fn void random_gtrans_slice( GLU_complex *__restrict *__restrict slice_gauge ) 
+   @fn int random_gtrans_slice( GLU_complex *__restrict *__restrict slice_gauge ) 
    @brief create random gauge transformation on a time-slice
    @param slice_gauge :: gauge transform matrices on a time slice
  */
-void
+int
 random_gtrans_slice( GLU_complex *__restrict *__restrict slice_gauge ) ;
 
 /**
-   @fn void random_transform( struct site *__restrict lat , GLU_complex *__restrict *__restrict gauge )
+   @fn int random_transform( struct site *__restrict lat , GLU_complex *__restrict *__restrict gauge )
    @brief compute a random gauge transform on the links.
    @param lat :: lattice gauge fields 
    @param gauge :: gauge transformation matrices
    the rationale for having this instead of calling latt_reunitU( struct site *lat ) is that if we already have the gauge transformation matrices malloced we save time by not creating and destroying another temporary
  **/
-void
+int
 random_transform( struct site *__restrict lat ,
 		  GLU_complex *__restrict *__restrict gauge ) ;
 
 /**
-   @fn void random_suNC( struct site *__restrict lat )
+   @fn int random_suNC( struct site *__restrict lat )
    @brief generates a random lattice gauge field
    @param lat :: lattice gauge field
  */
-void 
+int
 random_suNC( struct site *__restrict lat ) ;
 
 /**
-- 
2.43.0


From 6b1f9d78de088df0c15408f814fecf12e52f76d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:52 +0000
Subject: [PATCH 18/63] fix: gauge fixing reported iterations after a failed
 allocation or re-read

---
 src/Gfix/CFACG.c  |  6 +++++-
 src/Gfix/FACG.c   |  2 ++
 src/Gfix/Landau.c | 20 ++++++++++++++++----
 src/Gfix/Or.c     | 16 ++++++++++++----
 4 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/src/Gfix/CFACG.c b/src/Gfix/CFACG.c
index b87add8..62775b5 100755
--- a/src/Gfix/CFACG.c
+++ b/src/Gfix/CFACG.c
@@ -536,7 +536,9 @@ Coulomb_FA( struct site  *__restrict lat ,
 	    const GLU_bool FACG )
 {
   // init the rng
-  initialise_par_rng( NULL ) ;
+  if( initialise_par_rng( NULL ) == GLU_FAILURE ) {
+    return GLU_FAILURE ;
+  }
   
   // set the iterations
   static size_t (*f)( GLU_complex **gauge ,
@@ -559,6 +561,7 @@ Coulomb_FA( struct site  *__restrict lat ,
 
   // gauge allocations 
   struct gauges G ;
+  G.g = NULL ; G.g_up = NULL ; G.g_end = NULL ;
   
   // flag for if something goes wrong
   size_t tot_its = 0 ;
@@ -566,6 +569,7 @@ Coulomb_FA( struct site  *__restrict lat ,
   // allocations
   if( allocate_temp_cg( &G , &CG , FACG ) == GLU_FAILURE ) {
     fprintf( stderr , "[CG] problem allocating temporary Coulomb arrays\n" ) ;
+    tot_its = GLU_FAILURE ;
     goto memfree ;
   }
 
diff --git a/src/Gfix/FACG.c b/src/Gfix/FACG.c
index 776a117..d5b7513 100755
--- a/src/Gfix/FACG.c
+++ b/src/Gfix/FACG.c
@@ -358,6 +358,7 @@ FACG( struct site *lat ,
   struct CGtemps CG ;
   if( allocate_temp_lg( &CG , GLU_TRUE ) == GLU_FAILURE ) {
     fprintf( stderr , "[FACG] allocation of temporaries failed\n" ) ;
+    iters = GLU_FAILURE ;
     goto end ;
   }
 
@@ -412,6 +413,7 @@ FASD( struct site *lat ,
   struct CGtemps CG ;
   if( allocate_temp_lg( &CG , GLU_FALSE ) == GLU_FAILURE ) {
     fprintf( stderr , "[FACG] allocation of temporaries failed\n" ) ;
+    iters = GLU_FAILURE ;
     goto end ;
   }
 
diff --git a/src/Gfix/Landau.c b/src/Gfix/Landau.c
index 53580b0..dc8bc95 100755
--- a/src/Gfix/Landau.c
+++ b/src/Gfix/Landau.c
@@ -136,7 +136,10 @@ luxury_copy_fast( struct site *lat ,
     }
 
     // perform a random gauge transform
-    random_transform( lat_copy , gauge ) ;
+    if( random_transform( lat_copy , gauge ) == GLU_FAILURE ) {
+      iters = GLU_FAILURE ;
+      goto memfree ;
+    }
     // set the accuracy to be low
     const double tempacc = 1E-6 ;
     const double max = 1000 ;
@@ -244,16 +247,20 @@ grab_file( struct site *lat ,
 {
   struct head_data HEAD_DATA ;
   FILE *config = fopen( infile , "rb" ) ;
+  if( config == NULL ) {
+    fprintf( stderr , "[IO] error opening file :: %s\n" , infile ) ;
+    return GLU_FAILURE ;
+  }
   // assume the chksum is correct
   if( read_header( config , &HEAD_DATA , GLU_FALSE ) == GLU_FAILURE ||
       get_config_SUNC( config , lat , HEAD_DATA , infile ) == GLU_FAILURE ) {
     printf( "[IO] binary file read error \n" ) ;
+    fclose( config ) ;
     return GLU_FAILURE ;
   } 
-  random_transform( lat , gauge ) ; 
   fclose( config ) ;
   // could reperform checksum calculations here ....
-  return GLU_SUCCESS ;
+  return random_transform( lat , gauge ) ;
 }
 
 // Landau gauge fixing routine uses callbacks
@@ -323,11 +330,16 @@ Landau( struct site *lat ,
       //repeat procedure have to read in the file :( 
       if( grab_file( lat , gauge , infile ) == GLU_FAILURE ) { 
 	printf( "[IO] Something funky happened when trying to read in config again!\n" ) ;
+	iters = GLU_FAILURE ;
 	goto MemFree ; 
       }
       // and the callback
       iters_loc = FA_callback( lat , &FFTW , &theta , accuracy , max_iter ) ;
 
+      if( iters_loc == (size_t)GLU_FAILURE ) {
+	iters = GLU_FAILURE ;
+	goto MemFree ;
+      }
       // if we succeed we break the loop
       if( iters_loc != 123456789 ) {
 	iters += iters_loc ; 
@@ -366,7 +378,7 @@ Landau( struct site *lat ,
     printf( "\n[GF] Failure to converge to a sufficient solution \n" 
 	    "[GF] Please lower the GF_TUNE parameter from %g \n" , Latt.gf_alpha ) ;
     return GLU_FAILURE ;
-  } else {
+  } else if( iters != (size_t)GLU_FAILURE ) {
     output_fixing_info( lat , theta , iters ) ;
   }
 
diff --git a/src/Gfix/Or.c b/src/Gfix/Or.c
index 510e39d..121aab3 100755
--- a/src/Gfix/Or.c
+++ b/src/Gfix/Or.c
@@ -188,19 +188,23 @@ OrLandau( struct site *__restrict lat ,
 
   // initialise the draughtboard
   struct draughtboard db ;
-  init_cb( &db , LVOLUME , ND ) ;
+  if( init_cb( &db , LVOLUME , ND ) == GLU_FAILURE ) {
+    free_cb( &db ) ;
+    return GLU_FAILURE ;
+  }
 
   fprintf( stdout , "[GF] Over-Relaxation parameter %f \n" , OrParam ) ;
 
   size_t iters = 0 ;
 #ifdef SOR
   if( initialise_par_rng( NULL ) == GLU_FAILURE ) {
-    iters = 123456789 ;
+    iters = GLU_FAILURE ;
     goto end ;
   }
   if( OrParam < 0.0 || OrParam >= 1.0 ) {
     fprintf( stderr , "[OR] SOR param should be between 0 and 1, not %f \n" ,
 	     OrParam ) ;
+    iters = GLU_FAILURE ;
     goto end ;
   }
 #endif
@@ -270,19 +274,23 @@ OrCoulomb( struct site *__restrict lat ,
 {
   // initialise the draughtboarding
   struct draughtboard db ;
-  init_cb( &db , LCU , ND-1 ) ;
+  if( init_cb( &db , LCU , ND-1 ) == GLU_FAILURE ) {
+    free_cb( &db ) ;
+    return GLU_FAILURE ;
+  }
 
   fprintf( stdout , "[GF] Over-Relaxation parameter %f \n\n" , OrParam ) ;
 
   size_t iters = 0 ;
 #ifdef SOR
   if( initialise_par_rng( NULL ) == GLU_FAILURE ) {
-    iters = 123456789 ;
+    iters = GLU_FAILURE ;
     goto end ;
   }
   if( OrParam < 0.0 || OrParam >= 1.0 ) {
     fprintf( stderr , "[OR] SOR param should be between 0 and 1, not %f \n" ,
 	     OrParam ) ;
+    iters = GLU_FAILURE ;
     goto end ;
   }
 #endif
-- 
2.43.0


From df73eae62137e9955ea25bb0fab1c93826235b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:52 +0000
Subject: [PATCH 19/63] fix: the Wilson flow returned success after a failed
 allocation

---
 src/Smear/adaptive_flow.c |  3 ++-
 src/Smear/wflow.c         | 11 ++++++++---
 src/Utils/GLU_malloc.c    |  2 ++
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/Smear/adaptive_flow.c b/src/Smear/adaptive_flow.c
index c895a77..77d9773 100755
--- a/src/Smear/adaptive_flow.c
+++ b/src/Smear/adaptive_flow.c
@@ -214,13 +214,14 @@ flow_adaptive_RK3( struct site *__restrict lat ,
   }
   
   // allocate temps
+  int FLAG = GLU_SUCCESS ;
   struct wflow_temps WF ;
   if( allocate_WF( &WF , GLU_FALSE , GLU_TRUE ) == GLU_FAILURE ) {
+    FLAG = GLU_FAILURE ;
     goto memfree ;
   }
 
   const double inplaq = av_plaquette( lat ) ;
-  int FLAG = GLU_SUCCESS ;
   
 #pragma omp parallel
   {
diff --git a/src/Smear/wflow.c b/src/Smear/wflow.c
index d0eff63..910535d 100755
--- a/src/Smear/wflow.c
+++ b/src/Smear/wflow.c
@@ -47,8 +47,12 @@ flow_RK3( struct site *__restrict lat ,
   //////////////////////////////////////
 
   // Set up the temporary fields ...
+  int FLAG = GLU_SUCCESS ;
   struct wflow_temps WF ;
-  if( allocate_WF( &WF , memcheap , GLU_FALSE ) == GLU_FAILURE ) goto memfree ;
+  if( allocate_WF( &WF , memcheap , GLU_FALSE ) == GLU_FAILURE ) {
+    FLAG = GLU_FAILURE ;
+    goto memfree ;
+  }
 
   void (*f) ( struct site *__restrict lat ,
 	      struct wflow_temps WF ,
@@ -81,7 +85,8 @@ flow_RK3( struct site *__restrict lat ,
     break ;
   default :
     fprintf( stderr , "[SMEARING] unrecognised smearing projection \n" ) ;
-    return GLU_FAILURE ;
+    FLAG = GLU_FAILURE ;
+    goto memfree ;
   }
 
   const double inplaq = av_plaquette( lat ) ;
@@ -180,5 +185,5 @@ flow_RK3( struct site *__restrict lat ,
   
   free_WF( &WF , memcheap , GLU_FALSE ) ;
    
-  return GLU_SUCCESS ;
+  return FLAG ;
 }
diff --git a/src/Utils/GLU_malloc.c b/src/Utils/GLU_malloc.c
index 53acd8d..93fd335 100644
--- a/src/Utils/GLU_malloc.c
+++ b/src/Utils/GLU_malloc.c
@@ -74,6 +74,7 @@ allocate_lat( void )
 void
 free_lat( struct site *lat )
 {
+  if( lat == NULL ) return ;
   size_t i ;
   #pragma omp parallel for private(i)
   for( i = 0 ; i < LVOLUME ; i++ ) {
@@ -127,6 +128,7 @@ free_s_site( struct s_site *lat ,
 	     const size_t LENGTH1 ,
 	     const size_t LENGTH2 )
 {
+  if( lat == NULL ) return ;
 
   size_t i ;
 #pragma omp parallel for private(i)
-- 
2.43.0


From 39d496e4f933260c65252e5e67933a369498d64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:52 +0000
Subject: [PATCH 20/63] fix: field measurements reported success after a failed
 stage or output

---
 src/Cuts/cut_output.c    | 15 ++++++++++++---
 src/Field/POLY.c         | 32 +++++++++++++++++++++++---------
 src/Field/Qcorr.c        | 23 +++++++++++++++--------
 src/Field/Qslab.c        | 17 +++++++++++++----
 src/Field/Qsusc.c        |  8 ++++++--
 src/Headers/cut_output.h |  4 ++--
 6 files changed, 71 insertions(+), 28 deletions(-)

diff --git a/src/Cuts/cut_output.c b/src/Cuts/cut_output.c
index 92edd1d..129e2c4 100755
--- a/src/Cuts/cut_output.c
+++ b/src/Cuts/cut_output.c
@@ -411,7 +411,7 @@ write_mom_veclist( FILE *Ap ,
 }
 
 // write out some moments, re and imaginary
-void
+int
 write_moments( struct Qmoments *Qmom ,
 	       const size_t Nmeasurements )
 {
@@ -421,6 +421,7 @@ write_moments( struct Qmoments *Qmom ,
   uint32_t Nmeas[ 1 ] = { Nmeasurements } ;
   char filename[ 256 ] ;
   
+  int flag = GLU_SUCCESS ;
   size_t mu , i , j ;
   for( mu = 0 ; mu < ND ; mu++ ) {
 
@@ -428,6 +429,13 @@ write_moments( struct Qmoments *Qmom ,
     Qm = fopen( filename , "wb" ) ;
     sprintf( filename , "Q2moment_d%zu.%zu.bin" , mu , Latt.flow ) ;
     Q2m = fopen( filename , "wb" ) ;
+    if( Qm == NULL || Q2m == NULL ) {
+      fprintf( stderr , "[CUTS] cannot open the moment files\n" ) ;
+      if( Qm != NULL ) fclose( Qm ) ;
+      if( Q2m != NULL ) fclose( Q2m ) ;
+      free( re ) ;
+      return GLU_FAILURE ;
+    }
 
     FWRITE( Nmeas , sizeof( uint32_t ) , 1 , Qm ) ;
     FWRITE( Nmeas , sizeof( uint32_t ) , 1 , Q2m ) ;
@@ -446,12 +454,13 @@ write_moments( struct Qmoments *Qmom ,
       FWRITE( re , sizeof( double ) , NQMOMENTS , Q2m ) ;
     }
 
-    fclose( Qm ) ; fclose( Q2m ) ; 
+    if( close_output( Qm , "Qmoment" ) == GLU_FAILURE ) flag = GLU_FAILURE ;
+    if( close_output( Q2m , filename ) == GLU_FAILURE ) flag = GLU_FAILURE ;
   }
   
   free( re ) ;
   
-  return ;
+  return flag ;
 }
 
 // write out rsq's for the correlator
diff --git a/src/Field/POLY.c b/src/Field/POLY.c
index b176010..b078eeb 100755
--- a/src/Field/POLY.c
+++ b/src/Field/POLY.c
@@ -313,7 +313,7 @@ Coul_staticpot( struct site *lat ,
 {
   // do some smearing? Overwrites lat, should I state that I only think
   // SPATIAL dimensional smearing is safe ... probably
-  SM_wrap_struct( lat , SMINFO ) ;
+  if( SM_wrap_struct( lat , SMINFO ) == GLU_FAILURE ) return GLU_FAILURE ;
 
   // important!! T is the length of the polyakov loop in time direction
   const size_t T = CUTINFO.max_t ;
@@ -343,10 +343,16 @@ Coul_staticpot( struct site *lat ,
   // compute the momentum list
   size_t size[1] = { 0 } ;
   struct veclist *list = compute_veclist( size , CUTINFO , ND-1 , GLU_TRUE ) ;
+  double complex *result = NULL , *trtr = NULL ;
+  int FLAG = GLU_FAILURE ;
 
   // set up the outputs
   const char *str = output_str_struct( CUTINFO ) ;  
-  FILE *Ap = fopen( str , "wb" ) ;
+  FILE *Ap = NULL ;
+  if( list == NULL || ( Ap = fopen( str , "wb" ) ) == NULL ) {
+    fprintf( stderr , "[STATIC-POTENTIAL] cannot open %s\n" , str ) ;
+    goto memfree ;
+  }
 
   // write the list, in cut_outputs.c
   write_mom_veclist( Ap , size , list , ND-1 ) ;
@@ -363,8 +369,8 @@ Coul_staticpot( struct site *lat ,
   if( !WORDS_BIGENDIAN ) { bswap_32( 1 , Tcorrs ) ; }  
 
   // allocate the results
-  double complex *result = malloc( size[0] * sizeof( double complex ) ) ; 
-  double complex *trtr   = malloc( size[0] * sizeof( double complex ) ) ; 
+  result = malloc( size[0] * sizeof( double complex ) ) ; 
+  trtr   = malloc( size[0] * sizeof( double complex ) ) ; 
 
   // precompute the polyakov loop
   size_t t ;
@@ -387,9 +393,11 @@ Coul_staticpot( struct site *lat ,
     }
     
     // compute the two quark correlator
-    static_quark_correlator( result , trtr , 
-			     (const GLU_complex**)poly , 
-			     list , size[0] ) ;
+    if( static_quark_correlator( result , trtr , 
+				 (const GLU_complex**)poly , 
+				 list , size[0] ) == GLU_FAILURE ) {
+      goto memfree ;
+    }
 
     // write out the result of all that work
     write_complex_g2g3_to_list( Ap , result , trtr , size ) ;
@@ -399,8 +407,14 @@ Coul_staticpot( struct site *lat ,
 	     "and written \n" , t ) ;
   }
 
+  FLAG = GLU_SUCCESS ;
+
+ memfree :
+
   // close the file
-  fclose( Ap ) ; 
+  if( Ap != NULL && close_output( Ap , str ) == GLU_FAILURE ) {
+    FLAG = GLU_FAILURE ;
+  }
 
   // memory free ...
   free( result ) ;
@@ -415,5 +429,5 @@ Coul_staticpot( struct site *lat ,
   // free the momentum list
   free( list ) ;
 
-  return GLU_SUCCESS ;
+  return FLAG ;
 }
diff --git a/src/Field/Qcorr.c b/src/Field/Qcorr.c
index 20d268c..f108e7a 100644
--- a/src/Field/Qcorr.c
+++ b/src/Field/Qcorr.c
@@ -41,6 +41,10 @@ temporal_correlator( const GLU_complex *qtop ,
   char cstr[ strlen(str)+7 ] ;
   sprintf( cstr , "%s.tcorr" , str ) ; 
   FILE *Ap = fopen( cstr , "wb" ) ; 
+  if( Ap == NULL ) {
+    fprintf( stderr , "[CUTS] cannot open %s\n" , cstr ) ;
+    return GLU_FAILURE ;
+  }
 
   // timeslice length
   size_t lt[ 1 ] = { Latt.dims[ND-1] } ;
@@ -74,10 +78,9 @@ temporal_correlator( const GLU_complex *qtop ,
   write_g2_to_list( Ap , ct , lt ) ;
 
   // memory frees
-  fclose( Ap ) ;
   free( ct ) ;
 
-  return GLU_SUCCESS ;
+  return close_output( Ap , cstr ) ;
 }
 
 // computation of the correlator
@@ -93,7 +96,7 @@ compute_Qcorr( struct site *__restrict lat ,
   const double NORMSQ = NORM * NORM ;
 
   // info
-  check_psq( CUTINFO ) ;
+  if( check_psq( CUTINFO ) == GLU_FAILURE ) return GLU_FAILURE ;
 
   // compute the ratios of the dimensions in terms of the smallest
   simorb_ratios( ND ) ;
@@ -101,6 +104,7 @@ compute_Qcorr( struct site *__restrict lat ,
   // if we already have a file, read it
   size_t size[1] = { 0 } ;
   struct veclist *list = compute_veclist( size , CUTINFO , ND , GLU_TRUE ) ;
+  if( list == NULL ) return GLU_FAILURE ;
 
   // set up the outputs
   char *str = output_str_struct( CUTINFO ) ;
@@ -108,6 +112,12 @@ compute_Qcorr( struct site *__restrict lat ,
   sprintf( tmp , "m%zu" , measurement ) ;
   append_char( &str , tmp ) ; 
   FILE *Ap = fopen( str , "wb" ) ; 
+  if( Ap == NULL ) {
+    fprintf( stderr , "[CUTS] cannot open %s\n" , str ) ;
+    free( str ) ;
+    free( list ) ;
+    return GLU_FAILURE ;
+  }
 
   // flag for success or failure
   int FLAG = GLU_FAILURE ;
@@ -197,21 +207,18 @@ compute_Qcorr( struct site *__restrict lat ,
 #endif
 
   // look at the correlator of this thing too
-  temporal_correlator( FFTW.in , str ) ;
+  FLAG = temporal_correlator( FFTW.in , str ) ;
 
   // tell us where to go
   fprintf( stdout , "[CUTS] Outputting to %s \n" , str ) ;
 
   // write out the result of all that work
   write_g2_to_list( Ap , qcorr , size ) ;
-  
-  // we are quite successful if we get here
-  FLAG = GLU_SUCCESS ;
 
  memfree :
 
   // close the file and its name
-  fclose( Ap ) ;
+  if( close_output( Ap , str ) == GLU_FAILURE ) FLAG = GLU_FAILURE ;
   free( str ) ;
 
   // free up all of the allocations
diff --git a/src/Field/Qslab.c b/src/Field/Qslab.c
index 0bb25b1..bc461cd 100644
--- a/src/Field/Qslab.c
+++ b/src/Field/Qslab.c
@@ -83,6 +83,11 @@ compute_slabs( const GLU_complex *qtop ,
   sprintf( tmp , ".m%zu.tcorr_d%zu" , measurement , SLAB_DIR ) ;
   append_char( &str , tmp ) ;
   FILE *Ap = fopen( str , "wb" ) ;
+  if( Ap == NULL ) {
+    fprintf( stderr , "[CUTS] cannot open %s\n" , str ) ;
+    free( str ) ;
+    return GLU_FAILURE ;
+  }
 
   // timeslice length
   size_t lt[ 1 ] = { Latt.dims[ SLAB_DIR ] } ;
@@ -188,10 +193,11 @@ compute_slabs( const GLU_complex *qtop ,
   write_g2_to_list( Ap , ct , lt ) ;
 
   // free allocated memory
+  const int flag = close_output( Ap , str ) ;
   free( str ) ;
-  fclose( Ap ) ;
+  free( ct ) ;
 
-  return GLU_SUCCESS ;
+  return flag ;
 }
 
 // compute the topological susceptibility on a "slab"
@@ -207,12 +213,15 @@ compute_Qsusc( struct site *lat ,
   compute_Gmunu_array( qtop , lat ) ;
 
   // slabby slab slab
+  int flag = GLU_SUCCESS ;
   size_t mu ;
   for( mu = 0 ; mu < ND ; mu++ ) {
-    compute_slabs( qtop , CUTINFO , mu , measurement ) ;
+    if( compute_slabs( qtop , CUTINFO , mu , measurement ) == GLU_FAILURE ) {
+      flag = GLU_FAILURE ;
+    }
   }
   
   free( qtop ) ;
   
-  return GLU_SUCCESS ;
+  return flag ;
 }
diff --git a/src/Field/Qsusc.c b/src/Field/Qsusc.c
index 5bd26e2..3527489 100755
--- a/src/Field/Qsusc.c
+++ b/src/Field/Qsusc.c
@@ -64,7 +64,9 @@ compute_Qsusc_step( struct site *__restrict lat ,
   for( measurement = 1 ; measurement < CUTINFO.max_t ; measurement++ ) {
 
     // do some smearing ...
-    SM_wrap_struct( lat , SMINFO ) ;
+    if( SM_wrap_struct( lat , SMINFO ) == GLU_FAILURE ) {
+      flag = GLU_FAILURE ; break ;
+    }
     
     // compute the topological correlator in r and the temporal correlator
     if( CUTINFO.dir == TOPOLOGICAL_SUSCEPTIBILITY ) {
@@ -89,7 +91,9 @@ compute_Qsusc_step( struct site *__restrict lat ,
   if( CUTINFO.dir == TOPOLOGICAL_MOMENTS ) {
 
     // write to a file
-    write_moments( Qmom , CUTINFO.max_t-1 ) ;
+    if( flag != GLU_FAILURE ) {
+      flag = write_moments( Qmom , CUTINFO.max_t-1 ) ;
+    }
     
     size_t t ;
     for( t = 0 ; t < CUTINFO.max_t-1 ; t++ ) {
diff --git a/src/Headers/cut_output.h b/src/Headers/cut_output.h
index 65f6765..43310d2 100755
--- a/src/Headers/cut_output.h
+++ b/src/Headers/cut_output.h
@@ -140,9 +140,9 @@ write_mom_veclist( FILE *Ap ,
 		   const size_t DIR ) ;
 
 /**
-   @fn void write_moments( struct Qmoments *Qmom , const size_t Nmeasurements )
+   @fn int write_moments( struct Qmoments *Qmom , const size_t Nmeasurements )
  **/
-void
+int
 write_moments( struct Qmoments *Qmom ,
 	       const size_t Nmeasurements ) ;
 
-- 
2.43.0


From 114e0f10a4f7b6cef853f62de45cdc526171e269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:52 +0000
Subject: [PATCH 21/63] fix: HiRep and CERN read and write failures were
 dropped

---
 src/Headers/CERN.h   |  4 ++--
 src/Headers/HIREP.h  |  4 ++--
 src/IO/CERN.c        | 25 +++++++++++++++++--------
 src/IO/HIREP.c       |  5 +++--
 src/IO/read_config.c | 11 +++++++----
 src/IO/writers.c     |  8 ++++----
 6 files changed, 35 insertions(+), 22 deletions(-)

diff --git a/src/Headers/CERN.h b/src/Headers/CERN.h
index 8454322..4e0ea85 100644
--- a/src/Headers/CERN.h
+++ b/src/Headers/CERN.h
@@ -37,12 +37,12 @@ read_CLS_field( struct site *lat ,
 		uint32_t *chksum ) ;
 
 /**
-   @fn void write_CLS_field( const struct site *lat ,  FILE *outfile )
+   @fn int write_CLS_field( const struct site *lat ,  FILE *outfile )
    @param lat :: lattice gauge field
    @param outfile :: string we are writing out to
    @brief write a CERN gauge field
  */
-void
+int
 write_CLS_field( const struct site *lat ,
 		 FILE *outfile ) ;
 
diff --git a/src/Headers/HIREP.h b/src/Headers/HIREP.h
index d4f22f7..5af6990 100755
--- a/src/Headers/HIREP.h
+++ b/src/Headers/HIREP.h
@@ -37,12 +37,12 @@ read_gauge_field( struct site *__restrict lat ,
 		  uint32_t *chksum ) ;
 
 /**
-   @fn void write_gauge_field( const struct site *__restrict lat , FILE *__restrict outfile )
+   @fn int write_gauge_field( const struct site *__restrict lat , FILE *__restrict outfile )
    @brief writes out a configuration file in the HiRep order
    @param lat :: lattice gauge field
    @param outfile :: file we are outputting to
  **/
-void
+int
 write_gauge_field( const struct site *__restrict lat ,
 		   FILE *__restrict outfile ) ;
 
diff --git a/src/IO/CERN.c b/src/IO/CERN.c
index 4db2f5f..fc3f19c 100644
--- a/src/IO/CERN.c
+++ b/src/IO/CERN.c
@@ -47,18 +47,26 @@ read_CLS_field( struct site *__restrict lat ,
   const size_t stride = 16*NCNC ;
   uint32_t k = 0 ;
   size_t t ;
-  #pragma omp parallel for private(t)
+  int failures = 0 ;
+  #pragma omp parallel for private(t) reduction(+:failures)
   for( t = 0 ; t < Latt.dims[ND-1] ; t++ ) {
 
     // test idea
     FILE *file = fopen( config_in , "rb" ) ;
+    if( file == NULL ) {
+      fprintf( stderr , "[IO] error opening file :: %s\n" , config_in ) ;
+      failures++ ;
+      continue ;
+    }
 
     double uin[ LCU*8*NCNC ] GLUalign ;
     const size_t offset = 4*sizeof(int)+sizeof(double) +( LCU*t )*8*NCNC*sizeof(double) ;
-    fseek( file , offset , SEEK_CUR) ;
-    if( fread( uin , sizeof( double ) , 2*LCU*NCNC*ND , file ) != 2*LCU*NCNC*ND ) {
+    if( fseek( file , offset , SEEK_CUR) != 0 ||
+	fread( uin , sizeof( double ) , 2*LCU*NCNC*ND , file ) != 2*LCU*NCNC*ND ) {
       fprintf( stderr , "File read error .. Leaving \n " ) ;
-      exit(1) ;
+      fclose( file ) ;
+      failures++ ;
+      continue ;
     }
     
     double *uind = (double*)(uin) ;
@@ -117,6 +125,7 @@ read_CLS_field( struct site *__restrict lat ,
     }
     fclose( file ) ;
   }
+  if( failures != 0 ) return GLU_FAILURE ;
 
   if( WORDS_BIGENDIAN ) {
     bswap_32( LVOLUME*NCNC*2 , lat ) ;
@@ -127,13 +136,13 @@ read_CLS_field( struct site *__restrict lat ,
 }
 
 // writes my gauge field out in the CERN format 
-void
+int
 write_CLS_field( const struct site *__restrict lat ,
 		 FILE *__restrict outfile )
 {
   if( ND != 4 ) {
     fprintf( stderr , "No known CERN format for Nd != 4\n" ) ;
-    return ;
+    return GLU_FAILURE ;
   }
   
   const size_t stride = 16*NCNC ; 
@@ -158,7 +167,7 @@ write_CLS_field( const struct site *__restrict lat ,
   // create a copy
   double *uout = NULL ;
   if( GLU_malloc( (void**)&uout , ALIGNMENT, LVOLUME*ND*NCNC*2*sizeof(double) ) != 0 ) {
-    return ;
+    return GLU_FAILURE ;
   }
 
   // the idea is to do all of the translation stuff in parallel and then dump it to a file
@@ -238,5 +247,5 @@ write_CLS_field( const struct site *__restrict lat ,
   
   free( uout ) ;
   
-  return ;
+  return GLU_SUCCESS ;
 }
diff --git a/src/IO/HIREP.c b/src/IO/HIREP.c
index 0b58f63..a717106 100755
--- a/src/IO/HIREP.c
+++ b/src/IO/HIREP.c
@@ -112,7 +112,7 @@ read_gauge_field( struct site *__restrict lat ,
 }
 
 // writes my gauge field out in the HiRep format 
-void
+int
 write_gauge_field( const struct site *__restrict lat ,
 		   FILE *__restrict outfile )
 {
@@ -157,6 +157,7 @@ write_gauge_field( const struct site *__restrict lat ,
   // now to put the gauge field in, in HiRep's weird order!
 
   double *uoutd = ( double* )malloc( stride *sizeof( double ) ) ; 
+  if( uoutd == NULL ) return GLU_FAILURE ;
 
   size_t i ;
   for( i = 0 ; i < LVOLUME ; i++ ) {
@@ -191,5 +192,5 @@ write_gauge_field( const struct site *__restrict lat ,
 
   free( uoutd ) ;
 
-  return ;
+  return GLU_SUCCESS ;
 }
diff --git a/src/IO/read_config.c b/src/IO/read_config.c
index 32a1df3..c9d5f2b 100755
--- a/src/IO/read_config.c
+++ b/src/IO/read_config.c
@@ -159,14 +159,17 @@ get_config_SUNC( FILE *__restrict CONFIG ,
       }
     } break ;
   case HIREP_HEADER : // HIREP uses a weird geometry compared to everyone else
-    read_gauge_field( lat , CONFIG , &chksum ) ;
+    if( read_gauge_field( lat , CONFIG , &chksum ) == GLU_FAILURE ) {
+      return GLU_FAILURE ;
+    }
     return chksum ;
   case CERN_HEADER :
-    read_CLS_field( lat , config_in , &chksum ) ;
+    if( read_CLS_field( lat , config_in , &chksum ) == GLU_FAILURE ) {
+      return GLU_FAILURE ;
+    }
     return chksum ;
   case RANDOM_CONFIG :
-    random_suNC( lat ) ;
-    return GLU_SUCCESS ;
+    return random_suNC( lat ) ;
   case UNIT_GAUGE :
     trivial( lat ) ;
     return GLU_SUCCESS ;
diff --git a/src/IO/writers.c b/src/IO/writers.c
index 48554ef..997507e 100755
--- a/src/IO/writers.c
+++ b/src/IO/writers.c
@@ -339,17 +339,17 @@ write_lat( struct site *lat ,
   if( type == OUTPUT_CERN ) {
     printf( "[IO] Writing out in CERN format\n" ) ;
     start_timer() ;
-    write_CLS_field( lat , out ) ;
+    const int flag = write_CLS_field( lat , out ) ;
     print_time() ;
-    return GLU_SUCCESS ;
+    return flag ;
   }
   // HIREP stuff is all handled in HIREP.c
   if( type == OUTPUT_HIREP ) {
     printf( "[IO] Writing out in HIREP format\n" ) ;
     start_timer() ;
-    write_gauge_field( lat , out ) ;
+    const int flag = write_gauge_field( lat , out ) ;
     print_time() ;
-    return GLU_SUCCESS ;
+    return flag ;
   }
 
   // loop variables
-- 
2.43.0


From 5f9f2c76f24cfa4ca8df5734a7623b922fc4c62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:52 +0000
Subject: [PATCH 22/63] fix: heatbath dropped failures to save the
 configuration or RNG state

---
 src/Headers/par_rng.h |  2 +-
 src/Update/KPHB.c     | 11 +++++++++--
 src/Utils/par_rng.c   | 14 +++++++++++---
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/Headers/par_rng.h b/src/Headers/par_rng.h
index 5d22747..cda02ee 100755
--- a/src/Headers/par_rng.h
+++ b/src/Headers/par_rng.h
@@ -99,7 +99,7 @@ read_par_rng_state( const char *infile ) ;
    @brief read the rng table to outfile
    @param outfile :: file to be written
 */
-void
+int
 write_par_rng_state( const char *outfile ) ;
 
 #endif
diff --git a/src/Update/KPHB.c b/src/Update/KPHB.c
index b5338a3..71e3f68 100644
--- a/src/Update/KPHB.c
+++ b/src/Update/KPHB.c
@@ -175,6 +175,9 @@ hb_update( struct site *lat ,
 #ifdef POLY_MEAS
   double *POLYred = calloc( CLINE*Latt.Nthreads , sizeof( double ) ) ;
 #endif
+  // flag for whether everything was saved
+  int flag = GLU_SUCCESS ;
+
   // thermalise
   start_timer( ) ;
   
@@ -223,7 +226,11 @@ hb_update( struct site *lat ,
 	      != GLU_FAILURE ) {
 	    // write out the rng state
 	    sprintf( str , "%s.%zu.rand" , pch , i ) ;
-	    write_par_rng_state( str ) ;
+	    if( write_par_rng_state( str ) == GLU_FAILURE ) {
+	      flag = GLU_FAILURE ;
+	    }
+	  } else {
+	    flag = GLU_FAILURE ;
 	  }
 	}
       }
@@ -253,6 +260,6 @@ hb_update( struct site *lat ,
   // free the rng
   free_par_rng( ) ;
 
-  return GLU_SUCCESS ;
+  return flag ;
 }
 
diff --git a/src/Utils/par_rng.c b/src/Utils/par_rng.c
index 06526db..aac25b4 100644
--- a/src/Utils/par_rng.c
+++ b/src/Utils/par_rng.c
@@ -311,10 +311,14 @@ read_par_rng_state( const char *infile )
 }
 
 // write out the parallel rng
-void
+int
 write_par_rng_state( const char *outfile )
 {
   FILE *out = fopen( outfile , "wb" ) ;
+  if( out == NULL ) {
+    fprintf( stderr , "[PAR_RNG] cannot open %s\n" , outfile ) ;
+    return GLU_FAILURE ;
+  }
 
   // write out in a NERSC-like header so I can reuse that code
   fprintf( out , "BEGIN_HEADER\n" ) ;
@@ -348,7 +352,11 @@ write_par_rng_state( const char *outfile )
   write_par_MWC_4096_table( out ) ;
 #endif
 
-  fclose( out ) ;
+  const int failed = ferror( out ) ;
+  if( fclose( out ) != 0 || failed != 0 ) {
+    fprintf( stderr , "[PAR_RNG] failed to write %s\n" , outfile ) ;
+    return GLU_FAILURE ;
+  }
 
-  return ;
+  return GLU_SUCCESS ;
 }
-- 
2.43.0


From abf087c78748658a56d3abaebfe838c1c88a7cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:52 +0000
Subject: [PATCH 23/63] fix: failed stages still wrote a configuration and
 returned success

---
 src/Headers/CUT_wrap.h     |  4 +-
 src/Wrappers/CUT_wrap.c    | 19 +++++-----
 src/Wrappers/GF_wrap.c     | 16 ++++----
 src/Wrappers/GLUlib_wrap.c | 77 ++++++++++++++++++++++++++------------
 src/Wrappers/SM_wrap.c     | 43 ++++++++++-----------
 5 files changed, 93 insertions(+), 66 deletions(-)

diff --git a/src/Headers/CUT_wrap.h b/src/Headers/CUT_wrap.h
index c5ef364..1900e93 100755
--- a/src/Headers/CUT_wrap.h
+++ b/src/Headers/CUT_wrap.h
@@ -24,14 +24,14 @@
 #define GLU_CUT_WRAP
 
 /**
-   @fn void cuts_wrap_struct( struct site *__restrict lat , const struct cut_info CUTINFO , const struct sm_info SMINFO )
+   @fn int cuts_wrap_struct( struct site *__restrict lat , const struct cut_info CUTINFO , const struct sm_info SMINFO )
    @brief Wrapper function
 
    @param lat :: Gauge fields
    @param CUTINFO :: cutting information
    @param SMINFO :: smearing information
  */
-void
+int
 cuts_wrap_struct( struct site *__restrict lat , 
 		  const struct cut_info CUTINFO ,
 		  const struct sm_info SMINFO ) ;
diff --git a/src/Wrappers/CUT_wrap.c b/src/Wrappers/CUT_wrap.c
index 0506e6d..a3ef4f4 100755
--- a/src/Wrappers/CUT_wrap.c
+++ b/src/Wrappers/CUT_wrap.c
@@ -31,44 +31,45 @@
 #include "smearing_param.h" // smeared gluon propagator
 
 // wrapper for the variousfa momentum-cutting and other measurement options
-void
+int
 cuts_wrap_struct( struct site *__restrict lat , 
 		  const struct cut_info CUTINFO ,
 		  const struct sm_info SMINFO )
 {
+  int flag = GLU_SUCCESS ;
   start_timer( ) ;
 
   ///////////// CREATE CUTS ////////////
   switch( CUTINFO.dir ) {
   case INSTANTANEOUS_GLUONS :
-    cuts_spatial( lat , CUTINFO ) ;
+    flag = cuts_spatial( lat , CUTINFO ) ;
     break ;
   case CONFIGSPACE_GLUONS :
-    cuts_struct_configspace( lat , CUTINFO , SMINFO ) ;
+    flag = cuts_struct_configspace( lat , CUTINFO , SMINFO ) ;
     break ;
   case SMEARED_GLUONS :
-    cuts_struct_smeared( lat , CUTINFO , SMINFO ) ;
+    flag = cuts_struct_smeared( lat , CUTINFO , SMINFO ) ;
     break ;
   case STATIC_POTENTIAL :
-    Coul_staticpot( lat , CUTINFO , SMINFO ) ;
+    flag = Coul_staticpot( lat , CUTINFO , SMINFO ) ;
     break ;
   case TOPOLOGICAL_CORRELATOR :
   case TOPOLOGICAL_MOMENTS :
   case TOPOLOGICAL_SUSCEPTIBILITY :
-    compute_Qsusc_step( lat , CUTINFO , SMINFO ) ;
+    flag = compute_Qsusc_step( lat , CUTINFO , SMINFO ) ;
     break ;
   case GLUON_PROPS :
   case EXCEPTIONAL :
   case NONEXCEPTIONAL :
   case FIELDS :
     // all of the other momentum space routines are in here
-    cuts_struct( lat , CUTINFO ) ;
+    flag = cuts_struct( lat , CUTINFO ) ;
     break ;
   default :
-    return ;
+    return GLU_FAILURE ;
   }
 
   print_time( ) ;
 
-  return ;
+  return flag ;
 }
diff --git a/src/Wrappers/GF_wrap.c b/src/Wrappers/GF_wrap.c
index bcc8850..ffba3c6 100755
--- a/src/Wrappers/GF_wrap.c
+++ b/src/Wrappers/GF_wrap.c
@@ -48,16 +48,16 @@ GF_wrap_coulomb( struct site *lat ,
 #ifdef OVERRELAXED_GF
   // we could check iters if we wanted, actually we do want to
   double acc ;
-  OrCoulomb( lat , &acc , GFINFO.max_iters ,
-	     GFINFO.accuracy , Latt.gf_alpha ) ;
+  const int iters = OrCoulomb( lat , &acc , GFINFO.max_iters ,
+			       GFINFO.accuracy , Latt.gf_alpha ) ;
 #else
   // we could check iters if we wanted, actually we do want to
-  Coulomb( lat , GFINFO.accuracy , GFINFO.max_iters ) ; 
+  const int iters = Coulomb( lat , GFINFO.accuracy , GFINFO.max_iters ) ; 
 #endif
 
   print_time() ;
 
-  return GLU_SUCCESS ;
+  return iters == GLU_FAILURE ? GLU_FAILURE : GLU_SUCCESS ;
 }
 
 // landau wrapper
@@ -195,11 +195,13 @@ GF_wrap( const char *infile ,
   case GLU_COULOMB_FIX :
     return GF_wrap_coulomb( lat , GFINFO ) ;
   case GLU_COULOMB_RESIDUAL_FIX :
-    GF_wrap_coulomb( lat , GFINFO ) ;
+    if( GF_wrap_coulomb( lat , GFINFO ) == GLU_FAILURE ) {
+      return GLU_FAILURE ;
+    }
     fprintf( stdout , "\n[GF] Residual gauge fixing step \n" ) ;
-    residual_fix( lat ) ;
+    flag = residual_fix( lat ) ;
     output_information( lat ) ;
-    return GLU_SUCCESS ;
+    return flag ;
   case GLU_LANDAU_FIX :
     return GF_wrap_landau( lat , infile , GFINFO ) ;
   case GLU_MAG_FIX :
diff --git a/src/Wrappers/GLUlib_wrap.c b/src/Wrappers/GLUlib_wrap.c
index fc10871..df1e556 100755
--- a/src/Wrappers/GLUlib_wrap.c
+++ b/src/Wrappers/GLUlib_wrap.c
@@ -92,7 +92,7 @@ read_file( struct head_data *HEAD_DATA ,
   struct head_data tmp ;
   if( read_header( infile , &tmp , GLU_TRUE ) == GLU_FAILURE ) {
     fprintf( stderr , "[IO] Header reading failure\n" ) ;
-    fclose( infile ) ;
+    if( infile != NULL ) fclose( infile ) ;
     return NULL ;
   } 
 
@@ -101,7 +101,7 @@ read_file( struct head_data *HEAD_DATA ,
 
   // check for having enough memory for the gauge field
   if( have_memory_gauge( ) == GLU_FAILURE ) {
-    fclose( infile ) ;
+    if( infile != NULL ) fclose( infile ) ;
     return NULL ;
   }
 
@@ -109,6 +109,7 @@ read_file( struct head_data *HEAD_DATA ,
   struct site *lat = NULL ;
   if( ( lat = allocate_lat( ) ) == NULL ) {
     fprintf( stderr , "[IO] Gauge field allocation failure\n" ) ;
+    if( infile != NULL ) fclose( infile ) ;
     return NULL ;
   }
 
@@ -123,8 +124,8 @@ read_file( struct head_data *HEAD_DATA ,
   // read in the configuration ...  
   if( check == GLU_FAILURE ) {
     fprintf( stderr , "[IO] File read error ... Leaving \n" ) ;
-    fclose( infile ) ;
-    free( lat ) ;
+    if( infile != NULL ) fclose( infile ) ;
+    free_lat( lat ) ;
     return NULL ;
   }
 
@@ -132,13 +133,18 @@ read_file( struct head_data *HEAD_DATA ,
   // this is taken from the bottom of the file
   if( Latt.head == SCIDAC_HEADER || Latt.head == ILDG_SCIDAC_HEADER ||
       Latt.head == ILDG_BQCD_HEADER ) {
-    get_header_data_SCIDAC( infile , &tmp ) ;
+    if( get_header_data_SCIDAC( infile , &tmp ) == GLU_FAILURE ) {
+      fprintf( stderr , "[IO] Trailing header reading failure\n" ) ;
+      fclose( infile ) ;
+      free_lat( lat ) ;
+      return NULL ;
+    }
   }
 
   // have a look at some available checks
   if( checks( lat , check , tmp ) == GLU_FAILURE ) { 
-    fclose( infile ) ;
-    free( lat ) ;
+    if( infile != NULL ) fclose( infile ) ;
+    free_lat( lat ) ;
     return NULL ; 
   }
 
@@ -180,9 +186,19 @@ write_configuration( struct site *lat ,
     return GLU_FAILURE ;
   } else {
     FILE *out_config = fopen( outfile , "w" ) ;
-    write_lat( lat , out_config , storage , output_details ) ;
+    if( out_config == NULL ) {
+      fprintf( stderr , "[IO] cannot open %s for writing\n" , outfile ) ;
+      return GLU_FAILURE ;
+    }
+    int flag = write_lat( lat , out_config , storage , output_details ) ;
+    // a short write is sticky on the stream, or reported by the close
+    if( ferror( out_config ) != 0 ) flag = GLU_FAILURE ;
+    if( fclose( out_config ) != 0 ) flag = GLU_FAILURE ;
+    if( flag == GLU_FAILURE ) {
+      fprintf( stderr , "[IO] failed to write %s\n" , outfile ) ;
+      return GLU_FAILURE ;
+    }
     fprintf( stdout , "[IO] Configuration written to %s \n", outfile ) ; 
-    fclose( out_config ) ;
   }
   return GLU_SUCCESS ;
 }
@@ -201,12 +217,12 @@ heatbath( const char *infile ,
   if( lat == NULL ) return GLU_FAILURE ;
 
   // heatbath updates
-  hb_update( lat , HBINFO , infile , storage , output_details ) ;
+  const int FLAG = hb_update( lat , HBINFO , infile , storage , output_details ) ;
   
   // free the gauge fields
   free_lat( lat ) ;
 
-  return GLU_SUCCESS ;
+  return FLAG ;
 }
 
 // checks unitarity and can write out a configuration
@@ -225,11 +241,12 @@ read_and_check( const char *infile ,
   if( lat == NULL ) return GLU_FAILURE ;
 
   // if we want a random transform then here is where we do it
-  if( rtrans == GLU_TRUE ) { random_gtrans( lat ) ; }
+  if( rtrans == GLU_TRUE ) { FLAG = random_gtrans( lat ) ; }
 
   gauge( lat ) ;
 
-  if( (Latt.argc-1) == WRITE ) {
+  // a configuration that failed a stage is not written
+  if( FLAG != GLU_FAILURE && (Latt.argc-1) == WRITE ) {
     FLAG = write_configuration( lat , outfile , storage , output_details ) ;
   }
 
@@ -250,11 +267,11 @@ read_and_cut( const char *infile ,
   // should print out a warning
   if( lat == NULL ) return GLU_FAILURE ;
 
-  cuts_wrap_struct( lat , CUTINFO , SMINFO ) ;
+  const int FLAG = cuts_wrap_struct( lat , CUTINFO , SMINFO ) ;
 
   free_lat( lat ) ;
 
-  return GLU_SUCCESS ;
+  return FLAG ;
 }
 
 // gauge fixing
@@ -273,11 +290,15 @@ read_and_fix( const char *infile ,
   if( lat == NULL ) return GLU_FAILURE ;
 
   // if we want a random transform then here is where we do it
-  if( rtrans == GLU_TRUE ) { random_gtrans( lat ) ; }
+  if( rtrans == GLU_TRUE ) { FLAG = random_gtrans( lat ) ; }
 
-  GF_wrap( infile , lat , GFINFO ) ;
+  if( FLAG != GLU_FAILURE &&
+      GF_wrap( infile , lat , GFINFO ) == GLU_FAILURE ) {
+    FLAG = GLU_FAILURE ;
+  }
 
-  if( (Latt.argc-1) == WRITE ) {
+  // a configuration that failed a stage is not written
+  if( FLAG != GLU_FAILURE && (Latt.argc-1) == WRITE ) {
     FLAG = write_configuration( lat , outfile , storage , output_details ) ;
   }
 
@@ -302,11 +323,15 @@ read_and_smear( const char *infile ,
   if( lat == NULL ) return GLU_FAILURE ;
 
   // if we want a random transform then here is where we do it
-  if( rtrans == GLU_TRUE ) { random_gtrans( lat ) ; }
+  if( rtrans == GLU_TRUE ) { FLAG = random_gtrans( lat ) ; }
 
-  SM_wrap_struct( lat , SMINFO ) ;
+  if( FLAG != GLU_FAILURE &&
+      SM_wrap_struct( lat , SMINFO ) == GLU_FAILURE ) {
+    FLAG = GLU_FAILURE ;
+  }
 
-  if( (Latt.argc-1) == WRITE ) {
+  // a configuration that failed a stage is not written
+  if( FLAG != GLU_FAILURE && (Latt.argc-1) == WRITE ) {
     FLAG = write_configuration( lat , outfile , storage , output_details ) ;
   }
 
@@ -331,11 +356,15 @@ read_and_U1( const char *infile ,
   if( lat == NULL ) return GLU_FAILURE ;
 
   // if we want a random transform then here is where we do it
-  if( rtrans == GLU_TRUE ) { random_gtrans( lat ) ; }
+  if( rtrans == GLU_TRUE ) { FLAG = random_gtrans( lat ) ; }
 
-  suNC_cross_u1( lat , U1INFO ) ;
+  if( FLAG != GLU_FAILURE &&
+      suNC_cross_u1( lat , U1INFO ) == GLU_FAILURE ) {
+    FLAG = GLU_FAILURE ;
+  }
 
-  if( (Latt.argc-1) == WRITE ) {
+  // a configuration that failed a stage is not written
+  if( FLAG != GLU_FAILURE && (Latt.argc-1) == WRITE ) {
     FLAG = write_configuration( lat , outfile , storage , output_details ) ;
   }
 
diff --git a/src/Wrappers/SM_wrap.c b/src/Wrappers/SM_wrap.c
index f679820..ab2582a 100755
--- a/src/Wrappers/SM_wrap.c
+++ b/src/Wrappers/SM_wrap.c
@@ -38,7 +38,7 @@
 #include "wflow.h"          // fixed-epsilon wilson flow
 
 // Selects the correct code to run ...
-static void
+static int
 hyp_chooser( struct site *__restrict lat ,
 	     const struct sm_info SMINFO ,
 	     const int meminfo )
@@ -50,9 +50,8 @@ hyp_chooser( struct site *__restrict lat ,
     if( SMINFO.type == SM_ADAPTWFLOW_LOG ) {
       GENTYPE = SM_LOG ;
     }
-    flow_adaptive_RK3( lat , SMINFO.smiters , 
-		      GLU_FORWARD , GENTYPE ) ;
-    return ;
+    return flow_adaptive_RK3( lat , SMINFO.smiters , 
+			      GLU_FORWARD , GENTYPE ) ;
   }
   // RK4 method of integrating the flow equation
   if( SMINFO.type == SM_WFLOW_LOG || 
@@ -63,13 +62,11 @@ hyp_chooser( struct site *__restrict lat ,
     }
     switch( meminfo ){
     case FAST :
-      flow_RK3( lat , SMINFO.smiters , 
-		GLU_FORWARD , GENTYPE , GLU_FALSE ) ;
-      return ;
+      return flow_RK3( lat , SMINFO.smiters , 
+		       GLU_FORWARD , GENTYPE , GLU_FALSE ) ;
     case MODERATE :
-      flow_RK3( lat , SMINFO.smiters , 
-		GLU_FORWARD , GENTYPE , GLU_TRUE ) ;
-      return ;
+      return flow_RK3( lat , SMINFO.smiters , 
+		       GLU_FORWARD , GENTYPE , GLU_TRUE ) ;
     }
   }
   // The original decision for the smearing methods
@@ -78,31 +75,28 @@ hyp_chooser( struct site *__restrict lat ,
   if( SMINFO.type == SM_APE || SMINFO.type == SM_STOUT 
       || SMINFO.type == SM_LOG ) {
     if( SMINFO.dir == SPATIAL_LINKS_ONLY ) {
-      smear3D( lat , SMINFO.smiters , GENTYPE ) ;
+      return smear3D( lat , SMINFO.smiters , GENTYPE ) ;
     } else {
-      smear4D( lat , SMINFO.smiters , GENTYPE ) ;
+      return smear4D( lat , SMINFO.smiters , GENTYPE ) ;
     }
   } else {
     #if ND != 4
-    HYsmearND( lat , SMINFO.smiters , GENTYPE , SMINFO.dir ) ;
+    return HYsmearND( lat , SMINFO.smiters , GENTYPE , SMINFO.dir ) ;
     #else
     if( SMINFO.dir == SPATIAL_LINKS_ONLY ) {
-      HYPSLsmear3D( lat , SMINFO.smiters , GENTYPE ) ; 
-      return ;
+      return HYPSLsmear3D( lat , SMINFO.smiters , GENTYPE ) ;
     } else {
       switch( meminfo ) {
       case FAST :
-	HYPSLsmear4D_expensive( lat , SMINFO.smiters , GENTYPE ) ;
-	return ;
+	return HYPSLsmear4D_expensive( lat , SMINFO.smiters , GENTYPE ) ;
       case MODERATE :
       case SLOW :
-	HYsmearND( lat , SMINFO.smiters , GENTYPE , SMINFO.dir ) ;
-	return ;
+	return HYsmearND( lat , SMINFO.smiters , GENTYPE , SMINFO.dir ) ;
       }
     }
     #endif
   }
-  return ;
+  return GLU_FAILURE ;
 }
 
 // is it smear or wilson flow?
@@ -240,22 +234,23 @@ SM_wrap_struct( struct site *__restrict lat ,
 #endif
   start_timer( ) ;
   print_smearinfo( SMINFO ) ;
+  int flag = GLU_SUCCESS ;
   if( SMINFO.type == SM_HYP || 
       SMINFO.type == SM_HEX || 
       SMINFO.type == SM_HYL )  {
     const int meminfo = have_memory_hyp( SMINFO ) ;
-    hyp_chooser( lat , SMINFO , meminfo ) ;
+    flag = hyp_chooser( lat , SMINFO , meminfo ) ;
   } else if( SMINFO.type == SM_WFLOW_LOG || 
 	     SMINFO.type == SM_ADAPTWFLOW_LOG ||
 	     SMINFO.type == SM_WFLOW_STOUT || 
 	     SMINFO.type == SM_ADAPTWFLOW_STOUT )  {
     const int meminfo = have_memory_wf( SMINFO ) ;
     if( meminfo == GLU_FAILURE ) { return GLU_FAILURE ; }
-    hyp_chooser( lat , SMINFO , meminfo ) ;
+    flag = hyp_chooser( lat , SMINFO , meminfo ) ;
   } else {
     const int meminfo = 0 ;
-    hyp_chooser( lat , SMINFO , meminfo ) ;
+    flag = hyp_chooser( lat , SMINFO , meminfo ) ;
   }
   print_time( ) ;
-  return GLU_SUCCESS ;
+  return flag ;
 }
-- 
2.43.0


From 42bf4531fc4525f5ad9327ac5d368471ac69bbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:27 +0000
Subject: [PATCH 24/63] fix: SCIDAC records that cannot be understood were
 accepted

---
 src/IO/Scidac.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/IO/Scidac.c b/src/IO/Scidac.c
index 1f7852e..89c82f5 100755
--- a/src/IO/Scidac.c
+++ b/src/IO/Scidac.c
@@ -104,7 +104,12 @@ parse_SCIDAC_hdr( FILE *infile ,
     return GLU_EOF ; // is not end of file, but not error either
   }
   // we should be able to read the remaining data
-  char *io_data = malloc( ( i_data_length[0] + 1 ) * sizeof( char ) ) ;
+  char *io_data = NULL ;
+  if( i_data_length[0] >= SIZE_MAX ||
+      ( io_data = malloc( ( i_data_length[0] + 1 ) * sizeof( char ) ) ) == NULL ) {
+    fprintf( stderr , "[IO] record length not understood ... Leaving \n" ) ;
+    return GLU_FAILURE ;
+  }
   if( fread( io_data , sizeof( char ) , i_data_length[0] , infile ) != 
       i_data_length[0] ) {
     fprintf( stderr , "[IO] xml information reading failed ... Leaving \n" ) ;
@@ -119,6 +124,7 @@ parse_SCIDAC_hdr( FILE *infile ,
     tmp.plaquette = strtod( io_data , &endptr ) ;
     if( io_data == endptr ) {
       printf( "[IO] BQCD plaquette misread \n" ) ;
+      free( io_data ) ;
       return GLU_FAILURE ;
     }
     *HEAD_DATA = tmp ;
@@ -127,14 +133,19 @@ parse_SCIDAC_hdr( FILE *infile ,
   if( strcmp( (const char*)typebuf , "bqcd-cksum" ) == 0 ) {
     struct head_data tmp = *HEAD_DATA ;
     unsigned long int cksum ;
-    sscanf( io_data , "%lu" , &cksum ) ;
+    if( sscanf( io_data , "%lu" , &cksum ) != 1 ) {
+      printf( "[IO] BQCD checksum misread \n" ) ;
+      free( io_data ) ;
+      return GLU_FAILURE ;
+    }
     tmp.checksum = (uint32_t)cksum ;
     *HEAD_DATA = tmp ;
   }
-  parse_and_set_xml_SCIDAC( io_data , HEAD_DATA ) ;
+  const int flag = parse_and_set_xml_SCIDAC( io_data , HEAD_DATA ) ;
 
   // free for now
   free( io_data ) ;
+  if( flag == GLU_FAILURE ) return GLU_FAILURE ;
 
   // and skip the file along by "padding" amount
   if( padding > 0 ) {
-- 
2.43.0


From 5400740d9bf4b8624e99d93c8956fd4d79227852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:27 +0000
Subject: [PATCH 25/63] fix: XML tags that cannot be parsed were stored or
 overflowed the lattice

---
 src/IO/XML_info.c | 47 +++++++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/src/IO/XML_info.c b/src/IO/XML_info.c
index 9d4f381..b10f904 100755
--- a/src/IO/XML_info.c
+++ b/src/IO/XML_info.c
@@ -65,7 +65,7 @@ get_prec_tag( char *pch , const char *tag )
   // loop tokens
   while( ( pch = strtok( 0 , "<>" ) ) ) {
     if( !strncmp( pch , tmp , length+1 ) ) break ;
-    sprintf( prec , "%s" , pch ) ;
+    snprintf( prec , sizeof( prec ) , "%s" , pch ) ;
   }
   if( !strcmp( prec , "F" ) ) return FLOAT_PREC ;
   if( !strcmp( prec , "D" ) ) return DOUBLE_PREC ;
@@ -156,24 +156,23 @@ parse_and_set_xml_SCIDAC( char *xml_info ,
 
       // get the floating point output precision ...
       if( are_equal( pch , "precision" ) ) {
-	if( ( dimensions = get_prec_tag( pch , "precision" ) ) != -1 ) {
-	  if( dimensions == FLOAT_PREC ) {
-	    #ifdef verbose
-	    fprintf( stdout , "[IO] Attempting to read "
-		     "single precision data\n" ) ;
-	    #endif
-	    HEAD_DATA -> precision = FLOAT_PREC ;
-	  } else if( dimensions == DOUBLE_PREC ) {
-	    #ifdef verbose
-	    fprintf( stdout , "[IO] Attempting to read double "
-		     "precision data\n" ) ;
-	    #endif
-	    HEAD_DATA -> precision = DOUBLE_PREC ;
-	  } else {
-	    fprintf( stderr , "[IO] Precision %d not understood \n" , 
-		     dimensions ) ;
-	    return GLU_FAILURE ;
-	  }
+	dimensions = get_prec_tag( pch , "precision" ) ;
+	if( dimensions == FLOAT_PREC ) {
+	  #ifdef verbose
+	  fprintf( stdout , "[IO] Attempting to read "
+		   "single precision data\n" ) ;
+	  #endif
+	  HEAD_DATA -> precision = FLOAT_PREC ;
+	} else if( dimensions == DOUBLE_PREC ) {
+	  #ifdef verbose
+	  fprintf( stdout , "[IO] Attempting to read double "
+		   "precision data\n" ) ;
+	  #endif
+	  HEAD_DATA -> precision = DOUBLE_PREC ;
+	} else {
+	  fprintf( stderr , "[IO] Precision %d not understood \n" , 
+		   dimensions ) ;
+	  return GLU_FAILURE ;
 	}
       }
 
@@ -188,6 +187,10 @@ parse_and_set_xml_SCIDAC( char *xml_info ,
 	  Latt.dims[ idx++ ] = strtol( token , &pEnd , 10 ) ;
 	  while( ( token = strtok( NULL , " " ) ) != NULL ) {
 	    if(  ( are_equal( token , "/dims" ) ) ) break ;
+	    if( idx >= ND ) {
+	      fprintf( stderr , "[IO] more than %d dimensions read \n" , ND ) ;
+	      return GLU_FAILURE ;
+	    }
 	    Latt.dims[ idx ] = strtol( token , &pEnd , 10 ) ;
 	    idx++ ;
 	  } 
@@ -215,7 +218,11 @@ parse_and_set_xml_SCIDAC( char *xml_info ,
       int length = 0 ;
       for( mu = 0 ; mu < ND ; mu++ ) {
 	if( are_equal( pch , search[mu] ) ) {
-	  if( ( length = get_int_tag( pch , search[mu] ) ) != 0 ) {
+	  if( ( length = get_int_tag( pch , search[mu] ) ) < 0 ) {
+	    fprintf( stderr , "[IO] length %s not understood \n" , search[mu] ) ;
+	    return GLU_FAILURE ;
+	  }
+	  if( length != 0 ) {
 	    Latt.dims[ mu ] = length ;
 	  }
 	  continue ;
-- 
2.43.0


From 5e9a7b498d3219f74a507cfe50b93c2f7259c70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:46 +0000
Subject: [PATCH 26/63] fix: missing input tags were used as index -1, UNIT
 ignored missing dimensions

---
 src/IO/input_reader.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/IO/input_reader.c b/src/IO/input_reader.c
index 28ccc58..99066f4 100755
--- a/src/IO/input_reader.c
+++ b/src/IO/input_reader.c
@@ -158,6 +158,7 @@ static int
 config_information( char *details )
 {
   const int details_idx = tag_search( "CONFIG_INFO" ) ;
+  if( details_idx == GLU_FAILURE ) { return tag_failure( "CONFIG_INFO" ) ; }
   sprintf( details , "%s" , INPUT[details_idx].VALUE ) ;
   return GLU_SUCCESS ;
 }
@@ -303,7 +304,7 @@ header_type( header_mode *HEADINFO )
     } else if( are_equal( INPUT[header_idx].VALUE , "UNIT" ) ) {
       fprintf( stdout , "[IO] Attempting to generate an %dx%d UNIT config \n" 
 	       , NC , NC ) ;
-      read_random_lattice_info( ) ;
+      if( read_random_lattice_info( ) == GLU_FAILURE ) return GLU_FAILURE ;
       *HEADINFO = UNIT_GAUGE ;
     } else if( are_equal( INPUT[header_idx].VALUE , "INSTANTON" ) ) {
       fprintf( stdout , "[IO] Attempting to generate a SU(%d) BPST "
@@ -512,6 +513,7 @@ static GLU_bool
 rtrans( void )
 {
   const int rtrans_idx = tag_search( "RANDOM_TRANSFORM" ) ;
+  if( rtrans_idx == GLU_FAILURE ) return GLU_FALSE ;
   if( are_equal( INPUT[rtrans_idx].VALUE , "YES" ) ) return GLU_TRUE ;
   return GLU_FALSE ;
 }
@@ -626,7 +628,9 @@ get_input_data( struct infile_data *INFILE ,
   }
 
   // put the config info 
-  config_information( INFILE -> output_details ) ;
+  if( config_information( INFILE -> output_details ) == GLU_FAILURE ) {
+    INPUT_FAILS++ ;
+  }
 
   // poke in some heatbath related things
   INFILE -> HBINFO.continuation = GLU_FALSE ;
-- 
2.43.0


From e4b8eddb09fd1bb4306a3f252ec315e6dea32d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:16 +0000
Subject: [PATCH 27/63] fix: quenched U(1) ignored a failed RNG initialisation

---
 src/U1/SUNCxU1_config.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/U1/SUNCxU1_config.c b/src/U1/SUNCxU1_config.c
index a9025d2..4e1c084 100755
--- a/src/U1/SUNCxU1_config.c
+++ b/src/U1/SUNCxU1_config.c
@@ -205,7 +205,9 @@ suNC_cross_u1( struct site *lat ,
   start_timer( ) ;
 
   // initialise the rng
-  initialise_par_rng( NULL ) ;
+  if( initialise_par_rng( NULL ) == GLU_FAILURE ) {
+    return GLU_FAILURE ;
+  }
 
   struct fftw_stuff FFTW ;
   create_plans_DFT( &FFTW , Latt.dims , ND , ND ) ;
-- 
2.43.0


From 867437cfbc4ee7bfdc450d9cbe3c2985f9a93293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:20 +0000
Subject: [PATCH 28/63] fix: long input files overflowed the tag table

---
 src/IO/input_reader.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/IO/input_reader.c b/src/IO/input_reader.c
index 99066f4..7afe08a 100755
--- a/src/IO/input_reader.c
+++ b/src/IO/input_reader.c
@@ -47,14 +47,19 @@ static struct inputs *INPUT = NULL ;
 static int NTAGS = 0 ;
 
 // allocate the input file struct
-static void 
+static int
 pack_inputs( FILE *setup )
 {
   INPUT = ( struct inputs* )calloc( INPUTS_LENGTH , sizeof( struct inputs ) ) ;
-  // and put into the buffer
-  while( NTAGS++ , fscanf( setup , "%s = %s" , INPUT[ NTAGS ].TOKEN , 
-			   INPUT[ NTAGS ].VALUE )  != EOF ) { }
-  return ;
+  if( INPUT == NULL ) { return GLU_FAILURE ; }
+  // and put into the buffer, the widths are GLU_STR_LENGTH - 1
+  while( ++NTAGS < INPUTS_LENGTH ) {
+    if( fscanf( setup , "%63s = %63s" , INPUT[ NTAGS ].TOKEN , 
+		INPUT[ NTAGS ].VALUE ) == EOF ) { return GLU_SUCCESS ; }
+  }
+  fprintf( stderr , "[IO] more than %d tags in the input file\n" ,
+	   INPUTS_LENGTH - 1 ) ;
+  return GLU_FAILURE ;
 }
 
 // frees up the struct
@@ -595,7 +600,11 @@ get_input_data( struct infile_data *INFILE ,
   }
 
   // if we can open the file we push it into a big structure
-  pack_inputs( infile ) ;
+  if( pack_inputs( infile ) == GLU_FAILURE ) {
+    fclose( infile ) ;
+    unpack_inputs( ) ;
+    return GLU_FAILURE ;
+  }
 
   int INPUT_FAILS = 0 ; // counter for the number of failures
 
-- 
2.43.0


From 6c825fbac577b8ce548257df758f74a650c20f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:38 +0000
Subject: [PATCH 29/63] fix: header values that cannot be parsed were accepted

---
 src/IO/XML_info.c     |  5 ++++-
 src/IO/chklat_stuff.c | 16 +++++++++++-----
 src/IO/input_reader.c |  4 +++-
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/IO/XML_info.c b/src/IO/XML_info.c
index b10f904..48803bb 100755
--- a/src/IO/XML_info.c
+++ b/src/IO/XML_info.c
@@ -204,7 +204,10 @@ parse_and_set_xml_SCIDAC( char *xml_info ,
       if( are_equal( pch , "suma" ) ) {
 	while( ( pch = strtok( 0 , "<>" ) ) ) {
 	  if( are_equal( pch , "/suma" ) ) break ;
-	  sscanf( pch , "%x" , &(HEAD_DATA -> checksum) ) ;
+	  if( sscanf( pch , "%x" , &(HEAD_DATA -> checksum) ) != 1 ) {
+	    fprintf( stderr , "[IO] checksum %s not understood \n" , pch ) ;
+	    return GLU_FAILURE ;
+	  }
 	}
 	continue ;
       }
diff --git a/src/IO/chklat_stuff.c b/src/IO/chklat_stuff.c
index 5305d68..9799d9a 100755
--- a/src/IO/chklat_stuff.c
+++ b/src/IO/chklat_stuff.c
@@ -57,7 +57,9 @@ get_float( char *s ,
   if( p == NULL ) {
     return ( GLU_FAILURE ) ;
   }
-  sscanf( p , "%f" , q ) ;
+  if( sscanf( p , "%f" , q ) != 1 ) {
+    return GLU_FAILURE ;
+  }
   return GLU_SUCCESS ;
 }
 
@@ -72,7 +74,9 @@ get_int( char *s ,
   if( p == NULL ) {
     return ( GLU_FAILURE ) ;
   }
-  sscanf( p , "%d" , q ) ;
+  if( sscanf( p , "%d" , q ) != 1 ) {
+    return GLU_FAILURE ;
+  }
   return GLU_SUCCESS ;
 }
 
@@ -87,7 +91,9 @@ get_size_t( char *s ,
   if( p == NULL ) {
     return ( GLU_FAILURE ) ;
   }
-  sscanf( p , "%zu" , q ) ;
+  if( sscanf( p , "%zu" , q ) != 1 ) {
+    return GLU_FAILURE ;
+  }
   return GLU_SUCCESS ;
 }
 
@@ -170,10 +176,10 @@ get_uint32_t( char *s ,
   if( p == NULL ) { return GLU_FAILURE ; }
 
 #ifdef INTS_ARE_32BIT
-  sscanf( p , "%x" , q ) ;
+  if( sscanf( p , "%x" , q ) != 1 ) { return GLU_FAILURE ; }
 #else
   uint32_t j ;
-  sscanf( p , "%x" , &j ) ;
+  if( sscanf( p , "%x" , &j ) != 1 ) { return GLU_FAILURE ; }
   *q = (uint32_t) j ;
 #endif
   return GLU_SUCCESS;
diff --git a/src/IO/input_reader.c b/src/IO/input_reader.c
index 7afe08a..a3fd496 100755
--- a/src/IO/input_reader.c
+++ b/src/IO/input_reader.c
@@ -195,7 +195,9 @@ get_mode( GLU_mode *mode )
   {
     const int seed_idx = tag_search( "SEED" ) ;
     if( seed_idx == GLU_FAILURE ) { return tag_failure( "SEED" ) ; }
-    sscanf( INPUT[seed_idx].VALUE , "%u" , &Latt.Seed[0] ) ;
+    if( sscanf( INPUT[seed_idx].VALUE , "%u" , &Latt.Seed[0] ) != 1 ) {
+      return tag_failure( "SEED" ) ;
+    }
   }
   return GLU_SUCCESS ;
 }
-- 
2.43.0


From 875a43e423a4ccc64a63b3de91841ccc04164e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:43 +0000
Subject: [PATCH 30/63] fix: cached momentum lists ignored failed reads and
 writes

---
 src/Cuts/MOMggg.c         | 10 ++++----
 src/Cuts/cut_routines.c   | 38 ++++++++++++++++++++++-------
 src/Cuts/triplet_gen.c    | 50 ++++++++++++++++++++++++++++++++-------
 src/Matrix_Ops/lie_mats.c | 43 ++++++++++++++++++++++-----------
 4 files changed, 107 insertions(+), 34 deletions(-)

diff --git a/src/Cuts/MOMggg.c b/src/Cuts/MOMggg.c
index cc2e74a..8712a32 100755
--- a/src/Cuts/MOMggg.c
+++ b/src/Cuts/MOMggg.c
@@ -94,17 +94,19 @@ write_nonexceptional_g2g3( FILE *__restrict Ap ,
   size_t checker = 0 ;
 
   // look for a file or just calculate it the dumb way
-  read_trip( trip , nnmax ) ;
+  flag = read_trip( trip , nnmax ) ;
 
   size_t nn ;
   size_t counter[ 1 ] = { 1 } ;
-  for( nn = 0 ; nn < nnmax/2 ; nn++ ) {
-    counter[ 0 ] += trip[ nn ] ;
+  if( flag != GLU_FAILURE ) {
+    for( nn = 0 ; nn < nnmax/2 ; nn++ ) {
+      counter[ 0 ] += trip[ nn ] ;
+    }
   }
   
   // set this up so that it will never be altered, important.
   const size_t count = counter[ 0 ]  ;
-  if( count == 0 ) { 
+  if( count == 0 || flag == GLU_FAILURE ) { 
     flag = GLU_FAILURE ;
     goto memfree ;
   }
diff --git a/src/Cuts/cut_routines.c b/src/Cuts/cut_routines.c
index 8497415..25c59f8 100755
--- a/src/Cuts/cut_routines.c
+++ b/src/Cuts/cut_routines.c
@@ -547,6 +547,12 @@ compute_veclist( size_t *__restrict list_size ,
     fprintf( stdout , "[CUTS] Storing Momentum list @@@ ...\n%s\n" , str ) ;
 
     FILE *config2 = fopen( str , "wb" ) ;
+    if( config2 == NULL ) {
+      fprintf( stderr , "[CUTS] cut file cannot be written\n" ) ;
+      *list_size = 0 ;
+      free( str ) ;
+      return NULL ;
+    }
 
     struct veclist *kept = malloc( LOOP * sizeof( struct veclist ) ) ;
     if( CONFIGSPACE == GLU_TRUE ) {
@@ -560,27 +566,43 @@ compute_veclist( size_t *__restrict list_size ,
       fprintf( stderr , "[CUTS] Empty Momentum list .. Leaving\n" ) ;
       *list_size = 0 ;
       free( kept ) ;
+      // do not leave an empty list for the next run
+      fclose( config2 ) ;
+      remove( str ) ;
       free( str ) ;
       return NULL ;
     }
 
-    // write out the length of the array first
-    fwrite( in , sizeof(int) , 1 , config2 ) ;
-     
     list = malloc( in[0] * sizeof( struct veclist) ) ;
     #pragma omp parallel for private(i)
     for( i = 0 ; i < in[0] ; i ++  ) {
       memcpy( &list[i] , &kept[i] , sizeof( struct veclist ) )  ;
     }
 
-    // and write it out again
-    fwrite( list , sizeof( struct veclist ) , in[0]  , config2 ) ;
-    fclose( config2 ) ;
-
     free( kept ) ; 
+
+    // write out the length of the array first and then the list
+    const int written = 
+      fwrite( in , sizeof(int) , 1 , config2 ) == 1 &&
+      fwrite( list , sizeof( struct veclist ) , in[0]  , config2 ) == in[0] ;
+    if( fclose( config2 ) != 0 || !written ) {
+      fprintf( stderr , "[CUTS] cut file cannot be written\n" ) ;
+      remove( str ) ;
+      *list_size = 0 ;
+      free( list ) ;
+      free( str ) ;
+      return NULL ;
+    }
   }
   // reopen the file
   config = fopen( str , "rb" ) ;
+  if( config == NULL ) {
+    fprintf( stderr , "[CUTS] cut file cannot be read\n" ) ;
+    *list_size = 0 ;
+    free( list ) ;
+    free( str ) ;
+    return NULL ;
+  }
   // malloc list if not already done so
   int check = fread( in , sizeof(int) , 1 , config ) ;
   if( check != 1 ) {
@@ -595,7 +617,7 @@ compute_veclist( size_t *__restrict list_size ,
     list = ( struct veclist* )malloc( in[0] * sizeof( struct veclist ) ) ;
   }
   check = fread( list , sizeof(struct veclist) , in[0] , config ) ;
-  if( check == 0 ) {
+  if( check == 0 || check != in[0] ) {
     fprintf( stderr , "[CUTS] Empty Momentum list ... Leaving\n" ) ;
     fclose( config ) ;
     *list_size = 0 ;
diff --git a/src/Cuts/triplet_gen.c b/src/Cuts/triplet_gen.c
index b8b9105..8be6e93 100755
--- a/src/Cuts/triplet_gen.c
+++ b/src/Cuts/triplet_gen.c
@@ -504,14 +504,24 @@ read_trip( int *__restrict trip ,
     fprintf( stdout , "[CUTS] Storing Trip list @@@ ...\n%s\n",str) ;
     // write to a file 
     FILE *tripfile2 = fopen( str , "wb" ) ;
-    fwrite( trip , sizeof(int) , nn , tripfile2 ) ;
-    fclose( tripfile2 ) ;
+    if( tripfile2 == NULL ) {
+      free( str ) ;
+      return GLU_FAILURE ;
+    }
+    const int written = fwrite( trip , sizeof(int) , nn , tripfile2 ) == nn ;
+    if( fclose( tripfile2 ) != 0 || !written ) {
+      remove( str ) ;
+      free( str ) ;
+      return GLU_FAILURE ;
+    }
   }
   // otherwise we read it in ...
   tripfile = fopen( str , "rb" ) ;
-  if( fread( trip , sizeof( int ) , nn , tripfile ) != nn ) return GLU_FAILURE ; 
-  fclose( tripfile) ;
   free( str ) ;
+  if( tripfile == NULL ) return GLU_FAILURE ;
+  const int success = fread( trip , sizeof( int ) , nn , tripfile ) == nn ;
+  fclose( tripfile ) ;
+  if( !success ) return GLU_FAILURE ; 
 
 #else
   get_trip( trip , nnmax ) ;
@@ -564,6 +574,11 @@ read_triplet_and_proj( int *__restrict *__restrict triplet ,
     init_delta( ) ;
     // open a temporary file
     FILE *config2 = fopen( str , "wb" ) ;
+    if( config2 == NULL ) {
+      free_delta( ) ;
+      free( str ) ;
+      return GLU_FAILURE ;
+    }
 
     fprintf( stdout , "[CUTS] Storing Triplet and Proj list @@@ ...\n%s\n" ,
 	     str ) ;
@@ -588,18 +603,26 @@ read_triplet_and_proj( int *__restrict *__restrict triplet ,
       return GLU_FAILURE ;
     }
     // write out "triple" our triplet
+    int written = 1 ;
     for( i = 0 ; i < count ; i++ ) {
-      fwrite( triple[i] , sizeof(int) , 3 , config2 ) ;
+      if( fwrite( triple[i] , sizeof(int) , 3 , config2 ) != 3 ) {
+	written = 0 ;
+      }
     }
     fprintf( stdout , "[CUTS] Computing projector ... \n" ) ;
     // compute our projector 
     compute_projector( triple , proj , momentum , count ) ;
     // I want to write the projector here too
     for( i = 0 ; i < count ; i++ ) {
-      fwrite( proj[i] , sizeof( double ) , ND * ND * ND , config2 ) ;
+      if( fwrite( proj[i] , sizeof( double ) , ND * ND * ND , config2 )
+	  != ND * ND * ND ) {
+	written = 0 ;
+      }
     }
     // close the temporary file
-    fclose( config2 ) ;
+    if( fclose( config2 ) != 0 ) {
+      written = 0 ;
+    }
     free_delta( ) ;
     // free the temporary triplet "triple"
     #pragma omp parallel for private(i)
@@ -607,12 +630,23 @@ read_triplet_and_proj( int *__restrict *__restrict triplet ,
       free( triple[i] ) ;
     }
     free( triple ) ; 
+    // do not leave an incomplete list for the next run
+    if( !written ) {
+      remove( str ) ;
+      free( str ) ;
+      return GLU_FAILURE ;
+    }
   }
 
   // (re)open the file to read the triplet and the projector 
   config = fopen( str , "rb" ) ;
+  free( str ) ;
+  if( config == NULL ) {
+    return GLU_FAILURE ;
+  }
   for( i = 0 ; i < count ; i++ ) {
     if( fread( triplet[i] , sizeof( int ) , 3 , config ) != 3 ) { 
+      fclose( config ) ;
       return GLU_FAILURE ; 
     }
   }
@@ -620,12 +654,12 @@ read_triplet_and_proj( int *__restrict *__restrict triplet ,
   for( i = 0 ; i < count ; i++ ) {
     if( fread( proj[i] , sizeof( double ) , ND * ND * ND , config )
 	!= ND * ND * ND ) {
+      fclose( config ) ;
       return GLU_FAILURE ; 
     }
   }
   // and close the file 
   fclose( config ) ;
-  free( str ) ;
 #else
   // initialise the delta
   init_delta( ) ;
diff --git a/src/Matrix_Ops/lie_mats.c b/src/Matrix_Ops/lie_mats.c
index b344bea..6261789 100755
--- a/src/Matrix_Ops/lie_mats.c
+++ b/src/Matrix_Ops/lie_mats.c
@@ -285,23 +285,38 @@ compute_fs_and_ds( void )
     fprintf( stdout , "[LIE] File not found. Writing one.\n" ) ; 
     actually_compute_fs_and_ds( ) ;
     // write them out
-    fabc_dabc = fopen( str , "wb" ) ;
-    int temp[1] = { fcount } ;
-    fwrite( temp , sizeof( int ) , 1 , fabc_dabc ) ;
-    temp[0] = dcount ;
-    fwrite( temp , sizeof( int ) , 1 , fabc_dabc ) ;
-    fwrite( f , sizeof( struct struc_func ) , fcount , fabc_dabc ) ;
-    fwrite( d , sizeof( struct struc_func ) , dcount , fabc_dabc ) ;
+    if( ( fabc_dabc = fopen( str , "wb" ) ) == NULL ) {
+      fprintf( stderr , "[LIE] File (%s) cannot be written\n" , str ) ;
+      return ;
+    }
+    const int written = 
+      fwrite( &fcount , sizeof( int ) , 1 , fabc_dabc ) == 1 &&
+      fwrite( &dcount , sizeof( int ) , 1 , fabc_dabc ) == 1 &&
+      fwrite( f , sizeof( struct struc_func ) , fcount , fabc_dabc ) == fcount &&
+      fwrite( d , sizeof( struct struc_func ) , dcount , fabc_dabc ) == dcount ;
+    // do not leave an incomplete file for the next run
+    if( fclose( fabc_dabc ) != 0 || !written ) {
+      fprintf( stderr , "[LIE] File (%s) cannot be written\n" , str ) ;
+      remove( str ) ;
+    }
   } else {
     fprintf( stdout , "[LIE] File found (%s) ... Reading it \n" , str ) ; 
-    if( fread( &fcount , sizeof( int ) , 1 , fabc_dabc ) != 1 ) return ;
-    if( fread( &dcount , sizeof( int ) , 1 , fabc_dabc ) != 1 ) return ;
-    f = ( struct struc_func* )malloc( fcount * sizeof( struct struc_func ) ) ;
-    d = ( struct struc_func* )malloc( dcount * sizeof( struct struc_func ) ) ;
-    if( fread( f , sizeof( struct struc_func ) , fcount , fabc_dabc ) != fcount ) return ;
-    if( fread( d , sizeof( struct struc_func ) , dcount , fabc_dabc ) != dcount ) return ;
+    int success = 0 ;
+    if( fread( &fcount , sizeof( int ) , 1 , fabc_dabc ) == 1 &&
+	fread( &dcount , sizeof( int ) , 1 , fabc_dabc ) == 1 ) {
+      f = ( struct struc_func* )malloc( fcount * sizeof( struct struc_func ) ) ;
+      d = ( struct struc_func* )malloc( dcount * sizeof( struct struc_func ) ) ;
+      success = 
+	fread( f , sizeof( struct struc_func ) , fcount , fabc_dabc ) == fcount &&
+	fread( d , sizeof( struct struc_func ) , dcount , fabc_dabc ) == dcount ;
+    }
+    fclose( fabc_dabc ) ;
+    if( !success ) {
+      free( f ) ; free( d ) ;
+      f = NULL ; d = NULL ; fcount = dcount = 0 ;
+      actually_compute_fs_and_ds( ) ;
+    }
   }
-  fclose( fabc_dabc ) ;
 #else // wrap to the computation
   actually_compute_fs_and_ds( ) ;
 #endif 
-- 
2.43.0


From 9e7aeb4bc45943c73862a2e1d721d102654b0158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:43 +0000
Subject: [PATCH 31/63] fix: luxury gauge fixing dropped failures, an
 unavailable instanton was accepted

---
 src/Gfix/Landau.c    | 24 +++++++++++++++++++++---
 src/IO/read_config.c |  3 +--
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/Gfix/Landau.c b/src/Gfix/Landau.c
index dc8bc95..13ef6bc 100755
--- a/src/Gfix/Landau.c
+++ b/src/Gfix/Landau.c
@@ -95,7 +95,7 @@ luxury_copy_fast( struct site *lat ,
 		  const double acc ,
 		  const size_t max_iters ) 
 {
-  size_t i , iters = 0 , copies ;
+  size_t i , iters = 0 , copies , accepted = 0 ;
 
   struct site *lat_copy = NULL , *lat_best = NULL ;
   GLU_complex **gauge = NULL ;
@@ -104,6 +104,7 @@ luxury_copy_fast( struct site *lat ,
   if( GLU_malloc( (void**)&gauge , 16 , LVOLUME * sizeof( GLU_complex* ) ) != 0 ) {
     fprintf( stderr , "[GF] luxury copy fast failed to allocate "
 	     "temporary gauge\n" ) ;
+    iters = GLU_FAILURE ;
     goto memfree ;
   }
 #pragma omp parallel for private(i)
@@ -115,6 +116,7 @@ luxury_copy_fast( struct site *lat ,
   if( ( lat_copy = allocate_lat( ) ) == NULL ||
       ( lat_best = allocate_lat( ) ) == NULL ) {
     fprintf( stderr , "[GF] luxury gauge temporary allocation failure\n" ) ;
+    iters = GLU_FAILURE ;
     goto memfree ;
   }
 
@@ -148,6 +150,9 @@ luxury_copy_fast( struct site *lat ,
     #else
     iters = FACG( lat_copy , FFTW , tr , tempacc , max ) ; 
     #endif
+    if( iters == (size_t)GLU_FAILURE ) {
+      goto memfree ;
+    }
     
     // compute the link , wrap this to the functional?
     newlink = gauge_functional( lat_copy ) ;
@@ -161,6 +166,7 @@ luxury_copy_fast( struct site *lat ,
     #endif
       {
 	maxlink = newlink ;
+	accepted++ ;
 	fprintf( stdout , " -> Copy accepted\n" ) ;
 	// copy our lattice fields
         #pragma omp parallel for private(i)
@@ -177,6 +183,12 @@ luxury_copy_fast( struct site *lat ,
   }
 
  
+  // no copy converged, let the caller restart
+  if( accepted == 0 ) {
+    iters = 123456789 ;
+    goto memfree ;
+  }
+
   // set our lattice to our chosen copy
 #pragma omp parallel for private(i)
   for( i = 0 ; i < LVOLUME ; i++ ) {
@@ -188,10 +200,16 @@ luxury_copy_fast( struct site *lat ,
   
   // final convergence run god I hope this one doesn't fail! Pretty unlikely
   #ifdef GLU_GFIX_SD
-  iters += FASD( lat , FFTW , tr , acc , max_iters ) ; 
+  const size_t last = FASD( lat , FFTW , tr , acc , max_iters ) ; 
   #else
-  iters += FACG( lat , FFTW , tr , acc , max_iters ) ; 
+  const size_t last = FACG( lat , FFTW , tr , acc , max_iters ) ; 
   #endif
+  // a failure must reach the caller as it is
+  if( last == (size_t)GLU_FAILURE || last == 123456789 ) {
+    iters = last ;
+  } else {
+    iters += last ;
+  }
   
   printf( "FINISHED\n" ) ;
 
diff --git a/src/IO/read_config.c b/src/IO/read_config.c
index c9d5f2b..df3a670 100755
--- a/src/IO/read_config.c
+++ b/src/IO/read_config.c
@@ -174,8 +174,7 @@ get_config_SUNC( FILE *__restrict CONFIG ,
     trivial( lat ) ;
     return GLU_SUCCESS ;
   case INSTANTON :
-    instanton_config( lat ) ;
-    return GLU_SUCCESS ;
+    return instanton_config( lat ) ;
   default : 
     fprintf( stderr , "[IO] Unrecognised HEADER type .. Leaving \n" ) ;
     return GLU_FAILURE ;
-- 
2.43.0


From c7d8abeaad3235f93516d5998d819fb7878419ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:59 +0000
Subject: [PATCH 32/63] fix: failed FACG/FASD runs raced on the iteration
 count, FASD failures were lost

---
 src/Gfix/FACG.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/Gfix/FACG.c b/src/Gfix/FACG.c
index d5b7513..75a73bd 100755
--- a/src/Gfix/FACG.c
+++ b/src/Gfix/FACG.c
@@ -369,11 +369,6 @@ FACG( struct site *lat ,
     loc_iters = steep_Landau_FACG( lat , FFTW , &CG , th ,
 				   acc , max_iters ) ;
 
-    #pragma omp master
-    {
-      iters = loc_iters ;
-    }
-    
     if( loc_iters >= max_iters ) {
       if( ( *th < 1E3*acc ) ) {
 	#pragma omp master
@@ -382,9 +377,14 @@ FACG( struct site *lat ,
 	}
 	goto top ;
       } else {
-	iters = 123456789 ;
+	loc_iters = 123456789 ;
       }
     }
+
+    #pragma omp master
+    {
+      iters = loc_iters ;
+    }
   }
 
  end :
@@ -434,12 +434,16 @@ FASD( struct site *lat ,
 	}
 	goto top ;
       } else {
-	iters = 123456789 ;
+	loc_iters = 123456789 ;
       }
     }
 #pragma omp master
     {
-      iters += loc_iters ;
+      if( loc_iters == 123456789 ) {
+	iters = loc_iters ;
+      } else {
+	iters += loc_iters ;
+      }
     }
   }
 
-- 
2.43.0


From ed6752286eff01e6b979cadbf91c32a3527d3375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:18 +0000
Subject: [PATCH 33/63] fix: smear4D ran the final copy-back in a nested
 parallel region on every thread

---
 src/Smear/smear.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Smear/smear.c b/src/Smear/smear.c
index 64a30f1..c9c85e7 100755
--- a/src/Smear/smear.c
+++ b/src/Smear/smear.c
@@ -335,7 +335,7 @@ smear4D( struct site *__restrict lat ,
       const size_t behind2 = lat[ behind ].back[ ND-1 ] ;
       #endif
 
-      #pragma omp parallel for private(i)
+      #pragma omp for private(i)
       for( i = 0 ; i < LCU ; i++ ) {
 	register const size_t back = behind + i ;
 	register const size_t it = slice + i ;
-- 
2.43.0


From c802b7f26ee6901bc80bc52d975b2ce435201c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:44 +0000
Subject: [PATCH 34/63] fix: spatial_correlator shared its inner loop index
 between threads

---
 src/Cuts/config_gluons.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Cuts/config_gluons.c b/src/Cuts/config_gluons.c
index 8cdfc2f..0a94667 100755
--- a/src/Cuts/config_gluons.c
+++ b/src/Cuts/config_gluons.c
@@ -140,6 +140,7 @@ spatial_correlator( struct site *__restrict A ,
 #pragma omp parallel for private(i)
   for( i = 0 ; i < LVOLUME ; i++ ) {
     GLU_complex tr , sum = 0.0 ;
+    size_t mu ;
     #ifdef CUT_FORWARD
     FFTW.out[i] = 0 ;
     #else
-- 
2.43.0


From da811da72ce0f0756acecab8739a162664bec8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:44 +0000
Subject: [PATCH 35/63] fix: theta_test_lin/log compared and stored the maximum
 without holding the lock

---
 src/Gfix/gftests.c | 52 +++++++---------------------------------------
 1 file changed, 8 insertions(+), 44 deletions(-)

diff --git a/src/Gfix/gftests.c b/src/Gfix/gftests.c
index a3eccc5..e38f26b 100755
--- a/src/Gfix/gftests.c
+++ b/src/Gfix/gftests.c
@@ -25,12 +25,6 @@
 #include "lin_derivs.h" // Hermitian approximation derivatives
 #include "log_derivs.h" // Logarithmic field definition derivatives
 
-// the one with the openmp locks, just an excuse to try this out to be honest
-#if ( defined HAVE_OMP_H ) && ( defined _OPENMP )
-   #define GLU_OMP_MEAS
-   #include <omp.h>
-#endif
-
 // look at constant-ness of our gauge fields in all directions
 void
 const_time( const struct site *__restrict lat ,
@@ -219,11 +213,8 @@ theta_test_lin( const struct site *__restrict lat ,
   double tr = 0. ; 
   size_t i ; 
   *max = 0. ;
-  #ifdef GLU_OMP_MEAS
-  omp_lock_t writelock ;
-  omp_init_lock( &writelock ) ;
-  #endif
-#pragma omp parallel for private(i) reduction(+:tr)
+  GLU_real big = 0. ;
+#pragma omp parallel for private(i) reduction(+:tr) reduction(max:big)
   for( i = 0 ; i < LVOLUME ; i++ ) {
     GLU_complex temp[ HERMSIZE ] ;
     size_t mu ;
@@ -233,19 +224,9 @@ theta_test_lin( const struct site *__restrict lat ,
     register double res = latt_deriv_AntiHermitian_proj( temp , lat , 
 							 i , MAX_DIR ) ; 
     tr = tr + (double)res ; 
-    #ifdef GLU_OMP_MEAS
-    if( res > *max ) { 
-      omp_set_lock( &writelock ) ;
-      *max = res ;
-      omp_unset_lock( &writelock ) ;
-    } 
-    #else
-    if( res > *max ) { *max = res ; } 
-    #endif
+    if( res > big ) { big = res ; } 
   }
-  #ifdef GLU_OMP_MEAS
-  omp_destroy_lock( &writelock ) ;
-  #endif
+  *max = big ;
   return 2. * tr / (double)( NC * LVOLUME ) ;
 }
 
@@ -258,11 +239,8 @@ theta_test_log( const struct site *__restrict lat ,
   double tr = 0. ; 
   size_t i ; 
   *max = 0. ; 
-  #ifdef GLU_OMP_MEAS
-  omp_lock_t writelock ;
-  omp_init_lock( &writelock ) ;
-  #endif
-  #pragma omp parallel for private(i) reduction(+:tr) 
+  GLU_real big = 0. ;
+  #pragma omp parallel for private(i) reduction(+:tr) reduction(max:big) 
   for( i = 0 ; i < LVOLUME ; i++ ) {
     GLU_complex temp[ HERMSIZE ] ; 
     size_t mu ;
@@ -273,23 +251,9 @@ theta_test_log( const struct site *__restrict lat ,
     register const double res = log_deriv( temp , &functional , lat ,
 					   i , MAX_DIR ) ; 
     tr = tr + (double)res ; 
-    #ifdef GLU_OMP_MEAS
-    if( res > *max ) { 
-      omp_set_lock( &writelock ) ;
-      *max = res ;
-      omp_unset_lock( &writelock ) ;
-    } 
-    #else
-    if( res > *max ) { *max = res ; } 
-    #endif
+    if( res > big ) { big = res ; } 
   }
-  #ifdef GLU_OMP_MEAS
-  omp_destroy_lock( &writelock ) ;
-  #endif
+  *max = big ;
   return 2. * tr / ( NC * LVOLUME ) ; 
 }
 
-// and clean it up
-#ifdef GLU_OMP_MEAS
-  #undef GLU_OMP_MEAS
-#endif
-- 
2.43.0


From de8fda081713004fd395238beb7a5284da8315a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:07 +0000
Subject: [PATCH 36/63] fix: heatbath saves could record the previous
 trajectory number

---
 src/Update/KPHB.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Update/KPHB.c b/src/Update/KPHB.c
index 71e3f68..c5b071a 100644
--- a/src/Update/KPHB.c
+++ b/src/Update/KPHB.c
@@ -238,7 +238,8 @@ hb_update( struct site *lat ,
       // perform a hb-OR step
       update_lattice( lat , inverse_beta , db , HBINFO.Nor ) ;
 
-      #pragma omp master
+      // the next save reads this, so everybody waits for it
+      #pragma omp single
       {
 	Latt.flow = i + 1 ; 
       }
-- 
2.43.0


From f44815f95e35cbe294b6a8d60b607da1a142dc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:20 +0000
Subject: [PATCH 37/63] fix: CFACG threads could disagree on whether a solution
 is adequate and deadlock

---
 src/Gfix/CFACG.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/Gfix/CFACG.c b/src/Gfix/CFACG.c
index 62775b5..2d71045 100755
--- a/src/Gfix/CFACG.c
+++ b/src/Gfix/CFACG.c
@@ -432,10 +432,22 @@ steep_step_FASD( GLU_complex **gauge ,
 // test the gauge transformation solution
 static GLU_bool
 adequate_solution( GLU_complex **slice_gauge , 
+		   double *red ,
 		   const size_t iters ) 
 {
+  // every thread has to come to the same conclusion
   GLU_bool failure = GLU_TRUE ;
-  size_t i ;
+  size_t i , k ;
+
+  // wait for anybody still using the reduction array
+  {
+    #pragma omp barrier
+  }
+#pragma omp for private(k)
+  for( k = 0 ; k < CLINE*Latt.Nthreads ; k++ ) {
+    red[ LINE_NSTEPS + k ] = 0.0 ;
+  }
+  
 #pragma omp for private(i)
   for( i = 0 ; i < LCU ; i++ ) {
 
@@ -450,9 +462,17 @@ adequate_solution( GLU_complex **slice_gauge ,
       sum += *p * ( *p ) ; p++ ; // im^2
     }
     if( fabs( sum - NC ) > iters*PREC_TOL ) {
+      red[ LINE_NSTEPS + CLINE*get_GLU_thread() ] = 1.0 ;
+    }
+  }
+  for( k = 0 ; k < Latt.Nthreads ; k++ ) {
+    if( red[ LINE_NSTEPS + CLINE*k ] > 0.0 ) {
       failure = GLU_FALSE ;
     }
   }
+  {
+    #pragma omp barrier
+  }
   return failure ;
 }
 
@@ -486,7 +506,7 @@ steep_fix( GLU_complex **gauge ,
     
     // quick test for unitarity of our gauge transformation matrices
     if( tr < accuracy ) {
-      if( adequate_solution( gauge , loc_iters > 0 ? loc_iters : 1 ) 
+      if( adequate_solution( gauge , CG.red , loc_iters > 0 ? loc_iters : 1 ) 
 	  == GLU_FALSE ) {
 	trans_flag = GLU_TRUE ;
       }
-- 
2.43.0


From 773f881bad513a412d789410cec555fab04f925a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:04 +0000
Subject: [PATCH 38/63] fix: topological charge density was left uninitialised
 when ND is not 4

---
 src/Field/clover.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Field/clover.c b/src/Field/clover.c
index 6cec5a5..e197fea 100755
--- a/src/Field/clover.c
+++ b/src/Field/clover.c
@@ -926,6 +926,9 @@ compute_q( GLU_complex q[ NCNC ] ,
   #endif
   // compute the product of G_MUNU_1 with G_MUNU_2
   multab( q , GMUNU_1 , GMUNU_2 ) ;
+#else
+  // there is no topological charge density in this dimension
+  zero_mat( q ) ;
 #endif
   return ;
 }
@@ -979,6 +982,9 @@ compute_Gmunu_kernel( double *__restrict plaq_t ,
   *plaq_sp = 2.0 * ( (double)NC - (double)trace( sum_1 ) ) ;
   *plaq_t  = 2.0 * ( (double)NC - (double)trace( sum_2 ) ) ;
 #endif
+#else
+  // there is no topological charge density in this dimension
+  *plaq_t = *plaq_sp = *qtop = 0.0 ;
 #endif
   return ;
 }
-- 
2.43.0


From 994f8be0078da99ecceb48f98c84d9ffdd8fa6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:04 +0000
Subject: [PATCH 39/63] fix: slab susceptibility without FFTW summed into a
 shared variable from all threads

---
 src/Field/Qslab.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Field/Qslab.c b/src/Field/Qslab.c
index bc461cd..001ddd5 100644
--- a/src/Field/Qslab.c
+++ b/src/Field/Qslab.c
@@ -155,7 +155,7 @@ compute_slabs( const GLU_complex *qtop ,
       }
       // perform convolution the dumb way
       #else
-      #pragma omp parallel for private(i)
+      #pragma omp parallel for private(i) reduction(+:sum_slab)
       for( i = 0 ; i < subvol ; i++ ) {
 	const size_t src = slab_idx( i , dims , SLAB_DIR , T0 ) ;
 	const double qsrc = qtop[ src ] ;
-- 
2.43.0


From b45a1cda8ef64ab6bbb87cb3461ff473f0294777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:02 +0000
Subject: [PATCH 40/63] fix: improved smearing put the wrong time slice back in
 the last but two slice

---
 src/Smear/smear.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Smear/smear.c b/src/Smear/smear.c
index c9c85e7..1cb9695 100755
--- a/src/Smear/smear.c
+++ b/src/Smear/smear.c
@@ -343,7 +343,7 @@ smear4D( struct site *__restrict lat ,
 	for( mu = 0 ; mu < ND ; mu++ ) {
           #ifdef IMPROVED_SMEARING
 	  equiv( lat[behind2+i].O[mu] , lat3[i].O[mu] ) ;
-	  equiv( lat[back].O[mu]      , lat3[i].O[mu] ) ;
+	  equiv( lat[back].O[mu]      , lat3[i+LCU].O[mu] ) ;
 	  equiv( lat[it].O[mu]        , lat4[i].O[mu] ) ;
 	  equiv( lat[it+LCU].O[mu]    , lat4[i+LCU].O[mu] ) ;
           #else
-- 
2.43.0


From 8d8ad5679497e771dcd64653a3ca755e5d92cf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:30 +0000
Subject: [PATCH 41/63] fix: SU(3) mat_mult_vec took an element of the wrong
 row

---
 src/Matrix_Ops/U_Nops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrix_Ops/U_Nops.c b/src/Matrix_Ops/U_Nops.c
index 6d3a881..9e67b50 100755
--- a/src/Matrix_Ops/U_Nops.c
+++ b/src/Matrix_Ops/U_Nops.c
@@ -414,7 +414,7 @@ mat_mult_vec( GLU_complex vect[ NC ] ,
 {
 #if NC == 3
   vect[0] = S[0] * v[0] + S[1] * v[1] + S[2] * v[2] ; 
-  vect[1] = S[3] * v[0] + S[4] * v[1] + S[6] * v[2] ; 
+  vect[1] = S[3] * v[0] + S[4] * v[1] + S[5] * v[2] ; 
   vect[2] = S[6] * v[0] + S[7] * v[1] + S[8] * v[2] ; 
 #elif NC == 2
   vect[0] = S[ 0 ] * v[ 0 ] + S[ 1 ] * v[ 1 ] ;
-- 
2.43.0


From b5e77156a3a4dc64b4e2e5f1ec8373c7667cdb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:30 +0000
Subject: [PATCH 42/63] fix: SU(N) AntiHermitian_proj_short subtracted the
 trace from the real part

---
 src/Matrix_Ops/exactQ.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrix_Ops/exactQ.c b/src/Matrix_Ops/exactQ.c
index 86321a1..555b409 100755
--- a/src/Matrix_Ops/exactQ.c
+++ b/src/Matrix_Ops/exactQ.c
@@ -143,7 +143,7 @@ AntiHermitian_proj_short( GLU_complex Q[ HERMSIZE ] ,
   tr /= (GLU_real)NC ;
   for( i = 0 ; i < NC-1 ; i++ ) {
     for( j = i ; j < NC ; j++ ) { 
-      Q[idx] = ( i != j ) ? ( U[ j + NC * i ] - conj( U[ i + NC * j ] ) ) * 0.5 : I * cimag( U[ j + NC * i ] ) - tr ;
+      Q[idx] = ( i != j ) ? ( U[ j + NC * i ] - conj( U[ i + NC * j ] ) ) * 0.5 : I * ( cimag( U[ j + NC * i ] ) - tr ) ;
       idx++ ;
     }
   }
-- 
2.43.0


From 701563cac1a8aced356c4d4cb1f48e6516b56bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:30 +0000
Subject: [PATCH 43/63] fix: SU(N) multab_dagdag without SSE returned the
 complex conjugate

---
 src/Matrix_Ops/MMUL/MMULdagdag.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrix_Ops/MMUL/MMULdagdag.c b/src/Matrix_Ops/MMUL/MMULdagdag.c
index 5cd8171..8ad8dbe 100755
--- a/src/Matrix_Ops/MMUL/MMULdagdag.c
+++ b/src/Matrix_Ops/MMUL/MMULdagdag.c
@@ -60,7 +60,7 @@ multab_dagdag( GLU_complex a[ NCNC ] ,
 	REB = creal( pB[i] ) ; IMB = cimag( pB[i] ) ;
 	REC = creal( pC[m] ) ; IMC = cimag( pC[m] ) ;
 	sumr += REB * REC - IMB * IMC ;
-	sumi += REB * IMC + IMB * REC ;
+	sumi -= REB * IMC + IMB * REC ;
 	pB += NC ;
       }
       a[ j + NC*i ] = sumr + I * sumi ;
-- 
2.43.0


From dab7b748f56e098bd1f5094024148bdbd298d5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:30 +0000
Subject: [PATCH 44/63] fix: SU(2) fast_deriv_AntiHermitian_proj returned a
 quarter of trace_deriv

---
 src/Gfix/lin_derivs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Gfix/lin_derivs.c b/src/Gfix/lin_derivs.c
index 2cd6c36..c5659e2 100755
--- a/src/Gfix/lin_derivs.c
+++ b/src/Gfix/lin_derivs.c
@@ -187,7 +187,7 @@ fast_deriv_AntiHermitian_proj( GLU_complex sum[ HERMSIZE ] ,
   *( sum + 0 ) = REsum0 ;
   *( sum + 1 ) = -I * REsum1 + IMsum1 ;
 
-  return ( REsum0 * REsum0 + REsum1 * REsum1 + IMsum1 * IMsum1 ) ;
+  return 4.0 * ( REsum0 * REsum0 + REsum1 * REsum1 + IMsum1 * IMsum1 ) ;
 
 #endif
 }
-- 
2.43.0


From 41c36f56b536714359a94fd0a0bfbe0368d9d756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:09 +0000
Subject: [PATCH 45/63] fix: SU(2) exponential and logarithm used the series of
 sin(z)/z in z instead of z^2 near zero

---
 src/Matrix_Ops/effs.c   | 2 +-
 src/Matrix_Ops/exactQ.c | 4 ++--
 src/Matrix_Ops/expMat.c | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Matrix_Ops/effs.c b/src/Matrix_Ops/effs.c
index 990cc9b..093450a 100755
--- a/src/Matrix_Ops/effs.c
+++ b/src/Matrix_Ops/effs.c
@@ -95,7 +95,7 @@ f_hermitian_log_suNC( double complex f[ NC ] ,
   f[2] *= denom ;  
 #elif NC == 2
   f[0] = cos( z ) ;
-  f[1] = ( fabs( z ) < SINTOLSU2 ) ? I * ( 1 - z / 6. * ( 1 - z / 20. * ( 1 - z / 42. ) ) ) : I * sin( z ) / z ; 
+  f[1] = ( fabs( z ) < SINTOLSU2 ) ? I * ( 1 - z * z / 6. * ( 1 - z * z / 20. * ( 1 - z * z / 42. ) ) ) : I * sin( z ) / z ; 
 #else
   calculate_effs_VDM_suNC( f , z ) ;
 #endif
diff --git a/src/Matrix_Ops/exactQ.c b/src/Matrix_Ops/exactQ.c
index 555b409..bfaa7e4 100755
--- a/src/Matrix_Ops/exactQ.c
+++ b/src/Matrix_Ops/exactQ.c
@@ -196,7 +196,7 @@ exact_log_slow( GLU_complex Q[ NCNC ] ,
   const double complex z = reU0 + I * sqrt ( 1.0 - reU0 * reU0 ) ;
   const double herm_z = carg( z ) ;
   const double f0 = creal( z ) ; //cos( herm_z ) ;
-  const double f1 = ( fabs(herm_z) < SINTOLSU2 ) ? ( 1. - herm_z / 6. * ( 1. - herm_z / 20. * ( 1. - herm_z / 42. ) ) ) : cimag( z ) / herm_z ;
+  const double f1 = ( fabs(herm_z) < SINTOLSU2 ) ? ( 1. - herm_z * herm_z / 6. * ( 1. - herm_z * herm_z / 20. * ( 1. - herm_z * herm_z / 42. ) ) ) : cimag( z ) / herm_z ;
 
   // use Cayley-Hamilton again A = ( U - f0 ) / f1 //
   // for su2 this is nice as they both tend to 1
@@ -294,7 +294,7 @@ exact_log_slow_short( GLU_complex Q[ HERMSIZE ] ,
   const double complex z = reU0 + I * sqrt ( 1.0 - reU0 * reU0 ) ;
   const double herm_z = carg( z ) ;
   const double f0 = reU0 ; //cos( herm_z ) ;
-  const double f1 = ( fabs( herm_z ) < SINTOLSU2 ) ? ( 1 - herm_z / 6. * ( 1 - herm_z / 20. * ( 1 - herm_z / 42. ) ) ) : cimag( z ) / herm_z ;
+  const double f1 = ( fabs( herm_z ) < SINTOLSU2 ) ? ( 1 - herm_z * herm_z / 6. * ( 1 - herm_z * herm_z / 20. * ( 1 - herm_z * herm_z / 42. ) ) ) : cimag( z ) / herm_z ;
   register const double complex oneOf1 = -I / ( f1 ) ;
   // use Cayley-Hamilton again A = ( U - f0 ) / f1 //
   // for su2 this is nice as they both tend to 1
diff --git a/src/Matrix_Ops/expMat.c b/src/Matrix_Ops/expMat.c
index a283c29..4882c02 100755
--- a/src/Matrix_Ops/expMat.c
+++ b/src/Matrix_Ops/expMat.c
@@ -276,7 +276,7 @@ exponentiate( GLU_complex U[ NCNC ] ,
   // have eigenvalues, now for the "fun" bit.
   f0 = cos( z ) ;
   // taylor expand 
-  f1 = fabs ( z ) < SINTOLSU2 ? ( 1 - z / 6. * ( 1 - z / 20. * ( 1 - z / 42. ) ) ) : sin( z ) / z ;
+  f1 = fabs ( z ) < SINTOLSU2 ? ( 1 - z * z / 6. * ( 1 - z * z / 20. * ( 1 - z * z / 42. ) ) ) : sin( z ) / z ;
 
   const double complex f1Q0 = I * f1 * creal( Q[0] ) ;
   const double complex f1Q1 = I * f1 * Q[1] ;
@@ -501,7 +501,7 @@ exponentiate_short( GLU_complex U[ NCNC ] ,
   // have eigenvalues, now for the "fun" bit.
   f0 = cos( z ) ;
   // taylor expand 
-  f1 = fabs ( z ) < SINTOLSU2 ? ( 1.0 - z / 6. * ( 1 - z / 20. * ( 1 - z / 42. ) ) ) : sin( z ) / z ;
+  f1 = fabs ( z ) < SINTOLSU2 ? ( 1.0 - z * z / 6. * ( 1 - z * z / 20. * ( 1 - z * z / 42. ) ) ) : sin( z ) / z ;
 
   const double complex f1Q0 = I * f1 * Q[0] ;
   const double complex f1Q1 = I * f1 * Q[1] ;
-- 
2.43.0


From ef5907387457f9c507f3b87a899d8d5bd90ebe6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:58 +0000
Subject: [PATCH 46/63] fix: SU(2) Lie elements were half of 2 Tr( A T^a ),
 contractions with f^{abc} an eighth

---
 src/Matrix_Ops/lie_mats.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Matrix_Ops/lie_mats.c b/src/Matrix_Ops/lie_mats.c
index 6261789..1878b2f 100755
--- a/src/Matrix_Ops/lie_mats.c
+++ b/src/Matrix_Ops/lie_mats.c
@@ -254,9 +254,9 @@ lie_data( GLU_complex a[ NCNC - 1 ]  ,
   a[6] = I * ( A[5] - A[7] ) ;
   a[7] = -A[8] * 1.7320508075688772 ; // multiply by sqrt 3
 #elif NC == 2
-  a[0] = 0.5 * ( A[1] + A[2] ) ;
-  a[1] = 0.5 * ( I * ( A[1] - A[2] ) ) ;
-  a[2] = ( A[0] ) ;
+  a[0] = A[1] + A[2] ;
+  a[1] = I * ( A[1] - A[2] ) ;
+  a[2] = A[0] - A[3] ;
 #else
   // calculation of this is not so bad, a[i] = 2 Tr( A T^{i} )
   size_t i ;
-- 
2.43.0


From 0432041c7b115cd30c7272b722f9707128598889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:06 +0000
Subject: [PATCH 47/63] fix: exact_log_slow left the logarithm of the SU(3)
 identity unassigned

---
 src/Matrix_Ops/exactQ.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Matrix_Ops/exactQ.c b/src/Matrix_Ops/exactQ.c
index bfaa7e4..5319e12 100755
--- a/src/Matrix_Ops/exactQ.c
+++ b/src/Matrix_Ops/exactQ.c
@@ -166,6 +166,7 @@ exact_log_slow( GLU_complex Q[ NCNC ] ,
   // logically the log of these gives the hermitian z's
   z[2] = -( z[0] - z[1] ) ; 
   if( ( z[0] == z[1] ) && ( z[1] == z[2] ) ) {
+    zero_mat( Q ) ;
     return ;
   }
   f_hermitian_log_suNC( f , z ) ;
-- 
2.43.0


From a135559f194414257749154163546ad4f80b82d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:19 +0000
Subject: [PATCH 48/63] fix: normalise temporal and average plaquettes by their
 number of planes

The number of temporal planes is ND-1; the factor 2/((ND-1)(ND-2)) and the
equal weights of the average hold for ND == 4 only.
---
 src/Field/plaqs_links.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Field/plaqs_links.c b/src/Field/plaqs_links.c
index deabe2a..4ffa751 100755
--- a/src/Field/plaqs_links.c
+++ b/src/Field/plaqs_links.c
@@ -234,8 +234,8 @@ all_plaquettes( const struct site *__restrict lat ,
     tplaq = tplaq + (double)p ;
   }
   *sp_plaq = 2.0 * spplaq / (double)( ( ND - 1 ) * ( ND - 2 ) * NC * LVOLUME ) ;
-  *t_plaq  = 2.0 * tplaq /  (double)( ( ND - 1 ) * ( ND - 2 ) * NC * LVOLUME ) ;
-  return 0.5 * ( *sp_plaq + *t_plaq ) ; 
+  *t_plaq  = tplaq /  (double)( ( ND - 1 ) * NC * LVOLUME ) ;
+  return ( ( ND - 2 ) * ( *sp_plaq ) + 2.0 * ( *t_plaq ) ) / (double)ND ; 
 }
 
 // average plaquette
@@ -339,7 +339,7 @@ t_plaq( const struct site *__restrict lat )
     }
     plaq = plaq + (double)p ;
   }
-  return 2.0 * ( plaq ) / (double)( ( ND - 1 ) * ( ND - 2 ) * NC * LVOLUME ) ; 
+  return plaq / (double)( ( ND - 1 ) * NC * LVOLUME ) ; 
 }
 
 // sexy wrapper for the topological charge measurements to be called in parallel
-- 
2.43.0


From a6b813cfc9ccc5f7a8cf60d98736a9c750e9625e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:03 +0000
Subject: [PATCH 49/63] fix: DBW2 staple weight was not normalised with its
 rectangle weight

---
 src/Headers/GLU_definitions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Headers/GLU_definitions.h b/src/Headers/GLU_definitions.h
index 9317445..55b9db4 100755
--- a/src/Headers/GLU_definitions.h
+++ b/src/Headers/GLU_definitions.h
@@ -562,7 +562,7 @@ Defines for the gauge fixing routines ( Landau/{}.c )
     #define IWA_WEIGHT2 ( -0.331 * ( 1.0 - epsilon ) )
   #elif defined DBW2
     #define IMPROVED_SMEARING
-    #define IWA_WEIGHT1 ( 1.0 + 11.2536 * ( 1.0 - epsilon ) )
+    #define IWA_WEIGHT1 ( 1.0 + 11.2552 * ( 1.0 - epsilon ) )
     #define IWA_WEIGHT2 ( -1.4069 * ( 1.0 - epsilon ) )
   #elif defined SYMANZIK_ONE_LOOP
     #define IMPROVED_SMEARING
-- 
2.43.0


From e7812d4d87dd50ae62b72ab96d7cb66ec0b15f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:59 +0000
Subject: [PATCH 50/63] fix: slice-by-slice writer indexed its one-slice buffer
 with the whole-lattice offset

---
 src/IO/writers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IO/writers.c b/src/IO/writers.c
index 997507e..ebe4de4 100755
--- a/src/IO/writers.c
+++ b/src/IO/writers.c
@@ -266,7 +266,7 @@ copy_data( GLU_real *uout ,
     grab_sitedata( site , lat[i] , LOOP_VAR , checktype ) ;
 
     // set this up here
-    const size_t val = (size_t)( LOOP_VAR * ( i * ND ) ) ;
+    const size_t val = (size_t)( LOOP_VAR * ( ( i - START ) * ND ) ) ;
     for( size_t j = 0 ; j < ND*LOOP_VAR ; j++ ) {
 #ifdef OUT_DOUBLE
       uout[ val + j ] = (double)site[ j ] ;
-- 
2.43.0


From 0b73cd3a94d5d2b7672964317d4845d5470fd843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:59 +0000
Subject: [PATCH 51/63] fix: BQCD checksum of double precision files summed the
 unread float buffer

---
 src/IO/readers.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/IO/readers.c b/src/IO/readers.c
index 5022953..429726b 100755
--- a/src/IO/readers.c
+++ b/src/IO/readers.c
@@ -213,8 +213,8 @@ lattice_reader_suNC( struct site *lat ,
       size_t i ;
       for( i = 0 ; i < LVOLUME ; i++ ) {
 	// BQCD's
-	CKSUM_ADD( ( uin + ( i * ND * LOOP_VAR ) ) , 
-		   sizeof(float) * ND * LOOP_VAR ) ;
+	CKSUM_ADD( ( uind + ( i * ND * LOOP_VAR ) ) , 
+		   sizeof(double) * ND * LOOP_VAR ) ;
       }
       uint32_t nbytes ;
       CKSUM_GET( &CRC_BQCD , &nbytes ) ;
-- 
2.43.0


From 539852aa7f9606d51ff3a0e2605080ccb3730f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:24 +0000
Subject: [PATCH 52/63] fix: SU(2) HiRep links were written in another order
 than they are read

---
 src/IO/HIREP.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/IO/HIREP.c b/src/IO/HIREP.c
index a717106..741435b 100755
--- a/src/IO/HIREP.c
+++ b/src/IO/HIREP.c
@@ -163,7 +163,20 @@ write_gauge_field( const struct site *__restrict lat ,
   for( i = 0 ; i < LVOLUME ; i++ ) {
     // loop HiRep indices
     const size_t idx = translate_to_GLU_geom( i ) ;
-    size_t mu , j , a = 0 ;
+    size_t mu , a = 0 ;
+#if NC==2
+    // the quaternion components, in the order the reader expects them
+    for( mu = 0 ; mu < ND ; mu++ ) {
+      // t first then xyz
+      const GLU_complex *U = lat[idx].O[ ( mu + ND - 1 ) % ND ] ;
+      uoutd[ a + 0 ] =  ( double )creal( U[0] ) ;
+      uoutd[ a + 1 ] =  ( double )cimag( U[1] ) ;
+      uoutd[ a + 2 ] = -( double )creal( U[1] ) ;
+      uoutd[ a + 3 ] =  ( double )cimag( U[0] ) ;
+      a += 2 * NC ;
+    }
+#else
+    size_t j ;
     // t first
     for( j = 0 ; j < mat_stride ; j++ ) {
       uoutd[ a + 0 ] = ( double )creal( lat[idx].O[ ND - 1 ][ j ] ) ; 
@@ -178,6 +191,7 @@ write_gauge_field( const struct site *__restrict lat ,
 	a += 2 ;
       }
     } 
+#endif
     #ifdef OUT_BIG
     if( !WORDS_BIGENDIAN ) {
       bswap_64( stride , uoutd ) ; 
-- 
2.43.0


From c87366a3ebe1bb2c011ceb9f6d14209556d5353c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:11 +0000
Subject: [PATCH 53/63] fix: ILDG header said su3gauge for every NC, which the
 reader rejects

---
 src/IO/Scidac.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/IO/Scidac.c b/src/IO/Scidac.c
index 89c82f5..c669b19 100755
--- a/src/IO/Scidac.c
+++ b/src/IO/Scidac.c
@@ -374,10 +374,12 @@ write_header_ILDG( FILE *__restrict out )
   char *ILDG_str = malloc( (1+strlen(ILDG_start))*sizeof(char) ) ;
   // begin with the usual spiel and the versioning ...
   sprintf( ILDG_str , "%s" , ILDG_start ) ;
+  sprintf( tmp , "<field>su%dgauge</field>" , NC ) ;
+  append_char( &ILDG_str , tmp ) ;
 #ifdef SINGLE_PREC
-  append_char( &ILDG_str , "<field>su3gauge</field><precision>32</precision>" ) ;
+  append_char( &ILDG_str , "<precision>32</precision>" ) ;
 #else
-  append_char( &ILDG_str , "<field>su3gauge</field><precision>64</precision>" ) ;
+  append_char( &ILDG_str , "<precision>64</precision>" ) ;
 #endif
   // and input the geometry .. I enumerate the extra (>4) dimensions, always leaving t running slowest
   const char open[4][5] = { "<lx>" , "<ly>" , "<lz>" , "<lt>" } ;
-- 
2.43.0


From fc0832f21e268c7e8c4b407c3e3d3e246fc0e439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:39 +0000
Subject: [PATCH 54/63] fix: MWC_4096 never advanced its index and drew from
 one word of its table

---
 src/Utils/par_MWC_4096.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Utils/par_MWC_4096.c b/src/Utils/par_MWC_4096.c
index ae207fc..25c123e 100644
--- a/src/Utils/par_MWC_4096.c
+++ b/src/Utils/par_MWC_4096.c
@@ -32,7 +32,6 @@ static uint32_t *mcwc_i ; // index
 static uint32_t
 par_MWC_4096( const uint32_t thread )
 {
-  mcwc_i[thread] = 4095 ;
   mcwc_i[thread] = ( mcwc_i[thread]+1 )&4095 ;
 
   const uint64_t t = 18782LL*table[thread][mcwc_i[thread]] + carry[thread] ;
-- 
2.43.0


From 000b4aaedfd4553beac9ea9b32ab42d8f5368da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:39 +0000
Subject: [PATCH 55/63] fix: generator restored from a file was not marked
 initialised and could be seeded over

---
 src/Utils/par_rng.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Utils/par_rng.c b/src/Utils/par_rng.c
index aac25b4..5784bb6 100644
--- a/src/Utils/par_rng.c
+++ b/src/Utils/par_rng.c
@@ -123,7 +123,9 @@ initialise_par_rng( const char *rng_file )
       // free the seeds
       free( Seeds ) ;
     } else {
-      return read_par_rng_state( rng_file ) ;
+      if( read_par_rng_state( rng_file ) == GLU_FAILURE ) {
+	return GLU_FAILURE ;
+      }
     }
     RNG_inited = GLU_TRUE ;
   }
-- 
2.43.0


From c0781a8d310c2b64973601e02b131d9e5f59cfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:39 +0000
Subject: [PATCH 56/63] fix: KISS state was written in big endian but read
 without swapping

---
 src/Utils/par_KISS.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Utils/par_KISS.c b/src/Utils/par_KISS.c
index 6f97899..d7f6847 100644
--- a/src/Utils/par_KISS.c
+++ b/src/Utils/par_KISS.c
@@ -103,6 +103,10 @@ read_par_KISS_table( FILE *rng_file )
       fprintf( stderr , "[PAR_RNG] file read failure\n" ) ;
       return GLU_FAILURE ;
     }
+    // the state is written in big endian
+    if( !WORDS_BIGENDIAN ) { 
+      bswap_32( RNG_TABLE , table[i] ) ; 
+    }
   }
   return GLU_SUCCESS ;
 }
-- 
2.43.0


From 1421ebce1c2671cbe05fd1acd02c700fb8dbaf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:39 +0000
Subject: [PATCH 57/63] fix: WELL_512 state could not be saved

---
 src/Utils/par_rng.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Utils/par_rng.c b/src/Utils/par_rng.c
index 5784bb6..94ce88c 100644
--- a/src/Utils/par_rng.c
+++ b/src/Utils/par_rng.c
@@ -335,6 +335,8 @@ write_par_rng_state( const char *outfile )
   fprintf( out , "RNG = PAR_XOR_1024\n" ) ;
 #elif (defined MWC_1038_RNG)
   fprintf( out , "RNG = PAR_MWC_1038\n" ) ;
+#elif (defined WELL_512_RNG)
+  fprintf( out , "RNG = PAR_WELL_512\n" ) ;
 #else
   fprintf( out , "RNG = PAR_MWC_4096\n" ) ;
 #endif
@@ -350,6 +352,8 @@ write_par_rng_state( const char *outfile )
   write_par_XOR_1024_table( out ) ;
 #elif (defined MWC_1038_RNG)
   write_par_MWC_1038_table( out ) ;
+#elif (defined WELL_512_RNG)
+  write_par_WELL_512_table( out ) ;
 #else
   write_par_MWC_4096_table( out ) ;
 #endif
-- 
2.43.0


From 57496cfd563239d50555dcbcc6dbe348d7f2481f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:39 +0000
Subject: [PATCH 58/63] fix: FIELD_DEFINITION = LOG, as documented, was read as
 LINEAR

---
 src/IO/input_reader.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/IO/input_reader.c b/src/IO/input_reader.c
index a3fd496..0834108 100755
--- a/src/IO/input_reader.c
+++ b/src/IO/input_reader.c
@@ -420,7 +420,8 @@ read_cuts_struct( struct cut_info *CUTINFO )
     const int field_idx = tag_search( "FIELD_DEFINITION" ) ;
     if( field_idx == GLU_FAILURE ) { return tag_failure( "FIELD_DEFINITION" ) ; }
     CUTINFO -> definition = LINEAR_DEF ;
-    if( are_equal( INPUT[field_idx].VALUE , "LOGARITHMIC" ) ) {
+    if( are_equal( INPUT[field_idx].VALUE , "LOG" ) ||
+	are_equal( INPUT[field_idx].VALUE , "LOGARITHMIC" ) ) {
       CUTINFO -> definition = LOG_DEF ;
     } 
   }
-- 
2.43.0


From 59390166c927205dd957791f538863233339afdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:05 +0000
Subject: [PATCH 59/63] fix: help described input options the reader does not
 know

---
 src/IO/input_help.c | 60 +++++++++++++++++++--------------------------
 1 file changed, 25 insertions(+), 35 deletions(-)

diff --git a/src/IO/input_help.c b/src/IO/input_help.c
index d539e0a..73c9104 100755
--- a/src/IO/input_help.c
+++ b/src/IO/input_help.c
@@ -41,7 +41,6 @@ create_input_file( const char *mode_str ,
 	   "SEED = 0\n" ) ;
   fprintf( stdout , "GFTYPE = %s\n" , gf_str ) ;
   fprintf( stdout , "    GF_TUNE = 0.08\n" 
-	   "    IMPROVEMENTS = NONE\n" 
 	   "    ACCURACY = 14\n"
 	   "    MAX_ITERS = 1000\n" ) ;
   fprintf( stdout , "CUTTYPE = %s\n"
@@ -77,7 +76,7 @@ create_input_file( const char *mode_str ,
 static void
 cuttype_types( void )
 {
-  fprintf( stdout , "CUTTYPE = CONFIGSPACE_GLUE           - "
+  fprintf( stdout , "CUTTYPE = CONFIGSPACE_GLUONS         - "
 	   "Computes the configuration space gluon propagator,"
 	   "must be gauge fixed \n" ) ;
   fprintf( stdout , "CUTTYPE = EXCEPTIONAL                - "
@@ -157,7 +156,7 @@ cuttype_types( void )
 	   "                                       Also performs smearing "
 	   "specified by the smearing options in the input file\n" ) ;
   fprintf( stdout , "CUTTYPE = {ALL ELSE} - Do Nothing \n" ) ;
-  fprintf( stdout , "\nCONFIGSPACE_GLUE, EXCEPTIONAL, GLUON_PROPS and "
+  fprintf( stdout , "\nCONFIGSPACE_GLUONS, EXCEPTIONAL, GLUON_PROPS and "
 	   "NON_EXCEPTIONAL require the gauge field to be fixed to "
 	   "Landau gauge\n" ) ;
   fprintf( stdout , "\nINSTANTANEOUS_GLUONS and STATIC_POTENTIAL "
@@ -169,11 +168,17 @@ cuttype_types( void )
 static void
 gftype_types( void )
 {
-  fprintf( stdout , "GFTYPE = COULOMB    - Coulomb gauge fixing using "
+  fprintf( stdout , "GFTYPE = AXIALT           - Fixes to the temporal "
+	   "gauge\n" ) ;
+  fprintf( stdout , "GFTYPE = COULOMB          - Coulomb gauge fixing using "
 	   "a time-slice by time-slice Cornell method\n" ) ;
-  fprintf( stdout , "GFTYPE = LANDAU     - Landau gauge fixing using "
+  fprintf( stdout , "GFTYPE = COULOMB_RESIDUAL - Fixes the remaining temporal "
+	   "degree of freedom after Coulomb gauge fixing\n" ) ;
+  fprintf( stdout , "GFTYPE = LANDAU           - Landau gauge fixing using "
 	   "the Cornell method/or OR depnding on compile flags\n" ) ;
-  fprintf( stdout , "GFTYPE = {All ELSE} - Do nothing\n" ) ;
+  fprintf( stdout , "GFTYPE = MAG              - Fixes to the so-called "
+	   "maximal axial gauge\n" ) ;
+  fprintf( stdout , "GFTYPE = {All ELSE}       - Do nothing\n" ) ;
   fprintf( stdout , "\nDepending on what configure flags you have "
 	   "specified these will either be Fourier accelerated or not\n" ) ;
   return ;
@@ -217,7 +222,7 @@ help_usage( void )
   fprintf( stdout , "\nHelp usage : \n\n./GLU --help={options}\n\n" ) ;
   fprintf( stdout , "The available options are:\n" ) ;
   fprintf( stdout , "MODE, HEADER, DIM , CONFNO, RANDOM_TRANSFORM, \n" ) ;
-  fprintf( stdout , "GFTYPE, GF_TUNE, IMPROVEMENTS, ACCURACY, MAX_ITERS, \n" ) ;
+  fprintf( stdout , "GFTYPE, GF_TUNE, ACCURACY, MAX_ITERS, \n" ) ;
   fprintf( stdout , "CUTTYPE, FIELD_DEFINITION, MOM_CUT, MAX_T, MAXMOM, "
 	            "CYL_WIDTH, ANGLE, OUTPUT,\n" ) ;
   fprintf( stdout , "SMEARTYPE, DIRECTION, SMITERS, ALPHA,\n" ) ;
@@ -233,21 +238,6 @@ help_usage( void )
   return ;
 }
 
-// possible gauge fixing improvement types
-static void
-improvement_types( void )
-{
-  fprintf( stdout , "IMPOVEMENTS = MAG        - Fixes to the so-called "
-	   "maximal axial gauge before fixing to Landau or Coulomb\n" ) ;
-  fprintf( stdout , "            = SMEAR      - Uses the smeared "
-	   "preconditioning of Hettrick and de forcrand using the smearing\n"
-	  "                           routines specified in the input file\n") ;
-  fprintf( stdout , "            = RESIDUAL   - Fixes the remaining temporal "
-	   "degree of freedom after Coulomb gauge fixing\n" ) ;
-  fprintf( stdout , "            = {ALL ELSE} - Do nothing\n" ) ;
-  return ;
-}
-
 // standard modes available
 static void
 mode_types( void ) 
@@ -285,7 +275,7 @@ momcut_types( void )
 	   "the momentum-space lattice\n" ) ;
   fprintf( stdout , "        = HYPERCUBIC_CUT - Include individual momenta "
 	   "that satisfy |p| < sqrt(MAX_MOM) \n" ) ;
-  fprintf( stdout , "        = {ALL ELSE}     - Do nothing \n" ) ;
+  fprintf( stdout , "        = {ALL ELSE}     - Defaults to SPHERICAL_CUT \n" ) ;
   fprintf( stdout , "\nn^{2} is (anisotropy corrected) n_{mu}n_{mu} Fourier "
 	   "mode product, for {mu} being polarisations on the lattice\n" ) ;
   return ;
@@ -344,8 +334,7 @@ storage_types( void )
 	   "link matrices\n" ) ;
   fprintf( stdout , "        = SCIDAC      - Writes a SCIDAC format "
 	   "configuration\n" ) ;
-  fprintf( stdout , "        = {ALL ELSE}  - Defaults to the NERSC_NCxNC "
-	   "format\n" ) ;
+  fprintf( stdout , "        = {ALL ELSE}  - Is an error\n" ) ;
   fprintf( stdout , "\n*caution* our MILC configurations are not *actually* "
 	   "MILC standard, as they don't have a double precision\n"
 	   "           output at the moment. We will see if that changes.\n" ) ;
@@ -399,12 +388,10 @@ GLU_helps_those_who_help_themselves( const char *help_str )
 	     "        0 - Generates a SEED from urandom if it is available\n") ;
   } else if( are_equal( help_str , "--help=GFTYPE" ) ) {
     gftype_types( ) ;
-  } else if( are_equal( help_str , "--help=GFTUNE" ) ) {
-    fprintf( stdout , "GFTUNE = %%lf - User specified tuning parameter for "
+  } else if( are_equal( help_str , "--help=GF_TUNE" ) ) {
+    fprintf( stdout , "GF_TUNE = %%lf - User specified tuning parameter for "
 	     "the gauge fixing this should generally be < 0.1, less "
 	     "important for the default CG routines\n" ) ;
-  } else if( are_equal( help_str , "--help=IMPROVEMENTS" ) ) {
-    improvement_types( ) ;
   } else if( are_equal( help_str , "--help=ACCURACY" ) ) {
     fprintf( stdout , "ACCURACY = %%d - Stops the gauge fixing after an "
 	     "average accuracy of better than 10^{-ACCURACY} has been "
@@ -417,7 +404,7 @@ GLU_helps_those_who_help_themselves( const char *help_str )
 	     "changing the tuning\n" , GF_GLU_FAILURES ) ;
   } else if( are_equal( help_str , "--help=CUTTYPE" ) ) {
     cuttype_types( ) ;
-  } else if( are_equal( help_str , "--help=FIELD_DEFINTION" ) ) {
+  } else if( are_equal( help_str , "--help=FIELD_DEFINITION" ) ) {
     fprintf( stdout , "FIELD_DEFINITION = LOG        - Exact logarithm "
 	     "definition of the gauge fields\n" ) ;
     fprintf( stdout , "FIELD_DEFINITION = {ALL ELSE} - Hermitian projection "
@@ -459,12 +446,12 @@ GLU_helps_those_who_help_themselves( const char *help_str )
 	     "often finish\n"
 	     "               before this number is reached\n" ) ;
   } else if( are_equal( help_str , "--help=ALPHA" ) ) {
-    fprintf( stdout , "ALPHA_%%d = %%lf - Smearing parameters for each "
+    fprintf( stdout , "ALPHA%%d = %%lf - Smearing parameters for each "
 	     "level of smearing, expects ND-1 of these\n"
-	     "                 e.g. ALPHA_1, ALPHA_2 .. ALPHA_ND-1 "
+	     "                 e.g. ALPHA1, ALPHA2 .. ALPHA{ND-1} "
 	     "for Hypercubically blocked smearing in\n"
 	     "                 all directions. For the Wilson flow and for "
-	     "APE, LOG and STOUT smearings ALPHA_1 is the only relevant\n"
+	     "APE, LOG and STOUT smearings ALPHA1 is the only relevant\n"
 	     "                 parameter and all others are ignored\n" ) ;
   } else if( are_equal( help_str , "--help=U1_MEAS" ) ) {
     U1meas_types( ) ;
@@ -497,8 +484,8 @@ GLU_helps_those_who_help_themselves( const char *help_str )
   } else if( are_equal( help_str , "--help=SAVE" ) ) {
     fprintf( stdout , "SAVE = %%d - the iteration count at which we save "
 	     "a configuration in the HB-OR\n" ) ;
-  } else if( are_equal( help_str , "--help=THERMALISATION" ) ) {
-    fprintf( stdout , "THERMALISATION = %%d - the number of HB-OR iterations "
+  } else if( are_equal( help_str , "--help=THERM" ) ) {
+    fprintf( stdout , "THERM = %%d - the number of HB-OR iterations "
 	     "of thermalisation before measurement and saving\n" ) ;    
   } else if( are_equal( help_str , "--autoin=LANDAU" ) ) {
     create_input_file( "GAUGE_FIXING" , "LANDAU" ,
@@ -515,6 +502,9 @@ GLU_helps_those_who_help_themselves( const char *help_str )
   } else if( are_equal( help_str , "--autoin=SUNCxU1" ) ) {
     create_input_file( "SUNCxU1" , "LANDAU" ,
 		       "TOPOLOGICAL_SUSCEPTIBILITY" ) ;
+  } else if( are_equal( help_str , "--autoin=TOPOLOGICAL_SUSCEPTIBILITY" ) ) {
+    create_input_file( "CUTTING" , "LANDAU" ,
+		       "TOPOLOGICAL_SUSCEPTIBILITY" ) ;
   } else if( are_equal( help_str , "--autoin=WFLOW" ) ) {
     create_input_file( "SMEARING" , "LANDAU" ,
 		       "TOPOLOGICAL_SUSCEPTIBILITY" ) ;
-- 
2.43.0


From 83439602bf6d144c1fddf0fe0bec31c323f2f3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:38 +0000
Subject: [PATCH 60/63] fix: argv was read past its end when no output
 configuration is given

---
 src/Run/Mainfile.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/Run/Mainfile.c b/src/Run/Mainfile.c
index a13666d..d804f06 100755
--- a/src/Run/Mainfile.c
+++ b/src/Run/Mainfile.c
@@ -59,12 +59,15 @@ main( const int argc ,
   // and make the input data constant
   const struct infile_data INFILE = infile_struct ;
 
+  // the output configuration is optional
+  const char *outfile = argc > WRITE ? argv[ WRITE ] : NULL ;
+
   // and the options
   int status = GLU_SUCCESS ;
   switch( INFILE.mode ) {
   case MODE_GF :
     status = read_and_fix( argv[ READ ] , INFILE.rtrans , INFILE.GFINFO ,
-			   argv[ WRITE ] , INFILE.storage , 
+			   outfile , INFILE.storage , 
 			   INFILE.output_details ) ;
     break ;
   case MODE_CUTS :
@@ -72,12 +75,12 @@ main( const int argc ,
     break ;
   case MODE_SMEARING :
     status = read_and_smear( argv[ READ ] , INFILE.rtrans , INFILE.SMINFO ,
-			     argv[ WRITE ] , INFILE.storage , 
+			     outfile , INFILE.storage , 
 			     INFILE.output_details ) ;
     break ;
   case MODE_CROSS_U1 :
     status = read_and_U1( argv[ READ ] , INFILE.rtrans , INFILE.U1INFO ,
-			  argv[ WRITE ] , INFILE.storage , 
+			  outfile , INFILE.storage , 
 			  INFILE.output_details ) ;
     break ;
   case MODE_HEATBATH :
@@ -85,7 +88,7 @@ main( const int argc ,
 		       INFILE.output_details ) ;
     break ;
   default :
-    status = read_and_check( argv[ READ ] , INFILE.rtrans , argv[ WRITE ] , 
+    status = read_and_check( argv[ READ ] , INFILE.rtrans , outfile , 
 			     INFILE.storage , INFILE.output_details ) ;
     break ;
   }
-- 
2.43.0


From 93472653ad4c5271576b2ce34a95e76482b86aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:08 +0000
Subject: [PATCH 61/63] fix: improved smearing freed more flow temporaries than
 were allocated

---
 src/Smear/wflowfuncs.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Smear/wflowfuncs.c b/src/Smear/wflowfuncs.c
index 464ee55..f6746a3 100755
--- a/src/Smear/wflowfuncs.c
+++ b/src/Smear/wflowfuncs.c
@@ -378,12 +378,11 @@ free_WF( struct wflow_temps *WF ,
   if( memcheap == GLU_TRUE ) {
     // free our fields
     free_s_site( WF->Z , LVOLUME , ND ) ;
+    free_s_site( WF->lat2 , LCU , ND ) ;
 #ifdef IMPROVED_SMEARING
-    free_s_site( WF->lat2 , 2*LCU , ND ) ;
     free_s_site( WF->lat3 , 2*LCU , ND ) ;
     free_s_site( WF->lat4 , 2*LCU , ND ) ;
 #else
-    free_s_site( WF->lat2 , LCU , ND ) ;
     free_s_site( WF->lat3 , LCU , ND ) ;
     free_s_site( WF->lat4 , LCU , ND ) ;
 #endif
-- 
2.43.0


From d25ab4a6ce79ae334717328fbe904b939d6db461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:08 +0000
Subject: [PATCH 62/63] fix: measurement at the stopping flow time was recorded
 at the wrong time with a stale plaquette

---
 src/Smear/wflow.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Smear/wflow.c b/src/Smear/wflow.c
index 910535d..8344ef8 100755
--- a/src/Smear/wflow.c
+++ b/src/Smear/wflow.c
@@ -151,10 +151,19 @@ flow_RK3( struct site *__restrict lat ,
     if( t > WFLOW_TIME_STOP ) {
       const double delta_tcorr = WFLOW_TIME_STOP - count * delta_t ; 
       f( lat , WF , delta_tcorr , SM_TYPE , project ) ;
+      t = WFLOW_TIME_STOP ;
       // update the linked list
       curr = (struct wfmeas*)malloc( sizeof( struct wfmeas ) ) ;
+      // compute plaquette
+      av_plaquette_th( WF.red , lat ) ;
+      size_t k ;
+      new_plaq = 0.0 ;
+      for( k = 0 ; k < Latt.Nthreads ; k++ ) {
+	new_plaq += WF.red[ 3 + CLINE*k ] ;
+      }
+      new_plaq /= ( NC * ( ND-1 ) * ( ND - 2 ) * LVOLUME ) ;
       update_meas_list( head , curr , WF.red ,
-			new_plaq , t , delta_t ,
+			new_plaq , t , delta_tcorr ,
 			err_est , lat ) ;
       head = curr ;
       count++ ;
-- 
2.43.0


From 31b30753981979b89e6dbd891acdacb1f03f967b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:08 +0000
Subject: [PATCH 63/63] fix: plaquette along the flow was normalised for four
 dimensions only

---
 src/Smear/adaptive_flow.c | 2 +-
 src/Smear/wflow.c         | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Smear/adaptive_flow.c b/src/Smear/adaptive_flow.c
index 77d9773..41e6553 100755
--- a/src/Smear/adaptive_flow.c
+++ b/src/Smear/adaptive_flow.c
@@ -78,7 +78,7 @@ get_plaq_th( struct site *lat ,
   for( size_t k = 0 ; k < Latt.Nthreads ; k++ ) {
     new_plaq += WF.red[ 3 + CLINE*k ] ;
   }
-  return new_plaq/( NC * ( ND-1 ) * ( ND - 2 ) * LVOLUME ) ;
+  return 2.0*new_plaq/( NC * ND * ( ND - 1 ) * LVOLUME ) ;
 }
 
 // two step adaptive routine
diff --git a/src/Smear/wflow.c b/src/Smear/wflow.c
index 8344ef8..ec23945 100755
--- a/src/Smear/wflow.c
+++ b/src/Smear/wflow.c
@@ -129,7 +129,7 @@ flow_RK3( struct site *__restrict lat ,
       for( k = 0 ; k < Latt.Nthreads ; k++ ) {
 	new_plaq += WF.red[ 3 + CLINE*k ] ;
       }
-      new_plaq /= ( NC * ( ND-1 ) * ( ND - 2 ) * LVOLUME ) ;
+      new_plaq *= 2.0/( NC * ND * ( ND - 1 ) * LVOLUME ) ;
       update_meas_list( head , curr , WF.red ,
 			new_plaq , t , delta_t ,
 			err_est , lat ) ;
@@ -161,7 +161,7 @@ flow_RK3( struct site *__restrict lat ,
       for( k = 0 ; k < Latt.Nthreads ; k++ ) {
 	new_plaq += WF.red[ 3 + CLINE*k ] ;
       }
-      new_plaq /= ( NC * ( ND-1 ) * ( ND - 2 ) * LVOLUME ) ;
+      new_plaq *= 2.0/( NC * ND * ( ND - 1 ) * LVOLUME ) ;
       update_meas_list( head , curr , WF.red ,
 			new_plaq , t , delta_tcorr ,
 			err_est , lat ) ;
-- 
2.43.0

