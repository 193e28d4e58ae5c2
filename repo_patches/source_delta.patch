From da3429799bf98e0ffa93eb5ee386203df72445d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:31 +0000
Subject: [PATCH 01/33] fix: reduce only the n_parameters elements of the batch
 gradient

The OpenMP reduction covered a padded length, so that up to 16 floats after
the end of the caller's buffer were read and written.
---
 src/optimizer.c | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/src/optimizer.c b/src/optimizer.c
index 4494ebc..3df147a 100644
--- a/src/optimizer.c
+++ b/src/optimizer.c
@@ -65,19 +65,6 @@ void optimizer_calc_batch_gradient( optimizer_t *opt,
     neuralnet_t *nn = opt->nn;
     const unsigned int n_parameters = neuralnet_total_n_parameters( nn );
 
-    /* There is a bug in OpenMP -- if using reduction on an aligned array, there will be threaded
-       copies of the arrays in each thread. These copies will not necesarrily be aligned, but rather
-       follow the previous in memory. Solving this can be done by padding. I've not seen this documented
-       but it seems to work. Hence this padding. */
-#ifdef __AVX__
-#define PADDING_SIZE 16
-    /* Hmmm.... maybe it doesn't work after all? it doesn't work with PADDING_SIZE=32, but
-       it works with PADDING_SIZE=16... why? Is this really a stable solution? */
-    const unsigned int n_param_padding = n_parameters + (PADDING_SIZE - n_parameters % PADDING_SIZE);
-    assert( (n_param_padding % PADDING_SIZE) == 0);
-#else
-    const unsigned int n_param_padding __attribute__((unused))  = n_parameters;
-#endif
     memset( batchgrad, 0, n_parameters * sizeof(float));  /* Clear the batch grad */
 
     const int n_input  = nn->layer[0].n_input;
@@ -85,7 +72,7 @@ void optimizer_calc_batch_gradient( optimizer_t *opt,
 
     const int remaining_samples = (int) n_train_samples - (int) *i;
     const int batchsize = remaining_samples < opt->batchsize ? remaining_samples : opt->batchsize;
-#pragma omp parallel for reduction(+:batchgrad[0:n_param_padding])
+#pragma omp parallel for reduction(+:batchgrad[0:n_parameters])
     for ( int b = 0 ; b < batchsize; b++){
         const int idx = *i + b;
         float SIMD_ALIGN(grad[n_parameters]);
-- 
2.43.0


From e16aa07d2f3b389db507cce4590d2dd5ec0dcb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:31 +0000
Subject: [PATCH 02/33] fix: rows of the weight matrix are not aligned in
 matrix_vector_multiply

When the number of columns is not a multiple of the register width the second
row starts at an unaligned address and the aligned load faults.
---
 src/matrix_operations.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/matrix_operations.c b/src/matrix_operations.c
index 21ea4be..4344ce1 100644
--- a/src/matrix_operations.c
+++ b/src/matrix_operations.c
@@ -49,9 +49,9 @@ void matrix_vector_multiply( int n_rows, int n_cols, const float *matrix, const
         __m512 sums = _mm512_setzero_ps ();
         for (; j <= ((n_cols)-16); j += 16, m_ptr += 16, v_ptr += 16){ /* Check if faster: unroll w prefetch */
 #if defined(__FMA__)
-            sums = _mm512_fmadd_ps( _mm512_loadu_ps(v_ptr), _mm512_load_ps(m_ptr), sums);
+            sums = _mm512_fmadd_ps( _mm512_loadu_ps(v_ptr), _mm512_loadu_ps(m_ptr), sums);
 #else
-            sums = _mm512_add_ps (sums, _mm512_mul_ps(_mm512_loadu_ps(v_ptr), _mm512_load_ps(m_ptr)));
+            sums = _mm512_add_ps (sums, _mm512_mul_ps(_mm512_loadu_ps(v_ptr), _mm512_loadu_ps(m_ptr)));
 #endif
         }
         y[i] = _mm512_reduce_add_ps( sums );
@@ -60,9 +60,9 @@ void matrix_vector_multiply( int n_rows, int n_cols, const float *matrix, const
         __m256 sum = _mm256_setzero_ps ();
         for (; j <= ((n_cols)-8); j += 8, m_ptr += 8, v_ptr += 8){ /* Check if faster: unroll w prefetch */
 #if defined(__FMA__)
-            sum = _mm256_fmadd_ps( _mm256_loadu_ps(v_ptr), _mm256_load_ps(m_ptr), sum);
+            sum = _mm256_fmadd_ps( _mm256_loadu_ps(v_ptr), _mm256_loadu_ps(m_ptr), sum);
 #else
-            sum = _mm256_add_ps (sum, _mm256_mul_ps(_mm256_loadu_ps(v_ptr), _mm256_load_ps(m_ptr)));
+            sum = _mm256_add_ps (sum, _mm256_mul_ps(_mm256_loadu_ps(v_ptr), _mm256_loadu_ps(m_ptr)));
 #endif
         }
         y[i] += horizontalsum_avx( sum );
-- 
2.43.0


From a3cf6df17aacb875b697659ef5eadfeb4a661828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:31 +0000
Subject: [PATCH 03/33] fix: allow an unaligned output vector in
 vector_matrix_multiply

The caller of neuralnet_predict() gives the output buffer, and batch prediction
writes at output + i * n_output: neither is aligned in general.
---
 src/matrix_operations.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/matrix_operations.c b/src/matrix_operations.c
index 4344ce1..a2ee8e1 100644
--- a/src/matrix_operations.c
+++ b/src/matrix_operations.c
@@ -128,12 +128,12 @@ void vector_matrix_multiply( int n, int m, const float *weight, const float *bia
 
 #ifdef __AVX512F__
     for (; i <= ((m)-16) ; i += 16, bias_ptr +=16, y_ptr +=16 ){
-        _mm512_store_ps( y_ptr, _mm512_load_ps( bias_ptr ));
+        _mm512_storeu_ps( y_ptr, _mm512_load_ps( bias_ptr ));
     }
 #endif
 #ifdef __AVX__
     for (; i <= ((m)-8) ; i += 8, bias_ptr +=8, y_ptr +=8 ){
-        _mm256_store_ps( y_ptr, _mm256_load_ps( bias_ptr ));
+        _mm256_storeu_ps( y_ptr, _mm256_load_ps( bias_ptr ));
     }
 #endif
     for( ; i < m; i++ ){
@@ -149,11 +149,11 @@ void vector_matrix_multiply( int n, int m, const float *weight, const float *bia
                 int j = 0;
 #ifdef __AVX512F__
                 for (; j <= ((m)-16) ; j += 16, y_ptr += 16, weight_ptr += 16) 
-                    _mm512_store_ps(y_ptr, _mm512_add_ps (_mm512_load_ps(y_ptr), _mm512_loadu_ps( weight_ptr )));
+                    _mm512_storeu_ps(y_ptr, _mm512_add_ps (_mm512_loadu_ps(y_ptr), _mm512_loadu_ps( weight_ptr )));
 #endif /*  __AVX512F__ */
 #ifdef __AVX__
                 for (; j <= ((m)-8) ; j += 8, y_ptr += 8, weight_ptr += 8) 
-                    _mm256_store_ps(y_ptr, _mm256_add_ps (_mm256_load_ps(y_ptr), _mm256_loadu_ps( weight_ptr )));
+                    _mm256_storeu_ps(y_ptr, _mm256_add_ps (_mm256_loadu_ps(y_ptr), _mm256_loadu_ps( weight_ptr )));
 #endif /*  __AVX__ */
                 for( ; j < m; j++ )
                     *y_ptr++ += *weight_ptr++;
@@ -162,9 +162,9 @@ void vector_matrix_multiply( int n, int m, const float *weight, const float *bia
 #ifdef __AVX512F__
                 for (; j < ((m)-16) ; j += 16, y_ptr += 16, weight_ptr += 16){
 #if defined(__FMA__)
-                    _mm512_store_ps(y_ptr, _mm512_fmadd_ps( _mm512_loadu_ps(weight_ptr), _mm512_set1_ps(inp), _mm512_load_ps(y_ptr)));
+                    _mm512_storeu_ps(y_ptr, _mm512_fmadd_ps( _mm512_loadu_ps(weight_ptr), _mm512_set1_ps(inp), _mm512_loadu_ps(y_ptr)));
 #else
-                    _mm512_store_ps(y_ptr, _mm512_add_ps(_mm512_load_ps(y_ptr), _mm512_mul_ps(_mm512_loadu_ps(weight_ptr), _mm512_set1_ps(inp))));
+                    _mm512_storeu_ps(y_ptr, _mm512_add_ps(_mm512_loadu_ps(y_ptr), _mm512_mul_ps(_mm512_loadu_ps(weight_ptr), _mm512_set1_ps(inp))));
 #endif  
                 }
 #endif
@@ -172,9 +172,9 @@ void vector_matrix_multiply( int n, int m, const float *weight, const float *bia
                 __m256 scalevec = _mm256_set1_ps(inp);
                 for (; j < ((m)-8) ; j += 8, y_ptr += 8, weight_ptr += 8){
 #if defined(__FMA__)
-                    _mm256_store_ps(y_ptr, _mm256_fmadd_ps( _mm256_loadu_ps(weight_ptr), scalevec, _mm256_load_ps(y_ptr)));
+                    _mm256_storeu_ps(y_ptr, _mm256_fmadd_ps( _mm256_loadu_ps(weight_ptr), scalevec, _mm256_loadu_ps(y_ptr)));
 #else
-                    _mm256_store_ps(y_ptr, _mm256_add_ps(_mm256_load_ps(y_ptr), _mm256_mul_ps(_mm256_loadu_ps(weight_ptr), scalevec)));
+                    _mm256_storeu_ps(y_ptr, _mm256_add_ps(_mm256_loadu_ps(y_ptr), _mm256_mul_ps(_mm256_loadu_ps(weight_ptr), scalevec)));
 #endif  
                 }
 #endif
-- 
2.43.0


From 23e7607840c0ef9cff3a85ccb6864d56681f4fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:31 +0000
Subject: [PATCH 04/33] fix: unaligned memory access in the activation
 derivatives

The gradient of a layer lies at any offset in the gradient buffer, so hidden
layers with 16 or more relu, sigmoid or tanh units crashed in backpropagation.
---
 src/activation.c | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/activation.c b/src/activation.c
index 90effd3..b0a6d54 100644
--- a/src/activation.c
+++ b/src/activation.c
@@ -651,8 +651,8 @@ static void relu_derivative        ( const int n, const float *activation, float
     __m256 YMM0, YMM1, YMM2, YMM3;
 
     for (i = 0; i <= ((n)-16); i += 16) {
-        YMM0 = _mm256_load_ps(activation + i);
-        YMM1 = _mm256_load_ps(activation + i + 8);
+        YMM0 = _mm256_loadu_ps(activation + i);
+        YMM1 = _mm256_loadu_ps(activation + i + 8);
         
         YMM0 = _mm256_cmp_ps(YMM0, zero, _CMP_LE_OS);
         YMM1 = _mm256_cmp_ps(YMM1, zero, _CMP_LE_OS);
@@ -660,11 +660,11 @@ static void relu_derivative        ( const int n, const float *activation, float
         YMM0 = _mm256_blendv_ps( ones, zero, YMM0);
         YMM1 = _mm256_blendv_ps( ones, zero, YMM1);
 
-        YMM2 = _mm256_load_ps(ar + i);
-        YMM3 = _mm256_load_ps(ar + i + 8);
+        YMM2 = _mm256_loadu_ps(ar + i);
+        YMM3 = _mm256_loadu_ps(ar + i + 8);
 
-        _mm256_store_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
-        _mm256_store_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
+        _mm256_storeu_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
+        _mm256_storeu_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
     }
 #endif /* __AVX__ */
     for(; i < n; i++ )
@@ -681,8 +681,8 @@ static void sigmoid_derivative     ( const int n, const float *activation, float
     __m256 YMM0, YMM1, YMM2, YMM3;
 
     for (i = 0; i <= ((n)-16); i += 16) {
-        YMM0 = _mm256_load_ps(activation + i);
-        YMM1 = _mm256_load_ps(activation + i + 8);
+        YMM0 = _mm256_loadu_ps(activation + i);
+        YMM1 = _mm256_loadu_ps(activation + i + 8);
 
         YMM2 = _mm256_sub_ps( ones, YMM0 );
         YMM3 = _mm256_sub_ps( ones, YMM1 );
@@ -690,11 +690,11 @@ static void sigmoid_derivative     ( const int n, const float *activation, float
         YMM0 = _mm256_mul_ps(YMM0, YMM2);
         YMM1 = _mm256_mul_ps(YMM1, YMM3);
 
-        YMM2 = _mm256_load_ps(ar + i);
-        YMM3 = _mm256_load_ps(ar + i + 8);
+        YMM2 = _mm256_loadu_ps(ar + i);
+        YMM3 = _mm256_loadu_ps(ar + i + 8);
 
-        _mm256_store_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
-        _mm256_store_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
+        _mm256_storeu_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
+        _mm256_storeu_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
     }
 #endif /* __AVX__ */
     for(; i < n; i++ )
@@ -710,8 +710,8 @@ static void tanh_act_derivative    ( const int n, const float *activation, float
     __m256 YMM0, YMM1, YMM2, YMM3;
 
     for (i = 0; i <= ((n)-16); i += 16) {
-        YMM0 = _mm256_load_ps(activation + i);
-        YMM1 = _mm256_load_ps(activation + i + 8);
+        YMM0 = _mm256_loadu_ps(activation + i);
+        YMM1 = _mm256_loadu_ps(activation + i + 8);
 
         YMM0 = _mm256_mul_ps(YMM0, YMM0);
         YMM1 = _mm256_mul_ps(YMM1, YMM1);
@@ -719,11 +719,11 @@ static void tanh_act_derivative    ( const int n, const float *activation, float
         YMM0 = _mm256_sub_ps(ones, YMM0);
         YMM1 = _mm256_sub_ps(ones, YMM1);
 
-        YMM2 = _mm256_load_ps(ar + i);
-        YMM3 = _mm256_load_ps(ar + i + 8);
+        YMM2 = _mm256_loadu_ps(ar + i);
+        YMM3 = _mm256_loadu_ps(ar + i + 8);
 
-        _mm256_store_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
-        _mm256_store_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
+        _mm256_storeu_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
+        _mm256_storeu_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
     }
 #endif /* __AVX__ */
     for( ; i < n; i++ )
-- 
2.43.0


From ab21c688575ea6ac12b19f4435efc149d21df3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:31 +0000
Subject: [PATCH 05/33] fix: tanh activation of an unaligned vector

The other activations process the unaligned head with scalar code; tanh did not.
---
 src/activation.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/activation.c b/src/activation.c
index b0a6d54..5c04aec 100644
--- a/src/activation.c
+++ b/src/activation.c
@@ -540,6 +540,9 @@ static void tanh_act( const int n, float *y )
 {
     int i = 0;
 #ifdef __AVX2__
+    for ( ; !is_aligned( y + i ) && i < n; i++)
+        y[i] = tanhf(y[i]);
+
     const __m256 one      = _mm256_set1_ps( 1.0f);
     const __m256 neg_one  = _mm256_set1_ps(-1.0f);
     const __m256 two      = _mm256_set1_ps( 2.0f);
@@ -547,7 +550,7 @@ static void tanh_act( const int n, float *y )
 
     __m256 YMM0, YMM1, YMM2, YMM3;
 
-    for (i = 0; i <= ((n)-16); i += 16) {
+    for (; i <= ((n)-16); i += 16) {
         YMM0 = _mm256_load_ps(y + i);
         YMM1 = _mm256_load_ps(y + i + 8);
         YMM0 = _mm256_mul_ps(neg_two, YMM0);
-- 
2.43.0


From 082f43f6d66de2b8b83d1934516794c836d884b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:31 +0000
Subject: [PATCH 06/33] fix: softplus and its derivative overflow for large
 values

softplus(x) was infinite for x > 88, and the derivative not a number.
---
 src/activation.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/activation.c b/src/activation.c
index 5c04aec..32ad0c1 100644
--- a/src/activation.c
+++ b/src/activation.c
@@ -579,7 +579,7 @@ static void exponential( const int n, float *ar )
 static void softplus( const int n, float *ar )
 {
     for( int i = 0; i < n; i++ )
-        ar[i] = logf( expf(ar[i]) + 1.0f ) ;
+        ar[i] = fmaxf( ar[i], 0.0f ) + log1pf( expf( -fabsf(ar[i]) ) ) ;
 }
 
 static void softsign( const int n, float *ar )
@@ -599,10 +599,8 @@ static void hard_sigmoid( const int n, float *ar )
 #ifndef PREDICTION_ONLY
 static void softplus_derivative    ( const int n, const float *activation, float *ar )
 {
-    for( int i=0; i < n; i++ ){
-        float x =  expf( activation[i] );
-        ar[i] *= (x - 1.0f) / x; 
-    }
+    for( int i=0; i < n; i++ )
+        ar[i] *= -expm1f( -activation[i] );
 }
 
 static void softsign_derivative    ( const int n, const float *activation, float *ar )
-- 
2.43.0


From f97c49a403e5f815fdda1bb22df3121e74d83819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:31 +0000
Subject: [PATCH 07/33] fix: keep the length of the shuffle pivot per optimizer

The length was static: a second optimizer with the same number of training
samples got no pivot at all, and one with another number invalidated the first.
---
 src/optimizer.c | 5 ++---
 src/optimizer.h | 2 ++
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/optimizer.c b/src/optimizer.c
index 3df147a..e5f4434 100644
--- a/src/optimizer.c
+++ b/src/optimizer.c
@@ -15,9 +15,8 @@
 
 static void prepare_shuffle_pivot( optimizer_t *opt, const unsigned n_train_samples )
 {
-    static unsigned int _n_sample = 0;
-    if ( n_train_samples != _n_sample ){
-        _n_sample = n_train_samples;
+    if ( n_train_samples != opt->n_pivot ){
+        opt->n_pivot = n_train_samples;
         opt->pivot = realloc( opt->pivot, n_train_samples * sizeof(unsigned int));
         if ( !opt->pivot ){
             fprintf( stderr, "Cannot allocate pivot array.\n");
diff --git a/src/optimizer.h b/src/optimizer.h
index 7de3202..5a59453 100644
--- a/src/optimizer.h
+++ b/src/optimizer.h
@@ -31,6 +31,7 @@ struct _optimizer_t {
     void         (*progress)( int x, int n, const char *fmt, ...);
     metric_func  *metrics;  /* NULL terminated */
     unsigned int *pivot;    /* Don't touch! */
+    unsigned int n_pivot;   /* Don't touch! Number of elements in pivot */
 };
 
 #if defined(__GNUC__)
@@ -68,6 +69,7 @@ DLLEXPORT name ## _t * name ## _new( neuralnet_t *nn, optimizer_properties_t opt
     newopt->opt.metrics    = optconf.metrics;   \
     \
     newopt->opt.pivot      = NULL; /* This will be allocated in the main loop */ \
+    newopt->opt.n_pivot    = 0;    \
     \
     __VA_ARGS__ ; \
     optimizer_check_sanity( OPTIMIZER(newopt) ); \
-- 
2.43.0


From 5800cadab6c6329a512e6515d51b4a9ab1e970ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:31 +0000
Subject: [PATCH 08/33] fix: keep the bias correction of adam per optimizer

The powers of beta_1 and beta_2 were static and shared by all adam optimizers.
---
 src/adam.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/adam.c b/src/adam.c
index be59be0..f8a2d22 100644
--- a/src/adam.c
+++ b/src/adam.c
@@ -25,6 +25,8 @@ struct _adam_t
     /* private stuff - don't touch! */
     float *r;
     float *s;
+    float beta_1_corrected;
+    float beta_2_corrected;
 };
 
 static void adam_optimizer_init( adam_t *adam, adam_properties_t *properties )
@@ -35,6 +37,8 @@ static void adam_optimizer_init( adam_t *adam, adam_properties_t *properties )
     adam->beta_1 = props->beta_1;
     adam->beta_2 = props->beta_2;
     adam->weight_decay = props->weight_decay;
+    adam->beta_1_corrected = 1.0f;
+    adam->beta_2_corrected = 1.0f;
 
     const unsigned int n_param = neuralnet_total_n_parameters( OPTIMIZER(adam)->nn );
 
@@ -155,9 +159,6 @@ void adam_run_epoch( optimizer_t *opt,
     neuralnet_t *nn = opt->nn;
     const unsigned int n_parameters = neuralnet_total_n_parameters( nn );
 
-    static float beta_1_corrected = 1.0f;
-    static float beta_2_corrected = 1.0f;
-
     /* One epoch */
     for ( unsigned int i = 0; i < n_train_samples ;  ){
 
@@ -165,8 +166,8 @@ void adam_run_epoch( optimizer_t *opt,
         optimizer_calc_batch_gradient( opt, n_train_samples, train_X, train_Y, &i, g );
         if(opt->progress) opt->progress( i, n_train_samples, "Train: " );
         
-        beta_1_corrected *= adam->beta_1;
-        beta_2_corrected *= adam->beta_2;
+        adam->beta_1_corrected *= adam->beta_1;
+        adam->beta_2_corrected *= adam->beta_2;
 
         #pragma omp parallel sections
         {
@@ -176,7 +177,7 @@ void adam_run_epoch( optimizer_t *opt,
             update_biased_second_moment( n_parameters, adam->r, g, adam->beta_2 );
         }
 
-        compute_update_adam( n_parameters, g, adam->s, adam->r, beta_1_corrected, beta_2_corrected, adam->learning_rate );
+        compute_update_adam( n_parameters, g, adam->s, adam->r, adam->beta_1_corrected, adam->beta_2_corrected, adam->learning_rate );
 
         if( adam->weight_decay > 0.0f ){
             float SIMD_ALIGN(weights[n_parameters]);
-- 
2.43.0


From 6c86cdc8e31f011a0f61014c0395c31d7b8b3774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:31 +0000
Subject: [PATCH 09/33] fix: keep the default metrics per optimizer

They were static: creating an optimizer for a network with another loss changed
the metric reported by the optimizers created before.
---
 src/optimizer.c | 7 +++----
 src/optimizer.h | 1 +
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/optimizer.c b/src/optimizer.c
index e5f4434..67616f5 100644
--- a/src/optimizer.c
+++ b/src/optimizer.c
@@ -48,12 +48,11 @@ void optimizer_check_sanity( optimizer_t * opt)
     assert( opt->batchsize > 0 );
 
     /* If the metrics is set to NULL - add the metric function corresponding to the loss */
-    static metric_func static_metrics[2];
-    static_metrics[0] = get_metric_func( get_loss_name( opt->nn->loss ));
-    static_metrics[1] = NULL;
+    opt->default_metrics[0] = get_metric_func( get_loss_name( opt->nn->loss ));
+    opt->default_metrics[1] = NULL;
 
     if( opt->metrics == NULL ){
-        opt->metrics = static_metrics;
+        opt->metrics = opt->default_metrics;
     }
 }
 
diff --git a/src/optimizer.h b/src/optimizer.h
index 5a59453..de4aa44 100644
--- a/src/optimizer.h
+++ b/src/optimizer.h
@@ -32,6 +32,7 @@ struct _optimizer_t {
     metric_func  *metrics;  /* NULL terminated */
     unsigned int *pivot;    /* Don't touch! */
     unsigned int n_pivot;   /* Don't touch! Number of elements in pivot */
+    metric_func  default_metrics[2];  /* Don't touch! Used when no metrics are given */
 };
 
 #if defined(__GNUC__)
-- 
2.43.0


From ee015eff5ec8205d1464eecee843a7e3bce23699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:31 +0000
Subject: [PATCH 10/33] fix: keep the state of early stopping per instance

The best result and the number of epochs without improvement were static and
shared by all instances.
---
 src/earlystopping.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/earlystopping.c b/src/earlystopping.c
index 5ef91b3..340327b 100644
--- a/src/earlystopping.c
+++ b/src/earlystopping.c
@@ -4,7 +4,7 @@
 */
 #include "earlystopping.h"
 #include <stdio.h>
-#include <float.h>
+#include <math.h>
 
 struct _earlystopping_t 
 {
@@ -14,6 +14,8 @@ struct _earlystopping_t
     int   monitor_idx;
     bool  greater_is_better;
     bool  early_stopping_flag;
+    float best_so_far;
+    int   epochs_since_improvement;
 };
 
 /* Define and set the defaults. OMG, this is ugly but it is general. */
@@ -23,15 +25,14 @@ CALLBACK_DEFINE(earlystopping,
         newcb->monitor_idx         = cfg->monitor_idx;
         newcb->greater_is_better   = cfg->greater_is_better;
         newcb->early_stopping_flag = false;
+        newcb->best_so_far         = cfg->greater_is_better ? -INFINITY : INFINITY;
+        newcb->epochs_since_improvement = 0;
 );
 
 void earlystopping_callback_run( callback_t *cb, optimizer_t * opt, const float *epoch_results, bool validation_set_given )
 {
     earlystopping_t *es = (earlystopping_t*) cb;
 
-    static float best_so_far = FLT_MAX; 
-    static int epochs_since_improvement = 0;
-
     bool improvement = false;
     /* which index? */
     int n_metrics = optimizer_get_n_metrics( opt );
@@ -42,24 +43,24 @@ void earlystopping_callback_run( callback_t *cb, optimizer_t * opt, const float
 
     float score = epoch_results[idx];
     if (es->greater_is_better) {
-        if ( score > best_so_far || best_so_far == FLT_MAX ){
+        if ( score > es->best_so_far ){
             improvement = true;
-            best_so_far = score;
+            es->best_so_far = score;
         }
     } else {
-        if( score < best_so_far ){
+        if( score < es->best_so_far ){
             improvement = true;
-            best_so_far = score;
+            es->best_so_far = score;
         }
     }
 
     if( improvement ){
-        epochs_since_improvement = 0;
+        es->epochs_since_improvement = 0;
         return;
     }
 
-    epochs_since_improvement++;
-    if ( epochs_since_improvement > es->patience ){
+    es->epochs_since_improvement++;
+    if ( es->epochs_since_improvement > es->patience ){
         es->early_stopping_flag = true;
     }
 
-- 
2.43.0


From 0663992864d26e801929a7589be94a77df176af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:31 +0000
Subject: [PATCH 11/33] fix: keep the best result of a model checkpoint per
 instance

It was static and shared by all instances.
---
 src/modelcheckpoint.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/modelcheckpoint.c b/src/modelcheckpoint.c
index 7b470bf..0e65d91 100644
--- a/src/modelcheckpoint.c
+++ b/src/modelcheckpoint.c
@@ -7,7 +7,7 @@
 #include "metrics.h"
 
 #include <stdio.h>
-#include <float.h>
+#include <math.h>
 #include <assert.h>
 
 struct _modelcheckpoint_t
@@ -18,6 +18,7 @@ struct _modelcheckpoint_t
     int monitor_idx;
     bool greater_is_better;
     bool verbose;
+    float best_so_far;
 };
 
 /* Define and set the defaults. OMG, this is ugly but it is general. */
@@ -27,14 +28,13 @@ CALLBACK_DEFINE(modelcheckpoint,
         newcb->monitor_idx           = cfg->monitor_idx;
         newcb->greater_is_better     = cfg->greater_is_better;
         newcb->verbose               = cfg->verbose;
+        newcb->best_so_far           = cfg->greater_is_better ? -INFINITY : INFINITY;
 );
 
 void modelcheckpoint_callback_run( callback_t *cb, optimizer_t * opt, const float *epoch_results, bool validation_set_given )
 {
     modelcheckpoint_t *mcp = (modelcheckpoint_t*) cb;
 
-    static float best_so_far = FLT_MAX; /* This will fail for greater_is_better */
-
     bool do_save = false;
     /* which index? */
     int n_metrics = optimizer_get_n_metrics( opt );
@@ -45,18 +45,18 @@ void modelcheckpoint_callback_run( callback_t *cb, optimizer_t * opt, const floa
 
     float score = epoch_results[idx];
     if (mcp->greater_is_better) {
-        if ( score > best_so_far || best_so_far == FLT_MAX ){
-            if( mcp->verbose )  /* BUG: This gives bullshit the first time */
-                printf("Improved from %.4e to %.4e (Saving checkpoint)\n", best_so_far, score );
+        if ( score > mcp->best_so_far ){
+            if( mcp->verbose )
+                printf("Improved from %.4e to %.4e (Saving checkpoint)\n", mcp->best_so_far, score );
             do_save = true;
-            best_so_far = score;
+            mcp->best_so_far = score;
         }
     } else {
-        if( score < best_so_far ){
+        if( score < mcp->best_so_far ){
             if( mcp->verbose )
-                printf("Improved from %.4e to %.4e (Saving checkpoint)\n", best_so_far, score );
+                printf("Improved from %.4e to %.4e (Saving checkpoint)\n", mcp->best_so_far, score );
             do_save = true;
-            best_so_far = score;
+            mcp->best_so_far = score;
         }
     }
 
-- 
2.43.0


From c5bb58455e069ecc9b0426852af583d7a3238159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:31 +0000
Subject: [PATCH 12/33] fix: the file name of a model checkpoint is not a
 format string

A percent sign in the name made neuralnet_save() read arguments that were
never passed.
---
 src/modelcheckpoint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modelcheckpoint.c b/src/modelcheckpoint.c
index 0e65d91..a840820 100644
--- a/src/modelcheckpoint.c
+++ b/src/modelcheckpoint.c
@@ -61,7 +61,7 @@ void modelcheckpoint_callback_run( callback_t *cb, optimizer_t * opt, const floa
     }
 
     if( do_save )
-        neuralnet_save( opt->nn, mcp->filename ? mcp->filename : "checkpoint.npz");
+        neuralnet_save( opt->nn, "%s", mcp->filename ? mcp->filename : "checkpoint.npz");
     return;
 }
 
-- 
2.43.0


From 87e7f82347805db5f5b5ef06572c85c5f54a7a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:31 +0000
Subject: [PATCH 13/33] fix: random_normal() returned not-a-number for S == 0

---
 src/neuralnet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index 0106850..96cff9c 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -706,7 +706,7 @@ static float random_normal()
             v = random_uniform();  /* from -1 to +1 */
 
             S = u*u + v*v;
-        } while (S >= 1.0f);
+        } while (S >= 1.0f || S == 0.0f);
 
         fac = sqrtf( -2.0f * logf(S) / S );
         Z = u * fac;
-- 
2.43.0


From 4deb3bc7918a07a050d671a211a4f39366be48f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:31 +0000
Subject: [PATCH 14/33] fix: missing initializer name in neuralnet_initialize()

A NULL name (for instance the terminator of a short list) was dereferenced.
---
 src/neuralnet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index 96cff9c..fed51a4 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -736,7 +736,7 @@ void neuralnet_initialize( neuralnet_t *nn, char *initializers[] )
         const int n_out = nn->layer[i].n_output;
 
         char *initializer = "";
-        if( initializers )
+        if( initializers && initializers[i] )
             initializer = initializers[i];
 
         if( streq( initializer, "xavier" ))
-- 
2.43.0


From 3044eb44fae9f22b2f03c4ffd21cc0d4448423df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:31 +0000
Subject: [PATCH 15/33] fix: neuralnet_create() without a list of activations

A missing name means linear; a missing list was dereferenced.
---
 src/neuralnet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index fed51a4..0f965fb 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -668,7 +668,7 @@ neuralnet_t * neuralnet_create( const int n_layers, int sizes[], char *activatio
 
     /* Set the activation functions */
     for( int i = 0; i < nn->n_layers; i++ ){
-        const char *func_name = activation_funcs[i];
+        const char *func_name = activation_funcs ? activation_funcs[i] : NULL;
         nn->layer[i].activation_func = get_activation_func( func_name ? func_name : "linear" );
         /* This is really an important test as it catches typos in the list of activations.
          * (Which is a common human error) Do not remove this test! */
-- 
2.43.0


From 9d6ed0fd8f5de5e79b1358ee6bb3ef5afb143a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:31 +0000
Subject: [PATCH 16/33] fix: uninitialised pointers freed when memory for the
 weights runs out

---
 src/neuralnet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index 0f965fb..62bd891 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -647,7 +647,7 @@ neuralnet_t * neuralnet_create( const int n_layers, int sizes[], char *activatio
 
     nn->n_layers = n_layers;
     /* The layers vector is also nice to do unaligned */
-    nn->layer = malloc( n_layers * sizeof( layer_t ));
+    nn->layer = calloc( n_layers, sizeof( layer_t ));
     if ( !(nn->layer)){
         fprintf( stderr, "Cannot allocate memory for neural neworks layers.\n");
         free( nn );
-- 
2.43.0


From 03ef4517ea6c53928f988582285ed5f625583d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:31 +0000
Subject: [PATCH 17/33] fix: integer overflow in the size of a weight matrix

---
 src/neuralnet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index 62bd891..b0d5968 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -74,7 +74,7 @@ static bool _weights_memory_allocate( neuralnet_t *nn )
     }
 
     for ( int i = 0; i < nn->n_layers; i++ ){
-        if (NULL == (nn->layer[i].weight = simd_malloc( nn->layer[i].n_input * nn->layer[i].n_output * sizeof( float ))))
+        if (NULL == (nn->layer[i].weight = simd_malloc( (size_t) nn->layer[i].n_input * nn->layer[i].n_output * sizeof( float ))))
             goto weight_alloc_error;
     }
 
-- 
2.43.0


From 5239d5ea0579eab4611758d48be8e91ab053b113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:57 +0000
Subject: [PATCH 18/33] fix: header lengths with a byte above 127 were sign
 extended

---
 npy_array/npy_array.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index b8f3cf9..e4a99d7 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -179,8 +179,8 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
 
     /* FIXME! This may fail for version 2 and it may also fail on big endian systems.... */
     uint16_t header_length = 0;
-    header_length |= fixed_header[NPY_ARRAY_HEADER_LENGTH_LOW_IDX];
-    header_length |= fixed_header[NPY_ARRAY_HEADER_LENGTH_HIGH_IDX] << 8;   /* Is a byte always 8 bit? */
+    header_length |= (unsigned char) fixed_header[NPY_ARRAY_HEADER_LENGTH_LOW_IDX];
+    header_length |= (unsigned char) fixed_header[NPY_ARRAY_HEADER_LENGTH_HIGH_IDX] << 8;   /* Is a byte always 8 bit? */
     
     char header[header_length + 1];
     chk = read_func( fp, header, header_length );
-- 
2.43.0


From ae2c6434478cd7836bacce1f1d7717a2afd206b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:57 +0000
Subject: [PATCH 19/33] fix: malformed array headers abort or overrun the
 header buffer

Loading a file whose header lacks an item, has an unterminated shape or eight or
more dimensions ended in an assertion or read past the header. Loading fails now,
and arrays with the maximum of eight dimensions can be loaded.
---
 npy_array/npy_array.c | 48 ++++++++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index e4a99d7..0759ee2 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -200,26 +200,34 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
     }
 
     char *descr   = find_header_item("'descr': '", header);
-    assert(descr);
-    if ( strchr("<>|", descr[0] ) ){
-        m->endianness = descr[0];
-        if( descr[0] != '|' && ( descr[0] != endianness())){
-            fprintf(stderr, "Warning: Endianess of system and file does not match.");
-        }
-    } else {
-        fprintf(stderr,"Warning: Endianness not found.");
+    if ( !descr || descr[0] == '\0' || !strchr("<>|", descr[0] ) || descr[1] == '\0' ){
+        fprintf(stderr,"No valid element type found.\n");
+        free( m );
+        return NULL;
+    }
+    m->endianness = descr[0];
+    if( descr[0] != '|' && ( descr[0] != endianness())){
+        fprintf(stderr, "Warning: Endianess of system and file does not match.");
     }
 
     /* FIXME Potential bug: Is the typechar always one byte? */
     m->typechar = descr[1];
 
     /* FIXME: Check the **endptr (second argument which is still NULL here)*/
-    m->elem_size = (size_t) strtoll( &descr[2], NULL, 10);
-    assert( m->elem_size > 0 );
+    m->elem_size = isdigit( (unsigned char) descr[2] ) ? (size_t) strtoll( &descr[2], NULL, 10) : 0;
+    if( m->elem_size == 0 ){
+        fprintf(stderr,"No valid element size found.\n");
+        free( m );
+        return NULL;
+    }
 
     /* FIXME: This only works if there is one and only one leading spaces. */
     char *fortran = find_header_item("'fortran_order': ", header);
-    assert( fortran );
+    if( !fortran ){
+        fprintf(stderr,"No storage order found.\n");
+        free( m );
+        return NULL;
+    }
 
     if(strncmp(fortran, "True", 4) == 0 )
         m->fortran_order = true;
@@ -230,15 +238,23 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
 
     /* FIXME: This only works if there is one and only one leading spaces. */
     char *shape   = find_header_item("'shape': ", header);
-    assert(shape);
-    while (*shape != ')' ) {
-        if( !isdigit( (int) *shape ) ){
-            shape++;
+    while ( shape && *shape != ')' ) {
+        if( !isdigit( (unsigned char) *shape ) ){
+            /* (Old versions of Python write long integers like: 3L) */
+            shape = *shape && strchr( "( ,L", *shape ) ? shape + 1 : NULL;
             continue;
         }
+        if( m->ndim == NPY_ARRAY_MAX_DIMENSIONS ){
+            shape = NULL;
+            break;
+        }
         m->shape[m->ndim] = strtol( shape, &shape, 10);
         m->ndim++;
-        assert( m->ndim < NPY_ARRAY_MAX_DIMENSIONS );
+    }
+    if( !shape ){
+        fprintf(stderr,"No valid shape found.\n");
+        free( m );
+        return NULL;
     }
 
     size_t n_elements = 1;
-- 
2.43.0


From a33981c29422b6cd027d4ba8b817ed0967cf4baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:57 +0000
Subject: [PATCH 20/33] fix: number of elements of arrays with an empty or with
 eight dimensions

A zero in the shape ended the product, so that the data of an empty array was
read and written out of bounds. With eight dimensions the loops read past the
shape. A product that does not fit size_t gave a buffer that is too small.
---
 npy_array/npy_array.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index 0759ee2..3d24bbc 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -135,9 +135,8 @@ size_t npy_array_get_header( const npy_array_t *m,  char *buf )
 size_t npy_array_calculate_datasize( const npy_array_t *m )
 {
     size_t n_elements = 1;
-    int idx = 0;
-    while ( m->shape[ idx ] > 0 && (idx < m->ndim) )
-        n_elements *= m->shape[ idx++ ];
+    for( int idx = 0; idx < m->ndim; idx++ )
+        n_elements *= m->shape[ idx ];
     return n_elements * m->elem_size;
 }
 
@@ -258,9 +257,14 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
     }
 
     size_t n_elements = 1;
-    int idx = 0;
-    while ( m->shape[ idx ] > 0 )
-        n_elements *= m->shape[ idx++ ];
+    for( int idx = 0; idx < m->ndim; idx++ ){
+        if( m->shape[ idx ] && n_elements > SIZE_MAX / m->elem_size / m->shape[ idx ] ){
+            fprintf(stderr, "Array is too large.\n");
+            free( m );
+            return NULL;
+        }
+        n_elements *= m->shape[ idx ];
+    }
 
 #if VERBOSE
     printf("Number of elements: %llu\n", (unsigned long long) n_elements );
-- 
2.43.0


From 57aa87af7538f9fddbc1b506861df8157e645ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:57 +0000
Subject: [PATCH 21/33] fix: memory mapping of truncated files and of files
 with trailing bytes

A truncated file was mapped successfully, with data beyond the mapping, and of a
file with trailing bytes a part stayed mapped.
---
 npy_array/npy_array.c | 22 ++++++++++------------
 npy_array/npy_array.h |  1 +
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index 3d24bbc..42f1f0e 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -272,8 +272,14 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
     m->map_addr = NULL;
     if( read_func == read_mapped ){
         map_handler_t *mh = (map_handler_t*) fp;
+        if( mh->length - (mh->current_pos - mh->start_pos) < m->elem_size * n_elements ){
+            fprintf(stderr, "Could not read all data.\n");
+            free( m );
+            return NULL;
+        }
         m->data = mh->current_pos;
         m->map_addr = mh->start_pos;
+        m->map_length = mh->length;
         return m;
     }
 
@@ -319,7 +325,7 @@ static int64_t read_mapped( void *map, void *buffer, uint64_t nbytes )
     size_t bytes_to_read = bytes_left > nbytes ? nbytes : bytes_left;
     memcpy( buffer, mh->current_pos, bytes_to_read );
     mh->current_pos += bytes_to_read;
-    return (int64_t) nbytes;
+    return (int64_t) bytes_to_read;
 }
 
 npy_array_t * npy_array_mmap( const char *filename )
@@ -402,17 +408,9 @@ void npy_array_free( npy_array_t *m )
         return;
     }
 
-    if( m->map_addr ){
-        /* We need the length of the data mapped. We are mapping the whole file, so we have to
-           recalculate the size.  */
-        uint16_t header_length = 0;
-        char *preheader = m->map_addr;
-        header_length |= preheader[NPY_ARRAY_HEADER_LENGTH_LOW_IDX];
-        header_length |= preheader[NPY_ARRAY_HEADER_LENGTH_HIGH_IDX] << 8;
-
-        size_t len = NPY_ARRAY_PREHEADER_LENGTH + header_length + npy_array_calculate_datasize(m);
-        munmap( m->map_addr, len );
-    } else
+    if( m->map_addr )
+        munmap( m->map_addr, m->map_length );
+    else
         free( m->data );
 
     free( m );
diff --git a/npy_array/npy_array.h b/npy_array/npy_array.h
index 3c02e01..e9cfbf1 100644
--- a/npy_array/npy_array.h
+++ b/npy_array/npy_array.h
@@ -55,6 +55,7 @@ typedef struct _npy_array_t {
     bool              fortran_order;
     /* Consider map_addr as a private member. Do modify this pointer! Used for unmap() */
     void             *map_addr;      /* pointer to the map if array is mmap()'ed -- else NULL */
+    size_t            map_length;    /* length of the map */
 } npy_array_t;
 
 
-- 
2.43.0


From 336886578b6e7fc081650ff4de720f433a031e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:57 +0000
Subject: [PATCH 22/33] fix: array headers with large or many dimensions

A dictionary of 108 or more characters ended in an assertion, and dimensions
above INT_MAX were truncated.
---
 npy_array/npy_array.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index 42f1f0e..2c68834 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -97,7 +97,7 @@ size_t npy_array_get_header( const npy_array_t *m,  char *buf )
     char *ptr = shape;
 
     for( int i = 0; i < m->ndim; i++)
-        ptr += sprintf(ptr, "%d,", (int) m->shape[i]);
+        ptr += sprintf(ptr, "%zu,", m->shape[i]);
     assert( ptr - shape < NPY_ARRAY_SHAPE_BUFSIZE );
 
     /* Potential bug? There are some additional whitespaces after the dictionaries saved from
@@ -120,8 +120,10 @@ size_t npy_array_get_header( const npy_array_t *m,  char *buf )
             m->fortran_order ? "True": "False",
             shape );
 
-    assert( len < HEADER_LEN ); /* FIXME: This can go wrong for really big arrays with a lot of dimensions */
-    len += sprintf( dict + len, "%*s\n", (int) (HEADER_LEN - len + NPY_ARRAY_PREHEADER_LENGTH - 1), " " );
+    size_t dict_len = HEADER_LEN + NPY_ARRAY_PREHEADER_LENGTH;
+    while( len + 2 > dict_len ) /* Big arrays with a lot of dimensions */
+        dict_len += 64;
+    len += sprintf( dict + len, "%*s\n", (int) (dict_len - len - 1), " " );
 
     const uint16_t _len = (uint16_t) (len);
     memcpy( p, &_len, sizeof(uint16_t));
-- 
2.43.0


From 270294d1f1aa5289d9e443fd761396fc5ccadc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:57 +0000
Subject: [PATCH 23/33] fix: names of archive entries were used as printf
 format when loading

A percent sign in a name read arguments that were never passed, and names of more
than 80 characters ended in an assertion.
---
 npy_array/npy_array_list.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/npy_array/npy_array_list.c b/npy_array/npy_array_list.c
index 73663fa..890b958 100644
--- a/npy_array/npy_array_list.c
+++ b/npy_array/npy_array_list.c
@@ -220,7 +220,22 @@ npy_array_list_t * npy_array_list_load( const char *filename )
             fprintf(stderr, "Warning: Cannot read matrix.\n");
             continue;
         }
-        list = npy_array_list_append( list, arr, zip_get_name( zip, i, 0 ));
+        /* The name is used as it is: it is not a format, and it can have any length. */
+        const char *name = zip_get_name( zip, i, 0 );
+        npy_array_list_t *elem = npy_array_list_new();
+        if( elem && name )
+            elem->filename = malloc( strlen( name ) + 1 );
+        if( !elem || !elem->filename ){
+            fprintf(stderr, "Cannot allocate memory for array list.\n");
+            free( elem );
+            npy_array_free( arr );
+            npy_array_list_free( list );
+            list = NULL;
+            break;
+        }
+        strcpy( elem->filename, name );
+        elem->array = arr;
+        list = _list_append( list, elem );
     }
 
     zip_close(zip);
-- 
2.43.0


From ae118dfa1de5b677ceabf00ddc5cdaacf1feee6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:57 +0000
Subject: [PATCH 24/33] fix: a too long array name aborts

The list is returned unchanged, as it is when memory runs out.
---
 npy_array/npy_array_list.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/npy_array/npy_array_list.c b/npy_array/npy_array_list.c
index 890b958..2c5c9fa 100644
--- a/npy_array/npy_array_list.c
+++ b/npy_array/npy_array_list.c
@@ -124,8 +124,11 @@ npy_array_list_t * npy_array_list_ ##oper ( npy_array_list_t *list, npy_array_t
     va_list ap1; \
     va_start( ap1, filename ); \
     new_list->filename = _va_args_filename( filename, ap1 ); \
-    assert( new_list->filename ); \
     va_end( ap1 ); \
+    if( !new_list->filename ){ \
+        free( new_list ); \
+        return list; \
+    } \
 \
     return _list_ ##oper ( list, new_list ); \
 } 
-- 
2.43.0


From 8a09e630dcb0f7f1298849aed157662dd2892e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:57 +0000
Subject: [PATCH 25/33] fix: saving an archive: compression, duplicate names
 and I/O errors

The compression was set before the entry existed, and hence ignored. Entries that
could not be added were counted as written, and so were all when the archive could
not be written. A file that cannot be opened ended in an assertion.
---
 npy_array/npy_array_list.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/npy_array/npy_array_list.c b/npy_array/npy_array_list.c
index 2c5c9fa..6986ef5 100644
--- a/npy_array/npy_array_list.c
+++ b/npy_array/npy_array_list.c
@@ -158,13 +158,13 @@ int npy_array_list_save_compressed( const char *filename, npy_array_list_t *arra
 
     /* FIXME: Better test */
     zip_t *zip = zip_open( filename, ZIP_CREATE | ZIP_TRUNCATE, NULL );
-    assert( zip );
+    if( !zip ){
+        fprintf(stderr, "cannot zip_open file: %s\n", filename );
+        return 0;
+    }
 
     int n = 0;
     for( npy_array_list_t *iter = array_list; iter; iter = iter->next ){
-        if ( zip_set_file_compression(zip, n, comp, comp_flags) < 0){
-            /* what is wrong? */
-        }
         /* if the filename is not set, set one. However.. if the list was created with append and prepend,
          * this will never be true. */
         if(!iter->filename)
@@ -187,16 +187,21 @@ int npy_array_list_save_compressed( const char *filename, npy_array_list_t *arra
         assert(s); 
 
         int idx = zip_file_add( zip, iter->filename, s, ZIP_FL_ENC_UTF_8 );
-        if( idx != n )
-            fprintf( stderr, "Warning: Index and counter mismatch.");
+        if( idx < 0 ){
+            fprintf( stderr, "Warning: Cannot add '%s': %s\n", iter->filename, zip_strerror( zip ));
+            zip_source_free( s );
+            continue;
+        }
+        if ( zip_set_file_compression(zip, idx, comp, comp_flags) < 0)
+            fprintf( stderr, "Warning: Cannot set compression of '%s': %s\n", iter->filename, zip_strerror( zip ));
 
-        // fprintf(stderr, "Error: %s\n", zip_strerror( zip ));
-        
         n++;
     }
     if ( zip_close( zip ) < 0 ){
         fprintf(stderr, "What? no close?\n");
         fprintf(stderr, "Error: %s\n", zip_strerror( zip ));
+        zip_discard( zip );
+        return 0;
     }
     return n;
 }
-- 
2.43.0


From 787fad2360aa1ff8cf954d0f6014dac47935c1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:57 +0000
Subject: [PATCH 26/33] fix: reject archives that do not hold a neural network

Arrays with another element type, dimensions that do not fit, an odd number of
arrays or missing activation names led to memory access out of bounds, wrong
parameters or an assertion.
---
 src/neuralnet.c | 61 +++++++++++++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 27 deletions(-)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index b0d5968..56216b1 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -19,6 +19,7 @@
 #include <stdbool.h>
 #include <math.h>
 #include <assert.h>
+#include <limits.h>
 
 #if defined(VERBOSE) 
 static void neuralnet_dump( const neuralnet_t *nn )
@@ -95,9 +96,13 @@ weight_alloc_error:
 static char ** _activation_names_from_npy( npy_array_t *m )
 {
     char ** ret = calloc( m->shape[0], sizeof( char* ));
-    assert( ret );
+    if( !ret )
+        return NULL;
     ret[0] = calloc( m->shape[0] * (m->elem_size + 1), sizeof(char) );  /* sizeof(char) is always 1! */
-    assert( ret[0] );
+    if( !ret[0] ){
+        free( ret );
+        return NULL;
+    }
 
     for( unsigned int i = 1; i < m->shape[0]; i++ )
         ret[i] = ret[0] + i * (m->elem_size + 1);
@@ -118,6 +123,7 @@ neuralnet_t *neuralnet_load( const char *filename)
     npy_array_list_t  *array_list          = NULL;
     npy_array_t      **weights_and_biases  = NULL;
     char             **activation_funcs    = NULL;
+    npy_array_t       *activation_names    = NULL;
     int                wb_idx              = 0;
     neuralnet_t       *nn                  = NULL;
 
@@ -139,19 +145,40 @@ neuralnet_t *neuralnet_load( const char *filename)
 
     for( npy_array_list_t *iter = array_list; iter; iter = iter->next ) {
         npy_array_t *m = iter->array;
-        if( m->typechar == 'f' )
+        if( m->typechar == 'f' && m->elem_size == sizeof(float) && m->endianness != '>' && !m->fortran_order )
             weights_and_biases[wb_idx++] = m;
-        else if( m->typechar == 'S' )
-            activation_funcs = _activation_names_from_npy( m );
+        else if( m->typechar == 'S' && !activation_names )
+            activation_names = m;
         else {
             fprintf( stderr, "Element type of numpy array is neither 'float32' or ascii charaters. Cannot open file '%s'.\n", filename );
             goto load_error;
         }
     }
 
-    assert( (wb_idx % 2) == 0 );  /* There should be one weight and one bias npy arrays for each layer. This should hence be even. */
+    /* There should be one weight and one bias npy arrays for each layer. This should hence be even. */
+    const int n_layers = wb_idx / 2;
+    if( n_layers < 1 || (wb_idx % 2) != 0 || !activation_names ||
+            activation_names->ndim != 1 || activation_names->shape[0] != (size_t) n_layers ){
+        fprintf( stderr, "Number of arrays and number of activations do not make a neural network. Cannot open file '%s'.\n", filename );
+        goto load_error;
+    }
+
+    for( int i = 0; i < n_layers; i++ ){
+        const npy_array_t *weights = weights_and_biases[i*2];
+        const npy_array_t *bias    = weights_and_biases[i*2+1];
+        if( weights->ndim != 2 || bias->ndim != 1 || weights->shape[1] != bias->shape[0] ||
+                weights->shape[0] > INT_MAX || weights->shape[1] > INT_MAX ||
+                ( i > 0 && weights->shape[0] != weights_and_biases[(i-1)*2]->shape[1] )){
+            fprintf( stderr, "Array dimensions of layer %d do not fit. Cannot open file '%s'.\n", i, filename );
+            goto load_error;
+        }
+    }
+
+    if( !(activation_funcs = _activation_names_from_npy( activation_names ))){
+        fprintf( stderr, "Cannot allocate memory for activation names.\n" );
+        goto load_error;
+    }
 
-    int n_layers = wb_idx / 2;
     {  /* An added scope to please 'goto' */
         int sizearray[ n_layers + 1 ];
         sizearray[0] = weights_and_biases[0]->shape[0];
@@ -173,22 +200,6 @@ neuralnet_t *neuralnet_load( const char *filename)
         npy_array_t *weights   = weights_and_biases[i*2];
         npy_array_t *bias      = weights_and_biases[i*2+1];
 
-        /* Some basic checks, but just warnings. */
-        if( weights->ndim != 2 )
-            fprintf(stderr, "WARNING: weight npy array not 2-dimensional in layer %d (It's %dD!)\n", i, weights->ndim);
-        if( bias->ndim != 1 )
-            fprintf(stderr, "WARNING: bias npy array not 1-dimensional in layer %d (It's %dD!)\n", i, bias->ndim);
-        if( weights->shape[1] != bias->shape[0] )
-            fprintf(stderr, "WARNING: bias size does not match weight size in layer %d. Weight: (%ld,%ld) Bias (%ld)\n",
-                    i, weights->shape[0], weights->shape[1], bias->shape[0]);
-        if( i > 0 ){
-            if( weights->shape[0] != weights_and_biases[(i-1)*2]->shape[1] ){
-                fprintf( stderr, "WARNING: weight size mismatch between layer %d and %d.", (i-1), i );
-                fprintf( stderr, "* Prev layer output size: %ld\n", weights_and_biases[(i-1)*2]->shape[1] ); 
-                fprintf( stderr, "* This layer  input size: %ld\n", weights->shape[0] ); 
-            }
-        }
-
         memcpy( nn->layer[i].weight, weights->data, weights->shape[0] * weights->shape[1] * sizeof(float));
         /* Debug 
         print_matrix( weights->shape[0], weights->shape[1], (float*) weights->data );
@@ -196,10 +207,6 @@ neuralnet_t *neuralnet_load( const char *filename)
         */
         memset( nn->layer[i].bias, 0,   nn->layer[i].n_output * sizeof(float));
         memcpy( nn->layer[i].bias, bias->data, bias->shape[0] * sizeof(float));
-        /* FIXME in far future: If the matrices are fortran order, reorganize them. Hmmm ... maybe
-         * such feature belong in npy_array? */ 
-        assert( weights->fortran_order == false );
-        assert( bias->fortran_order == false );
     }
 
 load_error:
-- 
2.43.0


From 203fd44ced523db4510015cf8d9b60a154668459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:57 +0000
Subject: [PATCH 27/33] fix: buffer overflow and dangling pointers when loading
 an activation

A symbol name of more than 244 characters overflowed a stack buffer, and when
memory ran out a pointer into the closed library was returned.
---
 src/activation.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/activation.c b/src/activation.c
index 32ad0c1..4119678 100644
--- a/src/activation.c
+++ b/src/activation.c
@@ -123,13 +123,20 @@ static activation_func get_activation_func_dynamic( const char *name )
         return NULL;
     }
     activation_func retfunc = dlsym( handle, symbol );
-    char derivative_symbol[256];
-    sprintf(derivative_symbol, "%s_derivative", symbol );
-    free( file_and_symbol_name );
     char * error_message = dlerror();
     if( error_message )
     {
         fprintf( stderr, "dlsym(): %s\n", error_message );
+        free( file_and_symbol_name );
+        dlclose( handle );
+        return NULL;
+    }
+    char *derivative_symbol = malloc( strlen( symbol ) + sizeof( "_derivative" ) );
+    if( derivative_symbol )
+        sprintf(derivative_symbol, "%s_derivative", symbol );
+    free( file_and_symbol_name );
+    if( !derivative_symbol ){
+        perror("Cannot allocate memory for function name.\n");
         dlclose( handle );
         return NULL;
     }
@@ -137,8 +144,9 @@ static activation_func get_activation_func_dynamic( const char *name )
     activation_record_t *rec = malloc( sizeof(activation_record_t) );
     if ( !rec ){
         perror( "Cannot allocate memory for dynamic loaded activation function record.\n" );
+        free( derivative_symbol );
         dlclose( handle );
-        return retfunc;
+        return NULL;
     }
 
     /* Need to strdup again ... (Or maybe I can reuse if I re-insert the @ ?) */
@@ -146,12 +154,15 @@ static activation_func get_activation_func_dynamic( const char *name )
     rec->activation_name = malloc( len );
     if ( !rec->activation_name ){
         perror("Cannot allocate memory for dynamic loaded activation function name.\n" );
+        free( derivative_symbol );
+        free( rec );
         dlclose( handle );
-        return retfunc;
+        return NULL;
     }
     memcpy( rec->activation_name, name, len);
 
     rec->deriv_ptr = dlsym( handle, derivative_symbol);
+    free( derivative_symbol );
     error_message = dlerror();
     if( error_message )
     {
-- 
2.43.0


From 5077ac94801846c505fae1551f805ab3c149157b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:30 +0000
Subject: [PATCH 28/33] fix: finding the last epoch in a log file

An empty log, one without the word Epoch and one with a single line were not
handled: memory was accessed out of bounds or the numbering started over. So it did
when the last line was longer than the buffer.
---
 src/logger.c | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/logger.c b/src/logger.c
index 07fb869..1080382 100644
--- a/src/logger.c
+++ b/src/logger.c
@@ -10,6 +10,7 @@
 #include <assert.h>
 #include <string.h>
 #include <unistd.h>
+#include <limits.h>
 
 struct _logger_t 
 {
@@ -43,21 +44,22 @@ static int find_last_epoch_from_logfile( logger_t *logger )
         FILE *fp = fopen( logger->filename, "r");
         if(!fp)
             return logger->epoch_count; /* Fail silently should be OK */
+        /* The last line with an epoch counter decides. (A line can be longer than the buffer, but the
+           counter is at the beginning.) */
         char buf[MAX_BUFFER + 1];
-        fseek( fp, -MAX_BUFFER, SEEK_END );
-        size_t len=fread( buf, 1, MAX_BUFFER, fp );
-        fclose(fp);  /* Hurry up and close it */
-        buf[len] = '\0';
-        if( buf[len-1] == '\n' )  /* Dirty trick if the last line is terminated by newline (which it usually is) */
-            buf[len-1] = '\0';
-        char *last_newline = strrchr( buf, '\n' );
-        if ( !last_newline )
-            return logger->epoch_count;
-        char *last_line = last_newline + 1;
-        if( buf[len-1] == '\0' ) /* Fixing up the dirty trick */
-            buf[len-1] = '\n';   /* we are working on a buffer copy anyway so this is not a big deal */
-        char *e_counter = strstr( last_line, EPOCH_STR) + strlen(EPOCH_STR);
-        return atoi( e_counter ) + 1;
+        int epoch_count = logger->epoch_count;
+        bool start_of_line = true;
+        while( fgets( buf, sizeof(buf), fp ) ){
+            char *e_counter = start_of_line ? strstr( buf, EPOCH_STR ) : NULL;
+            if( e_counter ){
+                long epoch = strtol( e_counter + strlen(EPOCH_STR), NULL, 10 );
+                if( epoch >= 0 && epoch < INT_MAX )
+                    epoch_count = (int) epoch + 1;
+            }
+            start_of_line = strchr( buf, '\n' ) != NULL;
+        }
+        fclose(fp);
+        return epoch_count;
     }
     return logger->epoch_count;
 }
-- 
2.43.0


From 15aee1b9c3a0ea75426bedf0a342e2f0f87f6e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:30 +0000
Subject: [PATCH 29/33] fix: buffer overflow in the logger when there are many
 metrics

---
 src/logger.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/logger.c b/src/logger.c
index 1080382..e292853 100644
--- a/src/logger.c
+++ b/src/logger.c
@@ -68,7 +68,11 @@ void logger_callback_run( callback_t *cb, optimizer_t * opt, const float *epoch_
 {
     logger_t *log = (logger_t*) cb;
 
-    char buffer[MAX_BUFFER + 1];
+    /* Metric values of both phases take at most 64 characters each in addition to the name */
+    size_t buffer_size = 64;
+    for ( int i = 0; i < optimizer_get_n_metrics( opt ); i++ )
+        buffer_size += 2 * (64 + strlen( get_metric_name( opt->metrics[i] )));
+    char buffer[buffer_size];
     char *ptr = buffer;
     time_t rawtime;
     struct tm * timeinfo;
@@ -92,7 +96,7 @@ void logger_callback_run( callback_t *cb, optimizer_t * opt, const float *epoch_
     }
 
     ptr += sprintf(ptr, "\n" );
-    assert( ptr - buffer < MAX_BUFFER );
+    assert( (size_t) (ptr - buffer) < buffer_size );
 
     /* Print it out */
     if ( !log->no_stdout )
-- 
2.43.0


From 1b9e8c51672d1db3b3bac228a2bb5a7e8f86b295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:30 +0000
Subject: [PATCH 30/33] fix: progress bar when the total is zero or the
 position exceeds it

---
 src/progress.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/progress.c b/src/progress.c
index 66ef09b..e32ec9b 100644
--- a/src/progress.c
+++ b/src/progress.c
@@ -77,6 +77,8 @@ void progress_ascii( int x, int n, const char *fmt, ... )
 
 	// Calculuate the ratio of complete-to-incomplete.
 	float ratio = x/(float)n;
+	if( !(ratio >= 0.0f) ) ratio = 0.0f;  /* (this is also when n is zero) */
+	if( ratio > 1.0f )     ratio = 1.0f;
 	int   c     = ratio * w;
 
 	printf("%s[", label );
-- 
2.43.0


From 07e7b8226752569db3d140309b9a8a710b0d09fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:50 +0000
Subject: [PATCH 31/33] fix: batch prediction of networks or batches larger
 than the work memory

A network with more outputs than the work memory recursed without end, and the
size of a large batch overflowed.
---
 src/neuralnet_predict_batch.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/neuralnet_predict_batch.c b/src/neuralnet_predict_batch.c
index 6b52cc7..056ff88 100644
--- a/src/neuralnet_predict_batch.c
+++ b/src/neuralnet_predict_batch.c
@@ -44,7 +44,7 @@ void neuralnet_predict_batch( const neuralnet_t *nn, const int n_samples, const
 void neuralnet_predict_batch( const neuralnet_t *nn, const int n_samples, const float *inputs, float *output )
 {
     /* Make some work memory on stack. First calculate how much we need. */
-    int workmem_sz = 0;
+    size_t workmem_sz = 0;
     for( int i = 0; i < nn->n_layers; i++)
         workmem_sz += nn->layer[i].n_output;
     workmem_sz *= n_samples;  /* This size is also in floats */
@@ -56,6 +56,10 @@ void neuralnet_predict_batch( const neuralnet_t *nn, const int n_samples, const
 #endif
 
     if( N_STACK_ALLOC_FLOATS < workmem_sz ){
+        if( n_samples == 1 ){ /* There is nothing to split */
+            neuralnet_predict( nn, inputs, output );
+            return;
+        }
         int half = n_samples >> 1;
         const int n_inputs = nn->layer[0].n_input;
         const int n_output = nn->layer[nn->n_layers-1].n_output;
-- 
2.43.0


From 80f686925ee84202fdb1eae5a1904b5b214898fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:50 +0000
Subject: [PATCH 32/33] fix: batch prediction applied user supplied activations
 to the whole batch

An activation gets one layer of one sample; one that depends on the whole vector
gave other results in a batch.
---
 src/neuralnet_predict_batch.c | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/neuralnet_predict_batch.c b/src/neuralnet_predict_batch.c
index 056ff88..69042c6 100644
--- a/src/neuralnet_predict_batch.c
+++ b/src/neuralnet_predict_batch.c
@@ -109,10 +109,6 @@ void neuralnet_predict_batch( const neuralnet_t *nn, const int n_samples, const
             memcpy( activations[i+1] + j*layer_ptr->n_output, layer_ptr->bias, size );
     }
 
-    static activation_func softmax = NULL; /* Keep it static such that get_() is called only once! */
-    if( !softmax )
-        softmax = get_activation_func( "softmax" ); /* Slow? */
-
     /* Then we do the forward calculation */
     for( int i = 0; i < nn->n_layers; i++){
         const layer_t *layer_ptr = nn->layer + i;
@@ -128,15 +124,10 @@ void neuralnet_predict_batch( const neuralnet_t *nn, const int n_samples, const
                 activations[i+1],    /* C    (13) */
                 layer_ptr->n_output  /* ldc  (14) */
                 );
-        /* Activation */
-        /* ( I really hope the silly if-condition doesn't kill performance. */
-        if ( layer_ptr->activation_func == softmax ){
-            float *out = activations[i+1];
-            for ( int j = 0; j < n_samples; j++, out += layer_ptr->n_output)
-                layer_ptr->activation_func ( layer_ptr->n_output, out );
-        } else {
-            layer_ptr->activation_func ( layer_ptr->n_output * n_samples, activations[i+1] );
-        }
+        /* Activation. One sample at a time, since softmax and user supplied functions work on a whole layer. */
+        float *out = activations[i+1];
+        for ( int j = 0; j < n_samples; j++, out += layer_ptr->n_output)
+            layer_ptr->activation_func ( layer_ptr->n_output, out );
     }
 }
 #endif /* USE_CBLAS */
-- 
2.43.0


From c273873dab4b19421a891231b039c7718b1ff541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:50 +0000
Subject: [PATCH 33/33] fix: mean absolute percentage error of negative targets

The deviation was divided by 1e-7 instead of the absolute value of the target.
---
 src/loss.c    | 2 +-
 src/metrics.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/loss.c b/src/loss.c
index 880d253..6a47467 100644
--- a/src/loss.c
+++ b/src/loss.c
@@ -76,7 +76,7 @@ static void mean_absolute_error( unsigned int n, const float *y_pred, const floa
 static void mean_absolute_percentage_error( unsigned int n, const float *y_pred, const float *y_real, float *loss )
 {
     for( unsigned int i = 0; i < n; i++ )
-        loss[i] = (y_pred[i] >= y_real[i] ? 100.0f : -100.0f) / (fmax(y_real[i], 1e-7f) * (float) n);
+        loss[i] = (y_pred[i] >= y_real[i] ? 100.0f : -100.0f) / (fmaxf(fabsf(y_real[i]), 1e-7f) * (float) n);
 }
 
 static void categorical_crossentropy( unsigned int n, const float *y_pred, const float *y_real, float *loss )
diff --git a/src/metrics.c b/src/metrics.c
index d1b286e..b3cbf57 100644
--- a/src/metrics.c
+++ b/src/metrics.c
@@ -87,7 +87,7 @@ static float mean_absolute_percentage_error(const int n, const float *y_pred, co
 {
     float diff = 0.0f;
     for( int i = 0; i < n; i++ )
-        diff += fabsf( (y_real[i] - y_pred[i]) / fmaxf( y_real[i], epsilon ));
+        diff += fabsf( (y_real[i] - y_pred[i]) / fmaxf( fabsf( y_real[i] ), epsilon ));
 
     return 100.0f * diff / (float) n;
 }
-- 
2.43.0

