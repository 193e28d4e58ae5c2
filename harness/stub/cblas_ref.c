#include "cblas.h"
#include <stdlib.h>
static float el(CBLAS_ORDER o, int tr, const float *a, int lda, int i, int j){ if(tr){ int t = i; i = j; j = t; } return o == CblasRowMajor ? a[(long)i*lda + j] : a[(long)j*lda + i]; }
static long ix(int n, int inc, int i){ return inc > 0 ? (long)i*inc : (long)(i - n + 1)*inc; }
void cblas_sgemv(CBLAS_ORDER o, CBLAS_TRANSPOSE t, int m, int n, float alpha, const float *a, int lda, const float *x, int incx, float beta, float *y, int incy)
{
    int tr = t != CblasNoTrans, ny = tr ? n : m, nx = tr ? m : n;
    if(lda < (o == CblasRowMajor ? n : m)) abort();
    for(int i = 0; i < ny; i++){
        float *p = y + ix(ny, incy, i), s = 0.0f;
        for(int j = 0; j < nx; j++) s += el(o, tr, a, lda, i, j) * x[ix(nx, incx, j)];
        if(beta == 0.0f) *p = alpha * s; else *p = beta * *p + alpha * s;
    }
}
void cblas_sgemm(CBLAS_ORDER o, CBLAS_TRANSPOSE ta, CBLAS_TRANSPOSE tb, int m, int n, int k, float alpha, const float *a, int lda, const float *b, int ldb, float beta, float *c, int ldc)
{
    int tA = ta != CblasNoTrans, tB = tb != CblasNoTrans;
    if(o == CblasRowMajor){ if(lda < (tA ? m : k) || ldb < (tB ? k : n) || ldc < n) abort(); } else { if(lda < (tA ? k : m) || ldb < (tB ? n : k) || ldc < m) abort(); }
    for(int i = 0; i < m; i++) for(int j = 0; j < n; j++){
        float *p = o == CblasRowMajor ? c + (long)i*ldc + j : c + (long)j*ldc + i, s = 0.0f;
        for(int l = 0; l < k; l++) s += el(o, tA, a, lda, i, l) * el(o, tB, b, ldb, l, j);
        if(beta == 0.0f) *p = alpha * s; else *p = beta * *p + alpha * s;
    }
}
void cblas_sger(CBLAS_ORDER o, int m, int n, float alpha, const float *x, int incx, const float *y, int incy, float *a, int lda)
{
    if(lda < (o == CblasRowMajor ? n : m)) abort();
    for(int i = 0; i < m; i++) for(int j = 0; j < n; j++){
        float *p = o == CblasRowMajor ? a + (long)i*lda + j : a + (long)j*lda + i;
        *p += alpha * x[ix(m, incx, i)] * y[ix(n, incy, j)];
    }
}
void cblas_saxpy(int n, float alpha, const float *x, int incx, float *y, int incy){ for(int i = 0; i < n; i++) y[ix(n, incy, i)] += alpha * x[ix(n, incx, i)]; }
void cblas_saxpby(int n, float alpha, const float *x, int incx, float beta, float *y, int incy){ for(int i = 0; i < n; i++){ float *p = y + ix(n, incy, i); *p = alpha * x[ix(n, incx, i)] + beta * *p; } }
void cblas_sscal(int n, float alpha, float *x, int incx){ if(incx > 0) for(int i = 0; i < n; i++) x[(long)i*incx] *= alpha; }
void cblas_scopy(int n, const float *x, int incx, float *y, int incy){ for(int i = 0; i < n; i++) y[ix(n, incy, i)] = x[ix(n, incx, i)]; }
float cblas_sdot(int n, const float *x, int incx, const float *y, int incy){ float s = 0.0f; for(int i = 0; i < n; i++) s += x[ix(n, incx, i)] * y[ix(n, incy, i)]; return s; }
