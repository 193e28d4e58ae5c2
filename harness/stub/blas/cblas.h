/* the CBLAS interface used by the library, with a plain C reference implementation (../cblas_ref.c) */
#ifndef VF_CBLAS_H
#define VF_CBLAS_H
typedef enum { CblasRowMajor = 101, CblasColMajor = 102 } CBLAS_ORDER;
typedef enum { CblasNoTrans = 111, CblasTrans = 112, CblasConjTrans = 113 } CBLAS_TRANSPOSE;
typedef CBLAS_ORDER CBLAS_LAYOUT;
void cblas_sgemv(CBLAS_ORDER o, CBLAS_TRANSPOSE t, int m, int n, float alpha, const float *a, int lda, const float *x, int incx, float beta, float *y, int incy);
void cblas_sgemm(CBLAS_ORDER o, CBLAS_TRANSPOSE ta, CBLAS_TRANSPOSE tb, int m, int n, int k, float alpha, const float *a, int lda, const float *b, int ldb, float beta, float *c, int ldc);
void cblas_sger(CBLAS_ORDER o, int m, int n, float alpha, const float *x, int incx, const float *y, int incy, float *a, int lda);
void cblas_saxpy(int n, float alpha, const float *x, int incx, float *y, int incy);
void cblas_saxpby(int n, float alpha, const float *x, int incx, float beta, float *y, int incy);
void cblas_sscal(int n, float alpha, float *x, int incx);
void cblas_scopy(int n, const float *x, int incx, float *y, int incy);
float cblas_sdot(int n, const float *x, int incx, const float *y, int incy);
#endif
