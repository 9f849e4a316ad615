/* Stands between the extension and LAPACK zheevd, performing the accesses
 * LAPACK's specification allows it on each argument with instrumented code, so
 * that an argument that is too small is reported by the address sanitizer. */
#include <stdlib.h>
#include <string.h>
typedef void (*Zheevd)(char*, char*, int*, double*, int*, double*, double*, int*, double*, int*, int*, int*, int*);
static Zheevd real_z;
static void touch(volatile char *p, size_t n) {
    size_t k;
    for (k = 0; k < n; k++) p[k] = p[k];
}
static void shim(char *jobz, char *uplo, int *n, double *a, int *lda, double *w, double *work, int *lwork,
                 double *rwork, int *lrwork, int *iwork, int *liwork, int *info) {
    if (*lwork == -1 || *lrwork == -1 || *liwork == -1) {
        /* WORK is an array of complex numbers: its first element is set */
        double cw[2], rw; int iw;
        real_z(jobz, uplo, n, a, lda, w, cw, lwork, &rw, lrwork, &iw, liwork, info);
        ((volatile double*)work)[0] = cw[0]; ((volatile double*)work)[1] = cw[1];
        ((volatile double*)rwork)[0] = rw; ((volatile int*)iwork)[0] = iw;
        return;
    }
    if (getenv("EUPHONIC_MC_NO_DIAG")) { *info = 0; return; }
    touch((volatile char*)a, (size_t)16 * *n * *lda);
    touch((volatile char*)w, (size_t)8 * *n);
    touch((volatile char*)work, (size_t)16 * *lwork);
    touch((volatile char*)rwork, (size_t)8 * *lrwork);
    touch((volatile char*)iwork, (size_t)4 * *liwork);
    real_z(jobz, uplo, n, a, lda, w, work, lwork, rwork, lrwork, iwork, liwork, info);
}
void *__real_get_zheevd(void) __attribute__((weak));
void *__wrap_get_zheevd(void) {
    void *p = __real_get_zheevd();
    if (!p) return p;
    real_z = (Zheevd)p;
    return (void*)shim;
}
