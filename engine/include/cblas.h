/* the part of CBLAS gslib uses, by its definition (column-major, unit strides as called); static: one copy per translation unit */
#ifndef VERIF_CBLAS_H
#define VERIF_CBLAS_H
enum CBLAS_ORDER { CblasRowMajor=101, CblasColMajor=102 };
enum CBLAS_TRANSPOSE { CblasNoTrans=111, CblasTrans=112 };
static double cblas_ddot(int n,const double *a,int ia,const double *b,int ib){ double s=0; int i; for(i=0;i<n;i++) s+=a[(long)i*ia]*b[(long)i*ib]; return s; }
static void cblas_dgemv(enum CBLAS_ORDER o,enum CBLAS_TRANSPOSE t,int m,int n,double al,const double *A,int lda,const double *x,int ix,double be,double *y,int iy){
  int i,j,ny=t==CblasTrans?n:m,nx=t==CblasTrans?m:n; (void)o;
  if(lda<m) __builtin_trap();
  for(i=0;i<ny;i++){ double s=0; for(j=0;j<nx;j++) s+=(t==CblasTrans?A[j+(long)lda*i]:A[i+(long)lda*j])*x[(long)j*ix]; y[(long)i*iy]=al*s+(be!=0?be*y[(long)i*iy]:0); } }
static void cblas_dgemm(enum CBLAS_ORDER o,enum CBLAS_TRANSPOSE ta,enum CBLAS_TRANSPOSE tb,int m,int n,int k,double al,const double *A,int lda,const double *B,int ldb,double be,double *C,int ldc){
  int i,j,l; (void)o;
  if(lda<(ta==CblasTrans?k:m)||ldb<(tb==CblasTrans?n:k)||ldc<m) __builtin_trap();
  for(j=0;j<n;j++) for(i=0;i<m;i++){ double s=0; for(l=0;l<k;l++) s+=(ta==CblasTrans?A[l+(long)lda*i]:A[i+(long)lda*l])*(tb==CblasTrans?B[j+(long)ldb*l]:B[l+(long)ldb*j]);
    C[i+(long)ldc*j]=al*s+(be!=0?be*C[i+(long)ldc*j]:0); } }
#endif
