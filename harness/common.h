#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <stdio.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <float.h>
#include <math.h>
#include "sym.h"
#include "c99.h"
#include "name.h"
#include "fail.h"
#include "types.h"
#include "mem.h"
#include "gs_defs.h"
#include "comm.h"
#ifndef GSLIB_USE_MPI
#define MPI_COMM_WORLD 0
#define MPI_Comm_c2f(c) (c)
#endif
#if !defined(GSLIB_USE_LONG_LONG) && !defined(GSLIB_USE_GLOBAL_LONG_LONG)
#define gs_long_long gs_long
#define comm_reduce_long_long(c,o,v,n) comm_reduce_long(c,o,(const long*)(v),n)
#endif
#include "gs.h"
#include "crystal.h"
#include "sort.h"
#include "sarray_sort.h"
#include "sarray_transfer.h"
#include "tensor.h"
#if !defined(GSLIB_USE_CBLAS) && !defined(GSLIB_USE_NAIVE_BLAS)
/* the Fortran kernel the library expects from its user: C (na x nc) = A (na x nb) B (nb x nc) */
void mxm(const double *A,const uint *na,const double *B,const uint *nb,double *C,const uint *nc){ uint i,j,k; for(k=0;k<*nc;k++) for(i=0;i<*na;i++){ double s=0; for(j=0;j<*nb;j++) s+=A[i+*na*j]*B[j+*nb*k]; C[i+*na*k]=s; } }
#endif
#include "poly.h"
#include "lob_bnd.h"
#include "obbox.h"
#include "findpts_el.h"
#include "findpts_local.h"
#include "findpts.h"
#endif
