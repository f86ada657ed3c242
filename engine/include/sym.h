/* Interface between a harness and the two runtimes (symbolic / native replay). */
#ifndef SYM_H
#define SYM_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
/* symbolic inputs.  Names are made unique by an ordinal per (rank,name). */
int32_t  sym_i32(const char *name);                 /* any 32-bit value */
int64_t  sym_i64(const char *name);                 /* any 64-bit value */
int32_t  sym_range(const char *name,int lo,int hi); /* symbolic, lo<=v<=hi */
int64_t  sym_range64(const char *name,int64_t lo,int64_t hi);
int      sym_choice(const char *name,int n);        /* concrete, forked 0..n-1 */
double   sym_real(const char *name);                /* double, real theory */
double   sym_real_range(const char *name,double lo,double hi);
float    sym_realf(const char *name);
double   sym_intreal(const char *name,int lo,int hi);/* integer-valued double */
void     sym_bytes(void *p,size_t n,const char *name);/* arbitrary bytes (bit precise) */
double   sym_f64bits(const char *name);             /* double, IEEE bit precise */
float    sym_f32bits(const char *name);
/* parameters fixed by the driver (bounds) */
int      sym_param(const char *name,int dflt);
/* verdicts */
void     sym_assume(int c);
void     sym_assert(int c,const char *msg);
void     sym_assert_id(int c,const char *msg,int a,int b); /* msg:a:b */
void     sym_assert_small(double e,double tol,const char *msg,int a,int b); /* |e|<=tol, e a polynomial in bounded reals */
void     sym_assert_nonneg(double e,double tol,const char *msg,int a,int b); /* e>=-tol */
void     sym_expand(int on);                        /* keep real terms as sums of monomials */
int      sym_concretize(int v);                     /* fork over all values */
void     sym_cover(const char *name);               /* reachability witness */
void     sym_require_cover(const char *name);       /* must be covered by some path */
void     sym_note(const char *what,long v);
void     sym_observe_i(const char *name,int64_t v); /* for engine/native comparison */
void     sym_observe_f(const char *name,double v);
int      sym_is_symbolic(void);                     /* 1 in executor, 0 native */
/* SPMD: run fn on np ranks, each with its own globals; arg points to memory
   shared by all ranks (must come from sym_shared). */
void     sym_run_ranks(int np,void (*fn)(int rank,void *arg),void *arg);
void    *sym_shared(size_t n);                      /* zero initialised */
/* heap accounting of the calling rank */
long     sym_live_allocs(void);
long     sym_live_comms(void);
long     sym_live_reqs(void);
/* declare that reaching fail()/exit is an allowed outcome from now on */
void     sym_allow_exit(int on);
/* branch-free helpers usable on symbolic values */
#define SYM_AND(a,b) ((!!(a))&(!!(b)))
#define SYM_OR(a,b)  ((!!(a))|(!!(b)))
#define SYM_IMP(a,b) ((!(a))|(!!(b)))
int32_t  sym_ite32(int c,int32_t a,int32_t b);
int64_t  sym_ite64(int c,int64_t a,int64_t b);
double   sym_itef(int c,double a,double b);
#ifdef __cplusplus
}
#endif
#endif
