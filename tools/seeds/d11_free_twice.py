EDITS=[('src/gs.c','''  fgs_check_handle(*handle,"gs_free",__LINE__);
  cgs_free(fgs_info[*handle]);
  fgs_info[*handle] = 0;
''','''  fgs_check_handle(*handle,"gs_free",__LINE__);
  cgs_free(fgs_info[*handle]);
  if(*handle==fgs_n-1) fgs_info[*handle] = 0;
''')]
NP='1'
DEMO=r'''
#include <setjmp.h>
#include <sys/wait.h>
#include <unistd.h>
void fgslib_gs_setup_pick_(sint*,const slong*,const sint*,const MPI_Fint*,const sint*,const sint*);
void fgslib_gs_free_(const sint*); void fgslib_gs_op_(const sint*,void*,const sint*,const sint*,const sint*);
static void bye(void){ _exit(7); }
static void demo(void){ sint h[2],n=2,np=NP,m=1,dom=1,op=1,t=0; slong id[2]={1,1}; MPI_Fint c=MPI_Comm_c2f(MPI_COMM_WORLD); double u[2]={1,2}; int k,st; pid_t p;
  for(k=0;k<2;k++) fgslib_gs_setup_pick_(h+k,id,&n,&c,&np,&m);
  fgslib_gs_free_(h); p=fork(); if(!p){ atexit(bye); fgslib_gs_op_(h,u,&dom,&op,&t); _exit(0); } waitpid(p,&st,0); CHECK(WIFEXITED(st) && WEXITSTATUS(st)!=0); fgslib_gs_free_(h+1); }
'''
META={'property':'L01','needs':'use of a handle freed while a later one is alive','what_it_breaks':'the freed handle is acted on instead of refused'}
