EDITS=[('src/findpts.c','''    GS_PREFIXED_NAME(findpts_3)(
      (uint*) code_base,(* code_stride)*sizeof(sint  ),
      (uint*) proc_base,(* proc_stride)*sizeof(sint  ),
      (uint*)   el_base,(*   el_stride)*sizeof(sint  ),
                 r_base,(*    r_stride)*sizeof(double),
             dist2_base,(*dist2_stride)*sizeof(double),
''','''    GS_PREFIXED_NAME(findpts_3)(
      (uint*) code_base,(* code_stride)*sizeof(sint  ),
      (uint*) proc_base,(* proc_stride)*sizeof(sint  ),
      (uint*)   el_base,(*   el_stride)*sizeof(sint  ),
                 r_base,(*    r_stride)*sizeof(double),
             dist2_base,(*    r_stride)*sizeof(double),
''')]
NP='1'
DEMO=r'''
#define FN(l,u) GS_FORTRAN_NAME(l,u)
void FN(findpts_setup,FINDPTS_SETUP)(sint*,const MPI_Fint*,const sint*,const sint*,const double*,const double*,const double*,const sint*,const sint*,const sint*,const sint*,const sint*,const sint*,const sint*,const double*,const sint*,const sint*,const sint*,const double*);
void FN(findpts_free,FINDPTS_FREE)(const sint*);
void FN(findpts,FINDPTS)(const sint*,sint*,const sint*,sint*,const sint*,sint*,const sint*,double*,const sint*,double*,const sint*,const double*,const sint*,const double*,const sint*,const double*,const sint*,const sint*);
static void demo(void){ double x[8],y[8],z[8],tol=.25,nt=1e-12,px[3]={.5,.25,1.0625},py[3]={.5,.5,.5},pz[3]={.5,.5,.5},r[9],d2[16]; sint h,v[]={NP,3,2,2,2,1,4,4,4,20,20,4},code[3],proc[3],el[3],one=1,three=3,n=3; int i; MPI_Fint c=MPI_Comm_c2f(C.c);
  for(i=0;i<8;i++) x[i]=i&1,y[i]=i>>1&1,z[i]=i>>2; for(i=0;i<16;i++) d2[i]=-1;
  FN(findpts_setup,FINDPTS_SETUP)(&h,&c,v,v+1,x,y,z,v+2,v+3,v+4,v+5,v+6,v+7,v+8,&tol,v+9,v+10,v+11,&nt);
  FN(findpts,FINDPTS)(&h,code,&one,proc,&one,el,&one,r,&three,d2,&one,px,&one,py,&one,pz,&one,&n);
  CHECK(code[0]==0&&code[1]==0&&code[2]==1); CHECK(fabs(d2[2]-.0625*.0625)<1e-9); for(i=3;i<16;i++) CHECK(d2[i]==-1); FN(findpts_free,FINDPTS_FREE)(&h); }
'''
META={'property':'F01','needs':'a three-dimensional Fortran search with different strides of r and dist2','what_it_breaks':'distances are written to the wrong places'}
