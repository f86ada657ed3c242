EDITS=[('src/gs.c','''  uu[0]=u1,uu[1]=u2,uu[2]=u3,uu[3]=u4,uu[4]=u5,uu[5]=u6;
  fgs_check_parms(*handle,*dom,*op,"gs_op_many",__LINE__);
  cigs_many(''','''  uu[0]=u1,uu[1]=u2,uu[2]=u3,uu[3]=u4,uu[4]=u6,uu[5]=u5;
  fgs_check_parms(*handle,*dom,*op,"gs_op_many",__LINE__);
  cigs_many(''')]
NP='2'
DEMO=r'''
void fgslib_gs_setup_pick_(sint*,const slong*,const sint*,const MPI_Fint*,const sint*,const sint*);
void fgslib_igs_op_many_(const sint*,void*,void*,void*,void*,void*,void*,const sint*,const sint*,const sint*,const sint*,int*);
void fgslib_gs_op_wait_(int*);
static void demo(void){ sint h,n=1,np=NP,m=1,k=5,dom=1,op=1,t=0; int w; slong id=1; MPI_Fint c=MPI_Comm_c2f(MPI_COMM_WORLD); double u[6]={1,2,3,4,5,6}; int i;
  fgslib_gs_setup_pick_(&h,&id,&n,&c,&np,&m); fgslib_igs_op_many_(&h,u,u+1,u+2,u+3,u+4,u+5,&k,&dom,&op,&t,&w); fgslib_gs_op_wait_(&w);
  for(i=0;i<6;i++) CHECK(u[i]==(i<5?NP:1)*(i+1)); }
'''
META={'property':'G08','needs':'the nonblocking many form from Fortran with exactly five arrays','what_it_breaks':'the fifth array is left alone and the sixth is changed'}
