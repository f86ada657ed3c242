EDITS=[('src/fcrystal.c','''    else if(k<*mi) sortp     (buf,init, (uint *)&Ai[k],    *n,size_i);
    else           sortp_long(buf,init, (ulong*)&Al[k-*mi],*n,size_l);
    init=1;
''','''    else if(k<*mi) sortp     (buf,init, (uint *)&Ai[k],    *n,size_i), init=1;
    else           sortp_long(buf,init, (ulong*)&Al[k-*mi],*n,size_l);
''')]
NP='1'
DEMO=r'''
void GS_FORTRAN_NAME(crystal_setup,CRYSTAL_SETUP)(sint*,const MPI_Fint*,const sint*);
void GS_FORTRAN_NAME(crystal_tuple_sort,CRYSTAL_TUPLE_SORT)(const sint*,const sint*,sint*,const sint*,slong*,const sint*,double*,const sint*,const sint*,const sint*);
static void demo(void){ sint h,np=NP,n=3,mi=2,ml=1,md=1,nk=2,keys[2]={1,3},A[6]={7,0,7,1,7,2}; slong L[3]={3,2,1}; double d[3]={0,1,2}; MPI_Fint c=MPI_Comm_c2f(MPI_COMM_WORLD); int i;
  GS_FORTRAN_NAME(crystal_setup,CRYSTAL_SETUP)(&h,&c,&np);
  GS_FORTRAN_NAME(crystal_tuple_sort,CRYSTAL_TUPLE_SORT)(&h,&n,A,&mi,L,&ml,d,&md,keys,&nk);
  for(i=0;i<3;i++) CHECK(L[i]==i+1 && A[2*i+1]==2-i && d[i]==2-i); }
'''
META={'property':'T04','needs':'a long column as the least significant of several keys','what_it_breaks':'rows that tie in the other keys are left in their old order'}
