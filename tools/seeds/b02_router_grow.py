EDITS=[('src/crystal.c','''  buffer_reserve(&p->data,sum*sizeof(uint));
''','''  buffer_reserve(&p->data,(p->data.n+count[0])*sizeof(uint));
''')]
NP='3 5'; SAN=True
DEMO=r'''
static void demo(void){ struct crystal cr; crystal_init(&cr,&C); int q,k,L=400; /* everything to process id n-1.. */
  uint *d=buffer_reserve(&cr.data,(L+3)*NP*sizeof(uint)); 
  for(q=0;q<NP;q++){ d[0]=q,d[1]=ID,d[2]=L; for(k=0;k<L;k++) d[3+k]=ID*1000+k; d+=3+L; }
  cr.data.n=(L+3)*NP; crystal_router(&cr); CHECK(cr.data.n==(L+3)*NP); d=cr.data.ptr;
  for(q=0;q<NP;q++){ CHECK(d[0]==ID&&d[2]==L); for(k=0;k<L;k++) CHECK(d[3+k]==d[1]*1000+k); d+=3+L; } 
  /* grow only on receipt from both partners */
  cr.data.n=0; d=cr.data.ptr; { int t; for(t=0;t<60;t++){ int M=L+200*t; d=buffer_reserve(&cr.data,(M+3)*sizeof(uint)); d[0]=NP/2+1<NP?NP/2+1:NP-1; d[1]=ID; d[2]=M; for(k=0;k<M;k++) d[3+k]=k; cr.data.n=M+3; crystal_router(&cr); } }
  crystal_free(&cr); }
'''
META={'property':'C01','needs':'an odd process count, so that one process receives from two partners in a stage, and messages that outgrow the router buffer at that moment','what_it_breaks':'memory past the router buffer is overwritten; messages are corrupted'}
