EDITS=[('src/sarray_transfer.c','''    for(i=0;i<An;++i)
      array_reserve_(A[i],n,size[i],__FILE__,__LINE__), A[i]->n=n;
''','''    const int grow = A[0]->max<n;
    for(i=0;i<An;++i) {
      if(grow) array_reserve_(A[i],n,size[i],__FILE__,__LINE__);
      A[i]->n=n;
    }
''')]
NP='2'; SAN=1
DEMO=r'''
static void demo(void){ struct crystal cr; struct array a,b,*A[2]={&a,&b}; unsigned sz[2]={4,8}; uint *p,i,n; double *q; uint tgt[3]={0,0,0};
  crystal_init(&cr,&C); array_init(uint,&a,40); array_init(double,&b,3); a.n=b.n=3; p=a.ptr,q=b.ptr; for(i=0;i<3;i++) p[i]=ID*10+i,q[i]=ID*10+i;
  n=sarray_transfer_many(A,sz,2,0,1,0,0,tgt,sizeof(uint),&cr); CHECK(n==(ID?0:6)); p=a.ptr,q=b.ptr; for(i=0;i<n;i++) CHECK(q[i]==p[i]);
  array_free(&a),array_free(&b),crystal_free(&cr); }
'''
META={'property':'T02','needs':'several arrays, of which the first already has room for what arrives and another has not','what_it_breaks':'arrays after the first are not enlarged and overrun'}
