EDITS=[('src/sarray_sort.h','''  sarray_sort_field(T,A,n, field4,is_long4, buf,0); \\
  sarray_sort_field(T,A,n, field3,is_long3, buf,1); \\
''','''  sarray_sort_field(T,A,n, field4,is_long4, buf,0); \\
  sarray_sort_field(T,A,n, field3,is_long3, buf,0); \\
''')]
NP='1'
DEMO=r'''
struct r { uint a; ulong b; uint c; ulong d; };
static void demo(void){ struct r A[4]; int i; buffer b; buffer_init(&b,0); for(i=0;i<4;i++) A[i].a=1,A[i].b=2,A[i].c=3,A[i].d=9-i; sarray_sort_4(struct r,A,4,a,0,b,1,c,0,d,1,&b); for(i=0;i<4;i++) CHECK(A[i].d==(ulong)(6+i)); buffer_free(&b); }
'''
META={'property':'S02','needs':'a sort by four keys where the first three tie','what_it_breaks':'the order by the fourth key'}
