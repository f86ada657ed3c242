EDITS=[('src/sarray_transfer.c','''      buf[2]-=(n-maxn); data->n = (buf-(uint*)data->ptr)+3+buf[2];
      buf+=len+3;
''','''      buf[2]-=(n-maxn); data->n = (buf-(uint*)data->ptr)+3+buf[2];
      buf+=buf[2]+3, buf_end=buf;
''')]
NP='3'
DEMO=r'''
struct r { uint p; uint v; };
static void demo(void){ struct crystal cr; struct array a; struct r *q; uint n; unsigned sz=sizeof(struct r); struct array *pa[1]; crystal_init(&cr,&C); array_init(struct r,&a,4); q=a.ptr; a.n=2; q[0].p=q[1].p=0; q[0].v=ID; q[1].v=10+ID; pa[0]=&a;
  n=sarray_transfer_many(pa,&sz,1,1,0,1,0,&q->p,sz,&cr); CHECK(n==(ID==0?2*(uint)NP:0)); CHECK(a.n==(ID==0?4:0)); array_free(&a); crystal_free(&cr); }
'''
META={'property':'T03','needs':'a transfer into fixed-size arrays where the limit is reached before the last message','what_it_breaks':'the count returned, from which callers see that rows were dropped'}
