EDITS=[('src/gs.c','''  buffer_reserve(buf,gs_dom_size[gs_double]*r->buffer_size);
  for(i= 2;i;--i)''','''  buffer_reserve(buf,gs_dom_size[gs_float]*r->buffer_size);
  for(i= 2;i;--i)''')]
NP='3'; SAN=1
DEMO=r'''
static void demo(void){ enum{N=6000}; slong *id=malloc(N*sizeof *id); double *u=malloc(N*sizeof *u); int i,n=ID==2?1:N; struct gs_data *g; for(i=0;i<n;i++) id[i]=3*i+1,u[i]=i; if(ID==2) id[0]=3*N+4; g=gs_setup(id,n,&C,0,gs_auto,0); gs(u,gs_double,gs_add,0,g,0); if(ID<2) for(i=0;i<N;i++) CHECK(u[i]==2*(double)i); gs_free(g); }
'''
META={'property':'G07','needs':'automatic selection with many labels shared by others but not by one process','what_it_breaks':'the trial exchanges overrun their buffer'}
