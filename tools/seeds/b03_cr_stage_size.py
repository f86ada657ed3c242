EDITS=[('src/gs.c','''  crd->stage_buffer_size = size_max[1]>size_max[0]?size_max[1]:size_max[0];
''','''  crd->stage_buffer_size = size_max[0];
''')]
NP='2 3 4'; SAN='address'
DEMO=r'''
static void demo(void){ slong id[40]; double v[40]; int i,n=40; for(i=0;i<n;i++) id[i]=(ID==0?1:-1)*(i+1), v[i]=1;
  struct gs_data *g=gs_setup(id,n,&C,0,gs_crystal_router,0); buffer b; buffer_init(&b,0);
  gs(v,gs_double,gs_add,1,g,&b); for(i=0;i<n;i++) CHECK(v[i]==(ID==0?NP:1));
  gs_free(g); buffer_free(&b); }
'''
META={'property':'G03','needs':'crystal router method with flagged labels shared so that the transposed exchange moves more data than the forward one','what_it_breaks':'communication buffer overrun in the transposed direction'}
