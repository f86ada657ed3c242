EDITS=[('src/gs.c','''  sarray_sort_2(struct unique_id,un.ptr,un.n, id,1, src_if,0, &cr->data);
''','''  sarray_sort_2(struct unique_id,un.ptr,un.n, id,0, src_if,0, &cr->data);
''')]
NP='2 4'
DEMO=r'''
static void demo(void){ slong id[2]; double v[2]={1,10}; int m; 
  int o=ID&1; id[o]=8, id[!o]=((slong)1<<32)+8; 
  for(m=1;m<=3;m++){ v[o]=1,v[!o]=10; struct gs_data *g=gs_setup(id,2,&C,0,m,0); gs(v,gs_double,gs_add,0,g,0); CHECK(v[o]==NP&&v[!o]==10*NP); gs_free(g); } }
'''
META={'property':'G06','needs':'labels on different processes that agree in the low 32 bits and differ above','what_it_breaks':'groups of such labels are not recognised as shared and stay unsummed'}
