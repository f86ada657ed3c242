EDITS=[('src/gs.c','''  sarray_sort_2(struct nonzero_id,nz->ptr,nz->n, id,1, flag,0, buf);''','''  sarray_sort_2(struct nonzero_id,nz->ptr,nz->n, id,0, flag,0, buf);''')]
NP='1 2'
DEMO=r'''
static void demo(void){ slong id[3]; double u[3]; struct gs_data *g; slong H=(slong)1<<32; id[0]=id[2]=5; id[1]=5+H; u[0]=1,u[1]=10,u[2]=2; g=gs_setup(id,3,&C,0,gs_pairwise,0); gs(u,gs_double,gs_add,0,g,0); CHECK(u[0]==3*NP && u[2]==3*NP && u[1]==10*NP); gs_free(g); }
'''
META={'property':'G06','needs':'entries of one process whose labels agree in the low 32 bits, interleaved','what_it_breaks':'copies of one label on a process are not combined'}
