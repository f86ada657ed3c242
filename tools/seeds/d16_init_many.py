EDITS=[('src/gs_local.c','''#define WITH_DOMAIN(T) for(k=0;k<vn;++k) init_##T(p[k],map,op)''','''#define WITH_DOMAIN(T) for(k=vn;k>1;--k) init_##T(p[k-1],map,op)''')]
NP='2'
DEMO=r'''
static void demo(void){ slong id[1]={ID?-1:1}; double a[1]={3+ID},b[1]={5+ID}; double *p[2]={a,b}; int m; for(m=1;m<=3;m++){ struct gs_data *g=gs_setup(id,1,&C,0,(gs_method)m,0); a[0]=3+ID,b[0]=5+ID; gs_many((void*)p,2,gs_double,gs_add,0,g,0); CHECK(a[0]==3 && b[0]==5); gs_free(g); } }
'''
META={'property':'G03','needs':'several arrays at once, with a flagged entry whose group is elsewhere','what_it_breaks':'the flagged entry of the first array is counted'}
