EDITS=[('src/findpts_local_imp.h','''    struct index_el *const p =
      array_reserve(struct index_el,map,map->n+1);
    p[map->n].el = -(uint)1;
''','''    struct index_el *const p = map->ptr;
    p[map->n].el = -(uint)1;
''')]
NP='1'; SAN=1
DEMO=r'''
static void demo(void){ double x[8]={0,1,0,1, 1,2,1,2},y[8]={0,0,1,1,0,0,1,1}; const double *el[2]={x,y}; unsigned n[2]={2,2},m[2]={4,4}; struct findpts_local_data_2 fd; buffer b; 
  double px[3]={1,.5,1.5},py[3]={.5,.5,.25},r[6],d2[3]; uint code[3],e[3]; const double *xp[2]={px,py}; unsigned xs[2]={8,8}; uint k;
  buffer_init(&b,0); findpts_local_setup_2(&fd,el,n,2,m,.1,20,4,1e-12);
  for(k=1;k<=3;k++){ findpts_local_2(code,4,e,4,r,16,d2,8,xp,xs,k,&fd,&b); CHECK(code[0]<2 && d2[0]<1e-20 && e[0]<2); }
  findpts_local_free_2(&fd); buffer_free(&b); }
'''
META={'property':'H02','needs':'exactly as many candidate pairs as the list holds, e.g. one point near two elements','what_it_breaks':'writes the end mark beyond the list of candidates'}
