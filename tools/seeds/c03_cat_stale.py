EDITS=[('src/mem.h','''  char *out = (char*)array_reserve_(d,d->n+n,size, file,line);
  memcpy(out+d->n*size, s, n*size);
''','''  const size_t used = d->n*size;
  if(d->max<n) array_reserve_(d,d->n+n,size, file,line);
  memcpy((char*)d->ptr+used, s, n*size);
''')]
NP='1'; SAN=True
DEMO=r'''
static void demo(void){ struct array a; double x[8]={1,2,3,4,5,6,7,8}; int i; array_init(double,&a,10); array_cat(double,&a,x,8); array_cat(double,&a,x,8); CHECK(a.n==16); CHECK(a.max>=16); for(i=0;i<16;i++) CHECK(((double*)a.ptr)[i]==1+i%8); array_free(&a); }
'''
META={'property':'M01','needs':'appending to a partly filled array a block that fits the capacity but not the space left','what_it_breaks':'writes beyond the allocation'}
