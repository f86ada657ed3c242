EDITS=[('src/gs.c','''      if(other->si!=si) si=other->si, any=2, ++gcount;''','''      if(other->si!=w->si) any=2, ++gcount;'''),
('src/gs.c','''      if(other->si!=si) si=other->si, any=1, *gp++ = si;''','''      if(other->si!=w->si) any=1, *gp++ = other->si;''')]
NP='4 5 7'
DEMO=r'''
static void demo(void){ slong id[3]={1,2,3}; double u[3]; int i,k; struct gs_data *g; for(k=0;k<3;k++){ for(i=0;i<3;i++) u[i]=ID+i; g=gs_setup(id,3,&C,0,gs_crystal_router,0); gs(u,gs_double,gs_add,0,g,0); for(i=0;i<3;i++) CHECK(u[i]==NP*(NP-1)/2+NP*i); gs_free(g); } }
'''
META={'property':'G01','needs':'crystal router, labels shared by several processes on both sides of a split','what_it_breaks':'contributions are added more than once'}
