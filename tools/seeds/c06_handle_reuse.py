EDITS=[('src/gs.c','''  nblkng_dict[nblkng_n]->mode = mode_plain;
  nblkng_dict[nblkng_n]->vn = 1;

  *handle = nblkng_n++;
  nblkng_count++;
''','''  nblkng_dict[nblkng_n]->mode = mode_plain;
  nblkng_dict[nblkng_n]->vn = 1;

  *handle = nblkng_count++;
  nblkng_n++;
''')]
NP='1 2'
DEMO=r'''
static void demo(void){ slong id[3]={5,6,7}; double v[3][3]; int h[3],i,j; struct gs_data *g=gs_setup(id,3,&C,0,gs_pairwise,0);
  for(i=0;i<3;i++) for(j=0;j<3;j++) v[i][j]=1+i; 
  igs(v[0],gs_double,gs_add,0,g,0,&h[0]); igs(v[1],gs_double,gs_add,0,g,0,&h[1]); gs_wait(h[0]); igs(v[2],gs_double,gs_add,0,g,0,&h[2]); CHECK(h[2]!=h[1]); gs_wait(h[2]); for(j=0;j<3;j++) CHECK(v[2][j]==3*NP); gs_wait(h[1]); for(j=0;j<3;j++) CHECK(v[1][j]==2*NP); gs_free(g); }
'''
META={'property':'G05','needs':'two operations in flight, the first completed, then a third started','what_it_breaks':'the third operation gets the handle of the second'}
