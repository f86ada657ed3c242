EDITS=[('src/findpts_local_imp.h','''    } while(p<npt && *CAT(uint,el,p)==el);
''','''    } while(*CAT(uint,el,p)==el);
''')]
NP='1'
DEMO=r'''
static void demo(void){ double x[8]={0,1,0,1, 1,2,1,2},y[8]={0,0,1,1,0,0,1,1}; const double *el[2]={x,y}; unsigned n[2]={2,2},m[2]={4,4}; struct findpts_local_data_2 fd; buffer b; double out[4]={9,9,9,9},r[8]={0}; uint e[4]={0,1,1,1};
  buffer_init(&b,0); findpts_local_setup_2(&fd,el,n,2,m,.25,20,4,1e-12); findpts_local_eval_2(out,8,e,4,r,16,3,x,&fd); CHECK(fabs(out[0]-.5)<1e-9&&fabs(out[2]-1.5)<1e-9&&out[3]==9);
  findpts_local_free_2(&fd); buffer_free(&b); }
'''
META={'property':'H03','needs':'the data behind the last point to name the same element','what_it_breaks':'evaluation reads beyond its points and may never return'}
