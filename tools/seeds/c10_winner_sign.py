EDITS=[('src/findpts_imp.h','''        asdisti    = -DBL_MAX; 
''','''        asdisti    = 0;
''')]
NP='2'
DEMO=r'''
static void demo(void){ double x[4]={0,1,0,1},y[4]={0,0,1,1},ds[4]={-.5,-.5,-.5,-.5},px=.25,py=.5,r[2],d2; const double *el[2]={x,y}; unsigned n[2]={2,2},m[2]={4,4}; uint sid=ID,me=ID,match=0,code=9,proc=9,e=9; const double *xb[2]={&px,&py}; unsigned xs[2]={8,8}; struct findpts_data_2 *fd;
  fd=findptsms_setup_2(&C,el,n,1,m,.1,10,10,4,1e-12,&sid,ds); findptsms_2(&code,4,&proc,4,&e,4,r,16,&d2,8,xb,xs,&me,4,&match,1,fd);
  CHECK(code<2); CHECK(proc==(uint)1-ID); CHECK(e==0); CHECK(fabs(r[0]+.5)<1e-9&&fabs(r[1])<1e-9); findptsms_free_2(fd); }
'''
META={'property':'H04','needs':'a session whose distance field is negative','what_it_breaks':'its candidates never win; uninitialised values are returned instead'}
