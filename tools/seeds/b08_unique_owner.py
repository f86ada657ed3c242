EDITS=[('src/gs.c','''      owner = pb->id%(lt+gt);
''','''      owner = pb->id%(lt+gt+1);
''')]
NP='3 4'
DEMO=r'''
static void demo(void){ slong id[6]; int i; slong s[6],b[6]; for(i=0;i<6;i++) id[i]=(ID==NP-1?-1:1)*(i+1); gs_unique(id,6,&C);
  double v[6]; for(i=0;i<6;i++) s[i]=id[i]>0; comm_allreduce(&C,gs_slong,gs_add,s,6,b); for(i=0;i<6;i++) CHECK(s[i]==1);
  for(i=0;i<6;i++) id[i]=(ID==NP-1?-1:1)*(i+1), v[i]=ID+1;
  struct gs_data *g=gs_setup(id,6,&C,1,gs_pairwise,0); gs(v,gs_double,gs_add,0,g,0); for(i=0;i<6;i++) { double m=v[i],w; w=m; double t; comm_allreduce(&C,gs_double,gs_min,&w,1,&t); CHECK(w==m); comm_allreduce(&C,gs_double,gs_max,&w,1,&t); CHECK(w==m); } gs_free(g); }
'''
META={'property':'G04','needs':'a label that is already flagged on one process and unflagged on others, with the unique option','what_it_breaks':'the flagged process looks for another owner than the one the others agreed on'}
