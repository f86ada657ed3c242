EDITS=[('src/obbox.c','''  DO_MAX(wsize,6*ns*nt+2*ms*(nt+mt+1));''','''  DO_MAX(wsize,4*ns*nt+2*ms*(nt+mt+1));''')]
NP='1'; SAN=1
DEMO=r'''
static void demo(void){ enum{A=2,B=6,Cc=6}; static double x[3][A*B*Cc]; double zb[B]; const double *el[3]={x[0],x[1],x[2]}; unsigned n[3]={A,B,Cc},m[3]={2*A,2*B,2*Cc}; struct obbox_3 o; int i,j,k,p=0;
  lobatto_nodes(zb,B); for(k=0;k<Cc;k++) for(j=0;j<B;j++) for(i=0;i<A;i++,p++) x[0][p]=i*2-1,x[1][p]=zb[j],x[2][p]=zb[k];
  obbox_calc_3(&o,el,n,1,m,.01); CHECK(o.x[0].min<=-1 && o.x[0].max>=1 && o.x[2].min<=-1 && o.x[2].max>=1); }
'''
META={'property':'B02','needs':'a lower order in the first direction than in the other two','what_it_breaks':'overruns the scratch space for the faces normal to r'}
