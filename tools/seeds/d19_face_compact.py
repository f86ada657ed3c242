EDITS=[('src/findpts_el_3.c','''  for(i=1;i<pn;++i) memcpy(wt2+i*n2, wt2+3*i*n2, n2*sizeof(double));
''','''  for(i=1;i<pn;++i) memcpy(wt2+i*n2, wt2+(i+2)*n2, n2*sizeof(double));
''')]
NP='1'
DEMO=r'''
#define N0 4
#define N1 3
#define N2 5
#define B 512
#define G 24
static void mp(const double *r,double *x){ x[0]=r[0]+.3*r[0]*r[0]; x[1]=r[1]+.3*r[1]*r[1]+.5*r[0]; x[2]=r[2]+.3*r[2]*r[2]+.5*r[1]; }
static void demo(void){ unsigned n[3]={N0,N1,N2}; static double z[3][8],X[3][N0*N1*N2]; const double *xp[3]={X[0],X[1],X[2]}; struct findpts_el_data_3 fd; int i,j,k,t,d,m; double x[3]; for(d=0;d<3;d++) lobatto_nodes(z[d],n[d]);
  for(k=0;k<N2;k++) for(j=0;j<N1;j++) for(i=0;i<N0;i++){ int q=(k*N1+j)*N0+i; double a[3]; a[0]=z[0][i],a[1]=z[1][j],a[2]=z[2][k]; mp(a,x); for(d=0;d<3;d++) X[d][q]=x[d]; }
  findpts_el_setup_3(&fd,n,B); findpts_el_start_3(&fd,xp);
  for(t=0;t<512;t+=m){ struct findpts_el_pt_3 *p=findpts_el_points_3(&fd); static double y[B][3]; for(m=0;m<B&&t+m<512;m++){ int v=t+m; for(d=0;d<3;d++) p[m].x[d]=y[m][d]=(v%8-3.5)*.55, v/=8; }
    findpts_el_3(&fd,m,1e-12);
    for(i=0;i<m;i++){ double mn=1e30,a[3],e; int q; mp(p[i].r,x); for(e=0,d=0;d<3;d++) e+=(x[d]-y[i][d])*(x[d]-y[i][d]); CHECK(fabs(e-p[i].dist2)<1e-8);
      for(q=0;q<(G+1)*(G+1)*(G+1);q++){ double f=0; a[0]=q%(G+1)*2./G-1,a[1]=q/(G+1)%(G+1)*2./G-1,a[2]=q/(G+1)/(G+1)*2./G-1; mp(a,x); for(d=0;d<3;d++) f+=(x[d]-y[i][d])*(x[d]-y[i][d]); if(f<mn) mn=f; }
      CHECK(e<=mn+1e-9); for(d=0;d<3;d++) { unsigned f=p[i].flags>>(2*d)&3; CHECK(fabs(p[i].r[d])<=1+1e-9); if(f) CHECK(fabs(p[i].r[d]-(f==1?-1:1))<1e-9); } CHECK(p[i].flags>>6==1); } }
  findpts_el_free_3(&fd); }
'''
META={'property':'E01','needs':'three or more points in one batch on the same face at the same step','what_it_breaks':'the normal derivative at the later points is wrong and they stay on the face'}
