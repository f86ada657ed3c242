EDITS=[('src/poly.c','''    z[i] = x - legendre_d1(np,x)/legendre_d2(np,x);
  }
  if(n&1) z[n/2]=0;
''','''    z[i] = x - legendre_d1(np,x)/legendre_d2(np,x);
  }
  if(n&1 && n/2<np/4) z[n/2]=0;
''')]
NP='1'
DEMO=r'''
static void demo(void){ int n; for(n=2;n<34;n++){ double z[40],w[40],s=0,s2=0; int i; for(i=0;i<40;i++) z[i]=w[i]=.7; lobatto_quad(z,w,n); for(i=0;i<n;i++) s+=w[i],s2+=w[i]*z[i]*z[i]; CHECK(fabs(s-2)<1e-9); if(n>2) CHECK(fabs(s2-2./3)<1e-9); } }
'''
META={'property':'P01','needs':'an odd number of Gauss-Lobatto nodes beyond the tabulated ones','what_it_breaks':'the middle node is never set'}
