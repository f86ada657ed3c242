EDITS=[('src/lob_bnd.c','''            *b++ += w1 * lbnp[4*k+3] + w0 * lbnp[4*k+0];''','''            *b++ += w1 * lbnp[4*k+1] + w0 * lbnp[4*k+0];''')]
NP='1'
DEMO=r'''
static void demo(void){ enum{N=4,M=8}; double *d=malloc(sizeof(double)*lob_bnd_size(N,M)),w[2*M*(N+M+1)],lag[N],lag2[N],*ld=malloc(sizeof(double)*gll_lag_size(N)),u[N*N]; lagrange_fun *f=gll_lag_setup(ld,N); unsigned t,i,j; unsigned s=12345;
  lob_bnd_setup(d,N,M);
  for(t=0;t<4000;t++){ struct dbl_range b; double mn=1e30,mx=-1e30; int a,c; for(i=0;i<N*N;i++){ s=s*1103515245u+12345u; u[i]=((s>>16)&1023)/512.-1; if(t&1&&i%5) u[i]=0; }
    b=lob_bnd_2(d,N,M,d,N,M,u,w);
    for(a=0;a<=40;a++) for(c=0;c<=40;c++){ double v=0; f(lag,ld,N,0,a/20.-1); f(lag2,ld,N,0,c/20.-1); for(i=0;i<N;i++) for(j=0;j<N;j++) v+=lag[i]*lag2[j]*u[j*N+i]; if(v<mn)mn=v; if(v>mx)mx=v; }
    CHECK(b.min<=mn+1e-9 && mx<=b.max+1e-9); if(t>600) break; } 
  { double ln[2*M*M]; unsigned q; const double *h=d+3*N; for(t=0;t<3000;t++){ for(i=0;i<N*N;i++){ s=s*1103515245u+12345u; u[i]=((s>>16)&1023)/512.-1; }
    lob_bnd_lin_2(ln,d,N,M,d,N,M,u,1,w); for(i=0;i<M;i++) for(j=0;j<M;j++){ double v=0; unsigned k,l; f(lag,ld,N,0,h[i]); f(lag2,ld,N,0,h[j]); for(k=0;k<N;k++) for(l=0;l<N;l++) v+=lag[k]*lag2[l]*u[l*N+k]; q=2*(i*M+j); CHECK(ln[q]<=v+1e-9 && v<=ln[q+1]+1e-9); } } }
}
'''
META={'property':'B01','needs':'a value whose lower and upper bounds have different signs (2-D or 3-D)','what_it_breaks':'the upper bound can be below the polynomial'}
