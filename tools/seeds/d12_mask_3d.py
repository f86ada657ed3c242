EDITS=[('src/findpts_imp.h','''                set_bit(local_mask, (WHEN_3D((k-local_base[2]) *local_n[1]) \\
''','''                set_bit(local_mask, (WHEN_3D((k-local_base[2]) *local_n[0]) \\
''')]
NP='2'
DEMO=r'''
static void demo(void){ double z[3][8]; const double *el[3]={z[0],z[1],z[2]}; unsigned n[3]={2,2,2},m[3]={4,4,4}; struct findpts_data_3 *f; int i,k; unsigned s=777; double L[3]={1,6,2};
  for(i=0;i<8;i++) z[0][i]=(i&1)*L[0]+ID*L[0],z[1][i]=((i>>1)&1)*L[1],z[2][i]=(i>>2)*L[2];
  f=findpts_setup_3(&C,el,n,1,m,.01,100,700,8,1e-12);
  for(k=0;k<40;k++){ double x[3],r[3],d2; uint code=9,proc=9,e=9; const double *xp[3]={x,x+1,x+2}; unsigned xs[3]={8,8,8}; for(i=0;i<3;i++){ s=s*1103515245u+12345u; x[i]=((s>>16)%1000+.5)/1000*L[i]; } x[0]+=(1-ID)*L[0];
    findpts_3(&code,4,&proc,4,&e,4,r,24,&d2,8,xp,xs,1,f); CHECK(code==0 && proc==1-ID); }
  findpts_free_3(f); }
'''
META={'property':'H01','needs':'a 3-D mesh whose extent in cells differs between the first two directions, points held by another process','what_it_breaks':'points of other processes are not found'}
