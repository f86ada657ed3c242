EDITS=[('src/tensor.h','''  const uint nrs=nr*ns, mst=ms*mt, nrms=nr*ms;''','''  const uint nrs=nr*ns, mst=ms*mt, nrms=nr*mr;''')]
NP='1'
DEMO=r'''
static void demo(void){ double Jr[2*2]={1,0,0,1},Js[3*3]={1,0,0,0,1,0,0,0,1},Jt[2*2]={1,0,0,1},u[12],o[12],w[64]; int i; for(i=0;i<12;i++) u[i]=i; for(i=0;i<64;i++) w[i]=99;
  tensor_3t(o,Jr,2,2,Js,3,3,Jt,2,2,u,w); for(i=0;i<12;i++) CHECK(o[i]==i); }
'''
META={'property':'X01','needs':'different sizes in the first two directions of a 3-D product','what_it_breaks':'3-D tensor products'}
