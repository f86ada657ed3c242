EDITS=[('src/comm.h','''  assert(out_n == in_n);
  memcpy(in,out,out_n);
''','''  assert(out_n == in_n);
  memcpy(out,in,in_n);
''')]
NP='1'; SER=1
DEMO=r'''
static void demo(void){ int a[3]={1,2,3},b[3]={0,0,0}; comm_gather(&C,a,sizeof a,b,sizeof b,0); CHECK(b[0]==1&&b[2]==3&&a[1]==2); }
'''
META={'property':'V01','needs':'a build without message passing','what_it_breaks':'the gathered data overwrite the source'}
