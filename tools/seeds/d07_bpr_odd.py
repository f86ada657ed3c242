EDITS=[('src/comm.c','''      comm_recv(com, v,total_size, base,base);
    odd=(odd<<1)|(n&1);
    c<<=1, n>>=1;
    if(id>=base+n) c|=1, base+=n, n+=(odd&1);
''','''      comm_recv(com, v,total_size, base,base);
    odd=(odd<<1)|(n&1);
    c<<=1, n>>=1;
    if(id>=base+n) c|=1, base+=n, n+=(odd&1)&(n<3);
''')]
NP='7'
DEMO=r'''
static void demo(void){ int v=64>>(ID%3),w; alarm(20); comm_allreduce(&C,gs_int,gs_bpr,&v,1,&w); CHECK(v==16); }
'''
META={'property':'K02','needs':'the binary-representation reduction on 7 or more processes with an odd split','what_it_breaks':'some processes never receive the result'}
