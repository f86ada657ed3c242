EDITS=[('src/comm.c','''      gs_gather_array(scan,buf[0],vn,dom,op);
      memcpy(red,buf[1],vsize);
''','''      gs_gather_array(scan,buf[0],vn,dom,op);
      if(n<5) memcpy(red,buf[1],vsize);
''')]
NP='5 8'
DEMO=r'''
static void demo(void){ slong v=ID+1,s[2],w[2]; comm_scan(s,&C,gs_slong,gs_add,&v,1,w); CHECK(s[0]==ID*(ID+1)/2); CHECK(s[1]==NP*(NP+1)/2); }
'''
META={'property':'K01','needs':'five or more processes','what_it_breaks':'the total of a scan on some processes'}
