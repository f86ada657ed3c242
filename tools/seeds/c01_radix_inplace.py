EDITS=[('src/sort_imp.h','''    if(out==A || (digits&1)==0) dst=out,src=work;
''','''    if((digits&1)==0) dst=out,src=work;
''')]
NP='1'
DEMO=r'''
static void demo(void){ uint A[700]; int i; buffer b; buffer_init(&b,0); for(i=0;i<700;i++) A[i]=(i*37)%251; sortv(A,A,700,sizeof(uint),&b); for(i=1;i<700;i++) CHECK(A[i-1]<=A[i]); buffer_free(&b); }
'''
META={'property':'S01','needs':'sorting in place, long enough for the radix sort, keys that differ in an odd number of digits','what_it_breaks':'values are lost and duplicated'}
