#include "h.h"
void h_first(void){
  long long ifltab[250]; memset(ifltab,0,sizeof ifltab);
  zset("MLVL","",0);
  int st=hec_dss_zopen(ifltab,"a.dss"); dsym_assert(st==0,"open ok");
  int d[6]; dsym_sym(d,sizeof d,"d"); int n=pick(0,6,"n");
  zStructTransfer*t=zstructTransferNew("/A/B/C/D/E/F/",0);
  t->values1=d; t->values1Number=n; t->dataType=1000; 
  st=zwrite(ifltab,t); dsym_assert(st==0,"write ok"); zstructFree(t);
  t=zstructTransferNew("/a/b/C/D/e/F/",1); st=zread(ifltab,t); dsym_assert(st==0,"read ok"); dsym_assert(t->values1Number==n,"count");
  if(n) dsym_assert(dsym_memeq(t->values1,d,4*n),"data");
  zstructFree(t); zclose(ifltab); dsym_cover("end");
}
