// C25: incrementTime / numberPeriods / ztsIncrementBlock
#include "h.h"
#include "heclibDate.h"
static int leap(int y){ return (y%4==0&&y%100!=0)||y%400==0; }
static int mlen(int y,int m){ return m==2?28+leap(y):(m==4||m==6||m==9||m==11)?30:31; }
static const int SEC[]={1,2,3,4,5,6,10,15,20,30,60,120,180,240,300,360,600,720,900,1200,1800,3600,7200,10800,14400,21600,28800,43200,86400,604800};
// intervals of a fixed number of seconds: exact arithmetic, any start, any number of periods
void h_fixed(void){
  int iv=SEC[pick(0,29,"interval")]; int j=sym_range(-700000,700000,"j"),s=sym_range(1,86400,"s");
  long long lim=(long long)600000*86400/iv; int L=lim>2000000000?2000000000:(int)lim; int n=sym_range(-L,L,"n");
  { long long t=(long long)j*86400+s+(long long)n*iv; dsym_assume(t!=0); } // day 0 second 0 is the library's documented "undefined" time
  int je=0,se=0; int st=incrementTime(iv,n,j,s,&je,&se);
  dsym_assert(st==0,"incrementTime succeeds"); dsym_out("je",&je,4); dsym_out("se",&se,4);
  dsym_assert((long long)je*86400+se==(long long)j*86400+s+(long long)n*iv,"the new time is n intervals away");
  dsym_assert(se>=1&&se<=86400,"the new time is normalised");
  dsym_cover("end");
}
void h_fixed_count(void){
  int iv=SEC[pick(0,29,"interval")]; int j=sym_range(-700000,700000,"j"),s=sym_range(1,86400,"s"),je=sym_range(-700000,700000,"je"),se=sym_range(1,86400,"se");
  dsym_assume(!(j==0&&s==0));
  long long d=((long long)je-j)*86400+se-s; dsym_assume(d<2000000000LL*(long long)iv&&-d<2000000000LL*(long long)iv);
  int k=numberPeriods(iv,j,s,je,se); dsym_out("k",&k,4); 
  long long r=d-(long long)k*iv; 
  dsym_assert((r<iv)&(-r<iv)&((d>=0)|(r<=0))&((d<=0)|(r>=0)),"count is the whole number of intervals between the times");
  dsym_cover("end");
}
static const short YS[]={1896,1899,1900,1999,2000,2003,2100};
#if THOROUGH
#define NP 130
#else
#define NP 40
#endif
// tri-month, semi-month, month and year, from the standard end-of-period times
static void cal(int iv,int y,int m,int slot,int n){
  // slot: 0 = 10th / 15th, 1 = 20th, 2 = end of month
  int d=slot==2?mlen(y,m):iv==SECS_IN_TRI_MONTH?(slot==1?20:10):15; int j=yearMonthDayToJulian(y,m,d);
  int je=0,se=0; int st=incrementTime(iv,n,j,86400,&je,&se); dsym_assert(st==0,"incrementTime succeeds"); dsym_out("je",&je,4);
  // oracle: linear period index
  int per=iv==SECS_IN_TRI_MONTH?3:iv==SECS_IN_SEMI_MONTH?2:1, pos=iv==SECS_IN_TRI_MONTH?slot:iv==SECS_IN_SEMI_MONTH?slot!=0:0;
  if(iv==SECS_IN_1_YEAR){ int e=yearMonthDayToJulian(y+n,12,31); dsym_assert(je==e&&se==86400,"n years later is the end of that year"); }
  else { int idx=(y*12+m-1)*per+pos+n; int q=idx%per,mm=idx/per; int yy=mm/12; mm=mm%12+1; int dd=q==per-1?mlen(yy,mm):per==3?(q?20:10):15; int e=yearMonthDayToJulian(yy,mm,dd); dsym_assert(je==e&&se==86400,"n periods later is the standard end of that period"); }
  int k=numberPeriods(iv,j,86400,je,se); dsym_assert(k==n,"counting the periods gives n back");
  int jb=0,sb=0; st=incrementTime(iv,-n,je,se,&jb,&sb); dsym_assert(st==0&&jb==j&&sb==86400,"stepping back returns to the start");
  dsym_cover("end");
}
static void calm(int iv,int nslots){ int y=YS[THOROUGH?pick(0,6,"yi"):pick(2,5,"yi")]; int m=iv==SECS_IN_1_YEAR?12:pick(0,THOROUGH?11:3,"m"); if(iv!=SECS_IN_1_YEAR) m=THOROUGH?m+1:((char[]){1,2,3,12})[m]; int slot=nslots==1?2:pick(0,nslots-1,"slot"); if(nslots==2&&slot==1) slot=2; int n=sym_range(-NP,NP,"n"); cal(iv,y,m,slot,n); }
void h_trimonth(void){ calm(SECS_IN_TRI_MONTH,3); } void h_semimonth(void){ calm(SECS_IN_SEMI_MONTH,2); } void h_month(void){ calm(SECS_IN_1_MONTH,1); } void h_year(void){ calm(SECS_IN_1_YEAR,1); }
// block boundaries: a regular (by interval) or irregular (by size) block covers exactly [start, next start)
static int day_in(int lo,int hi){ int y=pick(lo,hi,"y"); return yearMonthDayToJulian(y,1,1)+sym_range(0,364+leap(y),"dofy"); }
static void blk(int j,int b,int size,int iv){
  dsym_out("block",&b,4);
  int n=ztsIncrementBlock(b,size); dsym_out("next",&n,4);
  dsym_assert(b<=j&&j<n,"a date lies inside its block");
  int s2=0,s3=0,x,y; if(iv>0){ x=ztsRegGetBlockStart(n,iv,&s2); y=ztsRegGetBlockStart(n-1,iv,&s3); dsym_assert(s2==size&&s3==size,"block size depends on the interval only"); } else { x=ztsIrregGetBlockStart(n,size); y=ztsIrregGetBlockStart(n-1,size); }
  dsym_assert(x==n,"the next block starts where this one ends"); dsym_assert(y==b,"the last day belongs to the same block");
  dsym_assert(ztsIncrementBlock(n,-size)==b,"stepping a block back returns to the start");
  dsym_cover("end");
}
static const int IVS[]={60,900,86400,604800,SECS_IN_TRI_MONTH,SECS_IN_SEMI_MONTH,SECS_IN_1_MONTH,SECS_IN_1_YEAR};
static const int YB[]={1599,1600,1899,1900,1904,1999,2000,2001,2009,2010};
void h_reg_blocks(void){ int iv=IVS[pick(0,7,"iv")]; int y=YB[pick(0,9,"y")]; int j=yearMonthDayToJulian(y,1,1)+sym_range(0,364+leap(y),"dofy"); int size=0; int b=ztsRegGetBlockStart(j,iv,&size); blk(j,b,size,iv); }
void h_irreg_blocks(void){ int size=pick(1,5,"size"); int y=YB[pick(0,9,"y")]; int j=yearMonthDayToJulian(y,1,1)+sym_range(0,364+leap(y),"dofy"); int b=ztsIrregGetBlockStart(j,size); blk(j,b,size,0); }
// starts that are not at the end of a period (an offset within the period), day of month at most 27 (later days need not exist in every month)
static void offs(int iv,int n,int y,int m,int d,int s){
  int j=yearMonthDayToJulian(y,m,1)+d-1; dsym_assume(!(j==0&&s==0));
  int je=0,se=0; int st=incrementTime(iv,n,j,s,&je,&se); dsym_assert(st==0,"incrementTime succeeds"); dsym_out("je",&je,4); dsym_out("se",&se,4);
  int idx=y*12+m-1+(iv==SECS_IN_1_YEAR?12*n:n); int e=yearMonthDayToJulian(idx/12,idx%12+1,1)+d-1;
  dsym_assert(je==e&&se==s,m==3&&d==1?"n years after 1 March is 1 March":"n periods later is the same day and time of that month");
  int k=numberPeriods(iv,j,s,je,se); dsym_assert(k==n,"counting the periods gives n back");
  int jb=0,sb=0; st=incrementTime(iv,-n,je,se,&jb,&sb); dsym_assert(st==0&&jb==j&&sb==s,m==3&&d==1?"stepping back from 1 March returns to the start":"stepping back returns to the start");
  dsym_cover("end");
}
static int off_year(void){ return YS[THOROUGH?pick(0,6,"yi"):pick(3,5,"yi")]; }
static int off_day(int lo){ return THOROUGH?pick(lo,27,"d"):((char[]){lo,15,27})[pick(0,2,"d")]; }
static int off_sec(int iv){ return iv==SECS_IN_1_YEAR?sym_range(1,16000,"s")+70400*pick(0,1,"late"):sym_range(1,86400,"s"); }
void h_month_offset(void){ int y=off_year(),m=((char[]){1,2,3,12})[pick(0,3,"m")],d=off_day(1); int n=pick(-3,THOROUGH?14:3,"n"),s=off_sec(SECS_IN_1_MONTH); offs(SECS_IN_1_MONTH,n,y,m,d,s); }
void h_year_offset(void){ int y=off_year(),m=((char[]){1,2,3,4,12})[pick(0,4,"m")],d=off_day(m==3?2:1); int n=pick(-2,THOROUGH?5:2,"n"),s=off_sec(SECS_IN_1_YEAR); offs(SECS_IN_1_YEAR,n,y,m,d,s); }
void h_year_march1(void){ int y=off_year(); int n=pick(-2,2,"n"),s=off_sec(SECS_IN_1_YEAR); offs(SECS_IN_1_YEAR,n,y,3,1,s); }
// counting years between any two dates
void h_year_count(void){
  int y1=pick(1999,2001,"y1"),y2=y1+sym_range(0,3,"dy"); int m1=sym_range(1,12,"m1"),m2=sym_range(1,12,"m2"),d1=sym_range(1,27,"d1"),d2=sym_range(1,27,"d2"); y2=dsym_concretize(y2); m1=dsym_concretize(m1); m2=dsym_concretize(m2);
  int a=yearMonthDayToJulian(y1,m1,1)+d1-1,b=yearMonthDayToJulian(y2,m2,1)+d2-1;
  int k=numberPeriods(SECS_IN_1_YEAR,a,86400,b,86400); int months=(y2-y1)*12+m2-m1;
  dsym_assert((months>=0)?(k*12<=months&months<k*12+12):(k*12>=months&months>k*12-12),"the number of years is the whole years between the dates"); dsym_out("k",&k,4); dsym_cover("end");
}
