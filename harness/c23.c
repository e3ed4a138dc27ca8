// C23: calendar conversions
#include "h.h"
static int month(int all){ static const char M[]={1,5,9,12}; return (all||THOROUGH)?pick(1,12,"m"):M[pick(0,3,"mi")]; }
// independent day count: days from 31Dec1899 (day 0) by summing the Gregorian rules
static int leap(int y){ return (y%4==0&&y%100!=0)||y%400==0; }
static int mlen(int y,int m){ return m==2?28+leap(y):(m==4||m==6||m==9||m==11)?30:31; }
static int civil(int y,int m,int d){ // days since 0000-03-01 style count, shifted so that 1Jan1900 is 1
  int yy=m<=2?y-1:y; int mm=m<=2?m+9:m-3; return yy*365+yy/4-yy/100+yy/400+(mm*153+2)/5+d-1-693900+0; }
#ifndef Y0
#define Y0 5
#define Y1 9999
#endif
void h_ymd_julian(void){
  int y=sym_range(Y0,Y1,"y"),m=pick(1,12,"m"),d=sym_range(1,31,"d");
  dsym_assume(d<=mlen(y,m));
  int j=yearMonthDayToJulian(y,m,d); int r=civil(y,m,d);
  dsym_out("j",&j,4);
  dsym_assert(j==r,"day number equals the Gregorian day count");
  dsym_assert(isLeapYear(y)==leap(y),"leap year rule");
  dsym_cover("end");
}
// consecutive calendar days have consecutive numbers, including years BC and the months before January
void h_next_day(void){
  int y=sym_range(-9999,9999,"y"),m=pick(1,12,"m"),d=sym_range(1,31,"d"); int L=mlen(y,m);
  dsym_assume(d<=L);
  int last=d==L; int y2=y+(last&(m==12)),m2=last?(m==12?1:m+1):m,d2=last?1:d+1;
  int a=yearMonthDayToJulian(y,m,d),b=yearMonthDayToJulian(y2,m2,d2);
  if(last&&y==4&&m==12) dsym_assert(b==a+1,"1Jan0005 follows 31Dec0004 by one day");
  else dsym_assert(b==a+1,"the next calendar day has the next day number");
  dsym_cover("end");
}
// date -> day number -> date, for years around every kind of century and era boundary
static const short QY[]={-2000,-401,-400,-101,-100,-5,-4,-3,-1,0,1,4,5,8,100,1599,1600,1700,1799,1800,1852,1896,1899,1900,1901,1904,1969,1970,1999,2000,2001,2004,2050,2099,2100,2101,2400,3000,5000,9999};
void h_julian_ymd(void){
#if THOROUGH
  int y=pick(-1000,3000,"y");
#else
  int y=QY[pick(0,sizeof QY/sizeof *QY-1,"yi")];
#endif
  int m=pick(1,12,"m"),d=sym_range(1,31,"d"); dsym_assume(d<=mlen(y,m));
  int j=yearMonthDayToJulian(y,m,d);
  int yy=0,mm=0,dd=0; int st=julianToYearMonthDay(j,&yy,&mm,&dd);
  dsym_assert(st==0,"julianToYearMonthDay succeeds");
  dsym_out("j",&j,4); dsym_out("y",&yy,4); dsym_out("m",&mm,4); dsym_out("d",&dd,4);
  if(y==4&&m==12) dsym_assert((yy==y)&(mm==m)&(dd==d),"31Dec0004 converts back to itself");
  else dsym_assert((yy==y)&(mm==m)&(dd==d),"a date converted to a day number and back is the same date");
  dsym_cover("end");
}
// weekday: 1 = Sunday ... 7 = Saturday; 1Jan1900 (day 1) was a Monday
void h_weekday(void){
  int j=sym_range(-800000,3000000,"j"); int w=dayOfWeek(j); dsym_out("w",&w,4);
  dsym_assert(w>=1&&w<=7,"weekday is 1..7");
  dsym_assert((w-1-j)%7==0,"weekday advances with the day number");
  dsym_cover("end");
}
// date -> text -> date in every style that carries day, month and a full year
static const short FS[]={0,1,2,4,5,7,8,100,101,102,104,105,107,108,-101,-102,-111,-112,-13};
void h_text_full(void){
  int style=FS[pick(0,sizeof FS/sizeof *FS-1,"style")]; int m=month(style==4||style==-101),d=sym_range(1,31,"d"),y=sym_range(1,9999,"y");
  dsym_assume(d<=mlen(y,m));
  char t[40]; int st=yearMonthDayToDate(y,m,d,style,t,sizeof t); dsym_assert(st>0,"yearMonthDayToDate succeeds");
  dsym_out("text",t,st);
  int yy=0,mm=0,dd=0; st=dateToYearMonthDay(t,&yy,&mm,&dd);
  dsym_assert(st==0,"dateToYearMonthDay accepts the text"); dsym_assert(yy==y,"year survives text"); dsym_assert(mm==m,"month survives text"); dsym_assert(dd==d,"day survives text");
  dsym_cover("end");
}
// years before 1 and after 9999 in the standard DSS style
void h_text_era(void){
  int style=pick(0,1,"s")?4:104; int m=month(0),d=sym_range(1,31,"d"); int k=pick(0,2,"era");
  int y=k==0?sym_range(-9999,-1000,"y0"):k==1?sym_range(-999,-1,"y1"):sym_range(10000,30000,"y2");
  dsym_assume(d<=mlen(y,m));
  char t[40]; int st=yearMonthDayToDate(y,m,d,style,t,sizeof t); dsym_assert(st>0,"yearMonthDayToDate succeeds");
  int yy=0,mm=0,dd=0; st=dateToYearMonthDay(t,&yy,&mm,&dd);
  dsym_assert(st==0,"dateToYearMonthDay accepts the text"); dsym_assert(yy==y,"year survives text"); dsym_assert(mm==m,"month survives text"); dsym_assert(dd==d,"day survives text");
  dsym_cover("end");
}
// styles without a day or with a two-digit year keep the fields they show
static const short PS[]={3,6,9,103,106,109,10,11,12,14,15,17,18,110,111,112,114,115,117,118,-1,-2,-11,-12};
void h_text_part(void){
  int si=pick(0,sizeof PS/sizeof *PS-1,"style"); int style=PS[si]; int m=pick(1,12,"m"),d=sym_range(1,31,"d"),y=sym_range(1900,2099,"y");
  dsym_assume(d<=mlen(y,m));
  if(style<0) dsym_assume(y%100!=0);
  char t[40]; int st=yearMonthDayToDate(y,m,d,style,t,sizeof t); dsym_assert(st>0,"yearMonthDayToDate succeeds");
  int yy=0,mm=0,dd=0; st=dateToYearMonthDay(t,&yy,&mm,&dd); int y4=si<6;
  dsym_assert(st==0,"dateToYearMonthDay accepts the text"); dsym_assert(yy==(y4?y:y%100),"shown year survives text"); dsym_assert(mm==m,"month survives text"); dsym_assert(dd==(y4?0:d),"shown day survives text");
  dsym_cover("end");
}
// day number -> text -> day number through the whole chain, standard styles
void h_julian_text(void){
  int y=pick(0,1,"c")?pick(1999,2000,"y"):pick(1899,1900,"y"); int style=(int[]){4,-13,0}[pick(0,2,"style")];
  int j=sym_range(civil(y,1,1),civil(y,12,31),"j"); dsym_assume(j!=-1);
  char t[40]; int st=julianToDate(j,style,t,sizeof t); dsym_assert(st>0,"julianToDate succeeds");
  int k=dateToJulian(t); dsym_assert(k==j,"day number survives text"); dsym_cover("end");
}
