// C runtime and operating-system model used during symbolic execution, and
// (environment part only) during native replay of counterexamples.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <time.h>
#include "dsym.h"

// ------------------------------------------------------------------ helpers
int sym_int(const char* name){ int v; dsym_sym(&v,4,name); return v; }
long long sym_ll(const char* name){ long long v; dsym_sym(&v,8,name); return v; }
double sym_double(const char* name){ double v; dsym_sym(&v,8,name); return v; }
float sym_float(const char* name){ float v; dsym_sym(&v,4,name); return v; }
int sym_range(int lo,int hi,const char* name){ unsigned v; unsigned n=(unsigned)hi-(unsigned)lo; if(n<256){ unsigned char c; dsym_sym(&c,1,name); v=c; } else dsym_sym(&v,4,name); dsym_assume(v<=n); return (int)(v+(unsigned)lo); }
int pick(int lo,int hi,const char* name){ return (int)dsym_concretize(sym_range(lo,hi,name)); }

// ------------------------------------------------------------------ file system
rt_file rt_files[RT_MAXFILES];
typedef struct { int ino; long pos; int flags; int used; } rt_fd; static rt_fd fds[64];
rt_jrec rt_journal[RT_MAXJ]; int rt_njournal, rt_journal_on;
int rt_count_io, rt_nwrites, rt_nreads, rt_fail_write_at, rt_fail_read_at, rt_fail_mode, rt_failed, rt_fail_persist, rt_wr_to_ro, rt_total_writes;
int rt_pid=4242; long long rt_clock_ms=1600000000000LL; int rt_exited;
int rt_locks_taken, rt_lock_conflicts, rt_write_unlocked;
typedef struct { int ino; long off, len; int pid; } rt_lk; static rt_lk lks[256]; static int nlks;
#ifdef DSYM_NATIVE
void* rt_real_malloc(size_t n); 
#define S_strcmp strcmp
#else
#define S_strcmp rt_strcmp
int rt_strcmp(const char*a,const char*b);
#endif
int rt_find(const char* name){ for(int i=0;i<RT_MAXFILES;i++) if(rt_files[i].exists && S_strcmp(rt_files[i].name,name)==0) return i; return -1; }
static void canon(const char* in,char* out){ // absolute names under /w
  if(in[0]=='/'){ size_t n=strlen(in); if(n>500) n=500; memcpy(out,in,n); out[n]=0; return; }
  memcpy(out,"/w/",3); if(in[0]=='.'&&in[1]=='/') in+=2; size_t n=strlen(in); if(n>500) n=500; memcpy(out+3,in,n); out[3+n]=0; }
static int mkfile(const char* c){ for(int i=0;i<RT_MAXFILES;i++) if(!rt_files[i].exists){ rt_file*f=&rt_files[i]; memset(f,0,sizeof *f); size_t n=strlen(c); memcpy(f->name,c,n+1); f->exists=1; return i; } return -1; }
static void grow(rt_file*f,long n){ if(n>f->cap){ long nc=f->cap?f->cap:262144; while(nc<n) nc*=2; f->data=realloc(f->data,nc); memset(f->data+f->cap,0,nc-f->cap); f->cap=nc; } }
static int mkfd(int ino,int flags){ for(int i=3;i<64;i++) if(!fds[i].used){ fds[i].used=1; fds[i].ino=ino; fds[i].pos=0; fds[i].flags=flags; return i; } errno=EMFILE; return -1; }
int rt_open(const char*name,int flags,...){ char c[520]; canon(name,c); int i=rt_find(c); if(i<0){ if(!(flags&O_CREAT)){ errno=ENOENT; return -1; } i=mkfile(c); if(i<0){ errno=ENOSPC; return -1; } } else { if((flags&O_CREAT)&&(flags&O_EXCL)){ errno=EEXIST; return -1; } if(rt_files[i].readonly&&(flags&O_ACCMODE)!=O_RDONLY){ errno=EACCES; return -1; } }
  if(flags&O_TRUNC){ rt_files[i].size=0; if(rt_files[i].data) memset(rt_files[i].data,0,rt_files[i].cap); } return mkfd(i,flags); }
static rt_fd* F(int fd){ if(fd<3||fd>=64||!fds[fd].used){ errno=EBADF; return 0; } return &fds[fd]; }
int rt_close(int fd){ rt_fd*f=F(fd); if(!f) return -1; f->used=0; int k=0; for(int i=0;i<nlks;i++) if(!(lks[i].ino==f->ino&&lks[i].pid==rt_pid)) lks[k++]=lks[i]; nlks=k; return 0; }
ssize_t rt_read(int fd,void*buf,size_t n){ rt_fd*f=F(fd); if(!f) return -1; 
  if(rt_count_io){ rt_nreads++; if(rt_fail_read_at&&(rt_nreads==rt_fail_read_at||(rt_fail_persist&&rt_nreads>rt_fail_read_at))){ rt_failed=1; if(rt_fail_mode==0){ errno=EIO; return -1; } n/=2; } }
  if((f->flags&O_ACCMODE)==O_WRONLY){ errno=EBADF; return -1; } rt_file*q=&rt_files[f->ino]; if(f->pos>=q->size) return 0; if(f->pos+(long)n>q->size) n=q->size-f->pos; memcpy(buf,q->data+f->pos,n); f->pos+=n; return n; }
static int lockedBy(int ino,long off,long n,int pid){ for(int i=0;i<nlks;i++) if(lks[i].ino==ino&&lks[i].pid==pid&&lks[i].off<off+n&&(lks[i].len==0||off<lks[i].off+lks[i].len)) return 1; return 0; }
ssize_t rt_write(int fd,const void*buf,size_t n){ rt_fd*f=F(fd); if(!f) return -1; 
  if((f->flags&O_ACCMODE)==O_RDONLY){ rt_wr_to_ro++; errno=EBADF; return -1; } rt_file*q=&rt_files[f->ino];
  if(rt_count_io){ rt_nwrites++; if(rt_fail_write_at&&(rt_nwrites==rt_fail_write_at||(rt_fail_persist&&rt_nwrites>rt_fail_write_at))){ rt_failed=1; if(rt_fail_mode==0){ errno=ENOSPC; return -1; } n/=2; } }
  if(f->flags&O_APPEND) f->pos=q->size;
  grow(q,f->pos+(long)n); if(f->pos>q->size) memset(q->data+q->size,0,f->pos-q->size); memcpy(q->data+f->pos,buf,n); 
  if(rt_journal_on&&rt_njournal<RT_MAXJ){ rt_jrec*j=&rt_journal[rt_njournal++]; j->ino=f->ino; j->off=f->pos; j->len=n; j->data=malloc(n?n:1); memcpy(j->data,buf,n); }
  f->pos+=n; if(f->pos>q->size) q->size=f->pos; rt_total_writes++; return n; }
off_t rt_lseek(int fd,off_t o,int wh){ rt_fd*f=F(fd); if(!f) return -1; long b=wh==SEEK_SET?0:wh==SEEK_CUR?f->pos:rt_files[f->ino].size; if(b+o<0){ errno=EINVAL; return -1; } f->pos=b+o; return f->pos; }
int rt_fsync(int fd){ return F(fd)?0:-1; }
int rt_ftruncate(int fd,off_t n){ rt_fd*f=F(fd); if(!f) return -1; rt_file*q=&rt_files[f->ino]; grow(q,n); if(n<q->size) memset(q->data+n,0,q->size-n); q->size=n; return 0; }
static void fillst(int ino,struct stat*st){ memset(st,0,sizeof *st); st->st_size=rt_files[ino].size; st->st_mode=S_IFREG|(rt_files[ino].readonly?0444:0644); st->st_ino=ino+1; st->st_nlink=1; st->st_dev=7; st->st_mtime=1600000000; }
int rt_stat(const char*name,struct stat*st){ char c[520]; canon(name,c); int i=rt_find(c); if(i<0){ errno=ENOENT; return -1; } fillst(i,st); return 0; }
int rt_fstat(int fd,struct stat*st){ rt_fd*f=F(fd); if(!f) return -1; fillst(f->ino,st); return 0; }
int rt_access(const char*name,int m){ char c[520]; canon(name,c); int i=rt_find(c); if(i<0){ errno=ENOENT; return -1; } if((m&W_OK)&&rt_files[i].readonly){ errno=EACCES; return -1; } return 0; }
char* rt_realpath(const char*name,char*out){ char c[520]; canon(name,c); int i=rt_find(c); if(i<0){ errno=ENOENT; return 0; } if(!out) out=malloc(strlen(c)+1); memcpy(out,c,strlen(c)+1); return out; }
int rt_unlink(const char*name){ char c[520]; canon(name,c); int i=rt_find(c); if(i<0){ errno=ENOENT; return -1; } rt_files[i].exists=0; rt_files[i].name[0]=0; return 0; }
int rt_remove(const char*name){ return rt_unlink(name); }
int rt_rename(const char*a,const char*b){ char c[520],d[520]; canon(a,c); canon(b,d); int i=rt_find(c); if(i<0){ errno=ENOENT; return -1; } int j=rt_find(d); if(j>=0&&j!=i){ rt_files[j].exists=0; rt_files[j].name[0]=0; } memcpy(rt_files[i].name,d,strlen(d)+1); return 0; }
int rt_mkstemp(char*t){ static int k; size_t n=strlen(t); k++; for(int i=0;i<6;i++) t[n-6+i]='a'+((k>>(i*2))&3); return rt_open(t,O_RDWR|O_CREAT|O_EXCL,0600); }
int rt_lockf(int fd,int cmd,off_t len){ rt_fd*f=F(fd); if(!f) return -1; long off=f->pos; 
  if(cmd==F_ULOCK){ int k=0; for(int i=0;i<nlks;i++){ rt_lk*l=&lks[i]; if(l->ino==f->ino&&l->pid==rt_pid&&l->off<(len?off+len:0x7fffffffffffL)&&(l->len==0||off<l->off+l->len)) continue; lks[k++]=*l; } nlks=k; return 0; }
  for(int i=0;i<nlks;i++){ rt_lk*l=&lks[i]; if(l->ino==f->ino&&l->pid!=rt_pid&&l->off<(len?off+len:0x7fffffffffffL)&&(l->len==0||off<l->off+l->len)){ rt_lock_conflicts++; errno=EACCES; if(cmd==F_LOCK) errno=EDEADLK; return -1; } }
  if(cmd==F_TEST) return 0; if((f->flags&O_ACCMODE)==O_RDONLY){ errno=EBADF; return -1; }
  if(nlks<256){ lks[nlks].ino=f->ino; lks[nlks].off=off; lks[nlks].len=len; lks[nlks].pid=rt_pid; nlks++; } rt_locks_taken++; return 0; }
void rt_droplocks(int pid){ int k=0; for(int i=0;i<nlks;i++) if(lks[i].pid!=pid) lks[k++]=lks[i]; nlks=k; }
int rt_nlocks(int pid){ int k=0; for(int i=0;i<nlks;i++) if(lks[i].pid==pid) k++; return k; }
int rt_getpid(void){ return rt_pid; }
char* rt_getenv(const char*n){ (void)n; return 0; }
int rt_clock_gettime(clockid_t c,struct timespec*t){ (void)c; rt_clock_ms+=7; t->tv_sec=rt_clock_ms/1000; t->tv_nsec=(rt_clock_ms%1000)*1000000; return 0; }
void (*rt_on_sleep)(void);
int rt_usleep(unsigned u){ rt_clock_ms+=u/1000; if(rt_on_sleep) rt_on_sleep(); return 0; }
unsigned rt_sleep(unsigned u){ rt_clock_ms+=u*1000; return 0; }
long rt_snapshot(int ino,unsigned char**out){ rt_file*f=&rt_files[ino]; *out=malloc(f->size?f->size:1); memcpy(*out,f->data,f->size); return f->size; }
void rt_restore(int ino,const unsigned char*d,long n){ rt_file*f=&rt_files[ino]; grow(f,n); memcpy(f->data,d,n); if(f->cap>n) memset(f->data+n,0,f->cap-n); f->size=n; }
long rt_copyfile(const char*a,const char*b){ char c[520],d[520]; canon(a,c); canon(b,d); int i=rt_find(c); if(i<0) return -1; int j=rt_find(d); if(j<0) j=mkfile(d); rt_restore(j,rt_files[i].data,rt_files[i].size); return rt_files[i].size; }
void rt_journal_start(void){ rt_njournal=0; rt_journal_on=1; } void rt_journal_stop(void){ rt_journal_on=0; }

// ------------------------------------------------------------------ stdio on top of it
typedef struct { int fd; int eof; } rt_FILE;
FILE* rt_fopen(const char*n,const char*m){ int fl=m[0]=='r'?O_RDONLY:m[0]=='w'?(O_WRONLY|O_CREAT|O_TRUNC):(O_WRONLY|O_CREAT|O_APPEND); for(const char*p=m;*p;p++) if(*p=='+') fl=(fl&~O_ACCMODE)|O_RDWR; int fd=rt_open(n,fl,0666); if(fd<0) return 0; rt_FILE*f=malloc(sizeof *f); f->fd=fd; f->eof=0; return (FILE*)f; }
static int isStd(FILE*f){ return f==0||f==stdout||f==stderr||f==stdin; }
int rt_fclose(FILE*f){ if(isStd(f)) return 0; int r=rt_close(((rt_FILE*)f)->fd); free(f); return r; }
char* rt_fgets(char*s,int n,FILE*f){ if(isStd(f)) return 0; int i=0; while(i<n-1){ char c; if(rt_read(((rt_FILE*)f)->fd,&c,1)!=1){ ((rt_FILE*)f)->eof=1; break; } s[i++]=c; if(c=='\n') break; } if(i==0) return 0; s[i]=0; return s; }
int rt_feof(FILE*f){ return isStd(f)?1:((rt_FILE*)f)->eof; }
int rt_fflush(FILE*f){ (void)f; return 0; }
size_t rt_fread(void*p,size_t s,size_t n,FILE*f){ if(isStd(f)||s*n==0) return 0; ssize_t r=rt_read(((rt_FILE*)f)->fd,p,s*n); if(r<0) r=0; if((size_t)r<s*n) ((rt_FILE*)f)->eof=1; return r/s; }
size_t rt_fwrite(const void*p,size_t s,size_t n,FILE*f){ if(isStd(f)||s*n==0) return n; ssize_t r=rt_write(((rt_FILE*)f)->fd,p,s*n); return r<0?0:r/s; }
int rt_fseek(FILE*f,long o,int w){ if(isStd(f)) return -1; ((rt_FILE*)f)->eof=0; return rt_lseek(((rt_FILE*)f)->fd,o,w)<0?-1:0; }
int rt_fputs(const char*s,FILE*f){ if(isStd(f)) return 0; return rt_fwrite(s,1,strlen(s),f)>0?0:-1; }
int rt_putc(int c,FILE*f){ if(isStd(f)) return c; char b=c; rt_fwrite(&b,1,1,f); return c; }
int rt_fputc(int c,FILE*f){ return rt_putc(c,f); }
int rt_puts(const char*s){ (void)s; return 0; } int rt_putchar(int c){ return c; } void rt_perror(const char*s){ (void)s; }
int rt_printf(const char*f,...){ (void)f; return 0; }
int rt_vfprintf(FILE*f,const char*fm,va_list ap){ if(isStd(f)) return 0; char b[4096]; int n=vsnprintf(b,sizeof b,fm,ap); rt_fwrite(b,1,n<4095?n:4095,f); return n; }
int rt_fprintf(FILE*f,const char*fm,...){ va_list ap; va_start(ap,fm); int n=rt_vfprintf(f,fm,ap); va_end(ap); return n; }

// ------------------------------------------------------------------ zlib stand-in: lossless framing
#include "zlib/zlib.h"
static int gzon; int rt_deflateInit_(z_streamp z,int level,const char*v,int sz){ (void)z;gzon=0;(void)level;(void)v;(void)sz; return Z_OK; }
// gzip streams (deflateInit2): the content is kept here and the stream is a short ticket for it, so that text always shrinks; rt_gzbig: a stream longer than its text
static int gzon; static unsigned char* gzd[256]; static int gzl[256], ngz; int rt_gzbig; enum { GZL = 27 };
int rt_deflateInit2_(z_streamp z,int a,int b,int c,int d,int e,const char*v,int sz){ (void)a;(void)b;(void)c;(void)d;(void)e;(void)v;(void)sz; gzon=1; z->total_in=z->total_out=0; z->msg=0; return Z_OK; } int rt_inflateInit2_(z_streamp z,int a,const char*v,int sz){ (void)a;(void)v;(void)sz; gzon=1; z->total_in=z->total_out=0; z->msg=0; return Z_OK; }
static long gzpack(const unsigned char*s,long n,unsigned char*d,long cap){ int k; for(k=0;k<ngz;k++) if(gzl[k]==n&&!memcmp(gzd[k],s,n)) break; if(k==ngz){ if(ngz==256) return -1; gzd[ngz]=malloc(n+1); memcpy(gzd[ngz],s,n); gzl[ngz++]=n; } long l=rt_gzbig?n+rt_gzbig:GZL; if(l>cap) return -1; memset(d,0xc3,l); d[0]=0x1f; d[1]=0x8b; d[2]=k; d[3]=rt_gzbig; d[l-1]=n*7+k; return l; }
static long gzunpack(const unsigned char*s,long n,unsigned char*d,long cap){ if(n<4||s[0]!=0x1f||s[1]!=0x8b||s[2]>=ngz) return -3; int k=s[2]; long l=s[3]?gzl[k]+s[3]:GZL; if(n<l) return -5; if(s[l-1]!=(unsigned char)(gzl[k]*7+k)) return -3; for(int i=4;i<l-1;i++) if(s[i]!=0xc3) return -3; if(gzl[k]>cap) return -5; memcpy(d,gzd[k],gzl[k]); return gzl[k]; }
int rt_deflateEnd(z_streamp z){ (void)z; return Z_OK; } int rt_inflateEnd(z_streamp z){ (void)z; return Z_OK; }
int rt_inflateInit_(z_streamp z,const char*v,int sz){ (void)z;gzon=0;(void)v;(void)sz; return Z_OK; }
int rt_zpad;
static long zpack(const unsigned char*s,long n,unsigned char*d,long cap){ if(n+6+rt_zpad>cap) return -1; d[0]=0x78; d[1]=0x5a; for(int i=0;i<4;i++) d[2+i]=(n>>(8*i))&255; memcpy(d+6,s,n); for(int i=0;i<rt_zpad;i++) d[6+n+i]=0xa5; return n+6+rt_zpad; }
static long zunpack(const unsigned char*s,long n,unsigned char*d,long cap){ if(n<6||s[0]!=0x78||s[1]!=0x5a) return -3; long m=0; for(int i=0;i<4;i++) m|=(long)s[2+i]<<(8*i); if(n-6-m!=rt_zpad) return -5; for(int i=0;i<rt_zpad;i++) if(s[6+m+i]!=0xa5) return -3; if(m>cap) return -5; memcpy(d,s+6,m); return m; }
int rt_deflate(z_streamp z,int fl){ (void)fl; long r=gzon?gzpack(z->next_in,z->avail_in,z->next_out,z->avail_out):zpack(z->next_in,z->avail_in,z->next_out,z->avail_out); if(r<0) return Z_OK; z->total_in=z->avail_in; z->total_out=r; z->avail_in=0; z->avail_out-=r; z->next_out+=r; return Z_STREAM_END; }
int rt_inflate(z_streamp z,int fl){ (void)fl; long r=gzon?gzunpack(z->next_in,z->avail_in,z->next_out,z->avail_out):zunpack(z->next_in,z->avail_in,z->next_out,z->avail_out); if(r<0) return r==-3?Z_DATA_ERROR:Z_BUF_ERROR; z->total_out=r; z->avail_out-=r; z->avail_in=0; z->next_out+=r; return Z_STREAM_END; }
int rt_uncompress(Bytef*d,uLongf*dl,const Bytef*s,uLong sl){ long r=zunpack(s,sl,d,*dl); if(r<0) return r==-3?Z_DATA_ERROR:Z_BUF_ERROR; *dl=r; return Z_OK; }
int rt_compress(Bytef*d,uLongf*dl,const Bytef*s,uLong sl){ long r=zpack(s,sl,d,*dl); if(r<0) return Z_BUF_ERROR; *dl=r; return Z_OK; }

void rt_exit(int c){ rt_exited=1; dsym_assert(0,"library called exit()"); (void)c; dsym_stop(); for(;;); }
void rt___assert_fail(const char*e,const char*f,unsigned l,const char*fn){ (void)e;(void)f;(void)l;(void)fn; dsym_assert(0,"library assertion failed"); dsym_stop(); for(;;); }

#ifndef DSYM_NATIVE
// ------------------------------------------------------------------ libc (symbolic mode only)
static int g_errno; int* rt___errno_location(void){ return &g_errno; }
int rt_isdigit(int c){ return (unsigned)(c-'0')<10u; } int rt_isupper(int c){ return (unsigned)(c-'A')<26u; } int rt_islower(int c){ return (unsigned)(c-'a')<26u; }
int rt_isalpha(int c){ return (unsigned)((c|32)-'a')<26u; } int rt_isalnum(int c){ return ((unsigned)((c|32)-'a')<26u)|((unsigned)(c-'0')<10u); } int rt_isspace(int c){ return (c==' ')|((unsigned)(c-9)<5u); }
int rt_isprint(int c){ return (unsigned)(c-32)<95u; } int rt_ispunct(int c){ return rt_isprint(c)&!rt_isalnum(c)&(c!=' '); } int rt_iscntrl(int c){ return ((unsigned)c<32u)|(c==127); } int rt_isxdigit(int c){ return rt_isdigit(c)|((unsigned)((c|32)-'a')<6u); }
int rt_toupper(int c){ return (unsigned)(c-'a')<26u?c-32:c; } int rt_tolower(int c){ return (unsigned)(c-'A')<26u?c+32:c; }
int rt_abs(int c){ return c<0?-c:c; } long rt_labs(long c){ return c<0?-c:c; } long long rt_llabs(long long c){ return c<0?-c:c; }
size_t rt_strlen(const char*s){ return dsym_strlen(s); }
size_t rt_strnlen(const char*s,size_t n){ size_t i=0; while(i<n&&s[i]) i++; return i; }
char* rt_strcpy(char*d,const char*s){ size_t n=dsym_strlen(s); memcpy(d,s,n+1); return d; }
char* rt_strcat(char*d,const char*s){ rt_strcpy(d+dsym_strlen(d),s); return d; }
char* rt_strncpy(char*d,const char*s,size_t n){ size_t i=0; for(;i<n&&s[i];i++) d[i]=s[i]; for(;i<n;i++) d[i]=0; return d; }
char* rt_strncat(char*d,const char*s,size_t n){ size_t k=dsym_strlen(d),i=0; for(;i<n&&s[i];i++) d[k+i]=s[i]; d[k+i]=0; return d; }
char* rt_strdup(const char*s){ size_t n=dsym_strlen(s)+1; char*p=malloc(n); memcpy(p,s,n); return p; }
int rt_strcmp(const char*a,const char*b){ for(;;a++,b++){ unsigned char x=*a,y=*b; if(x!=y) return (int)x-(int)y; if(!x) return 0; } }
int rt_strncmp(const char*a,const char*b,size_t n){ for(;n;n--,a++,b++){ unsigned char x=*a,y=*b; if(x!=y) return (int)x-(int)y; if(!x) return 0; } return 0; }
int rt_strcasecmp(const char*a,const char*b){ for(;;a++,b++){ int x=rt_tolower((unsigned char)*a),y=rt_tolower((unsigned char)*b); if(x!=y) return x-y; if(!x) return 0; } }
int rt_strncasecmp(const char*a,const char*b,size_t n){ for(;n;n--,a++,b++){ int x=rt_tolower((unsigned char)*a),y=rt_tolower((unsigned char)*b); if(x!=y) return x-y; if(!x) return 0; } return 0; }
int rt_memcmp(const void*a,const void*b,size_t n){ const unsigned char*p=a,*q=b; for(size_t i=0;i<n;i++) if(p[i]!=q[i]) return (int)p[i]-(int)q[i]; return 0; }
char* rt_strchr(const char*s,int c){ for(;;s++){ if(*s==(char)c) return (char*)s; if(!*s) return 0; } }
char* rt_strrchr(const char*s,int c){ const char*r=0; for(;;s++){ if(*s==(char)c) r=s; if(!*s) return (char*)r; } }
void* rt_memchr(const void*s,int c,size_t n){ const unsigned char*p=s; for(size_t i=0;i<n;i++) if(p[i]==(unsigned char)c) return (void*)(p+i); return 0; }
size_t rt_strspn(const char*s,const char*a){ size_t i=0; for(;s[i];i++) if(!rt_strchr(a,s[i])) break; return i; }
size_t rt_strcspn(const char*s,const char*a){ size_t i=0; for(;s[i];i++) if(rt_strchr(a,s[i])) break; return i; }
char* rt_strstr(const char*h,const char*n){ size_t k=dsym_strlen(n); for(;;h++){ if(rt_strncmp(h,n,k)==0) return (char*)h; if(!*h) return 0; } }
char* rt_strtok_r(char*s,const char*d,char**sv){ if(!s) s=*sv; s+=rt_strspn(s,d); if(!*s){ *sv=s; return 0; } char*e=s+rt_strcspn(s,d); if(*e){ *e=0; *sv=e+1; } else *sv=e; return s; }
char* rt_strtok(char*s,const char*d){ static char*sv; return rt_strtok_r(s,d,&sv); }
long rt_strtol(const char*s,char**end,int base){ const char*p=s; while(rt_isspace((unsigned char)*p)) p++; int neg=0; if(*p=='-'){ neg=1; p++; } else if(*p=='+') p++; if(base==0) base=10; long v=0; int any=0; while(1){ int c=(unsigned char)*p; if(!rt_isdigit(c)) break; v=v*base+(c-'0'); p++; any=1; } if(end) *end=(char*)(any?p:s); return neg?-v:v; }
int rt_atoi(const char*s){ return (int)rt_strtol(s,0,10); } long rt_atol(const char*s){ return rt_strtol(s,0,10); } long long rt_atoll(const char*s){ return rt_strtol(s,0,10); }
double rt_strtod(const char*s,char**end){ int u; double d=dsym_strtod(s,&u); if(end) *end=(char*)s+u; return d; } double rt_atof(const char*s){ return rt_strtod(s,0); }
int rt___xpg_strerror_r(int e,char*b,size_t n){ (void)e; if(n>4) memcpy(b,"err",4); return 0; } char* rt_strerror(int e){ (void)e; return "err"; }
void rt_qsort(void*b,size_t n,size_t s,int(*cmp)(const void*,const void*)){ char*p=b; char t[256]; for(size_t i=1;i<n;i++) for(size_t j=i;j>0&&cmp(p+(j-1)*s,p+j*s)>0;j--){ memcpy(t,p+(j-1)*s,s); memcpy(p+(j-1)*s,p+j*s,s); memcpy(p+j*s,t,s); } }
int rt_vsnprintf(char*out,size_t cap,const char*f,va_list ap){ size_t o=0;
  #define PUT(ch) do{ char _c=(ch); if(o+1<cap) out[o]=_c; o++; }while(0)
  for(;*f;f++){ if(*f!='%'){ PUT(*f); continue; } f++; if(*f=='%'){ PUT('%'); continue; }
    int left=0,zero=0,plus=0,space=0,alt=0; for(;;f++){ if(*f=='-') left=1; else if(*f=='0') zero=1; else if(*f=='+') plus=1; else if(*f==' ') space=1; else if(*f=='#') alt=1; else break; } (void)alt;
    int w=0,pr=-1; if(*f=='*'){ w=va_arg(ap,int); if(w<0){ left=1; w=-w; } f++; } else while(*f>='0'&&*f<='9') w=w*10+(*f++-'0'); if(*f=='.'){ f++; pr=0; if(*f=='*'){ pr=va_arg(ap,int); f++; } else while(*f>='0'&&*f<='9') pr=pr*10+(*f++-'0'); }
    int lg=0; while(*f=='l'||*f=='h'||*f=='z'||*f=='I'||*f=='j'||*f=='t'){ if(*f=='l'||*f=='z'||*f=='j'||*f=='t') lg=1; if(*f=='h') lg=-1; f++; }
    char b[400]; int n=0; char*s=b; char sign=0; int isnum=0;
    switch(*f){
      case 'd': case 'i': { long v=lg==1?va_arg(ap,long):va_arg(ap,int); unsigned long u=v; if(v<0){ sign='-'; u=-u; } else if(plus) sign='+'; else if(space) sign=' '; char t[24]; int k=0; do{ t[k++]='0'+u%10; u/=10; }while(u); while(k<pr) t[k++]='0'; while(k) b[n++]=t[--k]; isnum=1; if(pr>=0) zero=0; break; }
      case 'u': case 'x': case 'X': case 'o': { unsigned long u=lg==1?va_arg(ap,unsigned long):va_arg(ap,unsigned); unsigned bs=*f=='u'?10:*f=='o'?8:16; char t[24]; int k=0; do{ int d=u%bs; t[k++]=d<10?'0'+d:(*f=='X'?'A':'a')+d-10; u/=bs; }while(u); while(k<pr) t[k++]='0'; while(k) b[n++]=t[--k]; isnum=1; if(pr>=0) zero=0; break; }
      case 'p': { (void)va_arg(ap,void*); b[0]='p'; n=1; break; }
      case 'c': b[0]=(char)va_arg(ap,int); n=1; break;
      case 's': s=va_arg(ap,char*); if(!s) s="(null)"; n=pr>=0?(int)rt_strnlen(s,pr):(int)dsym_strlen(s); break;
      case 'f': case 'F': case 'e': case 'E': case 'g': case 'G': { double v=va_arg(ap,double); char sp[16]; int k=0; sp[k++]='%'; if(plus) sp[k++]='+'; if(pr>=0){ sp[k++]='.'; if(pr>=10) sp[k++]='0'+pr/10; sp[k++]='0'+pr%10; } sp[k++]=*f; sp[k]=0; dsym_fmtd(b,sizeof b,sp,v); n=dsym_strlen(b); if(zero&&!left&&(b[0]=='-'||b[0]=='+')){ sign=b[0]; s=b+1; n--; } isnum=1; break; }
      default: b[0]='?'; n=1; }
    int tot=n+(sign?1:0); if(!left&&!(zero&&isnum)) for(int i=tot;i<w;i++) PUT(' '); if(sign) PUT(sign); if(!left&&zero&&isnum) for(int i=tot;i<w;i++) PUT('0'); for(int i=0;i<n;i++) PUT(s[i]); if(left) for(int i=tot;i<w;i++) PUT(' ');
  }
  if(cap) out[o<cap?o:cap-1]=0; return (int)o; }
int rt_snprintf(char*o,size_t n,const char*f,...){ va_list ap; va_start(ap,f); int r=rt_vsnprintf(o,n,f,ap); va_end(ap); return r; }
int rt_sprintf(char*o,const char*f,...){ va_list ap; va_start(ap,f); int r=rt_vsnprintf(o,1u<<30,f,ap); va_end(ap); return r; }
int rt_vsprintf(char*o,const char*f,va_list ap){ return rt_vsnprintf(o,1u<<30,f,ap); }
time_t rt_time(time_t*t){ rt_clock_ms+=7; time_t r=rt_clock_ms/1000; if(t) *t=r; return r; }
#else
// ------------------------------------------------------------------ native replay
#include <sys/syscall.h>
static char*g_in; static long g_inlen,g_inpos;
static FILE*g_o; static int g_fail;
static long rawread(const char*fn,char**out){ int fd=syscall(SYS_open,fn,O_RDONLY); if(fd<0) return -1; long cap=1<<20,n=0; char*b=(char*)__builtin_malloc(cap); long r; while((r=syscall(SYS_read,fd,b+n,cap-n-1))>0){ n+=r; if(cap-n<4096){ cap*=2; b=realloc(b,cap);} } b[n]=0; syscall(SYS_close,fd); *out=b; return n; }
static void say(const char*k,const char*l){ char b[300]; int n=snprintf(b,300,"%s %s\n",k,l); syscall(SYS_write,1,b,n); }
void dsym_replay_load(const char*f){ g_inlen=rawread(f,&g_in); if(g_inlen<0){ say("ERROR","cannot read input"); syscall(SYS_exit_group,3);} }
static int hexd(int c){ return c<='9'?c-'0':c-'a'+10; }
void dsym_sym(void*p,size_t n,const char*name){ if(g_inpos>=g_inlen){ say("NOTE","inputs exhausted"); memset(p,0,n); return; } long e=g_inpos; while(e<g_inlen&&g_in[e]!='\n') e++; long s=e; while(s>g_inpos&&g_in[s]!=' ') s--; s++; if((e-s)!=(long)(2*n)||strncmp(name,g_in+g_inpos,strlen(name))){ say("ERROR replay input mismatch at",name); syscall(SYS_exit_group,3);} for(size_t i=0;i<n;i++) ((unsigned char*)p)[i]=hexd(g_in[s+2*i])*16+hexd(g_in[s+2*i+1]); g_inpos=e+1; }
void dsym_assume(int c){ if(!c){ say("ASSUME","failed"); syscall(SYS_exit_group,g_fail?1:4);} }
void dsym_assert(int c,const char*l){ if(!c){ say("VIOLATED",l); g_fail=1; syscall(SYS_exit_group,1);} }
void dsym_cover(const char*l){ say("COVER",l); }
void dsym_stop(void){ syscall(SYS_exit_group,g_fail); __builtin_unreachable(); }
long dsym_concretize(long v){ return v; } int dsym_is_symbolic(const void*p,size_t n){ (void)p;(void)n; return 0; }
int dsym_memeq(const void*a,const void*b,size_t n){ return memcmp(a,b,n)==0; } long dsym_ite(int c,long a,long b){ return c?a:b; }
void dsym_print(const char*l,long v){ char b[200]; snprintf(b,200,"%s = %lx",l,v); say("PRINT",b); }
void dsym_out(const char*l,const void*p,size_t n){ char*b=__builtin_malloc(2*n+strlen(l)+8); long k=sprintf(b,"OUT %s ",l); for(size_t i=0;i<n;i++) k+=sprintf(b+k,"%02x",((const unsigned char*)p)[i]); b[k++]=10; syscall(SYS_write,1,b,k); }
size_t dsym_strlen(const char*s){ return strlen(s); }
void* rt_malloc(size_t n){ void*p=malloc(n); if(p) memset(p,0xBE,n); return p; }
void H_ENTRY(void);
int main(int c,char**v){ if(c>1) dsym_replay_load(v[1]); H_ENTRY(); syscall(SYS_exit_group,g_fail); }
#endif
