/* vh.h : event reporting, random numbers and helpers for all harnesses */
#ifndef VH_H
#define VH_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <stdint.h>
#include <stdarg.h>
#include <unistd.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <fcntl.h>

static FILE *vh_f;
static uint64_t vh_s;
static int vh_thorough_;
static long vh_ncases, vh_nfail;
typedef struct { char n[48]; long v; } vh_cnt_t;
static vh_cnt_t vh_cnts[64]; static int vh_ncnt;
static uint64_t *vh_set; static size_t vh_setn, vh_setcap;
static char vh_where[512];

static inline uint64_t vh_mix(uint64_t z){ z^=z>>30; z*=0xbf58476d1ce4e5b9ULL; z^=z>>27; z*=0x94d049bb133111ebULL; return z^(z>>31);}
static inline uint64_t vh_rand(void){ vh_s+=0x9e3779b97f4a7c15ULL; return vh_mix(vh_s);}
static inline int vh_int(int a,int b){ return a+(int)(vh_rand()%(uint64_t)(b-a+1)); } /* a..b */
static inline double vh_u(void){ return (double)(vh_rand()>>11)/9007199254740992.0; }
static inline double vh_range(double a,double b){ return a+(b-a)*vh_u(); }
static inline int vh_thorough(void){ return vh_thorough_; }
static inline int vh_n(int quick,int thorough){ return vh_thorough_? thorough: quick; }

static void vh_open(void)
{
  char *e=getenv("VH_OUT"); 
  vh_f = e? fopen(e,"a"): stderr;
  if(!vh_f) vh_f=stderr;
  setvbuf(vh_f,NULL,_IOLBF,0);
}
static void vh_reseed(uint64_t stream)
{ char *e=getenv("VH_SEED"); vh_s=vh_mix((e?strtoull(e,0,10):1)*1000003ULL+stream*7919ULL+17); }
static void vh_init(uint64_t stream)
{
  char *e;
  vh_open(); vh_reseed(stream);
  e=getenv("VH_TIER"); vh_thorough_ = (e && !strcmp(e,"thorough"));
}
static void vh_at(const char *fmt,...)
{ va_list ap; va_start(ap,fmt); vsnprintf(vh_where,sizeof vh_where,fmt,ap); va_end(ap);
  fprintf(vh_f,"VAT %s\n",vh_where); }
/* failures: key must be stable (no numbers from data), detail free text */
static void vh_fail(const char *key,const char *fmt,...)
{ va_list ap; char b[1500]; int i; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
  for(i=0;b[i];i++) if(b[i]=='\n') b[i]='~';
  vh_nfail++;
  if(vh_nfail<2000) fprintf(vh_f,"VFAIL %s | %s @ %s\n",key,b,vh_where); }
static void vh_count(const char *n,long v)
{ int i; for(i=0;i<vh_ncnt;i++) if(!strcmp(vh_cnts[i].n,n)) { vh_cnts[i].v+=v; return; }
  if(vh_ncnt<64){ strncpy(vh_cnts[vh_ncnt].n,n,47); vh_cnts[vh_ncnt++].v=v; } }
static void vh_sample(const char *fmt,...)
{ static int n=0; va_list ap; char b[600]; if(n++>=3) return; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
  fprintf(vh_f,"VSAMPLE %s\n",b); }
static int vh_setadd(uint64_t h)
{ size_t i; if(h==0) h=1;
  if(2*(vh_setn+1)>vh_setcap){ size_t oc=vh_setcap,k; uint64_t *o=vh_set; vh_setcap=oc?2*oc:1024; vh_set=calloc(vh_setcap,8);
    for(k=0;k<oc;k++) if(o[k]){ i=o[k]&(vh_setcap-1); while(vh_set[i]) i=(i+1)&(vh_setcap-1); vh_set[i]=o[k]; } free(o);}
  i=h&(vh_setcap-1); while(vh_set[i]){ if(vh_set[i]==h) return 0; i=(i+1)&(vh_setcap-1);} vh_set[i]=h; vh_setn++; return 1; }
/* one evaluated case; desc identifies it; nontrivial cases are counted if distinct */
static void vh_case(int nontrivial,const char *fmt,...)
{ va_list ap; char b[600]; uint64_t h=1469598103934665603ULL; int i; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
  vh_ncases++; if(nontrivial){ for(i=0;b[i];i++){ h^=(unsigned char)b[i]; h*=1099511628211ULL; } vh_setadd(vh_mix(h)); }
  if(vh_ncases%97==1) vh_sample("%s",b); }
static void vh_end(void)
{ int i; fprintf(vh_f,"VCASES %ld %ld\n",vh_ncases,(long)vh_setn);
  for(i=0;i<vh_ncnt;i++) fprintf(vh_f,"VCNT %s %ld\n",vh_cnts[i].n,vh_cnts[i].v);
  fprintf(vh_f,"VEND\n"); fflush(vh_f); }
static void vh_silence(void) /* send the library's chatter away */
{ if(!getenv("VH_VERBOSE")) { int fd=open("/dev/null",O_WRONLY); fflush(stdout); dup2(fd,1); close(fd);} }
#define VEXPECT(cond,key,...) do{ if(!(cond)) vh_fail(key,__VA_ARGS__); }while(0)
/* run f(arg) in a child: returns wait status; child's cases are not counted */
static int vh_fork(void (*f)(void*),void *arg)
{ int st; pid_t p; fflush(NULL); p=fork(); if(p==0){ f(arg); fflush(NULL); _exit(0);} waitpid(p,&st,0); return st; }
static inline double vh_absd(double x){return fabs(x);}
#endif
