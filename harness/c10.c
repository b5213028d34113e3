/* c10.c: binary input/output against an independent byte encoder */
#include "sgrid.h"
#include "vh.h"
#include <errno.h>
#include <signal.h>
#include <pthread.h>
size_t SGRID_fwrite_swapbytes(const void *ptr, size_t size, size_t nmemb, FILE *fp);
size_t SGRID_fread_swapbytes(void *ptr, size_t size, size_t nmemb, FILE *fp);
static uint64_t pattern(void) /* interesting 64 bit patterns */
{ static const uint64_t s[]={0,1,0x8000000000000000ULL,0x7ff0000000000000ULL,0xfff0000000000000ULL,0x7ff8000000000000ULL,0xfff8000000000000ULL,0x7ff0000000000001ULL,0x7ff4dead0000beefULL,0xffffffffffffffffULL,0x000fffffffffffffULL,0x0010000000000000ULL,0x7fefffffffffffffULL,0x3ff0000000000000ULL,0x0a0d0a0d0a0d0a0dULL,0x1a001a0000ff00ffULL,0x0102030405060708ULL};
  uint64_t r=vh_rand(); switch(vh_int(0,5)){ case 0: return s[r%(sizeof s/8)]; case 1: return r&0x000fffffffffffffULL; case 2: return (r&0x800fffffffffffffULL)|0x7ff0000000000000ULL; case 3: { double d=vh_range(-1e3,1e3); uint64_t u; memcpy(&u,&d,8); return u; } default: return r; } }
/* element size s, value v: the bytes in the given order, written without looking at the machine's order */
static void enc(unsigned char *o,uint64_t v,int s,int big){ int i; for(i=0;i<s;i++) o[i]=(unsigned char)(v>>(8*(big? s-1-i: i))); }
static uint64_t load(const void *p,int s){ if(s==1) return *(uint8_t*)p; if(s==2){ uint16_t x; memcpy(&x,p,2); return x; } if(s==4){ uint32_t x; memcpy(&x,p,4); return x; } { uint64_t x; memcpy(&x,p,8); return x; } }
static void store(void *p,uint64_t v,int s){ if(s==1) *(uint8_t*)p=v; else if(s==2){ uint16_t x=v; memcpy(p,&x,2); } else if(s==4){ uint32_t x=v; memcpy(p,&x,4); } else memcpy(p,&v,8); }
static size_t W(int f,const void *p,int s,size_t n,FILE *fp){ switch(f){ case 0: return SGRID_fwrite_little(p,s,n,fp); case 1: return SGRID_fwrite_big(p,s,n,fp); case 2: return fwrite_double_little(p,n,fp); default: return SGRID_fwrite_swapbytes(p,s,n,fp); } }
static size_t R(int f,void *p,int s,size_t n,FILE *fp){ switch(f){ case 0: return SGRID_fread_little(p,s,n,fp); case 1: return SGRID_fread_big(p,s,n,fp); case 2: return fread_double_little(p,n,fp); default: return SGRID_fread_swapbytes(p,s,n,fp); } }
static const char *nm[]={"little","big","double","swap"};
static int isbig(int f){ return f==1||f==3; } /* swapped on a little endian machine */
static void *feeder(void *a){ void **v=a; int fd=(int)(intptr_t)v[0]; unsigned char *p=v[1]; size_t n=(size_t)v[2],k=0; unsigned r=(unsigned)(uintptr_t)v[3];
  while(k<n){ size_t q=1+(r=r*1103515245u+12345u)%37; ssize_t w; if(q>n-k) q=n-k; w=write(fd,p+k,q); if(w<=0) break; k+=w; if((r>>9)%5==0) usleep(r%50); } close(fd); return 0; }
static void one(int k)
{ int f=vh_int(0,3),sz[]={1,2,4,8},s= f==2? 8: sz[vh_int(0,3)],i; size_t n= vh_int(0,9)==0? 0: vh_int(0,3)==0? vh_int(1,3): vh_int(0,9)==0? vh_int(5000,20000): vh_int(1,600);
  size_t pad=vh_int(0,40),nb=n*s; unsigned char *in=malloc(nb+1),*ref=malloc(nb+1),*got=malloc(nb+pad+100),*out; char fn[64]; FILE *fp; size_t r; long pos;
  sprintf(fn,"f%d.bin",k%4); vh_at("%s size %d n %zu",nm[f],s,n);
  for(i=0;i<(long)n;i++){ uint64_t v=pattern(); store(in+i*s,v,s); enc(ref+i*s,v,s,isbig(f)); }
  fp=fopen(fn,"wb"); for(i=0;i<(long)pad;i++) fputc(i*7,fp);
  { unsigned char *cp=malloc(nb+1); memcpy(cp,in,nb); r=W(f,in,s,n,fp); if(memcmp(cp,in,nb)) vh_fail("writing changed the array","%s",nm[f]); free(cp); }
  VEXPECT(r==n,"count of written elements","%s: %zu of %zu",nm[f],r,n); 
  fputs("tail!",fp); fclose(fp);
  fp=fopen(fn,"rb"); r=fread(got,1,nb+pad+99,fp); fclose(fp);
  VEXPECT(r==nb+pad+5,"bytes in the file","%zu instead of %zu",r,nb+pad+5);
  if(r==nb+pad+5){ for(i=0;i<(long)pad;i++) if(got[i]!=(unsigned char)(i*7)) { vh_fail("bytes before the data changed","%d",i); break; } VEXPECT(!memcmp(got+pad,ref,nb),"byte order in the file","%s size %d",nm[f],s); VEXPECT(!memcmp(got+pad+nb,"tail!",5),"bytes behind the data changed","%s",nm[f]); }
  /* read back: whole, short file, more requested than there */
  { int mode=vh_int(0,3); size_t have=nb,want=n,full,m; unsigned char guard=0xA5;
    if(mode==1&&nb) have=vh_rand()%(nb+1); if(mode==2) want=n+vh_int(1,20); if(mode==3&&n) want=vh_rand()%(n+1);
    fp=fopen(fn,"wb"); fwrite(ref,1,have,fp); fclose(fp);
    out=malloc(want*s+16); memset(out,guard,want*s+16);
    if(vh_int(0,3)==0){ int pf[2]; pthread_t th; void *a[4]; if(pipe(pf)) exit(3); a[0]=(void*)(intptr_t)pf[1]; a[1]=ref; a[2]=(void*)have; a[3]=(void*)(uintptr_t)vh_rand(); pthread_create(&th,0,feeder,a); fp=fdopen(pf[0],"rb"); r=R(f,out,s,want,fp); { char junk[4096]; while(fread(junk,1,4096,fp)>0); } fclose(fp); pthread_join(th,0); vh_count("reads from a pipe in pieces",1); pos=-1; }
    else { fp=fopen(fn,"rb"); r=R(f,out,s,want,fp); pos=ftell(fp); fclose(fp); }
    m=have/s; full= m<want? m: want;
    VEXPECT(r==full,"count of read elements","%s: %zu instead of %zu (have %zu bytes, want %zu of size %d)",nm[f],r,full,have,want,s);
    if(full==want&&pos>=0) VEXPECT(pos==(long)(want*s),"file position","%s: %ld instead of %zu",nm[f],pos,want*s);
    VEXPECT(!memcmp(out,in,full*s),"values read back","%s size %d n %zu",nm[f],s,full);
    /* elements that are not there are undisturbed; the C library may leave bytes of one incomplete element in native order */
    { size_t from=full*s, part=(have<want*s)? have: want*s; if(!isbig(f)&&part>from&&part<from+s) from+=s; 
      for(i=from;i<(long)(want*s+16);i++) if(out[i]!=guard){ vh_fail("element that is not in the file was changed","%s size %d byte %d, have %zu want %zu",nm[f],s,i,have,want*s); break; } }
    if(have<nb) vh_count("short files",1); if(want>n) vh_count("more requested than there",1);
    free(out); }
  /* incomplete writes: a device that is full, a file size limit */
  if(nb>0&&vh_int(0,5)==0){ static char iob[1<<20]; fp=fopen("/dev/full","wb"); if(fp){ setvbuf(fp,iob,_IONBF,0); r=W(f,in,s,n,fp); VEXPECT(r==0,"count when the device is full","%s: %zu of %zu",nm[f],r,n); fclose(fp); vh_count("writes to a full device",1); } }
  if(nb>64&&vh_int(0,3)==0){ size_t cap=vh_rand()%(nb+1); unsigned char *mem=calloc(1,cap+1); fp=fmemopen(mem,cap+1,"wb"); if(fp){ setvbuf(fp,0,_IONBF,0); r=W(f,in,s,n,fp); 
      VEXPECT(r<=n&&r*s<=cap+1,"count of incomplete write","%s: %zu elements in %zu bytes",nm[f],r,cap); VEXPECT(!memcmp(mem,ref,r*s<cap?r*s:cap),"incomplete write","%s",nm[f]); 
      if(r<n) { VEXPECT((r+1)*s+1>cap,"count of incomplete write too small","%s: %zu of size %d in %zu bytes",nm[f],r,s,cap); vh_count("incomplete writes",1); } fclose(fp); } free(mem); }
  vh_case(n>0,"%s size %d n %zu pad %zu first %llx",nm[f],s,n,pad,n?(unsigned long long)load(in,s):0ULL); vh_count("elements written and read",n);
  free(in); free(ref); free(got); }
int main(int argc,char **argv)
{ int k,n; vh_init(100+atoi(argv[1])); signal(SIGPIPE,SIG_IGN); n=vh_n(1500,60000);
  if(SGRID_return_BYTE_ORDER_LITTLE()!=1) vh_fail("byte order of this machine","%d",SGRID_return_BYTE_ORDER_LITTLE());
  for(k=0;k<n;k++) one(k); vh_end(); return 0; }
