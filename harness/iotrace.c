/* iotrace.c : runs a command and all its children under ptrace, sees every system call that changes files below a watched directory
   in the order they happen, checks before each of them that a complete checkpoint exists once there was one, and can kill everything
   or make the call fail at a chosen one.
   usage: iotrace LOG WATCHDIR OUTDIR MODE K ARG -- cmd args...
   MODE: watch | kill (before event K) | tear (event K, a write, transfers only ARG percent, then kill) | after (kill right after event K)
         | err (event K fails with errno ARG) | errall (event K and all later writes/opens/renames fail with errno ARG)
   LOG:  E n comm call path..   M problem    X exitstatus   I iterations of complete checkpoints seen */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <stddef.h>
#include <sys/ptrace.h>
#include <sys/wait.h>
#include <sys/user.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <linux/ptrace.h>
#include <limits.h>
static FILE *L; static char *W,*O; static long nev,K=-1; static int arg; static char *mode;
typedef struct { pid_t p; int inj; int die; } T; static T t[256]; static int nt;
static T *get(pid_t p){ int i; for(i=0;i<nt;i++) if(t[i].p==p) return t+i; if(nt==256) exit(97); memset(t+nt,0,sizeof *t); t[nt].p=p; return t+nt++; }
static void drop(pid_t p){ int i; for(i=0;i<nt;i++) if(t[i].p==p){ t[i]=t[--nt]; return; } }
static void killall_(void){ int i; for(i=0;i<nt;i++) kill(t[i].p,SIGKILL); }
static void str(pid_t p,unsigned long a,char *b,size_t n)
{ size_t k=0; while(k+8<n){ errno=0; long w=ptrace(PTRACE_PEEKDATA,p,(void*)(a+k),0); if(errno){ b[k]=0; return; } memcpy(b+k,&w,8); if(memchr(&w,0,8)) return; k+=8; } b[n-1]=0; }
static void abspath(pid_t p,int dfd,const char *s,char *o)
{ char l[64],d[PATH_MAX]; ssize_t n; if(s[0]=='/'){ snprintf(o,PATH_MAX,"%s",s); return; }
  if(dfd==AT_FDCWD) snprintf(l,64,"/proc/%d/cwd",p); else snprintf(l,64,"/proc/%d/fd/%d",p,dfd);
  n=readlink(l,d,PATH_MAX-1); if(n<0) n=0; d[n]=0; snprintf(o,2*PATH_MAX,"%s/%s",d,s); }
static void fdpath(pid_t p,int fd,char *o){ char l[64]; ssize_t n; snprintf(l,64,"/proc/%d/fd/%d",p,fd); n=readlink(l,o,PATH_MAX-1); if(n<0) n=0; o[n]=0; }
static int below(const char *s){ size_t n=strlen(W); return !strncmp(s,W,n)&&(s[n]=='/'||s[n]==0); }
/* iteration of the complete checkpoint in file, -1 if there is none */
static int complete(const char *suffix)
{ char f[2*PATH_MAX],b[400],e[20]; FILE *fp; int it=-1; size_t n; char *s; snprintf(f,sizeof f,"%s%s/checkpoint.0",O,suffix); fp=fopen(f,"rb"); if(!fp) return -1;
  n=fread(b,1,399,fp); b[n]=0; if(strncmp(b,"$BEGIN_checkpoint_header:",25)||!(s=strstr(b,"$iteration ="))) { fclose(fp); return -1; }
  it=atoi(s+12); memset(e,0,20); if(fseek(fp,-16,SEEK_END)) it=-1; else { n=fread(e,1,16,fp); if(strcmp(e,"$END_variables\n\n")) it=-1; } fclose(fp); return it; }
static int best=-1,nM; static long nchk;
static void monitor(const char *when)
{ int a=complete(""),b=complete("_previous"),m=a>b?a:b; nchk++;
  if(m<best){ if(nM++<5) fprintf(L,"M complete checkpoint of iteration %d is gone, best left %d %s\n",best,m,when); fflush(L); }
  if(m>best) { best=m; fprintf(L,"I %d\n",m); } }
int main(int argc,char **argv)
{ int i,st,status=0; pid_t c,p; 
  if(argc<9) return 96; L=fopen(argv[1],"w"); W=argv[2]; O=argv[3]; mode=argv[4]; K=atol(argv[5]); arg=atoi(argv[6]);
  monitor("at the start");
  c=fork();
  if(!c){ if(ptrace(PTRACE_TRACEME,0,0,0)) _exit(95); raise(SIGSTOP); execvp(argv[8],argv+8); _exit(94); }
  waitpid(c,&st,0); if(!WIFSTOPPED(st)) { fprintf(L,"Z ptrace\n"); fclose(L); return 95; }
  if(ptrace(PTRACE_SETOPTIONS,c,0,PTRACE_O_TRACESYSGOOD|PTRACE_O_TRACEFORK|PTRACE_O_TRACEVFORK|PTRACE_O_TRACECLONE|PTRACE_O_TRACEEXEC|PTRACE_O_EXITKILL)) { fprintf(L,"Z options\n"); fclose(L); kill(c,9); return 95; }
  get(c); ptrace(PTRACE_SYSCALL,c,0,0);
  while(nt>0)
  { p=waitpid(-1,&st,__WALL); if(p<0) break;
    if(WIFEXITED(st)||WIFSIGNALED(st)){ if(p==c) status= WIFEXITED(st)? WEXITSTATUS(st): 128+WTERMSIG(st); drop(p); continue; }
    if(!WIFSTOPPED(st)) continue;
    { int sig=WSTOPSIG(st); T *q=get(p); 
      if(sig==(SIGTRAP|0x80))
      { struct __ptrace_syscall_info si; memset(&si,0,sizeof si);
        if(ptrace(PTRACE_GET_SYSCALL_INFO,p,(void*)sizeof si,&si)>0)
        { if(si.op==PTRACE_SYSCALL_INFO_ENTRY)
          { char a[2*PATH_MAX]="",b[2*PATH_MAX]="",s[PATH_MAX]; const char *nm=0; long nr=si.entry.nr; unsigned long *x=(unsigned long*)si.entry.args; int iswrite=0; unsigned long len=0;
            switch(nr)
            { case SYS_open: if(x[1]&(O_WRONLY|O_RDWR|O_CREAT|O_TRUNC)){ str(p,x[0],s,PATH_MAX); abspath(p,AT_FDCWD,s,a); nm="open"; } break;
              case SYS_openat: if(x[2]&(O_WRONLY|O_RDWR|O_CREAT|O_TRUNC)){ str(p,x[1],s,PATH_MAX); abspath(p,(int)x[0],s,a); nm="open"; } break;
              case SYS_creat: str(p,x[0],s,PATH_MAX); abspath(p,AT_FDCWD,s,a); nm="open"; break;
              case SYS_write: case SYS_pwrite64: fdpath(p,(int)x[0],a); nm="write"; iswrite=1; len=x[2]; break;
              case SYS_writev: case SYS_pwritev: fdpath(p,(int)x[0],a); nm="writev"; break;
              case SYS_copy_file_range: fdpath(p,(int)x[2],a); nm="copy"; break;
              case SYS_sendfile: fdpath(p,(int)x[0],a); nm="sendfile"; break;
              case SYS_close: { fdpath(p,(int)x[0],a); { char l[64],buf[200]; int f,n,fl=0; snprintf(l,64,"/proc/%d/fdinfo/%d",p,(int)x[0]); f=open(l,O_RDONLY); if(f>=0){ n=read(f,buf,199); buf[n>0?n:0]=0; close(f); { char *z=strstr(buf,"flags:"); if(z) fl=strtol(z+6,0,8); } } if((fl&O_ACCMODE)!=O_RDONLY) nm="close"; } break; }
              case SYS_rename: str(p,x[0],s,PATH_MAX); abspath(p,AT_FDCWD,s,a); str(p,x[1],s,PATH_MAX); abspath(p,AT_FDCWD,s,b); nm="rename"; break;
              case SYS_renameat: case SYS_renameat2: str(p,x[1],s,PATH_MAX); abspath(p,(int)x[0],s,a); str(p,x[3],s,PATH_MAX); abspath(p,(int)x[2],s,b); nm="rename"; break;
              case SYS_link: str(p,x[0],s,PATH_MAX); abspath(p,AT_FDCWD,s,b); str(p,x[1],s,PATH_MAX); abspath(p,AT_FDCWD,s,a); nm="link"; break;
              case SYS_linkat: str(p,x[1],s,PATH_MAX); abspath(p,(int)x[0],s,b); str(p,x[3],s,PATH_MAX); abspath(p,(int)x[2],s,a); nm="link"; break;
              case SYS_unlink: case SYS_rmdir: str(p,x[0],s,PATH_MAX); abspath(p,AT_FDCWD,s,a); nm="unlink"; break;
              case SYS_unlinkat: str(p,x[1],s,PATH_MAX); abspath(p,(int)x[0],s,a); nm="unlink"; break;
              case SYS_mkdir: str(p,x[0],s,PATH_MAX); abspath(p,AT_FDCWD,s,a); nm="mkdir"; break;
              case SYS_mkdirat: str(p,x[1],s,PATH_MAX); abspath(p,(int)x[0],s,a); nm="mkdir"; break;
              case SYS_truncate: str(p,x[0],s,PATH_MAX); abspath(p,AT_FDCWD,s,a); nm="truncate"; break;
              case SYS_ftruncate: case SYS_fallocate: fdpath(p,(int)x[0],a); nm="truncate"; break;
              case SYS_fsync: case SYS_fdatasync: fdpath(p,(int)x[0],a); nm="fsync"; break; }
            if(nm&&(below(a)||below(b)))
            { char cm[64]="",l[64]; int f,n; snprintf(l,64,"/proc/%d/comm",p); f=open(l,O_RDONLY); if(f>=0){ n=read(f,cm,63); if(n>0) cm[n-1]=0; close(f); }
              nev++; monitor("");
              fprintf(L,"E %ld %s %s %s %s\n",nev,cm,nm,a,b);
              { int hit= nev==K, later= nev>K&&strcmp(nm,"close")&&strcmp(nm,"unlink")&&strcmp(nm,"mkdir"); struct user_regs_struct r;
                if(hit&&!strcmp(mode,"kill")) killall_();
                else if(hit&&!strcmp(mode,"after")) q->die=1;
                else if(hit&&!strcmp(mode,"tear")){ if(iswrite&&len>1){ ptrace(PTRACE_GETREGS,p,0,&r); r.rdx=1+(len-1)*arg/100; ptrace(PTRACE_SETREGS,p,0,&r); } q->die=1; }
                else if((hit&&!strcmp(mode,"err"))||((hit||later)&&K>0&&!strcmp(mode,"errall"))){ ptrace(PTRACE_GETREGS,p,0,&r);
                  if(strcmp(nm,"close")) r.orig_rax=-1; /* a failing close still closes */
                  ptrace(PTRACE_SETREGS,p,0,&r); q->inj=arg; fprintf(L,"J %ld\n",nev); } } } }
          else if(si.op==PTRACE_SYSCALL_INFO_EXIT)
          { if(q->inj){ struct user_regs_struct r; ptrace(PTRACE_GETREGS,p,0,&r); r.rax=-q->inj; ptrace(PTRACE_SETREGS,p,0,&r); q->inj=0; }
            if(q->die){ q->die=0; killall_(); } } }
        ptrace(PTRACE_SYSCALL,p,0,0); }
      else if(sig==SIGTRAP&&(st>>16)){ if((st>>16)!=PTRACE_EVENT_EXEC){ unsigned long np; if(!ptrace(PTRACE_GETEVENTMSG,p,0,&np)) get((pid_t)np); } ptrace(PTRACE_SYSCALL,p,0,0); }
      else if(sig==SIGSTOP) ptrace(PTRACE_SYSCALL,p,0,0);
      else ptrace(PTRACE_SYSCALL,p,0,sig); } }
  monitor("at the end");
  fprintf(L,"N %ld %ld\nX %d\n",nev,nchk,status); fclose(L); return 0; }
