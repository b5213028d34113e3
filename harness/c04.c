/* c04.c : registers probe functions in the time bins of a real run and logs every call.
   usage: c04 SPEC LOG sgrid-args...      SPEC lines:
     fun BIN ID            register probe ID in BIN before the run
     add ID BIN ID2        the first execution of probe ID registers probe ID2 in BIN
     set ID IT PAR VAL     probe ID sets PAR=VAL when the grid is at iteration IT
     par NAME              log the value of this parameter with every event */
#include "sgrid.h"
#include "vh.h"
#define NP 64
static FILE *L; static int nrun[NP];
static struct { int id,bin,id2,done; } A[256]; static int nA;
static struct { int id,it; char par[100],val[200]; } S[256]; static int nS;
static char PN[16][100]; static int nPN;
static void mark(int id);
static int hit(int id,tGrid *g);
#define F(n) static int f##n(tGrid *g){ return hit(0##n,g); }
#define F8(a) F(a##0) F(a##1) F(a##2) F(a##3) F(a##4) F(a##5) F(a##6) F(a##7)
F(0) F(1) F(2) F(3) F(4) F(5) F(6) F(7) F8(1) F8(2) F8(3) F8(4) F8(5) F8(6) F8(7)
#define G8(a) f##a##0,f##a##1,f##a##2,f##a##3,f##a##4,f##a##5,f##a##6,f##a##7
static int (*T[NP])(tGrid*)={ f0,f1,f2,f3,f4,f5,f6,f7,G8(1),G8(2),G8(3),G8(4),G8(5),G8(6),G8(7) };
static int hit(int id,tGrid *g)
{
  int i; char nm[40];
  fprintf(L,"E %d %d",id,g!=NULL);
  if(g) fprintf(L," %d %a %d %d",g->iteration,g->time,g->nboxes,g->box[0]->n1); else fprintf(L," - - - -");
  fprintf(L," |%s",GetsLax("outdir")?Gets("outdir"):"?");
  for(i=0;i<nPN;i++) fprintf(L,"|%s",GetsLax(PN[i])?Gets(PN[i]):"?");
  fprintf(L,"|\n"); fflush(L);
  for(i=0;i<nS;i++) if(S[i].id==id&&g&&g->iteration==S[i].it) Sets(S[i].par,S[i].val);
  if(GetsLax("outdir")){ char p[5000]; FILE *m; snprintf(p,4999,"%s/probe_marks",Gets("outdir")); m=fopen(p,"a"); if(m){ fprintf(m,"%d\n",id); fclose(m);} }
  for(i=0;i<nA;i++) if(A[i].id==id&&!A[i].done){ A[i].done=1; sprintf(nm,"probe%d",A[i].id2); AddFun(A[i].bin,T[A[i].id2],nm); }
  return 0;
}
int main(int argc,char **argv)
{
  char line[2000],nm[40]; FILE *f=fopen(argv[1],"r"); int a,b,c; 
  L=fopen(argv[2],"w");
  if(!f||!L) return 77;
  while(fgets(line,1999,f))
  { if(sscanf(line,"fun %d %d",&a,&b)==2){ sprintf(nm,"probe%d",b); AddFun(a,T[b],nm); }
    else if(sscanf(line,"add %d %d %d",&a,&b,&c)==3){ A[nA].id=a;A[nA].bin=b;A[nA].id2=c;nA++; }
    else if(sscanf(line,"set %d %d %99s %199s",&a,&b,S[nS].par,S[nS].val)==4){ S[nS].id=a;S[nS].it=b;nS++; }
    else if(sscanf(line,"par %99s",PN[nPN])==1) nPN++; }
  fclose(f);
  { char **av=(char**)calloc(argc,sizeof(char*)); int i; av[0]="sgrid"; for(i=3;i<argc;i++) av[i-2]=argv[i]; a=libsgrid_main(argc-2,av); free(av); }
  fprintf(L,"R %d\n",a); fclose(L);
  return a;
}
