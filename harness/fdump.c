/* fdump.c: the real program; at the end of the run a log gets a hash of every evolved variable, and the parameters.  usage: fdump LOG args */
#include "sgrid.h"
#include "vh.h"
static FILE *L;
#define H0 1469598103934665603ULL
static uint64_t hash(const void *p,size_t n,uint64_t h){ const unsigned char *c=p; size_t i; for(i=0;i<n;i++){ h^=c[i]; h*=1099511628211ULL; } return h; }
static int fin(tGrid *g)
{ tVarList *u=0; int b,i,k; evolve_vlretrieve(&u,0,0); fprintf(L,"T %d %a %a\n",g->iteration,g->time,g->dt);
  for(b=0;b<g->nboxes;b++) for(i=0;i<g->nvariables;i++){ double *v=g->box[b]->v[i]; int ev=0; char *n=VarName(i); if(!v) continue; if(u) for(k=0;k<u->n;k++) if(u->index[k]==i) ev=1;
      if(!ev){ int l=strlen(n); if(l>2&&n[l-2]=='_'&&strchr("pqrstuvwx",n[l-1])) continue; }
      fprintf(L,"%c %s %d %016llx\n",ev?'F':'G',n,b,(unsigned long long)hash(v,8*g->box[b]->nnodes,H0)); }
  for(i=0;i<GetnParameters();i++) fprintf(L,"P %s=%s\n",GetnameInd(i),GetsInd(i));
  fprintf(L,"E\n"); fflush(L); return 0; }
int main(int argc,char **argv)
{ int r; L=fopen(argv[1],"a"); if(!L) return 77; AddFun(PRE_FINALIZE_GRID,fin,"dump");
  { char **av=calloc(argc,sizeof(char*)); int i; av[0]="sgrid"; for(i=2;i<argc;i++) av[i-1]=argv[i]; r=libsgrid_main(argc-1,av); free(av); }
  fprintf(L,"R %d\n",r); fclose(L); return r; }
