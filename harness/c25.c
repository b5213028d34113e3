/* c25.c : plants non-finite values (parameter probe_nan: groups of IT VAR BOX POINT KIND) and logs, independently of the code under
   test, which runs of points of the watched variables are bad:   X checker it var box first last bad-so-far x y z | X Y Z */
#define PROBE_NOMAIN
#include "probe.c"
static int badbits(double v,double lim){ uint64_t u; memcpy(&u,&v,8); if(((u>>52)&0x7ff)==0x7ff) return 1; return lim>0&&(v>lim||v<-lim); }
static void put(double *p,const char *kind)
{ uint64_t u; double v; switch(kind[0]){ case 'n': u=0x7ff8000000000000ULL; break; case 'N': u=0xfff8000000000000ULL; break; case 's': u=0x7ff0000000000001ULL; break; case 'S': u=0xfff7ffffffffffffULL; break;
    case 'i': u=0x7ff0000000000000ULL; break; case 'I': u=0xfff0000000000000ULL; break; case 'm': u=0x7fefffffffffffffULL; break; case 'M': u=0xffefffffffffffffULL; break;
    case 'd': u=1; break; case 'z': u=0x8000000000000000ULL; break; default: v=atof(kind); memcpy(&u,&v,8); } 
  memcpy(p,&u,8); }
static int plant(tGrid *g)
{ char *s=strdup(P("probe_nan","")),*sv0,*w[5]; int n=0,k=0; char *t=strtok_r(s," ",&sv0);
  for(;t;t=strtok_r(0," ",&sv0)){ w[n++]=t; if(n==5){ n=0; if(atoi(w[0])==g->iteration){ int b=atoi(w[2])%g->nboxes,i=IndLax(w[1]),p=atoi(w[3]); tBox *B=g->box[b]; 
        if(i>=0&&B->v[i]){ p= p<0? B->nnodes-1-(-1-p)%B->nnodes: p%B->nnodes; put(B->v[i]+p,w[4]); k++; } } } }
  free(s); if(k) fprintf(L,"N %d\n",g->iteration); return 0; }
static void expected(tGrid *g,const char *tag,const char *par,double lim)
{ char *nm=GetsLax((char*)par); int v,b,i; long tot=0; if(!nm||!strcmp(nm,"no")||(v=IndLax(nm))<0) return;
  forallboxes(g,b){ tBox *B=g->box[b]; double *p=B->v[v]; if(!p) continue; i=0;
    while(i<B->nnodes){ int j; if(!badbits(p[i],lim)){ i++; continue; } for(j=i;j+1<B->nnodes&&badbits(p[j+1],lim);j++); tot+=j-i+1;
#define C(n) (B->v[Ind(n)]?B->v[Ind(n)][i]:0)
      fprintf(L,"X %s %d %s %d %d %d | x=%g y=%g z=%g | X=%g Y=%g Z=%g\n",tag,g->iteration,nm,b,i,j,C("x"),C("y"),C("z"),C("X"),C("Y"),C("Z")); i=j+1; } }
  if(tot) fprintf(L,"Y %s %d %ld\n",tag,g->iteration,tot); fflush(L); }
int NumberChecker_CheckIfFinite_VarList(tVarList *); int NumberChecker_CheckIfFinite(tGrid*,char*);
static long nvl;
static int expect(tGrid *g)
{ double lim=atof(P("NumberChecker_INF","1e300")); 
  if(strstr(P("physics",""),"ADMvars")) expected(g,"A","ADMvars_exitifNAN",0); 
  if(strstr(P("physics",""),"NumberChecker")) expected(g,"B","NumberChecker_exitifNAN",lim); 
  if(atoi(P("probe_vlcheck","0"))){ /* the list function counts all bad points of all listed variables */
    long e=0; int j,b,i,r; fflush(stdout); printf("BEGINVL\n"); r=NumberChecker_CheckIfFinite_VarList(U); printf("ENDVL\n"); for(j=0;j<U->n;j++) forallboxes(g,b) if(g->box[b]->v[U->index[j]]) forallpoints(g->box[b],i) e+=badbits(g->box[b]->v[U->index[j]][i],lim);
    if(r!=e) V("count over list","%d instead of %ld",r,e); nvl++; }
  return 0; }
static int flatmetric(tGrid *g)
{ char *n[]={"gxx","gyy","gzz","alpha","psi",0}; int k,b,i; startup(g);
  { char *t=GetsLax("probe_part"); if(t) forallboxes(g,b) if(b<(int)strlen(t)&&t[b]=='1'){ enablevar_inbox(g->box[b],Ind("probe_part_of_boxes")); forallpoints(g->box[b],i) g->box[b]->v[Ind("probe_part_of_boxes")][i]=b+i; } } if(!strstr(P("physics",""),"ADMvars")) return 0; enablevar(g,Ind("alpha")); enablevar(g,Ind("betax")); enablevar(g,Ind("rho"));
  for(k=0;n[k];k++) if(IndLax(n[k])>=0){ enablevarcomp(g,Ind(n[k])); forallboxes(g,b) forallpoints(g->box[b],i) g->box[b]->v[Ind(n[k])][i]=1; } return 0; }
static int preev(tGrid *g){ fprintf(L,"S %d\n",g->iteration); fflush(L); return 0; }
static int fin(tGrid *g){ fprintf(L,"C lists-counted %ld\n",nvl); return finaldump(g); }
int main(int argc,char **argv)
{ int r; L=fopen(argv[1],"a"); if(!L) return 77; setvbuf(stdout,0,_IOFBF,1<<16);
  AddVar("probe_guard","","guard"); AddVar("probe_u","","u"); AddVar("probe_v","i","v"); AddVar("probe_h","ij+ji","h"); AddVar("probe_acc","","history"); AddVar("probe_part_of_boxes","","only in some boxes");
  AddFun(INITIALDATA,flatmetric,"probe"); AddFun(PRE_EVOLVE,preev,"probe step"); AddFun(POST_EVOLVE,plant,"probe plant"); AddFun(POST_EVOLVE,expect,"probe expect"); AddFun(POST_OUTPUT,dump,"probe dump"); AddFun(PRE_FINALIZE_GRID,fin,"probe final");
  { char **av=calloc(argc,sizeof(char*)); int i; av[0]="sgrid"; for(i=2;i<argc;i++) av[i-1]=argv[i]; r=libsgrid_main(argc-1,av); free(av); }
  if(U) vlfree(U); free(sv); fprintf(L,"R %d\n",r); fclose(L); return r; }
