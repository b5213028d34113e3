/* probe.c : a generic physics module with a coupled, nonlinear, time dependent right hand side, run by the real program.
   usage: probe LOG sgrid-args...      configured by parameters of the run:
   probe_seed, probe_bc (0 none, 1 pointwise, 2 depends on neighbors), probe_nl (size of nonlinear terms), probe_subset
   (evolve only some variables), probe_deriv (0/1), probe_check (0/1: check each step against textbook formulas),
   probe_poke (IT: at this iteration a parameter that the right hand side uses is changed), probe_nan (IT VAR BOX POINT KIND)
   LOG lines: D it time iters-par hash...   F name box hash (final)   V key | detail     C name count */
#include "sgrid.h"
#include "vh.h"
#include <fenv.h>
static FILE *L;
static tVarList *U; static long ncall_rhs,ncall_bc,nsteps,ncmp; static int inbc;
static double A[64],Bm[64][64],Cc[64],Dd[64],W[64]; static int NL; static double nlsize; static int bcmode,deriv;
static int hist; static double *stg_t; static int nstg; static double stage_t[64]; static int stage_bc[64];
static void V(const char *key,const char *fmt,...)
{ static int n; va_list ap; if(n++>50) return; fprintf(L,"V %s | ",key); va_start(ap,fmt); vfprintf(L,fmt,ap); va_end(ap); fprintf(L,"\n"); fflush(L); }
static const char *P(const char *n,const char *def){ char *s=GetsLax((char*)n); return s?s:def; }
static uint64_t hash(const void *p,size_t n,uint64_t h){ const unsigned char *c=p; size_t i; for(i=0;i<n;i++){ h^=c[i]; h*=1099511628211ULL; } return h; }
#define H0 1469598103934665603ULL
/* pointwise right hand side of variable j */
static double F(int j,const double *u,double t,const double *X,double g,double lap)
{ double f=A[j]*g+Dd[j]*sin(W[j]*t+X[0]-0.5*X[1]+X[2]); int k; for(k=0;k<NL;k++) f+=Bm[j][k]*u[k]; 
  f+=nlsize*Cc[j]*u[j]*u[(j+1)%NL]/(1+u[j]*u[j]); return f+0.01*lap; }
static double gpar(void){ return atof(P("probe_g","1")); }
static double Xof(tBox *b,int d,int i){ static const char *n[]={"X","Y","Z"}; double *p=b->v[Ind((char*)n[d])]; return p? p[i]: (double)((i*7+d)%11)/11; }
static void derivof(tBox *b,double *u,double *du){ spec_Deriv1(b,1,u,du); }
/* the condition: first and last point, new[last]=prescribed or neighbor */
static void bcval(double **u,int nn,int j,double *first,double *last)
{ if(bcmode==1){ *first=0.25*j; *last=-0.125*(j+1); } else { *first=0.5*u[j][1]+u[(j+1)%NL][2]; *last=u[j][nn-2]-0.25*u[(j+1)%NL][nn-3]; } }
static void bc(tVarList *unew,tVarList *upre)
{ int b,j; ncall_bc++; if(unew->n!=NL) V("bc-list-length","%d instead of %d",unew->n,NL); if(!upre||upre->n!=NL) V("bc-old-list","missing");
  forallboxes(unew->grid,b){ tBox *box=unew->grid->box[b]; double *u[64],f[64],l[64]; for(j=0;j<NL;j++) u[j]=box->v[unew->index[j]]; 
    for(j=0;j<NL;j++) bcval(u,box->nnodes,j,f+j,l+j); for(j=0;j<NL;j++){ u[j][0]=f[j]; u[j][box->nnodes-1]=l[j]; } } }
static void rhs(tVarList *unew,tVarList *upre,double c,tVarList *ucur)
{ int b,j,i; double t=ucur->time,g=gpar(); ncall_rhs++;
  if(unew->n!=NL||upre->n!=NL||ucur->n!=NL) V("rhs-list-length","%d %d %d instead of %d",unew->n,upre->n,ucur->n,NL);
  if(nstg<64){ int ok=1; if(bcmode) forallboxes(ucur->grid,b){ tBox *box=ucur->grid->box[b]; double *u[64],f,l; for(j=0;j<NL;j++) u[j]=box->v[ucur->index[j]];
      if(bcmode==1) for(j=0;j<NL;j++){ bcval(u,box->nnodes,j,&f,&l); if(u[j][0]!=f||u[j][box->nnodes-1]!=l) ok=0; } }
    stage_bc[nstg]=ok; stage_t[nstg++]=t; }
  forallboxes(unew->grid,b){ tBox *box=unew->grid->box[b]; double *tmp=deriv?calloc(box->nnodes*NL,8):0; double u[64],X[3];
    if(deriv) for(j=0;j<NL;j++) derivof(box,box->v[ucur->index[j]],tmp+j*box->nnodes);
    forallpoints(box,i){ for(j=0;j<NL;j++) u[j]=box->v[ucur->index[j]][i]; for(j=0;j<3;j++) X[j]=Xof(box,j,i);
      for(j=0;j<NL;j++){ double f=F(j,u,t,X,g,deriv?tmp[j*box->nnodes+i]:0); box->v[unew->index[j]][i]= c!=0? box->v[upre->index[j]][i]+c*f: f; } }
    free(tmp); } }
/* ---- textbook integrators on plain arrays, independent of the code under test ---- */
static int NB,off[64]; static long NT; /* flattened state: box, var, point */
static double *sv; 
static void flat(tGrid *g,tVarList *v,double *s){ int b,j; long k=0; for(b=0;b<g->nboxes;b++) for(j=0;j<NL;j++){ memcpy(s+k,g->box[b]->v[v->index[j]],8*g->box[b]->nnodes); k+=g->box[b]->nnodes; } }
static long ntot(tGrid *g){ long k=0; int b; for(b=0;b<g->nboxes;b++) k+=(long)NL*g->box[b]->nnodes; return k; }
static void frhs(tGrid *g,const double *s,double t,double *r)
{ long k=0; int b,j,i; double gg=gpar(); for(b=0;b<g->nboxes;b++){ tBox *box=g->box[b]; int nn=box->nnodes; double u[64],X[3],*tmp=deriv?calloc(nn*NL,8):0;
    if(deriv) for(j=0;j<NL;j++) derivof(box,(double*)s+k+j*nn,tmp+j*nn);
    for(i=0;i<nn;i++){ for(j=0;j<NL;j++) u[j]=s[k+j*nn+i]; for(j=0;j<3;j++) X[j]=Xof(box,j,i); for(j=0;j<NL;j++) r[k+j*nn+i]=F(j,u,t,X,gg,deriv?tmp[j*nn+i]:0); }
    free(tmp); k+=(long)NL*nn; } }
static void fbc(tGrid *g,double *s)
{ long k=0; int b,j; if(!bcmode) return; for(b=0;b<g->nboxes;b++){ int nn=g->box[b]->nnodes; double *u[64],f[64],l[64]; for(j=0;j<NL;j++) u[j]=s+k+j*nn;
    for(j=0;j<NL;j++) bcval(u,nn,j,f+j,l+j); for(j=0;j<NL;j++){ u[j][0]=f[j]; u[j][nn-1]=l[j]; } k+=(long)NL*nn; } }
typedef struct { const char *name; int s; double a[7][7],b[7]; int order; } tab;
static tab T[]={ 
 {"euler",1,{{0}},{1},1},{"rk1",1,{{0}},{1},1},
 {"rk2",2,{{0},{1}},{.5,.5},2},{"midpoint",2,{{0},{.5}},{0,1},2},{"rk2a",2,{{0},{.5}},{0,1},2},
 {"rk3",3,{{0},{.5},{-1,2}},{1/6.,4/6.,1/6.},3},{"rk3a",3,{{0},{1/3.},{0,2/3.}},{1/4.,0,3/4.},3},{"rk3b",3,{{0},{.5},{0,.75}},{2/9.,3/9.,4/9.},3},
 {"rk4",4,{{0},{.5},{0,.5},{0,0,1}},{1/6.,2/6.,2/6.,1/6.},4},
 {"rk4a",4,{{0},{2/5.},{-3/20.,3/4.},{19/44.,-15/44.,40/44.}},{11/72.,25/72.,25/72.,11/72.},4},
 {"rk5",6,{{0},{1/5.},{3/40.,9/40.},{44/45.,-56/15.,32/9.},{19372/6561.,-25360/2187.,64448/6561.,-212/729.},{9017/3168.,-355/33.,46732/5247.,49/176.,-5103/18656.}},{35/384.,0,500/1113.,125/192.,-2187/6784.,11/84.},5} };
static double exptimes[8]; static int nexp;
static int textbook(tGrid *g,const double *s0,double t,double dt,double *out,double *scale)
{ const char *m=Gets("evolution_method"); long i; int a,c; double *k[8],*y=malloc(8*NT); nexp=0;
  for(i=0;i<NT;i++) scale[i]=fabs(s0[i])+1e-3;
  if(!strcmp(m,"icn")||!strcmp(m,"euler")) { int it,n=!strcmp(m,"icn")?3:1; double *r=malloc(8*NT); int dbg=n==1&&Getv("evolve_euler_debug","yes");
    memcpy(out,s0,8*NT);
    for(it=0;it<n;it++){ double tt=it? t+.5*dt: t; for(i=0;i<NT;i++) y[i]=.5*(out[i]+s0[i]); frhs(g,y,tt,r); exptimes[nexp++]=tt; for(i=0;i<NT;i++){ out[i]=dbg? r[i]: s0[i]+dt*r[i]; scale[i]+=fabs(dt*r[i])+dbg*fabs(r[i]); } fbc(g,out); }
    free(r); free(y); return n==1?1:2; }
  for(a=0;a<sizeof T/sizeof *T;a++) if(!strcmp(T[a].name,Gets("evolution_method_rk"))) break;
  if(a==sizeof T/sizeof *T){ free(y); return 0; }
  for(c=0;c<T[a].s;c++){ double ci=0; int q; k[c]=malloc(8*NT); memcpy(y,s0,8*NT);
    for(q=0;q<c;q++){ ci+=T[a].a[c][q]; for(i=0;i<NT;i++){ y[i]+=dt*T[a].a[c][q]*k[q][i]; scale[i]+=fabs(dt*T[a].a[c][q]*k[q][i]); } }
    fbc(g,y); frhs(g,y,t+ci*dt,k[c]); exptimes[nexp++]=t+ci*dt; }
  memcpy(out,s0,8*NT); for(c=0;c<T[a].s;c++){ for(i=0;i<NT;i++){ out[i]+=dt*T[a].b[c]*k[c][i]; scale[i]+=fabs(dt*T[a].b[c]*k[c][i]); } free(k[c]); }
  fbc(g,out); free(y); return T[a].order; }
static uint64_t others(tGrid *g) /* everything that is not evolved nor scratch of the integrator */
{ int i,b,j; uint64_t h=H0; for(i=0;i<g->nvariables;i++){ char *n=VarName(i); int l=strlen(n),e=0; for(j=0;j<NL;j++) if(U->index[j]==i) e=1;
    if(e||(l>2&&n[l-2]=='_'&&strchr("pqrstuvwx",n[l-1])&&strncmp(n,"probe_",6)==0)||strstr(n,"_change")) continue;
    for(b=0;b<g->nboxes;b++){ h=hash(&i,4,h); if(g->box[b]->v[i]) h=hash(g->box[b]->v[i],8*g->box[b]->nnodes,h); } } return h; }
static uint64_t oth0; static double t0; static int it0;
static int pre(tGrid *g)
{ if(atoi(P("probe_check","0"))){ free(sv); NT=ntot(g); sv=malloc(8*NT); flat(g,U,sv); oth0=others(g); t0=g->time; it0=g->iteration; nstg=0; }
  { char *p=GetsLax("probe_poke"); if(p&&atoi(p)==g->iteration) Setd("probe_g",1.0+0.1234567890123456*g->iteration); }
  ncall_rhs=ncall_bc=0; return 0; }
static int post(tGrid *g)
{ if(!U||!atoi(P("probe_check","0"))||!sv) return 0;
  { double *e=malloc(8*NT),*sc=malloc(8*NT),*now=malloc(8*NT); long i,bad=-1,nb=0; int o=textbook(g,sv,t0,g->dt,e,sc),k; double worst=0;
    flat(g,U,now);
    if(o){ for(i=0;i<NT;i++){ double d=fabs(now[i]-e[i])/sc[i]; if(!(d<=1e-12)){ nb++; if(bad<0||!(d<=worst)){ bad=i; worst=d; } } ncmp++; }
      if(bad>=0) V("one-step-formula","%s/%s it %d: %ld of %ld values differ, e.g. %.17g instead of %.17g",Gets("evolution_method"),Gets("evolution_method_rk"),it0,nb,NT,now[bad],e[bad]);
      if(nstg!=nexp) V("number-of-stages","%s/%s: %d right hand sides instead of %d",Gets("evolution_method"),Gets("evolution_method_rk"),nstg,nexp);
      else for(k=0;k<nstg;k++) if(!(fabs(stage_t[k]-exptimes[k])<=1e-13*(1+fabs(t0)))) V("stage-time","%s/%s stage %d at %.17g instead of %.17g",Gets("evolution_method"),Gets("evolution_method_rk"),k,stage_t[k],exptimes[k]);
      if(bcmode==1&&it0>0) for(k=0;k<nstg;k++) if(!stage_bc[k]) V("stage-without-conditions","%s/%s stage %d",Gets("evolution_method"),Gets("evolution_method_rk"),k);
      if(bcmode&&ncall_bc<nexp) V("conditions-per-stage","%ld calls for %d stages",ncall_bc,nexp);
    } else V("unknown-method-ran","%s",Gets("evolution_method_rk"));
    if(others(g)!=oth0) V("touched-other-variable","%s/%s",Gets("evolution_method"),Gets("evolution_method_rk"));
    { char *s=strdup(P("evolve_compute_change","")),*w; for(w=strtok(s," ");w;w=strtok(0," ")){ char n[200]; int j,b,ic; long k2=0; snprintf(n,199,"%s_change",w); ic=IndLax(n);
        for(b=0;b<g->nboxes;b++) for(j=0;j<NL;j++){ int nn=g->box[b]->nnodes; if(!strcmp(VarName(U->index[j]),w)){ double *c=ic>=0?g->box[b]->v[ic]:0; if(!c) V("no-change-variable","%s",n); else for(i=0;i<nn;i++) if(c[i]!=now[k2+i]-sv[k2+i]){ V("change-variable","%s: %g instead of %g",n,c[i],now[k2+i]-sv[k2+i]); break; } } k2+=nn; } } free(s); }
    if(Getv("evolve_persist","no")){ int j; for(j=0;j<NL;j++){ char n[200]; int q; snprintf(n,199,"%s_p",VarName(U->index[j])); q=IndLax(n); if(q>=0&&g->box[0]->v[q]) V("persist-no","%s still has storage",n); } }
    free(e); free(sc); free(now); nsteps++; }
  return 0; }
static int dump(tGrid *g)
{ int b,j,i; uint64_t h=H0; 
  if(atoi(P("probe_check","0"))&&g->time!=g->iteration*g->dt) V("time-bookkeeping","it %d time %.17g dt %.17g",g->iteration,g->time,g->dt);
  for(b=0;b<g->nboxes;b++) for(j=0;j<NL;j++) h=hash(g->box[b]->v[U->index[j]],8*g->box[b]->nnodes,h);
  { int a=Ind("probe_acc"); for(b=0;b<g->nboxes;b++) forallpoints(g->box[b],i) g->box[b]->v[a][i]+= g->box[b]->v[U->index[0]][i]*(1+g->iteration); }
  if(hist){ int a=Ind("probe_cx"),k; for(k=0;k<3;k++) for(b=0;b<g->nboxes;b++) forallpoints(g->box[b],i) g->box[b]->v[a+k][i]+= g->box[b]->v[U->index[0]][i]*(k+2+g->iteration); }
  fprintf(L,"D %d %a %s %016llx\n",g->iteration,g->time,P("probe_g","-"),(unsigned long long)h); fflush(L); return 0; }
static int nanset(tGrid *g) /* for C25 */
{ char *p=GetsLax("probe_nan"); int it,b,i; char var[100],kind[20]; if(p&&sscanf(p,"%d %99s %d %d %19s",&it,var,&b,&i,kind)==5&&g->iteration==it&&b<g->nboxes&&IndLax(var)>=0&&g->box[b]->v[Ind(var)])
  { g->box[b]->v[Ind(var)][i%g->box[b]->nnodes]= !strcmp(kind,"nan")?NAN: !strcmp(kind,"inf")?INFINITY: !strcmp(kind,"-inf")?-INFINITY: !strcmp(kind,"-nan")?-NAN: !strcmp(kind,"snan")?__builtin_nans(""): 1e300; fprintf(L,"N %d\n",it); fflush(L); } return 0; }
static int finaldump(tGrid *g)
{ int i,b; char *xs[]={"x","y","z","X","Y","Z","probe_acc","probe_guard","probe_cx","probe_cy","probe_cz",0}; 
  fprintf(L,"T %d %a %a\n",g->iteration,g->time,g->dt);
  for(b=0;b<g->nboxes;b++){ tBox *B=g->box[b]; fprintf(L,"B %d %d %d %d %016llx\n",b,B->n1,B->n2,B->n3,(unsigned long long)hash(B->bbox,48,H0));
    for(i=0;i<NL;i++) fprintf(L,"F %s %d %016llx\n",VarName(U->index[i]),b,(unsigned long long)hash(B->v[U->index[i]],8*B->nnodes,H0));
    for(i=0;xs[i];i++) if(IndLax(xs[i])>=0&&B->v[Ind(xs[i])]) fprintf(L,"F %s %d %016llx\n",xs[i],b,(unsigned long long)hash(B->v[Ind(xs[i])],8*B->nnodes,H0)); }
  for(i=0;i<GetnParameters();i++) fprintf(L,"P %s=%s\n",GetnameInd(i),GetsInd(i));
  { char *d=GetsLax("probe_dumpfile"); if(d&&*d){ FILE *f=fopen(d,"wb"); for(b=0;b<g->nboxes;b++) for(i=0;i<NL;i++) fwrite(g->box[b]->v[U->index[i]],8,g->box[b]->nnodes,f); fclose(f); } }
  fprintf(L,"C compared-values %ld\nC steps %ld\nE\n",ncmp,nsteps); fflush(L); return 0; }
static int startup(tGrid *g)
{ int b,j,i,k; const char *sub=P("probe_subset","all"); 
  if(U) vlfree(U); U=vlalloc(g); free(sv); sv=0; vh_s=vh_mix(strtoull(P("probe_seed","1"),0,10)*7919+13);
  vlpush(U,Ind("probe_u")); if(strcmp(sub,"one")){ vlpush(U,Ind("probe_vx")); if(!strcmp(sub,"all")) vlpush(U,Ind("probe_hxx")); }
  NL=U->n; enablevarlist(U); enablevar(g,Ind("probe_acc")); enablevar(g,Ind("probe_guard")); if(!strcmp(sub,"one")) enablevar(g,Ind("probe_vx"));
  hist=atoi(P("probe_hist","0")); if(hist) enablevar(g,Ind("probe_cx"));
  nlsize=atof(P("probe_nl","1")); bcmode=atoi(P("probe_bc","0")); deriv=atoi(P("probe_deriv","0"));
  for(j=0;j<NL;j++){ A[j]=vh_range(-1,1); Cc[j]=vh_range(-1,1); Dd[j]=vh_range(-1,1); W[j]=vh_range(.5,3); for(k=0;k<NL;k++) Bm[j][k]=vh_range(-.5,.5); }
  for(b=0;b<g->nboxes;b++){ forallpoints(g->box[b],i){ for(j=0;j<NL;j++) g->box[b]->v[U->index[j]][i]=vh_range(-2,2)*pow(10,vh_int(-3,1)); g->box[b]->v[Ind("probe_guard")][i]=vh_u(); g->box[b]->v[Ind("probe_acc")][i]=0; } }
  evolve_vlregister(U); evolve_rhsregister(rhs); evolve_algebraicConditionsregister(bcmode? bc: NULL); 
  { int en=GetvLax("probe_extra","yes"); if(en){ int q; for(q=0;q<g->nvariables;q++) { char *n=VarName(q); if(!strncmp(n,"probe_",6)&&!strchr(n+6,'_')) enablevarcomp(g,q); } } }
  return 0; }
static int cubed(tGrid *g)
{ int n=atoi(P("probe_cs","0")); double xc[4]={0,1,0,0}; if(!n) return 0;
  switch(n){ case 13: arrange_1box12CubSph_into_full_cube(g,0,xc,.2,.4,.6); break; case 26: two_full_cubes_touching_at_x0(g,0,1.,.2,.4,.25,.5); break;
    case 32: sphere_around_two_full_cubes_touching_at_x0(g,0,1.,.2,.4,.25,.5,4.); break; case 38: two_spheres_around_two_full_cubes(g,0,1.,.2,.4,.25,.5,4.,40.); break; default: return 0; }
  return 0; }
#ifndef PROBE_NOMAIN
int main(int argc,char **argv)
{ int r; L=fopen(argv[1],"a"); if(!L) return 77;
  AddVar("probe_guard","","guard"); AddVar("probe_u","","u"); AddVar("probe_v","i","v"); AddVar("probe_h","ij+ji","h"); AddVar("probe_acc","","history"); AddVar("probe_c","i","history of each component");
  AddFun(PRE_COORDINATES,cubed,"probe grid"); AddFun(INITIALDATA,startup,"probe"); AddFun(PRE_EVOLVE,pre,"probe pre"); AddFun(PRE_POST_EVOLVE,post,"probe post"); AddFun(POST_EVOLVE,nanset,"probe nan"); AddFun(POST_OUTPUT,dump,"probe dump"); AddFun(PRE_FINALIZE_GRID,finaldump,"probe final");
  { char **av=calloc(argc,sizeof(char*)); int i; av[0]="sgrid"; for(i=2;i<argc;i++) av[i-1]=argv[i]; r=libsgrid_main(argc-1,av); free(av); }
  if(U) vlfree(U); free(sv); fprintf(L,"R %d\n",r); fclose(L); return r; }
#endif
