/* nonlinear solvers: Newton and Newton_linesrch on grids, newton_* and WT_newton in small dimensions */
#define main c19_main
#include "c19.c"
#undef main
#include <sys/mman.h>
/* the library has either the old NumericUtils or the newer numerics module, where some functions do not exist */
void newton_lnsrch(double x[],int n,int *check,void (*vecfunc)(int,double[],double[]),int MAXITS,double TOLF) __attribute__((weak));
int newton_lnsrch_its(double x[],int n,int *check,void (*vecfunc)(int,double[],double[]),int MAXITS,double TOLF) __attribute__((weak));
int newton_lnsrch_vec_within_range(int,double*,double*,double*); void newton_lnsrch_set_vecs_for_lininterp(int,double*,double*,double*,double*,double*); void newton_lnsrch_get_fvec_by_lininterp(int,double*,double*,double*,double*,double*,double*);
#define OLD (newton_lnsrch!=NULL)
extern int (*Newton_do_before_linSolver)(tGrid *grid, tNewtonResults inp, tNewtonArgPointers out);
extern int (*Newton_do_after_step)(tVarList *vlFu, tVarList *vlu, tVarList *vlc1, tVarList *vlc2);
static double NA[MV],NB,*SRC[MB][MV],*US[MB][MV]; static tVarList *U,*FU,*DU,*TF; static long nF,nJ,nsol,nbef,naft,nJ0;
static void addnl(tVarList *F,tVarList *u,int src){ int b,j; long i; for(b=0;b<nb;b++) if(act[b]){ tBox *o=F->grid->box[b]; for(j=0;j<nv;j++){ double *f=o->v[F->index[j]],*x=o->v[u->index[j]],*y=o->v[u->index[(j+1)%nv]]; for(i=0;i<o->nnodes;i++){ f[i]+=NA[j]*x[i]*x[i]*x[i]+NB*x[i]*y[i]*y[i]; if(src) f[i]-=SRC[b][j][i]; } } } }
static void Fu(tVarList *F,tVarList *u,tVarList *c1,tVarList *c2){ nF++; lop(F,u,c1,c2); addnl(F,u,1); }
static void Ju(tVarList *J,tVarList *du,tVarList *c1,tVarList *c2){ int b,j; long i; double s=0; __sync_fetch_and_add(&nJ,1); lop(J,du,c1,c2); for(b=0;b<nb;b++) if(act[b]){ tBox *o=J->grid->box[b]; for(j=0;j<nv;j++){ int k=(j+1)%nv; double *f=o->v[J->index[j]],*x=o->v[U->index[j]],*y=o->v[U->index[k]],*dx=o->v[du->index[j]],*dy=o->v[du->index[k]]; for(i=0;i<o->nnodes;i++){ s+=dx[i]!=0; f[i]+=(3*NA[j]*x[i]*x[i]+NB*y[i]*y[i])*dx[i]+2*NB*x[i]*y[i]*dy[i]; } } } if(s==0) __sync_fetch_and_add(&nJ0,1); }
static double resid(void){ double *f=malloc(8*N+8); int i; tVarList *t=FU; double *sv=malloc(8*N+8),*cv=malloc(8*N+8); arr(0,t,sv,0); arr(0,C2,cv,0); long a=nF; Fu(t,U,C1,C2); nF=a; arr(0,t,f,0); double r=nrm(f,N)/sqrt(N); arr(0,t,sv,1); arr(0,C2,cv,1); (void)i; free(f);free(sv);free(cv); return r; }
static double residmax(void){ double *f=malloc(8*N+8),m=0; int i; double *sv=malloc(8*N+8); arr(0,FU,sv,0); Fu(FU,U,C1,C2); arr(0,FU,f,0); for(i=0;i<N;i++) if(!(fabs(f[i])<=m)) m=fabs(f[i]); arr(0,FU,sv,1); free(f);free(sv); return m; }
/* what the monitored linear solver was asked, step by step */
static double *u0,*d0,res0,lastl,wtol,wfac; static int step,bt,alt,havestep,lsmode,linsi,plan[200],wit,hookon,lin2; static double round_,escape_;
static void settle(const char *where)
{ /* u is now u0 - s d0 */ if(!havestep) return; havestep=0; if(alt) return; double *u=malloc(8*N+8); arr(0,U,u,0); int i; double p=0,q=0,e=0,r=resid(),um=0; for(i=0;i<N;i++){ p+=(u0[i]-u[i])*d0[i]; q+=d0[i]*d0[i]; if(fabs(u0[i])>um) um=fabs(u0[i]); } double s=q>0?p/q:0; for(i=0;i<N;i++){ double z=fabs(u[i]-(u0[i]-s*d0[i])); if(z>e) e=z; }
  int esc=escape_>0&&fabs(s)<.2; VEXPECT(e<=1e-12*(um+fabs(s)*sqrt(q)+1e-30)+(esc?2.2*escape_*nrm(u0,N)/sqrt(N):0),"not-a-step","%s %s step %d: new vector is not the old one minus a multiple of the solution of the linear problem, by %g (multiple %g)",T,where,step,e,s);
  if(esc) vh_count("steps that may be random",1); if(!bt&&!esc) VEXPECT(q==0||fabs(s-1)<1e-9*(1+um/sqrt(q)),"full-step","%s step %d has length %g",T,step,s);
  if(bt&&!esc&&isfinite(r)) VEXPECT(r<=res0*(1+1e-9)+round_,"residual-increased","%s step %d from %g to %g (multiple %g)",T,step,res0,r,s);
  lastl=s-1; if(bt&&fabs(s-1)>1e-6) vh_count("shortened or lengthened steps",1); vh_count("steps checked",1); free(u); }
static int wsol(tVarList *x,tVarList *b,tVarList *r,tVarList *c1,tVarList *c2,int it,double tol,double *nr,OP A,OP Pc)
{ settle("before the linear solver"); double re=resid(); double *f=malloc(8*N+8),*g=malloc(8*N+8); int i,ret; arr(0,b,f,0); { double *sv=malloc(8*N+8),*cv=malloc(8*N+8); arr(0,FU,sv,0); arr(0,C2,cv,0); long a=nF; Fu(FU,U,C1,C2); nF=a; arr(0,FU,g,0); arr(0,FU,sv,1); arr(0,C2,cv,1); free(sv); free(cv); }
  double df=0,um=0; arr(0,U,u0,0); for(i=0;i<N;i++){ if(!(fabs(f[i]-g[i])<=df)) df=fabs(f[i]-g[i]); } um=nrm(u0,N); VEXPECT(df<=1e-12*(re*N+um),"right-hand-side","%s step %d: linear solver is not given the residual of the current point, off by %g of %g",T,step,df,re);
  if(lsmode==0){ double e=re*wfac>wtol?re*wfac:wtol; VEXPECT(fabs(tol-e)<=1e-10*e+round_*wfac,"linear-tolerance","%s step %d %g expected %g",T,step,tol,e); }
  else { double m=0; for(i=0;i<N;i++) if(fabs(g[i])>m) m=fabs(g[i]); VEXPECT(fabs(tol-m*wfac)<=1e-10*m*wfac+round_*wfac,"linear-tolerance","%s step %d %g expected %g",T,step,tol,m*wfac); }
  VEXPECT(it==wit,"linear-itmax","%s %d expected %d",T,it,wit); double m0=0; arr(0,x,f,0); for(i=0;i<N;i++) if(!(fabs(f[i])<=m0)) m0=fabs(f[i]); if(lsmode==0||nsol==0) VEXPECT(m0==0,"linear-start","%s step %d: solution of linear problem starts from %g",T,step,m0);
  if(lsmode==1&&nsol>0&&isfinite(res0)) VEXPECT(re<=res0*(1+1e-12),"residual-increased","%s step %d from %g to %g",T,step,res0,re);
  int k=plan[nsol%200]; nsol++; step++; res0=re; 
  if(k==1||k==3) { for(i=0;i<N;i++) g[i]=vh_range(-1,1); arr(0,x,g,1); *nr=1; ret=-7; vh_count("linear solver failures injected",1); }
  else { ret=S[linsi].f(x,b,r,c1,c2,it,tol,nr,A,Pc); if(k==2){ arr(0,x,g,0); for(i=0;i<N;i++) g[i]*=-1; arr(0,x,g,1); vh_count("wrong directions injected",1); } }
  if(ret>=0){ arr(0,x,d0,0); havestep=lsmode==0; } else { havestep=0; lastl=-1; } free(f); free(g); return ret; }
static int wsol2(tVarList *x,tVarList *b,tVarList *r,tVarList *c1,tVarList *c2,int it,double tol,double *nr,OP A,OP Pc){ lin2++; return wsol(x,b,r,c1,c2,it,tol,nr,A,Pc); }
static int before(tGrid *g,tNewtonResults in,tNewtonArgPointers out){ nbef++; settle("before hook"); if(!alt) VEXPECT(fabs(in.lambda-(nsol?lastl:0))<1e-5,"hook-lambda","%s %g expected %g",T,in.lambda,nsol?lastl:0.); if(hookon==2&&nbef==2) *out.linSolver=(void*)wsol2; return 0; }
static int after(tVarList *a,tVarList *b,tVarList *c,tVarList *d){ naft++; settle("after hook"); double *f=malloc(8*N+8),m=0; int i; arr(0,DU,f,0); for(i=0;i<N;i++) if(!(fabs(f[i])<=m)) m=fabs(f[i]); VEXPECT(m==0,"du-not-reset","%s %g",T,m); VEXPECT(b==U&&a==FU&&c==C1&&d==C2,"hook-arguments","%s",T); free(f); return 0; }
static void setup(int kind,double amp)
{ int b,j; grid(kind,kind==2); U=X; FU=Bv; DU=AddDuplicateEnable(U,"_l"); 
  for(b=0;b<nb;b++) for(j=0;j<nv;j++){ SRC[b][j]=calloc(G->box[b]->nnodes+1,8); US[b][j]=calloc(G->box[b]->nnodes+1,8); }
  for(j=0;j<nv;j++) NA[j]=(KIND==2?-1:1)*vh_range(0,2); NB=(KIND==2?-1:1)*(vh_int(0,1)?vh_range(0,.3):0);
  if(KIND==2){ for(j=0;j<nv;j++) NA[j]=0; NB=0; }
  for(b=0;b<nb;b++) for(j=0;j<nv;j++) for(long i=0;i<G->box[b]->nnodes;i++) US[b][j][i]=vh_range(-amp,amp);
  for(b=0;b<nb;b++) for(j=0;j<nv;j++) if(act[b]) memcpy(G->box[b]->v[U->index[j]],US[b][j],8*G->box[b]->nnodes);
  lop(FU,U,C1,C2); addnl(FU,U,0); for(b=0;b<nb;b++) for(j=0;j<nv;j++) if(act[b]) memcpy(SRC[b][j],G->box[b]->v[FU->index[j]],8*G->box[b]->nnodes); }
static void unset(void){ int b,j; for(b=0;b<nb;b++) for(j=0;j<nv;j++){ free(SRC[b][j]); free(US[b][j]); } VLDisableFree(DU); ungrid(); }
static void newton(int i0)
{ static const int dir[]={0,1,2,3,5}; int kind=vh_int(0,3)==2?2:vh_int(0,1)*3; if(vh_int(0,3)==0) kind=2; bt=vh_int(0,2); double amp=bt?vh_range(.1,2):vh_range(.05,.4); setup(kind,amp); lsmode=OLD&&(i0&1);
  vg_par("GridIterators_UMFPACK_version=di"); vg_par("GridIterators_setABStozero_below=0"); linsi=dir[vh_int(0,KIND==2?3:4)]; if(KIND!=2&&vh_int(0,2)==0) linsi=4;
  vg_par("GridIterators_Newtonstep=%s",bt==0?"full":bt==1?"backtrack":"backtrack optimal"); int atl=vh_int(0,4); vg_par("GridIterators_Newton_atlocalMin=%s",atl<2?"donothing":atl==2?"escapeMin":atl==3?"quit":"AltLinSolver");
  static const char *al[]={"","LAPACK_dgesv_wrapper","UMFPACK_solve_wrapper  LAPACK_dgesv_wrapper"}; int ai=vh_int(0,2); vg_par("GridIterators_Newton_linSolvers=%s",al[ai]); int eos=vh_int(0,1); vg_par("GridIterators_Newton_EndOfStep=%s",eos?"Jdu":"none"); double rs=vh_range(1e-4,.1); vg_par("GridIterators_Newton_randomstepsize=%.17g",rs);
  int inj=vh_int(0,3),i,itmax=vh_int(0,3)?(inj?vh_int(5,40):60):vh_int(0,4); double tol=pow(10,-vh_range(1,9)); double cn=opnorm(); round_=1e-13*cn*(amp+1)*20; if(KIND==2&&tol<1e-7) tol=1e-7; if(tol<round_*10) tol=round_*10;
  for(i=0;i<200;i++) plan[i]=inj==1?(vh_int(0,3)==0):inj==2?2*(i<3&&vh_int(0,1)):inj==3?(vh_int(0,1)?3:0):0; if(inj==3&&vh_int(0,1)) for(i=0;i<200;i++) plan[i]=1; if(lsmode) for(i=0;i<200;i++) if(plan[i]==2) plan[i]=0;
  int gen=vh_int(0,4); { double *z=gen==0?calloc(N+1,8):rv(N,amp); if(gen==1){ free(z); z=malloc(8*N+8); int b; double *t=z; for(b=0;b<nb;b++) if(act[b]) for(long q=0;q<G->box[b]->nnodes;q++) for(int j=0;j<nv;j++) *t++=US[b][j][q]; } arr(0,U,z,1); free(z); }
  wfac=vh_int(0,1)?vh_range(1e-6,.1):.1; wtol=vh_int(0,2)?0:tol*vh_range(0,.5); wit=vh_int(100,300); if(lsmode) wtol=0; hookon=vh_int(0,2); if(lsmode) hookon=0;
  sprintf(T+strlen(T),"%s %s step kind %d local minimum %d alternatives %d linear solver %s injection %d itmax %d tol %g amplitude %g start %d",lsmode?"Newton_linesrch":"Newton","",bt,atl,ai,S[linsi].n,inj,itmax,tol,amp,gen); vh_at("%s",T);
  vlsetconstant(DU,0); nF=nJ=nsol=nbef=naft=nJ0=0; step=0; havestep=0; lin2=0; alt=atl==4&&ai>0; lastl=0; escape_=atl==2?rs:0; u0=calloc(N+1,8); d0=calloc(N+1,8); Newton_do_before_linSolver=hookon?before:NULL; Newton_do_after_step=hookon?after:NULL; int anyfail=0; 
  double *us=malloc(8*N+8),nr=-5; arr(0,U,us,0); double rstart=resid(); SNAP s=snap(); int ret=(lsmode?Newton_linesrch:Newton)(Fu,Ju,U,FU,C1,C2,itmax,tol,&nr,vh_int(0,1),wsol,Preconditioner_I,DU,R,C1,C2,wit,wfac,wtol); 
  if(hookon!=1||!alt) settle("at the end"); Newton_do_before_linSolver=NULL; Newton_do_after_step=NULL;
  { tVarList *all=vlalloc(G); vlpushvl(all,FU); vlpushvl(all,C2); same(&s,U,all,DU,R,"newton"); vlfree(all); } unsnap(&s);
  double tr=resid(); long ns=nsol; for(i=0;i<ns&&i<200;i++) if(plan[i]) anyfail=1;
  VEXPECT(fabs(nr-tr)<=1e-11*tr+round_*1e-2,"reported-residual","%s returned %d reported %g true %g",T,ret,nr,tr);
  if(lsmode==0){ 
    VEXPECT(ret>=0&&ret<=itmax+1,"iterations","%s returned %d",T,ret); if(ret<itmax) VEXPECT(tr<=tol+round_,"unconverged-called-success","%s returned %d residual %g",T,ret,tr);
    if(ret>=itmax&&itmax>0&&!anyfail&&KIND!=2&&linsi!=4&&itmax>=60) vh_fail("did-not-converge","%s returned %d residual %g",T,ret,tr);
    if(!alt){ VEXPECT(ns==(ret>itmax?ns:ret),"linear-solves","%s %ld linear solves in %d steps",T,ns,ret); if(hookon) VEXPECT(nbef==ns&&naft==ns,"hooks","%s %ld %ld in %ld steps",T,nbef,naft,ns); if(hookon==2&&ns>1) VEXPECT(lin2==ns-1,"hook-solver","%s %d of %ld",T,lin2,ns); }
    if(eos&&ns>0) VEXPECT(nJ0>=ns,"derivatives-not-reset","%s J called with zero %ld times in %ld steps",T,nJ0,ns);
    if(rstart<=tol*.999) VEXPECT(ret==0&&ns==0||itmax==0,"nothing-to-do","%s returned %d",T,ret);
    if(inj==3&&plan[0]==1&&plan[1]==1&&plan[2]==1&&plan[3]==1&&plan[4]==1&&atl<2&&ns>0){ int a=1; for(i=0;i<200;i++) if(plan[i]!=1) a=0; if(a){ double *z=malloc(8*N+8); arr(0,U,z,0); VEXPECT(!memcmp(z,us,8*N),"moved-without-solution","%s",T); VEXPECT(ret==itmax,"failed-called-success","%s %d",T,ret); free(z); vh_count("all linear solves fail",1); } }
    if(atl==3&&anyfail&&plan[0]==1&&rstart>tol&&itmax>0){ VEXPECT(ret==itmax+1&&ns==1,"did-not-quit","%s returned %d after %ld linear solves",T,ret,ns); vh_count("quit",1); }
    if(alt&&inj==3&&itmax>=5&&bt!=0&&rstart>tol&&itmax>=20&&KIND!=2) VEXPECT(ret<itmax,"alternative-solver-not-used","%s returned %d residual %g",T,ret,tr);
    double *z=malloc(8*N+8),m=0; arr(0,DU,z,0); for(i=0;i<N;i++) if(z[i]!=0) m=1; VEXPECT(m==0,"du-not-reset","%s",T); free(z); }
  else { double mx=residmax(); if(ret>=0&&ret<=itmax) VEXPECT(mx<=tol*(1+1e-9)+round_,"unconverged-called-success","%s returned %d largest residual %g",T,ret,mx); VEXPECT(ret<=itmax+1,"iterations","%s returned %d",T,ret); if(!anyfail&&itmax>=60&&(linsi!=4)) VEXPECT(ret>=0&&ret<=itmax,"did-not-converge","%s returned %d residual %g",T,ret,mx); if(anyfail&&inj!=2) VEXPECT(ret<0||ret>itmax||mx<=tol+round_,"linear-failure-hidden","%s returned %d",T,ret); if(ns>0) VEXPECT(tr<=rstart*(1+1e-12),"residual-increased","%s from %g to %g",T,rstart,tr); }
  if((lsmode?ret>=0:1)&&ret<itmax&&tol<1e-7&&KIND!=2){ double e=0; for(int b=0;b<nb;b++) if(act[b]) for(int j=0;j<nv;j++) for(long q=0;q<G->box[b]->nnodes;q++){ double z=fabs(G->box[b]->v[U->index[j]][q]-US[b][j][q]); if(!(z<=e)) e=z; } VEXPECT(e<tol*sqrt(N)*100,"wrong-solution","%s off by %g",T,e); vh_count("solutions compared",1); }
  vh_count(ret<itmax&&ret>=0?"converged":"not converged, and said so",1); vh_count("linear solves",ns); vh_case(1,"%s",T); free(us); free(u0); free(d0); unset(); }
/* elliptic problems: different solvers and resolutions give the same solution */
static double cc[6]; static double ex(double x,double y,double z){ return 1+.3*sin(cc[0]*x+cc[1]*y)+.2*cos(cc[2]*z+cc[3]*x)*exp(.2*y); }
static double lap(double x,double y,double z){ double h=.3*sin(cc[0]*x+cc[1]*y),k=.2*cos(cc[2]*z+cc[3]*x)*exp(.2*y); return -h*(cc[0]*cc[0]+cc[1]*cc[1])+k*(-cc[2]*cc[2]-cc[3]*cc[3]+.04); }
static double en; static tVarList *EU,*EC;
static void eop(tVarList *F,tVarList *u,tVarList *lin)
{ tGrid *g=F->grid; int b; long i; double *f1[2],*u1[2],*dx[2]; for(b=0;b<nb;b++){ tBox *o=g->box[b]; double *f=o->v[F->index[0]],*v=o->v[(lin?lin:u)->index[0]],*w=o->v[u->index[0]]; double *vx=o->v[EC->index[0]],*t1=o->v[EC->index[1]],*t2=o->v[EC->index[2]],*t3=o->v[EC->index[3]]; double *px=o->v[Ind("X")],*py=o->v[Ind("Y")],*pz=o->v[Ind("Z")]; spec_Deriv1(o,1,v,vx); spec_Deriv2(o,1,v,t1); spec_Deriv2(o,2,v,t2); spec_Deriv2(o,3,v,t3);
    for(i=0;i<o->nnodes;i++){ double e=ex(px[i],py[i],pz[i]); f[i]=t1[i]+t2[i]+t3[i]-(lin?3*en*w[i]*w[i]*v[i]:en*v[i]*v[i]*v[i])-(lin?0:lap(px[i],py[i],pz[i])-en*e*e*e); int i1=i%o->n1,i2=(i/o->n1)%o->n2,i3=i/((long)o->n1*o->n2); if(i1==0||i2==0||i3==0||i1==o->n1-1||i2==o->n2-1||i3==o->n3-1) f[i]=v[i]-(lin?0:e); } f1[b]=f; u1[b]=v; dx[b]=vx; }
  if(nb==2){ tBox *o=g->box[0]; int j,k; for(k=1;k<o->n3-1;k++) for(j=1;j<o->n2-1;j++){ long l=o->n1-1+o->n1*(j+o->n2*k),r=0+g->box[1]->n1*(j+o->n2*k); f1[0][l]=u1[0][l]-u1[1][r]; f1[1][r]=dx[0][l]-dx[1][r]; } } }
static void eF(tVarList *F,tVarList *u,tVarList *a,tVarList *b){ eop(F,u,NULL); }
static void eJ(tVarList *F,tVarList *du,tVarList *a,tVarList *b){ eop(F,EU,du); }
static void elliptic(int seed)
{ static const int dir[]={0,1,2,3,5}; int q,k; double last=1; int mode=vh_int(0,2); nb=vh_int(1,2); cc[0]=vh_range(-1,1);cc[1]=vh_range(-1,1);cc[2]=vh_range(-1,1);cc[3]=vh_range(-1,1); en=vh_range(0,2); double xm=vh_range(.4,.8); int ls=OLD&&vh_int(0,1); double sol[5];
  for(q=0;q<3;q++){ int n=4+2*q; vg_reset(); act[0]=act[1]=1; int bb=nb; vg_par("Coordinates_set_bfaces=no"); vg_par("nboxes=%d",bb); AddVar("u","","t"); AddVar("f","","t"); AddVar("ca","i","t"); AddVar("cb","","t"); AddVar("temp1","","t");AddVar("temp2","","t");AddVar("temp3","","t"); for(k=0;k<bb;k++){ double B[6]={k*xm,k?1.3:xm,-.5,.5,0,.7}; if(bb==1) B[1]=1.1; vg_box(k,n+(k==1),n,n,VG_BASES[0][0]=='C'?"ChebExtrema":"ChebExtrema","ChebExtrema","ChebExtrema",B); } vg_par("GridIterators_setABStozero_below=0"); vg_par("GridIterators_UMFPACK_version=%s","di"); vg_par("GridIterators_Newtonstep=%s",mode==0?"full":mode==1?"backtrack":"backtrack optimal"); G=vg_make(1);
    enablevar(G,Ind("temp1"));enablevar(G,Ind("temp2"));enablevar(G,Ind("temp3")); EU=vlalloc(G); vlpush(EU,Ind("u")); EC=vlalloc(G); vlpush(EC,Ind("cax")); vlpush(EC,Ind("cb")); enablevarlist(EU); enablevarlist(EC); tVarList *F=AddDuplicateEnable(EU,"_f"),*D=AddDuplicateEnable(EU,"_l"),*r=AddDuplicateEnable(EU,"_r"); int nn=0; for(k=0;k<bb;k++) nn+=G->box[k]->nnodes; double *first=NULL;
    int ks=vh_int(0,4),nd=bb==1?5:4; for(k=0;k<(q==2?2:3);k++){ int si=dir[(ks+k)%nd]; double nr=-1; vlsetconstant(EU,1); vlsetconstant(D,0); sprintf(T,"elliptic problem %d: %d boxes, %d points, %s, %s",seed,bb,n,S[si].n,ls?"line search":"Newton"); vh_at("%s",T); int ret=(ls?Newton_linesrch:Newton)(eF,eJ,EU,F,EC,EC,20,1e-9,&nr,1,S[si].f,Preconditioner_I,D,r,EC,EC,1000,1e-3,1e-11); VEXPECT(ret>=0&&ret<20&&nr<1e-9,"did-not-converge","%s returned %d residual %g",T,ret,nr);
      double e=0,*v=malloc(8*nn); int c=0; for(int b=0;b<bb;b++){ tBox *o=G->box[b]; double *u=o->v[EU->index[0]]; for(long i=0;i<o->nnodes;i++){ double z=fabs(u[i]-ex(o->v[Ind("X")][i],o->v[Ind("Y")][i],o->v[Ind("Z")][i])); if(!(z<=e)) e=z; v[c++]=u[i]; } } if(!first) first=v; else { double m=0; for(int i=0;i<nn;i++) if(!(fabs(v[i]-first[i])<=m)) m=fabs(v[i]-first[i]); VEXPECT(m<1e-7,"solvers-disagree","%s by %g",T,m); free(v); } 
      if(k==0){ sol[q]=e; if(q>0) VEXPECT(e<last*.3||e<1e-8,"no-convergence-with-resolution","%s error %g after %g",T,e,last); last=e; } vh_count("elliptic problems solved",1); }
    if(q==2) VEXPECT(sol[2]<1e-4,"wrong-solution","%s error %g",T,sol[2]); free(first); vlfree(EU);vlfree(EC);vlfree(F);vlfree(D);vlfree(r); vg_free(G); }
  vh_case(1,"elliptic problem %d boxes %d step %d search %d nonlinearity %g errors %g %g %g",seed,nb,mode,ls,en,sol[0],sol[1],sol[2]); }
/* small dimensions */
#define MD 7
static double sA[MD][MD],sC[MD],sX[MD],sB[MD],best; static int sk,sn; static long nev; static void *spar; static double seen[4000]; static int nseen;
static void sF(int n,double *x,double *f){ int i,j; nev++; for(i=1;i<=n;i++){ double s=-sB[i]; for(j=1;j<=n;j++) s+=sA[i][j]*x[j]; s+= sk==0?sC[i]*x[i]*x[i]*x[i] : sk==1?sC[i]*tanh(x[i]) : sk==2?sC[i]*(exp(x[i])-1) : 0; f[i]=s; } if(sk==3){ double q=1; for(i=1;i<=n;i++) q+=x[i]*x[i]; f[1]=q; } if(sk==4) f[n]=x[1]>-1e9?NAN:0; }
static void sFP(int n,double *x,double *f,void *p){ if(p!=spar) vh_fail("parameter-pointer","%s",T); sF(n,x,f); }
static void sJ(int n,double *dx,double *J,double *x,void *p){ int i,j; for(i=1;i<=n;i++){ double s=0; for(j=1;j<=n;j++) s+=sA[i][j]*dx[j]; s+=(sk==0?3*sC[i]*x[i]*x[i]:sk==1?sC[i]/pow(cosh(x[i]),2):sk==2?sC[i]*exp(x[i]):0)*dx[i]; J[i]=s; } }
/* one unknown and one equation that do nothing: the Jacobian is singular, the others must still be solved */
static int qp[MD],qz; static void qF(int n,double *x,double *f){ int i; for(i=1;i<=n;i++){ double d=x[qp[i]]-sX[qp[i]]; f[i]=i==qz?0:sC[i]*d*(1+.1*d*d); } }
static void qFP(int n,double *x,double *f,void *p){ qF(n,x,f); }
static void degenerate(int i0)
{ int n=vh_int(2,MD-1),i,j,chk=-1,ret; double x[MD],x0[MD],f[MD],tol=pow(10,-vh_range(3,9)); for(i=1;i<=n;i++){ sX[i]=vh_range(-2,2); sC[i]=vh_range(.3,2)*(vh_int(0,1)?1:-1); x[i]=x0[i]=vh_range(-3,3); qp[i]=i; } qz=vh_int(1,n); if(vh_int(0,1)) for(i=n;i>1;i--){ j=vh_int(1,i); int t=qp[i]; qp[i]=qp[j]; qp[j]=t; }
  sprintf(T,"singular Jacobian: %d unknowns, equation %d does nothing, unknowns in order %d %d",n,qz,qp[1],qp[2]); vh_at("%s",T); ret=(i0&1)&&!OLD?newton_linesrch_its(x,n,&chk,qF,200,tol):newton_linesrch_itsP(x,n,&chk,qFP,NULL,200,tol); qF(n,x,f); double m=0; for(i=1;i<=n;i++) if(!(fabs(f[i])<=m)) m=fabs(f[i]); VEXPECT(ret>=0&&ret<=200&&m<=tol&&chk==0,"singular-jacobian","%s returned %d check %d residual %g",T,ret,chk,m); VEXPECT(x[qp[qz]]==x0[qp[qz]],"singular-jacobian","%s: idle unknown moved from %g to %g",T,x0[qp[qz]],x[qp[qz]]); vh_count("singular Jacobians",1); vh_case(1,"%s start %g",T,x0[1]); }
static int failat; static double slast;
static int sL(int n,double *b,double *dx,void (*J)(int,double*,double*,double*,void*),int (*pc)(int,double*,double*,double*,void*),double *x,void *p,int itmax,double tol)
{ double M[MD][MD],v[MD],e[MD],f[MD]; int i,j,k; double m=0,r=0; sF(n,x,f); nev--; for(i=1;i<=n;i++){ if(fabs(b[i])>m) m=fabs(b[i]); r+=b[i]*b[i]; if(f[i]!=b[i]) vh_fail("right-hand-side","%s WT_newton",T); } VEXPECT(fabs(tol-m*wfac)<=1e-14*m*wfac,"linear-tolerance","%s WT_newton %g expected %g",T,tol,m*wfac); VEXPECT(itmax==77,"linear-itmax","%s",T); if(slast>=0) VEXPECT(r<=slast*(1+1e-12),"residual-increased","%s WT_newton %g %g",T,r,slast); slast=r; if(failat--==0) return -3;
  for(j=1;j<=n;j++){ for(i=1;i<=n;i++) e[i]=i==j; J(n,e,v,x,p); for(i=1;i<=n;i++) M[i][j]=v[i]; } for(i=1;i<=n;i++) v[i]=b[i]; for(k=1;k<=n;k++){ int q=k; for(i=k;i<=n;i++) if(fabs(M[i][k])>fabs(M[q][k])) q=i; for(j=1;j<=n;j++){ double t=M[k][j]; M[k][j]=M[q][j]; M[q][j]=t; } double t=v[k]; v[k]=v[q]; v[q]=t; for(i=k+1;i<=n;i++){ double w=M[i][k]/M[k][k]; for(j=k;j<=n;j++) M[i][j]-=w*M[k][j]; v[i]-=w*v[k]; } } for(k=n;k>=1;k--){ for(j=k+1;j<=n;j++) v[k]-=M[k][j]*v[j]; v[k]/=M[k][k]; } for(i=1;i<=n;i++) dx[i]=v[i]; return 1; }
static void small(int i0)
{ int n=vh_int(1,MD-1),i,j,which=OLD?i0%5:2+i0%2,chk=-9,ret=0,maxits=vh_int(0,3)?100:vh_int(0,3); double x[MD],f[MD],tol=pow(10,-vh_range(2,9)); sk=vh_int(0,6); if(sk>4) sk=0; if(which==0&&sk>2) sk=0; if(sk==4&&(which<2||maxits==0)) sk=1; sn=n; spar=x; failat=which==4&&vh_int(0,3)==0?vh_int(0,2):-1; int f0=failat; slast=-1; wfac=vh_range(.001,.1); if(which==4&&sk>2) sk=1;
  for(i=1;i<=n;i++){ for(j=1;j<=n;j++) sA[i][j]=i==j?vh_range(1,3):vh_range(-.6,.6)/n; sC[i]=vh_range(0,2); sX[i]=vh_range(-2,2); sB[i]=0; } { int k=sk; if(sk>2) sk=0; sF(n,sX,f); for(i=1;i<=n;i++) sB[i]=f[i]; sk=k; } for(i=1;i<=n;i++) x[i]=vh_int(0,4)?vh_range(-5,5):0; if(vh_int(0,9)==0) for(i=1;i<=n;i++) x[i]=sX[i];
  static const char *nm[]={"newton_lnsrch","newton_lnsrch_its","newton_linesrch_its","newton_linesrch_itsP","WT_newton"}; sprintf(T,"%s %d unknowns, function %d, maxits %d tol %g",nm[which],n,sk,maxits,tol); vh_at("%s",T);
  if(which==0) maxits=200; double x0[MD]; memcpy(x0,x,sizeof x); double s0=0; sF(n,x,f); for(i=1;i<=n;i++) s0+=f[i]*f[i]; int st,pf[2]; (void)pf; 
  fflush(NULL); double *sh=mmap(NULL,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); pid_t p=fork(); if(!p){ alarm(20); if(!freopen("/dev/null","w",stderr)) _exit(1); ret=0; if(which==0) newton_lnsrch(x,n,&chk,sF,maxits,tol); if(which==1) ret=newton_lnsrch_its(x,n,&chk,sF,maxits,tol); if(which==2) ret=newton_linesrch_its(x,n,&chk,sF,maxits,tol); if(which==3) ret=newton_linesrch_itsP(x,n,&chk,sFP,x,maxits,tol); if(which==4) ret=WT_newton(x,n,&chk,sFP,sJ,x,maxits,tol,sL,NULL,77,wfac); sh[0]=ret; sh[1]=chk; for(i=1;i<=n;i++) sh[1+i]=x[i]; fflush(NULL); _exit(0); }
  waitpid(p,&st,0); if(!(WIFEXITED(st)&&WEXITSTATUS(st)==0)){ if(sk<=2) vh_fail("solver-died","%s status %d",T,st); else vh_count("run stopped",1); munmap(sh,4096); vh_case(1,"%s",T); return; }
  ret=sh[0]; chk=sh[1]; for(i=1;i<=n;i++) x[i]=sh[1+i]; munmap(sh,4096); double m=0,r=0,ed=0; sF(n,x,f); for(i=1;i<=n;i++){ if(!(fabs(f[i])<=m)) m=fabs(f[i]); r+=f[i]*f[i]; if(fabs(x[i]-sX[i])>ed) ed=fabs(x[i]-sX[i]); }
  if(sk<=2){ int ok=ret>=0&&ret<=maxits; if(ok) VEXPECT(m<=tol||chk==1||m<1e-11,"unconverged-called-success","%s returned %d check %d residual %g",T,ret,chk,m); if(ok) VEXPECT(chk!=1||m<1e-11,"spurious","%s residual %g",T,m); if(ok) VEXPECT(ed<=20*tol+1e-10,"wrong-root","%s off by %g",T,ed); if(maxits>=100&&f0<0) VEXPECT(ok,"did-not-converge","%s returned %d residual %g",T,ret,m); if(f0>=0&&!ok) vh_count("linear failures reported",ret<0); VEXPECT(r<=s0*(1+1e-12),"residual-increased","%s %g to %g",T,s0,r); if(!ok) VEXPECT(ret<0||ret>maxits,"code","%s",T); vh_count(ok?"small roots":"small failures reported",1); }
  else { VEXPECT(sk==3||ret<0||ret>maxits||chk==1||m<=tol,"rootless-called-success","%s returned %d check %d residual %g",T,ret,chk,m); if(sk==4&&which>=2) VEXPECT(ret<0,"nan-called-success","%s returned %d",T,ret); vh_count("problems without a root",1); }
  vh_case(1,"%s start %g",T,x0[1]);
  { /* range helpers */ double hi[MD],lo[MD],v[MD],vb[MD],vi[MD],fb[MD],fi[MD],fv[MD]; int out=0,z=!OLD; for(i=1;i<=n;i++){ lo[i]=vh_range(-2,0); hi[i]=lo[i]+vh_range(.1,3); v[i]=vh_int(0,2)?vh_range(lo[i],hi[i]):vh_range(-5,5); if(v[i]>hi[i]||v[i]<lo[i]) out=1; } VEXPECT(newton_lnsrch_vec_within_range(n,v+z,hi+z,lo+z)==!out,"range","%s",T); if(out){ newton_lnsrch_set_vecs_for_lininterp(n,v+z,hi+z,lo+z,vb+z,vi+z); int on=0; for(i=1;i<=n;i++){ if(fabs(vb[i]-hi[i])<1e-12||fabs(vb[i]-lo[i])<1e-12) on=1; VEXPECT(vb[i]<=hi[i]&&vb[i]>=lo[i]&&vi[i]<=hi[i]&&vi[i]>=lo[i],"outside-range","%s",T); } VEXPECT(on,"not-on-boundary","%s",T); for(i=1;i<=n;i++){ fb[i]=1; fi[i]=1; fv[i]=1; for(j=1;j<=n;j++){ fb[i]+=sA[i][j]*vb[j]; fi[i]+=sA[i][j]*vi[j]; fv[i]+=sA[i][j]*v[j]; } } double g[MD]; newton_lnsrch_get_fvec_by_lininterp(n,v+z,vb+z,vi+z,g+z,fb+z,fi+z); for(i=1;i<=n;i++) VEXPECT(fabs(g[i]-fv[i])<1e-6,"linear-extrapolation","%s %g expected %g",T,g[i],fv[i]); vh_count("extrapolations",1); } } }
int main(int argc,char **argv)
{ int part=atoi(argv[1]),i,n; vh_init(2000+part); vh_silence();
  if(part<2){ n=vh_n(150,4000); for(i=0;i<n;i++){ vh_reseed(300000+part*10000+i); small(i); if(i%5==0) degenerate(i/5); } }
  else if(part<4){ n=vh_n(2,20); for(i=0;i<n;i++){ vh_reseed(310000+part*1000+i); elliptic(i); } }
  else { n=vh_n(40,500); for(i=0;i<n;i++){ vh_reseed(320000+part*10000+i); newton(i); } }
  vh_end(); return 0; }
