/* field equations of the example physics modules: scalar field on Kerr, flat scalar wave, elliptic test systems.
   Uses the tensor helpers of c24.c */
#define main c24_main
#include "c24.c"
#undef main
int Kerr(tGrid *grid,int i_x,int i_g,int i_gup,int i_Gam,int i_G);
int Kerr3d(tGrid *grid,int i_x,int i_alpha,int i_beta,int i_g,int i_K,int i_TrK,int i_gup,int i_Gam,int i_dG,int i_dalpha,int i_dbeta);
void ScalarOnKerr_evolve(tVarList *unew,tVarList *upre,double dt,tVarList *ucur);
void ScalarOnKerr_evolve_1stO(tVarList *unew,tVarList *upre,double dt,tVarList *ucur);
void ScalarWave_evolve(tVarList *unew,tVarList *upre,double dt,tVarList *ucur);
double ScalarOnKerr_Source(tBox *box,double t,double x,double y,double z);
static const ld H3=0.003L;
#define A4(i) for(i=0;i<4;i++)
static void inv4(M4 m,M4 r)
{ ld a[4][8]; int i,j,k; A4(i) A4(j){ a[i][j]=m[i][j]; a[i][j+4]=i==j; } A4(k){ int p=k; for(i=k+1;i<4;i++) if(fabsl(a[i][k])>fabsl(a[p][k])) p=i; for(j=0;j<8;j++){ ld t=a[k][j]; a[k][j]=a[p][j]; a[p][j]=t; } ld d=a[k][k]; for(j=0;j<8;j++) a[k][j]/=d; A4(i) if(i!=k){ ld f=a[i][k]; for(j=0;j<8;j++) a[i][j]-=f*a[k][j]; } } A4(i) A4(j) r[i][j]=a[i][j+4]; }
/* everything about the background at one point, from the metric alone */
typedef struct { M4 g,gi,dg[4]; ld Gam[4][4][4],G[4]; M3 h,hi,K; T3 dh; ld al,tr; V3 be,dal,G3; M3 dbe; T3 G3d; } bg;
static void lapse_shift(const ld *x,ld *al,ld *be){ M4 g,gi; int a; ks4(x,g); inv4(g,gi); *al=1/sqrtl(-gi[0][0]); F(a) be[a]=-gi[0][a+1]/gi[0][0]; }
static void bg_at(const ld *x,bg *o)
{ int a,b,c,d,i,j,k; memset(o,0,sizeof *o); ks4(x,o->g); inv4(o->g,o->gi); F(c) for(k=1;k<=3;k++){ ld y[3]={x[0],x[1],x[2]},al[2],be[2][3]; M4 p,m; y[c]=x[c]+k*H3; ks4(y,p); lapse_shift(y,&al[0],be[0]); y[c]=x[c]-k*H3; ks4(y,m); lapse_shift(y,&al[1],be[1]); A4(i) A4(j) o->dg[c+1][i][j]+=FD6[k-1]*(p[i][j]-m[i][j])/H3; o->dal[c]+=FD6[k-1]*(al[0]-al[1])/H3; F(a) o->dbe[a][c]+=FD6[k-1]*(be[0][a]-be[1][a])/H3; }
  A4(a) A4(b) A4(c) A4(d) o->Gam[a][b][c]+=0.5L*o->gi[a][d]*(o->dg[b][d][c]+o->dg[c][d][b]-o->dg[d][b][c]); A4(a) A4(b) A4(c) o->G[a]+=o->gi[b][c]*o->Gam[a][b][c];
  lapse_shift(x,&o->al,o->be); F(a) F(b) o->h[a][b]=o->g[a+1][b+1]; inv3(o->h,o->hi); F(c) F(a) F(b) o->dh[c][a][b]=o->dg[c+1][a+1][b+1];
  F(a) F(b) F(c) F(d) o->G3d[a][b][c]+=0.5L*o->hi[a][d]*(o->dh[b][d][c]+o->dh[c][d][b]-o->dh[d][b][c]); F(a) F(b) F(c) o->G3[a]+=o->hi[b][c]*o->G3d[a][b][c];
  /* K_ij = -1/(2 alpha) (d_t g - Lie_beta g) */ F(a) F(b){ ld s=0; F(c) s+=o->be[c]*o->dh[c][a][b]+o->h[a][c]*o->dbe[c][b]+o->h[c][b]*o->dbe[c][a]; o->K[a][b]=s/(2*o->al); } F(a) F(b) o->tr+=o->hi[a][b]*o->K[a][b]; }
static double *BV(tBox *o,const char *n,int k){ return o->v[Ind((char*)n)+k]; }
static const char *SK="ScalarOnKerr";
static void hole(ld M,const ld *a){ char s[60]; int i; sprintf(s,"%.17g",(double)M); Sets("BHmass",s); KM=(double)M; F(i){ sprintf(s,"%.17g",(double)(M*a[i])); char n[8]={'B','H','s',"xyz"[i],0}; Sets(n,s); KA[i]=M!=0?strtod(s,0)/KM:0; } }
static void kerr_call(void){ Kerr(G,Ind("x"),Ind("ScalarOnKerr_gtt"),Ind("ScalarOnKerr_guptt"),Ind("ScalarOnKerr_Gammattt"),Ind("ScalarOnKerr_Gt")); Kerr3d(G,Ind("x"),Ind("ScalarOnKerr3d_alpha"),Ind("ScalarOnKerr3d_betax"),Ind("ScalarOnKerr3d_gxx"),Ind("ScalarOnKerr3d_Kxx"),Ind("ScalarOnKerr3d_TrK"),Ind("ScalarOnKerr3d_gupxx"),Ind("ScalarOnKerr3d_Gammaxxx"),Ind("ScalarOnKerr3d_Gx"),Ind("ScalarOnKerr3d_dalphax"),Ind("ScalarOnKerr3d_dbetaxx")); }
static int s4(int a,int b){ static const int t[4][4]={{0,1,2,3},{1,4,5,6},{2,5,7,8},{3,6,8,9}}; return t[a][b]; }
static void check_background(void)
{ int b; long q; int a,c,d; forallboxes(G,b){ tBox *o=G->box[b]; int step=o->nnodes/60+1; for(q=vh_int(0,step-1);q<o->nnodes;q+=step){ ld x[3]={BV(o,"x",0)[q],BV(o,"y",0)[q],BV(o,"z",0)[q]}; bg B; bg_at(x,&B); 
    ld t=1e-12L*(1+KM)*(1+KM); A4(a) A4(c) if(c>=a){ ecmp(0,"kerr-metric","g_ab",q,BV(o,"ScalarOnKerr_gtt",s4(a,c))[q],B.g[a][c],t); ecmp(1,"kerr-inverse","g^ab",q,BV(o,"ScalarOnKerr_guptt",s4(a,c))[q],B.gi[a][c],t*10); A4(d) ecmp(2,"kerr-christoffel","Gamma^a_bc",q,BV(o,"ScalarOnKerr_Gammattt",10*d+s4(a,c))[q],B.Gam[d][a][c],t*20); } A4(a) ecmp(3,"kerr-G","g^bc Gamma^a_bc",q,BV(o,"ScalarOnKerr_Gt",a)[q],B.G[a],t*20);
    ecmp(4,"kerr-lapse","alpha",q,BV(o,"ScalarOnKerr3d_alpha",0)[q],B.al,t); F(a){ ecmp(5,"kerr-shift","beta",q,BV(o,"ScalarOnKerr3d_betax",a)[q],B.be[a],t); ecmp(6,"kerr-dlapse","d alpha",q,BV(o,"ScalarOnKerr3d_dalphax",a)[q],B.dal[a],t*20); ecmp(7,"kerr-G3","G^i",q,BV(o,"ScalarOnKerr3d_Gx",a)[q],B.G3[a],t*20); F(c){ ecmp(8,"kerr-dshift","d beta",q,BV(o,"ScalarOnKerr3d_dbetaxx",3*a+c)[q],B.dbe[a][c],t*20); if(c>=a){ ecmp(9,"kerr-3metric","g_ij",q,BV(o,"ScalarOnKerr3d_gxx",SI[a][c])[q],B.h[a][c],t); ecmp(10,"kerr-3inverse","g^ij",q,BV(o,"ScalarOnKerr3d_gupxx",SI[a][c])[q],B.hi[a][c],t*10); ecmp(11,"kerr-K","K_ij",q,BV(o,"ScalarOnKerr3d_Kxx",SI[a][c])[q],B.K[a][c],t*20); F(d) ecmp(12,"kerr-3christoffel","Gamma^i_jk",q,BV(o,"ScalarOnKerr3d_Gammaxxx",6*d+SI[a][c])[q],B.G3d[d][a][c],t*20); } } } ecmp(13,"kerr-trK","TrK",q,BV(o,"ScalarOnKerr3d_TrK",0)[q],B.tr,t*20); vh_count("points of the Kerr background",1); } } }
/* polynomials in x,y,z of total degree <=3, with all derivatives */
typedef struct { ld c[4][4][4]; } poly;
static void poly_rand(poly *p,int deg,ld amp,ld r){ int i,j,k; for(i=0;i<4;i++) for(j=0;j<4;j++) for(k=0;k<4;k++) p->c[i][j][k]=i+j+k<=deg?amp*vh_range(-1,1)/powl(r,i+j+k):0; }
static ld dpow(ld x,int n,int d){ ld r=1; int k; for(k=0;k<d;k++) r*=n-k; if(n<d) return 0; for(k=0;k<n-d;k++) r*=x; return r; }
static ld poly_d(const poly *p,const ld *x,int a,int b,int c){ ld s=0; int i,j,k; for(i=0;i<4;i++) for(j=0;j<4;j++) for(k=0;k<4;k++) if(p->c[i][j][k]!=0) s+=p->c[i][j][k]*dpow(x[0],i,a)*dpow(x[1],j,b)*dpow(x[2],k,c); return s; }
static void poly_jet(const poly *p,const ld *x,jet *j){ int a,b; j->v=poly_d(p,x,0,0,0); F(a){ int e[3]={0}; e[a]++; j->d[a]=poly_d(p,x,e[0],e[1],e[2]); F(b){ int f[3]={e[0],e[1],e[2]}; f[b]++; j->dd[a][b]=poly_d(p,x,f[0],f[1],f[2]); } } }
static ld y22source(ld t,const ld *x){ ld r=sqrtl(x[0]*x[0]+x[1]*x[1]+x[2]*x[2]),s2=(x[0]*x[0]+x[1]*x[1])/(r*r),ph=atan2l(x[1],x[0]),N=sqrtl(5/(96*LPI))*3,q22=4*LPI/(10*sqrtl(0.7L))*N,Om=sqrtl(1/1000.0L); return -q22/10*expl(-(r-10)*(r-10))/sqrtl(LPI)*cosl(2*(Om*t-ph))*N*s2; }
static int sk_done; /* the source keeps its mass: BHmass=1 whenever it is evaluated */
static void part_kerr(int rhs)
{ int nb=rhs?vh_int(1,3):vh_int(1,2),b,a,c,k,first=rhs&&vh_int(0,1),scheel=vh_int(0,1),cp=vh_int(0,1); long q; vg_reset(); T[0]=0; sk_done=1; vg_par("physics=ScalarOnKerr"); vg_par("nboxes=%d",nb); vg_par("Coordinates_set_bfaces=no"); vg_par("ScalarOnKerr_OutputForce=no"); vg_par("ScalarOnKerr_DisableUnusedVars=no"); vg_par("ScalarOnKerr_sourcetype=Y22test"); vg_par("ScalarOnKerr_overlap_shells=no");
  vg_par("ScalarOnKerr_1stOrder_inSpace=%s",first?"yes":"no"); vg_par("ScalarOnKerr_Pi_def=%s",scheel||first?"ScheelsPi":"psidot"); vg_par("ScalarOnKerr_outerBC=%s",cp?"constraintPreserving":"standard"); int reset=vh_int(0,1); vg_par("ScalarOnKerr_reset_doubleCoveredPoints=%s",reset?"yes":"no"); if(vh_int(0,1)) vg_par("evolution_method=rk");
  double r0=vh_int(0,1)?vh_range(1.9,3):vh_range(6,11),rin=r0; int n2=2*vh_int(5,7),n3=vh_int(9,13); if(reset&&n3%2) n3++; for(b=0;b<nb;b++){ double r1=r0+vh_range(0.5,3),bb[6]={r0,r1,0,2*PI,0,2*PI}; vg_par("box%d_Coordinates=SphericalDF",b); int n1=vh_int(6,12); vg_box(b,n1,n2,n3,"ChebExtrema","Fourier","Fourier",bb); vg_par("box%d_min2=0",b); vg_par("box%d_max2=2*pi",b); vg_par("box%d_min3=0",b); vg_par("box%d_max3=2*pi",b); r0=r1; }
  vg_par("BHmass=1"); vh_at("%s",vg_desc); G=vg_make(1); G->dt=vh_range(0.01,0.3); RunFun(PRE_INITIALDATA,G); RunFun(INITIALDATA,G); RunFun(POST_INITIALDATA,G); extern tVarList *ScalarOnKerrvars; tVarList *V=ScalarOnKerrvars; 
  for(b=0;b<nb;b++) for(k=0;k<2;k++) for(q=0;q<G->box[b]->nnodes;q++) VEXPECT(G->box[b]->v[V->index[k]][q]==0,"kerr-initial","field not zero at the start");
  ld av[3]={0},M=vh_int(0,2)?vh_range(0.2,1.2):1; if(vh_int(0,3)==0) M=1; if(vh_int(0,2)) F(a) av[a]=vh_range(-.55,.55)*fminl(M,1); if(vh_int(0,7)==0){ M=0; F(a) av[a]=0; } hole(M,av); kerr_call(); Sets("BHmass","1");
  snprintf(T,sizeof T,"%s, M=%Lg a=(%Lg,%Lg,%Lg), %d shells from %g n2=%d n3=%d, %s Pi, %s",first?"first order":"second order",KM,KA[0],KA[1],KA[2],nb,rin,n2,n3,scheel||first?"Scheel's":"psidot",cp?"CP":"standard"); check_background();
  if(rhs){ tVarList *up=AddDuplicateEnable(V,"_p"),*un=AddDuplicateEnable(V,"_n"); poly P,D; ld am=vh_int(0,3)?1:0; poly_rand(&P,vh_int(0,3),am,r0); poly_rand(&D,vh_int(0,3),am,r0); double t=vh_int(0,2)?vh_range(0,300):0,dt=vh_int(0,1)||n3%2?0:G->dt; V->time=t; V->grid=up->grid=un->grid=G;
    for(b=0;b<nb;b++){ tBox *o=G->box[b]; for(q=0;q<o->nnodes;q++){ ld x[3]={BV(o,"x",0)[q],BV(o,"y",0)[q],BV(o,"z",0)[q]}; jet p; poly_jet(&P,x,&p); o->v[V->index[0]][q]=p.v; jet d; poly_jet(&D,x,&d); o->v[V->index[1]][q]=d.v; if(first) F(a) o->v[V->index[4+a]][q]=p.d[a]; for(k=0;k<V->n;k++) o->v[up->index[k]][q]=k<2||(k>=4&&k<7)?vh_range(-1,1):0; } if(dt!=0&&nb>1&&b){ /* continuous across the faces as evolved data are */ tBox *l=G->box[b-1]; int j,m; for(m=0;m<n3;m++) for(j=0;j<n2;j++) for(k=0;k<V->n;k++) o->v[up->index[k]][Ind_n1n2(0,j,m,o->n1,n2)]=l->v[up->index[k]][Ind_n1n2(l->n1-1,j,m,l->n1,n2)]; } }
    /* double covered points hold the same values */ if(dt!=0) reset_doubleCoveredPoints(up);
    if(first) ScalarOnKerr_evolve_1stO(un,up,dt,V); else ScalarOnKerr_evolve(un,up,dt,V);
    long out=0; for(b=0;b<nb;b++){ tBox *o=G->box[b]; double rr0=o->bbox[0],rr1=o->bbox[1]; int n1=o->n1; double *np[4]; for(k=0;k<4;k++) np[k]=calloc(o->nnodes,8); if(first&&b==nb-1){ for(q=0;q<o->nnodes;q++){ ld x[3]={BV(o,"x",0)[q],BV(o,"y",0)[q],BV(o,"z",0)[q]},al,be[3]; lapse_shift(x,&al,be); np[0][q]=-al*poly_d(&D,x,0,0,0)+be[0]*poly_d(&P,x,1,0,0)+be[1]*poly_d(&P,x,0,1,0)+be[2]*poly_d(&P,x,0,0,1); } cart_partials(o,np[0],np[1],np[2],np[3]); }
      for(q=0;q<o->nnodes;q++){ int i=q%n1,outer=b==nb-1&&i==n1-1,face=(i==0&&b>0)||(i==n1-1&&b<nb-1); ld x[3]={BV(o,"x",0)[q],BV(o,"y",0)[q],BV(o,"z",0)[q]},r=sqrtl(x[0]*x[0]+x[1]*x[1]+x[2]*x[2]); bg B; bg_at(x,&B); jet p,d; poly_jet(&P,x,&p); poly_jet(&D,x,&d);
      /* psi_t and its gradient from psi and Pi */
      int sch=scheel||first; ld pt,dpt[3]; pt=sch?-B.al*d.v:d.v; F(a){ if(sch) pt+=B.be[a]*p.d[a]; dpt[a]=sch?-B.al*d.d[a]-B.dal[a]*d.v:d.d[a]; if(sch) F(c) dpt[a]+=B.dbe[c][a]*p.d[c]+B.be[c]*p.dd[c][a]; }
      ld rho=y22source(t,x),s=-rho; F(a){ s+=2*B.gi[0][a+1]*dpt[a]-B.G[a+1]*p.d[a]; F(c) s+=B.gi[a+1][c+1]*p.dd[a][c]; } s-=B.G[0]*pt; ld ptt=-s/B.gi[0][0];
      ld rPi=ptt; if(sch){ rPi=-ptt/B.al; F(a) rPi+=B.be[a]*dpt[a]/B.al; } ld sc=1+fabsl(ptt)+fabsl(pt); F(a){ sc+=fabsl(dpt[a]); F(c) sc+=fabsl(p.dd[a][c]); }
      ld tol=2e-10L*sc*(1+4/((ld)(rr1-rr0)*(rr1-rr0)))*(dt!=0?1:1); double g[7]; for(k=0;k<7;k++){ if(k>1&&(k<4||!first)) continue; g[k]=o->v[un->index[k]][q]; if(dt!=0) g[k]=(g[k]-o->v[up->index[k]][q])/dt; }
      ld ro=rho/( -B.gi[0][0]); (void)ro;
      if(!first){ if(!outer){ ecmp(14+face,"kerr-wave-psi","rate of psi",q,g[0],pt,tol*(face?3+3/G->dt:1)); ecmp(16+face,"kerr-wave-Pi","rate of Pi",q,g[1],rPi,tol*(face?3+30/G->dt:1)); }
        else { /* outgoing */ ld n[3],bn=0,gnn=0,Gn=0,tr=0,dn=0; F(a){ n[a]=x[a]/r; bn+=B.gi[0][a+1]*n[a]; Gn+=B.G[a+1]*n[a]; tr+=B.gi[a+1][a+1]; dn+=n[a]*d.d[a]; } F(a) F(c) gnn+=B.gi[a+1][c+1]*n[a]*n[c]; ld a2=-1/B.gi[0][0]; bn*=a2; ld lam=bn+sqrtl(bn*bn+a2*gnn),ap=lam/(a2*gnn),cq=0.5L*((tr-gnn)/r-Gn)/gnn; ecmp(18,"kerr-wave-outer","rate of Pi at the outer boundary",q,g[1],-(dn+cq*d.v)/ap,tol*3); out++; } }
      else { if(!outer){ ecmp(19,"kerr-wave1-psi","rate of psi",q,g[0],pt,tol); ecmp(20,"kerr-wave1-Pi","rate of Pi",q,g[1],rPi,tol*3); F(a) ecmp(21,"kerr-wave1-phi","rate of phi",q,g[4+a],dpt[a],tol*3); }
        else if(dt==0){ ld n[3],gnn=0,cu[3]={0},cl[3]; F(a) n[a]=x[a]/r; F(a) F(c) gnn+=B.hi[a][c]*n[a]*n[c]; F(a) cl[a]=n[a]/sqrtl(gnn); F(a) F(c) cu[a]+=B.hi[a][c]*cl[c]; ld ps=pt; if(cp){ ps=-p.v/r; F(a) ps-=cu[a]*p.d[a]; } ecmp(22,"kerr-wave1-outer","rate of psi at the outer boundary",q,g[0],ps,tol);
          /* ingoing mode and transverse part prescribed, outgoing from the bulk equations; the gradient of psi_t is that of the values on the grid */
          out++; ld ub=rPi,cph=0; F(a) ub+=cu[a]*dpt[a]; F(a) cph+=cu[a]*g[4+a]; ecmp(23,"kerr-wave1-outgoing","outgoing mode",q,g[1]+cph,cp?0*ub+(g[1]+cph):ub,tol*10); if(!cp){ ecmp(24,"kerr-wave1-ingoing","ingoing mode",q,g[1]-cph,-d.v/r,tol*10); ld pc=0; F(a) pc+=cu[a]*np[a+1][q]; F(a) ecmp(25,"kerr-wave1-transverse","transverse mode",q,g[4+a]-cph*cl[a],np[a+1][q]-pc*cl[a],tol*10); } } }
      vh_count("points of the scalar field equation",1); } for(k=0;k<4;k++) free(np[k]); }
    vh_count("points with an outgoing boundary condition",out); vlfree(up); vlfree(un); }
  vh_case(1,"%s",T); vg_free(G); RunFun(LAST,0); vlfree(V); }

/* ---- elliptic example systems ---- */
void F_Poisson(tVarList *a,tVarList *b,tVarList *c,tVarList *d);  void J_Poisson(tVarList *a,tVarList *b,tVarList *c,tVarList *d);
void F_Poisson2(tVarList *a,tVarList *b,tVarList *c,tVarList *d); void J_Poisson2(tVarList *a,tVarList *b,tVarList *c,tVarList *d);
void F_Poisson3(tVarList *a,tVarList *b,tVarList *c,tVarList *d); void J_Poisson3(tVarList *a,tVarList *b,tVarList *c,tVarList *d);
int Poisson_startup(tGrid *g); int Poisson2_startup(tGrid *g); int Poisson3_startup(tGrid *g); int Poisson_analyze(tGrid *g); int Poisson3_analyze(tGrid *g);
static char M_[20]; /* module */
static int vi(const char *n){ char s[60]; snprintf(s,60,"%s_%s",M_,n); return Ind(s); }
typedef struct { tVarList *Fu,*u,*all,*x,*Jv,*v; void (*f)(tVarList*,tVarList*,tVarList*,tVarList*),(*J)(tVarList*,tVarList*,tVarList*,tVarList*); int mod; } ell;
static void evalF(ell *e){ e->f(e->Fu,e->u,e->all,e->x); }
static tVarList *vl3(const char *a,int d,const char *b){ tVarList *l=vlalloc(G); char s[40]; if(!d){ vlpush(l,vi(a)); vlpush(l,vi(b)); } else { const char *n[2]={a,b}; int k; for(k=0;k<2;k++){ if(d==2) vlpush(l,vi(n[k])); sprintf(s,"%sx",n[k]); vlpush(l,vi(s)); sprintf(s,"%sxx",n[k]); vlpush(l,vi(s)); } if(d==2){ vlpush(l,vi("rh1")); vlpush(l,vi("rh2")); } } return l; }
static long tot(void){ long n=0; int b; forallboxes(G,b) n+=G->box[b]->nnodes; return n; }
static void getv(tVarList *l,double *o){ int b,k; for(k=0;k<2;k++) forallboxes(G,b){ memcpy(o,G->box[b]->v[l->index[k]],8*G->box[b]->nnodes); o+=G->box[b]->nnodes; } }
static void setv(tVarList *l,const double *a,const double *v,double eps){ int b,k,q; for(k=0;k<2;k++) forallboxes(G,b){ double *p=G->box[b]->v[l->index[k]]; for(q=0;q<G->box[b]->nnodes;q++){ p[q]=*a+eps**v; a++; v++; } } }
/* J v = (8 (F(u+v)-F(u-v)) - (F(u+2v)-F(u-2v)))/12 is exact for polynomials up to degree 4 */
static void check_lin(ell *e,tVarList *Jarg3)
{ long n=2*tot(),q; double *u=malloc(8*n),*v=malloc(8*n),*f[5],*J=malloc(8*n),mx=0; int k; for(k=0;k<5;k++) f[k]=malloc(8*n); double au=vh_range(.3,2),av=vh_range(.3,2); int kind=vh_int(0,3); long pick=vh_int(0,n-1);
  for(q=0;q<n;q++){ u[q]=au*vh_range(-1,1); v[q]=kind==0?(q==pick):kind==1?(q<n/2?av*vh_range(-1,1):0):kind==2?(q>=n/2?av*vh_range(-1,1):0):av*vh_range(-1,1); }
  { int st[5]={-2,-1,1,2,0}; for(k=0;k<5;k++){ setv(e->u,u,v,st[k]); evalF(e); getv(e->Fu,f[k]); } }
  setv(e->v,v,v,0); if(e->mod==1) e->J(e->Jv,e->v,Jarg3,e->u); else e->J(e->Jv,e->v,e->all,Jarg3); getv(e->Jv,J);
  for(q=0;q<n;q++) for(k=0;k<5;k++) if(fabs(f[k][q])>mx) mx=fabs(f[k][q]);
  for(q=0;q<n;q++){ double d=(8*(f[2][q]-f[1][q])-(f[3][q]-f[0][q]))/12; ecmp(26,"elliptic-linear","J v",q,J[q],d,1e-12L*mx*(1+n/2000)); }
  vh_count("components of a linearised system",n); for(k=0;k<5;k++) free(f[k]); free(u); free(v); free(J); }
static void sphere_box(int b,double r0,double r1,int n1,int n2,int n3){ double bb[6]={r0,r1,0,2*PI,0,2*PI}; vg_par("box%d_Coordinates=SphericalDF",b); vg_box(b,n1,n2,n3,"ChebExtrema","Fourier","Fourier",bb); }
static void part_ell(int what)
{ int mod=what==0?1:what==1?2:3,nb=1,b,k; int cart=0,cs=0,ab=0; long q; ell e; memset(&e,0,sizeof e); vg_reset(); sprintf(M_,mod==1?"Poisson":"Poisson%d",mod); vg_par("physics=%s",M_); T[0]=0; double r0=0,r1=0;
  vg_par("Coordinates_set_bfaces=no"); vg_par("Coordinates_useDD=%s",vh_int(0,1)?"yes":"no"); vg_par("CoordinateTransforms_stored=%s",vh_int(0,1)?"yes":"no"); if(mod==1) vg_par("Poisson_useDD=%s",vh_int(0,1)?"yes":"no");
  if(mod<3){ int kind=mod==2?0:vh_int(0,2); if(kind<2){ r0=vh_range(.4,2); r1=r0+vh_range(.5,2); nb=1; vg_par("nboxes=1"); sphere_box(0,r0,r1,vh_int(5,8),2*vh_int(4,6),vh_int(8,12)); vg_par("%s_grid=SphericalDF",M_); snprintf(T,sizeof T,"SphericalDF %g..%g",r0,r1); }
    else { ab=1; nb=6; int z=vh_int(0,2),n1=vh_int(5,8),n2=vh_int(5,8),n3=z?vh_int(4,6):4,nc=vh_int(4,6),ex=vh_int(0,1); const char *reg[3]={"none","regularity_on_axis","regularity_on_axis_at_center"}; if(ex){ n1=n2=18; n3=4; nc=8; z=0; } vg_par("nboxes=6"); vg_par("Poisson_grid=4ABphi_2xyz"); vg_par("Poisson_regularization=%s",reg[vh_int(0,2)]); vg_par("Poisson_guess=exact");
      for(b=0;b<4;b++){ double bb[6]={0,b==0||b==3?0.5:1,0,1,0,2*PI}; vg_par("box%d_Coordinates=AnsorgNS%d",b,b); vg_box(b,n1,n2,n3,"ChebExtrema",z?"ChebZeros":"ChebExtrema","Fourier",bb); }
      double c4[6]={-1.35,-0.75,-.3,.3,-.3,.3},c5[6]={.7,1.4,-.35,.35,-.35,.35}; vg_box(4,nc,nc,nc,"ChebExtrema","ChebExtrema","ChebExtrema",c4); vg_par("box4_Coordinates=Cartesian"); vg_box(5,nc,nc,nc,"ChebExtrema","ChebExtrema","ChebExtrema",c5); vg_par("box5_Coordinates=Cartesian"); cart=0; ab=1+ex; snprintf(T,sizeof T,"two stars, %d %d %d, %s",n1,n2,n3,z?"ChebZeros":"ChebExtrema"); } }
  else { int kind=vh_int(0,3); if(kind<2){ cart=1; nb=1+vh_int(0,1); vg_par("nboxes=%d",nb); vg_par("Coordinates_set_bfaces=yes"); vg_par("Coordinates_SetFaces=yes"); int n[3],a; F(a) n[a]=vh_int(5,9); double lo=-vh_range(.4,1.2),hi=vh_range(.4,1.2),y0=-vh_range(.4,1),y1=vh_range(.4,1),z0=-vh_range(.4,1),z1=vh_range(.4,1); int dir=vh_int(0,2);
      for(b=0;b<nb;b++){ double B[6]={lo,hi,y0,y1,z0,z1}; if(nb==2){ if(b==0) B[2*dir]=0; else B[2*dir+1]=0; } vg_box(b,n[0],n[1],n[2],"ChebExtrema","ChebExtrema","ChebExtrema",B); } snprintf(T,sizeof T,"%d Cartesian boxes, %d %d %d, direction %d",nb,n[0],n[1],n[2],dir); }
    else { cs=1; vg_par("Coordinates_useDD=no"); nb=kind==2?13:26; int n=vh_int(4,6); vg_par("nboxes=%d",nb); vg_par("n1=%d",n); vg_par("n2=%d",n); vg_par("n3=%d",n); vg_par("Poisson3_grid=%s",nb==26&&vh_int(0,1)?"2starcubes":"CubedSpheres"); snprintf(T,sizeof T,"%d cubed sphere boxes n=%d",nb,n); } }
  vh_at("%s",vg_desc); G=vg_make(1); if(mod==1) Poisson_startup(G); else if(mod==2) Poisson2_startup(G); else Poisson3_startup(G);
  if(mod==1){ e.u=vl3("Psi",0,"Chi"); e.all=vl3("Psi",1,"Chi"); e.x=vl3("rh1",0,"rh2"); e.f=F_Poisson; e.J=J_Poisson; } else { e.u=vl3("Psi",0,"Chi"); e.all=vl3("Psi",2,"Chi"); e.f=mod==2?F_Poisson2:F_Poisson3; e.J=mod==2?J_Poisson2:J_Poisson3; }
  e.mod=mod; enablevarlist(e.u); enablevarlist(e.all); e.Fu=AddDuplicateEnable(e.u,"_Err"); e.Jv=AddDuplicateEnable(e.Fu,"_l"); e.v=AddDuplicateEnable(e.u,"_l"); tVarList *la=AddDuplicateEnable(e.all,"_l"); if(mod==1) enablevarlist(e.x); else e.x=la;
  int ir1=vi("rh1"),ir2=vi("rh2");
  if(ab==2){ /* the exact solution: both equations, regularity and interface conditions hold to the accuracy of the grid */ evalF(&e); double mx=0; forallboxes(G,b) for(k=0;k<2;k++) for(q=0;q<G->box[b]->nnodes;q++){ double f=fabs(G->box[b]->v[e.Fu->index[k]][q]); if(f>mx||!(f==f)){ mx=f; } } ecmp(27,"two-star-solution","largest residual of the exact solution",0,mx,0,1.5e-3L); Poisson_analyze(G); mx=0; forallboxes(G,b) for(k=0;k<2;k++){ double *p=G->box[b]->v[vi(k?"Err_Chi":"Err_Psi")]; for(q=0;q<G->box[b]->nnodes;q++) if(fabs(p[q])>mx) mx=fabs(p[q]); } ecmp(28,"two-star-error","error given for the exact solution",0,mx,0,1e-11L); vh_count("two star solutions",1); }
  forallboxes(G,b) for(q=0;q<G->box[b]->nnodes;q++){ G->box[b]->v[ir1][q]=vh_range(-1,1); G->box[b]->v[ir2][q]=vh_range(-1,1); }
  check_lin(&e,mod==1?la:la); if(vh_int(0,1)) check_lin(&e,la);
  /* polynomial fields: the equations inside, the stated values at the outer boundaries */
  if(!cs&&!ab){ poly P[2]; for(k=0;k<2;k++) poly_rand(&P[k],3,vh_range(.2,2),1); forallboxes(G,b){ tBox *o=G->box[b]; for(q=0;q<o->nnodes;q++){ ld x[3]={o->v[Ind("x")]?BV(o,"x",0)[q]:BV(o,"X",0)[q],o->v[Ind("x")]?BV(o,"y",0)[q]:BV(o,"Y",0)[q],o->v[Ind("x")]?BV(o,"z",0)[q]:BV(o,"Z",0)[q]}; for(k=0;k<2;k++) o->v[e.u->index[k]][q]=poly_d(&P[k],x,0,0,0); } }
    evalF(&e); forallboxes(G,b){ tBox *o=G->box[b]; int n1=o->n1,n2=o->n2,n3=o->n3; for(q=0;q<o->nnodes;q++){ int i=q%n1,j=(q/n1)%n2,l=q/(n1*n2); ld x[3]={o->v[Ind("x")]?BV(o,"x",0)[q]:BV(o,"X",0)[q],o->v[Ind("x")]?BV(o,"y",0)[q]:BV(o,"Y",0)[q],o->v[Ind("x")]?BV(o,"z",0)[q]:BV(o,"Z",0)[q]},r=sqrtl(x[0]*x[0]+x[1]*x[1]+x[2]*x[2]); jet p,c; poly_jet(&P[0],x,&p); poly_jet(&P[1],x,&c); ld w[2]; int edge=cart?(i==0||i==n1-1||j==0||j==n2-1||l==0||l==n3-1):(i==0||i==n1-1),inner=0;
      if(cart&&nb==2&&edge){ int a,pos[3]={i,j,l},nn[3]={n1,n2,n3},on=0,oth=0; F(a) if(pos[a]==0||pos[a]==nn[a]-1){ if(fabsl(x[a])<1e-12L) on=1; else oth=1; } inner=on&&!oth; if(on&&oth) continue; }
      if(!edge){ w[0]=p.dd[0][0]+p.dd[1][1]+p.dd[2][2]; w[1]=c.dd[0][0]+c.dd[1][1]+c.dd[2][2]; if(mod==3){ w[0]=c.v*p.dd[0][0]+p.dd[1][1]+c.v*c.v*p.dd[2][2]; w[1]=c.dd[0][0]+p.d[0]*c.dd[1][1]+c.dd[2][2]; } w[0]-=o->v[ir1][q]; w[1]-=o->v[ir2][q]; }
      else if(inner) w[0]=w[1]=0; else if(mod<3) for(k=0;k<2;k++) w[k]=(k?c.v:p.v)-(i==0?1.0L:0.5L)*(k+1); else { w[0]=p.v-erfl(r)/(4*LPI*r); w[1]=c.v-1; }
      for(k=0;k<2;k++){ char nm[60]; snprintf(nm,60,"%s residual",edge?inner?"interface":"boundary":"interior"); ecmp(29,"elliptic-equation",nm,q,o->v[e.Fu->index[k]][q],w[k],edge&&!inner?1e-13L*(10+fabsl(p.v)+fabsl(c.v)):2e-9L*(1+r*r)*(1+fabsl(w[k]))); } vh_count("residuals of an elliptic system",2); } } }
  vh_case(1,"%s %s useDD=%s stored=%s",M_,T,Gets("Coordinates_useDD"),Gets("CoordinateTransforms_stored")); vlfree(e.u); vlfree(e.all); vlfree(e.Fu); vlfree(e.Jv); vlfree(e.v); vlfree(la); if(mod==1) vlfree(e.x); vg_free(G); }
/* ---- scalar wave ---- */
static void part_swave(void)
{ int nb=vh_int(1,2),b,k,sph=vh_int(0,1); long q; vg_reset(); T[0]=0; vg_par("physics=ScalarWave ADMvars"); vg_par("nboxes=%d",nb); vg_par("Coordinates_set_bfaces=no"); vg_par("boundary=none"); vg_par("evolve_Dissipation=no"); vg_par("dt=0.1"); vg_par("0doutput=ScalarWave_rho"); vg_par("0doutiter=1"); int shell[2];
  double A=vh_range(.2,3),sg=vh_range(.5,2),R0=vh_range(0,3),s[3],c[3],nl=vh_int(0,1)?vh_range(-3,3):0; int i; F(i){ s[i]=vh_range(.5,2); c[i]=vh_range(-2,2); vg_par("ScalarWave_sigma%c=%.17g","xyz"[i],s[i]); vg_par("ScalarWave_%c0=%.17g","xyz"[i],c[i]); } vg_par("ScalarWave_A=%.17g",A); vg_par("ScalarWave_sigma=%.17g",sg); vg_par("ScalarWave_r0=%.17g",R0); vg_par("ScalarWave_waveform=%s",sph?"spherical":"gaussian"); vg_par("ScalarWave_nonlinearity=%.17g",nl);
  double r=vh_range(.5,2); for(b=0;b<nb;b++){ shell[b]=vh_int(0,1); if(shell[b]){ double r1=r+vh_range(.5,2); sphere_box(b,r,r1,vh_int(5,8),2*vh_int(4,6),vh_int(8,11)); r=r1; } else { double x=3*b+vh_range(.1,.4),bb[6]={x,x+vh_range(.5,1.5),vh_range(-1,-.2),vh_range(.2,1),vh_range(-1,-.2),vh_range(.2,1)}; vg_box(b,vh_int(5,9),vh_int(5,9),vh_int(5,9),"ChebExtrema","ChebExtrema","ChebExtrema",bb); vg_par("box%d_Coordinates=Cartesian",b); } }
  vh_at("%s",vg_desc); G=vg_make(1); G->dt=0.1; RunFun(POST_INITIALDATA,G); int ip=Ind("ScalarWave_psi"),id=Ind("ScalarWave_psidot");
  forallboxes(G,b){ tBox *o=G->box[b]; for(q=0;q<o->nnodes;q++){ int i1=q%o->n1; ld x[3],rr,f,df=0; F(i) x[i]=o->v[Ind("x")]?o->v[Ind("x")+i][q]:o->v[Ind("X")+i][q]; rr=sqrtl(x[0]*x[0]+x[1]*x[1]+x[2]*x[2]); if(sph){ f=A*expl(-(rr-R0)*(rr-R0)/(2*(ld)sg*sg)); df=-(rr-R0)*f/((ld)sg*sg); } else { ld e=0; F(i) e+=(x[i]-c[i])*(x[i]-c[i])/(2*(ld)s[i]*s[i]); f=A*expl(-e); F(i) df-=f*(x[i]-c[i])*x[i]/(rr*(ld)s[i]*s[i]); }
      f/=rr; df/=rr; if(i1==0||i1==o->n1-1) f=df=0; ecmp(30,"wave-initial","psi",q,o->v[ip][q],f,1e-13L*(1+fabsl(f))); ecmp(31,"wave-initial","psidot",q,o->v[id][q],df,1e-12L*(1+fabsl(df)+A/rr*10)); vh_count("initial values of the wave",2); } }
  tVarList *V=vlalloc(G); vlpush(V,ip); vlpush(V,id); tVarList *up=AddDuplicateEnable(V,"_p"),*un=AddDuplicateEnable(V,"_n"); poly P,D; poly_rand(&P,3,vh_range(.2,2),r); poly_rand(&D,3,1,r); double dt=vh_int(0,1)?vh_range(.01,.5):0;
  forallboxes(G,b){ tBox *o=G->box[b]; for(q=0;q<o->nnodes;q++){ ld x[3]; F(i) x[i]=o->v[Ind("x")]?o->v[Ind("x")+i][q]:o->v[Ind("X")+i][q]; o->v[ip][q]=poly_d(&P,x,0,0,0); o->v[id][q]=poly_d(&D,x,0,0,0); for(k=0;k<2;k++) o->v[up->index[k]][q]=vh_range(-1,1); } }
  ScalarWave_evolve(un,up,dt,V); G->iteration=0; G->time=0; { int ScalarWave_analyze(tGrid *g); ScalarWave_analyze(G); }
  forallboxes(G,b){ tBox *o=G->box[b]; for(q=0;q<o->nnodes;q++){ ld x[3]; F(i) x[i]=o->v[Ind("x")]?o->v[Ind("x")+i][q]:o->v[Ind("X")+i][q]; jet p; poly_jet(&P,x,&p); ld d=poly_d(&D,x,0,0,0),w[2],t; w[0]=d; w[1]=p.dd[0][0]+p.dd[1][1]+p.dd[2][2]-nl*p.v*p.v*p.v/(1+p.v*p.v); t=1e-9L*(1+x[0]*x[0]+x[1]*x[1]+x[2]*x[2])*(1+fabsl(w[1])+fabsl(p.v));
      for(k=0;k<2;k++){ double g=o->v[un->index[k]][q]; if(dt!=0) w[k]=o->v[up->index[k]][q]+dt*w[k]; ecmp(32,"wave-equation",k?"rate of psidot":"rate of psi",q,g,w[k],k?t:1e-13L*(1+fabsl(w[0]))); }
      ld rho=.5L*(d*d+p.d[0]*p.d[0]+p.d[1]*p.d[1]+p.d[2]*p.d[2]+nl*(p.v*p.v-log1pl(p.v*p.v))); ecmp(33,"wave-energy","energy density",q,BV(o,"ScalarWave_rho",0)[q],rho,t*(1+fabsl(rho))); vh_count("rates of the wave equation",2); } }
  vh_case(1,"scalar wave %s A=%g nl=%g %d boxes dt=%g",sph?"spherical":"gaussian",A,nl,nb,dt); vlfree(up); vlfree(un); vlfree(V); vg_free(G); RunFun(LAST,0); }
int main(int c,char **v)
{ int s=c>1?atoi(v[1]):0,i,n,m; vh_init(2700+s); vh_silence(); n=vh_n(4,10); m=vh_n(2,4); for(i=0;i<n;i++){ vh_reseed(270000+100*s+i); if(i==0) part_kerr(0); part_kerr(1); } for(i=0;i<3*m;i++){ vh_reseed(270050+100*s+i); part_ell(i%3); } for(i=0;i<m;i++){ vh_reseed(270080+100*s+i); part_swave(); }
  if(getenv("WORST")) for(i=0;i<40;i++) if(exact_worst[i]>0) fprintf(stderr,"%d %Lg\n",i,exact_worst[i]); vh_end(); return 0; }
