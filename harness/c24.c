/* relativity modules against tensor calculus of our own (long double, plain index sums) */
#include "vgrid.h"
#include "f1.h"
void BSSN_rhs(tVarList *unew,tVarList *upre,double c,tVarList *ucur);
void Z4secondO_rhs(tVarList *unew,tVarList *upre,double c,tVarList *ucur);
void ADMtoBSSN(tGrid *g); int BSSNtoADM(tGrid *g); int BSSN_enforce_AlgConstr(tGrid *g); void ADMconstraints(tVarList *u); int set_K_initial(tGrid *g); int ADMvars_undo_conformal_split(tGrid *g); int computeADMconstraints(tGrid *g);
void cart_partials(tBox *box,double *u,double *u1,double *u2,double *u3);
extern tVarList *psiandderivs,*K_initial;
#define F(i) for(i=0;i<3;i++)
typedef ld V3[3]; typedef ld M3[3][3]; typedef ld T3[3][3][3]; typedef ld Q3[3][3][3][3];
static tGrid *G; static char T[1500];
/* ---------------------------------------------------------------- tensor calculus */
static ld det3(M3 g){ return g[0][0]*(g[1][1]*g[2][2]-g[1][2]*g[2][1])-g[0][1]*(g[1][0]*g[2][2]-g[1][2]*g[2][0])+g[0][2]*(g[1][0]*g[2][1]-g[1][1]*g[2][0]); }
static void inv3(M3 g,M3 r){ ld d=det3(g); int i,j; F(i) F(j){ int a=(j+1)%3,b=(j+2)%3,c=(i+1)%3,e=(i+2)%3; r[i][j]=(g[a][c]*g[b][e]-g[a][e]*g[b][c])/d; } }
/* Christoffel symbols, their contraction, Ricci tensor; dg[c][a][b] = d_c g_ab, ddg[c][d][a][b] = d_c d_d g_ab */
typedef struct { M3 gi; T3 lo,up,dgi; Q3 dup; V3 con; M3 dcon; M3 R; ld Rs; } geo;
static void geometry(M3 g,T3 dg,Q3 ddg,geo *o)
{ int a,b,c,d,e; inv3(g,o->gi); F(c) F(a) F(b) o->lo[c][a][b]=0.5L*(dg[a][c][b]+dg[b][c][a]-dg[c][a][b]);
  F(c) F(a) F(b){ o->up[c][a][b]=0; F(e) o->up[c][a][b]+=o->gi[c][e]*o->lo[e][a][b]; }
  F(d) F(a) F(b){ o->dgi[d][a][b]=0; F(c) F(e) o->dgi[d][a][b]-=o->gi[a][c]*o->gi[b][e]*dg[d][c][e]; }
  F(d) F(c) F(a) F(b){ ld s=0; F(e) s+=o->dgi[d][c][e]*o->lo[e][a][b]+o->gi[c][e]*0.5L*(ddg[d][a][e][b]+ddg[d][b][e][a]-ddg[d][e][a][b]); o->dup[d][c][a][b]=s; }
  F(c){ o->con[c]=0; F(a) F(b) o->con[c]+=o->gi[a][b]*o->up[c][a][b]; }
  F(d) F(c){ o->dcon[d][c]=0; F(a) F(b) o->dcon[d][c]+=o->dgi[d][a][b]*o->up[c][a][b]+o->gi[a][b]*o->dup[d][c][a][b]; }
  o->Rs=0; F(a) F(b){ ld s=0; F(c){ s+=o->dup[c][c][a][b]-o->dup[b][c][a][c]; F(d) s+=o->up[c][c][d]*o->up[d][a][b]-o->up[c][b][d]*o->up[d][a][c]; } o->R[a][b]=s; }
  F(a) F(b) o->Rs+=o->gi[a][b]*o->R[a][b]; }
/* metric times a function w */
static void scale(M3 g,T3 dg,Q3 ddg,ld w,V3 dw,M3 ddw,M3 h,T3 dh,Q3 ddh)
{ int a,b,c,d; F(a) F(b){ h[a][b]=w*g[a][b]; F(c){ dh[c][a][b]=w*dg[c][a][b]+dw[c]*g[a][b]; F(d) ddh[c][d][a][b]=w*ddg[c][d][a][b]+dw[c]*dg[d][a][b]+dw[d]*dg[c][a][b]+ddw[c][d]*g[a][b]; } } }
/* ---------------------------------------------------------------- random fields known with their derivatives */
typedef struct { ld v; V3 d; M3 dd; } jet;
typedef struct { tf3 f; ld base,amp; } fld;
static int BAS[3],NN[3]; static double BB[6];
static void fld_rand(fld *f,ld base,ld amp,int cut){ f3_rand(&f->f,BAS,NN,BB,cut); f->base=base; ld A=f3_amp(&f->f,0,0,0); f->amp=A>0?amp/A:0; }
static void fld_at(const fld *f,const ld *X,jet *j)
{ int r,d,k; static ld e[3][3]; memset(j,0,sizeof *j); 
  for(r=0;r<f->f.nr;r++){ for(d=0;d<3;d++) for(k=0;k<3;k++) e[d][k]=f1_eval(&f->f.f[r][d],X[d],k);
    j->v+=e[0][0]*e[1][0]*e[2][0]; int a,b; F(a){ int q[3]={0,0,0}; q[a]++; j->d[a]+=e[0][q[0]]*e[1][q[1]]*e[2][q[2]]; F(b){ int p[3]={q[0],q[1],q[2]}; p[b]++; j->dd[a][b]+=e[0][p[0]]*e[1][p[1]]*e[2][p[2]]; } } }
  int a,b; j->v=f->base+f->amp*j->v; F(a){ j->d[a]*=f->amp; F(b) j->dd[a][b]*=f->amp; } }
static const int SI[3][3]={{0,1,2},{1,3,4},{2,4,5}};
static int BI; /* box in use */
static double *VD(const char *n,int k){ tBox *o=G->box[BI]; int i=Ind((char*)n); if(!o->v[i+k]) enablevar(G,i); return o->v[i+k]; }
typedef struct { const char *n; int nc; fld f[6]; } fv;
static fv FV[16]; static int nfv;
static fv *field(const char *n,int nc){ fv *f=&FV[nfv++]; f->n=n; f->nc=nc; return f; }
static fv *getf(const char *n){ int i; for(i=0;i<nfv;i++) if(!strcmp(FV[i].n,n)) return &FV[i]; return 0; }
static void put(fv *f,tVarList *vl,int start)
{ tBox *o=G->box[BI]; int k; long q; for(k=0;k<f->nc;k++){ double *u=vl?o->v[vl->index[start+k]]:VD(f->n,k); double *x=VD("x",0),*y=VD("y",0),*z=VD("z",0); for(q=0;q<o->nnodes;q++){ ld X[3]={x[q],y[q],z[q]}; jet j; fld_at(&f->f[k],X,&j); u[q]=j.v; } } }
static void sym(const char *n,long q,M3 g,T3 dg,Q3 ddg)
{ fv *f=getf(n); tBox *o=G->box[BI]; (void)o; ld X[3]={VD("x",0)[q],VD("y",0)[q],VD("z",0)[q]}; jet j[6]; int k,a,b,c,d; for(k=0;k<6;k++) fld_at(&f->f[k],X,&j[k]); F(a) F(b){ jet *J=&j[SI[a][b]]; g[a][b]=J->v; F(c){ dg[c][a][b]=J->d[c]; if(ddg) F(d) ddg[c][d][a][b]=J->dd[c][d]; } } }
static void scal(const char *n,long q,jet *j){ ld X[3]={VD("x",0)[q],VD("y",0)[q],VD("z",0)[q]}; fld_at(&getf(n)->f[0],X,j); }
static void vec(const char *n,long q,jet *j){ int k; ld X[3]={VD("x",0)[q],VD("y",0)[q],VD("z",0)[q]}; F(k) fld_at(&getf(n)->f[k],X,&j[k]); }
/* ---------------------------------------------------------------- grids */
static void pick_box(int nlo,int nhi,int fourier_ok,int nb)
{ int d,b; vg_par("nboxes=%d",nb); vg_par("Coordinates_set_bfaces=no");
  for(b=0;b<nb;b++){ const char *B[3]; for(d=0;d<3;d++){ BAS[d]=fourier_ok&&vh_int(0,2)==0?B_FOUR:vh_int(0,3)==0?B_ZER:B_EXT; B[d]=BNAME[BAS[d]]; NN[d]=vh_int(nlo,nhi); BB[2*d]=vh_range(-2,1); BB[2*d+1]=BB[2*d]+vh_range(0.8,2); } vg_box(b,NN[0],NN[1],NN[2],B[0],B[1],B[2],BB); sprintf(T+strlen(T),"%s%d,%s%d,%s%d ",B[0],NN[0],B[1],NN[1],B[2],NN[2]); } }
static void use_box(int b)
{ char s[80]; int d; BI=b; for(d=0;d<3;d++){ sprintf(s,"box%d_basis%d",b,d+1); int k; for(k=0;k<3;k++) if(!strcmp(Gets(s),BNAME[k])) BAS[d]=k; sprintf(s,"box%d_n%d",b,d+1); NN[d]=Geti(s); sprintf(s,"box%d_min%d",b,d+1); BB[2*d]=Getd(s); sprintf(s,"box%d_max%d",b,d+1); BB[2*d+1]=Getd(s); } }
#define CUT(n) vh_int(0,1)
static void cmp(const char *key,const char *what,long q,double got,ld want,ld tol)
{ vh_count("values compared",1); VEXPECT(fabsl(got-want)<=tol,key,"%s %s at point %ld is %.15g, expected %.15Lg (allowed difference %.2Lg)",T,what,q,got,want,tol); }
static int onoff(const char *p){ int v=vh_int(0,1); vg_par("%s=%s",p,v?"yes":"no"); return v; }
static double num(const char *p,double def,double a,double b){ double v=vh_int(0,1)?def:vh_range(a,b); vg_par("%s=%.17g",p,v); return v; }
/* ---------------------------------------------------------------- conformal factor */
static void psi_fields(int trivial){ fv *f=field("psi",1); fld_rand(&f->f[0],trivial?1:vh_range(0.9,1.4),trivial?0:0.15,0); }
static void put_psi(void)
{ tBox *o=G->box[BI]; long q; int a,b; psiandderivs->grid=G; enablevarlist(psiandderivs); for(q=0;q<o->nnodes;q++){ jet j; scal("psi",q,&j); VD("psi",0)[q]=j.v; F(a){ VD("dpsiopsix",a)[q]=j.d[a]/j.v; F(b) if(b>=a) VD("ddpsiopsixx",SI[a][b])[q]=j.dd[a][b]/j.v; } } }
/* ================================================================ 1: ADM constraints of arbitrary data */
static ld pi16=16*LPI;
static void part_adm(void)
{ int nb=vh_int(1,2),b,a,c,d,e,k; vg_reset(); T[0]=0; vg_par("physics=ADMvars"); pick_box(3,6,1,nb); int norm=vh_int(0,2); vg_par("ADMvars_normalizedConstraints=%s",norm?"yes":"no"); if(norm) vg_par("ADMvars_ConstraintNorm=%s",norm==1?"TermByTerm":"dumb"); int dd=onoff("ADMvars_useDD"); vg_par("ADMvars_exitifNAN=no");
  int mat=vh_int(0,3); strcpy(T,vg_desc); sprintf(T+strlen(T),"matter %d",mat); vh_at("%s",T); G=vg_make(1); (void)dd;
  const char *en[]={"gxx","Kxx","alpha","betax"}; for(k=0;k<4;k++) enablevar(G,Ind((char*)en[k])); if(mat&1){ enablevar(G,Ind("rho")); enablevar(G,Ind("Sxx")); } if(mat&2) enablevar(G,Ind("jx"));
  fv S[2][16]; int nf[2];
  for(b=0;b<nb;b++){ use_box(b); nfv=0; fv *f; ld am=vh_int(0,2)?0.25L:0.02L; f=field("gxx",6); for(k=0;k<6;k++) fld_rand(&f->f[k],(k==0||k==3||k==5)?vh_range(0.8,1.5):vh_range(-0.1,0.1),am,CUT()); f=field("Kxx",6); for(k=0;k<6;k++) fld_rand(&f->f[k],vh_range(-0.5,0.5),0.5,CUT()); f=field("alpha",1); fld_rand(f->f,vh_range(0.7,1.4),0.3,CUT()); f=field("betax",3); F(k) fld_rand(&f->f[k],vh_range(-.4,.4),0.3,CUT()); 
    if(mat&1){ f=field("rho",1); fld_rand(f->f,0.1,0.1,0); f=field("Sxx",6); for(k=0;k<6;k++) fld_rand(&f->f[k],0.05,0.1,0); } if(mat&2){ f=field("jx",3); F(k) fld_rand(&f->f[k],0,0.1,0); } for(k=0;k<nfv;k++) put(&FV[k],0,0); psi_fields(vh_int(0,2)==0); put_psi(); memcpy(S[b],FV,sizeof FV); nf[b]=nfv; }
  tVarList *u=vlalloc(G); const char *nm[]={"gxx","Kxx","alpha","betax","rho","jx","Sxx","ham","momx","trK","dtrK_dt"}; for(k=0;k<11;k++){ vlpush(u,Ind((char*)nm[k])); if(k>=7) enablevar(G,Ind((char*)nm[k])); }
  if(norm){ vlpush(u,Ind("normham")); vlpush(u,Ind("normmomx")); enablevar(G,Ind("normham")); enablevar(G,Ind("normmomx")); } else { vlpush(u,Ind("ham")); vlpush(u,Ind("momx")); }
  ADMconstraints(u); vlfree(u); set_K_initial(G);
  for(b=0;b<nb;b++){ use_box(b); memcpy(FV,S[b],sizeof FV); nfv=nf[b]; tBox *o=G->box[b]; long q; ld sc=0; for(q=0;q<o->nnodes;q++){
      M3 g; T3 dg; Q3 ddg; M3 K; T3 dK; jet ps,al,be[3]; sym("gxx",q,g,dg,ddg); sym("Kxx",q,K,dK,0); scal("psi",q,&ps); scal("alpha",q,&al); vec("betax",q,be);
      ld w=powl(ps.v,4); V3 dw; M3 ddw; F(a){ dw[a]=4*powl(ps.v,3)*ps.d[a]; F(c) ddw[a][c]=4*powl(ps.v,3)*ps.dd[a][c]+12*ps.v*ps.v*ps.d[a]*ps.d[c]; }
      M3 h; T3 dh; Q3 ddh; scale(g,dg,ddg,w,dw,ddw,h,dh,ddh); static geo o3; geo *y=&o3; geometry(h,dh,ddh,y);
      ld tr=0,KK=0; F(a) F(c){ tr+=y->gi[a][c]*K[a][c]; F(d) F(e) KK+=y->gi[a][c]*y->gi[d][e]*K[a][d]*K[c][e]; }
      T3 DK; F(c) F(a) F(d){ DK[c][a][d]=dK[c][a][d]; F(e) DK[c][a][d]-=y->up[e][c][a]*K[e][d]+y->up[e][c][d]*K[a][e]; }
      V3 dtr,divK; F(a){ dtr[a]=divK[a]=0; F(c) F(d){ dtr[a]+=y->gi[c][d]*DK[a][c][d]; divK[a]+=y->gi[c][d]*DK[c][d][a]; } }
      ld rho=mat&1?VD("rho",0)[q]:0,Str=0; if(mat&1) F(a) F(c) Str+=y->gi[a][c]*VD("Sxx",SI[a][c])[q]; V3 j; F(a) j[a]=mat&2?VD("jx",a)[q]:0;
      ld lap=0; F(a) F(c){ ld s=al.dd[a][c]; F(d) s-=y->up[d][a][c]*al.d[d]; lap+=y->gi[a][c]*s; }
      ld ham=y->Rs+tr*tr-KK-pi16*rho, dt=-lap+al.v*(y->Rs+tr*tr)+4*LPI*al.v*(Str-(mat&1?3*rho:0)); F(a) dt+=be[a].v*dtr[a];
      /* size of the terms: the derivatives are exact up to rounding */
      sc=0; F(a) F(c) F(d){ sc+=fabsl(dh[a][c][d])*fabsl(dh[a][c][d]); F(e) sc+=fabsl(ddh[a][c][d][e]); } ld gm=0; F(a) F(c) gm+=fabsl(y->gi[a][c]); ld tol=1e-9L*(1+gm)*(1+gm)*(1+sc+tr*tr+fabsl(KK))*(1+fabsl(al.v));
      cmp("hamiltonian","ham",q,VD("ham",0)[q],ham,tol); cmp("trace","trK",q,VD("trK",0)[q],tr,tol*1e-2L); cmp("trace-rate","dtrK_dt",q,VD("dtrK_dt",0)[q],dt,tol*3);
      cmp("K-initial","K_initial",q,VD("K_initial",0)[q],tr,tol*1e-2L); F(a) cmp("momentum","mom",q,VD("momx",a)[q],divK[a]-dtr[a]-8*LPI*j[a],tol);
      if(norm){ ld den=0; V3 dn; ld RA=0,RB=0,RC=0,RD=0; int f,m; if(norm==1){ F(a) F(c) F(d) F(e){ ld s=y->gi[a][c]*y->gi[d][e]; RA-=s*ddh[d][e][a][c]; RB+=s*ddh[a][d][c][e]; F(f){ RC+=s*y->up[f][a][d]*y->lo[f][c][e]; RD-=s*y->up[f][a][c]*y->lo[f][d][e]; } } den=fabsl(RA)+fabsl(RB)+fabsl(RC)+fabsl(RD)+tr*tr+fabsl(KK)+fabsl(pi16*rho); } else den=fabsl(y->Rs)+tr*tr+fabsl(KK)+fabsl(pi16*rho);
        ld td=0; F(m){ ld A[7]={0}; F(c) F(d){ ld s=y->gi[c][d]; A[0]+=s*dK[c][m][d]; A[3]+=s*dK[m][c][d]; F(e){ A[1]-=s*y->up[e][c][m]*K[e][d]; A[2]-=s*y->up[e][c][d]*K[m][e]; A[4]-=s*y->up[e][m][c]*K[e][d]; A[5]-=s*y->up[e][m][d]*K[c][e]; } } if(norm==1) dn[m]=fabsl(A[0])+fabsl(A[1])+fabsl(A[2])+fabsl(A[3])+fabsl(A[4])+fabsl(A[5])+fabsl(8*LPI*j[m]); else dn[m]=fabsl(A[0]+A[1]+A[2])+fabsl(A[3]+A[4]+A[5])+fabsl(8*LPI*j[m]); td+=dn[m]; }
        if(norm==1){ /* how TermByTerm splits the sums is not specified: only the sign and a positive denominator */ double nh=VD("normham",0)[q],hh=VD("ham",0)[q]; VEXPECT(isfinite(nh)&&nh*hh>=0&&(hh==0||nh!=0),"normalized-hamiltonian","%s ham %g normham %g",T,hh,nh); double big=0; F(m){ double nn=VD("normmomx",m)[q],mm=VD("momx",m)[q]; VEXPECT(isfinite(nn)&&nn*mm>=0&&(mm==0||nn!=0),"normalized-momentum","%s mom %g normmom %g",T,mm,nn); if(fabs(mm)>big) big=fabs(mm); } double r=0; F(m){ double mm=VD("momx",m)[q],nn=VD("normmomx",m)[q]; if(fabs(mm)>1e-6*big&&nn!=0){ double d=mm/nn; if(r!=0) VEXPECT(fabs(d-r)<=1e-9*fabs(r),"normalized-momentum","%s denominators %g and %g",T,r,d); r=d; } } }
        else if(den>1e-3) cmp("normalized-hamiltonian","normham",q,VD("normham",0)[q],ham/den,tol*3/den); if(norm==2&&td>1e-3) F(m) cmp("normalized-momentum","normmom",q,VD("normmomx",m)[q],(divK[m]-dtr[m]-8*LPI*j[m])/td,tol*3/td); }
      vh_count("points with arbitrary metrics",1); } }
  /* psi moved into the metric */
  { double *sav[2][6]; for(b=0;b<nb;b++){ use_box(b); for(k=0;k<6;k++){ sav[b][k]=malloc(8*G->box[b]->nnodes); memcpy(sav[b][k],VD("gxx",k),8*G->box[b]->nnodes); long q; for(q=0;q<G->box[b]->nnodes;q++) sav[b][k][q]*=pow(VD("psi",0)[q],4); } }
    ADMvars_undo_conformal_split(G); for(b=0;b<nb;b++){ use_box(b); long q; for(q=0;q<G->box[b]->nnodes;q++){ for(k=0;k<6;k++) cmp("undo-split","g",q,VD("gxx",k)[q],sav[b][k][q],1e-13L*fabs(sav[b][k][q])); cmp("undo-split","psi",q,VD("psi",0)[q],1,0); F(a) cmp("undo-split","dpsi",q,VD("dpsiopsix",a)[q],0,0); for(k=0;k<6;k++) cmp("undo-split","ddpsi",q,VD("ddpsiopsixx",k)[q],0,0); } for(k=0;k<6;k++) free(sav[b][k]); } }
  vh_case(1,"%s",T); vg_free(G); RunFun(LAST,0); }
/* ================================================================ 2: evolution systems, arbitrary data */
typedef struct { int lapse,wshift,addlie,addterm,subK0,shift,dens,freeze,gentle,grep,subA,ndet,regzz,reAzz; double yo,rth,f,m,ppow,spow,sapow,scoef,sdrv,stop,w,k1,k2; } opt;
static const char *LAPSE[]={"constant","1+log","1+log2","harmonic"},*SHIFT[]={"constant","gamma0","gamma2"};
static void bssn_opts(opt *o)
{ memset(o,0,sizeof *o); char l[200]; o->lapse=vh_int(0,3); o->wshift=vh_int(0,1); o->addlie=vh_int(0,1); o->addterm=vh_int(0,2)==0; sprintf(l,"%s%s%s%s",LAPSE[o->lapse],o->wshift?" withshift":"",o->addlie?" addliealpha":"",o->addterm?" addalphaRHSterm":""); vg_par("BSSN_lapse=%s",l);
  o->subK0=onoff("BSSN_subtractK0"); o->shift=vh_int(0,2); vg_par("BSSN_shift=%s",SHIFT[o->shift]); o->dens=vh_int(0,3); if(o->dens==3) o->dens=0; vg_par("BSSN_densitizedLapse=%s",o->dens==0?"no":o->dens==1?"yes":"1+log_withoutShift"); o->w=num("BSSN_alphaDensityWeight",1,-1,1.5);
  o->freeze=vh_int(0,5)==0; vg_par("BSSN_freezeGamma=%s",o->freeze?"yes":"no"); o->gentle=vh_int(0,3)==0; vg_par("BSSN_GentlePhiRHS=%s",o->gentle?"yes":"no"); o->grep=onoff("BSSN_GReplacedBydg"); o->subA=onoff("BSSN_subtractA"); o->ndet=onoff("BSSN_normalizedetg"); o->regzz=vh_int(0,3)==0; vg_par("BSSN_recomputegzz=%s",o->regzz?"yes":"no"); o->reAzz=vh_int(0,3)==0; vg_par("BSSN_recomputeAzz=%s",o->reAzz?"yes":"no");
  o->yo=num("BSSN_YoTermFactor",0,0,2); o->rth=num("BSSN_RtoRminusHfactor",1,0,1); o->f=num("BSSN_lapseharmonicf",2,0.5,3); o->ppow=num("BSSN_lapsepsipower",0,-2,4); o->spow=num("BSSN_shiftpsipower",0,-2,4); o->sapow=num("BSSN_shiftalphapower",0,-1,2); o->scoef=num("BSSN_shiftgammacoeff",0.75,0.2,1.5); o->sdrv=num("BSSN_shiftdriver",0,0,3); o->stop=vh_int(0,1)?-1:vh_range(0,2); vg_par("BSSN_shift_stop_time=%.17g",o->stop); onoff("BSSN_useDD"); }
/* rate of change of everything at one point */
typedef struct { M3 g,A; ld phi,K,al,ad,ham; V3 Gm,be,B; ld tol; } rate;
static void bssn_rate(const opt *o,double time,long q,M3 g,T3 dg,Q3 ddg,M3 A,T3 dA,jet ph,jet K,jet *Gt,jet al,jet *be,V3 B,ld ad,jet ps,ld K0,ld alterm,rate *r)
{ int a,b,c,d,e; static geo go; geo *y=&go; geometry(g,dg,ddg,y); (void)q;
  V3 dl; M3 ddl; F(a){ dl[a]=ps.d[a]/ps.v; F(b) ddl[a][b]=ps.dd[a][b]/ps.v-ps.d[a]*ps.d[b]/(ps.v*ps.v); }
  ld f=ph.v+logl(ps.v); V3 df; M3 ddf; F(a){ df[a]=ph.d[a]+dl[a]; F(b) ddf[a][b]=ph.dd[a][b]+ddl[a][b]; }
  ld e4=expl(4*f); V3 dw; M3 ddw; F(a){ dw[a]=4*e4*df[a]; F(b) ddw[a][b]=e4*(4*ddf[a][b]+16*df[a]*df[b]); }
  M3 h; T3 dh; Q3 ddh; scale(g,dg,ddg,e4,dw,ddw,h,dh,ddh); static geo gp; geo *p=&gp; geometry(h,dh,ddh,p);
  /* Ricci tensor of the physical metric, with the independent Gamma^i where the system uses it */
  V3 ug; F(a) ug[a]=o->grep?y->con[a]:Gt[a].v; M3 R; F(a) F(b){ R[a][b]=p->R[a][b]; F(c){ R[a][b]+=0.5L*(g[c][a]*(Gt[c].d[b]-y->dcon[b][c])+g[c][b]*(Gt[c].d[a]-y->dcon[a][c]))+0.5L*(ug[c]-y->con[c])*(y->lo[a][b][c]+y->lo[b][a][c]); } }
  ld trR=0; F(a) F(b) trR+=p->gi[a][b]*R[a][b];
  M3 Au; F(a) F(b){ Au[a][b]=0; F(c) F(d) Au[a][b]+=y->gi[a][c]*y->gi[b][d]*A[c][d]; } ld AA=0; F(a) F(b) AA+=Au[a][b]*A[a][b];
  ld ham=trR+2*K.v*K.v/3-AA,Rh=trR-o->rth*ham; r->ham=ham; M3 DDa; ld lap=0; F(a) F(b){ DDa[a][b]=al.dd[a][b]; F(c) DDa[a][b]-=p->up[c][a][b]*al.d[c]; } F(a) F(b) lap+=p->gi[a][b]*DDa[a][b];
  ld div=0; F(a) div+=be[a].d[a];
  F(a) F(b){ ld s=-2*al.v*A[a][b]-2*g[a][b]*div/3; F(c) s+=be[c].v*dg[c][a][b]+g[a][c]*be[c].d[b]+g[c][b]*be[c].d[a]; r->g[a][b]=s;
    ld t=(-DDa[a][b]+al.v*R[a][b])/e4-g[a][b]/3*(-lap+al.v*Rh)+al.v*K.v*A[a][b]-2*A[a][b]*div/3; F(c){ t+=be[c].v*dA[c][a][b]+A[a][c]*be[c].d[b]+A[c][b]*be[c].d[a]; F(d) t-=2*al.v*A[a][c]*y->gi[c][d]*A[d][b]; } r->A[a][b]=t; }
  r->K=-lap+al.v*(AA+K.v*K.v/3); F(a) r->K+=be[a].v*K.d[a];
  ld lphi=div/6; F(a) lphi+=be[a].v*df[a]; r->phi=-al.v*K.v/6+lphi; if(o->gentle&&K.v*K.v>fabsl(ham)) r->phi=al.v*(trR-AA)/(4*K.v)+lphi;
  F(a){ ld s=0; F(b){ ld t=0; F(c) t+=be[c].d[c]*0; (void)t; s-=2*Au[a][b]*al.d[b]; s-=2*al.v*(2*y->gi[a][b]*K.d[b]/3-6*Au[a][b]*df[b]); F(c) s+=2*al.v*y->up[a][b][c]*Au[b][c]; F(c){ s+=y->gi[b][c]*be[a].dd[b][c]+y->gi[a][b]*be[c].dd[b][c]/3; } s+=-ug[b]*be[a].d[b]+be[b].v*Gt[a].d[b]; } s+=2*ug[a]*div/3-o->yo*(Gt[a].v-y->con[a])*div; r->Gm[a]=o->freeze?0:s; }
  ld ps0=powl(ps.v,o->ppow),r0=((o->lapse==1&&o->wshift?6*lphi:0)-al.v*(K.v-(o->subK0?K0:0)))*ps0; if(o->wshift&&o->lapse!=1) r0+=6*lphi*ps0;
  r->al=r0*(o->lapse==1?o->f:o->lapse==2?8/(3*(3-al.v)):o->lapse==3?al.v:0); if(o->addlie) F(a) r->al+=be[a].v*al.d[a]; if(o->addterm) r->al+=alterm;
  r->ad=0; if(o->dens&&o->lapse){ r->ad=r->al*expl(-6*o->w*f)-6*o->w*ad*r->phi; if(o->dens==2) r->ad=ad*((o->f/al.v)*ps0-o->w)*(-al.v*(K.v-(o->subK0?K0:0))); }
  int ev=!(o->stop>=0&&time>=o->stop); ld bF=o->scoef*powl(al.v,o->sapow)/powl(ps.v,o->spow);
  F(a){ r->be[a]=ev?(o->shift==2?B[a]:o->shift==1?bF*B[a]:0):0; r->B[a]=ev?(o->shift==1?r->Gm[a]:o->shift==2?bF*r->Gm[a]:0)-o->sdrv*B[a]:0; }
  ld sc=0,gm=0; F(a) F(b) F(c){ sc+=dg[a][b][c]*dg[a][b][c]+16*df[a]*df[a]; F(d) sc+=fabsl(ddg[a][b][c][d]); } F(a) F(b){ gm+=fabsl(y->gi[a][b]); sc+=fabsl(ddf[a][b])+fabsl(al.dd[a][b])+A[a][b]*A[a][b]; F(c) sc+=fabsl(be[a].dd[b][c]); sc+=fabsl(Gt[a].d[b]); } (void)e; r->tol=1e-9L*(1+gm)*(1+gm)*(1+sc+K.v*K.v)*(1+1/e4+fabsl(al.v))*(1+fabsl(o->f)); }
static const int BOFF[]={0,6,7,13,14,17,18,21,24}; enum { bG,bPHI,bA,bK,bGAM,bAL,bBE,bB,bAD };
extern tVarList *BSSNvars,*Z4secondOvars;
static void part_bssn(void)
{ int nb=vh_int(1,2),b,a,k,c; opt O; vg_reset(); T[0]=0; vg_par("physics=ADMvars BSSN"); vg_par("ADMvars_exitifNAN=no"); pick_box(3,6,1,nb); bssn_opts(&O); strcpy(T,vg_desc); vh_at("%s",T); G=vg_make(1); 
  const char *en[]={"gxx","Kxx","alpha","betax","betadotx"}; for(k=0;k<5;k++) enablevar(G,Ind((char*)en[k])); fv S[2][16]; int nf[2]; for(b=0;b<nb;b++){ use_box(b); long q; nfv=0; psi_fields(vh_int(0,2)==0); put_psi(); memcpy(S[b],FV,sizeof FV); nf[b]=nfv; for(q=0;q<G->box[b]->nnodes;q++){ for(k=0;k<6;k++){ VD("gxx",k)[q]=k==0||k==3||k==5; VD("Kxx",k)[q]=0; } VD("alpha",0)[q]=1; F(k) VD("betax",k)[q]=VD("betadotx",k)[q]=0; } }
  set_K_initial(G); K_initial->grid=G; RunFun(POST_INITIALDATA,G); tVarList *up=AddDuplicateEnable(BSSNvars,"_p"),*un=AddDuplicateEnable(BSSNvars,"_n"); 
  double dt=vh_int(0,1)&&!O.dens?0:vh_range(0.005,0.05)*(vh_int(0,3)?1:-1); G->time=vh_range(0,2); int same=vh_int(0,2); tVarList *uc=same==0&&dt!=0?up:BSSNvars; if(same==1&&dt!=0) un=un; 
  for(b=0;b<nb;b++){ use_box(b); memcpy(FV,S[b],sizeof FV); nfv=nf[b]; tBox *o=G->box[b]; long q; fv *f; ld am=vh_int(0,2)?0.25L:0.02L; 
    f=field("BSSN_gxx",6); for(k=0;k<6;k++) fld_rand(&f->f[k],(k==0||k==3||k==5)?vh_range(0.8,1.3):vh_range(-0.1,0.1),am,CUT()); f=field("BSSN_phi",1); fld_rand(f->f,vh_range(-.2,.2),0.2,CUT()); f=field("BSSN_Axx",6); for(k=0;k<6;k++) fld_rand(&f->f[k],vh_range(-.3,.3),0.3,CUT()); f=field("BSSN_K",1); fld_rand(f->f,vh_range(-1.5,1.5),0.5,CUT()); f=field("BSSN_Gx",3); F(k) fld_rand(&f->f[k],vh_range(-.3,.3),0.3,CUT()); f=field("alpha",1); fld_rand(f->f,vh_range(0.7,1.4),0.3,CUT()); f=field("betax",3); F(k) fld_rand(&f->f[k],vh_range(-.4,.4),0.3,CUT()); f=field("betadotx",3); F(k) fld_rand(&f->f[k],vh_range(-.4,.4),0.3,CUT()); f=field("BSSN_alphaDensity",1); fld_rand(f->f,vh_range(0.7,1.4),0.2,CUT());
    for(k=0;k<9;k++) put(getf(k==bG?"BSSN_gxx":k==bPHI?"BSSN_phi":k==bA?"BSSN_Axx":k==bK?"BSSN_K":k==bGAM?"BSSN_Gx":k==bAL?"alpha":k==bBE?"betax":k==bB?"betadotx":"BSSN_alphaDensity"),uc,BOFF[k]);
    for(k=0;k<BSSNvars->n;k++) for(q=0;q<o->nnodes;q++){ if(uc!=up) o->v[up->index[k]][q]=o->v[uc->index[k]][q]+vh_range(-.05,.05); if(un!=uc) o->v[un->index[k]][q]=vh_range(-1,1); } 
    for(q=0;q<o->nnodes;q++){ VD("K_initial",0)[q]=vh_range(-.5,.5); VD("BSSN_alphaRHSterm",0)[q]=vh_range(-.5,.5); } memcpy(S[b],FV,sizeof FV); nf[b]=nfv; }
  double **old=calloc(nb*(size_t)BSSNvars->n,sizeof *old); for(b=0;b<nb;b++) for(k=0;k<BSSNvars->n;k++){ old[b*BSSNvars->n+k]=malloc(8*G->box[b]->nnodes); memcpy(old[b*BSSNvars->n+k],G->box[b]->v[up->index[k]],8*G->box[b]->nnodes); }
  tVarList *out=un; BSSN_rhs(out,up,dt,uc);
  for(b=0;b<nb;b++){ use_box(b); memcpy(FV,S[b],sizeof FV); nfv=nf[b]; tBox *o=G->box[b]; long q; for(q=0;q<o->nnodes;q++){
      M3 g,A; T3 dg,dA; Q3 ddg; jet ph,K,al,be[3],Gt[3],ad,B[3],ps; sym("BSSN_gxx",q,g,dg,ddg); sym("BSSN_Axx",q,A,dA,0); scal("BSSN_phi",q,&ph); scal("BSSN_K",q,&K); scal("alpha",q,&al); vec("betax",q,be); vec("BSSN_Gx",q,Gt); vec("betadotx",q,B); scal("BSSN_alphaDensity",q,&ad); scal("psi",q,&ps); V3 Bv; F(a) Bv[a]=B[a].v;
      rate r; bssn_rate(&O,G->time,q,g,dg,ddg,A,dA,ph,K,Gt,al,be,Bv,ad.v,ps,VD("K_initial",0)[q],VD("BSSN_alphaRHSterm",0)[q],&r); ld w=dt!=0?dt:1; 
      #define PRE(k) (dt!=0?(ld)old[b*BSSNvars->n+(k)][q]:0)
      M3 ng,nA; F(a) F(c){ ng[a][c]=PRE(SI[a][c])+w*r.g[a][c]; nA[a][c]=PRE(7+SI[a][c])+w*r.A[a][c]; } ld tol=r.tol*fabsl(w)*3+1e-13L, post=0;
      if(dt!=0){ if(O.regzz) { ld D2=ng[0][0]*ng[1][1]-ng[0][1]*ng[0][1]; ng[2][2]=(1+ng[1][1]*ng[0][2]*ng[0][2]-2*ng[0][1]*ng[1][2]*ng[0][2]+ng[0][0]*ng[1][2]*ng[1][2])/D2; tol*=1+1/(D2*D2); } 
        M3 gi; inv3(ng,gi); if(O.reAzz){ ld t=0; F(a) F(c) if(!(a==2&&c==2)) t+=gi[a][c]*nA[a][c]; nA[2][2]=-t/gi[2][2]; } if(O.subA){ ld t=0; F(a) F(c) t+=gi[a][c]*nA[a][c]; F(a) F(c) nA[a][c]-=ng[a][c]*t/3; post=1; } if(O.ndet){ ld d=det3(ng); F(a) F(c) ng[a][c]/=cbrtl(d); post=1; } if(O.regzz||O.reAzz) post=1; } if(post) tol*=30;
      #define NEW(k) o->v[out->index[k]][q]
      F(a) F(c) if(c>=a){ cmp("bssn-metric","g",q,NEW(SI[a][c]),ng[a][c],tol); cmp("bssn-A","A",q,NEW(7+SI[a][c]),nA[a][c],tol); }
      if(fabsl(K.v*K.v-fabsl(r.ham))>1e-6L*(1+fabsl(r.ham))||!O.gentle) cmp("bssn-phi","phi",q,NEW(6),PRE(6)+w*r.phi,O.gentle?tol*(1+1/fabsl(K.v)):tol); cmp("bssn-K","K",q,NEW(13),PRE(13)+w*r.K,tol); F(a) cmp("bssn-G","G",q,NEW(14+a),PRE(14+a)+w*r.Gm[a],tol*3);
      if(O.gentle&&fabsl(K.v*K.v-fabsl(r.ham))<=1e-6L*(1+fabsl(r.ham))) continue; if(!O.dens) cmp("bssn-lapse","alpha",q,NEW(17),PRE(17)+w*r.al,tol*3); else { ld nad=PRE(24)+w*r.ad,nph=PRE(6)+w*r.phi; cmp("bssn-density","alphaDensity",q,NEW(24),nad,tol*20); cmp("bssn-lapse","alpha",q,NEW(17),nad*expl(6*O.w*(nph+logl(ps.v))),tol*100*(1+(O.gentle?1/fabsl(K.v):0))); }
      F(a){ cmp("bssn-shift","beta",q,NEW(18+a),PRE(18+a)+w*r.be[a],tol*3); cmp("bssn-shift","betadot",q,NEW(21+a),PRE(21+a)+w*r.B[a],tol*5); }
      if(dt!=0&&(O.ndet||O.regzz)){ M3 m; F(a) F(c) m[a][c]=NEW(SI[a][c]); ld sc=0; F(a) F(c) sc+=fabsl(m[a][c]); cmp("unit-determinant","det",q,det3(m),1,1e-14L*(100+sc*sc*sc)); } if(dt!=0&&O.subA){ M3 m,mi; F(a) F(c) m[a][c]=NEW(SI[a][c]); inv3(m,mi); ld t=0,s=0; F(a) F(c){ t+=mi[a][c]*NEW(7+SI[a][c]); s+=fabsl(mi[a][c]*NEW(7+SI[a][c])); } cmp("trace-free","trA",q,t,0,1e-13L*(1+s)*10); } vh_count("points of the BSSN system",1); } }
  for(b=0;b<nb;b++){ use_box(b); for(k=0;k<up->n;k++){ long q; if(up->index[k]!=out->index[k]) for(q=0;q<G->box[b]->nnodes;q++) if(memcmp(&G->box[b]->v[up->index[k]][q],&old[b*BSSNvars->n+k][q],8)) vh_fail("input-changed","%s variable %d of upre changed",T,k); } }
  for(k=0;k<nb*BSSNvars->n;k++) free(old[k]); free(old); vlfree(up); vlfree(un); vlfree(BSSNvars); vh_case(1,"%s dt=%g",T,dt); vg_free(G); RunFun(LAST,0); }

/* ================================================================ 3: Z4, arbitrary data */
typedef struct { int lapse,wshift,subK0; double rth,k1,k2,f,m,ppow; } zopt;
static void z4_opts(zopt *o)
{ memset(o,0,sizeof *o); o->lapse=vh_int(0,2); if(o->lapse==2) o->lapse=3; o->wshift=vh_int(0,1); vg_par("Z4secondO_lapse=%s%s",LAPSE[o->lapse],o->wshift?" withshift":""); o->subK0=onoff("Z4secondO_subtractK0"); onoff("Z4secondO_useDD"); o->rth=num("Z4secondO_RtoRminusHfactor",0,0,1); o->k1=num("Z4secondO_kappa1",0,0,2); o->k2=num("Z4secondO_kappa2",0,0,2); o->f=num("Z4secondO_lapseharmonicf",2,0.5,3); o->m=num("Z4secondO_lapseharmonicm",0,0,2); o->ppow=num("Z4secondO_lapsepsipower",0,-2,4); }
static const char *ZN[]={"gxx","Kxx","Z4secondO_Theta","Z4secondO_Zx","alpha","betax","betadotx"}; static const int ZO[]={0,6,12,13,16,17,20},ZC[]={6,6,1,3,1,3,3};
static void part_z4(void)
{ int nb=vh_int(1,2),b,a,k,c,d,e; zopt O; vg_reset(); T[0]=0; vg_par("physics=ADMvars Z4secondO"); vg_par("ADMvars_exitifNAN=no"); pick_box(3,6,1,nb); z4_opts(&O); strcpy(T,vg_desc); vh_at("%s",T); G=vg_make(1);
  const char *en[]={"gxx","Kxx","alpha","betax","betadotx"}; for(k=0;k<5;k++) enablevar(G,Ind((char*)en[k])); fv S[2][16]; int nf[2]; for(b=0;b<nb;b++){ use_box(b); long q; nfv=0; psi_fields(vh_int(0,1)); put_psi(); memcpy(S[b],FV,sizeof FV); nf[b]=nfv; for(q=0;q<G->box[b]->nnodes;q++) for(k=0;k<6;k++) VD("gxx",k)[q]=k==0||k==3||k==5; }
  set_K_initial(G); K_initial->grid=G; RunFun(POST_INITIALDATA,G); tVarList *up=AddDuplicateEnable(Z4secondOvars,"_p"),*un=AddDuplicateEnable(Z4secondOvars,"_n"),*uc=Z4secondOvars; double dt=vh_int(0,1)?0:vh_range(0.005,0.05)*(vh_int(0,3)?1:-1); if(dt!=0&&vh_int(0,2)==0) uc=up;
  for(b=0;b<nb;b++){ use_box(b); memcpy(FV,S[b],sizeof FV); nfv=nf[b]; tBox *o=G->box[b]; long q; fv *f; ld am=vh_int(0,2)?0.25L:0.02L; for(k=0;k<7;k++){ f=field(ZN[k],ZC[k]); for(c=0;c<ZC[k];c++) fld_rand(&f->f[c],k==0?((c==0||c==3||c==5)?vh_range(0.8,1.5):vh_range(-0.1,0.1)):k==4?vh_range(0.7,1.4):vh_range(-.4,.4),k==0?am:0.3,CUT()); put(f,uc,ZO[k]); }
    for(k=0;k<uc->n;k++) for(q=0;q<o->nnodes;q++){ if(uc!=up) o->v[up->index[k]][q]=vh_range(-1,1); o->v[un->index[k]][q]=vh_range(-1,1); } for(q=0;q<o->nnodes;q++) VD("K_initial",0)[q]=vh_range(-.5,.5); memcpy(S[b],FV,sizeof FV); nf[b]=nfv; }
  Z4secondO_rhs(un,up,dt,uc);
  for(b=0;b<nb;b++){ use_box(b); memcpy(FV,S[b],sizeof FV); nfv=nf[b]; tBox *o=G->box[b]; long q; for(q=0;q<o->nnodes;q++){
      M3 g,K; T3 dg,dK; Q3 ddg; jet al,be[3],Th,Z[3],ps; sym("gxx",q,g,dg,ddg); sym("Kxx",q,K,dK,0); scal("alpha",q,&al); vec("betax",q,be); scal("Z4secondO_Theta",q,&Th); vec("Z4secondO_Zx",q,Z); scal("psi",q,&ps); static geo go; geo *y=&go; geometry(g,dg,ddg,y);
      ld tr=0,KK=0; M3 K2,DDa,DZ; F(a) F(c){ tr+=y->gi[a][c]*K[a][c]; K2[a][c]=0; F(d) F(e) K2[a][c]+=y->gi[d][e]*K[a][d]*K[e][c]; DDa[a][c]=al.dd[a][c]; DZ[a][c]=Z[c].d[a]; F(d){ DDa[a][c]-=y->up[d][a][c]*al.d[d]; DZ[a][c]-=y->up[d][a][c]*Z[d].v; } } F(a) F(c) KK+=y->gi[a][c]*K2[a][c];
      ld ham=y->Rs+tr*tr-KK,R=y->Rs-O.rth*ham,w=dt!=0?dt:1; M3 rg,rK; F(a) F(c){ ld s=-2*al.v*K[a][c],t=-DDa[a][c]+al.v*(y->R[a][c]+DZ[a][c]+DZ[c][a]-2*K2[a][c]+K[a][c]*(tr-2*Th.v)); F(d){ s+=be[d].v*dg[d][a][c]+g[a][d]*be[d].d[c]+g[d][c]*be[d].d[a]; t+=be[d].v*dK[d][a][c]+K[a][d]*be[d].d[c]+K[d][c]*be[d].d[a]; } rg[a][c]=s; rK[a][c]=t; }
      ld dZ=0,Za=0; F(a) F(c){ dZ+=y->gi[a][c]*DZ[a][c]; Za+=y->gi[a][c]*Z[a].v*al.d[c]; } ld rT=al.v/2*(R+2*dZ+tr*(tr-2*Th.v)-KK)-Za-O.k1*Th.v; F(a) rT+=be[a].v*Th.d[a];
      V3 rZ; F(a){ ld s=0; F(c) F(d){ ld t=dK[c][a][d]-dK[a][c][d]; F(e) t+=-y->up[e][c][a]*K[e][d]-y->up[e][c][d]*K[a][e]+y->up[e][a][c]*K[e][d]+y->up[e][a][d]*K[c][e]; s+=y->gi[c][d]*(t-2*K[a][c]*Z[d].v); } s=al.v*(s+Th.d[a])-Th.v*al.d[a]-O.k2*Z[a].v; F(c) s+=be[c].v*Z[a].d[c]+Z[c].v*be[c].d[a]; rZ[a]=s; }
      ld ra=0; if(O.lapse){ if(O.wshift) F(a) ra+=be[a].v*al.d[a]; ra+=(O.lapse==1?O.f:al.v)*(-al.v*(tr-(O.subK0?VD("K_initial",0)[q]:0)-O.m*Th.v))*powl(ps.v,O.ppow); }
      ld sc=0,gm=0; F(a) F(c){ gm+=fabsl(y->gi[a][c]); sc+=K[a][c]*K[a][c]+fabsl(al.dd[a][c]); F(d){ sc+=dg[a][c][d]*dg[a][c][d]+fabsl(dK[a][c][d]); F(e) sc+=fabsl(ddg[a][c][d][e]); } } ld tol=1e-9L*(1+gm)*(1+gm)*(1+sc)*(2+fabsl(al.v))*fabsl(w)+1e-13L;
      #define PR2(k) (dt!=0?(ld)o->v[up->index[k]][q]:0)
      #define NE2(k) o->v[un->index[k]][q]
      F(a) F(c) if(c>=a){ cmp("z4-metric","g",q,NE2(SI[a][c]),PR2(SI[a][c])+w*rg[a][c],tol); cmp("z4-K","K",q,NE2(6+SI[a][c]),PR2(6+SI[a][c])+w*rK[a][c],tol); } cmp("z4-Theta","Theta",q,NE2(12),PR2(12)+w*rT,tol); F(a) cmp("z4-Z","Z",q,NE2(13+a),PR2(13+a)+w*rZ[a],tol); cmp("z4-lapse","alpha",q,NE2(16),PR2(16)+w*ra,tol); F(a){ cmp("z4-shift","beta",q,NE2(17+a),PR2(17+a),0); cmp("z4-shift","betadot",q,NE2(20+a),PR2(20+a),0); } vh_count("points of the Z4 system",1); } }
  vlfree(up); vlfree(un); vlfree(Z4secondOvars); vh_case(1,"%s dt=%g",T,dt); vg_free(G); RunFun(LAST,0); }
/* ================================================================ 4: exact space times: Kerr or flat space in moving curved coordinates */
typedef ld M4[4][4];
static ld KM,KA[3],XC[3],EPS,QC[4][15];
static void ks4(const ld *X,M4 g)
{ int i,j; ld rho2=0,a2=0,ax=0; F(i){ rho2+=X[i]*X[i]; a2+=KA[i]*KA[i]; ax+=KA[i]*X[i]; } ld r2=0.5L*(rho2-a2+sqrtl((rho2-a2)*(rho2-a2)+4*ax*ax)),r=sqrtl(r2),H=KM*r2*r/(r2*r2+ax*ax),l[4]; l[0]=1; F(i){ int p=(i+1)%3,q=(i+2)%3; ld cr=KA[p]*X[q]-KA[q]*X[p]; l[i+1]=(r2*X[i]-r*cr+ax*KA[i])/(r*(r2+a2)); } for(i=0;i<4;i++) for(j=0;j<4;j++) g[i][j]=2*H*l[i]*l[j]+(i==j?(i?1:-1):0); }
static void met4(const ld *x,M4 g)
{ int i,j,k,m; ld y[4]={x[0],x[1]-XC[0],x[2]-XC[1],x[3]-XC[2]},X[4],J[4][4]; M4 h; for(i=0;i<4;i++){ X[i]=x[i]; for(j=0;j<4;j++) J[i][j]=i==j; m=0; for(j=0;j<4;j++){ X[i]+=EPS*QC[i][m]*y[j]; J[i][j]+=EPS*QC[i][m]; m++; } for(j=0;j<4;j++) for(k=j;k<4;k++){ X[i]+=EPS*QC[i][m]*y[j]*y[k]; J[i][j]+=EPS*QC[i][m]*y[k]; J[i][k]+=EPS*QC[i][m]*y[j]; m++; } }
  ks4(X+1,h); for(i=0;i<4;i++) for(j=0;j<4;j++){ g[i][j]=0; for(k=0;k<4;k++) for(m=0;m<4;m++) g[i][j]+=h[k][m]*J[k][i]*J[m][j]; } }
static const ld FD6[3]={0.75L,-0.15L,1.0L/60}; static const ld FH=0.01L;
typedef struct { ld s[26]; } adm4; /* g 6, K 6, alpha, beta 3, G 3 (with conformal factor), phi, trK, gt 6.. */
static ld psi_at(const ld *X){ jet j; fld_at(&getf("psi")->f[0],X,&j); return j.v; }
static void gti(const ld *x,M3 gi){ M4 g; M3 m; int a,b; met4(x,g); F(a) F(b) m[a][b]=g[a+1][b+1]; ld c=cbrtl(det3(m)); F(a) F(b) m[a][b]/=c; inv3(m,gi); }
/* 0-5 g, 6-11 K, 12 alpha, 13-15 beta, 16-18 G, 19 trK, 20 log det g (physical metric) */
static void adm_at(const ld *x,adm4 *o,int withG)
{ M4 g,dg[4]; int a,b,c,k; met4(x,g); M3 h,hi; F(a) F(b) h[a][b]=g[a+1][b+1]; inv3(h,hi); V3 be; ld al=-g[0][0]; F(a){ be[a]=0; F(b) be[a]+=hi[a][b]*g[0][b+1]; al+=be[a]*g[0][a+1]; } al=sqrtl(al);
  for(c=0;c<4;c++){ memset(dg[c],0,sizeof(M4)); for(k=1;k<=3;k++){ ld y[4]; M4 p,m; memcpy(y,x,sizeof y); y[c]=x[c]+k*FH; met4(y,p); y[c]=x[c]-k*FH; met4(y,m); int i,j; for(i=0;i<4;i++) for(j=0;j<4;j++) dg[c][i][j]+=FD6[k-1]*(p[i][j]-m[i][j])/FH; } }
  ld u0[4]={-1/(al*al)}; F(a) u0[a+1]=be[a]/(al*al); ld tr=0; F(a) F(b){ ld s=0; int m; for(m=0;m<4;m++) s+=u0[m]*0.5L*(dg[a+1][b+1][m]+dg[b+1][a+1][m]-dg[m][a+1][b+1]); s*=-al; tr+=hi[a][b]*s; if(b>=a){ o->s[SI[a][b]]=h[a][b]; o->s[6+SI[a][b]]=s; } }
  o->s[12]=al; F(a) o->s[13+a]=be[a]; o->s[19]=tr; o->s[20]=logl(det3(h)); if(withG){ F(a) o->s[16+a]=0; F(b) for(k=1;k<=3;k++){ ld y[4]; M3 p,m; memcpy(y,x,sizeof y); y[b+1]=x[b+1]+k*FH; gti(y,p); y[b+1]=x[b+1]-k*FH; gti(y,m); F(a) o->s[16+a]-=FD6[k-1]*(p[a][b]-m[a][b])/FH; } } }
static ld exact_worst[40];
static void ecmp(int slot,const char *key,const char *what,long q,double got,ld want,ld tol){ ld e=fabsl(got-want)/tol; if(!(e<=exact_worst[slot])) exact_worst[slot]=e; cmp(key,what,q,got,want,tol); }
static void bssn_of(const adm4 *A,ld psi,ld *u) /* 0-5 gt, 6 phi, 7-12 At, 13 K, 14-16 G */
{ int k; ld e=expl(A->s[20]/3); for(k=0;k<6;k++){ u[k]=A->s[k]/e; u[7+k]=(A->s[6+k]-A->s[k]*A->s[19]/3)/e; } u[6]=A->s[20]/12-logl(psi); u[13]=A->s[19]; for(k=0;k<3;k++) u[14+k]=A->s[16+k]; }
static void part_exact(int z4)
{ int a,b,k,m; opt O; zopt Z; vg_reset(); T[0]=0; vg_par("physics=ADMvars %s",z4?"Z4secondO":"BSSN"); vg_par("ADMvars_exitifNAN=no"); vg_par("nboxes=1"); vg_par("Coordinates_set_bfaces=no"); KM=vh_int(0,3)?vh_range(0.3,1):0; ld dist=vh_range(3.5,7),dir[3],nn=0; F(a){ dir[a]=vh_range(-1,1); nn+=dir[a]*dir[a]; } nn=sqrtl(nn)+1e-3L; const char *B[3]; F(a){ KA[a]=KM>0&&vh_int(0,2)?vh_range(-.45,.45):0; XC[a]=dist*dir[a]/nn; double h=vh_range(0.25,0.4); BB[2*a]=XC[a]-h; BB[2*a+1]=XC[a]+h; NN[a]=vh_int(9,10); BAS[a]=vh_int(0,2)?B_EXT:B_ZER; B[a]=BNAME[BAS[a]]; } vg_box(0,NN[0],NN[1],NN[2],B[0],B[1],B[2],BB);
  EPS=vh_int(0,5)?vh_range(0.02,0.12):0; for(k=0;k<4;k++) for(m=0;m<14;m++) QC[k][m]=vh_range(-1,1); if(z4) z4_opts(&Z); else { bssn_opts(&O); } snprintf(T,sizeof T,"%s M=%Lg a=(%Lg,%Lg,%Lg) eps=%Lg",vg_desc,KM,KA[0],KA[1],KA[2],EPS); vh_at("%s",T); G=vg_make(1); use_box(0); tBox *o=G->box[0]; long q;
  const char *en[]={"gxx","Kxx","alpha","betax","betadotx"}; for(k=0;k<5;k++) enablevar(G,Ind((char*)en[k])); nfv=0; psi_fields(z4?1:vh_int(0,1)); if(!z4){ getf("psi")->f[0].f.nr=1; } 
  /* smooth conformal factor: low order only */ { fld *f=&getf("psi")->f[0]; int d; f3_rand(&f->f,BAS,(int[]){3,3,3},BB,0); F(d) f->f.f[0][d].bas=B_EXT; f->f.nr=1; if(f->amp!=0) f->amp=0.002L/f3_amp(&f->f,0,0,0); } put_psi();
  adm4 *E=malloc(o->nnodes*sizeof *E); ld *ps=malloc(o->nnodes*sizeof *ps); for(q=0;q<o->nnodes;q++){ ld x[4]={0,VD("x",0)[q],VD("y",0)[q],VD("z",0)[q]}; ps[q]=psi_at(x+1); adm_at(x,&E[q],1); ld p4=powl(ps[q],4); for(k=0;k<6;k++){ VD("gxx",k)[q]=E[q].s[k]/p4; VD("Kxx",k)[q]=E[q].s[6+k]; } VD("alpha",0)[q]=E[q].s[12]; F(a){ VD("betax",a)[q]=E[q].s[13+a]; VD("betadotx",a)[q]=vh_range(-1,1); } }
  set_K_initial(G); K_initial->grid=G;
  /* constraints vanish */
  { tVarList *u=vlalloc(G); const char *nm[]={"gxx","Kxx","alpha","betax","rho","jx","Sxx","ham","momx","trK","dtrK_dt","ham","momx"}; for(k=0;k<13;k++){ vlpush(u,Ind((char*)nm[k])); if(k>=7) enablevar(G,Ind((char*)nm[k])); } ADMconstraints(u); vlfree(u); for(q=0;q<o->nnodes;q++){ ecmp(0,"vacuum-hamiltonian","ham",q,VD("ham",0)[q],0,3e-6L); F(a) ecmp(1,"vacuum-momentum","mom",q,VD("momx",a)[q],0,3e-6L); ecmp(2,"trace","trK",q,VD("trK",0)[q],E[q].s[19],1e-9L); } }
  RunFun(POST_INITIALDATA,G); tVarList *V=z4?Z4secondOvars:BSSNvars,*un=AddDuplicateEnable(V,"_n"),*up=AddDuplicateEnable(V,"_p"); 
  if(!z4){ for(q=0;q<o->nnodes;q++){ ld u[17]; bssn_of(&E[q],ps[q],u); for(k=0;k<17;k++) ecmp(k<14?3:4,k<14?"adm-to-bssn":"adm-to-bssn-G","BSSN variable",q,o->v[V->index[k]][q],u[k],k<14?1e-12L:1e-6L); ecmp(5,"density","alphaDensity",q,o->v[V->index[24]][q],E[q].s[12]*expl(-O.w*E[q].s[20]/2),1e-11L); }
    /* and back */ double *sv[12]; for(k=0;k<12;k++){ double *u=VD(k<6?"gxx":"Kxx",k%6); sv[k]=malloc(8*o->nnodes); memcpy(sv[k],u,8*o->nnodes); for(q=0;q<o->nnodes;q++) u[q]=vh_range(-1,1); } RunFun(POST_EVOLVE,G); for(k=0;k<12;k++){ double *u=VD(k<6?"gxx":"Kxx",k%6); for(q=0;q<o->nnodes;q++) ecmp(6,"round-trip",k<6?"g":"K",q,u[q],sv[k][q],1e-12L); free(sv[k]); } }
  else for(q=0;q<o->nnodes;q++) for(k=12;k<16;k++) o->v[V->index[k]][q]=0;
  double dt=!z4&&O.dens?0.5:0; if(dt!=0) for(k=0;k<V->n;k++) memset(o->v[up->index[k]],0,8*o->nnodes); 
  if(z4) Z4secondO_rhs(un,up,0,V); else { if(dt!=0){ for(k=0;k<V->n;k++) for(q=0;q<o->nnodes;q++) o->v[up->index[k]][q]=o->v[V->index[k]][q]; } BSSN_rhs(un,up,dt,V); }
  for(q=0;q<o->nnodes;q++){ ld d[21]={0},u[17],du[17]={0}; for(m=1;m<=3;m++){ adm4 p,n; ld x[4]={0,VD("x",0)[q],VD("y",0)[q],VD("z",0)[q]}; x[0]=m*FH; adm_at(x,&p,!z4); x[0]=-m*FH; adm_at(x,&n,!z4); for(k=0;k<21;k++) if(z4&&k>=16&&k<=18) continue; else d[k]+=FD6[m-1]*(p.s[k]-n.s[k])/FH; if(!z4){ ld r[17]; bssn_of(&p,ps[q],u); bssn_of(&n,ps[q],r); for(k=0;k<17;k++) du[k]+=FD6[m-1]*(u[k]-r[k])/FH; } }
    if(q%7==0) { /* the trace's own equation is exact as well */ ecmp(7,"vacuum-trace-rate","dtrK_dt",q,VD("dtrK_dt",0)[q],d[19],3e-6L); }
    if(z4){ for(k=0;k<12;k++) ecmp(8,"exact-z4","rate of g, K",q,o->v[un->index[k]][q],d[k],3e-6L); for(k=12;k<16;k++) ecmp(9,"exact-z4","rate of Theta, Z",q,o->v[un->index[k]][q],0,3e-6L); }
    else { if(dt!=0&&(O.regzz||O.reAzz||O.subA||O.ndet)) continue; for(k=0;k<17;k++){ if(k>=14&&O.freeze) du[k]=0; ld tol=k<14?3e-6L:3e-5L; double got=o->v[un->index[k]][q]; if(dt!=0) got=(got-o->v[V->index[k]][q])/dt; if(k==6&&O.gentle) tol=tol*(1+1/fabsl(E[q].s[19])); ecmp(10+(k<6?0:k==6?1:k<13?2:k==13?3:4),"exact-bssn",k<6?"rate of metric":k==6?"rate of phi":k<13?"rate of A":k==13?"rate of K":"rate of G",q,got,du[k],tol); } } vh_count("points of exact space times",1); }
  free(E); free(ps); vlfree(up); vlfree(un); vlfree(V); vh_case(1,"%s",T); vg_free(G); RunFun(LAST,0); }

/* ================================================================ 5: initial data of the modules */
static ld ks_psi(const ld *X,int conf){ ld r=0; int i; F(i) r+=X[i]*X[i]; return conf?1+2*KM/sqrtl(r):1; }
static int anybasis(int d,int nlo,int nhi){ int b=vh_int(0,3)==0?B_ZER:B_EXT; NN[d]=vh_int(nlo,nhi); BAS[d]=b; return b; }
static void part_bh(void)
{ int a,b,iso,conf,one,zero; vg_reset(); T[0]=0; vg_par("physics=ADMvars SingleBH"); vg_par("ADMvars_exitifNAN=no"); vg_par("nboxes=1"); vg_par("Coordinates_set_bfaces=no"); KM=vh_range(0.2,1.2); EPS=0; ld dist=vh_range(3.5,8),dir[3],nn=0; F(a){ dir[a]=vh_range(-1,1); nn+=dir[a]*dir[a]; } nn=sqrtl(nn)+1e-3L; const char *B[3];
  iso=vh_int(0,2)==0; conf=vh_int(0,1); one=vh_int(0,3)==0; zero=vh_int(0,3)==0; F(a){ KA[a]=vh_int(0,2)?vh_range(-.45,.45):0; XC[a]=dist*dir[a]/nn; double h=vh_range(0.25,0.4); BB[2*a]=XC[a]-h; BB[2*a+1]=XC[a]+h; B[a]=BNAME[anybasis(a,9,10)]; vg_par("BHs%c1=%.17Lg","xyz"[a],KA[a]); KA[a]=(double)KA[a]; } vg_box(0,NN[0],NN[1],NN[2],B[0],B[1],B[2],BB); KM=(double)KM; vg_par("BHmass1=%.17Lg",KM); vg_par("SingleBH_type=%s",iso?"isotropic":"KerrSchild"); vg_par("SingleBH_ConformalFactor=%s",conf?"yes":"no"); vg_par("SingleBH_initial_lapse=%s",one?"one":"donothing"); vg_par("SingleBH_initial_shift=%s",zero?"zero":"donothing");
  snprintf(T,sizeof T,"%s hole M=%Lg a=(%Lg,%Lg,%Lg) conformal factor %d",iso?"isotropic":"Kerr-Schild",KM,KA[0],KA[1],KA[2],conf); vh_at("%s",vg_desc); G=vg_make(1); use_box(0); tBox *o=G->box[0]; long q; RunFun(PRE_INITIALDATA,G); RunFun(INITIALDATA,G);
  const char *xn[]={"x","y","z"}; for(q=0;q<o->nnodes;q++){ adm4 E; ld x[4]={0}; F(a) x[a+1]=o->v[Ind((char*)xn[a])][q]; F(a) XC[a]=XC[a]; ld r=sqrtl(x[1]*x[1]+x[2]*x[2]+x[3]*x[3]),ps=VD("psi",0)[q],p4=powl(ps,4);
    if(iso){ ld f=1+KM/(2*r),f4=powl(f,4); F(a) F(b) if(b>=a){ E.s[SI[a][b]]=a==b?f4:0; E.s[6+SI[a][b]]=0; } E.s[12]=(1-KM/(2*r))/f; F(a) E.s[13+a]=0; E.s[19]=0; } else { ld sv[3]; F(a){ sv[a]=XC[a]; XC[a]=0; } adm_at(x,&E,0); F(a) XC[a]=sv[a]; }
    int k; for(k=0;k<6;k++){ cmp("hole-metric","physical metric",q,p4*VD("gxx",k)[q],E.s[k],1e-13L*10); cmp("hole-K","extrinsic curvature",q,VD("Kxx",k)[q],E.s[6+k],1e-10L); } cmp("hole-lapse","lapse",q,VD("alpha",0)[q],one?1:E.s[12],1e-13L); F(a) cmp("hole-shift","shift",q,VD("betax",a)[q],zero?0:E.s[13+a],1e-13L); if(!conf) cmp("hole-psi","psi",q,ps,1,0); cmp("K-initial","K_initial",q,o->v[K_initial->index[0]][q],E.s[19],1e-10L); }
  /* the derivatives of psi belong to psi */
  { double *d[3],*dd[6],*u=VD("psi",0); int k; F(k) d[k]=malloc(8*o->nnodes); for(k=0;k<6;k++) dd[k]=malloc(8*o->nnodes); cart_partials(o,u,d[0],d[1],d[2]); F(a){ double *t[3]; F(k) t[k]=malloc(8*o->nnodes); cart_partials(o,d[a],t[0],t[1],t[2]); for(b=a;b<3;b++) memcpy(dd[SI[a][b]],t[b],8*o->nnodes); F(k) free(t[k]); } for(q=0;q<o->nnodes;q++){ F(a) ecmp(20,"hole-dpsi","dpsi/psi",q,VD("dpsiopsix",a)[q],d[a][q]/(ld)u[q],1e-6L); for(k=0;k<6;k++) ecmp(21,"hole-ddpsi","ddpsi/psi",q,VD("ddpsiopsixx",k)[q],dd[k][q]/(ld)u[q],1e-5L); } F(k) free(d[k]); for(k=0;k<6;k++) free(dd[k]); }
  { tVarList *u=vlalloc(G); const char *nm[]={"gxx","Kxx","alpha","betax","rho","jx","Sxx","ham","momx","trK","dtrK_dt","ham","momx"}; int k; for(k=0;k<13;k++){ vlpush(u,Ind((char*)nm[k])); enablevar(G,Ind((char*)nm[k])); } ADMconstraints(u); vlfree(u); for(q=0;q<o->nnodes;q++){ ecmp(22,"hole-hamiltonian","ham",q,VD("ham",0)[q],0,3e-6L); F(a) ecmp(23,"hole-momentum","mom",q,VD("momx",a)[q],0,3e-6L); if(!one&&!zero&&!iso) ecmp(24,"hole-stationary","dtrK_dt",q,VD("dtrK_dt",0)[q],0,3e-6L); } }
  vh_count("points of black hole data",o->nnodes); vh_case(1,"%s",T); vg_free(G); RunFun(LAST,0); }

/* ================================================================ 6: ADM energy on spheres */
static void surf_dens(const ld *X,int conf,int iso,int wpsi,ld *out)
{ int a,b,c,d,k; M3 g,gi; T3 dg; F(c) F(a) F(b) dg[c][a][b]=0; ld r=0; F(a) r+=X[a]*X[a]; r=sqrtl(r); for(k=0;k<=3;k++) F(c){ int s; for(s=-1;s<=1;s+=2){ ld y[4]={0,X[0],X[1],X[2]}; y[c+1]+=s*k*FH; M4 m; if(iso){ ld f=powl(1+KM/(2*sqrtl(y[1]*y[1]+y[2]*y[2]+y[3]*y[3])),4); F(a) F(b) m[a+1][b+1]=a==b?f:0; } else met4(y,m); F(a) F(b){ if(!k) g[a][b]=m[a+1][b+1]; else dg[c][a][b]+=s*FD6[k-1]*m[a+1][b+1]/FH; } } }
  inv3(g,gi); ld s=0; F(a) F(b) F(c) F(d) s+=gi[a][b]*gi[c][d]*(dg[d][b][c]-dg[b][c][d])*X[a]/r; *out=s*det3(g)/(16*LPI); (void)conf; (void)wpsi; }
static void part_eadm(void)
{ int a,conf,iso; vg_reset(); T[0]=0; vg_par("physics=ADMvars SingleBH"); vg_par("ADMvars_exitifNAN=no"); vg_par("nboxes=1"); vg_par("Coordinates_set_bfaces=no"); vg_par("0doutput=E_ADM"); vg_par("0doutiter=1"); KM=(double)vh_range(0.2,1.2); EPS=0; iso=vh_int(0,2)==0; conf=vh_int(0,1); F(a){ XC[a]=0; KA[a]=vh_int(0,1)?(double)vh_range(-.4,.4):0; vg_par("BHs%c1=%.17Lg","xyz"[a],KA[a]); } vg_par("BHmass1=%.17Lg",KM); vg_par("SingleBH_type=%s",iso?"isotropic":"KerrSchild"); vg_par("SingleBH_ConformalFactor=%s",conf?"yes":"no");
  double r0=vh_range(4,20),bb[6]={r0,r0*vh_range(1.1,1.4),0,2*PI,0,2*PI}; int n1=vh_int(9,11),n2=2*vh_int(8,9),n3=vh_int(15,17); vg_par("box0_Coordinates=SphericalDF"); vg_box(0,n1,n2,n3,"ChebExtrema","Fourier","Fourier",bb); vg_par("box0_min2=0"); vg_par("box0_max2=2*pi"); vg_par("box0_min3=0"); vg_par("box0_max3=2*pi"); snprintf(T,sizeof T,"%s M=%Lg a=(%Lg,%Lg,%Lg) conf %d r from %g n=%d,%d,%d",iso?"isotropic":"Kerr-Schild",KM,KA[0],KA[1],KA[2],conf,r0,n1,n2,n3); vh_at("%s",vg_desc); G=vg_make(1); tBox *o=G->box[0]; BI=0; RunFun(PRE_INITIALDATA,G); RunFun(INITIALDATA,G); computeADMconstraints(G); int i,j; long q;
  for(i=0;i<n1;i++){ ld r=o->v[Ind("X")][i],E=0; if(iso) E=KM*powl(1+KM/(2*r),7); else { int nt=24; for(j=0;j<nt;j++){ ld z=cosl(LPI*(j+0.75L)/(nt+0.5L)),p0,p1,p2,dp; int it,l; for(it=0;it<20;it++){ p0=1; p1=z; for(l=2;l<=nt;l++){ p2=((2*l-1)*z*p1-(l-1)*p0)/l; p0=p1; p1=p2; } dp=nt*(z*p1-p0)/(z*z-1); z-=p1/dp; } ld w=2/((1-z*z)*dp*dp),st=sqrtl(1-z*z); int m,np=24; for(m=0;m<np;m++){ ld ph=2*LPI*m/np,X[3]={r*st*cosl(ph),r*st*sinl(ph),r*z},D; surf_dens(X,conf,iso,0,&D); E+=w*2*LPI/np*r*r*D; } } }
    ld got=o->v[Ind("E_ADM")][i]; (void)q; ecmp(25,"adm-energy","E_ADM",i,got,E,1e-5L*(1+fabsl(E))); vh_count("spheres for the ADM energy",1); }
  vh_case(1,"%s",T); vg_free(G); RunFun(LAST,0); }

/* ================================================================ 7: algebraic constraints */
static void part_alg(void)
{ int nb=vh_int(1,2),b,k,a,c; vg_reset(); T[0]=0; vg_par("physics=ADMvars BSSN"); vg_par("ADMvars_exitifNAN=no"); pick_box(2,6,1,nb); int nd=onoff("BSSN_normalizedetg"),sa=onoff("BSSN_subtractA"); vg_par("BSSN_enforce_AlgConstr=yes"); snprintf(T,sizeof T,"normalizedetg %d subtractA %d",nd,sa); vh_at("%s",vg_desc); G=vg_make(1); enablevar(G,Ind("BSSN_gxx")); enablevar(G,Ind("BSSN_Axx")); long q,tot=0; double *old[2]; for(b=0;b<nb;b++){ use_box(b); for(q=0;q<G->box[b]->nnodes;q++){ M3 L={{0}}; F(a){ F(c) if(c<a) L[a][c]=vh_range(-1,1); L[a][a]=vh_range(0.3,2); } F(a) F(c) if(c>=a){ ld s=0; F(k) s+=L[a][k]*L[c][k]; VD("BSSN_gxx",SI[a][c])[q]=s; VD("BSSN_Axx",SI[a][c])[q]=vh_range(-2,2); } tot++; } }
  old[0]=malloc(8*6*(tot+1)); old[1]=malloc(8*6*(tot+1)); tot=0; for(b=0;b<nb;b++){ use_box(b); for(q=0;q<G->box[b]->nnodes;q++,tot++) for(k=0;k<6;k++){ old[0][6*tot+k]=VD("BSSN_gxx",k)[q]; old[1][6*tot+k]=VD("BSSN_Axx",k)[q]; } }
  RunFun(PRE_POST_EVOLVE,G); tot=0; for(b=0;b<nb;b++){ use_box(b); for(q=0;q<G->box[b]->nnodes;q++,tot++){ M3 g,A,h,hi,n; F(a) F(c){ g[a][c]=old[0][6*tot+SI[a][c]]; A[a][c]=old[1][6*tot+SI[a][c]]; } ld D=det3(g),f=nd?1/cbrtl(D):1,tr=0,sc=0; F(a) F(c) h[a][c]=f*g[a][c]; inv3(h,hi); F(a) F(c){ tr+=hi[a][c]*A[a][c]; sc+=fabsl(hi[a][c]*A[a][c]); } F(a) F(c) if(c>=a){ k=SI[a][c]; cmp("alg-metric","g",q,VD("BSSN_gxx",k)[q],h[a][c],nd?1e-12L*(1+fabsl(h[a][c])):0); cmp("alg-A","A",q,VD("BSSN_Axx",k)[q],A[a][c]-(sa?h[a][c]*tr/3:0),sa?1e-11L*(1+sc)*(1+fabsl(h[a][c])):0); } F(a) F(c) n[a][c]=VD("BSSN_gxx",SI[a][c])[q]; if(nd) cmp("alg-determinant","det",q,det3(n),1,1e-10L); vh_count("points with enforced algebraic constraints",1); } }
  free(old[0]); free(old[1]); vh_case(nd||sa,"%s",T); vg_free(G); RunFun(LAST,0); }

/* ================================================================ 8: evolved gauge wave */
static void part_wave(void)
{ int z4=vh_int(0,1),a,k,p,own,lin=0; vg_reset(); T[0]=0; vg_par("physics=ADMvars TestID %s",z4?"Z4secondO":"BSSN"); vg_par("ADMvars_exitifNAN=no"); vg_par("nboxes=1"); vg_par("Coordinates_set_bfaces=no"); own=vh_int(0,1); p=own?vh_int(0,2):0; double L=vh_range(0.7,2),A=vh_range(0.02,0.12),off=vh_range(-1,1); if(own) off=off; int n[3]; double bb[6]; F(a){ n[a]=a==p?vh_int(17,20):vh_int(1,4); bb[2*a]=a==p?off:0; bb[2*a+1]=a==p?off+L:1; } L=bb[2*p+1]-bb[2*p]; vg_box(0,n[0],n[1],n[2],"Fourier","Fourier","Fourier",bb); vg_par("TestID_amplitude=%.17g",A); vg_par("TestID_initial_shift=zero"); if(vh_int(0,3)==0&&!own) lin=1; vg_par("TestID_type=%s",lin?"1dLinearWave":"1dGaugeWave");
  const char *M=z4?"Z4secondO":"BSSN"; int nd=0,sa=0; vg_par("%s_lapse=%s",M,lin?"constant":"harmonic"); vg_par("%s_lapseharmonicf=1",M); vg_par("%s_subtractK0=no",M); vg_par("%s_shift=constant",M); vg_par("%s_useDD=%s",M,vh_int(0,1)?"yes":"no"); if(!z4){ vg_par("BSSN_enforce_AlgConstr=yes"); nd=onoff("BSSN_normalizedetg"); sa=onoff("BSSN_subtractA"); onoff("BSSN_GReplacedBydg"); num("BSSN_YoTermFactor",0,0,1); num("BSSN_RtoRminusHfactor",1,0,1); } else { num("Z4secondO_RtoRminusHfactor",0,0,1); num("Z4secondO_kappa1",0,0,1); num("Z4secondO_kappa2",0,0,1); num("Z4secondO_lapseharmonicm",0,0,2); }
  int st=vh_n(20,40),s; double dt=vh_range(0.08,0.15)*L/20; const char *me[]={"rk","rk","icn"}; int mi=vh_int(0,2); vg_par("evolution_method=%s",me[mi]); vg_par("evolution_method_rk=rk4"); vg_par("dt=%.17g",dt); snprintf(T,sizeof T,"%s %s wave A=%g L=%g axis %d, %s, %d steps of %g",M,lin?"linear":"gauge",A,L,p,me[mi],st,dt); vh_at("%s",vg_desc); G=vg_make(1); use_box(0); tBox *o=G->box[0]; long q; G->dt=dt; RunFun(PRE_INITIALDATA,G); RunFun(INITIALDATA,G);
  int px=SI[p][p],p2=SI[(p+1)%3][(p+1)%3],p3=SI[(p+2)%3][(p+2)%3]; const char *xn=p==0?"x":p==1?"y":"z"; ld w=2*LPI/L;
  for(q=0;q<o->nnodes;q++){ ld x=VD(xn,0)[q],S=A*sinl(w*x),C=A*cosl(w*x); ld g[6]={1,0,0,1,0,1},K[6]={0}; if(lin){ g[3]+=S; g[5]-=S; K[3]=w*C/2; K[5]=-w*C/2; } else { g[px]+=S; K[px]=w*C/(2*sqrtl(1+S)); }
    if(own){ for(k=0;k<6;k++){ VD("gxx",k)[q]=g[k]; VD("Kxx",k)[q]=K[k]; } VD("alpha",0)[q]=sqrtl(1+S); } else { for(k=0;k<6;k++){ cmp("test-data","metric",q,VD("gxx",k)[q],g[k],1e-14L*4); cmp("test-data","extrinsic curvature",q,VD("Kxx",k)[q],K[k],1e-13L); } cmp("test-data","lapse",q,VD("alpha",0)[q],lin?1:sqrtl(1+S),1e-14L); F(a) cmp("test-data","shift",q,VD("betax",a)[q],0,0); cmp("test-data","psi",q,VD("psi",0)[q],1,0); } }
  if(own) set_K_initial(G); (void)p2; (void)p3;
  RunFun(POST_INITIALDATA,G); RunFun(PRE_POST_EVOLVE,G); RunFun(POST_EVOLVE,G);
  for(s=1;s<=st;s++){ RunFun(PRE_EVOLVE,G); RunFun(EVOLVE,G); RunFun(PRE_POST_EVOLVE,G); RunFun(POST_EVOLVE,G); G->iteration++; G->time=G->iteration*G->dt;
    if(!z4) for(q=0;q<o->nnodes;q++){ M3 m,mi2; ld t=0; int c; F(a) F(c) m[a][c]=VD("BSSN_gxx",SI[a][c])[q]; inv3(m,mi2); F(a) F(c) t+=mi2[a][c]*VD("BSSN_Axx",SI[a][c])[q]; if(nd) cmp("evolved-determinant","det",q,det3(m),1,1e-13L*10); if(sa) cmp("evolved-trace","trA",q,t,0,1e-12L); }
    if(s%5==0||s==st) for(q=0;q<o->nnodes;q++){ ld x=VD(xn,0)[q]-G->time,S=A*sinl(w*x),C=A*cosl(w*x),g[6]={1,0,0,1,0,1},K[6]={0}; ld wd=w*dt,tol=mi==2?wd*wd*w*G->time*A+1e-9L:5e-7L*A; if(lin){ g[3]+=S; g[5]-=S; K[3]=w*C/2; K[5]=-w*C/2; tol=A*A*(1+w*G->time)*4; } else { g[px]+=S; K[px]=w*C/(2*sqrtl(1+S)); } for(k=0;k<6;k++){ ecmp(26+2*lin+4*(mi==2),"evolved-metric","metric",q,VD("gxx",k)[q],g[k],tol); ecmp(27+2*lin+4*(mi==2),"evolved-K","extrinsic curvature",q,VD("Kxx",k)[q],K[k],tol*w*4); } ecmp(34,"evolved-lapse","lapse",q,VD("alpha",0)[q],lin?1:sqrtl(1+S),tol); F(a) cmp("evolved-shift","shift",q,VD("betax",a)[q],0,1e-12L); if(z4) for(k=12;k<16;k++) ecmp(35,"evolved-z4","Theta, Z",q,o->v[Z4secondOvars->index[k]][q],0,tol*w*w*10); vh_count("points of evolved waves",1); } }
  vlfree(z4?Z4secondOvars:BSSNvars); vh_case(1,"%s",T); vg_free(G); RunFun(LAST,0); }
int main(int c,char **v)
{ int s=c>1?atoi(v[1]):0,i,n; vh_init(2400+s); vh_silence(); n=vh_n(4,8); for(i=0;i<n;i++){ if(c>2) break; vh_reseed(240000+100*s+i); part_adm(); part_bssn(); part_z4(); if(i%2==0) part_exact(vh_int(0,1)); else part_bh(); if(i%4==0) part_eadm(); part_alg(); } /* one wave per process: the evolution code keeps lists from the first run */ if(c>2){ vh_reseed(245000+s); part_wave(); } if(getenv("WORST")) for(i=0;i<40;i++) if(exact_worst[i]>0) fprintf(stderr,"%d %Lg\n",i,exact_worst[i]); vh_end(); return 0; }
