/* spec.c: derivatives, transforms (C12), interpolation and integration (C13), filters (C14) on real boxes */
#include "vgrid.h"
#include "f1.h"
void fillx(void);
void spec_Deriv1_diffmatrix(tBox*,int,double*,double*); void spec_Deriv2_diffmatrix(tBox*,int,double*,double*);
typedef struct { int n[3],bas[3]; double bb[6]; int T[3]; int flt[3]; char d[300]; } tB;
static int mode, PART;
static int fdok;
static double *xs[3][3];
static void randbox(tB *B,int b,int nb)
{ int d; char *p=B->d; int allext=!vh_int(0,6); static const char *TT[]={"0 NUMREC_FFT","0 FFTW3","10000 FFTW3","64 NUMREC_FFT","8 FFTW3"};
  for(d=0;d<3;d++){ int bas=allext?B_EXT:vh_int(0,fdok?4:2); int n; 
    switch(vh_int(0,3)){ case 0: n=1<<vh_int(2,vh_n(5,6)); if(bas==B_EXT) n++; break; case 1: n=vh_int(4,9); break; case 2: n=vh_int(4,vh_n(26,40)); break; default: n=vh_int(4,14);} 
    if(d==2){ while((long)B->n[0]*B->n[1]*n>vh_n(6000,30000)) n=4+n/4; if(n<4)n=4; }
    B->n[d]=n; B->bas[d]=bas; 
    double a,L; switch(vh_int(0,4)){ case 0: a=0;L=1;break; case 1: a=-1;L=2;break; case 2: a=vh_range(-50,50);L=vh_range(0.5,20);break; case 3: a=0;L=2*PI;break; default: a=vh_range(-2,2);L=exp(vh_range(-4,4)); }
    B->bb[2*d]=a; B->bb[2*d+1]=a+L; B->T[d]=vh_int(0,4); B->flt[d]=vh_int(0,1)?0:vh_int(0,n/2); }
  vg_box(b,B->n[0],B->n[1],B->n[2],BNAME[B->bas[0]],BNAME[B->bas[1]],BNAME[B->bas[2]],B->bb);
  for(d=0;d<3;d++){ vg_par("box%d_TransformType%d=%s",b,d+1,TT[B->T[d]]); if(mode==14) vg_par("box%d_filter%d=%d",b,d+1,B->flt[d]); }
  sprintf(p,"%dx%dx%d %s,%s,%s T%d%d%d [%g,%g][%g,%g][%g,%g]",B->n[0],B->n[1],B->n[2],BNAME[B->bas[0]],BNAME[B->bas[1]],BNAME[B->bas[2]],B->T[0],B->T[1],B->T[2],B->bb[0],B->bb[1],B->bb[2],B->bb[3],B->bb[4],B->bb[5]);
}
#define LOOP(B) for(k=0;k<(B)->n[2];k++) for(j=0;j<(B)->n[1];j++) for(i=0;i<(B)->n[0];i++)
static void pt(tB *B,int i,int j,int k,ld *X){ X[0]=f1_pt(B->bas[0],B->n[0],B->bb[0],B->bb[1],i); X[1]=f1_pt(B->bas[1],B->n[1],B->bb[2],B->bb[3],j); X[2]=f1_pt(B->bas[2],B->n[2],B->bb[4],B->bb[5],k); }
static int nwrong;
static void fill(tB *B,tf3 *F,double *u,int dx,int dy,int dz)
{ int i,j,k,r,d; long q=0; int dd[3]={dx,dy,dz}; static ld v[3][3][200];
  for(r=0;r<F->nr;r++) for(d=0;d<3;d++) for(i=0;i<B->n[d];i++) v[r][d][i]=f1_eval(&F->f[r][d],f1_pt(B->bas[d],B->n[d],B->bb[2*d],B->bb[2*d+1],i),dd[d]);
  LOOP(B){ ld s=0; for(r=0;r<F->nr;r++) s+=v[r][0][i]*v[r][1][j]*v[r][2][k]; u[q++]=s; } }
static void cmp(tB *B,const char *key,double *u,double *e,ld tol)
{ long q,N=(long)B->n[0]*B->n[1]*B->n[2]; ld w=0; long wq=0; for(q=0;q<N;q++){ ld x=fabsl((ld)u[q]-e[q]); if(!(x<=w)){w=x;wq=q;} if(x!=x){w=1e300L;wq=q;break;} }
  vh_count("points compared",N);
  if(w>tol){ vh_fail(key,"%s point %ld: %.17g expected %.17g, error %Lg tolerance %Lg",B->d,wq,u[wq],e[wq],w,tol); nwrong++; } }
#define EPS 1e-13L
static const char *key(const char *w,int bas,int T){ static char k[8][100]; static int q; q=(q+1)%8; sprintf(k[q],"%s:%s:%s",w,bas>=0?BNAME[bas]:"all",T<0?"-":T==MATRIX_MULTIPLICATION?"matrix":T==NUMREC_FFT?"numrec":"fftw"); return k[q]; }

static void deriv_tests(tGrid *g,tB *B,int b)
{ tBox *box=g->box[b]; long N=(long)B->n[0]*B->n[1]*B->n[2],q; int d,i,j,k; tf3 F; int T[3]={box->TransformType1,box->TransformType2,box->TransformType3};
  double *u=malloc(8*N),*w=malloc(8*N),*e=malloc(8*N),*c=malloc(8*N),*D[9]; for(i=0;i<9;i++) D[i]=malloc(8*N);
  vh_at("derivatives %s",B->d);
  for(d=0;d<3;d++){ double *X=box->v[Ind("X")+d]; ld L=fabsl(B->bb[2*d])+fabsl(B->bb[2*d+1]); q=0; LOOP(B){ ld P[3]; pt(B,i,j,k,P); if(fabsl(X[q]-P[d])>4e-16L*4*L){ vh_fail("grid-point","%s dir %d point %ld is %.17g not %.17Lg",B->d,d+1,q,X[q],P[d]); break; } q++; } }
  for(d=0;d<3;d++) vh_case(1,"D dir%d %s n%d T%d [%g %g]",d+1,BNAME[B->bas[d]],B->n[d],T[d],B->bb[2*d],B->bb[2*d+1]);
  f3_rand(&F,B->bas,B->n,B->bb,0); fill(B,&F,u,0,0,0); memcpy(w,u,8*N);
  ld A=f3_amp(&F,0,0,0);
  for(d=0;d<3;d++){ int o[3]={d==0,d==1,d==2}; ld t1=EPS*f3_amp(&F,o[0],o[1],o[2]),t2=EPS*f3_amp(&F,2*o[0],2*o[1],2*o[2]);
    memset(D[0],0x7f,8*N); spec_Deriv1(box,d+1,u,D[0]); fill(B,&F,e,o[0],o[1],o[2]); cmp(B,key("Deriv1",B->bas[d],T[d]),D[0],e,t1);
    memset(D[1],0x7f,8*N); spec_Deriv1_diffmatrix(box,d+1,u,D[1]); cmp(B,key("Deriv1_diffmatrix",B->bas[d],T[d]),D[1],D[0],t1);
    memset(D[0],0x7f,8*N); spec_Deriv2(box,d+1,u,D[0]); fill(B,&F,e,2*o[0],2*o[1],2*o[2]); cmp(B,key("Deriv2",B->bas[d],T[d]),D[0],e,t2);
    spec_Deriv2_diffmatrix(box,d+1,u,D[1]); cmp(B,key("Deriv2_diffmatrix",B->bas[d],T[d]),D[1],D[0],t2);
  }
  { static const int O[]={123,132,213,231,312,321}; int oo; static const int dd[9][3]={{1,0,0},{0,1,0},{0,0,1},{2,0,0},{1,1,0},{1,0,1},{0,2,0},{0,1,1},{0,0,2}};
    for(oo=0;oo<6;oo++) { if(oo && (T[0]||T[1]||T[2])) break; /* other orders are only offered with matrix multiplication */ char s[10]; sprintf(s,"%d",O[oo]); Sets("Spectral_second_deriv_order",s);
      for(i=0;i<9;i++) memset(D[i],0x7f,8*N);
      spec_allDerivs(box,u,D[0],D[1],D[2],D[3],D[4],D[5],D[6],D[7],D[8]);
      for(i=0;i<9;i++){ char kk[60]; int bd= i<3?B->bas[i]:i==3?B->bas[0]:i==6?B->bas[1]:i==8?B->bas[2]:-1; sprintf(kk,"allDerivs:%d%d%d:order%s",dd[i][0],dd[i][1],dd[i][2],s); fill(B,&F,e,dd[i][0],dd[i][1],dd[i][2]); cmp(B,key(kk,bd,-1),D[i],e,EPS*f3_amp(&F,dd[i][0],dd[i][1],dd[i][2])); } }
    { static int mo; char sx[10]; /* this one reads the order only when its buffers grow: one order per process */ if(!mo) mo=O[PART%6]; sprintf(sx,"%d",mo); Sets("Spectral_second_deriv_order",sx); for(i=0;i<9;i++) memset(D[i],0x7f,8*N);
      spec_allDerivs_diffmatrix(box,u,D[0],D[1],D[2],D[3],D[4],D[5],D[6],D[7],D[8]);
      for(i=0;i<9;i++){ char kk[60]; int bd= i<3?B->bas[i]:i==3?B->bas[0]:i==6?B->bas[1]:i==8?B->bas[2]:-1; sprintf(kk,"allDerivs_diffmatrix:%d%d%d:order%s",dd[i][0],dd[i][1],dd[i][2],sx); fill(B,&F,e,dd[i][0],dd[i][1],dd[i][2]); cmp(B,key(kk,bd,-1),D[i],e,EPS*f3_amp(&F,dd[i][0],dd[i][1],dd[i][2])); } }
    Sets("Spectral_second_deriv_order","123"); }
  if(B->bas[0]==B_EXT&&B->bas[1]==B_EXT&&B->bas[2]==B_EXT){ 
    for(d=0;d<3;d++){ int o[3]={d==0,d==1,d==2}; cheb_Deriv1(box,d+1,u,D[0]); fill(B,&F,e,o[0],o[1],o[2]); cmp(B,"cheb_Deriv1",D[0],e,EPS*f3_amp(&F,o[0],o[1],o[2])); }
    vh_count("old cheb derivatives",1); }
  /* transforms */
  { int fd=0; for(d=0;d<3;d++) if(B->bas[d]==B_FD1||B->bas[d]==B_FDP) fd=1;
    for(q=0;q<N;q++) w[q]=vh_range(-1,1);           /* any data must survive the round trip */
    spec_Coeffs(box,w,c); spec_Eval(box,e,c); cmp(B,"roundtrip:3d",e,w,EPS*100*1);
    for(d=0;d<3;d++){ spec_analysis1(box,d+1,w,c); spec_synthesis1(box,d+1,e,c); cmp(B,key("roundtrip",B->bas[d],T[d]),e,w,EPS*100);
      double *M= d==0?box->Mcoeffs1:d==1?box->Mcoeffs2:box->Mcoeffs3, *E= d==0?box->Meval1:d==1?box->Meval2:box->Meval3; 
      spec_analysis1_diffmatrix(box,d+1,M,w,D[0]); cmp(B,key("analysis-matrix-vs-transform",B->bas[d],T[d]),D[0],c,EPS*100*B->n[d]);
      spec_synthesis1_diffmatrix(box,d+1,E,D[1],c); cmp(B,key("synthesis-matrix-vs-transform",B->bas[d],T[d]),D[1],w,EPS*100);
      int P=vh_int(1,3); if(P!=d+1){ int p=vh_int(0,B->n[P-1]-1); for(q=0;q<N;q++) D[2][q]=D[3][q]=7; spec_analysis1_inplaneN(box,d+1,P,p,w,D[2]); spec_synthesis1_inplaneN(box,d+1,P,p,D[3],D[2]); 
        long bad=0; q=0; LOOP(B){ int id[3]={i,j,k}; if(id[P-1]==p){ if(fabs(D[2][q]-c[q])>1e-11*B->n[d]||fabs(D[3][q]-w[q])>1e-11) bad++; } else if(D[2][q]!=7||D[3][q]!=7) bad++; q++; }
        if(bad) vh_fail(key("inplane-transform",B->bas[d],T[d]),"%s dir %d plane %d at %d: %ld wrong points",B->d,d+1,P,p,bad); vh_count("plane transforms",1); } }
    if(!fd){ spec_Coeffs(box,u,c); long bad=0; q=0; ld ex=0,sc=A; for(d=0;d<3;d++) if(B->bas[d]==B_FOUR) sc*=B->n[d]; LOOP(B){ ld s=0; int r; for(r=0;r<F.nr;r++) s+=f1_coef(&F.f[r][0],i)*f1_coef(&F.f[r][1],j)*f1_coef(&F.f[r][2],k); ld x=fabsl(s-c[q]); if(!(x<=1e-11L*sc)) { bad++; ex=x; } q++; }
      if(bad) vh_fail("coefficients","%s: %ld wrong, error %Lg scale %Lg",B->d,bad,ex,sc); vh_count("coefficient sets",1); } }
  free(u);free(w);free(e);free(c);for(i=0;i<9;i++) free(D[i]); }

static void interp_tests(tGrid *g,tB *B,int b)
{ tBox *box=g->box[b]; long N=(long)B->n[0]*B->n[1]*B->n[2],q; int d,i,j,k,m; tf3 F; int iu=Ind("tst_u"),iv=Ind("tst_c");
  double *u=malloc(8*N),*c=malloc(8*N),*e=malloc(8*N),*U=malloc(8*N);
  vh_at("interpolation %s",B->d); vh_case(1,"I %s",B->d);
  f3_rand(&F,B->bas,B->n,B->bb,0); fill(B,&F,u,0,0,0); ld A=f3_amp(&F,0,0,0); ld G=A*0; for(d=0;d<3;d++){ ld x=f3_amp(&F,d==0,d==1,d==2)*(fabs(B->bb[2*d])+fabs(B->bb[2*d+1])); if(B->bas[d]!=B_FOUR) x/=B->n[d]; G+=x; } ld tol=1e-12L*A+2e-16L*G;
  spec_Coeffs(box,u,c);
  for(m=0;m<20;m++){ double X[3]; ld P[3]; int id[3]; int at=vh_int(0,3);
    for(d=0;d<3;d++){ id[d]=vh_int(0,B->n[d]-1); X[d]=vh_range(B->bb[2*d],B->bb[2*d+1]); if(at==0||(at==1&&vh_int(0,1))) X[d]=f1_pt(B->bas[d],B->n[d],B->bb[2*d],B->bb[2*d+1],id[d]); if(at==2&&vh_int(0,1)) X[d]=B->bb[2*d+vh_int(0,1)]; P[d]=X[d]; }
    ld ex=f3_eval(&F,P,0,0,0); double got=spec_interpolate(box,c,X[0],X[1],X[2]);
    VEXPECT(fabsl(ex-got)<=tol,"interpolate","%s at %.17g,%.17g,%.17g: %.17g expected %.17Lg tol %Lg",B->d,X[0],X[1],X[2],got,ex,tol);
    vh_count("points interpolated",1); }
  for(m=0;m<9;m++){ int Np=1+m%3,p=vh_int(0,B->n[Np-1]-1),a=Np==1?1:0,bq=Np==3?1:2; double X[3]; ld P[3]; 
    for(d=0;d<3;d++){ X[d]=vh_range(B->bb[2*d],B->bb[2*d+1]); } if(!vh_int(0,3)) X[a]=B->bb[2*a+vh_int(0,1)]; X[Np-1]=f1_pt(B->bas[Np-1],B->n[Np-1],B->bb[2*Np-2],B->bb[2*Np-1],p);
    for(d=0;d<3;d++) P[d]=X[d]; 
    for(q=0;q<N;q++) e[q]=3; spec_Coeffs_inplaneN(box,Np,p,u,e); double got=spec_interpolate_inplaneN(box,Np,p,e,X[a],X[bq]); ld ex=f3_eval(&F,P,0,0,0);
    VEXPECT(fabsl(ex-got)<=tol,"interpolate-plane","%s plane %d at %d: %.17g expected %.17Lg",B->d,Np,p,got,ex);
    long bad=0; int n1=B->n[0],n2=B->n[1]; spec_Eval_inplaneN(box,Np,p,U,e); q=0; LOOP(B){ int id[3]={i,j,k}; if(id[Np-1]==p){ if(!(fabs(U[q]-u[q])<=1e-11*A)) bad++; } else if(e[q]!=3) bad++; q++; }
    VEXPECT(!bad,"plane-coefficients","%s plane %d at %d: %ld wrong points",B->d,Np,p,bad);
    int dir=1+(m+1)%3; int o1=dir==1?1:0,o2=dir==3?1:2; int i1=vh_int(0,B->n[o1]-1),i2=vh_int(0,B->n[o2]-1); X[o1]=f1_pt(B->bas[o1],B->n[o1],B->bb[2*o1],B->bb[2*o1+1],i1); X[o2]=f1_pt(B->bas[o2],B->n[o2],B->bb[2*o2],B->bb[2*o2+1],i2); X[dir-1]=vh_range(B->bb[2*dir-2],B->bb[2*dir-1]); for(d=0;d<3;d++)P[d]=X[d];
    spec_analysis1(box,dir,u,e); got=spec_interpolate_in_dir_at_i1_i2(box,dir,i1,i2,e,X[dir-1]); ex=f3_eval(&F,P,0,0,0);
    VEXPECT(fabsl(ex-got)<=tol,"interpolate-line","%s dir %d line %d,%d: %.17g expected %.17Lg",B->d,dir,i1,i2,got,ex);
    { double *BM=malloc(8*B->n[dir-1]); spec_Basis_times_CoeffMatrix_direc(box,dir,BM,X[dir-1]); ld s=0; for(q=0;q<B->n[dir-1];q++){ int id[3]; id[o1]=i1;id[o2]=i2;id[dir-1]=q; s+=BM[q]*u[id[0]+n1*(id[1]+(long)n2*id[2])]; }
      VEXPECT(fabsl(ex-s)<=tol*4,"basis-times-matrix","%s dir %d: %.17Lg expected %.17Lg",B->d,dir,s,ex);
      double *BM2=malloc(8*B->n[dir-1]); void (*gc)(double*,double*,int)=dir==1?box->get_coeffs1:dir==2?box->get_coeffs2:box->get_coeffs3; double (*bs)(void*,double,double,int,int,double)=dir==1?box->basis1:dir==2?box->basis2:box->basis3;
      spec_Basis_times_CoeffMatrix(B->bb[2*dir-2],B->bb[2*dir-1],B->n[dir-1],BM2,X[dir-1],gc,bs); for(q=0;q<B->n[dir-1];q++) VEXPECT(fabs(BM[q]-BM2[q])<1e-11*B->n[dir-1],"basis-times-matrix-2","%s dir %d %ld: %g %g",B->d,dir,q,BM[q],BM2[q]);
      free(BM); free(BM2); }
    vh_count("planes and lines interpolated",2); }
  /* variable lists */
  { double *v=box->v[iu],*cc=box->v[iv]; tVarList *a=VLPtrEnable1(g,"tst_u"),*bb=VLPtrEnable1(g,"tst_c"); memcpy(v,u,8*N); spec_Coeffs_varlist(box,a,bb); for(q=0;q<N;q++) if(cc[q]!=c[q]){ vh_fail("coeffs-varlist","%s",B->d); break; } memset(v,0,8*N); spec_Eval_varlist(box,a,bb); cmp(B,"eval-varlist",v,u,1e-11L*A); vlfree(a); vlfree(bb); }
  free(u);free(c);free(e);free(U); }

static void integ_tests(tGrid *g,tB *B,int b)
{ tBox *box=g->box[b]; long N=(long)B->n[0]*B->n[1]*B->n[2],q; int d,i,j,k,r; tf3 F; ld V=1; 
  double *u=malloc(8*N),*e=malloc(8*N),*U=malloc(8*N);
  vh_at("integration %s",B->d); vh_case(1,"S %s",B->d);
  f3_rand(&F,B->bas,B->n,B->bb,0); fill(B,&F,u,0,0,0); ld A=f3_amp(&F,0,0,0); ld Ld[3]; for(d=0;d<3;d++) V*=(Ld[d]=B->bb[2*d+1]-B->bb[2*d]); int n1=B->n[0],n2=B->n[1];
  for(d=0;d<3;d++){ for(q=0;q<N;q++) U[q]=NAN; spec_Integral1(box,d+1,u,U); long bad=0; ld got=0,ex=0; q=0; LOOP(B){ ld P[3],s=0; pt(B,i,j,k,P); for(r=0;r<F.nr;r++){ ld t=f1_int(&F.f[r][d]); int dd; for(dd=0;dd<3;dd++) if(dd!=d) t*=f1_eval(&F.f[r][dd],P[dd],0); s+=t; } if(!(fabsl(U[q]-s)<=1e-12L*A*Ld[d])){ bad++; got=U[q]; ex=s; } q++; }
    if(bad) vh_fail("integral-1d","%s dir %d: %ld wrong, %.15Lg expected %.15Lg",B->d,d+1,bad,got,ex); vh_count("1d integrals",1);
    /* indefinite */
    { tf3 H; f3_rand(&H,B->bas,B->n,B->bb,1); double *h=malloc(8*N); fill(B,&H,h,0,0,0); spec_Int1(box,d+1,h,U); ld AH=f3_amp(&H,0,0,0); bad=0; q=0; LOOP(B){ ld P[3],s=0; int id0[3]={i,j,k}; id0[d]=0; pt(B,i,j,k,P); ld P0=f1_pt(B->bas[d],B->n[d],B->bb[2*d],B->bb[2*d+1],0); for(r=0;r<H.nr;r++){ ld t=f1_prim(&H.f[r][d],P[d])-f1_prim(&H.f[r][d],P0); int dd; for(dd=0;dd<3;dd++) if(dd!=d) t*=f1_eval(&H.f[r][dd],P[dd],0); s+=t; } ld dif=(ld)U[q]-U[id0[0]+n1*(id0[1]+(long)n2*id0[2])]; if(!(fabsl(dif-s)<=1e-12L*AH*Ld[d]*B->n[d])){ bad++; got=dif; ex=s; } q++; }
      if(bad) vh_fail("integral-indefinite","%s dir %d: %ld wrong, %.15Lg expected %.15Lg",B->d,d+1,bad,got,ex); free(h); vh_count("indefinite integrals",1); } }
  for(d=0;d<3;d++){ spec_2dIntegral(box,d+1,u,U); long bad=0; q=0; LOOP(B){ ld P[3],s=0; pt(B,i,j,k,P); for(r=0;r<F.nr;r++){ ld t=f1_eval(&F.f[r][d],P[d],0); int dd; for(dd=0;dd<3;dd++) if(dd!=d) t*=f1_int(&F.f[r][dd]); s+=t; } if(!(fabsl(U[q]-s)<=1e-12L*A*V/Ld[d])) bad++; q++; }
    if(bad) vh_fail("integral-2d","%s normal %d: %ld wrong",B->d,d+1,bad); 
    /* surface integral with a random constant metric */
    { ld m[3][3],a[3][3]; int x,y,z; for(x=0;x<3;x++) for(y=0;y<3;y++) a[x][y]=vh_range(-1,1)+(x==y?2:0); for(x=0;x<3;x++) for(y=0;y<3;y++){ m[x][y]=0; for(z=0;z<3;z++) m[x][y]+=a[x][z]*a[y][z]; }
      int ig=Ind("tst_gxx"); static const int ix[6][2]={{0,0},{0,1},{0,2},{1,1},{1,2},{2,2}}; for(x=0;x<6;x++) for(q=0;q<N;q++) box->v[ig+x][q]=m[ix[x][0]][ix[x][1]];
      int p1=d==0?1:0,p2=d==2?1:2; ld sd=sqrtl(m[p1][p1]*m[p2][p2]-m[p1][p2]*m[p1][p2]); double *U2=malloc(8*N); spec_SurfaceIntegral(box,ig,d+1,u,U2); for(q=0;q<N;q++) U[q]*=sd; cmp(B,"surface-integral-metric",U2,U,1e-11L*A*V/Ld[d]*sd); 
      spec_SurfaceIntegral(box,-1,d+1,u,U2); for(q=0;q<N;q++) U[q]/=sd; cmp(B,"surface-integral-flat",U2,U,1e-11L*A*V/Ld[d]); free(U2); vh_count("surface integrals",2); } }
  { ld s=0; for(r=0;r<F.nr;r++) s+=f1_int(&F.f[r][0])*f1_int(&F.f[r][1])*f1_int(&F.f[r][2]); double got=spec_3dIntegral(box,u,U); VEXPECT(fabsl(got-s)<=1e-12L*A*V,"integral-3d","%s: %.17g expected %.17Lg",B->d,got,s);
    memcpy(box->v[Ind("tst_u")],u,8*N); got=BoxVolumeIntegral(box,Ind("tst_u")); VEXPECT(fabsl(got-s)<=1e-12L*A*V,"integral-box","%s: %.17g expected %.17Lg",B->d,got,s);
    xs[0][0]=0; vh_count("3d integrals",2); }
  free(u);free(e);free(U); }

static void gridtransfer(void)
{ int nb=vh_int(1,3),b,d,i; tB B2[3],B1[3]; tf3 F[3]; vg_reset(); AddVar("tst_u","","t"); AddVar("tst_c","","t"); vg_par("nboxes=%d",nb); fdok=0;
  for(b=0;b<nb;b++) randbox(&B1[b],b,nb);
  vh_at("grid1 %s",vg_desc); tGrid *g1=vg_make(0); enablevar(g1,Ind("tst_u")); int iu=Ind("tst_u"),ic=Ind("tst_c");
  /* second grid: same boxes, other resolutions */
  for(b=0;b<nb;b++){ B2[b]=B1[b]; for(d=0;d<3;d++){ B2[b].n[d]=vh_int(4,12); char s[40],t[20]; sprintf(s,"box%d_n%d",b,d+1); sprintf(t,"%d",B2[b].n[d]); Sets(s,t); } }
  tGrid *g2=make_grid(0); enablevar(g2,iu); enablevar(g2,ic); long tot=0;
  for(b=0;b<nb;b++){ f3_rand(&F[b],B2[b].bas,B2[b].n,B2[b].bb,0); fill(&B2[b],&F[b],g2->box[b]->v[iu],0,0,0); }
  spec_interpolate_Var_from_grid2_to_grid1(g1,g2,iu,ic);
  for(b=0;b<nb;b++){ tB *B=&B1[b]; long q=0; int j,k,i; ld A=f3_amp(&F[b],0,0,0),G=0; for(d=0;d<3;d++) G+=f3_amp(&F[b],d==0,d==1,d==2)*(fabs(B->bb[2*d])+fabs(B->bb[2*d+1])); long bad=0; ld w=0; LOOP(B){ ld P[3]; pt(B,i,j,k,P); ld ex=f3_eval(&F[b],P,0,0,0),x=fabsl(ex-g1->box[b]->v[iu][q]); if(!(x<=1e-11L*A+4e-16L*G)){ bad++; w=x; } q++; }
    if(bad) vh_fail("grid-to-grid","box %d %s from %dx%dx%d: %ld wrong, error %Lg",b,B->d,B2[b].n[0],B2[b].n[1],B2[b].n[2],bad,w); tot+=q; vh_case(1,"G %s %d %d %d",B->d,B2[b].n[0],B2[b].n[1],B2[b].n[2]); }
  vh_count("points transferred",tot); free_grid(g2); vg_free(g1); }

/* curvilinear volumes and areas */
static ld mono(int a,int b,int c,ld R0,ld R1) /* integral of x^2a y^2b z^2c over the shell */
{ ld g=1; int n=2*(a+b+c); ld A=1,i; /* angular: 4pi (2a-1)!!(2b-1)!!(2c-1)!!/(n+1)!! */
  for(i=2*a-1;i>1;i-=2) A*=i; for(i=2*b-1;i>1;i-=2) A*=i; for(i=2*c-1;i>1;i-=2) A*=i; for(i=n+1;i>1;i-=2) A/=i; (void)g;
  return 4*LPI*A*(powl(R1,n+3)-powl(R0,n+3))/(n+3); }
static void curved(int it)
{ int kind=it%2; double R0=vh_range(0.5,2),R1=R0+vh_range(0.3,2); int N2=vh_int(8,16),N3=2*vh_int(5,8),N1=vh_int(10,14); int a=vh_int(0,1),b=vh_int(0,1),c=vh_int(0,1); 
  vg_reset(); AddVar("tst_u","","t");
  if(kind==0){ double bb[6]={R0,R1,0,2*PI,0,2*PI}; N2=vh_int(5,20); while(2*(a+b+c)>(N2-1)/2) { if(a) a=0; else if(b) b=0; else c=0; } vg_par("nboxes=1"); vg_box(0,N1,N2,N3,"ChebExtrema","Fourier","Fourier",bb); vg_par("box0_Coordinates=SphericalDF"); }
  else { double bb[6]={R0,R1,0,PI,0,2*PI}; N2=vh_int(24,30); vg_par("nboxes=1"); vg_box(0,N1,N2,N3,"ChebExtrema","ChebZeros","Fourier",bb); vg_par("box0_Coordinates=Spherical"); if(vh_int(0,1)) bb[2]=0; }
  vh_at("curved integrals %s",vg_desc);
  tGrid *g=vg_make(1); tBox *box=g->box[0]; int iu=Ind("tst_u"); enablevar(g,iu); long q; double *x=box->v[Ind("x")],*y=box->v[Ind("y")],*z=box->v[Ind("z")],*u=box->v[iu]; double *U=malloc(8*box->nnodes); ld got,ex=mono(a,b,c,R0,R1);
  for(q=0;q<box->nnodes;q++) u[q]=pow(x[q],2*a)*pow(y[q],2*b)*pow(z[q],2*c);
  vh_case(1,"curved %d N%d %d %d a%d%d%d R%g %g",kind,N1,N2,N3,a,b,c,R0,R1);
  if(kind==0){ got=spec_sphericalDF3dIntegral(box,u,U); VEXPECT(fabsl(got-ex)<1e-10L*ex,"sphericalDF-3d","N2=%d N3=%d: %.15Lg expected %.15Lg",N2,N3,got,ex);
    int n=2*(a+b+c),i,j,k; ld A0=(n+3)*ex/(powl(R1,n+3)-powl(R0,n+3)); spec_sphericalDF2dIntegral(box,u,U); double *X=box->v[Ind("X")]; for(q=0;q<box->nnodes;q++) if(!(fabsl(U[q]-A0*powl(X[q],n+2))<1e-10L*A0*powl(X[q],n+2))){ vh_fail("sphericalDF-2d","N2=%d N3=%d point %ld: %.15g expected %.15Lg",N2,N3,q,U[q],A0*powl(X[q],n+2)); break; }
    i=vh_int(0,box->n1-1); for(q=0;q<box->nnodes;q++) U[q]=0; spec_sphericalDF2dIntegral_at_radial_index_i(box,u,U,i); { int n1=box->n1,n2=box->n2; for(k=0;k<box->n3;k++) for(j=0;j<n2;j++){ q=i+n1*(j+(long)n2*k); if(!(fabsl(U[q]-A0*powl(X[q],n+2))<1e-10L*A0*powl(X[q],n+2))){ vh_fail("sphericalDF-2d-index","N2=%d N3=%d: %.15g expected %.15Lg",N2,N3,U[q],A0*powl(X[q],n+2)); j=n2;k=box->n3; } } }
    vh_count("double covered spheres",3); }
  else { got=BoxVolumeIntegral(box,iu); VEXPECT(fabsl(got-ex)<1e-8L*ex,"volume-spherical","N2=%d N3=%d: %.15Lg expected %.15Lg",N2,N3,got,ex);
    got=GridVolumeIntegral(g,iu); VEXPECT(fabsl(got-ex)<1e-8L*ex,"grid-volume-spherical","%.15Lg expected %.15Lg",got,ex);
    for(q=0;q<box->nnodes;q++) u[q]=1; spec_SurfaceIntegral(box,-1,1,u,U); double *X=box->v[Ind("X")]; for(q=0;q<box->nnodes;q++) if(!(fabs(U[q]-4*PI*X[q]*X[q])<1e-8*X[q]*X[q])){ vh_fail("surface-spherical","%.15g expected %.15g at r=%g",U[q],4*PI*X[q]*X[q],X[q]); break; }
    vh_count("curved volumes",3); }
  free(U); vg_free(g); }
static void filter_tests(tGrid *g,tB *B,int b)
{ tBox *box=g->box[b]; long N=(long)B->n[0]*B->n[1]*B->n[2],q; int d,i,j,k,fd=0; int iu=Ind("tst_u"),ic=Ind("tst_c"); double *w=malloc(8*N),*c=malloc(8*N),*c2=malloc(8*N),*u=box->v[iu],*v=malloc(8*N);
  for(d=0;d<3;d++) if(B->bas[d]==B_FD1||B->bas[d]==B_FDP) fd=1;
  vh_at("filter %s",B->d); vh_case(1,"F %s %d %d %d",B->d,B->flt[0],B->flt[1],B->flt[2]);
  for(d=0;d<3;d++){ long bad=0; for(q=0;q<N;q++) u[q]=w[q]=vh_range(-1,1); spec_analysis1(box,d+1,w,c); spec_filter1(box,d+1,u); spec_analysis1(box,d+1,u,c2); q=0; ld sc=B->bas[d]==B_FOUR?B->n[d]:1; 
    int keep= (B->bas[d]==B_FD1||B->bas[d]==B_FDP)? B->n[d]: B->n[d]-B->flt[d];
    LOOP(B){ int id[3]={i,j,k}; double ex= id[d]<keep? c[q]:0; if(!(fabs(c2[q]-ex)<1e-11*sc*B->n[d])) bad++; q++; }
    if(bad) vh_fail("filter1","%s dir %d filter %d: %ld wrong coefficients",B->d,d+1,B->flt[d],bad);
    memcpy(v,u,8*N); spec_filter1(box,d+1,u); cmp(B,"filter1-twice",u,v,1e-11L); vh_count("1d filters",1); }
  if(!fd){ int nf[3]; for(d=0;d<3;d++) nf[d]=vh_int(0,4)?vh_int(0,B->n[d]):B->n[d]+vh_int(0,3); for(q=0;q<N;q++) u[q]=w[q]=vh_range(-1,1); spec_Coeffs(box,w,c); spec_filter3d_inbox(box,iu,ic,nf[0],nf[1],nf[2]); spec_Coeffs(box,u,c2); long bad=0; ld sc=1; for(d=0;d<3;d++) if(B->bas[d]==B_FOUR) sc*=B->n[d]; q=0;
    LOOP(B){ double ex= i<nf[0]&&j<nf[1]&&k<nf[2]? c[q]:0; if(!(fabs(c2[q]-ex)<1e-10*sc)) bad++; if(!(fabs(box->v[ic][q]-ex)<1e-10*sc)) bad++; q++; }
    if(bad) vh_fail("filter3d","%s cut %d %d %d: %ld wrong coefficients",B->d,nf[0],nf[1],nf[2],bad);
    memcpy(v,u,8*N); spec_filter3d_inbox(box,iu,ic,nf[0],nf[1],nf[2]); cmp(B,"filter3d-twice",u,v,1e-11L*(1+sqrtl(N))); vh_count("3d filters",1); }
  free(w);free(c);free(c2);free(v); }

int main(int ac,char **av)
{ int it,n,b; mode=atoi(av[1]); int part=PART=atoi(av[2]); vh_init(mode*100+part); vh_silence();
  n= mode==12? vh_n(120,1500): mode==13? vh_n(80,900): vh_n(120,1500);
  for(it=0;it<n;it++){ int nb=vh_int(1,3); tB B[3]; vg_reset(); fdok= mode!=13; vg_par("nboxes=%d",nb); for(b=0;b<nb;b++) randbox(&B[b],b,nb);
    AddVar("tst_u","","test"); AddVar("tst_c","","test"); AddVar("tst_g","(ij)","test metric");
    vh_at("set-up %s",vg_desc); tGrid *g=vg_make(1); enablevar(g,Ind("tst_u")); enablevar(g,Ind("tst_c")); enablevar(g,Ind("tst_gxx"));
    for(b=0;b<nb;b++) if(mode==12) deriv_tests(g,&B[b],b); else if(mode==13){ interp_tests(g,&B[b],b); integ_tests(g,&B[b],b); } else filter_tests(g,&B[b],b);
    if(mode==13){ ld s=0; int bb; for(bb=0;bb<nb;bb++) s+=BoxVolumeIntegral(g->box[bb],Ind("tst_u")); double t=GridVolumeIntegral(g,Ind("tst_u")); VEXPECT(fabsl(s-t)<=1e-13L*(1+fabsl(s))*1e3,"grid-integral","%g %Lg",t,s); }
    vg_free(g); }
  if(mode==13){ n=vh_n(30,300); for(it=0;it<n;it++){ gridtransfer(); curved(it); } }
  vh_end(); return 0; }
