/* c15.c: spherical harmonics of the library versus independent long double recursions; args: part | data DIR */
#include "f1.h"
#include "vgrid.h"
#include "s2kit_pmls.h"
#include "s2kit_makeweights.h"
#include "s2kit_naive_synthesis.h"
double Wigner_d_function_PG(int,int,int,double); double Wigner_d_function_WT(int,int,int,double); double Re_sYlm(int,int,int,double,double); double Im_sYlm(int,int,int,double,double);
int FSurf_CubSph_get_Ylm_integrals(tBox *,int,int,int,int,int); int FSurf_CubSph_set_Ylm_coeffs(tGrid *,int,int); double FSurf_CubSph_sigma01_func(tBox *,int,double,double); double FSurf_CubSph_dsigma01_dA_func(tBox *,int,double,double); double FSurf_CubSph_dsigma01_dB_func(tBox *,int,double,double);
int arrange_1box12CubSph_into_full_cube(tGrid *,int,double *,double,double,double);
double PLegendre(int,int,double);double *alloc_Plm_Tab(int); void set_PlmTab(int,double,double *); void set_PlmTab_for_l_GE_m(int,int,double,double *); double Plm_from_Tab(int,double *,int,int); void set_YlmTabs(int,double,double,double *,double *); void Ylm_from_Tabs(int,double *,double *,int,int,double *,double *); double Plm_slowly(int,int,double); double Re_Ylm_slowly(int,int,double,double); double Im_Ylm_slowly(int,int,double,double);
extern int isigma01_co, lmax;

/* independent Wigner d^l_{mn}(th): start values and recursion in l */
static ld wd(int l,int m,int n,ld th)
{ if(abs(m)>l||abs(n)>l) return 0; ld sg=1; int M=m,N=n,L,t; /* d_mn=(-1)^{m-n} d_nm=(-1)^{m-n} d_{-m,-n} */
  if(abs(N)>abs(M)){ t=M; M=N; N=t; if((m-n)%2) sg=-sg; }
  if(M<0){ M=-M; N=-N; if((m-n)%2) sg=-sg; }
  L=M; /* start d^L_{L,N} = (-1)^{L-N} sqrt((2L)!/((L+N)!(L-N)!)) c^{L+N} s^{L-N} */
  ld c=cosl(th/2),s=sinl(th/2),d; int k; d=1; for(k=1;k<=L-N;k++) d*=sqrtl((ld)(L+N+k)/k); d*=powl(c,L+N)*powl(s,L-N); if((L-N)%2) d=-d;
  ld x=cosl(th),dm=0; int j; for(j=L;j<l;j++){ ld t; if(j==0) t=x; else t=((2*j+1.0L)*((ld)j*(j+1)*x-(ld)M*N)*d-(j+1)*sqrtl(((ld)j*j-(ld)M*M)*((ld)j*j-(ld)N*N))*dm)/(j*sqrtl((((ld)j+1)*(j+1)-(ld)M*M)*(((ld)j+1)*(j+1)-(ld)N*N))); dm=d; d=t; }
  return sg*d; }
static void sy(int l,int m,int s,ld th,ld ph,ld *R,ld *I){ ld d=sqrtl((2*l+1)/(4*LPI))*wd(l,m,-s,th); if(s%2) d=-d; *R=d*cosl(m*ph); *I=d*sinl(m*ph); }
/* normalised P_l^m including (-1)^m and sqrt((2l+1)/4pi (l-m)!/(l+m)!) */
static ld pn(int l,int m,ld x){ ld s=sqrtl((1-x)*(1+x)),p=sqrtl(1/(4*LPI)),q=0,t; int k; for(k=1;k<=m;k++) p*=-sqrtl((2*k+1.0L)/(2*k))*s; for(k=m+1;k<=l;k++){ ld a=sqrtl((4.0L*k*k-1)/((ld)k*k-(ld)m*m)),b= k-1>m? sqrtl((((ld)k-1)*(k-1)-(ld)m*m)/(4.0L*(k-1)*(k-1)-1)):0; t=a*(x*p-b*q); q=p; p=t; } return p; }
static ld nrm(int l,int m){ ld f=(2*l+1)/(4*LPI); int k; for(k=l-m+1;k<=l+m;k++) f/=k; return sqrtl(f); }
static double rth(void){ switch(vh_int(0,9)){ case 0: return 0; case 1: return PI; case 2: return PI/2; case 3: return pow(10,vh_range(-9,-1)); case 4: return PI-pow(10,vh_range(-9,-1)); default: return vh_range(0,PI); } }
static double rph(void){ switch(vh_int(0,5)){ case 0: return 0; case 1: return vh_int(-8,8)*PI/4; case 2: return vh_range(-20,20); default: return vh_range(0,2*PI); } }
static void tables(void)
{ int L=vh_int(0,4)?vh_int(0,24):vh_int(25,80),l,m; double th=rth(),ph=rph(); double *P=alloc_Plm_Tab(L),*R=alloc_Plm_Tab(L),*I=alloc_Plm_Tab(L); long bad=0,n=0; char w[200]="";
  vh_at("tables lmax=%d theta=%.17g phi=%.17g",L,th,ph); double x=cos(th); set_PlmTab(L,x,P); set_YlmTabs(L,th,ph,R,I);
  for(l=0;l<=L;l++) for(m=0;m<=l;m++){ ld N=nrm(l,m),p=pn(l,m,x),tol=(2e-14L*(l+1)); double a=Plm_from_Tab(L,P,l,m); n++;
    if(!(fabsl(a*N-p)<=tol)){ if(!bad++) sprintf(w,"P table l=%d m=%d: %.15Lg expected %.15Lg",l,m,a*N,p); }
    if(vh_int(0,20)==0){ a=PLegendre(l,m,x); if(!(fabsl(a*N-p)<=tol)) { if(!bad++) sprintf(w,"PLegendre l=%d m=%d: %.15Lg expected %.15Lg",l,m,a*N,p); } if(l<20&&Plm_slowly(l,m,x)!=Plm_from_Tab(L,P,l,m)&&!(fabsl(Plm_slowly(l,m,x)*N-p)<=tol)) if(!bad++) sprintf(w,"Plm_slowly"); }
    ld q=pn(l,m,cosl(th)),qx=p; int sg; for(sg=0;sg<2;sg++){ int mm=sg?-m:m; double yr,yi; Ylm_from_Tabs(L,R,I,l,mm,&yr,&yi); ld f=sg&&m%2?-1:1; ld er=f*q*cosl(mm*(ld)ph),ei=f*q*sinl(mm*(ld)ph),t2=tol+4e-16L*fabs(ph)*m+fabsl(q-qx); n++;
      if(!(fabsl(yr-er)<=t2&&fabsl(yi-ei)<=t2)) if(!bad++) sprintf(w,"Y table l=%d m=%d: %.15g %.15g expected %.15Lg %.15Lg",l,mm,yr,yi,er,ei);
      if(l<=16&&vh_int(0,10)==0){ double a=Re_Ylm_slowly(l,mm,th,ph),b=Im_Ylm_slowly(l,mm,th,ph); if(!(fabsl(a-er)<=t2&&fabsl(b-ei)<=t2)) if(!bad++) sprintf(w,"Y slow l=%d m=%d: %.15g %.15g expected %.15Lg %.15Lg",l,mm,a,b,er,ei);
        double c=Re_sYlm(l,mm,0,th,ph),d=Im_sYlm(l,mm,0,th,ph); if(!(fabsl(c-er)<=1e-9&&fabsl(d-ei)<=1e-9)) if(!bad++) sprintf(w,"spin zero l=%d m=%d: %.15g %.15g expected %.15Lg %.15Lg",l,mm,c,d,er,ei); } } }
  if(L>=1){ int m0=vh_int(0,L); double *Q=alloc_Plm_Tab(L); set_PlmTab_for_l_GE_m(L,m0,x,Q); for(l=0;l<=L;l++) for(m=0;m<=l;m++) if(Q[l*(l+1)/2+m]!=(m==m0?P[l*(l+1)/2+m]:0)) if(!bad++) sprintf(w,"partial table m=%d",m0); free(Q); }
  if(bad) vh_fail("harmonic-tables","%ld wrong, first: %s",bad,w); vh_count("table values",n); vh_case(1,"T%d %.12g %.12g",L,th,ph); free(P);free(R);free(I); }
static void spin(void)
{ int s=vh_int(-4,4),l=vh_int(abs(s),14),m=vh_int(-l,l),i; double th=rth(),ph=rph(); if(vh_int(0,15)==0){ l=vh_int(0,abs(s)); m=vh_int(-l,l); } vh_at("sYlm l=%d m=%d s=%d theta=%.17g phi=%.17g",l,m,s,th,ph);
  ld R,I,tol=2e-15L*powl(2,l)*(1+0*m)+1e-14L+4e-16L*fabs(ph)*abs(m); sy(l,m,s,th,ph,&R,&I); double a=Re_sYlm(l,m,s,th,ph),b=Im_sYlm(l,m,s,th,ph);
  VEXPECT(fabsl(a-R)<=tol&&fabsl(b-I)<=tol,"spin-weighted-value","%.15g %.15g expected %.15Lg %.15Lg",a,b,R,I);
  ld d=wd(l,m,s,th); double w1=Wigner_d_function_WT(l,m,s,th),w2=Wigner_d_function_PG(l,m,s,th); VEXPECT(fabsl(w1-d)<=tol*2&&(l<abs(m)||l<abs(s)||fabsl(w2-d)<=tol*2+1e-7L*(th<1e-4||th>PI-1e-4)+1e-15L*powl(2,l)/(sinl(th)+1e-9L)),"wigner-d","%.15g %.15g expected %.15Lg",w1,w2,d);
  { double c=Re_sYlm(l,-m,-s,th,ph),e=Im_sYlm(l,-m,-s,th,ph); int sg=(m+s)%2?-1:1; VEXPECT(fabs(a-sg*c)<=2*tol&&fabs(-b-sg*e)<=2*tol,"spin-conjugation","%.15g %.15g %.15g %.15g",a,b,c,e); }
  if(l>=abs(s)&&l>=abs(s+1)&&th>0.05&&th<PI-0.05){ ld R2,I2; double h=1e-3; double D[2],E[2]; int t; 
    /* ladder operator on the library's own function, 6th order differences */
    double f[7]; for(t=0;t<2;t++){ for(i=-3;i<=3;i++) f[i+3]= t?Im_sYlm(l,m,s,th+i*h,ph):Re_sYlm(l,m,s,th+i*h,ph); D[t]=(f[6]-9*f[5]+45*f[4]-45*f[2]+9*f[1]-f[0])/(60*h); }
    double ct=cos(th)/sin(th),cs=1/sin(th); E[0]=-(D[0]-m*cs*a-s*ct*a); E[1]=-(D[1]-m*cs*b-s*ct*b); ld q=sqrtl((ld)(l-s)*(l+s+1)); R2=q*Re_sYlm(l,m,s+1,th,ph); I2=q*Im_sYlm(l,m,s+1,th,ph);
    VEXPECT(fabsl(E[0]-R2)<1e-6&&fabsl(E[1]-I2)<1e-6,"spin-raising","%.12g %.12g expected %.12Lg %.12Lg",E[0],E[1],R2,I2); vh_count("ladder identities",1); }
  vh_count("spin weighted values",1); vh_case(1,"S%d %d %d %.12g %.12g",l,m,s,th,ph); }
/* Gauss-Legendre */
static void gl(int n,ld *x,ld *w){ int i,k; for(i=0;i<n;i++){ ld z=cosl(LPI*(i+0.75L)/(n+0.5L)),dz; do { ld p=1,q=0,t,dp; for(k=1;k<=n;k++){ t=((2*k-1)*z*p-(k-1)*q)/k; q=p; p=t; } dp=n*(z*p-q)/(z*z-1); dz=p/dp; z-=dz; x[i]=z; w[i]=2/((1-z*z)*dp*dp); } while(fabsl(dz)>1e-18L); } }
static void ortho(void)
{ int s=vh_int(-3,3),L=vh_int(abs(s),8),n=L+2,i,j,k; ld X[40],W[40]; gl(n,X,W); int nm=(L+1)*(L+1)-s*s,np=2*L+2; vh_at("orthonormality s=%d up to l=%d",s,L); if(nm<=0) return;
  double *A=malloc(sizeof(double)*2*nm*n*np); int a=0,l,m; for(l=abs(s);l<=L;l++) for(m=-l;m<=l;m++,a++) for(i=0;i<n;i++) for(k=0;k<np;k++){ double th=acosl(X[i]),ph=2*PI*k/np; A[2*(a*n*np+i*np+k)]=Re_sYlm(l,m,s,th,ph); A[2*(a*n*np+i*np+k)+1]=Im_sYlm(l,m,s,th,ph); }
  for(i=0;i<nm;i++) for(j=i;j<nm;j++){ ld r=0,im=0; int p; for(p=0;p<n*np;p++){ double *u=A+2*(i*n*np+p),*v=A+2*(j*n*np+p); ld w=W[p/np]*2*LPI/np; r+=w*(u[0]*v[0]+u[1]*v[1]); im+=w*(u[0]*v[1]-u[1]*v[0]); } if(!(fabsl(r-(i==j))<1e-10&&fabsl(im)<1e-10)){ vh_fail("spin-orthonormal","modes %d %d: %.12Lg %.12Lg",i,j,r,im); i=nm; break; } }
  free(A); vh_count("orthonormal families",1); vh_case(1,"O%d %d",s,L); }
static void s2k(void)
{ int bw=vh_int(1,24),m=vh_int(0,bw-1),l,j; double *P=malloc(sizeof(double)*2*bw*bw),*ws=malloc(sizeof(double)*18*bw),*w=malloc(sizeof(double)*4*bw),*d=malloc(sizeof(double)*4*bw),*c=malloc(sizeof(double)*bw),*o=malloc(sizeof(double)*4*bw),*c0=malloc(8*bw); vh_at("s2kit bw=%d m=%d",bw,m);
  PmlTableGen(bw,m,P,ws); makeweights(bw,w); int sg=0;
  for(l=m;l<bw;l++) for(j=0;j<2*bw;j++){ ld e=pn(l,m,cosl(LPI*(2*j+1)/(4*bw)))*sqrtl(2*LPI); double g=P[(l-m)*2*bw+j]; if(!sg&&fabsl(e)>1e-3) sg= e*g>0?1:-1; if(!(fabsl(g-sg*e)<1e-12*(l+1))&&!(sg==0&&fabsl(fabsl(g)-fabsl(e))<1e-12)) { vh_fail("s2kit-plm","l=%d j=%d: %.15g expected %.15Lg",l,j,g,sg*e); l=bw; break; } }
  for(l=0;l<bw-m;l++) c0[l]=vh_range(-1,1); for(j=0;j<2*bw;j++) o[j]=NAN; Naive_SynthesizeX(c0,bw,m,o,P);
  for(j=0;j<2*bw;j++){ ld e=0; for(l=m;l<bw;l++) e+=c0[l-m]*pn(l,m,cosl(LPI*(2*j+1)/(4*bw)))*sqrtl(2*LPI); e*=sg; if(!(fabsl(o[j]-e)<1e-12*bw*bw)){ vh_fail("s2kit-synthesis","j=%d %.15g expected %.15Lg",j,o[j],e); break; } }
  memcpy(d,o,16*bw); Naive_AnalysisX(d,bw,m,w,c,P,ws); for(l=0;l<bw-m;l++) if(!(fabs(c[l]-c0[l])<1e-12*bw*bw)){ vh_fail("s2kit-analysis","l=%d %.15g expected %.15g",l+m,c[l],c0[l]); break; }
  free(P);free(ws);free(w);free(d);free(c);free(o);free(c0); vh_count("s2kit round trips",1); vh_case(1,"K%d %d %.6g",bw,m,vh_u()); }
/* real band limited function: coefficients c_lm, m>=0 */
static ld fsum(const double *c,int L,ld th,ld ph,int dth,int dph)
{ int l,m,i=0; ld s=0; for(l=0;l<=L;l++) for(m=0;m<=l;m++,i+=2){ ld p,w=m?2:1; if(!dth) p=pn(l,m,cosl(th)); else { /* dP/dth = m cot P_lm + sqrt((l-m)(l+m+1)) P_l,m+1 (normalised with sign) */ p=m*cosl(th)/sinl(th)*pn(l,m,cosl(th)); if(m<l) p+=sqrtl((ld)(l-m)*(l+m+1))*pn(l,m+1,cosl(th)); }
    ld C=cosl(m*ph),S=sinl(m*ph); if(dph) s+=w*p*m*(-c[i]*S-c[i+1]*C); else s+=w*p*(c[i]*C-c[i+1]*S); } return s; }
static void expand(void)
{ int L=vh_int(1,12),nY=(L+1)*(L+2)/2,l,m,i=0,t; double *c=calloc(2*nY,8),*a=malloc(16*nY),*b=malloc(16*nY); vh_at("expansion derivatives lmax=%d",L);
  for(l=0;l<L;l++) for(m=0;m<=l;m++,i+=2){ c[i]=vh_range(-1,1); c[i+1]=m?vh_range(-1,1):0; }
  SphHarm_sin_theta_dtheta_forRealFunc(c,a,L); SphHarm_dphi_forRealFunc(c,b,L);
  for(t=0;t<5;t++){ ld th=vh_range(0.05,3.09),ph=rph(); ld g=fsum(a,L,th,ph,0,0),e=sinl(th)*fsum(c,L,th,ph,1,0); VEXPECT(fabsl(g-e)<1e-11*(L+1)*(L+1),"expansion-dtheta","theta=%Lg phi=%Lg: %.12Lg expected %.12Lg",th,ph,g,e); g=fsum(b,L,th,ph,0,0); e=fsum(c,L,th,ph,0,1); VEXPECT(fabsl(g-e)<1e-11*(L+1)*(L+1),"expansion-dphi","%.12Lg expected %.12Lg",g,e); }
  free(c);free(a);free(b); vh_count("differentiated expansions",1); vh_case(1,"E%d %.9g",L,vh_u()); }
static void surf(void)
{ int n1=vh_int(4,6),n2=vh_int(18,22),n3=n2+vh_int(0,2),b,L=vh_int(1,4),nY=(L+1)*(L+2)/2,i,l,m,si,j,k; vg_reset(); AddVar("tst_re","","t"); AddVar("tst_im","","t"); AddVar("tst_co","","t"); vg_par("nboxes=13"); vg_par("n1=%d",n1); vg_par("n2=%d",n2); vg_par("n3=%d",n3);
  vg_par("Coordinates_set_bfaces=no"); double bb[6]={0,1,-1,1,-1,1},xc[4]={0,vh_range(-2,2),vh_range(-1,1),vh_range(-1,1)};
  for(b=0;b<13;b++) vg_box(b,b?n1:4,b?n2:4,b?n3:4,"ChebExtrema","ChebExtrema","ChebExtrema",bb);
  vh_at("surface expansion %d %d %d lmax=%d",n1,n2,n3,L); initialize_libraries(); RunFun(POST_PARAMETERS,0); RunFun(PRE_GRID,0); tGrid *g=make_grid(0); RunFun(POST_GRID,g); 
  double r0=vh_range(0.1,0.3),r1=r0+vh_range(0.2,0.5),r2=r1+vh_range(0.3,1); arrange_1box12CubSph_into_full_cube(g,0,xc,r0,r1,r2); RunFun(PRE_COORDINATES,g); RunFun(COORDINATES,g);
  int ire=Ind("tst_re"),iim=Ind("tst_im"),ico=Ind("tst_co"); enablevar(g,ire); enablevar(g,iim); enablevar(g,ico); int b0= vh_int(0,1)?1:7; si=vh_int(0,1); int cplx=vh_int(0,1);
  double *c=calloc(2*nY,8),*ci=calloc(2*nY,8); for(i=0,l=0;l<=L;l++) for(m=0;m<=l;m++,i+=2){ c[i]=vh_range(-1,1); c[i+1]=m?vh_range(-1,1):0; ci[i]=vh_range(-1,1); ci[i+1]=m?vh_range(-1,1):0; }
  for(b=b0;b<b0+6;b++){ tBox *box=g->box[b]; double *x=box->v[Ind("x")],*y=box->v[Ind("y")],*z=box->v[Ind("z")]; long q; for(q=0;q<box->nnodes;q++){ ld X=x[q]-xc[1],Y=y[q]-xc[2],Z=z[q]-xc[3],r=sqrtl(X*X+Y*Y+Z*Z); ld th=acosl(Z/r),ph=atan2l(Y,X); box->v[ire][q]=fsum(c,L,th,ph,0,0); box->v[iim][q]=fsum(ci,L,th,ph,0,0); }
    for(q=0;q<box->nnodes;q++) box->v[ico][q]=0; FSurf_CubSph_get_Ylm_integrals(box,si?box->n1-1:0,ire,cplx?iim:-1,L,ico); }
  FSurf_CubSph_set_Ylm_coeffs(g,b0,ico); double mx=0; int off=si?g->box[b0]->nnodes/2:0; 
  for(b=b0;b<b0+6;b++){ double *co=g->box[b]->v[ico]+off; for(i=0;i<2*nY;i+=2){ double er=c[i]-(cplx?ci[i+1]:0),ei=c[i+1]+(cplx?ci[i]:0); double d=fmax(fabs(co[i]-er),fabs(co[i+1]-ei)); if(!(d<=mx)) mx=d; } }
  VEXPECT(mx<2e-6,"surface-coefficients","box0 %d side %d complex %d: error %g",b0,si,cplx,mx);
  if(!cplx){ lmax=L; isigma01_co=ico; for(i=0;i<5;i++){ b=b0+vh_int(0,5); tBox *box=g->box[b]; double A=vh_range(-1,1),B=vh_range(-1,1),h=1e-3; double f=FSurf_CubSph_sigma01_func(box,si,A,B);
      double X=si?box->bbox[1]:box->bbox[0]; double x=box->x_of_X[1](box,-1,X,A,B)-xc[1],y=box->x_of_X[2](box,-1,X,A,B)-xc[2],z=box->x_of_X[3](box,-1,X,A,B)-xc[3],r=sqrt(x*x+y*y+z*z); ld e=fsum(c,L,acosl(z/(ld)r),atan2l(y,x),0,0); VEXPECT(fabsl(f-e)<5e-6*nY,"surface-function","box %d A=%g B=%g: %.12g expected %.12Lg",b,A,B,f,e);
      /* derivatives: zero the highest degree first */ double *co=box->v[ico]+off; double sv[100]; int q,o=L*(L+1); memcpy(sv,co+o,8*2*(L+1)); for(q=0;q<2*(L+1);q++) co[o+q]=0; double D[5]; for(q=-2;q<=2;q++) D[q+2]=FSurf_CubSph_sigma01_func(box,si,A+q*h,B); double dA=(8*(D[3]-D[1])-(D[4]-D[0]))/(12*h); for(q=-2;q<=2;q++) D[q+2]=FSurf_CubSph_sigma01_func(box,si,A,B+q*h); double dB=(8*(D[3]-D[1])-(D[4]-D[0]))/(12*h);
      double gA=FSurf_CubSph_dsigma01_dA_func(box,si,A,B),gB=FSurf_CubSph_dsigma01_dB_func(box,si,A,B); VEXPECT(fabs(gA-dA)<1e-7*nY&&fabs(gB-dB)<1e-7*nY,"surface-derivative","box %d A=%g B=%g: %.12g %.12g expected %.12g %.12g",b,A,B,gA,gB,dA,dB); memcpy(co+o,sv,8*2*(L+1)); vh_count("surface values",3); } }
  vh_count("surface expansions",1); vh_case(1,"F%d %d %d L%d b%d s%d c%d",n1,n2,n3,L,b0,si,cplx); free(c);free(ci); vg_free(g); }
/* input files for ModeComputer and the coefficients expected from it */
static void modedata(const char *dir)
{ int s=vh_int(-2,2),L=vh_int(abs(s)>0?abs(s):1,6),n2=4*((2*L+4+3)/4)+4*vh_int(0,2),n3=4*((2*L+2+3)/4)+4*vh_int(0,2),nt=vh_int(1,8),t,l,m,j,k; int kind=vh_int(0,4); static const char *gt[]={"full","bitant","rotant","quadrant","octant"}; int bit=kind==1||kind>=3,rot=kind>=2,oct=kind==4; n2=4*L+4+4*vh_int(0,2); n3=4*L+4+4*vh_int(0,2);
  int sb=vh_int(0,2)?1:-1,sr=vh_int(0,2)?1:-1,so=vh_int(0,2)?1:-1,skip=vh_int(0,1); int nth=bit?n2/4:n2/2,nph=oct?n3/4+1:rot?n3/2:n3; char fn[500]; FILE *fr,*fi,*fe,*fp; sprintf(fn,"%s/re",dir); fr=fopen(fn,"w"); sprintf(fn,"%s/im",dir); fi=fopen(fn,"w"); sprintf(fn,"%s/expect",dir); fe=fopen(fn,"w"); sprintf(fn,"%s/p.par",dir); fp=fopen(fn,"w");
  fprintf(fp,"physics = ModeComputer\nnboxes = 1\nModeComputer_Re_sphere_data = %s/re\nModeComputer_Im_sphere_data = %s/im\nModeComputer_outfile_prefix = md_\nModeComputer_lmax = %d\nModeComputer_spinweight = %d\niterations = 0\n",dir,dir,L,s);
  if(sb<0||vh_int(0,1)) fprintf(fp,"ModeComputer_Re_bitantsym = %+d\nModeComputer_Im_bitantsym = %d\n",sb,-sb);
  if(sr<0) fprintf(fp,"ModeComputer_Re_rotantsym = -1\nModeComputer_Im_rotantsym = -1\n");
  if(so<0) fprintf(fp,"ModeComputer_Re_octantsym = -1\nModeComputer_Im_octantsym = 1\n"); fclose(fp);
  fprintf(fr,"# data SphericalDF: n2 = %d n3 = %d gridtype = %s ntheta = %d nphi = %d\n",n2,n3,gt[kind],nth,nph); fprintf(fi,"# data SphericalDF: n2 = %d n3 = %d gridtype = %s ntheta = %d nphi = %d\n",n2,n3,gt[kind],nth,nph);
  fprintf(fe,"I %d %d %d %d %s %d\n",L,s,n2,n3,gt[kind],nt); int nc=2*(L+1)*(L+1); double *a=malloc(8*nc);
  for(t=0;t<nt;t++){ double tm=t*0.25; int i; for(i=0;i<nc;i++) a[i]=vh_range(-1,1);
    #define CC(l,m) (a+2*((l)*(l)+(l)+(m)))
    for(l=0;l<abs(s)&&l<=L;l++) for(m=-l;m<=l;m++) CC(l,m)[0]=CC(l,m)[1]=0;
    for(l=abs(s);l<=L;l++) for(m=-l;m<=l;m++){ if(rot&&(m%2!=0)!=(sr<0)) CC(l,m)[0]=CC(l,m)[1]=0; if(oct){ /* f(th,pi-ph)=conj f(th,ph): a_lm e^{im pi} e^{-im ph} = conj(a_lm) e^{-im ph} -> real for even m; in general a (-1)^m = so conj(a) */ CC(l,m)[((m%2==0)==(so>0))?1:0]=0; } }
    if(bit) for(l=abs(s);l<=L;l++) for(m=0;m<=l;m++){ /* f(pi-th)=conj f(th) */ ld th=0.7L,R,I,R2,I2; sy(l,m,s,LPI-th,0,&R,&I); sy(l,-m,s,th,0,&R2,&I2); ld q=sb*R/R2; CC(l,-m)[0]=q*CC(l,m)[0]; CC(l,-m)[1]=-q*CC(l,m)[1]; if(m==0){ if(q<0) CC(l,0)[0]=0; else CC(l,0)[1]=0; } }
    int wr=1,wi=1; if(skip){ int q=vh_int(0,5); if(q==0) wr=0; if(q==1) wi=0; } if(wr) fprintf(fr,"iteration %d time = %.17g\n",t,tm); if(wi) fprintf(fi,"iteration %d time = %.17g\n",t,tm);
    for(k=0;k<nph;k++) for(j=0;j<nth;j++){ ld th=LPI*(2*j+1)/n2,ph=2*LPI*k/n3,R=0,I=0,x,y; for(l=abs(s);l<=L;l++) for(m=-l;m<=l;m++){ sy(l,m,s,th,ph,&x,&y); R+=CC(l,m)[0]*x-CC(l,m)[1]*y; I+=CC(l,m)[0]*y+CC(l,m)[1]*x; } if(wr) fprintf(fr,"%.17Lg\n",R); if(wi) fprintf(fi,"%.17Lg\n",I); }
    if(wr&&wi) for(l=0;l<=L;l++) for(m=-l;m<=l;m++) fprintf(fe,"M %d %d %.17g %.17g %.17g\n",l,m,tm,CC(l,m)[0],CC(l,m)[1]); }
  fclose(fr);fclose(fi);fclose(fe); free(a); }
int main(int ac,char **av)
{ int it,n; if(!strcmp(av[1],"run")) return libsgrid_main(ac-1,av+1); if(!strcmp(av[1],"data")){ vh_init(15000+atoi(av[3])); modedata(av[2]); return 0; }
  int part=atoi(av[1]); vh_init(1500+part); vh_silence();
  { /* the reference itself: known closed forms */ ld R,I,th=0.9L; sy(2,2,-2,th,0.3L,&R,&I); ld e=sqrtl(5/(64*LPI))*(1+cosl(th))*(1+cosl(th)); if(fabsl(R-e*cosl(0.6L))>1e-15L) vh_fail("harness","reference wrong %Lg %Lg",R,e); sy(2,1,-2,th,0,&R,&I); e=sqrtl(5/(16*LPI))*sinl(th)*(1+cosl(th)); if(fabsl(R-e)>1e-15L) vh_fail("harness","reference wrong 2,1 %Lg %Lg",R,e); sy(3,-2,0,th,0,&R,&I); if(fabsl(R-pn(3,2,cosl(th)))>1e-15L) vh_fail("harness","ref 3 -2 %Lg",R); sy(4,-1,0,th,0,&R,&I); if(fabsl(R+pn(4,1,cosl(th)))>1e-15L) vh_fail("harness","ref 4 -1 %Lg",R); }
  n=vh_n(60,800); for(it=0;it<n;it++){ int r; for(r=0;r<5;r++) tables(); for(r=0;r<200;r++) spin(); ortho(); for(r=0;r<10;r++) s2k(); for(r=0;r<10;r++) expand(); if(it%6==0) surf(); }
  vh_end(); return 0; }
