/* one dimensional roots, brackets and minima, LU, ODEs, integrals, switching functions; OLD: module NumericUtils */
#include "vh.h"
#include "vgrid.h"
#include <setjmp.h>
#ifdef OLD
int rtsafe_itsP(double *x0,void (*funcd)(double x,double *f,double *df,void *par),double x1,double x2,void *par,int MAXIT,double xacc);
int ludcmpSing(double **a,int n,int *indx,double *d); void lubksb(double **a,int n,int *indx,double b[]); void ludcmp(double **a,int n,int *indx,double *d);
double integrate_simpson_old_1Dgrid(double* f,double dx,int i1,int i2);
#else
int GSL_odeint_rk8pd(double *xs,double xe,int n,double *y,int (*d)(double x,const double *y,double *dy,void *p),void *pars,double h,double ea,double er);
int ludcmpSing(double **a,int n,int *indx,double *d); void lubksb(double **a,int n,int *indx,double b[]);
#endif
static char T[1000]; static jmp_buf jb; 
typedef struct { int k; double r,s,c,r2,r3,nanlo,nanhi; long n,max; double lo,hi; } FN;
static FN W; static FN *WP=&W;
static const char *KN[]={"cubic","tanh","exp","step","three roots","power 3","power 5","wave"};
static double raw(FN *w,double x){ double d=x-w->r; switch(w->k){ case 0: return w->s*(d+w->c*d*d*d); case 1: return w->s*tanh(w->c*d); case 2: return w->s*expm1(w->c*d); case 3: return d<0?-w->s:d>0?2*w->s:0; case 4: return w->s*d*(x-w->r2)*(x-w->r3); case 5: return w->s*d*d*d; case 6: return w->s*d*d*d*d*d; case 7: return w->s*(sin(3*d)+.2*d); case 8: return fabs(w->s)*(d*d+.1); case 10: return fabs(w->s)*d*d+w->c; case 11: return fabs(w->s)*fabs(d)+w->c; case 12: return cosh(w->c*d)*fabs(w->s); case 13: return fabs(w->s)*d*d*d*d+d*d; case 14: return -w->s*d; } return 0; }
static double ev(double x,void *p){ FN *w=p; if(p!=WP){ vh_fail("parameter-pointer","%s",T); longjmp(jb,1); } if(++w->n>w->max) longjmp(jb,2); if(!(x>=w->lo)) w->lo=x; if(!(x<=w->hi)) w->hi=x; if(x>=w->nanlo&&x<=w->nanhi) return NAN; return raw(w,x); }
static void evd(double x,void *p,double *f,double *df){ *f=ev(x,p); FN *w=p; double d=x-w->r; switch(w->k){ case 0: *df=w->s*(1+3*w->c*d*d); break; case 1: *df=w->s*w->c/pow(cosh(w->c*d),2); break; case 2: *df=w->s*w->c*exp(w->c*d); break; case 3: *df=0; break; case 4: *df=w->s*((x-w->r2)*(x-w->r3)+d*(x-w->r3)+d*(x-w->r2)); break; case 5: *df=3*w->s*d*d; break; case 6: *df=5*w->s*d*d*d*d; break; case 7: *df=w->s*(3*cos(3*d)+.2); break; default: *df=2*d; } }
static void evd2(double x,double *f,double *df,void *p){ evd(x,p,f,df); }
static void fresh(int k){ memset(&W,0,sizeof W); W.k=k; W.r=vh_range(-3,3)*pow(10,vh_int(-3,2)); W.s=vh_range(.2,3)*(vh_int(0,1)?1:-1); W.c=vh_range(.2,3); W.r2=W.r+vh_range(-2,2); W.r3=W.r+vh_range(-2,2); W.nanlo=1; W.nanhi=0; W.max=2000000; W.lo=1e300; W.hi=-1e300; }
static int sg(double x){ return (x>0)-(x<0); }
static void roots(int i0)
{
#ifdef OLD
  static const char *nm[]={"zbrent_itsP","rtsafe_itsP","newton1d_brak"}; int which=i0%3;
#else
  static const char *nm[]={"rtbrent_brak","newton1d_brak","rtbisect","zbrent_itsP"}; int which=i0%4;
#endif
  int newt=!strncmp(nm[which],"newton",6)||!strncmp(nm[which],"rtsafe",6),k=vh_int(0,7),maxits=vh_int(0,3)?1000:vh_int(0,8),ret; fresh(k); if(newt&&k>3) k=W.k=vh_int(0,2); double x1=W.r-vh_range(.05,2)*pow(10,vh_int(-2,1)),x2=W.r+vh_range(.05,2)*pow(10,vh_int(-2,1)),xacc=pow(10,-vh_range(2,13)),x0=vh_range(-10,10); int mode=vh_int(0,11);
  if(k==2){ if(x2*W.c-W.r*W.c>20) x2=W.r+20/W.c; } if(mode==0) x1=W.r+vh_range(.1,1)*(x2-W.r); if(mode==1) x1=W.r; if(mode==2) x2=W.r; if(mode==3){ W.nanlo=x1-1; W.nanhi=x1; } if(mode==4){ W.nanlo=x2; W.nanhi=x2+1; } if(vh_int(0,1)){ double t=x1; x1=x2; x2=t; } double b1=x1,b2=x2; if(mode==5){ if(vh_int(0,1)) x1=vh_int(0,1)?NAN:INFINITY; else x2=vh_int(0,1)?NAN:-INFINITY; } int nanin=mode==6&&newt; if(nanin){ W.nanlo=fmin(x1,x2)+.3*fabs(x2-x1); W.nanhi=fmin(x1,x2)+.7*fabs(x2-x1); } if(mode==7) x0=NAN; if(mode==8) x0=vh_range(fmin(b1,b2),fmax(b1,b2)); double g0=x0;
#ifdef OLD
  if(which==0&&mode==5){ mode=9; x1=b1; x2=b2; }
#endif
  sprintf(T,"%s %s in %.17g,%.17g root %.17g accuracy %g maxits %d start %g%s",nm[which],KN[k],x1,x2,W.r,xacc,maxits,g0,mode==3||mode==4?", not finite at an end":nanin?", not finite inside":""); vh_at("%s",T);
  int j=setjmp(jb); if(j){ if(j==2) vh_fail("does-not-end","%s",T); return; } 
#ifdef OLD
  ret=which==0?zbrent_itsP(&x0,ev,x1,x2,&W,maxits,xacc):which==1?rtsafe_itsP(&x0,evd2,x1,x2,&W,maxits,xacc):newton1d_brak(&x0,evd,x1,x2,&W,maxits,xacc,vh_int(0,1)); if(which==0&&ret<=-maxits-2) vh_count("limits reported",1);
#else
  ret=which==0?rtbrent_brak(&x0,ev,x1,x2,&W,maxits,xacc,vh_int(0,1)):which==1?newton1d_brak(&x0,evd,x1,x2,&W,maxits,xacc,vh_int(0,1)):which==2?rtbisect(&x0,ev,x1,x2,&W,maxits,xacc,vh_int(0,1)):zbrent_itsP(&x0,ev,x1,x2,&W,maxits,xacc);
#endif
  int ok=ret>=0&&ret<=maxits; long ne=W.n; double lo=W.lo,hi=W.hi; W.nanlo=1;W.nanhi=0; double f1=raw(&W,b1),f2=raw(&W,b2); int br=sg(f1)*sg(f2)<=0,bad=mode==3||mode==4||mode==5;
  if(mode==5||mode==3||mode==4){ if(!(mode==5&&!strncmp(nm[which],"zbrent",6)&&0)) VEXPECT(ret<0,"bad-bracket-accepted","%s returned %d",T,ret); vh_count("bad brackets refused",1); }
  else if(!br){ VEXPECT(ret<0,"no-sign-change-accepted","%s returned %d",T,ret); vh_count("brackets without sign change refused",1); }
  else { VEXPECT(ne<=maxits+2,"too-many-evaluations","%s %ld",T,ne); VEXPECT(lo>=fmin(b1,b2)&&hi<=fmax(b1,b2),"left-the-bracket","%s evaluated in %.17g,%.17g",T,lo,hi);
    if(!nanin&&maxits>=1000) VEXPECT(ok,"did-not-converge","%s returned %d",T,ret);
    if(nanin&&!ok){ VEXPECT(ret<0||ret>maxits,"code","%s %d",T,ret); vh_count("not finite inside, reported",1); }
    if(ok){ double d=xacc*(newt?5:1.001)+4e-14*fabs(x0)+(newt?1e-12:0); int z=sg(f1)==0||sg(f2)==0; VEXPECT(x0>=fmin(b1,b2)&&x0<=fmax(b1,b2),"root-outside","%s gave %.17g",T,x0); double a=fmax(x0-d,fmin(b1,b2)),b=fmin(x0+d,fmax(b1,b2)),fa=raw(&W,a),fb=raw(&W,b); int good=sg(fa)*sg(fb)<=0||raw(&W,x0)==0; if(z&&(fabs(x0-b1)<=d||fabs(x0-b2)<=d)) good=1; VEXPECT(good,"wrong-root","%s gave %.17g, no sign change within %g",T,x0,d); vh_count("roots found",1); } else if(maxits<1000) vh_count("iteration limits reported",1); }
  (void)bad; vh_case(1,"%s",T); }
static void brackets(int i0)
{ int k=vh_int(0,9),ret; fresh(k==9?8:k); k=W.k; double x1=W.r+vh_range(-20,20),x2=x1+vh_range(-2,2),o1=x1,o2=x2; int maxits=50,eq=vh_int(0,9)==0; if(k==2||k==7||k==1){ x1=o1=W.r+vh_range(-3,3)/W.c; x2=o2=x1+vh_range(-.5,.5); } if(eq) x2=o2=x1; int br0=sg(raw(&W,x1))*sg(raw(&W,x2))<0;
#ifndef OLD
  if(i0&1){ maxits=vh_int(1,60); sprintf(T,"rt_brak %s from %.17g,%.17g maxits %d",k==8?"no root":KN[k],x1,x2,maxits); vh_at("%s",T); if(setjmp(jb)) { vh_fail("does-not-end","%s",T); return; } ret=rt_brak(ev,&W,&x1,&x2,maxits); } else
#endif
  { sprintf(T,"zbrac_P %s from %.17g,%.17g",k==8?"no root":KN[k],x1,x2); vh_at("%s",T); if(setjmp(jb)) { vh_fail("does-not-end","%s",T); return; } ret=zbrac_P(ev,&x1,&x2,&W); }
  double f1=raw(&W,x1),f2=raw(&W,x2); int good=sg(f1)*sg(f2)<0;
  if(eq) VEXPECT(ret<0,"equal-ends","%s returned %d",T,ret); else { VEXPECT(ret>0?good:ret<0,"bracket-code","%s returned %d but values %g %g",T,ret,f1,f2); if(ret<0&&good&&isfinite(f1*f2)&&f1*f2!=0) vh_count("bracket found by the last step only",1); if(ret>=0) VEXPECT(good&&ret>0&&ret<=maxits,"bracket-code","%s returned %d values %g %g",T,ret,f1,f2); VEXPECT(fmin(x1,x2)<=fmin(o1,o2)&&fmax(x1,x2)>=fmax(o1,o2),"bracket-shrank","%s %g %g",T,x1,x2); if(k==8) VEXPECT(ret<0,"bracket-without-root","%s %d",T,ret); if(k<=1&&maxits>=50&&fabs(f1)>0) VEXPECT(ret>0,"bracket-not-found","%s returned %d",T,ret); if(br0) VEXPECT(ret==1&&x1==o1&&x2==o2,"bracket-changed","%s",T); VEXPECT(W.n<=maxits+2,"too-many-evaluations","%s %ld",T,W.n); }
  vh_count(ret>0?"brackets found":"no bracket, reported",1); vh_case(1,"%s",T); }
static void minima(int i0)
{ int k=vh_int(10,13),ret=0,maxits=1000; fresh(k); double ax=W.r+vh_range(-4,4),bx=ax+vh_range(-1,1),cx=0,fa,fb,fc; int mode=vh_int(0,9); if(mode==0) W.k=14; if(mode==1){ W.nanlo=-1e300; W.nanhi=W.r+vh_range(-2,2); } if(ax==bx) return; WP=&W; W.max=mode<2?20000:2000; 
  sprintf(T,"minimum kind %d at %.17g scale %g from %.17g,%.17g%s",W.k,W.r,W.s,ax,bx,mode==1?", not finite below some point":""); vh_at("%s",T); int j=setjmp(jb); if(j){ if(j==2) vh_fail("does-not-end","%s bracketing",T); return; }
#ifndef OLD
  if(i0&1){ maxits=mode<2?vh_int(1,40):vh_int(0,4)?200:vh_int(1,3); ret=min_brak(ev,&W,&ax,&bx,&cx,&fa,&fb,&fc,maxits); } else
#endif
  { 
#ifdef OLD
  if(mode<2) return;
#endif
  mnbrak_with_pointer_to_pars(&ax,&bx,&cx,&fa,&fb,&fc,ev,&W); }
  if(mode<2){ vh_count("unbounded or not finite, ended",1); if(mode==0&&(i0&1)&&maxits<30) VEXPECT(ret>maxits,"minimum-of-line","%s returned %d of %d",T,ret,maxits); vh_case(1,"%s",T); return; }
  VEXPECT(fa==raw(&W,ax)&&fb==raw(&W,bx)&&fc==raw(&W,cx),"bracket-values","%s",T); if(ret>maxits){ vh_count("bracket limit reported",1); vh_case(1,"%s",T); return; }
  VEXPECT(fb<=fa&&fb<=fc&&(bx-ax)*(cx-bx)>0,"minimum-not-bracketed","%s %g %g %g values %g %g %g",T,ax,bx,cx,fa,fb,fc); VEXPECT(W.r>=fmin(ax,cx)&&W.r<=fmax(ax,cx),"minimum-not-bracketed","%s %g %g",T,ax,cx); vh_count("minima bracketed",1);
  if(vh_int(0,2)==0){ ax=W.r-vh_range(.1,3); cx=W.r+vh_range(.1,3); do bx=vh_range(ax,cx); while(raw(&W,bx)>raw(&W,ax)||raw(&W,bx)>raw(&W,cx)); if(vh_int(0,1)){ double t=ax; ax=cx; cx=t; } }
  double tol=pow(10,-vh_range(2,9)),xm=0,fm=0; int its=vh_int(0,3)?300:vh_int(1,6); W.lo=1e300; W.hi=-1e300; W.n=0; ret=1; fb=raw(&W,bx); if(setjmp(jb)){ vh_fail("does-not-end","%s",T); return; }
#ifndef OLD
  if(i0&2) ret=minbrent_brak(ev,&W,ax,bx,cx,its,tol,&xm,&fm,vh_int(0,1)); else
#endif
  { its=100; 
#ifdef OLD
  tol=fmax(tol,1e-8);
#endif
  fm=brent_with_pointer_to_pars(ax,bx,cx,ev,tol,&xm,&W); }
  VEXPECT(fm==raw(&W,xm),"minimum-value","%s f(%.17g) is %.17g not %.17g",T,xm,raw(&W,xm),fm); VEXPECT(xm>=fmin(ax,cx)&&xm<=fmax(ax,cx)&&W.lo>=fmin(ax,cx)&&W.hi<=fmax(ax,cx),"left-the-bracket","%s evaluated in %g,%g",T,W.lo,W.hi); VEXPECT(fm<=fb,"minimum-got-worse","%s",T); VEXPECT(ret>0&&W.n<=its+1,"too-many-evaluations","%s %ld",T,W.n);
  if(ret<=its){ double d=5*(tol*fabs(xm)+1e-10)+(W.k==11?0:W.k==12?4*sqrt(4e-16)/W.c:W.k==13?1e-8*0+1e-9:4*sqrt(4e-16*fabs(W.c)/fabs(W.s))); d+=1e-14*fabs(xm); VEXPECT(fabs(xm-W.r)<=d,"wrong-minimum","%s tolerance %g gave %.17g, off by %g, allowed %g",T,tol,xm,xm-W.r,d); vh_count("minima found",1); } else vh_count("iteration limits reported",1); if(its>=300&&ret>its) vh_fail("did-not-converge","%s returned %d",T,ret);
  vh_case(1,"%s tol %g",T,tol); }
static double gdet(int n,double *A,double *x){ int i,j,k; double d=1,*M=malloc(8*n*n); memcpy(M,A,8*n*n); for(k=0;k<n;k++){ int p=k; for(i=k;i<n;i++) if(fabs(M[i*n+k])>fabs(M[p*n+k])) p=i; if(p!=k){ d=-d; for(j=0;j<n;j++){ double t=M[p*n+j]; M[p*n+j]=M[k*n+j]; M[k*n+j]=t; } double t=x[p]; x[p]=x[k]; x[k]=t; } d*=M[k*n+k]; for(i=k+1;i<n;i++){ double m=M[i*n+k]/M[k*n+k]; for(j=k;j<n;j++) M[i*n+j]-=m*M[k*n+j]; x[i]-=m*x[k]; } } for(i=n-1;i>=0;i--){ for(j=i+1;j<n;j++) x[i]-=M[i*n+j]*x[j]; x[i]/=M[i*n+i]; } free(M); return d; }
static void lu(int i0)
{ int n=vh_int(1,vh_int(0,3)?8:25),i,j,k,kind=vh_int(0,6),ret,par=77; double *A=malloc(8*n*n),*S=malloc(8*n*n),*b=malloc(8*n),*x=malloc(8*n); int *ix=malloc(4*n);
  for(i=0;i<n;i++) for(j=0;j<n;j++) A[i*n+j]=vh_range(-1,1)*(kind==1&&vh_int(0,2)?0:1); int *p=malloc(4*n); for(i=0;i<n;i++) p[i]=i; for(i=n-1;i>0;i--){ j=vh_int(0,i); int t=p[i]; p[i]=p[j]; p[j]=t; } for(i=0;i<n;i++) A[i*n+p[i]]+=(vh_int(0,1)?1:-1)*n*(kind==6?0:1.); if(kind==6) for(i=0;i<n;i++) for(j=0;j<n;j++) A[i*n+j]=j==p[i]?vh_range(1,2)*(vh_int(0,1)?1:-1):0; if(kind==2) for(i=0;i<n;i++){ double s=pow(10,vh_int(-20,20)); for(j=0;j<n;j++) A[i*n+j]*=s; } if(kind==5) for(j=0;j<n;j++){ double s=pow(10,vh_int(-9,9)); for(i=0;i<n;i++) A[i*n+j]*=s; }
  int zr=-1,zc=-1; if(kind==3){ zr=vh_int(0,n-1); for(j=0;j<n;j++) A[zr*n+j]=0; } if(kind==4){ zc=vh_int(0,n-1); for(i=0;i<n;i++) A[i*n+zc]=0; } for(i=0;i<n;i++) b[i]=vh_int(0,3)?vh_range(-1,1):0; if(kind==2) for(i=0;i<n;i++){ double m=0; for(j=0;j<n;j++) m=fmax(m,fabs(A[i*n+j])); b[i]*=m; } memcpy(S,A,8*n*n); memcpy(x,b,8*n); double d=1,g; int shim=1;
#ifndef OLD
  shim=i0&1;
#endif
  sprintf(T,"LU %d x %d kind %d %s",n,n,kind,shim?"ludcmp":"lu_decomp"); vh_at("%s",T); double **a=NULL; int *ii=NULL; double *bb=NULL;
  if(shim){ a=matrix(1,n,1,n); ii=ivector(1,n); bb=vector(1,n); for(i=1;i<=n;i++){ bb[i]=b[i-1]; for(j=1;j<=n;j++) a[i][j]=A[(i-1)*n+j-1]; }
#ifdef OLD
    if(kind<3&&(i0&1)){ ludcmp(a,n,ii,&d); ret=0; } else
#endif
    ret=ludcmpSing(a,n,ii,&d); if(ret==0) lubksb(a,n,ii,bb); g=d; for(i=1;i<=n;i++) g*=a[i][i]; for(i=0;i<n;i++){ b[i]=bb[i+1]; ix[i]=ii[i+1]; for(j=0;j<n;j++) A[i*n+j]=a[i+1][j+1]; } free_matrix(a,1,n,1,n); free_ivector(ii,1,n); free_vector(bb,1,n); }
#ifndef OLD
  else { ret=lu_decomp(n,(double(*)[n])A,ix,&par); g=0; if(ret==0){ VEXPECT(par==1||par==-1,"parity","%s %d",T,par); lu_solve(n,(double(*)[n])A,ix,b); g=lu_det(n,(double(*)[n])A,par); } }
#endif
  if(zr>=0||zc>=0){ int r0=zr>=0?-(zr+1):0,c0=zc+1,wr=zr>=0&&!(n==1)?r0:c0; if(n==1) wr=ret; VEXPECT(ret!=0&&ret==wr,"singular-not-reported","%s returned %d row %d column %d",T,ret,zr+1,zc+1); VEXPECT(!memcmp(A,S,8*n*n),"singular-matrix-changed","%s",T); vh_count("singular matrices reported",1); }
  else { VEXPECT(ret==0,"called-singular","%s returned %d",T,ret); double *y=malloc(8*n); memcpy(y,x,8*n); double gd=gdet(n,S,y); double m=0,ym=0; for(i=0;i<n;i++){ double r=-x[i],s=fabs(x[i]); for(j=0;j<n;j++){ r+=S[i*n+j]*b[j]; s+=fabs(S[i*n+j]*b[j]); } if(!(fabs(r)<=1e-12*n*s)) m=fmax(m,s>0?fabs(r)/s:9); if(!isfinite(b[i])) m=9; ym=fmax(ym,fabs(y[i])); } VEXPECT(m==0,"wrong-solution","%s relative residual %g",T,m); if(isfinite(gd)&&gd!=0) VEXPECT(fabs(g-gd)<=1e-9*fabs(gd),"wrong-determinant","%s %g expected %g",T,g,gd);
    /* rows of L U are the permuted rows of A */ if(ret==0){ double *Q=malloc(8*n*n); memcpy(Q,S,8*n*n); for(k=0;k<n;k++){ int q=shim?ix[k]-1+(0):ix[k];
#ifndef OLD
      q=ix[k];
#endif
      if(q<k||q>=n){ vh_fail("permutation","%s step %d row %d",T,k,q); break; } for(j=0;j<n;j++){ double t=Q[k*n+j]; Q[k*n+j]=Q[q*n+j]; Q[q*n+j]=t; } } double mm=0; for(i=0;i<n;i++) for(j=0;j<n;j++){ double s=0,t=fabs(Q[i*n+j]); for(k=0;k<=(i<j?i:j);k++){ double l=k==i?1:A[i*n+k]; s+=l*A[k*n+j]; t+=fabs(l*A[k*n+j]); } if(!(fabs(s-Q[i*n+j])<=1e-12*t)) mm=1; } VEXPECT(mm==0,"factors","%s",T); free(Q); } free(y); vh_count("systems solved",1); }
  vh_case(1,"%s first %g",T,S[0]); free(A);free(S);free(b);free(x);free(ix);free(p); }
/* ODEs */
static int oN,oK; static double oL[8],oW,oX1,oX2,oC[8],oStop,oLo,oHi; static void *oP=&oN; static long oE;
static void exact(double x,double *y){ int i; for(i=0;i<oN;i++) switch(oK){ case 0: y[i]=oC[i]*exp(oL[i]*(x-oX1)); break; case 1: if(i%2==0&&i+1<oN){ double a=oW*(x-oX1); y[i]=oC[i]*cos(a)+oC[i+1]*sin(a); y[i+1]=-oC[i]*sin(a)+oC[i+1]*cos(a); i++; } else y[i]=oC[i]+x-oX1; break; case 2: y[i]=oC[i]+oL[i]*(sin(x)-sin(oX1)); break; case 3: y[i]=oC[i]/(1+oC[i]*(x-oX1)); break; case 4: y[i]=oC[i]/(1-oC[i]*(x-oX1)); break; } }
static int rhs0(double x,const double *y,double *dy){ int i; if(++oE>3000000) longjmp(jb,2); if(x<oLo) oLo=x; if(x>oHi) oHi=x; for(i=0;i<oN;i++) switch(oK){ case 0: dy[i]=oL[i]*y[i]; break; case 1: if(i%2==0&&i+1<oN){ dy[i]=oW*y[i+1]; dy[i+1]=-oW*y[i]; i++; } else dy[i]=1; break; case 2: dy[i]=oL[i]*cos(x); break; case 3: dy[i]=-y[i]*y[i]; break; case 4: dy[i]=y[i]*y[i]; break; } return 0; }
static void rhs(double x,double *y,double *dy){ rhs0(x,y+1,dy+1); }
static int rhsP(double x,const double *y,double *dy,void *p){ if(p!=oP){ vh_fail("parameter-pointer","%s",T); longjmp(jb,1); } rhs0(x,y+1,dy+1); return oStop>0&&fabs(x-oX1)>oStop?7:0; }
static int rhsG(double x,const double *y,double *dy,void *p){ if(p!=oP){ vh_fail("parameter-pointer","%s",T); longjmp(jb,1); } rhs0(x,y,dy); return oStop>0&&fabs(x-oX1)>oStop?7:0; }
static void ode(int i0)
{ int i,k,nok,nbad,kc=0,st=99,which=i0%3,kmax=vh_int(0,2)?vh_int(0,40):0,fail=vh_int(0,9)==0; oN=vh_int(1,5); oK=vh_int(0,3); oW=vh_range(.5,4); oX1=vh_range(-3,3); double len=vh_range(.1,3); int back=vh_int(0,2)==0; oX2=oX1+(back?-len:len); for(i=0;i<oN;i++){ oL[i]=vh_range(-2,1); oC[i]=oK==3?(back?-1:1)*vh_range(.1,2):vh_range(-2,2); } double eps=pow(10,-vh_range(3,10)),h1=vh_range(.001,.5); oStop=0; oE=0; oLo=1e300; oHi=-1e300;
#ifdef OLD
  if(which==2) which=1; if(fail){ oK=4; for(i=0;i<oN;i++) oC[i]=(back?-1:1)*vh_range(1.2,3)/len; }
#else
  if(fail){ if(which==0) fail=0; else oStop=len*vh_range(.1,.8); }
  if(which==2){ kmax=0; }
#endif
  double y[8],z[8],xp[50],**yp=matrix(1,8,1,50),ret; for(i=0;i<oN;i++) y[i+1]=oC[i]; y[0]=y[oN+1]=777; static const char *nm[]={"odeintegrate","odeintegrateP","GSL_odeint_rk8pd"}; sprintf(T,"%s %d equations kind %d from %.17g to %.17g accuracy %g first step %g, %d output points%s",nm[which],oN,oK,oX1,oX2,eps,h1,kmax,fail?", cannot reach the end":""); vh_at("%s",T);
  int j=setjmp(jb); if(j){ vh_fail("does-not-end","%s",T); return; }
  double dx=len*vh_range(.005,.2);
#ifdef OLD
  ret=which==0?odeintegrate(y,oN,oX1,oX2,eps,h1,fail?1e-7*len:0,&nok,&nbad,rhs,rkqs,kmax,&kc,xp,yp,dx,&st):odeintegrateP(y,oN,oX1,oX2,eps,h1,fail?1e-7*len:0,&nok,&nbad,rhsP,oP,rkqsP,kmax,&kc,xp,yp,dx,&st);
#else
  if(which==2){ double xs=oX1; st=GSL_odeint_rk8pd(&xs,oX2,oN,y+1,rhsG,oP,back?-h1:h1,eps,eps); ret=xs; }
  else ret=which==0?odeintegrate(y,oN,oX1,oX2,eps,h1,fail?1e-7*len:0,&nok,&nbad,rhs,rkqs,kmax,&kc,xp,yp,dx,&st):odeintegrateP(y,oN,oX1,oX2,eps,h1,fail?1e-7*len:0,&nok,&nbad,rhsP,oP,rkqsP,kmax,&kc,xp,yp,dx,&st);
#endif
  VEXPECT(y[0]==777&&y[oN+1]==777,"outside","%s",T);
  if(fail){ VEXPECT(fabs(ret-oX2)>1e-9,"failure-hidden","%s returned the end point",T); VEXPECT(st!=0,"failure-hidden","%s status 0, stopped at %g",T,ret); vh_count("failed integrations reported",1); free_matrix(yp,1,8,1,50); vh_case(1,"%s",T); return; }
  VEXPECT(fabs(ret-oX2)<=(kmax>1?4e-15*(fabs(oX1)+fabs(oX2)):0),"end-not-reached","%s stopped at %g",T,ret); VEXPECT(st==0,"status","%s %d",T,st); exact(oX2,z); double amp=1; for(i=0;i<oN;i++) amp=fmax(amp,fabs(z[i])); for(i=0;i<oN;i++) amp=fmax(amp,fabs(oC[i])); double tol=eps*amp*(
#ifdef OLD
  3000
#else
  30
#endif
  )*(1+len*4); double e=0; for(i=0;i<oN;i++){ double q=fabs(y[i+1]-z[i]); if(!(q<=e)) e=q; } VEXPECT(e<=tol,"wrong-solution","%s error %g",T,e);
  VEXPECT(oLo>=fmin(oX1,oX2)-1e-12&&oHi<=fmax(oX1,oX2)+1e-12,"left-the-interval","%s evaluated in %g,%g",T,oLo,oHi);
  if(which<2){ VEXPECT(kmax>0?kc>=1&&kc<=kmax:kc==0,"output-count","%s %d",T,kc); for(k=1;k<=kc&&kmax;k++){ VEXPECT(k==1||(xp[k]-xp[k-1])*(oX2-oX1)>0,"output-order","%s point %d",T,k); exact(xp[k],z); for(i=0;i<oN;i++) VEXPECT(fabs(yp[i+1][k]-z[i])<=tol,"output-values","%s point %d of %d error %g",T,k,kc,yp[i+1][k]-z[i]); } if(kmax>1&&kc>0){ VEXPECT(xp[1]==oX1,"output-start","%s %g",T,xp[1]); VEXPECT(fabs(xp[kc]-oX2)<1e-14,"output-end","%s %g",T,xp[kc]); vh_count("output points checked",kc); } }
  vh_count(back?"integrated backward":"integrated forward",1); free_matrix(yp,1,8,1,50); vh_case(1,"%s",T); }
static void switching(int i0)
{ double x0=vh_range(-5,5),w=vh_range(.1,5),q=vh_range(.3,3),s=vh_range(.3,4),p=vh_range(.1,.9),xl=x0-1,prev=-1,pa=-1; int i; sprintf(T,"switching functions x0 %.17g w %g q %g s %g p %g",x0,w,q,s,p); vh_at("%s",T);
  VEXPECT(fabs(Attenuation01(p,s,p)-.5)<1e-12,"half","%s %g",T,Attenuation01(p,s,p)); { double h=1e-5,d=(Attenuation01(p+h,s,p)-Attenuation01(p-h,s,p))/(2*h); VEXPECT(fabs(d-s)<1e-4*(s+1)*(1+s*s)/p/(1-p),"slope","%s %g",T,d); } VEXPECT(Attenuation01(0,s,p)==0&&Attenuation01(1,s,p)==1&&Attenuation01(-vh_u(),s,p)==0&&Attenuation01(1+vh_u(),s,p)==1,"ends","%s",T);
  { double xm=x0+2*w/PI*atan(q),v=Att_0to1_x_x0_w_q_s(xm,x0,w,q,s); VEXPECT(fabs(v-.5)<1e-9,"half","%s Att %g",T,v); }
  for(i=0;i<60;i++){ double x=x0-.2*w+1.4*w*i/59,a=Att_0to1_x_x0_w_q_s(x,x0,w,q,s),b=Att_1to0_x_x0_w_q_s(x,x0,w,q,s),da=dAtt_0to1_x_x0_w_q_s(x,x0,w,q,s),db=dAtt_1to0_x_x0_w_q_s(x,x0,w,q,s),h=1e-5*w,t=Attenuation01((x-x0)/w,s,p); VEXPECT(a>=0&&a<=1&&fabs(a+b-1)<1e-14,"range","%s at %g %g",T,x,a); VEXPECT(a>=prev-1e-15,"not-monotone","%s at %g",T,x); VEXPECT(t>=pa-1e-15&&t>=0&&t<=1,"not-monotone","%s at %g Attenuation01",T,x); prev=a; pa=t; if(x<=x0) VEXPECT(a==0&&da==0&&db==0,"ends","%s",T); if(x>=x0+w) VEXPECT(a==1&&da==0&&db==0,"ends","%s",T); double fd=(Att_0to1_x_x0_w_q_s(x+h,x0,w,q,s)-Att_0to1_x_x0_w_q_s(x-h,x0,w,q,s))/(2*h); VEXPECT(fabs(da-fd)<1e-3*(1+s*s*s)*(1+q*q*q)/w&&da>=0&&fabs(da+db)<=1e-12*fabs(da),"derivative","%s at %g: %g, differences give %g",T,x,da,fd); vh_count("switching values",1); }
  (void)xl; double r=RND(); VEXPECT(r>=0&&r<=1,"random","%g",r); vh_case(1,"%s",T); }
#ifdef OLD
static double iC[6],iS; static double i1(double x){ return iC[0]+iC[1]*x+iC[2]*x*x+iC[3]*sin(iS*x); } static double I1(double x){ return iC[0]*x+iC[1]*x*x/2+iC[2]*x*x*x/3-iC[3]*cos(iS*x)/iS; }
static double i3(double x,double y,double z){ return iC[0]+iC[1]*x+iC[2]*y+iC[3]*z*z+iC[4]*x*y*z; } static double yl(double x){ return -.5-.1*x; } static double yh(double x){ return .5+.2*x; } static double zl(double x,double y){ return .1*y; } static double zh(double x,double y){ return 1+.2*x; }
static double pw(double x[]){ int i; double s=1; for(i=1;i<=oN;i++){ double d=x[i]-oC[i]; s+=(1+.3*i)*d*d; if(i>1) s+=.4*d*(x[i-1]-oC[i-1]); } return s; }
static void integrals(int i0)
{ int i,n; for(i=0;i<6;i++) iC[i]=vh_range(-2,2); iS=vh_range(.5,3); double a=vh_range(-2,1),b=a+vh_range(.1,2),ex=I1(b)-I1(a),tol=pow(10,-vh_range(3,7)),v; sprintf(T,"integrals from %.17g to %.17g tolerance %g",a,b,tol); vh_at("%s",T);
  if(fabs(ex)>.05){ v=rombintegral(i1,a,b,tol,20); VEXPECT(fabs(v-ex)<=20*tol*fabs(ex)+1e-12,"romberg","%s %g expected %g",T,v,ex); v=integral(i1,a,b,tol,22); VEXPECT(fabs(v-ex)<=20*tol*(fabs(ex)+5),"trapezoid","%s %g expected %g",T,v,ex); v=rombintegral(i1,b,a,tol,20); VEXPECT(fabs(v+ex)<=20*tol*fabs(ex)+1e-12,"romberg","%s backward %g expected %g",T,v,-ex); }
  if(i0%4==0){ double x1=0,x2=1,S=0; int j,k,m=12; /* Gauss-free reference: the integrand is polynomial, so composite Simpson in each direction is exact to the needed digits */ for(i=0;i<=2*m;i++){ double x=x1+(x2-x1)*i/(2*m),wx=(i==0||i==2*m)?1:i%2?4:2,sy=0; for(j=0;j<=2*m;j++){ double y0=yl(x),y1=yh(x),y=y0+(y1-y0)*j/(2*m),wy=(j==0||j==2*m)?1:j%2?4:2,sz=0; for(k=0;k<=2*m;k++){ double z0=zl(x,y),z1=zh(x,y),z=z0+(z1-z0)*k/(2*m),wz=(k==0||k==2*m)?1:k%2?4:2; sz+=wz*i3(x,y,z)*(z1-z0)/(6*m); } sy+=wy*sz*(y1-y0)/(6*m); } S+=wx*sy*(x2-x1)/(6*m); } v=integral3D(rombintegral,i3,x1,x2,yl,yh,zl,zh,1e-6,1e-7,1e-8,12,12,12); VEXPECT(fabs(v-S)<1e-4,"integral3D","%s %g expected %g",T,v,S); vh_count("3D integrals",1); }
  n=vh_int(2,20); double *f=malloc(8*(n+5)),dx=(b-a)/(n-1); int o=vh_int(0,4); iC[3]=0; ex=I1(b)-I1(a); for(i=0;i<n+5;i++) f[i]=NAN; for(i=0;i<n;i++) f[o+i]=i1(a+i*dx); v=integrate_trapez_1Dgrid(f,dx,o,o+n-1); VEXPECT(fabs(v-ex-iC[2]*2*(b-a)*dx*dx/12)<1e-10,"trapezoid-grid","%s %d points %g expected %g",T,n,v,ex); v=integrate_simpson_1Dgrid(f,dx,o,o+n-1); if(n>=3) VEXPECT(n==3||fabs(v-ex)<1e-10,"simpson-grid","%s %d points %.15g expected %.15g",T,n,v,ex); free(f);
  oN=vh_int(1,4); double p[8],**xi=matrix(1,oN,1,oN),fr; int it,j; for(i=1;i<=oN;i++){ oC[i]=vh_range(-2,2); p[i]=vh_range(-2,2); for(j=1;j<=oN;j++) xi[i][j]=i==j; } powell(p,xi,oN,1e-12,&it,&fr,pw); double e=0; for(i=1;i<=oN;i++) e=fmax(e,fabs(p[i]-oC[i])); VEXPECT(e<1e-4&&fabs(fr-1)<1e-9&&fabs(pw(p)-fr)<1e-14,"powell","%s %d variables off by %g value %g",T,oN,e,fr); free_matrix(xi,1,oN,1,oN); vh_count("minimised in several dimensions",1); vh_case(1,"%s",T); }
#endif
int main(int argc,char **argv)
{ int part=atoi(argv[1]),i,n,vg=part>=900; vh_init(2100+part); vh_silence(); n=vg?60:vh_n(400,10000);
  for(i=0;i<n;i++){ vh_reseed(400000+part*20000+i); roots(i); vh_reseed(410000+part*20000+i); brackets(i); WP=&W; minima(i); lu(i); if(i%4==0) ode(i/4); if(i%4==1) switching(i);
#ifdef OLD
    if(i%4==2) integrals(i);
#endif
  }
  vh_end(); return 0; }
