/* f1.h: functions of one variable that a basis represents exactly, with exact derivatives and integrals */
#ifndef F1_H
#define F1_H
#include "vh.h"
typedef long double ld;
#define LPI 3.14159265358979323846264338327950288L
enum { B_EXT, B_FOUR, B_ZER, B_FD1, B_FDP };
static const char *BNAME[]={"ChebExtrema","Fourier","ChebZeros","fd2_onesided","fd2_periodic"};
typedef struct { int bas,n,m; ld a,b,c[200]; } tf1;   /* m+1 coefficients in use */
static ld f1_pt(int bas,int n,ld a,ld b,int i)
{ switch(bas){ case B_EXT: return 0.5L*((a-b)*cosl(i*LPI/(n-1))+a+b); case B_ZER: return 0.5L*((a-b)*cosl((i+0.5L)*LPI/n)+a+b);
  case B_FD1: return a+(b-a)*i/(n-1); default: return a+(b-a)*i/n; } }
/* random function; cut: number of top coefficients left out */
static void f1_rand(tf1 *f,int bas,int n,ld a,ld b,int cut)
{ int k; memset(f,0,sizeof *f); f->bas=bas; f->n=n; f->a=a; f->b=b;
  if(bas==B_FOUR||bas==B_FDP){ int jm=(n-1)/2-cut; if(jm<0) jm=0; f->m=2*jm; }
  else if(bas==B_FD1) f->m= 2-cut<0?0:2-cut;
  else { f->m=n-1-cut; if(f->m<0) f->m=0; }
  int style=vh_int(0,2); for(k=0;k<=f->m;k++){ f->c[k]=vh_range(-1,1); if(style==1) f->c[k]*=exp(-0.3*k); }
  if(style==2){ int keep=vh_int(0,f->m); for(k=0;k<=f->m;k++) if(k!=keep&&vh_int(0,3)) f->c[k]=0; if(f->c[keep]==0) f->c[keep]=1; }
}
/* Chebyshev T_k and derivatives by recursion */
static ld f1_eval(const tf1 *f,ld X,int der)
{ int k; ld L=f->b-f->a;
  if(f->bas==B_FOUR||f->bas==B_FDP){
    ld s= der? 0: f->c[0], K=2*LPI/L, h=L/f->n, ph=K*(X-f->a);
    for(k=1;2*k<=f->m;k++){ ld w=K*k; if(f->bas==B_FDP) w=sinl(w*h)/h; ld c=cosl(k*ph),S=sinl(k*ph),A=f->c[2*k-1],B=f->c[2*k];
      if(der==0) s+=A*c+B*S; else if(der==1) s+=w*(-A*S+B*c); else s-=w*w*(A*c+B*S); }
    return s; }
  ld y=((X-f->a)+(X-f->b))/L, s=f->c[0],g=2/L; ld T0=1,T1=y,D0=0,D1=1,E0=0,E1=0; if(der) s=0;
  for(k=1;k<=f->m;k++){ s+=f->c[k]*(der==0?T1:der==1?D1*g:E1*g*g);
    ld T2=2*y*T1-T0,D2=2*T1+2*y*D1-D0,E2=4*D1+2*y*E1-E0; T0=T1;T1=T2;D0=D1;D1=D2;E0=E1;E1=E2; }
  return s; }
static ld f1_int(const tf1 *f)
{ int k; ld L=f->b-f->a,s=f->c[0]*L; if(f->bas==B_FOUR||f->bas==B_FDP) return s;
  for(k=2;k<=f->m;k+=2) s+=f->c[k]*L/(1.0L-(ld)k*k); return s; }
static ld f1_prim(const tf1 *f,ld X) /* integral from a to X (Fourier and Chebyshev) */
{ int k; ld L=f->b-f->a; 
  if(f->bas==B_FOUR||f->bas==B_FDP){ ld K=2*LPI/L,s=f->c[0]*(X-f->a); for(k=1;2*k<=f->m;k++){ ld p=k*K*(X-f->a); s+=f->c[2*k-1]*sinl(p)/(k*K)+f->c[2*k]*(1-cosl(p))/(k*K);} return s; }
  ld y=((X-f->a)+(X-f->b))/L,s=0; ld T[202],S[202]; T[0]=1;T[1]=y;S[0]=1;S[1]=-1; for(k=2;k<=f->m+1;k++){T[k]=2*y*T[k-1]-T[k-2];S[k]=-S[k-1];}
  for(k=0;k<=f->m;k++){ ld t; if(k==0) t=T[1]-S[1]; else if(k==1) t=(T[2]-S[2])/4; else t=(T[k+1]-S[k+1])/(2*(k+1))-(T[k-1]-S[k-1])/(2*(k-1)); s+=f->c[k]*t; }
  return s*L/2; }
static ld f1_amp(const tf1 *f,int der)
{ int k; ld s=0,L=f->b-f->a; for(k=0;k<=f->m;k++) s+=fabsl(f->c[k]); 
  ld n=f->n; if(f->bas==B_FOUR||f->bas==B_FDP) n=sqrtl(n*LPI); 
  if(der==1) s*=n*n*2/L; if(der==2) s*=n*n*n*n*4/(L*L); return s; }
/* expected coefficient k as the code defines it */
static ld f1_coef(const tf1 *f,int k)
{ ld c= k<=f->m? f->c[k]:0; if(f->bas==B_FOUR) return k==0? c*f->n : c*f->n/2;
  if(f->bas==B_EXT||f->bas==B_ZER) return k==0? 2*c : (k%2? -c:c); return 0; }
/* sums of products */
typedef struct { int nr; tf1 f[3][3]; } tf3;
static void f3_rand(tf3 *F,const int *bas,const int *n,const double *bb,int cut)
{ int r,d; F->nr=vh_int(1,3); for(r=0;r<F->nr;r++) for(d=0;d<3;d++) f1_rand(&F->f[r][d],bas[d],n[d],bb[2*d],bb[2*d+1],cut); }
static ld f3_eval(const tf3 *F,const ld *X,int dx,int dy,int dz)
{ int r; ld s=0; for(r=0;r<F->nr;r++) s+=f1_eval(&F->f[r][0],X[0],dx)*f1_eval(&F->f[r][1],X[1],dy)*f1_eval(&F->f[r][2],X[2],dz); return s; }
static ld f3_amp(const tf3 *F,int dx,int dy,int dz)
{ int r; ld s=0; for(r=0;r<F->nr;r++) s+=f1_amp(&F->f[r][0],dx)*f1_amp(&F->f[r][1],dy)*f1_amp(&F->f[r][2],dz); return s; }
#endif
