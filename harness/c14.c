/* c14.c: harmonic, coordinate dependent and evolution-variable filters on real grids versus independent projections */
#include "f1.h"
#include "vgrid.h"
#include "s2kit.h"
void coordinateDependentFilter(tVarList *); void reset_doubleCoveredPoints(tVarList *); void copy_to_doubleCoveredPoints_SphericalDF(tBox *,int); void BSSN_filter_unew(tVarList *,tVarList *); void filter_with2o3rule_inX(tVarList *,tVarList *); void filter_with2o3rule_inXYZ(tVarList *,tVarList *); void filter_with2o3rule_minus1_inX(tVarList *,tVarList *); void BSSN_ChooseAndApplyFilters(tVarList *); void filter_unew(tVarList *,tVarList *); void filter_unew_radially(tVarList *,tVarList *); void ChooseAndApplyFilter(tVarList *); void BSSN_naive_Ylm_filter(tVarList *,tVarList *); void naive_Ylm_filter_unew(tVarList *,tVarList *);
#define MAXB 3
static tGrid *G; static int nb,BN[MAXB][3],bas[MAXB][3],sph[MAXB]; static double BB[MAXB][6]; static int inact=-1;
#define NVAR 40
static tVarList *VL; static int nv;
static double *sav[MAXB][NVAR],*exq[MAXB][NVAR];
static long NN(int b){ return (long)BN[b][0]*BN[b][1]*BN[b][2]; }

static void mkgrid(int kind) /* 0: SphericalDF with n2%4==0, 1: SphericalDF any even, 2: mixture, 3: Cartesian */
{ int b,d,i; vg_reset(); nb=vh_int(1,MAXB); inact=-1; vg_par("nboxes=%d",nb); vg_par("Coordinates_set_bfaces=no");
  AddVar("temp1","","t"); AddVar("f_before","","t"); AddVar("f_g","(ij)","t"); AddVar("f_phi","","t"); AddVar("f_A","(ij)","t"); AddVar("f_K","","t"); AddVar("f_G","i","t"); AddVar("f_al","","t"); AddVar("f_be","i","t"); AddVar("f_bd","i","t"); AddVar("f_ad","","t"); AddVar("f_after","","t");
  for(b=0;b<nb;b++){ int *n=BN[b]; double *bb=BB[b]; double r0=vh_range(0.3,3); bb[0]=r0; bb[1]=r0+vh_range(0.2,3); 
    sph[b]= kind==3?0: kind==2? vh_int(0,2): 1;
    n[0]=vh_int(3,9); bas[b][0]= vh_int(0,1)?B_EXT:B_ZER;
    if(sph[b]==1){ n[1]= kind==0? 4*vh_int(1,6): 2*vh_int(1,9); n[2]=2*vh_int(1,9); if(kind==2&&vh_int(0,2)==0) n[1]=vh_int(3,15); if(kind==2&&vh_int(0,2)==0) n[2]=vh_int(3,15); bas[b][1]=bas[b][2]=B_FOUR; bb[2]=0;bb[3]=2*PI;bb[4]=0;bb[5]=2*PI; }
    else if(sph[b]==2){ n[1]=vh_int(3,12); n[2]=vh_int(3,16); bas[b][1]=B_ZER; bas[b][2]=B_FOUR; bb[2]=0;bb[3]=PI;bb[4]=0;bb[5]=2*PI; }
    else { for(d=1;d<3;d++){ n[d]=vh_int(3,10); bas[b][d]=vh_int(0,2); bb[2*d]=vh_range(-2,2); bb[2*d+1]=bb[2*d]+vh_range(0.5,3); } }
    vg_box(b,n[0],n[1],n[2],BNAME[bas[b][0]],BNAME[bas[b][1]],BNAME[bas[b][2]],bb);
    vg_par("box%d_Coordinates=%s",b,sph[b]==1?"SphericalDF":sph[b]==2?"Spherical":"Cartesian"); }
  vh_at("filter grid %s",vg_desc);
  G=vg_make(1); if(nb>1&&vh_int(0,3)==0){ inact=vh_int(0,nb-1); G->box[inact]->inactive=1; }
  VL=vlalloc(G); { const char *nm[]={"f_gxx","f_phi","f_Axx","f_K","f_Gx","f_al","f_bex","f_bdx","f_ad"}; for(i=0;i<9;i++) vlpush(VL,Ind((char*)nm[i])); } nv=VL->n;
  vlpush(VL,Ind("f_before")); vlpush(VL,Ind("f_after")); { int b2; for(b2=0;b2<nb;b2++) G->box[b2]->inactive=0; } enablevarlist(VL); enablevar(G,Ind("temp1")); if(inact>=0) G->box[inact]->inactive=1; }
static void rmgrid(void){ int b,v; vlfree(VL); for(b=0;b<nb;b++) for(v=0;v<nv+2;v++){ free(sav[b][v]); free(exq[b][v]); sav[b][v]=exq[b][v]=0; } vg_free(G); }
/* fill all variables with random values; expected = same until changed */
static char tou[MAXB][NVAR]; /* touched: may differ by rounding */
static void fillall(void){ int b,v; memset(tou,0,sizeof tou); long q; for(b=0;b<nb;b++) for(v=0;v<nv+2;v++){ double *p=G->box[b]->v[VL->index[v]],s=pow(10,vh_range(-3,3)); long N=NN(b); if(!sav[b][v]){ sav[b][v]=malloc(8*N); exq[b][v]=malloc(8*N); } for(q=0;q<N;q++) p[q]=s*vh_range(-1,1); memcpy(sav[b][v],p,8*N); memcpy(exq[b][v],p,8*N); } }
static void checkall(const char *key,long double tol)
{ int b,v; long q,tot=0; for(b=0;b<nb;b++) for(v=0;v<nv+2;v++){ double *p=G->box[b]->v[VL->index[v]]; long N=NN(b),bad=0,w=-1; ld A=0,worst=0; int same= !tou[b][v]||b==inact; for(q=0;q<N;q++) if(fabs(sav[b][v][q])>A) A=fabs(sav[b][v][q]);
    for(q=0;q<N;q++){ ld e=fabsl((ld)p[q]-exq[b][v][q]); if(same? e!=0: !(e<=tol*A)){ bad++; if(!(e<=worst)){ worst=e; w=q; } } }
    if(bad) vh_fail(key,"box %d (%dx%dx%d %s,%s,%s sph%d%s) variable %d: %ld of %ld wrong, largest %Lg at %ld (amplitude %Lg)%s",b,BN[b][0],BN[b][1],BN[b][2],BNAME[bas[b][0]],BNAME[bas[b][1]],BNAME[bas[b][2]],sph[b],b==inact?" inactive":"",v,bad,N,worst,w,A,same?" should be unchanged":""); tot+=N; }
  vh_count("values compared",tot); }
/* projection matrix of direction d keeping coefficients with keep[k] */
static void projm(int b,int d,const char *keep,ld *M)
{ int n=BN[b][d],bs=bas[b][d],i,j,k; for(i=0;i<n*n;i++) M[i]=0;
  for(k=0;k<n;k++) if(keep[k]) for(i=0;i<n;i++) for(j=0;j<n;j++){ ld e,c; 
    if(bs==B_FOUR){ int m=(k+1)/2; ld w=2*LPI*m/n; if(k==0) e=1,c=1.0L/n; else if(2*m==n) e=cosl(w*i),c=cosl(w*j)/n; else if(k%2) e=cosl(w*i),c=2*cosl(w*j)/n; else e=sinl(w*i),c=2*sinl(w*j)/n; }
    else if(bs==B_ZER){ e=cosl(k*(i+0.5L)*LPI/n); c=(k?2:1)*cosl(k*(j+0.5L)*LPI/n)/n; }
    else { ld g=(k==0||k==n-1)?1:2, h=(j==0||j==n-1)?0.5L:1; e=cosl(k*i*LPI/(n-1)); c=g*h*cosl(k*j*LPI/(n-1))/(n-1); }
    M[i*n+j]+=e*c; } }
static void apply1(int b,double *u,int d,const ld *M)
{ int n1=BN[b][0],n2=BN[b][1],n3=BN[b][2],i,j,k,l,n=BN[b][d]; long st= d==0?1:d==1?n1:(long)n1*n2; ld t[200],s[200];
  for(k=0;k<(d==2?1:n3);k++) for(j=0;j<(d==1?1:n2);j++) for(i=0;i<(d==0?1:n1);i++){ long o=i+n1*(j+(long)n2*k); for(l=0;l<n;l++) t[l]=u[o+l*st]; for(l=0;l<n;l++){ int m; s[l]=0; for(m=0;m<n;m++) s[l]+=M[l*n+m]*t[m]; } for(l=0;l<n;l++) u[o+l*st]=s[l]; } }
static void tch(double *u){ int b,v; for(b=0;b<nb;b++) for(v=0;v<nv+2;v++) if(exq[b][v]==u) tou[b][v]=1; }
static void cut(int b,double *u,int d,int kc){ int n=BN[b][d],k; char keep[200]; ld *M=malloc(sizeof(ld)*n*n); tch(u); for(k=0;k<n;k++) keep[k]=k<kc; projm(b,d,keep,M); apply1(b,u,d,M); free(M); }
/* normalised associated Legendre P_l^m(cos th) */
static void plm(int lmax,int m,ld th,ld *P){ ld x=cosl(th),s=fabsl(sinl(th)),p=sqrtl(0.5L); int l; for(l=1;l<=m;l++) p*=sqrtl((2*l+1.0L)/(2*l))*s; for(l=0;l<=lmax;l++) P[l]=0; if(m>lmax) return; P[m]=p; if(m+1<=lmax) P[m+1]=sqrtl(2*m+3.0L)*x*p;
  for(l=m+2;l<=lmax;l++){ ld a=sqrtl((4.0L*l*l-1)/((ld)l*l-(ld)m*m)),bq=sqrtl(((l-1.0L)*(l-1)-(ld)m*m)/(4.0L*(l-1)*(l-1)-1)); P[l]=a*(x*P[l-1]-bq*P[l-2]); } }
static void ylm(int b,double *u,int shift)
{ int n1=BN[b][0],n2=BN[b][1],n3=BN[b][2],bw=n2/4,h=n2/2,i,j,k,l,m,jj,lm=bw-1+shift; tch(u); if(b==inact) return; 
  ld *w=malloc(sizeof(ld)*h),*K=calloc(h*h,sizeof(ld)),*P=malloc(sizeof(ld)*h*(bw+1)); double *o=calloc(NN(b),8);
  for(j=0;j<h;j++){ ld th=LPI*(2*j+1)/n2,s=0; for(k=1;k<=h/2;k++) s+=cosl(2*k*th)/(4.0L*k*k-1); w[j]=2.0L/h*(1-2*s); }
  if(h%2==0){ } 
  for(m=0;m<=lm&&2*m<=n3;m++){ for(j=0;j<h;j++) plm(lm,m,LPI*(2*j+1)/n2,P+j*(bw+1)); for(j=0;j<h;j++) for(jj=0;jj<h;jj++){ K[j*h+jj]=0; for(l=m;l<=lm;l++) K[j*h+jj]+=P[j*(bw+1)+l]*P[jj*(bw+1)+l]*w[jj]; }
    int cs; for(cs=0;cs<2;cs++){ if(cs&&(m==0||2*m==n3)) continue; ld nf=(m==0||2*m==n3)?1.0L/n3:2.0L/n3;
      for(i=0;i<n1;i++){ ld c[100]; for(j=0;j<h;j++){ c[j]=0; for(k=0;k<n3;k++){ ld a=2*LPI*m*k/n3; c[j]+=nf*(cs?sinl(a):cosl(a))*u[i+n1*(j+(long)n2*k)]; } }
        for(j=0;j<h;j++){ ld s=0; for(jj=0;jj<h;jj++) s+=K[j*h+jj]*c[jj]; for(k=0;k<n3;k++){ ld a=2*LPI*m*k/n3; o[i+n1*(j+(long)n2*k)]+=s*(cs?sinl(a):cosl(a)); } } } } }
  for(k=0;k<n3;k++) for(j=h;j<n2;j++) for(i=0;i<n1;i++) o[i+n1*(j+(long)n2*k)]=o[i+n1*((n2-1-j)+(long)n2*((k+n3/2)%n3))];
  memcpy(u,o,8*NN(b)); free(w);free(K);free(P);free(o); }
/* coordinate dependent; returns 0 if the cutoff is within rounding of an integer */
static int cdep(int b,double *u)
{ int n1=BN[b][0],n2=BN[b][1],n3=BN[b][2],i,j,k,ok=1; if(b==inact||!sph[b]) return 1; tch(u); int n=n3; ld *M=malloc(sizeof(ld)*n*n); char keep[200];
  for(j=0;j<n2;j++){ ld Y=f1_pt(bas[b][1],n2,BB[b][2],BB[b][3],j),th= sph[b]==1? Y+ (n2%2? LPI/(2*n2): LPI/n2): Y; ld t=(n3/2)*fabsl(sinl(th)); if(fabsl(t-roundl(t))<1e-9L) { if(sph[b]==1&&t<0.5) t=roundl(t); else if(t>n3/2-1e-9L) t=n3/2; else ok=0; } int ms=(int)t+1; for(k=0;k<n;k++) keep[k]= k<2*ms-1; projm(b,2,keep,M);
    for(i=0;i<n1;i++){ ld a[200]; int l; for(k=0;k<n3;k++){ a[k]=0; for(l=0;l<n3;l++) a[k]+=M[k*n+l]*u[i+n1*(j+(long)n2*l)]; } for(k=0;k<n3;k++) u[i+n1*(j+(long)n2*k)]=a[k]; } }
  free(M); return ok; }
static int simple(int b,double *u,double f2,double f3,int s2,int s3,int ell)
{ int n2=BN[b][1],n3=BN[b][2],j,k,jf,kf; if(b==inact) return 1; tch(u); if(!cdep(b,u)) return 0;
  double t2=0.5*f2*n2,t3=0.5*f3*n3; if(fabs(t2-round(t2))<1e-7||fabs(t3-round(t3))<1e-7) { if(f2*n2!=(double)n2||f3*n3!=(double)n3) if(!(t2==round(t2)&&t3==round(t3))) return 0; }
  jf=2*(int)t2+s2-2; kf=2*(int)t3+s3-2;
  if(!ell){ cut(b,u,1,jf+1); cut(b,u,2,kf+1); return 1; }
  if(jf<=0||kf<=0) return 0;
  ld *M2=malloc(sizeof(ld)*n2*n2),*M3=malloc(sizeof(ld)*n3*n3); double *o=calloc(NN(b),8),*t=malloc(8*NN(b)); char kp[200]; long q;
  for(j=0;j<n2;j++){ for(k=0;k<n2;k++) kp[k]= k==j; projm(b,1,kp,M2); memcpy(t,u,8*NN(b)); apply1(b,t,1,M2); for(k=0;k<n3;k++){ long tj=2*((j+1)/2),tk=2*((k+1)/2); long L=tj*tj*(long)kf*kf+tk*tk*(long)jf*jf,R=(long)jf*jf*kf*kf; kp[k]= L<=R; if(L==R&&tj&&tk){ free(M2);free(M3);free(o);free(t); return 0; } } projm(b,2,kp,M3); apply1(b,t,2,M3); for(q=0;q<NN(b);q++) o[q]+=t[q]; }
  memcpy(u,o,8*NN(b)); free(M2);free(M3);free(o);free(t); return 1; }
static tVarList *sub(int *sel,int *ns){ tVarList *v=vlalloc(G); int i,n=vh_int(1,4),used=0; *ns=0; for(i=0;i<n;i++){ int s=vh_int(0,nv-1); int k,dup=0; for(k=0;k<*ns;k++) if(sel[k]==s) dup=1; if(dup) continue; sel[(*ns)++]=s; vlpushone(v,VL->index[s]); } (void)used; return v; }
int main(int ac,char **av)
{ int it,part=atoi(av[1]),b,i; vh_init(1400+part); vh_silence();
  int n=vh_n(40,500);
  for(it=0;it<n;it++){ int sel[40],ns; tVarList *vl;
    /* --- spherical harmonic filter --- */
    mkgrid(0); for(int r=0;r<3;r++){ vl=sub(sel,&ns); int bwmin=100; for(b=0;b<nb;b++) if(b!=inact&&BN[b][1]/4<bwmin) bwmin=BN[b][1]/4; int sh=-vh_int(0,3); if(r==0) sh=0;
      vh_at("Ylm filter lmshift %d, grid %s",sh,vg_desc); fillall();
      if(r==1){ /* pure harmonics, some above the cutoff */ for(b=0;b<nb;b++) for(i=0;i<ns;i++){ int n1=BN[b][0],n2=BN[b][1],n3=BN[b][2],l=vh_int(0,n2/4),m=vh_int(0,l),x,j,k,cs=vh_int(0,1); if(2*m>=n3) m=(n3-1)/2; if(m==0) cs=0; ld P[60]; double *p=G->box[b]->v[VL->index[sel[i]]]; ld rad[20]; for(x=0;x<n1;x++) rad[x]=vh_range(-1,1); for(j=0;j<n2;j++){ ld th=LPI*(2*j+1)/n2; plm(l,m,th,P); ld sg= j>=n2/2&&(m%2)?-1:1; for(k=0;k<n3;k++) for(x=0;x<n1;x++) p[x+n1*(j+(long)n2*k)]=sg*rad[x]*P[l]*(cs?sinl(2*LPI*m*k/n3):cosl(2*LPI*m*k/n3)); } memcpy(sav[b][sel[i]],p,8*NN(b)); tou[b][sel[i]]=1; 
            /* statement: kept iff l<=lmax */ if(b!=inact){ if(l<=n2/4-1+sh) memcpy(exq[b][sel[i]],p,8*NN(b)); else memset(exq[b][sel[i]],0,8*NN(b)); } else memcpy(exq[b][sel[i]],p,8*NN(b)); vh_case(1,"Y %d %d %d sh%d n %d %d %d",l,m,cs,sh,n1,n2,n3); }
        Naive_YlmFilter_lmshift(vl,sh); checkall("ylm-harmonics",1e-11L); vh_count("single harmonics",ns*nb); }
      else { for(b=0;b<nb;b++) for(i=0;i<ns;i++) ylm(b,exq[b][sel[i]],sh); if(sh) Naive_YlmFilter_lmshift(vl,sh); else { int w=vh_int(0,3); if(w==0) Naive_YlmFilter(vl); else if(w==1) BSSN_naive_Ylm_filter(vl,0); else if(w==2) naive_Ylm_filter_unew(vl,0); else Naive_YlmFilter_lmshift(vl,0); } checkall("ylm-projection",1e-11L);
        for(b=0;b<nb;b++) for(i=0;i<ns;i++) memcpy(exq[b][sel[i]],G->box[b]->v[VL->index[sel[i]]],8*NN(b)); Naive_YlmFilter_lmshift(vl,sh); checkall("ylm-twice",1e-11L);
        for(b=0;b<nb;b++) vh_case(1,"P sh%d n %d %d %d of %d box %d",sh,BN[b][0],BN[b][1],BN[b][2],ns,b); }
      vlfree(vl); vh_count("harmonic filters",1); }
    { fillall(); static const int shv[25]={0,0,0,0,0,0,-2,0,0,0,0,0,0,-2,-1,-1,-1,-2,-1,-1,-1,-1,-1,-1,-2}; vg_par("BSSN_filter_vars=all"); vg_par("BSSN_filter_type=Ylm_lmshift"); vh_at("BSSN Ylm_lmshift %s",vg_desc); for(b=0;b<nb;b++) for(i=0;i<25;i++) ylm(b,exq[b][i],shv[i]); BSSN_ChooseAndApplyFilters(VL); checkall("bssn-ylm-lmshift",1e-11L); 
      fillall(); Sets("BSSN_filter_type","naive_Ylm"); vl=sub(sel,&ns); for(b=0;b<nb;b++) for(i=0;i<ns;i++) ylm(b,exq[b][sel[i]],0); BSSN_ChooseAndApplyFilters(vl); checkall("bssn-ylm",1e-11L); 
      fillall(); Sets("BSSN_filter_vars","no"); BSSN_ChooseAndApplyFilters(vl); checkall("bssn-no-filter",0); vlfree(vl);
      vg_par("ScalarOnKerr_filter_vars=psi"); { int k; tVarList *sv=vlalloc(G); static const char *vars[]={"psi","Pi","phi","psi Pi phi","no"}; int s=vh_int(0,4),ty=vh_int(0,1); int ix[7]; for(k=0;k<7;k++){ ix[k]= k<4?6+7*(k%2)+ (k>1? (k==2?11:18-7-6+0):0):14+k-4; } ix[0]=6;ix[1]=13;ix[2]=17;ix[3]=24;ix[4]=14;ix[5]=15;ix[6]=16; for(k=0;k<7;k++) vlpushone(sv,VL->index[ix[k]]); Sets("ScalarOnKerr_filter_vars",(char*)vars[s]); vg_par("ScalarOnKerr_filter_type=%s",ty?"Ylm_lmshift":"naive_Ylm"); fillall();
        int sh=ty?-1:0; for(b=0;b<nb;b++){ if(s==0||s==3) ylm(b,exq[b][6],sh); if(s==1||s==3) ylm(b,exq[b][13],sh); if(s==2||s==3) for(k=4;k<7;k++) ylm(b,exq[b][ix[k]],0); } vh_at("ScalarOnKerr %s ty%d %s",vars[s],ty,vg_desc); ChooseAndApplyFilter(sv); checkall("sok-ylm",1e-11L); vlfree(sv); }
      vh_count("module filters",4); vh_case(1,"modules %s",vg_desc); }
    /* double covering */
    { vl=sub(sel,&ns); fillall(); vh_at("double covering %s",vg_desc); for(b=0;b<nb;b++) if(b!=inact) for(i=0;i<ns;i++){ int n1=BN[b][0],n2=BN[b][1],n3=BN[b][2],x,j,k; tou[b][sel[i]]=1; for(k=0;k<n3;k++) for(j=0;j<n2;j++) for(x=0;x<n1;x++) exq[b][sel[i]][x+n1*(j+(long)n2*k)]=0.5*(sav[b][sel[i]][x+n1*(j+(long)n2*k)]+sav[b][sel[i]][x+n1*((n2-1-j)+(long)n2*((k+n3/2)%n3))]); }
      reset_doubleCoveredPoints(vl); checkall("double-covered-average",1e-15L);
      fillall(); b=vh_int(0,nb-1); i=sel[0]; if(b!=inact) tou[b][i]=1; { int n1=BN[b][0],n2=BN[b][1],n3=BN[b][2],x,j,k; for(k=0;k<n3;k++) for(j=n2/2;j<n2;j++) for(x=0;x<n1;x++) exq[b][i][x+n1*(j+(long)n2*k)]=sav[b][i][x+n1*((n2-1-j)+(long)n2*((k+n3/2)%n3))]; } copy_to_doubleCoveredPoints_SphericalDF(G->box[b],VL->index[i]); checkall("double-covered-copy",0); vlfree(vl); vh_count("double cover operations",2); }
    rmgrid();
    /* --- coordinate dependent and simple filters --- */
    mkgrid(vh_int(1,3)); for(int r=0;r<5;r++){ int ok=1; vl=sub(sel,&ns); fillall(); vh_at("filter kind %d %s",r,vg_desc); const char *key="?";
      if(r==0){ key="coordinate-dependent"; for(b=0;b<nb;b++) for(i=0;i<ns;i++) if(!cdep(b,exq[b][sel[i]])) ok=0; if(vh_int(0,1)) coordinateDependentFilter(vl); else { vg_par("BSSN_filter_vars=all"); vg_par("BSSN_filter_type=coordinateDependentFilter"); BSSN_ChooseAndApplyFilters(vl); } }
      else if(r==1||r==2){ double f2=vh_range(0.3,1),f3=vh_range(0.3,1); if(vh_int(0,3)==0) f2=f3=1; int s2=vh_int(-1,2),s3=vh_int(-1,2),ell=vh_int(0,1); const char *pf= r==1?"BSSN":"ScalarOnKerr"; key= r==1?"bssn-simple":"sok-simple";
        vg_par("%s_filter_n2frac=%.17g",pf,f2); vg_par("%s_filter_n3frac=%.17g",pf,f3); vg_par("%s_filter_shift2=%d",pf,s2); vg_par("%s_filter_shift3=%d",pf,s3); vg_par("%s_filter_YZregion=%s",pf,ell?"ellipse":"square"); vh_at("simple filter %s %s",pf,vg_desc);
        for(b=0;b<nb;b++) for(i=0;i<ns;i++) if(!simple(b,exq[b][sel[i]],f2,f3,s2,s3,ell)) ok=0;
        if(r==2) filter_unew(vl,0); else if(vh_int(0,1)) BSSN_filter_unew(vl,0); else { vg_par("BSSN_filter_vars=all"); vg_par("BSSN_filter_type=simple"); BSSN_ChooseAndApplyFilters(vl); } }
      else if(r==3){ int w=vh_int(0,2); key= w==0?"two-thirds-X":w==1?"two-thirds-XYZ":"two-thirds-X-1"; for(b=0;b<nb;b++) if(b!=inact) for(i=0;i<ns;i++){ double *u=exq[b][sel[i]]; int c=2*(BN[b][0]/3); if(w==2) c=c-1<0?0:c-1; cut(b,u,0,c); if(w==1){ cut(b,u,1,2*(BN[b][1]/3)); cut(b,u,2,2*(BN[b][2]/3)); } }
        if(vh_int(0,1)){ vg_par("BSSN_filter_vars=all"); vg_par("BSSN_filter_type=%s",w==0?"X2/3":w==1?"XYZ2/3":"X2/3-1"); BSSN_ChooseAndApplyFilters(vl); } else if(w==0) filter_with2o3rule_inX(vl,0); else if(w==1) filter_with2o3rule_inXYZ(vl,0); else filter_with2o3rule_minus1_inX(vl,0); }
      else { key="sok-radial"; for(b=0;b<nb;b++) if(b!=inact) for(i=0;i<ns;i++) cut(b,exq[b][sel[i]],0,2*(BN[b][0]/3)); filter_unew_radially(vl,0); }
      if(ok){ checkall(key,1e-11L); vh_count(key,1); vh_case(1,"%s %s",key,vg_desc); }
      vlfree(vl); }
    rmgrid(); }
  vh_end(); return 0; }
