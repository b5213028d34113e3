/* boundary conditions on real grids: which points are written, and what is written there */
#include "vgrid.h"
void set_boundary(tVarList *unew,tVarList *upre,double c,tVarList *ucur); void set_boundary_value(tPointList *PL,int ui,double value);
void set_boundary_normalderiv_leftBound(tPointList *PL,int direc,int ui,double deriv); void set_boundary_normalderiv_rightBound(tPointList *PL,int direc,int ui,double deriv);
extern tPointList *boxBoundaryPointList; void cart_partials(tBox *box,double *u,double *u1,double *u2,double *u3);
static tGrid *G; static char T[400];
static const char *CT[]={"Cartesian","SphericalDF","compactSphericalDF","Spherical","Spherical2","Spherical3","Polar"};
static const char *OUT[]={"","radiative","radiative_analytic","constant"},*INN[]={"","constantExcision","simpleExcision","VonNeumannExcision"},*SEL[]={"","selectedconstantExcision","selectedVonNeumannExcision"};
static const char *NM[]={"u","wx","wy","wz","s_t","q"}; enum { NV=6 };
static int vt[8]; static double FL[NV],VP[NV]; static int radc[NV],selv[NV];
static double **save(void){ int b,i; double **S=calloc(G->nboxes*G->nvariables,sizeof *S); for(b=0;b<G->nboxes;b++) for(i=0;i<G->nvariables;i++) if(G->box[b]->v[i]){ S[b*G->nvariables+i]=malloc(8*G->box[b]->nnodes); memcpy(S[b*G->nvariables+i],G->box[b]->v[i],8*G->box[b]->nnodes); } return S; }
static void drop(double **S,int nv){ int k; for(k=0;k<G->nboxes*nv;k++) free(S[k]); free(S); }
static void fill(void){ int i; long q; int b; double a[4]; for(i=0;i<G->nvariables;i++){ char *n=VarName(i); if(!strncmp(n,"tt",2)||!strncmp(n,"temp",4)||strstr(n,"_p")||strstr(n,"_q")||strstr(n,"_r")||(strlen(n)>2&&!strcmp(n+strlen(n)-2,"_t"))||!strncmp(n,"ADM",3)){ if(strstr(n,"_initial")) continue; } else { int k,hit=0; for(k=0;k<NV;k++) if(!strcmp(n,NM[k])) hit=1; if(!hit) continue; }
   int smooth=vh_int(0,2); for(int k=0;k<4;k++) a[k]=vh_range(-2,2);
   for(b=0;b<G->nboxes;b++){ tBox *o=G->box[b]; if(!o->v[i]) continue; for(q=0;q<o->nnodes;q++) o->v[i][q]= smooth? a[0]+sin(a[1]*o->v[Ind("x")][q]+a[2]*o->v[Ind("y")][q]+a[3]*o->v[Ind("z")][q]) : vh_range(-2,2); } } }
static int sph(int b){ char s[60]; sprintf(s,"box%d_Coordinates",b); const char *c=Gets(s); return !strcmp(c,"SphericalDF")||!strcmp(c,"compactSphericalDF")||!strcmp(c,"Spherical")||!strcmp(c,"Spherical2")||!strcmp(c,"Spherical3"); }
static int outer(int b,long q){ tBox *o=G->box[b]; int i=q%o->n1,j=(q/o->n1)%o->n2,k=q/((long)o->n1*o->n2); if(b!=G->nboxes-1) return 0; if(sph(b)) return i==o->n1-1; return i==0||i==o->n1-1||j==0||j==o->n2-1||k==0||k==o->n3-1; }
static int inner(int b,long q){ return b==0&&sph(0)&&q%G->box[0]->n1==0; }
static tVarList *L[5]; /* current, _p, _q, _r, initial */
/* one call of set_boundary and everything it may have done */
static double **INI;
static void call(int out,int inn,int sel,tVarList *un,tVarList *up,double c,tVarList *uc)
{ int nv=G->nvariables,b,j,i; long q; if(out==2&&uc->time==0){ if(INI) drop(INI,nv); INI=NULL; }
  double **S=save(); if(out==2&&uc->time==0){ INI=calloc(G->nboxes*nv,sizeof *INI); for(b=0;b<G->nboxes;b++) for(j=0;j<up->n;j++) if(S[b*nv+up->index[j]]){ INI[b*nv+j]=malloc(8*G->box[b]->nnodes); memcpy(INI[b*nv+j],S[b*nv+up->index[j]],8*G->box[b]->nnodes); } }
  set_boundary(un,up,c,uc); int nv2=G->nvariables; (void)nv2; if(nv2!=nv){ /* _initial variables were added: indices of the old ones stay */ double **S2=calloc(G->nboxes*nv2,sizeof *S2); double **I2=INI?calloc(G->nboxes*nv2,sizeof *I2):NULL; for(b=0;b<G->nboxes;b++) for(i=0;i<nv;i++){ S2[b*nv2+i]=S[b*nv+i]; if(INI) I2[b*nv2+i]=INI[b*nv+i]; } free(S); S=S2; if(INI){ free(INI); INI=I2; } nv=nv2; }
  for(b=0;b<G->nboxes;b++){ tBox *o=G->box[b]; double *x=o->v[Ind("x")],*y=o->v[Ind("y")],*z=o->v[Ind("z")]; int n1=o->n1; double *d1=malloc(8*o->nnodes),*d2=malloc(8*o->nnodes),*d3=malloc(8*o->nnodes),*e1=malloc(8*o->nnodes),*e2=malloc(8*o->nnodes),*e3=malloc(8*o->nnodes),*E=malloc(8*o->nnodes),*Sc=malloc(8*o->nnodes);
    for(i=0;i<nv;i++){ char *n=VarName(i); if(!S[b*nv+i]){ VEXPECT(o->v[i]==NULL||strstr(n,"_initial"),"storage-appeared","%s box%d %s",T,b,n); continue; } if(!strncmp(n,"temp",4)||!strncmp(n,"ADMvars_dg",10)||strstr(n,"_initial")) continue; 
      for(j=0;j<un->n;j++) if(un->index[j]==i) break;
      double *now=o->v[i],*old=S[b*nv+i]; if(j==un->n||o->inactive){ VEXPECT(!memcmp(now,old,8*o->nnodes),"other-data-changed","%s box%d variable %s is not to be changed",T,b,n); vh_count("values that have to stay",o->nnodes); continue; }
      int v; for(v=0;v<NV;v++) if(!strncmp(n,NM[v],strlen(NM[v]))&&(n[strlen(NM[v])]==0||n[strlen(NM[v])]=='_')) break; double *pre=S[b*nv+up->index[j]],*cur=S[b*nv+uc->index[j]]; for(q=0;q<o->nnodes;q++){ E[q]=old[q]; Sc[q]=0; }
      if(out==1||out==2){ double *cc=malloc(8*o->nnodes),vp=radc[v]?0:VP[v]; memcpy(cc,cur,8*o->nnodes); cart_partials(o,cc,d1,d2,d3); if(out==2){ memcpy(cc,INI[b*nv+j],8*o->nnodes); cart_partials(o,cc,e1,e2,e3); }
        for(q=0;q<o->nnodes;q++) if(outer(b,q)){ double r=sqrt(x[q]*x[q]+y[q]*y[q]+z[q]*z[q]),f=out==2?INI[b*nv+j][q]:FL[v],g1=d1[q],g2=d2[q],g3=d3[q]; double sc=fabs(vp)*((fabs(cur[q])+fabs(f))/r+fabs(g1)+fabs(g2)+fabs(g3)+(out==2?fabs(e1[q])+fabs(e2[q])+fabs(e3[q]):0)); if(out==2){ g1-=e1[q];g2-=e2[q];g3-=e3[q]; }
          double rhs=-vp*(cur[q]-f)/r-vp*(x[q]*g1+y[q]*g2+z[q]*g3)/r; E[q]=c!=0?pre[q]+c*rhs:rhs; Sc[q]=1e-11*(fabs(pre[q])+sc*(c!=0?fabs(c):1)); vh_count("radiative points",1); } free(cc); }
      if(out==3) for(q=0;q<o->nnodes;q++) if(outer(b,q)){ E[q]=c!=0?pre[q]:0; vh_count("constant points",1); }
      int is=inn, ss=sel&&selv[v]?sel:0; if(is==1) for(q=0;q<o->nnodes;q++) if(inner(b,q)){ E[q]=c!=0?pre[q]:0; vh_count("excision points",1); }
      if(is==2) for(q=0;q<o->nnodes;q++) if(inner(b,q)){ E[q]=c!=0?pre[q]+E[q+1]-pre[q+1]:E[q+1]; Sc[q]=1e-13*(fabs(pre[q])+fabs(E[q+1])+fabs(pre[q+1])); vh_count("excision points",1); }
      if(ss==1) for(q=0;q<o->nnodes;q++) if(inner(b,q)){ E[q]=c!=0?pre[q]:0; Sc[q]=0; vh_count("selected points",1); }
      if(is==3||ss==2) for(q=0;q<o->nnodes;q++) if(inner(b,q)){ double s=0,a=0; int m; for(m=1;m<n1;m++){ s-=o->D1[m]*E[q+m]; a+=fabs(o->D1[m]*E[q+m]); } E[q]=s/o->D1[0]; Sc[q]=1e-10*a/fabs(o->D1[0]); vh_count("derivative points",1); }
      for(q=0;q<o->nnodes;q++){ if(Sc[q]==0) VEXPECT(now[q]==E[q],(outer(b,q)||inner(b,q))?"wrong-value":"other-point-changed","%s box%d %s point %ld (%ld,%ld,%ld) is %.17g expected %.17g (before %.17g)",T,b,n,q,q%n1,(q/n1)%o->n2,q/((long)n1*o->n2),now[q],E[q],old[q]);
        else VEXPECT(fabs(now[q]-E[q])<=Sc[q],"wrong-value","%s box%d %s point %ld (%ld,%ld,%ld) is %.17g expected %.17g (before %.17g)",T,b,n,q,q%n1,(q/n1)%o->n2,q/((long)n1*o->n2),now[q],E[q],old[q]); }
      if(is==3||ss==2){ double *t=malloc(8*o->nnodes); spec_Deriv1(o,1,now,t); for(q=0;q<o->nnodes;q++) if(inner(b,q)) VEXPECT(fabs(t[q])<=1e-9*(1+fabs(o->D1[0]))*10,"derivative-not-zero","%s box%d %s derivative %g",T,b,n,t[q]); free(t); } }
    free(d1);free(d2);free(d3);free(e1);free(e2);free(e3);free(E);free(Sc); }
  drop(S,nv); }
static void grid(void)
{ int nb=vh_int(1,3),b,j; vg_reset(); vg_par("Coordinates_set_bfaces=no"); vg_par("nboxes=%d",nb); vg_par("compactSphericalDF_r0=%.17g",vh_range(0.2,1)); vg_par("Coordinates_Spherical3_c=2");
  AddVar("temp1","","t");AddVar("temp2","","t");AddVar("temp3","","t"); AddVar("u","","t"); AddVar("w","i","t"); AddVar("s_t","","t"); AddVar("q","","t"); AddVar("guard","i","t"); AddVar("ADMvars_dg","(ij)k","t"); T[0]=0;
  for(b=0;b<nb;b++){ int ct=(b==0||b==nb-1)&&vh_int(0,2)?vh_int(1,5):vh_int(0,6); double r=vh_range(0.5,2),bb[6]={r,r+vh_range(0.5,2),0,2*PI,0,2*PI}; int n1=vh_int(4,9),n2=vh_int(5,8),n3=2*vh_int(3,5); const char *B1=vh_int(0,4)?"ChebExtrema":"fd2_onesided",*B2="ChebExtrema",*B3="Fourier";
    if(ct==0){ for(j=0;j<3;j++){ bb[2*j]=vh_range(-3,2); if(fabs(bb[2*j])<0.2) bb[2*j]=0.3; bb[2*j+1]=bb[2*j]+vh_range(0.7,2); if(fabs(bb[2*j+1])<0.2) bb[2*j+1]=bb[2*j]>0?1.5:0.5; } B2=vh_int(0,1)?"ChebExtrema":"fd2_onesided"; B3=vh_int(0,1)?"ChebExtrema":vh_int(0,1)?"fd2_periodic":"Fourier"; n3=vh_int(5,8); }
    else if(ct==1||ct==2){ B2="Fourier"; n2=2*vh_int(3,5); if(ct==2){ bb[0]=vh_range(0.05,0.2); bb[1]=vh_range(0.4,0.7); } }
    else if(ct==3){ bb[2]=0.3; bb[3]=2.7; if(vh_int(0,1)){ B2="ChebZeros"; bb[2]=0; bb[3]=PI; } } else if(ct==4||ct==5){ bb[2]=-0.8; bb[3]=0.8; } else if(ct==6){ B2="Fourier"; n2=2*vh_int(3,5); bb[4]=-1; bb[5]=1.3; B3="ChebExtrema"; }
    vg_box(b,n1,n2,n3,B1,B2,B3,bb); if(ct||vh_int(0,1)) vg_par("box%d_Coordinates=%s",b,CT[ct]); sprintf(T+strlen(T),"%s(%d,%d,%d) ",CT[ct],n1,n2,n3); } }
static void inPL(tPointList *PL,int b,long q){ AddToPointList(PL,b,q); }
static void one(int part)
{ int b,i,j,k,rep; grid(); int out,inn,sel; if(part<3) out=part+1; else out=vh_int(0,3); if(part>=3&&part<6) inn=part-2; else inn=vh_int(0,3); sel=part==6?vh_int(1,2):vh_int(0,3)?0:vh_int(1,2); if(inn==3&&sel==1) inn=vh_int(0,2);
  { char o[200]=""; const char *w[3]={OUT[out],INN[inn],SEL[sel]}; int st=vh_int(0,2); for(k=0;k<3;k++) if(*w[(k+st)%3]){ if(*o) strcat(o," "); strcat(o,w[(k+st)%3]); } vg_par("boundary=%s",o); sprintf(T+strlen(T),"boundary=%s",o); }
  { char r[200]="",s[200]=""; for(k=0;k<NV;k++){ radc[k]=vh_int(0,3)==0; selv[k]=vh_int(0,1); if(radc[k]){ strcat(r,NM[k]); strcat(r," "); } if(selv[k]){ strcat(s,NM[k]); strcat(s," "); } } if(*r) r[strlen(r)-1]=0; if(*s) s[strlen(s)-1]=0; vg_par("boundary_radconstant=%s",r); vg_par("boundary_selectedExcisionVars=%s",s); }
  for(k=0;k<NV;k++){ FL[k]=vh_int(0,1)?vh_range(-2,2):vh_int(0,1); VP[k]=vh_int(0,3)?vh_range(0.3,2):vh_int(-1,1); VarNameSetBoundaryInfo((char*)NM[k],FL[k],1,VP[k]); }
  G=vg_make(1); RunFun(PRE_INITIALDATA,G); tVarList *u=vlalloc(G); vlpush(u,Ind("u")); vlpush(u,Ind("wx")); if(vh_int(0,1)){ vlpush(u,Ind("s_t")); vlpush(u,Ind("q")); } 
  const char *x[3]={"temp1","temp2","temp3"}; for(k=0;k<3;k++) enablevar(G,Ind((char*)x[k])); enablevar(G,Ind("guardx")); enablevar(G,Ind("ADMvars_dgxxx")); enablevarlist(u); L[0]=u; L[1]=AddDuplicateEnable(u,"_p"); L[2]=AddDuplicateEnable(u,"_q"); L[3]=AddDuplicateEnable(u,vh_int(0,1)?"_r":"_t");
  for(b=0;b<G->nboxes;b++) if(vh_int(0,4)==0) G->box[b]->inactive=1; set_ninactive(G); for(b=0;b<G->nboxes;b++) if(G->box[b]->inactive) sprintf(T+strlen(T)," box%d inactive",b);
  for(i=0;i<3;i++) for(b=0;b<G->nboxes;b++){ long q; double *g=G->box[b]->v[Ind("guardx")+i]; for(q=0;q<G->box[b]->nnodes;q++) g[q]=vh_u(); }
  vh_at("%s",T); char T0[400]; strcpy(T0,T); INI=NULL; int nrep=vh_int(2,5); double t=0;
  for(rep=0;rep<nrep;rep++){ tVarList *un,*up=L[1],*uc; double c=0; fill(); int pat=vh_int(0,4); if(pat==0){ un=L[3]; uc=L[0]; } else if(pat==1){ un=L[3]; uc=L[2]; } else { c=vh_range(0.01,0.5)*(vh_int(0,4)?1:-1); un=L[0]; uc=vh_int(0,1)?L[1]:L[2]; } 
    if(rep&&vh_int(0,3)) t+=vh_range(0.01,1); for(k=0;k<4;k++) L[k]->time=t; if(out!=2||c==0||1) sprintf(T,"%.300s c=%g call %d",T0,c,rep); call(out,inn,sel,un,up,c,uc); vh_count("calls",1); }
  strcpy(T,T0);
  /* the list of all box boundaries, and the functions that use such lists */
  { int iq=Ind("q"); enablevar(G,iq); fill(); double **S=save(); double val=vh_range(-3,3); set_boundary_value(boxBoundaryPointList,iq,val); for(b=0;b<G->nboxes;b++){ tBox *o=G->box[b]; long q; int per[3],n[3]={o->n1,o->n2,o->n3}; for(k=0;k<3;k++){ char s[60]; sprintf(s,"box%d_basis%d",b,k+1); per[k]=!strcmp(Gets(s),"Fourier")||!strcmp(Gets(s),"fd2_periodic"); }
      for(q=0;q<o->nnodes;q++){ int id[3]={q%n[0],(q/n[0])%n[1],q/((long)n[0]*n[1])},on=0; for(k=0;k<3;k++) if(!per[k]&&(id[k]==0||id[k]==n[k]-1)) on=1; double e=on&&!o->inactive?val:S[b*G->nvariables+iq][q]; VEXPECT(o->v[iq][q]==e,"box-boundary-list","%s box%d point (%d,%d,%d) periodic %d%d%d is %g expected %g",T,b,id[0],id[1],id[2],per[0],per[1],per[2],o->v[iq][q],e); } vh_count("box boundary points",o->nnodes); } drop(S,G->nvariables);
    int dir=vh_int(1,3),right=vh_int(0,1); tPointList *PL=AllocatePointList(G); for(b=0;b<G->nboxes;b++){ tBox *o=G->box[b]; int n[3]={o->n1,o->n2,o->n3}; long q; for(q=0;q<o->nnodes;q++){ int id[3]={q%n[0],(q/n[0])%n[1],q/((long)n[0]*n[1])}; if(id[dir-1]==(right?n[dir-1]-1:0)&&vh_int(0,4)) inPL(PL,b,q); } }
    fill(); S=save(); val=vh_int(0,2)?vh_range(-3,3):0; if(right) set_boundary_normalderiv_rightBound(PL,dir,iq,val); else set_boundary_normalderiv_leftBound(PL,dir,iq,val);
    for(b=0;b<G->nboxes;b++){ tBox *o=G->box[b]; char *m=calloc(o->nnodes,1); int pi; long q; for(pi=0;pi<PL->npoints[b];pi++) m[PL->point[b][pi]]=1; double *d=malloc(8*o->nnodes); spec_Deriv1(o,dir,o->v[iq],d); double *D=dir==1?o->D1:dir==2?o->D2:o->D3; 
      for(q=0;q<o->nnodes;q++){ if(!m[q]||o->inactive) VEXPECT(o->v[iq][q]==S[b*G->nvariables+iq][q],"derivative-elsewhere","%s box%d point %ld",T,b,q); else if(fabs(D[0])>1e-8) { VEXPECT(fabs(d[q]-val)<=1e-8*(1+fabs(val)+fabs(D[0])),"derivative-value","%s box%d dir %d right %d point %ld derivative %.12g instead of %g",T,b,dir,right,q,d[q],val); vh_count("derivative points",1); } } free(m); free(d); }
    drop(S,G->nvariables); FreePointList(PL); }
  if(INI) drop(INI,G->nvariables); INI=NULL; for(k=0;k<4;k++) vlfree(L[k]); vh_case(1,"%s",T); vg_free(G); }
/* real evolutions of the scalar wave module: the boundary after each full step */
static double *PSI[2][2]; static int rt_out,rt_inn,rt_sel,rt_meth; static FILE *RL; static long steps;
static double *sv_(double *a,long n){ double *r=malloc(8*n); memcpy(r,a,8*n); return r; }
static int rinit(tGrid *g){ int b; long q; double a[4]; int k; for(k=0;k<4;k++) a[k]=vh_range(-1,1); for(b=0;b<g->nboxes;b++){ tBox *o=g->box[b]; double *x=o->v[Ind("x")],*y=o->v[Ind("y")],*z=o->v[Ind("z")]; for(q=0;q<o->nnodes;q++){ o->v[Ind("ScalarWave_psi")][q]=sin(a[0]*x[q]+a[1]*y[q]+a[2]*z[q]+a[3]); o->v[Ind("ScalarWave_psidot")][q]=cos(a[1]*x[q]-a[0]*z[q]); } } return 0; }
static int rpre(tGrid *g){ int b; G=g; int ip=Ind("ScalarWave_psi"); if(g->iteration==0) rinit(g); for(b=0;b<g->nboxes&&b<2;b++){ tBox *o=g->box[b]; if(PSI[b][0]) free(PSI[b][0]); PSI[b][0]=sv_(o->v[ip],o->nnodes); if(!PSI[b][1]) PSI[b][1]=sv_(o->v[ip],o->nnodes); } return 0; }
static int rpost(tGrid *g)
{ int b,ip=Ind("ScalarWave_psi"); long q; if(!PSI[0][0]||0) return 0; int dirty=0; for(b=0;b<g->nboxes&&b<2;b++){ tBox *o=g->box[b]; double *n=o->v[ip],*old=PSI[b][0]; double *d=malloc(8*o->nnodes),*d0=malloc(8*o->nnodes),*g1=malloc(8*o->nnodes),*g2=malloc(8*o->nnodes),*g3=malloc(8*o->nnodes); spec_Deriv1(o,1,n,d); spec_Deriv1(o,1,old,d0); cart_partials(o,old,g1,g2,g3); double *x=o->v[Ind("x")],*y=o->v[Ind("y")],*z=o->v[Ind("z")];
   for(q=0;q<o->nnodes;q++) if(n[q]!=old[q]) dirty=1;
   for(q=0;q<o->nnodes;q++){ if(outer(b,q)){ if(rt_out==3) { VEXPECT(n[q]==PSI[b][1][q],"constant-not-held","%s iteration %d point %ld %.17g was %.17g",T,g->iteration,q,n[q],PSI[b][1][q]); vh_count("points held constant",1); }
       if(rt_out==1&&rt_meth==0){ double r=sqrt(x[q]*x[q]+y[q]*y[q]+z[q]*z[q]),e=old[q]-g->dt*(old[q]/r+(x[q]*g1[q]+y[q]*g2[q]+z[q]*g3[q])/r); VEXPECT(fabs(n[q]-e)<=1e-11*(1+fabs(g1[q])+fabs(g2[q])+fabs(g3[q])),"radiative-step","%s iteration %d point %ld %.15g expected %.15g",T,g->iteration,q,n[q],e); vh_count("radiative steps",1); } }
     if(inner(b,q)){ int s=rt_sel?rt_sel+10:rt_inn; if(s==1||s==11){ VEXPECT(n[q]==PSI[b][1][q],"excision-not-held","%s iteration %d point %ld %.17g was %.17g",T,g->iteration,q,n[q],PSI[b][1][q]); vh_count("points held constant",1); }
       if(s==2) { VEXPECT(fabs((n[q]-old[q])-(n[q+1]-old[q+1]))<=1e-12,"excision-copy","%s iteration %d point %ld changes by %.15g, its neighbour by %.15g",T,g->iteration,q,n[q]-old[q],n[q+1]-old[q+1]); vh_count("points that follow",1); }
       if(s==3||s==12) { double e=rt_meth<2?0:d0[q]; VEXPECT(fabs(d[q]-e)<=1e-8*(1+fabs(e)),"excision-derivative","%s iteration %d point %ld derivative %.15g expected %.15g",T,g->iteration,q,d[q],e); vh_count("points with derivative",1); } } }
   free(d);free(d0);free(g1);free(g2);free(g3); }
 if(dirty) steps++; return 0; }
static int rlast(tGrid *g){ VEXPECT(steps>0,"nothing-evolved","%s",T); vh_count("steps that changed the data",steps); vh_case(1,"%s",T); return 0; }
/* evo SEED METHOD OUT INN SEL PARFILE */
static int evo(char **av)
{ vh_init(180000+atoi(av[0])); rt_meth=atoi(av[1]); rt_out=atoi(av[2]); rt_inn=atoi(av[3]); rt_sel=atoi(av[4]); snprintf(T,sizeof T,"evolution method %d boundary %s %s %s seed %s",rt_meth,OUT[rt_out],INN[rt_inn],SEL[rt_sel],av[0]); vh_at("%s",T);
  AddFun(PRE_EVOLVE,rpre,"a"); AddFun(PRE_POST_EVOLVE,rpost,"b"); AddFun(PRE_FINALIZE_GRID,rlast,"c"); char *a[2]={"c18",av[5]}; int r=libsgrid_main(2,a); vh_end(); return r; }
int main(int ac,char **av)
{ if(ac>1&&!strcmp(av[1],"evo")) return evo(av+2);
  int part=atoi(av[1]),it,n; vh_init(1800+part); vh_silence(); n=vh_n(60,1500); for(it=0;it<n;it++){ vh_reseed(it+100000L*(part+1)); one(part); } vh_end(); return 0; }
