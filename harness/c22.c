/* every function that may run in several threads, with one thread and with several, in the real code compiled with all pragmas switched on */
#define main c19_main
#include "c19.c"
#undef main
extern int gomp_threads; extern long gomp_regions,gomp_started;
double spec_interpolate(tBox*,double*,double,double,double); void reset_doubleCoveredPoints(tVarList*); void copy_to_doubleCoveredPoints_SphericalDF(tBox*,int); void Naive_YlmFilter_lmshift(tVarList*,int);
static double *OUT; static long nout,capout; static void out(double x){ if(nout==capout){ capout=2*capout+1000; OUT=realloc(OUT,8*capout); } OUT[nout++]=x; }
typedef struct { double **v; int nv,nb; double *o; long no; } ST;
static ST take(void){ ST s; int b,i; s.nv=G->nvariables; s.nb=G->nboxes; s.v=calloc(s.nv*s.nb,sizeof *s.v); for(b=0;b<s.nb;b++) for(i=0;i<s.nv;i++) if(G->box[b]->v[i]){ s.v[b*s.nv+i]=malloc(8*G->box[b]->nnodes); memcpy(s.v[b*s.nv+i],G->box[b]->v[i],8*G->box[b]->nnodes); } s.no=nout; s.o=malloc(8*nout+8); if(nout) memcpy(s.o,OUT,8*nout); return s; }
static void put(ST *s){ int b,i; for(b=0;b<s->nb;b++) for(i=0;i<s->nv;i++) if(s->v[b*s->nv+i]&&G->box[b]->v[i]) memcpy(G->box[b]->v[i],s->v[b*s->nv+i],8*G->box[b]->nnodes); }
static void drop(ST *s){ int k; for(k=0;k<s->nv*s->nb;k++) free(s->v[k]); free(s->v); free(s->o); }
/* the same operation with one thread and with several */
static char OP_[100];
static int close_(double a,double b,double tol,double sc){ return a==b||(a!=a&&b!=b)||fabs(a-b)<=tol*sc; }
static void twice(void (*op)(void*),void *arg,const char *name,double tol)
{ int b,i,k,r,reps=2; strcpy(OP_,name); vh_at("%s %s",name,T); nout=0; ST s0=take(); gomp_threads=1; op(arg); ST s1=take(); 
  for(r=0;r<reps;r++){ static const int nt[]={2,3,4,5,7,8,13,2,6}; put(&s0); nout=0; gomp_threads=nt[vh_int(0,8)]; long reg=gomp_regions,th=gomp_started; op(arg); vh_count("parallel regions",gomp_regions-reg); vh_count("threads started",gomp_started-th); if(gomp_regions>reg) vh_count("parallel runs compared",1); 
    int bad=0; for(b=0;b<s1.nb&&!bad;b++) for(i=0;i<s1.nv&&!bad;i++){ double *p=s1.v[b*s1.nv+i],*q=G->box[b]->v[i]; if(!p!=!q){ vh_fail("storage-differs","%s %s variable %s box%d",name,T,VarName(i),b); continue; } if(!p) continue; double sc=0; if(tol>0) for(k=0;k<G->box[b]->nnodes;k++) if(fabs(p[k])>sc) sc=fabs(p[k]); vh_count("values compared",G->box[b]->nnodes); for(k=0;k<G->box[b]->nnodes;k++) if(!(tol>0?close_(p[k],q[k],tol,sc+1e-3):!memcmp(p+k,q+k,8))){ char ky[120]; snprintf(ky,120,"result-depends-on-threads:%s",name); vh_fail(ky,"%s variable %s box%d point %d: %.17g with 1 thread, %.17g with %d",T,VarName(i),b,k,p[k],q[k],gomp_threads); bad=1; break; } }
    if(nout!=s1.no) vh_fail("result-depends-on-threads","%s %s: %ld and %ld numbers",name,T,s1.no,nout); else { double sc=0; for(k=0;k<nout;k++) if(fabs(s1.o[k])>sc) sc=fabs(s1.o[k]); for(k=0;k<nout;k++) if(!(tol>0?close_(s1.o[k],OUT[k],tol,sc):!memcmp(s1.o+k,OUT+k,8))){ char ky[120]; snprintf(ky,120,"result-depends-on-threads:%s",name); vh_fail(ky,"%s number %d: %.17g with 1 thread, %.17g with %d",T,k,s1.o[k],OUT[k],gomp_threads); break; } vh_count("values compared",nout); }
    vh_case(1,"%s %d threads %s",name,gomp_threads,T); }
  gomp_threads=1; put(&s0); drop(&s0); drop(&s1); vh_count(name,1); }
/* ---- fields */
static tVarList *V1,*V2,*V3; static int FB; static double CA,CB; static char *SN[]={"s","wx","wy","wz","F"}; 
static int iv(int k){ return Ind(SN[k]); } static double *V(const char *n){ return G->box[FB]->v[Ind((char*)n)]; }
static void o_d1(void *a){ int d; for(d=1;d<=3;d++) spec_Deriv1(G->box[FB],d,V("s"),V(d==1?"ux":d==2?"uy":"uz")); }
static void o_d2(void *a){ int d; for(d=1;d<=3;d++) spec_Deriv2(G->box[FB],d,V("s"),V(d==1?"ux":d==2?"uy":"uz")); }
static void o_all(void *a){ spec_allDerivs(G->box[FB],V("s"),V("ux"),V("uy"),V("uz"),V("hxx"),V("hxy"),V("hxz"),V("hyy"),V("hyz"),V("hzz")); }
static void o_an(void *a){ int d; for(d=1;d<=3;d++){ spec_analysis1(G->box[FB],d,V("s"),V("ux")); spec_synthesis1(G->box[FB],d,V("wx"),V(d==1?"uy":d==2?"uz":"hxx")); } }
static void o_co(void *a){ spec_Coeffs(G->box[FB],V("s"),V("ux")); spec_Eval(G->box[FB],V("uy"),V("wx")); }
static double PT[30];
static void o_in(void *a){ int i; tBox *o=G->box[FB]; for(i=0;i<5;i++) out(spec_interpolate(o,V("s"),PT[3*i],PT[3*i+1],PT[3*i+2])); }
static void o_c1(void *a){ cart_partials(G->box[FB],V("s"),V("ux"),V("uy"),V("uz")); }
static void o_c2(void *a){ cart_partial_all(G->box[FB],V("s"),V("ux"),V("uy"),V("uz"),V("hxx"),V("hxy"),V("hxz"),V("hyy"),V("hyz"),V("hzz")); }
static void o_ds(void *a){ D_and_DD_of_S(G->box[FB],Ind("s"),Ind("ux"),Ind("hxx")); }
static void o_dv(void *a){ D_and_DD_of_Sa(G->box[FB],Ind("wx"),Ind("dwxx"),Ind("ddwxxx")); }
static void o_set(void *a){ vlsetconstant(V1,CA); } static void o_cp(void *a){ vlcopy(V1,V2); } static void o_sw(void *a){ vlswap(V1,V2); } static void o_av(void *a){ vlaverage(V3,V1,V2); } static void o_sb(void *a){ vlsubtract(V3,V1,V2); }
static void o_add(void *a){ int k=*(int*)a; vladd(V3,k&1?CA:0,k&1?V1:NULL,k&2?CB:0,k&2?V2:NULL); } static void o_add0(void *a){ vladd(V3,0,V1,CB,V2); vladdto(V3,CA,V1); } static void o_adt(void *a){ vladdto(V3,CA,V1); vladdto(V2,1,V3); vladdto(V1,0,V2); vladdto(V1,-1,V3); }
static void o_dc(void *a){ reset_doubleCoveredPoints(V1); } static void o_dcc(void *a){ int b; forallboxes(G,b) copy_to_doubleCoveredPoints_SphericalDF(G->box[b],Ind("s")); } static void o_yl(void *a){ Naive_YlmFilter_lmshift(V1,*(int*)a); }
static const char *CO[]={"Cartesian","Polar","PolarCE","SphericalDF","SphericalDF","Spherical","Spherical2","Spherical3"};
static void fgrid(int sdf)
{ int b,d,i,k; vg_reset(); T[0]=0; nb=vh_int(1,3); vg_par("nboxes=%d",nb); vg_par("Coordinates_set_bfaces=no"); vg_par("Coordinates_useDD=%s",vh_int(0,1)?"yes":"no"); static const char *TT[]={"0 NUMREC_FFT","0 FFTW3","10000","64 NUMREC_FFT","4 FFTW3"};
  AddVar("temp1","","t");AddVar("temp2","","t");AddVar("temp3","","t"); AddVar("s","","t"); AddVar("w","i","t"); AddVar("F","","t"); AddVar("u","i","t"); AddVar("h","(ij)","t"); AddVar("dw","ij","t"); AddVar("ddw","i(jk)","t");
  for(b=0;b<nb;b++){ double bb[6],r0=vh_range(.5,1.5); int n[3],ne=2*vh_int(2,4),c=sdf?3:vh_int(0,7); const char *B[3]; int tm=1; for(d=0;d<3;d++){ n[d]=vh_int(4,8); B[d]="ChebExtrema"; bb[2*d]=vh_range(-2,1); bb[2*d+1]=bb[2*d]+vh_range(.7,3); }
    if(c==0){ for(d=0;d<3;d++){ B[d]=VG_BASES[vh_int(0,9)>1?vh_int(0,2):vh_int(3,4)]; if(vh_int(0,2)==0) n[d]=vh_int(0,1)?vh_int(4,8):B[d][0]=='C'&&B[d][4]=='E'?(1<<vh_int(2,3))+1:1<<vh_int(2,3); } }
    else { bb[0]=r0; bb[1]=r0+vh_range(.5,2); if(c<3){ if(c==2) bb[0]=0; bb[2]=0; bb[3]=2*PI; n[1]=ne; B[1]="Fourier"; } else if(c<5){ bb[2]=0; bb[3]=2*PI; bb[4]=0; bb[5]=2*PI; n[1]=sdf?4*vh_int(1,3):ne; n[2]=2*vh_int(2,4); B[1]=B[2]="Fourier"; } else { bb[2]=.1; bb[3]=3; bb[4]=0; bb[5]=2*PI; n[2]=ne; B[2]="Fourier"; } 
      vg_par("box%d_Coordinates=%s",b,CO[c]); }
    vg_box(b,n[0],n[1],n[2],B[0],B[1],B[2],bb); sprintf(T+strlen(T),"box%d %s ",b,CO[c]); for(d=0;d<3;d++){ int t=vh_int(0,4); vg_par("box%d_TransformType%d=%s",b,d+1,TT[t]); sprintf(T+strlen(T),"%s(%d)T%d ",B[d],n[d],t); } }
  /* like in the real program, everything but the cut-off derivatives needs matrices only if the parameter says so */
  G=vg_make(1); const char *e[]={"temp1","temp2","temp3","s","wx","F","ux","hxx","dwxx","ddwxxx"}; for(k=0;k<10;k++) enablevar(G,Ind((char*)e[k]));
  for(b=0;b<nb;b++){ tBox *o=G->box[b]; for(k=Ind("s");k<G->nvariables;k++) if(o->v[k]) for(i=0;i<o->nnodes;i++) o->v[k][i]=vh_range(-1,1); for(k=Ind("temp1");k<=Ind("temp3");k++) for(i=0;i<o->nnodes;i++) o->v[k][i]=vh_range(-1,1); }
  if(nb>1&&vh_int(0,3)==0){ G->box[nb-1]->inactive=1; set_ninactive(G); strcat(T,"last inactive"); }
  V1=vlalloc(G); vlpush(V1,Ind("s")); vlpush(V1,Ind("wx")); V2=vlalloc(G); vlpush(V2,Ind("F")); vlpush(V2,Ind("ux")); V3=vlalloc(G); vlpushone(V3,Ind("hxx")); vlpushone(V3,Ind("hyz")); vlpushone(V3,Ind("hyy")); vlpushone(V3,Ind("hxy")); vh_at("%s",T); }
static void fields(void)
{ int sdf=vh_int(0,2)==0,k,i; fgrid(sdf); CA=vh_int(0,3)?vh_range(-2,2):1; CB=vh_range(-2,2); FB=vh_int(0,nb-1); if(G->box[FB]->inactive) FB=0; tBox *o=G->box[FB];
  int fd=0; for(k=1;k<=3;k++){ char p[40]; sprintf(p,"box%d_basis%d",FB,k); if(Gets(p)[0]=='f') fd=1; }
  for(i=0;i<5;i++) for(k=0;k<3;k++) PT[3*i+k]=vh_range(o->bbox[2*k],o->bbox[2*k+1]);
  twice(o_d1,NULL,"spec_Deriv1",0); twice(o_d2,NULL,"spec_Deriv2",0); twice(o_all,NULL,"spec_allDerivs",0); twice(o_an,NULL,"spec_analysis1",0); twice(o_co,NULL,"spec_Coeffs",0); if(!fd) twice(o_in,NULL,"spec_interpolate",1e-12);
  twice(o_c1,NULL,"cart_partials",0); if(o->x_of_X[1]==NULL||o->ddX_dxdx[1][1][1]) twice(o_c2,NULL,"cart_partial_all",0); if(o->x_of_X[1]==NULL||o->ddX_dxdx[1][1][1]||Getv("Coordinates_useDD","no")) twice(o_ds,NULL,"D_and_DD_of_S",0); if((o->x_of_X[1]==NULL||o->ddX_dxdx[1][1][1]||Getv("Coordinates_useDD","no"))&&vh_int(0,2)==0) twice(o_dv,NULL,"D_and_DD_of_Sa",0);
  twice(o_set,NULL,"vlsetconstant",0); twice(o_cp,NULL,"vlcopy",0); twice(o_sw,NULL,"vlswap",0); twice(o_av,NULL,"vlaverage",0); twice(o_sb,NULL,"vlsubtract",0); for(k=0;k<4;k++) twice(o_add,&k,"vladd",0); twice(o_add0,NULL,"vladd",0); twice(o_adt,NULL,"vladdto",0);
  if(sdf){ k=-vh_int(0,1); twice(o_dc,NULL,"reset_doubleCoveredPoints",0); twice(o_dcc,NULL,"copy_to_doubleCoveredPoints",0); twice(o_yl,&k,"Naive_YlmFilter",0); }
  if(vh_int(0,1)==0&&o->x_of_X[1]){ int d,any=0; for(d=Ind("dXdx");d<Ind("dXdx")+9;d++) if(o->v[d]){ disablevar_inbox(o,d); any=1; } for(d=Ind("ddXddxx");d<Ind("ddXddxx")+18;d++) if(o->v[d]) disablevar_inbox(o,d); if(any){ twice(o_c1,NULL,"cart_partials computed",0); if(o->ddX_dxdx[1][1][1]) twice(o_c2,NULL,"cart_partial_all computed",0); } }
  vlfree(V1); vlfree(V2); vlfree(V3); vg_free(G); }
/* ---- matrices and solvers */
static tSparseVector **MA; static double *VX,*VF; static int MK,sel_b,sel_j,sb_[6];
static void outM(tSparseVector **A,int n){ int i,j; for(i=0;i<n;i++){ out(A[i]->entries); /* entries may be added in any order */ double *row=calloc(N+1,8); for(j=0;j<A[i]->entries;j++) if(A[i]->pos[j]>=0&&A[i]->pos[j]<N) row[A[i]->pos[j]]+=A[i]->val[j]; for(j=0;j<N;j++) out(row[j]); free(row); } }
static void o_mat(void *a){ tSparseVector **A=AllocateSparseVectorArray(N); int k=*(int*)a; if(k==0) SetMatrixLines_slowly(A,lop,R,X,C1,C2,0); if(k==1) SetMatrixLines_forSortedVars_slowly(A,lop,R,X,C1,C2,0); if(k==2) SetMatrixColumns_slowly(A,lop,R,X,C1,C2,0); if(k==3) SetMatrixColumns_forSortedVars_slowly(A,lop,R,X,C1,C2,0); outM(A,N); FreeSparseVectorArray(A,N); if(k<4){ setv(R); setv(X); setv(C2); } }
static void o_one(void *a){ int n=G->box[sel_b]->nnodes; tSparseVector **A=AllocateSparseVectorArray(n); SetMatrixColumns_ForOneVarInOneBox_slowly(A,sel_j,sel_b,lop,R,X,C1,C2,0); outM(A,n); FreeSparseVectorArray(A,n); }
static void o_mv(void *a){ int i; SparseMatrixLines_times_vector(MA,N,VX,VF); for(i=0;i<N;i++) out(VF[i]); }
static void o_mt(void *a){ int i; SparseMatrixLinesTranspose_times_vector(MA,N,VX,VF); for(i=0;i<N;i++) out(VF[i]); vector_times_SparseMatrixLines(VX,MA,N,VF); for(i=0;i<N;i++) out(VF[i]); }
static void o_solve(void *a){ int si=*(int*)a; double res=0; int ret=S[si].f(X,Bv,R,C1,C2,200,1e-10,&res,lop,Preconditioner_I); out(ret<0); setv(R); setv(C2); }
/* what a solve leaves in its work variables and in the numbers beyond its accuracy is not compared: only x within tolerance */
static void matr(void)
{ int k; grid(vh_int(0,3)?0:3,1); vg_par("LinAlg_setABStozero_below=0"); vg_par("GridIterators_verbose=no"); setv(X); setv(R); setv(C2); uint64_t sd=vh_s;
  for(k=0;k<4;k++){ static const char *w[]={"SetMatrixLines","SetMatrixLines_forSortedVars","SetMatrixColumns","SetMatrixColumns_forSortedVars"}; vh_s=sd; 
    /* the work variables' contents afterwards are not specified; o_mat overwrites them with the same random numbers */
    nout=0; strcpy(OP_,w[k]); vh_at("%s %s",w[k],T); gomp_threads=1; vh_s=sd; o_mat(&k); double *ref=malloc(8*nout+8); long nr=nout; memcpy(ref,OUT,8*nout); int r; for(r=0;r<2;r++){ nout=0; int nt=2+(int)(vh_rand()%6); gomp_threads=nt; long reg=gomp_regions,th=gomp_started; vh_s=sd+r; o_mat(&k); vh_count("parallel regions",gomp_regions-reg); vh_count("threads started",gomp_started-th); vh_count("parallel runs compared",1); vh_count("values compared",nout); if(nout!=nr||memcmp(ref,OUT,8*nr)){ char ky[120]; snprintf(ky,120,"result-depends-on-threads:%s",w[k]); vh_fail(ky,"%s with %d threads",T,nt); } vh_case(1,"%s %d threads %s",w[k],nt,T); } free(ref); gomp_threads=1; }
  sel_j=vh_int(0,nv-1); do sel_b=vh_int(0,nb-1); while(!act[sel_b]);
  MA=AllocateSparseVectorArray(N); SetMatrixLines_slowly(MA,lop,R,X,C1,C2,0); VX=rv(N,1); VF=malloc(8*N+8); twice(o_mv,NULL,"SparseMatrixLines_times_vector",0); twice(o_mt,NULL,"SparseMatrixLinesTranspose_times_vector",1e-13); FreeSparseVectorArray(MA,N); free(VX); free(VF); ungrid(); }
static double *xvec(void){ double *a=malloc(8*N+8); arr(0,X,a,0); return a; }
static void solv(int si)
{ grid(vh_int(0,1)*3,1); vg_par("GridIterators_verbose=no"); vg_par("GridIterators_Preconditioner_type=%s",vh_int(0,1)?"fd":vh_int(0,1)?"spectral":si==7?"fd SPQR":"fd"); int d; if(si==7) for(d=0;d<3;d++){ int mn=99,b; for(b=0;b<nb;b++){ int q=d==0?G->box[b]->n1:d==1?G->box[b]->n2:G->box[b]->n3; if(q<mn) mn=q; } vg_par("GridIterators_Preconditioner_BlockJacobi_nsb%d=%d",d+1,vh_int(1,mn>3?3:mn)); }
  sprintf(T+strlen(T),"%s %s",S[si].n,Gets("GridIterators_Preconditioner_type")); vh_at("%s",T); setv(Bv); double *z=calloc(N+1,8),*ref=NULL; int r,refret=0; double xm;
  for(r=0;r<3;r++){ double res=0; arr(0,X,z,1); gomp_threads=r==0?1:2+(int)(vh_rand()%6); int nt=gomp_threads; long reg=gomp_regions,th=gomp_started; int ret=S[si].f(X,Bv,R,C1,C2,200,1e-9,&res,lop,Preconditioner_I); if(r){ vh_count("parallel regions",gomp_regions-reg); vh_count("threads started",gomp_started-th); vh_count("solves compared",1); } gomp_threads=1; double tr=truth(&xm);
    if(r==0){ ref=xvec(); refret=ret; VEXPECT(ret<0||tr<1e-8,"unconverged-called-success","%s %g",T,tr); } else { double *x=xvec(); int i,bad=0; VEXPECT((ret<0)==(refret<0),"result-depends-on-threads:solver","%s returned %d with one thread, %d with %d",T,refret,ret,nt); if(ret>=0) for(i=0;i<N&&!bad;i++) if(memcmp(x+i,ref+i,8)&&!(fabs(x[i]-ref[i])<1e-6*xm+1e-7)){ char ky[120]; snprintf(ky,120,"result-depends-on-threads:%s",S[si].n); vh_fail(ky,"%s unknown %d: %.17g with one thread, %.17g with %d",T,i,ref[i],x[i],nt); bad=1; } 
      if(!bad&&memcmp(x,ref,8*N)) vh_count("solutions that differ by rounding",1); vh_case(1,"%s %d threads",T,nt); free(x); } }
  free(ref); free(z); ungrid(); }
int main(int argc,char **argv)
{ int part=atoi(argv[1]),i,n; vh_init(2200+part); vh_silence(); 
  if(part%3==0){ n=vh_n(5,40); for(i=0;i<n;i++){ vh_reseed(300000+part*1000+i); fields(); } }
  else if(part%3==1){ n=vh_n(6,50); for(i=0;i<n;i++){ vh_reseed(310000+part*1000+i); matr(); } }
  else { n=vh_n(9,60); for(i=0;i<n;i++){ static const int w[]={7,6,7,5,8,7}; vh_reseed(320000+part*1000+i); solv(w[(i+part)%6]); } }
  vh_end(); return 0; }
