/* linear operators, matrices read from them, and every linear solver that is compiled in */
#include "vgrid.h"
#include <float.h>
typedef void (*OP)(tVarList*,tVarList*,tVarList*,tVarList*);
typedef int (*SOLVER)(tVarList*,tVarList*,tVarList*,tVarList*,tVarList*,int,double,double*,OP,OP);
#define SV(f) int f(tVarList*,tVarList*,tVarList*,tVarList*,tVarList*,int,double,double*,OP,OP)
SV(bicgstab); SV(bicgstab_with_fd_UMFPACK_precon); SV(bicgstab_with_Jacobi_precon); SV(bicgstab_with_BlockJacobi_precon); SV(bicgstab_with_SOR_precon); SV(LAPACK_dgesv_wrapper); SV(UMFPACK_solve_wrapper); SV(UMFPACK_solve_forSortedVars_wrapper); SV(SuiteSparseQR_solve_wrapper); SV(WTsolver); SV(SOR_Iterator);
SOLVER get_linSolver_by_name(char*);
void Preconditioner_I(tVarList*,tVarList*,tVarList*,tVarList*);
tSparseVector **AllocateSparseVectorArray(int n); void FreeSparseVectorArray(tSparseVector **A,int n); void AddToSparseVector(tSparseVector*,int,double); double GetSparseVectorComponent(tSparseVector*,int);
int write_SparseVectorArray_inMatrixMarketFormat(char*,tSparseVector**,int,int); void SparseMatrixLines_times_vector(tSparseVector**,int,double*,double*); void vector_times_SparseMatrixLines(double*,tSparseVector**,int,double*); void SparseMatrixLinesTranspose_times_vector(tSparseVector**,int,double*,double*);
#define SM(f) void f(tSparseVector**,OP,tVarList*,tVarList*,tVarList*,tVarList*,int)
SM(SetMatrixLines_slowly); SM(SetMatrixLines_forSortedVars_slowly); SM(SetMatrixColumns_slowly); SM(SetMatrixColumns_forSortedVars_slowly);
void SetMatrixColumns_ForOneVarInOneBox_slowly(tSparseVector**,int,int,OP,tVarList*,tVarList*,tVarList*,tVarList*,int);
void SetMatrixColumns_ForOneVarInOneSubBox_slowly(tSparseVector**,int,int,int,int,int,int,int,int,OP,tVarList*,tVarList*,tVarList*,tVarList*,int);
void allocate_umfpack_di_matrix(int**,int**,double**,int,int); void free_umfpack_di_matrix(int*,int*,double*); int set_umfpack_di_matrix_from_lines(int*,int*,double*,tSparseVector**,int,double,int); int set_umfpack_di_matrix_from_columns(int*,int*,double*,tSparseVector**,int,double,int);
int umfpack_di_solve_fromAlines(tSparseVector**,tVarList*,tVarList*,double,int);
void allocate_umfpack_dl_matrix(long**,long**,double**,long,long); void free_umfpack_dl_matrix(long*,long*,double*); long set_umfpack_dl_matrix_from_lines(long*,long*,double*,tSparseVector**,long,double,int); long set_umfpack_dl_matrix_from_columns(long*,long*,double*,tSparseVector**,long,double,int);
int umfpack_dl_solve_from_Ap_Ai_Ax_x_b(long*,long*,double*,double*,double*,long,int);
double GridDotProduct(tVarList*,tVarList*); double GridL2Norm(tVarList*); double BoxL2Norm(int,tVarList*); double varBoxL2Norm(tBox*,int);
void copy_varlist_into_array(tVarList*,double*); void copy_array_into_varlist(double*,tVarList*); void copy_varlist_into_array_forSortedVars(tVarList*,double*); void copy_array_into_varlist_forSortedVars(double*,tVarList*); void copy_vl_into_array_outervlloop(tVarList*,double*); void copy_array_into_vl_outervlloop(double*,tVarList*);
void copy_varlistCompInSubbox_into_array(tVarList*,int,int,int,int,int,int,int,int,double*); void copy_array_into_varlistCompInSubbox(double*,tVarList*,int,int,int,int,int,int,int,int);
#define MB 4
#define MV 4
static tGrid *G; static char T[600]; static tVarList *X,*Bv,*R,*C1,*C2; static int nv,act[MB],nb,N,singv;
/* the operator: pointwise coupling, derivatives, coupling between points of different boxes; or a Laplacian with boundary rows */
static int KIND; static double P[MB][MV][MV],Q[MB][MV][MV],W[MB][3],DC[MB][MV][3]; static struct { int b,j,b2,k; long i,i2; double w; } CP[60]; static int ncp; static long nlop;
static void lop(tVarList *F,tVarList *x,tVarList *c1,tVarList *c2)
{ tGrid *g=x->grid; int b,j,k,d; long i; __sync_fetch_and_add(&nlop,1);
  forallboxes(g,b){ tBox *o=g->box[b]; double *co=o->v[c1->index[0]]; 
    for(j=0;j<nv;j++){ double *f=o->v[F->index[j]],*t=o->v[c2->index[j]],*xj=o->v[x->index[j]];
      for(i=0;i<o->nnodes;i++) f[i]=0;
      if(KIND<2) for(k=0;k<nv;k++){ double *xk=o->v[x->index[k]]; for(i=0;i<o->nnodes;i++) f[i]+=(P[b][j][k]+Q[b][j][k]*co[i])*xk[i]; }
      if(KIND==0) for(d=0;d<3;d++) if(DC[b][j][d]!=0){ spec_Deriv1(o,d+1,xj,t); for(i=0;i<o->nnodes;i++) f[i]+=DC[b][j][d]*W[b][d]*t[i]; }
      if(KIND==2){ for(d=0;d<3;d++){ spec_Deriv2(o,d+1,xj,t); for(i=0;i<o->nnodes;i++) f[i]+=t[i]; } for(i=0;i<o->nnodes;i++) f[i]-=(1+0.3*co[i])*xj[i]; if(nv>1) for(i=0;i<o->nnodes;i++) f[i]+=0.2*o->v[x->index[(j+1)%nv]][i];
        for(i=0;i<o->nnodes;i++){ int i1=i%o->n1,i2=(i/o->n1)%o->n2,i3=i/((long)o->n1*o->n2); if((!o->periodic[1]&&(i1==0||i1==o->n1-1))||(!o->periodic[2]&&(i2==0||i2==o->n2-1))||(!o->periodic[3]&&(i3==0||i3==o->n3-1))) f[i]=xj[i]; } } } }
  for(k=0;k<ncp;k++) g->box[CP[k].b]->v[F->index[CP[k].j]][CP[k].i]+=CP[k].w*g->box[CP[k].b2]->v[x->index[CP[k].k]][CP[k].i2];
  if(singv>=0) forallboxes(g,b){ double *f=g->box[b]->v[F->index[singv]]; f[0]=0; break; } }
/* own numbering: kind 0 box,point,var; 1 box,var,point; 2 var,box,point */
static void arr(int ord,tVarList *v,double *a,int set)
{ long n=0,i; int b,j;
#define ONE(j) { double *q=&G->box[b]->v[v->index[j]][i]; if(set) *q=a[n]; else a[n]=*q; n++; }
  if(ord==0) for(b=0;b<nb;b++){ if(act[b]) for(i=0;i<G->box[b]->nnodes;i++) for(j=0;j<v->n;j++) ONE(j) }
  else if(ord==1) for(b=0;b<nb;b++){ if(act[b]) for(j=0;j<v->n;j++) for(i=0;i<G->box[b]->nnodes;i++) ONE(j) }
  else for(j=0;j<v->n;j++) for(b=0;b<nb;b++) if(act[b]) for(i=0;i<G->box[b]->nnodes;i++) ONE(j) }
static double *rv(int n,double s){ double *a=malloc(8*(n+1)); int i; for(i=0;i<n;i++) a[i]=vh_range(-s,s); return a; }
static double nrm(const double *a,int n){ long double s=0; int i; for(i=0;i<n;i++) s+=(long double)a[i]*a[i]; return sqrtl(s); }
/* everything stored on the grid, to see what a call changed */
typedef struct { double **v; int nv; double *D[MB]; void *fp[MB][24]; double bb[MB][6]; double t; int it; } SNAP;
static double *geo(tBox *o){ int n[3]={o->n1,o->n2,o->n3},d,tot=0; double *M[3][6]={{o->D1,o->DD1,o->F1,o->Mcoeffs1,o->Meval1,o->Int1},{o->D2,o->DD2,o->F2,o->Mcoeffs2,o->Meval2,o->Int2},{o->D3,o->DD3,o->F3,o->Mcoeffs3,o->Meval3,o->Int3}},*r; for(d=0;d<3;d++) tot+=6*n[d]*n[d]; r=malloc(8*tot+8); r[0]=tot; tot=1; for(d=0;d<3;d++) for(int k=0;k<6;k++){ memcpy(r+tot,M[d][k],8*n[d]*n[d]); tot+=n[d]*n[d]; } return r; }
static void fps(tBox *o,void **f){ void *l[24]={o->get_coeffs1,o->get_coeffs2,o->get_coeffs3,o->coeffs_of_deriv1,o->coeffs_of_deriv2,o->coeffs_of_deriv3,o->coeffs_of_2ndderiv1,o->coeffs_of_2ndderiv2,o->coeffs_of_2ndderiv3,o->coeffs_of_int1,o->coeffs_of_int2,o->coeffs_of_int3,o->eval_onPoints1,o->eval_onPoints2,o->eval_onPoints3,o->filter_coeffs1,o->filter_coeffs2,o->filter_coeffs3,o->basis1,o->basis2,o->basis3,(void*)(long)o->TransformType1,(void*)(long)(o->periodic[1]+2*o->periodic[2]+4*o->periodic[3]),(void*)(long)o->inactive}; memcpy(f,l,sizeof l); }
static SNAP snap(void){ SNAP s; int b,i; s.nv=G->nvariables; s.v=calloc(nb*s.nv,sizeof *s.v); for(b=0;b<nb;b++){ tBox *o=G->box[b]; for(i=0;i<s.nv;i++) if(o->v[i]){ s.v[b*s.nv+i]=malloc(8*o->nnodes); memcpy(s.v[b*s.nv+i],o->v[i],8*o->nnodes); } s.D[b]=geo(o); fps(o,s.fp[b]); memcpy(s.bb[b],o->bbox,48); } s.t=G->time; s.it=G->iteration; return s; }
static int in(tVarList *l,int i){ int j; for(j=0;l&&j<l->n;j++) if(l->index[j]==i) return 1; return 0; }
/* only variables in a1,a2,a3,a4 of active boxes may differ */
static void same(SNAP *s,tVarList *a1,tVarList *a2,tVarList *a3,tVarList *a4,const char *what)
{ int b,i; for(b=0;b<nb;b++){ tBox *o=G->box[b]; for(i=0;i<G->nvariables;i++){ double *was=i<s->nv?s->v[b*s->nv+i]:NULL; if(!was!=!o->v[i]){ vh_fail("storage-left","%s: %s box%d variable %s storage %d before %d",T,what,b,VarName(i),!!o->v[i],!!was); continue; } if(!was) continue;
      if(act[b]&&(in(a1,i)||in(a2,i)||in(a3,i)||in(a4,i))) continue; if(memcmp(was,o->v[i],8*o->nnodes)) vh_fail("other-variable-changed","%s: %s changed %s in box%d",T,what,VarName(i),b); }
    double *g=geo(o); void *f[24]; fps(o,f); if(memcmp(g,s->D[b],8+8*(long)g[0])||memcmp(f,s->fp[b],sizeof f)||memcmp(s->bb[b],o->bbox,48)) vh_fail("grid-not-restored","%s: %s left box%d with other matrices or functions",T,what,b); free(g); }
  if(s->t!=G->time||s->it!=G->iteration) vh_fail("time-changed","%s: %s",T,what); vh_count("grids compared",1); }
static void unsnap(SNAP *s){ int k; for(k=0;k<nb*s->nv;k++) free(s->v[k]); free(s->v); for(k=0;k<nb;k++) free(s->D[k]); }
static void grid(int kind,int small)
{ int b,j,k,d; vg_reset(); vg_par("Coordinates_set_bfaces=no"); nb=vh_int(1,3); vg_par("nboxes=%d",nb); KIND=kind; nv=vh_int(1,small?2:3);
  AddVar("temp1","","t");AddVar("temp2","","t");AddVar("temp3","","t"); AddVar("guard","i","t"); AddVar("s","","t"); AddVar("w","i","t"); AddVar("F","","t"); AddVar("bb","i","t"); AddVar("co","","t"); AddVar("off","","t"); T[0]=0;
  for(b=0;b<nb;b++){ double bb[6]; int n[3]; const char *B[3]; sprintf(T+strlen(T),"box%d",b); for(d=0;d<3;d++){ n[d]=vh_int(0,3)==0?vh_int(1,2)+1:vh_int(3,small?3:4); B[d]=VG_BASES[kind==2?(vh_int(0,3)?0:1):vh_int(0,4)]; if(kind==3) B[d]=vh_int(0,1)?"fd2_onesided":"fd2_periodic"; if(!strcmp(B[d],"Fourier")) n[d]=n[d]<=2?2:4; if(n[d]<3&&(B[d][0]=='f'||kind==2)) n[d]=3+vh_int(0,1); if(!strcmp(B[d],"Fourier")) n[d]=4; if(kind==2&&d==0&&B[d][0]=='C') n[d]+=2; bb[2*d]=vh_range(-2,1)+3*b; bb[2*d+1]=bb[2*d]+vh_range(0.8,3); sprintf(T+strlen(T)," %s(%d)",B[d],n[d]); }
    vg_box(b,n[0],n[1],n[2],B[0],B[1],B[2],bb); strcat(T,"; "); }
  if(kind==3) KIND=0;
  vg_par("GridIterators_verbose=%s",vh_int(0,5)?"no":"yes"); vg_par("GridIterators_UMFPACK_version=%s",vh_int(0,1)?"di":"dl"); vg_par("GridIterators_SOR_matrix=%s",vh_int(0,1)?"SetMatrixLines_slowly":"SetMatrixLines_forSortedVars_slowly"); 
  vg_par("GridIterators_setABStozero_below=%s",vh_int(0,2)?"0":"1e-15"); vg_par("LinAlg_setABStozero_below=%s",vh_int(0,2)?"0":"1e-16"); vg_par("GridIterators_Preconditioner_itmax=%d",vh_int(3,30));
  G=vg_make(1); const char *e[]={"temp1","temp2","temp3","guardx","sx"}; for(k=0;k<4;k++) enablevar(G,Ind((char*)e[k]));
  X=vlalloc(G); { static const char *nm[]={"s","wx","wy","wz"}; int idx[4],p=0; int start=vh_int(0,1); for(k=0;k<nv;k++){ int q=start? (k+1)%4: k; idx[p++]=Ind((char*)nm[q]); } if(nv>1&&vh_int(0,2)==0){ int t=idx[0]; idx[0]=idx[nv-1]; idx[nv-1]=t; } enablevar(G,Ind("s")); enablevar(G,Ind("wx")); for(k=0;k<nv;k++) vlpushone(X,idx[k]); }
  Bv=AddDuplicateEnable(X,"_b"); R=AddDuplicateEnable(X,"_r"); C2=AddDuplicateEnable(X,"_der"); C1=vlalloc(G); vlpush(C1,Ind("co")); enablevarlist(C1);
  for(b=0;b<nb;b++){ act[b]=1; if(nb>1&&vh_int(0,3)==0){ G->box[b]->inactive=1; act[b]=0; } } if(nb==1||(!act[0]&&!(nb>1&&act[1])&&!(nb>2&&act[2]))){ act[0]=1; G->box[0]->inactive=0; } set_ninactive(G); for(b=0;b<nb;b++) if(!act[b]) sprintf(T+strlen(T),"box%d inactive; ",b);
  N=0; for(b=0;b<nb;b++) if(act[b]) N+=G->box[b]->nnodes*nv; sprintf(T+strlen(T),"%d variables, %d unknowns, kind %d ",nv,N,kind);
  for(b=0;b<nb;b++){ tBox *o=G->box[b]; for(j=0;j<G->nvariables;j++) if(o->v[j]&&strcmp(VarName(j),"x")&&strcmp(VarName(j),"y")&&strcmp(VarName(j),"z")&&strcmp(VarName(j),"X")&&strcmp(VarName(j),"Y")&&strcmp(VarName(j),"Z")) for(k=0;k<o->nnodes;k++) o->v[j][k]=vh_range(-1,1);
    for(j=0;j<nv;j++) for(k=0;k<nv;k++){ P[b][j][k]=j==k?vh_range(2,4)*(vh_int(0,3)?1:1):vh_range(-.3,.3)/nv; Q[b][j][k]=vh_range(-.3,.3)/nv; }
    int n[3]={o->n1,o->n2,o->n3}; double *D[3]={o->D1,o->D2,o->D3}; for(d=0;d<3;d++){ double m=0; for(j=0;j<n[d];j++){ double s=0; for(k=0;k<n[d];k++) s+=fabs(D[d][j*n[d]+k]); if(s>m) m=s; } W[b][d]=m>0?0.2/m:0; for(j=0;j<nv;j++) DC[b][j][d]=vh_int(0,2)?vh_range(-1,1):0; } }
  ncp=0; if(kind!=1) for(k=0;k<10;k++){ int b1=vh_int(0,nb-1),b2=vh_int(0,nb-1),q; if(!act[b1]||!act[b2]) continue; CP[ncp].b=b1; CP[ncp].b2=b2; CP[ncp].j=vh_int(0,nv-1); CP[ncp].k=vh_int(0,nv-1); CP[ncp].i=vh_int(0,G->box[b1]->nnodes-1); CP[ncp].i2=vh_int(0,G->box[b2]->nnodes-1); CP[ncp].w=vh_range(-.15,.15); for(q=0;q<ncp;q++) if(CP[q].b==b1&&CP[q].i==CP[ncp].i&&CP[q].j==CP[ncp].j) break; if(q==ncp) ncp++; }
  singv=-1; vh_at("%s",T); }
static void ungrid(void){ vlfree(X); vlfree(Bv); vlfree(R); vlfree(C1); vlfree(C2); vg_free(G); }
static void setv(tVarList *v){ double *a=rv(N,1); arr(0,v,a,1); free(a); }
/* matrices */
static void dense(double *M,int ord){ int c,l; double *u=calloc(N+1,8),*f=malloc(8*N+8); for(c=0;c<N;c++){ u[c]=1; arr(ord,X,u,1); lop(R,X,C1,C2); arr(ord,R,f,0); for(l=0;l<N;l++) M[l*N+c]=f[l]; u[c]=0; } free(u); free(f); }
static double getM(tSparseVector *s,int p,int *dup){ int i,c=0; double r=0; for(i=0;i<s->entries;i++) if(s->pos[i]==p){ r=s->val[i]; c++; } if(c>1) *dup=1; return r; }
static void cmpM(tSparseVector **A,int iscol,const double *M,int n,double drop,const char *what)
{ int i,j,dup=0,bad=0; for(i=0;i<n;i++){ for(j=0;j<A[i]->entries;j++) if(A[i]->pos[j]<0||A[i]->pos[j]>=n) { vh_fail("entry-outside","%s %s line %d position %d",T,what,i,A[i]->pos[j]); return; } double *row=calloc(n,8); for(j=0;j<A[i]->entries;j++){ if(row[A[i]->pos[j]]!=0) dup=1; row[A[i]->pos[j]]=A[i]->val[j]; }
    for(j=0;j<n&&!bad;j++){ double e=iscol?M[j*n+i]:M[i*n+j]; double v=row[j]; if(!(v==e||(v==0&&fabs(e)<=drop))){ vh_fail("matrix-entry","%s %s (%d,%d) is %.17g expected %.17g",T,what,i,j,v,e); bad=1; } } free(row); } if(dup) vh_fail("duplicate-entry","%s %s",T,what); vh_count("matrix entries",(long)n*n); }
static void matrices(void)
{ int ord,k; double drop=0; grid(vh_int(0,3)%3==0?2:vh_int(0,1)?0:3,1); if(vh_int(0,2)==0){ drop=vh_range(0,.2); vg_par("LinAlg_setABStozero_below=%.17g",drop); } else { vg_par("LinAlg_setABStozero_below=0"); }
  double *M[2]; for(ord=0;ord<2;ord++){ M[ord]=malloc(8L*N*N+8); dense(M[ord],ord); }
  SNAP s; setv(X); 
  for(k=0;k<4;k++){ tSparseVector **A=AllocateSparseVectorArray(N); setv(X); s=snap(); const char *w=k==0?"SetMatrixLines_slowly":k==1?"SetMatrixLines_forSortedVars_slowly":k==2?"SetMatrixColumns_slowly":"SetMatrixColumns_forSortedVars_slowly"; int pr=vh_int(0,3)==0;
    if(k==0) SetMatrixLines_slowly(A,lop,R,X,C1,C2,pr); if(k==1) SetMatrixLines_forSortedVars_slowly(A,lop,R,X,C1,C2,pr); if(k==2) SetMatrixColumns_slowly(A,lop,R,X,C1,C2,pr); if(k==3) SetMatrixColumns_forSortedVars_slowly(A,lop,R,X,C1,C2,pr);
    cmpM(A,k>1,M[k&1],N,drop,w); same(&s,X,R,C2,NULL,w); unsnap(&s); 
    /* products, components, formats */
    { double *v=rv(N,2),*f=malloc(8*N+8),*h=malloc(8*N+8),*q=malloc(8*N+8); int i,j; SparseMatrixLines_times_vector(A,N,v,f); SparseMatrixLinesTranspose_times_vector(A,N,v,h); vector_times_SparseMatrixLines(v,A,N,q);
      for(i=0;i<N;i++){ long double a=0,t=0,sa=0,st=0; for(j=0;j<N;j++){ double x=k>1?M[k&1][j*N+i]:M[k&1][i*N+j],y=k>1?M[k&1][i*N+j]:M[k&1][j*N+i]; if(fabs(x)<=drop) x=0; if(fabs(y)<=drop) y=0; a+=x*v[j]; sa+=fabs(x*v[j]); t+=y*v[j]; st+=fabs(y*v[j]); }
        VEXPECT(fabs((double)(f[i]-a))<=1e-14*N*(double)sa,"matrix-vector","%s %s line %d %g expected %g",T,w,i,f[i],(double)a); VEXPECT(fabs((double)(h[i]-t))<=1e-14*N*(double)st,"transpose-vector","%s %s line %d %g expected %g",T,w,i,h[i],(double)t); VEXPECT(fabs((double)(q[i]-t))<=1e-14*N*(double)st,"vector-matrix","%s %s line %d %g expected %g",T,w,i,q[i],(double)t); j=vh_int(0,N-1); double e=k>1?M[k&1][j*N+i]:M[k&1][i*N+j]; if(fabs(e)<=drop) e=0; VEXPECT(GetSparseVectorComponent(A[i],j)==e,"component","%s %s %d %d",T,w,i,j); }
      vh_count("products",3*N); free(v);free(f);free(h);free(q); }
    { double db=vh_int(0,1)?0:vh_range(0,.3); int nz=0,i,j; int *Ap,*Ai; double *Ax; long *Lp,*Li; double *Lx; for(i=0;i<N;i++) nz+=A[i]->entries; allocate_umfpack_di_matrix(&Ap,&Ai,&Ax,N,nz); allocate_umfpack_dl_matrix(&Lp,&Li,&Lx,N,nz); int r1; long r2; if(k<2){ r1=set_umfpack_di_matrix_from_lines(Ap,Ai,Ax,A,N,db,vh_int(0,1)); r2=set_umfpack_dl_matrix_from_lines(Lp,Li,Lx,A,N,db,0); } else { r1=set_umfpack_di_matrix_from_columns(Ap,Ai,Ax,A,N,db,vh_int(0,1)); r2=set_umfpack_dl_matrix_from_columns(Lp,Li,Lx,A,N,db,0); }
      int p=0; for(j=0;j<N;j++){ VEXPECT(Ap[j]==p&&Lp[j]==p,"column-start","%s %s column %d starts at %d,%ld expected %d",T,w,j,Ap[j],Lp[j],p); for(i=0;i<N;i++){ double e=M[k&1][i*N+j]; if(fabs(e)<=drop||fabs(e)<=db) continue; if(p>=nz||Ai[p]!=i||Ax[p]!=e||Li[p]!=i||Lx[p]!=e){ vh_fail("compressed-columns","%s %s entry %d should be (%d,%d)=%g",T,w,p,i,j,e); j=N; break; } p++; } } VEXPECT(j!=N||(Ap[N]==p&&r1==p&&Lp[N]==p&&r2==p),"number-of-entries","%s %s %d %d %ld %ld expected %d",T,w,Ap[N],r1,Lp[N],r2,p); free_umfpack_di_matrix(Ap,Ai,Ax); free_umfpack_dl_matrix(Lp,Li,Lx); vh_count("compressed matrices",2); }
    { char fn[200]; FILE *f; int i,j,nr,nc,nz,q,ok=1; double v; char line[500]; int mx=0; sprintf(fn,"m%d.mtx",(int)getpid()); remove(fn); write_SparseVectorArray_inMatrixMarketFormat(fn,A,N,k>1); f=fopen(fn,"r"); if(!f) vh_fail("matrix-file","not written"); else { if(!fgets(line,500,f)||strncmp(line,"%%MatrixMarket matrix coordinate real general",45)) vh_fail("matrix-file-header","%s",line); while(fgets(line,500,f)&&line[0]=='%'); if(sscanf(line,"%d %d %d",&nr,&nc,&nz)!=3) vh_fail("matrix-file-size","%s",line); int cnt=0; double *Z=calloc((long)N*N+1,8); while(fscanf(f,"%d %d %lf",&i,&j,&v)==3){ cnt++; if(i<1||j<1||i>nr||j>nc||i>N||j>N){ ok=0; continue; } Z[(i-1)*N+j-1]=v; } fclose(f); if(!ok||cnt!=nz) vh_fail("matrix-file-entries","%s %s %d of %d",T,w,cnt,nz); for(i=0;i<N*N;i++){ double e=M[k&1][i]; if(fabs(e)<=drop) e=0; if(fabs(Z[i]-e)>2e-15*fabs(e)*5){ vh_fail("matrix-file-value","%s %s %d %.17g expected %.17g",T,w,i,Z[i],e); break; } } for(q=0;q<N;q++) for(i=0;i<A[q]->entries;i++) if(A[q]->pos[i]>mx) mx=A[q]->pos[i]; VEXPECT((k>1?nc:nr)==N&&(k>1?nr:nc)<=N,"matrix-file-size","%d %d of %d",nr,nc,N); free(Z); vh_count("matrix files",1); } remove(fn); }
    FreeSparseVectorArray(A,N); }
  /* one variable in one box, or a part of it */
  for(k=0;k<4;k++){ int b,j=vh_int(0,nv-1),off=0,q; do b=vh_int(0,nb-1); while(!act[b]); for(q=0;q<b;q++) if(act[q]) off+=G->box[q]->nnodes*nv; tBox *o=G->box[b]; int n=o->nnodes; double *m=malloc(8L*n*n+8); off+=j*n; setv(X); s=snap();
    if(k<2){ int a,c; for(a=0;a<n;a++) for(c=0;c<n;c++) m[a*n+c]=M[1][(long)(off+a)*N+off+c]; tSparseVector **A=AllocateSparseVectorArray(n); SetMatrixColumns_ForOneVarInOneBox_slowly(A,j,b,lop,R,X,C1,C2,0); cmpM(A,1,m,n,drop,"ForOneVarInOneBox"); FreeSparseVectorArray(A,n); }
    else { int sb[3],ns[3],nn[3]={o->n1,o->n2,o->n3},lo[3],hi[3],d,*id=malloc(4*n),c=0,i1,i2,i3,a; for(d=0;d<3;d++){ ns[d]=vh_int(1,nn[d]); sb[d]=vh_int(0,ns[d]-1); lo[d]=sb[d]*nn[d]/ns[d]; hi[d]=(sb[d]+1)*nn[d]/ns[d]; } for(i3=lo[2];i3<hi[2];i3++) for(i2=lo[1];i2<hi[1];i2++) for(i1=lo[0];i1<hi[0];i1++) id[c++]=i1+o->n1*(i2+o->n2*i3); for(a=0;a<c;a++) for(q=0;q<c;q++) m[a*c+q]=M[1][(long)(off+id[a])*N+off+id[q]]; tSparseVector **A=AllocateSparseVectorArray(c); SetMatrixColumns_ForOneVarInOneSubBox_slowly(A,j,b,sb[0],sb[1],sb[2],ns[0],ns[1],ns[2],lop,R,X,C1,C2,0); cmpM(A,1,m,c,drop,"ForOneVarInOneSubBox"); FreeSparseVectorArray(A,c);
      double *u=malloc(8*n+8); setv(Bv); copy_varlistCompInSubbox_into_array(Bv,j,b,sb[0],sb[1],sb[2],ns[0],ns[1],ns[2],u); for(a=0;a<c;a++) VEXPECT(u[a]==o->v[Bv->index[j]][id[a]],"subbox-copy","%s",T); unsnap(&s); s=snap(); for(a=0;a<c;a++) u[a]=a+.5; copy_array_into_varlistCompInSubbox(u,Bv,j,b,sb[0],sb[1],sb[2],ns[0],ns[1],ns[2]); for(a=0;a<n;a++){ for(q=0;q<c;q++) if(id[q]==a) break; double e=q<c?q+.5:s.v[b*s.nv+Bv->index[j]][a]; VEXPECT(o->v[Bv->index[j]][a]==e,"subbox-copy-back","%s point %d",T,a); } free(u); free(id); }
    same(&s,X,R,C2,Bv,"one box"); unsnap(&s); free(m); }
  /* orderings of plain arrays, norms */
  { double *a=malloc(8*N+8),*e=malloc(8*N+8),*c=rv(N,2); int i; void (*to[3])(tVarList*,double*)={copy_varlist_into_array,copy_varlist_into_array_forSortedVars,copy_vl_into_array_outervlloop}; void (*fr[3])(double*,tVarList*)={copy_array_into_varlist,copy_array_into_varlist_forSortedVars,copy_array_into_vl_outervlloop};
    for(k=0;k<3;k++){ setv(X); to[k](X,a); arr(k,X,e,0); VEXPECT(!memcmp(a,e,8*N),"array-order","%s kind %d",T,k); s=snap(); for(i=0;i<N;i++) c[i]=vh_range(-2,2); fr[k](c,X); arr(k,X,e,0); VEXPECT(!memcmp(c,e,8*N),"array-order-back","%s kind %d",T,k); same(&s,X,NULL,NULL,NULL,"array copy"); unsnap(&s); }
    setv(X); setv(Bv); arr(0,X,a,0); arr(0,Bv,e,0); long double d=0,sa=0; for(i=0;i<N;i++){ d+=(long double)a[i]*e[i]; sa+=fabs(a[i]*e[i]); } VEXPECT(fabs((double)(GridDotProduct(X,Bv)-d))<=1e-14*(double)sa,"dot-product","%s %g expected %g",T,GridDotProduct(X,Bv),(double)d); double n2=nrm(a,N)/sqrt(N); VEXPECT(fabs(GridL2Norm(X)-n2)<=1e-13*n2,"norm","%s %g expected %g",T,GridL2Norm(X),n2);
    int b; for(b=0;b<nb;b++) if(act[b]){ long double t=0,t0=0; long q; int j; for(j=0;j<nv;j++) for(q=0;q<G->box[b]->nnodes;q++){ double z=G->box[b]->v[X->index[j]][q]; t+=z*z; if(j==0) t0+=z*z; } double e1=sqrtl(t/(G->box[b]->nnodes*nv)),e2=sqrtl(t0/G->box[b]->nnodes); VEXPECT(fabs(BoxL2Norm(b,X)-e1)<=1e-13*e1&&fabs(varBoxL2Norm(G->box[b],X->index[0])-e2)<=1e-13*e2,"box-norm","%s box%d %g %g expected %g %g",T,b,BoxL2Norm(b,X),varBoxL2Norm(G->box[b],X->index[0]),e1,e2); } free(a);free(e);free(c); vh_count("norms",1); }
  free(M[0]); free(M[1]); vh_case(1,"matrices %s drop %g",T,drop); ungrid(); }
/* solvers */
static const struct { const char *n; SOLVER f; int iter; } S[]={ {"LAPACK_dgesv_wrapper",LAPACK_dgesv_wrapper,0},{"UMFPACK_solve_wrapper",UMFPACK_solve_wrapper,0},{"UMFPACK_solve_forSortedVars_wrapper",UMFPACK_solve_forSortedVars_wrapper,0},{"SuiteSparseQR_solve_wrapper",SuiteSparseQR_solve_wrapper,0},
 {"bicgstab",bicgstab,1},{"bicgstab_with_fd_UMFPACK_precon",bicgstab_with_fd_UMFPACK_precon,1},{"bicgstab_with_Jacobi_precon",bicgstab_with_Jacobi_precon,1},{"bicgstab_with_BlockJacobi_precon",bicgstab_with_BlockJacobi_precon,1},{"bicgstab_with_SOR_precon",bicgstab_with_SOR_precon,1},{"SOR_Iterator",SOR_Iterator,2},{"WTsolver",WTsolver,3} };
enum { NS=11 };
static double truth(double *xmax){ double *f=malloc(8*N+8),*b=malloc(8*N+8); int i; lop(R,X,C1,C2); arr(0,R,f,0); arr(0,Bv,b,0); for(i=0;i<N;i++) f[i]=b[i]-f[i]; double r=nrm(f,N)/sqrt(N); arr(0,X,f,0); *xmax=nrm(f,N)/sqrt(N); free(f); free(b); return r; }
static double opnorm(void){ double m=0; int b,d; if(KIND!=2) return 10; for(b=0;b<nb;b++) if(act[b]){ tBox *o=G->box[b]; int n[3]={o->n1,o->n2,o->n3},i,j; double *D[3]={o->DD1,o->DD2,o->DD3},s=3; for(d=0;d<3;d++){ double q=0; for(i=0;i<n[d];i++){ double t=0; for(j=0;j<n[d];j++) t+=fabs(D[d][i*n[d]+j]); if(t>q) q=t; } s+=q; } if(s>m) m=s; } return m; }
static void solve(int si,int kind)
{ grid(kind,0); int k,rep=vh_int(1,2); char *pt=""; 
  if(si==2) vg_par("GridIterators_UMFPACK_version=di");
  if(si>=6){ int w=vh_int(0,3); pt=w==0?"fd":w==1?"spectral":w==2?"fd SPQR":"spectral UMFPACK"; if(si!=7&&w>1) pt="spectral"; vg_par("GridIterators_Preconditioner_type=%s",pt); }
  int nsb[3]={1,1,1}; if(si==7){ int d; for(d=0;d<3;d++){ int mn=99,b; for(b=0;b<nb;b++){ int q=d==0?G->box[b]->n1:d==1?G->box[b]->n2:G->box[b]->n3; if(q<mn) mn=q; } nsb[d]=vh_int(0,1)?1:vh_int(1,mn>3?3:mn); vg_par("GridIterators_Preconditioner_BlockJacobi_nsb%d=%d",d+1,nsb[d]); } }
  if(si==8||si==9) vg_par("GridIterators_SOR_omega=%.17g",vh_range(.7,1.1));
  double cn=opnorm(); sprintf(T+strlen(T),"%s %s ",S[si].n,pt); vh_at("%s",T); char T0[600]; strcpy(T0,T);
  for(k=0;k<rep;k++){ strcpy(T,T0); double *xs=rv(N,vh_int(0,3)?1:100),x0; int mode=vh_int(0,7); /* 0 start at solution, 1 zero rhs, 2 few iterations, else normal */ int itmax=mode==2?vh_int(0,3):(S[si].iter==3?3000:500); double res=-7,tol,ini; SNAP s; int ret,i;
    arr(0,X,xs,1); lop(R,X,C1,C2); { double *f=malloc(8*N+8); arr(0,R,f,0); if(mode==1) for(i=0;i<N;i++) f[i]=0; arr(0,Bv,f,1); free(f); }
    if(mode!=0){ double *z=vh_int(0,1)?rv(N,1):calloc(N+1,8); arr(0,X,z,1); free(z); }
    ini=truth(&x0); double nbv; { double *f=malloc(8*N+8); arr(0,Bv,f,0); nbv=nrm(f,N)/sqrt(N); free(f); }
    tol=(nbv>0?nbv:1)*(S[si].iter==3?1e-3:pow(10,-vh_range(1,8))); if(vh_int(0,5)==0&&S[si].iter==1) tol=vh_range(.2,1.1)*ini; if(!(tol>1e-9*(nbv>0?nbv:1e-3))) tol=1e-9*(nbv>0?nbv:1); sprintf(T+strlen(T),"itmax %d tol %g initial residual %g mode %d",itmax,tol,ini,mode); vh_at("%s",T);
    setv(R); s=snap(); long n0=nlop; ret=S[si].f(X,Bv,R,C1,C2,itmax,tol,&res,lop,Preconditioner_I); 
    same(&s,X,R,C2,NULL,S[si].n); unsnap(&s); double xm,tr=truth(&xm); double allow=1e-13*cn*(xm+x0)*20+1e-14*nbv; (void)n0;
    if(S[si].iter==0){ VEXPECT(ret==0,"direct-solver-failed","%s returned %d",T,ret); if(ret==0) VEXPECT(tr<=1e-11*(cn*xm+nbv),"direct-solution","%s residual %g rhs %g solution %g",T,tr,nbv,xm); }
    else { VEXPECT(ret<=itmax,"iterations","%s returned %d",T,ret); if(S[si].iter!=1) allow+=0; 
      if(ret>=0){ VEXPECT(tr<=tol*1.0000001+allow*(1+ini/(tol>0?1:1)),"unconverged-called-success","%s returned %d residual %g reported %g",T,ret,tr,res); vh_count("successes",1); }
      else { vh_count("failures reported",1); VEXPECT(mode==2||tol<1e-9*0,"did-not-converge","%s returned %d residual %g reported %g",T,ret,tr,res); if(mode==2&&S[si].iter<3) VEXPECT((S[si].iter==2?tr*sqrt((double)N):tr)>tol-allow,"converged-called-failure","%s returned %d residual %g",T,ret,tr); }
      double t2=S[si].iter==2?tr*sqrt(N):tr; VEXPECT(fabs(res-t2)<=1e-6*t2+allow*(S[si].iter==2?sqrt(N):1)*(1+ini),"reported-residual","%s returned %d reported %g true %g",T,ret,res,t2);
      if(ini<=tol&&S[si].iter==1&&si==4) VEXPECT(ret==0,"nothing-to-do","%s returned %d",T,ret); }
    /* a preconditioner that is the exact inverse needs one step */
    if(si==5&&kind==3&&mode>2) VEXPECT(ret>=0&&ret<=4,"exact-preconditioner","%s %d iterations",T,ret);
    if(si==7&&mode>2&&ncp==0&&nv==1&&nsb[0]*nsb[1]*nsb[2]==1&&(kind==3||strstr(pt,"spectral"))){ VEXPECT(ret>=0&&ret<=4,"exact-preconditioner","%s %d iterations",T,ret); vh_count("exact block preconditioners",1); }
    if(si==6&&mode>2&&kind==1&&nv==1) VEXPECT(ret>=0&&ret<=4,"exact-preconditioner","%s %d iterations",T,ret);
    vh_count(S[si].n,1); vh_case(1,"%s",T); free(xs); }
  ungrid(); }
/* systems without a solution, right hand sides that are not numbers */
static void hard(void)
{ int si=vh_int(0,NS-1); while(si==3) si=vh_int(0,NS-1); int what=vh_int(0,1); if(S[si].iter==0) what=0; grid(what?0:vh_int(0,1)*3,1); ncp=0; if(si==2) vg_par("GridIterators_UMFPACK_version=di"); vg_par("GridIterators_Preconditioner_type=spectral"); double xm,res=0; int st; setv(Bv); setv(X); 
  if(what==0){ singv=vh_int(0,nv-1); } else { int b; for(b=0;b<nb;b++) if(act[b]){ double v=vh_int(0,1)?NAN:INFINITY; G->box[b]->v[Bv->index[nv-1]][G->box[b]->nnodes-1]=v; break; } }
  strcat(T,S[si].n); strcat(T,what?" not a number in the right hand side":" singular"); vh_at("%s",T); fflush(NULL); pid_t p=fork(); if(!p){ freopen("/dev/null","w",stdout); alarm(100); int ret=S[si].f(X,Bv,R,C1,C2,200,1e-8,&res,lop,Preconditioner_I); if(ret<0) _exit(40); double tr=truth(&xm); _exit(tr<=1e-8?41:42); }
  waitpid(p,&st,0); if(WIFSIGNALED(st)) vh_fail("solver-killed","%s signal %d",T,WTERMSIG(st)); else { int e=WEXITSTATUS(st); VEXPECT(e!=42,"unsolvable-called-success","%s",T); VEXPECT(e!=41,"unsolvable-solved?","%s",T); vh_count(e==40?"refused with a code":"run stopped",1); }
  vh_case(1,"%s",T); singv=-1; ungrid(); }
/* direct calls on matrices */
static void direct(void)
{ grid(0,1); double *M=malloc(8L*N*N+8); dense(M,0); tSparseVector **A=AllocateSparseVectorArray(N); int i,j; for(i=0;i<N;i++){ int o=vh_int(0,N-1); for(j=0;j<N;j++){ int q=(j+o)%N; if(M[i*N+q]!=0) AddToSparseVector(A[i],q,M[i*N+q]); } }
  double xm; setv(Bv); setv(X); int ret=umfpack_di_solve_fromAlines(A,X,Bv,0,0); double tr=truth(&xm); VEXPECT(ret==0&&tr<=1e-11*(10*xm+1),"direct-solution","%s umfpack_di_solve_fromAlines %d %g",T,ret,tr);
  long *Lp,*Li; double *Lx,*b=rv(N,1),*x=calloc(N+1,8); int nz=0; for(i=0;i<N;i++) nz+=A[i]->entries; allocate_umfpack_dl_matrix(&Lp,&Li,&Lx,N,nz); set_umfpack_dl_matrix_from_lines(Lp,Li,Lx,A,N,0,0); ret=umfpack_dl_solve_from_Ap_Ai_Ax_x_b(Lp,Li,Lx,x,b,N,0); double w=0; for(i=0;i<N;i++){ double s=-b[i]; for(j=0;j<N;j++) s+=M[i*N+j]*x[j]; if(fabs(s)>w) w=fabs(s); } VEXPECT(ret==0&&w<1e-10,"direct-solution","%s umfpack_dl_solve_from_Ap_Ai_Ax_x_b %d %g",T,ret,w); free_umfpack_dl_matrix(Lp,Li,Lx); free(b); free(x);
  for(i=0;i<9;i++){ char nm[60]; strcpy(nm,S[i].n); VEXPECT(get_linSolver_by_name(nm)==S[i].f||!strcmp(nm,"bicgstab_with_BlockJacobi_precon"),"solver-name","%s",nm); if(i==6) i++; }
  FreeSparseVectorArray(A,N); free(M); vh_count("direct calls",2); ungrid(); }
int main(int argc,char **argv)
{ int part=atoi(argv[1]); vh_init(1900+part); vh_silence(); int i,n;
  if(part<2){ n=vh_n(10,200); for(i=0;i<n;i++){ vh_reseed(190000+part*1000+i); matrices(); } }
  else if(part==2){ n=vh_n(50,800); for(i=0;i<n;i++){ vh_reseed(200000+i); hard(); } for(i=0;i<n/6;i++){ vh_reseed(210000+i); direct(); } }
  else { n=vh_n(30,600); for(i=0;i<n;i++){ vh_reseed(220000+part*10000+i); int si=(i+part)%NS,kind=vh_int(0,3); if(kind==2&&!(S[si].iter==0||si==5)) kind=0; if(si==6&&kind!=1&&vh_int(0,1)) kind=1; if(si==3&&kind==2) kind=2; solve(si,kind); } }
  vh_end(); return 0; }
