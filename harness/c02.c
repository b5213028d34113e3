/* C02: variable data base, tensor components, variable lists against a model */
#include "sgrid.h"
#include "vh.h"
#include <ctype.h>
extern int globalnvariables;

/* ------------------------------------------------ tensor patterns */
static const char *PAT[]={"","i","ij","(ij)","[ij]","ij+ji","ij-ji","ijk","i(jk)","ijk+ikj","(ij)k","ijk+jik","[ij]k","ijk-jik",
 "ijkl","(ij)(kl)","ijkl+ijlk+jikl+jilk","a","ab","ai","(ab)","ab+ba","a(bc)","abc+acb","a(ij)","aij+aji","(ab)c","abc+bac",
 "(ab)i","abi+bai","(ab)(ij)","abij+abji+baij+baji","q","qr","(qr)","qr+rq","(qr)s","qrs+rqs","(qr)(st)","qrst+qrts+rqst+rqts",
 "iq","iqr","i(qr)","iqr+irq"};
#define NPAT ((int)(sizeof PAT/sizeof PAT[0]))
typedef struct { int n; char name[100][8]; int sym[100][3]; int hasq; } comp_t;
static int dimof(char c){ return (c>='q'&&c<='t')?2:(c>='a'&&c<='d')?4:3; }
static const char *cname(char c,int v){ static const char *d3[]={"x","y","z"},*d4[]={"t","x","y","z"},*d2[]={"1","2"}; int d=dimof(c); return d==2?d2[v]:d==4?d4[v]:d3[v]; }
static void expected_components(const char *pat,comp_t *C)
{
  char L[8]; int nl=0,i,j,perm[8][8],sg[8],np=0,idx[8]; const char *s;
  memset(C,0,sizeof *C);
  if(strchr(pat,'+')||(strchr(pat,'-')))
  { const char *t=pat; int sign=1; while(*t){ char w[8]; int n=0; if(*t=='+'){sign=1;t++;} else if(*t=='-'){sign=-1;t++;} while(isalpha(*t)) w[n++]=*t++; 
      if(!nl){ nl=n; memcpy(L,w,n);} else { for(i=0;i<nl;i++) for(j=0;j<nl;j++) if(L[j]==w[i]) perm[np][i]=j; sg[np++]=sign; } } }
  else for(s=pat;*s;s++)
  { if(*s=='('||*s=='['){ for(i=0;i<8;i++) perm[np][i]=i; perm[np][nl]=nl+1; perm[np][nl+1]=nl; sg[np++]= *s=='('?1:-1; }
    else if(isalpha(*s)) L[nl++]=*s; }
  L[nl]=0;
  for(i=0;i<nl;i++){ idx[i]=0; if(dimof(L[i])==2) C->hasq=1; }
  for(;;)
  { /* smallest tuple of its orbit and not forced to vanish? (two rounds generate all products of the commuting swaps used) */
    int ok=1,a,b;
    for(a=-1;a<np;a++) for(b=-1;b<np;b++)
    { int t1[8],t2[8],s1=1,c=0; for(i=0;i<nl;i++) t1[i]= a<0? idx[i]: idx[perm[a][i]]; if(a>=0) s1*=sg[a];
      for(i=0;i<nl;i++) t2[i]= b<0? t1[i]: t1[perm[b][i]]; if(b>=0) s1*=sg[b];
      for(i=0;i<nl&&!c;i++) c=t2[i]-idx[i];
      if(c<0) ok=0; if(c==0&&s1<0) ok=0; }
    if(ok){ int n=C->n++; C->sym[n][0]=C->sym[n][1]=C->sym[n][2]=1;
      for(i=0;i<nl;i++){ int ax; strcat(C->name[n],cname(L[i],idx[i])); ax=dimof(L[i])==4? idx[i]-1: idx[i]; if(dimof(L[i])!=2&&ax>=0) C->sym[n][ax]*=-1; } }
    for(i=nl-1;i>=0;i--){ if(++idx[i]<dimof(L[i])) break; idx[i]=0; }
    if(i<0) break;
  }
}
/* ------------------------------------------------ model */
typedef struct { char name[100],tens[40]; int comp,n,c0,sym[3],hasq,constant; double far_,fall,prop; } mv_t;
static mv_t V[3000]; static int nV;
static int mind(const char *n){ int i; for(i=0;i<nV;i++) if(!strcmp(V[i].name,n)) return i; return -1; }
static void randcase(const char *p,char *o){ while(*p){ *o++= vh_int(0,1)? toupper(*p):*p; p++; } *o=0; }
static int madd(const char *name,const char *pat,int constant)
{ comp_t C; int i,k,c0=nV; expected_components(pat,&C);
  for(i=0;i<C.n;i++){ mv_t *v=&V[nV++]; memset(v,0,sizeof *v); snprintf(v->name,100,"%s%s",name,C.name[i]); v->comp=i; v->n=C.n; v->c0=c0; for(k=0;k<3;k++) v->sym[k]=C.sym[i][k]; v->hasq=C.hasq; v->constant=constant; }
  return c0; }
static int clashes(const char *name,const char *pat)
{ comp_t C; int i; char b[100]; expected_components(pat,&C); for(i=0;i<C.n;i++){ snprintf(b,100,"%s%s",name,C.name[i]); if(mind(b)>=0) return 1; } return 0; }

static void check_vars(const char *when)
{
  int i,k;
  VEXPECT(globalnvariables==nV,"number of variables","%s: %d expected %d",when,globalnvariables,nV);
  if(globalnvariables!=nV) return;
  for(i=0;i<nV;i++)
  {
    mv_t *v=&V[i];
    if(strcmp(VarName(i),v->name)) { vh_fail("variable name","%s: index %d is %s expected %s",when,i,VarName(i),v->name); continue; }
    VEXPECT(Ind(v->name)==i&&IndLax(v->name)==i,"name to index","%s: %s -> %d expected %d",when,v->name,Ind(v->name),i);
    VEXPECT(VarComponent(i)==v->comp,"component number","%s %d",v->name,VarComponent(i));
    VEXPECT(VarNComponents(i)==v->n,"number of components","%s %d expected %d",v->name,VarNComponents(i),v->n);
    VEXPECT(IndComponent0(i)==v->c0,"index of component 0","%s %d expected %d",v->name,IndComponent0(i),v->c0);
    VEXPECT(!strcmp(VarNameComponent0(v->name),V[v->c0].name),"name of component 0","%s",v->name);
    VEXPECT(!strcasecmp(VarTensorIndices(i),v->tens),"tensor indices","%s '%s' expected '%s'",v->name,VarTensorIndices(i),v->tens);
    if(!v->hasq) for(k=0;k<3;k++) VEXPECT(VarSymmetry(i,k)==v->sym[k],"reflection sign","%s (%s) axis %d: %d expected %d",v->name,v->tens,k,VarSymmetry(i,k),v->sym[k]);
    VEXPECT(VarFarLimit(i)==v->far_&&VarFallOff(i)==v->fall&&VarPropSpeed(i)==v->prop,"boundary attributes","%s",v->name);
    VEXPECT(!!VarConstantFlag(i)==v->constant,"constant flag","%s",v->name);
    vh_count("variable attribute checks",1);
  }
}
/* ------------------------------------------------ grid and lists */
static tGrid *G; static double **S[8]; static int nSv; /* shadow S[b][var] or NULL */
static tVarList *L[12]; static int mL[12][4000],mn[12]; static double mt[12]; static int nL;
static void shadow_resize(void){ int b,i; for(b=0;b<G->nboxes;b++){ S[b]=realloc(S[b],sizeof(double*)*(nV+1)); for(i=nSv;i<nV;i++) S[b][i]=NULL; } nSv=nV; }
static void sh_enable(int i){ int b; for(b=0;b<G->nboxes;b++) if(!S[b][i]) S[b][i]=calloc(G->box[b]->nnodes,8); }
static void sh_disable(int i){ int b; for(b=0;b<G->nboxes;b++){ free(S[b][i]); S[b][i]=NULL; } }
static void fill(int i){ int b,k; for(b=0;b<G->nboxes;b++) for(k=0;k<G->box[b]->nnodes;k++) S[b][i][k]=G->box[b]->v[i][k]=vh_range(-3,3); }
static double TOL;
static void check_data(const char *when)
{
  int b,i,k;
  VEXPECT(G->nvariables==nV,"grid variables","%s: grid has room for %d of %d",when,G->nvariables,nV);
  if(G->nvariables!=nV) return;
  for(b=0;b<G->nboxes;b++) for(i=0;i<nV;i++)
  {
    double *p=G->box[b]->v[i];
    if(!!p!=!!S[b][i]) { vh_fail("storage","%s: box %d %s %s",when,b,V[i].name,p?"has storage":"has no storage"); return; }
    if(!p) continue;
    VEXPECT(IndFromPtr(G->box[b],p)==i,"index from pointer","%s",V[i].name);
    for(k=0;k<G->box[b]->nnodes;k++) { double e=S[b][i][k]; if(!(fabs(p[k]-e)<=TOL*(1+fabs(e)))) { vh_fail("values","%s: box %d%s %s point %d is %.17g expected %.17g",when,b,G->box[b]->inactive?" (inactive)":"",V[i].name,k,p[k],e); return; } else S[b][i][k]=p[k]; }
    vh_count("arrays compared",1);
  }
}
static void check_lists(const char *when)
{ int l,i; for(l=0;l<nL;l++){ VEXPECT(L[l]->n==mn[l],"list length","%s: list %d has %d expected %d",when,l,L[l]->n,mn[l]); if(L[l]->n!=mn[l]) continue;
   for(i=0;i<mn[l];i++) if(L[l]->index[i]!=mL[l][i]) { vh_fail("list order","%s: entry %d is %d expected %d",when,i,L[l]->index[i],mL[l][i]); break; }
   VEXPECT(fabs(L[l]->time-mt[l])<=1e-13*(1+fabs(mt[l])),"list time","%s: %.17g expected %.17g",when,L[l]->time,mt[l]);
   VEXPECT(L[l]->grid==G,"list grid","%s",when); vh_count("lists compared",1);} }
static void mpush(int l,int i){ if(mn[l]<4000) mL[l][mn[l]++]=i; }
static void mdrop1(int l,int i){ int k; for(k=0;k<mn[l];k++) if(mL[l][k]==i){ memmove(mL[l]+k,mL[l]+k+1,sizeof(int)*(mn[l]-k-1)); mn[l]--; return; } }
static void newlist(void){ L[nL]=vlalloc(G); mn[nL]=0; mt[nL]=G->time; nL++; }
/* three lists of equal length of distinct random enabled variables; overlap between lists only by complete aliasing */
static int pick(tVarList **r,tVarList **a,tVarList **b,int *ir,int *ia,int *ib)
{
  int n=vh_int(1,4),k,m; int al=vh_int(0,4); int used[3000]; memset(used,0,sizeof used);
  if(nV<12) return 0;
  *r=vlalloc(G); *a=vlalloc(G); *b=vlalloc(G);
  for(k=0;k<n;k++) for(m=0;m<3;m++){ int i; do i=vh_int(0,nV-1); while(used[i]); used[i]=1; (m==0?ir:m==1?ia:ib)[k]=i; }
  if(al==1) memcpy(ia,ir,n*sizeof(int)); if(al==2) memcpy(ib,ir,n*sizeof(int)); if(al==3) memcpy(ib,ia,n*sizeof(int));
  if(al==4){ memcpy(ia,ir,n*sizeof(int)); memcpy(ib,ir,n*sizeof(int)); }
  for(k=0;k<n;k++){ vlpushone(*r,ir[k]); vlpushone(*a,ia[k]); vlpushone(*b,ib[k]); }
  for(k=0;k<n;k++) for(m=0;m<3;m++){ int i=(m==0?ir:m==1?ia:ib)[k]; if(!S[0][i]){ enablevarcomp(G,i); sh_enable(i); fill(i);} }
  (*r)->time=vh_range(-2,2); (*a)->time=vh_range(-2,2); (*b)->time=vh_range(-2,2);
  return n;
}
#define ALLP(stmt) do{ int b_,p_,k_; for(b_=0;b_<G->nboxes;b_++) if(!G->box[b_]->inactive) for(k_=0;k_<n;k_++) for(p_=0;p_<G->box[b_]->nnodes;p_++){ double *R=S[b_][ir[k_]]+p_,*A=S[b_][ia[k_]]+p_,*B=S[b_][ib[k_]]+p_; stmt; } }while(0)
static double coef(void){ switch(vh_int(0,6)){ case 0: return 0; case 1: return 1; case 2: return -1; default: return vh_range(-2,2);} }
static void listop(void)
{
  tVarList *r,*a,*b; int ir[4],ia[4],ib[4],op=vh_int(0,11); int n=pick(&r,&a,&b,ir,ia,ib); double ca,cb,c,ta,tb,tr; char w[100];
  if(!n) return;
  TOL=4e-15; tr=r->time; ta=a->time; tb=b->time; ca=coef(); cb=coef(); c=vh_range(-2,2);
  sprintf(w,"op %d n %d",op,n);
  switch(op){
  case 0: vlsetconstant(r,c); ALLP(*R=c); break;
  case 1: vlcopy(r,a); ALLP(*R=*A); VEXPECT(r->time==ta,"time of copy","%g",r->time); TOL=0; break;
  case 2: if(ir[0]!=ia[0]) { double t; vlswap(r,a); ALLP(t=*R;*R=*A;*A=t); VEXPECT(r->time==ta&&a->time==tr,"times of swap","%g %g",r->time,a->time); TOL=0; } break;
  case 3: vlaverage(r,a,b); ALLP(*R=.5*(*A+*B)); VEXPECT(fabs(r->time-.5*(ta+tb))<1e-14,"time of average","%g",r->time); break;
  case 4: vlsubtract(r,a,b); ALLP(*R=*A-*B); VEXPECT(fabs(r->time-(ta-tb))<1e-14,"time of difference","%g",r->time); break;
  case 5: { int bi,k,nan=vh_int(0,1);
     if(nan && ca==0 && ia[0]!=ir[0] && (cb==0||ia[0]!=ib[0])) for(bi=0;bi<G->nboxes;bi++) for(k=0;k<G->box[bi]->nnodes;k++) S[bi][ia[0]][k]=G->box[bi]->v[ia[0]][k]=INFINITY;
     vladd(r,ca,a,cb,b);
     ALLP(*R= (ca==0?0:ca**A) + (cb==0?0:cb**B)); VEXPECT(fabs(r->time-(ca*ta+cb*tb))<1e-14,"time of combination","%g",r->time);
     for(k=0;k<n;k++) for(bi=0;bi<G->nboxes;bi++) if(!isfinite(S[bi][ia[k]][0])) { fill(ia[k]); break; } } break;
  case 6: vladdto(r,ca,a); ALLP(*R+= ca==0?0:ca**A); VEXPECT(fabs(r->time-(tr+ca*ta))<1e-14,"time of added list","%g",r->time); break;
  case 7: varcopy(G,ir[0],ia[0]); n=1; ALLP(*R=*A); TOL=0; break;
  case 8: if(ir[0]!=ia[0]) { double t; varswap(G,ir[0],ia[0]); n=1; ALLP(t=*R;*R=*A;*A=t); TOL=0; } break;
  case 9: varadd(G,ir[0],ca,ia[0],cb,ib[0]); n=1; ALLP(*R=(ca==0?0:ca**A)+(cb==0?0:cb**B)); break;
  case 10: r->grid=a->grid=NULL; vlcopygrid(G,r,a); ALLP(*R=*A); VEXPECT(r->grid==G&&a->grid==G&&r->time==ta,"grid of copy","-"); TOL=0; break;
  case 11: { tVarList *d=vlduplicate(a); VEXPECT(d->n==a->n&&!memcmp(d->index,a->index,sizeof(int)*a->n)&&d->time==a->time&&d->grid==G&&d->index!=a->index,"duplicate","-"); vlfree(d); } break;
  }
  check_data(w); TOL=0; vh_count("list data operations",1);
  vlfree(r); vlfree(a); vlfree(b);
}
typedef struct { int op; } die_t;
static void die(void *a)
{ switch(*(int*)a){ case 0: AddVar(V[0].name,"","d"); break; case 1: Ind("noSuchVariable"); break; case 2: { int i; for(i=0;i<nV&&V[i].comp==0;i++); vlpush(vlalloc(NULL),i);} break;
   case 3: AddVar("newvar","ijij","d"); break; case 4: VarName(nV); break; case 5: VarName(-1); break; case 6: VarNameSetBoundaryInfo("noSuchVariable",0,0,0); break; } }
static void history(int h)
{
  int b,i,k,nops=vh_int(20,70); char p[64]; int nb=vh_int(1,5);
  free_global_vdb(); nV=0; nL=0; nSv=0;
  vh_at("history %d",h);
  Seti("nboxes",nb); for(b=0;b<nb;b++) for(i=1;i<4;i++){ sprintf(p,"box%d_n%d",b,i); Seti(p,vh_int(1,4)); }
  madd("X","",0); AddVar("X","","d"); madd("Y","",0); AddVar("Y","","d");
  if(vh_int(0,1)) { madd("g","(ij)",0); for(i=nV-6;i<nV;i++) strcpy(V[i].tens,"(ij)"); AddVar("g","(ij)","d"); }
  G=make_empty_grid(globalnvariables,0); G->time=vh_range(-1,1);
  for(b=0;b<nb;b++) G->box[b]->inactive=(vh_int(0,5)==0);
  for(b=0;b<nb;b++) if(!G->box[b]->inactive) break; 
  { int n=0; for(b=0;b<nb;b++) n+=!!G->box[b]->inactive; G->ninactive=n; }
  for(b=0;b<8;b++) S[b]=NULL; shadow_resize(); TOL=0;
  for(k=0;k<nops;k++)
  {
    int op=vh_int(0,13);
    switch(op){
    case 0: case 1: { char nm[40],pt[40]; int q=vh_int(0,NPAT-1),c0,cst=vh_int(0,3)==0; if(nV>1500) break;
       { static const char *base[]={"g","K","phi","A","beta","gx","x"}; sprintf(nm,"%s%s",base[vh_int(0,6)],vh_int(0,1)?"":"_"); if(vh_int(0,2)) sprintf(nm+strlen(nm),"%d",vh_int(0,99)); }
       if(clashes(nm,PAT[q])) break;
       randcase(PAT[q],pt); c0=madd(nm,PAT[q],cst); for(i=c0;i<nV;i++) strcpy(V[i].tens,pt);
       if(cst) { AddConstantVar(nm,pt,"d"); realloc_gridvariables(G,globalnvariables); } else AddVarToGrid(G,nm,pt,"descr"); shadow_resize();
       vh_count("variables declared",1); check_vars(PAT[q]); } break;
    case 2: { int j=vh_int(0,nV-1); double f=vh_range(-1,1),g=vh_range(0,3),q=vh_range(0,2); VarNameSetBoundaryInfo(V[j].name,f,g,q); V[j].far_=f; V[j].fall=g; V[j].prop=q; } break;
    case 3: { int j=vh_int(0,nV-1); VarNameSetConstantFlag(V[j].name); for(i=0;i<V[V[j].c0].n;i++) V[V[j].c0+i].constant=1; } break;
    case 4: Set_vdb_iStart_AtPar(V[vh_int(0,nV-1)].name); break;
    case 5: { /* duplicate of a list of complete variables */
       char post[20]; tVarList *v=vlalloc(G),*d; int nv=vh_int(1,3); int en=vh_int(0,1); int idx[400],nn=0,q; sprintf(post,"_%c%d","pqr"[vh_int(0,2)],vh_int(0,3));
       if(nV>1500) { vlfree(v); break; }
       for(i=0;i<nv;i++){ int c=V[vh_int(0,nV-1)].c0; for(q=0;q<nn;q++) if(idx[q]==c) break; if(q<nn) continue; vlpush(v,c); for(q=0;q<V[c].n;q++) idx[nn++]=c+q; }
       v->time=vh_range(-1,1);
       d= en? AddDuplicateEnable(v,post): AddDuplicate(v,post);
       VEXPECT(d->n==nn&&d->time==v->time&&d->grid==G,"duplicate variables","list of %d expected %d",d->n,nn);
       for(q=0;q<nn;q++){ char nm[120]; int j; snprintf(nm,100,"%s%s",V[idx[q]].name,post); j=mind(nm);
         if(j<0){ j=nV++; V[j]=V[idx[q]]; strcpy(V[j].name,nm); V[j].c0=j-V[j].comp; }
         if(q<d->n) VEXPECT(d->index[q]==j,"duplicate index","%s is %d expected %d",nm,d->index[q],j); idx[q]=j; }
       shadow_resize(); if(en) for(q=0;q<nn;q++) sh_enable(idx[q]);
       vlfree(v); vlfree(d); check_vars("after duplicate"); check_data("after duplicate"); vh_count("variables duplicated",1); } break;
    case 6: { int j=V[vh_int(0,nV-1)].c0; enablevar(G,j); for(i=0;i<V[j].n;i++){ int was=!!S[0][j+i]; sh_enable(j+i); if(!was) fill(j+i);} } break;
    case 7: { int j=V[vh_int(0,nV-1)].c0; disablevar(G,j); for(i=0;i<V[j].n;i++) sh_disable(j+i); } break;
    case 8: if(nL<12) newlist(); if(nL) { int l=vh_int(0,nL-1),m; int j;
       for(m=vh_int(1,6);m--;) switch(vh_int(0,6)){
        case 0: j=vh_int(0,nV-1); vlpushone(L[l],j); mpush(l,j); break;
        case 1: j=V[vh_int(0,nV-1)].c0; vlpush(L[l],j); for(i=0;i<V[j].n;i++) mpush(l,j+i); break;
        case 2: { int l2=vh_int(0,nL-1),n2=mn[l2]; if(mn[l]+n2<1500){ vlpushvl(L[l],L[l2]); for(i=0;i<n2;i++) mpush(l,mL[l2][i]); } } break;
        case 3: if(mn[l]) { j=mL[l][vh_int(0,mn[l]-1)]; vldropone(L[l],j); mdrop1(l,j);} break;
        case 4: j=vh_int(0,nV-1); j=V[j].c0; if(mn[l]&&vh_int(0,1)) j=V[mL[l][vh_int(0,mn[l]-1)]].c0; vldrop(L[l],j); for(i=0;i<V[j].n;i++) mdrop1(l,j+i); break;
        case 5: { int n=vh_int(-1,mn[l]+1); vldropn(L[l],n); if(n>0) mn[l]= n>=mn[l]?0: mn[l]-n; } break;
        case 6: vlpushvl(L[l],NULL); vlpushvl(NULL,L[l]); break; }
       check_lists("after list edit"); vh_count("list edits",1); } break;
    case 9: if(nL){ int l=vh_int(0,nL-1); if(vh_int(0,1)) { if(vh_int(0,1)) vlenable(L[l]); else enablevarlist(L[l]); for(i=0;i<mn[l];i++) sh_enable(mL[l][i]); }
            else { vldisable(L[l]); for(i=0;i<mn[l];i++) sh_disable(mL[l][i]); } check_data("after enabling a list"); } break;
    default: listop(); break;
    }
  }
  check_vars("end"); check_data("end"); check_lists("end");
  VEXPECT(IndLax("noSuchVariable")==-1,"phantom variable","-");
  { double x; VEXPECT(IndFromPtr(G->box[0],&x)==-1,"index from foreign pointer","-"); }
  if(h%40==0){ int a=vh_int(0,6),st; for(i=0;i<nV&&V[i].comp==0;i++); if(a!=2||i<nV){ st=vh_fork(die,&a); VEXPECT(WIFEXITED(st)&&WEXITSTATUS(st)!=0&&WEXITSTATUS(st)!=99,"misuse not reported","op %d status %d",a,st); vh_count("errors reported",1);} }
  vh_case(nV>10,"history %d: %d boxes, %d variables, %d lists, %d ops, first box %d points",h,nb,nV,nL,nops,G->box[0]->nnodes);
  for(k=0;k<nL;k++) vlfree(L[k]);
  for(b=0;b<nb;b++){ for(i=0;i<nSv;i++) free(S[b][i]); free(S[b]); }
  free_grid(G);
}
int main(int argc,char **argv)
{
  int i,part=atoi(argv[1]),b;
  vh_init(200+part); vh_silence();
  AddPar("nboxes","1","d"); AddPar("dt","0.1","d"); AddPar("storage_verbose","no","d");
  for(b=0;b<8;b++) for(i=1;i<4;i++){ char p[64]; sprintf(p,"box%d_n%d",b,i); AddPar(p,"2","d"); }
  if(part==0) for(i=0;i<NPAT;i++) { /* every pattern alone */
    free_global_vdb(); nV=0; vh_at("pattern %s",PAT[i]); madd("T",PAT[i],0); for(b=0;b<nV;b++) strcpy(V[b].tens,PAT[i]); AddVar("T",(char*)PAT[i],"d"); check_vars(PAT[i]); vh_case(1,"pattern %s",PAT[i]); }
  for(i=0;i<vh_n(150,3000);i++) history(i*8+part);
  free_global_vdb(); free_global_parameter_database();
  vh_end(); return 0;
}
