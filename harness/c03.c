/* C03: storage, grid copies, point lists, integer lists, faces against a model */
#include "vgrid.h"
size_t __sanitizer_get_current_allocated_bytes(void); size_t __sanitizer_get_allocated_size(const volatile void *);
extern int globalnvariables; extern int nenabled;
#define NB 5
#define NVMAX 60
/* the model owns static memory only, so that leaks of the code are visible as a change of the heap size */
typedef struct { tGrid *g; int n[NB]; char on[NB][NVMAX]; double v[NB][NVMAX][64]; int inact[NB]; int nv; } mg_t;
static mg_t MG[3]; static int nMG; static int nb;

static void check_grid(mg_t *m,const char *when)
{
  int b,i,k,na=0,tot=0;
  for(b=0;b<nb;b++)
  {
    tBox *box=m->g->box[b];
    VEXPECT(box->nnodes==m->n[b]&&box->n1*box->n2*box->n3==box->nnodes,"box size","%s %d",when,box->nnodes);
    VEXPECT(box->b==b&&box->grid==m->g,"box links","%s",when);
    for(k=0;k<box->nnodes;k++) VEXPECT(box->node[k].i==k,"node index","%s %d",when,k);
    VEXPECT(!!box->inactive==m->inact[b],"active flag","%s box %d",when,b); if(!m->inact[b]) { VEXPECT(IndexOf_ith_ActiveBox(m->g,na)==b,"ith active box","%s",when); na++; }
    for(i=0;i<m->nv;i++)
    {
      double *p=box->v[i];
      if(!!p!=m->on[b][i]) { vh_fail("storage present","%s: box %d var %d %s",when,b,i,p?"has storage":"has none"); continue; }
      if(!p) continue;
      tot++;
      for(k=0;k<box->nnodes;k++) if(memcmp(p+k,&m->v[b][i][k],8)) { vh_fail("contents","%s: box %d var %d point %d is %g expected %g",when,b,i,k,p[k],m->v[b][i][k]); break; }
      VEXPECT(__sanitizer_get_allocated_size(p)==8*(size_t)box->nnodes,"array size","%s %d bytes for %d points",when,(int)__sanitizer_get_allocated_size(p),box->nnodes);
      vh_count("arrays compared",1);
    }
  }
  VEXPECT(activeboxes(m->g)==na&&m->g->ninactive==nb-na,"number of active boxes","%s %d expected %d",when,activeboxes(m->g),na);
  VEXPECT(IndexOf_ith_ActiveBox(m->g,na)==-1&&IndexOf_ith_ActiveBox(m->g,-1)==-1,"ith active box","%s beyond the end",when);
}
static void check_grids(const char *when){ int i; for(i=0;i<nMG;i++) check_grid(&MG[i],when);
  { int t=0,b,k; for(i=0;i<nMG;i++) for(b=0;b<nb;b++) for(k=0;k<MG[i].nv;k++) t+=MG[i].on[b][k]; VEXPECT(nenabled==t,"number of arrays in use","%s %d expected %d",when,nenabled,t);} }
static void men(mg_t *m,int b,int i){ if(!m->on[b][i]){ m->on[b][i]=1; memset(m->v[b][i],0,sizeof m->v[b][i]); } }
static void write_some(mg_t *m)
{ int b=vh_int(0,nb-1),i=vh_int(0,m->nv-1),k; if(!m->on[b][i]) return; for(k=0;k<m->n[b];k++) m->g->box[b]->v[i][k]=m->v[b][i][k]=vh_range(-2,2); }
static mg_t *newgrid(int nv){ mg_t *m=&MG[nMG++]; int b; memset(m,0,sizeof *m); m->g=make_empty_grid(nv,0); m->nv=nv; for(b=0;b<nb;b++) m->n[b]=m->g->box[b]->nnodes; return m; }

/* ---------------------------------------- integer lists */
static int il[4][600],iln[4]; static intList *IL[4];
static int propf(int v,void *p){ return v> *(int*)p; }
static void ildrop(int a,int v){ int k; for(k=0;k<iln[a];k++) if(il[a][k]==v){ memmove(il[a]+k,il[a]+k+1,sizeof(int)*(iln[a]-k-1)); iln[a]--; return; } }
static int ilin(int a,int v){ int k; for(k=0;k<iln[a];k++) if(il[a][k]==v) return k; return -1; }
static void intlists(void)
{
  int i,k,n=vh_int(10,60); for(i=0;i<4;i++){ IL[i]=alloc_intList(); iln[i]=0; }
  for(k=0;k<n;k++)
  {
    int a=vh_int(0,3),b=vh_int(0,3),v=vh_int(-3,8);
    switch(vh_int(0,9)){
    case 0: case 1: push_intList(IL[a],v); il[a][iln[a]++]=v; break;
    case 2: if(iln[a]+iln[b]<500){ int m=iln[b]; pushlist_intList(IL[a],IL[b]); for(i=0;i<m;i++) il[a][iln[a]++]=il[b][i]; } break;
    case 3: unionpush_intList(IL[a],v); if(ilin(a,v)<0) il[a][iln[a]++]=v; break;
    case 4: unionpushlist_intList(IL[a],IL[b]); for(i=0;i<iln[b];i++) if(ilin(a,il[b][i])<0) il[a][iln[a]++]=il[b][i]; break;
    case 5: { int q=vh_int(-1,iln[a]); dropindex_intList(IL[a],q); if(q>=0&&q<iln[a]){ memmove(il[a]+q,il[a]+q+1,sizeof(int)*(iln[a]-q-1)); iln[a]--; } } break;
    case 6: drop_intList(IL[a],v); ildrop(a,v); break;
    case 7: { int q=vh_int(-1,iln[a]+1); droplastn_intList(IL[a],q); if(q>0) iln[a]= q>=iln[a]?0:iln[a]-q; } break;
    case 8: if(a!=b){ droplist_intList(IL[a],IL[b]); for(i=0;i<iln[b];i++) ildrop(a,il[b][i]); } break;
    case 9: if(vh_int(0,3)==0){ clear_intList(IL[a]); iln[a]=0; } else { intList *d=duplicate_intList(IL[a]); VEXPECT(d->n==IL[a]->n&&(d->n==0||(d->e!=IL[a]->e&&!memcmp(d->e,IL[a]->e,sizeof(int)*d->n))),"integer list duplicate","-"); push_intList(d,5); free_intList(d);} break; }
    for(a=0;a<4;a++){ int i0=vh_int(-1,3),e=-1; 
      if(IL[a]->n!=iln[a]||(iln[a]&&memcmp(IL[a]->e,il[a],sizeof(int)*iln[a]))) { vh_fail("integer list contents","after %d edits",k); IL[a]->n=0; iln[a]=0; }
      v=vh_int(-4,9); VEXPECT(in_intList(IL[a],v)==(ilin(a,v)>=0)&&index_intList(IL[a],v)==ilin(a,v),"integer list query","%d",v);
      for(i=i0<0?0:i0;i<iln[a];i++) if(il[a][i]>v) { e=i; break; }
      VEXPECT(index_prop_intList(IL[a],i0,propf,&v)==e,"integer list search","%d",v); }
    vh_count("integer list edits",1);
  }
  for(i=0;i<4;i++) free_intList(IL[i]);
}
/* ---------------------------------------- point lists */
static int pl[NB][300],pln[NB],hadpt[NB];
static void check_pl(tPointList *P,tGrid *g,const char *when,int dropped)
{
  int b,pi,ijk,i,seen=0;
  for(b=0;b<nb;b++) { if(P->npoints[b]!=pln[b]) { vh_fail("point list length","%s: box %d has %d expected %d",when,b,P->npoints[b],pln[b]); return; }
    for(i=0;i<pln[b];i++) if(P->point[b][i]!=pl[b][i]) { vh_fail("point list order","%s: box %d entry %d is %d expected %d",when,b,i,P->point[b][i],pl[b][i]); return; }
    { tBox *box=g->box[b]; int c=0; forPointList_inbox(P,box,pi,ijk) { if(c>=pln[b]||ijk!=pl[b][c]) { vh_fail("loop over point list","%s: box %d entry %d is %d",when,b,c,ijk); break; } c++; }
      VEXPECT(c==pln[b],"loop over point list","%s: box %d: %d points expected %d",when,b,c,pln[b]); }
  }
  { int c=0,lastb=-1; forPointList(P,b,pi,ijk){ if(b<lastb||pi>=pln[b]||ijk!=pl[b][pi]) { vh_fail("loop over all point lists","%s box %d",when,b); break; } lastb=b; c++; }
    for(b=0;b<nb;b++) if(!g->box[b]->inactive) c-=pln[b]; VEXPECT(c==0,"loop over all point lists","%s: %d points off",when,c); }
  VEXPECT(P->grid==g,"point list grid","%s",when);
  for(i=0;i<P->nblist;i++){ int q=P->blist[i]; VEXPECT(q>=0&&q<nb&&hadpt[q]&&!((seen>>q)&1),"box list of point list","%s: entry %d is %d",when,i,q); seen|=1<<q; }
  for(b=0;b<nb;b++) if(pln[b]) VEXPECT((seen>>b)&1,"box list of point list","%s: box %d missing",when,b);
  vh_count("point lists compared",1);
}
static void pointlists(tGrid *g,tGrid *g2)
{
  tPointList *P=AllocatePointList(g),*Q; int k,n=vh_int(0,60),b,i,dropped=0; memset(pln,0,sizeof pln); memset(hadpt,0,sizeof hadpt);
  for(k=0;k<n;k++)
  {
    b=vh_int(0,nb-1);
    switch(vh_int(0,7)){
    default: if(pln[b]<250){ int p=vh_int(0,g->box[b]->nnodes-1); AddToPointList(P,b,p); pl[b][pln[b]++]=p; hadpt[b]=1; } break;
    case 5: { int p=vh_int(0,g->box[b]->nnodes); DropFromPointList(P,b,p); for(i=0;i<pln[b];i++) if(pl[b][i]==p){ memmove(pl[b]+i,pl[b]+i+1,sizeof(int)*(pln[b]-i-1)); pln[b]--; break; } dropped=1; } break;
    case 6: { intList *d=alloc_intList(); int q,m=vh_int(0,5); for(q=0;q<m;q++){ int p=vh_int(0,g->box[b]->nnodes-1); push_intList(d,p); for(i=0;i<pln[b];i++) if(pl[b][i]==p){ memmove(pl[b]+i,pl[b]+i+1,sizeof(int)*(pln[b]-i-1)); pln[b]--; break; } }
              DropListFromPointList(P,b,d); free_intList(d); dropped=1; } break; }
    if(k%7==0) check_pl(P,g,"during",dropped);
  }
  check_pl(P,g,"end",dropped);
  Q=DuplicatePointList(P); check_pl(Q,g,"duplicate",dropped);
  { tPointList *R=DuplicatePointList_for_grid(P,g2); check_pl(R,g2,"duplicate for other grid",dropped); FreePointList(R); }
  /* independence: change the original, the duplicate stays */
  for(b=0;b<nb;b++) { if(P->npoints[b]) P->point[b][0]+=1000; AddToPointList(P,b,3); }
  check_pl(Q,g,"duplicate after changing the original",dropped);
  VEXPECT(DuplicatePointList(NULL)==NULL,"duplicate of nothing","-");
  FreePointList(P);
  check_pl(Q,g,"duplicate after freeing the original",dropped);
  FreePointList(Q);
}
/* ---------------------------------------- faces */
typedef struct { int f,np,pt[64]; int ob,ofi,oXi; unsigned touch,sameX,setn,outer; } mf_t;
static mf_t MF[NB][40]; static int nMF[NB];
static void check_faces(tGrid *g,const char *when)
{
  int b,fi,i; tBox *box;
  for(b=0;b<nb;b++)
  {
    box=g->box[b];
    if(box->nbfaces!=nMF[b]) { vh_fail("number of faces","%s: box %d has %d expected %d",when,b,box->nbfaces,nMF[b]); continue; }
    forallbfaces(box,fi)
    { tBface *F=box->bface[fi]; mf_t *m=&MF[b][fi];
      VEXPECT(F->grid==g&&F->b==b&&F->fi==fi,"face links","%s: box %d face %d (b=%d fi=%d)",when,b,fi,F->b,F->fi);
      VEXPECT(F->f==m->f&&F->ob==m->ob&&F->ofi==m->ofi&&F->oXi==m->oXi&&F->touch==m->touch&&F->sameX==m->sameX&&F->setnormalderiv==m->setn&&F->outerbound==m->outer,"face description","%s: box %d face %d f=%d expected %d",when,b,fi,F->f,m->f);
      if(m->np==0) { VEXPECT(F->fpts==NULL,"face points","%s: empty face has points",when); continue; }
      if(!F->fpts) { vh_fail("face points","%s: no points",when); continue; }
      VEXPECT(F->fpts->grid==g,"face point list grid","%s",when);
      if(F->fpts->npoints[b]!=m->np) { vh_fail("face points","%s: box %d face %d has %d points expected %d",when,b,fi,F->fpts->npoints[b],m->np); continue; }
      for(i=0;i<m->np;i++) VEXPECT(F->fpts->point[b][i]==m->pt[i],"face points","%s: point %d",when,i);
      vh_count("faces compared",1); } } 
}
static void faces(tGrid *g)
{
  int k,n=vh_int(0,50),b,fi; tBox *box; memset(nMF,0,sizeof nMF);
  for(k=0;k<n;k++)
  {
    b=vh_int(0,nb-1); box=g->box[b];
    switch(vh_int(0,8)){
    case 0: if(nMF[b]<38){ int f=vh_int(0,5); mf_t *m; fi=add_empty_bface(box,f); VEXPECT(fi==nMF[b],"new face index","%d",fi); m=&MF[b][nMF[b]++]; memset(m,0,sizeof *m); m->f=f; m->ob=m->ofi=m->oXi=-1; } break;
    case 1: case 2: case 3: if(nMF[b]<38){ int f=vh_int(0,5),p=vh_int(0,box->nnodes-1),q=vh_int(-1,nMF[b]); mf_t *m; 
       if(q>=0&&q<nMF[b]&&MF[b][q].np>=60) break;
       fi=add_point_to_bface_inbox(box,q,p,f);
       if(q<0||q>=nMF[b]){ q=nMF[b]++; m=&MF[b][q]; memset(m,0,sizeof *m); m->f=f; m->ob=m->ofi=m->oXi=-1; }
       m=&MF[b][q]; VEXPECT(fi==q,"index of face","%d expected %d",fi,q); m->pt[m->np++]=p; if(m->f!=f) m->f=-1; } break;
    case 4: if(nMF[b]){ int q=vh_int(0,nMF[b]-1); tBface *F=box->bface[q]; mf_t *m=&MF[b][q]; m->ob=F->ob=vh_int(-1,nb-1); m->ofi=F->ofi=vh_int(-3,5); m->oXi=F->oXi=vh_int(-1,5); m->touch=F->touch=vh_int(0,1); m->sameX=F->sameX=vh_int(0,1); m->setn=F->setnormalderiv=vh_int(0,1); m->outer=F->outerbound=vh_int(0,1); } break;
    case 5: { int q=vh_int(-1,nMF[b]),r; r=remove_bface(box,q); VEXPECT(r==(q>=0&&q<nMF[b]),"face removal","%d",r); if(q>=0&&q<nMF[b]){ memmove(&MF[b][q],&MF[b][q+1],sizeof(mf_t)*(nMF[b]-q-1)); nMF[b]--; } } break;
    case 6: { int r=remove_bfaces_with_NULL_fpts(box),e=0,q; for(q=0;q<nMF[b];q++) if(MF[b][q].np==0){ memmove(&MF[b][q],&MF[b][q+1],sizeof(mf_t)*(nMF[b]-q-1)); nMF[b]--; q--; e++; } VEXPECT(r==e,"removal of empty faces","%d expected %d",r,e); } break;
    case 7: if(vh_int(0,5)==0){ free_all_bfaces(box); nMF[b]=0; } break;
    case 8: { intList *l=alloc_intList(); int q,e[40],ne=0; push_intList(l,b); e[ne++]=b; for(q=0;q<nMF[b];q++){ int o=MF[b][q].ob,z; if(o<0) continue; for(z=0;z<ne;z++) if(e[z]==o) break; if(z==ne) e[ne++]=o; }
              bladd_neighbors(box,l); VEXPECT(l->n==ne&&!memcmp(l->e,e,sizeof(int)*ne),"list of neighbours","%d expected %d",l->n,ne); clear_intList(l);
              { int d1=0,d2=0,q2,bb; for(q=0;q<nMF[b];q++) if(MF[b][q].ob>=0) d1|=1<<MF[b][q].ob; for(bb=0;bb<nb;bb++) if(d1>>bb&1) for(q2=0;q2<nMF[bb];q2++) if(MF[bb][q2].ob>=0) d2|=1<<MF[bb][q2].ob; d2&=~d1; d2&=~(1<<b);
                bladd_neighbors_of_neighbors(box,l); q2=0; for(q=0;q<l->n;q++) q2|=1<<l->e[q]; VEXPECT(q2==d2,"next nearest neighbours","%x expected %x",q2,d2); }
              free_intList(l); vh_count("neighbour queries",1); } break; }
    if(k%9==0) check_faces(g,"during");
  }
  check_faces(g,"end");
}
static void boxlists(tGrid *g)
{
  int b,a=vh_int(0,NATTRIBS-1),v=vh_int(0,2),e[4][NB],ne[4]={0,0,0,0},i; intList *l[4]; intList *s=alloc_intList();
  for(b=0;b<nb;b++) for(i=0;i<NATTRIBS;i++) g->box[b]->Attrib[i]=vh_int(0,2);
  for(i=0;i<4;i++) l[i]=alloc_intList();
  for(b=nb-1;b>=0;b--) if(vh_int(0,1)) { push_intList(s,b); if(g->box[b]->Attrib[a]==v) e[2][ne[2]++]=b; else e[3][ne[3]++]=b; }
  for(b=0;b<nb;b++) if(!g->box[b]->inactive){ if(g->box[b]->Attrib[a]==v) e[0][ne[0]++]=b; else e[1][ne[1]++]=b; }
  i=bladd_ifAttrib(g,a,v,l[0]); VEXPECT(i==ne[0],"box list","%d",i); bladd_ifnotAttrib(g,a,v,l[1]); bl2_ifAttrib(g,s,a,v,l[2]); bl2_ifnotAttrib(g,s,a,v,l[3]);
  for(i=0;i<4;i++){ VEXPECT(l[i]->n==ne[i]&&(ne[i]==0||!memcmp(l[i]->e,e[i],sizeof(int)*ne[i])),"box list","kind %d: %d expected %d",i,l[i]->n,ne[i]); free_intList(l[i]); }
  free_intList(s);
}
static void mcopy(mg_t *d,mg_t *s,int data)
{ int b,i,k; for(b=0;b<nb;b++){ d->inact[b]=s->inact[b]; if(data) for(i=0;i<s->nv;i++) if(s->on[b][i]) { men(d,b,i); if(!s->inact[b]) memcpy(d->v[b][i],s->v[b][i],sizeof s->v[b][i]);
    else { /* boxes switched off are not specified: take what is there */ for(k=0;k<d->n[b];k++) d->v[b][i][k]=d->g->box[b]->v[i][k]; } } } }
static void history(int h)
{
  int b,i,k,nops=vh_int(10,60); char p[64]; size_t m0,m1; mg_t *m;
  nb=vh_int(1,NB); vh_at("history %d",h);
  Seti("nboxes",nb); for(b=0;b<nb;b++) for(i=1;i<4;i++){ sprintf(p,"box%d_n%d",b,i); Seti(p,vh_int(1,4)); }
  free_global_vdb(); AddVar("X","","d"); AddVar("g","(ij)","d"); AddVar("b","i","d"); AddVar("K","","d"); AddVar("A","ab","d");
  nMG=0; m0=__sanitizer_get_current_allocated_bytes();
  newgrid(globalnvariables);
  for(k=0;k<nops;k++)
  {
    int g=vh_int(0,nMG-1); m=&MG[g]; i=vh_int(0,m->nv-1); b=vh_int(0,nb-1);
    switch(vh_int(0,19)){
    case 0: enablevarcomp_inbox(m->g->box[b],i); men(m,b,i); break;
    case 1: disablevarcomp_inbox(m->g->box[b],i); m->on[b][i]=0; break;
    case 2: i=IndComponent0(i); enablevar(m->g,i); for(b=0;b<nb;b++){ int q; for(q=0;q<VarNComponents(i);q++) men(m,b,i+q);} break;
    case 3: i=IndComponent0(i); disablevar(m->g,i); for(b=0;b<nb;b++){ int q; for(q=0;q<VarNComponents(i);q++) m->on[b][i+q]=0;} break;
    case 4: i=IndComponent0(i); enablevar_inbox(m->g->box[b],i); { int q; for(q=0;q<VarNComponents(i);q++) men(m,b,i+q);} break;
    case 5: i=IndComponent0(i); disablevar_inbox(m->g->box[b],i); { int q; for(q=0;q<VarNComponents(i);q++) m->on[b][i+q]=0;} break;
    case 6: enablevarcomp(m->g,i); for(b=0;b<nb;b++) men(m,b,i); break;
    case 7: disablevarcomp(m->g,i); for(b=0;b<nb;b++) m->on[b][i]=0; break;
    case 8: case 9: case 10: write_some(m); write_some(m); break;
    case 11: if(nMG<3) newgrid(MG[0].nv); break;
    case 12: if(nMG>1){ mg_t *s=&MG[vh_int(0,nMG-1)],*d=&MG[vh_int(0,nMG-1)]; if(s!=d){ copy_grid(s->g,d->g,0); mcopy(d,s,1); vh_count("grid copies",1);
         VEXPECT(d->g->time==s->g->time&&d->g->iteration==s->g->iteration&&d->g->dt==s->g->dt,"time of copied grid","-"); } } break;
    case 13: if(nMG>1){ mg_t *s=&MG[vh_int(0,nMG-1)],*d=&MG[vh_int(0,nMG-1)]; if(s!=d){ copy_grid_withoutvars(s->g,d->g,0); mcopy(d,s,0); } } break;
    case 14: if(nMG>1){ mg_t *s=&MG[vh_int(0,nMG-1)],*d=&MG[vh_int(0,nMG-1)]; if(s!=d){ copy_gridvar(i,s->g,d->g); for(b=0;b<nb;b++) if(!d->inact[b]&&s->on[b][i]&&d->on[b][i]) memcpy(d->v[b][i],s->v[b][i],sizeof d->v[b][i]); } } break;
    case 15: if(nMG>1){ mg_t *s=&MG[vh_int(0,nMG-1)],*d=&MG[vh_int(0,nMG-1)]; enablesamevars(s->g,d->g); for(b=0;b<nb;b++) for(i=0;i<s->nv;i++) if(s->on[b][i]) men(d,b,i); } break;
    case 16: { intList *l=alloc_intList(); int fl=vh_int(0,1),q; for(q=vh_int(0,3);q--;) push_intList(l,vh_int(0,nb-1)); for(q=0;q<l->n;q++) m->inact[l->e[q]]=fl; if(fl) deactivate_boxes(m->g,l); else activate_boxes(m->g,l); free_intList(l);
              if(vh_int(0,5)==0){ deactivate_allboxes(m->g); for(b=0;b<nb;b++) m->inact[b]=1; } if(vh_int(0,2)==0){ activate_allboxes(m->g); for(b=0;b<nb;b++) m->inact[b]=0; } } break;
    case 17: if(m->nv<NVMAX-3){ int q,n0=m->nv,add=vh_int(1,3); for(q=0;q<nMG;q++) if(MG[q].nv!=n0) break; if(q==nMG) for(q=0;q<nMG;q++){ realloc_gridvariables(MG[q].g,n0+add); MG[q].nv=n0+add; } 
              while(globalnvariables<m->nv){ char nm[20]; sprintf(nm,"v%d",globalnvariables); free(strdup("")); AddVar(nm,"","d"); } } break;
    case 18: if(nMG>1){ /* a view of another grid, the way the multigrid-like code uses it */ tGrid *t=make_empty_grid(m->nv,0); int z;
         copy_grid_withoutvars(m->g,t,0); point_grid_tosamevars(m->g,t,0);
         for(b=0;b<nb;b++) if(!m->inact[b]) for(z=0;z<m->nv;z++) VEXPECT(t->box[b]->v[z]==m->g->box[b]->v[z],"view of grid","-");
         set_gridvars_toNULL(t,0); free_grid(t); } break;
    case 19: if(nMG>1){ int q,keep=0; for(q=1;q<=0;q++) keep=1; (void)keep; free_grid(MG[nMG-1].g); nMG--; } break;
    }
    check_grids("after an operation");
  }
  if(nMG==1) newgrid(MG[0].nv);
  intlists(); pointlists(MG[0].g,MG[1].g); faces(MG[0].g); boxlists(MG[0].g);
  { int q; copy_grid(MG[0].g,MG[1].g,0); mcopy(&MG[1],&MG[0],1); check_grids("after copying a grid with faces"); check_faces(MG[1].g,"copied grid"); 
    for(b=0;b<nb;b++) for(i=0;i<NATTRIBS;i++) VEXPECT(MG[0].g->box[b]->Attrib[i]==MG[1].g->box[b]->Attrib[i],"attributes of copied grid","-");
    for(q=0;q<6;q++){ write_some(&MG[0]); write_some(&MG[1]); } check_grids("after changing the copy and the original");
    for(b=0;b<nb;b++) { int fi; for(fi=0;fi<MG[0].g->box[b]->nbfaces;fi++) if(MG[0].g->box[b]->bface[fi]->fpts) { VEXPECT(MG[0].g->box[b]->bface[fi]->fpts!=MG[1].g->box[b]->bface[fi]->fpts,"face shared between grids","-"); } free_all_bfaces(MG[0].g->box[b]); }
    check_faces(MG[1].g,"copied grid after freeing the faces of the original"); }
  { int order=vh_int(0,1); if(order) for(k=0;k<nMG;k++) free_grid(MG[k].g); else for(k=nMG-1;k>=0;k--) free_grid(MG[k].g); }
  VEXPECT(nenabled==0,"arrays left after freeing","%d",nenabled);
  free_global_vdb(); nenabled=0; 
  { /* the data base itself was allocated before m0: recreate to compare */
    AddVar("X","","d"); AddVar("g","(ij)","d"); AddVar("b","i","d"); AddVar("K","","d"); AddVar("A","ab","d");
    m1=__sanitizer_get_current_allocated_bytes(); }
  VEXPECT(m1==m0,"memory leaked","%ld bytes more after freeing everything than before",(long)(m1-m0));
  vh_case(nb>1,"history %d: %d boxes, %d ops, %d grids, %d faces in box 0",h,nb,nops,nMG,nMF[0]);
}
/* ---------------------------------------- whole real grids */
static const char *rb(int n){ return n==1? "fd2_periodic": VG_BASES[vh_int(0,4)]; }
static void realgrid(int h,int warm)
{
  int b,i,k; tGrid *g,*c; size_t m0,m1; double bb[6]; int mats=0; 
  vh_at("real grid %d",h); vg_reset(); nb=vh_int(1,4); vg_par("nboxes=%d",nb);
  for(b=0;b<nb;b++){ int n[3]; for(i=0;i<3;i++){ n[i]=vh_int(3,7); bb[2*i]=i==0?b:vh_range(-1,0); bb[2*i+1]=i==0?b+1:vh_range(.5,2); } vg_box(b,n[0],n[1],n[2],rb(n[0]),rb(n[1]),rb(n[2]),bb); vg_par("box%d_Coordinates=Cartesian",b); }
  vg_par("Coordinates_set_bfaces=%s",vh_int(0,1)?"yes":"no");
  m0=__sanitizer_get_current_allocated_bytes();
  g=vg_make(1); c=make_empty_grid(g->nvariables,0); 
  g->time=vh_u(); g->iteration=vh_int(0,1000);
  copy_grid(g,c,0);
  VEXPECT(c->time==g->time&&c->iteration==g->iteration&&c->dt==g->dt&&c->nboxes==g->nboxes&&c->nvariables==g->nvariables,"copied grid header","-");
  for(b=0;b<nb;b++)
  { tBox *p=g->box[b],*q=c->box[b]; int N[3]={p->n1,p->n2,p->n3};
    double **P[]={&p->D1,&p->D2,&p->D3,&p->DD1,&p->DD2,&p->DD3,&p->F1,&p->F2,&p->F3,&p->Mcoeffs1,&p->Mcoeffs2,&p->Mcoeffs3,&p->Meval1,&p->Meval2,&p->Meval3,&p->Int1,&p->Int2,&p->Int3};
    double **Q[]={&q->D1,&q->D2,&q->D3,&q->DD1,&q->DD2,&q->DD3,&q->F1,&q->F2,&q->F3,&q->Mcoeffs1,&q->Mcoeffs2,&q->Mcoeffs3,&q->Meval1,&q->Meval2,&q->Meval3,&q->Int1,&q->Int2,&q->Int3};
    for(i=0;i<18;i++){ int n=N[i%3]; VEXPECT(*P[i]!=*Q[i],"matrix shared","-"); VEXPECT(!memcmp(*P[i],*Q[i],sizeof(double)*n*n),"matrix of copied box","box %d matrix %d",b,i); mats++; }
    VEXPECT(!memcmp(p->bbox,q->bbox,sizeof p->bbox)&&!memcmp(p->ibbox,q->ibbox,sizeof p->ibbox)&&!memcmp(p->periodic,q->periodic,sizeof p->periodic),"box description copied","-");
    VEXPECT(p->basis1==q->basis1&&p->basis2==q->basis2&&p->basis3==q->basis3&&p->get_coeffs1==q->get_coeffs1&&p->get_coeffs2==q->get_coeffs2&&p->get_coeffs3==q->get_coeffs3&&p->eval_onPoints1==q->eval_onPoints1&&p->eval_onPoints2==q->eval_onPoints2&&p->eval_onPoints3==q->eval_onPoints3&&p->filter_coeffs1==q->filter_coeffs1&&p->filter_coeffs2==q->filter_coeffs2&&p->filter_coeffs3==q->filter_coeffs3&&p->coeffs_of_deriv1==q->coeffs_of_deriv1&&p->coeffs_of_deriv2==q->coeffs_of_deriv2&&p->coeffs_of_deriv3==q->coeffs_of_deriv3&&p->coeffs_of_2ndderiv1==q->coeffs_of_2ndderiv1&&p->coeffs_of_2ndderiv2==q->coeffs_of_2ndderiv2&&p->coeffs_of_2ndderiv3==q->coeffs_of_2ndderiv3&&p->coeffs_of_int1==q->coeffs_of_int1&&p->coeffs_of_int2==q->coeffs_of_int2&&p->coeffs_of_int3==q->coeffs_of_int3
       &&p->TransformType1==q->TransformType1&&p->TransformType2==q->TransformType2&&p->TransformType3==q->TransformType3&&p->x_of_X[1]==q->x_of_X[1]&&p->XYZ_Of_xyz==q->XYZ_Of_xyz&&p->isSing==q->isSing&&!memcmp(p->dX_dx,q->dX_dx,sizeof p->dX_dx)&&!memcmp(p->dx_dX,q->dx_dX,sizeof p->dx_dX)&&!memcmp(p->ddX_dxdx,q->ddX_dxdx,sizeof p->ddX_dxdx),"functions of copied box","box %d",b);
    VEXPECT(!memcmp(p->CI,q->CI,sizeof(tCoordInfo)),"coordinate info copied","-");
    for(k=0;k<p->nnodes;k++) VEXPECT(q->node[k].i==p->node[k].i&&q->node[k].type==p->node[k].type,"nodes copied","-");
    for(i=0;i<g->nvariables;i++){ VEXPECT(!p->v[i]==!q->v[i],"storage of copied grid","%s",VarName(i)); if(p->v[i]){ VEXPECT(p->v[i]!=q->v[i]&&!memcmp(p->v[i],q->v[i],8*p->nnodes),"data of copied grid","%s",VarName(i)); p->v[i][0]+=1; VEXPECT(p->v[i][0]!=q->v[i][0],"data shared","%s",VarName(i)); } }
    VEXPECT(p->nbfaces==q->nbfaces,"faces of copied grid","-");
    for(i=0;i<p->nbfaces&&i<q->nbfaces;i++){ tBface *A=p->bface[i],*B=q->bface[i]; VEXPECT(A!=B&&B->grid==c&&A->f==B->f&&A->ob==B->ob&&A->ofi==B->ofi&&A->oXi==B->oXi&&A->oYi==B->oYi&&A->oZi==B->oZi&&A->touch==B->touch&&A->sameX==B->sameX&&A->sameY==B->sameY&&A->sameZ==B->sameZ&&A->same_fpts==B->same_fpts&&A->fpts_off_face==B->fpts_off_face&&A->setnormalderiv==B->setnormalderiv&&A->innerbound==B->innerbound&&A->outerbound==B->outerbound,"face of copied grid","box %d face %d",b,i);
      if(A->fpts) { VEXPECT(B->fpts&&A->fpts!=B->fpts&&A->fpts->npoints[b]==B->fpts->npoints[b]&&!memcmp(A->fpts->point[b],B->fpts->point[b],sizeof(int)*A->fpts->npoints[b]),"face points of copied grid","box %d face %d",b,i); } }
  }
  vh_count("matrices compared",mats);
  free_grid(c);
  vg_free(g);
  free_global_vdb(); remove_all_Funs(); free_global_parameter_database_contents();
  m1=__sanitizer_get_current_allocated_bytes(); (void)m0;
  { static size_t last; /* everything is freed here: the heap size must not grow when the same grid is made again */
    if(!warm) VEXPECT(m1==last,"memory leaked by a whole grid","%ld bytes more than after the same grid before",(long)(m1-last)); last=m1; }
  if(!warm) vh_case(nb>1,"real grid %d: %.300s",h,vg_desc);
}
int main(int argc,char **argv)
{
  int i,part=atoi(argv[1]),b;
  vh_init(300+part); vh_silence();
  AddPar("nboxes","1","d"); AddPar("dt","0.1","d"); AddPar("storage_verbose","no","d");
  for(b=0;b<NB;b++) for(i=1;i<4;i++){ char p[64]; sprintf(p,"box%d_n%d",b,i); AddPar(p,"2","d"); }
  for(i=0;i<vh_n(150,3000);i++) history(i*8+part);
  for(i=0;i<vh_n(16,200);i++)
  { uint64_t s0=vh_s; realgrid(i*8+part,1); vh_s=s0; realgrid(i*8+part,0); /* same grid again: no growth allowed */ }
  free_global_vdb(); free_global_parameter_database();
  vh_end(); return 0;
}
