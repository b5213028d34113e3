/* box faces and interface conditions on real multi-box grids, against brute force geometry */
#include "vgrid.h"
int XYZ_of_xyz(tBox *box,double *X,double *Y,double *Z,double x,double y,double z); int b_XYZ_of_xyz_inboxlist(tGrid *g,int *bl,int nb,double *X,double *Y,double *Z,double x,double y,double z);
double nearestXYZ_of_xyz(tBox *box,int *ind,double *X,double *Y,double *Z,double x,double y,double z);
int arrange_1box12CubSph_into_full_cube(tGrid *g,int b0,double *xc,double,double,double); int two_full_cubes_touching_at_x0(tGrid *g,int b0,double dc,double,double,double,double); int sphere_around_two_full_cubes_touching_at_x0(tGrid *g,int b0,double dc,double,double,double,double,double); int two_spheres_around_two_full_cubes(tGrid *g,int b0,double dc,double,double,double,double,double,double);
void set_interbox_BCs_for_bface(int iF,tBface *bf,int iP,int idP[4]); void set_interbox_BCs_for_boxbfaces(tBox *box,int iF,int iP,int idP[4]); void set_interbox_BC_onface(tBox *box,int iF,int face,int iP,int idP[4],int snd);
void boxface_normal_at_ijk(tBox *box,int f,int ijk,double n[4]); void boxface_outwarddir_at_ijk(tBox *box,int f,int ijk,double n[4]); void boxface_normal_at_XYZ(tBox *box,int f,double,double,double,double n[4]); void boxface_outwarddir_at_XYZ(tBox *box,int f,double,double,double,double n[4]);
int set_touching_bfaces_of_boxes_with_same_facepoints(tGrid *g,int b0,int nb); void set_all_bfaces_with_ob_minus1_to_outerbound(tGrid *g,int b0,int nb); int Coordinates_set_bfaces(tGrid *g);
static char T[200]; static tGrid *G; static double LS; static int AR;
static void pos(tBox *b,long q,double *x){ int k; const char *v=b->x_of_X[1]?"x":"X"; for(k=1;k<=3;k++) x[k]=b->v[Ind((char*)v)+k-1][q]; }
static void mapX(tBox *b,const double *X,double *x){ int k; for(k=1;k<=3;k++) x[k]=b->x_of_X[1]?b->x_of_X[k](b,-1,X[1],X[2],X[3]):X[k]; }
/* is x in the closed box (inflated by tol in Cartesian distance)? independent of the face code: uses the verified point search */
static int inbox(tBox *b,const double *x,double tol,double *Xo)
{ double X,Y,Z,P[4],y[4],d=0; int ind,k,tryi; if(!b->x_of_X[1]){ for(k=1;k<=3;k++){ if(x[k]<b->bbox[2*k-2]-tol||x[k]>b->bbox[2*k-1]+tol) return 0; if(Xo) Xo[k]=x[k]; } return 1; }
  for(tryi=0;tryi<2;tryi++){ nearestXYZ_of_xyz(b,&ind,&X,&Y,&Z,x[1],x[2],x[3]); if(tryi){ X+=1e-3*(0.5*(b->bbox[0]+b->bbox[1])-X); Y+=1e-3*(0.5*(b->bbox[2]+b->bbox[3])-Y); Z+=1e-3*(0.5*(b->bbox[4]+b->bbox[5])-Z); }
    if(XYZ_of_xyz(b,&X,&Y,&Z,x[1],x[2],x[3])<0) continue; P[1]=X;P[2]=Y;P[3]=Z; for(k=1;k<=3;k++) if(!b->periodic[k]){ if(P[k]<b->bbox[2*k-2]) P[k]=b->bbox[2*k-2]; if(P[k]>b->bbox[2*k-1]) P[k]=b->bbox[2*k-1]; }
    mapX(b,P,y); for(d=0,k=1;k<=3;k++) d+=(y[k]-x[k])*(y[k]-x[k]); if(sqrt(d)<=tol){ if(Xo) memcpy(Xo,P,sizeof P); return 1; } }
  return 0; }
static int ijkof(tBox *b,long q,int *i){ i[1]=q%b->n1; i[2]=(q/b->n1)%b->n2; i[3]=q/((long)b->n1*b->n2); return 0; }
static int onface(tBox *b,int f,long q){ int i[4],n[4]={0,b->n1,b->n2,b->n3}; ijkof(b,q,i); return i[1+f/2]==(f%2?n[1+f/2]-1:0); }
/* a point of face f of the box moved to the inside of the face (away from its edges) by fraction fr of the face */
static void faceX(tBox *b,int f,long q,double fr,double *X){ int k; X[1]=b->v[Ind("X")][q]; X[2]=b->v[Ind("Y")][q]; X[3]=b->v[Ind("Z")][q]; for(k=1;k<=3;k++) if(k!=1+f/2&&!b->periodic[k]){ double m=0.5*(b->bbox[2*k-2]+b->bbox[2*k-1]); X[k]+=fr*(m-X[k]); } X[1+f/2]=b->bbox[f]; }
static double PA[4],PP; static double fun(const double *x,int i){ double s=PA[1]*x[1]+PA[2]*x[2]+PA[3]*x[3]+PP; return i?PA[i]*cos(s):sin(s); }
static int iF,iP,id[4];
static void fill(tBox *b){ long q; int k; double x[4]; for(q=0;q<b->nnodes;q++){ pos(b,q,x); b->v[iP][q]=fun(x,0); for(k=1;k<=3;k++) b->v[id[k]][q]=fun(x,k); } }
static void fill_all(tGrid *g,double k){ int b,i; for(i=1;i<=3;i++) PA[i]=k*vh_range(-1,1); PP=vh_range(0,6); forallboxes(g,b) fill(g->box[b]); }
#define SENT 777.25
static void sentinel(tBox *b){ long q; for(q=0;q<b->nnodes;q++) b->v[iF][q]=SENT; }
static const char *bfd(tBface *f){ static char s[200]; snprintf(s,200,"box%d face %d patch %d (ob=%d ofi=%d touch=%d same_fpts=%d outer=%d nder=%d, same %d%d%d)",f->b,f->f,f->fi,f->ob,f->ofi,f->touch,f->same_fpts,f->outerbound,f->setnormalderiv,f->sameX,f->sameY,f->sameZ); return s; }
static void geometry(tGrid *g,int quota)
{ int b,f,fi; long q; double tol=1e-8*LS;
  forallboxes(g,b){ tBox *o=g->box[b]; 
    for(f=0;f<6;f++){ int nf=0; forallbfaces(o,fi) if(o->bface[fi]->f==f) nf++;
      /* does the whole face need patches? periodic directions do not */
      int *cnt=calloc(o->nnodes,sizeof(int)); int *who=calloc(o->nnodes,sizeof(int));
      forallbfaces(o,fi){ tBface *p=o->bface[fi]; if(p->f!=f) continue; VEXPECT(p->b==b&&p->fi==fi,"patch-identity","%s %s sits at index %d of box%d",T,bfd(p),fi,b); VEXPECT(p->fpts&&p->fpts->npoints[b]>0,"empty-patch","%s %s",T,bfd(p)); int bb; forallboxes(g,bb) if(bb!=b) VEXPECT(!p->fpts||p->fpts->npoints[bb]==0,"patch-other-box-points","%s %s",T,bfd(p));
        int pi; long k; if(p->fpts) for(pi=0;pi<p->fpts->npoints[b];pi++){ k=p->fpts->point[b][pi]; VEXPECT(onface(o,f,k),"patch-point-off-face","%s %s point %ld",T,bfd(p),k); cnt[k]++; who[k]=fi; } 
        VEXPECT((p->ob>=0)!=(p->outerbound!=0),"outer-and-neighbour","%s %s",T,bfd(p)); vh_count(p->outerbound?"outer patches":!p->touch?"overlap patches":p->same_fpts?"same-point patches":"interpolating patches",1); }
      if(o->periodic[1+f/2]){ VEXPECT(nf==0,"patch-on-periodic-face","%s box%d face %d",T,b,f); free(cnt); free(who); continue; }
      for(q=0;q<o->nnodes;q++) if(onface(o,f,q)){ int e=0,f2; for(f2=0;f2<6;f2++) if(f2!=f&&!o->periodic[1+f2/2]&&onface(o,f2,q)) e=1; if(!e) VEXPECT(cnt[q]==1||(AR&&cnt[q]>1),"face-point-not-once","%s box%d face %d inner point %ld is in %d patches",T,b,f,q,cnt[q]); else { VEXPECT(AR||cnt[q]<=1,"face-point-not-once","%s box%d face %d edge point %ld is in %d patches of its face",T,b,f,q,cnt[q]); if(!cnt[q]){ int pi,in=0; forallbfaces(o,fi) for(pi=0;pi<o->bface[fi]->fpts->npoints[b];pi++) if(o->bface[fi]->fpts->point[b][pi]==q) in++; VEXPECT(in,"face-point-without-patch","%s box%d face %d edge point %ld",T,b,f,q); vh_count("edge points left to another face",1); } } vh_count("face points",1); }
      /* sampled geometric truth */
      int qq; for(qq=0;qq<quota;qq++){ long k; do k=vh_rand()%o->nnodes; while(!onface(o,f,k)); if(!cnt[k]) continue; tBface *p=o->bface[who[k]]; double x[4],X[4],y[4],z[4],N[4],D[4]; int kk,ob,e,hit=0; pos(o,k,x);
        if(p->ob>=0){ VEXPECT(inbox(g->box[p->ob],x,1e-7*LS,NULL),"neighbour-does-not-contain-point","%s %s point %ld (%.15g,%.15g,%.15g)",T,bfd(p),k,x[1],x[2],x[3]); VEXPECT(p->ob!=b,"own-neighbour","%s %s",T,bfd(p)); }
        /* just outside the face, a little away from its edges */
        faceX(o,f,k,p->outerbound?1e-3:1e-3,X); mapX(o,X,y); boxface_normal_at_XYZ(o,f,X[1],X[2],X[3],N); boxface_outwarddir_at_XYZ(o,f,X[1],X[2],X[3],D);
        double n1=0,n2=0; for(kk=1;kk<=3;kk++){ n1+=N[kk]*N[kk]; n2+=D[kk]*D[kk]; } VEXPECT(fabs(n1-1)<1e-10&&fabs(n2-1)<1e-10,"normal-not-unit","%s box%d face %d |n|^2=%g |dir|^2=%g",T,b,f,n1,n2);
        /* tangents by differences of the map; outward means the other side of the face */
        int d; for(d=1;d<=3;d++){ double A[4],B[4],h=1e-5*(o->bbox[2*d-1]-o->bbox[2*d-2]),s=0,m=0,c=0; memcpy(A,X,sizeof A); memcpy(B,X,sizeof B); if(d==1+f/2){ int sg=f%2?1:-1; B[d]-=sg*h; } else { A[d]+=h; B[d]-=h; } double xa[4],xb[4]; mapX(o,A,xa); mapX(o,B,xb); for(kk=1;kk<=3;kk++){ s+=N[kk]*(xa[kk]-xb[kk]); c+=D[kk]*(xa[kk]-xb[kk]); m+=(xa[kk]-xb[kk])*(xa[kk]-xb[kk]); } m=sqrt(m); if(m<=0) continue;
          if(d==1+f/2){ VEXPECT(s>0,"normal-points-inward","%s box%d face %d",T,b,f); VEXPECT(!o->x_of_X[1]||o->dx_dX[1][1+f/2]?c>0.999*m:c>0,"outward-direction","%s box%d face %d cos=%g",T,b,f,c/m); } else VEXPECT(fabs(s)<1e-5*m,"normal-not-perpendicular","%s box%d face %d direction %d cos=%g",T,b,f,d,s/m); }
        double Nk[4],Dk[4]; boxface_normal_at_ijk(o,f,k,Nk); boxface_outwarddir_at_ijk(o,f,k,Dk); double Xq[4]={0,o->v[Ind("X")][k],o->v[Ind("Y")][k],o->v[Ind("Z")][k]}; double N2[4],D2[4]; boxface_normal_at_XYZ(o,f,Xq[1],Xq[2],Xq[3],N2); boxface_outwarddir_at_XYZ(o,f,Xq[1],Xq[2],Xq[3],D2); for(kk=1;kk<=3;kk++) VEXPECT(fabs(Nk[kk]-N2[kk])<1e-9&&fabs(Dk[kk]-D2[kk])<1e-9,"normal-forms-disagree","%s box%d face %d point %ld",T,b,f,k);
        for(kk=1;kk<=3;kk++) z[kk]=y[kk]+3e-5*LS*N[kk]; forallboxes(g,ob) if(ob!=b&&inbox(g->box[ob],z,tol,NULL)) hit|=1<<(ob==p->ob); (void)e;
        { int f2,e=0; for(f2=0;f2<6;f2++) if(f2!=f&&!o->periodic[1+f2/2]&&onface(o,f2,k)) e=1; if(AR&&e) continue; }
        if(p->outerbound) VEXPECT(hit==0,"outer-patch-touches-box","%s %s point %ld: another box lies just outside (%.10g,%.10g,%.10g)",T,bfd(p),k,z[1],z[2],z[3]);
        else VEXPECT(hit!=0,"inner-patch-at-outer-boundary","%s %s point %ld: no box lies just outside (%.10g,%.10g,%.10g)",T,bfd(p),k,z[1],z[2],z[3]);
        vh_count("face points compared with geometry",1); }
      free(cnt); free(who); } } }
static void pairs(tGrid *g)
{ int b,fi; double tol=1e-8*LS; forallboxes(g,b){ tBox *o=g->box[b]; forallbfaces(o,fi){ tBface *p=o->bface[fi]; if(p->ob<0) continue; tBox *oo=g->box[p->ob]; int pi;
    if(p->touch){ VEXPECT(p->ofi>=0&&p->ofi<oo->nbfaces,"touch-without-partner","%s %s",T,bfd(p)); if(p->ofi<0||p->ofi>=oo->nbfaces) continue; tBface *r=oo->bface[p->ofi]; char s1[200]; strcpy(s1,bfd(p)); VEXPECT(r->ob==b&&r->touch,"partner-disagrees","%s %s partner %s",T,s1,bfd(r)); if(r->ofi==fi) VEXPECT(r->setnormalderiv!=p->setnormalderiv,"both-sides-same-condition","%s %s partner %s",T,s1,bfd(r)); else if(!AR) VEXPECT(0,"partner-not-mutual","%s %s partner %s",T,s1,bfd(r));
      VEXPECT(p->same_fpts==r->same_fpts||(AR&&r->ofi!=fi),"same-fpts-one-sided","%s %s",T,s1);
      if(p->same_fpts){ VEXPECT(p->fpts->npoints[b]==r->fpts->npoints[p->ob],"partner-counts","%s %s has %d points, partner %d",T,s1,p->fpts->npoints[b],r->fpts->npoints[p->ob]); for(pi=0;pi<p->fpts->npoints[b]&&pi<r->fpts->npoints[p->ob];pi++){ double x[4],y[4]; pos(o,p->fpts->point[b][pi],x); pos(oo,r->fpts->point[p->ob][pi],y); double d=fabs(x[1]-y[1])+fabs(x[2]-y[2])+fabs(x[3]-y[3]); VEXPECT(d<tol,"paired-points-differ","%s %s entry %d: own point %d and neighbour point %d are %g apart",T,s1,pi,p->fpts->point[b][pi],r->fpts->point[p->ob][pi],d); vh_count("paired points",1); } } }
    else VEXPECT(!p->setnormalderiv,"overlap-with-derivative-condition","%s %s",T,bfd(p));
    if(!p->same_fpts) VEXPECT(p->oXi==Ind("oX")&&p->oYi==Ind("oY")&&p->oZi==Ind("oZ"),"no-neighbour-coords","%s %s",T,bfd(p)); }
   /* recorded coordinates: the last patch that holds the point wins */
   int *who=malloc(sizeof(int)*o->nnodes); long q; for(q=0;q<o->nnodes;q++) who[q]=-1; forallbfaces(o,fi){ tBface *p=o->bface[fi]; int pi; if(p->ob>=0&&p->oXi>=0&&p->fpts) for(pi=0;pi<p->fpts->npoints[b];pi++) who[p->fpts->point[b][pi]]=fi; }
   for(q=0;q<o->nnodes;q++) if(who[q]>=0){ tBface *p=o->bface[who[q]]; tBox *oo=g->box[p->ob]; double X[4]={0,o->v[p->oXi][q],o->v[p->oYi][q],o->v[p->oZi][q]},x[4],y[4]; pos(o,q,x); mapX(oo,X,y); double d=fabs(x[1]-y[1])+fabs(x[2]-y[2])+fabs(x[3]-y[3]); int k; VEXPECT(d<1e-7*LS,"neighbour-coords-wrong","%s %s point %ld: (%.15g,%.15g,%.15g) of box%d is (%.15g,%.15g,%.15g), not (%.15g,%.15g,%.15g)",T,bfd(p),q,X[1],X[2],X[3],p->ob,y[1],y[2],y[3],x[1],x[2],x[3]); for(k=1;k<=3;k++) if(!oo->periodic[k]) VEXPECT(X[k]>=oo->bbox[2*k-2]-1e-9&&X[k]<=oo->bbox[2*k-1]+1e-9,"neighbour-coords-outside","%s %s point %ld coordinate %d = %.17g",T,bfd(p),q,k,X[k]); vh_count("neighbour coordinates",1); }
   free(who); } }
static int shared(tBox *o,int fi,long q,int f){ int f2,pi; forallbfaces(o,f2) if(f2!=fi&&(f<0||o->bface[f2]->f==f)&&o->bface[f2]->fpts&&o->bface[f2]->ob>=0) for(pi=0;pi<o->bface[f2]->fpts->npoints[o->b];pi++) if(o->bface[f2]->fpts->point[o->b][pi]==q) return f2; return -1; }
static void conditions(tGrid *g,double k,double tolF,double tolD,int npatch)
{ int b,fi,t; fill_all(g,k); 
  /* continuous data */
  forallboxes(g,b){ tBox *o=g->box[b]; sentinel(o); set_interbox_BCs_for_boxbfaces(o,iF,iP,id); char *mine=calloc(o->nnodes,1); int *last=calloc(o->nnodes,sizeof(int)); forallbfaces(o,fi){ tBface *p=o->bface[fi]; int pi; if(p->ob>=0&&p->fpts) for(pi=0;pi<p->fpts->npoints[b];pi++){ mine[p->fpts->point[b][pi]]=1; last[p->fpts->point[b][pi]]=fi; } }
    long q; double mx=0; for(q=0;q<o->nnodes;q++){ double v=o->v[iF][q]; if(!mine[q]) VEXPECT(v==SENT,"condition-off-interface","%s box%d point %ld set to %g",T,b,q,v); else { tBface *p=o->bface[last[q]]; VEXPECT(v!=SENT,"condition-not-set","%s %s point %ld oXYZ=%.17g %.17g %.17g",T,bfd(p),q,p->oXi>0?o->v[p->oXi][q]:0,p->oXi>0?o->v[p->oYi][q]:0,p->oXi>0?o->v[p->oZi][q]:0); double tl=p->same_fpts?1e-8:p->setnormalderiv?tolD:tolF; mx=fmax(mx,fabs(v)/tl); VEXPECT(fabs(v)<tl,"condition-not-zero","%s %s point %ld: %g for a continuous function",T,bfd(p),q,v); vh_count("interface condition points",1); } }
    if(getenv("VH_SHOW")) fprintf(stderr,"%s box%d max %g\n",T,b,mx); free(mine); free(last); }
  /* data that jump: each side of each patch */
  for(t=0;t<npatch;t++){ tBox *o; do o=g->box[vh_int(0,g->nboxes-1)]; while(o->nbfaces==0); fi=vh_int(0,o->nbfaces-1); tBface *p=o->bface[fi]; if(p->ob<0){ sentinel(o); set_interbox_BCs_for_bface(iF,p,iP,id); long q; for(q=0;q<o->nnodes;q++) VEXPECT(o->v[iF][q]==SENT,"condition-on-outer-boundary","%s %s",T,bfd(p)); continue; }
    tBox *oo=g->box[p->ob]; double J=vh_range(0.5,2),V[4]; int kk; long q; for(kk=1;kk<=3;kk++) V[kk]=vh_range(-1,1); for(q=0;q<oo->nnodes;q++){ oo->v[iP][q]+=J; for(kk=1;kk<=3;kk++) oo->v[id[kk]][q]+=V[kk]; }
    int allt=1,f9; forallbfaces(o,f9) if(o->bface[f9]->f==p->f&&o->bface[f9]->ob>=0&&!o->bface[f9]->touch) allt=0; /* derivative conditions are refused on overlapping patches */
    int mode=allt?vh_int(-1,1):vh_int(-1,0); double *Fv=o->v[iF]; sentinel(o); int isD=p->setnormalderiv; if(vh_int(0,1)){ set_interbox_BC_onface(o,iF,p->f,iP,id,mode); if(mode>=0) isD=mode; /* other patches of the face are also set */ }
    else { mode=-2; set_interbox_BCs_for_bface(iF,p,iP,id); char *m=calloc(o->nnodes,1); int pi; for(pi=0;pi<p->fpts->npoints[o->b];pi++) m[p->fpts->point[o->b][pi]]=1; for(q=0;q<o->nnodes;q++) if(!m[q]) VEXPECT(Fv[q]==SENT,"condition-off-patch","%s %s point %ld",T,bfd(p),q); free(m); }
    int pi; for(pi=0;pi<p->fpts->npoints[o->b];pi++){ q=p->fpts->point[o->b][pi]; double N[4],e=-J; boxface_normal_at_ijk(o,p->f,q,N); if(isD) e=-(N[1]*V[1]+N[2]*V[2]+N[3]*V[3]); int s=shared(o,fi,q,-1); if(s>=0&&!p->same_fpts) continue; if(mode!=-2&&shared(o,fi,q,p->f)>=0) continue; double tl=p->same_fpts?1e-8:isD?tolD:tolF; VEXPECT(fabs(Fv[q]-e)<tl,"jump-not-seen","%s %s (mode %d) point %ld: condition %.10g for a jump of %.10g",T,bfd(p),mode,q,Fv[q],-e); vh_count("jump points",1); }
    for(q=0;q<oo->nnodes;q++){ oo->v[iP][q]-=J; for(kk=1;kk<=3;kk++) oo->v[id[kk]][q]-=V[kk]; } } }
static void vars(void){ AddVar("FPsi","","t"); AddVar("Psi","","t"); AddVar("dPsi","i","t"); }
static void on(tGrid *g){ iF=Ind("FPsi"); iP=Ind("Psi"); id[0]=0; id[1]=Ind("dPsix"); id[2]=id[1]+1; id[3]=id[1]+2; enablevar(g,iF); enablevar(g,iP); enablevar(g,id[1]); }
static const char *ORD[]={"none","setnormalderiv_order0","setnormalderiv_order1","setnormalderiv_order2","setnormalderiv_order3","setnormalderiv_order4"};
static void opts(void){ int o=vh_int(0,5); vg_par("Coordinates_bface_options=%s%s",AR?"populate_bfaces ":"",ORD[o]); vg_par("CoordinateTransforms_stored=%s",vh_int(0,3)?"yes":"no"); vg_par("Coordinates_set_bfaces=yes"); }
static void start(void){ initialize_libraries(); RunFun(POST_PARAMETERS,0); RunFun(PRE_GRID,0); G=make_grid(0); RunFun(POST_GRID,G); }
static void cubsph(int nb,int same)
{ int n1,n2,n3,b,k; vg_reset(); vars(); opts(); vg_par("nboxes=%d",nb); AddVar("temp1","","t");AddVar("temp2","","t");AddVar("temp3","","t");
  double bb[6]={0,1,-1,1,-1,1}; n1=vh_int(6,8); n2=same?vh_int(nb>13?6:7,nb>13?7:9):0; n3=n2; int c0=same?n2:0;
  int m1[64],m2[64],m3[64]; for(b=0;b<nb;b++){ int c=b==0||(nb>13&&b==13); if(same){ m1[b]=c?c0:n1; m2[b]=c?c0:n2; m3[b]=c?c0:n3; } else { m1[b]=vh_int(7,9); m2[b]=vh_int(7,10); m3[b]=vh_int(7,10); } vg_box(b,m1[b],m2[b],m3[b],"ChebExtrema","ChebExtrema","ChebExtrema",bb); }
  start(); double xc[4]={0,vh_range(-2,2),vh_range(-1,1),vh_range(-1,1)},dc,R=0,R1=0;
  if(nb==13){ double a=vh_range(0.25,0.4),m=a*sqrt(3)+vh_range(0.1,0.3); dc=m+vh_range(0.2,0.6); arrange_1box12CubSph_into_full_cube(G,0,xc,a,m,dc); LS=dc; }
  else { dc=vh_range(0.8,1.2); double a=vh_range(0.25,0.3)*dc,m=vh_range(0.6,0.8)*dc,a2=vh_range(0.25,0.3)*dc,m2_=vh_range(0.6,0.8)*dc; R=dc*sqrt(6)*vh_range(1.2,1.5); R1=R*vh_range(1.5,2); LS=dc; if(nb==26) two_full_cubes_touching_at_x0(G,0,dc,a,m,a2,m2_); else if(nb==32) sphere_around_two_full_cubes_touching_at_x0(G,0,dc,a,m,a2,m2_,R); else two_spheres_around_two_full_cubes(G,0,dc,a,m,a2,m2_,R,R1); }
  RunFun(PRE_COORDINATES,G); RunFun(COORDINATES,G); on(G); (void)k;
  sprintf(T,"CubedSpheres%d%s%s",nb,same?" same points":" different points",AR?" AR":""); vh_at("%s",T);
  if(getenv("VH_PRINT")) forallboxes(G,b) printbfaces(G->box[b]);
  geometry(G,nb>13?2:6); pairs(G); conditions(G,nb>=32?0.12:0.3,2e-2,1e-1,vh_n(nb>13?20:30,120)); vh_case(1,"%s %d %d dc=%g",T,n1,n2,dc);
  /* the simple matching routine on the cubed sphere boxes */
  if(same&&!AR){ int b0=vh_int(0,1)?0:(nb>13&&vh_int(0,1))?13:0, nn=13, f; set_touching_bfaces_of_boxes_with_same_facepoints(G,b0,nn); set_all_bfaces_with_ob_minus1_to_outerbound(G,b0,nn); sprintf(T,"CubedSpheres%d matching boxes %d-%d",nb,b0,b0+nn-1);
    for(b=b0;b<b0+nn;b++){ tBox *o=G->box[b]; VEXPECT(o->nbfaces==6,"match-six-faces","%s box%d has %d",T,b,o->nbfaces); for(f=0;f<o->nbfaces&&f<6;f++){ tBface *p=o->bface[f]; int n=f/2==0?o->n2*o->n3:f/2==1?o->n1*o->n3:o->n1*o->n2; VEXPECT(p->f==f&&p->fpts&&p->fpts->npoints[b]==n,"match-face-points","%s %s: %d points, face has %d",T,bfd(p),p->fpts?p->fpts->npoints[b]:-1,n); double X[4],N[4],y[4],z[4]; int kk,ob,hit=-1; for(kk=1;kk<=3;kk++) X[kk]=0.5*(o->bbox[2*kk-2]+o->bbox[2*kk-1])+0.01*(o->bbox[2*kk-1]-o->bbox[2*kk-2]); X[1+f/2]=o->bbox[f]; mapX(o,X,y); boxface_normal_at_XYZ(o,f,X[1],X[2],X[3],N); for(kk=1;kk<=3;kk++) z[kk]=y[kk]+1e-4*LS*N[kk]; for(ob=b0;ob<b0+nn;ob++) if(ob!=b&&inbox(G->box[ob],z,1e-8*LS,NULL)) hit=ob;
        VEXPECT(p->ob==hit&&p->outerbound==(hit<0),"match-neighbour","%s %s but the box beyond the face is %d",T,bfd(p),hit); vh_count("matched faces",1); 
        if(p->ob>=0&&p->ofi>=0&&p->ofi<6){ tBface *r=G->box[p->ob]->bface[p->ofi]; VEXPECT(r->ob==b&&r->ofi==f&&r->same_fpts&&p->same_fpts&&r->setnormalderiv!=p->setnormalderiv,"match-partner","%s %s",T,bfd(p)); int pi,bad=0; if(r->fpts&&p->fpts) for(pi=0;pi<p->fpts->npoints[b]&&pi<r->fpts->npoints[p->ob];pi++){ double x[4],w[4]; pos(o,p->fpts->point[b][pi],x); pos(G->box[p->ob],r->fpts->point[p->ob][pi],w); if(fabs(x[1]-w[1])+fabs(x[2]-w[2])+fabs(x[3]-w[3])>1e-8*LS) bad++; } VEXPECT(!bad,"match-order","%s %s: %d paired points differ",T,bfd(p),bad); } } } }
  vg_free(G); }
/* Cartesian bricks: a tensor grid of boxes, possibly with bricks removed, or one long brick beside two, or overlapping bricks */
static void bricks(int kind)
{ double cx[4],cy[4],cz[4]; int nx,ny,nz,b=0,i,j,k; double bb[40][6]; vg_reset(); vars(); opts(); 
  cx[0]=vh_range(-2,-1);cy[0]=vh_range(-2,-1);cz[0]=vh_range(-2,-1); for(i=1;i<4;i++){ cx[i]=cx[i-1]+vh_range(0.6,1.4); cy[i]=cy[i-1]+vh_range(0.6,1.4); cz[i]=cz[i-1]+vh_range(0.6,1.4); }
  if(kind==0||kind==1){ nx=vh_int(1,3);ny=vh_int(1,2);nz=vh_int(1,2); if(nx*ny*nz==1) nx=2; int drop=!AR&&nx*ny*nz>=3&&vh_int(0,1)?vh_int(0,nx*ny*nz-1):-1,c=0; for(k=0;k<nz;k++) for(j=0;j<ny;j++) for(i=0;i<nx;i++) if(c++!=drop){ double *q=bb[b++]; q[0]=cx[i];q[1]=cx[i+1];q[2]=cy[j];q[3]=cy[j+1];q[4]=cz[k];q[5]=cz[k+1]; } }
  else if(kind==3){ /* overlapping pair along a random axis, same cross section */ int d=vh_int(0,2); double *c[3]={cx,cy,cz}; for(b=0;b<2;b++) for(i=0;i<3;i++){ bb[b][2*i]=c[i][0]; bb[b][2*i+1]=c[i][1]; } bb[0][2*d+1]+=vh_range(0.1,0.3); bb[1][2*d]=c[d][1]-vh_range(0.1,0.3); bb[1][2*d+1]=c[d][2]; b=2; }
  int nb=b; vg_par("nboxes=%d",nb); int same=kind==0,N[3]={vh_int(6,8),vh_int(6,8),vh_int(6,8)}; static const char *B[]={"ChebExtrema","fd2_onesided"}; int per=kind<2&&nz==1?vh_int(0,1):0;
  for(b=0;b<nb;b++){ int n[3]; for(i=0;i<3;i++) n[i]=same?N[i]:vh_int(6,9); vg_box(b,n[0],n[1],n[2],B[0],B[0],per?"Fourier":B[0],bb[b]); }
  start(); RunFun(PRE_COORDINATES,G); LS=1; RunFun(COORDINATES,G); on(G); sprintf(T,"bricks kind %d%s",kind,AR?" AR":""); { char *p=T+strlen(T); sprintf(p," nboxes=%d per=%d",nb,per); } vh_at("%s",T);
  if(getenv("VH_PRINT")) forallboxes(G,b) printbfaces(G->box[b]);
  geometry(G,12); pairs(G); if(per){ PA[3]=0; } conditions(G,per?0.0:0.3,1e-2,1e-1,vh_n(25,80)); vh_case(1,"%s %d %d %d %g",T,N[0],N[1],N[2],cx[0]); vg_free(G); }
/* concentric shells */
static void shells(void)
{ int nb=vh_int(2,3),b; double r=vh_range(0.5,1.5),bb[6]; vg_reset(); vars(); opts(); vg_par("Coordinates_newtTOLF=1e-12"); /* the search has to be finer than the 1e-10 within which points count as equal */ vg_par("nboxes=%d",nb); int same=vh_int(0,1),N2=vh_int(4,6)*2,N3=vh_int(4,6)*2; const char *ct=vh_int(0,1)?"SphericalDF":"Polar"; int pol=ct[0]=='P';
  for(b=0;b<nb;b++){ double r2=r+vh_range(0.5,1.5); bb[0]=r;bb[1]=r2;bb[2]=0;bb[3]=2*PI;bb[4]=pol?-1:0;bb[5]=pol?1:2*PI; r=r2; int n2=same?N2:vh_int(4,6)*2,n3=same?N3:vh_int(4,6)*2; vg_box(b,vh_int(6,8),n2,n3,"ChebExtrema","Fourier",pol?"ChebExtrema":"Fourier",bb); vg_par("box%d_Coordinates=%s",b,ct); }
  start(); RunFun(PRE_COORDINATES,G); LS=1; RunFun(COORDINATES,G); on(G); sprintf(T,"%s shells%s%s",ct,same?" same points":"",AR?" AR":""); vh_at("%s nboxes %d",T,nb);
  if(getenv("VH_PRINT")) forallboxes(G,b) printbfaces(G->box[b]);
  geometry(G,12); pairs(G); conditions(G,0.2,2e-2,5e-2,vh_n(25,80)); vh_case(1,"%s %d %d %d",T,nb,N2,N3); vg_free(G); }
int main(int ac,char **av)
{ int part=atoi(av[1]),it,n; vh_init(1700+part); vh_silence(); AR=part>=8; int p=part%8;
  if(part>=8&&p==3) p=5; else if(part>=8&&p>3) return 2;
  if(p==0){ n=vh_n(6,60); for(it=0;it<n;it++) cubsph(13,1); } else if(p==1){ n=vh_n(6,60); for(it=0;it<n;it++) cubsph(13,0); }
  else if(p==2){ n=vh_n(4,20); for(it=0;it<n;it++) cubsph(26,1); } else if(p==3){ n=vh_n(4,15); for(it=0;it<n;it++) cubsph(32,1); } else if(p==4){ n=vh_n(4,15); for(it=0;it<n;it++) cubsph(38,1); }
  else if(p==5){ n=vh_n(40,400); for(it=0;it<n;it++) bricks(AR?0:vh_int(0,1)); } else if(p==6){ n=vh_n(30,300); for(it=0;it<n;it++) shells(); } else { n=vh_n(30,300); for(it=0;it<n;it++) bricks(3); }
  vh_end(); return 0; }
