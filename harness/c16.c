/* coordinate maps, their derivatives, inverse searches and Cartesian derivatives on real grids */
#include "vgrid.h"
int XYZ_of_xyz(tBox *box,double *X,double *Y,double *Z,double x,double y,double z); int b_XYZ_of_xyz(tGrid *g,double *X,double *Y,double *Z,double x,double y,double z); int b_XYZ_of_xyz_inboxlist(tGrid *g,int *bl,int nb,double *X,double *Y,double *Z,double x,double y,double z);
double nearestXYZ_of_xyz(tBox *box,int *ind,double *X,double *Y,double *Z,double x,double y,double z); double nearest_b_XYZ_of_xyz(tGrid *g,int *b,int *ind,double *X,double *Y,double *Z,double x,double y,double z); double nearest_b_XYZ_of_xyz_inboxlist(tGrid *g,int *bl,int nb,int *b,int *ind,double *X,double *Y,double *Z,double x,double y,double z); double nearestinnerXYZ_of_xyz(tBox *box,int *ind,double *X,double *Y,double *Z,double x,double y,double z);
double nearestXYZ_of_xyz_inplane(tBox *box,int *ind,double *X,double *Y,double *Z,double x,double y,double z,int plane,int pind); int XYZ_on_face(tBox *box,int *face,double X,double Y,double Z); int X_of_x_forgiven_YZ(tBox *box,double *X,double x,double Y,double Z); int b_X_of_x_forgiven_YZ(tGrid *g,double *X,double x,double Y,double Z); int b_X_of_x_forgiven_YZ_inboxlist(tGrid *g,int *bl,int nb,double *X,double x,double Y,double Z); int Y_of_y_forgiven_XZ(tBox *box,double *Y,double y,double X,double Z);
int arrange_1box12CubSph_into_full_cube(tGrid *g,int b0,double *xc,double,double,double); int two_full_cubes_touching_at_x0(tGrid *g,int b0,double dc,double,double,double,double); int sphere_around_two_full_cubes_touching_at_x0(tGrid *g,int b0,double dc,double,double,double,double,double r0); int two_spheres_around_two_full_cubes(tGrid *g,int b0,double dc,double,double,double,double,double r0,double r1); int ThetaPhi_of_AB_CubSph(tBox *box,double A,double B,double *T,double *P);
int box_extremum_of_F(tBox *box,int Fi,double *X,double *Y,double *Z,double *F); int box_extremum_of_F_in_dir(tBox *box,int Fi,int dir,double C1,double C2,double *C,double *F); int find_i_Of_X(tBox *b,double); int find_j_Of_Y(tBox *b,double); int find_k_Of_Z(tBox *b,double); void reset_doubleCoveredPoints(tVarList *u); void copy_to_doubleCoveredPoints_SphericalDF(tBox *box,int vind); void coordinateDependentFilter(tVarList *u);
void cart_partials(tBox *box,double *u,double *u1,double *u2,double *u3); void cart_partial_all(tBox *box,double *u,double *u1,double *u2,double *u3,double *u11,double *u12,double *u13,double *u22,double *u23,double *u33); void D_and_DD_of_Sab(tBox *box,int,int,int); void D_and_DD_of_Sa(tBox *box,int,int,int); void D_and_DD_of_S(tBox *box,int,int,int); void FirstDerivsOf_Sab(tBox*,int,int); void FirstDerivsOf_Sa(tBox*,int,int); void FirstDerivsOf_S(tBox*,int,int);
static const char *T;  /* coordinate type under test */
static double mapc(tBox *b,int k,const double *X,int ind){ return b->x_of_X[1]? b->x_of_X[k](b,ind,X[1],X[2],X[3]): X[k]; }
static double dXd(tBox *b,int i,int k,const double *X,int ind){ return b->dX_dx[i][k](b,ind,X[1],X[2],X[3]); }
static double ddXd(tBox *b,int i,int k,int l,const double *X,int ind){ int t; if(k>l){t=k;k=l;l=t;} return b->ddX_dxdx[i][k][l](b,ind,X[1],X[2],X[3]); }
static const double W6[3]={45/60.,-9/60.,1/60.};
static void jac(tBox *b,const double *X,double J[4][4],double *hs) /* J[k][j]=dx_k/dX_j */
{ int k,j,q; for(j=1;j<=3;j++){ double P[4]; memcpy(P,X,sizeof P); for(k=1;k<=3;k++) J[k][j]=0; for(q=1;q<=3;q++){ P[j]=X[j]+q*hs[j]; for(k=1;k<=3;k++) J[k][j]+=W6[q-1]*mapc(b,k,P,-1); P[j]=X[j]-q*hs[j]; for(k=1;k<=3;k++) J[k][j]-=W6[q-1]*mapc(b,k,P,-1); } for(k=1;k<=3;k++) J[k][j]/=hs[j]; } }
static double lo[4],hi[4]; /* regular region used for random points */
static void rpoint(double *X,double margin){ int j; for(j=1;j<=3;j++) X[j]=lo[j]+(hi[j]-lo[j])*vh_range(margin,1-margin); }
static int dist_ok(double a,double b,double tol){ return fabs(a-b)<=tol; }
/* what the map has to be, written down independently */
static int expected_map(tBox *b,const double *X,double *x)
{ double r=X[1],th,ph=X[3]; int n2=b->n2;
  if(!strcmp(T,"Cartesian")){ x[1]=X[1];x[2]=X[2];x[3]=X[3]; return 1; }
  if(!strcmp(T,"Polar")){ x[1]=r*cos(X[2]);x[2]=r*sin(X[2]);x[3]=X[3]; return 1; }
  if(!strcmp(T,"PolarCE")){ double N=n2-1,p=2*N/(N-1)*acos(1-X[2]/PI); x[1]=r*cos(p);x[2]=r*sin(p);x[3]=X[3]; return 1; }
  if(!strcmp(T,"tan_stretch")){ double s=Getd("tan_stretch_s"); int i; for(i=1;i<=3;i++) x[i]=s==0?X[i]:tan(X[i]*s*PI/2)*2/(PI*s); return 1; }
  if(!strcmp(T,"SphericalDF")||!strcmp(T,"compactSphericalDF")) { th=X[2]+PI/((1+n2%2)*n2); if(T[0]=='c') r=Getd("compactSphericalDF_r0")+tan(r*PI/2); }
  else if(!strcmp(T,"Spherical")) th=X[2]; else if(!strcmp(T,"Spherical2")) th=acos(X[2]);
  else if(!strcmp(T,"Spherical3")){ double c=Getd("Coordinates_Spherical3_c"); th=PI/2-PI/2*sinh(c*X[2])/sinh(c); } else return 0;
  x[1]=r*sin(th)*cos(ph); x[2]=r*sin(th)*sin(ph); x[3]=r*cos(th); return 1; }
static void maps(tBox *b,int np,double tolJ,double tolD)
{ int p,i,j,k,l; double hs[4]; for(j=1;j<=3;j++) hs[j]=2e-3*(hi[j]-lo[j]);
  for(p=0;p<np;p++){ double X[4],x[4],J[4][4]; rpoint(X,0.02); if(expected_map(b,X,x)) for(k=1;k<=3;k++){ double m=mapc(b,k,X,-1); VEXPECT(dist_ok(m,x[k],1e-11*(1+fabs(x[k]))),"map","%s: x%d(%.15g,%.15g,%.15g)=%.15g expected %.15g",T,k,X[1],X[2],X[3],m,x[k]); }
    if(!b->x_of_X[1]) continue;
    jac(b,X,J,hs); double D[4][4]; for(i=1;i<=3;i++) for(k=1;k<=3;k++) D[i][k]=dXd(b,i,k,X,-1);
    for(i=1;i<=3;i++) for(j=1;j<=3;j++){ double s=0,a=1; for(k=1;k<=3;k++){ s+=D[i][k]*J[k][j]; a+=fabs(D[i][k]*J[k][j]); } VEXPECT(dist_ok(s,i==j,tolJ*a),"first-derivative","%s box%d: sum_k dX%d/dx_k dx_k/dX%d = %.12g at (%.15g,%.15g,%.15g)",T,b->b,i,j,s,X[1],X[2],X[3]); }
    if(b->dx_dX[1][1]) for(k=1;k<=3;k++) for(j=1;j<=3;j++){ double v=b->dx_dX[k][j](b,-1,X[1],X[2],X[3]); VEXPECT(dist_ok(v,J[k][j],tolJ*(1+fabs(v))),"inverse-jacobian","%s: dx%d/dX%d=%.12g expected %.12g at (%.15g,%.15g,%.15g)",T,k,j,v,J[k][j],X[1],X[2],X[3]); }
    for(i=1;i<=3;i++) if(b->ddX_dxdx[i][1][1]) for(k=1;k<=3;k++) for(j=1;j<=3;j++){ double s=0,a=1,f=0,P[4]; int q; memcpy(P,X,sizeof P);
        for(l=1;l<=3;l++){ double t=ddXd(b,i,k,l,X,-1)*J[l][j]; s+=t; a+=fabs(t); } for(q=1;q<=3;q++){ P[j]=X[j]+q*hs[j]; f+=W6[q-1]*dXd(b,i,k,P,-1); P[j]=X[j]-q*hs[j]; f-=W6[q-1]*dXd(b,i,k,P,-1); } f/=hs[j];
        VEXPECT(dist_ok(s,f,tolD*a),"second-derivative","%s box%d: d/dX%d dX%d/dx%d = %.10g but second derivatives give %.10g at (%.15g,%.15g,%.15g)",T,b->b,j,i,k,f,s,X[1],X[2],X[3]); }
    vh_count("map points",1); } }
/* arrays on the grid */
static void stored(tBox *b,double tol)
{ int ix=Ind("x"),id=Ind("dXdx"),idd=Ind("ddXddxx"),i,k,l; long q; int st=Getv("CoordinateTransforms_stored","yes"); double *X=b->v[Ind("X")],*Y=b->v[Ind("Y")],*Z=b->v[Ind("Z")];
  if(!b->x_of_X[1]){ for(q=0;q<b->nnodes;q++) VEXPECT(b->v[ix][q]==X[q]&&b->v[ix+1][q]==Y[q]&&b->v[ix+2][q]==Z[q],"cartesian-xyz","box%d point %ld",b->b,q); return; }
  int isg=IndLax("Coordinates_AnsorgNS_sigma_pm"); long step=isg>=0&&b->v[isg]? 1+b->nnodes/40: 1; for(q=0;q<b->nnodes;q+=step){ double P[4]={0,X[q],Y[q],Z[q]}; for(k=1;k<=3;k++) VEXPECT(dist_ok(b->v[ix+k-1][q],mapc(b,k,P,-1),tol*(1+fabs(b->v[ix+k-1][q]))),"stored-xyz","%s box%d point %ld x%d=%.15g map gives %.15g",T,b->b,q,k,b->v[ix+k-1][q],mapc(b,k,P,-1));
    if(b->v[id]) for(i=1;i<=3;i++) for(k=1;k<=3;k++){ double s=b->v[id+3*(i-1)+k-1][q],f=dXd(b,i,k,P,q); VEXPECT(dist_ok(s,f,tol*(1+fabs(f))),"stored-first","%s box%d point %ld dX%d/dx%d stored %.15g function %.15g",T,b->b,q,i,k,s,f); }
    if(b->v[idd]){ static const int pos[4][4]={{0},{0,0,1,2},{0,1,3,4},{0,2,4,5}}; for(i=1;i<=3;i++) if(b->ddX_dxdx[i][1][1]) for(k=1;k<=3;k++) for(l=k;l<=3;l++){ double s=b->v[idd+6*(i-1)+pos[k][l]][q],f=ddXd(b,i,k,l,P,q); VEXPECT(dist_ok(s,f,tol*(1+fabs(f))),"stored-second","%s box%d point %ld ddX%d/dx%ddx%d stored %.15g function %.15g",T,b->b,q,i,k,l,s,f); } } }
  if(st) VEXPECT(b->v[id]!=NULL,"not-stored","%s box%d: transforms requested but not stored",T,b->b); else VEXPECT(strcmp(Gets("box0_CoordinateTransforms_generic"),"no")||b->v[id]==NULL,"stored-anyway","%s",T);
  vh_count("grid points with stored transforms",b->nnodes); }
/* smooth test functions of Cartesian position */
static double F_a[10][4],F_p[10]; static double F_k=1;
static void newF(double k){ int c,i; F_k=k; for(c=0;c<10;c++){ for(i=1;i<=3;i++) F_a[c][i]=k*vh_range(-1,1); F_p[c]=vh_range(0,6.28); } }
static double F(int c,double x,double y,double z,int i,int j){ double s=F_a[c][1]*x+F_a[c][2]*y+F_a[c][3]*z+F_p[c]; if(!i) return sin(s); if(!j) return F_a[c][i]*cos(s); return -F_a[c][i]*F_a[c][j]*sin(s); }
static int s_S,s_V,s_T,d_S,d_V,d_T,dd_S,dd_V,dd_T;
static void addvars(void){ AddVar("tsS","","t");AddVar("tsV","i","t");AddVar("tsT","(ij)","t");AddVar("tdS","i","t");AddVar("tdV","ij","t");AddVar("tdT","(ij)k","t");AddVar("tddS","(ij)","t");AddVar("tddV","i(jk)","t");AddVar("tddT","(ij)(kl)","t"); }
static void idx(tGrid *g){ s_S=Ind("tsS");s_V=Ind("tsVx");s_T=Ind("tsTxx");d_S=Ind("tdSx");d_V=Ind("tdVxx");d_T=Ind("tdTxxx");dd_S=Ind("tddSxx");dd_V=Ind("tddVxxx");dd_T=Ind("tddTxxxx"); enablevar(g,s_S);enablevar(g,s_V);enablevar(g,s_T);enablevar(g,d_S);enablevar(g,d_V);enablevar(g,d_T);enablevar(g,dd_S);enablevar(g,dd_V);enablevar(g,dd_T); }
static double *vv(tBox *b,int i){ return b->v[i]; }
static int ix3(tGrid *g,const char *base,int i,int j,int k,int l){ char s[60]; const char *c=" xyz"; int n=sprintf(s,"%s",base); if(i) s[n++]=c[i]; if(j) s[n++]=c[j]; if(k) s[n++]=c[k]; if(l) s[n++]=c[l]; s[n]=0; return Ind(s); }
static void cmp(tBox *b,const char *base,int i,int j,int k,int l,int c,int d1,int d2,double tol,const char *key)
{ int v=ix3(b->grid,base,i,j,k,l); double *u=b->v[v],*x=b->v[Ind("x")],*y=b->v[Ind("y")],*z=b->v[Ind("z")],m=0; long q,w=0; for(q=0;q<b->nnodes;q++){ double e=fabs(u[q]-F(c,x[q],y[q],z[q],d1,d2)); if(!(e<=m)){ m=e; w=q; } } double sc=F_k; if(getenv("VH_SHOW")) fprintf(stderr,"%s %s %s err %g tol %g\n",T,key,VarName(v),m,tol*sc);
  VEXPECT(m<=tol*sc,key,"%s box%d %s: error %g at point %ld (value %.12g expected %.12g) tolerance %g",T,b->b,VarName(v),m,w,u[w],F(c,x[w],y[w],z[w],d1,d2),tol*sc); vh_count("derivative arrays",1); }
static void derivs(tGrid *g,tBox *b,double t1,double t2,int second)
{ int a,bb,c,d; long q; double *x=b->v[Ind("x")],*y=b->v[Ind("y")],*z=b->v[Ind("z")]; static const int sym[4][4]={{0},{0,0,1,2},{0,1,3,4},{0,2,4,5}};
  for(q=0;q<b->nnodes;q++){ vv(b,s_S)[q]=F(0,x[q],y[q],z[q],0,0); for(a=1;a<=3;a++) vv(b,s_V+a-1)[q]=F(a,x[q],y[q],z[q],0,0); for(c=0;c<6;c++) vv(b,s_T+c)[q]=F(4+c,x[q],y[q],z[q],0,0); }
  int pass; for(pass=0;pass<(second?2:1);pass++){ int i; for(i=0;i<3;i++) memset(vv(b,d_S+i),0,8*b->nnodes); for(i=0;i<9;i++) memset(vv(b,d_V+i),0,8*b->nnodes); for(i=0;i<18;i++) memset(vv(b,d_T+i),0,8*b->nnodes);
    if(pass==0){ FirstDerivsOf_S(b,s_S,d_S); FirstDerivsOf_Sa(b,s_V,d_V); FirstDerivsOf_Sab(b,s_T,d_T); } else { D_and_DD_of_S(b,s_S,d_S,dd_S); D_and_DD_of_Sa(b,s_V,d_V,dd_V); D_and_DD_of_Sab(b,s_T,d_T,dd_T); }
    for(a=1;a<=3;a++){ cmp(b,"tdS",a,0,0,0,0,a,0,t1,"derivative"); for(c=1;c<=3;c++) cmp(b,"tdV",c,a,0,0,c,a,0,t1,"derivative"); for(c=1;c<=3;c++) for(d=c;d<=3;d++) cmp(b,"tdT",c,d,a,0,4+sym[c][d],a,0,t1,"derivative"); }
    if(pass) for(a=1;a<=3;a++) for(bb=a;bb<=3;bb++){ cmp(b,"tddS",a,bb,0,0,0,a,bb,t2,"second-deriv"); for(c=1;c<=3;c++) cmp(b,"tddV",c,a,bb,0,c,a,bb,t2,"second-deriv"); for(c=1;c<=3;c++) for(d=c;d<=3;d++) cmp(b,"tddT",c,d,a,bb,4+sym[c][d],a,bb,t2,"second-deriv"); } }
  for(q=0;q<b->nnodes;q++) VEXPECT(vv(b,s_S)[q]==F(0,x[q],y[q],z[q],0,0),"input-changed","%s",T); }
static double dist3(tBox *b,double X,double Y,double Z,double x,double y,double z){ double P[4]={0,X,Y,Z},dx=mapc(b,1,P,-1)-x,dy=mapc(b,2,P,-1)-y,dz=mapc(b,3,P,-1)-z; return sqrt(dx*dx+dy*dy+dz*dz); }
static int inbb(tBox *b,double X,double Y,double Z,double e){ double *q=b->bbox; return X>=q[0]-e&&X<=q[1]+e&&Y>=q[2]-e&&Y<=q[3]+e&&Z>=q[4]-e&&Z<=q[5]+e; }
/* one box with a Newton search */
static void inverse(tGrid *g,tBox *b,int np,int mustfind)
{ int p,j; int guess=Getv("Coordinates_XYZ_of_xyz_Guess","yes");
  for(p=0;p<np;p++){ double P[4],G[4],x[4]; rpoint(P,0.02); for(j=1;j<=3;j++){ x[j]=mapc(b,j,P,-1); } 
    double am=guess?1:vh_int(0,1)?0.01:0.05; for(j=1;j<=3;j++) G[j]=guess? vh_range(lo[j],hi[j]): fmin(fmax(P[j]+am*(hi[j]-lo[j])*vh_range(-1,1),lo[j]),hi[j]);
    double X=G[1],Y=G[2],Z=G[3]; double L=1+sqrt(x[1]*x[1]+x[2]*x[2]+x[3]*x[3]); int st=XYZ_of_xyz(b,&X,&Y,&Z,x[1],x[2],x[3]); double e=st>=0?dist3(b,X,Y,Z,x[1],x[2],x[3]):0;
    VEXPECT(st<0||e<1e-7*L,"search-wrong-point","%s: search for (%.15g,%.15g,%.15g) says %d but (%.15g,%.15g,%.15g) is %g away",T,x[1],x[2],x[3],st,X,Y,Z,e);
    if(mustfind) VEXPECT(st>=0,"search-failed","%s: point (%.15g,%.15g,%.15g) of (%.15g,%.15g,%.15g) not found from guess (%.15g,%.15g,%.15g): %d",T,x[1],x[2],x[3],P[1],P[2],P[3],G[1],G[2],G[3],st);
    X=G[1];Y=G[2];Z=G[3]; int bi=vh_int(0,1)?b_XYZ_of_xyz(g,&X,&Y,&Z,x[1],x[2],x[3]):b_XYZ_of_xyz_inboxlist(g,&b->b,1,&X,&Y,&Z,x[1],x[2],x[3]);
    if(bi>=0){ e=dist3(b,X,Y,Z,x[1],x[2],x[3]); VEXPECT(bi==b->b&&e<1e-7*L&&inbb(b,X,Y,Z,0),"box-search-wrong-point","%s: box %d (%.15g,%.15g,%.15g) is %g away",T,bi,X,Y,Z,e); vh_count("points found",1); } else if(mustfind&&!guess&&am<0.02) vh_fail("box-search-failed","%s: point (%.15g,%.15g,%.15g) not found in box (%d)",T,P[1],P[2],P[3],bi);
    /* outside the image of the box: beyond the largest or inside the smallest radius, off in z */
    { double fx=vh_range(-1,1),fy=vh_range(-1,1),fz=vh_range(-1,1),n=sqrt(fx*fx+fy*fy+fz*fz),mx=0,mn=1e300,zx=-1e300; long q; double *xx=b->v[Ind("x")],*yy=b->v[Ind("y")],*zz=b->v[Ind("z")]; for(q=0;q<b->nnodes;q++){ double r=sqrt(xx[q]*xx[q]+yy[q]*yy[q]+zz[q]*zz[q]); if(r>mx) mx=r; if(r<mn) mn=r; if(zz[q]>zx) zx=zz[q]; }
      double R=mx*vh_range(1.3,3); X=G[1];Y=G[2];Z=G[3]; bi=b_XYZ_of_xyz(g,&X,&Y,&Z,R*fx/n,R*fy/n,R*fz/n); VEXPECT(bi<0,"search-found-outside","%s: point at radius %g, largest in box is %g, found in box %d at (%.15g,%.15g,%.15g)",T,R,mx,bi,X,Y,Z); vh_count("outside points refused",1); }
    /* AnsorgNS: on the axis, where the map is singular, from a guess on the axis */
    if(b->isSing&&!Getv("Coordinates_AnsorgNS_sigma_pm_vars","yes")){ double Q[4],y[4]; memcpy(Q,P,sizeof Q); Q[2]=vh_int(0,1); for(j=1;j<=3;j++) y[j]=mapc(b,j,Q,-1); X=fmin(fmax(Q[1]+(guess?0.5:0.02)*(hi[1]-lo[1])*vh_range(-1,1),lo[1]),hi[1]); Y=Q[2]; Z=vh_int(0,2)?vh_range(0,2*PI):0; double ly=1+fabs(y[1])+fabs(y[2])+fabs(y[3]);
      int sa=XYZ_of_xyz(b,&X,&Y,&Z,y[1],y[2],y[3]); if(sa>=0){ e=dist3(b,X,Y,Z,y[1],y[2],y[3]); VEXPECT(e<1e-7*ly,"axis-search-wrong-point","%s: (%.15g,%.15g,%.15g) is %g away from (%.15g,%.15g,%.15g)",T,X,Y,Z,e,y[1],y[2],y[3]); vh_count("axis points found",1); } else vh_count("axis points not found",1); }
    /* points on a face of the box: rounding must not put the answer outside */
    int rf; for(rf=0;rf<6;rf++){ double Q[4],y[4]; int f=1+rf%3; memcpy(Q,P,sizeof Q); Q[f]=b->bbox[2*f-2+vh_int(0,1)]; if(lo[f]<=Q[f]&&Q[f]<=hi[f]){ for(j=1;j<=3;j++) y[j]=mapc(b,j,Q,-1); double gm=vh_int(0,2)?0.001:0; X=Q[1]+gm*(hi[1]-lo[1])*vh_range(-1,1);Y=Q[2]+gm*(hi[2]-lo[2])*vh_range(-1,1);Z=Q[3]+gm*(hi[3]-lo[3])*vh_range(-1,1); X=fmin(fmax(X,lo[1]),hi[1]);Y=fmin(fmax(Y,lo[2]),hi[2]);Z=fmin(fmax(Z,lo[3]),hi[3]);
      bi=vh_int(0,1)?b_XYZ_of_xyz(g,&X,&Y,&Z,y[1],y[2],y[3]):b_XYZ_of_xyz_inboxlist(g,&b->b,1,&X,&Y,&Z,y[1],y[2],y[3]); if(bi>=0){ e=dist3(b,X,Y,Z,y[1],y[2],y[3]); VEXPECT(bi==b->b&&e<1e-7*L&&inbb(b,X,Y,Z,0),"face-point-found-outside","%s: (%.17g,%.17g,%.17g) of (%.17g,%.17g,%.17g), %g away",T,X,Y,Z,Q[1],Q[2],Q[3],e); vh_count("face points found",1); } else vh_count("face points not found",1); } }
    /* search along one line */
    { X=G[1]; int s1=X_of_x_forgiven_YZ(b,&X,x[1],P[2],P[3]); double Q[4]={0,X,P[2],P[3]}; if(s1>=0){ VEXPECT(fabs(mapc(b,1,Q,-1)-x[1])<1e-7*L,"line-search","%s: X=%.15g",T,X); vh_count("line searches",1); } X=G[1]; bi=vh_int(0,1)?b_X_of_x_forgiven_YZ(g,&X,x[1],P[2],P[3]):b_X_of_x_forgiven_YZ_inboxlist(g,&b->b,1,&X,x[1],P[2],P[3]); Q[1]=X; if(bi>=0) VEXPECT(bi==b->b&&X>=b->bbox[0]&&X<=b->bbox[1]&&fabs(mapc(b,1,Q,-1)-x[1])<1e-7*L,"line-search-box","%s: X=%.15g",T,X);
      Y=G[2]; s1=Y_of_y_forgiven_XZ(b,&Y,x[2],P[1],P[3]); double Q2[4]={0,P[1],Y,P[3]}; if(s1>=0) VEXPECT(fabs(mapc(b,2,Q2,-1)-x[2])<1e-7*L,"line-search-y","%s: Y=%.15g",T,Y); } } }
static void nearest(tGrid *g)
{ int rep; for(rep=0;rep<20;rep++){ double x=vh_range(-2,2),y=vh_range(-2,2),z=vh_range(-2,2); if(rep%4==1){ tBox *o=g->box[vh_int(0,g->nboxes-1)]; long q=vh_int(0,2)?vh_rand()%o->nnodes:vh_int(0,1)*(o->nnodes-1); x=o->v[Ind("x")][q];y=o->v[Ind("y")][q];z=o->v[Ind("z")][q]; vh_count("nearest to a grid point itself",1); } int b,bm=-1,im=-1; double rm=1e300; int nl=0,bl[64];
    for(b=0;b<g->nboxes;b++) if(vh_int(0,1)) bl[nl++]=b; if(!nl) bl[nl++]=vh_int(0,g->nboxes-1);
    double rl=1e300; for(b=0;b<g->nboxes;b++){ tBox *o=g->box[b]; double *px=o->v[Ind("x")],*py=o->v[Ind("y")],*pz=o->v[Ind("z")],rb=1e300,ri=1e300; long q; for(q=0;q<o->nnodes;q++){ int i=q%o->n1,j=(q/o->n1)%o->n2,k=q/(o->n1*o->n2); double r=sqrt((px[q]-x)*(px[q]-x)+(py[q]-y)*(py[q]-y)+(pz[q]-z)*(pz[q]-z)); if(r<rb) rb=r; if(i>0&&j>0&&k>0&&i<o->n1-1&&j<o->n2-1&&k<o->n3-1&&r<ri) ri=r; }
      int ind=-1; double X,Y,Z,r=nearestXYZ_of_xyz(o,&ind,&X,&Y,&Z,x,y,z); 
#define CK(o,r,want,what) { double *Xp=(o)->v[Ind("X")],*Yp=(o)->v[Ind("Y")],*Zp=(o)->v[Ind("Z")],*qx=(o)->v[Ind("x")],*qy=(o)->v[Ind("y")],*qz=(o)->v[Ind("z")]; int okk=ind>=0&&ind<(o)->nnodes; double rr=okk?sqrt((qx[ind]-x)*(qx[ind]-x)+(qy[ind]-y)*(qy[ind]-y)+(qz[ind]-z)*(qz[ind]-z)):-1; VEXPECT(okk&&fabs(r-(want))<1e-12*(1+r)&&fabs(rr-(want))<1e-12*(1+r)&&Xp[ind]==X&&Yp[ind]==Y&&Zp[ind]==Z,what,"box%d: distance %.15g index %d, brute force %.15g",(o)->b,r,ind,(double)(want)); vh_count("nearest points",1); }
      CK(o,r,rb,"nearest"); if(o->n1>2&&o->n2>2&&o->n3>2){ r=nearestinnerXYZ_of_xyz(o,&ind,&X,&Y,&Z,x,y,z); CK(o,r,ri,"nearest-inner"); }
      { int pl=vh_int(1,3),n=pl==1?o->n1:pl==2?o->n2:o->n3,pi=vh_int(0,n-1); double rp=1e300; for(q=0;q<o->nnodes;q++){ int i=pl==1?q%o->n1:pl==2?(q/o->n1)%o->n2:q/(o->n1*o->n2); if(i!=pi) continue; double r2=sqrt((px[q]-x)*(px[q]-x)+(py[q]-y)*(py[q]-y)+(pz[q]-z)*(pz[q]-z)); if(r2<rp) rp=r2; } r=nearestXYZ_of_xyz_inplane(o,&ind,&X,&Y,&Z,x,y,z,pl,pi); CK(o,r,rp,"nearest-in-plane"); int i=pl==1?ind%o->n1:pl==2?(ind/o->n1)%o->n2:ind/(o->n1*o->n2); VEXPECT(i==pi,"nearest-in-plane","plane index"); }
      if(rb<rm){ rm=rb; bm=b; } int q2; for(q2=0;q2<nl;q2++) if(bl[q2]==b&&rb<rl) rl=rb; }
    int bi,ind; double X,Y,Z,r=nearest_b_XYZ_of_xyz(g,&bi,&ind,&X,&Y,&Z,x,y,z); tBox *o=g->box[bi]; CK(o,r,rm,"nearest-box"); r=nearest_b_XYZ_of_xyz_inboxlist(g,bl,nl,&bi,&ind,&X,&Y,&Z,x,y,z); o=g->box[bi]; CK(o,r,rl,"nearest-box-list"); (void)bm;(void)im; }
  { int b; for(b=0;b<g->nboxes;b++){ tBox *o=g->box[b]; double *X=o->v[Ind("X")],*Y=o->v[Ind("Y")],*Z=o->v[Ind("Z")]; int i=vh_int(0,o->n1-1),j=vh_int(0,o->n2-1),k=vh_int(0,o->n3-1); long q=i+(long)o->n1*(j+(long)o->n2*k); VEXPECT(find_i_Of_X(o,X[q])==i&&find_j_Of_Y(o,Y[q])==j&&find_k_Of_Z(o,Z[q])==k,"find-index","box%d %d %d %d",b,i,j,k); VEXPECT(find_i_Of_X(o,o->bbox[1]+0.3)==-1&&find_j_Of_Y(o,o->bbox[3]+0.3)==-1&&find_k_Of_Z(o,o->bbox[4]-0.3)==-1,"find-index","box%d: found a coordinate that is not there",b);
      int f[6],nf,want=0,m; double P[3]; for(m=0;m<3;m++){ int s=vh_int(0,2); P[m]=s==0?o->bbox[2*m]:s==1?o->bbox[2*m+1]:0.3*o->bbox[2*m]+0.7*o->bbox[2*m+1]; want+=s<2; } nf=XYZ_on_face(o,f,P[0],P[1],P[2]); int ok=nf==want; for(m=0;m<6;m++) if(f[m]!=(P[m/2]==o->bbox[m])) ok=0; VEXPECT(ok,"on-face","box%d: %d faces expected %d",b,nf,want); } } }
static void common(void){ vg_par("Coordinates_set_bfaces=no"); vg_par("Coordinates_newtMAXITS=1000"); }
/* single box types */
static void single(int type)
{ static const char *names[]={"Polar","PolarCE","SphericalDF","compactSphericalDF","Spherical","Spherical2","Spherical3","tan_stretch","AnsorgNS0","AnsorgNS1","AnsorgNS2","AnsorgNS3","Cartesian"};
  int n1,n2,n3,j,ans=type>=8&&type<=11; double bb[6]; const char *B1="ChebExtrema",*B2="ChebExtrema",*B3="Fourier"; double t1=2e-3,t2=1e-1; int der=1,second=1; T=names[type]; vg_reset(); addvars(); common(); vg_par("nboxes=1"); int sigvar=0,sigset=0; double r0=vh_range(0.5,2);
  int stp=vh_int(0,3)>0, dd=vh_int(0,1), guess=vh_int(0,2)==0, gen=0; vg_par("CoordinateTransforms_stored=%s",stp?"yes":"no"); vg_par("Coordinates_useDD=%s",dd?"yes":"no"); vg_par("Coordinates_XYZ_of_xyz_Guess=%s",guess?"yes":"no"); vg_par("compactSphericalDF_r0=%.17g",r0); double s=vh_int(0,5)?vh_range(0.1,0.8):0; vg_par("tan_stretch_s=%.17g",s); vg_par("Coordinates_Spherical3_c=%.17g",vh_range(0.5,3)); vg_par("Coordinates_AnsorgNS_b=%.17g",vh_range(0.8,1.5)); int ver=vh_int(0,2); vg_par("Coordinates_AnsorgNS_version=%s",ver==0?"AnsorgNS":ver==1?"NAnsorgNS":"DDAnsorgNS"); 
  n1=vh_int(16,20);n2=vh_int(18,22);n3=2*vh_int(9,12)+vh_int(0,1); bb[0]=vh_range(0.8,1.5); bb[1]=bb[0]+vh_range(0.3,0.8); bb[2]=-1;bb[3]=1; bb[4]=0;bb[5]=2*PI;
  lo[1]=bb[0];hi[1]=bb[1];
  switch(type){
  case 0: case 1: B2=type?"ChebExtrema":"Fourier"; B3="ChebExtrema"; bb[2]=0;bb[3]=2*PI;bb[4]=vh_range(-2,0);bb[5]=bb[4]+vh_range(0.5,1.5); if(type) { der=0; second=0; } gen=!type&&vh_int(0,1); if(!type&&!gen&&dd) second=0; break;
  case 2: case 3: B2="Fourier"; n2=2*vh_int(9,11)+(vh_int(0,3)==0); bb[2]=0;bb[3]=2*PI; if(type==3){ bb[0]=vh_range(0,0.3); bb[1]=bb[0]+vh_range(0.1,0.4); } break;
  case 4: bb[2]=vh_range(0.4,0.9); bb[3]=vh_range(1.8,2.6); B2=vh_int(0,1)?"ChebZeros":"ChebExtrema"; break;
  case 5: bb[2]=vh_range(-0.8,-0.2); bb[3]=vh_range(0.1,0.8); break;
  case 6: bb[2]=vh_range(-0.6,-0.2); bb[3]=vh_range(0.1,0.6); break;
  case 7: B3="ChebExtrema"; for(j=0;j<3;j++){ bb[2*j]=vh_range(-1,0.3); bb[2*j+1]=fmin(1,bb[2*j]+vh_range(0.4,0.9)); } break;
  case 12: B3="ChebExtrema"; for(j=0;j<3;j++){ bb[2*j]=vh_range(-1,0.3); bb[2*j+1]=bb[2*j]+vh_range(0.4,1.9); } break;
  default: { int in=type==8||type==11; bb[0]=in?vh_range(0.05,0.15):vh_range(0.1,0.3); bb[1]=in?vh_range(0.35,0.5):vh_range(0.6,0.8); bb[2]=vh_range(0.2,0.35); bb[3]=vh_range(0.6,0.8); sigvar=vh_int(0,1); if(vh_int(0,3)==0) gen=1;  t1=5e-2;t2=0.5; n1=vh_int(20,22);n2=vh_int(20,22); n3=20; } }
  if(sigvar){ vg_par("Coordinates_AnsorgNS_sigma_pm_vars=yes"); n1=vh_int(5,7); n2=vh_int(10,14); n3=2*vh_int(5,7); bb[2]=0; bb[3]=1; der=0; second=0; }
  for(j=0;j<3;j++){ lo[j+1]=bb[2*j]; hi[j+1]=bb[2*j+1]; } if(type==1){ lo[2]=0.5; hi[2]=5.7; } if(sigvar){ lo[2]=0.2; hi[2]=0.8; }
  if(type==2||type==3){ /* stay in one regular piece of theta, away from the poles */ double sh=PI/((1+n2%2)*n2); if(vh_int(0,1)){ lo[2]=0.3-sh; hi[2]=2.8-sh; } else { lo[2]=PI+0.3-sh; hi[2]=2*PI-0.3-sh; } }
  vg_par("box0_Coordinates=%s",T); if(gen) vg_par("box0_CoordinateTransforms_generic=ddXdxdx"); vg_box(0,n1,n2,n3,B1,B2,B3,bb);
  vh_at("%s: %s",T,vg_desc); AddVar("temp1","","t");AddVar("temp2","","t");AddVar("temp3","","t");
  initialize_libraries(); RunFun(POST_PARAMETERS,0); RunFun(PRE_GRID,0); tGrid *g=make_grid(0); RunFun(POST_GRID,g); tBox *b=g->box[0];
  if(sigvar){ int is=Ind("Coordinates_AnsorgNS_sigma_pm"); enablevar(g,is); double c=vh_range(-0.3,0.3),c2=vh_range(-0.2,0.2); long q; double *Y=b->v[Ind("Y")],*Z=b->v[Ind("Z")]; for(q=0;q<b->nnodes;q++){ double v=1+c*Y[q]*(1-Y[q])*cos(Z[q])+c2*Y[q]*(1-Y[q])*(1-Y[q]); b->v[is][q]=type<=9?v:-v; } sigset=1; (void)sigset; }
  RunFun(PRE_COORDINATES,g); RunFun(COORDINATES,g); idx(g); enablevar(g,Ind("temp1")); enablevar(g,Ind("temp2")); enablevar(g,Ind("temp3"));
  { int k,any=0; for(k=1;k<=3;k++) if(b->ddX_dxdx[k][1][1]==NULL) any=1; if(any&&dd) second=0; }
  if(!gen) maps(b,vh_n(12,40),1e-8,1e-7); else { /* generic functions only work on grid points */ void *sv[4][4][4]; memcpy(sv,b->ddX_dxdx,sizeof sv); (void)sv; int i,k,l; double (*keep[4][4][4])(void*,int,double,double,double); memcpy(keep,b->ddX_dxdx,sizeof keep); for(i=1;i<=3;i++) for(k=1;k<=3;k++) for(l=1;l<=3;l++) b->ddX_dxdx[i][k][l]=NULL; maps(b,vh_n(6,20),1e-8,1e-7); memcpy(b->ddX_dxdx,keep,sizeof keep); }
  stored(b,1e-9);
  if(type!=12) inverse(g,b,vh_n(4,20),0*guess+ (type!=1&&!ans)); else nearest(g);
  if(type!=12&&vh_int(0,1)) nearest(g);
  newF(vh_range(0.3,1)); if(ans) newF(vh_range(0.1,0.25));
  if(der&&g->box[0]->n1>8) derivs(g,b,t1,t2,second);
  vh_count(T,1); vh_case(1,"%s",vg_desc); (void)sigset; vg_free(g); }
/* double covered points and pole filters */
static void poles(void)
{ vg_reset(); addvars(); common(); AddVar("temp1","","t"); vg_par("nboxes=1"); static const char *nm[]={"SphericalDF","Spherical","Spherical2","Spherical3"}; int ty=vh_int(0,3); T=nm[ty]; int n1=vh_int(3,13),n2=2*vh_int(3,6),n3=2*vh_int(3,10),i,j,k; double bb[6]={1,2,ty==0?0:ty==1?0.1:-0.97,ty==0?2*PI:ty==1?3.0:0.98,0,2*PI}; vg_par("box0_Coordinates=%s",T); vg_box(0,n1,n2,n3,"ChebExtrema",ty?"ChebZeros":"Fourier","Fourier",bb); vg_par("Coordinates_Spherical3_c=%.17g",vh_range(0.5,3)); vh_at("poles %s",vg_desc); tGrid *g=vg_make(1); idx(g); enablevar(g,Ind("temp1")); tBox *b=g->box[0]; double *x=b->v[Ind("x")],*y=b->v[Ind("y")],*z=b->v[Ind("z")],*u=b->v[s_S]; long q,N=b->nnodes; double *sv=malloc(8*N);
  for(q=0;q<N;q++) sv[q]=u[q]=vh_range(-1,1); tVarList *vl=vlalloc(g); vlpush(vl,s_S); vlpush(vl,s_V); double *w=b->v[s_V]; for(q=0;q<N;q++) w[q]=F(1,x[q],y[q],z[q],0,0);
  for(k=1;k<3;k++) for(q=0;q<N;q++) b->v[s_V+k][q]=q;
  coordinateDependentFilter(vl);
  for(j=0;j<n2;j++){ double th; q=(long)n1*j; { double r=sqrt(x[q]*x[q]+y[q]*y[q]+z[q]*z[q]); th=acos(z[q]/r); } int M=(int)(n3/2*fabs(sin(th))); if(fabs(n3/2*fabs(sin(th))-floor(n3/2*fabs(sin(th))+0.5))<1e-9) continue; /* rounding decides */
    for(i=0;i<n1;i++){ int m; for(m=0;m<=n3/2;m++){ double c0=0,s0=0,c1=0,s1=0; for(k=0;k<n3;k++){ q=i+(long)n1*(j+(long)n2*k); double a=2*PI*m*k/n3; c0+=sv[q]*cos(a); s0+=sv[q]*sin(a); c1+=u[q]*cos(a); s1+=u[q]*sin(a); } if(m<=M) VEXPECT(fabs(c1-c0)<1e-9*n3&&fabs(s1-s0)<1e-9*n3,"pole-filter-kept","%s j=%d m=%d of %d allowed: %g %g became %g %g",T,j,m,M,c0,s0,c1,s1); else VEXPECT(fabs(c1)<1e-9*n3&&fabs(s1)<1e-9*n3,"pole-filter-removed","%s j=%d m=%d of %d allowed: left %g %g",T,j,m,M,c1,s1); } } }
  if(ty==0){ for(q=0;q<N;q++) sv[q]=u[q]=vh_range(-1,1); copy_to_doubleCoveredPoints_SphericalDF(b,s_S); int pass; for(pass=0;pass<2;pass++){ for(k=0;k<n3;k++) for(j=0;j<n2;j++) for(i=0;i<n1;i++){ long p=i+(long)n1*(j+(long)n2*k),p2=i+(long)n1*((n2-1-j)+(long)n2*((k+n3/2)%n3)); VEXPECT(fabs(x[p]-x[p2])+fabs(y[p]-y[p2])+fabs(z[p]-z[p2])<1e-12,"harness","double cover"); double want=pass==0?(j<n2/2?sv[p]:sv[p2]):0.5*(sv[p]+sv[p2]); VEXPECT(fabs(u[p]-want)<1e-15,"double-covered","pass %d point %d %d %d: %g expected %g",pass,i,j,k,u[p],want); } if(!pass){ for(q=0;q<N;q++) sv[q]=u[q]=vh_range(-1,1); double *w=b->v[s_V]; double *svw=malloc(8*N); memcpy(svw,w,8*N); reset_doubleCoveredPoints(vl); free(svw); } } vh_count("double cover grids",1); }
  vh_count("pole filter grids",1); vh_case(1,"poles %s",vg_desc); free(sv); vlfree(vl); vg_free(g); }
/* extrema of variables in a Cartesian box */
static void extrema(void)
{ vg_reset(); addvars(); common(); vg_par("nboxes=1"); T="Cartesian"; double bb[6]; int j; for(j=0;j<3;j++){ bb[2*j]=vh_range(-2,1); bb[2*j+1]=bb[2*j]+vh_range(0.5,3); } vg_box(0,vh_int(6,12),vh_int(6,12),vh_int(6,12),"ChebExtrema","ChebExtrema","ChebExtrema",bb); vh_at("extrema %s",vg_desc); tGrid *g=vg_make(1); idx(g); tBox *b=g->box[0]; double *X=b->v[Ind("X")],*Y=b->v[Ind("Y")],*Z=b->v[Ind("Z")],P[3],c[3],s=vh_int(0,1)?1:-1,f0=vh_range(-2,2); for(j=0;j<3;j++){ P[j]=bb[2*j]+(bb[2*j+1]-bb[2*j])*vh_range(0.15,0.85); c[j]=vh_range(0.3,2); } long q; for(q=0;q<b->nnodes;q++){ double d[3]={X[q]-P[0],Y[q]-P[1],Z[q]-P[2]}; b->v[s_S][q]=f0+s*(c[0]*d[0]*d[0]+c[1]*d[1]*d[1]+c[2]*d[2]*d[2]+0.1*d[0]*d[1]); }
  double x=0.5*(bb[0]+bb[1]),y=0.5*(bb[2]+bb[3]),z=0.5*(bb[4]+bb[5]),e; int st=box_extremum_of_F(b,s_S,&x,&y,&z,&e); VEXPECT(st>=0&&fabs(x-P[0])<1e-6&&fabs(y-P[1])<1e-6&&fabs(z-P[2])<1e-6&&fabs(e-f0)<1e-10,"extremum","status %d: (%.12g,%.12g,%.12g) value %.12g expected (%.12g,%.12g,%.12g) %.12g",st,x,y,z,e,P[0],P[1],P[2],f0);
  int d=vh_int(1,3); double C; double q1=d==1?P[1]:P[0],q2=d==3?P[1]:P[2]; st=box_extremum_of_F_in_dir(b,s_S,d,q1,q2,&C,&e); VEXPECT(st>=0&&fabs(C-P[d-1])<1e-7&&fabs(e-f0)<1e-10,"extremum-in-dir","dir %d status %d: %.12g value %.12g expected %.12g %.12g",d,st,C,e,P[d-1],f0); vh_count("extrema",2);
  { int o=vh_int(0,2),up=vh_int(0,1); double w=bb[2*o+1]-bb[2*o],D=up? bb[2*o+1]+w*vh_range(0.05,0.5): bb[2*o]-w*vh_range(0.05,0.5),O[3]={P[0],P[1],P[2]}; O[o]=D; for(q=0;q<b->nnodes;q++){ double d0=X[q]-O[0],d1=Y[q]-O[1],d2=Z[q]-O[2]; b->v[s_S][q]=f0+s*(c[0]*d0*d0+c[1]*d1*d1+c[2]*d2*d2); } /* no extremum inside the box */
    x=P[0];y=P[1];z=P[2]; if(o==0) x=up?bb[1]:bb[0]; if(o==1) y=up?bb[3]:bb[2]; if(o==2) z=up?bb[5]:bb[4]; if(vh_int(0,1)){ x=0.5*(bb[0]+bb[1]);y=0.5*(bb[2]+bb[3]);z=0.5*(bb[4]+bb[5]); } st=box_extremum_of_F(b,s_S,&x,&y,&z,&e); double v=f0+s*(c[0]*(x-O[0])*(x-O[0])+c[1]*(y-O[1])*(y-O[1])+c[2]*(z-O[2])*(z-O[2]));
    VEXPECT(inbb(b,x,y,z,0)&&fabs(e-v)<1e-9*(1+fabs(v)),"extremum-outside","status %d: (%.12g,%.12g,%.12g) value %.12g expected %.12g",st,x,y,z,e,v); vh_count("searches for an extremum outside the box",1); }
  vh_case(1,"ex %s",vg_desc); vg_free(g); }
/* cubed sphere arrangements */
static double exactint(int nb,double *xc,double dc,double R,int what) /* what 0: volume, 1: x^2, 2: z^2 */
{ if(nb==13){ double d=dc,V=8*d*d*d; return what==0?V:V*((what==1?xc[1]*xc[1]:xc[3]*xc[3])+d*d/3); } if(nb==26){ double V=16*dc*dc*dc; return what==0?V:what==1?V*(4*dc*dc/3):V*dc*dc/3; } double V=4./3*PI*R*R*R; return what==0?V:V*R*R/5; }
static void cubsph(int nb,int deform,int it_)
{ int n1=vh_int(5,7),n2=vh_int(14,16),n3=deform==2?n2:vh_int(14,16),b,k; static char nm[40]; sprintf(nm,"CubedSpheres%d%s",nb,deform==2?"F":deform?"def":""); T=nm; vg_reset(); addvars(); common(); AddVar("temp1","","t");AddVar("temp2","","t");AddVar("temp3","","t"); vg_par("nboxes=%d",nb); int gen=!deform&&vh_int(0,1),st=gen||vh_int(0,3)>0; 
  if(nb>=38) n1=12; vg_par("CoordinateTransforms_stored=%s",st?"yes":"no"); vg_par("Coordinates_useDD=%s",gen?"yes":"no"); if(deform==2) vg_par("Coordinates_CubedSphere_sigma01_lmax=%d",vh_int(2,5));
  double bb[6]={0,1,-1,1,-1,1}; for(b=0;b<nb;b++){ int c=b==0||(nb>13&&b==13); vg_box(b,c?10:n1,c?10:n2,c?10:n3,"ChebExtrema","ChebExtrema","ChebExtrema",bb); if(gen&&!c) vg_par("box%d_CoordinateTransforms_generic=ddXdxdx",b); }
  initialize_libraries(); RunFun(POST_PARAMETERS,0); RunFun(PRE_GRID,0); tGrid *g=make_grid(0); RunFun(POST_GRID,g);
  double xc[4]={0,vh_range(-2,2),vh_range(-1,1),vh_range(-1,1)},dc,R=0,R1=0; int def=Ind("Coordinates_CubedSphere_sigma01_def"); double radius[64][2];
  if(deform) for(b=1;b<13;b++) enablevar_inbox(g->box[b],def);
  if(nb==13){ double a=vh_range(0.2,0.4),m=a*sqrt(3)+vh_range(0.05,0.3); dc=m+vh_range(0.1,0.6); m=fmin(m,dc*0.95); arrange_1box12CubSph_into_full_cube(g,0,xc,a,m,dc); }
  else { dc=vh_range(0.8,1.2); double a=vh_range(0.2,0.3)*dc,m=vh_range(0.6,0.8)*dc,a2=vh_range(0.2,0.3)*dc,m2=vh_range(0.6,0.8)*dc; R=dc*sqrt(6)*vh_range(1.1,1.6); R1=R*vh_range(1.5,3); if(nb==26) two_full_cubes_touching_at_x0(g,0,dc,a,m,a2,m2); else if(nb==32) sphere_around_two_full_cubes_touching_at_x0(g,0,dc,a,m,a2,m2,R); else two_spheres_around_two_full_cubes(g,0,dc,a,m,a2,m2,R,R1); }
  vh_at("%s n=%d %d %d gen=%d stored=%d dc=%g R=%g %g",T,n1,n2,n3,gen,st,dc,R,R1); (void)radius;
  if(deform){ double c1=vh_range(-0.08,0.08),c2=vh_range(-0.08,0.08),c3=vh_range(-0.05,0.05); for(b=1;b<13;b++){ tBox *o=g->box[b]; int si=b<7; double *sg=o->v[o->CI->iFS[si]],*Y=o->v[Ind("Y")],*Z=o->v[Ind("Z")]; int i=si?o->n1-1:0,j; for(k=0;k<o->n3;k++) for(j=0;j<o->n2;j++){ long q=i+(long)o->n1*(j+(long)o->n2*k); double th,ph; ThetaPhi_of_AB_CubSph(o,Y[q],Z[q],&th,&ph); sg[q]*=1+c1*sin(th)*cos(th)*cos(ph)+c2*sin(th)*sin(th)*sin(2*ph)+c3*cos(th); } if(deform==2) o->CI->useF=1; } }
  RunFun(PRE_COORDINATES,g); RunFun(COORDINATES,g); idx(g); enablevar(g,Ind("temp1")); enablevar(g,Ind("temp2")); enablevar(g,Ind("temp3"));
  /* maps, derivatives on some boxes */
  int nt=vh_n(4,10),t; for(t=0;t<nt;t++){ tBox *o=g->box[t==0?vh_int(nb-6,nb-1):vh_int(0,nb-1)]; int j; for(j=0;j<3;j++){ lo[j+1]=o->bbox[2*j]; hi[j+1]=o->bbox[2*j+1]; }
    const char *sv=T; if(!o->x_of_X[1]) T="Cartesian"; void *dsave=NULL; (void)dsave; double (*keep[4][4][4])(void*,int,double,double,double); memcpy(keep,o->ddX_dxdx,sizeof keep); if(gen) memset(o->ddX_dxdx,0,sizeof keep); maps(o,vh_n(4,10),deform?1e-6:1e-8,1e-7); memcpy(o->ddX_dxdx,keep,sizeof keep); stored(o,deform?1e-7:1e-9); T=sv;
    if(o->x_of_X[1]&&gen){ /* generic second derivatives: consistency on the grid through the derivative test below */ }
    newF(vh_range(0.3,0.8)/(nb>=32?R:1)); if(t<vh_n(2,10)) derivs(g,o,nb>=32?6e-2:1e-2,nb>=32?5:0.4,deform<2);
    /* geometry of faces: surfaces of the right shape */
    if(o->x_of_X[1]&&!deform){ double A=vh_range(o->bbox[2],o->bbox[3]),B=vh_range(o->bbox[4],o->bbox[5]); int si; for(si=0;si<2;si++){ double P[4]={0,si,A,B},d[4],r=0,mx=0; int kk; for(kk=1;kk<=3;kk++){ d[kk]=mapc(o,kk,P,-1)-o->CI->xc[kk]; r+=d[kk]*d[kk]; } r=sqrt(r); mx=fabs(d[o->CI->dom/2+1]); int curved=si?(o->CI->type==3||o->CI->type==4):(o->CI->type==2||o->CI->type==4); double got=curved?r:mx; VEXPECT(fabs(got-o->CI->s[si])<1e-11*(1+got),"surface-shape","%s box%d type %d side %d: distance %.15g expected %.15g",T,o->b,o->CI->type,si,got,o->CI->s[si]); VEXPECT((d[o->CI->dom/2+1]>0)==(o->CI->dom%2),"surface-side","%s box%d dom %d",T,o->b,o->CI->dom); } } }
  /* every point of the region lies in exactly one box, and the search tells which */
  int np=vh_n(150,600); for(t=0;t<np;t++){ double L=nb==13?dc:nb==26?2*dc:nb==32?R:R1,x[4]; int inside; if(nb==13){ for(k=1;k<=3;k++) x[k]=xc[k]+dc*vh_range(-1.3,1.3); inside=1; double marg=1; for(k=1;k<=3;k++){ double m=dc-fabs(x[k]-xc[k]); if(m<0) inside=0; marg=fmin(marg,fabs(m)); } if(marg<1e-6) continue; }
    else if(nb==26){ x[1]=2*dc*vh_range(-1.2,1.2); x[2]=dc*vh_range(-1.2,1.2); x[3]=dc*vh_range(-1.2,1.2); double m=fmin(fmin(2*dc-fabs(x[1]),dc-fabs(x[2])),dc-fabs(x[3])); if(fabs(m)<1e-6||fabs(x[1])<1e-6) continue; inside=m>0; }
    else { double fx=vh_range(-1,1),fy=vh_range(-1,1),fz=vh_range(-1,1),n=sqrt(fx*fx+fy*fy+fz*fz),rr=vh_int(0,1)?L*vh_range(0.02,1.2):dc*vh_range(0.05,2.2); if(n<0.1||fabs(rr-L)<1e-6) continue; x[1]=rr*fx/n;x[2]=rr*fy/n;x[3]=rr*fz/n; inside=rr<L; }
    int cnt=0,near=0,one=-1; for(b=0;b<nb;b++){ double X=0,Y=0,Z=0; int r=b_XYZ_of_xyz_inboxlist(g,&b,1,&X,&Y,&Z,x[1],x[2],x[3]); if(r>=0){ tBox *o=g->box[b]; cnt++; one=b; double e=dist3(o,X,Y,Z,x[1],x[2],x[3]); VEXPECT(r==b&&e<1e-8*(1+L)&&inbb(o,X,Y,Z,0),"box-search-wrong-point","%s box %d: (%.15g,%.15g,%.15g) is %g away",T,r,X,Y,Z,e); double *q=o->bbox,h=1e-5; if(X<q[0]+h*(q[1]-q[0])||X>q[1]-h*(q[1]-q[0])||Y<q[2]+h||Y>q[3]-h||Z<q[4]+h||Z>q[5]-h) near=1; } }
    double X=0,Y=0,Z=0; int bi=b_XYZ_of_xyz(g,&X,&Y,&Z,x[1],x[2],x[3]);
    if(!inside){ VEXPECT(cnt==0&&bi<0,"search-found-outside","%s: (%.15g,%.15g,%.15g) lies outside but %d boxes (%d) claim it",T,x[1],x[2],x[3],cnt,one); vh_count("outside points refused",1); }
    else { VEXPECT(cnt>=1&&bi>=0,"point-in-no-box","%s: (%.15g,%.15g,%.15g) is in no box",T,x[1],x[2],x[3]); if(!near) VEXPECT(cnt==1&&bi==one,"point-in-several-boxes","%s: (%.15g,%.15g,%.15g) is in %d boxes, search says %d",T,x[1],x[2],x[3],cnt,bi); vh_count("points found",1); } }
  /* centre of the cubed spheres: not in any of them */
  { int b0=nb==13||nb==26?1:nb-6; tBox *o=g->box[b0]; int bl[6]; for(k=0;k<6;k++) bl[k]=b0+k; double X=0,Y=0,Z=0; int bi=b_XYZ_of_xyz_inboxlist(g,bl,6,&X,&Y,&Z,o->CI->xc[1],o->CI->xc[2],o->CI->xc[3]); VEXPECT(bi<0,"centre-found","%s: the centre is not in boxes %d..%d but the search gives box %d at (%g,%g,%g)",T,b0,b0+5,bi,X,Y,Z); }
  /* grid points are found in a box that contains them */
  for(t=0;t<vh_n(40,200);t++){ tBox *o=g->box[vh_int(0,nb-1)]; long q=vh_rand()%o->nnodes; double x=o->v[Ind("x")][q],y=o->v[Ind("y")][q],z=o->v[Ind("z")][q],X=0,Y=0,Z=0; int bi=b_XYZ_of_xyz_inboxlist(g,&o->b,1,&X,&Y,&Z,x,y,z); VEXPECT(bi==o->b&&dist3(o,X,Y,Z,x,y,z)<1e-8*(1+fabs(x)+fabs(y)+fabs(z)),"grid-point-not-found","%s box%d point %ld: %d",T,o->b,q,bi); if(bi==o->b) VEXPECT(inbb(o,X,Y,Z,0),"grid-point-found-outside","%s box%d point %ld: (%.17g,%.17g,%.17g)",T,o->b,q,X,Y,Z); X=Y=Z=0; bi=b_XYZ_of_xyz(g,&X,&Y,&Z,x,y,z); if(bi>=0) VEXPECT(dist3(g->box[bi],X,Y,Z,x,y,z)<1e-8*(1+fabs(x)+fabs(y)+fabs(z))&&inbb(g->box[bi],X,Y,Z,0),"grid-point-found-outside","%s box%d point %ld: box %d (%.17g,%.17g,%.17g)",T,o->b,q,bi,X,Y,Z); vh_count("grid points searched",1); }
  for(t=0;t<vh_n(60,300);t++){ tBox *o=g->box[vh_int(0,nb-1)]; int f; double Q[4],y[4],X=0,Y=0,Z=0; for(f=1;f<=3;f++) Q[f]=o->bbox[2*f-2]+(o->bbox[2*f-1]-o->bbox[2*f-2])*vh_range(0.01,0.99); f=1+t%3; Q[f]=o->bbox[2*f-2+vh_int(0,1)]; for(f=1;f<=3;f++) y[f]=mapc(o,f,Q,-1);
    int all=vh_int(0,1),bi=all? b_XYZ_of_xyz(g,&X,&Y,&Z,y[1],y[2],y[3]): b_XYZ_of_xyz_inboxlist(g,&o->b,1,&X,&Y,&Z,y[1],y[2],y[3]); if(bi>=0) VEXPECT((all||bi==o->b)&&dist3(g->box[bi],X,Y,Z,y[1],y[2],y[3])<1e-8*(1+fabs(y[1])+fabs(y[2])+fabs(y[3]))&&inbb(g->box[bi],X,Y,Z,0),"face-point-found-outside","%s box%d: (%.17g,%.17g,%.17g) found in box%d at (%.17g,%.17g,%.17g)",T,o->b,Q[1],Q[2],Q[3],bi,X,Y,Z); vh_count(bi>=0?"face points found":"face points not found",1); }
  if(it_==0) nearest(g);
  /* volumes and moments */
  if(st){ int w; for(w=0;w<3;w++){ for(b=0;b<nb;b++){ tBox *o=g->box[b]; double *x=o->v[Ind("x")],*z=o->v[Ind("z")]; long q; for(q=0;q<o->nnodes;q++) o->v[s_S][q]=w==0?1:w==1?x[q]*x[q]:z[q]*z[q]; } double I=GridVolumeIntegral(g,s_S),E=exactint(nb,xc,dc,nb==32?R:R1,w); double rt=nb>=32?1e-3:deform?1e-4:1e-5; if(getenv("VH_SHOW")) fprintf(stderr,"%s volume %d rel err %g\n",T,w,I/E-1); VEXPECT(fabs(I/E-1)<rt,"volume","%s integral %d: %.12g expected %.12g",T,w,I,E); vh_count("volume integrals",1); } }
  vh_count(T,1); vh_case(1,"%s %d %d %d %d %g",T,n1,n2,n3,gen,dc); vg_free(g); }
int main(int ac,char **av)
{ int part=atoi(av[1]),it,n; vh_init(1600+part); vh_silence();
  if(part<13){ n=vh_n(part>=8&&part<12?3:6,120); for(it=0;it<n;it++) single(part); }
  else if(part==13){ n=vh_n(80,1500); for(it=0;it<n;it++){ poles(); extrema(); } }
  else { static const int nbs[]={13,26,32,38,13,13}; n=vh_n(part==17?2:part==16?3:4,50); for(it=0;it<n;it++) cubsph(nbs[part-14],part>=18?part-17:0,it); }
  vh_end(); return 0; }
