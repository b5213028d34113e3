/* c09.c : a module that gives output variables known contents and records what should appear in the output files.
   usage: c09 RECORD sgrid-args...   (parameters o9_seed, o9_quick "IT BOX KIND FAKET FAKEIT", o9_smooth)
   record: binary; see rec() */
#include "sgrid.h"
#include "vh.h"
void quick_Vars_output(tBox *box, char *names, double fake_t, int fake_i);
void quick_Array_output(tBox *box, double *Ar, char *name, double fake_t, int fake_i);
void quick_VarList_output(tBox *box, tVarList *vl, double fake_t, int fake_i);
static FILE *R; static int seed; static long phase;
static void wi(long i){ int64_t k=i; fwrite(&k,8,1,R); } static void wd(double d){ fwrite(&d,8,1,R); }
static void ws(const char *s){ wi(strlen(s)); fwrite(s,1,strlen(s),R); }
static const char *P(const char *n,const char *def){ char *s=GetsLax((char*)n); return s?s:def; }
static int isours(const char *n){ return !strncmp(n,"o9_",3); }
static uint64_t state(tGrid *g) /* everything but the scratch variables of the output module */
{ uint64_t h=1469598103934665603ULL; int i,b,p; size_t k;
  for(i=0;i<g->nvariables;i++){ if(!strncmp(VarName(i),"output_temp",11)) continue; for(b=0;b<g->nboxes;b++){ unsigned char *c=(unsigned char*)g->box[b]->v[i]; h^=(c!=0)+3*i; h*=1099511628211ULL; if(c) for(k=0;k<8*g->box[b]->nnodes;k++){ h^=c[k]; h*=1099511628211ULL; } } }
  for(p=0;p<GetnParameters();p++){ char *s=GetsInd(p); for(k=0;s[k];k++){ h^=(unsigned char)s[k]; h*=1099511628211ULL; } h^=p; h*=1099511628211ULL; }
  h^=(uint64_t)(g->iteration*31); h*=1099511628211ULL; { uint64_t q; memcpy(&q,&g->time,8); h^=q; h*=1099511628211ULL; } return h; }
static void rec(tGrid *g,int kind,double t,long it,const char *names,uint64_t st)
{ int b,i; char *crd[]={"X","Y","Z","x","y","z",0};
  wi(0x5ec); wi(kind); wd(t); wi(it); ws(names); wi(g->nboxes);
  for(b=0;b<g->nboxes;b++){ tBox *B=g->box[b]; double *J=malloc(8*B->nnodes),*U=malloc(8*B->nnodes),*W=malloc(8*B->nnodes); char s[60]; int p,df; snprintf(s,59,"box%d_Coordinates",b); df=!strcmp(P(s,"Cartesian"),"SphericalDF")&&strcmp(P("0doutput_VolumeIntegralJacobian",""),"one");
    wi(B->n1); wi(B->n2); wi(B->n3); for(i=0;i<6;i++) wd(B->bbox[i]);
    for(i=0;crd[i];i++){ double *v=B->v[Ind(crd[i])]; wi(v!=0); if(v) fwrite(v,8,B->nnodes,R); }
    for(i=0;i<g->nvariables;i++) if(isours(VarName(i))){ double *v=B->v[i]; wi(i+1); ws(VarName(i)); wi(VarConstantFlag(i)); ws(VarName(IndComponent0(i))); wi(VarNComponents(i)); wi(v!=0); if(v){ fwrite(v,8,B->nnodes,R);
        if(df){ forallpoints(B,p) J[p]=1; wd(spec_sphericalDF3dIntegral(B,J,U)); forallpoints(B,p) W[p]=v[p]*v[p]; wd(spec_sphericalDF3dIntegral(B,W,U)); forallpoints(B,p) W[p]=fabs(v[p]); wd(spec_sphericalDF3dIntegral(B,W,U)); forallpoints(B,p) W[p]=v[p]; wd(spec_sphericalDF3dIntegral(B,W,U)); }
        else { wd(0); wd(0); wd(0); wd(0); } } }
    wi(0); free(J); free(U); free(W); }
  wi((long)st); fflush(R); }
static double val(tBox *B,int i,const char *n)
{ double X=B->v[Ind("X")][i],Y=B->v[Ind("Y")][i],Z=B->v[Ind("Z")][i];
  if(!strcmp(n,"o9_x")) switch(vh_int(0,9)){ case 0: return 1e300*vh_range(-1,1); case 1: return 1e-310; case 2: return -0.0; case 3: return vh_range(-1,1)*1e-40; case 4: return vh_int(-3,3); case 5: return INFINITY; case 6: return vh_range(-1,1)*pow(10,vh_int(-300,300)); case 7: return 1/3.; default: return 16777217.0; }
  if(vh_int(0,40)==0) return vh_int(-2,2);
  return vh_range(-2,2)*pow(10,vh_int(-6,6))+ .1*sin(X+2*Y-Z); }
static int fill(tGrid *g)
{ int i,b,p; vh_s=vh_mix(seed*7919ULL+phase++*104729+5);
  for(i=0;i<g->nvariables;i++) if(isours(VarName(i))) for(b=0;b<g->nboxes;b++) if(g->box[b]->v[i]&&(!VarConstantFlag(i)||phase==1)) forallpoints(g->box[b],p) g->box[b]->v[i][p]=val(g->box[b],p,VarName(i));
  return 0; }
static int startup(tGrid *g)
{ int i,b; phase=0; seed=atoi(P("o9_seed","1")); vh_s=vh_mix(seed*31ULL+7);
  for(i=0;i<g->nvariables;i++) if(isours(VarName(i))){ int part=!strcmp(VarName(i),"o9_p"),none=!strcmp(VarName(i),"o9_n"); if(none) continue; for(b=0;b<g->nboxes;b++) if(!part||vh_int(0,1)) enablevarcomp_inbox(g->box[b],i); }
  return 0; }
static uint64_t before;
static int pre(tGrid *g){ before=state(g); rec(g,0,g->time,g->iteration,"",0); return 0; }
static int post(tGrid *g)
{ int it,b,k,fi; double ft; const char *q=P("o9_quick",0); uint64_t now=state(g);
  wi(0x5ed); wi(now==before); fflush(R);
  while(q&&sscanf(q,"%d %d %d %lf %d",&it,&b,&k,&ft,&fi)==5)
  { if(it==g->iteration&&b<g->nboxes){ tBox *B=g->box[b]; uint64_t s0;
      if(k==0){ char *nm="o9_s  o9_vx"; s0=state(g); rec(g,1,ft,fi,nm,0); quick_Vars_output(B,nm,ft,fi); }
      else if(k==1){ tVarList *vl=vlalloc(g); char s[200]=""; vlpushone(vl,Ind("o9_vy")); vlpushone(vl,Ind("o9_hxz")); snprintf(s,199,"o9_vy o9_hxz"); s0=state(g); rec(g,1,ft,fi,s,0); quick_VarList_output(B,vl,ft,fi); vlfree(vl); }
      else { double *a=malloc(8*B->nnodes),*keep; int p,i; vh_s=vh_mix(seed+it*17+k); forallpoints(B,p) a[p]=vh_range(-1,1);
        if(IndLax("o9_q")<0) AddVarToGrid(g,"o9_q","","quick"); i=Ind("o9_q"); keep=B->v[i]; s0=state(g); if(!keep) enablevar_inbox(B,i); forallpoints(B,p) B->v[i][p]=a[p]; rec(g,1,ft,fi,"o9_q",0); if(!keep) disablevar_inbox(B,i); s0=state(g); quick_Array_output(B,a,"o9_q",ft,fi); free(a); }
      wi(0x5ed); wi(state(g)==s0); fflush(R); }
    for(k=0;k<5&&q;k++){ while(*q==' ') q++; while(*q&&*q!=' ') q++; } }
  return 0; }
int main(int argc,char **argv)
{ int r; R=fopen(argv[1],"wb"); if(!R) return 77;
  AddVar("o9_s","","s"); AddVar("o9_v","i","v"); AddVar("o9_h","ij+ji","h"); AddVar("o9_c","","const"); VarNameSetConstantFlag("o9_c"); AddVar("o9_p","","partly stored"); AddVar("o9_n","","never stored"); AddVar("o9_x","","extreme");
  AddFun(INITIALDATA,startup,"o9"); AddFun(ANALYZE,fill,"o9 fill"); AddFun(OUTPUT,pre,"o9 record"); AddFun(POST_OUTPUT,post,"o9 after");
  { char **av=calloc(argc,sizeof(char*)); int i; av[0]="sgrid"; for(i=2;i<argc;i++) av[i-1]=argv[i]; r=libsgrid_main(argc-1,av); free(av); }
  wi(0x5ee); fclose(R); return r; }
