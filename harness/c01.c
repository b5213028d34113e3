/* C01: parameter data base against a reference model */
#include "sgrid.h"
#include "main.h"
#include "vh.h"
#include <limits.h>

#define MAXP 400
typedef struct { char *n, *v; } mp_t;
static mp_t M[MAXP]; static int nM;

static const char *tr(const char *v, char *buf)
{
  static const struct { const char *s; double f; } t[]={{"pi",1},{"-pi",-1},{"pi/2",.5},{"-pi/2",-.5},{"2*pi",2},{"-2*pi",-2}};
  int i; for(i=0;i<6;i++) if(!strcmp(v,t[i].s)) { sprintf(buf,"%.18e",t[i].f*M_PI); return buf; }
  return v;
}
static int mfind(const char *n){ int i; for(i=0;i<nM;i++) if(!strcmp(M[i].n,n)) return i; return -1; }
static void mset(const char *n,const char *v)
{ char b[100]; int i=mfind(n); v=tr(v,b); if(i<0){ if(nM>=MAXP) abort(); i=nM++; M[i].n=strdup(n); M[i].v=NULL; }
  { char *nv=strdup(v); free(M[i].v); M[i].v=nv; } }
static void mmake(const char *n,const char *v){ if(mfind(n)<0) mset(n,v); }
static void mclear(void){ int i; for(i=0;i<nM;i++){free(M[i].n);free(M[i].v);} nM=0; }

static int mbool(const char *v)
{ if(!strcmp(v,"yes")||!strcmp(v,"Yes")||!strcmp(v,"YES")||!strcmp(v,"on")||!strcmp(v,"On")||!strcmp(v,"ON")||
     !strcmp(v,"true")||!strcmp(v,"True")||!strcmp(v,"TRUE")) return 1;
  if(!strcmp(v,"no")||!strcmp(v,"No")||!strcmp(v,"off")||!strcmp(v,"false")||!strcmp(v,"0")) return 0;
  return -1; }

/* words: short alphabet so that words are prefixes / suffixes / infixes of each other */
static void rword(char *w,int max)
{ int l=vh_int(1,max),i; static const char A[]="abAB12_xy"; for(i=0;i<l;i++) w[i]=A[vh_int(0,8)]; w[l]=0; }
static void rname(char *w)
{
  static const char *fix[]={"physics","dt","a","b","ab","aa","box0_n1","box0_n10","box10_n1","Coordinates_verbose","x","amr_nxyz","iterate_parameters","1doutiter","n"};
  if(vh_int(0,2)) strcpy(w,fix[vh_int(0,14)]); else { w[0]="pqrst"[vh_int(0,4)]; rword(w+1,3);} 
}
static void rvalue(char *v)
{
  int k=vh_int(0,9),i,n; char w[64];
  switch(k){
  case 0: sprintf(v,"%d",(int)(vh_rand()&0xffffffff)); break;
  case 1: sprintf(v,"%d",vh_int(-20,20)); break;
  case 2: sprintf(v,"%.*e",vh_int(0,20),(vh_u()-.5)*pow(10,vh_int(-300,300))); break;
  case 3: sprintf(v,"%g",vh_range(-5,5)); break;
  case 4: { static const char *y[]={"yes","no","Yes","No","on","off","On","YES","true","false","True","ON","TRUE","0"}; strcpy(v,y[vh_int(0,13)]); } break;
  case 5: { static const char *y[]={"pi","-pi","pi/2","-pi/2","2*pi","-2*pi"}; strcpy(v,y[vh_int(0,5)]); } break;
  case 6: v[0]=0; break;
  case 7: { int L=vh_int(100,3000); for(i=0;i<L;i++) v[i]="abc/._"[vh_int(0,5)]; v[L]=0; } break;
  default:
    n=vh_int(1,7); v[0]=0; for(i=0;i<n;i++){ rword(w,vh_int(1,3)); if(i) strcat(v," "); strcat(v,w);} }
}
static int mentry(const char *list,const char *word) /* whole entry? */
{ char *c=strdup(list),*s,*sp; int r=0; for(s=strtok_r(c," ",&sp);s;s=strtok_r(NULL," ",&sp)) if(!strcmp(s,word)) r=1; free(c); return r; }

static void check_all(const char *when)
{
  int i,j;
  VEXPECT(GetnParameters()==nM,"count","%s: number of parameters %d, expected %d",when,GetnParameters(),nM);
  for(j=0;j<nM;j++)
  {
    char *g=Gets(M[j].n); double d,e; long l;
    vh_count("value reads",1);
    if(strcmp(g,M[j].v)) { vh_fail("string value","%s: %s reads '%.200s' expected '%.200s'",when,M[j].n,g,M[j].v); continue; }
    VEXPECT(GetsLax(M[j].n)==g,"lax value","%s",M[j].n);
    d=Getd(M[j].n); e=strtod(M[j].v,NULL);
    VEXPECT(memcmp(&d,&e,8)==0,"double value","%s: %s '%.80s' Getd=%.17g expect %.17g",when,M[j].n,M[j].v,d,e);
    l=strtol(M[j].v,NULL,10);
    if(l>=INT_MIN && l<=INT_MAX) VEXPECT(Geti(M[j].n)==l,"int value","%s: %s '%.80s' Geti=%d",when,M[j].n,M[j].v,Geti(M[j].n));
    i=GetParIndex(M[j].n);
    VEXPECT(i>=0&&i<GetnParameters(),"index range","%d",i);
    if(GetnameInd(i)==NULL||strcmp(GetnameInd(i),M[j].n)) { vh_fail("index","index %d is not %s",i,M[j].n); continue; }
    VEXPECT(!strcmp(GetsInd(i),M[j].v),"value by index","%s",M[j].n);
    d=GetCachedNumValByParIndex(i);
    VEXPECT(memcmp(&d,&e,8)==0,"cached number","%s: %s '%.80s' cached %.17g expect %.17g",when,M[j].n,M[j].v,d,e);
    { int b=mbool(M[j].v); if(b>=0) VEXPECT((GetCachedBoolValByParIndex(i)!=0)==b,"cached yes/no","%s: %s '%.80s' cached %d",when,M[j].n,M[j].v,GetCachedBoolValByParIndex(i)); }
  }
  for(i=0;i<GetnParameters();i++) for(j=0;j<i;j++) if(!strcmp(GetnameInd(i),GetnameInd(j))) vh_fail("duplicate name","%s",GetnameInd(i));
  VEXPECT(GetsInd(-1)==0 && GetsInd(GetnParameters())==0 && GetnameInd(-1)==0,"out of range index","no NULL");
}
static void check_list(const char *name)
{
  int j=mfind(name),k,n=0; char w[64],*s; char *copy=strdup(M[j].v),*sp,*t;
  for(k=0;k<8;k++)
  {
    int lax=vh_int(0,1),r;
    if(k<4){ rword(w,3);} else { /* words from the list and their pieces */
      int L=strlen(M[j].v); if(!L) break; { int a=vh_int(0,L-1),b=a; while(a>0&&M[j].v[a-1]!=' ') a--; while(M[j].v[b]&&M[j].v[b]!=' ') b++;
        if(b-a<=0||b-a>60) continue; memcpy(w,M[j].v+a,b-a); w[b-a]=0; if(k==6&&b-a>1) w[b-a-1]=0; if(k==7&&b-a>1) memmove(w,w+1,b-a);} }
    r= lax? GetvLax((char*)name,w): Getv((char*)name,w);
    vh_count("membership queries",1); if(r) vh_count("membership true",1);
    VEXPECT((r!=0)==mentry(M[j].v,w),"list membership","'%s' in '%.200s' answered %d",w,M[j].v,r);
  }
  /* walking the list; the argument is the live value */
  NextEntry(NULL);
  t=strtok_r(copy," ",&sp);
  while((s=NextEntry(Gets((char*)name))))
  {
    VEXPECT(t&&!strcmp(s,t),"list walk","entry %d of '%.200s' is '%s' expected '%s'",n,M[j].v,s,t?t:"(end)");
    if(!t) break;
    t=strtok_r(NULL," ",&sp); n++;
    vh_count("list entries walked",1);
  }
  VEXPECT(!t,"list walk","'%.200s' ended early after %d",M[j].v,n);
  free(copy);
  NextEntry(NULL);
}
/* write a parameter file with random lay-out; update model as expected */
static void rspace(FILE *f,int min)
{ int n=vh_int(min,3); while(n-->0) switch(vh_int(0,6)){ case 0: case 1: case 2: fputc(' ',f); break; case 3: fputc('\t',f); break;
   case 4: fputs(" ",f); break; case 5: fputc('"',f); break; case 6: fputs(" ",f);} }
static void rgap(FILE *f) /* inside a value between words: may span lines and comments */
{ switch(vh_int(0,5)){ case 0: fputs("\n",f); break; case 1: fputs(" # a comment = 7 with \"quotes\" # more\n\t",f); break; case 2: fputs("\r\n",f); break;
   case 3: fputs("\n\n#x=1\n",f); break; default: fputc(' ',f);} rspace(f,0); }
static void write_parfile(const char *fn,int npar)
{
  FILE *f=fopen(fn,"w"); int i,first=1; char n[64]; char *v=malloc(40000);
  if(vh_int(0,1)) fputs("# header = comment\n\n",f);
  if(vh_int(0,9)==0) { int L=vh_int(900,1100); fputc('#',f); for(i=0;i<L;i++) fputc('c',f); fputc('\n',f); }
  for(i=0;i<npar;i++)
  {
    char *c,*s,*sp; int k=0;
    rname(n); do rvalue(v); while(strchr(v,'=')||strchr(v,'#'));
    if(!first) { static const char *sep[]={"\n","\n\n","\r\n"," # end\n","\t","\n#  p = 5\n"," "}; fputs(sep[vh_int(0,6)],f); if(vh_int(0,3)==0) rspace(f,0); }
    first=0;
    fputs(n,f); if(vh_int(0,4)==0) { if(vh_int(0,1)) fputs("\n",f); rspace(f,1);} else if(vh_int(0,1)) fputc(' ',f);
    fputc('=',f);
    rspace(f,0);
    c=strdup(v);
    for(s=strtok_r(c," ",&sp);s;s=strtok_r(NULL," ",&sp)) { if(k++) rgap(f); fputs(s,f); }
    free(c);
    if(!k) { fputc('\n',f); }
    mset(n,v);
  }
  if(vh_int(0,1)) fputc('\n',f);
  if(vh_int(0,3)==0) fputs("# the end",f);
  fclose(f); free(v);
}
typedef struct { int argc; char **argv; } args_t;

static void die_missing(void *a)
{ switch(*(int*)a){ case 0: Gets("noSuchParameter"); break; case 1: Geti("noSuchParameter"); break; case 2: Getd("noSuchParameter"); break;
   case 3: Getv("noSuchParameter","x"); break; case 4: Sets("noSuchParameter","x"); break; case 5: GetParIndex("noSuchParameter"); break; } }

static void copies(void)
{
  tParameter *c; int n=GetnParameters(),i; tParameter *p=GetPointerTo_pbd();
  if(!p) return;
  create_copy_of_pdb1_in_pdb2(p,n,n+5,&c);
  for(i=0;i<n;i++)
  {
    VEXPECT(c[i].name!=p[i].name && c[i].value!=p[i].value && c[i].description!=p[i].description,"copy shares memory","%d",i);
    VEXPECT(!strcmp(c[i].name,p[i].name)&&!strcmp(c[i].value,p[i].value)&&!strcmp(c[i].description,p[i].description)&&
      !memcmp(&c[i].numericalvalue,&p[i].numericalvalue,8)&&c[i].booleanvalue==p[i].booleanvalue,"copy differs","%s",p[i].name);
  }
  { tParameter *e=make_empty_pdb(n+3); copy_pdb(c,n,e); copy_pdb(p,n,e);
    for(i=0;i<n;i++) VEXPECT(!strcmp(e[i].name,p[i].name)&&!strcmp(e[i].value,p[i].value)&&!strcmp(e[i].description,p[i].description)&&
      !memcmp(&e[i].numericalvalue,&p[i].numericalvalue,8)&&e[i].booleanvalue==p[i].booleanvalue,"copy into empty differs","%s",p[i].name);
    free_pdb(e,n); }
  /* restore after changing: the way parameters are restored in the code */
  if(n>0){ int k=vh_int(0,n-1); Sets(p[k].name,"changed 17"); copy_pdb(c,n,p); check_all("after restoring from copy"); }
  free_pdb(c,n);
  vh_count("data base copies",1);
}
static void history(int h)
{
  int nops=vh_int(5,60),k; char n[64],*v=malloc(40000),w[64];
  free_global_parameter_database_contents(); mclear();
  vh_at("history %d",h);
  for(k=0;k<nops;k++)
  {
    int op=vh_int(0,13);
    rname(n); rvalue(v);
    switch(op){
    case 0: case 1: AddPar(n,v,"descr"); mmake(n,v); break;
    case 2: AddOrModifyPar(n,v,"d"); mset(n,v); break;
    case 3: case 4: if(nM){ strcpy(n,M[vh_int(0,nM-1)].n); if(vh_int(0,9)==0) { char b[100]; Sets(n,Gets(n)); strcpy(v,M[mfind(n)].v); mset(n,v); } else { Sets(n,v); mset(n,v); } } break;
    case 5: if(nM){ int i=(int)vh_rand(); char b[50]; strcpy(n,M[vh_int(0,nM-1)].n); Seti(n,i); sprintf(b,"%d",i); mset(n,b); VEXPECT(Geti(n)==i,"Seti/Geti","%d",i);} break;
    case 6: if(nM){ union{uint64_t u;double d;}u; char b[64]; do u.u=vh_rand(); while(!isfinite(u.d)); strcpy(n,M[vh_int(0,nM-1)].n); Setd(n,u.d);
             { double g=Getd(n); VEXPECT(memcmp(&g,&u.d,8)==0,"Setd/Getd","%.17g -> %.17g",u.d,g); }
             free(M[mfind(n)].v); M[mfind(n)].v=strdup(Gets(n)); } break;
    case 7: if(nM){ int j=vh_int(0,nM-1); rword(w,3); if(strlen(M[j].v)<3000){ int have=mentry(M[j].v,w); char *nv=malloc(strlen(M[j].v)+80);
             strcpy(n,M[j].n); 
             if(M[j].v[0]==0) { free(nv); break; }
             sprintf(nv,"%s %s",M[j].v,w); Appends(n,w); if(!have) mset(n,nv); free(nv); vh_count("appends",1);} } break;
    case 8: if(nM) check_list(M[vh_int(0,nM-1)].n); break;
    case 9: { char fn[64]; int np=vh_int(1,12); sprintf(fn,"p%d.par",h%7); write_parfile(fn,np); parse_parameter_file(fn); vh_count("files parsed",1);} break;
    case 10: if(nM) Set_pdb_iStart_AtPar(M[vh_int(0,nM-1)].n); break;
    case 11: copies(); break;
    case 12: check_all("during"); break;
    case 13: if(GetsLax(n)) VEXPECT(mfind(n)>=0,"phantom parameter","%s",n); else VEXPECT(mfind(n)<0,"lost parameter","%s",n);
             if(mfind(n)<0) VEXPECT(GetvLax(n,"yes")==0,"membership in missing parameter","%s",n); break;
    }
  }
  check_all("end");
  { int j; for(j=0;j<nM;j++) check_list(M[j].n); }
  if(h%50==0){ int a=vh_int(0,5),st; if(mfind("noSuchParameter")<0){ st=vh_fork(die_missing,&a); VEXPECT(WIFEXITED(st)&&WEXITSTATUS(st)==1,"missing parameter not reported","op %d status %d",a,st); vh_count("missing-parameter errors",1);} }
  vh_case(nM>1,"history %d: %d ops, %d parameters, last %s='%.60s'",h,nops,nM,nM?M[nM-1].n:"",nM?M[nM-1].v:"");
  free(v);
}
/* whole command line in a fresh data base */
static void cmdline(int h)
{
  char *argv[40]; int argc=0,i,nopt=vh_int(0,7),nextra=0; char fn[64]; char *v=malloc(40000); char *last[40][2]; int nl=0; char *extra[8];
  free_global_parameter_database_contents(); mclear();
  vh_at("command line %d",h);
  sprintf(fn,"dir.x/run%d",h%5); mkdir("dir.x",0755);
  argv[argc++]=strdup("sgrid");
  { char full[80]; sprintf(full,"%s.par",fn); write_parfile(full,vh_int(1,15)); argv[argc++]=strdup(vh_int(0,1)?full:fn); }
  for(i=0;i<nopt;i++)
  {
    char n[64]; char *o;
    int k=vh_int(0,5);
    if(k==0) { argv[argc++]=strdup("--keep_previous"); continue; }
    if(k==1 && nextra<8) { char w[64]; rword(w,8); if(w[0]=='-') continue; argv[argc++]=strdup(w); extra[nextra++]=argv[argc-1]; continue; }
    rname(n); do { rvalue(v); if(vh_int(0,3)) v[200]=0; } while(strstr(v,"--")||strlen(v)==0||v[0]==' ');
    { int L=strlen(v); while(L>0&&v[L-1]==' ') v[--L]=0; }
    o=malloc(strlen(n)+strlen(v)+40); sprintf(o,"--modify-par:%s=%s",n,v); argv[argc++]=o; last[nl][0]=strdup(n); last[nl++][1]=strdup(v);
    vh_count("command line overrides",1);
  }
  argv[argc]=NULL;
  read_command_line(argc,argv);
  VEXPECT(GetsLax("outdir")&&!strcmp(Gets("outdir"),fn),"output directory name","'%s' expected '%s'",Gets("outdir"),fn);
  VEXPECT(!strncmp(Gets("parameterfile"),fn,strlen(fn))&&!strcmp(Gets("parameterfile")+strlen(fn),".par"),"parameter file name","%s",Gets("parameterfile"));
  for(i=0;i<nextra;i++){ char a[40]; sprintf(a,"sgrid_arg%d",i+2); VEXPECT(GetsLax(a)&&!strcmp(Gets(a),extra[i]),"extra argument","%s",a); }
  parse_parameter_file(Gets("parameterfile"));
  parse_command_line_options();
  for(i=0;i<nl;i++) mset(last[i][0],last[i][1]);
  for(i=0;i<nM;i++) VEXPECT(GetsLax(M[i].n)&&!strcmp(Gets(M[i].n),M[i].v),"value after command line","%s is '%.100s' expected '%.100s'",M[i].n,GetsLax(M[i].n)?Gets(M[i].n):"(none)",M[i].v);
  /* module defaults do not override the file or the command line */
  for(i=0;i<nM;i++) { AddPar(M[i].n,"default","descr"); VEXPECT(!strcmp(Gets(M[i].n),M[i].v),"default overrides setting","%s",M[i].n); }
  vh_case(nl>0,"command line %d: %d options, e.g. %s",h,nopt,nl?last[0][0]:"");
  for(i=0;i<nl;i++){free(last[i][0]);free(last[i][1]);} for(i=0;i<argc;i++) free(argv[i]); free(v);
}
#include <sys/stat.h>
int main(int argc,char **argv)
{
  int i, part=atoi(argv[1]);
  vh_init(100+part); vh_silence();
  vh_at("start"); AddPar("zz","1","d");
  for(i=0;i<vh_n(400,6000);i++) history(i*8+part);
  for(i=0;i<vh_n(200,3000);i++) cmdline(i*8+part);
  free_global_parameter_database();
  vh_end();
  return 0;
}
