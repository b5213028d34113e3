# mkseed.py: helper to write planted changes. seed(id, prop, [(file, old, new)...], needs, breaks, demo=(name->text))
import os,subprocess,json,shutil,sys
V="/verif/seeded"
BUILD='''#!/bin/bash
# builds the small program beside this file against the objects of the current build and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd); T=$PWD/_build/main/sgrid; S=$(mktemp -d); trap 'rm -rf "$S"' EXIT
export OMP_NUM_THREADS=1
objcopy --redefine-sym main=sgrid_prog_main $T/lib/obj/main/main.o $S/main.o || exit 9
MO=$(ls $T/lib/obj/main/*.o | grep -v '/main\\.o')
gcc -O1 -fopenmp -w -I$T/src/main/main -c "$D/demo.c" -o $S/demo.o || exit 9
g++ -fopenmp -o $S/demo $S/demo.o $S/main.o $MO -Wl,--start-group $T/lib/*.a -Wl,--end-group -lspqr -lcholmod -lumfpack -lamd -lfftw3 -llapack -lblas -lgsl -lgslcblas -lm || exit 9
cd $S && timeout 250 ./demo > log 2>&1; r=$?
grep '^DEMO' log; exit $r
'''
HEAD='''/* returns nonzero and says why if the behaviour is wrong */
#include "sgrid.h"
#include <stdarg.h>
void initialize_libraries(void);
#define BAD(...) do{ printf("DEMO: " __VA_ARGS__); printf("\\n"); fflush(stdout); _exit(1); }while(0)
static void par(const char *n,const char *fmt,...){ char v[500]; va_list ap; va_start(ap,fmt); vsnprintf(v,500,fmt,ap); va_end(ap); AddOrModifyPar((char*)n,v,"d"); }
static void basepars(int nb){ par("physics",""); par("outdir","."); par("dt","0.1"); par("nboxes","%d",nb); }
static void box(int b,int n1,int n2,int n3,char *b1,char *b2,char *b3,double x0,double x1,double y0,double y1,double z0,double z1)
{ char s[100]; int n[3]={n1,n2,n3},d; char *bs[3]={b1,b2,b3}; double lo[3]={x0,y0,z0},hi[3]={x1,y1,z1};
  for(d=0;d<3;d++){ sprintf(s,"box%d_n%d",b,d+1); par(s,"%d",n[d]); sprintf(s,"box%d_basis%d",b,d+1); par(s,"%s",bs[d]); sprintf(s,"box%d_min%d",b,d+1); par(s,"%.17g",lo[d]); sprintf(s,"box%d_max%d",b,d+1); par(s,"%.17g",hi[d]); } }
static tGrid *mk(void){ tGrid *g; initialize_libraries(); RunFun(POST_PARAMETERS,0); RunFun(PRE_GRID,0); g=make_grid(0); RunFun(POST_GRID,g); RunFun(PRE_COORDINATES,g); RunFun(COORDINATES,g); return g; }
'''
def seed(sid, prop, edits, needs, breaks, c=None, sh=None, files={}):
    d=os.path.join(V,sid); shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    w="/tmp/seedw/wt"; shutil.rmtree(w,ignore_errors=True)
    subprocess.check_call(["git","clone","-q","/repo",w])
    for f,o,n in edits:
        t=open(w+"/"+f).read(); assert t.count(o)==1,(sid,f,t.count(o),o); open(w+"/"+f,"w").write(t.replace(o,n))
    p=subprocess.check_output(["git","-C",w,"diff"]); open(d+"/patch.diff","wb").write(p); assert p
    # original lines only
    base=subprocess.check_output(["git","-C",w,"show","21dd082:"+edits[0][0]],text=True)
    for f,o,n in edits:
        base=subprocess.check_output(["git","-C",w,"show","21dd082:"+f],text=True)
        for line in p.decode().split("\n"):
            if line.startswith("-") and not line.startswith("---") and line[1:].strip() and line[1:] not in base and len(edits)==1: print("WARNING not original:",sid,line)
    shutil.rmtree(w)
    if c is not None: open(d+"/demo.c","w").write(HEAD+c); open(d+"/demo.sh","w").write(BUILD)
    else: open(d+"/demo.sh","w").write(sh)
    for k,v in files.items(): open(d+"/"+k,"w").write(v)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+"/meta.json","w"),indent=1)
