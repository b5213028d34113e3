/* vgrid.h: set up real grids with the real set-up code, several in one process */
#ifndef VGRID_H
#define VGRID_H
#include "sgrid.h"
#include "main.h"
#include "vh.h"
void initialize_libraries(void);
static char vg_desc[4000];
static void vg_reset(void)
{ free_global_parameter_database_contents(); free_global_vdb(); remove_all_Funs(); vg_desc[0]=0;
  AddPar("physics","","d"); AddPar("outdir",".","d"); AddPar("dt","0.1","d"); AddPar("verbose","no","d"); AddPar("storage_verbose","no","d"); AddPar("Coordinates_verbose","no","d"); AddPar("Coordinates_XYZ_of_xyz_Verbose","no","d"); }
static void vg_par(const char *fmt,...)  /* "name = value" */
{ char b[2000],*p; va_list ap; va_start(ap,fmt); vsnprintf(b,2000,fmt,ap); va_end(ap); p=strstr(b,"="); 
  if(strlen(vg_desc)+strlen(b)+3<sizeof vg_desc){ strcat(vg_desc,b); strcat(vg_desc,"; "); }
  { char *e=p; *p++=0; while(e>b&&e[-1]==' ') *--e=0; while(*p==' ') p++; AddOrModifyPar(b,p,"d"); } }
static void vg_box(int b,int n1,int n2,int n3,const char *b1,const char *b2,const char *b3,const double *bb)
{ vg_par("box%d_n1=%d",b,n1); vg_par("box%d_n2=%d",b,n2); vg_par("box%d_n3=%d",b,n3);
  vg_par("box%d_basis1=%s",b,b1); vg_par("box%d_basis2=%s",b,b2); vg_par("box%d_basis3=%s",b,b3);
  vg_par("box%d_min1=%.17g",b,bb[0]); vg_par("box%d_max1=%.17g",b,bb[1]); vg_par("box%d_min2=%.17g",b,bb[2]); vg_par("box%d_max2=%.17g",b,bb[3]); vg_par("box%d_min3=%.17g",b,bb[4]); vg_par("box%d_max3=%.17g",b,bb[5]); }
static tGrid *vg_make(int coords)
{ tGrid *g; initialize_libraries(); RunFun(POST_PARAMETERS,0); RunFun(PRE_GRID,0); g=make_grid(0); RunFun(POST_GRID,g);
  if(coords){ RunFun(PRE_COORDINATES,g); RunFun(COORDINATES,g); } return g; }
static void vg_free(tGrid *g)
{ RunFun(PRE_FINALIZE_GRID,g); g=finalize_grid(g); RunFun(POST_FINALIZE_GRID,g); }
/* n allowed for basis: returns a random suitable number of points */
static const char *VG_BASES[]={"ChebExtrema","Fourier","ChebZeros","fd2_onesided","fd2_periodic"};
#endif
