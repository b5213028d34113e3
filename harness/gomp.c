/* gomp.c: the part of the OpenMP runtime gcc's code needs, made of pthreads, so that ThreadSanitizer sees every synchronisation.
   A parallel region really starts threads and joins them; nested regions have one thread. Start of each thread, and of each chunk, is delayed at random. */
#include <pthread.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdint.h>
#include <unistd.h>
#include <sched.h>
#include <time.h>
#include <stdbool.h>
#include <string.h>
typedef struct team { int n; pthread_barrier_t bar; pthread_mutex_t mu; long next,end,incr,chunk; int loops,started; int single; int sections; void *cp; } team;
typedef struct { team *t; int id; void (*fn)(void*); void *data; int nth,nsingle; } me;
static __thread me *cur; static pthread_mutex_t critical=PTHREAD_MUTEX_INITIALIZER,atomicm=PTHREAD_MUTEX_INITIALIZER; 
int gomp_threads=0; long gomp_regions=0,gomp_started=0; static unsigned seed=1;
static unsigned rnd(void){ unsigned x=__atomic_add_fetch(&seed,0x9e3779b9u,__ATOMIC_RELAXED); x^=x>>16; x*=0x85ebca6b; x^=x>>13; x*=0xc2b2ae35; x^=x>>16; return x; }
static void nap(void){ unsigned r=rnd()%16; if(r<6) return; if(r<12){ sched_yield(); return; } struct timespec t={0,(long)(rnd()%60000)}; nanosleep(&t,NULL); }
static int want(void){ if(gomp_threads<=0){ char *e=getenv("VH_THREADS"); gomp_threads=e?atoi(e):4; if(gomp_threads<1) gomp_threads=1; if(e&&getenv("VH_SEED")) seed=atoi(getenv("VH_SEED"))*7919; } return gomp_threads; }
static void *thr(void *a){ cur=a; nap(); cur->fn(cur->data); cur=NULL; return NULL; }
/* real programs enter some regions very often: with VH_SPARSE each region's first 25 uses are parallel, later ones now and then */
static int worth(void (*fn)(void*)){ static int sparse=-1; static struct { void (*f)(void*); long n; } h[4096]; if(sparse<0) sparse=getenv("VH_SPARSE")!=NULL; if(!sparse) return 1; unsigned i=((uintptr_t)fn>>4)%4096; while(h[i].f&&h[i].f!=fn) i=(i+1)%4096; h[i].f=fn; return ++h[i].n<=25||rnd()%(h[i].n<1000?30:1000)==0; }
static void run(void (*fn)(void*),void *data,unsigned n,team *t)
{ me *up=cur,self; if(n==0) n=up?1:want(); if(up) n=1; if(n>1&&!worth(fn)) n=1; if(n>64) n=64; t->n=n; pthread_barrier_init(&t->bar,NULL,n); pthread_mutex_init(&t->mu,NULL); t->loops=t->started=t->single=0;
  pthread_t id[64]; me m[64]; unsigned i; memset(&self,0,sizeof self); self.t=t; self.fn=fn; self.data=data; if(!up) gomp_regions++;
  for(i=1;i<n;i++){ memset(&m[i],0,sizeof(me)); m[i].t=t; m[i].id=i; m[i].fn=fn; m[i].data=data; if(pthread_create(&id[i],NULL,thr,&m[i])){ fprintf(stderr,"gomp.c: no thread\n"); _exit(99); } gomp_started++; }
  cur=&self; if(n>1) nap(); fn(data); cur=up; for(i=1;i<n;i++) pthread_join(id[i],NULL); pthread_barrier_destroy(&t->bar); pthread_mutex_destroy(&t->mu); }
void GOMP_parallel(void (*fn)(void*),void *data,unsigned n,unsigned flags){ team t; memset(&t,0,sizeof t); run(fn,data,n,&t); }
void GOMP_barrier(void){ if(cur) pthread_barrier_wait(&cur->t->bar); }
void GOMP_critical_start(void){ pthread_mutex_lock(&critical); } void GOMP_critical_end(void){ pthread_mutex_unlock(&critical); }
void GOMP_critical_name_start(void **p){ GOMP_critical_start(); } void GOMP_critical_name_end(void **p){ GOMP_critical_end(); }
void GOMP_atomic_start(void){ pthread_mutex_lock(&atomicm); } void GOMP_atomic_end(void){ pthread_mutex_unlock(&atomicm); }
bool GOMP_single_start(void){ if(!cur) return true; team *t=cur->t; bool r=false; pthread_mutex_lock(&t->mu); if(t->single==cur->nsingle){ t->single++; r=true; } cur->nsingle++; pthread_mutex_unlock(&t->mu); return r; }
/* loops handed out in chunks; all threads arrive with the same bounds */
static team solo;
static bool nextc(long *a,long *b){ team *t=cur?cur->t:&solo; bool r=false; if(cur) pthread_mutex_lock(&t->mu); if(t->incr>0?t->next<t->end:t->next>t->end){ long e=t->next+t->incr*t->chunk; if(t->incr>0?e>t->end:e<t->end) e=t->end; *a=t->next; *b=e; t->next=e; r=true; } if(cur) pthread_mutex_unlock(&t->mu); return r; }
static bool startl(long s,long e,long i,long c,long *a,long *b){ team *t=cur?cur->t:&solo; if(cur) pthread_mutex_lock(&t->mu); if(!cur||t->loops==cur->nth){ t->loops++; t->next=s; t->end=e; t->incr=i; t->chunk=c>0?c:1; } if(cur){ cur->nth++; pthread_mutex_unlock(&t->mu); } nap(); return nextc(a,b); }
#define L(k) bool GOMP_loop_##k##_start(long s,long e,long i,long c,long *a,long *b){ return startl(s,e,i,c,a,b); } bool GOMP_loop_##k##_next(long *a,long *b){ return nextc(a,b); }
L(dynamic) L(guided) L(nonmonotonic_dynamic) L(nonmonotonic_guided) L(static)
#define R(k) bool GOMP_loop_##k##_start(long s,long e,long i,long *a,long *b){ return startl(s,e,i,1,a,b); } bool GOMP_loop_##k##_next(long *a,long *b){ return nextc(a,b); }
R(runtime) R(maybe_nonmonotonic_runtime) R(nonmonotonic_runtime)
void GOMP_loop_end(void){ GOMP_barrier(); } void GOMP_loop_end_nowait(void){}
#define P(k) void GOMP_parallel_loop_##k(void (*fn)(void*),void *data,unsigned n,long s,long e,long i,long c,unsigned flags){ team t; memset(&t,0,sizeof t); t.next=s; t.end=e; t.incr=i; t.chunk=c>0?c:1; run(fn,data,n,&t); }
P(dynamic) P(guided) P(nonmonotonic_dynamic) P(nonmonotonic_guided) P(static)
#define Q(k) void GOMP_parallel_loop_##k(void (*fn)(void*),void *data,unsigned n,long s,long e,long i,unsigned flags){ team t; memset(&t,0,sizeof t); t.next=s; t.end=e; t.incr=i; t.chunk=1; run(fn,data,n,&t); }
Q(runtime) Q(maybe_nonmonotonic_runtime) Q(nonmonotonic_runtime)
int omp_get_num_threads(void){ return cur?cur->t->n:1; } int omp_get_thread_num(void){ return cur?cur->id:0; } int omp_get_max_threads(void){ return cur?1:want(); } int omp_in_parallel(void){ return cur&&cur->t->n>1; } int omp_get_num_procs(void){ return want(); }
void omp_set_num_threads(int n){ if(n>0) gomp_threads=n; } void omp_set_dynamic(int n){} void omp_set_nested(int n){} int omp_get_nested(void){ return 0; } int omp_get_dynamic(void){ return 0; } int omp_get_level(void){ return cur?1:0; } int omp_get_thread_limit(void){ return 64; }
double omp_get_wtime(void){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }
typedef pthread_mutex_t *lk; void omp_init_lock(lk *l){ *l=malloc(sizeof **l); pthread_mutex_init(*l,NULL); } void omp_destroy_lock(lk *l){ pthread_mutex_destroy(*l); free(*l); } void omp_set_lock(lk *l){ pthread_mutex_lock(*l); } void omp_unset_lock(lk *l){ pthread_mutex_unlock(*l); } int omp_test_lock(lk *l){ return !pthread_mutex_trylock(*l); }
