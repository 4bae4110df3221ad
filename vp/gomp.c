/* Deterministic OpenMP runtime for the replay of counterexamples: virtual threads that hand over control at barriers
   only, with the schedules of vp/omp.py, and a data-race detector behind the callbacks of gcc -fsanitize=thread. */
#define _GNU_SOURCE
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <ucontext.h>
#define MAXT 32
#define STK (4<<20)
#define VIS __attribute__((visibility("default")))

static int cfgT=1,cfgRev=0,cfgMode=0,chunk0=0;
static int lst[1<<14],nlst=0;
static char msg[400];
static int cur=0,T=1,active=0,mode=0;
static ucontext_t mainc,ctx[MAXT];
static char *stk[MAXT];
static int st[MAXT]; /* 1 running 2 barrier 3 done */
static int tmode[MAXT];
static void (*rfn)(void *); static void *rdata;

void *__real_malloc(size_t); void *__real_calloc(size_t,size_t); void *__real_fftw_malloc(size_t);
void *__real_memcpy(void*,const void*,size_t); void *__real_memset(void*,int,size_t);
/* ---------------- race detector: open hash of 4-byte granules and bytes */
typedef struct {uintptr_t key; unsigned phase; unsigned char rt[3],wt[3];unsigned rm[3],wm[3];} Cell;
static Cell *H; static size_t HN_=1<<20, hused;
static unsigned phase=1;
static void race(const char *w,uintptr_t a,int t){if(!msg[0]) snprintf(msg,sizeof msg,"data race: threads %d and %d %s %p unsynchronised",t,cur,w,(void*)a);}
static Cell *find(uintptr_t k)
{
  if(!H) H=__real_calloc(HN_,sizeof(Cell));
  size_t i=(k*11400714819323198485ull)>>40; i&=HN_-1;
  while(H[i].phase==phase && H[i].key!=k) i=(i+1)&(HN_-1);
  if(H[i].phase!=phase) {
    if(hused++>HN_/2) { /* too many: forget */ phase++; hused=1; __real_memset(H,0,HN_*sizeof(Cell)); }
    __real_memset(&H[i],0,sizeof(Cell)); H[i].phase=phase; H[i].key=k;
  }
  return &H[i];
}
/* sets of threads by mode: mm[m] bit mask, m=0 plain 1 atomic 2 critical */
static void acc(uintptr_t k,uintptr_t a,int w)
{
  Cell *c=find(k);
  int m=mode>2?2:mode, me=1<<cur; (void)me;
  for(int q=0;q<3;q++) {
    unsigned o=(c->wm[q]|(w?c->rm[q]:0))&~(1u<<cur);
    if(o && (m==0 || q!=m)) race(w?"write":"access",a,__builtin_ctz(o));
  }
  if(w) c->wm[m]|=1u<<cur; else c->rm[m]|=1u<<cur;
}
static void touch(void *p,size_t n,int w)
{
  if(!active || T<2) return;
  uintptr_t a=(uintptr_t)p;
  if(n<4) for(size_t i=0;i<n;i++) acc(((a+i)<<1)|1,a,w);
  else for(uintptr_t q=a>>2;q<((a+n+3)>>2);q++) acc(q<<1,a,w);
}
static void forget(void *p,size_t n)
{
  if(!active || T<2 || !p) return;
  uintptr_t a=(uintptr_t)p;
  if(n>(1<<22)) n=1<<22;
  for(uintptr_t q=a>>2;q<((a+n+3)>>2);q++) {Cell *c=find(q<<1);uintptr_t k=c->key;__real_memset(c,0,sizeof *c);c->phase=phase;c->key=k;}
  for(uintptr_t q=a;q<a+n&&n<4096;q++) {Cell *c=find((q<<1)|1);uintptr_t k=c->key;__real_memset(c,0,sizeof *c);c->phase=phase;c->key=k;}
}
#define RW(n) VIS void __tsan_read##n(void *p){touch(p,n,0);} VIS void __tsan_write##n(void *p){touch(p,n,1);} \
  VIS void __tsan_unaligned_read##n(void *p){touch(p,n,0);} VIS void __tsan_unaligned_write##n(void *p){touch(p,n,1);} \
  VIS void __tsan_volatile_read##n(void *p){touch(p,n,0);} VIS void __tsan_volatile_write##n(void *p){touch(p,n,1);}
RW(1) RW(2) RW(4) RW(8) RW(16)
VIS void __tsan_read_range(void *p,size_t n){touch(p,n,0);}
VIS void __tsan_write_range(void *p,size_t n){touch(p,n,1);}
VIS void __tsan_func_entry(void *p){} VIS void __tsan_func_exit(void){} VIS void __tsan_init(void){} VIS void __tsan_vptr_update(void **a,void *b){}
#define AT(b,ty) \
VIS ty __tsan_atomic##b##_load(ty *p,int o){int m=mode;if(!m)mode=1;touch(p,b/8,0);mode=m;return *p;} \
VIS void __tsan_atomic##b##_store(ty *p,ty v,int o){int m=mode;if(!m)mode=1;touch(p,b/8,1);mode=m;*p=v;} \
VIS ty __tsan_atomic##b##_fetch_add(ty *p,ty v,int o){int m=mode;if(!m)mode=1;touch(p,b/8,1);mode=m;ty r=*p;*p+=v;return r;} \
VIS ty __tsan_atomic##b##_fetch_sub(ty *p,ty v,int o){int m=mode;if(!m)mode=1;touch(p,b/8,1);mode=m;ty r=*p;*p-=v;return r;} \
VIS ty __tsan_atomic##b##_exchange(ty *p,ty v,int o){int m=mode;if(!m)mode=1;touch(p,b/8,1);mode=m;ty r=*p;*p=v;return r;} \
VIS ty __tsan_atomic##b##_fetch_and(ty *p,ty v,int o){int m=mode;if(!m)mode=1;touch(p,b/8,1);mode=m;ty r=*p;*p&=v;return r;} \
VIS ty __tsan_atomic##b##_fetch_or(ty *p,ty v,int o){int m=mode;if(!m)mode=1;touch(p,b/8,1);mode=m;ty r=*p;*p|=v;return r;} \
VIS int __tsan_atomic##b##_compare_exchange_strong(ty *p,ty *e,ty v,int o,int f){int m=mode;if(!m)mode=1;touch(p,b/8,1);mode=m;if(*p==*e){*p=v;return 1;}*e=*p;return 0;} \
VIS int __tsan_atomic##b##_compare_exchange_weak(ty *p,ty *e,ty v,int o,int f){return __tsan_atomic##b##_compare_exchange_strong(p,e,v,o,f);} \
VIS ty __tsan_atomic##b##_compare_exchange_val(ty *p,ty e,ty v,int o,int f){__tsan_atomic##b##_compare_exchange_strong(p,&e,v,o,f);return e;}
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t)
VIS void __tsan_atomic_thread_fence(int o){}

void *__wrap_malloc(size_t n){void *p=__real_malloc(n);forget(p,n);return p;}
void *__wrap_calloc(size_t a,size_t b){void *p=__real_calloc(a,b);forget(p,a*b);return p;}
void *__wrap_fftw_malloc(size_t n){void *p=__real_fftw_malloc(n);forget(p,n);return p;}
void *__wrap_memcpy(void *d,const void *s,size_t n){touch((void*)s,n,0);touch(d,n,1);return __real_memcpy(d,s,n);}
void *__wrap_memset(void *d,int c,size_t n){touch(d,n,1);return __real_memset(d,c,n);}

/* ---------------- configuration */
VIS void vp_omp_config(int t,int rev,int m,int n,int *l)
{
  cfgT=t;cfgRev=rev;cfgMode=m;chunk0=0;nlst=n<(1<<14)?n:(1<<14);
  for(int i=0;i<nlst;i++) lst[i]=l[i];
  msg[0]=0; active=0; T=1; cur=0; mode=0;
}
VIS const char *vp_omp_msg(void){return msg;}

/* ---------------- loops */
typedef struct {long lo,inc,n,chunk,nc,k0;int used;} Loop;
static Loop loops[4096]; static int nloop[MAXT], lact[MAXT]; static long lnext[MAXT];
static int owner(Loop *L,long c)
{
  if(T<2) return 0;
  if(cfgMode==0) return c%T;
  if(cfgMode==1) {long b=c*T/L->nc; if(b>T-1)b=T-1; return T-1-b;}
  if(cfgMode==2) return T-1;
  {long k=L->k0+c; return k<nlst?lst[k]%T:0;}
}
static bool next(long *a,long *b)
{
  Loop *L=&loops[lact[cur]];
  while(lnext[cur]<L->nc) {
    long c=lnext[cur]++;
    if(owner(L,c)==cur) {
      long i=c*L->chunk,j=i+L->chunk; if(j>L->n)j=L->n;
      *a=L->lo+i*L->inc; *b=L->lo+j*L->inc; return true;
    }
  }
  return false;
}
static void lstart(long lo,long up,long inc,long chunk)
{
  int k=nloop[cur]++ & 4095; Loop *L=&loops[k];
  if(!L->used) {
    L->used=1; L->lo=lo; L->inc=inc; L->chunk=chunk<1?1:chunk;
    L->n=inc>0?(up>lo?(up-lo+inc-1)/inc:0):(up<lo?(lo-up-inc-1)/-inc:0);
    L->nc=(L->n+L->chunk-1)/L->chunk; L->k0=chunk0; chunk0+=L->nc;
  }
  lact[cur]=k; lnext[cur]=0;
}
static void yield_(int s){int t=cur; st[t]=s; tmode[t]=mode; swapcontext(&ctx[t],&mainc); cur=t; mode=tmode[t];}
#define DYN(nm,sfx) \
bool GOMP_loop_##nm##_start(long a,long b,long i,long c,long *s,long *e){lstart(a,b,i,c);return next(s,e);} \
bool GOMP_loop_##nm##_next(long *s,long *e){return next(s,e);} \
bool GOMP_loop_ull_##nm##_start(bool up,unsigned long a,unsigned long b,unsigned long i,unsigned long c,unsigned long *s,unsigned long *e){lstart(a,b,i,c);return next((long*)s,(long*)e);} \
bool GOMP_loop_ull_##nm##_next(unsigned long *s,unsigned long *e){return next((long*)s,(long*)e);}
DYN(nonmonotonic_dynamic,) DYN(dynamic,) DYN(guided,) DYN(nonmonotonic_guided,) DYN(runtime,) DYN(maybe_nonmonotonic_runtime,) DYN(static,)
void GOMP_barrier(void){if(active&&T>1) yield_(2);}
void GOMP_loop_end(void){GOMP_barrier();}
void GOMP_loop_end_nowait(void){}
void GOMP_critical_start(void){mode=2;} void GOMP_critical_end(void){mode=0;}
void GOMP_critical_name_start(void **p){mode=2;} void GOMP_critical_name_end(void **p){mode=0;}
void GOMP_atomic_start(void){mode=1;} void GOMP_atomic_end(void){mode=0;}
static int singles[4096],nsingle[MAXT];
bool GOMP_single_start(void){int k=nsingle[cur]++&4095;if(singles[k])return false;singles[k]=1;return true;}
int omp_get_thread_num(void){return active?cur:0;}
int omp_get_num_threads(void){return active?T:1;}
int omp_get_max_threads(void){return cfgT;}
int omp_in_parallel(void){return active&&T>1;}
double omp_get_wtime(void){return 0;}
void omp_set_num_threads(int n){}

static void body(void)
{
  rfn(rdata);
  st[cur]=3; tmode[cur]=0;
  for(;;) swapcontext(&ctx[cur],&mainc);
}
void GOMP_parallel(void (*fn)(void*),void *data,unsigned n,unsigned flags)
{
  if(active) { /* nested: one thread */
    int sT=T,sc=cur; T=1; cur=0; fn(data); T=sT; cur=sc; return;
  }
  T=n?(int)n<cfgT?(int)n:cfgT:cfgT; if(T>MAXT)T=MAXT; active=1;
  __real_memset(loops,0,sizeof loops); __real_memset(nloop,0,sizeof nloop); __real_memset(singles,0,sizeof singles); __real_memset(nsingle,0,sizeof nsingle);
  if(T<2) {cur=0; fn(data); active=0; return;}
  rfn=fn; rdata=data;
  for(int t=0;t<T;t++) {
    if(!stk[t]) stk[t]=__real_malloc(STK);
    st[t]=1; tmode[t]=0;
    getcontext(&ctx[t]); ctx[t].uc_stack.ss_sp=stk[t]; ctx[t].uc_stack.ss_size=STK; ctx[t].uc_link=&mainc;
    makecontext(&ctx[t],body,0);
  }
  for(;;) {
    int nb=0,nd=0;
    phase++; hused=0;
    if(!phase){phase=1;if(H)__real_memset(H,0,HN_*sizeof(Cell));}
    for(int q=0;q<T;q++) {
      int t=cfgRev?T-1-q:q;
      if(st[t]==3) continue;
      st[t]=1; cur=t; mode=tmode[t];
      swapcontext(&mainc,&ctx[t]);
    }
    for(int t=0;t<T;t++) {nb+=st[t]==2;nd+=st[t]==3;}
    if(nd==T) break;
    if(nd && nb && !msg[0]) snprintf(msg,sizeof msg,"some threads end the region while others wait at a barrier");
  }
  active=0; cur=0; mode=0; T=1;
}
