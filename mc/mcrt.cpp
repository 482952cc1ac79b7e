// mcrt: stateless model checker of compiled C++ code.
//
// The harness is compiled with -fsanitize=thread and linked with this file instead of libtsan: every
// std/boost atomic becomes a call __tsan_atomicN_*, every plain access __tsan_read/write*. All pthread,
// futex, once, guard, clock, sleep and yield functions are defined here too, and malloc is an arena.
// Threads of the program under test are fibers of one kernel thread, each with the TLS block of a real,
// parked thread; only one runs at a time and control moves only at visible operations. One execution is
// a pure function of its list of deviations from the default schedule; before each execution all global
// data (exe, libstdc++, boost), the heap arena and all TLS blocks are restored to one snapshot.
//
// Exploration: all executions with at most B deviations (a deviation = at one visible operation, run
// another enabled thread than the default one, or let a timed wait expire early), with all free data
// choices (mc::choose), distributed over worker processes.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "mc.h"
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <ucontext.h>
#include <fcntl.h>
#include <sched.h>
#include <time.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/auxv.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/timerfd.h>
#include <sys/prctl.h>
#include <linux/futex.h>
#include <asm/prctl.h>
#include <dlfcn.h>
#include <link.h>
#include <chrono>
#include <cxxabi.h>
#include <exception>
#include <typeinfo>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
#define NOINL __attribute__((noinline))

namespace {
// ------------------------------------------------------------------------------------------------
// limits
enum { MAXF=40, STACK=512*1024, MAXDEV=160, MAXKEY=256, RSMAX=512, MAXEV=20000, MAXCAND=1<<20, NWORK_MAX=16, MAXVIOL=64, POOLCAP=2048, MAXFRAMES=MAXDEV+2 };
const u64 ARENA=0x100000000000ull, ARENA_SZ=1ull<<30;
const u64 SHADOW=0x200000000000ull;                      // 8 bytes of program -> 64 bytes of shadow
const u64 STKBASE=0x180000000000ull;
const u64 REAL0=1700000000ull*1000000000ull, MONO0=1000000ull*1000000000ull;

struct Dev { u32 point; u16 opt; u16 chk; };
struct Cand{ u32 point; u16 nopts; u16 chk; u8 cost; };
struct Node{ u16 nd; u16 cost; Dev d[MAXDEV]; };

struct Viol { char scen[64]; char msg[1200]; char sig[200]; Node node; u64 count; int known; };
struct Frame{ Node node; u32 cbeg,cend,cur; u16 opt; };  // children = cands[cbeg..cend)
struct Worker{ volatile int pid; u64 execs, vis, switches, maxpoints, states, pexecs, pvis; int nframes; Frame fr[MAXFRAMES]; u32 ncand; Cand cand[MAXCAND]; Node cur; volatile int has_cur; volatile int busy; u64 arena_max; int maxthreads; u64 parks; u64 maxsteps; };
struct Shared {
  volatile int lock, stop, timed_out; volatile int active; volatile long npool; Node pool[POOLCAP];
  Worker w[NWORK_MAX]; int nviol; Viol viol[MAXVIOL]; volatile u64 nviol_total;
  u8 share[1<<22]; volatile u64 nshared; u64 outc[1<<16]; volatile u64 nout; u64 outc_cnt[1<<16]; char outs[64][160]; Node outn[64]; int nouts; u64 outh[64];
  volatile int fatal; char fatalmsg[512]; volatile u64 total_execs; u64 exec_cap; u64 races_suppressed;
  struct { u64 a,b; int verdict; } racecache[4096]; int nrace;
};
struct RS { u64 addr; u64 val; u32 sz; };
enum St { READY, W_MUTEX, W_COND, W_SLEEP, W_SPIN, W_JOIN, W_PRED, W_FUTEX, W_GUARD, W_SETTLE, W_RW, W_SEM, W_EPOLL, DONE };
const char* stname[]={"ready","mutex","cond","sleep","spin","join","pred","future/futex","guard/once","settle","rwlock","sem","epoll","done"};
struct VC { u32 c[MAXF]; };
struct Dtor{ void(*f)(void*); void* o; };
struct Fiber {
  int id; int st; void* sp; char* stk; u64 fs; pthread_t pt; void*(*fn)(void*); void* arg; void* ret; bool detached,joined,woken,timed,timed_out,wr;
  u64 deadline; void* waddr; u64 wseq; const std::function<bool()>* pred;
  // spin detection
  u64 lh, plh; int same; bool parked, lclock, ovf; u32 lops; int nrs; RS rs[RSMAX]; u64 ltop;
  // hb
  VC vc, relf, acqp;
  int ndtor; Dtor dtor[256]; void* spec[MAXKEY];
  u32 since; // visible ops since last boundary/switch
};
struct Sync { u64 addr; u32 ex; VC vc; };
struct Acc { u32 ex; u32 clk; u8 tid, mask, fl, pad; u32 pc; };      // fl: 1 write 2 atomic 4 freed
struct Cell{ Acc a[4]; };
struct Seg { char* p; size_t n; char* copy; };
struct Tr { u32 step; u8 tid; u8 op; u64 addr,val; u64 pc; };
struct G {
  bool inexec, insched; Fiber* cur; Fiber f[MAXF]; int nf; void* expl_sp; u64 expl_fs; int endcode;
  u64 npoint, steps, now; u64 waitseq; const Dev* dv; int nd, di; int rec; int budget; u16 ncost;
  Cand* cand; u32 ncand; u32 exno; int npoolth; u64 poolfs[MAXF]; pthread_t poolpt[MAXF]; volatile int poolready;
  int flags; bool race; int clockjumps, unparks; bool maindone; u64 steplimit;
  mc::Event ev[MAXEV]; int nev; u64 outc; bool has_out;
  char* arena_top_persist; Seg seg[64]; int nseg; char* arenacopy; size_t tlsn; char* tlscopy[MAXF];
  Sync* sync; int nsync_mask; Worker* W; bool trace; Tr* tr; u32 ntr; u64 switches; int dirty_depth;
  u64 held[MAXF][32]; u8 hdirty[MAXF][32]; int nheld[MAXF]; bool fsgs; bool forkchild; bool verbose; u64 t_exec_start; long live; bool aborting; char outs[160];
  u64 tag; const char* scen; int rt_limit;
  // virtual epoll/eventfd/timerfd
};
G* g=0; Shared* S=0;
// --- things that belong to the program's state (ordinary globals: snapshotted and restored) -----
struct KeySlot{ bool used; void(*d)(void*); } p_keys[MAXKEY]; void* p_spec0[MAXKEY];
struct Fd { int kind; u64 cnt; u64 deadline; u64 interval; int ep; u32 events; u64 data; bool et; bool armed; } p_fd[64]; // kind 1 eventfd 2 timerfd 3 epoll
char* p_top=(char*)ARENA; bool p_arena=false; long p_live=0;

static inline void* xmap(size_t n,u64 at=0,int fl=MAP_PRIVATE){ void*p=(void*)syscall(SYS_mmap,at,n,PROT_READ|PROT_WRITE,fl|MAP_ANONYMOUS|MAP_NORESERVE|(at?MAP_FIXED_NOREPLACE:0),-1,0); if(p==MAP_FAILED){ const char m[]="mcrt: mmap failed\n"; (void)!write(2,m,sizeof m-1); _exit(4);} return p; }
static u64 rawns(){ struct timespec ts; syscall(SYS_clock_gettime,CLOCK_MONOTONIC,&ts); return ts.tv_sec*1000000000ull+ts.tv_nsec; }
[[noreturn]] static void die(int c){ syscall(SYS_exit_group,c); __builtin_unreachable(); }
static void spl(volatile int*l){ while(__atomic_exchange_n(l,1,__ATOMIC_ACQUIRE)) syscall(SYS_sched_yield); }
static void spu(volatile int*l){ __atomic_store_n(l,0,__ATOMIC_RELEASE); }
static inline u64 mix(u64 h,u64 v){ h^=v+0x9e3779b97f4a7c15ull+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdull; h^=h>>32; return h; }
static inline void setfs(u64 v){ if(g->fsgs) asm volatile("wrfsbase %0"::"r"(v):"memory"); else syscall(SYS_arch_prctl,ARCH_SET_FS,v); }
static inline u64 getfs(){ u64 v=0; if(!g||g->fsgs) asm volatile("mov %%fs:0,%0":"=r"(v)); else asm volatile("mov %%fs:0,%0":"=r"(v)); return v; }

extern "C" void mc_swap(void** save, void* to, u64 fs, int usefsgs);
asm(R"(
.text
.globl mc_swap
.type mc_swap,@function
mc_swap:
  push %rbp
  push %rbx
  push %r12
  push %r13
  push %r14
  push %r15
  mov %rsp,(%rdi)
  mov %rsi,%rsp
  test %ecx,%ecx
  jz 1f
  wrfsbase %rdx
  jmp 2f
1:
  mov %rdx,%rsi
  mov $0x1002,%edi
  mov $158,%eax
  syscall
2:
  pop %r15
  pop %r14
  pop %r13
  pop %r12
  pop %rbx
  pop %rbp
  ret
.size mc_swap,.-mc_swap
)");
// ------------------------------------------------------------------------------------------------
static void report(const char* msg);
[[noreturn]] static void fatal(const char* fmt,...){ va_list a; va_start(a,fmt); char b[400]; vsnprintf(b,sizeof b,fmt,a); va_end(a);
  if(S){ if(!__atomic_exchange_n(&S->fatal,1,__ATOMIC_SEQ_CST)) { strncpy(S->fatalmsg,b,sizeof S->fatalmsg-1);} S->stop=1; } (void)!write(2,b,strlen(b)); (void)!write(2,"\n",1); die(4); }
}
// ------------------------------------------------------------------------------------------------
// arena malloc
namespace {
struct Hdr{ u32 size; u32 magic; u64 seq; };
const u32 LIVE=0xA110C8ED, DEAD=0xDEADB10C;
static void race_free(void*p,size_t n,u64 pc);
static void* amalloc(size_t n,size_t al=16){
  if(!p_arena){ xmap(ARENA_SZ,ARENA); p_arena=true; }
  char* q=p_top+sizeof(Hdr); if(al>16) q=(char*)(((u64)q+al-1)&~(u64)(al-1));
  size_t sz=(n+15)&~(size_t)15; if(!sz) sz=16;
  if(n>ARENA_SZ || q+sz+64>(char*)ARENA+ARENA_SZ){ if(g&&g->inexec){ if(n>(256u<<20)) return nullptr; report("heap arena exhausted (runaway allocation)"); } return nullptr; }
  Hdr*h=(Hdr*)q-1; h->size=(u32)n; h->magic=LIVE; p_top=q+sz; p_live++;
  if(g&&g->inexec) memset(q,0xCD,n<65536?n:65536);
  return q;
}
static bool inarena(void*p){ return (u64)p>=ARENA && (u64)p<ARENA+ARENA_SZ; }
static void afree(void*p,u64 pc){
  if(!p||!inarena(p)) return; Hdr*h=(Hdr*)p-1;
  if(h->magic!=LIVE){ if(g&&g->inexec&&!g->aborting){ report(h->magic==DEAD?"double free":"free of an invalid pointer"); } return; }
  h->magic=DEAD; p_live--;
  if(g&&g->inexec){ size_t n=h->size; memset(p,0xDD,n<16384?n:16384); if(g->race) race_free(p,n,pc); }
}
}
extern "C" {
void* malloc(size_t n){ return amalloc(n); }
void free(void*p){ afree(p,(u64)__builtin_return_address(0)); }
void* calloc(size_t a,size_t b){ size_t n; if(__builtin_mul_overflow(a,b,&n)) return nullptr; void*p=amalloc(n); if(p) memset(p,0,n); return p; }
void* realloc(void*o,size_t n){ if(!o) return malloc(n); if(!inarena(o)) return nullptr; Hdr*h=(Hdr*)o-1; void*p=amalloc(n); if(!p) return nullptr; memcpy(p,o,h->size<n?h->size:n); afree(o,(u64)__builtin_return_address(0)); return p; }
void* memalign(size_t a,size_t n){ return amalloc(n,a); }
void* aligned_alloc(size_t a,size_t n){ return amalloc(n,a); }
int posix_memalign(void**o,size_t a,size_t n){ *o=amalloc(n,a); return *o?0:ENOMEM; }
void* valloc(size_t n){ return amalloc(n,4096); }
size_t malloc_usable_size(void*p){ return p?((Hdr*)p-1)->size:0; }
int __cxa_atexit(void(*)(void*),void*,void*){ return 0; }
}
// ------------------------------------------------------------------------------------------------
namespace {
// virtual fds
static bool fd_is(int fd,int k){ return fd>=700&&fd<764&&p_fd[fd-700].kind==k; }
static u64 fd_ready_events(Fd& f){ if(f.kind==1) return (f.cnt>0?EPOLLIN:0)|EPOLLOUT; if(f.kind==2) return (f.armed&&f.deadline<=g->now)?EPOLLIN:0; return 0; }
static u64 ep_deadline(int ep){ u64 d=~0ull; for(int i=0;i<64;i++) if(p_fd[i].kind==2&&p_fd[i].ep==ep&&p_fd[i].armed&&p_fd[i].deadline<d) d=p_fd[i].deadline; return d; }
static bool ep_ready(int ep){ for(int i=0;i<64;i++) if(p_fd[i].ep==ep&&p_fd[i].kind&&(fd_ready_events(p_fd[i])&p_fd[i].events)&&!(p_fd[i].et&&p_fd[i].interval==~0ull)) return true; return false; }

static bool rs_changed(Fiber*f){ for(int i=0;i<f->nrs;i++){ RS&r=f->rs[i]; u64 v=0; memcpy(&v,(void*)r.addr,r.sz); if(v!=r.val) return true; } return false; }
struct MX { int owner; int cnt; u32 ver; u32 pad; int kind; }; // overlays pthread_mutex_t; kind at offset 16 as in glibc
struct RW { int w; int readers; };
static bool enabled(Fiber*f){
  switch(f->st){
    case READY: return true;
    case W_MUTEX: if(((MX*)f->waddr)->owner==0) return true; break;
    case W_COND: case W_FUTEX: case W_SEM: if(f->woken) return true; break;
    case W_SLEEP: if(f->parked) return rs_changed(f); break;
    case W_SPIN: return f->parked? rs_changed(f):true;
    case W_JOIN: return ((Fiber*)f->waddr)->st==DONE;
    case W_PRED: { bool o=g->insched; g->insched=true; bool r=(*f->pred)(); g->insched=o; return r; }
    case W_GUARD: return *(volatile int*)f->waddr!=1 ;
    case W_RW: { RW*r=(RW*)f->waddr; return f->wr? (r->w==0&&r->readers==0):r->w==0; }
    case W_EPOLL: if(f->parked) { if(rs_changed(f)) return true; } if(ep_ready((int)(long)f->waddr)) return true; if(ep_deadline((int)(long)f->waddr)<=g->now) return true; break;
    default: return false;
  }
  return f->timed && f->deadline<=g->now;
}
static bool timeoutable(Fiber*f){ // can be run by letting its time pass
  if(f->st==W_SLEEP) return !f->parked || f->lclock;
  if(f->st==W_EPOLL && ep_deadline((int)(long)f->waddr)!=~0ull) return true;
  return f->timed && (f->st==W_COND||f->st==W_FUTEX||f->st==W_MUTEX||f->st==W_SEM||(f->st==W_EPOLL&&!f->parked));
}
static u64 tdeadline(Fiber*f){ u64 d=f->timed?f->deadline:~0ull; if(f->st==W_EPOLL){ u64 e=ep_deadline((int)(long)f->waddr); if(e<d) d=e; } if(f->st==W_SLEEP&&f->parked) d=g->now+10000000; return d; }
static void wake(Fiber*f){ // make f runnable, deciding why
  if(f->st==DONE) fatal("mcrt: waking finished fiber");
  bool to=false; u64 d=tdeadline(f);
  if(f->st==W_SLEEP){ if(!f->parked && f->deadline>g->now) g->now=f->deadline; else if(f->parked) g->now+= 0; }
  else if(f->timed && !(f->st==W_MUTEX?((MX*)f->waddr)->owner==0:f->woken) && f->st!=W_SPIN && f->st!=W_EPOLL){ if(d>g->now) g->now=d; to=true; }
  else if(f->st==W_EPOLL && !ep_ready((int)(long)f->waddr) && !(f->parked&&rs_changed(f))){ if(d!=~0ull&&d>g->now) g->now=d; to=true; }
  f->timed_out=to; f->st=READY; f->timed=false; f->parked=false;
}
static int options(int* o,bool withcur){ // enabled fibers in canonical order starting after cur
  int n=0; int c=g->cur->id; if(withcur && enabled(g->cur)) o[n++]=c;
  for(int k=1;k<g->nf;k++){ Fiber*f=&g->f[(c+k)%g->nf]; if(f->st!=DONE && f->st!=W_SETTLE && enabled(f)) o[n++]=f->id; }
  return n;
}
static int tmo_options(int*o){ if(g->flags&mc::F_NO_TIMEOUT_DEV) return 0; int n=0; int c=g->cur->id; for(int k=0;k<g->nf;k++){ Fiber*f=&g->f[(c+k)%g->nf]; if(f->st!=DONE&&f->st!=READY && timeoutable(f) && !enabled(f) && !(f->st==W_SLEEP&&f->parked)) o[n++]=f->id; } return n; }
static inline bool shared_loc(u64 a){ u64 k=(a>>2); k^=k>>22; return (S->share[k&((1<<22)-1)]&0xC0)==0xC0; }
static inline void touch(u64 a,bool wr){ u64 k=(a>>2); k^=k>>22; u8*p=&S->share[k&((1<<22)-1)]; u8 v=*p; u8 me=(u8)(g->cur->id+1); u8 nv=v; if((v&0x3f)==0) nv|=me; else if((v&0x3f)!=me) nv|=0x80; if(wr) nv|=0x40; if(nv!=v){ *p=nv; if((nv&0xC0)==0xC0) __atomic_fetch_add(&S->nshared,1,__ATOMIC_RELAXED);} }
static inline u16 chk(int kind){ return (u16)(kind*64+g->cur->id); }
static int decide(int nopts,int cost,u16 c,bool cand){
  u64 idx=g->npoint++;
  if(g->di<g->nd){ const Dev&d=g->dv[g->di]; if(d.point==idx){ if(d.chk!=c||d.opt>=nopts) fatal("mcrt: replay diverged at point %lu: kind/tid %u vs %u, opt %d of %d (scenario %s)",(unsigned long)idx,d.chk,c,d.opt,nopts,g->scen); g->di++; return d.opt; } return 0; }
  if(cand && nopts>1 && (cost==0 || g->budget>0)){ if(g->ncand>=MAXCAND) fatal("mcrt: too many choice points"); Cand&x=g->cand[g->ncand++]; x.point=(u32)idx; x.nopts=(u16)nopts; x.chk=c; x.cost=(u8)cost; }
  return 0;
}
static void swap_to(Fiber*n){ Fiber*o=g->cur; if(n==o) return; g->cur=n; g->switches++; n->since=0; mc_swap(&o->sp,n->sp,n->fs,g->fsgs); }
[[noreturn]] static void end_execution(int code){ g->endcode=code; Fiber*o=g->cur; mc_swap(&o->sp,g->expl_sp,g->expl_fs,g->fsgs); __builtin_unreachable(); }
static void dump_threads(char*b,size_t n){ size_t k=0; for(int i=0;i<g->nf&&k+60<n;i++) if(g->f[i].st!=DONE) k+=snprintf(b+k,n-k," T%d:%s%s",i,stname[g->f[i].st],g->f[i].parked?"(idle)":""); }
// current fiber cannot (or must not) continue: pick the next one
static void reschedule(bool yielding){
  for(;;){
    int o[2*MAXF]; int n=options(o,false); int ne=n;
    if(n==0 && (g->cur->st==READY || (g->cur->st!=DONE&&g->cur->st!=W_SETTLE&&enabled(g->cur)))){ o[n++]=g->cur->id; ne=1; }
    if(n>0){
      n+=tmo_options(o+n); if(n>1 && o[n-1]==g->cur->id && ne<n && yielding) n--;
      int k=decide(n,1,chk(1),true); Fiber*f=&g->f[o[k]]; if(f->st!=READY) wake(f); swap_to(f); return; }
    // quiescence
    Fiber* best=0; u64 bd=~0ull; Fiber* settle=0;
    for(int i=0;i<g->nf;i++){ Fiber*f=&g->f[i]; if(f->st==W_SETTLE) settle=f; if(f->st==DONE) continue; if(timeoutable(f)||(f->st==W_SPIN&&f->parked&&f->lclock)){ u64 d=(f->st==W_SPIN)?g->now+10000000:tdeadline(f); if(d<bd){bd=d;best=f;} } }
    if(best && settle && bd>settle->deadline) best=0;
    if(best && g->clockjumps<3000){ g->clockjumps++; if(bd>g->now) g->now=bd; if(best->st==W_SPIN||best->parked){ best->parked=false; best->same=0; best->nrs=0; best->st=READY; best->timed=false; } else wake(best); swap_to(best); return; }
    if(g->unparks<4){ bool any=false; for(int i=0;i<g->nf;i++){ Fiber*f=&g->f[i]; if((f->st==W_SPIN||f->st==W_SLEEP||f->st==W_EPOLL)&&f->parked){ f->parked=false; f->same=0; if(f->st!=W_EPOLL) {f->st=READY; f->timed=false;} else { f->st=READY; f->timed=false; f->timed_out=true; } any=true; } } if(any){ g->unparks++; continue; } }
    if(settle){ g->unparks=0; g->clockjumps=0; settle->st=READY; swap_to(settle); return; }
    bool all=true; for(int i=0;i<g->nf;i++) if(g->f[i].st!=DONE) all=false;
    if(all) end_execution(0);
    char b[900]; dump_threads(b,700);
    if(g->maindone){ if(g->flags&mc::F_LEAVE_THREADS) end_execution(0); char m[1000]; snprintf(m,sizeof m,"threads never terminate after the scenario has ended:%s",b); report(m); }
    char m[1000]; snprintf(m,sizeof m,"deadlock or livelock: no thread can make progress:%s",b); report(m);
  }
}
static void trace_op(int op,u64 a,u64 v,u64 pc){ if(g->trace && g->ntr<200000){ Tr&t=g->tr[g->ntr++]; t.step=(u32)g->steps; t.tid=(u8)g->cur->id; t.op=(u8)op; t.addr=a; t.val=v; t.pc=pc; } }
// a visible operation is about to happen
static inline void vis(u64 a,bool wr,int kind,bool force=false){
  Fiber*f=g->cur; g->steps++; if(g->steps>g->steplimit) report("no termination: step limit of one execution exceeded (livelock)");
  touch(a,wr);
  if(g->flags&mc::F_SEQ) return;
  if(++f->since>6000){ f->since=0; int o[2*MAXF]; if(options(o,false)>0){ reschedule(true); } }
  bool target=g->di<g->nd && g->dv[g->di].point==g->npoint;
  if(target || (g->di>=g->nd && g->budget>0 && (force||shared_loc(a)))){
    int o[2*MAXF]; int n=options(o,false); n+=tmo_options(o+n);
    int k=decide(n+1,1,chk(kind),true);
    if(k>0){ Fiber*t=&g->f[o[k-1]]; if(t->st!=READY) wake(t); swap_to(t); }
  } else g->npoint++;
}
static inline void lrec(u64 a,u32 sz,u64 v,int kind){ // record for spin detection (after the operation)
  Fiber*f=g->cur; f->lops++;
  if(a>=f->ltop && a<ARENA+ARENA_SZ && a>=ARENA){ f->lh=mix(f->lh,kind); return; }
  f->lh=mix(mix(f->lh,a*8+kind),v);
  for(int i=f->nrs-1;i>=0;i--) if(f->rs[i].addr==a){ f->rs[i].val=v; f->rs[i].sz=sz; return; }
  if(f->nrs>=RSMAX){ f->ovf=true; return; }
  RS&r=f->rs[f->nrs++]; r.addr=a; r.val=v; r.sz=sz;
}
static void loop_reset(Fiber*f){ f->lh=0; f->lops=0; f->nrs=0; f->ovf=false; f->lclock=false; f->ltop=(u64)p_top; }
// returns whether the loop just finished was identical to the previous one
static bool loop_boundary(Fiber*f){ f->since=0; bool same= f->lh==f->plh && !f->ovf; f->plh=f->lh; if(same) f->same++; else f->same=0; return f->same>=1; }
// ---- happens-before ------------------------------------------------------------------------------
static void vjoin(VC&a,const VC&b){ for(int i=0;i<g->nf;i++) if(b.c[i]>a.c[i]) a.c[i]=b.c[i]; }
static Sync* sync_of(u64 a){ u64 h=mix(0,a); for(int k=0;;k++){ Sync*s=&g->sync[(h+k)&g->nsync_mask]; if(s->ex!=g->exno){ s->ex=g->exno; s->addr=a; memset(&s->vc,0,sizeof(VC)); return s; } if(s->addr==a) return s; if(k>5000) fatal("mcrt: sync table full"); } }
static void hb_acquire(u64 a){ if(g->race) vjoin(g->cur->vc,sync_of(a)->vc); }
static void hb_release(u64 a){ if(!g->race) return; vjoin(sync_of(a)->vc,g->cur->vc); g->cur->vc.c[g->cur->id]++; }
static bool is_acq(int mo){ return mo==__ATOMIC_ACQUIRE||mo==__ATOMIC_CONSUME||mo==__ATOMIC_ACQ_REL||mo==__ATOMIC_SEQ_CST; }
static bool is_rel(int mo){ return mo==__ATOMIC_RELEASE||mo==__ATOMIC_ACQ_REL||mo==__ATOMIC_SEQ_CST; }
static void hb_atomic(u64 a,int mo,bool rd,bool wr){
  Sync*s=sync_of(a); Fiber*f=g->cur;
  if(rd){ if(is_acq(mo)) vjoin(f->vc,s->vc); else vjoin(f->acqp,s->vc); }
  if(wr){ if(!rd) memset(&s->vc,0,sizeof(VC)); if(is_rel(mo)){ vjoin(s->vc,f->vc); f->vc.c[f->id]++; } else vjoin(s->vc,f->relf); }
}
static Cell* cell_of(u64 a){ // a 8-aligned
  if(a>=ARENA&&a<ARENA+ARENA_SZ) return (Cell*)(SHADOW+(a-ARENA)*8);
  if(a>=STKBASE&&a<STKBASE+(u64)MAXF*STACK) return (Cell*)(SHADOW+ARENA_SZ*8+(a-STKBASE)*8);
  for(int i=0;i<g->nseg;i++) if(a>=(u64)g->seg[i].p && a<(u64)g->seg[i].p+g->seg[i].n){ u64 off=0; for(int j=0;j<i;j++) off+=(g->seg[j].n+63)&~63ull; return (Cell*)(SHADOW+ARENA_SZ*8+(u64)MAXF*STACK*8+(off+(a-(u64)g->seg[i].p))*8); }
  return nullptr;
}
static u64 exe_base=0;
static NOINL void race_report(Acc&o,u8 fl,u64 a,u64 pc);
static inline void acc8(u64 a8,u8 mask,u8 fl,u64 pc){
  Cell*c=cell_of(a8); if(!c) return; Fiber*f=g->cur; int stale=-1, own=-1;
  for(int i=0;i<4;i++){ Acc&o=c->a[i]; if(o.ex!=g->exno){ if(stale<0) stale=i; continue; }
    if(o.fl&4){ if(o.mask&mask) race_report(o,fl,a8,pc); continue; }
    if(o.tid==f->id){ if(o.mask==mask && (o.fl&3)==fl) own=i; else if(o.mask==mask && !(fl&2) && (fl&1) && !(o.fl&2)) own=i; continue; }
    if(!(o.mask&mask)) continue; if(!((o.fl|fl)&1)) continue; if((o.fl&2)&&(fl&2)) continue;
    if(o.clk>f->vc.c[o.tid]) race_report(o,fl,a8,pc);
  }
  int k= own>=0?own: stale>=0?stale: (int)((g->steps+a8/8)&3);
  Acc&n=c->a[k]; if(own<0&&stale<0&&(n.fl&4)) return; n.ex=g->exno; n.clk=f->vc.c[f->id]; n.tid=(u8)f->id; n.mask=mask; n.fl=fl; n.pc=(u32)(pc-exe_base);
}
static NOINL void access(u64 a,u64 n,u8 fl,u64 pc){ while(n){ u64 o=a&7; u64 k=8-o<n?8-o:n; acc8(a&~7ull,(u8)(((1u<<k)-1)<<o),fl,pc); a+=k; n-=k; } }
static void race_free(void*p,size_t n,u64 pc){ u64 a=(u64)p; if(n>65536) n=65536;
  for(u64 x=a;x<a+n;x+=8){ acc8(x,0xff,1,pc); Cell*c=cell_of(x); Acc&z=c->a[0]; z.ex=g->exno; z.fl=5; z.mask=0xff; z.tid=(u8)g->cur->id; z.pc=(u32)(pc-exe_base); for(int i=1;i<4;i++) c->a[i].ex=0; } }
static inline void mem_access(void*a,u64 n,bool wr,u64 pc){
  if(!g||!g->inexec||g->insched) return;
  Fiber*f=g->cur;
  if(wr && g->nheld[f->id]){ u64 x=(u64)a; if(x<(u64)f->stk||x>=(u64)f->stk+STACK) g->hdirty[f->id][g->nheld[f->id]-1]=1; }
  if(g->race) access((u64)a,n,wr?1:0,pc);
}
static char* symb(u64 pc,char*b,size_t n){ // addr2line on the executable, in a child process (real fork via vfork-like syscall)
  char cmd[600]; b[0]=0; static char exe[300]; ssize_t k=readlink("/proc/self/exe",exe,299); if(k<0) return b; exe[k]=0;
  int pf[2]; if(pipe(pf)) return b; char ad[40]; snprintf(ad,40,"0x%lx",(unsigned long)(pc-1)); (void)cmd;
  long pid=syscall(SYS_fork); if(pid==0){ dup2(pf[1],1); char*av[]={(char*)"addr2line",(char*)"-e",exe,(char*)"-f",(char*)"-C",(char*)"-i",ad,0}; char*ev[]={(char*)"PATH=/usr/bin:/bin",0}; execve("/usr/bin/addr2line",av,ev); die(1);} close(pf[1]); size_t m=0; while(m<n-1){ ssize_t r=read(pf[0],b+m,n-1-m); if(r<=0) break; m+=r; } b[m]=0; close(pf[0]); int st; syscall(SYS_wait4,pid,&st,0,0); return b; }
static void short_sym(const char* full,char*o,size_t n){ // innermost function + file:line pairs that are in boost/asynchronous or the harness
  size_t k=0; o[0]=0; const char*p=full; int cnt=0; while(*p&&cnt<3){ const char*e=strchr(p,'\n'); if(!e) break; const char*l=e+1; const char*e2=strchr(l,'\n'); if(!e2) break; const char*fn=l; for(const char*q=l;q<e2;q++) if(*q=='/') fn=q+1; size_t fl=e2-fn; const char* d=(const char*)memchr(fn,' ',fl); if(d) fl=d-fn; k+=snprintf(o+k,n-k,"%s%.*s",cnt?" < ":"",(int)fl,fn); if(k>=n) return; cnt++; p=e2+1; } }
static bool race_ignored(const char*f){ // accesses inside these libraries are not ours: innermost frame decides
  const char*e=strchr(f,'\n'); if(!e) return true; char l[600]; const char*e2=strchr(e+1,'\n'); size_t n=e2?e2-e-1:strlen(e+1); if(n>599) n=599; memcpy(l,e+1,n); l[n]=0;
  // any frame of the inlined chain in boost/lockfree: optimistic reads by design
  if(strstr(f,"/boost/lockfree/")) return true;
  if(strstr(l,"/boost/thread/")||strstr(l,"/boost/smart_ptr/")||strstr(l,"/boost/asio/")) return true;
  return false; }
static NOINL void race_report(Acc&o,u8 fl,u64 a,u64 pc){
  if(g->aborting) return; u64 p1=o.pc, p2=pc-exe_base; bool uaf=o.fl&4;
  spl(&S->lock); int verdict=-1; for(int i=0;i<S->nrace;i++) if(S->racecache[i].a==p1&&S->racecache[i].b==p2){ verdict=S->racecache[i].verdict; break; } spu(&S->lock);
  if(verdict==0) return;
  static char f1[8192],f2[8192]; char s1[300],s2[300]; symb(p1,f1,sizeof f1); symb(p2,f2,sizeof f2);
  bool ign= uaf? race_ignored(f2) : (race_ignored(f1)||race_ignored(f2));
  spl(&S->lock); if(S->nrace<4096){ S->racecache[S->nrace].a=p1; S->racecache[S->nrace].b=p2; S->racecache[S->nrace].verdict=!ign; S->nrace++; } if(ign) S->races_suppressed++; spu(&S->lock);
  if(ign) return; short_sym(f1,s1,300); short_sym(f2,s2,300); char m[1000];
  if(uaf) snprintf(m,sizeof m,"use after free: %s at %s, freed by T%d",(fl&1)?"write":"read",s2,o.tid);
  else snprintf(m,sizeof m,"data race: %s%s by T%d at %s and %s%s by T%d at %s",(o.fl&2)?"atomic ":"",(o.fl&1)?"write":"read",o.tid,s1,(fl&2)?"atomic ":"",(fl&1)?"write":"read",g->cur->id,s2);
  report(m);
}
// ---- failure --------------------------------------------------------------------------------------
static void print_trace();
static void mksig(const char*m,char*o,size_t n){ size_t k=0; for(;*m&&k<n-1;m++){ if(*m>='0'&&*m<='9'){ if(k&&o[k-1]=='#') continue; o[k++]='#'; } else o[k++]=*m; } o[k]=0; }
static void report(const char* msg){
  if(!g||!S){ (void)!write(2,msg,strlen(msg)); die(4); }
  if(g->aborting) die(4); g->aborting=true; g->insched=true;
  char sig[200]; mksig(msg,sig,sizeof sig);
  spl(&S->lock); int i; for(i=0;i<S->nviol;i++) if(!strcmp(S->viol[i].sig,sig)) break;
  S->nviol_total=S->nviol_total+1;
  if(i==S->nviol && i<MAXVIOL){ Viol&v=S->viol[i]; memset(&v,0,sizeof v); strncpy(v.scen,g->scen,63); strncpy(v.msg,msg,1199); strcpy(v.sig,sig); v.node.nd=g->nd; for(int k=0;k<g->nd;k++) v.node.d[k]=g->dv[k]; v.count=1; S->nviol++; } else if(i<MAXVIOL) S->viol[i].count++;
  spu(&S->lock);
  if(g->trace) { print_trace(); dprintf(1,"FAILURE %s\n",msg); }
  die(10);
}
static void sigh(int s,siginfo_t*si,void*uc){ if(s==SIGALRM && g && !g->inexec) return; u64 rip=((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP]; if(g&&g->trace){ static char fu[8192]; char sy[300]; symb(rip-exe_base+1,fu,sizeof fu); short_sym(fu,sy,300); dprintf(1,"signal %d at rip %lx (%s) addr %p\n",s,(unsigned long)(rip-exe_base),sy,si->si_addr); } char b[200]; if(g&&g->inexec){ if(s==SIGALRM) snprintf(b,sizeof b,"execution hangs without visible operation (real time limit)"); else snprintf(b,sizeof b,"crash: signal %d (%s) at address %s",s,s==SIGSEGV?"SIGSEGV":s==SIGFPE?"SIGFPE":s==SIGBUS?"SIGBUS":"signal",((u64)si->si_addr>>40)==0xddddddull||((u64)si->si_addr)==0?(si->si_addr?"of freed memory":"null/non-canonical"):"invalid"); report(b);} snprintf(b,sizeof b,"mcrt: signal %d outside execution",s); fatal("%s",b); }
static void print_trace(){
  static const char* on[]={"?","block","load","store","rmw","cas","fence","lock","unlock","cond_wait","cond_signal","create","join","yield","sleep","futex_wait","futex_wake","point","choose","trylock","exit","event","other"};
  u64 lastpc=0; char sy[300]={0}; static char full[8192]; u32 from=g->ntr>400?g->ntr-400:0; if(g->verbose) from=0;
  for(u32 i=from;i<g->ntr;i++){ Tr&t=g->tr[i]; if(t.pc&&t.pc!=lastpc){ symb(t.pc-exe_base,full,sizeof full); short_sym(full,sy,sizeof sy); lastpc=t.pc; } if(t.op==21) dprintf(1,"  %6u T%d  EVENT kind=%ld a=%ld b=%ld\n",t.step,t.tid,(long)t.addr,(long)t.val,(long)t.pc); else dprintf(1,"  %6u T%d  %-11s %lx = %lx  %s\n",t.step,t.tid,on[t.op],(unsigned long)t.addr,(unsigned long)t.val,t.pc?sy:""); if(t.op==21) lastpc=0; }
}
}
#define PC ((u64)__builtin_return_address(0))
#define LIVE_EXEC (g && g->inexec && !g->insched)
// ------------------------------------------------------------------------------------------------
// tsan interface: plain accesses
extern "C" {
void __tsan_init(){} void __tsan_func_entry(void*){} void __tsan_func_exit(){}
#define RW1(n) void __tsan_read##n(void*a){ mem_access(a,n,false,PC);} void __tsan_write##n(void*a){ mem_access(a,n,true,PC);} \
 void __tsan_unaligned_read##n(void*a){ mem_access(a,n,false,PC);} void __tsan_unaligned_write##n(void*a){ mem_access(a,n,true,PC);} \
 void __tsan_read_write##n(void*a){ mem_access(a,n,true,PC);} void __tsan_volatile_read##n(void*a){ mem_access(a,n,false,PC);} void __tsan_volatile_write##n(void*a){ mem_access(a,n,true,PC);}
RW1(1) RW1(2) RW1(4) RW1(8) RW1(16)
void __tsan_read_range(void*a,u64 n){ mem_access(a,n,false,PC);} void __tsan_write_range(void*a,u64 n){ mem_access(a,n,true,PC);}
void __tsan_vptr_update(void**a,void*v){ mem_access(a,8,*a!=v,PC); } void __tsan_vptr_read(void**a){ mem_access(a,8,false,PC);}
}
namespace {
template<class T> static inline u64 tov(T v){ u64 r=0; memcpy(&r,&v,sizeof(T)<8?sizeof(T):8); return r; }
enum { O_LOAD=2,O_STORE,O_RMW,O_CAS,O_FENCE,O_LOCK,O_UNLOCK,O_CWAIT,O_CSIG,O_CREATE,O_JOIN,O_YIELD,O_SLEEP,O_FWAIT,O_FWAKE,O_POINT,O_CHOOSE,O_TRYLOCK,O_EXIT,O_EVENT,O_OTHER };
template<class T> static inline T a_load(const volatile T*p,int mo,u64 pc){ if(!LIVE_EXEC) return *p; vis((u64)p,false,O_LOAD); T v=*p; lrec((u64)p,sizeof(T)<8?sizeof(T):8,tov(v),O_LOAD); trace_op(O_LOAD,(u64)p,tov(v),pc); if(g->race){ access((u64)p,sizeof(T),2,pc); hb_atomic((u64)p,mo,true,false);} return v; }
template<class T> static inline void a_store(volatile T*p,T v,int mo,u64 pc){ if(!LIVE_EXEC){ *p=v; return; } vis((u64)p,true,O_STORE); *p=v; lrec((u64)p,sizeof(T)<8?sizeof(T):8,tov(v),O_STORE); trace_op(O_STORE,(u64)p,tov(v),pc); if(g->race){ access((u64)p,sizeof(T),3,pc); hb_atomic((u64)p,mo,false,true);} }
template<class T,class F> static inline T a_rmw(volatile T*p,F f,int mo,u64 pc){ if(!LIVE_EXEC){ T o=*p; *p=f(o); return o; } vis((u64)p,true,O_RMW); T o=*p; T n=f(o); *p=n; lrec((u64)p,sizeof(T)<8?sizeof(T):8,tov(n),O_RMW); trace_op(O_RMW,(u64)p,tov(n),pc); if(g->race){ access((u64)p,sizeof(T),3,pc); hb_atomic((u64)p,mo,true,true);} return o; }
template<class T> static inline int a_cas(volatile T*p,T*e,T d,int mo,int fmo,u64 pc){ if(!LIVE_EXEC){ T o=*p; if(o==*e){ *p=d; return 1;} *e=o; return 0; } vis((u64)p,true,O_CAS); T o=*p; bool ok=o==*e; if(ok) *p=d; T now=*p; lrec((u64)p,sizeof(T)<8?sizeof(T):8,tov(now),O_CAS); trace_op(O_CAS,(u64)p,tov(now),pc); if(g->race){ access((u64)p,sizeof(T),ok?3:2,pc); if(ok) hb_atomic((u64)p,mo,true,true); else hb_atomic((u64)p,fmo,true,false);} if(!ok) *e=o; return ok; }
}
typedef unsigned __int128 u128;
extern "C" {
#define AT(B,T) \
T __tsan_atomic##B##_load(const volatile T*p,int mo){ return a_load<T>(p,mo,PC);} \
void __tsan_atomic##B##_store(volatile T*p,T v,int mo){ a_store<T>(p,v,mo,PC);} \
T __tsan_atomic##B##_exchange(volatile T*p,T v,int mo){ return a_rmw<T>(p,[v](T){return v;},mo,PC);} \
T __tsan_atomic##B##_fetch_add(volatile T*p,T v,int mo){ return a_rmw<T>(p,[v](T o){return (T)(o+v);},mo,PC);} \
T __tsan_atomic##B##_fetch_sub(volatile T*p,T v,int mo){ return a_rmw<T>(p,[v](T o){return (T)(o-v);},mo,PC);} \
T __tsan_atomic##B##_fetch_and(volatile T*p,T v,int mo){ return a_rmw<T>(p,[v](T o){return (T)(o&v);},mo,PC);} \
T __tsan_atomic##B##_fetch_or(volatile T*p,T v,int mo){ return a_rmw<T>(p,[v](T o){return (T)(o|v);},mo,PC);} \
T __tsan_atomic##B##_fetch_xor(volatile T*p,T v,int mo){ return a_rmw<T>(p,[v](T o){return (T)(o^v);},mo,PC);} \
T __tsan_atomic##B##_fetch_nand(volatile T*p,T v,int mo){ return a_rmw<T>(p,[v](T o){return (T)~(o&v);},mo,PC);} \
int __tsan_atomic##B##_compare_exchange_strong(volatile T*p,T*e,T d,int mo,int f){ return a_cas<T>(p,e,d,mo,f,PC);} \
int __tsan_atomic##B##_compare_exchange_weak(volatile T*p,T*e,T d,int mo,int f){ return a_cas<T>(p,e,d,mo,f,PC);} \
T __tsan_atomic##B##_compare_exchange_val(volatile T*p,T e,T d,int mo,int f){ T x=e; a_cas<T>(p,&x,d,mo,f,PC); return x; }
AT(8,u8) AT(16,u16) AT(32,u32) AT(64,u64) AT(128,u128)
void __tsan_atomic_thread_fence(int mo){ if(!LIVE_EXEC||!g->race) return; Fiber*f=g->cur; if(is_acq(mo)) vjoin(f->vc,f->acqp); if(is_rel(mo)){ f->relf=f->vc; f->vc.c[f->id]++; } }
void __tsan_atomic_signal_fence(int){}
}
// ------------------------------------------------------------------------------------------------
// threads
namespace {
static void fiber_exit_dtors(Fiber*f){
  while(f->ndtor){ Dtor d=f->dtor[--f->ndtor]; d.f(d.o); }
  for(int it=0;it<4;it++){ bool any=false; for(int k=0;k<MAXKEY;k++) if(p_keys[k].used&&p_keys[k].d&&f->spec[k]){ void*v=f->spec[k]; f->spec[k]=0; any=true; p_keys[k].d(v);} if(!any) break; }
  while(f->ndtor){ Dtor d=f->dtor[--f->ndtor]; d.f(d.o); }
}
struct exit_thread{ void* r; };
static void fiber_main(){
  Fiber*f=g->cur;
  if(f->id==0){ f->fn(f->arg); g->maindone=true; fiber_exit_dtors(f); }
  else { f->ret=f->fn(f->arg); fiber_exit_dtors(f); }
  vis((u64)f,true,O_EXIT,true); trace_op(O_EXIT,0,0,0);
  if(g->race){ hb_release((u64)f); }
  f->st=DONE; reschedule(false); fatal("mcrt: finished fiber resumed");
}
extern "C" void mc_fiber_tramp(); asm(".text\n.globl mc_fiber_tramp\nmc_fiber_tramp:\n  .cfi_startproc\n .cfi_undefined rip\n xor %ebp,%ebp\n call *%rbx\n ud2\n .cfi_endproc\n");
static Fiber* new_fiber(void*(*fn)(void*),void*arg){
  if(g->nf>=MAXF||g->nf>=g->npoolth) report("too many threads started in one execution");
  Fiber*f=&g->f[g->nf]; char*stk=f->stk; u64 fs=g->poolfs[g->nf]; pthread_t pt=g->poolpt[g->nf]; memset((void*)f,0,offsetof(Fiber,lh)); f->plh=~0ull; f->same=0; f->parked=false; memset(&f->vc,0,sizeof(VC)*3); f->ndtor=0; memset(f->spec,0,sizeof f->spec); f->since=0; f->lclock=false;
  f->id=g->nf++; f->stk=stk; f->fs=fs; f->pt=pt; f->fn=fn; f->arg=arg; f->st=READY; loop_reset(f); g->nheld[f->id]=0; f->vc.c[f->id]=1;
  u64* sp=(u64*)(stk+STACK-64); *--sp=0; *--sp=0; *--sp=(u64)&mc_fiber_tramp; *--sp=0/*rbp*/; *--sp=(u64)&fiber_main/*rbx*/; for(int i=0;i<4;i++) *--sp=0; f->sp=sp; 
  return f;
}
static void block(int st,void*a){ Fiber*f=g->cur; f->st=st; f->waddr=a; reschedule(false); }
static Fiber* by_pt(pthread_t t){ for(int i=0;i<g->nf;i++) if(g->f[i].pt==t) return &g->f[i]; return nullptr; }
static void do_yield(){
  Fiber*f=g->cur; g->steps++; if(g->steps>g->steplimit) report("no termination: step limit of one execution exceeded (livelock)"); trace_op(O_YIELD,0,0,0); if(g->flags&mc::F_SEQ) return; bool same=loop_boundary(f);
  if(same){ f->st=W_SPIN; f->parked=true; g->W->parks++; bool lc=f->lclock; f->lclock=lc; reschedule(true); f->parked=false; }
  else { f->st=W_SPIN; f->parked=false; reschedule(true); }
  f->st=READY; loop_reset(f);
}
static void do_sleep(u64 ns){
  Fiber*f=g->cur; g->steps++; trace_op(O_SLEEP,0,ns,0); if(g->flags&mc::F_SEQ){ g->now+=ns; return; } bool same=loop_boundary(f);
  f->timed=true; f->deadline=g->now+ns; f->st=W_SLEEP; f->parked=same; if(same) g->W->parks++; reschedule(true); f->parked=false; f->timed=false; f->st=READY; loop_reset(f);
}
static u64 abs_to_virtual(const struct timespec*ts,bool mono){ __int128 t=(__int128)ts->tv_sec*1000000000+ts->tv_nsec; t-=mono?MONO0:REAL0; if(t<0) return 0; if(t>(__int128)~0ull/2) return ~0ull/2; return (u64)t; }
// mutex
static inline void m_held_push(u64 a){ int t=g->cur->id; if(g->nheld[t]<32){ g->held[t][g->nheld[t]]=a; g->hdirty[t][g->nheld[t]]=0; g->nheld[t]++; } }
static inline bool m_held_pop(u64 a){ int t=g->cur->id; for(int i=g->nheld[t]-1;i>=0;i--) if(g->held[t][i]==a){ bool d=g->hdirty[t][i]; for(int j=i;j+1<g->nheld[t];j++){ g->held[t][j]=g->held[t][j+1]; g->hdirty[t][j]=g->hdirty[t][j+1]; } g->nheld[t]--; if(d&&i>0) g->hdirty[t][i-1]=1; return d; } return true; }
static int m_lock(MX*m,bool timed,u64 dl){
  Fiber*f=g->cur; vis((u64)m,true,O_LOCK);
  if(m->owner==f->id+1){ if(m->kind==PTHREAD_MUTEX_RECURSIVE){ m->cnt++; return 0; } if(m->kind==PTHREAD_MUTEX_ERRORCHECK) return EDEADLK; if(!timed) { /* self deadlock: block forever */ } }
  while(m->owner!=0){ f->timed=timed; f->deadline=dl; block(W_MUTEX,m); f->timed=false; if(f->timed_out){ f->timed_out=false; if(m->owner!=0) return ETIMEDOUT; } }
  m->owner=f->id+1; m->cnt=1; m_held_push((u64)m); lrec((u64)&m->ver,4,m->ver,O_LOCK); trace_op(O_LOCK,(u64)m,0,0); hb_acquire((u64)m); return 0;
}
static int m_trylock(MX*m){ Fiber*f=g->cur; vis((u64)m,true,O_TRYLOCK); trace_op(O_TRYLOCK,(u64)m,m->owner,0); lrec((u64)&m->owner,4,m->owner,O_TRYLOCK); if(m->owner==f->id+1&&m->kind==PTHREAD_MUTEX_RECURSIVE){ m->cnt++; return 0; } if(m->owner) return EBUSY; m->owner=f->id+1; m->cnt=1; m_held_push((u64)m); lrec((u64)&m->owner,4,0,O_TRYLOCK); lrec((u64)&m->ver,4,m->ver,O_LOCK); hb_acquire((u64)m); return 0; }
static int m_unlock(MX*m){ Fiber*f=g->cur; if(g->flags&mc::F_TRYLOCK) vis((u64)m,true,O_UNLOCK); else g->steps++; if(m->owner!=f->id+1){ return EPERM; } if(--m->cnt>0) return 0; hb_release((u64)m); m->owner=0; if(m_held_pop((u64)m)) m->ver++; trace_op(O_UNLOCK,(u64)m,m->ver,0);
  // keep own read set consistent with own critical section
  for(int i=f->nrs-1;i>=0;i--) if(f->rs[i].addr==(u64)&m->ver){ f->rs[i].val=m->ver; break; } return 0; }
struct CV { u32 clock; u32 pad; };
static int c_wait(CV*c,MX*m,bool timed,u64 dl){
  Fiber*f=g->cur; vis((u64)c,true,O_CWAIT); if(m->owner!=f->id+1) return EPERM; int cnt=m->cnt; trace_op(O_CWAIT,(u64)c,0,0);
  hb_release((u64)m); m->owner=0; if(m_held_pop((u64)m)) m->ver++;
  f->woken=false; f->timed=timed; f->deadline=dl; f->wseq=++g->waitseq; 
  bool park=false; if(timed){ lrec((u64)c,4,0,O_CWAIT); for(int i=f->nrs-1;i>=0;i--) if(f->rs[i].addr==(u64)&m->ver){ f->rs[i].val=m->ver; break; } park=loop_boundary(f);} (void)park;
  bool spur=false; if((g->flags&mc::F_SPURIOUS)){ spur=decide(2,1,chk(9),true)==1; }
  if(!spur) block(W_COND,c); else { f->st=W_SPIN; f->parked=false; f->timed=false; reschedule(true); f->st=READY; }
  bool to=f->timed_out; f->timed_out=false; f->timed=false; f->woken=false; if(timed) loop_reset(f);
  while(m->owner!=0) block(W_MUTEX,m); m->owner=f->id+1; m->cnt=cnt; m_held_push((u64)m); hb_acquire((u64)m); trace_op(O_CWAIT,(u64)c,to?2:1,0); return to?ETIMEDOUT:0;
}
static int c_signal(CV*c,bool all){ vis((u64)c,true,O_CSIG); trace_op(O_CSIG,(u64)c,all,0);
  for(;;){ int w[MAXF]; int n=0; for(int i=0;i<g->nf;i++){ Fiber*f=&g->f[i]; if(f->st==W_COND&&f->waddr==c&&!f->woken) w[n++]=i; } if(!n) return 0;
    for(int i=0;i<n;i++) for(int j=i+1;j<n;j++) if(g->f[w[j]].wseq<g->f[w[i]].wseq){ int t=w[i];w[i]=w[j];w[j]=t; }
    int k=all?0:(n>1?decide(n,1,chk(8),true):0); g->f[w[k]].woken=true; if(!all) return 0; } }
}
extern "C" {
int pthread_create(pthread_t*t,const pthread_attr_t*at,void*(*fn)(void*),void*arg){
  if(!LIVE_EXEC){ typedef int(*F)(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*); static F r=(F)dlsym(RTLD_NEXT,"pthread_create"); return r(t,at,fn,arg); }
  vis((u64)&g->nf,true,O_CREATE); Fiber*c=g->cur; Fiber*f=new_fiber(fn,arg); if(at){ int d=0; pthread_attr_getdetachstate(at,&d); f->detached=d==PTHREAD_CREATE_DETACHED; } f->vc=c->vc; f->vc.c[f->id]=1; c->vc.c[c->id]++; if(g->nf>g->W->maxthreads) g->W->maxthreads=g->nf; *t=f->pt; trace_op(O_CREATE,f->id,0,0); return 0; }
int pthread_join(pthread_t t,void**r){ if(!LIVE_EXEC) return ESRCH; Fiber*f=by_pt(t); if(!f) return ESRCH; if(f==g->cur) return EDEADLK; if(f->detached||f->joined) return EINVAL; vis((u64)f,true,O_JOIN,true); trace_op(O_JOIN,f->id,0,0); if(f->st!=DONE) block(W_JOIN,f); f->joined=true; hb_acquire((u64)f); if(r) *r=f->ret; return 0; }
int pthread_timedjoin_np(pthread_t t,void**r,const struct timespec*){ return pthread_join(t,r); }
int pthread_detach(pthread_t t){ if(!LIVE_EXEC) return 0; Fiber*f=by_pt(t); if(!f) return ESRCH; f->detached=true; return 0; }
int pthread_setaffinity_np(pthread_t,size_t,const cpu_set_t*){ return 0; }
int pthread_setname_np(pthread_t,const char*){ return 0; }
int pthread_mutex_init(pthread_mutex_t*m,const pthread_mutexattr_t*a){ memset(m,0,sizeof *m); ((MX*)m)->kind=a?(*(const int*)a)&3:0; return 0; }
int pthread_mutex_destroy(pthread_mutex_t*m){ if(LIVE_EXEC&&((MX*)m)->owner) return EBUSY; if(LIVE_EXEC&&g->race) access((u64)m,4,3,PC); return 0; }
int pthread_mutex_lock(pthread_mutex_t*m){ if(!LIVE_EXEC) return 0; if(g->race) access((u64)m,4,2,PC); return m_lock((MX*)m,false,0); }
int pthread_mutex_trylock(pthread_mutex_t*m){ if(!LIVE_EXEC) return 0; if(g->race) access((u64)m,4,2,PC); return m_trylock((MX*)m); }
int pthread_mutex_unlock(pthread_mutex_t*m){ if(!LIVE_EXEC) return 0; return m_unlock((MX*)m); }
int pthread_mutex_timedlock(pthread_mutex_t*m,const struct timespec*ts){ if(!LIVE_EXEC) return 0; return m_lock((MX*)m,true,abs_to_virtual(ts,false)); }
int pthread_mutex_clocklock(pthread_mutex_t*m,clockid_t c,const struct timespec*ts){ if(!LIVE_EXEC) return 0; return m_lock((MX*)m,true,abs_to_virtual(ts,c==CLOCK_MONOTONIC)); }
int pthread_cond_init(pthread_cond_t*c,const pthread_condattr_t*a){ memset(c,0,sizeof *c); ((CV*)c)->clock=a?((*(const int*)a)>>1)&1:0; return 0; }
int pthread_cond_destroy(pthread_cond_t*){ return 0; }
int pthread_cond_wait(pthread_cond_t*c,pthread_mutex_t*m){ if(!LIVE_EXEC) return 0; return c_wait((CV*)c,(MX*)m,false,0); }
int pthread_cond_timedwait(pthread_cond_t*c,pthread_mutex_t*m,const struct timespec*ts){ if(!LIVE_EXEC) return 0; return c_wait((CV*)c,(MX*)m,true,abs_to_virtual(ts,((CV*)c)->clock==1)); }
int pthread_cond_clockwait(pthread_cond_t*c,pthread_mutex_t*m,clockid_t k,const struct timespec*ts){ if(!LIVE_EXEC) return 0; return c_wait((CV*)c,(MX*)m,true,abs_to_virtual(ts,k==CLOCK_MONOTONIC)); }
int pthread_cond_signal(pthread_cond_t*c){ if(!LIVE_EXEC) return 0; return c_signal((CV*)c,false); }
int pthread_cond_broadcast(pthread_cond_t*c){ if(!LIVE_EXEC) return 0; return c_signal((CV*)c,true); }
int pthread_rwlock_init(pthread_rwlock_t*r,const pthread_rwlockattr_t*){ memset(r,0,sizeof *r); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*){ return 0; }
static int rwl(pthread_rwlock_t*r_,bool wr,bool tryl){ if(!LIVE_EXEC) return 0; RW*r=(RW*)r_; vis((u64)r,true,O_LOCK); while(wr?(r->w||r->readers):r->w){ if(tryl) return EBUSY; g->cur->wr=wr; block(W_RW,r); } if(wr) r->w=1; else r->readers++; lrec((u64)r,8,*(u64*)r,O_LOCK); hb_acquire((u64)r); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t*r){ return rwl(r,false,false);} int pthread_rwlock_wrlock(pthread_rwlock_t*r){ return rwl(r,true,false);} int pthread_rwlock_tryrdlock(pthread_rwlock_t*r){ return rwl(r,false,true);} int pthread_rwlock_trywrlock(pthread_rwlock_t*r){ return rwl(r,true,true);}
int pthread_rwlock_unlock(pthread_rwlock_t*r_){ if(!LIVE_EXEC) return 0; RW*r=(RW*)r_; hb_release((u64)r); if(r->w) r->w=0; else if(r->readers) r->readers--; return 0; }
int pthread_once(pthread_once_t*o,void(*fn)(void)){ volatile int*s=(volatile int*)o; if(!LIVE_EXEC){ if(*s!=2){ *s=1; fn(); *s=2; } return 0; }
  vis((u64)o,true,O_LOCK); for(;;){ if(*s==2){ hb_acquire((u64)o); return 0; } if(*s==1){ block(W_GUARD,(void*)s); continue; } *s=1; try{ fn(); }catch(...){ *s=0; throw; } *s=2; hb_release((u64)o); return 0; } }
int __cxa_guard_acquire(long long*gu){ volatile u8*d=(volatile u8*)gu; volatile int*s=(volatile int*)((char*)gu+4); if(!LIVE_EXEC){ if(*d) return 0; return 1; } vis((u64)gu,true,O_LOCK); for(;;){ if(*d){ hb_acquire((u64)gu); return 0; } if(*s==1){ block(W_GUARD,(void*)s); continue; } *s=1; return 1; } }
void __cxa_guard_release(long long*gu){ *(volatile int*)((char*)gu+4)=0; *(volatile u8*)gu=1; if(LIVE_EXEC) hb_release((u64)gu); }
// exception objects are shared through a reference count inside libstdc++: dropping a reference happens before destroying the object
void __cxa_end_catch(){ typedef void(*F)(); static F r=(F)dlsym(RTLD_NEXT,"__cxa_end_catch"); if(LIVE_EXEC&&g->race){ std::exception_ptr p=std::current_exception(); void*o=*(void**)&p; if(o) hb_release((u64)o); } r(); }
void mc_exc_release(void*p) asm("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv");
void mc_exc_release(void*p){ typedef void(*F)(void*); static F r=(F)dlsym(RTLD_NEXT,"_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv"); if(LIVE_EXEC&&g->race){ void*o=*(void**)p; if(o){ hb_release((u64)o); hb_acquire((u64)o); } } r(p); }
void __cxa_guard_abort(long long*gu){ *(volatile int*)((char*)gu+4)=0; }
int pthread_key_create(pthread_key_t*k,void(*d)(void*)){ for(int i=0;i<MAXKEY;i++) if(!p_keys[i].used){ p_keys[i].used=true; p_keys[i].d=d; *k=i; p_spec0[i]=0; if(g&&g->inexec) for(int j=0;j<MAXF;j++) g->f[j].spec[i]=0; return 0; } return EAGAIN; }
int pthread_key_delete(pthread_key_t k){ if(k<MAXKEY) p_keys[k].used=false; return 0; }
void* pthread_getspecific(pthread_key_t k){ if(k>=MAXKEY) return 0; if(g&&g->inexec) return g->cur->spec[k]; return p_spec0[k]; }
int pthread_setspecific(pthread_key_t k,const void*v){ if(k>=MAXKEY) return EINVAL; if(g&&g->inexec) g->cur->spec[k]=(void*)v; else p_spec0[k]=(void*)v; return 0; }
int __cxa_thread_atexit(void(*d)(void*),void*o,void*){ if(!(g&&g->inexec)) return 0; Fiber*f=g->cur; if(f->ndtor>=256) report("too many thread_local destructors"); f->dtor[f->ndtor++]={d,o}; return 0; }
int sched_yield(){ if(!LIVE_EXEC) return (int)syscall(SYS_sched_yield); do_yield(); return 0; }
int nanosleep(const struct timespec*t,struct timespec*){ if(!LIVE_EXEC) return 0; u64 ns=t->tv_sec*1000000000ull+t->tv_nsec; do_sleep(ns); return 0; }
int usleep(useconds_t u){ if(LIVE_EXEC) do_sleep(u*1000ull); return 0; }
unsigned sleep(unsigned s){ if(LIVE_EXEC) do_sleep(s*1000000000ull); return 0; }
int clock_nanosleep(clockid_t c,int fl,const struct timespec*t,struct timespec*){ if(!LIVE_EXEC) return 0; if(fl&TIMER_ABSTIME){ u64 d=abs_to_virtual(t,c==CLOCK_MONOTONIC); do_sleep(d>g->now?d-g->now:0); } else do_sleep(t->tv_sec*1000000000ull+t->tv_nsec); return 0; }
int clock_gettime(clockid_t c,struct timespec*t){ if(!(g&&g->inexec)) return (int)syscall(SYS_clock_gettime,c,t); g->now+=100; g->cur->lclock=true; u64 v=g->now+(c==CLOCK_REALTIME||c==CLOCK_REALTIME_COARSE?REAL0:MONO0); t->tv_sec=v/1000000000; t->tv_nsec=v%1000000000; return 0; }
int gettimeofday(struct timeval*t,void*) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME,&ts); t->tv_sec=ts.tv_sec; t->tv_usec=ts.tv_nsec/1000; return 0; }
time_t time(time_t*o) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME,&ts); if(o) *o=ts.tv_sec; return ts.tv_sec; }
void abort() noexcept { if(g&&g->inexec){ char b[300]; const std::type_info*ti=abi::__cxa_current_exception_type(); const char*w=""; char buf[160]={0}; if(ti){ g->insched=true; try{ throw; }catch(std::exception&e){ snprintf(buf,sizeof buf," (%s)",e.what()); }catch(...){ } w=ti->name(); } snprintf(b,sizeof b,"std::terminate/abort called%s%s%s",ti?", uncaught exception ":"",w,buf); report(b); } die(134); }
int sem_init(sem_t*s,int,unsigned v) noexcept { memset(s,0,sizeof *s); *(int*)s=v; return 0; }
int sem_destroy(sem_t*) noexcept { return 0; }
int sem_wait(sem_t*s){ if(!LIVE_EXEC) return 0; vis((u64)s,true,O_LOCK); while(*(int*)s<=0){ g->cur->woken=false; block(W_SEM,s); g->cur->woken=false; } --*(int*)s; hb_acquire((u64)s); return 0; }
int sem_trywait(sem_t*s) noexcept { if(!LIVE_EXEC) return 0; vis((u64)s,true,O_LOCK); if(*(int*)s<=0){ lrec((u64)s,4,*(int*)s,O_LOCK); errno=EAGAIN; return -1; } --*(int*)s; hb_acquire((u64)s); return 0; }
int sem_post(sem_t*s) noexcept { if(!LIVE_EXEC) return 0; vis((u64)s,true,O_UNLOCK); ++*(int*)s; hb_release((u64)s); for(int i=0;i<g->nf;i++) if(g->f[i].st==W_SEM&&g->f[i].waddr==s) g->f[i].woken=true; return 0; }
// virtual eventfd/timerfd/epoll for boost.asio
static int fd_new(int kind){ for(int i=0;i<64;i++) if(!p_fd[i].kind){ memset(&p_fd[i],0,sizeof(Fd)); p_fd[i].kind=kind; p_fd[i].ep=-1; return 700+i; } errno=EMFILE; return -1; }
int eventfd(unsigned v,int) noexcept { int f=fd_new(1); if(f>=0) p_fd[f-700].cnt=v; return f; }
int timerfd_create(clockid_t,int) noexcept { return fd_new(2); }
int epoll_create1(int) noexcept { return fd_new(3); } int epoll_create(int) noexcept { return fd_new(3); }
int timerfd_settime(int fd,int fl,const struct itimerspec*n,struct itimerspec*o) noexcept { if(!fd_is(fd,2)){ errno=EBADF; return -1; } Fd&f=p_fd[fd-700]; if(o) memset(o,0,sizeof *o); u64 v=n->it_value.tv_sec*1000000000ull+n->it_value.tv_nsec; if(LIVE_EXEC) vis((u64)&f,true,O_OTHER); if(!v) f.armed=false; else { f.armed=true; f.interval=0; if(fl&TFD_TIMER_ABSTIME){ f.deadline=abs_to_virtual(&n->it_value,true); } else f.deadline=(g?g->now:0)+v; } f.cnt++; return 0; }
int epoll_ctl(int ep,int op,int fd,struct epoll_event*e) noexcept { if(!fd_is(ep,3)||fd<700||fd>=764) { errno=EBADF; return -1; } Fd&f=p_fd[fd-700]; if(op==EPOLL_CTL_DEL){ f.ep=-1; return 0; } f.ep=ep; f.events=e->events&~(EPOLLET); f.et=e->events&EPOLLET; f.interval=0; f.data=e->data.u64; return 0; }
int epoll_wait(int ep,struct epoll_event*e,int max,int tmo){ if(!LIVE_EXEC) return 0; vis((u64)&p_fd[ep-700],true,O_OTHER);
  Fiber*f=g->cur;
  if(tmo!=0 && !ep_ready(ep)){ f->timed=tmo>0; f->deadline=g->now+(tmo>0?tmo*1000000ull:0); f->parked=false; block(W_EPOLL,(void*)(long)ep); f->timed=false; f->timed_out=false; }
  int n=0; for(int i=0;i<64&&n<max;i++){ Fd&d=p_fd[i]; if(d.kind&&d.ep==ep){ u64 r=fd_ready_events(d)&d.events; if(r&&!(d.et&&d.interval==~0ull)){ e[n].events=(u32)r; e[n].data.u64=d.data; n++; if(d.et&&d.kind==1) d.interval=~0ull; } } }
  lrec((u64)&p_fd[ep-700],4,n,O_OTHER); for(int i=0;i<64;i++) if(p_fd[i].kind&&p_fd[i].ep==ep) lrec((u64)&p_fd[i].cnt,8,p_fd[i].cnt,O_OTHER);
  if(tmo==0){ for(int i=0;i<64;i++) if(p_fd[i].kind==2&&p_fd[i].ep==ep&&p_fd[i].armed) f->lclock=true; }
  return n; }
}
static ssize_t v_write(int fd,const void*b,size_t n){ Fd&f=p_fd[fd-700]; u64 v=1; if(n>=8) memcpy(&v,b,8); if(LIVE_EXEC) vis((u64)&f,true,O_OTHER); f.cnt+=v; f.interval=0; return n; }
static ssize_t v_read(int fd,void*b,size_t n){ Fd&f=p_fd[fd-700]; if(LIVE_EXEC) vis((u64)&f,true,O_OTHER); if(f.kind==1){ if(!f.cnt){ errno=EAGAIN; return -1; } u64 v=f.cnt; if(n>=8) memcpy(b,&v,8); f.cnt=0; f.interval=0; return 8; } if(f.kind==2){ u64 v=1; if(!(f.armed&&f.deadline<=g->now)){ errno=EAGAIN; return -1; } memcpy(b,&v,8); f.armed=false; return 8; } errno=EBADF; return -1; }
extern "C" {
ssize_t write(int fd,const void*b,size_t n){ if(fd>=700&&fd<764) return v_write(fd,b,n); return syscall(SYS_write,fd,b,n); }
ssize_t read(int fd,void*b,size_t n){ if(fd>=700&&fd<764) return v_read(fd,b,n); return syscall(SYS_read,fd,b,n); }
int close(int fd){ if(fd>=700&&fd<764){ p_fd[fd-700].kind=0; p_fd[fd-700].ep=-1; return 0; } return (int)syscall(SYS_close,fd); }
}
// std::future and C++20 atomic waits: futexes
namespace {
static bool fut_wait(u32*a,u32 v,bool timed,u64 dl){ // true: woken or value differs, false: timeout
  Fiber*f=g->cur; vis((u64)a,false,O_FWAIT); if(*a!=v) return true; f->woken=false; f->timed=timed; f->deadline=dl; trace_op(O_FWAIT,(u64)a,v,0); if(timed){ lrec((u64)a,4,*a,O_FWAIT); loop_boundary(f);} block(W_FUTEX,a); bool to=f->timed_out; f->timed_out=false; f->timed=false; f->woken=false; if(timed) loop_reset(f); return !to; }
static void fut_wake(u32*a,int n){ vis((u64)a,true,O_FWAKE); trace_op(O_FWAKE,(u64)a,n,0); for(int i=0;i<g->nf&&n>0;i++) if(g->f[i].st==W_FUTEX&&g->f[i].waddr==a&&!g->f[i].woken){ g->f[i].woken=true; n--; } }
}
#include <bits/atomic_futex.h>
namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned*a,unsigned v,bool ht,chrono::seconds s,chrono::nanoseconds ns){ if(!LIVE_EXEC) return true; struct timespec ts; ts.tv_sec=s.count(); ts.tv_nsec=ns.count(); return fut_wait(a,v,ht,ht?abs_to_virtual(&ts,false):0); }
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned*a,unsigned v,bool ht,chrono::seconds s,chrono::nanoseconds ns){ if(!LIVE_EXEC) return true; struct timespec ts; ts.tv_sec=s.count(); ts.tv_nsec=ns.count(); return fut_wait(a,v,ht,ht?abs_to_virtual(&ts,true):0); }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned*a){ if(!LIVE_EXEC) return; fut_wake(a,1<<30); }
}
extern "C" long syscall(long n,...) noexcept {
  va_list ap; va_start(ap,n); long a=va_arg(ap,long),b=va_arg(ap,long),c=va_arg(ap,long),d=va_arg(ap,long),e=va_arg(ap,long),f=va_arg(ap,long); va_end(ap);
  if(n==SYS_futex && LIVE_EXEC){ int op=b&127; if(op==FUTEX_WAIT||op==FUTEX_WAIT_BITSET){ bool t=d!=0; u64 dl=0; if(t){ const timespec*ts=(const timespec*)d; dl= op==FUTEX_WAIT? g->now+ts->tv_sec*1000000000ull+ts->tv_nsec : abs_to_virtual(ts,!(b&FUTEX_CLOCK_REALTIME)); } if(*(u32*)a!=(u32)c){ errno=EAGAIN; return -1; } if(!fut_wait((u32*)a,(u32)c,t,dl)){ errno=ETIMEDOUT; return -1; } return 0; } if(op==FUTEX_WAKE){ fut_wake((u32*)a,(int)c); return 0; } }
  long r; register long r10 asm("r10")=d; register long r8 asm("r8")=e; register long r9 asm("r9")=f; asm volatile("syscall":"=a"(r):"a"(n),"D"(a),"S"(b),"d"(c),"r"(r10),"r"(r8),"r"(r9):"rcx","r11","memory"); if(r<0&&r>-4096){ errno=(int)-r; return -1; } return r;
}
// ------------------------------------------------------------------------------------------------
// public API
namespace mc {
bool exploring(){ return g&&g->inexec; }
int choose(int n){ if(!LIVE_EXEC) return 0; int k=decide(n,0,chk(20),true); trace_op(O_CHOOSE,n,k,0); g->steps++; return k; }
int choose_dev(int n){ if(!LIVE_EXEC) return 0; int k=decide(n,1,chk(21),true); trace_op(O_CHOOSE,n,k,0); g->steps++; return k; }
void point(){ if(!LIVE_EXEC) return; trace_op(O_POINT,0,0,0); vis((u64)&g->ev,true,O_POINT,true); }
int tid(){ return g&&g->inexec?g->cur->id:-1; }
static void hb_all(){ if(g->race) for(int i=0;i<g->nf;i++) vjoin(g->cur->vc,g->f[i].vc); }
void wait_until(const std::function<bool()>& p){ if(!LIVE_EXEC) return; g->insched=true; bool r=p(); g->insched=false; if(r){ hb_all(); return; } g->cur->pred=&p; block(W_PRED,0); hb_all(); }
void settle(){ if(!LIVE_EXEC||(g->flags&F_SEQ)) return; Fiber*f=g->cur; f->deadline=g->now+50000000; block(W_SETTLE,0); hb_all(); }
uint64_t now_ns(){ return g->now; } uint64_t step(){ return g->steps; }
int alive_threads(){ int n=0; for(int i=1;i<g->nf;i++) n+=g->f[i].st!=DONE; return n; }
int started_threads(){ return g->nf-1; }
void ev(int k,long a,long b){ if(!(g&&g->inexec)) return; if(g->nev<MAXEV){ g->ev[g->nev++]={g->cur->id,k,a,b,g->steps}; } if(g->trace&&g->ntr<200000){ Tr&t=g->tr[g->ntr++]; t.step=(u32)g->steps; t.tid=(u8)g->cur->id; t.op=O_EVENT; t.addr=k; t.val=a; t.pc=b; } }
int nev(){ return g->nev; } const Event& event(int i){ return g->ev[i]; }
int count_ev(int k,long a,long b){ int n=0; for(int i=0;i<g->nev;i++) if(g->ev[i].kind==k&&(a==-1||g->ev[i].a==a)&&(b==-1||g->ev[i].b==b)) n++; return n; }
int find_ev(int k,long a,long b){ for(int i=0;i<g->nev;i++) if(g->ev[i].kind==k&&(a==-1||g->ev[i].a==a)&&(b==-1||g->ev[i].b==b)) return i; return -1; }
void outcome(uint64_t h){ g->outc=mix(g->outc,h); g->has_out=true; }
void outcome_s(const std::string&s){ u64 h=1469598103934665603ull; for(unsigned char c:s) h=(h^c)*1099511628211ull; outcome(h); strncpy(g->outs,s.c_str(),sizeof g->outs-1); }
void fail(const char*fmt,...){ char b[1000]; va_list a; va_start(a,fmt); if(g) g->insched=true; vsnprintf(b,sizeof b,fmt,a); va_end(a); report(b); __builtin_unreachable(); }
long live_blocks(){ return p_live; }
static Scenario* head=0;
Reg::Reg(const char*n,void(*f)(),int q,int t,int fl,int tier){ s={n,f,q,t,fl,nullptr,tier}; Scenario**p=&head; while(*p) p=&(*p)->next; *p=&s; }
}
// ------------------------------------------------------------------------------------------------
// explorer
namespace {
static int relro_cb(struct dl_phdr_info*i,size_t,void*){
  const char*nm=i->dlpi_name; if(!exe_base && (!nm||!*nm)) exe_base=i->dlpi_addr;
  if(nm&&*nm){ if(strstr(nm,"libc.so")||strstr(nm,"ld-linux")||strstr(nm,"libm.so")||strstr(nm,"linux-vdso")) return 0; }
  u64 rb=0,re=0; for(int k=0;k<i->dlpi_phnum;k++) if(i->dlpi_phdr[k].p_type==PT_GNU_RELRO){ rb=i->dlpi_addr+i->dlpi_phdr[k].p_vaddr; re=rb+i->dlpi_phdr[k].p_memsz; re&=~4095ull; }
  for(int k=0;k<i->dlpi_phnum;k++){ auto&ph=i->dlpi_phdr[k]; if(ph.p_type!=PT_LOAD||!(ph.p_flags&PF_W)) continue; u64 b=i->dlpi_addr+ph.p_vaddr,e=b+ph.p_memsz; if(re>b&&rb<=b) b=re<e?re:e; if(b<e){ if(g->nseg>=64) fatal("too many segments"); g->seg[g->nseg++]={(char*)b,(size_t)(e-b),nullptr}; } }
  return 0; }
static int tls_cb(struct dl_phdr_info*i,size_t,void*d){ u64 fs=getfs(); if(i->dlpi_tls_data){ u64 o=fs-(u64)i->dlpi_tls_data; if(o<(1u<<20) && o>*(u64*)d) *(u64*)d=o; } return 0; }
static void* pool_thread(void*a){ long i=(long)a; g->poolfs[i]=getfs(); g->poolpt[i]=pthread_self(); __atomic_fetch_add(&g->poolready,1,__ATOMIC_SEQ_CST); for(;;) syscall(SYS_pause); return 0; }
static void take_snapshot(){
  u64 t=0; dl_iterate_phdr(tls_cb,&t); g->tlsn=(t+63)&~63ull; g->nseg=0; dl_iterate_phdr(relro_cb,0);
  for(int i=0;i<g->npoolth;i++){ g->tlscopy[i]=(char*)xmap(g->tlsn+64); memcpy(g->tlscopy[i],(char*)g->poolfs[i]-g->tlsn,g->tlsn); }
  size_t n=p_top-(char*)ARENA; g->arenacopy=(char*)xmap(n+4096); memcpy(g->arenacopy,(void*)ARENA,n); g->arena_top_persist=p_top;
  for(int i=0;i<g->nseg;i++){ g->seg[i].copy=(char*)xmap(g->seg[i].n+64); }
  for(int i=0;i<g->nseg;i++) memcpy(g->seg[i].copy,g->seg[i].p,g->seg[i].n);
}
static void restore(){ for(int i=0;i<g->nseg;i++) memcpy(g->seg[i].p,g->seg[i].copy,g->seg[i].n); memcpy((void*)ARENA,g->arenacopy,g->arena_top_persist-(char*)ARENA); int n=g->nf>0?g->nf:g->npoolth; for(int i=0;i<n&&i<g->npoolth;i++) memcpy((char*)g->poolfs[i]-g->tlsn,g->tlscopy[i],g->tlsn); }
static mc::Scenario* cursc;
static void* scen_main(void*){ cursc->fn(); return 0; }
static void worker_init(int wi,int flags,const char*scen){
  g=(G*)xmap(sizeof(G)); g->W=&S->w[wi]; g->flags=flags; g->race=flags&mc::F_RACE; g->scen=scen; g->steplimit=400000; g->rt_limit=20;
  g->fsgs=(getauxval(AT_HWCAP2)&2)!=0; g->expl_fs=getfs(); g->cand=(Cand*)xmap(sizeof(Cand)*MAXCAND); g->nsync_mask=(1<<16)-1; g->sync=(Sync*)xmap(sizeof(Sync)*(1<<16)); g->tr=(Tr*)xmap(sizeof(Tr)*200001);
  if(!exe_base){ dl_iterate_phdr(relro_cb,0); g->nseg=0; }
  xmap(ARENA_SZ*8+(u64)MAXF*STACK*8+(64ull<<20),SHADOW);
  char*st=(char*)xmap((u64)MAXF*STACK,STKBASE); for(int i=0;i<MAXF;i++){ g->f[i].stk=st+(u64)i*STACK; mprotect(st+(u64)i*STACK,4096,PROT_NONE); }
  g->npoolth=MAXF; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at,65536); typedef int(*F)(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*); F rc=(F)dlsym(RTLD_NEXT,"pthread_create");
  for(long i=0;i<g->npoolth;i++){ pthread_t t; if(rc(&t,&at,pool_thread,(void*)i)) fatal("mcrt: cannot create pool thread"); } while(__atomic_load_n(&g->poolready,__ATOMIC_SEQ_CST)<g->npoolth) syscall(SYS_sched_yield);
  stack_t ss; ss.ss_sp=xmap(256*1024); ss.ss_size=256*1024; ss.ss_flags=0; sigaltstack(&ss,0); struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=sigh; sa.sa_flags=SA_ONSTACK|SA_SIGINFO; for(int s:{SIGSEGV,SIGBUS,SIGFPE,SIGILL,SIGALRM,SIGABRT}) sigaction(s,&sa,0); sigset_t es; sigemptyset(&es); sigprocmask(SIG_SETMASK,&es,0);
  prctl(PR_SET_PDEATHSIG,SIGKILL);
}
static void snapshot_now(){ g->nf=0; take_snapshot(); }
static bool g_first=true;
static u64 lastalarm=0;
static int run_one(const Node*n,int bound){
  if(++g->exno==0) g->exno=1; restore(); g->nf=0; g->npoint=g->steps=g->now=g->waitseq=0; g->dv=n->d; g->nd=n->nd; g->di=0; g->budget=bound-n->cost; g->ncand=0; g->clockjumps=g->unparks=0; g->maindone=false; g->nev=0; g->outc=0; g->has_out=false; g->outs[0]=0; g->switches=0; g->ntr=0;
  g->now=1000000;
  u64 t=rawns(); (void)lastalarm; struct itimerval it={{0,0},{g->rt_limit,0}}; if((g->exno&63)==1||g->trace||t-g->t_exec_start>100000000ull) setitimer(ITIMER_REAL,&it,0); g->t_exec_start=t;
  Fiber*f=new_fiber(scen_main,0); f->vc.c[0]=1; g->cur=f; g->inexec=true; mc_swap(&g->expl_sp,f->sp,f->fs,g->fsgs); g->inexec=false;
  if(g->di!=g->nd) fatal("mcrt: execution ended before all deviations were applied (nondeterminism), scenario %s",g->scen);
  Worker*W=g->W; W->execs++; W->vis+=g->steps; W->switches+=g->switches; W->states+=g->npoint-(n->nd?n->d[n->nd-1].point+1:0); W->pexecs++; W->pvis+=g->steps; if(g->npoint>W->maxpoints) W->maxpoints=g->npoint; if(g->steps>W->maxsteps) W->maxsteps=g->steps; u64 ar=p_top-g->arena_top_persist; if(ar>W->arena_max) W->arena_max=ar;
  u64 oc=g->has_out?g->outc|1:1; { u64 h=oc&65535; for(int k=0;k<65536;k++,h=(h+1)&65535){ u64 v=__atomic_load_n(&S->outc[h],__ATOMIC_RELAXED); if(v==oc) break; if(!v){ spl(&S->lock); bool mine=false; if(!S->outc[h]){ S->outc[h]=oc; S->nout++; mine=true; if(S->nouts<64){ memcpy(S->outs[S->nouts],g->outs,160); S->outn[S->nouts]=*n; S->nouts++; } } v=S->outc[h]; spu(&S->lock); if(mine||v==oc) break; } } }
  return g->endcode;
}
static bool pool_pop(Node*n){ bool r=false; spl(&S->lock); if(S->npool>0){ memcpy(n,&S->pool[--S->npool],sizeof(Node)); __atomic_fetch_add(&S->active,1,__ATOMIC_SEQ_CST); r=true; } spu(&S->lock); return r; }
static bool pool_push(const Node*n){ bool r=false; spl(&S->lock); if(S->npool<POOLCAP){ S->pool[S->npool].nd=n->nd; S->pool[S->npool].cost=n->cost; memcpy(S->pool[S->npool].d,n->d,sizeof(Dev)*n->nd); S->npool++; r=true; } spu(&S->lock); return r; }
static bool child_of(const Frame&fr,const Cand&c,int opt,Node*out){ if(fr.node.nd>=MAXDEV) fatal("mcrt: too many deviations in one execution"); out->nd=fr.node.nd+1; out->cost=fr.node.cost+c.cost; memcpy(out->d,fr.node.d,sizeof(Dev)*fr.node.nd); out->d[fr.node.nd]={c.point,(u16)opt,c.chk}; return true; }
// next child from the worker's frame stack; false when exhausted. oldest=true takes from the bottom frame (for donation)
static bool next_child(Worker*W,Node*out,bool oldest){
  while(W->nframes>0){
    Frame*fr; if(oldest){ int i=0; while(i<W->nframes && W->fr[i].cur>=W->fr[i].cend) i++; if(i==W->nframes) return false; fr=&W->fr[i]; }
    else { fr=&W->fr[W->nframes-1]; if(fr->cur>=fr->cend){ W->ncand=fr->cbeg; W->nframes--; continue; } }
    Cand&c=W->cand[fr->cur]; int opt=fr->opt; child_of(*fr,c,opt,out); if(++fr->opt>=c.nopts){ fr->cur++; fr->opt=1; } return true; }
  return false; }
static u64 deadline_ns=0;
static void worker_loop(int wi,int bound,bool resume){
  Worker*W=&S->w[wi]; Node*n=(Node*)xmap(sizeof(Node)); Node*dn=(Node*)xmap(sizeof(Node));
  bool have=false; (void)resume;
  for(u64 it=0;;it++){
    if(S->stop) break; if((it&15)==0 && deadline_ns && rawns()>deadline_ns){ S->timed_out=1; S->stop=1; break; }
    have=next_child(W,n,false);
    if(!have){ if(W->busy){ W->busy=0; __atomic_fetch_sub(&S->active,1,__ATOMIC_SEQ_CST); }
      for(;;){ if(S->stop) return; if(pool_pop(n)){ W->busy=1; have=true; break; } if(S->active==0 && S->npool==0) return; struct timespec ts={0,200000}; syscall(SYS_nanosleep,&ts,0); if(deadline_ns&&rawns()>deadline_ns){ S->timed_out=1; S->stop=1; return; } } }
    W->cur=*n; W->has_cur=1;
    run_one(n,bound); W->has_cur=0;
    if(g->ncand){ if(W->nframes>=MAXFRAMES) fatal("mcrt: frame stack overflow"); if(W->ncand+g->ncand>MAXCAND) fatal("mcrt: candidate stack overflow"); Frame&fr=W->fr[W->nframes]; fr.node=*n; fr.cbeg=W->ncand; memcpy(&W->cand[W->ncand],g->cand,sizeof(Cand)*g->ncand); W->ncand+=g->ncand; fr.cend=W->ncand; fr.cur=fr.cbeg; fr.opt=1; W->nframes++; }
    if(S->npool<24) for(int k=0;k<16 && W->nframes>0;k++){ // donate oldest work
      if(!next_child(W,dn,true)) break; if(!pool_push(dn)) { /* pool full: run it ourselves later */ W->cur=*dn; run_one(dn,bound); if(g->ncand) fatal("mcrt: internal donate"); } }
  }
}
static void jstr(FILE*f,const char*s){ fputc('"',f); for(;*s;s++){ if(*s=='"'||*s=='\\') fputc('\\',f); if((unsigned char)*s<32) fputc(' ',f); else fputc(*s,f); } fputc('"',f); }
static void jdevs(FILE*f,const Node&n){ fputc('[',f); for(int i=0;i<n.nd;i++) fprintf(f,"%s[%u,%u,%u]",i?",":"",n.d[i].point,n.d[i].opt,n.d[i].chk); fputc(']',f); }
static char known[64][200]; static int nknown=0;
static bool is_known(const char*sig){ for(int i=0;i<nknown;i++){ if(strstr(sig,known[i])) return true; } return false; }
static int replay_child(const Node&n,int flags,const char*scen,bool trace,bool verbose,int limit){ pid_t p=fork(); if(p==0){ worker_init(0,flags,scen); g->trace=trace; g->verbose=verbose; g->rt_limit=limit; snapshot_now(); Node*m=(Node*)xmap(sizeof(Node)); *m=n; run_one(m,m->cost); if(trace){ print_trace(); dprintf(1,"execution completed without failure: %lu visible operations, outcome %s\n",(unsigned long)g->steps,g->outs);} die(0);} int st; waitpid(p,&st,0); return WIFEXITED(st)?WEXITSTATUS(st):255; }
}
int main(int argc,char**argv){
  const char*want=0,*out=0,*knownf=0,*replay=0; int bound=-1, jobs=8; double tlimit=0; bool list=false, verbose=false; bool thorough=false; const char* flagadd=0;
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return i+1<argc?argv[++i]:(char*)""; }; if(a=="--scenario") want=nx(); else if(a=="--bound") bound=atoi(nx()); else if(a=="--jobs") jobs=atoi(nx()); else if(a=="--time") tlimit=atof(nx()); else if(a=="--out") out=nx(); else if(a=="--list") list=true; else if(a=="--known") knownf=nx(); else if(a=="--replay") replay=nx(); else if(a=="--verbose") verbose=true; else if(a=="--thorough") thorough=true; else if(a=="--race") flagadd="race"; }
  if(!getenv("LD_BIND_NOW")){ setenv("LD_BIND_NOW","1",1); execv("/proc/self/exe",argv); }
  { int pers=(int)syscall(SYS_personality,0xffffffffu); if(!(pers&0x0040000)){ if(syscall(SYS_personality,pers|0x0040000)>=0 && !getenv("MC_NOASLR")){ setenv("MC_NOASLR","1",1); execv("/proc/self/exe",argv);} } }
  if(list){ for(auto*s=mc::head;s;s=s->next) dprintf(1,"%s %d %d %d\n",s->name,s->quick_bound,s->thorough_bound,s->flags); die(0); }
  if(jobs>NWORK_MAX) jobs=NWORK_MAX;
  for(auto*s=mc::head;s;s=s->next) if(want&&!strcmp(want,s->name)) cursc=s;
  if(!cursc){ dprintf(2,"no such scenario\n"); die(2); }
  int flags=cursc->flags; if(flagadd) flags|=mc::F_RACE;
  S=(Shared*)xmap(sizeof(Shared),0,MAP_SHARED);
  if(bound<0) bound=thorough?cursc->thorough_bound:cursc->quick_bound;
  if(replay){ Node n; memset(&n,0,sizeof n); FILE*f=fopen(replay,"r"); if(!f){ dprintf(2,"cannot open %s\n",replay); die(2);} char buf[65536]; size_t k=fread(buf,1,65535,f); buf[k]=0; char*p=strstr(buf,"\"deviations\""); if(p) p=strchr(p,'['); if(p){ p++; while(*p){ while(*p&&*p!='['&&*p!=']') p++; if(*p!='[') break; unsigned a,b,c; if(sscanf(p,"[%u,%u,%u]",&a,&b,&c)==3&&n.nd<MAXDEV) n.d[n.nd++]={a,(u16)b,(u16)c}; p=strchr(p,']'); if(!p) break; p++; } } n.cost=n.nd; int rc=replay_child(n,flags,cursc->name,true,verbose,60); dprintf(1,"replay exit %d\n",rc); die(rc==10?1:rc); }
  if(knownf){ FILE*f=fopen(knownf,"r"); char l[300]; if(f){ while(fgets(l,300,f)&&nknown<64){ size_t n=strlen(l); while(n&&(l[n-1]=='\n')) l[--n]=0; if(n) strncpy(known[nknown++],l,199); } fclose(f);} }
  u64 t0=rawns(); if(tlimit>0) deadline_ns=t0+(u64)(tlimit*1e9);
  int completed=-1; u64 passex[16]={0}; bool unknown=false; int repeats=0; u64 lateshared=0;
  int maxknownhits=0;
  for(int b=0;b<=bound&&!S->stop;){
    u64 sh0=S->nshared; for(int w=0;w<jobs;w++){ Worker&W=S->w[w]; W.nframes=0; W.ncand=0; W.has_cur=0; W.busy=0; W.states=W.pexecs=W.pvis=0; } S->npool=0; S->active=0; S->stop=0; u64 e0=0; for(int w=0;w<jobs;w++) e0+=S->w[w].execs;
    memset(&S->pool[0],0,sizeof(Node)); S->npool=1;
    int nw=b==0?1:jobs; if(b==0){ /* free choices may still branch a lot */ nw=jobs; }
    auto spawn=[&](int w,bool resume){ pid_t p=fork(); if(p==0){ worker_init(w,flags,cursc->name); snapshot_now(); worker_loop(w,b,resume); die(0);} S->w[w].pid=p; };
    for(int w=0;w<nw;w++) spawn(w,false);
    int live=nw; while(live>0){ int st; pid_t p=wait(&st); if(p<0) break; int w=-1; for(int i=0;i<nw;i++) if(S->w[i].pid==p) w=i; if(w<0) continue;
      int code=WIFEXITED(st)?WEXITSTATUS(st):-1; if(code==0){ live--; continue; }
      if(code==10){ // a violation; continue unless it is unknown
        for(int i=0;i<S->nviol;i++){ if(!S->viol[i].known) S->viol[i].known=is_known(S->viol[i].sig)?2:1; if(S->viol[i].known==1) unknown=true; }
        if(unknown||S->nviol_total>20000){ S->stop=1; live--; continue; } (void)maxknownhits;
        S->w[w].execs++; S->w[w].has_cur=0; spawn(w,true); continue; }
      if(!S->fatal){ S->fatal=1; snprintf(S->fatalmsg,500,"worker died with status 0x%x",st); } S->stop=1; live--; }
    u64 e1=0; for(int w=0;w<jobs;w++) e1+=S->w[w].execs; passex[b<15?b:15]=e1-e0;
    if(S->stop) break; 
    completed=b; lateshared=S->nshared-sh0;
    if(lateshared && repeats<6 && b<bound){ repeats++; continue; }
    if(lateshared && b==bound && repeats<8 && (deadline_ns==0 || (rawns()-t0)*2<(deadline_ns-t0))){ repeats+=2; continue; }
    b++; repeats=0; }
  double wall=(rawns()-t0)/1e9; u64 ex=0,vi=0,pex=0,pvi=0,sw=0,mp=0,am=0,states=0,parks=0,ms=0; int mt=0; for(int w=0;w<jobs;w++){ Worker&W=S->w[w]; ex+=W.execs; vi+=W.vis; pex+=W.pexecs; pvi+=W.pvis; sw+=W.switches; states+=W.states; parks+=W.parks; if(W.maxpoints>mp) mp=W.maxpoints; if(W.arena_max>am) am=W.arena_max; if(W.maxthreads>mt) mt=W.maxthreads; if(W.maxsteps>ms) ms=W.maxsteps; }
  int rc=0; if(S->fatal) rc=4;
  // confirm violations by replaying twice
  if(!S->fatal) for(int i=0;i<S->nviol;i++){ Viol&v=S->viol[i]; if(v.known==2) continue; char sig[200]; strcpy(sig,v.sig); u64 c0=v.count; int r1=replay_child(v.node,flags,cursc->name,false,false,60); int r2=replay_child(v.node,flags,cursc->name,false,false,60); bool ok=r1==10&&r2==10&&v.count>=c0+2; if(!ok){ snprintf(S->fatalmsg,500,"violation did not replay (%d,%d): %s",r1,r2,v.msg); rc=4; S->fatal=1; } else rc=1; }
  FILE*f=out?fopen(out,"w"):stdout; if(!f) die(2);
  fprintf(f,"{\"scenario\":"); jstr(f,cursc->name); fprintf(f,",\"bound\":%d,\"bound_completed\":%d,\"timed_out\":%s,\"executions\":%lu,\"visible_ops\":%lu,\"context_switches\":%lu,\"tree_nodes\":%lu,\"max_points\":%lu,\"max_steps\":%lu,\"max_threads\":%d,\"distinct_outcomes\":%lu,\"shared_locations\":%lu,\"late_shared\":%lu,\"parks\":%lu,\"heap_max\":%lu,\"races_suppressed\":%lu,\"wall_s\":%.2f,\"race_detector\":%s,\"jobs\":%d,\"pass_executions\":%lu,\"pass_visible_ops\":%lu,",bound,completed,S->timed_out?"true":"false",ex,vi,sw,states,mp,ms,mt,S->nout,S->nshared,lateshared,parks,am,S->races_suppressed,wall,(flags&mc::F_RACE)?"true":"false",jobs,pex,pvi);
  fprintf(f,"\"executions_last_pass\":["); for(int i=0;i<=bound&&i<16;i++) fprintf(f,"%s%lu",i?",":"",passex[i]); fprintf(f,"],\"outcome_samples\":["); for(int i=0;i<S->nouts&&i<8;i++){ if(i) fputc(',',f); fprintf(f,"{\"outcome\":"); jstr(f,S->outs[i]); fprintf(f,",\"deviations\":"); jdevs(f,S->outn[i]); fprintf(f,"}"); } fprintf(f,"],\"fatal\":"); jstr(f,S->fatal?S->fatalmsg:""); fprintf(f,",\"violations\":[");
  for(int i=0;i<S->nviol;i++){ Viol&v=S->viol[i]; fprintf(f,"%s{\"known\":%s,\"count\":%lu,\"message\":",i?",":"",v.known==2?"true":"false",v.count); jstr(f,v.msg); fprintf(f,",\"signature\":"); jstr(f,v.sig); fprintf(f,",\"deviations\":"); jdevs(f,v.node); fputc('}',f); }
  fprintf(f,"]}\n"); fflush(f); die(rc);
}
