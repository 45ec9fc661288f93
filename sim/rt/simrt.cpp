// simrt: a deterministic simulator that sits behind the ThreadSanitizer ABI.
//
// The code under test (all futures crates, the harness and a std built with
// -Zbuild-std) is compiled with -Zsanitizer=thread but linked against this file
// instead of the real sanitizer runtime.  Every atomic operation, fence, plain
// heap access, heap allocation, futex call, thread creation/join, yield, sleep,
// clock read and random-number request therefore arrives here, where
//   * exactly one simulated thread runs at a time, and a seeded scheduler picks
//     which one at every atomic operation / system call;
//   * C11 atomics are executed over per-location store histories, so that a
//     load may legally observe an older store (weak memory);
//   * plain heap accesses go through a vector-clock race detector and a
//     use-after-free / out-of-bounds detector;
//   * faults (spurious futex wake-ups, stale loads, failing pthread_create,
//     reordered futex wake-ups and whatever the harness injects) are drawn from
//     the same seeded choice stream.
// Every decision is appended to a choice tape; feeding a tape back reproduces
// the execution exactly.
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <cstdarg>
#include <cerrno>
#include <vector>
#include <unordered_map>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <dlfcn.h>
#include <linux/futex.h>
#include <sys/mman.h>
#include <sys/syscall.h>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int64_t i64; typedef uintptr_t uptr; typedef unsigned __int128 u128;
#define NOINLINE __attribute__((noinline))
#define LIKELY(x) __builtin_expect(!!(x),1)
#define UNLIKELY(x) __builtin_expect(!!(x),0)
#define PC() ((uptr)__builtin_return_address(0))

// ---------------------------------------------------------------- shared memory
enum { TAPE_MAX = 1<<18, LOG_MAX = 1<<14, NCOUNT = 64 };
enum ChoiceKind { CK_SCHED=0, CK_STALE=1, CK_SPURIOUS=2, CK_FUTEXORDER=3, CK_THREADFAIL=4, CK_DATA=8 /* and above: harness */ };
struct LogEnt { u32 step; u16 tid; u16 op; u64 a, b; };
struct Shm {
  // inputs
  u64 seed; u32 replay; u32 replay_len; u32 trace; u32 pad0;
  u32 used, episode_start; // choices consumed in replay mode; tape position of the current episode
  // outputs
  u32 status;            // 0 running, 1 ok, 2 violation
  u32 tape_len, tape_overflow;
  u32 log_len;
  u64 hash; u64 steps; u64 switches; u64 preempts; u64 now_ns; u64 threads; u64 runs_done; u64 live_leak; u64 live_bytes;
  u64 counters[NCOUNT];  // fault / probe counters (this run)
  char cls[160]; char msg[3072];
  u32 tape[TAPE_MAX];    // kind:6 | n:13 | v:13
  LogEnt log[LOG_MAX];
};
static Shm *g_shm;

// ---------------------------------------------------------------- raw syscalls
static inline long rsys(long n,long a=0,long b=0,long c=0,long d=0,long e=0,long f=0){
  register long r10 asm("r10")=d; register long r8 asm("r8")=e; register long r9 asm("r9")=f; long ret;
  asm volatile("syscall":"=a"(ret):"a"(n),"D"(a),"S"(b),"d"(c),"r"(r10),"r"(r8),"r"(r9):"rcx","r11","memory");
  return ret;
}
[[noreturn]] static void die(int code){ rsys(SYS_exit_group,code); __builtin_unreachable(); }

// ---------------------------------------------------------------- types
enum { MAXT=24 };
typedef u32 ep_t;
struct VC { ep_t c[MAXT]; 
  void join(const VC&o){ for(int i=0;i<MAXT;i++) if(o.c[i]>c[i]) c[i]=o.c[i]; }
  bool leq(const VC&o) const { for(int i=0;i<MAXT;i++) if(c[i]>o.c[i]) return false; return true; } };
enum State:u8 { ST_RUN, ST_FUTEX, ST_JOIN, ST_SLEEP, ST_DONE };
struct Dtor { void(*fn)(void*); void*obj; };
struct Thread {
  int tid; State st; int go; int ignore; 
  pthread_t real; void*(*start)(void*); void*arg; void*ret;
  uptr faddr; u32 fbits; bool woken; bool timed; u64 wake_at; int join_on;
  VC vc, relf, acqf;
  u64 prio; u64 consec; u64 seq;
  std::vector<Dtor> dtors;
};
static __thread Thread* self;

struct StoreEl { u64 val; ep_t ts; u8 tid; bool sc; bool sc_loaded; VC sync; ep_t loads[MAXT]; };
enum { HIST=8 };
struct Loc { uptr addr; u32 size; Loc*next; int n; StoreEl*h[HIST]; VC aw, ar; };

struct Cell { u32 w, r; };
static const u32 EPM=(1u<<27)-1;
static const u32 C_FREED=0xFFFFFFFFu, C_UNALLOC=0; // a never-allocated byte has a zero write epoch
static inline bool badcell(u32 w){ return w-1u>=0xFFFFFFFEu; }
static const uptr ARENA=0x600000000000ull; static const uptr ARENA_SZ=64ull<<20;
static Cell* const SHADOW=(Cell*)0x610000000000ull;
static Loc** const LOCS=(Loc**)0x620000000000ull; // one per 8-byte granule

struct Config { // set by harness before run
  u32 track, stale_budget, allow_threadfail; u32 p_spurious; u32 soft_limit, hard_limit; u32 strategy; u32 p_switch; u32 pct_d; u32 pct_k;
};
static struct Globals {
  bool active; Thread*th[MAXT]; int nt; int cur; int host_go; int ndone;
  u64 step; u64 now; u64 rng[2]; u32 rpos; Config cfg; bool fair; u64 lastfair;
  uptr bump; u64 live; u64 lbytes; VC scvc; std::vector<VC> rvc; std::unordered_map<uptr,Loc*>*stat;
  u64 pct_points[16]; u64 lowprio; u64 seqno; bool no_faults; int in_fail; u32 stale_left;
} G;

static u64 rnd(){ // xorshift128+
  u64 a=G.rng[0],b=G.rng[1]; G.rng[0]=b; a^=a<<23; a^=a>>17; a^=b^(b>>26); G.rng[1]=a; return a+b; }
static u64 splitmix(u64&x){ u64 z=(x+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31);}    
static inline void mix(u64 v){ u64 h=g_shm->hash; h^=v+0x9E3779B97F4A7C15ull+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdull; h^=h>>29; g_shm->hash=h; }

// ---------------------------------------------------------------- log, failure
extern "C" char __executable_start;
static void logev(int op,u64 a,u64 b){
  if(!g_shm->trace) return; u32 i=g_shm->log_len; if(i>=LOG_MAX) return;
  if(op>=10&&op<30&&a-0x600000000000ull>=(64ull<<20)) a=a-(u64)&__executable_start; g_shm->log[i]={ (u32)G.step,(u16)(self?self->tid:999),(u16)op,a,b }; g_shm->log_len=i+1; }
static void finish_stats(){ g_shm->steps+=G.step; g_shm->now_ns+=G.now; g_shm->threads+=G.nt; }
extern "C" [[noreturn]] void simrt_fail(const char*cls,const char*msg){
  if(self) self->ignore++;
  if(g_shm && g_shm->status!=2){
    g_shm->status=2; snprintf(g_shm->cls,sizeof g_shm->cls,"%s",cls); snprintf(g_shm->msg,sizeof g_shm->msg,"%s",msg); finish_stats(); }
  die(10);
}
extern "C" char __executable_start;
static inline uptr relpc(uptr pc){ return pc-(uptr)&__executable_start; }
static void failf(const char*cls,const char*fmt,...){ char b[3000]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap); simrt_fail(cls,b);}    

// ---------------------------------------------------------------- choices
static u32 rec(u32 kind,u32 n,u32 v){
  u32 i=g_shm->tape_len; if(i<TAPE_MAX){ g_shm->tape[i]=(kind&63)<<26|(n&8191)<<13|(v&8191); g_shm->tape_len=i+1; } else g_shm->tape_overflow=1; return v; }
// value proposed by search; in replay mode the tape decides.
static u32 choice(u32 kind,u32 n,u32 proposed){
  if(n<=1) return 0; if(n>8191) n=8191;
  u32 v;
  if(g_shm->replay){ u32 p=G.rpos++; v = p<g_shm->replay_len ? (g_shm->tape[p]&8191) : 0; if(v>=n) v=n-1; if(p<g_shm->replay_len) g_shm->tape[p]=(kind&63)<<26|(n&8191)<<13|v; else rec(kind,n,v); g_shm->used=p+1; }
  else { v=proposed<n?proposed:n-1; rec(kind,n,v); }
  mix((u64)kind<<40|(u64)n<<20|v); return v; }
extern "C" u32 simrt_choose(u32 n,u32 kind,u32 p0){ // p0/65536: probability of 0; p0==0 -> uniform
  if(n<=1) return 0; u32 prop=0;
  if(!g_shm->replay){ u64 r=rnd(); if(p0){ if((r&65535)>=p0) prop=1+(u32)((r>>16)%(n-1)); } else prop=(u32)((r>>16)%n); }
  return choice(kind,n,prop); }
extern "C" void simrt_count(u32 id,u64 d){ g_shm->counters[id&(NCOUNT-1)]+=d; }
extern "C" u64 simrt_seq(){ return ++G.seqno; }
extern "C" u64 simrt_step(){ return G.step; }
extern "C" u32 simrt_tid(){ return self?self->tid:999; }
extern "C" u32 simrt_fair(){ return G.fair; }
extern "C" void simrt_event(u32 code,u64 a,u64 b){ mix((u64)code<<48^a*31^b); logev(1000+code,a,b); }
extern "C" void simrt_ignore(int d){ if(self) self->ignore+=d; }
extern "C" void simrt_episode(){ g_shm->episode_start = g_shm->replay? G.rpos : g_shm->tape_len; }
extern "C" u64 simrt_live(){ return G.lbytes; }
enum { CNT_STALE=0, CNT_SPURIOUS=1, CNT_FUTEXORDER=2, CNT_THREADFAIL=3, CNT_PREEMPT=4, CNT_BLOCK=5 };

// ---------------------------------------------------------------- scheduler
static void futex_wait_raw(int*a,int v){ rsys(SYS_futex,(long)a,FUTEX_WAIT|FUTEX_PRIVATE_FLAG,v,0); }
static void futex_wake_raw(int*a){ rsys(SYS_futex,(long)a,FUTEX_WAKE|FUTEX_PRIVATE_FLAG,1); }
static void wait_go(int*go){ while(!__atomic_load_n(go,__ATOMIC_ACQUIRE)) futex_wait_raw(go,0); __atomic_store_n(go,0,__ATOMIC_RELAXED); }
static void give(int*go){ __atomic_store_n(go,1,__ATOMIC_RELEASE); futex_wake_raw(go); }
static void describe_block(char*b,size_t n){ size_t o=0; static const char*nm[]={"runnable","futex-wait","join-wait","sleep","done"};
  for(int i=0;i<G.nt && o+64<n;i++) o+=snprintf(b+o,n-o,"t%d:%s ",i,nm[G.th[i]->st]); }

static int pick(Thread*me,bool can_continue){
  for(;;){
    int r[MAXT],n=0; // cyclic order after me; me first if it can continue
    int base=me?me->tid:0; 
    if(can_continue) r[n++]=base;
    for(int k=1;k<=G.nt;k++){ int i=(base+k)%G.nt; if(i==base&&can_continue) continue; if(G.th[i]->st==ST_RUN && !(i==base&&me&&!can_continue&&me->st!=ST_RUN)) r[n++]=i; }
    if(n==0){
      u64 best=~0ull; for(int i=0;i<G.nt;i++) if((G.th[i]->st==ST_SLEEP||(G.th[i]->st==ST_FUTEX&&G.th[i]->timed)) && G.th[i]->wake_at<best) best=G.th[i]->wake_at;
      if(best!=~0ull){ if(best>G.now) G.now=best; for(int i=0;i<G.nt;i++){ Thread*t=G.th[i]; if((t->st==ST_SLEEP||(t->st==ST_FUTEX&&t->timed))&&t->wake_at<=G.now){ t->st=ST_RUN; } } continue; }
      if(G.ndone==G.nt) return -1;
      char b[1500]; describe_block(b,sizeof b); failf("deadlock","no simulated thread can run: %s(lost wake-up or deadlock)",b);
    }
    if(n==1) return r[0];
    u32 prop=0;
    if(G.fair){ // deterministic round robin once faults have stopped
      if(can_continue && ++G.lastfair<4) return r[0]; G.lastfair=0; return r[can_continue?1:0]; }
    if(!g_shm->replay){
      switch(G.cfg.strategy){
      case 0: if(can_continue){ u64 x=rnd(); if((x&65535)<G.cfg.p_switch) prop=1+(u32)((x>>20)%(n-1)); } else prop=(u32)(rnd()%n); break;
      case 1: { // PCT
        if(me&&can_continue){ for(u32 i=0;i<G.cfg.pct_d;i++) if(G.pct_points[i]==G.step) me->prio=G.lowprio--; if(me->consec>300){ me->prio=G.lowprio--; me->consec=0; } }
        u64 bp=0; for(int i=0;i<n;i++){ u64 p=G.th[r[i]]->prio; if(p>bp){bp=p;prop=i;} } break; }
      default: { // sticky random: long quanta with random length
        if(can_continue){ if(me->consec>=me->seq){ u64 x=rnd(); prop=1+(u32)((x>>20)%(n-1)); me->seq=1+(rnd()%(1ull<<(rnd()%8))); } }
        else prop=(u32)(rnd()%n); break; }
      }
    }
    return r[choice(CK_SCHED,n,prop)];
  }
}
static void switch_to(Thread*me,int nx){
  if(nx==-1){ give(&G.host_go); return; }
  Thread*t=G.th[nx]; if(me) me->consec=0; t->consec=0; G.cur=nx; g_shm->switches++; mix(0x5u|(u64)nx<<8);
  logev(2,nx,me?me->tid:999);
  give(&t->go); if(me && me->st!=ST_DONE) wait_go(&me->go);
}
static void check_limits(); static void wake_sleepers();
static NOINLINE void sched_point(int op,u64 a){
  Thread*me=self; G.step++; G.now+=50; me->consec++;
  mix((u64)op<<8|me->tid);
  check_limits(); if(G.nt>1) wake_sleepers();
  int nx=pick(me,true);
  if(nx!=me->tid){ g_shm->preempts++; g_shm->counters[CNT_PREEMPT]++; switch_to(me,nx); }
}
static void block(State st){ Thread*me=self; me->st=st; g_shm->counters[CNT_BLOCK]++; G.step++; int nx=pick(me,false); if(nx!=me->tid) switch_to(me,nx); else me->consec=0; }
static inline bool on(){ return self && !self->ignore && G.active; }
static void check_limits(){
  if(UNLIKELY(G.step>G.cfg.soft_limit)&&!G.fair){ G.fair=true; G.no_faults=true; }
  if(UNLIKELY(G.step>G.cfg.hard_limit)){ char b[800]; describe_block(b,sizeof b); failf("livelock","no completion within %u steps after faults stopped: %s",G.cfg.hard_limit-G.cfg.soft_limit,b); } }
static void wake_sleepers(){ for(int i=0;i<G.nt;i++){ Thread*t=G.th[i]; if(t->st==ST_SLEEP&&t->wake_at<=G.now) t->st=ST_RUN; } }
static void do_yield(){ Thread*me=self; G.step++; G.now+=50; mix(23u<<8|me->tid); check_limits(); wake_sleepers(); int nx=pick(me,false); if(nx!=me->tid) switch_to(me,nx); else me->consec=0; }
extern "C" void simrt_yield(){ if(on()) sched_point(60,0); }

// ---------------------------------------------------------------- shadow memory
static inline bool inarena(uptr a){ return a-ARENA<ARENA_SZ; }
static inline u32 packed(Thread*t){ return (u32)t->tid<<27|(t->vc.c[t->tid]&EPM); }
static void tick(Thread*t){ t->vc.c[t->tid]++; }
static NOINLINE void race(const char*what,uptr a,u32 prev,uptr pc){
  if(prev==C_FREED) failf("use-after-free","%s of freed heap memory at arena+0x%lx by t%d, pc=0x%lx",what,a-ARENA,self->tid,relpc(pc));
  if(prev==C_UNALLOC) failf("heap-out-of-bounds","%s outside any heap block at arena+0x%lx by t%d, pc=0x%lx",what,a-ARENA,self->tid,relpc(pc));
  failf("data-race","%s at arena+0x%lx by t%d is not ordered after a conflicting access by t%u, pc=0x%lx",what,a-ARENA,self->tid,prev>>27,relpc(pc)); }
static NOINLINE void plain_vs_atomic(uptr a,size_t n,bool w,uptr pc){
  Thread*t=self; uptr g0=(a-ARENA)>>3,g1=(a+n-1-ARENA)>>3;
  for(uptr g=g0;g<=g1;g++) for(Loc*l=LOCS[g];l;l=l->next){
    if(l->addr>=a+n||l->addr+l->size<=a) continue;
    for(int i=0;i<MAXT;i++){ if(l->aw.c[i]>t->vc.c[i]) race(w?"plain write (vs atomic write)":"plain read (vs atomic write)",a,(u32)i<<27,pc);
      if(w && l->ar.c[i]>t->vc.c[i]) race("plain write (vs atomic read)",a,(u32)i<<27,pc); }
    if(w) l->n=0; }
}
static inline void check_read(Thread*t,Cell&c,uptr a,uptr pc,u32 my){
  if(UNLIKELY(badcell(c.w))) race("read",a,c.w,pc);
  if(UNLIKELY((c.w&EPM)>t->vc.c[c.w>>27])) race("read (vs write)",a,c.w,pc);
  if(c.r==my) return;
  if(c.r==0){ c.r=my; return; }
  u32 rt=c.r>>27; 
  if(rt==31){ G.rvc[c.r&EPM].c[t->tid]=my&EPM; return; }
  if(rt==(u32)t->tid||(c.r&EPM)<=t->vc.c[rt]){ c.r=my; return; }
  VC v; memset(&v,0,sizeof v); v.c[rt]=c.r&EPM; v.c[t->tid]=my&EPM; G.rvc.push_back(v); c.r=31u<<27|(u32)(G.rvc.size()-1);
}
static inline void check_write(Thread*t,Cell&c,uptr a,uptr pc,u32 my){
  if(UNLIKELY(badcell(c.w))) race("write",a,c.w,pc);
  if(UNLIKELY((c.w&EPM)>t->vc.c[c.w>>27])) race("write (vs write)",a,c.w,pc);
  if(c.r){ u32 rt=c.r>>27; if(rt==31){ VC&v=G.rvc[c.r&EPM]; for(int i=0;i<MAXT;i++) if(v.c[i]>t->vc.c[i]) race("write (vs read)",a,(u32)i<<27,pc); }
    else if((c.r&EPM)>t->vc.c[rt]) race("write (vs read)",a,c.r,pc); }
  c.w=my; c.r=0; }
static NOINLINE void plain_slow(uptr a,size_t n,bool w,uptr pc){
  Thread*t=self; if(!G.active||t->ignore) return; u32 my=packed(t); Cell*c=SHADOW+(a-ARENA);
  if(n>ARENA_SZ) return;
  bool anyloc=false; for(uptr g=(a-ARENA)>>3;g<=(a+n-1-ARENA)>>3;g++) if(LOCS[g]){anyloc=true;break;}
  if(!G.cfg.track){ for(size_t i=0;i<n;i++) if(UNLIKELY(badcell(c[i].w))) race(w?"write":"read",a+i,c[i].w,pc); if(anyloc&&w) plain_vs_atomic(a,n,w,pc); return; }
  if(w){ for(size_t i=0;i<n;i++) if(c[i].w!=my||c[i].r) check_write(t,c[i],a+i,pc,my); }
  else for(size_t i=0;i<n;i++) if(c[i].r!=my||badcell(c[i].w)) check_read(t,c[i],a+i,pc,my);
  if(UNLIKELY(anyloc)) plain_vs_atomic(a,n,w,pc);
}
static inline void plain(uptr a,size_t n,bool w,uptr pc){ if(LIKELY(!inarena(a))||!self||!n) return; plain_slow(a,n,w,pc); }

// ---------------------------------------------------------------- allocator
// happens-before stamps for oracles
extern "C" u64 simrt_stamp(){ if(!self) return 0; u64 r=(u64)self->tid<<32|self->vc.c[self->tid]; tick(self); return r; }
extern "C" u32 simrt_hb(u64 st){ if(!self) return 1; return (u32)st<=self->vc.c[st>>32]; }
extern "C" u32 simrt_sc_mode(){ return G.cfg.stale_budget==0; }
// SIM_LEAKDBG: where the blocks that are never freed came from
#include <execinfo.h>
static bool g_leakdbg=getenv("SIM_LEAKDBG")!=nullptr;
struct LeakRec{ size_t n; int k; void*pc[28]; };
static std::unordered_map<uptr,LeakRec>&leak_tab(){ static auto*m=new std::unordered_map<uptr,LeakRec>(); return *m; }
static NOINLINE void leak_rec(uptr p,size_t n){ Thread*t=self; if(t) t->ignore++; LeakRec r; r.n=n; r.k=backtrace(r.pc,28); leak_tab()[p]=r; if(t) t->ignore--; }
extern "C" char __executable_start; static void leak_dump(){ uptr b=(uptr)&__executable_start; for(auto&e:leak_tab()){ fprintf(stderr,"LEAK %zu",e.second.n); for(int i=2;i<e.second.k;i++) fprintf(stderr," 0x%lx",(unsigned long)((uptr)e.second.pc[i]-b-1)); fprintf(stderr,"\n"); } }
extern "C" void* simrt_alloc(size_t n,size_t al,int zero){
  if(!on()){ void*p=nullptr; if(al<=16){ p=zero?calloc(1,n?n:1):malloc(n?n:1);} else { if(posix_memalign(&p,al,n)) return nullptr; if(zero) memset(p,0,n);} return p; }
  if(al<16) al=16; uptr p=(G.bump+al-1)&~(uptr)(al-1); uptr e=p+n; G.bump=e+16;
  if(G.bump>ARENA+ARENA_SZ) simrt_fail("harness-arena-exhausted","simulated heap exhausted");
  u32 my=packed(self); Cell*c=SHADOW+(p-ARENA); for(size_t i=0;i<n;i++){ c[i].w=my; c[i].r=0; }
  if(!zero) memset((void*)p,0xCB,n);
  G.live++; G.lbytes+=n; if(UNLIKELY(g_leakdbg)) leak_rec(p,n); return (void*)p; }
extern "C" void simrt_free(void*p,size_t n,size_t al){ (void)al;
  if(!inarena((uptr)p)){ free(p); return; }
  Thread*t=self; if(t&&!t->ignore&&G.active) plain_slow((uptr)p,n,true,PC());
  Cell*c=SHADOW+((uptr)p-ARENA); for(size_t i=0;i<n;i++){ if(badcell(c[i].w)) simrt_fail("double-free","heap block freed twice or never allocated"); c[i].w=C_FREED; c[i].r=0; }
  memset(p,0xDD,n); G.live--; G.lbytes-=n; if(UNLIKELY(g_leakdbg)) leak_tab().erase((uptr)p); }
extern "C" void* simrt_realloc(void*p,size_t n,size_t al,size_t nn){
  if(!on()&&!inarena((uptr)p)&&al<=16) return realloc(p,nn);
  void*q=simrt_alloc(nn,al,0); if(!q) return q; size_t m=n<nn?n:nn; if(on()){ plain((uptr)p,m,false,PC()); } memcpy(q,p,m); simrt_free(p,n,al); return q; }

// ---------------------------------------------------------------- atomics
static Loc* newloc(uptr a,u32 sz){ Loc*l=(Loc*)calloc(1,sizeof(Loc)); l->addr=a; l->size=sz; return l; }
static Loc* getloc(uptr a,u32 sz){
  if(inarena(a)){ Loc**pp=&LOCS[(a-ARENA)>>3]; for(Loc*l=*pp;l;l=l->next) if(l->addr==a){ if(l->size!=sz) { l->n=0; l->size=sz; } return l; } Loc*l=newloc(a,sz); l->next=*pp; *pp=l; return l; }
  auto&m=*G.stat; auto it=m.find(a); if(it!=m.end()){ if(it->second->size!=sz){ it->second->n=0; it->second->size=sz; } return it->second; } Loc*l=newloc(a,sz); m[a]=l; return l; }
static void atomic_vs_plain(uptr a,u32 sz,bool w,uptr pc){
  if(!inarena(a)) return; Thread*t=self; Cell*c=SHADOW+(a-ARENA);
  for(u32 i=0;i<sz;i++){ u32 pw=c[i].w; if(badcell(pw)) race(w?"atomic write":"atomic read",a,pw,pc); if(!G.cfg.track) continue;
    if((pw&EPM)>t->vc.c[pw>>27]) race(w?"atomic write (vs plain write)":"atomic read (vs plain write)",a,pw,pc);
    if(w&&c[i].r){ u32 rt=c[i].r>>27; if(rt==31){ VC&v=G.rvc[c[i].r&EPM]; for(int k=0;k<MAXT;k++) if(v.c[k]>t->vc.c[k]) race("atomic write (vs plain read)",a,(u32)k<<27,pc);} else if((c[i].r&EPM)>t->vc.c[rt]) race("atomic write (vs plain read)",a,c[i].r,pc); } } }
enum { MO_RLX=0, MO_CONSUME=1, MO_ACQ=2, MO_REL=3, MO_AR=4, MO_SC=5 };
static inline bool isacq(int m){ return m==MO_ACQ||m==MO_CONSUME||m==MO_AR||m==MO_SC; }
static inline bool isrel(int m){ return m==MO_REL||m==MO_AR||m==MO_SC; }
static u64 rawload(uptr a,u32 sz){ switch(sz){case 1:return *(volatile u8*)a;case 2:return *(volatile u16*)a;case 4:return *(volatile u32*)a;default:return *(volatile u64*)a;} }
static void rawstore(uptr a,u32 sz,u64 v){ switch(sz){case 1:*(volatile u8*)a=v;break;case 2:*(volatile u16*)a=v;break;case 4:*(volatile u32*)a=v;break;default:*(volatile u64*)a=v;} }
static void seed_hist(Loc*l){ // the value the location held before its first atomic store
  if(l->n) return; if(!l->h[0]) l->h[0]=(StoreEl*)malloc(sizeof(StoreEl)); StoreEl*e=l->h[0]; memset(e,0,sizeof *e); e->val=rawload(l->addr,l->size); l->n=1; }
static StoreEl* push_store(Loc*l,u64 v,Thread*t,bool sc){
  StoreEl*e; if(l->n==HIST){ e=l->h[0]; memmove(l->h,l->h+1,sizeof(l->h[0])*(HIST-1)); l->h[HIST-1]=e; } else { if(!l->h[l->n]) l->h[l->n]=(StoreEl*)malloc(sizeof(StoreEl)); e=l->h[l->n++]; }
  memset(e,0,sizeof *e); e->val=v; e->ts=t->vc.c[t->tid]; e->tid=t->tid; e->sc=sc;
  if(sc) for(int i=l->n-1;i>=0;i--) if(l->h[i]->ts<=t->vc.c[l->h[i]->tid]) l->h[i]->sc=true;
  return e; }
static void acquire_from(Thread*t,StoreEl*e,int mo){ if(isacq(mo)) t->vc.join(e->sync); t->acqf.join(e->sync); }
static NOINLINE u64 a_load(uptr a,u32 sz,int mo,uptr pc){
  sched_point(10,a); Thread*t=self; Loc*l=getloc(a,sz); atomic_vs_plain(a,sz,false,pc);
  l->ar.c[t->tid]=t->vc.c[t->tid]; seed_hist(l);
  StoreEl*e=l->h[l->n-1]; bool sc=mo==MO_SC;
  if(G.cfg.stale_budget && l->n>1 && inarena(a) && !G.fair && G.nt>1 && G.stale_left){
    StoreEl*cand[HIST]; int n=0; bool foundsc=false;
    for(int i=l->n-1;i>=0;i--){ StoreEl*s=l->h[i]; bool inc=true; if(sc&&s->sc){ inc=!foundsc; foundsc=true; } if(inc) cand[n++]=s;
      bool stop = s->ts<=t->vc.c[s->tid]; 
      for(int k=0;!stop&&k<MAXT;k++) if(s->loads[k]&&s->loads[k]<=t->vc.c[k]) stop=true;
      if(sc&&s->sc_loaded) stop=true; if(s->sc&&s->ts<=G.scvc.c[s->tid]&&sc) stop=true;
      if(stop) break; }
    if(n>1){ u32 prop=0; if(!g_shm->replay){ u64 r=rnd(); if((r&7)<3) prop=1+(u32)((r>>8)%(n-1)); } u32 v=choice(CK_STALE,n,prop); if(v){ e=cand[v]; if(G.stale_left) G.stale_left--; g_shm->counters[CNT_STALE]++; logev(3,a,e->val);} }
  }
  if(!e->loads[t->tid]) e->loads[t->tid]=t->vc.c[t->tid]; if(sc) e->sc_loaded=true;
  u64 v=e->val; if(!inarena(a)) { v=rawload(a,sz); e->val=v; }
  acquire_from(t,e,mo); if(sc) tick(t);
  logev(10,a,v); return v; }
static void set_sync(Thread*t,StoreEl*e,int mo){ if(isrel(mo)) e->sync=t->vc; else e->sync=t->relf; }
static NOINLINE void a_store(uptr a,u32 sz,u64 v,int mo,uptr pc){
  sched_point(11,a); Thread*t=self; Loc*l=getloc(a,sz); atomic_vs_plain(a,sz,true,pc); seed_hist(l);
  l->aw.c[t->tid]=t->vc.c[t->tid]; StoreEl*e=push_store(l,v,t,mo==MO_SC); set_sync(t,e,mo); rawstore(a,sz,v); tick(t); logev(11,a,v); }
enum { RMW_XCHG,RMW_ADD,RMW_SUB,RMW_AND,RMW_OR,RMW_XOR,RMW_NAND };
static u64 trunc_(u64 v,u32 sz){ return sz==8?v:v&((1ull<<(8*sz))-1); }
static u64 rmwop(int op,u64 o,u64 v){ switch(op){case RMW_XCHG:return v;case RMW_ADD:return o+v;case RMW_SUB:return o-v;case RMW_AND:return o&v;case RMW_OR:return o|v;case RMW_XOR:return o^v;default:return ~(o&v);} }
static void do_rmw_store(Loc*l,StoreEl*prev,u64 nv,int mo){ Thread*t=self; VC ps=prev->sync; acquire_from(t,prev,mo); l->aw.c[t->tid]=t->vc.c[t->tid]; l->ar.c[t->tid]=t->vc.c[t->tid];
  StoreEl*e=push_store(l,nv,t,mo==MO_SC); set_sync(t,e,mo); e->sync.join(ps); rawstore(l->addr,l->size,nv); tick(t); }
static NOINLINE u64 a_rmw(uptr a,u32 sz,u64 v,int op,int mo,uptr pc){
  sched_point(12,a); Loc*l=getloc(a,sz); atomic_vs_plain(a,sz,true,pc); seed_hist(l); u64 o=rawload(a,sz); StoreEl*p=l->h[l->n-1]; if(!inarena(a)) p->val=o;
  u64 nv=trunc_(rmwop(op,o,v),sz); do_rmw_store(l,p,nv,mo); logev(12,a,nv); return o; }
static NOINLINE u64 a_cas(uptr a,u32 sz,u64 c,u64 v,int mo,int fmo,uptr pc){
  sched_point(13,a); Thread*t=self; Loc*l=getloc(a,sz); u64 o=rawload(a,sz); seed_hist(l); StoreEl*p=l->h[l->n-1]; if(!inarena(a)) p->val=o;
  if(o==c){ atomic_vs_plain(a,sz,true,pc); do_rmw_store(l,p,v,mo); logev(13,a,v); }
  else { atomic_vs_plain(a,sz,false,pc); l->ar.c[t->tid]=t->vc.c[t->tid]; if(!p->loads[t->tid]) p->loads[t->tid]=t->vc.c[t->tid]; if(fmo==MO_SC) p->sc_loaded=true; acquire_from(t,p,fmo); logev(14,a,o); }
  return o; }

extern "C" {
#define ATOM(bits,T) \
T __tsan_atomic##bits##_load(const volatile T*a,int mo){ if(!on()) return __atomic_load_n(a,__ATOMIC_SEQ_CST); return (T)a_load((uptr)a,sizeof(T),mo,PC()); } \
void __tsan_atomic##bits##_store(volatile T*a,T v,int mo){ if(!on()){ __atomic_store_n(a,v,__ATOMIC_SEQ_CST); return; } a_store((uptr)a,sizeof(T),(u64)v,mo,PC()); } \
T __tsan_atomic##bits##_exchange(volatile T*a,T v,int mo){ if(!on()) return __atomic_exchange_n(a,v,__ATOMIC_SEQ_CST); return (T)a_rmw((uptr)a,sizeof(T),(u64)v,RMW_XCHG,mo,PC()); } \
T __tsan_atomic##bits##_fetch_add(volatile T*a,T v,int mo){ if(!on()) return __atomic_fetch_add(a,v,__ATOMIC_SEQ_CST); return (T)a_rmw((uptr)a,sizeof(T),(u64)v,RMW_ADD,mo,PC()); } \
T __tsan_atomic##bits##_fetch_sub(volatile T*a,T v,int mo){ if(!on()) return __atomic_fetch_sub(a,v,__ATOMIC_SEQ_CST); return (T)a_rmw((uptr)a,sizeof(T),(u64)v,RMW_SUB,mo,PC()); } \
T __tsan_atomic##bits##_fetch_and(volatile T*a,T v,int mo){ if(!on()) return __atomic_fetch_and(a,v,__ATOMIC_SEQ_CST); return (T)a_rmw((uptr)a,sizeof(T),(u64)v,RMW_AND,mo,PC()); } \
T __tsan_atomic##bits##_fetch_or(volatile T*a,T v,int mo){ if(!on()) return __atomic_fetch_or(a,v,__ATOMIC_SEQ_CST); return (T)a_rmw((uptr)a,sizeof(T),(u64)v,RMW_OR,mo,PC()); } \
T __tsan_atomic##bits##_fetch_xor(volatile T*a,T v,int mo){ if(!on()) return __atomic_fetch_xor(a,v,__ATOMIC_SEQ_CST); return (T)a_rmw((uptr)a,sizeof(T),(u64)v,RMW_XOR,mo,PC()); } \
T __tsan_atomic##bits##_fetch_nand(volatile T*a,T v,int mo){ if(!on()) return __atomic_fetch_nand(a,v,__ATOMIC_SEQ_CST); return (T)a_rmw((uptr)a,sizeof(T),(u64)v,RMW_NAND,mo,PC()); } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T*a,T c,T v,int mo,int fmo){ if(!on()){ __atomic_compare_exchange_n(a,&c,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); return c; } return (T)a_cas((uptr)a,sizeof(T),(u64)c,(u64)v,mo,fmo,PC()); } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T*a,T*c,T v,int mo,int fmo){ T e=*c; T o=__tsan_atomic##bits##_compare_exchange_val(a,e,v,mo,fmo); if(o==e) return 1; *c=o; return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T*a,T*c,T v,int mo,int fmo){ return __tsan_atomic##bits##_compare_exchange_strong(a,c,v,mo,fmo); }
ATOM(8,u8) ATOM(16,u16) ATOM(32,u32) ATOM(64,u64)
void __tsan_atomic_thread_fence(int mo){ if(!on()){ __atomic_thread_fence(__ATOMIC_SEQ_CST); return; }
  sched_point(15,0); Thread*t=self; if(isacq(mo)) t->vc.join(t->acqf); if(mo==MO_SC){ t->vc.join(G.scvc); G.scvc.join(t->vc); } if(isrel(mo)) t->relf=t->vc; tick(t); }
void __tsan_atomic_signal_fence(int){}
void __tsan_init(){}
void __tsan_func_entry(void*){} void __tsan_func_exit(){}
#define RW(n) void __tsan_read##n(void*a){ plain((uptr)a,n,false,PC()); } void __tsan_write##n(void*a){ plain((uptr)a,n,true,PC()); } \
 void __tsan_unaligned_read##n(void*a){ plain((uptr)a,n,false,PC()); } void __tsan_unaligned_write##n(void*a){ plain((uptr)a,n,true,PC()); } \
 void __tsan_read_write##n(void*a){ plain((uptr)a,n,true,PC()); } void __tsan_unaligned_read_write##n(void*a){ plain((uptr)a,n,true,PC()); } \
 void __tsan_volatile_read##n(void*a){ plain((uptr)a,n,false,PC()); } void __tsan_volatile_write##n(void*a){ plain((uptr)a,n,true,PC()); } \
 void __tsan_unaligned_volatile_read##n(void*a){ plain((uptr)a,n,false,PC()); } void __tsan_unaligned_volatile_write##n(void*a){ plain((uptr)a,n,true,PC()); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void**a,void*){ plain((uptr)a,8,true,PC()); } void __tsan_vptr_read(void**a){ plain((uptr)a,8,false,PC()); }
void __tsan_read_range(void*a,uptr n){ plain((uptr)a,n,false,PC()); } void __tsan_write_range(void*a,uptr n){ plain((uptr)a,n,true,PC()); }
void* __tsan_memcpy(void*d,const void*s,uptr n){ plain((uptr)s,n,false,PC()); plain((uptr)d,n,true,PC()); return memcpy(d,s,n); }
void* __tsan_memmove(void*d,const void*s,uptr n){ plain((uptr)s,n,false,PC()); plain((uptr)d,n,true,PC()); return memmove(d,s,n); }
void* __tsan_memset(void*d,int c,uptr n){ plain((uptr)d,n,true,PC()); return memset(d,c,n); }
}

// ---------------------------------------------------------------- libc seams
template<class F> static F real(const char*n){ return (F)dlsym(RTLD_NEXT,n); }
static u64 ts2ns(const struct timespec*t){ return (u64)t->tv_sec*1000000000ull+t->tv_nsec; }
static const u64 EPOCH=1000000000ull*1000;
extern "C" {
long syscall(long n,...){
  va_list ap; va_start(ap,n); long a=va_arg(ap,long),b=va_arg(ap,long),c=va_arg(ap,long),d=va_arg(ap,long),e=va_arg(ap,long),f=va_arg(ap,long); va_end(ap);
  if(n==SYS_futex && on()){
    int op=b&127; Thread*t=self;
    if(op==FUTEX_WAIT||op==FUTEX_WAIT_BITSET){
      sched_point(20,a); if(*(volatile u32*)a!=(u32)c){ errno=EAGAIN; return -1; }
      if(!G.no_faults && G.cfg.p_spurious){ if(choice(CK_SPURIOUS,2,!g_shm->replay&&(rnd()&65535)<G.cfg.p_spurious?1:0)){ g_shm->counters[CNT_SPURIOUS]++; logev(4,a,0); if(G.nt>1) sched_point(21,a); errno=EINTR; return -1; } }
      t->faddr=a; t->fbits=op==FUTEX_WAIT_BITSET?(u32)f:~0u; t->woken=false; t->timed=false; t->seq=G.seqno++;
      if(d){ u64 x=ts2ns((struct timespec*)d); t->timed=true; t->wake_at= op==FUTEX_WAIT_BITSET? (x>EPOCH?x-EPOCH:0) : G.now+x; }
      logev(20,a,c); block(ST_FUTEX); t->faddr=0;
      if(!t->woken){ errno=ETIMEDOUT; return -1; } return 0; }
    if(op==FUTEX_WAKE||op==FUTEX_WAKE_BITSET){
      sched_point(22,a); long k=0; while(k<c){ Thread*w[MAXT]; int m=0; for(int i=0;i<G.nt;i++){ Thread*x=G.th[i]; if(x->st==ST_FUTEX&&x->faddr==(uptr)a) w[m++]=x; }
        if(!m) break; for(int i=0;i<m;i++) for(int j=i+1;j<m;j++) if(w[j]->seq<w[i]->seq){ Thread*x=w[i]; w[i]=w[j]; w[j]=x; }
        u32 idx=0; if(m>1&&c<m&&!G.no_faults){ idx=choice(CK_FUTEXORDER,m,g_shm->replay?0:((rnd()&3)==0?(u32)(rnd()>>8)%m:0)); if(idx) g_shm->counters[CNT_FUTEXORDER]++; }
        w[idx]->st=ST_RUN; w[idx]->woken=true; w[idx]->consec=0; w[idx]->seq=8; k++; }
      logev(22,a,k); return k; }
    simrt_fail("harness-futex","unsupported futex operation");
  }
  long r=rsys(n,a,b,c,d,e,f); if(r<0&&r>-4096){ errno=-r; return -1; } return r; }
int sched_yield(){ if(!on()) return rsys(SYS_sched_yield); self->prio=G.lowprio>1?G.lowprio--:1; do_yield(); return 0; }
static int do_sleep(u64 ns){ Thread*t=self; G.step++; t->wake_at=G.now+ns; block(ST_SLEEP); return 0; }
int nanosleep(const struct timespec*r,struct timespec*rem){ if(!on()) return (int)rsys(SYS_nanosleep,(long)r,(long)rem); return do_sleep(ts2ns(r)); }
int clock_nanosleep(clockid_t c,int fl,const struct timespec*r,struct timespec*rem){ if(!on()) return (int)-rsys(SYS_clock_nanosleep,c,fl,(long)r,(long)rem); u64 x=ts2ns(r); if(fl&TIMER_ABSTIME) x=x>EPOCH+G.now?x-EPOCH-G.now:0; return do_sleep(x); }
int clock_gettime(clockid_t c,struct timespec*t){ if(!on()){ long r=rsys(SYS_clock_gettime,c,(long)t); if(r<0){errno=-r;return -1;} return 0; } u64 x=EPOCH+G.now; t->tv_sec=x/1000000000ull; t->tv_nsec=x%1000000000ull; return 0; }
ssize_t getrandom(void*b,size_t n,unsigned f){ if(!on()) { long r=rsys(SYS_getrandom,(long)b,n,f); if(r<0){errno=-r;return -1;} return r; } memset(b,0x5a,n); return n; }
int __cxa_thread_atexit_impl(void(*fn)(void*),void*obj,void*dso){ if(self){ self->dtors.push_back({fn,obj}); return 0; } static auto r=real<int(*)(void(*)(void*),void*,void*)>("__cxa_thread_atexit_impl"); return r?r(fn,obj,dso):0; }

// thread-specific-data destructors run inside the simulation, as the thread's last actions
static struct { pthread_key_t k; void(*d)(void*); } g_keys[64]; static int g_nkeys;
int pthread_key_create(pthread_key_t*k,void(*d)(void*)){ static auto r=real<int(*)(pthread_key_t*,void(*)(void*))>("pthread_key_create"); int e=r(k,d); if(!e&&d&&g_nkeys<64){ g_keys[g_nkeys].k=*k; g_keys[g_nkeys++].d=d; } return e; }
static void run_dtors(Thread*t){
  for(int it=0;it<6;it++){ bool any=false;
    while(!t->dtors.empty()){ Dtor d=t->dtors.back(); t->dtors.pop_back(); any=true; d.fn(d.obj); }
    for(int i=0;i<g_nkeys;i++){ void*v=pthread_getspecific(g_keys[i].k); if(v){ any=true; pthread_setspecific(g_keys[i].k,nullptr); g_keys[i].d(v); } }
    if(!any) break; } }
static void thread_done(Thread*t){
  t->ignore=0; run_dtors(t);
  sched_point(31,0); t->st=ST_DONE; G.ndone++; tick(t); logev(31,0,0);
  for(int i=0;i<G.nt;i++) if(G.th[i]->st==ST_JOIN&&G.th[i]->join_on==t->tid) G.th[i]->st=ST_RUN;
  int nx=pick(t,false); self=nullptr; switch_to(t,nx); }
static void* tramp(void*p){ Thread*t=(Thread*)p; self=t; wait_go(&t->go); t->ret=t->start(t->arg); thread_done(t); return t->ret; }
static Thread* mk(void*(*start)(void*),void*arg){ if(G.nt>=MAXT) simrt_fail("harness-threads","too many simulated threads"); Thread*t=new Thread(); t->tid=G.nt; t->st=ST_RUN; t->start=start; t->arg=arg; memset(&t->vc,0,sizeof(VC)); memset(&t->relf,0,sizeof(VC)); memset(&t->acqf,0,sizeof(VC)); t->vc.c[t->tid]=1; t->prio=(1ull<<32)+(g_shm->replay?0:rnd()%(1u<<20)); t->seq=8; t->consec=0; return t; }
static int real_create(Thread*t,const pthread_attr_t*at){ static auto r=real<int(*)(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*)>("pthread_create"); return r(&t->real,at,tramp,t); }
int pthread_create(pthread_t*out,const pthread_attr_t*at,void*(*start)(void*),void*arg){
  if(!on()){ static auto r=real<int(*)(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*)>("pthread_create"); return r(out,at,start,arg); }
  sched_point(30,0);
  if(G.cfg.allow_threadfail && !G.no_faults && choice(CK_THREADFAIL,2,!g_shm->replay&&(rnd()&15)==0?1:0)){ g_shm->counters[CNT_THREADFAIL]++; return EAGAIN; }
  Thread*t=mk(start,arg); for(int i=0;i<MAXT;i++) if(i!=t->tid) t->vc.c[i]=self->vc.c[i]; tick(self);
  int r=real_create(t,at); if(r) simrt_fail("harness-pthread","real pthread_create failed"); G.th[G.nt++]=t; *out=t->real; logev(30,t->tid,0); sched_point(32,0); return 0; }
static Thread* find(pthread_t p){ for(int i=G.nt-1;i>=0;i--) if(G.th[i]->real==p) return G.th[i]; return nullptr; }
int pthread_join(pthread_t p,void**ret){
  Thread*t; if(!on()||!(t=find(p))){ static auto r=real<int(*)(pthread_t,void**)>("pthread_join"); return r(p,ret); }
  sched_point(33,t->tid); while(t->st!=ST_DONE){ self->join_on=t->tid; block(ST_JOIN); } self->vc.join(t->vc); if(ret)*ret=t->ret; logev(33,t->tid,0); return 0; }
int pthread_detach(pthread_t p){ if(!on()||!find(p)){ static auto r=real<int(*)(pthread_t)>("pthread_detach"); return r(p); } return 0; }
}

// ---------------------------------------------------------------- run control
static void crash_handler(int sig){ if(self) self->ignore++; char c[64]; snprintf(c,sizeof c,"crash-signal-%d",sig); 
  if(g_shm&&g_shm->status!=2){ char m[200]; snprintf(m,sizeof m,"simulated process died with signal %d (%s)",sig,sig==SIGABRT?"abort":sig==SIGSEGV?"segmentation fault":"fatal"); simrt_fail(c,m);} die(11); }
extern "C" void simrt_set_shm(void*p){ g_shm=(Shm*)p; }
extern "C" size_t simrt_shm_size(){ return sizeof(Shm); }
extern "C" void simrt_init_process(){ // once, in the zygote
  void*a=mmap((void*)ARENA,ARENA_SZ,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0);
  void*b=mmap((void*)SHADOW,ARENA_SZ*sizeof(Cell),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0);
  void*c=mmap((void*)LOCS,ARENA_SZ/8*sizeof(Loc*),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0);
  if(a==MAP_FAILED||b==MAP_FAILED||c==MAP_FAILED){ fprintf(stderr,"simrt: mmap failed\n"); die(2); } }
extern "C" void simrt_install_handlers(){
  static u8 alt[65536]; stack_t ss; memset(&ss,0,sizeof ss); ss.ss_sp=alt; ss.ss_size=sizeof alt; sigaltstack(&ss,nullptr);
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=crash_handler; sa.sa_flags=SA_NODEFER|SA_ONSTACK; int sg[]={SIGSEGV,SIGBUS,SIGABRT,SIGILL,SIGFPE,SIGTRAP}; for(int s:sg) sigaction(s,&sa,nullptr); }
// Runs one simulated execution; returns when every simulated thread has finished.
extern "C" void simrt_run(void*(*entry)(void*),void*arg,const Config*cfg,u64 seed){
  // one run per (forked) process: arena, shadow and histories start out zeroed
  G.nt=0; G.ndone=0; G.step=0; G.now=0; G.rpos=0; G.cfg=*cfg; G.fair=false; G.lastfair=0; G.no_faults=false; G.bump=ARENA+64; G.live=0; G.lbytes=0; memset(&G.scvc,0,sizeof(VC)); G.rvc.clear(); G.stat=new std::unordered_map<uptr,Loc*>(); G.seqno=0; G.lowprio=1u<<30; G.stale_left=cfg->stale_budget;
  u64 x=seed; G.rng[0]=splitmix(x); G.rng[1]=splitmix(x); for(int i=0;i<8;i++) rnd();
  for(u32 i=0;i<16;i++) G.pct_points[i]= cfg->pct_k? 1+rnd()%cfg->pct_k:0;
  g_shm->hash=0x1234567; g_shm->status=0; g_shm->tape_len=g_shm->replay?g_shm->replay_len:0; g_shm->tape_overflow=0; g_shm->log_len=0;
  G.host_go=0; Thread*t=mk(entry,arg); G.th[G.nt++]=t; G.active=true; 
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at,1<<20);
  if(real_create(t,&at)){ fprintf(stderr,"simrt: cannot create root\n"); die(2); }
  pthread_attr_destroy(&at);
  give(&t->go); wait_go(&G.host_go); G.active=false;
  static auto rj=real<int(*)(pthread_t,void**)>("pthread_join"); for(int i=0;i<G.nt;i++) rj(G.th[i]->real,nullptr);
  g_shm->live_leak=G.live; g_shm->live_bytes=G.lbytes; if(g_leakdbg) leak_dump(); finish_stats(); g_shm->status=1; g_shm->runs_done++;
}
extern "C" void simrt_threadfail(int v){ G.cfg.allow_threadfail=v; }
void simrt_stop_faults(){ G.no_faults=true; G.stale_left=0; }
