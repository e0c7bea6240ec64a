// Runtime of the simulator.  Compiled without instrumentation.
#include "simrt.hpp"
#include <atomic>
#include <new>
#include <random>
#include <chrono>
#include <unordered_map>
#include <unordered_set>
#include <set>
#include <iostream>
#include <sstream>
#include <fstream>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <sys/personality.h>
#include <cxxabi.h>

extern "C" {
void* __real_memcpy(void*, void const*, size_t);
void* __real_memmove(void*, void const*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(void const*, void const*, size_t);
}

namespace sim {

const char* const kind_name[K_NKINDS] = { "alloc_failure","element_ctor_throw","element_assign_throw","compare_throw","callback_throw",
    "read_error","early_eof","short_write","write_throw","thread_switch","op_boundary_switch","entropy_failure","clock_jump","stall",
    "malloc_failure","symbol_lookup_failure" };

static const int MAXT = 8;

struct Shared {                       // parent <-> child (one run)
    int  status;                      // 0 none, 1 ok, 2 violation, 3 internal error
    char cls[64];
    char msg[3000];
    u64  hash, ops, steps, switches, yields, allocs; i64 simtime;
    u64  fired[K_NKINDS];
    u32  nprobe; char pname[160][40]; u64 pcount[160];
};
static Shared* shm = nullptr;

struct ThreadCtx {
    int  id=0; bool lib=false; bool internal=false; int statics=0;   // nesting of one-time initialisations under way
    Op const* op=nullptr;
    u32  cnt[K_NKINDS]={0};
    int  quiet=0;
    u64  opsteps=0, opsig=0, allocs=0; u32 firedop[K_NKINDS]={0}; bool fired=false; bool allocsticky=false, callsticky=false;
    std::vector<Inj> const* injs=nullptr;        // for current op
    u32  vc[MAXT]={0}, seen[MAXT]={0}, fence[MAXT]={0};   // seen: released to us through relaxed loads; fence: what our last release fence releases
    u32  since=0;                                // atomic operations and failed attempts since this thread was switched to
    sem_t sem; bool done=false; void const* blocked=nullptr;
    pthread_t pt;
};
static ThreadCtx mainctx;
static __thread ThreadCtx* tc = nullptr;
static inline ThreadCtx& ctx() { return tc? *tc : mainctx; }

static Harness* H = nullptr;
static Plan plan;
static bool running = false;          // inside a run (child)
static int nthreads = 1;              // simulated threads active
static ThreadCtx* threads[MAXT];
static int current = 0;
static i64 sim_start=0;
static u64 evhash = 1469598103934665603ull;
static u64 total_steps=0, nswitch=0, nyield=0, nalloc=0;
static i64 sim_steady=0, sim_wall=0, sim_tick=0; static bool clk_frozen=false; static u64 clk_reads=0;
static int ent_mode=0; static u64 ent_val=1; static u64 ent_reads=0;
static u64 firedk[K_NKINDS];
static std::set<std::string>* ignored = nullptr;
static std::map<std::string,u64>* probes = nullptr;
static std::unordered_map<u32,std::vector<Inj>>* injmap = nullptr;
static u8 paintb=0, freshb=0xA5;
static const u64 STEP_BUDGET_OP = 80000000, STEP_BUDGET_RUN = 800000000;
static bool verbose=false;

void log(u64 v) { evhash ^= v; evhash *= 1099511628211ull; evhash ^= evhash>>29; }
void logs(const char* s) { while(*s) log(u64((unsigned char)*s++)); }
void log_str(std::string const& s) { for(char c : s) log(u64((unsigned char)c)); log(s.size()); }
void probe(const char* name, u64 n) { bool p=set_lib(false); (*probes)[name]+=n; set_lib(p); }
void ignore(const char* cls) { ignored->insert(cls); }
int self() { return ctx().id; }
bool in_lib() { return ctx().lib; }
bool set_lib(bool on) { ThreadCtx& c=ctx(); bool p=c.lib; c.lib=on; return p; }
Lib::Lib() : p(set_lib(false)) { sim::paint(paintb); set_lib(true); }
Lib::~Lib() { set_lib(p); }
Quiet::Quiet() { ++ctx().quiet; }
Quiet::~Quiet() { --ctx().quiet; }
Harn::Harn() : p(set_lib(false)) { }
Harn::~Harn() { set_lib(p); }

static void finish_shared(int status) {
    shm->hash=evhash; shm->steps=total_steps; shm->switches=nswitch; shm->yields=nyield; shm->allocs=nalloc; shm->simtime=sim_steady-sim_start;
    for(int i=0;i<K_NKINDS;++i) shm->fired[i]=firedk[i];
    shm->nprobe=0;
    if(probes) for(auto& kv : *probes) { if(shm->nprobe>=160) break; strncpy(shm->pname[shm->nprobe],kv.first.c_str(),39); shm->pcount[shm->nprobe]=kv.second; ++shm->nprobe; }
    __sync_synchronize(); shm->status=status;
}

void progress() { ctx().opsteps=0; }
static bool alone=false;              // in a forked copy that runs one thread's operations by themselves
void fail(const char* cls, const char* fmt, ...) {
    ThreadCtx& c=ctx(); c.lib=false; c.internal=true;
    if(alone) _exit(1);
    if(!running || !shm) { fprintf(stderr,"FATAL outside run: %s\n",cls); va_list ap; va_start(ap,fmt); vfprintf(stderr,fmt,ap); va_end(ap); _exit(97); }
    char buf[2000]; va_list ap; va_start(ap,fmt); vsnprintf(buf,sizeof buf,fmt,ap); va_end(ap);
    for(char* p=buf; *p; ++p) if((unsigned char)*p<32 || (unsigned char)*p>126) *p= *p=='\n'? ' ' : '?';   // one line of plain text
    if(shm->status==0) {
        strncpy(shm->cls,cls,sizeof shm->cls-1);
        auto names=H->op_names();
        snprintf(shm->msg,sizeof shm->msg,"%s [thread %d, op %u %s(%lld,%lld,%lld,%lld)]",buf,c.id,c.op?c.op->id:0,c.op&&c.op->code<names.size()?names[c.op->code].c_str():"-",
            c.op?(long long)c.op->a[0]:0,c.op?(long long)c.op->a[1]:0,c.op?(long long)c.op->a[2]:0,c.op?(long long)c.op->a[3]:0);
        finish_shared(2);
    }
    _exit(0);
}
// like fail, but honours the set of classes the current check does not judge
#define SOFTFAIL(cls,...) do { if(!ignored || !ignored->count(cls)) fail(cls,__VA_ARGS__); } while(0)

// ---------------------------------------------------------------------------------------------- injections
bool inject(Kind k, i64* arg) {
    ThreadCtx& c=ctx(); if(!running || !c.op) return false;
    if(c.quiet && k!=K_SWITCH) return false;
    u32 n=c.cnt[k]++; if(k!=K_SWITCH && k!=K_OPEND) c.opsig=(c.opsig^k)*1099511628211ull;
    if(k==K_ALLOC && c.allocsticky) { ++firedk[k]; ++c.firedop[k]; c.fired=true; return true; }
    if(c.injs) for(Inj const& i : *c.injs) if(i.kind==k && i.nth==n) {
        if(k==K_ALLOC && i.arg==1) c.allocsticky=true;
        if(arg) *arg=i.arg;
        ++firedk[k]; ++c.firedop[k]; log(0xF000+k); log(n);
        if(k!=K_SWITCH && k!=K_OPEND) c.fired=true;
        if(verbose) { fprintf(stderr,"  [t%d op %u] fault %s #%u arg %lld\n",c.id,c.op->id,kind_name[k],n,(long long)i.arg); }
        return true; }
    return false;
}
bool fired_in_op() { return ctx().fired; }
u64 op_signature() { return ctx().opsig*2+ctx().fired; }
u64 fired_total(Kind k) { return firedk[k]; }
u64 fired_here(Kind k) { return ctx().firedop[k]; }

// ---------------------------------------------------------------------------------------------- scheduler
struct VC { u32 v[MAXT]; };
static std::unordered_map<u64,VC>* syncs=nullptr;

static void vc_acquire(u64 key) { if(nthreads<2) return; Harn h; ThreadCtx& c=ctx(); auto i=syncs->find(key); if(i!=syncs->end()) for(int t=0;t<MAXT;++t) if(c.vc[t]<i->second.v[t]) c.vc[t]=i->second.v[t]; }
static void vc_release(u64 key) { if(nthreads<2) return; Harn h; ThreadCtx& c=ctx(); VC& s=(*syncs)[key]; for(int t=0;t<MAXT;++t) if(s.v[t]<c.vc[t]) s.v[t]=c.vc[t]; ++c.vc[c.id]; }

static void hand_over(int to) {
    ThreadCtx& me=*threads[current]; me.since=0; current=to; ++nswitch; log(0xE000+u64(to));
    sem_post(&threads[to]->sem);
    while(sem_wait(&me.sem)!=0) { }
}
static int pick_runnable(int want, int not_this) {
    for(int k=0;k<nthreads;++k) { int t=(want+k)%nthreads; if(t!=not_this && !threads[t]->done && !threads[t]->blocked) return t; }
    return -1;
}
static void maybe_switch(Kind k) {
    i64 a=0; ++nyield;
    if(inject(k,&a)) { int t=pick_runnable(int(u64(a)%u64(nthreads)),-1); if(t>=0 && t!=current) hand_over(t); }
}
// A thread that keeps polling gives way in the end, as any fair scheduler makes it.
static void spin_point(u32 weight) { ThreadCtx& c=ctx(); if(nthreads<2) return; c.since+=weight; if(c.since>=1500) { int t=pick_runnable(c.id+1,c.id); c.since=0; if(t>=0) { probe("gave_way"); hand_over(t); } } }
void yield() { if(nthreads>1 && running) { bool p=set_lib(false); maybe_switch(K_SWITCH); set_lib(p); } }

// the current thread cannot proceed until somebody unblocks addr
static void block_on(void const* addr) {
    ThreadCtx& me=ctx();
    if(nthreads<2) fail("deadlock","a thread blocks on a lock nobody can release");
    me.blocked=addr; int t=pick_runnable(me.id+1,me.id);
    if(t<0) fail("deadlock","all threads are blocked");
    hand_over(t);
}
static void unblock(void const* addr) { for(int t=0;t<nthreads;++t) if(threads[t]->blocked==addr) threads[t]->blocked=nullptr; }

// ---------------------------------------------------------------------------------------------- simulated heap
static const u64 ARENA=0x100000000000ull, ASIZE=1ull<<30, SHADOW=0x180000000000ull, RED=32;
struct Block { u64 addr; u64 size; u32 op; u8 thr; u8 kind; bool live; bool stat; };   // stat: allocated by the initialisation of a static, lives as long as the program
static std::vector<Block>* blocks=nullptr;
static u32* gran=nullptr;             // granule (16 bytes) -> block index+1, at block starts
static u8* shadow=nullptr;            // per 8 bytes: 0 all ok, 1..7 first k ok, 0xFA redzone, 0xFD freed
static u64 bump=0, liveblocks=0, livebytes=0;
static const u64 BIG=1ull<<26;

static void heap_init() {
    void* a=mmap((void*)ARENA,ASIZE,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0);
    void* s=mmap((void*)SHADOW,ASIZE/8,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0);
    void* g=mmap(nullptr,ASIZE/16*4,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
    if(a!=(void*)ARENA || s!=(void*)SHADOW || g==MAP_FAILED) { perror("mmap arena"); _exit(98); }
    shadow=(u8*)s; gran=(u32*)g; bump=0;
    blocks=new std::vector<Block>(); blocks->reserve(4096);
}
bool heap_contains(void const* p) { u64 a=u64(p); return a>=ARENA && a<ARENA+ASIZE; }
static inline u8& sh(u64 a) { return shadow[(a-ARENA)>>3]; }
static void poison(u64 a, u64 n, u8 v) { for(u64 x=a&~7ull; x<a+n; x+=8) sh(x)=v; }
static Block* block_of(u64 a) {        // nearest block at or below
    for(u64 g=(a-ARENA)>>4; ; --g) { if(gran[g]) return &(*blocks)[gran[g]-1]; if(g==0) break; }
    return nullptr;
}
u64 heap_allocs() { return nalloc; }
u64 heap_allocs_here() { return ctx().allocs; }
u64 heap_live_blocks() { return liveblocks; }
u64 heap_live_bytes() { return livebytes; }
bool heap_is_live(void const* p) { u64 a=u64(p); if(!heap_contains(p) || a-ARENA>=bump) return false; Block* b=block_of(a); return b && b->live && a>=b->addr && a<b->addr+(b->size?b->size:1); }

static void* heap_alloc(u64 n, u64 align, u8 kind, bool& oom) {
    ThreadCtx& c=ctx(); c.lib=false; oom=false; ++nalloc; ++c.allocs;
    if(n>BIG) { oom=true; log(0xB16); probe("huge_request_refused"); c.lib=true; return nullptr; }
    c.opsig^=n<<8;
    if(inject(kind==2? K_MALLOC : K_ALLOC)) { oom=true; c.lib=true; return nullptr; }
    if(align<16) align=16;
    u64 a=ARENA+bump+RED; a=(a+align-1)/align*align;
    u64 end=a+((n+15)&~15ull)+RED;
    if(end-ARENA>ASIZE) fail("unbounded-memory","the run allocated more than %llu bytes in total",(unsigned long long)ASIZE);
    poison(ARENA+bump,end-(ARENA+bump),0xFA);
    for(u64 x=a; x<a+n; x+=8) sh(x)= (a+n-x>=8)? 0 : u8(a+n-x);
    if(n==0) sh(a)=0xFA;
    __real_memset((void*)(ARENA+bump),0xFA,end-(ARENA+bump)); __real_memset((void*)a,freshb,n);
    bump=end-ARENA; bump=(bump+15)&~15ull;
    blocks->push_back(Block{a,n,c.op?c.op->id:0,u8(c.id),kind,true,c.statics>0}); gran[(a-ARENA)>>4]=u32(blocks->size());
    ++liveblocks; livebytes+=n; c.lib=true; return (void*)a;
}
static void race_range(u64 a, u64 n, const char* what, void* pc);
static void heap_free(void* p, u8 kind, void* pc, u64 n=~0ull) {
    static const char* const forms[6]={"new","new[]","malloc","","aligned new","aligned new[]"}; static const char* const rel[6]={"delete","delete[]","free","","aligned delete","aligned delete[]"};
    ThreadCtx& c=ctx(); bool pl=c.lib; c.lib=false; u64 a=u64(p);
    if(((a-ARENA)&15) || a-ARENA>=bump || !gran[(a-ARENA)>>4]) fail("bad-free","release of an address that is not the start of a block (pc %p)",pc);
    Block& b=(*blocks)[gran[(a-ARENA)>>4]-1];
    if(!b.live) fail("double-free","block of %llu bytes (allocated in op %u) is released twice (pc %p)",(unsigned long long)b.size,b.op,pc);
    if(b.kind!=kind) fail("mismatched-delete","block allocated with %s is released with %s (pc %p)",forms[b.kind],rel[kind],pc);
    if(n!=~0ull && n!=b.size) fail("mismatched-delete","block of %llu bytes is released as one of %llu bytes (pc %p)",(unsigned long long)b.size,(unsigned long long)n,pc);
    if(nthreads>1) race_range(a,b.size,"release of",pc);
    b.live=false; --liveblocks; livebytes-=b.size;
    poison(a,(b.size+7)&~7ull,0xFD); if(b.size) __real_memset(p,0xDD,b.size);
    c.lib=pl;
}
void* c_malloc(size_t n) { ThreadCtx& c=ctx(); bool l=c.lib; bool oom; void* p=heap_alloc(n,16,2,oom); c.lib=l; return oom? nullptr : p; }
void c_free(void* p) { if(p) heap_free(p,2,__builtin_return_address(0)); }
static void access_check(u64 a, u64 n, bool write, void* pc) {
    if(n==0) return;
    if(a-ARENA>=bump) fail("heap-out-of-bounds","%s of %llu bytes in unallocated heap (pc %p)",write?"write":"read",(unsigned long long)n,pc);
    u64 x=a, e=a+n;
    while(x<e) {
        u8 s=sh(x); u64 off=x&7, upto=std::min<u64>(8,off+(e-x));
        if(s!=0 && (s>=0x80 || upto>s)) {
            ctx().lib=false; Block* b=block_of(a);
            if(s==0xFD) fail("use-after-free","%s of %llu bytes in a released block of %llu bytes allocated in op %u (pc %p)",write?"write":"read",(unsigned long long)n,b?(unsigned long long)b->size:0ull,b?b->op:0,pc);
            fail("heap-out-of-bounds","%s of %llu bytes at offset %lld of a block of %llu bytes allocated in op %u (pc %p)",write?"write":"read",(unsigned long long)n,b?(long long)(a-b->addr):0ll,b?(unsigned long long)b->size:0ull,b?b->op:0,pc);
        }
        x+=8-off;
    }
}
// whole-heap integrity at the end of a run: redzones and released blocks untouched (writes by uninstrumented code)
static void heap_verify() {
    u64 prev_end=ARENA;
    for(Block const& b : *blocks) {
        u64 z=b.addr-prev_end; if(z>512) z=512;
        for(u64 x=b.addr-std::min<u64>(z,RED); x<b.addr; ++x) if(*(u8*)x!=0xFA) fail("heap-out-of-bounds","bytes before a block of %llu bytes (op %u) were overwritten",(unsigned long long)b.size,b.op);
        for(u64 x=b.addr+b.size; x<b.addr+b.size+16; ++x) if(*(u8*)x!=0xFA) fail("heap-out-of-bounds","bytes after a block of %llu bytes (op %u) were overwritten",(unsigned long long)b.size,b.op);
        if(!b.live && b.size<65536) for(u64 x=b.addr; x<b.addr+b.size; ++x) if(*(u8*)x!=0xDD) fail("use-after-free","a released block of %llu bytes (op %u) was written",(unsigned long long)b.size,b.op);
        prev_end=b.addr+b.size;
    }
}
static void leak_report() {
    if(liveblocks==0) return;
    for(Block const& b : *blocks) if(b.live && !b.stat) SOFTFAIL("leak","%llu block(s) never released, first: %llu bytes allocated in op %u",(unsigned long long)liveblocks,(unsigned long long)b.size,b.op);
}

// ---------------------------------------------------------------------------------------------- race detection
struct Rec { u8 tid, mask; bool write, atomic; u32 clk; };
struct Cell { Rec r[6]; u8 n=0; };
static std::unordered_map<u64,Cell>* cells=nullptr;

static void race_granule(u64 g, u8 mask, bool write, bool atomic, const char* what, void* pc) {
    ThreadCtx& c=ctx(); Cell& ce=(*cells)[g];
    for(u8 i=0;i<ce.n;++i) { Rec const& r=ce.r[i];
        if(r.tid!=c.id && (r.mask&mask) && (r.write||write) && !(r.atomic&&atomic) && r.clk>c.vc[r.tid]) {
            c.lib=false;
            fail("data-race","%s %s by thread %d is unordered with a %s by thread %d (pc %p)",what,heap_contains((void*)(g<<3))?"heap memory":"shared memory",c.id,r.write?"write":"read",int(r.tid),pc); } }
    // keep one record per (tid,write,atomic)
    for(u8 i=0;i<ce.n;++i) { Rec& r=ce.r[i]; if(r.tid==c.id && r.write==write && r.atomic==atomic) { if(r.clk==c.vc[c.id]) r.mask|=mask; else { r.mask=mask; r.clk=c.vc[c.id]; } return; } }
    Rec nr; nr.tid=u8(c.id); nr.mask=mask; nr.write=write; nr.atomic=atomic; nr.clk=c.vc[c.id];
    if(ce.n<6) ce.r[ce.n++]=nr; else { // drop the oldest-ordered record of a read if possible
        for(u8 i=0;i<5;++i) ce.r[i]=ce.r[i+1]; ce.r[5]=nr; }
}
static void race_access(u64 a, u64 n, bool write, bool atomic, void* pc) {
    for(u64 g=a>>3; g<=(a+n-1)>>3; ++g) {
        u64 lo=std::max(a,g<<3)-(g<<3), hi=std::min(a+n,(g+1)<<3)-(g<<3);
        u8 m=u8(((1u<<(hi-lo))-1)<<lo);
        race_granule(g,m,write,atomic,write?"write to":"read of",pc);
    }
}
static void race_range(u64 a, u64 n, const char* what, void* pc) { for(u64 g=a>>3; n && g<=(a+n-1)>>3; ++g) race_granule(g,0xFF,true,false,what,pc); }

static void step(ThreadCtx& c) {
    ++total_steps;
    if(++c.opsteps>STEP_BUDGET_OP || total_steps>STEP_BUDGET_RUN) { c.lib=false; fail("no-progress","an operation did not finish within %llu memory accesses",(unsigned long long)STEP_BUDGET_OP); }
}
static inline void on_access(void const* p, u64 n, bool write, bool atomic, void* pc) {
    ThreadCtx& c=ctx(); if(!c.lib) return;
    c.lib=false; step(c);
    u64 a=u64(p);
    if(a<4096) fail("crash","%s through a null pointer (pc %p)",write?"write":"read",pc);
    if(nthreads>1) { maybe_switch(K_SWITCH); }
    if(a>=ARENA && a<ARENA+ASIZE) access_check(a,n,write,pc);
    if(nthreads>1) race_access(a,n,write,atomic,pc);
    c.lib=true;
}

// ---------------------------------------------------------------------------------------------- elements
static std::unordered_set<u64>* elems=nullptr; static u64 statelems=0; static u64 elemctors=0;
static bool soft(const char* c) { return ignored && ignored->count(c); }
void elem_ctor(void const* p, bool may_throw) {
    bool l=set_lib(false);
    if(may_throw && l && inject(K_CTOR)) { set_lib(l); throw SimFault("simulated element construction failure"); }
    if(!elems->insert(u64(p)).second && !soft("element-lifetime")) fail("element-lifetime","an element is constructed over a live element");
    ++elemctors; if(ctx().statics>0) ++statelems; set_lib(l);
}
void elem_use(void const* p, const char* how) {
    bool l=set_lib(false);
    if(!elems->count(u64(p))) fail("element-lifetime","%s an element that is not alive",how);
    set_lib(l);
}
void elem_dtor(void const* p) {
    bool l=set_lib(false);
    if(!elems->erase(u64(p))) fail("element-lifetime","an element that is not alive is destroyed");
    set_lib(l);
}
void elem_assign(void* d, void const* s) {
    bool l=set_lib(false);
    if(!elems->count(u64(d))) fail("element-lifetime","assignment to an element that is not alive");
    if(!elems->count(u64(s))) fail("element-lifetime","assignment from an element that is not alive");
    if(l && inject(K_ASSIGN)) { set_lib(l); throw SimFault("simulated element assignment failure"); }
    set_lib(l);
}
void elem_compare(void const* a, void const* b) {
    bool l=set_lib(false);
    if(!elems->count(u64(a)) || !elems->count(u64(b))) fail("element-lifetime","comparison with an element that is not alive");
    if(l && inject(K_CMP)) { set_lib(l); throw SimFault("simulated comparison failure"); }
    set_lib(l);
}
bool elem_is_live(void const* p) { return elems->count(u64(p))!=0; }
void callback_point() { bool l=set_lib(false); bool f=inject(K_CALL); set_lib(l); if(f) throw SimFault("simulated callback failure"); }
u64 elem_live() { return elems->size(); }
u64 elem_constructed() { return elemctors; }

// ---------------------------------------------------------------------------------------------- clocks, entropy
i64 steady_ns() { return sim_steady; }
i64 wall_ns() { return sim_wall; }
void advance(i64 ns) { sim_steady+=ns; sim_wall+=ns; }
void wall_jump(i64 ns) { sim_wall+=ns; }
void clock_tick(i64 t) { sim_tick=t; }
void clock_mode(bool f) { clk_frozen=f; }
u64 clock_readings() { return clk_reads; }
static void clock_read() {
    if(!running) { return; }
    bool l=set_lib(false); ++clk_reads; i64 a=0;
    if(nthreads>1) maybe_switch(K_SWITCH);
    if(inject(K_STALL,&a)) advance(a);
    if(inject(K_CLOCKJUMP,&a)) wall_jump(a);
    if(!clk_frozen) advance(sim_tick);
    set_lib(l);
}
void entropy_mode(int m, u64 v) { ent_mode=m; ent_val=v; }
u64 entropy_readings() { return ent_reads; }
static u32 entropy_next() {
    ++ent_reads;
    if(ent_mode==1) return u32(ent_val);
    Rng r(ent_val); ent_val=r.next(); return u32(r.next());
}

__attribute__((noinline)) void paint(u8 b) { volatile u8 buf[5000]; __real_memset((void*)buf,b,sizeof buf); asm volatile("" :: "r"(buf) : "memory"); }

// ---------------------------------------------------------------------------------------------- planning helpers
void plan_faults(Rng& r, Plan& p, FaultMix const& m, double quiet) {
    if(r.chance(quiet)) { p.cfg["faults"]=0; return; }
    std::vector<bool> on; bool any=false;
    for(size_t i=0;i<m.e.size();++i) { on.push_back(r.chance(0.6)); any=any||on.back(); }
    if(!any && !on.empty()) on[r.below(on.size())]=true;
    double scale = r.pick({1,1,2,4,8})/2.0;
    for(Op const& o : p.ops) for(size_t i=0;i<m.e.size();++i) {
        auto const& e=m.e[i]; if(!on[i] || !r.chance(e.p*scale)) continue;
        int n = r.chance(0.15)? 2 : 1;
        while(n--) p.inj.push_back(Inj{o.id,e.k,u32(r.chance(0.5)? r.below(std::min<u32>(e.maxn,4)) : r.logu(e.maxn)),r.chance(e.sticky)? 1 : 0});
    }
    p.cfg["faults"]=1;
}
void plan_schedule(Rng& r, Plan& p, int nt, double psw, u32 maxn) {
    double pend=r.pick({5,20,60})/100.0; psw*=r.pick({1,2,6})/2.0;
    for(Op const& o : p.ops) {
        if(r.chance(pend)) p.inj.push_back(Inj{o.id,K_OPEND,0,i64(r.below(u64(nt)))});
        while(r.chance(psw>0.9?0.9:psw)) { p.inj.push_back(Inj{o.id,K_SWITCH,u32(r.logu(maxn)),i64(r.below(u64(nt)))}); }
    }
}

// ---------------------------------------------------------------------------------------------- running a plan
static void run_op(Op const& o) {
    ThreadCtx& c=ctx(); c.op=&o; for(auto& n : c.cnt) n=0; for(auto& n : c.firedop) n=0; c.opsteps=0; c.opsig=0; c.fired=false; c.allocsticky=false;
    auto i=injmap->find(o.id); c.injs = i==injmap->end()? nullptr : &i->second;
    log(0x0B00+o.code); log(u64(c.id));
    ++shm->ops;
    if(verbose) { auto nm=H->op_names(); fprintf(stderr,"[t%d] op %u %s(%lld,%lld,%lld,%lld)\n",c.id,o.id,o.code<nm.size()?nm[o.code].c_str():"?",(long long)o.a[0],(long long)o.a[1],(long long)o.a[2],(long long)o.a[3]); }
    try { H->exec(o); }
    catch(std::exception const& e) { c.lib=false; fail("unexpected-exception","exception escaped an operation in which no fault explains it: %s",e.what()); }
    catch(...) { c.lib=false; fail("unexpected-exception","unknown exception escaped an operation"); }
    c.lib=false;
    if(nthreads>1) maybe_switch(K_OPEND);
    c.op=nullptr; c.injs=nullptr;
}
bool run_alone(std::vector<Op const*> const& ops, void (*exec)(Op const&, u64*), u64* out, size_t n) {
    u64* res=(u64*)mmap(nullptr,(n+1)*8,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); if(res==MAP_FAILED) return false;
    fflush(stdout); pid_t pid=fork();
    if(pid==0) {
        alone=true; prctl(PR_SET_PDEATHSIG,SIGKILL);
        for(Op const* o : ops) { ThreadCtx& c=ctx(); c.op=o; for(auto& k : c.cnt) k=0; c.opsteps=0; c.opsig=0; c.fired=false; c.allocsticky=false; auto i=injmap->find(o->id); c.injs= i==injmap->end()? nullptr : &i->second;
            try { exec(*o,res); } catch(...) { _exit(1); } c.lib=false; c.op=nullptr; c.injs=nullptr; }
        res[n]=1; _exit(0);
    }
    int st=0; while(pid>0 && waitpid(pid,&st,0)<0 && errno==EINTR) { }
    bool ok= pid>0 && res[n]==1; if(ok) for(size_t i=0;i<n;++i) out[i]=res[i];
    munmap(res,(n+1)*8); return ok;
}
void give_up(const char* why) { bool l=set_lib(false); (*probes)[why]+=1; (void)l; finish_shared(1); _exit(0); }
static void* thread_main(void* arg) {
    ThreadCtx* me=(ThreadCtx*)arg; tc=me;
    while(sem_wait(&me->sem)!=0) { }
    for(Op const& o : plan.ops) if(int(o.thr)%nthreads==me->id) run_op(o);
    me->done=true; vc_release(0xD00D+u64(me->id));
    int t=pick_runnable(me->id+1,me->id);
    if(t>=0) { current=t; ++nswitch; log(0xE000+u64(t)); sem_post(&threads[t]->sem); }
    else { bool all=true; for(int k=0;k<nthreads;++k) if(!threads[k]->done) all=false;
        if(!all) fail("deadlock","the remaining threads are blocked for ever");
        sem_post(&mainctx.sem); }
    while(sem_wait(&me->sem)!=0) { }      // parked until the process ends: no thread-local storage or stack is reused during the run
    return nullptr;
}
static void sig_handler(int s) {
    ThreadCtx& c=ctx();
    if(s==SIGXCPU) { c.lib=false; fail("no-progress","the run used up its processor time"); }
    c.lib=false; fail("crash","signal %d (%s)",s,s==SIGSEGV?"SIGSEGV":s==SIGABRT?"SIGABRT":s==SIGFPE?"SIGFPE":s==SIGBUS?"SIGBUS":"SIGILL");
}
static void term_handler() {
    const char* w="no active exception";
    if(std::type_info* t=abi::__cxa_current_exception_type()) w=t->name();
    fail("terminate","std::terminate called (%s)",w);
}
static char altstack[MAXT+1][65536];
static void set_altstack(int i) { stack_t ss; ss.ss_sp=altstack[i]; ss.ss_size=sizeof altstack[i]; ss.ss_flags=0; sigaltstack(&ss,nullptr); }
static void* thread_entry(void* a) { set_altstack(((ThreadCtx*)a)->id+1); return thread_main(a); }

[[noreturn]] static void child_run() {
    prctl(PR_SET_PDEATHSIG,SIGKILL);
    set_altstack(0);
    struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=sig_handler; sa.sa_flags=SA_ONSTACK|SA_NODEFER;
    for(int s : {SIGSEGV,SIGABRT,SIGFPE,SIGBUS,SIGILL,SIGXCPU}) sigaction(s,&sa,nullptr);
    rlimit rl{24,30}; setrlimit(RLIMIT_CPU,&rl); rlimit rc{0,0}; setrlimit(RLIMIT_CORE,&rc);
    std::set_terminate(term_handler);
    std::map<u32,bool> known; for(Op const& o : plan.ops) known[o.id]=true;
    for(Inj const& i : plan.inj) if(known.count(i.op)) (*injmap)[i.op].push_back(i);
    for(auto& s : H->ignored_classes()) ignored->insert(s);
    sim_steady=sim_start=plan.get("t0",1000000000); sim_wall=plan.get("w0",1700000000000000000ll); sim_tick=plan.get("tick",0);
    paintb=u8(plan.get("paint",0)); freshb=u8(plan.get("fresh",0xA5));
    nthreads=1; running=true;
    mainctx.id=0; threads[0]=&mainctx;
    H->setup(plan);
    int nt=int(plan.get("threads",1));
    if(nt<=1) { for(Op const& o : plan.ops) run_op(o); }
    else {
        if(nt>MAXT-1) nt=MAXT-1;
        // main thread is context 0 outside the scheduled phase; it is ordered before and after all threads
        static ThreadCtx tcs[MAXT]; sem_init(&mainctx.sem,0,0);
        for(int t=0;t<nt;++t) { tcs[t].id=t; sem_init(&tcs[t].sem,0,0); for(int k=0;k<MAXT;++k) tcs[t].vc[k]=0; tcs[t].vc[t]=1; threads[t]=&tcs[t]; }
        nthreads=nt; current=int(plan.get("first",0))%nt;
        for(int t=0;t<nt;++t) if(pthread_create(&tcs[t].pt,nullptr,thread_entry,&tcs[t])!=0) { finish_shared(3); _exit(0); }
        sem_post(&threads[current]->sem);
        while(sem_wait(&mainctx.sem)!=0) { }
        nthreads=1; threads[0]=&mainctx;
    }
    static Op fin; fin.id=0; fin.code=~0u; ThreadCtx& c=ctx(); c.op=nullptr; c.lib=false;
    try { H->finish(); } catch(std::exception const& e) { c.lib=false; fail("unexpected-exception","exception at the end of the run: %s",e.what()); }
    c.lib=false;
    heap_verify();
    if(elems->size()>statelems) SOFTFAIL("leak","%zu element(s) never destroyed",elems->size());
    if(H->leak_check()) leak_report();
    log(liveblocks); finish_shared(1); _exit(0);
}

static void write_plan(FILE* f) {
    fprintf(f,"seed %llu\n",(unsigned long long)plan.seed);
    for(auto& kv : plan.cfg) fprintf(f,"cfg %s %lld\n",kv.first.c_str(),(long long)kv.second);
    auto nm=H->op_names();
    for(Op const& o : plan.ops) fprintf(f,"op %u %u %s %lld %lld %lld %lld\n",o.id,o.thr,nm[o.code].c_str(),(long long)o.a[0],(long long)o.a[1],(long long)o.a[2],(long long)o.a[3]);
    for(Inj const& i : plan.inj) fprintf(f,"inj %u %s %u %lld\n",i.op,kind_name[i.kind],i.nth,(long long)i.arg);
}
static bool read_plan(const char* path) {
    std::ifstream is(path); if(!is) return false; std::string line; auto nm=H->op_names();
    while(std::getline(is,line)) {
        std::istringstream ls(line); std::string w; ls>>w;
        if(w=="seed") ls>>plan.seed;
        else if(w=="cfg") { std::string k; i64 v; ls>>k>>v; plan.cfg[k]=v; }
        else if(w=="op") { Op o; std::string n; ls>>o.id>>o.thr>>n>>o.a[0]>>o.a[1]>>o.a[2]>>o.a[3]; o.code=~0u; for(size_t i=0;i<nm.size();++i) if(nm[i]==n) o.code=u32(i); if(o.code==~0u) return false; plan.ops.push_back(o); }
        else if(w=="inj") { Inj i; std::string n; ls>>i.op>>n>>i.nth>>i.arg; i.kind=K_NKINDS; for(int k=0;k<K_NKINDS;++k) if(n==kind_name[k]) i.kind=u8(k); if(i.kind==K_NKINDS) return false; plan.inj.push_back(i); }
    }
    return true;
}
static void make_plan(u64 seed) {
    plan=Plan(); plan.seed=seed; Rng r(seed); H->plan(r,plan);
    if(!plan.cfg.count("paint")) { Rng q(seed^0x5157); plan.cfg["paint"]=q.pick({0,0xFF,'[',']','0','1','e',','}); plan.cfg["fresh"]=q.pick({0,0xA5,0xFF,1}); }
}

// one run in a fresh process; returns 0 ok, 1 violation, 2 error
static int spawn(bool from_seed, u64 seed) {
    memset((void*)shm,0,sizeof *shm);
    fflush(stdout); fflush(stderr);
    pid_t pid=fork();
    if(pid<0) { perror("fork"); return 2; }
    if(pid==0) { if(from_seed) make_plan(seed); child_run(); }
    // wall-clock guard only against a run that sleeps for ever outside the simulator
    timespec t0; clock_gettime(CLOCK_MONOTONIC,&t0); int st=0; unsigned spins=0;
    sigset_t ss; sigemptyset(&ss); sigaddset(&ss,SIGCHLD);
    for(;;) {
        pid_t r=waitpid(pid,&st,WNOHANG);
        if(r==pid) break;
        if(r<0 && errno!=EINTR) return 2;
        timespec w{0, 200000000}; sigtimedwait(&ss,nullptr,&w);
        timespec t1; clock_gettime(CLOCK_MONOTONIC,&t1);
        if(t1.tv_sec-t0.tv_sec>120) { kill(pid,SIGKILL); waitpid(pid,&st,0); snprintf(shm->msg,sizeof shm->msg,"run stuck outside the simulator"); return 2; }
        ++spins;
    }
    if(shm->status==1) return 0;
    if(shm->status==2) return 1;
    if(shm->status==0 && WIFSIGNALED(st)) {
        snprintf(shm->cls,sizeof shm->cls,"crash"); snprintf(shm->msg,sizeof shm->msg,"run killed by signal %d",WTERMSIG(st)); shm->status=2; return 1; }
    if(shm->status==0 && WIFEXITED(st)) { snprintf(shm->cls,sizeof shm->cls,"exit"); snprintf(shm->msg,sizeof shm->msg,"the run left through exit status %d",WEXITSTATUS(st)); shm->status=2; return 1; }
    return 2;
}
static std::string oneline(const char* s) { std::string r; for(;*s;++s) r+= (*s=='\n'||*s=='\r'||(unsigned char)*s<32)? ' ' : *s; return r; }

static int driver(int argc, char** argv) {
    if(!getenv("SIM_NOASLR")) { int pers=personality(0xffffffff); if(pers!=-1 && !(pers&ADDR_NO_RANDOMIZE) && personality(pers|ADDR_NO_RANDOMIZE)!=-1) { setenv("SIM_NOASLR","1",1); execv("/proc/self/exe",argv); } }
    H=make_harness();
    shm=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    heap_init();
    ignored=new std::set<std::string>(); probes=new std::map<std::string,u64>(); injmap=new std::unordered_map<u32,std::vector<Inj>>();
    syncs=new std::unordered_map<u64,VC>(); cells=new std::unordered_map<u64,Cell>(); elems=new std::unordered_set<u64>();
    // locale caches of the standard streams are created once per process: create them before any run
    { std::stringstream ss; ss<<1<<' '<<2u<<' '<<3.5<<' '<<true<<' '<<std::boolalpha<<false<<' '<<'c'<<' '<<std::size_t(7)<<' '<<-1ll<<' '<<(void*)0; int a; unsigned b; double c; std::string d; bool e=false; ss>>a>>b>>c>>d>>e; std::ostringstream os; os<<a<<b<<c<<d<<e; std::wstringstream ws; ws<<1; }
    H->warmup();
    sigset_t ss; sigemptyset(&ss); sigaddset(&ss,SIGCHLD); sigprocmask(SIG_BLOCK,&ss,nullptr);
    std::string mode= argc>1? argv[1] : "";
    if(mode=="--replay" && argc>=3) {
        if(argc>3 && std::string(argv[3])=="-v") verbose=true;
        if(!read_plan(argv[2])) { printf("RESULT error bad-replay-file\n"); return 2; }
        int r=spawn(false,0);
        printf("RESULT %s %s %016llx %llu | %s\n",r==0?"ok":r==1?"violation":"error",r==1?shm->cls:"-",(unsigned long long)shm->hash,(unsigned long long)shm->ops,oneline(shm->msg).c_str());
        return r;
    }
    if(mode=="--dump" && argc>=3) { make_plan(strtoull(argv[2],nullptr,10)); write_plan(stdout); return 0; }
    if(mode=="--hashes" && argc>=4) {
        u64 lo=strtoull(argv[2],nullptr,10), hi=strtoull(argv[3],nullptr,10);
        for(u64 s=lo;s<hi;++s) { int r=spawn(true,s); printf("%llu %d %016llx %s\n",(unsigned long long)s,r,(unsigned long long)shm->hash,r==1?shm->cls:"-"); }
        return 0;
    }
    if(mode=="--explore" && argc>=6) {   // lo hi time_limit_s hashfile [max_violations]
        u64 lo=strtoull(argv[2],nullptr,10), hi=strtoull(argv[3],nullptr,10); double tl=atof(argv[4]); FILE* hf=fopen(argv[5],"wb");
        int maxv=argc>6?atoi(argv[6]):3;
        timespec t0; clock_gettime(CLOCK_MONOTONIC,&t0);
        u64 runs=0, ops=0, steps=0, sw=0, yl=0, al=0, nofault=0; double st=0; u64 fk[K_NKINDS]={0}; std::map<std::string,u64> pr; int nv=0; u64 err=0;
        for(u64 s=lo;s<hi;++s) {
            int r=spawn(true,s);
            if(r==2) { ++err; printf("ERR %llu %s\n",(unsigned long long)s,oneline(shm->msg).c_str()); if(err>3) break; continue; }
            ++runs; ops+=shm->ops; steps+=shm->steps; sw+=shm->switches; yl+=shm->yields; al+=shm->allocs; st+=double(shm->simtime)/1e9;
            u64 f=0; for(int k=0;k<K_NKINDS;++k) { fk[k]+=shm->fired[k]; f+=shm->fired[k]; } if(f==0) ++nofault;
            for(u32 i=0;i<shm->nprobe;++i) pr[shm->pname[i]]+=shm->pcount[i];
            u64 rec[2]={shm->hash, f? 1ull:0ull}; if(hf) fwrite(rec,sizeof rec,1,hf);
            if(r==1) { printf("VIOL %llu %s %016llx | %s\n",(unsigned long long)s,shm->cls,(unsigned long long)shm->hash,oneline(shm->msg).c_str()); fflush(stdout); if(++nv>=maxv) break; }
            timespec t1; clock_gettime(CLOCK_MONOTONIC,&t1); if(double(t1.tv_sec-t0.tv_sec)>tl) break;
        }
        if(hf) fclose(hf);
        printf("STAT runs %llu\nSTAT ops %llu\nSTAT steps %llu\nSTAT switches %llu\nSTAT yields %llu\nSTAT allocs %llu\nSTAT simtime %.6f\nSTAT nofault %llu\nSTAT errors %llu\n",(unsigned long long)runs,(unsigned long long)ops,(unsigned long long)steps,(unsigned long long)sw,(unsigned long long)yl,(unsigned long long)al,st,(unsigned long long)nofault,(unsigned long long)err);
        for(int k=0;k<K_NKINDS;++k) printf("FIRED %s %llu\n",kind_name[k],(unsigned long long)fk[k]);
        for(auto& kv : pr) printf("PROBE %s %llu\n",kv.first.c_str(),(unsigned long long)kv.second);
        printf("DONE\n");
        return 0;
    }
    fprintf(stderr,"usage: %s --explore lo hi secs hashfile | --replay file [-v] | --dump seed | --hashes lo hi\n",argv[0]);
    return 64;
}

} // namespace sim

using namespace sim;

int main(int argc, char** argv) { return sim::driver(argc,argv); }

// ---------------------------------------------------------------------------------------------- operator new/delete
static void* sim_new(size_t n, size_t al, u8 kind, bool nothrow) {
    ThreadCtx& c=ctx();
    if(c.lib && running) { bool oom; void* p=heap_alloc(n,al,kind,oom); if(oom) { if(nothrow) return nullptr; throw std::bad_alloc(); } return p; }
    void* p= al>16? aligned_alloc(al,(n+al-1)/al*al) : malloc(n?n:1); if(!p) { if(nothrow) return nullptr; throw std::bad_alloc(); } return p;
}
static void sim_delete(void* p, u8 kind, void* pc, size_t n=size_t(-1)) { if(!p) return; if(heap_contains(p)) heap_free(p,kind,pc,n); else free(p); }
#define PC __builtin_return_address(0)
void* operator new(size_t n) { return sim_new(n,16,0,false); }
void* operator new[](size_t n) { return sim_new(n,16,1,false); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return sim_new(n,16,0,true); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return sim_new(n,16,1,true); }
void* operator new(size_t n, std::align_val_t a) { return sim_new(n,size_t(a),4,false); }
void* operator new[](size_t n, std::align_val_t a) { return sim_new(n,size_t(a),5,false); }
void* operator new(size_t n, std::align_val_t a, std::nothrow_t const&) noexcept { return sim_new(n,size_t(a),4,true); }
void* operator new[](size_t n, std::align_val_t a, std::nothrow_t const&) noexcept { return sim_new(n,size_t(a),5,true); }
void operator delete(void* p) noexcept { sim_delete(p,0,PC); }
void operator delete[](void* p) noexcept { sim_delete(p,1,PC); }
void operator delete(void* p, size_t n) noexcept { sim_delete(p,0,PC,n); }
void operator delete[](void* p, size_t) noexcept { sim_delete(p,1,PC); }
void operator delete(void* p, std::nothrow_t const&) noexcept { sim_delete(p,0,PC); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { sim_delete(p,1,PC); }
void operator delete(void* p, std::align_val_t) noexcept { sim_delete(p,4,PC); }
void operator delete[](void* p, std::align_val_t) noexcept { sim_delete(p,5,PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { sim_delete(p,4,PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { sim_delete(p,5,PC); }
void operator delete(void* p, std::align_val_t, std::nothrow_t const&) noexcept { sim_delete(p,4,PC); }
void operator delete[](void* p, std::align_val_t, std::nothrow_t const&) noexcept { sim_delete(p,5,PC); }

// ---------------------------------------------------------------------------------------------- clock and entropy seams
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { clock_read(); return time_point(duration(running? sim_wall : 1700000000000000000ll)); }
steady_clock::time_point steady_clock::now() noexcept { clock_read(); return time_point(duration(running? sim_steady : 1000000000ll)); }
} } }
namespace std {
void random_device::_M_init(const std::string&) { if(running && ctx().lib) { bool l=set_lib(false); bool f=inject(K_ENTROPY); set_lib(l); if(f) throw std::runtime_error("simulated entropy failure"); } }
void random_device::_M_fini() { }
random_device::result_type random_device::_M_getval() { bool l=set_lib(false); bool f=running && inject(K_ENTROPY); u32 v=0; if(!f) { if(running) v=entropy_next(); else { const char* b=getenv("SIM_BOOT"); v=b? u32(strtoul(b,nullptr,10)*2654435761u) : 1u; } } set_lib(l); if(f) throw std::runtime_error("simulated entropy failure"); return v; }
}
extern "C" {
// C-level clocks: in the library's code they show simulated time too
static int (*real_cg)(clockid_t, timespec*) = nullptr;
int clock_gettime(clockid_t id, timespec* ts) noexcept {
    if(running && tc ? tc->lib : (running && mainctx.lib)) { clock_read(); i64 v= (id==CLOCK_REALTIME||id==CLOCK_REALTIME_COARSE)? sim_wall : sim_steady; ts->tv_sec=v/1000000000; ts->tv_nsec=v%1000000000; return 0; }
    if(!real_cg) real_cg=(int(*)(clockid_t,timespec*))dlsym(RTLD_NEXT,"clock_gettime");
    return real_cg(id,ts);
}
time_t time(time_t* t) noexcept { time_t v; if(running && ctx().lib) { clock_read(); v=sim_wall/1000000000; } else { timespec ts; clock_gettime(CLOCK_REALTIME,&ts); v=ts.tv_sec; } if(t) *t=v; return v; }
int gettimeofday(struct timeval* tv, void*) noexcept { timespec ts; clock_gettime(CLOCK_REALTIME,&ts); tv->tv_sec=ts.tv_sec; tv->tv_usec=ts.tv_nsec/1000; return 0; }
clock_t clock() noexcept { return (running && ctx().lib)? (clock_read(), clock_t(sim_steady/1000)) : 0; }

// ---------------------------------------------------------------------------------------------- locks and one-time initialisation
static int sim_lock(void* m, int (*trylock)(void*)) {
    ThreadCtx& c=ctx(); bool l=c.lib; c.lib=false;
    if(nthreads>1) maybe_switch(K_SWITCH);
    int r; while((r=trylock(m))==EBUSY) block_on(m);
    if(r==0) vc_acquire(u64(m)>>3);
    c.lib=l; return r;
}
static void sim_unlocked(void* m) { unblock(m); }
#define REAL(name,type) static type real_##name=nullptr; if(!real_##name) real_##name=(type)dlsym(RTLD_NEXT,#name);
typedef int (*mfn)(void*);
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { REAL(pthread_mutex_trylock,mfn) int r=real_pthread_mutex_trylock(m); if(running && ctx().lib) { bool l=set_lib(false); if(r==0) vc_acquire(u64(m)>>3); else spin_point(300); set_lib(l); } return r; }
int sched_yield() noexcept { if(running && ctx().lib) { bool l=set_lib(false); spin_point(1500); set_lib(l); } return 0; }
static void sim_sleep(timespec const* ts) { bool l=set_lib(false); advance(i64(ts->tv_sec)*1000000000+ts->tv_nsec); spin_point(1500); set_lib(l); }
int nanosleep(timespec const* ts, timespec* rem) { typedef int (*sfn)(timespec const*,timespec*); REAL(nanosleep,sfn) if(!(running && ctx().lib)) return real_nanosleep(ts,rem); sim_sleep(ts); return 0; }
int clock_nanosleep(clockid_t id, int fl, timespec const* ts, timespec* rem) { typedef int (*sfn)(clockid_t,int,timespec const*,timespec*); REAL(clock_nanosleep,sfn) if(!(running && ctx().lib)) return real_clock_nanosleep(id,fl,ts,rem); timespec d=*ts; if(fl) { i64 t=i64(ts->tv_sec)*1000000000+ts->tv_nsec-(id==CLOCK_REALTIME? sim_wall : sim_steady); if(t<0) t=0; d.tv_sec=t/1000000000; d.tv_nsec=t%1000000000; } sim_sleep(&d); return 0; }
int usleep(unsigned us) { timespec d{us/1000000,long(us%1000000)*1000}; return nanosleep(&d,nullptr); }
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { REAL(pthread_mutex_lock,mfn) REAL(pthread_mutex_trylock,mfn)
    if(running && ctx().lib) return sim_lock(m,real_pthread_mutex_trylock); return real_pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { REAL(pthread_mutex_unlock,mfn)
    if(running && ctx().lib) { vc_release(u64(m)>>3); int r=real_pthread_mutex_unlock(m); sim_unlocked(m); return r; } return real_pthread_mutex_unlock(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { REAL(pthread_rwlock_wrlock,mfn) REAL(pthread_rwlock_trywrlock,mfn)
    if(running && ctx().lib) return sim_lock(m,real_pthread_rwlock_trywrlock); return real_pthread_rwlock_wrlock(m); }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { REAL(pthread_rwlock_rdlock,mfn) REAL(pthread_rwlock_tryrdlock,mfn)
    if(running && ctx().lib) return sim_lock(m,real_pthread_rwlock_tryrdlock); return real_pthread_rwlock_rdlock(m); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept { REAL(pthread_rwlock_unlock,mfn)
    if(running && ctx().lib) { vc_release(u64(m)>>3); int r=real_pthread_rwlock_unlock(m); sim_unlocked(m); return r; } return real_pthread_rwlock_unlock(m); }
static std::unordered_map<void*,int>* onces=nullptr;
int pthread_once(pthread_once_t* o, void (*f)(void)) {
    typedef int (*ofn)(pthread_once_t*,void(*)(void)); REAL(pthread_once,ofn)
    if(!(running && ctx().lib)) return real_pthread_once(o,f);
    bool l=set_lib(false); if(!onces) onces=new std::unordered_map<void*,int>();
    if(*o==2) { vc_acquire(u64(o)>>3); set_lib(l); return 0; }     // completed before the run by the real one
    while((*onces)[o]==1) block_on(o);
    if((*onces)[o]==2) { vc_acquire(u64(o)>>3); set_lib(l); return 0; }
    (*onces)[o]=1; set_lib(l);
    try { f(); } catch(...) { bool q=set_lib(false); (*onces)[o]=0; unblock(o); set_lib(q); throw; }
    bool q=set_lib(false); (*onces)[o]=2; vc_release(u64(o)>>3); unblock(o); set_lib(q); return 0;
}
// The memory of an exception object comes from outside the simulated heap: whoever throws next uses it anew.
void* __cxa_allocate_exception(size_t n) noexcept {
    typedef void* (*afn)(size_t); static afn real=nullptr; if(!real) real=(afn)dlsym(RTLD_NEXT,"__cxa_allocate_exception"); void* p=real(n);
    if(running && nthreads>1) { bool l=set_lib(false); for(u64 g=u64(p)>>3; g<=(u64(p)+n)>>3; ++g) cells->erase(g); set_lib(l); }
    return p; }
// Itanium ABI guards: byte 0 = initialised, byte 1 = in progress
int __cxa_guard_acquire(abi::__guard* g) {
    u8* b=(u8*)g; bool sim=running && ctx().lib; bool l=set_lib(false);
    if(sim && nthreads>1) maybe_switch(K_SWITCH);
    while(b[1]) { if(!sim) { set_lib(l); return 0; } block_on(g); }
    if(b[0]) { if(sim) vc_acquire(u64(g)>>3); set_lib(l); return 0; }
    b[1]=1; if(sim) ++ctx().statics; set_lib(l); return 1;
}
void __cxa_guard_release(abi::__guard* g) noexcept { u8* b=(u8*)g; bool l=set_lib(false); b[1]=0; b[0]=1; if(ctx().statics>0) --ctx().statics; if(running) { vc_release(u64(g)>>3); unblock(g); } set_lib(l); }
void __cxa_guard_abort(abi::__guard* g) noexcept { u8* b=(u8*)g; bool l=set_lib(false); b[1]=0; if(ctx().statics>0) --ctx().statics; if(running) unblock(g); set_lib(l); }

// ---------------------------------------------------------------------------------------------- memory access hooks (-fsanitize=thread ABI)
void __tsan_init() { }
void __tsan_func_entry(void*) { }
void __tsan_func_exit() { }
#define RW(n) \
  void __tsan_read##n(void* a) { on_access(a,n,false,false,PC); } \
  void __tsan_write##n(void* a) { on_access(a,n,true,false,PC); } \
  void __tsan_unaligned_read##n(void* a) { on_access(a,n,false,false,PC); } \
  void __tsan_unaligned_write##n(void* a) { on_access(a,n,true,false,PC); } \
  void __tsan_volatile_read##n(void* a) { on_access(a,n,false,false,PC); } \
  void __tsan_volatile_write##n(void* a) { on_access(a,n,true,false,PC); } \
  void __tsan_unaligned_volatile_read##n(void* a) { on_access(a,n,false,false,PC); } \
  void __tsan_unaligned_volatile_write##n(void* a) { on_access(a,n,true,false,PC); } \
  void __tsan_read_write##n(void* a) { on_access(a,n,true,false,PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { if(n) on_access(a,n,false,false,PC); }
void __tsan_write_range(void* a, size_t n) { if(n) on_access(a,n,true,false,PC); }
void __tsan_vptr_update(void** a, void* v) { if(*a!=v) on_access(a,8,true,false,PC); }   // as in ThreadSanitizer: rewriting the same value is no write
void __tsan_vptr_read(void** a) { on_access(a,8,false,false,PC); }
void __tsan_mutex_create(void*,unsigned) { }
void __tsan_mutex_destroy(void*,unsigned) { }
void __tsan_mutex_pre_lock(void*,unsigned) { }
void __tsan_mutex_post_lock(void* m,unsigned,int) { vc_acquire(u64(m)>>3); }
int  __tsan_mutex_pre_unlock(void* m,unsigned) { vc_release(u64(m)>>3); return 0; }
void __tsan_mutex_post_unlock(void*,unsigned) { }
void __tsan_acquire(void* m) { vc_acquire(u64(m)>>3); }
void __tsan_release(void* m) { vc_release(u64(m)>>3); }

// Synchronisation follows the memory orders given (C++20: a store of another kind ends a release sequence, read-modify-writes continue it);
// values are sequentially consistent.
static inline bool acq(int mo) { return mo==__ATOMIC_ACQUIRE||mo==__ATOMIC_CONSUME||mo==__ATOMIC_ACQ_REL||mo==__ATOMIC_SEQ_CST; }
static inline bool rel(int mo) { return mo==__ATOMIC_RELEASE||mo==__ATOMIC_ACQ_REL||mo==__ATOMIC_SEQ_CST; }
static void at_load(ThreadCtx& c, u64 key, int mo) { auto i=syncs->find(key); if(i==syncs->end()) return; u32* d=acq(mo)? c.vc : c.seen; for(int t=0;t<MAXT;++t) if(d[t]<i->second.v[t]) d[t]=i->second.v[t]; }
// keep: what was released there before stays so (a read-modify-write, or the granule may hold another atomic object)
static void at_store(ThreadCtx& c, u64 key, int mo, bool keep) { VC& x=(*syncs)[key]; u32 const* f=rel(mo)? c.vc : c.fence; for(int t=0;t<MAXT;++t) x.v[t]= keep? std::max(x.v[t],f[t]) : f[t]; if(rel(mo)) ++c.vc[c.id]; }
static inline void at_pre(volatile void* a, u64 n, bool w, void* pc) { on_access((void const*)a,n,w,true,pc); ThreadCtx& c=ctx(); if(c.lib && nthreads>1) { c.lib=false; spin_point(1); c.lib=true; } }
static inline void at_post(volatile void* a, u64 n, bool ld, bool st, int mo) { ThreadCtx& c=ctx(); if(c.lib && nthreads>1) { c.lib=false; if(ld) at_load(c,u64(a)>>3,mo); if(st) at_store(c,u64(a)>>3,mo,ld||n<8); c.lib=true; } }
static void at_fence(int mo) { ThreadCtx& c=ctx(); if(!c.lib || nthreads<2) return; c.lib=false; maybe_switch(K_SWITCH); if(acq(mo)) for(int t=0;t<MAXT;++t) c.vc[t]=std::max(c.vc[t],c.seen[t]); if(rel(mo)) { for(int t=0;t<MAXT;++t) c.fence[t]=c.vc[t]; ++c.vc[c.id]; } c.lib=true; }
#define RMW_(bits,T,name,op) T __tsan_atomic##bits##_##name(volatile T* a, T v, int mo) { at_pre(a,bits/8,true,PC); T r=op(a,v,__ATOMIC_SEQ_CST); at_post(a,bits/8,true,true,mo); return r; }
#define CAS_(bits,T,name) int __tsan_atomic##bits##_compare_exchange_##name(volatile T* a, T* e, T v, int mo, int fmo) { at_pre(a,bits/8,true,PC); int r=__atomic_compare_exchange_n(a,e,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); at_post(a,bits/8,true,r,r? mo : fmo); return r; }
#define ATOMICS(bits,T) \
  T __tsan_atomic##bits##_load(const volatile T* a, int mo) { at_pre((volatile void*)a,bits/8,false,PC); T r=__atomic_load_n(a,__ATOMIC_SEQ_CST); at_post((volatile void*)a,bits/8,true,false,mo); return r; } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { at_pre(a,bits/8,true,PC); __atomic_store_n(a,v,__ATOMIC_SEQ_CST); at_post(a,bits/8,false,true,mo); } \
  RMW_(bits,T,exchange,__atomic_exchange_n) RMW_(bits,T,fetch_add,__atomic_fetch_add) RMW_(bits,T,fetch_sub,__atomic_fetch_sub) RMW_(bits,T,fetch_and,__atomic_fetch_and) RMW_(bits,T,fetch_or,__atomic_fetch_or) RMW_(bits,T,fetch_xor,__atomic_fetch_xor) RMW_(bits,T,fetch_nand,__atomic_fetch_nand) \
  CAS_(bits,T,strong) CAS_(bits,T,weak) \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) { at_pre(a,bits/8,true,PC); bool r=__atomic_compare_exchange_n(a,&e,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); at_post(a,bits/8,true,r,r? mo : fmo); return e; }
ATOMICS(8,unsigned char) ATOMICS(16,unsigned short) ATOMICS(32,unsigned int) ATOMICS(64,unsigned long)
void __tsan_atomic_thread_fence(int mo) { at_fence(mo); }
void __tsan_atomic_signal_fence(int) { }

// block operations called from instrumented code
void* __wrap_memcpy(void* d, void const* s, size_t n) { if(n) { on_access(s,n,false,false,PC); on_access(d,n,true,false,PC); } return __real_memcpy(d,s,n); }
void* __wrap_memmove(void* d, void const* s, size_t n) { if(n) { on_access(s,n,false,false,PC); on_access(d,n,true,false,PC); } return __real_memmove(d,s,n); }
void* __wrap_memset(void* d, int v, size_t n) { if(n) on_access(d,n,true,false,PC); return __real_memset(d,v,n); }
int __wrap_memcmp(void const* d, void const* s, size_t n) { if(n) { on_access(s,n,false,false,PC); on_access(d,n,false,false,PC); } return __real_memcmp(d,s,n); }
} // extern "C"
