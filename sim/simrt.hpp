// Deterministic simulation runtime: plan (operations + injected faults + schedule switches), simulated heap,
// scheduler, clocks, entropy, memory-access monitor.  See DESIGN.md, "The simulator".
#ifndef SIMRT_HPP
#define SIMRT_HPP

#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <stdexcept>
#include <string>
#include <vector>
#include <map>

#define SIM_NOINSTR __attribute__((no_sanitize("thread")))

namespace sim {

using i64 = std::int64_t;
using u64 = std::uint64_t;
using u32 = std::uint32_t;
using u8  = unsigned char;

//! Fault and scheduling kinds.  Every kind is an opportunity counter per operation; an injection names (op, kind, nth).
enum Kind : u8 {
    K_ALLOC,      // operator new fails (arg 1: every later one in this operation fails too)
    K_CTOR,       // element construction (value, default or copy) throws
    K_ASSIGN,     // element assignment throws
    K_CMP,        // element comparison throws
    K_CALL,       // user callback (generator, function, clone) throws
    K_READERR,    // input stream buffer throws (device error)
    K_EOF,        // input ends early
    K_WRITEERR,   // sink rejects (short write), arg: bytes still accepted of this write
    K_WRITETHROW, // sink throws
    K_SWITCH,     // scheduler switches to thread arg at a memory access
    K_OPEND,      // scheduler switches to thread arg after the operation
    K_ENTROPY,    // entropy source throws
    K_CLOCKJUMP,  // wall clock jumps by arg ns at a clock reading
    K_STALL,      // the caller is stalled for arg ns at a clock reading
    K_MALLOC,     // malloc-family failure inside a C library service (symbolisation, demangling)
    K_NOSYM,      // symbol lookup fails or has no name
    K_NKINDS
};
extern const char* const kind_name[K_NKINDS];

struct Op  { u32 id=0; u32 thr=0; u32 code=0; i64 a[4]={0,0,0,0}; };
struct Inj { u32 op=0; u8 kind=0; u32 nth=0; i64 arg=0; };

struct Rng {
    u64 s;
    explicit Rng(u64 seed) : s(seed*0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
    u64 next() { u64 z=(s+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
    u64 below(u64 n) { return n? next()%n : 0; }
    i64 range(i64 lo, i64 hi) { return lo + i64(below(u64(hi-lo)+1)); }
    bool chance(double p) { return double(next()>>11) * (1.0/9007199254740992.0) < p; }
    u64 logu(u64 n) { int b=0; while((n>>b)!=0) ++b; u64 k=below(u64(b)+1); u64 lo = k? (1ull<<(k-1)) : 0; u64 hi = 1ull<<k; u64 v=lo+below(hi-lo); return v<n? v : (n? n-1:0); }
    i64 pick(std::initializer_list<i64> l) { return *(l.begin()+below(l.size())); }
};

struct Plan {
    u64 seed=0;
    std::map<std::string,i64> cfg;
    std::vector<Op> ops;
    std::vector<Inj> inj;
    i64 get(const char* k, i64 dflt=0) const { auto i=cfg.find(k); return i==cfg.end()? dflt : i->second; }
    Op& add(u32 thr, u32 code, i64 a=0, i64 b=0, i64 c=0, i64 d=0) {
        Op o; o.id=u32(ops.size())+1; o.thr=thr; o.code=code; o.a[0]=a; o.a[1]=b; o.a[2]=c; o.a[3]=d; ops.push_back(o); return ops.back(); }
};

//! What a check provides.  plan() makes the whole workload and fault plan from the PRNG; execution draws nothing.
struct Harness {
    virtual ~Harness() = default;
    virtual const char* property() const = 0;
    virtual std::vector<std::string> op_names() const = 0;
    virtual std::vector<std::string> ignored_classes() const { return {}; }
    virtual void warmup() { }
    virtual void plan(Rng&, Plan&) = 0;
    virtual void setup(Plan const&) = 0;
    virtual void exec(Op const&) = 0;
    virtual void finish() = 0;       // destroy everything, final history checks; leak check follows
    virtual bool leak_check() const { return true; }
};
Harness* make_harness();            // defined by each check

//! Standard fault planning: adds injections to each operation of the plan.
struct FaultMix { struct E { Kind k; double p; u32 maxn; double sticky; }; std::vector<E> e; };
void plan_faults(Rng&, Plan&, FaultMix const&, double quiet_runs=0.15);
void plan_schedule(Rng&, Plan&, int nthreads, double pswitch, u32 maxn);

// --- execution-time services --------------------------------------------------------------------------------
bool set_lib(bool on);               // returns the previous mode
//! Code of the library under test runs inside Lib; harness callbacks reached from it run inside Harn.
struct Lib  { bool p; SIM_NOINSTR Lib(); SIM_NOINSTR ~Lib(); };
struct Harn { bool p; SIM_NOINSTR Harn(); SIM_NOINSTR ~Harn(); };
bool in_lib();
struct Quiet { SIM_NOINSTR Quiet(); SIM_NOINSTR ~Quiet(); };   // no fault is injected inside (observing the state); switches still happen

bool inject(Kind k, i64* arg=nullptr);   // an opportunity for fault k in the current operation: does it fire?
u64  op_signature();                     // of the fault points the current operation passed: two executions that differ in it are not comparable once a fault fires
bool fired_in_op();                      // did any fault (not a schedule switch) fire in the current operation?
u64  fired_total(Kind k);
u64  fired_here(Kind k);                 // in the current operation of the calling thread
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf,2,3)));
//! Runs operations by themselves, without scheduling but with their own faults, in a forked copy of the process; exec puts results into n words.
bool run_alone(std::vector<Op const*> const& ops, void (*exec)(Op const&, u64*), u64* out, size_t n);
[[noreturn]] void give_up(const char* why);   // ends the run: what it shows says nothing about the property
void log(u64 v);                         // event log (hashed)
void logs(const char* s);
void log_str(std::string const& s);
void probe(const char* name, u64 n=1);   // coverage probe (static string)
void progress();                            // one harness operation that makes many calls: the step budget starts again
void ignore(const char* cls);
int  self();                             // simulated thread
void yield();                            // explicit scheduling point

struct SimFault : std::exception { const char* w; explicit SimFault(const char* s) : w(s) { } const char* what() const noexcept override { return w; } };

// element registry
void elem_ctor(void const*, bool may_throw);   // registers; injects K_CTOR first if may_throw
void elem_use(void const*, const char* how);   // must be live
void elem_dtor(void const*);
void elem_assign(void* dst, void const* src);  // both live; injects K_ASSIGN
void elem_compare(void const* a, void const* b); // both live; injects K_CMP
bool elem_is_live(void const*);
void callback_point();                         // a user callback runs: injects K_CALL
u64  elem_live();
u64  elem_constructed();

// heap
u64  heap_live_blocks();
u64  heap_allocs();                // allocations of the library so far
u64  heap_allocs_here();           // those by the calling thread
u64  heap_live_bytes();
bool heap_contains(void const*);
bool heap_is_live(void const*);

void* c_malloc(size_t);            // the C allocator of the library's code, for link-time seams (injects K_MALLOC)
void  c_free(void*);

// clocks (nanoseconds)
i64  steady_ns();                 // simulated monotonic time (no tick)
i64  wall_ns();
void advance(i64 ns);
void wall_jump(i64 ns);
void clock_tick(i64 per_reading);
void clock_mode(bool frozen);
u64  clock_readings();

// entropy
void entropy_mode(int mode, u64 value);   // 0: PRNG stream from value, 1: stuck at value
u64  entropy_readings();

void paint(u8 b);                 // fills the stack below the caller

} // namespace sim

#endif
