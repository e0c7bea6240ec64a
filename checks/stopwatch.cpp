// C11: Stopwatch.
#include "stopwatch.hpp"
#include "elem.hpp"
#include <memory>
#include <cmath>
using namespace sim;
using Helper::Stopwatch;
namespace {
enum Code { MAKE, CLICK, RESTART, READ, PASS, JUMP, COPY, ASSIGN, CHAIN, SECONDS, CLICKS, NCODES };
static const int NS=5;
struct Watch { virtual ~Watch() = default; virtual void click() = 0; virtual void restart() = 0; virtual void chain() = 0; virtual void check(const char*) = 0; virtual Watch* copy() const = 0; virtual void assign(Watch const&) = 0; virtual int kind() const = 0; };
template<class D,int K> struct W : Watch {
    std::unique_ptr<Stopwatch<D>> w; i64 i0=0,i1=0,c0=0,c1=0; bool fresh=true;   // reading times are within [x0,x1] of real (steady) time
    W() { i0=steady_ns(); Lib l; w.reset(new Stopwatch<D>()); Harn h; i1=steady_ns(); }
    W(W const& o) : i0(o.i0),i1(o.i1),c0(o.c0),c1(o.c1),fresh(o.fresh) { Lib l; w.reset(new Stopwatch<D>(*o.w)); }
    ~W() { Lib l; w.reset(); }
    void click() override { c0=steady_ns(); { Lib l; w->click(); } c1=steady_ns(); fresh=false; }
    void restart() override { i0=steady_ns(); { Lib l; w->restart(); } i1=steady_ns(); fresh=true; }
    void chain() override { i0=steady_ns(); i64 m=0; (void)m; { Lib l; w->restart().click(); } i1=steady_ns(); c0=i0; c1=i1; fresh=false; chained=true; }
    bool chained=false;
    Watch* copy() const override { return new W(*this); }
    void assign(Watch const& o) override { W const& x=dynamic_cast<W const&>(o); { Lib l; *w=*x.w; } i0=x.i0; i1=x.i1; c0=x.c0; c1=x.c1; fresh=x.fresh; }
    int kind() const override { return K; }
    void check(const char* when) override {
        u64 rd=clock_readings(); D d; double s; { Lib l; d=w->duration(); s=w->elapsed_seconds(); } (void)rd;
        long double unit=(long double)D::period::num/(long double)D::period::den; // seconds per count
        long double exact=(long double)d.count()*unit;
        if(!(s<=exact+1e-9L*fabsl(exact)+1e-12L && s>=exact-1e-9L*fabsl(exact)-1e-12L)) fail("value","%s: elapsed_seconds() is %.12g, the duration is %.12Lg s",when,s,exact);
        if(d.count()<0) fail("value","%s: the duration is negative (%.9Lg s)",when,exact);
        if(fresh) { if(d.count()!=0) fail("value","%s: the duration is %.9Lg s before the first click",when,exact); return; }
        i64 lo=c0-i1, hi=c1-i0; if(lo<0) lo=0;
        if constexpr(std::is_floating_point_v<typename D::rep>) { long double l=lo*1e-9L, h=hi*1e-9L; if(exact<l-1e-9L-1e-12L*l || exact>h+1e-9L+1e-12L*h) fail("value","%s: the duration is %.9Lg s, the true elapsed time %.9Lg s",when,exact,h); }
        else { D l=std::chrono::duration_cast<D>(std::chrono::nanoseconds(lo)), h=std::chrono::duration_cast<D>(std::chrono::nanoseconds(hi)); if(d<l||d>h) fail("value","%s: the duration is %lld units, the true elapsed time %lld ns to %lld ns",when,(long long)d.count(),(long long)lo,(long long)hi); }
        log(u64(i64(exact*1e9L)));
    }
};
struct H11 : Harness {
    std::unique_ptr<Watch> w[NS];
    const char* property() const override { return CHECK_ID; }
    std::vector<std::string> ignored_classes() const override { return {"leak"}; }    // not what this property is about
    std::vector<std::string> op_names() const override { return {"make","click","restart","read","pass","jump","copy","assign","chain","seconds","clicks"}; }
    static Watch* make(int k) { switch(k) { case 0: return new W<Helper::Seconds,0>(); case 1: return new W<Helper::Milliseconds,1>(); case 2: return new W<Helper::Microseconds,2>(); case 3: return new W<std::chrono::nanoseconds,3>(); case 4: return new W<std::chrono::duration<double>,4>(); default: return new W<std::chrono::minutes,5>(); } }
    static i64 span(Rng& r) { switch(r.below(9)) { case 0: return r.range(0,999); case 1: return r.range(0,999999); case 2: return r.range(0,999999999); case 3: return r.range(0,10)*1000000000ll; case 4: return r.range(1,100)*60000000000ll; case 5: return r.range(1,60)*86400000000000ll; case 6: return r.range(1,20)*31557600000000000ll/4; case 7: return 4294967296ll*r.range(1,1000)+r.range(-3,3); default: return r.range(1,3)*1000000000ll-r.range(0,1); } }
    void plan(Rng& r, Plan& p) override {
        int nops=int(r.pick({5,10,20,40,80})); int slots=int(r.range(1,NS)); p.cfg["tick"]=r.pick({0,0,1,50,1000,700000}); p.cfg["w0"]=r.pick({1700000000000000000ll,0ll,-5000000000ll,4000000000000000000ll}); p.cfg["t0"]=r.pick({1000000000ll,5ll,86400000000000ll*400});
        for(int i=0;i<nops;++i) { u32 c= i<slots? u32(MAKE) : u32(r.pick({CLICK,CLICK,CLICK,RESTART,READ,PASS,PASS,PASS,PASS,JUMP,JUMP,COPY,ASSIGN,CHAIN,MAKE})); p.add(0,c, i<slots? i : r.range(0,slots-1),r.range(0,slots-1), c==JUMP? (r.chance(0.5)? span(r) : -span(r)) : span(r), r.range(0,5)); }
        if(r.chance(0.01)) { p.add(0,CLICKS,r.range(0,slots-1),r.range(1,100000),r.chance(0.3)? r.range(65000,70000) : r.range(200,6000),r.range(0,5)); p.add(0,PASS,0,0,span(r),0); p.add(0,CLICK,r.range(0,slots-1),0,0,0); }
        if(r.chance(0.15)) { p.cfg["faults"]=0; return; }
        for(Op const& o : p.ops) { if(r.chance(0.25)) { i64 a=span(r); p.inj.push_back(Inj{o.id,K_CLOCKJUMP,u32(r.below(2)),r.chance(0.5)? a : -a}); } if(r.chance(0.12)) p.inj.push_back(Inj{o.id,K_STALL,u32(r.below(2)),span(r)%400000000000ll}); }
    }
    void setup(Plan const&) override { }
    // keeps simulated clocks inside the range of the real ones
    static void pass(i64 ns) { if(steady_ns()+ns<6000000000000000000ll && wall_ns()+ns<8000000000000000000ll) advance(ns); }
    void exec(Op const& o) override {
        int s=int(u64(o.a[0])%NS), q=int(u64(o.a[1])%NS);
        switch(o.code) {
        case MAKE: w[s].reset(make(int(u64(o.a[3])%6))); break;
        case CLICK: if(w[s]) w[s]->click(); break;
        case RESTART: if(w[s]) { w[s]->restart(); probe("restarted"); } break;
        case READ: break;
        case PASS: pass(o.a[2]<0? -o.a[2] : o.a[2]); break;
        case JUMP: if(wall_ns()+o.a[2]>-4000000000000000000ll && wall_ns()+o.a[2]<8000000000000000000ll) { wall_jump(o.a[2]); probe(o.a[2]<0? "wall_jump_back":"wall_jump_forward"); } break;
        case COPY: if(w[q] && q!=s) w[s].reset(w[q]->copy()); break;
        case ASSIGN: if(w[s] && w[q] && w[s]->kind()==w[q]->kind()) w[s]->assign(*w[q]); break;
        case CLICKS: if(w[s]) { for(i64 i=0;i<o.a[2];++i) { if(i%1000==7) pass(1000000+i); if(i==o.a[2]-1) pass(o.a[1]*1000003); if(o.a[3]%3==2 && i%5==3) w[s]->restart(); else w[s]->click(); if(o.a[3]<4) { pass(o.a[1]+60000000000ll*(i%2)); w[s]->check("after one of many clicks"); } } w[s]->click(); probe("clicked_often"); } break;
        case CHAIN: if(w[s]) w[s]->chain(); break;
        }
        for(int k=0;k<NS;++k) if(w[k]) w[k]->check("after an operation");
        for(int k=0;k<NS;++k) if(w[k]) w[k]->check("on reading again");
    }
    void finish() override { for(auto& x : w) x.reset(); }
};
}
sim::Harness* sim::make_harness() { return new H11(); }
