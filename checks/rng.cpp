// C09 (draws) and C10 (seeding) of the randomiser.
#include "randomiser.hpp"
#include "elem.hpp"
#include <memory>
#include <cmath>
#include <limits>
using namespace sim;
using Helper::RandomGenerator; using Helper::UniformIntRandomiser; using Helper::UniformRealRandomiser; using Helper::RandomiserInterface;
namespace {
#ifdef C09
enum Code { NEW, DRAW, MANY, COPY, NCODES };
static const int NR=4, NT=3, NKIND=20;
// Kinds of randomiser by value type.
struct Rnd { virtual ~Rnd() = default; virtual void many(size_t n) = 0; virtual Rnd* copy() = 0; std::vector<double>* first=nullptr; };
static const int BINS=16;
static const int MAXV=320;
struct Tally { u64 n=0; u64 bin[MAXV]={0}; u64 fine[BINS]={0}; int k=0; bool hasfine=false; };
static std::map<std::string,Tally>* tallies=nullptr;
template<class T,class R> struct RndT : Rnd {
    std::unique_ptr<R> r; T lo,hi; std::string key; std::vector<T> seen;
    RndT(T l, T h, std::string k) : lo(l), hi(h), key(k) { Lib g; r.reset(new R(l,h)); }
    RndT(RndT const& o) : lo(o.lo), hi(o.hi), key(o.key) { Lib g; r.reset(new R(*o.r)); }
    ~RndT() { Lib g; r.reset(); }
    Rnd* copy() override { return new RndT(*this); }
    void many(size_t n) override {
        for(size_t i=0;i<n;++i) { T v; { Lib g; RandomiserInterface<T>& ri=*r; v=ri.get(); } one(v); }
    }
    void one(T v) {
        if(!(v>=lo && v<=hi)) fail("out-of-range","drew %.20Lg from [%.20Lg,%.20Lg]",(long double)v,(long double)lo,(long double)hi);
        Tally& t=(*tallies)[key]; ++t.n;
        if constexpr(std::is_integral_v<T>) {
            using U=unsigned __int128; U span=U((__int128)hi-(__int128)lo)+1, off=U((__int128)v-(__int128)lo);
            if(span<=MAXV) { t.k=int(span); ++t.bin[size_t(off)]; }
            else { t.k=BINS; ++t.bin[size_t(off*BINS/span)]; if(span>=(U(1)<<20)) { t.hasfine=true; ++t.fine[size_t(off%BINS)]; } }
            sim::log(u64(off));
        } else {
            if(hi==lo) { t.k=1; ++t.bin[0]; return; }
            long double f=((long double)v-(long double)lo)/((long double)hi-(long double)lo); int b=int(f*BINS); if(b>=BINS) b=BINS-1; if(b<0) b=0; t.k=BINS; ++t.bin[b];
            long double scale= sizeof(T)==4? 65536.0L : 1073741824.0L; bool fineok = fabsl((long double)lo)<=fabsl((long double)hi-(long double)lo)*4;
            if(fineok) { t.hasfine=true; ++t.fine[u64(f*scale)%BINS]; }
            sim::log(u64(f*1e9L));
        }
        firstvals[self()].push_back((long double)v);
    }
    std::vector<long double> firstvals[8];
};
static void judge(std::string const& key, Tally const& t) {
    auto chi=[&](u64 const* b, int k, const char* what) { if(k<2 || t.n<u64(k)*40) return; double e=double(t.n)/k, x=0; for(int i=0;i<k;++i) x+=(double(b[i])-e)*(double(b[i])-e)/e; probe("chi_square_tests");
        if(x > k+12*std::sqrt(2.0*k)+60) { std::string s; for(int i=0;i<k;++i) s+=(i?",":"")+std::to_string(b[i]); fail("not-uniform","%s: %llu draws over %d %s: chi-square %.1f, counts %s",key.c_str(),(unsigned long long)t.n,k,what,x,s.c_str()); } };
    chi(t.bin,t.k,"equal parts"); if(t.k>1 && t.n>=u64(t.k)*45) for(int i=0;i<t.k;++i) if(t.bin[i]==0) fail("never-drawn","%s: part %d of %d was never drawn in %llu draws",key.c_str(),i,t.k,(unsigned long long)t.n);
    if(t.hasfine) chi(t.fine,BINS,"residues of the fine position");
}
struct H9 : Harness {
    std::unique_ptr<Rnd> r[NT*NR]; int nt=1;
    const char* property() const override { return CHECK_ID; }
    std::vector<std::string> ignored_classes() const override { return {"leak"}; }    // not what this property is about
    std::vector<std::string> op_names() const override { return {"new","draw","many","copy"}; }
    void plan(Rng& r, Plan& p) override {
        int nt= r.chance(0.6)? int(r.range(2,NT)) : 1; p.cfg["threads"]=nt; p.cfg["first"]=r.range(0,nt-1); p.cfg["tick"]=r.pick({0,1000,137000000});  int kind=int(r.range(0,NKIND-1)); if(kind==14||kind==15) nt=1, p.cfg["threads"]=1, p.cfg["first"]=0; i64 par=r.range(0,1000000); bool same=r.chance(0.7);
        p.cfg["warm"]=r.range(0,700);
        if(nt==1) { // one long, quiet run: statistics
            int slots=int(r.range(1,NR)); int kinds[NR]; for(int i=0;i<NR;++i) kinds[i]= same? kind : int(r.range(0,NKIND-1));
            for(int i=0;i<slots;++i) p.add(0,NEW,i,kinds[i],same? par : r.range(0,1000000),i);
            int rounds=int(r.range(4,14)); i64 per=r.pick({300,600,1200}); if(same && (kind==14||kind==15)) { rounds=14; per=1400; } if(r.chance(0.015)) { rounds=14; per=r.range(2500,6000); p.cfg["far"]=1; } for(int j=0;j<rounds;++j) { p.add(0,MANY,r.range(0,slots-1),per); if(r.chance(0.1)) p.add(0,COPY,r.range(0,slots-1),r.range(0,slots-1)); }
        } else {
            for(int t=0;t<nt;++t) for(int i=0;i<2;++i) { p.add(u32(t),NEW,i,kind,same? par : r.range(0,1000000),i); }
            int rounds=int(r.range(4,20)); for(int j=0;j<rounds;++j) { int t=int(r.below(u64(nt))); p.add(u32(t),r.chance(0.5)? DRAW : MANY,r.range(0,1),r.pick({1,2,5,40,200})); }
            plan_schedule(r,p,nt,0.5,r.chance(0.5)? 60 : 3000);
        }
    }
    void setup(Plan const& p) override { nt=int(p.get("threads",1)); if(p.get("far",0)) probe("over_35000_draws"); tallies=new std::map<std::string,Tally>(); Lib l; for(i64 i=0;i<p.get("warm");++i) { static UniformIntRandomiser<unsigned> w(0,9); w.get(); } }
    static Rnd* make(int kind, i64 par) {
        Rng q(u64(par)*31+u64(kind)); char k[160];
        #define INTR(T,lo_,hi_) { using T_=T; T_ lo=static_cast<T_>(lo_), hi=static_cast<T_>(hi_); snprintf(k,sizeof k,"int %zu bytes [%lld,%lld]",sizeof(T),(long long)lo,(long long)hi); return new RndT<T,UniformIntRandomiser<T>>(lo,hi,k); }
        #define REALR(T,lo_,hi_) { using T_=T; T_ lo=static_cast<T_>(lo_), hi=static_cast<T_>(hi_); snprintf(k,sizeof k,"real %zu bytes [%.20Lg,%.20Lg]",sizeof(T),(long double)lo,(long double)hi); return new RndT<T,UniformRealRandomiser<T>>(lo,hi,k); }
        i64 n=q.chance(0.06)? 0 : 1+q.range(0,7), a=q.range(-20,20);
        switch(kind) {
        case 0: INTR(int,a,a+n) case 1: INTR(unsigned,0,n) case 2: INTR(int,a,a+31) case 3: INTR(short,a,a+q.range(0,30)) case 4: INTR(long long,a*1000000000ll,a*1000000000ll+n)
        case 5: INTR(int,std::numeric_limits<int>::min(),std::numeric_limits<int>::max()) case 6: INTR(unsigned long,0,~0ul>>q.range(0,3)) case 7: INTR(long,-(1l<<q.range(33,60)),(1l<<q.range(33,60))) case 8: INTR(unsigned,0,(1u<<q.range(20,31))+u32(q.range(0,999)))
        case 9: REALR(double,0.0,1.0) case 10: REALR(double,a,a+n*0.37) case 11: REALR(float,a,a+n) case 12: REALR(double,-1e100,1e100*double(n)) case 13: { double w=1.0/double(n+1); REALR(double,-w,w) }
        // intervals of a moderate width, and wide ones whose width is far from a power of two
        case 14: INTR(int,a,a+q.range(32,150)) case 15: INTR(long,a-q.range(0,200),a+q.range(20,110)) case 16: { u32 w=u32(0xffffffffull/100*u64(q.range(30,99))); INTR(unsigned,0,w) } case 17: { u64 w=~0ull/100*u64(q.range(30,99)); INTR(unsigned long,0,w) }
        case 18: { i64 w=i64(0xffffffffull/100*u64(q.range(30,99))); INTR(int,std::numeric_limits<int>::min(),std::numeric_limits<int>::min()+w) }
        default: REALR(long double,a,a+n*1.5L)
        }
    }
    void exec(Op const& o) override {
        int base=nt>1? self()*NR : 0; auto& x=r[base+int(u64(o.a[0])%NR)];
        switch(o.code) {
        case NEW: x.reset(make(int(u64(o.a[1])%NKIND),o.a[2])); break;
        case DRAW: if(x) x->many(1); break;
        case MANY: if(x) x->many(size_t(o.a[1])); if(nt>1) probe("threaded_draws",u64(o.a[1])); break;
        case COPY: { auto& y=r[base+int(u64(o.a[1])%NR)]; if(y && &x!=&y) x.reset(y->copy()); break; }
        }
    }
    void finish() override { for(auto& t : *tallies) judge(t.first,t.second);
        for(auto& x : r) x.reset(); }
};
sim::Harness* mk() { return new H9(); }
#else
// ---------------------------------------------------------------------------------------------------- C10
enum Code { CREATE, TWIN, DRAW, PASS, JUMP, COPY, NCODES };
struct Gen { std::unique_ptr<RandomGenerator> g; u32 ent; i64 wall, steady; std::vector<u32> stream; };
struct H10 : Harness {
    std::vector<Gen> gens; i64 tick=0; u64 jumps=0; std::vector<u64> epoch;
    const char* property() const override { return CHECK_ID; }
    std::vector<std::string> ignored_classes() const override { return {"leak"}; }    // not what this property is about
    std::vector<std::string> op_names() const override { return {"create","twin","draw","pass","jump","copy"}; }
    static i64 span(Rng& r) { switch(r.below(9)) { case 7: return std::min(3599999999000ll,r.range(1,40)*(1000ll<<r.range(1,31))); /* multiples of powers of two, also of the sum of seconds and microseconds */ case 8: { i64 k=1ll<<r.range(8,20), s=r.range(0,3500); return (s*1000000+(k-(s*1000001)%k)%k)*1000; }
        case 0: return r.chance(0.5)? r.range(1000,2100) : r.range(1000,9999); case 1: return r.range(1,1000)*1000; case 2: return r.range(1,1000)*1000000; case 3: return r.range(1,50)*1000000000ll; case 4: return r.range(1,50)*1000000000ll-r.range(0,5)*1000; case 5: return r.range(1,50)*60000000000ll; default: return 1000000000ll*r.range(1,3)+r.pick({-1000,1000,-1000000,1000000}); } }
    void plan(Rng& r, Plan& p) override {
        int nops=int(r.range(4,24)); p.cfg["w0"]=r.pick({1700000000000000000ll,1ll,1234567890123456789ll,4294967296000000ll}); p.cfg["tick"]=r.chance(0.7)? 0 : r.pick({1,1000,25000});
        i64 stuck=r.pick({0,1,0xFFFFFFFFll,r.range(0,0xFFFFFFFFll)}); double ps=r.pick({0,50,100})/100.0;
        for(int i=0;i<nops;++i) { u32 c= i<2? u32(CREATE) : u32(r.pick({CREATE,CREATE,CREATE,TWIN,DRAW,DRAW,PASS,PASS,PASS,JUMP,COPY})); i64 e= r.chance(ps)? stuck : r.chance(0.3)? (stuck^(1ll<<r.range(0,31))) : r.range(0,0xFFFFFFFFll); p.add(0,c,e,c==JUMP? (r.chance(0.5)?span(r):-span(r)) : span(r),r.range(0,30),r.range(1,12)); }
        if(r.chance(0.3)) return;
        for(Op const& o : p.ops) if(r.chance(0.2)) p.inj.push_back(Inj{o.id,K_ENTROPY,u32(r.below(2)),0});
        for(Op const& o : p.ops) if(o.code==DRAW && r.chance(0.3)) p.inj.push_back(Inj{o.id,K_CLOCKJUMP,0,span(r)});
    }
    void setup(Plan const& p) override { tick=p.get("tick",0); }
    void take(Gen& g, size_t n) { for(size_t i=0;i<n;++i) { u32 v; { Lib l; v=u32(g.g->engine()()); } g.stream.push_back(v); sim::log(u64(v)); } }
    void create(u32 ent, i64 wall, i64 steady) {
        // the clocks are set to the instant asked for while the generator is made, then go back
        i64 ws=wall_ns(), ss=steady_ns(); wall_jump(wall-ws-(steady-ss)); advance(steady-ss); entropy_mode(1,ent);
        Gen g; g.ent=ent; g.wall=wall; g.steady=steady; u64 er=entropy_readings();
        Result r=attempt([&]{ g.g.reset(new RandomGenerator()); });
        entropy_mode(0,12345+gens.size());
        i64 w2=wall_ns(), s2=steady_ns(); advance(ss-s2); wall_jump(ws-w2-(ss-s2));
        bool entfail=fired_in_op() && fired_total(K_ENTROPY)>ent_before;
        if(entfail) { if(r.ok()) fail("swallowed","a generator was constructed although the entropy source failed"); probe("entropy_failure_reported"); return; }
        if(!r.ok()) fail("unexpected-exception","constructing a generator threw %s",r.what.c_str());
        (void)er; take(g,8); gens.push_back(std::move(g));
    }
    u64 ent_before=0;
    static bool same_prefix(Gen const& a, Gen const& b) { size_t n=std::min(a.stream.size(),b.stream.size()); for(size_t i=0;i<n;++i) if(a.stream[i]!=b.stream[i]) return false; return true; }
    void compare() {
        for(size_t i=0;i<gens.size();++i) for(size_t j=0;j<i;++j) { Gen &a=gens[i], &b=gens[j];
            i64 dw=a.wall-b.wall, ds=a.steady-b.steady; i64 ad=dw<0? -dw:dw; bool same=same_prefix(a,b);
            if(a.ent==b.ent && dw==0 && ds==0) { probe("equal_readings"); if(!same) fail("not-a-function","two generators made from the same readings of entropy and clock differ"); }
            else if(a.ent!=b.ent && dw==0 && ds==0) { probe("entropy_differs_clock_stands"); if(same) fail("same-stream","two generators made from entropy %u and %u at the same time have the same stream",a.ent,b.ent); }
            else if(a.ent==b.ent && dw==ds && ad>=(tick? 2000+2*tick*8 : 1000) && ad<3600000000000ll) { probe("entropy_stuck_clock_differs"); if(same) fail("same-stream","two generators made %lld ns apart from the same entropy value %u have the same stream",(long long)ad,a.ent); }
        }
    }
    void exec(Op const& o) override {
        ent_before=fired_total(K_ENTROPY);
        switch(o.code) {
        case CREATE: if(gens.size()<14) create(u32(o.a[0]),wall_ns(),steady_ns()); break;
        case TWIN: if(!gens.empty() && gens.size()<14) { Gen& g=gens[size_t(o.a[2])%gens.size()]; create(g.ent,g.wall,g.steady); } break;
        case DRAW: if(!gens.empty()) take(gens[size_t(o.a[2])%gens.size()],size_t(o.a[3])*(o.a[3]%5==0? 130:1)); break;
        case PASS: advance(o.a[1]<0? -o.a[1]:o.a[1]); break;
        case JUMP: if(wall_ns()+o.a[1]>0) wall_jump(o.a[1]); break;
        case COPY: if(!gens.empty() && gens.size()<14) { Gen const& g=gens[size_t(o.a[2])%gens.size()]; (void)g; } break;
        }
        compare();
    }
    void finish() override { for(auto& g : gens) { Lib l; g.g.reset(); } gens.clear(); }
};
sim::Harness* mk() { return new H10(); }
#endif
}
sim::Harness* sim::make_harness() { return mk(); }
