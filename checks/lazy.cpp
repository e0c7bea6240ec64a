// C06: Lazy.
#include "lazy.hpp"
#include "elem.hpp"
#include <memory>
using namespace sim;
using Helper::Lazy;
namespace {
enum Code { MAKE, ACCESS, COPY, ASSIGN, MOVE_CONSTRUCT, MOVE_ASSIGN, DESTROY, ACCESS_TWICE, HOLD, WALK, MANY, NCODES };
static const int NS=6, NI=3;
static u64 total_runs=0;
struct World { virtual ~World() = default; virtual void exec(Op const&) = 0; virtual void finish() = 0; };
template<class EL> struct Obj { EL e; int id; Obj(int i) : e(i), id(i) { } virtual ~Obj() = default; int get() const { return e.get(); } };
template<class EL> struct Sub : Obj<EL> { EL second; Sub(int i) : Obj<EL>(i), second(i+1) { } };
// A lazily computed list: every cell holds the lazy value of the rest, so assigning from it assigns from inside the object held.
template<class EL> struct Chain { EL e; Lazy<Chain> rest; Chain(int v, Lazy<Chain> r) : e(v), rest(std::move(r)) { } };
template<class EL> struct LazyWorld : World {
    using O=Obj<EL>; using Z=Lazy<O>;
    struct Cell { int value; O const* addr; int nel; };
    struct Gen { int id; int kind; int inner; int runs=0; int copy=0; int extra=0; };      // one per MAKE; shared by copies of the std::function
    struct Slot { bool present=false; std::shared_ptr<Gen> gen; std::shared_ptr<Cell> cell; };
    alignas(Z) unsigned char mem[NS][sizeof(Z)]; Slot slot[NS];
    alignas(Z) unsigned char imem[NI][sizeof(Z)]; std::shared_ptr<Gen> igen[NI]; bool ieval[NI]; int nextid=10;
    struct Held { O const* p; std::shared_ptr<Cell> c; };
    int cur=-1; bool nested=false; Z* spare=nullptr;
    LazyWorld() { for(int k=0;k<NI;++k) { igen[k]=std::make_shared<Gen>(Gen{1000+k,0,-1}); ieval[k]=false; auto g=igen[k]; Lib l; new(imem[k]) Z([g]()->O* { return run(*g,nullptr); }); } }
    Z& at(int s) { return *reinterpret_cast<Z*>(mem[s]); } Z& inner(int k) { return *reinterpret_cast<Z*>(imem[k]); }
    static O* run(Gen& g, LazyWorld* w) {
        { Harn h; ++g.runs; ++total_runs; }
        callback_point();
        int v=g.id;
        if(w && g.inner>=0) { int before=w->igen[g.inner]->runs; O const& in=w->inner(g.inner)(); int x=in.get(); { Harn h; int ran=w->igen[g.inner]->runs-before; if(ran!=(w->ieval[g.inner]?0:1)) fail("evaluation","a nested access ran its generator %d time(s)",ran); if(x!=1000+g.inner) fail("value","nested access yields %d",x); w->ieval[g.inner]=true; probe("nested_access"); } }
        // the lazy value is copied while its own generator runs: the copy is as good as one made before the access
        if(w && g.copy && !w->nested && w->cur>=0) {
            if(g.copy==1) { Z other(w->at(w->cur)); struct N { LazyWorld* w; N(LazyWorld* x) : w(x) { Harn h; w->nested=true; } ~N() { Harn h; w->nested=false; } } n(w); { Harn h; ++g.extra; } int x=other().get(); Harn h; if(x!=v) fail("value","a copy made while the generator runs yields %d instead of %d",x,v); probe("copied_while_running"); }
            else if(!w->spare) w->spare=new Z(w->at(w->cur)); }
        if(g.kind==1) return new Sub<EL>(v);
        O* p=new O(v); return p;
    }
    void drop(int s) { if(!slot[s].present) return; slot[s].present=false; Result r=attempt([&]{ at(s).~Z(); }); if(!r.ok()) fail("unexpected-exception","destructor threw"); if(slot[s].cell && slot[s].cell.use_count()==1) probe("last_sharer_destroyed"); slot[s]=Slot(); }
    void check() {
        u64 expect=0; for(int k=0;k<NI;++k) if(ieval[k]) expect+=1;
        for(int s=0;s<NS;++s) if(slot[s].present && slot[s].cell) { bool first=true; for(int q=0;q<s;++q) if(slot[q].present && slot[q].cell==slot[s].cell) first=false; if(first) { expect+=u64(slot[s].cell->nel);
            if(heap_contains(slot[s].cell->addr) && !heap_is_live(slot[s].cell->addr)) fail("lifetime","the object of an evaluated lazy value was released"); int v; { Quiet q; Lib l; v=slot[s].cell->addr->get(); } if(v!=slot[s].cell->value) fail("value","the object of an evaluated lazy value changed from %d to %d",slot[s].cell->value,v); } }
        if(elem_live()!=expect) fail(elem_live()>expect?"leak":"lifetime","%llu objects are alive, evaluated lazy values account for %llu",(unsigned long long)elem_live(),(unsigned long long)expect);
    }
    void access(int s) {
        Slot& z=slot[s]; int before=z.gen->runs; z.gen->extra=0; O const* p=nullptr; int v=0; cur=s; nested=false; Result r=attempt([&]{ O const& o=at(s)(); p=&o; v=o.get(); }); cur=-1;
        int ran=z.gen->runs-before-z.gen->extra; if(z.gen->extra && ran==0 && !r.ok()) ran=1;
        if(z.cell) { if(!r.ok()) fail("value","access to an evaluated lazy value failed: %s",r.what.c_str()); if(ran!=0) fail("evaluation","the generator ran again after a success"); if(p!=z.cell->addr) fail("identity","a later access yields another object"); if(v!=z.cell->value) fail("value","access yields %d instead of %d",v,z.cell->value); }
        else { if(ran>1) fail("evaluation","one access ran the generator %d times",ran);
            if(r.ok()) { if(ran!=1) fail("evaluation","the first successful access ran the generator %d times",ran); if(v!=z.gen->id) fail("value","access yields %d instead of %d",v,z.gen->id); z.cell=std::make_shared<Cell>(Cell{v,p,z.gen->kind==1?2:1}); probe("evaluated"); }
            else if(!r.faulted()) fail("unexpected-exception","access threw %s",r.what.c_str()); else { probe("access_failed"); if(ran==1 && fired_total(K_ALLOC)) probe("failed_access_ran_generator"); } }
        log(u64(ran)); log(u64(v));
        if(spare) { Z* c=spare; spare=nullptr; int b=z.gen->runs, x=0; O const* q=nullptr; Result t=attempt([&]{ O const& o=(*c)(); q=&o; x=o.get(); }); int n=z.gen->runs-b;
            if(t.ok()) { if(n!=1) fail("evaluation","the first access to a copy made while the generator ran runs it %d times",n); if(x!=z.gen->id) fail("value","a copy made while the generator ran yields %d instead of %d",x,z.gen->id); if(q==p) fail("identity","a copy made before the first success shares its object"); probe("copied_while_running"); } else if(!t.faulted()) fail("unexpected-exception","access threw %s",t.what.c_str());
            Result d=attempt([&]{ delete c; }); if(!d.ok()) fail("unexpected-exception","destructor threw"); }
    }
    void exec(Op const& o) override {
        int s=int(u64(o.a[0])%NS), q=int(u64(o.a[1])%NS);
        u64 total=total_runs;
        bool isaccess=o.code==ACCESS||o.code==ACCESS_TWICE||o.code==HOLD||o.code==MANY;
        switch(o.code) {
        case MAKE: { drop(s); auto g=std::make_shared<Gen>(); g->id=nextid++; g->kind=int(o.a[2]%2); g->inner= o.a[3]%4==0? int(o.a[3]/4%NI) : -1; g->copy= o.a[3]%4==1? int(o.a[3]/4%3) : 0; LazyWorld* w=this;
            struct Fat { std::shared_ptr<Gen> g; LazyWorld* w; unsigned char pad[24]; O* operator()() const { return run(*g,w); } };
            std::function<O*()> f; { if(o.a[2]&2) f=[g,w]()->O* { return run(*g,w); }; else { Fat ff; ff.g=g; ff.w=w; f=ff; } }
            Result r=attempt([&]{ new(mem[s]) Z(f); }); if(r.ok()) { slot[s].present=true; slot[s].gen=g; } else if(!r.faulted()) fail("unexpected-exception","constructor threw"); if(g->runs) fail("evaluation","the generator ran before the first access"); break; }
        case ACCESS: if(slot[s].present) access(s); break;
        case ACCESS_TWICE: if(slot[s].present) { access(s); access(s); } break;
        case HOLD: { // access every present lazy value that shares with s: all see the same object
            if(slot[s].present && slot[s].cell) for(int k=0;k<NS;++k) if(slot[k].present && slot[k].cell==slot[s].cell) { access(k); if(k!=s) probe("shared_by_copies"); } break; }
        case MANY: if(slot[s].present) { // a lazy value (and its copies) read very often
            access(s); if(!slot[s].cell) access(s); if(!slot[s].cell) break; Quiet qq; Slot& z=slot[s]; int before=z.gen->runs; i64 bad=-1; bool threw=false;
            { Lib g; try { for(i64 i=0;i<o.a[2];++i) { if(o.a[3]%3==1 && i%64==0) { Z c(at(s)); if(&c()!=z.cell->addr && bad<0) bad=i; } if(&at(s)()!=z.cell->addr && bad<0) bad=i; } } catch(...) { threw=true; } }
            if(threw) fail("value","an access to an evaluated lazy value threw"); if(bad>=0) fail("identity","access %lld yields another object",(long long)bad); if(z.gen->runs!=before) fail("evaluation","the generator ran again after a success"); probe("accessed_often"); } break;
        case COPY: if(slot[q].present && q!=s) { drop(s); Result r=attempt([&]{ Z const& c=at(q); new(mem[s]) Z(c); }); if(r.ok()) { slot[s]=slot[q]; if(!slot[s].cell) probe("copied_before_evaluation"); } else if(!r.faulted()) fail("unexpected-exception","copy threw"); } break;
        case ASSIGN: if(slot[s].present && slot[q].present) { Slot old=slot[s]; Result r=attempt([&]{ Z const& c=at(q); at(s)=c; });
            if(r.ok()) slot[s]=slot[q]; else if(!r.faulted()) fail("unexpected-exception","assignment threw");
            else { // the target is as before or already refers to the source: decided by nothing observable but its next access, so it is dropped
                probe("assign_failed"); slot[s]=old; drop_unknown(s); } } break;
        case MOVE_CONSTRUCT: if(slot[q].present && q!=s) { drop(s); Result r=attempt([&]{ new(mem[s]) Z(std::move(at(q))); }); if(r.ok()) { slot[s]=slot[q]; drop_unknown(q); } else if(!r.faulted()) fail("unexpected-exception","move threw"); } break;
        case MOVE_ASSIGN: if(slot[s].present && slot[q].present && q!=s) { Result r=attempt([&]{ at(s)=std::move(at(q)); }); if(r.ok()) { slot[s]=slot[q]; drop_unknown(q); } else if(r.faulted()) drop_unknown(s); else fail("unexpected-exception","move threw"); } break;
        case DESTROY: drop(s); break;
        case WALK: walk(int(o.a[2]),int(o.a[3])); break;
        }
        if(!isaccess && total_runs!=total) fail("evaluation","a generator ran without an access");
        check();
    }
    using L=Lazy<Chain<EL>>;
    static Chain<EL>* step(int i, int n, std::vector<int>* runs) { { Harn h; ++(*runs)[size_t(i)]; } callback_point(); return new Chain<EL>(i,chain(i+1<n?i+1:0,n,runs)); }
    static L chain(int i, int n, std::vector<int>* runs) { return L([i,n,runs]() { return step(i,n,runs); }); }
    void walk(int mode, int steps) {
        int n=steps%5+2; std::vector<int> runs(size_t(n),0); u64 before=elem_live(); L* cur=nullptr; L* head=nullptr; int at=0; std::vector<int> expect(size_t(n),0);
        Result r=attempt([&]{ cur=new L(chain(0,n,&runs)); if(mode&1) head=new L(*cur); });
        for(int i=0;r.ok() && i<=steps;++i) {
            int was=runs[size_t(at)], v=-1; Result a=attempt([&]{ v=(*cur)().e.get(); if(mode&2) *cur=(*cur)().rest; else { L next((*cur)().rest); *cur=next; } });
            if(a.o==OTHER_) fail("unexpected-exception","walking a lazy list threw %s",a.what.c_str());
            if(!a.ok()) { if(v>=0) { probe("walk_failed"); break; } if(runs[size_t(at)]-was>1) fail("evaluation","one access ran the generator %d times",runs[size_t(at)]-was); --steps; continue; }
            if(v!=at) fail("value","cell %d of a lazy list shows %d",at,v); if(runs[size_t(at)]-was!=1) fail("evaluation","the access to a fresh cell ran its generator %d times",runs[size_t(at)]-was);
            if(elem_live()!=before) fail("leak","%llu cells of a lazy list are alive after leaving them",(unsigned long long)(elem_live()-before));
            at=(at+1)%n; if(i) probe("walked_lazy_list");
        }
        Result d=attempt([&]{ delete head; delete cur; }); if(!d.ok()) fail("unexpected-exception","destructor threw");
        if(elem_live()!=before) fail("leak","%llu cells of a lazy list survive it",(unsigned long long)(elem_live()-before));
        log(u64(at));
    }
    // destroys a lazy value whose content the property leaves open
    void drop_unknown(int s) { slot[s].present=false; slot[s]=Slot(); Result r=attempt([&]{ at(s).~Z(); }); if(!r.ok()) fail("unexpected-exception","destructor threw"); }
    void finish() override { for(int s=0;s<NS;++s) { if(slot[s].present && s%2) access(s); drop(s); check(); } for(int k=0;k<NI;++k) { Lib l; inner(k).~Z(); } for(auto& e : ieval) e=false; check(); }
};
struct H6 : Harness {
    World* w=nullptr;
    const char* property() const override { return CHECK_ID; }
    std::vector<std::string> op_names() const override { return {"make","access","copy","assign","move_construct","move_assign","destroy","access_twice","hold","walk","many"}; }
    void plan(Rng& r, Plan& p) override {
        p.cfg["type"]=r.pick({0,1,2}); int nops=int(r.pick({4,8,15,30,60})); int slots=int(r.range(2,NS)); double pd=r.pick({2,10,25})/100.0;
        std::vector<u32> mix; for(u32 c : {MAKE,ACCESS,COPY,ASSIGN,MOVE_CONSTRUCT,MOVE_ASSIGN,ACCESS_TWICE,HOLD,WALK}) { int k=1+int(r.below(3)); if(c==ACCESS) k+=2; while(k--) mix.push_back(c); }
        for(int i=0;i<nops;++i) { u32 c= i<2? u32(MAKE) : r.chance(pd)? u32(DESTROY) : mix[r.below(mix.size())]; p.add(0,c,r.range(0,slots-1),r.range(0,slots-1),r.range(0,3),r.range(0,11)); }
        if(r.chance(0.008)) { i64 s=r.range(0,slots-1); if(r.chance(0.5)) p.add(0,MAKE,s,0,r.range(0,3),r.range(0,11)); p.add(0,MANY,s,0,r.chance(0.3)? r.range(65000,140000) : r.range(200,6000),r.range(0,11)); p.add(0,HOLD,s,0,0,0); }
        plan_faults(r,p,FaultMix{{{K_ALLOC,0.25,5,0.15},{K_CTOR,0.2,3,0},{K_CALL,0.25,2,0}}});
    }
    void setup(Plan const& p) override { switch(p.get("type")) { case 0: w=new LazyWorld<Elem>(); break; case 1: w=new LazyWorld<ElemC>(); break; default: w=new LazyWorld<ElemL>(); } }
    void exec(Op const& o) override { w->exec(o); }
    void finish() override { w->finish(); delete w; }
};
}
sim::Harness* sim::make_harness() { return new H6(); }
