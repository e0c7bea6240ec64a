// C04 (policy) and C05 (failure atomicity, reference validity) of LRUCache.
#include "lru_cache.hpp"
#include "elem.hpp"
#include <memory>
#include <map>
using namespace sim;
using Helper::LRUCache;
namespace {
enum Code { PUT, GET, HAS, AGE, PUT_PRESENT, PUT_ALIAS, ZERO, REBUILD, GET_ALL, SPIN, COPY, TWIN, BULK, NCODES };
// capacities near the limits of the integer types (a cache only ever holds what was put into it)
const i64 bounds[]={255,256,257,32767,32768,65535,65536,65537,0x7fffffff,0x80000000,0xffffffff,0x100000000,0x100000001,0x100000003,0x7fffffffffffffff,i64(0x8000000000000000ull),i64(0x8000000000000003ull),-1,-2}; const size_t NB=sizeof bounds/sizeof*bounds;
struct World { virtual ~World() = default; virtual void exec(Op const&) = 0; virtual void finish() = 0; };
template<class T> struct V; template<int P,bool M> struct V<ElemT<P,M>> { static int get(ElemT<P,M> const& x) { return x.get(); } static ElemT<P,M> make(int v) { return ElemT<P,M>(v); } };
template<> struct V<int> { static int get(int const& x) { return x; } static int make(int v) { return v; } };
template<> struct V<std::string> { static int get(std::string const& s) { int r=0; for(size_t i=0;i<s.size();++i) { if(s[i]=='_') break; r=r*10+(s[i]-'0'); } return r; }
    static std::string make(int v) { std::string s=std::to_string(v)+"_"; s.append(size_t(v%3)*14,'x'); return s; } };
template<class L,class T> struct LruWorld : World {
    using C=LRUCache<L,T>; struct E { int label, value; T const* ref; };
    i64 cap, dom; std::unique_ptr<C,void(*)(C*)> c; std::vector<E> model; u64 nverify=0;  // most recent first
    std::unique_ptr<C,void(*)(C*)> twin{nullptr,destroy}; std::vector<E> tmodel; i64 tcap=0;   // a copy with a history of its own
    static void forget(std::vector<E>& m) { for(auto& e : m) e.ref=nullptr; }
    void change() { std::swap(c,twin); std::swap(model,tmodel); std::swap(cap,tcap); }
    static C* build(i64 cap) { C* p=nullptr; Result r=attempt([&]{ p=new C(size_t(cap)); }); if(!r.ok()) { if(r.faulted() || size_t(cap)>1000000) return nullptr; fail("value","a cache of capacity %lld was refused",(long long)cap); } return p; }
    static void destroy(C* p) { Result r=attempt([&]{ delete p; }); if(!r.ok()) fail("unexpected-exception","cache destructor threw"); }
    LruWorld(i64 cap_, i64 dom_) : cap(cap_), dom(dom_), c(build(cap_),destroy) { }
    E* find(int l) { for(auto& e : model) if(e.label==l) return &e; return nullptr; }
    void touch(int l) { for(size_t i=0;i<model.size();++i) if(model[i].label==l) { E e=model[i]; model.erase(model.begin()+long(i)); model.insert(model.begin(),e); return; } }
    void verify(const char* when) {
        Quiet qq; ++nverify; if(!c) return;
        size_t n,mx; { Lib l; n=c->current_size(); mx=c->maximum_size(); }
        if(n!=model.size()) fail("value","%s: the cache holds %zu entries, expected %zu",when,n,model.size());
        if(mx!=size_t(cap)) fail("value","%s: maximum_size is %zu, expected %lld",when,mx,(long long)cap);
        bool full= dom<=24 || nverify%8==0;
        for(int l=0;l<dom;++l) { if(!full && (l+int(nverify))%8) continue;
            L lab=V<L>::make(l); bool h; { Lib g; h=c->has_label(lab); }
            size_t pos=size_t(-1); for(size_t i=0;i<model.size();++i) if(model[i].label==l) pos=i;
            if(h!=(pos!=size_t(-1))) fail("value","%s: label %d is %s, expected otherwise",when,l,h?"present":"absent");
            if(h) { size_t a; { Lib g; a=c->age(lab); } if(a!=pos) fail("value","%s: the age of label %d is %zu, expected %zu",when,l,a,pos); } }
        for(auto& e : model) if(e.ref) { int v; if(heap_contains(e.ref) && !heap_is_live(e.ref)) fail("reference","%s: a reference returned by get(%d) no longer points into live memory",when,e.label); { Lib g; v=V<T>::get(*e.ref); } if(v!=e.value) fail("reference","%s: a reference returned by get(%d) shows %d instead of %d",when,e.label,v,e.value); }
    }
    void exec(Op const& o) override {
        if(!c) { c.reset(build(cap)); model.clear(); if(!c) return; }
        int l=int(u64(o.a[0])%u64(dom)); int v=int(o.a[1]);
        switch(o.code) {
        case PUT: { L lab=V<L>::make(l); T val=V<T>::make(v); bool present=find(l)!=nullptr; Result r=attempt([&]{ c->put(lab,val); }); put_result(r,l,V<T>::get(val),present); break; }
        case PUT_PRESENT: { if(model.empty()) break; l=model[size_t(o.a[0])%model.size()].label; L lab=V<L>::make(l); T val=V<T>::make(v); Result r=attempt([&]{ c->put(lab,val); }); put_result(r,l,v,true); break; }
        case PUT_ALIAS: { // the value is a reference obtained from the cache itself, here the least recently used one
            if(model.empty() || find(l)) break; E* src=nullptr; for(auto& e : model) if(e.ref && (o.a[2]%3 || !src)) src=&e; if(!src) break;
            L lab=V<L>::make(l); T const& val=*src->ref; int vv=src->value; bool ev=model.size()==size_t(cap) && src->label==model.back().label; Result r=attempt([&]{ c->put(lab,val); }); if(ev) probe("put_of_reference_into_evicted_entry"); put_result(r,l,vv,false); break; }
        case GET: { L lab=V<L>::make(l); T const* p=nullptr; int got=0; E* e=find(l); Result r=attempt([&]{ p=object_of(c->get(lab)); if(p) got=V<T>::get(*p); });
            if(e) { if(r.ok()) { if(!p) fail("reference","get(%d) gives a copy of the value",l); if(got!=e->value) fail("value","get(%d) yields %d instead of %d",l,got,e->value); if(e->ref && e->ref!=p) fail("reference","get(%d) returns another object than before",l); e->ref=p; touch(l); } else if(!r.faulted()) fail("value","get of the present label %d threw %s",l,r.what.c_str()); else probe("get_failed"); }
            else { if(r.ok()) fail("value","get of the absent label %d returned",l); probe("get_absent"); } break; }
        case HAS: { L lab=V<L>::make(l); bool h=false; Result r=attempt([&]{ h=c->has_label(lab); }); if(r.ok() && h!=(find(l)!=nullptr)) fail("value","has_label(%d) is %d",l,h); if(r.o==OTHER_) fail("unexpected-exception","has_label threw"); break; }
        case AGE: { L lab=V<L>::make(l); size_t a=0; Result r=attempt([&]{ a=c->age(lab); }); E* e=find(l); if(e) { if(r.ok() && a!=size_t(e-&model[0])) fail("value","age(%d) is %zu, expected %zd",l,a,e-&model[0]); if(r.o==OTHER_) fail("value","age of the present label %d threw",l); } else if(r.ok()) fail("value","age of the absent label %d returned %zu",l,a); break; }
        case ZERO: { C* p=nullptr; Result r=attempt([&]{ p=new C(0); }); if(r.ok()) fail("value","a cache of capacity zero was constructed"); probe("zero_capacity"); break; }
        case REBUILD: c.reset(); model.clear(); cap= o.a[2]==9? bounds[size_t(o.a[1])%NB] : 1+(o.a[1]%(cap>20 && cap<1000? cap:12)); if(cap<1 || cap>1000000) probe("capacity_beyond_memory"); c.reset(build(cap)); break;
        case COPY: if constexpr(std::is_copy_constructible_v<C>) { C* p=nullptr; Result r=attempt([&]{ p=new C(static_cast<C const&>(*c)); }); if(!r.ok()) { if(!r.faulted()) fail("unexpected-exception","copying a cache threw %s",r.what.c_str()); break; } twin.reset(p); tmodel=model; forget(tmodel); tcap=cap; probe("copied"); if(o.a[2]%2) change(); break; }
        case TWIN: if(!twin) break; if(o.a[2]%4==0) { change(); break; } if(o.a[2]%4==1) { twin.reset(); tmodel.clear(); break; }
            if constexpr(std::is_copy_assignable_v<C> && std::is_move_constructible_v<C>) { if(o.a[2]%4==2) { forget(model); Result r=attempt([&]{ *c=static_cast<C const&>(*twin); }); if(r.ok()) { model=tmodel; forget(model); cap=tcap; probe("assigned"); } else { if(!r.faulted()) fail("unexpected-exception","assigning a cache threw %s",r.what.c_str()); c.reset(); model.clear(); } break; }
                C* p=nullptr; Result r=attempt([&]{ p=new C(std::move(*twin)); }); if(!r.ok() && !r.faulted()) fail("unexpected-exception","moving a cache threw %s",r.what.c_str()); twin.reset(); if(p) { c.reset(p); model=tmodel; forget(model); cap=tcap; probe("moved"); } tmodel.clear(); } break;
        case SPIN: { // a long history without a look at the cache in between
            if(cap>20 || cap<1) break; Quiet qq; std::vector<L*> labs; { Lib g; for(int i=0;i<int(dom);++i) labs.push_back(new L(V<L>::make(i))); } Rng q{u64(o.a[1])}; for(i64 i=0;i<o.a[2];++i) { int y=int(q.below(u64(dom))); if(o.a[3] && ((u64(o.a[3])>>(y%30))&1)) continue; E* e=find(y);
                if(e) { T const* p=nullptr; bool threw=false; { Lib g; try { p=object_of(c->get(*labs[size_t(y)])); } catch(...) { threw=true; } } if(threw) fail("value","get of the present label %d threw after %lld uses",y,(long long)i); if(!p) fail("reference","get(%d) gives a copy of the value",y); int got; { Lib g; got=V<T>::get(*p); } if(got!=e->value) fail("value","get(%d) yields %d instead of %d after %lld uses",y,got,e->value,(long long)i); e->ref=p; touch(y); }
                else { if(q.chance(0.7)) continue; int vv=int(q.range(1,9999)); bool threw=false; { Lib g; T val=V<T>::make(vv); try { c->put(*labs[size_t(y)],val); } catch(...) { threw=true; } vv=V<T>::get(val); } if(threw) fail("value","put of the absent label %d threw after %lld uses",y,(long long)i); if(model.size()==size_t(cap)) model.pop_back(); model.insert(model.begin(),E{y,vv,nullptr}); } }
            { Lib g; for(L* p : labs) delete p; } probe("long_history"); break; }
        case BULK: bulk(size_t(o.a[2]),u64(o.a[1]),int(o.a[3])); break;
        case GET_ALL: { Quiet qq; auto copy=model; for(size_t k=0;k<copy.size();++k) { E& e=copy[(k*7+size_t(o.a[1]))%copy.size()]; bool again=false; for(size_t j=0;j<k;++j) if(&copy[(j*7+size_t(o.a[1]))%copy.size()]==&e) again=true; if(again) continue; L lab=V<L>::make(e.label); int got; T const* p; { Lib g; p=object_of(c->get(lab)); if(p) got=V<T>::get(*p); } if(got!=e.value) fail("value","get(%d) yields %d instead of %d",e.label,got,e.value); find(e.label)->ref=p; touch(e.label); } break; }
        }
        if(twin) { change(); verify("the cache not used by the operation"); change(); }
        if(c) { verify("after an operation"); log(model.size()); for(auto& e : model) { log(u64(e.label)); log(u64(e.value)); } }
    }
    //! A cache with many entries, filled, used and overfilled without a look in between; ages are ranks of last use.
    void bulk(size_t n, u64 seed, int mode) {
        if(n<1 || n>20000) return; Quiet qq; Rng q{seed}; C* b=build(i64(n)); size_t total=n+size_t(q.range(0,40)); std::vector<L*> labs; { Lib g; for(size_t i=0;i<total;++i) labs.push_back(new L(V<L>::make(int(i)))); }
        std::vector<int> order(total), val(total,0); std::vector<u64> last(total,0); std::vector<T const*> ref(total,nullptr); for(size_t i=0;i<total;++i) order[i]=int(mode%3==1? total-1-i : i); if(mode%3==2) for(size_t i=total;i>1;--i) std::swap(order[i-1],order[q.below(i)]);
        std::map<u64,int> byage; u64 now=0;      // last use -> label, for those present
        auto get=[&](int y) { T const* p=nullptr; int got=0; bool threw=false; { Lib g; try { p=object_of(b->get(*labs[size_t(y)])); if(p) got=V<T>::get(*p); } catch(...) { threw=true; } } if(threw) fail("value","get of the present label %d threw in a cache of %zu entries",y,byage.size()); if(!p || (ref[size_t(y)] && ref[size_t(y)]!=p)) fail("reference","get(%d) returns another object than before",y); if(got!=val[size_t(y)]) fail("value","get(%d) yields %d instead of %d in a cache of %zu entries",y,got,val[size_t(y)],byage.size()); ref[size_t(y)]=p; byage.erase(last[size_t(y)]); last[size_t(y)]=++now; byage[now]=y; };
        auto check=[&](size_t stride) { size_t z; { Lib g; z=b->current_size(); } if(z!=byage.size()) fail("value","the cache holds %zu entries, expected %zu",z,byage.size()); std::vector<size_t> rank(total,size_t(-1)); size_t k=0; for(auto it=byage.rbegin();it!=byage.rend();++it) rank[size_t(it->second)]=k++;
            for(size_t y=0;y<total;++y) { if(stride>1 && (y+seed)%stride && rank[y]!=byage.size()-1 && rank[y]>2) continue; bool h; size_t a=0; { Lib g; h=b->has_label(*labs[y]); if(h) a=b->age(*labs[y]); } if(h!=(rank[y]!=size_t(-1))) fail("value","label %zu is %s, expected otherwise, in a cache of %zu entries",y,h?"present":"absent",byage.size()); if(h && a!=rank[y]) fail("value","the age of label %zu is %zu, expected %zu",y,a,rank[y]);
                if(h && ref[y]) { if(heap_contains(ref[y]) && !heap_is_live(ref[y])) fail("reference","a reference returned by get(%zu) no longer points into live memory",y); int v; { Lib g; v=V<T>::get(*ref[y]); } if(v!=val[y]) fail("reference","a reference returned by get(%zu) shows %d instead of %d",y,v,val[y]); } } };
        if(!b) return;
        for(size_t i=0;i<total;++i) { progress(); int y=order[i]; int vv=int(q.range(1,9999)); bool threw=false; { Lib g; T v=V<T>::make(vv); try { b->put(*labs[size_t(y)],v); } catch(...) { threw=true; } vv=V<T>::get(v); } if(threw) fail("value","put of the absent label %d threw in a cache of %zu entries",y,byage.size());
            if(byage.size()==n) { int d=byage.begin()->second; byage.erase(byage.begin()); ref[size_t(d)]=nullptr; } val[size_t(y)]=vv; last[size_t(y)]=++now; byage[now]=y;
            if(q.below(100)<3) { auto it=byage.lower_bound(q.below(now+1)); if(it!=byage.end()) get(it->second); } if(i+1==n && mode%2) { get(byage.begin()->second); check(1); } else if(q.below(200)==0) check(97); }
        check(1); while(q.below(6)) get(byage.begin()->second); check(1); { Lib g; for(L* p : labs) delete p; } destroy(b); probe("many_entries"); }
    void put_result(Result const& r, int l, int v, bool present) {
        if(present) { if(r.ok()) fail("value","put of the present label %d was accepted",l); probe("put_present"); return; }
        if(r.ok()) { if(model.size()==size_t(cap)) { model.pop_back(); probe("evicted"); } model.insert(model.begin(),E{l,v,nullptr}); }
        else if(!r.faulted()) fail("value","put of the absent label %d threw %s",l,r.what.c_str());
        else { probe("put_failed"); if(model.size()==size_t(cap)) probe("put_failed_when_full"); }
    }
    void finish() override { for(int i=0;i<2;++i) { if(c) { Op o; o.code=GET_ALL; o.a[1]=3; exec(o); } c.reset(); if(twin) { Quiet qq; change(); } else break; } }
};
struct H4 : Harness {
    World* w=nullptr;
    const char* property() const override { return CHECK_ID; }
    std::vector<std::string> ignored_classes() const override { return std::string(CHECK_ID)=="C04"? std::vector<std::string>{"leak"} : std::vector<std::string>{}; }
    std::vector<std::string> op_names() const override { return {"put","get","has","age","put_present","put_alias","zero","rebuild","get_all","spin","copy","twin","bulk"}; }
    void plan(Rng& r, Plan& p) override {
        p.cfg["type"]=r.pick({0,1,1,2,3,4,5}); i64 cap=r.pick({1,2,3,3,4,5,8,13}); if(r.chance(0.05)) cap=r.range(14,70); if(r.chance(0.004)) cap=r.range(200,300);
        i64 dom=cap+r.pick({1,1,2,4,cap}); p.cfg["cap"]=cap; p.cfg["dom"]=dom; if(r.chance(0.06)) p.cfg["cap"]=bounds[r.below(NB)]; int nops=int(r.pick({4,8,15,30,60})); if(cap>13) nops=int(cap*3+r.range(0,40));
        int twins= r.chance(0.25)? int(r.range(1,2)) : 0; std::vector<u32> mix; for(u32 c=0;c<NCODES;++c) { int k=int(r.below(3)); if(c==PUT) k+=4; if(c==GET) k+=1+int(r.below(4)); if(c==ZERO||c==GET_ALL) k=r.chance(0.15); if(c==COPY||c==TWIN) k=twins; if(c==REBUILD) k=r.chance(0.1); if(c==SPIN || c==BULK) k=0; while(k--) mix.push_back(c); }
        for(int i=0;i<nops;++i) p.add(0,mix[r.below(mix.size())],r.range(0,dom-1),r.range(1,9999),r.range(0,9));
        if(r.chance(0.02)) { bool far=r.chance(0.05); int n=int(r.range(1,3)); for(int i=0;i<n;++i) { p.add(0,SPIN,0,r.range(1,9999),far? (i? r.range(5000,50000) : r.pick({r.range(66000,70000),r.range(65500,65600),r.range(20000,66000)})) : r.range(100,2000),r.chance(0.3)? 0 : i64(r.next()&0x3fffffff)); if(r.chance(0.3)) p.add(0,GET,r.range(0,dom-1),r.range(1,9999),r.range(0,9)); } } if(r.chance(0.006)) { bool plain=p.cfg["type"]==4; p.add(0,BULK,0,r.range(1,999999),r.chance(0.3)? r.range(250,300) : i64(r.logu(plain? 2800 : 1500))+20,r.range(0,5)); }
        if(r.chance(0.5)) for(int i=0;i<4;++i) p.add(0,mix[r.below(mix.size())],r.range(0,dom-1),r.range(1,9999),r.range(0,9));
        double f= std::string(CHECK_ID)=="C04"? 0.4 : 1.0;
        plan_faults(r,p,FaultMix{{{K_ALLOC,0.25*f,6,0.2},{K_CTOR,0.25*f,8,0},{K_CMP,0.25*f,16,0},{K_ASSIGN,0.05*f,4,0}}},std::string(CHECK_ID)=="C04"? 0.5 : 0.1);
    }
    void setup(Plan const& p) override { i64 c=p.get("cap",1), d=p.get("dom",2);
        switch(p.get("type")) { case 0: w=new LruWorld<int,ElemC>(c,d); break; case 1: w=new LruWorld<ElemC,ElemC>(c,d); break; case 2: w=new LruWorld<std::string,Elem>(c,d); break; case 3: w=new LruWorld<ElemC,std::string>(c,d); break; case 4: w=new LruWorld<int,int>(c,d); break; default: w=new LruWorld<Elem,ElemL>(c,d); } }
    void exec(Op const& o) override { w->exec(o); }
    void finish() override { w->finish(); delete w; }
};
}
sim::Harness* sim::make_harness() { return new H4(); }
