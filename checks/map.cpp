// C17: Map and the free functions on maps.
#include "container.hpp"
#include "elem.hpp"
using namespace sim;
using Helper::List; using Helper::Set; using Helper::Map;
namespace {
enum Code { NEW, INSERT, INSERT_OWN, FREE_INSERT, INDEX, INDEX_CONST, GET, VALUE, HAS, ADJOIN, JOIN, REMOVE_KEYS, RESTRICT_KEYS, KEYS, VALUES, CONVERT, COPY, WRITE, NCODES };
static const int NS=3; static int NKEYS=14;
using M=std::map<int,int>;
template<int P, bool B> static int val(ElemT<P,B> const& e) { return e.get(); } static int val(int e) { return e; } static int val(double d) { return int(d); }
struct World { virtual ~World() = default; virtual void exec(Op const&) = 0; virtual void finish() = 0; };
template<class K, class T> struct W : World {
    using MP=Map<K,T>; MP* p_[NS]; M m[NS];
    W() { for(auto& x : p_) { Lib g; Quiet q; x=new MP(); } }
    template<class C> static M read(C const& c, const char* what) { std::vector<std::pair<int,int>> r; { Quiet q; Lib g; size_t n=c.size(), i=0; for(auto const& x : c) { if(i++>n) break; Harn h; r.push_back({val(x.first),val(x.second)}); } } M z(r.begin(),r.end()); if(z.size()!=r.size()) fail("not-a-map","%s: the map lists a key twice",what); for(size_t i=1;i<r.size();++i) if(!(r[i-1].first<r[i].first)) fail("not-a-map","%s: the map lists its keys out of order",what); return z; }
    static std::string show(M const& v) { std::string s; size_t i=0; for(auto& e : v) { if(i++>12) { s+=",..."; break; } s+=(i>1?",":"")+std::to_string(e.first)+":"+std::to_string(e.second); } return "{"+s+"}"; }
    void all(const char* what) { for(int i=0;i<NS;++i) { M g=read(*p_[i],what); if(g!=m[i]) fail("wrong-map","%s: map %d is %s, not %s",what,i,show(g).c_str(),show(m[i]).c_str()); } }
    //! want: the content after success; on failure every old entry stays (unless it was to go) and every new one is one of want's.
    void modify(int i, M const& want, const char* what, Result const& r) {
        if(r.ok()) m[i]=want; else { M g=read(*p_[i],what); for(auto& e : m[i]) if(want.count(e.first)) { auto f=g.find(e.first); if(f==g.end() || (f->second!=e.second && f->second!=want.at(e.first))) fail("partial-wrong","a failed %s lost or changed entry %d: %s became %s",what,e.first,show(m[i]).c_str(),show(g).c_str()); }
            for(auto& e : g) { auto f=m[i].find(e.first); if(f!=m[i].end()) { if(f->second!=e.second && !(want.count(e.first) && want.at(e.first)==e.second)) fail("partial-wrong","a failed %s changed entry %d",what,e.first); continue; } auto w=want.find(e.first); if(w==want.end() || w->second!=e.second) { if(index_default && w!=want.end() && e.second==0) continue; fail("partial-wrong","a failed %s added entry %d:%d; %s became %s",what,e.first,e.second,show(m[i]).c_str(),show(g).c_str()); } }
            if(g!=m[i]) probe("partly_modified"); m[i]=g; probe("modification_failed"); }
        all(what); }
    bool index_default=false;
    template<class F> void make(int d, M const& want, const char* what, F f) { MP* n=nullptr; Result r=attempt_only_faults([&]{ n=new MP(f()); });
        if(r.ok()) { M g=read(*n,what); if(g!=want) fail("wrong-map","%s gave %s, not %s",what,show(g).c_str(),show(want).c_str()); { Lib x; Quiet q; delete p_[d]; } p_[d]=n; m[d]=want; probe("made"); } else probe("make_failed"); all(what); }
    //! A lookup: f returns the address of what was found.
    template<class F> void lookup(int s, int k, const char* what, F f) { T const* y=nullptr; Result r=attempt([&]{ K kk(k); y=f(kk); }); bool has=m[s].count(k);
        if(r.ok()) { if(!has) fail("false-lookup","%s of absent key %d did not throw",what,k); if(!y) fail("wrong-value","%s of key %d gives a copy and does not refer into the map",what,k); int g; { Quiet q; g=val(*y); } if(g!=m[s][k]) fail("wrong-value","%s of key %d gave %d, not %d",what,k,g,m[s][k]); bool own=false; for(auto& e : *p_[s]) if(&e.second==y) own=true; if(!own) fail("wrong-value","%s of key %d does not refer into the map",what,k); probe("found"); }
        else if(r.faulted()) probe("lookup_failed"); else { if(has) fail("false-refusal","%s of present key %d threw %s",what,k,r.what.c_str()); probe("absent_refused"); }
        all(what); }
    void exec(Op const& o) override {
        int s=int(u64(o.a[0])%NS), t=int(u64(o.a[1])%NS); int k=int(u64(o.a[2])%NKEYS), v=int(u64(o.a[2])/NKEYS%50)+1; u64 x=u64(o.a[3]); M A=m[s], B=m[t], C; MP const& cs=*p_[s]; index_default=false;
        switch(o.code) {
        case NEW: { Rng q(u64(o.a[2])); u64 n=q.chance(0.6)? u64(q.range(3,14)) : q.logu(12); if(NKEYS>14) n= q.chance(0.5)? u64(NKEYS)-q.logu(u64(NKEYS)) : q.logu(u64(NKEYS)); for(u64 i=0;i<n;++i) C[int(q.range(0,NKEYS-1))]=int(q.range(1,50)); switch(x%7%4) { case 0: { std::map<K,T>* sm; { Lib g; Quiet qq; sm=new std::map<K,T>(C.begin(),C.end()); } make(s,C,"Map of a std::map",[&]{ return MP(*sm); }); { Lib g; Quiet qq; delete sm; } break; }
            case 1: make(s,C,"Map of a range",[&]{ return MP(C.begin(),C.end()); }); break; case 2: { std::map<K,int>* sm; { Lib g; Quiet qq; sm=new std::map<K,int>(C.begin(),C.end()); } make(s,C,"Map of a map with other values",[&]{ return MP(*sm); }); { Lib g; Quiet qq; delete sm; } probe("converted"); break; } default: make(s,M(),"empty Map",[&]{ return MP(); }); } break; }
        case INSERT: { C=A; C.insert({k,v}); if(A.count(k)) probe("insert_present"); modify(s,C,"insert",attempt_only_faults([&]{ K kk(k); T vv(v); if(x%3==0) p_[s]->insert(kk,vv); else if(x%3==1) p_[s]->insert(std::pair<K,T>(kk,vv)); else { std::pair<K,T> const kv(kk,vv); p_[s]->insert(kv); } })); break; }
        case INSERT_OWN: if(!A.empty()) { auto it=p_[s]->begin(); std::advance(it,long(x%A.size())); auto jt=A.begin(); std::advance(jt,long(x%A.size())); C=A; if(o.a[2]%2) { C.insert({k,jt->second}); modify(s,C,"insert of an own value",attempt_only_faults([&]{ K kk(k); p_[s]->insert(kk,it->second); })); } else modify(s,C,"insert of an own entry",attempt_only_faults([&]{ p_[s]->insert(it->first,it->second); })); probe("insert_own"); } break;
        case FREE_INSERT: { C=A; C.insert({k,v}); T* ref=nullptr; Result r=attempt_only_faults([&]{ K kk(k); T vv(v); ref=object_of(Helper::insert(*p_[s],kk,vv)); }); modify(s,C,"insert(m,k,v)",r); if(r.ok()) { if(!ref) fail("wrong-value","insert(m,%d,%d) does not refer to the entry",k,v); int g; { Quiet q; g=val(*ref); } if(g!=C[k]) fail("wrong-value","insert(m,%d,%d) refers to %d, not %d",k,v,g,C[k]); } break; }
        case INDEX: { C=A; C.insert({k,0}); index_default=true; T* ref=nullptr; Result r=attempt_only_faults([&]{ K kk(k); ref=object_of((*p_[s])[kk]); }); modify(s,C,"operator[]",r); if(r.ok()) { if(!ref) fail("wrong-value","operator[] of %d does not refer to the entry",k); int g; { Quiet q; g=val(*ref); } if(g!=C[k]) fail("wrong-value","operator[] of %d gave %d, not %d",k,g,C[k]); } break; }
        case WRITE: { C=A; C[k]=v; index_default=true; modify(s,C,"m[k]=v",attempt_only_faults([&]{ K kk(k); T vv(v); assign_to((*p_[s])[kk],vv); })); break; }
        case INDEX_CONST: lookup(s,k,"constant operator[]",[&](K const& kk) { return object_of(cs[kk]); }); break;
        case GET: lookup(s,k,"get",[&](K const& kk) { return object_of(cs.get(kk)); }); break;
        case VALUE: if(x%2) lookup(s,k,"value",[&](K const& kk) { return object_of(p_[s]->value(kk)); }); else lookup(s,k,"constant value",[&](K const& kk) { return object_of(cs.value(kk)); }); break;
        case HAS: { bool h=false; Result r=attempt_only_faults([&]{ K kk(k); h=cs.has_key(kk); }); if(r.ok() && h!=bool(A.count(k))) fail("wrong-answer","has_key(%s,%d) is %d",show(A).c_str(),k,h); all("has_key"); break; }
        case ADJOIN: { C=A; C.insert(B.begin(),B.end()); if(s==t) probe("adjoin_self"); bool clash=false; for(auto& e : B) if(A.count(e.first) && A[e.first]!=e.second) clash=true; if(clash) probe("adjoin_clash"); modify(s,C,"adjoin",attempt_only_faults([&]{ p_[s]->adjoin(*p_[t]); })); break; }
        case JOIN: { C=A; C.insert(B.begin(),B.end()); make(int(x%NS),C,"join",[&]{ return join(*p_[s],*p_[t]); }); break; }
        case REMOVE_KEYS: case RESTRICT_KEYS: { Set<K>* ks; std::set<int> kk; if(x%5==0) { for(auto& e : B) kk.insert(e.first); } else { Rng q(x); u64 n=q.logu(NKEYS>14? u64(NKEYS) : 10); for(u64 i=0;i<n;++i) kk.insert(int(q.range(0,NKEYS-1))); } { Lib g; Quiet q; ks=new Set<K>(kk.begin(),kk.end()); }
            for(auto& e : A) if(bool(kk.count(e.first))==(o.code==RESTRICT_KEYS)) C.insert(e);
            if(o.code==REMOVE_KEYS) modify(s,C,"remove_keys",attempt_only_faults([&]{ p_[s]->remove_keys(*ks); })); else make(t,C,"restrict_keys",[&]{ return restrict_keys(*p_[s],*ks); });
            std::set<int> g; { Quiet q; for(auto& e : *ks) g.insert(val(e)); } if(g!=kk) fail("argument-changed","the key set was changed"); { Lib l; Quiet q; delete ks; } break; }
        case KEYS: { Set<K>* n=nullptr; Result r=attempt_only_faults([&]{ n=new Set<K>(cs.keys()); }); if(r.ok()) { std::vector<int> g,w; { Quiet q; for(auto& e : *n) g.push_back(val(e)); } for(auto& e : A) w.push_back(e.first); if(g!=w) fail("wrong-keys","the keys of %s are wrong",show(A).c_str()); Lib l; Quiet q; delete n; } all("keys"); break; }
        case VALUES: { List<T>* n=nullptr; Result r=attempt_only_faults([&]{ n=new List<T>(cs.values()); }); if(r.ok()) { std::vector<int> g,w; { Quiet q; for(auto& e : *n) g.push_back(val(e)); } for(auto& e : A) w.push_back(e.second); if(g!=w) fail("wrong-values","the values of %s are wrong",show(A).c_str()); Lib l; Quiet q; delete n; } all("values"); break; }
        case CONVERT: { if constexpr(std::is_same_v<T,int>) { Map<K,double>* n=nullptr; Result r=attempt_only_faults([&]{ n=new Map<K,double>(*p_[s]); }); if(r.ok()) { M g=read(*n,"conversion"); if(g!=A) fail("wrong-map","conversion of %s gave %s",show(A).c_str(),show(g).c_str()); Lib l; Quiet q; delete n; probe("converted"); } all("conversion"); } break; }
        case COPY: if(x%2) make(s,B,"copy",[&]{ return MP(*p_[t]); }); else { Result r=attempt_only_faults([&]{ *p_[s]=*p_[t]; }); if(r.ok()) m[s]=B; else m[s]=read(*p_[s],"assignment"); all("assignment"); } break;
        }
    }
    void finish() override { for(auto& x : p_) { Lib g; delete x; } }
};
struct H : Harness {
    std::unique_ptr<World> w;
    const char* property() const override { return CHECK_ID; }
    std::vector<std::string> op_names() const override { return {"new","insert","insert_own","free_insert","index","index_const","get","value","has_key","adjoin","join","remove_keys","restrict_keys","keys","values","convert","copy","write"}; }
    void plan(Rng& r, Plan& p) override {
        p.cfg["type"]=r.range(0,3); int n=int(r.range(2,26)); if(r.chance(0.01)) p.cfg["keys"]=r.chance(0.2)? r.range(900,6000) : r.range(300,900); if(r.chance(0.001)) { p.cfg["keys"]=150000; p.cfg["type"]=3; n=int(r.range(2,6)); }
        for(int i=0;i<NS;++i) if(r.chance(0.8)) p.add(0,NEW,i,0,r.range(0,99999),r.range(0,999));
        for(int i=0;i<n;++i) { i64 s=r.range(0,NS-1); p.add(0,u32(r.range(0,NCODES-1)),s,r.chance(0.25)? s : r.range(0,NS-1),r.range(0,99999),r.range(0,99999)); }
        plan_faults(r,p,{{{K_ALLOC,0.2,8,0.4},{K_CTOR,0.2,14,0.2},{K_CMP,0.25,30,0.1},{K_ASSIGN,0.05,4,0}}},0.25);
    }
    void setup(Plan const& p) override { NKEYS=int(p.get("keys",14)); if(NKEYS>256) probe("large_maps"); switch(p.get("type",0)%4) { case 0: w.reset(new W<Elem,Elem>()); break; case 1: w.reset(new W<ElemC,ElemL>()); break; case 2: w.reset(new W<int,Elem>()); break; default: w.reset(new W<Elem,int>()); } }
    void exec(Op const& o) override { w->exec(o); }
    void finish() override { w->finish(); w.reset(); }
};
}
sim::Harness* sim::make_harness() { return new H(); }
