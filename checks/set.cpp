// C16: Set and the free functions on sets.
#include "container.hpp"
#include "elem.hpp"
using namespace sim;
using Helper::List; using Helper::Set;
namespace {
enum Code { NEW, INSERT, ADJOIN, REMOVE, REMOVE_OWN, REMOVE_SET, REMOVE_VEC, RESTRICT, JOIN, INTER, INTER_VEC, DIFF, QUERY, QUERY2, APPLY, COPY, MAKE, NCODES };
static const int NS=4; static int NV=24;     // elements are 0..NV-1
using V=std::vector<int>; using S=std::set<int>;
template<int P, bool M> static int val(ElemT<P,M> const& e) { return e.get(); } static int val(int e) { return e; }
template<class T> struct Fn { int k; T operator()(T const& x) const { int v; { Harn h; v=val(x); } callback_point(); return T(v/2+k); } };
template<class T> struct FnInt { int k; int operator()(T const& x) const { int v; { Harn h; v=val(x); } callback_point(); return v/3+k; } };
struct Tok { int v; explicit operator ElemL() const { return ElemL(v); } bool operator<(Tok const& o) const { return v<o.v; } };
struct World { virtual ~World() = default; virtual void exec(Op const&) = 0; virtual void finish() = 0; };
template<class T> struct W : World {
    Set<T>* s_[NS]; S m[NS];
    W() { for(auto& x : s_) { Lib g; Quiet q; x=new Set<T>(); } }
    template<class C> static S read(C const& c, const char* what) { V r; { Quiet q; Lib g; size_t n=c.size(), i=0; for(auto const& x : c) { if(i++>n) break; Harn h; r.push_back(val(x)); } } S z(r.begin(),r.end()); if(z.size()!=r.size() || !std::is_sorted(r.begin(),r.end())) fail("not-a-set","%s: the set lists repeated or unordered elements",what); return z; }
    static std::string show(S const& v) { std::string s; size_t i=0; for(int e : v) { if(i++>12) { s+=",..."; break; } s+=(i>1?",":"")+std::to_string(e); } return "{"+s+"}"; }
    void all(const char* what) { for(int i=0;i<NS;++i) { S g=read(*s_[i],what); if(g!=m[i]) fail("wrong-set","%s: set %d is %s, not %s",what,i,show(g).c_str(),show(m[i]).c_str()); } }
    void modify(int i, S const& want, const char* what, Result const& r) {
        if(r.ok()) m[i]=want; else { S g=read(*s_[i],what); for(int e : m[i]) if(want.count(e) && !g.count(e)) fail("partial-wrong","a failed %s lost %d: %s became %s on the way to %s",what,e,show(m[i]).c_str(),show(g).c_str(),show(want).c_str());
            for(int e : g) if(!m[i].count(e) && !want.count(e)) fail("partial-wrong","a failed %s added %d: %s became %s on the way to %s",what,e,show(m[i]).c_str(),show(g).c_str(),show(want).c_str()); if(g!=m[i]) probe("partly_modified"); m[i]=g; probe("modification_failed"); }
        all(what); }
    template<class F> void make(int d, S const& want, const char* what, F f) { Set<T>* n=nullptr; Result r=attempt_only_faults([&]{ n=new Set<T>(f()); });
        if(r.ok()) { S g=read(*n,what); if(g!=want) fail("wrong-set","%s gave %s, not %s",what,show(g).c_str(),show(want).c_str()); { Lib x; Quiet q; delete s_[d]; } s_[d]=n; m[d]=want; probe("made"); } else probe("make_failed"); all(what); }
    void exec(Op const& o) override {
        int s=int(u64(o.a[0])%NS), t=int(u64(o.a[1])%NS); int v=int(o.a[2]%NV); u64 x=u64(o.a[3]); S A=m[s], B=m[t], C;
        std::vector<T>* lst=nullptr; V lv;
        if(o.code==NEW||o.code==REMOVE_VEC||o.code==INTER_VEC||o.code==QUERY2||o.code==MAKE) { Rng q(u64(o.a[2])*3+1); u64 n=q.chance(0.6)? u64(q.range(2,18)) : q.logu(20); if(NV>24) n= q.chance(0.5)? u64(NV)-q.logu(u64(NV)) : q.logu(u64(NV)); for(u64 i=0;i<n;++i) lv.push_back(int(q.range(0,NV-1))); Lib g; Quiet qq; lst=new std::vector<T>(lv.begin(),lv.end()); }
        S L(lv.begin(),lv.end());
        switch(o.code) {
        case NEW: switch(x%11%8) { case 0: make(s,L,"Set of a range",[&]{ return Set<T>(lv.begin(),lv.end()); }); break; case 1: make(s,L,"Set of a vector",[&]{ return Set<T>(*lst); }); break; case 2: make(s,S{v,3,v+1},"Set of a list",[&]{ return Set<T>({T(v),T(3),T(v+1)}); }); break;
            case 3: if constexpr(!std::is_same_v<T,int>) make(s,L,"Set of a set of another type",[&]{ return Set<T>(L); }); break; case 4: if constexpr(!std::is_same_v<T,int>) make(s,L,"Set of a vector of another type",[&]{ return Set<T>(lv); }); break;
            case 5: if constexpr(!std::is_same_v<T,int>) make(s,S{v,3,v+1},"Set of a list of another type",[&]{ std::initializer_list<int> il={v,3,v+1}; return Set<T>(il); }); break;
            case 6: if constexpr(std::is_same_v<T,ElemL>) { make(s,L,"Set of a set of an explicitly convertible type",[&]{ std::set<Tok> ts; { Harn h; for(int e : L) ts.insert(Tok{e}); } return Set<T>(ts); }); } break;
            default: make(s,S(),"empty Set",[&]{ return Set<T>(); }); } break;
        case INSERT: { C=A; C.insert(v); modify(s,C,"insert",attempt_only_faults([&]{ T y(v); s_[s]->insert(y); })); break; }
        case ADJOIN: { C=A; C.insert(B.begin(),B.end()); if(s==t) probe("with_itself"); modify(s,C,"adjoin",attempt_only_faults([&]{ if(object_of(s_[s]->adjoin(*s_[t]))!=s_[s]) { Harn h; fail("wrong-result","adjoin does not return the set"); } })); break; }
        case REMOVE: { C=A; C.erase(v); modify(s,C,"remove of an element",attempt_only_faults([&]{ T y(v); s_[s]->remove(y); })); break; }
        case REMOVE_OWN: if(!A.empty()) { size_t i=x%A.size(); auto it=s_[s]->begin(); std::advance(it,long(i)); C=A; auto jt=C.begin(); std::advance(jt,long(i)); C.erase(jt); probe("remove_own"); modify(s,C,"remove of an own element",attempt_only_faults([&]{ s_[s]->remove(*it); })); } break;
        case REMOVE_SET: { for(int e : A) if(!B.count(e)) C.insert(e); if(s==t) probe("with_itself"); modify(s,C,"remove of a set",attempt_only_faults([&]{ if(x%2) s_[s]->remove(*s_[t]); else { std::set<T>& a=*s_[s]; std::set<T> const& b=*s_[t]; Helper::remove(a,b); } })); break; }
        case REMOVE_VEC: { for(int e : A) if(!L.count(e)) C.insert(e); modify(s,C,"remove of a vector",attempt_only_faults([&]{ s_[s]->remove(*lst); })); break; }
        case RESTRICT: { for(int e : A) if(B.count(e)) C.insert(e); if(s==t) probe("with_itself"); modify(s,C,"restrict",attempt_only_faults([&]{ if(x%2) s_[s]->restrict(*s_[t]); else { std::set<T>& a=*s_[s]; std::set<T> const& b=*s_[t]; Helper::restrict(a,b); } })); break; }
        case JOIN: { C=A; C.insert(B.begin(),B.end()); make(int(x%NS),C,"join",[&]{ return join(*s_[s],*s_[t]); }); break; }
        case INTER: { for(int e : A) if(B.count(e)) C.insert(e); make(int(x%NS),C,"intersection",[&]{ return intersection(*s_[s],*s_[t]); }); break; }
        case INTER_VEC: { for(int e : A) if(L.count(e)) C.insert(e); make(int(x%NS),C,"intersection with a vector",[&]{ return intersection(*s_[s],*lst); }); break; }
        case DIFF: { for(int e : A) if(!B.count(e)) C.insert(e); make(int(x%NS),C,"difference",[&]{ return difference(*s_[s],*s_[t]); }); break; }
        case QUERY: { bool c1=false,c2=false; Result r=attempt_only_faults([&]{ T y(v); c1=s_[s]->contains(y); c2=Helper::contains(*s_[s],y); }); if(r.ok() && (c1!=bool(A.count(v)) || c2!=c1)) fail("wrong-answer","contains(%s,%d) is %d/%d",show(A).c_str(),v,c1,c2); all("contains"); break; }
        case QUERY2: { bool sub=false,mem=false,d1=false,d2=false,d3=false,d4=false; Result r=attempt_only_faults([&]{ sub=subset(*s_[s],*s_[t]); mem=s_[s]->subset(*s_[t]); d1=disjoint(*s_[s],*s_[t]); d2=s_[s]->disjoint(*s_[t]); d3=s_[s]->disjoint(*lst); std::set<T> const& a=*s_[s]; std::vector<T> const& b=*lst; d4=Helper::disjoint(a,b); });
            if(r.ok()) { bool ws=std::includes(B.begin(),B.end(),A.begin(),A.end()), wd=true, wl=true; for(int e : A) { if(B.count(e)) wd=false; if(L.count(e)) wl=false; }
                if(mem!=std::includes(A.begin(),A.end(),B.begin(),B.end())) fail("wrong-answer","%s.subset(%s), which tells whether it has every element of the argument, is %d",show(A).c_str(),show(B).c_str(),mem); if(sub!=ws) fail("wrong-answer","subset(%s,%s) is %d",show(A).c_str(),show(B).c_str(),sub); if(d1!=wd||d2!=wd) fail("wrong-answer","disjoint(%s,%s) is %d/%d",show(A).c_str(),show(B).c_str(),d1,d2); if(d3!=wl||d4!=wl) fail("wrong-answer","disjoint(%s,vector %s) is %d/%d",show(A).c_str(),show(L).c_str(),d3,d4); if(ws && A!=B && !A.empty()) probe("proper_subset"); if(wd && !A.empty() && !B.empty()) probe("disjoint"); }
            all("subset and disjoint"); break; }
        case APPLY: { if(x%2) { for(int e : A) C.insert(e/2+1); make(t,C,"apply",[&]{ Fn<T> f{1}; return Helper::apply(f,*s_[s]); }); } else { for(int e : A) C.insert(e/3+2); Set<int>* n=nullptr; Result r=attempt_only_faults([&]{ FnInt<T> f{2}; n=new Set<int>(Helper::apply(f,*s_[s])); }); if(r.ok()) { S g=read(*n,"apply"); if(g!=C) fail("wrong-set","apply gave %s, not %s",show(g).c_str(),show(C).c_str()); Lib h; Quiet q; delete n; } all("apply"); } break; }
        case COPY: if(x%2) make(s,B,"copy",[&]{ return Set<T>(*s_[t]); }); else { Result r=attempt_only_faults([&]{ *s_[s]=*s_[t]; }); if(r.ok()) m[s]=B; else m[s]=read(*s_[s],"assignment"); all("assignment"); } break;
        case MAKE: if(x%2) make(s,L,"make_set",[&]{ return Helper::make_set(*lst); }); else { List<T>* n=nullptr; Result r=attempt_only_faults([&]{ n=new List<T>(static_cast<List<T>>(*s_[s])); }); if(r.ok()) { V g; { Quiet q; for(auto& e : *n) g.push_back(val(e)); } if(g!=V(A.begin(),A.end())) fail("wrong-set","the list of %s has other items",show(A).c_str()); Lib h; Quiet q; delete n; } all("list of a set"); } break;
        }
        if(lst) { V g; { Quiet q; for(auto& e : *lst) g.push_back(val(e)); } if(g!=lv) fail("argument-changed","a vector argument was changed"); Lib g2; Quiet q; delete lst; }
    }
    void finish() override { for(auto& x : s_) { Lib g; delete x; } }
};
struct H : Harness {
    std::unique_ptr<World> w;
    const char* property() const override { return CHECK_ID; }
    std::vector<std::string> op_names() const override { return {"new","insert","adjoin","remove","remove_own","remove_set","remove_vec","restrict","join","intersection","intersection_vec","difference","contains","subset_disjoint","apply","copy","make"}; }
    void plan(Rng& r, Plan& p) override {
        p.cfg["type"]=r.range(0,3); int n=int(r.range(2,26)); if(r.chance(0.01)) p.cfg["elements"]=r.chance(0.2)? r.range(900,6000) : r.range(300,900); if(r.chance(0.001)) { p.cfg["elements"]=150000; p.cfg["type"]=3; n=int(r.range(2,6)); }
        for(int i=0;i<NS;++i) if(r.chance(0.8)) p.add(0,NEW,i,0,r.range(0,99999),r.range(0,999));
        for(int i=0;i<n;++i) { i64 s=r.range(0,NS-1); p.add(0,u32(r.range(0,NCODES-1)),s,r.chance(0.25)? s : r.range(0,NS-1),r.range(0,99999),r.range(0,99999)); }
        plan_faults(r,p,{{{K_ALLOC,0.2,8,0.4},{K_CTOR,0.2,14,0.2},{K_CALL,0.1,8,0},{K_CMP,0.3,30,0.1},{K_ASSIGN,0.05,8,0}}},0.25);
    }
    void setup(Plan const& p) override { NV=int(p.get("elements",24)); if(NV>256) probe("large_sets"); switch(p.get("type",0)%4) { case 0: w.reset(new W<Elem>()); break; case 1: w.reset(new W<ElemC>()); break; case 2: w.reset(new W<ElemL>()); break; default: w.reset(new W<int>()); } }
    void exec(Op const& o) override { w->exec(o); }
    void finish() override { w->finish(); w.reset(); }
};
}
sim::Harness* sim::make_harness() { return new H(); }
