// C23: tuples and pairs of references, access to components, and complements of index sets, with components and allocations that can fail.
#include <cstdlib>
#include <iostream>
#include <array>
#include <string>
#include <type_traits>
#include <memory>
#include "array.hpp"
#include "tuple.hpp"
#include "elem.hpp"
using namespace sim;
using namespace Helper;
namespace {
//! Whether an expression gives the very object (and not, say, a copy of it).
template<class A, class B> static bool is_the(A&& a, B const* b) { return static_cast<void const*>(std::addressof(a))==static_cast<void const*>(b); }
enum Code { COMPLEMENT, ACCESS, ACCESS_CONST, ACCESS_RVALUE, TAKE, LPAIR, LTUPLE, LREAD, LWRITE, COMMON, NCODES };
static const int NT=3, N=5;
template<int K> struct Kth { };
template<class T> static decltype(auto) kth(T&& t, Kth<0>) { return get_first(std::forward<T>(t)); } template<class T> static decltype(auto) kth(T&& t, Kth<1>) { return get_second(std::forward<T>(t)); } template<class T> static decltype(auto) kth(T&& t, Kth<2>) { return get_third(std::forward<T>(t)); }
template<class T> static decltype(auto) kth(T&& t, Kth<3>) { return get_fourth(std::forward<T>(t)); } template<class T> static decltype(auto) kth(T&& t, Kth<4>) { return get_fifth(std::forward<T>(t)); }
struct H : Harness {
    using T5=std::tuple<Elem,ElemC,std::string,Elem,int>; using A5=std::array<Elem,5>; using P2=std::pair<Elem,std::string>;
    struct World { T5* t=nullptr; A5* a=nullptr; P2* p=nullptr; int tv[N], av[N], pv[2]; } w[NT]; T5* com=nullptr; Array<size_t>* comset=nullptr; std::vector<size_t> comwant; int nt=1;
    static std::string text(int v) { return std::string(size_t(20+(v<0?-v:v)%30),char('a'+(v<0?-v:v)%26)); }
    const char* property() const override { return CHECK_ID; }
    std::vector<std::string> op_names() const override { return {"complement","access","access_const","access_rvalue","take","lpair","ltuple","read_through_ltuple","write_through_ltuple","common"}; }
    void plan(Rng& r, Plan& p) override {
        nt= r.chance(0.35)? int(r.range(2,NT)) : 1; p.cfg["threads"]=nt; p.cfg["first"]=r.range(0,nt-1); p.cfg["set"]=r.range(0,9999);
        int n=int(r.pick({3,8,20,50}))*nt; for(int i=0;i<n;++i) { u32 k=u32(r.below(NCODES)); if(r.chance(0.15)) k=COMPLEMENT; i64 size= k!=COMPLEMENT? r.range(0,30) : r.chance(0.02)? r.range(60000,100000) : r.chance(0.1)? r.range(100,3000) : r.range(0,20); p.add(u32(r.below(u64(nt))),k,r.range(0,4),size,r.range(0,99999),r.range(1,900)); }
        if(nt>1) plan_schedule(r,p,nt,0.6,150);
        plan_faults(r,p,{{{K_ALLOC,0.25,4,0.3},{K_CTOR,0.1,6,0},{K_ASSIGN,0.25,4,0}}},0.3);
    }
    static std::vector<size_t> subset(u64 seed, size_t n) { Rng q{u64(seed*31+n)}; std::vector<size_t> s; int style=int(q.below(6)); double d= style==0? 0.0 : style==1? 1.0 : double(q.below(1001))/1000.0; for(size_t i=0;i<n;++i) if(q.chance(d) || (style==2 && i==0) || (style==3 && i+1==n)) s.push_back(i); return s; }
    static std::vector<size_t> rest(std::vector<size_t> const& s, size_t n) { std::vector<bool> in(n,false); for(size_t i : s) in[i]=true; std::vector<size_t> r; for(size_t i=0;i<n;++i) if(!in[i]) r.push_back(i); return r; }
    void setup(Plan const& p) override {
        nt=std::min(NT,std::max(1,int(p.get("threads",1)))); Quiet q; std::vector<size_t> s=subset(u64(p.get("set",1)),40); comwant=rest(s,40); Lib l;
        for(int t=0;t<nt;++t) { World& x=w[t]; x.t=new T5(Elem(1),ElemC(2),text(3),Elem(4),5); x.a=new A5{Elem(1),Elem(2),Elem(3),Elem(4),Elem(5)}; x.p=new P2(Elem(1),text(2)); for(int i=0;i<N;++i) x.tv[i]=x.av[i]=i+1; x.pv[0]=1; x.pv[1]=2; }
        com=new T5(Elem(1),ElemC(2),text(3),Elem(4),5); comset=new Array<size_t>(s.begin(),s.end());
    }
    void after(Result const& r, const char* what) { if(r.o==OTHER_) fail("unexpected-exception","%s threw %s",what,r.what.c_str()); probe("failed"); }
    void look(World& x) {
        bool ok; { Quiet q; Lib l; T5 const& t=*x.t; ok=std::get<0>(t).get()==x.tv[0] && std::get<1>(t).get()==x.tv[1] && std::get<2>(t)==text(x.tv[2]) && std::get<3>(t).get()==x.tv[3] && std::get<4>(t)==x.tv[4]; } if(!ok) fail("value","a component of a tuple changed, or was not changed");
        { Quiet q; Lib l; for(int i=0;i<N;++i) ok=ok && (*x.a)[size_t(i)].get()==x.av[i]; } if(!ok) fail("value","an item of an array of five changed, or was not changed");
        { Quiet q; Lib l; ok=x.p->first.get()==x.pv[0] && x.p->second==text(x.pv[1]); } if(!ok) fail("value","a component of a pair changed, or was not changed");
    }
    void complement_of(Op const& o) {
        size_t n=size_t(o.a[1]); std::vector<size_t> s=subset(u64(o.a[2]),n), want=rest(s,n); std::vector<size_t> got, again; bool equal=true;
        Result r=attempt([&]{ Array<size_t> v(s.begin(),s.end()); Array<size_t> c= o.a[3]%2? complement(n,v) : complement(n,Array<size_t>(s.begin(),s.end())); { Harn h; got.assign(c.begin(),c.end()); again.assign(v.begin(),v.end()); } if(o.a[3]%3==0) { Array<size_t> b=complement(n,c); equal=b==v; } });
        if(!r.ok()) { after(r,"complement"); probe("complement_failed"); return; }
        if(got!=want) fail("complement","the complement of %zu indices below %zu has %zu indices and is not the other %zu",s.size(),n,got.size(),want.size()); if(again!=s) fail("complement","taking the complement changed the index set"); if(!equal) fail("complement","the complement of the complement is another set"); probe("complement"); if(n>65536) probe("large_complement"); log(got.size()); }
    template<int K> void access(World& x, int how) {
        bool same=true, type=true, ptype=true; auto const* at=&std::get<size_t(K)>(*x.t); Elem const* aat=&(*x.a)[size_t(K)]; Result r; using C=std::tuple_element_t<size_t(K),T5>; Kth<K> k;
        switch(how) {
        case 0: r=attempt([&]{ auto&& y=kth(*x.t,k); same=&y==at && is_the(kth(*x.a,k),aat); type=std::is_same_v<decltype(kth(*x.t,k)),C&>; if constexpr(K<2) { auto const* pat=&std::get<size_t(K)>(*x.p); same=same && is_the(kth(*x.p,k),pat); } }); break;
        case 1: r=attempt([&]{ T5 const& t=*x.t; A5 const& a=*x.a; auto&& y=kth(t,k); same=&y==at && is_the(kth(a,k),aat); type=std::is_same_v<decltype(kth(t,k)),C const&>; if constexpr(K<2) { P2 const& p=*x.p; auto const* pat=&std::get<size_t(K)>(*x.p); same=same && is_the(kth(p,k),pat); } }); break;
        default: r=attempt([&]{ auto&& y=kth(std::move(*x.t),k); same=&y==at; type=std::is_same_v<decltype(kth(std::move(*x.t),k)),C&&>; auto&& z=kth(std::move(*x.a),k); same=same && &z==aat; }); break;
        }
        (void)ptype; if(!r.ok()) fail("unexpected-exception","access to a component threw %s",r.what.c_str()); if(!same) fail("component","access to component %d gives another object",K+1); if(!type) fail("component","access to component %d gives another kind of reference",K+1); probe("access"); if(nt>1) probe("access_in_threads"); }
    template<int K> void take(World& x, int v) {     // a component taken from a tuple that is given up
        bool right=false; Result r=attempt([&]{ T5 t(Elem(v),ElemC(v+1),text(v+2),Elem(v+3),v+4); auto y=kth(std::move(t),Kth<K>()); if constexpr(K==2) right=y==text(v+2); else if constexpr(K==4) right=y==v+4; else right=y.get()==v+K; });
        if(r.ok()) { if(!right) fail("component","component %d taken from a tuple has another value",K+1); } else after(r,"taking a component"); (void)x; }
    template<class F> static void by_index(int k, F f) { switch(k) { case 0: f(std::integral_constant<int,0>()); break; case 1: f(std::integral_constant<int,1>()); break; case 2: f(std::integral_constant<int,2>()); break; case 3: f(std::integral_constant<int,3>()); break; default: f(std::integral_constant<int,4>()); } }
    void exec(Op const& o) override {
        World& x=w[self()]; int k=int(u64(o.a[0])%N), v=int(o.a[3]); Result r;
        switch(o.code) {
        case COMPLEMENT: complement_of(o); break;
        case ACCESS: by_index(k,[&](auto i) { access<i>(x,0); }); break;
        case ACCESS_CONST: by_index(k,[&](auto i) { access<i>(x,1); }); break;
        case ACCESS_RVALUE: by_index(k,[&](auto i) { access<i>(x,2); }); break;
        case TAKE: by_index(k,[&](auto i) { take<i>(x,v); }); break;
        // assigning to a pair or tuple of references assigns to the variables, one after the other
        case LPAIR: { Elem a(0), b(0); { Quiet q; a.set(-1); b.set(-2); } bool same=false; r=attempt([&]{ auto p=make_lpair(a,b); same=&p.first==&a && &p.second==&b && is_the(get_first(p),&a) && is_the(get_second(p),&b); p=std::pair<Elem,Elem>(Elem(v),Elem(v+1)); }); int ga,gb; { ga=a.get(); gb=b.get(); }
            if(r.ok()) { if(!same) fail("component","a pair of references refers to other objects"); if(ga!=v || gb!=v+1) fail("value","assigning to a pair of references gives (%d,%d)",ga,gb); probe("lpair"); } else { after(r,"assigning to a pair of references"); if((ga!=-1 && ga!=v) || (gb!=-2 && gb!=v+1)) fail("value","a failed assignment to a pair of references gives (%d,%d)",ga,gb); } break; }
        case LTUPLE: { std::string s=text(v); bool same=false; int old[N]; std::copy(x.tv,x.tv+N,old); r=attempt([&]{ T5& t=*x.t; auto l=make_ltuple(std::get<0>(t),std::get<1>(t),std::get<2>(t),std::get<3>(t),std::get<4>(t)); same=is_the(get_first(l),&std::get<0>(t)) && is_the(get_second(l),&std::get<1>(t)) && is_the(get_third(l),&std::get<2>(t)) && is_the(get_fourth(l),&std::get<3>(t)) && is_the(get_fifth(l),&std::get<4>(t)); l=std::make_tuple(Elem(v),ElemC(v+1),s,Elem(v+3),v+4); });
            if(r.ok()) { if(!same) fail("component","a tuple of references refers to other objects"); x.tv[0]=v; x.tv[1]=v+1; x.tv[2]=v; x.tv[3]=v+3; x.tv[4]=v+4; probe("ltuple"); } else { after(r,"assigning to a tuple of references"); resync(x,old,v,s); } break; }
        case LREAD: { Elem a(0); std::string s; int i=0; { Quiet q; a.set(-5); } bool ok=true; r=attempt([&]{ T5 const& t=*x.t; make_ltuple(a,s)=std::tuple<Elem const&,std::string const&>(std::get<0>(t),std::get<2>(t)); make_ltuple(i)=std::tuple<int>(std::get<4>(t)); auto l1=make_lpair(i,s); ok=is_the(get_first(l1),&i) && is_the(get_second(l1),&s); ok=ok && is_the(get_first(make_ltuple(s)),&s); }); if(r.ok()) { if(!ok) fail("component","a pair of references refers to other objects"); if(a.get()!=x.tv[0] || s!=text(x.tv[2]) || i!=x.tv[4]) fail("value","reading into a tuple of references gives other values"); } else after(r,"assigning to a tuple of references"); break; }
        case LWRITE: { bool done=false; r=attempt([&]{ switch(k) { case 0: assign_to(get_first(*x.t),Elem(v)); done=true; break; case 3: assign_to(get_fourth(*x.t),Elem(v)); done=true; break; case 4: assign_to(get_fifth(*x.t),v); done=true; break; case 1: assign_to(get_second(*x.a),Elem(v)); done=true; break; default: assign_to(get_second(*x.p),text(v)); done=true; } }); if(r.ok() && done) { switch(k) { case 0: x.tv[0]=v; break; case 3: x.tv[3]=v; break; case 4: x.tv[4]=v; break; case 1: x.av[1]=v; break; default: x.pv[1]=v; } } else after(r,"writing a component"); break; }
        case COMMON: { bool same=true; std::vector<size_t> got; r=attempt([&]{ T5 const& t=*com; same=get_first(t).get()==1 && get_second(t).get()==2 && get_third(t)==text(3) && get_fourth(t).get()==4 && get_fifth(t)==5; Array<size_t> c=complement(40,*comset); Harn h; got.assign(c.begin(),c.end()); }); if(r.ok()) { if(!same) fail("value","a constant tuple shows something else to one of several readers"); if(got!=comwant) fail("complement","the complement of a constant index set is wrong"); probe("common"); } else after(r,"reading a constant"); break; }
        }
        look(x);
    }
    //! After a failed assignment each component has its old or its new value.
    void resync(World& x, int const* old, int v, std::string const& s) {
        int g0,g1,g3,g4; std::string g2; { Quiet q; Lib l; g0=std::get<0>(*x.t).get(); g1=std::get<1>(*x.t).get(); g3=std::get<3>(*x.t).get(); g4=std::get<4>(*x.t); Harn h; g2=std::get<2>(*x.t); }
        if((g0!=old[0] && g0!=v) || (g1!=old[1] && g1!=v+1) || (g2!=text(old[2]) && g2!=s) || (g3!=old[3] && g3!=v+3) || (g4!=old[4] && g4!=v+4)) fail("value","a failed assignment to a tuple of references leaves a component with neither its old nor its new value");
        x.tv[0]=g0; x.tv[1]=g1; x.tv[2]= g2==s? v : old[2]; x.tv[3]=g3; x.tv[4]=g4; probe("partly_assigned"); }
    void finish() override { { Lib l; for(int t=0;t<nt;++t) { delete w[t].t; delete w[t].a; delete w[t].p; } delete com; delete comset; } if(elem_live()) fail("leak","%llu components were not destroyed",(unsigned long long)elem_live()); }
};
}
sim::Harness* sim::make_harness() { return new H(); }
