// C01 (ownership) and C02 (value semantics, failure atomicity) of Array.
#include "array.hpp"
#include "elem.hpp"
#include <optional>
#include <list>
#include <forward_list>
#include <cstring>
#include <string>
#include <limits>

using namespace sim;
using Helper::Array;
using Helper::Uninitialised;

namespace {

struct Padded { char c; int i; friend bool operator==(Padded const& a, Padded const& b) { return a.c==b.c && a.i==b.i; } friend bool operator!=(Padded const& a, Padded const& b) { return !(a==b); } };
struct Prec { int p; };
struct Tok { int v; };
struct WithPrec { // constructible from (double,Prec) and (int,Prec): value = x+p
    Elem e;
    WithPrec() : e(0) { }
    WithPrec(int x) : e(x) { }
    explicit WithPrec(Tok t) : e(t.v) { }
    WithPrec(double x, Prec p) : e(int(x)+p.p) { }
    WithPrec(WithPrec const& o, Prec p) : e(o.e.v+p.p) { }
    friend bool operator==(WithPrec const& a, WithPrec const& b) { return a.e==b.e; }
    friend bool operator!=(WithPrec const& a, WithPrec const& b) { return a.e!=b.e; }
};

template<int Al> struct alignas(Al) Wide { // stricter alignment than operator new provides by default
    Elem e;
    Wide() : e(0) { }
    Wide(int x) : e(x) { }
    friend bool operator==(Wide const& a, Wide const& b) { return a.e==b.e; }
    friend bool operator!=(Wide const& a, Wide const& b) { return a.e!=b.e; }
};
template<class T> struct Val;
template<int P, bool M> struct Val<ElemT<P,M>> { static int get(ElemT<P,M> const& x) { return x.get(); } static ElemT<P,M> make(int v) { return ElemT<P,M>(v); } };
template<> struct Val<WithPrec> { static int get(WithPrec const& x) { return x.e.get(); } static WithPrec make(int v) { return WithPrec(v); } };
template<int Al> struct Val<Wide<Al>> { static int get(Wide<Al> const& x) { return x.e.get(); } static Wide<Al> make(int v) { return Wide<Al>(v); } };
template<> struct Val<int> { static int get(int const& x) { return x; } static int make(int v) { return v; } };
template<> struct Val<unsigned char> { static int get(unsigned char const& x) { return x; } static unsigned char make(int v) { return (unsigned char)(v); } };
template<> struct Val<double> { static int get(double const& x) { return int(x); } static double make(int v) { return double(v); } };
template<> struct Val<std::string> {
    static int get(std::string const& x) { if(x.size()==0) return 0; int r=0; for(size_t i=0;i<x.size();++i) { char c=x[i]; if(c>='0'&&c<='9') r=r*10+(c-'0'); else if(c!='-') return -99999; } return x[0]=='-'? -r : r; }
    static std::string make(int v) { if(v==0) return std::string(); std::string s=std::to_string(v); bool neg=s[0]=='-'; if(neg) s=s.substr(1); while(v%3!=0 && s.size()<30) s="0"+s; return neg? "-"+s : s; } };

enum Code { NEW_N, NEW_NX, NEW_LIST, NEW_GEN, NEW_RANGE, NEW_CONV, NEW_COPY, NEW_MOVE, NEW_UNINIT, NEW_PREC, ASSIGN, MOVE_ASSIGN, RESIZE, RESIZE_X, REALLOC,
            SWAP, SET, AT, FILL, FILL_RANGE, ASSIGN_RANGE, COMPARE, DESTROY, HUGE_, ENDS, NEW_DEFAULT, COMPARE_ODD, NCODES };

struct World { virtual ~World() = default; virtual void exec(Op const&) = 0; virtual void finish() = 0; };

template<class T> struct ArrayWorld : World {
    static const int NS=5;
    using A=Array<T>; using M=std::vector<int>;
    alignas(A) unsigned char mem[NS][sizeof(A)]; bool present[NS]; M model[NS]; bool judge;
    ArrayWorld(bool j) : judge(j) { for(auto& p : present) p=false; }
    A& arr(int s) { return *reinterpret_cast<A*>(mem[s]); }
    A const& carr(int s) { return arr(s); }
    void drop(int s) { if(present[s]) { present[s]=false; auto r=attempt([&]{ arr(s).~A(); }); if(!r.ok()) fail("unexpected-exception","destroying an array threw"); model[s].clear(); } }

    M read(int s, int how) {
        M r; A const& a=carr(s); size_t n; { Lib l; n=a.size(); }
        if(n>100000) fail("value","an array reports the absurd size %zu",n);
        r.reserve(n);
        if(how==0) { for(size_t i=0;i<n;++i) { int v; { Lib l; v=Val<T>::get(a[i]); } r.push_back(v); } }
        else if(how==1) { Lib l; for(auto i=a.begin(); i!=a.end(); ++i) { int v=Val<T>::get(*i); Harn h; r.push_back(v); if(r.size()>n) fail("value","iteration visits more than size() elements"); } }
        else if(how==2) { A& b=arr(s); Lib l; for(auto i=b.begin(); i!=b.end(); ++i) { int v=Val<T>::get(*i); Harn h; r.push_back(v); if(r.size()>n) fail("value","iteration visits more than size() elements"); } }
        else { for(size_t i=0;i<n;++i) { int v; { Lib l; v=Val<T>::get(a.at(i)); } r.push_back(v); } }
        bool e; { Lib l; e=a.empty(); } if(e!=(n==0)) fail("value","empty() disagrees with size()");
        { T const* f; { Lib l; f=a.begin(); } if(n && reinterpret_cast<std::uintptr_t>(f)%alignof(T)!=0) fail("misaligned","the elements lie at an address that is not a multiple of %zu",alignof(T)); }
        return r;
    }
    static std::string str(M const& m) { std::string s="["; for(size_t i=0;i<m.size()&&i<12;++i) s+=(i?",":"")+std::to_string(m[i]); if(m.size()>12) s+=",..."; return s+"]("+std::to_string(m.size())+")"; }
    u64 reads=0;
    void verify(int s, const char* when) { if(!present[s]) return; M r=read(s,int(++reads%4)); if(judge && r!=model[s]) fail("value","%s: array %d holds %s, expected %s",when,s,str(r).c_str(),str(model[s]).c_str()); if(!judge) model[s]=r; }
    void verify_all(const char* when) { for(int s=0;s<NS;++s) verify(s,when); for(int s=0;s<NS;++s) if(present[s]) { log(model[s].size()); for(int v : model[s]) log(u64(u32(v))); } }
    //! After a failure the target may hold anything allowed by the predicate.
    template<class P> void after_fault(int s, const char* what, P allowed) {
        M r=read(s,0); if(judge && !allowed(r)) fail("failure-atomicity","after a failed %s, array %d holds %s; it held %s",what,s,str(r).c_str(),str(model[s]).c_str()); model[s]=r; }
    template<class F> void construct(int s, M m, F f) { // f constructs into mem[s]
        drop(s); Result r=attempt(f);
        if(r.ok()) { present[s]=true; model[s]=std::move(m); if(!judge) model[s]=read(s,0); probe("constructed"); }
        else if(r.faulted()) probe("construct_failed"); else fail("unexpected-exception","constructing an array threw %s",r.what.c_str());
    }
    static int dflt() { return 0; }
    // maps a planned value to one that the element type represents exactly
    static int rv(i64 v) { return std::is_same_v<T,unsigned char>? int(u64(v)%251) : int(v); }
    // values of the deterministic sequence used for ranges
    static int seqv(i64 seed, size_t i) { return rv(int((u64(seed)*7919+i*31)%90+1)); }

    void exec(Op const& o) override {
        int s=int(u64(o.a[0])%NS), q=int(u64(o.a[1])%NS); size_t n=size_t(u64(o.a[2])%80000); i64 x=o.a[3]; int xv=rv(x); M m; void* at=mem[s];
        switch(o.code) {
        case NEW_DEFAULT: construct(s,{},[&]{ new(at) A(); }); break;
        case NEW_N: m.assign(n,dflt()); construct(s,m,[&]{ new(at) A(n); }); break;
        case NEW_NX: { m.assign(n,xv); T t=Val<T>::make(xv); T const& ct=t; construct(s,m,[&]{ new(at) A(n,ct); }); break; }
        case NEW_LIST: { size_t k=n%7; for(size_t i=0;i<k;++i) m.push_back(seqv(x,i)); auto v=[&](size_t i){ Harn h; return Val<T>::make(seqv(x,i)); };
            switch(k) { case 0: construct(s,m,[&]{ new(at) A(std::initializer_list<T>{}); }); break;
              case 1: construct(s,m,[&]{ new(at) A(std::initializer_list<T>{v(0)}); }); break; case 2: construct(s,m,[&]{ new(at) A({v(0),v(1)}); }); break;
              case 3: construct(s,m,[&]{ new(at) A({v(0),v(1),v(2)}); }); break; case 4: construct(s,m,[&]{ new(at) A({v(0),v(1),v(2),v(3)}); }); break;
              case 5: construct(s,m,[&]{ new(at) A({v(0),v(1),v(2),v(3),v(4)}); }); break; default: construct(s,m,[&]{ new(at) A({v(0),v(1),v(2),v(3),v(4),v(5)}); }); } break; }
        case NEW_GEN: { for(size_t i=0;i<n;++i) m.push_back(seqv(x,i)); int calls=0; construct(s,m,[&]{ new(at) A(n,[&](size_t i)->T { callback_point(); Harn h; ++calls; return Val<T>::make(seqv(x,i)); }); }); break; }
        case NEW_RANGE: { for(size_t i=0;i<n;++i) m.push_back(seqv(x,i));
            if(o.a[1]%4==0) { std::list<T> l; for(int v : m) l.push_back(Val<T>::make(v)); construct(s,m,[&]{ new(at) A(l.begin(),l.end()); }); }
            else if(o.a[1]%4==1) { std::vector<T> l; for(int v : m) l.push_back(Val<T>::make(v)); construct(s,m,[&]{ new(at) A(l.begin(),l.end()); }); }
            else if(o.a[1]%4==2) { std::forward_list<T> l; for(size_t i=n;i-->0;) l.push_front(Val<T>::make(m[i])); construct(s,m,[&]{ new(at) A(l.begin(),l.end()); }); }
            else if(present[q] && q!=s) { size_t lo=n%(model[q].size()+1), hi=lo+size_t(u64(x))%(model[q].size()-lo+1); M sub(model[q].begin()+long(lo),model[q].begin()+long(hi)); A const& src=carr(q); construct(s,sub,[&]{ new(at) A(src.begin()+lo,src.begin()+hi); }); }
            break; }
        case NEW_CONV: if constexpr(std::is_same_v<T,double> || std::is_same_v<T,Elem> || std::is_same_v<T,ElemC> || std::is_same_v<T,WithPrec>) { for(size_t i=0;i<n;++i) m.push_back(seqv(x,i)); if constexpr(std::is_same_v<T,WithPrec>) { if(u64(x)%2) { Array<Tok> toks(n,[&](size_t i){ return Tok{seqv(x,i)}; }); construct(s,m,[&]{ new(at) A(toks); }); break; } }
              Array<int> src(n,[&](size_t i){ return seqv(x,i); });
              construct(s,m,[&]{ new(at) A(src); }); } break;
        case NEW_PREC: if constexpr(std::is_same_v<T,WithPrec>) { int p=int(u64(x)%50);
              if(o.a[1]%2) { m={1+p,2+p,5+p}; construct(s,m,[&]{ new(at) A({1.0,2.0,5.0},Prec{p}); }); }
              else { for(size_t i=0;i<n;++i) m.push_back(seqv(x,i)+p); Array<double> src(n,[&](size_t i){ return double(seqv(x,i)); }); construct(s,m,[&]{ new(at) A(src,Prec{p}); }); } } break;
        case NEW_COPY: if(present[q] && q!=s) { m=model[q]; A const& src=carr(q); construct(s,m,[&]{ new(at) A(src); }); } break;
        case NEW_MOVE: if(present[q] && q!=s) { m=model[q]; drop(s); Result r=attempt([&]{ new(at) A(std::move(arr(q))); }); if(r.ok()) { present[s]=true; model[s]=m; model[q]=read(q,0); } else if(!r.faulted()) fail("unexpected-exception","move construction threw"); break; } break;
        case NEW_UNINIT: { drop(s); size_t done=0; n%=64; Result r=attempt([&]{ new(at) A(n,Uninitialised()); });
            if(r.ok()) { // the user's part: every element is placed by the user; if the user fails, the rest is placed without failing
                for(size_t i=0;i<n;++i) m.push_back(seqv(x,i));
                { Lib l; A& a=arr(s); for(size_t i=0;i<n;++i) { Harn h; new(&a[i]) T(Val<T>::make(m[i])); ++done; } }
                present[s]=true; model[s]=m; }
            break; }
        case ASSIGN: if(present[s] && present[q]) { M old=model[s], src=model[q]; A const& b=carr(q); Result r=attempt([&]{ arr(s)=b; });
            if(r.ok()) model[s]=src; else if(!r.faulted()) fail("unexpected-exception","assignment threw %s",r.what.c_str());
            else { probe("assign_failed"); if(old.size()==src.size()) after_fault(s,"assignment",[&](M const& g){ if(g.size()!=old.size()) return false; for(size_t i=0;i<g.size();++i) if(g[i]!=old[i]&&g[i]!=src[i]) return false; return true; });
                   else { probe("resizing_assign_failed"); after_fault(s,"size-changing assignment",[&](M const& g){ return g==old; }); } } } break;
        case MOVE_ASSIGN: if(present[s] && present[q]) { M src=model[q]; Result r=attempt([&]{ A& b=arr(q); arr(s)=std::move(b); });
            if(!r.ok()) { if(!r.faulted()) fail("unexpected-exception","move assignment threw"); } else { model[s]=src; if(s!=q) model[q]=read(q,0); else probe("self_move"); } } break;
        case RESIZE: if(present[s]) { M old=model[s]; m=old; m.resize(n,dflt()); Result r=attempt([&]{ arr(s).resize(n); }); result(r,s,m,old,"resize"); } break;
        case RESIZE_X: if(present[s]) { M old=model[s]; if(x%4==0 && !old.empty()) { size_t i=size_t(u64(x)/4%old.size()); m=old; m.resize(n,old[i]); probe("resize_with_own_element"); Result r=attempt([&]{ T const& t=arr(s)[i]; arr(s).resize(n,t); }); result(r,s,m,old,"resize"); }
            else { m=old; m.resize(n,xv); T t=Val<T>::make(xv); Result r=attempt([&]{ arr(s).resize(n,t); }); result(r,s,m,old,"resize"); } } break;
        case REALLOC: if(present[s]) { M old=model[s]; if(n==old.size()) m=old; else m.assign(n,dflt()); Result r=attempt([&]{ arr(s).reallocate(n); });
            if(r.ok() && n==old.size()) { M g=read(s,0); if(judge && g.size()!=n) fail("value","reallocate to the same size changes the size"); model[s]=g; } // elements of a same-size reallocation: kept or default, not specified
            else result(r,s,m,old,"reallocate"); } break;
        case SWAP: if(present[s] && present[q]) { Result r=attempt([&]{ arr(s).swap(arr(q)); }); if(!r.ok()) fail("unexpected-exception","swap threw"); std::swap(model[s],model[q]); } break;
        case SET: if(present[s] && !model[s].empty()) { size_t i=n%model[s].size(); T t=Val<T>::make(xv); M old=model[s]; Result r=attempt([&]{ switch(x%3) { case 0: assign_to(arr(s)[i],t); break; case 1: assign_to(arr(s).at(i),t); break; default: *(arr(s).begin()+i)=t; } });
            if(r.ok()) model[s][i]=xv; else if(!r.faulted()) fail("unexpected-exception","element assignment threw %s",r.what.c_str()); } break;
        case AT: if(present[s]) { size_t i = x%3==0? model[s].size()+size_t(u64(x)/3%3) : x%7==0? size_t(-1)-size_t(u64(x)%5) : n; int v=0; Result r=attempt([&]{ if(x%2) v=Val<T>::get(arr(s).at(i)); else v=Val<T>::get(carr(s).at(i)); });
            if(i<model[s].size()) { if(!r.ok() && !r.faulted()) fail("value","at(%zu) of an array of size %zu threw",i,model[s].size()); if(r.ok() && judge && v!=model[s][i]) fail("value","at(%zu) yields %d instead of %d",i,v,model[s][i]); }
            else { probe("at_out_of_range"); if(r.ok()) fail("value","at(%zu) of an array of size %zu did not throw",i,model[s].size()); } } break;
        case FILL: if(present[s]) { M old=model[s]; int v=xv; Result r; if(x%3==0 && !old.empty()) { size_t i=size_t(u64(x)/3%old.size()); v=old[i]; probe("fill_with_own_element"); r=attempt([&]{ T const& t=arr(s)[i]; arr(s).fill(t); }); } else { T t=Val<T>::make(v); T const& ct=t; r=attempt([&]{ arr(s).fill(ct); }); }
            fill_result(r,s,old,M(old.size(),v),"fill"); } break;
        case FILL_RANGE: if(present[s]) { M old=model[s]; for(size_t i=0;i<old.size();++i) m.push_back(seqv(x,i)); std::list<T> l; for(int v : m) l.push_back(Val<T>::make(v)); Result r=attempt([&]{ arr(s).fill(l.begin()); }); fill_result(r,s,old,m,"range fill"); } break;
        case ASSIGN_RANGE: if(present[s]) { M old=model[s]; Result r; if(x%2 && present[q] && q!=s) { size_t lo=n%(model[q].size()+1); m=M(model[q].begin()+long(lo),model[q].end()); A const& b=carr(q); r=attempt([&]{ arr(s).assign(b.begin()+lo,b.end()); }); }
                else { for(size_t i=0;i<n;++i) m.push_back(seqv(x,i)); std::vector<T> l; for(int v : m) l.push_back(Val<T>::make(v)); r=attempt([&]{ arr(s).assign(l.begin(),l.end()); }); }
                if(r.ok()) model[s]=m; else if(!r.faulted()) fail("unexpected-exception","assign threw %s",r.what.c_str());
                else { probe("assign_range_failed"); after_fault(s,"range assignment",[&](M const& g){ if(g==old) return true; if(g.size()!=m.size()) return false; for(size_t i=0;i<g.size();++i) if(!(g[i]==m[i] || (i<old.size()? g[i]==old[i] : g[i]==dflt()))) return false; return true; }); } } break;
        case COMPARE: if(present[s] && present[q]) { bool eq=false,ne=false; Result r=attempt([&]{ eq=(carr(s)==carr(q)); ne=(carr(s)!=carr(q)); }); if(!r.ok() && !r.faulted()) fail("unexpected-exception","comparison threw");
            if(r.ok() && judge && (eq!=(model[s]==model[q]) || ne==eq)) fail("value","equality of %s and %s is %d, inequality %d",str(model[s]).c_str(),str(model[q]).c_str(),eq,ne); if(r.ok() && eq && s!=q) probe("equal_arrays"); } break;
        case DESTROY: drop(s); break;
        case HUGE_: { // a size whose storage cannot be provided: refused, nothing changed
            size_t sz=sizeof(T); size_t h; switch(u64(x)%6) { case 0: h=size_t(-1)/sz+1; break; case 1: h=size_t(-1); break; case 2: h=size_t(1)<<60; break; case 3: h=(size_t(-1)/sz)+1+n%4; break; case 4: h=size_t(1)<<(64-__builtin_ctzll(sz|(1ull<<20))); if(sz==1) h=size_t(1)<<62; break; default: h=(size_t(1)<<62)+n; }
            if(sz==1 && h<(1ull<<40)) h=size_t(1)<<50;
            T t=Val<T>::make(xv); Result r; M old=present[s]? model[s] : M(); int how=int(o.a[1]%7);
            if(how<3 || !present[s]) { drop(s); r=attempt([&]{ if(how==0) new(at) A(h); else if(how==1) new(at) A(h,t); else if(how==2) new(at) A(h,[&](size_t i)->T { Harn hh; return Val<T>::make(int(i%10)); }); else new(at) A(h); }); if(r.ok()) fail("huge-size-accepted","an array of %zu elements of %zu bytes was constructed",h,sz); }
            else { r=attempt([&]{ if(how==3) arr(s).resize(h); else if(how==4) arr(s).resize(h,t); else arr(s).reallocate(h); }); if(r.ok()) fail("huge-size-accepted","an array was resized to %zu elements of %zu bytes",h,sz); after_fault(s,"resize to a huge size",[&](M const& g){ return g==old; }); }
            probe("huge_size_tried"); break; }
        case ENDS: if(present[s] && !model[s].empty()) { int f,b,f2,b2; { Lib l; f=Val<T>::get(arr(s).front()); b=Val<T>::get(arr(s).back()); f2=Val<T>::get(carr(s).front()); b2=Val<T>::get(carr(s).back()); } if(judge && (f!=model[s].front() || b!=model[s].back() || f2!=f || b2!=b)) fail("value","front or back is wrong"); } break;
        case COMPARE_ODD: compare_odd(n%6,u64(x)*2654435761u+n); break;
        }
        verify_all("after an operation");
    }
    //! Equality is that of the elements, also where an element's equality is not that of its bytes.
    template<class U> void compare_two(std::vector<U> const& u, std::vector<U> const& v, const char* what) {
        bool want=u.size()==v.size(); for(size_t i=0; want && i<u.size(); ++i) want=(u[i]==v[i]); bool eq=false,ne=false,eq2=false,ne2=false; bool self=true; for(auto const& x : u) if(!(x==x)) self=false;
        Result r=attempt([&]{ Array<U> a(u.begin(),u.end()), b(v.begin(),v.end()); eq=(a==b); ne=(a!=b); eq2=(a==a); ne2=(a!=a); });
        if(!r.ok()) { if(!r.faulted()) fail("unexpected-exception","comparison threw"); return; }
        if(judge && (eq!=want || ne==eq)) fail("value","equality of two arrays of %s is %d and inequality %d where the elements' equality gives %d",what,eq,ne,want); if(judge && (eq2!=self || ne2==eq2)) fail("value","equality of an array of %s to itself is %d and inequality %d where the elements' equality gives %d",what,eq2,ne2,self); if(want) probe("odd_equal"); if(!self) probe("unequal_to_itself"); }
    void compare_odd(size_t n, u64 bits) {
        const double ds[4]={0.0,-0.0,1.0,std::numeric_limits<double>::quiet_NaN()}; std::vector<double> u,v;
        for(size_t i=0;i<n;++i) { u64 k=bits>>(i*4); double x= (k&3)==3 && (bits>>40)%3 ? 1.0 : ds[k&3]; u.push_back(x); v.push_back((k>>2&1)&&x==0.0? -x : (k>>2)==3? ds[bits>>50&3] : x); }
        compare_two(u,v,"double"); compare_two(u,u,"double");
        std::vector<Padded> a(n,Padded{0,0}), b(n,Padded{0,0}); if(n) { std::memset((void*)a.data(),0x11,n*sizeof(Padded)); std::memset((void*)b.data(),0x77,n*sizeof(Padded)); }
        for(size_t i=0;i<n;++i) { a[i].c=char(bits>>i); a[i].i=int(i); b[i].c=a[i].c; b[i].i=a[i].i+int((bits>>30)%5==0 && i+1==n); }
        compare_two(a,b,"a type with padding"); }
    void result(Result const& r, int s, M const& m, M const& old, const char* what) {
        if(r.ok()) model[s]=m; else if(r.faulted()) { probe("resize_failed"); after_fault(s,what,[&](M const& g){ return g==old; }); } else fail("unexpected-exception","%s threw %s",what,r.what.c_str()); }
    void fill_result(Result const& r, int s, M const& old, M const& m, const char* what) {
        if(r.ok()) model[s]=m; else if(!r.faulted()) fail("unexpected-exception","%s threw %s",what,r.what.c_str());
        else { probe("fill_failed"); after_fault(s,what,[&](M const& g){ if(g.size()!=old.size()) return false; for(size_t i=0;i<g.size();++i) if(g[i]!=old[i]&&g[i]!=m[i]) return false; return true; }); } }
    void finish() override { verify_all("at the end"); for(int s=0;s<NS;++s) drop(s); }
};

struct ArrayHarness : Harness {
    World* w=nullptr;
    const char* property() const override { return CHECK_ID; }
    std::vector<std::string> op_names() const override { return {"new_n","new_n_x","new_list","new_generate","new_range","new_convert","new_copy","new_move","new_uninit","new_prec","assign","move_assign","resize","resize_x","reallocate",
        "swap","set","at","fill","fill_range","assign_range","compare","destroy","huge","ends","new_default","compare_odd"}; }
    std::vector<std::string> ignored_classes() const override { return std::string(CHECK_ID)=="C02"? std::vector<std::string>{"leak"} : std::vector<std::string>{}; }
    void plan(Rng& r, Plan& p) override {
        p.cfg["type"]=r.pick({0,0,0,1,1,2,3,4,5,6,7,8,9});
        int nops=int(r.pick({4,8,15,30,60})); i64 maxn=r.pick({3,6,12,40}); if(r.chance(0.02)) maxn=1500; if(r.chance(0.002)) { maxn=9000; nops=int(r.range(4,12)); } if(r.chance(0.002)) { maxn=70000; nops=int(r.range(4,10)); p.cfg["type"]=r.pick({3,3,6,4}); } i64 n0=r.range(maxn*15/16,maxn); bool big=maxn>40;
        std::vector<u32> mix; for(u32 c=0;c<NCODES;++c) { int k=int(r.below(3)); if(c==ASSIGN||c==MOVE_ASSIGN||c==RESIZE||c==RESIZE_X||c==REALLOC||c==NEW_RANGE||c==NEW_COPY) k+=2; if(c==HUGE_) k=r.chance(0.2); if(c==DESTROY) k=r.chance(0.5); while(k--) mix.push_back(c); }
        int slots=big? 2 : int(r.range(2,5));
        for(int i=0;i<nops;++i) { i64 n=r.chance(0.3)? r.range(0,3) : r.range(0,maxn); if(big && r.chance(0.6)) n=n0; if(i<slots) p.add(0,u32(r.pick({NEW_N,NEW_NX,NEW_LIST,NEW_GEN,NEW_RANGE})),i,r.range(0,7),n,r.range(1,100)); else p.add(0,mix[r.below(mix.size())],r.range(0,slots-1),r.range(0,slots+3),n,r.range(1,100)); }
        plan_faults(r,p,FaultMix{{{K_ALLOC,0.2,8,0.2},{K_CTOR,0.25,big? i64(r.logu(u64(2*maxn))) : 32,0},{K_ASSIGN,0.2,big? i64(r.logu(u64(2*maxn))) : 32,0},{K_CMP,0.08,20,0},{K_CALL,0.1,12,0}}});
    }
    void setup(Plan const& p) override {
        bool j=std::string(CHECK_ID)=="C02";
        switch(p.get("type")) { case 0: w=new ArrayWorld<ElemC>(j); break; case 1: w=new ArrayWorld<Elem>(j); break; case 2: w=new ArrayWorld<ElemL>(j); break; case 3: w=new ArrayWorld<int>(j); break; case 4: w=new ArrayWorld<std::string>(j); break; case 5: w=new ArrayWorld<WithPrec>(j); break; case 7: w=new ArrayWorld<Wide<64>>(j); break; case 8: w=new ArrayWorld<Wide<32>>(j); break; case 9: w=new ArrayWorld<Wide<256>>(j); break; default: w=new ArrayWorld<double>(j); }
    }
    void exec(Op const& o) override { w->exec(o); }
    void finish() override { w->finish(); delete w; }
};
}
sim::Harness* sim::make_harness() { return new ArrayHarness(); }
