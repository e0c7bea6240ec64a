// C21: coded variants, visited by visitors that can fail, visit further variants on the way, and run in several threads at once.
#include <cstdlib>
#include <iostream>
#include <limits>
#include <memory>
#include <utility>
#include "variant.hpp"
#include "variant.inl.hpp"
#include "elem.hpp"
using namespace sim;
namespace {
// ------------------------------------------------------------------------------------------------ the alternatives
enum class Colour : short { }; enum Shape : unsigned { };
template<int FAM> struct Fam;
template<> struct Fam<0> { using C=int; static constexpr C code(int n) { return n*37-200; } };
template<> struct Fam<1> { using C=unsigned char; static constexpr C code(int n) { return C(255-n*15); } };
template<> struct Fam<2> { using C=Colour; static constexpr C code(int n) { return C(n*n-40); } };
template<> struct Fam<3> { using C=long long; static constexpr C code(int n) { return (long long)(n)*0x100000000ll+5; } };       // equal when cut to 32 bits
template<> struct Fam<4> { using C=std::size_t; static constexpr C code(int n) { return n%2? ~std::size_t(0)-std::size_t(n) : std::size_t(n); } };
template<> struct Fam<5> { using C=int; static constexpr C code(int n) { return n%2? std::numeric_limits<int>::max()-n : std::numeric_limits<int>::min()+n; } };
template<> struct Fam<6> { using C=Shape; static constexpr C code(int n) { return C(15-n); } };
static const int NFAM=7, NALT=16;
struct Empty { };
//! In one family the alternatives are objects with a life of their own.
template<int FAM, int N> struct Alt : std::conditional_t<FAM==2,ElemC,Empty> { static constexpr typename Fam<FAM>::C code() { return Fam<FAM>::code(N); } };
template<int F, int N> static int number(Alt<F,N> const& a) { if constexpr(F==2) { if(!elem_is_live(&a)) { Harn h; fail("lifetime","the alternative given to the visitor is not alive"); } } return N; }
template<int F, class S> struct VarOf; template<int F, size_t... I> struct VarOf<F,std::index_sequence<I...>> { using T=Helper::CodedVariant<typename Fam<F>::C,Alt<F,int(I)>...>; };
template<int F, int N> using Var=typename VarOf<F,std::make_index_sequence<size_t(N)>>::T;

// ------------------------------------------------------------------------------------------------ the visitors
struct Rec { int calls=0, alt=-1; };                        // what a visitor saw
struct AnyVar;
struct Tok { Rec* rec; int token; AnyVar const* inner; int innerkind; Rec* innerrec; int* innerres; };
static int visit(AnyVar const& v, int kind, Tok const& t, bool& refok);
static void seen(Tok const& t, int n) { { Harn h; ++t.rec->calls; t.rec->alt=n; } if(t.inner) { bool ok=true; int r=visit(*t.inner,t.innerkind,Tok{t.innerrec,t.token+1,nullptr,0,nullptr,nullptr},ok); Harn h; *t.innerres=r; if(!ok) fail("result","a nested visit does not return what its visitor returns"); } callback_point(); }
struct ByValue { Tok t; template<int F, int N> int operator()(Alt<F,N> const& a) const { int n=number(a); seen(t,n); return t.token*100+n; } };
struct ByReference { Tok t; mutable int cell[NALT]; template<int F, int N> int& operator()(Alt<F,N> const& a) const { int n=number(a); seen(t,n); cell[n]=t.token*100+n; return cell[n]; } };
struct Nothing { Tok t; int* out; template<int F, int N> void operator()(Alt<F,N> const& a) const { int n=number(a); seen(t,n); *out=t.token*100+n; } };
struct AnObject { Tok t; template<int F, int N> ElemC operator()(Alt<F,N> const& a) const { int n=number(a); seen(t,n); return ElemC(t.token*100+n); } };
struct MoveOnly { Tok t; template<int F, int N> std::unique_ptr<int> operator()(Alt<F,N> const& a) const { int n=number(a); seen(t,n); return std::make_unique<int>(t.token*100+n); } };
struct NotConst { Tok t; int visits=0; template<int F, int N> int operator()(Alt<F,N> const& a) { int n=number(a); ++visits; seen(t,n); return t.token*100+n; } };
struct TakesCopy { Tok t; template<class A> std::string operator()(A a) const { int n=number(a); seen(t,n); return std::string(size_t(40),' ')+std::to_string(t.token*100+n); } };
struct Shared { int factor; template<int F, int N> int operator()(Alt<F,N> const& a) const { callback_point(); return number(a)*factor; } };
static const int NKINDS=7;
static Shared const* shared=nullptr;       // one visitor for all threads
static const int FACTOR=1009;

struct AnyVar {
    virtual ~AnyVar() = default;
    virtual AnyVar* copy() const = 0; virtual AnyVar* moved() = 0; virtual bool assign(AnyVar const&) = 0; virtual int holds() const = 0; virtual bool code_is(int) const = 0; virtual int visit_shared() const = 0;
    virtual int visit(int kind, Tok const& t, bool& refok) const = 0;
};
template<int F, int N> struct VarBox : AnyVar {
    using V=Var<F,N>; V v;
    explicit VarBox(V const& x) : v(x) { } explicit VarBox(V&& x) : v(std::move(x)) { }
    AnyVar* copy() const override { return new VarBox(v); } AnyVar* moved() override { return new VarBox(std::move(v)); }
    bool assign(AnyVar const& o) override { auto p=dynamic_cast<VarBox const*>(&o); if(!p) return false; v=p->v; return true; }
    template<size_t... I> int holds_(std::index_sequence<I...>) const { int n=-1; int k=0; ((Helper::holds_alternative<Alt<F,int(I)>>(v)? void((n=int(I),++k)) : void()),...); return k==1? n : -1-k; }
    int holds() const override { return holds_(std::make_index_sequence<size_t(N)>()); }
    bool code_is(int n) const override { return v.code()==Fam<F>::code(n); }
    int visit_shared() const override { return v.accept(*shared); }
    int visit(int kind, Tok const& t, bool& refok) const override {
        switch(kind) {
        case 0: return v.accept(ByValue{t});
        case 1: { ByReference b{t,{0}}; auto&& r=v.accept(b); refok=&r>=b.cell && &r<b.cell+NALT; return refok? r : -1; }
        case 2: { int out=-1; v.accept(Nothing{t,&out}); return out; }
        case 3: { ElemC e=v.accept(AnObject{t}); return e.get(); }
        case 4: { std::unique_ptr<int> p=v.accept(MoveOnly{t}); return p? *p : -1; }
        case 5: { NotConst c{t}; int r=v.accept(c); refok=c.visits==1; return r; }
        default: { std::string s=v.accept(TakesCopy{t}); return std::stoi(s); }
        }
    }
};
static int visit(AnyVar const& v, int kind, Tok const& t, bool& refok) { return v.visit(kind,t,refok); }
template<int F, int N> static AnyVar* make(int n, int how) {
    using V=Var<F,N>; AnyVar* r=nullptr;
    auto one=[&]<int I>(std::integral_constant<int,I>) { if(n!=I) return; switch(how%3) { case 0: r=new VarBox<F,N>(V(Fam<F>::code(I))); break; case 1: { Alt<F,I> const a; V v(a); r=new VarBox<F,N>(v); } break; default: { V v=Alt<F,I>(); r=new VarBox<F,N>(std::move(v)); } } };
    [&]<int... I>(std::integer_sequence<int,I...>) { (one(std::integral_constant<int,I>()),...); }(std::make_integer_sequence<int,N>());
    return r; }
template<int F> static AnyVar* make_of(int N, int n, int how) { AnyVar* r=nullptr; [&]<int... I>(std::integer_sequence<int,I...>) { ((N==I+1? void(r=make<F,I+1>(n,how)) : void()),...); }(std::make_integer_sequence<int,NALT>()); return r; }
static AnyVar* make_any(int F, int N, int n, int how) { switch(F) { case 0: return make_of<0>(N,n,how); case 1: return make_of<1>(N,n,how); case 2: return make_of<2>(N,n,how); case 3: return make_of<3>(N,n,how); case 4: return make_of<4>(N,n,how); case 5: return make_of<5>(N,n,how); default: return make_of<6>(N,n,how); } }

enum Code { NEW, COPY, MOVE, ASSIGN, VISIT, NESTED, COMMON, SHAREDV, DESTROY, NCODES };
static const int NS=4, NT=4, NCOM=3;
struct H : Harness {
    struct Slot { AnyVar* v=nullptr; int fam=0, size=1, alt=0; };
    struct World { Slot s[NS]; } w[NT]; Slot com[NCOM]; int nt=1;
    const char* property() const override { return CHECK_ID; }
    std::vector<std::string> op_names() const override { return {"new","copy","move","assign","visit","nested_visit","visit_common","visit_with_common_visitor","destroy"}; }
    void plan(Rng& r, Plan& p) override {
        nt= r.chance(0.4)? int(r.range(2,NT)) : 1; p.cfg["threads"]=nt; p.cfg["first"]=r.range(0,nt-1); for(int i=0;i<NCOM;++i) { int n=int(r.range(1,NALT)); p.cfg["c"+std::to_string(i)]=((r.range(0,NFAM-1)*NALT+n-1)*NALT+r.range(0,n-1)); }
        int nops=int(r.pick({4,8,16,40}))*nt; bool onefam=r.chance(0.4); i64 fam=r.range(0,NFAM-1), size=r.range(1,NALT);
        for(int i=0;i<nops;++i) { u32 k= i<2*nt? u32(NEW) : u32(r.pick({NEW,NEW,COPY,MOVE,ASSIGN,VISIT,VISIT,VISIT,NESTED,COMMON,COMMON,SHAREDV,DESTROY})); if(k==NEW) p.add(i<2*nt? u32(i%nt) : u32(r.below(u64(nt))),k,r.range(0,NS-1),(onefam? fam : r.range(0,NFAM-1))*NALT+(onefam? size : r.range(1,NALT))-1,r.range(0,NALT-1),r.range(0,2)); else p.add(u32(r.below(u64(nt))),k,r.range(0,NS-1),r.range(0,NS-1),r.range(0,NKINDS*NKINDS-1),r.range(1,9000)); }
        if(nt>1) plan_schedule(r,p,nt,0.6,120);
        plan_faults(r,p,{{{K_CALL,0.3,3,0},{K_CTOR,0.15,3,0},{K_ALLOC,0.15,3,0.3}}},0.3);
    }
    void setup(Plan const& p) override {
        nt=std::min(NT,std::max(1,int(p.get("threads",1)))); shared=new Shared{FACTOR};
        for(int i=0;i<NCOM;++i) { int c=int(p.get(("c"+std::to_string(i)).c_str(),0)); com[i].alt=c%NALT; com[i].size=c/NALT%NALT+1; com[i].fam=c/NALT/NALT%NFAM; if(com[i].alt>=com[i].size) com[i].alt=0; Lib l; Quiet q; com[i].v=make_any(com[i].fam,com[i].size,com[i].alt,i); }
    }
    void drop(Slot& s) { if(!s.v) return; AnyVar* v=s.v; s.v=nullptr; Lib l; delete v; }
    void look(Slot const& s, const char* when) {
        int n; bool c; { Lib l; Quiet q; n=s.v->holds(); c=s.v->code_is(s.alt); }
        if(n!=s.alt) fail("alternative","%s: a variant of %d alternatives holds %d, expected %d",when,s.size,n,s.alt); if(!c) fail("code","%s: a variant does not report the code of its alternative %d",when,s.alt); }
    void check(int t) { for(auto& s : w[t].s) if(s.v) look(s,"after an operation"); }
    //! A result that came although the visitor threw was not the visitor's.
    void after(Result const& r, const char* what) { if(r.o==OTHER_) fail("unexpected-exception","%s threw %s",what,r.what.c_str()); }
    void visited(Result const& r, Rec const& rec, Slot const& s, int got, int want, bool refok, u64 thrown, const char* what) {
        if(r.o==OTHER_) fail("unexpected-exception","%s threw %s",what,r.what.c_str());
        if(rec.calls>1) fail("visits","%s called the visitor %d times",what,rec.calls);
        if(rec.calls==1 && rec.alt!=s.alt) fail("alternative","%s called the visitor with alternative %d of a variant that holds %d of %d",what,rec.alt,s.alt,s.size);
        if(r.ok()) { if(thrown) fail("swallowed","%s returned although the visitor threw",what); if(rec.calls!=1) fail("visits","%s did not call the visitor",what); if(got!=want) fail("result","%s returned %d, the visitor %d",what,got,want); if(!refok) fail("result","%s does not return the visitor's reference",what); probe("visited"); if(nt>1) probe("visited_in_threads"); }
        else probe("visit_failed"); log(u64(got)); }
    void exec(Op const& o) override {
        int t=self(); World& x=w[t]; Slot& s=x.s[u64(o.a[0])%NS]; Slot& q=x.s[u64(o.a[1])%NS]; int kind=int(u64(o.a[2])%NKINDS), token=int(o.a[3]); Result r;
        switch(o.code) {
        case NEW: { int c=int(u64(o.a[1])%(NFAM*NALT)), size=c%NALT+1, fam=c/NALT, alt=int(u64(o.a[2])%u64(size)); drop(s); AnyVar* v=nullptr; r=attempt([&]{ v=make_any(fam,size,alt,int(o.a[3])); }); if(r.ok()) s=Slot{v,fam,size,alt}; else after(r,"construction"); break; }
        case COPY: if(q.v && &s!=&q) { drop(s); AnyVar* v=nullptr; r=attempt([&]{ v=q.v->copy(); }); if(r.ok()) { s=q; s.v=v; } else after(r,"copy"); } break;
        case MOVE: if(q.v && &s!=&q) { drop(s); AnyVar* v=nullptr; r=attempt([&]{ v=q.v->moved(); }); if(r.ok()) { s=q; s.v=v; drop(q); } else { after(r,"move"); drop(q); } } break;
        case ASSIGN: if(s.v && q.v) { bool same=false; r=attempt([&]{ same=s.v->assign(*q.v); }); if(r.ok()) { if(same) s.alt=q.alt; } else { after(r,"assignment"); drop(s); } } break;
        case VISIT: if(s.v) one(s,kind,token,nullptr,0); break;
        case NESTED: if(s.v && q.v) one(s,kind,token,&q,int(u64(o.a[2])/NKINDS%NKINDS)); break;
        case COMMON: one(com[u64(o.a[0])%NCOM],kind,token,nullptr,0); { Slot const& c=com[u64(o.a[0])%NCOM]; int n; { Lib l; Quiet qq; n=c.v->holds(); } if(n!=c.alt) fail("alternative","a constant variant holds %d, expected %d",n,c.alt); } probe("visited_common"); break;
        case SHAREDV: { Slot const& c= s.v && token%2? s : com[u64(o.a[1])%NCOM]; int got=-1; u64 f=fired_here(K_CALL); r=attempt([&]{ got=c.v->visit_shared(); }); if(r.ok()) { if(fired_here(K_CALL)!=f) fail("swallowed","a visit returned although the visitor threw"); if(got!=c.alt*FACTOR) fail("result","a visit with a common visitor returned %d instead of %d",got,c.alt*FACTOR); } else after(r,"a visit"); break; }
        case DESTROY: drop(s); break;
        }
        check(t);
    }
    void one(Slot const& s, int kind, int token, Slot const* in, int inkind) {
        Rec rec, inrec; int got=-1, ingot=-1; bool refok=true; u64 f=fired_here(K_CALL);
        Result r=attempt([&]{ got=visit(*s.v,kind,Tok{&rec,token,in? in->v : nullptr,inkind,&inrec,&ingot},refok); });
        visited(r,rec,s,got,token*100+s.alt,refok,fired_here(K_CALL)-f,"a visit");
        if(in) { if(inrec.calls>1) fail("visits","a nested visit called the visitor %d times",inrec.calls); if(inrec.calls && inrec.alt!=in->alt) fail("alternative","a nested visit called the visitor with alternative %d instead of %d",inrec.alt,in->alt); if(r.ok()) { if(inrec.calls!=1) fail("visits","a nested visit did not call the visitor"); if(ingot!=(token+1)*100+in->alt) fail("result","a nested visit returned %d, the visitor %d",ingot,(token+1)*100+in->alt); probe("nested_visit"); } }
    }
    void finish() override { for(int t=0;t<nt;++t) { check(t); for(auto& s : w[t].s) drop(s); } for(auto& c : com) { look(c,"at the end"); drop(c); } delete shared; if(elem_live()) fail("leak","%llu alternatives or results were not destroyed",(unsigned long long)elem_live()); }
};
}
sim::Harness* sim::make_harness() { return new H(); }
