// C07: Handle.
#include <cstdlib>
#include <iostream>
#include "handle.hpp"
#include "elem.hpp"
#include "streams.hpp"
#include <memory>
using namespace sim;
using Helper::Handle; using Helper::Wrapper; using Helper::WritableInterface;
namespace {
struct Base { virtual ~Base() = default; virtual Base* clone() const = 0; virtual int get() const = 0; virtual void set(int) = 0; virtual int kind() const = 0;
    virtual Base* _copy() const { return this->clone(); } virtual Base* _move() = 0; };
struct Other { virtual ~Other() = default; virtual int other() const = 0; };            // a second interface some implementations have
struct Impl : Base { Elem e; explicit Impl(int v) : e(v) { } Impl(Impl const&) = default; Impl(Impl&&) = default;
    Impl* clone() const override { callback_point(); return new Impl(*this); } Impl* _copy() const override { return this->clone(); } Impl* _move() override { return new Impl(std::move(*this)); }
    int get() const override { return e.get(); } void set(int v) override { elem_use(&e,"write of"); e.v=v; e.w=~v; } int kind() const override { return 0; } };
struct Impl2 : Base, Other, WritableInterface { ElemC e; ElemC f; explicit Impl2(int v) : e(v), f(v+1) { } Impl2(Impl2 const&) = default;
    Impl2* clone() const override { callback_point(); return new Impl2(*this); } Base* _move() override { return new Impl2(*this); }
    std::ostream& _write(std::ostream& os) const override { return os << "Impl2(" << e.v << ")"; }
    int get() const override { if(f.get()!=e.get()+1) return -1; return e.get(); } void set(int v) override { elem_use(&e,"write of"); e.v=v; e.w=~v; f.v=v+1; f.w=~(v+1); } int kind() const override { return 1; } int other() const override { return e.get(); } };
struct Data { ElemC d; explicit Data(int v) : d(v) { } Data(Data const&) = default; virtual ~Data() = default; void put(int v) { elem_use(&d,"write of"); d.v=v; d.w=~v; } int val() const { return d.get(); } };
struct Wrapped : Wrapper<Data,Base> { explicit Wrapped(int v) : Wrapper<Data,Base>(Data(v)) { } Wrapped(Wrapped const& o) : Base(), Wrapper<Data,Base>(static_cast<Data const&>(o)) { }
    Wrapped* clone() const override { callback_point(); return new Wrapped(*this); } Base* _move() override { return new Wrapped(*this); }
    int get() const override { return val(); } void set(int v) override { put(v); } int kind() const override { return 2; } };
struct BaseHandle : Handle<Base> { using Handle<Base>::Handle; BaseHandle(Handle<Base> h) : Handle<Base>(h) { } };
struct HCH : Handle<const Base> { using Handle<const Base>::Handle; HCH(Handle<const Base> h) : Handle<const Base>(h) { } };
struct OtherHandle : Handle<const Other> { using Handle<const Other>::Handle; OtherHandle(Handle<const Other> h) : Handle<const Other>(h) { } };

// A persistent list: every node holds a handle on the rest, so assigning from it assigns from inside the object held.
struct Node : Base { Elem e; Handle<Base> next; Node(int v, Handle<Base> n) : e(v), next(n) { } Node(Node const&) = default; Node(Node&&) = default;
    Node* clone() const override { callback_point(); return new Node(*this); } Base* _move() override { return new Node(std::move(*this)); }
    int get() const override { return e.get(); } void set(int v) override { elem_use(&e,"write of"); e.v=v; e.w=~v; } int kind() const override { return 3; } };
struct Last : Base { Elem e; explicit Last(int v) : e(v) { } Last(Last const&) = default; Last* clone() const override { callback_point(); return new Last(*this); } Base* _move() override { return new Last(*this); }
    int get() const override { return e.get(); } void set(int v) override { elem_use(&e,"write of"); e.v=v; e.w=~v; } int kind() const override { return 4; } };

enum Code { NEW_RAW, NEW_SHARED, NEW_RVALUE, NEW_CONST, NEW_ICOPY, NEW_IMOVE, NEW_MAKE, COPY, MOVE, ASSIGN, MOVE_ASSIGN, MUTATE, READ, DESTROY, EXTRACT_C, EXTRACT_M, CAST, TO_CONST, CONST_COPY, CONST_ASSIGN, CONST_DESTROY, CONST_EXTRACT, TWO_REFS, KEEP_MANAGED, DROP_MANAGED, CONVERT, CONVERT_DERIVED, D_COPY, D_MUTATE, D_DESTROY, CAST_DROP, CAST_BACK, WALK, FROM_MANAGED, POINTER_EXTRACT, NCODES };
static const int NS=5, NC=3, ND=3;
struct H7 : Harness {
    using HB=BaseHandle; using HC=Handle<const Base>;
    alignas(HB) unsigned char mem[NS][sizeof(HB)]; alignas(HC) unsigned char cmem[NC][sizeof(HC)];
    struct M { bool present=false; int value=0, kind=0; Base const* mref=nullptr; Base const* cref=nullptr; } m[NS]; struct CM { bool present=false; int value=0, kind=0; Base const* cref=nullptr; } cm[NC]; struct DM { bool present=false; int value=0; } dm[ND];
    using HD=Handle<Impl>; alignas(HD) unsigned char dmem[ND][sizeof(HD)]; HD& d(int s) { return *reinterpret_cast<HD*>(dmem[s]); } HD const& cd(int s) { return d(s); }
    void ddrop(int s) { if(!dm[s].present) return; dm[s]=DM(); Result r=attempt([&]{ d(s).~HD(); }); if(!r.ok()) fail("unexpected-exception","handle destructor threw"); }
    struct Kept { std::shared_ptr<Base> p; int value; }; std::vector<Kept> kept;
    struct CastKept { OtherHandle h; int value; }; std::vector<CastKept> casts;
    Sink* err=nullptr; std::streambuf* olderr=nullptr;
    const char* property() const override { return CHECK_ID; }
    std::vector<std::string> op_names() const override { return {"new_raw","new_shared","new_rvalue","new_const","new_icopy","new_imove","new_make","copy","move","assign","move_assign","mutate","read","destroy","extract_const","extract_mutable","cast","to_const","const_copy","const_assign","const_destroy","const_extract","two_refs","keep_managed","drop_managed","convert","convert_derived","d_copy","d_mutate","d_destroy","cast_drop","cast_back","walk","from_managed","pointer_extract"}; }
    HB& h(int s) { return *reinterpret_cast<HB*>(mem[s]); } HB const& ch(int s) { return h(s); } HC& c(int s) { return *reinterpret_cast<HC*>(cmem[s]); }
    void plan(Rng& r, Plan& p) override {
        int nops=int(r.pick({4,8,15,30,60})); int slots=int(r.range(2,NS)); p.cfg["errfull"]=r.chance(0.2)? r.range(0,60) : -1; p.cfg["errchunk"]=r.range(1,20); double pd=r.pick({2,8,20})/100.0;
        std::vector<u32> mix; for(u32 k=0;k<NCODES;++k) { int n=int(r.below(3)); if(k==COPY||k==MUTATE||k==EXTRACT_M||k==ASSIGN||k==TO_CONST||k==CONVERT||k==FROM_MANAGED) n+=2; if(k==DESTROY||k==CONST_DESTROY||k==D_DESTROY) n=r.chance(pd*3); while(n--) mix.push_back(k); }
        for(int i=0;i<nops;++i) { u32 k= i<2? u32(r.pick({NEW_RAW,NEW_SHARED,NEW_RVALUE,NEW_CONST,NEW_MAKE,CONVERT_DERIVED})) : r.chance(0.2)? u32(MUTATE) : mix[r.below(mix.size())]; p.add(0,k,r.range(0,slots-1),r.range(0,slots-1),r.range(0,11),r.range(1,900)); }
        plan_faults(r,p,FaultMix{{{K_ALLOC,0.25,4,0.2},{K_CTOR,0.2,4,0},{K_CALL,0.25,2,0},{K_WRITEERR,0.03,8,0},{K_WRITETHROW,0.03,8,0}}});
    }
    void setup(Plan const& p) override { err=new Sink(p.seed,u32(p.get("errchunk",5)),0); if(p.get("errfull",-1)>=0) err->capacity=size_t(p.get("errfull")); olderr=std::cerr.rdbuf(err); }
    void drop(int s) { if(!m[s].present) return; m[s]=M(); Result r=attempt([&]{ h(s).~HB(); }); if(!r.ok()) fail("unexpected-exception","handle destructor threw"); }
    void cdrop(int s) { if(!cm[s].present) return; cm[s]=CM(); Result r=attempt([&]{ c(s).~HC(); }); if(!r.ok()) fail("unexpected-exception","handle destructor threw"); }
    void copied_from(int s) { m[s].mref=nullptr; }
    void mutated(int s) { m[s].cref=nullptr; }
    void check_ref(Base const* p, int want, const char* what, int s) { if(!p) return; if(heap_contains(p) && !heap_is_live(p)) fail("reference","a reference obtained by %s from handle %d points into released memory",what,s); int v; { Lib l; v=p->get(); } if(v!=want) fail("reference","a reference obtained by %s from handle %d shows %d, the handle holds %d",what,s,v,want); }
    void check(const char* when) {
        Quiet q;
        for(int s=0;s<NS;++s) if(m[s].present) { int v,k; { Lib l; v=ch(s).const_reference().get(); k=ch(s).ptr()->kind(); } if(v!=m[s].value||k!=m[s].kind) fail("value","%s: handle %d holds %d (kind %d), expected %d (kind %d)",when,s,v,k,m[s].value,m[s].kind); check_ref(m[s].mref,m[s].value,"mutable access",s); check_ref(m[s].cref,m[s].value,"read-only access",s); log(u64(v)); }
        for(int s=0;s<NC;++s) if(cm[s].present) { int v,k; { Lib l; v=c(s).const_reference().get(); k=c(s).pointer()->kind(); } if(v!=cm[s].value||k!=cm[s].kind) fail("value","%s: handle %d to a constant interface holds %d (kind %d), expected %d (kind %d)",when,s,v,k,cm[s].value,cm[s].kind); check_ref(cm[s].cref,cm[s].value,"read-only access",s); log(u64(v)); }
        for(int s=0;s<ND;++s) if(dm[s].present) { int v; { Lib l; v=cd(s).const_reference().get(); } if(v!=dm[s].value) fail("value","%s: handle %d to a derived class holds %d, expected %d",when,s,v,dm[s].value); log(u64(v)); }
        for(auto& k : casts) { int v; { Lib l; v=k.h.const_reference().other(); } if(v!=k.value) fail("value","%s: a handle made by a cast holds %d, expected %d",when,v,k.value); log(u64(v)); }
        for(auto& k : kept) { int v; { Lib l; v=k.p->get(); } if(v!=k.value) fail("value","%s: an object held by a managed pointer changed from %d to %d",when,k.value,v); }
    }
    template<class F> void construct(int s, int kind, int value, F f) { drop(s); Result r=attempt(f); if(r.ok()) { m[s].present=true; m[s].kind=kind; m[s].value=value; } else if(r.faulted()) probe("construct_failed"); else fail("unexpected-exception","constructor threw %s",r.what.c_str()); }
    static Base* newk(int k, int v) { switch(k) { case 0: return new Impl(v); case 1: return new Impl2(v); default: return new Wrapped(v); } }
    void after(Result const& r, const char* what) { if(r.faulted()) probe("mutable_access_failed"); if(r.o==OTHER_) fail("unexpected-exception","%s threw %s",what,r.what.c_str()); }
    void exec(Op const& o) override {
        int s=int(u64(o.a[0])%NS), q=int(u64(o.a[1])%NS), k=int(o.a[2]%3), v=int(o.a[3]); void* at=mem[s]; int cs=int(u64(o.a[0])%NC), cq=int(u64(o.a[1])%NC);
        switch(o.code) {
        case NEW_RAW: construct(s,k,v,[&]{ Base* p=newk(k,v); new(at) HB(p); }); break;
        case NEW_SHARED: construct(s,k,v,[&]{ std::shared_ptr<Base> p(newk(k,v)); new(at) HB(p); }); break;
        case NEW_RVALUE: if(k==0) construct(s,0,v,[&]{ new(at) HB(Impl(v)); }); else if(k==1) construct(s,1,v,[&]{ new(at) HB(Impl2(v)); }); else construct(s,2,v,[&]{ new(at) HB(Wrapped(v)); }); break;
        case NEW_CONST: if(k==0) construct(s,0,v,[&]{ const Impl x(v); new(at) HB(x); }); else if(k==1) construct(s,1,v,[&]{ const Impl2 x(v); new(at) HB(x); }); else construct(s,2,v,[&]{ const Wrapped x(v); new(at) HB(x); }); break;
        case NEW_ICOPY: construct(s,k,v,[&]{ std::unique_ptr<Base> x(newk(k,v)); Base const& b=*x; new(at) HB(b); }); break;
        case NEW_IMOVE: construct(s,k,v,[&]{ std::unique_ptr<Base> x(newk(k,v)); Base& b=*x; new(at) HB(std::move(b)); }); break;
        case NEW_MAKE: construct(s,k,v,[&]{ if(k==0) { Handle<Impl> hi=Helper::make_handle<Impl>(v); new(at) HB(hi); } else if(k==1) { Handle<Impl2> hi=Helper::make_handle<Impl2>(v); new(at) HB(hi); } else { Handle<Wrapped> hi=Helper::make_handle<Wrapped>(v); new(at) HB(hi); } }); break;
        case COPY: if(m[q].present && q!=s) { copied_from(q); construct(s,m[q].kind,m[q].value,[&]{ new(at) HB(ch(q)); }); } break;
        case MOVE: if(m[q].present && q!=s) { construct(s,m[q].kind,m[q].value,[&]{ new(at) HB(std::move(h(q))); }); if(m[s].present) moved(q); } break;
        case ASSIGN: if(m[s].present && m[q].present) { copied_from(q); Result r=attempt([&]{ h(s)=ch(q); }); if(r.ok()) { M t=m[q]; t.mref=t.cref=nullptr; if(s!=q) m[s]=t; else { m[s].mref=nullptr; m[s].cref=nullptr; } } else after(r,"assignment"); } break;
        case MOVE_ASSIGN: if(m[s].present && m[q].present && s!=q) { Result r=attempt([&]{ h(s)=std::move(h(q)); }); if(r.ok()) { M t=m[q]; t.mref=t.cref=nullptr; m[s]=t; moved(q); } else after(r,"move assignment"); } break;
        case MUTATE: if(m[s].present) { Base* p=nullptr; bool done=false; mutated(s); Result r=attempt([&]{ std::shared_ptr<Base> sp; switch(o.a[2]%6) { case 0: p=&h(s).reference(); break; case 1: p=h(s).pointer(); break; case 2: p=h(s).raw_pointer(); break; case 3: p=&h(s).ref(); break; case 4: p=h(s).ptr(); break; default: sp=h(s).managed_pointer(); p=sp.get(); } p->set(v); done=true; });
            if(r.ok()) { m[s].value=v; if(m[s].mref && m[s].mref!=p) fail("reference","a second mutable access to handle %d refers to another object although it was not copied from in between",s); m[s].mref=p; } else after(r,"mutable access"); break; } break;
        case TWO_REFS: if(m[s].present) { int got=0; mutated(s); Result r=attempt([&]{ Base& a=h(s).ref(); Base& b=h(s).reference(); a.set(v); got=b.get(); }); if(r.ok()) { if(got!=v) fail("reference","two mutable references of one handle do not agree"); m[s].value=v; } else { after(r,"mutable access"); } if(r.ok()) probe("two_refs"); break; } break;
        case READ: if(m[s].present) { Base const* p=nullptr; int got=0; Result r=attempt([&]{ std::shared_ptr<const Base> sp; HB const& x=ch(s); switch(o.a[2]%8) { case 0: p=&x.reference(); break; case 1: p=x.pointer(); break; case 2: p=x.raw_pointer(); break; case 3: p=&x.ref(); break; case 4: p=x.ptr(); break; case 5: p=&static_cast<Base const&>(x); break; case 6: sp=x.managed_const_pointer(); p=sp.get(); break; default: p=h(s).raw_const_pointer(); } got=p->get(); });
            if(!r.ok()) fail("unexpected-exception","read-only access threw %s",r.what.c_str()); if(got!=m[s].value) fail("value","read-only access shows %d instead of %d",got,m[s].value); m[s].cref=p; break; } break;
        case DESTROY: drop(s); break;
        case EXTRACT_C: if(m[s].present) { int got=-1; bool rightkind=true; Result r; HB const& x=ch(s);
            if(k==0) { rightkind=m[s].kind==0; r=attempt([&]{ got=Helper::dynamic_handle_extract<Impl>(static_cast<Handle<Base> const&>(x)).get(); }); } else if(k==1) { rightkind=m[s].kind==1; r=attempt([&]{ got=Helper::dynamic_handle_extract<Impl2>(static_cast<Handle<Base> const&>(x)).get(); }); } else { rightkind=m[s].kind==2; r=attempt([&]{ got=Helper::dynamic_handle_extract<Data>(static_cast<Handle<Base> const&>(x)).val(); }); }
            extract_result(r,rightkind,got,m[s].value,"constant extract"); break; } break;
        case EXTRACT_M: if(m[s].present) { bool rightkind=m[s].kind==k; mutated(s); Base const* p=nullptr; Handle<Base>& x=h(s); Result r=attempt([&]{ if(k==0) { auto& t=Helper::dynamic_handle_extract<Impl>(x); t.set(v); p=&t; } else if(k==1) { auto& t=Helper::dynamic_handle_extract<Impl2>(x); t.set(v); p=&t; } else { Data& t=Helper::dynamic_handle_extract<Data>(x); t.put(v); } });
            if(r.ok()) { if(!rightkind) fail("value","mutable extract to a type the object does not have returned"); m[s].value=v; if(p) m[s].mref=p; else m[s].mref=nullptr; probe("mutable_extract"); } else { m[s].mref=nullptr; extract_result(r,rightkind,0,0,"mutable extract"); } break; } break;
        case CAST: if(m[s].present) { copied_from(s); int got=-1; bool has=m[s].kind==1; int val=m[s].value; Result r=attempt([&]{ OtherHandle oh=Helper::dynamic_handle_cast<OtherHandle>(ch(s)); got=oh.const_reference().other(); if(v%2) { Harn hh; if(casts.size()<3) { Quiet qq; casts.push_back(CastKept{oh,val}); } } }); extract_result(r,has,got,val,"handle cast"); break; } break;
        // the pointer taken out keeps the object alive and shows it as it was, whatever is done to the handle afterwards
        case POINTER_EXTRACT: if(m[s].present) { copied_from(s); int got=-1; bool rightkind=m[s].kind==k, none=false; Result r=attempt([&]{ std::shared_ptr<const Base> bp=ch(s).managed_pointer(); switch(k) { case 0: { auto t=Helper::dynamic_pointer_extract<Impl>(bp); none=!t; if(t) { bp.reset(); got=t->get(); } } break; case 1: { auto t=Helper::dynamic_pointer_extract<Impl2>(bp); none=!t; if(t) { bp.reset(); got=t->get(); } } break; default: { auto t=Helper::dynamic_pointer_extract<Data>(bp); none=!t; if(t) { bp.reset(); got=t->val(); } } } });
            if(r.ok() && none) { if(rightkind) fail("value","extracting a pointer to the type the object has gave none"); } else extract_result(r,rightkind,got,m[s].value,"pointer extract"); break; } break;
        case CAST_DROP: if(!casts.empty()) { size_t i=size_t(v)%casts.size(); if(k==0) { Result r=attempt([&]{ casts[i].h=casts[0].h; }); if(r.ok()) casts[i].value=casts[0].value; else after(r,"assignment"); } else { Lib l; casts.erase(casts.begin()+long(i)); } } break;
        case CAST_BACK: if(!casts.empty()) { size_t i=size_t(v)%casts.size(); int got=-1; Result r=attempt([&]{ HCH b=Helper::dynamic_handle_cast<HCH>(casts[i].h); got=b.const_reference().get(); }); extract_result(r,true,got,casts[i].value,"handle cast back"); if(r.ok()) probe("cast_back"); } break;
        // a handle made from the managed pointer of another one shares its object as a copy does
        case FROM_MANAGED: if(v%4==3 && !kept.empty()) { size_t i=size_t(k)%kept.size(); int kv=kept[i].value, kk=kept[i].p->kind(); construct(s,kk,kv,[&]{ if(v&8) new(at) HB(kept[i].p); else { std::shared_ptr<Base> p(kept[i].p); new(at) HB(std::move(p)); } }); if(m[s].present) probe("made_from_managed_pointer"); }
            else if(v%4==2 && cm[cq].present) { cdrop(cs); if(cs!=cq) { Result r=attempt([&]{ HC const& x=c(cq); if(v&8) new(cmem[cs]) HC(x.managed_pointer()); else new(cmem[cs]) HC(x.managed_const_pointer()); }); if(r.ok()) { cm[cs]=cm[cq]; cm[cs].cref=nullptr; } else after(r,"construction"); } }
            else if(m[q].present && q!=s) { copied_from(q); construct(s,m[q].kind,m[q].value,[&]{ if(v&8) new(at) HB(ch(q).managed_pointer()); else { std::shared_ptr<Base> p=ch(q).managed_const_pointer(); new(at) HB(p); } }); if(m[s].present) probe("made_from_managed_pointer"); } break;
        case WALK: walk(int(o.a[2]),v); break;
        case TO_CONST: if(m[q].present) { cdrop(cs); copied_from(q); Result r=attempt([&]{ new(cmem[cs]) HC(ch(q)); }); if(r.ok()) { cm[cs].present=true; cm[cs].value=m[q].value; cm[cs].kind=m[q].kind; probe("converted"); } else after(r,"conversion"); } break;
        case CONST_COPY: if(cm[cq].present && cq!=cs) { cdrop(cs); Result r=attempt([&]{ HC const& x=c(cq); new(cmem[cs]) HC(x); }); if(r.ok()) { cm[cs]=cm[cq]; cm[cs].cref=nullptr; } else after(r,"copy"); } break;
        case CONST_ASSIGN: if(cm[cs].present && cm[cq].present) { Result r=attempt([&]{ HC const& x=c(cq); c(cs)=x; }); if(r.ok()) { CM t=cm[cq]; t.cref=nullptr; cm[cs]=t; } else after(r,"assignment"); } break;
        case CONST_DESTROY: cdrop(cs); break;
        case CONST_EXTRACT: if(cm[cs].present) { int got=-1; HC& x=c(cs); bool rightkind=cm[cs].kind==k; Result r=attempt([&]{ if(k==0) got=Helper::dynamic_handle_extract<Impl>(x).get(); else if(k==1) got=Helper::dynamic_handle_extract<Impl2>(x).get(); else got=Helper::dynamic_handle_extract<Data>(x).val(); }); extract_result(r,rightkind,got,cm[cs].value,"constant extract"); if(r.ok()) { Lib l; cm[cs].cref=x.raw_pointer(); } } break;
        case KEEP_MANAGED: if(m[s].present && kept.size()<3) { mutated(s); Kept kk; kk.value=m[s].value; Result r=attempt([&]{ if(v%2) kk.p=h(s).managed_pointer(); else kk.p=ch(s).managed_pointer(); }); if(r.ok()) { copied_from(s); kept.push_back(std::move(kk)); } else after(r,"managed pointer"); } break;
        case DROP_MANAGED: if(!kept.empty()) { size_t i=size_t(v)%kept.size(); { Lib l; kept[i].p.reset(); } kept.erase(kept.begin()+long(i)); } break;
        // conversions to a handle of a base class leave the source in use: both may then be mutated and destroyed in either order
        case CONVERT: if(dm[q%ND].present) { int dq=q%ND; construct(s,0,dm[dq].value,[&]{ new(at) HB(cd(dq)); }); if(m[s].present) probe("converted_to_base"); } break;
        case CONVERT_DERIVED: { int ds=s%ND; ddrop(ds); Result r=attempt([&]{ switch(k) { case 0: new(dmem[ds]) HD(new Impl(v)); break; case 1: new(dmem[ds]) HD(Helper::make_handle<Impl>(v)); break; default: { const Impl x(v); new(dmem[ds]) HD(x); } } }); if(r.ok()) { dm[ds].present=true; dm[ds].value=v; } else after(r,"construction"); } break;
        case D_COPY: { int ds=s%ND, dq=q%ND; if(ds!=dq && dm[dq].present) { if(dm[ds].present) { Result r=attempt([&]{ d(ds)=cd(dq); }); if(r.ok()) dm[ds]=dm[dq]; else after(r,"assignment"); } else { Result r=attempt([&]{ new(dmem[ds]) HD(cd(dq)); }); if(r.ok()) dm[ds]=dm[dq]; else after(r,"copy"); } } } break;
        case D_MUTATE: { int ds=s%ND; if(dm[ds].present) { Result r=attempt([&]{ Impl* p= k==0? d(ds).pointer() : k==1? &d(ds).reference() : &d(ds).ref(); p->set(v); }); if(r.ok()) { dm[ds].value=v; probe("derived_mutated"); } else after(r,"mutable access"); } } break;
        case D_DESTROY: ddrop(s%ND); break;
        }
        check("after an operation");
    }
    // Builds a list of n nodes (kept by a second handle, or not), walks it by assignment from inside and changes some nodes on the way.
    void walk(int mode, int v) {
        int n=2+v%4, made=0; bool share=mode&1, mutate=mode&2; HB* cur=nullptr; HB* head=nullptr; u64 before=elem_live(); std::vector<int> val(size_t(n),0);
        Result r=attempt([&]{ cur=new HB(new Last(v)); for(int i=1;i<n;++i) { HB t(new Node(v+i,*cur)); *cur=t; } if(share) head=new HB(*cur); }); made=r.ok()?n:0;
        if(r.o==OTHER_) fail("unexpected-exception","building a list of handles threw %s",r.what.c_str());
        for(int i=n-1;made && i>=0;--i) {
            int got=-1, set=-1; r=attempt([&]{ got=static_cast<HB const&>(*cur).const_reference().get(); if(mutate) { cur->reference().set(v+100+i); set=v+100+i; got=static_cast<HB const&>(*cur).const_reference().get(); } });
            if(r.o==OTHER_) fail("unexpected-exception","access to a list of handles threw %s",r.what.c_str()); else if(!r.ok()) { after(r,"mutable access"); if(got>=0&&got!=v+i) fail("value","node %d of a list of handles holds %d, expected %d",i,got,v+i); } else if(got!=(mutate?set:v+i)) fail("value","node %d of a list of handles holds %d, expected %d",i,got,mutate?set:v+i);
            if(i==0) break;
            r=attempt([&]{ switch(mode/4%3) { case 0: *cur=BaseHandle(static_cast<Node const&>(static_cast<HB const&>(*cur).const_reference()).next); break; case 1: static_cast<Handle<Base>&>(*cur)=static_cast<Node const&>(static_cast<HB const&>(*cur).const_reference()).next; break; default: { Node& nd=Helper::dynamic_handle_extract<Node>(static_cast<Handle<Base>&>(*cur)); static_cast<Handle<Base>&>(*cur)=nd.next; } } });
            if(!r.ok()) { after(r,"assignment"); break; } probe("walked_list_of_handles");
            if(!share && elem_live()-before!=u64(i)) fail(elem_live()-before>u64(i)?"leak":"lifetime","%llu nodes are alive, the list has %d left",(unsigned long long)(elem_live()-before),i);
        }
        if(head) { int i=n-1; HB* x=head; r=attempt([&]{ Handle<Base> y(*x); for(;i>=0;--i) { int g=static_cast<Handle<Base> const&>(y).const_reference().get(); if(g!=v+i) { Harn hh; fail("value","node %d of a list of handles shows a change made through another handle: %d instead of %d",i,g,v+i); } if(i>0) y=static_cast<Node const&>(static_cast<Handle<Base> const&>(y).const_reference()).next; } }); if(r.o==OTHER_) fail("unexpected-exception","reading a list of handles threw"); }
        Result d=attempt([&]{ delete cur; delete head; }); if(!d.ok()) fail("unexpected-exception","handle destructor threw");
        if(elem_live()!=before) fail("leak","%llu nodes survive their list",(unsigned long long)(elem_live()-before));
    }
    void moved(int q) { m[q]=M(); Result r=attempt([&]{ h(q).~HB(); }); if(!r.ok()) fail("unexpected-exception","handle destructor threw"); }
    void extract_result(Result const& r, bool has, int got, int val, const char* what) {
        if(r.ok()) { if(!has) fail("value","%s to a type the object does not have returned",what); if(got!=val) fail("value","%s shows %d instead of %d",what,got,val); }
        else if(r.faulted()) probe("extract_failed");
        else if(has) fail("value","%s to a type the object has threw %s",what,r.what.c_str());
        else if(r.what!="std::bad_cast") fail("value","%s to a type the object does not have threw %s instead of bad_cast",what,r.what.c_str()); else probe("bad_cast");
    }
    void finish() override { check("at the end"); for(int s=0;s<NS;++s) { drop(s); check("while destroying"); } for(int s=0;s<NC;++s) { cdrop(s); check("while destroying"); } for(int s=0;s<ND;++s) { ddrop(s); check("while destroying"); } { Lib l; for(auto& k : kept) k.p.reset(); casts.clear(); } kept.clear(); std::cerr.rdbuf(olderr); std::cerr.clear(); }
};
}
sim::Harness* sim::make_harness() { return new H7(); }
