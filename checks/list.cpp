// C15: List, LinkedList and the free functions on them.
#include "container.hpp"
#include "elem.hpp"
using namespace sim;
using Helper::List; using Helper::LinkedList; using Helper::Array; using Helper::Set;
namespace {
static i64 LMAX=12;
enum Code { NEW, APPEND_ITEM, APPEND_OWN, APPEND_LIST, CATENATE, CATENATE_ITEM, APPLY, ELEMENTWISE, ELEMENTWISE2, MAKE, COPY, UNIQUE, DUPLICATES, LNEW, LITEM, LAPPEND, LCOPY, NCODES };
static const int NS=4;
using V=std::vector<int>;
static int val(Elem const& e) { return e.get(); } static int val(ElemC const& e) { return e.get(); } static int val(ElemL const& e) { return e.get(); } static int val(int e) { return e; }
template<class T> struct Fn { int k; T operator()(T const& x) const { int v; { Harn h; v=val(x); } callback_point(); return T(v*3+k); } };
template<class T> struct FnInt { int k; int operator()(T const& x) const { int v; { Harn h; v=val(x); } callback_point(); return v*2+k; } };
template<class T> struct FnVal { int k; int operator()(T x) const { int v; { Harn h; v=val(x); } callback_point(); return v*2+k; } };   // takes its argument by value
template<class T> struct Fn2 { int k; T operator()(T const& x, int y) const { int v; { Harn h; v=val(x); } callback_point(); return T(v*3+y+k); }
    T operator()(T const& x, T const& y) const requires (!std::is_same_v<T,int>) { int v, w; { Harn h; v=val(x); w=val(y); } callback_point(); return T(v*3+w+k); } };
struct World { virtual ~World() = default; virtual void exec(Op const&) = 0; virtual void finish() = 0; };
template<class T> struct W : World {
    List<T>* l[NS]; V m[NS]; LinkedList<T>* k[NS]; V mk[NS];
    W() { for(int i=0;i<NS;++i) { Lib g; Quiet q; l[i]=new List<T>(); k[i]=new LinkedList<T>(); } }
    template<class C> static V read(C const& c) { V r; Quiet q; Lib g; size_t n=c.size(); size_t i=0; for(auto const& x : c) { if(i++>n) break; Harn h; r.push_back(val(x)); } return r; }
    static std::string show(V const& v) { std::string s; for(size_t i=0;i<v.size() && i<12;++i) s+=(i?",":"")+std::to_string(v[i]); return "["+s+(v.size()>12?",...":"")+"]("+std::to_string(v.size())+")"; }
    void all(const char* what) { for(int i=0;i<NS;++i) { V g=read(*l[i]); if(g!=m[i]) fail("wrong-list","%s: list %d is %s, not %s",what,i,show(g).c_str(),show(m[i]).c_str()); g=read(*k[i]); if(g!=mk[i]) fail("wrong-list","%s: linked list %d is %s, not %s",what,i,show(g).c_str(),show(mk[i]).c_str()); } }
    //! After a failed extension the list holds its old items followed by leading items of what was added.
    template<class C> void partial(C const& c, V& mod, V const& full, const char* what) { V g=read(c); if(g.size()<mod.size() || g.size()>full.size() || !std::equal(g.begin(),g.end(),full.begin())) fail("partial-wrong","a failed %s turned %s into %s (adding up to %s)",what,show(mod).c_str(),show(g).c_str(),show(full).c_str()); if(g.size()!=mod.size()) probe("partly_extended"); mod=g; probe("extension_failed"); }
    //! A call that makes a new list: on success slot d takes it.
    template<class F> void make(int d, V const& want, const char* what, F f) { List<T>* n=nullptr; Result r=attempt_only_faults([&]{ n=new List<T>(f()); });
        if(r.ok()) { V g=read(*n); if(g!=want) fail("wrong-list","%s gave %s, not %s",what,show(g).c_str(),show(want).c_str()); { Lib x; Quiet q; delete l[d]; } l[d]=n; m[d]=want; probe("made"); } else probe("make_failed"); all(what); }
    template<class F> void lmake(int d, V const& want, const char* what, F f) { LinkedList<T>* n=nullptr; Result r=attempt_only_faults([&]{ n=f(); });
        if(r.ok()) { V g=read(*n); if(g!=want) fail("wrong-list","%s gave %s, not %s",what,show(g).c_str(),show(want).c_str()); { Lib x; Quiet q; delete k[d]; } k[d]=n; mk[d]=want; probe("linked_made"); } else probe("linked_make_failed"); all(what); }
    void exec(Op const& o) override {
        int s=int(u64(o.a[0])%NS), t=int(u64(o.a[1])%NS); int v=int(o.a[2]%1000); u64 x=u64(o.a[3]);
        switch(o.code) {
        case NEW: { V src; Rng q(u64(o.a[2])); u64 n=u64(o.a[1])%80000; for(u64 i=0;i<n;++i) src.push_back(int(x/8%4==3? i64(i) : q.range(0,x%2? 6:60))); if(x/8%4==3 && n>1) { u64 y=u64(o.a[2])/7%4; if(y) src[size_t(n-1)]=src[size_t(y==1? 0 : y==2? n-2 : u64(o.a[2])%(n-1))]; } std::vector<T>* vt; { Lib g; Quiet qq; vt=new std::vector<T>(src.begin(),src.end()); }
            switch(x%6) { case 0: make(s,src,"List from a range",[&]{ return List<T>(src.begin(),src.end()); }); break; case 1: make(s,src,"List from a vector",[&]{ return List<T>(*vt); }); break;
            case 2: if constexpr(!std::is_same_v<T,int>) make(s,src,"List from a vector of another type",[&]{ return List<T>(src); }); else { std::vector<long> sh(src.begin(),src.end()); make(s,src,"List from a vector of another type",[&]{ return List<T>(sh); }); } break;
            case 3: make(s,V(n,v),"List of n equal items",[&]{ T y(v); return List<T>(n,y); }); break; case 4: make(s,V(1,v),"List of one item",[&]{ T y(v); return List<T>(y); }); break; default: make(s,V(),"empty List",[&]{ return List<T>(); }); }
            { Lib g; Quiet qq; delete vt; } break; }
        case APPEND_ITEM: for(u64 i=0;i<1+x%9;++i) { V full=m[s]; full.push_back(v+int(i)); Result r=attempt_only_faults([&]{ T y(v+int(i)); l[s]->append(y); }); if(r.ok()) m[s]=full; else partial(*l[s],m[s],full,"append of an item"); } all("append of an item"); break;
        case APPEND_OWN: if(!m[s].empty()) { size_t i=x%m[s].size(); V full=m[s]; full.push_back(m[s][i]); Result r=attempt_only_faults([&]{ l[s]->append((*l[s])[i]); }); if(r.ok()) m[s]=full; else partial(*l[s],m[s],full,"append of an own item"); probe("append_own_item"); all("append of an own item"); } break;
        case APPEND_LIST: { if(m[s].size()+m[t].size()>200000) break; V full=m[s]; full.insert(full.end(),m[t].begin(),m[t].end()); if(s==t) probe("append_self"); Result r=attempt_only_faults([&]{ if(x%2) l[s]->append(*l[t]); else l[s]->concatenate(*l[t]); }); if(r.ok()) m[s]=full; else partial(*l[s],m[s],full,"append of a list"); all("append of a list"); break; }
        case CATENATE: { if(m[s].size()+m[t].size()>200000) break; V full=m[s]; full.insert(full.end(),m[t].begin(),m[t].end()); make(int(x%NS),full,"catenate",[&]{ return catenate(*l[s],*l[t]); }); break; }
        case CATENATE_ITEM: { V full=m[s]; if(x%2 && !m[t].empty()) { size_t i=size_t(v)%m[t].size(); full.push_back(m[t][i]); make(int(x/2%NS),full,"catenate with an item",[&]{ return catenate(*l[s],(*l[t])[i]); }); } else { full.push_back(v); make(int(x/2%NS),full,"catenate with an item",[&]{ T y(v); return catenate(*l[s],y); }); } break; }
        case APPLY: { V w; if(x%5==0) { for(int e : m[s]) w.push_back(e*2+7); toint(w,"apply of a function by value",[&]{ FnVal<T> f{7}; return Helper::apply(f,*l[s]); }); } else if(x%2) { for(int e : m[s]) w.push_back(e*3+1); make(t,w,"apply",[&]{ Fn<T> f{1}; return Helper::apply(f,*l[s]); }); } else { for(int e : m[s]) w.push_back(e*2+5); toint(w,"apply",[&]{ FnInt<T> f{5}; return Helper::apply(f,*l[s]); }); } break; }
        case ELEMENTWISE: { V w; if(x%5==0) { for(int e : m[s]) w.push_back(e*2+9); toint(w,"elementwise of a function by value",[&]{ return elementwise(FnVal<T>{9},*l[s]); }); } else if(x%2) { for(int e : m[s]) w.push_back(e*3+2); make(t,w,"elementwise",[&]{ return elementwise(Fn<T>{2},*l[s]); }); } else { for(int e : m[s]) w.push_back(e*2+3); toint(w,"elementwise",[&]{ return elementwise(FnInt<T>{3},*l[s]); }); } break; }
        case ELEMENTWISE2: { V w; if(x%3==0) { int u=m[s].size()==m[t].size()? t : s; for(size_t i=0;i<m[s].size();++i) w.push_back(m[s][i]*3+m[u][i]+4); make(int(x/3%NS),w,u==s? "elementwise on a list and itself":"elementwise on two lists",[&]{ return elementwise(Fn2<T>{4},*l[s],*l[u]); }); break; } List<int>* b; { Lib g; Quiet q; b=new List<int>(); for(size_t i=0;i<m[s].size();++i) b->push_back(int(i)*7); } for(size_t i=0;i<m[s].size();++i) w.push_back(m[s][i]*3+int(i)*7+1); make(t,w,"elementwise on two lists",[&]{ return elementwise(Fn2<T>{1},*l[s],*b); }); { Lib g; Quiet q; delete b; } break; }
        case MAKE: { V const& a=m[t]; switch(x%5) {
            case 0: make(s,V(1,v),"make_list of an item",[&]{ T y(v); return Helper::make_list(y); }); break;
            case 1: { std::vector<T> const& vt=*l[t]; make(s,V(a),"make_list of a vector",[&]{ return Helper::make_list(vt); }); break; }
            case 2: { Array<T>* ar; { Lib g; Quiet q; ar=new Array<T>(l[t]->begin(),l[t]->end()); } make(s,V(a),"make_list of an array",[&]{ return Helper::make_list(*ar); }); { Lib g; Quiet q; delete ar; } break; }
            case 3: { Set<T>* st; { Lib g; Quiet q; st=new Set<T>(l[t]->begin(),l[t]->end()); } std::set<int> w(a.begin(),a.end()); make(s,V(w.begin(),w.end()),x%2?"make_list of a set":"conversion of a set",[&]{ return x%2? Helper::make_list(*st) : static_cast<List<T>>(*st); }); { Lib g; Quiet q; delete st; } break; }
            default: { std::vector<T> const& vt=*l[t]; Array<T>* ar=nullptr; Result r=attempt_only_faults([&]{ ar=new Array<T>(Helper::make_array(vt)); }); if(r.ok()) { V g; { Quiet q; for(size_t i=0;i<ar->size();++i) g.push_back(val((*ar)[i])); } if(g!=a) fail("wrong-list","make_array of a vector gave %s, not %s",show(g).c_str(),show(a).c_str()); Lib h; Quiet q; delete ar; } all("make_array"); break; } } break; }
        case COPY: { bool ok; if(x%2) { V a=m[t]; make(s,a,"copy",[&]{ return List<T>(*l[t]); }); } else { Result r=attempt_only_faults([&]{ *l[s]=*l[t]; }); ok=r.ok(); m[s]= ok? m[t] : read(*l[s]); if(s==t && !ok) m[t]=m[s]; all("assignment"); } break; }
        case UNIQUE: { bool u=false; Result r=attempt_only_faults([&]{ u=unique_elements(*l[s]); }); std::set<int> w(m[s].begin(),m[s].end()); if(r.ok() && u!=(w.size()==m[s].size())) fail("wrong-unique","unique_elements of %s is %d",show(m[s]).c_str(),u); if(r.ok()) probe(u? "unique":"not_unique"); all("unique_elements"); break; }
        case DUPLICATES: { Set<T>* d=nullptr; Result r=attempt_only_faults([&]{ d=new Set<T>(duplicate_elements(*l[s])); }); if(r.ok()) { std::map<int,int> c; for(int e : m[s]) ++c[e]; V w; for(auto& e : c) if(e.second>1) w.push_back(e.first); V g=read(*d); if(g!=w) fail("wrong-duplicates","duplicate_elements of %s is %s, not %s",show(m[s]).c_str(),show(g).c_str(),show(w).c_str()); { Lib h; Quiet q; delete d; } } all("duplicate_elements"); break; }
        case LNEW: { u64 n=u64(o.a[2])%u64(LMAX); switch(x%6) { case 0: lmake(s,V(n,0),"LinkedList of n items",[&]{ return new LinkedList<T>((unsigned int)n); }); break; case 1: lmake(s,V(n,v),"LinkedList of n equal items",[&]{ T y(v); return new LinkedList<T>((unsigned int)(n),y); }); break;
            case 2: { V a=m[t]; if(x%12<6) lmake(s,a,"LinkedList of a List",[&]{ return new LinkedList<T>(*l[t]); }); else { List<short>* ls; { Lib g; Quiet q; ls=new List<short>(a.begin(),a.end()); } V as; for(int e : a) as.push_back(short(e)); lmake(s,as,"LinkedList of a List of another type",[&]{ return new LinkedList<T>(*ls); }); { Lib g; Quiet q; delete ls; } } break; } case 3: { V a=mk[t]; lmake(s,a,"LinkedList of a std::list",[&]{ std::list<T> const& sl=*k[t]; return new LinkedList<T>(sl); }); break; }
            case 4: { V a=m[t]; lmake(s,a,"LinkedList of a range",[&]{ return new LinkedList<T>(l[t]->begin(),l[t]->end()); }); break; }
            default: { V a=m[t]; LinkedList<int>* li; { Lib g; Quiet q; li=new LinkedList<int>(a.begin(),a.end()); } lmake(s,a,"LinkedList of another type's",[&]{ return new LinkedList<T>(*li); }); { Lib g; Quiet q; delete li; } } } break; }
        case LITEM: for(u64 i=0;i<1+x%4;++i) { V full=mk[s]; Result r; if(x%3==0 && !mk[s].empty()) { full.push_back(mk[s].front()); r=attempt_only_faults([&]{ k[s]->append(k[s]->front()); }); } else { full.push_back(v); r=attempt_only_faults([&]{ T y(v); k[s]->append(y); }); } if(r.ok()) mk[s]=full; else partial(*k[s],mk[s],full,"append of an item"); } all("append of an item"); break;
        case LAPPEND: { if(mk[s].size()+mk[t].size()>200000) break; V full=mk[s]; full.insert(full.end(),mk[t].begin(),mk[t].end()); if(s==t) probe("linked_append_self"); Result r=attempt_only_faults([&]{ if(x%2) k[s]->append(*k[t]); else k[s]->concatenate(*k[t]); }); if(r.ok()) mk[s]=full; else partial(*k[s],mk[s],full,"append of a linked list"); all("append of a linked list"); break; }
        case LCOPY: { V a=mk[t]; lmake(s,a,"copy",[&]{ return new LinkedList<T>(*k[t]); }); break; }
        }
    }
    template<class F> void toint(V const& want, const char* what, F f) { List<int>* n=nullptr; Result r=attempt_only_faults([&]{ n=new List<int>(f()); }); if(r.ok()) { V g(n->begin(),n->end()); if(g!=want) fail("wrong-list","%s gave %s, not %s",what,show(g).c_str(),show(want).c_str()); Lib h; Quiet q; delete n; } all(what); }
    void finish() override { for(int i=0;i<NS;++i) { Lib g; delete l[i]; delete k[i]; } }
};
struct H : Harness {
    std::unique_ptr<World> w;
    const char* property() const override { return CHECK_ID; }
    std::vector<std::string> op_names() const override { return {"new","append_item","append_own","append_list","catenate","catenate_item","apply","elementwise","elementwise2","make","copy","unique","duplicates","lnew","litem","lappend","lcopy"}; }
    void plan(Rng& r, Plan& p) override {
        p.cfg["type"]=r.range(0,3); int n=int(r.range(2,26)); bool linked=r.chance(0.3); i64 big=0; if(r.chance(0.01)) big=r.chance(0.2)? r.range(900,6000) : r.range(250,900); if(r.chance(0.004)) { big=r.range(65000,67000); n=int(r.range(2,9)); p.cfg["type"]=3; } if(big) p.cfg["linked_max"]=r.chance(0.5)? 12 : big>60000? 99999 : big; if(big>60000 && r.chance(0.3)) linked=true;
        for(int i=0;i<NS;++i) if(r.chance(0.6)) p.add(0,NEW,i,i64(big && r.chance(0.6)? big+r.range(0,20) : r.chance(0.05)? r.range(20,150) : r.chance(0.5)? r.range(2,10) : i64(r.logu(12))),r.range(0,99999),r.range(0,99));
        for(int i=0;i<n;++i) { i64 c= linked && r.chance(0.6)? r.pick({LNEW,LITEM,big? LNEW:LITEM,LAPPEND,LAPPEND,LCOPY}) : r.range(0,NCODES-1); i64 s=r.range(0,NS-1); i64 t=r.chance(0.3)? s : r.range(0,NS-1); if(c==NEW) t=i64(r.logu(16)); p.add(0,u32(c),s,t,r.range(0,99999),r.range(0,99999)); }
        if(big) for(int i=0;i<NS;++i) if(r.chance(0.5)) p.add(0,r.pick({UNIQUE,DUPLICATES}),i,0,0,0);
        plan_faults(r,p,{{{K_ALLOC,0.2,8,0.4},{K_CTOR,0.2,14,0.2},{K_CALL,0.15,8,0},{K_CMP,0.1,20,0},{K_ASSIGN,0.08,8,0}}},0.25);
    }
    void setup(Plan const& p) override { LMAX=std::max<i64>(1,p.get("linked_max",12)); for(Op const& o : p.ops) if(o.code==NEW && o.a[1]>256) probe("large_list"); switch(p.get("type",0)%4) { case 0: w.reset(new W<Elem>()); break; case 1: w.reset(new W<ElemC>()); break; case 2: w.reset(new W<ElemL>()); break; default: w.reset(new W<int>()); } }
    void exec(Op const& o) override { w->exec(o); }
    void finish() override { w->finish(); w.reset(); }
};
}
sim::Harness* sim::make_harness() { return new H(); }
