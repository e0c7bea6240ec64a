// C03: SharedArray.
#include "array.hpp"
#include "elem.hpp"
#include <memory>
using namespace sim;
using Helper::SharedArray;
namespace {
enum Code { NEW_N, NEW_NX, NEW_LIST, COPY, ASSIGN, WRITE, READ, DESTROY, HUGE_, MANY, MANY_DROP, NEST, NCODES };
//! An element that itself holds a shared array of such elements.
struct Node { Elem e; SharedArray<Node> kids; Node() : e(0), kids(0u) { } };
struct World { virtual ~World() = default; virtual void exec(Op const&) = 0; virtual void finish() = 0; };
template<class T> struct V; template<int P,bool M> struct V<ElemT<P,M>> { static int get(ElemT<P,M> const& x) { return x.get(); } static ElemT<P,M> make(int v) { return ElemT<P,M>(v); } };
template<> struct V<int> { static int get(int x) { return x; } static int make(int v) { return v; } };
template<> struct V<std::string> { static int get(std::string const& s) { return s.size()? s[0]*64+int(s.size()) : 0; } static std::string make(int v) { return std::string(size_t(v%60)+1,char('a'+v%23)); } };
template<class T> struct SharedWorld : World {
    static const int NS=6; using A=SharedArray<T>; using M=std::vector<int>;
    static constexpr bool ELEM=!std::is_same_v<T,int> && !std::is_same_v<T,std::string>;
    alignas(A) unsigned char mem[NS][sizeof(A)]; bool present[NS]; std::shared_ptr<M> model[NS];
    A* many=nullptr; size_t many_n=0; std::shared_ptr<M> many_model;   // a crowd of copies of one shared array
    SharedWorld() { for(auto& p : present) p=false; }
    A& arr(int s) { return *reinterpret_cast<A*>(mem[s]); } A const& carr(int s) { return arr(s); }
    void drop(int s) { if(!present[s]) return; present[s]=false; Result r=attempt([&]{ arr(s).~A(); }); if(!r.ok()) fail("unexpected-exception","destructor threw"); if(model[s].use_count()==1) probe("last_copy_destroyed"); model[s].reset(); }
    void drop_many(size_t leave) { if(many_n>leave) { Result r=attempt([&]{ while(many_n>leave) { --many_n; many[many_n].~A(); } }); if(!r.ok()) fail("unexpected-exception","destructor threw"); } if(many_n==0) { std::free(many); many=nullptr; many_model.reset(); } }
    static int vv(int v) { return std::is_same_v<T,std::string>? V<std::string>::get(V<std::string>::make(v)) : v; }
    static bool unspecified() { return std::is_same_v<T,int>; }   // elements of SharedArray<int>(n) are indeterminate until written
    void verify() {
        u64 expect=0;
        for(int s=0;s<NS;++s) if(present[s]) {
            size_t n; { Lib l; n=carr(s).size(); } if(n!=model[s]->size()) fail("value","shared array %d has size %zu instead of %zu",s,n,model[s]->size());
            for(size_t i=0;i<n;++i) { if((*model[s])[i]==INT32_MIN) continue; int v,w; { Lib l; v=V<T>::get(carr(s)[i]); w=V<T>::get(*(arr(s).begin()+i)); } if(v!=(*model[s])[i]||w!=v) fail("value","element %zu of shared array %d is %d/%d instead of %d",i,s,v,w,(*model[s])[i]); log(u64(u32(v))); }
            size_t k=0; { Lib l; for(auto it=carr(s).begin(); it!=carr(s).end(); ++it) { Harn h; ++k; if(k>n) break; } } if(k!=n) fail("value","iteration visits %zu elements of %zu",k,n);
            bool first=true; for(int q=0;q<s;++q) if(present[q] && model[q]==model[s]) first=false; if(first) expect+=n;
        }
        if(many_n) { bool first=true; for(int q=0;q<NS;++q) if(present[q] && model[q]==many_model) first=false; if(first) expect+=many_model->size();
            size_t n; { Lib l; n=many[many_n/2].size(); } if(n!=many_model->size()) fail("value","copy %zu of a shared array has size %zu instead of %zu",many_n/2,n,many_model->size());
            if(n && (*many_model)[n-1]!=INT32_MIN) { int v; { Lib l; v=V<T>::get(many[many_n-1][n-1]); } if(v!=(*many_model)[n-1]) fail("value","the last element of copy %zu is %d instead of %d",many_n-1,v,(*many_model)[n-1]); } }
        if(ELEM && elem_live()!=expect) fail(elem_live()>expect? "leak":"element-lifetime","%llu elements are alive, the shared arrays hold %llu",(unsigned long long)elem_live(),(unsigned long long)expect);
    }
    template<class F> void construct(int s, std::shared_ptr<M> m, F f) { drop(s); Result r=attempt(f); if(r.ok()) { present[s]=true; model[s]=m; } else if(r.faulted()) probe("construct_failed"); else fail("unexpected-exception","constructor threw %s",r.what.c_str()); }
    void exec(Op const& o) override {
        int s=int(u64(o.a[0])%NS), q=int(u64(o.a[1])%NS); size_t n=size_t(u64(o.a[2])%80000); int x=int(o.a[3]); void* at=mem[s];
        switch(o.code) {
        case NEW_N: { auto m=std::make_shared<M>(n,unspecified()? INT32_MIN : 0); construct(s,m,[&]{ new(at) A(n); }); break; }
        case NEW_NX: { auto m=std::make_shared<M>(n,vv(x)); T t=V<T>::make(x); construct(s,m,[&]{ new(at) A(n,t); }); break; }
        case NEW_LIST: { size_t k=n%4; auto m=std::make_shared<M>(); for(size_t i=0;i<k;++i) m->push_back(vv(x+int(i))); auto v=[&](int i) { Harn h; return V<T>::make(x+i); };
            switch(k) { case 0: construct(s,m,[&]{ std::initializer_list<T> l{}; new(at) A(l); }); break; case 1: construct(s,m,[&]{ std::initializer_list<T> l{v(0)}; new(at) A(l); }); break; case 2: construct(s,m,[&]{ std::initializer_list<T> l{v(0),v(1)}; new(at) A(l); }); break; default: construct(s,m,[&]{ std::initializer_list<T> l{v(0),v(1),v(2)}; new(at) A(l); }); } break; }
        case COPY: if(present[q] && q!=s) { construct(s,model[q],[&]{ new(at) A(carr(q)); }); } break;
        case ASSIGN: if(present[s] && present[q]) { Result r=attempt([&]{ arr(s)=carr(q); }); if(r.ok()) { if(model[s]!=model[q] && model[s].use_count()==1) probe("last_copy_reassigned"); if(s==q) probe("self_assign"); model[s]=model[q]; } else if(!r.faulted()) fail("unexpected-exception","assignment threw"); } break;
        case WRITE: if(present[s] && model[s]->size()) { size_t i=n%model[s]->size(); T t=V<T>::make(x); Result r=attempt([&]{ if(x%2) assign_to(arr(s)[i],t); else *(arr(s).begin()+i)=t; }); if(r.ok()) { (*model[s])[i]=vv(x); if(model[s].use_count()>1) probe("write_seen_by_copies"); } else if(!r.faulted()) fail("unexpected-exception","write threw"); } break;
        case READ: break;
        case DESTROY: drop(s); break;
        case MANY: if(present[q] && !many_n) { size_t k=size_t(u64(o.a[2])); many=static_cast<A*>(std::malloc(k*sizeof(A))); many_model=model[q]; size_t i=0; Result r=attempt([&]{ for(;i<k;++i) new(&many[i]) A(carr(q)); }); many_n=i; if(!r.ok() && !r.faulted()) fail("unexpected-exception","copy threw %s",r.what.c_str()); if(k>65536) probe("over_65536_copies"); else if(k>256) probe("over_256_copies"); if(!many_n) drop_many(0); } break;
        case MANY_DROP: drop_many(size_t(u64(o.a[2]))); break;
        case NEST: nest(n%4+1,size_t(u64(x)%4),x%5,u64(o.a[1])); break;
        case HUGE_: { drop(s); size_t h= x%2? size_t(-1)/sizeof(T)+1+n : size_t(1)<<60; Result r=attempt([&]{ new(at) A(h); }); if(r.ok()) fail("huge-size-accepted","a shared array of %zu elements was constructed",h); break; }
        }
        verify();
    }
    //! Assigns an array one of its own elements' arrays, which may die with the old store.
    void nest(size_t n, size_t m, int how, u64 k) {
        u64 before=elem_live(); size_t i=size_t(k)%n;
        { SharedArray<Node>* a=nullptr; SharedArray<Node>* b=nullptr;
          Result r=attempt([&]{ a=new SharedArray<Node>(n); for(size_t j=0;j<n;++j) { (*a)[j].e.set(int(j)); (*a)[j].kids=SharedArray<Node>(m+j); for(size_t q=0;q<m+j;++q) (*a)[j].kids[q].e.set(int(100*j+q)); } if(how==3) b=new SharedArray<Node>(*a); if(how==4) b=new SharedArray<Node>((*a)[i].kids); });
          if(r.ok()) { r=attempt([&]{ switch(how) { case 0: case 3: case 4: *a=(*a)[i].kids; break; case 1: { SharedArray<Node> const& c=*a; *a=(c.begin()+i)->kids; } break; default: { *a=(*a)[i].kids; *a=*a; } } });
            if(!r.ok() && !r.faulted()) fail("unexpected-exception","assignment threw");
            if(r.ok()) { probe("assigned_own_element"); size_t got; { Lib l; got=a->size(); } if(got!=m+i) fail("value","after assigning an element's array the size is %zu instead of %zu",got,m+i);
                for(size_t q=0;q<got;++q) { int v; { Lib l; v=(*a)[q].e.get(); } if(v!=int(100*i+q)) fail("value","after assigning an element's array element %zu is %d",q,v); }
                if(how==3) { for(size_t j=0;j<n;++j) { int v; size_t z; { Lib l; v=(*b)[j].e.get(); z=(*b)[j].kids.size(); } if(v!=int(j) || z!=m+j) fail("value","a copy changed when another was reassigned"); } } } }
          else if(!r.faulted()) fail("unexpected-exception","constructor threw");
          Lib l; Quiet q; delete a; delete b; }
        if(elem_live()!=before) fail("leak","%lld element(s) more are alive after nested shared arrays were destroyed",(long long)(elem_live()-before)); }
    void finish() override { for(int s=0;s<NS;++s) { drop(s); verify(); } drop_many(many_n/2); verify(); drop_many(0); verify(); }
};
struct H3 : Harness {
    World* w=nullptr;
    const char* property() const override { return CHECK_ID; }
    std::vector<std::string> op_names() const override { return {"new_n","new_n_x","new_list","copy","assign","write","read","destroy","huge","many","many_drop","nest"}; }
    void plan(Rng& r, Plan& p) override {
        p.cfg["type"]=r.pick({0,0,1,2,3,4}); int nops=int(r.pick({4,8,15,30,60})); i64 maxn=r.pick({2,5,20}); if(r.chance(0.02)) maxn=1000; if(r.chance(0.002)) { maxn=9000; nops=int(r.range(4,12)); } if(r.chance(0.002)) { maxn=70000; nops=int(r.range(4,12)); p.cfg["type"]=3; } int slots=int(r.range(2,6));
        double pd=r.pick({5,15,35})/100.0;
        bool crowd=r.chance(0.06); i64 k= r.chance(0.15)? r.range(65530,65800) : r.range(120,600);
        for(int i=0;i<nops;++i) { u32 c; if(crowd && i==nops/2) { int at=int(r.range(0,slots-1)); p.add(0,NEW_NX,at,0,r.range(0,5),r.range(1,99)); p.add(0,MANY,0,at,k); } if(i<2) c=u32(r.pick({NEW_N,NEW_NX,NEW_LIST})); else if(r.chance(pd)) c=DESTROY; else c=u32(r.pick({NEW_N,NEW_NX,NEW_LIST,COPY,COPY,COPY,ASSIGN,ASSIGN,ASSIGN,WRITE,WRITE,READ,r.chance(0.1)? HUGE_:r.chance(0.3)? NEST:COPY}));
            p.add(0,c,r.range(0,slots-1),r.range(0,slots-1),r.range(0,maxn),r.range(1,100)); }
        if(crowd) p.add(0,MANY_DROP,0,0,r.range(0,3));
        plan_faults(r,p,FaultMix{{{K_ALLOC,0.2,4,0.2},{K_CTOR,0.25,16,0},{K_ASSIGN,0.25,16,0}}});
    }
    void setup(Plan const& p) override { switch(p.get("type")) { case 0: w=new SharedWorld<Elem>(); break; case 1: w=new SharedWorld<ElemC>(); break; case 2: w=new SharedWorld<ElemL>(); break; case 3: w=new SharedWorld<int>(); break; default: w=new SharedWorld<std::string>(); } }
    void exec(Op const& o) override { w->exec(o); }
    void finish() override { w->finish(); delete w; }
};
}
sim::Harness* sim::make_harness() { return new H3(); }
