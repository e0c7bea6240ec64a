// C08: threads with separate objects, with copies sharing an object, or reading common constants.
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <memory>
#include <chrono>
#include "string.hpp"
#include "container.hpp"
#include "tuple.hpp"
#include "range.hpp"
#include "lru_cache.hpp"
#include "lazy.hpp"
#include "handle.hpp"
#include "binary_word.hpp"
#include "stopwatch.hpp"
#include "variant.hpp"
#include "variant.inl.hpp"
#include "iterator.hpp"
#include "writable.hpp"
#include "elem.hpp"
#include "streams.hpp"
using namespace sim;
using namespace Helper;
namespace {
struct Base { virtual ~Base() = default; virtual Base* clone() const = 0; virtual int get() const = 0; virtual void set(int) = 0; virtual Base* _copy() const { return this->clone(); } virtual Base* _move() = 0; };
struct Other { virtual ~Other() = default; virtual int other() const = 0; };
struct Impl : Base, Other { int other() const override { return e.get()+1; } ElemC e; explicit Impl(int v) : e(v) { } Impl(Impl const&) = default; Impl* clone() const override { callback_point(); return new Impl(*this); } Base* _move() override { return new Impl(*this); }
    int get() const override { return e.get(); } void set(int v) override { elem_use(&e,"write of"); e.v=v; e.w=~v; } };
struct BaseHandle : Handle<Base> { using Handle<Base>::Handle; };
struct ConstHandle : Handle<const Base> { using Handle<const Base>::Handle; ConstHandle(Handle<const Base> h) : Handle<const Base>(h) { } };
struct OtherHandle : Handle<const Other> { using Handle<const Other>::Handle; OtherHandle(Handle<const Other> h) : Handle<const Other>(h) { } };
struct Nothing { virtual ~Nothing() = default; }; struct NothingHandle : Handle<const Nothing> { using Handle<const Nothing>::Handle; NothingHandle(Handle<const Nothing> h) : Handle<const Nothing>(h) { } };
//! What a handle shows through its casts and extracts; everything taken out is used after the next one is made.
static void look_through(BaseHandle const& h, struct Obs& b, int j);
struct W : WritableInterface { int a; explicit W(int x) : a(x) { } std::ostream& _write(std::ostream& os) const override { return os << "W(" << a << ")"; } };
template<int N> struct Alt { static constexpr int code() { return N*3+1; } };
using Var2=CodedVariant<int,Alt<0>,Alt<1>>; using Var5=CodedVariant<int,Alt<0>,Alt<1>,Alt<2>,Alt<3>,Alt<4>>; using Var16=CodedVariant<int,Alt<0>,Alt<1>,Alt<2>,Alt<3>,Alt<4>,Alt<5>,Alt<6>,Alt<7>,Alt<8>,Alt<9>,Alt<10>,Alt<11>,Alt<12>,Alt<13>,Alt<14>,Alt<15>>;
struct Visit { int n; template<int N> int operator()(Alt<N> const&) const { return N*1000+n; } };
struct It : IteratorFacade<It,int const,RandomAccessTraversalTag> { int const* p; explicit It(int const* q) : p(q) { } bool equal(It const& o) const { return p==o.p; } std::ptrdiff_t distance_to(It const& o) const { return o.p-p; } void advance(std::ptrdiff_t n) { p+=n; } int const& dereference() const { return *p; } };
struct Fwd : IteratorFacade<Fwd,int const,ForwardTraversalTag> { int const* p; explicit Fwd(int const* q) : p(q) { } bool equal(Fwd const& o) const { return p==o.p; } void increment() { ++p; } int const& dereference() const { return *p; } };
struct Plain { int v; };
struct PlainWriter : WriterInterface<Plain> { int k; explicit PlainWriter(int x) : k(x) { } std::ostream& _write(std::ostream& os, Plain const& t) const override { return os << k << ':' << t.v; } };
struct Obs { u64 h=1469598103934665603ull; SIM_NOINSTR void put(u64 v) { Harn g; h^=v; h*=1099511628211ull; h^=h>>29; } SIM_NOINSTR void put(std::string const& s) { Harn g; for(char c : s) put(u64((unsigned char)c)); put(s.size()); } };
static const int NT=4;
static volatile int fence_dummy;
//! Everything one thread owns.
struct World {
    Array<Elem> ar{Elem(1),Elem(2)}; List<Elem> li; LinkedList<int> ll; Set<int> se; Map<int,std::string> ma; LRUCache<int,Elem> lru{3}; Lazy<ElemC> lz; BaseHandle h1, h2; BinaryWord w; Stopwatch<Microseconds> sw;
    World() : lz([]{ return new ElemC(5); }), h1(new Impl(3)), h2(h1), w("0110") { }
};
enum Code { ARRAY, LIST, LINKED, SET, MAP, LRU, LAZY, HANDLE, WORD, STOPWATCH, TEXT, READ, TUPLE, SHARED, MAKE, FUN, REFUSE, RANGE, VARIANT, LARGE, RESET, S_HANDLE, S_LAZY, S_CONST, NCODES };
template<class T> static void obs(Obs& o, Array<T> const& a) { o.put(a.size()); for(size_t i=0;i<a.size();++i) o.put(u64(a[i].get())); }
static void obs(Obs& o, List<Elem> const& a) { o.put(a.size()); for(auto const& e : a) o.put(u64(e.get())); }
template<class C> static void obsi(Obs& o, C const& c) { o.put(c.size()); for(auto const& x : c) o.put(u64(x)); }
static void obs(Obs& o, Map<int,std::string> const& m) { o.put(m.size()); for(auto const& kv : m) { o.put(u64(kv.first)); o.put(kv.second); } }
static void outcome(Obs& b, Result const& r) { b.put(u64(r.o)); b.put(r.what); }
static void look_through(BaseHandle const& h, Obs& b, int j) {
    OtherHandle o=dynamic_handle_cast<OtherHandle>(h); ConstHandle c=dynamic_handle_cast<ConstHandle>(o); b.put(u64(o.const_reference().other())); b.put(u64(c.const_reference().get()));
    std::shared_ptr<const Base> p=h.managed_pointer(); std::shared_ptr<const Impl> q=dynamic_pointer_extract<Impl>(p); b.put(u64(q? q->get() : -1));
    if(j%4==2) { try { NothingHandle n=dynamic_handle_cast<NothingHandle>(h); b.put(1); } catch(std::bad_cast const&) { b.put(2); } } if(j%4==3) { OtherHandle o2=dynamic_handle_cast<OtherHandle>(c); b.put(u64(o2.const_reference().other())); }
}
//! Performs one operation on the thread's own objects; what it shows depends on nothing else.
static u64 act(World& x, Op const& o) {
    Obs b; int k=int(u64(o.a[0])%16), v=int(o.a[1]%50), u=int(o.a[2]%50); Result r;
    switch(o.code) {
    case ARRAY: r=attempt([&]{ switch(k) { case 0: x.ar.resize(size_t(v%7)); break; case 1: { Array<Elem> t(size_t(v%5),Elem(u)); x.ar=t; } break; case 2: { Array<Elem> t(x.ar); t.resize(t.size()+1); x.ar=std::move(t); } break; case 3: x.ar.fill(Elem(u)); break; case 4: x.ar=Array<Elem>{Elem(v),Elem(u)}; break; case 5: b.put(u64(x.ar.at(size_t(v)).get())); break; case 6: { Array<Elem> t(x.ar); b.put(t==x.ar); } break; case 7: { Array<int> t{v,u,v}; b.put(to_string(t)); } break; case 8: x.ar.assign(x.li.begin(),x.li.end()); break; case 9: { Array<Elem> t(size_t(v%5),[u](size_t i){ return Elem(int(i)+u); }); x.ar.swap(t); } break; case 10: x.ar.reallocate(size_t(u%6)); break; case 11: { Array<int> t(x.se.begin(),x.se.end()); Array<double> d(t); b.put(to_string(d)); } break; case 12: { List<Elem> f(x.ar.size(),Elem(u)); x.ar.fill(f.begin()); } break; case 13: { Array<Elem> t(std::move(x.ar)); x.ar=t; } break; case 14: { Array<size_t> t{size_t(v%3),size_t(3+u%3)}; obsi(b,complement(8,t)); } break; default: x.ar.resize(size_t(u%7),Elem(v)); } }); outcome(b,r); { Lib l; Quiet q; obs(b,x.ar); } break;
    case LIST: r=attempt([&]{ switch(k) { case 0: case 1: x.li.append(Elem(v)); break; case 2: { List<Elem> t(size_t(u%4),Elem(v)); x.li.concatenate(t); } break; case 3: x.li=catenate(x.li,Elem(u)); break; case 4: if(x.li.size()>6) x.li.clear(); else x.li.append(x.li); break; case 5: { Array<Elem> t=make_array(static_cast<std::vector<Elem> const&>(x.li)); b.put(t.size()); } break; case 6: b.put(to_string(x.li)); break; case 7: b.put(unique_elements(x.li)); break; case 8: { Set<Elem> d=duplicate_elements(x.li); b.put(d.size()); for(auto const& e : d) b.put(u64(e.get())); } break; case 9: { List<Elem> c=catenate(x.li,x.li); b.put(c.size()); } break; case 10: { List<int> g=elementwise([](Elem const& e){ return e.get()*3; },x.li); obsi(b,g); } break; case 11: { List<int> g=elementwise([](Elem const& e, Elem const& f){ return e.get()+f.get(); },x.li,x.li); obsi(b,g); } break; case 12: { List<int> g=Helper::apply([](Elem e){ return e.get()+1; },x.li); obsi(b,g); } break; case 13: { std::vector<Elem> t(2,Elem(v)); List<Elem> c(t); b.put(c.size()); } break; case 14: if(!x.li.empty()) x.li.append(x.li[0]); break; default: { Array<Elem> a=make_array(static_cast<std::vector<Elem> const&>(x.li)); List<Elem> c=make_list(a); b.put(c==x.li); } } }); outcome(b,r); { Lib l; Quiet q; obs(b,x.li); } break;
    case LINKED: r=attempt([&]{ switch(k%7) { case 4: x.ll.append(x.ll.size()>20? LinkedList<int>() : x.ll); break; case 5: { LinkedList<int> t(3u,v); b.put(t==x.ll); obsi(b,t); } break; case 6: { List<int> t{v,u}; LinkedList<int> s(t); x.ll.append(s); } break; case 0: x.ll.append(v); break; case 1: { LinkedList<int> t; t.append(u); t.append(v); x.ll.concatenate(t); } break; case 2: if(!x.ll.empty()) x.ll.pop_front(); break; default: b.put(to_string(x.ll)); } }); outcome(b,r); { Lib l; Quiet q; obsi(b,x.ll); } break;
    case SET: r=attempt([&]{ Set<int> t{v,u,v+u}; switch(k) { case 0: x.se.insert(v); break; case 1: x.se.adjoin(t); break; case 2: x.se.remove(v); break; case 3: x.se.remove(t); break; case 4: { Set<int> j=join(x.se,t); b.put(j.size()); } break; case 5: { Set<int> j=difference(x.se,t); obsi(b,j); } break; case 6: b.put(disjoint(x.se,t)); b.put(subset(t,x.se)); break; case 7: b.put(to_string(x.se)); break; case 8: obsi(b,intersection(x.se,t)); break; case 9: { std::vector<int> l{v,u}; obsi(b,intersection(x.se,l)); b.put(disjoint(x.se,l)); b.put(x.se.disjoint(l)); } break; case 10: x.se.restrict(t); break; case 11: { std::vector<int> l{v,u}; x.se.remove(l); } break; case 12: obsi(b,Helper::apply([v](int i){ return i/2+v; },x.se)); break; case 13: { Set<int> c(t); remove(static_cast<std::set<int>&>(c),x.se); restrict(static_cast<std::set<int>&>(t),c); obsi(b,c); obsi(b,t); } break; case 14: b.put(x.se.subset(t)); b.put(x.se.disjoint(t)); b.put(contains(x.se,v)); b.put(x.se.contains(u)); break; default: { List<int> l(x.se); obsi(b,l); obsi(b,make_list(x.se)); obsi(b,make_set(static_cast<std::vector<int> const&>(l))); } } }); outcome(b,r); { Lib l; Quiet q; obsi(b,x.se); } break;
    case MAP: r=attempt([&]{ switch(k) { case 0: x.ma.insert(v,std::string(size_t(u),'x')); break; case 1: x.ma[v]=std::to_string(u); break; case 2: b.put(x.ma.get(v)); break; case 3: { Map<int,std::string> t; t.insert(v,"one"); t.insert(u,"a value long enough to be allocated"); x.ma.adjoin(t); } break; case 4: { Set<int> t{v,u}; x.ma.remove_keys(t); } break; case 5: obsi(b,x.ma.keys()); break; case 6: { List<std::string> l=x.ma.values(); for(auto const& s : l) b.put(s); } break; case 7: b.put(to_string(x.ma)); break; case 8: { Set<int> t{v,u,1}; Map<int,std::string> m=restrict_keys(x.ma,t); obs(b,m); } break; case 9: { Map<int,std::string> t; t.insert(u,"u"); obs(b,join(x.ma,t)); } break; case 10: b.put(insert(x.ma,v,std::string("given"))); break; case 11: { Map<int,std::string> const& c=x.ma; b.put(c[v]); } break; case 12: b.put(x.ma.value(v)); break; case 13: b.put(x.ma.has_key(v)); { Map<int,double> t; assign_to(t[v],u/2.0); Map<int,double> s(t); b.put(to_string(s)); } break; case 14: x.ma.insert(std::make_pair(v,std::string("pair"))); break; default: { std::ostringstream ss; write_map_sequence(ss,x.ma.begin(),x.ma.end(),'<','>',';','='); b.put(ss.str()); } } }); outcome(b,r); { Lib l; Quiet q; obs(b,x.ma); } break;
    case LRU: r=attempt([&]{ switch(k%4) { case 0: case 1: if(!x.lru.has_label(v%6)) x.lru.put(v%6,Elem(u)); break; case 2: b.put(u64(x.lru.get(v%6).get())); break; default: if(k<8) b.put(x.lru.age(v%6)); else if(k<12) { x.lru.put(v%6,Elem(u)); } else { LRUCache<int,Elem> c(size_t(u%3)); c.put(1,Elem(v)); c.put(2,Elem(u)); b.put(c.current_size()); b.put(c.maximum_size()); b.put(c.has_label(1)); } } }); outcome(b,r); { Lib l; Quiet q; b.put(x.lru.current_size()); for(int i=0;i<6;++i) if(x.lru.has_label(i)) { b.put(u64(i)); b.put(x.lru.age(i)); } } break;
    case LAZY: r=attempt([&]{ switch(k%4) { case 0: x.lz=Lazy<ElemC>([v]{ callback_point(); return new ElemC(v); }); break; case 1: { Lazy<ElemC> t(x.lz); b.put(u64(t().get())); } break; default: b.put(u64(x.lz().get())); } }); outcome(b,r); break;
    case HANDLE: r=attempt([&]{ switch(u64(o.a[0])%16) { case 12: look_through(x.h1,b,0); break; case 13: look_through(x.h2,b,1); break; case 14: { BaseHandle t(new Impl(v)); look_through(t,b,u); } break; case 15: { Handle<Base> t(make_handle<Impl>(v)); BaseHandle q(t.managed_pointer()); Handle<const Base> c(q); t.ref().set(u); b.put(u64(c.const_reference().get())); look_through(q,b,2); } break; case 6: { Handle<Base> t(static_cast<Base const&>(x.h1.const_reference())); t.reference().set(v); b.put(u64(t.const_reference().get())); } break; case 7: { std::shared_ptr<Base> p=x.h1.managed_pointer(); b.put(u64(p->get())); } break; case 8: dynamic_handle_extract<Impl>(static_cast<Handle<Base>&>(x.h2)).set(v); break; case 9: { Impl i(v); Handle<Base> t(std::move(i)); b.put(u64(t.ptr()->get())); } break; case 10: x.h1.pointer()->set(u); b.put(u64(x.h1.raw_pointer()->get())); break; case 11: { BaseHandle t(std::move(x.h1)); x.h1=t; b.put(u64(t.const_pointer()->get())); } break; case 0: x.h1.ref().set(v); break; case 1: x.h2=x.h1; break; case 2: x.h1=BaseHandle(new Impl(v)); break; case 3: x.h2.ptr()->set(u); break; case 4: { BaseHandle t(x.h1); t.ref().set(v); b.put(u64(t.const_reference().get())); } break; default: b.put(u64(dynamic_handle_extract<Impl>(static_cast<Handle<Base> const&>(x.h1)).get())); } }); outcome(b,r); { Lib l; Quiet q; b.put(u64(x.h1.const_reference().get())); b.put(u64(x.h2.const_reference().get())); } break;
    case WORD: r=attempt([&]{ switch(k) { case 0: x.w.append(bool(v&1)); break; case 1: { BinaryWord t(std::string(size_t(u%9),v&1?'1':'0')); x.w.append(t); } break; case 2: if(x.w.size()) x.w.erase_prefix(1+v%4); break; case 3: { BinaryWord t("101"); b.put(t.is_subword(x.w)); b.put(t.is_prefix(x.w)); b.put(t<x.w); } break; case 4: if(x.w.size()>40) x.w.clear(); break; case 5: { std::stringstream ss; ss << x.w; BinaryWord t; ss >> t; b.put(t==x.w); } break; case 6: if(x.w.size()) x.w.set_back(v&1); break; case 7: { std::ostringstream ss; ss << x.w; b.put(ss.str()); } break; case 8: if(x.w.size()<60) x.w.append(x.w); break; case 9: { BinaryWord t=make_binary_word(v&1? "[0,1,1]":"[0,1"); b.put(t.size()); } break; case 10: b.put(x.w.bytes()); break; case 11: { BinaryWord t("e"); std::istringstream is("0110 1"); is >> t; b.put(t.size()); is >> t; b.put(t.size()); } break; case 12: { BinaryWord t(x.w); t.erase_prefix(v%5); b.put(t.is_subword(x.w)); b.put(x.w.is_prefix(t)); } break; default: { std::istringstream is(v&1? "[1,0,0]":" "); BinaryWord t; is >> t; b.put(to_string(t)); b.put(is.fail()); } } }); outcome(b,r); { Lib l; Quiet q; b.put(x.w.size()); for(bool y : x.w) b.put(y); } break;
    case STOPWATCH: { bool bad=false; i64 lo=steady_ns(); r=attempt([&]{ Stopwatch<Microseconds> t; bad=t.duration().count()!=0; if(k&1) x.sw.restart(); x.sw.click(); t.click(); i64 d=t.duration().count(); Harn h; if(d<0 || d>(steady_ns()-lo)/1000) bad=true; }); if(bad) fail("interference","a stopwatch measured more time than passed"); outcome(b,r); break; }
    case TEXT: r=attempt([&]{ switch(k) { case 0: b.put(to_string(v*1000+u)); break; case 1: b.put(to_string(double(v)/8)); break; case 2: { List<int> t(size_t(u%6),v); b.put(to_string(t)); } break; case 3: { Set<std::string> t{"a","b"}; b.put(to_string(t)); } break; case 4: { W t(v); std::ostringstream ss; ss << t; b.put(ss.str()); } break; case 5: b.put(to_str(String("text"))); break; case 6: { Map<int,int> t; t[v]=u; b.put(to_string(t)); } break; case 7: { std::vector<std::pair<int,int>> t{{v,u}}; b.put(to_string(v)+to_string(u)); } break; case 8: { std::vector<int> t(size_t(u%5),v); std::ostringstream ss; write_sequence(ss,t.begin(),t.end(),'(',')',';'); b.put(ss.str()); } break; case 9: { int i=v; std::vector<int*> t(size_t(u%4),&i); std::ostringstream ss; write_pointer_sequence(ss,t.begin(),t.end()); b.put(ss.str()); } break; case 10: { SharedArray<int> t(size_t(u%5),v); b.put(to_string(t)); } break; case 11: b.put(std::string(c_str(String("c string")))); break; case 12: { LinkedList<int> t(unsigned(u%4),v); b.put(to_string(t)); } break; case 13: { Array<double> t(size_t(u%4),v/4.0); b.put(to_string(t)); } break; case 14: b.put(class_name<String>()); break; default: { std::tuple<int,int> t(v,u); b.put(to_string(t)); std::tuple<> e; b.put(to_string(e)); std::pair<int,std::string> p(v,"second"); b.put(to_string(p)); } } }); outcome(b,r); break;
    case READ: r=attempt([&]{ std::ostringstream t; t << "[" << v << "," << u << (k&1?"]":""); std::istringstream is(t.str()); std::vector<int> z; try { is >> z; } catch(std::ios_base::failure&) { } b.put(z.size()); for(int i : z) b.put(u64(i)); b.put(is.good()||is.eof()); }); outcome(b,r); break;
    case SHARED: r=attempt([&]{ SharedArray<Elem> s(size_t(1+v%5),Elem(u)); SharedArray<Elem> c(s); switch(k%4) { case 0: c[0]=Elem(v); break; case 1: { SharedArray<Elem> d(2u); d=s; s=c; d[0]=Elem(7); } break; case 2: { SharedArray<Elem> d{Elem(1),Elem(2),Elem(3)}; c=d; } break; default: s=s; } b.put(s.size()); b.put(c.size()); for(auto const& e : s) b.put(u64(e.get())); for(auto const& e : c) b.put(u64(e.get())); }); outcome(b,r); break;
    case MAKE: r=attempt([&]{ switch(k%6) { case 0: { Array<Elem> t=make_array(Elem(v)); b.put(t.size()); } break; case 1: obsi(b,make_list(v)); break; case 2: { List<Elem> l=make_list(x.ar); b.put(l.size()); } break; case 3: { Array<Elem> t=make_array(x.ar); b.put(t==x.ar); } break; case 4: { List<int> l(v); l.append(u); List<double> d(l); obsi(b,d); } break; default: { std::vector<int> l{v,u,v}; Set<int> s(l); Set<double> d(s); b.put(d.size()); obsi(b,s); } } }); outcome(b,r); break;
    case FUN: r=attempt([&]{ auto f=[&](int i){ callback_point(); return std::string(size_t(i%40),'f'); }; switch(k%4) { case 0: { List<int> l{v,u,1}; List<std::string> s=Helper::apply(f,l); for(auto const& y : s) b.put(y); } break; case 1: { Set<int> l{v,u,1}; Set<std::string> s=Helper::apply(f,l); for(auto const& y : s) b.put(y); } break; case 2: { List<int> l{v,u,1}; List<std::string> s=elementwise(f,l); for(auto const& y : s) b.put(y); } break; default: { List<int> l{v,u,1}; List<std::string> s=elementwise([&](int i, int j){ callback_point(); return std::string(size_t((i+j)%40),'g'); },l,l); for(auto const& y : s) b.put(y); } } }); outcome(b,r); break;
    case REFUSE: r=attempt([&]{ switch(k%9) { case 0: { Map<int,std::string> const m; m.get(v); } break; case 1: { LRUCache<int,int> c(2); c.get(v); } break; case 2: { LRUCache<int,int> c(2); c.age(v); } break; case 3: { LRUCache<int,int> c(1); c.put(v,u); c.put(v,u); } break; case 4: { LRUCache<int,int> c(0); } break; case 5: { Array<int> t{v}; t.at(size_t(1+u)); } break; case 6: HELPER_FAIL_MSG("failed with " << v << " and " << u) break; case 7: HELPER_ASSERT_EQUAL(v,u+100) break; default: HELPER_PRECONDITION_MSG(v<0,"v is " << v) } }); outcome(b,r); break;
    case RANGE: r=attempt([&]{ std::ostringstream ss; switch(k%4) { case 0: for(auto i : range(size_t(v%9))) ss << i << ' '; break; case 1: for(auto i : range(size_t(v%9),size_t(v%9+u%9))) ss << i << ' '; break; case 2: { auto t=make_ltuple(v,u,k); ss << get_first(t) << get_second(t) << get_third(t); } break; default: { auto t=make_lpair(v,u); ss << get_first(t) << get_second(t); } } b.put(ss.str()); }); outcome(b,r); break;
    case VARIANT: r=attempt([&]{ switch(k%6) { case 0: { Var2 c(v&1? 4 : 1); b.put(u64(c.accept(Visit{u}))); b.put(c.code()); b.put(holds_alternative<Alt<1>>(c)); } break; case 1: { Var5 c(3*(v%5)+1); b.put(u64(c.accept(Visit{u}))); Var5 d(Alt<2>{}); b.put(u64(d.accept(Visit{v}))); } break; case 2: { Var16 c(3*(v%16)+1); b.put(u64(c.accept(Visit{u}))); b.put(holds_alternative<Alt<7>>(c)); } break;
        case 3: { int t[9]; for(int i=0;i<9;++i) t[i]=v+i*u; It i(t), e(t+9); b.put(u64(e-i)); b.put(i<e); for(;i!=e;++i) b.put(u64(*i)); i-=1+v%8; b.put(u64(*i)); b.put(u64(*(i-1-(v%2? 0:-1)+0))); } break; case 4: { int t[6]; for(int i=0;i<6;++i) t[i]=u+i*v; for(Fwd i(t); i!=Fwd(t+6); i++) b.put(u64(*i)); } break;
        default: { PlainWriter w(v); std::ostringstream ss; Plain q{u}; ss << w(q); b.put(ss.str()); } } }); outcome(b,r); break;
    case LARGE: { int n=10+v*(u%8==0? 40:5); r=attempt([&]{ switch(k%10) { case 0: { Array<int> t(static_cast<size_t>(n)); for(int i=0;i<n;++i) t[size_t(i)]=i*u; Array<int> c(t); c.resize(c.size()+1); b.put(to_string(c)); } break; case 1: { List<int> t; for(int i=0;i<n;++i) t.append(i*u); t.append(t); obsi(b,elementwise([](int i){ return i+1; },t)); b.put(unique_elements(t)); b.put(to_string(t)); } break;
        case 2: { Set<int> t; for(int i=0;i<n;++i) t.insert((i*u)%97); Set<int> q; for(int i=0;i<n;i+=2) q.insert((i*v)%97); obsi(b,difference(t,q)); obsi(b,intersection(t,q)); t.adjoin(q); b.put(to_string(t)); } break; case 3: { Map<int,std::string> t; for(int i=0;i<n;++i) t.insert(i,std::to_string(i*u)); b.put(to_string(t)); obsi(b,t.keys()); b.put(t.get(n/2)); } break;
        case 4: { BinaryWord t; for(int i=0;i<n;++i) t.append(bool((i*u+v)&4)); BinaryWord q(t); q.erase_prefix(3); b.put(q.is_subword(t)); std::stringstream ss; ss << t; BinaryWord x2; ss >> x2; b.put(x2==t); b.put(t.bytes()); b.put(q<t); } break; case 5: { LRUCache<int,int> c(size_t(1+n/3)); for(int i=0;i<n;++i) { int l=(i*(u+1))%(n/2+1); if(c.has_label(l)) b.put(u64(c.get(l))); else c.put(l,i); } b.put(c.current_size()); } break;
        case 6: { std::ostringstream ss; ss << "["; for(int i=0;i<n;++i) ss << (i? ",":"") << i*u; ss << "]"; std::istringstream is(ss.str()); std::vector<int> z; is >> z; obsi(b,z); } break; case 7: { std::string s(static_cast<size_t>(n),char('a'+u%26)); b.put(to_string(s)); b.put(to_str(String(s))); HELPER_ASSERT_MSG(v<0,s) } break; case 8: { SharedArray<int> t(size_t(n),u); SharedArray<int> c(t); assign_to(c[size_t(n/2)],v); b.put(to_string(t)); } break;
        default: { LinkedList<int> t(unsigned(n),u); t.append(t); b.put(t.size()); b.put(to_string(t)); } } }); outcome(b,r); } break;
    case TUPLE: r=attempt([&]{ std::tuple<int,std::string,double> t(v,"mid",u/4.0); std::ostringstream ss; ss << t; b.put(ss.str()); }); outcome(b,r); break;
    }
    return b.h;
}
struct Common { Array<Elem> ar; List<Elem> li; Set<int> se; Map<int,std::string> ma; BinaryWord w; Lazy<ElemC> lz; BaseHandle h; SharedArray<Elem> sa;
    Common(int n, int v) : ar(size_t(n),Elem(v)), w("011010001"), lz([v]{ return new ElemC(v); }), h(new Impl(v)), sa(size_t(n),Elem(v)) { for(int i=0;i<n;++i) { li.append(Elem(v+i)); se.insert(v*i); ma.insert(i,std::string(size_t(i*3),'y')); } lz(); } };
//! Reads constant objects; j picks which item or key.
static void look(Common const& c, int k, int j, Obs& b) {
    int const n=int(c.ar.size()), i=j%n; size_t const z=size_t(i);
    switch(k%16) { case 0: obs(b,c.ar); b.put(to_string(c.ar[z].get())); b.put(u64((c.ar.begin()+i)->get())); break; case 1: obs(b,c.li); b.put(u64(c.li[z].get())); b.put(u64(c.li.at(z).get())); break; case 2: obsi(b,c.se); b.put(c.se.contains(j*4)); b.put(contains(c.se,j)); break; case 3: obs(b,c.ma); b.put(c.ma.has_key(j)); b.put(c.ma.get(i)); break;
        case 4: for(bool y : c.w) b.put(y); { BinaryWord t(j%2? "01":"110"); b.put(t.is_subword(c.w)); b.put(t.is_prefix(c.w)); b.put(c.w[size_t(j)]); b.put(c.w<t); } break; case 5: b.put(to_string(c.w)); b.put(to_string(c.se)); break; case 6: { Array<Elem> t(c.ar); b.put(t==c.ar); List<Elem> l(c.li); l.append(Elem(j)); b.put(l.size()); b.put(l==c.li); } break;
        case 7: b.put(u64(c.h.const_reference().get())); if(j%2) look_through(c.h,b,j/2); { BaseHandle t(c.h); b.put(u64(t.const_reference().get())); } break; case 8: b.put(u64(c.lz().get())); break; case 9: { Set<int> k2=c.ma.keys(); Map<int,std::string> r=restrict_keys(c.ma,k2); b.put(r.size()); b.put(to_string(c.ma)); } break;
        case 10: b.put(c.sa.size()); for(size_t q=0;q<c.sa.size();++q) b.put(u64(c.sa[q].get())); b.put(u64(c.sa[z].get())); break;
        case 11: { Set<int> t{j,j*4}; b.put(subset(t,c.se)); b.put(disjoint(t,c.se)); b.put(c.se.subset(t)); obsi(b,intersection(c.se,t)); obsi(b,difference(c.se,t)); obsi(b,join(c.se,t)); } break;
        case 12: { Map<int,std::string> m=join(Map<int,std::string>(c.ma),c.ma); b.put(m.size()); b.put(c.ma.get(i)); b.put(c.ma[i]); b.put(c.ma.value(n-1-i)); b.put(c.ma.get(n-1-i)); b.put(c.ma.values().size()); } break;
        case 13: { List<int> g=elementwise([](Elem const& e){ return e.get(); },c.li); obsi(b,g); b.put(unique_elements(c.li)); b.put(catenate(c.li,c.li).size()); b.put(to_string(c.li)); } break;
        case 14: { b.put(to_string(c.ar)); b.put(to_string(c.sa)); b.put(c.ar.at(z).get()); List<Elem> l=make_list(c.ar); b.put(l.size()); } break;
        default: { b.put(c.w.bytes()); BinaryWord t; t.append(c.w); b.put(t==c.w); b.put(c.w.is_prefix(t)); b.put(u64(dynamic_handle_extract<Impl>(static_cast<Handle<Base> const&>(c.h)).get())); Lazy<ElemC> z(c.lz); b.put(u64(z().get())); } break; }
}
static World** aloneworld=nullptr; static u64 nops=0;
struct H8 : Harness {
    World* world[NT]={0}; bool diverged[NT]={0}; std::vector<u64> ref; Common* common=nullptr; u64 want[16][8];
    // handles and lazy values of different threads that share one object
    alignas(BaseHandle) unsigned char hm[NT][2][sizeof(BaseHandle)]; bool hp[NT][2]={{0}}; int hv[NT][2]; using LZ=Lazy<ElemC>; alignas(LZ) unsigned char lm[NT][2][sizeof(LZ)]; bool lp[NT][2]={{0}}; int lv=0; int nt=1;
    BaseHandle& h(int t, int s) { return *reinterpret_cast<BaseHandle*>(hm[t][s]); } LZ& z(int t, int s) { return *reinterpret_cast<LZ*>(lm[t][s]); }
    const char* property() const override { return CHECK_ID; }
    std::vector<std::string> op_names() const override { return {"array","list","linked_list","set","map","cache","lazy","handle","word","stopwatch","text","read","tuple","shared_array","make","function","refused","range","variant_or_iterator","large","new_objects","shared_handle","shared_lazy","common_constant"}; }
    std::vector<std::string> ignored_classes() const override { return {"leak"}; }    // judged by the checks of the classes; the shared objects are counted here
    void plan(Rng& r, Plan& p) override {
        nt=int(r.range(2,NT)); p.cfg["threads"]=nt; p.cfg["first"]=r.range(0,nt-1); p.cfg["tick"]=r.pick({0,1000,70000}); p.cfg["n"]=r.range(1,5); p.cfg["v"]=r.range(1,40);
        int n=int(r.pick({4,8,12,20})); std::vector<u32> kinds; int style=int(r.below(4));
        if(style==0) for(u32 k=0;k<NCODES;++k) kinds.push_back(k); else if(style==1) { kinds={u32(r.below(RESET))}; if(r.chance(0.5)) kinds.push_back(u32(r.below(RESET))); } else if(style==2) kinds={S_HANDLE,S_HANDLE,S_LAZY}; else kinds={S_CONST,S_CONST,u32(r.below(NCODES))};
        i64 fix=r.range(0,47);
        for(int i=0;i<n*nt/2;++i) { u32 c=kinds[r.below(kinds.size())]; p.add(u32(r.below(u64(nt))),c,r.chance(0.4)? fix : r.range(0,47),r.range(0,49),r.range(0,49),0); }
        plan_schedule(r,p,nt,0.5,400);
        if(r.chance(0.4)) plan_faults(r,p,{{{K_ALLOC,0.15,4,0.3},{K_CTOR,0.12,5,0},{K_ASSIGN,0.08,3,0},{K_CMP,0.05,3,0},{K_CALL,0.1,2,0},{K_STALL,0.0,1,0}}},0);
    }
    static void exec_alone(Op const& o, u64* out) { int t=int(o.thr); if(o.code==RESET || !aloneworld[t]) { Lib l; Quiet q; delete aloneworld[t]; aloneworld[t]=nullptr; aloneworld[t]=new World(); } if(o.code<RESET) { out[2*o.id]=act(*aloneworld[t],o); out[2*o.id+1]=op_signature(); } }
    void setup(Plan const& p) override {
        nt=std::min(NT,std::max(1,int(p.get("threads",1)))); for(Op const& o : p.ops) nops=std::max<u64>(nops,o.id);
        aloneworld=new World*[NT](); ref.assign(2*nops+2,0); std::vector<u64> out(2*nops+2); std::vector<Op const*> mine;
        for(int t=0;t<nt;++t) for(Op const& o : p.ops) if(int(o.thr)%nt==t && o.code<=RESET) mine.push_back(&o);
        std::vector<Op> fixed; fixed.reserve(mine.size()); for(Op const* o : mine) { Op c=*o; c.thr=u32(int(c.thr)%nt); fixed.push_back(c); } std::vector<Op const*> ptr; for(Op const& o : fixed) ptr.push_back(&o);
        if(!run_alone(ptr,exec_alone,out.data(),out.size())) give_up("operations_fail_alone"); ref=out;
        Lib l; Quiet q; common=new Common(int(p.get("n",3)),int(p.get("v",7)));
        BaseHandle first(new Impl(100)); LZ lz([]{ return new ElemC(77); }); lv=lz().get();
        for(int t=0;t<nt;++t) { new(hm[t][0]) BaseHandle(first); hp[t][0]=true; hv[t][0]=100; new(lm[t][0]) LZ(lz); lp[t][0]=true; hp[t][1]=lp[t][1]=false; }
        Common* twin=new Common(int(p.get("n",3)),int(p.get("v",7)));      // the expectations come from an equal object, so that the shared one is first read by the threads
        for(Op const& o : p.ops) if(o.code==S_CONST) { int k=int(u64(o.a[0])%16), j=int(u64(o.a[1])%8); Obs b; look(*twin,k,j,b); Harn h; want[k][j]=b.h; }
        delete twin;
    }
    void exec(Op const& o) override {
        int t=self();
        if(o.code<=RESET) {
            if(o.code==RESET || !world[t]) { Lib l; Quiet q; delete world[t]; world[t]=nullptr; world[t]=new World(); }
            if(o.code==RESET) diverged[t]=false;
            if(o.code<RESET) { u64 got=act(*world[t],o), sig=op_signature(); log(got); if(sig!=ref[2*o.id+1] && (fired_in_op() || (ref[2*o.id+1]&1))) { diverged[t]=true; probe("fault_points_differ"); }   // the fault hit elsewhere: nothing to compare with until new objects are made
                if(diverged[t]) return; if(got!=ref[2*o.id]) fail("interference","an operation on objects of its own thread shows something else than when the thread runs alone"); probe("compared_with_alone"); if(fired_in_op()) probe("failure_compared_with_alone"); }
            return;
        }
        int k=int(u64(o.a[0])%48), v=int(o.a[1]), s=int(o.a[2]%2);
        if(o.code==S_CONST) { int j=int(u64(o.a[1])%8); Obs b; Result r=attempt([&]{ look(*common,k%16,j,b); }); if(r.o==OTHER_) fail("unexpected-exception","reading a constant threw %s",r.what.c_str()); if(r.ok() && !fired_in_op() && b.h!=want[k%16][j]) fail("interference","a constant container shows something else to one of several readers"); if(r.ok()) probe("constant_read"); return; }
        if(o.code==S_HANDLE) { int q=1-s;
            if(!hp[t][s]) { if(hp[t][q]) { Result r=attempt([&]{ new(hm[t][s]) BaseHandle(h(t,q)); }); if(r.ok()) { hp[t][s]=true; hv[t][s]=hv[t][q]; } } return; }
            Result r; switch(k%6) {
                case 0: case 1: r=attempt([&]{ h(t,s).ref().set(v); }); if(r.ok()) { hv[t][s]=v; probe("shared_handle_mutated"); } break;
                case 2: { int got=-1; r=attempt([&]{ BaseHandle const& c=h(t,s); got=c.ref().get(); }); if(!r.ok()) fail("unexpected-exception","reading a handle threw"); if(got!=hv[t][s]) fail("interference","a handle shows %d instead of %d",got,hv[t][s]); break; }
                case 3: if(hp[t][q]) { r=attempt([&]{ h(t,s)=h(t,q); }); if(r.ok()) hv[t][s]=hv[t][q]; } break;
                case 4: { Lib l; h(t,s).~BaseHandle(); hp[t][s]=false; } probe("shared_handle_destroyed"); break;
                default: r=attempt([&]{ h(t,s).ptr()->set(v); }); if(r.ok()) hv[t][s]=v; break; }
            if(hp[t][s]) { int got; { Lib l; Quiet qq; BaseHandle const& c=h(t,s); got=c.const_reference().get(); } if(got!=hv[t][s]) fail("interference","a handle shows %d instead of %d after an operation",got,hv[t][s]); log(u64(got)); }
            return; }
        if(o.code==S_LAZY) { int q=1-s; if(!lp[t][s]) { if(lp[t][q]) { Result r=attempt([&]{ LZ const& c=z(t,q); new(lm[t][s]) LZ(c); }); if(r.ok()) lp[t][s]=true; } return; }
            switch(k%4) { case 0: { Lib l; z(t,s).~LZ(); lp[t][s]=false; } probe("shared_lazy_destroyed"); break; case 1: if(lp[t][q]) { attempt([&]{ z(t,s)=z(t,q); }); } break; default: break; }
            if(lp[t][s]) { int got; { Lib l; Quiet qq; got=z(t,s)().get(); } if(got!=lv) fail("interference","an evaluated lazy value shows %d instead of %d",got,lv); probe("shared_lazy_read"); }
            return; }
    }
    void finish() override {
        for(int t=0;t<nt;++t) for(int s=0;s<2;++s) { if(hp[t][s]) { int got; { Lib l; got=h(t,s).const_reference().get(); h(t,s).~BaseHandle(); } if(got!=hv[t][s]) fail("interference","at the end a handle shows %d instead of %d",got,hv[t][s]); } if(lp[t][s]) { Lib l; z(t,s).~LZ(); } }
        u64 before=elem_live(); { Lib l; for(int t=0;t<nt;++t) delete world[t]; delete common; } (void)before;
        if(fired_total(K_ALLOC)+fired_total(K_CTOR)+fired_total(K_ASSIGN)+fired_total(K_CMP)+fired_total(K_CALL)==0 && elem_live()!=0) fail("interference","%llu element(s) were not destroyed with the last object that shared them",(unsigned long long)elem_live());
    }
};
}
sim::Harness* sim::make_harness() { return new H8(); }
