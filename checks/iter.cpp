// C22: iterator facades over positions that can fail, pair iterators and index ranges, in one or several threads.
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <iterator>
#include <algorithm>
#include <type_traits>
#include "iterator.hpp"
#include "range.hpp"
#include "elem.hpp"
using namespace sim;
using namespace Helper;
namespace {
struct Item { i64 v; int tag; };
static const i64 WIN=512;           // positions at which there is an item to refer to: the window of each sequence
//! A sequence of items numbered by any 64-bit position; what lies at a position is a function of it.
struct Sequence { Item win[2*WIN]; i64 mid; explicit Sequence(i64 m) : mid(m) { for(i64 i=0;i<2*WIN;++i) { win[i].v=value(m-WIN+i); win[i].tag=int(i); } } static i64 value(i64 p) { return p*2+1; } Item const& at(i64 p) const { Harn h; i64 i=p-mid+WIN; if(i<0 || i>=2*WIN) fail("position","an item far from every iterator was asked for (%lld)",(long long)p); return win[i]; } Item& at(i64 p) { return const_cast<Item&>(static_cast<Sequence const*>(this)->at(p)); } };

// Positions whose movement, copy, comparison and access can fail; a failing movement leaves them where they are.
struct RA : IteratorFacade<RA,Item const,RandomAccessTraversalTag> { Sequence const* s; i64 p; ElemC e; RA(Sequence const* q, i64 x) : s(q), p(x), e(7) { }
    bool equal(RA const& o) const { callback_point(); return p==o.p; } std::ptrdiff_t distance_to(RA const& o) const { callback_point(); return o.p-p; } void advance(std::ptrdiff_t n) { callback_point(); p+=n; } Item const& dereference() const { callback_point(); return s->at(p); } };
struct RM : IteratorFacade<RM,Item,RandomAccessTraversalTag> { Sequence* s; i64 p; RM(Sequence* q, i64 x) : s(q), p(x) { }          // one may write through it
    bool equal(RM const& o) const { return p==o.p; } std::ptrdiff_t distance_to(RM const& o) const { return o.p-p; } void advance(std::ptrdiff_t n) { callback_point(); p+=n; } Item& dereference() const { return s->at(p); } };
struct RV : IteratorFacade<RV,i64,RandomAccessTraversalTag,i64> { i64 p; explicit RV(i64 x) : p(x) { }                               // computes its items
    bool equal(RV const& o) const { return p==o.p; } std::ptrdiff_t distance_to(RV const& o) const { return o.p-p; } void advance(std::ptrdiff_t n) { callback_point(); p+=n; } i64 dereference() const { callback_point(); return Sequence::value(p); } };
struct FW : IteratorFacade<FW,Item const,ForwardTraversalTag> { Sequence const* s; i64 p; ElemC e; FW(Sequence const* q, i64 x) : s(q), p(x), e(7) { }
    bool equal(FW const& o) const { callback_point(); return p==o.p; } void increment() { callback_point(); ++p; } Item const& dereference() const { callback_point(); return s->at(p); } };
struct FV : IteratorFacade<FV,i64,ForwardTraversalTag,i64> { i64 p; explicit FV(i64 x) : p(x) { } bool equal(FV const& o) const { return p==o.p; } void increment() { callback_point(); ++p; } i64 dereference() const { return Sequence::value(p); } };

enum Code { PLACE, COPY, ASSIGN, ADD, SUB, PLUS_EQ, MINUS_EQ, INC, DEC, POST_INC, COMPARE, DIFF, DEREF, ARROW, WRITE, STD, RANGE, RANGE_AT, PAIR, CHAIN, COMMON, NCODES };
static const int NS=3, NT=3;
template<class I> struct Slot { alignas(I) unsigned char mem[sizeof(I)]; bool present=false; i64 p=0; I& it() { return *reinterpret_cast<I*>(mem); } I const& cit() const { return *reinterpret_cast<I const*>(mem); } };
struct H : Harness {
    struct World { Sequence* seq=nullptr; Slot<RA> ra[NS]; Slot<RM> rm[NS]; Slot<RV> rv[NS]; Slot<FW> fw[NS]; Slot<FV> fv[NS]; } w[NT]; Sequence* comseq=nullptr; Slot<RA> com[NS]; int nt=1; i64 mid=0;
    const char* property() const override { return CHECK_ID; }
    std::vector<std::string> op_names() const override { return {"place","copy","assign","add","subtract","plus_assign","minus_assign","increment","decrement","post_increment","compare","difference","dereference","arrow","write","standard_algorithm","range","range_index","pair_iterator","chain","common"}; }
    void plan(Rng& r, Plan& p) override {
        nt= r.chance(0.35)? int(r.range(2,NT)) : 1; p.cfg["threads"]=nt; p.cfg["first"]=r.range(0,nt-1); p.cfg["mid"]= r.chance(0.5)? 0 : r.pick({1000,i64(1)<<31,i64(1)<<32,-(i64(1)<<33),(i64(1)<<60)-7,-(i64(1)<<60)});
        int n=int(r.pick({5,10,25,60}))*nt; i64 span=r.pick({2,6,40,200});
        for(int i=0;i<n;++i) { u32 k= i<6*nt? u32(PLACE) : u32(r.pick({PLACE,COPY,ASSIGN,ADD,SUB,ADD,SUB,PLUS_EQ,MINUS_EQ,INC,DEC,POST_INC,COMPARE,COMPARE,DIFF,DIFF,DEREF,ARROW,WRITE,STD,RANGE,RANGE_AT,PAIR,CHAIN,COMMON}));
            i64 far=r.chance(0.15)? i64(r.logu(u64(1)<<62))*(r.chance(0.5)?1:-1) : r.range(-span,span);
            p.add(i<6*nt? u32(i%nt) : u32(r.below(u64(nt))),k,r.range(0,4)*16+r.range(0,NS-1)*4+r.range(0,NS-1),far,r.range(0,5),r.range(1,900)); }
        if(nt>1) plan_schedule(r,p,nt,0.6,100);
        plan_faults(r,p,{{{K_CALL,0.2,3,0},{K_CTOR,0.12,3,0},{K_ASSIGN,0.05,2,0},{K_ALLOC,0.05,3,0.3}}},0.35);
    }
    void setup(Plan const& p) override { nt=std::min(NT,std::max(1,int(p.get("threads",1)))); mid=p.get("mid",0); Quiet q; for(int t=0;t<nt;++t) w[t].seq=new Sequence(mid); comseq=new Sequence(mid); Lib l; for(int s=0;s<NS;++s) { com[s].p=mid+s*3-2; new(com[s].mem) RA(comseq,com[s].p); com[s].present=true; } }
    template<class I> void drop(Slot<I>& s) { if(!s.present) return; s.present=false; Lib l; s.it().~I(); }
    template<class I> void look(Slot<I> const& s, const char* when) { if(!s.present) return; i64 p; { Quiet q; Lib l; p=s.cit().p; } if(p!=s.p) fail("position","%s: an iterator is at %lld, expected %lld",when,(long long)(p-mid),(long long)(s.p-mid)); }
    template<class I> static constexpr bool random = std::is_same_v<typename I::iterator_category,std::random_access_iterator_tag>;
    void after(Result const& r, const char* what) { if(r.o==OTHER_) fail("unexpected-exception","%s threw %s",what,r.what.c_str()); probe("failed"); }
    //! Keeps positions where sums and differences are numbers of 64 bits.
    static bool in_reach(i64 p, i64 n) { i64 s; return !__builtin_add_overflow(p,n,&s) && s>-(i64(1)<<61) && s<(i64(1)<<61); }
    bool in_window(i64 p) const { i64 d=p-mid; return d>=-WIN && d<WIN; }
    template<class I> I fresh(World& x, i64 p) { if constexpr(std::is_same_v<I,RV>||std::is_same_v<I,FV>) return I(p); else return I(x.seq,p); }
    //! A movement whose copy or assignment of the iterator failed may have taken place; one whose own step failed has not.
    template<class I> void settle(Slot<I>& s, i64 d) { if(!fired_here(K_CTOR) && !fired_here(K_ASSIGN) && !fired_here(K_ALLOC)) return; i64 at; { Quiet q; Lib l; at=s.cit().p; } if(at==s.p+d) s.p=at; }
    template<class I> void act(Op const& o, World& x, Slot<I>* slots) {
        Slot<I>& s=slots[u64(o.a[0])/4%4%NS]; Slot<I>& q=slots[u64(o.a[0])%4%NS]; i64 n=o.a[1]; int k=int(u64(o.a[2])%6); Result r; bool fault_ok=true; (void)fault_ok;
        if(o.code==PLACE) { drop(s); i64 p=mid+(in_reach(mid,n)? n : 0); r=attempt([&]{ new(s.mem) I(fresh<I>(x,p)); }); if(r.ok()) { s.present=true; s.p=p; } else after(r,"construction"); return; }
        if(!s.present) return;
        switch(o.code) {
        case COPY: if(q.present && &s!=&q) { drop(s); r=attempt([&]{ new(s.mem) I(q.cit()); }); if(r.ok()) { s.present=true; s.p=q.p; } else after(r,"copy"); } break;
        case ASSIGN: if(q.present) { r=attempt([&]{ s.it()=q.cit(); }); if(r.ok()) s.p=q.p; else { after(r,"assignment"); drop(s); } } break;
        case INC: if(in_reach(s.p,1)) { bool self=false; i64 at=0; r=attempt([&]{ auto&& y=++s.it(); self=&y==&s.it(); at=y.p; }); if(r.ok()) { if(!self||at!=s.p+1) fail("position","++i does not give i, moved by one"); ++s.p; } else { after(r,"++i"); settle(s,1); } } break;
        case COMPARE: if(q.present) compare(s,q); break;
        case DEREF: if constexpr(std::is_same_v<typename I::Reference,i64>) { i64 got=0; r=attempt([&]{ got=*s.cit(); }); if(r.ok()) { if(got!=Sequence::value(s.p)) fail("item","*i at %lld gives %lld",(long long)(s.p-mid),(long long)got); probe("dereferenced"); } else after(r,"*i"); }
            else if(in_window(s.p)) { Item const* got=nullptr; r=attempt([&]{ got=&*s.cit(); }); if(r.ok()) { if(got!=&x.seq->at(s.p)) fail("item","*i is not the item at %lld",(long long)(s.p-mid)); probe("dereferenced"); } else after(r,"*i"); } break;
        case ARROW: if constexpr(!std::is_same_v<typename I::Reference,i64>) if(in_window(s.p)) { Item const* got=nullptr; i64 v=0; r=attempt([&]{ got=s.cit().operator->(); v=s.cit()->v; }); if(r.ok()) { if(got!=&x.seq->at(s.p) || v!=x.seq->at(s.p).v) fail("item","i-> is not the item at %lld",(long long)(s.p-mid)); } else after(r,"i->"); } break;
        case STD: standard(x,s,q,k,int(o.a[3])); break;
        case CHAIN: walk(s,int(u64(n)%40)); break;
        default:
            if constexpr(random<I>) random_op(o,s,q,n,k);
            else if(o.code==POST_INC && in_reach(s.p,1)) { i64 was=0; r=attempt([&]{ if(k%2) { I y=s.it()++; was=y.p; } else { was=s.it()++.p; } }); if(r.ok()) { if(was!=s.p) fail("position","i++ gives %lld instead of where i was (%lld)",(long long)(was-mid),(long long)(s.p-mid)); ++s.p; probe("post_incremented"); } else { after(r,"i++"); i64 at; { Lib l; at=s.cit().p; } if(at==s.p+1) s.p=at; } }      // what fails after the step may be the copy that is given back
            break;
        }
        look(s,"after an operation"); if(q.present) look(q,"after an operation on another iterator");
    }
    template<class I> void random_op(Op const& o, Slot<I>& s, Slot<I>& q, i64 n, int k) {
        Result r; i64 at=0; bool self=true;
        switch(o.code) {
        case DEC: if(in_reach(s.p,-1)) { r=attempt([&]{ auto&& y=--s.it(); self=&y==&s.it(); at=y.p; }); if(r.ok()) { if(!self||at!=s.p-1) fail("position","--i does not give i, moved back by one"); --s.p; } else { after(r,"--i"); settle(s,-1); } } break;
        case PLUS_EQ: if(in_reach(s.p,n)) { r=attempt([&]{ auto&& y=(s.it()+=n); self=&y==&s.it(); at=y.p; }); if(r.ok()) { if(!self||at!=s.p+n) fail("position","i+=%lld moves by %lld",(long long)n,(long long)(at-s.p)); s.p+=n; } else { after(r,"i+=n"); settle(s,n); } } break;
        case MINUS_EQ: if(in_reach(s.p,-n)) { r=attempt([&]{ auto&& y=(s.it()-=n); self=&y==&s.it(); at=y.p; }); if(r.ok()) { if(!self||at!=s.p-n) fail("position","i-=%lld moves by %lld",(long long)n,(long long)(at-s.p)); s.p-=n; } else { after(r,"i-=n"); settle(s,-n); } } break;
        case ADD: case SUB: { i64 m= o.code==ADD? n : -n; if(!in_reach(s.p,m)) break; bool same=false, back=false; i64 d=0, bk=0; r=attempt([&]{ I y= o.code==ADD? s.cit()+n : s.cit()-n; at=y.p; if(k%2) { d=y-s.cit(); same= o.code==ADD? (y-n)==s.cit() : (y+n)==s.cit(); back=true; bk=s.cit()-y; } });
            if(r.ok()) { if(at!=s.p+m) fail("position","i%c%lld lies %lld from i",o.code==ADD?'+':'-',(long long)n,(long long)(at-s.p)); if(back && (d!=m || bk!=-m || !same)) fail("laws","(i+n)-i is %lld and i-(i+n) is %lld for n=%lld; moving back %s",(long long)d,(long long)bk,(long long)m,same? "returns":"does not return"); probe("moved"); if(m>2147483647||m<-2147483648ll) probe("moved_far"); } else after(r,"i+n"); break; }
        case DIFF: if(q.present) { i64 d=0, e=0; r=attempt([&]{ d=q.cit()-s.cit(); e=s.cit()-q.cit(); }); if(r.ok()) { if(d!=q.p-s.p || e!=s.p-q.p) fail("laws","j-i is %lld and i-j is %lld for positions %lld apart",(long long)d,(long long)e,(long long)(q.p-s.p)); probe("differences"); } else after(r,"j-i"); } break;
        case WRITE: if constexpr(std::is_same_v<I,RM>) if(in_window(s.p)) { Item before=s.it().s->at(s.p); r=attempt([&]{ if(k%2) *s.cit()=Item{before.v,int(o.a[3])}; else s.cit()->tag=int(o.a[3]); }); if(r.ok()) { if(s.it().s->at(s.p).tag!=int(o.a[3])) fail("item","a write through an iterator does not reach its item"); } else after(r,"a write"); } break;
        default: break;
        }
    }
    template<class I> void compare(Slot<I>& s, Slot<I>& q) {
        bool b[6]={0}; Result r=attempt([&]{ I const& i=s.cit(); I const& j=q.cit(); b[0]=i==j; b[1]=i!=j; if constexpr(random<I>) { b[2]=i<j; b[3]=i<=j; b[4]=i>j; b[5]=i>=j; } });
        if(!r.ok()) { after(r,"a comparison"); return; }
        if(b[0]!=(s.p==q.p) || b[1]!=(s.p!=q.p)) fail("laws","== or != is wrong for positions %lld apart",(long long)(q.p-s.p));
        if constexpr(random<I>) if(b[2]!=(s.p<q.p) || b[3]!=(s.p<=q.p) || b[4]!=(s.p>q.p) || b[5]!=(s.p>=q.p)) fail("laws","<, <=, > or >= is wrong for positions %lld apart",(long long)(q.p-s.p));
        probe("compared"); if(nt>1) probe("compared_in_threads");
    }
    //! The standard algorithms work with what the facade declares.
    template<class I> void standard(World& x, Slot<I>& s, Slot<I>& q, int k, int c) {
        (void)q; Result r; if(!in_reach(s.p,c)) return; i64 got=0, want=0;
        switch(k%4) {
        case 0: { r=attempt([&]{ I y(s.cit()); if constexpr(random<I>) y+=c%50; else for(int i=0;i<c%50;++i) ++y; got=std::distance(s.cit(),y); }); want=c%50; break; }
        case 1: { r=attempt([&]{ I y(s.cit()); std::advance(y,c%50); got=y.p; }); want=s.p+c%50; break; }
        case 2: if constexpr(random<I> && std::is_same_v<typename I::Reference,i64>) { i64 key=Sequence::value(s.p+c)-(c%2); r=attempt([&]{ got=std::lower_bound(s.cit(),s.cit()+(2*c+10),key).p; }); want=s.p+c; break; } else { if(!in_window(s.p)||!in_window(s.p+c%20)) return; r=attempt([&]{ I y(s.cit()); for(int i=0;i<c%20;++i) ++y; if constexpr(std::is_same_v<typename I::Reference,i64>) got=std::count_if(s.cit(),y,[](i64 v) { return v%4==1 || v%4==-3; }); else got=std::count_if(s.cit(),y,[](Item const& v) { return v.v%4==1 || v.v%4==-3; }); }); for(int i=0;i<c%20;++i) { i64 v=Sequence::value(s.p+i); want+= v%4==1||v%4==-3; } break; }
        default: { r=attempt([&]{ I y=std::next(s.cit(),c%30); got=y.p; }); want=s.p+c%30; break; }
        }
        if(r.ok()) { if(got!=want) fail("laws","a standard algorithm on iterators gives %lld instead of %lld",(long long)got,(long long)want); probe("standard_algorithm"); } else after(r,"a standard algorithm"); (void)x;
    }
    template<class I> void walk(Slot<I>& s, int n) {
        if(!in_window(s.p) || !in_window(s.p+n)) return; i64 sum=0, want=0; int steps=0; for(int i=0;i<n;++i) want+=Sequence::value(s.p+i)&1023;
        Result r=attempt([&]{ I last(s.cit()); for(int i=0;i<n;++i) ++last; for(I i(s.cit()); i!=last && steps<=n; ++i) { ++steps; if constexpr(std::is_same_v<typename I::Reference,i64>) sum+=*i&1023; else sum+=(*i).v&1023; } });
        if(r.ok()) { if(steps!=n) fail("laws","from i to i+%d are %d steps",n,steps); if(sum!=want) fail("item","iterating shows other items"); probe("walked"); } else after(r,"iterating"); }
    void ranges(Op const& o) {
        size_t start=size_t(o.a[3]%9==0? 0 : o.a[1]), n=size_t(u64(o.a[0])*7+u64(o.a[2])); if(o.a[3]%23==0) n*=600; if(o.a[3]%5==0) start= size_t(0)-n-size_t(o.a[3]); if(o.a[3]%7==3) { static const int sh[]={8,15,16,31,32,63}; start=(size_t(1)<<sh[u64(o.a[1])%6])-n/2; } if(o.a[2]%2) start=0;
        size_t steps=0, first=0, last=0, sz=1, b=1, e=1, st=0; bool order=true; bool one=o.a[2]%2 && o.a[3]%2;
        Result r=attempt([&]{ Range g= one? range(n) : range(start,start+n); sz=g.size(); b=g.start(); e=g.stop(); st=g.stride(); for(auto i : g) { if(steps==0) first=i; else if(i!=last+1) order=false; last=i; if(++steps>n) break; } });
        if(!r.ok()) fail("unexpected-exception","a range threw %s",r.what.c_str());
        if(steps!=n || !order || (n && (first!=start || last!=start+n-1))) fail("range","iterating from %llu over %llu indices visits %llu, from %llu to %llu%s",(unsigned long long)start,(unsigned long long)n,(unsigned long long)steps,(unsigned long long)first,(unsigned long long)last,order?"":" in another order");
        if(sz!=n || b!=start || e!=start+n || st!=1) fail("range","a range from %llu over %llu indices has size %llu, start %llu, stop %llu, stride %llu",(unsigned long long)start,(unsigned long long)n,(unsigned long long)sz,(unsigned long long)b,(unsigned long long)e,(unsigned long long)st); probe("range"); log(steps);
    }
    void range_at(Op const& o) {
        bool one=o.a[3]%3==0; size_t start= one? 0 : size_t(o.a[1]), n=size_t(o.a[3])*(o.a[2]%2? 1: 5000000000ull), i=n/3, got=0, sz=0, b=1, e=0, step=0, at=0;
        Result r=attempt([&]{ Range g= one? range(n) : o.a[3]%3==1? range(start,start+n) : Range(start,start+n); got=g[i]; sz=g.size(); b=g.start(); e=g.stop(); Range c(g); g=Range(1,2); at=c[n-1]; auto it=begin(c); auto last=end(c); step=*last; ++it; if(n>1 && !(it!=last)) step=0; if(*it!=start+1) step=0; });
        if(!r.ok()) fail("unexpected-exception","a range threw"); if(got!=start+i || at!=start+n-1 || sz!=n || b!=start || e!=start+n || step!=start+n) fail("range","a range from %llu over %llu indices has index %llu at %llu, size %llu, start %llu, stop %llu",(unsigned long long)start,(unsigned long long)n,(unsigned long long)got,(unsigned long long)i,(unsigned long long)sz,(unsigned long long)b,(unsigned long long)e); }
    void pairs(Op const& o, World& x) {
        int a=int(o.a[3]%40), b=int(o.a[2]), m=int(o.a[1]%20); int t[200]={0}; double d[200]={0}; for(int i=0;i<200;++i) { t[i]=i; d[i]=i/2.0; } bool eq[5]={0}; int const* p1=nullptr; double const* p2=nullptr; (void)x;
        Result r=attempt([&]{ PairIterator<int*,double*> i(t+80+a,d+70+b), j(i); eq[0]=i.equal(j); j.advance(m); eq[1]=i.equal(j); p1=j._iter1; p2=j._iter2; PairIterator<int const*,double const*> c(j); eq[2]=c.equal(j); j.advance(-m); eq[3]=j.equal(i); PairIterator<int*,double*> h(t+80+a,d+71+b); eq[4]=h.equal(i); });
        if(!r.ok()) fail("unexpected-exception","a pair iterator threw"); if(!eq[0] || eq[1]!=(m==0) || !eq[2] || !eq[3] || eq[4]) fail("laws","pair iterators are not equal exactly if both parts are"); if(p1!=t+80+a+m || p2!=d+70+b+m) fail("position","advancing a pair iterator by %d moves its parts by %ld and %ld",m,long(p1-(t+80+a)),long(p2-(d+70+b)));
        std::string text; r=attempt([&]{ PairIterator<int,double> i(a,b/2.0); std::ostringstream ss; ss << i; Harn h; text=ss.str(); }); std::ostringstream want; { want << "{" << a << "," << b/2.0 << "}"; } if(r.ok() && !fired_in_op() && text!=want.str()) fail("text","a pair iterator prints %s",text.c_str()); if(r.o==OTHER_) fail("unexpected-exception","printing a pair iterator threw"); probe("pair_iterator"); }
    void common(Op const& o) {
        Slot<RA> const& s=com[u64(o.a[0])%NS]; Slot<RA> const& q=com[u64(o.a[0])/4%NS]; i64 at=0, d=0; bool lt=false, eq=false; i64 v=0; i64 n=o.a[1]%20;
        Result r=attempt([&]{ RA y=s.cit()+n; at=y.p; d=q.cit()-s.cit(); lt=s.cit()<q.cit(); eq=s.cit()==q.cit(); v=s.cit()->v+(*y).v; });
        if(r.ok()) { if(at!=s.p+n || d!=q.p-s.p || lt!=(s.p<q.p) || eq!=(s.p==q.p) || v!=Sequence::value(s.p)+Sequence::value(s.p+n)) fail("laws","a constant iterator read by several threads shows something else"); probe("common"); } else after(r,"reading a constant iterator"); look(s,"after reading it"); }
    void exec(Op const& o) override {
        World& x=w[self()];
        if(o.code==RANGE) return ranges(o); if(o.code==RANGE_AT) return range_at(o); if(o.code==PAIR) return pairs(o,x); if(o.code==COMMON) return common(o);
        switch(u64(o.a[0])/16%5) { case 0: act(o,x,x.ra); break; case 1: act(o,x,x.rm); break; case 2: act(o,x,x.rv); break; case 3: act(o,x,x.fw); break; default: act(o,x,x.fv); }
    }
    void finish() override { for(int t=0;t<nt;++t) { World& x=w[t]; for(int s=0;s<NS;++s) { look(x.ra[s],"at the end"); look(x.rm[s],"at the end"); look(x.rv[s],"at the end"); look(x.fw[s],"at the end"); look(x.fv[s],"at the end"); drop(x.ra[s]); drop(x.rm[s]); drop(x.rv[s]); drop(x.fw[s]); drop(x.fv[s]); } delete x.seq; } for(auto& s : com) drop(s); delete comseq; if(elem_live()) fail("leak","%llu copies of an iterator were not destroyed",(unsigned long long)elem_live()); }
};
}
sim::Harness* sim::make_harness() { return new H(); }
