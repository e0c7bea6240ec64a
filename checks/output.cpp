// C13: textual output of containers, pairs, tuples, sequences and writable objects.
#include "container.hpp"
#include "handle.hpp"
#include "writable.hpp"
#include "string.hpp"
#include "elem.hpp"
#include "streams.hpp"
#include <sstream>
#include <iomanip>
using namespace sim;
namespace H_ = Helper;
namespace {
struct Coef { int i; double c; int index() const { return i; } double coefficient() const { return c; } };
struct Shape : H_::WritableInterface { int a,b; Shape(int x,int y) : a(x),b(y) { } std::ostream& _write(std::ostream& os) const override { return os << "Shape(" << a << ";" << b << ")"; } };
struct IntWriter : H_::WriterInterface<int> { std::string tag; IntWriter(std::string t) : tag(t) { } std::ostream& _write(std::ostream& os, int const& t) const override { return os << tag << t << "!"; } };

using Helper::operator<<;      // as the library's own code sees them
using std::operator<<;

// --- reference text, assembled by hand from the text of single items under the same format settings
struct Fmt { std::ios_base::fmtflags f; std::streamsize prec; char fill; };
template<class T> std::string item(T const& t, Fmt const& f) { std::ostringstream o; o.flags(f.f); o.precision(f.prec); o.fill(f.fill); o << t; return o.str(); }
template<class R, class F> std::string seq(R const& r, const char* op, const char* cl, const char* sep, F f) { std::string s=op; bool first=true; for(auto const& x : r) { if(!first) s+=sep; first=false; s+=f(x); } return s+cl; }

enum Code { SINK, PRINT, FLUSH, ROUNDTRIP, NCODES };
static const int NK=31;
struct H : Harness {
    Sink* sink=nullptr; std::ostream* os=nullptr; std::string expect; bool broken=false; Fmt fmt; u64 fails0=0; bool masked=false;
    const char* property() const override { return CHECK_ID; }
    std::vector<std::string> ignored_classes() const override { return {"leak"}; }    // not what this property is about
    std::vector<std::string> op_names() const override { return {"sink","print","flush","roundtrip"}; }
    void plan(Rng& r, Plan& p) override {
        int streams=int(r.range(1,3));
        for(int s=0;s<streams;++s) {
            p.add(0,SINK,r.pick({0,0,1,5,16,64}),r.chance(0.3)?1:r.range(1,40),r.range(0,5000),r.chance(0.25)? r.range(0,120) : -1);
            int n=int(r.range(1,7)); for(int i=0;i<n;++i) { int c=r.chance(0.7)?PRINT : r.chance(0.6)?ROUNDTRIP:FLUSH; i64 sz=r.chance(0.25)?0:r.chance(0.3)?1:r.logu(10); if(r.chance(0.02)) sz=r.range(50,400); if(r.chance(0.004)) sz=r.range(400,6000); if(r.chance(0.0006)) { sz=r.range(65000,67000); probe("large_object"); } p.add(0,u32(c),r.range(0,NK-1),sz,r.range(0,1000000),r.range(0,99999)); }
        }
        plan_faults(r,p,{{{K_WRITEERR,0.2,12,0},{K_WRITETHROW,0.07,12,0},{K_ALLOC,0.12,6,0.4},{K_CTOR,0.1,8,0.2}}},0.3);
    }
    void setup(Plan const&) override { }
    void close() { if(os) { flush(); delete os; delete sink; os=nullptr; sink=nullptr; } expect.clear(); broken=false; }
    std::string seen() { return sink->got + sink->pending(); }
    void check_stream(const char* what, bool flushed) {
        std::string const& g=sink->got;
        if(g.size()>expect.size() || expect.compare(0,g.size(),g)!=0) { size_t i=0; while(i<g.size() && i<expect.size() && g[i]==expect[i]) ++i;
            fail("wrong-text","%s: at byte %zu the sink received '%s' where the text is '%s'",what,i,g.substr(i>20?i-20:0,60).c_str(),expect.substr(i>20?i-20:0,60).c_str()); }
        if(flushed && !broken) { bool all=g.size()==expect.size();
            if(os->good() && !all) fail("silent-loss","%s: the stream reports success but the sink received %zu of %zu bytes",what,g.size(),expect.size());
            if(!sink->failed && !all) fail("lost-text","%s: a healthy sink received %zu of %zu bytes",what,g.size(),expect.size());
            if(sink->failed && all && os->good()) { }
        }
        if(sink->failed && flushed && os->good() && !broken) fail("silent-loss","%s: the sink failed but the stream reports success",what);
    }
    void settings(const char* what) { if(os->flags()!=fmt.f || os->precision()!=fmt.prec || os->fill()!=fmt.fill || os->width()!=0) fail("settings-changed","%s changed the format settings of the stream",what); }
    void flush() { attempt([&]{ os->flush(); }); check_stream("flush",true); }
    //! Prints one object: text is what must arrive.
    template<class F> void print(const char* what, std::string const& text, F f) {
        expect+=text; u64 c0=fired_total(K_CTOR), a0=fired_total(K_ALLOC); bool wasbad=!os->good(); size_t before=seen().size(); bool wasbroken=broken;
        Result r=attempt([&]{ std::ostream& o=f(*os); if(&o!=os) fail("wrong-stream","%s does not return the stream it wrote to",what); });
        bool inner= fired_total(K_CTOR)>c0 || fired_total(K_ALLOC)>a0;
        if(!r.ok()) { if(!inner && !masked && !sink->threw) fail("unexpected-exception","printing %s threw %s",what,r.what.c_str()); if(!inner && !sink->failed && !wasbad) fail("unexpected-exception","printing %s threw %s on a healthy sink",what,r.what.c_str()); broken=true; probe("print_threw"); }
        if(inner && r.ok()) { if(!os->good() && !sink->failed) { broken=true; probe("inner_failure_made_stream_bad"); } }
        if(!wasbad && !sink->failed && !inner && !os->good()) fail("stream-bad","printing %s left the stream of a healthy sink bad",what);
        if(!wasbad && !inner && !sink->failed && !wasbroken && seen()!=expect) fail("wrong-text","printing %s gave '%.80s', not '%.80s'",what,seen().substr(std::min(seen().size(),before)).c_str(),text.c_str());
        check_stream(what,false); if(!os->good()) probe("print_to_failed_stream"); settings(what); probe("printed"); if(sink->failed) probe("print_cut_off");
        log_str(sink->got);
    }
    static std::string word(u64 v) { static const std::string w[]={"","a","two words","x,y","[z]","\n","a longer string that does not fit in place, so it is on the heap",std::string("nul\0in it",9),"\xff\xc3\xa9\x80",std::string(1,'\0'),"%s%n{}\\\"'"}; return w[v%11]; }
    //! Builds an object of the library in lib mode without faults, prints it, destroys it.
    template<class B, class F> void with(B b, F f) { using T=std::remove_pointer_t<decltype(b())>; T* t; { Lib l; Quiet q; t=b(); } f(*t); { Lib l; Quiet q; delete t; } }
    //! The text of an object as a string: what a new stream would receive.
    template<class T> void text(const char* what, T const& t) {
        std::string want; { std::ostringstream y; y << t; want=y.str(); } std::string got[3]; const char* how[3]={"to_string","to_str","c_str of to_string"};
        { Lib l; Quiet q; H_::String a=H_::to_string(t); H_::String b=H_::to_str(t); Harn h; got[0]=a; got[1]=b; got[2]=H_::c_str(a); if(want.find('\0')!=std::string::npos) got[2]=want; }
        for(int i=0;i<3;++i) if(got[i]!=want) fail("wrong-text","%s of %s gave '%.60s', not '%.60s'",how[i],what,got[i].c_str(),want.c_str()); probe("to_string"); log_str(want); }
    void do_print(u64 kind, u64 n, u64 seed, u64 dl) {
        Rng q(seed*7919+kind); std::vector<int> v; std::vector<double> w; for(u64 i=0;i<n;++i) { v.push_back(int(q.chance(0.1)? q.range(-2000000000,2000000000) : q.range(-50,50)*(n>100? i64(1+q.below(4096)) : 1))); w.push_back(double(q.range(-1000,1000))/8.0*(q.chance(0.1)?1e12:1)); }
        Fmt const f=fmt; auto it=[&](auto const& x) { return item(x,f); };
        static const char D[]="[](){}<>,;:|/ \n\"x0"; const u64 m=sizeof D-1; char o=D[dl%m], c=D[dl/7%m], s=D[dl/49%m], d=D[dl/343%m]; std::string so(1,o), sc(1,c), ss(1,s), sd(1,d);
        bool const def=dl%5==0; if(def && kind>=9 && kind<=13) { bool map=kind>=11; so=map?"{":"["; sc=map?"}":"]"; ss=","; sd=":"; probe("default_delimiters"); }
        std::vector<std::string> z; for(int x : v) z.push_back(word(u64(x)+1000000)); std::map<int,int> mm; for(size_t i=0;i<v.size();++i) mm[n>100? v[i] : v[i]%40]=int(i*3)-5; std::set<int> st(v.begin(),v.end());
        switch(kind) {
        case 0: with([&]{ return new H_::Array<int>(v.begin(),v.end()); },[&](auto const& x) { print("Array<int>",seq(v,"[","]",",",it),[&](std::ostream& y)->std::ostream&{ return y << x; }); }); break;
        case 1: with([&]{ auto p=new H_::SharedArray<int>(v.size()); for(size_t i=0;i<v.size();++i) assign_to((*p)[i],v[i]); return p; },[&](auto const& x) { print("SharedArray<int>",seq(v,"[","]",",",it),[&](std::ostream& y)->std::ostream&{ return y << x; }); }); break;
        case 2: with([&]{ return new H_::List<int>(v.begin(),v.end()); },[&](auto const& x) { print("List<int>",seq(v,"[","]",",",it),[&](std::ostream& y)->std::ostream&{ return y << x; }); }); break;
        case 3: with([&]{ return new std::vector<std::string>(z.begin(),z.end()); },[&](auto const& x) { print("vector<string>",seq(z,"[","]",",",it),[&](std::ostream& y)->std::ostream&{ return H_::operator<<(y,x); }); }); break;
        case 4: with([&]{ return new H_::LinkedList<int>(v.begin(),v.end()); },[&](auto const& x) { print("LinkedList<int>",seq(v,"[","]",",",it),[&](std::ostream& y)->std::ostream&{ return y << x; }); }); break;
        case 5: with([&]{ return new H_::Set<int>(v.begin(),v.end()); },[&](auto const& x) { print("Set<int>",seq(st,"{","}",",",it),[&](std::ostream& y)->std::ostream&{ return y << x; }); }); break;
        case 6: with([&]{ auto p=new H_::Map<int,std::string>(); for(auto& kv : mm) (*p)[kv.first]=word(u64(kv.second+100)); return p; },[&](auto const& x) { print("Map<int,string>",seq(mm,mm.empty()?"{":"{ "," }",", ",[&](auto const& kv) { return it(kv.first)+":"+word(u64(kv.second+100)); }),[&](std::ostream& y)->std::ostream&{ return y << x; }); }); break;
        case 7: { std::pair<int,double> x(int(n)-3,double(seed%1000)/8); print("pair<int,double>","("+it(x.first)+","+it(x.second)+")",[&](std::ostream& y)->std::ostream&{ return y << x; }); break; }
        case 8: { auto x=std::make_tuple(int(seed%77)-3,word(seed),double(seed%1000)/8,seed%2==0); print("tuple","("+it(std::get<0>(x))+","+it(std::get<1>(x))+","+it(std::get<2>(x))+","+it(std::get<3>(x))+")",[&](std::ostream& y)->std::ostream&{ return y << x; }); break; }
        case 9: print("sequence",seq(v,so.c_str(),sc.c_str(),ss.c_str(),it),[&](std::ostream& y)->std::ostream&{ return def? H_::write_sequence(y,v.begin(),v.end()) : H_::write_sequence(y,v.begin(),v.end(),o,c,s); }); break;
        case 10: { std::vector<double const*> pv; for(auto& e : w) pv.push_back(&e); print("pointer sequence",seq(w,so.c_str(),sc.c_str(),ss.c_str(),it),[&](std::ostream& y)->std::ostream&{ return def? H_::write_pointer_sequence(y,pv.begin(),pv.end()) : H_::write_pointer_sequence(y,pv.begin(),pv.end(),o,c,s); }); break; }
        case 11: print("map sequence",seq(mm,so.c_str(),sc.c_str(),ss.c_str(),[&](auto const& kv) { return it(kv.first)+sd+it(kv.second); }),[&](std::ostream& y)->std::ostream&{ return def? H_::write_map_sequence(y,mm.begin(),mm.end()) : H_::write_map_sequence(y,mm.begin(),mm.end(),o,c,s,d); }); break;
        case 12: { std::map<int,int const*> pm; for(auto& kv : mm) pm[kv.first]=&kv.second; print("map pointer sequence",seq(mm,so.c_str(),sc.c_str(),ss.c_str(),[&](auto const& kv) { return it(kv.first)+sd+it(kv.second); }),[&](std::ostream& y)->std::ostream&{ return def? H_::write_map_pointer_sequence(y,pm.begin(),pm.end()) : H_::write_map_pointer_sequence(y,pm.begin(),pm.end(),o,c,s,d); }); break; }
        case 13: { std::vector<Coef> cv; for(size_t i=0;i<w.size();++i) cv.push_back({v[i],w[i]}); print("coefficient map sequence",seq(cv,so.c_str(),sc.c_str(),ss.c_str(),[&](auto const& x) { return it(x.i)+sd+it(x.c); }),[&](std::ostream& y)->std::ostream&{ return def? H_::write_coefficient_map_sequence(y,cv.begin(),cv.end()) : H_::write_coefficient_map_sequence(y,cv.begin(),cv.end(),o,c,s,d); }); break; }
        case 14: { Shape x(int(n),int(seed%100)); H_::WritableInterface const& wi=x; std::string t="Shape("+it(x.a)+";"+it(x.b)+")"; if(dl%3==0) print("WritableInterface",t,[&](std::ostream& y)->std::ostream&{ return y << wi; }); else if(dl%3==1) print("WritableInterface::write",t,[&](std::ostream& y)->std::ostream&{ return wi.write(y); });
            else { H_::Array<int> a; print("WritableInterface twice",t+t,[&](std::ostream& y)->std::ostream&{ return y << wi << wi; }); } break; }
        case 15: { std::tuple<H_::Set<int>,std::pair<int,int>> x(H_::Set<int>(v.begin(),v.end()),{int(seed%9),int(n)}); print("tuple of containers","("+seq(st,"{","}",",",it)+",("+it(int(seed%9))+","+it(int(n))+"))",[&](std::ostream& y)->std::ostream&{ return y << x; }); break; }
        case 16: { IntWriter* iw; { Lib l; Quiet qq; iw=new IntWriter(word(seed)); } int x=int(seed%1000); H_::WriterInterface<int> const& wi=*iw; print("WriterInterface",word(seed)+it(x)+"!",[&](std::ostream& y)->std::ostream&{ return y << wi(x); }); { Lib l; Quiet qq; delete iw; } break; }
        case 17: with([&]{ auto p=new H_::List<H_::List<int>>(); for(u64 i=0;i<n%6;++i) p->push_back(H_::List<int>(v.begin(),v.begin()+long(std::min<size_t>(i,v.size())))); return p; },[&](auto const& x) { print("List<List<int>>",seq(x,"[","]",",",[&](auto const& y) { return seq(y,"[","]",",",it); }),[&](std::ostream& y)->std::ostream&{ return y << x; }); }); break;
        case 18: with([&]{ auto p=new H_::Map<int,H_::List<int>>(); for(u64 i=0;i<n%6;++i) (*p)[int(i)]=H_::List<int>(v.begin(),v.begin()+long(std::min<size_t>(i,v.size()))); return p; },[&](auto const& x) { print("Map<int,List<int>>",seq(x,x.empty()?"{":"{ "," }",", ",[&](auto const& y) { return it(y.first)+":"+seq(y.second,"[","]",",",it); }),[&](std::ostream& y)->std::ostream&{ return y << x; }); }); break;
        case 19: with([&]{ return new H_::Array<Elem>(v.begin(),v.end()); },[&](auto const& x) { print("Array<Elem>",seq(v,"[","]",",",it),[&](std::ostream& y)->std::ostream&{ return y << x; }); }); break;
        case 20: with([&]{ return new H_::List<ElemL>(v.begin(),v.end()); },[&](auto const& x) { print("List<ElemL>",seq(v,"[","]",",",it),[&](std::ostream& y)->std::ostream&{ return y << x; }); }); break;
        case 21: with([&]{ return new H_::Set<Elem>(v.begin(),v.end()); },[&](auto const& x) { print("Set<Elem>",seq(st,"{","}",",",it),[&](std::ostream& y)->std::ostream&{ return y << x; }); }); break;
        case 22: with([&]{ auto p=new H_::List<bool>(); for(int e : v) p->push_back(e&1); return p; },[&](auto const& x) { print("List<bool>",seq(v,"[","]",",",[&](int e) { return it(bool(e&1)); }),[&](std::ostream& y)->std::ostream&{ return y << x; }); }); break;
        case 23: with([&]{ return new H_::List<double>(w.begin(),w.end()); },[&](auto const& x) { print("List<double>",seq(w,"[","]",",",it),[&](std::ostream& y)->std::ostream&{ return y << x; }); }); break;
        case 24: { std::set<std::string> zs(z.begin(),z.end()); with([&]{ return new H_::Set<std::string>(z.begin(),z.end()); },[&](auto const& x) { print("Set<string>",seq(zs,"{","}",",",it),[&](std::ostream& y)->std::ostream&{ return y << x; }); }); break; }
        case 25: { std::map<std::string,std::set<int>> ms; for(size_t i=0;i<z.size();++i) ms[z[i]].insert(v[i]); with([&]{ auto p=new H_::Map<std::string,H_::Set<int>>(); for(size_t i=0;i<z.size();++i) (*p)[z[i]].insert(v[i]); return p; },[&](auto const& x) { print("Map<string,Set<int>>",seq(ms,ms.empty()?"{":"{ "," }",", ",[&](auto const& y) { return y.first+":"+seq(y.second,"{","}",",",it); }),[&](std::ostream& y)->std::ostream&{ return y << x; }); }); break; }
        case 26: with([&]{ auto p=new H_::List<std::pair<int,double>>(); for(size_t i=0;i<v.size();++i) p->push_back({v[i],w[i]}); return p; },[&](auto const& x) { print("List<pair>",seq(x,"[","]",",",[&](auto const& y) { return "("+it(y.first)+","+it(y.second)+")"; }),[&](std::ostream& y)->std::ostream&{ return y << x; }); }); break;
        case 28: { int x=int(seed%1000); with([&]{ return new H_::Writer<int>(std::shared_ptr<H_::WriterInterface<int>>(new IntWriter(word(seed)))); },[&](auto const& wr) { print("Writer",word(seed)+it(x)+"!",[&](std::ostream& y)->std::ostream&{ return y << wr(x); }); }); break; }
        case 29: { int x=int(seed%100000)-50000; text("int",x); text("string",word(seed)); text("char",char(seed/11%256)); text("C string",word(seed).c_str()); text("double",double(x)/3); std::pair<int,bool> pr(x,seed&1); text("pair",pr); break; }
        case 30: with([&]{ return new H_::List<int>(v.begin(),v.end()); },[&](auto const& x) { text("List<int>",x); }); with([&]{ return new Shape(int(n),int(seed%77)); },[&](auto const& x) { text("writable",x); }); break;
        default: { if(dl%4==3) { int b=int(seed%90000); auto x=std::make_tuple(b,b+1,b+2,b+3,word(seed),b+5,b+6,b+7,word(seed/7),b+9,b+10,b+11); auto y9=std::make_tuple(b,word(seed),b+2,b+3,b+4,b+5,b+6,b+7,b+8); auto y6=std::make_tuple(b,b+1,b+2,word(seed),b+4,b+5);
            if(seed%3==0) print("12-tuple","("+it(b)+","+it(b+1)+","+it(b+2)+","+it(b+3)+","+it(word(seed))+","+it(b+5)+","+it(b+6)+","+it(b+7)+","+it(word(seed/7))+","+it(b+9)+","+it(b+10)+","+it(b+11)+")",[&](std::ostream& y)->std::ostream&{ return y << x; });
            else if(seed%3==1) print("9-tuple","("+it(b)+","+it(word(seed))+","+it(b+2)+","+it(b+3)+","+it(b+4)+","+it(b+5)+","+it(b+6)+","+it(b+7)+","+it(b+8)+")",[&](std::ostream& y)->std::ostream&{ return y << y9; });
            else print("6-tuple","("+it(b)+","+it(b+1)+","+it(b+2)+","+it(word(seed))+","+it(b+4)+","+it(b+5)+")",[&](std::ostream& y)->std::ostream&{ return y << y6; }); break; }
            if(dl%4==0) { std::tuple<> x; print("empty tuple","()",[&](std::ostream& y)->std::ostream&{ return y << x; }); break; } auto x=std::make_tuple(int(seed%50)); print("1-tuple","("+it(std::get<0>(x))+")",[&](std::ostream& y)->std::ostream&{ return y << x; }); break; }
        }
    }
    void roundtrip(u64 n, u64 seed, bool chars) {
        // a list written to a healthy device and read back, delivered in pieces
        std::vector<int> v; Rng q(seed); for(u64 i=0;i<n;++i) v.push_back(int(q.range(-2000000,2000000)));
        if(chars) { std::vector<std::vector<int>> vv; for(u64 i=0;i<n%7;++i) vv.push_back(std::vector<int>(v.begin(),v.begin()+long(i))); rt2(vv,seed); } else rt(v,seed);
    }
    template<class V> void rt(V const& v, u64 seed) { Sink s(seed,u32(1+seed%9),u32(seed%20)); std::ostream o(&s); Source* src=nullptr; V back;
        { Lib l; Quiet q; Helper::List<int> x(v); o << x; o.flush(); } src=new Source(s.got,seed,u32(1+seed%5)); std::istream i(src); bool thrown=false;
        { Lib l; Quiet q; V y; try { i >> y; } catch(...) { thrown=true; } Harn h; back=y; } if(thrown || back!=v) fail("roundtrip","a list of %zu items written as '%.60s' does not read back equal",v.size(),s.got.c_str()); probe("roundtrip"); delete src; }
    template<class V> void rt2(V const& v, u64 seed) { Sink s(seed,u32(1+seed%9),u32(seed%20)); std::ostream o(&s); V back; bool thrown=false;
        { Lib l; Quiet q; Helper::List<Helper::List<int>> x; for(auto& e : v) x.append(Helper::List<int>(e)); o << x; o.flush(); } Source* src=new Source(s.got,seed,u32(1+seed%5)); std::istream i(src);
        { Lib l; Quiet q; V y; try { i >> y; } catch(...) { thrown=true; } Harn h; back=y; } if(thrown || back!=v) fail("roundtrip","a nested list of %zu items written as '%.60s' does not read back equal",v.size(),s.got.c_str()); probe("roundtrip_nested"); delete src; }
    void exec(Op const& o) override {
        if(o.code==SINK || !os) { close(); u64 a=u64(o.a[2]); sink=new Sink(a,u32(o.code==SINK? o.a[1]:7),u32(o.code==SINK? o.a[0]:0)); if(o.code==SINK && o.a[3]>=0) sink->capacity=size_t(o.a[3]); sink->transient=(a/7)%3==0; os=new std::ostream(sink);
            if(a%3==0) { if(a&8) os->setf(std::ios::hex,std::ios::basefield); if(a&16) os->setf(std::ios::showpos); if(a&32) os->setf(std::ios::boolalpha); if(a&64) os->precision(3); if(a&128) os->setf(std::ios::fixed,std::ios::floatfield); if(a&256) os->setf(std::ios::showbase); if(a&512) os->fill('*'); if(a&1024) os->setf(std::ios::uppercase); }
            masked=a%7==0; if(masked) os->exceptions(std::ios::badbit|(a%2?std::ios::failbit:std::ios::goodbit)); if(a/49%4==0 && (!masked || !sink->bufsize)) { os->setf(std::ios::unitbuf); sink->sync_throws=false; probe("unit_buffered"); }    // a failing flush after each item must not throw: that ends the program in the standard library
            fmt={os->flags(),os->precision(),os->fill()}; if(o.code==SINK) return; }
        switch(o.code) {
        case PRINT: if(!broken) do_print(u64(o.a[0])%NK,u64(o.a[1])%80000,u64(o.a[2]),u64(o.a[3])); break;
        case FLUSH: flush(); break;
        case ROUNDTRIP: roundtrip(u64(o.a[1])%80000,u64(o.a[2]),o.a[3]&1); break;
        }
    }
    void finish() override { close(); }
};
}
sim::Harness* sim::make_harness() { return new H(); }
