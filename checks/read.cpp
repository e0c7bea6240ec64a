// C12: reading delimited lists from streams.
#include "stlio.hpp"
#include "container.hpp"
#include "elem.hpp"
#include "streams.hpp"
#include <sstream>
using namespace sim;
namespace {
enum Code { TXT, READ, NCODES };
struct Delim { char o,c,s; };
static const Delim DEL[]={{'[',']',','},{'{','}',';'},{'<','>','|'},{'(',')',','},{'|','|',','},{'x','y','z'},{'[',']','\''},{'"','"','/'},{'[',']',';'}};
static const int ND=sizeof DEL/sizeof*DEL, NKINDS=13;
enum Tok { T_O, T_C, T_S, T_INT, T_BIG, T_OVER, T_SP, T_NL, T_LETTER, T_MINUS, T_FRAC, T_PLUS, T_OTHER, T_NEST, T_NESTBAD, T_HEX, T_NUL, T_HIGH, T_RUN, T_HUGE, T_TRUTH, NTOK };
static std::string token(i64 k, i64 v, Delim d) {
    char b[64]; u64 uv=v<0? u64(-v):u64(v);
    switch(k) {
    case T_O: return std::string(1,d.o); case T_C: return std::string(1,d.c); case T_S: return std::string(1,d.s);
    case T_INT: snprintf(b,sizeof b,"%d",int(uv%1000)); return b; case T_BIG: snprintf(b,sizeof b,"%d",int(1000000000+uv%1000000000)); return b;
    case T_OVER: return "99999999999999999999"; case T_SP: return std::string(1+uv%3,' '); case T_NL: { const char* n[]={"\n","\t","\r\n","\v","\f"}; return n[uv%5]; } case T_LETTER: return std::string(1,char('a'+uv%26));
    case T_MINUS: return "-"; case T_FRAC: snprintf(b,sizeof b,"%d.%d",int(uv%50),int(uv%97)); return b; case T_PLUS: return "+"; case T_OTHER: return std::string(1,"])}>|;:,.[{("[uv%12]);
    case T_NEST: { std::string s="["; for(u64 i=0;i<uv%4;++i) { if(i) s+=","; s+=std::to_string(int(uv+i*7)%100); } return s+"]"; } case T_NESTBAD: return uv%3==0? "[1,2" : uv%3==1? "[1;2]" : "[1,]";
    case T_HUGE: return std::to_string(18446744073709551615ull-uv*uv*uv*uv); case T_TRUTH: return uv%2? "true" : "false";
    case T_HEX: return "0x1F"; case T_RUN: { std::string s; for(u64 i=0;i<uv;++i) { if(i) s+=d.s; s+=char('0'+(i*7+uv)%10); } return s; } case T_NUL: return std::string(1,'\0'); default: return std::string(1,char(0x80+uv%128));
    }
}
template<class T> struct Model { bool ok=false; std::vector<T> items; size_t end=0; };
static std::ios_base::fmtflags item_flags;      // as the user set them on the stream: base of numbers, words for truth values
static bool ws(char c) { return c==' '||c=='\n'||c=='\t'||c=='\r'||c=='\v'||c=='\f'; }
template<class T> struct Item { static bool get(std::string const& t, size_t& pos, T& x) {
    if(t.size()-pos>2000) { std::string w=t.substr(pos,400); std::istringstream is(w); is.flags(item_flags); bool ok=bool(is >> x); auto n=is.rdbuf()->in_avail(); size_t left= n>0? size_t(n):0; if(left>0) { pos+=w.size()-left; return ok; } }    // long texts are looked at through a window
    std::istringstream is(t.substr(pos)); is.flags(item_flags); bool ok=bool(is >> x); size_t left=0; if(ok) { auto n=is.rdbuf()->in_avail(); left= n>0? size_t(n):0; } pos=t.size()-left; return ok; } };
template<class T> void parse(std::string const& t, size_t pos, Delim d, Model<T>& m);
template<class T> struct Item<std::vector<T>> { static bool get(std::string const& t, size_t& pos, std::vector<T>& x) { Model<T> m; parse(t,pos,DEL[0],m); x=m.items; pos=m.end; return m.ok; } };
template<class T> void parse(std::string const& t, size_t pos, Delim d, Model<T>& m) {
    auto nextc=[&](char& c) { while(pos<t.size() && ws(t[pos])) ++pos; if(pos>=t.size()) return false; c=t[pos++]; return true; };
    char c=0; m.ok=false; m.items.clear(); m.end=pos;
    if(!nextc(c) || c!=d.o) return;
    if(!nextc(c)) return;
    if(c==d.c) { m.ok=true; m.end=pos; return; }
    --pos;
    for(;;) { T x{}; if(!Item<T>::get(t,pos,x)) return; m.items.push_back(x); if(!nextc(c)) return; if(c==d.c) { m.ok=true; m.end=pos; return; } if(c!=d.s) return; }
}
template<class C> struct Conv { using M=typename C::value_type; static M out(M const& x) { return x; } };
template<> struct Conv<std::vector<Elem>> { using M=int; static int out(Elem const& e) { return e.get(); } };
template<> struct Conv<std::vector<bool>> { using M=bool; static bool out(bool x) { return x; } };
template<> struct Conv<std::list<ElemC>> { using M=int; static int out(ElemC const& e) { return e.get(); } };
static std::string show(std::string const& s) { std::string r; for(char c : s.substr(0,80)) { if(u8(c)<32||u8(c)>126) { char b[8]; snprintf(b,sizeof b,"\\x%02x",u8(c)); r+=b; } else r+=c; } return r; }

struct H : Harness {
    std::string pending; Source* src=nullptr; std::istream* is=nullptr; std::vector<std::pair<i64,i64>> toks; bool dead=true; Delim d; u64 rb=0;
    const char* property() const override { return CHECK_ID; }
    std::vector<std::string> ignored_classes() const override { return {"leak"}; }    // not what this property is about
    std::vector<std::string> op_names() const override { return {"text","read"}; }
    void plan(Rng& r, Plan& p) override {
        int rounds=int(r.range(1,4));
        p.cfg["painted"]=r.pick({0,'[','{','|','"','x',0xff});
        for(int k=0;k<rounds;++k) {
            int kind=int(r.range(0,NKINDS-1)), dl=int(r.chance(0.4)? 0 : r.range(0,ND-1)); std::vector<std::pair<i64,i64>> t;
            int lists=int(r.range(1,3));
            for(int l=0;l<lists;++l) {
                auto sp=[&]{ if(r.chance(0.15)) t.push_back({r.chance(0.6)?T_SP:T_NL,r.range(0,5)}); };
                sp(); t.push_back({T_O,0}); sp(); int n=int(r.chance(0.2)?0:r.logu(14)); if(r.chance(0.02)) n=int(r.range(30,300));
                for(int i=0;i<n;++i) { if(i) { sp(); t.push_back({T_S,0}); sp(); }
                    if(kind==2) t.push_back({r.chance(0.6)?T_FRAC:T_INT,r.range(0,999)}); else if(kind==3) t.push_back({T_LETTER,r.range(0,25)}); else if(kind==9 || kind==12) { t.push_back({T_LETTER,r.range(0,25)}); if(r.chance(0.5)) t.push_back({T_INT,r.range(0,999)}); if(r.chance(0.95)) t.push_back({T_SP,0}); } else if(kind==8) t.push_back({r.chance(0.3)? T_HUGE : T_INT,r.range(0,999)}); else if(kind==10) t.push_back({r.chance(0.5)? T_TRUTH : T_INT,r.range(0,1)}); else if(kind==4) { if(r.chance(0.9)) t.push_back({T_NEST,r.range(0,99)}); else t.push_back({T_NESTBAD,r.range(0,2)}); }
                    else { if(r.chance(0.1)) t.push_back({T_MINUS,0}); t.push_back({r.chance(0.9)?T_INT:T_BIG,r.range(0,999)}); } }
                if(kind!=4 && r.chance(0.002)) { if(n) t.push_back({T_S,0}); t.push_back({T_RUN,r.chance(0.1)? r.range(65530,66000) : r.chance(0.3)? r.range(700,6000) : r.range(200,700)}); }
                sp(); t.push_back({T_C,0});
            }
            if(r.chance(0.5)) { int m=int(r.range(1,3)); for(int i=0;i<m && !t.empty();++i) { size_t q=size_t(r.below(t.size())); switch(r.below(5)) {
                case 0: t.erase(t.begin()+long(q)); break; case 1: t[q]={r.range(0,T_HIGH),r.range(0,99)}; break; case 2: t.insert(t.begin()+long(q),{r.range(0,T_HIGH),r.range(0,99)}); break; case 3: t.insert(t.begin()+long(q),t[q]); break; default: t.resize(q+1); } } }
            if(t.size()>40) t.resize(40+r.below(t.size()-40)); // keep plans short
            for(auto& x : t) p.add(0,TXT,x.first,x.second);
            i64 mask=(r.chance(0.7)?0:r.range(0,7))+8*(kind==10 && r.chance(0.6)? 4 : r.chance(0.8)? 0 : r.range(1,4)), chunk= r.chance(0.4)?1: r.range(1,40); int reads=int(r.range(1,lists+1));
            for(int i=0;i<reads;++i) p.add(0,READ,kind,dl,mask*1000+chunk,r.range(0,1000000));
        }
        plan_faults(r,p,{{{K_ALLOC,0.12,6,0.4},{K_CTOR,0.08,12,0.2},{K_READERR,0.12,30,0},{K_EOF,0.2,30,0}}},0.3);
    }
    void setup(Plan const& p) override { rb=u64(p.get("painted",0)); }
    void close() { delete is; delete src; is=nullptr; src=nullptr; dead=true; }
    template<class C> void read(C& v, Delim d, bool dflt) {
        using M=typename Conv<C>::M;
        size_t start=src->consumed(); paint(u8(rb)); auto flags=is->flags(); auto mask=is->exceptions(); auto prec=is->precision(); std::vector<M> old; item_flags=flags; for(auto&& e : v) old.push_back(Conv<C>::out(e));
        Result res=attempt([&]{ if(dflt) { if constexpr(std::is_same_v<C,std::vector<typename C::value_type>>) *is >> v; else Helper::read_sequence(*is,v); return; } Helper::read_sequence(*is,v,d.o,d.c,d.s); });
        if(src->err) rd_err=true;
        std::string t=src->text.substr(0,src->limit); Model<M> m; parse(t,start,d,m);
        std::vector<M> got; { for(auto&& e : v) got.push_back(Conv<C>::out(e)); } size_t end=src->consumed();
        auto where=[&]{ return show(t.substr(start)); };
        if(is->flags()!=flags || is->exceptions()!=mask || is->precision()!=prec) fail("settings-changed","reading '%s' changed the format settings or the exception mask of the stream",where().c_str());
        if(res.ok()) {
            if(rd_err) fail("false-success","a read error occurred, yet reading '%s' succeeded",where().c_str());
            if(!m.ok) fail("false-success","reading the malformed or truncated text '%s' succeeded with %zu items",where().c_str(),got.size());
            if(got!=m.items) fail("wrong-items","reading '%s' gave %zu items, not the %zu listed, or other ones",where().c_str(),got.size(),m.items.size());
            if(end!=m.end) fail("wrong-position","reading '%s' consumed %zu characters, not %zu",where().c_str(),end-start,m.end-start);
            if(!is->good()) fail("stream-state","the stream is not usable after a successful read of '%s'",where().c_str());
            probe("read_ok"); if constexpr(std::is_same_v<M,std::string>) if(got.size()>1) probe("read_words"); if(got.size()) probe("read_items",got.size()); log(got.size());
        } else {
            if(m.ok && !fired_in_op()) fail("false-failure","reading the well-formed text '%s' failed: %s",where().c_str(),res.what.c_str());
            bool pre = got.size()<=m.items.size() && std::equal(got.begin(),got.end(),m.items.begin());
            if(!pre && got==old && end==start && fired_in_op()) pre=true;     // failed before reading began
            if(!pre) fail("partial-wrong","after a failed read of '%s' the container holds items that are not leading items of the list",where().c_str());
            probe(fired_in_op()? "read_failed_by_fault" : "read_failed_by_text"); dead=true; if(!got.empty()) probe("partial_content");
        }
    }
    bool rd_err=false;
    template<class C> void go(Op const& o, Delim d) {
        C* v; { Lib l; Quiet q; v=new C(); } u64 n=u64(o.a[3])%5;
        { Lib l; Quiet q; for(u64 i=0;i<n;++i) v->push_back(typename C::value_type{}); }
        read(*v,d,u64(o.a[1])%ND==0);
        { Lib l; Quiet q; delete v; }
    }
    void exec(Op const& o) override {
        if(o.code==TXT) { toks.push_back({o.a[0],o.a[1]}); return; }
        Delim d=DEL[u64(o.a[1])%ND]; u64 mc=u64(o.a[2]);
        if(!toks.empty()) { close(); std::string t; for(auto& x : toks) t+=token(i64(u64(x.first)%NTOK),x.second,d); toks.clear();
            src=new Source(t,u64(o.a[3]),u32(mc%1000)); is=new std::istream(src); rd_err=false; int m=int(mc/1000%8);
            std::ios_base::iostate e{}; if(m&1) e|=std::ios::failbit; if(m&2) e|=std::ios::badbit; if(m&4) e|=std::ios::eofbit; is->exceptions(e); dead=false; int fm=int(mc/8000%5); if(fm) probe("format_set_by_user"); if(fm==1) is->setf(std::ios::hex,std::ios::basefield); else if(fm==2) is->setf(std::ios::oct,std::ios::basefield); else if(fm==3) is->unsetf(std::ios::basefield); else if(fm==4) is->setf(std::ios::boolalpha); }
        if(dead) return;
        switch(u64(o.a[0])%NKINDS) {
        case 0: go<std::vector<int>>(o,d); break; case 1: go<std::deque<int>>(o,d); break; case 2: go<std::vector<double>>(o,d); break; case 3: go<std::vector<char>>(o,d); break;
        case 4: go<std::vector<std::vector<int>>>(o,d); break; case 5: go<std::vector<Elem>>(o,d); break; case 6: go<std::list<ElemC>>(o,d); break; case 8: go<std::vector<unsigned long long>>(o,d); break; case 9: go<std::vector<std::string>>(o,d); break; case 10: go<std::vector<bool>>(o,d); break; case 11: go<Helper::List<long>>(o,d); break; case 12: go<std::vector<std::string>>(o,d); break; default: go<Helper::List<short>>(o,d); break;
        }
    }
    void finish() override { close(); }
};
}
sim::Harness* sim::make_harness() { return new H(); }
