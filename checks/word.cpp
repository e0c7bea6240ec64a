// C14: binary words.
#include "binary_word.hpp"
#include "elem.hpp"
#include "streams.hpp"
#include <sstream>
using namespace sim;
using Helper::BinaryWord;
namespace {
enum Code { MAKE, BIT, APPEND, ERASE, COMPARE, SETBACK, COPY, TXT, READ, SINK, PRINT, ROUND, NCODES };
static const int NS=4;
static std::string bits(u64 seed, u64 n) { Rng q(seed+n*77); std::string s; u64 style=q.below(4); for(u64 i=0;i<n;++i) s+= style==0? '0' : style==1? '1' : char('0'+q.below(2)); return s; }
enum Tok { T_BITS, T_LIST, T_E, T_SP, T_JUNK, T_BADLIST, T_NL, T_OPEN, T_DIGIT, NTOK };
static std::string listof(std::string const& b, bool sp) { std::string s="["; for(size_t i=0;i<b.size();++i) { if(i) s+= sp? " , ":","; s+=b[i]; } return s+"]"; }
static std::string token(i64 k, i64 v) { u64 u=u64(v<0?-v:v); switch(k) {
    case T_BITS: return bits(u,1+u%(u%17==0?200:12)); case T_LIST: return listof(bits(u,u%(u%17==0?150:9)),u%3==0); case T_E: return "e"; case T_SP: return std::string(1+u%3,' '); case T_JUNK: return std::string(1,"x,;2]-Ef:"[u%9]);
    case T_BADLIST: { const char* b[]={"[0,1","[0;1]","[0,2]","[0,]","[","[1 0]","[,1]"}; return b[u%7]; } case T_NL: { const char* b[]={"\n","\t","\r\n","\v","\f"}; return b[u%5]; } case T_OPEN: return "["; default: return std::string(1,char('2'+u%8)); } }
struct M { enum K { NOTHING, WORD, BAD, OTHER } k=NOTHING; std::string w; size_t end=0; bool ateof=false; };
static bool ws(char c) { return c==' '||c=='\n'||c=='\t'||c=='\r'||c=='\v'||c=='\f'; }
static M parse(std::string const& t, size_t pos) {
    M m; auto skip=[&]{ while(pos<t.size() && ws(t[pos])) ++pos; }; skip(); m.end=pos; if(pos>=t.size()) return m;
    char c=t[pos];
    if(c=='e') { m.k=M::WORD; m.end=pos+1; return m; }
    if(c=='0'||c=='1') { while(pos<t.size() && (t[pos]=='0'||t[pos]=='1')) m.w+=t[pos++]; m.k=M::WORD; m.end=pos; m.ateof=pos>=t.size(); return m; }
    if(c!='[') { m.k=M::OTHER; return m; }
    m.k=M::BAD; ++pos; skip(); if(pos>=t.size()) return m; if(t[pos]==']') { m.k=M::WORD; m.end=pos+1; return m; }
    for(;;) { std::istringstream is(t.substr(pos)); bool b; if(!(is >> b)) return m; auto left=is.rdbuf()->in_avail(); pos=t.size()-(left>0? size_t(left):0); m.w+= b?'1':'0'; skip(); if(pos>=t.size()) return m; c=t[pos++]; if(c==']') { m.k=M::WORD; m.end=pos; return m; } if(c!=',') return m; }
}
struct H : Harness {
    BinaryWord* w[NS]={0}; std::string m[NS]; std::string text; bool havetext=false; Source* src=nullptr; std::istream* is=nullptr; bool dead=true;
    Sink* sink=nullptr; std::ostream* os=nullptr; std::string expect; bool broken=false; std::ios_base::fmtflags fl{};
    const char* property() const override { return CHECK_ID; }
    std::vector<std::string> ignored_classes() const override { return {"leak"}; }    // not what this property is about
    std::vector<std::string> op_names() const override { return {"make","bit","append","erase","compare","setback","copy","text","read","sink","print","roundtrip"}; }
    void plan(Rng& r, Plan& p) override {
        bool large=r.chance(0.0015), mid=!large && r.chance(0.004); auto len=[&]{ return large? r.range(65000,70000) : mid? r.range(300,6000) : r.chance(0.1)? r.range(60,300) : r.logu(20); };
        for(int i=0;i<NS;++i) if(r.chance(0.7)) p.add(0,MAKE,i,r.range(0,99999),i64(len()),r.range(0,5));
        int n=int(r.range(3,24)); if(large) { n=int(r.range(3,8)); probe("large_word"); } p.add(0,SINK,r.pick({0,0,1,7,64}),r.range(1,20),r.range(0,9999),r.chance(0.2)? r.range(0,60) : -1);
        for(int i=0;i<n;++i) { u32 c=u32(r.pick({MAKE,BIT,BIT,APPEND,APPEND,APPEND,ERASE,COMPARE,COMPARE,COMPARE,SETBACK,COPY,READ,READ,READ,READ,PRINT,PRINT,SINK,ROUND,ROUND})); i64 s=r.range(0,NS-1), t=r.chance(0.3)? s : r.range(0,NS-1);
            switch(c) {
            case MAKE: p.add(0,c,s,r.range(0,99999),i64(len()),r.range(0,5)); break;
            case BIT: p.add(0,c,s,r.range(0,1),r.range(1,9)); break;
            case ERASE: p.add(0,c,s,r.chance(0.2)? r.range(-3,40) : r.range(0,9)); break;
            case READ: { if(r.chance(0.7)) { int k=int(r.range(1,5)); for(int j=0;j<k;++j) { if(j||r.chance(0.1)) if(r.chance(0.8)) p.add(0,TXT,r.pick({T_SP,T_SP,T_NL}),r.range(0,4)); p.add(0,TXT,r.chance(0.15)? r.range(0,NTOK-1) : r.pick({T_BITS,T_BITS,T_LIST,T_E}),r.range(0,999)); } if(r.chance(0.3)) p.add(0,TXT,r.range(0,NTOK-1),r.range(0,99)); }
                int reads=int(r.range(1,4)); i64 mask=r.chance(0.7)?0:r.range(0,3); for(int j=0;j<reads;++j) p.add(0,READ,r.range(0,NS-1),r.chance(0.4)?1:r.range(1,30),r.range(0,9999),mask); break; }
            case SINK: p.add(0,c,r.pick({0,0,1,7,64}),r.range(1,20),r.range(0,9999),r.chance(0.2)? r.range(0,60) : -1); break;
            default: p.add(0,c,s,t,r.range(0,99999),r.range(0,99)); break;
            } }
        plan_faults(r,p,{{{K_ALLOC,0.15,4,0.4},{K_READERR,0.1,20,0},{K_EOF,0.15,20,0},{K_WRITEERR,0.15,20,0},{K_WRITETHROW,0.05,20,0}}},0.3);
    }
    void setup(Plan const&) override { for(int i=0;i<NS;++i) { Lib l; Quiet q; w[i]=new BinaryWord(); } }
    static std::string str(BinaryWord const& x) { std::string s; Quiet q; for(size_t i=0;i<x.size();++i) s+= x[i]? '1':'0'; return s; }
    void check(int s, const char* what) { std::string g=str(*w[s]); if(g!=m[s]) fail("wrong-word","%s: the word is '%.80s', not '%.80s'",what,g.c_str(),m[s].c_str());
        size_t b; { Lib l; b=w[s]->bytes(); } if(b!=(m[s].size()+7)/8) fail("wrong-bytes","a word of %zu bits is said to take %zu bytes",m[s].size(),b); }
    void all(const char* what, int except=-1) { for(int i=0;i<NS;++i) if(i!=except) check(i,what); }
    void closein() { delete is; delete src; is=nullptr; src=nullptr; dead=true; }
    std::string seen() { return sink->got+sink->pending(); }
    void checksink(bool flushed) { std::string const& g=sink->got; if(g.size()>expect.size() || expect.compare(0,g.size(),g)!=0) fail("wrong-text","the sink received '%.60s', the text is '%.60s'",g.c_str(),expect.c_str());
        if(flushed && !broken && os->good() && g!=expect) fail("silent-loss","the stream reports success but the sink has %zu of %zu bytes",g.size(),expect.size());
        if(flushed && !broken && !sink->failed && g!=expect) fail("lost-text","a healthy sink has %zu of %zu bytes",g.size(),expect.size()); }
    void closeout() { if(os) { attempt([&]{ os->flush(); }); checksink(true); delete os; delete sink; os=nullptr; } expect.clear(); broken=false; }
    void read(int s) {
        size_t start=src->consumed(); u64 err0=src->err; std::string old=m[s];
        Result r=attempt([&]{ *is >> *w[s]; });
        M x=parse(src->text.substr(0,src->limit),start); std::string g=str(*w[s]); size_t end=src->consumed(); bool failed=!r.ok() || is->fail();
        std::string shown=src->text.substr(start,60);
        bool hit=src->err && !err0;
        if(hit) { if(!failed) fail("false-success","a read error was hit yet reading a word succeeded"); probe("read_error_reported"); }
        if(!failed) {
            if(x.k==M::NOTHING) fail("false-success","reading a word from exhausted input succeeded");
            if(x.k==M::BAD) fail("false-success","reading the malformed or truncated word '%s' succeeded",shown.c_str());
            if(x.k==M::OTHER) { if(!g.empty() || end!=x.end) fail("wrong-word","reading at '%s', which starts no word, gave '%.40s' and consumed %zu characters",shown.c_str(),g.c_str(),end-start); dead=true; probe("no_word"); }
            else { if(g!=x.w) fail("wrong-word","reading '%s' gave '%.60s', not '%.60s'",shown.c_str(),g.c_str(),x.w.c_str()); if(end!=x.end) fail("wrong-position","reading '%s' consumed %zu characters, not %zu",shown.c_str(),end-start,x.end-start);
                if(!is->good() && !(is->eof() && x.ateof)) fail("stream-state","the stream is not usable after reading '%s'",shown.c_str()); probe("word_read"); if(x.ateof) probe("word_ended_by_eof"); }
        } else {
            if(x.k==M::WORD && !fired_in_op()) fail("false-failure","reading the well-formed word '%s' failed%s%s",shown.c_str(),r.ok()?"":": ",r.what.c_str());
            bool alloc=!r.ok() && r.faulted();
            if(x.k==M::WORD && !hit && r.ok() && fired_total(K_ALLOC)==0) fail("false-failure","reading the well-formed word '%s', ended by the end of input or a following character, left the stream failed",shown.c_str());
            (void)alloc;
            if(g.size()>x.w.size() || x.w.compare(0,g.size(),g)!=0) fail("partial-wrong","a failed read of '%s' left the bits '%.60s'",shown.c_str(),g.c_str());
            dead=true; probe("read_failed");
        }
        m[s]=g; check(s,"read"); all("read of another word",s);
    }
    void exec(Op const& o) override {
        int s=int(u64(o.a[0])%NS), t=int(u64(o.a[1])%NS);
        switch(o.code) {
        case MAKE: { std::string b=bits(u64(o.a[1]),u64(o.a[2])%80000); std::string txt= b.empty()? (o.a[3]%2? "e":"[]") : o.a[3]%3==0? listof(b,o.a[3]%2) : o.a[3]==4? b+"x0" : o.a[3]==5? "  "+b+" 1" : b; BinaryWord* n=nullptr;
            std::string* lt; { Lib l; Quiet q; lt=new std::string(txt); }
            Result r=attempt([&]{ if(o.a[3]%2) n=new BinaryWord(*lt); else n=new BinaryWord(Helper::make_binary_word(*lt)); });
            { Lib l; Quiet q; delete lt; }
            if(r.ok()) { std::string g=str(*n); bool lossy=fired_in_op() && b.compare(0,g.size(),g)==0; if(g!=b && !lossy) fail("wrong-word","the word made from '%.60s' is '%.60s'",txt.c_str(),g.c_str()); { Lib l; Quiet q; delete w[s]; } w[s]=n; m[s]=g; probe("made"); } else if(!r.faulted() && !fired_in_op()) fail("unexpected-exception","making a word of '%.60s' threw %s",txt.c_str(),r.what.c_str()); else probe("make_failed");
            all("make"); break; }
        case BIT: { bool b=o.a[1]&1; for(i64 i=0;i<1+o.a[2]%9;++i) { Result r=attempt_only_faults([&]{ w[s]->append(b); }); if(r.ok()) m[s]+= b?'1':'0'; check(s,"append of a bit"); } all("append of a bit"); break; }
        case APPEND: { if(m[s].size()+m[t].size()>200000) break; std::string full=m[s]+m[t], old=m[s]; Result r=attempt_only_faults([&]{ w[s]->append(*w[t]); });
            if(r.ok()) m[s]=full; else { std::string g=str(*w[s]); if(g.size()<old.size() || g.size()>full.size() || full.compare(0,g.size(),g)!=0) fail("partial-wrong","a failed append left '%.60s'",g.c_str()); m[s]=g; probe("append_failed"); }
            if(s==t) probe("append_self"); all("append of a word"); break; }
        case ERASE: { int k=int(o.a[1]); attempt_only_faults([&]{ w[s]->erase_prefix(k); }); if(k>0) m[s].erase(0,size_t(k)<m[s].size()? size_t(k) : m[s].size()); all("erase_prefix"); break; }
        case SETBACK: if(!m[s].empty()) { attempt_only_faults([&]{ w[s]->set_back(o.a[2]&1); }); m[s].back()= o.a[2]&1? '1':'0'; all("set_back"); } break;
        case COPY: { bool ok; if(o.a[3]%2) { Result r=attempt_only_faults([&]{ *w[s]=*w[t]; }); ok=r.ok(); } else { BinaryWord* n=nullptr; Result r=attempt_only_faults([&]{ n=new BinaryWord(*w[t]); }); ok=r.ok(); if(ok) { Lib l; Quiet q; delete w[s]; } if(ok) w[s]=n; } if(ok) m[s]=m[t]; else m[s]=str(*w[s]); all("copy"); break; }
        case COMPARE: { bool lt=false,eq=false,pre=false,sub=false; 
            // words related to each other are the interesting ones
            BinaryWord *a=w[s], *b=w[t]; std::string ma=m[s], mb=m[t]; BinaryWord* part=nullptr;
            if(o.a[2]%3 && !mb.empty()) { size_t f=size_t(o.a[2]/3)%mb.size(), n=1+size_t(o.a[3])%(mb.size()-f); if(o.a[2]%3==1) { f=0; } if(mb.size()>200 && o.a[2]/7%2) { f%=3; n=mb.size()-f-size_t(o.a[3]/4%8); } ma=mb.substr(f,n); if(o.a[3]%4==0) ma.back()= ma.back()=='0'?'1':'0'; Lib l; Quiet q; part=new BinaryWord(); for(char c : ma) part->append(c=='1'); a=part; }
            attempt_only_faults([&]{ lt=*a<*b; eq=*a==*b; pre=a->is_prefix(*b); sub= ma.size()*mb.size()>4000000? mb.find(ma)!=std::string::npos : a->is_subword(*b); });
            if(lt!=(ma<mb)) fail("wrong-order","'%.50s' < '%.50s' is said to be %d",ma.c_str(),mb.c_str(),lt); if(eq!=(ma==mb)) fail("wrong-equality","'%.50s' == '%.50s' is said to be %d",ma.c_str(),mb.c_str(),eq);
            if(pre!=(mb.compare(0,ma.size(),ma)==0)) fail("wrong-prefix","'%.50s' is said %sto be a prefix of '%.50s'",ma.c_str(),pre?"":"not ",mb.c_str()); if(sub!=(mb.find(ma)!=std::string::npos)) fail("wrong-subword","'%.50s' is said %sto be a subword of '%.50s'",ma.c_str(),sub?"":"not ",mb.c_str());
            if(sub) probe("is_subword"); if(pre) probe("is_prefix"); if(part) { Lib l; Quiet q; delete part; } break; }
        case TXT: text+=token(i64(u64(o.a[0])%NTOK),o.a[1]); havetext=true; break;
        case READ: if(havetext) { closein(); src=new Source(text,u64(o.a[2]),u32(o.a[1])); is=new std::istream(src); if(o.a[3]&3) is->exceptions(std::ios_base::iostate((o.a[3]&1? std::ios::badbit:std::ios::goodbit)|(o.a[3]&2? std::ios::failbit:std::ios::goodbit))); text.clear(); havetext=false; dead=false; }
            if(!dead && !is->eof()) read(s); break;
        case SINK: closeout(); sink=new Sink(u64(o.a[2]),u32(o.a[1]),u32(o.a[0])); if(o.a[3]>=0) sink->capacity=size_t(o.a[3]); os=new std::ostream(sink); if(o.a[2]&4) os->setf(std::ios::boolalpha); if(o.a[2]&8) os->setf(std::ios::showpos); if(o.a[2]&16) os->setf(std::ios::hex,std::ios::basefield); fl=os->flags(); break;
        case PRINT: if(!os || broken) break; { bool bad=!os->good(); expect+= m[s].empty()? "e" : m[s]; Result r=attempt([&]{ *os << *w[s]; }); if(!r.ok()) { if(!fired_in_op()) fail("unexpected-exception","printing a word threw %s",r.what.c_str()); broken=true; }
            if(!bad && !sink->failed && r.ok() && seen()!=expect && os->good()) fail("wrong-text","printed text is '%.60s', not '%.60s'",seen().c_str(),expect.c_str());
            checksink(false); if(os->flags()!=fl || os->width()!=0) fail("settings-changed","printing a word changed the format settings of the stream"); all("print"); probe("printed"); break; }
        case ROUND: { std::string got; bool ok=false; { Lib l; Quiet q; std::stringstream* ss=new std::stringstream(); if(o.a[3]%2) *ss << "  "; *ss << *w[t]; if(o.a[3]%3==1) *ss << " 7"; if(o.a[3]%3==2) *ss << ",7"; BinaryWord* x=new BinaryWord(); *ss >> *x; ok=!ss->fail(); if(o.a[3]%3==2) { char c=0; *ss >> c; ok= ok && c==','; } if(o.a[3]%3) { int z=0; *ss >> z; ok= ok && z==7; } { Harn h; got=str(*x); } delete x; delete ss; }
            if(!ok || got!=m[t]) fail("roundtrip","the word '%.60s' reads back as '%.60s'%s",m[t].c_str(),got.c_str(),ok?"":", and the stream is not usable or not right behind it"); probe("roundtrip"); if(m[t].empty()) probe("roundtrip_empty"); break; }
        }
    }
    void finish() override { closein(); closeout(); for(auto& x : w) { Lib l; delete x; } }
};
}
sim::Harness* sim::make_harness() { return new H(); }
