// C18: assertions, preconditions and warnings.
#include <iostream>
#include <string>
#include <vector>
#include <exception>
#include "macros.hpp"
#include "elem.hpp"
#include "streams.hpp"
using namespace sim;
namespace {
#ifdef NDEBUG
static const bool DEBUG=false;
#else
static const bool DEBUG=true;
#endif
static const int NT=4;
// of each thread
static thread_local u64 nconds=0, nmsgs=0, ntexts=0, nnums=0; static thread_local int truth=0, other=0; static thread_local bool passed=false; static thread_local std::string* passing_text=nullptr;
static thread_local bool throwing=false;
static bool cond() { { Harn h; ++nconds; } if(throwing) callback_point(); return truth!=0; }
struct Truthy { int v; explicit operator bool() const { Harn h; ++nconds; return v!=0; } };
static int lhs() { Harn h; ++nconds; return truth; } static int rhs() { Harn h; ++nconds; return other; }
//! An operand that is costly to copy, and looked at where it lies.
struct Big { std::string s; int v; std::vector<int> more; Big(int x) : s("a value with a text too long to be held in place in any implementation"), v(x), more(10,x) { } explicit operator bool() const { return v!=0; } };
static bool operator==(Big const& a, Big const& b) { return a.v==b.v && a.s==b.s; } static bool operator!=(Big const& a, Big const& b) { return !(a==b); } static std::ostream& operator<<(std::ostream& os, Big const& b) { return os << b.v; }
static thread_local Big* bigs[2]={nullptr,nullptr}; static Big const& big_lhs() { Harn h; ++nconds; return *bigs[0]; } static Big const& big_rhs() { Harn h; ++nconds; return *bigs[1]; } static Big const& big_cond() { Harn h; ++nconds; return *bigs[0]; }
static std::string const& str_lhs() { Harn h; ++nconds; return bigs[0]->s; } static std::string const& str_rhs() { Harn h; ++nconds; return bigs[1]->s; }
static std::string const& text() { { Harn h; ++nmsgs; ++ntexts; } if(throwing) callback_point(); return *passing_text; }
static int num() { Harn h; ++nmsgs; ++nnums; return 4711; }
static std::string const& wtext() { Harn h; ++ntexts; return *passing_text; }    // the message of a warning
struct MyError : std::runtime_error { using std::runtime_error::runtime_error; };
struct Site { const char* name; void (*f)(); const char* expr; int line; bool msg; bool debug; int kind; };  // kind 0: condition, 1: equality, 2: always fails, 3: throws MyError
#define SITE(n,body,expr,msg,debug,kind) static void n() { body; Harn h; passed=true; } static const int n##_line=__LINE__;
SITE(s_assert,      HELPER_ASSERT(cond()),"cond()",0,0,0)
SITE(s_assert_and,  HELPER_ASSERT(cond() && 1==1),"",0,0,0)
SITE(s_assert_obj,  HELPER_ASSERT(Truthy{truth}),"",0,0,0)
SITE(s_assert_msg,  HELPER_ASSERT_MSG(cond(),text()),"",1,0,0)
SITE(s_assert_msg2, HELPER_ASSERT_MSG(cond(),"v="<<num()<<" "<<text()),"",1,0,0)
SITE(s_assert_eq,   HELPER_ASSERT_EQUAL(lhs(),rhs()),"",0,0,1)
SITE(s_assert_eq_big,HELPER_ASSERT_EQUAL(big_lhs(),big_rhs()),"",0,0,1)
SITE(s_assert_eq_str,HELPER_ASSERT_EQUAL(str_lhs(),str_rhs()),"",0,0,1)
SITE(s_assert_big,HELPER_ASSERT(big_cond()),"",0,0,0)
SITE(s_assert_msg_big,HELPER_ASSERT_MSG(big_cond(),"b="<<*bigs[0]<<text()),"",1,0,0)
SITE(s_pre_big,HELPER_PRECONDITION(big_cond()),"",0,0,0)
SITE(s_dassert_big,HELPER_DEBUG_ASSERT(big_cond()),"",0,1,0)
SITE(s_dpre_big,HELPER_DEBUG_PRECONDITION(big_cond()),"",0,1,0)
SITE(s_pre,         HELPER_PRECONDITION(cond()),"",0,0,0)
SITE(s_pre_msg,     HELPER_PRECONDITION_MSG(cond(),text()<<num()),"",1,0,0)
SITE(s_fail,        HELPER_FAIL_MSG(text()),"",1,0,2)
SITE(s_dassert,     HELPER_DEBUG_ASSERT(cond()),"",0,1,0)
SITE(s_dassert_msg, HELPER_DEBUG_ASSERT_MSG(cond(),text()),"",1,1,0)
SITE(s_dpre,        HELPER_DEBUG_PRECONDITION(cond()),"",0,1,0)
SITE(s_throw,       if(!cond()) HELPER_THROW(MyError,"s_throw",text()),"",1,0,3)
SITE(s_not_impl,    HELPER_NOT_IMPLEMENTED,"",0,0,2)
// names that the macros might use themselves
SITE(s_name1,       bool result=cond(); HELPER_DEBUG_PRECONDITION(result),"",0,1,0)
SITE(s_name2,       bool assertion_result=cond(); HELPER_ASSERT(assertion_result),"",0,0,0)
SITE(s_name3,       std::string const& ss=*passing_text; HELPER_PRECONDITION_MSG(cond(),ss),"",1,0,0)
SITE(s_nested,      for(int i=0;i<3;++i) { if(i==1) { HELPER_ASSERT(i!=1 || cond()) } },"",0,0,0)
struct Obj { int a; Obj() : a(1) { HELPER_PRECONDITION(cond()); } template<class T> void tm(T) { HELPER_ASSERT_MSG(cond(),text()); } };
SITE(s_ctor,        Obj o; (void)o,"",0,0,0)
static const Site SITES[]={
    {"assert",s_assert,"cond()",s_assert_line,0,0,0},{"assert with &&",s_assert_and,"cond() && 1==1",s_assert_and_line,0,0,0},{"assert of an object",s_assert_obj,"Truthy{truth}",s_assert_obj_line,0,0,0},{"assert_msg",s_assert_msg,"cond()",s_assert_msg_line,1,0,0},{"assert_msg (2)",s_assert_msg2,"cond()",s_assert_msg2_line,1,0,0},
    {"assert_equal",s_assert_eq,"lhs()==rhs()",s_assert_eq_line,0,0,1},{"precondition",s_pre,"cond()",s_pre_line,0,0,0},{"precondition_msg",s_pre_msg,"cond()",s_pre_msg_line,1,0,0},{"fail_msg",s_fail,"",s_fail_line,1,0,2},
    {"debug_assert",s_dassert,"cond()",s_dassert_line,0,1,0},{"debug_assert_msg",s_dassert_msg,"cond()",s_dassert_msg_line,1,1,0},{"debug_precondition",s_dpre,"cond()",s_dpre_line,0,1,0},{"throw",s_throw,"MyError",0,1,0,3},{"not_implemented",s_not_impl,"",0,0,0,2},
    {"debug_precondition(result)",s_name1,"result",s_name1_line,0,1,0},{"assert(assertion_result)",s_name2,"assertion_result",s_name2_line,0,0,0},{"precondition_msg(..,ss)",s_name3,"cond()",s_name3_line,1,0,0},{"assert in a loop",s_nested,"i!=1 || cond()",s_nested_line,0,0,0},{"precondition in a constructor",s_ctor,"cond()",0,0,0,0},
    {"assert_equal of objects",s_assert_eq_big,"",s_assert_eq_big_line,0,0,1},{"assert_equal of texts",s_assert_eq_str,"",s_assert_eq_str_line,0,0,1},{"assert of a large object",s_assert_big,"big_cond()",s_assert_big_line,0,0,0},{"assert_msg of a large object",s_assert_msg_big,"big_cond()",s_assert_msg_big_line,1,0,0},{"precondition of a large object",s_pre_big,"big_cond()",s_pre_big_line,0,0,0},{"debug_assert of a large object",s_dassert_big,"big_cond()",s_dassert_big_line,0,1,0},{"debug_precondition of a large object",s_dpre_big,"big_cond()",s_dpre_big_line,0,1,0} };
static const int NSITES=sizeof SITES/sizeof*SITES;
template<int N> static void warn_once() { HELPER_WARN_ONCE("once " << N << " " << wtext()); }
template<int N> static void deprecated() { HELPER_DEPRECATED(old_function,"use the new one"); }
static void two_in_one() { HELPER_WARN_ONCE("first of two"); HELPER_WARN_ONCE("second of two"); }
enum { WK_WARN, WK_ERROR, WK_NOTIFY, WK_ONCE0, WK_ONCE1, WK_ONCE2, WK_DEPR0, WK_DEPR1, WK_TWO, NW };
enum Code { CHECK, WARN, NEWERR, REPEAT, NCODES };
static const char* const TEXTS[]={"simple","","two words","a much longer text that cannot be held in place and must be allocated on the heap, to be sure that it fails when memory runs out","100%","semi;colon"};
static std::string text_of(int tx) { if(tx<6) return TEXTS[tx]; std::string s; Rng q{u64(tx)}; for(int i=6;i<tx;++i) s+=char(q.range(33,126)); return s; }   // long texts, different for each number
// Where a check is made: in plain code, in a destructor while another exception is on its way, in a handler.
struct Outer { int v; };
static std::exception_ptr left_destructors[NT];
#define left_destructor left_destructors[self()]
struct Unwinding { void (*f)(); ~Unwinding() { try { Lib l; f(); } catch(...) { set_lib(false); left_destructor=std::current_exception(); } } };
static void run_in(int where, void (*f)()) {
    switch(where) {
    case 1: left_destructor=nullptr; try { Unwinding u{f}; throw Outer{1}; } catch(Outer const&) { } if(left_destructor) { std::exception_ptr e=std::move(left_destructor); left_destructor=nullptr; std::rethrow_exception(e); } break;
    case 2: try { throw Outer{2}; } catch(Outer const&) { Lib l; f(); } break;
    default: { Lib l; f(); } break; }
}
struct H : Harness {
    Sink* err=nullptr; Sink* out=nullptr; int nt=1; std::string *per=nullptr, *oper=nullptr; int inside[NW]={0}; bool done[NW]={0}, wrote[NW]={0}; std::streambuf* olderr=nullptr; std::streambuf* oldout=nullptr; bool reached[NW]={0}, unsure[NW]={0}; std::string expect; std::ios_base::iostate em{};
    const char* property() const override { return CHECK_ID; }
    std::vector<std::string> ignored_classes() const override { return {"leak"}; }    // not what this property is about
    std::vector<std::string> op_names() const override { return {"check","warn","new_stderr","repeat"}; }
    void plan(Rng& r, Plan& p) override {
        if(r.chance(0.3)) {      // several threads, which may meet at one site
            nt=int(r.range(2,NT)); p.cfg["threads"]=nt; p.cfg["first"]=r.range(0,nt-1); p.cfg["full"]=r.chance(0.1)? r.range(0,300) : -1; int n=int(r.range(2,8))*nt/2; i64 site=r.range(0,NW-1); double pw=r.pick({10,50,90})/100.0;
            for(int i=0;i<n;++i) { bool w=r.chance(pw); p.add(u32(r.below(u64(nt))),w? WARN:CHECK,w? (r.chance(0.6)? site : r.range(0,NW-1)) : r.range(0,NSITES-1),r.chance(0.4),r.chance(0.1)? 6+i64(r.logu(3000)) : r.range(0,5),r.range(0,99)); }
            plan_schedule(r,p,nt,0.7,200);
            plan_faults(r,p,{{{K_ALLOC,0.12,6,0.5},{K_CALL,0.05,2,0},{K_WRITEERR,0.02,8,0}}},0.4);
            return; }
        int n=int(r.range(2,24)); p.add(0,NEWERR,r.pick({0,0,1,16}),r.range(1,30),r.range(0,999),r.chance(0.15)? r.range(0,80):-1);
        for(int i=0;i<n;++i) { u32 c=u32(r.pick({CHECK,CHECK,CHECK,WARN,WARN,NEWERR,REPEAT})); if(c==NEWERR) p.add(0,c,r.pick({0,0,1,16}),r.range(1,30),r.range(0,999),r.chance(0.15)? r.range(0,80):-1); else p.add(0,c,r.range(0,c==WARN||c==REPEAT? NW-1:NSITES-1),r.chance(0.5),r.chance(0.15)? 6+i64(r.chance(0.01)? r.logu(79000) : r.logu(5000)) : r.range(0,5),c!=REPEAT? r.range(0,99) : r.chance(0.98)? 0 : r.chance(0.97)? r.range(200,700) : r.range(65530,65800)); }
        plan_faults(r,p,{{{K_ALLOC,0.25,6,0.5},{K_CALL,0.08,2,0},{K_WRITEERR,0.12,8,0},{K_WRITETHROW,0.06,8,0}}},0.3);
    }
    void setup(Plan const& p) override {
        nt=std::min(NT,std::max(1,int(p.get("threads",1)))); out=new Sink(1,50,0); oldout=std::cout.rdbuf(out); renew(nullptr);
        if(nt>1) { err->maxpiece=1000000; err->per=per=new std::string[NT]; out->per=oper=new std::string[NT]; if(p.get("full",-1)>=0) err->capacity=size_t(p.get("full")); } }
    void renew(Op const* o) { std::cerr.clear(); Sink* n=new Sink(o? u64(o->a[2]):1,o? u32(o->a[1]):20,o? u32(o->a[0]):0); n->sync_throws=false; if(o && o->a[3]>=0) n->capacity=size_t(o->a[3]); std::streambuf* old=std::cerr.rdbuf(n); if(!olderr) olderr=old; delete err; err=n; expect.clear(); }
    std::string const& gerr() { return nt>1? per[self()] : err->got; } std::string const& gcout() { return nt>1? oper[self()] : out->got; }
    void check(int i, bool t, int tx, int where) {
        std::string const msgtext=text_of(tx);
        Site const& s=SITES[i]; nconds=nmsgs=ntexts=nnums=0; passed=false; truth=t; other= t? 1 : 5; throwing=fault_planned; { Lib l; Quiet q; passing_text=new std::string(msgtext); for(int k=0;k<2;++k) { bigs[k]=new Big(k? other : truth); if(!t) bigs[k]->s+=k?"right":"left"; } }
        std::string got=gerr(), gout=gcout(); u64 al=heap_allocs_here(), c0=fired_here(K_CALL); bool good=std::cerr.good(); std::string what; int kind=0; // 0 none 1 runtime_error 2 MyError 3 other
        try { run_in(where,s.f); } catch(MyError const& e) { set_lib(false); kind=2; what=e.what(); } catch(std::runtime_error const& e) { set_lib(false); kind=1; what=e.what(); } catch(std::exception const& e) { set_lib(false); kind=3; what=e.what(); } catch(Outer const&) { set_lib(false); fail("swallowed","%s replaced the exception that was on its way",s.name); }
        if(where) probe(where==1? "checked_while_unwinding" : "checked_in_handler");
        u64 allocs=heap_allocs_here()-al; bool callfault=fired_here(K_CALL)>c0; bool active=DEBUG || !s.debug; bool fails= s.kind==2 || (active && !t); bool fault=fired_in_op();
        if(gerr()!=got || gcout()!=gout) fail("wrote-output","%s (%s) wrote to standard output or error",s.name,t?"satisfied":"violated");
        if(std::cerr.good()!=good && nt==1) fail("wrote-output","%s changed the state of standard error",s.name);
        if(fails) {
            if(passed || kind==0) fail("not-raised","control passed the violated %s%s",s.name,fault?" (a failure was injected)":"");
            if(ntexts>1 || nnums>1) fail("evaluations","the message of the violated %s was evaluated more than once",s.name); if((s.kind==0 || s.kind==3) && (nconds>1 || (nconds==0 && !fault))) fail("evaluations","the condition of the violated %s was evaluated %llu times",s.name,(unsigned long long)nconds);
            probe("violated"); if(fault) probe("violated_with_failure");
            if(!fault) {
                if(s.kind==3? kind!=2 : kind!=1) fail("wrong-exception","%s raised the wrong exception: %s",s.name,what.c_str());
                std::string loc=__FILE__; if(s.line) { if(what.find(s.expr)==std::string::npos && s.kind!=1) fail("wrong-text","the text of %s lacks the expression: %s",s.name,what.c_str()); if(s.kind==1 && (what.find("lhs()")==std::string::npos || what.find("rhs()")==std::string::npos)) fail("wrong-text","the text of %s lacks the expressions: %s",s.name,what.c_str());
                    if(what.find(loc)==std::string::npos || what.find(":"+std::to_string(s.line))==std::string::npos) fail("wrong-text","the text of %s lacks the source location: %s",s.name,what.c_str()); }
                if(s.kind==3 && (what.find("s_throw")==std::string::npos || what.find("MyError")==std::string::npos)) fail("wrong-text","the text of %s lacks the exception or function: %s",s.name,what.c_str());
                if(s.msg && what.find(msgtext)==std::string::npos) fail("wrong-text","the text of %s lacks the message of %zu characters '%.60s': %s",s.name,msgtext.size(),msgtext.c_str(),what.c_str()); if(s.msg && tx>1000) probe("long_message");
                if(i==4 && what.find("v=4711")==std::string::npos) fail("wrong-text","the text of %s lacks part of the message: %s",s.name,what.c_str());
                if(s.kind==1 && s.f==s_assert_eq_str) { if(what.find("implementationleft")==std::string::npos || what.find("implementationright")==std::string::npos) fail("wrong-text","the text of %s lacks the values: %s",s.name,what.c_str()); }
                else if(s.kind==1 && what.find(t?"1 != 1":"0 != 5")==std::string::npos) fail("wrong-text","the text of %s lacks the values: %s",s.name,what.c_str());
            }
        } else {
            if(callfault) { if(kind==0) fail("swallowed","%s swallowed an exception out of its condition",s.name); }
            else { if(!passed || kind!=0) fail("false-alarm","the %s %s raised %s",active?"satisfied":"compiled-out",s.name,what.c_str());
                bool ownname= s.f==s_name1 || s.f==s_name2; u64 want= ownname? 1 : !active? 0 : s.kind==1? 2 : 1;
                if(nconds!=want) fail("evaluations","the condition of the %s %s was evaluated %llu times",active?"satisfied":"compiled-out",s.name,(unsigned long long)nconds);
                if(nmsgs) fail("evaluations","the message of the %s %s was evaluated",active?"satisfied":"compiled-out",s.name);
                if(allocs) fail("allocates","the %s %s allocated memory",active?"satisfied":"compiled-out",s.name);
                probe(active? "satisfied":"compiled_out"); }
        }
        { Lib l; Quiet q; delete passing_text; delete bigs[0]; delete bigs[1]; } passing_text=nullptr; bigs[0]=bigs[1]=nullptr; log(u64(kind)); log_str(what);
    }
    void warn(int w, int tx) {
        std::string t=text_of(tx); { Lib l; Quiet q; passing_text=new std::string(t); } bool good=std::cerr.good(); size_t before=err->got.size(); bool wasfailed=err->failed; u64 a0=fired_total(K_ALLOC);
        ntexts=0;
        Result r=attempt([&]{ switch(w) { case WK_WARN: { HELPER_WARN(wtext()) } break; case WK_ERROR: { HELPER_ERROR(wtext() << 7) } break; case WK_NOTIFY: { HELPER_NOTIFY("n " << wtext()) } break; case WK_ONCE0: warn_once<0>(); break; case WK_ONCE1: warn_once<1>(); break; case WK_ONCE2: warn_once<2>(); break; case WK_DEPR0: deprecated<0>(); break; case WK_DEPR1: deprecated<1>(); break; default: two_in_one(); break; } });
        if(ntexts>1) fail("evaluations","the message of a warning was evaluated %llu times",(unsigned long long)ntexts);
        bool once=w>=WK_ONCE0; std::string g=err->got.substr(before);
        if(fired_total(K_ALLOC)>a0) {     // a warning that needs memory may fail for want of it
            if(once && reached[w] && !unsure[w] && !g.empty()) fail("repeated","a once-only warning was repeated: %s",g.c_str());
            if(once && !reached[w]) unsure[w]=true; probe("warning_without_memory"); { Lib l; Quiet q; delete passing_text; } passing_text=nullptr; return; }
        if(!r.ok()) fail("became-failure","a warning raised %s",r.what.c_str());
        if(once && unsure[w]) { unsure[w]=false; reached[w]=true; { Lib l; Quiet q; delete passing_text; } passing_text=nullptr; return; }   // whether its first time was that one is open
        bool silent=once && reached[w]; reached[w]=true;
        if(silent) { if(ntexts) fail("evaluations","the message of a once-only warning was evaluated although it is not written"); if(!g.empty()) fail("repeated","a once-only warning was repeated: %s",g.c_str()); probe("once_only_silent"); }
        else if(good && !wasfailed && !err->failed) {
            const char* head[]={"WARNING","ERROR","NOTIFICATION","WARNING","WARNING","WARNING","DEPRECATED","DEPRECATED","WARNING"}; std::string body[]={t,t+"7","n "+t,"once 0 "+t,"once 1 "+t,"once 2 "+t,"old_function","old_function","first of two"};
            size_t lines=size_t(std::count(g.begin(),g.end(),'\n')); if(lines!=(w==WK_TWO?2:1) || g.back()!='\n') fail("wrong-line","a warning put '%s' on standard error",g.c_str());
            if(g.find(head[w])!=0 || g.find(body[w])==std::string::npos || (w>=WK_DEPR0 && w<=WK_DEPR1 && g.find("use the new one")==std::string::npos) || (w==WK_TWO && g.find("second of two")==std::string::npos)) fail("wrong-line","a warning put '%s' on standard error",g.c_str());
            if(!std::cerr.good()) fail("stream-bad","a warning left a healthy standard error bad"); probe("line_written"); if(once) probe("once_only_first");
        } else probe("stderr_failing");
        { Lib l; Quiet q; delete passing_text; } passing_text=nullptr;
    }
    //! A warning while other threads reach the same site.
    void warn_among_threads(int w, int tx) {
        if(w==WK_TWO) w=WK_ONCE2; bool once=w>=WK_ONCE0; std::string t=text_of(tx); { Lib l; Quiet q; passing_text=new std::string(t); } size_t before=gerr().size(); bool later=done[w]; ++inside[w]; ntexts=0;
        Result r=attempt([&]{ switch(w) { case WK_WARN: { HELPER_WARN(wtext()) } break; case WK_ERROR: { HELPER_ERROR(wtext() << 7) } break; case WK_NOTIFY: { HELPER_NOTIFY("n " << wtext()) } break; case WK_ONCE0: warn_once<0>(); break; case WK_ONCE1: warn_once<1>(); break; case WK_ONCE2: warn_once<2>(); break; case WK_DEPR0: deprecated<0>(); break; default: deprecated<1>(); break; } });
        { Lib l; Quiet q; delete passing_text; } passing_text=nullptr; std::string g=gerr().substr(before); --inside[w];     // from here on no other thread runs
        if(ntexts>1) fail("evaluations","the message of a warning was evaluated %llu times",(unsigned long long)ntexts);
        if(once && later && !unsure[w] && !g.empty()) fail("repeated","a once-only warning was repeated: %s",g.c_str());
        done[w]=true;
        if(fired_here(K_ALLOC)) { unsure[w]=true; probe("warning_without_memory"); return; }
        if(!r.ok()) fail("became-failure","a warning raised %s",r.what.c_str());
        if(g.empty()) { if(!err->failed && !once) fail("wrong-line","a warning put nothing on standard error"); if(!err->failed && once && !unsure[w] && !wrote[w] && !inside[w]) fail("wrong-line","no thread put a once-only warning on standard error"); if(once) probe("once_only_silent"); return; }
        if(once && !unsure[w]) { if(wrote[w]) fail("repeated","a once-only warning was written by two threads: %s",g.c_str()); if(inside[w]) probe("once_only_among_threads"); }
        wrote[w]=true; if(err->failed) return;
        const char* head[]={"WARNING","ERROR","NOTIFICATION","WARNING","WARNING","WARNING","DEPRECATED","DEPRECATED"}; std::string body[]={t,t+"7","n "+t,"once 0 "+t,"once 1 "+t,"once 2 "+t,"old_function","old_function"};
        if(std::count(g.begin(),g.end(),'\n')!=1 || g.back()!='\n' || g.find(head[w])!=0 || g.find(body[w])==std::string::npos) fail("wrong-line","a warning put '%s' on standard error",g.c_str());
        probe("warned_from_several_threads");
    }
    bool fault_planned=true;
    void exec(Op const& o) override {
        if(nt>1) { if(o.code==CHECK) check(int(u64(o.a[0])%NSITES),o.a[1]&1,int(u64(o.a[2])%80000),o.a[3]<70? 0 : o.a[3]<85? 1 : 2); else warn_among_threads(int(u64(o.a[0])%NW),int(u64(o.a[2])%80000)); for(int t=0;t<nt;++t) if(!oper[t].empty()) fail("wrote-output","something was written to standard output"); return; }
        switch(o.code) { case CHECK: check(int(u64(o.a[0])%NSITES),o.a[1]&1,int(u64(o.a[2])%80000),o.a[3]<70? 0 : o.a[3]<85? 1 : 2); break; case WARN: warn(int(u64(o.a[0])%NW),int(u64(o.a[2])%80000)); break; case NEWERR: renew(&o); break; case REPEAT: for(i64 i=0,n=3+o.a[3];i<n;++i) warn(int(u64(o.a[0])%NW),int(u64(o.a[2])%80000)); break; }
        if(!out->got.empty()) fail("wrote-output","something was written to standard output");
    }
    void finish() override {
        if(nt>1 && !err->failed) for(int w=WK_ONCE0;w<NW;++w) if(done[w] && !unsure[w] && !wrote[w]) fail("wrong-line","no thread put a once-only warning on standard error");
        std::cerr.clear(); std::cerr.rdbuf(olderr); std::cout.rdbuf(oldout); delete err; delete out; }
};
}
sim::Harness* sim::make_harness() { return new H(); }
