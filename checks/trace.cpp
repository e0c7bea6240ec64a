// C20: stack traces.  The services behind them (unwinder, symbol lookup, demangler, C allocator) are seams wrapped at link time.
#include <iostream>
#include <string>
#include <cstring>
#include <execinfo.h>
#include <dlfcn.h>
#include <cxxabi.h>
#include "stack_trace.hpp"
#include "elem.hpp"
#include "streams.hpp"
using namespace sim;
#ifdef ENABLE_STACK_TRACE
static const bool ENABLED=true;
#else
static const bool ENABLED=false;
#endif
extern "C" char* __real___cxa_demangle(const char*, char*, size_t*, int*);
namespace {
enum FrameKind { F_REAL, F_NAMED, F_PLAIN, F_UNNAMED, F_UNKNOWN, NFRAMEKINDS };   // how dladdr answers
static const int NT=4;
//! Of each thread.  0: the real unwinder, n>0: n-1 simulated frames
static int unwind_mode_[NT]; static u64 fseed_[NT]; static int last_frames_[NT]; static u64 calls_unwind_[NT];
#define unwind_mode unwind_mode_[self()]
#define fseed fseed_[self()]
#define last_frames last_frames_[self()]
#define calls_unwind calls_unwind_[self()]
static int frame_kind(void* a) { u64 v=u64(a); if(v>=0x700000000000ull && v<0x700000010000ull) { Rng r(fseed+v); u64 k=r.below(8); return k<3? F_NAMED : k<5? F_PLAIN : k<7? F_UNNAMED : F_UNKNOWN; } return F_REAL; }
static const int NNAMES=16;
//! Names of functions: short ones, and ones of hundreds or thousands of characters, as templates have.
static std::string mangled_name(int k) { static const char* m[]={"_ZN3One3twoEv","_Z7computei","_ZN4NodeIiE4nextERKS0_","_ZNSt6vectorIiE4sizeEv"}; if(k<8) return m[k&3]; int n= k<12? 60+k*20 : k<14? 1000*(k-11) : k==14? 255 : 4096; std::string id; for(int i=0;i<n;++i) id+=char('a'+(i*7+k)%26); return "_Z"+std::to_string(n)+id+"ii"; }
//! The platform's demangler refuses names of more than about a thousand characters: their own name stands in the trace.
static std::string demangled_name(int k) { std::string m=mangled_name(k); int st=-1; char* d=__real___cxa_demangle(m.c_str(),nullptr,nullptr,&st); std::string s= st==0 && d? d : m; free(d); return s; }
static std::string plain_name(int k) { static const char* m[]={"main","_start","clone3","qsort"}; if(k<10) return m[k&3]; std::string s="f"; for(int i=0;i<(k-9)*97;++i) s+=char('A'+(i*5+k)%26); return s; }
static std::string *MANGLED, *DEMANGLED, *PLAIN;
static void make_names() { MANGLED=new std::string[NNAMES]; DEMANGLED=new std::string[NNAMES]; PLAIN=new std::string[NNAMES]; for(int k=0;k<NNAMES;++k) { MANGLED[k]=mangled_name(k); DEMANGLED[k]=demangled_name(k); PLAIN[k]=plain_name(k); } }
static int which(void* a) { Rng r(fseed*31+u64(a)); return int(fseed%5==0 && r.chance(0.25)? 8+r.below(8) : r.below(4)); }
}
extern "C" {
int __real_backtrace(void**, int); char** __real_backtrace_symbols(void* const*, int); int __real_dladdr(const void*, Dl_info*); char* __real___cxa_demangle(const char*, char*, size_t*, int*);
void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t,size_t); void* __real_realloc(void*,size_t);
int __wrap_backtrace(void** f, int n) { Harn h; int k; ++calls_unwind; if(unwind_mode==0) k=__real_backtrace(f,n); else { k=unwind_mode-1; if(k>n) k=n; for(int i=0;i<k;++i) f[i]=(void*)(0x700000000000ull+u64(i)*16); } last_frames=k; return k; }
char** __wrap_backtrace_symbols(void* const* f, int n) {      // one block, as in the C library; fails only for lack of memory
    Harn h; size_t each=5000; char** r; { Lib l; r=(char**)c_malloc(size_t(n>0?n:1)*(sizeof(char*)+each)); } if(!r) { probe("symbols_failed"); return nullptr; }
    for(int i=0;i<n;++i) { r[i]=(char*)(r+n)+size_t(i)*each; if(frame_kind(f[i])==F_NAMED) snprintf(r[i],each,"./prog(%s+0x%x) [%p]",MANGLED[which(f[i])].c_str(),i,f[i]); else snprintf(r[i],each,"./prog() [%p]",f[i]); } return r; }
int __wrap_dladdr(const void* a, Dl_info* i) { Harn h; if(inject(K_NOSYM)) { probe("lookup_failed"); return 0; }
    int k=frame_kind(const_cast<void*>(a)); if(k==F_REAL) return __real_dladdr(a,i);
    if(k==F_UNKNOWN) return 0; i->dli_fname="./prog"; i->dli_fbase=(void*)0x700000000000ull; i->dli_saddr=const_cast<void*>(a); i->dli_sname= k==F_NAMED? MANGLED[which(const_cast<void*>(a))].c_str() : k==F_PLAIN? PLAIN[which(const_cast<void*>(a))].c_str() : nullptr; if(k==F_UNNAMED) { i->dli_saddr=nullptr; probe("frame_without_name"); } return 1; }
char* __wrap___cxa_demangle(const char* m, char* buf, size_t* len, int* status) {
    Harn h; if(!m) fail("null-name","a null name is demangled");   // the C++ ABI reports this as an invalid argument; the C library's dumps core on some platforms
    int st=0; char* r=__real___cxa_demangle(m,nullptr,nullptr,&st); char* out=nullptr;
    if(st==0) { size_t n=strlen(r)+1; if(buf && len && *len>=n) out=buf; else { { Lib l; if(buf) c_free(buf); out=(char*)c_malloc(n); } if(len) *len=n; } if(!out) { st=-1; probe("demangling_failed"); } else memcpy(out,r,n); free(r); }
    if(status) *status=st; return out; }
void* __wrap_malloc(size_t n) { if(in_lib()) return c_malloc(n); return __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { if(in_lib()) { void* p=c_malloc(a*b); if(p) memset(p,0,a*b); return p; } return __real_calloc(a,b); }
void* __wrap_realloc(void* p, size_t n) { if(in_lib() || heap_contains(p)) { bool l=set_lib(true); void* q=c_malloc(n); if(q && p) { for(size_t i=0;i<n;++i) ((volatile char*)q)[i]=((volatile char*)p)[i]; c_free(p); } set_lib(l); return q; } return __real_realloc(p,n); }
void __wrap_free(void* p) { if(heap_contains(p)) c_free(p); else __real_free(p); }
}
namespace {
static int deep(int n) { volatile char pad[64]; pad[0]=char(n); if(n<=0) { Lib l; Helper::stack_trace(); return 0; } int r=deep(n-1); return r+pad[0]-char(n)+1; }
struct InCtor { InCtor() { Helper::stack_trace(); } };
struct InDtor { ~InDtor() { Helper::stack_trace(); } };
struct H : Harness {
    Sink* err=nullptr; Sink* out=nullptr; int nt=1; std::string* per=nullptr; i64 kept=0; std::streambuf* olderr=nullptr; std::streambuf* oldout=nullptr;
    enum Code { TRACE, REPEAT, UNWINDING, NEWERR, NCODES };
    const char* property() const override { return CHECK_ID; }
    std::vector<std::string> op_names() const override { return {"trace","trace_repeatedly","trace_in_handlers","new_stderr"}; }
    void warmup() override { make_names(); void* f[4]; __real_backtrace(f,4); int st; free(abi::__cxa_demangle("_Z1fv",nullptr,nullptr,&st)); }
    void plan(Rng& r, Plan& p) override {
        if(r.chance(0.35)) {      // several threads at once, on one device
            nt=int(r.range(2,NT)); p.cfg["threads"]=nt; p.cfg["first"]=r.range(0,nt-1); p.cfg["full"]=r.chance(0.1)? r.range(0,2000) : -1; int n=int(r.range(2,7))*nt/2;
            for(int i=0;i<n;++i) p.add(u32(r.below(u64(nt))),u32(r.pick({TRACE,TRACE,UNWINDING})),r.chance(0.7)? r.pick({0,1,2,5,12,40,128})+1 : 0,r.range(0,9999),r.range(0,12),r.range(1,3));
            plan_schedule(r,p,nt,0.7,600);
            plan_faults(r,p,{{{K_ALLOC,0.1,3,0.5},{K_MALLOC,0.2,20,0.4},{K_NOSYM,0.2,20,0},{K_WRITEERR,0.02,60,0}}},0.4);
            return; }
        int n=int(r.range(2,14)); p.add(0,NEWERR,r.pick({0,0,1,16}),r.range(1,60),r.range(0,999),r.chance(0.15)? r.range(0,400):-1);
        for(int i=0;i<n;++i) { u32 c=u32(r.pick({TRACE,TRACE,TRACE,REPEAT,UNWINDING,NEWERR})); if(c==NEWERR) p.add(0,c,r.pick({0,0,1,16}),r.range(1,60),r.range(0,999),r.chance(0.15)? r.range(0,400):-1);
            else p.add(0,c,r.chance(0.6)? r.pick({0,1,2,5,127,128,129,300})+1 : 0,r.range(0,9999),r.chance(0.2)? r.range(100,400) : r.range(0,20),r.range(1,4)); }
        plan_faults(r,p,{{{K_ALLOC,0.1,3,0.5},{K_MALLOC,0.3,40,0.4},{K_NOSYM,0.2,20,0},{K_WRITEERR,0.1,60,0},{K_WRITETHROW,0.06,60,0}}},0.25);
    }
    void setup(Plan const& p) override {
        nt=std::min(NT,std::max(1,int(p.get("threads",1)))); for(int t=0;t<NT;++t) { unwind_mode_[t]=0; fseed_[t]=1; last_frames_[t]=-1; calls_unwind_[t]=0; }
        out=new Sink(1,50,0); oldout=std::cout.rdbuf(out); renew(nullptr); if(nt>1) { per=new std::string[NT]; out->per=new std::string[NT]; err->per=per; if(p.get("full",-1)>=0) err->capacity=size_t(p.get("full")); } }
    void renew(Op const* o) { std::cerr.clear(); std::cerr.flags(std::ios::dec|std::ios::skipws|std::ios::unitbuf);   // a device that throws while a number is printed leaves the C++ library in hexadecimal
        Sink* n=new Sink(o? u64(o->a[2]):1,o? u32(o->a[1]):nt>1? 100000:20,o? u32(o->a[0]):0); n->sync_throws=false; if(o && o->a[3]>=0) n->capacity=size_t(o->a[3]); std::streambuf* old=std::cerr.rdbuf(n); if(!olderr) olderr=old; delete err; err=n; }
    std::string text() { return nt>1? per[self()] : err->got+err->pending(); }
    void one(Op const& o, int how) {
        unwind_mode=int(o.a[0]); fseed=u64(o.a[1]); last_frames=-1; calls_unwind=0; u64 nosym=fired_total(K_NOSYM), nomem=fired_total(K_MALLOC)+fired_total(K_ALLOC);
        bool good=std::cerr.good(), wasfailed=err->failed; size_t mark=text().size(); u64 live=heap_live_blocks(); int depth=int(o.a[2]); bool threw=false; std::string w;
        std::ios_base::fmtflags fl=std::cerr.flags();
        try { switch(how) { case 0: deep(depth); break; case 1: { Lib l; InCtor c; } break; case 2: { Lib l; InDtor d; } break; default: try { Lib l; InDtor d; throw 7; } catch(int) { set_lib(false); } break; } }
        catch(std::exception const& e) { set_lib(false); threw=true; w=e.what(); } catch(...) { set_lib(false); threw=true; w="?"; }
        if(threw) fail("threw","stack_trace raised %s",w.c_str());
        // a block or two that are made once and used again, such as a buffer or an object with static storage, are no leak
        if(nt==1) { kept+=i64(heap_live_blocks()-live); if(kept>2) fail("leak","stack_trace leaves %lld block(s) unreleased, %lld in this run",(long long)(heap_live_blocks()-live),(long long)kept); }
        if(!out->got.empty()) fail("wrong-stream","stack_trace wrote to standard output");
        std::string t=text(); t=t.substr(std::min(mark,t.size()));
        if(!ENABLED) { if(!t.empty()) fail("wrote-when-disabled","the empty stack_trace wrote '%s'",t.substr(0,100).c_str()); if(calls_unwind) fail("wrote-when-disabled","the empty stack_trace walks the stack"); probe("disabled"); }
        if(good && !wasfailed && !err->failed) {
            if(!std::cerr.good()) fail("stream-bad","stack_trace left a healthy standard error unable to print");
            if(std::cerr.flags()!=fl) fail("stream-bad","stack_trace changed the format of standard error");
            if(ENABLED) {
                long lines=long(std::count(t.begin(),t.end(),'\n'));
                if(!t.empty() && t.back()!='\n') fail("wrong-lines","the trace does not end its last line");
                bool nofault= nomem==fired_total(K_MALLOC)+fired_total(K_ALLOC);
                if(last_frames>=0 && nofault) { if(lines!=last_frames) fail("wrong-lines","%d frames put %ld lines on standard error",last_frames,lines); probe("one_line_per_frame"); if(nt>1) probe("traced_from_several_threads"); if(last_frames>=128) probe("deeper_than_the_limit"); }
                if(last_frames>=0 && nofault && nosym==fired_total(K_NOSYM) && unwind_mode>0) {
                    size_t pos=0; for(int i=0;i<last_frames;++i) { size_t e=t.find('\n',pos); std::string line=t.substr(pos,e-pos); pos=e+1; void* a=(void*)(0x700000000000ull+u64(i)*16); int k=frame_kind(a);
                        if(line.empty()) fail("wrong-lines","the line of frame %d is empty",i);
                        if(k==F_NAMED && line.find(DEMANGLED[which(a)])==std::string::npos) fail("wrong-name","the line of frame %d does not name its function %s: %s",i,DEMANGLED[which(a)].c_str(),line.c_str());
                        if(k==F_PLAIN && line.find(PLAIN[which(a)])==std::string::npos) fail("wrong-name","the line of frame %d does not name its function %s: %s",i,PLAIN[which(a)].c_str(),line.c_str()); }
                    probe("names_checked"); }
                if(!nofault) probe("trace_without_memory");
            }
            std::cerr << "next" << 17; if(!err->failed) { std::cerr.flush(); std::string n=text(); if(n.size()<6 || n.substr(n.size()-6)!="next17") { if(!err->failed) fail("stream-bad","after a trace the program's next output did not arrive: '%s'",n.substr(n.size()>40?n.size()-40:0).c_str()); } std::cerr << '\n'; }
        } else probe("stderr_failing");
        log(u64(std::count(t.begin(),t.end(),'\n')));
    }
    void exec(Op const& o) override {
        if(o.code==NEWERR) { renew(&o); return; }
        if(o.code==TRACE) one(o,0); else if(o.code==REPEAT) { for(int i=0;i<int(o.a[3]);++i) one(o,0); } else one(o,int(o.a[3]));
    }
    void finish() override { std::cerr.clear(); std::cerr.rdbuf(olderr); std::cout.rdbuf(oldout); delete err; delete out; }
};
}
sim::Harness* sim::make_harness() { return new H(); }
