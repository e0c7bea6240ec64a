// Simulated devices behind std::istream and std::ostream.
#ifndef SIM_STREAMS_HPP
#define SIM_STREAMS_HPP

#include "simrt.hpp"
#include <streambuf>
#include <string>
#include <cstring>
#include <memory>

namespace sim {

//! Input device: delivers the text in pieces (sizes from a small generator fixed by the plan), may end early or fail.
struct Source : std::streambuf {
    std::string text; size_t next=0; Rng pieces; u32 maxpiece; char win[256]; bool err=false, eof=false; size_t limit; bool seekable_putback;
    SIM_NOINSTR Source(std::string t, u64 pseed, u32 maxp) : text(std::move(t)), pieces(pseed), maxpiece(maxp<1?1:maxp>200?200:maxp), limit(text.size()), seekable_putback(false) { setg(win,win,win); }
    SIM_NOINSTR int_type underflow() override {
        Harn h;
        if(gptr()<egptr()) return traits_type::to_int_type(*gptr());
        if(eof) return traits_type::eof();
        bool fe=inject(K_EOF), fr=inject(K_READERR);
        if(fr) { err=true; eof=true; probe("read_error_hit"); throw_io(h); }
        if(fe && next<limit) { eof=true; limit=next; probe("truncated_input_hit"); }
        if(next>=limit) { eof=true; return traits_type::eof(); }
        size_t n=1+pieces.below(maxpiece); if(n>limit-next) n=limit-next;
        char keep= next? text[next-1] : 0;
        win[0]=keep; memcpy(win+1,text.data()+next,n); next+=n;
        setg(next>n? win : win+1,win+1,win+1+n);
        yield();
        return traits_type::to_int_type(*gptr());
    }
    SIM_NOINSTR void throw_io(Harn& h) { set_lib(h.p); throw SimFault("simulated read error"); }
    //! Position of the next unread character.
    SIM_NOINSTR size_t consumed() const { return next-size_t(egptr()-gptr()); }
};

//! Output device: accepts bytes in pieces, may accept only part (short write), throw, or be full from a byte on.
//! A transient device fails once and accepts what comes later (so that writing on after a failure shows).
struct Sink : std::streambuf {
    std::string got; size_t capacity=size_t(-1); Rng pieces; u32 maxpiece; bool failed=false; bool sync_throws=true; char buf[64]; u32 bufsize; bool threw=false; bool transient=false; std::string* per=nullptr;   // per: what each thread wrote, kept apart; such a device is not a scheduling point, as the standard streams are taken to be atomic
    SIM_NOINSTR Sink(u64 pseed, u32 maxp, u32 bs) : pieces(pseed), maxpiece(maxp<1?1:maxp), bufsize(bs>64?64:bs) { if(bufsize) setp(buf,buf+bufsize); }
    SIM_NOINSTR std::string pending() const { return pptr()? std::string(pbase(),pptr()) : std::string(); }
    SIM_NOINSTR size_t deliver(const char* s, size_t n) {     // device write: returns the number of bytes accepted
        size_t done=0; bool now=false;
        while(done<n) {
            if(now || (failed && !transient)) return done;
            i64 a=0;
            size_t k=1+pieces.below(maxpiece); if(k>n-done) k=n-done;
            if(inject(K_WRITEERR,&a)) { failed=now=true; k= size_t(a)<k? size_t(a):k; probe("short_write_hit"); }
            if(inject(K_WRITETHROW)) { failed=now=true; threw=true; probe("write_throw_hit"); got.append(s+done,k/2); if(per) per[self()].append(s+done,k/2); return size_t(-1); }
            if(got.size()+k>capacity) { k=capacity-got.size(); failed=now=true; if(transient) capacity=size_t(-1); probe("device_full_hit"); }
            got.append(s+done,k); if(per) per[self()].append(s+done,k); done+=k; if(!per) yield();
        }
        return done;
    }
    SIM_NOINSTR bool flush_buf(bool& thr) { thr=false; if(!bufsize) return true; size_t n=size_t(pptr()-pbase()); if(n==0) return true; size_t d=deliver(pbase(),n); setp(buf,buf+bufsize); if(d==size_t(-1)) { thr=true; return false; } return d==n; }
    SIM_NOINSTR int_type overflow(int_type c) override {
        Harn h; bool thr=false; bool ok=flush_buf(thr);
        if(ok && !traits_type::eq_int_type(c,traits_type::eof())) { char ch=traits_type::to_char_type(c);
            if(bufsize) { *pptr()=ch; pbump(1); }
            else { size_t d=deliver(&ch,1); if(d==size_t(-1)) thr=true; ok=(d==1); } }
        if(thr) { set_lib(h.p); throw SimFault("simulated write error"); }
        return ok? traits_type::not_eof(c) : traits_type::eof();
    }
    SIM_NOINSTR std::streamsize xsputn(const char* s, std::streamsize n) override {
        bool thr=false; std::streamsize r=0;
        { Harn h;
          if(!bufsize) { size_t d=deliver(s,size_t(n)); if(d==size_t(-1)) thr=true; else r=std::streamsize(d); }
          else { r=n; for(std::streamsize i=0;i<n && !thr;++i) { if(pptr()==epptr()) { bool ok=flush_buf(thr); if(!ok) { r=i; break; } } if(!thr) { *pptr()=s[i]; pbump(1); } } } }
        if(thr) throw SimFault("simulated write error");
        return r;
    }
    SIM_NOINSTR int sync() override { bool thr=false; bool ok; { Harn h; ok=flush_buf(thr); } if(thr && sync_throws) throw SimFault("simulated write error"); return ok?0:-1; }
};

} // namespace sim
#endif
