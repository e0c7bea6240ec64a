// Element types whose construction, copying, assignment and comparison the simulator can make fail, and whose lifetime
// it tracks by address; and the helpers by which harnesses call the library.
#ifndef SIM_ELEM_HPP
#define SIM_ELEM_HPP

#include "simrt.hpp"
#include <new>
#include <memory>
#include <type_traits>
#include <utility>
#include <iostream>
#include <functional>
#include <algorithm>

namespace sim {
//! The object an expression refers to, or none if it gives a copy: a change of the code that gives copies must not keep a harness from compiling.
template<class A> std::remove_reference_t<A>* object_of(A&& a) { if constexpr(std::is_lvalue_reference_v<A>) return std::addressof(a); else return nullptr; }
template<class A, class B> void assign_to(A&& a, B&& b) { a=std::forward<B>(b); }

static const int MOVED = -777777;

//! PAD: extra bytes; a value is an int with a copy of it at the far end (detects partly copied elements).
template<int PAD, bool MOVABLE> struct ElemT {
    int v; unsigned char pad[PAD]; int w;
    SIM_NOINSTR ElemT() : v(0), w(~0) { elem_ctor(this,true); std::fill(pad,pad+PAD,(unsigned char)0); }
    SIM_NOINSTR ElemT(int x) : v(x), w(~x) { elem_ctor(this,true); std::fill(pad,pad+PAD,(unsigned char)x); }
    SIM_NOINSTR ElemT(ElemT const& o) : v(0), w(0) { elem_use(&o,"copy of"); elem_ctor(this,true); take(o); }
    SIM_NOINSTR ElemT(ElemT&& o) noexcept requires MOVABLE : v(0), w(0) { elem_use(&o,"move from"); elem_ctor(this,false); take(o); o.set(MOVED); }
    SIM_NOINSTR ~ElemT() { elem_dtor(this); v=-888888; w=1; }
    SIM_NOINSTR ElemT& operator=(ElemT const& o) { elem_assign(this,&o); take(o); return *this; }
    SIM_NOINSTR ElemT& operator=(ElemT&& o) noexcept requires MOVABLE { elem_use(this,"assignment to"); elem_use(&o,"move from"); if(this!=&o) { take(o); o.set(MOVED); } return *this; }
    SIM_NOINSTR int get() const { elem_use(this,"read of"); if(w!=~v) fail("torn-element","an element is only partly written"); return v; }
    SIM_NOINSTR void set(int x) { v=x; w=~x; }
    SIM_NOINSTR friend bool operator==(ElemT const& a, ElemT const& b) { elem_compare(&a,&b); return a.v==b.v; }
    SIM_NOINSTR friend bool operator!=(ElemT const& a, ElemT const& b) { elem_compare(&a,&b); return a.v!=b.v; }
    SIM_NOINSTR friend bool operator<(ElemT const& a, ElemT const& b) { elem_compare(&a,&b); return a.v<b.v; }
    SIM_NOINSTR friend bool operator>(ElemT const& a, ElemT const& b) { elem_compare(&a,&b); return a.v>b.v; }
    SIM_NOINSTR friend bool operator<=(ElemT const& a, ElemT const& b) { elem_compare(&a,&b); return a.v<=b.v; }
    SIM_NOINSTR friend bool operator>=(ElemT const& a, ElemT const& b) { elem_compare(&a,&b); return a.v>=b.v; }
    friend std::ostream& operator<<(std::ostream& os, ElemT const& a) { return os << a.v; }
    friend std::istream& operator>>(std::istream& is, ElemT& a) { int x; if(is >> x) { a.v=x; a.w=~x; } return is; }
  private:
    SIM_NOINSTR void take(ElemT const& o) { v=o.v; w=o.w; std::copy(o.pad,o.pad+PAD,pad); }
};
using Elem  = ElemT<4,true>;      // 12 bytes, nothrow move
using ElemC = ElemT<4,false>;     // copy only
using ElemL = ElemT<72,false>;    // large

enum Outcome { OK_, FAULT_, OTHER_ };
struct Result { Outcome o=OK_; std::string what; bool ok() const { return o==OK_; } bool faulted() const { return o==FAULT_; } };

//! Calls the library.  A simulated fault may come out only if one was injected in this operation.
template<class F> Result attempt(F f) {
    Result r;
    try { Lib l; f(); }
    catch(SimFault const& e) { set_lib(false); r.o=FAULT_; r.what=e.what(); }
    catch(std::bad_alloc const& e) { set_lib(false); r.o = fired_in_op()? FAULT_ : OTHER_; r.what="bad_alloc"; if(dynamic_cast<std::bad_array_new_length const*>(&e)) r.what="bad_array_new_length"; }
    catch(std::exception const& e) { set_lib(false); r.o=OTHER_; r.what=e.what(); }
    if(r.faulted() && !fired_in_op()) fail("unexpected-exception","a simulated failure surfaced in an operation without one: %s",r.what.c_str());
    log(0xA0+r.o);
    return r;
}
//! For operations in which only injected faults may fail.
template<class F> Result attempt_only_faults(F f) {
    Result r=attempt(f); if(r.o==OTHER_) fail("unexpected-exception","an operation that cannot fail threw: %s",r.what.c_str()); return r; }

} // namespace sim
#endif
