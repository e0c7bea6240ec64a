// C19: the checking macros of the test framework.
#include <iostream>
#include <string>
#include <cmath>
#include <vector>
#include "string.hpp"
#include "metaprogramming.hpp"
namespace Helper { template<> inline String class_name<int>() { return "int"; } template<> inline String class_name<long>() { return "long"; } }
using Helper::Same; using Helper::First; using Helper::class_name;
template<class T, class U> struct IsEquivalent { static const bool value=sizeof(T)==sizeof(U); };
#include "test.hpp"
#include "elem.hpp"
#include "streams.hpp"
using namespace sim;
namespace {
enum Mode { PASS, FAILS, THROWS_STD, THROWS_OTHER };
static int mode=PASS; static u64 evals=0, evals2=0; static u64 cases_run=0;
//! The value under check: 1 when the check shall pass, 2 when it shall fail; or an exception.
static void gate() { if(mode==THROWS_STD) throw std::logic_error("thrown by the expression"); if(mode==THROWS_OTHER) throw 42; }
static int val() { { Harn h; ++evals; } gate(); return mode==PASS? 1 : 2; }
static int one() { Harn h; ++evals2; return 1; }
static bool truth() { return val()==1; }
static double real() { return val()==1? 1.0009765625 : 7.5; }
static double close() { return val()==1? 1.0009765625 : 1.25; }         // wrong by less than one
static double edge() { return val()==1? 1.25 : 1.2500000000000002; }     // exactly the tolerance, and the least bit more
static double number() { return val()==1? 1 : std::nan(""); }
static float single() { return val()==1? 0.875f : 0.75f; }
static long large() { return val()==1? 2 : 1+(1L<<32); }
static unsigned natural() { return val()==1? 0u : 3u; }
struct V { int v; explicit operator bool() const { return v==1; } };
static V obj() { return V{val()}; }
static bool operator==(V const& a, V const& b) { return a.v==b.v; }
static bool operator<(V const& a, V const& b) { return a.v<b.v; } static bool operator!=(V const& a, V const& b) { return !(a==b); } static bool operator>(V const& a, V const& b) { return b<a; } static bool operator<=(V const& a, V const& b) { return !(b<a); } static bool operator>=(V const& a, V const& b) { return !(a<b); }
namespace user { struct Length { double mm; }; inline Length operator-(Length a, Length b) { return Length{a.mm-b.mm}; } inline Length abs(Length a) { return Length{a.mm<0? -a.mm : a.mm}; }
    inline Length operator-(Length a) { return Length{-a.mm}; } inline Length operator+(Length a, Length b) { return Length{a.mm+b.mm}; } inline bool operator<=(Length a, Length b) { return a.mm<=b.mm; } inline bool operator<(Length a, Length b) { return a.mm<b.mm; } inline bool operator>(Length a, Length b) { return a.mm>b.mm; } inline bool operator>=(Length a, Length b) { return a.mm>=b.mm; } inline bool operator==(Length a, Length b) { return a.mm==b.mm; } inline bool operator!=(Length a, Length b) { return a.mm!=b.mm; }
    inline std::ostream& operator<<(std::ostream& os, Length a) { return os << a.mm << "mm"; } }
static user::Length length() { return user::Length{val()==1? 0.75 : 0.5}; }
static std::ostream& operator<<(std::ostream& os, V const& a) { return os << "V" << a.v; }
struct GridTreeSubpaving { std::vector<int> c; struct ConstIterator { int const* p; int const& operator*() const { return *p; } ConstIterator operator++(int) { ConstIterator i(*this); ++p; return i; } bool operator!=(ConstIterator const& o) const { return p!=o.p; } };
    ConstIterator begin() const { return ConstIterator{c.data()}; } ConstIterator end() const { return ConstIterator{c.data()+c.size()}; } };
static int paved[3]={4,5,6}; static int* paving[3]={paved,paved+1,paved+2};
static bool same(int a, int b) { return a==b; }
static bool same(V const& a, V const& b) { return a.v==b.v; }
static bool is_one(int a) { return a==1; }
static bool equal_to(int a, int b) { return a==b; }
static void run() { val(); }
static void expect_runtime_error() { { Harn h; ++evals; } if(mode==PASS) throw std::runtime_error("expected"); if(mode==THROWS_STD) throw std::logic_error("wrong"); if(mode==THROWS_OTHER) throw 42; }
struct Special : std::runtime_error { int extra=5; Special() : std::runtime_error("expected, of a derived type") { } }; struct VerySpecial : Special { };
struct Virtual1 : virtual Special { }; struct Virtual2 : virtual Special { }; struct Diamond : Virtual1, Virtual2 { };
static void expect_derived() { { Harn h; ++evals; } if(mode==PASS) throw Special(); gate(); } static void expect_derived2() { { Harn h; ++evals; } if(mode==PASS) throw VerySpecial(); gate(); } static void expect_diamond() { { Harn h; ++evals; } if(mode==PASS) throw Diamond(); gate(); }
static void expect_general() { { Harn h; ++evals; } if(mode==PASS) throw std::out_of_range("expected"); if(mode==THROWS_STD) throw std::runtime_error("wrong"); if(mode==THROWS_OTHER) throw 42; }
static void expect_int() { { Harn h; ++evals; } if(mode==PASS) throw 7; if(mode==THROWS_STD) throw std::logic_error("wrong"); if(mode==THROWS_OTHER) throw "a text"; }
static void expect_any() { { Harn h; ++evals; } if(mode==PASS) throw std::runtime_error("expected"); gate(); }
// The first value is right when the check is to pass and wrong when it is to fail, all later ones are the opposite.
static int fickle_n=0;
static int fickle() { int v=val(); Harn h; return fickle_n++==0? v : 3-v; }
static int once() { Harn h; return fickle_n++==0; }
struct Odd { int v=5; Odd() { if(once()) val(); } static Odd make() { return Odd(); } };              // fails at most at its first making
static std::ostream& operator<<(std::ostream& os, Odd const& a) { return os << "Odd" << a.v; }
struct Unprintable { int v=6; };
static std::ostream& operator<<(std::ostream& os, Unprintable const& a) { val(); return os << "Un" << a.v; }
static bool reached=false;
struct Made { int v; Made() : v(3) { } Made(int x) : v(x) { } static Made make(int x) { return Made(x); } };
static std::ostream& operator<<(std::ostream& os, Made const& a) { return os << "Made" << a.v; }
// kinds: what happens in each mode
enum Kind19 { VALUE,      // fails count one; exceptions leave the check
              CATCHES,    // an exception out of it counts one, nothing else
              EXPECTS_RE, // passes with a runtime_error, everything else counts one
              EXPECTS_ANY,// passes with any exception, none counts one
              NOCOUNT,    // never counts; exceptions leave it
              ALWAYS,     // counts one in every mode
              NEVER };    // counts nothing in every mode
#define SITE(n,...) static void n() { __VA_ARGS__ Harn h; reached=true; }
SITE(t_assert,HELPER_TEST_ASSERT(truth()))
SITE(t_assert_obj,HELPER_TEST_ASSERT(obj()))
SITE(t_assert_int,HELPER_TEST_ASSERT(val()-2))
SITE(t_assert_named,HELPER_TEST_ASSERT([]{ bool result=truth(); return result; }()))
SITE(t_named_result,bool result=truth(); HELPER_TEST_ASSERT(result))
SITE(t_named_ok,bool ok=truth(); HELPER_TEST_EQUAL(ok,true))
SITE(t_named_ok2,bool ok=truth(); HELPER_TEST_EQUALS(ok,true))
SITE(t_check,HELPER_TEST_CHECK(val(),one()))
SITE(t_check_obj,HELPER_TEST_CHECK(obj(),V{1}))
SITE(t_check_warn,HELPER_TEST_CHECK_WARN(val(),one()))
SITE(t_same,HELPER_TEST_SAME(val(),one()))
SITE(t_same_as,HELPER_TEST_SAME_AS(obj(),V{1}))
SITE(t_equal,HELPER_TEST_EQUAL(val(),one()))
SITE(t_equal_obj,HELPER_TEST_EQUAL(obj(),V{1}))
SITE(t_equals,HELPER_TEST_EQUALS(val(),one()))
SITE(t_equals_obj,HELPER_TEST_EQUALS(obj(),V{1}))
SITE(t_not_equal,HELPER_TEST_NOT_EQUAL(val()+1,one()+2))
SITE(t_within,HELPER_TEST_WITHIN(real(),one(),1e-2))
SITE(t_within_expr,HELPER_TEST_WITHIN(real(),one()+1-1,1e-2))
SITE(t_within_neg,HELPER_TEST_WITHIN(one(),real(),1e-2))
SITE(t_within_close,HELPER_TEST_WITHIN(close(),one(),1e-2))
SITE(t_within_close_neg,HELPER_TEST_WITHIN(one(),close(),1e-2))
SITE(t_within_edge,HELPER_TEST_WITHIN(edge(),one(),0.25))
SITE(t_within_nan,HELPER_TEST_WITHIN(number(),one(),1e9))
SITE(t_within_float,HELPER_TEST_WITHIN(single(),float(one()),0.125f))
SITE(t_within_large,HELPER_TEST_WITHIN(large(),long(one()),10))
SITE(t_within_unsigned,HELPER_TEST_WITHIN(natural(),unsigned(one()),1))
SITE(t_within_user,HELPER_TEST_WITHIN(length(),user::Length{double(one())},user::Length{0.25}))
SITE(t_paving,GridTreeSubpaving g{{4,5,6}}; if(val()!=1) g.c[1]=9; HELPER_TEST_GRID_TREE_SUBPAVING_ITERATOR(paving,g,size_t(3)))
SITE(t_paving_short,GridTreeSubpaving g{{4,5,6}}; if(val()!=1) g.c.pop_back(); HELPER_TEST_GRID_TREE_SUBPAVING_ITERATOR(paving,g,size_t(3)))
SITE(t_paving_long,GridTreeSubpaving g{{4,5,6}}; if(val()!=1) g.c.push_back(7); HELPER_TEST_GRID_TREE_SUBPAVING_ITERATOR(paving,g,size_t(3)))
SITE(t_less,HELPER_TEST_LESS(val(),one()+1))
SITE(t_less_obj,HELPER_TEST_LESS(obj(),V{2}))
#define FICKLE(n,...) SITE(n,{ Harn h; fickle_n=0; } __VA_ARGS__)
FICKLE(t_f_assert,HELPER_TEST_ASSERT(fickle()==1))
FICKLE(t_f_check,HELPER_TEST_CHECK(fickle(),1))
FICKLE(t_f_check2,HELPER_TEST_CHECK(1,fickle()))
FICKLE(t_f_same,HELPER_TEST_SAME(fickle(),1))
FICKLE(t_f_same_as,HELPER_TEST_SAME_AS(fickle(),1))
FICKLE(t_f_equal,HELPER_TEST_EQUAL(fickle(),1))
FICKLE(t_f_equal2,HELPER_TEST_EQUAL(1,fickle()))
FICKLE(t_f_equals,HELPER_TEST_EQUALS(fickle(),1))
FICKLE(t_f_equals2,HELPER_TEST_EQUALS(1,fickle()))
FICKLE(t_f_not_equal,HELPER_TEST_NOT_EQUAL(fickle(),2))
FICKLE(t_f_not_equal2,HELPER_TEST_NOT_EQUAL(2,fickle()))
FICKLE(t_f_within,HELPER_TEST_WITHIN(double(fickle()),1.0,0.5))
FICKLE(t_f_within2,HELPER_TEST_WITHIN(1.0,double(fickle()),0.5))
FICKLE(t_f_less,HELPER_TEST_LESS(fickle(),2))
FICKLE(t_f_result,HELPER_TEST_RESULT_COMPARE(int,fickle(),==,1))
FICKLE(t_o_declare,HELPER_TEST_DECLARE(Odd,m) (void)m;)
FICKLE(t_o_named,HELPER_TEST_NAMED_CONSTRUCT(Odd,m,make()) (void)m;)
FICKLE(t_o_assign,HELPER_TEST_ASSIGN_CONSTRUCT(Odd,m,Odd::make()) (void)m;)
SITE(t_u_evaluate,HELPER_TEST_EVALUATE(Unprintable()))
SITE(t_u_assign,Unprintable x; HELPER_TEST_ASSIGN(x,Unprintable()))
SITE(t_unary,HELPER_TEST_UNARY_PREDICATE(is_one,val()))
SITE(t_binary,HELPER_TEST_BINARY_PREDICATE(equal_to,val(),one()))
SITE(t_compare_eq,HELPER_TEST_COMPARE(val(),==,one()))
SITE(t_compare_lt,HELPER_TEST_COMPARE(val(),<,one()+1))
SITE(t_compare_ne,HELPER_TEST_COMPARE(val(),!=,one()+1))
SITE(t_compare_le,HELPER_TEST_COMPARE(val(),<=,one()))
SITE(t_compare_expr,HELPER_TEST_COMPARE(val()|4,==,one()|4))
SITE(t_result_compare,HELPER_TEST_RESULT_COMPARE(double,val(),==,one()))
SITE(t_try,HELPER_TEST_TRY(run()))
SITE(t_try_decl,HELPER_TEST_TRY(int x=val(); (void)x))
SITE(t_evaluate,HELPER_TEST_EVALUATE(val()))
SITE(t_assign,int x=0; HELPER_TEST_ASSIGN(x,val()))
SITE(t_throws,HELPER_TEST_THROWS(expect_runtime_error(),std::runtime_error))
SITE(t_throws_derived,HELPER_TEST_THROWS(expect_derived(),std::runtime_error))
SITE(t_throws_derived2,HELPER_TEST_THROWS(expect_derived2(),Special))
SITE(t_throws_diamond,HELPER_TEST_THROWS(expect_diamond(),std::runtime_error))
SITE(t_throws_logic,HELPER_TEST_THROWS(expect_general(),std::logic_error))
SITE(t_throws_int,HELPER_TEST_THROWS(expect_int(),int))
SITE(t_fail,HELPER_TEST_FAIL(expect_any()))
SITE(t_execute,HELPER_TEST_EXECUTE(run()))
SITE(t_print,HELPER_TEST_PRINT(val()))
SITE(t_construct,HELPER_TEST_CONSTRUCT(Made,m,(val())))
SITE(t_construct_more,HELPER_TEST_CONSTRUCT(Made,m,(val()); HELPER_TEST_CHECK(m.v,1)))
SITE(t_declare,HELPER_TEST_DECLARE(Made,m) (void)m;)
SITE(t_default,HELPER_TEST_DEFAULT_CONSTRUCT(Made,m))
SITE(t_named,HELPER_TEST_NAMED_CONSTRUCT(Made,m,make(5)) (void)m;)
SITE(t_assign_construct,HELPER_TEST_ASSIGN_CONSTRUCT(Made,m,Made(6)) (void)m;)
SITE(t_static_true,HELPER_TEST_STATIC_ASSERT(std::is_same<int,int>))
SITE(t_static_false,HELPER_TEST_STATIC_ASSERT(std::is_same<int,long>))
SITE(t_concept_true,HELPER_TEST_CONCEPT(std::is_same_v<int,int>))
SITE(t_concept_false,HELPER_TEST_CONCEPT(std::is_same_v<int,long>))
SITE(t_type_true,HELPER_TEST_SAME_TYPE(int,int))
SITE(t_type_false,HELPER_TEST_SAME_TYPE(int,long))
SITE(t_equiv_true,HELPER_TEST_EQUIVALENT_TYPE(int,unsigned))
SITE(t_equiv_false,HELPER_TEST_EQUIVALENT_TYPE(int,char))
SITE(t_warn,HELPER_TEST_WARN("w " << 3))
SITE(t_notify,HELPER_TEST_NOTIFY("n " << 3))
SITE(t_title,HELPER_PRINT_TEST_CASE_TITLE("t " << 3))
SITE(t_comment,HELPER_PRINT_TEST_COMMENT("c " << 3))
SITE(t_clean,std::vector<V*> v{nullptr,nullptr}; v[0]=new V{1}; HELPER_CLEAN_TEST_VECTOR(v) if(v[0]) { Harn h; fail("not-cleaned","HELPER_CLEAN_TEST_VECTOR kept a pointer"); })
struct Site { const char* name; void (*f)(); int kind; int ev, ev2; };   // ev, ev2: evaluations of the two arguments when passing (-1: not judged)
static const Site SITES[]={
    {"ASSERT",t_assert,VALUE,1,0},{"ASSERT of an object",t_assert_obj,VALUE,1,0},{"ASSERT of an int",t_assert_int,ALWAYS+10,1,0},{"ASSERT of a lambda",t_assert_named,VALUE,1,0},{"ASSERT(result)",t_named_result,VALUE,1,0},{"EQUAL(ok,..)",t_named_ok,VALUE,1,0},{"EQUALS(ok,..)",t_named_ok2,VALUE,1,0},
    {"CHECK",t_check,VALUE,1,1},{"CHECK of an object",t_check_obj,VALUE,1,0},{"CHECK_WARN",t_check_warn,NOCOUNT,-1,-1},{"SAME",t_same,VALUE,1,1},{"SAME_AS",t_same_as,VALUE,1,0},{"EQUAL",t_equal,VALUE,1,1},{"EQUAL of objects",t_equal_obj,VALUE,1,0},{"EQUALS",t_equals,VALUE,1,1},{"EQUALS of objects",t_equals_obj,VALUE,1,0},{"NOT_EQUAL",t_not_equal,VALUE,1,1},
    {"WITHIN",t_within,VALUE,1,1},{"WITHIN of a sum",t_within_expr,VALUE,1,1},{"WITHIN, reversed",t_within_neg,VALUE,1,1},{"WITHIN, small error",t_within_close,VALUE,1,1},{"WITHIN, small negative error",t_within_close_neg,VALUE,1,1},{"WITHIN, error equal to the tolerance",t_within_edge,VALUE,1,1},{"WITHIN, not a number",t_within_nan,VALUE,1,1},{"WITHIN of float",t_within_float,VALUE,1,1},{"WITHIN of long",t_within_large,VALUE,1,1},{"WITHIN of unsigned",t_within_unsigned,VALUE,1,1},{"WITHIN of a user's type",t_within_user,VALUE,1,1},{"ITERATOR, wrong element",t_paving,VALUE,-1,-1},{"ITERATOR, too few",t_paving_short,VALUE,-1,-1},{"ITERATOR, too many",t_paving_long,VALUE,-1,-1},{"LESS",t_less,VALUE,1,1},{"LESS of objects",t_less_obj,VALUE,1,0},{"UNARY_PREDICATE",t_unary,VALUE,-1,-1},{"BINARY_PREDICATE",t_binary,VALUE,-1,-1},{"COMPARE ==",t_compare_eq,VALUE,-1,-1},{"COMPARE <",t_compare_lt,VALUE,-1,-1},{"COMPARE !=",t_compare_ne,VALUE,-1,-1},{"COMPARE <=",t_compare_le,VALUE,-1,-1},{"COMPARE of expressions",t_compare_expr,VALUE,-1,-1},{"RESULT_COMPARE",t_result_compare,VALUE,1,-1},
    {"ASSERT, values that change",t_f_assert,VALUE,1,0},{"CHECK, values that change",t_f_check,VALUE,1,0},{"CHECK, expected values that change",t_f_check2,VALUE,1,0},{"SAME, values that change",t_f_same,VALUE,1,0},{"SAME_AS, values that change",t_f_same_as,VALUE,1,0},
    {"EQUAL, values that change",t_f_equal,VALUE,1,0},{"EQUAL, second values that change",t_f_equal2,VALUE,1,0},{"EQUALS, values that change",t_f_equals,VALUE,1,0},{"EQUALS, expected values that change",t_f_equals2,VALUE,1,0},{"NOT_EQUAL, values that change",t_f_not_equal,VALUE,1,0},{"NOT_EQUAL, second values that change",t_f_not_equal2,VALUE,1,0},
    {"WITHIN, values that change",t_f_within,VALUE,1,0},{"WITHIN, expected values that change",t_f_within2,VALUE,1,0},{"LESS, values that change",t_f_less,VALUE,1,0},{"RESULT_COMPARE, values that change",t_f_result,VALUE,1,0},
    {"DECLARE, failing once",t_o_declare,CATCHES,-1,-1},{"NAMED_CONSTRUCT, failing once",t_o_named,CATCHES,-1,-1},{"ASSIGN_CONSTRUCT, failing once",t_o_assign,CATCHES,-1,-1},{"EVALUATE of an object whose output fails",t_u_evaluate,CATCHES,-1,-1},{"ASSIGN of an object whose output fails",t_u_assign,CATCHES,-1,-1},
    {"TRY",t_try,CATCHES,1,0},{"TRY of a declaration",t_try_decl,CATCHES,1,0},{"EVALUATE",t_evaluate,CATCHES,1,0},{"ASSIGN",t_assign,CATCHES,1,0},{"THROWS",t_throws,EXPECTS_RE,1,0},{"THROWS, a derived exception",t_throws_derived,EXPECTS_RE,1,0},{"THROWS, a derived exception (2)",t_throws_derived2,EXPECTS_RE,1,0},{"THROWS, virtual bases",t_throws_diamond,EXPECTS_RE,1,0},{"THROWS, a standard derived exception",t_throws_logic,EXPECTS_RE,1,0},{"THROWS of int",t_throws_int,EXPECTS_RE,1,0},{"FAIL",t_fail,EXPECTS_ANY,1,0},{"EXECUTE",t_execute,NOCOUNT,1,0},{"PRINT",t_print,NOCOUNT,-1,-1},{"CONSTRUCT",t_construct,NOCOUNT,1,0},{"CONSTRUCT and CHECK",t_construct_more,VALUE,1,0},
    {"DECLARE",t_declare,NEVER,0,0},{"DEFAULT_CONSTRUCT",t_default,NEVER,0,0},{"NAMED_CONSTRUCT",t_named,NEVER,0,0},{"ASSIGN_CONSTRUCT",t_assign_construct,NEVER,0,0},{"STATIC_ASSERT true",t_static_true,NEVER,0,0},{"STATIC_ASSERT false",t_static_false,ALWAYS,0,0},{"CONCEPT true",t_concept_true,NEVER,0,0},{"CONCEPT false",t_concept_false,ALWAYS,0,0},{"SAME_TYPE true",t_type_true,NEVER,0,0},{"SAME_TYPE false",t_type_false,ALWAYS,0,0},{"EQUIVALENT_TYPE true",t_equiv_true,NEVER,0,0},{"EQUIVALENT_TYPE false",t_equiv_false,ALWAYS,0,0},
    {"WARN",t_warn,NEVER,0,0},{"NOTIFY",t_notify,NEVER,0,0},{"TITLE",t_title,NEVER,0,0},{"COMMENT",t_comment,NEVER,0,0},{"CLEAN_TEST_VECTOR",t_clean,NEVER,0,0} };
static const int NSITES=sizeof SITES/sizeof*SITES;
static void expectation(Site const& s, int m, int& fails, bool& escapes) {
    fails=0; escapes=false; bool thr=m>=THROWS_STD; int k=s.kind;
    if(k==ALWAYS+10) { if(thr) escapes=true; else fails= m==FAILS; return; }     // val()-2: -1 when passing, 0 when failing
    switch(k) { case VALUE: if(thr) escapes=true; else fails= m==FAILS; break; case CATCHES: fails=thr; break; case EXPECTS_RE: fails= m!=PASS; break; case EXPECTS_ANY: fails= m==FAILS; break; case NOCOUNT: escapes=thr; break; case ALWAYS: fails=1; break; default: break; }
}
struct Step { int site, mode; };
static std::vector<Step>* steps=nullptr;    // of the current test case
static std::vector<std::vector<Step>>* cases=nullptr;
static u64 steps_run=0; static size_t ncase=0;
struct H : Harness {
    Sink* err=nullptr; Sink* out=nullptr; std::streambuf* olderr=nullptr; std::streambuf* oldout=nullptr;
    const char* property() const override { return CHECK_ID; }
    enum Code { CHECK, CALL, CLASS, SKIP, NEWERR, NEWOUT, PLAINCLASS, MANY, NCODES };
    //! A class whose test() makes its checks itself; an exception out of them leaves the class.
    struct PlainSuite { void test() { run_case(); } };
    std::vector<std::string> ignored_classes() const override { return {"leak"}; }    // not what this property is about
    std::vector<std::string> op_names() const override { return {"check","call_case","run_class","skip_case","new_stderr","new_stdout","run_plain_class","check_many"}; }
    static i64 pack(Rng& r) { return r.range(0,NSITES-1)*8+r.pick({0,0,0,0,1,1,2,3})+1; }
    void plan(Rng& r, Plan& p) override {
        int n=int(r.range(2,20)); for(u32 c : {NEWERR,NEWOUT}) p.add(0,c,r.pick({0,0,1,16}),r.range(1,60),r.range(0,999),r.chance(0.2)? r.range(0,200):-1);
        for(int i=0;i<n;++i) { u32 c=u32(r.pick({CHECK,CHECK,CHECK,CALL,CALL,CALL,CLASS,PLAINCLASS,SKIP,NEWERR,NEWOUT}));
            if(c==NEWERR||c==NEWOUT) p.add(0,c,r.pick({0,0,1,16}),r.range(1,60),r.range(0,999),r.chance(0.2)? r.range(0,200):-1);
            else { i64 a[4]; for(int k=0;k<4;++k) a[k]= k==0 || r.chance(0.6)? pack(r) : 0; p.add(0,c,a[0],a[1],a[2],a[3]); } }
        if(r.chance(0.01)) { p.add(0,MANY,pack(r),r.chance(0.04)? r.range(65530,65800) : r.chance(0.1)? r.range(700,6000) : r.range(200,700),0,0); p.add(0,CHECK,pack(r),0,0,0); }
        plan_faults(r,p,{{{K_WRITEERR,0.12,40,0},{K_WRITETHROW,0.1,40,0}}},0.4);
    }
    void setup(Plan const&) override { out=new Sink(1,50,0); oldout=std::cout.rdbuf(out); err=new Sink(1,50,0); err->sync_throws=false; olderr=std::cerr.rdbuf(err); steps=new std::vector<Step>(); HELPER_TEST_FAILURES=0; HELPER_TEST_SKIPPED=0; }
    static Sink* make(Op const& o) { Sink* n=new Sink(u64(o.a[2]),u32(o.a[1]),u32(o.a[0])); if(o.a[3]>=0) n->capacity=size_t(o.a[3]); return n; }
    //! The number of steps of a case that run, what they count, and whether an exception leaves it.
    static int model(std::vector<Step> const& v, bool& escapes, size_t& ran) { int f=0; escapes=false; ran=0; for(Step const& s : v) { int k; expectation(SITES[s.site],s.mode,k,escapes); ++ran; f+=k; if(escapes) break; } return f; }
    static void run_case() { { Harn h; ++cases_run; } for(size_t i=0;i<steps->size();++i) { Step s=(*steps)[i]; { Harn h; ++steps_run; mode=s.mode; } SITES[s.site].f(); } }
    struct Suite { std::vector<std::vector<Step>>* c; void one() { { Harn h; *steps=(*c)[ncase++]; } run_case(); } void test() { HELPER_TEST_CALL(one()); HELPER_TEST_CALL(one()); HELPER_TEST_SKIP(one()); HELPER_TEST_CALL(one()); HELPER_TEST_CALL(one()); } };
    std::string errtext() { return err->got+err->pending(); }
    static int error_lines(std::string const& s) { int n=0; for(size_t i=0;i<s.size();) { if(s.compare(i,6,"ERROR:")==0) ++n; size_t j=s.find('\n',i); if(j==std::string::npos) break; i=j+1; } return n; }
    void exec(Op const& o) override {
        if(o.code==NEWERR) { std::cerr.clear(); Sink* n=make(o); n->sync_throws=false; std::cerr.rdbuf(n); delete err; err=n; return; }
        if(o.code==NEWOUT) { std::cout.clear(); Sink* n=make(o); std::cout.rdbuf(n); delete out; out=n; return; }
        std::vector<Step> v; for(int k=0;k<(o.code==MANY?1:4);++k) if(o.a[k]>0) { i64 x=o.a[k]-1; v.push_back(Step{int(u64(x)/8%NSITES),int(u64(x)%4)}); }
        int before=HELPER_TEST_FAILURES, skipped=HELPER_TEST_SKIPPED; size_t mark=errtext().size(); bool good=std::cerr.good() && !err->failed, outgood=std::cout.good(); bool esc=false; size_t ran=0; int want=0; u64 wantcases=0; size_t wantsteps=0; bool left=false; int wantskip=0; int faillines=0;
        cases_run=0; steps_run=0; ncase=0; std::vector<std::vector<Step>> cs;
        switch(o.code) {
            case CHECK: { if(v.empty()) return; *steps=std::vector<Step>(v.begin(),v.begin()+1); Site const& s=SITES[v[0].site]; mode=v[0].mode; evals=evals2=0; reached=false; int k; expectation(s,mode,k,esc); want=k; wantsteps=0;
                bool passes= k==0 && !esc;
                try { Lib l; s.f(); } catch(std::exception const& e) { set_lib(false); left=true; } catch(int) { set_lib(false); left=true; }
                if(left!=esc) fail("wrong-exit",esc? "no exception left %s" : "an exception left %s",s.name);
                if(!esc && !reached) fail("wrong-exit","%s does not go on to the next statement",s.name);
                if(passes && s.ev>=0 && mode==PASS && evals!=u64(s.ev)) fail("evaluations","the passing %s evaluated its expression %llu times",s.name,(unsigned long long)evals);
                if(passes && s.ev2>=0 && mode==PASS && evals2!=u64(s.ev2)) fail("evaluations","the passing %s evaluated its expected value %llu times",s.name,(unsigned long long)evals2);
                probe(k? "check_failed" : esc? "check_left_by_exception" : "check_passed"); break; }
            case MANY: { Site const& s=SITES[v[0].site]; int k; expectation(s,v[0].mode,k,esc); i64 n=o.a[1]; mode=v[0].mode; want=int(n)*k; for(i64 i=0;i<n;++i) { try { Lib l; s.f(); } catch(...) { set_lib(false); } } wantsteps=0; if(k) probe("many_failures"); break; }
            case CALL: { *steps=v; want=model(v,esc,wantsteps); want+= esc; wantcases=1; if(esc) probe("case_threw");
                try { Lib l; HELPER_TEST_CALL(run_case()); } catch(std::exception const& e) { set_lib(false); left=true; } catch(int) { set_lib(false); left=true; }
                if(left) fail("wrong-exit","an exception out of a test case left HELPER_TEST_CALL"); break; }
            case CLASS: { for(int i=0;i<4;++i) { std::vector<Step> w; for(size_t k=0;k<v.size();++k) { Step s=v[(k+size_t(i))%v.size()]; if(i>=2) s.mode^=1; w.push_back(s); } bool e; size_t r1; want+=model(w,e,r1)+e; wantsteps+=r1; if(e && i<3) probe("case_after_throwing_case"); cs.push_back(w); }
                wantcases=4; wantskip=1; Suite su{&cs};
                try { Lib l; if(o.a[3]&1) { HELPER_TEST_CLASS(Suite,su) } else { HELPER_TEST_CLASS(A_class_with_a_name_too_long_to_be_stored_in_place,su) } } catch(std::exception const& e) { set_lib(false); left=true; } catch(int) { set_lib(false); left=true; }
                if(left) fail("wrong-exit","an exception left the test class"); break; }
            case PLAINCLASS: { *steps=v; want=model(v,esc,wantsteps); wantcases=1; PlainSuite ps; if(esc && want) probe("class_left_after_failures");
                try { Lib l; HELPER_TEST_CLASS(PlainSuite,ps) } catch(std::exception const& e) { set_lib(false); left=true; } catch(int) { set_lib(false); left=true; }
                if(left!=esc) fail("wrong-exit",esc? "no exception left the test class" : "an exception left the test class"); break; }
            case SKIP: { *steps=v; wantskip=1; Lib l; HELPER_TEST_SKIP(run_case()); break; }
        }
        if(HELPER_TEST_FAILURES-before!=want) fail("wrong-count","%d failures were counted, not %d (%s, mode %d)",HELPER_TEST_FAILURES-before,want,v.empty()?"-":SITES[v[0].site].name,v.empty()?0:v[0].mode);
        if(HELPER_TEST_SKIPPED-skipped!=wantskip) fail("wrong-count","%d cases were counted as skipped, not %d",HELPER_TEST_SKIPPED-skipped,wantskip);
        if(o.code!=CHECK && o.code!=MANY && (cases_run!=wantcases || steps_run!=wantsteps)) fail("wrong-cases","%llu cases and %llu checks ran, not %llu and %llu",(unsigned long long)cases_run,(unsigned long long)steps_run,(unsigned long long)wantcases,(unsigned long long)wantsteps);
        if(good && std::cerr.good() && !err->failed) {
            std::string t=errtext(); t=t.substr(std::min(mark,t.size())); int n=error_lines(t); faillines=want;
            if(faillines>0 && n<faillines) fail("no-error-line","%d failures put %d lines starting with ERROR: on standard error: %s",want,n,t.substr(0,300).c_str());
            if(faillines==0 && n>0) fail("error-line","passing checks put a line starting with ERROR: on standard error: %s",t.substr(0,300).c_str());
            if(!t.empty() && t.back()!='\n') fail("no-error-line","a check ended without ending its line on standard error"); probe("stderr_working"); if(!outgood || !std::cout.good()) probe("stdout_failing");
        } else probe("stderr_failing");
        log(u64(HELPER_TEST_FAILURES)); log(u64(HELPER_TEST_SKIPPED));
    }
    void finish() override { std::cerr.clear(); std::cout.clear(); std::cerr.rdbuf(olderr); std::cout.rdbuf(oldout); delete err; delete out; delete steps; { Lib l; std::string s; s.swap(HELPER_CURRENT_TESTING_CLASS); } }
};
}
sim::Harness* sim::make_harness() { return new H(); }
