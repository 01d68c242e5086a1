// Every kind of callable and stack allocator, every way to create a context, every way to end it (C18):
// copies, moves, identity of the object invoked, order of destruction against function end and stack release.
#include "common.hpp"
#ifdef USE_CALLCC
#include <boost/context/continuation.hpp>
typedef boost::context::continuation Ctx;
#else
#include <boost/context/fiber.hpp>
typedef boost::context::fiber Ctx;
#endif
#include <boost/context/fixedsize_stack.hpp>
#include <boost/context/preallocated.hpp>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <vector>
namespace ctx = boost::context;
static unsigned long long n_cases, n_objects, n_checks; static HashSet distinct;
static const char * g_what = "";
static void NOINLINE bad( const char * rule, const char * fmt, ...) { char b[300]; va_list ap; va_start( ap, fmt); vsnprintf( b, sizeof b, fmt, ap); va_end( ap); oracle_fail( rule, "%s: %s", g_what, b); }
#define REQ(c, rule, ...) do { ++n_checks; if ( ! ( c)) bad( rule, __VA_ARGS__); } while (0)

// ---- life of instrumented objects (callable: kind 0, allocator: kind 1)
struct Life { int copies, moves, live, created, calls; const void * called_on; bool from_user; std::set< const void * > at; int last_destroyed; const void * freed_by; Life() { reset(); }
    void reset() { copies = moves = live = created = calls = 0; called_on = 0; at.clear(); last_destroyed = 0; freed_by = 0; } };
static Life L[2]; static int g_tick, t_function_end, t_release, releases; static bool g_fn_ended, g_inside;
static char * g_lo, * g_hi;                         // the stack in use
struct Tr {                                         // to be used as base or member
    int kind; unsigned token; const Tr * self;
    explicit Tr( int k) : kind( k), token( 0xBEEF), self( this) { born(); }
    Tr( Tr const& o) : kind( o.kind), token( o.token), self( this) { o.ok(); ++L[kind].copies; born(); }
    Tr( Tr && o) noexcept : kind( o.kind), token( o.token), self( this) { o.ok(); o.token = 0xDEAD; ++L[kind].moves; born(); }
    ~Tr() { ok(); REQ( L[kind].at.erase( this) == 1, "object-life", "%s destroyed that does not exist", kind ? "allocator" : "callable"); --L[kind].live; if ( inside()) L[kind].last_destroyed = ++g_tick; self = 0; }
    void ok() const { REQ( self == this, "object-life", "%s moved as bytes or used after its destruction", kind ? "allocator" : "callable"); }
    bool inside() const { return (char*) this >= g_lo && (char*) this < g_hi; }
    void born() { ++L[kind].live; ++L[kind].created; ++n_objects; L[kind].at.insert( this); }
    void call() { ok(); REQ( token == 0xBEEF, "object-moved-from", "a moved-from %s is used", kind ? "allocator" : "callable"); if ( ! kind) { ++L[0].calls; L[0].called_on = this; } }
private:
    Tr & operator=( Tr const&);
};
static Ctx run_body( Ctx && h) {
    struct E { ~E() { t_function_end = ++g_tick; g_fn_ended = true; } } e;
    g_inside = true; char * f = (char*) __builtin_frame_address( 0);
#if ! defined(BOOST_USE_WINFIB)   // Windows fibers have stacks of their own
    REQ( f >= g_lo && f < g_hi, "stack", "context-function not on its stack");
#else
    (void) f;
#endif
    h = std::move( h).resume(); return std::move( h);
}
// ---- stack allocators
static char mem[2][192 * 1024] __attribute__((aligned(4096)));
static int mem_used;
struct AllocBase : Tr {
    AllocBase() : Tr( 1) {}
    AllocBase( AllocBase const& o) : Tr( o) {}
    AllocBase( AllocBase && o) noexcept : Tr( std::move( o)) {}
    ctx::stack_context allocate() { call(); REQ( mem_used == 0, "release", "stack in use"); mem_used = 1; ctx::stack_context s; s.size = sizeof mem[0]; s.sp = mem[0] + sizeof mem[0]; g_lo = mem[0]; g_hi = mem[0] + sizeof mem[0]; return s; }
    void deallocate( ctx::stack_context & s) {
        call(); REQ( mem_used == 1 && s.sp == g_hi && s.size == sizeof mem[0], "release", "wrong stack released"); ++releases; t_release = ++g_tick; L[1].freed_by = this;
        REQ( ! inside(), "release-in-use", "the allocator still lives on the stack it releases"); char * f = (char*) __builtin_frame_address( 0); REQ( f < g_lo || f >= g_hi, "release-in-use", "released while running on it");
        for ( const void * p : L[0].at) REQ( (char*) p < g_lo || (char*) p >= g_hi, "release-early", "stack released before the callable is destroyed");
        for ( const void * p : L[1].at) REQ( (char*) p < g_lo || (char*) p >= g_hi, "release-early", "stack released before the stored allocator is destroyed");
        UNSHADOW( g_lo, sizeof mem[0]); memset( g_lo, 0xDD, sizeof mem[0]); mem_used = 0;
    }
};
struct NormalAlloc : AllocBase { };
struct FinalAlloc final : AllocBase { FinalAlloc() {} FinalAlloc( FinalAlloc const& o) : AllocBase( o) {} FinalAlloc( FinalAlloc && o) noexcept : AllocBase( std::move( o)) {} };
struct MoveOnlyAlloc : AllocBase { std::unique_ptr< int > p; MoveOnlyAlloc() : p( new int( 7)) {} MoveOnlyAlloc( MoveOnlyAlloc && o) noexcept : AllocBase( std::move( o)), p( std::move( o.p)) {}
    void deallocate( ctx::stack_context & s) { REQ( p && * p == 7, "object-moved-from", "state of a move-only allocator lost"); AllocBase::deallocate( s); } };
struct CopyOnlyAlloc : AllocBase { CopyOnlyAlloc() {} CopyOnlyAlloc( CopyOnlyAlloc const& o) : AllocBase( o) {} };
struct GreedyAlloc : AllocBase { GreedyAlloc() {} GreedyAlloc( GreedyAlloc const& o) : AllocBase( o) {} GreedyAlloc( GreedyAlloc & o) : AllocBase( o) {} GreedyAlloc( GreedyAlloc && o) noexcept : AllocBase( std::move( o)) {}
    GreedyAlloc * operator&() { oracle_fail( "address-of", "overloaded operator& of an allocator used"); } };
struct AlignedAlloc : AllocBase { char pad[50] __attribute__((aligned(64))); AlignedAlloc() { memset( pad, 3, sizeof pad); } AlignedAlloc( AlignedAlloc const& o) : AllocBase( o) { memcpy( pad, o.pad, sizeof pad); } AlignedAlloc( AlignedAlloc && o) noexcept : AllocBase( std::move( o)) { memcpy( pad, o.pad, sizeof pad); }
    void deallocate( ctx::stack_context & s) { REQ( (uintptr_t) this % 64 == 0 && pad[49] == 3, "align", "over-aligned allocator misplaced"); AllocBase::deallocate( s); } };
// ---- callables
struct F0 : Tr { F0() : Tr( 0) {} Ctx operator()( Ctx && h) { call(); return run_body( std::move( h)); } };
struct FConst : Tr { FConst() : Tr( 0) {} Ctx operator()( Ctx && h) const { const_cast< FConst * >( this)->call(); return run_body( std::move( h)); } };
struct FValue : Tr { FValue() : Tr( 0) {} Ctx operator()( Ctx h) { call(); return run_body( std::move( h)); } };
struct FTmpl : Tr { FTmpl() : Tr( 0) {} template< typename X > Ctx operator()( X && h) { static_assert( std::is_same< X, Ctx >::value, "argument is an rvalue handle"); call(); return run_body( std::move( h)); } };
struct FOver : Tr { FOver() : Tr( 0) {} Ctx operator()( Ctx && h) { call(); return run_body( std::move( h)); } Ctx operator()( Ctx &&) const { oracle_fail( "callable", "stored object invoked as const"); } };
struct FLref : Tr { FLref() : Tr( 0) {} Ctx operator()( Ctx && h) & { call(); return run_body( std::move( h)); } };
struct FMoveOnly : Tr { std::unique_ptr< int > p; FMoveOnly() : Tr( 0), p( new int( 5)) {} FMoveOnly( FMoveOnly && o) noexcept : Tr( std::move( o)), p( std::move( o.p)) {}
    Ctx operator()( Ctx && h) { call(); REQ( p && * p == 5, "object-moved-from", "state lost"); h = run_body( std::move( h)); REQ( * p == 5, "object-life", "state damaged"); return std::move( h); } };
struct FFinal final : Tr { const int c; int & r; static int x; FFinal() : Tr( 0), c( 9), r( x) {} FFinal( FFinal const& o) : Tr( o), c( o.c), r( o.r) {} FFinal( FFinal && o) noexcept : Tr( std::move( o)), c( o.c), r( o.r) {} Ctx operator()( Ctx && h) { call(); REQ( c == 9 && & r == & x, "callable", "members damaged"); return run_body( std::move( h)); } };
int FFinal::x;
struct FAligned : Tr { char d[100] __attribute__((aligned(128))); FAligned() : Tr( 0) { d[99] = 1; } Ctx operator()( Ctx && h) { call(); REQ( (uintptr_t) this % 128 == 0 && d[99] == 1, "align", "over-aligned callable at %p", (void*) this); return run_body( std::move( h)); } };
struct FBig : Tr { unsigned char d[20000]; FBig() : Tr( 0) { for ( size_t i = 0; i < sizeof d; ++i) d[i] = (unsigned char) i; } Ctx operator()( Ctx && h) { call(); h = run_body( std::move( h)); for ( size_t i = 0; i < sizeof d; ++i) REQ( d[i] == (unsigned char) i, "callable", "byte %zu damaged", i); return std::move( h); } };
struct FGreedy : Tr { FGreedy() : Tr( 0) {} FGreedy( FGreedy const& o) : Tr( o) {} FGreedy( FGreedy & o) : Tr( static_cast< Tr const& >( o)) {} FGreedy( FGreedy && o) noexcept : Tr( std::move( o)) {}
    template< typename X, typename = typename std::enable_if< ! std::is_base_of< FGreedy, typename std::decay< X >::type >::value >::type > FGreedy( X &&) : Tr( 0) { oracle_fail( "callable", "converted from something else"); }
    Ctx operator()( Ctx && h) { call(); return run_body( std::move( h)); }
    FGreedy * operator&() { oracle_fail( "address-of", "overloaded operator& of a callable used"); } template< typename X > friend void operator,( FGreedy &, X &&) { oracle_fail( "comma", "overloaded operator, used"); } };
struct FExplicit : Tr { FExplicit() : Tr( 0) {} explicit FExplicit( FExplicit const& o) : Tr( o) {} explicit FExplicit( FExplicit && o) : Tr( std::move( o)) {} Ctx operator()( Ctx && h) { call(); return run_body( std::move( h)); } };
struct FCopyOnly : Tr { FCopyOnly() : Tr( 0) {} FCopyOnly( FCopyOnly const& o) : Tr( o) {} Ctx operator()( Ctx && h) { call(); return run_body( std::move( h)); } };
struct Base2 { virtual ~Base2() {} virtual Ctx operator()( Ctx && h) = 0; int b2; };
struct FVirtual : Tr, Base2 { FVirtual() : Tr( 0) { b2 = 4; } Ctx operator()( Ctx && h) { call(); REQ( b2 == 4, "callable", "base damaged"); return run_body( std::move( h)); } };
struct FNoNew : Tr { FNoNew() : Tr( 0) {} static void * operator new( size_t) { oracle_fail( "callable", "operator new of the callable used"); } static void * operator new( size_t, void *) { oracle_fail( "callable", "operator new of the callable used"); } static void operator delete( void *) { oracle_fail( "callable", "operator delete of the callable used"); }
    Ctx operator()( Ctx && h) { call(); return run_body( std::move( h)); } };
struct FMut : Tr { int n; FMut() : Tr( 0), n( 0) {} ~FMut() { if ( inside() && L[0].calls) REQ( n == 2 || n == 1, "callable", "the object destroyed is not the one invoked (%d)", n); } FMut( FMut const& o) : Tr( o), n( o.n) {} FMut( FMut && o) noexcept : Tr( std::move( o)), n( o.n) {} Ctx operator()( Ctx && h) { call(); ++n; h = run_body( std::move( h)); ++n; return std::move( h); } };
static int plain_calls; static Ctx plain( Ctx && h) { ++plain_calls; return run_body( std::move( h)); }
static Ctx plain_val( Ctx h) { ++plain_calls; return run_body( std::move( h)); }
#if __cplusplus >= 201703L
static Ctx plain_noexcept( Ctx && h) noexcept(false) { ++plain_calls; return run_body( std::move( h)); }
#endif
struct Pl { Ctx operator()( Ctx && h) { ++plain_calls; return run_body( std::move( h)); } };
static Ctx three( Pl & f, int k, Ctx && h) { REQ( k == 42, "callable", "bound argument lost"); return f( std::move( h)); }
struct Obj { int v; Ctx run( Ctx && h) { ++plain_calls; REQ( v == 3, "callable", "bound object damaged"); return run_body( std::move( h)); } Ctx crun( Ctx && h) const { ++plain_calls; return run_body( std::move( h)); } };

enum End { RETURN, UNWIND, FRESH, ENDS };
static void finish( Ctx & c, int end) {
    REQ( static_cast< bool >( c), "handle-bool", "created handle is false");
#ifdef USE_CALLCC
    if ( end == RETURN) { c = std::move( c).resume(); REQ( ! c, "handle-bool", "context not finished"); } else c = Ctx();
#else
    if ( end == RETURN) { c = std::move( c).resume(); REQ( static_cast< bool >( c), "handle-bool", "context finished early"); c = std::move( c).resume(); REQ( ! c, "handle-bool", "context not finished"); }
    else if ( end == UNWIND) { c = std::move( c).resume(); c = Ctx(); }
    else c = Ctx();
#endif
    c = Ctx();
}
static void start( const char * w) { g_what = w; L[0].reset(); L[1].reset(); g_tick = t_function_end = t_release = releases = 0; g_fn_ended = g_inside = false; mem_used = 0; plain_calls = 0; g_lo = g_hi = 0; }
// how: 0 default stack, 1 allocator lvalue, 2 allocator rvalue, 3 preallocated + lvalue, 4 preallocated + rvalue
template< typename A, typename Fn > Ctx make( int how, A & a, Fn && fn) {
    ctx::stack_context s; ctx::preallocated pre( 0, 0, s);
    if ( how >= 3) { s = a.allocate(); pre = ctx::preallocated( (char*) s.sp - 100, s.size - 100, s); }
#ifdef USE_CALLCC
    switch ( how) { case 1: return ctx::callcc( std::allocator_arg, a, std::forward< Fn >( fn)); case 2: return ctx::callcc( std::allocator_arg, std::move( a), std::forward< Fn >( fn));
        case 3: return ctx::callcc( std::allocator_arg, pre, a, std::forward< Fn >( fn)); case 4: return ctx::callcc( std::allocator_arg, pre, std::move( a), std::forward< Fn >( fn)); }
#else
    switch ( how) { case 1: return Ctx( std::allocator_arg, a, std::forward< Fn >( fn)); case 2: return Ctx( std::allocator_arg, std::move( a), std::forward< Fn >( fn));
        case 3: return Ctx( std::allocator_arg, pre, a, std::forward< Fn >( fn)); case 4: return Ctx( std::allocator_arg, pre, std::move( a), std::forward< Fn >( fn)); }
#endif
    std::abort();
}
template< typename A, typename Fn > Ctx make_rvalue( int how, A & a, Fn && fn) {     // allocators that can not be copied
    ctx::stack_context s; ctx::preallocated pre( 0, 0, s);
    if ( how >= 3) { s = a.allocate(); pre = ctx::preallocated( (char*) s.sp - 100, s.size - 100, s); }
#ifdef USE_CALLCC
    return how == 2 ? ctx::callcc( std::allocator_arg, std::move( a), std::forward< Fn >( fn)) : ctx::callcc( std::allocator_arg, pre, std::move( a), std::forward< Fn >( fn));
#else
    return how == 2 ? Ctx( std::allocator_arg, std::move( a), std::forward< Fn >( fn)) : Ctx( std::allocator_arg, pre, std::move( a), std::forward< Fn >( fn));
#endif
}
static void judge( bool lvalue_fn, int how, int end, bool tracked, bool copy_only_fn, bool copy_only_alloc) {
    int want_calls = end == FRESH ? 0 : 1; ++n_cases;
    if ( tracked) {
        REQ( L[0].calls == want_calls, "callable-once", "invoked %d times, expected %d", L[0].calls, want_calls);
        REQ( copy_only_fn ? L[0].copies >= 1 : L[0].copies == ( lvalue_fn ? 1 : 0), "callable-copies", "%s callable copied %d times", lvalue_fn ? "lvalue" : "rvalue", L[0].copies);
        if ( copy_only_fn && lvalue_fn) REQ( L[0].copies == 1, "callable-copies", "lvalue copied %d times", L[0].copies);
        if ( want_calls) REQ( (char*) L[0].called_on >= g_lo && (char*) L[0].called_on < g_hi, "callable-stored", "invoked object is not the stored one");
        REQ( L[0].live == ( lvalue_fn ? 1 : L[0].live), "object-life", "%d callables alive", L[0].live);
    }
    if ( how >= 1) {
        REQ( releases == 1 && mem_used == 0, "release", "stack released %d times", releases);
        bool lv = how == 1 || how == 3;
        REQ( copy_only_alloc ? L[1].copies >= 1 : L[1].copies == ( lv ? 1 : 0), "allocator-copies", "%s allocator copied %d times", lv ? "lvalue" : "rvalue", L[1].copies);
        if ( tracked) {
            REQ( L[0].last_destroyed > 0, "object-life", "stored callable never destroyed");
            REQ( L[0].last_destroyed < t_release, "release-early", "callable destroyed after the release of the stack");
            if ( want_calls) REQ( t_function_end < L[0].last_destroyed, "callable-early", "callable destroyed before its function ended");
        }
        REQ( L[1].last_destroyed > 0 && L[1].last_destroyed < t_release, "release-early", "stored allocator destroyed after the release of the stack");
    }
    if ( want_calls) REQ( g_fn_ended && g_inside, "unwind", "function not ended");
    else REQ( ! g_inside, "control", "function executed");
}
template< typename F, bool Copyable > struct Cat;
template< typename F > struct Cat< F, true > { template< typename A, typename M > static void go( const char * w, int how, int end, M mk, bool coA, bool coF) {
    for ( int cat = 0; cat < 3; ++cat) {
        start( w);
        { A a; F f; if ( cat == 0) { Ctx c = mk( how, a, f); finish( c, end); f.ok(); REQ( f.token == 0xBEEF, "callable-lvalue", "the callable passed as lvalue was changed"); judge( true, how, end, true, coF, coA); }
          else if ( cat == 1) { const F & cf = f; Ctx c = mk( how, a, cf); finish( c, end); REQ( f.token == 0xBEEF, "callable-lvalue", "the callable passed as lvalue was changed"); judge( true, how, end, true, coF, coA); }
          else { Ctx c = mk( how, a, std::move( f)); finish( c, end); judge( false, how, end, true, coF, coA); }
          if ( how == 1 || how == 3) REQ( a.token == 0xBEEF, "allocator-lvalue", "the allocator passed as lvalue was changed"); }
        REQ( L[0].live == 0 && L[1].live == 0, "object-life", "%d callables and %d allocators left", L[0].live, L[1].live);
        distinct.add( mix( mix( mix( mix( 1, (uintptr_t) w), how), end), cat));
    } } };
template< typename F > struct Cat< F, false > { template< typename A, typename M > static void go( const char * w, int how, int end, M mk, bool coA, bool coF) {
    start( w); { A a; F f; Ctx c = mk( how, a, std::move( f)); finish( c, end); judge( false, how, end, true, coF, coA); } REQ( L[0].live == 0 && L[1].live == 0, "object-life", "%d callables and %d allocators left", L[0].live, L[1].live);
    distinct.add( mix( mix( mix( 2, (uintptr_t) w), how), end)); } };
struct Mk { template< typename A, typename F > Ctx operator()( int how, A & a, F && f) const { return make( how, a, std::forward< F >( f)); } };
struct MkR { template< typename A, typename F > Ctx operator()( int how, A & a, F && f) const { return make_rvalue( how, a, std::forward< F >( f)); } };
#ifdef USE_CALLCC
enum { END_N = FRESH };
#else
enum { END_N = ENDS };
#endif
template< typename F, bool Copyable > void kinds( const char * w, bool coF = false) {
    for ( int end = 0; end < END_N; ++end) for ( int how = 1; how <= 4; ++how) Cat< F, Copyable >::template go< NormalAlloc >( w, how, end, Mk(), false, coF);
}
template< typename A, bool Copyable > void allocs( const char * w, bool co = false) {
    for ( int end = 0; end < END_N; ++end) for ( int how = 1; how <= 4; ++how) if ( Copyable || how == 2 || how == 4) Cat< F0, true >::go< A >( w, how, end, typename std::conditional< Copyable, Mk, MkR >::type(), co, false);
}
// callables without instrumentation: only that they work (F is passed on exactly as given)
template< typename Fn > void simple( const char * w, Fn && fn) {
    for ( int end = 0; end < END_N; ++end) { start( w); { NormalAlloc a; typename std::conditional< std::is_lvalue_reference< Fn >::value, Fn, typename std::decay< Fn >::type >::type f( fn); Ctx c = make( 1, a, std::forward< Fn >( f)); finish( c, end); } judge( true, 1, end, false, false, false); REQ( plain_calls + L[0].calls == ( end == FRESH ? 0 : 1), "callable-once", "invoked %d times", plain_calls + L[0].calls); distinct.add( mix( mix( 3, (uintptr_t) w), end)); }
}
// the constructor that chooses the stack itself
template< typename Fn > Ctx make_default( Fn && fn) {
#ifdef USE_CALLCC
    return ctx::callcc( std::forward< Fn >( fn));
#else
    return Ctx( std::forward< Fn >( fn));
#endif
}
template< typename F, bool Copyable > struct Dflt { static void go( const char * w, int end) {
    start( w); g_lo = 0; g_hi = (char*) ~0ull;
    { F f; { Ctx c = make_default( std::move( f)); finish( c, end); } REQ( L[0].copies == 0, "callable-copies", "rvalue copied"); REQ( L[0].calls == ( end == FRESH ? 0 : 1), "callable-once", "invoked %d times", L[0].calls); } REQ( L[0].live == 0, "object-life", "%d callables left", L[0].live); ++n_cases; } };
template< typename F > void dflt( const char * w, bool copyable) {
    for ( int end = 0; end < END_N; ++end) Dflt< F, true >::go( w, end);
    (void) copyable;
}
template< typename F > void dflt_l( const char * w) {
    for ( int end = 0; end < END_N; ++end) { start( w); g_lo = 0; g_hi = (char*) ~0ull; { F f; { Ctx c = make_default( f); finish( c, end); } REQ( L[0].copies == 1, "callable-copies", "lvalue copied %d times", L[0].copies); REQ( L[0].calls == ( end == FRESH ? 0 : 1), "callable-once", "invoked %d times", L[0].calls); REQ( f.token == 0xBEEF, "callable-lvalue", "changed"); } REQ( L[0].live == 0, "object-life", "%d callables left", L[0].live); ++n_cases; }
}
int main( int argc, char ** argv) {
    uint64_t eps = arg_ull( argc, argv, "--episodes", 1); g_phase = "callables";
    for ( uint64_t e = 0; e < eps; ++e) {
        kinds< F0, true >( "function object"); kinds< FConst, true >( "const function object"); kinds< FValue, true >( "parameter by value"); kinds< FTmpl, true >( "templated call operator"); kinds< FOver, true >( "overloaded call operator");
        kinds< FLref, true >( "ref-qualified call operator"); kinds< FMoveOnly, false >( "move-only function object"); kinds< FFinal, true >( "final, const and reference members"); kinds< FAligned, true >( "over-aligned"); kinds< FBig, true >( "big");
        kinds< FGreedy, true >( "greedy constructor, overloaded & and ,"); kinds< FExplicit, true >( "explicit constructors"); kinds< FCopyOnly, true >( "copy only", true); kinds< FVirtual, true >( "virtual call operator");
        kinds< FNoNew, true >( "class specific operator new"); kinds< FMut, true >( "mutable state");
        allocs< NormalAlloc, true >( "allocator"); allocs< FinalAlloc, true >( "final allocator"); allocs< MoveOnlyAlloc, false >( "move-only allocator"); allocs< CopyOnlyAlloc, true >( "copy-only allocator", true); allocs< GreedyAlloc, true >( "allocator with overloaded operator&"); allocs< AlignedAlloc, true >( "over-aligned allocator");
        dflt< F0 >( "default stack", true); dflt< FMoveOnly >( "default stack, move-only", false); dflt< FBig >( "default stack, big", true); dflt_l< F0 >( "default stack, lvalue"); dflt_l< FOver >( "default stack, lvalue, overloaded");
        simple( "function", plain); simple( "function by value", plain_val); simple( "function pointer", & plain); { Ctx (*p)( Ctx &&) = plain; Ctx (* const cp)( Ctx &&) = plain; Ctx (& r)( Ctx &&) = plain; simple( "function pointer lvalue", p); simple( "const function pointer", cp); simple( "function reference", r); simple( "rvalue function pointer", std::move( p)); }
        { Obj o = { 3 }; using std::placeholders::_1;
          simple( "bind member", std::bind( & Obj::run, & o, _1)); simple( "bind const member", std::bind( & Obj::crun, & o, _1)); auto b = std::bind( & Obj::run, & o, _1); simple( "bind member lvalue", b); simple( "bind member, object by value", std::bind( & Obj::run, o, _1));
          Pl f; simple( "bind free function", std::bind( three, std::ref( f), 42, _1)); simple( "std::ref", std::ref( f)); auto rw = std::ref( f); simple( "std::ref lvalue", rw);
          simple( "std::function", std::function< Ctx( Ctx &&) >( plain)); std::function< Ctx( Ctx &&) > sf = [&o]( Ctx && h) { return o.run( std::move( h)); }; simple( "std::function lvalue", sf); const std::function< Ctx( Ctx &&) > csf = sf; simple( "const std::function", csf); }
        simple( "lambda", []( Ctx && h) { ++plain_calls; return run_body( std::move( h)); }); { int k = 4; auto l = [k]( Ctx && h) mutable -> Ctx { ++plain_calls; ++k; REQ( k == 5, "callable", "capture changed before the call"); return run_body( std::move( h)); }; simple( "mutable lambda", l); }
        simple( "captureless lambda as pointer", +[]( Ctx && h) -> Ctx { ++plain_calls; return run_body( std::move( h)); });
#if __cplusplus >= 201402L
        simple( "generic lambda", []( auto && h) { ++plain_calls; return run_body( std::move( h)); }); for ( int end = 0; end < END_N; ++end) { start( "lambda with a move-only capture"); { NormalAlloc a; auto u = std::unique_ptr< int >( new int( 8)); Ctx c = make( 1, a, [u = std::move( u)]( Ctx && h) mutable -> Ctx { ++plain_calls; REQ( u && * u == 8, "callable", "capture lost"); return run_body( std::move( h)); }); finish( c, end); } judge( true, 1, end, false, false, false); }
#endif
#if __cplusplus >= 201703L
        simple( "noexcept function", plain_noexcept); { auto f = []( Ctx && h) noexcept( false) -> Ctx { ++plain_calls; return run_body( std::move( h)); }; simple( "lambda", f); }
#endif
        static_assert( ! std::is_constructible< Ctx, Ctx & >::value && ! std::is_constructible< Ctx, Ctx const& >::value && ! std::is_copy_constructible< Ctx >::value && ! std::is_copy_assignable< Ctx >::value && std::is_nothrow_move_constructible< Ctx >::value && std::is_nothrow_move_assignable< Ctx >::value && std::is_nothrow_default_constructible< Ctx >::value, "handle properties");
    }
    stat( "creations", n_cases); stat( "distinct_creations", distinct.n); stat( "objects_tracked", n_objects); stat( "life_checks", n_checks);
    sample( "callables std=%ld cases=%llu distinct=%zu", (long) __cplusplus, n_cases, distinct.n);
    return 0;
}
