// Directed lifecycle programs (C04-C07), complementing the random machine:
//   chain     long termination chains, deep nests of contexts owning contexts, handles in containers
//   unwind    unwinding at an arbitrary suspension point compared with a plain exception thrown at the same point of the same code on one stack
//   ontop     every kind of function object passed to resume_with()
//   statics   handles of static / thread storage duration, exit() (each in a forked child)
#include "common.hpp"
#ifdef USE_CALLCC
#include <boost/context/continuation.hpp>
typedef boost::context::continuation Ctx;
#else
#include <boost/context/fiber.hpp>
typedef boost::context::fiber Ctx;
#endif
#include <boost/context/fixedsize_stack.hpp>
#include <boost/context/protected_fixedsize_stack.hpp>
#include <algorithm>
#include <array>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <boost/context/preallocated.hpp>
#include <cerrno>
#include <set>
#include <system_error>
#include <ucontext.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <thread>
#include <tuple>
#include <type_traits>
#include <vector>
namespace ctx = boost::context;
static Rng R( 1);
static unsigned long long n_chain, n_unwind, n_ontop, n_static, n_handles, n_events; static HashSet cov;
#if defined(VERIF_ASAN) || defined(VERIF_TSAN)
enum { SZ = 128 * 1024 };
#else
enum { SZ = 64 * 1024 };
#endif
// ------------------------------------------------------------ an allocator that counts
struct Ledger { long live, total, dbl; std::set< void *> on; Ledger() : live( 0), total( 0), dbl( 0) {} };
static Ledger L;
struct Stk {
    ctx::stack_context allocate() {
        ctx::stack_context s; char * p = (char*) malloc( SZ); s.size = SZ; s.sp = p + SZ; ++L.live; ++L.total;
        REQUIRE( L.on.insert( s.sp).second, "stack", "stack handed out twice"); return s;
    }
    void deallocate( ctx::stack_context & s) noexcept {
        REQUIRE( L.on.erase( s.sp) == 1, "release", "stack released twice or never allocated");
        REQUIRE( s.size == SZ, "release", "size changed"); char * f = (char*) __builtin_frame_address( 0);
        REQUIRE( ! ( f < (char*) s.sp && f >= (char*) s.sp - SZ), "release-in-use", "stack released while running on it");
        UNSHADOW( (char*) s.sp - SZ, SZ); memset( (char*) s.sp - SZ, 0xDD, SZ); --L.live; free( (char*) s.sp - SZ);
    }
};
template< typename F > static Ctx make( F && f) {        // started: suspended at its first resume()
    Stk a;
#ifdef USE_CALLCC
    return ctx::callcc( std::allocator_arg, a, std::forward< F >( f));
#else
    return Ctx( std::allocator_arg, a, std::forward< F >( f)).resume();
#endif
}
struct Mark { long * c; explicit Mark( long * c_) : c( c_) { ++* c; } ~Mark() { --* c; } Mark( Mark const&) = delete; };
// stacks far apart: differences of their addresses do not fit into 32 bits, or fit with any sign
struct Far {
    static long live;
    ctx::stack_context allocate() {
        static uint64_t base = 0x100000000000ull + ( (uint64_t) R.below( 1 << 20) << 12);
        uint64_t hint = R.below( 2) ? base + ( (uint64_t) R.below( 64) << 31) + ( (uint64_t) R.below( 3) << 16) : ( (uint64_t) R.below( 1 << 30) << 16) & 0x3fffffff0000ull;
        ctx::stack_context s; void * p = mmap( (void*) hint, SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if ( p == MAP_FAILED) throw std::bad_alloc();
        s.size = SZ; s.sp = (char*) p + SZ; ++live; return s;
    }
    void deallocate( ctx::stack_context & s) noexcept { UNSHADOW( (char*) s.sp - SZ, SZ); munmap( (char*) s.sp - SZ, SZ); --live; }
};
long Far::live = 0;
static void order() {
    // operator<: a strict weak order in which all contexts differ and all empty handles are the same
    unsigned n = 3 + R.below( 20); long live = 0; std::vector< Ctx > v; std::vector< bool > e;
    for ( unsigned i = 0; i < n; ++i) {
        if ( R.below( 6) == 0) { v.push_back( Ctx()); e.push_back( true); continue; }
        Far a; long * lp = & live; auto f = [=]( Ctx && h) -> Ctx { Mark m( lp); h = std::move( h).resume(); return std::move( h); };
#ifdef USE_CALLCC
        v.push_back( ctx::callcc( std::allocator_arg, a, f));
#else
        v.push_back( Ctx( std::allocator_arg, a, f));
#endif
        e.push_back( false);
    }
    for ( unsigned i = 0; i < n; ++i) for ( unsigned j = 0; j < n; ++j) {
        bool l = v[i] < v[j], g = v[j] < v[i];
        REQUIRE( ! ( l && g), "handle-less", "two handles are each less than the other");
        REQUIRE( ( l || g) == ( i != j && ! ( e[i] && e[j])), "handle-less", "handles %u and %u (empty: %d, %d) compare %s", i, j, (int) e[i], (int) e[j], l || g ? "different" : "equivalent");
        if ( l) for ( unsigned k = 0; k < n; ++k) if ( v[j] < v[k]) REQUIRE( v[i] < v[k], "handle-less", "operator< is not transitive");
    }
    std::sort( v.begin(), v.end()); REQUIRE( std::is_sorted( v.begin(), v.end()), "handle-less", "sorting handles");
    v.clear(); REQUIRE( live == 0 && Far::live == 0, "release-missing", "%ld contexts, %ld stacks left", live, Far::live);
}
static NOINLINE char * here() { return (char*) __builtin_frame_address( 0); }
static NOINLINE bool on_stack_of( void * marker) { long d = (char*) marker - here(); return d > -SZ && d < SZ; }

// ------------------------------------------------------------ chains, nests, containers
static void chain( unsigned n) {
    // context i, when resumed, ends by continuing context i+1; the last one continues main
    std::vector< Ctx > v( n); std::vector< int > ord; long live = 0; Ctx home;
    for ( unsigned i = 0; i < n; ++i) v[i] = make( [&,i]( Ctx && h) -> Ctx {
        Mark m( & live);
        Ctx c = std::move( h).resume();
        if ( c) { REQUIRE( i == 0 && ! home, "control", "context %u of the chain was handed a handle", i); home = std::move( c); }
        ord.push_back( (int) i);
        return i + 1 < n ? std::move( v[i + 1]) : std::move( home);
    });
    REQUIRE( live == (long) n, "control", "%ld of %u contexts suspended", live, n);
    Ctx r = std::move( v[0]).resume();
    REQUIRE( ! r, "handle-bool", "handle of a terminated context is true");
    REQUIRE( ord.size() == n, "control", "%zu of %u contexts of the chain ran", ord.size(), n);
    for ( unsigned i = 0; i < n; ++i) REQUIRE( ord[i] == (int) i, "control", "chain out of order");
    r = Ctx(); v.clear();
    REQUIRE( live == 0, "locals", "%ld locals alive after the chain", live);
    REQUIRE( L.live == 0, "release-missing", "%ld stacks left after the chain", L.live);
    ++n_chain;
}
static Ctx nested( unsigned depth, std::vector< int > * log, int id) {
    return make( [=]( Ctx && h) -> Ctx {
        struct Say { std::vector< int > * l; int i; ~Say() { l->push_back( i); } } s = { log, id };
        Ctx inner = depth ? nested( depth - 1, log, id + 1) : Ctx();
        struct Say2 { std::vector< int > * l; int i; ~Say2() { l->push_back( - i); } } s2 = { log, id + 1 };
        h = std::move( h).resume();
        return std::move( h);
    });
}
static void nest( unsigned n, bool finish) {
    std::vector< int > log; Ctx c = nested( n, & log, 0);
    REQUIRE( L.live == (long) n + 1, "release", "%ld stacks in a nest of %u", L.live, n + 1);
    if ( finish) { c = std::move( c).resume(); REQUIRE( ! c, "handle-bool", "still true"); } else c = Ctx();
    // expected: per level -(id+1) then the inner level completely, then id
    std::vector< int > exp; for ( unsigned i = 0; i <= n; ++i) exp.push_back( -(int)( i + 1)); for ( int i = (int) n; i >= 0; --i) exp.push_back( i);
    REQUIRE( log == exp, "unwind-order", "nest of %u unwound in the wrong order (%zu events)", n, log.size());
    c = Ctx();
    REQUIRE( L.live == 0, "release-missing", "%ld stacks left after the nest", L.live);
    ++n_chain;
}
static void containers() {
    unsigned n = 2 + R.below( 40); long live = 0; std::vector< int > hits( n), gone; int * hp = & hits[0]; long * lp = & live;
    auto mk = [=]( int id) { return make( [=]( Ctx && h) -> Ctx { Mark m( lp); for (;;) { h = std::move( h).resume(); ++hp[id]; } return std::move( h); }); };
    std::vector< std::pair< Ctx, int > > v; // deliberately without reserve(): handles move on growth
    for ( unsigned i = 0; i < n; ++i) v.push_back( std::make_pair( mk( (int) i), (int) i));
    for ( int r = 0; r < 12; ++r) {
        switch ( R.below( 7)) {
        case 0: std::sort( v.begin(), v.end(), []( std::pair< Ctx, int > const& a, std::pair< Ctx, int > const& b) { return a.first < b.first; }); break;
        case 1: std::rotate( v.begin(), v.begin() + R.below( (unsigned) v.size()), v.end()); break;
        case 2: std::reverse( v.begin(), v.end()); break;
        case 3: { std::vector< std::pair< Ctx, int > > w; for ( auto & x : v) w.push_back( std::move( x)); for ( auto & x : v) REQUIRE( ! x.first, "handle-bool", "moved-from handle is true"); v.swap( w); break; }
        case 4: { std::map< int, Ctx > m; for ( auto & x : v) m[x.second] = std::move( x.first); v.clear(); for ( auto & x : m) v.push_back( std::make_pair( std::move( x.second), x.first)); break; }
        case 5: { std::stable_partition( v.begin(), v.end(), []( std::pair< Ctx, int > const& a) { return a.second % 2 == 0; }); break; }
        default: if ( v.size() > 1) { unsigned k = R.below( (unsigned) v.size()); long b = live; v.erase( v.begin() + k); REQUIRE( live == b - 1, "unwind", "erasing a handle ended %ld contexts", b - live); } break;
        }
        unsigned k = R.below( (unsigned) v.size()); int id = v[k].second, b = hits[id];
        REQUIRE( static_cast< bool >( v[k].first), "handle-bool", "live handle %d is false", id);
        std::ostringstream o; o << v[k].first; REQUIRE( o.str() != "{not-a-context}", "handle-stream", "live handle streams as empty");
        std::wostringstream wo; wo << v[k].first; REQUIRE( wo.str() != L"{not-a-context}" && ! wo.str().empty(), "handle-stream", "live handle streams as empty (wide)");
        v[k].first = std::move( v[k].first).resume();
        REQUIRE( hits[id] == b + 1, "control", "handle %d resumed another context", id);
        REQUIRE( live == (long) v.size(), "lost-context", "%ld contexts alive, %zu handles", live, v.size());
        n_handles += v.size();
    }
    // strict weak order over empty and live handles: usable as a set key
    { std::set< Ctx > s; size_t m = v.size(); for ( auto & x : v) s.insert( std::move( x.first)); REQUIRE( s.size() == m, "handle-less", "%zu handles of different contexts collapse to %zu", m, s.size());
      s.insert( Ctx()); s.insert( Ctx()); REQUIRE( s.size() == m + 1, "handle-less", "empty handles are not equivalent"); s.erase( s.find( Ctx())); REQUIRE( s.size() == m, "handle-less", "erase");
      s.clear(); }
    REQUIRE( live == 0 && L.live == 0, "release-missing", "%ld contexts, %ld stacks left", live, L.live);
    // assignment over a live handle ends the old context exactly once and first
    { Ctx a = mk( 0), b = mk( 1); long before = live; Ctx & ar = a; a = std::move( ar); REQUIRE( live == before && a, "handle", "self move lost the context");
      a = std::move( b); REQUIRE( live == before - 1 && a && ! b, "handle", "move assignment over a live handle"); int k = hits[1]; a = std::move( a).resume(); REQUIRE( hits[1] == k + 1, "handle", "wrong context after assignment");
      a.swap( b); REQUIRE( ! a && b && live == before - 1, "handle", "swap"); using std::swap; swap( a, b); REQUIRE( a && ! b, "handle", "swap");
      Ctx e1, e2; e1 = std::move( e2); REQUIRE( ! e1 && ! e2 && ! ( e1 < e2) && ! ( e2 < e1), "handle", "empty handles"); std::ostringstream o; o << e1 << e2 << b; REQUIRE( o.str() == "{not-a-context}{not-a-context}{not-a-context}", "handle-stream", "empty handles stream as %s", o.str().c_str());
      std::wostringstream wo; wo << e1; REQUIRE( wo.str() == L"{not-a-context}", "handle-stream", "wide");
      // handles of finished contexts are as empty as any other
      { auto fin = [=] { Ctx h = make( [=]( Ctx && m) -> Ctx { Mark k( lp); return std::move( m); }); if ( h) h = std::move( h).resume(); return h; };
        Ctx t1 = fin(), t2 = fin(); REQUIRE( ! t1 && ! t2, "handle-bool", "handle of a finished context is true");
        std::ostringstream to; to << t1 << t2; REQUIRE( to.str() == "{not-a-context}{not-a-context}", "handle-stream", "handles of finished contexts stream as %s", to.str().c_str());
        std::wostringstream two; two << t1; REQUIRE( two.str() == L"{not-a-context}", "handle-stream", "handle of a finished context (wide)");
        REQUIRE( ! ( t1 < t2) && ! ( t2 < t1) && ! ( t1 < e1) && ! ( e1 < t1), "handle-less", "handles of finished contexts are not equivalent to an empty one");
        REQUIRE( ( t1 < a) != ( a < t1) && ( t1 < a) == ( e1 < a), "handle-less", "finished and live handle"); }
      Ctx c( std::move( a)); REQUIRE( c && ! a, "handle", "move construction"); REQUIRE( ( c < a) != ( a < c), "handle-less", "live and empty handle compare equivalent"); }
    REQUIRE( live == 0 && L.live == 0, "release-missing", "%ld contexts, %ld stacks left", live, L.live);
    ++n_chain;
}
static void traits() {
    REQUIRE( ! std::is_copy_constructible< Ctx >::value && ! std::is_copy_assignable< Ctx >::value, "handle-copy", "handles can be copied");
    REQUIRE( ! ( std::is_constructible< Ctx, Ctx & >::value) && ! ( std::is_constructible< Ctx, Ctx const& >::value) && ! ( std::is_assignable< Ctx &, Ctx & >::value), "handle-copy", "handles can be copied");
    REQUIRE( std::is_nothrow_move_constructible< Ctx >::value && std::is_nothrow_move_assignable< Ctx >::value && std::is_nothrow_default_constructible< Ctx >::value, "handle-copy", "handles can not be moved without throwing");
    REQUIRE( ! ( std::is_convertible< Ctx, bool >::value) && ( std::is_constructible< bool, Ctx >::value), "handle-bool", "conversion to bool is implicit or missing");
    Ctx c; REQUIRE( ! c && ! static_cast< bool >( c), "handle-bool", "default-constructed handle is true");
}
// ------------------------------------------------------------ unwinding versus exception
// The same randomly generated code runs twice: once in a context that is destroyed at its k-th suspension, once on
// one stack with an exception thrown at the k-th of these points. Everything it logs must be the same.
struct Stop {};
struct Log { std::vector< uint32_t > e; int at, k; bool ref; Ctx * h; int heap; int handlers; Log() : at( 0), k( 0), ref( false), h( 0), heap( 0), handlers( 0) {} void put( uint32_t x) { e.push_back( x); } };
static Log * G = 0;
static void NOINLINE point() {
    Log & g = * G; g.put( 0xF0000000u + g.at);
    if ( g.ref) { if ( g.at++ == g.k) throw Stop(); return; }
    ++g.at; * g.h = std::move( * g.h).resume();
}
struct Obj { uint32_t id; explicit Obj( uint32_t i) : id( i) { G->put( 0x10000 + i); } Obj( Obj const& o) : id( o.id) { G->put( 0x20000 + id); } ~Obj() { G->put( 0x30000 + id); } };
struct PtObj { Obj a; PtObj( uint32_t i) : a( i) { point(); G->put( 0x40000 + i); } ~PtObj() { G->put( 0x50000 + a.id); } };          // suspends in its constructor
struct Base { Obj b; Base( uint32_t i) : b( i) {} virtual ~Base() { G->put( 0x60000 + b.id); } };
struct Deriv : Base { Obj m1; PtObj m2; Obj m3; Deriv( uint32_t i) : Base( i), m1( i + 1), m2( i + 2), m3( i + 3) {} ~Deriv() { G->put( 0x70000 + b.id); } };
struct Heap { int x[5]; PtObj p; Heap( uint32_t i) : p( i) {} static void * operator new( size_t n) { ++G->heap; return ::operator new( n); } static void operator delete( void * p) { --G->heap; G->put( 0x80000); ::operator delete( p); } };
struct Rethrower { uint32_t id; ~Rethrower() { G->put( 0x90000 + id); try { Obj o( id); throw (int) id; } catch ( int v) { G->put( 0xA0000 + v); } } };
static uint32_t arg( uint32_t i, Obj const& o) { point(); return i + o.id; }
static Obj pass( Obj a, uint32_t x) { Obj r( a.id + x); point(); return r; }
static NOINLINE void gen( Rng & r, int depth, uint32_t & id);
static NOINLINE void noexc( Rng & r, int depth, uint32_t & id) { gen( r, depth, id); }
static NOINLINE void gen( Rng & r, int depth, uint32_t & id) {
    Obj root( id++); int n = 1 + r.below( 4);
    for ( int i = 0; i < n; ++i) {
        uint32_t my = id; id += 10;
        switch ( r.below( depth > 0 ? 15 : 8)) {
        case 0: point(); break;
        case 1: { PtObj p( my); point(); break; }
        case 2: { Deriv d( my); point(); break; }
        case 3: { std::unique_ptr< Heap > p( new Heap( my)); point(); break; }
        case 4: { Obj arr[3] = { Obj( my), Obj( my + 1), Obj( my + 2)}; point(); (void) arr; break; }
        case 5: { uint32_t x = arg( 1, Obj( my)) + 0 * Obj( my + 1).id; G->put( x); break; }
        case 6: { Obj o = pass( Obj( my), 3); point(); G->put( o.id); break; }
        case 7: { Rethrower t = { my }; point(); break; }
        case 8: { gen( r, depth - 1, id); break; }
        case 9: { std::list< PtObj > l; for ( int k = 0; k < 3; ++k) l.emplace_back( my + k); point(); break; }
        case 10: { std::function< void() > f = [&]() { Obj o( my); noexc( r, depth - 1, id); }; f(); break; }
        case 11: { try { Obj o( my); gen( r, depth - 1, id); point(); G->put( 0xB0000 + my); throw (short) 3; } catch ( short) { G->put( 0xC0000 + my); } break; }
        case 12: { try { Obj o( my); gen( r, depth - 1, id); } catch ( int) { G->put( 0xEEEE); } catch ( std::exception const&) { G->put( 0xEEEF); } break; }
        // a cleanup handler that rethrows
        case 13: { try { Obj o( my); gen( r, depth - 1, id); } catch ( ...) { G->put( 0xD0000 + my); throw; } break; }
        default: { struct Fin { Rng * r; int d; uint32_t id; ~Fin() { G->put( 0xE0000 + id); Obj o( id + 1); } } f = { & r, depth, my }; gen( r, depth - 1, id); break; }
        }
        G->put( 0xFF000 + (uint32_t) i);
    }
}
static void unwind_case( uint64_t seed) {
    // count suspension points
    Log c; c.ref = true; c.k = -1; G = & c; { Rng r( seed); uint32_t id = 1; gen( r, 4, id); }
    int total = c.at;
    if ( total == 0 || total > 3000) return;
    int tries = total < 6 ? total : 6;
    for ( int t = 0; t <= tries; ++t) {
        int k = t == tries ? total : total <= 6 ? t : (int) R.below( (unsigned) total);
        Log a; a.ref = true; a.k = k; G = & a;
        { Rng r( seed); uint32_t id = 1; try { gen( r, 4, id); a.put( 1); } catch ( Stop const&) {} }
        Log b; b.k = k; bool ran = false;
        {
            Ctx m = make( [&]( Ctx && h) -> Ctx { struct Arg { bool * p; ~Arg() { * p = true; } } ar = { & ran }; b.h = & h; G = & b; h = std::move( h).resume(); Rng r( seed); uint32_t id = 1; gen( r, 4, id); b.put( 1); return std::move( h); });
            m = std::move( m).resume();
            for ( int i = 0; i < k && m; ++i) m = std::move( m).resume();
            REQUIRE( k == total ? ! m : (bool) m, "control", "context suspended %d times, expected %d", b.at, total);
            m = Ctx();
        }
        REQUIRE( ran, "unwind", "context not ended by the destruction of its handle");
        REQUIRE( a.e.size() == b.e.size(), "unwind-log", "unwinding at point %d of %d: %zu events, a plain exception at this point gives %zu", k, total, b.e.size(), a.e.size());
        for ( size_t i = 0; i < a.e.size(); ++i) REQUIRE( a.e[i] == b.e[i], "unwind-log", "unwinding at point %d of %d: event %zu is %x, a plain exception at this point gives %x", k, total, i, b.e[i], a.e[i]);
        REQUIRE( a.heap == 0 && b.heap == 0, "unwind-heap", "%d objects under construction leaked by unwinding", b.heap);
        REQUIRE( L.live == 0, "release-missing", "%ld stacks left", L.live);
        ++n_unwind; n_events += a.e.size(); uint64_t hh = 3; for ( uint32_t x : a.e) hh = mix( hh, x); cov.add( hh);
    }
}
// ------------------------------------------------------------ function objects for resume_with
static long f_live, f_runs, f_copies; static void * f_marker; static int f_ret;
struct FnBase {
    uint32_t magic; int * state;
    explicit FnBase( int * s) : magic( 0xF00D), state( s) { ++f_live; }
    FnBase( FnBase const& o) : magic( 0xF00D), state( o.state) { REQUIRE( o.magic == 0xF00D, "callable", "copy of a destroyed function object"); ++f_live; ++f_copies; }
    ~FnBase() { REQUIRE( magic == 0xF00D, "callable", "function object destroyed twice"); magic = 0; --f_live; }
};
static Ctx f_body( Ctx && h) {
    ++f_runs; REQUIRE( on_stack_of( f_marker), "ontop-stack", "function executed on another stack than that of the resumed context");
    REQUIRE( static_cast< bool >( h), "ontop-handle", "function got an empty handle");
    switch ( f_ret) { case 1: return Ctx(); case 2: throw 77; case 3: { for ( int i = 0; i < 3; ++i) h = std::move( h).resume(); return std::move( h); } default: return std::move( h); }
}
template< size_t N, size_t A > struct alignas( A) Fn : FnBase {
    unsigned char pay[N]; explicit Fn( int * s) : FnBase( s) { for ( size_t i = 0; i < N; ++i) pay[i] = (unsigned char)( i * 7); }
    Ctx operator()( Ctx && h) { REQUIRE( magic == 0xF00D, "callable", "destroyed function object called"); for ( size_t i = 0; i < N; ++i) REQUIRE( pay[i] == (unsigned char)( i * 7), "callable", "payload of the function object damaged");
        REQUIRE( (uintptr_t) this % A == 0, "callable-align", "function object at %p, alignment %zu", (void*) this, A); for ( size_t i = 0; i < N; ++i) pay[i] = 0xEE; return f_body( std::move( h)); } };
struct FnConst : FnBase { explicit FnConst( int * s) : FnBase( s) {} Ctx operator()( Ctx && h) const { return f_body( std::move( h)); } };
struct FnVal : FnBase { explicit FnVal( int * s) : FnBase( s) {} Ctx operator()( Ctx h) { return f_body( std::move( h)); } };
static Ctx plain( Ctx && h) { return f_body( std::move( h)); }
struct Member { int x; Ctx go( Ctx && h) { REQUIRE( x == 5, "callable", "object damaged"); return f_body( std::move( h)); } };
static void ontop_case( int kind, int ret, bool lval) {
    f_ret = ret; f_live = f_runs = f_copies = 0; int caught = 0, back = 0, empty = 0, rounds = 0;
    {
        Ctx m = make( [&]( Ctx && h) -> Ctx {
            f_marker = here();
            h = std::move( h).resume();
            for (;;) {
                try { h = std::move( h).resume(); ++back; if ( ! h) { ++empty; break; } } catch ( int v) { REQUIRE( v == 77, "exc", "wrong exception"); ++caught; REQUIRE( ! h, "handle-bool", "handle still true after an exception out of resume()"); break; }
                if ( ++rounds > 1) break;
            }
            extern Ctx * g_home; if ( ! h) { REQUIRE( static_cast< bool >( * g_home), "control", "no way home"); h = std::move( * g_home); }
            return std::move( h); });
        m = std::move( m).resume();
        extern Ctx * g_home; Ctx home; g_home = & home; int st = 0;
        // when the function keeps the caller's handle (empty result or exception) it is stashed for the context's return
        auto keep = [&]( Ctx && h) -> Ctx { if ( f_ret == 1 || f_ret == 2) { home = std::move( h); ++f_runs; REQUIRE( on_stack_of( f_marker), "ontop-stack", "other stack"); if ( f_ret == 2) throw 77; return Ctx(); } return f_body( std::move( h)); };
        if ( ret == 1 || ret == 2) {
            switch ( kind % 3) {
            case 0: if ( lval) m = std::move( m).resume_with( keep); else m = std::move( m).resume_with( decltype( keep)( keep)); break;
            case 1: { std::function< Ctx( Ctx &&)> f = keep; if ( lval) m = std::move( m).resume_with( f); else m = std::move( m).resume_with( std::function< Ctx( Ctx &&)>( keep)); REQUIRE( (bool) f, "callable", "caller's function object emptied"); break; }
            default: { struct K : FnBase { decltype( keep) * k; K( int * s, decltype( keep) * k_) : FnBase( s), k( k_) {} Ctx operator()( Ctx && h) { return ( * k)( std::move( h)); } }; K k( & st, & keep); if ( lval) m = std::move( m).resume_with( k); else m = std::move( m).resume_with( K( & st, & keep)); REQUIRE( k.magic == 0xF00D, "callable", "caller's object damaged"); break; }
            }
        } else {
#define GO( T) { T f( & st); if ( lval) m = std::move( m).resume_with( f); else m = std::move( m).resume_with( T( & st)); REQUIRE( f.magic == 0xF00D, "callable", "caller's object damaged"); }
            switch ( kind) {
            case 0: { typedef Fn< 1, 8 > T; T f( & st); if ( lval) m = std::move( m).resume_with( f); else m = std::move( m).resume_with( T( & st)); for ( size_t i = 0; i < 1; ++i) REQUIRE( f.pay[i] == (unsigned char)( i * 7), "callable", "the caller's object was executed or changed instead of a copy"); break; }
            case 1: { typedef Fn< 3000, 16 > T; T f( & st); if ( lval) m = std::move( m).resume_with( f); else m = std::move( m).resume_with( T( & st)); for ( size_t i = 0; i < 3000; ++i) REQUIRE( f.pay[i] == (unsigned char)( i * 7), "callable", "the caller's object was executed or changed instead of a copy"); break; }
            case 2: GO( FnConst) break;
            case 3: GO( FnVal) break;
            case 4: if ( lval) { Ctx ( * p)( Ctx &&) = plain; m = std::move( m).resume_with( p); REQUIRE( p == plain, "callable", "pointer changed"); } else m = std::move( m).resume_with( & plain); break;
            case 5: { Member x = { 5 }; auto b = std::bind( & Member::go, & x, std::placeholders::_1); if ( lval) m = std::move( m).resume_with( b); else m = std::move( m).resume_with( std::bind( & Member::go, & x, std::placeholders::_1)); break; }
            case 6: { std::function< Ctx( Ctx &&)> f = Fn< 40, 8 >( & st); if ( lval) { m = std::move( m).resume_with( f); REQUIRE( (bool) f, "callable", "caller's std::function emptied"); } else m = std::move( m).resume_with( std::function< Ctx( Ctx &&)>( f)); break; }
            case 7: { int cnt = 0; FnConst tok( & st); auto f = [tok,cnt]( Ctx && h) mutable -> Ctx { ++cnt; REQUIRE( cnt == 1, "callable", "run %d times", cnt); return tok( std::move( h)); }; if ( lval) m = std::move( m).resume_with( f); else m = std::move( m).resume_with( std::move( f)); break; }
            case 8: { const FnConst f( & st); m = std::move( m).resume_with( f); break; }
            default: { FnConst f( & st); m = std::move( m).resume_with( std::ref( f)); break; }
            }
        }
        if ( ret == 3) { REQUIRE( f_runs == 1 && back == 0, "ontop-once", "function ran %ld times, context continued %d times while the function is suspended", f_runs, back); for ( int i = 0; i < 3; ++i) m = std::move( m).resume(); }
        REQUIRE( f_runs == 1, "ontop-once", "function executed %ld times (kind %d, result %d, lvalue %d)", f_runs, kind, ret, (int) lval);
        if ( ret == 2) REQUIRE( caught == 1 && back == 0, "ontop-exc", "exception of the function: caught %d times, context continued normally %d times", caught, back);
        else REQUIRE( back == 1 && caught == 0, "ontop-return", "context continued %d times after the function", back);
        if ( ret == 1) REQUIRE( empty == 1, "ontop-return", "the empty handle returned by the function did not reach the context");
        if ( ret == 0 || ret == 3) { REQUIRE( static_cast< bool >( m), "handle-bool", "context ended"); m = std::move( m).resume(); REQUIRE( f_runs == 1 && back == 2, "ontop-once", "function executed again at the next resumption (%ld)", f_runs); }
        REQUIRE( ! m, "handle-bool", "context not finished"); g_home = 0;
    }
    REQUIRE( f_live == 0, "callable", "%ld copies of the function object leaked (kind %d, result %d)", f_live, kind, ret);
    REQUIRE( L.live == 0, "release-missing", "%ld stacks left", L.live);
    ++n_ontop; cov.add( mix( mix( kind, ret), lval));
}
Ctx * g_home = 0; static char * g_main;
#ifndef USE_CALLCC
// a context that was never started: the function runs on top of it, before the context-function
static void ontop_fresh( int k) {
    int order = 0, fn_at = 0, top_at = 0; char * a = 0, * b = 0; bool live = false;
    {
        Stk s; Ctx m( std::allocator_arg, s, [&]( Ctx && h) -> Ctx { b = here(); fn_at = ++order; live = static_cast< bool >( h); if ( ! h) h = std::move( * g_home); if ( k == 2) { h = std::move( h).resume(); } return std::move( h); });
        Ctx home; g_home = & home; long before = L.live; REQUIRE( before == 1, "stack", "%ld", before);
        m = std::move( m).resume_with( [&]( Ctx && h) -> Ctx { a = here(); top_at = ++order; if ( k == 1) { home = std::move( h); return Ctx(); } if ( k == 3) h = std::move( h).resume(); return std::move( h); });
        if ( k == 3) { REQUIRE( order == 1 && m, "ontop-fresh", "function on top did not suspend"); m = std::move( m).resume(); }
        REQUIRE( top_at == 1 && fn_at == 2 && order == 2, "ontop-fresh", "order of function on top (%d) and context-function (%d)", top_at, fn_at);
        REQUIRE( a && b && std::abs( a - b) < SZ && on_stack_of( g_main) && ! on_stack_of( a), "ontop-fresh", "function on top executed on another stack");
        REQUIRE( live == ( k != 1), "ontop-fresh", "result of the function did not reach the context-function");
        if ( k == 2) m = std::move( m).resume();
        REQUIRE( ! m, "handle-bool", "not finished");
    }
    REQUIRE( L.live == 0, "release-missing", "%ld stacks left", L.live); ++n_ontop; cov.add( mix( 999, k));
}
#endif
// a function object whose copy number k throws: wherever that happens, nobody may be lost
struct CopyThrows { int k; };
static int c_left = 0; static long c_live = 0, c_runs = 0;
struct Thrower {
    uint32_t magic;
    Thrower() : magic( 0x7403) { ++c_live; }
    Thrower( Thrower const& o) : magic( 0x7403) { REQUIRE( o.magic == 0x7403, "callable", "copy of a destroyed function object"); if ( c_left && --c_left == 0) throw CopyThrows{ 1}; ++c_live; }
    ~Thrower() { REQUIRE( magic == 0x7403, "callable", "function object destroyed twice"); magic = 0; --c_live; }
    Ctx operator()( Ctx && h) { ++c_runs; return std::move( h); }
};
struct Count { int * n; ~Count() { ++* n; } };
static void ontop_copy_throws( int k, int how) {
    int caught_r = 0, caught_t = 0, normal_t = 0, gone_r = 0, gone_t = 0; c_runs = 0;
    {
        Ctx home, t;
        t = make( [&]( Ctx && h) -> Ctx {
            Count c = { & gone_t};
            for ( int i = 0; i < 2; ++i) {
                try { Count d = { & gone_t}; h = std::move( h).resume(); ++normal_t; }
                catch ( CopyThrows const&) { ++caught_t; REQUIRE( gone_r == 1, "ontop-copy", "the resumer still lives although its only handle died with the exception"); REQUIRE( ! h, "handle-bool", "handle not empty after the exception"); return std::move( home); }
            }
            return std::move( h); });
        Ctx r = make( [&]( Ctx && h) -> Ctx {
            Count c = { & gone_r};
            home = std::move( h);
            Thrower f;
            c_left = k;
            try {
                if ( how == 0) t = std::move( t).resume_with( f);
                else if ( how == 1) t = std::move( t).resume_with( Thrower( std::move( f)));
                else t = std::move( t).resume_with( const_cast< Thrower const&>( f));
            } catch ( CopyThrows const&) { ++caught_r; }
            c_left = 0;
            REQUIRE( static_cast< bool >( t), "ontop-copy", "handle of the resumed context lost (exception here: %d, in the resumed context: %d)", caught_r, caught_t);
            return std::move( home); });
        c_left = 0;
        REQUIRE( caught_r + caught_t + ( c_runs == 1) == 1 && c_runs <= 1, "ontop-copy", "copy %d: exception at the resumer %d, at the resumed %d, function ran %ld times", k, caught_r, caught_t, c_runs);
        REQUIRE( normal_t == ( c_runs == 1), "ontop-copy", "resumed context continued %d times", normal_t);
        REQUIRE( gone_r == 1, "ontop-copy", "the resumer was ended %d times", gone_r);
        if ( caught_t) { REQUIRE( ! t, "handle-bool", "handle kept although the context was resumed"); REQUIRE( ! r, "handle-bool", "%d", k); }
        else { REQUIRE( static_cast< bool >( t), "handle-bool", "handle lost"); if ( R.below( 2)) { int n = normal_t; t = std::move( t).resume(); REQUIRE( normal_t == n + 1 && caught_t == 0 && c_runs <= 1, "ontop-copy", "context not continued normally after the failed attempt"); } }
    }
    REQUIRE( c_live == 0, "callable", "%ld function objects left", c_live);
    REQUIRE( gone_t >= 2, "unwind", "%d", gone_t);
    REQUIRE( L.live == 0, "release-missing", "%ld stacks left after copy %d threw", L.live, k); ++n_ontop; cov.add( mix( mix( 4242, k), how));
}
// ------------------------------------------------------------ creation that fails after the stack was obtained
static unsigned long long n_failed_creations;
#if defined(BOOST_USE_WINFIB)
# define CREATION_FAILS( on) winshim::fail_in = ( on) ? 1 : 0
# define CREATION_ERROR ERROR_NOT_ENOUGH_MEMORY
#elif defined(WRAP_GETCONTEXT)
# define CREATION_FAILS( on) g_getcontext_fails = ( on)
# define CREATION_ERROR EPERM
static int g_getcontext_fails = 0;
extern "C" { int __real_getcontext( ucontext_t *); int __wrap_getcontext( ucontext_t * u) { if ( g_getcontext_fails) { errno = EPERM; return -1; } return __real_getcontext( u); } }
#endif
#ifdef CREATION_FAILS
struct OneWay {                     // knows whether it was moved from
    Stk in; int * state; int * released;
    OneWay( int * s, int * r) : state( s), released( r) { ++* state; }
    OneWay( OneWay const& o) : state( o.state), released( o.released) { REQUIRE( state, "allocator", "copy of a moved-from allocator"); ++* state; }
    OneWay( OneWay && o) : state( o.state), released( o.released) { o.state = 0; }
    ~OneWay() { if ( state) --* state; }
    ctx::stack_context allocate() { REQUIRE( state, "allocator", "allocate() on a moved-from allocator"); return in.allocate(); }
    void deallocate( ctx::stack_context & s) noexcept { REQUIRE( state, "allocator", "stack released through a moved-from allocator"); ++* released; in.deallocate( s); }
};
struct CountCopies { int * live; CountCopies( int * l) : live( l) { ++* live; } CountCopies( CountCopies const& o) : live( o.live) { ++* live; } ~CountCopies() { --* live; }
    Ctx operator()( Ctx &&) const { REQUIRE( false, "control", "context-function of a context whose creation failed"); return Ctx(); } };
template< typename A, typename F > static Ctx raw_make( A && a, F && f) {
#ifdef USE_CALLCC
    return ctx::callcc( std::allocator_arg, std::forward< A >( a), std::forward< F >( f));
#else
    return Ctx( std::allocator_arg, std::forward< A >( a), std::forward< F >( f));
#endif
}
template< typename A, typename F > static Ctx raw_make( ctx::preallocated p, A && a, F && f) {
#ifdef USE_CALLCC
    return ctx::callcc( std::allocator_arg, p, std::forward< A >( a), std::forward< F >( f));
#else
    return Ctx( std::allocator_arg, p, std::forward< A >( a), std::forward< F >( f));
#endif
}
static void create_fails( int k) {
    make( []( Ctx && h) { return std::move( h); });                 // the thread's own record exists
    int copies = 0, released = 0, fns = 0; bool threw = false; long before = L.live;
    { Ctx other = make( []( Ctx && h) -> Ctx { h = std::move( h).resume(); return std::move( h); });
      { OneWay a( & copies, & released); CountCopies f( & fns);
        CREATION_FAILS( 1);
        try {
            switch ( k) {
            case 0: raw_make( std::move( a), std::move( f)); break;
            case 1: raw_make( a, f); break;
            case 2: raw_make( OneWay( a), f); break;
            case 3: { ctx::stack_context s = a.allocate(); ctx::preallocated p( (char*) s.sp - 100, s.size - 100, s); raw_make( p, std::move( a), f); break; }
            default: { ctx::stack_context s = a.allocate(); ctx::preallocated p( (char*) s.sp - 3000, s.size - 3000, s); raw_make( p, a, std::move( f)); break; }
            }
        } catch ( std::system_error const& e) { threw = true; REQUIRE( e.code().value() == CREATION_ERROR, "create", "error %d", e.code().value()); }
        CREATION_FAILS( 0); }
      REQUIRE( threw, "create", "no exception although the system refused it");
      REQUIRE( released == 1 && L.live == before + 1, "release-missing", "failed creation released its stack %d times", released);
      REQUIRE( copies == 0 && fns == 0, "callable", "failed creation left %d allocators and %d functions", copies, fns);
      other = std::move( other).resume(); REQUIRE( ! other, "control", "unrelated context disturbed"); }
    REQUIRE( L.live == before, "release-missing", "%ld", L.live); ++n_failed_creations; cov.add( mix( 777, k));
}
#endif
// ------------------------------------------------------------ static and thread storage duration
static int s_log[64], s_n; static void say( int i) { if ( s_n < 64) s_log[s_n++] = i; }
struct Say { int i; ~Say() { say( i); } };
static Ctx loop( int id) { return make( [id]( Ctx && h) -> Ctx { Say s = { id }; for (;;) h = std::move( h).resume(); return std::move( h); }); }
struct Holder { Ctx c; int late; ~Holder() { if ( late == 1 && c) c = std::move( c).resume(); if ( late == 2) { Ctx n = loop( 50); n = std::move( n).resume(); Ctx k = std::move( n); } } };
static std::vector< int > s_exp; static int s_extra;
static void final_check() {
    // registered first, so it runs after the destructors of everything constructed later
    char b[200]; int n = 0; for ( int i = 0; i < s_n; ++i) n += snprintf( b + n, sizeof b - n, "%d ", s_log[i]);
    bool ok = s_n == (int) s_exp.size() && std::equal( s_exp.begin(), s_exp.end(), s_log) && L.live == s_extra;
    if ( ! ok) { printf( "log: %s, %ld stacks\n", b, L.live); fflush( 0); }
    _exit( ok ? 44 : 45);
}
static Holder & stat_a() { static Holder h; return h; } static Holder & stat_b() { static Holder h; return h; }
static Holder & tls_a() { thread_local Holder h; return h; } static Holder & tls_b() { thread_local Holder h; return h; }
static void static_child( int k) {
    std::atexit( final_check);
    switch ( k) {
    case 0: stat_a().c = loop( 1); stat_b().c = loop( 2); s_exp = { 2, 1 }; break;                              // statics unwound in reverse order of construction
    case 1: stat_a().late = 1; stat_a().c = loop( 1); s_exp = { 1 }; break;                                     // resumed, then unwound at exit
    case 2: stat_a().late = 2; s_exp = { 50 }; break;                                                          // the first context of the process is created at exit
    case 3: stat_a().late = 2; stat_a().c = loop( 1); s_exp = { 50, 1 }; break;
    case 4: tls_a().c = loop( 1); tls_b().c = loop( 2); s_exp = { 2, 1 }; break;
    case 5: tls_a().late = 1; tls_a().c = loop( 1); stat_a().c = loop( 3); tls_b().late = 2; s_exp = { 50, 1, 3 }; break;
    case 6: std::thread( []() { tls_a(); tls_b(); tls_a().c = loop( 1); tls_b().late = 2; tls_a().late = 1; tls_b().c = loop( 2); }).join(); REQUIRE( s_n == 3 && s_log[0] == 50 && s_log[1] == 2 && s_log[2] == 1, "statics", "thread exit: %d events, first %d", s_n, s_log[0]); s_exp = { 50, 2, 1 }; break;
    case 7: stat_a(); std::thread( []() { stat_a().c = loop( 1); stat_b().c = loop( 2); }).join(); s_exp = { 2, 1 }; break;  // created by a thread that is gone
    case 8: { stat_a().c = loop( 1); s_exp = { 1 }; s_extra = 1; make( []( Ctx && h) -> Ctx { std::exit( 0); return std::move( h); }); break; }  // exit() from inside a context
    case 9: { stat_a().late = 1; stat_a().c = loop( 1); s_exp = { 1 }; s_extra = 1; Ctx z = make( []( Ctx && h) -> Ctx { h = std::move( h).resume(); Say s = { 9 }; std::exit( 0); return std::move( h); }); z = std::move( z).resume(); break; }
    default: stat_b().late = 2; stat_a().c = loop( 1); tls_a().late = 2; s_exp = { 50, 1, 50 }; break;
    }
    std::exit( 0);
}
static void statics( int k) {
    fflush( 0); pid_t p = fork(); if ( p < 0) _exit( 78);
    if ( ! p) { alarm( 30); static_child( k); _exit( 99); }
    int st; if ( waitpid( p, & st, 0) != p) _exit( 78);
    REQUIRE( WIFEXITED( st) && WEXITSTATUS( st) == 44, "statics", "program %d with handles of static/thread storage duration: status %x (%s)", k, st, WIFEXITED( st) && WEXITSTATUS( st) == 45 ? "wrong order or missing destruction" : "crashed");
    ++n_static; cov.add( mix( 5555, k));
}
int main( int argc, char ** argv) {
    uint64_t seed = arg_ull( argc, argv, "--seed", 1), eps = arg_ull( argc, argv, "--episodes", 20);
    std::string mode = "all"; for ( int i = 1; i + 1 < argc; ++i) if ( ! strcmp( argv[i], "--mode")) mode = argv[i+1];
    bool all = mode == "all";
    g_phase = "life"; g_main = here();
    if ( all || mode == "statics") { for ( int k = 0; k < 11; ++k) statics( k); }
    traits();
    for ( uint64_t e = 0; e < eps; ++e) {
        g_case = e; R = Rng( mix( seed, e));
        if ( all || mode == "chain") { chain( 1 + R.below( e % 10 ? 60 : 1500)); nest( R.below( e % 10 ? 20 : 120), R.below( 2)); containers(); order(); }
#ifdef CREATION_FAILS
        if ( all || mode == "chain") for ( int k = 0; k < 5; ++k) create_fails( k);
#endif
        if ( all || mode == "unwind") for ( int i = 0; i < 6; ++i) unwind_case( mix( seed, e * 10 + i));
        if ( all || mode == "ontop") {
            for ( int k = 0; k < 10; ++k) for ( int r = 0; r < 4; ++r) ontop_case( k, r, R.below( 2));
            for ( int k = 0; k < 4; ++k) ontop_copy_throws( k, R.below( 3));
#ifndef USE_CALLCC
            for ( int k = 0; k < 4; ++k) ontop_fresh( k);
#endif
        }
    }
    stat( "chains_nests_containers", n_chain); stat( "unwound_programs", n_unwind); stat( "unwind_events", n_events); stat( "ontop_cases", n_ontop); stat( "static_programs", n_static); stat( "handle_checks", n_handles); stat( "failed_creations", n_failed_creations); stat( "distinct_life", cov.n);
    sample( "life mode=%s seed=%llu episodes=%llu", mode.c_str(), (unsigned long long) seed, (unsigned long long) eps);
    return 0;
}
