// Contexts and threads:
//   --mode migrate   contexts picked up, resumed, resumed with a function, destroyed and created by many threads and by each other (C15)
//   --mode churn     threads that come and go with or without using contexts: nothing is left behind (C14)
//   --mode alone     every thread runs its own ring of contexts with private state, compared with the same run alone (C14)
#include "common.hpp"
#ifdef USE_CALLCC
#include <boost/context/continuation.hpp>
typedef boost::context::continuation Ctx;
#else
#include <boost/context/fiber.hpp>
typedef boost::context::fiber Ctx;
#endif
#include <boost/context/fixedsize_stack.hpp>
#include <boost/context/pooled_fixedsize_stack.hpp>
#include <boost/context/protected_fixedsize_stack.hpp>
#include <atomic>
#include <condition_variable>
#include <deque>
#include <malloc.h>
#include <memory>
#include <mutex>
#include <sys/resource.h>
#include <thread>
#include <vector>
namespace ctx = boost::context;
enum { SZ = 96 * 1024, EMPTY = -1 };
// the compiler may assume that a function body does not change thread: all thread specific accesses go through opaque calls
static thread_local int tl_id = -1;
static NOINLINE int tid() { __asm__ __volatile__( "" ::: "memory"); return tl_id; }
static NOINLINE uintptr_t tp() { uintptr_t v; __asm__ __volatile__( "movq %%fs:0, %0" : "=r"( v)); return v; }
static inline uint32_t get_mxcsr() { uint32_t v; __asm__ __volatile__( "stmxcsr %0" : "=m"( v)); return v; }
static inline void set_mxcsr( uint32_t v) { __asm__ __volatile__( "ldmxcsr %0" : : "m"( v)); }

struct PerThread { Ctx home; int from, to, recv; bool ontop; uintptr_t fs; Rng r; unsigned long long ops; int inflight; PerThread() : from( EMPTY), to( EMPTY), recv( EMPTY), ontop( false), fs( 0), r( 1), ops( 0), inflight( 0) {} };
enum { MAXT = 64 };
static PerThread * PT[MAXT];
static NOINLINE PerThread & me() { return * PT[tid()]; }
struct Task { std::atomic< int > running_on; int id, creator; std::atomic< int > locals, migr; int last; std::atomic< bool > done, started; std::atomic< long > stack; std::atomic< int > dying_on; Task() : running_on( -1), id( 0), creator( -1), locals( 0), migr( 0), last( -1), done( false), started( false), stack( 0), dying_on( -1) {} };
static std::deque< Task > tasks; static std::mutex mt;              // deque: addresses are stable
static NOINLINE Task & T( int id) { std::lock_guard< std::mutex > l( mt); return tasks[id]; }
static NOINLINE int new_task() { std::lock_guard< std::mutex > l( mt); tasks.emplace_back(); tasks.back().id = (int) tasks.size() - 1; tasks.back().creator = tid(); return tasks.back().id; }
struct Item { Ctx h; int id; };
static std::vector< Item > pool; static std::mutex mp; static std::atomic< int > live; static std::atomic< bool > drain;
static std::atomic< unsigned long long > n_switch, n_migr, n_ontop, n_destroy, n_create, n_unw, n_foreign_end, n_exc, n_threads, n_stacks;
static NOINLINE bool take( Item & it, bool need_started) {
    std::lock_guard< std::mutex > l( mp);
    if ( pool.empty()) return false;
    size_t k = me().r.below( (unsigned) pool.size());
    if ( need_started && ! T( pool[k].id).started) return false;
    std::swap( pool[k], pool.back()); it.h = std::move( pool.back().h); it.id = pool.back().id; pool.pop_back();
    REQUIRE( static_cast< bool >( it.h), "handle-bool", "pooled handle of context %d is false", it.id);
    return true;
}
static NOINLINE void put( Ctx && h, int id) { std::lock_guard< std::mutex > l( mp); Item it = { std::move( h), id }; pool.push_back( std::move( it)); }
// stacks: allocated on one thread, released on any
struct Stk {
    int id;
    ctx::stack_context allocate() { ctx::stack_context s; s.size = SZ; s.sp = (char*) malloc( SZ) + SZ; ++n_stacks; T( id).stack.store( (long) s.sp); return s; }
    void deallocate( ctx::stack_context & s) noexcept {
        Task & t = T( id); long was = t.stack.exchange( 0);
        REQUIRE( was == (long) s.sp, "release", "stack of context %d released twice or never allocated", id);
        REQUIRE( t.done && t.locals == 0, "release-early", "stack of context %d released before it ended", id);
        char * f = (char*) __builtin_frame_address( 0); REQUIRE( ! ( f < (char*) s.sp && f >= (char*) s.sp - SZ), "release-in-use", "stack of context %d released while in use", id);
        UNSHADOW( (char*) s.sp - SZ, SZ); memset( (char*) s.sp - SZ, 0xDD, SZ); --n_stacks; free( (char*) s.sp - SZ);
    }
};
struct Guard {
    Task & t; uint64_t v[4];
    Guard( Task & t_, uint64_t s) : t( t_) { ++t.locals; for ( int i = 0; i < 4; ++i) v[i] = mix( s, i); }
    void ok( uint64_t s) { for ( int i = 0; i < 4; ++i) REQUIRE( v[i] == mix( s, i), "locals", "local of context %d damaged", t.id); }
    ~Guard() { --t.locals; ++n_unw; int d = t.dying_on; if ( d >= 0) REQUIRE( d == tid(), "unwind-thread", "context %d is unwound on thread %d, destroyed on %d", t.id, tid(), d); }
};
static void arrive( int id, uint32_t mx) {
    PerThread & p = me();
    REQUIRE( p.fs == tp(), "thread", "context %d sees the thread pointer of another thread", id);
    REQUIRE( p.to == id, "control", "context %d continued on thread %d, expected %d", id, tid(), p.to);
    REQUIRE( ( get_mxcsr() & 0xFFC0) == mx, "fpenv", "context %d has MXCSR %x, expected %x", id, get_mxcsr() & 0xFFC0, mx);
    p.to = EMPTY; ++n_switch; Task & t = T( id);
    if ( t.last != tid()) { if ( t.last >= 0) { ++n_migr; ++t.migr; } t.last = tid(); }
}
// dispose of the handle that was received: main contexts stay with their thread, all others go back to the pool
static void received( Ctx && h) {
    PerThread & p = me();
    REQUIRE( static_cast< bool >( h) == ( p.recv != EMPTY), "handle-bool", "received handle is %d, expected context %d", (int) static_cast< bool >( h), p.recv);
    int f = p.recv; p.recv = EMPTY;
    if ( f == EMPTY) return;
    if ( f < MAXT) { REQUIRE( f == tid(), "control", "handle of main context %d on thread %d", f, tid()); REQUIRE( ! p.home, "control", "two handles to main"); p.home = std::move( h); }
    else put( std::move( h), f);
}
static void set( int from, int to, int recv) { PerThread & p = me(); p.from = from; p.to = to; p.recv = recv; ++p.ops; }
static Ctx body( int id, Ctx && h);
struct Fn { int id; Ctx operator()( Ctx && h) { return body( id, std::move( h)); } };
static NOINLINE void sw( int self, uint32_t mx, Ctx && h, int to, bool with_fn) {
    set( self, to, self);
    try {
        if ( with_fn) {
            uint64_t tag = me().r.next(); int runs = 0, * rp = & runs; bool thr = T( to).started && to >= MAXT && me().r.below( 4) == 0; int here = tid();
            h = std::move( h).resume_with( [=]( Ctx && c) -> Ctx {
                ++* rp; REQUIRE( tid() == here && me().to == to, "ontop", "function on top of context %d runs on thread %d, expected %d", to, tid(), here);
                REQUIRE( static_cast< bool >( c), "handle-bool", "function on top got an empty handle"); ++n_ontop;
                if ( thr) { received( std::move( c)); throw (uint64_t) tag; }
                return std::move( c);
            });
            // (runs lives on this stack; the function ran before anything else could happen there)
            REQUIRE( runs == 1, "ontop", "function executed %d times", runs);
        } else h = std::move( h).resume();
        arrive( self, mx); received( std::move( h));
    } catch ( uint64_t) { ++n_exc; arrive( self, mx); REQUIRE( ! h, "handle-bool", "handle still true after an exception"); }
}
#ifndef USE_CALLCC
static NOINLINE void create() {
    int id = new_task(); ++n_create; ++live; Stk s = { id };
    put( Ctx( std::allocator_arg, s, Fn{ id }), id);
}
#else
static NOINLINE void create_cc( int self, uint32_t mx) {
    int id = new_task(); ++n_create; ++live; Stk s = { id };
    set( self, id, self);
    try { Ctx h = ctx::callcc( std::allocator_arg, s, Fn{ id }); arrive( self, mx); received( std::move( h)); } catch ( uint64_t) { ++n_exc; arrive( self, mx); }
}
#endif
static NOINLINE void destroy( Ctx && h, int id) {
    Task & t = T( id); bool was = t.started; t.dying_on = tid(); if ( ! was) t.done = true;
    ++n_destroy; { Ctx x = std::move( h); REQUIRE( ! h, "handle-bool", "moved-from handle is true"); }
    REQUIRE( t.done, "unwind", "context %d not ended by the destruction of its handle", id); REQUIRE( t.locals == 0, "unwind", "%d locals of context %d left", t.locals.load(), id);
    REQUIRE( t.stack == 0, "release-missing", "stack of context %d not released", id);
    if ( ! was) --live; 
}
static NOINLINE void work( int self, uint32_t mx, int depth) {
    uint64_t s = me().r.next(); Guard g( T( self), s); int n = 1 + (int) me().r.below( 4);
    for ( int i = 0; i < n; ++i) {
        if ( drain && me().r.below( 2)) { }
        unsigned op = me().r.below( 12);
        if ( op < 2 && depth < 4) work( self, mx, depth + 1);
        else if ( op < 5) { if ( me().home) { Ctx h = std::move( me().home); sw( self, mx, std::move( h), tid(), false); } }
        else if ( op < 8) { Item it; if ( take( it, false)) sw( self, mx, std::move( it.h), it.id, op == 7); }
        else if ( op == 8) { Item it; if ( take( it, false)) destroy( std::move( it.h), it.id); }
        else if ( op == 9) { try { Guard g2( T( self), 3); throw self; } catch ( int v) { ++n_exc; REQUIRE( v == self, "exc", "wrong exception"); } }
        else if ( ! drain && live < 40) {
#ifdef USE_CALLCC
            create_cc( self, mx);
#else
            create();
#endif
        }
        g.ok( s);
    }
}
static Ctx body( int id, Ctx && h) {
    Task & t = T( id); REQUIRE( ! t.started.exchange( true), "control", "context-function of %d entered again", id);
    struct End { int id; ~End() { Task & t = T( id); REQUIRE( t.locals == 0, "locals", "left over"); t.done = true; --live; if ( t.creator != tid()) ++n_foreign_end; } } end = { id };
    uint32_t mx = get_mxcsr() & 0xFFC0; arrive( id, mx); received( std::move( h));
    mx = 0x1F80 | ( me().r.below( 4) << 13); set_mxcsr( mx);
    int rounds = 1 + (int) me().r.below( 4);
    for ( int r = 0; r < rounds; ++r) work( id, mx, 0);
    // end: continue home or another context
    Item it;
    if ( me().home && ( me().r.below( 3) || drain)) { Ctx x = std::move( me().home); set( id, tid(), EMPTY); return x; }
    if ( take( it, false)) { set( id, it.id, EMPTY); return std::move( it.h); }
    REQUIRE( static_cast< bool >( me().home), "control", "no way home"); Ctx x = std::move( me().home); set( id, tid(), EMPTY); return x;
}
static void worker( int k, uint64_t seed, unsigned long long ops) {
    tl_id = k; PerThread p; p.r = Rng( seed); p.fs = tp(); PT[k] = & p; ++n_threads;
    { Task & t = T( k); t.last = k; t.started = true; }
    uint32_t mx = get_mxcsr() & 0xFFC0;
    while ( p.ops < ops) {
        unsigned op = p.r.below( 8);
        if ( op < 4) { Item it; if ( take( it, false)) sw( k, mx, std::move( it.h), it.id, op == 3); else op = 7; }
        else if ( op == 4) { Item it; if ( take( it, false)) destroy( std::move( it.h), it.id); }
        if ( op >= 5 && ! drain && live < 40) {
#ifdef USE_CALLCC
            create_cc( k, mx);
#else
            create();
#endif
        }
        ++p.ops; REQUIRE( ! p.home, "control", "main context of thread %d runs and is suspended", k);
    }
    PT[k] = 0;
}
static void migrate( uint64_t seed) {
    drain = false; pool.clear(); tasks.clear(); live = 0; tl_id = 0; PerThread pm; PT[0] = & pm; pm.fs = tp();
    for ( int i = 0; i < MAXT; ++i) new_task();
    Rng r( seed); unsigned waves = 2 + r.below( 3), used = 1;
    for ( unsigned w = 0; w < waves; ++w) {            // threads of one wave are gone when the next one continues their contexts
        std::vector< std::thread > th; unsigned n = 1 + r.below( 6);
        for ( unsigned i = 0; i < n; ++i) { int k = (int) used++; th.push_back( std::thread( worker, k, r.next(), 100 + r.below( 500))); }
        for ( auto & t : th) t.join();
    }
    drain = true; std::thread( worker, (int) used, r.next(), 300ull).join();
    PT[0] = & pm; pm.r = Rng( seed + 1); uint32_t mx = get_mxcsr() & 0xFFC0; T( 0).started = true; T( 0).last = 0;
    for (;;) { Item it; if ( ! take( it, false)) break; if ( r.below( 2)) destroy( std::move( it.h), it.id); else sw( 0, mx, std::move( it.h), it.id, r.below( 3) == 0); }
    REQUIRE( live == 0, "lost-context", "%d contexts lost", live.load()); REQUIRE( n_stacks == 0, "release-missing", "%llu stacks lost", n_stacks.load());
    for ( size_t i = MAXT; i < tasks.size(); ++i) REQUIRE( tasks[i].done && tasks[i].locals == 0, "lost-context", "context %zu never ended", i);
    PT[0] = 0;
}
// ------------------------------------------------------------ churn
static Ctx simple( int * sum) {
    auto f = [sum]( Ctx && h) -> Ctx { struct L { int * s; ~L() { ++* s; } } l = { sum }; for (;;) h = std::move( h).resume(); return std::move( h); };
#ifdef USE_CALLCC
    return ctx::callcc( f);
#else
    Ctx c{ f }; return std::move( c).resume();
#endif
}
static thread_local std::unique_ptr< Ctx > tl_ctx;      // destroyed by thread exit
static void churn_thread( int k) {
    int s = 0;
    switch ( k % 5) {
    case 0: break;                                                                             // never touches contexts
    case 1: { Ctx c = simple( & s); c = std::move( c).resume(); } REQUIRE( s == 1, "unwind", "local not destroyed"); break;
    case 2: { Ctx c; } break;
    case 3: { static thread_local int dummy; tl_ctx.reset( new Ctx( simple( & dummy))); * tl_ctx = std::move( * tl_ctx).resume(); break; }
    default: { std::vector< Ctx > v; for ( int i = 0; i < 5; ++i) v.push_back( simple( & s)); for ( int r = 0; r < 3; ++r) for ( auto & c : v) c = std::move( c).resume(); v.clear(); REQUIRE( s == 5, "unwind", "locals"); break; }
    }
}
static long heap_in_use() {
#if defined(VERIF_ASAN) || defined(VERIF_TSAN)
    return 0;
#else
    return (long) mallinfo2().uordblks + (long) mallinfo2().hblkhd;
#endif
}
static long maps() {
#if defined(VERIF_ASAN) || defined(VERIF_TSAN)
    return 0;
#endif
    long n = 0; FILE * f = fopen( "/proc/self/maps", "r"); if ( ! f) return 0; int c; while ( ( c = fgetc( f)) != EOF) if ( c == '\n') ++n; fclose( f); return n; }
static void churn( Rng & r, unsigned waves) {
    long h0 = 0, m0 = 0;
    for ( unsigned w = 0; w < waves; ++w) {
        std::vector< std::thread > th; unsigned n = 1 + r.below( 12);
        for ( unsigned i = 0; i < n; ++i) { th.push_back( std::thread( churn_thread, (int) r.below( 50))); ++n_threads; }
        for ( auto & t : th) t.join();
        std::vector< std::thread >().swap( th);
        if ( w == waves / 4) { h0 = heap_in_use(); m0 = maps(); }
    }
    long h1 = heap_in_use(), m1 = maps();
    // arenas and cached thread stacks settle early; what grows per thread would show
    long threads = (long) waves * 5;
    REQUIRE( h1 - h0 < threads * 8 + 65536, "thread-leak", "heap in use grew from %ld to %ld over %ld threads", h0, h1, threads);
    REQUIRE( m1 - m0 < 60, "thread-leak", "mappings grew from %ld to %ld", m0, m1);
}
// ------------------------------------------------------------ alone versus together
static uint64_t ring( uint64_t seed) {
    Rng r( seed); uint64_t hsh = seed; unsigned n = 2 + r.below( 8); std::vector< Ctx > v( n); uint64_t * hp = & hsh;
    ctx::pooled_fixedsize_stack pl( SZ); ctx::protected_fixedsize_stack pr( SZ); ctx::fixedsize_stack fx( SZ);
    for ( unsigned i = 0; i < n; ++i) {
        auto f = [hp,i]( Ctx && h) -> Ctx {
            uint64_t loc = i; struct D { uint64_t * h, * l; ~D() { * h = mix( * h, * l); } } d = { hp, & loc };
            for (;;) { try { loc = mix( loc, * hp); if ( loc % 3 == 0) throw loc; } catch ( uint64_t v) { * hp = mix( * hp, v); ++n_exc; } h = std::move( h).resume(); if ( loc % 11 == 0) break; }
            return std::move( h); };
#ifdef USE_CALLCC
        v[i] = i % 3 == 0 ? ctx::callcc( std::allocator_arg, pl, f) : i % 3 == 1 ? ctx::callcc( std::allocator_arg, pr, f) : ctx::callcc( std::allocator_arg, fx, f);
#else
        v[i] = i % 3 == 0 ? Ctx( std::allocator_arg, pl, f) : i % 3 == 1 ? Ctx( std::allocator_arg, pr, f) : Ctx( std::allocator_arg, fx, f);
#endif
    }
    for ( int s = 0; s < 60; ++s) {
        unsigned k = r.below( n); if ( ! v[k]) continue;
        if ( r.below( 4) == 0) v[k] = std::move( v[k]).resume_with( [hp,s]( Ctx && h) -> Ctx { * hp = mix( * hp, (uint64_t) s); ++n_ontop; return std::move( h); });
        else if ( r.below( 12) == 0) v[k] = Ctx(); else v[k] = std::move( v[k]).resume();
        hsh = mix( hsh, static_cast< bool >( v[k])); ++n_switch;
    }
    v.clear(); return hsh;
}
static void alone( uint64_t seed, unsigned nthr) {
    std::vector< uint64_t > ref( 40); for ( size_t i = 0; i < ref.size(); ++i) ref[i] = ring( mix( seed, i));
    std::vector< std::thread > th; std::atomic< unsigned > ready( 0);
    for ( unsigned k = 0; k < nthr; ++k) { ++n_threads; th.push_back( std::thread( [&,k]() { ++ready; while ( ready < nthr) {} for ( size_t j = 0; j < ref.size(); ++j) { size_t i = ( j * 7 + k * 3) % ref.size(); uint64_t h = ring( mix( seed, i)); REQUIRE( h == ref[i], "thread-independence", "program %zu behaves differently on thread %u than alone", i, k); } })); }
    for ( auto & t : th) t.join();
}
int main( int argc, char ** argv) {
    uint64_t seed = arg_ull( argc, argv, "--seed", 1), eps = arg_ull( argc, argv, "--episodes", 10);
    std::string mode = "migrate"; for ( int i = 1; i + 1 < argc; ++i) if ( ! strcmp( argv[i], "--mode")) mode = argv[i+1];
    g_phase = "threads";
    if ( mode == "churn") { Rng r( seed); churn( r, (unsigned) eps); }
    else for ( uint64_t e = 0; e < eps; ++e) { g_case = e; if ( mode == "migrate") migrate( mix( seed, e)); else alone( mix( seed, e), 2 + e % 7); }
    stat( "thread_switches", n_switch); stat( "migrations", n_migr); stat( "foreign_ends", n_foreign_end); stat( "thread_ontops", n_ontop); stat( "thread_destroys", n_destroy); stat( "thread_contexts", n_create);
    stat( "threads_run", n_threads); stat( "thread_exceptions", n_exc); stat( "thread_episodes", eps);
    sample( "threads mode=%s seed=%llu episodes=%llu migrations=%llu", mode.c_str(), (unsigned long long) seed, (unsigned long long) eps, (unsigned long long) n_migr);
    return 0;
}
