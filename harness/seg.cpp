// Segmented stacks: contexts that grow far beyond their first segment, in any mixture with switching, exceptions, functions
// on top, unwinding and other threads. The calls of the segmented-stack runtime to map and unmap memory are interposed (--wrap):
// every segment has an owner, frames of a context must lie in its own segments, nobody else may give them back, none may be left.
#include "common.hpp"
#ifdef USE_CALLCC
#include <boost/context/continuation.hpp>
#else
#include <boost/context/fiber.hpp>
#endif
#include <boost/context/segmented_stack.hpp>
#include <boost/context/preallocated.hpp>
#include <sys/mman.h>
#include <signal.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <malloc.h>
#include <pthread.h>
#include <memory>
#include <thread>
#include <vector>
namespace ctx = boost::context;
#ifdef USE_CALLCC
typedef ctx::continuation Ctx;
#else
typedef ctx::fiber Ctx;
#endif

// ---------------------------------------------------------------- segments and their owners (no locks, little stack: called while the stack grows)
enum { MAXSEG = 1 << 16 };
struct Seg { char * volatile p; size_t n; int owner; };
static Seg g_seg[MAXSEG]; static int g_top = 0, g_live = 0; static unsigned long g_mapped = 0, g_bytes = 0, g_unmapped = 0;
static thread_local int t_next = -1, t_over = -1;      // owner of the stack being allocated or released (0: the threads' own stacks)
static int g_lock = 0; static bool g_fail = false;
static const char * volatile g_bad = 0; static int g_bad_owner, g_bad_who;
extern "C" long __real_syscall( long, ...);
#define NOSPLIT __attribute__((no_split_stack, noinline))
extern "C" long __wrap_syscall( long, long, long, long, long, long, long) NOSPLIT;
static void mapped( char *, size_t) NOSPLIT;
static void unmapped( char *, size_t) NOSPLIT;
static int owner_of( void const*) NOSPLIT;
static int segments_of( int, size_t * = 0) NOSPLIT;
// the runtime grows the stack it runs on; whole stacks are made and released in the two functions below
static int self() NOSPLIT;
static int self() { if ( t_over >= 0) return t_over; int o = owner_of( __builtin_frame_address( 0)); return o < 0 ? 0 : o; }
extern "C" void * __real___splitstack_makecontext( size_t, void **, size_t *);
extern "C" void __real___splitstack_releasecontext( void **);
extern "C" void * __wrap___splitstack_makecontext( size_t, void **, size_t *) NOSPLIT;
extern "C" void __wrap___splitstack_releasecontext( void **) NOSPLIT;
extern "C" void * __wrap___splitstack_makecontext( size_t n, void ** c, size_t * m) { if ( g_fail) return 0; t_over = t_next; void * r = __real___splitstack_makecontext( n, c, m); t_over = -1; return r; }
extern "C" void __wrap___splitstack_releasecontext( void ** c) { t_over = t_next; __real___splitstack_releasecontext( c); t_over = -1; }
static void mapped( char * p, size_t n) {
    int o = self();
    while ( __atomic_exchange_n( & g_lock, 1, __ATOMIC_ACQUIRE)) {}
    int i = 0; while ( i < g_top && g_seg[i].p) ++i;
    if ( i < MAXSEG) { if ( i == g_top) ++g_top; g_seg[i].p = p; g_seg[i].n = n; g_seg[i].owner = o; ++g_live; ++g_mapped; g_bytes += n; }
    __atomic_store_n( & g_lock, 0, __ATOMIC_RELEASE);
}
static void unmapped( char * a, size_t n) {
    int o = self();
    while ( __atomic_exchange_n( & g_lock, 1, __ATOMIC_ACQUIRE)) {}
    int i = 0; while ( i < g_top && g_seg[i].p != a) ++i;
    if ( i == g_top) { if ( ! g_bad) { g_bad = "gives back memory that is no segment"; g_bad_who = o; } }
    else {
        if ( g_seg[i].owner != o && ! g_bad) { g_bad = "gives back a segment of"; g_bad_who = o; g_bad_owner = g_seg[i].owner; }
        if ( g_seg[i].n != n && ! g_bad) { g_bad = "gives back a segment in parts, owner"; g_bad_who = o; g_bad_owner = g_seg[i].owner; }
        g_seg[i].p = 0; --g_live; ++g_unmapped;
    }
    __atomic_store_n( & g_lock, 0, __ATOMIC_RELEASE);
}
extern "C" long __wrap_syscall( long k, long a, long b, long c, long d, long e, long f) {
    if ( k == SYS_munmap && a) unmapped( (char*) a, (size_t) b);
    long r = __real_syscall( k, a, b, c, d, e, f);
    if ( k == SYS_mmap && r != -1) mapped( (char*) r, (size_t) b);
    return r;
}
static int owner_of( void const* a) {
    int r = -1;
    while ( __atomic_exchange_n( & g_lock, 1, __ATOMIC_ACQUIRE)) {}
    for ( int i = 0; i < g_top; ++i) if ( g_seg[i].p && (char*) a >= g_seg[i].p && (char*) a < g_seg[i].p + g_seg[i].n) { r = g_seg[i].owner; break; }
    __atomic_store_n( & g_lock, 0, __ATOMIC_RELEASE);
    return r;
}
static int segments_of( int id, size_t * bytes) {
    int k = 0; size_t b = 0;
    while ( __atomic_exchange_n( & g_lock, 1, __ATOMIC_ACQUIRE)) {}
    for ( int i = 0; i < g_top; ++i) if ( g_seg[i].p && g_seg[i].owner == id) { ++k; b += g_seg[i].n; }
    __atomic_store_n( & g_lock, 0, __ATOMIC_RELEASE);
    if ( bytes) * bytes = b;
    return k;
}

// ---------------------------------------------------------------- the allocator of the contexts: segmented_stack, with attribution
struct AllocState { int id; int allocs, deallocs; ctx::stack_context sctx; bool grown; };
static unsigned long g_released_grown = 0, g_unwound = 0, g_frames = 0, g_maxdepth = 0, g_switches = 0, g_grown_switches = 0, g_created = 0, g_threads = 0, g_exc = 0, g_ontop = 0, g_prealloc = 0, g_maxseg = 0, g_masks = 0;
static HashSet * g_shapes;
struct SegAlloc {
    typedef ctx::segmented_stack::traits_type traits_type;
    ctx::segmented_stack a; AllocState * s;
    SegAlloc( AllocState * s_, size_t n) : a( n), s( s_) {}
    ctx::stack_context allocate() {
        t_next = s->id;
        ctx::stack_context c = a.allocate();
        t_next = -1; ++s->allocs; s->sctx = c;
        REQUIRE( segments_of( s->id) == 1, "allocate", "a new segmented stack consists of %d segments", segments_of( s->id));
        REQUIRE( owner_of( (char*) c.sp - 1) == s->id && owner_of( (char*) c.sp - c.size) == s->id, "allocate", "stack region is not in the new segment");
        return c;
    }
    void deallocate( ctx::stack_context & c) noexcept {
        int n = segments_of( s->id); if ( n > 1) ++g_released_grown;
        t_next = s->id;
        a.deallocate( c);
        t_next = -1; ++s->deallocs;
        REQUIRE( segments_of( s->id) == 0, "segments-returned", "%d of %d segments of a context were not returned when it ended", segments_of( s->id), n);
        REQUIRE( ! g_bad, "segment-owner", "context %d %s %d", g_bad_who, g_bad, g_bad_owner);
    }
};

// ---------------------------------------------------------------- programs
struct Boom { int id, depth; };
struct Task;
struct Prog { Rng rng; std::vector< std::unique_ptr< Task > > tasks; int locals, nid; uint64_t hash; explicit Prog( uint64_t s) : rng( s), locals( 0), nid( 1), hash( 1) {} };
struct Task {
    Prog & p; int id; AllocState as; Ctx h; int depth, maxdepth, live, nest; bool ended, started; uint64_t left;
    Task( Prog & q, int i) : p( q), id( i), as(), depth( 0), maxdepth( 0), live( 0), nest( 0), ended( false), started( false), left( 0) { as.id = i; }
};
struct Loc { Task & t; int v; Loc( Task & t_, int v_) : t( t_), v( v_ ^ t_.id) { ++t.live; ++t.p.locals; } ~Loc() { REQUIRE( t.live > 0 && ( v ^ t.id) >= 0, "unwinding", "a local of task %d is destroyed twice", t.id); --t.live; --t.p.locals; } };
typedef unsigned char byte;
static inline byte pat( int id, int d, size_t i) { return (byte)( id * 7 + d * 31 + i * 13 + ( i >> 8)); }
static volatile size_t g_size_in[] = { 40, 300, 1500, 5000, 20000, 70000, 260000 };
static int deep( Task & t, Ctx & m, int d, int goal);
static NOINLINE int nested( Task & t, Ctx & m, int d, int goal);
static std::unique_ptr< Task > make( Prog & p, int nest);
static void step( Prog & p, Task & t);
static void gone( Task & t);
static void check_mask() { sigset_t s; pthread_sigmask( SIG_BLOCK, 0, & s); ++g_masks; for ( int i = 1; i < 32; ++i) REQUIRE( sigismember( & s, i) == ( i == SIGUSR1), "signal-mask", "signal %d is %sblocked", i, i == SIGUSR1 ? "un" : ""); }

static void yield( Task & t, Ctx & m) {
    int id = t.id; ++g_switches; int n = segments_of( id); if ( n > 1) ++g_grown_switches;
    m = std::move( m).resume();
   
    REQUIRE( (bool) m, "handles", "task %d was resumed with an empty handle", id);
}
template< size_t N >
static NOINLINE int frame( Task & t, Ctx & m, int d, int goal) {
    byte b[N]; Loc l( t, d);
    byte volatile * v = b; size_t step = N > 4096 ? 61 : 1;
    for ( size_t i = 0; i < N; i += step) v[i] = pat( t.id, d, i);
    v[N - 1] = pat( t.id, d, N - 1); ++g_frames;
    REQUIRE( owner_of( b) == t.id && owner_of( b + N - 1) == t.id, "frames", "frame (depth %d, %zu bytes) of task %d lies in memory of %d", d, N, t.id, owner_of( b));
    int r = deep( t, m, d + 1, goal);
    for ( size_t i = 0; i < N; i += step) REQUIRE( v[i] == pat( t.id, d, i), "data", "byte %zu of the frame at depth %d (%zu bytes) of task %d was changed", i, d, N, t.id);
    REQUIRE( v[N - 1] == pat( t.id, d, N - 1), "data", "last byte of the frame at depth %d of task %d was changed", d, t.id);
    return r + 1;
}
static NOINLINE int frame_alloca( Task & t, Ctx & m, int d, int goal, size_t n) {
    byte volatile * v = (byte volatile *) __builtin_alloca( n); Loc l( t, d);
    for ( size_t i = 0; i < n; i += 17) v[i] = pat( t.id, d, i);
    int r = deep( t, m, d + 1, goal);
    for ( size_t i = 0; i < n; i += 17) REQUIRE( v[i] == pat( t.id, d, i), "data", "byte %zu of alloca memory at depth %d of task %d was changed", i, d, t.id);
    return r + 1;
}
static NOINLINE int args12( Task & t, Ctx & m, int d, int goal, long a, long b, long c, long e, double f, long g, long h, double i) {    // arguments on the stack are copied when the stack grows
    byte v[9000]; memset( v, d, sizeof v);
    int r = deep( t, m, d + 1, goal);
    REQUIRE( a == d + 1 && b == d + 2 && c == d + 3 && e == d + 4 && f == d + 5.5 && g == d + 6 && h == d + 7 && i == d + 8.25 && v[8999] == (byte) d, "data", "arguments at depth %d of task %d were changed", d, t.id);
    return r + 1;
}
static NOINLINE int guarded( Task & t, Ctx & m, int d, int goal) {
    Loc l( t, d); int live = t.live;
    bool hit = false; int r = 0;
    try { r = deep( t, m, d + 1, goal); } catch ( Boom const& b) {
        REQUIRE( b.id == t.id && b.depth > d && t.live == live, "exceptions", "task %d at depth %d caught the exception of task %d from depth %d with %d locals alive instead of %d", t.id, d, b.id, b.depth, t.live, live);
        hit = true; ++g_exc;
    }
    if ( hit) { if ( t.p.rng.below( 2)) yield( t, m); return goal - d; }
    return r + 1;
}
static int deep( Task & t, Ctx & m, int d, int goal) {
    t.depth = d; if ( d > t.maxdepth) t.maxdepth = d;
    if ( (unsigned long) d > g_maxdepth) g_maxdepth = d;
    unsigned x = t.p.rng.below( 100);
    if ( x < 12) yield( t, m);
    if ( d >= goal) { int n = segments_of( t.id); if ( (unsigned long) n > g_maxseg) g_maxseg = n; if ( x > 30) yield( t, m); if ( x % 11 == 3) check_mask(); if ( x > 70 && d > 20) throw Boom{ t.id, d }; return 0; }
    switch ( t.p.rng.below( 16)) {
    case 0: case 1: case 2: return frame< 40 >( t, m, d, goal);
    case 3: case 4: case 5: return frame< 300 >( t, m, d, goal);
    case 6: case 7: return frame< 1500 >( t, m, d, goal);
    case 8: case 9: return frame< 5000 >( t, m, d, goal);
    case 10: return frame< 20000 >( t, m, d, goal);
    case 11: return t.p.rng.below( 3) ? frame< 40 >( t, m, d, goal) : frame< 70000 >( t, m, d, goal);
    case 12: return t.p.rng.below( 6) ? frame< 300 >( t, m, d, goal) : frame< 260000 >( t, m, d, goal);
    case 13: return frame_alloca( t, m, d, goal, 1 + t.p.rng.below( 30000));
    case 14: return args12( t, m, d, goal, d + 1, d + 2, d + 3, d + 4, d + 5.5, d + 6, d + 7, d + 8.25);
    case 15: if ( t.nest < 2 && t.p.rng.below( 4) == 0) return nested( t, m, d, goal);  // fall through
    default: return guarded( t, m, d, goal);
    }
}
static unsigned long g_nested = 0;
// a context of its own, created, driven and abandoned or finished in a frame of this one
static NOINLINE int nested( Task & t, Ctx & m, int d, int goal) {
    Loc l( t, d); ++g_nested; ++t.nest;
    { Prog & p = t.p; std::unique_ptr< Task > c = make( p, t.nest); unsigned n = p.rng.below( 6);
      for ( unsigned i = 0; i < n && c->h; ++i) { if ( p.rng.below( 4) == 0) yield( t, m); step( p, * c); }
      if ( c->h) { if ( c->started && ! c->ended) ++g_unwound; c->h = Ctx(); gone( * c); } }
    --t.nest;
    return deep( t, m, d + 1, goal) + 1;
}
static Ctx body( Task & t, Ctx && m) {
    t.started = true; Loc l( t, 1);
    // (the rest of the program runs with the very same draws whatever the build: draws are made by statements, never within one expression)
    unsigned rounds = 1 + t.p.rng.below( 4);
    for ( unsigned i = 0; i < rounds; ++i) {
        unsigned k = t.p.rng.below( 10); unsigned w = t.p.rng.below( 60);
        int goal = k < 3 ? (int) w % 8 : k < 8 ? 10 + (int) w : 100 + (int) w * 6;
        int live = t.live;
        try { int r = deep( t, m, 0, goal); REQUIRE( r == goal, "data", "a call of depth %d in task %d returned %d", goal, t.id, r); }
        catch ( Boom const& b) { ++g_exc; REQUIRE( b.id == t.id, "exceptions", "task %d caught the exception of task %d", t.id, b.id); }
        REQUIRE( t.live == live, "unwinding", "task %d has %d locals instead of %d after a call returned", t.id, t.live, live);
        yield( t, m);
    }
    t.ended = true;
    return std::move( m);
}
static void gone( Task & t) {
    REQUIRE( t.as.allocs == t.as.deallocs, "segments-returned", "the stack of task %d was allocated %d and deallocated %d times", t.id, t.as.allocs, t.as.deallocs);
    REQUIRE( segments_of( t.id) == 0, "segments-returned", "%d segments of task %d are left", segments_of( t.id), t.id);
    REQUIRE( t.live == 0, "unwinding", "%d locals of task %d are left", t.live, t.id);
}
static std::unique_ptr< Task > make( Prog & p, int nest) {
    int id = p.nid++; std::unique_ptr< Task > tp( new Task( p, id)); Task & t = * tp; t.nest = nest; ++g_created;
    static const size_t sizes[] = { 0, 4096, 8192, 16384, 30000, 65536, 200000 };       // (0: default size)
    unsigned x = p.rng.below( 7), pre = p.rng.below( 6);
    SegAlloc a( & t.as, x ? sizes[x] : ctx::segmented_stack::traits_type::default_size());
    auto f = [& t]( Ctx && m) { return body( t, std::move( m)); };
    if ( p.rng.below( 20) == 0) {           // no memory
        int live = g_live; bool thrown = false; g_fail = true;
        try { ctx::stack_context c = a.a.allocate(); REQUIRE( 0, "allocate", "no stack was available but allocate() returned sp=%p", c.sp); } catch ( std::bad_alloc const&) { thrown = true; }
#ifdef USE_CALLCC
        try { Ctx c = ctx::callcc( std::allocator_arg, a.a, f); thrown = false; } catch ( std::bad_alloc const&) {}
#else
        try { Ctx c( std::allocator_arg, a.a, f); thrown = false; } catch ( std::bad_alloc const&) {}
#endif
        g_fail = false;
        REQUIRE( thrown && g_live <= live + 1, "allocate", "a context was created without memory for its stack");
    }
    if ( pre == 0) {
        ++g_prealloc;
        ctx::stack_context c = a.allocate(); size_t off = 64;
        memset( (char*) c.sp - off, 0x5A, off);
        ctx::preallocated q( (char*) c.sp - off, c.size - off, c);
#ifdef USE_CALLCC
        t.h = ctx::callcc( std::allocator_arg, q, a, f);
#else
        t.h = Ctx( std::allocator_arg, q, a, f);
#endif
    } else
#ifdef USE_CALLCC
    t.h = ctx::callcc( std::allocator_arg, a, f);
#else
    t.h = Ctx( std::allocator_arg, a, f);
#endif
    return tp;
}
static void create( Prog & p) { std::unique_ptr< Task > t = make( p, 0); p.tasks.push_back( std::move( t)); }
static void step( Prog & p, Task & t) {
    unsigned x = p.rng.below( 20);
    p.hash = mix( p.hash, x * 1000 + t.id);
    if ( x == 0) { if ( t.started && ! t.ended) ++g_unwound; t.h = Ctx(); gone( t); return; }
    if ( x < 4) {
        int n = 0, id = t.id; ++g_ontop;
        t.h = std::move( t.h).resume_with( [&]( Ctx && m) {
            ++n;
            if ( t.started && p.rng.below( 2)) { try { deep( t, m, 0, 25); } catch ( Boom const&) { ++g_exc; } }       // grows on top of whatever is there
            return std::move( m);
        });
        REQUIRE( n == 1, "ontop", "function on top of task %d was executed %d times", id, n);
    } else if ( x < 7) { ++g_threads; std::thread( [&] { t.h = std::move( t.h).resume(); }).join(); }
    else { t.h = std::move( t.h).resume(); }
    ++g_switches;
    if ( ! t.h) { REQUIRE( t.ended, "handles", "task %d has not ended but its handle is empty", t.id); t.h = Ctx(); gone( t); }
}
// the thread's own stack grows by segments as well
static NOINLINE void main_deep( Prog & p, Task & t, int n) {
    if ( ! n) { step( p, t); return; }
    byte b[30000]; byte volatile * v = b;
    for ( size_t i = 0; i < sizeof b; i += 97) v[i] = pat( 0, n, i);
    main_deep( p, t, n - 1);
    for ( size_t i = 0; i < sizeof b; i += 97) REQUIRE( v[i] == pat( 0, n, i), "data", "byte %zu of the frame at depth %d of the thread was changed", i, n);
}
static void episode( uint64_t seed) {
    Prog p( seed); unsigned nt = 1 + p.rng.below( 7), ops = 20 + p.rng.below( 100);
    for ( unsigned i = 0; i < nt; ++i) create( p);
    for ( unsigned i = 0; i < ops && ! p.tasks.empty(); ++i) {
        unsigned k = p.rng.below( (unsigned) p.tasks.size()), c = p.rng.below( 10);
        Task & t = * p.tasks[k];
        if ( t.h) main_deep( p, t, (int) p.rng.below( 5) * (int) p.rng.below( 5));
        if ( ! t.h) p.tasks.erase( p.tasks.begin() + k);
        if ( ! c && p.tasks.size() < 8) create( p);
    }
    for ( auto & t : p.tasks) if ( t->h) { if ( t->started && ! t->ended) ++g_unwound; t->h = Ctx(); gone( * t); }
    REQUIRE( p.locals == 0, "unwinding", "%d locals are left", p.locals);
    REQUIRE( ! g_bad, "segment-owner", "context %d %s %d", g_bad_who, g_bad, g_bad_owner);
    g_shapes->add( p.hash);
}
// many grown contexts at once
static void crowd( unsigned n, uint64_t seed) {
    Prog p( seed);
    size_t mine = segments_of( 0), live = g_live;
    for ( unsigned i = 0; i < n; ++i) create( p);
    for ( unsigned r = 0; r < 3; ++r) for ( auto & t : p.tasks) if ( t->h) { t->h = std::move( t->h).resume(); ++g_switches; }
    while ( ! p.tasks.empty()) { size_t k = p.rng.below( (unsigned) p.tasks.size()); Task & t = * p.tasks[k]; if ( t.started && ! t.ended) ++g_unwound; t.h = Ctx(); gone( t); std::swap( p.tasks[k], p.tasks.back()); p.tasks.pop_back(); }
    REQUIRE( (size_t) g_live == live + segments_of( 0) - mine, "segments-returned", "%d segments are mapped after %u contexts, %zu before", g_live, n, live);
}
int main( int argc, char ** argv) {
    uint64_t seed = arg_ull( argc, argv, "--seed", 1), n = arg_ull( argc, argv, "--episodes", 100), nc = arg_ull( argc, argv, "--crowd", 200);
    sigset_t s; sigemptyset( & s); sigaddset( & s, SIGUSR1); sigprocmask( SIG_SETMASK, & s, 0);
    g_shapes = new HashSet; g_phase = "segments"; size_t heap = 0;
    for ( uint64_t i = 0; i < n; ++i) {
        g_case = i; episode( seed * 1000003 + i);
        if ( i == n / 4) { heap = mallinfo2().uordblks; }
        REQUIRE( g_live == segments_of( 0), "segments-returned", "%d segments of contexts are mapped after episode %llu", g_live - segments_of( 0), (unsigned long long) i);
        REQUIRE( segments_of( 0) < 100, "segments-returned", "the thread's own stack consists of %d segments", segments_of( 0));
    }
    size_t end = mallinfo2().uordblks;
    REQUIRE( n < 40 || end < heap + 300000, "segments-returned", "heap in use grew from %zu to %zu bytes over %llu episodes", heap, end, (unsigned long long) n);
    g_phase = "crowd"; crowd( (unsigned) nc, seed);
    stat( "seg_episodes", n); stat( "seg_created", g_created); stat( "seg_switches", g_switches); stat( "seg_switches_while_grown", g_grown_switches); stat( "seg_segments_mapped", g_mapped); stat( "seg_segments_returned", g_unmapped);
    stat( "seg_frames_checked", g_frames); stat( "seg_max_depth", g_maxdepth); stat( "seg_max_segments_of_one", g_maxseg); stat( "seg_released_while_grown", g_released_grown); stat( "seg_unwound", g_unwound); stat( "seg_exceptions", g_exc);
    stat( "seg_ontop", g_ontop); stat( "seg_continued_on_thread", g_threads); stat( "seg_preallocated", g_prealloc); stat( "seg_nested", g_nested); stat( "seg_signal_masks", g_masks); stat( "seg_distinct_histories", g_shapes->n);
    sample( "segments: %lu contexts, %lu segments (%lu kB) mapped, %lu returned, up to %lu per context, depth up to %lu, heap %zu -> %zu", g_created, g_mapped, g_bytes / 1024, g_unmapped, g_maxseg, g_maxdepth, heap, end);
    return 0;
}
