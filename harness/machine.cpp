// Random multi-context programs executed against an independent model of who must be running,
// which handle must be seen where, which objects must be alive and which stacks must be released.
// Every observation point compares the real execution with the model ("online monitor").
//
//   -DUSE_CALLCC          drive continuation/callcc instead of fiber
//   -DCOUNTERPART         the programs of USE_CALLCC driving fiber, started by the first resume()
//   -DSEG                 segmented stacks build
//   -DNO_FPENV            library built without floating point environment saving (BOOST_USE_TSX)
//   -DHANDS_OFF           the harness does not touch stack memory (for real sanitizers), much reuse of stacks
//   -DTOOLMON             calls of the sanitizer and Valgrind interfaces are monitored by toolmon.hpp
#include "common.hpp"
#ifdef COUNTERPART       // programs written for callcc(), run with fiber: construct, then resume at once
#define USE_CALLCC
#define HANDLE_IS_FIBER
#endif
#if defined(USE_CALLCC) && ! defined(HANDLE_IS_FIBER)
#include <boost/context/continuation.hpp>
#else
#include <boost/context/fiber.hpp>
#endif
#include <boost/context/fixedsize_stack.hpp>
#include <boost/context/protected_fixedsize_stack.hpp>
#include <boost/context/pooled_fixedsize_stack.hpp>
#ifdef SEG
#include <boost/context/segmented_stack.hpp>
#endif
#if defined(SEG) || defined(BOOST_USE_WINFIB)
# define OWN_STACK         // contexts run (partly) on memory the allocator does not know
#endif
#include <boost/context/preallocated.hpp>
#include <exception>
#include <functional>
#include <memory>
#include <sstream>
#include <thread>
#include <tuple>
#include <vector>
#include <map>

namespace ctx = boost::context;
#if defined(USE_CALLCC) && ! defined(HANDLE_IS_FIBER)
typedef ctx::continuation Ctx;
#else
typedef ctx::fiber Ctx;
#endif

#if defined(VERIF_ASAN) || defined(VERIF_TSAN) || defined(BIGSTACK)
enum { STK_BASE = 256 * 1024 };
#else
enum { STK_BASE = 72 * 1024 };
#endif

enum { EMPTY = -1, MAIN = 0, NSLOT = 26, MAXLIVE = 10, MAXDEPTH = 5 };
static inline int FALSY( int id) { return -10 - id; }

struct World;
struct Task;
struct MyExc { World * w; int task; int level; uint64_t tag; };
struct OntopExc { int target; uint64_t tag; };

// ---------------------------------------------------------------- floating point environment
static inline uint32_t get_mxcsr() { uint32_t v; __asm__ __volatile__( "stmxcsr %0" : "=m"( v)); return v; }
static inline void set_mxcsr( uint32_t v) { __asm__ __volatile__( "ldmxcsr %0" : : "m"( v)); }
static inline uint16_t get_x87() { uint16_t v; __asm__ __volatile__( "fnstcw %0" : "=m"( v)); return v; }
static inline void set_x87( uint16_t v) { __asm__ __volatile__( "fldcw %0" : : "m"( v)); }
enum { MX_MASK = 0xFFC0 };

// ---------------------------------------------------------------- bookkeeping
struct AllocRec {
    char * sp; size_t size; int kind; int sa; int task; int released;
    char * psp;                 // preallocated pointer, or null
    ctx::stack_context sc;
};
enum Kind { K_FIXED, K_PROT, K_POOL, K_CUSTOM, K_SEG, NKIND };

struct SAState { World * w; int id; int kind; size_t size; long live; bool fail; };

enum XKind { X_NONE, X_RESUME, X_ONTOP, X_FINISH, X_UNWIND, X_UNWOUND, X_START };
// src: the handle variable through which the context is being resumed; it is empty as long as the call takes
struct Exp { int kind, from, to, recv; uint64_t tok; Ctx const* src; Exp() : kind( 0), from( 0), to( 0), recv( 0), tok( 0), src( 0) {} };

enum State { S_NEW, S_RUN, S_SUSP, S_DONE };
struct Task {
    World * w; int id; int state; int fn_calls; int pin; bool unwinding; bool finishing; bool mid_ontop;
    int destroyer; uint64_t destroyer_tok;
    AllocRec * ar;
    std::vector<int> guards;
    long tok_live, tok_ext, tok_copies, tok_moves;
    uint64_t tok;                       // current suspension token
    uint32_t mxcsr; uint16_t x87;
    bool heapfn;                        // callable lives in a std::function
    int gone;                           // all handles to it are gone
    std::unique_ptr< Exp> after; // what follows its unwinding, if not the return of its destroyer
    Task() : w( 0), id( 0), state( S_NEW), fn_calls( 0), pin( 0), unwinding( false), finishing( false), mid_ontop( false),
        destroyer( -1), destroyer_tok( 0), ar( 0), tok_live( 0), tok_ext( 0), tok_copies( 0), tok_moves( 0),
        tok( 0), mxcsr( 0), x87( 0), heapfn( false), gone( 0) {}
};

struct SlotT { Ctx h; int m; SlotT() : m( EMPTY) {} };

typedef ctx::basic_pooled_fixedsize_stack< ctx::stack_traits > Pool;

struct World {
    Rng rng;
    std::vector< std::unique_ptr< Task> > tasks;
    SlotT slots[NSLOT];
    int cur; Exp exp;
    uint64_t hash; uint64_t tokseq; long ops, maxops; bool drain;
    int inflight;               // exceptions thrown and not yet caught, in all contexts
    int dtor_nest; int live;
    int creating;
    int pend_gone;              // context unwound by a handle that its last owner left behind
    unsigned long long n_kept, n_src, n_cthrow;
    std::vector< AllocRec*> ars;
    std::vector< AllocRec*> quarantine;
    std::vector< std::unique_ptr< SAState> > sas;
    std::unique_ptr< Pool> pool;
    // coverage
    HashSet * cov; uint32_t last3[3];
    unsigned long long n_switch, n_create, n_destroy, n_ontop, n_exc, n_alloc, n_release, n_guard, n_checks, n_nested, n_failalloc;
    int guardseq;

    explicit World( uint64_t seed, HashSet * c, long mo) : rng( seed), cur( MAIN), hash( seed), tokseq( 1), ops( 0), maxops( mo), drain( false),
        inflight( 0), dtor_nest( 0), live( 0), creating( -1), pend_gone( -1), n_kept( 0), n_src( 0), n_cthrow( 0), cov( c),
        n_switch( 0), n_create( 0), n_destroy( 0), n_ontop( 0), n_exc( 0), n_alloc( 0), n_release( 0), n_guard( 0), n_checks( 0), n_nested( 0), n_failalloc( 0), guardseq( 0) {
        exp.kind = X_NONE; last3[0] = last3[1] = last3[2] = 0;
    }
    Task & T( int id) { return * tasks[id]; }
    void ev( unsigned kind, uint64_t a = 0, uint64_t b = 0) { hash = mix( mix( mix( hash, kind), a), b); }
    void cover( uint32_t sig) {
        last3[0] = last3[1]; last3[1] = last3[2]; last3[2] = sig;
        if ( cov) cov->add( mix( mix( mix( 7, last3[0]), last3[1]), last3[2]));
    }
};
static thread_local World * tl_w = 0;   // only used by plain-function context-functions, started on the creating thread

static NOINLINE void * frame_addr() { return __builtin_frame_address( 0); }

static bool in_region( AllocRec * a, void * p) { return (char*) p < a->sp && (char*) p >= a->sp - a->size; }
#ifdef TOOLMON
#include "toolmon.hpp"
#else
static inline void tm_allocated( AllocRec *) {}
static inline void tm_released( char *, char *, int) {}
static inline void tm_releasing( AllocRec *) {}
#endif

static void check_stack( Task & t, const char * where) {
#ifndef OWN_STACK
    World & w = * t.w; ++w.n_checks;
    char * f = (char*) frame_addr();
    if ( t.id == MAIN) {
        for ( size_t i = 0; i < w.ars.size(); ++i)
            REQUIRE( w.ars[i]->released || ! in_region( w.ars[i], f), "stack", "%s: main context runs on the stack of task %d", where, w.ars[i]->task);
    } else if ( t.ar) {
        REQUIRE( ! t.ar->released, "stack", "%s: task %d runs although its stack was released", where, t.id);
        REQUIRE( in_region( t.ar, f), "stack", "%s: task %d runs at %p outside its stack [%p,%p)", where, t.id, (void*) f, (void*)( t.ar->sp - t.ar->size), (void*) t.ar->sp);
        if ( t.ar->psp) REQUIRE( f < t.ar->psp, "stack", "%s: task %d runs above the preallocated pointer", where, t.id);
    }
#endif
}
static void check_fp( Task & t, const char * where) {
#ifndef NO_FPENV
    ++t.w->n_checks;
    REQUIRE( ( get_mxcsr() & MX_MASK) == t.mxcsr, "fpenv", "%s: task %d has MXCSR %x, expected %x", where, t.id, get_mxcsr() & MX_MASK, t.mxcsr);
    REQUIRE( get_x87() == t.x87, "fpenv", "%s: task %d has x87 CW %x, expected %x", where, t.id, get_x87(), t.x87);
#else
    (void) t; (void) where;
#endif
}
static NOINLINE void check_exc( World & w, const char * where) {
#if __cplusplus >= 201703L
    int n = std::uncaught_exceptions();
    REQUIRE( n == w.inflight, "exc-state", "%s: %d exceptions in flight, expected %d", where, n, w.inflight);
#else
    REQUIRE( std::uncaught_exception() == ( w.inflight > 0), "exc-state", "%s: uncaught_exception()=%d, expected %d in flight", where, (int) std::uncaught_exception(), w.inflight);
#endif
    REQUIRE( ! std::current_exception(), "exc-state", "%s: a caught exception is visible although nothing is being handled", where);
    ++w.n_checks;
}

// ---------------------------------------------------------------- instrumented stack allocator
static ctx::stack_context real_alloc( World & w, SAState & st) {
    ctx::stack_context s;
    switch ( st.kind) {
    case K_FIXED: { ctx::fixedsize_stack a( st.size); s = a.allocate(); REQUIRE( s.size >= st.size, "alloc-size", "fixedsize"); break; }
    case K_PROT:  { ctx::protected_fixedsize_stack a( st.size); s = a.allocate(); REQUIRE( s.size >= st.size, "alloc-size", "protected"); break; }
    case K_POOL:  s = w.pool->allocate(); REQUIRE( s.size >= STK_BASE, "alloc-size", "pooled"); break;
#ifdef SEG
    case K_SEG:   { ctx::segmented_stack a( st.size); s = a.allocate(); REQUIRE( s.size >= st.size, "alloc-size", "segmented"); break; }
#endif
    default: {
        char * b = (char*) malloc( st.size + 1024);
        memset( b, 0xC3, st.size + 1024);
        s.size = st.size; s.sp = b + 512 + st.size;
        break; }
    }
    return s;
}
static void real_dealloc( World & w, AllocRec * a) {
    ctx::stack_context s = a->sc;
    switch ( a->kind) {
    case K_FIXED: { ctx::fixedsize_stack x( a->size); x.deallocate( s); break; }
    case K_PROT:  { ctx::protected_fixedsize_stack x( a->size); x.deallocate( s); break; }
    case K_POOL:  w.pool->deallocate( s); break;
    default: free( a->sp - a->size - 512); break;
    }
    tm_released( a->sp - a->size, a->sp, a->kind);
}
static size_t guard_bytes( AllocRec * a) { return a->kind == K_PROT ? ctx::stack_traits::page_size() : 0; }
#ifdef HANDS_OFF         // the harness does not touch stack memory itself: only library, program and tool do
static void poison( AllocRec *) {}
#else
static void poison( AllocRec * a) { UNSHADOW( a->sp - a->size + guard_bytes( a), a->size - guard_bytes( a)); memset( a->sp - a->size + guard_bytes( a), 0xDD, a->size - guard_bytes( a)); }
#endif
static void check_poison( AllocRec * a) {
    // sampled: top 4K completely (control structures live there), then every 64 bytes
    unsigned char * lo = (unsigned char*) a->sp - a->size + guard_bytes( a), * hi = (unsigned char*) a->sp;
    for ( unsigned char * p = hi - 1; p >= lo; p -= ( hi - p < 4096 ? 1 : 61)) {
        REQUIRE( * p == 0xDD, "use-after-release", "byte %p of the released stack of task %d (sp-%ld) was written after its release", (void*) p, a->task, (long)( hi - p));
    }
}
static void flush_quarantine( World & w, size_t keep) {
    while ( w.quarantine.size() > keep) {
        AllocRec * a = w.quarantine.front(); w.quarantine.erase( w.quarantine.begin());
        check_poison( a);
        real_dealloc( w, a);
    }
}

struct SABase {
    SAState * st; uint32_t magic;
    explicit SABase( SAState * s) : st( s), magic( 0xA110C) { ++st->live; }
    SABase( SABase const& o) : st( o.st), magic( 0xA110C) { REQUIRE( o.magic == 0xA110C, "allocator", "copy of a destroyed allocator"); ++st->live; }
    ~SABase() { REQUIRE( magic == 0xA110C, "allocator", "allocator destroyed twice"); magic = 0xDEAD; --st->live; }
    ctx::stack_context allocate() {
        World & w = * st->w;
        REQUIRE( magic == 0xA110C, "allocator", "allocate() on a destroyed allocator");
        if ( st->fail) { ++w.n_failalloc; throw std::bad_alloc(); }
        ctx::stack_context s = real_alloc( w, * st);
        REQUIRE( s.sp && s.size, "alloc", "allocate() returned no memory");
        ++w.n_alloc;
        AllocRec * a = new AllocRec();
        a->sp = (char*) s.sp; a->size = s.size; a->sc = s; a->kind = st->kind; a->sa = st->id; a->task = w.creating; a->released = 0; a->psp = 0;
        for ( size_t i = 0; i < w.ars.size(); ++i) {
            AllocRec * o = w.ars[i];
            if ( o->released != 1) // live or quarantined
                REQUIRE( o->sp <= a->sp - a->size || o->sp - o->size >= a->sp, "alloc-overlap", "stacks of tasks %d and %d overlap", o->task, a->task);
        }
#if ! defined(SEG) && ! defined(HANDS_OFF)
        // hand the memory out with a known background
        UNSHADOW( a->sp - a->size + guard_bytes( a), a->size - guard_bytes( a));
        memset( a->sp - a->size + guard_bytes( a), 0xA5, a->size - guard_bytes( a));
#endif
        w.ars.push_back( a);
        tm_allocated( a);
        if ( w.creating >= 0) w.T( w.creating).ar = a;
        w.creating = -1;
        return s;
    }
    void deallocate( ctx::stack_context & s) noexcept {
        World & w = * st->w;
        REQUIRE( magic == 0xA110C, "allocator", "deallocate() on a destroyed allocator");
        AllocRec * a = 0;
        for ( size_t i = w.ars.size(); i-- > 0; )
            if ( w.ars[i]->sp == (char*) s.sp && ( ! w.ars[i]->released || ! a)) { a = w.ars[i]; if ( ! a->released) break; }
        REQUIRE( a, "release", "deallocate() of a stack pointer %p that was never allocated", s.sp);
        REQUIRE( ! a->released, "release-twice", "stack of task %d released twice", a->task);
        REQUIRE( a->size == s.size, "release", "stack of task %d released with size %zu, allocated with %zu", a->task, s.size, a->size);
        REQUIRE( a->sa == st->id, "release", "stack of task %d (allocator %d) released through allocator %d", a->task, a->sa, st->id);
        ++w.n_release;
        tm_releasing( a);
        if ( a->task >= 0) {
            Task & t = w.T( a->task);
            REQUIRE( t.guards.empty(), "release-early", "stack of task %d released while %zu of its locals are alive", t.id, t.guards.size());
            REQUIRE( t.tok_live == 0, "release-early", "stack of task %d released while its callable is alive (%ld)", t.id, t.tok_live);
            REQUIRE( t.state == S_DONE, "release-early", "stack of task %d released in state %d", t.id, t.state);
        }
#ifndef SEG
        REQUIRE( ! in_region( a, frame_addr()), "release-in-use", "stack of task %d released while running on it", a->task);
#endif
        if ( a->psp) for ( char * p = a->psp; p < a->sp; ++p)
            REQUIRE( (unsigned char) * p == 0x5A, "prealloc", "byte sp-%ld above the preallocated pointer was modified", (long)( a->sp - p));
        if ( a->kind == K_CUSTOM) for ( int i = 0; i < 512; ++i) {
            REQUIRE( (unsigned char) a->sp[i] == 0xC3, "stack-bounds", "byte %d above the stack of task %d was modified", i, a->task);
            REQUIRE( (unsigned char)( a->sp - a->size)[-1 - i] == 0xC3, "stack-bounds", "byte %d below the stack of task %d was modified", i, a->task);
        }
        if ( a->kind == K_SEG) {
            a->released = 1;
#ifdef SEG
            ctx::segmented_stack x; x.deallocate( s);
#endif
            return;
        }
        poison( a);
        a->released = 2;
#ifndef HANDS_OFF
        if ( a->sp && w.n_release % 3) { w.quarantine.push_back( a); return; }
#endif
        { a->released = 1; real_dealloc( w, a); }
    }
};
struct SA : SABase { explicit SA( SAState * s) : SABase( s) {} };
struct SAMove : SABase {
    explicit SAMove( SAState * s) : SABase( s) {}
    SAMove( SAMove && o) : SABase( o) {}
    SAMove( SAMove const&) = delete;
    SAMove & operator=( SAMove const&) = delete;
};

// ---------------------------------------------------------------- tracked callables
struct Tok {
    Task * t; bool ext; uint32_t magic;
    explicit Tok( Task * t_) : t( t_), ext( true), magic( 0x70C) { ++t->tok_ext; }
    Tok( Tok const& o) : t( o.t), ext( false), magic( 0x70C) { o.ok( "copy"); ++t->tok_live; ++t->tok_copies; }
    Tok( Tok && o) : t( o.t), ext( false), magic( 0x70C) { o.ok( "move"); ++t->tok_live; ++t->tok_moves; }
    ~Tok() { ok( "destruction"); magic = 0xDEAD; if ( ext) --t->tok_ext; else { --t->tok_live; REQUIRE( t->tok_live >= 0, "callable", "more destructions than constructions of the callable of task %d", t->id);} }
    void ok( const char * what) const { REQUIRE( magic == 0x70C, "callable", "%s of a destroyed or corrupt callable", what); }
};
static Ctx run_task( Task & t, Ctx && h, void * callable, bool plain);

template< size_t N, size_t A, bool MoveOnly >
struct alignas( A) Body {
    Tok tok; unsigned char pay[N]; std::unique_ptr< int> mo;
    explicit Body( Task * t) : tok( t) { fill(); if ( MoveOnly) mo.reset( new int( t->id)); }
    Body( Body const& o) : tok( o.tok) { memcpy( pay, o.pay, N); }
    Body( Body && o) : tok( std::move( o.tok)), mo( std::move( o.mo)) { memcpy( pay, o.pay, N); }
    ~Body() { verify( "destruction"); memset( pay, 0xEE, N); }
    unsigned char pat( size_t i) const { return (unsigned char)( tok.t->id * 31 + i * 7 + 3); }
    void fill() { for ( size_t i = 0; i < N; ++i) pay[i] = pat( i); }
    void verify( const char * what) const {
        tok.ok( what);
        REQUIRE( ( reinterpret_cast< uintptr_t >( this) & ( A - 1)) == 0, "callable-align", "callable of task %d at %p is not aligned to %zu", tok.t->id, (void*) this, A);
        for ( size_t i = 0; i < N; ++i) REQUIRE( pay[i] == pat( i), "callable-data", "%s: byte %zu of the stored callable of task %d changed", what, i, tok.t->id);
    }
    Ctx operator()( Ctx && h) {
        verify( "call");
        if ( MoveOnly) REQUIRE( mo && * mo == tok.t->id, "callable-data", "member of move-only callable lost");
        REQUIRE( ! tok.ext, "callable", "task %d: the original callable is invoked instead of the stored one", tok.t->id);
        Ctx r = run_task( * tok.t, std::move( h), this, false);
        verify( "after call");
        return r;
    }
};
template< size_t N, size_t A> struct Body< N, A, true>;
#if 1
template< size_t N, size_t A>
struct alignas( A) Body< N, A, true> : Body< N, A, false> {
    std::unique_ptr< int> mo2;
    explicit Body( Task * t) : Body< N, A, false>( t), mo2( new int( t->id)) {}
    Body( Body && o) : Body< N, A, false>( std::move( o)), mo2( std::move( o.mo2)) {}
    Body( Body const&) = delete;
    Ctx operator()( Ctx h) {       // takes its argument by value
        REQUIRE( mo2 && * mo2 == this->tok.t->id, "callable-data", "member of move-only callable lost");
        return Body< N, A, false>::operator()( std::move( h));
    }
};
#endif
static Ctx plain_fn( Ctx && h) {
    World * w = tl_w;
    REQUIRE( w->exp.to > 0 && w->exp.to < (int) w->tasks.size(), "control", "plain context-function entered although nothing was resumed");
    return run_task( w->T( w->exp.to), std::move( h), 0, true);
}

// ---------------------------------------------------------------- model of control transfer
static uint64_t suspend( World & w, Task & t) {   // t is about to switch away
    check_fp( t, "before switch");
    t.state = S_SUSP; t.tok = ++w.tokseq;
    return t.tok;
}
static void check_handle( World & w, Ctx const& h, int m, const char * where) {
    ++w.n_checks;
    bool b = static_cast< bool >( h);
    REQUIRE( b == ( m >= 0), "handle-bool", "%s: handle converts to %d, model says %s %d", where, (int) b, m >= 0 ? "owner of task" : "empty", m);
    REQUIRE( ! h == ! b, "handle-bool", "%s: operator! disagrees with operator bool", where);
    if ( w.n_checks % 61 == 0) { // own count: the random numbers drawn must be the same in all configurations
        std::ostringstream os; os << h; Ctx none;
        REQUIRE( ( os.str() == "{not-a-context}") == ! b && ! os.str().empty(), "handle-stream", "%s: handle that converts to %d streams as '%s'", where, (int) b, os.str().c_str());
        REQUIRE( ( h < none || none < h) == b, "handle-less", "%s: handle that converts to %d compared with an empty one", where, (int) b);
    }
}
static void gone( World & w, int id);
static void check_src( World & w, Exp & e, const char * where) {
    if ( ! e.src) return;
    ++w.n_src; ++w.n_checks;
    REQUIRE( ! * e.src && ! static_cast< bool >( * e.src), "handle-resumed", "%s: the handle being resumed still owns the context while that one runs", where);
    e.src = 0;
}
static void check_pend( World & w) { if ( w.pend_gone >= 0) { int id = w.pend_gone; w.pend_gone = -1; gone( w, id); } }
// control arrived at task t, whose suspension carried token tok
static void arrive( World & w, Task & t, uint64_t tok, const char * where) {
    Exp e = w.exp; w.exp.kind = X_NONE;
    REQUIRE( e.kind != X_NONE, "control", "%s: task %d continued although nothing resumed it", where, t.id);
    REQUIRE( e.to == t.id, "control", "%s: task %d continued, but task %d was resumed (by %d)", where, t.id, e.to, e.from);
    REQUIRE( e.tok == tok && t.tok == tok, "control", "%s: task %d continued at the wrong suspension point", where, t.id);
    REQUIRE( t.state == S_SUSP, "control", "%s: task %d continued in state %d", where, t.id, t.state);
    check_src( w, e, where);
    t.state = S_RUN; w.cur = t.id; ++w.n_switch;
    check_pend( w);
    w.ev( 1, e.kind, ( (uint64_t) e.from << 32) | (unsigned) t.id);
    check_stack( t, where); check_fp( t, where); check_exc( w, where);
}
static int find_slot( World & w) { for ( int i = 0; i < NSLOT; ++i) if ( w.slots[i].m == EMPTY) return i; return -1; }
static void gone( World & w, int id) {       // model: no handle to terminated task id exists any more
    Task & t = w.T( id);
    REQUIRE( ! t.gone, "model", "internal"); t.gone = 1; --w.live;
    REQUIRE( t.state == S_DONE, "unwind", "task %d vanished in state %d", id, t.state);
    REQUIRE( t.guards.empty(), "unwind", "task %d ended with %zu live locals", id, t.guards.size());
    REQUIRE( t.tok_live == 0, "callable", "task %d: %ld stored callables alive after its end", id, t.tok_live);
    if ( t.ar) REQUIRE( t.ar->released, "release-missing", "stack of task %d not released although no handle remains", id);
}
static void drop_falsy( World & w, int slot) {
    int id = - ( w.slots[slot].m + 10);
    check_handle( w, w.slots[slot].h, w.slots[slot].m, "drop");
    { Ctx x = std::move( w.slots[slot].h); }
    w.slots[slot].m = EMPTY;
    gone( w, id);
}
static int need_slot( World & w) {
    int s = find_slot( w);
    if ( s >= 0) return s;
    for ( int i = 0; i < NSLOT; ++i) if ( w.slots[i].m <= -10) { drop_falsy( w, i); return i; }
    oracle_fail( "model", "internal: out of slots");
}
static void put_slot( World & w, Ctx && h, int m) {
    if ( m == EMPTY) { Ctx x = std::move( h); return; }
    int s = need_slot( w);
    w.slots[s].h = std::move( h); w.slots[s].m = m;
    REQUIRE( ! h, "handle-move", "moved-from handle still converts to true");
    if ( m <= -10 && w.rng.chance( 60)) drop_falsy( w, s);
}
static Ctx take_slot( World & w, int s, int & m) {
    m = w.slots[s].m; w.slots[s].m = EMPTY;
    Ctx h = std::move( w.slots[s].h);
    REQUIRE( ! w.slots[s].h, "handle-move", "moved-from handle still converts to true");
    return h;
}
static int pick_slot( World & w, bool (* pred)( World &, int)) {
    int n = 0, r = -1;
    for ( int i = 0; i < NSLOT; ++i) if ( w.slots[i].m >= 0 && pred( w, w.slots[i].m)) ++n;
    if ( ! n) return -1;
    int k = w.rng.below( n);
    for ( int i = 0; i < NSLOT; ++i) if ( w.slots[i].m >= 0 && pred( w, w.slots[i].m) && k-- == 0) { r = i; break; }
    return r;
}
static bool p_any( World &, int) { return true; }
static bool p_destroyable( World & w, int m) { return m != MAIN && ! w.T( m).pin && ! w.T( m).unwinding; }
static bool p_started( World & w, int m) { return w.T( m).state == S_SUSP && ! w.T( m).pin && ! w.T( m).mid_ontop && ! w.T( m).unwinding; }

static void check_empty_handle( World & w, Ctx const& h, const char * where) {
    check_handle( w, h, EMPTY, where);
    if ( w.rng.below( 16) == 0) {
        std::ostringstream os; os << h;
        REQUIRE( os.str() == "{not-a-context}", "handle-stream", "%s: empty handle streams as '%s'", where, os.str().c_str());
    }
}

// ---------------------------------------------------------------- tracked locals
static void step( Task & t, int depth, bool in_dtor);
static void owner_release( Task & t, Ctx && h, int m);

struct Guard {
    Task & t; int id; bool root; uint64_t canary[6];
    explicit Guard( Task & t_, bool root_ = false) : t( t_), root( root_) {
        id = ++t.w->guardseq; t.guards.push_back( id); ++t.w->n_guard;
        for ( int i = 0; i < 6; ++i) canary[i] = mix( id, i);
    }
    ~Guard();
    void intact( const char * where) { for ( int i = 0; i < 6; ++i) REQUIRE( canary[i] == mix( id, i), "locals", "%s: local of task %d was overwritten", where, t.id); }
    Guard( Guard const&) = delete; Guard & operator=( Guard const&) = delete;
};
static void unwind_arrival( Task & t) {
    World & w = * t.w;
    if ( w.cur == t.id && w.exp.kind == X_NONE) return;
    // control can only get here because the handle of this task was destroyed
    Exp e = w.exp; w.exp.kind = X_NONE;
    REQUIRE( e.kind == X_UNWIND, "control", "local of suspended task %d destroyed although its handle was not", t.id);
    REQUIRE( e.to == t.id, "control", "unwinding reached task %d instead of task %d", t.id, e.to);
    REQUIRE( t.state == S_SUSP && ! t.unwinding, "control", "task %d unwound in state %d", t.id, t.state);
    t.state = S_RUN; t.unwinding = true; w.cur = t.id; ++w.inflight; ++w.n_switch;
    w.ev( 2, t.id);
    check_stack( t, "unwind"); check_fp( t, "unwind");
}
Guard::~Guard() {
    World & w = * t.w;
    unwind_arrival( t);
    intact( "destructor");
    REQUIRE( ! t.guards.empty() && t.guards.back() == id, "locals-order", "locals of task %d not destroyed in reverse order of construction", t.id);
    check_stack( t, "destructor"); check_fp( t, "destructor"); check_exc( w, "destructor");
    if ( ! root && ! w.drain && w.dtor_nest < 2 && w.rng.chance( 12)) {
        ++w.dtor_nest; ++t.pin; ++w.n_nested;
        step( t, MAXDEPTH, true);
        --t.pin; --w.dtor_nest;
    }
    t.guards.pop_back();
    w.ev( 3, t.id, t.guards.size());
    if ( root && t.id != MAIN) {
        REQUIRE( t.guards.empty(), "locals-order", "root local of task %d destroyed before others", t.id);
        if ( t.unwinding) {
            // next observable event must be the destroyer continuing after the destruction
            --w.inflight; t.unwinding = false; t.state = S_DONE;
            if ( t.after) { w.exp = * t.after; w.pend_gone = t.id; ++w.n_kept; }
            else { w.exp.src = 0; w.exp.kind = X_UNWOUND; w.exp.from = t.id; w.exp.to = t.destroyer; w.exp.tok = t.destroyer_tok; w.exp.recv = EMPTY; }
        } else {
            REQUIRE( t.finishing, "control", "context-function of task %d left without return or unwinding", t.id);
            t.state = S_DONE;
        }
    }
}

// a scope owning a handle, as a generator owning a sub-generator would
struct Owner {
    Task & t; Ctx h; int m;
    Owner( Task & t_, Ctx && h_, int m_) : t( t_), h( std::move( h_)), m( m_) {}
    ~Owner() { unwind_arrival( t); World & w = * t.w; ++w.dtor_nest; ++t.pin; owner_release( t, std::move( h), m); --t.pin; --w.dtor_nest; }
};

// ---------------------------------------------------------------- operations
static void do_destroy( Task & t, Ctx && h0, int m, int manner) {
    World & w = * t.w; Task & x = w.T( m);
    ++w.n_destroy; ++w.ops;
    bool fresh = x.state == S_NEW;
    w.ev( 4, t.id, m);
    w.cover( 40 + ( fresh ? 1 : 0) + ( x.mid_ontop ? 2 : 0) + ( t.pin ? 4 : 0) + ( t.unwinding ? 8 : 0) + ( manner << 4));
    int fl = w.inflight;
    uint64_t tok = suspend( w, t);
    w.exp.src = 0;
    if ( ! fresh) {
        w.exp.kind = X_UNWIND; w.exp.from = t.id; w.exp.to = m; w.exp.tok = x.tok; w.exp.recv = EMPTY;
        x.destroyer = t.id; x.destroyer_tok = tok;
    } else {
        // never started: nothing observable may happen in it
        w.exp.kind = X_NONE; w.exp.to = t.id; x.state = S_DONE;
        t.state = S_SUSP;
    }
    switch ( manner) {
    case 0: { Ctx d( std::move( h0)); break; }
    case 1: { Ctx d( std::move( h0)); d = Ctx{}; check_empty_handle( w, d, "after overwriting"); break; }
    case 2: { std::unique_ptr< Ctx> p( new Ctx( std::move( h0))); p.reset(); break; }
    case 3: { std::vector< Ctx> v; v.push_back( std::move( h0)); v.clear(); break; }
    default: { Ctx d( std::move( h0)); Ctx e; using std::swap; swap( d, e); e = std::move( d); check_empty_handle( w, e, "overwritten"); break; }
    }
    if ( ! fresh) {
        arrive( w, t, tok, "after destroying a handle");
        (void) fl;
    } else {
        REQUIRE( w.exp.kind == X_NONE && w.cur == t.id && t.tok == tok, "control", "destroying never started task %d disturbed control", m);
        REQUIRE( x.fn_calls == 0, "unstarted", "function of never resumed task %d was executed", m);
        t.state = S_RUN;
        check_stack( t, "destroyed unstarted"); check_fp( t, "destroyed unstarted"); check_exc( w, "destroyed unstarted");
    }
    gone( w, m);
}
static void owner_release( Task & t, Ctx && h, int m) {
    World & w = * t.w;
    if ( m == EMPTY) return;
    check_handle( w, h, m, "owner");
    if ( p_destroyable( w, m)) do_destroy( t, std::move( h), m, w.rng.below( 5));
    else put_slot( w, std::move( h), m);
}

// --- resume_with
struct CopyExc {};
// the next copy of a function on top throws, if it is made on the side of the resumer (on the other side it would be an exception of the function)
static thread_local struct { bool on; AllocRec * from, * to; } tl_copy_throws;
static bool copy_throws() {
    if ( ! tl_copy_throws.on) return false;
    tl_copy_throws.on = false;
#ifdef OWN_STACK
    return tl_copy_throws.to || tl_copy_throws.from;     // (as below: contexts on stacks of the library's own choice are not known)
#else
    char * f = (char*) frame_addr();
    return tl_copy_throws.to ? ! in_region( tl_copy_throws.to, f) : tl_copy_throws.from && in_region( tl_copy_throws.from, f);
#endif
}
struct OnTop {
    World * w; int target; int from; int variant; uint64_t tag; int * runs; unsigned char pay[24]; uint32_t magic;
    OnTop( World * w_, int to, int fr, int v, uint64_t tg, int * r) : w( w_), target( to), from( fr), variant( v), tag( tg), runs( r), magic( 0x0470) {
        for ( int i = 0; i < 24; ++i) pay[i] = (unsigned char)( tag + i);
    }
    OnTop( OnTop const& o) : w( o.w), target( o.target), from( o.from), variant( o.variant), tag( o.tag), runs( o.runs), magic( o.magic) { o.ok(); if ( copy_throws()) throw CopyExc(); memcpy( pay, o.pay, 24); }
    ~OnTop() { ok(); magic = 0xDEAD; }
    void ok() const {
        REQUIRE( magic == 0x0470, "ontop-fn", "function object passed to resume_with is destroyed or corrupt");
        for ( int i = 0; i < 24; ++i) REQUIRE( pay[i] == (unsigned char)( tag + i), "ontop-fn", "data of the function object passed to resume_with changed");
    }
    Ctx operator()( Ctx && h) const { ok(); Ctx r = body( std::move( h)); ok(); return r; }
    Ctx body( Ctx && h) const;
};
Ctx OnTop::body( Ctx && h) const {
    World & w_ = * w; Task & t = w_.T( target);
    Exp e = w_.exp; tl_copy_throws.on = false;
    REQUIRE( e.kind == X_ONTOP, "ontop", "ontop function (of task %d) executed although nothing was resumed with it", target);
    REQUIRE( e.to == target, "ontop", "ontop function for task %d executed when resuming task %d", target, e.to);
    REQUIRE( ++* runs == 1, "ontop", "ontop function executed %d times", * runs);
    w_.exp.kind = X_NONE; w_.exp.src = 0;
    check_src( w_, e, "ontop");
    REQUIRE( t.state == S_SUSP || t.state == S_NEW, "ontop", "ontop function runs although task %d is in state %d", target, t.state);
    REQUIRE( e.tok == t.tok, "ontop", "ontop function runs at the wrong suspension point of task %d", target);
    bool fresh = t.state == S_NEW;
    uint64_t tok = t.tok;
    w_.cur = target; ++w_.n_ontop;
    w_.ev( 5, target, from);
    check_stack( t, "ontop"); check_fp( t, "ontop"); check_exc( w_, "ontop");
    check_handle( w_, h, from, "ontop argument");
    w_.cover( 600 + variant * 4 + ( fresh ? 1 : 0) + ( t.pin ? 2 : 0));
    Ctx hh = std::move( h); int m = from;
    check_empty_handle( w_, h, "ontop argument after move");
    switch ( variant) {
    case 1: { // replace the handle by another one, keep the resumer in a slot
        put_slot( w_, std::move( hh), m);
        int s = pick_slot( w_, p_any);
        hh = Ctx{}; m = EMPTY;
        if ( s >= 0) hh = take_slot( w_, s, m);
        break; }
    case 2: { // exception
        put_slot( w_, std::move( hh), m);
        ++w_.n_exc; ++w_.inflight;
        t.state = S_RUN; w_.exp.kind = X_NONE; t.mid_ontop = false;
        throw OntopExc{ target, tag}; }
    case 3: { // run other contexts from within the function, on the stack of the target
        put_slot( w_, std::move( hh), m);
        hh = Ctx{}; m = EMPTY;
        // (a started target may be destroyed while it is in here; a fresh one has no frame the model could observe)
        t.state = S_RUN; t.mid_ontop = true; if ( fresh) ++t.pin;
        step( t, MAXDEPTH, true);
        if ( fresh) --t.pin;
        int s = w_.rng.chance( 70) ? pick_slot( w_, p_any) : -1;
        if ( s >= 0 && w_.slots[s].m != target) hh = take_slot( w_, s, m);
        break; }
    case 4: // hand over an empty handle
        put_slot( w_, std::move( hh), m);
        hh = Ctx{}; m = EMPTY;
        break;
    default: break;
    }
    // control now continues at the suspension point of the target
    t.state = fresh ? S_NEW : S_SUSP; t.mid_ontop = false; t.tok = tok;
    w_.exp.kind = X_ONTOP; w_.exp.from = from; w_.exp.to = target; w_.exp.tok = tok; w_.exp.recv = m; w_.exp.src = 0;
    return hh;
}
static thread_local OnTop * tl_ontop = 0;
static Ctx ontop_plain( Ctx && h) { OnTop f( * tl_ontop); return f( std::move( h)); }

static void after_switch( Task & t, Ctx && r, int recv, const char * where) {
    World & w = * t.w;
    check_handle( w, r, recv, where);
    if ( w.rng.chance( 20)) { Ctx r2( std::move( r)); check_empty_handle( w, r, "moved-from"); r = std::move( r2); }
    put_slot( w, std::move( r), recv);
}
static void do_resume( Task & t, int s) {
    World & w = * t.w; int m; ++w.ops;
    Ctx h = take_slot( w, s, m); Task & x = w.T( m);
    check_handle( w, h, m, "resume");
    w.cover( 100 + ( x.state == S_NEW) + ( x.pin ? 2 : 0) + ( t.pin ? 4 : 0) + ( x.unwinding ? 8 : 0) + ( m == MAIN ? 16 : 0) + ( (int) t.guards.size() << 5));
    uint64_t loc[4]; for ( int i = 0; i < 4; ++i) loc[i] = mix( w.tokseq, i);
    uint64_t tok = suspend( w, t);
    w.exp.kind = X_RESUME; w.exp.from = t.id; w.exp.to = m; w.exp.tok = x.tok; w.exp.recv = t.id; w.exp.src = & h;
#if defined(USE_CALLCC) && ! defined(HANDLE_IS_FIBER)
    Ctx r = ( w.tokseq & 1) ? h.resume() : std::move( h).resume();
#else
    Ctx r = std::move( h).resume();
#endif
    int recv = w.exp.recv;
    arrive( w, t, tok, "return of resume()");
    for ( int i = 0; i < 4; ++i) REQUIRE( loc[i] == mix( tok - 1, i), "locals", "local data of task %d changed across resume()", t.id);
    check_empty_handle( w, h, "handle after resume()");
    after_switch( t, std::move( r), recv, "return of resume()");
}
static void do_resume_with( Task & t, int s, bool may_throw) {
    World & w = * t.w; int m; ++w.ops;
    Ctx h = take_slot( w, s, m); Task & x = w.T( m);
    int variant = w.rng.below( 5);
    if ( variant == 2 && ( ! may_throw || x.state == S_NEW || x.pin || x.unwinding || x.mid_ontop)) variant = 0;
    if ( variant == 3 && w.drain) variant = 1;
    int how = w.rng.below( 6), runs = 0;
    bool cthrow = w.rng.chance( 6) && may_throw && how != 3 && how != 5;     // the first copy made by resume_with() throws: nothing was resumed
    uint64_t tok = suspend( w, t);
    w.exp.kind = X_ONTOP; w.exp.from = t.id; w.exp.to = m; w.exp.tok = x.tok; w.exp.recv = t.id; w.exp.src = & h;
    OnTop f( & w, m, t.id, variant, tok * 77, & runs);
    Ctx r;
    int recv;
    try {
    tl_copy_throws.from = t.ar; tl_copy_throws.to = x.ar;
    if ( cthrow && how != 2 && how != 4) tl_copy_throws.on = true;
    switch ( how) {
    case 0: r = std::move( h).resume_with( f); recv = w.exp.recv; break;
    case 1: r = std::move( h).resume_with( const_cast< OnTop const&>( f)); recv = w.exp.recv; break;
    case 2: { OnTop g( f); tl_copy_throws.on = cthrow; r = std::move( h).resume_with( std::move( g)); recv = w.exp.recv; break; }
    case 3: r = std::move( h).resume_with( [f,&w]( Ctx && c) { (void) w; return f( std::move( c)); }); recv = w.exp.recv; break;
    case 4: { std::function< Ctx( Ctx &&)> g( f); tl_copy_throws.on = cthrow; r = std::move( h).resume_with( g);
              recv = w.exp.recv; REQUIRE( (bool) g, "ontop-fn", "lvalue function object was moved from"); break; }
    default: { tl_ontop = & f; r = std::move( h).resume_with( ontop_plain); recv = w.exp.recv; break; }
    }
    } catch ( CopyExc const&) {
        REQUIRE( cthrow && runs == 0, "ontop-copy", "exception of a copy of the function surfaced in task %d", t.id);
        REQUIRE( w.exp.kind == X_ONTOP && w.exp.to == m && w.exp.from == t.id && t.state == S_SUSP && t.tok == tok, "ontop-copy", "task %d was resumed although the function could not be copied", m);
        w.exp.kind = X_NONE; w.exp.src = 0; t.state = S_RUN; ++w.n_cthrow;
        check_stack( t, "failed resume_with()"); check_fp( t, "failed resume_with()"); f.ok();
        check_handle( w, h, m, "handle after a failed resume_with()");
        w.ev( 11, t.id, m); w.cover( 640);
        put_slot( w, std::move( h), m);
        return;
    }
    arrive( w, t, tok, "return of resume_with()");
    f.ok();
    REQUIRE( runs == 1, "ontop", "function passed to resume_with() ran %d times", runs);
    check_empty_handle( w, h, "handle after resume_with()");
    after_switch( t, std::move( r), recv, "return of resume_with()");
}

#ifndef USE_CALLCC
template< typename F > static Ctx make_ctx( World &, F && f) { return Ctx( std::forward< F >( f)); }
template< typename A, typename F > static Ctx make_ctx( World &, A && a, F && f) { return Ctx( std::allocator_arg, std::forward< A >( a), std::forward< F >( f)); }
template< typename A, typename F > static Ctx make_ctx( World &, ctx::preallocated p, A && a, F && f) { return Ctx( std::allocator_arg, p, std::forward< A >( a), std::forward< F >( f)); }
#elif defined(HANDLE_IS_FIBER)
template< typename F > static Ctx make_ctx( World &, F && f) { return Ctx( std::forward< F >( f)).resume(); }
template< typename A, typename F > static Ctx make_ctx( World &, A && a, F && f) { return Ctx( std::allocator_arg, std::forward< A >( a), std::forward< F >( f)).resume(); }
template< typename A, typename F > static Ctx make_ctx( World &, ctx::preallocated p, A && a, F && f) { return Ctx( std::allocator_arg, p, std::forward< A >( a), std::forward< F >( f)).resume(); }
#else
template< typename F > static Ctx make_ctx( World &, F && f) { return ctx::callcc( std::forward< F >( f)); }
template< typename A, typename F > static Ctx make_ctx( World &, A && a, F && f) { return ctx::callcc( std::allocator_arg, std::forward< A >( a), std::forward< F >( f)); }
template< typename A, typename F > static Ctx make_ctx( World &, ctx::preallocated p, A && a, F && f) { return ctx::callcc( std::allocator_arg, p, std::forward< A >( a), std::forward< F >( f)); }
#endif

template< typename F >
static Ctx create_alloc( World & w, SAState * st, size_t reserve, bool prealloc, int how, F && f) {
    if ( prealloc) {
        SA a( st);
        ctx::stack_context s = a.allocate();
        char * psp = (char*) s.sp - reserve;
#ifdef HANDS_OFF
        UNSHADOW( psp, reserve);      // (these bytes are the program's own)
#endif
        memset( psp, 0x5A, reserve);
        w.ars.back()->psp = psp;
        ctx::preallocated p( psp, s.size - reserve, s);
        if ( how & 1) return make_ctx( w, p, a, std::forward< F >( f));
        return make_ctx( w, p, std::move( a), std::forward< F >( f));
    }
    switch ( how % 3) {
    case 0: { SA a( st); return make_ctx( w, a, std::forward< F >( f)); }
    case 1: return make_ctx( w, SA( st), std::forward< F >( f));
    default: { SAMove a( st); return make_ctx( w, std::move( a), std::forward< F >( f)); }
    }
}
template< typename B >
static Ctx create_body( World & w, Task & n, SAState * st, size_t reserve, bool prealloc, int how, bool lvalue, std::true_type) {
    if ( lvalue) { B b( & n); return create_alloc( w, st, reserve, prealloc, how, b); }
    return create_alloc( w, st, reserve, prealloc, how, B( & n));
}
template< typename B >
static Ctx create_body( World & w, Task & n, SAState * st, size_t reserve, bool prealloc, int how, bool, std::false_type) {
    return create_alloc( w, st, reserve, prealloc, how, B( & n));
}

static void do_create( Task & t) {
    World & w = * t.w;
    if ( w.live >= MAXLIVE || find_slot( w) < 0) return;
    ++w.ops; ++w.n_create; ++w.live;
    int id = (int) w.tasks.size();
    w.tasks.push_back( std::unique_ptr< Task>( new Task()));
    Task & n = w.T( id); n.w = & w; n.id = id;
    n.mxcsr = t.mxcsr; n.x87 = t.x87; n.tok = ++w.tokseq;
#ifdef HANDS_OFF         // much reuse of stack memory
    static const int kinds[] = { K_POOL, K_POOL, K_POOL, K_POOL, K_PROT, K_FIXED };
#else
    static const int kinds[] = { K_FIXED, K_FIXED, K_PROT, K_POOL, K_CUSTOM, K_CUSTOM };
#endif
    int kind = kinds[w.rng.below( 6)];
#ifdef SEG
    int sigkind = kind; kind = K_SEG; (void) sigkind;
#endif
    w.sas.push_back( std::unique_ptr< SAState>( new SAState()));
    SAState * st = w.sas.back().get();
    st->w = & w; st->id = (int) w.sas.size(); st->kind = kind; st->live = 0; st->size = STK_BASE + w.rng.below( 9000); st->fail = w.rng.chance( 4);
    bool prealloc = w.rng.chance( 25) && ! st->fail;
    size_t reserve = w.rng.below( 2000);
    int how = w.rng.below( 6); bool lvalue = w.rng.chance( 30);
    int variant = w.rng.below( 9);
    bool dflt = w.rng.chance( 5);
    w.ev( 6, t.id, id);
    w.cover( 200 + variant + ( kind << 4) + ( prealloc ? 128 : 0) + ( lvalue ? 256 : 0) + ( dflt ? 512 : 0) + ( st->fail ? 1024 : 0) + ( t.pin ? 2048 : 0));
    w.creating = id;
    uint64_t tok = t.tok; (void) tok;
#ifdef USE_CALLCC
    tok = suspend( w, t);
    w.exp.src = 0; w.exp.kind = X_START; w.exp.from = t.id; w.exp.to = id; w.exp.tok = n.tok; w.exp.recv = t.id;
#endif
    size_t nar = w.ars.size();
    Ctx r; bool copies_known = true;
    try {
        if ( dflt) { st->fail = false; tl_w = & w; copies_known = false; r = make_ctx( w, Body< 8, 8, false>( & n)); }
        else switch ( variant) {
        case 0: r = create_body< Body< 8, 8, false> >( w, n, st, reserve, prealloc, how, lvalue, std::true_type()); break;
        case 1: r = create_body< Body< 2000, 8, false> >( w, n, st, reserve, prealloc, how, lvalue, std::true_type()); break;
        case 2: r = create_body< Body< 100, 64, false> >( w, n, st, reserve, prealloc, how, lvalue, std::true_type()); break;
        case 3: r = create_body< Body< 300, 256, false> >( w, n, st, reserve, prealloc, how, lvalue, std::true_type()); break;
        case 4: lvalue = false; r = create_body< Body< 16, 16, true> >( w, n, st, reserve, prealloc, how, false, std::false_type()); break;
        case 5: { copies_known = false; n.heapfn = true; std::function< Ctx( Ctx &&)> f{ Body< 8, 8, false>( & n) }; n.tok_copies = 0; r = create_alloc( w, st, reserve, prealloc, how, std::move( f)); break; }
        case 6: { copies_known = false; Task * np = & n; r = create_alloc( w, st, reserve, prealloc, how, [np]( Ctx && h) { return run_task( * np, std::move( h), 0, false); }); break; }
        case 7: { copies_known = false; tl_w = & w; r = create_alloc( w, st, reserve, prealloc, how, plain_fn); break; }
        default: { copies_known = false; Task * np = & n; r = create_alloc( w, st, reserve, prealloc, how, std::bind( []( Task * p, Ctx && h) { return run_task( * p, std::move( h), 0, false); }, np, std::placeholders::_1)); break; }
        }
    } catch ( std::bad_alloc const&) {
        w.creating = -1;
        REQUIRE( st->fail, "alloc", "bad_alloc without failing allocator");
        REQUIRE( n.tok_live == 0 && n.tok_ext == 0, "callable", "callable leaked by failed creation (%ld)", n.tok_live);
        REQUIRE( w.ars.size() == nar && st->live == 0, "alloc", "failed creation left an allocator or stack behind");
        REQUIRE( n.fn_calls == 0 && ! r, "alloc", "failed creation started the context");
        n.state = S_DONE; n.gone = 1; --w.live;
#ifdef USE_CALLCC
        w.exp.kind = X_NONE; t.state = S_RUN;
#endif
        return;
    }
    REQUIRE( ! st->fail || dflt, "alloc", "failing allocator ignored");
#ifdef USE_CALLCC
    int recv = w.exp.recv;
    arrive( w, t, tok, "return of callcc()");
#endif
    w.creating = -1;
    if ( copies_known) REQUIRE( n.tok_copies == ( lvalue ? 1 : 0), "callable-copies", "%s callable of task %d copied %ld times", lvalue ? "lvalue" : "rvalue", id, n.tok_copies);
    REQUIRE( n.tok_ext == 0, "callable", "temporary callable leaked");
#ifndef USE_CALLCC
    REQUIRE( n.fn_calls == 0, "control", "context-function of task %d started by construction", id);
    REQUIRE( t.id == w.cur && w.exp.kind == X_NONE, "control", "construction of task %d switched", id);
    if ( variant < 5 && ! dflt) REQUIRE( n.tok_live == 1, "callable", "%ld stored callables for task %d", n.tok_live, id);
    check_fp( t, "after construction"); check_stack( t, "after construction");
    REQUIRE( static_cast< bool >( r), "handle-bool", "new context converts to false");
    put_slot( w, std::move( r), id);
#else
    after_switch( t, std::move( r), recv, "return of callcc()");
#endif
}

static NOINLINE unsigned big_use( Task & t, unsigned n, unsigned seed) {
    unsigned char buf[1500];
    for ( unsigned i = 0; i < sizeof buf; ++i) buf[i] = (unsigned char)( seed + i);
    __asm__ __volatile__( "" : : "r"( buf) : "memory");
    unsigned r = n ? big_use( t, n - 1, seed + 1) : 0;
    __asm__ __volatile__( "" : : "r"( buf) : "memory");
    for ( unsigned i = 0; i < sizeof buf; ++i) REQUIRE( buf[i] == (unsigned char)( seed + i), "locals", "local buffer of task %d was overwritten", t.id);
    return r + buf[7];
}
static void do_shuffle( World & w) {
    ++w.ops;
    int a = w.rng.below( NSLOT), b = w.rng.below( NSLOT), c = w.rng.below( NSLOT);
    SlotT & A = w.slots[a], & B = w.slots[b], & C = w.slots[c];
    check_handle( w, A.h, A.m, "shuffle"); check_handle( w, B.h, B.m, "shuffle"); check_handle( w, C.h, C.m, "shuffle");
    REQUIRE( ! ( A.h < A.h), "handle-less", "irreflexive");
    bool ab = A.h < B.h, ba = B.h < A.h, bc = B.h < C.h, ac = A.h < C.h;
    REQUIRE( ! ( ab && ba), "handle-less", "asymmetry");
    REQUIRE( ! ( ab && bc) || ac, "handle-less", "transitivity");
    if ( a != b && ( A.m >= 0 || B.m >= 0)) REQUIRE( ab || ba, "handle-less", "handles of different contexts (%d,%d) compare equivalent", A.m, B.m);
    if ( A.m == EMPTY && B.m == EMPTY) REQUIRE( ! ab && ! ba, "handle-less", "empty handles compare different");
    switch ( w.rng.below( 6)) {
    case 0: { if ( a == b) { Ctx & r = A.h; A.h = std::move( r); } else if ( B.m == EMPTY) { B.h = std::move( A.h); B.m = A.m; A.m = EMPTY; check_empty_handle( w, A.h, "moved-from"); } break; }
    case 1: { using std::swap; swap( A.h, B.h); std::swap( A.m, B.m); break; }
    case 2: { A.h.swap( B.h); std::swap( A.m, B.m); break; }
    case 3: { Ctx & r = A.h; A.h = std::move( r); break; }           // self move
    case 4: { Ctx x( std::move( A.h)); check_empty_handle( w, A.h, "moved-from"); A.h = std::move( x); check_empty_handle( w, x, "moved-from"); break; }
    default: {
        if ( w.rng.below( 8)) break;
        std::ostringstream os; os << A.h;
        if ( A.m == EMPTY) REQUIRE( os.str() == "{not-a-context}", "handle-stream", "empty handle streams as '%s'", os.str().c_str());
        if ( A.m >= 0) REQUIRE( os.str() != "{not-a-context}" && ! os.str().empty(), "handle-stream", "live handle streams as '%s'", os.str().c_str());
        break; }
    }
    check_handle( w, A.h, A.m, "shuffled"); check_handle( w, B.h, B.m, "shuffled");
}
static void level( Task & t, int depth);
static NOINLINE void throwing( Task & t, int depth, int n, uint64_t tag) {
    World & w = * t.w;
    Guard g( t);
    if ( n > 0) { if ( w.rng.chance( 40)) step( t, MAXDEPTH, false); throwing( t, depth, n - 1, tag); g.intact( "unreachable"); }
    ++w.inflight; ++w.n_exc;
    throw MyExc{ & w, t.id, n, tag};
}
static void do_throw( Task & t, int depth, bool in_dtor) {
    World & w = * t.w; ++w.ops;
    uint64_t tag = w.rng.next(); size_t ng = t.guards.size();
    w.cover( 300 + ( in_dtor ? 1 : 0) + ( t.unwinding ? 2 : 0) + ( w.inflight << 2));
    bool caught = false;
    try { throwing( t, depth, w.rng.below( 3), tag); }
    catch ( MyExc const& e) {
        --w.inflight;
        REQUIRE( e.tag == tag && e.task == t.id && e.w == & w, "exc", "task %d caught a foreign exception (thrown by %d)", t.id, e.task);
        REQUIRE( w.cur == t.id, "exc", "exception of task %d caught while task %d should run", t.id, w.cur);
        caught = true;
    }
    REQUIRE( caught, "exc", "exception lost");
    REQUIRE( t.guards.size() == ng, "exc", "locals not unwound by exception");
    check_exc( w, "after catch"); check_fp( t, "after catch"); check_stack( t, "after catch");
    w.ev( 7, t.id);
}
static void set_fp( Task & t) {
    // (drawn one by one and in every configuration: the same seed has to give the same program everywhere)
    World & w = * t.w;
    unsigned rc = w.rng.below( 4), ftz = w.rng.below( 2), daz = w.rng.below( 2), p = w.rng.below( 3), xrc = w.rng.below( 4), um = w.rng.below( 3) ? 0 : w.rng.below( 8), xum = um ? w.rng.below( 8) : 0;
#ifndef NO_FPENV
    // unmasked: invalid, division by zero, overflow (nothing in this program raises them)
    static const unsigned ex[8] = { 0, 1, 4, 5, 8, 9, 12, 13 };
#if defined(VERIF_VG)
    um = xum = 0; // valgrind knows only masked exceptions
#endif
    t.mxcsr = ( 0x1F80 & ~( ex[um] << 7) ) | ( rc << 13) | ( ftz ? 0x8000 : 0) | ( daz ? 0x40 : 0);
    static const uint16_t pc[3] = { 0, 0x200, 0x300 };
    t.x87 = (uint16_t)( ( 0x7F & ~ex[xum]) | pc[p] | ( xrc << 10)) & 0xFF7F;
    set_mxcsr( t.mxcsr); set_x87( t.x87);
    t.x87 = get_x87(); t.mxcsr = get_mxcsr() & MX_MASK;
#else
    (void) rc; (void) ftz; (void) daz; (void) p; (void) xrc; (void) um; (void) xum;
#endif
}

static void step( Task & t, int depth, bool in_dtor) {
    World & w = * t.w;
    if ( w.drain || w.ops > w.maxops) { w.drain = true; return; }
    check_fp( t, "step");
    switch ( w.rng.below( 16)) {
    case 0: case 1: if ( depth < MAXDEPTH) { w.cover( 400 + depth); level( t, depth + 1); break; } // fall through
    case 2: case 3: case 4: case 5: { int s = pick_slot( w, p_any); if ( s >= 0) do_resume( t, s); break; }
    case 6: case 7: { int s = pick_slot( w, p_any); if ( s >= 0) do_resume_with( t, s, ! in_dtor); break; }
    case 8: case 9: do_create( t); break;
    case 10: { int s = pick_slot( w, p_destroyable); if ( s >= 0 && w.rng.chance( 60)) { int m; Ctx h = take_slot( w, s, m); do_destroy( t, std::move( h), m, w.rng.below( 5)); } break; }
    case 11: do_shuffle( w); break;
    case 12: do_throw( t, depth, in_dtor); break;
    case 13: if ( ! in_dtor) set_fp( t); break;
    case 14: if ( depth < MAXDEPTH && ! in_dtor) {
            int s = pick_slot( w, p_started);
            if ( s >= 0) { int m; Ctx h = take_slot( w, s, m); Owner o( t, std::move( h), m); w.cover( 420); level( t, depth + 1); break; }
        } // fall through
    default: { unsigned n = w.rng.below( 6); big_use( t, n, w.rng.below( 200)); break; }
    }
}
static NOINLINE void level( Task & t, int depth) {
    World & w = * t.w;
    Guard g( t);
    int n = 1 + w.rng.below( 5);
    for ( int i = 0; i < n && ! w.drain; ++i) { step( t, depth, false); g.intact( "level"); }
    if ( w.rng.chance( 30)) { Guard g2( t); g2.intact( "x"); }
}

struct Kept {
    Task & t; Ctx & h; int m;
    Kept( Task & t_, Ctx & h_) : t( t_), h( h_), m( EMPTY) {}
    ~Kept() { unwind_arrival( t); if ( m == EMPTY) return; World & w = * t.w; ++w.dtor_nest; ++t.pin; owner_release( t, std::move( h), m); --t.pin; --w.dtor_nest; }
};
static Ctx run_task( Task & t, Ctx && h, void * callable, bool) {
    World & w = * t.w;
    Exp e = w.exp; w.exp.kind = X_NONE;
    REQUIRE( e.kind != X_NONE && e.kind != X_UNWIND, "control", "context-function of task %d entered although nothing resumed it", t.id);
    REQUIRE( e.to == t.id, "control", "context-function of task %d entered, but task %d was resumed", t.id, e.to);
    REQUIRE( t.state == S_NEW && t.fn_calls == 0, "control", "context-function of task %d entered again", t.id);
    check_src( w, e, "entry");
    ++t.fn_calls; t.state = S_RUN; w.cur = t.id; ++w.n_switch;
    check_pend( w);
    w.ev( 8, t.id, e.from);
    struct Arm { World & w; bool on; Exp e; ~Arm() { if ( on) w.exp = e; } } arm = { w, false, Exp() };
    Guard root( t, true);
    check_stack( t, "entry"); check_fp( t, "entry"); check_exc( w, "entry");
#ifndef SEG
    if ( callable && ! t.heapfn && t.ar && ! t.ar->released) REQUIRE( in_region( t.ar, callable) && ( ! t.ar->psp || (char*) callable < t.ar->psp), "callable-place", "callable of task %d stored outside its stack", t.id);
#endif
    check_handle( w, h, e.recv, "argument of context-function");
    // the argument is taken over, or left where the library put it: then leaving the function destroys it
    Kept kept( t, h);
    if ( w.rng.chance( 15) && e.recv > 0 && w.T( e.recv).state == S_SUSP && p_destroyable( w, e.recv)) kept.m = e.recv;
    else { Ctx h2( std::move( h)); check_empty_handle( w, h, "moved-from argument"); put_slot( w, std::move( h2), e.recv); }
    int rounds = 1 + w.rng.below( 4);
    for ( int r = 0; r < rounds && ! w.drain; ++r) {
        bool rethrow = w.rng.chance( 30);
        try {
            if ( rethrow) {
                try { level( t, 0); }
                catch ( ctx::detail::forced_unwind const&) { throw; }
            } else level( t, 0);
        } catch ( OntopExc const& x) {
            --w.inflight;
            REQUIRE( x.target == t.id && w.cur == t.id, "ontop-exc", "exception of an ontop function for task %d surfaced in task %d", x.target, t.id);
            t.state = S_RUN;
        }
        REQUIRE( t.guards.size() == 1, "locals-order", "locals left over in task %d", t.id);
    }
    // finish: continue any suspended context
    int s = -1;
    if ( w.drain) for ( int i = 0; i < NSLOT; ++i) if ( w.slots[i].m == MAIN) s = i;
    if ( s < 0) s = pick_slot( w, p_any);
    if ( s < 0 && kept.m != EMPTY) { put_slot( w, std::move( h), kept.m); kept.m = EMPTY; s = pick_slot( w, p_any); }
    REQUIRE( s >= 0, "control", "task %d finds no context to continue: a handle was lost", t.id);
    int m; Ctx ret = take_slot( w, s, m);
    check_handle( w, ret, m, "returned handle");
    check_fp( t, "finish");
    w.cover( 500 + ( m == MAIN) + ( w.T( m).state == S_NEW ? 2 : 0) + ( w.T( m).pin ? 4 : 0));
    // armed by a local that dies after the root guard, i.e. when the context-function is left
    arm.e.kind = X_FINISH; arm.e.from = t.id; arm.e.to = m; arm.e.tok = w.T( m).tok; arm.e.recv = FALSY( t.id);
    arm.on = true; t.finishing = true;
    if ( kept.m != EMPTY) {
        // leaving the function destroys the argument: that context is unwound first, then m continues
        int k = kept.m; kept.m = EMPTY;
        REQUIRE( p_destroyable( w, k) && w.T( k).state == S_SUSP, "model", "internal: kept context %d", k);
        check_handle( w, h, k, "kept argument");
        w.T( k).after.reset( new Exp( arm.e));
        w.T( k).destroyer = t.id;
        arm.e.kind = X_UNWIND; arm.e.to = k; arm.e.tok = w.T( k).tok; arm.e.recv = EMPTY;
        w.cover( 520); w.ev( 10, t.id, k);
    }
    w.ev( 9, t.id, m);
    return ret;
}

// ---------------------------------------------------------------- one episode
struct Totals { unsigned long long ct, kf, src, sw, cr, de, on, ex, al, re, gu, ch, ne, fa, ep, ops; HashSet cov, eps; uint64_t hash;
    Totals() : ct(0), kf(0), src(0), sw(0), cr(0), de(0), on(0), ex(0), al(0), re(0), gu(0), ch(0), ne(0), fa(0), ep(0), ops(0), hash(0) {} };

static uint64_t episode( uint64_t seed, long maxops, Totals & tot) {
    World w( seed, & tot.cov, maxops);
#ifdef TOOLMON
    tm_w = & w;
#endif
    size_t first = 1 + w.rng.below( 8), most = 1 + w.rng.below( 16);
    w.pool.reset( new Pool( STK_BASE, first, most));
    w.tasks.push_back( std::unique_ptr< Task>( new Task()));
    Task & mt = w.T( 0); mt.w = & w; mt.id = 0; mt.state = S_RUN;
    uint32_t mx0 = get_mxcsr(); uint16_t x0 = get_x87();
    mt.mxcsr = mx0 & MX_MASK; mt.x87 = x0;
    while ( ! w.drain) {
        try { level( mt, 0); }
        catch ( OntopExc const& x) { --w.inflight; REQUIRE( x.target == MAIN, "ontop-exc", "exception for task %d surfaced in main", x.target); mt.state = S_RUN; }
    }
    for (;;) {
        int s = -1;
        for ( int i = 0; i < NSLOT; ++i) { if ( w.slots[i].m <= -10) drop_falsy( w, i); if ( w.slots[i].m >= 0) s = i; }
        if ( s < 0) break;
        s = pick_slot( w, p_any);
        if ( w.rng.chance( 40) && p_destroyable( w, w.slots[s].m)) { int m; Ctx h = take_slot( w, s, m); do_destroy( mt, std::move( h), m, w.rng.below( 5)); }
        else do_resume( mt, s);
    }
    flush_quarantine( w, 0);
    REQUIRE( w.inflight == 0, "exc", "%d exceptions unaccounted for", w.inflight);
    REQUIRE( mt.guards.empty(), "locals-order", "main has %zu locals left", mt.guards.size());
    for ( size_t i = 1; i < w.tasks.size(); ++i) {
        Task & t = w.T( (int) i);
        REQUIRE( t.state == S_DONE && t.gone, "lost-context", "context %zu never ended (state %d): its handle was lost", i, t.state);
        REQUIRE( t.tok_live == 0 && t.tok_ext == 0, "callable", "callable of task %zu leaked", i);
    }
    for ( size_t i = 0; i < w.ars.size(); ++i) { REQUIRE( w.ars[i]->released, "release-missing", "stack of task %d leaked", w.ars[i]->task); }
    for ( size_t i = 0; i < w.sas.size(); ++i) REQUIRE( w.sas[i]->live == 0, "allocator", "%ld instances of stack allocator %zu leaked", w.sas[i]->live, i);
    REQUIRE( w.n_alloc == w.n_release, "release-missing", "%llu stacks allocated, %llu released", w.n_alloc, w.n_release);
#ifdef TOOLMON
    tm_end();
#endif
    for ( size_t i = 0; i < w.ars.size(); ++i) delete w.ars[i];
    set_mxcsr( mx0); set_x87( x0);
    tot.kf += w.n_kept; tot.ct += w.n_cthrow; tot.src += w.n_src; tot.sw += w.n_switch; tot.cr += w.n_create; tot.de += w.n_destroy; tot.on += w.n_ontop; tot.ex += w.n_exc; tot.al += w.n_alloc; tot.re += w.n_release;
    tot.gu += w.n_guard; tot.ch += w.n_checks; tot.ne += w.n_nested; tot.fa += w.n_failalloc; ++tot.ep; tot.ops += w.ops;
    if ( w.n_switch >= 10 && w.n_create >= 2) tot.eps.add( w.hash);
    tot.hash = mix( tot.hash, w.hash);
    return w.hash;
}

int main( int argc, char ** argv) {
    uint64_t seed = arg_ull( argc, argv, "--seed", 1), n = arg_ull( argc, argv, "--episodes", 200), first = arg_ull( argc, argv, "--first", 0);
    long maxops = (long) arg_ull( argc, argv, "--ops", 150);
    unsigned threads = (unsigned) arg_ull( argc, argv, "--threads", 0);
    bool perseed = arg_ull( argc, argv, "--hashes", 0) != 0;
    g_phase = "machine";
    Totals tot;
    std::vector< uint64_t> hs( n);
    if ( threads == 0) {
        for ( uint64_t i = first; i < n; ++i) {
            g_case = i;
            hs[i] = episode( mix( seed, i), i % 10 == 9 ? maxops * 4 : maxops, tot);
        }
    } else {
        // the same episodes, first alone, then concurrently on many threads: every thread must see
        // exactly the trace the episode has when it runs alone
        for ( uint64_t i = 0; i < n; ++i) { g_case = i; hs[i] = episode( mix( seed, i), maxops, tot); }
        g_phase = "machine-threads";
        std::vector< std::unique_ptr< Totals> > tt;
        unsigned rounds = (unsigned) arg_ull( argc, argv, "--rounds", 3);
        unsigned long long started = 0;
        for ( unsigned r = 0; r < rounds; ++r) {
            std::vector< std::thread> th;
            for ( unsigned k = 0; k < threads; ++k) {
                tt.push_back( std::unique_ptr< Totals>( new Totals()));
                Totals * tp = tt.back().get(); ++started;
                th.push_back( std::thread( [=,&hs]() {
                    uint64_t per = k % 4 == 3 ? 1 : n;     // some threads live only shortly
                    for ( uint64_t j = 0; j < per; ++j) {
                        uint64_t i = ( j * 7 + k * 13 + r) % n;
                        uint64_t h = episode( mix( seed, i), maxops, * tp);
                        REQUIRE( h == hs[i], "thread-independence", "episode %llu ran differently on thread %u than alone", (unsigned long long) i, k);
                    }
                }));
            }
            for ( auto & x : th) x.join();
        }
        unsigned long long sw = 0, ep = 0;
        for ( auto & x : tt) { sw += x->sw; ep += x->ep; }
        stat( "threads_started", started); stat( "concurrent_switches", sw); stat( "concurrent_episodes", ep);
    }
#ifdef TOOLMON
    stat( "asan_switches_checked", TM().n_asan); stat( "tsan_switches_checked", TM().n_tsan); stat( "tsan_fibres_tracked", TM().n_tsan_created); stat( "valgrind_requests_checked", TM().n_vg);
#endif
    if ( perseed) for ( uint64_t i = first; i < n; ++i) printf( "HASH %llu %016llx\n", (unsigned long long) i, (unsigned long long) hs[i]);
    printf( "TRACEHASH %016llx\n", (unsigned long long) tot.hash);
    stat( "episodes", tot.ep); stat( "ops", tot.ops); stat( "switches", tot.sw); stat( "creates", tot.cr); stat( "destroys_of_live_handles", tot.de);
    stat( "ontop_runs", tot.on); stat( "exceptions", tot.ex); stat( "stacks_allocated", tot.al); stat( "stacks_released", tot.re);
    stat( "unwound_on_leaving_the_function", tot.kf); stat( "failed_copies_of_functions", tot.ct); stat( "resumed_handles_seen_empty", tot.src);
    stat( "locals_tracked", tot.gu); stat( "oracle_checks", tot.ch); stat( "nested_in_destructors", tot.ne); stat( "failed_allocations", tot.fa);
    stat( "op_trigrams_distinct_per_run", tot.cov.n); stat( "distinct_nontrivial_traces", tot.eps.n);
    sample( "machine seed=%llu episodes=%llu maxops=%ld tracehash=%016llx", (unsigned long long) seed, (unsigned long long) n, maxops, (unsigned long long) tot.hash);
    return 0;
}
