// Stack allocators observed from outside: what they obtain from the system, what they hand out, what they give back.
//   --mode seq | fault | exhaust | overflow | pool | poolthreads | use | prealloc
//   -DUSE_CALLCC, -DBOOST_CONTEXT_USE_MAP_STACK, linked with --wrap for the system interfaces (see checks.py)
#include "common.hpp"
#ifdef USE_CALLCC
#include <boost/context/continuation.hpp>
typedef boost::context::continuation Ctx;
#else
#include <boost/context/fiber.hpp>
typedef boost::context::fiber Ctx;
#endif
#include <boost/context/fixedsize_stack.hpp>
#include <boost/context/protected_fixedsize_stack.hpp>
#include <boost/context/pooled_fixedsize_stack.hpp>
#include <boost/context/preallocated.hpp>
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <sched.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <atomic>
#include <thread>
#include <vector>
namespace ctx = boost::context;

// ------------------------------------------------------------ interposed system interfaces
static bool t_on;                                   // tracking window open
static long fail_at = -1, calls;                    // the fail_at-th tracked call fails
static int fail_mask = 15;
static unsigned long long n_sys, n_failed;
struct Blk { size_t size; int kind; };              // kind 1 heap, 2 mapping
static std::map< char *, Blk > * live_blk;          // obtained inside windows, not yet given back
void * volatile keep_blk;
struct Off { bool o; Off() : o( t_on) { t_on = false; } ~Off() { t_on = o; } };
static bool failing( int m) { ++n_sys; ++calls; if ( ( fail_mask & m) && fail_at >= 0 && calls > fail_at) { ++n_failed; return true; } return false; }
static bool single_shot = false;
static bool fails( int m) { bool f = failing( m); if ( f && single_shot) fail_at = -1; return f; }
static void add( void * p, size_t n, int kind) {
    if ( ! p) return;
    Off o; char * c = (char*) p;
    if ( kind == 2) n = ( n + 4095) & ~(size_t) 4095;
    (*live_blk)[c] = Blk{ n, kind };
}
static size_t held() { size_t s = 0; for ( auto & b : * live_blk) s += b.second.size; return s; }
extern "C" {
void * __real_malloc( size_t); void __real_free( void *); void * __real_calloc( size_t, size_t); void * __real_realloc( void *, size_t);
int __real_posix_memalign( void **, size_t, size_t); void * __real_aligned_alloc( size_t, size_t);
void * __real_mmap( void *, size_t, int, int, int, off_t); int __real_munmap( void *, size_t); int __real_mprotect( void *, size_t, int);
void * __wrap_malloc( size_t n) { if ( ! t_on) return __real_malloc( n); if ( fails( 1)) return 0; void * p = __real_malloc( n); add( p, n, 1); return p; }
void * __wrap_calloc( size_t a, size_t n) { if ( ! t_on) return __real_calloc( a, n); if ( fails( 1)) return 0; void * p = __real_calloc( a, n); add( p, a * n, 1); return p; }
int __wrap_posix_memalign( void ** q, size_t al, size_t n) { if ( ! t_on) return __real_posix_memalign( q, al, n); if ( fails( 1)) return ENOMEM; int r = __real_posix_memalign( q, al, n); if ( ! r) add( * q, n, 1); return r; }
void * __real_memalign( size_t, size_t); void * __real_valloc( size_t);
void * __wrap_memalign( size_t al, size_t n) { if ( ! t_on) return __real_memalign( al, n); if ( fails( 1)) { errno = ENOMEM; return 0; } void * p = __real_memalign( al, n); add( p, n, 1); return p; }
void * __wrap_valloc( size_t n) { if ( ! t_on) return __real_valloc( n); if ( fails( 1)) { errno = ENOMEM; return 0; } void * p = __real_valloc( n); add( p, n, 1); return p; }
void * __wrap_aligned_alloc( size_t al, size_t n) { if ( ! t_on) return __real_aligned_alloc( al, n); if ( fails( 1)) return 0; void * p = __real_aligned_alloc( al, n); add( p, n, 1); return p; }
void __wrap_free( void * p) {
    if ( p && live_blk) {
        Off o; auto i = live_blk->find( (char*) p);
        if ( i != live_blk->end() && i->second.kind == 1) { memset( p, 0xDF, i->second.size); live_blk->erase( i); }
        else REQUIRE( ! o.o, "release", "free() of %p which is not (or no longer) a block of the allocator", p);
    }
    __real_free( p);
}
void * __wrap_mmap( void * a, size_t n, int pr, int fl, int fd, off_t off) {
    if ( ! t_on) return __real_mmap( a, n, pr, fl, fd, off);
    if ( fails( 2)) { errno = ENOMEM; return MAP_FAILED; }
    if ( ( fl & MAP_FIXED) && a) {
        // may only replace memory that belongs to a block of the allocator
        bool ok = false; Off o; size_t len = ( n + 4095) & ~(size_t) 4095;
        for ( auto & b : * live_blk) if ( (char*) a >= b.first && (char*) a + len <= b.first + b.second.size) ok = true;
        REQUIRE( ok, "alloc-disturbs", "mapping [%p,+%zu) replaces memory outside the allocator's own block", a, n);
        return __real_mmap( a, n, pr, fl, fd, off);
    }
    void * p = __real_mmap( a, n, pr, fl, fd, off); if ( p != MAP_FAILED) add( p, n, 2); return p;
}
int __wrap_munmap( void * a, size_t n) {
    if ( ! t_on) return __real_munmap( a, n);
    { Off o; size_t len = ( n + 4095) & ~(size_t) 4095; char * lo = (char*) a, * hi = lo + len;
      REQUIRE( ( (uintptr_t) a & 4095) == 0, "release", "munmap of unaligned %p", a);
      // remove [lo,hi) from the recorded mappings; every byte must be recorded
      size_t covered = 0;
      for ( auto i = live_blk->begin(); i != live_blk->end(); ) {
          char * b = i->first, * e = b + i->second.size;
          if ( i->second.kind != 2 || e <= lo || b >= hi) { ++i; continue; }
          char * cl = b > lo ? b : lo, * ch = e < hi ? e : hi; covered += ch - cl;
          i = live_blk->erase( i);
          if ( b < cl) (*live_blk)[b] = Blk{ (size_t)( cl - b), 2 };
          if ( ch < e) (*live_blk)[ch] = Blk{ (size_t)( e - ch), 2 };
          i = live_blk->upper_bound( cl);
      }
      REQUIRE( covered == len, "release", "munmap(%p,%zu) gives back %zu bytes the allocator does not own", a, n, len - covered); }
    ++n_sys;
    return __real_munmap( a, n);
}
int __wrap_mprotect( void * a, size_t n, int pr) {
    if ( ! t_on) return __real_mprotect( a, n, pr);
    if ( fails( 4)) { errno = ENOMEM; return -1; }
    { Off o; bool ok = false; size_t len = ( n + 4095) & ~(size_t) 4095;
      for ( auto & b : * live_blk) if ( (char*) a >= b.first && (char*) a + len <= b.first + b.second.size) ok = true;
      REQUIRE( ok, "alloc-disturbs", "mprotect(%p,%zu) outside the allocator's own block", a, n); }
    return __real_mprotect( a, n, pr);
}
}
// every form of operator new and delete goes to the interposed functions (with a sanitizer, the forms
// not replaced here would be the sanitizer's own, and escape the record)
static void * op_new( size_t n, size_t al, bool nt) {
    if ( ! n) n = 1;
    void * p; bool w = t_on;
    if ( al) { n = ( n + al - 1) / al * al; p = w ? __wrap_aligned_alloc( al, n) : __real_aligned_alloc( al, n); }
    else p = w ? __wrap_malloc( n) : __real_malloc( n);
    if ( ! p && ! nt) throw std::bad_alloc();
    return p;
}
#define OPS(S) \
void * operator new S( size_t n) { return op_new( n, 0, false); } \
void * operator new S( size_t n, std::nothrow_t const&) noexcept { return op_new( n, 0, true); } \
void operator delete S( void * p) noexcept { __wrap_free( p); } \
void operator delete S( void * p, size_t) noexcept { __wrap_free( p); } \
void operator delete S( void * p, std::nothrow_t const&) noexcept { __wrap_free( p); }
#define NOTHING
OPS(NOTHING) OPS([])
#if defined(__cpp_aligned_new)
#define AOPS(S) \
void * operator new S( size_t n, std::align_val_t a) { return op_new( n, (size_t) a, false); } \
void * operator new S( size_t n, std::align_val_t a, std::nothrow_t const&) noexcept { return op_new( n, (size_t) a, true); } \
void operator delete S( void * p, std::align_val_t) noexcept { __wrap_free( p); } \
void operator delete S( void * p, size_t, std::align_val_t) noexcept { __wrap_free( p); } \
void operator delete S( void * p, std::align_val_t, std::nothrow_t const&) noexcept { __wrap_free( p); }
AOPS(NOTHING) AOPS([])
#endif
struct Win { Win() { t_on = true; } ~Win() { t_on = false; } };

static int pfd[2];
static void probes_init() { if ( pipe( pfd)) _exit( 78); fcntl( pfd[0], F_SETFL, O_NONBLOCK); fcntl( pfd[1], F_SETFL, O_NONBLOCK); }
static bool readable( char * p) { char c; if ( write( pfd[1], p, 1) != 1) return false; if ( read( pfd[0], & c, 1) != 1) _exit( 78); return true; }
static bool writable( char * p) { char c = 0; if ( ! readable( p)) { if ( write( pfd[1], & c, 1) != 1) _exit( 78); ssize_t r = read( pfd[0], p, 1); if ( r == 1) return true; if ( read( pfd[0], & c, 1) != 1) _exit( 78); return false; }
    c = * p; if ( write( pfd[1], & c, 1) != 1) _exit( 78); if ( read( pfd[0], p, 1) == 1) return true; if ( read( pfd[0], & c, 1) != 1) _exit( 78); return false; }

static Rng R( 1);
static HashSet cov;
static unsigned long long n_alloc, n_dealloc, n_badalloc, n_probe, n_guardprobe, n_bytes, n_ctx, n_overflow, n_poolblk, n_reuse, n_race, n_pooldead, n_created_fail, n_usefull;

enum { FIXED, PROT, POOL };
typedef ctx::fixedsize_stack Fixed; typedef ctx::protected_fixedsize_stack Prot; typedef ctx::pooled_fixedsize_stack Pool;
static size_t PS() { return ctx::stack_traits::page_size(); }

static size_t rnd_size() {
    size_t pg = PS();
    switch ( R.below( 9)) {
    case 0: return R.below( 64) * 8;
    case 1: return pg - 2 + R.below( 5);
    case 2: return pg * ( 1 + R.below( 40)) - 2 + R.below( 5);
    case 3: return pg * ( 1 + R.below( 64));
    case 4: return 1 + R.below( 300000);
    case 5: return ctx::stack_traits::minimum_size() + R.below( 3);
    case 6: return ctx::stack_traits::default_size() + R.below( 3) - 1;
    case 7: return R.below( 2) ? 0 : 1;
    default: return 1 + R.below( 40000);
    }
}
static uint64_t pat( uint64_t seed, size_t i) { return ( seed + i) * 0x9E3779B97F4A7C15ull; }
struct Live { ctx::stack_context s; int kind; size_t req; uint64_t seed; int who; };
static char * lowest( Live const& l) {     // lowest usable byte
    char * b = (char*) l.s.sp - l.s.size;
    return l.kind == PROT ? b + PS() : b;
}
static void fill( Live & l) { char * lo = lowest( l); size_t n = (char*) l.s.sp - lo; for ( size_t i = 0; i + 8 <= n; i += 8) { uint64_t v = pat( l.seed, i); memcpy( lo + i, & v, 8); } for ( size_t i = n & ~(size_t) 7; i < n; ++i) lo[i] = (char)( l.seed + i); n_bytes += n; }
static void verify( Live & l, const char * w) {
    char * lo = lowest( l); size_t n = (char*) l.s.sp - lo;
    for ( size_t i = 0; i + 8 <= n; i += 8) { uint64_t v; memcpy( & v, lo + i, 8); REQUIRE( v == pat( l.seed, i), "alloc-disturbs", "%s: byte %zu of a live stack (kind %d, %zu requested) changed", w, i, l.kind, l.req); }
    for ( size_t i = n & ~(size_t) 7; i < n; ++i) REQUIRE( lo[i] == (char)( l.seed + i), "alloc-disturbs", "%s: last bytes of a live stack (kind %d) changed", w, l.kind);
}
static void check_new( Live & l, std::vector< Live > & v) {
    REQUIRE( l.s.sp, "alloc", "allocate() returned a null stack pointer (kind %d, size %zu)", l.kind, l.req);
    char * b = (char*) l.s.sp - l.s.size;
    REQUIRE( b < (char*) l.s.sp || l.req == 0, "alloc-size", "region wraps around");
    size_t usable = (char*) l.s.sp - lowest( l);
    REQUIRE( l.s.size >= l.req && (char*) l.s.sp >= lowest( l) && usable >= l.req, "alloc-size", "kind %d: %zu usable bytes, %zu requested", l.kind, usable, l.req);
    for ( auto & o : v) REQUIRE( (char*) o.s.sp - o.s.size >= (char*) l.s.sp || b >= (char*) o.s.sp || ! o.s.size || ! l.s.size, "alloc-overlap", "new stack overlaps a live one");
    if ( l.kind == PROT) {
        REQUIRE( ( (uintptr_t) b & ( PS() - 1)) == 0, "guard-page", "guard page not page aligned");
        size_t offs[4] = { 0, PS() - 1, R.below( (unsigned) PS()), R.below( (unsigned) PS()) };
        for ( size_t o : offs) { REQUIRE( ! readable( b + o), "guard-page", "guard page byte %zu of a stack of %zu can be read", o, l.req); REQUIRE( ! writable( b + o), "guard-page", "guard page byte %zu can be written", o); n_guardprobe += 2; }
    }
    char * lo = lowest( l);
    if ( usable) { char * ps[3] = { lo, (char*) l.s.sp - 1, lo + R.next() % usable }; for ( char * p : ps) { REQUIRE( readable( p) && writable( p), "alloc-usable", "byte %ld of a region of kind %d cannot be used", (long)( p - lo), l.kind); ++n_probe; } }
    fill( l);
}
struct PoolX { std::vector< Pool > copies; size_t ss; };
static void drop_live( std::vector< Live > & v, size_t i, std::vector< PoolX > & pools, bool win) {
    Live l = v[i]; verify( l, "before deallocation"); v[i] = v.back(); v.pop_back();
    // release through an allocator object other than the one that allocated
    if ( win) t_on = true;
    if ( l.kind == FIXED) { Fixed a( R.below( 2) ? l.req : 64 * 1024); a.deallocate( l.s); }
    else if ( l.kind == PROT) { Prot a( R.below( 2) ? l.req : 64 * 1024); a.deallocate( l.s); }
    else { t_on = false; PoolX & p = pools[l.who]; Pool & c = p.copies[R.below( (unsigned) p.copies.size())]; if ( win) t_on = true; c.deallocate( l.s); }
    t_on = false; ++n_dealloc;
    if ( l.kind == PROT) { char * b = (char*) l.s.sp - l.s.size; REQUIRE( ! readable( b) && ! readable( b + PS()) && ! readable( (char*) l.s.sp - 1), "release-missing", "memory of a released protected stack of %zu is still mapped", l.req); }
}
static void mode_seq( uint64_t seed, uint64_t eps) {
    for ( uint64_t e = 0; e < eps; ++e) {
        g_case = e; R = Rng( mix( seed, e));
        std::vector< Live > v; std::vector< PoolX > pools;
        size_t base = held();
        { Off o; v.reserve( 64); pools.reserve( 4);
        for ( int i = 0; i < 2; ++i) { PoolX p; p.ss = 2048 + R.below( 30000); if ( R.below( 2)) p.ss = PS() * ( 1 + R.below( 8)); size_t nx = 1 + R.below( 8), mx = R.below( 12); t_on = true; { Pool q( p.ss, nx, mx); t_on = false; p.copies.push_back( q); p.copies.push_back( p.copies[0]); pools.push_back( p); t_on = true; } t_on = false; }
        for ( int op = 0; op < 60; ++op) {
            if ( v.empty() || ( v.size() < 24 && R.below( 5) < 3)) {
                Live l; l.kind = R.below( 3); l.req = rnd_size(); l.seed = R.next(); l.who = R.below( 2);
                if ( l.kind == POOL) l.req = pools[l.who].ss;
                size_t before = held();
                try { Win w;
                    if ( l.kind == FIXED) { Fixed a( l.req); l.s = a.allocate(); }
                    else if ( l.kind == PROT) { Prot a( l.req); l.s = a.allocate(); }
                    else { l.s = pools[l.who].copies[op & 1].allocate(); }
                } catch ( std::bad_alloc const&) { t_on = false; REQUIRE( l.req == 0 && held() == before, "bad-alloc", "allocate() of %zu bytes (kind %d) threw although nothing failed", l.req, l.kind); ++n_badalloc; continue; }
                size_t after = held();
                if ( l.kind != POOL) REQUIRE( after >= before + l.req, "alloc-size", "only %zu bytes obtained for a request of %zu", after - before, l.req);
                ++n_alloc; cov.add( mix( mix( l.kind, l.req), 3));
                if ( l.kind != POOL && l.req == 0) { t_on = true; if ( l.kind == FIXED) { Fixed a( 0); a.deallocate( l.s); } else { Prot a( 0); a.deallocate( l.s); } t_on = false; REQUIRE( held() == before, "leak", "request of 0 bytes leaks"); continue; }
                check_new( l, v); v.push_back( l);
            } else {
                size_t i = R.below( (unsigned) v.size()); size_t before = held(); int k = v[i].kind;
                drop_live( v, i, pools, true);
                if ( k != POOL) REQUIRE( held() < before, "release-missing", "deallocate() of kind %d gave nothing back", k);
            }
            if ( op % 16 == 0) for ( auto & l : v) verify( l, "while live");
        }
        while ( ! v.empty()) drop_live( v, v.size() - 1, pools, true);
        pools.clear(); }
        t_on = false;
        REQUIRE( held() == base, "leak", "%zu bytes not given back after all stacks and allocators are gone", held() - base);
    }
    // sizes nobody can serve
    static const size_t huge[] = { ~(size_t) 0, ~(size_t) 0 - 1, ~(size_t) 0 - 4095, ~(size_t) 0 - 4096, ~(size_t) 0 - 4097, ~(size_t) 0 - 8191, ~(size_t) 0 - 8192, ~(size_t) 0 - 8193, ~(size_t) 0 - 12288, ~(size_t) 0 / 2, ~(size_t) 0 / 2 + 1, (size_t) 1 << 62, (size_t) 1 << 59, ( (size_t) 1 << 47) + 1, (size_t) 1 << 48 };
    for ( size_t h : huge) for ( int k = 0; k < 3; ++k) {
        if ( k == POOL && h > ~(size_t) 0 / 2) continue;              // the pool library itself asserts
        size_t base = held(); bool threw = false;
        try { Win w; if ( k == FIXED) { Fixed a( h); a.allocate(); } else if ( k == PROT) { Prot a( h); a.allocate(); } else { Pool a( h, 1 + R.below( 40)); a.allocate(); } }
        catch ( std::bad_alloc const&) { threw = true; }
        t_on = false;
        REQUIRE( threw, "bad-alloc", "kind %d: allocate() of %zu bytes did not throw bad_alloc", k, h);
        REQUIRE( held() == base, "leak", "kind %d: failed allocation of %zu bytes keeps %zu bytes", k, h, held() - base);
        ++n_badalloc;
        bool ran = false; threw = false;
        try { Win w;
#ifdef USE_CALLCC
            if ( k == FIXED) ctx::callcc( std::allocator_arg, Fixed( h), [&]( Ctx && x) { ran = true; return std::move( x); });
            else if ( k == PROT) ctx::callcc( std::allocator_arg, Prot( h), [&]( Ctx && x) { ran = true; return std::move( x); }); else { Pool p( h, 2); ctx::callcc( std::allocator_arg, p, [&]( Ctx && x) { ran = true; return std::move( x); }); }
#else
            if ( k == FIXED) { Ctx f( std::allocator_arg, Fixed( h), [&]( Ctx && x) { ran = true; return std::move( x); }); } else if ( k == PROT) { Ctx f( std::allocator_arg, Prot( h), [&]( Ctx && x) { ran = true; return std::move( x); }); } else { Pool p( h, 2); Ctx f( std::allocator_arg, p, [&]( Ctx && x) { ran = true; return std::move( x); }); }
#endif
        } catch ( std::bad_alloc const&) { threw = true; }
        t_on = false;
        REQUIRE( threw && ! ran && held() == base, "bad-alloc", "creating a context with a stack of %zu bytes (kind %d): threw=%d ran=%d", h, k, threw, ran); ++n_created_fail;
    }
}
// ------------------------------------------------------------ faults in the system interfaces
struct Cnt { static long live; Cnt() { ++live; } Cnt( Cnt const&) { ++live; } ~Cnt() { --live; } };
long Cnt::live = 0;
template< typename A > static bool create( A const& a, bool & ran) {
    Cnt c; auto fn = [c,&ran]( Ctx && x) { ran = true; return std::move( x); };
    try { Win w;
#ifdef USE_CALLCC
        { Ctx f = ctx::callcc( std::allocator_arg, A( a), std::move( fn)); }
#else
        { Ctx f( std::allocator_arg, A( a), std::move( fn)); f = std::move( f).resume(); }
#endif
        t_on = false; return true; }
    catch ( std::bad_alloc const&) { t_on = false; return false; }
}
static void mode_fault( uint64_t seed, uint64_t eps) {
    { bool r; create( Fixed( 32768), r); live_blk->clear(); }        // per-thread state of the library is set up once
    for ( uint64_t e = 0; e < eps; ++e) {
        g_case = e; R = Rng( mix( seed, e));
        std::vector< Live > v; std::vector< PoolX > pools; v.reserve( 16);
        { Off o; PoolX p; p.ss = 16384 + R.below( 20000); p.copies.push_back( Pool( p.ss, 1 + R.below( 3), R.below( 4))); pools.push_back( p); }
        single_shot = R.below( 2); fail_mask = 1 << R.below( 3); if ( R.below( 3) == 0) fail_mask = 7;
        long k = R.below( 3);
        for ( int i = 0; i < 6; ++i) {
            Live l; l.kind = R.below( 3); l.req = 16384 + R.below( 30000); l.seed = R.next(); l.who = 0; if ( l.kind == POOL) l.req = pools[0].ss;
            size_t before = held(); long blocks = (long) live_blk->size();
            calls = 0; fail_at = k; unsigned long long f0 = n_failed; bool ok = true;
            try { Win w; if ( l.kind == FIXED) { Fixed a( l.req); l.s = a.allocate(); } else if ( l.kind == PROT) { Prot a( l.req); l.s = a.allocate(); } else l.s = pools[0].copies[0].allocate(); }
            catch ( std::bad_alloc const&) { ok = false; }
            t_on = false; fail_at = -1;
            if ( ok) { check_new( l, v); v.push_back( l); ++n_alloc; }
            else {
                ++n_badalloc;
                REQUIRE( n_failed > f0, "bad-alloc", "allocate() threw although nothing failed");
                REQUIRE( held() == before && (long) live_blk->size() == blocks, "leak", "failed allocate() of kind %d (system call kind mask %d) keeps %zu bytes", l.kind, fail_mask, held() - before);
            }
            for ( auto & x : v) verify( x, "after a failed allocation");
            // the same while a context is created
            bool ran = false; long cl = Cnt::live; before = held(); f0 = n_failed; calls = 0; fail_at = k;
            { int kind = R.below( 3); bool c;
              if ( kind == FIXED) c = create( Fixed( 32768), ran); else if ( kind == PROT) c = create( Prot( 32768), ran); else { Pool & p = pools[0].copies[0]; c = create( p, ran); }
              fail_at = -1; ++n_ctx;
              REQUIRE( c == ran, "bad-alloc", "context creation %s but its function ran=%d", c ? "succeeded" : "failed", (int) ran);
              if ( ! c) ++n_created_fail;
              REQUIRE( c || n_failed > f0, "bad-alloc", "creation failed although nothing failed");
              REQUIRE( Cnt::live == cl, "callable", "creation left %ld callables", Cnt::live - cl);
              if ( kind != POOL) REQUIRE( held() == before, "leak", "created/failed context of kind %d keeps %zu bytes", kind, held() - before); }
            cov.add( mix( mix( mix( k, l.kind), fail_mask), single_shot + 2 * ok));
        }
        while ( ! v.empty()) drop_live( v, v.size() - 1, pools, true);
        { Win w; t_on = false; pools.clear(); }
        REQUIRE( held() == 0, "leak", "%zu bytes left at the end", held());
    }
}
// ------------------------------------------------------------ real exhaustion of address space and of mappings
template< typename A > static size_t fill_up( A & a, std::vector< Live > & v, int kind, size_t req, size_t limit) {
    size_t n = 0;
    for (; n < limit; ++n) { Live l; l.kind = kind; l.req = req; l.seed = n * 77; l.who = 0; try { l.s = a.allocate(); } catch ( std::bad_alloc const&) { ++n_badalloc; break; }
        ++n_alloc; 
        if ( kind == PROT) { char * b = (char*) l.s.sp - l.s.size; REQUIRE( ! readable( b) && ! readable( b + PS() - 1), "guard-page", "stack number %zu has no guard page", n); n_guardprobe += 2; }
        uint64_t s = l.seed; memcpy( lowest( l), & s, 8); memcpy( (char*) l.s.sp - 8, & s, 8); v.push_back( l); }
    for ( auto & l : v) { uint64_t x, y; memcpy( & x, lowest( l), 8); memcpy( & y, (char*) l.s.sp - 8, 8); REQUIRE( x == l.seed && y == l.seed, "alloc-disturbs", "stack damaged when memory ran out"); }
    return n;
}
static void exhaust_child( int kind, int how) {
    std::vector< Live > v; v.reserve( 70000);
    if ( how == 0) { rlimit r; r.rlim_cur = r.rlim_max = (rlim_t) 400 << 20; setrlimit( RLIMIT_AS, & r); }
    size_t req = how == 0 ? 200000 : 4096, lim = how == 0 ? 100000 : 60000;
    size_t n1, n2;
    if ( kind == FIXED) { Fixed a( req); n1 = fill_up( a, v, kind, req, lim); for ( auto & l : v) a.deallocate( l.s); v.clear(); n2 = fill_up( a, v, kind, req, lim); for ( auto & l : v) a.deallocate( l.s); }
    else if ( kind == PROT) { Prot a( req); n1 = fill_up( a, v, kind, req, lim); for ( auto & l : v) a.deallocate( l.s); v.clear(); n2 = fill_up( a, v, kind, req, lim); for ( auto & l : v) a.deallocate( l.s); }
    else { Pool a( req, 4, 8); n1 = fill_up( a, v, kind, req, lim); for ( auto & l : v) a.deallocate( l.s); v.clear(); n2 = fill_up( a, v, kind, req, lim); for ( auto & l : v) a.deallocate( l.s); }
    REQUIRE( how == 1 || n1 < lim, "bad-alloc", "address space limit never reached");
    REQUIRE( n2 + n2 / 16 + 8 >= n1, "leak", "only %zu stacks after releasing %zu stacks (kind %d)", n2, n1, kind);
    stat( "stacks_until_exhaustion", n1); stat( "bad_allocs", n_badalloc); stat( "allocations", n_alloc); stat( "guard_probes", n_guardprobe);
    fflush( 0); _exit( 0);
}
static int in_child( void ( * f)( int, int), int a, int b) {
    fflush( 0); pid_t p = fork(); if ( p < 0) _exit( 78);
    if ( p == 0) { f( a, b); _exit( 0); }
    int st; if ( waitpid( p, & st, 0) != p) _exit( 78);
    return st;
}
static void pass_on( int st, const char * w) {
    if ( WIFEXITED( st) && WEXITSTATUS( st) == 0) return;
    if ( WIFEXITED( st) && WEXITSTATUS( st) == 77) _exit( 77);
    if ( WIFEXITED( st) && WEXITSTATUS( st) == 78) _exit( 78);
    oracle_fail( "crash", "%s: child ended with wait status %x", w, st);
}
static void mode_exhaust( uint64_t, uint64_t) {
    for ( int k = 0; k < 3; ++k) pass_on( in_child( exhaust_child, k, 0), "address space exhausted");
    pass_on( in_child( exhaust_child, PROT, 1), "mappings exhausted");
}
// ------------------------------------------------------------ running off the end of a protected stack
static char * ov_lo, * ov_guard;
static void on_segv( int, siginfo_t * si, void *) {
    char * a = (char*) si->si_addr;
    _exit( a >= ov_guard && a < ov_guard + PS() ? 40 : 41);
}
static volatile char sink;
static NOINLINE int eat( int n) { volatile char b[512]; __asm__ __volatile__( "" : : "r"( b) : "memory"); b[0] = (char) n; b[511] = 1; sink = b[0]; int r = n <= 0 ? 0 : eat( n - 1); b[256] = (char) r; sink = b[256]; return r + b[511] + b[0]; }
static size_t ov_size;
static void overflow_child( int how, int) {
    stack_t ss; ss.ss_sp = malloc( 65536); ss.ss_size = 65536; ss.ss_flags = 0; sigaltstack( & ss, 0);
    struct sigaction sa; memset( & sa, 0, sizeof sa); sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigaction( SIGSEGV, & sa, 0); sigaction( SIGBUS, & sa, 0);
    Prot a( ov_size); ctx::stack_context s = a.allocate();
    // neighbours: overflow without a guard page would land here
    std::vector< ctx::stack_context > nb; for ( int i = 0; i < 8; ++i) nb.push_back( a.allocate());
    ov_guard = (char*) s.sp - s.size; ov_lo = ov_guard + PS();
    struct Rel { void operator()() {} };
    auto fn = [how]( Ctx && h) -> Ctx {
        char here;
        if ( how == 0) { eat( (int)( ov_size / 256 + 100)); }
        else if ( how == 1) { for ( volatile char * p = & here; ; --p) if ( p < ov_lo + 1) { * p = 1; if ( p < ov_guard) break; } }   // write byte by byte
        else { volatile char c; for ( volatile char * p = & here; ; p -= 1) if ( p < ov_lo + 1) { c = * p; (void) c; if ( p < ov_guard) break; } }
        return std::move( h);
    };
    struct Once { ctx::stack_context s; ctx::stack_context allocate() { return s; } void deallocate( ctx::stack_context &) {} };
    Once o; o.s = s;
#ifdef USE_CALLCC
    Ctx f = ctx::callcc( std::allocator_arg, o, fn);
#else
    Ctx f( std::allocator_arg, o, fn); f = std::move( f).resume();
#endif
    _exit( 42);
}
static void mode_overflow( uint64_t seed, uint64_t eps) {
    for ( uint64_t e = 0; e < eps; ++e) {
        g_case = e; R = Rng( mix( seed, e));
        ov_size = 16384 + R.below( 100000); if ( R.below( 3) == 0) ov_size = ov_size / PS() * PS();
        int how = (int)( e % 3);
        int st = in_child( overflow_child, how, 0);
        REQUIRE( WIFEXITED( st) && WEXITSTATUS( st) == 40, "guard-page", "running off a protected stack of %zu bytes (method %d): wait status %x, expected a fault inside the guard page", ov_size, how, st);
        ++n_overflow; cov.add( mix( ov_size, how));
    }
}
// ------------------------------------------------------------ pools
static void mode_pool( uint64_t seed, uint64_t eps) {
    { bool r; create( Fixed( 32768), r); live_blk->clear(); }
    for ( uint64_t e = 0; e < eps; ++e) {
        g_case = e; R = Rng( mix( seed, e));
        size_t ss = 16384 + 8 * R.below( 4000); if ( R.below( 2)) ss = PS() * ( 4 + R.below( 8));
        size_t next = 1 + R.below( 9), mx = R.below( 3) ? 1 + R.below( 20) : 0;
        size_t base = held(); REQUIRE( base == 0, "leak", "pool memory left from before: %zu", base);
        std::vector< std::unique_ptr< Pool > > copies; std::vector< Live > v; std::vector< Ctx > fibs; copies.reserve( 64); v.reserve( 256); fibs.reserve( 256);
        t_on = true; Pool * first = new Pool( ss, next, mx); t_on = false;
        copies.emplace_back( first);
        size_t capacity = 0, live = 0, peak = 0; bool any = false;
        std::map< char *, Blk > known;
        // the bookkeeping object of the pool is a block, too: only blocks of at least one stack count as memory of the pool
        auto blocks = [&]() { size_t c = 0; for ( auto & b : * live_blk) if ( b.second.size >= ss) c += b.second.size / ss; return c; };
        auto after_alloc = [&]() {
            size_t c = blocks();
            if ( c > capacity) {
                size_t add = c - capacity; ++n_poolblk;
                REQUIRE( live == capacity, "pool-bound", "pool obtained memory for %zu stacks although %zu of %zu are free", add, capacity - live, capacity);
                if ( ! any) REQUIRE( add >= next && add <= next + 1, "pool-config", "first chunk holds %zu stacks, %zu configured", add, next);
                if ( mx) { size_t lim = mx > next ? mx : next; REQUIRE( add <= lim + 1, "pool-config", "chunk for %zu stacks although the maximum is %zu", add, mx); }
                any = true; capacity = c;
            } else { ++n_reuse; REQUIRE( live < capacity, "pool-bound", "internal %zu %zu", live, capacity); }
            ++live; if ( live > peak) peak = live;
        };
        int nops = 40 + R.below( 200); bool alive_handles = true;
        for ( int op = 0; op < nops; ++op) {
            int k = R.below( 10);
            if ( k < 3) { // raw stack
                if ( live > 60) continue;
                Live l; l.kind = POOL; l.req = ss; l.seed = R.next(); l.who = 0; Pool & c = * copies[R.below( (unsigned) copies.size())];
                { Win w; l.s = c.allocate(); } after_alloc();
                // must lie inside memory of this pool
                bool in = false; for ( auto & b : * live_blk) if ( (char*) l.s.sp - l.s.size >= b.first && (char*) l.s.sp <= b.first + b.second.size) in = true;
                REQUIRE( in, "pool", "stack outside the pool's memory");
                check_new( l, v); v.push_back( l); ++n_alloc;
            } else if ( k < 5 && ! v.empty()) {
                size_t i = R.below( (unsigned) v.size()); Live l = v[i]; verify( l, "pool"); v[i] = v.back(); v.pop_back(); Pool & c = * copies[R.below( (unsigned) copies.size())];
                { Win w; c.deallocate( l.s); } --live; ++n_dealloc;
            } else if ( k < 7) { // context with a copy inside
                if ( live > 60) continue;
                Pool & c = * copies[R.below( (unsigned) copies.size())]; uint64_t magic = R.next(); long expect = Cnt::live; (void) expect;
                auto fn = [magic]( Ctx && h) -> Ctx { volatile uint64_t m[64]; for ( int i = 0; i < 64; ++i) m[i] = magic + i; for (;;) { t_on = false; h = std::move( h).resume(); for ( int i = 0; i < 64; ++i) REQUIRE( m[i] == magic + i, "pool-in-use", "locals of a context on a pooled stack changed"); if ( m[0] == 1) return std::move( h); } };
                t_on = true;
#ifdef USE_CALLCC
                Ctx f = ctx::callcc( std::allocator_arg, Pool( c), fn);
#else
                Ctx f( std::allocator_arg, Pool( c), fn); t_on = false; if ( R.below( 4)) f = std::move( f).resume();
#endif
                t_on = false; after_alloc(); ++n_ctx; fibs.push_back( std::move( f));
            } else if ( k < 8 && ! fibs.empty()) {
                size_t i = R.below( (unsigned) fibs.size()); Ctx f = std::move( fibs[i]); fibs[i] = std::move( fibs.back()); fibs.pop_back();
                if ( R.below( 2)) { t_on = false; f = std::move( f).resume(); }
                t_on = true; { Ctx g = std::move( f); } t_on = false; --live;
            } else if ( k == 8) { size_t j = R.below( (unsigned) copies.size()); Pool * n; { Win w; n = new Pool( * copies[j]); } copies.emplace_back( n); if ( R.below( 3) == 0) { size_t a = R.below( (unsigned) copies.size()); Win w; * copies[a] = * copies[j]; } }
            else if ( copies.size() > 1) { size_t j = R.below( (unsigned) copies.size()); std::unique_ptr< Pool > d = std::move( copies[j]); copies[j] = std::move( copies.back()); copies.pop_back(); Win w; d.reset(); }
            REQUIRE( blocks() == capacity, "pool-lifetime", "the pool's memory changed from %zu to %zu stacks although it is in use", capacity, blocks());
        }
        while ( ! v.empty()) { Live l = v.back(); verify( l, "pool end"); v.pop_back(); Win w; copies[0]->deallocate( l.s); }
        // drop the visible copies; contexts keep the pool alive
        { while ( ! copies.empty()) { std::unique_ptr< Pool > d = std::move( copies.back()); copies.pop_back(); Win w; d.reset(); } }
        alive_handles = ! fibs.empty(); (void) alive_handles;
        if ( ! fibs.empty()) { REQUIRE( blocks() == capacity, "pool-lifetime", "pool memory given back while %zu contexts use it", fibs.size()); ++n_pooldead; }
        while ( ! fibs.empty()) {
            Ctx f = std::move( fibs.back()); fibs.pop_back();
            REQUIRE( blocks() == capacity, "pool-lifetime", "pool memory given back while %zu contexts use it", fibs.size() + 1);
            if ( R.below( 2)) f = std::move( f).resume();
            t_on = true; { Ctx g = std::move( f); } t_on = false;
        }
        REQUIRE( held() == 0, "leak", "%zu bytes of a pool not given back when its last copy and context are gone", held());
        REQUIRE( capacity <= 2 * peak + next + 1 || mx, "pool-bound", "%zu stacks obtained for a peak of %zu", capacity, peak);
        cov.add( mix( mix( mix( ss, next), mx), peak));
    }
}
// copies of one pool made and dropped by many threads; its memory is given back exactly once
static void mode_poolthreads( uint64_t seed, uint64_t eps) {
    live_blk = 0;                                   // no recording in this mode
    for ( uint64_t e = 0; e < eps; ++e) {
        g_case = e; std::mutex m; unsigned long long ops = 0;
        { Pool * p = new Pool( 65536, 4, 4);
          std::vector< std::thread > ts; std::vector< std::unique_ptr< Pool > > start; for ( int i = 0; i < 6; ++i) start.emplace_back( new Pool( * p));
          ctx::stack_context s0 = p->allocate(); memset( (char*) s0.sp - s0.size, 0x3C, s0.size);
          for ( int i = 0; i < 6; ++i) ts.emplace_back( [&,i]() {
              Rng r( mix( mix( seed, e), i)); std::unique_ptr< Pool > mine = std::move( start[i]);
              for ( int k = 0; k < 300; ++k) { Pool a( * mine); { Pool b( a); a = b; } 
                  if ( r.below( 8) == 0) { std::lock_guard< std::mutex > l( m); ctx::stack_context s = a.allocate(); memset( (char*) s.sp - s.size, k, 256); memset( (char*) s.sp - 64, k, 64); a.deallocate( s); ++ops; } }
          });
          bool last_here = e & 1;
          if ( ! last_here) { std::lock_guard< std::mutex > l( m); for ( size_t i = 0; i < s0.size; ++i) REQUIRE( ( (unsigned char*) s0.sp - s0.size)[i] == 0x3C, "pool-in-use", "stack in use changed"); p->deallocate( s0); }
          if ( ! last_here) { delete p; }
          for ( auto & t : ts) t.join();
          if ( last_here) { for ( size_t i = 0; i < s0.size; ++i) REQUIRE( ( (unsigned char*) s0.sp - s0.size)[i] == 0x3C, "pool-in-use", "stack in use changed"); p->deallocate( s0); delete p; } }
        n_alloc += ops; ++n_ctx; n_reuse += 6 * 300 * 3;
    }
}
// the last copies of a pool dropped by several threads at the same moment
static void mode_poolrace( uint64_t seed, uint64_t eps) {
    keep_blk = live_blk; live_blk = 0;
    for ( uint64_t e = 0; e < eps; ++e) {
        g_case = e; Rng r( mix( seed, e)); enum { N = 1500 }; const int T = 2 + (int) r.below( 3);
        std::vector< std::vector< Pool * > > v( T);
        for ( int i = 0; i < N; ++i) {
            Pool * p = new Pool( 1024, 1, 1); if ( i % 4 == 0) { ctx::stack_context s = p->allocate(); p->deallocate( s); }
            v[0].push_back( p); for ( int t = 1; t < T; ++t) v[t].push_back( new Pool( * v[r.below( t)][i]));
        }
        std::atomic< int > at[4]; for ( auto & a : at) a = 0;
        auto run = [&]( int t) {
            for ( int i = 0; i < N; ++i) {
                at[t].store( i + 1); for ( int o = 0; o < T; ++o) for ( int n = 0; at[o].load() < i + 1; ) if ( ++n > 3000) sched_yield();
                for ( int d = ( i * 7 + t * 3) % 11; d > 0; --d) __asm__ __volatile__( "" ::: "memory");
                delete v[t][i]; } };
        std::vector< std::thread > ts; for ( int t = 1; t < T; ++t) ts.emplace_back( run, t);
        run( 0); for ( auto & t : ts) t.join();
        n_ctx += N;
    }
    n_race += eps * 1500;
}
// ------------------------------------------------------------ using all of a stack
struct Region { char * map; size_t maplen; char * lo, * sp; };
struct CustomSA {
    Region * r; int * released;
    ctx::stack_context allocate() { ctx::stack_context s; s.sp = r->sp; s.size = r->sp - r->lo; return s; }
    void deallocate( ctx::stack_context & s) { REQUIRE( s.sp == r->sp && s.size == (size_t)( r->sp - r->lo), "release", "other stack context given back"); ++ * released; }
};
struct UseState { Region * r; Ctx h; int steps; char * top; bool ok; char * obj; size_t objsz; size_t slack; };
static void NOINLINE use_all( UseState & u) {
    char * here = (char*) __builtin_frame_address( 0); char * from = u.r->lo, * to = here - 1024;
    // every byte from the lowest one up to the current stack pointer belongs to this function
    for ( char * p = from; p < to; ++p) * p = (char)( (uintptr_t) p * 7);
    n_bytes += to > from ? to - from : 0;
    for ( int i = 0; i < 3; ++i) {
        if ( i) { u.h = std::move( u.h).resume(); // may use a little stack below this frame
            for ( char * p = from; p < to - u.slack; ++p) REQUIRE( * p == (char)( (uintptr_t) p * 7), "stack-usable", "byte lo+%ld of the stack (%ld below the running frame) changed while it was suspended", (long)( p - from), (long)( here - p)); }
    }
}
static void NOINLINE deep( UseState & u, size_t left) {
    // descend until only `left` bytes remain, then switch from there
    volatile char b[160]; b[0] = 1; b[159] = 2;
    if ( (size_t)( (char*) & b[0] - u.r->lo) > left + 400) { deep( u, left); }
    else { for ( int i = 0; i < 3; ++i) { u.h = std::move( u.h).resume(); } ++n_usefull; }
    REQUIRE( b[0] == 1 && b[159] == 2, "locals", "locals of a deep frame changed");
}
template< size_t S, size_t A > struct alignas( A) Obj {
    UseState * u; unsigned char pay[S];
    explicit Obj( UseState * s) : u( s) { for ( size_t i = 0; i < S; ++i) pay[i] = (unsigned char)( i * 5 + 1); }
    Obj( Obj const& o) : u( o.u) { memcpy( pay, o.pay, S); }
    ~Obj() { memset( pay, 0xEA, S); }
    Ctx operator()( Ctx && h) {
        u->h = std::move( h); u->obj = (char*) this; u->objsz = sizeof( * this);
        REQUIRE( ( (uintptr_t) this & ( A - 1)) == 0, "callable-align", "callable at %p not aligned to %zu", (void*) this, A);
        REQUIRE( (char*) this >= u->r->lo && (char*) this + sizeof( * this) <= u->r->sp, "callable-place", "callable of %zu bytes at %p not inside the stack [%p,%p)", sizeof( * this), (void*) this, (void*) u->r->lo, (void*) u->r->sp);
        char here; REQUIRE( & here < (char*) this, "callable-place", "the running frame is above the stored callable");
        u->top = & here;
        u->h = std::move( u->h).resume();
        for ( size_t i = 0; i < S; ++i) REQUIRE( pay[i] == (unsigned char)( i * 5 + 1), "callable-data", "byte %zu of the stored callable changed", i);
        use_all( * u);
        deep( * u, u->slack);
        for ( size_t i = 0; i < S; ++i) REQUIRE( pay[i] == (unsigned char)( i * 5 + 1), "callable-data", "byte %zu of the stored callable changed", i);
        u->ok = true;
        return std::move( u->h);
    }
};
#if defined(BOOST_USE_UCONTEXT)
enum { SLACK = 2600, MINROOM = 12000 };
#else
enum { SLACK = 1600, MINROOM = 9000 };
#endif
static void outside( Region & r, char * above, const char * w) {
    for ( char * p = r.map; p < r.lo; ++p) REQUIRE( (unsigned char) * p == 0xC3, "stack-bounds", "%s: byte %ld below the stack was modified", w, (long)( r.lo - p));
    for ( char * p = r.sp; p < r.map + r.maplen; ++p) REQUIRE( (unsigned char) * p == 0xC3, "stack-bounds", "%s: byte %ld above the stack was modified", w, (long)( p - r.sp));
    for ( char * p = above; p < r.sp; ++p) REQUIRE( (unsigned char) * p == 0x5A, "prealloc", "%s: byte sp+%ld above the preallocated pointer was modified", w, (long)( p - above));
}
template< size_t S, size_t A > static void use_one( bool pre, bool unwind) {
    static char map[200000] __attribute__((aligned(4096)));
    Region r; r.map = map; r.maplen = sizeof map;
    memset( map, 0xC3, sizeof map);
    size_t room = S + A + MINROOM + R.below( 6000) + ( unwind ? 16000 : 0); size_t off = 2048 + R.below( 4096);
    r.lo = map + off; r.sp = r.lo + room; size_t res = 0; 
    switch ( R.below( 3)) { case 0: r.sp -= (uintptr_t) r.sp & 255; break; case 1: r.sp -= (uintptr_t) r.sp & 15; break; default: r.sp -= R.below( 16); break; }
    memset( r.lo, 0xA5, r.sp - r.lo);
    char * above = r.sp; ctx::stack_context sc; sc.sp = r.sp; sc.size = r.sp - r.lo; int released = 0; CustomSA sa = { & r, & released };
    if ( pre) { res = R.below( 3) ? R.below( 600) : R.below( 5); if ( R.below( 2)) res &= ~(size_t) 15; above = r.sp - res; memset( above, 0x5A, res); }
    UseState u; u.r = & r; u.steps = 0; u.top = 0; u.ok = false; u.slack = SLACK + ( unwind ? 16000 : 0); u.obj = 0;
    Region inner = r; inner.sp = above; u.r = & inner;
    {
        Ctx f;
#ifdef USE_CALLCC
        if ( pre) f = ctx::callcc( std::allocator_arg, ctx::preallocated( above, above - r.lo, sc), sa, Obj< S, A >( & u));
        else f = ctx::callcc( std::allocator_arg, sa, Obj< S, A >( & u));
#else
        if ( pre) f = Ctx( std::allocator_arg, ctx::preallocated( above, above - r.lo, sc), sa, Obj< S, A >( & u));
        else f = Ctx( std::allocator_arg, sa, Obj< S, A >( & u));
        outside( r, above, "creation");
        f = std::move( f).resume();
#endif
        outside( r, above, "start"); REQUIRE( ! released, "release-early", "stack released while suspended");
        if ( unwind) { int k = R.below( 5); for ( int i = 0; i < k && f; ++i) f = std::move( f).resume(); { Ctx g = std::move( f); } }
        else { while ( f) { f = std::move( f).resume(); outside( r, above, "switch"); } REQUIRE( u.ok, "control", "context did not finish"); }
    }
    REQUIRE( released == 1, pre ? "prealloc" : "release", "stack released %d times", released);
    outside( r, above, "end");
    ++n_ctx; cov.add( mix( mix( mix( S, A), (uintptr_t) r.sp & 255), mix( res, pre * 2 + unwind)));
}
template< size_t S, size_t A > static void use_size( bool pre) { use_one< S, A >( pre, false); use_one< S, A >( pre, true); }
static void mode_use( uint64_t seed, uint64_t eps, bool pre) {
    for ( uint64_t e = 0; e < eps; ++e) {
        g_case = e; R = Rng( mix( seed, e));
        use_size< 1, 8 >( pre); use_size< 8, 16 >( pre); use_size< 24, 32 >( pre); use_size< 100, 64 >( pre); use_size< 64, 128 >( pre); use_size< 7, 256 >( pre); use_size< 128, 256 >( pre);
        use_size< 255, 8 >( pre); use_size< 256, 8 >( pre); use_size< 257, 16 >( pre); use_size< 512, 256 >( pre); use_size< 4000, 64 >( pre); use_size< 30000, 8 >( pre); use_size< 70000, 256 >( pre);
        use_size< 17, 8 >( pre); use_size< 33, 8 >( pre); use_size< 40, 8 >( pre); use_size< 48, 16 >( pre); use_size< 1000, 128 >( pre); use_size< 192, 64 >( pre);
    }
}
int main( int argc, char ** argv) {
    live_blk = new std::map< char *, Blk >(); probes_init();
    uint64_t seed = arg_ull( argc, argv, "--seed", 1), eps = arg_ull( argc, argv, "--episodes", 100);
    std::string mode = "seq"; for ( int i = 1; i + 1 < argc; ++i) if ( ! strcmp( argv[i], "--mode")) mode = argv[i + 1];
    static std::string ph; ph = "alloc-" + mode; g_phase = ph.c_str();
    if ( mode == "seq") mode_seq( seed, eps); else if ( mode == "fault") mode_fault( seed, eps); else if ( mode == "exhaust") mode_exhaust( seed, eps);
    else if ( mode == "overflow") mode_overflow( seed, eps); else if ( mode == "pool") mode_pool( seed, eps); else if ( mode == "poolrace") mode_poolrace( seed, eps); else if ( mode == "poolthreads") mode_poolthreads( seed, eps);
    else if ( mode == "use") mode_use( seed, eps, false); else if ( mode == "prealloc") mode_use( seed, eps, true); else return 78;
    stat( "allocations", n_alloc); stat( "deallocations", n_dealloc); stat( "bad_allocs", n_badalloc); stat( "usable_probes", n_probe); stat( "guard_probes", n_guardprobe); stat( "stack_bytes_written_and_verified", n_bytes);
    stat( "contexts", n_ctx); stat( "overflows_trapped", n_overflow); stat( "pool_blocks", n_poolblk); stat( "pool_reuses", n_reuse); stat( "pool_last_copy_races", n_race); stat( "pools_outliving_their_allocator", n_pooldead); stat( "failed_creations", n_created_fail);
    stat( "deep_switches", n_usefull); stat( "system_interface_calls", n_sys); stat( "injected_failures", n_failed); stat( "distinct_cases", cov.n);
    sample( "%s seed=%llu episodes=%llu", mode.c_str(), (unsigned long long) seed, (unsigned long long) eps);
    fflush( 0); return 0;
}
