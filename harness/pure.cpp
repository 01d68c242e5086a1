// Switching is user-space work without allocation (C19).
//   --mode pure     random programs on memory supplied beforehand while a seccomp filter turns every system call into a trap and every
//                   heap operation of the whole process is counted
//   --mode bounded  many switches and create/finish cycles: stacks, heap, mappings and resident memory do not grow
#include "common.hpp"
#ifdef USE_CALLCC
#include <boost/context/continuation.hpp>
typedef boost::context::continuation Ctx;
#else
#include <boost/context/fiber.hpp>
typedef boost::context::fiber Ctx;
#endif
#ifndef BOOST_USE_UCONTEXT
#include <boost/context/detail/fcontext.hpp>
#endif
#include <boost/context/fixedsize_stack.hpp>
#include <boost/context/pooled_fixedsize_stack.hpp>
#include <boost/context/preallocated.hpp>
#include <boost/context/protected_fixedsize_stack.hpp>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <malloc.h>
#include <signal.h>
#include <stddef.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <vector>
namespace ctx = boost::context;
// ---- every heap operation of the process
extern "C" { void * __libc_malloc( size_t); void __libc_free( void *); void * __libc_calloc( size_t, size_t); void * __libc_realloc( void *, size_t); void * __libc_memalign( size_t, size_t); }
static unsigned long long n_malloc, n_free; static volatile bool forbid_heap; static const char * volatile g_doing = "";
static void heap_op() { if ( forbid_heap) { forbid_heap = false; oracle_fail( "allocation", "heap used during: %s", g_doing); } }
extern "C" void * malloc( size_t n) { heap_op(); ++n_malloc; return __libc_malloc( n); }
extern "C" void free( void * p) { if ( p) { heap_op(); ++n_free; } __libc_free( p); }
extern "C" void * calloc( size_t a, size_t b) { heap_op(); ++n_malloc; return __libc_calloc( a, b); }
extern "C" void * realloc( void * p, size_t n) { heap_op(); if ( ! p) ++n_malloc; return __libc_realloc( p, n); }
extern "C" void * aligned_alloc( size_t a, size_t n) { heap_op(); ++n_malloc; return __libc_memalign( a, n); }
extern "C" int posix_memalign( void ** p, size_t a, size_t n) { heap_op(); ++n_malloc; * p = __libc_memalign( a, n); return * p ? 0 : 12; }
// ---- every system call of the process
#ifndef BOOST_USE_UCONTEXT
static void on_sys( int, siginfo_t * si, void * v) {
    static char b[200]; ucontext_t * uc = (ucontext_t*) v;
    int n = snprintf( b, sizeof b, "ORACLE-FAIL system-call: number %d made at %llx during: %s\n", si->si_syscall, (unsigned long long) uc->uc_mcontext.gregs[REG_RIP], g_doing);
    if ( write( 1, b, (size_t) n) < 0) {}
    _exit( 77);
}
static bool seal() {
    static struct sock_filter f[] = {
        BPF_STMT( BPF_LD | BPF_W | BPF_ABS, offsetof( struct seccomp_data, nr)),
        BPF_JUMP( BPF_JMP | BPF_JEQ | BPF_K, SYS_write, 3, 0), BPF_JUMP( BPF_JMP | BPF_JEQ | BPF_K, SYS_exit_group, 2, 0), BPF_JUMP( BPF_JMP | BPF_JEQ | BPF_K, SYS_rt_sigreturn, 1, 0),
        BPF_STMT( BPF_RET | BPF_K, SECCOMP_RET_TRAP), BPF_STMT( BPF_RET | BPF_K, SECCOMP_RET_ALLOW) };
    static struct sock_fprog p = { sizeof f / sizeof f[0], f };
    struct sigaction sa; memset( & sa, 0, sizeof sa); sa.sa_sigaction = on_sys; sa.sa_flags = SA_SIGINFO; sigaction( SIGSYS, & sa, 0);
    if ( prctl( PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) return false;
    return prctl( PR_SET_SECCOMP, SECCOMP_MODE_FILTER, & p, 0, 0) == 0;
}
#endif
enum { NST = 12, SZ = 64 * 1024 };
static char * mem; static bool used[NST];
struct Alloc {
    ctx::stack_context allocate() { for ( int i = 0; i < NST; ++i) if ( ! used[i]) { used[i] = true; ctx::stack_context s; s.size = SZ; s.sp = mem + (size_t)( i + 1) * SZ; return s; } oracle_fail( "release-missing", "no stack left"); }
    void deallocate( ctx::stack_context & s) noexcept { long i = ( (char*) s.sp - mem) / SZ - 1; REQUIRE( i >= 0 && i < NST && used[i], "release", "bad release"); used[i] = false; }
};
static unsigned long long n_switch, n_create, n_ontop, n_finish, n_unwind, n_pre, n_raw; static uint64_t H;
#define DO( what) g_doing = what; forbid_heap = strict
#define DONE forbid_heap = false
static bool strict;       // after everything was done once
struct Fn { uint64_t seed; Ctx operator()( Ctx && h) { uint64_t a = seed; unsigned n = 1 + (unsigned)( seed % 5); for ( unsigned i = 0; i < n; ++i) { H = mix( H, a); a = mix( a, i); h = std::move( h).resume(); } H = mix( H, seed); return std::move( h); } };
struct Top { uint64_t v; Ctx operator()( Ctx && h) const { H = mix( H, v); return std::move( h); } };
struct BigTop { uint64_t v[40]; explicit BigTop( uint64_t x) { for ( auto & a : v) a = x; } Ctx operator()( Ctx && h) const { H = mix( H, v[39]); return std::move( h); } };
struct OddTop { uint64_t v; OddTop * self; explicit OddTop( uint64_t x) : v( x), self( this) {} OddTop( OddTop const& o) : v( o.v), self( this) {} ~OddTop() { v = 0; }
    Ctx operator()( Ctx && h) { REQUIRE( self == this, "ontop", "callable was moved bytewise"); H = mix( H, v); return std::move( h); } };
static Ctx make( uint64_t seed, bool pre) {
    ++n_create;
    if ( pre) {
        ++n_pre; Alloc a; ctx::stack_context s = a.allocate(); ctx::preallocated p( (char*) s.sp - 128, s.size - 128, s);
#ifdef USE_CALLCC
        return ctx::callcc( std::allocator_arg, p, a, Fn{ seed });
#else
        return Ctx( std::allocator_arg, p, a, Fn{ seed });
#endif
    }
#ifdef USE_CALLCC
    return ctx::callcc( std::allocator_arg, Alloc(), Fn{ seed });
#else
    return Ctx( std::allocator_arg, Alloc(), Fn{ seed });
#endif
}
#ifdef BOOST_USE_UCONTEXT
#define CREATE( what) g_doing = what; forbid_heap = false       /* the claim is about the default implementation; here only plain switches are watched */
#define DO_TOP( what) CREATE( what)
#else
#define CREATE( what) DO( what)
#define DO_TOP( what) DO( what)
#endif
static void program( Rng & r, unsigned ops, bool unwinding) {
    static Ctx s[8];
    for ( unsigned i = 0; i < ops; ++i) {
        int k = (int) r.below( 8); unsigned op = r.below( 10); uint64_t v = r.next();
        if ( ! s[k]) { g_doing = "release"; s[k] = Ctx(); bool pre = v & 1; CREATE( "creation"); s[k] = make( v, pre); DONE; continue; }
        if ( op < 6) { DO( "resume"); s[k] = std::move( s[k]).resume(); DONE; ++n_switch; }
        else if ( op < 8) { DO_TOP( "resume_with"); if ( v % 3 == 0) s[k] = std::move( s[k]).resume_with( Top{ v }); else if ( v % 3 == 1) s[k] = std::move( s[k]).resume_with( BigTop{ v }); else { OddTop t{ v }; s[k] = std::move( s[k]).resume_with( t); } DONE; ++n_ontop; }
        else if ( op == 8) { DO( "move, swap, comparison"); Ctx t = std::move( s[k]); int j = (int) r.below( 8); s[k].swap( s[j]); if ( ! s[j]) s[j].swap( t); else std::swap( s[k], t); bool lt = s[j] < s[k]; H = mix( H, (uint64_t) lt & 0); DONE;
            g_doing = "release"; unsigned long long m = n_malloc - n_free; if ( t) ++n_unwind; t = Ctx(); (void) m; }
        else if ( unwinding) { g_doing = "unwinding"; unsigned long long m = n_malloc - n_free; s[k] = Ctx(); ++n_unwind; (void) m;
#ifndef BOOST_USE_UCONTEXT
            REQUIRE( n_malloc - n_free == m, "allocation", "unwinding a context leaves %lld heap blocks", (long long)( n_malloc - n_free - m));
#endif
        }
        if ( ! s[k]) { ++n_finish; }
        H = mix( H, static_cast< bool >( s[k]));
    }
    for ( int k = 0; k < 8; ++k) { g_doing = "end"; while ( s[k]) s[k] = std::move( s[k]).resume(); s[k] = Ctx(); }
    for ( int i = 0; i < NST; ++i) REQUIRE( ! used[i], "release-missing", "stack %d not released", i);
}
#ifndef BOOST_USE_UCONTEXT
static ctx::detail::transfer_t top( ctx::detail::transfer_t t) { H = mix( H, (uintptr_t) t.data); return t; }
static void raw_fn( ctx::detail::transfer_t t) { for (;;) { H = mix( H, (uintptr_t) t.data); t = ctx::detail::jump_fcontext( t.fctx, t.data); } }
static void raw( Rng & r) {
    DO( "raw switches"); ctx::detail::fcontext_t f[4] = { 0, 0, 0, 0 };
    for ( int i = 0; i < 200; ++i) { int k = (int) r.below( 4); void * d = (void*) (uintptr_t) r.next(); if ( ! f[k]) f[k] = ctx::detail::make_fcontext( mem + (size_t)( k + 1) * SZ, SZ, raw_fn); else if ( r.below( 3) == 0 && n_raw) { ctx::detail::transfer_t t = ctx::detail::jump_fcontext( f[k], d); f[k] = t.fctx; t = ctx::detail::ontop_fcontext( f[k], d, top); f[k] = t.fctx; }
        ctx::detail::transfer_t t = ctx::detail::jump_fcontext( f[k], d); REQUIRE( t.data == d, "data", "lost"); f[k] = t.fctx; ++n_raw; }
    DONE;
}
#endif
static int pure( uint64_t seed, uint64_t eps) {
    mem = (char*) mmap( 0, (size_t) NST * SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if ( mem == MAP_FAILED) return 78; memset( mem, 1, (size_t) NST * SZ);
    mallopt( M_TRIM_THRESHOLD, 1 << 30); mallopt( M_MMAP_THRESHOLD, 1 << 28); { void * p = malloc( 8 << 20); memset( p, 1, 8 << 20); free( p); }       // the heap has room
    { Rng r( 77); program( r, 300, true); strict = true; program( r, 300, true); }          // unwinder and libraries have seen everything once
    setvbuf( stdout, 0, _IOLBF, 4096); printf( "\n"); fflush( stdout);
#ifndef BOOST_USE_UCONTEXT
    if ( ! seal()) { printf( "no seccomp\n"); return 78; }
#endif
    unsigned long long m0 = n_malloc - n_free;
    unsigned long long created = n_create;
    for ( uint64_t e = 0; e < eps; ++e) {
        g_case = e; Rng r( mix( seed, e)); program( r, 60 + (unsigned)( e % 200), e % 2 == 0);
#ifndef BOOST_USE_UCONTEXT
        raw( r);
#endif
        REQUIRE( n_malloc - n_free == m0, "allocation", "%lld heap blocks left after a program", (long long)( n_malloc - n_free - m0));
    }
    stat( "pure_creations", n_create - created); stat( "pure_switches", n_switch + n_raw); stat( "pure_ontops", n_ontop); stat( "pure_finishes", n_finish); stat( "pure_unwindings", n_unwind); stat( "pure_preallocated", n_pre); stat( "pure_programs", eps);
    sample( "pure seed=%llu programs=%llu switches=%llu hash=%llx", (unsigned long long) seed, (unsigned long long) eps, n_switch, (unsigned long long) H);
    fflush( stdout); _exit( 0);
}
// ------------------------------------------------------------ bounded
static long rss_kb() { long a = 0, b = 0; FILE * f = fopen( "/proc/self/statm", "r"); if ( ! f) return 0; if ( fscanf( f, "%ld %ld", & a, & b) != 2) b = 0; fclose( f); return b * 4; }
static long maps() { long n = 0; FILE * f = fopen( "/proc/self/maps", "r"); if ( ! f) return 0; int c; while ( ( c = fgetc( f)) != EOF) if ( c == '\n') ++n; fclose( f); return n; }
static long heap_use() { return (long) mallinfo2().uordblks + (long) mallinfo2().hblkhd; }
static char * low_water( char * lo, size_t n) { char * p = lo; while ( p < lo + n && * p == 0x5A) ++p; return p; }
template< typename A, typename F > static Ctx mk( A a, F f) {
#ifdef USE_CALLCC
    return ctx::callcc( std::allocator_arg, a, f);
#else
    return std::move( Ctx( std::allocator_arg, a, f)).resume();
#endif
}
struct Ring { ctx::stack_context s; ctx::stack_context allocate() { return s; } void deallocate( ctx::stack_context &) noexcept {} };
static unsigned long long n_cycles, n_long;
static NOINLINE void long_switching( unsigned long n, unsigned kind) {
    // the stack of a context and of main after few and after many switches
    enum { SS = 128 * 1024 }; char * st = (char*) malloc( SS); memset( st, 0x5A, SS); Ring a; a.s.size = SS; a.s.sp = st + SS;
    unsigned long cnt = 0, * cp = & cnt;
    Ctx c = mk( a, [cp,kind]( Ctx && h) -> Ctx {
        try { for (;;) { ++* cp; if ( kind == 0) h = std::move( h).resume(); else if ( kind == 1) h = std::move( h).resume_with( []( Ctx && x) -> Ctx { return std::move( x); }); else { try { h = std::move( h).resume(); } catch ( Ctx * p) { h = std::move( * p); } } } }
        catch ( int) { } return std::move( h); });
    char * first = 0; char * main_sp = (char*) __builtin_frame_address( 0); (void) main_sp; long h0 = 0;
    for ( unsigned long i = 0; i < n; ++i) {
        if ( kind == 2 && i % 3 == 0) c = std::move( c).resume_with( []( Ctx && x) -> Ctx { Ctx y = std::move( x); return y; });
        else if ( kind == 3 && i % 5 == 0) { unsigned long k = 0, * kp = & k; Ctx d; { enum { X = 1 }; } c = std::move( c).resume_with( [kp]( Ctx && x) -> Ctx { ++* kp; x = std::move( x).resume(); return std::move( x); }); if ( c) c = std::move( c).resume(); REQUIRE( k == 1, "ontop", "ran %lu times", k); }
        else c = std::move( c).resume();
        if ( i == 2000) { first = low_water( st, SS); h0 = heap_use(); }
    }
    char * last = low_water( st, SS); REQUIRE( last == first, "memory-growth", "a context used %ld bytes of stack after 2000 switches and %ld after %lu (kind %u)", (long)( st + SS - first), (long)( st + SS - last), n, kind);
    REQUIRE( heap_use() - h0 < 4096, "memory-growth", "heap grew by %ld bytes in %lu switches (kind %u)", heap_use() - h0, n, kind);
    n_long += n; c = Ctx(); free( st);
}
template< typename A > struct Chain { A a; Ctx * home; unsigned long * k;
    Ctx operator()( Ctx && h) { h = std::move( h).resume(); if ( h) * home = std::move( h); if ( -- * k == 0) return std::move( * home); ++n_cycles; h = Ctx(); return mk( a, Chain< A >{ a, home, k }); } };
template< typename A > static void cycle( A a, unsigned how, unsigned long n, const char * name) {
    long h0 = 0, r0 = 0, m0 = 0;
    for ( unsigned long i = 0; i < n; ++i) {
        switch ( how) {
        case 0: { Ctx c = mk( a, []( Ctx && h) -> Ctx { h = std::move( h).resume(); return std::move( h); }); c = std::move( c).resume(); break; }            // finished
        case 1: { Ctx c = mk( a, []( Ctx && h) -> Ctx { for (;;) h = std::move( h).resume(); return std::move( h); }); c = Ctx(); break; }                       // unwound
        case 2: { Ctx c = mk( a, []( Ctx && h) -> Ctx { return std::move( h); }); break; }                                                                      // finished at once
        case 3: { Ctx home; unsigned long k = 16; Ctx c = mk( a, Chain< A >{ a, & home, & k }); c = std::move( c).resume(); REQUIRE( k == 0, "control", "chain of endings broken, %lu left", k); break; }   // each one ends into the next
        default: {
#ifdef USE_CALLCC
            Ctx c = mk( a, []( Ctx && h) -> Ctx { return std::move( h).resume(); });
#else
            Ctx c( std::allocator_arg, a, []( Ctx && h) -> Ctx { return std::move( h); });                                                                      // never started
#endif
            break; }
        }
        ++n_cycles;
        if ( i == n / 4) { h0 = heap_use(); r0 = rss_kb(); m0 = maps(); }
    }
    long h = heap_use() - h0, r = rss_kb() - r0, m = maps() - m0;
    REQUIRE( h < 64 * 1024, "memory-growth", "%s, ending %u: heap in use grew by %ld bytes in %lu cycles", name, how, h, n * 3 / 4);
    REQUIRE( r < 8 * 1024, "memory-growth", "%s, ending %u: resident memory grew by %ld kB in %lu cycles", name, how, r, n * 3 / 4);
    REQUIRE( m < 8, "memory-growth", "%s, ending %u: %ld more mappings after %lu cycles", name, how, m, n * 3 / 4);
}
int main( int argc, char ** argv) {
    uint64_t seed = arg_ull( argc, argv, "--seed", 1), eps = arg_ull( argc, argv, "--episodes", 100);
    std::string mode = "pure"; for ( int i = 1; i + 1 < argc; ++i) if ( ! strcmp( argv[i], "--mode")) mode = argv[i+1];
    g_phase = "pure";
    if ( mode == "pure") return pure( seed, eps);
    for ( unsigned k = 0; k < 4; ++k) { g_case = k; long_switching( 5000 + eps * 100, k); }
    for ( unsigned how = 0; how < 5; ++how) {
        g_case = 10 + how; unsigned long n = 1000 + eps; if ( how == 1) n = 500 + eps / 4; if ( how == 3) n = 500 + eps / 8;
        cycle( ctx::fixedsize_stack( 64 * 1024), how, n, "fixedsize_stack"); cycle( ctx::pooled_fixedsize_stack( 64 * 1024), how, n, "pooled_fixedsize_stack"); cycle( ctx::protected_fixedsize_stack( 64 * 1024), how, n / 2, "protected_fixedsize_stack");
    }
    stat( "bounded_switches", n_long); stat( "bounded_cycles", n_cycles); sample( "bounded switches=%llu cycles=%llu", n_long, n_cycles);
    return 0;
}
