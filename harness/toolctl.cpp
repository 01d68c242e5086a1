// Programs for real tools (ASAN, TSAN, Valgrind memcheck).
//   --mode grow    contexts come and go by the ten thousand: the process (tool state included) must not grow
//   --mode sweep   every kind of error in every --step'th surrounding, each in a process of its own, compared with what the tool said
//   --mode ctl --which NAME [--shape N]    one genuine error made inside a context, in a random surrounding of switches,
//                  migrated and nested contexts: prints "BEFORE-ERROR", commits the error, prints "SURVIVED"
#include "common.hpp"
#ifdef USE_CALLCC
#include <boost/context/continuation.hpp>
#else
#include <boost/context/fiber.hpp>
#endif
#include <boost/context/fixedsize_stack.hpp>
#include <boost/context/protected_fixedsize_stack.hpp>
#include <boost/context/pooled_fixedsize_stack.hpp>
#include <sys/wait.h>
#include <atomic>
#include <memory>
#include <thread>
#include <vector>
namespace ctx = boost::context;
#ifdef USE_CALLCC
typedef ctx::continuation Ctx;
template< typename A, typename F > static Ctx start( A && a, F && f) { return ctx::callcc( std::allocator_arg, std::forward< A >( a), std::forward< F >( f)); }
#else
typedef ctx::fiber Ctx;
template< typename A, typename F > static Ctx start( A && a, F && f) { return Ctx( std::allocator_arg, std::forward< A >( a), std::forward< F >( f)).resume(); }
#endif
enum { SZ = 256 * 1024 };
static volatile int g_sink, g_idx_in = 3, g_idx_out = 64;
static Rng g_rng( 1);

static size_t rss() { FILE * f = fopen( "/proc/self/statm", "r"); unsigned long a, b; if ( ! f || fscanf( f, "%lu %lu", & a, & b) != 2) exit( 78); fclose( f); return b * 4096; }
static size_t maps() { FILE * f = fopen( "/proc/self/maps", "r"); if ( ! f) exit( 78); size_t n = 0; int c; while ( ( c = fgetc( f)) != EOF) n += c == '\n'; fclose( f); return n; }

static NOINLINE int work( int d) { char b[200]; memset( b, d, sizeof b); __asm__ __volatile__( "" : : "r"( b) : "memory"); return d ? work( d - 1) + b[5] : b[7]; }
struct Loc { char b[100]; Loc() { memset( b, 1, 100); } ~Loc() { g_sink += b[3]; } };

template< typename A > static void cycle( A & a, unsigned how) {
    switch ( how % 6) {
    case 0: { Ctx c = start( a, []( Ctx && m) { Loc l; g_sink += work( 3); return std::move( m); }); break; }                                                     // finished
    case 1: { Ctx c = start( a, []( Ctx && m) { Loc l; for (;;) { g_sink += work( 5); m = std::move( m).resume(); } return std::move( m); }); for ( int i = 0; i < 3; ++i) c = std::move( c).resume(); break; }   // unwound
#ifndef USE_CALLCC
    case 2: { Ctx c( std::allocator_arg, a, []( Ctx && m) { return std::move( m); }); break; }                                                                       // never started
#endif
    case 3: { Ctx c = start( a, []( Ctx && m) { try { Loc l; work( 2); throw 5; } catch ( int) {} m = std::move( m).resume(); return std::move( m); }); c = std::move( c).resume_with( []( Ctx && m) { Loc l; return std::move( m); }); break; }
    case 4: { Ctx back; Ctx c = start( a, [&]( Ctx && m) { Loc l; Ctx in = start( a, [&]( Ctx && x) { Loc l2; back = std::move( x); back = std::move( back).resume(); return std::move( back); });
                  in = std::move( in).resume(); return std::move( m); }); break; }                                                                                  // nested
    default: { // a chain of contexts that end into one another
        std::vector< Ctx> v; Ctx m0;
        Ctx last = start( a, [&]( Ctx && m) { Loc l; m = std::move( m).resume(); work( 1); return std::move( m0); });
        Ctx first = start( a, [&]( Ctx && m) { Loc l; m0 = std::move( m).resume(); return std::move( last); });
        first = std::move( first).resume();
        break; }
    }
}
static int grow( uint64_t n) {
    ctx::fixedsize_stack f( SZ); ctx::protected_fixedsize_stack p( SZ); ctx::pooled_fixedsize_stack q( SZ);
    size_t r0 = 0, m0 = 0; uint64_t warm = n / 4;
#ifdef VERIF_TSAN
    size_t per = 3000, mper = 50;       // (ThreadSanitizer itself keeps about 300 bytes for every fibre that ever existed)
#else
    size_t per = 0, mper = 1000000000;
#endif
    for ( uint64_t i = 0; i < n; ++i) {
        g_case = i; unsigned how = g_rng.below( 60);
        switch ( i % 3) { case 0: cycle( f, how); break; case 1: cycle( p, how); break; default: cycle( q, how); }
        if ( i == warm) { r0 = rss(); m0 = maps(); }
        if ( i > warm && i % 997 == 0) {
            REQUIRE( rss() < r0 + ( 24 << 20) + ( i - warm) * per, "tool-state", "process grew from %zu to %zu kB after %llu of %llu contexts", r0 / 1024, rss() / 1024, (unsigned long long) i, (unsigned long long) n);
            REQUIRE( maps() < m0 + 200 + ( i - warm) / mper, "tool-state", "number of mappings grew from %zu to %zu after %llu contexts", m0, maps(), (unsigned long long) i);
        }
    }
    stat( "grow_cycles", n); stat( "grow_resident_kB", rss() / 1024);
    sample( "grow: %llu contexts, resident %zu kB after a quarter, %zu kB at the end", (unsigned long long) n, r0 / 1024, rss() / 1024);
    return 0;
}

// ---------------------------------------------------------------- genuine errors
static std::string g_which;
static NOINLINE void say( const char * s) { if ( write( 1, s, strlen( s)) < 0) {} }
static NOINLINE void poke( char * p, int i) { p[i] = 1; }
static char * volatile g_esc;
static NOINLINE void leak_local() { char l[64]; memset( l, 1, 64); g_esc = l; g_sink += l[g_idx_in]; }   // (clang: no inline assembler, or the frame is not faked)
static NOINLINE void overflow_frame( int n) { char l[64]; memset( l, 1, 64); __asm__ __volatile__( "" : : "r"( l) : "memory"); poke( l, n); g_sink += l[n & 63]; }
static NOINLINE void overflow_alloca( int n) { char * l = (char*) __builtin_alloca( n); memset( l, 1, n); __asm__ __volatile__( "" : : "r"( l) : "memory"); poke( l, n); g_sink += l[0]; }
static int g_shared; static std::atomic< int> g_turn( 0);
static NOINLINE void error_here() {
    say( "BEFORE-ERROR\n");
    std::string const& w = g_which;
    if ( w == "local-overflow") overflow_frame( g_idx_out);
    else if ( w == "alloca-overflow") overflow_alloca( g_idx_out);
    else if ( w == "heap-overflow") { char * volatile p = (char*) malloc( 50); poke( p, g_idx_out - 14); free( p); }
    else if ( w == "heap-use-after-free") { char * p = (char*) malloc( 50); memset( p, 0, 50); char * volatile q = p; free( p); poke( q, 3); }
    else if ( w == "use-after-return") { leak_local(); poke( g_esc, 3); }
    else if ( w == "use-after-scope") { char * volatile p; { char l[40]; memset( l, 1, 40); p = l; __asm__ __volatile__( "" : : "r"( l) : "memory"); } poke( p, 3); }
    else if ( w == "uninitialised") { char * p = (char*) malloc( 50); char * volatile q = p; if ( q[g_idx_in] == 77) say( "x"); free( p); }
    else if ( w == "uninitialised-local") { volatile char l[64]; __asm__ __volatile__( "" : : "r"( l)); if ( l[g_idx_in] == 77) say( "x"); }
    else if ( w == "double-free") { char * p = (char*) malloc( 50); char * volatile q = p; free( p); free( q); }
    else if ( w == "race") { ++g_shared; }
    else if ( w != "none") exit( 78);
    say( "SURVIVED\n");
}
static NOINLINE void at_depth( int d) { Loc l; if ( d) at_depth( d - 1); else error_here(); g_sink += l.b[d & 63]; }

template< typename A > static void shape( A & a, unsigned s) {
    unsigned depth = s % 4;
    switch ( s / 4 % 8) {
    case 0: { Ctx c = start( a, [=]( Ctx && m) { at_depth( depth); return std::move( m); }); break; }                                             // first activation
    case 1: { Ctx c = start( a, [=]( Ctx && m) { Loc l; work( 3); for ( int i = 0; i < 5; ++i) m = std::move( m).resume(); at_depth( depth); return std::move( m); });
              for ( int i = 0; i < 5; ++i) { work( 9); c = std::move( c).resume(); } break; }                                                    // after switches
    case 2: { Ctx c = start( a, [=]( Ctx && m) { Loc l; m = std::move( m).resume(); return std::move( m); });                                   // in a function on top
              c = std::move( c).resume_with( [=]( Ctx && m) { at_depth( depth); return std::move( m); }); break; }
    case 3: { for ( unsigned i = 0; i < 30; ++i) cycle( a, i); at_depth( depth); break; }                                                           // in main, after many contexts came and went
    case 4: { struct D { unsigned d; ~D() { at_depth( d); } };                                                                                  // while being unwound
              { Ctx c = start( a, [=]( Ctx && m) { D d = { depth }; m = std::move( m).resume(); (void) d; return std::move( m); }); } break; }
    case 5: { for ( unsigned i = 0; i < 12; ++i) cycle( a, i); Ctx c = start( a, [&]( Ctx && m) {                                                 // nested, on reused stacks
                  Ctx in = start( a, [=]( Ctx && x) { Loc l; x = std::move( x).resume(); at_depth( depth); return std::move( x); }); in = std::move( in).resume(); return std::move( m); }); break; }
    case 6: { Ctx c = start( a, [=]( Ctx && m) { Loc l; m = std::move( m).resume(); at_depth( depth); return std::move( m); });                 // continued on another thread
              std::thread( [&] { c = std::move( c).resume(); }).join(); break; }
    default: { Ctx c = start( a, [=]( Ctx && m) { try { Loc l; m = std::move( m).resume(); throw 3; } catch ( int) {} at_depth( depth); return std::move( m); });   // after an exception
               c = std::move( c).resume(); break; }
    }
}
static int ctl( unsigned s) {
    ctx::fixedsize_stack f( SZ); ctx::protected_fixedsize_stack p( SZ); ctx::pooled_fixedsize_stack q( SZ);
    if ( g_which == "race" || g_which == "race-local") {
        // contexts on two threads, unordered; the library must not invent an order between them
        int local = 0; int * l = & local; bool loc = g_which == "race-local";
        auto prog = [=]( ctx::pooled_fixedsize_stack * al) {
            Ctx c = start( * al, [=]( Ctx && m) { for ( int i = 0; i < 20; ++i) { m = std::move( m).resume(); if ( loc) ++* l; else ++g_shared; } return std::move( m); });
            for ( int i = 0; i < 20; ++i) c = std::move( c).resume();
        };
        ctx::pooled_fixedsize_stack q1( SZ), q2( SZ);
        say( "BEFORE-ERROR\n");
        std::thread a( [&] { for ( unsigned i = 0; i < s % 5; ++i) cycle( q1, i); prog( & q1); }), b( [&] { for ( unsigned i = 0; i < s % 3; ++i) cycle( q2, i); prog( & q2); });
        a.join(); b.join();
        say( "SURVIVED\n");
        return 0;
    }
    if ( g_which == "race-handoff") {
        // a context is handed to another thread through an unsynchronised flag-free race: its data is touched by both
        int shared = 0; int * l = & shared;
        std::atomic< bool> go( false);
        Ctx c = start( q, [=]( Ctx && m) { m = std::move( m).resume(); ++* l; m = std::move( m).resume(); return std::move( m); });
        say( "BEFORE-ERROR\n");
        std::thread t( [&] { go.store( true, std::memory_order_relaxed); c = std::move( c).resume(); });
        while ( ! go.load( std::memory_order_relaxed)) {}
        ++shared;                       // unordered with the increment in the context
        t.join();
        say( "SURVIVED\n");
        return 0;
    }
    switch ( s / 32 % 3) { case 0: shape( f, s); break; case 1: shape( p, s); break; default: shape( q, s); }
    return 0;
}

// ---------------------------------------------------------------- every error in many surroundings, each in a process of its own
static int sweep( char const* self, unsigned first, unsigned step, bool vg) {
    struct { char const* w, * asan, * tsan, * vg; } tab[] = {
        { "none", "", "", "" },
        { "local-overflow", "stack-buffer-overflow", 0, 0 }, { "alloca-overflow", "dynamic-stack-buffer-overflow", 0, 0 },
        { "use-after-return", "stack-use-after-return", 0, 0 }, { "use-after-scope", "stack-use-after-scope", 0, 0 },
        { "heap-overflow", "heap-buffer-overflow", 0, "Invalid write" }, { "heap-use-after-free", "heap-use-after-free", 0, "Invalid write" },
        { "double-free", "double-free", 0, "Invalid free" }, { "uninitialised", 0, 0, "uninitialised value" }, { "uninitialised-local", 0, 0, "uninitialised value" },
        { "race", 0, "data race", 0 }, { "race-local", 0, "data race", 0 }, { "race-handoff", 0, "data race", 0 } };
    uint64_t made = 0, reported = 0, valid = 0;
    for ( auto & t : tab) {
#if defined(VERIF_ASAN)
        char const* pat = t.asan;
#elif defined(VERIF_TSAN)
        char const* pat = t.tsan;
#else
        char const* pat = t.vg;
#endif
        if ( ! pat) continue;
        for ( unsigned s = first % step; s < 96; s += step) {
            g_case = s;
            std::string cmd = std::string( "timeout 100 ") + ( vg ? "valgrind -q --error-exitcode=67 --exit-on-first-error=yes " : "") + self + " --mode ctl --which " + t.w + " --shape " + std::to_string( s) + " 2>&1";
            std::string out; int st = -1;
            for ( int attempt = 0; attempt < 2; ++attempt) {
                out.clear();
                FILE * f = popen( cmd.c_str(), "r"); if ( ! f) exit( 78);
                char b[4096]; size_t k; while ( ( k = fread( b, 1, sizeof b, f)) > 0) out.append( b, k);
                st = pclose( f);
                if ( ! WIFEXITED( st) || ( WEXITSTATUS( st) != 124 && WEXITSTATUS( st) != 137)) break;      // (anything but the time limit)
            }
            int code = WIFEXITED( st) ? WEXITSTATUS( st) : -1;
            if ( code == 78) exit( 78);
            for ( auto & c : out) if ( c == '\n') c = '|';
            bool survived = out.find( "SURVIVED") != std::string::npos;
            size_t before = out.find( "BEFORE-ERROR");
            if ( ! pat[0]) {
                REQUIRE( code == 0 && survived, "false-report", "valid program (surrounding %u) ended with status %d: %.400s", s, code, out.c_str());
                ++valid; continue;
            }
            ++made;
            REQUIRE( before != std::string::npos && out.substr( 0, before).find( vg ? "==" : "ERROR: ") == std::string::npos && out.substr( 0, before).find( "data race") == std::string::npos, "false-report", "%s in surrounding %u: reported before the error was made (status %d): %.400s", t.w, s, code, out.c_str());
            size_t at = out.find( pat);
            REQUIRE( code != 0 && at != std::string::npos && at > before, "missed-report", "%s in surrounding %u was not reported as \"%s\" (status %d): %.300s", t.w, s, pat, code, out.c_str());
            ++reported;
        }
    }
    stat( "controls_valid_quiet", valid); stat( "controls_errors_made", made); stat( "controls_errors_reported", reported);
    sample( "controls: %llu valid programs quiet, %llu of %llu genuine errors reported", (unsigned long long) valid, (unsigned long long) reported, (unsigned long long) made);
    return 0;
}
int main( int argc, char ** argv) {
    uint64_t seed = arg_ull( argc, argv, "--seed", 1), n = arg_ull( argc, argv, "--episodes", 20000), s = arg_ull( argc, argv, "--shape", 0);
    g_rng = Rng( seed); std::string mode;
    for ( int i = 1; i + 1 < argc; ++i) { if ( ! strcmp( argv[i], "--mode")) mode = argv[i + 1]; if ( ! strcmp( argv[i], "--which")) g_which = argv[i + 1]; }
    g_phase = "toolctl";
    if ( mode == "grow") return grow( n);
    if ( mode == "sweep") return sweep( argv[0], (unsigned) seed, (unsigned) arg_ull( argc, argv, "--step", 8), arg_ull( argc, argv, "--vg", 0) != 0);
    g_case = s;
    return ctl( (unsigned) s);
}
