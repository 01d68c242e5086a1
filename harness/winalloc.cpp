// Windows flavour of protected_fixedsize_stack and stack_traits, on the shim of the Win32 API (C09, C10, C11, C12).
#include "common.hpp"
#include "boost/context/windows/protected_fixedsize_stack.hpp"
#include <boost/context/stack_traits.hpp>
#include <csetjmp>
#include <csignal>
#include <new>
#include <vector>
namespace ctx = boost::context;
static sigjmp_buf jb; static volatile sig_atomic_t armed;
static void on_segv( int) { if ( armed) siglongjmp( jb, 1); _exit( 79); }
static bool faults( volatile char * p) { bool f = true; armed = 1; if ( ! sigsetjmp( jb, 1)) { * p = 1; f = false; } armed = 0; return f; }
struct St { ctx::stack_context s; std::size_t asked; unsigned char tag; };
static unsigned long long n_alloc, n_guard, n_fail, n_bytes; static HashSet distinct;
static std::size_t base( St const& x) { return reinterpret_cast< std::size_t >( x.s.sp) - x.s.size; }
static void fill( St & x) { if ( x.s.size <= 4096) return; volatile unsigned char * p = (unsigned char*) base( x) + 4096; for ( std::size_t i = 0; i < x.s.size - 4096; i += 509) p[i] = x.tag; p[x.s.size - 4097] = x.tag; n_bytes += x.s.size; }
static void verify( St & x) { if ( x.s.size <= 4096) return; volatile unsigned char * p = (unsigned char*) base( x) + 4096; for ( std::size_t i = 0; i < x.s.size - 4096; i += 509) REQUIRE( p[i] == x.tag, "overlap", "contents of a stack changed at %zu", i); }
int main( int argc, char ** argv) {
    uint64_t seed = arg_ull( argc, argv, "--seed", 1), eps = arg_ull( argc, argv, "--episodes", 50);
    std::string mode = "all"; for ( int i = 1; i + 1 < argc; ++i) if ( ! strcmp( argv[i], "--mode")) mode = argv[i+1];
    struct sigaction sa; memset( & sa, 0, sizeof sa); sa.sa_handler = on_segv; sigaction( SIGSEGV, & sa, 0);
    g_phase = "windows-stacks";
    typedef ctx::stack_traits T;
    REQUIRE( T::page_size() == 4096, "traits", "page size");
    REQUIRE( T::is_unbounded() || ( T::minimum_size() <= T::default_size() && T::default_size() <= T::maximum_size()), "traits", "sizes not ordered");
    REQUIRE( T::minimum_size() <= T::default_size(), "traits", "minimum %zu default %zu", (std::size_t) T::minimum_size(), (std::size_t) T::default_size());
    Rng r( seed);
    for ( uint64_t e = 0; e < eps; ++e) {
        g_case = e; std::vector< St > v;
        for ( int k = 0; k < 60; ++k) {
            unsigned op = r.below( 10);
            if ( op < 5) {
                std::size_t n = r.below( 8) == 0 ? r.below( 4) : r.below( 3) ? r.below( 300000) : ( 1 + r.below( 30)) * 4096 + r.below( 3) - 1;
                ctx::protected_fixedsize_stack a( n), b( a); St x; x.asked = n; x.tag = (unsigned char) ( 1 + r.below( 255)); x.s = ( r.below( 2) ? a : b).allocate();
                REQUIRE( x.s.sp && x.s.size >= n + 4096, "size", "asked for %zu, got %zu (guard page included)", n, (std::size_t) x.s.size);
                REQUIRE( reinterpret_cast< std::size_t >( x.s.sp) % 16 == 0, "align", "stack pointer misaligned");
                for ( St & y : v) REQUIRE( base( x) >= base( y) + y.s.size || base( y) >= base( x) + x.s.size, "overlap", "stacks overlap");
                if ( mode != "overlap") { REQUIRE( faults( (char*) base( x) ) && faults( (char*) base( x) + 4095), "guard", "guard page of a stack of %zu bytes accessible", n); ++n_guard; }
                fill( x); ++n_alloc; distinct.add( mix( n, x.s.size) ); v.push_back( x);
            } else if ( op < 8 && ! v.empty() ) {
                std::size_t i = r.below( v.size() ); verify( v[i]); ctx::protected_fixedsize_stack( r.below( 100000)).deallocate( v[i].s); v[i] = v.back(); v.pop_back();
            } else {
                long long m = winshim::mappings; bool ok = false; unsigned how = r.below( 3);
                std::size_t n = how == 2 ? ~std::size_t( 0) - r.below( 3 * 4096) : 1 + r.below( 100000);
                if ( how == 0) winshim::fail_alloc_in = 1;
                if ( how == 1) winshim::fail_protect_in = 1;
                try { ctx::protected_fixedsize_stack a( n); ctx::stack_context s = a.allocate(); oracle_fail( "failure", "allocation of %zu bytes succeeded although %s", n, how == 0 ? "VirtualAlloc() failed" : how == 1 ? "VirtualProtect() failed" : "it exceeds the address space"); (void) s; }
                catch ( std::bad_alloc const&) { ok = true; }
                winshim::fail_alloc_in = winshim::fail_protect_in = 0;
                REQUIRE( ok && winshim::mappings == m, "leak", "failed allocation left a mapping behind"); ++n_fail;
            }
            REQUIRE( winshim::mappings == (long long) v.size(), "leak", "%lld mappings for %zu stacks", winshim::mappings, v.size() );
        }
        for ( St & x : v) { verify( x); ctx::protected_fixedsize_stack().deallocate( x.s); }
        REQUIRE( winshim::mappings == 0, "leak", "%lld mappings left", winshim::mappings);
    }
    stat( "win_stacks", n_alloc); stat( "win_guard_hits", n_guard); stat( "win_failures", n_fail); stat( "win_distinct", distinct.n );
    sample( "windows protected stacks: %llu allocated, %llu failures injected", n_alloc, n_fail);
}
