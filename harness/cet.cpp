// Shadow stacks of contexts (C24), under the software shadow stack (cetemu.cpp), which decides about every call, return and switch.
//   depth    as many nested calls as fit on the stack of the context
//   balance  one shadow stack per living context, gone with it
//   failing  the kernel has no shadow stack left: bad_alloc, nothing leaked, later creations work
#include "common.hpp"
#include "cetemu.hpp"
#include <memory>
#include <new>
#include <stdexcept>
#include <vector>
#ifdef USE_CALLCC
# include <boost/context/continuation.hpp>
typedef boost::context::continuation Ctx;
#else
# include <boost/context/fiber.hpp>
typedef boost::context::fiber Ctx;
#endif
#include <boost/context/fixedsize_stack.hpp>
#include <boost/context/protected_fixedsize_stack.hpp>
#include <boost/context/pooled_fixedsize_stack.hpp>
namespace ctx = boost::context;
static Rng R( 1);
static unsigned long long n_deep, n_frames, n_ctx, n_fail, n_bal, n_unw; static HashSet cov;
static long n_alloc, n_live_fn;
static char * g_lo; static size_t g_size;
template< typename A > struct Counting {
    A a; ctx::stack_context allocate() { ctx::stack_context s = a.allocate(); ++n_alloc; g_lo = (char*) s.sp - s.size; g_size = s.size; return s; }
    void deallocate( ctx::stack_context & s) { --n_alloc; a.deallocate( s); }
    explicit Counting( size_t n) : a( n) {}
};
struct Fn { Fn() { ++n_live_fn; } Fn( Fn const&) { ++n_live_fn; } ~Fn() { --n_live_fn; } };
#ifdef USE_CALLCC
template< typename S, typename F > static Ctx make( S s, F f) { return ctx::callcc( std::allocator_arg, s, [f]( Ctx && h) mutable { h = std::move( h).resume(); return f( std::move( h)); }); }
template< typename S, typename F > static Ctx make( ctx::preallocated p, S s, F f) { return ctx::callcc( std::allocator_arg, p, s, [f]( Ctx && h) mutable { h = std::move( h).resume(); return f( std::move( h)); }); }
#else
template< typename S, typename F > static Ctx make( S s, F f) { return Ctx( std::allocator_arg, s, std::move( f)); }
template< typename S, typename F > static Ctx make( ctx::preallocated p, S s, F f) { return Ctx( std::allocator_arg, p, s, std::move( f)); }
#endif
// the smallest frames there are: a return address each
extern "C" unsigned long deep_call( char * limit, unsigned long arg, void (*at)( unsigned long));
__asm__( ".text\n.globl deep_call\n.type deep_call,@function\ndeep_call:\n .cfi_startproc\n endbr64\n cmpq %rdi, %rsp\n jbe 1f\n call deep_call\n incq %rax\n ret\n"
         "1: pushq %rbp\n .cfi_def_cfa_offset 16\n .cfi_offset 6, -16\n movq %rsp, %rbp\n .cfi_def_cfa_register 6\n andq $-16, %rsp\n movq %rsi, %rdi\n call *%rdx\n xorl %eax, %eax\n movq %rbp, %rsp\n popq %rbp\n .cfi_def_cfa 7, 8\n ret\n .cfi_endproc\n.size deep_call,.-deep_call\n");
static Ctx * g_main; static int g_rounds;
static void at_bottom( unsigned long) { for ( int i = 0; i < g_rounds; ++i) * g_main = std::move( * g_main).resume(); }
static unsigned long NOINLINE deep_cpp( char * limit) { char here; if ( & here < limit) { if ( R.below( 2)) at_bottom( 0); else throw 5; return 0; } unsigned long r = deep_cpp( limit); asm volatile( "" ::: "memory"); return r + 1; }
template< typename A > static void depth( size_t size) {
    int rounds = R.below( 3), how = R.below( 3); g_rounds = rounds; unsigned long frames = 0; size_t room = 7000 + R.below( 3000); bool unwind = R.below( 3) == 0 && rounds;
    if ( how == 1 || unwind) { room += 24000; if ( size < 65536) size = 65536; }                // (a throw needs more)
    Counting< A > s( size);
    { Ctx c = make( s, [&]( Ctx && m) -> Ctx {
        g_main = & m; char * limit = g_lo + room;
        if ( how == 0) frames = deep_call( limit, 0, at_bottom);
        else if ( how == 1) { try { frames = deep_cpp( limit); } catch ( int) { frames = 1; } }
        else { frames = deep_call( limit + g_size / 2, 0, at_bottom); frames += deep_call( limit, 0, at_bottom); }
        return std::move( m); });
      size_t fit = g_size > room + 2500 ? ( g_size - room - 2500) / 8 : 0;
      if ( unwind) { c = std::move( c).resume(); ++n_unw; }
      else { while ( c) c = std::move( c).resume();
          if ( how == 0) REQUIRE( frames + 8 >= fit, "depth", "%lu nested calls on a stack of %zu bytes", frames, g_size);
          ++n_deep; n_frames += frames; } }
    cov.add( ( ( size * 3 + how) * 4 + rounds) * 2 + unwind);
    REQUIRE( n_alloc == 0, "balance", "%ld stacks left", n_alloc); ++n_ctx;
}
template< typename A > static void balance() {
    std::vector< Ctx > v; unsigned base = cet_live(), n = 1 + R.below( 12);
    for ( unsigned i = 0; i < n; ++i) {
        Fn fn; int left = R.below( 4);
        v.push_back( make( Counting< A >( 16384 + R.below( 50000)), [fn,left]( Ctx && m) -> Ctx { for ( int k = 0; k < left; ++k) m = std::move( m).resume(); return std::move( m); }));
        REQUIRE( cet_live() == base + i + 1, "balance", "%u shadow stacks for %u contexts", cet_live() - base, i + 1);
    }
    while ( n) {
        unsigned i = R.below( v.size()); if ( ! v[i]) continue;
        bool destroy = R.below( 4) == 0;
        if ( destroy) v[i] = Ctx(); else if ( R.below( 3)) v[i] = std::move( v[i]).resume(); else v[i] = std::move( v[i]).resume_with( []( Ctx && h) { return std::move( h); });
        if ( ! v[i]) --n;
        REQUIRE( cet_live() == base + n && n_alloc == (long) n && n_live_fn == (long) n, "balance", "%u shadow stacks, %ld stacks and %ld functions for %u contexts", cet_live() - base, n_alloc, n_live_fn, n);
        ++n_bal;
    }
    n_ctx += v.size();
}
template< typename A > static void failing() {
    unsigned base = cet_live(); int pre = R.below( 2), k = 1 + R.below( 3), got = 0; bool ran = false; size_t size = 16384 + R.below( 50000);
    { Fn fn; std::vector< Ctx > v; cet_fail_map( k);
      for ( int i = 0; i < 4; ++i) {
        Counting< A > s( size); bool thrown = false; int fns = n_live_fn;
        auto f = [fn,&ran]( Ctx && m) -> Ctx { ran = true; return std::move( m); };
        try {
            if ( pre) { ctx::stack_context sc = s.allocate(); try { v.push_back( make( ctx::preallocated( sc.sp, sc.size, sc), s, f)); } catch ( std::bad_alloc const&) { if ( i == k - 1) REQUIRE( n_alloc == i || n_alloc == i + 1, "failing", "%ld stacks", n_alloc); thrown = true; } }
            else v.push_back( make( s, f));
        } catch ( std::bad_alloc const&) { thrown = true; }
        REQUIRE( thrown == ( i == k - 1), "failing", "creation %d with failure %d: %s", i, k, thrown ? "bad_alloc" : "no exception");
        if ( thrown) { ++got; REQUIRE( n_alloc == (long) v.size(), "failing", "%ld stacks for %zu contexts after a failed creation (preallocated %d)", n_alloc, v.size(), pre);
            REQUIRE( n_live_fn == fns + 1, "failing", "%ld functions instead of %d after a failed creation", n_live_fn, fns + 1); }
        REQUIRE( cet_live() == base + v.size(), "failing", "%u shadow stacks for %zu contexts", cet_live() - base, v.size());
      }
      cet_fail_map( 0); if ( R.below( 2)) for ( auto & c : v) c = std::move( c).resume(); }
    (void) ran; REQUIRE( got == 1 && n_alloc == 0 && n_live_fn == 0 && cet_live() == base, "failing", "%ld stacks, %ld functions, %u shadow stacks left", n_alloc, n_live_fn, cet_live() - base);
    ++n_fail; cov.add( 1000000 + pre * 10 + k);
}
int main( int argc, char ** argv) {
    uint64_t seed = arg_ull( argc, argv, "--seed", 1), eps = arg_ull( argc, argv, "--episodes", 10);
    for ( uint64_t e = 0; e < eps; ++e) {
        g_case = e; R = Rng( mix( seed, e));
        g_phase = "depth"; depth< ctx::fixedsize_stack >( R.below( 10) ? 24576 + R.below( 20) * 8192 : 400000); depth< ctx::protected_fixedsize_stack >( 32768 + R.below( 5) * 8192); if ( e % 8 == 0) depth< ctx::pooled_fixedsize_stack >( 65536);
        g_phase = "balance"; balance< ctx::fixedsize_stack >(); balance< ctx::protected_fixedsize_stack >();
        g_phase = "failing"; failing< ctx::fixedsize_stack >(); failing< ctx::protected_fixedsize_stack >();
    }
    stat( "cet_deep_recursions", n_deep); stat( "cet_deep_frames", n_frames); stat( "cet_contexts", n_ctx); stat( "cet_failed_creations", n_fail); stat( "cet_balance_checks", n_bal); stat( "cet_deep_unwound", n_unw); stat( "distinct_cet_cases", cov.n);
    return 0;
}
