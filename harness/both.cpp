// fiber and continuation used together in one program (and in two translation units, -DSECOND): random nested mixtures,
// the events of every program are printed as a hash (compared between build flavours by the check)
#include "common.hpp"
#ifdef SECOND
#include <boost/context/continuation.hpp>
#include <boost/context/fiber.hpp>
#else
#include <boost/context/fiber.hpp>
#include <boost/context/continuation.hpp>
#endif
#include <boost/context/fixedsize_stack.hpp>
#include <boost/context/pooled_fixedsize_stack.hpp>
#include <boost/context/protected_fixedsize_stack.hpp>
#include <vector>
namespace ctx = boost::context;
struct Log { uint64_t h; uint64_t n; };
int other_unit( uint64_t seed, Log & log);      // the same mixture, compiled with the headers in the other order

namespace {
struct Prog {
    Rng rng; Log & log; int budget; int locals; int started, ended;
    ctx::pooled_fixedsize_stack pool; ctx::protected_fixedsize_stack prot;
    Prog( uint64_t s, Log & l) : rng( s), log( l), budget( 120), locals( 0), started( 0), ended( 0), pool( 64 * 1024), prot( 64 * 1024) {}
    void ev( unsigned a, unsigned b) { log.h = ( log.h ^ ( a * 1000003u + b)) * 0x9E3779B97F4A7C15ull; log.h ^= log.h >> 29; ++log.n; }
};
struct Loc { Prog & p; int id; Loc( Prog & p_, int i) : p( p_), id( i) { ++p.locals; p.ev( 1, id); } ~Loc() { --p.locals; p.ev( 2, id); } };
struct Boom { int v; };

void act( Prog & p, int depth);
// the two kinds of context, as seen by the program
struct FiberKind {
    typedef ctx::fiber H; enum { tag = 10 };
    template< typename A, typename F > static H create( A & a, F f) { return H( std::allocator_arg, a, f).resume(); }
};
struct ContKind {
    typedef ctx::continuation H; enum { tag = 20 };
    template< typename A, typename F > static H create( A & a, F f) { return ctx::callcc( std::allocator_arg, a, f); }
};
template< typename K >
void use( Prog & p, int depth) {
    typedef typename K::H H;
    int id = p.started++; unsigned rounds = p.rng.below( 4), how = p.rng.below( 5);
    p.ev( K::tag, id);
    auto body = [&p, id, rounds, depth]( H && m) -> H {
        Loc l( p, id);
        for ( unsigned i = 0; i < rounds; ++i) {
            p.ev( K::tag + 1, id);
            try {
                Loc in( p, 1000 + id);
                act( p, depth + 1);
                if ( p.rng.below( 3) == 0) throw Boom{ id };
                m = std::move( m).resume();
                REQUIRE( (bool) m, "handles", "context %d was resumed with an empty handle", id);
            } catch ( Boom const& b) { p.ev( K::tag + 2, b.v); REQUIRE( b.v == id, "exceptions", "context %d caught the exception of %d", id, b.v); }
        }
        p.ev( K::tag + 3, id); ++p.ended;
        return std::move( m);
    };
    int locals = p.locals;
    H h;
    // (results are kept in a variable: the order of the program's own random draws must not depend on the compiler)
    if ( how < 2) { h = K::create( p.pool, body); } else { h = K::create( p.prot, body); }
    for ( unsigned i = 0; h && i < 6; ++i) {
        p.ev( K::tag + 4, id);
        if ( p.rng.below( 4) == 0) act( p, depth + 1);
        unsigned x = p.rng.below( 7);
        if ( x == 0) { p.ev( K::tag + 5, id); h = H(); break; }             // unwound
        if ( x == 1) {
            int n = 0;
            h = std::move( h).resume_with( [&p, id, &n, depth]( H && m) -> H { Loc l( p, 2000 + id); ++n; p.ev( K::tag + 6, id); act( p, depth + 2); return std::move( m); });
            REQUIRE( n == 1, "ontop", "function on top of context %d was executed %d times", id, n);
        } else if ( x == 2) {
            H k = std::move( h).resume_with( [&p, id]( H && m) -> H { p.ev( K::tag + 7, id); H back = std::move( m); back = std::move( back).resume(); return back; });
            h = std::move( k);
        } else h = std::move( h).resume();
    }
    h = H();
    REQUIRE( p.locals == locals, "unwinding", "%d objects more than before are alive after context %d is gone", p.locals - locals, id);
}
void act( Prog & p, int depth) {
    if ( depth > 6 || --p.budget < 0) { p.ev( 3, 0); return; }
    Loc l( p, 3000 + depth);
    switch ( p.rng.below( 4)) {
    case 0: use< FiberKind >( p, depth); break;
    case 1: use< ContKind >( p, depth); break;
    case 2: use< FiberKind >( p, depth); use< ContKind >( p, depth); break;
    default: p.ev( 4, p.rng.below( 100));
    }
}
void program( uint64_t seed, Log & log) {
    Prog p( seed, log);
    while ( p.budget > 0) act( p, 0);
    REQUIRE( p.locals == 0, "unwinding", "%d objects are left", p.locals);
}
}
#ifdef SECOND
int other_unit( uint64_t seed, Log & log) { program( seed, log); return 0; }
#else
int main( int argc, char ** argv) {
    uint64_t seed = arg_ull( argc, argv, "--seed", 1), n = arg_ull( argc, argv, "--episodes", 500), events = 0;
    g_phase = "both";
    for ( uint64_t i = 0; i < n; ++i) {
        g_case = i; Log a = { 1, 0 }, b = { 1, 0 };
        program( seed * 1000003 + i, a);
        other_unit( seed * 1000003 + i, b);
        REQUIRE( a.h == b.h && a.n == b.n, "units", "the same program behaves differently in the other translation unit");
        printf( "HASH %llu %016llx %llu\n", (unsigned long long) i, (unsigned long long) a.h, (unsigned long long) a.n); events += a.n;
    }
    stat( "mixed_programs", n); stat( "mixed_events", events);
    sample( "fiber and continuation mixed: %llu programs, %llu events", (unsigned long long) n, (unsigned long long) events);
    return 0;
}
#endif
