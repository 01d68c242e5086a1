// detail::invoke, apply, exchange, head()/tail() and index sequences against their standard counterparts (C18)
#include "common.hpp"
#include <array>
#include <functional>
#include <memory>
#include <string>
#include <tuple>
#include <vector>
#include <boost/context/detail/exchange.hpp>
#include <boost/context/detail/apply.hpp>
#include <boost/context/detail/tuple.hpp>
#include <boost/context/detail/index_sequence.hpp>
#if __cplusplus < 202002L
#include <boost/context/detail/invoke.hpp>
#define HAVE_INVOKE 1
#endif
namespace d = boost::context::detail;
static unsigned long long n_cases; static HashSet distinct; static const char * g_what = "";
static void NOINLINE bad( const char * fmt, ...) { char b[300]; va_list ap; va_start( ap, fmt); vsnprintf( b, sizeof b, fmt, ap); va_end( ap); oracle_fail( "helper", "%s: %s", g_what, b); }
#define REQ(c, ...) do { ++n_cases; if ( ! ( c)) bad( __VA_ARGS__); } while (0)
// counts what is done to it
struct V {
    static int copies, moves, cassigns, massigns, alive; static void zero() { copies = moves = cassigns = massigns = 0; }
    int v; V( int x = 0) : v( x) { ++alive; } V( V const& o) : v( o.v) { ++copies; ++alive; } V( V && o) noexcept : v( o.v) { o.v = -1; ++moves; ++alive; } ~V() { --alive; v = -2; }
    V & operator=( V const& o) { v = o.v; ++cassigns; return * this; } V & operator=( V && o) noexcept { v = o.v; o.v = -1; ++massigns; return * this; }
};
int V::copies, V::moves, V::cassigns, V::massigns, V::alive;
// minimal model of std::exchange for C++11
template< typename T, typename U > T model_exchange( T & t, U && u) { T o( std::move( t)); t = std::forward< U >( u); return o; }
static void exchange( Rng & r) {
    g_what = "exchange"; int a = (int) r.below( 1000), b = (int) r.below( 1000);
    { int x = a; int o = d::exchange( x, b); REQ( o == a && x == b, "ints"); static_assert( std::is_same< decltype( d::exchange( x, 1)), int >::value, "result"); }
    { int x = a; int o = d::exchange( x, {}); REQ( o == a && x == 0, "default"); }
    { std::string s( 30 + a % 20, 'x'), n( 40, 'y'); std::string o = d::exchange( s, n); REQ( o.size() == 30u + a % 20 && s == n && n.size() == 40, "string lvalue"); o = d::exchange( s, std::move( n)); REQ( o == s && n.empty(), "string rvalue"); o = d::exchange( s, "lit"); REQ( s == "lit" && o.size() == 40, "converted"); }
    { std::unique_ptr< int > p( new int( a)); int * q = p.get(); std::unique_ptr< int > o = d::exchange( p, nullptr); REQ( o.get() == q && ! p, "unique_ptr"); o = d::exchange( p, std::unique_ptr< int >( new int( b))); REQ( ! o && * p == b, "unique_ptr"); }
    { int A = V::alive; { V x( a), n( b); V::zero(); { V o = d::exchange( x, n); REQ( o.v == a && x.v == b && n.v == b, "lvalue values"); } int c[4] = { V::copies, V::moves, V::cassigns, V::massigns };
      V x2( a), n2( b); V::zero(); { V o = model_exchange( x2, n2); REQ( o.v == a, "model"); } REQ( c[0] == V::copies && c[1] == V::moves && c[2] == V::cassigns && c[3] == V::massigns && c[0] == 0 && c[2] == 1, "lvalue operations %d %d %d %d", c[0], c[1], c[2], c[3]);
      V::zero(); { V o = d::exchange( x, std::move( n)); REQ( o.v == b && x.v == b && n.v == -1, "rvalue values"); } REQ( V::copies == 0 && V::cassigns == 0 && V::massigns == 1, "rvalue operations");
      V::zero(); { V o = d::exchange( x, V( 7)); REQ( o.v == b && x.v == 7, "temporary"); } REQ( V::copies == 0 && V::cassigns == 0, "temporary copied");
#if __cplusplus >= 201402L
      V y( a), m( b); V::zero(); { V o = std::exchange( y, m); REQ( o.v == a, "std"); } REQ( c[0] == V::copies && c[1] == V::moves && c[2] == V::cassigns && c[3] == V::massigns, "differs from std::exchange");
#endif
      } REQ( V::alive == A, "objects left"); }
    { void * p = & a; void * o = d::exchange( p, nullptr); REQ( o == & a && ! p, "pointer"); }
    { int x = 1; (void) d::exchange( x, x + 1); REQ( x == 2, "own value"); const int & cr = x; int o = d::exchange( x, cr); REQ( o == 2 && x == 2, "alias"); }
    distinct.add( mix( a, b));
}
// ---- callables
static int f2( int a, int b) { return a * 31 + b; }
static int & fref( int & x) { return x; }
static int cat( V && v) { return v.v; }
static std::unique_ptr< int > fmove( std::unique_ptr< int > p) { ++* p; return p; }
struct O {
    int m; int arr[3];
    int add( int x) { return m += x; } int get() const { return m; } int & ref() { return m; } int take( V v) { return v.v + m; } int nx( int a, int b) noexcept { return m + a * b; } static int st( int x) { return x + 1; }
    virtual int virt( int x) { return x; } virtual ~O() {} O( int v = 0) : m( v) {}
};
struct P : O { P( int v) : O( v) {} int virt( int x) override { return x * 2; } };
struct Q { int k; int operator()( int x) & { return x + k; } int operator()( int x) const & { return x + k + 1000; } int operator()( int x) && { return x + k + 2000; } };
struct Ret { V operator()( V v) const { v.v += 1; return v; } const V & operator()( const V & v, int) const { return v; } void operator()() const { ++n_cases; } };
#define SAME( e, ...) static_assert( std::is_same< decltype( e), __VA_ARGS__ >::value, "type of result")
#ifdef HAVE_INVOKE
static void invoke( Rng & r) {
    g_what = "invoke"; int a = (int) r.below( 1000), b = (int) r.below( 1000), x = a;
    REQ( d::invoke( f2, a, b) == f2( a, b), "function"); REQ( d::invoke( & f2, a, b) == f2( a, b), "function pointer"); REQ( & d::invoke( fref, x) == & x, "reference result"); SAME( d::invoke( fref, x), int & ); SAME( d::invoke( f2, a, b), int);
    { V v( a); V::zero(); REQ( d::invoke( cat, std::move( v)) == a && V::copies + V::moves == 0, "rvalue forwarded"); }
    { std::unique_ptr< int > p( new int( a)); p = d::invoke( fmove, std::move( p)); REQ( * p == a + 1, "move-only argument and result"); }
    { Q q = { b }; const Q cq = { b }; REQ( d::invoke( q, a) == a + b, "lvalue object"); REQ( d::invoke( cq, a) == a + b + 1000, "const object"); REQ( d::invoke( std::move( q), a) == a + b + 2000, "rvalue object"); REQ( d::invoke( Q{ b }, a) == a + b + 2000, "temporary object"); }
    { O o( a); P p( a); O * po = & p; REQ( d::invoke( & O::add, o, b) == a + b && o.m == a + b, "member function"); REQ( d::invoke( & O::add, & o, 1) == a + b + 1, "member function, pointer"); const O co( a); REQ( d::invoke( & O::get, co) == a, "const member function"); REQ( d::invoke( & O::get, & co) == a, "const pointer");
      REQ( & d::invoke( & O::ref, o) == & o.m, "member function, reference result"); SAME( d::invoke( & O::ref, o), int & ); REQ( d::invoke( & O::virt, * po, b) == b * 2, "virtual"); REQ( d::invoke( & O::virt, po, b) == b * 2, "virtual, pointer"); REQ( d::invoke( & O::get, p) == a, "derived object"); REQ( d::invoke( & O::add, O( a), b) == a + b, "temporary object");
      std::unique_ptr< O > up( new P( a)); REQ( d::invoke( & O::virt, up, b) == b * 2, "smart pointer"); std::shared_ptr< O > sp = std::make_shared< O >( a); REQ( d::invoke( & O::get, sp) == a, "shared_ptr");
      int (O::* pm)( int, int) = & O::nx; REQ( d::invoke( pm, o, 2, 3) == o.m + 6, "pointer to member function lvalue"); int (O::* const cpm)( int) = & O::add; int before = o.m; REQ( d::invoke( cpm, o, 5) == before + 5, "const pointer to member"); REQ( d::invoke( & O::st, b) == b + 1, "static member");
      REQ( d::invoke( & O::m, o) == o.m, "data member"); d::invoke( & O::m, o) = 77; REQ( o.m == 77, "data member lvalue"); SAME( d::invoke( & O::m, o), int & ); REQ( d::invoke( & O::m, & o) == 77, "data member, pointer"); REQ( d::invoke( & O::m, co) == a, "const data member"); SAME( d::invoke( & O::m, co), const int & ); int O::* dm = & O::m; REQ( d::invoke( dm, p) == a, "data member of derived");
      { V v( b); V::zero(); REQ( d::invoke( & O::take, o, std::move( v)) == b + 77 && V::copies == 0, "argument of member function copied"); }
    }
    { Ret rt; V v( a); V::zero(); V w = d::invoke( rt, std::move( v)); REQ( w.v == a + 1 && V::copies == 0, "value"); SAME( d::invoke( rt, v, 1), const V & ); REQ( & d::invoke( rt, w, 1) == & w, "const reference result"); d::invoke( rt); SAME( d::invoke( rt), void); }
    { int n = 0; auto l = [&n]( int k) { n += k; return & n; }; REQ( d::invoke( l, 4) == & n && n == 4, "lambda"); std::function< int( int) > fn = [&n]( int k) { return n + k; }; REQ( d::invoke( fn, 3) == 7, "std::function"); auto mu = [n]() mutable { return ++n; }; d::invoke( mu); REQ( d::invoke( mu) == 6, "state of a mutable lambda"); using std::placeholders::_1; REQ( d::invoke( std::bind( f2, _1, 3), a) == f2( a, 3), "bind"); Q q = { 1 }; REQ( d::invoke( std::ref( q), 1) == 2, "std::ref"); }
#if __cplusplus >= 201703L
    { O o( a); const O co( b); Ret rt; V v( 1);
      static_assert( std::is_same< decltype( d::invoke( & O::ref, o)), decltype( std::invoke( & O::ref, o)) >::value && std::is_same< decltype( d::invoke( & O::m, co)), decltype( std::invoke( & O::m, co)) >::value && std::is_same< decltype( d::invoke( rt, v, 1)), decltype( std::invoke( rt, v, 1)) >::value && std::is_same< decltype( d::invoke( f2, 1, 2)), decltype( std::invoke( f2, 1, 2)) >::value, "differs from std::invoke");
      REQ( d::invoke( & O::add, o, b) == a + b, "member"); }
#endif
    distinct.add( mix( 5, mix( a, b)));
}
#else
static void invoke( Rng &) {}
#endif
static void apply( Rng & r) {
    g_what = "apply"; int a = (int) r.below( 1000), b = (int) r.below( 1000), x = a;
    REQ( d::apply( f2, std::make_tuple( a, b)) == f2( a, b), "tuple"); REQ( d::apply( f2, std::make_pair( a, b)) == f2( a, b), "pair"); std::array< int, 2 > ar = {{ a, b }}; REQ( d::apply( f2, ar) == f2( a, b), "array"); const std::tuple< int, int > ct( a, b); REQ( d::apply( & f2, ct) == f2( a, b), "const tuple");
    REQ( & d::apply( fref, std::tie( x)) == & x, "reference"); SAME( d::apply( fref, std::tie( x)), int & ); d::apply( []( int & k) { k = 5; }, std::tie( x)); REQ( x == 5, "written through"); int n = 0; d::apply( [&n]() { n = 1; }, std::tuple<>()); REQ( n == 1, "empty tuple");
    { std::unique_ptr< int > p = d::apply( fmove, std::make_tuple( std::unique_ptr< int >( new int( a)))); REQ( * p == a + 1, "move-only element"); }
    { auto t = std::make_tuple( V( a), V( b)); auto f = []( V & u, V & v) { u.v += v.v; return & u; }; V::zero(); REQ( d::apply( f, t) == & std::get< 0 >( t) && V::copies + V::moves == 0 && std::get< 0 >( t).v == a + b, "lvalue elements copied or moved"); auto g = []( V && u, V && v) { return u.v - v.v; }; REQ( d::apply( g, std::move( t)) == a && V::copies + V::moves == 0, "rvalue elements"); auto h = []( V u, V v) { return u.v + v.v; }; REQ( d::apply( h, t) == a + b + b && V::copies == 2, "elements copied"); V::zero(); REQ( d::apply( h, std::move( t)) == a + b + b && V::copies == 0 && V::moves == 2, "elements moved"); }
    { O o( a); REQ( d::apply( & O::add, std::make_tuple( & o, b)) == a + b && o.m == a + b, "member function"); REQ( d::apply( & O::m, std::tie( o)) == a + b, "data member"); P p( a); REQ( d::apply( & O::virt, std::forward_as_tuple( p, b)) == 2 * b, "virtual"); REQ( d::apply( & O::nx, std::make_tuple( O( a), 2, b)) == a + 2 * b, "temporary"); }
    { Q q = { b }; auto t = std::make_tuple( a); REQ( d::apply( q, t) == a + b, "lvalue object"); REQ( d::apply( Q{ b }, t) == a + b + 2000, "rvalue object"); const Q cq = { b }; REQ( d::apply( cq, t) == a + b + 1000, "const object"); }
    { auto f = []( int p, const char * q, double s, char c, long l, bool z) { return std::to_string( p) + q + std::to_string( (int) s) + c + std::to_string( l) + ( z ? "t" : "f"); }; REQ( d::apply( f, std::make_tuple( a, "-", 2.0, 'c', 9l, true)) == std::to_string( a) + "-2c9t", "order of arguments"); }
#if __cplusplus >= 201703L
    { O o( 1); int two = 2; auto t = std::forward_as_tuple( o, two); REQ( d::apply( & O::virt, t) == std::apply( & O::virt, t), "std::apply"); SAME( d::apply( fref, std::tie( x)), decltype( std::apply( fref, std::tie( x)))); }
#endif
    distinct.add( mix( 6, mix( a, b)));
}
template< typename T > static bool val( T const& t, int v) { return t.v == v; }
static void tuples( Rng & r) {
    g_what = "head/tail"; int a = (int) r.below( 1000), b = (int) r.below( 1000), c = (int) r.below( 1000), e = (int) r.below( 1000);
    { std::tuple< int, int, int, int > s( a, b, c, e); std::tuple< int > h1; std::tuple< int, int > h2; std::tuple< int, int, int > h3; std::tuple< int, int, int, int > h4; std::tuple<> h0;
      d::head( h0) = s; d::head( h1) = s; d::head( h2) = s; d::head( h3) = s; d::head( h4) = s; REQ( h1 == std::make_tuple( a) && h2 == std::make_tuple( a, b) && h3 == std::make_tuple( a, b, c) && h4 == s, "head");
      d::tail( h0) = s; d::tail( h1) = s; d::tail( h2) = s; d::tail( h3) = s; REQ( h1 == std::make_tuple( e) && h2 == std::make_tuple( c, e) && h3 == std::make_tuple( b, c, e), "tail"); h4 = std::make_tuple( 0, 0, 0, 0); d::tail( h4) = s; REQ( h4 == s && s == std::make_tuple( a, b, c, e), "tail of the same size");
      d::head( h2) = std::make_tuple( b, c, e); REQ( h2 == std::make_tuple( b, c), "head of a temporary"); d::tail( h2) = std::make_tuple( b, c, e); REQ( h2 == std::make_tuple( c, e), "tail of a temporary"); }
    { std::tuple< int, std::string, V, double > s( a, "text", V( b), 1.5); std::tuple< long, std::string > h; std::tuple< V, double > t; V::zero(); d::head( h) = s; d::tail( t) = s; REQ( std::get< 0 >( h) == a && std::get< 1 >( h) == "text" && std::get< 0 >( t).v == b && std::get< 1 >( t) == 1.5, "mixed types"); REQ( std::get< 1 >( s) == "text" && std::get< 2 >( s).v == b, "source changed by lvalue assignment");
      V::zero(); d::tail( t) = std::move( s); REQ( V::copies == 0 && V::cassigns == 0 && std::get< 0 >( t).v == b && std::get< 2 >( s).v == -1, "tail of an rvalue copies"); REQ( std::get< 1 >( s) == "text" && std::get< 0 >( s) == a, "tail touched the head"); d::head( h) = std::move( s); REQ( std::get< 1 >( h) == "text", "head of rvalue"); }
    { std::tuple< V, V, V > s( V( (int) a), V( (int) b), V( (int) c)); std::tuple< V, V > h; V::zero(); d::head( h) = std::move( s); REQ( V::copies == 0 && V::cassigns == 0 && val( std::get< 0 >( h), a) && val( std::get< 1 >( h), b) && val( std::get< 2 >( s), c) && val( std::get< 0 >( s), -1), "head of an rvalue"); }
    { std::tuple< int, std::unique_ptr< int >, std::unique_ptr< int > > s( a, std::unique_ptr< int >( new int( b)), std::unique_ptr< int >( new int( c))); std::tuple< std::unique_ptr< int > > t; d::tail( t) = std::move( s); REQ( * std::get< 0 >( t) == c && ! std::get< 2 >( s) && * std::get< 1 >( s) == b, "move-only tail"); std::tuple< int, std::unique_ptr< int > > h; d::head( h) = std::move( s); REQ( std::get< 0 >( h) == a && * std::get< 1 >( h) == b && ! std::get< 1 >( s), "move-only head"); }
    { int x = 1, y = 2; std::tuple< int, int, int > s( a, b, c); std::tuple< int &, int & > t( x, y); (void) t; std::tuple< int, int > v; d::tail( v) = s; REQ( std::get< 0 >( v) == b && std::get< 1 >( v) == c, "values"); }
    distinct.add( mix( mix( 7, mix( a, b)), mix( c, e)));
}
template< typename S > struct IsSeq; template< std::size_t ... I > struct IsSeq< d::index_sequence< I ... > > { static bool ok( std::size_t n) { std::size_t v[] = { I ..., 0 }; if ( sizeof...( I) != n) return false; for ( std::size_t i = 0; i < n; ++i) if ( v[i] != i) return false; return true; } };
static void sequences() { g_what = "index_sequence";
    REQ( ( IsSeq< d::make_index_sequence< 0 > >::ok( 0)), "0"); REQ( ( IsSeq< d::make_index_sequence< 1 > >::ok( 1)), "1"); REQ( ( IsSeq< d::make_index_sequence< 2 > >::ok( 2)), "2"); REQ( ( IsSeq< d::make_index_sequence< 3 > >::ok( 3)), "3"); REQ( ( IsSeq< d::make_index_sequence< 7 > >::ok( 7)), "7"); REQ( ( IsSeq< d::make_index_sequence< 8 > >::ok( 8)), "8"); REQ( ( IsSeq< d::make_index_sequence< 33 > >::ok( 33)), "33"); REQ( ( IsSeq< d::make_index_sequence< 100 > >::ok( 100)), "100");
    REQ( ( IsSeq< d::index_sequence_for< int, char, void > >::ok( 3)), "for 3"); REQ( ( IsSeq< d::index_sequence_for<> >::ok( 0)), "for 0"); }
int main( int argc, char ** argv) {
    uint64_t seed = arg_ull( argc, argv, "--seed", 1), eps = arg_ull( argc, argv, "--episodes", 50); g_phase = "helpers";
    sequences();
    for ( uint64_t e = 0; e < eps; ++e) { g_case = e; Rng r( mix( seed, e)); exchange( r); invoke( r); apply( r); tuples( r); REQ( V::alive == 0, "objects left"); }
    stat( "helper_checks", n_cases); stat( "distinct_helper_inputs", distinct.n); sample( "helpers std=%ld seed=%llu checks=%llu", (long) __cplusplus, (unsigned long long) seed, n_cases);
    return 0;
}
