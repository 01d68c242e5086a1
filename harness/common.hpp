// Shared by all harnesses: oracle failure reporting, statistics, random numbers.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unistd.h>

#define NOINLINE __attribute__((noinline))

#if defined(__SANITIZE_ADDRESS__)
#define VERIF_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VERIF_ASAN 1
#endif
#if __has_feature(thread_sanitizer)
#define VERIF_TSAN 1
#endif
#endif
#if defined(__SANITIZE_THREAD__)
#define VERIF_TSAN 1
#endif

#ifdef VERIF_ASAN
#include <sanitizer/asan_interface.h>
// harnesses look at whole stacks after their last use: shadow of frames that were left by a switch is of no interest then
#define UNSHADOW(p, n) __asan_unpoison_memory_region( (p), (n))
#else
#define UNSHADOW(p, n) ((void) 0)
#endif
// context printed with a failure (which seed / episode is running); plain globals on purpose
static const char * volatile g_phase = "";
static volatile unsigned long long g_case = 0;

// Report a violated oracle and leave at once: exit status 77 means "oracle failed".
static void NOINLINE oracle_fail( const char * rule, const char * fmt, ...) __attribute__((format(printf,2,3), noreturn, unused));
static void NOINLINE oracle_fail( const char * rule, const char * fmt, ...) {
    static char buf[1024];
    int n = snprintf( buf, sizeof buf, "ORACLE-FAIL %s: ", rule);
    va_list ap; va_start( ap, fmt);
    n += vsnprintf( buf + n, sizeof buf - n - 64, fmt, ap);
    va_end( ap);
    n += snprintf( buf + n, sizeof buf - n, " [%s case=%llu]\n", g_phase, (unsigned long long) g_case);
    if ( write( 1, buf, n) < 0) {}
    _exit( 77);
}
#define REQUIRE(cond, rule, ...) do { if ( ! (cond)) oracle_fail( rule, __VA_ARGS__); } while (0)

struct Rng {
    uint64_t s;
    explicit Rng( uint64_t seed = 1) : s( seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
    uint64_t next() {
        uint64_t z = ( s += 0x9E3779B97F4A7C15ull);
        z = ( z ^ ( z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = ( z ^ ( z >> 27)) * 0x94D049BB133111EBull;
        return z ^ ( z >> 31);
    }
    unsigned below( unsigned n) { return (unsigned)( next() % n); }
    bool chance( unsigned pct) { return below( 100) < pct; }
};

static inline uint64_t mix( uint64_t h, uint64_t v) {
    h ^= v + 0x9E3779B97F4A7C15ull + ( h << 6) + ( h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ ( h >> 32);
}

// small open-addressing set used to count distinct behaviours
struct HashSet {
    uint64_t * tab; size_t cap, n;
    HashSet() : cap( 1 << 12), n( 0) { tab = (uint64_t*) calloc( cap, 8); }
    ~HashSet() { free( tab); }
    bool add( uint64_t v) {
        if ( ! v) v = 1;
        if ( n * 2 > cap) {
            uint64_t * old = tab; size_t oc = cap;
            cap *= 2; tab = (uint64_t*) calloc( cap, 8); n = 0;
            for ( size_t i = 0; i < oc; ++i) if ( old[i]) add( old[i]);
            free( old);
        }
        size_t i = ( v * 0x9E3779B97F4A7C15ull) & ( cap - 1);
        while ( tab[i]) { if ( tab[i] == v) return false; i = ( i + 1) & ( cap - 1); }
        tab[i] = v; ++n; return true;
    }
private:
    HashSet( HashSet const&); HashSet & operator=( HashSet const&);
};

// statistics: printed as "STAT key value" lines; SAMPLE lines carry concrete cases
static inline void stat( const char * k, unsigned long long v) { printf( "STAT %s %llu\n", k, v); }
static inline void sample( const char * fmt, ...) __attribute__((format(printf,1,2)));
static inline void sample( const char * fmt, ...) {
    va_list ap; va_start( ap, fmt); printf( "SAMPLE "); vprintf( fmt, ap); printf( "\n"); va_end( ap);
}
static inline unsigned long long arg_ull( int argc, char ** argv, const char * name, unsigned long long dflt) {
    for ( int i = 1; i + 1 < argc; ++i) if ( ! strcmp( argv[i], name)) return strtoull( argv[i+1], 0, 0);
    return dflt;
}
#endif
