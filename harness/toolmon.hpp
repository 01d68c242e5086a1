// Stand-ins for the interfaces of AddressSanitizer, ThreadSanitizer and Valgrind. The library is built with its support
// for the tool, but the calls arrive here and are compared with what the contexts really do:
//   ASAN  every switch announced before and completed after, with the bounds of the stack control really arrives on, the
//         fake stack of a context handed back exactly as it was saved, given up exactly when the context ends
//   TSAN  every fibre created once, switched to exactly when its context continues, destroyed once, never while current
//   VG    every stack registered with its exact bounds and deregistered exactly once, before its memory is given back
#include <map>
#include <set>
#include <pthread.h>
struct ToolMon {
    // ASAN
    bool pending; bool giveup; char * lo; size_t size; char * from; char * cur_lo; size_t cur_size;
    std::map< char*, void*> saved;      // stack (lowest byte of its memory, 0: the thread's own) -> fake stack
    std::set< char*> left, started;
    uintptr_t seq;
    // TSAN
    void * tcur, * tmain; std::set< void*> tlive; std::map< void*, char*> thome;
    // Valgrind
    struct Reg { char * lo, * hi; }; std::map< unsigned, Reg> regs; unsigned ids;
    unsigned long long n_asan, n_tsan, n_tsan_created, n_vg;
    ToolMon() : pending( false), giveup( false), lo( 0), size( 0), from( 0), cur_lo( 0), cur_size( 0), seq( 0x1000), tcur( 0), tmain( 0), ids( 0), n_asan( 0), n_tsan( 0), n_tsan_created( 0), n_vg( 0) {}
};
static thread_local ToolMon * tm_mon = 0;
static thread_local World * tm_w = 0;
static ToolMon & TM() { if ( ! tm_mon) tm_mon = new ToolMon(); return * tm_mon; }
static AllocRec * tm_region( char * p) {
    if ( tm_w) for ( size_t i = tm_w->ars.size(); i-- > 0; ) if ( ! tm_w->ars[i]->released && in_region( tm_w->ars[i], p)) return tm_w->ars[i];
    return 0;
}
static char * tm_key( char * p) { AllocRec * a = tm_region( p); return a ? a->sp - a->size : 0; }
static bool tm_on_thread( char * p) {
    pthread_attr_t a; void * lo; size_t n; pthread_getattr_np( pthread_self(), & a); pthread_attr_getstack( & a, & lo, & n); pthread_attr_destroy( & a);
    return p >= (char*) lo && p < (char*) lo + n;
}
extern "C" {
NOINLINE void __sanitizer_start_switch_fiber( void ** save, const void * bottom, size_t size) {
    ToolMon & m = TM(); char * f = (char*) __builtin_frame_address( 0), * k = tm_key( f); ++m.n_asan;
    REQUIRE( ! m.pending, "asan-support", "a switch is announced while another one is under way");
    bool dflt = ! k && ! tm_on_thread( f);          // (a stack from the library's default allocator, unknown to the harness)
    if ( dflt) k = m.cur_lo;
    REQUIRE( ! m.left.count( k) || ! k, "asan-support", "a context that was given up is switched away from");
    m.pending = true; m.lo = (char*) bottom; m.size = size; m.from = k;
    m.giveup = save == 0;
    if ( save) { * save = (void*)( m.seq += 16); m.saved[k] = * save; }
    else { REQUIRE( k, "asan-support", "the thread's own context is given up"); m.saved.erase( k); m.left.insert( k); }
}
NOINLINE void __sanitizer_finish_switch_fiber( void * fake, const void ** obottom, size_t * osize) {
    ToolMon & m = TM(); char * f = (char*) __builtin_frame_address( 0), * k = tm_key( f);
    REQUIRE( m.pending, "asan-support", "a switch is completed that was not announced");
    m.pending = false;
    if ( ! k && ! tm_on_thread( f)) { k = m.lo; m.left.erase( k); }      // (default stack, its release is not seen)
    else REQUIRE( ! k || ! m.left.count( k), "asan-support", "a context that was given up is continued");
    if ( m.lo || m.size) REQUIRE( f >= m.lo && f < m.lo + m.size, "asan-support", "announced stack [%p,%p) is not the one control arrived on (%p)", (void*) m.lo, (void*)( m.lo + m.size), (void*) f);
    else REQUIRE( k == 0, "asan-support", "a context is entered without announcing its stack");
    AllocRec * a = tm_region( f);
    if ( a) REQUIRE( m.lo >= a->sp - a->size && m.lo + m.size <= a->sp, "asan-support", "announced stack [%p,%p) exceeds the real one of task %d [%p,%p)", (void*) m.lo, (void*)( m.lo + m.size), a->task, (void*)( a->sp - a->size), (void*) a->sp);
    if ( k) m.started.insert( k);
    std::map< char*, void*>::iterator s = m.saved.find( k);
    void * want = s == m.saved.end() ? 0 : s->second;
    REQUIRE( fake == want, "asan-support", "context continues with fake stack %p, saved was %p", fake, want);
    if ( s != m.saved.end()) m.saved.erase( s);
    if ( obottom) * obottom = m.cur_lo ? m.cur_lo : 0;
    if ( osize) * osize = m.cur_size;
    // bounds of the stack that was left: announced ones, or the thread's own at first
    m.cur_lo = m.lo; m.cur_size = m.size;
    if ( ! k) { pthread_attr_t at; void * lo; size_t n; pthread_getattr_np( pthread_self(), & at); pthread_attr_getstack( & at, & lo, & n); pthread_attr_destroy( & at); m.cur_lo = (char*) lo; m.cur_size = n; }
}
void __asan_unpoison_memory_region( void const volatile *, size_t) {}

void * __tsan_get_current_fiber( void) { ToolMon & m = TM(); if ( ! m.tmain) { m.tmain = m.tcur = malloc( 8); } return m.tcur; }
void * __tsan_create_fiber( unsigned) { ToolMon & m = TM(); __tsan_get_current_fiber(); void * p = malloc( 8); m.tlive.insert( p); ++m.n_tsan_created; return p; }
void __tsan_destroy_fiber( void * p) {
    ToolMon & m = TM();
    REQUIRE( m.tlive.count( p), "tsan-support", "a fibre is destroyed that does not exist (any more)");
    REQUIRE( m.tcur != p, "tsan-support", "the current fibre is destroyed");
    m.tlive.erase( p); m.thome.erase( p); free( p);
}
NOINLINE void __tsan_switch_to_fiber( void * p, unsigned flags) {
    ToolMon & m = TM(); ++m.n_tsan; char * f = (char*) __builtin_frame_address( 0); AllocRec * a = tm_region( f);
    REQUIRE( p == m.tmain || m.tlive.count( p), "tsan-support", "switch to a fibre that does not exist (any more)");
    REQUIRE( flags == 0, "tsan-support", "switch without synchronisation");
    // the current fibre is the one of the stack this call is made on
    if ( m.tcur == m.tmain) REQUIRE( ! a, "tsan-support", "task %d runs as fibre of the thread", a->task);
    else { REQUIRE( a || ! tm_on_thread( f), "tsan-support", "the thread's own context runs as fibre of another one"); if ( a) { char * & h = m.thome[m.tcur]; if ( ! h) h = a->sp; REQUIRE( h == a->sp, "tsan-support", "task %d runs as fibre of another context", a->task); } }
    REQUIRE( p != m.tcur, "tsan-support", "switch to the current fibre");
    m.tcur = p;
}
unsigned toolmon_stack_register( void * a, void * b) {
    ToolMon & m = TM(); ++m.n_vg; ToolMon::Reg r = { (char*)( a < b ? a : b), (char*)( a < b ? b : a) };
    for ( std::map< unsigned, ToolMon::Reg>::iterator i = m.regs.begin(); i != m.regs.end(); ++i)
        REQUIRE( i->second.hi <= r.lo || r.hi <= i->second.lo, "valgrind-support", "registered stacks overlap (one was not deregistered)");
    m.regs[++m.ids] = r; return m.ids;
}
void toolmon_stack_deregister( unsigned id) {
    ToolMon & m = TM(); ++m.n_vg;
    REQUIRE( m.regs.count( id), "valgrind-support", "stack id %u deregistered that is not registered (any more)", id);
    volatile char * p = m.regs[id].hi - 1; char c = * p; * p = c;      // memory must still be there
    m.regs.erase( id);
}
}
// called by the harness
static void tm_allocated( AllocRec * a) {
    TM().left.erase( a->sp - a->size); TM().started.erase( a->sp - a->size);       // (memory of a former default stack)
#ifdef BOOST_USE_VALGRIND
    if ( a->kind == K_CUSTOM) return;
    int n = 0;
    for ( std::map< unsigned, ToolMon::Reg>::iterator i = TM().regs.begin(); i != TM().regs.end(); ++i)
        if ( i->second.lo == a->sp - a->size && i->second.hi == a->sp) ++n;
    REQUIRE( n == 1, "valgrind-support", "stack [%p,%p) of kind %d registered %d times with these bounds", (void*)( a->sp - a->size), (void*) a->sp, a->kind, n);
#else
    (void) a;
#endif
}
static void tm_released( char * lo, char * sp, int kind) {
#ifdef BOOST_USE_VALGRIND
    if ( kind == K_CUSTOM) return;
    for ( std::map< unsigned, ToolMon::Reg>::iterator i = TM().regs.begin(); i != TM().regs.end(); ++i)
        REQUIRE( i->second.hi <= lo || sp <= i->second.lo, "valgrind-support", "stack still registered after its release");
#else
    (void) lo; (void) sp; (void) kind;
#endif
}
static void tm_releasing( AllocRec * a) {
#ifdef BOOST_USE_ASAN
    char * k = a->sp - a->size; ToolMon & m = TM();
    REQUIRE( ! m.started.count( k) || m.left.count( k), "asan-support", "the fake stack of task %d was not given up at its end", a->task);
    m.started.erase( k); m.left.erase( k); REQUIRE( ! m.saved.count( k), "asan-support", "fake stack of ended task %d left over", a->task);
#else
    (void) a;
#endif
}
static void tm_end() {
    ToolMon & m = TM();
    REQUIRE( ! m.pending, "asan-support", "announced switch never completed");
    REQUIRE( m.tlive.empty(), "tsan-support", "%zu fibres never destroyed", m.tlive.size());
    REQUIRE( m.tcur == m.tmain, "tsan-support", "the thread ends as the fibre of a context");
    REQUIRE( m.regs.empty(), "valgrind-support", "%zu stacks never deregistered", m.regs.size());
    // (fake stacks of contexts on the library's default stacks have unknown addresses: forget them)
    m.started.clear(); m.left.clear();
    REQUIRE( m.saved.size() <= 1, "asan-support", "%zu fake stacks left over", m.saved.size());
}
