#include "windows.h"
#include <atomic>
#include <map>
#include <mutex>
#include <pthread.h>
namespace winshim {
long long n_created, n_deleted, n_switches, n_threads, live, mappings; int fail_in, fail_alloc_in, fail_protect_in;
static std::mutex & m() { static std::mutex x; return x; }
void bad( const char * what) { std::printf( "VIOL win32-api %s\n", what); std::fflush( stdout); std::_Exit( 77); }
__attribute__((noinline)) Fiber *& self() { static thread_local Fiber * f = nullptr; asm volatile( ""); return f; }
__attribute__((noinline)) DWORD & error() { static thread_local DWORD e = 0; asm volatile( ""); return e; }
static const unsigned OK = 0xF1BE5, DEAD = 0xDEADF1BE;
static Fiber * check( LPVOID p, const char * what) { Fiber * f = static_cast< Fiber * >( p); if ( ! f || f->magic != OK) bad( what); return f; }
static void entry( unsigned a, unsigned b) {
    Fiber * f = reinterpret_cast< Fiber * >( ( static_cast< unsigned long >( a) << 32) | b);
    f->fn( f->data);
    bad( "a fiber function returned: the thread would end");
}
// records of deleted fibers are kept for a while, so that stale pointers are recognised
static void retire( Fiber * f) { static Fiber * ring[32]; static unsigned at; f->magic = DEAD; std::free( ring[at % 32]); ring[at++ % 32] = f; }
static bool due( int & n) { return n > 0 && 0 == --n; }
static Fiber * fresh() { Fiber * f = static_cast< Fiber * >( std::calloc( 1, sizeof( Fiber) ) ); if ( ! f) std::abort(); f->magic = OK; f->alive = true; return f; }
}
using namespace winshim;
BOOL IsThreadAFiber() { return nullptr != self(); }
LPVOID GetCurrentFiber() { return self() ? static_cast< LPVOID >( self() ) : reinterpret_cast< LPVOID >( 0x1E00); }
// what a thread leaves behind by ending as a fiber goes with it (contexts resumed by thread_local destructors)
static void thread_ends( void * p) { Fiber * f = static_cast< Fiber * >( p); std::lock_guard< std::mutex > l( m() ); retire( f); --n_threads; }
static pthread_key_t key() { static pthread_key_t k = [] { pthread_key_t x; if ( pthread_key_create( & x, thread_ends) ) std::abort(); return x; }(); return k; }
LPVOID ConvertThreadToFiber( LPVOID data) {
    if ( self() ) { error() = ERROR_ALREADY_FIBER; return nullptr; }
    Fiber * f = fresh(); f->thread = true; f->data = data; self() = f; pthread_setspecific( key(), f);
    std::lock_guard< std::mutex > l( m() ); ++n_threads; return f;
}
BOOL ConvertFiberToThread() {
    Fiber * f = self();
    if ( ! f) { error() = ERROR_ALREADY_THREAD; return FALSE; }
    if ( ! f->thread) bad( "ConvertFiberToThread() on a fiber created by CreateFiber()");
    self() = nullptr; pthread_setspecific( key(), nullptr);
    std::lock_guard< std::mutex > l( m() ); retire( f); --n_threads; return TRUE;
}
LPVOID CreateFiber( SIZE_T size, LPFIBER_START_ROUTINE fn, LPVOID data) {
    { std::lock_guard< std::mutex > l( m() ); if ( due( fail_in) ) { error() = ERROR_NOT_ENOUGH_MEMORY; return nullptr; } }
    if ( ! size) size = 1 << 20;
    if ( size < 65536) size = 65536;
    size = ( size + 4095) / 4096 * 4096;
    void * p = ::mmap( nullptr, size + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if ( MAP_FAILED == p) { error() = ERROR_NOT_ENOUGH_MEMORY; return nullptr; }
    ::mprotect( p, 4096, PROT_NONE);
    Fiber * f = fresh(); f->fn = fn; f->data = data; f->lo = static_cast< char * >( p) + 4096; f->size = size;
    if ( ::getcontext( & f->ctx) ) std::abort();
    f->ctx.uc_stack.ss_sp = f->lo; f->ctx.uc_stack.ss_size = size; f->ctx.uc_link = nullptr;
    unsigned long a = reinterpret_cast< unsigned long >( f);
    ::makecontext( & f->ctx, reinterpret_cast< void (*)() >( & entry), 2, static_cast< unsigned >( a >> 32), static_cast< unsigned >( a) );
    std::lock_guard< std::mutex > l( m() ); ++n_created; ++live; return f;
}
LPVOID CreateFiberEx( SIZE_T commit, SIZE_T reserve, DWORD, LPFIBER_START_ROUTINE fn, LPVOID data) { return CreateFiber( reserve > commit ? reserve : commit, fn, data); }
VOID DeleteFiber( LPVOID p) {
    Fiber * f = check( p, "DeleteFiber() of something that is no fiber (null, or deleted already)");
    if ( f == self() ) bad( "DeleteFiber() of the running fiber: the thread would end");
    if ( f->thread) bad( "DeleteFiber() of the fiber of a thread");
    char * here = static_cast< char * >( __builtin_frame_address( 0) );
    if ( here >= f->lo && here < f->lo + f->size) bad( "the stack of a fiber is released while running on it");
    ::munmap( f->lo - 4096, f->size + 4096);
    { std::lock_guard< std::mutex > l( m() ); ++n_deleted; --live; retire( f); }
}
VOID SwitchToFiber( LPVOID p) {
    Fiber * from = self();
    if ( ! from) bad( "SwitchToFiber() on a thread that is no fiber");
    Fiber * to = check( p, "SwitchToFiber() to a deleted fiber");
    if ( to == from) bad( "SwitchToFiber() to the running fiber");
    __atomic_add_fetch( & n_switches, 1, __ATOMIC_RELAXED);
    self() = to;
    ::swapcontext( & from->ctx, & to->ctx);
}
DWORD GetLastError() { return error(); }
VOID SetLastError( DWORD e) { error() = e; }

static std::map< void *, std::size_t > & maps() { static std::map< void *, std::size_t > x; return x; }
LPVOID VirtualAlloc( LPVOID at, SIZE_T size, DWORD type, DWORD prot) {
    std::lock_guard< std::mutex > l( m() );
    if ( at || ! ( type & MEM_COMMIT) || prot != PAGE_READWRITE) bad( "VirtualAlloc(): arguments not expected");
    if ( ! size || due( fail_alloc_in) ) { error() = ERROR_NOT_ENOUGH_MEMORY; return nullptr; }
    std::size_t r = ( size + 4095) / 4096 * 4096;
    void * p = r < size ? MAP_FAILED : ::mmap( nullptr, r, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if ( MAP_FAILED == p) { error() = ERROR_NOT_ENOUGH_MEMORY; return nullptr; }
    maps()[p] = r; ++mappings; return p;
}
BOOL VirtualProtect( LPVOID p, SIZE_T size, DWORD prot, PDWORD old) {
    std::lock_guard< std::mutex > l( m() );
    if ( ! old) return FALSE;
    if ( due( fail_protect_in) ) { error() = ERROR_NOT_ENOUGH_MEMORY; return FALSE; }
    * old = PAGE_READWRITE;
    int pr = ( prot & PAGE_GUARD) || prot == PAGE_NOACCESS ? PROT_NONE : prot == PAGE_READONLY ? PROT_READ : PROT_READ | PROT_WRITE;
    char * a = reinterpret_cast< char * >( reinterpret_cast< unsigned long >( p) & ~4095ul);
    return 0 == ::mprotect( a, static_cast< char * >( p) + size - a, pr);
}
BOOL VirtualFree( LPVOID p, SIZE_T size, DWORD type) {
    std::lock_guard< std::mutex > l( m() );
    std::map< void *, std::size_t >::iterator i = maps().find( p);
    if ( type != MEM_RELEASE || size || i == maps().end() ) bad( "VirtualFree(): arguments not expected");
    ::munmap( p, i->second); maps().erase( i); --mappings; return TRUE;
}
VOID GetSystemInfo( SYSTEM_INFO * s) { s->dwPageSize = 4096; s->dwAllocationGranularity = 65536; }
