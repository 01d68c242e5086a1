// The part of the Win32 API that boost.context uses, on top of POSIX, for running the Windows implementation of the library here.
// It is a monitor as well: what Windows leaves undefined (deleting the running fiber, switching to a deleted one, ...) is reported.
#ifndef VERIF_WINSHIM_WINDOWS_H
#define VERIF_WINSHIM_WINDOWS_H
#include <cerrno>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>

typedef void VOID; typedef void * LPVOID; typedef unsigned long DWORD; typedef int BOOL; typedef std::size_t SIZE_T; typedef DWORD * PDWORD;
#ifndef FALSE
# define FALSE 0
# define TRUE 1
#endif
#define WINAPI
#define CALLBACK
#define ERROR_ALREADY_FIBER 1280L
#define ERROR_ALREADY_THREAD 1281L
#define ERROR_NOT_ENOUGH_MEMORY 8L
#ifndef _WIN32_WINNT
# define _WIN32_WINNT 0x0A00
#endif
typedef VOID (* LPFIBER_START_ROUTINE)( LPVOID);
typedef void (* PFIBER_CALLOUT_ROUTINE)( void *);

extern "C++" {
namespace winshim {
struct Fiber {
    ucontext_t ctx; LPFIBER_START_ROUTINE fn; LPVOID data; char * lo; std::size_t size; bool thread, alive; unsigned magic;
};
// what has been observed
extern long long n_created, n_deleted, n_switches, n_threads, live; extern int fail_in;
[[noreturn]] void bad( const char * what);
Fiber *& self(); DWORD & error();
}
BOOL IsThreadAFiber(); LPVOID GetCurrentFiber(); LPVOID ConvertThreadToFiber( LPVOID); BOOL ConvertFiberToThread();
LPVOID CreateFiber( SIZE_T, LPFIBER_START_ROUTINE, LPVOID); LPVOID CreateFiberEx( SIZE_T, SIZE_T, DWORD, LPFIBER_START_ROUTINE, LPVOID);
VOID DeleteFiber( LPVOID); VOID SwitchToFiber( LPVOID); DWORD GetLastError(); VOID SetLastError( DWORD);
}
#define FIBER_FLAG_FLOAT_SWITCH 1

// ---- memory
#define MEM_COMMIT 0x1000
#define MEM_RESERVE 0x2000
#define MEM_DECOMMIT 0x4000
#define MEM_RELEASE 0x8000
#define PAGE_NOACCESS 1
#define PAGE_READONLY 2
#define PAGE_READWRITE 4
#define PAGE_GUARD 0x100
struct SYSTEM_INFO { DWORD dwPageSize, dwAllocationGranularity; };
extern "C++" {
LPVOID VirtualAlloc( LPVOID, SIZE_T, DWORD, DWORD); BOOL VirtualProtect( LPVOID, SIZE_T, DWORD, PDWORD); BOOL VirtualFree( LPVOID, SIZE_T, DWORD); VOID GetSystemInfo( SYSTEM_INFO *);
}
extern "C++" {
namespace winshim { extern int fail_alloc_in, fail_protect_in; extern long long mappings; }
}
#endif
