/* Stand-in for valgrind.h: the client requests the library makes are handed to the monitor in toolmon.hpp. */
#ifndef VERIF_FAKE_VALGRIND_H
#define VERIF_FAKE_VALGRIND_H
#ifdef __cplusplus
extern "C" {
#endif
unsigned toolmon_stack_register( void * a, void * b);
void toolmon_stack_deregister( unsigned id);
#ifdef __cplusplus
}
#endif
#define VALGRIND_STACK_REGISTER(a, b) toolmon_stack_register( (void*)( a), (void*)( b))
#define VALGRIND_STACK_DEREGISTER(id) toolmon_stack_deregister( id)
#define VALGRIND_STACK_CHANGE(id, a, b) ((void) 0)
#define RUNNING_ON_VALGRIND 1
#define VALGRIND_PRINTF(...) 0
#define VALGRIND_DO_LEAK_CHECK ((void) 0)
#define VALGRIND_MALLOCLIKE_BLOCK(a, n, r, z) ((void) 0)
#define VALGRIND_FREELIKE_BLOCK(a, r) ((void) 0)
#define VALGRIND_CREATE_MEMPOOL(p, r, z) ((void) 0)
#define VALGRIND_DESTROY_MEMPOOL(p) ((void) 0)
#define VALGRIND_MEMPOOL_ALLOC(p, a, n) ((void) 0)
#define VALGRIND_MEMPOOL_FREE(p, a) ((void) 0)
#endif
