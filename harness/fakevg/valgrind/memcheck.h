/* Stand-in for memcheck.h. */
#ifndef VERIF_FAKE_MEMCHECK_H
#define VERIF_FAKE_MEMCHECK_H
#include "valgrind.h"
#define VALGRIND_MAKE_MEM_NOACCESS(a, n) ((void)( a), (void)( n), 0)
#define VALGRIND_MAKE_MEM_UNDEFINED(a, n) ((void)( a), (void)( n), 0)
#define VALGRIND_MAKE_MEM_DEFINED(a, n) ((void)( a), (void)( n), 0)
#define VALGRIND_MAKE_MEM_DEFINED_IF_ADDRESSABLE(a, n) ((void)( a), (void)( n), 0)
#define VALGRIND_CREATE_BLOCK(a, n, d) ((void)( a), (void)( n), 0)
#define VALGRIND_DISCARD(i) ((void)( i), 0)
#define VALGRIND_CHECK_MEM_IS_ADDRESSABLE(a, n) ((void)( a), (void)( n), 0)
#define VALGRIND_CHECK_MEM_IS_DEFINED(a, n) ((void)( a), (void)( n), 0)
#endif
