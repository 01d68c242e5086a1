// Argument blocks of shim_x86_64.S
#ifndef VERIF_SHIM_HPP
#define VERIF_SHIM_HPP
#include <cstddef>
#include <cstdint>
struct Regs { uint64_t r[6]; uint32_t mxcsr; uint16_t x87; uint16_t pad; uint64_t pad2; };
struct Call {
    Regs in, out;
    void * fn; uint64_t a0, a1, a2, rax, rdx, eflags, rsp_delta;
    unsigned char env[32]; uint64_t guard_before, guard_after, canary_bad, garbage[32];
};
struct Entry { uint64_t rsp, rdi, rsi; uint32_t mxcsr; uint16_t x87, pad; uint64_t eflags, guard, ret; unsigned char env[32]; uint64_t set_guard, guard_value; };
static_assert( sizeof( Regs) == 64 && offsetof( Call, fn) == 128 && offsetof( Call, garbage) == 248 && offsetof( Entry, set_guard) == 88, "layout");
extern "C" void shim_call( Call *);
#endif
