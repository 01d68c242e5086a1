#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so that the long texts stay readable).
import json, os
P = []
H = 'include/boost/context/'
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

FIB = [H+'fiber_fcontext.hpp', H+'fiber_ucontext.hpp', H+'continuation_fcontext.hpp', H+'continuation_ucontext.hpp']
ASM = ['src/asm/make_x86_64_sysv_elf_gas.S', 'src/asm/jump_x86_64_sysv_elf_gas.S', 'src/asm/ontop_x86_64_sysv_elf_gas.S']
ALLOC = [H+'fixedsize_stack.hpp', H+'posix/protected_fixedsize_stack.hpp', H+'pooled_fixedsize_stack.hpp', H+'posix/segmented_stack.hpp', H+'preallocated.hpp', H+'stack_context.hpp']

prop('C01', 'Resuming continues the target exactly where it was suspended',
 "In every program built from fibers or continuations, resuming a handle transfers control to exactly the suspension point of the one context that handle stands for (or to the start of its context-function), with that context's local state intact. The call that resumed it returns only when somebody resumes the resumer again, and the handle it then returns (or the handle a context-function receives) stands for exactly the context that performed that switch, or is empty/false if that context has terminated. A context-function that returns a handle continues exactly that handle's context.",
 ['programs', 'histories', 'configurations'],
 'all programs: any number of contexts, any switching topology (asymmetric, symmetric, chains, rings), any recursion depth at suspension, handles moved/swapped/stored between any places, both APIs (fiber, callcc/continuation), fcontext and ucontext implementations, C++11 to C++20',
 'The tests run about 40 fixed two- or three-context programs; the guarantee is over every topology and history of switches.',
 FIB + ASM + ['src/fiber.cpp', 'src/continuation.cpp', 'src/fcontext.cpp'],
 [('jump_fcontext saves the stack pointer as handle and restores the target', 'src/asm/jump_x86_64_sysv_elf_gas.S'),
  ('activation record current()/from bookkeeping around swapcontext', H+'fiber_ucontext.hpp resume()'),
  ('entry function hands the returned handle to the final switch', H+'fiber_fcontext.hpp fiber_entry / fiber_ucontext.hpp run()')],
 [('current()', 'record of the running context, one per thread', 'src/fiber.cpp, src/continuation.cpp'), ('from', 'record of the context that performed the last switch', H+'fiber_ucontext.hpp')],
 ['return of resume()/resume_with()/callcc()', 'entry of the context-function'])

prop('C02', 'A context switch preserves everything the calling convention demands',
 "Across any sequence of switches (raw jump, raw ontop, fiber/continuation resume, resume_with), each context finds on return the same callee-saved general registers, stack pointer, x87 control word and SSE control register (masks, rounding, flush modes) it had when it switched away, and the direction flag and x87 stack in their required state. A context-function and an ontop-function are entered with the stack alignment the ABI requires, and a new context starts with the floating-point control settings its creator had when creating it. When the library is built without floating-point environment saving, the control settings simply carry over and all other registers are still preserved.",
 ['programs', 'inputs', 'histories', 'configurations'],
 'all register contents, all legal MXCSR/x87 control words, all switch sequences between any contexts, entry and steady state, x86_64 System V and the other ports (i386 freestanding, Mach-O and Microsoft x86_64 on this processor, ports for other processors with their instructions emulated)',
 'Tests check a few floating point values across one switch; no test looks at registers, control words or alignment over arbitrary sequences.',
 ASM + ['src/asm/make_i386_sysv_elf_gas.S', 'src/asm/jump_i386_sysv_elf_gas.S', 'src/asm/ontop_i386_sysv_elf_gas.S', 'src/fcontext.cpp'] + FIB,
 [('save/restore of RBX RBP R12-R15 MXCSR x87CW', ASM[1]), ('same for ontop', ASM[2]), ('initial context-data image', ASM[0])],
 observe=['immediately before and after each call of the switch functions', 'first instruction of entry functions'])

prop('C03', 'Raw contexts carry data and handles faithfully and stay inside their region',
 "For any stack top, size and alignment the caller supplies, creating a raw context writes only inside the supplied region and starting it enters the given function on that region exactly once with the handle of the jumper and the data pointer it passed. Every later jump delivers the jumper's handle and data pointer unchanged to the suspended side, and a jump with a function on top runs this function once on the target's stack with that handle and pointer, and its return value is what the suspended call returns. A raw context-function that returns ends the process with exit status 0.",
 ['inputs', 'programs', 'histories'],
 'all stack tops (any alignment), all region sizes, all data pointers, all sequences of jump/ontop among any number of raw contexts; x86 ports and, emulated, the ports for other processors',
 'test_fcontext uses one stack size, aligned tops and a handful of data values, and never checks the bytes around the region.',
 ASM + ['src/fcontext.cpp', H+'detail/fcontext.hpp'],
 [('make_fcontext aligns the top down and reserves context-data', ASM[0]), ('transfer_t returned in registers and passed as first argument', ASM[1]), ('finish label calls _exit(0)', ASM[0])],
 observe=['transfer_t values at both ends', 'canaries around the region'])

prop('C04', 'Every stack is released exactly once, by its allocator, after its last use',
 "For every fiber or continuation, however it ends (function returned, handle destroyed while suspended or before it ever started, chain of terminations, moved or swapped handles, creation failure), the stack obtained from its stack allocator is given back exactly once, with the same size and stack pointer, to (a copy or moved instance of) the very allocator it came from. It is not given back before all locals of the context and the stored callable have been destroyed, and neither library nor user code touches it afterwards. No stack is ever leaked once no handle to its context remains.",
 ['programs', 'histories', 'configurations'],
 'all programs and lifetimes, all allocators (built in, user defined stateful, move-only, passed as lvalue or rvalue), preallocated or not',
 'Tests do not observe the allocator at all apart from not crashing; release paths depend on how and in which context each context ends.',
 FIB + ALLOC,
 [('record destroyed and stack deallocated on the next context', H+'fiber_fcontext.hpp fiber_exit'), ('deallocate() when the terminated handle is destroyed', H+'fiber_ucontext.hpp ~fiber')],
 observe=['allocate/deallocate of an instrumented stack allocator', 'poisoned released memory'])

prop('C05', 'Destroying a suspended context unwinds it completely',
 "Destroying (or overwriting) a handle to a suspended context unwinds that context's stack before the destruction returns: every live local is destroyed exactly once, in reverse order of construction, on that stack, the stored callable is destroyed, and control comes back to the destroyer. A context that was never started ends without its function ever running. Destructors that run during this unwinding may themselves create, resume, finish and destroy other contexts and throw and catch their own exceptions, and the exception state of the destroyer is unchanged afterwards.",
 ['programs', 'histories', 'configurations'],
 'all states a context can be in when its handle dies (never started, suspended at any depth, suspended inside an ontop-function, having caught exceptions before), destruction from any context including during exception unwinding, nested destruction',
 'Tests unwind one fiber with one object; nesting, never-started contexts and destructors that switch are untested.',
 FIB + [H+'detail/exception.hpp'],
 [('forced_unwind thrown on top of the suspended context', H+'fiber_fcontext.hpp fiber_unwind'), ('force_unwind flag checked after each switch', H+'fiber_ucontext.hpp resume()/run()')],
 [('force_unwind', 'request to unwind the context at its next activation', H+'fiber_ucontext.hpp')],
 ['construction/destruction events of tracked objects', 'uncaught exception count'])

prop('C06', 'A handle is the single, move-only owner of one suspended context',
 "At any moment each suspended context is owned by exactly one handle: resuming or moving from a handle leaves it empty (even when the resumed side throws out of the call), move assignment first gives the target's old context its destruction, self-move and swap lose nothing. A handle converts to true exactly when it owns a context that can be resumed, a default-constructed, moved-from or resumed handle and one standing for a terminated context convert to false. Handles cannot be copied, operator< is a strict weak order under which handles compare equivalent exactly when they denote the same context or both convert to false, and streaming shows a handle that converts to false as '{not-a-context}' and a live one as something else.",
 ['programs', 'histories', 'configurations'],
 'all sequences of construction, move, swap, self-assignment, comparison, streaming, resume and destruction of handles in any state',
 'Tests cover a single move, one order comparison and one move assignment.',
 FIB,
 [('exchange of the handle with nullptr before switching', FIB[0]), ('swap based move', FIB[0]), ('operator bool checks termination', FIB[1])],
 observe=['bool/!/</<< of handles after every operation'])

prop('C07', 'resume_with runs its function exactly once on top of the resumed context',
 "When a suspended (or never started) context is resumed with a function, that function runs exactly once, on the stack of the resumed context, before that context continues, and receives a handle standing for the resumer; the handle the function returns is what the interrupted resume call returns (or what the context-function receives). If the function throws, the exception appears at the suspension point of the resumed context and the function is not run again, and it may itself switch to other contexts before it returns. Any copyable callable may be passed, as lvalue or rvalue, and the caller's object is left usable.",
 ['programs', 'histories', 'configurations', 'inputs'],
 'all target states, all callables, all behaviours of the function (return, replace handle, throw, switch away, resume with another function on top), any history before and after',
 'Tests exercise four ontop functions, each once, on a started context with rvalue lambdas.',
 FIB + [ASM[2]],
 [('ontop_fcontext enters the function on the target stack', ASM[2]), ('fiber_ontop copies the function before running it', FIB[0]), ('ontop std::function executed after swapcontext', FIB[1])],
 [('ontop', 'pending function to run on activation', FIB[1])],
 ['stack address inside the function', 'run counter', 'handle identity'])

prop('C08', 'Exceptions stay inside the context that throws them',
 "An exception thrown and caught inside a context, at any depth and across any switches made in between, behaves as in a single-stack program and never disturbs the exceptions in flight in other contexts. An exception of any type (other than the library's own unwinding exception) that leaves a context-function calls std::terminate on that context, it never propagates into another context. Stack walkers and the unwinder started inside a context terminate at its first frame, without reading beyond its stack.",
 ['programs', 'histories', 'configurations'],
 'all throw/catch nestings and exception types, in context-functions, ontop-functions and destructors, contexts started from normal, unwinding and deeply nested code',
 'Tests throw std::exception subclasses once and never let one escape or walk the stack.',
 FIB + ASM,
 [('noexcept entry function', H+'fiber_fcontext.hpp fiber_entry'), ('noexcept trampoline', H+'fiber_ucontext.hpp fiber_entry_func'), ('base frame image built by make_fcontext', ASM[0])],
 observe=['std::terminate handler', 'catch clauses', '_Unwind_Backtrace'])

prop('C09', 'Stack allocators hand out disjoint, usable regions or fail with bad_alloc',
 "Every successful allocate() of every stack allocator returns a region [sp-size, sp) of at least the requested size whose bytes (above the guard page, where there is one) are readable and writable, that overlaps no other live stack or heap object, and deallocate() gives precisely that memory back to the system or pool without disturbing anything else. When memory cannot be obtained, for whatever size, allocate() throws std::bad_alloc, no context is created, nothing leaks and nothing else is changed. Any interleaving of allocations and deallocations is allowed.",
 ['inputs', 'histories', 'fault_sequences', 'configurations'],
 'all sizes up to the address space limit, all orders of allocate/deallocate, all points at which the system refuses memory; fixedsize, protected, pooled, segmented; with and without BOOST_CONTEXT_USE_MAP_STACK',
 'Tests use default sizes, one live stack at a time and no allocation failure.',
 ALLOC,
 [('malloc/mmap result checks', H+'fixedsize_stack.hpp'), ('page rounding', H+'posix/protected_fixedsize_stack.hpp'), ('boost::pool with malloc or page aligned user allocator', H+'pooled_fixedsize_stack.hpp')],
 observe=['returned stack_context', 'system calls mmap/munmap/mprotect and malloc/free'])

prop('C10', 'protected_fixedsize_stack traps overflow in an inaccessible guard page',
 "A stack from protected_fixedsize_stack has, for every requested size, at least that many usable bytes below sp and directly beneath them a whole page that can neither be read nor written, so that a context running off the lower end of its stack faults instead of corrupting other memory. The guard stays in place for the whole life of the stack, everything above it is usable, and the page is released together with the stack.",
 ['inputs', 'histories', 'configurations'],
 'all sizes, in particular around page multiples, any number of live stacks, overflow from inside running contexts, both mapping flavours',
 'No test allocates a protected stack of other than default size or touches the guard.',
 [H+'posix/protected_fixedsize_stack.hpp'],
 [('one extra page mprotect(PROT_NONE) at the lowest address', H+'posix/protected_fixedsize_stack.hpp allocate()')],
 observe=['SIGSEGV address', '/proc/self/maps'])

prop('C11', 'Copies of a pooled allocator share one pool that outlives its last stack',
 "All copies of a pooled_fixedsize_stack, including those kept inside contexts, draw from one pool: stacks freed through any copy are reused by later allocations of any copy, so memory stays bounded by the peak number of live stacks. The pool is destroyed, giving back all its memory exactly once, when the last copy is gone and never while a stack allocated from it is in use by a context. Distinct pools never share memory, and the configured stack size, first chunk size and maximum chunk size are honoured.",
 ['histories', 'programs', 'inputs', 'schedules'],
 'all orders of copying, destroying and using copies and contexts, all size/next/max parameters, copies made and dropped concurrently on several threads',
 'Pool sharing and lifetime are not tested at all.',
 [H+'pooled_fixedsize_stack.hpp'],
 [('atomic use count on shared storage', H+'pooled_fixedsize_stack.hpp storage'), ('destroy() moves the allocator out before releasing the stack', H+'fiber_fcontext.hpp')],
 [('use_count_', 'number of allocator copies', H+'pooled_fixedsize_stack.hpp')],
 ['malloc/free events of pool blocks', 'stack addresses'])

prop('C12', 'A context on preallocated space uses only the memory it was given',
 "A context created with a preallocated description places everything it needs below the given stack pointer and inside the described stack: bytes at or above that pointer are never written by the library and stay valid until the stack is released. The stack is released exactly once through the given allocator with the complete stack context, and the context-function can use the remaining stack.",
 ['inputs', 'programs', 'histories', 'configurations'],
 'all reserved sizes and alignments at the top of the stack, all callables, all endings of the context, every allocator',
 'One test places one object on a default stack and does not look at the bytes around it.',
 FIB + [H+'preallocated.hpp'],
 [('record placed below palloc.sp, stack bottom from palloc.sctx', H+'fiber_fcontext.hpp create_fiber2')],
 observe=['canaries above the preallocated pointer', 'deallocate() argument'])

prop('C13', 'stack_traits describe the process limits consistently',
 "is_unbounded() is true exactly when the process has no hard limit on stack size and otherwise maximum_size() is that limit; page_size() is the system page size, default_size() is a fixed size of at least minimum_size() sufficient to run a context, and minimum_size() is at least the system's minimum signal stack size. The answers are the same from every thread, context and call order, also when first asked concurrently.",
 ['configurations', 'schedules'],
 'all resource-limit settings at process start (unlimited, any soft/hard limit), any first caller, concurrent first calls',
 'Tests run under one limit setting and do not check the values.',
 ['src/posix/stack_traits.cpp', H+'stack_traits.hpp'],
 [('getrlimit(RLIMIT_STACK) cached in a function-local static', 'src/posix/stack_traits.cpp')],
 observe=['returned values compared with prlimit/sysconf'])

prop('C14', 'Contexts of different threads do not interfere',
 "Threads that each create, switch, unwind and destroy their own contexts concurrently never influence one another: every thread sees exactly the behaviour it would see alone, with no data race inside the library. Threads may start and end at any time, with or without having used contexts, and leave nothing behind.",
 ['schedules', 'programs', 'configurations'],
 'all interleavings of any number of threads running any context programs, thread creation and exit included',
 'No test in the stable set starts a second thread that switches.',
 FIB + ['src/fiber.cpp', 'src/continuation.cpp', 'src/posix/stack_traits.cpp'],
 [('thread_local current record with per-thread initializer', 'src/fiber.cpp'), ('function-local statics', 'src/posix/stack_traits.cpp')],
 [('fib_current_rec / counter', 'current record and its use count, per thread', 'src/fiber.cpp')],
 ['ThreadSanitizer reports', 'per-thread trace checked against its single-thread trace'])

prop('C15', 'A suspended context can be continued on another thread',
 "A handle to a suspended (or never started) context may be handed to another thread with ordinary synchronisation and resumed, resumed with a function, or destroyed there, any number of times and by any sequence of threads. The context then continues with its state intact on the new thread, the handle it gets stands for the new resumer, and its termination or unwinding completes on that thread even if the thread that created it has ended.",
 ['schedules', 'histories', 'programs'],
 'all migration histories over any number of threads, contexts suspended at any point, creator thread alive or gone',
 'No stable test migrates a context between threads.',
 FIB + ASM + ['src/fiber.cpp', 'src/continuation.cpp'],
 [('no thread identity stored in the handle or record', FIB[0]), ('current() looked up on the running thread after each switch', FIB[1])],
 observe=['thread id and state after each resume'])

prop('C16', 'An asynchronous signal at any instruction of a switch is harmless',
 "At every single instruction of creating, starting, switching between, ontop-switching, finishing and unwinding contexts, the stack pointer designates memory such that a signal handler which runs there, uses all the stack below the ABI red zone and clobbers every register, does not change the behaviour of the program. Live state is never kept below the red zone and the old stack is never needed after control has left it.",
 ['schedules', 'crash_points', 'programs'],
 'every instruction boundary of every library operation, any target, with handlers that use the interrupted stack; x86_64, i386 and, emulated, the ports for other processors',
 'Tests never deliver a signal; the exposed windows are a few instructions wide.',
 ASM + FIB,
 [('context-data is stored at or above the moved stack pointer before the pointer is switched', ASM[1])],
 observe=['SIGTRAP after every instruction (trap flag), handler scribbles below the red zone'])

prop('C17', 'Contexts stay inside their stacks and may use them to the end',
 "Library bookkeeping, the stored callable and the running context together never touch memory outside the stack the allocator returned, for callables of any size and any alignment up to 256 bytes, and the stored callable is correctly aligned. Apart from that bookkeeping and the callable, the context-function can use all of the stack down to its lowest usable byte without disturbing the library.",
 ['inputs', 'programs', 'configurations'],
 'all stack sizes and stack top alignments, all callable sizes and alignments, all depths of use',
 'Tests use small callables on large stacks.',
 FIB + ASM,
 [('record storage computed from sp, size and mask', H+'fiber_fcontext.hpp create_fiber1'), ('stack size handed to make_fcontext/makecontext', H+'fiber_ucontext.hpp create_fiber1')],
 observe=['guard pages and canaries on both sides of the stack', 'address of the callable'])

prop('C18', 'Any callable works and is stored once, moved not copied, destroyed once',
 "A context can be created from any callable that accepts a handle and returns one: function, function pointer, lambda, mutable or move-only function object, member-function style bind, std::function, passed as lvalue or rvalue, under C++11 to C++20. An rvalue callable is never copied, an lvalue is copied once and left untouched, the stored object is the one invoked, and it is destroyed exactly once, after the function has returned or been unwound and before the stack is released; the same holds for the stack allocator. The helper functions invoke, apply, exchange and the tuple head/tail assignments behave as their standard counterparts.",
 ['inputs', 'programs', 'configurations'],
 'all callable kinds and value categories, all language standards, both implementations',
 'Tests instantiate a few kinds under one standard and count neither copies nor destructions.',
 FIB + [H+'detail/invoke.hpp', H+'detail/apply.hpp', H+'detail/exchange.hpp', H+'detail/tuple.hpp', H+'detail/index_sequence.hpp', H+'detail/disable_overload.hpp'],
 [('decayed copy stored in the record by perfect forwarding', FIB[0]), ('disable_overload keeps move construction apart', H+'detail/disable_overload.hpp')],
 observe=['special member function calls of instrumented callables', 'results compared with std::invoke/std::apply/std::tuple'])

prop('C19', 'Switching is pure user-space work that allocates nothing',
 "With the default (fcontext) implementation, creating a context on given stack memory, starting it, switching, running functions on top, finishing and unwinding it perform no system call, and switching performs no dynamic memory allocation in any context. Per-switch memory consumption is zero: any number of switches and of create/finish cycles runs in bounded memory.",
 ['programs', 'histories'],
 'all switch sequences of any length and all create/finish/unwind cycles',
 'Tests perform a few switches and measure nothing.',
 ASM + FIB,
 [('register save/restore only', ASM[1])],
 observe=['seccomp-filtered process', 'malloc/operator new counters', 'resident size'])

prop('C20', 'All build flavours give a program the same observable behaviour',
 "A valid program behaves identically, in the order of everything it can observe, whichever implementation and options the library is built with: fcontext or ucontext, continuation or fiber counterpart, segmented stacks, map-stack flags, Valgrind support, floating-point saving disabled, optimisation level, assertions on or off, C++11 to C++20, static or shared, gcc or clang. Only the moment at which a finished context's stack is released may differ.",
 ['programs', 'configurations'],
 'all programs without undefined behaviour, the product of all build options available on this platform',
 'The test suite runs the same small programs per flavour but never compares behaviours.',
 FIB + ['src/fiber.cpp', 'src/continuation.cpp', 'src/fcontext.cpp'] + ASM,
 [('two independent implementations of one interface', H+'fiber.hpp, '+H+'continuation.hpp')],
 observe=['hash of the complete observable trace of a seeded random program per flavour'])

prop('C21', 'Sanitizer and Valgrind support reports real errors and nothing else',
 "With the library's AddressSanitizer, ThreadSanitizer or Valgrind support enabled, valid context programs of any shape run without a report and without growth of tool state, every stack registered with the tool is deregistered exactly once, and genuine errors made inside contexts (overflow of a local, use after return or free, unsynchronised sharing) are still reported.",
 ['programs', 'histories', 'configurations'],
 'all valid programs, any number of created and destroyed contexts, all endings',
 'No stable test is built with any of these tools.',
 [H+'fiber_ucontext.hpp', H+'continuation_ucontext.hpp', H+'fixedsize_stack.hpp', H+'posix/protected_fixedsize_stack.hpp', H+'pooled_fixedsize_stack.hpp'],
 [('__sanitizer_start/finish_switch_fiber around swapcontext', H+'fiber_ucontext.hpp resume()'), ('__tsan_create/switch/destroy_fiber', H+'fiber_ucontext.hpp'), ('VALGRIND_STACK_(DE)REGISTER', ALLOC[0])],
 observe=['tool reports', 'calls of the tool interface', 'process size'])

prop('C22', 'Segmented stacks grow on demand and are returned completely',
 "With segmented stack support, a context whose call depth exceeds its initial segment obtains further segments transparently, at any depth and together with any switching, and its data stays intact. Growth in one context never affects another, and all segments are returned when the context ends, normally or by unwinding.",
 ['programs', 'histories', 'inputs'],
 'all call depths and frame sizes, any switching and unwinding while grown, any number of contexts',
 'The segmented variant of the test suite never exceeds the initial segment in more than one context and does not look at memory.',
 [H+'posix/segmented_stack.hpp', H+'fiber_ucontext.hpp', H+'continuation_ucontext.hpp'],
 [('__splitstack_get/setcontext around the switch', H+'fiber_ucontext.hpp resume()'), ('__splitstack_makecontext/releasecontext', H+'posix/segmented_stack.hpp')],
 observe=['data checks at depth', 'mapped memory after the end'])

prop('C23', 'With TLS stack-protector support each context keeps its own guard value',
 "When built with stack-protector support, the thread's stack guard is saved with a context that is switched away from and restored when it is resumed; a new context starts with the guard its creator had, and functions compiled with stack protection run correctly in all contexts, whatever guard values are in use. Nothing outside the context-data is modified by this.",
 ['programs', 'inputs', 'configurations'],
 'all guard values, all switch sequences, on top of all other switch guarantees',
 'No test is built with this option.',
 ASM,
 [('guard copied between %fs:0x28 and context-data', ASM[1])],
 observe=['%fs:0x28 around each switch', 'code compiled with -fstack-protector-all'])

P.append({'id': 'C24',
 'title': 'With shadow-stack support every context runs on a shadow stack of its own',
 'statement': 'When built for a CPU-enforced shadow stack, each context has a shadow stack of its own from its creation to its end: every return, '
              "switch, function on top, exception and unwinding in any context matches it, it lasts as long as the context's stack does, and it is "
              'unmapped exactly once when the context ends. A creation that obtains no shadow stack fails with bad_alloc and leaves nothing behind; '
              'a raw context-function that returns ends the process with status 0.',
 'quantifier': {'over': ['programs', 'histories', 'faults', 'inputs'],
                'text': 'all programs of switches, exceptions and unwinding, all call depths the stack allows, failure of any mapping'},
 'why_tests_cant': 'No test is built with this option and no machine of the test matrix has the system call; the original code did not even compile '
                   'with assertions on.',
 'anchors': {'files': ['include/boost/context/fiber_fcontext.hpp',
                       'include/boost/context/continuation_fcontext.hpp',
                       'src/asm/make_x86_64_sysv_elf_gas.S',
                       'src/asm/jump_x86_64_sysv_elf_gas.S',
                       'src/asm/ontop_x86_64_sysv_elf_gas.S'],
             'state': [],
             'mechanism': [{'name': 'map_shadow_stack in create_fiber1/2 and create_context1/2, munmap in fiber_exit/context_exit',
                            'where': 'include/boost/context/fiber_fcontext.hpp'},
                           {'name': 'rstorssp/saveprevssp around the switch, incssp', 'where': 'src/asm/jump_x86_64_sysv_elf_gas.S'}],
             'observe_at': ['every call, return and shadow-stack instruction, executed by a software shadow stack', 'map_shadow_stack and munmap'],
             'hook_needed': None}})

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P: f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
