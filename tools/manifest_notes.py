MON = 'runtime monitoring: '
TECH = {
 'C01': (MON + 'lockstep reference-model monitor over random multi-context programs',),
 'C02': (MON + 'register-level oracle around every library call under random register/FP/canary contents (x86_64 and i386 natively, 30 other assembly ports on an instruction emulator)',),
 'C03': (MON + 'raw fcontext call monitor with byte-exact region checks (other assembly ports on an instruction emulator); AddressSanitizer run',),
 'C04': (MON + 'instrumented allocators, poisoned and quarantined stacks, lockstep model; AddressSanitizer/LeakSanitizer',),
 'C05': (MON + 'destruction-order and exception-state monitors in random nested unwinding; AddressSanitizer',),
 'C06': (MON + 'ownership model compared with every handle operation',),
 'C07': (MON + 'exactly-once monitor for functions on top, model of delivered handles; AddressSanitizer',),
 'C08': (MON + 'exception-state monitor, forked death tests for escaping exceptions, stack-walk monitor',),
 'C09': (MON + 'interposed system interfaces with injected and real exhaustion, region oracle; AddressSanitizer',),
 'C10': (MON + 'fault observation in forked children and guard-page probes',),
 'C11': (MON + 'interposed heap, pool accounting oracle; ThreadSanitizer and AddressSanitizer',),
 'C12': (MON + 'byte-exact region oracle over random preallocated layouts',),
 'C13': (MON + 'fresh processes under random limits compared with the system\'s own answers; ThreadSanitizer',),
 'C14': (MON + 'per-thread programs compared with their solo run; ThreadSanitizer, AddressSanitizer; leak monitor',),
 'C15': (MON + 'migration monitor over random multi-thread programs; ThreadSanitizer, AddressSanitizer',),
 'C16': (MON + 'single-stepping with a signal handler at every instruction boundary, differential log oracle (x86_64 and i386); other assembly ports checked against their ABI\'s red zone on an instruction emulator',),
 'C17': (MON + 'byte-exact region oracle, contexts that use every byte of their stack',),
 'C18': (MON + 'life-cycle monitor on instrumented callables and allocators, helpers compared with std; AddressSanitizer',),
 'C19': (MON + 'seccomp trap on every system call, malloc interposition, depth/heap/resident/mapping bounds over long runs',),
 'C20': (MON + 'differential comparison of complete event traces between build flavours',),
 'C21': (MON + 'protocol monitor standing in for the tools\' interfaces; valid programs and planted genuine errors under the real AddressSanitizer, ThreadSanitizer and memcheck',),
 'C22': (MON + 'interposed segment runtime with ownership oracle, pattern oracle over every frame of deep call chains',),
 'C23': (MON + 'guard-value and canary oracle around every library call in stack-protector builds',),
 'C24': (MON + 'software shadow stack executing every call, return and shadow-stack instruction of the program; mapping balance and injected mapping failures',),
}
COMMON = ('Exploration by executions: seeded random programs in several compiler/standard/implementation configurations; every switch, handle value, local, exception '
          'and stack release is compared with an independent model. Trusts compiler, libc, kernel; x86_64 Linux only. ')
EXEC = 'Exploration by executions on x86_64 Linux in several compiler/standard/implementation configurations; trusts compiler, libc and kernel. '
NOTE = {
 'C04': COMMON, 'C05': COMMON + 'Unwinding is compared with exception propagation through the same code on one stack.', 'C06': COMMON, 'C07': COMMON + 'Function objects with fundamental alignment.',
 'C01': COMMON + 'No claim for programs outside the generated operation mix (at most 10 live contexts per program).',
 'C02': EXEC + 'x86_64 and i386 System V assembly and the ucontext implementation; 30 further assembly ports are executed on an instruction emulator of ours.',
 'C03': EXEC + 'x86_64 and i386 System V assembly natively, 30 further ports on an emulator; contexts are started with jump_fcontext (ontop_fcontext on a never started context is not supported by the assembly and not claimed).',
 'C09': EXEC + 'Exhaustion is injected call by call and also produced for real with RLIMIT_AS and the mapping limit.',
 'C10': EXEC + 'POSIX version only; frames larger than the guard page may jump over it and are not claimed.',
 'C11': EXEC + 'Concurrent use of one pool is serialised by the harness, as the documentation demands; copies are made and dropped concurrently.',
 'C08': EXEC + 'Contexts are not switched inside catch blocks (documented restriction). With compilers that destroy locals before calling std::terminate, handles among those locals are destroyed as well.',
 'C13': EXEC + 'Asked before or while the process limits change is not claimed: the library asks the system each time or once, both are accepted for an unchanged limit.',
 'C14': EXEC + 'ThreadSanitizer runs use fiber with ucontext, the only combination with fibre annotations.',
 'C15': EXEC + 'User code that caches thread-specific addresses across a switch is outside the property.',
 'C16': EXEC + 'Signals at instruction boundaries of the generated programs; the part inside the unwinder is covered on a sample.',
 'C18': EXEC + 'Throwing copy or move constructors of callables are not claimed: the library declares their storage noexcept.',
 'C19': EXEC + 'The ucontext implementation may make its documented signal-mask calls; the unwinder\'s and first-use allocations outside switching are not claimed there.',
 'C20': EXEC + 'Flavours of the System V x86_64 port, ucontext and segmented stacks; the other operating systems and architectures cannot be built here.',
 'C22': EXEC + 'GCC with the gold linker (needed for calls into libraries without split stacks); libgcc aborts the process when the system has no memory for a segment, which is not claimed.',
 'C21': EXEC + 'AddressSanitizer and ThreadSanitizer support exists for ucontext only (ThreadSanitizer: fiber only); the tools themselves are trusted.',
 'C12': EXEC, 'C17': EXEC + 'Callable alignments up to 256.',
 'C23': EXEC + 'x86_64 and i386 System V assembly.',
 'C24': EXEC + 'No CPU or kernel with user shadow stacks is at hand: statically linked single-threaded programs on a software shadow stack that follows the manual of the CPU.',
}
NA = {}
