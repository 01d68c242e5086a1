/* The i386 System V port, without any C library: raw contexts observed at register level. -DNO_FPENV with BOOST_USE_TSX,
   -DGUARD with BOOST_CONTEXT_TLS_STACK_PROTECTOR (%gs:0x14 is set up with set_thread_area). */
typedef unsigned int u32; typedef unsigned short u16; typedef unsigned char u8; typedef unsigned long long u64;
typedef struct { void * fctx; void * data; } transfer_t;
extern transfer_t jump_fcontext( void *, void *);
extern void * make_fcontext( void *, u32, void (*)( transfer_t));
extern transfer_t ontop_fcontext( void *, void *, transfer_t (*)( transfer_t));
typedef struct { u32 r[4]; u32 mxcsr; u16 x87, pad; } Regs;
typedef struct { Regs in, out; void * fn; u32 args[4]; u32 eax; int esp_delta; u32 eflags; u8 env[28]; u32 canary_bad, seed; } Call;
typedef struct { u32 esp, mxcsr; u16 x87, pad; u32 eflags; u8 env[28]; } Entry;
_Static_assert( __builtin_offsetof( Call, fn) == 48 && __builtin_offsetof( Call, env) == 80 && __builtin_offsetof( Call, seed) == 112, "layout");
Entry g_entry;
extern void shim_call( Call *); extern void ctx_entry( transfer_t); extern transfer_t ontop_entry( transfer_t); extern void returning_entry( transfer_t);

static int sys3( int n, int a, int b, int c) { int r; __asm__ __volatile__( "int $0x80" : "=a"( r) : "a"( n), "b"( a), "c"( b), "d"( c) : "memory"); return r; }
void _exit( int c) { sys3( 252, c, 0, 0); for (;;); }
void * memset( void * p, int c, u32 n) { volatile u8 * q = p; while ( n--) * q++ = (u8) c; return p; }
void * memcpy( void * d, const void * s, u32 n) { volatile u8 * q = d; const u8 * r = s; while ( n--) * q++ = * r++; return d; }
static void put( const char * s) { u32 n = 0; while ( s[n]) ++n; sys3( 4, 1, (int) s, n); }
static void num( u32 v, u32 base) { char b[16]; int i = 15; b[i] = 0; do { b[--i] = "0123456789abcdef"[v % base]; v /= base; } while ( v); put( b + i); }
static u32 g_ep, n_jump, n_ontop, n_make, n_entry, n_regs, n_exit, n_guard;
static void fail( const char * rule, const char * what, u32 a, u32 b) {
    put( "ORACLE-FAIL "); put( rule); put( ": i386: "); put( what); put( " got "); num( a, 16); put( " expected "); num( b, 16); put( " episode "); num( g_ep, 10); put( "\n"); _exit( 77);
}
#define REQ(c, rule, what, a, b) do { if ( ! ( c)) fail( rule, what, (u32)( a), (u32)( b)); } while (0)
static u64 rs;
static void step( int on_);
static u32 rnd( void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (u32)( rs >> 16); }
static u32 below( u32 n) { return rnd() % n; }

#ifdef GUARD
static u8 tls_block[256] __attribute__((aligned(64)));
static void guard_setup( void) {
    static struct { u32 entry, base, limit, flags; } d; int r;
    d.entry = ~0u; d.base = (u32) tls_block; d.limit = 0xFFFFF; d.flags = 0x51;    /* 32 bit, limit in pages, useable */
    r = sys3( 243, (int) & d, 0, 0); if ( r) { put( "set_thread_area failed\n"); _exit( 78); }
    __asm__ __volatile__( "movw %w0, %%gs" : : "r"( ( d.entry << 3) | 3));
}
static u32 guard( void) { u32 g; __asm__ __volatile__( "movl %%gs:0x14, %0" : "=r"( g)); return g; }
static void set_guard( u32 g) { __asm__ __volatile__( "movl %0, %%gs:0x14" : : "r"( g)); }
#else
static void guard_setup( void) {}
static u32 guard( void) { return 0; }
static void set_guard( u32 g) { (void) g; }
#endif
enum { MXC = 0xFFC0, N = 7 };
typedef struct { u8 map[16384] __attribute__((aligned(64))); u8 * base, * sp; void * fctx; int made, started; u32 mx, guard; u16 x87; } C;
static C cs[N];
static struct { int from, to, kind, fresh; u32 data, ret_data, mx; void * ret_fctx; u16 x87; } X;
static void margins( C * c, const char * w) {
    u8 * p;
    for ( p = c->map; p < c->base; ++p) REQ( * p == 0xB7, "raw-bounds", w, * p, c->base - p);
    for ( p = c->sp; p < c->map + sizeof c->map; ++p) REQ( * p == 0xB7, "raw-bounds", w, * p, p - c->sp);
}
static void prep( Call * k) {
    static const u16 pc[3] = { 0, 0x200, 0x300 }; int i;
    memset( k, 0, sizeof * k);
    for ( i = 0; i < 4; ++i) k->in.r[i] = rnd();
    k->in.mxcsr = 0x1F80 | ( below( 4) << 13) | ( below( 2) << 15) | ( below( 2) << 6);
    k->in.x87 = (u16)( 0x7F | pc[below( 3)] | ( below( 4) << 10));
    k->seed = rnd();
}
static void check_fp( u32 mx, u16 x, u32 omx, u16 ox, const char * w) {
#ifdef NO_FPENV
    omx = X.mx; ox = X.x87;
#endif
    REQ( ( mx & MXC) == ( omx & MXC), "fpenv", w, mx, omx); REQ( x == ox, "fpenv", w, x, ox);
}
static void check_env( u8 * env, u32 fl, const char * w) { u16 t = *(u16*)( env + 8); REQ( t == 0xFFFF, "x87-stack", w, t, 0xFFFF); REQ( ! ( fl & 0x400), "direction-flag", w, fl, 0); }
static void check_call( Call * k, const char * w, int pops, int sw) {
    int i;
    for ( i = 0; i < 4; ++i) REQ( k->in.r[i] == k->out.r[i], "callee-saved", w, k->out.r[i], k->in.r[i]);
    REQ( k->esp_delta == pops, "callee-saved esp", w, k->esp_delta, pops); REQ( k->canary_bad == 0, "caller-frame", w, k->canary_bad, 0);
    if ( sw) check_fp( k->out.mxcsr, k->out.x87, k->in.mxcsr, k->in.x87, w);
    else REQ( ( k->out.mxcsr & MXC) == ( k->in.mxcsr & MXC) && k->out.x87 == k->in.x87, "fpenv", w, k->out.mxcsr, k->in.mxcsr);
    check_env( k->env, k->eflags, w); n_regs += 4;
}
static int on( C * c, void * p) { return (u8*) p >= c->base && (u8*) p < c->sp; }
static void place( int id, void * p, const char * w) {
    int i;
    for ( i = 1; i < N; ++i) if ( cs[i].made && on( & cs[i], p)) { REQ( i == id, "stack", w, i, id); return; }
    REQ( id == 0, "stack", w, 0, id);
}
static void hplace( int from, void * h, const char * w) { REQ( h, "handle", w, 0, from); if ( from) REQ( on( & cs[from], h), "handle", w, h, from); }
static void do_make( int i) {
    C * c = & cs[i]; u32 size = 6000 + below( 6000); Call k; u8 * p;
    if ( c->made) margins( c, "before reuse");
    c->base = c->map + 512 + below( 64); c->sp = c->base + size;
    if ( below( 2)) c->sp -= (u32) c->sp & 15;
    memset( c->map, 0xB7, sizeof c->map); memset( c->base, 0x11, c->sp - c->base);
    prep( & k); k.fn = (void*) make_fcontext; k.args[0] = (u32) c->sp; k.args[1] = c->sp - c->base; k.args[2] = (u32) ctx_entry;
    c->mx = k.in.mxcsr; c->x87 = k.in.x87; c->guard = guard();
    step( 1); shim_call( & k); step( 0); check_call( & k, "make_fcontext", 0, 0);
    c->fctx = (void*) k.eax; REQ( on( c, c->fctx), "handle", "make_fcontext", c->fctx, c->sp); margins( c, "make_fcontext");
    for ( p = c->base; p < (u8*) c->fctx - 256; p += 37) REQ( * p == 0x11, "raw-bounds", "make_fcontext wrote far below", * p, 0x11);
    c->made = 1; c->started = 0; ++n_make;
}
static void arrive( int me, void * fctx, u32 data, const char * w) {
    REQ( X.to == me, "control", w, me, X.to); REQ( data == X.ret_data, "data", w, data, X.ret_data);
    if ( X.ret_fctx) REQ( fctx == X.ret_fctx, "handle", w, fctx, X.ret_fctx); else { hplace( X.from, fctx, w); cs[X.from].fctx = fctx; }
    X.to = -1;
}
static void __attribute__((noinline)) op( int me) {
    int t, ontop; Call k; transfer_t tr; u32 data;
    do t = below( N); while ( t == me);
    if ( t && ( ! cs[t].made || below( 40) == 0)) do_make( t);
    prep( & k); ontop = cs[t].started && below( 3) == 0; data = rnd();
    k.fn = ontop ? (void*) ontop_fcontext : (void*) jump_fcontext;
    k.args[0] = (u32) & tr; k.args[1] = (u32) cs[t].fctx; k.args[2] = data; k.args[3] = ontop ? (u32) ontop_entry : rnd();
    X.from = me; X.to = t; X.kind = ontop; X.data = X.ret_data = data; X.ret_fctx = 0; X.mx = k.in.mxcsr; X.x87 = k.in.x87; X.fresh = t && ! cs[t].started;
    cs[me].fctx = 0; cs[t].fctx = 0; cs[me].mx = k.in.mxcsr; cs[me].x87 = k.in.x87; cs[me].started = 1;
    if ( ontop) ++n_ontop; else ++n_jump;
    if ( ! below( 3)) set_guard( rnd());
    { u32 g = guard(); step( 1); shim_call( & k); step( 0); REQ( guard() == g, "stack-guard", "after a switch", guard(), g); if ( g) ++n_guard; }
    REQ( k.eax == (u32) & tr, "abi", "address of the returned structure", k.eax, & tr);
    arrive( me, tr.fctx, (u32) tr.data, ontop ? "ontop_fcontext" : "jump_fcontext");
    check_call( & k, ontop ? "ontop_fcontext" : "jump_fcontext", 4, 1);
    place( me, __builtin_frame_address( 0), "after switch");
    if ( me) margins( & cs[me], "after switch");
}
static void entry( int me, u32 args_at, const char * w) {
    REQ( ( ( g_entry.esp + 4) & 15) == 0, "stack-align", w, g_entry.esp, 12); check_env( g_entry.env, g_entry.eflags, w); place( me, (void*) g_entry.esp, w); ++n_entry; (void) args_at;
}
void ctx_main( transfer_t t) {
    int me = X.to; C * c;
    step( 0);
    REQ( me > 0 && X.fresh && ! X.kind, "control", "context-function entered", me, X.kind);
    c = & cs[me]; REQ( ! c->started, "control", "entered twice", me, 0);
    entry( me, 4, "context-function"); check_fp( g_entry.mxcsr, g_entry.x87, c->mx, c->x87, "context-function");
    REQ( guard() == c->guard, "stack-guard", "context-function", guard(), c->guard);
    c->started = 1; arrive( me, t.fctx, (u32) t.data, "context-function"); margins( c, "entry");
    for (;;) op( me);
}
transfer_t ontop_main( transfer_t t) {
    int me = X.to, o; transfer_t r; void * rf = t.fctx;
    step( 0);
    REQ( X.kind == 1, "ontop", "entered unexpectedly or twice", X.kind, 1);
    entry( me, 8, "ontop function"); check_fp( g_entry.mxcsr, g_entry.x87, cs[me].mx, cs[me].x87, "ontop function");
    REQ( (u32) t.data == X.data, "data", "ontop function", t.data, X.data); hplace( X.from, t.fctx, "ontop function"); cs[X.from].fctx = t.fctx; X.kind = 2;
    if ( below( 3) == 0) { o = below( N); if ( cs[o].fctx && o != me) rf = cs[o].fctx; }
    r.fctx = rf; r.data = (void*) rnd(); X.ret_fctx = rf; X.ret_data = (u32) r.data;
    step( 1); return r;
}
static void exit_test( void) {
    static u8 stk[8192]; int pid, st = 0; Call k; transfer_t tr;
    pid = sys3( 2, 0, 0, 0);
    if ( pid == 0) {
        void * f = make_fcontext( stk + sizeof stk - below( 100), 8000, returning_entry);
        prep( & k); k.fn = (void*) jump_fcontext; k.args[0] = (u32) & tr; k.args[1] = (u32) f; shim_call( & k); _exit( 91);
    }
    if ( pid < 0) _exit( 78);
    sys3( 7, pid, (int) & st, 0);
    REQ( st == 0, "exit-status", "returning context-function", st, 0); ++n_exit;
}
#ifdef STEP
/* every instruction is followed by a signal whose handler (on a stack of its own) overwrites what lies below the interrupted stack pointer: there is no red zone */
static u32 n_steps, stopped; static u8 altstack[32768]; static u32 ips[4096], n_ips;
static void __attribute__((used)) on_trap( int sig, void * info, u32 * uc) {
    u32 sp = uc[12], ip = uc[19], i; u8 * q = (u8*) sp, * lo = (u8*) sp - 400; (void) sig; (void) info;
    ++n_steps;
    if ( stopped) { uc[21] &= ~0x100u; return; }
    for ( i = 1; i < N; ++i) if ( cs[i].made && q >= cs[i].base && q <= cs[i].sp) { if ( lo < cs[i].base) lo = cs[i].base; break; }
    for ( ; lo < (u8*) sp; ++lo) * (volatile u8*) lo = 0xA5;
    for ( i = ( ip >> 1) & 4095; ips[i] && ips[i] != ip; i = ( i + 1) & 4095) {}
    if ( ! ips[i] && n_ips < 4000) { ips[i] = ip; ++n_ips; }
}
__asm__( ".text\nrestorer: movl $173, %eax\n int $0x80\n"); extern char restorer[];
static void step_setup( void) {
    struct { void * sp; int fl; u32 sz; } ss = { altstack, 0, sizeof altstack }; struct { void * h; u32 fl; void * re; u32 m[2]; } sa = { (void*) on_trap, 4 | 0x08000000 | 0x04000000, restorer, { 0, 0 } }; int r;
    if ( sys3( 186, (int) & ss, 0, 0)) _exit( 78);
    __asm__ __volatile__( "int $0x80" : "=a"( r) : "a"( 174), "b"( 5), "c"( & sa), "d"( 0), "S"( 8) : "memory"); if ( r) _exit( 78);
}
static void __attribute__((noinline)) step( int on_) { stopped = ! on_; if ( on_) __asm__ __volatile__( "pushfl; orl $0x100, (%%esp); popfl" ::: "memory", "cc"); else __asm__ __volatile__( "nop; nop" ::: "memory"); }
#else
static void step_setup( void) {}
static void step( int on_) { (void) on_; }
#endif
static u32 parse( const char * s) { u32 v = 0; while ( * s >= '0' && * s <= '9') v = v * 10 + ( * s++ - '0'); return v; }
static void st( const char * k, u32 v) { put( "STAT "); put( k); put( " "); num( v, 10); put( "\n"); }
void start_c( u32 * sp) {
    u32 argc = sp[0], eps = argc > 2 ? parse( (char*) sp[3]) : 200, seed = argc > 1 ? parse( (char*) sp[2]) : 1, i, e;
    guard_setup(); set_guard( 0x1234); step_setup();
    for ( e = 0; e < eps; ++e) {
        g_ep = e; rs = ( (u64) seed << 32 | ( e * 2654435761u)) ^ 0x9E3779B97F4A7C15ull; for ( i = 0; i < 8; ++i) rnd();
        for ( i = 1; i < N; ++i) { if ( cs[i].made) margins( & cs[i], "end"); cs[i].made = cs[i].started = 0; cs[i].fctx = 0; }
        cs[0].started = 1;
        for ( i = 0; i < 150; ++i) op( 0);
    }
    for ( i = 0; i < 6; ++i) exit_test();
    st( "i386_jumps", n_jump); st( "i386_ontops", n_ontop); st( "i386_contexts_made", n_make); st( "i386_entries_observed", n_entry); st( "i386_register_values_compared", n_regs); st( "i386_exit_tests", n_exit);
    st( "i386_guard_values_compared", n_guard);
#ifdef STEP
    st( "i386_instructions_interrupted", n_steps); st( "i386_distinct_instructions_interrupted", n_ips);
#endif
    _exit( 0);
}
