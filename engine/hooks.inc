// Instrumentation hooks (-fsanitize=thread) and checked libc / libstdc++ helpers.   (included by engine.cpp)
#define A(p) ((uintptr_t)(p))
ENTRY void __tsan_init() {}
#define RW(n)                                                                             \
    ENTRY void __tsan_read##n(void* p) { access(A(p), n, 0, PC()); }                      \
    ENTRY void __tsan_write##n(void* p) { access(A(p), n, AF_W, PC()); }                  \
    ENTRY void __tsan_read_write##n(void* p) { access(A(p), n, AF_W, PC()); }             \
    ENTRY void __tsan_unaligned_read##n(void* p) { access(A(p), n, 0, PC()); }            \
    ENTRY void __tsan_unaligned_write##n(void* p) { access(A(p), n, AF_W, PC()); }        \
    ENTRY void __tsan_unaligned_read_write##n(void* p) { access(A(p), n, AF_W, PC()); }
RW(1) RW(2) RW(4) RW(8) RW(16)
ENTRY void __tsan_read_range(void* p, uintptr_t n) { access_range(A(p), n, 0, PC()); }
ENTRY void __tsan_write_range(void* p, uintptr_t n) { access_range(A(p), n, AF_W, PC()); }
ENTRY void __tsan_vptr_read(void** p) { access(A(p), 8, 0, PC()); }
ENTRY void __tsan_vptr_update(void** p, void* v) {
    if (checking() && *p == v) {
        access(A(p), 8, 0, PC());
        return;
    }
    access(A(p), 8, AF_W, PC());
}
ENTRY void __tsan_func_entry(void* pc) {
    if (!g || !g->in_exec) return;
    Fiber* f = g->cur;
    if (f->depth < SSTACK) f->stack[f->depth] = (uint32_t)A(pc);
    f->depth++;
    if (f->depth > 100000) failx("stack-overflow", 0, false, "unbounded recursion");
    if (++g->accesses > 900000000ull && !g->nocheck) failx("hang", 0, true, "no end after many function calls");
}
ENTRY void __tsan_func_exit() {
    if (!g || !g->in_exec) return;
    Fiber* f = g->cur;
    if (f->depth) f->depth--;
}
ENTRY void* __tsan_memcpy(void* d, const void* s, uintptr_t n) {
    if (n && checking()) {
        access_range(A(s), n, 0, PC());
        access_range(A(d), n, AF_W, PC());
        if (A(d) != A(s) && A(d) < A(s) + n && A(s) < A(d) + n)
            failx("memcpy-overlap", PC(), false, "memcpy of %zu bytes between overlapping regions (distance %lld): undefined behaviour", n, (long long)(A(d) - A(s)));
    }
    rawcpy(d, s, n);
    return d;
}
static void rawmove(void* d, const void* s, size_t n) {
    if (A(d) <= A(s) || A(d) >= A(s) + n)
        rawcpy(d, s, n);
    else
        for (size_t i = n; i-- > 0;) ((volatile char*)d)[i] = ((const volatile char*)s)[i];
}
ENTRY void* __tsan_memmove(void* d, const void* s, uintptr_t n) {
    if (n && checking()) {
        access_range(A(s), n, 0, PC());
        access_range(A(d), n, AF_W, PC());
    }
    rawmove(d, s, n);
    return d;
}
ENTRY void* __tsan_memset(void* d, int v, uintptr_t n) {
    if (n && checking()) access_range(A(d), n, AF_W, PC());
    if (n > 2 * MB && v == 0 && A(d) - VIEW0 < VIEW_SPAN) {  // large cleared segments stay sparse
        uintptr_t o = A(d) - VIEW0;
        uintptr_t off = o % SEG_PER, lo = (off + 4095) & ~4095ull, hi = (off + n) & ~4095ull;
        rawset(d, 0, lo - off);
        madvise((void*)(SEG0 + o / SEG_PER / MAXVIEW * SEG_PER + lo), hi - lo, MADV_REMOVE);
        rawset((char*)d + (hi - off), 0, off + n - hi);
        return d;
    }
    rawset(d, v, n);
    return d;
}

// ---- atomics
static inline bool mo_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool mo_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static inline SyncObj* aobj(const volatile void* p, size_t n, uint32_t pc, bool pt, const char* what, uint8_t fl) {
    if (pt) point(what);
    access(A(p), n, fl | AF_ATOMIC, pc);
    SyncObj* o = obj(O_ATOMIC, addr_key(p, n, pc));
    g->cur->spin++;
    return o;
}
#define ATOMIC(n, T)                                                                                                      \
    ENTRY T __tsan_atomic##n##_load(const volatile T* p, int mo) {                                                        \
        if (!checking()) return *p;                                                                                       \
        SyncObj* o = aobj(p, n / 8, PC(), true, "atomic load", 0);                                                        \
        if (mo_acq(mo)) acquire(o);                                                                                       \
        fmixh(mix(30, o->ver));                                                                                           \
        trace("atomic load %p = %lld", (void*)p, (long long)*p);                                                          \
        return *p;                                                                                                        \
    }                                                                                                                     \
    ENTRY void __tsan_atomic##n##_store(volatile T* p, T v, int mo) {                                                     \
        if (!checking()) {                                                                                                \
            *p = v;                                                                                                       \
            return;                                                                                                       \
        }                                                                                                                 \
        SyncObj* o = aobj(p, n / 8, PC(), true, "atomic store", AF_W);                                                    \
        if (mo_rel(mo)) release(o, true);                                                                                 \
        touch(o, 31);                                                                                                     \
        trace("atomic store %p := %lld", (void*)p, (long long)v);                                                         \
        *p = v;                                                                                                           \
    }                                                                                                                     \
    ENTRY T __tsan_atomic##n##_exchange(volatile T* p, T v, int mo) {                                                     \
        T old;                                                                                                            \
        if (!checking()) {                                                                                                \
            old = *p;                                                                                                     \
            *p = v;                                                                                                       \
            return old;                                                                                                   \
        }                                                                                                                 \
        SyncObj* o = aobj(p, n / 8, PC(), true, "atomic exchange", AF_W);                                                 \
        if (mo_acq(mo)) acquire(o);                                                                                       \
        if (mo_rel(mo)) release(o);                                                                                       \
        touch(o, 32);                                                                                                     \
        old = *p;                                                                                                         \
        *p = v;                                                                                                           \
        return old;                                                                                                       \
    }                                                                                                                     \
    ENTRY int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int fmo) {                     \
        if (!checking()) {                                                                                                \
            if (*p == *c) {                                                                                               \
                *p = v;                                                                                                   \
                return 1;                                                                                                 \
            }                                                                                                             \
            *c = *p;                                                                                                      \
            return 0;                                                                                                     \
        }                                                                                                                 \
        SyncObj* o = aobj(p, n / 8, PC(), true, "compare-exchange", AF_W);                                                \
        if (*p == *c) {                                                                                                   \
            if (mo_acq(mo)) acquire(o);                                                                                   \
            if (mo_rel(mo)) release(o);                                                                                   \
            touch(o, 33);                                                                                                 \
            *p = v;                                                                                                       \
            return 1;                                                                                                     \
        }                                                                                                                 \
        if (mo_acq(fmo)) acquire(o);                                                                                      \
        fmixh(mix(34, o->ver));                                                                                           \
        *c = *p;                                                                                                          \
        return 0;                                                                                                         \
    }                                                                                                                     \
    ENTRY int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int fmo) {                       \
        return __tsan_atomic##n##_compare_exchange_strong(p, c, v, mo, fmo);                                              \
    }                                                                                                                     \
    ENTRY T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T c, T v, int mo, int fmo) {                           \
        __tsan_atomic##n##_compare_exchange_strong(p, &c, v, mo, fmo);                                                    \
        return c;                                                                                                         \
    }
#define FETCH(n, T, name, expr)                                                       \
    ENTRY T __tsan_atomic##n##_fetch_##name(volatile T* p, T v, int mo) {             \
        T old;                                                                        \
        if (!checking()) {                                                            \
            old = *p;                                                                 \
            *p = expr;                                                                \
            return old;                                                               \
        }                                                                             \
        SyncObj* o = aobj(p, n / 8, PC(), false, "atomic " #name, AF_W);              \
        if (mo_acq(mo)) acquire(o);                                                   \
        if (mo_rel(mo)) release(o);                                                   \
        touch(o, 35);                                                                 \
        old = *p;                                                                     \
        *p = expr;                                                                    \
        return old;                                                                   \
    }
#define FETCHES(n, T)                                                                                                    \
    ATOMIC(n, T) FETCH(n, T, add, old + v) FETCH(n, T, sub, old - v) FETCH(n, T, and, old& v) FETCH(n, T, or, old | v) \
        FETCH(n, T, xor, old ^ v) FETCH(n, T, nand, ~(old & v))
FETCHES(8, uint8_t) FETCHES(16, uint16_t) FETCHES(32, uint32_t) FETCHES(64, uint64_t)
ENTRY void __tsan_atomic_thread_fence(int) {}
ENTRY void __tsan_atomic_signal_fence(int) {}

// ---- libc functions that read memory
static inline void rd(const void* p, size_t n, uint32_t pc) {
    if (n && checking()) access_range(A(p), n, 0, pc);
}
#define FROM_EXE (checking() && RA < 0x100000000ull)
ENTRY int memcmp(const void* a, const void* b, size_t n) {
    if (FROM_EXE) rd(a, n, PC()), rd(b, n, PC());
    const volatile unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
    for (size_t i = 0; i < n; i++)
        if (x[i] != y[i]) return x[i] - y[i];
    return 0;
}
ENTRY int bcmp(const void* a, const void* b, size_t n) {
    if (FROM_EXE) rd(a, n, PC()), rd(b, n, PC());
    const volatile unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
    for (size_t i = 0; i < n; i++)
        if (x[i] != y[i]) return 1;
    return 0;
}
ENTRY size_t strlen(const char* s) {
    const volatile char* p = s;
    while (*p) p++;
    size_t n = p - s;
    if (FROM_EXE) rd(s, n + 1, PC());
    return n;
}

// ---- libstdc++ functions that modify nodes outside the instrumented code
namespace std {
struct _Rb_tree_node_base;
struct _Rb_tree_node_base;
}
template <class F>
static F next_sym(const char* n) {
    F f = (F)dlsym(RTLD_NEXT, n);
    if (!f) engine_error("cannot find %s", n);
    return f;
}
static inline void wr(void* p, size_t n, uint32_t pc) {
    if (checking()) access_range(A(p), n, AF_W, pc);
}
typedef void (*rb_ins_t)(bool, void*, void*, void*);
typedef void* (*rb_er_t)(void*, void*);
typedef void (*hook_t)(void*, void*);
typedef void (*unhook_t)(void*);
static rb_ins_t rb_ins;
static rb_er_t rb_er;
static hook_t list_hook;
static unhook_t list_unhook;
static void resolve_hooks() {
    rb_ins = next_sym<rb_ins_t>("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
    rb_er = next_sym<rb_er_t>("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
    list_hook = next_sym<hook_t>("_ZNSt8__detail15_List_node_base7_M_hookEPS0_");
    list_unhook = next_sym<unhook_t>("_ZNSt8__detail15_List_node_base9_M_unhookEv");
}
ENTRY void _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool l, void* x, void* p, void* h) {
    wr(h, 32, PC());
    wr(p, 32, PC());
    if (!rb_ins) resolve_hooks();
    rb_ins(l, x, p, h);
}
ENTRY void* _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(void* z, void* h) {
    wr(h, 32, PC());
    wr(z, 32, PC());
    if (!rb_er) resolve_hooks();
    return rb_er(z, h);
}
ENTRY void _ZNSt8__detail15_List_node_base7_M_hookEPS0_(void* n, void* pos) {
    wr(n, 16, PC());
    wr(pos, 16, PC());
    if (!list_hook) resolve_hooks();
    list_hook(n, pos);
}
ENTRY void _ZNSt8__detail15_List_node_base9_M_unhookEv(void* n) {
    wr(n, 16, PC());
    if (!list_unhook) resolve_hooks();
    list_unhook(n);
}
