// vmc engine: scheduler, virtual kernel, race / memory checker and explorer.  See vmc.h and DESIGN.md.
#include "internal.h"
#define __NO_INLINE__ 1
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <link.h>
#include <linux/futex.h>
#include <mutex>
#include <new>
#include <pthread.h>
#include <random>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" char __data_start[], _end[], __executable_start[], etext[];
extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);
extern "C" char __libc_single_threaded;
namespace std {
extern __thread void* __once_callable;
extern __thread void (*__once_call)();
}

#define ENTRY extern "C" __attribute__((visibility("default")))
#define PC() ((uint32_t)(uintptr_t)__builtin_return_address(0))

namespace vmc {

State* g;
Shared* S;
static uint64_t* cache;
static constexpr uint64_t CACHE_N = 1ull << 25;
static Slot* RS;          // race shadow, 4 slots per 8 bytes
static uint8_t* AS;       // addressability shadow of the heap, 1 byte per 8 bytes
static size_t exe_tls_size;
static unsigned char* exe_tls;
static size_t data_len;
static int out_fd = 1;

static inline uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C159E3779B9ull + (a << 6) + (a >> 2));
    x ^= x >> 32;
    x *= 0xD6E8FEB86659FD93ull;
    x ^= x >> 32;
    x *= 0xD6E8FEB86659FD93ull;
    x ^= x >> 32;
    return x;
}

static uint64_t hstr(const char* s) {
    uint64_t h = 1469598103934665603ull;
    while (*s) h = (h ^ (unsigned char)*s++) * 1099511628211ull;
    return h;
}

static void rawcpy(void* d, const void* s, size_t n) { __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory"); }
static void rawset(void* d, int v, size_t n) { __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory"); }

void engine_error(const char* fmt, ...) {
    char b[2000];
    va_list a;
    va_start(a, fmt);
    int n = vsnprintf(b, sizeof b - 2, fmt, a);
    va_end(a);
    if (n > (int)sizeof b - 3) n = sizeof b - 3;
    dprintf(2, "ENGINE-ERROR: %s\n", b);
    if (g && g->scn) dprintf(2, "ENGINE-ERROR: in scenario %s\n", g->scn);
    _exit(3);
}

// ------------------------------------------------------------------------------------------- context switch
extern "C" void vmc_switch(void** save, void* load);
__asm__(
    ".text\n.globl vmc_switch\n.type vmc_switch,@function\nvmc_switch:\n"
    "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
    "movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
    "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n"
    ".size vmc_switch,.-vmc_switch\n");

static void load_image(int pid) {
    if (g->cur_img == pid) return;
    rawcpy(g->img[g->cur_img], __data_start, data_len);
    if (!g->img[pid]) engine_error("no image");
    rawcpy(__data_start, g->img[pid], data_len);
    g->cur_img = pid;
}

static void save_tls(Fiber* f) {
    f->save_errno = errno;
    rawcpy(f->eh, abi::__cxa_get_globals(), 16);
    f->once_callable = std::__once_callable;
    f->once_call = std::__once_call;
    if (exe_tls_size) rawcpy(f->tls, exe_tls, exe_tls_size);
}
static void load_tls(Fiber* f) {
    errno = f->save_errno;
    rawcpy(abi::__cxa_get_globals(), f->eh, 16);
    std::__once_callable = f->once_callable;
    std::__once_call = f->once_call;
    if (exe_tls_size) rawcpy(exe_tls, f->tls, exe_tls_size);
}

static void switch_to(Fiber* f) {
    Fiber* me = g->cur;
    if (f == me) return;
    save_tls(me);
    load_image(f->pid);
    g->cur = f;
    vmc_switch(&me->sp, f->sp);
    // back again
    load_tls(g->cur);
}

[[noreturn]] static void leave(End e) {
    g->end = e;
    void* dummy;
    vmc_switch(&dummy, g->main_sp);
    __builtin_unreachable();
}

// ------------------------------------------------------------------------------------------- failures
static const char* fname(uint32_t pc) {
    Dl_info i;
    if (pc && dladdr((void*)(uintptr_t)pc, &i) && i.dli_sname) return i.dli_sname;
    return "?";
}

static int put_stack(char* b, int cap, Fiber* f, uint32_t pc) {
    int n = 0;
    if (pc) n += snprintf(b + n, cap - n, "      0x%x\n", pc - 1);
    for (int i = (int)f->depth - 1, k = 0; i >= 0 && k < 40 && n < cap - 40; i--, k++)
        if (i < SSTACK && f->stack[i]) n += snprintf(b + n, cap - n, "      0x%x\n", f->stack[i] - 1);
    return n;
}

static const char* wname(Wait w) {
    static const char* const n[] = {"running", "mutex", "condition", "semaphore", "join", "sleep", "futex", "once", "static init", "read lock", "write lock", "process", "yield", "counter"};
    return n[w];
}

struct KnownF { std::string prop, scn, sig, text; };
static std::vector<KnownF>* knownv;
static std::string* prop_id;

static void vfail(const char* sig, uint32_t pc, bool all, const char* fmt, va_list a) __attribute__((noreturn));
static void vfail(const char* sig, uint32_t pc, bool all, const char* fmt, va_list a) {
    g->nocheck++;
    if (!g->in_exec) {
        char b[3000];
        vsnprintf(b, sizeof b, fmt, a);
        engine_error("failure outside an execution: %s: %s", sig, b);
    }
    Failure* F = g->fail;
    snprintf(F->sig, sizeof F->sig, "%s", sig);
    int n = vsnprintf(F->msg, 8000, fmt, a);
    if (n > 7999) n = 7999;
    int cap = MSGCAP - 200;
    n += snprintf(F->msg + n, cap - n, "\n    thread P%d.T%d, virtual time %.3f ms\n", g->cur->pid, g->cur->id, g->now / 1e6);
    n += put_stack(F->msg + n, cap - n, g->cur, pc);
    if (all)
        for (int i = 0; i < g->nf && n < cap - 3000; i++) {
            Fiber* f = &g->fibers[i];
            if (f == g->cur || f->done || f->dead) continue;
            n += snprintf(F->msg + n, cap - n, "    thread P%d.T%d: %s%s%s\n", f->pid, f->id, wname(f->wk), f->what ? " in " : "", f->what ? f->what : "");
            n += put_stack(F->msg + n, cap - n, f, 0);
        }
    F->t_us = g->now / 1000;
    F->steps = g->steps;
    if (!g->verbose)
        for (auto& k : *knownv)
            if (k.prop == *prop_id && (k.scn == "*" || k.scn == g->scn) && k.sig == sig) leave(E_KNOWN);
    leave(E_FAILED);
}
static void failx(const char* sig, uint32_t pc, bool all, const char* fmt, ...) __attribute__((noreturn, format(printf, 4, 5)));
static void failx(const char* sig, uint32_t pc, bool all, const char* fmt, ...) {
    va_list a;
    va_start(a, fmt);
    vfail(sig, pc, all, fmt, a);
}
void fail(const char* sig, const char* fmt, ...) {
    va_list a;
    va_start(a, fmt);
    vfail(sig, 0, true, fmt, a);
}

static void trace(const char* fmt, ...) {
    if (!g->verbose) return;
    char b[800];
    va_list a;
    va_start(a, fmt);
    vsnprintf(b, sizeof b, fmt, a);
    va_end(a);
    Fiber* f = g->cur;
    uint32_t pcs[3] = {0, 0, 0};
    for (int i = (int)f->depth - 1, k = 0; i >= 0 && k < 3; i--)
        if (i < SSTACK && f->stack[i]) pcs[k++] = f->stack[i] - 1;
    dprintf(out_fd, "[%6u %10.3fms] P%d.T%d %s   {0x%x 0x%x 0x%x}\n", g->pos, g->now / 1e6, f->pid, f->id, b, pcs[0], pcs[1], pcs[2]);
}

// ------------------------------------------------------------------------------------------- hashing, objects
static inline void fmixh(uint64_t v) {
    Fiber* f = g->cur;
    uint64_t nh = mix(f->h, v);
    g->H += mix(f->id + 77, nh) - mix(f->id + 77, f->h);
    f->h = nh;
}

static inline bool checking() { return g && g->in_exec && !g->nocheck; }

static uintptr_t canon(uintptr_t a, size_t size, uint32_t pc, bool check);

static SyncObj* obj(ObjKind kind, uint64_t key) {
    uint64_t k = mix(kind, key) | 1;
    uint32_t i = k & (NOBJ - 1);
    for (;;) {
        SyncObj* o = &g->objs[i];
        if (o->gen != g->gen) {
            o->gen = g->gen;
            o->key = k;
            o->kind = kind;
            o->owner = -1;
            o->count = 0;
            o->ver = mix(k, 99);
            o->vcn = 0;
            if (++g->nobj_used > NOBJ * 3 / 4) engine_error("too many synchronisation objects");
            return o;
        }
        if (o->key == k) return o;
        i = (i + 1) & (NOBJ - 1);
    }
}
// identity of an object that lives in program memory; shared memory objects are identified by segment and offset
static uint64_t addr_key(const volatile void* p, size_t size, uint32_t pc) {
    uintptr_t a = (uintptr_t)p;
    uintptr_t c = canon(a, size, pc, true);
    return c ? c : a;
}

static inline void acquire(SyncObj* o) {
    Fiber* f = g->cur;
    if (o->vcn > f->vcn) {
        for (uint32_t i = f->vcn; i < o->vcn; i++) f->vc[i] = 0;
        f->vcn = o->vcn;
    }
    for (uint32_t i = 0; i < o->vcn; i++)
        if (o->vc[i] > f->vc[i]) f->vc[i] = o->vc[i];
}
static inline void release(SyncObj* o, bool replace = false) {
    Fiber* f = g->cur;
    if (replace) o->vcn = 0;
    if (f->vcn > o->vcn) {
        for (uint32_t i = o->vcn; i < f->vcn; i++) o->vc[i] = 0;
        o->vcn = f->vcn;
    }
    for (uint32_t i = 0; i < f->vcn; i++)
        if (f->vc[i] > o->vc[i]) o->vc[i] = f->vc[i];
    f->vc[f->id]++;
}
static inline void touch(SyncObj* o, uint64_t op) {  // ordered access to an object
    fmixh(mix(op, o->ver));
    o->ver = g->cur->h;
}
static inline void join_vc(Fiber* a, Fiber* b) {  // a acquires b's clock
    if (b->vcn > a->vcn) {
        for (uint32_t i = a->vcn; i < b->vcn; i++) a->vc[i] = 0;
        a->vcn = b->vcn;
    }
    for (uint32_t i = 0; i < b->vcn; i++)
        if (b->vc[i] > a->vc[i]) a->vc[i] = b->vc[i];
}

// ------------------------------------------------------------------------------------------- decisions
enum DKind { D_SCHED = 1, D_CHOOSE, D_DEV, D_FAULT, D_EINTR, D_SPUR, D_CRASH, D_SIGNAL };

static bool prefix_active() { return g->next_dev < g->node.n; }

static int decide(DKind kind, int n, int cost, bool lazy_n_known = true) {
    uint32_t p = g->pos++;
    uint16_t sig = (uint16_t)(kind * 4096 + (n & 4095));
    if (prefix_active()) {
        Dev& d = g->node.d[g->next_dev];
        if (d.pos == p) {
            g->next_dev++;
            if (d.sig != sig || d.alt >= n)
                engine_error("replay divergence at position %u: recorded sig %u alt %u, now sig %u", p, d.sig, d.alt, sig);
            if (cost) g->budget_left -= cost;
            trace("** choice %d of %d (kind %d)", d.alt, n, kind);
            if (kind != D_SCHED) fmixh(mix(7777 + kind, d.alt));
            return d.alt;
        }
        if (d.pos < p) engine_error("replay divergence: position %u was not a choice point (now at %u)", d.pos, p);
        return 0;
    }
    if (g->record && n > 1 && g->budget_left >= cost) {
        if (g->npoints >= NPOINT) engine_error("too many choice points in one execution");
        g->points[g->npoints++] = Point{p, (uint16_t)n, sig, (uint8_t)cost};
    }
    return 0;
}

// Looks up the current state; true if an equivalent state was already explored with at least this budget.
static bool cache_hit(int salt) {
    uint64_t k = mix(g->H, g->now);
    k = mix(k, (uint64_t)g->cur->id * 64 + g->policy * 4 + g->win + 1000 * salt);
    k = mix(k, g->cells + (uint64_t)(g->woken + 1) * 0x9E3779B97F4A7C15ull);
    k = mix(k, g->globalh);
    if (g->policy == 3)
        for (int i = 0; i < g->nf; i++)
            if (g->fibers[i].parked && !g->fibers[i].done && !g->fibers[i].dead) k = mix(k, i + 99);
    uint64_t tag = k & ~0xffull;
    if (!tag) tag = 0x100;
    uint64_t i = mix(k, 5) & (CACHE_N - 1);
    uint64_t b = (uint64_t)g->budget_left + 1;
    for (int t = 0; t < 12; t++, i = (i + 1) & (CACHE_N - 1)) {
        uint64_t e = __atomic_load_n(&cache[i], __ATOMIC_RELAXED);
        if (e == 0) {
            __atomic_store_n(&cache[i], tag | b, __ATOMIC_RELAXED);
            g->new_states++;
            return false;
        }
        if ((e & ~0xffull) == tag) {
            if ((e & 0xff) >= b) return true;
            __atomic_store_n(&cache[i], tag | b, __ATOMIC_RELAXED);
            return false;
        }
    }
    return false;
}

static bool alive(Fiber* f) { return f->used && !f->done && !f->dead; }

static bool enabled(Fiber* f) {
    switch (f->wk) {
        case W_NONE: case W_YIELD: return true;
        case W_MUTEX: return f->wobj->owner < 0 || (f->deadline >= 0 && g->now >= f->deadline);
        case W_RDLOCK: return f->wobj->owner < 0;
        case W_WRLOCK: return f->wobj->owner < 0 && f->wobj->count == 0;
        case W_COND: case W_FUTEX: return f->signalled || (f->deadline >= 0 && g->now >= f->deadline);
        case W_SEM: return f->wobj->count > 0 || (f->deadline >= 0 && g->now >= f->deadline);
        case W_JOIN: return g->fibers[f->wtarget].done;
        case W_SLEEP: return g->now >= f->deadline;
        case W_ONCE: case W_GUARD: return f->wobj->count != 1;
        case W_CELL: return *f->wcell >= f->wval || (f->deadline >= 0 && g->now >= f->deadline);
        case W_PROC: return g->procs[f->wtarget].main_done || g->procs[f->wtarget].dead;
    }
    return false;
}

static void do_kill(int pid) {
    Proc& p = g->procs[pid];
    if (p.dead) return;
    p.dead = true;
    trace("## process %d dies", pid);
    g->globalh = mix(g->globalh, mix(pid, 4242));
    for (int i = 0; i < g->nf; i++)
        if (g->fibers[i].pid == pid && g->fibers[i].used && !g->fibers[i].done) g->fibers[i].dead = true;
    for (int i = 0; i < MAXFD; i++)
        if (g->fds[i].used && g->fds[i].pid == pid) {
            g->fds[i].used = false;
            g->segs[g->fds[i].seg].refs--;
        }
    for (int i = 0; i < g->nseg * MAXVIEW; i++)
        if (g->views[i].live && g->views[i].pid == pid) {
            g->views[i].live = false;
            g->segs[g->views[i].seg].refs--;
        }
    for (int i = 0; i < g->nsem; i++) {
        g->sems[i].refs -= g->semh[pid][i].refs;
        g->semh[pid][i].refs = 0;
    }
    // (heap of the dead process is not accounted any more)
}

[[noreturn]] static void deadlock() {
    failx("deadlock", 0, true, "deadlock: no thread can run and no timer is pending");
}

// Lets the scheduler choose who runs next.  The current fiber has announced what it waits for (or W_NONE).
// On return the current fiber runs again and its wait is enabled.
static void schedule() {
    for (;;) {
        Fiber* me = g->cur;
        g->steps++;
        if (g->steps > (g->flags & REUSE_HEAP ? g->stepcap * 40 : g->stepcap)) failx("hang", 0, true, "no end after %llu scheduling steps", (unsigned long long)g->steps);
        bool me_ok = alive(me) && me->wk != W_YIELD && !me->parked && enabled(me);
        if (me_ok && me->spin > 3000) me_ok = false, me->spin = 0;  // fairness for spinning threads
        Fiber* def = nullptr;
        if (g->woken >= 0) {
            Fiber* w = &g->fibers[g->woken];
            g->woken = -1;
            if (g->policy == 1 && alive(w) && enabled(w)) def = w;
        }
        if (!def && me_ok) def = me;
        if (!def) {
            int n = g->nf;
            for (int k = 1; k <= n; k++) {
                int i = g->policy == 2 ? ((me->id - k) % n + n) % n : (me->id + k) % n;
                Fiber* f = &g->fibers[i];
                if (alive(f) && enabled(f)) {
                    if (!def || def->parked) def = f;
                    if (!def->parked) break;
                }
            }
            if (def) def->parked = false;
        }
        if (!def) {
            int64_t e = -1;
            for (int i = 0; i < g->nf; i++) {
                Fiber* f = &g->fibers[i];
                if (alive(f) && f->deadline >= 0 && f->wk != W_NONE && (e < 0 || f->deadline < e)) e = f->deadline;
            }
            if (e < 0) deadlock();
            if (e > g->horizon)
                failx("hang", 0, true, "still running after %.0f ms of virtual time: nothing but timers left", g->horizon / 1e6);
            if (e > g->now) g->now = e;
            continue;
        }
        // alternatives
        bool is_pos = prefix_active() && g->node.d[g->next_dev].pos == g->pos;
        bool rec = !prefix_active() && g->record;
        Fiber* next = def;
        if (rec && g->cache_on && g->win) {
            if (cache_hit(me_ok ? 1 : 2)) leave(E_PRUNED);
        }
        if (g->win && (is_pos || (rec && g->budget_left > 0))) {
            Fiber* alt[MAXF];
            int n = 1;
            alt[0] = def;
            for (int k = 0; k < g->nf; k++) {
                Fiber* f = &g->fibers[(me->id + k) % g->nf];
                if (f != def && alive(f) && enabled(f)) alt[n++] = f;
            }
            int nth = n;
            int64_t dl[6];
            Fiber* df[6];
            int nd = 0;
            if (g->flags & EARLY_TIMER) {
                int64_t last = g->now;
                while (nd < 6) {
                    int64_t e = -1;
                    Fiber* ef = nullptr;
                    for (int i = 0; i < g->nf; i++) {
                        Fiber* f = &g->fibers[i];
                        if (alive(f) && f->wk != W_NONE && f->deadline > last && (e < 0 || f->deadline < e)) e = f->deadline, ef = f;
                    }
                    if (e < 0 || e > g->horizon) break;
                    dl[nd] = e;
                    df[nd++] = ef;
                    last = e;
                }
            }
            int nk = 0, kp[MAXP];
            if (g->flags & CRASH)
                for (int i = 1; i < g->np; i++)
                    if (g->procs[i].used && g->procs[i].crashable && !g->procs[i].dead && !g->procs[i].main_done) kp[nk++] = i;
            int c = decide(D_SCHED, n + nd + nk, 1);
            if (c >= nth + nd) {
                do_kill(kp[c - nth - nd]);
                g->win = g->win;
                continue;
            }
            if (c >= nth) {
                g->now = dl[c - nth];
                next = df[c - nth];
                trace("** time passes");
                fmixh(31337);
            } else {
                next = alt[c];
                if (c && g->policy == 3) def->parked = true, next->parked = false;
            }
        } else
            g->pos++;
        if (next == me)
            me->spin++;
        else
            next->spin = 0;
        if (next->wk == W_YIELD) next->wk = W_NONE;
        switch_to(next);
        return;
    }
}

static inline void point(const char* what) {  // a scheduling point in front of an operation that cannot block
    Fiber* f = g->cur;
    f->wk = W_NONE;
    f->deadline = -1;
    f->what = what;
    schedule();
    fmixh(11);  // the thread has moved on: the state differs from the one before this point
}
// waits; returns true if the wait ended because of the deadline
static bool block(Wait w, SyncObj* o, int64_t deadline, const char* what) {
    Fiber* f = g->cur;
    f->wk = w;
    f->wobj = o;
    f->deadline = deadline;
    f->what = what;
    f->wseq = ++g->wseq;
    f->signalled = false;
    schedule();
    bool exp = false;
    switch (w) {
        case W_SEM: exp = o->count <= 0; break;
        case W_MUTEX: exp = o->owner >= 0; break;
        case W_COND: case W_FUTEX: exp = !f->signalled; break;
        default: break;
    }
    f->wk = W_NONE;
    f->deadline = -1;
    fmixh(exp ? 13 : 12);
    return exp;
}

// ------------------------------------------------------------------------------------------- fibers
static void finish_fiber() {
    Fiber* f = g->cur;
    for (int i = f->natexit - 1; i >= 0; i--) f->atexit_[i].f(f->atexit_[i].a);
    trace("thread ends");
    f->done = true;
    f->vc[f->id]++;
    f->wk = W_NONE;
    fmixh(0xdead);
    f->sig_h = f->h;
    g->procs[f->pid].nthreads--;
    f->spin = 1 << 30;
    schedule();
    engine_error("finished fiber scheduled");
}

static void fiber_main() noexcept {
    Fiber* f = g->cur;
    load_tls(f);
    f->ret = f->start(f->arg);
    finish_fiber();
}
static void fiber_tramp() { fiber_main(); }

static Fiber* new_fiber(void* (*start)(void*), void* arg, int pid) {
    if (g->nf >= MAXF) failx("too-many-threads", 0, false, "more than %d threads were created in one execution", MAXF);
    int id = g->nf++;
    Fiber* f = &g->fibers[id];
    Fiber* me = g->cur;
    f->id = id;
    f->pid = pid;
    f->used = true;
    f->done = f->dead = f->detached = f->joined = f->parked = false;
    f->wk = W_NONE;
    f->wobj = nullptr;
    f->deadline = -1;
    f->signalled = f->expired = false;
    f->start = start;
    f->arg = arg;
    f->ret = nullptr;
    f->what = "start";
    f->nchild = 0;
    f->depth = 0;
    f->spin = 0;
    f->natexit = 0;
    f->guards = 0;
    rawset(f->tsd, 0, sizeof f->tsd);
    f->save_errno = 0;
    rawset(f->eh, 0, 16);
    f->once_callable = nullptr;
    f->once_call = nullptr;
    rawset(f->tls, 0, sizeof f->tls);
    f->heap_top = HEAP0 + id * HEAP_PER + 4096;
    f->sig_h = 0;
    f->vcn = 0;
    if (me) {
        join_vc(f, me);
        me->vc[me->id]++;
        f->h = mix(me->h, 1000 + me->nchild++);
        fmixh(555);
    } else
        f->h = 12345;
    if (f->vcn < (uint32_t)id + 1) {
        for (uint32_t i = f->vcn; i <= (uint32_t)id; i++) f->vc[i] = 0;
        f->vcn = id + 1;
    }
    f->vc[id] = 1;
    g->H += mix(id + 77, f->h);
    uintptr_t top = STACK0 + (uintptr_t)(id + 1) * STACK_PER - 64;
    rawset((void*)(top - 4096), 0, 4096);
    top &= ~15ull;
    uint64_t* sp = (uint64_t*)top;
    *--sp = 0;                        // fake return address, keeps alignment
    *--sp = (uint64_t)(void*)fiber_tramp;
    for (int i = 0; i < 6; i++) *--sp = 0;
    f->sp = sp;
    g->procs[pid].nthreads++;
    g->woken = id;
    return f;
}

// ------------------------------------------------------------------------------------------- memory checking
static bool in_exe_data(uintptr_t a) { return a - (uintptr_t)__data_start < data_len; }

static uintptr_t canon(uintptr_t a, size_t size, uint32_t pc, bool check) {
    if (a - BASE < SPAN) return a;
    if (a - VIEW0 < VIEW_SPAN) {
        uintptr_t o = a - VIEW0;
        int vi = o / SEG_PER;
        uintptr_t off = o % SEG_PER;
        View& v = g->views[vi];
        int seg = vi / MAXVIEW;
        if (check) {
            if (!v.live) failx("use-after-unmap", pc, false, "access of %zu bytes to an unmapped view of shared memory %s", size, g->segs[seg].name);
            int64_t lim = v.len < g->segs[seg].size ? v.len : g->segs[seg].size;
            if ((int64_t)(off + size) > lim)
                failx("shm-out-of-bounds", pc, false, "access of %zu bytes at offset %lld of shared memory %s (mapped %lld, size %lld)", size,
                      (long long)off, g->segs[seg].name, (long long)v.len, (long long)g->segs[seg].size);
        }
        return SEG0 + seg * SEG_PER + off;
    }
    if (in_exe_data(a)) return GLOB0 + g->cur->pid * GLOB_PER + (a - (uintptr_t)__data_start);
    return 0;
}

static BlockHdr* find_block(uintptr_t a) {
    int fi = (a - HEAP0) / HEAP_PER;
    if (fi >= g->nf) return nullptr;
    uintptr_t p = HEAP0 + fi * HEAP_PER + 4096;
    while (p < g->fibers[fi].heap_top) {
        BlockHdr* h = (BlockHdr*)p;
        if (h->magic != 0xB10CB10C) return nullptr;
        uintptr_t e = p + (uintptr_t)h->total * 16;
        if (a >= p && a < e) return h;
        p = e;
    }
    return nullptr;
}

static void heap_fail(uintptr_t a, size_t size, bool write, uint32_t pc) __attribute__((noreturn));
static void heap_fail(uintptr_t a, size_t size, bool write, uint32_t pc) {
    BlockHdr* h = find_block(a);
    if (h && h->state == 2)
        failx("heap-use-after-free", pc, false,
              "%s of %zu bytes in released heap memory (block of %llu bytes)\n    allocated at 0x%x 0x%x 0x%x 0x%x\n    released at 0x%x 0x%x 0x%x", write ? "write" : "read",
              size, (unsigned long long)h->size, h->pcs[0], h->pcs[1], h->pcs[2], h->pcs[3], h->fpcs[0], h->fpcs[1], h->fpcs[2]);
    failx("heap-out-of-bounds", pc, false, "%s of %zu bytes outside any live heap block (nearest: block of %llu bytes, offset %lld)\n    allocated at 0x%x 0x%x 0x%x 0x%x",
          write ? "write" : "read", size, h ? (unsigned long long)h->size : 0ull, h ? (long long)(a - (uintptr_t)(h + 1)) : 0ll, h ? h->pcs[0] : 0, h ? h->pcs[1] : 0,
          h ? h->pcs[2] : 0, h ? h->pcs[3] : 0);
}

static inline void check_heap(uintptr_t a, size_t size, bool write, uint32_t pc) {
    uintptr_t e = a + size;
    uintptr_t c = a >> 3, last = (e - 1) >> 3;
    const uintptr_t b = HEAP0 >> 3;
    for (; c <= last; c++) {
        uint8_t s = AS[c - b];
        if (s == 8) continue;
        uintptr_t lim = (c << 3) + (s <= 8 ? s : 0);
        uintptr_t need = c == last ? e : (c + 1) << 3;
        if (s == 0 || s > 8 || need > lim) heap_fail(a, size, write, pc);
    }
}

enum { AF_W = 1, AF_ATOMIC = 2 };

static void race_fail(uintptr_t ca, const Slot& o, bool write, uint32_t pc) __attribute__((noreturn));
static void race_fail(uintptr_t ca, const Slot& o, bool write, uint32_t pc) {
    char sig[256];
    const char *a = fname(pc - 1), *b = fname(o.pc - 1);
    if (strcmp(a, b) > 0) std::swap(a, b);
    snprintf(sig, sizeof sig, "data-race:%.100s|%.100s", a, b);
    BlockHdr* h = nullptr;
    if (ca - HEAP0 < (uintptr_t)MAXF * HEAP_PER) h = find_block(ca);
    int of = (o.genfid & 255) - 1;
    failx(sig, pc, false, "data race: %s here is not ordered with the earlier %s%s by thread P%d.T%d at\n      0x%x\n%s%s    location 0x%llx%s", write ? "write" : "read",
          o.flags & AF_ATOMIC ? "atomic " : "", o.flags & AF_W ? "write" : "read", g->fibers[of].pid, of, o.pc - 1, "", "", (unsigned long long)ca,
          h ? " (heap block)" : ca - SEG0 < 4 * GB ? " (shared memory)" : "");
}

static inline void race_cell(uintptr_t ca, uint8_t mask, uint8_t fl, uint32_t pc) {
    Slot* s = RS + ((ca - BASE) >> 3) * 4;
    Fiber* f = g->cur;
    uint32_t me = (g->gen << 8) | (uint32_t)(f->id + 1);
    uint32_t ep = f->vc[f->id];
    if (s[0].genfid == me && s[0].epoch == ep && s[0].mask == mask && (s[0].flags == fl || (s[0].flags & AF_W && !(s[0].flags & AF_ATOMIC) && !(fl & AF_ATOMIC)))) return;
    int cand = -1;
    for (int i = 0; i < 4; i++) {
        Slot& o = s[i];
        if ((o.genfid >> 8) != (g->gen & 0xffffff)) {
            if (cand < 0 || cand > 3) cand = i;
            o.genfid = 0;
            o.mask = 0;
            continue;
        }
        if (!(o.mask & mask)) continue;
        int of = (o.genfid & 255) - 1;
        if (of == f->id) {
            if ((o.mask & ~mask) == 0 && (o.flags & AF_W) <= (fl & AF_W) && (o.flags & AF_ATOMIC) >= (fl & AF_ATOMIC)) cand = i;
            else if (o.mask == mask && o.flags == fl) cand = i;
            continue;
        }
        bool ordered = (uint32_t)of < f->vcn && o.epoch <= f->vc[of];
        if (ordered) {
            if ((fl & AF_W) && (o.mask & ~mask) == 0) cand = i;
            continue;
        }
        if (!(o.flags & AF_W) && !(fl & AF_W)) continue;
        if ((o.flags & AF_ATOMIC) && (fl & AF_ATOMIC)) continue;
        race_fail(ca, o, fl & AF_W, pc);
    }
    if (cand < 0) cand = 1 + (f->id + ep) % 3;
    if (cand != 0) {
        // keep the newest access in slot 0 for the fast path
        Slot t = s[0];
        s[cand] = t;
    }
    s[0].genfid = me;
    s[0].epoch = ep;
    s[0].pc = pc;
    s[0].mask = mask;
    s[0].flags = fl;
}

static void race_range(uintptr_t ca, size_t size, uint8_t fl, uint32_t pc) {
    if (g->flags & NO_RACES) return;
    uintptr_t e = ca + size;
    while (ca < e) {
        uintptr_t c = ca & ~7ull;
        unsigned lo = ca - c, hi = e - c < 8 ? (unsigned)(e - c) : 8;
        uint8_t mask = (uint8_t)((0xffu << lo) & (0xffu >> (8 - hi)));
        race_cell(c, mask, fl, pc);
        ca = c + 8;
    }
}

static void store_point();

static inline void access(uintptr_t a, size_t size, uint8_t fl, uint32_t pc) {
    if (!checking()) return;
    if (++g->accesses > 600000000ull) failx("hang", pc, true, "no end after %llu memory accesses", (unsigned long long)g->accesses);
    if (a - HEAP0 < (uintptr_t)MAXF * HEAP_PER) {
        check_heap(a, size, fl & AF_W, pc);
        race_range(a, size, fl, pc);
        return;
    }
    uintptr_t c = canon(a, size, pc, true);
    if (!c) {
        if (a < 65536) failx("null-dereference", pc, false, "%s of %zu bytes at address 0x%llx", fl & AF_W ? "write" : "read", size, (unsigned long long)a);
        return;
    }
    race_range(c, size, fl, pc);
    if ((fl & AF_W) && (g->flags & CRASH_STORES) && a - VIEW0 < VIEW_SPAN) store_point();
}
static void access_range(uintptr_t a, size_t size, uint8_t fl, uint32_t pc) {
    if (!size || !checking()) return;
    g->accesses += size < 65536 ? size / 8 : 8192;
    if (a - HEAP0 < (uintptr_t)MAXF * HEAP_PER) {
        check_heap(a, size, fl & AF_W, pc);
        race_range(a, size < 65536 ? size : 65536, fl, pc);
        return;
    }
    uintptr_t c = canon(a, size, pc, true);
    if (!c) {
        if (a < 65536) failx("null-dereference", pc, false, "%s of %zu bytes at address 0x%llx", fl & AF_W ? "write" : "read", size, (unsigned long long)a);
        return;
    }
    race_range(c, size < 65536 ? size : 65536, fl, pc);
    if ((fl & AF_W) && (g->flags & CRASH_STORES) && a - VIEW0 < VIEW_SPAN) store_point();
}

// A process may die just before a store to shared memory: the store and everything after it does not happen.
static void store_point() {
    int pid = g->cur->pid;
    Proc& p = g->procs[pid];
    if (!p.crashable || p.dead || !g->win) return;
    if (decide(D_CRASH, 2, 1)) {
        do_kill(pid);
        g->cur->spin = 0;
        schedule();
        engine_error("dead fiber scheduled");
    }
}

// ------------------------------------------------------------------------------------------- heap
static inline bool arena_mode() { return g && g->in_exec && !g->nocheck && !g->warm; }
static inline bool is_arena(void* p) { return (uintptr_t)p - HEAP0 < (uintptr_t)MAXF * HEAP_PER; }

static void capture(uint32_t* pcs, int n, uint32_t pc) {
    Fiber* f = g->cur;
    int k = 0;
    if (pc) pcs[k++] = pc - 1;
    for (int i = (int)f->depth - 1; i >= 0 && k < n; i--)
        if (i < SSTACK && f->stack[i]) pcs[k++] = f->stack[i] - 1;
    while (k < n) pcs[k++] = 0;
}

static void* arena_alloc(size_t size, size_t align, int kind, uint32_t pc) {
    Fiber* f = g->cur;
    if ((g->flags & MALLOC_FAULTS) && decide(D_FAULT, 2, 1)) {
        fmixh(0xFA);
        return nullptr;
    }
    if (align < 16) align = 16;
    if ((g->flags & REUSE_HEAP) && align == 16) {
        if (g->reuse_gen != g->gen) {
            rawset(g->reuse, 0, sizeof g->reuse);
            g->reuse_gen = g->gen;
        }
        size_t k = (64 + size + 16 + 15) / 16;
        if (k < 4096 && g->reuse[k]) {
            uintptr_t p = (uintptr_t)g->reuse[k];
            g->reuse[k] = *(void**)p;
            BlockHdr* b = (BlockHdr*)(p - 64);
            b->pid = f->pid;
            b->size = size;
            b->seq = f->guards ? 0 : ++g->aseq;  // 0: kept for ever
            b->state = 1;
            b->kind = kind;
            capture(b->pcs, 4, pc);
            g->nlive_blocks++;
            g->live_bytes += size;
            uint8_t* as = AS + ((p - HEAP0) >> 3);
            rawset(as, 0, b->total * 2 - 8);
            rawset(as, 8, size >> 3);
            if (size & 7) as[size >> 3] = size & 7;
            rawset((void*)p, 0xCB, size < 4096 ? size : 4096);
            return (void*)p;
        }
    }
    uintptr_t lim = HEAP0 + (uintptr_t)(f->id + 1) * HEAP_PER - 4096;
    uintptr_t h = f->heap_top;
    uintptr_t p = (h + 64 + align - 1) & ~(align - 1);
    if (size > HEAP_PER || p + size + 32 > lim) {
        if (size < HEAP_PER / 4) {
            // a scenario of this code does not come near this limit: something goes on without end
            failx("hang", pc, true, "no end: a thread allocated %zu MB", (size_t)(HEAP_PER >> 20));
        }
        return nullptr;
    }
    uintptr_t end = (p + size + 16 + 15) & ~15ull;
    BlockHdr* b = (BlockHdr*)h;
    b->magic = 0xB10CB10C;
    b->total = (end - h) / 16;
    if (p != h + 64) {  // aligned block: the real header sits right before the block, a filler in front
        BlockHdr* fill = b;
        fill->total = (p - 64 - h) / 16;
        fill->state = 2;
        fill->size = 0;
        fill->seq = 0;
        b = (BlockHdr*)(p - 64);
        b->magic = 0xB10CB10C;
        b->total = (end - (p - 64)) / 16;
    }
    b->pid = f->pid;
    b->size = size;
    b->seq = f->guards ? 0 : ++g->aseq;  // 0: kept for ever
    b->state = 1;
    b->kind = kind;
    capture(b->pcs, 4, pc);
    f->heap_top = end;
    g->nlive_blocks++;
    g->live_bytes += size;
    // shadow
    uint8_t* as = AS + ((h - HEAP0) >> 3);
    rawset(as, 0, (end - h) >> 3);
    as = AS + ((p - HEAP0) >> 3);
    rawset(as, 8, size >> 3);
    if (size & 7) as[size >> 3] = size & 7;
    rawset((void*)p, 0xCB, size < 4096 ? size : 4096);
    return (void*)p;
}

static void arena_free(void* ptr, int kind, uint32_t pc, bool from_exe) {
    uintptr_t p = (uintptr_t)ptr;
    BlockHdr* b = (BlockHdr*)(p - 64);
    if (!g->in_exec) return;
    int fi = (p - HEAP0) / HEAP_PER;
    if ((p & 15) || fi >= g->nf || p >= g->fibers[fi].heap_top || b->magic != 0xB10CB10C || (b->state != 1 && b->state != 2))
        failx("bad-free", pc, false, "free of something that is not a heap block");
    if (b->state == 2)
        failx("double-free", pc, false, "heap block of %llu bytes released twice\n    first released at 0x%x 0x%x 0x%x", (unsigned long long)b->size, b->fpcs[0], b->fpcs[1], b->fpcs[2]);
    if (b->kind != (uint32_t)kind)
        failx("alloc-mismatch", pc, false, "memory from %s released with %s", b->kind == 0 ? "malloc" : b->kind == 1 ? "new" : "new[]", kind == 0 ? "free" : kind == 1 ? "delete" : "delete[]");
    if (from_exe && !g->nocheck) race_range(p, b->size < 16384 ? b->size : 16384, AF_W, pc);
    b->state = 2;
    capture(b->fpcs, 3, pc);
    g->nlive_blocks--;
    g->live_bytes -= b->size;
    rawset(AS + ((p - HEAP0) >> 3), 0xFD, (b->size + 7) >> 3);
    if ((g->flags & REUSE_HEAP) && g->reuse_gen == g->gen && b->total < 4096 && b->size >= 8) {
        *(void**)p = g->reuse[b->total];
        g->reuse[b->total] = (void*)p;
    }
}

static inline bool exe_pc(uint32_t pc) { return pc > (uint32_t)(uintptr_t)__executable_start && pc < (uint32_t)(uintptr_t)etext; }

}  // namespace vmc
using namespace vmc;

ENTRY void* malloc(size_t n) {
    if (arena_mode()) {
        void* p = arena_alloc(n, 16, 0, PC());
        if (!p) errno = ENOMEM;
        return p;
    }
    return __libc_malloc(n);
}
ENTRY void* calloc(size_t a, size_t b) {
    if (arena_mode()) {
        if (b && a > (size_t)-1 / b) return nullptr;
        void* p = arena_alloc(a * b, 16, 0, PC());
        if (p) rawset(p, 0, a * b);
        return p;
    }
    return __libc_calloc(a, b);
}
ENTRY void free(void* p) {
    if (!p) return;
    if (is_arena(p)) {
        uintptr_t ra = (uintptr_t)__builtin_return_address(0);
        bool exe = ra < 0x100000000ull && exe_pc((uint32_t)ra);
        arena_free(p, 0, exe ? (uint32_t)ra : 0, exe);
    } else
        __libc_free(p);
}
ENTRY void* realloc(void* p, size_t n) {
    if (p && is_arena(p)) {
        if (!g->in_exec) return nullptr;
        BlockHdr* b = (BlockHdr*)((uintptr_t)p - 64);
        void* q = arena_alloc(n, 16, 0, PC());
        if (!q) return nullptr;
        uint64_t c = b->size < n ? b->size : n;
        rawcpy(q, p, c);
        arena_free(p, 0, PC(), true);
        return q;
    }
    if (!p) {
        if (arena_mode()) return arena_alloc(n, 16, 0, PC());
        return __libc_malloc(n);
    }
    return __libc_realloc(p, n);
}
ENTRY void* memalign(size_t al, size_t n) {
    if (arena_mode()) return arena_alloc(n, al, 0, PC());
    return __libc_memalign(al, n);
}
ENTRY void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
ENTRY int posix_memalign(void** r, size_t al, size_t n) {
    *r = memalign(al, n);
    return *r ? 0 : ENOMEM;
}
ENTRY size_t malloc_usable_size(void* p) {
    if (p && is_arena(p)) return ((BlockHdr*)((uintptr_t)p - 64))->size;
    return 0;
}

static void* do_new(size_t n, size_t al, int kind, uint32_t pc, bool nothrow) {
    void* p;
    if (arena_mode())
        p = arena_alloc(n, al, kind, pc);
    else
        p = al > 16 ? __libc_memalign(al, n ? n : 1) : __libc_malloc(n ? n : 1);
    if (!p && !nothrow) throw std::bad_alloc();
    return p;
}
static void do_delete(void* p, int kind, uintptr_t ra) {
    if (!p) return;
    if (is_arena(p)) {
        bool exe = ra < 0x100000000ull && exe_pc((uint32_t)ra);
        arena_free(p, kind, exe ? (uint32_t)ra : 0, exe);
    } else
        __libc_free(p);
}
#define RA ((uintptr_t)__builtin_return_address(0))
void* operator new(size_t n) { return do_new(n, 16, 1, PC(), false); }
void* operator new[](size_t n) { return do_new(n, 16, 2, PC(), false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16, 1, PC(), true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16, 2, PC(), true); }
void* operator new(size_t n, std::align_val_t a) { return do_new(n, (size_t)a, 1, PC(), false); }
void* operator new[](size_t n, std::align_val_t a) { return do_new(n, (size_t)a, 2, PC(), false); }
void operator delete(void* p) noexcept { do_delete(p, 1, RA); }
void operator delete[](void* p) noexcept { do_delete(p, 2, RA); }
void operator delete(void* p, size_t) noexcept { do_delete(p, 1, RA); }
void operator delete[](void* p, size_t) noexcept { do_delete(p, 2, RA); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_delete(p, 1, RA); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_delete(p, 2, RA); }
void operator delete(void* p, std::align_val_t) noexcept { do_delete(p, 1, RA); }
void operator delete[](void* p, std::align_val_t) noexcept { do_delete(p, 2, RA); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { do_delete(p, 1, RA); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_delete(p, 2, RA); }

#include "kernel.inc"
#include "hooks.inc"
#include "explorer.inc"
