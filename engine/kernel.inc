// Virtual kernel: threads, locks, semaphores, shared memory, clocks.   (included by engine.cpp)
namespace vmc {

static inline bool active() { return g && g->in_exec && !g->nocheck; }

// ---- clocks
static int64_t mono() { return g->now; }
static int64_t real() { return g->now + g->rt_off; }
static int64_t read_clock(bool rt) {
    Fiber* f = g->cur;
    // a thread that does nothing but read the clock sees time pass
    if (++g->clockreads % 8 == 0) g->now += 1000;
    fmixh(mix(88, g->now));
    (void)f;
    return rt ? real() : mono();
}
static int64_t ts_ns(const timespec* t) {
    if (t->tv_sec > 4000000000ll) return INT64_MAX / 2;
    if (t->tv_sec < -4000000000ll) return -1000000000ll;
    return t->tv_sec * 1000000000ll + t->tv_nsec;
}
static int64_t abs_deadline(clockid_t c, const timespec* t) {
    int64_t v = ts_ns(t);
    if (c == CLOCK_REALTIME) v -= g->rt_off;
    if (v < 0) v = 0;
    return v;
}
static bool bad_ns(const timespec* t) { return t->tv_nsec < 0 || t->tv_nsec >= 1000000000; }

static void do_sleep(int64_t ns) {
    trace("sleep %.3f ms", ns / 1e6);
    if (ns <= 0) {
        Fiber* f = g->cur;
        f->wk = W_YIELD;
        f->deadline = -1;
        f->what = "yield";
        if (++f->nchild % 16 == 0) g->now += 1000;
        schedule();
        f->wk = W_NONE;
        fmixh(mix(89, g->now));
        return;
    }
    block(W_SLEEP, nullptr, g->now + ns, "sleep");
    fmixh(mix(89, g->now));
}

// ---- mutexes
static SyncObj* mobj(pthread_mutex_t* m, uint32_t pc) { return obj(O_MUTEX, addr_key(m, 8, pc)); }

static void chk(const void* p, size_t n, uint32_t pc) {
    uintptr_t a = (uintptr_t)p;
    if (a - HEAP0 < (uintptr_t)MAXF * HEAP_PER)
        check_heap(a, n, false, pc);
    else
        canon(a, n, pc, true);
}

static int mutex_lock(pthread_mutex_t* m, int64_t deadline, uint32_t pc, bool do_sched = true) {
    chk(m, 8, pc);
    SyncObj* o = mobj(m, pc);
    Fiber* f = g->cur;
    int kind = m->__data.__kind & 3;
    if (o->owner == f->id) {
        if (kind == PTHREAD_MUTEX_RECURSIVE) {
            o->count++;
            return 0;
        }
        if (kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    }
    trace("lock %p%s", (void*)m, o->owner >= 0 ? " (busy)" : "");
    if (block(W_MUTEX, o, deadline, "mutex lock")) {
        fmixh(mix(90, g->now));
        return ETIMEDOUT;
    }
    o->owner = f->id;
    o->count = 1;
    acquire(o);
    touch(o, 1);
    return 0;
}
static int mutex_unlock(pthread_mutex_t* m, uint32_t pc) {
    chk(m, 8, pc);
    SyncObj* o = mobj(m, pc);
    Fiber* f = g->cur;
    if (o->owner != f->id) failx("bad-unlock", pc, false, "unlock of a mutex that the thread does not hold (owner %d)", o->owner);
    if (--o->count > 0) return 0;
    trace("unlock %p", (void*)m);
    release(o, true);
    touch(o, 2);
    o->owner = -1;
    if (g->policy == 1)
        for (int i = 0; i < g->nf; i++)
            if (alive(&g->fibers[i]) && g->fibers[i].wk == W_MUTEX && g->fibers[i].wobj == o) {
                g->woken = i;
                break;
            }
    return 0;
}

// ---- conditions
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline, uint32_t pc) {
    chk(c, 8, pc);
    SyncObj* o = obj(O_COND, addr_key(c, 8, pc));
    Fiber* f = g->cur;
    bool spur = false;
    if (g->flags & SPURIOUS) spur = decide(D_SPUR, 2, 1);
    trace("cond wait %p%s", (void*)c, deadline >= 0 ? " (timed)" : "");
    mutex_unlock(m, pc);
    touch(o, 3);
    int r = 0;
    if (spur) {
        fmixh(91);
        point("spurious wake-up");
    } else {
        bool exp = block(W_COND, o, deadline, "condition wait");
        if (exp) {
            r = ETIMEDOUT;
            fmixh(mix(92, g->now));
        } else
            fmixh(mix(93, f->sig_h));
    }
    mutex_lock(m, -1, pc);
    return r;
}
static int cond_signal(pthread_cond_t* c, bool all, uint32_t pc) {
    chk(c, 8, pc);
    SyncObj* o = obj(O_COND, addr_key(c, 8, pc));
    point("condition signal");
    touch(o, 4);
    Fiber* w[MAXF];
    int n = 0;
    for (int i = 0; i < g->nf; i++) {
        Fiber* f = &g->fibers[i];
        if (alive(f) && f->wk == W_COND && f->wobj == o && !f->signalled) w[n++] = f;
    }
    for (int i = 1; i < n; i++)  // by waiting time
        for (int j = i; j > 0 && w[j]->wseq < w[j - 1]->wseq; j--) std::swap(w[j], w[j - 1]);
    trace("cond %s %p, %d waiting", all ? "broadcast" : "signal", (void*)c, n);
    if (n == 0) return 0;
    if (all) {
        for (int i = 0; i < n; i++) w[i]->signalled = true, w[i]->sig_h = g->cur->h;
        g->woken = w[0]->id;
    } else {
        int i = n > 1 ? decide(D_SIGNAL, n, 1) : 0;
        w[i]->signalled = true;
        w[i]->sig_h = g->cur->h;
        g->woken = w[i]->id;
    }
    return 0;
}

// ---- semaphores
static SyncObj* sem_of(sem_t* s, uint32_t pc, int* idx) {
    uintptr_t a = (uintptr_t)s;
    *idx = -1;
    if (a - SEMH0 < (uintptr_t)MAXP * MAXSEM * 64) {
        int k = (a - SEMH0) / 64;
        int pid = k / MAXSEM, i = k % MAXSEM;
        if (g->semh[pid][i].refs <= 0 || pid != g->cur->pid)
            failx("semaphore-use-after-close", pc, false, "use of the closed named semaphore %s", g->sems[i].name);
        *idx = i;
        return g->sems[i].obj;
    }
    if (a < 65536) failx("null-semaphore", pc, false, "semaphore operation on address 0x%llx", (unsigned long long)a);
    chk(s, sizeof(sem_t), pc);
    return obj(O_SEM, mix(addr_key(s, 8, pc), 7));
}
static const char* sname(int idx) { return idx >= 0 ? g->sems[idx].name : "unnamed"; }

static int do_sem_wait(sem_t* s, int64_t deadline, bool invalid, uint32_t pc) {
    int idx;
    SyncObj* o = sem_of(s, pc, &idx);
    if (invalid) {
        errno = EINVAL;
        return -1;
    }
    trace("sem_wait %s value %d%s", sname(idx), o->count, deadline >= 0 ? " (timed)" : "");
    if ((g->flags & EINTR_SEM) && decide(D_EINTR, 2, 1)) {
        fmixh(94);
        point("interrupted semaphore wait");
        errno = EINTR;
        return -1;
    }
    if (block(W_SEM, o, deadline, "semaphore wait")) {
        fmixh(mix(95, g->now));
        trace("sem_wait %s timed out", sname(idx));
        errno = ETIMEDOUT;
        return -1;
    }
    o = sem_of(s, pc, &idx);
    o->count--;
    acquire(o);
    touch(o, 5);
    return 0;
}

static KSem* find_sem(const char* n, int* idx) {
    for (int i = 0; i < g->nsem; i++)
        if (g->sems[i].used && g->sems[i].linked && !strcmp(g->sems[i].name, n)) {
            *idx = i;
            return &g->sems[i];
        }
    return nullptr;
}
static int norm_name(const char* name, char* out, bool sem) {
    const char* p = name;
    while (*p == '/') p++;
    size_t n = strlen(p);
    if (n == 0) return EINVAL;
    if (strchr(p, '/')) return sem ? EINVAL : EINVAL;
    if (n > (sem ? 251u : 255u)) return ENAMETOOLONG;
    memcpy(out, p, n + 1);
    return 0;
}
static bool os_fault(const char* what) {
    if (!(g->flags & OS_FAULTS) || !g->win) return false;
    if (!decide(D_FAULT, 2, 1)) return false;
    trace("** the operating system refuses %s", what);
    fmixh(mix(96, 1));
    g->fault_count++;
    return true;
}
static SyncObj* nobj(const char* n, bool sem) { return obj(O_NAME, mix(hstr(n), sem)); }

static sem_t* do_sem_open(const char* name, int oflag, unsigned value, uint32_t pc) {
    char n[256];
    int e = norm_name(name, n, true);
    if (e) {
        errno = e;
        return SEM_FAILED;
    }
    SyncObj* no = nobj(n, true);
    point("sem_open");
    acquire(no);
    int idx = -1;
    KSem* k = find_sem(n, &idx);
    trace("sem_open %s%s%s: %s", n, oflag & O_CREAT ? " O_CREAT" : "", oflag & O_EXCL ? " O_EXCL" : "", k ? "exists" : "new");
    touch(no, 6);
    release(no);
    if (k && (oflag & O_CREAT) && (oflag & O_EXCL)) {
        errno = EEXIST;
        return SEM_FAILED;
    }
    if (!k && !(oflag & O_CREAT)) {
        errno = ENOENT;
        return SEM_FAILED;
    }
    if (os_fault("sem_open")) {
        errno = EMFILE;
        return SEM_FAILED;
    }
    if (!k) {
        if (value > 0x7fffffffu) {
            errno = EINVAL;
            return SEM_FAILED;
        }
        if (g->nsem < MAXSEM)
            idx = g->nsem++;
        else
            for (idx = 0; idx < MAXSEM && (g->sems[idx].unnamed || g->sems[idx].linked || g->sems[idx].refs > 0); idx++) {
            }
        if (idx >= MAXSEM) engine_error("too many semaphores in one execution");
        k = &g->sems[idx];
        k->used = k->linked = true;
        k->unnamed = false;
        k->refs = 0;
        strcpy(k->name, n);
        k->obj = obj(O_SEM, mix(no->ver, 8));
        k->obj->count = value;
        release(k->obj);
    }
    acquire(k->obj);
    SemHandle& h = g->semh[g->cur->pid][idx];
    h.refs++;
    k->refs++;
    return (sem_t*)(SEMH0 + ((uintptr_t)g->cur->pid * MAXSEM + idx) * 64);
}

// ---- shared memory
static int find_seg(const char* n) {
    for (int i = 0; i < g->nseg; i++)
        if (g->segs[i].used && g->segs[i].linked && !strcmp(g->segs[i].name, n)) return i;
    return -1;
}
static void map_seg(int i) {
    if (g->segs_mapped[i]) return;
    int fd = syscall(SYS_memfd_create, "vmc", 0);
    if (fd < 0) engine_error("memfd_create: %d", errno);
    if (syscall(SYS_ftruncate, fd, SEG_PER)) engine_error("ftruncate memfd");
    void* p = (void*)syscall(SYS_mmap, SEG0 + i * SEG_PER, SEG_PER, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED | MAP_NORESERVE, (long)fd, 0L);
    if (p == MAP_FAILED) engine_error("mmap segment");
    g->seg_fd[i] = fd;
    g->segs_mapped[i] = 1;
    g->seg_views[i] = 0;
}
static void map_view(int seg, int v) {
    while (g->seg_views[seg] <= v) {
        int k = g->seg_views[seg]++;
        void* p = (void*)syscall(SYS_mmap, VIEW0 + ((uintptr_t)seg * MAXVIEW + k) * SEG_PER, SEG_PER, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED | MAP_NORESERVE, (long)g->seg_fd[seg], 0L);
        if (p == MAP_FAILED) engine_error("mmap view");
    }
}
static void unmap_all_segs() {  // after fork: segments must not be shared between workers
    for (int i = 0; i < MAXSEG; i++)
        if (g->segs_mapped[i]) {
            syscall(SYS_close, g->seg_fd[i]);
            g->segs_mapped[i] = 0;
            g->seg_views[i] = 0;
        }
}
static int new_seg(const char* n) {
    int i = g->nseg;
    if (i >= MAXSEG)
        for (i = 0; i < MAXSEG && (g->segs[i].linked || g->segs[i].refs > 0); i++) {
        }
    else
        g->nseg++;
    if (i >= MAXSEG) engine_error("too many shared memory segments in one execution");
    map_seg(i);
    Seg& s = g->segs[i];
    s.used = s.linked = true;
    strcpy(s.name, n);
    s.size = 0;
    s.refs = 0;
    s.nviews = 0;
    for (int v = 0; v < MAXVIEW; v++) g->views[i * MAXVIEW + v].live = false;
    return i;
}
static void seg_resize(int i, int64_t n) {
    Seg& s = g->segs[i];
    uint8_t* p = (uint8_t*)(SEG0 + i * SEG_PER);
    if (n > s.size) {
        if (n - s.size > 2 * (int64_t)MB) {
            madvise(p, SEG_PER, MADV_REMOVE);
            if (s.size) engine_error("growing a large segment is not supported");
        } else
            rawset(p + s.size, 0, n - s.size);
    }
    s.size = n;
}
static Fd* fd_of(int fd) {
    if (fd < 1000 || fd >= 1000 + MAXFD) return nullptr;
    Fd* f = &g->fds[fd - 1000];
    if (!f->used || f->pid != g->cur->pid) return nullptr;
    return f;
}
static int new_fd(int seg) {
    for (int i = 0; i < MAXFD; i++)
        if (!g->fds[i].used) {
            g->fds[i].used = true;
            g->fds[i].pid = g->cur->pid;
            g->fds[i].seg = seg;
            g->segs[seg].refs++;
            return 1000 + i;
        }
    engine_error("too many file descriptors");
}

}  // namespace vmc

// ============================================================================================ interposed functions
typedef int (*create_fn)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);

ENTRY int pthread_create(pthread_t* t, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
    if (!active()) engine_error("pthread_create outside an execution");
    Fiber* f = new_fiber(fn, arg, g->cur->pid);
    if (attr) {
        int ds = 0;
        pthread_attr_getdetachstate(attr, &ds);
        f->detached = ds == PTHREAD_CREATE_DETACHED;
    }
    *t = 0x7000 + f->id;
    trace("creates thread T%d", f->id);
    point("thread creation");
    return 0;
}
static Fiber* pth(pthread_t t) {
    long i = (long)t - 0x7000;
    if (i < 0 || i >= g->nf) return nullptr;
    return &g->fibers[i];
}
ENTRY int pthread_join(pthread_t t, void** r) {
    if (!active()) return 0;
    Fiber* f = pth(t);
    if (!f || f->joined || f->detached) failx("bad-join", PC(), false, "join of a thread that is not joinable");
    if (f == g->cur) return EDEADLK;
    trace("join T%d", f->id);
    g->cur->wtarget = f->id;
    block(W_JOIN, nullptr, -1, "thread join");
    f->joined = true;
    join_vc(g->cur, f);
    fmixh(mix(97, f->h));
    if (r) *r = f->ret;
    return 0;
}
ENTRY int pthread_detach(pthread_t t) {
    if (!active()) return 0;
    Fiber* f = pth(t);
    if (!f || f->joined || f->detached) failx("bad-detach", PC(), false, "detach of a thread that is not joinable");
    f->detached = true;
    return 0;
}
ENTRY pthread_t pthread_self() {
    if (!g || !g->in_exec) return 1;
    return 0x7000 + g->cur->id;
}
ENTRY int pthread_setname_np(pthread_t, const char*) { return 0; }

ENTRY int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    rawset(m, 0, sizeof *m);
    if (a) {
        int t = 0;
        pthread_mutexattr_gettype(a, &t);
        m->__data.__kind = t;
    }
    if (active()) {
        SyncObj* o = mobj(m, PC());
        o->owner = -1;
        o->count = 0;
    }
    return 0;
}
ENTRY int pthread_mutex_destroy(pthread_mutex_t* m) {
    if (active()) {
        SyncObj* o = mobj(m, PC());
        if (o->owner >= 0) failx("destroy-locked-mutex", PC(), false, "a locked mutex is destroyed");
    }
    return 0;
}
ENTRY int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!active()) return 0;
    return mutex_lock(m, -1, PC());
}
ENTRY int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!active()) return 0;
    chk(m, 8, PC());
    point("mutex trylock");
    SyncObj* o = mobj(m, PC());
    if (o->owner == g->cur->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) {
        o->count++;
        return 0;
    }
    touch(o, 7);
    if (o->owner >= 0) return EBUSY;
    o->owner = g->cur->id;
    o->count = 1;
    acquire(o);
    return 0;
}
ENTRY int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) {
    if (!active()) return 0;
    if (bad_ns(t)) return EINVAL;
    return mutex_lock(m, abs_deadline(CLOCK_REALTIME, t), PC());
}
ENTRY int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* t) {
    if (!active()) return 0;
    if (bad_ns(t)) return EINVAL;
    return mutex_lock(m, abs_deadline(c, t), PC());
}
ENTRY int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!active()) return 0;
    return mutex_unlock(m, PC());
}

ENTRY int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) {
    rawset(c, 0, sizeof *c);
    if (a) {
        clockid_t k = CLOCK_REALTIME;
        pthread_condattr_getclock(a, &k);
        ((int*)c)[10] = k == CLOCK_MONOTONIC;
    }
    return 0;
}
ENTRY int pthread_cond_destroy(pthread_cond_t* c) {
    if (active()) {
        SyncObj* o = obj(O_COND, addr_key(c, 8, PC()));
        for (int i = 0; i < g->nf; i++)
            if (alive(&g->fibers[i]) && g->fibers[i].wk == W_COND && g->fibers[i].wobj == o && !g->fibers[i].signalled)
                failx("destroy-waited-condition", PC(), true, "a condition variable is destroyed while a thread waits on it");
    }
    return 0;
}
ENTRY int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!active()) return 0;
    return cond_wait(c, m, -1, PC());
}
ENTRY int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) {
    if (!active()) return 0;
    if (bad_ns(t)) return EINVAL;
    return cond_wait(c, m, abs_deadline(((int*)c)[10] ? CLOCK_MONOTONIC : CLOCK_REALTIME, t), PC());
}
ENTRY int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) {
    if (!active()) return 0;
    if (bad_ns(t)) return EINVAL;
    return cond_wait(c, m, abs_deadline(k, t), PC());
}
ENTRY int pthread_cond_signal(pthread_cond_t* c) {
    if (!active()) return 0;
    return cond_signal(c, false, PC());
}
ENTRY int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!active()) return 0;
    return cond_signal(c, true, PC());
}

ENTRY int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) {
    rawset(l, 0, sizeof *l);
    return 0;
}
ENTRY int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
ENTRY int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
    if (!active()) return 0;
    chk(l, 8, PC());
    SyncObj* o = obj(O_RW, addr_key(l, 8, PC()));
    block(W_RDLOCK, o, -1, "read lock");
    o->count++;
    acquire(o);
    touch(o, 8);
    return 0;
}
ENTRY int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
    if (!active()) return 0;
    chk(l, 8, PC());
    SyncObj* o = obj(O_RW, addr_key(l, 8, PC()));
    block(W_WRLOCK, o, -1, "write lock");
    o->owner = g->cur->id;
    acquire(o);
    touch(o, 9);
    return 0;
}
ENTRY int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
    if (!active()) return 0;
    SyncObj* o = obj(O_RW, addr_key(l, 8, PC()));
    point("read trylock");
    touch(o, 8);
    if (o->owner >= 0) return EBUSY;
    o->count++;
    acquire(o);
    return 0;
}
ENTRY int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
    if (!active()) return 0;
    SyncObj* o = obj(O_RW, addr_key(l, 8, PC()));
    point("write trylock");
    touch(o, 9);
    if (o->owner >= 0 || o->count) return EBUSY;
    o->owner = g->cur->id;
    acquire(o);
    return 0;
}
ENTRY int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const timespec*) { return pthread_rwlock_rdlock(l); }
ENTRY int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const timespec*) { return pthread_rwlock_wrlock(l); }
ENTRY int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t, const timespec*) { return pthread_rwlock_rdlock(l); }
ENTRY int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t, const timespec*) { return pthread_rwlock_wrlock(l); }
ENTRY int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    if (!active()) return 0;
    chk(l, 8, PC());
    SyncObj* o = obj(O_RW, addr_key(l, 8, PC()));
    release(o);
    touch(o, 10);
    if (o->owner == g->cur->id)
        o->owner = -1;
    else if (o->count > 0)
        o->count--;
    else
        failx("bad-unlock", PC(), false, "unlock of a read-write lock that is not held");
    return 0;
}

ENTRY int pthread_once(pthread_once_t* c, void (*fn)()) {
    if (!active()) {
        if (*(int*)c != 2) {
            *(int*)c = 2;
            fn();
        }
        return 0;
    }
    chk(c, 4, PC());
    SyncObj* o = obj(O_ONCE, addr_key(c, 4, PC()));
    for (;;) {
        if (o->count == 1) {
            point("once");
            block(W_ONCE, o, -1, "once");
            continue;
        }
        if (*(volatile int*)c == 2) {
            acquire(o);
            fmixh(mix(98, o->ver));
            return 0;
        }
        o->count = 1;
        touch(o, 11);
        try {
            fn();
        } catch (...) {
            o->count = 0;
            throw;
        }
        o->count = 0;
        *(volatile int*)c = 2;
        touch(o, 12);
        release(o);
        return 0;
    }
}

// function-local statics
extern "C" {
int __cxa_guard_acquire(__cxxabiv1::__guard* gd) {
    char* b = (char*)gd;
    if (b[0]) {
        if (active()) acquire(obj(O_ATOMIC, addr_key(gd, 1, PC())));
        return 0;
    }
    if (!active()) {
        b[1] = 1;
        return 1;
    }
    SyncObj* o = obj(O_ATOMIC, addr_key(gd, 1, PC()));
    for (;;) {
        if (o->count == 1) {
            block(W_GUARD, o, -1, "initialisation of a static variable");
            continue;
        }
        if (b[0]) {
            acquire(o);
            fmixh(mix(99, o->ver));
            return 0;
        }
        o->count = 1;
        touch(o, 13);
        b[1] = 1;
        g->cur->guards++;
        return 1;
    }
}
void __cxa_guard_release(__cxxabiv1::__guard* gd) {
    char* b = (char*)gd;
    b[0] = 1;
    b[1] = 0;
    if (!active()) return;
    if (g->cur->guards > 0) g->cur->guards--;
    SyncObj* o = obj(O_ATOMIC, addr_key(gd, 1, PC()));
    o->count = 0;
    touch(o, 14);
    release(o);
}
void __cxa_guard_abort(__cxxabiv1::__guard* gd) {
    char* b = (char*)gd;
    b[1] = 0;
    if (!active()) return;
    if (g->cur->guards > 0) g->cur->guards--;
    obj(O_ATOMIC, addr_key(gd, 1, PC()))->count = 0;
}
// what a static variable registers belongs to the execution: the processes of an execution do not run their exit handlers
int __cxa_atexit(void (*f)(void*), void* a, void* d) {
    static int (*real)(void (*)(void*), void*, void*);
    if (active()) return 0;
    if (!real) real = (decltype(real))dlsym(RTLD_NEXT, "__cxa_atexit");
    return real ? real(f, a, d) : 0;
}
int __cxa_thread_atexit(void (*f)(void*), void* a, void*) {
    if (!active()) return 0;
    Fiber* c = g->cur;
    if (c->natexit >= 16) engine_error("too many thread exit handlers");
    c->atexit_[c->natexit].f = f;
    c->atexit_[c->natexit++].a = a;
    return 0;
}
}

// ---- semaphores
ENTRY sem_t* sem_open(const char* name, int oflag, ...) {
    unsigned value = 0;
    if (oflag & O_CREAT) {
        va_list a;
        va_start(a, oflag);
        (void)va_arg(a, int);
        value = va_arg(a, unsigned);
        va_end(a);
    }
    if (!active()) return SEM_FAILED;
    return do_sem_open(name, oflag, value, PC());
}
ENTRY int sem_close(sem_t* s) {
    if (!active()) return 0;
    int idx;
    sem_of(s, PC(), &idx);
    if (idx < 0) {
        errno = EINVAL;
        return -1;
    }
    trace("sem_close %s", sname(idx));
    SyncObj* no = nobj(g->sems[idx].name, true);
    fmixh(mix(100, no->ver));
    g->semh[g->cur->pid][idx].refs--;
    g->sems[idx].refs--;
    for (int i = 0; i < g->nf; i++) {
        Fiber* f = &g->fibers[i];
        if (alive(f) && f != g->cur && f->pid == g->cur->pid && f->wk == W_SEM && f->wobj == g->sems[idx].obj && g->semh[g->cur->pid][idx].refs == 0)
            failx("semaphore-closed-in-use", PC(), true, "named semaphore %s is closed while a thread of the process waits on it", g->sems[idx].name);
    }
    return 0;
}
ENTRY int sem_unlink(const char* name) {
    if (!active()) return 0;
    char n[256];
    if (norm_name(name, n, true)) {
        errno = ENOENT;
        return -1;
    }
    SyncObj* no = nobj(n, true);
    point("sem_unlink");
    acquire(no);
    touch(no, 15);
    release(no);
    int idx;
    KSem* k = find_sem(n, &idx);
    trace("sem_unlink %s: %s", n, k ? "ok" : "does not exist");
    if (!k) {
        errno = ENOENT;
        return -1;
    }
    k->linked = false;
    return 0;
}
ENTRY int sem_init(sem_t* s, int, unsigned v) {
    if (!active()) return 0;
    chk(s, sizeof(sem_t), PC());
    SyncObj* o = obj(O_SEM, mix(addr_key(s, 8, PC()), 7));
    o->count = v;
    touch(o, 16);
    release(o);
    return 0;
}
ENTRY int sem_destroy(sem_t*) { return 0; }
ENTRY int sem_post(sem_t* s) {
    if (!active()) return 0;
    int idx;
    SyncObj* o = sem_of(s, PC(), &idx);
    point("semaphore post");
    o = sem_of(s, PC(), &idx);
    if (o->count == 0x7fffffff) {
        errno = EOVERFLOW;
        return -1;
    }
    o->count++;
    trace("sem_post %s -> %d", sname(idx), o->count);
    if (o->count > 1) {
        const char* nm = sname(idx);
        size_t l = strlen(nm);
        if (l > 10 && !strcmp(nm + l - 7, "_rwlock")) failx("lock-released-twice", PC(), true, "the lock %s is released although nobody holds it: two could hold it now", nm);
    }
    touch(o, 17);
    release(o);
    for (int i = 0; i < g->nf; i++)
        if (alive(&g->fibers[i]) && g->fibers[i].wk == W_SEM && g->fibers[i].wobj == o) {
            g->woken = i;
            break;
        }
    return 0;
}
ENTRY int sem_wait(sem_t* s) {
    if (!active()) return 0;
    return do_sem_wait(s, -1, false, PC());
}
ENTRY int sem_timedwait(sem_t* s, const timespec* t) {
    if (!active()) return 0;
    return do_sem_wait(s, abs_deadline(CLOCK_REALTIME, t), bad_ns(t), PC());
}
ENTRY int sem_clockwait(sem_t* s, clockid_t c, const timespec* t) {
    if (!active()) return 0;
    return do_sem_wait(s, abs_deadline(c, t), bad_ns(t), PC());
}
ENTRY int sem_trywait(sem_t* s) {
    if (!active()) return 0;
    int idx;
    SyncObj* o = sem_of(s, PC(), &idx);
    point("semaphore trywait");
    o = sem_of(s, PC(), &idx);
    touch(o, 18);
    if (o->count <= 0) {
        errno = EAGAIN;
        return -1;
    }
    o->count--;
    acquire(o);
    return 0;
}
ENTRY int sem_getvalue(sem_t* s, int* v) {
    if (!active()) return 0;
    int idx;
    SyncObj* o = sem_of(s, PC(), &idx);
    point("semaphore getvalue");
    fmixh(mix(101, o->ver));
    *v = o->count;
    return 0;
}

// ---- shared memory and file descriptors
ENTRY int shm_open(const char* name, int oflag, mode_t) {
    if (!active()) {
        errno = ENOSYS;
        return -1;
    }
    char n[256];
    int e = norm_name(name, n, false);
    if (e) {
        errno = e;
        return -1;
    }
    SyncObj* no = nobj(n, false);
    point("shm_open");
    acquire(no);
    int i = find_seg(n);
    trace("shm_open %s%s%s: %s", n, oflag & O_CREAT ? " O_CREAT" : "", oflag & O_EXCL ? " O_EXCL" : "", i >= 0 ? "exists" : "new");
    touch(no, 19);
    release(no);
    if (i >= 0 && (oflag & O_CREAT) && (oflag & O_EXCL)) {
        errno = EEXIST;
        return -1;
    }
    if (i < 0 && !(oflag & O_CREAT)) {
        errno = ENOENT;
        return -1;
    }
    if (os_fault("shm_open")) {
        errno = EMFILE;
        return -1;
    }
    if (i < 0) {
        i = new_seg(n);
        g->segs[i].obj = obj(O_SEG, no->ver);
    } else if (oflag & O_TRUNC)
        g->segs[i].size = 0;
    return new_fd(i);
}
ENTRY int shm_unlink(const char* name) {
    if (!active()) return 0;
    char n[256];
    if (norm_name(name, n, false)) {
        errno = ENOENT;
        return -1;
    }
    SyncObj* no = nobj(n, false);
    point("shm_unlink");
    acquire(no);
    touch(no, 20);
    release(no);
    int i = find_seg(n);
    trace("shm_unlink %s: %s", n, i >= 0 ? "ok" : "does not exist");
    if (i < 0) {
        errno = ENOENT;
        return -1;
    }
    g->segs[i].linked = false;
    return 0;
}
ENTRY int ftruncate(int fd, off_t len) {
    if (!active()) return syscall(SYS_ftruncate, fd, len);
    Fd* f = fd_of(fd);
    if (!f) {
        if (fd >= 1000) {
            errno = EBADF;
            return -1;
        }
        return syscall(SYS_ftruncate, fd, len);
    }
    point("ftruncate");
    Seg& s = g->segs[f->seg];
    acquire(s.obj);
    touch(s.obj, mix(21, len));
    release(s.obj);
    trace("ftruncate %s to %lld", s.name, (long long)len);
    if (len < 0) {
        errno = EINVAL;
        return -1;
    }
    if (os_fault("ftruncate")) {
        errno = ENOSPC;
        return -1;
    }
    if (len > (off_t)SEG_PER) {  // this machine has no more shared memory than that
        errno = ENOSPC;
        return -1;
    }
    seg_resize(f->seg, len);
    return 0;
}
ENTRY int ftruncate64(int fd, off64_t len) { return ftruncate(fd, len); }
ENTRY int posix_fallocate(int fd, off_t o, off_t len) {
    if (!active()) return ENOSYS;
    Fd* f = fd_of(fd);
    if (!f) return EBADF;
    if (g->segs[f->seg].size >= o + len) return 0;
    return ftruncate(fd, o + len) ? errno : 0;
}
ENTRY int fstat(int fd, struct stat* st) {
    if (active()) {
        if (Fd* f = fd_of(fd)) {
            point("fstat");
            Seg& s = g->segs[f->seg];
            acquire(s.obj);
            fmixh(mix(102, s.obj->ver));
            rawset(st, 0, sizeof *st);
            st->st_size = s.size;
            st->st_mode = S_IFREG | 0666;
            st->st_nlink = s.linked ? 1 : 0;
            st->st_ino = 100 + f->seg;
            return 0;
        }
        if (fd >= 1000 || fd < 0) {
            errno = EBADF;
            return -1;
        }
    }
    return syscall(SYS_fstat, fd, st);
}
ENTRY int fstat64(int fd, struct stat64* st) { return fstat(fd, (struct stat*)st); }
// descriptor operations without a meaning here, and look-ups by path
ENTRY int fchmod(int fd, mode_t m) {
    if (active() && fd_of(fd)) return 0;
    return syscall(SYS_fchmod, fd, m);
}
ENTRY int fcntl(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    if (active() && fd_of(fd)) return cmd == F_GETFL ? O_RDWR : cmd == F_GETFD ? FD_CLOEXEC : 0;
    return syscall(SYS_fcntl, fd, cmd, a);
}
static int by_path(const char* path) {  // 1 exists, 0 does not, -1 another kind of path
    if (!active() || strncmp(path, "/dev/shm/", 9)) return -1;
    bool sem = !strncmp(path + 9, "sem.", 4);
    char n[256];
    if (norm_name(path + (sem ? 13 : 9), n, sem)) return 0;
    SyncObj* no = nobj(n, sem);
    point("look-up");
    acquire(no);
    fmixh(mix(103, no->ver));
    int idx;
    return sem ? find_sem(n, &idx) != nullptr : find_seg(n) >= 0;
}
ENTRY int access(const char* path, int mode) {
    int r = by_path(path);
    if (r < 0) return syscall(SYS_access, path, mode);
    if (r) return 0;
    errno = ENOENT;
    return -1;
}
ENTRY int stat(const char* path, struct stat* st) {
    int r = by_path(path);
    if (r < 0) return syscall(SYS_stat, path, st);
    if (r) {
        rawset(st, 0, sizeof *st);
        char n[256];
        int i = strncmp(path + 9, "sem.", 4) && !norm_name(path + 9, n, false) ? find_seg(n) : -1;
        st->st_size = i < 0 ? 32 : g->segs[i].size;
        st->st_mode = S_IFREG | 0666;
        st->st_nlink = 1;
        return 0;
    }
    errno = ENOENT;
    return -1;
}
ENTRY int stat64(const char* path, struct stat64* st) { return stat(path, (struct stat*)st); }
ENTRY int msync(void*, size_t, int) { return 0; }
ENTRY int mlock(const void*, size_t) { return 0; }
ENTRY int munlock(const void*, size_t) { return 0; }
ENTRY int unlink(const char* path) {
    if (active() && !strncmp(path, "/dev/shm/", 9)) return strncmp(path + 9, "sem.", 4) ? shm_unlink(path + 9) : sem_unlink(path + 13);
    return syscall(SYS_unlink, path);
}

ENTRY off_t lseek(int fd, off_t off, int wh) {
    if (active())
        if (Fd* f = fd_of(fd)) {
            if (wh == SEEK_END) return g->segs[f->seg].size + off;
            return off;
        }
    return syscall(SYS_lseek, fd, off, wh);
}
ENTRY int close(int fd) {
    if (active() && (fd >= 1000 || fd < 0)) {
        Fd* f = fd_of(fd);
        if (!f) {
            errno = EBADF;
            return -1;
        }
        trace("close fd of %s", g->segs[f->seg].name);
        f->used = false;
        g->segs[f->seg].refs--;
        return 0;
    }
    return syscall(SYS_close, fd);
}
ENTRY void* mmap(void* addr, size_t len, int prot, int flags, int fd, off_t off) {
    if (active()) {
        if (Fd* f = fd_of(fd)) {
            point("mmap");
            Seg& s = g->segs[f->seg];
            acquire(s.obj);
            fmixh(mix(103, s.obj->ver));
            trace("mmap %s length %zu", s.name, len);
            if (len == 0 || off != 0) {
                errno = EINVAL;
                return MAP_FAILED;
            }
            if (os_fault("mmap") || len > SEG_PER) {
                errno = ENOMEM;
                return MAP_FAILED;
            }
            int v = s.nviews;
            if (v >= MAXVIEW)  // addresses are only used again when there are no others left
                for (v = 0; v < MAXVIEW && g->views[f->seg * MAXVIEW + v].live; v++) {
                }
            else
                s.nviews++;
            if (v >= MAXVIEW) engine_error("too many views of one segment");
            map_view(f->seg, v);
            View& w = g->views[f->seg * MAXVIEW + v];
            w.live = true;
            w.seg = f->seg;
            w.pid = g->cur->pid;
            w.len = len;
            s.refs++;
            return (void*)(VIEW0 + ((uintptr_t)f->seg * MAXVIEW + v) * SEG_PER);
        }
        if (fd >= 1000) {
            errno = EBADF;
            return MAP_FAILED;
        }
    }
    return (void*)syscall(SYS_mmap, addr, len, prot, flags, fd, off);
}
ENTRY void* mmap64(void* addr, size_t len, int prot, int flags, int fd, off64_t off) { return mmap(addr, len, prot, flags, fd, off); }
ENTRY int munmap(void* p, size_t len) {
    uintptr_t a = (uintptr_t)p;
    if (active() && a - VIEW0 < VIEW_SPAN) {
        int vi = (a - VIEW0) / SEG_PER;
        View& v = g->views[vi];
        trace("munmap %s length %zu", g->segs[vi / MAXVIEW].name, len);
        if (!v.live || (a - VIEW0) % SEG_PER) failx("bad-munmap", PC(), false, "munmap of memory that is not mapped");
        if ((int64_t)((len + 4095) & ~4095ull) < ((v.len + 4095) & ~4095ll)) return 0;  // part of the mapping stays
        v.live = false;
        g->segs[v.seg].refs--;
        return 0;
    }
    return syscall(SYS_munmap, p, len);
}

// ---- time
ENTRY int clock_gettime(clockid_t c, timespec* t) {
    if (!active()) return syscall(SYS_clock_gettime, c, t);
    int64_t v = read_clock(c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE);
    t->tv_sec = v / 1000000000;
    t->tv_nsec = v % 1000000000;
    return 0;
}
ENTRY int gettimeofday(timeval* t, void*) {
    if (!active()) {
        timespec s;
        syscall(SYS_clock_gettime, CLOCK_REALTIME, &s);
        t->tv_sec = s.tv_sec;
        t->tv_usec = s.tv_nsec / 1000;
        return 0;
    }
    int64_t v = read_clock(true);
    t->tv_sec = v / 1000000000;
    t->tv_usec = v % 1000000000 / 1000;
    return 0;
}
ENTRY time_t time(time_t* t) {
    time_t r;
    if (active())
        r = read_clock(true) / 1000000000;
    else {
        timespec s;
        syscall(SYS_clock_gettime, CLOCK_REALTIME, &s);
        r = s.tv_sec;
    }
    if (t) *t = r;
    return r;
}
ENTRY int nanosleep(const timespec* t, timespec* rem) {
    if (!active()) return syscall(SYS_nanosleep, t, rem);
    do_sleep(ts_ns(t));
    return 0;
}
ENTRY int clock_nanosleep(clockid_t c, int fl, const timespec* t, timespec* rem) {
    if (!active()) return syscall(SYS_clock_nanosleep, c, fl, t, rem);
    int64_t n = ts_ns(t);
    if (fl & TIMER_ABSTIME) n = abs_deadline(c, t) - g->now;
    do_sleep(n);
    return 0;
}
ENTRY int usleep(useconds_t us) {
    if (!active()) {
        timespec t = {us / 1000000, (us % 1000000) * 1000};
        return syscall(SYS_nanosleep, &t, nullptr);
    }
    do_sleep((int64_t)us * 1000);
    return 0;
}
ENTRY unsigned sleep(unsigned s) {
    if (!active()) {
        timespec t = {(time_t)s, 0};
        return syscall(SYS_nanosleep, &t, nullptr);
    }
    do_sleep((int64_t)s * 1000000000);
    return 0;
}
ENTRY int sched_yield() {
    if (!active()) return 0;
    do_sleep(0);
    return 0;
}

// ---- futex (used by std::future)
static long do_futex(uint32_t* a, int op, uint32_t val, const timespec* to, uint32_t pc) {
    int cmd = op & FUTEX_CMD_MASK;
    chk(a, 4, pc);
    SyncObj* o = obj(O_COND, mix(addr_key(a, 4, pc), 3));
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
        if (to && bad_ns(to)) {
            errno = EINVAL;
            return -1;
        }
        int64_t dl = -1;
        if (to) dl = cmd == FUTEX_WAIT ? g->now + ts_ns(to) : abs_deadline(op & FUTEX_CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC, to);
        point("futex wait");
        touch(o, 22);
        if (__atomic_load_n(a, __ATOMIC_SEQ_CST) != val) {
            errno = EAGAIN;
            return -1;
        }
        trace("futex wait %p%s", (void*)a, dl >= 0 ? " (timed)" : "");
        if (block(W_FUTEX, o, dl, "futex wait")) {
            fmixh(mix(104, g->now));
            errno = ETIMEDOUT;
            return -1;
        }
        fmixh(mix(105, g->cur->sig_h));
        return 0;
    }
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
        point("futex wake");
        touch(o, 23);
        long n = 0;
        for (int i = 0; i < g->nf && n < (int)val; i++) {
            Fiber* f = &g->fibers[i];
            if (alive(f) && f->wk == W_FUTEX && f->wobj == o && !f->signalled) {
                f->signalled = true;
                f->sig_h = g->cur->h;
                g->woken = i;
                n++;
            }
        }
        trace("futex wake %p: %ld", (void*)a, n);
        return n;
    }
    errno = ENOSYS;
    return -1;
}
static long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) {
        errno = -r;
        return -1;
    }
    return r;
}
ENTRY long syscall(long n, ...) {
    va_list v;
    va_start(v, n);
    long a = va_arg(v, long), b = va_arg(v, long), c = va_arg(v, long), d = va_arg(v, long), e = va_arg(v, long), f = va_arg(v, long);
    va_end(v);
    if (active() && n == SYS_futex) return do_futex((uint32_t*)a, (int)b, (uint32_t)c, (const timespec*)d, PC());
    if (active() && n == SYS_gettid) return 10000 + g->cur->id;
    if (active() && n == SYS_getpid) return 5000 + g->cur->pid;
    return raw_syscall(n, a, b, c, d, e, f);
}

// ---- processes, randomness, output
ENTRY pid_t getpid() {
    if (!active()) return syscall(SYS_getpid);
    return 5000 + g->cur->pid;
}
ENTRY pid_t gettid() {
    if (!active()) return syscall(SYS_gettid);
    return 10000 + g->cur->id;
}
// The C library generator starts from the same state in every process, as the real one does.
static uint32_t prand(uint32_t& st) {
    st = st * 1103515245u + 12345u;
    uint32_t x = st;
    x ^= x >> 16;
    x *= 0x7feb352du;
    x ^= x >> 15;
    return x & 0x7fffffff;
}
ENTRY int rand() {
    if (!active()) return 4;
    fmixh(g->procs[g->cur->pid].nrand);
    return prand(g->procs[g->cur->pid].nrand);
}
ENTRY long random() { return rand(); }
ENTRY void srand(unsigned s) {
    if (active()) g->procs[g->cur->pid].nrand = s * 2654435761u + 1;
}
ENTRY void srandom(unsigned s) { srand(s); }
// sources of real randomness: unique values
static uint64_t hwrand() {
    Fiber* f = g->cur;
    return mix(mix(f->h, f->id), 0x5eed + f->nchild++);
}
ENTRY ssize_t getrandom(void* b, size_t n, unsigned) {
    for (size_t i = 0; i < n; i++) ((uint8_t*)b)[i] = active() ? (uint8_t)hwrand() : (uint8_t)i;
    return n;
}
ENTRY int getentropy(void* b, size_t n) {
    getrandom(b, n, 0);
    return 0;
}
std::random_device::result_type std::random_device::_M_getval() { return active() ? (unsigned)hwrand() : 7u; }

ENTRY int vmc_vprintf(const char*, va_list) asm("vprintf");
ENTRY int vmc_vprintf(const char*, va_list) {
    if (g) g->loglines++;
    return 1;
}
ENTRY int printf(const char*, ...) {
    if (g) g->loglines++;
    return 1;
}
ENTRY int puts(const char*) {
    if (g) g->loglines++;
    return 1;
}

// ============================================================================================ harness API
namespace vmc {

int choose(int n, const char* tag) {
    if (n <= 1) return 0;
    if (!active()) engine_error("choose outside an execution");
    // schedules are only shared between executions that made the same free choices
    int c = decide(D_CHOOSE, n, 0);
    trace("choose %s = %d of %d", tag, c, n);
    fmixh(mix(hstr(tag), c));
    return c;
}
int deviate(int n, const char* tag) {
    if (n <= 1) return 0;
    int c = decide(D_DEV, n, 1);
    fmixh(mix(hstr(tag), c));
    return c;
}
void window(bool on) {
    g->win = on;
    fmixh(on);
}
void outcome(const std::string& s) {
    for (char c : s)
        if (g->outcome_n < sizeof g->outcome - 2) g->outcome[g->outcome_n++] = c;
    if (g->outcome_n < sizeof g->outcome - 2) g->outcome[g->outcome_n++] = ';';
    g->outcome[g->outcome_n] = 0;
    g->globalh += mix(hstr(s.c_str()), 1);
}
bool in_execution() { return g && g->in_exec; }

struct ProcStart { std::function<void()> fn; };
static void* proc_main(void* a) {
    ProcStart* s = (ProcStart*)a;
    s->fn();
    Fiber* f = g->cur;
    Proc& p = g->procs[f->pid];
    p.main_done = true;
    release(p.obj);
    touch(p.obj, 24);
    return nullptr;
}
int start_process(const std::function<void()>& fn) {
    if (g->np >= MAXP) engine_error("too many processes");
    int pid = g->np++;
    Proc& p = g->procs[pid];
    rawset(&p, 0, sizeof p);
    p.used = true;
    p.parent = g->cur->pid;
    p.nrand = 12345;
    if (!g->img[pid]) {
        g->nocheck++;
        g->img[pid] = (unsigned char*)::syscall(SYS_mmap, nullptr, data_len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1L, 0L);
        g->nocheck--;
    }
    rawcpy(g->img[pid], g->pristine, data_len);
    p.obj = obj(O_PROC, pid);
    ProcStart* s;
    {
        Unchecked u;
        s = new ProcStart{fn};  // (persistent allocation: a copy of the closure, a few bytes per execution)
    }
    Fiber* f = new_fiber(proc_main, s, pid);
    p.main_fiber = f->id;
    trace("starts process P%d", pid);
    point("process start");
    return pid;
}
void join_process(int pid) {
    g->cur->wtarget = pid;
    block(W_PROC, nullptr, -1, "process join");
    acquire(g->procs[pid].obj);
    fmixh(mix(106, g->procs[pid].obj->ver + g->procs[pid].dead));
}
bool process_done(int pid) {
    bool r = g->procs[pid].main_done || g->procs[pid].dead;
    if (r) acquire(g->procs[pid].obj);
    fmixh(mix(107, r));
    return r;
}
void crashable(int pid, bool on) {
    g->procs[pid].crashable = on;
    fmixh(mix(108, on));
}
bool crashed(int pid) {
    fmixh(mix(109, g->procs[pid].dead));
    return g->procs[pid].dead;
}
void kill_now(int pid) {
    do_kill(pid);
    fmixh(110);
    if (g->cur->pid == pid) {
        schedule();
        engine_error("dead fiber scheduled");
    }
}
int current_process() { return g->cur->pid; }

int64_t now_us() {
    fmixh(mix(111, g->now));
    return g->now / 1000;
}
void sleep_ms(int64_t ms) { do_sleep(ms * 1000000); }
void sleep_us(int64_t us) { do_sleep(us * 1000); }
void settle(int64_t ms) { do_sleep(ms * 1000000); }
void set_clock_phase_ns(int64_t ns) {
    int64_t r = real();
    int64_t cur = r % 1000000000;
    g->rt_off += ns - cur;
    fmixh(mix(112, ns));
}

static int hret(int v) {
    fmixh(mix(113, v));
    return v;
}
int live_threads() {
    int n = 0;
    for (int i = 0; i < g->nf; i++)
        if (alive(&g->fibers[i]) && i != g->cur->id) n++;
    return hret(n);
}
int live_threads_of(int pid) {
    int n = 0;
    for (int i = 0; i < g->nf; i++)
        if (alive(&g->fibers[i]) && g->fibers[i].pid == pid && i != g->cur->id) n++;
    return hret(n);
}
int open_fds() {
    int n = 0;
    for (auto& f : g->fds) n += f.used;
    return hret(n);
}
int live_views() {
    int n = 0;
    for (int i = 0; i < g->nseg * MAXVIEW; i++) n += g->views[i].live;
    return hret(n);
}
int open_sems() {
    int n = 0;
    for (int i = 0; i < g->nsem; i++) n += g->sems[i].refs;
    return hret(n);
}
int shm_names() {
    int n = 0;
    for (int i = 0; i < g->nseg; i++) n += g->segs[i].linked;
    return hret(n);
}
int sem_names() {
    int n = 0;
    for (int i = 0; i < g->nsem; i++) n += g->sems[i].linked;
    return hret(n);
}
std::string names() {
    std::string r;
    for (int i = 0; i < g->nseg; i++)
        if (g->segs[i].linked) r += std::string(" shm:") + g->segs[i].name;
    for (int i = 0; i < g->nsem; i++)
        if (g->sems[i].linked) r += std::string(" sem:") + g->sems[i].name;
    return r;
}
int faults() { return hret(g->fault_count); }
uint64_t live_heap_blocks() { return hret((int)g->nlive_blocks); }
uint64_t live_heap_bytes() { return hret((int)g->live_bytes); }
uint64_t heap_seq() { return g->aseq; }
template <class F>
static void each_block(F f) {
    for (int i = 0; i < g->nf; i++) {
        uintptr_t p = HEAP0 + i * HEAP_PER + 4096;
        while (p < g->fibers[i].heap_top) {
            BlockHdr* h = (BlockHdr*)p;
            f(h);
            p += (uintptr_t)h->total * 16;
        }
    }
}
// Memory that a thread which still runs keeps for itself in a thread_local variable is not lost.
static bool thread_local_block(BlockHdr* h) {
    uintptr_t b = (uintptr_t)(h + 1);
    for (int i = 0; i < g->nf; i++) {
        Fiber* f = &g->fibers[i];
        if (!f->used || f->done || f->dead) continue;
        const char* t = f == g->cur ? (const char*)exe_tls : (const char*)f->tls;
        for (size_t k = -(uintptr_t)exe_tls & 7; k + 8 <= exe_tls_size; k += 8) {
            uintptr_t v;
            rawcpy(&v, t + k, 8);
            if (v == b) return true;
        }
    }
    return false;
}
uint64_t live_heap_blocks_since(uint64_t seq) {
    uint64_t n = 0;
    each_block([&](BlockHdr* h) {
        if (h->state == 1 && h->seq > seq && !g->procs[h->pid].dead && !thread_local_block(h)) n++;
    });
    return hret((int)n);
}
std::string live_heap_report(uint64_t seq, int max) {
    std::string r;
    int k = 0;
    each_block([&](BlockHdr* h) {
        if (h->state == 1 && h->seq > seq && !g->procs[h->pid].dead && !thread_local_block(h) && k++ < max) {
            char b[200];
            snprintf(b, sizeof b, "\n    block of %llu bytes allocated at 0x%x 0x%x 0x%x 0x%x", (unsigned long long)h->size, h->pcs[0], h->pcs[1], h->pcs[2], h->pcs[3]);
            r += b;
        }
    });
    return r;
}
static const char* strip(const std::string& n) {
    const char* p = n.c_str();
    while (*p == '/') p++;
    return p;
}
uint8_t* shm_bytes(const std::string& name, size_t* size) {
    int i = find_seg(strip(name));
    if (i < 0) {
        if (size) *size = 0;
        return nullptr;
    }
    if (size) *size = g->segs[i].size;
    return (uint8_t*)(SEG0 + i * SEG_PER);
}
int sem_value(const std::string& name) {
    int idx;
    KSem* k = find_sem(strip(name), &idx);
    return hret(k ? k->obj->count : -1);
}
void sem_set(const std::string& name, int value) {
    int idx;
    KSem* k = find_sem(strip(name), &idx);
    if (!k) {
        sem_t* s = do_sem_open(strip(name), O_CREAT, value, 0);
        sem_close(s);
        k = find_sem(strip(name), &idx);
    }
    k->obj->count = value;
    touch(k->obj, mix(25, value));
}
void shm_put(const std::string& name, const std::vector<uint8_t>& bytes) {
    int i = find_seg(strip(name));
    if (i < 0) {
        i = new_seg(strip(name));
        g->segs[i].obj = obj(O_SEG, mix(hstr(strip(name)), g->nseg));
    }
    g->segs[i].size = 0;
    seg_resize(i, bytes.size());
    rawcpy((void*)(SEG0 + i * SEG_PER), bytes.data(), bytes.size());
}
uint64_t log_lines() { return g->loglines; }
int blocked_in_sem(int pid) {
    int n = 0;
    for (int i = 0; i < g->nf; i++)
        if (alive(&g->fibers[i]) && g->fibers[i].pid == pid && g->fibers[i].wk == W_SEM && g->fibers[i].wobj->count <= 0) n++;
    return hret(n);
}
uint64_t cell_op(void* cell, uint64_t add) {
    uint64_t* v = (uint64_t*)cell;
    if (!g || !g->in_exec) return *v += add;
    uint64_t a = (uint64_t)cell;
    if (add) {
        if (*v) g->cells -= mix(a, *v);
        *v += add;
        if (*v) g->cells += mix(a, *v);
        fmixh(114);
    } else
        fmixh(mix(115, *v));
    return *v;
}
bool cell_wait(void* cell, uint64_t v, int64_t ms) {
    Fiber* f = g->cur;
    f->wcell = (uint64_t*)cell;
    f->wval = v;
    block(W_CELL, nullptr, ms < 0 ? -1 : g->now + ms * 1000000, "wait for a counter of the harness");
    bool r = *f->wcell >= v;
    fmixh(mix(116, r ? 1 : g->now));
    return r;
}
Unchecked::Unchecked() { g->nocheck++; }
Unchecked::~Unchecked() { g->nocheck--; }
Checked::Checked() : n_(g->nocheck) { g->nocheck = 0; }
Checked::~Checked() { g->nocheck = n_; }
}  // namespace vmc
