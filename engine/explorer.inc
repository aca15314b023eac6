// Explorer: bounded search over schedules and choices, worker processes, reporting.   (included by engine.cpp)
namespace vmc {

static std::vector<Scenario>& scenarios() {
    static std::vector<Scenario>* v = new std::vector<Scenario>;
    return *v;
}
static std::vector<Search>& searches() {
    static std::vector<Search>* v = new std::vector<Search>;
    return *v;
}
static std::vector<int>& order() {  // >=0 scenario, <0 search -1-i
    static std::vector<int>* v = new std::vector<int>;
    return *v;
}
void add(const Scenario& s) {
    order().push_back(scenarios().size());
    scenarios().push_back(s);
}
void add_search(const Search& s) {
    order().push_back(-1 - (int)searches().size());
    searches().push_back(s);
}

static double wall() {
    timespec t;
    ::syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec / 1e9;
}

static const std::function<void()>* cur_body;
static void* root_start(void*) {
    (*(const std::function<void()>*)g->fibers[0].arg)();
    return nullptr;
}
static void* root_main(void* a) {
    root_start(a);
    leave(E_DONE);
}

static void reset_state() {
    for (int i = 0; i < g->nf; i++) {
        Fiber* f = &g->fibers[i];
        f->used = false;
    }
    g->nf = 0;
    g->gen++;
    if ((g->gen & 0xffffff) == 0) {
        g->gen = 1;
        madvise(RS, SPAN * 8, MADV_DONTNEED);
    }
    g->now = 1000000000000ll;  // 1000 s after boot
    g->rt_off = 1700000000ll * 1000000000ll + 123456789ll;
    g->steps = g->accesses = g->clockreads = 0;
    g->pos = 0;
    g->next_dev = 0;
    g->win = true;
    g->woken = -1;
    g->H = g->cells = g->globalh = 0;
    g->wseq = g->aseq = 0;
    g->nlive_blocks = g->live_bytes = 0;
    g->loglines = 0;
    for (int i = 0; i < g->np; i++) g->procs[i].used = false;
    g->np = 1;
    rawset(&g->procs[0], 0, sizeof(Proc));
    g->procs[0].used = true;
    g->procs[0].nrand = 12345;
    for (int i = 0; i < g->nseg; i++) {
        g->segs[i].used = g->segs[i].linked = false;
        for (int v = 0; v < MAXVIEW; v++) g->views[i * MAXVIEW + v].live = false;
    }
    g->nseg = 0;
    for (int i = 0; i < g->nsem; i++) {
        g->sems[i].used = g->sems[i].linked = false;
        for (int p = 0; p < MAXP; p++) g->semh[p][i].refs = 0;
    }
    g->nsem = 0;
    for (auto& f : g->fds) f.used = false;
    g->nobj_used = 0;
    g->npoints = 0;
    g->outcome_n = 0;
    g->outcome[0] = 0;
    g->fault_count = 0;
    g->end = E_RUNNING;
    g->nocheck = 0;
    g->new_states = 0;
    g->cur_img = 0;
    g->cur = nullptr;
    rawcpy(__data_start, g->pristine, data_len);
}

End run_exec(const Node& n, int budget, bool record, const std::function<void()>& body) {
    reset_state();
    g->node = n;
    g->budget_left = budget;
    g->record = record;
    g->exec_no++;
    Fiber* r = new_fiber(root_main, (void*)&body, 0);
    r->save_errno = 0;
    int e = errno;
    unsigned char eh[16];
    rawcpy(eh, abi::__cxa_get_globals(), 16);
    g->cur = r;
    g->woken = -1;
    g->in_exec = true;
    vmc_switch(&g->main_sp, r->sp);
    g->in_exec = false;
    g->nocheck = 0;
    if (g->cur_img != 0) g->cur_img = 0;
    rawcpy(__data_start, g->pristine, data_len);
    rawcpy(abi::__cxa_get_globals(), eh, 16);
    errno = e;
    if (g->end == E_DONE && g->next_dev < g->node.n) engine_error("replay divergence: the execution ended before choice %d of %d", g->next_dev, g->node.n);
    return g->end;
}

static void lock() {
    while (__atomic_exchange_n(&S->lock, 1, __ATOMIC_ACQUIRE)) ::syscall(SYS_sched_yield);
}
static void unlock() { __atomic_store_n(&S->lock, 0, __ATOMIC_RELEASE); }

static void note_outcome(const char* o) {
    uint64_t h = hstr(o) | 1;
    for (uint64_t i = h & 4095, k = 0; k < 64; k++, i = (i + 1) & 4095) {
        uint64_t e = __atomic_load_n(&S->outh[i], __ATOMIC_RELAXED);
        if (e == h) return;
        if (e == 0) {
            lock();
            if (S->outh[i] == 0) {
                S->outh[i] = h;
                if (S->nout < 16) snprintf(S->outs[S->nout], sizeof S->outs[0], "%s", o);
                S->nout++;
                unlock();
                return;
            }
            unlock();
            if (S->outh[i] == h) return;
        }
    }
}

static void record_violation() {
    lock();
    if (!S->nviol) {
        S->nviol = 1;
        memcpy((void*)&S->viol, g->fail, sizeof(Failure));
        S->viol_node = g->node;
        snprintf(S->viol_ctx, sizeof S->viol_ctx, "%s", g->ctx);
        snprintf(S->viol_scn, sizeof S->viol_scn, "%s", g->scn);
    }
    S->stop = 1;
    unlock();
}
static void record_known() {
    lock();
    S->knowns++;
    bool seen = false;
    for (int i = 0; i < S->nknown; i++)
        if (!strcmp(S->known[i], g->fail->sig)) seen = true;
    if (!seen && S->nknown < 32) snprintf(S->known[S->nknown++], 256, "%s", g->fail->sig);
    unlock();
}

static void account(End e) {
    __atomic_fetch_add(&S->execs, 1, __ATOMIC_RELAXED);
    __atomic_fetch_add(&S->steps, g->steps, __ATOMIC_RELAXED);
    __atomic_fetch_add(&S->states, g->new_states, __ATOMIC_RELAXED);
    if (e == E_PRUNED) __atomic_fetch_add(&S->pruned, 1, __ATOMIC_RELAXED);
    if (e == E_DONE) {
        note_outcome(g->outcome);
        __atomic_fetch_add(&S->traces, 1, __ATOMIC_RELAXED);
    }
    uint64_t p = g->pos;
    if (p > S->maxpoints) S->maxpoints = p;
}

// Children of the execution that just ran.
template <class F>
static void children(const Node& n, F push) {
    for (uint32_t i = g->npoints; i-- > 0;) {
        Point& p = g->points[i];
        if (n.n >= MAXDEV) engine_error("too many choices in one execution (%s)", g->scn);
        for (int a = p.n - 1; a >= 1; a--) {
            Node c = n;
            c.d[c.n++] = Dev{p.pos, (uint16_t)a, p.sig};
            c.cost += p.cost;
            push(c);
        }
    }
}



static void set_timer();

static void worker(const Scenario& sc, int D) {
    unmap_all_segs();
    set_timer();
    std::vector<Node> st;
    uint64_t n = 0;
    for (;;) {
        if (S->stop) break;
        if (st.empty()) {
            lock();
            if (S->npool > 0) {
                st.push_back(S->pool[--S->npool]);
                S->active++;
                unlock();
            } else {
                bool fin = S->active == 0;
                unlock();
                if (fin) break;
                timespec t = {0, 200000};
                ::syscall(SYS_nanosleep, &t, nullptr);
                continue;
            }
        }
        Node nd = st.back();
        st.pop_back();
        End e = run_exec(nd, D, true, sc.body);
        account(e);
        if (e == E_FAILED) {
            record_violation();
            break;
        }
        if (e == E_KNOWN) record_known();
        children(nd, [&](const Node& c) { st.push_back(c); });
        if (st.empty()) {
            lock();
            S->active--;
            unlock();
        } else if (st.size() > 1 && S->npool < 64) {
            lock();
            size_t give = st.size() / 2;
            if (give > 64) give = 64;
            size_t k = 0;
            while (k < give && S->npool < (int)(sizeof S->pool / sizeof S->pool[0])) S->pool[S->npool++] = st[k++];
            unlock();
            st.erase(st.begin(), st.begin() + k);
        }
        if ((++n & 15) == 0 && wall() > S->deadline) {
            lock();
            S->stop = 1;
            if (!S->incomplete) snprintf(S->incomplete_why, sizeof S->incomplete_why, "time budget");
            S->incomplete = 1;
            unlock();
        }
    }
}

static int nworkers() {
    const char* e = getenv("VMC_WORKERS");
    int n = e ? atoi(e) : (int)sysconf(_SC_NPROCESSORS_ONLN);
    return n < 1 ? 1 : n > 16 ? 16 : n;
}

template <class F>
static void fork_all(int n, F f) {
    std::vector<pid_t> pids;
    for (int i = 0; i < n; i++) {
        pid_t p = fork();
        if (p < 0) engine_error("fork: %d", errno);
        if (p == 0) {
            f(i);
            _exit(0);
        }
        pids.push_back(p);
    }
    bool bad = false;
    int why = 0;
    for (pid_t p : pids) {
        int st = 0;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
            bad = true;
            why = st;
            S->stop = 1;
        }
    }
    if (bad && !S->nviol) engine_error("a worker process ended abnormally (status 0x%x)", why);
}

// ------------------------------------------------------------------------------------------- set-up
static void on_fault(int sig, siginfo_t* si, void* uc) {
    ucontext_t* u = (ucontext_t*)uc;
    if (!g || !g->in_exec) {
        char b[200];
        int n = snprintf(b, sizeof b, "ENGINE-ERROR: signal %d at address %p outside an execution, pc 0x%llx\n", sig, si->si_addr, (unsigned long long)u->uc_mcontext.gregs[REG_RIP]);
        if (write(2, b, n)) {}
        _exit(3);
    }
    uintptr_t pc = u->uc_mcontext.gregs[REG_RIP];
    if (sig == SIGABRT) failx("abort", 0, true, "the program aborts");
    failx("crash", pc < 0x100000000ull ? (uint32_t)pc + 1 : 0, true, "the program crashes: signal %d (%s) at address %p", sig, strsignal(sig), si->si_addr);
}
static void on_timer(int, siginfo_t*, void*) {
    if (!g || !g->in_exec) return;
    if (g->last_exec_seen == g->exec_no) {
        if (++g->stuck_ticks >= 20) failx("hang", 0, true, "an execution does not end (no progress for 20 s of processor time)");
    } else {
        g->last_exec_seen = g->exec_no;
        g->stuck_ticks = 0;
    }
}
static void on_terminate() {
    if (!g || !g->in_exec) engine_error("std::terminate outside an execution");
    char what[600] = "";
    std::type_info* t = abi::__cxa_current_exception_type();
    if (t) {
        g->nocheck++;
        try {
            throw;
        } catch (std::exception& e) {
            snprintf(what, sizeof what, "uncaught exception %s: %s", t->name(), e.what());
        } catch (...) {
            snprintf(what, sizeof what, "uncaught exception %s", t->name());
        }
        g->nocheck--;
    }
    failx("terminate", 0, true, "std::terminate is called: %s", what[0] ? what : "no exception");
}
static void set_timer() {
    struct itimerval it = {{1, 0}, {1, 0}};
    ::syscall(SYS_setitimer, ITIMER_VIRTUAL, &it, nullptr);
}
static void* big(size_t n, bool shared = false) {
    void* p = (void*)::syscall(SYS_mmap, nullptr, n, PROT_READ | PROT_WRITE, (shared ? MAP_SHARED : MAP_PRIVATE) | MAP_ANONYMOUS | MAP_NORESERVE, -1L, 0L);
    if (p == MAP_FAILED) engine_error("mmap of %zu bytes failed", n);
    return p;
}
static int tls_cb(struct dl_phdr_info* i, size_t, void*) {
    for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_TLS) {
            exe_tls_size = i->dlpi_phdr[k].p_memsz;
            exe_tls = (unsigned char*)i->dlpi_tls_data;
        }
    return 1;  // only the executable
}

static void setup() {
    __libc_single_threaded = 0;
    dl_iterate_phdr(tls_cb, nullptr);
    if (exe_tls_size > sizeof(Fiber::tls)) engine_error("too much thread local data");
    resolve_hooks();
    data_len = _end - __data_start;
    if (data_len > GLOB_PER) engine_error("too much global data");
    void* p = (void*)::syscall(SYS_mmap, BASE, 18 * GB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1L, 0L);
    if (p != (void*)BASE) engine_error("cannot map the arena");
    for (int i = 0; i < MAXF; i++) mprotect((void*)(STACK0 + (uintptr_t)i * STACK_PER), 4096, PROT_NONE);
    RS = (Slot*)big(SPAN * 8);
    AS = (uint8_t*)big(16 * GB / 8);
    cache = (uint64_t*)big(CACHE_N * 8, true);
    State* st = (State*)big(sizeof(State));
    S = (Shared*)big(sizeof(Shared), true);
    st->fibers = (Fiber*)big(sizeof(Fiber) * MAXF);
    st->objs = (SyncObj*)big(sizeof(SyncObj) * NOBJ);
    st->points = (Point*)big(sizeof(Point) * NPOINT);
    st->fail = (Failure*)big(sizeof(Failure));
    st->pristine = (unsigned char*)big(data_len);
    st->img[0] = (unsigned char*)big(data_len);
    st->gen = 0;
    st->np = 0;
    st->stepcap = 3000000;
    // let libc allocate what it keeps
    char b[100];
    tzset();
    snprintf(b, sizeof b, "%f %s %ls", 1.5, strerror(ENOENT), L"x");
    strsignal(11);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_fault;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    stack_t ss;
    ss.ss_sp = big(256 * 1024);
    ss.ss_size = 256 * 1024;
    ss.ss_flags = 0;
    sigaltstack(&ss, nullptr);
    int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT};
    for (int s : sigs) sigaction(s, &sa, nullptr);
    sa.sa_sigaction = on_timer;
    sigaction(SIGVTALRM, &sa, nullptr);
    std::set_terminate(on_terminate);
    g = st;
    rawcpy(st->pristine, __data_start, data_len);
    g = st;  // the snapshot contains g
    rawcpy(st->pristine, __data_start, data_len);
}

// ------------------------------------------------------------------------------------------- searches

bool run_inline(const std::function<void()>& body, int64_t horizon_ms, unsigned flags) {
    g->flags = flags;
    g->horizon = 1000000000000ll + horizon_ms * 1000000;
    g->policy = 0;
    g->cache_on = false;
    Node n;
    memset(&n, 0, sizeof n);
    End e = run_exec(n, 0, false, body);
    g->flags = 0;
    account(e);
    if (e == E_FAILED) {
        record_violation();
        _exit(0);
    }
    if (e == E_KNOWN) record_known();
    if (S->stop) _exit(0);
    return e == E_DONE;
}
void explore_inline(const std::function<void()>& body, int dev, unsigned flags, int64_t horizon_ms) {
    std::vector<Node> st;
    Node z;
    memset(&z, 0, sizeof z);
    st.push_back(z);
    while (!st.empty()) {
        g->horizon = 1000000000000ll + horizon_ms * 1000000;
        g->policy = 0;
        g->flags = flags;
        g->cache_on = false;
        Node nd = st.back();
        st.pop_back();
        End e = run_exec(nd, dev, true, body);
        account(e);
        if (e == E_FAILED) {
            record_violation();
            _exit(0);
        }
        if (e == E_KNOWN) record_known();
        if (S->stop) _exit(0);
        children(nd, [&](const Node& c) { st.push_back(c); });
    }
    g->flags = 0;
}
void count_states(uint64_t n) { __atomic_fetch_add(&S->states, n, __ATOMIC_RELAXED); }
void count_transitions(uint64_t n) { __atomic_fetch_add(&S->transitions, n, __ATOMIC_RELAXED); }
void count_traces(uint64_t n) { __atomic_fetch_add(&S->traces, n, __ATOMIC_RELAXED); }
void sample(const std::string& s) {
    lock();
    if (S->nsamp < 8) snprintf(S->samp[S->nsamp++], sizeof S->samp[0], "%s", s.c_str());
    unlock();
}
void note_param(const std::string& k, const std::string& v) {
    lock();
    int i = 0;
    for (; i < S->nparam; i++)
        if (k == S->pk[i]) break;
    if (i < 32) {
        snprintf(S->pk[i], sizeof S->pk[0], "%s", k.c_str());
        snprintf(S->pv[i], sizeof S->pv[0], "%s", v.c_str());
        if (i == S->nparam) S->nparam++;
    }
    unlock();
}
bool out_of_time(double seconds) { return wall() - S->search_start > seconds; }
void mark_incomplete(const std::string& why) {
    lock();
    S->incomplete = 1;
    snprintf(S->incomplete_why, sizeof S->incomplete_why, "%s", why.c_str());
    unlock();
}
void set_context(const std::string& s) { snprintf(g->ctx, sizeof g->ctx, "%s", s.c_str()); }

// ------------------------------------------------------------------------------------------- reporting
static std::string jstr(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') r += '\\', r += c;
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else
            r += c;
    }
    return r + "\"";
}
static std::string nodestr(const Node& n) {
    std::string r;
    for (int i = 0; i < n.n; i++) {
        char b[60];
        snprintf(b, sizeof b, "%s%u:%u:%u", i ? "," : "", n.d[i].pos, n.d[i].alt, n.d[i].sig);
        r += b;
    }
    return r.empty() ? "-" : r;
}
static Node parse_node(const char* s) {
    Node n;
    memset(&n, 0, sizeof n);
    if (*s == '-') return n;
    while (*s && n.n < MAXDEV) {
        unsigned p, a, g2;
        int k;
        if (sscanf(s, "%u:%u:%u%n", &p, &a, &g2, &k) != 3) break;
        n.d[n.n++] = Dev{p, (uint16_t)a, (uint16_t)g2};
        s += k;
        if (*s == ',') s++;
    }
    return n;
}

static void prep(const Scenario& sc, int policy) {
    g->flags = sc.flags;
    g->horizon = 1000000000000ll + sc.horizon_ms * 1000000;
    g->policy = policy;
    g->cache_on = !(sc.flags & NO_CACHE);
    g->scn = sc.name.c_str();
    g->ctx[0] = 0;
}
static void reset_shared() {
    double d = S->deadline, t = S->search_start;
    memset((void*)S, 0, offsetof(Shared, pool));
    S->deadline = d;
    S->search_start = t;
}

struct Result {
    std::string name, note;
    int bound = -1, target = 0;
    uint64_t execs = 0, steps = 0, states = 0, transitions = 0, pruned = 0, maxpoints = 0, traces = 0, knowns = 0;
    int nout = 0;
    bool complete = true;
    std::string why;
    double wall_s = 0;
    std::vector<std::string> outs, known, samples;
    std::vector<std::pair<std::string, std::string>> params;
    bool viol = false;
    std::string viol_sig, replay;
    bool is_search = false;
};

static void collect(Result& r) {
    r.execs += S->execs;
    r.steps += S->steps;
    r.states += S->states;
    r.transitions += S->transitions;
    r.pruned += S->pruned;
    r.traces += S->traces;
    r.knowns += S->knowns;
    if (S->maxpoints > r.maxpoints) r.maxpoints = S->maxpoints;
    r.nout = S->nout > r.nout ? S->nout : r.nout;
    r.outs.clear();
    for (int i = 0; i < S->nout && i < 16; i++) r.outs.push_back(S->outs[i]);
    for (int i = 0; i < S->nknown; i++) r.known.push_back(S->known[i]);
    for (int i = 0; i < S->nsamp; i++) r.samples.push_back(S->samp[i]);
    for (int i = 0; i < S->nparam; i++) r.params.push_back({S->pk[i], S->pv[i]});
}

static std::string symbolize(const std::string& text) {
    // collect 0x.... tokens that lie in the executable
    std::vector<std::string> toks;
    size_t i = 0;
    while ((i = text.find("0x", i)) != std::string::npos) {
        size_t j = i + 2;
        while (j < text.size() && isxdigit((unsigned char)text[j])) j++;
        unsigned long v = strtoul(text.substr(i, j - i).c_str(), nullptr, 16);
        if (v > (unsigned long)(uintptr_t)__executable_start && v < (unsigned long)(uintptr_t)etext) toks.push_back(text.substr(i, j - i));
        i = j;
    }
    if (toks.empty()) return text;
    char exe[1000];
    ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
    if (n <= 0) return text;
    exe[n] = 0;
    std::string cmd = std::string("addr2line -Cfpe ") + exe;
    for (auto& t : toks) cmd += " " + t;
    cmd += " 2>/dev/null";
    FILE* p = popen(cmd.c_str(), "r");
    if (!p) return text;
    std::vector<std::string> names;
    char* line = nullptr;
    size_t cap = 0;
    while (getline(&line, &cap, p) > 0) {
        std::string l = line;
        while (!l.empty() && (l.back() == '\n')) l.pop_back();
        size_t q;
        while ((q = l.find("__cxx11::")) != std::string::npos) l.erase(q, 9);
        while ((q = l.find("basic_string<char, std::char_traits<char>, std::allocator<char> >")) != std::string::npos) l.replace(q, 65, "string");
        if (l.size() > 260) {
            size_t at = l.rfind(" at ");
            l = l.substr(0, 180) + "..." + (at != std::string::npos && at > 180 ? l.substr(at) : "");
        }
        names.push_back(l);
    }
    pclose(p);
    std::string r;
    i = 0;
    size_t k = 0;
    while (i < text.size()) {
        if (k < toks.size() && text.compare(i, toks[k].size(), toks[k]) == 0) {
            r += k < names.size() ? names[k] : toks[k];
            i += toks[k].size();
            k++;
        } else
            r += text[i++];
    }
    return r;
}

struct Opt {
    bool thorough = false;
    std::string prop = "C00", json, only, replay, known, dir = ".", run;
    bool list = false, verbose = false;
    int policy = 0, dev = -1;
    double scale = 1, total = 1e9;
};

// Runs one schedule in a fresh process; the failure (if any) is left in S->viol.
static bool replay_once(const Scenario& sc, const Node& nd, int policy, bool verbose) {
    reset_shared();
    fork_all(1, [&](int) {
        unmap_all_segs();
        set_timer();
        prep(sc, policy);
        g->verbose = verbose;
        End e = run_exec(nd, 1000, false, sc.body);
        if (verbose) dprintf(out_fd, "end: %d, outcome: %s\n", e, g->outcome);
        if (e == E_FAILED || e == E_KNOWN) record_violation();
    });
    return S->nviol;
}

static std::string write_replay(const Opt& o, const std::string& scn, int policy, const Node& nd, const Failure& f, const std::string& ctx) {
    static int k = 0;
    char fn[600];
    snprintf(fn, sizeof fn, "%s/%s-%s-%d.txt", o.dir.c_str(), o.prop.c_str(), scn.c_str(), ++k);
    FILE* fp = fopen(fn, "w");
    if (!fp) engine_error("cannot write %s", fn);
    char exe[1000];
    ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
    exe[n > 0 ? n : 0] = 0;
    std::string msg = symbolize(f.msg);
    fprintf(fp, "property %s\nscenario %s\npolicy %d\nschedule %s\n", o.prop.c_str(), scn.c_str(), policy, nodestr(nd).c_str());
    fprintf(fp, "# replay: %s --prop %s --only '%s' --policy %d --run '%s' -v\n", exe, o.prop.c_str(), scn.c_str(), policy, nodestr(nd).c_str());
    fprintf(fp, "signature %s\n\n%s\n", f.sig, msg.c_str());
    if (!ctx.empty()) fprintf(fp, "\ncontext:\n%s\n", ctx.c_str());
    fclose(fp);
    dprintf(2, "---- %s %s: %s\n%s\n", o.prop.c_str(), scn.c_str(), f.sig, msg.substr(0, 6000).c_str());
    if (!ctx.empty()) dprintf(2, "context: %s\n", ctx.substr(0, 3000).c_str());
    return fn;
}

static const int NPOL = 4;

int main_run(int argc, char** argv, const char* technique) {
    Opt o;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "thorough") o.thorough = true;
        else if (a == "quick") o.thorough = false;
        else if (a == "--prop") o.prop = val();
        else if (a == "--json") o.json = val();
        else if (a == "--only") o.only = val();
        else if (a == "--known") o.known = val();
        else if (a == "--dir") o.dir = val();
        else if (a == "--run") o.run = val();
        else if (a == "--policy") o.policy = atoi(val().c_str());
        else if (a == "--dev") o.dev = atoi(val().c_str());
        else if (a == "--total") o.total = atof(val().c_str());
        else if (a == "--scale") o.scale = atof(val().c_str());
        else if (a == "--list") o.list = true;
        else if (a == "-v") o.verbose = true;
        else {
            dprintf(2, "unknown argument %s\n", a.c_str());
            return 3;
        }
    }
    knownv = new std::vector<KnownF>;
    prop_id = new std::string(o.prop);
    if (!o.known.empty())
        if (FILE* fp = fopen(o.known.c_str(), "r")) {
            char line[2000];
            while (fgets(line, sizeof line, fp)) {
                char p[100], s[200], sig[400];
                int k = 0;
                if (sscanf(line, "known: property=%99s scenario=%199s signature=%399s %n", p, s, sig, &k) == 3) {
                    std::string t = k ? line + k : "";
                    while (!t.empty() && t.back() == '\n') t.pop_back();
                    knownv->push_back({p, s, sig, t});
                }
            }
            fclose(fp);
        }
    auto& ord = order();
    if (o.list) {
        for (int k : ord) dprintf(1, "%s\n", k >= 0 ? scenarios()[k].name.c_str() : searches()[-1 - k].name.c_str());
        return 0;
    }
    fflush(stdout);
    out_fd = dup(1);
    setup();
    std::vector<Result> results;
    bool viol = false;
    const double start = wall();
    for (int k : ord) {
        const std::string& nm = k >= 0 ? scenarios()[k].name : searches()[-1 - k].name;
        if (o.prop != "C00" && nm.compare(0, o.prop.size() + 1, o.prop + ".")) continue;
        double t0 = wall();
        Result r;
        if (k >= 0) {
            const Scenario& sc = scenarios()[k];
            if (!o.only.empty() && o.only != sc.name) continue;
            if (!o.run.empty()) {
                Node nd = parse_node(o.run.c_str());
                bool v = replay_once(sc, nd, o.policy, o.verbose);
                if (v) dprintf(out_fd, "signature %s\n%s\n", S->viol.sig, symbolize(S->viol.msg).c_str());
                else dprintf(out_fd, "no failure\n");
                return v ? 1 : 0;
            }
            r.name = sc.name;
            r.note = sc.note;
            r.target = o.dev >= 0 ? o.dev : o.thorough ? sc.thorough_dev : sc.quick_dev;
            double budget = (o.thorough ? sc.thorough_s : sc.quick_s) * o.scale;
            if (t0 + budget > start + o.total) budget = start + o.total > t0 ? start + o.total - t0 : 1;
            S->deadline = t0 + budget;
            // warm-up: libc and libstdc++ allocate what they keep for ever
            reset_shared();
            madvise(cache, CACHE_N * 8, MADV_REMOVE);
            Node z;
            memset(&z, 0, sizeof z);
            for (int D = 0; D <= r.target && !viol; D++) {
                bool complete = true;
                for (int pol = 0; pol < NPOL && !viol; pol++) {
                    if (pol == 3 && (D == 0 || (D > 1 && D == r.target))) continue;  // the same as policy 0; one level less
                    if (D > 0 && wall() > S->deadline) {
                        complete = false;
                        break;
                    }
                    reset_shared();
                    S->pool[0] = z;
                    S->npool = 1;
                    S->active = 0;
                    fork_all(nworkers(), [&](int w) {
                        prep(sc, pol);
                        unmap_all_segs();
                        g->warm = true;
                        g->cache_on = false;
                        Node zz;
                        memset(&zz, 0, sizeof zz);
                        set_timer();
                        End e = run_exec(zz, 0, false, sc.body);
                        g->warm = false;
                        prep(sc, pol);
                        (void)e;
                        worker(sc, D);
                    });
                    collect(r);
                    if (S->nviol) {
                        Failure f;
                        memcpy(&f, (void*)&S->viol, sizeof f);
                        Node nd = S->viol_node;
                        std::string ctx = S->viol_ctx;
                        // replay in fresh processes: the same failure must come back
                        for (int t = 0; t < 2; t++) {
                            if (!replay_once(sc, nd, pol, false)) {
                                dprintf(2, "first: %s\n%s\n", f.sig, symbolize(f.msg).c_str());
                                engine_error("a failure did not replay (%s, then %s; schedule %s)", f.sig, S->nviol ? (char*)S->viol.sig : "none", nodestr(nd).c_str());
                            }
                        }
                        r.viol = viol = true;
                        r.viol_sig = f.sig;
                        r.replay = write_replay(o, sc.name, pol, nd, f, ctx);
                    } else if (S->incomplete) {
                        complete = false;
                        r.why = S->incomplete_why;
                    }
                }
                if (viol) break;
                if (!complete) {
                    r.complete = false;
                    if (r.why.empty()) r.why = "time budget";
                    break;
                }
                r.bound = D;
                if (!o.thorough && D < r.target && wall() - t0 > budget * 0.7) {
                    r.complete = false;
                    r.why = "time budget";
                    break;
                }
            }
        } else {
            const Search& se = searches()[-1 - k];
            if (!o.only.empty() && o.only != se.name) continue;
            r.name = se.name;
            r.note = se.note;
            r.is_search = true;
            reset_shared();
            S->search_start = t0;
            int n = nworkers();
            fork_all(n, [&](int w) {
                unmap_all_segs();
                g->flags = 0;
                g->scn = se.name.c_str();
                g->ctx[0] = 0;
                g->cache_on = false;
                set_timer();
                se.fn(w, n, o.thorough);
            });
            collect(r);
            if (S->nviol) {
                Failure f;
                memcpy(&f, (void*)&S->viol, sizeof f);
                std::string ctx = S->viol_ctx;
                Node nd = S->viol_node;
                // the search is deterministic: run it again and expect the same kind of failure
                reset_shared();
                S->search_start = wall();
                fork_all(n, [&](int w) {
                    unmap_all_segs();
                    g->flags = 0;
                    g->scn = se.name.c_str();
                    g->ctx[0] = 0;
                    set_timer();
                    se.fn(w, n, o.thorough);
                });
                if (!S->nviol) engine_error("a failure in search %s did not come back: %s %s", se.name.c_str(), f.sig, f.msg);
                r.viol = viol = true;
                r.viol_sig = f.sig;
                r.replay = write_replay(o, se.name, 0, nd, f, ctx);
            }
            r.complete = !S->incomplete;
            r.why = S->incomplete_why;
        }
        r.wall_s = wall() - t0;
        results.push_back(r);
        dprintf(2, "[%s] %s: bound %d/%d%s, %llu executions, %llu states, %llu steps, %llu pruned, <=%llu points, %d outcomes, %.1f s%s\n", o.prop.c_str(), r.name.c_str(), r.bound,
                r.target, r.complete ? "" : (" (incomplete: " + r.why + ")").c_str(), (unsigned long long)r.execs, (unsigned long long)r.states, (unsigned long long)r.steps, (unsigned long long)r.pruned,
                (unsigned long long)r.maxpoints, r.nout, r.wall_s, r.viol ? "  VIOLATION" : "");
        if (viol) break;
    }
    if (!o.json.empty()) {
        FILE* fp = fopen(o.json.c_str(), "w");
        if (!fp) engine_error("cannot write %s", o.json.c_str());
        fprintf(fp, "{\"technique\":%s,\"scenarios\":[", jstr(technique).c_str());
        bool first = true;
        for (auto& r : results) {
            fprintf(fp, "%s\n{\"name\":%s,\"note\":%s,\"search\":%s,\"bound\":%d,\"target\":%d,\"executions\":%llu,\"steps\":%llu,\"states\":%llu,\"transitions\":%llu,\"pruned\":%llu,\"max_points\":%llu,\"traces\":%llu,\"outcomes\":%d,\"complete\":%s,\"why\":%s,\"wall_s\":%.2f,\"known_hits\":%llu",
                    first ? "" : ",", jstr(r.name).c_str(), jstr(r.note).c_str(), r.is_search ? "true" : "false", r.bound, r.target, (unsigned long long)r.execs, (unsigned long long)r.steps,
                    (unsigned long long)r.states, (unsigned long long)r.transitions, (unsigned long long)r.pruned, (unsigned long long)r.maxpoints, (unsigned long long)r.traces, r.nout,
                    r.complete ? "true" : "false", jstr(r.why).c_str(), r.wall_s, (unsigned long long)r.knowns);
            first = false;
            auto arr = [&](const char* k2, const std::vector<std::string>& v) {
                fprintf(fp, ",\"%s\":[", k2);
                for (size_t i = 0; i < v.size(); i++) fprintf(fp, "%s%s", i ? "," : "", jstr(v[i]).c_str());
                fprintf(fp, "]");
            };
            arr("outcome_samples", r.outs);
            arr("known", r.known);
            arr("samples", r.samples);
            fprintf(fp, ",\"params\":{");
            for (size_t i = 0; i < r.params.size(); i++) fprintf(fp, "%s%s:%s", i ? "," : "", jstr(r.params[i].first).c_str(), jstr(r.params[i].second).c_str());
            fprintf(fp, "}");
            if (r.viol) fprintf(fp, ",\"violation\":%s,\"replay\":%s", jstr(r.viol_sig).c_str(), jstr(r.replay).c_str());
            fprintf(fp, "}");
        }
        fprintf(fp, "\n]}\n");
        fclose(fp);
    }
    return viol ? 1 : 0;
}

}  // namespace vmc
