#include "duo.h"

struct Held {
    int threads, fds, views, sems, shm, semn;
    static Held now() { return {live_threads(), open_fds(), live_views(), open_sems(), shm_names(), sem_names()}; }
    void same(const char* who) {
        Held n = now();
        VMC_CHECK(n.threads == threads, "threads-left", "%s: %d threads more", who, n.threads - threads);
        VMC_CHECK(n.shm == shm && n.semn == semn, "names-left", "%s: names are left, there are now: %s", who, names().c_str());
        VMC_CHECK(n.views == views, "mappings-left", "%s: %d mappings more", who, n.views - views);
        VMC_CHECK(n.fds == fds, "fds-left", "%s: %d file descriptors more", who, n.fds - fds);
        VMC_CHECK(n.sems == sems, "semaphores-left", "%s: %d semaphore handles more", who, n.sems - sems);
    }
    void at_most(const Held& o, const char* who) {  // n is what is held now, o what was held with everything connected
        VMC_CHECK(threads <= o.threads && fds <= o.fds && views <= o.views && sems <= o.sems && shm <= o.shm && semn <= o.semn, "handles-grow", "%s: fds %d/%d, mappings %d/%d, semaphores %d/%d, names %d/%d", who, fds,
                  o.fds, views, o.views, sems, o.sems, shm + semn, o.shm + o.semn);
    }
};
static void no_memory(uint64_t seq, const char* who) {
    uint64_t n = live_heap_blocks_since(seq);
    VMC_CHECK(n == 0, "memory-left", "%s: %d blocks of memory are left:\n%s", who, (int)n, live_heap_report(seq, 5).c_str());
}
static void warm_up() {
    Veigar w;
    w.bind("f", [](int x) { return x; });
    VMC_CHECK(w.init("W", 2, 64), "init-failed", "W");
    CallResult r = w.syncCall("W", 1000, "f", 1);
    CallResult r2 = w.syncCall("absent", 100, "f", 1);
    w.uninit();
}
static void works(Veigar& a, const char* self, int runs, const char* who) {
    CallResult r = a.syncCall(self, 1000, "f", 5);
    must_be(r, 1005, who);
    CallResult r2 = a.syncCall(self, 1000, "len", string("abc"));
    must_be(r2, 3, who);
    vector<string> n = a.bindNames();
    VMC_CHECK(n.size() == 2 && (n[0] == "f" || n[1] == "f") && (n[0] == "len" || n[1] == "len"), "functions-lost", "%s: %d names are bound", who, (int)n.size());
}
static void bind2(Veigar& a) {
    a.bind("f", [](int x) { return x + 1000; });
    a.bind("len", [](string s) { return (int)s.size(); });
}
// init with refusals; every one must fail cleanly until none is made
static bool try_init(Veigar& a, const char* name, uint32_t cap, uint32_t msz, const char* who, bool alone = true) {
    Held h = Held::now();
    int f = faults();
    window(true);
    bool ok = a.init(name, cap, msz);
    window(false);
    VMC_CHECK(a.isInit() == ok, "is-init", "%s: init said %d, isInit says %d", who, ok, a.isInit());
    if (!ok) {
        VMC_CHECK(faults() > f, "init-failed", "%s: init failed although nothing was refused", who);
        if (alone) h.same(who);
        VMC_CHECK(names().find(string(name) + "_") == string::npos, "names-left", "%s: names are left: %s", who, names().c_str());
        vector<string> n = a.bindNames();
        VMC_CHECK(n.size() == 2, "functions-lost", "%s: %d names are bound after a failed init", who, (int)n.size());
        CallResult r = a.syncCall(name, 1000, "f", 1);
        must_fail(r, who);
    }
    return ok;
}

static void c22() {
    // an instance alone; its failed init is repeated until it succeeds, then used, in two lives
    add(scn("C22.init", VT > 1 ? 1 : 2, VT > 1 ? 2 : 3, [] {
        window(false);
        warm_up();
        Held before = Held::now();
        uint64_t seq = heap_seq();
        {
            Veigar a;
            bind2(a);
            int other = choose(2, "retried with another name");
            for (int life = 0; life < 2; life++) {
                const char* name = "A";
                int tries = 0;
                while (!try_init(a, name, 4, 256, "init")) {
                    VMC_CHECK(++tries < 10, "init-failed", "init fails again and again");
                    if (other) name = tries % 2 ? "A2" : "A";
                    if (choose(2, "uninit after a failed init")) a.uninit();
                    before.same("after a failed init");
                }
                works(a, name, 0, "after init");
                a.uninit();
                before.same("after shutdown");
                if (life == 0) bind2(a);
            }
        }
        before.same("at the end");
        no_memory(seq, "at the end");
    }, NO_RACES | OS_FAULTS, 20, 200));

    // with another instance around, which is not disturbed
    add(scn("C22.init_with_peer", VT > 1 ? 1 : 2, VT > 1 ? 2 : 3, [] {
        Duo d(4, 256);
        Veigar x;
        bind2(x);
        int k = choose(3, "kind");  // 0: B's own name can be taken over, 1: calls during init, 2: B calls back
        shared_ptr<AsyncCallResult> p;
        if (k == 1) p = d.a.asyncCall("B", 1000, "f", 1);
        int tries = 0;
        while (!try_init(x, "X", 4, 256, "init of X", k != 1)) VMC_CHECK(++tries < 10, "init-failed", "init fails again and again");
        if (k == 1) {
            settle(1000);
            bool done = p->second.wait_for(chrono::milliseconds(0)) == future_status::ready;
            VMC_CHECK(done || faults() > 0, "never-completed", "a call of A to B");
            CallResult r;
            if (done) r = p->second.get();
            if (done && (r.isSuccess() || faults() == 0)) must_be(r, 1001, "call of A");
        }
        CallResult r = d.a.syncCall("B", 1000, "f", 2);
        must_be(r, 1002, "A to B");
        if (k == 2) r = d.a.syncCall("X", 1000, "f", 3), must_be(r, 1003, "A to X");
        works(x, "X", 0, "X");
        x.uninit();
        d.end();
        VMC_CHECK(shm_names() == 0 && sem_names() == 0, "names-left", "names are left: %s", names().c_str());
    }, NO_RACES | OS_FAULTS, 20, 200));

    // first contact with a target
    for (int style = 0; style < 3; style++)
        add(scn(string("C22.contact_") + (style == 0 ? "sync" : style == 1 ? "promise" : "callback"), VT > 1 ? 1 : 2, VT > 1 ? 2 : 3, [style] {
            window(false);
            // what is held when everything is connected
            warm_up();
            Held zero = Held::now(), full;
            {
                Duo d(4, 256);
                CallResult r = d.a.syncCall("B", 1000, "f", 1);
                must_be(r, 1001, "reference");
                settle(10);
                full = Held::now();
                d.end();
            }
            zero.same("reference");
            {
                Duo d(4, 256);
                Held h = Held::now();
                int x = 0;
                for (int round = 0; round < 4; round++, x++) {
                    int f = faults(), ran = d.runs.get();
                    bool ok;
                    window(round < 3);
                    if (style == 0) {
                        int64_t t0 = now_us();
                        CallResult r = d.a.syncCall("B", 200, "f", x);
                        ok = r.isSuccess();
                        VMC_CHECK(now_us() - t0 < 300000, "too-late", "the call took %lld us", (long long)(now_us() - t0));
                        if (ok) must_be(r, 1000 + x, "A to B");
                        else must_fail(r, "A to B");
                    } else if (style == 1) {
                        auto p = d.a.asyncCall("B", 200, "f", x);
                        VMC_CHECK(p && p->second.valid(), "no-future", "no future");
                        if (p->second.wait_for(chrono::milliseconds(300)) == future_status::ready) {
                            CallResult r = p->second.get();
                            ok = r.isSuccess();
                            if (ok) must_be(r, 1000 + x, "A to B");
                            else must_fail(r, "A to B");
                        } else {
                            // sent, but B could not answer
                            VMC_CHECK(d.runs.get() == ran + 1, "never-completed", "a call that was not sent was never completed");
                            ok = false;
                            d.a.releaseCall(p->first);
                        }
                    } else {
                        Cb* c = new Cb;
                        d.a.asyncCall(c->fn(), "B", 200, "f", x);
                        c->n.wait(1, 300);
                        window(false);
                        settle(300);
                        if (c->n.get() == 0) VMC_CHECK(d.runs.get() == ran + 1, "never-completed", "a call that was not sent was never completed");
                        VMC_CHECK(c->n.get() <= 1, "callback-count", "%d", c->n.get());
                        ok = c->ok.get();
                        if (ok) c->value(1000 + x, "A to B");
                        if (c->n.get()) delete c;  // otherwise it is still registered
                    }
                    window(false);
                    VMC_CHECK(ok || faults() > f, "call-failed", "the call failed although nothing was refused");
                    VMC_CHECK(!ok || d.runs.get() == ran + 1, "run-count", "the function ran %d times", d.runs.get() - ran);
                    settle(5);
                    Held n = Held::now();
                    n.at_most(full, "after a call");
                    if (!ok && d.runs.get() == ran) {
                        // B was not reached
                        if (round == 0) h.same("after a contact that failed");
                    }
                }
                d.end();
            }
            zero.same("at the end");
        }, NO_RACES | OS_FAULTS, 20, 200));

    // both directions, two targets, one of which can not be reached for a while: the other one is not affected
    add(scn("C22.two_targets", VT > 1 ? 1 : 2, VT > 1 ? 2 : 3, [] {
        Duo d(4, 256);
        Peer C;
        C.start("C", [](Veigar& v) { v.bind("g", [](int x) { return x + 7; }); });
        CallResult r = d.a.syncCall("C", 1000, "g", 1);
        must_be(r, 8, "A to C");
        window(true);
        auto p = d.a.asyncCall("C", 1000, "g", 2);
        auto q = d.a.asyncCall("B", 200, "f", 1);
        auto p2 = d.a.asyncCall("C", 1000, "g", 3);
        r = await(p, 1500, "A to C");
        must_be(r, 9, "A to C");
        r = await(p2, 1500, "A to C");
        must_be(r, 10, "A to C");
        window(false);
        settle(300);
        if (q->second.wait_for(chrono::milliseconds(0)) == future_status::ready) {
            r = q->second.get();
            if (r.isSuccess()) must_be(r, 1001, "A to B");
        } else
            VMC_CHECK(d.runs.get() == 1, "never-completed", "a call that was not sent was never completed");
        r = d.a.syncCall("B", 1000, "f", 4);
        must_be(r, 1004, "A to B afterwards");
        C.finish();
        d.end();
        VMC_CHECK(shm_names() == 0 && sem_names() == 0, "names-left", "names are left: %s", names().c_str());
    }, NO_RACES | OS_FAULTS, 20, 200));

    // contact with a target that came back
    add(scn("C22.contact_again", VT > 1 ? 1 : 2, VT > 1 ? 2 : 3, [] {
        Duo d(4, 256);
        Veigar x;
        bind2(x);
        VMC_CHECK(x.init("X", 4, 256), "init-failed", "X");
        CallResult r = d.a.syncCall("X", 1000, "f", 1);
        must_be(r, 1001, "A to X");
        r = x.syncCall("A", 1000, "nothing", 1);
        must_fail(r, "X to A");
        Held h = Held::now();
        x.uninit();
        bind2(x);
        int tries = 0;
        while (!try_init(x, "X", 4, 256, "init of X again")) VMC_CHECK(++tries < 10, "init-failed", "init fails again and again");
        for (int i = 0; i < 3; i++) {
            int f = faults();
            window(i < 2);
            r = d.a.syncCall("X", 200, "f", 10 + i);
            window(false);
            if (r.isSuccess()) must_be(r, 1010 + i, "A to X again");
            else VMC_CHECK(faults() > f, "call-failed", "the call failed although nothing was refused: %s", r.errorMessage.c_str());
        }
        x.uninit();
        d.end();
        VMC_CHECK(shm_names() == 0 && sem_names() == 0, "names-left", "names are left: %s", names().c_str());
        (void)h;
    }, NO_RACES | OS_FAULTS, 20, 200));

    // a failing init while others call that name, and while functions are bound
    add(scn("C22.called_during_init", VT > 1 ? 1 : 2, VT > 1 ? 2 : 3, [] {
        Duo d(4, 256);
        Veigar x;
        bind2(x);
        auto p = d.a.asyncCall("X", 200, "f", 1);
        int tries = 0;
        // (residue is counted at the end: A may hold the queue of the attempt that failed)
        for (bool ok = false; !ok; tries++) {
            VMC_CHECK(tries < 10, "init-failed", "init fails again and again");
            int f = faults();
            window(true);
            ok = x.init("X", 4, 256);
            window(false);
            VMC_CHECK(ok || faults() > f, "init-failed", "init failed although nothing was refused");
            VMC_CHECK(ok || x.bindNames().size() == 2, "functions-lost", "after a failed init");
            if (!ok) VMC_CHECK(names().find("X_") == string::npos, "names-left", "after a failed init: %s", names().c_str());
        }
        settle(300);
        if (p->second.wait_for(chrono::milliseconds(0)) == future_status::ready) {
            CallResult r = p->second.get();
            if (r.isSuccess()) must_be(r, 1001, "early call");
        }
        CallResult r = d.a.syncCall("X", 1000, "f", 2);
        must_be(r, 1002, "A to X");
        works(x, "X", 0, "X");
        x.uninit();
        d.end();
        VMC_CHECK(shm_names() == 0 && sem_names() == 0, "names-left", "names are left: %s", names().c_str());
        VMC_CHECK(live_views() == 0 && open_fds() == 0 && open_sems() == 0, "handles-left", "%d mappings, %d fds, %d semaphores", live_views(), open_fds(), open_sems());
    }, NO_RACES | OS_FAULTS, 20, 200));
}
int main(int argc, char** argv) {
    c22();
    return main_run(argc, argv, "exhaustive exploration of refusals and schedules");
}
