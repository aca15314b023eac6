#include "duo.h"

static void everything_gone(const char* who, int threads = 0) {
    VMC_CHECK(live_threads() == threads, "threads-left", "%s: %d threads are left", who, live_threads() - threads);
    VMC_CHECK(shm_names() == 0 && sem_names() == 0, "names-left", "%s: names are left: %s", who, names().c_str());
    VMC_CHECK(live_views() == 0, "mappings-left", "%s: %d mappings are left", who, live_views());
    VMC_CHECK(open_fds() == 0, "fds-left", "%s: %d file descriptors are left", who, open_fds());
    VMC_CHECK(open_sems() == 0, "semaphores-left", "%s: %d semaphore handles are left open", who, open_sems());
}
static void no_memory(uint64_t seq, const char* who) {
    uint64_t n = live_heap_blocks_since(seq);
    VMC_CHECK(n == 0, "memory-left", "%s: %d blocks of memory are left:\n%s", who, (int)n, live_heap_report(seq, 5).c_str());
}
static void warm_up() {  // what is allocated only once per process
    Veigar w;
    w.bind("f", [](int x) { return x; });
    VMC_CHECK(w.init("W", 2, 64), "init-failed", "W");
    CallResult r = w.syncCall("W", 1000, "f", 1);
    CallResult r2 = w.syncCall("absent", 100, "f", 1);
    w.uninit();
}

struct Use {
    Duo* d;
    Peer* C = nullptr;
    vector<shared_ptr<AsyncCallResult>> kept;
    Counter cb;
    void op(int k) {
        Veigar& a = d->a;
        auto count = [this](const CallResult&) { cb++; };
        switch (k) {
            case 0: { CallResult r = a.syncCall("B", 1000, "add", 1, 2); break; }
            case 1: { CallResult r = a.syncCall("B", 1000, "len", string(300, (char)120)); break; }     // larger than expected
            case 2: { CallResult r = a.syncCall("B", 1000, "len", string(9000, 'x')); break; }    // can never fit
            case 3: { CallResult r = a.syncCall("none", 50, "add", 1, 2); break; }
            case 4: { CallResult r = a.syncCall("B", 1000, "no_such", 1); break; }
            case 5: { CallResult r = a.syncCall("B", 40, "nap", 60); break; }                     // times out, the response comes late
            case 6: a.asyncCall(count, "B", 1000, "f", 1); break;
            case 7: a.asyncCall(count, "B", 1000, "slow", 1); break;                              // outstanding at the end
            case 8: a.asyncCall(nullptr, "B", 1000, "f", 1); break;                               // nobody wants to know
            case 9: kept.push_back(a.asyncCall("B", 1000, "f", 1)); break;                        // never released
            case 10: kept.push_back(a.asyncCall("B", 1000, "slow", 1)); break;
            case 11: {
                auto p = a.asyncCall("B", 1000, "f", 1);
                a.releaseCall(p->first);
                break;
            }
            case 12: for (int i = 0; i < VT + 5; i++) a.asyncCall(count, "B", 40, "slow", 1); break;  // fills B's queue
            case 13: { CallResult r = a.syncCall("A", 1000, "af", string(200, 'y')); break; }     // itself
            case 14: { CallResult r = a.syncCall("B", 1000, "throws", 1); break; }
            case 15: {
                Peer p;
                p.start("D", [](Veigar& v) { v.bind("df", [](int x) { return x; }); });
                CallResult r = a.syncCall("D", 1000, "df", 1);
                p.finish();
                break;
            }
            case 16: {
                Peer p;  // somebody calls A and goes away before the response
                p.start("D", nullptr, 8, 256, [](Veigar& v) { v.asyncCall(nullptr, "A", 1000, "nap", 20); }, false);
                p.up.wait(1);
                p.finish();
                break;
            }
            case 17: {  // restart
                a.uninit();
                VMC_CHECK(a.init("A", 4, 256), "init-failed", "A again");
                a.bind("af", [](string s) { return s + s; });
                break;
            }
        }
    }
};
static const int NUSE = 18;

static void history(int len, bool sched) {
    window(false);
    warm_up();
    int threads = live_threads();
    everything_gone("before", threads);
    uint64_t seq = heap_seq();
    {
        Duo d(4, 256);
        d.a.bind("af", [](string s) { return s + s; });
        d.a.bind("nap", [](int ms) { sleep_ms(ms); return ms; });
        Use u{&d};
        window(sched);
        for (int i = 0; i < len; i++) u.op(choose(NUSE, "use"));
        int order = choose(4, "who ends first");
        if (order & 1) settle(200);
        if (order & 2) {
            d.gate++;
            d.B.finish();
            d.a.uninit();
        } else {
            d.a.uninit();
            d.gate++;
            d.B.finish();
        }
        window(false);
        // both are shut down: only memory may be left, until they are destroyed
        everything_gone("after both were shut down", threads);
    }
    everything_gone("after both were destroyed", threads);
    no_memory(seq, "after both were destroyed");
}

static void c13() {
    add(scn("C13.histories", 0, 0, [] { history(3, false); }, NO_RACES, 40, 300, 60000, "every history of three uses, ended in four ways"));
    add(scn("C13.schedules", 1, 2, [] { history(1, true); }, NO_RACES, 40, 500, 60000, "every use with every schedule within the bound"));
    // one instance goes, the other stays: what is left belongs to the other
    add(scn("C13.one_stays", 1, 2, [] {
        window(false);
        warm_up();
        Duo d(8, 256);
        d.a.bind("afast", [](int x) { return x; });
        // after a first contact with E, A and B are in their steady state
        auto round = [&](int k, bool sched) {
            Veigar e;
            VMC_CHECK(e.init("E", 4, 128), "init-failed", "E");
            e.bind("ef", [](int x) { return x; });
            window(sched);
            CallResult r1 = e.syncCall("A", 1000, "afast", 1);
            CallResult r2 = d.a.syncCall("E", 1000, "ef", 1);
            if (k == 1) e.asyncCall(nullptr, "B", 1000, "slow", 1);
            if (k == 2) d.a.asyncCall(nullptr, "E", 1000, "ef", 1);
            if (k == 3) e.asyncCall(nullptr, "A", 1000, "afast", 1);
            e.uninit();
            window(false);
            VMC_CHECK(names().find("E_") == string::npos, "names-left", "names of the instance that was shut down are left: %s", names().c_str());
        };
        int t0 = live_threads();
        round(0, false);
        settle(100);
        int t = live_threads(), f = open_fds(), v = live_views(), m = open_sems();
        VMC_CHECK(t == t0, "threads-left", "%d threads, %d before", t, t0);
        int k = choose(4, "kind");
        round(k, true);
        d.gate.add(100);
        settle(100);
        VMC_CHECK(live_threads() == t, "threads-left", "%d threads, %d before", live_threads(), t);
        // B may have made contact with E for the first time: one queue
        int extra = k == 1;
        VMC_CHECK(open_fds() <= f + extra && live_views() <= v + extra && open_sems() <= m + 2 * extra, "handles-grow", "a second round left %d fds, %d mappings, %d semaphores", open_fds() - f, live_views() - v, open_sems() - m);
        d.end();
        everything_gone("at the end", live_threads());
    }));
    // destroying without having been initialised, failed inits
    add(scn("C13.unused", 0, 0, [] {
        window(false);
        warm_up();
        uint64_t seq = heap_seq();
        {
            Veigar a;
            int k = choose(8, "use");
            if (k & 1) a.bind("f", [](string s) { return s; });
            if (k & 2) {
                a.init("", 8, 256);
                a.init("x/y", 8, 256);
                a.init("A", 0, 256);
                a.init(string(240, 'n'), 8, 256);
            }
            if (k & 4) {
                CallResult r = a.syncCall("B", 100, "f", 1);
                a.asyncCall([](const CallResult&) {}, "B", 100, "f", 1);
                auto p = a.asyncCall("B", 100, "f", 1);
                a.releaseCall(p->first);
                a.releaseCall("");
                a.uninit();
            }
        }
        everything_gone("an instance that was never initialised");
        no_memory(seq, "an instance that was never initialised");
    }));
}
int main(int argc, char** argv) {
    c13();
    return main_run(argc, argv, "exhaustive exploration of usage histories");
}
