#include "duo.h"
#include <optional>

// What the lifecycle of one instance is supposed to be.
struct LifeModel {
    bool up = false;
    string name;
    uint32_t lock_ms = 30;
    map<string, int> funcs;
};

struct Life {
    Veigar x[2];
    int cur = 0;  // the instance under test is x[cur]; moving changes it
    Veigar p;     // another instance
    LifeModel m;
    int serial = 0;
    Veigar& X() { return x[cur]; }
    void init(const string& name, bool usable, uint32_t cap = 8, uint32_t msz = 256) {
        bool want = m.up ? m.name == name : usable;
        bool r = X().init(name, cap, msz);
        VMC_CHECK(r == want, "init-result", "init(\"%.20s\", %u, %u) of an instance that is %s returned %d", name.c_str(), cap, msz, m.up ? m.name.c_str() : "not initialised", r);
        if (!m.up && want) {
            m.up = true;
            m.name = name;
            VMC_CHECK(X().msgQueueCapacity() == cap && X().expectedMsgMaxSize() == msz, "settings", "settings are %u %u instead of %u %u", X().msgQueueCapacity(), X().expectedMsgMaxSize(), cap, msz);
        }
    }
    void uninit() {
        X().uninit();
        if (m.up) m.funcs.clear();
        m.up = false;
    }
    void bind(const char* n) {
        int id = ++serial;
        bool r = X().bind(n, [id](int v) { return id * 10 + v; });
        bool want = *n && !m.funcs.count(n);
        VMC_CHECK(r == want, "bind-result", "bind(\"%s\") returned %d", n, r);
        if (want) m.funcs[n] = id;
    }
    void unbind(const char* n) {
        X().unbind(n);
        m.funcs.erase(n);
    }
    void check() {
        VMC_CHECK(X().isInit() == m.up, "is-init", "isInit is %d", X().isInit());
        if (m.up) VMC_CHECK(X().channelName() == m.name, "channel-name", "the channel name is %s instead of %s", X().channelName().c_str(), m.name.c_str());
        VMC_CHECK(X().timeoutOfRWLock() == m.lock_ms, "settings", "the lock timeout is %u instead of %u", X().timeoutOfRWLock(), m.lock_ms);
        vector<string> v = X().bindNames();
        set<string> s(v.begin(), v.end()), e;
        for (auto& f : m.funcs) e.insert(f.first);
        VMC_CHECK(v.size() == s.size() && s == e, "names", "%d names are listed, %d functions are bound", (int)v.size(), (int)m.funcs.size());
    }
    // calls n of channel ch from v
    void call_from(Veigar& v, const string& ch, const char* n, const char* who) {
        CallResult r = v.syncCall(ch, 400, n, 3);
        auto it = m.funcs.find(n);
        if (m.up && ch == m.name && v.isInit() && it != m.funcs.end()) must_be(r, it->second * 10 + 3, who);
        else must_fail(r, who);
    }
    void calls() {
        call_from(X(), m.up ? m.name : "A", "f", "call of itself");
        for (const char* ch : {"A", "B2"}) call_from(p, ch, "f", "call from another instance");
        CallResult r = X().syncCall("P", 400, "pf", 4);
        if (m.up) must_be(r, 1004, "call of another instance");
        else must_fail(r, "call of an instance that is not initialised");
    }
    void op(int k) {
        const string longname(300, 'n');
        switch (k) {
            case 0: init("A", true); break;
            case 1: init("B2", true, 3, 700); break;
            case 2: uninit(); break;
            case 3: bind("f"); break;
            case 4: unbind("f"); break;
            case 5: init("", false); break;
            case 6: init("A", m.up && m.name == "A", 0, 256); break;
            case 7: init("x/y", false); break;
            case 8: init(longname, false); break;
            case 9: bind("g"); break;
            case 10:
                X().setTimeoutOfRWLock(77);
                m.lock_ms = 77;
                break;
            case 11: X().setTimeoutOfRWLock(0); break;
            case 12:
                if (!m.up) {
                    int o = 1 - cur;
                    x[o] = std::move(x[cur]);
                    cur = o;
                }
                break;
            case 13: calls(); break;
            case 14: bind(""); break;
            case 15: {  // a callback call, completed exactly once whether initialised or not
                Counter n, ok;
                X().asyncCall([&](const CallResult& r) { if (r.isSuccess()) ok++; n++; }, "P", 400, "pf", 1);
                VMC_CHECK(n.wait(1, 2000), "never-completed", "the callback did not run");
                VMC_CHECK(ok.get() == (m.up ? 1 : 0), "call-failed", "a callback call %s", ok.get() ? "succeeded" : "failed");
                break;
            }
        }
    }
};
static void names_gone(const char* who) {
    VMC_CHECK(shm_names() == 0 && sem_names() == 0, "residue", "%s: left %s", who, names().c_str());
}

static void body(int len, int nops, bool window_on) {
    Life l;
    window(false);
    VMC_CHECK(l.p.init("P", 8, 256), "init-failed", "P");
    l.p.bind("pf", [](int v) { return v + 1000; });
    l.check();
    window(window_on);
    for (int i = 0; i < len; i++) {
        l.op(choose(nops, "operation"));
        l.check();
    }
    window(false);
    // whatever happened: works like a fresh instance
    l.calls();
    if (!l.m.up) {
        l.init("C", true);
        l.check();
        l.calls();
    }
    if (!l.m.funcs.count("f")) l.bind("f");
    if (!l.m.funcs.count("g")) l.bind("g");
    l.calls();
    l.call_from(l.p, l.m.name, "f", "call from another instance at the end");
    l.call_from(l.p, l.m.name, "g", "call from another instance at the end");
    l.X().uninit();
    l.p.uninit();
    names_gone("both instances were shut down");
}

static void c11() {
    add(scn("C11.sequences", 0, 0, [] { body(4, 14, false); }, NO_RACES, 50, 300, 60000, "all sequences of 4 operations"));
    add(scn("C11.core_sequences", 0, 0, [] { body(7, 5, false); }, NO_RACES, 50, 300, 60000, "all sequences of 7 operations out of init A, init B2, uninit, bind, unbind"));
    add(scn("C11.other_operations", 0, 0, [] { body(3, 16, false); }, NO_RACES, 30, 300, 60000));
    add(scn("C11.schedules", 1, 2, [] { body(3, 4, true); }, NO_RACES, 50, 400, 60000, "all sequences of 3 operations with every schedule within the bound"));
    // move construction
    add(scn("C11.moved", 0, 0, [] {
        window(false);
        Veigar a;
        bool f = choose(2, "bound before");
        bool cycle = choose(2, "used before");
        if (cycle) {
            VMC_CHECK(a.init("A", 8, 256), "init-failed", "A");
            a.uninit();
        }
        if (f) a.bind("f", [](int v) { return v + 1; });
        a.setTimeoutOfRWLock(55);
        Veigar b(std::move(a));
        VMC_CHECK(b.timeoutOfRWLock() == 55 && (int)b.bindNames().size() == (f ? 1 : 0) && !b.isInit(), "moved", "the moved instance lost its state");
        if (!f) VMC_CHECK(b.bind("f", [](int v) { return v + 1; }), "bind-result", "bind");
        VMC_CHECK(b.init("B", 8, 256), "init-failed", "B");
        CallResult r = b.syncCall("B", 500, "f", 1);
        must_be(r, 2, "call of a moved instance");
        // the instance moved from can be used like a new one
        Veigar c0;
        bool direct = choose(2, "used where it is");
        if (!direct) c0 = std::move(a);
        Veigar& c = direct ? a : c0;
        VMC_CHECK(c.bindNames().empty() && c.bind("f", [](int v) { return v + 2; }) && c.init("C", 8, 256), "moved", "an instance that was moved from can not be reused");
        CallResult r2 = b.syncCall("C", 500, "f", 1);
        must_be(r2, 3, "call between moved instances");
        CallResult r3 = c.syncCall("B", 500, "f", 1);
        must_be(r3, 2, "call between moved instances");
        if (choose(2, "order")) b.uninit(), c.uninit();
        else c.uninit(), b.uninit();
        names_gone("both instances were shut down");
    }));
    // settings read back as given, before, during and after the life of the instance, and it works with them
    add(scn("C11.settings", 0, 0, [] {
        window(false);
        static const uint32_t LOCK[] = {1, 2, 29, 30, 31, 1000, 10000, 65535, 65536, 1000000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF};
        static const uint32_t CAP[] = {1, 2, 3, 64, 255, 256, 257, 65535, 65536}, SIZE[] = {1, 2, 200, 255, 256, 4096, 65536, 1000000};
        uint32_t lock = LOCK[choose(13, "lock timeout")];
        uint32_t cap = 8, size = 256;
        if (lock == 29) cap = CAP[choose(9, "capacity")], size = SIZE[choose(8, "size")];
        if ((uint64_t)cap * size > 1 << 26) size = 100;
        Veigar a;
        VMC_CHECK(a.timeoutOfRWLock() == 30, "settings", "the default lock timeout is %u", a.timeoutOfRWLock());
        auto check = [&](const char* when) {
            VMC_CHECK(a.timeoutOfRWLock() == lock, "settings", "%s the lock timeout is %u instead of %u", when, a.timeoutOfRWLock(), lock);
            if (a.isInit()) VMC_CHECK(a.msgQueueCapacity() == cap && a.expectedMsgMaxSize() == size, "settings", "%s the settings are %u %u instead of %u %u", when, a.msgQueueCapacity(), a.expectedMsgMaxSize(), cap, size);
        };
        a.setTimeoutOfRWLock(lock);
        check("before init");
        a.bind("f", [](int v) { return v + 1; });
        VMC_CHECK(a.init("A", cap, size), "init-failed", "init(\"A\", %u, %u)", cap, size);
        check("after init");
        VMC_CHECK(a.init("A", cap + 1, size + 1), "init-result", "init again under the same name");
        VMC_CHECK(!a.init("B", cap + 1, size + 1), "init-result", "init again under another name");
        check("after repeated init");
        a.setTimeoutOfRWLock(30);
        if ((uint64_t)cap * size >= 200) {
            CallResult r = a.syncCall("A", 500, "f", 4);
            must_be(r, 5, "call of itself");
        }
        a.setTimeoutOfRWLock(lock);
        a.setTimeoutOfRWLock(0);
        check("after a call");
        a.uninit();
        check("after uninit");
        cap = 3, size = 300;
        VMC_CHECK(a.init("A", cap, size), "init-failed", "second init");
        check("after another init");
        a.uninit();
        names_gone("the instance was shut down");
    }));
    // names: an init that is refused leaves nothing and changes nothing, one that is accepted works
    add(scn("C11.names", 0, 0, [] {
        window(false);
        static const char* const SPECIAL[] = {"a b", "%s%d%n", "\xc3\xa4", "a.b", "-", "_call", "A_resp", "0", "UPPER", "a\nb", "x/y", "a/", ""};
        const int NS = sizeof SPECIAL / sizeof *SPECIAL;
        int k = choose(NS + 80, "name");
        string name = k < NS ? string(SPECIAL[k]) : string(200 + k - NS, 'n');
        int usable = k < NS - 3 ? 1 : k < NS ? 0 : k < NS + 20 ? 1 : k >= NS + 60 ? 0 : -1;
        Veigar a, p;
        VMC_CHECK(p.init("P", 8, 256), "init-failed", "P");
        a.bind("f", [](int v) { return v + 1; });
        int s0 = shm_names(), m0 = sem_names(), t0 = live_threads(), f0 = open_fds(), v0 = live_views();
        bool r = a.init(name, 8, 256);
        VMC_CHECK(usable < 0 || r == !!usable, "init-result", "init(\"%s\") returned %d", name.c_str(), r);
        VMC_CHECK(a.isInit() == r, "is-init", "isInit is %d", a.isInit());
        if (!r) {
            VMC_CHECK(shm_names() == s0 && sem_names() == m0 && live_threads() == t0 && open_fds() == f0 && live_views() == v0, "residue", "a refused init left something: %s", names().c_str());
            name = "A";
            VMC_CHECK(a.init(name, 8, 256), "init-failed", "init after a refused one");
        }
        CallResult r1 = p.syncCall(name, 500, "f", 4);
        must_be(r1, 5, "call from another instance");
        CallResult r2 = a.syncCall(name, 500, "f", 5);
        must_be(r2, 6, "call of itself");
        a.uninit();
        p.uninit();
        names_gone("both instances were shut down");
    }));
    // long histories: the state of an instance may not depend on how often it was used
    Search s;
    s.name = "C11.long_history";
    s.fn = [](int shard, int n, bool thorough) {
        if (shard) return;
        run_inline([&] {
            Life l;
            VMC_CHECK(l.p.init("P", 8, 256), "init-failed", "P");
            l.p.bind("pf", [](int v) { return v + 1000; });
            uint64_t heap = 0;
            int threads = 0;
            int rounds = 180 / (4 * VT) - 2;
            for (int i = 0; i < rounds; i++) {
                l.init(i % 3 ? "A" : "B2", true);
                l.bind("f");
                l.check();
                l.calls();
                l.op(5), l.op(6), l.op(7);
                l.uninit();
                l.check();
                l.calls();
                if (i == 3) heap = live_heap_blocks(), threads = live_threads();
                if (i > 3) {
                    VMC_CHECK(live_threads() == threads, "threads-grow", "%d threads after %d rounds, %d before", live_threads(), i, threads);
                    VMC_CHECK(live_heap_blocks() <= heap + 8, "memory-grows", "%d blocks after %d rounds, %d before", (int)live_heap_blocks(), i, (int)heap);
                }
            }
            l.p.uninit();
            names_gone("both instances were shut down");
            count_transitions(rounds * 8);
            count_states(1);
        }, 600000);
        sample("init, bind, calls, refused inits, uninit, calls repeated");
    };
    add_search(s);
}
int main(int argc, char** argv) {
    c11();
    return main_run(argc, argv, "exhaustive exploration of operation sequences");
}
