#include "duo.h"

static void c21() {
    // all sequences of registry operations and calls against a map
    for (int phase = 0; phase < 2; phase++)
        add(scn(phase ? "C21.sequences_serving" : "C21.sequences_before_init", 0, 0, [phase] {
            window(false);
            Veigar a;
            if (phase) VMC_CHECK(a.init("A", 8, 256), "init-failed", "A");
            map<string, int> model;
            static const char* const NM[] = {"f", "g", ""};
            int serial = 0;
            auto names = [&] {
                vector<string> v = a.bindNames();
                set<string> s(v.begin(), v.end()), m;
                for (auto& x : model) m.insert(x.first);
                VMC_CHECK(v.size() == s.size() && s == m, "names", "the list of names differs from what is bound (%d names, %d bound)", (int)v.size(), (int)m.size());
            };
            auto call = [&](const char* n) {
                CallResult r = a.syncCall("A", 500, n, 3);
                auto it = model.find(n);
                if (it == model.end()) must_fail(r, "call of an unbound function");
                else must_be(r, it->second * 10 + 3, "call of a bound function");
            };
            names();
            int len = phase ? 5 : 6;
            for (int i = 0; i < len; i++) {
                int k = choose(phase ? 8 : 6, "operation");
                if (k < 3) {
                    int id = ++serial;
                    bool r = a.bind(NM[k], [id](int x) { return id * 10 + x; });
                    bool want = k != 2 && !model.count(NM[k]);
                    VMC_CHECK(r == want, "bind-result", "bind(\"%s\") returned %d", NM[k], r);
                    if (want) model[NM[k]] = id;
                } else if (k < 6) {
                    a.unbind(NM[k - 3]);
                    model.erase(NM[k - 3]);
                } else
                    call(NM[k - 6]);
                names();
            }
            if (!phase) VMC_CHECK(a.init("A", 8, 256), "init-failed", "A");
            call("f");
            call("g");
            names();
            a.uninit();
        }, NO_RACES, 60, 300));
    // the name is all of its bytes: every pair of similar names, every order of operations on them
    add(scn("C21.similar_names", 0, 0, [] {
        window(false);
        Veigar a;
        VMC_CHECK(a.init("A", 8, 256), "init-failed", "A");
        const vector<string> NM = {"f", "F", "f ", " f", string("f\0", 2), string("f\0x", 3), string("f\0y", 3), string("\0", 1), string("\0f", 2), "ff", "\xc3\xa9", "e\xcc\x81", "f\n", string(64, 'n'), string(65, 'n'), string(64, 'n') + "m"};
        const string x = NM[choose((int)NM.size(), "first name")], y = NM[choose((int)NM.size(), "second name")];
        map<string, int> model;
        int serial = 0;
        auto check = [&](const char* when) {
            vector<string> v = a.bindNames();
            set<string> s(v.begin(), v.end()), m;
            for (auto& e : model) m.insert(e.first);
            VMC_CHECK(v.size() == s.size() && s == m, "names", "%s: the list of names differs from what is bound (%d names, %d bound)", when, (int)v.size(), (int)m.size());
            for (const string& n : {x, y}) {
                CallResult r = a.syncCall("A", 500, n, 3);
                auto it = model.find(n);
                if (it == model.end()) must_fail(r, "call of an unbound function");
                else must_be(r, it->second * 10 + 3, "call of a bound function");
            }
        };
        auto bind = [&](const string& n) {
            int id = ++serial;
            bool r = a.bind(n, [id](int v) { return id * 10 + v; }), want = !model.count(n);
            VMC_CHECK(r == want, "bind-result", "bind returned %d", r);
            if (want) model[n] = id;
        };
        bind(x);
        check("one bound");
        a.unbind(y);
        model.erase(y);
        check("the other one unbound");
        bind(x);
        bind(y);
        check("both bound");
        a.unbind(x);
        model.erase(x);
        check("the first one unbound");
        bind(x);
        check("bound again");
        a.uninit();
    }, NO_RACES, 30));
    // binding and unbinding other names while calls are served
    add(scn("C21.concurrent", 2, 3, [] {
        Duo d;
        d.a.bind("keep", [](int x) { return x + 1; });
        Counter go;
        Peer C;
        C.start("C", nullptr, 8, 256, [&](Veigar& v) {
            go.wait(1);
            CallResult r = v.syncCall("A", TOUT, "keep", 5);
            must_be(r, 6, "call of a function that stays bound");
            go++;
        });
        window(true);
        go++;
        for (int i = 0; i < 2; i++) {
            string n = "n" + to_string(i);
            VMC_CHECK(d.a.bind(n, [](int x) { return x; }), "bind-result", "bind");
        }
        d.a.unbind("n0");
        vector<string> v = d.a.bindNames();
        VMC_CHECK(v.size() == 2, "names", "%d names", (int)v.size());
        go.wait(2);
        window(false);
        C.finish();
        d.end();
    }));
    // the function called is rebound meanwhile: one of the two runs, or an error while unbound
    add(scn("C21.rebind", 2, 3, [] {
        Duo d;
        Counter n1, n2;
        d.a.bind("fn", [&](int x) { n1++; return x + 1; });
        Counter go;
        Peer C;
        C.start("C", nullptr, 8, 256, [&](Veigar& v) {
            go.wait(1);
            CallResult r = v.syncCall("A", TOUT, "fn", 5);
            if (r.isSuccess()) {
                int g = num(r);
                VMC_CHECK(g == 6 || g == 7, "wrong-result", "%d", g);
                VMC_CHECK(n1.get() + n2.get() == 1 && (g == 6 ? n1.get() : n2.get()) == 1, "run-count", "%d %d", n1.get(), n2.get());
            } else {
                must_fail(r, "call while unbound");
                VMC_CHECK(n1.get() + n2.get() == 0, "run-count", "%d %d", n1.get(), n2.get());
            }
            outcome(ecs(r));
            go++;
            go.wait(3);
            n1.get();
            CallResult r2 = v.syncCall("A", TOUT, "fn", 5);  // after the bind returned
            must_be(r2, 7, "call after bind returned");
            go++;
            go.wait(5);
            CallResult r3 = v.syncCall("A", TOUT, "fn", 5);  // after the unbind returned
            must_fail(r3, "call after unbind returned");
            go++;
        });
        window(true);
        go++;
        d.a.unbind("fn");
        VMC_CHECK(d.a.bind("fn", [&](int x) { n2++; return x + 2; }), "bind-result", "bind after unbind");
        go.wait(2);
        go++;
        go.wait(4);
        d.a.unbind("fn");
        go++;
        go.wait(6);
        window(false);
        C.finish();
        d.end();
    }));
    // a running function is unbound, binds and unbinds itself
    add(scn("C21.unbind_running", 1, 2, [] {
        Duo d;
        Counter in, gate;
        Veigar* a = &d.a;
        string big(100, 'q');
        d.a.bind("fn", [&, a, big](int x) {
            in++;
            gate.wait(1);
            return x + (int)big.size();
        });
        d.a.bind("self", [a](int x) {
            a->unbind("self");
            return a->bind("self", [](int y) { return y * 2; }) ? x : -1;
        });
        Counter go;
        Peer C;
        C.start("C", nullptr, 8, 256, [&](Veigar& v) {
            CallResult r = v.syncCall("A", TOUT, "fn", 5);
            must_be(r, 105, "function unbound while it runs");
            CallResult r2 = v.syncCall("A", TOUT, "self", 5);
            must_be(r2, 5, "function that rebinds itself");
            CallResult r3 = v.syncCall("A", TOUT, "self", 5);
            must_be(r3, 10, "function rebound by itself");
            go++;
        }, false);
        window(true);
        in.wait(1);
        d.a.unbind("fn");
        d.a.bind("fn", [](int x) { return 0; });
        gate++;
        go.wait(1);
        window(false);
        C.finish();
        d.end();
    }));
    // two threads bind the same name: exactly one succeeds
    add(scn("C21.bind_race", 2, 4, [] {
        window(false);
        Veigar a;
        VMC_CHECK(a.init("A", 8, 256), "init-failed", "A");
        Counter ok;
        window(true);
        thread t1([&] { if (a.bind("x", [](int x) { return 1; })) ok++; }), t2([&] { if (a.bind("x", [](int x) { return 2; })) ok++; });
        t1.join();
        t2.join();
        window(false);
        VMC_CHECK(ok.get() == 1, "bind-result", "%d of 2 concurrent binds of one name succeeded", ok.get());
        VMC_CHECK(a.bindNames().size() == 1, "names", "names");
        a.uninit();
    }));
}

// The registry may be large, and change any number of times.
static void large() {
    Search s;
    s.name = "C21.large";
    s.fn = [](int shard, int, bool thorough) {
        if (shard > 1) return;
        const int N = thorough ? 6000 : 1200;
        bool ok = run_inline([&] {
            Veigar a;
            map<string, int> m;
            int serial = 0;
            auto name = [](int i) { return (i % 3 ? "f" : "") + to_string(i / 3) + (i % 3 == 2 ? "x" : ""); };
            auto bind = [&](int i) {
                int id = ++serial;
                bool r = a.bind(name(i), [id](int x) { return id * 3 + x; });
                VMC_CHECK(r == !m.count(name(i)), "bind-result", "bind(%s) with %d functions returned %d", name(i).c_str(), (int)m.size(), r);
                if (r) m[name(i)] = id;
            };
            auto check = [&] {
                vector<string> v = a.bindNames();
                set<string> s(v.begin(), v.end());
                VMC_CHECK(v.size() == m.size() && s.size() == m.size(), "names", "%d names are listed, %d functions are bound", (int)v.size(), (int)m.size());
                for (auto& p : m) VMC_CHECK(s.count(p.first), "names", "%s is not listed", p.first.c_str());
            };
            auto call = [&](int i) {
                CallResult r = a.syncCall("A", TOUT, name(i), 1);
                if (m.count(name(i))) must_be(r, m[name(i)] * 3 + 1, name(i).c_str());
                else must_fail(r, name(i).c_str());
            };
            if (shard) VMC_CHECK(a.init("A", 8, 256), "init-failed", "A");
            for (int i = 0; i < N; i++) bind(i);
            check();
            for (int i = 0; i < N; i += 5) bind(i);
            if (!shard) VMC_CHECK(a.init("A", 8, 256), "init-failed", "A");
            for (int i = 0; i < N; i++) call(i);
            for (int i = 0; i < N; i += 3) {
                a.unbind(name(i));
                m.erase(name(i));
            }
            check();
            for (int i = 0; i < N; i++) call(i);
            for (int i = 0; i < N; i++) bind(i);
            check();
            for (int i = N - 1; i >= 0; i -= 1 + shard) call(i);
            for (int k = 0; k < N; k++) {  // one name, again and again
                a.unbind(name(7));
                m.erase(name(7));
                if (k % 3 == 0) call(7);
                bind(7);
                bind(7);
                if (k % 3 == 1) call(7);
            }
            check();
            a.uninit();
            m.clear();
            check();
        }, 300000000, NO_RACES | REUSE_HEAP);
        VMC_CHECK(ok, "harness", "the history did not end");
        count_states(N * 6);
        count_transitions(N * 6);
        sample(to_string(N) + " functions, bound, called, unbound, bound again");
    };
    add_search(s);
}

int main(int argc, char** argv) {
    c21();
    large();
    return main_run(argc, argv, "stateless model checking of the implementation");
}
