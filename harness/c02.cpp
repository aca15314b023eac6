#include "duo.h"

static void c02() {
    add(scn("C02.once", 2, 3, [] {
        Duo d;
        Cb cb;
        window(true);
        thread t1([&] { CallResult r = d.a.syncCall("B", TOUT, "mark", 1); must_be(r, 1, "sync"); });
        thread t2([&] { CallResult r = d.a.syncCall("B", TOUT, "mark", 2); must_be(r, 2, "sync"); });
        d.a.asyncCall(cb.fn(), "B", TOUT, "mark", 3);
        t1.join();
        t2.join();
        cb.n.wait(1, 3 * TOUT);
        settle(300);
        for (int i = 1; i <= 3; i++) VMC_CHECK(d.arg[i].get() == 1, "run-count", "call %d ran %d times", i, d.arg[i].get());
        VMC_CHECK(d.runs.get() == 3, "run-count", "%d runs", d.runs.get());
        d.end();
        VMC_CHECK(d.runs.get() == 3, "run-count", "%d runs", d.runs.get());
    }));
    add(scn("C02.any_time", 1, 2, [] {
        Duo d(2, 64);
        Cb cb;
        window(true);
        Counter ok1, ok2;
        thread t1([&] { CallResult r = d.a.syncCall("B", 120, "mark", 1); if (r.isSuccess()) ok1++; });
        thread t2([&] { CallResult r = d.a.syncCall("B", 120, "mark", 2); if (r.isSuccess()) ok2++; });
        d.a.asyncCall(cb.fn(), "B", 120, "mark", 3);
        t1.join();
        t2.join();
        settle(300);
        window(false);
        d.end();
        int ok[4] = {0, ok1.get(), ok2.get(), cb.ok.get()};
        int sum = 0;
        for (int i = 1; i <= 3; i++) {
            int n = d.arg[i].get();
            sum += n;
            VMC_CHECK(n <= 1, "run-count", "call %d ran %d times", i, n);
            VMC_CHECK(n == 1 || !ok[i], "run-count", "call %d is reported successful but did not run", i);
        }
        VMC_CHECK(d.runs.get() == sum, "wrong-function", "%d runs", d.runs.get());
        outcome(to_string(sum));
    }, NO_RACES | EARLY_TIMER | EINTR_SEM | SPURIOUS));
    add(scn("C02.right_target", 2, 3, [] {
        Duo d;
        Counter c;
        Peer C;
        C.start("C", [&](Veigar& v) { v.bind("mark", [&](int i) { c++; return i + 500; }); v.bind("only_c", [&](int i) { c++; return i; }); });
        window(true);
        thread t1([&] { CallResult r = d.a.syncCall("C", TOUT, "mark", 5); must_be(r, 505, "C"); });
        CallResult r = d.a.syncCall("B", TOUT, "mark", 6);
        must_be(r, 6, "B");
        t1.join();
        window(false);
        VMC_CHECK(c.get() == 1 && d.runs.get() == 1 && d.arg[6].get() == 1, "run-count", "%d runs in C, %d in B", c.get(), d.runs.get());
        CallResult r2 = d.a.syncCall("B", 500, "only_c", 6);
        must_fail(r2, "function of another channel");
        VMC_CHECK(c.get() == 1 && d.runs.get() == 1, "run-count", "%d runs in C, %d in B", c.get(), d.runs.get());
        C.finish();
        d.end();
    }));
    // channels and functions that do not exist, with names close to existing ones
    add(scn("C02.unknown", 0, 1, [] {
        Duo d;
        Counter own;
        d.a.bind("mark", [&](int i) { own++; return i; });
        d.a.bind("add", [&](int x, int y) { own++; return x + y; });
        static const char* const ch[] = {"X", "b", "B ", "BB", "B_", "B_call", "B_resp", "", "AB", "AA", "A ", "a", "BA", "A_call"};
        const string fn[] = {"Add", "add ", "ad", "addd", "", "nop ", "_add", string("add\0", 4), string("\0add", 4), string("add\0x", 5), string("a\0dd", 4), "add\n", "\xc3\xa4"};
        int k = choose(27, "unknown name");
        if (k < 14) {
            if (string(ch[k]) != "B") {
                CallResult r = d.a.syncCall(ch[k], 300, "mark", 1);
                must_fail(r, "unknown channel");
            }
        } else {
            CallResult r = d.a.syncCall("B", 300, fn[k - 14], 1, 2);
            must_fail(r, "unknown function");
        }
        settle(300);
        VMC_CHECK(d.runs.get() == 0 && own.get() == 0, "ran-anything", "%d functions of B and %d of the caller ran", d.runs.get(), own.get());
        CallResult r2 = d.a.syncCall("B", TOUT, "mark", 2);
        must_be(r2, 2, "later call");
        VMC_CHECK(d.runs.get() == 1, "run-count", "%d functions ran", d.runs.get());
        d.end();
    }));
    // a target that has only one function, two, or none
    add(scn("C02.few_functions", 0, 1, [] {
        window(false);
        Counter ran;
        Peer B;
        int n = choose(4, "functions bound");
        B.start("B", [n, &ran](Veigar& v) {
            if (n == 3) {  // two, one of them removed again
                v.bind("gone", [&ran](int) { ran++; return 9; });
            }
            if (n >= 1) v.bind("only", [&ran](int x) { ran++; return x; });
            if (n == 2) v.bind("second", [&ran](int x) { ran++; return x + 10; });
            if (n == 3) v.unbind("gone");
        });
        Veigar a;
        VMC_CHECK(a.init("A", 8, 256), "init-failed", "A");
        static const char* const fn[] = {"other", "onl", "onlyx", "", "gone", "Only"};
        int k = choose(6, "name");
        window(true);
        CallResult r = choose(2, "arguments") ? a.syncCall("B", 300, fn[k], 1) : a.syncCall("B", 300, fn[k]);
        window(false);
        must_fail(r, "unknown function");
        VMC_CHECK(ran.get() == 0, "ran-anything", "%d functions ran for a call to an unknown one", ran.get());
        CallResult q = a.syncCall("B", 300, "only", 4);
        if (n) must_be(q, 4, "known function");
        else must_fail(q, "unknown function");
        VMC_CHECK(ran.get() == (n > 0), "run-count", "%d functions ran", ran.get());
        a.uninit();
        B.finish();
    }));
    // Every instance calls every one, also itself; the names are prefixes and suffixes of each other.
    add(scn("C02.similar_names", 0, 1, [] {
        static const char* const some[4][3] = {{"A", "AB", "ABA"}, {"BA", "A", "B"}, {"x", "X", "x "}, {"1", "11", "10"}};
        int k = choose(5, "names");
        const string longname(180, 'n');
        const string lng[3] = {longname + "1", longname + "2", longname};
        auto all = [&](int k, int i) { return k < 4 ? string(some[k][i]) : lng[i]; };
        Counter ran[3], go, done;
        Peer P[3];
        for (int i = 0; i < 3; i++)
            P[i].start(
                all(k, i), [i, &ran](Veigar& v) { v.bind("who", [i, &ran](int x) { ran[i]++; return 10 * i + x; }); }, 8, 1024,
                [&, i](Veigar& v) {
                    go.wait(1);
                    for (int j = 0; j < 3; j++) {
                        string who = all(k, i) + " to " + all(k, j);
                        CallResult r = v.syncCall(all(k, j), TOUT, "who", i);
                        must_be(r, 10 * j + i, who.c_str());
                    }
                    done++;
                });
        window(true);
        go++;
        done.wait(3, 60000);
        window(false);
        for (int i = 0; i < 3; i++) VMC_CHECK(ran[i].get() == 3, "run-count", "the function of %s ran %d times for 3 calls", all(k, i).c_str(), ran[i].get());
        for (int i = 0; i < 3; i++) P[i].finish();
    }));
    // Functions with similar names, all bound at once.
    add(scn("C02.similar_functions", 0, 0, [] {
        window(false);
        vector<string> fn = {"f", "F", "f ", " f", "ff", "f1", "f11", "1f", string("f\0", 2), string("\0f", 2), string("f\0g", 3), "f\n", "f-1", "f-2", "\xc3\xa4", "\xc3\xa5", "\xff", "\x7f"};
        for (int n : {15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 300, 1023, 1024, 4096, 65535, 65536})
            for (int v = 0; v < 3; v++) {
                string s(n, 'f');
                if (v) s[v == 1 ? 0 : n - 1] = 'g';
                fn.push_back(s);
            }
        const int N = fn.size();
        Peer B;
        Counter runs;
        B.start("B", [&](Veigar& v) {
            for (int i = 0; i < N; i++) VMC_CHECK(v.bind(fn[i], [i, &runs](int x) { runs++; return i * 100 + x; }), "bind-result", "bind %d", i);
        }, 4, 100000);
        Veigar a;
        VMC_CHECK(a.init("A", 4, 100000), "init-failed", "A");
        int order = choose(3, "order");
        for (int k = 0; k < N; k++) {
            int i = order == 0 ? k : order == 1 ? N - 1 - k : k * 7 % N;
            string who = "function " + to_string(i);
            if (k % 2) {
                CallResult r = a.syncCall("B", TOUT, fn[i], k);
                must_be(r, i * 100 + k, who.c_str());
            } else {
                Cb cb;
                a.asyncCall(cb.fn(), "B", TOUT, fn[i], k);
                cb.n.wait(1, TOUT);
                cb.value(i * 100 + k, who.c_str());
            }
            VMC_CHECK(runs.get() == k + 1, "run-count", "%d runs of %d calls", runs.get(), k + 1);
        }
        a.uninit();
        B.finish();
    }));
}

// Many targets: every message arrives at the one it was sent to, however many there are, also after each of them was
// started again.  The targets are queues of their own.
static void many_targets() {
    Search s;
    s.name = "C02.many_targets";
    s.fn = [](int shard, int, bool) {
        if (shard > 1) return;
        const int N = 20, ROUNDS = 12;
        bool ok = run_inline([&] {
            Veigar a;
            VMC_CHECK(a.init("A", 8, 256), "init-failed", "A");
            vector<veigar::MessageQueue*> q;
            auto name = [](int i) { return (i % 2 ? "t" : "T") + to_string(i / 2); };
            for (int i = 0; i < N; i++) {
                q.push_back(new veigar::MessageQueue(4, 256));
                VMC_CHECK(q.back()->create(name(i) + VEIGAR_CALL_QUEUE_NAME_SUFFIX), "harness", "queue");
            }
            for (int round = 0; round < ROUNDS; round++) {
                for (int k = 0; k < N; k++) {
                    int i = shard ? N - 1 - k : k * 7 % N;
                    string id;
                    if ((round + i) % 2) {
                        auto p = a.asyncCall(name(i), TOUT, "f" + to_string(i), round);
                        id = p->first;
                        settle(2);
                        a.releaseCall(id);
                    } else {
                        CallResult r = a.syncCall(name(i), 40, "f" + to_string(i), round);
                        must_fail(r, "a target that does not answer");
                    }
                    for (int j = 0; j < N; j++) {
                        int64_t n = q[j]->msgNumber();
                        VMC_CHECK(n == (i == j), "wrong-target", "round %d: the call of %s left %lld messages in the queue of %s", round, name(i).c_str(), (long long)n, name(j).c_str());
                    }
                    uint8_t buf[256];
                    int64_t w = 0;
                    VMC_CHECK(q[i]->waitForRead(0) && !q[i]->waitForRead(0), "no-signal", "the target was not told once");
                    VMC_CHECK(q[i]->processRWLock(10) && q[i]->popFront(buf, 256, w), "no-message", "no message");
                    q[i]->processRWUnlock();
                    string m((char*)buf, w), fn = "f" + to_string(i);
                    VMC_CHECK(m.find(fn) != string::npos && (id.empty() || m.find(id) != string::npos), "wrong-message", "the message is another one");
                    if (round % 2) {  // started again
                        q[i]->close();
                        delete q[i];
                        if (round % 4 == 3) {
                            CallResult r = a.syncCall(name(i), 40, "f", 1);
                            must_fail(r, "a target that does not run");
                        }
                        q[i] = new veigar::MessageQueue(3 + round, 200);
                        VMC_CHECK(q[i]->create(name(i) + VEIGAR_CALL_QUEUE_NAME_SUFFIX), "harness", "queue");
                    }
                }
            }
            for (auto p : q) {
                p->close();
                delete p;
            }
            a.uninit();
            VMC_CHECK(shm_names() == 0 && sem_names() == 0 && open_fds() == 0 && live_views() == 0, "residue", "left %s", names().c_str());
        }, 30000000, NO_RACES | REUSE_HEAP);
        VMC_CHECK(ok, "harness", "the history did not end");
        count_states(N * ROUNDS);
        count_transitions(N * ROUNDS);
        sample("20 targets, each called 12 times and started again 6 times");
    };
    add_search(s);
}

int main(int argc, char** argv) {
    c02();
    many_targets();
    return main_run(argc, argv, "stateless model checking of the implementation");
}
