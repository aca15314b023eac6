#include "qlife.h"

// T goes down and comes back while A calls it.
struct Restart {
    Counter ups, downs, ended, bye, life, runs[4], served;
    Counter next;  // T goes on to its next life when told
    int pid = -1;
    int lives = 2;
    bool fresh = false;   // a new instance (process) for every life, or the same one initialised again
    bool waits = true;
    uint32_t cap[4] = {8, 8, 8, 8}, msz[4] = {256, 256, 256, 256};
    void setup(Veigar& t, int l) {
        Restart* me = this;
        t.bind("f", [me, l](int x) { me->runs[l]++; return x + 1000 * (l + 1); });
        t.bind("nap", [me, l](int ms) { me->runs[l]++; sleep_ms(ms); return 100000 * (l + 1) + ms; });
        t.bind("len", [](string s) { return (int)s.size(); });
    }
    void one(Veigar& t, int l) {
        setup(t, l);
        VMC_CHECK(t.init("T", cap[l], msz[l]), "init-failed", "init of T in life %d", l);
        ups++;
        if (l == lives - 1) bye.wait(1);
        else if (waits) next.wait(l + 1);
        downs++;  // calls issued before this may still be served
        t.uninit();
        ended++;
    }
    void start() {
        Restart* me = this;
        pid = start_process([me] {
            if (me->fresh) {
                for (int l = 0; l < me->lives; l++) {
                    int p = start_process([me, l] {
                        Veigar t;
                        me->one(t, l);
                    });
                    join_process(p);
                }
            } else {
                Veigar t;
                for (int l = 0; l < me->lives; l++) me->one(t, l);
            }
        });
        ups.wait(1);
    }
    void end() {
        bye++;
        join_process(pid);
    }
};
// the result r of f(x), issued when `before` lives had begun and `gone` had ended
static void judge(Restart& t, CallResult& r, int x, int before, int gone, int ended, const char* who) {
    if (r.isSuccess()) {
        int v = num(r) - x, after = t.ups.get() + 1;
        VMC_CHECK(v % 1000 == 0 && v / 1000 > ended && v / 1000 <= after && v >= 1000, "wrong-result", "%s: f(%d) returned %d (lives begun %d, ended %d)", who, x, v + x, before, ended);
        t.served++;
        return;
    }
    VMC_CHECK(!r.errorMessage.empty(), "no-message", "%s: a failure without a message", who);
    // it has to be served if T was up all the time
    VMC_CHECK(!(before > gone && t.downs.get() < before), "call-failed", "%s: the call failed although T was up (lives begun %d, ended %d): %s", who, before, gone, r.errorMessage.c_str());
}

static void restart(int lives, bool overlap, bool threads, int pending_kinds, bool settings) {
    window(false);
    Veigar a;
    VMC_CHECK(a.init("A", 8, 256), "init-failed", "A");
    Restart t;
    t.lives = lives;
    t.fresh = choose(2, "new process");
    t.waits = !overlap;
    int kind = choose(pending_kinds, "pending");
    if (settings) {
        int k = choose(3, "settings");
        static const uint32_t C[3][4] = {{8, 3, 12, 8}, {3, 20, 3, 20}, {8, 8, 1, 9}}, M[3][4] = {{256, 400, 90, 256}, {700, 64, 700, 64}, {256, 1024, 2000, 128}};
        for (int i = 0; i < 4; i++) t.cap[i] = C[k][i], t.msz[i] = M[k][i];
    }
    t.start();
    auto call = [&](int x, const char* who) {
        int b = t.ups.get(), g = t.downs.get(), e = t.ended.get();
        CallResult r = a.syncCall("T", 90, "f", x);
        judge(t, r, x, b, g, e, who);
    };
    Cb pend, pend2;
    shared_ptr<AsyncCallResult> fut;
    if (!overlap) {
        CallResult r = a.syncCall("T", TOUT, "f", 1);
        must_be(r, 1001, "call in the first life");
        if (kind == 1) a.asyncCall(pend.fn(), "T", 3000, "nap", 20);  // its result comes while T goes down, or never
        if (kind == 2) fut = a.asyncCall("T", 3000, "f", 2);
        if (kind == 3) {
            CallResult q = a.syncCall("T", 40, "nap", 60);            // timed out, the response is late
            VMC_CHECK(!q.isSuccess(), "unexpected-success", "nap");
        }
    }
    window(true);
    vector<thread> th;
    if (threads) th.emplace_back([&] { for (int i = 0; i < 2; i++) call(50 + i, "another thread"); });
    for (int l = 1; l < lives; l++) {
        if (!overlap) t.next++;
        call(10 * l, "during the restart");
        call(10 * l + 1, "during the restart");
        if (!overlap) {
            t.ups.wait(l + 1);
            CallResult r = a.syncCall("T", TOUT, "f", 5 * l);
            must_be(r, 5 * l + 1000 * (l + 1), "call after a restart");
        }
    }
    t.ups.wait(lives);
    CallResult r = a.syncCall("T", TOUT, "f", 7);
    must_be(r, 7 + 1000 * lives, "call in the last life");
    for (auto& x : th) x.join();
    window(false);
    uint32_t big = t.cap[lives - 1] * t.msz[lives - 1] - 160;
    if (settings) {  // what fits is decided by the settings of the last life
        CallResult s = a.syncCall("T", TOUT, "len", string(big, 'x'));
        must_be(s, big, "the largest message");
        CallResult s2 = a.syncCall("T", 300, "len", string(big + 161, 'x'));
        must_fail(s2, "a message larger than the queue");
    }
    settle(200);
    CallResult r2 = a.syncCall("T", TOUT, "f", 8);
    must_be(r2, 8 + 1000 * lives, "call in the last life");
    nothing_queued("T" VEIGAR_CALL_QUEUE_NAME_SUFFIX, "at the end");
    nothing_queued(RESPQ_A, "at the end");
    if (kind == 1) {
        VMC_CHECK(pend.n.get() <= 1, "callback-count", "the callback of a pending call ran %d times", pend.n.get());
        VMC_CHECK(!pend.ok.get() || pend.val.get() % 100000 == 20, "wrong-result", "a pending call returned %d", pend.val.get());
    }
    if (kind == 2 && fut->second.wait_for(chrono::milliseconds(0)) == future_status::ready) {
        CallResult q = fut->second.get();
        VMC_CHECK(!q.isSuccess() || num(q) % 1000 == 2, "wrong-result", "a pending call returned %d", num(q));
    }
    t.end();
    a.uninit();
    VMC_CHECK(pend.n.get() == (kind == 1), "callback-count", "the callback of a pending call ran %d times", pend.n.get());
    VMC_CHECK(sem_names() == 0 && shm_names() == 0, "residue", "left: %s", names().c_str());
}

static void c18() {
    if (VT == 1) {  // the queue alone: deeper
        add(scn("C18.queue_lives", 6, 8, [] { queue_lives(2, 1, 2, false, choose(2, "settings")); }, 0, 20, 300));
        add(scn("C18.queue_three_lives", 5, 7, [] { queue_lives(3, 1, 2, true, true); }, 0, 20, 300));
        add(scn("C18.queue_two_openers", 4, 6, [] { queue_lives(2, 2, 1, false, true); }, 0, 20, 300));
    }
    int d2 = VT > 1 ? 1 : 2;
    add(scn("C18.restart", d2, d2 + 1, [] { restart(2, false, false, 1, false); }, NO_RACES, 30, 400, 60000));
    add(scn("C18.pending", 1, 2, [] { restart(2, false, false, 4, false); }, NO_RACES, 30, 400, 60000, "with a call outstanding when the target goes down"));
    add(scn("C18.settings", 0, 1, [] { restart(4, false, false, 4, true); }, NO_RACES, 30, 300, 60000, "three restarts with other settings each"));
    add(scn("C18.overlap", d2, d2 + 1, [] { restart(2, true, false, 1, false); }, NO_RACES, 30, 400, 60000, "the target goes down and comes back at any moment"));
    add(scn("C18.overlap_thrice", 1, 2, [] { restart(4, true, false, 1, false); }, NO_RACES, 30, 300, 60000));
    add(scn("C18.threads", 1, 2, [] { restart(2, false, true, 1, false); }, NO_RACES, 30, 300, 60000));
    // the caller restarts: responses for its former life, and the target's contact with it
    add(scn("C18.caller", 1, 2, [] {
        Duo d;
        Counter go;
        Peer C;
        bool fresh = choose(2, "new instance");
        d.a.bind("af", [](int x) { return x + 5; });
        C.start("C", nullptr, 8, 256, [&](Veigar& v) {
            CallResult r = v.syncCall("A", TOUT, "af", 1);
            must_be(r, 6, "call of the first life");
            go++;
            go.wait(3);
            CallResult r2 = v.syncCall("A", TOUT, "ag", 1);
            must_be(r2, 7, "call of the second life");
            go++;
        });
        go.wait(1);
        Cb old;
        int kind = choose(3, "old call");
        window(true);
        if (kind == 0) d.a.asyncCall(old.fn(), "B", 3000, "nap", 20);
        if (kind == 1) d.a.asyncCall(old.fn(), "B", 3000, "f", 9);
        if (kind == 2) {
            CallResult r = d.a.syncCall("B", 31, "nap", 40);
        }
        d.a.uninit();
        if (kind < 2) VMC_CHECK(old.n.get() == 1, "callback-count", "a call of the former life completed %d times", old.n.get());
        Veigar n;
        Veigar& a = fresh ? n : d.a;
        VMC_CHECK(a.init("A", 8, 256), "init-failed", "A again");
        a.bind("ag", [](int x) { return x + 6; });
        go.add(2);
        for (int i = 0; i < 2; i++) {
            CallResult r = a.syncCall("B", TOUT, "f", 10 + i);
            must_be(r, 1010 + i, "call of the new life");
        }
        window(false);
        go.wait(4);
        settle(100);
        CallResult r = a.syncCall("B", TOUT, "f", 20);
        must_be(r, 1020, "call of the new life");
        nothing_queued(RESPQ_A, "at the end");
        n.uninit();
        C.finish();
        d.end();
        if (kind < 2) VMC_CHECK(old.n.get() == 1, "callback-count", "a call of the former life completed %d times", old.n.get());
    }, NO_RACES, 30, 300, 60000));
    // both restart, each several times, in every order
    add(scn("C18.orders", 0, 0, [] {
        window(false);
        Veigar x[2];
        const char* nm[2] = {"A", "B"};
        int lives[2] = {0, 0};
        auto up = [&](int i) {
            lives[i]++;
            int l = lives[i] * 1000 + i * 100;
            x[i].bind("f", [l](int v) { return l + v; });
            VMC_CHECK(x[i].init(nm[i], 4 + lives[i] % 3, 128 + lives[i] * 10), "init-failed", "%s", nm[i]);
        };
        up(0);
        up(1);
        for (int s = 0; s < 6; s++) {
            int k = choose(6, "step");
            int i = k & 1;
            if (k < 2) {
                x[i].uninit();
                up(i);
            } else if (k < 4) {
                CallResult r = x[i].syncCall(nm[1 - i], 500, "f", s);
                must_be(r, lives[1 - i] * 1000 + (1 - i) * 100 + s, "call");
            } else {
                x[i].uninit();
                CallResult r = x[1 - i].syncCall(nm[i], 60, "f", s);
                must_fail(r, "call of an instance that is down");
                up(i);
            }
        }
        for (int i = 0; i < 2; i++) {
            CallResult r = x[i].syncCall(nm[1 - i], 500, "f", 9);
            must_be(r, lives[1 - i] * 1000 + (1 - i) * 100 + 9, "last call");
        }
        x[0].uninit();
        x[1].uninit();
        VMC_CHECK(sem_names() == 0 && shm_names() == 0, "residue", "left: %s", names().c_str());
    }, NO_RACES, 40, 200, 60000, "all sequences of 6 restarts and calls"));
}
// Many callers that come and go: every response arrives at the life that called.  The callers are queues of their own.
static void many_callers() {
    Search s;
    s.name = "C18.many_callers";
    s.fn = [](int shard, int, bool) {
        if (shard > 1) return;
        const int N = 18, ROUNDS = 12;
        bool ok = run_inline([&] {
            Veigar a;
            Counter runs;
            a.bind("f", [&](int x) { runs++; return x + 100; });
            VMC_CHECK(a.init("A", 8, 256), "init-failed", "A");
            vector<veigar::MessageQueue*> q;
            auto name = [](int i) { return (i % 2 ? "c" : "C") + to_string(i / 2); };
            for (int i = 0; i < N; i++) {
                q.push_back(new veigar::MessageQueue(4, 256));
                VMC_CHECK(q.back()->create(name(i) + VEIGAR_RESPONSE_QUEUE_NAME_SUFFIX), "harness", "queue");
            }
            int want = 0;
            for (int round = 0; round < ROUNDS; round++)
                for (int k = 0; k < N; k++) {
                    int i = shard ? N - 1 - k : k * 5 % N;
                    string id = "id" + to_string(i) + "-" + to_string(round), ch = name(i), m;
                    m += '\x95';
                    m += '\0';
                    m += (char)(0xa0 + id.size());
                    m += id;
                    m += (char)(0xa0 + ch.size());
                    m += ch;
                    m += "\xa1" "f";
                    m += '\x91';
                    m += (char)round;
                    Q c(CALLQ_A);
                    c.lock();
                    VMC_CHECK(c.q.pushBack(m.data(), m.size()), "harness", "push");
                    c.unlock();
                    c.q.notifyRead();
                    VMC_CHECK(q[i]->waitForRead(1000), "no-response", "round %d: %s got no response", round, ch.c_str());
                    want++;
                    settle(2);
                    for (int j = 0; j < N; j++) {
                        int64_t n = q[j]->msgNumber();
                        VMC_CHECK(n == (i == j), "wrong-caller", "round %d: the response for %s left %lld messages in the queue of %s", round, ch.c_str(), (long long)n, name(j).c_str());
                    }
                    uint8_t buf[256];
                    int64_t w = 0;
                    VMC_CHECK(q[i]->processRWLock(10) && q[i]->popFront(buf, 256, w), "no-message", "no message");
                    q[i]->processRWUnlock();
                    string r((char*)buf, w);
                    VMC_CHECK(r.find(id) != string::npos && r.find((char)(100 + round)) != string::npos, "wrong-message", "the response is another one");
                    VMC_CHECK(runs.get() == want, "run-count", "%d runs of %d calls", runs.get(), want);
                    if (round % 2) {
                        q[i]->close();
                        delete q[i];
                        if (round % 4 == 3) {  // called by one who is gone
                            c.lock();
                            VMC_CHECK(c.q.pushBack(m.data(), m.size()), "harness", "push");
                            c.unlock();
                            c.q.notifyRead();
                            want++;
                            settle(100);
                        }
                        q[i] = new veigar::MessageQueue(3 + round, 200);
                        VMC_CHECK(q[i]->create(name(i) + VEIGAR_RESPONSE_QUEUE_NAME_SUFFIX), "harness", "queue");
                    }
                }
            for (auto p : q) {
                p->close();
                delete p;
            }
            a.uninit();
            VMC_CHECK(shm_names() == 0 && sem_names() == 0 && open_fds() == 0 && live_views() == 0, "residue", "left %s", names().c_str());
        }, 30000000, NO_RACES | REUSE_HEAP);
        VMC_CHECK(ok, "harness", "the history did not end");
        count_states(N * ROUNDS);
        count_transitions(N * ROUNDS);
        sample("18 callers, each 12 calls and 6 restarts");
    };
    add_search(s);
}

int main(int argc, char** argv) {
    c18();
    many_callers();
    return main_run(argc, argv, "stateless model checking of restarts");
}
