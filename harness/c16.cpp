#include "duo.h"

// A and B survive, the process of C may die at any moment.
struct Mortal {
    Veigar a;
    Peer B, B2;
    Counter up, go, stop, entered, runsA, runsB, bgo, bdone;
    int pid = -1;
    bool stuck[4];  // locks nobody gives back: A's calls, A's responses, B's calls, B's responses
    static const char* q(int i) { return i == 0 ? CALLQ_A : i == 1 ? RESPQ_A : i == 2 ? CALLQ_B : RESPQ_B; }

    static bool free_lock(const char* path) {
        Q h(path);
        VMC_CHECK(h.ok, "no-queue", "the queue %s of a survivor can not be opened", path);
        for (int i = 0; i < 3; i++)  // others may have it for a moment
            if (h.q.processRWLock(100)) {
                h.q.processRWUnlock();
                return true;
            }
        return false;
    }
    void start() {
        window(false);
        VMC_CHECK(a.init("A", 4, 128), "init-failed", "A");
        Mortal* m = this;
        a.bind("af", [m](int x) { m->runsA++; return x + 100; });
        B.start("B", [m](Veigar& v) { v.bind("bf", [m](int x) { m->runsB++; return x + 200; }); }, 4, 128, [m](Veigar& v) {
            while (true) {  // calls on command
                int n = m->bgo.get() + 1;
                m->bgo.wait(n);
                if (m->stop.get()) break;
                m->b_calls(v);
                m->bdone++;
            }
        });
    }
    bool b_expect = false;
    void b_calls(Veigar& v) {
        CallResult r = v.syncCall("A", 400, "af", 8);
        if (r.isSuccess()) must_be(r, 108, "call between survivors");
        else VMC_CHECK(!b_expect, "call-failed", "a call from B to A failed although nothing it needs is locked: %s", r.errorMessage.c_str());
    }
    // one process of C: does `kind`
    void victim(int kind, bool may_die = true) {
        Mortal* m = this;
        pid = start_process([m, kind] {
            Veigar c;
            c.bind("cf", [](int x) { return x + 300; });
            c.bind("cslow", [m](int x) { m->entered++; m->stop.wait(1); return x; });
            c.bind("cnap", [](int ms) { sleep_ms(ms); return ms; });
            if (!c.init("C", kind == 8 ? 2 : 4, 128)) fail("init-failed", "C");
            m->up++;
            if (kind == 1 || kind == 4) {
                CallResult r = c.syncCall("A", 400, "af", 1);
                if (r.isSuccess()) must_be(r, 101, "call of the victim");
            }
            if (kind == 2) {
                c.asyncCall(nullptr, "A", 400, "af", 1);
                c.asyncCall(nullptr, "B", 400, "bf", 1);
                c.asyncCall(nullptr, "A", 400, "af", 2);
            }
            if (kind == 3) {
                c.uninit();
                return;
            }
            m->stop.wait(1);
            c.uninit();
        });
        crashable(pid, may_die);
    }
    void survivors_work(const char* when) {
        for (int i = 0; i < 4; i++) stuck[i] = !free_lock(q(i));
        bool died = crashed(pid);
        for (int i = 0; i < 4; i++) VMC_CHECK(died || !stuck[i], "lock-stuck", "%s: the lock of %s is not free and nobody died", when, q(i));
        int64_t t0 = now_us();
        CallResult r = a.syncCall("B", 400, "bf", 7);
        VMC_CHECK(now_us() - t0 < 600000, "late", "%s: a call among survivors took %lld ms", when, (long long)(now_us() - t0) / 1000);
        if (!stuck[2] && !stuck[1]) must_be(r, 207, "call between survivors");
        else if (r.isSuccess()) must_be(r, 207, "call between survivors");
        CallResult r2 = a.syncCall("A", 400, "af", 9);
        if (r2.isSuccess() || (!stuck[0] && !stuck[1])) must_be(r2, 109, "call of a survivor to itself");
        b_expect = !stuck[0] && !stuck[3];
        bgo++;
        VMC_CHECK(bdone.wait(1, 1000), "hang", "%s: a call from B to A did not end", when);
    }
    void finish() {
        window(false);
        int64_t t0 = now_us();
        a.uninit();
        stop++;
        bgo++;
        B.finish();
        VMC_CHECK(now_us() - t0 < 2000000, "late", "the shutdown of the survivors took %lld ms", (long long)(now_us() - t0) / 1000);
    }
};

static void death(int kind, unsigned) {
    Mortal m;
    m.start();
    Cb pending;
    window(true);
    m.victim(kind);
    if (kind != 0) m.up.wait(1, 50);  // it may not come up
    if (kind == 4 || kind == 5) {
        int64_t t0 = now_us();
        CallResult r = m.a.syncCall("C", 400, "cf", 1);
        VMC_CHECK(now_us() - t0 < 500000, "late", "a call to a dying process took %lld ms", (long long)(now_us() - t0) / 1000);
        if (r.isSuccess()) must_be(r, 301, "call to the victim");
        else VMC_CHECK(crashed(m.pid), "call-failed", "a call to C failed although it lives: %s", r.errorMessage.c_str());
    }
    if (kind == 6) {
        m.a.asyncCall(pending.fn(), "C", 400, "cslow", 1);
        m.entered.wait(1, 50);
        CallResult r = m.a.syncCall("C", 100, "cf", 1);
        if (r.isSuccess()) must_be(r, 301, "call to the victim");
    }
    if (kind == 7) {  // a full queue nobody empties
        for (int i = 0; i < 3; i++) m.a.asyncCall(nullptr, "C", 60, "cslow", i);
        CallResult r = m.a.syncCall("C", 80, "cf", 1);
        if (r.isSuccess()) must_be(r, 301, "call to the victim");
    }
    if (kind == 8) {  // callers wait for room in a queue that is being emptied
        for (int i = 0; i < VT + 3; i++) m.a.asyncCall(i ? nullptr : pending.fn(), "C", 100, "cnap", 10 + i);
        int64_t t0 = now_us();
        CallResult r = m.a.syncCall("C", 150, "cf", 1);
        VMC_CHECK(now_us() - t0 < 200000, "late", "a call to a dying process took %lld ms", (long long)(now_us() - t0) / 1000);
        if (r.isSuccess()) must_be(r, 301, "call to the victim");
    }
    if (kind <= 3) settle(20);
    window(false);
    crashable(m.pid, false);
    m.survivors_work("after the death");
    if (crashed(m.pid)) outcome(string("died, locks left held: ") + (m.stuck[0] ? "A_call " : "") + (m.stuck[1] ? "A_resp " : "") + (m.stuck[2] ? "B_call " : "") + (m.stuck[3] ? "B_resp" : ""));
    // calls to the dead one end in time
    if (crashed(m.pid)) {
        int64_t t0 = now_us();
        CallResult r = m.a.syncCall("C", 100, "cf", 2);
        VMC_CHECK(!r.isSuccess(), "unexpected-success", "a call to a dead process succeeded");
        VMC_CHECK(now_us() - t0 < 200000, "late", "a call to a dead process took %lld ms", (long long)(now_us() - t0) / 1000);
        // and a successor under the same name is reached
        if (!m.stuck[1]) {
            int u = m.up.get();
            m.victim(9, false);
            m.up.wait(u + 1);
            CallResult r2 = m.a.syncCall("C", 400, "cf", 3);
            must_be(r2, 303, "call to the successor");
        }
    }
    int p = m.pid;
    m.finish();
    join_process(p);
    if (kind == 6 || kind == 8) VMC_CHECK(pending.n.get() == 1, "callback-count", "a call to the dying process completed %d times", pending.n.get());
}

static void c16() {
    static const char* const K[] = {"starting", "calling", "calling_two", "ending", "both_ways", "called", "running", "full", "draining"};
    int d2 = VT > 1 ? 1 : 2;
    for (int k = 0; k < 9; k++)
        add(scn(string("C16.") + K[k], k == 2 || k >= 7 ? 1 : d2, k >= 7 ? d2 : d2 + 1, [k] { death(k, 0); }, NO_RACES | CRASH | CRASH_STORES, 15, 200, 60000));
}
int main(int argc, char** argv) {
    c16();
    return main_run(argc, argv, "stateless model checking with crash points");
}
