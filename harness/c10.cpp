#include "duo.h"

static void c10() {
    // B's queue holds one message; the calls wait and are all delivered.
    add(scn("C10.delivered_late", 1, 2, [] {
        Duo d(8, 256, 1, 256);
        vector<shared_ptr<AsyncCallResult>> ps;
        for (int i = 0; i < VT; i++) {
            ps.push_back(d.a.asyncCall("B", 60000, "slow", i));
            d.entered.wait(i + 1, 1000);
        }
        ps.push_back(d.a.asyncCall("B", 60000, "mark", 1));
        settle(50);
        window(true);
        Cb cb;
        d.a.asyncCall(cb.fn(), "B", 2000, "mark", 2);
        thread t([&] { CallResult r = d.a.syncCall("B", 2000, "mark", 3); must_be(r, 3, "waiting call"); });
        sleep_ms(500);
        VMC_CHECK(cb.n.get() == 0, "early", "a call that waits for room was completed");
        d.gate++;
        bool in = cb.n.wait(1, 400);
        VMC_CHECK(in, "not-delivered", "a waiting call was not delivered soon after room appeared");
        cb.value(2, "waiting call");
        t.join();
        window(false);
        for (int i = 1; i <= 3; i++) VMC_CHECK(d.arg[i].get() == 1, "run-count", "call %d ran %d times", i, d.arg[i].get());
        d.end();
    }));
    // the same after a moment during which another user of the queue had the lock
    add(scn("C10.delivered_after_contention", 1, 2, [] {
        Duo d(8, 256, 1, 256);
        vector<shared_ptr<AsyncCallResult>> ps;
        for (int i = 0; i < VT; i++) {
            ps.push_back(d.a.asyncCall("B", 60000, "slow", i));
            d.entered.wait(i + 1, 1000);
        }
        ps.push_back(d.a.asyncCall("B", 60000, "mark", 1));
        settle(50);
        static const int HELD[] = {1, 2, 8, 25}, FREE[] = {3, 60, 400};
        int held = HELD[choose(4, "lock held for")], freed = FREE[choose(3, "room after")];
        Q q(CALLQ_B);
        q.lock();
        window(true);
        Cb cb;
        d.a.asyncCall(cb.fn(), "B", 1000, "mark", 2);
        sleep_ms(held);
        q.unlock();
        sleep_ms(freed);
        VMC_CHECK(cb.n.get() == 0, "early", "a call that waits for room was completed");
        d.gate++;
        bool in = cb.n.wait(1, 400);
        VMC_CHECK(in, "not-delivered", "a waiting call was not delivered soon after room appeared");
        cb.value(2, "waiting call");
        window(false);
        for (int i = 1; i <= 2; i++) VMC_CHECK(d.arg[i].get() == 1, "run-count", "call %d ran %d times", i, d.arg[i].get());
        d.end();
    }));
    // the response waits for room in the queue of the caller
    add(scn("C10.response_waits", 1, 2, [] {
        Duo d(1, 256, 8, 256);
        static const int WAIT[] = {3, 12, 400, 1200};
        int w = WAIT[choose(4, "room after")];
        bool async = choose(2, "style");
        char buf[200] = {0};
        Q s(RESPQ_A);
        VMC_CHECK(s.ok && s.q.processRWLock(60000), "lock-stuck", "the lock of the response queue");
        VMC_CHECK(s.q.pushBack(buf, 200), "push-failed", "an empty queue takes no message");
        s.unlock();
        window(true);
        Cb cb;
        thread t([&] {
            if (async) d.a.asyncCall(cb.fn(), "B", 3000, "mark", 2);
            else {
                CallResult r = d.a.syncCall("B", 3000, "mark", 2);
                must_be(r, 2, "call whose response waited for room");
                cb.n++;
            }
        });
        d.arg[2].wait(1, TOUT);
        sleep_ms(w);
        VMC_CHECK(cb.n.get() == 0, "early", "a call was completed without room for its response");
        window(false);
        s.lock();
        char out[256];
        int64_t len = 0;
        bool popped = s.q.popFront(out, 256, len);
        s.unlock();
        VMC_CHECK(popped && len == 200, "message-gone", "the queue lost a message");
        window(true);
        bool in = cb.n.wait(1, 200);
        VMC_CHECK(in, "not-delivered", "a waiting response was not delivered soon after room appeared");
        t.join();
        window(false);
        VMC_CHECK(d.arg[2].get() == 1, "run-count", "the function ran %d times", d.arg[2].get());
        if (async) cb.value(2, "call whose response waited for room");
        d.end();
    }));
    add(scn("C10.times_out", 1, 2, [] {
        Duo d(8, 256, 1, 256);
        vector<shared_ptr<AsyncCallResult>> ps;
        for (int i = 0; i < VT; i++) {
            ps.push_back(d.a.asyncCall("B", 60000, "slow", i));
            d.entered.wait(i + 1, 1000);
        }
        ps.push_back(d.a.asyncCall("B", 60000, "mark", 1));
        settle(50);
        window(true);
        Cb cb;
        int64_t t0 = now_us();
        Counter code;
        d.a.asyncCall([&](const CallResult& r) { code.add(r.errCode == ErrorCode::TIMEOUT ? 1 : 2); }, "B", 700, "mark", 2);
        VMC_CHECK(code.wait(1, 700 + 60), "late", "no timeout after %.3f ms", (now_us() - t0) / 1e3);
        int64_t dt = now_us() - t0;
        VMC_CHECK(code.get() == 1, "wrong-code", "the call did not fail with a timeout");
        VMC_CHECK(dt >= 690 * 1000, "early-timeout", "gave up after %.3f ms of 700", dt / 1e3);
        window(false);
        d.gate++;
        settle(500);
        VMC_CHECK(d.arg[1].get() == 1 && d.arg[2].get() == 0, "run-count", "the call that timed out ran %d times", d.arg[2].get());
        CallResult r = d.a.syncCall("B", TOUT, "mark", 4);
        must_be(r, 4, "later call");
        d.end();
    }));
    // While a call waits for room, the consumer consumes: it never runs into its lock timeout.
    add(scn("C10.consumer_not_blocked", 1, 2, [] {
        Duo d(8, 256, 1, 256);
        vector<shared_ptr<AsyncCallResult>> ps;
        for (int i = 0; i < VT; i++) {
            ps.push_back(d.a.asyncCall("B", 60000, "nap", 200));
            settle(5);
        }
        ps.push_back(d.a.asyncCall("B", 60000, "mark", 1));
        settle(20);
        window(true);
        Cb cb;
        int64_t t0 = now_us();
        d.a.asyncCall(cb.fn(), "B", 5000, "mark", 2);
        bool in = cb.n.wait(1, 400);  // nap ends within 200 ms
        VMC_CHECK(in, "consumer-blocked", "the consumer was free after 200 ms but did not take the next message for %.3f ms", (now_us() - t0) / 1e3);
        cb.value(2, "waiting call");
        d.end();
    }));
    // While a large call waits for room, a small one that fits goes through.
    add(scn("C10.others_keep_sending", 1, 2, [] {
        Duo d(8, 1024, 4, 100);  // B: 4 messages, 400 bytes
        Counter go;
        Peer C;
        C.start("C", nullptr, 8, 256, [&](Veigar& v) {
            go.wait(1);
            int64_t t0 = now_us();
            Cb cb;
            v.asyncCall(cb.fn(), "B", 1000, "mark", 9);
            // accepted (not necessarily served: B is busy) before the large call has timed out
            settle(40);
            VMC_CHECK(cb.fail.get() == 0, "others-blocked", "a small call of another instance failed while a large one was waiting");
            Q q(CALLQ_B);
            q.lock();
            VMC_CHECK(q.size() == 2, "others-blocked", "a small call that fits was not accepted while a large one was waiting (%lld messages queued)", (long long)q.size());
            q.unlock();
            (void)t0;
            go++;
            cb.n.wait(1, 20000);
            cb.value(9, "small call");
            go++;
        });
        vector<shared_ptr<AsyncCallResult>> ps;
        for (int i = 0; i < VT; i++) {
            ps.push_back(d.a.asyncCall("B", 60000, "slow", i));
            d.entered.wait(i + 1, 1000);
        }
        ps.push_back(d.a.asyncCall("B", 60000, "len", string(100, 'x')));
        settle(50);
        window(true);
        Cb cb;
        d.a.asyncCall(cb.fn(), "B", 10000, "len", string(250, 'y'));  // fits only when the queue is empty
        sleep_ms(20);
        go++;
        go.wait(2);
        window(false);
        d.gate++;
        go.wait(3);
        cb.n.wait(1, 5000);
        cb.value(250, "large call");
        C.finish();
        d.end();
    }));
    // A message that can never fit.
    add(scn("C10.never_fits", 1, 2, [] {
        Duo d(8, 4096, 2, 100);
        int busy = choose(2, "target busy");
        static const int SZ[] = {201, 400, 3000};
        int sz = SZ[choose(3, "size")];
        vector<shared_ptr<AsyncCallResult>> ps;
        if (busy) {
            for (int i = 0; i < VT; i++) {
                ps.push_back(d.a.asyncCall("B", 60000, "slow", i));
                d.entered.wait(i + 1, 1000);
            }
            ps.push_back(d.a.asyncCall("B", 60000, "mark", 1));
            settle(50);
        }
        window(true);
        int64_t t0 = now_us();
        Cb cb;
        d.a.asyncCall(cb.fn(), "B", 3000, "len", string(sz, 'x'));
        bool in = cb.n.wait(1, 150);
        VMC_CHECK(in && cb.fail.get() == 1, "not-prompt", "a message that can never fit was not refused within %.3f ms", (now_us() - t0) / 1e3);
        t0 = now_us();
        CallResult r = d.a.syncCall("B", 3000, "len", string(sz, 'x'));
        must_fail(r, "never fits");
        VMC_CHECK(now_us() - t0 <= 150000, "not-prompt", "refused after %.3f ms", (now_us() - t0) / 1e3);
        window(false);
        d.gate++;
        settle(100);
        CallResult r2 = d.a.syncCall("B", TOUT, "mark", 2);
        must_be(r2, 2, "later call");
        VMC_CHECK(d.arg[1].get() == busy, "run-count", "%d", d.arg[1].get());
        d.end();
    }));
    // exact boundary: the largest message that fits is accepted
    add(scn("C10.boundary", 0, 1, [] {
        Duo d(8, 4096, 1, 200);
        // the size of a message with an argument of n bytes is constant + n: find the constant
        int lo = 0;
        for (int n = 60; n <= 199; n++) {
            CallResult r = d.a.syncCall("B", 500, "len", string(n, 'x'));
            if (r.isSuccess()) {
                VMC_CHECK(lo == n - 1 || n == 60, "boundary", "size %d fits but %d did not", n, n - 1);
                VMC_CHECK(num(r) == n, "wrong-result", "%d", num(r));
                lo = n;
            }
        }
        VMC_CHECK(lo >= 60 && lo < 199, "boundary", "largest argument that fits: %d", lo);
        // (the id of a call is part of the message, and later ids are up to two digits longer)
        CallResult r = d.a.syncCall("B", 500, "len", string(lo - 2, 'x'));
        must_be(r, lo - 2, "largest");
        d.end();
    }));
}

int main(int argc, char** argv) {
    c10();
    return main_run(argc, argv, "stateless model checking of the implementation");
}
