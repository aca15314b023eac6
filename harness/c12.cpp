#include "duo.h"

static void c12() {
    // the caller shuts down with calls of every style outstanding
    add(scn("C12.caller", 2, 3, [] {
        Duo d;
        Live live;
        Counter cbn;
        window(true);
        auto p = d.a.asyncCall("B", 3000, "slow", 1);
        d.a.asyncCall([&](const CallResult& r) { live.check("a callback"); cbn++; if (!r.isSuccess()) must_fail(r, "callback"); }, "B", 3000, "f", 2);
        if (choose(2, "wait until served")) d.entered.wait(1, 500);
        int64_t t0 = now_us();
        d.a.uninit();
        live.down++;
        VMC_CHECK(now_us() - t0 < 3000000, "slow-shutdown", "the shutdown took %.3f ms", (now_us() - t0) / 1e3);
        VMC_CHECK(p->second.wait_for(chrono::milliseconds(0)) == future_status::ready, "never-completed", "an outstanding promise is not completed by the shutdown");
        try {
            CallResult r = p->second.get();
            must_fail(r, "outstanding promise");
        } catch (std::exception& e) {
            vmc::fail("future-exception", "an outstanding promise is broken: %s", e.what());
        }
        VMC_CHECK(cbn.get() == 1, "callback-count", "the callback of an outstanding call ran %d times", cbn.get());
        window(false);
        d.gate++;
        settle(200);
        VMC_CHECK(cbn.get() == 1, "callback-count", "the callback ran %d times", cbn.get());
        d.B.finish();
    }));
    // a synchronous call is waiting in another thread
    add(scn("C12.caller_sync", 2, 3, [] {
        Duo d;
        window(true);
        Counter in;
        thread t([&] {
            in++;
            CallResult r = d.a.syncCall("B", 3000, "slow", 1);
            must_fail(r, "sync call of an instance that was shut down");
        });
        if (choose(2, "wait until served")) d.entered.wait(1, 500);
        else in.wait(1), sleep_ms(0);
        d.a.uninit();
        t.join();
        window(false);
        d.gate++;
        d.B.finish();
    }));
    // calls wait for room in a full queue
    add(scn("C12.caller_full_queue", 1, 2, [] {
        Duo d(8, 256, 1, 256);
        vector<shared_ptr<AsyncCallResult>> ps;
        for (int i = 0; i < VT; i++) {
            ps.push_back(d.a.asyncCall("B", 60000, "slow", i));
            d.entered.wait(i + 1, 1000);
        }
        ps.push_back(d.a.asyncCall("B", 60000, "f", 1));
        settle(50);
        window(true);
        for (int i = 0; i < VT + 1; i++) ps.push_back(d.a.asyncCall("B", 10000, "f", 2));
        if (choose(2, "let them wait")) sleep_ms(17);
        int64_t t0 = now_us();
        d.a.uninit();
        VMC_CHECK(now_us() - t0 < 3000000, "slow-shutdown", "the shutdown took %.3f ms", (now_us() - t0) / 1e3);
        for (auto& p : ps) {
            VMC_CHECK(p->second.wait_for(chrono::milliseconds(0)) == future_status::ready, "never-completed", "an outstanding promise is not completed by the shutdown");
            try {
                CallResult r = p->second.get();
                must_fail(r, "outstanding promise");
            } catch (std::exception& e) {
                vmc::fail("future-exception", "an outstanding promise is broken: %s", e.what());
            }
        }
        window(false);
        d.gate++;
        d.B.finish();
    }));
    // the target shuts down while calls arrive and functions run
    add(scn("C12.target", 2, 3, [] {
        window(false);
        Veigar a;
        VMC_CHECK(a.init("A", 8, 256), "init-failed", "A");
        Live live;
        Counter go, up;
        int pid = start_process([&] {
            Veigar v;
            v.bind("f", [&](int x) { live.check("a bound function"); sleep_ms(x); live.check("a bound function"); return x; });
            VMC_CHECK(v.init("B", 8, 256), "init-failed", "B");
            up++;
            go.wait(1);
            int64_t t0 = now_us();
            v.uninit();
            live.down++;
            VMC_CHECK(now_us() - t0 < 3000000, "slow-shutdown", "the shutdown took %.3f ms", (now_us() - t0) / 1e3);
        });
        up.wait(1);
        int x = choose(2, "function takes time") ? 20 : 0;
        window(true);
        auto p = a.asyncCall("B", 400, "f", x);
        thread t([&] {
            CallResult r = a.syncCall("B", 400, "f", x + 1);
            if (r.isSuccess()) must_be(r, x + 1, "call");
            else must_fail(r, "call");
            outcome(ecs(r));
        });
        go++;
        join_process(pid);
        t.join();
        window(false);
        settle(100);
        a.uninit();
        VMC_CHECK(p->second.wait_for(chrono::milliseconds(0)) == future_status::ready, "never-completed", "promise");
    }));
    // both at once, with a callback
    // more responses than sending threads wait for a caller that cannot take them
    add(scn("C12.target_responses_waiting", 1, 2, [] {
        Duo d(8, 256, 8, 256);
        int k = VT + 1 + choose(2, "responses");
        int how = choose(2, "lock held or queue full");
        Q s(RESPQ_A);
        vector<char> fill(2048, 0);
        s.lock();
        if (how)  // nothing else fits; the consumer is kept away by the lock
            while (s.q.pushBack(fill.data(), 1)) {}
        Cb cb[VT + 2];
        for (int i = 0; i < k; i++) d.a.asyncCall(cb[i].fn(), "B", 60000, "mark", i);
        for (int i = 0; i < k; i++) settle(1);
        static const int AT[] = {0, 5, 40};
        int at = AT[choose(3, "moment")];
        window(true);
        sleep_ms(at);
        int64_t t0 = now_us();
        d.B.finish();
        VMC_CHECK(now_us() - t0 < 3000000, "slow-shutdown", "the shutdown took %.3f ms", (now_us() - t0) / 1e3);
        window(false);
        int ran = d.runs.get();
        s.unlock();
        settle(200);
        VMC_CHECK(d.runs.get() == ran, "runs-after-shutdown", "a function ran after the shutdown");
        d.a.uninit();
        for (int i = 0; i < k; i++) cb[i].once("call");
    }));
    add(scn("C12.both", 1, 2, [] {
        window(false);
        Live live;
        Counter go, up;
        Veigar a;
        a.bind("g", [&](int x) { live.check("a bound function"); return x; });
        VMC_CHECK(a.init("A", 8, 256), "init-failed", "A");
        int pid = start_process([&] {
            Veigar v;
            v.bind("f", [&](int x) { return x; });
            VMC_CHECK(v.init("B", 8, 256), "init-failed", "B");
            Counter n;
            up++;
            go.wait(1);
            v.asyncCall([&](const CallResult&) { n++; }, "A", 300, "g", 1);
            v.uninit();
            VMC_CHECK(n.get() == 1, "callback-count", "the callback of B ran %d times", n.get());
        });
        up.wait(1);
        window(true);
        Counter n;
        go++;
        a.asyncCall([&](const CallResult&) { live.check("a callback"); n++; }, "B", 300, "f", 1);
        a.uninit();
        live.down++;
        VMC_CHECK(n.get() == 1, "callback-count", "the callback ran %d times", n.get());
        join_process(pid);
        window(false);
    }));
    // running functions of the instance wait for results of calls the instance made: the shutdown completes them
    add(scn("C12.function_waits_for_call", 1, 2, [] {
        Duo d;
        Veigar* a = &d.a;
        Counter in;
        int style = choose(2, "style");
        d.a.bind("relay", [&, a, style](int x) {
            in++;
            if (style) {
                auto p = a->asyncCall("B", 60000, "slow", x);
                if (p) {
                    CallResult r = p->second.get();
                    must_fail(r, "call of a function whose instance was shut down");
                }
            } else {
                CallResult r = a->syncCall("B", 60000, "slow", x);
                must_fail(r, "call of a function whose instance was shut down");
            }
            return x;
        });
        window(true);
        auto p = d.a.asyncCall("A", 60000, "relay", 1);
        int w = choose(3, "wait for");
        if (w == 0) in.wait(1, 500);
        if (w == 1) d.entered.wait(1, 500);
        int64_t t0 = now_us();
        d.a.uninit();
        VMC_CHECK(now_us() - t0 < 3000000, "slow-shutdown", "the shutdown took %.3f ms", (now_us() - t0) / 1e3);
        VMC_CHECK(p && p->second.wait_for(chrono::milliseconds(0)) == future_status::ready, "never-completed", "an outstanding promise is not completed by the shutdown");
        window(false);
        d.gate++;
        d.B.finish();
    }));
    // hundreds of calls are outstanding: in the queue of the target, waiting for room, at the sender
    add(scn("C12.many_outstanding", 0, 0, [] {
        Duo d(8, 64, 300, 64);
        vector<shared_ptr<AsyncCallResult>> ps;
        int first = choose(3, "who first");
        for (int i = 0; i < 700; i++) ps.push_back(d.a.asyncCall("B", 60000, "slow", i));
        settle(50);
        {
            Q q(CALLQ_B);
            VMC_CHECK(q.size() == 300, "not-queued", "%lld calls are queued", (long long)q.size());
        }
        window(true);
        int64_t t0 = now_us();
        if (first != 2) {  // the target goes down, before or at the same time
            d.gate++;
            d.B.stop++;
            if (first == 1) VMC_CHECK(d.B.down.wait(1, 3000), "slow-shutdown", "the shutdown of the target does not end");
        }
        d.a.uninit();
        VMC_CHECK(now_us() - t0 < 3000000, "slow-shutdown", "the shutdown took %.3f ms", (now_us() - t0) / 1e3);
        for (auto& p : ps) VMC_CHECK(p && p->second.wait_for(chrono::milliseconds(0)) == future_status::ready, "never-completed", "an outstanding promise is not completed by the shutdown");
        window(false);
        d.gate++;
        d.B.finish();
    }, NO_RACES));
    // a callback that starts another call, during the shutdown
    add(scn("C12.callback_calls", 1, 2, [] {
        Duo d;
        Counter n, n2;
        window(true);
        Veigar* a = &d.a;
        d.a.asyncCall(
            [&, a](const CallResult& r) {
                n++;
                a->asyncCall([&](const CallResult&) { n2++; }, "B", 300, "f", 5);
                a->releaseCall("no such id");
            },
            "B", 300, "f", 4);
        if (choose(2, "wait")) sleep_ms(1);
        d.a.uninit();
        VMC_CHECK(n.get() == 1, "callback-count", "the callback ran %d times", n.get());
        VMC_CHECK(n2.get() <= 1, "callback-count", "the second callback ran %d times", n2.get());
        window(false);
        d.gate++;
        d.B.finish();
    }));
    // calls, releases and queries from other threads while the instance is shut down
    for (int races = 0; races < 2; races++)  // shutting down is ordered with every other use
    add(scn(races ? "C12.concurrent_use_races" : "C12.concurrent_use", 2, races ? 2 : 3, [] {
        Duo d;
        window(true);
        Counter n, in;
        int what = choose(5, "what"), later = choose(2, "who first");
        thread t([&] {
            in++;
            if (what == 0) {
                CallResult r = d.a.syncCall("B", 300, "f", 1);
                if (r.isSuccess()) must_be(r, 1001, "call");
                else must_fail(r, "call");
            } else if (what == 1) {
                auto p = d.a.asyncCall("B", 300, "f", 1);
                if (p) d.a.releaseCall(p->first);
            } else if (what == 2) {
                d.a.asyncCall([&](const CallResult& r) { n++; }, "B", 300, "f", 1);
                n.wait(1, 1000);
                VMC_CHECK(n.get() == 1, "callback-count", "the callback ran %d times", n.get());
            } else if (what == 3) {
                d.a.bind("late", [](int x) { return x; });
                d.a.bindNames();
                d.a.unbind("late");
            } else {
                d.a.releaseCall("no such call");
                d.a.setTimeoutOfRWLock(40);
                d.a.timeoutOfRWLock();
            }
        });
        if (later) in.wait(1);
        d.a.uninit();
        t.join();
        window(false);
        d.gate++;
        d.B.finish();
    }, races ? 0 : NO_RACES));
}

int main(int argc, char** argv) {
    c12();
    return main_run(argc, argv, "stateless model checking of the implementation");
}
