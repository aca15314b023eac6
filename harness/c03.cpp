#include "duo.h"

// A synchronous call: returns a failure not later than timeout + lock timeout (30 ms) + slack.
static const int64_t LOCKT = 30, SLACK = 25;
static void timed_fail(Veigar& a, const char* ch, uint32_t tmo, const char* fn, const char* who, int64_t extra = 0) {
    int64_t t0 = now_us();
    CallResult r = a.syncCall(ch, tmo, fn, 1);
    int64_t dt = now_us() - t0;
    must_fail(r, who);
    VMC_CHECK(dt <= (tmo + LOCKT + SLACK + extra) * 1000, "late", "%s: a call with timeout %u ms returned after %.3f ms", who, tmo, dt / 1e3);
}
static void c03() {
    static const uint32_t TM[] = {31, 100, 1000, 3000};
    add(scn("C03.absent", 1, 2, [] {
        Duo d;
        uint32_t t = TM[choose(4, "timeout")];
        window(true);
        timed_fail(d.a, "nobody", t, "f", "absent target");
        window(false);
        CallResult r = d.a.syncCall("B", TOUT, "f", 1);
        must_be(r, 1001, "after");
        d.end();
    }));
    add(scn("C03.blocked_function", 1, 2, [] {
        Duo d;
        uint32_t t = TM[choose(4, "timeout")];
        window(true);
        timed_fail(d.a, "B", t, "slow", "blocked function");
        window(false);
        d.gate++;
        settle(200);
        CallResult r = d.a.syncCall("B", TOUT, "f", 1);
        must_be(r, 1001, "after");
        d.end();
    }));
    // the instance calls itself
    add(scn("C03.own_function", VT > 1 ? 0 : 1, 2, [] {
        Duo d;
        Duo* pd = &d;
        d.a.bind("slow", [pd](int x) { pd->entered++; pd->gate.wait(1); return x; });
        d.a.bind("late", [](int x) { sleep_ms(3200); return x; });
        d.a.bind("f", [](int x) { return x + 1000; });
        uint32_t t = TM[choose(4, "timeout")];
        const char* fn = choose(2, "function") ? "late" : "slow";
        window(true);
        timed_fail(d.a, "A", t, fn, "slow function of the own instance");
        window(false);
        d.gate++;
        settle(4000);
        CallResult r = d.a.syncCall("A", TOUT, "f", 1);
        must_be(r, 1001, "after");
        d.end();
    }));
    add(scn("C03.busy_target", 1, 2, [] {
        Duo d;
        vector<shared_ptr<AsyncCallResult>> ps;
        for (int i = 0; i < VT; i++) ps.push_back(d.a.asyncCall("B", 60000, "slow", i));
        d.entered.wait(VT, 1000);
        uint32_t t = TM[choose(4, "timeout")];
        window(true);
        timed_fail(d.a, "B", t, "f", "busy target");
        window(false);
        d.gate++;
        settle(200);
        d.end();
    }));
    add(scn("C03.full_queue", 1, 2, [] {
        Duo d(8, 256, 1, 256);
        vector<shared_ptr<AsyncCallResult>> ps;
        for (int i = 0; i < VT; i++) {
            ps.push_back(d.a.asyncCall("B", 60000, "slow", i));
            d.entered.wait(i + 1, 1000);
        }
        ps.push_back(d.a.asyncCall("B", 60000, "f", 1));  // fills the queue
        settle(50);
        uint32_t t = TM[choose(4, "timeout")];
        window(true);
        timed_fail(d.a, "B", t, "f", "full queue");
        window(false);
        d.gate++;
        settle(200);
        CallResult r = d.a.syncCall("B", TOUT, "f", 1);
        must_be(r, 1001, "after");
        d.end();
    }));
    // every sending thread is stuck on a full queue when the call is made
    add(scn("C03.behind_waiting_calls", 1, 2, [] {
        Duo d(8, 256, 1, 256);
        vector<shared_ptr<AsyncCallResult>> ps;
        for (int i = 0; i < VT; i++) {
            ps.push_back(d.a.asyncCall("B", 60000, "slow", i));
            d.entered.wait(i + 1, 1000);
        }
        ps.push_back(d.a.asyncCall("B", 60000, "f", 1));
        settle(50);
        for (int i = 0; i < VT; i++) ps.push_back(d.a.asyncCall("B", 10000, "f", 2));  // these wait for room
        settle(50);
        uint32_t t = TM[choose(3, "timeout")];
        window(true);
        timed_fail(d.a, "B", t, "f", "call behind waiting calls");
        window(false);
        d.gate++;
        settle(500);
        CallResult r = d.a.syncCall("B", TOUT, "f", 1);
        must_be(r, 1001, "after");
        d.end();
    }));
    add(scn("C03.lock_held", 1, 2, [] {
        Duo d;
        bool open_first = choose(2, "queue already open");
        if (open_first) {
            CallResult r = d.a.syncCall("B", TOUT, "f", 1);
            must_be(r, 1001, "before");
        }
        Q s(CALLQ_B);
        s.lock();
        uint32_t t = TM[choose(3, "timeout")];
        window(true);
        timed_fail(d.a, "B", t, "f", "lock of the target held by somebody");
        window(false);
        s.unlock();
        settle(100);
        CallResult r = d.a.syncCall("B", TOUT, "f", 1);
        must_be(r, 1001, "after");
        d.end();
    }));
    // calls wait for room in the queue of a target whose lock is then taken and kept by somebody: they fail in time,
    // and a call to another channel behind them is served
    add(scn("C03.lock_taken_while_waiting", 1, 2, [] {
        Duo d(8, 256, 1, 256);
        d.a.bind("own", [](int x) { return x + 5000; });
        vector<shared_ptr<AsyncCallResult>> ps;
        for (int i = 0; i < VT; i++) {
            ps.push_back(d.a.asyncCall("B", 60000, "slow", i));
            d.entered.wait(i + 1, 1000);
        }
        ps.push_back(d.a.asyncCall("B", 60000, "f", 1));
        settle(50);
        uint32_t t = TM[choose(2, "timeout")];
        static const int AT[] = {0, 3, 12};
        int at = AT[choose(3, "moment")];
        window(true);
        int64_t t0 = now_us();
        Cb cb[VT];
        for (int i = 0; i < VT; i++) d.a.asyncCall(cb[i].fn(), "B", t, "f", 2);
        sleep_ms(at);
        Q s(CALLQ_B);
        s.lock();
        for (int i = 0; i < VT; i++) {
            VMC_CHECK(cb[i].n.wait(1, t + LOCKT + SLACK - (now_us() - t0) / 1000), "late", "a call with timeout %u ms that waited for room is not reported after %.3f ms", t, (now_us() - t0) / 1e3);
            VMC_CHECK(cb[i].ok.get() == 0, "wrong-result", "a call into a full queue succeeded");
        }
        CallResult o = d.a.syncCall("A", 1000, "own", 1);
        must_be(o, 5001, "another channel");
        window(false);
        s.unlock();
        d.gate++;
        settle(200);
        CallResult r = d.a.syncCall("B", TOUT, "f", 1);
        must_be(r, 1001, "after");
        d.end();
    }));
    // the response queue of the caller cannot be reached
    add(scn("C03.response_lost", 1, 2, [] {
        Duo d;
        CallResult r0 = d.a.syncCall("B", TOUT, "f", 1);
        must_be(r0, 1001, "before");
        Q s(RESPQ_A);
        s.lock();
        uint32_t t = TM[choose(3, "timeout")];
        window(true);
        timed_fail(d.a, "B", t, "f", "lock of the own response queue held by somebody");
        window(false);
        s.unlock();
        settle(100);
        CallResult r = d.a.syncCall("B", TOUT, "f", 1);
        must_be(r, 1001, "after");
        d.end();
    }));
    add(scn("C03.huge_result", 0, 1, [] {
        Duo d(2, 64, 8, 4096);  // the response cannot fit the caller's queue
        d.B.stop.get();
        uint32_t t = TM[choose(3, "timeout")];
        window(true);
        int64_t t0 = now_us();
        CallResult r = d.a.syncCall("B", t, "no_such_function_with_a_name_so_long_that_the_error_message_about_it_cannot_fit_the_response_queue_of_the_caller", 1);
        int64_t dt = now_us() - t0;
        must_fail(r, "error message that does not fit");
        VMC_CHECK(dt <= (t + LOCKT + SLACK) * 1000, "late", "returned after %.3f ms (timeout %u)", dt / 1e3, t);
        window(false);
        CallResult r2 = d.a.syncCall("B", TOUT, "f", 1);
        must_be(r2, 1001, "after");
        d.end();
    }));
    add(scn("C03.own_shutdown", 1, 2, [] {
        Duo d;
        uint32_t t = TM[1 + choose(3, "timeout")];
        window(true);
        Counter done;
        thread th([&] {
            timed_fail(d.a, "B", t, "slow", "own instance shut down");
            done++;
        });
        d.entered.wait(1, 1000);
        sleep_ms(20);
        d.gate.get();
        d.a.uninit();
        th.join();
        window(false);
        d.gate++;
        d.B.finish();
    }));
    add(scn("C03.target_shutdown", 1, 2, [] {
        Duo d;
        uint32_t t = TM[1 + choose(3, "timeout")];
        int when = choose(2, "after the call is accepted");
        window(true);
        Counter st;
        thread th([&] {
            int64_t t0 = now_us();
            CallResult r = d.a.syncCall("B", t, "f", 1);
            int64_t dt = now_us() - t0;
            if (r.isSuccess()) must_be(r, 1001, "call");
            else must_fail(r, "call");
            VMC_CHECK(dt <= (t + LOCKT + SLACK) * 1000, "late", "returned after %.3f ms (timeout %u)", dt / 1e3, t);
            outcome(ecs(r));
            st++;
        });
        if (when) sleep_ms(0);
        d.B.stop++;
        th.join();
        window(false);
        d.gate++;
        join_process(d.B.pid);
        d.a.uninit();
    }));
    add(scn("C03.dead_target", 1, 2, [] {
        Duo d;
        bool known = choose(2, "contacted before");
        if (known) {
            CallResult r = d.a.syncCall("B", TOUT, "f", 1);
            must_be(r, 1001, "before");
        }
        kill_now(d.B.pid);
        uint32_t t = TM[choose(3, "timeout")];
        window(true);
        timed_fail(d.a, "B", t, "f", "dead target");
        timed_fail(d.a, "B", t, "f", "dead target");
        window(false);
        d.a.uninit();
    }));
    // long timeouts are not cut short (they overflow 32 bit microseconds)
    add(scn("C03.long_timeout", 0, 1, [] {
        Duo d(8, 256, 1, 256);
        static const uint32_t LT[] = {4294968, 5000000, 2147484, 4300000, 2147483648u, 4294967295u};
        vector<shared_ptr<AsyncCallResult>> ps;
        for (int i = 0; i < VT; i++) {
            ps.push_back(d.a.asyncCall("B", 60000, "slow", i));
            d.entered.wait(i + 1, 1000);
        }
        ps.push_back(d.a.asyncCall("B", 60000, "f", 1));  // fills the queue
        settle(50);
        uint32_t t = LT[choose(6, "timeout")];
        int style = choose(2, "style");
        window(true);
        thread th([&] { sleep_ms(4000); d.gate++; });
        if (style == 0) {
            CallResult r = d.a.syncCall("B", t, "f", 5);
            must_be(r, 1005, "sync call with a long timeout");
        } else {
            auto p = d.a.asyncCall("B", t, "f", 5);
            CallResult r = await(p, 20000, "promise");
            must_be(r, 1005, "promise with a long timeout");
        }
        th.join();
        d.end();
    }, NO_RACES, 20, 240, 100000));
    // a function that takes long is waited for
    add(scn("C03.slow_function", 0, 1, [] {
        Duo d;
        window(true);
        CallResult r = d.a.syncCall("B", 5000, "nap", 4900);
        must_be(r, 4900, "function of 4.9 s, timeout 5 s");
        CallResult r2 = d.a.syncCall("B", 4294967295u, "nap", 9000);
        must_be(r2, 9000, "function of 9 s, largest timeout");
        d.end();
    }, NO_RACES, 20, 240, 100000));
    // an asynchronous call that cannot be sent is reported as a failure in time
    add(scn("C03.async_failure", 1, 2, [] {
        Duo d(8, 256, 1, 256);
        int cause = choose(3, "cause");
        vector<shared_ptr<AsyncCallResult>> ps;
        unique_ptr<Q> s;
        if (cause == 1) {
            for (int i = 0; i < VT; i++) {
                ps.push_back(d.a.asyncCall("B", 60000, "slow", i));
                d.entered.wait(i + 1, 1000);
            }
            ps.push_back(d.a.asyncCall("B", 60000, "f", 1));
            settle(50);
        } else if (cause == 2) {
            s.reset(new Q(CALLQ_B));
            s->lock();
        }
        uint32_t t = TM[choose(3, "timeout")];
        const char* ch = cause == 0 ? "nobody" : "B";
        window(true);
        Cb cb;
        int64_t t0 = now_us();
        d.a.asyncCall(cb.fn(), ch, t, "f", 1);
        bool in = cb.n.wait(1, t + LOCKT + SLACK);
        VMC_CHECK(in && cb.fail.get() == 1, "late", "the failure of a callback call was not reported within %.3f ms (timeout %u)", (now_us() - t0) / 1e3, t);
        auto p = d.a.asyncCall(ch, t, "f", 1);
        CallResult r = await(p, t + LOCKT + SLACK, "promise");
        must_fail(r, "promise");
        if (s) s->unlock();
        d.end();
    }));
}

int main(int argc, char** argv) {
    c03();
    return main_run(argc, argv, "stateless model checking of the implementation");
}
