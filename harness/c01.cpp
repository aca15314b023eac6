#include "duo.h"

static void c01() {
    add(scn("C01.two_sync", 2, 3, [] {
        Duo d;
        window(true);
        thread t1([&] { CallResult r = d.a.syncCall("B", TOUT, "add", 3, 4); must_be(r, 304, "t1"); });
        thread t2([&] { CallResult r = d.a.syncCall("B", TOUT, "sub", 5, 6); must_be(r, 494, "t2"); });
        t1.join();
        t2.join();
        VMC_CHECK(d.runs.get() == 2, "run-count", "the functions ran %d times for 2 calls", d.runs.get());
        d.end();
    }));
    // the same function, so that only the number of the call tells the two apart
    add(scn("C01.same_function", 2, 3, [] {
        Duo d;
        window(true);
        Counter n;
        shared_ptr<AsyncCallResult> p1, p2;
        thread t1([&] { auto p = d.a.asyncCall("B", TOUT, "mark", 3); Unchecked u; p1 = p; });
        thread t2([&] { auto p = d.a.asyncCall("B", TOUT, "mark", 4); Unchecked u; p2 = p; });
        t1.join();
        t2.join();
        VMC_CHECK(p1->first != p2->first, "duplicate-id", "two calls have the id %s", p1->first.c_str());
        CallResult r1 = await(p1, 3 * TOUT, "t1"), r2 = await(p2, 3 * TOUT, "t2");
        must_be(r1, 3, "t1");
        must_be(r2, 4, "t2");
        VMC_CHECK(d.runs.get() == 2, "run-count", "the functions ran %d times for 2 calls", d.runs.get());
        d.a.releaseCall(p1->first);
        d.a.releaseCall(p2->first);
        d.end();
    }, NO_RACES, 15));
    add(scn("C01.styles", 2, 3, [] {
        Duo d;
        Cb cb;
        window(true);
        thread t1([&] { CallResult r = d.a.syncCall("B", TOUT, "add", 3, 4); must_be(r, 304, "sync"); });
        d.a.asyncCall(cb.fn(), "B", TOUT, "f", 9);
        auto p = d.a.asyncCall("B", TOUT, "sub", 5, 6);
        CallResult r = await(p, 3 * TOUT, "promise");
        must_be(r, 494, "promise");
        d.a.releaseCall(p->first);
        t1.join();
        cb.n.wait(1, 3 * TOUT);
        settle(200);
        cb.value(1009, "callback");
        VMC_CHECK(d.runs.get() == 3, "run-count", "the functions ran %d times for 3 calls", d.runs.get());
        d.end();
    }, NO_RACES, 45));
    // The identity of a call must not depend on how its parts run together: two outstanding calls whose
    // function names and numbers concatenate to the same text.
    for (int variant = 0; variant < 2; variant++)
        add(scn(variant ? "C01.names_suffix" : "C01.names_digits", 0, 1, [variant] {
            Duo d(40, 256);
            // numbers: the first call has number 0.  Call k1 to "f1"/"slow" variants stays outstanding behind "slow".
            auto blk = d.a.asyncCall("B", 60000, "slow", 0);  // number 0
            vector<shared_ptr<AsyncCallResult>> ps;
            vector<int> want;
            window(true);
            // numbers 1..24, alternating f1 and f: f1+"1" and f+"11", f1+"2" and f+"12", ...
            for (int i = 1; i <= 24; i++) {
                bool one = variant ? (i % 2) : (i < 10);
                ps.push_back(one ? d.a.asyncCall("B", 60000, "f1", i) : d.a.asyncCall("B", 60000, "f", i));
                want.push_back(one ? 2000 + i : 1000 + i);
            }
            window(false);
            settle(500);
            d.gate++;
            CallResult rb = await(blk, 10000, "slow");
            must_be(rb, 3000, "slow");
            for (size_t i = 0; i < ps.size(); i++) {
                string who = "call number " + to_string(i + 1);
                CallResult r = await(ps[i], 10000, who.c_str());
                must_be(r, want[i], who.c_str());
                d.a.releaseCall(ps[i]->first);
            }
            set<string> ids;
            for (auto& p : ps) VMC_CHECK(ids.insert(p->first).second, "duplicate-id", "two calls have the id %s", p->first.c_str());
            VMC_CHECK(d.runs.get() == 25, "run-count", "25 calls, %d runs", d.runs.get());
            d.end();
        }));
    add(scn("C01.self_call", 2, 3, [] {
        Duo d;
        d.a.bind("own", [](int x) { return x * 2; });
        Cb cb;
        window(true);
        d.a.asyncCall(cb.fn(), "A", TOUT, "own", 4);
        CallResult r = d.a.syncCall("A", TOUT, "own", 21);
        must_be(r, 42, "self");
        cb.n.wait(1, 3 * TOUT);
        settle(100);
        cb.value(8, "self callback");
        d.end();
    }));
    add(scn("C01.cross", 2, 3, [] {
        window(false);
        Counter go;
        Veigar a;
        a.bind("fa", [](int x) { return x + 1; });
        VMC_CHECK(a.init("A", 8, 256), "init-failed", "A");
        Peer B;
        B.start(
            "B", [](Veigar& v) { v.bind("fb", [](int x) { return x + 2; }); }, 8, 256,
            [&](Veigar& v) {
                go.wait(1);
                CallResult r = v.syncCall("A", TOUT, "fa", 10);
                must_be(r, 11, "B->A");
                go++;
            });
        window(true);
        go++;
        CallResult r = a.syncCall("B", TOUT, "fb", 20);
        must_be(r, 22, "A->B");
        go.wait(2);
        window(false);
        a.uninit();
        B.finish();
    }));
    add(scn("C01.nested", 2, 3, [] {
        window(false);
        Veigar a;
        a.bind("fa", [](int x) { return x + 1; });
        VMC_CHECK(a.init("A", 8, 256), "init-failed", "A");
        Peer B;
        B.start("B", [](Veigar& v) {
            Veigar* p = &v;
            v.bind("fb", [p](int x) {
                CallResult r = p->syncCall("A", TOUT, "fa", x);
                must_be(r, x + 1, "B->A");
                return num(r) * 10;
            });
        });
        window(true);
        CallResult r = a.syncCall("B", 2 * TOUT, "fb", 20);
        must_be(r, 210, "A->B");
        window(false);
        a.uninit();
        B.finish();
    }));
    // The instance is used by the callbacks and functions it runs.
    add(scn("C01.reentrant", 1, 2, [] {
        Duo d;
        int where = choose(5, "where"), op = choose(8, "operation");
        Veigar& a = d.a;
        Cb inner;
        Counter done, n;
        shared_ptr<AsyncCallResult> p;
        a.bind("old", [](int x) { return x; });
        auto act = [&] {
            const bool down = where == 4;
            switch (op) {
                case 0: a.asyncCall(inner.fn(), "B", 1000, "f", 5); break;
                case 1: {
                    auto q = a.asyncCall("B", 1000, "f", 5);
                    Unchecked u;
                    p = q;
                    break;
                }
                case 2: a.releaseCall("unknown"); break;
                case 3: a.bind("new", [](int x) { return x + 1; }); break;
                case 4: a.unbind("old"); break;
                case 5: a.bindNames(); break;
                case 6: VMC_CHECK(a.channelName() == "A" && a.timeoutOfRWLock() == 30 && a.msgQueueCapacity() == 8, "settings", "wrong"); break;
                case 7: {
                    int64_t t0 = now_us();
                    CallResult r = a.syncCall("B", 100, "f", 5);
                    VMC_CHECK(now_us() - t0 <= 140000, "late", "a call in a callback took %.3f ms", (now_us() - t0) / 1e3);
                    if (r.isSuccess()) must_be(r, 1005, "call in a callback");
                    break;
                }
            }
            (void)down;
            done++;
        };
        bool ran = false;
        auto cb = [&](const CallResult& r) {
            n++;
            VMC_CHECK(r.isSuccess() == (where == 0), "wrong-result", "where %d: %s", where, r.errorMessage.c_str());
            act();
        };
        a.bind("act", [&](int x) { act(); return x + 9; });
        window(true);
        if (where == 0) a.asyncCall(cb, "B", 1000, "f", 1);
        if (where == 1) a.asyncCall(cb, "nobody", 1000, "f", 1);
        if (where == 2) a.asyncCall(cb, "B", 1000, "throws", 1);
        if (where == 3) {
            CallResult r = a.syncCall("A", 1000, "act", 1);
            must_be(r, 10, "function that uses its instance");
            n++;
        }
        if (where == 4) {
            a.asyncCall(cb, "B", 100000, "slow", 1);
            d.entered.wait(1, 1000);
            thread t([&] { sleep_ms(20); d.gate++; });
            a.uninit();
            t.join();
        }
        VMC_CHECK(done.wait(1, 3000), "hang", "where %d, operation %d did not end", where, op);
        window(false);
        settle(150);
        VMC_CHECK(n.get() == 1 && done.get() == 1, "callback-count", "the outer callback ran %d times", n.get());
        if (op == 0) {
            VMC_CHECK(inner.n.wait(1, 3000), "never-completed", "where %d: the call made in a callback was not completed", where);
            if (where < 4 || inner.ok.get()) inner.value(1005, "call in a callback");
            else inner.once("call in a callback");
        }
        if (op == 1) {
            CallResult r = await(p, 3000, "call in a callback");
            if (where < 4 || r.isSuccess()) must_be(r, 1005, "call in a callback");
        }
        if (where < 4) {
            CallResult r = a.syncCall("B", 1000, "f", 6);
            must_be(r, 1006, "later call");
            if (op == 3) {
                CallResult r2 = a.syncCall("A", 1000, "new", 6);
                must_be(r2, 7, "function bound in a callback");
            }
            CallResult r3 = a.syncCall("A", 1000, "old", 6);
            if (op == 4) must_fail(r3, "function unbound in a callback");
            else must_be(r3, 6, "later call");
        }
        (void)ran;
        d.end();
    }, NO_RACES, 30));
    // more calls than the queue holds, all outstanding at once
    add(scn("C01.many_outstanding", 1, 2, [] {
        Duo d(2, 128);
        Cb cb[3];
        vector<shared_ptr<AsyncCallResult>> ps;
        window(true);
        for (int i = 0; i < 3; i++) {
            ps.push_back(d.a.asyncCall("B", TOUT, "mark", i));
            d.a.asyncCall(cb[i].fn(), "B", TOUT, "mark", 10 + i);
        }
        for (int i = 0; i < 3; i++) {
            CallResult r = await(ps[i], 3 * TOUT, "promise");
            must_be(r, i, "promise");
            d.a.releaseCall(ps[i]->first);
        }
        for (int i = 0; i < 3; i++) cb[i].n.wait(1, 3 * TOUT);
        settle(100);
        for (int i = 0; i < 3; i++) {
            cb[i].value(10 + i, "callback");
            VMC_CHECK(d.arg[i].get() == 1 && d.arg[10 + i].get() == 1, "run-count", "a function ran %d and %d times", d.arg[i].get(), d.arg[10 + i].get());
        }
        d.end();
    }));
    add(scn("C01.two_callers", 2, 3, [] {
        Duo d;
        Counter go;
        Peer C;
        C.start("C", nullptr, 8, 256, [&](Veigar& v) {
            go.wait(1);
            CallResult r = v.syncCall("B", TOUT, "add", 7, 8);
            must_be(r, 708, "C->B");
            go++;
        });
        window(true);
        go++;
        CallResult r = d.a.syncCall("B", TOUT, "sub", 5, 6);
        must_be(r, 494, "A->B");
        go.wait(2);
        window(false);
        C.finish();
        VMC_CHECK(d.runs.get() == 2, "run-count", "%d runs", d.runs.get());
        d.end();
    }));
    // calls are issued by another thread at any moment of the shutdown
    add(scn("C01.issued_at_shutdown", 2, 3, [] {
        Duo d;
        window(true);
        Counter in;
        int style = choose(3, "style"), later = choose(2, "who first");
        Cb cb;
        shared_ptr<AsyncCallResult> p;
        thread t([&] {
            in++;
            if (style == 0) {
                CallResult r = d.a.syncCall("B", 300, "f", 1);
                if (r.isSuccess()) must_be(r, 1001, "call");
                else must_fail(r, "call");
            } else if (style == 1)
                p = d.a.asyncCall("B", 300, "f", 1);
            else
                d.a.asyncCall(cb.fn(), "B", 300, "f", 1);
        });
        if (later) in.wait(1);
        d.a.uninit();
        t.join();
        window(false);
        if (style == 1) {
            VMC_CHECK(p && p->second.valid(), "null-result", "no future");
            CallResult r = await(p, 0, "call issued while the instance is shut down");
            if (r.isSuccess()) must_be(r, 1001, "call");
            else must_fail(r, "call");
        }
        if (style == 2) {
            VMC_CHECK(cb.n.get() == 1, "callback-count", "the callback of a call issued while the instance is shut down ran %d times", cb.n.get());
            if (cb.ok.get()) cb.value(1001, "call");
            settle(100);
            VMC_CHECK(cb.n.get() == 1, "callback-count", "the callback of a call issued while the instance is shut down ran %d times", cb.n.get());
        }
        d.gate++;
        d.B.finish();
    }));
    // every kind of success and failure in every style, two calls in a row, ended by a shutdown at once or later
    add(scn("C01.kinds", 0, 1, [] {
        static const int K = 10;
        Duo d(3, 128);
        Cb cb[2];
        shared_ptr<AsyncCallResult> p[2];
        int kind[2], style[2];
        auto issue = [&](int i, auto st) {  // st(channel, function, args...)
            switch (kind[i]) {
                case 0: st("B", "f", 5); break;
                case 1: st("nobody", "f", 5); break;
                case 2: st("B", "unknown", 5); break;
                case 3: st("B", "f", string("text")); break;
                case 4: st("B", "f", 5, 6); break;
                case 5: st("B", "len", string(1000, 'x')); break;  // never fits
                case 6: st("B", "throws", 5); break;
                case 7: st("B", "long", 5); break;  // the result never fits: no response
                case 8: st("B", "len", string(300, 'x')); break;  // fits, but is longer than expected
                case 9: st("A", "f", 5); break;  // nothing is bound here
            }
        };
        window(true);
        for (int i = 0; i < 2; i++) {
            kind[i] = choose(K, "kind");
            style[i] = choose(3, "style");
            bool good = kind[i] == 0 || kind[i] == 8;
            int val = kind[i] == 0 ? 1005 : 300;
            string who = "kind " + to_string(kind[i]) + " style " + to_string(style[i]);
            if (style[i] == 0)
                issue(i, [&](const char* ch, const char* fn, auto... a) {
                    CallResult r = d.a.syncCall(ch, 200, fn, a...);
                    if (good) must_be(r, val, who.c_str());
                    else must_fail(r, who.c_str());
                });
            if (style[i] == 1) issue(i, [&](const char* ch, const char* fn, auto... a) { p[i] = d.a.asyncCall(ch, 200, fn, a...); });
            if (style[i] == 2) issue(i, [&](const char* ch, const char* fn, auto... a) { d.a.asyncCall(cb[i].fn(), ch, 200, fn, a...); });
        }
        bool wait = choose(2, "wait");
        if (wait) settle(400);
        d.a.uninit();
        window(false);
        for (int i = 0; i < 2; i++) {
            bool good = kind[i] == 0 || kind[i] == 8;
            int val = kind[i] == 0 ? 1005 : 300;
            string who = "kind " + to_string(kind[i]) + " style " + to_string(style[i]);
            if (style[i] == 1) {
                CallResult r = await(p[i], 0, who.c_str());
                if (good && (wait || r.isSuccess())) must_be(r, val, who.c_str());
                else must_fail(r, who.c_str());
            }
            if (style[i] == 2) {
                cb[i].once(who.c_str());
                if (good && wait) cb[i].value(val, who.c_str());
                if (!good) VMC_CHECK(cb[i].ok.get() == 0, "unexpected-success", "%s", who.c_str());
            }
        }
        d.B.finish();
        VMC_CHECK(cb[0].n.get() <= 1 && cb[1].n.get() <= 1, "callback-count", "a callback ran again");
    }));
    // timers may fire early: calls may fail, but each completes exactly once and successes are right
    // Calls that can not be delivered are completed once as well, with a failure, also when the instance calls itself.
    add(scn("C01.undeliverable", 1, 2, [] {
        Duo d(1, 256, 1, 256);
        Counter ran;
        d.a.bind("f", [&](string) { ran++; return 1; });
        static const char* const TARGET[] = {"A", "B", "nobody"};
        int target = choose(3, "target"), cause = target == 2 ? 0 : choose(4, "cause"), style = choose(3, "style");
        bool later = choose(2, "wait before the shutdown");
        const char* ch = TARGET[target];
        string arg(cause == 0 ? 3000 : 3, 'x');
        {
            Q s(target ? CALLQ_B : CALLQ_A);
            char junk[200] = {(char)0xc1};
            s.lock();
            if (cause == 1 || cause == 3) VMC_CHECK(s.q.pushBack(junk, 200), "push-failed", "a push into an empty queue failed");  // nobody is told
            if (cause == 1 || cause == 0) s.unlock();
            window(true);
            Cb cb;
            shared_ptr<AsyncCallResult> p;
            if (style == 0) d.a.asyncCall(cb.fn(), ch, 100, "f", arg);
            if (style == 1) p = d.a.asyncCall(ch, 100, "f", arg);
            if (style == 2) {
                CallResult r = d.a.syncCall(ch, 100, "f", arg);
                must_fail(r, "call that can not be delivered");
            }
            if (later) {
                if (style == 0) VMC_CHECK(cb.n.wait(1, 200), "never-completed", "the failure of a call is not reported");
                if (style == 1) VMC_CHECK(p->second.wait_for(chrono::milliseconds(200)) == future_status::ready, "never-completed", "the failure of a call is not reported");
                settle(10);
            }
            d.a.uninit();
            window(false);
            if (style == 0) {
                cb.once("call that can not be delivered");
                VMC_CHECK(cb.ok.get() == 0, "wrong-result", "a call that was not delivered succeeded");
            }
            if (style == 1) {
                CallResult r = await(p, 0, "promise");
                must_fail(r, "call that can not be delivered");
            }
            if (cause > 1) s.unlock();
        }
        VMC_CHECK(ran.get() == 0 && d.runs.get() == 0, "ran", "the function of a call that was not delivered ran");
        d.B.finish();
    }));
    add(scn("C01.any_time", 1, 2, [] {
        Duo d;
        Cb cb;
        window(true);
        d.a.asyncCall(cb.fn(), "B", 300, "f", 9);
        thread t1([&] {
            CallResult r = d.a.syncCall("B", 300, "add", 3, 4);
            if (r.isSuccess()) must_be(r, 304, "sync");
            else must_fail(r, "sync");
            outcome(ecs(r));
        });
        auto p = d.a.asyncCall("B", 300, "sub", 5, 6);
        t1.join();
        if (p->second.wait_for(chrono::milliseconds(2000)) == future_status::ready) {
            CallResult r = p->second.get();
            if (r.isSuccess()) must_be(r, 494, "promise");
            else must_fail(r, "promise");
            outcome(ecs(r));
        } else
            outcome("outstanding");
        settle(500);
        window(false);
        VMC_CHECK(cb.n.get() <= 1, "callback-count", "the callback ran %d times", cb.n.get());
        outcome(cb.ok.get() ? "cb ok" : cb.fail.get() ? "cb failed" : "cb outstanding");
        if (cb.ok.get()) cb.value(1009, "callback");
        d.end();
        cb.once("callback");
    }, NO_RACES | EARLY_TIMER | EINTR_SEM | SPURIOUS));
}

// Calls stay apart however many calls come between them.
static void long_history() {
    Search s;
    s.name = "C01.long_history";
    s.note = "calls that stay outstanding during many others";
    s.fn = [](int shard, int, bool thorough) {
        if (shard > 2) return;
        const int style = shard, total = thorough ? 140000 : 66000;
        bool ok = run_inline([&] {
            Duo d(8, 256);
            Peer C;
            Counter gate, late;
            C.start("C", [&](Veigar& v) { v.bind("f", [&](int x) { late++; gate.wait(1); return x + 500000; }); }, 8, 256, nullptr, false);
            C.up.wait(1, 1000);
            Cb cb;
            shared_ptr<AsyncCallResult> p;
            CallResult rs;
            thread t;
            if (style == 0) d.a.asyncCall(cb.fn(), "C", 40000000, "f", 1);
            if (style == 1) p = d.a.asyncCall("C", 40000000, "f", 1);
            if (style == 2) t = thread([&] { rs = d.a.syncCall("C", 40000000, "f", 1); });
            late.wait(1, 1000);
            uint64_t blocks = 0;
            for (int i = 0; i < total; i++) {
                switch (style) {
                    case 0: {
                        CallResult r = d.a.syncCall("B", TOUT, "f", i);
                        must_be(r, 1000 + i, "one of many calls");
                        break;
                    }
                    case 1: {
                        Cb c;
                        d.a.asyncCall(c.fn(), "B", TOUT, "f", i);
                        c.n.wait(1, TOUT);
                        c.value(1000 + i, "one of many calls");
                        break;
                    }
                    case 2: {
                        auto q = d.a.asyncCall("B", TOUT, "f", i);
                        CallResult r = await(q, TOUT, "one of many calls");
                        must_be(r, 1000 + i, "one of many calls");
                        d.a.releaseCall(q->first);
                        break;
                    }
                }
                if (i == 1000) blocks = live_heap_blocks();
            }
            settle(100);
            VMC_CHECK(live_heap_blocks() <= blocks + 50, "memory-kept", "%d calls keep %lld heap blocks", total, (long long)(live_heap_blocks() - blocks));
            VMC_CHECK(d.runs.get() == total, "run-count", "%d runs of %d calls", d.runs.get(), total);
            gate++;
            if (style == 0) {
                cb.n.wait(1, TOUT);
                cb.value(500001, "outstanding call");
            }
            if (style == 1) {
                CallResult r = await(p, TOUT, "outstanding call");
                must_be(r, 500001, "outstanding call");
                d.a.releaseCall(p->first);
            }
            if (style == 2) {
                t.join();
                must_be(rs, 500001, "outstanding call");
            }
            VMC_CHECK(late.get() == 1, "run-count", "the outstanding call ran %d times", late.get());
            C.finish();
            d.end();
        }, 30000000, NO_RACES | REUSE_HEAP);
        VMC_CHECK(ok, "harness", "the history did not end");
        count_states(total);
        count_transitions(total);
        sample("a call that stays outstanding during " + to_string(total) + " others");
    };
    add_search(s);
}
// Any number of calls outstanding at once.
static void thousands() {
    Search s;
    s.name = "C01.thousands";
    s.fn = [](int shard, int n, bool thorough) {
        const int total = thorough ? 3000 : 1500;
        for (int k = shard; k < 12; k += n) {
            const int style = k % 2, cap = k / 2 % 3 == 0 ? 1 : k / 2 % 3 == 1 ? 8 : 3000;
            const bool down = k >= 6;  // shut down instead of answered
            bool ok = run_inline([&] {
                Duo d(cap, 256);
                auto blk = d.a.asyncCall("B", 100000000, "slow", 1);
                d.entered.wait(1, 1000);
                vector<unique_ptr<Cb>> cbs;
                vector<shared_ptr<AsyncCallResult>> ps;
                set<string> ids;
                for (int i = 0; i < total; i++) {
                    if (style) {
                        ps.push_back(d.a.asyncCall("B", 100000000, "f", i));
                        ids.insert(ps.back()->first);
                    } else {
                        cbs.emplace_back(new Cb);
                        d.a.asyncCall(cbs.back()->fn(), "B", 100000000, "f", i);
                    }
                }
                VMC_CHECK(!style || (int)ids.size() == total, "duplicate-id", "%d ids for %d calls", (int)ids.size(), total);
                settle(300);
                for (auto& c : cbs) VMC_CHECK(VT > 1 || c->n.get() == 0, "early", "a call was completed before it was served");
                if (down) {
                    thread t([&] { sleep_ms(50); d.gate++; });
                    d.a.uninit();
                    t.join();
                } else
                    d.gate++;
                int served = 0;
                for (int i = 0; i < total; i++) {
                    if (style) {
                        CallResult r = await(ps[i], 100000, "one of many");
                        if (!down || r.isSuccess()) must_be(r, 1000 + i, "one of many"), served++;
                        else must_fail(r, "one of many");
                    } else {
                        Cb& c = *cbs[i];
                        VMC_CHECK(c.n.wait(1, 100000), "never-completed", "call %d of %d outstanding was not completed", i, total);
                        if (!down || c.ok.get()) c.value(1000 + i, "one of many"), served++;
                        else c.once("one of many");
                    }
                }
                settle(200);
                for (auto& c : cbs) c->once("one of many");
                if (!down) VMC_CHECK(d.runs.get() == total + 1, "run-count", "%d runs of %d calls", d.runs.get(), total + 1);
                else VMC_CHECK(d.runs.get() >= served, "run-count", "%d runs of %d successful calls", d.runs.get(), served);
                for (auto& p : ps) d.a.releaseCall(p->first);
                d.end();
            }, 300000000, NO_RACES | REUSE_HEAP);
            VMC_CHECK(ok, "harness", "the history did not end");
            count_states(total);
            count_transitions(total);
        }
        if (!shard) sample(to_string(total) + " calls outstanding at once");
    };
    add_search(s);
}
int main(int argc, char** argv) {
    c01();
    long_history();
    thousands();
    return main_run(argc, argv, "stateless model checking of the implementation");
}
