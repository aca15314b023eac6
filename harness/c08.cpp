#include "duo.h"

// The operations of one handle inside the critical section, checked by the race detector and by counters.
struct Section {
    Counter in, out, pushed, popped;
    void visit(veigar::MessageQueue& q, int what) {
        int before = in.get() - out.get();
        in++;
        VMC_CHECK(before == 0, "not-exclusive", "%d other holders of the lock", before);
        char b[16];
        int64_t w = 0;
        if (what == 0) {
            memset(b, 'a' + pushed.get() % 20, 8);
            VMC_CHECK(q.pushBack(b, 8), "push-failed", "a push under the lock failed");
            pushed++;
        } else if (q.popFront(b, 16, w)) {
            VMC_CHECK(w == 8, "pop-size", "%lld", (long long)w);
            for (int i = 0; i < 8; i++) VMC_CHECK(b[i] == 'a' + popped.get() % 20, "wrong-message", "a popped message is not the oldest one");
            popped++;
        }
        VMC_CHECK(q.msgNumber() == pushed.get() - popped.get(), "msg-number", "%lld instead of %d", (long long)q.msgNumber(), pushed.get() - popped.get());
        int after = in.get() - out.get();
        VMC_CHECK(after == 1, "not-exclusive", "%d holders of the lock", after);
        out++;
    }
};

// one owner, who releases the lock when told to; lock times are checked against the moment of the release
struct Timing {
    veigar::MessageQueue q{2, 8}, h{2, 8};
    Counter go, ready, quit;
    int64_t hold_us = 0;
    void check(int64_t phase_ns, uint32_t t, int64_t release_us, const char* note, int64_t slack_us = 1500) {
        set_clock_phase_ns(phase_ns);
        int64_t t0 = now_us();
        bool r = q.processRWLock(t);
        int64_t dt = now_us() - t0;
        bool want = release_us >= 0 && release_us < (int64_t)t * 1000;
        if (want) {
            VMC_CHECK(r, "gave-up", "phase %.6f ms, timeout %u ms, freed after %.3f ms%s: the acquisition failed after %.3f ms", phase_ns / 1e6, t, release_us / 1e3, note, dt / 1e3);
            VMC_CHECK(dt <= release_us + slack_us, "late", "phase %.6f ms, timeout %u ms, freed after %.3f ms%s: acquired after %.3f ms", phase_ns / 1e6, t, release_us / 1e3, note, dt / 1e3);
        } else {
            VMC_CHECK(!r, "not-exclusive", "phase %.6f ms, timeout %u ms%s: acquired a lock that is held", phase_ns / 1e6, t, note);
            VMC_CHECK(dt >= (int64_t)t * 1000, "gave-up", "phase %.6f ms, timeout %u ms%s: gave up after %.3f ms", phase_ns / 1e6, t, note, dt / 1e3);
            VMC_CHECK(dt <= (int64_t)t * 1000 + slack_us, "late", "phase %.6f ms, timeout %u ms%s: gave up after %.3f ms", phase_ns / 1e6, t, note, dt / 1e3);
        }
    }
    void with(int64_t phase_ns, uint32_t t, int64_t release_us, const char* note) {
        // the lock is free at this point
        VMC_CHECK(h.processRWLock(1000), "gave-up", "a free lock can not be acquired");
        Counter done;
        thread th([&] {
            sleep_us(release_us < 0 ? (int64_t)t * 1000 + 5000 : release_us);
            h.processRWUnlock();
            done++;
        });
        check(phase_ns, t, release_us, note);
        th.join();
        if (release_us >= 0 && release_us < (int64_t)t * 1000) q.processRWUnlock();
    }
    void open() {
        VMC_CHECK(q.create("t") && h.open("t"), "open-failed", "queue");
    }
    void close() {
        h.close();
        q.close();
    }
};

static void timing() {
    Search s;
    s.name = "C08.timing";
    s.note = "every millisecond of the clock, timeouts and moments of the release";
    s.fn = [](int shard, int n, bool thorough) {
        static const int64_t SUB[] = {0, 1, 499999, 999999};
        static const uint32_t TO[] = {0, 1, 2, 5, 29, 30, 31, 100, 500, 999, 1000, 1001, 1500, 1999, 2000, 2147, 2148, 4294, 4295, 5000, 61000, 2147483, 2147484, 4294967, 4294968, 2147483647, 2147483648u, 4294967295u};
        uint64_t cnt = 0;
        for (int ms = shard; ms < 1000; ms += n) {
            for (int si = 0; si < 4; si++) {
                if (!thorough && si && ms % 50 && ms != 999 && ms != 1) continue;
                int64_t phase = ms * 1000000ll + SUB[si];
                run_inline(
                    [&] {
                        Timing t;
                        t.open();
                        // nobody holds it
                        for (uint32_t to : TO) {
                            set_clock_phase_ns(phase);
                            int64_t t0 = now_us();
                            VMC_CHECK(t.q.processRWLock(to), "gave-up", "phase %.6f ms, timeout %u ms: a free lock was not acquired", phase / 1e6, to);
                            VMC_CHECK(now_us() - t0 <= 1000, "late", "phase %.6f ms: a free lock was acquired after %.3f ms", phase / 1e6, (now_us() - t0) / 1e3);
                            // held, never released
                            {
                                set_clock_phase_ns(phase);
                                int64_t t1 = now_us();
                                bool r = t.h.processRWLock(to);
                                int64_t dt = now_us() - t1;
                                VMC_CHECK(!r, "not-exclusive", "phase %.6f ms, timeout %u ms: acquired a lock that is held", phase / 1e6, to);
                                VMC_CHECK(dt >= to * 1000ll, "gave-up", "phase %.6f ms, timeout %u ms: gave up after %.3f ms", phase / 1e6, to, dt / 1e3);
                                VMC_CHECK(dt <= to * 1000ll + 1500, "late", "phase %.6f ms, timeout %u ms: gave up after %.3f ms", phase / 1e6, to, dt / 1e3);
                            }
                            t.q.processRWUnlock();
                            cnt += 2;
                            if (to == 0) continue;
                            for (int64_t rel : {0ll, to * 500ll, to * 1000ll - 300}) {
                                t.with(phase, to, rel, "");
                                cnt++;
                            }
                        }
                        // a very long timeout is not cut short
                        for (uint32_t to : {0x7fffffffu, 0x80000000u, 0xffffffffu}) {
                            t.with(phase, to, 3500000, "");
                            cnt++;
                        }
                        t.close();
                    },
                    1000000000000);
            }
        }
        count_states(cnt);
        count_transitions(cnt);
        if (shard == 0) sample("clock phase 999.999999 ms, timeout 1999 ms, freed after 1998.7 ms: acquired");
        note_param("timing", "1000 clock phases x 28 timeouts x 5 situations");
    };
    add_search(s);

    Search e;
    e.name = "C08.timing_signals";
    e.note = "signals interrupt the wait";
    e.fn = [](int shard, int n, bool thorough) {
        int k = 0;
        for (int64_t phase : {0ll, 1ll, 500000000ll, 970000000ll, 985000000ll, 999999999ll})
            for (uint32_t to : {1u, 30u, 1000u})
                for (int64_t rel : {-1ll, to * 700ll}) {
                    if (k++ % n != shard) continue;
                    explore_inline(
                        [=] {
                            Timing t;
                            t.open();
                            t.with(phase, to, rel, " (interrupted)");
                            // an unlimited wait for a notification, too
                            thread th([&] {
                                sleep_ms(5);
                                t.h.notifyRead();
                            });
                            int64_t t0 = now_us();
                            VMC_CHECK(t.q.waitForRead(-1) && now_us() - t0 >= 5000, "early", "the wait for a message ended without one");
                            th.join();
                            t.close();
                        },
                        thorough ? 4 : 2, EINTR_SEM);
                    count_transitions(1);
                }
        if (shard == 0) sample("timeout 30 ms, interrupted twice, freed after 21 ms: acquired");
    };
    add_search(e);
}

static void c08() {
    // threads of one process through one handle, another handle, another process
    add(scn("C08.exclusion", 3, 5, [] {
        window(false);
        Section c;
        veigar::MessageQueue q(4, 32), q2(4, 32);
        VMC_CHECK(q.create("q") && q2.open("q"), "open-failed", "queue");
        Counter go;
        uint32_t tmo = choose(2, "timeout") ? 1000 : 5;
        int hold = choose(2, "hold") ? 20 : 0;
        auto use = [&](veigar::MessageQueue& h, int what) {
            if (!h.processRWLock(tmo)) return;
            c.visit(h, what);
            if (hold) {
                c.in++;
                sleep_ms(hold);
                c.out++;
            }
            h.processRWUnlock();
        };
        int pid = start_process([&] {
            veigar::MessageQueue o(4, 32);
            VMC_CHECK(o.open("q"), "open-failed", "queue");
            go.wait(1);
            use(o, 0);
            use(o, 1);
            o.close();
        });
        window(true);
        go++;
        thread t1([&] { use(q, 1); });
        thread t2([&] { use(q2, 0); });
        use(q, 0);
        t1.join();
        t2.join();
        join_process(pid);
        window(false);
        VMC_CHECK(q.processRWLock(10), "lock-stuck", "the lock is not free at the end");
        VMC_CHECK(!q2.processRWLock(10), "lock-twice", "the lock can be taken twice at the end");
        q.processRWUnlock();
        outcome(to_string(c.pushed.get()) + to_string(c.popped.get()));
        q2.close();
        q.close();
    }, EARLY_TIMER | EINTR_SEM, 25));
    // opening and closing further handles neither takes nor frees the lock
    add(scn("C08.open_close", 2, 4, [] {
        window(false);
        veigar::MessageQueue q(4, 32);
        VMC_CHECK(q.create("q"), "open-failed", "queue");
        Section c;
        int held = choose(2, "held");
        if (held) VMC_CHECK(q.processRWLock(10), "gave-up", "a free lock was not acquired");
        Counter done;
        int pid = start_process([&] {
            for (int i = 0; i < 2; i++) {
                veigar::MessageQueue o(4, 32);
                VMC_CHECK(o.open("q"), "open-failed", "queue");
                int use = choose(2, "use");
                if (use) {
                    bool r = o.processRWLock(3);
                    VMC_CHECK(r == !held, "not-exclusive", "another handle: acquired %d, held %d", r, held);
                    if (r) {
                        c.visit(o, 0);
                        o.processRWUnlock();
                    }
                }
                o.close();
            }
            done++;
        });
        window(true);
        veigar::MessageQueue p(1, 8);
        for (int i = 0; i < 2; i++) {
            VMC_CHECK(p.open("q"), "open-failed", "queue");
            p.close();
        }
        join_process(pid);
        window(false);
        VMC_CHECK(p.open("q"), "open-failed", "queue");
        bool r = p.processRWLock(3);
        VMC_CHECK(r == !held, "not-exclusive", "after opening and closing: acquired %d, held %d", r, held);
        if (r) {
            VMC_CHECK(!q.processRWLock(3), "lock-twice", "after opening and closing");
            p.processRWUnlock();
        } else {
            q.processRWUnlock();
            VMC_CHECK(p.processRWLock(3), "lock-stuck", "after opening and closing");
            p.processRWUnlock();
        }
        p.close();
        q.close();
    }, EINTR_SEM));
    // two instances and their target: the contents of the queues are only touched under the locks
    add(scn("C08.instances", 2, 3, [] {
        Duo d;
        Peer C;
        Counter go;
        C.start("C", nullptr, 8, 256, [&](Veigar& v) {
            go.wait(1);
            CallResult r = v.syncCall("B", TOUT, "f", 2);
            must_be(r, 1002, "C");
            go++;
        });
        window(true);
        go++;
        CallResult r = d.a.syncCall("B", TOUT, "f", 1);
        must_be(r, 1001, "A");
        go.wait(2);
        window(false);
        lock_is_free(CALLQ_B, "afterwards");
        lock_is_free(RESPQ_A, "afterwards");
        C.finish();
        d.end();
    }, 0, 40));
    // whatever went wrong with a call, the lock is a lock afterwards, and it is free
    static const char* const PATHS[] = {"lock timeout of the caller", "lock timeout of the receiver", "full queue, times out", "full queue, delivered late", "message too large", "shut down while waiting for room", "shut down while waiting for the lock", "lock held again while waiting for room",
        "response: shut down while waiting for room", "response: lock held again while waiting for room", "response: full queue, times out", "response larger than expected", "call larger than expected", "response too large"};
    // Senders wait for room, somebody takes the lock, makes room and keeps the lock: nothing enters the queue meanwhile.
    add(scn("C08.waiting_sender", 1, 2, [] {
        window(false);
        int resp = choose(2, "which queue");  // calls wait for a full call queue, or responses for a full response queue
        Duo d(resp ? 1 : 8, 256, resp ? 8 : 1, 256);
        Q s(resp ? RESPQ_A : CALLQ_B);
        vector<shared_ptr<AsyncCallResult>> ps;
        char b[256] = {1}, o[1024];
        int64_t w = 0;
        s.lock();
        VMC_CHECK(s.q.pushBack(b, 200), "push-failed", "a push into an empty queue failed");  // nobody is told about it
        s.unlock();
        Cb cb[2];
        static const int AT[] = {3, 12};
        static const uint32_t TM[] = {50, 3000};
        int at = AT[choose(2, "moment")];
        uint32_t t = TM[choose(2, "timeout")];
        window(true);
        for (int i = 0; i < 2; i++) d.a.asyncCall(cb[i].fn(), "B", t, "mark", i);
        sleep_ms(at);
        s.lock();
        bool got = s.q.popFront(o, sizeof o, w);
        VMC_CHECK(s.size() == 0, "not-exclusive", "%lld messages are left after the only one was popped", (long long)s.size());
        sleep_ms(200);
        VMC_CHECK(s.size() == 0, "not-exclusive", "something entered the queue while its lock was held by somebody else");
        s.unlock();
        window(false);
        settle(500);
        if (!resp && t > 1000) for (int i = 0; i < 2; i++) cb[i].once("call");
        (void)got;
        outcome(to_string(cb[0].ok.get() + cb[1].ok.get()));
        d.end();
    }));
    add(scn("C08.paths", 1, 2, [] {
        int path = choose(14, "path");
        bool full = path == 2 || path == 3 || path == 5 || path == 7, rfull = path >= 8 && path <= 10;
        Duo d(rfull ? 1 : path == 11 ? 400 : 8, 256, full ? 1 : path == 12 ? 400 : 8, 256);
        vector<shared_ptr<AsyncCallResult>> ps;
        if (full) {
            for (int i = 0; i < VT; i++) {
                ps.push_back(d.a.asyncCall("B", 60000, "slow", i));
                d.entered.wait(i + 1, 1000);
            }
            ps.push_back(d.a.asyncCall("B", 60000, "mark", 1));
            settle(50);
        }
        {
            Q q(CALLQ_B);
            window(true);
            if (path == 0 || path == 6) {
                q.lock();
                auto p = d.a.asyncCall("B", 200, "mark", 2);
                settle(path == 6 ? 10 : 35);
                if (path == 6) d.a.uninit();
                q.unlock();
            } else if (path == 1) {
                // the message is in the queue, then the lock is taken before the receiver gets it
                q.lock();
                q.q.notifyRead();
                settle(35);
                q.unlock();
                CallResult r = d.a.syncCall("B", 200, "mark", 2);
                must_be(r, 2, "after the lock timeout of the receiver");
            } else if (path == 2) {
                CallResult r = d.a.syncCall("B", 100, "mark", 2);
                must_fail(r, "full queue");
                settle(50);
            } else if (path == 3) {
                Cb cb;
                d.a.asyncCall(cb.fn(), "B", 500, "mark", 2);
                sleep_ms(12);
                d.gate++;
                cb.n.wait(1, 2000);
                cb.value(2, "delivered late");
            } else if (path == 4) {
                CallResult r = d.a.syncCall("B", 100, "len", string(4000, 'x'));
                must_fail(r, "too large");
            } else if (path == 5) {
                for (int i = 0; i < VT; i++) ps.push_back(d.a.asyncCall("B", 1000, "mark", 2));
                sleep_ms(choose(2, "moment") ? 3 : 6);
                d.a.uninit();
            } else if (path == 7) {
                ps.push_back(d.a.asyncCall("B", 200, "mark", 2));
                sleep_ms(4);
                q.lock();
                settle(70);
                q.unlock();
                settle(300);
            } else if (rfull) {
                Q s(RESPQ_A);
                char b[200] = {1};
                s.lock();
                VMC_CHECK(s.q.pushBack(b, 200), "push-failed", "a push into an empty queue failed");  // nobody is told about it
                s.unlock();
                ps.push_back(d.a.asyncCall("B", 1000, "mark", 2));
                sleep_ms(12);
                if (path == 8) d.B.finish();
                if (path == 9) {
                    s.lock();
                    settle(40);
                    window(false);
                    settle(VEIGAR_WRITE_RESPONSE_QUEUE_TIMEOUT + 100);
                    s.unlock();
                }
                settle(20);
                window(false);
                settle(VEIGAR_WRITE_RESPONSE_QUEUE_TIMEOUT + 100);
                lock_is_free(RESPQ_A, PATHS[path]);
                int64_t w = 0;
                char o[1024];
                s.lock();
                VMC_CHECK(s.q.popFront(o, sizeof o, w), "pop-failed", "the message is not there any more");
                s.unlock();
            } else if (path == 11 || path == 13) {
                CallResult r = d.a.syncCall("B", 400, "huge", path == 11 ? 70 : 3);
                if (path == 11) VMC_CHECK(r.isSuccess() && r.obj.get().as<string>() == string(70000, 'h'), "call-failed", "%s", r.errorMessage.c_str());
                else must_fail(r, PATHS[path]);
            } else if (path == 12) {
                CallResult r = d.a.syncCall("B", 400, "len", string(70000, 'x'));
                must_be(r, 70000, PATHS[path]);
            }
            window(false);
        }
        if (path == 8) {
            lock_is_free(RESPQ_A, PATHS[path]);
            d.a.uninit();
            return;
        }
        lock_is_free(CALLQ_B, PATHS[path]);
        lock_is_free(RESPQ_B, PATHS[path]);
        d.gate++;
        settle(300);
        lock_is_free(CALLQ_B, PATHS[path]);
        if (d.a.isInit()) {
            lock_is_free(RESPQ_A, PATHS[path]);
            CallResult r = d.a.syncCall("B", TOUT, "f", 5);
            must_be(r, 1005, PATHS[path]);
        }
        outcome(PATHS[path]);
        d.end();
    }));
    // the settings of an instance are the timeout of its acquisitions
    add(scn("C08.timeout_setting", 0, 1, [] {
        Duo d;
        static const int T[] = {1, 10, 100, 400};
        int t = T[choose(4, "timeout of the lock")], hold = T[choose(4, "held for")] + (choose(2, "a bit") ? 5 : -1);
        if (hold < 1) hold = 1;
        d.a.setTimeoutOfRWLock(t);
        CallResult r0 = d.a.syncCall("B", TOUT, "f", 1);
        must_be(r0, 1001, "before");
        int abs_diff = hold > t ? hold - t : t - hold;
        if (abs_diff < 1) {
            d.end();
            return;
        }
        Q q(CALLQ_B);
        q.lock();
        window(true);
        Cb cb;
        int64_t t0 = now_us(), at = 0;
        Counter done;
        d.a.asyncCall([&](const CallResult& r) { at = now_us(); cb.fn()(r); done++; }, "B", 2000, "mark", 1);
        sleep_ms(hold);
        q.unlock();
        VMC_CHECK(done.wait(1, 3000), "stranded", "a call was never completed");
        if (hold < t)
            cb.value(1, "a call that waited for the lock");
        else {
            cb.once("a call that waited for the lock");
            VMC_CHECK(cb.fail.get() == 1, "unexpected-success", "held for %d ms, timeout %d ms: the call succeeded", hold, t);
            VMC_CHECK(at - t0 >= t * 1000, "gave-up", "held for %d ms, timeout %d ms: gave up after %.3f ms", hold, t, (at - t0) / 1e3);
        }
        window(false);
        d.end();
    }));
    timing();
}

int main(int argc, char** argv) {
    c08();
    return main_run(argc, argv, "stateless model checking of the implementation");
}
