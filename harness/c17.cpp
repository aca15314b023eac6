#include "qlife.h"

// What a process that did not shut down may have left behind under the names of channel ch.
static void leftovers(const string& ch, int kind) {
    if (kind & 1)
        for (const char* sfx : {VEIGAR_CALL_QUEUE_NAME_SUFFIX, VEIGAR_RESPONSE_QUEUE_NAME_SUFFIX}) {
            // a real queue of an earlier life, locked, with messages and notifications
            int pid = start_process([ch, sfx] {
                veigar::MessageQueue q(5, 100);
                VMC_CHECK(q.create(ch + sfx), "queue-create", "leftover");
                q.processRWLock(100);
                q.pushBack("left over", 9);
                q.pushBack("left over", 9);
                q.notifyRead();
                sleep_ms(1000000);
            });
            settle(1);
            kill_now(pid);
        }
    if (kind & 2)
        for (const char* sfx : {VEIGAR_CALL_QUEUE_NAME_SUFFIX, VEIGAR_RESPONSE_QUEUE_NAME_SUFFIX}) {
            int pid = start_process([ch, sfx] {
                veigar::MessageQueue q(3, 50);  // died before it was complete
                veigar::SharedMemory m(ch + sfx + "_shm", 64);
                VMC_CHECK(m.create(), "queue-create", "leftover");
                sleep_ms(1000000);
            });
            settle(1);
            kill_now(pid);
        }
}

// one or two instances call T while it starts; all is well once its init has returned
static void startup(int callers, int per_caller, bool left, bool calls_out, int style_n) {
    window(false);
    int kind = left ? choose(4, "left behind") : 0;
    if (kind) leftovers("T", kind);
    Counter runs, served, tup, bye, tdown, tself;
    Veigar a;
    VMC_CHECK(a.init("A", 8, 256), "init-failed", "A");
    a.bind("af", [](int x) { return x + 7; });
    Peer C;
    int style = choose(style_n, "style");
    Counter done;
    auto contact = [&](Veigar& v, int id) {
        for (int i = 0; i < per_caller; i++) {
            int before = tup.get();
            if (style == 0) {
                CallResult r = v.syncCall("T", 90, "f", id + i);
                if (r.isSuccess()) {
                    must_be(r, id + i + 1000, "a call during start-up");
                    served++;
                } else {
                    VMC_CHECK(!r.errorMessage.empty(), "no-message", "a failure without a message");
                    VMC_CHECK(!before, "call-failed", "a call issued after the initialisation failed: %s", r.errorMessage.c_str());
                }
            } else {
                Cb c;
                v.asyncCall(c.fn(), "T", 90, "f", id + i);
                c.n.wait(1, 400);  // it may have gone to a queue that is not read any more
                if (c.ok.get()) {
                    c.value(id + i + 1000, "a call during start-up");
                    served++;
                } else
                    VMC_CHECK(!before, "call-failed", "a call issued after the initialisation failed");
                VMC_CHECK(c.n.get() <= 1, "callback-count", "%d", c.n.get());
            }
        }
    };
    if (callers > 1)
        C.start("C", nullptr, 8, 256, [&](Veigar& v) {
            tdown.wait(1);
            contact(v, 100);
            done++;
        });
    window(true);
    int pid = start_process([&] {
        Veigar t;
        t.bind("f", [&](int x) { runs++; return x + 1000; });
        tdown++;
        VMC_CHECK(t.init("T", 8, 256), "init-failed", "init of T failed while others were calling it");
        tup++;
        if (calls_out) {
            CallResult r = t.syncCall("A", TOUT, "af", 5);
            must_be(r, 12, "a call of the new instance");
        }
        CallResult r = t.syncCall("T", TOUT, "f", 50);
        must_be(r, 1050, "a call of the new instance to itself");
        tself++;
        bye.wait(1);
        t.uninit();
    });
    tdown.wait(1);
    contact(a, 10);
    tup.wait(1);
    if (callers > 1) done.wait(1);
    CallResult r = a.syncCall("T", TOUT, "f", 60);
    must_be(r, 1060, "a call after the initialisation");
    tself.wait(1);
    window(false);
    int extra = runs.get() - 2 - served.get();
    VMC_CHECK(extra >= 0 && extra <= callers * per_caller - served.get(), "run-count", "%d calls served, %d runs", served.get(), runs.get() - 2);
    for (const char* q : {"T" VEIGAR_CALL_QUEUE_NAME_SUFFIX, "T" VEIGAR_RESPONSE_QUEUE_NAME_SUFFIX}) {
        settle(100);
        lock_is_free(q, "after the start");
        nothing_queued(q, "after the start");
    }
    CallResult r2 = a.syncCall("T", TOUT, "f", 61);
    must_be(r2, 1061, "a second call after the initialisation");
    bye++;
    join_process(pid);
    if (callers > 1) C.finish();
    a.uninit();
    VMC_CHECK(sem_names() == 0 && shm_names() == 0, "residue", "left: %s", names().c_str());
}

static void c17() {
    if (VT == 1) {  // the queue alone: deeper
        add(scn("C17.queue_start", 7, 9, [] { queue_lives(1, 1, 2, choose(2, "leftovers"), choose(2, "settings")); }, 0, 20, 300));
        add(scn("C17.queue_start_two", 5, 7, [] { queue_lives(1, 2, 1, choose(2, "leftovers"), true); }, 0, 20, 300));
    }
    add(scn("C17.first_contact", VT > 1 ? 1 : 2, VT > 1 ? 2 : 3, [] { startup(1, 2, false, false, 2); }, 0, 40, 400));
    add(scn("C17.leftovers", 1, 2, [] { startup(1, 1, true, true, 1); }, 0, 30, 300, 30000, "after a process that died without shutting down"));
    add(scn("C17.two_callers", 1, 2, [] { startup(2, 1, false, true, 1); }, 0, 30, 400));
    add(scn("C17.signals", 1, 2, [] { startup(1, 2, false, false, 1); }, SPURIOUS | EINTR_SEM, 30, 300));
    // two instances that start at the same time and call each other at once
    add(scn("C17.both_start", VT > 1 ? 1 : 2, VT > 1 ? 2 : 3, [] {
        window(false);
        Counter ra, rb, da, db;
        auto run = [](const char* me, const char* peer, Counter& ready, Counter& other, Counter& done, Counter& odone) {
            Veigar v;
            v.bind("f", [](int x) { return x + 1; });
            VMC_CHECK(v.init(me, 4, 128), "init-failed", "%s", me);
            ready++;
            int known = other.get();
            CallResult r = v.syncCall(peer, 90, "f", 1);
            if (r.isSuccess()) must_be(r, 2, "early call");
            else VMC_CHECK(!known, "call-failed", "a call after both were initialised failed: %s", r.errorMessage.c_str());
            other.wait(1);
            CallResult r2 = v.syncCall(peer, TOUT, "f", 2);
            must_be(r2, 3, "call after both were initialised");
            done++;
            odone.wait(1);
            v.uninit();
        };
        window(true);
        int p = start_process([&] { run("B", "A", rb, ra, db, da); });
        run("A", "B", ra, rb, da, db);
        join_process(p);
        window(false);
        VMC_CHECK(sem_names() == 0 && shm_names() == 0, "residue", "left: %s", names().c_str());
    }, NO_RACES));
    // repeated attempts by several threads while the target comes, goes and comes again
    add(scn("C17.threads", 1, 2, [] {
        window(false);
        Veigar a;
        VMC_CHECK(a.init("A", 8, 256), "init-failed", "A");
        Counter up, bye, n;
        window(true);
        int pid = start_process([&] {
            Veigar t;
            t.bind("f", [](int x) { return x + 1000; });
            VMC_CHECK(t.init("T", 8, 256), "init-failed", "T");
            up++;
            bye.wait(1);
            t.uninit();
        });
        vector<thread> ts;
        for (int i = 0; i < 2; i++)
            ts.emplace_back([&, i] {
                CallResult r = a.syncCall("T", 90, "f", i);
                if (r.isSuccess()) must_be(r, i + 1000, "a call during start-up");
                up.wait(1);
                CallResult r2 = a.syncCall("T", TOUT, "f", i + 10);
                must_be(r2, i + 1010, "a call after the start");
            });
        for (auto& t : ts) t.join();
        window(false);
        bye++;
        join_process(pid);
        a.uninit();
        VMC_CHECK(sem_names() == 0 && shm_names() == 0, "residue", "left: %s", names().c_str());
    }, 0));
}
int main(int argc, char** argv) {
    c17();
    return main_run(argc, argv, "stateless model checking of the start-up");
}
