#include "duo.h"

static void c15() {
    // every pair of operations by two threads on one instance that serves calls at the same time
    static const int NOP = 9;
    auto op = [](Veigar& a, int k, int who) {
        char name[8] = {'g', (char)('0' + who), 0};
        switch (k) {
            case 0: { CallResult r = a.syncCall("B", TOUT, "f", 1); must_be(r, 1001, "sync"); break; }
            case 1: {
                auto p = a.asyncCall("B", TOUT, "f", 2);
                CallResult r = await(p, 10000, "promise");
                must_be(r, 1002, "promise");
                a.releaseCall(p->first);
                break;
            }
            case 2: {
                Counter n;
                a.asyncCall([&](const CallResult&) { n++; }, "B", TOUT, "f", 3);
                VMC_CHECK(n.wait(1, 10000), "never-completed", "callback");
                break;
            }
            case 3: { auto p = a.asyncCall("B", TOUT, "f", 4); a.releaseCall(p->first); break; }
            case 4: a.bind(name, [](int x) { return x; }); break;
            case 5: a.bind(name, [](int x) { return x; }); a.unbind(name); break;
            case 6: a.bindNames(); break;
            case 7: a.setTimeoutOfRWLock(30); a.timeoutOfRWLock(); a.channelName(); a.isInit(); a.msgQueueCapacity(); a.expectedMsgMaxSize(); break;
            case 8: { CallResult r = a.syncCall("A", TOUT, "mine", 8); must_be(r, 9, "self"); break; }
        }
    };
    add(scn("C15.pairs", 1, 2, [op] {
        Duo d;
        d.a.bind("mine", [](int x) { return x + 1; });
        Counter go;
        Peer C;
        C.start("C", nullptr, 8, 256, [&](Veigar& v) {
            go.wait(1);
            CallResult r = v.syncCall("A", TOUT, "mine", 5);
            must_be(r, 6, "C->A");
            go++;
        });
        int k1 = choose(NOP, "first"), k2 = choose(NOP, "second");
        window(true);
        go++;
        thread t1([&] { op(d.a, k1, 1); }), t2([&] { op(d.a, k2, 2); });
        t1.join();
        t2.join();
        go.wait(2);
        window(false);
        C.finish();
        d.end();
    }, 0, 60, 600));
    add(scn("C15.triples", 0, 1, [op] {
        Duo d;
        d.a.bind("mine", [](int x) { return x + 1; });
        int k1 = choose(NOP, "first"), k2 = choose(NOP, "second"), k3 = choose(NOP, "third");
        window(true);
        thread t1([&] { op(d.a, k1, 1); }), t2([&] { op(d.a, k2, 2); }), t3([&] { op(d.a, k3, 3); });
        CallResult r = d.a.syncCall("A", TOUT, "mine", 5);
        must_be(r, 6, "self");
        t1.join();
        t2.join();
        t3.join();
        d.end();
    }, 0, 60, 600));
    // the first contact with a target from several threads, and errors on the sending side
    add(scn("C15.first_contact", 1, 2, [] {
        Duo d;
        window(true);
        Cb c1, c2;
        thread t1([&] { d.a.asyncCall(c1.fn(), "B", TOUT, "f", 1); }), t2([&] { d.a.asyncCall(c2.fn(), "nobody", TOUT, "f", 1); });
        CallResult r = d.a.syncCall("B", TOUT, "f", 4);
        must_be(r, 1004, "sync");
        t1.join();
        t2.join();
        c1.n.wait(1, TOUT);
        c2.n.wait(1, TOUT);
        d.end();
    }, 0));
    add(scn("C15.any_time", 1, 2, [] {
        Duo d;
        window(true);
        thread t1([&] { CallResult r = d.a.syncCall("B", 200, "f", 1); }), t2([&] {
            auto p = d.a.asyncCall("B", 200, "f", 1);
            p->second.wait_for(chrono::milliseconds(100));
            d.a.releaseCall(p->first);
        });
        t1.join();
        t2.join();
        settle(300);
        d.end();
    }, EARLY_TIMER | EINTR_SEM));
    add(scn("C15.lifecycle", 1, 2, [] {
        window(false);
        Veigar a;
        a.bind("mine", [](int x) { return x + 1; });
        window(true);
        VMC_CHECK(a.init("A", 8, 256), "init-failed", "A");
        CallResult r = a.syncCall("A", TOUT, "mine", 5);
        must_be(r, 6, "self");
        a.uninit();
        a.bind("mine", [](int x) { return x + 1; });
        VMC_CHECK(a.init("A2", 8, 256), "init-failed", "A");
        CallResult r2 = a.syncCall("A2", TOUT, "mine", 7);
        must_be(r2, 8, "self");
        a.uninit();
    }, 0));
}

int main(int argc, char** argv) {
    c15();
    return main_run(argc, argv, "stateless model checking of the implementation");
}
