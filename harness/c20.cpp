#include "duo.h"

// one call of each style that fails
template <class... A>
static void fails(Duo& d, int i, const char* f, A... a) {
    CallResult r = d.a.syncCall("B", 100, f, a...);
    must_fail(r, f);
    Cb cb;
    d.a.asyncCall(cb.fn(), "B", 100, f, a...);
    cb.n.wait(1, TOUT);
    cb.once(f);
    auto p = d.a.asyncCall("B", 100, f, a...);
    if (i % 2) {
        CallResult q = await(p, TOUT, f);
        must_fail(q, f);
    }
    d.a.releaseCall(p->first);
    sleep_ms(200);
}

static void c20() {
    // heap use after k calls does not depend on k
    for (int style = 0; style < 13; style++)
        add(scn("C20.bounded_memory_" + to_string(style), 1, 2, [style] {
            Duo d;
            auto once = [&](int i) {
                switch (style) {
                    case 0: { CallResult r = d.a.syncCall("B", TOUT, "f", i); must_be(r, 1000 + i, "sync"); break; }
                    case 1: {
                        auto p = d.a.asyncCall("B", TOUT, "f", i);
                        CallResult r = await(p, TOUT, "promise");
                        must_be(r, 1000 + i, "promise");
                        break;  // completed: nothing may be kept even without a release
                    }
                    case 2: {
                        Cb cb;
                        d.a.asyncCall(cb.fn(), "B", TOUT, "f", i);
                        cb.n.wait(1, TOUT);
                        cb.value(1000 + i, "callback");
                        break;
                    }
                    case 3: {  // released at once
                        auto p = d.a.asyncCall("B", TOUT, "f", i);
                        d.a.releaseCall(p->first);
                        break;
                    }
                    case 4: {  // target does not exist
                        Cb cb;
                        d.a.asyncCall(cb.fn(), "nobody", 100, "f", i);
                        cb.n.wait(1, TOUT);
                        cb.once("callback");
                        auto p = d.a.asyncCall("nobody", 100, "f", i);
                        CallResult r = await(p, TOUT, "promise");
                        must_fail(r, "promise");
                        break;
                    }
                    case 5: {  // never answered in time
                        CallResult r = d.a.syncCall("B", 60, "slow", i);
                        must_fail(r, "slow");
                        auto p = d.a.asyncCall("B", 60, "slow", i);
                        sleep_ms(70);
                        d.a.releaseCall(p->first);
                        break;
                    }
                    case 6: fails(d, i, "unknown", i); break;
                    case 7: fails(d, i, "throws", i); break;
                    case 8: fails(d, i, "f", string("not a number")); break;
                    case 9: fails(d, i, "f", i, i, i); break;
                    case 10: fails(d, i, "len", string(5000, 'x')); break;  // does not fit
                    case 11: {  // the result does not fit
                        CallResult r = d.a.syncCall("B", 100, "long", i);
                        must_fail(r, "long");
                        auto p = d.a.asyncCall("B", 100, "long", i);
                        sleep_ms(150);
                        d.a.releaseCall(p->first);
                        break;
                    }
                    case 12: {                                               // of itself, and without a result
                        d.a.bind("own", [](int x) { return x; });
                        CallResult r = d.a.syncCall("A", TOUT, "own", i);
                        must_be(r, i, "own");
                        d.a.unbind("own");
                        CallResult r2 = d.a.syncCall("B", TOUT, "nop");
                        VMC_CHECK(r2.isSuccess(), "call-failed", "nop");
                        break;
                    }
                }
            };
            once(1);
            once(2);
            settle(100);
            uint64_t n1 = live_heap_blocks();
            window(true);
            for (int i = 3; i < 6; i++) once(i);
            settle(100);
            window(false);
            uint64_t n2 = live_heap_blocks();
            // containers of the queues may hold a spare block or two; a kept call costs several blocks each
            if (style != 5) VMC_CHECK(n2 <= n1 + 2, "memory-kept", "3 calls more keep %lld heap blocks more%s", (long long)(n2 - n1), "");
            else {
                d.gate++;
                settle(300);
                uint64_t n3 = live_heap_blocks();
                VMC_CHECK(n3 <= n1 + 2, "memory-kept", "calls that timed out keep %lld heap blocks", (long long)(n3 - n1));
            }
            d.end();
        }));
    // a response that comes after its call was released or timed out
    add(scn("C20.late_response", 2, 3, [] {
        Duo d;
        int style = choose(3, "style");
        window(true);
        shared_ptr<AsyncCallResult> p;
        if (style == 0) {
            CallResult r = d.a.syncCall("B", 100, "slow", 1);
            must_fail(r, "slow");
        } else if (style == 1) {
            p = d.a.asyncCall("B", 100, "slow", 1);
            d.entered.wait(1, 500);
            d.a.releaseCall(p->first);
        } else {
            p = d.a.asyncCall("B", 100, "slow", 1);
            d.a.releaseCall(p->first);
            d.a.releaseCall(p->first);
        }
        thread t([&] { d.gate++; });
        CallResult r2 = d.a.syncCall("B", TOUT, "f", 7);
        must_be(r2, 1007, "next call");
        t.join();
        settle(100);
        CallResult r3 = d.a.syncCall("B", TOUT, "f", 8);
        must_be(r3, 1008, "next call");
        d.end();
    }, NO_RACES, 40));
    add(scn("C20.release_race", 2, 3, [] {
        Duo d;
        window(true);
        auto p = d.a.asyncCall("B", TOUT, "f", 1);
        string id = p->first;
        thread t1([&] { d.a.releaseCall(id); }), t2([&] { d.a.releaseCall(id); d.a.releaseCall(""); d.a.releaseCall("x"); d.a.releaseCall(id + "0"); });
        t1.join();
        t2.join();
        p.reset();
        Cb cb;
        d.a.asyncCall(cb.fn(), "B", TOUT, "f", 2);
        cb.n.wait(1, TOUT);
        cb.value(1002, "callback");
        settle(100);
        VMC_CHECK(d.runs.get() == 2, "run-count", "%d", d.runs.get());
        d.end();
    }));
    // releasing one call does not touch another
    add(scn("C20.release_other", 1, 2, [] {
        Duo d;
        window(true);
        auto p = d.a.asyncCall("B", TOUT, "slow", 1);
        auto q = d.a.asyncCall("B", TOUT, "f", 2);
        d.a.releaseCall(p->first);
        d.gate++;
        CallResult r = await(q, TOUT, "other call");
        must_be(r, 1002, "other call");
        d.a.releaseCall(q->first);
        d.a.releaseCall(q->first);
        d.end();
    }));
}

int main(int argc, char** argv) {
    c20();
    return main_run(argc, argv, "stateless model checking of the implementation");
}
