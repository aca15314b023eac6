#include "duo.h"

static void c09() {
    // Somebody holds the lock of the call queue for a while, at any moment: what was delivered is served.
    static const char* const LK[] = {CALLQ_B, RESPQ_A};
    for (int which = 0; which < 2; which++)
        add(scn(which ? "C09.response_lock_contended" : "C09.call_lock_contended", 1, 2, [which] {
            Duo d;
            CallResult r0 = d.a.syncCall("B", TOUT, "f", 1);
            must_be(r0, 1001, "before");
            static const int HOLD[] = {20, 45, 100};
            int hold = HOLD[choose(3, "hold time")];
            int at = choose(3, "moment");
            window(true);
            Counter stop;
            thread h([&] {
                Q s(LK[which]);
                if (at == 1) sleep_ms(0);
                s.lock();
                sleep_ms(hold);
                s.unlock();
            });
            Cb cb;
            d.a.asyncCall(cb.fn(), "B", 1000, "mark", 1);
            h.join();
            bool fin = cb.n.wait(1, 800);
            window(false);
            if (which == 0) {
                VMC_CHECK(fin, "stranded", "a call was neither served nor reported failed (ran %d times)", d.arg[1].get());
                VMC_CHECK(cb.ok.get() == d.arg[1].get(), "stranded", "served %d times, reported %d", d.arg[1].get(), cb.ok.get());
            } else
                // the sender of the response gives up after the lock timeout: then the response never entered the queue
                VMC_CHECK(fin || hold > 30, "stranded", "a response was not picked up");
            outcome(fin ? cb.ok.get() ? "served" : "refused" : "response not sent");
            settle(300);
            nothing_queued(CALLQ_B, "calls");
            nothing_queued(RESPQ_A, "responses");
            d.end();
        }));
    // Timed waits may end early, waits may be interrupted: whatever reached a queue is served.
    add(scn("C09.timers", 2, 3, [] {
        Duo d;
        window(true);
        Cb cb, cb2;
        d.a.asyncCall(cb.fn(), "B", 3000, "mark", 1);
        d.a.asyncCall(cb2.fn(), "B", 3000, "mark", 2);
        settle(50);
        window(false);
        settle(1000);
        nothing_queued(CALLQ_B, "calls");
        nothing_queued(RESPQ_A, "responses");
        VMC_CHECK(cb.n.get() || d.arg[1].get(), "stranded", "a call was neither sent nor reported");
        VMC_CHECK(cb2.n.get() || d.arg[2].get(), "stranded", "a call was neither sent nor reported");
        outcome(to_string(cb.ok.get() + cb2.ok.get()));
        d.end();
    }, NO_RACES | EARLY_TIMER | EINTR_SEM | SPURIOUS, 45));
    // Without lock timeouts everything is served and answered.
    add(scn("C09.all_served", 2, 3, [] {
        Duo d;
        window(true);
        Cb cb[3];
        for (int i = 0; i < 3; i++) d.a.asyncCall(cb[i].fn(), "B", 3000, "mark", i);
        for (int i = 0; i < 3; i++) VMC_CHECK(cb[i].n.wait(1, 29), "stranded", "call %d was not served by idle threads", i);
        window(false);
        for (int i = 0; i < 3; i++) cb[i].value(i, "call");
        d.end();
    }, NO_RACES | EINTR_SEM | SPURIOUS));
    // Calls handed over while the sending side goes through its periodic time-out.
    add(scn("C09.send_side", 2, 3, [] {
        Duo d;
        sleep_ms(choose(2, "phase") ? 30 : 29);
        window(true);
        Cb cb[3];
        thread t([&] { d.a.asyncCall(cb[0].fn(), "B", 3000, "mark", 0); });
        d.a.asyncCall(cb[1].fn(), "B", 3000, "mark", 1);
        sleep_ms(1);
        d.a.asyncCall(cb[2].fn(), "nobody", 3000, "mark", 2);
        t.join();
        for (int i = 0; i < 3; i++) VMC_CHECK(cb[i].n.wait(1, 65), "stranded", "call %d was not picked up by the sending side", i);
        window(false);
        cb[0].value(0, "call");
        cb[1].value(1, "call");
        d.end();
    }));
    // Tokens without messages do not confuse the readers; extra tokens are harmless.
    add(scn("C09.extra_tokens", 1, 2, [] {
        Duo d;
        Q s(CALLQ_B), q(RESPQ_A);
        window(true);
        s.q.notifyRead();
        q.q.notifyRead();
        CallResult r = d.a.syncCall("B", TOUT, "f", 1);
        must_be(r, 1001, "call");
        s.q.notifyRead();
        s.q.notifyRead();
        q.q.notifyRead();
        CallResult r2 = d.a.syncCall("B", TOUT, "f", 2);
        must_be(r2, 1002, "call");
        window(false);
        d.end();
    }));
}

int main(int argc, char** argv) {
    c09();
    return main_run(argc, argv, "stateless model checking of the implementation");
}
