// The life of a queue, seen by processes that open it at any moment.
#pragma once
#include "duo.h"

// `lives` times created, used and closed by its owner, while `openers` processes open and use it.  Names and locks
// have to be right at every moment that counts.
static void queue_lives(int lives, int openers, int tries, bool crash_first, bool same_settings) {
    window(false);
    static const char NM[] = "T_x";
    if (crash_first) {
        int pid = start_process([] {
            veigar::MessageQueue q(3, 40);
            VMC_CHECK(q.create(NM), "queue-create", "first");
            q.processRWLock(10);
            sleep_ms(10000000);
        });
        settle(1);
        kill_now(pid);
    }
    Counter pushed[4], ended, created;
    vector<int> ps;
    bool stay = choose(2, "stays until the others are done");
    window(true);
    for (int o = 0; o < openers; o++)
        ps.push_back(start_process([&, o] {
            for (int i = 0; i < tries; i++) {
                veigar::MessageQueue q(same_settings ? 4 : 9, same_settings ? 40 : 7);
                if (q.open(NM)) {
                    int c = created.get();
                    if (q.processRWLock(20)) {
                        bool w = false;
                        char m[8] = {'m', 's', 'g', (char)('0' + o), (char)('0' + i)};
                        if (!q.isRemoved() && q.checkSpaceSufficient(8, w)) {
                            VMC_CHECK(q.pushBack(m, 8), "push", "a push into a queue with enough room was refused");
                            q.notifyRead();
                        }
                        q.processRWUnlock();
                    } else
                        VMC_CHECK(c == 0 || q.isRemoved(), "lock-stuck", "the lock of a queue that nobody holds for long is not free");
                }
                q.close();
            }
            ended++;
        }));
    for (int l = 0; l < lives; l++) {
        veigar::MessageQueue q(4, 40);
        VMC_CHECK(q.create(NM), "queue-create", "life %d of the queue", l);
        VMC_CHECK(q.processRWLock(20), "lock-stuck", "life %d: the lock of a new queue can not be acquired", l);
        int64_t n = q.msgNumber();
        VMC_CHECK(n >= 0 && n <= openers * tries, "msg-number", "%lld messages in a new queue", (long long)n);
        char buf[200];
        int64_t w = 0;
        while (q.popFront(buf, sizeof buf, w)) VMC_CHECK(w == 8 && !memcmp(buf, "msg", 3), "pop-content", "a foreign message in a new queue");
        bool waitable = false;
        VMC_CHECK(q.checkSpaceSufficient(160, waitable), "limit", "a new queue has no room");
        q.processRWUnlock();
        if (l == lives - 1 && stay) {
            created++;
            ended.wait(openers);
            window(false);
            veigar::MessageQueue o(1, 1);
            VMC_CHECK(o.open(NM), "open-failed", "a queue that exists can not be opened");
            VMC_CHECK(o.processRWLock(10), "lock-stuck", "the lock is not free");
            VMC_CHECK(!q.processRWLock(3), "lock-twice", "the lock can be taken twice");
            n = o.msgNumber();
            VMC_CHECK(n == q.msgNumber(), "msg-number", "two handles disagree");
            // every message is announced
            for (int i = 0; i < n; i++) VMC_CHECK(q.waitForRead(3), "not-announced", "%d of %d messages are announced", i, (int)n);
            o.processRWUnlock();
            o.close();
        }
        q.close();
    }
    for (int p : ps) join_process(p);
    window(false);
    VMC_CHECK(sem_names() == 0 && shm_names() == 0, "residue", "left: %s", names().c_str());
    VMC_CHECK(open_fds() == 0 && live_views() == 0 && open_sems() == 0, "residue", "%d fds, %d mappings, %d semaphores are left open", open_fds(), live_views(), open_sems());
}
