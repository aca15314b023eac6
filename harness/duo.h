// Two instances in two processes, and helpers for calls.
#pragma once
#include "rpc.h"
#include "message_queue.h"
using namespace std;

static const int TOUT = 5000;

struct Duo {  // instance A in this process, B in another one
    Counter runs;       // functions of B that ran
    Counter gate;       // B's "slow" waits for it
    Counter entered;    // B's "slow" was entered
    Counter arg[64];    // arg[i]: how often "mark"(i) ran
    Peer B;
    Veigar a;
    Duo(uint32_t cap = 8, uint32_t msz = 256, uint32_t bcap = 0, uint32_t bmsz = 0) {
        window(false);
        Duo* d = this;
        B.start(
            "B", [d](Veigar& v) { d->bind(v); }, bcap ? bcap : cap, bmsz ? bmsz : msz);
        VMC_CHECK(a.init("A", cap, msz), "init-failed", "init of A failed");
    }
    void bind(Veigar& v) {
        Duo* d = this;
        v.bind("add", [d](int x, int y) { d->runs++; return x * 100 + y; });
        v.bind("sub", [d](int x, int y) { d->runs++; return x * 100 - y; });
        v.bind("f", [d](int x) { d->runs++; return x + 1000; });
        v.bind("f1", [d](int x) { d->runs++; return x + 2000; });
        v.bind("slow", [d](int x) { d->runs++; d->entered++; d->gate.wait(1); return x + 3000; });
        v.bind("mark", [d](int i) { d->runs++; d->arg[i & 63]++; return i; });
        v.bind("len", [d](string s) { d->runs++; return (int)s.size(); });
        v.bind("throws", [d](int) -> int { d->runs++; throw runtime_error("thrown"); });
        v.bind("long", [d](int n) { d->runs++; return string(3000, 'a' + n); });
        v.bind("huge", [d](int n) { d->runs++; return string((size_t)n * 1000, 'h'); });
        v.bind("nop", [d]() { d->runs++; });
        v.bind("nap", [d](int ms) { d->runs++; sleep_ms(ms); return ms; });
    }
    void end() {
        window(false);
        gate++;
        a.uninit();
        B.finish();
    }
};

// a callback that counts and remembers what it got
struct Cb {
    Counter n, ok, fail, val;
    veigar::ResultCallback fn() {
        Cb* c = this;
        return [c](const CallResult& r) {
            c->n++;
            if (r.isSuccess()) {
                c->ok++;
                try {
                    c->val.add(r.obj.get().as<int>());
                } catch (...) {
                    c->val.add(77777);
                }
            } else {
                c->fail++;
                VMC_CHECK(!r.errorMessage.empty(), "no-message", "a failure without a message");
            }
        };
    }
    void once(const char* who) { VMC_CHECK(n.get() == 1, "callback-count", "%s: the callback ran %d times", who, n.get()); }
    void value(int v, const char* who) {
        once(who);
        VMC_CHECK(ok.get() == 1, "call-failed", "%s: the call failed", who);
        VMC_CHECK(val.get() == v, "wrong-result", "%s: the result is %d instead of %d", who, val.get(), v);
    }
};

static inline CallResult await(shared_ptr<AsyncCallResult>& p, int64_t ms, const char* who) {
    VMC_CHECK(p && p->second.valid(), "no-future", "%s: no future", who);
    VMC_CHECK(p->second.wait_for(chrono::milliseconds(ms)) == future_status::ready, "never-completed", "%s: the call was not completed within %lld ms", who, (long long)ms);
    try {
        return p->second.get();
    } catch (std::exception& e) {
        vmc::fail("future-exception", "%s: the future threw %s", who, e.what());
    }
}

struct Live {  // everything that runs in an instance after its shutdown is a failure
    Counter down;
    void check(const char* what) { VMC_CHECK(down.get() == 0, "runs-after-shutdown", "%s runs after the instance was shut down", what); }
};

// Another handle of a queue of an instance.
struct Q {
    veigar::MessageQueue q{64, 4096};
    bool ok;
    explicit Q(const string& path) { ok = q.open(path); }
    static Q call(const string& ch) { return Q(ch + VEIGAR_CALL_QUEUE_NAME_SUFFIX); }
    static Q resp(const string& ch) { return Q(ch + VEIGAR_RESPONSE_QUEUE_NAME_SUFFIX); }
    int64_t size() { return ok ? q.msgNumber() : -1; }
    void lock() { VMC_CHECK(ok && q.processRWLock(60000), "lock-stuck", "the lock of a queue can not be acquired"); }
    void unlock() { q.processRWUnlock(); }
    ~Q() { q.close(); }
};
static inline void lock_is_free(const string& path, const char* who) {
    Q q(path);
    VMC_CHECK(q.ok, "no-queue", "%s: the queue %s can not be opened", who, path.c_str());
    VMC_CHECK(q.q.processRWLock(40), "lock-stuck", "%s: the lock of queue %s is not free", who, path.c_str());
    bool twice = q.q.processRWLock(5);
    VMC_CHECK(!twice, "lock-twice", "%s: the lock of queue %s can be taken twice", who, path.c_str());
    q.q.processRWUnlock();
}
static inline void nothing_queued(const string& path, const char* who) {
    Q q(path);
    VMC_CHECK(q.ok, "no-queue", "%s: the queue %s can not be opened", who, path.c_str());
    VMC_CHECK(q.q.processRWLock(40), "lock-stuck", "%s: the lock of queue %s is not free", who, path.c_str());
    int64_t n = q.size();
    q.q.processRWUnlock();
    VMC_CHECK(n == 0, "stranded", "%s: %lld messages left in queue %s", who, (long long)n, path.c_str());
}
static const char CALLQ_B[] = "B" VEIGAR_CALL_QUEUE_NAME_SUFFIX;
static const char RESPQ_B[] = "B" VEIGAR_RESPONSE_QUEUE_NAME_SUFFIX;
static const char CALLQ_A[] = "A" VEIGAR_CALL_QUEUE_NAME_SUFFIX;
static const char RESPQ_A[] = "A" VEIGAR_RESPONSE_QUEUE_NAME_SUFFIX;
