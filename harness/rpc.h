// Helpers for scenarios with whole Veigar instances.
#pragma once
#include "vmc.h"
#include <functional>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include <map>
#include <set>
#include "veigar/veigar.h"

using namespace vmc;
using veigar::AsyncCallResult;
using veigar::CallResult;
using veigar::ErrorCode;
using veigar::Veigar;

extern int VT;  // threads per pool, see check.py

inline Scenario scn(const std::string& name, int quick_dev, int thorough_dev, std::function<void()> body, unsigned flags = NO_RACES,
                    double quick_s = 20, double thorough_s = 240, int64_t horizon_ms = 30000, const char* note = "") {
    Scenario s;
    s.name = name;
    s.body = std::move(body);
    s.quick_dev = quick_dev;
    s.thorough_dev = thorough_dev;
    s.quick_s = quick_s;
    s.thorough_s = thorough_s;
    s.flags = flags;
    s.horizon_ms = horizon_ms;
    s.note = note;
    return s;
}

// An instance in a process of its own.
struct Peer {
    Counter up, stop, down, failed;
    int pid = -1;
    // setup runs before init(), extra after it (in the process of the instance)
    void start(const std::string& channel, std::function<void(Veigar&)> setup = nullptr, uint32_t cap = 8, uint32_t msz = 256,
               std::function<void(Veigar&)> extra = nullptr, bool wait = true) {
        Peer* me = this;
        pid = start_process([me, channel, setup, cap, msz, extra] {
            Veigar v;
            if (setup) setup(v);
            if (!v.init(channel, cap, msz)) me->failed++;
            me->up++;
            if (extra) extra(v);
            me->stop.wait(1);
            v.uninit();
            me->down++;
        });
        if (wait) {
            up.wait(1);
            VMC_CHECK(failed.get() == 0, "init-failed", "init of %s failed", channel.c_str());
        }
    }
    void finish() {
        stop++;
        join_process(pid);
    }
};

inline const char* ecs(const CallResult& r) { return r.isSuccess() ? "ok" : r.errCode == ErrorCode::TIMEOUT ? "timeout" : "failed"; }

inline int num(CallResult& r) {
    int v = -999999;
    if (!r.convertObject(v)) return -999998;
    return v;
}
// what a finished call may look like: success with exactly this value
inline void must_be(CallResult& r, int v, const char* who) {
    VMC_CHECK(r.isSuccess(), "call-failed", "%s: the call failed: %s (%s)", who, r.errorMessage.c_str(), ecs(r));
    int g = num(r);
    VMC_CHECK(g == v, "wrong-result", "%s: the result is %d instead of %d", who, g, v);
}
inline void must_fail(const CallResult& r, const char* who) {
    VMC_CHECK(!r.isSuccess(), "unexpected-success", "%s: the call succeeded", who);
    VMC_CHECK(!r.errorMessage.empty(), "no-message", "%s: a failure without a message", who);
}
