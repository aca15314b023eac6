#include "vmc.h"
#include "event.h"
#include <algorithm>
#include <thread>
#include <vector>
#include <string>
using namespace vmc;
using veigar::Event;

// Programs of a few threads on one event, all interleavings, judged by a model with two flags: every operation must
// have taken effect at one moment between its begin and its end, a wait must return true at the instant at which a
// flag is set at the end of the instant, and otherwise false when its time is over.
enum Kind { SET, UNSET, CANCEL, UNCANCEL, RESET, ISSET, ISCANC, WAIT, NAP };
struct Op {
    Kind k;
    int64_t ms;
    const char* name;
};
static const Op SETS[] = {{SET, 0, "set"}, {UNSET, 0, "unset"}, {CANCEL, 0, "cancel"}, {UNCANCEL, 0, "unCancel"}, {RESET, 0, "reset"}, {NAP, 5, "nap"}, {ISSET, 0, "isSet"}, {ISCANC, 0, "isCancelled"}};
static const int NSETS = 8;
static const Op WAITS[] = {{WAIT, -1, "wait(-1)"}, {WAIT, 10, "wait(10)"}, {WAIT, 0, "wait(0)"}, {WAIT, 5, "wait(5)"}, {WAIT, INT64_MAX, "wait(max)"}};

struct Rec {
    const Op* op;
    int inv = 0, ret = 0;      // sequence numbers
    int64_t t0 = 0, t1 = -1;   // virtual time, us; -1: never returned
    int64_t e = 0;             // time of the effect
    int res = -1;
    int thread = 0;
};
struct History {
    std::vector<Rec> r;
    int seq = 0;
};

struct Judge {
    const std::vector<Rec>& r;
    int n;
    std::vector<int64_t> pend;  // end of a wait (or forever)
    explicit Judge(const std::vector<Rec>& h) : r(h), n((int)h.size()) {}
    // no wait may sleep through the end of an instant at which a flag is set
    bool boundary(int64_t from, int64_t to, bool f) const {
        if (!f || from < 0) return true;
        for (auto& x : r)
            if (x.op->k == WAIT && x.t0 <= from && (x.t1 < 0 || x.t1 > from)) return false;
        (void)to;
        return true;
    }
    bool go(unsigned done, bool s, bool c, int64_t now) const {
        bool all = true;
        for (int i = 0; i < n; i++)
            if (!(done >> i & 1) && r[i].t1 >= 0) all = false;
        if (all) return boundary(now, INT64_MAX, s || c);
        for (int i = 0; i < n; i++) {
            if (done >> i & 1 || r[i].t1 < 0) continue;
            bool ok = true;
            for (int j = 0; j < n && ok; j++)  // everything that ended before it began comes first, and everything at an earlier instant
                if (!(done >> j & 1) && r[j].t1 >= 0 && j != i && (r[j].ret < r[i].inv || r[j].t1 < r[i].t1)) ok = false;
            if (!ok) continue;
            if (r[i].t1 > now && !boundary(now, r[i].t1, s || c)) continue;
            bool s2 = s, c2 = c;
            switch (r[i].op->k) {
                case SET: s2 = true; break;
                case UNSET: s2 = false; break;
                case CANCEL: c2 = true; break;
                case UNCANCEL: c2 = false; break;
                case RESET: s2 = c2 = false; break;
                case ISSET: if (r[i].res != s) continue; break;
                case ISCANC: if (r[i].res != c) continue; break;
                case WAIT:
                    if (r[i].res != (s || c)) continue;
                    if (!r[i].res && (r[i].op->ms < 0 || r[i].t1 - r[i].t0 < r[i].op->ms * 1000)) continue;
                    break;
                case NAP: break;
            }
            if (go(done | 1u << i, s2, c2, std::max(now, r[i].t1))) return true;
        }
        return false;
    }
};

typedef std::vector<std::vector<const Op*>> Prog;
static std::string str(const Prog& p) {
    std::string s;
    for (size_t i = 0; i < p.size(); i++) {
        if (i) s += " || ";
        for (auto o : p[i]) s += std::string(o->name) + ";";
    }
    return s;
}

static void run_prog(const Prog& p, bool initially) {
    Event ev(initially);
    std::vector<Rec> h(16);
    Counter seq, finished;
    int base = 0;
    const int64_t T0 = now_us();
    auto body = [&](int th) {
        int at = th * 4;
        for (auto o : p[th]) {
            Rec* x;
            {
                Unchecked u;
                x = &h[at++];
                x->op = o;
                x->thread = th;
            }
            int64_t t0 = now_us() - T0;
            seq++;
            int inv = seq.get();
            {
                Unchecked u;
                x->t0 = t0;
                x->inv = inv;
                x->t1 = -1;
                x->ret = 1 << 30;
            }
            int res = -1;
            switch (o->k) {
                case SET: ev.set(); break;
                case UNSET: ev.unset(); break;
                case CANCEL: ev.cancel(); break;
                case UNCANCEL: ev.unCancel(); break;
                case RESET: ev.reset(); break;
                case ISSET: res = ev.isSet(); break;
                case ISCANC: res = ev.isCancelled(); break;
                case WAIT: res = ev.wait(o->ms); break;
                case NAP: sleep_ms(5); break;
            }
            seq++;
            int ret = seq.get();
            int64_t t1 = now_us() - T0;
            {
                Unchecked u;
                x->ret = ret;
                x->t1 = t1 / 1000 * 1000;  // (the clock moves a little with every reading)
                x->t0 = x->t0 / 1000 * 1000;
                x->res = res;
            }
        }
        finished++;
    };
    (void)base;
    std::vector<std::thread> ts;
    for (size_t i = 1; i < p.size(); i++) ts.emplace_back(body, (int)i);
    body(0);
    finished.wait(p.size(), 50);
    window(false);
    {
        Unchecked u;
        std::vector<Rec> g;
        for (auto& x : h)
            if (x.op && x.inv) g.push_back(x);
        Judge j(g);
        if (!j.go(0, initially, false, 0)) {
            std::string s = str(p) + (initially ? " (initially set)" : "") + "\n";
            for (auto& x : g) {
                char b[200];
                snprintf(b, sizeof b, "    thread %d: %s from %.3f ms (#%d) to %.3f ms (#%d): %d\n", x.thread, x.op->name, x.t0 / 1e3, x.inv, x.t1 / 1e3, x.ret, x.res);
                s += b;
            }
            vmc::fail("event-history", "no order of the operations explains what they returned: %s", s.c_str());
        }
        std::string o;
        for (auto& x : g)
            if (x.op->k == WAIT) o += x.t1 < 0 ? "-" : x.res ? "1" : "0";
        outcome(o);
    }
    // everybody who still waits is released
    ev.cancel();
    for (auto& t : ts) t.join();
}

static void all_programs(int shard, int nshards, bool thorough) {
    std::vector<Prog> ps;
    std::vector<std::vector<const Op*>> a1, a2, a3, w1;
    for (int i = 0; i < NSETS; i++) {
        a1.push_back({&SETS[i]});
        for (int j = 0; j < NSETS; j++) {
            a2.push_back({&SETS[i], &SETS[j]});
            if (i < 6 && j < 6)
                for (int k = 0; k < 6; k++) a3.push_back({&SETS[i], &SETS[j], &SETS[k]});
        }
    }
    for (auto& w : WAITS) w1.push_back({&w});
    std::vector<std::vector<const Op*>> w2;
    for (auto& w : WAITS)
        for (auto& v : WAITS) w2.push_back({&w, &v});
    for (auto& w : w1) {
        if (w[0]->ms >= 0 && w[0]->ms < 100) ps.push_back({w});
        for (auto& a : a1) {
            ps.push_back({a, w});
            std::vector<const Op*> aw = a;
            aw.push_back(w[0]);
            for (auto& b : a1) ps.push_back({b, aw});
        }
        for (auto& a : a2) ps.push_back({a, w});
        for (auto& a : a3) ps.push_back({a, w});
        for (auto& v : w1)
            for (auto& a : a1) ps.push_back({a, w, v});
    }
    for (auto& w : w2)
        for (auto& a : a2) ps.push_back({a, w});
    // two actors and a waiter, two waiters and an actor
    for (auto& w : w1)
        for (size_t i = 0; i < a2.size(); i++) {
            for (auto& b : a1) ps.push_back({a2[i], b, w});
            if (thorough)
                for (size_t k = i; k < a2.size(); k++) ps.push_back({a2[i], a2[k], w});
        }
    for (auto& w : w1)
        for (auto& v : w1)
            for (auto& a : a2) ps.push_back({a, w, v});
    if (thorough)
        for (auto& w : w2)
            for (auto& a : a3) ps.push_back({a, w});
    uint64_t n = 0;
    for (size_t i = 0; i < ps.size(); i++) {
        if ((int)(i % nshards) != shard) continue;
        for (int init = 0; init < 2; init++) {
            set_context((str(ps[i]) + (init ? " (initially set)" : "")).c_str());
            explore_inline([&, init] { run_prog(ps[i], init); }, ps[i].size() <= 2 ? 99 : thorough ? 99 : 4, 0);
            explore_inline([&, init] { run_prog(ps[i], init); }, thorough ? 4 : 2, SPURIOUS);
            n++;
        }
        if (i < 800 && i % 160 == 0) sample(str(ps[i]));
    }
    count_transitions(n);
    if (!shard) note_param("programs", std::to_string(ps.size() * 2));
}

int main(int argc, char** argv) {
    Search s;
    s.name = "C23.programs";
    s.note = "programs of two or three threads: two threads in all interleavings, three with bounded deviations";
    s.fn = all_programs;
    add_search(s);

    // the time of a wait, at many phases of the clocks
    Search t;
    t.name = "C23.timing";
    t.fn = [](int shard, int n, bool thorough) {
        uint64_t cnt = 0;
        for (int ms = shard; ms < 1000; ms += n) {
            if (!thorough && ms % 7 && ms < 990) continue;
            for (int64_t sub : {0ll, 1ll, 999999ll})
                run_inline(
                    [&] {
                        static const int64_t T[] = {0, 1, 2, 5, 30, 999, 1000, 1001, 60000, 4294967, 4294968, 2147483648ll};
                        Event ev;
                        for (int64_t w : T) {
                            set_clock_phase_ns(ms * 1000000ll + sub);
                            int64_t t0 = now_us();
                            bool r = ev.wait(w);
                            int64_t dt = now_us() - t0;
                            VMC_CHECK(!r, "false-wake", "wait(%lld) of an event that nobody sets returned true", (long long)w);
                            VMC_CHECK(dt >= w * 1000, "too-short", "wait(%lld) returned after %.3f ms", (long long)w, dt / 1e3);
                            VMC_CHECK(dt <= w * 1000 + 1000, "too-long", "wait(%lld) returned after %.3f ms", (long long)w, dt / 1e3);
                            cnt++;
                        }
                        static const int64_t L[] = {-1, -2, -1000, INT64_MIN, INT64_MAX, INT64_MAX / 1000, 9223372036854ll, 9223372036855ll, 3153600000000ll, 3153600000001ll, 4000, 86400000};
                        for (int64_t w : L) {
                            set_clock_phase_ns(ms * 1000000ll + sub);
                            int64_t t0 = now_us();
                            bool canc = w & 1;
                            std::thread th([&] {
                                sleep_ms(3000);
                                if (canc) ev.cancel();
                                else ev.set();
                            });
                            bool r = ev.wait(w);
                            int64_t dt = now_us() - t0;
                            VMC_CHECK(r, "lost-set", "wait(%lld) returned false", (long long)w);
                            VMC_CHECK(dt >= 3000000 && dt <= 3001000, "wake-time", "wait(%lld): set after 3000 ms, returned after %.3f ms", (long long)w, dt / 1e3);
                            th.join();
                            ev.reset();
                            cnt++;
                        }
                    },
                    4000000000ll);
        }
        count_states(cnt);
        count_transitions(cnt);
        if (!shard) sample("wait(4294968) of an event that nobody sets: false after 4294968 ms");
    };
    add_search(t);
    return main_run(argc, argv, "model checking of the implementation against a two-flag model");
}
