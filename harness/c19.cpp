#include "mq.h"
#include "duo.h"

// calls in both directions between instances with different settings
static void talk(int ca, int sa, int cb, int sb) {
    window(false);
    Veigar a;
    Counter go;
    a.bind("len", [](string s) { return (int)s.size(); });
    a.bind("rep", [](int n, string s) { string r; for (int i = 0; i < n; i++) r += s; return r; });
    VMC_CHECK(a.init("A", ca, sa), "init-failed", "A");
    // what fits: a message is its payload and less than 160 bytes around it
    const int OVER = 160;
    int capB = cb * sb, capA = ca * sa;
    auto sizes = [](int cap) {
        vector<int> v;
        for (int x : {0, 1, cap / 3, cap - OVER})
            if (x >= 0 && x + OVER <= cap) v.push_back(x);
        return v;
    };
    auto run = [&](Veigar& v, const char* to, int cap_to, int cap_own) {
        for (int n : sizes(cap_to)) {
            CallResult r = v.syncCall(to, TOUT, "len", string(n, 'a' + n % 20));
            must_be(r, n, "len");
        }
        for (int n : sizes(cap_own)) {
            CallResult r = v.syncCall(to, TOUT, "rep", n, string("z"));
            VMC_CHECK(r.isSuccess(), "call-failed", "a result of %d bytes: %s", n, r.errorMessage.c_str());
            string s;
            VMC_CHECK(r.convertObject(s) && s == string(n, 'z'), "wrong-result", "a result of %d bytes came back as %zu", n, s.size());
        }
        // one that does not fit the queue of the callee
        CallResult r = v.syncCall(to, 300, "len", string(cap_to + 1, 'q'));
        must_fail(r, "too large for the target");
        // several outstanding calls
        vector<shared_ptr<AsyncCallResult>> ps;
        for (int i = 0; i < 5; i++) ps.push_back(v.asyncCall(to, TOUT, "len", string(i, 'b')));
        for (int i = 0; i < 5; i++) {
            CallResult q = await(ps[i], 2 * TOUT, "outstanding");
            must_be(q, i, "outstanding");
        }
    };
    Peer B;
    B.start(
        "B",
        [](Veigar& v) {
            v.bind("len", [](string s) { return (int)s.size(); });
            v.bind("rep", [](int n, string s) { string r; for (int i = 0; i < n; i++) r += s; return r; });
        },
        cb, sb,
        [&](Veigar& v) {
            go.wait(1);
            run(v, "A", capA, capB);
            go++;
        });
    window(true);
    run(a, "B", capB, capA);
    go++;
    VMC_CHECK(go.wait(2, 60000), "hang", "the calls back did not end");
    window(false);
    a.uninit();
    B.finish();
}

static void c19() {
    Search s;
    s.name = "C19.all_states";
    s.note = "every operation in every reachable state of small queues, through handles opened with other settings";
    s.fn = [](int shard, int n, bool thorough) {
        std::vector<Geo> g;
        using V = std::vector<std::pair<int, int>>;
        static const int C[][2] = {{1, 3}, {2, 2}, {3, 1}, {2, 3}, {3, 2}};
        static const int O[][2] = {{1, 1}, {1, 12}, {12, 1}, {2, 2}, {1, 3}, {3, 1}, {40, 50}};
        for (auto& c : C)
            for (auto& o : O)
                if (c[0] != o[0] || c[1] != o[1]) {
                    bool big = c[0] * c[1] > 4;
                    g.push_back(Geo{c[0], c[1], V{{o[0], o[1]}}, thorough || !big ? -1 : 6, big ? 1 : 2});
                }
        g.push_back(Geo{2, 2, V{{1, 1}, {3, 3}}, -1, 1});
        g.push_back(Geo{2, 2, V{{5, 1}, {1, 5}}, -1, 1});
        mq_run(g, CHECK_FIFO | CHECK_LIMITS, shard, n, thorough ? 2000000 : 100000);
    };
    add_search(s);

    static const int P[][4] = {{8, 256, 1, 256}, {1, 200, 16, 512}, {4, 64, 2, 700}, {2, 1000, 9, 40}, {1, 4096, 64, 64}, {3, 170, 3, 171}};
    add(scn("C19.pairs", 1, 2, [] {
        int k = choose(12, "settings");
        const int* p = P[k / 2];
        outcome(to_string(k));
        if (k % 2) talk(p[0], p[1], p[2], p[3]);
        else talk(p[2], p[3], p[0], p[1]);
    }, NO_RACES, 30, 400));
    // three instances, all with different settings, in a circle
    add(scn("C19.circle", 1, 2, [] {
        window(false);
        Peer A, B, C;
        Counter done, go;
        auto prep = [](Veigar& v) { v.bind("twice", [](string s) { return s + s; }); };
        auto run = [&](Veigar& v, const char* to, int n) {
            go.wait(1);
            CallResult r = v.syncCall(to, TOUT, "twice", string(n, 'x'));
            string s;
            VMC_CHECK(r.isSuccess() && r.convertObject(s) && s.size() == 2u * n, "wrong-result", "%s: %s, %zu bytes instead of %d", to, r.errorMessage.c_str(), s.size(), 2 * n);
            done++;
        };
        A.start("A", prep, 1, 900, [&](Veigar& v) { run(v, "B", 300); }, false);
        B.start("B", prep, 8, 64, [&](Veigar& v) { run(v, "C", 100); }, false);
        C.start("C", prep, 3, 250, [&](Veigar& v) { run(v, "A", 200); }, false);
        window(true);
        A.up.wait(1);
        B.up.wait(1);
        C.up.wait(1);
        VMC_CHECK(A.failed.get() + B.failed.get() + C.failed.get() == 0, "init-failed", "init failed");
        go++;
        VMC_CHECK(done.wait(3, 3 * TOUT), "hang", "not all calls ended");
        window(false);
        A.finish();
        B.finish();
        C.finish();
    }));
}
int main(int argc, char** argv) {
    c19();
    return main_run(argc, argv, "explicit-state model checking of the implementation");
}
