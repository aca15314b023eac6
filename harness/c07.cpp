#include "mq.h"
#include <sys/mman.h>

// one instance of the list model with large sizes; contents are marked at their ends
struct BigModel {
    int64_t n, s;
    std::deque<int64_t> q;
    std::deque<int> ids;
    int64_t used() const {
        int64_t u = 0;
        for (auto x : q) u += x;
        return u;
    }
    bool fits(int64_t size) const { return (int64_t)q.size() < n && (__int128)used() + size <= (__int128)n * s; }
};
static uint8_t* region(size_t n) {
    Unchecked u;
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    VMC_CHECK(p != MAP_FAILED, "harness", "no memory for the harness");
    return (uint8_t*)p;
}
static void big_ops(int32_t n, int32_t s, std::vector<int64_t> pushes, bool want_create) {
    char name[100];
    snprintf(name, sizeof name, "queue %dx%d", n, s);
    set_context(name);
    run_inline([&] {
        MessageQueue q(n, s);
        bool ok = q.create("mq");
        if (!ok) {
            VMC_CHECK(!want_create, "create-failed", "%s: create failed", name);
            VMC_CHECK(shm_names() == 0 && sem_names() == 0 && open_fds() == 0 && live_views() == 0, "residue", "%s: a failed create left %s", name, names().c_str());
            return;
        }
        MessageQueue o(3, 100);
        VMC_CHECK(o.open("mq"), "open-failed", "%s: open failed", name);
        BigModel m{n, s, {}};
        int64_t total = (int64_t)n * s;
        auto predictions = [&] {
            for (int64_t base : {(int64_t)1, (int64_t)s, total, total - m.used(), (int64_t)1 << 31, (int64_t)1 << 32, ((int64_t)1 << 32) + total - m.used()})
                for (int64_t d = -1; d <= 1; d++) {
                    int64_t size = base + d;
                    if (size <= 0) continue;
                    for (MessageQueue* h : {&q, &o}) {
                        bool waitable = false;
                        bool r = h->checkSpaceSufficient(size, waitable);
                        VMC_CHECK(r == m.fits(size), "predict", "%s: room for %lld bytes predicted: %d (%zu messages, %lld bytes queued)", name, (long long)size, r, m.q.size(), (long long)m.used());
                        if (!r) VMC_CHECK(waitable == (size <= total), "waitable", "%s: waiting for room for %lld bytes: said %s", name, (long long)size, waitable ? "useful" : "useless");
                    }
                }
        };
        predictions();
        int k = 0;
        for (int64_t size : pushes) {
            if (size > 0) {
                uint8_t* d = region(size);
                {
                    Unchecked u;
                    d[size / 2] = 201 + k;
                    d[size - 1] = 101 + k;
                    d[0] = 1 + k;
                }
                MessageQueue& h = k % 2 ? o : q;
                bool r = h.pushBack(d, size);
                VMC_CHECK(r == m.fits(size), "limit", "%s: a push of %lld bytes %s with %zu messages of %lld bytes queued", name, (long long)size, r ? "was accepted" : "was refused", m.q.size(), (long long)m.used());
                if (r) {
                    Unchecked u;
                    m.q.push_back(size);
                    m.ids.push_back(k);
                }
                Unchecked u;
                munmap(d, size);
            } else {
                int64_t first = m.q.empty() ? 0 : m.q.front();
                uint8_t* d = region(first + 1);
                int64_t w = 0;
                if (first) {
                    bool r = o.popFront(d, first - 1, w);
                    VMC_CHECK(!r && w == first, "pop-size", "%s: popping into a small buffer: %d, %lld", name, r, (long long)w);
                }
                bool r = q.popFront(d, first, w);
                VMC_CHECK(r == (first > 0), "pop-result", "%s: pop: %d", name, r);
                Unchecked u;
                if (r) {
                    int id = m.ids.front();
                    m.ids.pop_front();
                    VMC_CHECK(w == first && d[0] == (uint8_t)(1 + id) && (first < 3 || (d[first - 1] == 101 + id && d[first / 2] == 201 + id)), "pop-content", "%s: a message of %lld bytes came back as %d %d %d", name, (long long)first, d[0], d[first / 2], d[first - 1]);
                    m.q.pop_front();
                }
                munmap(d, first + 1);
            }
            k++;
            VMC_CHECK(q.msgNumber() == (int64_t)m.q.size() && o.msgNumber() == (int64_t)m.q.size(), "msg-number", "%s: %lld messages reported", name, (long long)q.msgNumber());
            predictions();
        }
        o.close();
        q.close();
    });
    count_states(pushes.size() + 1);
    count_transitions(pushes.size());
    sample(name);
}

static void c07() {
    Search s;
    s.name = "C07.all_states";
    s.note = "every size in every reachable state of small queues";
    s.fn = [](int shard, int n, bool thorough) {
        std::vector<Geo> g;
        auto same = [](int n, int s, int depth, int ids, int openers = 1) {
            return Geo{n, s, std::vector<std::pair<int, int>>(openers, {n, s}), depth, ids};
        };
        auto few = [](int n, int s, int depth, int ids, int max_size) {
            Geo g{n, s, {{n, s}}, depth, ids};
            g.max_size = max_size;
            return g;
        };
        if (thorough)
            g = {same(3, 3, 14, 1), same(4, 2, 14, 1), same(2, 4, -1, 1), same(3, 2, -1, 1), same(5, 1, -1, 1), same(2, 3, -1, 1), same(6, 3, 8, 1, 0), same(3, 7, 7, 1, 0), same(2, 5, 12, 1),
                 same(4, 3, 9, 1),  same(2, 2, -1, 1), same(4, 1, -1, 1), same(1, 4, -1, 1), same(1, 9, -1, 1), same(1, 1, -1, 1), same(6, 1, -1, 1), same(1, 30, 5, 1), same(2, 12, 5, 1), few(9, 2, 14, 1, 2), few(7, 3, 12, 1, 3)};
        else
            g = {same(3, 3, 7, 1), same(4, 2, 7, 1), same(2, 4, 8, 1), same(3, 2, -1, 1), same(5, 1, -1, 1), same(2, 3, 12, 1), same(6, 3, 5, 1, 0), same(3, 7, 5, 1, 0), same(2, 2, -1, 1),
                 same(4, 1, -1, 1), same(1, 4, -1, 1), same(1, 1, -1, 1), same(1, 9, 8, 1), same(2, 12, 3, 1), few(9, 2, 10, 1, 2), few(7, 3, 8, 1, 3)};
        mq_run(g, CHECK_LIMITS, shard, n, thorough ? 6000000 : 300000);
    };
    add_search(s);

    Search b;
    b.name = "C07.huge";
    b.note = "queues around the limits of 32-bit arithmetic";
    b.fn = [](int shard, int, bool thorough) {
        if (shard) return;
        const int32_t M = 2147483647;
        big_ops(3, 0x2AAAAAAB, {}, true);                       // total 2^31 + 1
        big_ops(2, 0x3FFFFFFF, {1, 1, 1, 0}, true);             // total 2^31 - 2
        big_ops(2, 0x40000000, {5, 7, 0, 1}, true);             // total 2^31
        big_ops(65536, 32768, {1000, 1, 0}, true);              // total 2^31
        big_ops(65537, 65535, {70000, 100, 0, 0}, true);        // total 2^32 - 1
        big_ops(65536, 65536, {1, 2}, true);                    // total 2^32
        big_ops(65536, 65537, {40000, 40000, 40000, 40000}, true);  // total 2^32 + 65536
        big_ops(1, M, {1, 1}, true);
        big_ops(100000000, 1, {1, 1, 0, 0}, true);
        big_ops(0x10000010, 1, {1, 5, 0, 3, 0, 0}, true);           // the table of sizes has more than 2^31 bytes
        big_ops(M, 1, {}, false);
        big_ops(M, M, {}, false);
        big_ops(M, 0, {}, false);
        big_ops(0, 10, {}, false);
        big_ops(-1, 10, {}, false);
        big_ops(10, -1, {}, false);
        big_ops(-10, -10, {}, false);
        big_ops(40000, 200000, {}, false);                      // does not fit the memory of this machine
        if (thorough) {
            big_ops(2, 0x48000000, {0x50000000, 0x40000001, 0x40000000, 0, 0x40000000, 0x10000000, 0, 0}, true);
            big_ops(3, 0x2AAAAAAB, {0x7FFFFFFF, 3, 2, 0, 1, 0, 0x7FFFFF00, 0, 0}, true);
        }
    };
    add_search(b);
}
int main(int argc, char** argv) {
    c07();
    return main_run(argc, argv, "explicit-state model checking of the implementation");
}
