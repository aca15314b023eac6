#include "mq.h"

static Scenario many() {
    Scenario s;
    s.name = "C06.many";
    s.note = "long queues, filled and emptied in waves";
    s.flags = NO_RACES;
    s.quick_dev = s.thorough_dev = 0;
    s.body = [] {
        static const int N[] = {33, 65, 129, 257, 520, 1030};
        static const int S[] = {1, 7, 100};
        static const int WAVE[][2] = {{100, 100}, {100, 3}, {60, 59}, {97, 31}, {10, 9}};  // per cent pushed, per cent popped
        int n = N[choose(6, "messages")], sz = S[choose(3, "expected size")], pat = choose(5, "sizes"), part = choose(5, "waves");
        window(false);
        MessageQueue a(n, sz), b(3, 3);
        VMC_CHECK(a.create("mq") && b.open("mq"), "create-failed", "%dx%d", n, sz);
        std::deque<std::string> model;
        long held = 0, total = (long)n * sz;
        unsigned serial = 0;
        auto next = [&] {
            unsigned k = serial++;
            long len = pat == 0 ? sz : pat == 1 ? 1 + k % sz : pat == 2 ? (k % 5 ? 1 : sz * 3) : pat == 3 ? (k % n == (unsigned)n / 2 ? total / 4 + 1 : 1) : 1 + (k * k + k / 3) % (2 * sz);
            std::string m(len, 0);
            for (long i = 0; i < len; i++) m[i] = (char)(k * 31 + i * 7 + (k >> 8));
            return m;
        };
        std::string buf(total + 1, 0);
        auto pop = [&](MessageQueue& q) {
            int64_t w = -5;
            bool ok = q.popFront(&buf[0], buf.size(), w);
            VMC_CHECK(ok == !model.empty(), "pop-answer", "%dx%d pattern %d/%d: a pop of a queue with %zu messages answers %d", n, sz, pat, part, model.size(), ok);
            if (!ok) return;
            VMC_CHECK(w == (int64_t)model.front().size() && !memcmp(buf.data(), model.front().data(), w), "wrong-message", "%dx%d pattern %d/%d: the popped message (%lld bytes) is not the oldest one (%zu bytes)", n, sz,
                      pat, part, (long long)w, model.front().size());
            held -= model.front().size();
            model.pop_front();
        };
        for (int wave = 0; wave < 6; wave++) {
            for (int i = 0; i < n * WAVE[part][0] / 100 + 1; i++) {
                std::string m = next();
                bool room = (int)model.size() < n && held + (long)m.size() <= total;
                bool ok = (i & 1 ? a : b).pushBack(m.data(), m.size());
                VMC_CHECK(ok == room, "push-answer", "%dx%d pattern %d/%d: a push of %zu bytes to a queue with %zu messages and %ld bytes answers %d", n, sz, pat, part, m.size(), model.size(), held, ok);
                if (ok) model.push_back(m), held += m.size();
            }
            VMC_CHECK(b.msgNumber() == (int64_t)model.size(), "number", "%lld messages are held, expected %zu", (long long)b.msgNumber(), model.size());
            for (int i = 0; i < n * WAVE[part][1] / 100 + 1; i++) pop(i & 1 ? b : a);
        }
        while (!model.empty()) pop(a);
        pop(b);
        b.close();
        a.close();
    };
    return s;
}
static void c06() {
    Search s;
    s.name = "C06.all_states";
    s.note = "every operation in every reachable state of small queues";
    s.fn = [](int shard, int n, bool thorough) {
        std::vector<Geo> g;
        auto same = [](int n, int s, int depth, int ids, int openers = 1) {
            return Geo{n, s, std::vector<std::pair<int, int>>(openers, {n, s}), depth, ids};
        };
        auto few = [](int n, int s, int depth, int ids, int max_size) {
            Geo g{n, s, {{n, s}}, depth, ids};
            g.max_size = max_size;
            return g;
        };
        // 8 shards: number i goes to shard i % 8
        if (thorough)
            g = {same(3, 3, 10, 2),  same(4, 2, 10, 2), same(2, 4, -1, 2), same(3, 2, -1, 2), same(5, 1, -1, 2),  same(2, 3, -1, 2),  same(6, 3, 8, 1, 0),
                 same(3, 7, 7, 1, 0), same(4, 3, 9, 1),  same(3, 4, 9, 1),  same(3, 3, 16, 1), same(2, 5, 12, 1), same(2, 2, -1, 2, 2), same(6, 1, -1, 1), same(4, 1, -1, 2),
                 same(1, 4, -1, 2),  same(1, 9, -1, 1), same(1, 1, -1, 2), same(3, 1, -1, 2), same(4, 2, 14, 1), few(9, 2, 14, 1, 2), few(7, 3, 12, 1, 3), few(16, 2, 17, 1, 2)};
        else
            g = {same(3, 3, 7, 2),  same(4, 2, 7, 2),    same(2, 4, 8, 2),  same(3, 2, 10, 2), same(3, 2, -1, 1), same(2, 3, -1, 2), same(6, 3, 5, 1, 0), same(3, 7, 5, 1, 0), same(3, 3, 8, 1),
                 same(5, 1, -1, 1), same(2, 2, -1, 2, 2), same(4, 1, -1, 2), same(1, 4, -1, 2), same(1, 1, -1, 2), same(3, 1, -1, 2), same(1, 9, -1, 1), few(9, 2, 11, 1, 2), few(7, 3, 8, 1, 3)};
        mq_run(g, CHECK_FIFO, shard, n, thorough ? 6000000 : 300000);
    };
    add_search(s);
    // queues of many messages: every geometry, size pattern and fill pattern of the table
    add(many());
}
int main(int argc, char** argv) {
    c06();
    return main_run(argc, argv, "explicit-state model checking of the implementation");
}
