// Explicit-state exploration of the message queue: the states are the raw bytes of its shared memory, the
// transitions run the real code, the oracle is a list of messages.
#pragma once
#include "vmc.h"
#include "message_queue.h"
#include <cstring>
#include <deque>
#include <memory>
#include <string>
#include <unordered_set>
#include <vector>

using namespace vmc;
using veigar::MessageQueue;

struct Geo {
    int n, s;                                 // of the creator
    std::vector<std::pair<int, int>> openers;  // settings of the other handles
    int depth;                                // bound on the number of operations, -1: until no new state appears
    int ids;                                  // distinct contents per size
    int max_size = 0;                         // of a message, 0: every size
    std::string str() const {
        std::string r = std::to_string(n) + "x" + std::to_string(s);
        for (auto& o : openers) r += "+" + std::to_string(o.first) + "x" + std::to_string(o.second);
        r += "/" + std::to_string(ids);
        if (max_size) r += " sizes up to " + std::to_string(max_size);
        return r;
    }
};
enum MqChecks { CHECK_FIFO = 1, CHECK_LIMITS = 2 };

class MqSearch {
   public:
    uint64_t transitions = 0, max_depth = 0;
    bool fixpoint = true, stopped = false;

    MqSearch(const Geo& g, unsigned checks, size_t max_states) : g_(g), checks_(checks), max_states_(max_states) {}

    bool done = false;
    size_t states() const { return nodes_.size(); }

    void batch(size_t count) {  // inside an execution: expands that many states
        create();
        {
            Unchecked u;
            size_t sz = 0;
            uint8_t* p = shm_bytes("/mq_shm", &sz);
            VMC_CHECK(p, "no-segment", "%s: the queue has no shared memory segment", g_.str().c_str());
            bytes_ = p;
            size_ = sz;
            if (nodes_.empty()) {
                Node st;
                st.raw.assign((char*)p, sz);
                add(std::move(st));
            }
        }
        for (;; at_++) {
            Unchecked u;
            if (at_ >= nodes_.size()) {
                done = true;
                break;
            }
            if (g_.depth >= 0 && nodes_[at_].depth >= g_.depth) {
                fixpoint = false;
                done = true;
                break;
            }
            if (nodes_.size() > max_states_) {
                stopped = true;
                fixpoint = false;
                done = true;
                break;
            }
            if (count-- == 0) break;
            {
                Checked c;
                expand(at_);
            }
            nodes_[at_].raw = std::string();
        }
        for (auto& h : h_) h->close();
        h_.clear();
        for (auto& v : data_)
            for (auto p : v) free(p);
        for (auto p : out_) free(p);
        data_.clear();
        data_.shrink_to_fit();
        out_.clear();
        out_.shrink_to_fit();
        h_.shrink_to_fit();
    }

   private:
    struct Msg {
        int id, size;
    };
    struct Node {
        std::string raw;
        std::string q;  // two bytes per message: id, size
        int parent = -1;
        int depth = 0;
        uint32_t op = 0;
    };
    Geo g_;
    unsigned checks_;
    size_t max_states_;
    std::vector<std::unique_ptr<MessageQueue>> h_;
    std::deque<Node> nodes_;
    std::unordered_set<uint64_t> seen_;  // 64-bit hashes of raw bytes and list
    uint8_t* bytes_ = nullptr;
    size_t size_ = 0;
    std::vector<std::vector<uint8_t*>> data_;  // [id][size]
    std::vector<uint8_t*> out_;                // [size]
    size_t cur_ = 0, at_ = 0;
    uint32_t op_ = ~0u;

    static uint8_t byte_of(int id, int size, int j) { return (uint8_t)(1 + (id * 101 + size * 29 + j * 7) % 250); }

    void create() {
        h_.emplace_back(new MessageQueue(g_.n, g_.s));
        VMC_CHECK(h_[0]->create("mq"), "create-failed", "%s: create failed", g_.str().c_str());
        for (auto& o : g_.openers) {
            h_.emplace_back(new MessageQueue(o.first, o.second));
            VMC_CHECK(h_.back()->open("mq"), "open-failed", "%s: open failed", g_.str().c_str());
        }
        int m = g_.n * g_.s + 2;
        data_.clear();
        data_.resize(g_.ids);
        out_.clear();
        for (int id = 0; id < g_.ids; id++)
            for (int k = 0; k <= m; k++) {
                uint8_t* p = (uint8_t*)malloc(k ? k : 1);
                for (int j = 0; j < k; j++) p[j] = byte_of(id, k, j);
                data_[id].push_back(p);
            }
        for (int k = 0; k <= m + 3; k++) out_.push_back((uint8_t*)malloc(k ? k : 1));
    }
    static uint64_t hash(const std::string& s) {
        uint64_t h = 0x243F6A8885A308D3ull + s.size();
        size_t i = 0;
        for (; i + 8 <= s.size(); i += 8) {
            uint64_t w;
            memcpy(&w, s.data() + i, 8);
            h = (h ^ w) * 0xff51afd7ed558ccdull;
            h ^= h >> 32;
        }
        for (; i < s.size(); i++) h = (h ^ (uint8_t)s[i]) * 0x100000001b3ull;
        return (h ^ h >> 29) * 0xc4ceb9fe1a85ec53ull;
    }
    void add(Node&& n) {
        if (!seen_.insert(hash(n.raw) * 0x9E3779B97F4A7C15ull + hash(n.q)).second) return;
        if ((uint64_t)n.depth > max_depth) max_depth = n.depth;
        nodes_.push_back(std::move(n));
    }
    std::string path() {
        Unchecked u;
        std::vector<uint32_t> ops;
        for (int i = (int)cur_; i > 0; i = nodes_[i].parent) ops.push_back(nodes_[i].op);
        std::string s = "queue " + g_.str() + ":";
        for (size_t i = ops.size(); i-- > 0;) s += " " + name(ops[i]) + ",";
        return s + " then " + (op_ == ~0u ? "(one more)" : name(op_));
    }
    // op: kind | handle << 4 | id << 8 | size << 12
    static uint32_t mk(int kind, int h, int id, int size) { return kind | h << 4 | id << 8 | (uint32_t)size << 12; }
    static std::string name(uint32_t op) {
        static const char* const k[] = {"push", "pop", "check", "number", "push-null", "open-another"};
        return std::string(k[op & 15]) + "(" + std::to_string(op >> 12) + (((op & 15) == 0) ? "/" + std::to_string(op >> 8 & 15) : "") + ")@" + std::to_string(op >> 4 & 15);
    }
    void begin(uint32_t op) {
        op_ = op;
        const Node& n = nodes_[cur_];
        memcpy(bytes_, n.raw.data(), size_);
        transitions++;
    }
    void next(uint32_t op, const std::string& q) {
        size_t sz = 0;
        uint8_t* p = shm_bytes("/mq_shm", &sz);
        if (p != bytes_ || sz != size_) bad("segment-changed", "the segment changed from %zu to %zu bytes", size_, sz);
        if (q == nodes_[cur_].q && !memcmp(bytes_, nodes_[cur_].raw.data(), size_)) return;
        Node m;
        m.raw.assign((char*)bytes_, size_);
        m.q = q;
        m.parent = (int)cur_;
        m.depth = nodes_[cur_].depth + 1;
        m.op = op;
        add(std::move(m));
    }
    template <class... A>
    void bad(const char* sig, const char* fmt, A... a) {
        char b[400];
        snprintf(b, sizeof b, fmt, a...);
        vmc::fail(sig, "%s\n  %s", b, path().c_str());
    }
    void expand(size_t i) {
        cur_ = i;
        const std::string q = nodes_[i].q;
        const int cnt = (int)q.size() / 2;
        int used = 0;
        for (int k = 0; k < cnt; k++) used += (uint8_t)q[2 * k + 1];
        const int cap = g_.n * g_.s;
        std::string ctx;
        {
            Unchecked u;
            op_ = ~0u;
            if (i % 64 == 0) ctx = path();
        }
        if (!ctx.empty()) set_context("near " + ctx);
        {  // whoever opens the queue now finds the same queue
            uint32_t op = mk(5, 0, 0, 0);
            { Unchecked u; begin(op); }
            MessageQueue other(g_.n > 1 ? 1 : 2, g_.s + 1);
            bool opened = other.open("mq");
            int64_t n = opened ? other.msgNumber() : 0, written = -1;
            bool waitable = false, room = true, none = false, popped = true;
            int first = cnt ? (uint8_t)q[1] : 0;
            if (opened && (checks_ & CHECK_LIMITS)) {
                if (cnt < g_.n && used < cap) room = other.checkSpaceSufficient(cap - used, waitable);
                none = other.checkSpaceSufficient(cap - used + 1, waitable);
            }
            if (opened && cnt && (checks_ & CHECK_FIFO)) popped = other.popFront(out_[first], first, written);
            if (opened) other.close();
            Unchecked u;
            if (cnt && (checks_ & CHECK_FIFO)) {
                if (!popped || written != first) bad("pop-result", "one who opens the queue gets %s of %lld bytes instead of the first message of %d", popped ? "a message" : "no message", (long long)written, first);
                for (int j = 0; j < first; j++)
                    if (out_[first][j] != byte_of((uint8_t)q[0], first, j)) bad("pop-content", "one who opens the queue gets another message: byte %d is %d instead of %d", j, out_[first][j], byte_of((uint8_t)q[0], first, j));
            }
            if (!opened) bad("open-failed", "the queue cannot be opened any more");
            if ((checks_ & CHECK_FIFO) && n != cnt) bad("msg-number", "%lld messages reported to one who opens the queue, %d are queued", (long long)n, cnt);
            if (!room || none) bad("predict", "one who opens the queue is told another size of the queue: room for %d bytes %d, for one more %d", cap - used, room, none);
            next(op, cnt && (checks_ & CHECK_FIFO) ? q.substr(2) : q);
        }
        for (int h = 0; h < (int)h_.size(); h++) {
            // queries
            {
                uint32_t op = mk(3, h, 0, 0);
                { Unchecked u; begin(op); }
                int64_t n = h_[h]->msgNumber();
                Unchecked u;
                if ((checks_ & CHECK_FIFO) && n != cnt) bad("msg-number", "%lld messages reported, %d are queued", (long long)n, cnt);
                next(op, q);
            }
            for (int size = 1; size <= (g_.max_size ? g_.max_size : cap + 1); size++) {
                bool fits = cnt < g_.n && used + size <= cap;
                if (checks_ & CHECK_LIMITS) {
                    uint32_t op = mk(2, h, 0, size);
                    { Unchecked u; begin(op); }
                    bool waitable = false;
                    bool ok = h_[h]->checkSpaceSufficient(size, waitable);
                    Unchecked u;
                    if (ok != fits) bad("predict", "room for %d bytes predicted: %d, true: %d (%d messages, %d bytes queued)", size, ok, fits, cnt, used);
                    if (!ok && waitable != (size <= cap)) bad("waitable", "waiting for room for %d bytes: said %s, the queue holds %d", size, waitable ? "useful" : "useless", cap);
                    next(op, q);
                }
                for (int id = 0; id < g_.ids; id++) {
                    uint32_t op = mk(0, h, id, size);
                    { Unchecked u; begin(op); }
                    bool ok = h_[h]->pushBack(data_[id][size], size);
                    Unchecked u;
                    if ((checks_ & CHECK_LIMITS) && ok != fits) bad("limit", "a push of %d bytes %s with %d messages of %d bytes queued", size, ok ? "was accepted" : "was refused", cnt, used);
                    for (int j = 0; j < size; j++)
                        if (data_[id][size][j] != byte_of(id, size, j)) bad("input-changed", "pushBack changed its input");
                    if (ok) {
                        if (cnt + 1 > 2 * g_.n + 2) continue;  // runaway (only if limits are broken)
                        std::string q2 = q;
                        q2 += (char)id;
                        q2 += (char)size;
                        next(op, q2);
                    } else
                        next(op, q);
                }
            }
            if (h == 0) {
                for (int v = 0; v < 2; v++) {
                    uint32_t op = mk(4, h, 0, v);
                    { Unchecked u; begin(op); }
                    bool ok = h_[h]->pushBack(v ? data_[0][1] : nullptr, v ? 0 : 1);
                    Unchecked u;
                    if (ok) bad("empty-push", "a push of nothing was accepted");
                    next(op, q);
                }
            }
            // pops
            int first = cnt ? (uint8_t)q[1] : 0;
            for (int b = 0; b <= cap + 2; b++) {
                if (b > first + 2 && b < cap + 2) continue;
                if (b < first - 1 && b > 1) continue;
                for (int null = 0; null < (b ? 1 : 2); null++) {
                    uint32_t op = mk(1, h, null, b);
                    uint8_t* buf = null ? nullptr : out_[b];
                    {
                        Unchecked u;
                        begin(op);
                        if (buf) memset(buf, 0, b ? b : 1);
                    }
                    int64_t written = -7;
                    bool ok = h_[h]->popFront(buf, b, written);
                    Unchecked u;
                    bool want = cnt > 0 && b >= first && buf;
                    if (checks_ & CHECK_FIFO) {
                        if (ok != want) bad("pop-result", "popping into %d bytes %s, %d messages queued, the first has %d bytes", b, ok ? "succeeded" : "failed", cnt, first);
                        if (cnt == 0 && written > 0) bad("pop-empty", "popping from an empty queue reports %lld bytes", (long long)written);
                        if (cnt > 0 && written != first) bad("pop-size", "popping reports %lld bytes, the first message has %d", (long long)written, first);
                        if (ok) {
                            for (int j = 0; j < first; j++)
                                if (buf[j] != byte_of((uint8_t)q[0], first, j)) bad("pop-content", "byte %d of the message is %d instead of %d", j, buf[j], byte_of((uint8_t)q[0], first, j));
                            for (int j = first; j < b; j++)
                                if (buf[j]) bad("pop-tail", "the buffer was written behind the message");
                        } else if (buf)
                            for (int j = 0; j < b; j++)
                                if (buf[j]) bad("pop-touch", "a failed pop wrote to the buffer");
                    }
                    next(op, ok && cnt ? q.substr(2) : q);
                }
            }
        }
    }
};

// Runs the geometries (largest first) of one shard.
inline void mq_run(const std::vector<Geo>& geos, unsigned checks, int shard, int nshards, size_t max_states) {
    int fix = 0, n = 0;
    for (size_t i = 0; i < geos.size(); i++) {
        if ((int)(i % nshards) != shard) continue;
        size_t states = 0;
        uint64_t tr = 0, md = 0;
        bool fp = false, stopped = false;
        set_context("queue " + geos[i].str());
        MqSearch m(geos[i], checks, max_states);
        while (!m.done && run_inline([&] { m.batch(200); })) {}
        states = m.states();
        tr = m.transitions;
        md = m.max_depth;
        fp = m.fixpoint;
        stopped = m.stopped;
        count_states(states);
        count_transitions(tr);
        char b[200];
        snprintf(b, sizeof b, "%zu states, %llu transitions, depth %llu, %s", states, (unsigned long long)tr, (unsigned long long)md, fp ? "all reachable states" : stopped ? "state limit" : "depth bound");
        note_param("queue " + geos[i].str(), b);
        if (i < 4) sample("queue " + geos[i].str() + ": " + b);
        if (stopped) mark_incomplete("state limit for queue " + geos[i].str());
    }
}
