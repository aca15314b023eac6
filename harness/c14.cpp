#include "duo.h"
#include "mp.h"
using mp::Val;

// what ran, recorded outside the checked world
struct Rec {
    int n = 0;
    int fn = 0;
    int64_t i = 0;
    std::string s;
    bool b = false;
};
static Rec g_rec;
static void record(int fn, int64_t i, const std::string* s, bool b) {
    Unchecked u;
    g_rec.n++;
    g_rec.fn = fn;
    g_rec.i = i;
    if (s) g_rec.s.assign(s->data(), s->size());
    g_rec.b = b;
}
static int64_t g_vecsum;

// An instance A and the queues of a partner P that is only played.
struct Target {
    Veigar a;
    veigar::MessageQueue pcall{40, 4096}, presp{40, 4096}, acall{1, 1}, aresp{1, 1};
    explicit Target(uint32_t cap = 8, uint32_t msz = 4096) {
        a.bind("fo", [](veigar_msgpack::object o) { record(8, 0, nullptr, false); return o; });
        a.bind("fis", [](int i, string s) { record(1, i, &s, false); return (int)s.size() + i; });
        a.bind("f0", []() { record(2, 0, nullptr, false); });
        a.bind("fb", [](bool b) { record(3, 0, nullptr, b); return b; });
        a.bind("fv", [](vector<int> v) { int64_t t = v.size() * 1000; for (int x : v) t += x; record(4, t, nullptr, false); return (int)v.size(); });
        a.bind("fm", [](map<string, int> v) { int64_t t = v.size() * 1000; for (auto& x : v) t += x.second; record(5, t, nullptr, false); return (int)v.size(); });
        a.bind("u8", [](uint8_t v) { record(6, v, nullptr, false); return v; });
        a.bind("fd", [](double v) { record(7, (int64_t)v, nullptr, false); return v; });
        VMC_CHECK(a.init("A", cap, msz), "init-failed", "A");
        VMC_CHECK(pcall.create("P" VEIGAR_CALL_QUEUE_NAME_SUFFIX) && presp.create("P" VEIGAR_RESPONSE_QUEUE_NAME_SUFFIX), "queue-create", "P");
        VMC_CHECK(acall.open(CALLQ_A) && aresp.open(RESPQ_A), "open-failed", "A");
    }
    ~Target() {
        a.uninit();
        pcall.close();
        presp.close();
        acall.close();
        aresp.close();
    }
    static void put(veigar::MessageQueue& q, const string& m) {
        VMC_CHECK(q.processRWLock(5000), "lock-stuck", "the lock of A's queue is stuck");
        bool r = q.pushBack(m.data(), m.size());
        if (r) q.notifyRead();
        q.processRWUnlock();
        VMC_CHECK(r, "push", "A's queue is full: A does not consume any more");
    }
    static bool take(veigar::MessageQueue& q, string& m) {
        static char buf[200000];
        int64_t w = 0;
        VMC_CHECK(q.processRWLock(5000), "lock-stuck", "the lock of P's queue is stuck");
        bool r = q.popFront(buf, sizeof buf, w);
        if (r) m.assign(buf, w);
        q.processRWUnlock();
        return r;
    }
};

// what an exactly valid call would do.  0: nothing may run, 1: this runs, 2: may run (depends on conversions not modelled)
static int meaning(const Val& m, Rec& out) {
    auto text = [](const Val& v) { return v.t == Val::STR || v.t == Val::BIN; };
    if (m.t != Val::ARR || m.v.size() != 5) return 0;
    if (m.v[0].t != Val::UINT || m.v[0].u != 0) return 0;
    if (!text(m.v[1]) || !text(m.v[2]) || !text(m.v[3])) return 0;
    const Val& a = m.v[4];
    if (a.t != Val::ARR) return 0;
    const std::string& f = m.v[3].s;
    auto integer = [&](const Val& v, int64_t lo, int64_t hi, int64_t& o) {
        if (v.t == Val::UINT && v.u <= (uint64_t)hi) return o = v.u, true;
        if (v.t == Val::INT && v.i >= lo) return o = v.i, true;
        return false;
    };
    const int64_t L = -2147483648ll, H = 2147483647ll;
    size_t n = a.v.size();
    out.n = 1;
    if (f == "fis") { out.fn = 1; if (n != 2 || !integer(a.v[0], L, H, out.i) || !text(a.v[1])) return 0; out.s = a.v[1].s; return 1; }
    if (f == "fo") { out.fn = 8; return n == 1 ? 2 : 0; }
    if (f == "f0") { out.fn = 2; return n == 0; }
    if (f == "fb") { out.fn = 3; if (n != 1 || a.v[0].t != Val::BOOL) return 0; out.b = a.v[0].u; return 1; }
    if (f == "u8") { out.fn = 6; return n == 1 && integer(a.v[0], 0, 255, out.i); }
    if (f == "fv") {
        out.fn = 4;
        if (n != 1 || a.v[0].t != Val::ARR) return 0;
        out.i = a.v[0].v.size() * 1000;
        for (auto& x : a.v[0].v) {
            int64_t k;
            if (!integer(x, L, H, k)) return 0;
            out.i += k;
        }
        return 1;
    }
    if (f == "fm") {
        out.fn = 5;
        if (n != 1 || a.v[0].t != Val::MAP) return 0;
        std::vector<std::pair<std::string, int64_t>> kv;
        for (size_t k = 0; k < a.v[0].v.size(); k += 2) {
            int64_t x;
            if (!text(a.v[0].v[k]) || !integer(a.v[0].v[k + 1], L, H, x)) return 0;
            bool old = false;
            for (auto& e : kv) if (e.first == a.v[0].v[k].s) e.second = x, old = true;
            if (!old) kv.push_back({a.v[0].v[k].s, x});
        }
        out.i = kv.size() * 1000;
        for (auto& e : kv) out.i += e.second;
        return 1;
    }
    if (f == "fd") {
        out.fn = 7;
        if (n != 1) return 0;
        const Val& v = a.v[0];
        if (v.t == Val::FLOAT) { if (!(v.d > -1e15 && v.d < 1e15)) return 2; out.i = (int64_t)v.d; return 1; }
        if (v.t == Val::UINT) { out.i = (int64_t)(double)v.u; return v.u < (1ull << 53) ? 1 : 2; }
        if (v.t == Val::INT) { out.i = v.i; return v.i > -(1ll << 53) ? 1 : 2; }
        return 0;
    }
    return 0;
}
// made before any execution: the engine restores all static data before each one
using namespace mp;
static const std::string BASES[] = {
        call("id7", "P", "fis", fixarr(2) + num(-5) + str("text")),
        call("", "", "fis", fixarr(2) + num(300) + str("")),
        call("x-1", "P", "f0", fixarr(0)),
        call("y", "P", "fv", fixarr(1) + fixarr(3) + num(1) + num(1000000) + num(-1)),
        call("z", "P", "fm", fixarr(1) + fixmap(2) + str("a") + num(1) + str("b") + num(-70000)),
        call("z", "P", "fb", fixarr(1) + "\xc3"),
        call("q", "P", "u8", fixarr(1) + num(255)),
        call("q", "P", "fd", fixarr(1) + "\xcb\x40\x09\x21\xfb\x54\x44\x2d\x18"),
        call("long" + std::string(40, 'i'), "P" , "none" + std::string(60, 'n'), fixarr(1) + num(5)),
        call("a", "absent", "fis", fixarr(2) + num(1) + str("t")),
        // responses and other things in the wrong queue
        resp("id7", nil(), num(5)),
        fixarr(5) + num(1) + str("id") + str("P") + str("f0") + fixarr(0),
};
static const std::string& bases(int k) { return BASES[k]; }
static const int NBASE = 12;
static const uint8_t INTEREST[] = {0x00, 0x01, 0x05, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x91, 0x92, 0x94, 0x95, 0x9f, 0xa0, 0xa1, 0xbf, 0xc0, 0xc1, 0xc2, 0xc3, 0xc4, 0xc5, 0xc6, 0xc7, 0xc9,
                                   0xca, 0xcb, 0xcc, 0xcd, 0xce, 0xcf, 0xd0, 0xd1, 0xd2, 0xd3, 0xd4, 0xd8, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xe0, 0xff};
// everything derived from base b, in a fixed order
static void variants(const std::string& b, bool thorough, const std::function<void(const std::string&)>& f) {
    f(b);
    for (size_t n = 1; n < b.size(); n++) f(b.substr(0, n));
    for (size_t i = 0; i < b.size(); i++) {
        for (int x = 0; x < 256; x++)
            if ((uint8_t)b[i] != x) {
                std::string m = b;
                m[i] = x;
                f(m);
            }
        f(b.substr(0, i) + b.substr(i + 1));
        for (uint8_t x : INTEREST) f(b.substr(0, i) + (char)x + b.substr(i));
        // claims of length
        for (const char* c : {"\xdd\xff\xff\xff\xff", "\xdf\xff\xff\xff\xff", "\xdb\xff\xff\xff\xff", "\xc6\xff\xff\xff\xff", "\xc9\xff\xff\xff\xff", "\xdc\xff\xff", "\xde\xff\xff", "\xda\xff\xff", "\xdd\x7f\xff\xff\xff", "\xdd\x10\x01\x01\x01", "\xdd\x01\x01\x01\x01"}) {
            f(b.substr(0, i) + c + b.substr(i));
            f(b.substr(0, i) + c + b.substr(i + 1));
            f(b.substr(0, i) + c);
        }
    }
    f(b + b);
    for (int x = 0; x < 256; x++) f(b + (char)x), f((char)x + b);
    if (thorough)
        for (size_t i = 0; i < b.size(); i++)
            for (size_t j = i + 1; j < b.size(); j++)
                for (uint8_t x : INTEREST)
                    for (uint8_t y : INTEREST) {
                        std::string m = b;
                        m[i] = x;
                        m[j] = y;
                        f(m);
                    }
}
// everything else worth sending
static void specials(bool thorough, const std::function<void(const std::string&)>& f) {
    using namespace mp;
    for (int x = 0; x < 256; x++) {
        f(std::string(1, (char)x));
        for (int y = 0; y < 256; y++) f(std::string(1, (char)x) + (char)y);
    }
    if (thorough)
        for (int x = 128; x < 256; x++)
            for (int y = 0; y < 256; y++)
                for (int z = 0; z < 256; z++) f(std::string(1, (char)x) + (char)y + (char)z);
    // any two bytes as the arguments, the name, the caller, the id, the flag
    for (int x = 0; x < 256; x++)
        for (int y = 0; y < 256; y++) {
            std::string v = std::string(1, (char)x) + (char)y;
            f(call("i", "P", "u8", v));
            if (thorough || y % 5 == 0) {
                f(fixarr(5) + num(0) + str("i") + str("P") + v + fixarr(0));
                f(fixarr(5) + num(0) + str("i") + v + str("f0") + fixarr(0));
                f(fixarr(5) + num(0) + v + str("P") + str("f0") + fixarr(0));
                f(fixarr(5) + v + str("i") + str("P") + str("f0") + fixarr(0));
            }
        }
    // nesting
    for (int d : {1, 2, 30, 31, 32, 33, 100, 500, 1000, 1020, 1022, 1023, 1024, 1025, 1026, 1030, 2000, 4000})
        for (uint8_t x : {0x91, 0x81, 0x92}) {
            std::string one = x == 0x81 ? std::string("\x81\x01") : std::string(1, (char)x);
            std::string n;
            for (int k = 0; k < d; k++) n += one;
            f(n);
            f(n + num(1));
            f(call("i", "P", "fv", fixarr(1) + n + num(1)));
            f(call("i", "P", "none", n + num(1)));
            f(call("i", "P", "u8", fixarr(1) + n));
            f(fixarr(5) + n);
        }
    // arrays of other sizes with correct elements
    for (int k = 0; k < 9; k++) {
        std::string m = fixarr(k);
        const std::string e[] = {num(0), str("i"), str("P"), str("f0"), fixarr(0), nil(), nil(), nil(), nil()};
        for (int j = 0; j < k; j++) m += e[j];
        f(m);
    }
    // 16 and 32 bit headers for the same content
    f(std::string("\xdc\x00\x05", 3) + num(0) + str("i") + str("P") + str("f0") + fixarr(0));
    f(std::string("\xdd\x00\x00\x00\x05", 5) + num(0) + str("i") + str("P") + str("f0") + std::string("\xdc\x00\x00", 3));
    f(call("i", "P", "u8", std::string("\xdd\x00\x00\x00\x01\xcc\xc8", 7)));
    f(call(std::string("i\0d", 3), std::string("P\0Q", 3), "f0", fixarr(0)));
    f(call("i", "../x", "f0", fixarr(0)));
    f(call("i", std::string(300, 'c'), "f0", fixarr(0)));
    f(call(std::string(3000, 'c'), "P", "f0", fixarr(0)));
    f(call("i", "P", std::string(3000, 'c'), fixarr(0)));
    f(call("i", "P", "%s%n%d", fixarr(0)));
    f(call("i", "A", "f0", fixarr(0)));  // its own channel
}

static std::string g_cur;
static uint64_t g_count;
static void one_call(Target& t, const std::string& m) {
    Val v;
    Rec want;
    int kind = 0;
    bool exact = false, strange = false;
    {
        Unchecked u;
        mp::Dec d{(const uint8_t*)m.data(), (const uint8_t*)m.data() + m.size()};
        bool whole = d.get(v);
        exact = whole && d.p == d.e && d.max_depth < 1000;
        strange = (whole && !exact) || d.too_deep;
        kind = whole ? meaning(v, want) : 0;
        g_rec = Rec();
    }
    Target::put(t.acall, m);
    settle(2);
    if (strange) {  // more than one object in a message, or deep: what runs must at least be in it
        VMC_CHECK(g_rec.n <= (int)m.size() / 6, "ran", "%d functions ran", g_rec.n);
    } else if (kind == 0)
        VMC_CHECK(g_rec.n == 0, "ran-on-malformed", "function %d ran with made-up arguments for message %s", g_rec.fn, mp::hex(m).c_str());
    else if (kind == 1 && exact)
        VMC_CHECK(g_rec.n == 1 && g_rec.fn == want.fn && g_rec.i == want.i && g_rec.s == want.s && g_rec.b == want.b, "wrong-arguments",
                  "%d functions ran (%d: %lld '%s' %d) for message %s", g_rec.n, g_rec.fn, (long long)g_rec.i, g_rec.s.c_str(), g_rec.b, mp::hex(m).c_str());
    else
        VMC_CHECK(g_rec.n <= 1, "ran", "%d functions ran", g_rec.n);
    // drain the responses
    string r;
    bool answered = false;
    while (Target::take(t.presp, r)) {
        Unchecked u;
        mp::Dec d{(const uint8_t*)r.data(), (const uint8_t*)r.data() + r.size()};
        Val w;
        bool ok = d.get(w) && d.p == d.e;
        if (d.too_deep) continue;
        VMC_CHECK(ok && w.t == Val::ARR && w.v.size() == 4 && w.v[0].t == Val::UINT && w.v[0].u == 1 && w.v[1].t == Val::STR, "bad-response", "a malformed response: %s", mp::hex(r).c_str());
        if (exact && kind == 1 && w.v[1].s == v.v[1].s && w.v[2].t == Val::NIL) answered = true;
    }
    if (exact && kind == 1 && v.v[2].s == "P") VMC_CHECK(answered, "no-response", "no response to a valid call: %s", mp::hex(m).c_str());
    // a correct call is handled correctly
    {
        Unchecked u;
        g_rec = Rec();
    }
    Target::put(t.acall, mp::call("good", "P", "fis", mp::fixarr(2) + mp::num(41) + mp::str("ok")));
    settle(1);
    VMC_CHECK(g_rec.n == 1 && g_rec.fn == 1 && g_rec.i == 41 && g_rec.s == "ok", "next-call", "the call after message %s ran %d functions (%d: %lld '%s')", mp::hex(m).c_str(), g_rec.n, g_rec.fn, (long long)g_rec.i, g_rec.s.c_str());
    VMC_CHECK(Target::take(t.presp, r), "no-response", "no response to the call after message %s", mp::hex(m).c_str());
    VMC_CHECK(r == mp::resp("good", mp::nil(), mp::num(43)), "bad-response", "the response to the call after message %s is %s", mp::hex(m).c_str(), mp::hex(r).c_str());
}
// sends messages in batches, each batch to a new instance
// small enough for the heap of a receiver: an array may claim 65535 elements
struct Batch {
    std::vector<std::string> q;
    std::function<void(std::vector<std::string>&)> run;
    int shard, n, size = 40, k = 0;
    uint64_t total = 0;
    void add(const std::string& m) {
        q.push_back(m);
        if ((int)q.size() == size) flush();
    }
    void flush() {
        if (q.empty()) return;
        if (k++ % n == shard) {
            total += q.size();
            set_context("messages starting with " + mp::hex(q[0]));
            run(q);
        }
        q.clear();
    }
};
static void report(Batch& b, const char* what) {
    count_states(b.total);
    count_transitions(b.total * 2);
    if (!b.shard) sample(std::string(what) + ", " + std::to_string(b.k * b.size) + " in all");
}

// responses: A has a call outstanding whose id the partner knows
// a response with an id that is like the one of an outstanding call
static std::string similar_id(int k, const std::string& id) {
    std::string x = id;
    switch (k) {
    case 0: x += ' '; break;
    case 1: x += '\0'; break;
    case 2: x += '0'; break;
    case 3: x = ' ' + x; break;
    case 4: x = '\0' + x; break;
    case 5: x.pop_back(); break;
    case 6: x.erase(0, 1); break;
    case 7: x += x; break;
    case 8: x += '\n'; break;
    case 9: x = x.substr(0, x.find_last_of("_-") + 1); break;
    case 10: x = x.substr(x.find_last_of("_-") + 1); break;
    case 11: for (char& c : x) c = isupper(c) ? tolower(c) : toupper(c); break;
    case 12: x = string(x.c_str()) + string("\0x", 2); break;
    case 13: x += '_'; break;
    case 14: x[x.size() / 2] ^= 1; break;
    case 15: x[0] ^= 1; break;
    case 16: x.back() ^= 1; break;
    case 17: x = x + string(3000, ' '); break;
    }
    return mp::fixarr(4) + mp::num(1) + std::string("\xda") + (char)(x.size() >> 8) + (char)x.size() + x + mp::nil() + mp::num(5);
}

static void responses(std::vector<std::string>& q, int style, uint32_t msz = 4096) {
    run_inline([&] {
        Target t(8, msz);
        Cb c;
        shared_ptr<AsyncCallResult> fut;
        string id;
        static uint64_t sent;
        auto issue = [&] {
            if (style == 0) fut = t.a.asyncCall("P", 100000, "pf", 1);
            else t.a.asyncCall(c.fn(), "P", 100000, "pf", 1);
            settle(1);
            string m;
            VMC_CHECK(Target::take(t.pcall, m), "no-call", "the call did not reach the queue");
            Unchecked u;
            mp::Dec d{(const uint8_t*)m.data(), (const uint8_t*)m.data() + m.size()};
            Val v;
            VMC_CHECK(d.get(v) && v.t == Val::ARR && v.v.size() == 5 && v.v[1].t == Val::STR, "bad-call", "the call has an unexpected form: %s", mp::hex(m).c_str());
            id.assign(v.v[1].s.data(), v.v[1].s.size());
        };
        auto state = [&](bool& ok, int64_t& val) {  // 0 pending, 1 completed
            ok = false;
            val = -1;
            if (style == 0) {
                if (fut->second.wait_for(chrono::milliseconds(0)) != future_status::ready) return 0;
                CallResult r = fut->second.get();
                ok = r.isSuccess();
                if (ok) { int x = -999999; r.convertObject(x); val = x; }
                else VMC_CHECK(!r.errorMessage.empty(), "no-message", "a failure without a message");
                return 1;
            }
            VMC_CHECK(c.n.get() <= 1, "callback-count", "the callback ran %d times", c.n.get());
            if (!c.n.get()) return 0;
            ok = c.ok.get();
            val = ok ? c.val.get() : -1;
            return 1;
        };
        int64_t answer = 0;
        bool open = false;
        for (auto& tmpl : q) {
            if (!open) {
                c = Cb();
                issue();
                open = true;
            }
            // the placeholder of the id
            string m = tmpl;
            size_t at = m.find("@@@@@@@@");
            bool has_id = at != string::npos;
            if (m.compare(0, 2, "~~") == 0) m = similar_id(m[2] - 'a', id);
            if (has_id) {
                string full = id;
                // the placeholder has a 16 bit length in front of it: it is put in here if it is still intact
                m.replace(at, 8, full);
                if (at >= 3 && (uint8_t)m[at - 3] == 0xda && m[at - 2] == 0 && m[at - 1] == 8) m[at - 2] = (char)(full.size() >> 8), m[at - 1] = (char)full.size();
            }
            Val v;
            bool whole, exact, deep;
            {
                Unchecked u;
                mp::Dec d{(const uint8_t*)m.data(), (const uint8_t*)m.data() + m.size()};
                whole = d.get(v);
                exact = whole && d.p == d.e && d.max_depth < 1000;
                deep = d.too_deep;
            }
            auto text = [](const Val& v) { return v.t == Val::STR || v.t == Val::BIN; };
            bool mine = whole && v.t == Val::ARR && v.v.size() >= 2 && v.v[0].t == Val::UINT && v.v[0].u == 1 && text(v.v[1]) && v.v[1].s.size() == id.size() && !memcmp(v.v[1].s.data(), id.data(), id.size());
            bool proper = mine && exact && v.v.size() == 4;
            Target::put(t.aresp, m);
            settle(2);
            bool ok;
            int64_t val;
            if (state(ok, val)) {
                open = false;
                VMC_CHECK(mine || deep || (whole && !exact), "completed-by-garbage", "message %s completed a call it does not name", mp::hex(m).c_str());
                if (ok && mine) {
                    VMC_CHECK(v.v.size() >= 4 && (v.v[2].t == Val::NIL || (text(v.v[2]) && v.v[2].s.empty())), "made-up-result", "message %s completed a call successfully", mp::hex(m).c_str());
                    const Val& r = v.v[3];
                    int64_t want = r.t == Val::UINT && r.u < 2147483648u ? (int64_t)r.u : r.t == Val::INT && r.i >= -2147483648ll ? r.i : style == 0 ? -999999 : 77777;
                    VMC_CHECK(val == want, "wrong-result", "message %s gave the result %lld instead of %lld", mp::hex(m).c_str(), (long long)val, (long long)want);
                }
                if (proper && v.v[2].t == Val::STR && !v.v[2].s.empty()) VMC_CHECK(!ok, "unexpected-success", "an error response made the call succeed");
                if (proper && v.v[2].t == Val::NIL) VMC_CHECK(ok, "call-failed", "a proper response made the call fail");
                continue;
            }
            VMC_CHECK(!proper, "not-completed", "a proper response did not complete the call: %s", mp::hex(m).c_str());
            // the proper one completes it
            answer = answer % 100 + 1;
            string good = mp::fixarr(4) + mp::num(1) + string("\xda") + (char)(id.size() >> 8) + (char)id.size() + id + mp::nil() + mp::num(answer);
            Target::put(t.aresp, good);
            settle(1);
            VMC_CHECK(state(ok, val) && ok && val == answer, "next-response", "the response after message %s did not complete the call", mp::hex(m).c_str());
            open = false;
            // once more: unsolicited now
            if (sent++ % 8 == 0) {
                Target::put(t.aresp, good);
                settle(1);
            }
        }
        // calls served meanwhile
        CallResult r = t.a.syncCall("A", 1000, "fis", 4, string("abc"));
        must_be(r, 7, "a call of itself");
    });
}

static void c14() {
    Search s;
    s.name = "C14.call_variants";
    s.note = "every truncation, every replaced, inserted or removed byte of calls, each followed by a correct call";
    s.fn = [](int shard, int n, bool thorough) {
        Batch b{{}, [](std::vector<std::string>& q) { run_inline([&] { Target t; for (auto& m : q) one_call(t, m); }); }, shard, n};
        for (int k = 0; k < NBASE; k++) variants(bases(k), thorough && bases(k).size() < 45, [&](const std::string& m) { b.add(m); });
        b.flush();
        report(b, "variants of calls");
    };
    add_search(s);
    s.name = "C14.call_specials";
    s.note = "every message of one and two bytes, every two bytes in every place of a call, nesting, sizes";
    s.fn = [](int shard, int n, bool thorough) {
        Batch b{{}, [](std::vector<std::string>& q) { run_inline([&] { Target t; for (auto& m : q) one_call(t, m); }); }, shard, n, 12};
        specials(thorough, [&](const std::string& m) { b.add(m); });
        b.flush();
        report(b, "short messages, any bytes in any place, nestings");
    };
    add_search(s);
    s.name = "C14.call_pairs";
    s.note = "every pair of message classes without a correct call between them";
    s.fn = [](int shard, int n, bool thorough) {
        using namespace mp;
        std::vector<std::string> cls;
        for (int k = 0; k < NBASE; k++) cls.push_back(bases(k));
        const std::string b0 = bases(0);
        for (size_t k : {1, 2, 5, 8, 11, 13, 14}) cls.push_back(b0.substr(0, k));
        for (const char* x : {"\xc1", "\xdd\xff\xff\xff\xff", "\xdb\xff\xff\xff\xff", "\xdf\xff", "\xa5", "\x95", "\x91\x91\x91", "\xff"}) cls.push_back(x);
        cls.push_back(std::string(2000, '\x91'));
        cls.push_back(std::string(200, '\xc0'));
        cls.push_back(b0 + b0.substr(0, 6));
        cls.push_back(b0 + "\xc1");
        int c = cls.size();
        if (!shard) sample(std::to_string(c) + " classes of messages, all pairs and" + (thorough ? "" : " some") + " triples");
        int k = 0;
        for (int i = 0; i < c; i++)
            for (int j = 0; j < c; j++) {
                if (k++ % n != shard) continue;
                run_inline([&] {
                    Target t;
                    for (int l = -1; l < (thorough ? c : 1); l++) {
                        set_context("messages " + hex(cls[i]) + " and " + hex(cls[j]));
                        Target::put(t.acall, cls[i]);
                        Target::put(t.acall, cls[j]);
                        if (l >= 0 && thorough) Target::put(t.acall, cls[l]);
                        Target::put(t.acall, cls[(i + j) % c]);
                        settle(4);
                        one_call(t, cls[j]);
                        settle(2);
                        string r;
                        while (Target::take(t.presp, r)) {}
                    }
                });
                count_states(thorough ? c + 1 : 2);
                count_transitions(5);
            }
    };
    add_search(s);
    for (int style = 0; style < 2; style++) {
        s.name = style ? "C14.responses_callback" : "C14.responses_promise";
        s.note = "every truncation, every replaced, inserted or removed byte of responses to an outstanding call";
        s.fn = [style](int shard, int n, bool thorough) {
            using namespace mp;
            Batch b{{}, [style](std::vector<std::string>& q) { responses(q, style); }, shard, n, 8};
            const std::string ID = std::string("\xda\x00\x08", 3) + "@@@@@@@@";
            auto rsp = [&](const std::string& e, const std::string& r) { return fixarr(4) + num(1) + ID + e + r; };
            for (auto& base : {rsp(nil(), num(77)), rsp(nil(), num(-70000)), rsp(str("an error"), nil()), rsp(str("both"), num(4)), rsp(nil(), fixarr(2) + num(1) + str("x")), rsp(num(5), nil()), rsp("\xc3", num(3))})
                variants(base, thorough && style == 0, [&](const std::string& m) { b.add(m); });
            for (int x = 0; x < 256; x++)
                for (int y = 0; y < 256; y += thorough ? 1 : 3) {
                    std::string v = std::string(1, (char)x) + (char)y;
                    b.add(v);
                    b.add(rsp(nil(), v));
                    b.add(rsp(v, nil()));
                    b.add(fixarr(4) + v + ID + nil() + num(1));
                    b.add(fixarr(4) + num(1) + v + nil() + num(1));
                }
            for (int k = 0; k < 9; k++) {
                std::string m = fixarr(k);
                const std::string e[] = {num(1), ID, nil(), num(7), nil(), nil(), nil(), nil(), nil()};
                for (int j = 0; j < k; j++) m += e[j];
                b.add(m);
            }
            for (int d : {1, 30, 500, 1000, 1020, 1021, 1022, 1023, 1024, 1025, 2000, 3900})
                for (uint8_t x : {0x91, 0x81}) {
                    std::string nst;
                    for (int k = 0; k < (x == 0x81 ? d / 2 + 1 : d); k++) nst += x == 0x81 ? std::string("\x81\x01") : std::string(1, (char)x);
                    b.add(rsp(nil(), nst + num(1)));
                    b.add(rsp(nst + num(1), nil()));
                    b.add(nst);
                }
            for (int k = 0; k < 18; k++) b.add(string("~~") + (char)('a' + k));
            b.add(resp("", nil(), num(1)));
            b.add(resp("unknown", nil(), num(1)));
            b.add(resp(std::string(3000, 'u'), nil(), num(1)));
            b.add(bases(0));
            b.flush();
            report(b, "variants of responses");
        };
        add_search(s);
    }
    s.name = "C14.deep";
    s.note = "nesting deeper than any stack is, in calls and in responses";
    s.fn = [](int shard, int n, bool thorough) {
        using namespace mp;
        const int D[] = {1, 31, 500, 1000, 1020, 1023, 1024, 1025, 1100, 1500, 1900, 2000, 4000, 10000, 30000, 60000};
        const std::string ID = std::string("\xda\x00\x08", 3) + "@@@@@@@@";
        int k = 0, did = 0;
        for (int d : D)
            for (int kind = 0; kind < 3; kind++)
                for (int place = 0; place < 7; place++) {
                    if (k++ % n != shard) continue;
                    std::string nst;
                    for (int l = 0; l < d; l++) nst += kind == 0 ? "\x91" : kind == 1 ? "\x81\x01" : "\x92\xc0";
                    nst += num(1);
                    if (nst.size() > 64000) nst = nst.substr(0, 64000);
                    set_context(std::to_string(d) + " levels, kind " + std::to_string(kind) + ", place " + std::to_string(place));
                    std::vector<std::string> q;
                    if (place >= 4) {
                        q.push_back(place == 4 ? fixarr(4) + num(1) + ID + nil() + nst : place == 5 ? fixarr(4) + num(1) + ID + nst + nil() : fixarr(4) + num(1) + nst + nil() + nil());
                        for (int style = 0; style < 2; style++) responses(q, style, 65536), did++;
                        continue;
                    }
                    // to a function that takes anything; no function; a function of another type; in place of the name
                    q.push_back(place == 0   ? call("i", "P", "fo", fixarr(1) + nst)
                                : place == 1 ? call("i", "P", "none", fixarr(1) + nst)
                                : place == 2 ? call("i", "P", "fv", fixarr(1) + nst)
                                             : fixarr(5) + num(0) + str("i") + str("P") + nst + fixarr(0));
                    run_inline([&] { Target t(8, 65536); for (auto& m : q) one_call(t, m); });
                    did++;
                }
        count_states(did);
        count_transitions(2 * did);
        if (!shard) sample("1 to 60000 levels of arrays, maps and arrays of two in 7 places of calls and responses");
    };
    add_search(s);
    // duplicates, at the same time
    add(scn("C14.duplicates", 2, 3, [] {
        window(false);
        Target t;
        Cb c;
        t.a.asyncCall(c.fn(), "P", 100000, "pf", 1);
        auto fut = t.a.asyncCall("P", 100000, "pf", 2);
        settle(1);
        string id[2], m;
        for (int i = 0; i < 2; i++) {
            VMC_CHECK(Target::take(t.pcall, m), "no-call", "the call did not reach the queue");
            Unchecked u;
            mp::Dec d{(const uint8_t*)m.data(), (const uint8_t*)m.data() + m.size()};
            Val v;
            VMC_CHECK(d.get(v) && v.t == Val::ARR && v.v.size() == 5 && v.v[4].v.size() == 1, "bad-call", "form of the call");
            int k = v.v[4].v[0].u == 2;
            id[k].assign(v.v[1].s.data(), v.v[1].s.size());
        }
        window(true);
        for (int k = 0; k < 2; k++)
            for (int i = 0; i < 2; i++) {
                string s = id[k];
                Target::put(t.aresp, mp::fixarr(4) + mp::num(1) + mp::str(s) + mp::nil() + mp::num(10 * k + i));
            }
        CallResult r = await(fut, 1000, "promise");
        VMC_CHECK(r.isSuccess() && (num(r) == 10 || num(r) == 11), "wrong-result", "%d", num(r));
        VMC_CHECK(c.n.wait(1, 1000), "never-completed", "the callback did not run");
        window(false);
        settle(50);
        c.once("duplicated response");
        VMC_CHECK(c.val.get() <= 1, "wrong-result", "%d", c.val.get());
        CallResult r2 = t.a.syncCall("A", 1000, "fis", 4, string("abc"));
        must_be(r2, 7, "a call of itself");
    }));
}
int main(int argc, char** argv) {
    c14();
    return main_run(argc, argv, "bounded exhaustive enumeration of message contents");
}
