#include "duo.h"
#include <deque>
#include <list>
#include <map>
#include <optional>
#include <set>
#include <string_view>
#include <unordered_map>

struct Thrown {
    int x;
};
struct Unpackable {  // an argument or result that can not be serialised
    template <typename P>
    void msgpack_pack(P&) const { throw runtime_error("can not be packed"); }
    template <typename Z>
    void msgpack_object(Z*, veigar_msgpack::zone&) const { throw runtime_error("can not be packed"); }
    void msgpack_unpack(veigar_msgpack::object const&) {}
};
static void bind_throwers(Veigar& v, Counter* runs) {
    v.bind("t_std", [](int) -> int { throw runtime_error("some text"); });
    v.bind("t_empty", [](int) -> int { throw runtime_error(""); });
    v.bind("t_pct", [](int) -> int { throw runtime_error("100%s %n %d"); });
    v.bind("t_int", [](int) -> int { throw 5; });
    v.bind("t_cstr", [](int) -> int { throw "text"; });
    v.bind("t_obj", [](int) -> int { throw Thrown{1}; });
    v.bind("t_str", [](int) -> int { throw string("a string"); });
    v.bind("t_void", [](int) { throw logic_error("from a void function"); });
    v.bind("t_long", [](int) -> int { throw runtime_error(string(600, 'x')); });
    v.bind("t_longer", [](int) -> int { throw runtime_error(string(1023 + 7, 'y')); });
    v.bind("t_longest", [](int) -> int { throw runtime_error(string(4200, 'z')); });
    v.bind("t_bytes", [](int) -> int { throw runtime_error(string("\xff\x80%", 3)); });
    v.bind("t_bad_alloc", [](int) -> int { throw bad_alloc(); });
    v.bind("v0", [runs]() { (*runs)++; });
    v.bind("v1", [runs](int) { (*runs)++; });
    v.bind("r0", [runs]() { (*runs)++; return 7; });
    v.bind("s1", [runs](string s) { (*runs)++; return (int)s.size(); });
    v.bind("vec", [runs](vector<int> s) { (*runs)++; return (int)s.size(); });
    v.bind("t_result", [](int) { return Unpackable(); });
    v.bind("u8", [runs](uint8_t s) { (*runs)++; return (int)s; });
}
static const int NBAD = 36;
// issues the k-th faulty call in the given style
template <class... A>
static CallResult styled(Veigar& a, int style, const char* fn, A... args) {
    if (style == 0) return a.syncCall("B", 1000, fn, args...);
    if (style == 1) {
        auto p = a.asyncCall("B", 1000, fn, args...);
        CallResult r = await(p, 3000, fn);
        a.releaseCall(p->first);
        return r;
    }
    Counter n;
    CallResult out;
    a.asyncCall(
        [&](const CallResult& r) {
            out.errCode = r.errCode;
            out.errorMessage = r.errorMessage;
            if (r.isSuccess() && !r.obj.get().is_nil()) out.obj = veigar_msgpack::clone(r.obj.get());
            n++;
        },
        "B", 1000, fn, args...);
    VMC_CHECK(n.wait(1, 3000), "never-completed", "the callback of a call of %s did not run", fn);
    return out;
}
static CallResult bad_call(Veigar& a, int style, int k) {
    switch (k) {
        case 0: return styled(a, style, "no_such", 1);
        case 1: return styled(a, style, "", 1);
        case 2: return styled(a, style, "unbound", 1);
        case 3: return styled(a, style, "t_std", 1);
        case 4: return styled(a, style, "t_empty", 1);
        case 5: return styled(a, style, "t_pct", 1);
        case 6: return styled(a, style, "t_int", 1);
        case 7: return styled(a, style, "t_cstr", 1);
        case 8: return styled(a, style, "t_obj", 1);
        case 9: return styled(a, style, "t_str", 1);
        case 10: return styled(a, style, "t_void", 1);
        case 11: return styled(a, style, "t_bad_alloc", 1);
        case 12: return styled(a, style, "t_long", 1);
        case 13: return styled(a, style, "add");                // no arguments
        case 14: return styled(a, style, "add", 1);             // too few
        case 15: return styled(a, style, "add", 1, 2, 3);       // too many
        case 16: return styled(a, style, "nop", 1);             // one for a function without arguments
        case 17: return styled(a, style, "v0", 1);
        case 18: return styled(a, style, "r0", 1);
        case 19: return styled(a, style, "v1");
        case 20: return styled(a, style, "v1", 1, 2);
        case 21: return styled(a, style, "add", string("x"), 2);  // wrong types
        case 22: return styled(a, style, "add", 1, string("2"));
        case 23: return styled(a, style, "s1", 5);
        case 24: return styled(a, style, "vec", 5);
        case 25: return styled(a, style, "vec", vector<string>{"a"});
        case 26: return styled(a, style, "u8", 256);            // out of range
        case 27: return styled(a, style, "u8", -1);
        case 28: return styled(a, style, "v1", 1.5);
        case 29: return styled(a, style, "s1", vector<int>{1, 2});
        case 30: return styled(a, style, "v1", Unpackable());
        case 31: return styled(a, style, "t_result", 1);
        case 32: return styled(a, style, "t_longer", 1);
        case 33: return styled(a, style, "t_longest", 1);
        case 34: return styled(a, style, "t_bytes", 1);
        case 35: return styled(a, style, string(1200, 'u').c_str(), 1);
    }
    abort();
}

// ---- every parameter type against every kind of argument: a call succeeds only if the function got what was sent
static string rep(bool v) { return v ? "true" : "false"; }
static string num(double v) {
    char b[64];
    snprintf(b, sizeof b, "%.17g", v);
    return b;
}
template <class T>
static enable_if_t<is_integral<T>::value, string> rep(T v) { return v < 0 ? to_string((long long)v) : to_string((unsigned long long)v); }
static string rep(float v) { return num(v); }
static string rep(double v) { return num(v); }
static string rep(const string& v) { return "'" + v + "'"; }
static string rep(string_view v) { return "'" + string(v) + "'"; }
static string rep(const vector<char>& v) { return "'" + string(v.begin(), v.end()) + "'"; }
static string rep(const vector<unsigned char>& v) { return "'" + string(v.begin(), v.end()) + "'"; }
static string rep(const veigar_msgpack::type::nil_t&) { return "nil"; }
template <class T>
static string rep(const optional<T>& v);
template <class A, class B>
static string rep(const map<A, B>& v);
template <class A, class B>
static string rep(const unordered_map<A, B>& v);
template <class C>
static auto rep(const C& v) -> decltype(v.begin(), string()) {
    string r = "[";
    for (const auto& x : v) r += rep(static_cast<typename C::value_type>(x)) + ",";
    return r + "]";
}
template <class M>
static string repmap(const M& v) {
    string r = "{";
    for (const auto& x : v) r += rep(x.first) + ":" + rep(x.second) + ",";
    return r + "}";
}
template <class A, class B>
static string rep(const map<A, B>& v) { return repmap(v); }
template <class A, class B>
static string rep(const unordered_map<A, B>& v) { return repmap(v); }
template <class T>
static string rep(const optional<T>& v) { return v ? rep(*v) : "nil"; }

struct Param {
    const char* type;
    function<void(Veigar&, string*)> bind;
};
template <class T>
static Param param(const char* type) {
    return Param{type, [](Veigar& v, string* got) { v.bind("p", [got](T x) { *got = "got " + rep(x); return 1; }); }};
}
static void type_matrix() {
    static const vector<Param> P = {param<bool>("bool"), param<char>("char"), param<int8_t>("int8_t"), param<uint8_t>("uint8_t"), param<int16_t>("int16_t"), param<uint16_t>("uint16_t"),
        param<int>("int"), param<uint32_t>("uint32_t"), param<int64_t>("int64_t"), param<uint64_t>("uint64_t"), param<wchar_t>("wchar_t"), param<float>("float"), param<double>("double"),
        param<string>("string"), param<vector<char>>("vector<char>"), param<vector<unsigned char>>("vector<unsigned char>"), param<vector<int>>("vector<int>"),
        param<vector<string>>("vector<string>"), param<list<int>>("list<int>"), param<deque<int>>("deque<int>"), param<set<int>>("set<int>"), param<vector<bool>>("vector<bool>"),
        param<map<string, int>>("map<string,int>"), param<map<int, int>>("map<int,int>"), param<unordered_map<string, int>>("unordered_map<string,int>"),
        param<optional<int>>("optional<int>"), param<optional<string>>("optional<string>"), param<vector<vector<int>>>("vector<vector<int>>"), param<vector<double>>("vector<double>")};
    const Param& p = P[choose((int)P.size(), "parameter type")];
    window(false);
    Veigar a;
    string got;
    p.bind(a, &got);
    VMC_CHECK(a.init("A", 8, 256), "init-failed", "A");
    auto one = [&](const auto& arg) {
        got = "nothing";
        CallResult r = a.syncCall("A", 1000, "p", arg);
        string sent = rep(arg);
        if (r.isSuccess()) {
            // "" and no bytes, a whole number for a floating point parameter: the same value
            VMC_CHECK(got == "got " + sent, "ran-with-wrong-arguments", "a function with a parameter of type %s was called with %s, it %s, and the call succeeded", p.type, sent.c_str(), got.c_str());
        } else {
            must_fail(r, "argument of another type");
            VMC_CHECK(got == "nothing" || got == "got " + sent, "ran-with-wrong-arguments", "a function with a parameter of type %s was called with %s, it %s", p.type, sent.c_str(), got.c_str());
        }
    };
    one(veigar_msgpack::type::nil_t());
    one(true);
    one(false);
    for (int64_t v : vector<int64_t>{INT64_MIN, INT64_MIN + 1, -4294967297ll, -4294967296ll, -2147483649ll, -2147483648ll, -65536ll, -32769ll, -32768ll, -257ll, -256ll, -255ll, -129ll, -128ll, -33ll, -32ll, -1ll, 0ll, 1ll, 2ll, 10ll, 32ll, 127ll, 128ll,
                      255ll, 256ll, 257ll, 32767ll, 32768ll, 65535ll, 65536ll, 65537ll, 8388608ll, 1114112ll, 2147483647ll, 2147483648ll, 4294967295ll, 4294967296ll, 4294967297ll, 4503599627370496ll})
        if ((strcmp(p.type, "float") || (v > -(1 << 24) && v < (1 << 24))) && (strcmp(p.type, "double") || v > -(1ll << 53))) one(v);  // the others round
    if (strcmp(p.type, "float") && strcmp(p.type, "double")) {  // these round
        one((int64_t)INT64_MAX);
        one((uint64_t)INT64_MAX + 1);
        one((uint64_t)INT64_MAX + 2);
        one((uint64_t)UINT64_MAX);
    }
    for (double v : {0.0, 1.0, 1.5, -1.0, -0.5, 255.0, 256.0, 1e10}) {
        one(v);
        one((float)v == v ? (float)v : 2.0f);
    }
    if (strcmp(p.type, "float")) one(0.1), one(1e300);
    for (const char* v : {"", "1", "a", "true", "nil", "abc", "\xff\xfe"}) {
        one(string(v));
        one(vector<char>(v, v + strlen(v)));
    }
    one(string(300, 'z'));
    one(vector<int>{});
    one(vector<int>{0});
    one(vector<int>{1, 2});
    one(vector<int>{65, 66, 300});
    one(vector<int>{-1, 5});
    one(vector<double>{1.5});
    one(vector<string>{"a"});
    one(vector<string>{"", "b"});
    one(vector<bool>{true, false});
    one(vector<vector<int>>{{}});
    one(vector<vector<int>>{{1}, {2, 3}});
    one(map<string, int>{});
    one(map<string, int>{{"a", 1}});
    one(map<int, int>{{1, 2}, {3, 4}});
    one(map<int, string>{{1, "x"}});
    one(map<string, vector<int>>{{"k", {1}}});
    a.uninit();
}
static void c05() {
    {
        Scenario m = scn("C05.types", 0, 0, type_matrix, NO_RACES, 40, 200, 200000);
        add(m);
    }
    // every faulty call in every style, then another one, then correct calls
    for (int deep = 0; deep < 2; deep++)
        add(scn(deep ? "C05.pairs" : "C05.each", deep ? 0 : 1, deep ? 0 : 2, [deep] {
            Duo d(8, 1024);
            Counter runs;
            Peer C;
            d.B.finish();
            C.start("B", [&](Veigar& v) {
                d.bind(v);
                bind_throwers(v, &runs);
                v.bind("unbound", [&](int) { runs++; return 1; });
                v.unbind("unbound");
            }, 8, 1024);
            d.runs.add(0);
            int n = deep ? 2 : 1;
            for (int i = 0; i < n; i++) {
                int k = choose(NBAD, "faulty call"), st = choose(3, "style");
                window(!deep);
                CallResult r = bad_call(d.a, st, k);
                VMC_CHECK(!r.isSuccess(), "unexpected-success", "faulty call %d succeeded", k);
                VMC_CHECK(!r.errorMessage.empty(), "no-message", "faulty call %d: no message", k);
                VMC_CHECK(runs.get() == 0 && d.runs.get() == 0, "ran-with-wrong-arguments", "a function ran although faulty call %d did not provide its arguments", k);
                window(false);
            }
            CallResult r = d.a.syncCall("B", 1000, "add", 3, 4);
            must_be(r, 304, "call after a faulty one");
            CallResult r2 = styled(d.a, 2, "s1", string("four"));
            must_be(r2, 4, "call after a faulty one");
            CallResult r3 = d.a.syncCall("B", 1000, "nop");
            VMC_CHECK(r3.isSuccess(), "call-failed", "nop: %s", r3.errorMessage.c_str());
            window(false);
            d.a.uninit();
            C.finish();
        }, NO_RACES, deep ? 60 : 40, 240));
    // a faulty call next to correct ones
    add(scn("C05.concurrent", 1, 2, [] {
        Duo d(8, 1024);
        Counter runs;
        d.B.finish();
        Peer C;
        C.start("B", [&](Veigar& v) { d.bind(v); bind_throwers(v, &runs); }, 8, 1024);
        static const int ks[] = {0, 3, 8, 14, 15, 21};
        int k = ks[choose(6, "faulty call")];
        window(true);
        thread t([&] {
            CallResult r = bad_call(d.a, 0, k);
            must_fail(r, "faulty");
        });
        CallResult r = d.a.syncCall("B", TOUT, "f", 3);
        must_be(r, 1003, "correct call");
        t.join();
        window(false);
        VMC_CHECK(runs.get() == 0 && d.runs.get() == 1, "ran-with-wrong-arguments", "%d %d", runs.get(), d.runs.get());
        d.a.uninit();
        C.finish();
    }));
}

int main(int argc, char** argv) {
    c05();
    return main_run(argc, argv, "stateless model checking of the implementation");
}
