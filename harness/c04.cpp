// Compiled once for every PART (check.py): the types are many and each is instantiated in every layer of the library.
#include "c04.h"
void types1();
void types2();
void types3();
void types4();
void types5();
void types6();
void types7();

#if PART == 0
// ------------------------------------------------------------------------- integers of different types
template <class S, class D>
static void int_pair(Veigar& a, const char* s, const char* d, uint64_t& total) {
    static int ran;
    static D got;
    a.unbind("c");
    a.bind("c", [](D x) {
        ran++;
        got = x;
        return x;
    });
    for (S v : few<S>()) {
        for (int off = -1; off < 2; off++) {
            S x = (S)((unsigned long long)v + (unsigned long long)off);
            ran = 0;
            CallResult r = a.syncCall("A", 1000, "c", x);
            bool fits = x < 0 ? numeric_limits<D>::is_signed && (int64_t)x >= (int64_t)numeric_limits<D>::min() : (uint64_t)x <= (uint64_t)numeric_limits<D>::max();
            if (fits) {
                VMC_CHECK(r.isSuccess() && ran == 1 && got == (D)x, "argument-changed", "%s to %s: %lld", s, d, (long long)x);
                VMC_CHECK(r.obj.get().as<S>() == x, "result-changed", "%s to %s: %lld", s, d, (long long)x);
            } else {
                VMC_CHECK(ran == 0, "argument-changed", "%s %lld reached a function that takes %s as %lld", s, (long long)x, d, (long long)got);
                must_fail(r, "a value that does not fit");
            }
            // the result, wanted as another type
            D back = 0;
            bool conv = r.isSuccess() && r.convertObject(back);
            if (r.isSuccess()) VMC_CHECK(conv && back == got, "result-changed", "%s to %s: %lld", s, d, (long long)x);
            total++;
        }
    }
}
template <class S>
static void int_from(Veigar& a, const char* s, uint64_t& total) {
    int_pair<S, int8_t>(a, s, "int8_t", total);
    int_pair<S, uint8_t>(a, s, "uint8_t", total);
    int_pair<S, int16_t>(a, s, "int16_t", total);
    int_pair<S, uint16_t>(a, s, "uint16_t", total);
    int_pair<S, int>(a, s, "int", total);
    int_pair<S, unsigned>(a, s, "unsigned", total);
    int_pair<S, long>(a, s, "long", total);
    int_pair<S, unsigned long>(a, s, "unsigned long", total);
    int_pair<S, long long>(a, s, "long long", total);
    int_pair<S, unsigned long long>(a, s, "unsigned long long", total);
    int_pair<S, char>(a, s, "char", total);
    int_pair<S, wchar_t>(a, s, "wchar_t", total);
}

// ------------------------------------------------------------------------------------ numbers of arguments
template <size_t I>
using Arg = conditional_t<I % 4 == 0, int, conditional_t<I % 4 == 1, string, conditional_t<I % 4 == 2, double, vector<uint8_t>>>>;
template <size_t I>
static Arg<I> arg(int seed) {
    int x = (int)(I * 1000003) + seed * 77;
    if constexpr (I % 4 == 0) return x;
    else if constexpr (I % 4 == 1) return to_string(x);
    else if constexpr (I % 4 == 2) return x / 8.0;
    else return vector<uint8_t>(I % 40, (uint8_t)x);
}
static int g_args, g_seed;
template <size_t... I>
static void with_args(Veigar& a, index_sequence<I...>, bool self, int seed) {
    (void)self;
    auto f = [](Arg<I>... x) {
        Unchecked u;
        bool ok = true;
        int d[] = {0, (ok = ok && x == arg<I>(g_seed), 0)...};
        (void)d;
        g_args = ok ? (int)sizeof...(I) : -1;
        return (int)sizeof...(I);
    };
    auto g = [](const Arg<I>&... x) {
        Unchecked u;
        bool ok = true;
        int d[] = {0, (ok = ok && x == arg<I>(g_seed), 0)...};
        (void)d;
        g_args = ok ? (int)sizeof...(I) : -1;
    };
    const string nf = "f" + to_string(sizeof...(I)), ng = "g" + to_string(sizeof...(I));
    a.bind(nf, f);
    a.bind(ng, g);
    g_seed = seed;
    g_args = -2;
    CallResult r = a.syncCall("A", 1000, nf, arg<I>(seed)...);
    must_be(r, sizeof...(I), "many arguments");
    VMC_CHECK(g_args == (int)sizeof...(I), "argument-changed", "%d arguments: %d", (int)sizeof...(I), g_args);
    g_args = -2;
    auto p = a.asyncCall("A", 1000, ng, arg<I>(seed)...);
    r = await(p, 1000, "many arguments");
    VMC_CHECK(r.isSuccess() && r.obj.get().is_nil(), "call-failed", "%d arguments, no result", (int)sizeof...(I));
    VMC_CHECK(g_args == (int)sizeof...(I), "argument-changed", "%d arguments: %d", (int)sizeof...(I), g_args);
    a.releaseCall(p->first);
}
template <size_t... N>
static void arg_counts(Veigar& a, int seed, index_sequence<N...>) {
    int d[] = {(with_args(a, make_index_sequence<N>(), true, seed), 0)...};
    (void)d;
}

// ------------------------------------------------------------------------------------------ kinds of functions
static int plain(int a, string b) { return a + (int)b.size(); }
static string g_text;
static const string& ref_result(const string& s) {
    g_text = s + s;
    return g_text;
}
struct Functor {
    int k;
    int operator()(int x) const { return x * k; }
};
struct Mutable {
    int n = 0;
    int operator()(int x) { return x + ++n; }
};
struct Obj {
    int k = 3;
    int add(int x) const { return x + k; }
};

static void c04() {
    Search s;
    s.name = "C04.integer_conversions";
    s.note = "every pair of integer types, boundary values: the same value or an error";
    s.fn = [](int shard, int n, bool) {
        uint64_t total = 0;
        int k = 0;
        auto one = [&](const function<void(Veigar&)>& f) {
            if (k++ % n != shard) return;
            run_inline([&] {
                Veigar a;
                VMC_CHECK(a.init("A", 8, 512), "init-failed", "A");
                f(a);
                a.uninit();
            }, 20000, NO_RACES);
        };
        one([&](Veigar& a) { int_from<int8_t>(a, "int8_t", total); });
        one([&](Veigar& a) { int_from<uint8_t>(a, "uint8_t", total); });
        one([&](Veigar& a) { int_from<int16_t>(a, "int16_t", total); });
        one([&](Veigar& a) { int_from<uint16_t>(a, "uint16_t", total); });
        one([&](Veigar& a) { int_from<int>(a, "int", total); });
        one([&](Veigar& a) { int_from<unsigned>(a, "unsigned", total); });
        one([&](Veigar& a) { int_from<long>(a, "long", total); });
        one([&](Veigar& a) { int_from<unsigned long>(a, "unsigned long", total); });
        one([&](Veigar& a) { int_from<char>(a, "char", total); });
        one([&](Veigar& a) { int_from<wchar_t>(a, "wchar_t", total); });
        count_states(total);
        count_transitions(total);
        if (!shard) sample("10 x 12 pairs of integer types");
    };
    add_search(s);

    s.name = "C04.argument_counts";
    s.note = "0 to 8 and up to 33 arguments of four types, by value and by reference";
    s.fn = [](int shard, int n, bool) {
        for (int seed = shard; seed < 16; seed += n) {
            run_inline([&] {
                Veigar a;
                VMC_CHECK(a.init("A", 8, 2048), "init-failed", "A");
                arg_counts(a, seed, index_sequence<0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 14, 15, 16, 17, 33>());
                a.uninit();
            }, 20000, NO_RACES);
            count_states(30);
            count_transitions(30);
        }
        if (!shard) sample("15 numbers of arguments, 16 sets of values");
    };
    add_search(s);

    s.name = "C04.functions";
    s.note = "pointers, functors, std::function, member functions, references, C strings and views";
    s.fn = [](int shard, int n, bool) {
        if (shard) return;
        run_inline([&] {
            Veigar a;
            VMC_CHECK(a.init("A", 8, 2048), "init-failed", "A");
            Obj o;
            a.bind("plain", &plain);
            a.bind("ref", &ref_result);
            a.bind("functor", Functor{7});
            a.bind("mutable", Mutable{});
            a.bind("std", std::function<string(string, int)>([](string s, int k) { return s + to_string(k); }));
            a.bind("member", [&o](int x) { return o.add(x); });
            a.bind("cref", [](const vector<string>& v, const string& s) { return s + v[0]; });
            a.bind("ptr", []() { return "a C string"; });
            a.bind("uptr", []() { return std::unique_ptr<string>(new string("owned")); });
            a.bind("object", [](veigar_msgpack::object x) { return x; });
            a.bind("many", []() { return vector<string>(300, string(40, 'q')); });
            CallResult r = a.syncCall("A", 1000, "plain", 4, "text");
            must_be(r, 8, "plain");
            r = a.syncCall("A", 1000, "functor", 6);
            must_be(r, 42, "functor");
            r = a.syncCall("A", 1000, "member", 6);
            must_be(r, 9, "member");
            auto text = [&](CallResult r, const string& want, const char* who) {
                VMC_CHECK(r.isSuccess(), "call-failed", "%s: %s", who, r.errorMessage.c_str());
                string g;
                VMC_CHECK(r.convertObject(g) && g == want, "result-changed", "%s: '%s' instead of '%s'", who, g.c_str(), want.c_str());
            };
            text(a.syncCall("A", 1000, "ref", string("ab")), "abab", "reference to a string");
            text(a.syncCall("A", 1000, "std", "k", 12), "k12", "std::function");
            text(a.syncCall("A", 1000, "ptr"), "a C string", "C string");
            text(a.syncCall("A", 1000, "uptr"), "owned", "unique_ptr");
            text(a.syncCall("A", 1000, "cref", vector<string>{"x", "y"}, "k"), "kx", "const references");
            const char* cs = "C";
            char buf[] = "array";
            a.bind("strs", [](string a, string b, string c) { return a + "|" + b + "|" + c; });
            text(a.syncCall("A", 1000, "strs", cs, buf, "lit"), "C|array|lit", "C strings");
            r = a.syncCall("A", 1000, "object", map<string, int>{{"k", 4}});
            VMC_CHECK(r.isSuccess() && (r.obj.get().as<map<string, int>>() == map<string, int>{{"k", 4}}), "result-changed", "an object");
            r = a.syncCall("A", 1000, "many");
            VMC_CHECK(r.isSuccess() && r.obj.get().as<vector<string>>() == vector<string>(300, string(40, 'q')), "result-changed", "a large result");
            // the variable that takes the result has an old value
            a.bind("none", []() { return optional<int>(); });
            a.bind("one", []() { return vector<int>{1}; });
            a.bind("void", []() {});
            optional<int> oi = 5;
            vector<int> vi = {7, 8, 9};
            map<string, int> mi = {{"old", 1}};
            optional<string> os = string("old");
            int pi = 5;
            r = a.syncCall("A", 1000, "none");
            VMC_CHECK(r.isSuccess() && r.convertObject(oi) && !oi, "result-changed", "no value kept the old one");
            VMC_CHECK(r.convertObject(os) && !os, "result-changed", "no value kept the old one");
            VMC_CHECK(!r.convertObject(pi), "result-changed", "no value was converted to a number");
            r = a.syncCall("A", 1000, "one");
            VMC_CHECK(r.isSuccess() && r.convertObject(vi) && vi == vector<int>{1}, "result-changed", "a vector over an old one");
            VMC_CHECK(!r.convertObject(pi) && !r.convertObject(mi), "result-changed", "a vector was converted to something else");
            r = a.syncCall("A", 1000, "object", map<string, int>{{"k", 4}});
            VMC_CHECK(r.isSuccess() && r.convertObject(mi) && (mi == map<string, int>{{"k", 4}}), "result-changed", "a map over an old one");
            r = a.syncCall("A", 1000, "void");
            VMC_CHECK(r.isSuccess() && !r.convertObject(pi) && !r.convertObject(vi), "result-changed", "the result of a void function was converted");
            // the result stays when others come
            vector<CallResult> keep;
            for (int i = 0; i < 40; i++) keep.push_back(a.syncCall("A", 1000, "std", string(i * 20, (char)('a' + i % 26)), i));
            for (int i = 0; i < 40; i++) {
                string g;
                VMC_CHECK(keep[i].isSuccess() && keep[i].convertObject(g) && g == string(i * 20, (char)('a' + i % 26)) + to_string(i), "result-changed", "an earlier result changed");
            }
            a.uninit();
            // results live longer than the instance
            string g;
            VMC_CHECK(keep[7].convertObject(g) && g == string(140, 'h') + "7", "result-changed", "a result after shutdown");
        }, 20000, NO_RACES);
        count_states(60);
        count_transitions(60);
        sample("kinds of functions and arguments");
    };
    add_search(s);

    s.name = "C04.views";
    s.note = "string views, C strings, literals of every length up to 500";
    s.fn = [](int shard, int n, bool) {
        for (size_t from = shard * 20; from <= 500; from += n * 20)
            run_inline([&] {
                Veigar a;
                VMC_CHECK(a.init("A", 8, 2048), "init-failed", "A");
                a.bind("view", [](string_view v) { return v; });
                a.bind("strs", [](string a, string b, string c) { return a + "|" + b + "|" + c; });
                string big(500, 'b'), g;
                for (size_t l = from; l <= 500 && l < from + 20; l++) {
                    string_view v(big.data(), l);
                    CallResult r = a.syncCall("A", 1000, "view", v);
                    VMC_CHECK(r.isSuccess() && r.obj.get().as<string_view>() == v, "result-changed", "a view of %d characters", (int)l);
                    r = a.syncCall("A", 1000, "strs", string(big.c_str(), l).c_str(), "", string_view(big.data(), l / 2));
                    VMC_CHECK(r.isSuccess() && r.convertObject(g) && g == string(l, 'b') + "||" + string(l / 2, 'b'), "result-changed", "three strings of %d, 0 and %d", (int)l, (int)l / 2);
                    count_states(2);
                    count_transitions(2);
                }
                a.uninit();
            }, 20000, NO_RACES);
        if (!shard) sample("0 to 500 characters");
    };
    add_search(s);

    // message sizes up to the queue and above, in both directions
    s.name = "C04.sizes";
    s.note = "every size of an argument and of a result up to and above what the queue can hold, in a sequence with small calls";
    s.fn = [](int shard, int n, bool thorough) {
        static const uint32_t Q[][2] = {{1, 300}, {2, 150}, {8, 64}, {4, 400}, {1, 1000}, {16, 40}};
        int k = 0;
        uint64_t total = 0;
        for (auto& q : Q) {
            int cap = q[0] * q[1];
            for (int from = 0; from <= cap + 40; from += 25) {
                if (k++ % n != shard) continue;
                set_context("queue of " + to_string(q[0]) + " x " + to_string(q[1]) + ", sizes from " + to_string(from));
                run_inline([&] {
                    Duo d(8, 4096, q[0], q[1]);  // small queues of B
                    Veigar c;                    // small queues, calls functions of D with large results
                    VMC_CHECK(c.init("C", q[0], q[1]), "init-failed", "C");
                    d.a.bind("make", [](int n) { return string(n, 'm'); });
                    int aout = 0, rout = 0;
                    for (int x = from; x < from + 25 && x <= cap + 40; x++) {
                        string t(x, (char)('a' + x % 26));
                        CallResult r = d.a.syncCall("B", 200, "len", t);
                        if (r.isSuccess()) {
                            must_be(r, x, "length");
                            VMC_CHECK(!aout, "size-order", "%d bytes arrived, %d did not", x, aout);
                        } else {
                            must_fail(r, "an argument");
                            aout = aout ? aout : x;
                            VMC_CHECK(x + 80 > cap, "call-failed", "an argument of %d bytes did not fit the queue of %d", x, cap);
                        }
                        r = d.a.syncCall("B", 200, "f", x);
                        must_be(r, x + 1000, "the call after it");
                        r = c.syncCall("A", 200, "make", x);
                        string g;
                        if (r.isSuccess()) {
                            VMC_CHECK(r.convertObject(g) && g == string(x, 'm'), "result-changed", "a result of %d bytes", x);
                            VMC_CHECK(!rout, "size-order", "%d bytes came back, %d did not", x, rout);
                        } else {
                            must_fail(r, "a result");
                            rout = rout ? rout : x;
                            VMC_CHECK(x + 60 > cap, "call-failed", "a result of %d bytes did not fit the queue of %d", x, cap);
                        }
                        r = c.syncCall("A", 200, "make", 3);
                        VMC_CHECK(r.isSuccess() && r.convertObject(g) && g == "mmm", "call-failed", "the call after a result of %d bytes", x);
                        total += 4;
                    }
                    c.uninit();
                    d.end();
                }, 20000, NO_RACES);
            }
        }
        count_states(total);
        count_transitions(total);
        if (!shard) sample("6 queue shapes of 300 to 1600 bytes, every size");
    };
    add_search(s);
}
int main(int argc, char** argv) {
    c04();
    types1();
    types2();
    types3();
    types4();
    types5();
    types6();
    types7();
    return main_run(argc, argv, "bounded exhaustive enumeration of values");
}
#else
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define TYPES(NAME, NOTE, BODY)                   \
    void CAT(types, PART)() {                     \
        Search s;                                 \
        s.name = "C04." NAME;                     \
        s.note = NOTE;                            \
        s.fn = [](int shard, int n, bool thorough) { \
            uint64_t total = 0;                   \
            g_next_type = 0;                      \
            BODY count_states(total);             \
            count_transitions(total);             \
            if (!shard) sample(NOTE);             \
        };                                        \
        add_search(s);                            \
    }
// one style of call / all styles of calls
#define T(...) type<__VA_ARGS__, ONE_STYLE>(#__VA_ARGS__, shard, n, thorough, total);
#define F(...) type<__VA_ARGS__, ALL_STYLES>(#__VA_ARGS__, shard, n, thorough, total);
#if PART == 1
TYPES("integers", "every value of 8 and 16 bits; all neighbourhoods of powers of two, all pairs of bits, all bytes in all places of wider ones",
      T(int8_t) F(uint8_t) T(char) T(int16_t) T(uint16_t) F(int) T(unsigned) T(long) T(unsigned long) F(long long) T(unsigned long long) T(wchar_t) F(bool) T(Color) T(Big) T(std::byte))
#elif PART == 2
TYPES("floats_and_texts", "floats: every exponent with the boundary mantissas, both signs, infinities, subnormals, not-a-number; strings and byte vectors: every length up to 300 and around every header size, every byte",
      T(float) T(double) T(complex<double>) T(complex<float>) F(string) F(wstring) T(vector<char>) F(vector<unsigned char>) T(vector<std::byte>) T(array<char, 5>) T(array<unsigned char, 4>) T(array<std::byte, 4>))
#elif PART == 3
TYPES("sequences", "all element classes in all lengths up to 4 and around every header size",
      F(vector<int>) T(vector<uint16_t>) T(vector<bool>) T(vector<double>) T(vector<float>) T(vector<int64_t>) F(vector<string>) T(vector<wstring>) T(list<int>) T(list<string>) T(deque<int>)
      T(deque<string>) T(forward_list<int>) T(array<int, 3>) T(array<string, 2>) T(vector<Point>))
#elif PART == 4
TYPES("sets_and_maps", "0 to 65535 elements",
      T(set<int>) F(set<string>) T(multiset<int>) T(multiset<string>) T(unordered_set<int>) T(unordered_set<string>) T(map<int, int>) F(map<string, int>) T(map<int, string>)
      T(map<uint16_t, double>) T(multimap<int, string>) T(multimap<string, int>) T(unordered_map<int, string>) T(unordered_map<string, double>))
#elif PART == 5
TYPES("others", "optionals, tuples, pairs, pointers, times, user-defined types",
      F(optional<int>) T(optional<string>) T(optional<vector<int>>) T(optional<bool>) T(pair<int, string>) T(pair<string, double>) T(tuple<>) T(tuple<int>) T(tuple<int, string, double, bool>)
      T(shared_ptr<int>) T(shared_ptr<string>) T(timespec) T(TimePoint) F(Point) T(Sub) F(Rec) T(veigar_msgpack::type::nil_t))
#elif PART == 6
TYPES("nested", "compositions of all of these up to four levels",
      T(vector<vector<int>>) T(vector<vector<string>>) T(vector<vector<vector<uint8_t>>>) T(map<string, vector<int>>) T(map<string, map<string, string>>) T(map<int, map<string, vector<double>>>)
      T(vector<map<string, int>>) T(vector<optional<string>>) T(optional<vector<optional<string>>>) T(optional<map<string, optional<int>>>) T(vector<pair<string, int>>))
#elif PART == 7
TYPES("nested2", "compositions of user-defined types with all of these",
      T(map<string, pair<int, optional<string>>>) T(list<set<string>>) T(deque<map<int, vector<Point>>>) T(vector<Rec>) T(map<string, Rec>) T(optional<Rec>) T(vector<tuple<int, string, vector<double>>>)
      T(tuple<Rec, map<string, Point>, optional<Sub>>) T(map<string, map<string, map<string, vector<int>>>>) T(vector<shared_ptr<vector<string>>>))
#endif
#endif
