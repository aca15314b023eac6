// The values of C04 and their round trip; c04.cpp is compiled in parts, each with some of the types.
#pragma once
#include <array>
#include <cmath>
#include <complex>
#include <cstddef>
#include <deque>
#include <forward_list>
#include <list>
#include <optional>
#include <string_view>
#include <unordered_map>
#include <unordered_set>
#include "duo.h"
#include "veigar/msgpack/adaptor/define.hpp"

// ---------------------------------------------------------------------------------------- user-defined types
enum Color { RED, GREEN = 200, BLUE = -70000 };
MSGPACK_ADD_ENUM(Color);
enum class Big : uint64_t { A, B = 0xffffffffffffffffull };
MSGPACK_ADD_ENUM(Big);
struct Point {
    int x = 0, y = 0;
    MSGPACK_DEFINE(x, y);
    bool operator==(const Point& o) const { return x == o.x && y == o.y; }
    bool operator<(const Point& o) const { return x != o.x ? x < o.x : y < o.y; }
};
struct Rec {  // nested, as a map
    string name;
    vector<Point> path;
    map<string, optional<double>> attr;
    Color color = RED;
    MSGPACK_DEFINE_MAP(name, path, attr, color);
    bool operator==(const Rec& o) const { return name == o.name && path == o.path && attr == o.attr && color == o.color; }
};
struct Sub : Point {
    int64_t z = 0;
    MSGPACK_DEFINE(MSGPACK_BASE(Point), z);
    bool operator==(const Sub& o) const { return Point::operator==(o) && z == o.z; }
};

// ------------------------------------------------------------------------------------------------- equality
template <class T>
struct Same {
    static bool eq(const T& a, const T& b) { return a == b; }
};
template <>
struct Same<float> {  // the sign of zero is not kept: msgpack sends whole numbers as integers
    static bool eq(float a, float b) { return a == b || (a != a && b != b); }
};
template <>
struct Same<double> {
    static bool eq(double a, double b) { return a == b || (a != a && b != b); }
};
template <class T>
struct Same<shared_ptr<T>> {
    static bool eq(const shared_ptr<T>& a, const shared_ptr<T>& b) { return !a ? !b : b && *a == *b; }
};
template <class T>
struct Same<vector<shared_ptr<T>>> {
    static bool eq(const vector<shared_ptr<T>>& a, const vector<shared_ptr<T>>& b) {
        if (a.size() != b.size()) return false;
        for (size_t i = 0; i < a.size(); i++)
            if (!Same<shared_ptr<T>>::eq(a[i], b[i])) return false;
        return true;
    }
};
template <>
struct Same<timespec> {
    static bool eq(const timespec& a, const timespec& b) { return a.tv_sec == b.tv_sec && a.tv_nsec == b.tv_nsec; }
};
template <>
struct Same<veigar_msgpack::type::nil_t> {
    static bool eq(const veigar_msgpack::type::nil_t&, const veigar_msgpack::type::nil_t&) { return true; }
};

// --------------------------------------------------------------------------------------------------- values
// few: one or two of each interesting class; all: everything within the bounds
template <class T, class = void>
struct Vals;
template <class T>
static vector<T> few() { return Vals<T>::get(0); }

template <class T>
struct Vals<T, enable_if_t<is_integral<T>::value && !is_same<T, bool>::value>> {
    static vector<T> get(int level) {
        vector<T> r;
        typedef numeric_limits<T> L;
        if (level == 0) {
            for (long long x : {0ll, 1ll, 127ll, -1ll, -32ll, -33ll}) r.push_back((T)x);
            r.push_back(L::max());
            r.push_back(L::min());
            r.push_back(L::max() / 3);
        } else if (sizeof(T) <= 2) {
            for (long long x = (long long)L::min(); x <= (long long)L::max(); x++) r.push_back((T)x);
        } else {
            typedef make_unsigned_t<T> U;
            set<U> s;
            for (int b = 0; b < (int)sizeof(T) * 8; b++)
                for (int d = -40; d <= 40; d++) {
                    U x = ((U)1 << b) + (U)(T)d;
                    s.insert(x);
                    s.insert((U)0 - x);
                }
            for (int b = 0; b < (int)sizeof(T) * 8; b++)
                for (int c = 0; c < b; c++) s.insert(((U)1 << b) | ((U)1 << c)), s.insert((U)~(((U)1 << b) | ((U)1 << c)));
            for (int k = 0; k < 256; k++) {  // every byte everywhere
                U x = 0;
                for (size_t i = 0; i < sizeof(T); i++) x = x << 8 | (U)k;
                s.insert(x);
                for (size_t i = 0; i < sizeof(T); i++) s.insert((U)((U)k << (8 * i)));
            }
            for (U x : s) r.push_back((T)x);
        }
        return r;
    }
};
template <>
struct Vals<bool> {
    static vector<bool> get(int) { return {false, true}; }
};
template <class F, class U, int EXP, int MAN>
static vector<F> floats(int level) {
    vector<F> r;
    auto put = [&](U u) {
        F f;
        memcpy(&f, &u, sizeof f);
        r.push_back(f);
    };
    if (level == 0) {
        for (double d : {0.0, -0.0, 1.0, -1.5, 0.1, 3e10}) r.push_back((F)d);
        r.push_back(numeric_limits<F>::max());
        r.push_back(numeric_limits<F>::denorm_min());
        r.push_back(numeric_limits<F>::infinity());
        return r;
    }
    const U M = ((U)1 << MAN) - 1;
    for (U s = 0; s < 2; s++)
        for (U e = 0; e < ((U)1 << EXP); e++)
            for (U m : {(U)0, (U)1, M, (U)(M / 3), (U)((U)1 << (MAN - 1)), (U)(M - 1)}) put(s << (EXP + MAN) | e << MAN | m);
    for (int b = 0; b < MAN; b++) put(((((U)1 << (EXP - 1)) - 1) << MAN) | ((U)1 << b));
    return r;
}
template <>
struct Vals<float> {
    static vector<float> get(int l) { return floats<float, uint32_t, 8, 23>(l); }
};
template <>
struct Vals<double> {
    static vector<double> get(int l) { return floats<double, uint64_t, 11, 52>(l); }
};
static const int LENS[] = {0, 1, 2, 3, 7, 8, 15, 16, 17, 30, 31, 32, 33, 63, 64, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 1000, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 70000};
// strings and vectors of one-byte elements
template <class S>
static vector<S> texts(int level) {
    typedef typename S::value_type C;
    vector<S> r;
    auto put = [&](size_t n, int seed) {
        S s;
        for (size_t i = 0; i < n; i++) s.push_back((C)(seed < 0 ? 'x' : (i * 7 + seed) & 255));
        r.push_back(s);
    };
    if (level == 0) {
        put(0, 0), put(1, 0), put(31, 5), put(32, 200), put(40, -1);
        return r;
    }
    for (int n : LENS) put(n, -1), put(n, n);
    for (int n = 0; n < 300; n++) put(n, n * 3);
    for (int c = 0; c < 256; c++) put(1, c), put(2, c), put(5, c);
    if (sizeof(C) == 1 && level > 1)
        for (int a = 0; a < 256; a++)
            for (int b = 0; b < 256; b++) {
                S s;
                s.push_back((C)a);
                s.push_back((C)b);
                r.push_back(s);
            }
    return r;
}
template <>
struct Vals<string> {
    static vector<string> get(int l) { return texts<string>(l); }
};
template <>
struct Vals<wstring> {
    static vector<wstring> get(int l) {
        vector<wstring> r = l ? texts<wstring>(1) : vector<wstring>{L"", L"w", L"\u00e9\u4e2d\x1F600"};
        if (l)
            for (wchar_t c : few<wchar_t>()) r.push_back(wstring(3, c));
        return r;
    }
};
template <>
struct Vals<vector<char>> {
    static vector<vector<char>> get(int l) { return texts<vector<char>>(l); }
};
template <>
struct Vals<vector<unsigned char>> {
    static vector<vector<unsigned char>> get(int l) { return texts<vector<unsigned char>>(l); }
};
template <>
struct Vals<vector<std::byte>> {
    static vector<vector<std::byte>> get(int l) {
        vector<vector<std::byte>> r;
        for (auto& s : texts<string>(l)) {
            vector<std::byte> b;
            for (char c : s) b.push_back((std::byte)c);
            r.push_back(b);
        }
        return r;
    }
};
template <>
struct Vals<std::byte> {
    static vector<std::byte> get(int) {
        vector<std::byte> r;
        for (int i = 0; i < 256; i++) r.push_back((std::byte)i);
        return r;
    }
};
template <>
struct Vals<veigar_msgpack::type::nil_t> {
    static vector<veigar_msgpack::type::nil_t> get(int) { return {veigar_msgpack::type::nil_t()}; }
};
template <>
struct Vals<Color> {
    static vector<Color> get(int) { return {RED, GREEN, BLUE}; }
};
template <>
struct Vals<Big> {
    static vector<Big> get(int) { return {Big::A, Big::B}; }
};
template <>
struct Vals<timespec> {
    static vector<timespec> get(int) {
        vector<timespec> r;
        for (long long s : {0ll, 1ll, 4294967295ll, 4294967296ll, 17179869183ll, 17179869184ll, -1ll, 1234567890123456ll})
            for (long ns : {0l, 1l, 999999999l}) r.push_back({(time_t)s, ns});
        return r;
    }
};
typedef chrono::time_point<chrono::system_clock> TimePoint;
template <>
struct Vals<TimePoint> {
    static vector<TimePoint> get(int) {
        vector<TimePoint> r;
        for (long long s : {0ll, 1ll, 999999999ll, 1000000000ll, 4294967295999999999ll, 4294967296000000000ll, 9000000000000000000ll, 1700000000123456789ll}) r.push_back(TimePoint(chrono::nanoseconds(s)));
        return r;
    }
};
template <>
struct Vals<Point> {
    static vector<Point> get(int l) {
        vector<Point> r;
        for (int x : few<int>())
            for (int y : few<int>()) {
                if (!l && y > 1) continue;
                Point p;
                p.x = x;
                p.y = y;
                r.push_back(p);
            }
        return r;
    }
};
template <>
struct Vals<Sub> {
    static vector<Sub> get(int) {
        vector<Sub> r;
        for (int64_t z : few<int64_t>()) {
            Sub s;
            s.x = -5;
            s.y = 70000;
            s.z = z;
            r.push_back(s);
        }
        return r;
    }
};
template <class T>
struct Vals<complex<T>> {
    static vector<complex<T>> get(int) {
        vector<complex<T>> r;
        for (T a : few<T>())
            for (T b : few<T>()) r.push_back(complex<T>(a, b));
        return r;
    }
};
template <class A, class B>
struct Vals<pair<A, B>> {
    static vector<pair<A, B>> get(int) {
        vector<pair<A, B>> r;
        for (const A& a : few<A>())
            for (const B& b : few<B>()) r.push_back({a, b});
        return r;
    }
};
template <class T>
struct Vals<optional<T>> {
    static vector<optional<T>> get(int l) {
        vector<optional<T>> r{nullopt};
        for (T v : Vals<T>::get(l)) r.push_back(v);
        return r;
    }
};
template <class T>
struct Vals<shared_ptr<T>> {
    static vector<shared_ptr<T>> get(int l) {
        vector<shared_ptr<T>> r{nullptr};
        for (T v : few<T>()) r.push_back(make_shared<T>(v));
        return r;
    }
};
template <class... T>
struct Vals<tuple<T...>> {
    static vector<tuple<T...>> get(int) {
        vector<tuple<T...>> r;
        for (size_t k = 0; k < 60; k++) r.push_back(tuple<T...>(pick<T>(k)...));
        return r;
    }
    template <class U>
    static U pick(size_t k) {
        auto v = few<U>();
        return v[(k * sizeof(U) + k / v.size()) % v.size()];
    }
};
template <class T, size_t N>
struct Vals<array<T, N>> {
    static vector<array<T, N>> get(int) {
        vector<array<T, N>> r;
        auto v = few<T>();
        for (size_t k = 0; k < v.size(); k++) {
            array<T, N> a{};
            for (size_t i = 0; i < N; i++) a[i] = v[(k + i) % v.size()];
            r.push_back(a);
        }
        return r;
    }
};
template <class C>
struct Seq {
    static vector<C> get(int level) {
        typedef typename C::value_type E;
        vector<C> r;
        auto v = few<E>();
        auto put = [&](size_t n, size_t seed) {
            vector<E> e;
            for (size_t i = 0; i < n; i++) e.push_back(v[(i + seed) % v.size()]);
            r.push_back(C(e.begin(), e.end()));
        };
        put(0, 0), put(1, 0), put(3, 1);
        if (level == 0) return r;
        for (size_t k = 0; k < v.size(); k++)
            for (size_t n = 1; n < 5; n++) put(n, k);
        for (int n : {14, 15, 16, 17, 31, 32, 33, 255, 256}) put(n, n);
        if (is_arithmetic<E>::value)
            for (int n : {65534, 65535, 65536, 65537}) put(n, 1);
        return r;
    }
};
template <class E>
struct Vals<vector<E>> : Seq<vector<E>> {};
template <class E>
struct Vals<list<E>> : Seq<list<E>> {};
template <class E>
struct Vals<deque<E>> : Seq<deque<E>> {};
template <class E>
struct Vals<forward_list<E>> : Seq<forward_list<E>> {};
// many different keys
template <class K>
struct Key;
template <>
struct Key<int> {
    static int of(int i) { return i % 2 ? -i * 37 : i * 37; }
};
template <>
struct Key<uint16_t> {
    static uint16_t of(int i) { return i; }
};
template <>
struct Key<string> {
    static string of(int i) { return i % 3 ? to_string(i * 7) : i ? string(i % 50, 'k') + to_string(i) : ""; }
};
template <class C, class K>
struct Sets {
    static vector<C> get(int level) {
        vector<C> r;
        for (int n : {0, 1, 2, 3, 15, 16, 17, 31, 32, 255, 256, 257, 65535, 65536}) {
            if (n > (level ? is_arithmetic<K>::value ? 65535 : 257 : 3)) break;
            C c;
            for (int i = 0; i < n; i++) c.insert(Key<K>::of(i));
            r.push_back(c);
        }
        return r;
    }
};
template <class K>
struct Vals<set<K>> : Sets<set<K>, K> {};
template <class K>
struct Vals<unordered_set<K>> : Sets<unordered_set<K>, K> {};
template <class K>
struct Vals<multiset<K>> {
    static vector<multiset<K>> get(int) {
        vector<multiset<K>> r;
        for (int n : {0, 1, 2, 7, 40}) {
            multiset<K> c;
            for (int i = 0; i < n; i++) c.insert(Key<K>::of(i / 2));
            r.push_back(c);
        }
        return r;
    }
};
template <class C, class K, class V>
struct Maps {
    static vector<C> get(int level) {
        vector<C> r;
        auto v = few<V>();
        for (int n : {0, 1, 2, 3, 14, 15, 16, 17, 255, 256, 65535}) {
            if (n > (level ? is_arithmetic<K>::value && is_arithmetic<V>::value ? 65535 : 256 : 3)) break;
            C c;
            for (int i = 0; i < n; i++) c.insert({Key<K>::of(i), v[i % v.size()]});
            r.push_back(c);
        }
        if (level)
            for (auto& x : v) {
                C c;
                c.insert({Key<K>::of(5), x});
                r.push_back(c);
            }
        return r;
    }
};
template <class K, class V>
struct Vals<map<K, V>> : Maps<map<K, V>, K, V> {};
template <class K, class V>
struct Vals<unordered_map<K, V>> : Maps<unordered_map<K, V>, K, V> {};
template <class K, class V>
struct Vals<multimap<K, V>> {
    static vector<multimap<K, V>> get(int) {
        vector<multimap<K, V>> r;
        auto v = few<V>();
        for (int n : {0, 1, 2, 7, 40}) {
            multimap<K, V> c;
            for (int i = 0; i < n; i++) c.insert({Key<K>::of(i / 3), v[i % v.size()]});
            r.push_back(c);
        }
        return r;
    }
};
template <>
struct Vals<Rec> {
    static vector<Rec> get(int) {
        vector<Rec> r;
        for (auto& n : few<string>())
            for (auto& p : few<vector<Point>>())
                for (auto& a : few<map<string, optional<double>>>()) {
                    Rec x;
                    x.name = n;
                    x.path = p;
                    x.attr = a;
                    x.color = a.size() % 2 ? GREEN : BLUE;
                    r.push_back(x);
                }
        return r;
    }
};

// ------------------------------------------------------------------------------------------- the round trip
static const void* g_want;
static int g_got;  // 0: did not run, 1: the right value, 2: another value
template <class T>
static T through(T v) {
    Unchecked u;
    g_got = g_got == 0 && Same<T>::eq(v, *(const T*)g_want) ? 1 : 2;
    return v;
}
template <class T>
static T through_ref(const T& v) {
    Unchecked u;
    g_got = g_got == 0 && Same<T>::eq(v, *(const T*)g_want) ? 1 : 2;
    return v;
}
template <class T>
static void check_result(const CallResult& r, const T& v, const char* type, long k) {
    VMC_CHECK(r.isSuccess(), "call-failed", "%s, value %ld: the call failed: %s", type, k, r.errorMessage.c_str());
    VMC_CHECK(g_got == 1, "argument-changed", "%s, value %ld: %s", type, k, g_got ? "the function got another value" : "the function did not run");
    bool same;
    try {
        T back = r.obj.get().as<T>();
        Unchecked u;
        same = Same<T>::eq(back, v);
    } catch (std::exception& e) {
        vmc::fail("result-changed", "%s, value %ld: the result can not be converted: %s", type, k, e.what());
    }
    VMC_CHECK(same, "result-changed", "%s, value %ld: another value came back", type, k);
}
template <class T, int FULL>
static void one_value(Veigar& a, const char* target, const T& v, const char* type, long k, int style) {
    g_want = &v;
    g_got = 0;
    if (style == 0) {
        CallResult r = a.syncCall(target, 5000, "v", v);
        check_result(r, v, type, k);
    }
    if constexpr (FULL) {
        if (style == 1) {
            auto p = a.asyncCall(target, 5000, "r", v);
            CallResult r = await(p, 5000, type);
            check_result(r, v, type, k);
            a.releaseCall(p->first);
        } else if (style == 2) {
            Counter n;
            a.asyncCall(
                [pn = &n, pv = &v, type, k](const CallResult& r) {
                    check_result(r, *pv, type, k);
                    (*pn)++;
                },
                target, 5000, "v", v);
            VMC_CHECK(n.wait(1, 5000), "never-completed", "%s, value %ld", type, k);
        }
    }
}
template <class C>
static auto heavy_(const C& c, int) -> decltype((size_t)c.size()) { return c.size(); }
template <class C>
static size_t heavy_(const C&, long) { return 0; }
template <class C>
static size_t heavy(const C& c) { return heavy_(c, 0); }

enum { ONE_STYLE = 0, ALL_STYLES = 1 };
static int g_next_type;
template <class T, int FULL>
static void type(const char* name, int shard, int n, bool thorough, uint64_t& total) {
    const int t = g_next_type++;
    auto vals = Vals<T>::get(thorough ? 2 : 1);
    size_t per = vals.size() > 500 ? 40 : 10;
    size_t i = 0;
    int batch = 0;
    while (i < vals.size()) {
        size_t from = i, weight = 0;
        while (i < vals.size() && i - from < per && weight < 30000) {
            T v = vals[i];
            weight += heavy(v);
            i++;
        }
        if ((batch++ + t) % n != shard) continue;
        set_context(string(name) + ", values from number " + to_string(from));
        for (int style = 0; style < (FULL ? 3 : 1); style++) {
            run_inline([&] {
                Veigar a;
                a.bind("v", &through<T>);
                if constexpr (FULL) a.bind("r", &through_ref<T>);
                VMC_CHECK(a.init("A", 2, 2 << 20), "init-failed", "A");
                for (size_t k = from; k < i; k++) {
                    T v = vals[k];
                    one_value<T, FULL>(a, "A", v, name, k, style);
                }
                a.uninit();
            }, 20000, NO_RACES);
            total += i - from;
        }
    }
}

