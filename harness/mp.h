// A small MessagePack decoder and encoder of our own, the reference for what a message says.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

namespace mp {
struct Val {
    enum T { NIL, BOOL, UINT, INT, FLOAT, STR, BIN, ARR, MAP, EXT } t = NIL;
    uint64_t u = 0;   // UINT, BOOL
    int64_t i = 0;    // INT (negative)
    double d = 0;
    std::string s;    // STR BIN EXT
    std::vector<Val> v;  // ARR, MAP (keys and values)
};
struct Dec {
    const uint8_t* p;
    const uint8_t* e;
    int depth = 0, max_depth = 0;
    bool too_deep = false;  // for this decoder: the message may be correct
    bool need(uint64_t n) const { return (uint64_t)(e - p) >= n; }
    uint64_t be(int n) {
        uint64_t r = 0;
        for (int k = 0; k < n; k++) r = r << 8 | *p++;
        return r;
    }
    bool str(Val& o, Val::T t, int lenbytes, int extra = 0) {
        if (!need(lenbytes)) return false;
        return raw(o, t, be(lenbytes) + extra);
    }
    bool raw(Val& o, Val::T t, uint64_t n) {
        if (!need(n)) return false;
        o.t = t;
        o.s.assign((const char*)p, n);
        p += n;
        return true;
    }
    bool seq(Val& o, Val::T t, uint64_t n) {
        o.t = t;
        if (t == Val::MAP) n *= 2;
        if (!need(n)) return false;  // every element takes a byte
        if (++depth > max_depth) max_depth = depth;
        if (depth > 1500) return too_deep = true, false;
        o.v.resize(n);
        for (auto& x : o.v)
            if (!get(x)) return false;
        depth--;
        return true;
    }
    bool integer(Val& o, int n, bool sign) {
        if (!need(n)) return false;
        uint64_t r = be(n);
        if (sign) {
            int64_t s = (int64_t)(r << (64 - 8 * n)) >> (64 - 8 * n);
            if (s < 0) {
                o.t = Val::INT;
                o.i = s;
                return true;
            }
        }
        o.t = Val::UINT;
        o.u = r;
        return true;
    }
    bool get(Val& o) {  // false: truncated or malformed
        if (!need(1)) return false;
        uint8_t b = *p++;
        if (b < 0x80) { o.t = Val::UINT; o.u = b; return true; }
        if (b < 0x90) return seq(o, Val::MAP, b & 15);
        if (b < 0xa0) return seq(o, Val::ARR, b & 15);
        if (b < 0xc0) return raw(o, Val::STR, b & 31);
        if (b >= 0xe0) { o.t = Val::INT; o.i = (int8_t)b; return true; }
        switch (b) {
            case 0xc0: o.t = Val::NIL; return true;
            case 0xc1: return false;
            case 0xc2: case 0xc3: o.t = Val::BOOL; o.u = b & 1; return true;
            case 0xc4: case 0xc5: case 0xc6: return str(o, Val::BIN, 1 << (b - 0xc4));
            case 0xc7: case 0xc8: case 0xc9: return str(o, Val::EXT, 1 << (b - 0xc7), 1);
            case 0xca: { if (!need(4)) return false; uint32_t r = be(4); float f; memcpy(&f, &r, 4); o.t = Val::FLOAT; o.d = f; return true; }
            case 0xcb: { if (!need(8)) return false; uint64_t r = be(8); memcpy(&o.d, &r, 8); o.t = Val::FLOAT; return true; }
            case 0xcc: case 0xcd: case 0xce: case 0xcf: return integer(o, 1 << (b - 0xcc), false);
            case 0xd0: case 0xd1: case 0xd2: case 0xd3: return integer(o, 1 << (b - 0xd0), true);
            case 0xd4: case 0xd5: case 0xd6: case 0xd7: case 0xd8: return raw(o, Val::EXT, (1 << (b - 0xd4)) + 1);
            case 0xd9: case 0xda: case 0xdb: return str(o, Val::STR, 1 << (b - 0xd9));
            case 0xdc: case 0xdd: { int n = 2 << (b - 0xdc); if (!need(n)) return false; return seq(o, Val::ARR, be(n)); }
            default: { int n = 2 << (b - 0xde); if (!need(n)) return false; return seq(o, Val::MAP, be(n)); }
        }
    }
};
// encoding
inline std::string fixarr(int n) { return std::string(1, (char)(0x90 | n)); }
inline std::string fixmap(int n) { return std::string(1, (char)(0x80 | n)); }
inline std::string str(const std::string& s) {
    if (s.size() < 32) return std::string(1, (char)(0xa0 | s.size())) + s;
    if (s.size() < 256) return std::string("\xd9") + (char)s.size() + s;
    return std::string("\xda") + (char)(s.size() >> 8) + (char)s.size() + s;
}
inline std::string num(int64_t x) {
    if (x >= 0 && x < 128) return std::string(1, (char)x);
    if (x < 0 && x >= -32) return std::string(1, (char)x);
    std::string r(1, (char)0xd3);
    for (int k = 56; k >= 0; k -= 8) r += (char)(x >> k);
    return r;
}
inline std::string nil() { return "\xc0"; }
inline std::string call(const std::string& id, const std::string& from, const std::string& fn, const std::string& args) {
    return fixarr(5) + num(0) + str(id) + str(from) + str(fn) + args;
}
inline std::string resp(const std::string& id, const std::string& err, const std::string& result) {
    return fixarr(4) + num(1) + str(id) + err + result;
}
inline std::string hex(const std::string& s) {
    std::string r;
    char b[4];
    for (size_t i = 0; i < s.size() && i < 400; i++) snprintf(b, 4, "%02x", (uint8_t)s[i]), r += b;
    return s.size() > 400 ? r + "..." : r;
}
}  // namespace mp
