// Shared by all harnesses: command parsing, event output, guarded buffers.
// A harness reads commands (one per line: number, operation, arguments) from a file,
// executes each against the real code and writes one JSON event per command.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

namespace hx
{
using Bytes = std::vector<uint8_t>;

inline Bytes unhex(const std::string& s)
{
    Bytes out;
    if (s == "-") return out;
    for (size_t i = 0; i + 1 < s.size(); i += 2)
        out.push_back(static_cast<uint8_t>(std::stoi(s.substr(i, 2), nullptr, 16)));
    return out;
}

// Exactly sized heap copy, so that one byte past the end is caught.
struct Exact
{
    explicit Exact(const Bytes& b) : n(b.size()), p(static_cast<uint8_t*>(malloc(b.size() ? b.size() : 1)))
    {
        base = p;
        if (n) memcpy(p, b.data(), n);
        else { free(p); p = static_cast<uint8_t*>(malloc(1)); free0 = true; base = p; p = p + 1; }
    }
    ~Exact() { free(base); }
    Exact(const Exact&) = delete;
    Exact& operator=(const Exact&) = delete;
    size_t n; uint8_t* p; uint8_t* base = nullptr; bool free0 = false;
};

// Output buffer of n bytes between two guard zones, inside one exact allocation.
struct Guarded
{
    static constexpr size_t Z = 64;
    explicit Guarded(size_t n_) : n(n_), store(n_ + 2 * Z, 0xA5) {}
    uint8_t* data() { return store.data() + Z; }
    bool intact() const
    {
        for (size_t i = 0; i < Z; i++)
            if (store[i] != 0xA5 || store[Z + n + i] != 0xA5) return false;
        return true;
    }
    size_t n; Bytes store;
};

// ---- JSON event writer ----
struct Ev
{
    std::string s = "{";
    bool first = true;
    void key(const char* k)
    {
        if (!first) s += ',';
        first = false;
        s += '"'; s += k; s += "\":";
    }
    Ev& i(const char* k, long long v) { key(k); s += std::to_string(v); return *this; }
    Ev& b(const char* k, bool v) { key(k); s += v ? "true" : "false"; return *this; }
    Ev& str(const char* k, const std::string& v)
    {
        key(k); s += '"';
        for (char c : v)
        {
            if (c == '"' || c == '\\') { s += '\\'; s += c; }
            else if (static_cast<unsigned char>(c) < 0x20 || static_cast<unsigned char>(c) > 0x7e) { char t[8]; snprintf(t, 8, "\\u%04x", static_cast<unsigned char>(c)); s += t; }
            else s += c;
        }
        s += '"'; return *this;
    }
    Ev& raw(const char* k, const std::string& v) { key(k); s += v; return *this; }
    template <class It> static std::string arr(It b_, It e_)
    {
        std::string o = "[";
        for (It x = b_; x != e_; ++x) { if (x != b_) o += ','; o += std::to_string(static_cast<long long>(*x)); }
        return o + "]";
    }
    Ev& bytes(const char* k, const uint8_t* p, size_t n) { key(k); s += arr(p, p + n); return *this; }
    Ev& bytes(const char* k, const Bytes& v) { return bytes(k, v.data(), v.size()); }
    std::string done() { return s + "}"; }
};

// Minimal digits, most significant first.
inline std::vector<int> digits(unsigned long long v, unsigned base)
{
    std::vector<int> d;
    do { d.insert(d.begin(), static_cast<int>(v % base)); v /= base; } while (v);
    return d;
}
inline std::string jdigits(unsigned long long v, unsigned base) { auto d = digits(v, base); return Ev::arr(d.begin(), d.end()); }
inline std::string joct(int64_t v)     // 8 octets, two's complement
{
    std::string o = "[";
    for (int i = 7; i >= 0; i--) { o += std::to_string(static_cast<int>((static_cast<uint64_t>(v) >> (8 * i)) & 0xff)); if (i) o += ','; }
    return o + "]";
}

using Args = std::vector<std::string>;
using Handler = std::function<void(const Args&, Ev&)>;

inline int run(int argc, char** argv, const std::map<std::string, Handler>& table)
{
    if (argc < 3) { std::cerr << "usage: harness COMMANDS EVENTS [FIRST]\n"; return 2; }
    std::ifstream in(argv[1]);
    FILE* out = fopen(argv[2], "a");
    long first = argc > 3 ? atol(argv[3]) : 0;
    std::string line;
    while (std::getline(in, line))
    {
        std::istringstream ls(line);
        Args a; std::string t;
        while (ls >> t) a.push_back(t);
        if (a.size() < 2) continue;
        long n = atol(a[0].c_str());
        if (n < first) continue;
        auto it = table.find(a[1]);
        if (it == table.end()) { std::cerr << "unknown op " << a[1] << "\n"; return 2; }
        Ev e;
        e.i("n", n).str("op", a[1]);
        it->second(Args(a.begin() + 2, a.end()), e);
        fprintf(out, "%s\n", e.done().c_str());
        fflush(out);
    }
    fclose(out);
    return 0;
}
} // namespace hx
