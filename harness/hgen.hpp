// Shared by the glue for generated types: building and reading values, and the operations driven on every type.
#pragma once
#include "hx.hpp"

#include "fast_ber/ber_types/All.hpp"

#include <cstring>

namespace hx
{
using namespace fast_ber;
struct In
{
    const Args& a; size_t i;
    const std::string& next() { return a.at(i++); }
    long num() { return std::stol(next()); }
    bool flag() { return next() == "+"; }
};
template <class X> void rd_bool(In& in, X& x) { x = in.next() == "t"; }
template <class X> void rd_int(In& in, X& x) { x = static_cast<int64_t>(std::stoll(in.next())); }
template <class X> void rd_enum(In& in, X& x) { x = static_cast<decltype(x.value())>(std::stoll(in.next())); }
template <class X> void rd_null(In& in, X&) { in.next(); }
template <class X> void rd_str(In& in, X& x) { Bytes b = unhex(in.next()); x = absl::string_view(reinterpret_cast<const char*>(b.data()), b.size()); }
template <class X> void rd_oid(In& in, X& x)
{
    ObjectIdentifierComponents c; std::stringstream ss(in.next()); std::string t;
    while (std::getline(ss, t, '.')) c.push_back(std::stoll(t));
    x = c;
}
template <class X> void rd_real(In& in, X& x) { uint64_t v = std::stoull(in.next(), nullptr, 16); double d; memcpy(&d, &v, 8); x = d; }
template <class X> void rd_time(In& in, X& x)      // by way of its universal form
{
    Bytes b = unhex(in.next());
    X y; Bytes e = {0, static_cast<uint8_t>(b.size())}; e.insert(e.end(), b.begin(), b.end());
    fast_ber::GeneralizedTime<Id<Class::universal, 0>> z; z.decode(BerView(absl::Span<const uint8_t>(e.data(), e.size())));
    std::string s(b.begin(), b.end());
    absl::Time t = z.time();
    if (s.back() == 'Z') y.set_time(t);
    else y.set_time(t, (s[s.size() - 5] == '-' ? -1 : 1) * (std::stoi(s.substr(s.size() - 4, 2)) * 60 + std::stoi(s.substr(s.size() - 2, 2))));
    x = y;
}

template <class X> void wr_bool(std::string& o, const X& x) { o += x.value() ? "true" : "false"; }
template <class X> void wr_int(std::string& o, const X& x) { o += joct(x.value()); }
template <class X> void wr_enum(std::string& o, const X& x) { o += joct(static_cast<int64_t>(x.value())); }
template <class X> void wr_null(std::string& o, const X&) { o += "true"; }
template <class X> void wr_str(std::string& o, const X& x) { std::string s = x.value(); auto p = reinterpret_cast<const uint8_t*>(s.data()); o += Ev::arr(p, p + s.size()); }
template <class X> void wr_oid(std::string& o, const X& x)
{
    auto c = x.value(); o += '[';
    for (size_t i = 0; i < c.size(); i++) { if (i) o += ','; o += c[i] < 0 ? "[-1]" : jdigits(static_cast<unsigned long long>(c[i]), 128); }
    o += ']';
}
inline std::string joct(double d) { int64_t v; memcpy(&v, &d, 8); return joct(v); }
inline void real_(std::string& o, double d)
{
    Real<> r; r = d; Bytes b(r.encoded_length()); r.encode(absl::Span<uint8_t>(b.data(), b.size()));
    o += "{\"c\":" + Ev::arr(b.begin() + 2, b.end()) + ",\"d\":" + joct(d) + ",\"l\":[]}";
}
template <class X> void wr_real(std::string& o, const X& x) { real_(o, x.value()); }
template <class X> void wr_time(std::string& o, const X& x) { auto s = x.string(); std::string t(s.begin(), s.end()); auto p = reinterpret_cast<const uint8_t*>(t.data()); o += Ev::arr(p, p + t.size()); }

// values assigned in the schema
template <class V> void val_int(std::string& o, const V& v) { o += joct(static_cast<int64_t>(v)); }
template <class V> void val_bool(std::string& o, const V& v) { o += static_cast<bool>(v) ? "true" : "false"; }
template <class V> void val_real(std::string& o, const V& v) { real_(o, static_cast<double>(v)); }
template <class V> void val_str(std::string& o, const V& v) { absl::string_view s(v); auto p = reinterpret_cast<const uint8_t*>(s.data()); o += Ev::arr(p, p + s.size()); }
template <class V> void val_oid(std::string& o, const V& v) { wr_oid(o, v); }
template <class V> void val_enum(std::string& o, const V& v) { o += joct(static_cast<int64_t>(v)); }

inline absl::Span<const uint8_t> span(const Exact& e) { return absl::Span<const uint8_t>(e.p, e.n); }

template <class X, class F> struct Ops
{
    static std::string dump(const X& x) { std::string o; F::d(o, x); return o; }
    static Bytes enc(const X& x, bool& ok)
    {
        Guarded g(x.encoded_length());
        auto r = x.encode(absl::Span<uint8_t>(g.data(), g.n));
        ok = ok && r.success && r.length == g.n && g.intact();
        return Bytes(g.data(), g.data() + g.n);
    }
    static X& prev() { static X x; return x; }
    // Everything that holds of any object, whatever its value.
    static void object(const X& x, const std::string& d, Ev& e)
    {
        size_t el = x.encoded_length();
        bool exact = true, larger = true, smaller = true, guard = true;
        Guarded g(el);
        auto r = x.encode(absl::Span<uint8_t>(g.data(), el));
        exact = r.success && r.length == el; guard = g.intact();
        Bytes out(g.data(), g.data() + el);
        for (size_t more : {1, 2, 9, 300})
        {
            Guarded h(el + more);
            auto q = x.encode(absl::Span<uint8_t>(h.data(), h.n));
            larger = larger && q.success && q.length == el && memcmp(h.data(), out.data(), el) == 0;
            guard = guard && h.intact();
        }
        for (size_t n = 0; n < el; n++)
        {
            if (el > 80 && n > 20 && n + 20 < el && n % (el / 16) != 0) continue;
            Guarded h(n);
            auto q = x.encode(absl::Span<uint8_t>(h.data(), h.n));
            smaller = smaller && !q.success; guard = guard && h.intact();
            Exact t{Bytes(n)};
            q = x.encode(absl::Span<uint8_t>(t.p, t.n)); smaller = smaller && !q.success;
        }
        bool copy = true, back = true, eq = true, ne = false, again = true, ok = true;
        {
            X c(x), a, s(prev()), p(prev());
            a = x; p = x; s = p;
            const X& self = a; a = self;
            copy = dump(c) == d && dump(a) == d && dump(s) == d && dump(p) == d && enc(c, copy) == out && enc(a, copy) == out && enc(p, copy) == out;
            eq = x == c && c == x && x == p; ne = x != c || p != x;
            X m(std::move(c)), m2(prev()); m2 = std::move(a);
            copy = copy && dump(m) == d && dump(m2) == d && enc(m, copy) == out && enc(m2, copy) == out;
            eq = eq && x == m && m2 == x; ne = ne || m != x;
        }
        {
            Exact b(out); X z, y(prev());
            ok = z.decode(BerView(span(b))).success; back = ok && dump(z) == d;
            ok = y.decode(BerView(span(b))).success; back = back && ok && dump(y) == d;
            again = back && enc(z, again) == out && enc(y, again) == out;
            eq = eq && x == z && y == x; ne = ne || x != z;
        }
        e.bytes("out", out).i("el", static_cast<long long>(el)).b("exact", exact).b("larger", larger).b("smaller", smaller).b("guard", guard);
        e.b("copy", copy).b("back", back).b("eq", eq).b("ne", ne).b("again", again).b("noreal", noreal());
    }
    static bool& noreal() { static bool b = true; return b; }
    static void D(const Args& a, Ev& e)
    {
        noreal() = a[1] == "1";
        Bytes in = unhex(a[2]);
        Exact b(in);
        X x; bool ok = x.decode(BerView(span(b))).success;
        std::string d = ok ? dump(x) : "";
        X y(prev()); bool ok2 = y.decode(BerView(span(b))).success;
        bool dirty = ok2 == ok && (!ok || dump(y) == d);
        // octets after the element make no difference
        bool trail = true;
        if (BerView(span(b)).is_valid())
        {
            for (int k = 0; k < 2; k++)
            {
                Bytes t(in.begin(), in.begin() + static_cast<long>(BerView(span(b)).ber_length()));
                if (k == 1) for (uint8_t v : {0x02, 0x01, 0x07, 0x80, 0x00, 0x00}) t.push_back(v);
                Exact tb(t); X z; bool ok3 = z.decode(BerView(span(tb))).success;
                trail = trail && ok3 == ok && (!ok || dump(z) == d);
            }
        }
        e.bytes("b", in).b("ok", ok).b("dirty", dirty).b("trail", trail);
        if (ok) { e.raw("v", d); object(x, d, e); X keep(x); prev() = keep; }
        else { X c(x); c = y; (void)dump(c); bool k = c == x; Bytes o = enc(x, k); }   // harmless, whatever was left
    }
    static void E(const Args& a, Ev& e)
    {
        noreal() = a[1] == "1";
        In in{a, 2}; X x; F::b(in, x);
        std::string d = dump(x);
        e.raw("v", d); object(x, d, e);
        prev() = x;
    }
    // Two values, each in a given state: b built, c copied, m moved, d decoded, a assigned over another value.
    static X state(char how, In& in)
    {
        X x; F::b(in, x);
        if (how == 'c') { X y(x); return y; }
        if (how == 'm') { X y; y = std::move(x); return y; }
        if (how == 'a') { X y(prev()); y = x; return y; }
        if (how == 'd' || how == 'o')
        {
            bool ok = true; Bytes b = enc(x, ok); Exact eb(b);
            X y(how == 'o' ? prev() : X()); y.decode(BerView(span(eb))); return y;
        }
        return x;
    }
    static void Q(const Args& a, Ev& e)
    {
        In in{a, 2};
        X x = state(a[1][0], in), y = state(a[1][1], in);
        e.raw("a", dump(x)).raw("c", dump(y)).b("eq", x == y).b("ne", x != y).b("qe", y == x).b("noreal", a[1][2] == '1');
        prev() = y;
    }
    // What two octet strings decode to, compared: f into a fresh object, o over another value.
    static void P(const Args& a, Ev& e)
    {
        X x, y; bool ok[2];
        for (int k = 0; k < 2; k++)
        {
            Bytes b = unhex(a[2 + k]); Exact eb(b); X z(a[1][k] == 'o' ? prev() : X());
            ok[k] = z.decode(BerView(span(eb))).success; (k ? y : x) = z;
            e.bytes(k ? "bc" : "ba", b);
        }
        e.b("oka", ok[0]).b("okc", ok[1]);
        if (ok[0] && ok[1]) e.raw("a", dump(x)).raw("c", dump(y)).b("eq", x == y).b("ne", x != y).b("qe", y == x).b("noreal", a[1][2] == '1');
        if (ok[1]) prev() = y;
    }
};

struct Reg
{
    struct Fns { Handler D, E, Q, P; };
    static std::map<std::string, Fns>& types() { static std::map<std::string, Fns> m; return m; }
    static std::map<std::string, std::map<int, long long>>& names() { static std::map<std::string, std::map<int, long long>> m; return m; }
    static std::map<std::string, std::function<void(std::string&)>>& values() { static std::map<std::string, std::function<void(std::string&)>> m; return m; }
    template <class X, class F> static void add(const std::string& n) { types()[n] = Fns{Ops<X, F>::D, Ops<X, F>::E, Ops<X, F>::Q, Ops<X, F>::P}; }
    static void name(const std::string& t, int k, long long v) { names()[t][k] = v; }
    static void value(const std::string& n, std::function<void(std::string&)> f) { values()[n] = f; }
};
} // namespace hx
