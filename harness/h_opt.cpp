// Harness for optional and defaulted members (B10).
#include "hx.hpp"
#include "hid.hpp"
#include "fast_ber/ber_types/All.hpp"
#include "fast_ber/ber_types/Default.hpp"
#include "fast_ber/ber_types/Optional.hpp"
using namespace fast_ber;
using namespace hx;
static absl::Span<const uint8_t> span(const Exact& x) { return absl::Span<const uint8_t>(x.p, x.n); }
static Bytes int_content(long long v)
{
    Bytes b;
    for (int i = 7; i >= 0; i--) b.push_back(static_cast<uint8_t>(static_cast<unsigned long long>(v) >> (8 * i)));
    while (b.size() > 1 && ((b[0] == 0 && b[1] < 128) || (b[0] == 255 && b[1] >= 128))) b.erase(b.begin());
    return b;
}
// Values of each type: a whole number names one of them.
template <class T> struct Ty;
template <class I> struct Ty<Integer<I>>
{
    static constexpr const char* name = "int";
    using V = int64_t;
    static V val(long long n) { return n; }
    static Bytes content(const Integer<I>& t) { return int_content(t.value()); }
    static Bytes content(V v) { return int_content(v); }
};
template <class I> struct Ty<Boolean<I>>
{
    static constexpr const char* name = "bool";
    using V = bool;
    static V val(long long n) { return n % 2 != 0; }
    static Bytes content(const Boolean<I>& t) { return Bytes(1, t.value() ? 255 : 0); }
    static Bytes content(V v) { return Bytes(1, v ? 255 : 0); }
};
static std::string text(long long n) { return n == 0 ? "" : n == 1 ? "abc" : n == 2 ? std::string(130, 'x') : n == 3 ? std::string("a\0b", 3) : "t" + std::to_string(n); }
template <UniversalTag U, class I> struct Ty<StringImpl<U, I>>
{
    static constexpr const char* name = "str";
    using V = std::string;
    static V val(long long n) { return text(n); }
    static Bytes content(const StringImpl<U, I>& t) { return Bytes(t.begin(), t.end()); }
    static Bytes content(const V& v) { return Bytes(v.begin(), v.end()); }
};
template <class I> struct Ty<Real<I>>
{
    static constexpr const char* name = "real";
    using V = double;
    // 7 is not quite the default
    static V val(long long n) { return n == 7 ? 0.5 + 1.0 / (1LL << 53) : static_cast<double>(n) / 2; }
    static Bytes content(const Real<I>& t) { return content(t.value()); }
    static Bytes content(V v) { Real<> r; r = v; Bytes b(r.encoded_length()); r.encode(absl::MakeSpan(b.data(), b.size())); return Bytes(b.begin() + 2, b.end()); }
};
struct Mem
{
    virtual ~Mem() = default;
    virtual std::string desc() = 0;
    virtual bool set(char how, long long n, Ev&) = 0;
    virtual bool clear(int) = 0;
    virtual void fresh(Ev&) = 0;
    virtual bool dec(const Bytes&, int via, Ev&) = 0;
    virtual void copy(Mem&, int) = 0;
    virtual void move(Mem&, int) = 0;
    virtual void swap(Mem&) = 0;
    virtual bool eq(Mem&, bool&) = 0;
    virtual bool eqv(long long, Bytes&, bool&) = 0;
    virtual bool empty(bool&) { return false; }
    virtual void obs(Ev&) = 0;
};
template <class X> static void encodings(Ev& e, const X& c, size_t el)
{
    Guarded g(el);
    EncodeResult r = c.encode(absl::MakeSpan(g.data(), el));
    e.bytes("enc", g.data(), r.success ? r.length : 0);
    bool s = r.success && r.length == el;
    if (el) { Guarded h(el - 1); s = s && !c.encode(absl::MakeSpan(h.data(), el - 1)).success; e.b("g", g.intact() && h.intact()); }
    else e.b("g", g.intact());
    e.b("short", s).i("el", static_cast<long long>(el));
}
template <class T, StorageMode m> struct Opt : Mem
{
    using X = Optional<T, m>;
    using Q = Ty<T>;
    std::unique_ptr<X> x = std::make_unique<X>();
    static Opt& as(Mem& o) { return dynamic_cast<Opt&>(o); }
    std::string desc() override { return std::string("{\"k\":\"opt\",\"ty\":\"") + Q::name + "\",\"ids\":" + jids(Identifier<T>{}) + ",\"d\":[]}"; }
    bool set(char how, long long n, Ev& e) override
    {
        auto v = Q::val(n);
        if (how == 'd' && !x->has_value()) return false;
        e.bytes("c", Q::content(v));
        T t(v);
        switch (how)
        {
        case 'a': *x = t; break;
        case 'm': *x = std::move(t); break;
        case 'v': *x = v; break;
        case 'e': x->emplace(v); break;
        case 'c': x = std::make_unique<X>(t); break;
        case 'C': x = std::make_unique<X>(std::move(t)); break;
        default: **x = v;
        }
        return true;
    }
    bool clear(int how) override
    {
        if (how == 0) *x = fast_ber::empty;
        else if (how == 1) x = std::make_unique<X>(fast_ber::empty);
        else if (how == 2) *x = X();
        else { if constexpr (m == StorageMode::static_) x->reset(); else *x = absl::nullopt; }
        return true;
    }
    void fresh(Ev& e) override { x->emplace(); e.bytes("c", Q::content(T())); }
    bool dec(const Bytes& b, int via, Ev& e) override
    {
        Exact s(b);
        if (via == 1)
        {
            BerViewIterator it(span(s)); BerViewIterator was = it;
            bool ok = fast_ber::decode(it, *x).success;
            e.b("adv", it->ber_data() != was->ber_data() || it->is_valid() != was->is_valid());
            return ok;
        }
        if (via == 3) return fast_ber::decode(span(s), *x).success;
        return x->decode(BerView(span(s))).success;
    }
    void copy(Mem& o, int how) override { if (how) x = std::make_unique<X>(static_cast<const X&>(*as(o).x)); else *x = *as(o).x; }
    void move(Mem& o, int how) override { if (how) x = std::make_unique<X>(std::move(*as(o).x)); else *x = std::move(*as(o).x); }
    void swap(Mem& o) override { std::swap(*x, *as(o).x); }
    bool eq(Mem& o, bool& ne) override { ne = *x != *as(o).x; return *x == *as(o).x; }
    bool eqv(long long n, Bytes& c, bool& ne) override { T t(Q::val(n)); c = Q::content(t); ne = *x != t; return *x == t; }
    bool empty(bool& eq) override { eq = !*x && !x->has_value(); if constexpr (m == StorageMode::static_) eq = eq && *x == fast_ber::empty; return true; }
    void obs(Ev& e) override
    {
        const X& c = *x;
        bool has = c.has_value();
        e.b("set", has).bytes("c", has ? Q::content(*c) : Bytes());
        bool same = static_cast<bool>(c) == has && (!has || (&*c == c.operator->() && Q::content(**x) == Q::content(*c)));
        encodings(e, c, c.encoded_length());
        e.b("same", same && fast_ber::encoded_length(c) == c.encoded_length());
    }
};
struct D5 { constexpr static int64_t get_value() { return 5; } };
struct DHalf { constexpr static double get_value() { return 0.5; } };
struct DAbc { constexpr static absl::string_view get_value() { return "abc"; } };
struct DTrue { constexpr static bool get_value() { return true; } };
template <class T, class DV> struct Def : Mem
{
    using X = Default<T, DV>;
    using Q = Ty<T>;
    std::unique_ptr<X> x = std::make_unique<X>();
    static Def& as(Mem& o) { return dynamic_cast<Def&>(o); }
    std::string desc() override { Bytes d = Q::content(T(DV::get_value())); return std::string("{\"k\":\"def\",\"ty\":\"") + Q::name + "\",\"ids\":" + jids(Identifier<T>{}) + ",\"d\":" + Ev::arr(d.begin(), d.end()) + "}"; }
    bool set(char how, long long n, Ev& e) override
    {
        auto v = Q::val(n);
        T t(v);
        if (how == 'd') how = 'v';
        e.bytes("c", Q::content(v));
        switch (how)
        {
        case 'a': case 'm': case 'e': *x = t; break;
        case 'v': *x = v; break;
        case 'c': x = std::make_unique<X>(t); break;
        default: x = std::make_unique<X>(v);
        }
        return true;
    }
    bool clear(int how) override { if (how == 0) x->set_to_default(); else if (how == 1) x = std::make_unique<X>(); else if (how == 2) *x = X(); else *x = DV::get_value(); return true; }
    void fresh(Ev& e) override { T t; *x = t; e.bytes("c", Q::content(t)); }
    bool dec(const Bytes& b, int via, Ev& e) override
    {
        Exact s(b);
        if (via == 1)
        {
            BerViewIterator it(span(s)); BerViewIterator was = it;
            bool ok = fast_ber::decode(it, *x).success;
            e.b("adv", it->ber_data() != was->ber_data() || it->is_valid() != was->is_valid());
            return ok;
        }
        if (via == 3) return fast_ber::decode(span(s), *x).success;
        return x->decode(BerView(span(s))).success;
    }
    void copy(Mem& o, int how) override { if (how) x = std::make_unique<X>(static_cast<const X&>(*as(o).x)); else *x = *as(o).x; }
    void move(Mem& o, int how) override { if (how) x = std::make_unique<X>(std::move(*as(o).x)); else *x = std::move(*as(o).x); }
    void swap(Mem& o) override { std::swap(*x, *as(o).x); }
    bool eq(Mem& o, bool& ne) override { ne = *x != *as(o).x; return *x == *as(o).x; }
    bool eqv(long long n, Bytes& c, bool& ne) override { T t(Q::val(n)); c = Q::content(t); ne = *x != t; return *x == t; }
    void obs(Ev& e) override
    {
        const X& c = *x;
        e.b("set", !c.is_default()).bytes("c", Q::content(c.get()));
        encodings(e, c, c.encoded_length());
        e.b("same", Q::content(c.value()) == Q::content(c.get()) && c == c.get() && !(c != c.get()) && fast_ber::encoded_length(c) == c.encoded_length());
    }
};
static std::vector<std::unique_ptr<Mem>> pool;
static void observe(Ev& e)
{
    e.key("obs"); e.s += "[";
    for (size_t i = 0; i < pool.size(); i++) { if (i) e.s += ","; Ev t; pool[i]->obs(t); e.s += t.done(); }
    e.s += "]"; e.first = false;
}
template <int I> using In = Integer<typename IdAt<UniversalTag::integer, I>::type>;
template <int I> using Oc = OctetString<typename IdAt<UniversalTag::octet_string, I>::type>;
template <int I> using Bo = Boolean<typename IdAt<UniversalTag::boolean, I>::type>;
template <int I> using Re = Real<typename IdAt<UniversalTag::real, I>::type>;
static std::unique_ptr<Mem> make(const std::string& k)
{
    const auto S = StorageMode::static_; const auto Dy = StorageMode::dynamic;
    if (k == "oi") return std::make_unique<Opt<In<0>, S>>();
    if (k == "oid") return std::make_unique<Opt<In<0>, Dy>>();
    if (k == "oi4") return std::make_unique<Opt<In<4>, S>>();
    if (k == "oid4") return std::make_unique<Opt<In<4>, Dy>>();
    if (k == "os") return std::make_unique<Opt<Oc<1>, S>>();
    if (k == "osd") return std::make_unique<Opt<Oc<1>, Dy>>();
    if (k == "os4") return std::make_unique<Opt<Oc<4>, S>>();
    if (k == "osd5") return std::make_unique<Opt<Oc<5>, Dy>>();
    if (k == "ob") return std::make_unique<Opt<Bo<3>, S>>();
    if (k == "obd") return std::make_unique<Opt<Bo<0>, Dy>>();
    if (k == "di") return std::make_unique<Def<In<0>, D5>>();
    if (k == "di4") return std::make_unique<Def<In<4>, D5>>();
    if (k == "ds") return std::make_unique<Def<Oc<1>, DAbc>>();
    if (k == "ds5") return std::make_unique<Def<Oc<5>, DAbc>>();
    if (k == "or") return std::make_unique<Opt<Re<0>, S>>();
    if (k == "ord") return std::make_unique<Opt<Re<4>, Dy>>();
    if (k == "dr") return std::make_unique<Def<Re<0>, DHalf>>();
    if (k == "dr4") return std::make_unique<Def<Re<4>, DHalf>>();
    if (k == "db") return std::make_unique<Def<Bo<2>, DTrue>>();
    std::cerr << "unknown op kind\n"; exit(2);
}
static void idle(Ev& e) { auto p = e.s.find("\"op\":\"") + 6; e.s.replace(p, e.s.find('"', p) - p, "idle"); }
static Mem& slot(const Args& a, Ev& e) { int s = std::stoi(a[0]); e.i("s", s + 1); return *pool.at(s); }
static Mem& from(const Args& a, Ev& e) { int s = std::stoi(a[1]); e.i("from", s + 1); return *pool.at(s); }
int main(int argc, char** argv)
{
    std::map<std::string, Handler> t;
    t["new"] = [](const Args& a, Ev& e) {
        pool.clear();
        e.key("slots"); e.s += "[";
        for (size_t i = 0; i < a.size(); i++) { pool.push_back(make(a[i])); if (i) e.s += ","; e.s += pool.back()->desc(); }
        e.s += "]"; observe(e); };
    t["set"] = [](const Args& a, Ev& e) { Mem& o = slot(a, e); e.str("how", a[1]); if (!o.set(a[1][0], std::stoll(a[2]), e)) idle(e); observe(e); };
    t["clear"] = [](const Args& a, Ev& e) { slot(a, e).clear(std::stoi(a[1])); observe(e); };
    t["fresh"] = [](const Args& a, Ev& e) { slot(a, e).fresh(e); observe(e); };
    t["copy"] = [](const Args& a, Ev& e) { Mem& o = slot(a, e); o.copy(from(a, e), std::stoi(a[2])); observe(e); };
    t["move"] = [](const Args& a, Ev& e) { Mem& o = slot(a, e); o.move(from(a, e), std::stoi(a[2])); observe(e); };
    t["swap"] = [](const Args& a, Ev& e) { Mem& o = slot(a, e); o.swap(from(a, e)); observe(e); };
    t["cmp"] = [](const Args& a, Ev& e) { Mem& o = slot(a, e); bool ne = false, q = o.eq(from(a, e), ne); e.b("eq", q).b("ne", ne); observe(e); };
    t["cmpv"] = [](const Args& a, Ev& e) { Mem& o = slot(a, e); Bytes c; bool ne = false, q = o.eqv(std::stoll(a[1]), c, ne); e.bytes("c", c).b("eq", q).b("ne", ne); observe(e); };
    t["empty"] = [](const Args& a, Ev& e) { bool q = false; if (!slot(a, e).empty(q)) idle(e); e.b("eq", q); observe(e); };
    auto dec = [](const Args& a, Ev& e) {
        Mem& o = slot(a, e); Bytes b = unhex(a[1]); int via = std::stoi(a[2]);
        e.bytes("b", b);
        { std::string d = o.desc(); auto p = d.find("\"ids\":") + 6; e.raw("ids", d.substr(p, d.find(",\"d\":") - p)); }
        e.b("ok", o.dec(b, via, e)); observe(e); };
    t["dec"] = dec; t["iter"] = dec;
    return run(argc, argv, t);
}
