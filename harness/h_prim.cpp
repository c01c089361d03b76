// Harness for the primitive types: a pool of objects of every type under several identifiers.
#include "hx.hpp"

#include "fast_ber/ber_types/All.hpp"

using namespace fast_ber;
using namespace hx;

template <UniversalTag U, int I> struct IdAt;
template <UniversalTag U> struct IdAt<U, 0> { using type = ExplicitId<U>; };
template <UniversalTag U> struct IdAt<U, 1> { using type = Id<Class::context_specific, 0>; };
template <UniversalTag U> struct IdAt<U, 2> { using type = Id<Class::application, 31>; };
template <UniversalTag U> struct IdAt<U, 3> { using type = Id<Class::private_, 1099511627776>; };
template <UniversalTag U> struct IdAt<U, 4> { using type = DoubleId<Id<Class::context_specific, 1>, ExplicitId<U>>; };
template <UniversalTag U> struct IdAt<U, 5> { using type = DoubleId<Id<Class::application, 200>, Id<Class::context_specific, 31>>; };
static constexpr int NIDS = 6;

template <Class c, Tag t> static std::string jids(Id<c, t>)
{
    return "[{\"cls\":" + std::to_string(static_cast<int>(c)) + ",\"tag\":" + jdigits(t, 128) + "}]";
}
template <class A, class B> static std::string jids(DoubleId<A, B>)
{
    std::string a = jids(A{}), b = jids(B{});
    return a.substr(0, a.size() - 1) + "," + b.substr(1);
}

enum class Small : int8_t { zero = 0 };
enum class Wide : int64_t { zero = 0 };
enum class Plain { zero = 0 };

static std::string jarcs(const ObjectIdentifierComponents& c)
{
    std::string o = "[";
    for (size_t i = 0; i < c.size(); i++) { if (i) o += ','; o += c[i] < 0 ? "[-1]" : jdigits(static_cast<unsigned long long>(c[i]), 128); }
    return o + "]";
}
static ObjectIdentifierComponents arcs(const std::string& s)
{
    ObjectIdentifierComponents c;
    std::stringstream ss(s); std::string t;
    if (s == "-") return c;
    while (std::getline(ss, t, '.')) c.push_back(std::stoll(t));
    return c;
}
static std::string jdouble(double d) { int64_t v; memcpy(&v, &d, 8); return joct(v); }
static double bits(const std::string& s) { uint64_t v = std::stoull(s, nullptr, 16); double d; memcpy(&d, &v, 8); return d; }

static void jtime(const std::function<absl::Time()>& f, Ev& e)
{
    try
    {
        absl::Time t = f();
        int64_t s = absl::ToUnixSeconds(t);
        bool whole = absl::FromUnixSeconds(s) == t;
        int64_t d = s / 86400, r = s % 86400;
        if (r < 0) { r += 86400; d--; }
        if (d > 100000000 || d < -100000000) { d = 99999999; whole = false; }
        e.b("tok", true).b("whole", whole).i("day", d).i("sec", r);
    }
    catch (const std::exception&) { e.b("tok", false).b("whole", true).i("day", 0).i("sec", 0); }
}

// ---- per kind: type, setting a value, reading it ----
struct KBool
{
    static constexpr const char* name = "bool"; static constexpr bool cross = true;
    template <int I> using T = Boolean<typename IdAt<UniversalTag::boolean, I>::type>;
    template <class X> static bool set(X& x, const Args& a) { bool v = a[1] == "1"; if (a[0] == "a") x.assign(v); else if (a[0] == "c") x = X(v); else x = v; return true; }
    template <class X> static void val(const X& x, Ev& e) { e.b("val", x.value()).b("veq", static_cast<bool>(x) == x.value()); }
};
struct KInt
{
    static constexpr const char* name = "int"; static constexpr bool cross = true;
    template <int I> using T = Integer<typename IdAt<UniversalTag::integer, I>::type>;
    template <class X> static bool set(X& x, const Args& a) { int64_t v = std::stoll(a[1]); if (a[0] == "a") x.assign(v); else if (a[0] == "c") x = X(v); else x = v; return true; }
    template <class X> static void val(const X& x, Ev& e) { e.raw("val", joct(x.value())).b("veq", x == x.value() && !(x != x.value())); }
};
template <class E> struct KEnum
{
    template <int I> using T = Enumerated<E, typename IdAt<UniversalTag::enumerated, I>::type>;
    static constexpr bool cross = true;
    template <class X> static bool set(X& x, const Args& a) { E v = static_cast<E>(std::stoll(a[1])); if (a[0] == "a") x.assign(v); else if (a[0] == "c") x = X(v); else x = v; return true; }
    template <class X> static void val(const X& x, Ev& e) { e.raw("val", joct(static_cast<int64_t>(x.value()))).b("veq", x == x.value() && !(x != x.value())); }
};
struct KEnum8 : KEnum<Small> { static constexpr const char* name = "enum8"; };
struct KEnum32 : KEnum<Plain> { static constexpr const char* name = "enum32"; };
struct KEnum64 : KEnum<Wide> { static constexpr const char* name = "enum64"; };
struct KNull
{
    static constexpr const char* name = "null"; static constexpr bool cross = true;
    template <int I> using T = Null<typename IdAt<UniversalTag::null, I>::type>;
    template <class X> static bool set(X& x, const Args&) { x = X(nullptr); return true; }
    template <class X> static void val(const X& x, Ev& e) { e.b("val", true).b("veq", x == x && !(x != x)); }
};
struct KOid
{
    static constexpr const char* name = "oid"; static constexpr bool cross = false;
    template <int I> using T = ObjectIdentifier<typename IdAt<UniversalTag::object_identifier, I>::type>;
    template <class X> static bool set(X& x, const Args& a)
    {
        auto v = arcs(a[1]);
        if (a[0] == "c") { x = X(v); return true; }
        if (a[0] == "=") { x = v; return true; }
        return x.assign(v);
    }
    template <class X> static void val(const X& x, Ev& e)
    {
        auto v = x.value();
        ObjectIdentifierComponents each;
        size_t n = x.number_of_components();
        for (size_t i = 0; i < n && i < 200; i++) each.push_back(x.component_number(i));
        e.raw("val", jarcs(v)).i("cnt", static_cast<long long>(n)).raw("each", jarcs(each)).b("past", x.component_number(n) == -1 && x.component_number(n + 7) == -1);
        e.b("veq", x == v && !(x != v) && x == x);
    }
};
struct KReal
{
    static constexpr const char* name = "real"; static constexpr bool cross = true;
    template <int I> using T = Real<typename IdAt<UniversalTag::real, I>::type>;
    template <class X> static bool set(X& x, const Args& a) { double v = bits(a[1]); if (a[0] == "a") x.assign(v); else if (a[0] == "c") x = X(v); else x = v; return true; }
    template <class X> static void val(const X& x, Ev& e) { e.raw("val", jdouble(x.value())); double a = x.value(), b = static_cast<double>(x); e.b("veq", memcmp(&a, &b, 8) == 0); }
};
template <UniversalTag U> struct KTimeT
{
    template <int I> using T = GeneralizedTime<typename IdAt<U, I>::type>;
    static constexpr bool cross = false;
    template <class X> static bool set(X& x, const Args& a)
    {
        if (a[0] == "local") x.set_time(absl::CivilSecond(std::stoi(a[1]), std::stoi(a[2]), std::stoi(a[3]), std::stoi(a[4]), std::stoi(a[5]), std::stoi(a[6])));
        else
        {
            absl::Time t = absl::FromUnixSeconds(std::stoll(a[1]) * 86400 + std::stoll(a[2]));
            if (a[0] == "univ") x.set_time(t);
            else if (a[0] == "ctor") x = X(t);
            else x.set_time(t, std::stoi(a[3]));
        }
        return true;
    }
    template <class X> static void val(const X& x, Ev& e)
    {
        std::string s = x.string();
        e.bytes("str", Bytes(s.begin(), s.end())).i("fmt", static_cast<int>(x.format()));
        jtime([&] { return x.time(); }, e);
        bool eq = true;
        try { (void)x.time(); eq = x == x && !(x != x); } catch (...) {}
        e.b("veq", eq);
    }
};
struct KTime : KTimeT<UniversalTag::generalized_time> { static constexpr const char* name = "time"; };
struct KUtc : KTimeT<UniversalTag::utc_time> { static constexpr const char* name = "utc"; };

struct Obj
{
    virtual ~Obj() = default;
    virtual bool set(const Args&) = 0;
    virtual void val(Ev&) = 0;
    virtual size_t len() = 0;
    virtual EncodeResult enc(absl::Span<uint8_t>, int) = 0;
    virtual bool dec(const Exact&, int) = 0;
    virtual void copy(Obj&, int) = 0;
    virtual std::string ids() = 0;
    int id = 0;
    const char* kind = "";
};

template <class K, int I> struct ObjT : Obj
{
    using X = typename K::template T<I>;
    X x;
    ObjT() { id = I; kind = K::name; }
    bool set(const Args& a) override { return K::set(x, a); }
    void val(Ev& e) override { K::val(x, e); }
    size_t len() override { return x.encoded_length(); }
    EncodeResult enc(absl::Span<uint8_t> s, int how) override { return how ? fast_ber::encode(s, x) : x.encode(s); }
    bool dec(const Exact& b, int how) override
    {
        absl::Span<const uint8_t> s(b.p, b.n);
        if (how == 0) return x.decode(BerView(s)).success;
        if (how == 1) return fast_ber::decode(s, x).success;
        BerViewIterator it(s);
        return fast_ber::decode(it, x).success;
    }
    template <int J> bool from(Obj& o, int how)
    {
        if (o.id != J) return false;
        if constexpr (I == J || K::cross)
        {
            auto& y = static_cast<ObjT<K, J>&>(o).x;
            if (how == 0) x = y;
            else { X t(y); x = t; }
            return true;
        }
        else { std::cerr << "unknown op: copy between identifiers\n"; exit(2); }
    }
    void copy(Obj& o, int how) override { from<0>(o, how) || from<1>(o, how) || from<2>(o, how) || from<3>(o, how) || from<4>(o, how) || from<5>(o, how); }
    std::string ids() override { return jids(typename X::AsnId{}); }
};

template <class K> static std::unique_ptr<Obj> make(int i)
{
    switch (i)
    {
    case 0: return std::make_unique<ObjT<K, 0>>();
    case 1: return std::make_unique<ObjT<K, 1>>();
    case 2: return std::make_unique<ObjT<K, 2>>();
    case 3: return std::make_unique<ObjT<K, 3>>();
    case 4: return std::make_unique<ObjT<K, 4>>();
    default: return std::make_unique<ObjT<K, 5>>();
    }
}

static std::vector<std::unique_ptr<Obj>> pool;

static void observe(Obj& o, Ev& e)
{
    e.key("o");
    e.s += "{"; e.first = true;
    o.val(e);
    size_t n = o.len();
    Guarded g(n);
    EncodeResult r = o.enc(absl::MakeSpan(g.data(), g.n), 0);
    e.i("el", static_cast<long long>(n)).b("eok", r.success && r.length == n).bytes("enc", g.data(), r.success ? n : 0).b("g", g.intact());
    e.s += "}";
}

static void op_new(const Args& a, Ev& e)     // new kind:id kind:id ...
{
    pool.clear();
    e.key("slots"); e.s += "[";
    for (size_t i = 0; i < a.size(); i++)
    {
        auto c = a[i].find(':');
        std::string k = a[i].substr(0, c);
        int id = std::stoi(a[i].substr(c + 1));
        std::unique_ptr<Obj> o;
        if (false) {}
#ifdef WITH_B04
        else if (k == "bool") o = make<KBool>(id);
        else if (k == "int") o = make<KInt>(id);
        else if (k == "enum8") o = make<KEnum8>(id);
        else if (k == "enum32") o = make<KEnum32>(id);
        else if (k == "enum64") o = make<KEnum64>(id);
        else if (k == "null") o = make<KNull>(id);
#endif
#ifdef WITH_B05
        else if (k == "oid") o = make<KOid>(id);
#endif
#ifdef WITH_B06
        else if (k == "real") o = make<KReal>(id);
#endif
#ifdef WITH_B07
        else if (k == "time") o = make<KTime>(id);
        else if (k == "utc") o = make<KUtc>(id);
#endif
        else { std::cerr << "unknown op kind " << k << "\n"; exit(2); }
        if (i) e.s += ",";
        e.s += "{\"ty\":\"" + k + "\",\"ids\":" + o->ids() + "}";
        pool.push_back(std::move(o));
    }
    e.s += "]";
    const char* tz = getenv("FB_TZOFF");
    e.i("tz", tz ? atol(tz) : 0);
    e.key("obs"); e.s += "[";
    for (size_t i = 0; i < pool.size(); i++)
    {
        Ev t; observe(*pool[i], t);
        if (i) e.s += ",";
        e.s += t.s.substr(5);   // drop {"o":
    }
    e.s += "]"; e.first = false;
}
static Obj& slot(const Args& a, Ev& e) { int s = std::stoi(a[0]); e.i("s", s + 1); return *pool.at(s); }

// numbers as the specification represents them
static void jval(const char* kind, const Args& a, Ev& e)
{
    std::string k = kind;
    if (k == "bool") e.b("v", a[1] == "1");
    else if (k == "int" || k.substr(0, 4) == "enum") e.raw("v", joct(std::stoll(a[1])));
    else if (k == "null") e.b("v", true);
    else if (k == "oid") e.raw("v", jarcs(arcs(a[1])));
    else if (k == "real") e.raw("v", jdouble(bits(a[1])));
    else
    {
        std::string o = "[";
        for (size_t i = 1; i < a.size(); i++) { if (i > 1) o += ","; o += a[i]; }
        e.raw("v", o + "]");
    }
}

static void op_set(const Args& a, Ev& e)
{
    Obj& o = slot(a, e);
    Args r(a.begin() + 1, a.end());
    e.str("how", r[0]);
    jval(o.kind, r, e);
    bool ok = o.set(r);
    e.b("ok", ok);
    observe(o, e);
}
static void op_copy(const Args& a, Ev& e)
{
    Obj& o = slot(a, e);
    int from = std::stoi(a[1]);
    e.i("from", from + 1);
    o.copy(*pool.at(from), std::stoi(a[2]));
    observe(o, e);
    if (static_cast<int>(pool.size()) > from) { Ev t; observe(*pool[from], t); e.key("src"); e.s += t.s.substr(5); }
}
static void op_dec(const Args& a, Ev& e)
{
    Obj& o = slot(a, e);
    Bytes b = unhex(a[1]);
    Exact x(b);
    bool ok = o.dec(x, std::stoi(a[2]));
    e.bytes("b", b).b("ok", ok);
    observe(o, e);
}
static void op_enc(const Args& a, Ev& e)
{
    Obj& o = slot(a, e);
    size_t n = std::stoul(a[1]);
    Guarded g(n);
    EncodeResult r = o.enc(absl::MakeSpan(g.data(), n), std::stoi(a[2]));
    e.i("buf", static_cast<long long>(n)).b("ok", r.success).i("r", static_cast<long long>(r.length)).b("g", g.intact());
    e.bytes("out", g.data(), r.success ? std::min(n, r.length) : 0);
    observe(o, e);
}

// ---- content codecs on their own ----
static void op_oidd(const Args& a, Ev& e)
{
    Bytes b = unhex(a[0]);
    Exact x(b);
    absl::Span<const uint8_t> s(x.p, x.n);
    ObjectIdentifierComponents v{1, 2, 3};
    bool ok = decode_object_id(s, v).success;
    size_t n = get_number_of_components(s);
    ObjectIdentifierComponents each;
    for (size_t i = 0; i < n && i < 200; i++) each.push_back(get_component_number(s, i));
    e.bytes("b", b).b("ok", ok).raw("val", jarcs(v)).i("cnt", static_cast<long long>(n)).raw("each", jarcs(each));
    e.b("past", get_component_number(s, n) == -1 && get_component_number(s, n + 3) == -1);
}
static void op_oide(const Args& a, Ev& e)
{
    auto v = arcs(a[0]);
    size_t n = std::stoul(a[1]);
    Guarded g(n);
    size_t p = encoded_object_id_length(v);
    EncodeResult r = encode_object_id(absl::MakeSpan(g.data(), n), v);
    e.raw("v", jarcs(v)).i("buf", static_cast<long long>(n)).i("p", static_cast<long long>(p)).b("ok", r.success).i("r", static_cast<long long>(r.length)).b("g", g.intact());
    e.bytes("out", g.data(), r.success ? std::min(n, r.length) : 0);
}
static void op_reald(const Args& a, Ev& e)
{
    Bytes b = unhex(a[0]);
    Exact x(b);
    double d = 77.5;
    bool ok = decode_real(absl::Span<const uint8_t>(x.p, x.n), d);
    e.bytes("b", b).b("ok", ok).raw("val", jdouble(d));
}
static void op_reale(const Args& a, Ev& e)
{
    double d = bits(a[0]);
    Guarded g(100);
    size_t n = encode_real(absl::MakeSpan(g.data(), 100), d);
    e.raw("v", jdouble(d)).b("g", g.intact()).bytes("out", g.data(), n);
    double back = 77.5;
    bool ok = decode_real(absl::Span<const uint8_t>(g.data(), n), back);
    e.b("bok", ok).raw("back", jdouble(back));
}
static void op_intd(const Args& a, Ev& e)
{
    Bytes b = unhex(a[0]);
    Exact x(b);
    int64_t v = 77;
    bool ok = decode_integer(absl::Span<const uint8_t>(x.p, x.n), v);
    e.bytes("b", b).b("ok", ok).raw("val", joct(v));
}
static void op_inte(const Args& a, Ev& e)
{
    int64_t v = std::stoll(a[0]);
    size_t n = std::stoul(a[1]);
    Guarded g(n);
    size_t r = encode_integer(absl::MakeSpan(g.data(), n), v);
    e.raw("v", joct(v)).i("buf", static_cast<long long>(n)).i("r", static_cast<long long>(r)).b("g", g.intact()).bytes("out", g.data(), std::min(n, r));
}

int main(int argc, char** argv)
{
    return run(argc, argv, {{"new", op_new}, {"set", op_set}, {"copy", op_copy}, {"dec", op_dec}, {"enc", op_enc},
                            {"oidd", op_oidd}, {"oide", op_oide}, {"reald", op_reald}, {"reale", op_reale}, {"intd", op_intd}, {"inte", op_inte}});
}
