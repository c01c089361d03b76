// Harness for collections (G04): pools of SEQUENCE OF and SET OF objects of one element type, in both storages.
#include "hx.hpp"
#include "hid.hpp"
#include "fast_ber/ber_types/All.hpp"
#include "fast_ber/ber_types/SetOf.hpp"
#include <tuple>
using namespace fast_ber;
using namespace hx;
static absl::Span<const uint8_t> span(const Exact& x) { return absl::Span<const uint8_t>(x.p, x.n); }
static Bytes int_content(long long v)
{
    Bytes b;
    for (int i = 7; i >= 0; i--) b.push_back(static_cast<uint8_t>(static_cast<unsigned long long>(v) >> (8 * i)));
    while (b.size() > 1 && ((b[0] == 0 && b[1] < 128) || (b[0] == 255 && b[1] >= 128))) b.erase(b.begin());
    return b;
}
static std::string arr(const Bytes& b) { return Ev::arr(b.begin(), b.end()); }
// Elements: a whole number names one.
struct EInt
{
    using I = IdAt<UniversalTag::integer, 1>::type;
    using T = Integer<I>;
    static std::string desc() { return "{\"k\":\"int\",\"ids\":" + jids(I{}) + ",\"in\":[]}"; }
    static T val(long long n) { return T(n); }
    static std::string dump(const T& t) { return arr(int_content(t.value())); }
};
struct EStr
{
    using I = IdAt<UniversalTag::octet_string, 4>::type;
    using T = OctetString<I>;
    static std::string desc() { return "{\"k\":\"str\",\"ids\":" + jids(I{}) + ",\"in\":[]}"; }
    static T val(long long n) { return T(n == 0 ? std::string() : std::string(static_cast<size_t>(n), static_cast<char>('a' + n % 26))); }
    static std::string dump(const T& t) { return arr(Bytes(t.begin(), t.end())); }
};
struct EInts
{
    using J = ExplicitId<UniversalTag::integer>;
    using I = IdAt<UniversalTag::set, 3>::type;
    using T = SequenceOf<Integer<J>, I, StorageMode::small_buffer_optimised>;
    static std::string desc() { return "{\"k\":\"ints\",\"ids\":" + jids(I{}) + ",\"in\":" + jids(J{}) + "}"; }
    static T val(long long n) { T t; for (long long i = 0; i < n % 8; i++) t.push_back(Integer<J>(n * (i + 1))); return t; }
    static std::string dump(const T& t) { std::string o = "["; for (size_t i = 0; i < t.size(); i++) { if (i) o += ","; o += arr(int_content(t[i].value())); } return o + "]"; }
};
struct Mem
{
    virtual ~Mem() = default;
    virtual std::string desc() = 0;
    virtual size_t size() = 0;
    virtual void push(long long v, int how) = 0;
    virtual void insert(size_t k, long long v, int how) = 0;
    virtual void put(size_t k, long long v, int how) = 0;
    virtual void erase(size_t k, size_t m) = 0;
    virtual void pop() = 0;
    virtual void resize(size_t n, long long v, int how) = 0;
    virtual void fill(size_t n, long long v, int how) = 0;
    virtual void clear(int how) = 0;
    virtual void assign(const std::vector<long long>& v, int how) = 0;
    virtual void copy(Mem&, int) = 0;
    virtual void move(Mem&, int) = 0;
    virtual bool swap(Mem&) = 0;
    virtual bool eq(Mem&, bool&) = 0;
    virtual bool dec(const Bytes&, int via) = 0;
    virtual std::string one(long long v) = 0;
    virtual std::string blank() = 0;
    virtual void obs(Ev&) = 0;
};
template <class E, class X> struct L;
template <class E> struct Kinds
{
    using T = typename E::T;
    template <UniversalTag U, int I> using Id_ = typename IdAt<U, I>::type;
    using A = SequenceOf<T, Id_<UniversalTag::sequence, 0>, StorageMode::small_buffer_optimised>;
    using B = SequenceOf<T, Id_<UniversalTag::sequence, 4>, StorageMode::dynamic>;
    using C = SequenceOf<T, Id_<UniversalTag::sequence, 5>, StorageMode::small_buffer_optimised>;
    using D = SequenceOf<T, Id_<UniversalTag::sequence, 2>, StorageMode::dynamic>;
    using S = SetOf<T>;
    using G = SetOf<T, Id_<UniversalTag::set, 3>, StorageMode::small_buffer_optimised>;
    using List = std::tuple<A, B, C, D, S, G>;
};
template <class E, class X> struct L : Mem
{
    using T = typename E::T;
    using Impl = typename X::Implementation;
    std::unique_ptr<X> x = std::make_unique<X>();
    // Calls f with the other member's collection, whichever of the kinds it is.
    template <class F, class... K> static void each(Mem& o, F f, std::tuple<K...>*)
    {
        bool hit = ((dynamic_cast<L<E, K>*>(&o) ? (f(*dynamic_cast<L<E, K>*>(&o)->x), true) : false) || ...);
        if (!hit) { std::cerr << "unknown op mix\n"; exit(2); }
    }
    template <class F> static void with(Mem& o, F f) { each(o, f, static_cast<typename Kinds<E>::List*>(nullptr)); }
    std::string desc() override { return "{\"el\":" + E::desc() + ",\"ids\":" + jids(Identifier<X>{}) + "}"; }
    size_t size() override { return x->size(); }
    std::string one(long long v) override { return E::dump(E::val(v)); }
    std::string blank() override { return E::dump(T()); }
    void push(long long v, int how) override
    {
        T t = E::val(v);
        switch (how)
        {
        case 0: x->push_back(t); break;
        case 1: x->push_back(std::move(t)); break;
        case 2: x->emplace_back(t); break;
        case 3: x->insert(x->end(), t); break;
        default: x->resize(x->size() + 1); x->back() = t;
        }
    }
    void insert(size_t k, long long v, int how) override
    {
        T t = E::val(v);
        if (how == 0) x->insert(x->begin() + k, t); else if (how == 1) x->emplace(x->begin() + k, std::move(t)); else x->insert(x->begin() + k, 1, t);
    }
    void put(size_t k, long long v, int how) override { T t = E::val(v); if (how == 0) (*x)[k] = t; else if (how == 1) x->at(k) = std::move(t); else *(x->begin() + k) = t; }
    void erase(size_t k, size_t m) override { if (k == m) x->erase(x->begin() + k); else x->erase(x->begin() + k, x->begin() + m + 1); }
    void pop() override { x->pop_back(); }
    void resize(size_t n, long long v, int how) override { if (how) x->resize(n, E::val(v)); else x->resize(n); }
    void fill(size_t n, long long v, int how) override { if (how) x->assign(n, E::val(v)); else *x = X(n, E::val(v)); }
    void clear(int how) override { if (how == 0) x->clear(); else if (how == 1) *x = X(); else if (how == 2) x->erase(x->begin(), x->end()); else x->resize(0); }
    void assign(const std::vector<long long>& v, int how) override
    {
        std::vector<T> t; for (long long n : v) t.push_back(E::val(n));
        Impl m(t.begin(), t.end());
        switch (how)
        {
        case 0: x->assign(t.begin(), t.end()); break;
        case 1: x = std::make_unique<X>(t.begin(), t.end()); break;
        case 2: x = std::make_unique<X>(static_cast<const Impl&>(m)); break;
        case 3: x = std::make_unique<X>(std::move(m)); break;
        case 4: *x = m; break;
        default: *x = X(std::move(m));
        }
    }
    void copy(Mem& o, int how) override { with(o, [&](auto& y) { const auto& c = y; if (how) x = std::make_unique<X>(c); else *x = c; }); }
    void move(Mem& o, int how) override { with(o, [&](auto& y) { if (how) x = std::make_unique<X>(std::move(y)); else *x = std::move(y); }); }
    bool swap(Mem& o) override { auto* p = dynamic_cast<L*>(&o); if (!p) return false; std::swap(*x, *p->x); return true; }
    bool eq(Mem& o, bool& ne) override { bool r = false; with(o, [&](auto& y) { r = *x == y; ne = *x != y; }); return r; }
    bool dec(const Bytes& b, int via) override
    {
        Exact s(b);
        if (via == 1) { BerViewIterator it(span(s)); return fast_ber::decode(it, *x).success; }
        if (via == 2) return fast_ber::decode(span(s), *x).success;
        return x->decode(BerView(span(s))).success;
    }
    void obs(Ev& e) override
    {
        const X& c = *x;
        std::string o = "[", q = "[";
        for (size_t i = 0; i < c.size(); i++) { if (i) o += ","; o += E::dump(c[i]); }
        bool first = true;
        for (const T& t : c) { if (!first) q += ","; first = false; q += E::dump(t); }
        e.raw("els", o + "]");
        bool same = o == q && c.empty() == (c.size() == 0) && static_cast<size_t>(c.end() - c.begin()) == c.size();
        size_t el = c.encoded_length();
        Guarded g(el), h(el + 9);
        EncodeResult r = c.encode(absl::MakeSpan(g.data(), el)), r2 = c.encode(absl::MakeSpan(h.data(), h.n));
        e.bytes("enc", g.data(), r.success ? r.length : 0).i("len", static_cast<long long>(el));
        same = same && r.success && r2.success && r2.length == r.length && memcmp(g.data(), h.data(), el) == 0 && fast_ber::encoded_length(c) == el;
        bool s = true, guard = g.intact() && h.intact();
        for (size_t n : {el - 1, el / 2, size_t(1), size_t(0)}) { Guarded k(n); s = s && !c.encode(absl::MakeSpan(k.data(), n)).success; guard = guard && k.intact(); }
        e.b("short", s).b("g", guard).b("same", same);
    }
};
static std::vector<std::unique_ptr<Mem>> pool;
template <class E> static std::unique_ptr<Mem> make(char k)
{
    using K = Kinds<E>;
    switch (k)
    {
    case 'A': return std::make_unique<L<E, typename K::A>>();
    case 'B': return std::make_unique<L<E, typename K::B>>();
    case 'C': return std::make_unique<L<E, typename K::C>>();
    case 'D': return std::make_unique<L<E, typename K::D>>();
    case 'S': return std::make_unique<L<E, typename K::S>>();
    default: return std::make_unique<L<E, typename K::G>>();
    }
}
static void observe(Ev& e)
{
    e.key("obs"); e.s += "[";
    for (size_t i = 0; i < pool.size(); i++) { if (i) e.s += ","; Ev t; pool[i]->obs(t); e.s += t.done(); }
    e.s += "]"; e.first = false;
}
static void idle(Ev& e) { auto p = e.s.find("\"op\":\"") + 6; e.s.replace(p, e.s.find('"', p) - p, "idle"); }
static Mem& slot(const Args& a, Ev& e) { int s = std::stoi(a[0]); e.i("s", s + 1); return *pool.at(s); }
static Mem& from(const Args& a, Ev& e) { int s = std::stoi(a[1]); e.i("from", s + 1); return *pool.at(s); }
int main(int argc, char** argv)
{
    std::map<std::string, Handler> t;
    // new ELEMENT KIND...
    t["new"] = [](const Args& a, Ev& e) {
        pool.clear();
        e.key("slots"); e.s += "[";
        for (size_t i = 1; i < a.size(); i++)
        {
            pool.push_back(a[0] == "int" ? make<EInt>(a[i][0]) : a[0] == "str" ? make<EStr>(a[i][0]) : make<EInts>(a[i][0]));
            if (i > 1) e.s += ","; e.s += pool.back()->desc();
        }
        e.s += "]"; observe(e); };
    t["push"] = [](const Args& a, Ev& e) { Mem& o = slot(a, e); long long v = std::stoll(a[1]); e.raw("c", o.one(v)); o.push(v, std::stoi(a[2])); observe(e); };
    t["insert"] = [](const Args& a, Ev& e) {
        Mem& o = slot(a, e); size_t k = std::stoul(a[1]); long long v = std::stoll(a[2]); e.i("k", static_cast<long long>(k)).raw("c", o.one(v));
        if (k > o.size() + 1) idle(e); else o.insert(k - 1, v, std::stoi(a[3])); observe(e); };
    t["put"] = [](const Args& a, Ev& e) {
        Mem& o = slot(a, e); size_t k = std::stoul(a[1]); long long v = std::stoll(a[2]); e.i("k", static_cast<long long>(k)).raw("c", o.one(v));
        if (k > o.size()) idle(e); else o.put(k - 1, v, std::stoi(a[3])); observe(e); };
    t["erase"] = [](const Args& a, Ev& e) {
        Mem& o = slot(a, e); size_t k = std::stoul(a[1]), m = std::stoul(a[2]); e.i("k", static_cast<long long>(k)).i("m", static_cast<long long>(m));
        if (m > o.size()) idle(e); else o.erase(k - 1, m - 1); observe(e); };
    t["pop"] = [](const Args& a, Ev& e) { Mem& o = slot(a, e); if (o.size()) o.pop(); else idle(e); observe(e); };
    t["resize"] = [](const Args& a, Ev& e) {
        Mem& o = slot(a, e); size_t m = std::stoul(a[1]); long long v = std::stoll(a[2]); int how = std::stoi(a[3]);
        e.i("m", static_cast<long long>(m)).raw("c", how ? o.one(v) : o.blank()); o.resize(m, v, how); observe(e); };
    t["fill"] = [](const Args& a, Ev& e) {
        Mem& o = slot(a, e); size_t m = std::stoul(a[1]); long long v = std::stoll(a[2]);
        e.i("m", static_cast<long long>(m)).raw("c", o.one(v)); o.fill(m, v, std::stoi(a[3])); observe(e); };
    t["clear"] = [](const Args& a, Ev& e) { slot(a, e).clear(std::stoi(a[1])); observe(e); };
    t["assign"] = [](const Args& a, Ev& e) {
        Mem& o = slot(a, e); std::vector<long long> v; std::string s = "[";
        for (size_t i = 2; i < a.size(); i++) { v.push_back(std::stoll(a[i])); if (i > 2) s += ","; s += o.one(v.back()); }
        e.raw("cs", s + "]"); o.assign(v, std::stoi(a[1])); observe(e); };
    t["copy"] = [](const Args& a, Ev& e) { Mem& o = slot(a, e); o.copy(from(a, e), std::stoi(a[2])); observe(e); };
    t["move"] = [](const Args& a, Ev& e) { Mem& o = slot(a, e); o.move(from(a, e), std::stoi(a[2])); observe(e); };
    t["swap"] = [](const Args& a, Ev& e) { Mem& o = slot(a, e); if (!o.swap(from(a, e))) idle(e); observe(e); };
    t["cmp"] = [](const Args& a, Ev& e) { Mem& o = slot(a, e); bool ne = false, q = o.eq(from(a, e), ne); e.b("eq", q).b("ne", ne); observe(e); };
    t["dec"] = [](const Args& a, Ev& e) { Mem& o = slot(a, e); Bytes b = unhex(a[1]); e.bytes("b", b); e.b("ok", o.dec(b, std::stoi(a[2]))); observe(e); };
    return run(argc, argv, t);
}
