// Harness for owning containers and strings (B08).
#include "hx.hpp"
#include "hid.hpp"

#include "fast_ber/ber_types/All.hpp"
#include "fast_ber/util/BerContainer.hpp"
#include "fast_ber/util/FixedIdBerContainer.hpp"
#include "fast_ber/util/SmallFixedIdBerContainer.hpp"

using namespace fast_ber;
using namespace hx;

static absl::Span<const uint8_t> span(const Exact& x) { return absl::Span<const uint8_t>(x.p, x.n); }
template <class A, class B> static bool same(const A& a, const B& b) { return absl::Span<const uint8_t>(a.data(), a.size()) == absl::Span<const uint8_t>(b.data(), b.size()); }

struct Obj
{
    virtual ~Obj() = default;
    std::string kind; int id = 0;
    virtual std::string ids() = 0;
    virtual int cap() { return 0; }
    virtual void set(char how, const Bytes&) = 0;
    virtual void hset(bool, Construction, Class, Tag, const Bytes&) { bad(); }
    virtual void hsub(Construction, Class, Tag, size_t, size_t) { bad(); }
    virtual void resize(size_t) = 0;
    virtual void write(size_t p, uint8_t v, int how) = 0;
    virtual void sub(size_t off, size_t n, int how) = 0;
    virtual bool dec(const Bytes&, int via) = 0;
    virtual bool child() { bad(); return false; }
    virtual bool self() = 0;
    virtual void copy(Obj&, int how) = 0;
    virtual void move(Obj&, int how) = 0;
    virtual void swap(Obj&) = 0;
    virtual void cross(Obj&, int) { bad(); }
    virtual bool eq(Obj&) { bad(); return false; }
    virtual bool ne(Obj&) { bad(); return false; }
    virtual void obs(Ev&) = 0;
    virtual EncodeResult enc(absl::Span<uint8_t>) = 0;
    virtual absl::Span<const uint8_t> content() = 0;
    static void bad() { std::cerr << "unknown op for this object\n"; exit(2); }
};

template <class F> static void encodings(Ev& e, size_t n, F enc)
{
    Guarded g(n);
    EncodeResult r = enc(absl::MakeSpan(g.data(), n));
    bool ok = r.success && r.length == n;
    Guarded h(n ? n - 1 : 0);
    EncodeResult q = enc(absl::MakeSpan(h.data(), h.n));
    e.bytes("enc", g.data(), ok ? n : 0).b("g", g.intact() && h.intact()).i("short", q.success ? 2 : ok ? 1 : 0);
}

struct Raw : Obj
{
    std::unique_ptr<BerContainer> x = std::make_unique<BerContainer>();
    Raw() { kind = "raw"; }
    std::string ids() override { return "[]"; }
    void set(char how, const Bytes& b) override
    {
        Exact s(b);
        if (how == 'c') x = std::make_unique<BerContainer>(span(s), ConstructionMethod::construct_with_provided_content);
        else x->assign_content(span(s));
    }
    void hset(bool ctor, Construction k, Class c, Tag t, const Bytes& b) override
    {
        Exact s(b);
        if (ctor) x = std::make_unique<BerContainer>(k, c, t, span(s));
        else x->assign_content(k, c, t, span(s));
    }
    void hsub(Construction k, Class c, Tag t, size_t off, size_t n) override { const BerContainer& o = *x; x->assign_content(k, c, t, o.content().subspan(off, n)); }
    void resize(size_t n) override { x->resize_content(n); }
    void write(size_t p, uint8_t v, int how) override { if (how) x->content()[p] = v; else x->content_data()[p] = v; }
    void sub(size_t off, size_t n, int) override { const BerContainer& c = *x; x->assign_content(c.content().subspan(off, n)); }
    bool dec(const Bytes& b, int via) override
    {
        Exact s(b);
        if (via == 0) return x->decode(BerView(span(s))).success;
        if (via == 1) x = std::make_unique<BerContainer>(BerView(span(s)));
        else if (via == 2) *x = BerView(span(s));
        else x = std::make_unique<BerContainer>(span(s), ConstructionMethod::construct_from_ber_packet);
        return x->is_valid();
    }
    bool child() override { return x->decode(BerView(static_cast<const BerContainer&>(*x).content())).success; }
    bool self() override { return x->decode(x->view()).success; }
    void copy(Obj& o, int how) override { auto& y = *static_cast<Raw&>(o).x; if (how) x = std::make_unique<BerContainer>(y); else *x = y; }
    void move(Obj& o, int how) override { auto& y = *static_cast<Raw&>(o).x; if (how) x = std::make_unique<BerContainer>(std::move(y)); else *x = std::move(y); }
    void swap(Obj& o) override { std::swap(*x, *static_cast<Raw&>(o).x); }
    EncodeResult enc(absl::Span<uint8_t> s) override { return x->encode(s); }
    absl::Span<const uint8_t> content() override { return static_cast<const BerContainer&>(*x).content(); }
    void obs(Ev& e) override
    {
        const BerContainer& c = *x;
        bool v = c.is_valid();
        auto ber = v ? c.ber() : absl::Span<const uint8_t>();
        e.b("ok", v).bytes("ber", ber.data(), ber.size());
        if (v)
        {
            auto ct = c.content();
            e.bytes("c", ct.data(), ct.size()).i("cl", static_cast<long long>(c.content_length())).i("cls", static_cast<int>(c.class_())).i("cons", static_cast<int>(c.construction()));
            e.raw("tag", c.tag() < 0 ? "[-1]" : jdigits(static_cast<unsigned long long>(c.tag()), 128)).i("idlen", static_cast<long long>(c.identifier_length())).i("hdr", static_cast<long long>(c.header_length()));
            BerView w = c.view();
            e.b("same", w.ber_data() == c.ber_data() && w.ber_length() == c.ber_length() && w.content_data() == c.content_data() && w.is_valid() && same(x->content(), ct) && c.ber().data() == c.ber_data());
        }
        else e.b("same", !c.view().is_valid());
        encodings(e, ber.size(), [&](absl::Span<uint8_t> s) { return c.encode(s); });
    }
};

template <class X, bool small, int C> struct FixT : Obj
{
    std::unique_ptr<X> x = std::make_unique<X>();
    int cap() override { return C; }
    void set(char how, const Bytes& b) override
    {
        Exact s(b);
        if (how == 'c') x = std::make_unique<X>(span(s), ConstructionMethod::construct_with_provided_content);
        else x->assign_content(span(s));
    }
    void resize(size_t n) override { x->resize_content(n); }
    void write(size_t p, uint8_t v, int how) override { if (how) x->content()[p] = v; else x->content_data()[p] = v; }
    void sub(size_t off, size_t n, int) override { const X& c = *x; x->assign_content(c.content().subspan(off, n)); }
    bool dec(const Bytes& b, int via) override
    {
        Exact s(b);
        (void)via;
        return x->decode(BerView(span(s))).success;
    }
    bool self() override { return x->decode(x->view()).success; }
    void copy(Obj& o, int how) override { auto& y = *static_cast<FixT&>(o).x; if (how) x = std::make_unique<X>(y); else *x = y; }
    void move(Obj& o, int how) override { auto& y = *static_cast<FixT&>(o).x; if (how) x = std::make_unique<X>(std::move(y)); else *x = std::move(y); }
    void swap(Obj& o) override { std::swap(*x, *static_cast<FixT&>(o).x); }
    bool eq(Obj& o) override { return *x == *static_cast<FixT&>(o).x; }
    bool ne(Obj& o) override { return *x != *static_cast<FixT&>(o).x; }
    EncodeResult enc(absl::Span<uint8_t> s) override { return x->encode(s); }
    absl::Span<const uint8_t> content() override { return static_cast<const X&>(*x).content(); }
    void obs(Ev& e) override
    {
        const X& c = *x;
        auto ct = c.content();
        e.bytes("ber", c.ber().data(), c.ber().size()).bytes("c", ct.data(), ct.size()).i("cl", static_cast<long long>(c.content_length()));
        size_t el = c.ber_length();
        if constexpr (!small) el = c.encoded_length();
        e.i("el", static_cast<long long>(el));
        BerView w = c.view();
        e.b("same", w.is_valid() && same(w.ber(), c.ber()) && c.ber().data() == c.ber_data() && c.ber_length() == c.ber().size() && ct.data() == c.content_data() && same(x->content(), ct) && c.ber_length() <= el);
        encodings(e, el, [&](absl::Span<uint8_t> s) { return c.encode(s); });
    }
};
template <int I> struct Fix : FixT<FixedIdBerContainer<typename IdAt<UniversalTag::octet_string, I>::type>, false, 0>
{
    using Id = typename IdAt<UniversalTag::octet_string, I>::type;
    Fix() { this->kind = "fix"; this->id = I; }
    std::string ids() override { return jids(Id{}); }
    bool dec(const Bytes& b, int via) override
    {
        if (via == 2) { Exact s(b); Bytes before(this->content().begin(), this->content().end()); bool ok = FixedIdBerContainer<Id>().decode(BerView(span(s))).success; *this->x = BerView(span(s)); return ok; }
        return FixT<FixedIdBerContainer<Id>, false, 0>::dec(b, via);
    }
    template <int J> bool from(Obj& o, int how)
    {
        if (o.kind != "fix" || o.id != J) return false;
        auto& y = *static_cast<Fix<J>&>(o).x;
        if (how) this->x = std::make_unique<FixedIdBerContainer<Id>>(y); else *this->x = y;
        return true;
    }
    void cross(Obj& o, int how) override { from<0>(o, how) || from<1>(o, how) || from<2>(o, how) || from<3>(o, how) || from<4>(o, how) || from<5>(o, how); }
};
template <int I, int C> struct Small : FixT<SmallFixedIdBerContainer<typename IdAt<UniversalTag::octet_string, I>::type, C>, true, C>
{
    using Id = typename IdAt<UniversalTag::octet_string, I>::type;
    Small() { this->kind = "small"; this->id = I; }
    std::string ids() override { return jids(Id{}); }
    template <int J> bool from(Obj& o, int how)
    {
        if (o.kind != "small" || o.id != J || o.cap() != C) return false;
        auto& y = *static_cast<Small<J, C>&>(o).x;
        if (how) this->x = std::make_unique<SmallFixedIdBerContainer<Id, C>>(y); else *this->x = y;
        return true;
    }
    void cross(Obj& o, int how) override { if constexpr (C == 20) { from<0>(o, how) || from<1>(o, how) || from<2>(o, how) || from<3>(o, how) || from<4>(o, how) || from<5>(o, how); } else Obj::bad(); }
};

// strings: a different string type at every identifier
template <int I> struct StrAt;
template <> struct StrAt<0> { using type = OctetString<>; };
template <> struct StrAt<1> { using type = UTF8String<IdAt<UniversalTag::utf8_string, 1>::type>; };
template <> struct StrAt<2> { using type = IA5String<IdAt<UniversalTag::ia5_string, 2>::type>; };
template <> struct StrAt<3> { using type = VisibleString<IdAt<UniversalTag::visible_string, 3>::type>; };
template <> struct StrAt<4> { using type = PrintableString<IdAt<UniversalTag::printable_string, 4>::type>; };
template <> struct StrAt<5> { using type = BitString<IdAt<UniversalTag::bit_string, 5>::type>; };

template <int I> struct Str : Obj
{
    using X = typename StrAt<I>::type;
    std::unique_ptr<X> x = std::make_unique<X>();
    Str() { kind = "str"; id = I; }
    std::string ids() override { return jids(typename X::AsnId{}); }
    void set(char how, const Bytes& b) override
    {
        Exact s(b);
        const char* p = reinterpret_cast<const char*>(s.p);
        std::string str(p, s.n);
        switch (how)
        {
        case 'c': x = std::make_unique<X>(span(s)); break;
        case 'a': x->assign(span(s)); break;
        case '=': *x = span(s); break;
        case 's': *x = str; break;
        case 'S': x = std::make_unique<X>(str); break;
        case 'v': *x = absl::string_view(p, s.n); break;
        case 'V': x = std::make_unique<X>(absl::string_view(p, s.n)); break;
        case 'w': x->assign(absl::string_view(p, s.n)); break;
        case 'p': *x = str.c_str(); break;
        default: x = std::make_unique<X>(str.c_str());
        }
    }
    void resize(size_t n) override { x->resize(n); }
    void write(size_t p, uint8_t v, int how) override { if (how == 0) (*x)[p] = v; else if (how == 1) x->span()[p] = v; else *(x->begin() + p) = v; }
    void sub(size_t off, size_t n, int how) override
    {
        const X& c = *x;
        if (how == 0) x->assign(c.span().subspan(off, n));
        else if (how == 1) *x = absl::string_view(c).substr(off, n);
        else *x = c.span().subspan(off, n);
    }
    bool dec(const Bytes& b, int via) override
    {
        Exact s(b);
        if (via == 1) return fast_ber::decode(span(s), *x).success;
        return x->decode(BerView(span(s))).success;
    }
    bool self() override { Bytes own(x->encoded_length()); x->encode(absl::MakeSpan(own)); return dec(own, 0); }
    void copy(Obj& o, int how) override { auto& y = *static_cast<Str&>(o).x; if (how == 1) x = std::make_unique<X>(y); else if (how == 2) x->assign(y); else *x = y; }
    void move(Obj& o, int how) override { auto& y = *static_cast<Str&>(o).x; if (how) x = std::make_unique<X>(std::move(y)); else *x = std::move(y); }
    void swap(Obj& o) override { std::swap(*x, *static_cast<Str&>(o).x); }
    bool eq(Obj& o) override
    {
        auto& y = *static_cast<Str&>(o).x;
        std::string s = y.value();
        bool r = *x == y;
        bool z = s.find('\0') == std::string::npos;
        if (r != (*x == s) || r != (*x == absl::string_view(s)) || (z && r != (*x == s.c_str()))) { std::cerr << "Assertion comparisons disagree failed\n"; abort(); }
        return r;
    }
    bool ne(Obj& o) override { auto& y = *static_cast<Str&>(o).x; std::string s = y.value(); bool r = *x != y; if (r != (*x != s) || r != (*x != absl::string_view(s))) { std::cerr << "Assertion comparisons disagree failed\n"; abort(); } return r; }
    template <int J> bool from(Obj& o, int how)
    {
        if (o.kind != "str" || o.id != J) return false;
        auto& y = *static_cast<Str<J>&>(o).x;
        if (how == 0) *x = y; else x->assign(y);
        return true;
    }
    void cross(Obj& o, int how) override { from<0>(o, how) || from<1>(o, how) || from<2>(o, how) || from<3>(o, how) || from<4>(o, how) || from<5>(o, how); }
    EncodeResult enc(absl::Span<uint8_t> s) override { return x->encode(s); }
    absl::Span<const uint8_t> content() override { return static_cast<const X&>(*x).span(); }
    void obs(Ev& e) override
    {
        const X& c = *x;
        size_t el = c.encoded_length();
        Bytes ber(el);
        EncodeResult r = c.encode(absl::MakeSpan(ber));
        if (!r.success) ber.clear();
        std::string v = c.value();
        e.bytes("ber", ber).bytes("c", c.data(), c.size()).i("cl", static_cast<long long>(c.length())).i("el", static_cast<long long>(el));
        bool s = v.size() == c.size() && same(v.size() ? Bytes(v.begin(), v.end()) : Bytes(), c.span()) && absl::string_view(c) == v && c.end() - c.begin() == static_cast<ptrdiff_t>(v.size()) &&
                 c.empty() == v.empty() && std::string(c.c_str(), c.length()) == v && same(x->span(), c.span()) && x->data() == c.data() && c == v && !(c != v);
        for (size_t i = 0; i < v.size(); i++) s = s && c[i] == static_cast<uint8_t>(v[i]) && (*x)[i] == c[i];
        e.b("same", s);
        encodings(e, el, [&](absl::Span<uint8_t> q) { return c.encode(q); });
    }
};

static std::vector<std::unique_ptr<Obj>> pool;
static void observe(Ev& e)
{
    e.key("obs"); e.s += "[";
    for (size_t i = 0; i < pool.size(); i++) { if (i) e.s += ","; Ev t; pool[i]->obs(t); e.s += t.done(); }
    e.s += "]"; e.first = false;
}
template <template <int> class X> static std::unique_ptr<Obj> at(int i)
{
    switch (i)
    {
    case 0: return std::make_unique<X<0>>();
    case 1: return std::make_unique<X<1>>();
    case 2: return std::make_unique<X<2>>();
    case 3: return std::make_unique<X<3>>();
    case 4: return std::make_unique<X<4>>();
    default: return std::make_unique<X<5>>();
    }
}
template <int I> using Small20 = Small<I, 20>;
static void op_new(const Args& a, Ev& e)
{
    pool.clear();
    e.key("slots"); e.s += "[";
    for (size_t i = 0; i < a.size(); i++)
    {
        auto c = a[i].find(':');
        std::string k = a[i].substr(0, c);
        int id = c == std::string::npos ? 0 : std::stoi(a[i].substr(c + 1));
        if (k == "raw") pool.push_back(std::make_unique<Raw>());
        else if (k == "fix") pool.push_back(at<Fix>(id));
        else if (k == "small") pool.push_back(at<Small20>(id));
        else if (k == "small127") pool.push_back(std::make_unique<Small<1, 127>>());
        else if (k == "small128") pool.push_back(std::make_unique<Small<1, 128>>());
        else if (k == "small125") pool.push_back(std::make_unique<Small<4, 125>>());
        else if (k == "small0") pool.push_back(std::make_unique<Small<1, 0>>());
        else if (k == "str") pool.push_back(at<Str>(id));
        else { std::cerr << "unknown op kind\n"; exit(2); }
        if (i) e.s += ",";
        e.s += "{\"k\":\"" + pool.back()->kind + "\",\"cap\":" + std::to_string(pool.back()->cap()) + ",\"ids\":" + pool.back()->ids() + "}";
    }
    e.s += "]"; e.first = false;
    observe(e);
}
static Obj& slot(const Args& a, Ev& e) { int s = std::stoi(a[0]); e.i("s", s + 1); return *pool.at(s); }
static Obj& from(const Args& a, Ev& e) { int s = std::stoi(a[1]); e.i("from", s + 1); return *pool.at(s); }

int main(int argc, char** argv)
{
    std::map<std::string, Handler> t;
    t["new"] = op_new;
    t["set"] = [](const Args& a, Ev& e) { Obj& o = slot(a, e); Bytes b = unhex(a[2]); e.bytes("b", b); o.set(a[1][0], b); observe(e); };
    t["hset"] = [](const Args& a, Ev& e) {
        Obj& o = slot(a, e); Bytes b = unhex(a[5]);
        int cons = std::stoi(a[2]), cls = std::stoi(a[3]); long long tag = std::stoll(a[4]);
        e.bytes("b", b).i("cons", cons).i("cls", cls).raw("tag", jdigits(static_cast<unsigned long long>(tag), 128));
        o.hset(a[1] == "c", static_cast<Construction>(cons), static_cast<Class>(cls), static_cast<Tag>(tag), b); observe(e); };
    t["hsub"] = [](const Args& a, Ev& e) {   // a header and part of the object's own contents
        Obj& o = slot(a, e); size_t n = o.content().size(); size_t off = std::stoul(a[4]) % (n + 1), m = std::stoul(a[5]) % (n - off + 1);
        int cons = std::stoi(a[1]), cls = std::stoi(a[2]); long long tag = std::stoll(a[3]);
        e.i("off", static_cast<long long>(off)).i("m", static_cast<long long>(m)).i("cons", cons).i("cls", cls).raw("tag", jdigits(static_cast<unsigned long long>(tag), 128));
        o.hsub(static_cast<Construction>(cons), static_cast<Class>(cls), static_cast<Tag>(tag), off, m); observe(e); };
    t["resize"] = [](const Args& a, Ev& e) { Obj& o = slot(a, e); long n = std::stol(a[1]); e.i("m", n); o.resize(static_cast<size_t>(n)); observe(e); };
    t["write"] = [](const Args& a, Ev& e) { // position as a share of the contents, nothing when empty
        Obj& o = slot(a, e); size_t n = o.content().size();
        if (n == 0) { e.i("p", -1).i("v", 0); e.s.replace(e.s.find("\"write\""), 7, "\"idle\""); observe(e); return; }
        size_t p = static_cast<size_t>(std::stoul(a[1])) % n; int v = std::stoi(a[2]);
        e.i("p", static_cast<long long>(p)).i("v", v); o.write(p, static_cast<uint8_t>(v), std::stoi(a[3])); observe(e); };
    t["sub"] = [](const Args& a, Ev& e) {
        Obj& o = slot(a, e); size_t n = o.content().size(); size_t off = std::stoul(a[1]) % (n + 1), m = std::stoul(a[2]) % (n - off + 1);
        e.i("off", static_cast<long long>(off)).i("m", static_cast<long long>(m)); o.sub(off, m, std::stoi(a[3])); observe(e); };
    t["dec"] = [](const Args& a, Ev& e) { Obj& o = slot(a, e); Bytes b = unhex(a[1]); e.bytes("b", b).b("ok", o.dec(b, std::stoi(a[2]))); observe(e); };
    t["child"] = [](const Args& a, Ev& e) { Obj& o = slot(a, e); e.b("ok", o.child()); observe(e); };
    t["self"] = [](const Args& a, Ev& e) { Obj& o = slot(a, e); e.b("ok", o.self()); observe(e); };
    t["copy"] = [](const Args& a, Ev& e) { Obj& o = slot(a, e); Obj& f = from(a, e); o.copy(f, std::stoi(a[2])); observe(e); };
    t["move"] = [](const Args& a, Ev& e) { Obj& o = slot(a, e); Obj& f = from(a, e); o.move(f, std::stoi(a[2])); observe(e); };
    t["swap"] = [](const Args& a, Ev& e) { Obj& o = slot(a, e); Obj& f = from(a, e); o.swap(f); observe(e); };
    t["cross"] = [](const Args& a, Ev& e) { Obj& o = slot(a, e); Obj& f = from(a, e); o.cross(f, std::stoi(a[2])); observe(e); };
    t["eq"] = [](const Args& a, Ev& e) { Obj& o = slot(a, e); Obj& f = from(a, e); e.b("eq", o.eq(f)).b("ne", o.ne(f)); observe(e); };
    t["enc"] = [](const Args& a, Ev& e) {
        Obj& o = slot(a, e); size_t n = std::stoul(a[1]);
        Guarded g(n);
        EncodeResult r = o.enc(absl::MakeSpan(g.data(), n));
        e.i("buf", static_cast<long long>(n)).b("ok", r.success).i("r", static_cast<long long>(r.length)).b("guard", g.intact()).bytes("out", g.data(), r.success ? std::min(n, r.length) : 0);
        observe(e); };
    return run(argc, argv, t);
}
