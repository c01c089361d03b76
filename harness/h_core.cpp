// Harness for the header layer: parsing, header encoding, iteration.
#include "hx.hpp"

#include "fast_ber/ber_types/All.hpp"
#include "fast_ber/util/BerContainer.hpp"

using namespace fast_ber;
using namespace hx;

static absl::Span<const uint8_t> sp(const Exact& e) { return absl::Span<const uint8_t>(e.p, e.n); }

static std::string jtag(Tag t) { return t < 0 ? "[-1]" : jdigits(static_cast<unsigned long long>(t), 128); }

static void describe(const BerView& v, const uint8_t* base, Ev& e)
{
    e.b("ok", v.is_valid());
    if (!v.is_valid()) return;
    Bytes content(v.content().begin(), v.content().end());
    Bytes ber(v.ber().begin(), v.ber().end());
    e.i("cls", static_cast<int>(v.class_())).i("cons", static_cast<int>(v.construction())).raw("tag", jtag(v.tag()));
    e.i("idlen", static_cast<long long>(v.identifier_length())).i("hdr", static_cast<long long>(v.header_length()));
    e.i("len", static_cast<long long>(v.content_length())).i("off", v.ber_data() - base);
    e.i("coff", v.content_data() - base).i("size", static_cast<long long>(v.ber_length()));
    e.i("icls", static_cast<int>(v.identifier().class_())).raw("itag", jtag(v.identifier().tag()));
    e.bytes("content", content).bytes("ber", ber);
}

static bool same(const BerView& a, const BerView& b)
{
    if (a.is_valid() != b.is_valid()) return false;
    if (!a.is_valid()) return a.ber_length() == b.ber_length() && a.content_length() == b.content_length();
    return a.ber_data() == b.ber_data() && a.tag() == b.tag() && a.class_() == b.class_() &&
           a.construction() == b.construction() && a.header_length() == b.header_length() &&
           a.content_length() == b.content_length();
}

static void op_parse(const Args& a, Ev& e)
{
    Bytes b = unhex(a[0]);
    Exact x(b);
    e.bytes("b", b);
    BerView v(sp(x));
    describe(v, x.p, e);
    // Other ways of obtaining the same parse.
    const uint8_t other[] = {0x30, 0x03, 0x02, 0x01, 0x05};
    BerView w(absl::MakeSpan(other, sizeof other));
    w.assign(sp(x));
    BerView bad(absl::Span<const uint8_t>(other, 1));
    bad.assign(sp(x));
    BerViewIterator it(sp(x));
    MutableBerView m(absl::MakeSpan(x.p, x.n));
    e.b("same", same(v, w) && same(v, bad) && same(v, *it) && same(v, m));
    BerContainer c(v);
    bool cs = c.is_valid() == v.is_valid();
    if (v.is_valid())
        cs = cs && c.tag() == v.tag() && c.class_() == v.class_() && c.construction() == v.construction() &&
             c.content() == v.content() && c.ber() == v.ber();
    e.b("csame", cs);
}

static void op_extract(const Args& a, Ev& e)
{
    Bytes  b   = unhex(a[0]);
    size_t off = std::stoul(a[1]);
    Exact  x(b);
    e.bytes("b", b).i("at", static_cast<long long>(off));
    Construction cons = Construction::primitive;
    Class        cls  = Class::universal;
    Tag          tag  = 77;
    size_t       len  = 99;
    e.b("kok", extract_construction(sp(x), cons)).i("cons", static_cast<int>(cons));
    e.b("cok", extract_class(sp(x), cls)).i("cls", static_cast<int>(cls));
    size_t tn = extract_tag(sp(x), tag);
    e.i("tn", static_cast<long long>(tn)).raw("tag", tn ? jtag(tag) : "[0]");
    size_t ln = extract_length(sp(x), len, off);
    e.i("ln", static_cast<long long>(ln)).raw("len", ln ? jdigits(len, 256) : "[0]");
}

static void op_enc(const Args& a, Ev& e)
{
    Class        cls  = static_cast<Class>(std::stoi(a[0]));
    Construction cons = static_cast<Construction>(std::stoi(a[1]));
    Tag          tag  = std::stoll(a[2]);
    uint64_t     len  = std::stoull(a[3]);
    size_t       buf  = std::stoul(a[4]);
    e.i("cls", static_cast<int>(cls)).i("cons", static_cast<int>(cons)).raw("tag", jtag(tag)).raw("len", jdigits(len, 256));
    e.i("buf", static_cast<long long>(buf));
    e.i("plen", static_cast<long long>(encoded_header_length(cons, cls, tag, len)));
    e.i("ptag", static_cast<long long>(encoded_tag_length(tag)));
    e.i("pid", static_cast<long long>(encoded_identifier_length(cons, cls, tag)));
    e.i("pll", static_cast<long long>(encoded_length_length(len)));
    Guarded g(buf), gi(buf), gl(buf);
    size_t  r = encode_header(absl::MakeSpan(g.data(), buf), cons, cls, tag, len);
    e.i("r", static_cast<long long>(r)).bytes("out", g.data(), std::min(r, buf));
    size_t ri = encode_identifier(absl::MakeSpan(gi.data(), buf), cons, cls, tag);
    e.i("ri", static_cast<long long>(ri)).bytes("outi", gi.data(), std::min(ri, buf));
    size_t rl = encode_length(absl::MakeSpan(gl.data(), buf), len);
    e.i("rl", static_cast<long long>(rl)).bytes("outl", gl.data(), std::min(rl, buf));
    // the same, exactly sized on the heap
    Exact  h(Bytes(buf, 0x5a));
    size_t r2 = encode_header(absl::MakeSpan(h.p, h.n), cons, cls, tag, len);
    e.b("guard", g.intact() && gi.intact() && gl.intact() && r2 == r);
    if (tag <= 30 && cls == Class::universal)
    {
        Guarded gu(buf);
        size_t  ru = encode_header(absl::MakeSpan(gu.data(), buf), cons, cls, static_cast<UniversalTag>(tag), len);
        e.b("uni", ru == r && (r == 0 || memcmp(gu.data(), g.data(), r) == 0) && gu.intact() &&
                        encoded_header_length(cons, cls, static_cast<UniversalTag>(tag), len) ==
                            encoded_header_length(cons, cls, tag, len));
    }
    else e.b("uni", true);
}

// ---- compile time identifiers ----
template <class T> struct IdJson;
template <Class c, Tag t> struct IdJson<Id<c, t>>
{
    static std::string get() { return "{\"cls\":" + std::to_string(static_cast<int>(c)) + ",\"tag\":" + jtag(t) + "}"; }
};
template <class A, class B> struct IdJson<DoubleId<A, B>>
{
    static std::string get() { return IdJson<A>::get() + "," + IdJson<B>::get(); }
};

struct StaticId
{
    std::function<void(const Args&, Ev&)> header, wrap;
};

template <class ID> StaticId make()
{
    StaticId s;
    s.header = [](const Args& a, Ev& e) {
        size_t       len  = std::stoull(a[1]);
        Construction cons = static_cast<Construction>(std::stoi(a[2]));
        size_t       buf  = std::stoul(a[3]);
        e.raw("ids", "[" + IdJson<ID>::get() + "]").raw("len", jdigits(len, 256)).i("clen", static_cast<long long>(len)).i("cons", static_cast<int>(cons)).i("buf", static_cast<long long>(buf));
        e.i("phdr", static_cast<long long>(encoded_header_length(len, ID{}))).i("pall", static_cast<long long>(encoded_length(len, ID{})));
        e.i("pll", static_cast<long long>(encoded_length_from_id_and_length(len, ID{})));
        Guarded      g(buf);
        EncodeResult r = encode_header(absl::MakeSpan(g.data(), buf), len, ID{}, cons);
        size_t       h = std::min(r.success ? encoded_header_length(len, ID{}) : 0, buf);
        e.b("ok", r.success).i("r", static_cast<long long>(r.length)).bytes("out", g.data(), h).b("guard", g.intact());
    };
    s.wrap = [](const Args& a, Ev& e) {
        size_t       len  = std::stoull(a[1]);
        Construction cons = static_cast<Construction>(std::stoi(a[2]));
        size_t       buf  = std::stoul(a[3]);
        size_t       off  = std::stoul(a[4]);
        Bytes        content;
        for (size_t i = 0; i < len; i++) content.push_back(static_cast<uint8_t>(i * 7 + 3 + len));
        Guarded g(buf);
        memcpy(g.data() + off, content.data(), len);
        e.raw("ids", "[" + IdJson<ID>::get() + "]").i("buf", static_cast<long long>(buf)).i("cons", static_cast<int>(cons)).i("from", static_cast<long long>(off)).bytes("content", content);
        EncodeResult r = wrap_with_ber_header(absl::MakeSpan(g.data(), buf), len, ID{}, off, cons);
        e.b("ok", r.success).i("r", static_cast<long long>(r.length)).bytes("out", g.data(), r.success ? std::min(r.length, buf) : 0).b("guard", g.intact());
    };
    return s;
}

static std::vector<StaticId>& ids()
{
    constexpr Class U = Class::universal, A = Class::application, C = Class::context_specific, P = Class::private_;
    static std::vector<StaticId> v = {
        make<Id<U, 0>>(), make<Id<U, 2>>(), make<Id<U, 30>>(), make<Id<C, 0>>(), make<Id<C, 1>>(), make<Id<A, 30>>(),
        make<Id<C, 31>>(), make<Id<P, 127>>(), make<Id<C, 128>>(), make<Id<A, 16383>>(), make<Id<C, 16384>>(),
        make<Id<P, 2097151>>(), make<Id<C, 2097152>>(), make<Id<C, 268435455>>(), make<Id<C, 268435456>>(),
        make<Id<A, 34359738367>>(), make<Id<A, 34359738368>>(), make<Id<C, 4398046511104>>(), make<Id<P, 562949953421311>>(),
        make<Id<C, 562949953421312>>(), make<Id<C, 72057594037927935>>(), make<Id<C, 72057594037927936>>(), make<Id<C, 9223372036854775807>>(),
        make<DoubleId<Id<C, 0>, Id<U, 2>>>(), make<DoubleId<Id<C, 31>, Id<U, 16>>>(), make<DoubleId<Id<A, 5>, Id<C, 200>>>(),
        make<DoubleId<Id<P, 128>, Id<P, 16384>>>(), make<DoubleId<Id<C, 2097152>, Id<U, 4>>>(), make<DoubleId<Id<C, 1>, Id<C, 1>>>()};
    return v;
}
static void op_sid(const Args& a, Ev& e) { ids().at(std::stoul(a[0])).header(a, e); }
static void op_wrap(const Args& a, Ev& e) { ids().at(std::stoul(a[0])).wrap(a, e); }

// ---- iteration ----
static std::string kid(const BerView& v, const uint8_t* base)
{
    return "{\"off\":" + std::to_string(v.ber_data() - base) + ",\"cls\":" + std::to_string(static_cast<int>(v.class_())) +
           ",\"cons\":" + std::to_string(static_cast<int>(v.construction())) + ",\"tag\":" + jtag(v.tag()) +
           ",\"hdr\":" + std::to_string(v.header_length()) + ",\"len\":" + std::to_string(v.content_length()) + "}";
}

static std::string tree(const BerView& parent, const uint8_t* base, int depth)
{
    std::string s = "[";
    bool first = true;
    for (const BerView& c : parent)
    {
        if (!first) s += ',';
        first = false;
        s += "{\"v\":" + kid(c, base) + ",\"k\":" + (depth > 0 && c.construction() == Construction::constructed ? tree(c, base, depth - 1) : std::string("[]")) + "}";
    }
    return s + "]";
}

static void op_iter(const Args& a, Ev& e)
{
    Bytes b = unhex(a[0]);
    Exact x(b);
    e.bytes("b", b);
    size_t limit = b.size() + 2;
    { // plain
        std::string s = "["; size_t n = 0;
        BerViewIterator it(sp(x)), end(End::end);
        for (; it != end && n < limit; ++it, ++n) { if (n) s += ','; s += kid(*it, x.p); }
        e.raw("kids", s + "]");
        // at the end, advancing further stays at the end
        ++it;
        e.b("stay", it == end && !it->is_valid());
    }
    { // mutable
        std::string s = "["; size_t n = 0;
        MutableBerViewIterator it(absl::MakeSpan(x.p, x.n)), end(End::end);
        for (; it != end && n < limit; ++it, ++n) { if (n) s += ','; s += kid(*it, x.p); }
        e.raw("mkids", s + "]");
    }
    { // decode and advance, into an owning container; the elements themselves
        std::string s = "["; size_t n = 0; bool enc = true;
        BerViewIterator it(sp(x));
        for (; n < limit; ++n)
        {
            BerContainer c;
            DecodeResult r = decode(it, c);
            if (!r.success) break;
            if (n) s += ',';
            s += Ev::arr(c.ber().begin(), c.ber().end());
            // encode into exact, larger and smaller buffers
            size_t z = c.ber_length();
            Guarded g0(z), g1(z + 3), g2(z - 1);
            EncodeResult r0 = c.encode(absl::MakeSpan(g0.data(), z)), r1 = c.view().encode(absl::MakeSpan(g1.data(), z + 3)), r2 = c.encode(absl::MakeSpan(g2.data(), z - 1));
            enc = enc && r0.success && r0.length == z && r1.success && r1.length == z && !r2.success && memcmp(g0.data(), c.ber_data(), z) == 0 && memcmp(g1.data(), c.ber_data(), z) == 0 && g0.intact() && g1.intact() && g2.intact();
        }
        e.raw("els", s + "]").b("enc", enc);
    }
    BerView v(sp(x));
    if (v.is_valid()) e.raw("tree", tree(v, x.p, 8));
    else e.raw("tree", "[]");
    { // children through the mutable view and through cbegin
        std::string s = "["; size_t n = 0; bool agree = true;
        MutableBerView m(absl::MakeSpan(x.p, x.n));
        if (m.is_valid())
        {
            auto ci = m.cbegin();
            for (auto it = m.begin(); it != m.end() && n < limit; ++it, ++n)
            {
                if (n) s += ',';
                s += kid(*it, x.p);
                agree = agree && ci != m.cend() && ci->ber_data() == it->ber_data() && ci->ber_length() == it->ber_length();
                ++ci;
            }
            agree = agree && !(ci != m.cend());
        }
        e.raw("ckids", s + "]").b("agree", agree);
    }
}

int main(int argc, char** argv)
{
    return run(argc, argv, {{"parse", op_parse}, {"extract", op_extract}, {"enc", op_enc}, {"sid", op_sid}, {"wrap", op_wrap}, {"iter", op_iter}});
}
