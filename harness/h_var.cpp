// Harness for variants and choices (B09).
#include "hx.hpp"
#include "track.hpp"
#include "fast_ber/ber_types/All.hpp"
#include "fast_ber/util/DynamicVariant.hpp"
#include <utility>
using namespace hx;
using A = Trk<0>; using B = Trk<1>; using C = Trk<2>;
namespace fd = fast_ber::dynamic;
using Dyn = fd::DynamicVariant<A, B, C>;
using ChD = fast_ber::Choice<fast_ber::Choices<A, B, C>, fast_ber::ChoiceId<A::AsnId, B::AsnId, C::AsnId>, fast_ber::StorageMode::dynamic>;
using ChS = fast_ber::Choice<fast_ber::Choices<A, B, C>, fast_ber::ChoiceId<A::AsnId, B::AsnId, C::AsnId>, fast_ber::StorageMode::static_>;

template <class V> struct Ns;
template <> struct Ns<Dyn>
{
    template <class T> static constexpr fd::in_place_type_t<T> it{};
    template <size_t I> static constexpr fd::in_place_index_t<I> ii{};
    template <class T, class V> static decltype(auto) get(V&& v) { return fd::get<T>(std::forward<V>(v)); }
    template <size_t I, class V> static decltype(auto) get(V&& v) { return fd::get<I>(std::forward<V>(v)); }
    template <class T, class V> static auto get_if(V* v) { return fd::get_if<T>(v); }
    template <size_t I, class V> static auto get_if(V* v) { return fd::get_if<I>(v); }
    template <class T> static bool holds(const Dyn& v) { return fd::holds_alternative<T>(v); }
    template <class F> static auto visit(F f, const Dyn& v) { return fd::visit(f, v); }
    static void swap(Dyn& a, Dyn& b) { fd::swap(a, b); }
    static_assert(fd::variant_size<Dyn>::value == 3 && std::is_same<fd::variant_alternative_t<1, Dyn>, B>::value, "");
};
template <class X> struct NsC
{
    template <class T> static constexpr fast_ber::in_place_type_t<T> it{};
    template <size_t I> static constexpr fast_ber::in_place_index_t<I> ii{};
    template <class T, class V> static decltype(auto) get(V&& v) { return fast_ber::get<T>(std::forward<V>(v)); }
    template <size_t I, class V> static decltype(auto) get(V&& v) { return fast_ber::get<I>(std::forward<V>(v)); }
    template <class T, class V> static auto get_if(V* v) { return fast_ber::get_if<T>(v); }
    template <size_t I, class V> static auto get_if(V* v) { return fast_ber::get_if<I>(v); }
    template <class T> static bool holds(const X& v) { return fast_ber::holds_alternative<T>(v); }
    template <class F> static auto visit(F f, const X& v) { return fast_ber::visit(f, v); }
    static void swap(X& a, X& b) { using std::swap; swap(a, b); }
    static_assert(fast_ber::variant_size<X>::value == 3 && std::is_same<fast_ber::variant_alternative_t<1, X>, B>::value, "");
};
template <> struct Ns<ChD> : NsC<ChD> {};
template <> struct Ns<ChS> : NsC<ChS> {};
struct Vis
{
    template <int K> std::pair<int, int> operator()(const Trk<K>& t) const { return {K, t.get()}; }
};
template <class F> static int tryget(F f) { try { return f(); } catch (const std::exception&) { return -1000; } }

struct Pool { virtual ~Pool() = default; virtual void op(const std::string&, const Args&, Ev&) = 0; virtual void obs(Ev&) = 0; };
template <class V> struct PoolOf : Pool
{
    using N = Ns<V>;
    std::vector<std::unique_ptr<V>> x; std::vector<bool> moved;
    explicit PoolOf(int n) { for (int i = 0; i < n; i++) { x.push_back(std::make_unique<V>()); moved.push_back(false); } }

    template <size_t I, class T> bool mk(int s, const std::string& how, int val)
    {
        if (how == "il") { if constexpr (I == 1) x[s] = std::make_unique<V>(N::template it<T>, std::initializer_list<int>{val, 1}); return true; }
        if (how == "jl") { if constexpr (I == 1) x[s] = std::make_unique<V>(N::template ii<I>, std::initializer_list<int>{val, 1}); return true; }
        if (how == "el") { if constexpr (I == 1) x[s]->template emplace<T>({val, 1}); return true; }
        if (how == "fl") { if constexpr (I == 1) x[s]->template emplace<I>({val, 1}); return true; }
        if (how == "it") { x[s] = std::make_unique<V>(N::template it<T>, val); return true; }
        if (how == "ii") { x[s] = std::make_unique<V>(N::template ii<I>, val); return true; }
        if (how == "et") { T& t = x[s]->template emplace<T>(val); return &t == &N::template get<T>(*x[s]); }
        if (how == "ei") { auto& t = x[s]->template emplace<I>(val); return &t == &N::template get<T>(*x[s]); }
        T t(val); t.set(val);
        const T& ct = t;
        if (how == "cl") x[s] = std::make_unique<V>(t);
        else if (how == "cc") x[s] = std::make_unique<V>(ct);
        else if (how == "cr") { x[s] = std::make_unique<V>(std::move(t)); return true; }
        else if (how == "al") *x[s] = t;
        else if (how == "ac") *x[s] = ct;
        else if (how == "ar") { *x[s] = std::move(t); return true; }
        return t.get() == val;      // an lvalue source keeps its value
    }
    template <class T> void alias(int s) { *x[s] = N::template get<T>(*x[s]); }
    template <size_t I, class T> void reads(const V& v, V& m, std::string& g, std::string& gi)
    {
        auto put = [](std::string& o, int a) { if (o.size() > 1) o += ","; o += std::to_string(a); };
        put(g, tryget([&] { int a = N::template get<T>(v).get(); return a == N::template get<T>(m).get() ? a : -7; }));
        put(g, tryget([&] { int a = N::template get<I>(v).get(); return a == N::template get<I>(m).get() ? a : -7; }));
        const T* p = N::template get_if<T>(&v); T* q = N::template get_if<T>(&m);
        put(gi, p && p == q ? p->get() : p == q ? -1000 : -8);
        const T* p2 = N::template get_if<I>(&v); T* q2 = N::template get_if<I>(&m);
        put(gi, p2 && p2 == q2 && p2 == p ? p2->get() : !p2 && !q2 ? -1000 : -8);
    }
    void obs(Ev& e) override
    {
        e.key("obs"); e.s += "[";
        for (size_t k = 0; k < x.size(); k++)
        {
            if (k) e.s += ",";
            Ev t; t.b("m", moved[k]);
            if (!moved[k])
            {
                const V& v = *x[k];
                bool none = v.valueless_by_exception();
                t.i("i", none ? -1 : static_cast<long long>(v.index())).b("none", none);
                t.raw("holds", std::string("[") + (N::template holds<A>(v) ? "true," : "false,") + (N::template holds<B>(v) ? "true," : "false,") + (N::template holds<C>(v) ? "true]" : "false]"));
                if (!none)
                {
                    auto p = N::visit(Vis{}, v);
                    t.raw("visit", "[" + std::to_string(p.first) + "," + std::to_string(p.second) + "]");
                    std::string g = "[", gi = "[";
                    reads<0, A>(v, *x[k], g, gi); reads<1, B>(v, *x[k], g, gi); reads<2, C>(v, *x[k], g, gi);
                    t.raw("get", g + "]").raw("getif", gi + "]");
                }
                t.b("null", N::template get_if<A>(static_cast<V*>(nullptr)) == nullptr && N::template get_if<1>(static_cast<const V*>(nullptr)) == nullptr);
            }
            e.s += t.done();
        }
        e.s += "]"; e.first = false;
        e.i("base", 0).i("live", static_cast<long long>(live_objects().size())).i("errs", lifetime_errors());
    }
    static void idle(Ev& e) { e.s.replace(e.s.find("\"op\":\"") + 6, e.s.find('"', e.s.find("\"op\":\"") + 6) - e.s.find("\"op\":\"") - 6, "idle"); }
    void op(const std::string& o, const Args& a, Ev& e) override
    {
        int s = std::stoi(a[0]); e.i("s", s + 1);
        auto from = [&] { int f = std::stoi(a[1]); e.i("from", f + 1); return f; };
        if (o == "mk")
        {
            std::string how = a[1]; int alt = std::stoi(a[2]), v = std::stoi(a[3]);
            e.str("how", how).i("alt", alt).i("v", v);
            bool ok = alt == 0 ? mk<0, A>(s, how, v) : alt == 1 ? mk<1, B>(s, how, v) : mk<2, C>(s, how, v);
            e.b("src", ok); moved[s] = false;
        }
        else if ((o == "alias" || o == "poke" || o == "cmp" || o == "rget") && x[s]->valueless_by_exception()) idle(e);
        else if (o == "cmp" && x[std::stoul(a[1])]->valueless_by_exception()) idle(e);
        else if (o == "throw")
        {
            bool th = false;
            try { if (a[1] == "et") x[s]->template emplace<C>(Boom{}); else if (a[1] == "ei") x[s]->template emplace<2>(Boom{}); else { Boom b; *x[s] = b; } }
            catch (const std::runtime_error&) { th = true; }
            e.b("thrown", th);
        }
        else if (o == "alias") { auto k = x[s]->index(); if (k == 0) alias<A>(s); else if (k == 1) alias<B>(s); else alias<C>(s); }
        else if (o == "poke")
        {
            int v = std::stoi(a[1]); e.i("v", v); auto k = x[s]->index();
            if (k == 0) N::template get<A>(*x[s]).set(v); else if (k == 1) N::template get<1>(*x[s]).set(v); else N::template get_if<C>(x[s].get())->set(v);
        }
        else if (o == "copy") { int f = from(); if (a[2] == "1") x[s] = std::make_unique<V>(static_cast<const V&>(*x[f])); else if (a[2] == "2") x[s] = std::make_unique<V>(*x[f]); else *x[s] = *x[f]; moved[s] = moved[f]; }
        else if (o == "move")
        {
            int f = from();
            if (a[2] == "1") x[s] = std::make_unique<V>(std::move(*x[f])); else *x[s] = std::move(*x[f]);
            if (f != s) { moved[s] = moved[f]; moved[f] = true; } else moved[s] = true;
        }
        else if (o == "swap") { int f = from(); if (a[2] == "1") N::swap(*x[s], *x[f]); else x[s]->swap(*x[f]); bool t = moved[s]; moved[s] = moved[f]; moved[f] = t; }
        else if (o == "cmp")
        {
            const V &p = *x[s], &q = *x[from()];
            bool r[6] = {p == q, p != q, p < q, p > q, p <= q, p >= q};
            std::string z = "["; for (int i = 0; i < 6; i++) z += std::string(i ? "," : "") + (r[i] ? "true" : "false");
            e.raw("cmp", z + "]");
        }
        else if (o == "rget")     // get() of an rvalue gives the value up; a copy is used
        {
            V c(static_cast<const V&>(*x[s])); auto k = c.index(); int v = -1;
            if (k == 0) { A t(N::template get<A>(std::move(c))); v = t.get(); }
            else if (k == 1) { B t(N::template get<1>(std::move(c))); v = t.get(); }
            else { C t(N::template get<C>(std::move(c))); v = t.get(); }
            e.i("got", v);
        }
    }
};
static std::unique_ptr<Pool> pool;
static std::string what_of(const Args& a) { return a[0]; }
template <class V> static long long chosen(const std::string& w)
{
    std::string s("x"); const std::string cs("y"); const int ci = 3;
    if (w == "string") { V v(s); V u; u = s; return v.index() == u.index() && s == "x" ? static_cast<long long>(v.index()) : -1; }
    if (w == "cstring") { V v(cs); V u; u = cs; return v.index() == u.index() ? static_cast<long long>(v.index()) : -1; }
    if (w == "literal") { V v("lit"); V u; u = "lit"; return v.index() == u.index() ? static_cast<long long>(v.index()) : -1; }
    if (w == "int") { V v(5); V u; u = 5; return v.index() == u.index() ? static_cast<long long>(v.index()) : -1; }
    if (w == "cint") { V v(ci); V u; u = ci; return v.index() == u.index() ? static_cast<long long>(v.index()) : -1; }
    V v('c'); V u; u = 'c'; return v.index() == u.index() ? static_cast<long long>(v.index()) : -1;
}
int main(int argc, char** argv)
{
    std::map<std::string, Handler> t;
    t["new"] = [](const Args& a, Ev& e) {
        pool.reset(); lifetime_errors() = live_objects().empty() ? 0 : 1; live_objects().clear();
        int n = std::stoi(a[1]);
        if (a[0] == "dyn") pool = std::make_unique<PoolOf<Dyn>>(n);
        else if (a[0] == "chd") pool = std::make_unique<PoolOf<ChD>>(n);
        else pool = std::make_unique<PoolOf<ChS>>(n);
        pool->obs(e); };
    for (const char* o : {"mk", "throw", "alias", "poke", "copy", "move", "swap", "cmp", "rget"})
        t[o] = [o](const Args& a, Ev& e) { pool->op(o, a, e); pool->obs(e); };
    t["ded"] = [](const Args& a, Ev& e) {
        std::string w = what_of(a);
        e.str("what", w).i("i", chosen<fd::DynamicVariant<std::string, int, char>>(w)); pool->obs(e); };
    int rc = run(argc, argv, t);
    pool.reset();
    if (!live_objects().empty() || lifetime_errors()) { std::cerr << "Assertion all objects destroyed once failed\n"; return 1; }
    return rc;
}
