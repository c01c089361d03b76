// Value types that record their lifetimes.
#pragma once
#include <initializer_list>
#include <set>
#include <stdexcept>
#include "fast_ber/ber_types/Identifier.hpp"
inline std::set<const void*>& live_objects() { static std::set<const void*> s; return s; }
inline int& lifetime_errors() { static int n = 0; return n; }
struct Boom {};
template <int K> struct Trk
{
    using AsnId = fast_ber::Id<fast_ber::Class::context_specific, K>;
    int v = 0; int* heap;
    void born() { if (!live_objects().insert(this).second) lifetime_errors()++; heap = new int(v); }
    static void alive(const Trk& o) { if (!live_objects().count(&o) || !o.heap) lifetime_errors()++; }
    Trk() { born(); }
    explicit Trk(int x) : v(x) { born(); }
    template <int Q = K, typename std::enable_if<Q == 1, int>::type = 0> Trk(std::initializer_list<int> il) { for (int x : il) v += x; born(); }
    template <int Q = K, typename std::enable_if<Q == 2, int>::type = 0> Trk(Boom) { throw std::runtime_error("boom"); }
    Trk(const Trk& o) : v(o.v) { alive(o); born(); *heap = *o.heap; }
    Trk(Trk&& o) noexcept : v(o.v) { alive(o); born(); *heap = *o.heap; o.v = -99; *o.heap = -99; }
    Trk& operator=(const Trk& o) { alive(*this); alive(o); v = o.v; int h = *o.heap; *heap = h; return *this; }
    Trk& operator=(Trk&& o) noexcept { alive(*this); alive(o); int x = o.v, h = *o.heap; o.v = -99; *o.heap = -99; v = x; *heap = h; return *this; }
    template <int Q = K, typename std::enable_if<Q == 2, int>::type = 0> Trk& operator=(Boom) { throw std::runtime_error("boom"); }
    ~Trk() { if (!live_objects().erase(this)) lifetime_errors()++; delete heap; heap = nullptr; }
    void set(int x) { v = x; *heap = x; }
    int get() const { alive(*this); return *heap == v ? v : -555; }
};
template <int K> bool operator==(const Trk<K>& a, const Trk<K>& b) { return a.get() == b.get(); }
template <int K> bool operator!=(const Trk<K>& a, const Trk<K>& b) { return a.get() != b.get(); }
template <int K> bool operator<(const Trk<K>& a, const Trk<K>& b) { return a.get() < b.get(); }
template <int K> bool operator>(const Trk<K>& a, const Trk<K>& b) { return a.get() > b.get(); }
template <int K> bool operator<=(const Trk<K>& a, const Trk<K>& b) { return a.get() <= b.get(); }
template <int K> bool operator>=(const Trk<K>& a, const Trk<K>& b) { return a.get() >= b.get(); }
