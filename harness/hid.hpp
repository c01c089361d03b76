// Identifiers used by the harnesses.
#pragma once
#include "hx.hpp"
#include "fast_ber/ber_types/Identifier.hpp"
template <fast_ber::UniversalTag U, int I> struct IdAt;
template <fast_ber::UniversalTag U> struct IdAt<U, 0> { using type = fast_ber::ExplicitId<U>; };
template <fast_ber::UniversalTag U> struct IdAt<U, 1> { using type = fast_ber::Id<fast_ber::Class::context_specific, 0>; };
template <fast_ber::UniversalTag U> struct IdAt<U, 2> { using type = fast_ber::Id<fast_ber::Class::application, 31>; };
template <fast_ber::UniversalTag U> struct IdAt<U, 3> { using type = fast_ber::Id<fast_ber::Class::private_, 1099511627776>; };
template <fast_ber::UniversalTag U> struct IdAt<U, 4> { using type = fast_ber::DoubleId<fast_ber::Id<fast_ber::Class::context_specific, 1>, fast_ber::ExplicitId<U>>; };
template <fast_ber::UniversalTag U> struct IdAt<U, 5> { using type = fast_ber::DoubleId<fast_ber::Id<fast_ber::Class::application, 200>, fast_ber::Id<fast_ber::Class::context_specific, 31>>; };

template <fast_ber::Class c, fast_ber::Tag t> static std::string jids(fast_ber::Id<c, t>)
{
    return "[{\"cls\":" + std::to_string(static_cast<int>(c)) + ",\"tag\":" + hx::jdigits(t, 128) + "}]";
}
template <class A, class B> static std::string jids(fast_ber::DoubleId<A, B>)
{
    std::string a = jids(A{}), b = jids(B{});
    return a.substr(0, a.size() - 1) + "," + b.substr(1);
}
