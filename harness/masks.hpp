#pragma once
#include "api.hpp"
using gal::elem_t;
using gal::entity;

// ---- entity types by bit mask over all elements of an algebra
template <class A, class V, uint64_t mask, size_t... I>
constexpr auto masked(std::index_sequence<I...>)
{
    constexpr auto l = [] {
        std::array<elem_t, sizeof...(I)> o{};
        size_t k = 0;
        for (uint32_t e = 0; e < 64; ++e)
            if (mask >> e & 1) o[k++] = (elem_t)e;
        return o;
    }();
    return entity<A, V, l[I]...>{};
}
constexpr size_t bits(uint64_t m) { size_t n = 0; for (; m; m &= m - 1) ++n; return n; }
template <class A, class V, uint64_t mask>
using masked_t = decltype(masked<A, V, mask>(std::make_index_sequence<bits(mask)>{}));

constexpr uint64_t mix(uint64_t x) { x ^= x >> 31; x *= 0x9e3779b97f4a7c15ull; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ull; return x ^ x >> 32; }
