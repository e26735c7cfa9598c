// Exhaustive run-time monitor of the blade products of every metric signature: each call of the
// library's own product functions is compared with the reference. Reads library internals; the
// check confirms every mismatch through the public interface before reporting it.
#include "ref.hpp"
#include "report.hpp"
#include <gal/geometric_algebra.hpp>
#include <cstdlib>

static Report R;

using Fn = std::pair<gal::elem_t, int> (*)(gal::elem_t, gal::elem_t);
static void all(int p, int v, int r, Fn const* f)
{
    auto sig = ref::Sig::make(p, v, r);
    R.count("signatures");
    static char const* ops[] = {"*", "^", ">>", "|"};
    for (int k = 0; k < 4; ++k)
    {
        uint64_t nz = 0;
        for (uint32_t a = 0; a < sig.size(); ++a)
            for (uint32_t b = 0; b < sig.size(); ++b)
            {
                auto want = ref::blade_prod(sig, (ref::Prod)k, a, b);
                auto got  = f[k]((gal::elem_t)a, (gal::elem_t)b);
                R.eval(((((uint64_t)p * 9 + v) * 9 + r) * 4 + k) << 16 | a << 8 | b);
                nz += want.s != 0;
                bool same = want.s == 0 ? got.second == 0 : (got.second == want.s && (uint32_t)got.first == want.e);
                if (!same)
                    R.viol("TAB " + std::to_string(p) + " " + std::to_string(v) + " " + std::to_string(r) + " " + ops[k] + " " + std::to_string(a) + " " + std::to_string(b) + " gives "
                           + std::to_string(got.second) + "<" + std::to_string((unsigned)got.first) + "> expected " + std::to_string(want.s) + "<" + std::to_string(want.e) + ">");
            }
        R.count(std::string("nonzero_") + ops[k], nz);
    }
}
template <int p, int v, int r>
void one()
{
    using A   = gal::algebra<gal::metric<p, v, r>>;
    Fn fs[4] = {&A::geometric::product, &A::exterior::product, &A::contract::product, &A::symmetric_inner::product};
    all(p, v, r, fs);
}
template <int D, int p, int v>
void vs(int lo, int hi)
{
    if (D >= lo && D <= hi) one<p, v, D - p - v>();
    if constexpr (p + v < D) vs<D, p, v + 1>(lo, hi);
}
template <int D, int p>
void ps(int lo, int hi)
{
    vs<D, p, 0>(lo, hi);
    if constexpr (p < D) ps<D, p + 1>(lo, hi);
}
int main(int argc, char** argv)
{
    int lo = argc > 1 ? atoi(argv[1]) : 1, hi = argc > 2 ? atoi(argv[2]) : 8;
    ps<1, 0>(lo, hi); ps<2, 0>(lo, hi); ps<3, 0>(lo, hi); ps<4, 0>(lo, hi);
    ps<5, 0>(lo, hi); ps<6, 0>(lo, hi); ps<7, 0>(lo, hi); ps<8, 0>(lo, hi);
    return R.finish();
}
