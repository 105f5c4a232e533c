// Reference quantile / probability of a detector state, with error bounds of
// the library's arithmetic (logarithm 1e-10, exponential 1e-12 relative).
#pragma once
#include "gpd.hpp"

struct Bounded {
    ld v, tol;
};
// distance from the threshold of the quantile q
inline Bounded ref_quantile(ld g, ld s, ld ratio, ld q) {
    ld r = q / ratio; // q*n/Nt
    ld lr = logl(r);
    if (g == 0)
        return {-s * lr, s * (1e-10L * std::max<ld>(1, fabsl(lr)) + 4 * EPS)};
    ld a = -g * lr; // r^-g = exp(a)
    ld v = (s / g) * expm1l(a);
    // the power itself, or a product on the way to the quantile, is out of the range of a double
    if (a > 690 || (a > 0 && s * expl(a) > 1e300L) || fabsl(s / g) > 1e300L)
        return {v, INFINITY};
    // relative error of the power, then cancellation of -1
    ld ep = fabsl(g) * 1.5e-10L * std::max<ld>(1, fabsl(lr)) + 1e-12L + 8 * EPS * fabsl(a);
    ld tol = fabsl(s / g) * (expl(a) * ep + 4 * EPS * (1 + expl(a)));
    return {v, tol};
}
// tail probability at distance d
inline Bounded ref_probability(ld g, ld s, ld ratio, ld d) {
    if (g == 0) {
        ld a = -d / s;
        return {ratio * expl(a), ratio * expl(a) * (1e-11L + 8 * EPS * fabsl(a)) + 1e-305L};
    }
    ld r = d * (g / s);
    ld one = 1 + r;
    if (!(one > 0))
        return {0, 0};
    if (one < 32 * EPS) // within rounding of the end point of a bounded tail
        return {0, ratio};
    ld l = log1pl(r), a = -l / g;
    ld p = ratio * expl(a);
    // the argument of the power, or a product on the way to it, may leave the
    // range of a double
    if (r > 1e300L || fabsl(d * g) > 1e300L || d / s > 1e300L || fabsl(g / s) > 1e300L)
        return {p, p + 1e-305L};
    ld dl = 1.5e-10L * (fabsl(l) > 0.5L ? std::max<ld>(1, fabsl(l)) : 1e-4L) +
            8 * EPS * (1 + fabsl(r)) / one;
    ld rel = dl / fabsl(g) + 1e-11L + 8 * EPS * fabsl(a);
    ld tol = rel > 0.5L ? ratio : p * rel * 1.1L;
    return {p, tol + 1e-305L};
}
