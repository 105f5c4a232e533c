// Reference Generalized Pareto computations in extended precision.
#pragma once
#include "spotx.hpp"
typedef long double ld;

// log likelihood of x under GPD(g, s); NaN if x is out of the support
inline ld ref_llhood(const double *x, size_t n, ld g, ld s) {
    if (!(s > 0))
        return NAN;
    ld r = -(ld)n * logl(s);
    if (g == 0) {
        for (size_t i = 0; i < n; i++)
            r -= (ld)x[i] / s;
        return r;
    }
    ld c = 1 + 1 / g;
    for (size_t i = 0; i < n; i++) {
        ld a = g / s * x[i];
        if (!(1 + a > 0))
            return NAN;
        r -= c * log1pl(a);
    }
    return r;
}
// numerical noise of the library's double computation of a log likelihood
inline ld llhood_tol(size_t n, ld L, ld g1, ld g2) {
    ld t = 1e-9L * (1 + n + fabsl(L));
    if (g1 != 0)
        t += 8 * n * (ld)EPS / fabsl(g1);
    if (g2 != 0)
        t += 8 * n * (ld)EPS / fabsl(g2);
    return t;
}

// the fitted parameters are those a fresh tail holding the same excesses gets
inline void model_is_fresh(struct Spot *sp) {
    const struct Ubend *u = &sp->tail.peaks.container;
    unsigned long n = ubend_size(u);
    // a new fit of the tail as it is gives the parameters it has
    struct Tail again = sp->tail;
    again.gamma = again.sigma = QNAN;
    tail_fit(&again);
    if (same(again.gamma, sp->tail.gamma) && same(again.sigma, sp->tail.sigma))
        return;
    struct Tail fresh;
    if (tail_init(&fresh, n))
        mc::fail("tail_init failed");
    bool pos = false, finite = true;
    ld sum = 0, sum2 = 0;
    for (unsigned long i = 0; i < n; i++) {
        tail_push(&fresh, u->data[i]);
        sum += u->data[i];
        sum2 += (ld)u->data[i] * u->data[i];
        pos |= u->data[i] > 0;
        finite &= u->data[i] < 1e100;
    }
    tail_fit(&fresh);
    double g = fresh.gamma, s = fresh.sigma;
    tail_free(&fresh);
    if (!pos || !finite)
        return;
    // equal excesses, up to rounding: their variance is rounding noise, and so
    // is any fit
    if (sum2 / n - (sum / n) * (sum / n) < 1e-9L * (sum / n) * (sum / n))
        return;
    if (same_bits(g, sp->tail.gamma) && same_bits(s, sp->tail.sigma))
        return;
    ld L1 = ref_llhood(u->data, n, sp->tail.gamma, sp->tail.sigma);
    ld L2 = ref_llhood(u->data, n, g, s);
    ld tol = llhood_tol(n, L2, g, sp->tail.gamma) * 10;
    if (L2 != L2)
        return; // not decidable here
    // near the end point of a bounded tail rounding may put an excess out
    if (!(L1 >= L2 - tol && L1 <= L2 + tol))
        mc::fail("the tail model (gamma=%.17g sigma=%.17g, log-likelihood %.12Lg) was not refreshed: "
                 "a new fit of the stored excesses gives gamma=%.17g sigma=%.17g (%.12Lg)",
                 sp->tail.gamma, sp->tail.sigma, L1, g, s, L2);
}
