// Reference copy of the implicit critical-state return mapping with sinh hardening (one variable,
// Newton with limited steps), reduced to the question "does the solve fail?". Used by C15 only. The
// answer for one state depends on rounding, so it is used as a failure rate over many states.
#pragma once
#include "ref.hpp"
namespace frozen {
inline int sg(T v){ return (T(0) < v) - (v < T(0)); }
inline T search(T epv, T epv_t, T de, T xi, T K, T p_t, T p00, T p0_min, T beta, int& right){
    T scale = 1, te = epv; int tries = 0, f = 0;
    while (tries < 32){
        te = epv - scale * de; T pp0 = std::max(p0_min, K * std::sinh(-xi * te + std::asinh(p00 / K))), pp = K * (te - epv_t) + p_t, val = 2 * pp + (beta - 1) * pp0, mid = (pp0 - beta * pp0) * 0.5;
        if (std::abs(pp - mid) <= 1e-5) break;
        if ((right == 1 && (pp < mid || p_t < mid)) || (right == 0 && (pp > mid || p_t > mid))){ te = epv; right = -1; break; }
        if (sg(epv_t - te) == sg(val) || sg(epv_t - te) == 0) break;
        scale *= 0.5; if (++tries != 32) continue;
        tries = 0; scale = 1; de = -de; if (++f > 1) return std::numeric_limits<T>::infinity();
    }
    return te;
}
inline bool sinh_fails(T p, T q, T M, T p00, T beta, T mu, T K, T xi, T epv){
    T p0 = std::max(T(0.01), K * std::sinh(-xi * epv + std::asinh(p00 / K))), Msq = M * M, y = Msq * (p * p + (beta - 1) * p0 * p - beta * p0 * p0) + q * q; if (y <= 0) return false;
    T sf = 1 / p0, p0_min = 0.01 * sf; p00 *= sf; p0 = 1; p *= sf; q *= sf; mu *= sf; K *= sf; T p_t = p, q_t = q, epv_t = epv; int right = p_t > 0.5 * (p0 - beta * p0);
    for (int it = 0; it < 40; it++){
        T mid = (p0 - beta * p0) * 0.5; if (std::abs(p - mid) < 1e-4) return false;
        p = (epv - epv_t) * K + p_t; T ph = K * std::sinh(-xi * epv + std::asinh(p00 / K)); p0 = std::max(p0_min, ph);
        T den = 2 * K * Msq * p + Msq * (beta - 1) * K * p0, dg = (p_t - p) / den, qd = 1 + 2 * mu * dg; q = q_t / qd; y = Msq * (p - p0) * (p + beta * p0) + q * q;
        if (it > 5 && std::abs(y) < 1e-4) return false;
        if (it == 39 && p0 > p0_min) return true;
        T h = -xi * K * std::cosh(-xi * epv + std::asinh(p00 / K)), dp0 = ph > p0_min ? 0.5 * (h + h - p0_min) : 0.5 * p0_min;
        T ddg = (-K / den) - (p_t - p) * (2 * K * Msq * K + Msq * (beta - 1) * K * dp0) / (den * den), dq = -q_t * 2 * mu * ddg / (qd * qd);
        T dy = Msq * (K - dp0) * (p + beta * p0) + Msq * (p - p0) * (beta * dp0 + K) + 2 * q * dq;
        epv = search(epv, epv_t, y / dy, xi, K, p_t, p00, p0_min, beta, right); if (epv == std::numeric_limits<T>::infinity()) return true;
    }
    return false;
}
// share of states at relative distance r around the given one whose solve fails
inline T sinh_fail_rate(T p, T q, T M, T p00, T beta, T mu, T K, T xi, T epv, T r){
    if (!sinh_fails(p, q, M, p00, beta, mu, K, xi, epv)) return 0;
    int f = 0, n = 60; for (int k = 0; k < n; k++){ T a = r * std::cos(2.1 * k + 0.3) * (1 + k % 7) / 7, b = r * std::sin(1.7 * k + 0.2) * (1 + k % 5) / 5; f += sinh_fails(p * (1 + a), q * (1 + b), M, p00, beta, mu, K, xi, epv); if (k - f > n / 8) return 0; }
    return T(f) / n;
}
}
