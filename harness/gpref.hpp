// Independent reference for Gaussian processes: plain formulas in long double, no incremental computation.
#ifndef MBV_GPREF_HPP
#define MBV_GPREF_HPP
#include <Eigen/Core>
#include <functional>
#include <vector>
#include <cmath>

namespace gpref {
    using R = long double;
    using VR = std::vector<R>;
    using V = Eigen::VectorXd;
    enum Kernel { EXP, M32, M52, SE };
    inline VR vr(const V& v) { return VR(v.data(), v.data() + v.size()); }

    // value of a kernel without noise. hp: log parameters (without the noise)
    inline R kval(Kernel k, int ard_k, const VR& hp, const VR& a, const VR& b)
    {
        size_t d = a.size();
        if (k == SE) {
            R z = 0;
            for (size_t i = 0; i < d; i++) {
                R u = (a[i] - b[i]) / expl(hp[i]);
                z += u * u;
            }
            for (int j = 0; j < ard_k; j++) {
                R s = 0;
                for (size_t i = 0; i < d; i++)
                    s += hp[(j + 1) * d + i] * (a[i] - b[i]);
                z += s * s;
            }
            return expl(2 * hp[d + d * ard_k]) * expl(-z / 2);
        }
        R l = expl(hp[0]), sf2 = expl(2 * hp[1]), r2 = 0;
        for (size_t i = 0; i < d; i++)
            r2 += (a[i] - b[i]) * (a[i] - b[i]);
        R r = sqrtl(r2) / l;
        if (k == EXP)
            return sf2 * expl(-r * r / 2);
        if (k == M32)
            return sf2 * (1 + sqrtl(3.L) * r) * expl(-sqrtl(3.L) * r);
        return sf2 * (1 + sqrtl(5.L) * r + 5 * r * r / 3) * expl(-sqrtl(5.L) * r);
    }

    // dense Cholesky; returns false if not positive definite
    struct Chol {
        std::vector<VR> L;
        bool ok = true;
        Chol() {}
        Chol(const std::vector<VR>& K)
        {
            size_t n = K.size();
            L.assign(n, VR(n, 0));
            for (size_t i = 0; i < n; i++)
                for (size_t j = 0; j <= i; j++) {
                    R s = K[i][j];
                    for (size_t t = 0; t < j; t++)
                        s -= L[i][t] * L[j][t];
                    if (i == j) {
                        if (!(s > 0)) {
                            ok = false;
                            return;
                        }
                        L[i][i] = sqrtl(s);
                    }
                    else
                        L[i][j] = s / L[j][j];
                }
        }
        VR solve(VR b) const
        {
            int n = L.size();
            for (int i = 0; i < n; i++) {
                for (int t = 0; t < i; t++)
                    b[i] -= L[i][t] * b[t];
                b[i] /= L[i][i];
            }
            for (int i = n - 1; i >= 0; i--) {
                for (int t = i + 1; t < n; t++)
                    b[i] -= L[t][i] * b[t];
                b[i] /= L[i][i];
            }
            return b;
        }
        R logdet() const
        {
            R s = 0;
            for (size_t i = 0; i < L.size(); i++)
                s += 2 * logl(L[i][i]);
            return s;
        }
        R cond() const // crude estimate
        {
            R tr = 0, mn = 1e300L;
            for (size_t i = 0; i < L.size(); i++) {
                R s = 0;
                for (size_t t = 0; t <= i; t++)
                    s += L[i][t] * L[i][t];
                tr += s;
                mn = std::min(mn, L[i][i] * L[i][i]);
            }
            return L.empty() ? 1 : tr / mn;
        }
    };

    // a Gaussian process described by its data, kernel parameters and mean
    struct GP {
        Kernel kern;
        int ard_k = 0;
        VR khp; // log parameters, without noise
        R noise = 0, jitter = 1e-8L;
        std::vector<VR> X, Y; // Y: one vector per sample
        int dout = 1;
        std::function<VR(const VR&)> mean;

        R k(const VR& a, const VR& b) const { return kval(kern, ard_k, khp, a, b); }
        std::vector<VR> K() const
        {
            size_t n = X.size();
            std::vector<VR> m(n, VR(n));
            for (size_t i = 0; i < n; i++)
                for (size_t j = 0; j < n; j++)
                    m[i][j] = k(X[i], X[j]) + (i == j ? noise + jitter : 0);
            return m;
        }
        VR resid(int o) const
        {
            VR r;
            for (size_t i = 0; i < X.size(); i++)
                r.push_back(Y[i][o] - mean(X[i])[o]);
            return r;
        }
        struct Pred {
            VR mu;
            R var; // with noise
            R cond;
            bool ok;
        };
        Pred predict(const VR& x) const
        {
            Pred p;
            p.mu = mean(x);
            p.cond = 1;
            p.ok = true;
            R kxx = k(x, x);
            if (X.empty()) {
                p.var = kxx + noise;
                return p;
            }
            Chol c(K());
            p.ok = c.ok;
            if (!c.ok)
                return p;
            VR kx;
            for (auto& a : X)
                kx.push_back(k(a, x));
            for (int o = 0; o < dout; o++) {
                VR al = c.solve(resid(o));
                for (size_t i = 0; i < kx.size(); i++)
                    p.mu[o] += kx[i] * al[i];
            }
            VR z = c.solve(kx);
            R v = kxx;
            for (size_t i = 0; i < kx.size(); i++)
                v -= kx[i] * z[i];
            p.var = std::max<R>(v, 0) + noise;
            p.cond = c.cond();
            return p;
        }
        R lik(R* cond = nullptr) const
        {
            Chol c(K());
            if (!c.ok)
                return NAN;
            if (cond)
                *cond = c.cond();
            R a = 0;
            for (int o = 0; o < dout; o++) {
                VR r = resid(o), al = c.solve(r);
                for (size_t i = 0; i < r.size(); i++)
                    a += r[i] * al[i];
            }
            return -a / 2 - c.logdet() / 2 - X.size() * logl(2 * acosl(-1.L)) / 2;
        }
        // leave-one-out by really leaving each sample out
        R loo(R* cond = nullptr) const
        {
            R s = 0;
            std::vector<VR> k0 = K();
            size_t n = X.size();
            if (cond) {
                Chol c(k0);
                if (!c.ok)
                    return NAN;
                *cond = c.cond();
            }
            for (size_t i = 0; i < n; i++) {
                std::vector<VR> kk;
                VR kx;
                for (size_t a = 0; a < n; a++) {
                    if (a == i)
                        continue;
                    VR row;
                    for (size_t b = 0; b < n; b++)
                        if (b != i)
                            row.push_back(k0[a][b]);
                    kk.push_back(row);
                    kx.push_back(k0[a][i]);
                }
                Chol c(kk);
                if (!c.ok)
                    return NAN;
                VR z = c.solve(kx);
                R v = k0[i][i];
                for (size_t a = 0; a < kx.size(); a++)
                    v -= kx[a] * z[a];
                for (int o = 0; o < dout; o++) {
                    VR r = resid(o);
                    R m = r[i];
                    size_t q = 0;
                    for (size_t a = 0; a < n; a++)
                        if (a != i)
                            m -= z[q++] * r[a];
                    s += -m * m / (2 * v) - logl(v) / 2 - logl(2 * acosl(-1.L)) / 2;
                }
            }
            return s;
        }
    };

    inline bool close(R a, R b, R tol) { return fabsl(a - b) <= tol * (1 + std::max(fabsl(a), fabsl(b))); }
    // tolerance of a double precision computation with this condition number; negative: not comparable
    inline R tolerance(R cond) { return cond > 1e9L ? -1 : std::max<R>(1e-7L, cond * 1e-13L * 100); }
}
#endif
