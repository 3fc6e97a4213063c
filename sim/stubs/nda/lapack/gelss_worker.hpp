#pragma once
#include <nda/nda.hpp>
#include <optional>
// Least squares by a one-sided Jacobi SVD
namespace nda::lapack {
  namespace stub {
    struct svd { // A = U diag(s) V^dagger, m >= n or not
      long m, n;
      std::vector<std::vector<dcomplex>> u, v; // columns
      std::vector<double> s;
      template <typename M> explicit svd(M const &a) : m(a.shape()[0]), n(a.shape()[1]), u(n, std::vector<dcomplex>(m)), v(n, std::vector<dcomplex>(n)), s(n) {
        for (long j = 0; j < n; ++j) {
          for (long i = 0; i < m; ++i) u[j][i] = a(i, j);
          v[j][j] = 1;
        }
        for (int sweep = 0; sweep < 60; ++sweep) {
          bool done = true;
          for (long p = 0; p < n; ++p)
            for (long q = p + 1; q < n; ++q) {
              double al = 0, be = 0;
              dcomplex ga = 0;
              for (long i = 0; i < m; ++i) {
                al += std::norm(u[p][i]);
                be += std::norm(u[q][i]);
                ga += std::conj(u[p][i]) * u[q][i];
              }
              double g = std::abs(ga);
              if (g == 0 || g <= 1e-15 * std::sqrt(al * be)) continue;
              done        = false;
              dcomplex ph = ga / g;
              double ze   = (be - al) / (2 * g);
              double t    = (ze >= 0 ? 1 : -1) / (std::abs(ze) + std::sqrt(1 + ze * ze));
              double c = 1 / std::sqrt(1 + t * t), si = c * t;
              auto rot = [&](auto &x, auto &y) {
                for (size_t i = 0; i < x.size(); ++i) {
                  dcomplex a0 = x[i], b0 = y[i] * std::conj(ph);
                  x[i] = c * a0 - si * b0;
                  y[i] = (si * a0 + c * b0);
                }
              };
              rot(u[p], u[q]);
              rot(v[p], v[q]);
            }
          if (done) break;
        }
        std::vector<long> o(n);
        for (long j = 0; j < n; ++j) {
          o[j] = j;
          for (auto &x : u[j]) s[j] += std::norm(x);
          s[j] = std::sqrt(s[j]);
          if (s[j] > 0)
            for (auto &x : u[j]) x /= s[j];
        }
        std::sort(o.begin(), o.end(), [&](long a, long b) { return s[a] > s[b]; });
        auto u2 = u;
        auto v2 = v;
        auto s2 = s;
        for (long j = 0; j < n; ++j) {
          u[j] = u2[o[j]];
          v[j] = v2[o[j]];
          s[j] = s2[o[j]];
        }
      }
    };
    template <typename M> std::pair<matrix<dcomplex>, double> solve(svd const &f, M const &b) {
      long k = b.shape()[1];
      if (b.shape()[0] != f.m) NDA_STUB_BAD("least squares with %ld equations and %ld right hand sides", f.m, b.shape()[0]);
      auto x      = matrix<dcomplex>::zeros(f.n, k);
      double emax = 0;
      for (long c = 0; c < k; ++c) {
        std::vector<dcomplex> r(f.m);
        for (long i = 0; i < f.m; ++i) r[i] = b(i, c);
        for (long j = 0; j < f.n; ++j) {
          if (!(f.s[j] > 0)) continue;
          dcomplex d = 0;
          for (long i = 0; i < f.m; ++i) d += std::conj(f.u[j][i]) * b(i, c);
          for (long i = 0; i < f.m; ++i) r[i] -= d * f.u[j][i];
          for (long i = 0; i < f.n; ++i) x(i, c) += d / f.s[j] * f.v[j][i];
        }
        double e = 0;
        for (auto &y : r) e += std::norm(y);
        emax = std::max(emax, std::sqrt(e / (double)std::max<long>(1, f.m)));
      }
      return {std::move(x), emax};
    }
  } // namespace stub
  template <typename T> struct gelss_worker {
    stub::svd f;
    std::vector<double> sv;
    template <typename M> explicit gelss_worker(M const &a) : f(a), sv(f.s) {}
    int n_var() const { return (int)f.n; }
    std::vector<double> const &S_vec() const { return sv; }
    template <typename M> auto operator()(M const &b, std::optional<long> = {}) const { return stub::solve(f, b); }
  };
  // the real one constrains the moments to be Hermitian matrices; here they are made so afterwards
  struct gelss_worker_hermitian : gelss_worker<dcomplex> {
    using gelss_worker<dcomplex>::gelss_worker;
    template <typename M> auto operator()(M const &b, std::optional<long> dim) const {
      auto [x, e] = stub::solve(f, b);
      long d      = *dim;
      for (long i = 0; i < x.shape()[0]; ++i)
        for (long o = 0; o < x.shape()[1] / (d * d); ++o)
          for (long a = 0; a < d; ++a)
            for (long c = a; c < d; ++c) {
              long p = o * d * d + a * d + c, q = o * d * d + c * d + a;
              dcomplex h = (x(i, p) + std::conj(x(i, q))) / 2.0;
              x(i, p)    = h;
              x(i, q)    = std::conj(h);
            }
      return std::pair{std::move(x), e};
    }
  };
} // namespace nda::lapack
