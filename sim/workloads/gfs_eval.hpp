// Evaluation of Green's functions, described independently: for every mesh, arguments and the sum over mesh points they stand for.
#pragma once
#include "gfs_common.hpp"

namespace gw {
  struct Term {
    long at;
    cd w;
    bool cj = false; // the complex conjugate of the value
  };
  using Terms = std::vector<Term>;
  // arg<brief>(m, v, code, f): calls f(x, terms) for one argument x; brief: fewer kinds of arguments (for products)
  template <typename M> struct EV {
    static constexpr bool can = false;
  };
  inline double unit(uint64_t code, int k) { return (double)(sim::mix(code, k) >> 11) / (double)(1ull << 53); }

  template <> struct EV<mesh::imfreq> {
    static constexpr bool can = true;
    using O                   = MO<mesh::imfreq>;
    template <bool brief> static void arg(mesh::imfreq const &m, int v, uint64_t code, auto &&f) {
      auto p   = O::tab[v];
      int u    = (int)(sim::mix(code, 1) % 8);
      long n   = O::first(v) + (long)(sim::mix(code, 2) % O::npts(v));
      Terms t  = {{n - O::first(v), 1}};
      auto mf  = [&](long k) { return mesh::matsubara_freq{k, p.beta, p.f ? Fermion : Boson}; };
      if constexpr (brief) {
        long out = (long)(sim::mix(code, 3) % 3);
        if (u == 0) return f(mf(sim::mix(code, 4) % 2 ? O::first(v) + O::npts(v) + out : O::first(v) - 1 - out), Terms{}); // outside: zero in products
        if (u < 4) return f(mf(n), t);
        return f(m[n - O::first(v)], t);
      } else {
        if (p.pos && u < 3) { // the negative ones
          long k = -n - (p.f ? 1 : 0);
          if (k < 0) {
            t[0].cj = true;
            if (u == 0) return f((int)k, t);
            return f(mf(k), t);
          }
        }
        if (u < 4) return f((int)n, t);
        if (u < 6) return f(mf(n), t);
        return f(m[n - O::first(v)], t);
      }
    }
  };
  template <typename M> struct EVlin {
    static constexpr bool can = true;
    template <bool brief> static void lin(M const &m, double a, double b, long n, uint64_t code, auto &&f) {
      int u  = (int)(sim::mix(code, 1) % 8);
      long i = (long)(sim::mix(code, 2) % n);
      if (n == 1 || u == 0) {
        if constexpr (!brief) return f((long)i, Terms{{i, 1}});
      }
      if (n == 1) return;
      double w = unit(code, 3), h = (b - a) / (n - 1);
      if (i == n - 1) i = n - 2;
      if (u == 1) w = 1;
      if (u == 2) w = 0;
      double x = i == n - 2 && w == 1 ? b : a + (i + w) * h;
      if (u < 6) return f(x, Terms{{i, 1 - w}, {i + 1, w}});
      if (u == 6) {
        if constexpr (!brief) return f(m[i], Terms{{i, 1}});
      }
      if (std::abs(w - 0.5) < 1e-3) w = 0.25;
      f(mesh::closest_mesh_pt(a + (i + w) * h), Terms{{w < 0.5 ? i : i + 1, 1}});
    }
  };
  template <> struct EV<mesh::refreq> : EVlin<mesh::refreq> {
    template <bool brief> static void arg(mesh::refreq const &m, int v, uint64_t code, auto &&f) {
      auto p = MO<mesh::refreq>::tab[v];
      lin<brief>(m, p.a, p.b, p.n, code, f);
    }
  };
  template <> struct EV<mesh::retime> : EVlin<mesh::retime> {
    template <bool brief> static void arg(mesh::retime const &m, int v, uint64_t code, auto &&f) {
      auto p = MO<mesh::retime>::tab[v];
      lin<brief>(m, p.a, p.b, p.n, code, f);
    }
  };
  template <> struct EV<mesh::imtime> : EVlin<mesh::imtime> {
    template <bool brief> static void arg(mesh::imtime const &m, int v, uint64_t code, auto &&f) {
      auto p = MO<mesh::imtime>::tab[v];
      lin<brief>(m, 0, p.beta, p.n, code, f);
    }
  };
  template <> struct EV<mesh::legendre> {
    static constexpr bool can = true;
    template <bool brief> static void arg(mesh::legendre const &m, int v, uint64_t code, auto &&f) {
      auto p = MO<mesh::legendre>::tab[v];
      if (sim::mix(code, 1) % 6 == 0) {
        long i = (long)(sim::mix(code, 2) % p.n);
        return f(i, Terms{{i, 1}});
      }
      double tau = p.beta * unit(code, 3), x = 2 * tau / p.beta - 1;
      Terms t;
      double a = 1, b = x; // P_l, P_l+1
      for (long l = 0; l < p.n; ++l) {
        t.push_back({l, std::sqrt(2. * l + 1) * a / p.beta});
        double c = ((2 * l + 3) * x * b - (l + 1) * a) / (l + 2);
        a        = b;
        b        = c;
      }
      f(tau, t);
    }
  };
  template <> struct EV<mesh::discrete> {
    static constexpr bool can = true;
    template <bool brief> static void arg(mesh::discrete const &m, int v, uint64_t code, auto &&f) {
      long i = (long)(sim::mix(code, 2) % MO<mesh::discrete>::npts(v));
      if constexpr (!brief) {
        if (sim::mix(code, 1) % 2) return f(m[i], Terms{{i, 1}});
      }
      f(i, Terms{{i, 1}});
    }
  };
  inline long wrap(long i, long n) { return ((i % n) + n) % n; }
  inline long cell(int v, std::array<long, 3> i) {
    auto d = MO<mesh::brzone>::dims(v);
    return (wrap(i[0], d[0]) * d[1] + wrap(i[1], d[1])) * d[2] + wrap(i[2], d[2]);
  }
  template <> struct EV<mesh::brzone> {
    static constexpr bool can = true;
    using O                   = MO<mesh::brzone>;
    // the point (or the points around it) at the fractional index t
    static Terms at(int v, std::array<double, 3> t) {
      Terms r;
      for (int c = 0; c < 8; ++c) {
        std::array<long, 3> i;
        double w = 1;
        for (int j = 0; j < 3; ++j) {
          double fl = std::floor(t[j]), x = t[j] - fl;
          i[j]      = (long)fl + (c >> j & 1);
          w *= (c >> j & 1) ? x : 1 - x;
        }
        r.push_back({cell(v, i), w});
      }
      return r;
    }
    static auto kvec(mesh::brzone const &m, int v, std::array<double, 3> t) {
      std::array<double, 3> k = {0, 0, 0};
      auto K                  = m.bz().units();
      for (int j = 0; j < 3; ++j)
        for (int d = 0; d < 3; ++d) k[d] += t[j] / O::dims(v)[j] * K(j, d);
      return k;
    }
    static std::array<double, 3> frac(std::array<long, 3> i) { return {(double)i[0], (double)i[1], (double)i[2]}; }
    template <bool brief> static void arg(mesh::brzone const &m, int v, uint64_t code, auto &&f) {
      int u  = (int)(sim::mix(code, 1) % 8);
      auto d = O::dims(v);
      std::array<long, 3> i;
      std::array<double, 3> t;
      for (int j = 0; j < 3; ++j) {
        i[j] = (long)(sim::mix(code, 10 + j) % (6 * d[j] + 1)) - 3 * d[j];
        t[j] = (unit(code, 20 + j) * 6 - 3) * (double)d[j];
        if (u == 7) t[j] = (double)i[j];
      }
      long a = (long)(sim::mix(code, 30) % O::npts(v)), b = (long)(sim::mix(code, 31) % O::npts(v));
      if (u < 2) return f(i, Terms{{cell(v, i), 1}});
      if (u == 2) return f(m[a], at(v, frac(O::index(v, a))));
      if constexpr (!brief) {
        auto ia = O::index(v, a), ib = O::index(v, b);
        auto p = m[a], q = m[b];
        if (u == 3) {
          for (int j = 0; j < 3; ++j) ia[j] += ib[j];
          return f(p + q, at(v, frac(ia)));
        }
        if (u == 4) {
          for (int j = 0; j < 3; ++j) ia[j] -= 2 * ib[j];
          return f(p - 2 * q, at(v, frac(ia)));
        }
        if (u == 5) { // the closest one; in an orthogonal lattice
          if (v != 3) {
            for (int j = 0; j < 3; ++j) {
              double x = t[j] - std::floor(t[j]);
              if (std::abs(x - 0.5) < 1e-3) t[j] = std::floor(t[j]) + 0.25;
              i[j] = (long)std::floor(t[j] + 0.5);
              if (d[j] == 1) t[j] = 0;
            }
            return f(mesh::closest_mesh_pt(kvec(m, v, t)), Terms{{cell(v, i), 1}});
          }
        }
      }
      f(kvec(m, v, t), at(v, t));
    }
  };
  template <> struct EV<mesh::cyclat> {
    static constexpr bool can = true;
    using O                   = MO<mesh::cyclat>;
    template <bool brief> static void arg(mesh::cyclat const &m, int v, uint64_t code, auto &&f) {
      int u  = (int)(sim::mix(code, 1) % 7);
      auto d = O::dims(v);
      std::array<long, 3> i;
      for (int j = 0; j < 3; ++j) i[j] = (long)(sim::mix(code, 10 + j) % (6 * d[j] + 1)) - 3 * d[j];
      long a = (long)(sim::mix(code, 30) % O::npts(v));
      if (u == 0) return f(m[a], Terms{{a, 1}});
      if constexpr (!brief) {
        if (u == 1) return f(m[a].value(), Terms{{a, 1}});
        long b  = (long)(sim::mix(code, 31) % O::npts(v));
        auto at = [&](int sign) {
          auto x = O::index(v, a), y = O::index(v, b);
          for (int j = 0; j < 3; ++j) x[j] += sign * y[j];
          return Terms{{cell(v, x), 1}};
        };
        if (u == 2) return f(m[a].value() + m[b].value(), at(1));
        if (u == 3) return f(m[a] - m[b], at(-1));
        if (u == 4) return f(mesh::closest_mesh_pt(mesh::cyclat::value_t{i, &m.lattice()}), Terms{{cell(v, i), 1}});
      }
      f(i, Terms{{cell(v, i), 1}});
    }
  };
  template <> struct EV<mesh::dlr> {
    static constexpr bool can = true;
    template <bool brief> static void arg(mesh::dlr const &m, int v, uint64_t code, auto &&f) {
      auto const &p = dlrs[v];
      auto w        = cppdlr::build_dlr_rf(p.w * p.beta, p.eps);
      Terms t;
      if (sim::mix(code, 1) % 2) {
        double tau = p.beta * unit(code, 2);
        for (long l = 0; l < w.size(); ++l) t.push_back({l, w(l) > 0 ? std::exp(-tau / p.beta * w(l)) / (1 + std::exp(-w(l))) : std::exp((1 - tau / p.beta) * w(l)) / (1 + std::exp(w(l)))});
        return f(tau, t);
      }
      long n = (long)(sim::mix(code, 2) % 41) - 20;
      if (n == 0 && !p.f) n = 1;
      for (long l = 0; l < w.size(); ++l) t.push_back({l, p.beta / (cd(0, (2 * n + (p.f ? 1 : 0)) * M_PI) + w(l))});
      f(mesh::matsubara_freq{n, p.beta, p.f ? Fermion : Boson}, t);
    }
  };
  template <typename... Ms> struct EV<mesh::prod<Ms...>> {
    static constexpr bool can = (EV<Ms>::can and ...);
    using M                   = mesh::prod<Ms...>;
    using O                   = MO<M>;
    // f(terms, x...)
    template <size_t I> static void rec(M const &m, int v, uint64_t code, Terms const &t, auto &&f) {
      if constexpr (I == sizeof...(Ms))
        f(t);
      else {
        using C = std::tuple_element_t<I, std::tuple<Ms...>>;
        EV<C>::template arg<true>(std::get<I>(m), O::template comp<I>(v), sim::mix(code, I), [&](auto const &x, Terms const &tx) {
          Terms s;
          for (auto const &a : t)
            for (auto const &b : tx) s.push_back({a.at * O::sizes(v)[I] + b.at, a.w * b.w});
          rec<I + 1>(m, v, code, s, [&](Terms const &r, auto const &...y) { f(r, x, y...); });
        });
      }
    }
  };
  // f(terms, x...) for one seeded argument, or not at all
  template <typename M> void arguments(M const &m, int v, uint64_t code, auto &&f) {
    if constexpr (mesh::is_product<M>)
      EV<M>::template rec<0>(m, v, code, Terms{{0, 1}}, f);
    else
      EV<M>::template arg<false>(m, v, code, [&](auto const &x, Terms const &t) { f(t, x); });
  }
} // namespace gw
