// Second quantized operators and what acts with them: the parts shared by ops*.cpp
#pragma once
#include "sim.hpp"
#include <h5/h5.hpp>
#include <nda/h5.hpp>
#include <nda/mpi.hpp>
using nda::make_regular;
#include <triqs/operators/many_body_operator.hpp>
#include <algorithm>
#include <cmath>
#include <complex>
#include <cstdarg>
#include <new>
#include <optional>
#include <set>
#include <sstream>

namespace ow {
  using cd        = std::complex<double>;
  using roc       = triqs::utility::real_or_complex;
  using indices_t = triqs::hilbert_space::indices_t;
  using fops_t    = triqs::hilbert_space::fundamental_operator_set;
  template <typename S> using Op = triqs::operators::many_body_operator_generic<S>;

  enum { O01 = 1, O02 = 2, O03 = 3 };
  inline std::string where;
  inline std::string str(char const *f, ...) {
    char b[900];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
  }
#define FAIL(cls, ...) sim::violation(cls, "%s: %s", ow::where.c_str(), ow::str(__VA_ARGS__).c_str())

  // ================================================================= modes
  inline const std::vector<std::vector<indices_t>> universes = {
     {{"up", 0l}, {"up", 1l}, {"dn", 0l}, {"dn", 1l}},
     {{0l}, {1l}, {12l}, {-3l}},
     {{"a"}, {"b"}, {""}, {"i5"}},
     {{1l, "x", 2l}, {1l, "x"}, {}, {2l}},
     {{5000000000l, "z"}, {7l}, {"7"}, {705032704l, "z"}},
     {{"b", 10l}, {"b", 9l}, {"a", 0l}, {"A", 0l}},
     {{-9l, -8000000000l}, {"s", "i"}, {"s", "", "i"}, {"si"}},
  };
  inline bool less_idx(indices_t const &a, indices_t const &b) {
    for (size_t i = 0; i < a.size() && i < b.size(); ++i) {
      bool sa = std::holds_alternative<std::string>(a[i]), sb = std::holds_alternative<std::string>(b[i]);
      if (sa != sb) return sb;
      if (sa) {
        int c = std::get<std::string>(a[i]).compare(std::get<std::string>(b[i]));
        if (c) return c < 0;
      } else {
        long x = std::get<long>(a[i]), y = std::get<long>(b[i]);
        if (x != y) return x < y;
      }
    }
    return a.size() < b.size();
  }
  inline std::string show(indices_t const &v) {
    std::string s = "(";
    for (size_t i = 0; i < v.size(); ++i) {
      if (i) s += ",";
      if (std::holds_alternative<long>(v[i]))
        s += std::to_string(std::get<long>(v[i]));
      else
        s += "'" + std::get<std::string>(v[i]) + "'";
    }
    return s + ")";
  }

  // ================================================================= words: products of creators and annihilators
  struct Let {
    bool dag;
    int mode;
    bool operator==(Let const &) const = default;
  };
  using Word = std::vector<Let>;
  // sign of the result of the word on the Fock state f (modified), 0 if it vanishes; pos: mode -> bit
  template <typename P> int act(Word const &w, uint64_t &f, P pos) {
    int sign = 1;
    for (auto it = w.rbegin(); it != w.rend(); ++it) {
      int k      = pos(it->mode);
      uint64_t b = uint64_t(1) << k;
      if (bool(f & b) == it->dag) return 0;
      if (__builtin_popcountll(f & (b - 1)) & 1) sign = -sign;
      f ^= b;
    }
    return sign;
  }
  inline int ident(int k) { return k; }

  // ================================================================= dense matrices on four modes
  constexpr int D = 16;
  struct Mat {
    std::vector<cd> a = std::vector<cd>(D * D);
    cd &operator()(int i, int j) { return a[i * D + j]; }
    cd const &operator()(int i, int j) const { return a[i * D + j]; }
    bool operator==(Mat const &) const = default;
    void add(Word const &w, cd c) {
      for (int f = 0; f < D; ++f) {
        uint64_t g = f;
        if (int s = act(w, g, ident)) (*this)((int)g, f) += double(s) * c;
      }
    }
    static Mat one(cd c) {
      Mat m;
      m.add({}, c);
      return m;
    }
    double big() const {
      double x = 0;
      for (auto &y : a) x = std::max({x, std::abs(y.real()), std::abs(y.imag())});
      return x;
    }
    bool fits() const { // further operations on it are exact
      if (big() > 256) return false;
      for (auto &y : a)
        if (std::floor(y.real() * 256) != y.real() * 256 || std::floor(y.imag() * 256) != y.imag() * 256) return false;
      return true;
    }
    bool zero() const { return big() == 0; }
  };
  inline Mat operator+(Mat x, Mat const &y) {
    for (int i = 0; i < D * D; ++i) x.a[i] += y.a[i];
    return x;
  }
  inline Mat operator*(cd c, Mat x) {
    for (auto &y : x.a) y = cd(c.real() * y.real() - c.imag() * y.imag(), c.real() * y.imag() + c.imag() * y.real());
    return x;
  }
  inline Mat operator-(Mat const &x, Mat const &y) { return x + cd(-1) * y; }
  inline Mat operator*(Mat const &x, Mat const &y) {
    Mat r;
    for (int i = 0; i < D; ++i)
      for (int k = 0; k < D; ++k)
        if (x(i, k) != 0.0)
          for (int j = 0; j < D; ++j) r(i, j) += x(i, k) * y(k, j);
    return r;
  }
  inline Mat dag(Mat const &x) {
    Mat r;
    for (int i = 0; i < D; ++i)
      for (int j = 0; j < D; ++j) r(i, j) = std::conj(x(j, i));
    return r;
  }

  // ================================================================= what an operator holds
  struct Term {
    Word w;
    cd c;
    bool real;
    bool operator==(Term const &) const = default;
  };
  template <typename S> cd value(S const &x) {
    if constexpr (std::is_same_v<S, roc>)
      return {real(x), imag(x)};
    else
      return x;
  }
  template <typename S> bool flag(S const &x) {
    if constexpr (std::is_same_v<S, roc>)
      return x.is_real();
    else
      return std::is_same_v<S, double>;
  }
  template <typename S> S scalar_of(cd x, bool real) {
    if constexpr (std::is_same_v<S, roc>)
      return real ? S(x.real()) : S(x);
    else if constexpr (std::is_same_v<S, double>)
      return x.real();
    else
      return x;
  }
  // the terms of an operator, whose form is checked on the way
  template <typename S> std::vector<Term> terms(Op<S> const &o, std::vector<indices_t> const &U) {
    std::vector<Term> r;
    for (auto const &t : o) {
      Word w;
      for (auto const &l : t.monomial) {
        auto it = std::find(U.begin(), U.end(), l.indices);
        if (it == U.end()) FAIL("term", "the operator has a term with indices %s, which nobody used", show(l.indices).c_str());
        w.push_back({l.dagger, (int)(it - U.begin())});
      }
      for (size_t i = 1; i < w.size(); ++i) {
        auto x = w[i - 1], y = w[i];
        bool ok = x.dag != y.dag ? x.dag : x.dag ? less_idx(U[x.mode], U[y.mode]) : less_idx(U[y.mode], U[x.mode]);
        if (!ok) FAIL("order", "a term is not in normal order at its letter %d", (int)i);
      }
      for (auto &x : r)
        if (x.w == w) FAIL("twice", "a monomial appears twice");
      auto c = value(t.coef);
      if (c == 0.0) FAIL("zero-term", "a term has coefficient zero");
      if (c.imag() != 0 && flag(t.coef)) FAIL("flag", "a real coefficient has an imaginary part");
      if (!r.empty()) { // the order of the terms: short ones first, then lexicographic
        auto const &p = r.back().w;
        bool ok = p.size() < w.size();
        if (p.size() == w.size()) {
          size_t i = 0;
          while (i < w.size() && p[i] == w[i]) ++i;
          if (i < w.size()) {
            auto x = p[i], y = w[i];
            ok = x.dag != y.dag ? x.dag : x.dag ? less_idx(U[x.mode], U[y.mode]) : less_idx(U[y.mode], U[x.mode]);
          }
        }
        if (!ok) FAIL("term-order", "the terms are not in their order");
      }
      r.push_back({w, c, flag(t.coef)});
    }
    return r;
  }
  inline Mat matrix_of(std::vector<Term> const &t) {
    Mat m;
    for (auto &x : t) m.add(x.w, x.c);
    return m;
  }
  template <typename S> Op<S> op_of(Word const &w, S c, std::vector<indices_t> const &U) {
    Op<S> r(c);
    for (auto &l : w) r = r * Op<S>::make_canonical(l.dag, U[l.mode]);
    return r;
  }

  // ================================================================= the processes
  void o01_body();
  void o02_body();
  void o03_body();
  void o01_setup();
  void o02_setup();
  void o03_setup();
  void o01_generate(sim::Rng &, sim::Plan &);
  void o02_generate(sim::Rng &, sim::Plan &);
  void o03_generate(sim::Rng &, sim::Plan &);
} // namespace ow
