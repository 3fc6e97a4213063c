// Minimal stand-in for the h5 library: an in-memory tree of values. Enough for the demonstrations.
#pragma once
#include <any>
#include <complex>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
namespace h5 {
  struct node { std::map<std::string, std::shared_ptr<node>> kids; std::any val; };
  struct group {
    std::shared_ptr<node> n = std::make_shared<node>();
    group create_group(std::string const &k) const { return {n->kids[k] = std::make_shared<node>()}; }
    group open_group(std::string const &k) const {
      if (!n->kids.count(k)) throw std::runtime_error("no group " + k);
      return {n->kids[k]};
    }
    bool has_key(std::string const &k) const { return n->kids.count(k); }
  };
  using file = group;
  using dcomplex = std::complex<double>;
  template <typename T> concept plain = std::is_arithmetic_v<T> or std::is_same_v<T, dcomplex> or std::is_same_v<T, std::string>;
  template <plain T> void h5_write(group g, std::string const &k, T const &x) { g.create_group(k).n->val = x; }
  template <plain T> void h5_read(group g, std::string const &k, T &x) {
    auto s = g.open_group(k);
    if constexpr (std::is_integral_v<T> and not std::is_same_v<T, bool>) {
      auto &v = s.n->val;
      if (auto p = std::any_cast<int>(&v)) x = (T)*p;
      else if (auto p = std::any_cast<long>(&v)) x = (T)*p;
      else if (auto p = std::any_cast<unsigned long>(&v)) x = (T)*p;
      else x = std::any_cast<T>(v);
    } else x = std::any_cast<T>(s.n->val);
  }
  template <typename T> bool h5_try_read(group g, std::string const &k, T &x) { if (!g.has_key(k)) return false; h5_read(g, k, x); return true; }
  template <typename T> void write(group g, std::string const &k, T const &x) { h5_write(g, k, x); }
  template <typename T> void read(group g, std::string const &k, T &x) { h5_read(g, k, x); }
  template <typename T> T read(group g, std::string const &k) { T x; h5_read(g, k, x); return x; }
  template <typename T> bool try_read(group g, std::string const &k, T &x) { return h5_try_read(g, k, x); }
  template <typename T> void h5_write(group g, std::string const &k, std::vector<T> const &v) {
    auto s = g.create_group(k);
    h5_write(s, "n", (long)v.size());
    for (size_t i = 0; i < v.size(); ++i) h5_write(s, std::to_string(i), v[i]);
  }
  template <typename T> void h5_read(group g, std::string const &k, std::vector<T> &v) {
    auto s = g.open_group(k);
    long n;
    h5_read(s, "n", n);
    v.clear();
    for (long i = 0; i < n; ++i) { T x; h5_read(s, std::to_string(i), x); v.push_back(x); }
  }
  inline void write_hdf5_format(group, auto const &...) {}
  inline void assert_hdf5_format(group, auto const &...) {}
  inline void write_hdf5_format_as_string(group, auto const &...) {}
} // namespace h5
