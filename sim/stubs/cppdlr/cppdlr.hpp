#pragma once
// Stand-in for cppdlr: a deterministic set of frequencies and nodes depending on every argument, stored and read back as the real ones
#include <nda/nda.hpp>
#include <nda/h5.hpp>
#include <h5/h5.hpp>
namespace cppdlr {
  enum statistic_t { Boson = 0, Fermion = 1 };
  inline nda::vector<double> build_dlr_rf(double lambda, double eps) {
    long n = 2 + (long)(std::log10(1 + lambda) + 0.3 * -std::log10(eps));
    nda::vector<double> w(n);
    for (long i = 0; i < n; ++i) w(i) = lambda * std::tanh(0.7 * (double)(i - n / 2) + 0.013 * (double)i) + 1e-3 * (double)i - eps;
    return w;
  }
  inline double k_it(double t, double w) { return w > 0 ? std::exp(-t * w) / (1 + std::exp(-w)) : std::exp((1 - t) * w) / (1 + std::exp(w)); }
  inline std::complex<double> k_if(long n, double w, statistic_t s) { return 1.0 / (std::complex<double>(0, (2 * n + s) * M_PI) + (w == 0 ? 1e-10 : w)); }
  class imtime_ops {
    double lambda_ = 0;
    nda::vector<double> rf, nodes;

    public:
    imtime_ops() = default;
    imtime_ops(double l, nda::vector<double> const &w) : lambda_(l), rf(w), nodes(w.shape()) {
      for (long i = 0; i < w.size(); ++i) nodes(i) = (i % 2 ? -1 : 1) * (0.5 * (double)(i + 1) / (double)(w.size() + 1)) * (1 + 1e-4 / (1 + l));
    }
    nda::vector_const_view<double> get_itnodes() const { return nodes; }
    double lambda() const { return lambda_; }
    auto get_rfnodes() const { return rf; }
    static std::string hdf5_format() { return "cppdlr::imtime_ops"; }
    friend void h5_write(h5::group fg, std::string const &name, imtime_ops const &m) {
      auto gr = fg.create_group(name);
      write_hdf5_format(gr, m);
      h5::write(gr, "lambda", m.lambda_);
      nda::h5_write(gr, "rf", m.rf);
      nda::h5_write(gr, "it", m.nodes);
    }
    friend void h5_read(h5::group fg, std::string const &name, imtime_ops &m) {
      auto gr = fg.open_group(name);
      assert_hdf5_format(gr, m);
      h5::read(gr, "lambda", m.lambda_);
      nda::h5_read(gr, "rf", m.rf);
      nda::h5_read(gr, "it", m.nodes);
    }
    // no interpolation here
    template <typename A> auto vals2coefs(A const &a, bool = false) const { return nda::make_regular(a); }
    template <typename A> auto coefs2vals(A const &a) const { return nda::make_regular(a); }
  };
  class imfreq_ops {
    double lambda_ = 0;
    int st         = 0;
    nda::vector<double> rf;
    nda::vector<long> nodes;

    public:
    imfreq_ops() = default;
    imfreq_ops(double l, nda::vector<double> const &w, statistic_t s) : lambda_(l), st(s), rf(w), nodes(w.shape()) {
      for (long i = 0; i < w.size(); ++i) nodes(i) = (i - w.size() / 2) * (1 + std::abs(i - w.size() / 2)) / 2 + (l > 50 ? i : 0);
    }
    nda::vector_const_view<long> get_ifnodes() const { return nodes; }
    double lambda() const { return lambda_; }
    static std::string hdf5_format() { return "cppdlr::imfreq_ops"; }
    friend void h5_write(h5::group fg, std::string const &name, imfreq_ops const &m) {
      auto gr = fg.create_group(name);
      write_hdf5_format(gr, m);
      h5::write(gr, "lambda", m.lambda_);
      h5::write(gr, "statistic", m.st);
      nda::h5_write(gr, "rf", m.rf);
      nda::h5_write(gr, "if", m.nodes);
    }
    friend void h5_read(h5::group fg, std::string const &name, imfreq_ops &m) {
      auto gr = fg.open_group(name);
      assert_hdf5_format(gr, m);
      h5::read(gr, "lambda", m.lambda_);
      h5::read(gr, "statistic", m.st);
      nda::h5_read(gr, "rf", m.rf);
      nda::h5_read(gr, "if", m.nodes);
    }
    template <typename A> auto vals2coefs(double, A const &a) const { return nda::make_regular(a); }
    template <typename A> auto coefs2vals(double, A const &a) const { return nda::make_regular(a); }
  };
} // namespace cppdlr
