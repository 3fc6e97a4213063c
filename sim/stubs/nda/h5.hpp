#pragma once
#include <h5/h5.hpp>
#include <nda/nda.hpp>
namespace nda {
  template <typename A>
    requires(get_rank<A> > 0)
  void h5_write(h5::group g, std::string const &name, A const &a, bool = true) {
    using T = get_value_t<A>;
    auto r  = make_regular(a);
    std::vector<long> dims(r.shape().begin(), r.shape().end());
    if constexpr (is_scalar_v<T>) {
      h5::put(g, name, h5::pack(r.data(), dims));
    } else {
      auto gr = g.create_group(name);
      h5_write(gr, "shape", dims);
      long k = 0;
      for (auto const &x : r) h5_write(gr, std::to_string(k++), x);
    }
  }
  template <typename A>
    requires(get_rank<A> > 0)
  void h5_read(h5::group g, std::string const &name, A &a) {
    using T             = get_value_t<A>;
    constexpr int R     = get_rank<A>;
    std::array<long, R> sh{};
    if constexpr (is_scalar_v<T>) {
      auto const &v = h5::get(g, name);
      if (v.dims.size() != R) throw std::runtime_error("h5: " + name + " has another rank");
      for (int i = 0; i < R; ++i) sh[i] = v.dims[i];
      basic_array_<T, R, 'A'> r(sh);
      h5::unpack(v, r.data());
      if constexpr (A::is_view) {
        if (a.shape() != sh) throw std::runtime_error("h5: " + name + " has another shape");
      } else
        a.resize(sh);
      a.assign_array(r);
    } else {
      auto gr = g.open_group(name);
      std::vector<long> dims;
      h5::h5_read(gr, "shape", dims);
      for (int i = 0; i < R; ++i) sh[i] = dims.at(i);
      a.resize(sh);
      long k = 0;
      for (auto &x : a) h5_read(gr, std::to_string(k++), x);
    }
  }
} // namespace nda
