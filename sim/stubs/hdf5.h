// Stand-in for the C interface of HDF5: compound types written to and read from the in-memory store of h5/h5.hpp.
// Like the library it reports failures by a negative status.
#pragma once
#include <h5/h5.hpp>
#include <cstddef>

using herr_t = int;
inline constexpr hid_t H5T_NATIVE_INT = -11, H5T_NATIVE_DOUBLE = -12, H5T_NATIVE_LONG = -13, H5T_NATIVE_UCHAR = -14, H5T_NATIVE_HBOOL = -15, H5T_NATIVE_LLONG = -16, H5T_NATIVE_SCHAR = -17;
inline constexpr hid_t H5S_ALL = 0, H5P_DEFAULT = 0;
enum H5T_class_stub { H5T_COMPOUND = 6 };
#define HOFFSET(S, M) (offsetof(S, M))

namespace h5::stub {
  // the node of a type: data.kind 'D', dims = {size}, or {size, offset.., } members in kids by order in s
  inline std::pair<hid_t, long> basic(hid_t t) { // base type, count
    if (t < 0) return {t, 1};
    auto *n = (node *)(intptr_t)t;
    return {(hid_t)n->data.i.at(0), (long)n->data.i.at(1)};
  }
  inline long width(hid_t t) {
    switch (t) {
      case H5T_NATIVE_INT: return 4;
      case H5T_NATIVE_DOUBLE:
      case H5T_NATIVE_LONG:
      case H5T_NATIVE_LLONG: return 8;
      case H5T_NATIVE_UCHAR:
      case H5T_NATIVE_SCHAR:
      case H5T_NATIVE_HBOOL: return 1;
    }
    sim::harness_error("hdf5: type %ld not known to the stand-in", (long)t);
  }
  inline herr_t fail_or_crash(char const *what) {
    if (oracle_access) return 0;
    sim::point("h5");
    sim::step(500);
    switch (sim::io_op(what)) {
      case sim::Io::ok: return 0;
      case sim::Io::error: return -1;
      case sim::Io::crash: sim::crash_self();
    }
    return 0;
  }
} // namespace h5::stub

inline hid_t H5Tcreate(H5T_class_stub, size_t size) {
  auto n       = std::make_shared<h5::node>();
  n->group     = false;
  n->data.kind = 'D';
  n->data.dims = {(long)size};
  return h5::stub::give(n);
}
inline hid_t H5Tarray_create(hid_t base, int rank, hsize_t const *dims) {
  auto n       = std::make_shared<h5::node>();
  n->data.kind = 'A';
  long k       = 1;
  for (int i = 0; i < rank; ++i) k *= (long)dims[i];
  n->data.i = {base, k};
  return h5::stub::give(n);
}
inline herr_t H5Tinsert(hid_t t, char const *name, size_t offset, hid_t member) {
  auto *n      = (h5::node *)(intptr_t)t;
  auto [b, k]  = h5::stub::basic(member);
  if ((long)offset + k * h5::stub::width(b) > n->data.dims[0]) sim::violation("h5-type", "the member %s of a compound type ends beyond the type", name);
  n->data.s.push_back(name);
  for (auto x : {(long)offset, (long)b, k}) n->data.i.push_back(x);
  return 0;
}
inline hid_t H5Screate_simple(int rank, hsize_t const *dims, hsize_t const *) {
  auto n       = std::make_shared<h5::node>();
  n->data.kind = 'P';
  for (int i = 0; i < rank; ++i) n->data.dims.push_back((long)dims[i]);
  return h5::stub::give(n);
}
inline hid_t H5Dget_space(hid_t ds) {
  auto n       = std::make_shared<h5::node>();
  n->data.kind = 'P';
  n->data.dims = ((h5::node *)(intptr_t)ds)->data.dims;
  return h5::stub::give(n);
}
inline int H5Sget_simple_extent_ndims(hid_t sp) { return (int)((h5::node *)(intptr_t)sp)->data.dims.size(); }
inline int H5Sget_simple_extent_dims(hid_t sp, hsize_t *dims, hsize_t *) {
  auto &d = ((h5::node *)(intptr_t)sp)->data.dims;
  for (size_t i = 0; i < d.size(); ++i) dims[i] = (hsize_t)d[i];
  return (int)d.size();
}
// a dataset of compound type: kind 'X', names of the members in s (and the type of the file in attrs), numbers in f or i by row
inline herr_t H5Dwrite(hid_t ds, hid_t mem, hid_t, hid_t, hid_t, void const *buf) {
  auto *d = (h5::node *)(intptr_t)ds;
  auto &t = ((h5::node *)(intptr_t)mem)->data;
  if (h5::stub::fail_or_crash("H5Dwrite")) return -1;
  d->data.kind = 'X';
  d->data.s.clear();
  d->data.i.clear();
  d->data.f.clear();
  long n = d->data.dims.empty() ? 1 : d->data.dims[0];
  for (size_t m = 0; m < t.s.size(); ++m) d->data.s.push_back(t.s[m] + (t.i[3 * m + 1] == H5T_NATIVE_DOUBLE ? ":f:" : ":i:") + std::to_string(t.i[3 * m + 2]));
  for (long r = 0; r < n; ++r)
    for (size_t m = 0; m < t.s.size(); ++m)
      for (long k = 0; k < t.i[3 * m + 2]; ++k) {
        hid_t b       = (hid_t)t.i[3 * m + 1];
        char const *p = (char const *)buf + r * t.dims[0] + t.i[3 * m] + k * h5::stub::width(b);
        if (b == H5T_NATIVE_DOUBLE) {
          double x;
          memcpy(&x, p, 8);
          d->data.f.push_back(x);
        } else {
          int64_t x = 0;
          if (h5::stub::width(b) == 4) {
            int32_t y;
            memcpy(&y, p, 4);
            x = y;
          } else if (h5::stub::width(b) == 8)
            memcpy(&x, p, 8);
          else
            x = *(unsigned char const *)p;
          d->data.i.push_back(x);
        }
      }
  return 0;
}
inline herr_t H5Dread(hid_t ds, hid_t mem, hid_t, hid_t, hid_t, void *buf) {
  auto *d = (h5::node *)(intptr_t)ds;
  auto &t = ((h5::node *)(intptr_t)mem)->data;
  if (h5::stub::fail_or_crash("H5Dread")) return -1;
  if (d->data.kind != 'X') return -1;
  long n   = d->data.dims.empty() ? 1 : d->data.dims[0];
  size_t a = 0, b = 0;
  for (long r = 0; r < n; ++r)
    for (auto const &name : d->data.s) {
      auto c  = name.find(':');
      bool f  = name[c + 1] == 'f';
      long nk = std::stol(name.substr(c + 3));
      for (long k = 0; k < nk; ++k) {
        double x  = f ? d->data.f.at(a++) : 0;
        int64_t y = f ? (int64_t)x : d->data.i.at(b++);
        if (!f) x = (double)y;
        for (size_t m = 0; m < t.s.size(); ++m)
          if (t.s[m] == name.substr(0, c) && k < t.i[3 * m + 2]) {
            hid_t bt = (hid_t)t.i[3 * m + 1];
            char *p  = (char *)buf + r * t.dims[0] + t.i[3 * m] + k * h5::stub::width(bt);
            if (bt == H5T_NATIVE_DOUBLE)
              memcpy(p, &x, 8);
            else if (h5::stub::width(bt) == 4) {
              int32_t z = (int32_t)y;
              memcpy(p, &z, 4);
            } else if (h5::stub::width(bt) == 8)
              memcpy(p, &y, 8);
            else
              *(unsigned char *)p = (unsigned char)y;
          }
      }
    }
  return 0;
}
