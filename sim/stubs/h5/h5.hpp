// Stand-in for the TRIQS/h5 library: an in-memory hierarchical store shared by the simulated processes.
// Every storage operation passes through sim::io_op, where the plan can fail it or crash the process.
#pragma once
#include "sim.hpp"
#include <algorithm>
#include <array>
#include <complex>
#include <cstring>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <utility>
#include <variant>
#include <vector>

using hid_t   = long;
using hsize_t = unsigned long long;

namespace h5 {
  using v_t = std::vector<long>;

  // ---------------------------------------------------------------- storage
  struct value {
    char kind = 0; // i f c s S
    std::vector<long> dims;
    std::vector<int64_t> i;
    std::vector<double> f;
    std::vector<std::complex<double>> c;
    std::vector<std::string> s;
    bool operator==(value const &) const = default;
  };
  struct node {
    bool group = true;
    std::map<std::string, std::shared_ptr<node>> kids;
    value data;
    std::map<std::string, value> attrs;
  };
  struct store_t {
    std::map<std::string, std::shared_ptr<node>> files;
  };
  inline store_t &store() {
    auto &p = sim::shared("h5store");
    if (!p) p = std::make_shared<store_t>();
    return *static_cast<store_t *>(p.get());
  }
  struct io_error : std::runtime_error {
    using std::runtime_error::runtime_error;
  };
  inline bool oracle_access = false; // the workload's own look at an object: no time, no faults
  inline void io(std::string const &what) {
    if (oracle_access) return;
    sim::point("h5");
    sim::step(500);
    switch (sim::io_op(what.c_str())) {
      case sim::Io::ok: return;
      case sim::Io::error: throw io_error("h5: I/O error in " + what);
      case sim::Io::crash: sim::crash_self();
    }
  }
  inline std::shared_ptr<node> clone(std::shared_ptr<node> const &n) {
    auto r = std::make_shared<node>(*n);
    for (auto &[k, v] : r->kids) v = clone(v);
    return r;
  }
  inline bool same(node const &a, node const &b, std::string *why = nullptr, std::string path = "") {
    if (a.group != b.group || !(a.data == b.data) || a.attrs != b.attrs) {
      if (why) *why = path;
      return false;
    }
    for (auto &[k, v] : a.kids)
      if (!b.kids.count(k)) {
        if (why) *why = path + "/" + k;
        return false;
      }
    for (auto &[k, v] : b.kids) {
      auto it = a.kids.find(k);
      if (it == a.kids.end()) {
        if (why) *why = path + "/" + k;
        return false;
      }
      if (!same(*it->second, *v, why, path + "/" + k)) return false;
    }
    return true;
  }

  namespace stub { // handles made by the C interface (hdf5.h), until an object takes them
    inline std::map<hid_t, std::shared_ptr<node>> handles;
    inline hid_t give(std::shared_ptr<node> n) {
      auto id     = (hid_t)(intptr_t)n.get();
      handles[id] = std::move(n);
      return id;
    }
    inline std::shared_ptr<node> take(hid_t id) {
      auto it = handles.find(id);
      if (it == handles.end()) return {};
      auto n = it->second;
      handles.erase(it);
      return n;
    }
  } // namespace stub
  class object {
    public:
    std::shared_ptr<node> n;
    std::string path;
    object() = default;
    object(std::shared_ptr<node> n, std::string path = "") : n(std::move(n)), path(std::move(path)) {}
    object(hid_t id) : n(stub::take(id)) {} // takes the reference
    [[nodiscard]] bool is_valid() const { return (bool)n; }
    operator hid_t() const { return (hid_t)(intptr_t)n.get(); }
    void close() { n.reset(); }
  };
  using attribute = object;
  using datatype  = object;
  using dataspace = object;
  class dataset : public object {
    public:
    using object::object;
  };

  class file : public object {
    public:
    file() : object(std::make_shared<node>(), "<memory>") {}
    file(std::string const &name, char mode) {
      path = name;
      io(std::string("open ") + mode);
      auto &fs = store().files;
      if (mode == 'w')
        fs[name] = std::make_shared<node>();
      else if (mode == 'e') {
        if (fs.count(name)) throw std::runtime_error("h5: file " + name + " exists");
        fs[name] = std::make_shared<node>();
      } else if (mode == 'a') {
        if (!fs.count(name)) fs[name] = std::make_shared<node>();
      } else if (!fs.count(name))
        throw std::runtime_error("h5: cannot open the file " + name);
      n = fs[name];
    }
    [[nodiscard]] std::string name() const { return path; }
    void flush() { io("flush"); }
  };

  class group : public object {
    public:
    group() = default;
    group(file f) : object(f.n, "/") {}
    group(object o) : object(o) {}
    group(std::shared_ptr<node> n, std::string p) : object(std::move(n), std::move(p)) {}
    [[nodiscard]] std::string name() const { return path; }
    [[nodiscard]] file get_file() const { return file{}; }
    [[nodiscard]] bool has_key(std::string const &k) const { return n->kids.count(k); }
    [[nodiscard]] bool has_subgroup(std::string const &k) const { return n->kids.count(k) && n->kids.at(k)->group; }
    [[nodiscard]] bool has_dataset(std::string const &k) const { return n->kids.count(k) && !n->kids.at(k)->group; }
    void unlink(std::string const &k, bool error_if_absent = false) const {
      if (!has_key(k)) {
        if (error_if_absent) throw std::runtime_error("h5: no key " + k);
        return;
      }
      io("unlink");
      n->kids.erase(k);
    }
    [[nodiscard]] group open_group(std::string const &k) const {
      if (k.empty()) return *this;
      auto p = k.find('/');
      if (p != std::string::npos) return open_group(k.substr(0, p)).open_group(k.substr(p + 1));
      if (!has_subgroup(k)) throw std::runtime_error("h5: no subgroup " + k + " in the group " + path);
      io("open group");
      return group{n->kids.at(k), path + "/" + k};
    }
    [[nodiscard]] group create_group(std::string const &k, bool delete_if_exists = true) const {
      if (k.empty()) return *this;
      if (delete_if_exists) unlink(k);
      io("create group");
      if (has_subgroup(k)) return group{n->kids.at(k), path + "/" + k};
      auto c     = std::make_shared<node>(); // may fail: nothing is changed then
      n->kids[k] = c;
      return group{c, path + "/" + k};
    }
    [[nodiscard]] dataset open_dataset(std::string const &k) const {
      if (!has_dataset(k)) throw std::runtime_error("h5: no dataset " + k + " in the group " + path);
      return dataset{n->kids.at(k), path + "/" + k};
    }
    // unlinks what has the name
    [[nodiscard]] dataset create_dataset(std::string const &k, datatype, dataspace sp) const {
      unlink(k);
      io("create dataset");
      auto d       = std::make_shared<node>();
      d->group     = false;
      d->data.dims = sp.n->data.dims;
      n->kids[k]   = d;
      return dataset{d, path + "/" + k};
    }
    [[nodiscard]] group open_group_or_dataset(std::string const &k) const { return group{n->kids.at(k), path + "/" + k}; }
    [[nodiscard]] std::vector<std::string> get_all_subgroup_names() const {
      std::vector<std::string> r;
      for (auto &[k, v] : n->kids)
        if (v->group) r.push_back(k);
      return r;
    }
    [[nodiscard]] std::vector<std::string> get_all_dataset_names() const {
      std::vector<std::string> r;
      for (auto &[k, v] : n->kids)
        if (!v->group) r.push_back(k);
      return r;
    }
    [[nodiscard]] std::vector<std::string> get_all_subgroup_dataset_names() const {
      std::vector<std::string> r;
      for (auto &[k, v] : n->kids) r.push_back(k);
      return r;
    }
  };

  // ---------------------------------------------------------------- raw values
  inline void put(group g, std::string const &name, value v) {
    if (g.has_key(name)) g.unlink(name);
    io("write " + name);
    auto d   = std::make_shared<node>();
    d->group = false;
    d->data  = std::move(v);
    g.n->kids[name] = d;
  }
  inline value const &get(group g, std::string const &name) {
    if (!g.has_dataset(name)) throw std::runtime_error("h5: no dataset " + name + " in the group " + g.path);
    io("read " + name);
    return g.n->kids.at(name)->data;
  }

  template <typename T> struct is_cplx : std::false_type {};
  template <typename T> struct is_cplx<std::complex<T>> : std::true_type {};
  template <typename T> concept scalar = std::is_arithmetic_v<T> or is_cplx<T>::value;

  template <scalar T> value pack(T const *p, std::vector<long> dims) {
    value v;
    long n = 1;
    for (auto d : dims) n *= d;
    v.dims = std::move(dims);
    if constexpr (is_cplx<T>::value) {
      v.kind = 'c';
      v.c.assign(p, p + n);
    } else if constexpr (std::is_floating_point_v<T>) {
      v.kind = 'f';
      v.f.assign(p, p + n);
    } else {
      v.kind = 'i';
      v.i.resize(n);
      for (long k = 0; k < n; ++k) v.i[k] = (int64_t)p[k];
    }
    return v;
  }
  template <scalar T> void unpack(value const &v, T *p) {
    if constexpr (is_cplx<T>::value) {
      if (v.kind == 'c')
        std::copy(v.c.begin(), v.c.end(), p);
      else if (v.kind == 'f')
        std::copy(v.f.begin(), v.f.end(), p);
      else
        throw std::runtime_error("h5: dataset is not complex");
    } else {
      if (v.kind == 'f')
        for (size_t k = 0; k < v.f.size(); ++k) p[k] = (T)v.f[k];
      else if (v.kind == 'i')
        for (size_t k = 0; k < v.i.size(); ++k) p[k] = (T)v.i[k];
      else
        throw std::runtime_error("h5: dataset has another type");
    }
  }
  inline long length(value const &v) {
    long n = 1;
    for (auto d : v.dims) n *= d;
    return n;
  }

  // ---------------------------------------------------------------- write / read overloads
  template <scalar T> void h5_write(group g, std::string const &name, T const &x) { put(g, name, pack(&x, {})); }
  template <scalar T> void h5_read(group g, std::string const &name, T &x) {
    auto const &v = get(g, name);
    if (!v.dims.empty()) throw std::runtime_error("h5: " + name + " is not a scalar");
    unpack(v, &x);
  }
  inline void h5_write(group g, std::string const &name, std::string const &s) {
    value v;
    v.kind = 's';
    v.s    = {s};
    put(g, name, v);
  }
  inline void h5_write(group g, std::string const &name, char const *s) { h5_write(g, name, std::string{s}); }
  inline void h5_read(group g, std::string const &name, std::string &s) {
    auto const &v = get(g, name);
    if (v.kind != 's') throw std::runtime_error("h5: " + name + " is not a string");
    s = v.s[0];
  }

  // forward declarations: nested containers find each other
  template <typename T> void h5_write(group g, std::string const &name, std::vector<T> const &v);
  template <typename T> void h5_read(group g, std::string const &name, std::vector<T> &v);
  template <typename T> void h5_write(group g, std::string const &name, std::map<std::string, T> const &m);
  template <typename T> void h5_read(group g, std::string const &name, std::map<std::string, T> &m);
  template <typename A, typename B> void h5_write(group g, std::string const &name, std::pair<A, B> const &p);
  template <typename A, typename B> void h5_read(group g, std::string const &name, std::pair<A, B> &p);
  template <typename... T> void h5_write(group g, std::string const &name, std::tuple<T...> const &p);
  template <typename... T> void h5_read(group g, std::string const &name, std::tuple<T...> &p);
  template <typename T, size_t N> void h5_write(group g, std::string const &name, std::array<T, N> const &a);
  template <typename T, size_t N> void h5_read(group g, std::string const &name, std::array<T, N> &a);
  template <typename T> void h5_write(group g, std::string const &name, std::optional<T> const &a);
  template <typename T> void h5_read(group g, std::string const &name, std::optional<T> &a);
  template <typename... T> void h5_write(group g, std::string const &name, std::variant<T...> const &v);
  template <typename... T> void h5_read(group g, std::string const &name, std::variant<T...> &v);

  // generic front ends
  template <typename T> void write(group g, std::string const &name, T const &x) { h5_write(g, name, x); }
  template <typename T> void read(group g, std::string const &name, T &x) { h5_read(g, name, x); }
  template <typename T> T read(group g, std::string const &name) {
    if constexpr (requires { T::h5_read_construct(g, name); }) {
      return T::h5_read_construct(g, name);
    } else {
      T x{};
      h5_read(g, name, x);
      return x;
    }
  }
  template <typename T> T h5_read(group g, std::string const &name) { return read<T>(g, name); }
  template <typename T> int try_read(group g, std::string const &name, T &x) {
    if (!g.has_key(name)) return false;
    h5_read(g, name, x);
    return true;
  }
  template <typename T>
  concept Storable = requires(T const &xc, T &x, h5::group g, std::string const &name) {
    { T::hdf5_format() } -> std::convertible_to<std::string>;
    { h5_write(g, name, xc) };
    { h5_read(g, name, x) };
  };

  // ---------------------------------------------------------------- attributes and formats
  template <scalar T> void h5_write_attribute(object o, std::string const &name, T const &x) {
    io("write attribute " + name);
    o.n->attrs[name] = pack(&x, {});
  }
  inline void h5_write_attribute(object o, std::string const &name, std::string const &s) {
    io("write attribute " + name);
    value v;
    v.kind           = 's';
    v.s              = {s};
    o.n->attrs[name] = v;
  }
  inline void h5_write_attribute(object o, std::string const &name, char const *s) { h5_write_attribute(o, name, std::string{s}); }
  inline void h5_write_attribute(object o, std::string const &name, std::vector<std::string> const &s) {
    io("write attribute " + name);
    value v;
    v.kind           = 'S';
    v.s              = s;
    o.n->attrs[name] = v;
  }
  inline void h5_write_attribute(object o, std::string const &name, std::vector<std::vector<std::string>> const &s) {
    io("write attribute " + name);
    value v;
    v.kind = 'T';
    for (auto const &x : s) {
      v.i.push_back((long)x.size());
      for (auto const &y : x) v.s.push_back(y);
    }
    o.n->attrs[name] = v;
  }
  inline value const *attr(object o, std::string const &name) {
    io("read attribute " + name);
    auto it = o.n->attrs.find(name);
    return it == o.n->attrs.end() ? nullptr : &it->second;
  }
  template <scalar T> void h5_read_attribute(object o, std::string const &name, T &x) {
    auto p = attr(o, name);
    if (!p) throw std::runtime_error("h5: no attribute " + name);
    unpack(*p, &x);
  }
  inline void h5_read_attribute(object o, std::string const &name, std::string &s) {
    auto p = attr(o, name);
    s      = p && !p->s.empty() ? p->s[0] : std::string{};
  }
  inline void h5_read_attribute(object o, std::string const &name, std::vector<std::string> &s) {
    auto p = attr(o, name);
    if (!p) throw std::runtime_error("h5: no attribute " + name);
    s = p->s;
  }
  inline void h5_read_attribute(object o, std::string const &name, std::vector<std::vector<std::string>> &s) {
    auto p = attr(o, name);
    if (!p) throw std::runtime_error("h5: no attribute " + name);
    s.clear();
    size_t k  = 0;
    long most = 0; // stored as a rectangle: shorter rows are filled with empty strings
    for (auto n : p->i) most = std::max(most, (long)n);
    for (auto n : p->i) {
      s.emplace_back();
      for (long j = 0; j < n; ++j) s.back().push_back(p->s[k++]);
      s.back().resize(most);
    }
  }
  template <typename T> void write_attribute(object o, std::string const &name, T const &x) { h5_write_attribute(o, name, x); }
  template <typename T> void read_attribute(object o, std::string const &name, T &x) { h5_read_attribute(o, name, x); }
  template <typename T> T read_attribute(object o, std::string const &name) {
    T x{};
    h5_read_attribute(o, name, x);
    return x;
  }
  template <typename T> std::string get_hdf5_format() {
    if constexpr (requires { T::hdf5_format(); })
      return T::hdf5_format();
    else
      return "";
  }
  template <typename T> std::string get_hdf5_format(T const &) { return get_hdf5_format<T>(); }
  inline void write_hdf5_format_as_string(object o, std::string const &s) { h5_write_attribute(o, "Format", s); }
  template <typename T> void write_hdf5_format(object o, T const &) { h5_write_attribute(o, "Format", get_hdf5_format<T>()); }
  inline std::string read_hdf5_format(object o) {
    std::string s;
    h5_read_attribute(o, "Format", s);
    return s;
  }
  inline void read_hdf5_format(object o, std::string &s) { s = read_hdf5_format(o); }
  inline std::string read_hdf5_format_from_key(group g, std::string const &k) { return read_hdf5_format(object{g.n->kids.at(k)}); }
  inline void assert_hdf5_format_as_string(object g, const char *tag, bool ignore_if_absent = false) {
    auto s = read_hdf5_format(g);
    if (ignore_if_absent && s.empty()) return;
    if (s != tag) throw std::runtime_error(std::string("h5: format mismatch: expected ") + tag + ", found " + s);
  }
  template <typename T> void assert_hdf5_format(object g, T const &, bool ignore_if_absent = false) {
    assert_hdf5_format_as_string(g, get_hdf5_format<T>().c_str(), ignore_if_absent);
  }

  // ---------------------------------------------------------------- containers
  template <typename T> void h5_write(group g, std::string const &name, std::vector<T> const &v) {
    if constexpr (std::is_same_v<T, std::string>) {
      value x;
      x.kind = 'S';
      x.dims = {(long)v.size()};
      x.s    = v;
      put(g, name, x);
    } else if constexpr (scalar<T> && !std::is_same_v<T, bool>)
      put(g, name, pack(v.data(), {(long)v.size()}));
    else {
      auto gr = g.create_group(name);
      for (size_t i = 0; i < v.size(); ++i) h5_write(gr, std::to_string(i), (T const &)v[i]);
    }
  }
  template <typename T> void h5_read(group g, std::string const &name, std::vector<T> &v) {
    if constexpr (std::is_same_v<T, std::string>) {
      auto const &x = get(g, name);
      if (x.kind != 'S') throw std::runtime_error("h5: " + name + " is not a list of strings");
      v = x.s;
    } else if constexpr (scalar<T> && !std::is_same_v<T, bool>) {
      auto const &x = get(g, name);
      if (x.dims.size() != 1) throw std::runtime_error("h5: " + name + " is not one dimensional");
      v.resize(x.dims[0]);
      unpack(x, v.data());
    } else {
      auto gr = g.open_group(name);
      v.resize(gr.get_all_dataset_names().size() + gr.get_all_subgroup_names().size());
      for (size_t i = 0; i < v.size(); ++i) h5_read(gr, std::to_string(i), v[i]);
    }
  }
  template <typename T> void h5_write(group g, std::string const &name, std::map<std::string, T> const &m) {
    auto gr = g.create_group(name);
    for (auto const &[k, x] : m) h5_write(gr, k, x);
  }
  template <typename T> void h5_read(group g, std::string const &name, std::map<std::string, T> &m) {
    m.clear();
    auto gr = g.open_group(name);
    for (auto const &k : gr.get_all_subgroup_dataset_names()) {
      T x{};
      h5_read(gr, k, x);
      m.emplace(k, std::move(x));
    }
  }
  template <typename A, typename B> void h5_write(group g, std::string const &name, std::pair<A, B> const &p) {
    auto gr = g.create_group(name);
    h5_write(gr, "0", p.first);
    h5_write(gr, "1", p.second);
  }
  template <typename A, typename B> void h5_read(group g, std::string const &name, std::pair<A, B> &p) {
    auto gr = g.open_group(name);
    h5_read(gr, "0", p.first);
    h5_read(gr, "1", p.second);
  }
  template <typename... T> void h5_write(group g, std::string const &name, std::tuple<T...> const &p) {
    auto gr = g.create_group(name);
    int i   = 0;
    std::apply([&](auto const &...x) { (h5_write(gr, std::to_string(i++), x), ...); }, p);
  }
  template <typename... T> void h5_read(group g, std::string const &name, std::tuple<T...> &p) {
    auto gr = g.open_group(name);
    int i   = 0;
    std::apply([&](auto &...x) { (h5_read(gr, std::to_string(i++), x), ...); }, p);
  }
  template <typename T, size_t N> void h5_write(group g, std::string const &name, std::array<T, N> const &a) {
    if constexpr (scalar<T>)
      put(g, name, pack(a.data(), {(long)N}));
    else {
      auto gr = g.create_group(name);
      for (size_t i = 0; i < N; ++i) h5_write(gr, std::to_string(i), a[i]);
    }
  }
  template <typename T, size_t N> void h5_read(group g, std::string const &name, std::array<T, N> &a) {
    if constexpr (scalar<T>) {
      auto const &x = get(g, name);
      if (length(x) != (long)N) throw std::runtime_error("h5: wrong array length");
      unpack(x, a.data());
    } else {
      auto gr = g.open_group(name);
      for (size_t i = 0; i < N; ++i) h5_read(gr, std::to_string(i), a[i]);
    }
  }
  template <typename T> void h5_write(group g, std::string const &name, std::optional<T> const &a) {
    if (a) h5_write(g, name, *a);
  }
  template <typename T> void h5_read(group g, std::string const &name, std::optional<T> &a) {
    a.reset();
    if (!g.has_key(name)) return;
    T x{};
    h5_read(g, name, x);
    a.emplace(std::move(x));
  }
  template <typename... T> void h5_write(group g, std::string const &name, std::variant<T...> const &v) {
    std::visit([&](auto const &x) { h5_write(g, name, x); }, v);
  }
  template <typename... T> void h5_read(group g, std::string const &name, std::variant<T...> &v) {
    std::string f = read_hdf5_format_from_key(g, name);
    bool done     = false;
    (
       [&] {
         if (!done && get_hdf5_format<T>() == f) {
           v    = h5::read<T>(g, name);
           done = true;
         }
       }(),
       ...);
    if (!done) throw std::runtime_error("h5: no variant alternative for format " + f);
  }

  // a complete copy of an object's stored form: used by the oracles
  template <typename T> std::shared_ptr<node> snapshot(T const &x) {
    auto f        = std::make_shared<node>();
    oracle_access = true;
    h5_write(group{f, ""}, "x", x);
    oracle_access = false;
    return f->kids["x"];
  }
  using serialized = std::shared_ptr<node>;
  template <typename T> serialized serialize(T const &x) {
    auto f = std::make_shared<node>();
    h5_write(group{f, ""}, "x", x);
    return f;
  }
  template <typename T> T deserialize(serialized const &f) { return read<T>(group{f, ""}, "x"); }
  inline bool rename(std::string const &a, std::string const &b) {
    io("rename");
    auto &fs = store().files;
    if (!fs.count(a)) return false;
    fs[b] = fs[a];
    fs.erase(a);
    return true;
  }
} // namespace h5
