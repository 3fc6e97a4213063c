// Stand-in for the TRIQS/nda library: strided arrays of compile time rank, matrices, vectors and their views, evaluated eagerly.
// Every access is bounds checked, memory nobody wrote is filled with seeded garbage (as the real arrays are not initialised).
#pragma once
#include "./macros.hpp"
#include <algorithm>
#include <array>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <limits>
#include <memory>
#include <numeric>
#include <ostream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#if __has_include("sim.hpp")
#include "sim.hpp"
#define NDA_STUB_BAD(...) sim::violation("out-of-bounds", __VA_ARGS__)
#define NDA_STUB_SEED (sim::plan().seed)
#else
#define NDA_STUB_BAD(...) (std::printf(__VA_ARGS__), std::printf("\n"), std::fflush(stdout), std::abort())
#define NDA_STUB_SEED 1
#endif

namespace std { // mixed complex operations of nda/stdutil/complex.hpp
#define NDA_STUB_OP(OP)                                                                                                                                                                                             \
  template <typename T, typename U>                                                                                                                                                                                 \
    requires(is_arithmetic_v<U> and !is_same_v<T, U>)                                                                                                                                                               \
  complex<common_type_t<T, U>> operator OP(complex<T> const &x, U y) {                                                                                                                                              \
    return complex<common_type_t<T, U>>(x) OP common_type_t<T, U>(y);                                                                                                                                               \
  }                                                                                                                                                                                                                 \
  template <typename T, typename U>                                                                                                                                                                                 \
    requires(is_arithmetic_v<U> and !is_same_v<T, U>)                                                                                                                                                               \
  complex<common_type_t<T, U>> operator OP(U y, complex<T> const &x) {                                                                                                                                              \
    return common_type_t<T, U>(y) OP complex<common_type_t<T, U>>(x);                                                                                                                                               \
  }
  NDA_STUB_OP(+)
  NDA_STUB_OP(-)
  NDA_STUB_OP(*)
  NDA_STUB_OP(/)
#undef NDA_STUB_OP
} // namespace std

namespace nda {
  using dcomplex = std::complex<double>;

  template <typename T> struct is_complex : std::false_type {};
  template <typename T> struct is_complex<std::complex<T>> : std::true_type {};
  template <typename T> struct is_complex<T const> : is_complex<T> {};
  template <typename T> inline constexpr bool is_complex_v        = is_complex<std::remove_cvref_t<T>>::value;
  template <typename T> inline constexpr bool is_scalar_v         = std::is_arithmetic_v<std::remove_cvref_t<T>> or is_complex_v<T>;
  template <typename T> inline constexpr bool is_double_or_complex_v = is_complex_v<T> or std::is_same_v<double, std::remove_cvref_t<T>>;
  template <typename T> concept Scalar                            = is_scalar_v<T>;

  // ---------------------------------------------------------------- range
  struct range {
    long b = 0, e = 0, s = 1;
    struct all_t {};
    static inline constexpr all_t all{};
    constexpr range() = default;
    constexpr range(long n) : e(n) {}
    constexpr range(long b, long e, long s = 1) : b(b), e(e), s(s) {}
    [[nodiscard]] constexpr long first() const { return b; }
    [[nodiscard]] constexpr long last() const { return e; }
    [[nodiscard]] constexpr long step() const { return s; }
    [[nodiscard]] constexpr long size() const { return s > 0 ? std::max<long>(0, (e - b + s - 1) / s) : std::max<long>(0, (b - e - s - 1) / (-s)); }
    struct iterator {
      using iterator_category = std::forward_iterator_tag;
      using value_type        = long;
      using difference_type   = std::ptrdiff_t;
      using pointer           = long *;
      using reference         = long;
      long i = 0, s = 1;
      long operator*() const { return i; }
      iterator &operator++() {
        i += s;
        return *this;
      }
      iterator operator++(int) {
        auto c = *this;
        i += s;
        return c;
      }
      bool operator==(iterator const &o) const { return i == o.i; }
    };
    [[nodiscard]] iterator begin() const { return {b, s}; }
    [[nodiscard]] iterator end() const { return {b + size() * s, s}; }
  };
  struct ellipsis {};

  struct C_stride_layout {
    using with_lowest_guarantee_t = C_stride_layout;
    using contiguous_t            = struct C_layout;
  };
  struct C_layout {
    using with_lowest_guarantee_t = C_stride_layout;
    using contiguous_t            = C_layout;
  };
  struct F_layout {};
  struct heap_policy {};
  template <typename...> struct heap {};

  template <typename T, int R, char A> class basic_array_;
  template <typename T, int R, char A> class basic_array_view_;
  template <typename T, int R, typename L = C_layout> using array                 = basic_array_<T, R, 'A'>;
  template <typename T, int R, typename L = C_layout> using array_view            = basic_array_view_<T, R, 'A'>;
  template <typename T, int R, typename L = C_layout> using array_const_view      = basic_array_view_<T const, R, 'A'>;
  template <typename T, typename L = C_layout> using matrix                       = basic_array_<T, 2, 'M'>;
  template <typename T, typename L = C_layout> using matrix_view                  = basic_array_view_<T, 2, 'M'>;
  template <typename T, typename L = C_layout> using matrix_const_view            = basic_array_view_<T const, 2, 'M'>;
  template <typename T> using vector                                              = basic_array_<T, 1, 'V'>;
  template <typename T> using vector_view                                         = basic_array_view_<T, 1, 'V'>;
  template <typename T> using vector_const_view                                   = basic_array_view_<T const, 1, 'V'>;

  template <typename T, int R, typename L, char A = 'A', typename C = heap<>> using basic_array = basic_array_<T, R, A>; // layouts and memory policies do not matter here
  template <typename T, int R, typename L = C_stride_layout, char A = 'A', typename O = void, typename P = void> using basic_array_view = basic_array_view_<T, R, A>;

  template <typename A> struct arr_traits {
    static constexpr int rank = 0;
  };
  template <typename T, int R, char A> struct arr_traits<basic_array_<T, R, A>> {
    static constexpr int rank       = R;
    static constexpr char algebra   = A;
    static constexpr bool is_view   = false;
    using value_type                = T;
  };
  template <typename T, int R, char A> struct arr_traits<basic_array_view_<T, R, A>> {
    static constexpr int rank       = R;
    static constexpr char algebra   = A;
    static constexpr bool is_view   = true;
    using value_type                = std::remove_const_t<T>;
  };
  template <typename A> inline constexpr int get_rank = arr_traits<std::remove_cvref_t<A>>::rank;
  template <typename A> using get_value_t             = typename arr_traits<std::remove_cvref_t<A>>::value_type;
  template <typename A> concept Array                 = (get_rank<A> > 0);
  template <typename A, int R> concept ArrayOfRank    = (get_rank<A> == R);
  template <typename A, int R = -1> concept MemoryArray = Array<A> and (R == -1 or get_rank<A> == R);
  template <typename A> concept Vector                = ArrayOfRank<A, 1>;
  template <typename A> concept Matrix                = ArrayOfRank<A, 2>;

  namespace stub {
    template <int R> struct index_map { // lengths and strides
      std::array<long, R> l{}, s{};
      index_map() = default;
      index_map(std::array<long, R> const &l_, std::array<long, R> const &s_) : l(l_), s(s_) {}
      explicit index_map(std::array<long, R> const &l_) : l(l_) {
        long n = 1;
        for (int i = R - 1; i >= 0; --i) {
          s[i] = n;
          n *= l[i];
        }
      }
      auto const &lengths() const { return l; }
      auto const &strides() const { return s; }
      long size() const {
        long n = 1;
        for (long x : l) n *= x;
        return n;
      }
    };
    template <typename T> struct handle { // a handle on memory owned by somebody else
      T *p;
    };
  } // namespace stub
  namespace stub {
    inline void poison(void *p, size_t n) {
      static thread_local uint64_t salt = 0;
      uint64_t z                        = NDA_STUB_SEED * 0x9e3779b97f4a7c15ULL + (++salt) * 0xbf58476d1ce4e5b9ULL;
      auto b                            = (unsigned char *)p;
      switch ((z >> 40) % 3) {
        case 0: memset(b, 0, n); break;
        case 1: memset(b, 0xff, n); break; // NaN
        default:
          for (size_t i = 0; i + 8 <= n; i += 8) {
            double x = (double)((z = z * 6364136223846793005ULL + 1442695040888963407ULL) >> 40) * 1e-3 - 4000;
            memcpy(b + i, &x, 8);
          }
      }
    }
    inline long alloc_countdown = 0; // > 0: that many allocations from now, one fails
    template <typename T> struct buffer { // owning memory; not initialised, but for complex numbers
      T *p   = nullptr;
      long n = 0;
      buffer() = default;
      explicit buffer(long n_) : n(n_) {
        if (n < 0) NDA_STUB_BAD("array of negative size %ld", n);
        if (n == 0) return;
        if (alloc_countdown > 0 && --alloc_countdown == 0) {
          n = 0;
          throw std::bad_alloc{};
        }
        p = static_cast<T *>(std::malloc(n * sizeof(T)));
        if (!p) throw std::bad_alloc{};
        if constexpr (is_complex_v<T>)
          memset((void *)p, 0, n * sizeof(T)); // as nda does, unlike for other scalars
        else if constexpr (is_scalar_v<T>)
          poison((void *)p, n * sizeof(T));
        else
          for (long i = 0; i < n; ++i) new (p + i) T();
      }
      buffer(buffer const &o) : buffer(o.n) { std::copy(o.p, o.p + n, p); }
      buffer(buffer &&o) noexcept : p(o.p), n(o.n) {
        o.p = nullptr;
        o.n = 0;
      }
      buffer &operator=(buffer o) noexcept {
        std::swap(p, o.p);
        std::swap(n, o.n);
        return *this;
      }
      ~buffer() {
        if constexpr (!is_scalar_v<T>)
          for (long i = 0; i < n; ++i) p[i].~T();
        if constexpr (is_scalar_v<T>)
          if (p) memset((void *)p, 0xff, n * sizeof(T)); // freed memory is not what it was
        std::free(p);
      }
    };
    template <size_t R> long prod(std::array<long, R> const &s) {
      long n = 1;
      for (auto x : s) n *= x;
      return n;
    }
    template <size_t R> std::array<long, R> c_strides(std::array<long, R> const &s) {
      std::array<long, R> r{};
      long n = 1;
      for (int i = (int)R - 1; i >= 0; --i) {
        r[i] = n;
        n *= s[i];
      }
      return r;
    }
    template <size_t R, typename F> void for_each_index(std::array<long, R> const &sh, F &&f) {
      if constexpr (R == 0) return;
      if (prod(sh) == 0) return;
      std::array<long, R> ix{};
      while (true) {
        f(ix);
        int d = (int)R - 1;
        while (d >= 0 && ++ix[d] == sh[d]) ix[d--] = 0;
        if (d < 0) break;
      }
    }
    template <typename X> inline constexpr bool is_slicer = std::is_same_v<std::decay_t<X>, range> or std::is_same_v<std::decay_t<X>, range::all_t> or std::is_same_v<std::decay_t<X>, ellipsis>;
    template <typename X> inline constexpr bool is_rng    = std::is_same_v<std::decay_t<X>, range> or std::is_same_v<std::decay_t<X>, range::all_t>;
  } // namespace stub

  // ---------------------------------------------------------------- common part of owning arrays and views
  template <typename D, typename T, int R, char A> struct arr_ops {
    using value_type                = std::remove_const_t<T>;
    static constexpr int rank       = R;
    static constexpr char algebra   = A;
    using regular_type              = basic_array_<value_type, R, A>;
    using view_type                 = basic_array_view_<T, R, A>;
    using const_view_type           = basic_array_view_<value_type const, R, A>;
    using shape_t                   = std::array<long, R>;

    [[nodiscard]] D const &self() const { return static_cast<D const &>(*this); }
    [[nodiscard]] D &self() { return static_cast<D &>(*this); }
    [[nodiscard]] long size() const { return stub::prod(self().shape()); }
    [[nodiscard]] bool empty() const { return size() == 0; }
    [[nodiscard]] bool is_empty() const { return size() == 0; }
    [[nodiscard]] long extent(int i) const { return self().shape()[i]; }
    [[nodiscard]] bool is_contiguous() const { return self().strides() == stub::c_strides(self().shape()); }
    [[nodiscard]] stub::index_map<R> indexmap() const { return {self().shape(), self().strides()}; }

    long offset(std::array<long, R> const &ix) const {
      long o         = 0;
      auto const &sh = self().shape();
      auto const &st = self().strides();
      for (int i = 0; i < R; ++i) {
        if (ix[i] < 0 || ix[i] >= sh[i]) NDA_STUB_BAD("index %ld in dimension %d of extent %ld", ix[i], i, sh[i]);
        o += ix[i] * st[i];
      }
      return o;
    }
    // B: algebra of a resulting view ('?' : the one of a slice of this array)
    template <char RA = '?', typename U, typename... X> static decltype(auto) get(D const &d, U *p, X const &...x) {
      if constexpr (sizeof...(X) == 0) {
        return basic_array_view_<U, R, A>(p, d.shape(), d.strides());
      } else if constexpr ((std::is_same_v<std::decay_t<X>, ellipsis> or ...)) {
        return expand<RA>(d, p, std::make_index_sequence<R - (sizeof...(X) - 1)>{}, x...);
      } else if constexpr ((stub::is_slicer<X> or ...)) {
        static_assert(sizeof...(X) == R);
        constexpr int nr = ((stub::is_rng<X> ? 1 : 0) + ...);
        std::array<long, nr> sh{}, st{};
        long off = 0;
        int dim = 0, k = 0;
        auto one = [&](auto const &y) {
          long n = d.shape()[dim], s = d.strides()[dim];
          using Y = std::decay_t<decltype(y)>;
          if constexpr (std::is_same_v<Y, range>) {
            if (y.size() > 0 && (y.b < 0 || y.b + (y.size() - 1) * y.s >= n || y.b + (y.size() - 1) * y.s < 0)) NDA_STUB_BAD("range [%ld,%ld) in dimension %d of extent %ld", y.b, y.e, dim, n);
            off += y.size() ? y.b * s : 0;
            sh[k] = y.size();
            st[k] = s * y.s;
            ++k;
          } else if constexpr (std::is_same_v<Y, range::all_t>) {
            sh[k] = n;
            st[k] = s;
            ++k;
          } else {
            if ((long)y < 0 || (long)y >= n) NDA_STUB_BAD("index %ld in dimension %d of extent %ld", (long)y, dim, n);
            off += (long)y * s;
          }
          ++dim;
        };
        (one(x), ...);
        constexpr char B = RA != '?' ? (RA == 'M' and nr != 2 ? (nr == 1 ? 'V' : 'A') : RA) : A == 'A' ? 'A' : nr == 2 ? 'M' : nr == 1 ? 'V' : 'A';
        return basic_array_view_<U, nr, B>(p + off, sh, st);
      } else {
        static_assert(sizeof...(X) == R);
        return (U &)p[d.offset({(long)x...})];
      }
    }
    template <char RA, typename U, size_t... I, typename... X> static decltype(auto) expand(D const &d, U *p, std::index_sequence<I...>, X const &...x) {
      auto conv = [](auto const &y) {
        if constexpr (std::is_same_v<std::decay_t<decltype(y)>, ellipsis>)
          return std::make_tuple(((void)I, range::all)...);
        else
          return std::make_tuple(y);
      };
      return std::apply([&](auto const &...y) -> decltype(auto) { return get<RA>(d, p, y...); }, std::tuple_cat(conv(x)...));
    }
    // the static form used by the Green's functions: algebra of the result, no bound check there
    template <char RA, bool Safe, typename Self, typename... X> static decltype(auto) call(Self &&s, X const &...x) { return get<RA>(s, s.data(), x...); }
    template <typename... X> decltype(auto) operator()(X const &...x) const { return get(self(), self().data(), x...); }
    template <typename... X> decltype(auto) operator()(X const &...x) { return get(self(), self().data(), x...); }
    template <typename X> decltype(auto) operator[](X const &x) const
      requires(R == 1)
    {
      return get(self(), self().data(), x);
    }
    template <typename X> decltype(auto) operator[](X const &x)
      requires(R == 1)
    {
      return get(self(), self().data(), x);
    }

    auto &at(std::array<long, R> const &ix) const { return self().data()[offset(ix)]; }

    template <typename S> void fill(S const &x) {
      auto *p = self().data();
      stub::for_each_index(self().shape(), [&](auto const &ix) { p[offset(ix)] = x; });
    }
    template <typename S> void assign_scalar(S const &x) {
      if constexpr (A == 'M') {
        fill(value_type{});
        auto *p = self().data();
        for (long i = 0; i < std::min(extent(0), extent(1)); ++i) p[offset({i, i})] = x;
      } else
        fill(x);
    }
    template <typename B> void assign_array(B const &b) {
      static_assert(get_rank<B> == R);
      if (b.shape() != self().shape()) NDA_STUB_BAD("assignment between arrays of different shapes (%ld.. = %ld..)", self().shape()[0], b.shape()[0]);
      auto *p = self().data();
      auto *q = b.data();
      // the right hand side may overlap
      std::vector<value_type> tmp;
      tmp.reserve(size());
      stub::for_each_index(self().shape(), [&](auto const &ix) { tmp.push_back((value_type)q[b.offset(ix)]); });
      size_t k = 0;
      stub::for_each_index(self().shape(), [&](auto const &ix) { p[offset(ix)] = tmp[k++]; });
    }
    // compound assignment
    template <typename F, typename B> D &compound(F f, B const &b) {
      auto *p = self().data();
      if constexpr (Array<B>) {
        if (b.shape() != self().shape()) NDA_STUB_BAD("compound assignment between arrays of different shapes (%ld.. and %ld..)", self().shape()[0], b.shape()[0]);
        auto *q = b.data();
        stub::for_each_index(self().shape(), [&](auto const &ix) { f(p[offset(ix)], q[b.offset(ix)]); });
      } else
        stub::for_each_index(self().shape(), [&](auto const &ix) { f(p[offset(ix)], b); });
      return self();
    }
    template <typename B> D &operator+=(B const &b) {
      if constexpr (A == 'M' and !Array<B>) {
        for (long i = 0; i < std::min(extent(0), extent(1)); ++i) self().data()[offset({i, i})] += b;
        return self();
      } else
        return compound([](auto &x, auto const &y) { x += (value_type)y; }, b);
    }
    template <typename B> D &operator-=(B const &b) {
      if constexpr (A == 'M' and !Array<B>) {
        for (long i = 0; i < std::min(extent(0), extent(1)); ++i) self().data()[offset({i, i})] -= b;
        return self();
      } else
        return compound([](auto &x, auto const &y) { x -= (value_type)y; }, b);
    }
    template <typename B> D &operator*=(B const &b) {
      if constexpr (A == 'M' and Array<B>) {
        self() = self() * b;
        return self();
      } else
        return compound([](auto &x, auto const &y) { x *= (value_type)y; }, b);
    }
    template <typename B> D &operator/=(B const &b) { return compound([](auto &x, auto const &y) { x /= (value_type)y; }, b); }

    // iteration in C order
    template <typename U> struct iter {
      using iterator_category = std::forward_iterator_tag;
      using value_type        = std::remove_const_t<U>;
      using difference_type   = std::ptrdiff_t;
      using pointer           = U *;
      using reference         = U &;
      U *p                    = nullptr;
      std::array<long, R> sh{}, st{};
      long i = 0;
      [[nodiscard]] U &operator*() const {
        long k = i, o = 0;
        for (int d = R - 1; d >= 0; --d) {
          o += (k % sh[d]) * st[d];
          k /= sh[d];
        }
        return p[o];
      }
      iter &operator++() {
        ++i;
        return *this;
      }
      iter operator++(int) {
        auto c = *this;
        ++i;
        return c;
      }
      bool operator==(iter const &o) const { return i == o.i; }
    };
    [[nodiscard]] auto begin() const { return iter<std::remove_pointer_t<decltype(self().data())>>{self().data(), self().shape(), self().strides(), 0}; }
    [[nodiscard]] auto end() const { return iter<std::remove_pointer_t<decltype(self().data())>>{self().data(), self().shape(), self().strides(), size()}; }
    [[nodiscard]] auto begin() { return iter<std::remove_pointer_t<decltype(self().data())>>{self().data(), self().shape(), self().strides(), 0}; }
    [[nodiscard]] auto end() { return iter<std::remove_pointer_t<decltype(self().data())>>{self().data(), self().shape(), self().strides(), size()}; }
    [[nodiscard]] auto cbegin() const { return begin(); }
    [[nodiscard]] auto cend() const { return end(); }
  };

  // ---------------------------------------------------------------- owning
  template <typename T, int R, char A> class basic_array_ : public arr_ops<basic_array_<T, R, A>, T, R, A> {
    std::array<long, R> sh_{}, st_{};
    stub::buffer<T> mem_;

    public:
    using base = arr_ops<basic_array_<T, R, A>, T, R, A>;
    static constexpr bool is_view = false;
    basic_array_() = default;
    basic_array_(basic_array_ const &) = default;
    basic_array_(basic_array_ &&o) noexcept : sh_(o.sh_), st_(o.st_), mem_(std::move(o.mem_)) { o.sh_ = {}; }
    explicit basic_array_(std::array<long, R> const &sh) : sh_(sh), st_(stub::c_strides(sh)), mem_(stub::prod(sh)) {}
    template <std::integral... I>
      requires(sizeof...(I) == R)
    explicit basic_array_(I... i) : basic_array_(std::array<long, R>{(long)i...}) {}
    template <Array B>
      requires(get_rank<B> == R and !std::is_same_v<B, basic_array_>)
    basic_array_(B const &b) : basic_array_(b.shape()) {
      this->assign_array(b);
    }
    basic_array_(std::initializer_list<T> const &l)
      requires(R == 1)
       : basic_array_(std::array<long, 1>{(long)l.size()}) {
      std::copy(l.begin(), l.end(), mem_.p);
    }
    basic_array_(std::initializer_list<std::initializer_list<T>> const &l)
      requires(R == 2)
       : basic_array_(std::array<long, 2>{(long)l.size(), l.size() ? (long)l.begin()->size() : 0}) {
      long k = 0;
      for (auto const &x : l)
        for (auto const &y : x) mem_.p[k++] = y;
    }
    basic_array_ &operator=(basic_array_ const &o) { return *this = basic_array_(o); }
    basic_array_ &operator=(basic_array_ &&o) noexcept {
      // a moved-from array is empty, also after a self move (release, then take over, then clear the source)
      auto sh = o.sh_;
      auto st = o.st_;
      stub::buffer<T> m(std::move(o.mem_));
      sh_   = sh;
      st_   = st;
      o.sh_ = {};
      if (this == &o) return *this;
      mem_ = std::move(m);
      return *this;
    }
    template <Array B>
      requires(!std::is_same_v<std::remove_cvref_t<B>, basic_array_>)
    basic_array_ &operator=(B const &b) {
      *this = basic_array_(b);
      return *this;
    }
    template <Scalar S> basic_array_ &operator=(S const &x) {
      this->assign_scalar(x);
      return *this;
    }
    static basic_array_ zeros(std::array<long, R> const &sh) {
      basic_array_ r(sh);
      r.fill(T{});
      return r;
    }
    template <std::integral... I> static basic_array_ zeros(I... i) { return zeros(std::array<long, R>{(long)i...}); }
    static basic_array_ ones(std::array<long, R> const &sh) {
      basic_array_ r(sh);
      r.fill(T{1});
      return r;
    }
    template <std::integral... I> static basic_array_ ones(I... i) { return ones(std::array<long, R>{(long)i...}); }
    void resize(std::array<long, R> const &sh) {
      if (sh == sh_) return;
      *this = basic_array_(sh);
    }
    template <std::integral... I> void resize(I... i) { resize(std::array<long, R>{(long)i...}); }
    [[nodiscard]] auto const &shape() const { return sh_; }
    [[nodiscard]] long shape(int i) const { return sh_[i]; }
    [[nodiscard]] auto const &strides() const { return st_; }
    [[nodiscard]] T const *data() const { return mem_.p; }
    [[nodiscard]] T *data() { return mem_.p; }
    using layout_t = stub::index_map<R>;
    stub::handle<T> storage() { return {mem_.p}; }
    auto as_array_view() { return basic_array_view_<T, R, 'A'>(mem_.p, sh_, st_); }
    auto as_array_view() const { return basic_array_view_<T const, R, 'A'>(mem_.p, sh_, st_); }
    friend void swap(basic_array_ &a, basic_array_ &b) noexcept {
      std::swap(a.sh_, b.sh_);
      std::swap(a.st_, b.st_);
      std::swap(a.mem_.p, b.mem_.p);
      std::swap(a.mem_.n, b.mem_.n);
    }
  };

  // ---------------------------------------------------------------- view
  template <typename T, int R, char A> class basic_array_view_ : public arr_ops<basic_array_view_<T, R, A>, T, R, A> {
    T *p_ = nullptr;
    std::array<long, R> sh_{}, st_{};

    public:
    static constexpr bool is_view = true;
    basic_array_view_() = default;
    basic_array_view_(basic_array_view_ const &) = default;
    basic_array_view_(T *p, std::array<long, R> const &sh, std::array<long, R> const &st) : p_(p), sh_(sh), st_(st) {}
    using layout_t = stub::index_map<R>;
    basic_array_view_(stub::index_map<R> const &m, stub::handle<std::remove_const_t<T>> h) : p_(h.p), sh_(m.l), st_(m.s) {}
    stub::handle<T> storage() const { return {p_}; }
    basic_array_view_(std::array<long, R> const &sh, T *p) : p_(p), sh_(sh), st_(stub::c_strides(sh)) {}
    template <char B> basic_array_view_(basic_array_view_<std::remove_const_t<T>, R, B> const &o) : p_(o.data()), sh_(o.shape()), st_(o.strides()) {}
    template <char B>
      requires(std::is_const_v<T> and A != B)
    basic_array_view_(basic_array_view_<T, R, B> const &o) : p_(o.data()), sh_(o.shape()), st_(o.strides()) {}
    template <char B> basic_array_view_(basic_array_<std::remove_const_t<T>, R, B> &o) : p_(o.data()), sh_(o.shape()), st_(o.strides()) {}
    template <char B>
      requires(std::is_const_v<T>)
    basic_array_view_(basic_array_<std::remove_const_t<T>, R, B> const &o) : p_(o.data()), sh_(o.shape()), st_(o.strides()) {}

    // standard containers
    template <typename X>
      requires(R == 1 and !Array<X> and requires(X &x) { x.data(); (long)x.size(); } and std::is_convertible_v<decltype(std::declval<X &>().data()), T *>)
    explicit basic_array_view_(X &x) : p_(x.data()), sh_{(long)x.size()}, st_{1} {}

    basic_array_view_ &operator=(basic_array_view_ const &o) {
      this->assign_array(o);
      return *this;
    }
    template <Array B> basic_array_view_ &operator=(B const &b) {
      this->assign_array(b);
      return *this;
    }
    template <Scalar S> basic_array_view_ &operator=(S const &x) {
      this->assign_scalar(x);
      return *this;
    }
    basic_array_view_ &operator=(T const &x)
      requires(!Scalar<T> and !std::is_const_v<T>)
    {
      for (auto &y : *this) y = x;
      return *this;
    }
    void rebind(basic_array_view_ const &o) {
      p_  = o.p_;
      sh_ = o.sh_;
      st_ = o.st_;
    }
    [[nodiscard]] auto const &shape() const { return sh_; }
    [[nodiscard]] long shape(int i) const { return sh_[i]; }
    [[nodiscard]] auto const &strides() const { return st_; }
    [[nodiscard]] T *data() const { return p_; }
  };

  // views of standard containers
  template <typename T, int R, char A> basic_array_view_(basic_array_<T, R, A> &) -> basic_array_view_<T, R, A>;
  template <typename T, int R, char A> basic_array_view_(basic_array_<T, R, A> const &) -> basic_array_view_<T const, R, A>;
  template <typename T, int R, char A> basic_array_view_(basic_array_view_<T, R, A>) -> basic_array_view_<T, R, A>;
  template <typename T, size_t N> basic_array_view_(std::array<T, N> &) -> basic_array_view_<T, 1, 'V'>;
  template <typename T, size_t N> basic_array_view_(std::array<T, N> const &) -> basic_array_view_<T const, 1, 'V'>;
  template <typename T> basic_array_view_(std::vector<T> &) -> basic_array_view_<T, 1, 'V'>;
  template <typename T> basic_array_view_(std::vector<T> const &) -> basic_array_view_<T const, 1, 'V'>;

  // ---------------------------------------------------------------- free functions
  template <Array B> auto make_regular(B const &b) { return typename B::regular_type(b); }
  template <typename X>
    requires(!Array<X>)
  std::decay_t<X> make_regular(X &&x) {
    return std::forward<X>(x);
  }
  template <typename B>
    requires(Array<std::decay_t<B>>)
  auto diagonal(B &&b) {
    auto v  = b();
    using V = decltype(v);
    using T = std::remove_pointer_t<decltype(v.data())>;
    (void)sizeof(V);
    return basic_array_view_<T, 1, 'A'>(v.data(), std::array<long, 1>{std::min(v.shape()[0], v.shape()[1])}, std::array<long, 1>{v.strides()[0] + v.strides()[1]});
  }
  template <Array B> long first_dim(B const &b) { return b.shape()[0]; }
  template <Array B> long second_dim(B const &b) { return b.shape()[1]; }
  template <typename T, int R> auto zeros(std::array<long, R> const &sh) { return array<T, R>::zeros(sh); }
  template <typename T, std::integral... I> auto zeros(I... i) { return array<T, sizeof...(I)>::zeros(i...); }

  namespace stub {
    template <Array B, typename F> auto map(B const &b, F &&f) {
      using V = std::remove_cvref_t<decltype(f(*b.data()))>;
      basic_array_<V, get_rank<B>, arr_traits<B>::algebra> r(b.shape());
      long k = 0;
      for_each_index(b.shape(), [&](auto const &ix) { r.data()[k++] = f(b.data()[b.offset(ix)]); });
      return r;
    }
    template <Array B, Array C, typename F> auto map2(B const &b, C const &c, F &&f) {
      static_assert(get_rank<B> == get_rank<C>);
      if (b.shape() != c.shape()) NDA_STUB_BAD("operation between arrays of different shapes (%ld.., %ld..)", b.shape()[0], c.shape()[0]);
      using V = std::remove_cvref_t<decltype(f(*b.data(), *c.data()))>;
      basic_array_<V, get_rank<B>, arr_traits<B>::algebra> r(b.shape());
      long k = 0;
      for_each_index(b.shape(), [&](auto const &ix) { r.data()[k++] = f(b.data()[b.offset(ix)], c.data()[c.offset(ix)]); });
      return r;
    }
    template <typename X, typename Y> auto common(X const &x, Y const &y) {
      using C = std::common_type_t<X, Y>;
      return std::pair<C, C>{(C)x, (C)y};
    }
  } // namespace stub

#define NDA_STUB_BIN(OP)                                                                                                                                                                                           \
  template <Array B, Array C> auto operator OP(B const &b, C const &c) {                                                                                                                                            \
    return stub::map2(b, c, [](auto const &x, auto const &y) {                                                                                                                                                      \
      auto p = stub::common(x, y);                                                                                                                                                                                  \
      return p.first OP p.second;                                                                                                                                                                                   \
    });                                                                                                                                                                                                             \
  }
  NDA_STUB_BIN(+)
  NDA_STUB_BIN(-)
#undef NDA_STUB_BIN
  template <Array B, Array C> auto operator*(B const &b, C const &c) {
    if constexpr (arr_traits<B>::algebra == 'M') {
      using V = std::common_type_t<get_value_t<B>, get_value_t<C>>;
      if (b.shape()[1] != c.shape()[0]) NDA_STUB_BAD("matrix product of incompatible shapes (%ld,%ld) (%ld..)", b.shape()[0], b.shape()[1], c.shape()[0]);
      if constexpr (get_rank<C> == 2) {
        basic_array_<V, 2, 'M'> r(b.shape()[0], c.shape()[1]);
        for (long i = 0; i < r.shape()[0]; ++i)
          for (long j = 0; j < r.shape()[1]; ++j) {
            V s{};
            for (long k = 0; k < b.shape()[1]; ++k) s += V(b(i, k)) * V(c(k, j));
            r(i, j) = s;
          }
        return r;
      } else {
        basic_array_<V, 1, 'V'> r(b.shape()[0]);
        for (long i = 0; i < r.shape()[0]; ++i) {
          V s{};
          for (long k = 0; k < b.shape()[1]; ++k) s += V(b(i, k)) * V(c(k));
          r(i) = s;
        }
        return r;
      }
    } else
      return stub::map2(b, c, [](auto const &x, auto const &y) {
        auto p = stub::common(x, y);
        return p.first * p.second;
      });
  }
  template <Array B, Array C>
    requires(arr_traits<B>::algebra != 'M')
  auto operator/(B const &b, C const &c) {
    return stub::map2(b, c, [](auto const &x, auto const &y) {
      auto p = stub::common(x, y);
      return p.first / p.second;
    });
  }
  template <Array B, Scalar S> auto operator*(B const &b, S const &s) {
    return stub::map(b, [&](auto const &x) {
      auto p = stub::common(x, s);
      return p.first * p.second;
    });
  }
  template <Array B, Scalar S> auto operator*(S const &s, B const &b) { return b * s; }
  template <Array B, Scalar S> auto operator/(B const &b, S const &s) {
    return stub::map(b, [&](auto const &x) {
      auto p = stub::common(x, s);
      return p.first / p.second;
    });
  }
  template <Array B, Scalar S>
    requires(arr_traits<B>::algebra != 'M')
  auto operator/(S const &s, B const &b) {
    return stub::map(b, [&](auto const &x) {
      auto p = stub::common(s, x);
      return p.first / p.second;
    });
  }
  template <Array B, Scalar S> auto operator+(B const &b, S const &s) {
    if constexpr (arr_traits<B>::algebra == 'M') {
      auto r = make_regular(b);
      r += s;
      return r;
    } else
      return stub::map(b, [&](auto const &x) {
        auto p = stub::common(x, s);
        return p.first + p.second;
      });
  }
  template <Array B, Scalar S> auto operator+(S const &s, B const &b) { return b + s; }
  template <Array B, Scalar S> auto operator-(B const &b, S const &s) { return b + (-s); }
  template <Array B, Scalar S> auto operator-(S const &s, B const &b) { return (-b) + s; }
  template <Array B> auto operator-(B const &b) {
    return stub::map(b, [](auto const &x) { return -x; });
  }
  template <Array B, Array C> bool operator==(B const &b, C const &c) {
    if (b.shape() != c.shape()) return false;
    bool r = true;
    stub::for_each_index(b.shape(), [&](auto const &ix) { r = r && (b.data()[b.offset(ix)] == c.data()[c.offset(ix)]); });
    return r;
  }

  template <Scalar S> auto real(S const &x) {
    if constexpr (is_complex_v<S>)
      return x.real();
    else
      return x;
  }
  template <Scalar S> auto imag(S const &x) {
    if constexpr (is_complex_v<S>)
      return x.imag();
    else
      return S{};
  }
  template <Scalar S> S conj(S const &x) {
    if constexpr (is_complex_v<S>)
      return std::conj(x);
    else
      return x;
  }
  template <Scalar S> auto abs2(S const &x) {
    if constexpr (is_complex_v<S>)
      return x.real() * x.real() + x.imag() * x.imag();
    else
      return x * x;
  }
  template <Array B> auto real(B const &b) {
    return stub::map(b, [](auto const &x) { return nda::real(x); });
  }
  template <Array B> auto imag(B const &b) {
    return stub::map(b, [](auto const &x) { return nda::imag(x); });
  }
  template <Array B> auto conj(B const &b) {
    return stub::map(b, [](auto const &x) { return nda::conj(x); });
  }
  template <Array B> auto abs2(B const &b) {
    return stub::map(b, [](auto const &x) { return nda::abs2(x); });
  }
#define NDA_STUB_FUN(F)                                                                                                                                                                                             \
  template <Array B> auto F(B const &b) {                                                                                                                                                                           \
    return stub::map(b, [](auto const &x) {                                                                                                                                                                         \
      using std::F;                                                                                                                                                                                                 \
      return F(x);                                                                                                                                                                                                  \
    });                                                                                                                                                                                                             \
  }
  NDA_STUB_FUN(abs)
  NDA_STUB_FUN(sqrt)
  NDA_STUB_FUN(exp)
  NDA_STUB_FUN(floor)
#undef NDA_STUB_FUN
  template <Array B> auto pow(B const &b, double e) {
    return stub::map(b, [e](auto const &x) { return std::pow(x, e); });
  }
  template <Array B> auto max_element(B const &b) {
    if (b.size() == 0) NDA_STUB_BAD("max_element of an empty array");
    auto m = *b.begin();
    for (auto const &x : b)
      if (x > m) m = x;
    return m;
  }
  template <Array B> auto min_element(B const &b) {
    if (b.size() == 0) NDA_STUB_BAD("min_element of an empty array");
    auto m = *b.begin();
    for (auto const &x : b)
      if (x < m) m = x;
    return m;
  }
  template <Array B> auto sum(B const &b) {
    get_value_t<B> s{};
    for (auto const &x : b) s += x;
    return s;
  }
  template <typename T> auto eye(long n) {
    auto m = matrix<T>::zeros(n, n);
    for (long i = 0; i < n; ++i) m(i, i) = 1;
    return m;
  }
  template <Array B>
    requires(get_rank<B> == 2)
  auto transpose(B &&b) {
    return basic_array_view_<std::remove_pointer_t<decltype(b.data())>, 2, arr_traits<std::remove_cvref_t<B>>::algebra>(b.data(), {b.shape()[1], b.shape()[0]}, {b.strides()[1], b.strides()[0]});
  }
  template <Array B>
    requires(get_rank<B> == 2)
  auto dagger(B const &b) {
    return make_regular(conj(transpose(b)));
  }
  template <Array B, Array C> void deep_swap(B &&b, C &&c) {
    auto t = make_regular(b);
    std::forward<B>(b) = c;
    std::forward<C>(c) = t;
  }
  template <size_t R, typename F> void for_each(std::array<long, R> const &sh, F &&f) {
    stub::for_each_index(sh, [&](auto const &ix) { std::apply(f, ix); });
  }
  template <Array B> std::ostream &operator<<(std::ostream &out, B const &b) {
    out << "[";
    bool first = true;
    for (auto const &x : b) {
      if (!first) out << ",";
      first = false;
      out << x;
    }
    return out << "]";
  }

  // ---------------------------------------------------------------- linear algebra (LU with pivoting)
  namespace stub {
    template <typename M> auto lu_det_inv(M const &m, bool want_inv) {
      using T = get_value_t<M>;
      if (m.shape()[0] != m.shape()[1]) NDA_STUB_BAD("determinant or inverse of a matrix of shape (%ld,%ld)", m.shape()[0], m.shape()[1]);
      long n = m.shape()[0];
      std::vector<T> a(n * n), v(want_inv ? n * n : 0);
      for (long i = 0; i < n; ++i)
        for (long j = 0; j < n; ++j) a[i * n + j] = m(i, j);
      if (want_inv)
        for (long i = 0; i < n; ++i) v[i * n + i] = T(1);
      T det(1);
      for (long c = 0; c < n; ++c) {
        long p = c;
        for (long i = c + 1; i < n; ++i)
          if (!(std::abs(a[i * n + c]) <= std::abs(a[p * n + c]))) p = i; // NaN is taken, and stays
        if (p != c) {
          det = -det;
          for (long j = 0; j < n; ++j) std::swap(a[p * n + j], a[c * n + j]);
          if (want_inv)
            for (long j = 0; j < n; ++j) std::swap(v[p * n + j], v[c * n + j]);
        }
        T d = a[c * n + c];
        det *= d;
        if (d == T(0)) {
          if (want_inv) throw std::runtime_error("inverse of a singular matrix");
          return std::make_pair(T(0), std::vector<T>{});
        }
        for (long i = 0; i < n; ++i) {
          if (i == c || (!want_inv && i < c)) continue;
          T r = a[i * n + c] / d;
          if (r == T(0)) continue;
          for (long j = c; j < n; ++j) a[i * n + j] -= r * a[c * n + j];
          if (want_inv)
            for (long j = 0; j < n; ++j) v[i * n + j] -= r * v[c * n + j];
        }
        if (want_inv) {
          for (long j = c; j < n; ++j) a[c * n + j] /= d;
          for (long j = 0; j < n; ++j) v[c * n + j] /= d;
        }
      }
      return std::make_pair(det, std::move(v));
    }
  } // namespace stub
  template <Array M>
    requires(get_rank<M> == 2)
  auto determinant(M const &m) {
    return stub::lu_det_inv(m, false).first;
  }
  template <Array M>
    requires(get_rank<M> == 2)
  auto inverse(M const &m) {
    auto r = stub::lu_det_inv(m, true);
    matrix<get_value_t<M>> x(m.shape()[0], m.shape()[0]);
    std::copy(r.second.begin(), r.second.end(), x.data());
    return x;
  }
  namespace linalg {
    using nda::determinant;
    using nda::inverse;
  } // namespace linalg

  namespace blas {
    template <Array X, Array Y> auto dot(X const &x, Y const &y) {
      if (x.shape() != y.shape()) NDA_STUB_BAD("dot product of vectors of %ld and %ld elements", x.shape()[0], y.shape()[0]);
      std::common_type_t<get_value_t<X>, get_value_t<Y>> s{};
      for (long i = 0; i < x.shape()[0]; ++i) s += x(i) * y(i);
      return s;
    }
    template <Array X, Array Y> auto dotc(X const &x, Y const &y) {
      if (x.shape() != y.shape()) NDA_STUB_BAD("dot product of vectors of %ld and %ld elements", x.shape()[0], y.shape()[0]);
      std::common_type_t<get_value_t<X>, get_value_t<Y>> s{};
      for (long i = 0; i < x.shape()[0]; ++i) s += nda::conj(x(i)) * y(i);
      return s;
    }
    template <Array M, Array X, Array Y> void gemv(get_value_t<M> alpha, M const &m, X const &x, get_value_t<M> beta, Y &&y) {
      if (m.shape()[0] != y.shape()[0] || m.shape()[1] != x.shape()[0]) NDA_STUB_BAD("gemv with incompatible shapes");
      using T = get_value_t<M>;
      for (long i = 0; i < m.shape()[0]; ++i) {
        T s{};
        for (long j = 0; j < m.shape()[1]; ++j) s += m(i, j) * x(j);
        y(i) = alpha * s + (beta == T{} ? T{} : beta * y(i));
      }
    }
    template <Array M, Array N, Array Y> void gemm(get_value_t<M> alpha, M const &m, N const &n, get_value_t<M> beta, Y &&y) {
      if (m.shape()[0] != y.shape()[0] || m.shape()[1] != n.shape()[0] || n.shape()[1] != y.shape()[1]) NDA_STUB_BAD("gemm with incompatible shapes");
      using T = get_value_t<M>;
      for (long i = 0; i < m.shape()[0]; ++i)
        for (long k = 0; k < n.shape()[1]; ++k) {
          T s{};
          for (long j = 0; j < m.shape()[1]; ++j) s += m(i, j) * n(j, k);
          y(i, k) = alpha * s + (beta == T{} ? T{} : beta * y(i, k));
        }
    }
    template <Array X, Array Y, Array M> void ger(get_value_t<M> alpha, X const &x, Y const &y, M &&m) {
      if (m.shape()[0] != x.shape()[0] || m.shape()[1] != y.shape()[0]) NDA_STUB_BAD("ger with incompatible shapes");
      for (long i = 0; i < x.shape()[0]; ++i)
        for (long j = 0; j < y.shape()[0]; ++j) m(i, j) += alpha * x(i) * y(j);
    }
  } // namespace blas

  namespace clef {}
  namespace stdutil {
    template <typename T, size_t N> T product(std::array<T, N> const &a) { return std::accumulate(a.begin(), a.end(), T(1), std::multiplies<>{}); }
  } // namespace stdutil
  namespace permutations {
    template <int N> constexpr std::array<int, N> cycle(int p, int pos = N) {
      std::array<int, N> result = {0};
      for (int i = 0; i < N; ++i) result[i] = (i < pos ? (pos + i - p % pos) % pos : i);
      return result;
    }
  } // namespace permutations
  template <size_t N> constexpr uint64_t encode(std::array<int, N> const &a) {
    uint64_t r = 0;
    for (size_t i = 0; i < N; ++i) r += (uint64_t)a[i] << (4 * i);
    return r;
  }
  template <uint64_t P, typename A> auto permuted_indices_view(A &&a) {
    constexpr int R = get_rank<A>;
    std::array<long, R> sh{}, st{};
    for (int i = 0; i < R; ++i) {
      sh[i] = a.shape()[(P >> (4 * i)) & 15];
      st[i] = a.strides()[(P >> (4 * i)) & 15];
    }
    return basic_array_view_<std::remove_pointer_t<decltype(a.data())>, R, arr_traits<std::remove_cvref_t<A>>::algebra>(a.data(), sh, st);
  }
} // namespace nda
#include "./ext.hpp"
