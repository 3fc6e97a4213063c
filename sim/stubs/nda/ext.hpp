#pragma once
// Further parts of the nda stand-in: what the meshes, Green's functions, lattices and operators need
#include <iosfwd>

namespace std { // nda/stdutil/array.hpp
  template <typename T, size_t N> ostream &operator<<(ostream &out, array<T, N> const &a) {
    out << "[";
    for (size_t i = 0; i < N; ++i) out << (i ? "," : "") << a[i];
    return out << "]";
  }
#define NDA_STUB_OP(OP)                                                                                                                                                                                             \
  template <typename T, size_t N> constexpr array<T, N> operator OP(array<T, N> const &a, array<T, N> const &b) {                                                                                                   \
    array<T, N> r{};                                                                                                                                                                                                \
    for (size_t i = 0; i < N; ++i) r[i] = a[i] OP b[i];                                                                                                                                                             \
    return r;                                                                                                                                                                                                       \
  }
  NDA_STUB_OP(+)
  NDA_STUB_OP(-)
  NDA_STUB_OP(*)
#undef NDA_STUB_OP
  template <typename T, size_t N> constexpr array<T, N> operator-(array<T, N> const &a) {
    array<T, N> r{};
    for (size_t i = 0; i < N; ++i) r[i] = -a[i];
    return r;
  }
  template <typename T, size_t N> constexpr array<T, N> operator*(T s, array<T, N> const &a) {
    array<T, N> r{};
    for (size_t i = 0; i < N; ++i) r[i] = s * a[i];
    return r;
  }
} // namespace std

namespace nda::stdutil {
  template <typename T, typename U, size_t N> constexpr std::array<T, N> make_std_array(std::array<U, N> const &a) {
    std::array<T, N> r{};
    for (size_t i = 0; i < N; ++i) r[i] = (T)a[i];
    return r;
  }
  template <typename T, size_t R> constexpr std::array<T, R + 1> append(std::array<T, R> const &a, T const &x) {
    std::array<T, R + 1> r{};
    for (size_t i = 0; i < R; ++i) r[i] = a[i];
    r[R] = x;
    return r;
  }
  template <typename T, typename U, size_t R> constexpr std::array<T, R + 1> front_append(std::array<T, R> const &a, U const &x) {
    std::array<T, R + 1> r{};
    r[0] = (T)x;
    for (size_t i = 0; i < R; ++i) r[i + 1] = a[i];
    return r;
  }
  template <int N, typename T, size_t R> constexpr std::array<T, R - N> mpop(std::array<T, R> const &a) {
    std::array<T, R - N> r{};
    for (size_t i = 0; i < R - N; ++i) r[i] = a[i];
    return r;
  }
  template <int N, typename T, size_t R> constexpr std::array<T, R - N> front_mpop(std::array<T, R> const &a) {
    std::array<T, R - N> r{};
    for (size_t i = N; i < R; ++i) r[i - N] = a[i];
    return r;
  }
  template <typename T, size_t R> constexpr auto pop(std::array<T, R> const &a) { return mpop<1>(a); }
  template <typename T, size_t R> constexpr auto front_pop(std::array<T, R> const &a) { return front_mpop<1>(a); }
  template <typename T, size_t R1, size_t R2> constexpr std::array<T, R1 + R2> join(std::array<T, R1> const &a, std::array<T, R2> const &b) {
    std::array<T, R1 + R2> r{};
    for (size_t i = 0; i < R1; ++i) r[i] = a[i];
    for (size_t i = 0; i < R2; ++i) r[R1 + i] = b[i];
    return r;
  }
} // namespace nda::stdutil
namespace stdutil = nda::stdutil;

// lazy expressions: none here
namespace nda::clef {
  template <typename... T> inline constexpr bool is_any_lazy        = false;
  template <typename... T> inline constexpr bool is_clef_expression = false;
  template <typename E, int... I> struct make_fun_impl {};
  template <typename... A> void make_expr_call(A &&...);
  template <typename... A> void make_expr_subscript(A &&...);
  template <int N> struct placeholder {};
} // namespace nda::clef
namespace clef = nda::clef;
#define CLEF_MAKE_FNT_LAZY(...) static_assert(true)
#define TRIQS_CLEF_MAKE_FNT_LAZY(...) static_assert(true)
#define CLEF_IMPLEMENT_LAZY_CALL(...)
#define CLEF_IMPLEMENT_LAZY_METHOD(...)
#define TRIQS_CLEF_IMPLEMENT_LAZY_CALL(...)

namespace nda {
  template <typename T, int N> using stack_vector             = vector<T>;
  template <typename T, int N, int M> using stack_matrix      = matrix<T>;

  template <typename T, size_t R>
  auto zeros(std::array<long, R> const &sh) {
    if constexpr (R == 0)
      return T{};
    else
      return array<T, (int)R>::zeros(sh);
  }
  template <typename T, typename I, size_t R>
    requires(std::is_integral_v<I> and !std::is_same_v<I, long>)
  auto zeros(std::array<I, R> const &sh) {
    return nda::zeros<T>(stdutil::make_std_array<long>(sh));
  }
  template <typename T> auto ones(std::integral auto... i) { return array<T, sizeof...(i)>::ones(i...); }

  template <Array V> auto diag(V const &v) {
    matrix<get_value_t<V>> m = matrix<get_value_t<V>>::zeros(v.shape()[0], v.shape()[0]);
    for (long i = 0; i < v.shape()[0]; ++i) m(i, i) = v(i);
    return m;
  }
  template <typename T>
    requires(!Array<T>)
  auto diag(std::initializer_list<T> l) {
    return diag(vector<T>(l));
  }
  template <typename T, size_t N> auto diag(std::array<T, N> const &a) {
    vector<T> v((long)N);
    for (size_t i = 0; i < N; ++i) v((long)i) = a[i];
    return diag(v);
  }
  template <Array M> bool is_matrix_square(M const &m, bool = false) { return m.shape()[0] == m.shape()[1]; }
  template <Array M> bool is_matrix_diagonal(M const &m, bool = false) {
    if (m.shape()[0] != m.shape()[1]) return false;
    for (long i = 0; i < m.shape()[0]; ++i)
      for (long j = 0; j < m.shape()[1]; ++j)
        if (i != j and m(i, j) != get_value_t<M>{}) return false;
    return true;
  }
  template <Array V> double norm(V const &v, double p = 2.0) {
    double s = 0;
    if (std::isinf(p)) {
      for (auto const &x : v) s = std::max(s, (double)std::abs(x));
      return s;
    }
    for (auto const &x : v) s += std::pow((double)std::abs(x), p);
    return std::pow(s, 1 / p);
  }
  template <Array M> void inverse_in_place(M &&m) {
    auto r = inverse(m);
    m      = r;
  }
  template <Array M> auto trace(M const &m) {
    get_value_t<M> s{};
    for (long i = 0; i < m.shape()[0]; ++i) s += m(i, i);
    return s;
  }
  // views with another algebra
  namespace stub {
    template <char B, typename A> auto with_algebra(A &&a) {
      using U = std::remove_pointer_t<decltype(a.data())>;
      return basic_array_view_<U, get_rank<A>, B>(a.data(), a.shape(), a.strides());
    }
  } // namespace stub
  template <typename A>
    requires(get_rank<A> == 2)
  auto make_matrix_view(A &&a) {
    return stub::with_algebra<'M'>(a);
  }
  template <Array A> auto make_array_view(A &a) { return stub::with_algebra<'A'>(a); }
  template <Array A> auto make_array_const_view(A const &a) {
    return basic_array_view_<get_value_t<A> const, get_rank<A>, 'A'>(a.data(), a.shape(), a.strides());
  }
  template <Array A> auto make_const_view(A const &a) {
    return basic_array_view_<get_value_t<A> const, get_rank<A>, arr_traits<A>::algebra>(a.data(), a.shape(), a.strides());
  }
  template <Array A, size_t N> auto reshape(A const &a, std::array<long, N> const &sh) {
    auto r = make_regular(a);
    array<get_value_t<A>, (int)N> x(sh);
    if (x.size() != r.size()) NDA_STUB_BAD("reshape from %ld to %ld elements", r.size(), x.size());
    std::copy(r.data(), r.data() + r.size(), x.data());
    return x;
  }
  template <Array A, std::integral... I> auto reshape(A const &a, I... i) { return reshape(a, std::array<long, sizeof...(I)>{(long)i...}); }
  // views with permuted indices, or more of them
  template <int I, int J, typename A> auto transposed_view(A &&a) {
    constexpr int R = get_rank<A>;
    auto sh         = a.shape();
    auto st         = a.strides();
    std::swap(sh[I], sh[J]);
    std::swap(st[I], st[J]);
    return basic_array_view_<std::remove_pointer_t<decltype(a.data())>, R, arr_traits<std::remove_cvref_t<A>>::algebra>(a.data(), sh, st);
  }
  template <int N, typename A> auto reinterpret_add_fast_dims_of_size_one(A &&a) {
    constexpr int R = get_rank<A>;
    std::array<long, R + N> sh{}, st{};
    for (int i = 0; i < R + N; ++i) {
      sh[i] = i < R ? a.shape()[i] : 1;
      st[i] = i < R ? a.strides()[i] : 1;
    }
    return basic_array_view_<std::remove_pointer_t<decltype(a.data())>, R + N, 'A'>(a.data(), sh, st);
  }
  template <size_t R, typename F> auto array_adapter_make_(std::array<long, R> const &sh, F f) {
    using V = std::decay_t<decltype(std::apply(f, sh))>;
    array<V, (int)R> a(sh);
    stub::for_each_index(sh, [&](auto const &ix) { a.data()[a.offset(ix)] = std::apply(f, ix); });
    return a;
  }
  template <size_t R, typename F> auto array_adapter(std::array<long, R> const &sh, F f) { return array_adapter_make_(sh, f); }
  template <typename F> auto map(F f) {
    return [f](auto const &a) { return stub::map(a, f); };
  }
  using operation = struct operation_ {
    bool sgn = false, cc = false;
    operation_ operator*(operation_ const &o) const { return {bool(sgn ^ o.sgn), bool(cc ^ o.cc)}; }
  };
  namespace blas {
    template <Array X, Array Y> auto outer_product(X const &x, Y const &y) {
      constexpr int R = get_rank<X> + get_rank<Y>;
      array<std::common_type_t<get_value_t<X>, get_value_t<Y>>, R> r(stdutil::join(x.shape(), y.shape()));
      long k = 0;
      for (auto const &a : x)
        for (auto const &b : y) r.data()[k++] = a * b;
      return r;
    }
    template <Array X, Array Y> auto dot_generic(X const &x, Y const &y) { return dot(x, y); }
  } // namespace blas
  namespace linalg {
    template <Array X, Array Y> auto cross_product(X const &x, Y const &y) {
      array<get_value_t<X>, 1> r(3);
      r(0) = x(1) * y(2) - y(1) * x(2);
      r(1) = -x(0) * y(2) + y(0) * x(2);
      r(2) = x(0) * y(1) - y(0) * x(1);
      return r;
    }
    // Jacobi, hermitian matrices: eigenvalues in ascending order, eigenvectors as columns
    template <Array M> auto jacobi_(M const &m) {
      using T = std::conditional_t<is_complex_v<get_value_t<M>>, std::complex<double>, double>;
      if (m.shape()[0] != m.shape()[1]) NDA_STUB_BAD("eigenvalues of a matrix of %ld by %ld", m.shape()[0], m.shape()[1]);
      long n = m.shape()[0];
      std::vector<std::complex<double>> a(n * n), v(n * n);
      for (long i = 0; i < n; ++i) v[i * n + i] = 1;
      for (long i = 0; i < n; ++i)
        for (long j = 0; j < n; ++j) a[i * n + j] = std::complex<double>(m(i, j));
      for (int sweep = 0; sweep < 60; ++sweep) {
        double off = 0;
        for (long p = 0; p < n; ++p)
          for (long q = p + 1; q < n; ++q) {
            auto g    = a[p * n + q];
            double ag = std::abs(g);
            off += ag;
            if (ag < 1e-300) continue;
            auto ph  = g / ag;
            double t = 0.5 * std::atan2(2 * ag, a[p * n + p].real() - a[q * n + q].real()), c = std::cos(t), s = std::sin(t);
            for (long k = 0; k < n; ++k) {
              auto x = a[k * n + p], y = a[k * n + q];
              a[k * n + p] = c * x + s * std::conj(ph) * y;
              a[k * n + q] = -s * ph * x + c * y;
              x = v[k * n + p], y = v[k * n + q];
              v[k * n + p] = c * x + s * std::conj(ph) * y;
              v[k * n + q] = -s * ph * x + c * y;
            }
            for (long k = 0; k < n; ++k) {
              auto x = a[p * n + k], y = a[q * n + k];
              a[p * n + k] = c * x + s * ph * y;
              a[q * n + k] = -s * std::conj(ph) * x + c * y;
            }
          }
        if (off < 1e-14) break;
      }
      std::vector<long> o(n);
      for (long i = 0; i < n; ++i) o[i] = i;
      std::stable_sort(o.begin(), o.end(), [&](long i, long j) { return a[i * n + i].real() < a[j * n + j].real(); });
      array<double, 1> e(n);
      matrix<T> u(n, n);
      for (long i = 0; i < n; ++i) {
        e(i) = a[o[i] * n + o[i]].real();
        for (long k = 0; k < n; ++k) {
          if constexpr (is_complex_v<T>)
            u(k, i) = v[k * n + o[i]];
          else
            u(k, i) = v[k * n + o[i]].real();
        }
      }
      return std::make_pair(e, u);
    }
    template <Array M> array<double, 1> eigenvalues(M const &m) { return jacobi_(m).first; }
    template <Array M> auto eigenelements(M const &m) { return jacobi_(m); }
  } // namespace linalg
} // namespace nda
using nda::MemoryArray; // the Green's functions name it without qualification
