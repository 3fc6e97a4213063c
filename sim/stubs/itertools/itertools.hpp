#pragma once
// Stand-in for TRIQS/itertools
#include <array>
#include <iterator>
#include <optional>
#include <tuple>
#include <utility>
#include <nda/nda.hpp>
namespace itertools {
  using nda::range;
  template <typename It> struct sentinel_t {
    It it;
  };
  template <typename It> sentinel_t<It> make_sentinel(It it) { return {it}; }

  template <typename It> struct enum_iter {
    using iterator_category = std::forward_iterator_tag;
    using value_type        = std::tuple<long, decltype(*std::declval<It const &>())>;
    using difference_type   = std::ptrdiff_t;
    using pointer           = value_type *;
    using reference         = value_type;
    long n = 0;
    It it{};
    auto operator*() const { return std::tuple<long, decltype(*it)>(n, *it); }
    enum_iter &operator++() {
      ++n;
      ++it;
      return *this;
    }
    enum_iter operator++(int) {
      auto c = *this;
      ++*this;
      return c;
    }
    bool operator==(enum_iter const &o) const { return it == o.it; }
    bool operator==(It const &o) const { return it == o; }
    template <typename S> bool operator==(sentinel_t<S> const &o) const { return it == o.it; }
  };
  template <typename C> struct enumerated {
    C c;
    auto begin() { return enum_iter<decltype(std::begin(c))>{0, std::begin(c)}; }
    auto end() { return make_sentinel(std::end(c)); }
    auto begin() const { return enum_iter<decltype(std::cbegin(c))>{0, std::cbegin(c)}; }
    auto end() const { return make_sentinel(std::cend(c)); }
    auto cbegin() const { return enum_iter<decltype(std::cbegin(c))>{0, std::cbegin(c)}; }
    auto cend() const { return make_sentinel(std::cend(c)); }
  };
  template <typename C> enumerated<C> enumerate(C &&c) { return {std::forward<C>(c)}; }

  template <typename A, typename B> struct zipped {
    A a;
    B b;
    struct iterator {
      decltype(std::begin(std::declval<A &>())) x;
      decltype(std::begin(std::declval<B &>())) y;
      auto operator*() const { return std::tuple<decltype(*x), decltype(*y)>(*x, *y); }
      iterator &operator++() {
        ++x;
        ++y;
        return *this;
      }
      bool operator!=(iterator const &o) const { return x != o.x; }
    };
    auto begin() { return iterator{std::begin(a), std::begin(b)}; }
    auto end() { return iterator{std::end(a), std::end(b)}; }
  };
  template <typename A, typename B> zipped<A, B> zip(A &&a, B &&b) { return {std::forward<A>(a), std::forward<B>(b)}; }

  // the iterators outlive the range: they hold the function by value
  template <typename It, typename F> struct trans_iter {
    It it{};
    std::optional<F> f;
    using value_type        = std::remove_cvref_t<decltype((*std::declval<std::optional<F> const &>())(*std::declval<It const &>()))>;
    using iterator_category = std::forward_iterator_tag;
    using difference_type   = std::ptrdiff_t;
    using pointer           = value_type *;
    using reference         = decltype((*std::declval<std::optional<F> const &>())(*std::declval<It const &>()));
    trans_iter() = default;
    trans_iter(It i, F const &g) : it(i), f(g) {}
    trans_iter(trans_iter const &o) : it(o.it), f(o.f) {}
    trans_iter &operator=(trans_iter const &o) {
      it = o.it;
      f.reset();
      if (o.f) f.emplace(*o.f);
      return *this;
    }
    decltype(auto) operator*() const { return (*f)(*it); }
    trans_iter &operator++() {
      ++it;
      return *this;
    }
    trans_iter operator++(int) {
      auto c = *this;
      ++it;
      return c;
    }
    bool operator==(trans_iter const &o) const { return it == o.it; }
    template <typename S> bool operator==(sentinel_t<S> const &o) const { return it == o.it; }
  };
  template <typename C, typename F> struct transformed {
    C c;
    F f;
    auto begin() const { return trans_iter<decltype(std::begin(c)), F>{std::begin(c), f}; }
    auto end() const { return trans_iter<decltype(std::begin(c)), F>{std::end(c), f}; }
    auto cbegin() const { return begin(); }
    auto cend() const { return end(); }
  };
  template <typename C, typename F> transformed<C, F> transform(C &&c, F f) { return {std::forward<C>(c), std::move(f)}; }

  // Cartesian product, last one fastest
  template <typename... It> struct prod_iter {
    std::tuple<It...> b{}, e{}, it{};
    bool at_end = false;
    using value_type        = std::tuple<std::decay_t<decltype(*std::declval<It const &>())>...>;
    using iterator_category = std::forward_iterator_tag;
    using difference_type   = std::ptrdiff_t;
    using pointer           = value_type *;
    using reference         = std::tuple<decltype(*std::declval<It const &>())...>;
    reference operator*() const {
      return std::apply([](auto const &...x) { return reference(*x...); }, it);
    }
    template <int K> void inc() {
      if constexpr (K < 0)
        at_end = true;
      else {
        ++std::get<K>(it);
        if (std::get<K>(it) == std::get<K>(e)) {
          std::get<K>(it) = std::get<K>(b);
          inc<K - 1>();
        }
      }
    }
    prod_iter &operator++() {
      inc<(int)sizeof...(It) - 1>();
      return *this;
    }
    prod_iter operator++(int) {
      auto c = *this;
      ++*this;
      return c;
    }
    bool operator==(prod_iter const &o) const { return at_end == o.at_end and (at_end or it == o.it); }
  };
  template <typename... C> struct producted {
    std::tuple<C...> c;
    auto make(bool end) const {
      return std::apply(
         [&](auto const &...x) {
           using P = prod_iter<std::decay_t<decltype(std::begin(x))>...>;
           P p{{std::begin(x)...}, {std::end(x)...}, {std::begin(x)...}, false};
           p.at_end = end or ((std::begin(x) == std::end(x)) or ... or false);
           return p;
         },
         c);
    }
    auto begin() const { return make(false); }
    auto end() const { return make(true); }
    auto cbegin() const { return make(false); }
    auto cend() const { return make(true); }
  };
  template <typename... C> producted<C...> product(C &&...c) { return {std::tuple<C...>(std::forward<C>(c)...)}; }
  template <std::integral... I> auto product_range(I... i) { return product(range((long)i)...); }
  template <typename T, size_t N> auto product_range(std::array<T, N> const &a) {
    return std::apply([](auto... i) { return product_range(i...); }, a);
  }

  template <typename D, typename V, typename Tag = std::forward_iterator_tag, typename R = V &, typename Diff = std::ptrdiff_t> struct iterator_facade {
    using value_type        = V;
    using reference         = R;
    using difference_type   = Diff;
    using pointer           = V *;
    using iterator_category = Tag;
    D &s() { return static_cast<D &>(*this); }
    D const &s() const { return static_cast<D const &>(*this); }
    decltype(auto) operator*() const { return s().dereference(); }
    D &operator++() {
      s().increment();
      return s();
    }
    D operator++(int) {
      D c = s();
      s().increment();
      return c;
    }
    bool operator==(D const &o) const { return s().equal(o); }
  };
} // namespace itertools
