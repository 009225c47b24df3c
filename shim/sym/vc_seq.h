// Symbolic stand-in for std::vector / std::deque used only while generating
// verification conditions.  Every operation is a call to an engine intrinsic
// whose contract is the mathematical sequence operation; element access has
// the precondition "index < size", which becomes an obligation at each use.
#ifndef VC_SEQ_H_
#define VC_SEQ_H_
#include <algorithm>
#include <compare>
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <new>
#include <type_traits>
#include <utility>

struct vc_seq_storage { std::uint64_t h; };
// Type witness: the engine reads the element type off the pointer increment.
template <class T> static T* vc_wit(T* p) { return p + 1; }

extern "C" {
void __vc_seq_init(void* s, const void* sig) noexcept;
std::uint64_t __vc_seq_size(const void* s, const void* sig) noexcept;
void* __vc_seq_at(const void* s, const void* sig, std::uint64_t i) noexcept;
void* __vc_seq_push_back(void* s, const void* sig) noexcept;
void* __vc_seq_push_front(void* s, const void* sig) noexcept;
void __vc_seq_pop_back(void* s, const void* sig, std::uint64_t n) noexcept;
void __vc_seq_pop_front(void* s, const void* sig, std::uint64_t n) noexcept;
void __vc_seq_clear(void* s, const void* sig) noexcept;
void __vc_seq_copy(void* s, const void* o, const void* sig) noexcept;
void __vc_seq_swap(void* s, void* o, const void* sig) noexcept;
void __vc_assert(bool, const char*, const char*);
[[noreturn]] void __vc_unsupported(const char* what) noexcept;
}

template <class Seq, class T, bool Const>
class vc_seq_iter {
 public:
  using iterator_category = std::random_access_iterator_tag;
  using value_type = T;
  using difference_type = std::ptrdiff_t;
  using pointer = std::conditional_t<Const, const T*, T*>;
  using reference = std::conditional_t<Const, const T&, T&>;
  using storage = vc_seq_storage*;
  vc_seq_iter() : s_(nullptr), i_(0) {}
  vc_seq_iter(storage s, std::uint64_t i) : s_(s), i_(i) {}
  template <bool C2, class = std::enable_if_t<Const && !C2>>
  vc_seq_iter(const vc_seq_iter<Seq, T, C2>& o) : s_(o.s_), i_(o.i_) {}
  reference operator*() const { return *static_cast<T*>(__vc_seq_at(s_, reinterpret_cast<const void*>(&vc_wit<T>), i_)); }
  pointer operator->() const { return static_cast<T*>(__vc_seq_at(s_, reinterpret_cast<const void*>(&vc_wit<T>), i_)); }
  reference operator[](difference_type n) const { return *(*this + n); }
  vc_seq_iter& operator++() { ++i_; return *this; }
  vc_seq_iter operator++(int) { auto t = *this; ++i_; return t; }
  vc_seq_iter& operator--() { --i_; return *this; }
  vc_seq_iter operator--(int) { auto t = *this; --i_; return t; }
  vc_seq_iter& operator+=(difference_type n) { i_ += n; return *this; }
  vc_seq_iter& operator-=(difference_type n) { i_ -= n; return *this; }
  friend vc_seq_iter operator+(vc_seq_iter a, difference_type n) { a.i_ += n; return a; }
  friend vc_seq_iter operator+(difference_type n, vc_seq_iter a) { a.i_ += n; return a; }
  friend vc_seq_iter operator-(vc_seq_iter a, difference_type n) { a.i_ -= n; return a; }
  friend difference_type operator-(const vc_seq_iter& a, const vc_seq_iter& b) {
    return static_cast<difference_type>(a.i_ - b.i_);
  }
  friend bool operator==(const vc_seq_iter& a, const vc_seq_iter& b) { return a.i_ == b.i_; }
  friend auto operator<=>(const vc_seq_iter& a, const vc_seq_iter& b) {
    return static_cast<std::int64_t>(a.i_) <=> static_cast<std::int64_t>(b.i_);
  }
  storage s_;
  std::uint64_t i_;
};

template <class T, int Kind>
class vc_seq {
 public:
  using value_type = T;
  using size_type = std::size_t;
  using difference_type = std::ptrdiff_t;
  using reference = T&;
  using const_reference = const T&;
  using pointer = T*;
  using const_pointer = const T*;
  using allocator_type = std::allocator<T>;
  using iterator = vc_seq_iter<vc_seq, T, false>;
  using const_iterator = vc_seq_iter<vc_seq, T, true>;
  using reverse_iterator = std::reverse_iterator<iterator>;
  using const_reverse_iterator = std::reverse_iterator<const_iterator>;

  vc_seq() { __vc_seq_init(&s_, sig()); }
  vc_seq(const vc_seq& o) { __vc_seq_init(&s_, sig()); __vc_seq_copy(&s_, &o.s_, sig()); }
  vc_seq(vc_seq&& o) { __vc_seq_init(&s_, sig()); __vc_seq_swap(&s_, &o.s_, sig()); }
  vc_seq(std::initializer_list<T> l) { __vc_seq_init(&s_, sig()); for (const T& t : l) push_back(t); }
  explicit vc_seq(size_type n) { __vc_seq_init(&s_, sig()); for (size_type i = 0; i < n; ++i) emplace_back(); }
  vc_seq(size_type n, const T& v) { __vc_seq_init(&s_, sig()); for (size_type i = 0; i < n; ++i) push_back(v); }
  template <class It, class = typename std::iterator_traits<It>::iterator_category>
  vc_seq(It b, It e) { __vc_seq_init(&s_, sig()); for (; b != e; ++b) push_back(*b); }
  ~vc_seq() {}
  vc_seq& operator=(const vc_seq& o) { __vc_seq_copy(&s_, &o.s_, sig()); return *this; }
  vc_seq& operator=(vc_seq&& o) {
    if (this != &o) { __vc_seq_copy(&s_, &o.s_, sig()); __vc_seq_clear(&o.s_, sig()); }
    return *this;
  }
  vc_seq& operator=(std::initializer_list<T> l) { clear(); for (const T& t : l) push_back(t); return *this; }
  void assign(size_type n, const T& v) { clear(); for (size_type i = 0; i < n; ++i) push_back(v); }
  template <class It, class = typename std::iterator_traits<It>::iterator_category>
  void assign(It b, It e) { clear(); for (; b != e; ++b) push_back(*b); }

  size_type size() const { return __vc_seq_size(&s_, sig()); }
  bool empty() const { return size() == 0; }
  size_type capacity() const { return size(); }
  void reserve(size_type n) { __vc_assert(n <= (size_type(1) << 40), "SAFE", "reserve() of a reasonable size"); }
  void shrink_to_fit() {}
  reference operator[](size_type i) { return *elem(i); }
  const_reference operator[](size_type i) const { return *elem(i); }
  reference at(size_type i) { return *elem(i); }
  const_reference at(size_type i) const { return *elem(i); }
  reference front() { return *elem(0); }
  const_reference front() const { return *elem(0); }
  reference back() { return *elem(size() - 1); }
  const_reference back() const { return *elem(size() - 1); }
  T* data() { return static_cast<T*>(__vc_seq_at(&s_, nullptr, 0)); }
  const T* data() const { return static_cast<T*>(__vc_seq_at(&s_, nullptr, 0)); }

  // The argument is copied before the sequence changes, as the standard
  // requires for arguments that alias an element.
  void push_back(const T& v) { T c(v); ::new (__vc_seq_push_back(&s_, sig())) T(c); }
  template <class... A>
  reference emplace_back(A&&... a) {
    T c(std::forward<A>(a)...);
    return *::new (__vc_seq_push_back(&s_, sig())) T(c);
  }
  void push_front(const T& v) { T c(v); ::new (__vc_seq_push_front(&s_, sig())) T(c); }
  template <class... A>
  reference emplace_front(A&&... a) {
    T c(std::forward<A>(a)...);
    return *::new (__vc_seq_push_front(&s_, sig())) T(c);
  }
  void pop_back() { __vc_seq_pop_back(&s_, sig(), 1); }
  void pop_front() { __vc_seq_pop_front(&s_, sig(), 1); }
  void clear() { __vc_seq_clear(&s_, sig()); }
  void resize(size_type n) {
    while (size() > n) pop_back();
    while (size() < n) emplace_back();
  }
  iterator erase(const_iterator a) {
    if (a.i_ != 0) __vc_unsupported("erase in the middle");
    pop_front();
    return begin();
  }
  iterator erase(const_iterator a, const_iterator b) {
    if (a.i_ == 0) {
      __vc_seq_pop_front(&s_, sig(), b.i_);
      return begin();
    }
    if (b.i_ != size()) __vc_unsupported("erase in the middle");
    __vc_seq_pop_back(&s_, sig(), b.i_ - a.i_);
    return end();
  }
  template <class It>
  iterator insert(const_iterator p, It b, It e) {
    if (p.i_ != size()) __vc_unsupported("insert in the middle");
    auto at = size();
    for (; b != e; ++b) push_back(*b);
    return begin() + at;
  }
  iterator insert(const_iterator p, const T& v) {
    if (p.i_ == 0 && size() != 0) { push_front(v); return begin(); }
    if (p.i_ != size()) __vc_unsupported("insert in the middle");
    push_back(v);
    return end() - 1;
  }
  void swap(vc_seq& o) { __vc_seq_swap(&s_, &o.s_, sig()); }
  friend void swap(vc_seq& a, vc_seq& b) { a.swap(b); }

  iterator begin() { return iterator(&s_, 0); }
  iterator end() { return iterator(&s_, size()); }
  const_iterator begin() const { return const_iterator(const_cast<vc_seq_storage*>(&s_), 0); }
  const_iterator end() const { return const_iterator(const_cast<vc_seq_storage*>(&s_), size()); }
  const_iterator cbegin() const { return begin(); }
  const_iterator cend() const { return end(); }
  reverse_iterator rbegin() { return reverse_iterator(end()); }
  reverse_iterator rend() { return reverse_iterator(begin()); }
  const_reverse_iterator rbegin() const { return const_reverse_iterator(end()); }
  const_reverse_iterator rend() const { return const_reverse_iterator(begin()); }

  static const void* sig() { return reinterpret_cast<const void*>(&vc_wit<T>); }
  T* elem(size_type i) const { return static_cast<T*>(__vc_seq_at(&s_, sig(), i)); }
  mutable vc_seq_storage s_;
};
#endif
