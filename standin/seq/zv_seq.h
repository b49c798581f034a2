// Analysis stand-ins for node-based containers: only the sequence of elements matters to the code under analysis,
// so they are views of an element sequence the analyser supplies.
#pragma once
#include <cstddef>
#include <iterator>
#include <initializer_list>
#include <utility>
#include <compare>
#include <type_traits>
#include <bits/allocator.h>
#include <bits/stl_function.h>
#include <bits/functional_hash.h>
namespace zv {
template <class T> struct seq_iter {
  using iterator_category = std::bidirectional_iterator_tag;
  using value_type = std::remove_cv_t<T>;
  using difference_type = std::ptrdiff_t;
  using pointer = T*;
  using reference = T&;
  T* p_ = nullptr;
  T& operator*() const { return *p_; }
  T* operator->() const { return p_; }
  seq_iter& operator++() { ++p_; return *this; }
  seq_iter operator++(int) { auto t = *this; ++p_; return t; }
  seq_iter& operator--() { --p_; return *this; }
  seq_iter operator--(int) { auto t = *this; --p_; return t; }
  bool operator==(const seq_iter&) const = default;
  operator seq_iter<const T>() const { return {p_}; }
};
template <class T> class sequence {
public:
  using value_type = T;
  using size_type = std::size_t;
  using difference_type = std::ptrdiff_t;
  using reference = T&;
  using const_reference = const T&;
  using iterator = seq_iter<T>;
  using const_iterator = seq_iter<const T>;
  iterator begin() noexcept { return {b_}; }
  iterator end() noexcept { return {b_ + n_}; }
  const_iterator begin() const noexcept { return {b_}; }
  const_iterator end() const noexcept { return {b_ + n_}; }
  const_iterator cbegin() const noexcept { return {b_}; }
  const_iterator cend() const noexcept { return {b_ + n_}; }
  auto rbegin() const noexcept { return std::reverse_iterator<const_iterator>(end()); }
  auto rend() const noexcept { return std::reverse_iterator<const_iterator>(begin()); }
  std::size_t size() const noexcept { return n_; }
  bool empty() const noexcept { return n_ == 0; }
  const T& front() const { return b_[0]; }
  const T& back() const { return b_[n_ - 1]; }
  T* b_ = nullptr;
  std::size_t n_ = 0;
};
}
