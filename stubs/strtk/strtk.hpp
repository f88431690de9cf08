// Minimal stand-in for the part of strtk that fstalign uses (the real header is not in this sandbox).
// It only has to give SynonymEngine.cpp resolved declarations to analyse.
#pragma once
#include <cstddef>
#include <iterator>
#include <string>
#include <utility>
namespace strtk {
namespace split_options {
typedef std::size_t type;
const type default_mode = 0;
const type compress_delimiters = 1;
}  // namespace split_options
template <typename Sequence>
class range_to_type_back_inserter_iterator {
 public:
  explicit range_to_type_back_inserter_iterator(Sequence &s) : s_(&s) {}
  range_to_type_back_inserter_iterator &operator=(const std::pair<std::string::const_iterator, std::string::const_iterator> &r) {
    s_->push_back(typename Sequence::value_type(r.first, r.second));
    return *this;
  }
  range_to_type_back_inserter_iterator &operator*() { return *this; }
  range_to_type_back_inserter_iterator &operator++() { return *this; }
  range_to_type_back_inserter_iterator operator++(int) { return *this; }

 private:
  Sequence *s_;
};
template <typename Sequence>
inline range_to_type_back_inserter_iterator<Sequence> range_to_type_back_inserter(Sequence &s) {
  return range_to_type_back_inserter_iterator<Sequence>(s);
}
template <typename Out>
inline std::size_t split(const char *delims, const std::string &str, Out out, split_options::type opt = split_options::default_mode) {
  std::string d(delims);
  auto it = str.begin(), prev = str.begin();
  std::size_t n = 0;
  while (it != str.end()) {
    if (d.find(*it) != std::string::npos) {
      *out = std::make_pair(prev, it);
      ++out;
      ++n;
      if (opt & split_options::compress_delimiters) {
        while ((++it) != str.end() && d.find(*it) != std::string::npos) {
        }
      } else
        ++it;
      prev = it;
    } else
      ++it;
  }
  *out = std::make_pair(prev, it);
  ++out;
  return n + 1;
}
}  // namespace strtk
