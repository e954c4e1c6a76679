// Minimal stand-in for the strtk dependency, which is not installed in this
// sandbox.  Only the entry point the code under test uses is provided:
//   strtk::split(delims, str, strtk::range_to_type_back_inserter(vec), opts)
// Semantics reproduced from strtk (split_options::compress_delimiters): an
// empty range gives no token; runs of delimiters count as one; a leading
// delimiter gives an empty first token and a trailing one an empty last token.
#ifndef VERIF_STRTK_SHIM_HPP
#define VERIF_STRTK_SHIM_HPP
#include <string>
#include <vector>
namespace strtk {
namespace split_options {
typedef std::size_t type;
static const type default_mode = 0;
static const type compress_delimiters = 1;
}  // namespace split_options
template <typename Seq>
struct range_inserter {
  Seq& seq;
};
template <typename Seq>
inline range_inserter<Seq> range_to_type_back_inserter(Seq& s) {
  return range_inserter<Seq>{s};
}
template <typename Seq>
inline std::size_t split(const std::string& delims, const std::string& str, range_inserter<Seq> out,
                         const split_options::type& opt = split_options::default_mode) {
  if (str.empty()) return 0;
  std::size_t n = 0, i = 0, len = str.size();
  std::string cur;
  while (i < len) {
    if (delims.find(str[i]) != std::string::npos) {
      out.seq.push_back(cur);
      cur.clear();
      ++n;
      ++i;
      if (opt & split_options::compress_delimiters)
        while (i < len && delims.find(str[i]) != std::string::npos) ++i;
    } else {
      cur += str[i++];
    }
  }
  out.seq.push_back(cur);
  return n + 1;
}
}  // namespace strtk
#endif
