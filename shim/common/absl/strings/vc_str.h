// Message text is not modelled: formatting returns this empty tag.
#ifndef VC_STR_H_
#define VC_STR_H_
#include <string>
#include <string_view>
namespace absl {
struct vc_nomsg {};
struct vc_str {
  operator std::string() const { return std::string(); }
  operator std::string_view() const { return std::string_view(); }
};
using string_view = std::string_view;
}  // namespace absl
#endif
