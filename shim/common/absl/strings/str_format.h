#ifndef VC_str_format_H_
#define VC_str_format_H_
#include "absl/strings/vc_str.h"
namespace absl {
template <class... A> inline vc_str StrFormat(const A&...) { return {}; }
}
#endif
