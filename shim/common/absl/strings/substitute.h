#ifndef VC_substitute_H_
#define VC_substitute_H_
#include "absl/strings/vc_str.h"
namespace absl {
template <class... A> inline vc_str Substitute(const A&...) { return {}; }
}
#endif
