#ifndef VC_str_cat_H_
#define VC_str_cat_H_
#include "absl/strings/vc_str.h"
namespace absl {
template <class... A> inline vc_str StrCat(const A&...) { return {}; }
}
#endif
