#ifndef VC_SV_H_
#define VC_SV_H_
#include "absl/strings/vc_str.h"
#endif
