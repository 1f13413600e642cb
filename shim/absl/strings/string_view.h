#pragma once
#include <string_view>
#define ABSL_STRINGS_STRING_VIEW_H_
namespace absl { using std::string_view; }
