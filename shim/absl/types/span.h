#pragma once
#include_next "absl/types/span.h"
#include "absl/numeric/bits.h"
#include "absl/strings/string_view.h"
