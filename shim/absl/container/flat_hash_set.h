#pragma once
#include <unordered_set>
#include "absl/strings/string_view.h"
namespace absl { template <class K> using flat_hash_set = std::unordered_set<K>; }
