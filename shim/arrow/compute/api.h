#pragma once
#include "arrow/shim.h"
