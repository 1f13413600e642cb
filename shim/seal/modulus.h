#pragma once
#include "seal/shim.h"
