#pragma once
#include "FourQ_internal.h"
