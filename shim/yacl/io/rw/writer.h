#pragma once
#include "yacl/io/rw/schema.h"
