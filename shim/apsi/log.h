#pragma once
#include "apsi/stub.h"
