#pragma once
#include "yacl/math/shim_mpint.h"
