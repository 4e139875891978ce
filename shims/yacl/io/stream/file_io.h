#pragma once
#include "yacl/io/shim_io.h"
