#pragma once
#include "yacl/kernel/algorithms/silent_vole.h"
