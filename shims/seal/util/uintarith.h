#pragma once
#include "seal/modulus.h"
