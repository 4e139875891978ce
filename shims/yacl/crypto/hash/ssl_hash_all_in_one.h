#pragma once
#include "yacl/crypto/hash/hash_utils.h"
