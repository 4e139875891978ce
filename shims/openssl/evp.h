#pragma once
#include "openssl/obj_mac.h"
