#pragma once
#define YACL_MODULE_DECLARE(...)
#define YACL_MODULE_SECPARAM_C_UINT(n) 128
#define YACL_MODULE_SECPARAM_S_UINT(n) 40
