#pragma once
#define NID_secp256k1 714
#define NID_sm2 1172
