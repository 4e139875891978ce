// The client compiled with a secret-key Hamming weight that fits the small
// rings used here (the real constant needs at least 512 coefficients).
#include "psi/algorithm/spiral/common.h"
#include "psi/algorithm/spiral/spiral_client.h"
#include "psi/algorithm/spiral/poly_matrix_utils.h"
#define kHammingWeight (params_.PolyLen() / 4)
#include "psi/algorithm/spiral/spiral_client.cc"
