#include "sym.h"
#include "psi/algorithm/spiral/spiral_client.h"
#include "psi/algorithm/spiral/spiral_server.h"
#include "psi/algorithm/spiral/poly_matrix_utils.h"
#include "psi/algorithm/spiral/gadget.h"
#include "psi/algorithm/pir_interface/pir_db.h"
#include "psi/algorithm/spiral/util.h"
using namespace psi::spiral;
namespace {
struct Shape { size_t poly, rows, bytes, tgsw; };
const Shape kS[] = {{8, 3, 5, 6}, {8, 5, 16, 6}, {8, 4, 32, 6}, {8, 2, 45, 6}, {16, 7, 40, 4}, {16, 3, 100, 6}, {16, 6, 64, 4}};
}
extern "C" int h_retrieve() {
  Shape s = kS[sym_param("shape", 0)];
  // noise width small enough that every noise sample is 0
  Params params(s.poly, {268369921, 249561089}, 0.05, PolyMatrixParams(2, 256, 21, 4, 8, 8, s.tgsw), QueryParams(2, 1, 1));
  DatabaseMetaInfo info(s.rows, s.bytes);
  size_t pts = params.UpdateByDatabaseInfo(info);
  CHECK_THAT((size_t(1) << (params.DbDim1() + params.DbDim2())) >= pts, "dimensions cannot hold the database");
  std::vector<std::vector<uint8_t>> db;
  for (size_t i = 0; i < s.rows; i++) db.push_back(symVec(s.bytes, "row"));
  SpiralServer server(params, info);
  server.GenerateFromRawData(psi::pir::RawDatabase(db));
  SpiralClient client(params, info);
  size_t idx = choose(s.rows, "idx");
  auto q = client.GenQuery(idx);
  // decrypt the query to see which plaintext it selects
  auto dec = FromNtt(params, client.DecryptMatrixRegev(ToNtt(params, q.ct_)));
  unsigned __int128 Q = params.Modulus();
  size_t v1 = params.DbDim1(), v2 = params.DbDim2(), found = 0, dim0 = 0;
  for (size_t i = 0; i < (size_t(1) << v1); i++) {
    uint64_t m = (uint64_t)((unsigned __int128)dec.Data()[2 * i] * (1u << params.G()) % Q);
    if (m == 0) continue;
    CHECK_THAT(m == params.ScaleK(), "selector is not the plaintext scale");
    found++;
    dim0 = i;
  }
  CHECK_THAT(found == 1, "query selects no or several first dimension slots");
  size_t pt = dim0 << v2, bits = util::GetBitsPer(params, params.TGsw());
  for (size_t l = 0; l < v2; l++) {
    for (size_t k = 0; k < params.TGsw(); k++) {
      uint64_t m = (uint64_t)((unsigned __int128)dec.Data()[2 * (l * params.TGsw() + k) + 1] * (1u << (params.StopRound() + 1)) % Q);
      if (m == 0) continue;
      CHECK_THAT(m == (1ULL << (bits * k)), "gadget power");
      pt |= size_t(1) << l;
    }
  }
  // a response that encrypts that plaintext under the client's key, with a mask of large coefficients and rounding noise
  size_t parts = server.partition_num_, n = params.N(), N = s.poly;
  const uint64_t q1 = 4 * 256, q2 = kQ2Values[params.Q2Bits()];
  std::vector<PolyMatrixRaw> resp;
  for (size_t p = 0; p < parts; p++) {
    auto m = PolyMatrixRaw::Zero(N, n + 1, n);
    for (size_t k = 0; k < n * N; k++) m.Data()[k] = (k * k * 7919 + 104729 * (k + p) + 1) % q2;
    for (size_t r = 0; r < n; r++)
      for (size_t c = 0; c < n; c++) {
        std::vector<uint64_t> prod(N, 0);  // key times mask
        for (size_t i = 0; i < N; i++) {
          uint64_t sk = client.sk_gsw_.Poly(r, 0)[i];
          sk = sk == 0 ? 0 : sk == 1 ? 1 : q2 - 1;
          for (size_t j = 0; j < N; j++) {
            uint64_t t = sk * m.Poly(0, c)[j] % q2;
            if (i + j >= N) t = (q2 - t) % q2;
            prod[(i + j) % N] = (prod[(i + j) % N] + t) % q2;
          }
        }
        for (size_t z = 0; z < N; z++) {
          uint64_t msg = server.pt_dbs_[p * server.single_pt_db_size_ + pt * params.PtCoeffs() + (r * n + c) * N + z];
          uint64_t mask = (q1 * prod[z] + q2 / 2) / q2 % q1;
          m.Poly(r + 1, c)[z] = (4 * msg + q1 - mask) % q1;
        }
      }
    resp.push_back(m);
  }
  CHECK_THAT(client.DecodeResponse(resp, idx) == db[idx], "decoded row differs");
  sym_reach("end");
  return 0;
}
// the layout the server evaluates on: slot (dim0, dim1) holds the transformed plaintext of that number, whichever way it was built
extern "C" int h_layout() {
  Shape s = kS[sym_param("shape", 0)];
  Params params(s.poly, {268369921, 249561089}, 0.05, PolyMatrixParams(2, 256, 21, 4, 8, 8, s.tgsw), QueryParams(2, 1, 1));
  DatabaseMetaInfo info(s.rows, s.bytes);
  size_t pts = params.UpdateByDatabaseInfo(info);
  std::vector<std::vector<uint8_t>> db;
  for (size_t i = 0; i < s.rows; i++) {
    std::vector<uint8_t> r(s.bytes);
    for (size_t j = 0; j < s.bytes; j++) r[j] = (uint8_t)(i * 101 + j * 37 + 11);
    db.push_back(r);
  }
  size_t row = choose(s.rows, "row");
  db[row][choose(2, "end") ? s.bytes - 1 : 0] = sym<uint8_t>("byte");
  SpiralServer server(params, info);
  server.GenerateFromRawData(psi::pir::RawDatabase(db));
  auto pdb = server.pt_dbs_;
  server.PtDbsToReorientedDbs(pdb);
  SpiralServer direct(params, info);
  direct.GenerateFromRawDataAndReorient(psi::pir::RawDatabase(db));
  CHECK_THAT(direct.reoriented_dbs_.size() == server.reoriented_dbs_.size(), "layout sizes differ");
  for (size_t i = 0; i < direct.reoriented_dbs_.size(); i++)
    CHECK_THAT(direct.reoriented_dbs_[i] == server.reoriented_dbs_[i], "stored and direct layouts differ");
  size_t num_per = size_t(1) << params.DbDim2(), d0 = size_t(1) << params.DbDim1();
  for (size_t p = 0; p < server.partition_num_; p++)
    for (size_t pt = 0; pt < pts; pt++)
      for (size_t trial = 0; trial < 4; trial++) {
        auto item = PolyMatrixRaw::Zero(s.poly, 1, 1);
        for (size_t z = 0; z < s.poly; z++)
          item.Data()[z] = arith::RecenertMod(pdb[p * server.single_pt_db_size_ + pt * params.PtCoeffs() + trial * s.poly + z], 256, params.Modulus());
        auto e = ToNtt(params, item);
        for (size_t z = 0; z < s.poly; z++) {
          uint64_t w = server.reoriented_dbs_[p * server.single_db_size_ + ((trial * s.poly + z) * num_per + pt % num_per) * d0 + pt / num_per];
          CHECK_THAT(w == (e.Data()[z] | (e.Data()[s.poly + z] << 32)), "evaluation layout");
        }
      }
  sym_reach("end");
  return 0;
}
