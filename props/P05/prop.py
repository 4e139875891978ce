PROP = dict(
 title="Two-party ECDH PSI reveals exactly the common items",
 statement="When both parties run the ECDH PSI protocol on their items, every party that is to receive the result gets exactly the items both parties hold, in its own order, with the other party's duplicate count for each; a party that is not to receive the result gets nothing. This holds for every item list, batch size, target and interleaving, whether the masked points are kept in memory or in on-disk bucket stores.",
 over=["inputs", "schedules", "configurations"],
 text="all item sets, overlaps, duplicate counts, batch sizes, target ranks and interleavings of the six protocol threads",
 why="The tests need yacl and link libraries that are not built here and compare a few random lists under whatever schedule happens.",
 files=["psi/algorithm/ecdh/ecdh_psi.cc", "psi/cryptor/ecc_cryptor.cc", "psi/cryptor/sm2_cryptor.cc", "psi/cryptor/sodium_curve25519_cryptor.cc", "psi/utils/ec_point_store.cc", "psi/utils/hash_bucket_cache.cc", "psi/utils/index_store.cc", "psi/utils/batch_provider_impl.cc", "psi/utils/communication.h"],
 mechanism=[("three message flows per party", "psi/algorithm/ecdh/ecdh_psi.cc MaskSelf, MaskPeer, RecvDualMaskedSelf"), ("intersection of the dual masked points", "psi/utils/ec_point_store.cc FinalizeAndComputeIndices"), ("bucketed store", "psi/utils/hash_bucket_cache.cc WriteItem, LoadBucketItems"), ("in-memory result", "psi/algorithm/ecdh/ecdh_psi.cc RunEcdhPsi")],
 design="Both parties' real code runs inside one symbolic execution, each with its own threads, over an in-memory link. Items are symbolic; the group is ideal (a point is its base plus the sum of the scalars applied), so two dual-masked points are equal exactly when the items are. The results, index files, duplicate counts and totals are compared with the plain set intersection; schedules are explored with a bounded number of deviations from round robin.",
 note="Bounded symbolic execution under an ideal-group assumption.")
