PROP = dict(
 title="Lattice PIR ring arithmetic is exact",
 statement="Modular reduction, residue decomposition and recomposition, centring, rescaling (to the nearest value), modular products and sums agree with exact integer arithmetic; transforming a polynomial and back is the identity and products, sums, negations and automorphisms taken in the transformed domain equal those of the polynomials. Digit decomposition yields digits of the digit width whose weighted sum is the value.",
 over=["inputs", "configurations"],
 text="all operands in the range of each operation, at every coefficient position",
 why="The tests compare on random operands; carries, wrap-around and boundary values of the reductions are hit with negligible probability.",
 files=["psi/algorithm/spiral/arith/arith.h", "psi/algorithm/spiral/arith/arith_params.h", "psi/algorithm/spiral/arith/ntt.cc", "psi/algorithm/spiral/arith/ntt_table.cc", "psi/algorithm/spiral/params.cc", "psi/algorithm/spiral/gadget.cc", "psi/algorithm/spiral/poly_matrix_utils.cc"],
 mechanism=[("Barrett reduction", "psi/algorithm/spiral/arith/arith.h"), ("NTT", "psi/algorithm/spiral/arith/ntt.cc"), ("CRT composition", "psi/algorithm/spiral/params.cc CrtCompose2"), ("gadget decomposition", "psi/algorithm/spiral/gadget.cc")],
 design="Oracle: 128-bit integer arithmetic and schoolbook polynomial products. Wide multiplications by symbolic operands are kept decidable by making a 12/16-bit window (scalars) or one byte of one coefficient (polynomials) symbolic at swept bases and positions; queries whose support is one or two bytes and that bit-blasting does not finish are decided by the engine's finite-domain procedure over the same encoding.",
 note="Bounded symbolic execution; operands vary inside the stated windows only.")
