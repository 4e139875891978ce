PROP = dict(
 title="Packing bytes into plaintext coefficients loses nothing",
 statement="Packing any byte string, from any start and with any coefficient width, produces coefficients that fit the width and hold the bits of the string in order, and unpacking them gives the original bytes back. The compact and the wide packing store the same coefficients.",
 over=["inputs", "configurations"],
 text="all byte strings, lengths, start offsets and coefficient widths",
 why="The tests pack random vectors with a width of 8 bits or a few others; misaligned widths, tails and offsets are sampled at best.",
 files=["psi/algorithm/spiral/util.cc"],
 mechanism=[("packing", "psi/algorithm/spiral/util.cc ConvertBytesToCoeffs, ConvertBytesToU8Coeffs"), ("unpacking", "psi/algorithm/spiral/util.cc ConvertCoeffsToBytes")],
 design="Oracle: coefficient k is the width-bit slice of the bit stream; round trip byte for byte.",
 note="Bounded symbolic execution over lengths and widths in the stated ranges.")
