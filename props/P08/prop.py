PROP = dict(
 title="In ECDH PSI a party is sent only masked points, and no result it has no right to",
 statement="In two-party ECDH PSI, whatever the items: every point a party sends carries its own secret key (once for its own items, each sent exactly once), twice-masked points and duplicate counts go only to a party that is to get the result, a party that is not keeps no twice-masked points, and everything a party without the result is sent in a whole task is the same in number, size and content for any two tables of the other side with equally many distinct keys, except for the masked points themselves.",
 over=["inputs", "pairs of inputs", "configurations"],
 text="all item values, batch splits, duplicate counts, curves and result targets of small runs; all pairs of small receiver tables",
 why="No test looks at the messages. A leak changes no result, and non-interference relates two runs over all pairs of inputs.",
 files=["psi/algorithm/ecdh/ecdh_psi.cc", "psi/algorithm/ecdh/ecdh_psi.h", "psi/algorithm/ecdh/receiver.cc", "psi/algorithm/ecdh/sender.cc", "psi/interface.cc", "psi/utils/sync.cc"],
 mechanism=[("what is sent to whom", "psi/algorithm/ecdh/ecdh_psi.cc MaskSelf, MaskPeer, RecvDualMaskedSelf"), ("right to the result", "psi/algorithm/ecdh/ecdh_psi.h SelfCanTouchResults, PeerCanTouchResults"), ("what a task exchanges besides", "psi/interface.cc AbstractPsiParty::Init, Finalize")],
 design="Every message that passes the link model is recorded while the real parties run on symbolic items; each point in it is compared with the open and masked forms of the party's items (ideal group). For whole tasks two runs with the same sender and two symbolic receiver tables are compared message by message (self-composition).",
 note="Bounded symbolic execution of the protocol with the transcript as observable.")
