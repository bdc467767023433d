"""encodings and hyperloglogplusplus, in process: lossless streams, and registers that are the paper's."""
import inproc

ID = "E01"
SERVER = False
NEEDS_EXT = False
QUICK, THOROUGH = 40, 1920
RULE = ("zigzag, delta and prefix-varint streams of seeded and boundary integers against an independent encoder, with damaged streams read from exactly sized buffers; sketches over chosen hash values (every precision 4..18, colliding "
        "indexes, extreme leading-zero counts) in one pass, reordered with repeats, merged from stored pieces and continued, against registers and sparse entries computed from the definition; under debug assertions, "
        "AddressSanitizer and Miri; distinct = distinct inputs")
ASSUMPTIONS = ["the estimate is judged exactly only where the algorithm leaves no freedom: sparse, mostly empty and very full sketches"]
MUST_OBSERVE = ["u64_round_trip", "delta_round_trip", "damaged_read", "sparse", "dense", "merged", "hashes", "cases_native", "cases_asan", "cases_miri"]


def prepare(tier):
    inproc.ensure(["native", "asan", "miri"])


class Worker(inproc.Chunks):
    PLAN = [("native", "hll", 150), ("native", "enc", 2000), ("asan", "enc", 800), ("asan", "hll", 40), ("miri", "enc", 12), ("native", "hll", 150), ("miri", "hll", 2), ("native", "hll", 150)]
