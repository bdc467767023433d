"""flat_serialize, in process: layout, round trip, truncation, tags, slices; native, ASan and Miri."""
import inproc

ID = "F01"
SERVER = False
NEEDS_EXT = False
QUICK, THOROUGH = 24, 1440
RULE = ("values of 13 generated types (fixed, optional, variable-length, nested, repeated, tagged, flattened, arrays of variable-length elements, derived structs and enums) with seeded contents are written, compared byte for byte "
        "with an independently assembled layout, read in place from exactly sized buffers, copied, and read from every truncation and with wrong tags; the same runs under debug assertions, AddressSanitizer and Miri; "
        "distinct = distinct (type, bytes)")
ASSUMPTIONS = ["buffers are aligned as PostgreSQL aligns them (8 bytes), which the format documents as its requirement"]
MUST_OBSERVE = ["Basic", "Opt", "Opts", "Kinds", "Deep", "Flat", "Arr", "Mixed", "truncated", "wrong_tag", "slice_views", "cases_native", "cases_asan", "cases_miri"]


def prepare(tier):
    inproc.ensure(["native", "asan", "miri"])


class Worker(inproc.Chunks):
    PLAN = [("miri", "flat", 12), ("native", "flat", 2400), ("asan", "flat", 600), ("native", "flat", 2400), ("miri", "flat", 12), ("asan", "flat", 600)]
