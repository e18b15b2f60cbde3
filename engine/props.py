"""The claimed properties: which analyses decide each of them, on what."""
from common import NATIVE, DERIVED, RUSTREPR, MORE

ALL = NATIVE + DERIVED + RUSTREPR
SLOW_FIRST = ["d_mixed", "d_all", "xyzrgbnormal", "xyzinormal", "xyznormal"]
ORDER = SLOW_FIRST + [m for m in ALL if m not in SLOW_FIRST]
SERDE = ["s_msg", "s_dims", "s_header", "s_time", "s_field", "s_endian", "s_dense", "s_rgb",
         "s_xyz", "s_xyzi", "s_xyzl", "s_xyzrgb", "s_xyzrgba", "s_xyzrgbnormal", "s_xyzinormal", "s_xyzrgbl", "s_xyznormal"]
AGREE = ["xyz", "d_aligned", "d_tight", "d_packed", "d_single", "r_small", "r_mixed", "r_flip"]
SOME = ["xyzi", "d_mixed", "r_mixed"]

TRUSTED = [
    "rustc (nightly) up to MIR: the analysis starts from the compiler's type-checked, monomorphised MIR",
    "engine/interp.py, values.py, terms.py: abstract interpreter over gated values",
    "engine/loops.py, hist.py: closed forms of loops and of step histories",
    "engine/solve.py: linear and polynomial integer reasoning that discharges the obligations",
    "engine/models.py and driver/leaf.txt: meaning of the std, alloc and rayon functions that are not entered",
]
ASSUMPTIONS = [
    "64-bit little-endian host (the target the crate is compiled for here); no allocation exceeds 2^47 bytes",
    "allocation failure aborts and is not modelled",
]


class Prop:
    def __init__(self, level, technique, note, tasks, coverage=None, assumptions=()):
        self.level, self.technique, self.note, self._tasks, self.coverage, self.assumptions = level, technique, note, tasks, coverage, list(assumptions)

    def tasks(self, tier):
        return self._tasks(tier)


def both(fns):
    """Every type with rayon and std; some types in the bare configuration."""
    def f(tier):
        out = []
        for cfg, mods in (("full", ORDER), ("core", ORDER if tier == "thorough" else SOME)):
            for m in mods:
                for fn, args in fns(m, tier):
                    out.append((cfg, "p_decode." + fn, args))
        return out
    return f


def depth(tier):
    return 2 if tier == "thorough" else 1


def vec_walk(prop):
    return both(lambda m, t: [("walk", (m, prop, depth(t))), ("vec_conversion", (m, prop))])


TYPES = "20 point types: the 9 provided, 7 derived with C representation, 4 derived with Rust representation"
ENCS = ("from_iter", "from_vec", "from_par")


def encs(prop, encoders=ENCS):
    def f(tier):
        out = []
        for cfg, mods in (("full", ORDER), ("core", ORDER if tier == "thorough" else SOME)):
            for m in mods:
                for e in encoders:
                    if cfg != "full" and e == "from_par":
                        continue
                    out.append((cfg, "p_encode.encode", (m, e, prop)))
        return out
    return f


def roundtrips(tier):
    out = []
    for cfg, mods in (("full", ORDER), ("core", ORDER if tier == "thorough" else SOME)):
        for m in mods:
            for e in ENCS if tier == "thorough" and cfg == "full" else ENCS[:2]:
                for d in ("into_vec", "into_iter", "into_iter_collect"):
                    out.append((cfg, "p_encode.roundtrip", (m, e, d)))
    return out


def reordered(tier):
    out = []
    for cfg in ("full", "core"):
        for m in RUSTREPR:
            for p in ("C01", "C03", "C06"):
                out += [(cfg, "p_decode.walk", (m, p, depth(tier) if p == "C01" else 0)), (cfg, "p_decode.vec_conversion", (m, p))]
            for e in ENCS if cfg == "full" else ENCS[:2]:
                out += [(cfg, "p_encode.encode", (m, e, "C27")), (cfg, "p_encode.encode", (m, e, "C25"))]
            for e in ENCS[:2]:
                for d in ("into_vec", "into_iter", "into_iter_collect"):
                    out.append((cfg, "p_encode.roundtrip", (m, e, d)))
    return out


def parallel(tier):
    return [("full", "p_decode.par_decode", (m,)) for m in ORDER] + [("full", "p_encode.par_encode", (m,)) for m in ORDER]


SPLITS = "split chains up to depth 1 (quick) or 2 (thorough), any number of front and back steps before, between and after"

PROPS = {
    "C01": Prop("proof", "abstract interpretation of MIR; out-of-bounds and initialisation obligations",
                f"Every memory access reachable from the decode entry points is proved in bounds for an arbitrary message, for {TYPES}; {SPLITS}.",
                vec_walk("C01")),
    "C02": Prop("proof", "abstract interpretation of MIR; panic, overflow, index and capacity obligations",
                f"Every panic edge, overflow check and allocation size reachable from the decode entry points, for an arbitrary message; {TYPES}; {SPLITS}.",
                vec_walk("C02")),
    "C03": Prop("proof", "abstract interpretation of MIR; byte provenance compared with the field table",
                f"Provenance of every byte of the k-th decoded point, k symbolic, field order and placement symbolic; {TYPES}.",
                vec_walk("C03")),
    "C04": Prop("proof", "abstract interpretation of MIR; acceptance conditions and reported names",
                f"Acceptance condition against 'some needed name is absent', and the reported list for every subset of missing names; {TYPES}.",
                both(lambda m, t: [("vec_conversion", (m, "C04")), ("iter_conversion", (m, "C04"))])),
    "C05": Prop("proof", "abstract interpretation of MIR; acceptance condition compared with the size rule in both directions",
                f"Acceptance implies the size rule, and no refusal cause is consistent with a valid message; {TYPES}.",
                both(lambda m, t: [("vec_conversion", (m, "C05")), ("iter_conversion", (m, "C05"))])),
    "C06": Prop("proof", "abstract interpretation of MIR with loop closed forms; count and block of the k-th point",
                f"Number of points and the block the k-th point's bytes come from, for vector, forward and reverse iteration; {TYPES}.",
                vec_walk("C06")),
    "C07": Prop("proof", "abstract interpretation of MIR; step histories summarised by closed forms",
                f"Any number of front and back steps in closed form; {SPLITS}; {TYPES}.",
                lambda t: both(lambda m, t: [("walk", (m, "C07", depth(t)))])(t) + [(c, "p_decode.own_methods", ()) for c in ("full", "core")]),
    "C08": Prop("proof", "abstract interpretation of MIR; header of the encoded message against the point type's members",
                f"Every header member of the message encoded from an arbitrary number of points; {TYPES}; three encoders.",
                encs("C08")),
    "C09": Prop("proof", "abstract interpretation of MIR; provenance of the encoded bytes",
                f"Provenance of the bytes at k*step+offset for symbolic k; {TYPES}; three encoders.",
                encs("C09")),
    "C10": Prop("proof", "abstract interpretation of MIR; size arithmetic, narrowing and acceptance of the encoders",
                f"Width, row step and buffer length against the true numbers for any number of points up to the address space; {TYPES}; three encoders.",
                lambda t: encs("C10")(t) + [(c, "p_tables.dims", ("C10",)) for c in ("full", "core")]),
    "C23": Prop("proof", "abstract interpretation of MIR of the rayon producer; split histories in closed form",
                f"The producer handed to rayon and both halves of an arbitrary split, against the sequential iterator; messages built from a parallel source; {TYPES}. rayon's own scheduling (indexed bridge, collect in order) is assumed.",
                parallel),
    "C24": Prop("proof", "abstract interpretation of MIR of the generated and manual serde impls; provenance of every entry in both directions",
                "Key and value of every entry written for the 17 serialisable types against what is read from that key (by name and by position), every value; a missing entry is refused; packed colours bit by bit. The data format is a stand-in that hands values through unchanged; sequences and strings are serde's own.",
                lambda t: [("serde", "p_serde.symmetric", (m,)) for m in SERDE]),
    "C25": Prop("proof", "abstract interpretation of MIR; memory, index, overflow and panic obligations of the encoders",
                f"Every memory access and panic edge reachable from the encoders for an arbitrary list of points; {TYPES}; three encoders.",
                encs("C25")),
    "C26": Prop("proof", "abstract interpretation of MIR; encoder and decoder composed on one symbolic list",
                f"Decoder run on the encoder's symbolic result: acceptance, count and bytes of the k-th point; {TYPES}; encoder and decoder pairs.",
                roundtrips),
    "C27": Prop("proof", "abstract interpretation of MIR; the decoding and encoding rules on reordered structs",
                "All decoding and encoding rules on 4 derived structs under the compiler's own representation, two of which it reorders or pads.",
                reordered),
    "C17": Prop("proof", "abstract interpretation of MIR; byte order of every decoded multi-byte value",
                f"Order of the source bytes of every multi-byte field for both byte orders; {TYPES}.",
                vec_walk("C17")),
}

PROPS.update({
    "C11": Prop("proof", "abstract interpretation of MIR; symbolic tables compared with the ROS definition",
                "Code, size, name and Rust type of every datatype variant, and acceptance of every code and name, both ways.",
                lambda t: [(c, "p_tables.tables", ()) for c in ("full", "core")]),
    "C12": Prop("proof", "abstract interpretation of MIR; byte provenance of stored and read primitive values",
                "Bytes of every primitive value through every way in and out of the point datum, for all bit patterns and both byte orders.",
                lambda t: [(c, "p_tables.prims", ()) for c in ("full", "core")]),
    "C13": Prop("proof", "abstract interpretation of MIR; declared layout against the compiler's layout, provenance of the generic fields",
                "Every entry of the 9 provided types' layouts against the compiler's offsets and sizes; generic field list in both directions.",
                lambda t: [(c, "p_tables." + f, (m,)) for c in ("full", "core") for m in NATIVE for f in ("layouts", "fields")]),
    "C14": Prop("proof", "abstract interpretation of MIR of the macro's expansions; declared layout against the compiler's layout",
                "Layout and generic field list of a family of derived types (every primitive, paddings, alignments, packed, renames, unrelated attributes). The macro itself is decided on this family, not for every struct.",
                lambda t: [(c, "p_tables." + f, (m,)) for c in ("full", "core") for m in DERIVED + MORE for f in ("layouts", "fields")] + [("full", "p_tables.fields", (m,)) for m in RUSTREPR]),
    "C16": Prop("proof", "abstract interpretation of MIR; provenance of every member of the converted message, allocation effects",
                "Every shared member in both directions for the three libraries; k-th field symbolic; no allocation as long as the data. The libraries' message types are stand-ins with the published members where the crate is not in the offline cache.",
                lambda t: [("full", "p_tables.rosmsg", (l,)) for l in ("jazzy", "r2r", "rosrust")]),
    "C18": Prop("proof", "abstract interpretation of MIR; bit provenance of the packed word",
                "Every operation of the packed colour against its byte positions, for all channel values.",
                lambda t: [(c, "p_tables.colour", ()) for c in ("full", "core")]),
    "C21": Prop("proof", "abstract interpretation of MIR with loop closed forms; acceptance condition compared in both directions",
                "Acceptance condition of the builder for any field list, sizes and buffer; every member of the built message; panic edges.",
                lambda t: [(c, "p_tables.builder", (b,)) for c in ("full", "core") for b in ("msg", "msg_rev")] + [(c, "p_tables." + f, ()) for c in ("full", "core") for f in ("dims", "build_defaults")]),
    "C22": Prop("proof", "abstract interpretation of MIR; provenance of every member and coordinate",
                "Every constructor argument, coordinate conversion and colour getter of the 9 provided types.",
                lambda t: [(c, "p_tables.ctor", (m,)) for c in ("full", "core") for m in NATIVE] + [(c, "p_tables.geometry", ()) for c in ("full", "core")]),
})

PROPS.update({
    "C19": Prop("proof", "type query (Send and Sync of every member of a declared type) and effect analysis of MIR (writes through shared pointers)",
                f"Every hand-written Send or Sync impl of the crate against the members of the type, in the impl's own parameter environment; no write to the shared buffer in any step of either part of a split iterator; {TYPES}.",
                lambda t: [(c, "p_share.declared", ()) for c in ("full", "core", "serde")] + [("full", "p_share.shared_writes", (m, depth(t))) for m in ORDER]),
})

PROPS.update({
    "C20": Prop("proof", "type-level witness: the compiler resolves every path against a sysroot that has core and alloc and no std",
                "Every path of the library in the feature sets that do not ask for std (none, derive, nalgebra, both), and of the macro's expansions for the family of derived structs. Features whose dependencies need std (serde, rayon, the ROS libraries) are outside.",
                lambda t: [(None, "p_build.no_std", ())]),
})

PROPS.update({
    "C15": Prop("other", "compile-fail witnesses, each with a compiling counterpart that differs in the rejected part only",
                "41 unsupported field types (other primitives, compounds, the packed colour under four names, own types that implement every conversion) in first, middle and last position, and 12 kinds of items. A finite family: every program outside it is not decided.",
                lambda t: [("full", "p_build.rejections", ())]),
})

PROPS.update({
    "C30": Prop("proof", "abstract interpretation of MIR; acceptance conditions and byte provenance of two conversions compared on one symbolic message",
                "Acceptance, number of points and every byte of the k-th point of the vector conversion against the iterator, for any message, repeated names and foreign datatypes included; 8 point types of one to three fields (quick), 12 with the four-field ones (thorough).",
                lambda t: [(c, "p_agree.agree", (m,)) for c in ("full", "core") for m in AGREE + (["xyzi", "xyzrgb", "d_renamed", "r_order"] if t == "thorough" and c == "full" else [])]),
})

PROPS.update({
    "C31": Prop("proof", "abstract interpretation of MIR; condition of every returned error against the absence of its cause",
                f"Every error of the vector and iterator conversions, of the three encoders and of the message builder, for any message, list of points and description; {TYPES}.",
                (lambda t: [(c, "p_agree.causes", (m,)) for c, ms in (("full", ORDER), ("core", ORDER if t == "thorough" else SOME)) for m in ms]
                         + [(c, "p_agree.encode_causes", (m, e)) for c, ms in (("full", ORDER), ("core", SOME)) for m in ms for e in (ENCS if c == "full" else ENCS[:2])]
                         + [(c, "p_tables.builder_causes", ("msg",)) for c in ("full", "core")]),),
})

NOT_APPLICABLE = {
    "C28": "Running time and memory bandwidth are measured quantities of a machine; no static argument in reach bounds them.",
    "C29": "What other ROS nodes make of a message is decided by code outside this repository and by a ROS installation that is not here.",
}
