"""What each check runs: binaries, builds and fixed case counts."""


def part(bin, build, quick, thorough=None, **kw):
    p = {"bin": bin, "build": build, "quick": quick, **kw}
    if thorough is not None:
        p["thorough"] = thorough
    return p


def prop(technique, note, *parts, **kw):
    return {"technique": technique, "note": note, "parts": list(parts), **kw}


def usual(b, quick=160_000, thorough=4_000_000, release=4_000_000, guide=True):
    return [part(b, "checked", quick, 0), part(b, "fast", 0, thorough), part(b, "release", 0, release), guided(b, thorough=900 * guide)]


def guided(b, quick=0, thorough=900):
    """Guided by coverage for that many seconds."""
    return part(b, "guided", 10**8, 10**8, seconds={"quick": quick, "thorough": thorough})


def miri(b, seconds=40, thorough=1500):
    """As many cases as are done in that many seconds: how many is all that depends on the machine."""
    return part(b, "miri", 100_000, 100_000, seconds={"quick": seconds, "thorough": thorough})


SEARCH = ("Random search over generated cases with shrinking: what is not generated is not covered. "
          "Built with overflow and debug checks on, so that arithmetic slips and violated unsafe preconditions count too. ")

PROPS = {
    "C01": prop("property-based testing against an association-list model",
                SEARCH + "Trusts the reference model, and that keys hash and compare consistently. A few cases hold more entries than the "
                "analyzers' table of prime sizes reaches.", part("c01", "fast", 360_000, 6_000_000), *usual("c01", 0, 0), part("c01g", "checked", 8, 64)),
    "C02": prop("property-based testing against a list model",
                SEARCH + "Trusts the reference model, and that values hash and compare consistently.", part("c02", "fast", 480_000, 6_000_000), *usual("c02", 0, 0)),
    "C03": prop("property-based testing against an association-list model",
                SEARCH + "Every specialized map type, capacity type, integer width and several string-like keys.", *usual("c03")),
    "C04": prop("property-based testing against a list model",
                SEARCH + "Every specialized set type, capacity type, integer width and several string-like keys.", *usual("c04")),
    "C05": prop("property-based testing of traversal scripts against a sequence model",
                SEARCH + "The order is taken from one traversal and demanded of every other.", *usual("c05")),
    "C06": prop("property-based testing of traversal scripts against a sequence model",
                SEARCH + "Combinations cover every pair of set types, the standard sets included.", *usual("c06")),
    "C07": prop("property-based testing against BTreeSet algebra",
                SEARCH + "Operands are wrapped so that any pair of set types can meet; the operation's code is generic in them.", *usual("c07")),
    "C08": prop("property-based testing against BTreeSet predicates",
                SEARCH + "Operands are wrapped so that any pair of set types can meet; the operation's code is generic in them.", *usual("c08")),
    "C09": prop("property-based testing against BTreeMap/BTreeSet equality",
                SEARCH + "Pairs differ in order, hasher, slice range and by single values or keys.", *usual("c09")),
    "C10": prop("property-based testing against a model, with inconsistent keys injected",
                SEARCH + "References are compared by address with the addresses of the map's own values; the same cases also run under Miri.", *usual("c10"), miri("c10", 30)),
    "C11": prop("stateful (model-based) testing of operation histories",
                SEARCH + "Every map alive is compared with its model after every step.", *usual("c11", 80_000, 1_000_000, 2_000_000)),
    "C12": prop("property-based testing with fault injection and ownership accounting",
                SEARCH + "Every token is accounted for by serial number, every byte by a counting allocator; faults are panics in hashing, "
                "equality, length and cloning code; the same cases also run under AddressSanitizer.",
                part("c12", "checked", 120_000, 2_000_000), part("c12", "asan", 16_000, 400_000), miri("c12", 0)),
    "C13": prop("property-based testing with lying keys and hashers, under AddressSanitizer",
                SEARCH + "Hash, equality, length, ordering and conversion answers are drawn per call; references handed out are compared "
                "by address with the collection's own entries; the same cases also run under AddressSanitizer, and some under Miri.",
                part("c13", "checked", 120_000, 2_000_000), part("c13", "asan", 16_000, 400_000), miri("c13")),
    "C14": prop("property-based testing of generated programs",
                "Random search over macro invocations, compiled with rustc, run, and compared with the pairs written in them; a failure "
                "is minimised by leaving out entries. Many more invocations are expanded in the harness's process and the map the expansion "
                "names is built there, where the expansion has the known form. What is not generated is not covered.",
                part("c14", "checked", 48_000, 1_000_000), extra=["macros"]),
    "C15": prop("property-based testing against a multimap model",
                SEARCH + "Any of the values supplied for a key may be the one found; all reads must find the same.", *usual("c15")),
    "C16": prop("property-based testing of acceptance at the limits",
                SEARCH + "Payload sizes cluster at the capacity limits; whatever is accepted must also be read back.",
                part("c16", "checked", 120_000, 1_500_000), part("c16", "unchecked", 60_000, 1_500_000)),
    "C17": prop("property-based testing with a counting allocator",
                SEARCH + "Bytes retained are compared with the documented budget; keys include ones that collide at every table size.",
                *usual("c17", 60_000, 1_000_000, 2_000_000)),
    "C18": prop("property-based testing with comparison counting",
                SEARCH + "Keys count how often they are compared; means are taken over several hashers where keys are few. "
                "For strings in the frozen collections, keys hashed alike are counted instead.",
                *usual("c18", 24_000, 400_000, 800_000, False)),
    "C19": prop("property-based testing against independently counted elements",
                SEARCH + "Every implementation of the trait, behind every pointer type.", *usual("c19", 80_000, 1_000_000, 2_000_000)),
    "C20": prop("metamorphic property-based testing of slice hashes",
                SEARCH + "What reaches the hasher is recorded.", *usual("c20", 240_000, 3_000_000, 6_000_000)),
    "C21": prop("property-based testing of concurrent readers, under ThreadSanitizer",
                SEARCH + "Several threads read one collection at the same time and each answer is compared with the single-threaded model; "
                "the same cases run under ThreadSanitizer; whether types may be sent and shared is looked up for every collection type over "
                "keys, values and hashers of every kind.",
                part("c21", "checked", 64_000, 1_000_000), part("c21", "tsan", 24_000, 300_000)),
    "C22": prop("property-based testing with a counting allocator and counting keys",
                SEARCH + "Each read is measured by itself; where the harness boxes iterators, a small constant is allowed for that.",
                *usual("c22", 80_000, 1_000_000, 2_000_000)),
    "C23": prop("metamorphic property-based testing: built twice, and every hasher consulted recorded",
                SEARCH + "Keys note the type of hasher they are given, hashers their seed.", *usual("c23", 80_000, 1_000_000, 2_000_000)),
    "C24": prop("property-based testing with counting keys, a counting allocator and the processor-time clock",
                SEARCH + "Hashings, comparisons, the peak of memory held and the processor time of each building are measured.",
                *usual("c24", 32_000, 500_000, 1_000_000, False)),
    "C25": prop("stateful (model-based) testing of operation histories with fault injection",
                SEARCH + "Keys and values panic at a chosen call; after each operation the collection is gone over, and keys are looked up.",
                *usual("c25", 120_000, 2_000_000, 4_000_000)),
    "C26": prop("property-based testing of generated programs that must not compile",
                "Random search over macro invocations spoiled in one place; whether what results must be refused is decided by rustc, from the same "
                "list of pairs written without the macro. A failure is minimised by leaving out entries. What is not generated is not covered.",
                extra=["refusals"]),
    "C27": prop("property-based testing of generated programs over the types collections hold",
                "Random search over combinations of collection, key type, value type, hasher, size and operations, compiled with rustc, run, and compared "
                "with what was put in. A failure is minimised by leaving out operations and entries and taking plainer types. What is not generated is not covered.",
                extra=["generality"]),
    "C28": prop("property-based testing of large payloads with the processor-time clock",
                SEARCH + "Batches of reads and whole traversals of collections of 100 000 to 250 000 entries are timed; the best of several attempts counts.",
                *usual("c28", 400, 6_000, 6_000, False)),
}
