LATTICE = ("Exhaustive over the stated finite alphabets and over all 73 type instances; complete for 16-bit storage where "
           "stated. Trusts the reference model (schoolbook big integers, self-tested) and that values outside the "
           "alphabets behave like their class.")
PAIRS = "all register pairs of a boundary alphabet, plus closure of the 16-bit register machine and all bounded operation sequences"
ES = "explicit-state enumeration of the real operation against an exact reference model: "
CHECKS = {
    "C01": (ES + PAIRS, LATTICE),
    "C02": (ES + PAIRS, LATTICE),
    "C03": (ES + PAIRS, LATTICE),
    "C04": (ES + PAIRS, LATTICE),
    "C05": (ES + PAIRS, LATTICE),
    "C06": (ES + "all 16-bit values, all values in windows around every root boundary, plus bounded operation sequences", LATTICE),
    "C07": (ES + "all 16-bit values, windows around every boundary, plus bounded operation sequences", LATTICE),
    "C08": (ES + PAIRS, LATTICE),
    "C09": (ES + PAIRS, LATTICE),
    "C10": (ES + "all 16-bit values, boundary values of all widths, through printing and both parsers", LATTICE),
    "C11": (ES + "all strings up to a length over the grammar's alphabet, and all decimal strings built from boundary values", LATTICE),
    "C12": (ES + "all mantissas of a boundary alphabet x all exponents x all limits", LATTICE),
    "C13": (ES + "all 8/16-bit source values and boundary alphabets of twelve integer types x all target types", LATTICE),
    "C14": (ES + "all exponents x mantissa families, runs of consecutive floats around every boundary, short decimals", LATTICE),
    "C15": (ES + "all 16-bit values, runs of consecutive numbers around every boundary, whole x fraction products, and the way back", LATTICE),
    "C16": (ES + "all numbers of the alphabets and all single input tokens of the serde data model, plus documents of real formats against the same documents of plain Rust types",
            "Exhaustive over the stated numbers, tokens, texts and document shapes. Trusts serde, the format libraries on plain types, and the direct conversions (C11, C13-C15)."),
    "C17": (ES + "all numbers of the alphabets, all single tokens, and all short byte strings and truncations, against the raw integer type in the same place",
            "Exhaustive over the stated numbers, tokens and byte strings. Trusts serde, bincode and ciborium on plain integers."),
    "C18": (ES + "all numbers of the alphabets and all short byte strings and truncations, fixed and compact, against two's complement and the unsigned integer's codec",
            "Exhaustive over the stated numbers and byte strings; complete for 16-bit numbers. Trusts parity-scale-codec on unsigned integers."),
    "C19": ("explicit-state enumeration of programs: every literal text x target type x position x build of the stated sets is "
            "compiled by the real compiler with the real macros and run, verdict and value compared with exact parsing",
            "Exhaustive over the stated literal texts and all 73 types; positions are rotated over the texts in the quick tier. "
            "Trusts the reference parser and that rustc evaluates constants correctly."),
    "C20": (ES + "macro-generated operations over wrappers of every storage width and every narrower operand, all pairs of boundary alphabets", LATTICE),
    "C21": ("explicit-state enumeration of (operation, operands) states on the real code in sixteen build configurations linked into one binary, results compared across builds",
            "Exhaustive over the stated alphabets, complete for 16-bit unary operations, for 13 types and the 16 configurations. The configurations are aliases of the "
            "same sources with other cargo features and profile flags; target architectures other than the host's are not covered."),
    "C22": ("stateless model checking of the real code: all operation sequences up to a depth replayed against fresh results, and a "
            "controlled scheduler that preempts every operation at every machine instruction to run every other operation",
            "Exhaustive over the operation sequences and over all single preemption points of the operations listed; interleavings "
            "with two or more preemptions and weak memory effects are not explored."),
    "C24": ("exhaustive enumeration of compiler executions: programs with one use of one type (storage width x precision up to 64 x use x build), compiled by the real compiler against the real crate and run if accepted; all pairs of types x traits by the compiler's trait resolution",
            "Exhaustive over the stated types and uses (one operand set each; values are the business of the other checks); the quick tier takes every use in one of two profiles. Trusts rustc."),
    "C25": ("exhaustive enumeration of the feature lattice: all 512 feature sets of the real crate compiled by cargo with a crate using the whole interface; sets without std under a sysroot without std",
            "Exhaustive over the feature sets, with one compiler version and one target; the quick tier type-checks, the thorough tier also generates code. What the builds compute is compared by C21."),
    "C26": ("exhaustive enumeration of bounded calls and concurrent pairs of calls on the real code, every machine step monitored by an interpreter that detects undefined behaviour and data races; every result replayed on the compiled program",
            "Exhaustive over the stated operands, texts, byte strings and pairs of concurrent calls for 16 types in two feature sets (release profile; thorough: also debug). Trusts Miri's model of Rust; "
            "only races are found independently of the schedule, other effects on the schedules executed."),
    "C27": ("exhaustive enumeration of bounded calls on the real code as compiled for a 32-bit and for a big-endian target, executed by an interpreter, every result compared with the host's",
            "Exhaustive over the stated operands for 16 types in two feature sets; targets i686 and s390x (thorough: also powerpc and aarch64). Trusts Miri to execute foreign targets faithfully."),
    "C28": ("exhaustive enumeration of compiler executions: every context of a bounded space (name x kind of definition, method of a trait, own macro, placement x edition x lints) around a fixed program using all macros, compiled by the real compiler against the real macros and run; the same context without the macros decides whether it counts",
            "Exhaustive over the stated names, kinds and placements, one deviation from the plain context at a time; the program's operands are fixed, as values are the business of C19 and C20. Trusts rustc."),
    "C29": ("explicit-state enumeration on the real code: every operation on every operand of boundary alphabets, all pairs, exponents, floats, and long texts of bounded shapes, "
            "executed with a counter at every edge between basic blocks and stopped when the bound on the length of the execution is exceeded",
            "Exhaustive over the stated operands and texts of up to 2^16 repetitions (thorough 2^18), one optimised build. The constants (50,000 blocks, 200 per byte) are ours, about ten times what "
            "the current code needs; precompiled functions of the standard library are not counted."),
    "C23": (ES + "all pairs of a boundary alphabet for order, equality and hash; every constant of every type", LATTICE),
}
NOT_APPLICABLE = {}
