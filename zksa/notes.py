"""What each check decides, how, and within which bounds (used by check.py and tools/manifest.py)."""

VALUES = "values of secrets, randomness, challenges, points and everything an adversary sends are symbolic, hence arbitrary"
SHAPES = ("statement shapes are an enumerated family: all kinds of leaves and connectives, operators and constructors, nesting up to seven levels, "
          "up to twelve parts, generated trees, the four library primitives and primitives written by users")
TRUST = ("trusts the model of Python, petlib, bplib and hashlib in zksa/interp.py and zksa/externs.py; hashes and encodings are taken as injective, "
         "distinct names of points as independent")

TECHNIQUE = {
    "C01": "abstract interpretation of prover and verifier code into gated value terms; acceptance condition normalised to true (value numbering)",
    "C02": "abstract interpretation of the verifier on an arbitrary proof; every accepting path must imply each verification condition",
    "C03": "abstract interpretation: inputs flowing into the challenge hash, and injectivity of that flow in each ingredient",
    "C04": "abstract interpretation of statement pairs; comparison of the identity terms (value numbering)",
    "C05": "abstract interpretation of the verifier on an arbitrary proof; accepting paths must imply equality of the responses of recurring secrets",
    "C06": "abstract interpretation of the verifier on an arbitrary proof; accepting paths must imply range and sum of subchallenges",
    "C07": "dataflow of random draws into transcripts: distribution classes of real and simulated parts compared over all choices of the prover",
    "C08": "information flow from secret values to outputs, with affine-space reasoning for masking by fresh randomness",
    "C09": "dataflow of random draws (freshness, range, independence by rank of the affine map) and an effect analysis of sources of randomness",
    "C10": "path analysis of composition checks: no path of prover or verifier passes an unsupported statement",
    "C11": "must-pass-through analysis: accepting paths must imply the validation condition of each part",
    "C12": "abstract interpretation of the inequality proof; algebraic normal form of its internal equations",
    "C13": "abstract interpretation of range proofs for enumerated sizes and limits; algebraic normal form of bit equations",
    "C14": "abstract interpretation of BBS+ over pairing terms (bilinear normal form)",
    "C15": "abstract interpretation of the wrappers against additive-group terms; alias and effect analysis of operands",
    "C16": "abstract interpretation of encoders and decoders: composition normalised to the identity, distinctness of codes",
    "C17": "alias and effect analysis: abstract heaps before and after operations compared, histories of operations interpreted",
    "C18": "abstract interpretation of simulators and of the verification of what they return",
    "C19": "abstract interpretation of prover construction over all combinations of known and unknown secrets",
    "C20": "lints on names, raise statements and handlers (symbol tables, call graph of raises) and path analysis of refusals",
    "C21": "abstract interpretation of helper functions against their documented terms, for symbolic and arbitrary-length inputs",
}

NOTE = {
    "C01": VALUES + "; a single representation is handled for arbitrary length, otherwise " + SHAPES,
    "C02": VALUES + "; " + SHAPES,
    "C03": VALUES + "; " + SHAPES + "; petlib.pack and str() of points are taken as injective",
    "C04": "pairs of statements that differ in one respect, and pairs built independently, are enumerated; values are symbolic; no claim on collisions of the hash or of str()",
    "C05": VALUES + "; " + SHAPES,
    "C06": VALUES + "; " + SHAPES,
    "C07": "decides equality of shape, placement and distribution class (uniform over which range, masked by which draw) of the leaves of transcripts, for " + SHAPES + "; statistical distance is not computed",
    "C08": "perfect masking by affine independence of the draws, modulo the group order; public functions of the statement are allowed; " + SHAPES,
    "C09": "every draw of the analysed runs and every reference to a source of randomness in the source text; the quality of the library's generator is trusted",
    "C10": "enumerated unsupported shapes (including primitives with inner statements) and the family of supported ones; " + VALUES,
    "C11": VALUES + "; " + SHAPES,
    "C12": VALUES + "; the algebraic implication is decided over a field, i.e. for groups of prime order",
    "C13": "numbers of bits up to the enumerated bounds and enumerated limits; values are symbolic where the code does not need their bits",
    "C14": VALUES + "; numbers of messages enumerated; the signature scheme's unforgeability is not in scope",
    "C15": VALUES + "; the wrapped library's arithmetic is trusted",
    "C16": VALUES + "; nested shapes of responses enumerated; petlib.pack and msgpack round trips are trusted",
    "C17": "enumerated histories of up to several operations on enumerated statements; values symbolic",
    "C18": VALUES + "; " + SHAPES,
    "C19": "all combinations of known, given and missing values on enumerated statements, all choices of the prover",
    "C20": "handlers, raises and names: the whole source; refusals: enumerated wrong inputs and unfinished specifications",
    "C21": "symbolic inputs; sequences of arbitrary or enumerated length",
}


def note(prop):
    return NOTE[prop] + "; " + TRUST


def explanation(prop):
    return ("Obligations decided from the source of /repo without running it, by %s. Scope: %s." % (TECHNIQUE[prop], note(prop)))
