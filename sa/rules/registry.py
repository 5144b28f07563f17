"""property id -> (rule, what it does, assumptions)"""
from . import arith, forms, hygiene, jwe, jws, kernels, keys, keyset, recognise, seal, wrap

COMMON = (
    "keys handed in by the caller are jwkest key objects",
    "the standard library, pycryptodomex, cryptography, requests and six "
    "behave as documented",
)
RULES = {}


def rule(pid, fn, what, *more):
    RULES[pid] = (fn, what, COMMON + more)


def c01(W, rep):
    for entry in ("verify_compact", "verify_compact_verbose"):
        for text, opt in jws.compact_variants(rep.tier):
            jws.c01_compact(W, rep, entry, text, opt)
    jws.c01_json(W, rep)


def c04(W, rep):
    jws.c04_verify(W, rep)
    jws.c04_sign(W, rep)
    jws.c04_json(W, rep)


rule("C01", c01,
     "on every normal exit of the verification entry points the path must "
     "contain a successful call of a signature primitive whose message, "
     "signature and key are terms derived from the received token and the "
     "candidate keys, and the returned payload must be the payload segment "
     "of that same message.")
rule("C02", jws.c02,
     "no normal exit of a verification entry point is reachable with an "
     "unsigned header unless the path assumed allow_none true.")
rule("C03", jws.c03,
     "with the expected algorithm given, no normal exit is reachable on "
     "which the protected header names another algorithm.")
rule("C04", c04,
     "the key passed to a signature primitive satisfies, on every path, the "
     "type, key id, algorithm and (signing) use conditions.")
rule("C05", jws.c05,
     "the class of the primitive called equals the one registered for the "
     "header's algorithm, and its operands are the received text.")
rule("C06", jws.c06,
     "every key passed to a primitive is an element of the caller's "
     "collection, and no fetch is reachable, when one was given.")
rule("C07", kernels.c07,
     "every exit of a primitive's verify that reports success must have the "
     "standard's acceptance condition among its path conditions.")
rule("C08", kernels.c08_sign,
     "the value each primitive's sign returns must be the standard's term.")
rule("C09", jws.c09,
     "the emitted token is compared, part by part, with what was signed.")
rule("C10", jwe.c10,
     "on every normal exit of JWE decryption, specialised to each pair of "
     "algorithms, the path must contain the equality of the received tag "
     "with the standard's tag term over the received parts.")
def c16(W, rep):
    jwe.c16(W, rep)
    seal.c16_encrypt(W, rep)


def c29(W, rep):
    jwe.c29(W, rep)
    wrap.kdf(W, rep)


def c14(W, rep):
    hygiene.c14(W, rep)
    hygiene.c14_headers(W, rep)


rule("C11", seal.c11,
     "the key, IV, ephemeral key, private scalar and nonce terms must be "
     "results of calls of the random source made on that path, of the right "
     "size.")
rule("C13", seal.c13,
     "each emitted token is taken apart into its five parts, whose terms "
     "must be the ones the two algorithms prescribe over one another.")
rule("C16", c16,
     "every key that reaches a content cipher must have a length the path "
     "conditions pin to the one of the enc algorithm.")
def c20(W, rep):
    jwe.c20(W, rep)
    arith.element(W, rep)


rule("C20", c20,
     "every shared secret is dominated by the curve equation for the peer's "
     "point and by equality of the two keys' curves.")
rule("C26", jwe.c26,
     "exceptions of failing key operations are followed through the handlers "
     "of the search loop: they must neither leave it nor end it.")
rule("C28", wrap.c28,
     "the wrap and unwrap loops are unrolled for each length; the resulting "
     "terms must be those of RFC 3394, and every normal exit of unwrap must "
     "have passed the comparison of the integrity register.")
rule("C29", c29,
     "the term of the content encryption key and of the plaintext must be "
     "the one the two header algorithms prescribe.")
def c30(W, rep):
    jwe.c30(W, rep)
    seal.c30_encrypt(W, rep)


rule("C30", c30,
     "every key passed to a key-recovery primitive, and the key in the "
     "encrypted key term of every emitted token, satisfies, on every path, "
     "the type, use and algorithm conditions and stems from the caller.")
rule("C14", c14,
     "no term that reaches a log call, an exception's arguments or a header "
     "parameter contains a secret.")
rule("C18", hygiene.c18,
     "no store of any function goes to an object that exists after module "
     "loading, a class, a default value or (for the operations) an argument.")
rule("C15", keys.c15,
     "the members serialize returns without private=True, and those of "
     "make_public_copy, are public ones made of public attributes.")
rule("C23", keys.c23,
     "every path that makes a key of x5c takes the first certificate and, if "
     "x5t is given, has found it equal to the certificate's SHA-1 digest.")
rule("C24", keys.c24,
     "the text hashed is taken apart into its JSON members, which must be "
     "those of RFC 7638 in order; every path on which == is true has "
     "compared them.")
rule("C27", keys.c27,
     "keyrep, the constructors and serialize are run on symbolic members; "
     "each attribute and each exported member must stem from its own one.")
rule("C31", arith.c31,
     "point formulas are compared with the group law as rational functions "
     "under the case the path established; scalar multiplications are "
     "unrolled for fixed scalars and symbolic points and read as a multiple; "
     "the extended Euclidean loop must keep x a + y b = g.")
def c32(W, rep):
    arith.c32(W, rep)
    seal.gcm_kernel(W, rep, tag_only=True)


rule("C32", c32,
     "the field product is computed bit by bit on symbolic operands; GHASH "
     "is unrolled for fixed lengths and its term must be the sum of the "
     "blocks multiplied by the right powers of the hash key.")
rule("C33", keyset.c33,
     "lookups are run on sets of a fixed number of keys with unknown ids; "
     "the keys on each exit must be those whose ids the path found equal.")
rule("C34", recognise.c34,
     "every exit on which a token is taken for a JWS or JWE must have found "
     "the members or the algorithms of one.")
rule("C35", recognise.c35,
     "the result for each algorithm is taken apart: base64url of the left "
     "half of the digest of the message.")
rule("C12", forms.c12,
     "every name used in the package and the scripts is resolved through the "
     "imports; none may be of a generator not meant for cryptography.")
rule("C17", forms.c17,
     "the conditions of every normal exit must contain the number of parts; "
     "the regular expression of the decoder is parsed, and its language must "
     "be within the base64url alphabet.")
rule("C21", forms.c21,
     "the arguments of every HTTP request, and the conditions on every path "
     "on which a key is made of its reply.")
rule("C22", forms.c22,
     "the conditions of every normal exit must contain the absence of crit "
     "in the protected header, and in the header member of a JSON entry.")
rule("C25", forms.c25,
     "the comparison found by C07 and C10 on each accepting path must be one "
     "that looks at every byte.")
