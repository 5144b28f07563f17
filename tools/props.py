"""the properties, as data"""
AI = "abstract interpretation (path-sensitive provenance of values)"
JWS = "src/jwkest/jws.py"
JWE = "src/jwkest/jwe.py"
JWK = "src/jwkest/jwk.py"
JWT = "src/jwkest/jwt.py"
INIT = "src/jwkest/__init__.py"
ECC = "src/jwkest/ecc.py"
EXTRA = "src/jwkest/extra.py"
WRAP = "src/jwkest/aes_key_wrap.py"
GCM = "src/jwkest/aes_gcm.py"
ELL = "src/jwkest/elliptic.py"
PBK = "src/jwkest/PBKDF2.py"
TRUST = ("Trusts the analyser's model of Python and of the libraries used "
         "(Cryptodome, json, base64, requests), and that keys handed in are "
         "jwkest key objects; every normal exit of the entry points is "
         "covered, with asserts on and off. ")

PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, quant, why, files, mech, technique=None, note="",
      over=("inputs",)):
    PROPS.append(dict(id=id, title=title, statement=statement, quant=quant,
                      why=why, files=files, mech=mech,
                      technique=technique or AI, note=TRUST + note,
                      over=list(over)))


def NA(id, title, statement, quant, why, files, mech, reason,
       over=("inputs",)):
    NOT_APPLICABLE.append(dict(
        id=id, title=title, statement=statement, quant=quant, why=why,
        files=files, mech=mech, reason=reason, over=list(over)))


P("C01", "A JWS payload is released only after its signature was verified",
  "Whenever verifying a compact or JSON-serialized JWS returns normally, a "
  "signature check over exactly the received protected header and payload "
  "text succeeded under the key that is reported, and what is returned or "
  "left on the verifier object is that payload; for the JSON serialization "
  "this holds for every signature entry and at least one exists. The only "
  "exception is an unsigned token the caller explicitly allowed.",
  "all tokens, all key collections, all argument combinations, with Python "
  "assertions on or off",
  "Tests verify a few good tokens and a few tampered ones; a path that skips "
  "or mis-targets the check needs a token shape nobody wrote down.",
  [JWS, JWT], [("JWS.verify_compact_verbose", JWS), ("JWS.verify_json", JWS),
               ("JWT.unpack", JWT)],
  note="Decides release-after-verify, what bytes the check covers, the "
       "provenance of the payload and of the reported key; what the "
       "signature primitives accept is C07.")
P("C02", "Unsigned tokens are accepted only when the caller allows them",
  "A JWS whose algorithm is absent, null or any spelling of none is never "
  "accepted unless the caller passed allow_none as true, and by default it "
  "is refused. A token naming any other algorithm is never treated as "
  "unsigned, allow_none or not.",
  "all tokens and argument combinations of the three verification calls",
  "Tests try one or two spellings; the guarantee is about every header value "
  "and every caller that does not opt in.",
  [JWS], [("allow_none", JWS)],
  note="Analysed per algorithm value: the registered ones and spellings of "
       "none.")
P("C03", "The algorithm the caller expects is the only one accepted",
  "If the caller states an expected signature algorithm, as an argument of a "
  "verification call or when the verifier object is created, a signed token "
  "whose protected header names another algorithm is refused. This holds for "
  "compact tokens and for every entry of a JSON-serialized one.",
  "all tokens, all expected algorithms, all keys",
  "Tests try one mismatching pair; substitution attacks choose the pair.",
  [JWS], [("sigalg", JWS), ("JWx._dict['alg']", JWS)],
  note="Scope: signed tokens (unsigned ones are C02).")
P("C04", "Keys are used only for what their type, id, algorithm and use allow",
  "A key is used to sign or verify a JWS only if its type is the one the "
  "algorithm needs, its key id equals the one the caller or the protected "
  "header asks for, and it is not reserved for a different algorithm; when "
  "signing it must not be reserved for another use either. No suitable key "
  "means an error, never another key.",
  "all key collections, tokens and algorithms",
  "Tests sample matching keys; key confusion needs the combination of a "
  "non-matching key and a token that points at it.",
  [JWS], [("JWx.pick_keys", JWS), ("JWS.alg_keys", JWS),
          ("alg2keytype", JWS)],
  note="Key use is decided for signing only: the code does not filter on use "
       "when verifying.")
P("C05", "The primitive that checks a signature is the one the header names",
  "A token is checked with exactly the algorithm its protected header names, "
  "over exactly the received header and payload text and the decoded "
  "received signature; an unregistered algorithm name is refused.",
  "all tokens and algorithm names",
  "Tests verify tokens made by the library itself, which agree with "
  "whatever table the library has.",
  [JWS], [("SIGNER_ALGS", JWS), ("JWS.verify_compact_verbose", JWS)])
P("C06", "Only keys the caller supplied are trusted",
  "When the caller gives a non-empty collection of keys, every signature is "
  "checked with a key out of that collection and nothing is fetched. A "
  "compact token never contributes a key or the place to get one; a JSON "
  "object may only when the caller passes no collection of keys at all.",
  "all tokens including those that embed jwk, jku, x5u or x5c",
  "Tests do not embed hostile keys; an attacker does.",
  [JWS, JWK], [("JWx._get_keys", JWS), ("JWS.verify_json", JWS)],
  note="The documented fallback of verify_json(token) without keys (an "
       "existing test relies on it) is outside the property.")
P("C07", "Signature primitives fail closed",
  "Each signature primitive reports success only on a path that has "
  "established the standard's acceptance condition for its algorithm: MAC "
  "equality over the whole tag, RSASSA-PKCS1-v1_5 or PSS verification, or "
  "the complete ECDSA check (two field elements of exactly the right width, "
  "both in range, and the verification equation). Every other path reports "
  "failure.",
  "all messages, signatures of any length and content, and keys",
  "A test can show that some bad signatures are refused, not that all are.",
  [JWS, ECC, INIT],
  [("HMACSigner.verify", JWS), ("RSASigner.verify", JWS),
   ("PSSSigner.verify", JWS), ("DSASigner.verify", JWS),
   ("NISTEllipticCurve.verify", ECC), ("constant_time_compare", INIT)],
  note="The big-integer point arithmetic itself (elliptic.py) is trusted: "
       "the rule decides which equation is evaluated on which operands.")
P("C08", "Algorithm identifiers denote what RFC 7518 says they denote",
  "Every registered JWS algorithm produces and checks the signature that RFC "
  "7518 defines for its name: the right family, hash, curve and fixed "
  "width encoding, over exactly the message given; and the JWE and curve "
  "tables agree with the standards' key lengths, hashes and constants.",
  "all registered algorithm names",
  "The library's own sign and verify share the tables, so round-trip tests "
  "cannot see a wrong entry.",
  [JWS, ECC, "src/jwkest/curves.py", JWE],
  [("SIGNER_ALGS", JWS), ("curves.DOMAINS", "src/jwkest/curves.py")],
  technique="abstract interpretation of each registered primitive, compared "
            "with the standard's definition; constant tables evaluated "
            "abstractly",
  note="The expected tables are transcribed from RFC 7518 and FIPS 186.")
P("C09", "Emitted JWSs say truthfully how they were signed",
  "A token produced by signing names, in its protected header, the algorithm "
  "actually used, carries the message as payload and a signature over "
  "exactly the emitted header and payload by that algorithm's primitive; if "
  "a key id derived from the key is emitted it is that of the signing key. "
  "An algorithm other than none never yields an unsigned token.",
  "all messages, keys, headers and algorithms; compact and JSON output",
  "Round-trip tests cannot tell a header that is merely consistent with the "
  "verifier from one that is truthful for every algorithm.",
  [JWS, JWT], [("JWS.sign_compact", JWS), ("JWS.sign_json", JWS),
               ("JWT.pack", JWT)])
P("C10", "JWE plaintext is released only after authentication",
  "Whenever decrypting a JWE returns normally, the authentication tag of the "
  "received token was recomputed under the content encryption key, over the "
  "received protected header text, initialization vector and ciphertext, and "
  "found equal (in full length) to the received tag; and what is returned is "
  "the decryption of that same ciphertext under that same key.",
  "all tokens, all key collections, all combinations of key management and "
  "content encryption algorithms, with assertions on or off",
  "Tests flip a few bits of a few tokens; a truncated comparison or an "
  "uncovered part needs a forgery nobody wrote down.",
  [JWE, EXTRA, GCM], [("JWEnc.decrypt", JWE), ("JWE.decrypt", JWE),
                      ("AES_GCM.decrypt", GCM)],
  note="The tag is matched structurally (HMAC-SHA2 over AAD, IV, ciphertext "
       "and length; GHASH/CTR for GCM); the GF(2^128) product itself is "
       "trusted.")
P("C16", "Content encryption keys have the size their algorithm demands",
  "A JWE is only decrypted, and only produced, with a content encryption key "
  "of exactly the length its enc algorithm is defined for (split half and "
  "half into MAC and encryption key for AES-CBC-HMAC).",
  "all tokens, all keys and key management algorithms",
  "A wrong-sized key still round-trips, so tests that encrypt and decrypt "
  "with the same library cannot see it.",
  [JWE], [("JWEnc.decrypt", JWE), ("JWEnc._generate_key_and_iv", JWE)])
P("C20", "Key agreement accepts only peer points on the recipient's curve",
  "The ECDH shared secret is computed only from a peer point that was found "
  "to satisfy the curve equation, on the curve of the recipient's own key, "
  "and is the product of that point and the recipient's private key; with "
  "direct agreement a token that also carries an encrypted key is refused.",
  "all tokens and EC keys, with assertions on or off",
  "An invalid-curve point is an input tests do not construct, and it leaks "
  "the private key without any visible failure.",
  [ECC, JWE, EXTRA], [("NISTEllipticCurve.dh_z", ECC),
                      ("JWE_EC.dec_setup", JWE),
                      ("ecdh_derive_key", EXTRA)])
P("C26", "Decryption tries every candidate key before giving up",
  "When decrypting with several candidate keys, a key that does not fit "
  "(wrong padding, failed unwrap, failed authentication) never ends the "
  "search: the remaining candidates are tried, the failure of a candidate "
  "is not what the caller sees, and the error for no fitting key is raised "
  "only after all candidates were tried.",
  "all tokens and key collections of any size and order, all algorithms",
  "Whether the search goes on depends on the order of the keys and on which "
  "exception each failing operation happens to end in.",
  [JWE], [("JWE.decrypt", JWE)])
P("C29", "JWE decryption uses exactly the algorithms the header names",
  "Decrypting a JWE normally means the key was recovered with the key "
  "management algorithm named by alg and the content decrypted with the one "
  "named by enc, both of the protected header, with the parameters RFC 7518 "
  "gives them (padding, hash, key derivation input); the algorithm the "
  "caller expects is the only one accepted; and an RSA1_5 padding failure "
  "is not distinguishable from a random key.",
  "all tokens, all keys, all combinations of alg and enc",
  "The library's own encrypt and decrypt share mistakes, and tests fix one "
  "header per key.",
  [JWE, EXTRA], [("JWE.decrypt", JWE), ("JWE_RSA.decrypt", JWE),
                 ("JWE_SYM.decrypt", JWE), ("JWE_EC.dec_setup", JWE)])
P("C30", "JWEs are sealed for and opened with fitting keys of the caller only",
  "Every key that reaches a key-recovery operation, and the key every "
  "emitted JWE is sealed for, is an element of the caller's collection when "
  "one was given, has the key type the algorithm requires, and is not "
  "restricted by its own use or alg to something else; when encrypting it "
  "has the key id the caller asked for.",
  "all tokens, key collections and argument combinations",
  "Needs key sets that mix types, uses and algorithms in adversarial ways.",
  [JWE, JWS, JWK], [("JWE.decrypt", JWE), ("JWx.pick_keys", JWS)])
P("C11", "Keys, IVs and nonces are fresh from the secure random source",
  "Unless the caller supplies them, every content encryption key, "
  "initialization vector and ephemeral ECDH key of a JWE, every generated EC "
  "private key and every ECDSA nonce is drawn by that very operation from a "
  "cryptographic random source, at full length or over the whole scalar "
  "range, and the generated public key belongs to the private key.",
  "all algorithm pairs, header parameters, keys and messages, on every path",
  "Reuse or a weak source needs the statistics of many runs to be seen; a "
  "test sees tokens that decrypt and signatures that verify.",
  [JWE, ECC, JWK, JWS],
  [("JWe._generate_key_and_iv", JWE), ("JWE_EC.enc_setup", JWE),
   ("NISTEllipticCurve.key_pair", ECC),
   ("NISTEllipticCurve._sign_loop", ECC)],
  note="Freshness means: the value is the result of a call of the random "
       "source at a program point executed by this operation, of the right "
       "size; the quality of the source itself is trusted.")
P("C13", "An emitted JWE is what its header says, sealed over its own parts",
  "Every JWE the library emits has five base64url parts whose header names "
  "the algorithms used; its encrypted key, ciphertext and tag are the terms "
  "RFC 7518 defines for those algorithms: the tag covers exactly the emitted "
  "header, IV and ciphertext, the plaintext is the caller's message (deflated "
  "if and only if zip says so), and the encrypted key wraps the same key the "
  "content is encrypted with for the recipient's key.",
  "all algorithm pairs, header parameters, messages and keys, with "
  "assertions on or off",
  "A token sealed over slightly different parts still decrypts with the "
  "same library; interoperability needs the exact construction.",
  [JWE, GCM, EXTRA, WRAP],
  [("JWE.encrypt", JWE), ("JWE_RSA.encrypt", JWE), ("JWE_SYM.encrypt", JWE),
   ("JWE_EC.encrypt", JWE), ("AES_GCM.encrypt", GCM),
   ("ecdh_derive_key", EXTRA)],
  note="GHASH multiplication in AES_GCM is taken as a black box.")
P("C28", "AES key wrap is RFC 3394 and unwrapping checks integrity",
  "Wrapping yields exactly the RFC 3394 ciphertext of a key of whole 64 bit "
  "blocks (at least two); unwrapping returns the inverse only when the "
  "integrity register equals the default initial value, and both refuse "
  "inputs of any other length.",
  "all keys, key encryption keys and wrapped keys of 16 to 64 octets, "
  "symbolically; all other lengths are refused",
  "Tests use one or two vectors; a wrong round counter or a skipped "
  "integrity check shows only for some lengths or for tampered input.",
  [WRAP], [("aes_wrap_key", WRAP), ("aes_unwrap_key", WRAP)],
  technique="abstract interpretation with loops unrolled for each key "
            "length, comparing result terms with the standard's",
  note="The lengths that occur as content encryption keys are covered "
       "(16, 24, 32, 48, 64 octets).")
P("C14", "Secrets never leave through logs, error messages or headers",
  "No log record and no exception message the library makes contains private "
  "key members, symmetric keys, content encryption keys or shared secrets, "
  "and no JWS or JWE header parameter carries them: a key placed in a header "
  "(jwk, epk) is exported without its private part unless it was the "
  "caller who put it there.",
  "all functions of the package, all inputs and all failure paths",
  "A test reads the token or the exception of a failure it thought of, not "
  "the log records of all of them.",
  [JWK, JWS, JWE, JWT, INIT, ECC, EXTRA],
  [("JWE.decrypt", JWE), ("JWS.sign_compact", JWS), ("JWE_EC.enc_setup", JWE),
   ("KEYS.load_dict", JWK)],
  technique="interprocedural information flow over the abstract "
            "interpreter's value terms: secrets to log and exception sinks",
  note="The names of key attributes and of the secret-returning library "
       "calls are listed in sa/rules/hygiene.py.")
P("C18", "Operations share no state: one call cannot change the next",
  "No operation writes to module-level tables, class attributes or default "
  "arguments, no two objects share a mutable container they were not given, "
  "and signing, encrypting, verifying and decrypting leave the caller's keys, "
  "lists and messages as they were; so the result of an operation depends "
  "on its own arguments only, in every order and on every thread.",
  "all histories and interleavings of operations, all functions of the "
  "package",
  "State leaking between calls shows only for a particular sequence of "
  "calls, or for two threads.",
  [JWK, JWS, JWE, JWT, INIT, ECC, EXTRA, WRAP, GCM],
  [("JWx.__init__", JWS), ("JWT.__init__", JWT), ("Key.__init__", JWK),
   ("SIGNER_ALGS", JWS), ("JWE.encrypt", JWE)],
  technique="effect analysis: every store the abstract interpreter sees, "
            "against the objects that exist after module loading, class "
            "attributes, default values and the caller's arguments",
  note="Lazily completed key objects (deserialize, thumbprint) and the "
       "reload of a key bundle write to the object they are methods of, "
       "which is allowed; so is hash(key).",
  over=("inputs", "histories", "schedules"))
P("C15", "Exporting a key without asking gives its public members only",
  "An RSA or EC key serialized without private=True, a key set dumped with "
  "dump_jwks, the ephemeral key of a JWE header, a key made by key_from_jwk_dict with private=False and a public copy contain "
  "only public JWK members, made of public values; nothing in the package "
  "asks for the private ones on its own.",
  "all keys and all ways they came to be",
  "A test looks at the members of one key it made; private members of "
  "another origin, or a later member list, are not seen.",
  [JWK, JWE],
  [("RSAKey.serialize", JWK), ("ECKey.serialize", JWK),
   ("KEYS.dump_jwks", JWK), ("make_public_copy", JWK),
   ("JWE_EC.enc_setup", JWE)],
  technique="abstract interpretation: member names and information flow of "
            "the exported dictionary",
  note="Symmetric keys have no public form and are not covered.")
P("C23", "A key's certificate is used only if it is the one x5t names",
  "An RSA key given by a certificate chain is made of the first certificate, "
  "and when a thumbprint (x5t) is given, only if the SHA-1 digest of that "
  "certificate equals it; otherwise importing the key fails.",
  "all certificates, chains and thumbprints",
  "Tests have one certificate with its right and one wrong thumbprint.",
  [JWK], [("RSAKey.deserialize", JWK)])
P("C24", "Thumbprints follow RFC 7638 and equality compares the whole key",
  "The thumbprint of a key is the digest, by the hash asked for, of the "
  "canonical JSON object of exactly the members RFC 7638 requires for its "
  "type; two keys compare equal only if their types and all public members "
  "are equal, and what a key's hash depends on is compared by ==.",
  "all keys of all types and all hash functions offered",
  "Tests have one vector for one type and hash.",
  [JWK], [("Key.thumbprint", JWK), ("Key.__eq__", JWK),
          ("Key.__hash__", JWK)],
  note="The thumbprint of EC keys lacks kty (known finding, pinned by an "
       "existing test).")
P("C27", "Importing and exporting a JWK keeps every member what it was",
  "A key imported from a JWK is of the class of its kty and has each member "
  "decoded from the JWK member of the same name, the library key being made "
  "of them in their proper roles; a JWK set loads all its keys in order; an "
  "exported JWK has each member made of its own attribute, EC coordinates "
  "and private value being as long as the curve's numbers are.",
  "all JWKs of the types RSA, EC and oct, all member sets",
  "Swapped or shortened members show for particular keys only, such as "
  "coordinates with leading zero octets.",
  [JWK, ECC],
  [("keyrep", JWK), ("RSAKey.deserialize", JWK), ("ECKey.deserialize", JWK),
   ("ECKey.serialize", JWK), ("NISTEllipticCurve.int2bytes", ECC),
   ("KEYS.load_dict", JWK)],
  note="The base64url and integer codecs themselves are taken as given.")
P("C31", "Elliptic curve arithmetic computes the group law",
  "Adding, doubling and negating points, in both coordinate systems and with "
  "the neutral element, follow the group law of the curve for every pair of "
  "points; scalar multiplication and the sum of two products are the "
  "multiples their scalars say; modular inversion inverts, and a point "
  "counts as lying on the curve exactly if it satisfies the curve equation.",
  "all points of all three curves and all scalars up to their orders",
  "Special cases (equal or opposite points, the neutral element, a scalar "
  "with a rare digit pattern, an intermediate zero) occur with negligible "
  "probability in a random test, but can be provoked.",
  [ELL], [("addf", ELL), ("doublef", ELL), ("mulp", ELL), ("muladdp", ELL),
          ("inv", ELL), ("element", ELL)],
  technique="symbolic normal forms (rational functions over the prime "
            "field), loop invariants, constant propagation with unrolling",
  note="The formulas and the inversion are decided for all operands, scalar "
       "multiplication for a fixed set of scalars (all small ones, the "
       "orders of the curves and their neighbours, powers of two, sampled "
       "512 bit ones) over symbolic points. Constructs outside the normal "
       "forms are reported as undecided in the evidence, not as violations.")
P("C32", "The GCM authentication tag is computed as the standard says",
  "The multiplication in the field of GCM is the one of the standard for all "
  "operands, and the tag encryption makes and decryption expects is the "
  "exclusive or of the encrypted first counter block and GHASH over the "
  "padded additional data, the padded ciphertext and both lengths, whatever "
  "lengths these have.",
  "all keys, additional data and texts, of all lengths",
  "A slip in a table of products, in the padding or in the block loop shows "
  "only for some lengths or values, and encryption and decryption would "
  "still agree with each other.",
  [GCM], [("gf_2_128_mul", GCM), ("AES_GCM.encrypt", GCM),
          ("AES_GCM.decrypt", GCM)],
  technique="bit-level normal forms of the field product, unrolling of GHASH "
            "for fixed lengths with symbolic contents",
  note="Lengths are enumerated: every residue modulo the block size up to "
       "several blocks, contents and key being symbolic. Constructs outside "
       "the normal forms are reported as undecided in the evidence.")
P("C12", "No predictable random generator is used anywhere",
  "Neither the package nor its scripts draw keys, nonces, initialization "
  "vectors or any other value from a random generator that is not meant for "
  "cryptography; the only exception is the salt PBKDF2.crypt makes up.",
  "all functions of the package and all scripts",
  "Numbers of a predictable generator look like any others to a test.",
  ["src/jwkest", "script"],
  [("key_pair", ECC), ("gen_symkey", "script/gen_symkey.py")],
  technique="import resolution over the syntax trees (forbidden-API query)",
  note="A module that hands out a predictable generator under a name of its "
       "own, outside the package, is not followed.")
P("C17", "Only well-formed compact tokens are processed",
  "Text is accepted as a compact JWS only if it has exactly three "
  "dot-separated parts, as a compact JWE only if it has exactly five, and "
  "every part is decoded by a decoder that refuses characters outside the "
  "base64url alphabet (a line break at the end included). The encoder "
  "produces base64url without padding.",
  "all strings and byte strings handed to verification and decryption",
  "Lenient parsing shows only for malformed text; a test tries a few "
  "malformations.",
  [JWT, INIT, JWS, JWE],
  [("split_token", JWT), ("JWT.unpack", JWT), ("b64d", INIT),
   ("JWS.verify_compact_verbose", JWS), ("JWE.decrypt", JWE)],
  technique=AI + ", inclusion of the decoder's regular expression in the "
  "alphabet's language",
  note="Padding characters at the end and unused trailing bits are accepted "
       "by the decoder; the property does not exclude them.")
P("C21", "Keys are retrieved only from the stated, verified, answering server",
  "Retrieving keys from an URL fetches exactly the URL the caller (or the "
  "jku or x5u parameter) names, with verification of the server's "
  "certificate unless the caller switched it off, and makes keys only of a "
  "reply with status 200; any other reply is an error or yields no key.",
  "all URLs, replies and argument combinations",
  "Tests have no server; the error replies and the TLS settings matter only "
  "in the field.",
  [JWK, JWS], [("KEYS.load_from_url", JWK), ("load_jwks_from_url", JWK),
               ("load_x509_cert", JWK), ("JWx._get_keys", JWS)],
  note="What requests does with the arguments is taken as documented; "
       "redirects are followed.")
P("C22", "Tokens with critical extensions are refused",
  "A JWS or JWE whose protected header has a crit parameter is never "
  "accepted, since no extension is implemented; nor is a JWS JSON entry "
  "whose unprotected header has one.",
  "all tokens, algorithms and keys",
  "The guarantee is about every path to acceptance, for every algorithm.",
  [JWS, JWE], [("JWx._check_crit", JWS), ("JWS.verify_json", JWS),
               ("JWE.decrypt", JWE)])
P("C25", "Authentication tags are compared in constant time",
  "Wherever a received HMAC signature or JWE authentication tag is compared "
  "with the right one, the comparison looks at every byte instead of "
  "stopping at the first difference.",
  "all tags and all accepting paths",
  "A test cannot see how long a comparison takes.",
  [JWS, JWE, GCM, INIT], [("HMACSigner.verify", JWS),
                          ("constant_time_compare", INIT),
                          ("AES_GCM.decrypt", GCM), ("JWe._decrypt", JWE)],
  note="Decides the form of the comparison (an accumulating loop or "
       "compare_digest), not the time Python takes for it.")
P("C33", "A key set answers a lookup with exactly the keys that match",
  "Looking up a key set by key id returns exactly the held keys with that id, "
  "and by key type, in whatever letter case, exactly those of that type, in "
  "the order in which they were added; listing, iterating, counting and "
  "grouping show every held key once. Adding or loading keys keeps those "
  "already held in their order and puts the new ones behind them, and no "
  "lookup changes the set.",
  "all key sets, key ids, key types and histories of additions",
  "Wrong answers need particular ids, types or orders of additions: two keys "
  "with one id, keys without id, a second bundle loaded into one set.",
  [JWK], [("KEYS.by_kid", JWK), ("KEYS.__getitem__", JWK),
          ("KEYS.as_dict", JWK), ("KEYS.load_dict", JWK),
          ("KEYS.append", JWK)],
  note="Sets of up to three keys (quick) or four (thorough), whose ids are "
       "unknown; types are enumerated.")
P("C34", "A token is taken for a JWS or a JWE only if it is one",
  "is_jws and the JWS factory answer positively only for a JSON object that "
  "has a payload and a signature or signatures, or for a compact token whose "
  "header names an algorithm of RFC 7518 for signatures (or none); is_jwe "
  "and the JWE factory only if the header says it is a JWE or names a key "
  "management and a content encryption algorithm that are supported. What the "
  "factories return, and what is_jws leaves behind, holds the token asked "
  "about and nothing else.",
  "all texts and headers",
  "A dispatcher is tested with one token of each sort; the confusions are in "
  "what is neither, or a bit of both.",
  [JWS, JWE], [("JWS.is_jws", JWS), ("factory", JWS),
               ("JWEnc.is_jwe", JWE), ("factory", JWE)])
P("C35", "Half hashes are the left half of the right digest",
  "left_hash returns, as base64url text, the left half of the SHA-256, "
  "SHA-384 or SHA-512 digest of the message, as the algorithm name says, "
  "with SHA-256 as the default, for every message.",
  "all messages and the three algorithm names",
  "A test compares one message under one algorithm.",
  [JWS], [("left_hash", JWS)])
NA("C90", "A sealed token opens to what was sealed, for all payloads",
   "Encrypting any payload and decrypting the result with the matching key "
   "yields the payload again, and signing any payload and verifying it "
   "yields the same payload, for every algorithm.",
   "all payloads, keys and algorithms",
   "Tests round-trip a few payloads.",
   [JWS, JWE], [("JWE.encrypt", JWE), ("JWE.decrypt", JWE)],
   "That decryption inverts encryption, and verification accepts a "
   "signature, rests on numeric facts about AES, RSA, DEFLATE and the curve "
   "groups inside library code whose source is not here. What the source can "
   "decide, that both sides compute the standard's terms over the same "
   "parts, is claimed as C05, C08, C09, C13, C28, C29, C31 and C32.")
NA("C91", "Operations on secrets take time independent of the secrets",
   "Neither the private scalar of a signature, nor the content of a message, "
   "nor the padding of a decrypted key can be learned from how long an "
   "operation takes.",
   "all keys and messages, all observers",
   "Timing is not asserted on at all.",
   [ELL, ECC, JWE], [("mulp", ELL), ("JWE_RSA.decrypt", JWE)],
   "The scalar multiplication branches on the digits of the scalar by "
   "design, Python integers have no constant-time operations, and the time "
   "of library calls is not visible in this source: no static argument in "
   "reach can establish the property and the code does not have it. The "
   "decidable part, comparing authentication tags without early exit, is "
   "claimed as C25.")
NA("C92", "Random values are unpredictable",
   "Keys, initialization vectors, nonces and ephemeral keys cannot be "
   "predicted or repeated.",
   "all processes, machines and histories",
   "Tests cannot observe entropy.",
   [JWK, JWE, ECC], [("get_random_bytes", JWE)],
   "The quality of the operating system's generator is outside the source. "
   "That every such value is drawn afresh, in full length, from it is "
   "claimed as C11.", over=("histories",))
NA("C93", "Parsing and loading end within bounded time and memory",
   "No token, key or key set makes an operation use time or memory out of "
   "proportion to its size.",
   "all inputs",
   "Tests use small inputs.",
   [JWE, JWK], [("JWE_SYM.decrypt", JWE)],
   "The bounds depend on runtime quantities: the ratio of DEFLATE, the size "
   "of JSON documents and of RSA numbers; the source sets no limit on any of "
   "them that an analysis could verify.")
NA("C94", "Damaged text raises only the library's own exceptions",
   "Whatever octets are given as a token or key, an operation either "
   "succeeds or raises one of the documented exceptions.",
   "all octet strings",
   "Tests try a few malformed tokens.",
   [INIT, JWS, JWE], [("b64d", INIT), ("JWSig.unpack", JWS)],
   "Which exceptions json, base64, zlib, Cryptodome and requests raise for "
   "arbitrary input is a property of their code, and the package "
   "deliberately lets many of them pass; the statement does not hold as it "
   "stands and a weaker one could not be separated from it by the source.")
