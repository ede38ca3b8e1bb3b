prop('P23', 'The server side never handles secret key material',
     'Everything the server runs to answer a query (expanding the query, assembling selectors, folding the database, key switching, external products, ciphertext arithmetic) works on ciphertexts, public evaluation keys and the plaintext database only. No function it can reach takes, stores, reads or builds a secret key, and no object handed to it (evaluation keys, ciphertexts, parameters) contains one.',
     ['inputs', 'programs'], 'for every query, database and evaluation key, on every call path from a server-side entry point',
     'A test observes answers; a server that peeks at a secret key gives the same answers.',
     ['src/evaluations.rs', 'src/ksk.rs', 'src/rgsw.rs', 'src/bfv.rs'], [('Server::decode', 'src/evaluations.rs'), ('Evaluation::unpack', 'src/evaluations.rs'), ('RgswCt::external_product', 'src/rgsw.rs'), ('Ksk::key_switch', 'src/ksk.rs')],
     technique='static analysis: reachability over the resolved MIR call graph plus transitive field-type containment', level='other', note='whole-program call graph from rustc MIR')

prop('P24', 'Secrets, masks and noise come from fresh cryptographic randomness',
     'Secret keys, encryption masks and error terms are drawn from the operating-system seeded cryptographic generator, and the seed of each mask polynomial is drawn anew every time one is produced. Deterministically seeded generators are used only to pick public roots of unity and to expand such a fresh seed.',
     ['programs', 'histories'], 'for every encryption, key generation and evaluation-key generation, on every path and every repetition of it',
     'Decryption works just as well with a constant or repeated seed; only security is lost.',
     ['src/bfv.rs', 'src/ksk.rs', 'src/rq.rs', 'src/utils.rs', 'src/pvw.rs', 'src/ntt.rs'], [('Poly::random_from_seed', 'src/rq.rs'), ('SecretKey::encrypt_poly', 'src/bfv.rs'), ('Ksk::new', 'src/ksk.rs')],
     technique='static analysis: who-may-use rule on generator types and must-pass-through CFG check on seeds', level='other', note='rustc MIR control-flow graphs')


prop("P01", "Modular arithmetic is exact and always returns canonical residues",
     "For every modulus the library accepts (below 2^62) and every operand in the documented range, addition, subtraction, negation, multiplication, exponentiation, inversion, reduction of 64-bit, signed, 128-bit and arbitrary-size integers, and their vector and precomputed-factor variants return exactly the mathematical residue, in [0, p). The lazy variants return a value congruent to it in the documented wider range, and a modulus of 63 or more bits is refused.",
     ["inputs", "configurations"], "for every modulus below 2^62 and every operand value",
     "No unit test exercises the residue arithmetic directly; the indirect ones sample a few moduli of similar size and random operands, so boundary operands (0, p-1, the most negative integer) and small or near-2^62 moduli are never reached.",
     ["src/modulus.rs"], [("Modulus::new", "src/modulus.rs"), ("Modulus::reduce_ct", "src/modulus.rs"), ("Modulus::lazy_reduce_u128", "src/modulus.rs"), ("Modulus::mul_shoup", "src/modulus.rs"), ("Modulus::pow", "src/modulus.rs")])

prop("P02", "Lazily reduced transform values never leave their range or wrap",
     "Throughout the number-theoretic transform the values kept between reductions stay below four times (forward) or twice (inverse) the modulus, so no 64-bit sum or difference wraps around and the final reduction always produces a value below the modulus.",
     ["inputs", "configurations"], "for every modulus below 2^62, every twiddle factor and every coefficient value",
     "The butterflies are hit with random residues only; the extreme combinations that overflow the slack near 2^62 have negligible probability.",
     ["src/ntt.rs", "src/modulus.rs"], [("NttOperator::butterfly", "src/ntt.rs"), ("NttOperator::butterfly_inv", "src/ntt.rs"), ("reduce_4p", "src/ntt.rs")])

prop("P03", "The number-theoretic transform is the exact negacyclic transform and inverts",
     "For every supported degree and modulus the forward transform evaluates the polynomial at the odd powers of a primitive 2n-th root of unity (bit-reversed order) and the backward transform is its exact inverse, with outputs reduced below the modulus. Degrees below 8 or not a power of two, and moduli without such a root, are refused.",
     ["inputs", "configurations"], "for every coefficient vector, modulus and degree 2^3..2^17 (whole-transform equality for degrees 8, 16 and 32; tables and butterflies for all)",
     "The bijection test runs one random vector per size for a few sizes, and a self-consistent pair of wrong transforms passes it.",
     ["src/ntt.rs"], [("NttOperator::new", "src/ntt.rs"), ("NttOperator::forward", "src/ntt.rs"), ("NttOperator::backward", "src/ntt.rs"), ("primitive_root", "src/ntt.rs"), ("supports_ntt", "src/ntt.rs")])

prop("P05", "Polynomial operations act exactly on every residue and refuse mismatches",
     "Addition, subtraction, multiplication, negation, inversion, scaling by an integer and conversion from integers act on every coefficient modulo every modulus of the operand's ring, keep ring and representation, and leave the other operand untouched. Operands of different rings or in the wrong representation, and more coefficients than the degree, are refused instead of giving a wrong result.",
     ["inputs", "configurations"], "for every ring (any number of moduli, any degree), level and coefficient values",
     "Tests multiply a few random polynomials in one or two rings; they never mix rings, representations or levels, and cannot visit every residue.",
     ["src/rq.rs", "src/modulus.rs"], [("AddAssign/SubAssign/MulAssign for Poly", "src/rq.rs"), ("Poly::try_from_vec_u64", "src/rq.rs"), ("Poly::try_from_vec_i64", "src/rq.rs"), ("Poly::try_from_bigint", "src/rq.rs")])

prop("P06", "Changing representation preserves the polynomial and labels it correctly",
     "Converting a polynomial between coefficient form and transform form applies the transform to every residue row with that row's own modulus, updates the recorded representation accordingly, and is the identity when the target form is the current one.",
     ["inputs", "configurations"], "for every ring, level and coefficient values",
     "The round-trip test passes for any invertible map applied twice; it does not relate the transformed values to the polynomial.",
     ["src/rq.rs", "src/ntt.rs"], [("Poly::change_representation", "src/rq.rs")])

prop("P07", "Substituting X by a power of X is exact in both representations",
     "Substituting X -> X^k for odd k sends a polynomial f to f(X^k) in the negacyclic ring, for every coefficient, modulus and level, whether the polynomial is held in coefficient form or in transform form, and leaves the original unchanged. Exponents are taken modulo twice the degree, and even exponents are refused.",
     ["inputs", "configurations"], "for every odd exponent, degree, ring and coefficient values",
     "The test compares the two forms on one random polynomial and one exponent; a sign error at a wrap-around of one particular exponent or coefficient is not sampled.",
     ["src/rq.rs"], [("Substitution::new", "src/rq.rs"), ("Poly::substitute", "src/rq.rs")])

prop("P08", "Residue number system conversion is an exact bijection with the integers",
     "Decomposing an integer below the product of the moduli into its residues and recombining them returns the same integer, and the precomputed recombination constants are the Chinese-remainder ones for exactly the listed moduli. A polynomial's coefficients convert to big integers and back (or to machine words for a single modulus) coefficient by coefficient without loss.",
     ["inputs", "configurations"], "for every list of moduli and every integer below their product",
     "No test recombines values near the product of the moduli or with more than a few moduli; a constant computed for the wrong modulus is invisible for most values.",
     ["src/rns.rs", "src/rq.rs"], [("RnsContext::new", "src/rns.rs"), ("RnsContext::project", "src/rns.rs"), ("RnsContext::lift", "src/rns.rs"), ("From<&Poly> for Vec<BigUint>", "src/rq.rs")])

prop("P10", "Modulus switching divides by the dropped modulus with correct rounding",
     "Dropping the last modulus of a ring replaces every coefficient by itself divided by that modulus and rounded to the nearest integer, modulo each remaining modulus, and leaves the polynomial in the next smaller ring; switching down several levels repeats exactly this until the target ring is reached. Switching to a ring that is not below the current one, or from the last ring, is refused.",
     ["inputs", "configurations"], "for every ring, level and coefficient values",
     "The test checks a handful of random polynomials against a tolerance; rounding at the boundary and per-modulus constants of deeper levels are not reached.",
     ["src/rq.rs"], [("Poly::mod_switch_down_next", "src/rq.rs"), ("RqContext::switch_iterations", "src/rq.rs"), ("Poly::mod_switch_to", "src/rq.rs")])

prop("P28", "256-bit integer arithmetic is exact",
     "The 256-bit integers used to round while rescaling add and subtract modulo 2^256, complement, and shift right by any amount from 0 to 255 exactly, and convert to and from pairs of 128-bit and quadruples of 64-bit words without loss.",
     ["inputs"], "for every pair of 256-bit values and every shift amount 0..255",
     "There is no test of this type; carries that ripple through a full word and shifts at word boundaries are hit with negligible probability by the scaling tests.",
     ["src/utils.rs"], [("U256::wrapping_add_assign", "src/utils.rs"), ("U256::wrapping_sub_assign", "src/utils.rs"), ("ShrAssign for U256", "src/utils.rs")])

prop("P12", "Encoding a message and decoding it again is the identity",
     "A message of values below the plaintext modulus, encoded as coefficients or in SIMD slots, decodes to exactly the same values, for every length up to the degree and every supported encoding. The slot positions form the documented permutation, the encoded polynomial handed to encryption is the message scaled by the ciphertext-to-plaintext ratio at the plaintext's own level, and messages longer than the degree are refused.",
     ["inputs", "configurations"], "for every message, encoding, level and parameter set",
     "The encoding tests use one random full-length message at the top level; shorter messages, deeper levels and every slot position are not sampled.",
     ["src/bfv.rs"], [("Plaintext::new", "src/bfv.rs"), ("Plaintext::decode", "src/bfv.rs"), ("Plaintext::to_poly", "src/bfv.rs")])

prop("P13", "Encryption hides exactly the message under a fresh mask and fresh noise",
     "Every encryption produces a pair whose phase under the secret key is the encoded message plus one freshly sampled noise polynomial of the configured variance, masked by a freshly drawn uniform polynomial, at the message's own level. Secret keys have one coefficient per degree sampled from the configured noise distribution, and the same coefficients are used modulo every modulus.",
     ["inputs", "histories"], "for every message, secret key, level, parameter set and random outcome",
     "Round-trip tests accept missing, doubled, reused or wrongly distributed noise and masks because decryption removes them all.",
     ["src/bfv.rs", "src/rq.rs"], [("SecretKey::encrypt", "src/bfv.rs"), ("SecretKey::encrypt_poly", "src/bfv.rs"), ("SecretKey::generate", "src/bfv.rs")])

prop("P14", "Decryption returns the rounded, rescaled phase of any ciphertext",
     "For ciphertexts with two, three or more components at any level, decryption evaluates the ciphertext polynomial at the secret key, scales the result by plaintext modulus over ciphertext modulus rounding to the nearest integer, and returns it modulo the plaintext modulus coefficient by coefficient, with the ciphertext's own parameters and level. The raw phase routine returns exactly the first component plus the secret key times the second, and refuses components of different rings.",
     ["inputs", "configurations"], "for every ciphertext (valid or not), component count 2, 3 and 4, secret key, level and parameter set",
     "Tests decrypt fresh ciphertexts whose noise is tiny, so wrong rounding or a wrong power of the key on a higher component passes.",
     ["src/bfv.rs"], [("SecretKey::decrypt", "src/bfv.rs"), ("SecretKey::decrypt_trial", "src/bfv.rs")])

prop("P15", "Linear homomorphic operations act exactly on every ciphertext component",
     "Adding, subtracting ciphertexts and adding or multiplying them by a plaintext polynomial, an encoded plaintext or an integer performs exactly that ring operation on each component at each point, so the result decrypts to the corresponding combination of messages. Parameters and level carry over, operands are unchanged, and operands of different levels or component counts are refused rather than truncated.",
     ["inputs", "configurations"], "for every pair of ciphertexts, plaintext or scalar, level and parameter set",
     "Unit tests add and multiply one pair at one level; operands of different shape and values that only matter in one residue are not sampled.",
     ["src/bfv.rs"], [("Add/Sub for BfvCipherText", "src/bfv.rs"), ("Mul<Poly>/Mul<Plaintext>/Mul<BigUint> for BfvCipherText", "src/bfv.rs")])

prop("P16", "Ciphertext multiplication computes the rescaled tensor product",
     "Multiplying two ciphertexts lifts both exactly to the extended modulus, forms the tensor product and scales it back by plaintext modulus over ciphertext modulus with rounding, giving a three-component ciphertext of the product at the same level. Relinearising (alone or as part of the combined routine) adds the key-switched last component to the first two using a key that encrypts the squared secret, and operands of different levels are refused.",
     ["inputs", "configurations"], "for every pair of ciphertexts, relinearisation key, level and parameter set",
     "The multiplication tests use one random pair at one or two levels and tolerate any error below the noise budget.",
     ["src/bfv.rs", "src/rq.rs"], [("Mul<BfvCipherText> for BfvCipherText", "src/bfv.rs"), ("multiply_with_strategy", "src/bfv.rs"), ("RelinearizationKey::new", "src/bfv.rs"), ("RelinearizationKey::relinearize_poly", "src/bfv.rs")])

prop("P17", "Key switching re-encrypts the product with the source key under the target",
     "A key-switching key holds, for each modulus of its level, an encryption under the secret key of the source polynomial times that modulus's recombination constant, each with its own fresh mask and noise. Switching a polynomial multiplies each of its residues, extended to all moduli, by the matching pair and adds up, so the result's phase is the polynomial times the source plus noise; a wrong representation or ring is refused.",
     ["inputs", "configurations", "histories"], "for every polynomial, source and secret key, level and parameter set",
     "The key-switching tests use one ring size and level; a constant or residue attributed to the wrong modulus only shows for particular values or deeper levels.",
     ["src/ksk.rs"], [("Ksk::new", "src/ksk.rs"), ("Ksk::key_switch", "src/ksk.rs")])

prop("P18", "Rotation by a Galois key applies exactly that automorphism",
     "A Galois key generated for an exponent switches from the substituted secret key back to the secret key at its level, and applying it to a two-component ciphertext substitutes both components by the same exponent and key-switches the second, keeping level and parameters. A ciphertext of another level is refused.",
     ["inputs", "configurations"], "for every odd exponent, ciphertext, secret key, level and parameter set",
     "One exponent at one level is tested.",
     ["src/bfv.rs", "src/rq.rs", "src/ksk.rs"], [("GaliosKey::new", "src/bfv.rs"), ("GaliosKey::relinearize", "src/bfv.rs")])

prop("P19", "External products with selector ciphertexts multiply the messages",
     "An RGSW ciphertext of a message holds key-switching keys for the message and for the message times the secret key, and its external product with a ciphertext key-switches the first component with the former and the second with the latter and adds up. Selectors assembled from expanded ciphertexts take the i-th ciphertext as the entry for the i-th modulus, at those ciphertexts' level, and keep the two halves in their roles.",
     ["inputs", "configurations", "histories"], "for every message, ciphertext, secret key, level and parameter set",
     "The external-product test multiplies one pair of messages; swapping roles or entries goes unnoticed when the message is a constant.",
     ["src/rgsw.rs", "src/ksk.rs"], [("RgswCt::encrypt", "src/rgsw.rs"), ("RgswCt::external_product", "src/rgsw.rs"), ("RgswCt::try_from_ksks", "src/rgsw.rs"), ("Ksk::try_from_decomposed_rlwes", "src/ksk.rs")])

prop("P21", "Query expansion yields one ciphertext per coefficient of the query",
     "Expanding a query ciphertext yields exactly one ciphertext per coefficient, the k-th one encrypting the k-th coefficient of the query alone (up to key-switching noise), at the query's level. The evaluation keys contain a key for every automorphism the expansion uses, stored under the exponent it was made for, and a selector encryption of the secret key itself.",
     ["inputs", "configurations"], "for every query ciphertext, level and ciphertext modulus; whole expansion at degree 8 (16 in the thorough tier), evaluation keys at degrees 8 to 32",
     "The expansion test uses one short query at one degree and looks at one output.",
     ["src/evaluations.rs", "src/bfv.rs"], [("Evaluation::unpack", "src/evaluations.rs"), ("Evaluation::gen_x_pows", "src/evaluations.rs"), ("Evaluation::build", "src/evaluations.rs")])

prop("P20", "A query encodes one one-hot vector per dimension of the database",
     "For in-range per-dimension indices and a matching database size, the encoded query consists of the first dimension's one-hot vector followed by one one-hot vector per further dimension, in order, and nothing else. An index outside its dimension, or a database whose size is not the product of the dimensions, is refused.",
     ["inputs", "configurations"], "for every size of the dimensions, every index and one to four dimensions",
     "The one test of the encoder prints its result; wrong offsets for particular indices or further dimensions are never compared.",
     ["src/evaluations.rs"], [("Client::encode", "src/evaluations.rs")])

prop("P22", "The server folds the database to the addressed entry, dimension by dimension",
     "The database is stored transformed, entry by entry, and answering a query multiplies each entry by the first-dimension ciphertext of its position, adds up each block, and then folds every further dimension with that dimension's own selectors in order until one ciphertext of the top level is left. The server derives the number of selectors from its dimensions exactly as the client lays them out, assembles each from the expansions of all residue ciphertexts, and refuses a query with a missing ciphertext.",
     ["inputs", "configurations"], "for every query, database content, key, ring and ciphertext modulus; database shapes 2, 2x2, 3x2, 2x3 and 3x2x2 (selector counts for all shapes up to four dimensions)",
     "The only end-to-end test prints the decrypted answer without comparing it, for one shape and one index.",
     ["src/evaluations.rs", "src/rgsw.rs", "src/ksk.rs"], [("Server::new", "src/evaluations.rs"), ("Server::no_of_cts", "src/evaluations.rs"), ("Server::decode", "src/evaluations.rs")])

prop("P09", "Rescaling between moduli is exact fixed-point rounding for every operand",
     "Rescaling a polynomial by a fraction takes each coefficient's representative closest to zero, multiplies it by the fraction, rounds to the nearest integer with 128-bit fixed-point constants and reduces it by every target modulus, so no carry or high word is lost for any number of moduli. With factor one, the residues of moduli shared by both chains are copied unchanged and the others are those of the representative; both representations are accepted, and an operand of another ring or rings of different degrees are refused.",
     ["inputs", "configurations"], "for every fraction, every source and target chain of up to 64 moduli and every coefficient value (rounding exact except within 2^-56 of a tie)",
     "The scaling tests compare a few random values over at most a handful of moduli within a tolerance of one; lost high words and wrong rounding directions need more moduli or particular fractions.",
     ["src/rns.rs", "src/rq.rs", "src/utils.rs"], [("RnsScaler::new", "src/rns.rs"), ("RnsScaler::extract_projection_and_theta", "src/rns.rs"), ("RnsScaler::scale", "src/rns.rs"), ("RqScaler::new", "src/rq.rs"), ("RqScaler::scale", "src/rq.rs")])

prop("P11", "Encryption parameters are mutually consistent at every level",
     "For each level the parameter set holds the ring of the remaining ciphertext moduli, an extended ring that begins with exactly these moduli and is large enough for exact products, scalers between the two, the message factor, the modulus product reduced by the plaintext modulus and the scaler used for decryption. The SIMD slot map follows the powers of 3 and their negatives, and the level of a ring is its position in the chain.",
     ["inputs", "configurations"], "for every degree, plaintext modulus, variance and choice of ciphertext moduli (chains of one, two and three moduli), at every level",
     "Every test builds its parameters with this constructor, so encoder, encryptor and decryptor agree with each other even when a level's constants are wrong; levels other than zero are hardly used.",
     ["src/bfv.rs"], [("BfvParameters::new", "src/bfv.rs"), ("BfvParameters::ctx_level", "src/bfv.rs"), ("MultiplicationParameters::new", "src/bfv.rs")])
