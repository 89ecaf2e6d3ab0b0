import json
P=[]
def p(id,title,st,over,q,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append(dict(id=id,title=title,statement=st,quantifier={"over":over,"text":q},why_tests_cant=why,anchors=a))
M="crates/fhe-math/src/"; B="crates/fhe/src/bfv/"; MB="crates/fhe/src/mbfv/"; U="crates/fhe-util/src/lib.rs"
p("C01","Word-size modular arithmetic is exact for every modulus and operand",
 "For every modulus from 2 up to 62 bits and every operand in an operation's documented domain, each scalar and vector operation (addition, subtraction, multiplication, precomputed-operand multiplication, negation, exponentiation, inversion, reduction, centering), in its constant-time, variable-time, lazy and optimised forms, returns exactly the mathematical result, in canonical range (below twice the modulus for the lazy forms). Primality decisions, prime searches and the packing of residues into bit strings and back are equally exact. Moduli outside the range are refused.",
 ["inputs","configurations"],"every modulus 2..2^62-1 and every operand value and vector length in each operation's domain, every bit width 1..64 of the packing routines",
 "unit and property tests sample a dozen moduli with uniform operands; quotient-estimate and carry errors live in operands of density 2^-40 or less and in unusual moduli",
 [M+"zq/mod.rs",M+"zq/primes.rs",U],[("Barrett and Shoup reductions with one conditional subtraction",M+"zq/mod.rs: Modulus"),("opt-form side condition",M+"zq/primes.rs: supports_opt"),("bit transcoding",U+": transcode_*")],
 ["return values of every public operation"])
p("C02","The number-theoretic transform is an exact, invertible ring evaluation",
 "For every power-of-two size and every prime modulus that admits it, the forward transform maps a coefficient vector to its values at the distinct roots of x^n+1, so that pointwise multiplication of transforms is negacyclic multiplication, and the inverse transform is its exact inverse in both directions. Results are canonical residues, and the variable-time, constant-time and lazy entry points all agree. A modulus that does not admit the transform is refused.",
 ["inputs","configurations"],"every size 8..65536, every admissible prime up to 62 bits, every vector of residues, both transform back ends",
 "tests check round trips of random vectors for a few primes; they never compare against evaluation, and a consistent error in both directions cancels",
 [M+"ntt/mod.rs",M+"ntt/native.rs",M+"ntt/tfhe.rs"],[("Harvey butterflies with lazy reduction",M+"ntt/native.rs"),("tfhe-ntt plan",M+"ntt/tfhe.rs"),("root selection and admissibility",M+"ntt/mod.rs")],["transform outputs"])
p("C03","Residue-number-system projection, lifting and scaling are exact",
 "Projecting an integer to a residue basis and lifting it back is the identity modulo the product of the basis, for every basis of pairwise coprime moduli. Scaling a residue representation by a rational factor into another basis returns the nearest integer to the scaled centred value (an adjacent integer only within the documented precision of an exact tie), whatever part of the output basis is asked for. Bases that are empty, invalid or not coprime are refused.",
 ["inputs","configurations"],"every basis (1..20 moduli, any sizes, any order), every residue vector including values at 0, +-1, half the modulus and rounding boundaries, and every numerator/denominator",
 "tests use three fixed moduli sets and uniform inputs; rounding and sign decisions at the half-way boundaries have negligible probability under uniform sampling",
 [M+"rns/mod.rs",M+"rns/scaler.rs"],[("Garner coefficients",M+"rns/mod.rs: RnsContext"),("fixed-point theta/omega tables",M+"rns/scaler.rs: RnsScaler")],["residues produced by project/scale, integers produced by lift"])
p("C04","Polynomial arithmetic is exact ring arithmetic in every representation",
 "Any sequence of additions, subtractions, negations, multiplications, scalar multiplications, dot products, coefficient substitutions, monomial shifts and representation changes on polynomials yields exactly the element of Z_Q[x]/(x^n+1) that the same sequence yields mathematically, whatever the representations and constant-/variable-time settings. Conversions from and to integers, residues and big integers denote the same element. Stored residues are always canonical.",
 ["inputs","histories","configurations"],"every operation sequence, operand, degree, modulus chain, representation and execution-time policy",
 "tests check single operations on two or three contexts of degree 16; sequences, dot products long enough to overflow accumulators, many substitutions and mixed policies are unbounded",
 [M+"rq/mod.rs",M+"rq/ops.rs",M+"rq/convert.rs",M+"rq/context.rs"],[("operator implementations per representation",M+"rq/ops.rs"),("accumulator bound of dot_product",M+"rq/ops.rs: dot_product"),("substitution permutations",M+"rq/mod.rs: SubstitutionExponent"),("type-state representations",M+"rq/mod.rs: Poly")],["coefficients of every intermediate polynomial"])
p("C05","Changing the modulus of a polynomial rounds to the nearest element",
 "Dropping moduli from a polynomial divides every coefficient by the dropped modulus and rounds to the nearest integer, one modulus at a time; scaling or switching a polynomial to another modulus chain by a rational factor rounds every coefficient to nearest. A context reports distances and levels along its own chain exactly, and only there; a target that is not on the chain is refused and leaves the polynomial unchanged.",
 ["inputs","histories","configurations"],"every chain of moduli, every coefficient, every source and target position, any interleaving with ring operations",
 "tests compare a handful of random polynomials on fixed chains; rounding boundaries and long chains are not reached",
 [M+"rq/mod.rs",M+"rq/scaler.rs",M+"rq/switcher.rs",M+"rq/context.rs"],[("switch_down with rounding constant",M+"rq/mod.rs"),("Scaler/Switcher",M+"rq/scaler.rs"),("context chain",M+"rq/context.rs: niterations_to, context_at_level")],["coefficients before and after"])
p("C06","Serialization round-trips every object without changing what it means",
 "For every object the library can serialize (parameters, polynomials, plaintexts, ciphertexts, secret, public, relinearization, Galois, evaluation, key-switching and RGSW keys and ciphertexts), reading back its bytes under the same parameters gives an equal object with the same behaviour, however the object was obtained, including compressed fresh objects and objects that were modified after encryption (the empty zero-ciphertext accumulator, which is not a ciphertext of two or more parts, is excepted). Writing it again gives an encoding that means the same. The documented decoding helpers agree with the object that was encoded.",
 ["inputs","histories","configurations"],"every object reachable by any sequence of API calls, every level, every parameter set",
 "tests round-trip freshly generated objects of a few parameter sets; objects with a history (mutated in place, switched, partially combined, at other levels) are not tried",
 [M+"rq/convert.rs",M+"rq/serialize.rs",B+"ciphertext.rs",B+"parameters.rs",B+"keys/key_switching_key.rs",B+"keys/evaluation_key.rs",B+"keys/relinearization_key.rs",B+"keys/galois_key.rs",B+"keys/public_key.rs",B+"keys/secret_key.rs",B+"rgsw_ciphertext.rs"],[("seed compression",B+"ciphertext.rs: seed"),("packed residues",M+"rq/serialize.rs"),("protobuf conversions",B+"*: From/TryConvertFrom")],["bytes, decoded objects, results of using them"])
p("C07","Untrusted bytes are rejected or yield a valid object, never a crash",
 "For every byte string and every deserialization entry point, decoding terminates without panicking or overflowing, takes no more memory than a fixed multiple of what the input and the parameters account for, and returns either an error or an object that satisfies all invariants of a validly constructed one (canonical residues, the right number of coefficients, components and levels). An object accepted from bytes can be used in every operation without panicking.",
 ["inputs"],"every byte string (in particular every mutation of a valid encoding, field by field) for every deserializable type and parameter set",
 "tests try a few truncated or wrong-length encodings per type",
 [M+"rq/convert.rs",M+"rq/serialize.rs",B+"parameters.rs",B+"ciphertext.rs",B+"keys/key_switching_key.rs",B+"keys/evaluation_key.rs",B+"keys/relinearization_key.rs",B+"keys/galois_key.rs",B+"keys/public_key.rs",B+"keys/secret_key.rs",B+"rgsw_ciphertext.rs"],[("field validation in TryConvertFrom",M+"rq/convert.rs"),("shape validation of keys",B+"keys/key_switching_key.rs")],["result of from_bytes, then of using the object"])
p("C08","Only valid BFV parameters can be built, and they say what was asked",
 "A parameter build succeeds exactly when the degree is a supported power of two, the moduli are distinct NTT-friendly primes of supported size, the error variance is in range and the plaintext modulus is valid for them; otherwise it returns an error and never panics. What was built reports exactly the requested degree, plaintext modulus, variance, sizes and moduli, generated moduli have the requested sizes and are distinct primes congruent to 1 modulo twice the degree, and the per-level chain is consistent. The default parameter sets never exceed the modulus bit-size budget of 128-bit security for their degree.",
 ["inputs","configurations"],"every combination of builder inputs, valid or not, in every order of setter calls",
 "tests try a dozen builder inputs",
 [B+"parameters.rs",B+"context/level.rs",B+"context/cipher_plain_context.rs",M+"zq/primes.rs"],[("builder validation",B+"parameters.rs: BfvParametersBuilder::build"),("modulus generation",B+"parameters.rs: generate_moduli"),("level chain",B+"context/level.rs")],["build results and accessors"])
p("C09","Encoding and decoding plaintexts are inverse and represent the stated values",
 "For every vector of values no longer than the number of slots, every encoding (coefficient or batched) and every admissible level, decoding what was encoded returns the values modulo the plaintext modulus, zero padded, for unsigned, signed and big-integer forms and for single plaintexts and vectors of plaintexts. Coefficient encodings denote the polynomial with those coefficients, and batched encodings make ring addition and multiplication act slot-wise. Requests that cannot be represented return an error instead of a wrong plaintext.",
 ["inputs","configurations"],"every value vector, encoding, level and plaintext modulus (small, large, prime and composite)",
 "tests encode random vectors for a few parameter sets at level 0",
 [B+"plaintext.rs",B+"plaintext_vec.rs",B+"encoding.rs"],[("slot permutation",B+"parameters.rs: matrix_reps_index_map"),("plaintext NTT",B+"plaintext_vec.rs"),("decode reductions",B+"plaintext.rs")],["decoded values, underlying polynomial"])
p("C10","Decryption inverts encryption, and fresh noise stays within its bound",
 "For every parameter set, plaintext, encoding and level, decrypting a secret-key or public-key encryption under the matching key returns exactly the plaintext, and the noise of the fresh ciphertext is within the worst-case bound implied by the error variance. Decryption agrees with the textbook definition (round the scaled phase) on every ciphertext whose noise is below the decryption threshold, of any number of components, and the reported noise is the true noise.",
 ["inputs","configurations"],"every parameter set, key, plaintext, encoding, level, random tape, and every well-formed ciphertext",
 "tests encrypt random values for a few parameter sets; noise is not checked against an independent phase computation",
 [B+"keys/secret_key.rs",B+"keys/public_key.rs",B+"plaintext.rs",B+"ciphertext.rs"],[("encryption of zero plus scaled message",B+"keys/secret_key.rs: encrypt_poly"),("scaling of the message",B+"plaintext.rs: to_poly"),("phase rounding",B+"keys/secret_key.rs: try_decrypt")],["ciphertext polynomials, phase computed from the exported secret key, decrypted plaintext"])
p("C11","Homomorphic computation histories decrypt to the plaintext computation",
 "Any sequence of homomorphic additions, subtractions, negations, plaintext additions, subtractions and multiplications, scalar dot products and ciphertext multiplications whose noise stays below the decryption threshold decrypts to the result of the same sequence on plaintext ring elements. This holds for every operand form (owned, borrowed, assigning), every mix of fresh, public-key, zero and previously processed ciphertexts, at every level. The noise after each operation stays within the analytical worst-case growth of that operation.",
 ["histories","inputs","configurations"],"every finite sequence of operations within the noise budget, every operand, level and parameter set",
 "tests check single operations from fresh ciphertexts of two or three parameter sets",
 [B+"ops/mod.rs",B+"ops/dot_product.rs",B+"ciphertext.rs"],[("componentwise operators",B+"ops/mod.rs"),("dot product accumulation",B+"ops/dot_product.rs")],["every intermediate ciphertext, decrypted by an independent reference"])
p("C12","Ciphertext multiplication and relinearization compute the product",
 "Multiplying two ciphertexts, by the operator or by any configured multiplier (with or without relinearization, modulus switching, alternative scaling strategies and bases, at every level), decrypts to the product of the plaintexts whenever the noise permits. Relinearizing a three-component ciphertext leaves two components, the same plaintext and only the key-switching noise in addition. Squaring and multiplying a ciphertext by itself through shared references gives the same as multiplying two equal ciphertexts.",
 ["inputs","histories","configurations"],"every pair of ciphertexts, every multiplier configuration, ciphertext level and key level",
 "tests multiply fresh encryptions with the default configuration at few levels",
 [B+"ops/mul.rs",B+"ops/mod.rs",B+"keys/relinearization_key.rs",B+"keys/key_switching_key.rs"],[("extended-basis tensoring",B+"ops/mul.rs: Multiplicator"),("relinearization",B+"keys/relinearization_key.rs"),("RNS / base-2^k decomposition",B+"keys/key_switching_key.rs")],["product ciphertext, reference phase and noise"])
p("C13","Rotations, inner sums and expansion act on slots as specified",
 "A column rotation by i, a row rotation, an inner sum and an oblivious expansion, at any level the key was generated for, decrypt to the plaintext whose slots (or coefficients) are moved, summed or spread as documented, and add only key-switching noise. An evaluation key performs exactly the operations it was built for, reports that truthfully before and after serialization, and refuses the others with an error.",
 ["inputs","configurations","histories"],"every rotation amount, key configuration, ciphertext level, evaluation level and expansion size",
 "tests rotate by a few amounts at a few levels for one parameter set",
 [B+"keys/evaluation_key.rs",B+"keys/galois_key.rs",B+"keys/key_switching_key.rs"],[("Galois element per rotation",B+"keys/evaluation_key.rs: construct_rot_to_gk_exponent"),("expansion recursion",B+"keys/evaluation_key.rs: expands"),("substitute then key switch",B+"keys/galois_key.rs")],["decoded slots, coefficients, noise"])
p("C14","RGSW external products multiply plaintexts",
 "The external product of a BFV ciphertext with an RGSW encryption, in either operand order, decrypts to the product of the two plaintexts, adds only noise within its analytical bound, and can be chained as long as that bound permits. Operands of other parameters or levels are not silently combined.",
 ["inputs","histories","configurations"],"every plaintext pair, level and parameter set, chains of products",
 "one test per parameter set with random plaintexts",
 [B+"rgsw_ciphertext.rs",B+"keys/key_switching_key.rs"],[("two key-switching keys per RGSW ciphertext",B+"rgsw_ciphertext.rs")],["product ciphertext, reference phase and noise"])
p("C15","Invalid combinations are refused and failed operations change nothing",
 "Fallible operations given operands of different parameters, levels, encodings, component counts or key types return an error rather than a wrong result or a panic, and operators documented to require matching operands stop rather than return a value. After an error every operand is exactly as it was before. Operations never modify operands they only borrow.",
 ["inputs","histories","configurations"],"every API entry point with every mismatching combination of otherwise valid objects",
 "tests cover some mismatches of some operations",
 [B+"ops/mod.rs",B+"ops/mul.rs",B+"ops/dot_product.rs",B+"keys/key_switching_key.rs",B+"keys/evaluation_key.rs",B+"keys/relinearization_key.rs",B+"keys/secret_key.rs",B+"ciphertext.rs",B+"plaintext.rs",MB+"aggregate.rs"],[("parameter identity and level checks","every public operation"),("error types","crates/fhe/src/errors.rs")],["result and operand snapshots"])
p("C16","Secrets, errors and masks follow their stated distributions",
 "Secret keys and encryption errors are sampled from the centred binomial distribution of the stated variance (bounded by twice the variance), identically across residues of one coefficient and independent between coefficients, for every supported variance and every random generator. Uniform masks are uniform over every modulus, canonical, and independent between moduli.",
 ["inputs","configurations"],"every variance 1..32, every modulus, long-run frequencies under any good random generator",
 "tests estimate one variance on one sample with a loose bound",
 [U,M+"rq/mod.rs",M+"zq/mod.rs",B+"keys/secret_key.rs",B+"keys/public_key.rs"],[("bit-sliced centred binomial sampler",U+": sample_vec_cbd"),("rejection-sampled uniform residues",M+"zq/mod.rs: random_vec")],["samples taken through the public API and recovered from keys and ciphertexts"])
p("C17","Randomness is reproducible from seeds and fresh everywhere else",
 "Seed-derived objects are a deterministic function of the seed and the context, equal wherever they are expanded, and different for different seeds. Given the same generator state every randomized operation gives the same result, and it uses only the generator it is given for the secret part. Two encryptions, keys or shares never share masks or errors, so that equal inputs give different outputs.",
 ["inputs","histories","configurations"],"every seed, every sequence of randomized operations with any generator",
 "tests check one equality of one seed; freshness across components, levels and operations is not tested",
 [M+"rq/mod.rs",B+"keys/secret_key.rs",B+"keys/public_key.rs",B+"keys/key_switching_key.rs",MB+"crp.rs",MB+"relin_key_gen.rs",MB+"public_key_gen.rs"],[("hash-then-expand of seeds",M+"rq/mod.rs: random_from_seed"),("per-component masks",B+"keys/key_switching_key.rs: generate_c1")],["masks and noises of all produced objects"])
p("C18","Variable-time execution is never enabled on secret data",
 "Polynomials that hold secret or secret-derived data never permit variable-time execution, bytes received from outside cannot grant that permission, and combining a permitted operand with an unpermitted one yields an unpermitted result. Only objects that are public by definition permit it. The permission never changes the value of any result.",
 ["histories","inputs"],"every sequence of operations mixing public and secret polynomials, every deserialized object",
 "tests check the flag on single operations",
 [M+"rq/mod.rs",M+"rq/ops.rs",M+"rq/convert.rs",B+"keys/secret_key.rs",B+"keys/public_key.rs",B+"plaintext.rs"],[("allow_variable_time_computations flag and its propagation",M+"rq/mod.rs"),("conversion entry points",M+"rq/convert.rs")],["flag of every polynomial reachable through the API"])
p("C19","Secrets are erased from memory when they are no longer needed",
 "When secret keys, plaintexts and multi-party key material are dropped, and when the library drops the vectors and polynomials it derived from them (residues, transforms, powers and substitutions of the key, its products with masks and ciphertexts, errors and encryption randomness, phases, noise, scaled plaintexts), their memory is overwritten before it is released, on success and error paths alike: no heap block freed by key generation, key serialization, encryption, decryption, noise measurement, evaluation-key generation, multi-party shares, encoding, decoding and plaintext arithmetic contains them. Excepted are values the caller receives (serialized keys, decoded vectors) and the limbs of the big integers used for plaintext moduli beyond 64 bits.",
 ["histories","inputs"],"every sequence of operations using a secret, including failing ones",
 "no test can see freed memory",
 [B+"keys/secret_key.rs",B+"plaintext.rs",M+"rq/mod.rs",B+"keys/galois_key.rs",B+"keys/relinearization_key.rs",B+"rgsw_ciphertext.rs",MB+"secret_key_switch.rs",MB+"relin_key_gen.rs",MB+"public_key_gen.rs"],[("Zeroizing wrappers and Drop implementations","secret-handling functions"),("Zeroize for polynomials",M+"rq/mod.rs")],["contents of every heap block at the moment it is freed"])
p("C20","Multiparty protocols produce what the joint secret key would",
 "For any number of parties, honestly generated shares aggregate, in any order, to a public key, relinearization key, key-switched ciphertext or decryption that behaves as if made from the sum of the parties' secrets, with noise within the analytical bound. Any missing or mismatched share changes the result or is refused; aggregating nothing is an error. Shares survive the aggregation unchanged and carry fresh randomness.",
 ["inputs","histories","configurations"],"every number of parties, order of aggregation, parameter set and level",
 "tests run one party count in one order for a few parameter sets",
 [MB+"aggregate.rs",MB+"crp.rs",MB+"public_key_gen.rs",MB+"public_key_switch.rs",MB+"relin_key_gen.rs",MB+"secret_key_switch.rs"],[("common reference polynomials",MB+"crp.rs"),("share aggregation",MB+"aggregate.rs and FromShares implementations")],["aggregated objects, decrypted with the sum of secrets"])
p("C21","Safe API calls never cause undefined behaviour or memory errors",
 "No sequence of calls to the safe API, with any inputs, reads or writes outside an allocation, uses uninitialized or freed memory, or breaks the aliasing rules, even for arguments the call has to refuse. Calls whose arguments meet the documented requirements execute no arithmetic overflow and no over-wide shift.",
 ["inputs","histories"],"every sequence of safe API calls",
 "tests run without any undefined-behaviour detector",
 [M+"ntt/native.rs",M+"ntt/tfhe.rs",M+"rq/ops.rs",M+"rns/scaler.rs",M+"zq/mod.rs",M+"rq/mod.rs"],[("pointer-based butterflies and unchecked indexing",M+"ntt/native.rs"),("unsafe variable-time blocks",M+"rq/ops.rs")],["reports of the undefined-behaviour interpreter and address sanitizer, overflow traps"])
p("C22","Shared objects are safe and deterministic under concurrency",
 "Parameters, keys, ciphertexts and plaintexts can be used from any number of threads at once: there are no data races, no deadlocks, and every concurrent computation gives the same result as the same computation run alone. Objects shared between threads are never changed by being used.",
 ["schedules","histories"],"every interleaving of any operations on shared objects",
 "tests are single-threaded",
 [B+"parameters.rs",B+"context/level.rs",M+"rq/context.rs",M+"ntt/tfhe.rs"],[("immutable sharing through Arc",B+"parameters.rs"),("context chains shared by every object of a parameter set",B+"context/level.rs, "+M+"rq/context.rs")],["race-detector reports, results of parallel against sequential runs"])
p("C23","Both transform back ends give interchangeable results",
 "With the same inputs and generator state, a build with the native transform and one with the alternative transform produce the same serialized keys, ciphertexts and decrypted values, so that objects written by one can be read and used by the other.",
 ["inputs","configurations","histories"],"every object and computation",
 "tests run each back end separately and never compare them",
 [M+"ntt/native.rs",M+"ntt/tfhe.rs",M+"rq/convert.rs"],[("common transform interface",M+"ntt/mod.rs"),("coefficient-order dependent code (substitution in transform domain)",M+"rq/mod.rs")],["bytes produced by the two builds, cross-read"])
p("C24","Moving a ciphertext between levels preserves its plaintext",
 "Switching a ciphertext down, to any later level or to the last usable one, keeps its plaintext whenever the noise allows, scales the noise with the modulus plus the analytical rounding term, and yields a ciphertext of exactly the requested level that works with every operation of that level. Levels only go down: asking for an impossible or earlier level is an error that leaves the ciphertext unchanged. Plaintexts and keys of a level combine with ciphertexts of that level however these reached it.",
 ["histories","inputs","configurations"],"every sequence of level changes interleaved with operations, for every parameter set",
 "tests switch fresh ciphertexts one level at a time",
 [B+"ciphertext.rs",B+"plaintext.rs",B+"context/level.rs",B+"parameters.rs",M+"rq/mod.rs"],[("polynomial switch down",M+"rq/mod.rs: switch_down"),("level bookkeeping",B+"ciphertext.rs: level, switch_to_level"),("level chain",B+"context/level.rs")],["level, components, reference phase before and after"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
