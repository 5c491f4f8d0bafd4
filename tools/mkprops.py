import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    assert len(title)<=80,(id,len(title)); P.append(d)
IPF="inner_products/src/lib.rs"; DH="dh_commitments/src/"; G="ip_proofs/src/gipa.rs"; T="ip_proofs/src/tipa/mod.rs"; S="ip_proofs/src/tipa/structured_scalar_message.rs"
GR="ip_proofs/src/applications/groth16_aggregation.rs"; PC="ip_proofs/src/applications/poly_commit/mod.rs"; TR="ip_proofs/src/applications/poly_commit/transparent.rs"; SI="sipp/src/lib.rs"; RN="sipp/src/rng.rs"
prop("C01","Inner products equal the sum of element-wise products",
 "For two vectors of equal length, the pairing, multi-exponentiation and scalar inner products each return exactly the sum over all positions of the product of the two entries (the neutral element for empty vectors), whatever the number of worker threads. Vectors of different lengths are answered with an error and never with a value.",
 ["inputs","configurations"],"every pair of vectors of every length, every value (zero, identity, repeated), every thread-pool size",
 "No test exercises the inner-product crate on its own; the only lengths reached indirectly are 8 and below, with random entries and the default thread pool, so chunk boundaries, leftovers and edge values are never reached.",
 [IPF],[("length check then pairing product",IPF+": PairingInnerProduct"),("chunked multi-Miller loop","inner_products/src/lib.rs: cfg_multi_pairing"),("multi-scalar multiplication",IPF+": MultiexponentiationInnerProduct"),("field sum of products",IPF+": ScalarInnerProduct")])
prop("C02","Commitments equal their defining formula and verify exactly their openings",
 "A Pedersen commitment is the sum of key times message, an AFGHO commitment over either source group is the sum of pairings of message and key, and an identity commitment is the message itself; key generation returns exactly the requested number of keys. Checking an opening answers true exactly when the commitment recomputed from that key and message equals the given one, and a key and message of different lengths are answered with an error by the Pedersen and AFGHO schemes.",
 ["inputs"],"every key vector, message vector and candidate commitment, of every length",
 "Each scheme is tested once, at length 8, with one random right and one random wrong message.",
 [DH+"lib.rs",DH+"afgho16/mod.rs",DH+"pedersen/mod.rs",DH+"identity/mod.rs"],
 [("commit delegates to an inner product",DH+"afgho16/mod.rs, pedersen/mod.rs"),("default verify recomputes",DH+"lib.rs: DoublyHomomorphicCommitment::verify"),("random generators",DH+"lib.rs: random_generators")])
prop("C03","Commitments are homomorphic in messages and, where keyed, in keys",
 "Adding two messages (position by position) and committing equals adding the two commitments, and scaling a message scales its commitment; for Pedersen and AFGHO the same holds for keys, and committing concatenated vectors adds the commitments of the parts. The sum of two identity-scheme outputs keeps every position of both, so that the default output of that scheme is neutral.",
 ["inputs"],"every scheme, key, message, scalar and length",
 "No test states any homomorphism; the argument systems only use it implicitly at one size.",
 [DH+"identity/mod.rs",DH+"afgho16/mod.rs",DH+"pedersen/mod.rs",IPF],
 [("output addition and scaling of the identity scheme",DH+"identity/mod.rs: IdentityOutput"),("placeholder key arithmetic",DH+"identity/mod.rs: HomomorphicPlaceholderValue"),("bilinearity of the inner products",IPF)])
prop("C04","Honest generalized inner-product proofs always verify",
 "For every power-of-two vector length including one, every combination of supported commitment schemes and inner products, and every vectors, keys and correctly computed commitments, the prover returns a proof and the verifier accepts it.",
 ["inputs","configurations"],"all vectors and keys of every power-of-two length, all scheme combinations, every hash function",
 "Three scheme combinations at length 8 with random data only; length 1, other lengths and degenerate values are never tried.",
 [G,"ip_proofs/src/lib.rs"],[("recursive halving and folding",G+": GIPA::_prove"),("folding of commitments",G+": _compute_recursive_challenges"),("folding of keys",G+": _compute_final_commitment_keys"),("base check",G+": _verify_base_commitment")])
prop("C05","The inner-product prover refuses false or malformed statements",
 "Proving with checks returns an error, never a proof, when the claimed inner product is not the inner product of the vectors, when any of the three commitments does not open to the vectors or the product, or when the vector length is not a power of two.",
 ["inputs"],"every vectors, keys, claimed product and commitments",
 "No test ever calls the prover on a false statement.",
 [G],[("up-front checks",G+": GIPA::prove")])
prop("C06","The inner-product verifier accepts exactly the folded equations",
 "The verifier accepts if and only if the proof has one round per halving of the key length and the three commitments, folded with the round challenges, equal the commitments of the final messages and their inner product under the keys folded with the same challenges. In particular changing any commitment, round element, final message or key so that an equation breaks, or using keys of other length, is not accepted.",
 ["inputs"],"every keys, commitments and proof (honest, altered or invented), all power-of-two lengths",
 "Tests only verify honest proofs; the gipa tests never present a proof that must be rejected.",
 [G],[("verify",G+": GIPA::verify"),("commitment folding",G+": _compute_recursive_challenges"),("key folding",G+": _compute_final_commitment_keys"),("base check",G+": _verify_base_commitment")])
prop("C07","Round challenges bind the whole round and are shared by both sides",
 "In every halving round the challenge is a non-zero value derived by hashing a retry counter, the previous challenge and all six cross commitments of that round; prover and verifier derive the same challenges for the same messages, and the retry counter advances only past unusable digests.",
 ["inputs","configurations"],"every round of every proof, every hash function including ones that make the first candidates unusable",
 "Tests use one hash whose output is never unusable and only compare prover with verifier, so omitting an element on both sides goes unnoticed.",
 [G,T,S],[("prover challenge loop",G+": GIPA::_prove"),("verifier challenge loop",G+": _compute_recursive_challenges")])
prop("C08","Structured reference strings and keys are well-formed",
 "Setup of size n yields 2n-1 consecutive powers of two independent secrets in the two groups starting at the generators, together with the first power of each secret in the opposite group; the commitment keys are the even powers in order and the verifier key holds the generators and the cross elements. Setup of the polynomial schemes yields the same structure for the requested degrees.",
 ["inputs"],"every size and every secret",
 "Tests never inspect an SRS; a wrong element is only noticed if it breaks an honest run at size 8.",
 [T,S,PC],[("powers of a secret",T+": structured_generators_scalar_power"),("setup",T+": TIPA::setup"),("commitment keys",T+": SRS::get_commitment_keys"),("verifier key",T+": SRS::get_verifier_key")])
prop("C09","Honest trusted-setup inner-product proofs always verify",
 "For every SRS, every power-of-two length including one, every supported scheme combination, and every non-zero shift applied to the left keys, a proof made with the matching commitment keys is accepted by the verifier holding only the verifier key.",
 ["inputs","configurations"],"all SRS secrets, vectors, shifts and power-of-two lengths",
 "Only size 8 and one shift are tested, on random data.",
 [T],[("prover",T+": prove_with_srs_shift"),("KZG opening of the folded key",T+": prove_commitment_key_kzg_opening"),("verifier",T+": verify_with_srs_shift"),("polynomial in product and coefficient form",T+": polynomial_*_from_transcript")])
prop("C10","The trusted-setup inner-product verifier accepts exactly its equations",
 "The verifier accepts if and only if both final commitment keys open, at a challenge point hashed from the last round challenge and both final keys, to the product-form polynomial of the round challenges (the left one with the given shift), and the folded commitments equal the commitments of the final messages and their product under those final keys. Altering any part of the proof, commitments, keys or shift so that one of these equations breaks leads to rejection.",
 ["inputs"],"every verifier key, commitments, shift and proof (honest, altered or invented)",
 "Tests only verify honest proofs.",
 [T],[("verifier",T+": verify_with_srs_shift"),("opening checks",T+": verify_commitment_key_g1_kzg_opening, verify_commitment_key_g2_kzg_opening")])
prop("C11","Honest structured-scalar proofs always verify",
 "For every power-of-two length including one and every scalar, when the right vector is the consecutive powers of that scalar starting at one, a proof for correctly computed commitments is accepted, both with transparent keys and with an SRS.",
 ["inputs","configurations"],"all vectors, keys, scalars (including zero and one), lengths",
 "One random scalar at size 8 per variant.",
 [S],[("prover and verifier with keys",S+": GIPAWithSSM"),("prover and verifier with SRS",S+": TIPAWithSSM"),("powers",S+": structured_scalar_power")])
prop("C12","The structured-scalar verifiers accept exactly their equations",
 "They accept if and only if the folded left commitment and the folded product commitment equal those of the final left message under the (recomputed or opened) final key, with the right message taken as the product-form value of the given scalar at the round challenges, and, in the transparent variant, the proof has the matching number of rounds and its own final right message and placeholder commitments are consistent with that. Altering the scalar, a commitment, the key or any part of the proof so that an equation breaks leads to rejection.",
 ["inputs"],"every key, scalar, commitments and proof (honest, altered or invented)",
 "Tests only verify honest proofs with the honest scalar.",
 [S],[("verifiers",S+": verify_with_structured_scalar_message (both)")])
prop("C13","Aggregating valid Groth16 proofs always verifies",
 "For every verification key, every power-of-two number of valid proofs with their public inputs, and every SRS of that size, aggregation succeeds and the aggregate is accepted, except with the negligible probability that the hashed combination challenge is zero or one.",
 ["inputs"],"all verification keys, number of public inputs, number of proofs",
 "The aggregation has no test at all; only an example and a bench run it.",
 [GR],[("aggregation",GR+": aggregate_proofs"),("verification",GR+": verify_aggregate_proof")])
prop("C14","Aggregate verification accepts only what its equations allow",
 "An aggregate is accepted if and only if both embedded inner-product proofs verify for the contained commitments and claimed values under the challenge hashed from all three commitments, and the randomly combined Groth16 equation over all proofs and all public inputs holds. Every proof must come with exactly the number of public inputs the key expects, otherwise the call does not accept.",
 ["inputs"],"all verification keys, public inputs of any shape, and aggregates (honest, altered or invented)",
 "No test; rejection is never exercised.",
 [GR],[("verification",GR+": verify_aggregate_proof"),("powers of the challenge",S+": structured_scalar_power")])
prop("C15","Single-polynomial openings are complete and check the exact equation",
 "For every polynomial that fits the setup and every point (including zero, roots and the secret itself), the opening of a commitment at the true value is accepted; the verifier accepts exactly when the commitment minus the value equals the proof times the secret minus the point; a polynomial too large for the setup is refused.",
 ["inputs"],"all polynomials (including zero, constants and lower degree than the setup), points and candidate proofs",
 "Only exercised inside two larger tests with one random polynomial each.",
 [PC],[("commit, open, verify",PC+": KZG")])
prop("C16","Honest pairing-based polynomial openings always verify",
 "For every bivariate polynomial with at most the configured number of rows and columns and every point, and for every univariate polynomial of at most the configured degree and every point, committing, opening and verifying at the true evaluation accepts; evaluation of a bivariate polynomial returns the true value.",
 ["inputs"],"all polynomials, points and supported degrees",
 "One 8x8 bivariate and one degree-65535 univariate polynomial, at one random point each.",
 [PC],[("bivariate scheme",PC+": BivariatePolynomialCommitment"),("univariate reduction",PC+": UnivariatePolynomialCommitment"),("evaluation",PC+": BivariatePolynomial::evaluate")])
prop("C17","Pairing-based polynomial verification binds commitment, point and value",
 "An opening is accepted if and only if the embedded structured-scalar proof verifies for the commitment, the first coordinate and the contained intermediate commitment, and the contained single-polynomial opening verifies for that intermediate commitment, the second coordinate and the claimed value; the univariate verifier uses the point and its matching power. A wrong value, point, commitment or altered proof is rejected.",
 ["inputs"],"all commitments, points, values and proofs (honest, altered or invented)",
 "Tests never present a wrong value or altered opening.",
 [PC],[("verify",PC+": BivariatePolynomialCommitment::verify, UnivariatePolynomialCommitment::verify")])
prop("C18","Honest transparent polynomial openings always verify",
 "With transparently generated keys, for every bivariate polynomial with at most the configured number of rows and columns and every univariate polynomial of at most the configured degree, at every point, committing, opening and verifying at the true evaluation accepts.",
 ["inputs"],"all polynomials, points and supported degrees",
 "One 8x8 bivariate and one degree-65535 univariate polynomial, at one random point each.",
 [TR],[("bivariate scheme",TR+": BivariatePolynomialCommitment"),("univariate reduction",TR+": UnivariatePolynomialCommitment")])
prop("C19","Transparent polynomial verification binds commitment, point and value",
 "A transparent opening is accepted if and only if both embedded structured-scalar proofs verify: the outer for the commitment, the first coordinate and the contained intermediate commitment, the inner for that intermediate commitment, the second coordinate and the claimed value. A wrong value, point, commitment or altered proof is rejected.",
 ["inputs"],"all keys, commitments, points, values and proofs (honest, altered or invented)",
 "Tests never present a wrong value or altered opening.",
 [TR],[("verify",TR+": BivariatePolynomialCommitment::verify, UnivariatePolynomialCommitment::verify")])
prop("C20","Honest SIPP proofs always verify",
 "For every power-of-two length of at least two, all group vectors and all scaling scalars, a proof made for the true scaled pairing product is accepted for that product.",
 ["inputs","configurations"],"all vectors (including identities), scalars (including zero and one), lengths, hash functions, thread pools",
 "One run at length 32 with random data.",
 [SI],[("prover",SI+": SIPP::prove"),("verifier",SI+": SIPP::verify")])
prop("C21","The SIPP verifier accepts exactly its folded pairing equation",
 "For well-shaped inputs the verifier accepts if and only if the claimed product, folded with all proof elements and the derived challenges, equals the pairing of the two input vectors folded with the same challenges and the given scalars. A claimed product that is false, or any altered proof element or input that breaks this equation, is rejected, and inputs of the wrong shape are refused.",
 ["inputs"],"all inputs, claimed products and proofs (honest, altered or invented)",
 "The only test verifies an honest proof.",
 [SI],[("verifier",SI+": SIPP::verify")])
prop("C22","SIPP challenges bind the statement and every earlier proof element",
 "Every SIPP challenge is drawn from a generator seeded with a hash of both vectors, the scalars and the claimed product, re-seeded in each round with a hash of that round's two proof elements together with the previous seed; prover and verifier draw identical challenges for identical messages.",
 ["inputs","histories"],"all statements, proof prefixes and absorb histories",
 "The test only checks that prover and verifier agree once.",
 [SI,RN],[("seed of the whole statement",SI+": prove, verify"),("seed chaining",RN+": FiatShamirRng::from_seed, absorb")])
prop("C23","Pairing-product helpers return the exact product",
 "The product of pairings of two vectors equals the sum of the pairings of corresponding entries, and with coefficients each term is scaled by its coefficient, for every length of at least one and every thread-pool size.",
 ["inputs","configurations"],"all vectors and coefficients of equal length, all thread-pool sizes",
 "Only used at powers of two up to 32 with the default pool inside one test that compares it with itself.",
 [SI],[("chunked multi-Miller loop",SI+": product_of_pairings_with_coeffs"),("unit coefficients",SI+": product_of_pairings")])
prop("C24","Copies of proofs are faithful",
 "A cloned proof, and a proof written out and read back, contains exactly the same elements as the original and is accepted or rejected exactly as the original is.",
 ["inputs"],"all proofs of the three argument systems that can be cloned and serialized",
 "No test clones or serializes a proof.",
 [G,T,S],[("hand-written Clone",G+", "+T+", "+S+": impl Clone"),("derived serialization",G+", "+T+", "+S)])
prop("C25","Univariate schemes cover their degree and never truncate",
 "A univariate polynomial scheme set up for degree d, for every d including zero, provides room for at least d+1 coefficients with power-of-two shapes that verifier and prover derive alike, and splits a polynomial so that every coefficient appears exactly once at its place. A polynomial with more coefficients than the keys provide for is refused instead of being committed in part.",
 ["inputs"],"all degrees and polynomials, both the pairing-based and the transparent scheme",
 "One degree (65535) with a full-size polynomial.",
 [PC,TR],[("degree split",PC+", "+TR+": bivariate_degrees"),("coefficient split",PC+", "+TR+": bivariate_form")])
prop("C26","Verifiers answer malformed proofs without crashing",
 "Given well-formed keys, a proof whose number of rounds does not match the key length (including none), or aggregated inputs of wrong shape, is answered by the inner-product, structured-scalar and aggregation verifiers with false or an error and not with a crash.",
 ["inputs"],"all proofs with any number of rounds and any elements",
 "No test presents a malformed proof.",
 [G,T,S,GR],[("round-count handling",G+": GIPA::verify, _compute_final_commitment_keys"),("empty transcript handling",T+": verify_with_srs_shift; "+S)])
prop("C27","Challenges depend on the statement being proved",
 "The challenges of a non-interactive inner-product argument depend on the commitments whose relation is proved, so that a prover cannot pick the claimed product after the challenges are known.",
 ["inputs","histories"],"all statements and all adaptively computed proofs",
 "Only honest provers are tested.",
 [G,T,S],[("challenge derivation",G+": GIPA::_prove, _compute_recursive_challenges")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(p)+"\n" for p in P))
