#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept as a script so that the long texts stay reviewable."""
import json,sys,os
P=[]
def p(id,title,statement,text,why,files,mech,over=("inputs",),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=None)))

p("C01","An accepted signature share opens both signer commitments",
  "A signature share is accepted for a signer only if its numerator opens theta*Lambda_j + rho*KeyTimesLambda_j and its denominator opens randomizer*Lambda_j + KappaTimesLambda_j, where theta = hash + rho*tweak and rho, tweak and randomizer are the ones derived from the message, randomness, path and transcripts. A share with a missing or non-Pedersen half is rejected.",
  "every share, signer index, message hash, randomness, derivation path and set of transcripts",
  "The only test verifies honestly generated shares of one run; nothing feeds a share that should be rejected, and acceptance must be decided for all of them.",
  ["sign/share.go","sign/sign.go"],[("share verification","sign/share.go Verify"),("re-randomisation","sign/sign.go DeriveRho")],observe=["error result of share verification"])
p("C02","A share computed from matching openings is always accepted",
  "For openings of the lambda, kappa*lambda and key*lambda transcripts that are consistent with their commitments at a signer's index, the share computed from them is accepted by share verification for that signer. Computing a share from openings of another kind fails with an error.",
  "every message, randomness, path, transcript set, signer index and consistent opening triple",
  "One fixed-seed run exercises one message and path; agreement of the two computations has to hold for all values.",
  ["sign/share.go","sign/sign.go","poly/commitment.go"],[("share computation","sign/share.go NewThresholdEcdsaSigShareInternal"),("share verification","sign/share.go Verify")])
p("C03","Combining shares yields r, low s = numerator/denominator, or an error",
  "Combining fewer signature shares than the reconstruction threshold, or shares that are not Pedersen openings, fails. Otherwise the result's r is the re-randomised presignature's r and its s is the interpolated numerator divided by the interpolated denominator at zero, replaced by its negation exactly when it is in the upper half of the scalar range.",
  "every set of shares (size, indices, values), threshold and transcript pair",
  "One 10-node run combines all shares; thresholds, subsets and both halves of the s range are unsampled.",
  ["sign/combined_sig.go","poly/lagrange.go","curve/k256_scalar.go"],[("combination","sign/combined_sig.go NewThresholdEcdsaCombinedSigInternal"),("low-s test","curve/k256_scalar.go IsHigh")])
p("C04","Signature verification accepts only valid low-s ECDSA signatures",
  "A combined signature is accepted only if r and s are non-zero, s is not in the upper half, r is the r of the re-randomised presignature, and G*(hash/s) + PK*(r/s) is a non-identity point with the x coordinate of that presignature, PK being the master key plus G times the derived tweak. A signature meeting all of this is accepted.",
  "every signature, message hash, randomness, derivation path and transcript pair",
  "Tests only ever verify one correct signature; rejection of every other pair cannot be sampled.",
  ["sign/combined_sig.go","sign/sign.go"],[("verification","sign/combined_sig.go Verify")])
p("C05","Presignature re-randomisation binds every input",
  "The randomizer is the random-oracle scalar, under its own domain separator, of exactly the randomness, the message hash, the presignature point and the key tweak; the re-randomised presignature is the presignature plus G times it, and r is its x coordinate reduced to a scalar. A presignature transcript that is not an unmasked interpolated one is refused.",
  "every message hash, randomness, path and transcript pair",
  "A dropped or swapped oracle input keeps honest runs consistent, so no round-trip test can notice it.",
  ["sign/sign.go","ro/ro.go"],[("re-randomisation","sign/sign.go DeriveRho")])
p("C06","Derived public keys match the key signatures verify under",
  "Deriving a public key from the serialized master key and a path yields the serialization of master + G*tweak, with the same tweak and chain key that signing and verification derive from the transcript of that master key. An undecodable master key is refused.",
  "every master key and derivation path",
  "Tests compare fixed vectors for a few paths.",
  ["sign/sign.go","key/key_derivation.go"],[("public derivation","sign/sign.go DerivePublicKey"),("tweak","key/key_derivation.go DeriveTweak")])
p("C07","Each derivation step is the extended BIP32 public child derivation",
  "Starting from the master key and a 32-byte zero chain key, each path element replaces them by key + G*offset and the right half of HMAC-SHA512(chain key, compressed key || index), offset being the left half; the tweak is the sum of the offsets. A step whose left half is not a canonical scalar, or whose new key is the identity, yields the result of the step for the next index instead; the next index is the big-endian increment with carry, growing by a byte on overflow.",
  "every master key and path of indices of any length, including indices that overflow and left halves outside the scalar range",
  "The retry case has probability 2^-128 and is unreachable by tests; carry chains are sampled at a few lengths.",
  ["key/key_derivation.go"],[("child step","key/key_derivation.go ckdpub"),("increment","key/key_derivation.go Next")])
p("C08","Public dealing verification accepts only well-formed dealings",
  "A dealing is publicly accepted only if its commitment has exactly threshold coefficients, its ciphertext has exactly the expected number of recipients and a valid proof of possession for this dealer and context, commitment and ciphertext kinds fit the operation, and the operation's proof obligation holds: no proof for random, matching constant term for unmasked resharing, a valid equal-openings proof for masked resharing, a valid product proof for multiplication. Anything else is rejected with an error.",
  "every dealing, operation, threshold, dealer index, recipient count and context",
  "Tests try four wrong-argument variations of honest dealings; malformed dealings, kinds and proofs are not enumerated.",
  ["dealings/dealings.go","mega/ciphertext.go","mega/mega.go","zk/equal_opening.go","zk/product.go"],[("public verification","dealings/dealings.go PubliclyVerify")])
p("C09","Decrypted shares are released only if they open the commitment",
  "Opening a dealing, privately verifying it, or decrypt-and-check succeeds only if the ciphertext's proof of possession verifies and the decrypted share opens the dealing's commitment at the receiver's index; the returned opening is that share. A receiver index outside the ciphertext is refused.",
  "every dealing, key pair, dealer index, receiver index and context",
  "Corruption tests sample a few receivers and one way of corrupting.",
  ["mega/ciphertext.go","dealings/dealings.go","dealings/commitment.go"],[("decrypt and check","mega/ciphertext.go DecryptAndCheck"),("private verification","dealings/dealings.go PrivateVerify")])
p("C10","Created dealings are accepted by everyone they are meant for",
  "A dealing created for a secret is accepted by public verification for its kind, dealer, context and threshold when the secret matches the commitments being reshared or multiplied, and every recipient's decrypted share opens its commitment. The dealt constant term is the reshared secret, the product, or fresh randomness as the kind demands.",
  "every kind of secret, threshold, recipient set, dealer index, context and seed",
  "Tests use a handful of sizes with a fixed seed.",
  ["dealings/dealings.go","mega/ciphertext.go","poly/commitment.go","zk/equal_opening.go","zk/product.go"],[("dealing creation","dealings/dealings.go NewIDkgDealingInternal")])
p("C11","Transcripts combine exactly the verified dealings of the right shape",
  "A transcript is created only if every dealing commitment has threshold coefficients, the operation's inputs have the required commitment kinds, and there are at least as many dealings as the operation needs; otherwise creation fails. Its commitment is the coefficient-wise sum (random) or Lagrange interpolation at zero over the dealer indices (resharing, multiplication) of all dealings, of the operation's kind, and resharing an unmasked value fails unless the constant term is preserved.",
  "every operation, threshold and set of dealings",
  "Tests cover a few node counts; insufficient or mixed-kind dealings and swapped indices are barely sampled.",
  ["dealings/transcript.go"],[("transcript creation","dealings/transcript.go NewTranscriptInternal"),("interpolation","dealings/transcript.go CombineCommitmentsViaInterpolation")])
p("C12","Combined and reconstructed openings always match their commitment",
  "Openings combined for a transcript, or a share reconstructed from other receivers' openings, are returned only if they open the corresponding commitment at the receiver's index; they are the sum or the Lagrange interpolation of all supplied openings at the respective indices. Too few openings, openings of another kind and inconsistent ones yield an error.",
  "every transcript, set of openings, receiver index and threshold",
  "Tests reconstruct from honest openings only.",
  ["dealings/commitment.go","dealings/transcript.go","poly/commitment.go"],[("combination","dealings/commitment.go CombineOpenings"),("reconstruction","dealings/transcript.go ReconstructShareFromOpenings")])
p("C13","A complaint is upheld only against a dealing that really fails",
  "A complaint is accepted only if its discrete-log-equality proof verifies for the complainer's key, the dealing's ephemeral key and the claimed shared secret, bound to context, dealer and complainer, and the share decrypted with that secret does not open the dealing's commitment at the complainer's index. Commitment and ciphertext kinds that do not belong together are rejected.",
  "every complaint, dealing, dealer and complainer index, key and context",
  "Tests check a handful of wrong-argument variations.",
  ["complaints/complaints.go","mega/ciphertext.go","zk/dlog.go"],[("complaint verification","complaints/complaints.go Verify")])
p("C14","Complaints are raised for exactly the failing dealings and verify",
  "Generating complaints yields one complaint for each dealing whose decrypt-and-check fails for this receiver and none for the others, and fails if there is none. Each complaint carries the receiver's shared secret with that dealing's ephemeral key and a proof that verification accepts for the receiver's key.",
  "every set of dealings, receiver, key pair, context and seed",
  "The test damages one dealing in one set.",
  ["complaints/complaints.go"],[("complaint generation","complaints/complaints.go GenerateComplaints")])
p("C15","Ciphertexts are only used after their proof of possession verifies",
  "Checking or decrypting a ciphertext succeeds only if its proof of possession verifies: a discrete-log-equality proof between the ephemeral key over G and the possession key over a base hashed from ciphertext kind, context, dealer index and ephemeral key. Honest encryption always produces a proof that verifies under the same context and dealer.",
  "every ciphertext, context, dealer index and kind",
  "Tests alter one argument at a time on honest ciphertexts.",
  ["mega/mega.go","mega/ciphertext.go","zk/dlog.go"],[("proof of possession","mega/mega.go VerifyPop, ComputePopBase"),("gate","mega/ciphertext.go Decrypt, CheckValidity")])
p("C16","Decryption inverts encryption for every recipient",
  "Encrypting one plaintext (or pair) per recipient and decrypting with the matching private key, index, dealer and context returns that recipient's plaintext; the pad is a random-oracle output bound to kind, dealer, recipient index, context, recipient key, ephemeral key and shared secret. Mismatched or empty recipient and plaintext lists are refused.",
  "every list of plaintexts and recipients, key pair, index, dealer, context and seed",
  "Round-trip tests sample small lists; a pad input dropped on both sides stays consistent and invisible.",
  ["mega/ciphertext.go","mega/mega.go"],[("pad","mega/mega.go megaHashToScalars"),("encrypt/decrypt","mega/ciphertext.go")])
p("C17","ZK proof verification recomputes the challenge over everything",
  "Each of the three proofs is accepted exactly when its challenge equals the random-oracle scalar, under that proof's own domain separator, of the associated data, all statement points and the commitments recovered from the response.",
  "every proof, statement and associated data",
  "Completeness tests pass even when an input is left out of the challenge.",
  ["zk/dlog.go","zk/equal_opening.go","zk/product.go"],[("verification","zk/*.go Verify, HashToChallenge, RecoverCommitments")])
p("C18","Honestly created ZK proofs always verify",
  "A proof created from a witness verifies against the statement that witness defines with the same associated data, for discrete-log equality, equal openings and product.",
  "every witness, base pair, seed and associated data",
  "Tests sample random witnesses of one seed.",
  ["zk/dlog.go","zk/equal_opening.go","zk/product.go"],[("creation","zk/*.go Create")])
p("C19","Every hash, seed and proof purpose has its own domain separator",
  "The domain separators and seed labels of different purposes (proof kinds, encryption pads, possession bases, ephemeral keys, complaint data, presignature re-randomisation, dealing polynomials, encryption and proof seeds) are pairwise different and non-empty, and secrets drawn for different purposes in one operation come from different seed labels or different draws.",
  "every pair of purposes reachable in the library",
  "Shared separators do not change any round trip.",
  ["mega/ciphertext.go","zk/equal_opening.go","dealings/dealings.go","complaints/complaints.go","sign/sign.go"],[("separators","mega/ciphertext.go *DomainSep, zk/equal_opening.go constants")],over=("programs",))
p("C20","Random-oracle inputs are encoded unambiguously and completely",
  "The oracle input is the concatenation in name order of length-prefixed name, type byte, 4-byte big-endian length and data of every added input, integers being 8-byte big-endian and points and scalars tagged; outputs are taken under the given domain separator (suffixed with the curve for scalars and points). A repeated, empty or over-long name is refused and an oracle without inputs yields an error.",
  "every sequence of inputs of any length, name and type",
  "A known-answer test fixes one short sequence; injectivity is about all pairs.",
  ["ro/ro.go"],[("encoding","ro/ro.go AddInput, formRoInput")])
p("C21","Hash expansion, hash-to-scalar and hash-to-curve follow RFC 9380",
  "Message expansion is expand_message_xmd with SHA-256, hashing over-long separators first, and refuses lengths above 255 blocks; hash-to-scalar and hash-to-field take 48 big-endian bytes per element reduced modulo the order; hash-to-curve adds the two mapped points, using the secp256k1 isogeny and simplified SWU constants.",
  "every message, separator, output length and count",
  "Known-answer tests cover a few lengths; block counts and long separators are unsampled.",
  ["seed/xmd.go","curve/hash_to_curve.go","curve/k256_fe.go"],[("expansion","seed/xmd.go ExpandMessageXmd"),("mapping","curve/hash_to_curve.go")])
p("C22","Results depend only on the arguments",
  "Every library operation is a function of its arguments, including the seed or generator passed in: it reads no clock, environment, global generator or mutable package variable, starts no goroutine, and iterates no built-in map in a way that affects results. No operation changes package-level state.",
  "every call and every history of earlier calls in the process",
  "Hidden state shows only across particular histories or schedules.",
  ["curve","poly","zk","mega","dealings","complaints","sign","key","ro","seed","rand"],[("seeded generators","seed/seed.go, rand/chacha20.go")],over=("programs","histories","schedules"))
p("C23","Seeds and generators derive the documented byte streams",
  "A seed is the 32-byte expansion of its input under its label, a derived seed expands the parent's value under the given label, and its generator is the ChaCha20 key stream of the seed with zero nonce; filling a buffer overwrites it with the next key-stream bytes whatever it held. A random scalar is the first canonical 32-byte big-endian draw.",
  "every seed, label, buffer content and draw sequence",
  "Known answers start from zeroed buffers; the rejection branch has probability 2^-128.",
  ["seed/seed.go","rand/chacha20.go","curve/scalar.go"],[("seed","seed/seed.go"),("generator","rand/chacha20.go"),("scalar draw","curve/scalar.go Random")])
p("C24","Polynomial operations compute the mathematical result",
  "Evaluation, addition, multiplication, scaling and equality of polynomials agree with the mathematical operations on their coefficients, missing coefficients being zero; random polynomials have exactly the requested number of coefficients and the requested constant term; interpolation returns a polynomial through all samples or fails on a repeated abscissa.",
  "every polynomial, scalar and sample list of any length",
  "Tests sample lengths below 50 with random coefficients, never zero or sparse ones.",
  ["poly/poly.go"],[("polynomial arithmetic","poly/poly.go")])
p("C25","Lagrange coefficients are exact and duplicate indices are refused",
  "The coefficients for a list of node indices at a value are prod_{j!=i}(x_j - v)/(x_j - x_i) with x = index + 1; an empty list, a repeated index and a sample list of another length are refused. Interpolation returns the coefficient-weighted sum of all samples.",
  "every list of node indices and evaluation value",
  "Tests sample random lists of a few sizes.",
  ["poly/lagrange.go"],[("coefficients","poly/lagrange.go AtValue"),("interpolation","poly/lagrange.go InterpolateScalar, InterpolatePoint")])
p("C26","Commitments cover whole polynomials and open only to them",
  "A commitment created for a polynomial has exactly the requested number of points, the i-th committing to the i-th coefficient, and creation fails rather than dropping a non-zero coefficient. An opening is accepted at a node index exactly when it is of the commitment's kind and commits to the commitment's evaluation at index + 1; commitments are equal only if kind, length and all points agree.",
  "every polynomial, mask, length, node index and opening",
  "Tests use random dense polynomials of the exact length and honest openings.",
  ["poly/commitment.go","poly/poly.go"],[("creation","poly/commitment.go Create"),("opening check","poly/commitment.go CheckOpening")])
p("C27","Only canonical encodings of curve points decode",
  "Decoding a point succeeds only for the all-zero identity encoding or a 02/03-prefixed coordinate below the field prime that belongs to a curve point (and, in the any-format decoder, uncompressed coordinates below the prime on the curve); the result is that point with the encoded parity. Everything else, including unknown curves and tags and wrong lengths, is an error.",
  "every byte string",
  "Tests decode a few valid points and flip a tag byte.",
  ["curve/k256_point.go","curve/point.go","curve/encode.go","mega/key.go"],[("decoding","curve/k256_point.go decompress, fromUncompressed; curve/point.go Deserialize")])
p("C28","Only canonical scalar encodings decode",
  "Decoding a scalar or field element succeeds only for exactly 32 big-endian bytes below the modulus and yields that value; wide decoding reduces at most 64 big-endian bytes modulo the modulus and refuses longer input; tagged decoding strips and checks the curve tag.",
  "every byte string",
  "Tests decode values produced by encoding.",
  ["curve/k256_scalar.go","curve/scalar.go","curve/k256_fe.go","curve/fe.go"],[("decoding","curve/k256_scalar.go Deserialize, FromWideBytes")])
p("C29","Encoders and decoders agree on every format",
  "Encoding then decoding returns the same value for scalars, points (compressed, tagged, uncompressed, CBOR), commitments and openings of both kinds, with the kind preserved; encoders emit the documented lengths and tags.",
  "every value of every serializable type",
  "Only the simple commitment, the simple opening and plain points are round-tripped by tests.",
  ["curve/k256_point.go","curve/k256_scalar.go","curve/point.go","curve/scalar.go","poly/commitment.go"],[("encoders/decoders","curve/*, poly/commitment.go Serialize, Deserialize")])
p("C30","Malformed bytes produce errors, not panics",
  "No byte string makes decoding of a point, scalar, field element, public or private key, commitment or opening (plain, tagged or CBOR) panic; decoding returns either a usable non-nil value or an error.",
  "every byte string given to every decoder",
  "Tests try truncations of two encodings.",
  ["curve/encode.go","curve/k256_point.go","curve/k256_scalar.go","curve/point.go","curve/scalar.go","poly/commitment.go","mega/key.go"],[("decoders","listed files")])
p("C31","Operations never modify their arguments",
  "No operation modifies a value reachable from its arguments, except that arithmetic methods store their result in their receiver and a generator advances; results that are later modified in place are freshly created. In particular keys, transcripts, dealings, openings, polynomials passed as operands and byte slices are unchanged after every call.",
  "every call on every input, successful or failing",
  "A test would have to snapshot every argument of every call; the existing ones compare none.",
  ["curve","poly","zk","mega","dealings","complaints","sign","key","ro"],[("clone-before-mutate discipline","all packages")])
p("C32","Clones share nothing with the original",
  "A clone of a scalar, point, field element, proof, commitment or ciphertext is equal to the original and no later modification of either is visible in the other.",
  "every cloneable value and later modification",
  "Tests only use clones as copies.",
  ["curve/k256_point.go","curve/k256_scalar.go","curve/k256_fe.go","zk","poly/commitment.go","mega/ciphertext.go","dealings/zk_proof.go"],[("Clone methods","listed files")])
p("C33","No failure is swallowed",
  "When a step of an operation reports an error, the operation reports an error too and returns no usable result, unless the failure is part of its documented outcome; operations never return neither a result nor an error.",
  "every call of a fallible operation in the library",
  "Most failures cannot be provoked by tests.",
  ["complaints","curve","dealings","key","mega","poly","ro","sign","zk","seed"],[("error returns","all packages")],over=("inputs","programs","fault_sequences"))
p("C34","Secret values never reach text output",
  "Private keys, openings, secret shares, polynomials, seeds, nonces and Diffie-Hellman shared secrets are never written to logs, standard output, panics, error messages or human-readable strings (String, ToString, Error and the like); verdicts, kinds, lengths, indices, commitments, proofs and signature shares may be.",
  "every execution of every library operation",
  "Absence of a flow cannot be shown by sampling outputs.",
  ["poly/commitment.go","mega/key.go","sign","dealings","complaints","seed"],[("redacted strings","poly/commitment.go ToString")],over=("programs",))
p("C35","Unknown kinds and curves are refused",
  "Every operation that can report an error and distinguishes kinds of secret, operation, commitment, opening, ciphertext, proof, curve or encoding either handles all kinds or refuses the others with an error; none returns a nil result without an error.",
  "every kind, including ones not known to the library",
  "Tests construct only known kinds.",
  ["dealings/dealings.go","dealings/transcript.go","dealings/secret_shares.go","poly/commitment.go","curve/point.go","curve/scalar.go"],[("kind switches","listed files")])
p("C36","Curve arithmetic methods compute the operation they are named for",
  "Addition, subtraction, multiplication, negation, inversion, squaring, doubling, scalar multiplication, linear combination, equality, zero, sign and half-range tests on scalars, field elements and points return the mathematical result for their operands, for every aliasing of receiver and operands; multiplying by a node index multiplies by index + 1.",
  "every operand, including aliased receivers and operands",
  "Tests sample non-aliased random operands.",
  ["curve/k256_scalar.go","curve/k256_point.go","curve/k256_fe.go","curve/point.go","curve/scalar.go"],[("wrappers","listed files")])
p("C37","Transcripts compare equal exactly when their commitments agree",
  "Comparing two transcripts returns zero exactly when both combined commitments have the same stable representation, which lists kind, curve and every point in order, and otherwise orders them as byte strings.",
  "every pair of transcripts",
  "No test compares transcripts.",
  ["dealings/transcript_operation.go","poly/commitment.go"],[("comparison","dealings/transcript_operation.go Compare")])
p("C38","Key pairs and openings map to the right public objects",
  "A generated key pair's public key is G times its private scalar, encoded keys decode to the same key, and secret shares are formed from openings according to their kinds: one unmasked opening reshares it, one masked opening reshares it with its mask, an unmasked and a masked one are multiplied; other combinations are refused.",
  "every seed, key encoding and pair of openings",
  "Tests fix one key pair and never convert openings.",
  ["mega/key.go","dealings/secret_shares.go"],[("key generation","mega/key.go"),("secret kinds","dealings/secret_shares.go From")])
p("C39","Execution time does not depend on secret values",
  "The time an operation takes does not depend on the values of private keys, shares, nonces or polynomial coefficients.",
  "every secret value",
  "Timing is not observed by tests.",
  ["curve","zk","mega","sign"],[("constant-time field arithmetic","external curve library")],over=("inputs","programs"))
p("C40","Random scalars and polynomials are indistinguishable from uniform",
  "Scalars and coefficients drawn from a seeded generator are distributed indistinguishably from uniform over the scalar field.",
  "every seed distribution",
  "A statistical statement over the generator's output distribution.",
  ["rand/chacha20.go","curve/scalar.go","poly/poly.go"],[("rejection sampling","curve/scalar.go Random")])
p("C41","Nonces, ephemeral secrets and free coefficients are fresh independent draws",
  "Proof nonces, the ephemeral secret of a ciphertext, generated private keys, and every coefficient or mask of a dealing that its secret does not determine are scalars drawn from generators of the given seed, and those of one dealing, one key pair batch or one set of complaints are independent of each other: none is constant, repeated, or computed from the witness or from public data.",
  "every seed, witness, recipient list, threshold, context and set of dealings",
  "A repeated or fixed nonce still yields valid proofs, ciphertexts and dealings, so every acceptance test passes while the secret is exposed.",
  ["zk/dlog.go","zk/equal_opening.go","zk/product.go","mega/mega.go","mega/key.go","dealings/dealings.go","poly/poly.go","complaints/complaints.go"],[("nonces","zk/*.go Create"),("ephemeral key and proof seed","mega/mega.go ComputeEphKeyAndPop"),("polynomials","poly/poly.go Random"),("complaint seeds","complaints/complaints.go")])
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
