from registry import prop, na, STATIC_NOTE
SG = 'src/sign/'
prop('S01', 'Signature verification accepts only canonical, full-order, valid signatures',
     'For every key, message and byte string, Schnorr verification, both EdDSA verification functions and DSS verification succeed only if the signature is exactly one encoded point R followed by one encoded scalar s, R and the public key are canonically encoded and neither has small order, and s is canonical. '
     'They succeed only if s*B = R + H(R || A || message)*A, where the hash covers the encoded R, the encoded public key and the whole message.',
     ['inputs'], 'every public key, message and signature byte string, of any length',
     'tests try a few good signatures, a few malleated ones and a table of small-order points; acceptance quantifies over all byte strings',
     [SG + 'schnorr/schnorr_sig.rs', SG + 'eddsa/eddsa_sig.rs', SG + 'dss/dss_sig.rs', 'src/group/edwards25519/point.rs', 'src/group/edwards25519/scalar.rs'],
     [('Schnorr verification', 'sign::schnorr::schnorr_sig::{verify, verify_with_checks}'), ('EdDSA verification', 'sign::eddsa::eddsa_sig::{verify, verify_with_checks}'), ('DSS verification', 'sign::dss::dss_sig::verify')],
     'sign',
     'Every accepting exit of the four verifiers must carry, among the facts that hold on every path to it: length = 64, canonical(s), canonical(R), not small_order(R), canonical(A), not small_order(A), and a point equality whose linear form over the decoded inputs is s*B - R - H(R||A||msg)*A = 0. Helpers are inlined; equalities are compared as linear forms, so rearrangements are equal.',
     STATIC_NOTE + 'Decides which checks dominate acceptance; the group arithmetic itself and the meaning of canonical and small-order are other properties (G01, G02).', floor=28)
prop('S02', 'Produced signatures satisfy the verification equation',
     'For every key and message, a Schnorr or EdDSA signature is enc(R) || enc(s) with s*B = R + H(R || A || message)*A identically, A being the signer\'s public key. '
     'A DSS partial signature is the share beta_i + H(R || A || message)*alpha_i of that equation with the signer\'s own index and session identifier, signed over share, index and session with the signer\'s long-term key, and the final DSS signature is the random key\'s public point followed by the scalar recovered from the partial signatures.',
     ['inputs'], 'all keys, messages, nonces and key shares',
     'tests sign a handful of messages; a formula that differs only for some keys or messages is not sampled',
     [SG + 'schnorr/schnorr_sig.rs', SG + 'eddsa/eddsa_sig.rs', SG + 'dss/dss_sig.rs'],
     [('Schnorr signing', 'sign::schnorr::schnorr_sig::sign'), ('EdDSA signing', 'sign::eddsa::eddsa_sig::EdDSA::sign'), ('DSS partial and final signature', 'sign::dss::dss_sig::DSS::{partial_sig, signature}')],
     'sign',
     'The returned value is computed symbolically as enc(R)||enc(s) with R a linear form and s a polynomial over key, nonce and hash; s*B - R - H(R||A||msg)*A must normalise to zero. DSS values are compared with the corresponding polynomial and record.',
     STATIC_NOTE + 'Exact for ring identities over the scalar field; it does not decide the limb arithmetic underneath.', floor=7)
prop('S03', 'Signature nonces are fresh or derived from a secret and the whole message',
     'A Schnorr nonce is exactly one scalar picked from the random stream of the suite. An EdDSA nonce is the hash of the key\'s secret prefix followed by the whole message, and every way of building an EdDSA key makes that prefix the upper half of a hash of its secret.',
     ['inputs', 'histories'], 'all keys and messages, and every way a key object can be constructed',
     'a reused or predictable nonce still verifies, so tests that sign and verify cannot see it',
     [SG + 'schnorr/schnorr_sig.rs', SG + 'eddsa/eddsa_sig.rs'],
     [('nonce generation', 'sign::schnorr::schnorr_sig::sign, sign::eddsa::eddsa_sig::EdDSA::sign'), ('key construction', 'EdDSA::new, From<Pair>, unmarshal_binary')],
     'sign', 'The nonce is read off the symbolic result of sign(): its value must be exactly pick(random_stream(suite)), or set_bytes(H(prefix||msg)); the prefix field is evaluated at every exit of every constructor.',
     STATIC_NOTE + 'The quality of the stream itself is R01 to R03.', floor=5)
prop('S04', 'DSS accepts only valid partial signatures, each participant once',
     'A partial signature is accepted only if its index is that of a participant, its signature over share, index and session verifies under that participant\'s key, its session identifier is the local one, no partial signature of that participant was accepted before, and the share satisfies gamma*B = R_i + H(R || A || message)*A_i. '
     'An accepted partial signature is recorded together with its participant, a rejected one leaves the session unchanged, and the own partial signature is stored at most once.',
     ['inputs', 'histories'], 'every message from any peer, in every order and repetition',
     'tests deliver well-formed partial signatures and three or four broken ones; acceptance quantifies over all messages and prior histories',
     [SG + 'dss/dss_sig.rs'], [('processing a partial signature', 'sign::dss::dss_sig::DSS::process_partial_sig'), ('own partial signature', 'sign::dss::dss_sig::DSS::partial_sig')],
     'sign', 'Facts that dominate the accepting exits of process_partial_sig must include the five checks; the final values of the partials list and of the index set are compared on accepting and rejecting exits; each store in partial_sig must be guarded.',
     STATIC_NOTE, floor=9)
prop('S05', 'A DSS signature needs a threshold of partial signatures of its session',
     'A DSS signature is produced only when at least t partial signatures are stored, from all of them, at the threshold and participant count of the session; the readiness query is true exactly in that case. '
     'A session takes over the given threshold, message, participants and secret, verifies with the commitments of the given long-term and random keys, has a session identifier that covers the commitments of both keys, and exists only for someone whose public key is in the participant list, its position there being the own index.',
     ['inputs', 'histories'], 'all sessions, thresholds and numbers of stored partial signatures',
     'tests run one honest group; the boundary between t-1 and t and the session binding are sampled once or not at all',
     [SG + 'dss/dss_sig.rs'], [('final signature', 'sign::dss::dss_sig::DSS::{signature, enough_partial_sig}'), ('constructor', 'sign::dss::dss_sig::new_dss')],
     'sign', 'Exits of signature(), enough_partial_sig() and new_dss() are checked for the guarding facts and for the symbolic values of the constructed session.',
     STATIC_NOTE + 'recover_secret is the subject of P01.', floor=7)
prop('S06', 'EdDSA keys are derived, clamped and encoded as specified',
     'An EdDSA key generated from a stream or decoded from 64 bytes has the clamped lower half of the hash of its 32-byte seed as secret (low three bits and top bit cleared, second highest bit set), the upper half as prefix, and secret*B as public key; a read failure of the stream is reported. '
     'Encoding yields seed || public key and fails for a key without a 32-byte seed; decoding rejects any other length; a new private key of the curve is clamped the same way.',
     ['inputs'], 'all seeds and encodings',
     'a wrong clamp mask shows only for the seeds whose affected bits differ; tests use a few vectors',
     [SG + 'eddsa/eddsa_sig.rs', 'src/group/edwards25519/curve.rs'], [('key constructors and codecs', 'EdDSA::new, unmarshal_binary, marshal_binary'), ('curve key generation', 'group::edwards25519::curve::Curve::{new_key, new_key_and_seed_with_input}')],
     'sign', 'The fields of the constructed key are evaluated symbolically; the clamp is compared with the specification for all 256 values of the two affected bytes, every other byte must be unchanged.',
     STATIC_NOTE, floor=10)
