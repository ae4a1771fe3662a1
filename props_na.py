"""Properties of kyber-rs that this family of technique cannot decide here."""
from registry import na

na('N01', 'Signatures cannot be forged and ciphertexts reveal nothing',
   'Nobody without the secret key produces a Schnorr, EdDSA or DSS signature that verifies, and nobody without the recipient\'s key learns anything about an ECIES plaintext or a sealed deal. Fewer than a threshold of shares give no information about a shared secret.',
   ['inputs'], 'all adversaries, keys and messages', 'an adversary is not a test input',
   ['src/sign/schnorr/schnorr_sig.rs', 'src/encrypt/ecies/ecies_impl.rs', 'src/share/poly.rs'],
   [('signatures', 'sign::schnorr, sign::eddsa, sign::dss'), ('encryption', 'encrypt::ecies, dh'), ('sharing', 'share::poly')],
   'Unforgeability and secrecy are computational statements about probability distributions and adversaries; no dataflow or type argument over the source bounds them. '
   'What the source contributes (nonces, binding, thresholds, checks before acceptance) is decided by S01-S06, E01, E02, P01-P04, R01-R03, V01-V09, D01-D09.')

na('N02', 'Honest DKG runs finish and all participants obtain the same public key',
   'If at least a threshold of participants follow a distributed key generation or a resharing and all their messages are eventually delivered, in any order, then each of them finishes, with the same qualified set and the same public key, and any threshold of their shares recovers the same secret.',
   ['schedules', 'histories'], 'all message orders and all behaviours of the other participants', 'tests deliver messages in one order',
   ['src/share/dkg/pedersen/dkg.rs', 'src/share/dkg/rabin/dkg.rs'],
   [('run', 'process_deal, process_response, process_justification, dist_key_share in both dkg modules')],
   'Termination and agreement quantify over the joint history of several nodes exchanging messages through a caller-owned network, of which the crate contains only the local steps; there is no global transition system in the source to analyse, and exploring schedules is model checking, another family. '
   'The local guarantees that agreement rests on (what is accepted, counted, qualified and summed, whatever the order) are decided by V01-V09 and D01-D09.')

na('N03', 'Encodings agree byte for byte with the Go implementation of the same suite',
   'Points, scalars, keys, signatures, ciphertexts and signed digests equal those of the Go library this crate is ported from, so that nodes of both can take part in one protocol.',
   ['inputs'], 'all values', 'no test compares with the other implementation',
   ['src/group/edwards25519/point.rs', 'src/share/vss/pedersen/vss.rs', 'src/encoding/encodings.rs'],
   [('encodings', 'marshal_binary and hash functions of all types')],
   'The reference is not part of the repository and cannot be fetched, so there is nothing to compare the source with; and the crate deliberately uses BLAKE3 and bincode where the other uses BLAKE2 and protobuf. Standardised parts (Ed25519 encodings and equations) are decided by G01-G10, S01, S02, S06.')

na('N04', 'Secret operations take the same time whatever the secret',
   'The time taken by operations on secret scalars and keys does not depend on their value, down to the instructions the compiler emits and the processor executes.',
   ['inputs'], 'all secrets, on all targets', 'tests do not measure time',
   ['src/group/edwards25519/fe.rs', 'src/group/edwards25519/ge_mult.rs', 'src/group/integer_field/integer.rs'],
   [('arithmetic', 'field, scalar and group arithmetic'), ('integers', 'Int and the scalar operations built on it')],
   'Time is decided by code generation and hardware, which the source does not determine, and inversion, decoding and printing of scalars go through arbitrary-precision integers of a dependency that are variable-time by nature. '
   'What the source can guarantee, that control flow and addresses of the constant-time part do not depend on secrets, is claimed as G03.')
