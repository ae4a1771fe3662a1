from registry import prop, na, STATIC_NOTE
PRIM = 'AES-GCM, HKDF, SHA-2 and BLAKE3 themselves are taken from their crates and trusted. '


def p(id, title, st, over, qt, why, files, mech, rule, note='', floor=1):
    prop(id, title, st, over, qt, why, files, mech, 'crypto', rule, STATIC_NOTE + PRIM + note, floor=floor)


p('E01', 'ECIES encrypts the whole message under a fresh shared point',
  'Encrypting to a public key draws an ephemeral scalar from fresh system randomness and outputs its multiple of the base point followed by the whole message, sealed under a key that depends on the ephemeral scalar times the public key. '
  'Decrypting derives, from the private key times the received point, the same key, nonce and additional data, opens everything behind the encoded point, and returns nothing unless the point decoded and the seal verified.',
  ['inputs'], 'all messages, key pairs and ciphertexts', 'tests encrypt one message with one key pair',
  ['src/encrypt/ecies/ecies_impl.rs'], [('hybrid encryption', 'encrypt, decrypt, derive_key')],
  'Both directions are summarised; their key, nonce and additional data are compared as expressions over the shared and the ephemeral point, and the shared points as linear forms.',
  'That the result of the round trip equals the message is decided only up to the correctness of the primitives.', floor=9)
p('E02', 'Authenticated encryption binds key, nonce, text, context',
  'The cipher runs only with a key of exactly 32 bytes, on the given nonce and the whole text, authenticates any additional data the caller gives, and reports every failure of the cipher as an error. '
  'Derived keys are the HKDF output over exactly the given secret and context, of the requested length, and the point-keyed cipher derives its key from the encoded point under the context and authenticates that context in both directions. '
  'The exchanged point is the own private scalar times the remote public point.',
  ['inputs'], 'all keys, nonces, texts and contexts', 'tests seal and open a few fixed texts',
  ['src/dh/dh_impl.rs'], [('cipher', 'Dh::aes_encrypt, aes_decrypt, AEAD'), ('derivation', 'Dh::hkdf, encrypt, decrypt, dh_exchange')],
  'The arguments that reach the cipher and the KDF are compared with the parameters on every success exit, each way the payload can come about separately.', floor=24)
p('R01', 'The random stream mixes every source and never runs without one',
  'The random stream hashes 32 bytes from each of its sources that delivers them, seeds a key stream with the hash and XORs the source buffer with it into the destination. '
  'It fails, without output, if the two buffers differ in length or every source failed, and leaves no source out otherwise. '
  'Built without sources, or as the stream of the suite, it reads operating system entropy.',
  ['inputs', 'fault_sequences'], 'all buffers, all sets of sources and all ways in which they fail', 'tests use a few readers of fixed sizes',
  ['src/util/random/random_stream.rs', 'src/group/edwards25519/suite.rs'], [('mixing', 'RandStream::xor_key_stream, new, default'), ('suite', 'SuiteEd25519::random_stream')],
  'The loop over the sources is summarised: what one iteration adds, the facts under which it adds nothing, its range; the facts on success exits must exclude that every source failed.', floor=8)
p('R02', 'The XOF absorbs all input and never repeats key stream',
  'The extendable output function absorbs exactly its seed and everything written, refuses writing after the first read, and XORs each byte of the source with freshly read output, as many bytes as the source has. '
  'It fails if the destination is shorter than the source. '
  'A copy continues from the same state, and reseeding starts anew from output of the old state.',
  ['inputs', 'histories'], 'all sequences of writes, reads and XORs of any length', 'tests compare a few sequences',
  ['src/xof/blake3/xof.rs', 'src/group/edwards25519/suite.rs'], [('state', 'Xof::new, read, write, reseed, clone'), ('key stream', 'Xof::xor_key_stream')],
  'Every operation is summarised as a transformation of the state; the key bytes must come from a read that advances it, of the length of the source.',
  'A destination that is longer than the source is left alone beyond it.', floor=8)
p('R03', 'Secrets are whole draws from a random stream',
  'Random integers are single draws of as many bits as the modulus has, redrawn until they are below it, so that no residue is favoured; a failing stream never yields bits, bytes or integers. '
  'A fresh key pair takes its private key from the random stream of the suite and its public key is that key times the base point. '
  'Wherever the library draws a scalar or a polynomial, the stream is the caller\'s or a random one, never a deterministic one, and a reader of the caller replaces system entropy only where the caller asked for it.',
  ['inputs', 'fault_sequences'], 'all moduli, streams and draws', 'bias and silent failure do not show in samples',
  ['src/util/random/random_stream.rs', 'src/util/key/key_pair.rs', 'src/group/edwards25519/scalar.rs', 'src/group/edwards25519/curve.rs', 'src/share/poly.rs'],
  [('drawing', 'bits, bytes, random_int, Scalar::pick'), ('keys', 'Pair::gen, Curve::new_key_and_seed'), ('call sites', 'every call that picks a scalar or a polynomial')],
  'The returned integer is traced to its draw; the mask on the top byte is evaluated over all bytes and bit lengths modulo 8; at every call site that picks a scalar the origins of the stream are enumerated.', floor=22)
