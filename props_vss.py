from registry import prop, na, STATIC_NOTE
VP, VR = 'src/share/vss/pedersen/vss.rs', 'src/share/vss/rabin/vss.rs'
DH = 'src/dh/dh_exchange.rs'
FILES = [VP, VR]
IN = ['inputs']
IH = ['inputs', 'histories']


def v(id, title, st, over, qt, why, mech, rule, note='', files=FILES, floor=1, **k):
    prop(id, title, st, over, qt, why, files, mech, 'vss', rule, STATIC_NOTE + note, floor=floor, **k)


v('V01', 'Deals travel sealed to one verifier and signed by the dealer (VSS)',
  'In both VSS variants a deal is produced for a verifier only as the ciphertext of that verifier\'s own deal, sealed under a key agreed between a fresh ephemeral key and that verifier\'s public key, bound to the context of dealer and verifiers, with the ephemeral key signed by the dealer\'s long-term key. '
  'A verifier opens a deal only after that signature verifies under the dealer\'s key, with its own long-term key, the received nonce, and the same context as associated data.',
  IN, 'all keys, deals, verifier lists and received messages',
  'tests exchange honestly produced deals; sealing to the wrong key or context is symmetric and still decrypts in an honest run',
  [('sealing', 'Dealer::encrypted_deal(s) in both vss modules'), ('opening', 'Verifier::decrypt_deal in both vss modules')],
  'The symbolic value of the returned encrypted deal, and the facts and value at every success exit of decrypt_deal, are compared with the specification, field by field.', files=FILES + [DH], floor=11)
v('V02', 'A VSS deal is approved only if it verifies against its commitments',
  'In both VSS variants a verifier answers a deal with an approval only if the threshold is at least 2 and at most the number of verifiers, there are exactly threshold commitments, the share index is its own, and the share lies on the committed polynomial; a deal of an already known session must also carry that session\'s identifier and commitments (Pedersen: and threshold). '
  'The first valid deal is the one kept, a second one is refused, and a threshold that was set in advance is never overridden by the dealer. '
  'The response carries the recomputed session identifier, the own index and the verdict, is signed over all three with the own key, and is recorded.',
  IH, 'all deals a (malicious) dealer can send, in any order',
  'tests corrupt one field at a time on one small deal; approval quantifies over every deal and session history',
  [('deal verification', 'Aggregator::verify_deal in both vss modules'), ('response', 'Verifier::process_encrypted_deal in both vss modules')],
  'Facts that hold on every path to acceptance must include each check; the share equation is compared as a linear form over group elements; final field values of the session are compared on accepting and rejecting exits.',
  'The polynomial evaluation itself is P01/P02.', floor=27)
v('V03', 'VSS responses are accepted only once, from verifiers, for this session',
  'In both VSS variants a response is accepted only if its index is that of a verifier, its signature over session, index and verdict verifies under that verifier\'s key, its session identifier is that of the session (once known), and no response of that verifier is recorded; it is then recorded unchanged, and a rejected response records nothing. '
  'The dealer answers an accepted complaint, and only a complaint, with a justification that reveals exactly the deal of the complaining verifier, signed over session, index and deal.',
  IH, 'all responses from anyone, in any order and repetition',
  'tests replay one duplicate and a few forged responses; acceptance quantifies over all messages and histories',
  [('processing responses', 'Verifier/Dealer/Aggregator::process_response (verify_response) in both vss modules')],
  'Facts dominating each accepting exit, the final value of the responses map at every exit, and the symbolic value of the justification.',
  'For Pedersen the session check is decided under the assumption that the verifier knows the session identifier, as a verifier without a deal cannot know it.', floor=33)
v('V04', 'VSS justifications count only if they answer a complaint with a valid deal',
  'In both VSS variants a verifier that has a session accepts a justification only if a complaint of that verifier is recorded, the revealed share has that verifier\'s index, the deal passes every check of a deal and belongs to the session; the complaint then becomes an approval, and the verifier\'s own deal is replaced exactly if the own complaint was justified. '
  'A justification that does not verify never turns a complaint into an approval and marks the dealer as bad.',
  IH, 'all justifications a (malicious) dealer can send, at any time',
  'tests send one good and one bad justification; a justification for another index or session is not sampled',
  [('processing a justification', 'Verifier::process_justification, Aggregator::verify_justification in both vss modules')],
  'Facts dominating each accepting exit; final values of responses, deal and bad-dealer flag at every exit, following joins with their path conditions.', floor=14)
v('V05', 'A VSS deal is certified only with enough approvals and a good dealer',
  'In both VSS variants a deal is certified only if its dealer was not found malicious, at least t approvals are recorded, and (Pedersen) no complaint is unjustified and every response is present or the timeout passed with at most n - t of them missing; (Rabin) every verifier has answered. '
  'Approvals are counted only from recorded approving responses, and a timeout in Rabin records missing verifiers as complaints without touching recorded responses. '
  'In Pedersen VSS announcing the timeout only marks it, and the verifiers reported as missing are exactly those without a recorded response.',
  IH, 'all sets of recorded responses',
  'the counts around the threshold and the combinations of absent, complaining and approving verifiers are far more than tests enumerate',
  [('certification', 'Aggregator::{deal_certified, enough_approvals, clean_verifiers, set_timeout} in both vss modules')],
  'Each way in which the predicate can be true is enumerated; loop counters are recognised with the conditions under which they grow or stay, and the inequalities among them, t and n must imply the rule.',
  'Rabin tolerates unjustified complaints by design; the statement follows that.', floor=12)
v('V06', 'VSS releases shares and secret commitments only after certification',
  'In both VSS variants a verifier hands out its deal, and a dealer the commitment to its secret, only if the deal is certified. What is released is the deal of this session, the secret times the base point, or (Rabin dealer) the commitments of the secret polynomial.',
  IH, 'all protocol states', 'tests query after an honest run and once before; certification can be missing in many ways',
  [('release', 'Verifier::deal, Dealer::secret_commit, Dealer::commits in both vss modules')],
  'Every exit that releases a value must be dominated by deal_certified() of the own aggregator being true, and the value is compared.', floor=8)
v('V07', 'VSS sessions are set up with consistent keys, shares and identifiers',
  'In both VSS variants a dealer can only be created with a threshold between 2 and the number of verifiers; it holds one deal per verifier with the value of a polynomial of that threshold and the given secret at that verifier\'s index, its coefficients drawn from the suite\'s random stream, the commitments of that polynomial (Rabin: plus those of a random polynomial over the second base), and a session identifier covering dealer, verifiers, commitments and threshold. '
  'A verifier is created only if its own public key is in the list, with the index of that position, and both sides derive the encryption context from dealer and verifiers.',
  IN, 'all keys, secrets, verifier lists and thresholds', 'tests use small fixed groups, and a wrong binding shows only under attack',
  [('constructors', 'new_dealer, new_verifier, session_id, context in both vss modules')],
  'The symbolic value of the constructed object is compared field by field with the specification; constructor guards are facts on every success exit.', floor=19)
v('V08', 'VSS secret recovery uses only deals of one session',
  'In both VSS variants the secret is recovered only if all given deals carry the same session identifier, from their secret shares, with the given threshold and number of participants.',
  IN, 'all lists of deals', 'tests mix no sessions beyond one example', [('recovery', 'recover_secret in both vss modules')],
  'Facts over every element of the list at the success exits and the arguments of the interpolation call.', floor=4)
v('V09', 'Signed VSS digests cover every field and are told apart by type',
  'In both VSS variants the signed digest of a response covers session identifier, index and verdict, and that of a justification session identifier, index and deal; the two start with different tags, neither a prefix of the other.',
  IN, 'all responses and justifications', 'leaving a field out of the digest keeps every honest run working; only a forgery shows it',
  [('digests', 'Response::hash, Justification::hash in both vss modules')],
  'The byte string fed into the hash is computed symbolically and compared as a sequence of parts.', floor=4)
