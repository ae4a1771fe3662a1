from registry import prop, na, STATIC_NOTE
DP, DS, DR = 'src/share/dkg/pedersen/dkg.rs', 'src/share/dkg/pedersen/structs.rs', 'src/share/dkg/rabin/dkg.rs'
FILES = [DP, DS, DR]
IH = ['inputs', 'histories']
VSS = 'The operations of the underlying verifiable secret sharing are taken as given here; they are decided by the V properties.'


def d(id, title, st, over, qt, why, mech, rule, note='', files=FILES, floor=1, **k):
    prop(id, title, st, over, qt, why, files, mech, 'dkg', rule, STATIC_NOTE + VSS + ' ' + note, floor=floor, **k)


d('D01', 'DKG deals are accepted only from the listed dealer they name',
  'A DKG node accepts a deal only if it is a receiver, the deal\'s dealer index is within the list of dealers, (Pedersen) the dealer at that index signed the deal and its index, and the share is processed by the verifier kept for exactly that dealer; the response names that dealer and is the verifier\'s. '
  'In the Rabin variant a second deal of a dealer is refused, the verifier that processed the deal is kept under its index, with the approval of the dealer itself as the only answer recorded on behalf of another, and a rejected deal leaves nothing behind. '
  'Own deals carry the own index, go to the participant they are encrypted for, and (Pedersen) are signed with the long-term key.',
  IH, 'all deals anyone can send, in any order and state', 'tests exchange honest deals and one corrupted index',
  [('processing deals', 'process_deal in both dkg modules'), ('own deals', 'deals in both dkg modules')],
  'Facts dominating each accepting exit, the final value of the verifier map, and the symbolic value of returned responses and deals, compared with the specification, separately for fresh and resharing runs.', floor=16)
d('D02', 'DKG responses and justifications reach the verifier of their dealer',
  'A response is accepted only if the verifier kept for the dealer it is about (for a node leaving the group: that dealer\'s response book, set up with the new group) accepts it, and a justification only if the verifier of its dealer accepts it. '
  'A justification is issued only for an own deal, only in answer to a response to it, reveals exactly what the own dealer reveals for that response, carries the own index, and is first processed by the own verifier of the deal (leaving nodes: only to a complaint).',
  IH, 'all responses and justifications, in any order', 'tests cover one complaint at one index',
  [('responses', 'process_response (and process_resharing_response) in both dkg modules'), ('justifications', 'process_justification in both dkg modules')],
  'Facts dominating each accepting exit and each way a justification can be issued, with the mode flags fixed to each reachable combination.', floor=13)
d('D03', 'The qualified set is exactly the dealers whose deals are certified',
  'The qualified set lists exactly the dealers whose deal is certified, and a node is said to be qualified only if its deal is certified. '
  'The threshold is reported as reached only if at least the threshold (when resharing: the old one) of dealers are qualified, full certification only if every dealer\'s deal is certified with no response missing, and (Rabin) completion only if moreover the commitments of every qualified dealer are known. '
  'A key share is released only once the threshold is reached, and only to a receiving node; announcing the timeout applies it to the deal of every dealer.',
  IH, 'all protocol states', 'tests look at runs where all or a fixed few dealers are certified',
  [('qualified set', 'qual, is_in_qual, qual_iter in both dkg modules'), ('release', 'threshold_certified, certified, finished, dist_key_share')],
  'Loops over dealers are recognised as selections: the facts on every adding and every skipping path of an iteration must decide certification, and the loop must run to its end; thresholds are compared as linear inequalities.', floor=16)
d('D04', 'Resharing keeps the distributed secret and only well-formed shares count',
  'When resharing, a receiving node approves a deal, or accepts a justification, only if the deal\'s public secret equals the public share of that dealer under the old public polynomial; otherwise it signs a complaint, and records that one in place of the approval; a dealer\'s own response is never invented as an approval. '
  'The new key share is interpolated, with the old threshold, from the shares that certified dealers dealt to this node, each under its dealer\'s index, the new commitments from the same coefficient of every such dealer, and the result is released only if the share lies on the new public polynomial. '
  'Renewal adds only shares of the same node whose public secret is zero and whose commitments have the same length, and adds value and commitments coefficient by coefficient.',
  IH, 'all deals, justifications, groups and certified subsets', 'tests reshare between a few honest groups',
  [('deals and justifications', 'Pedersen process_deal, process_justification'), ('new key', 'Pedersen dist_key_share (resharing_key), DistKeyShare::renew')],
  'Facts and symbolic values at every exit with the resharing flags set; the contents of the interpolated lists are traced to their sources through loops and closures; point sums are compared as linear forms.',
  'That interpolation returns the secret is P01, not decided here.', files=[DP, DS], floor=18)
d('D05', 'Rabin DKG commitments are accepted only if the own share lies on them',
  'A Rabin DKG node reveals its public commitments only once its own deal is certified, exactly those of its deal, labelled with index and session and signed over index and commitments. '
  'It accepts another dealer\'s commitments only if that dealer is a qualified participant that signed them, the session is that dealer\'s, and the own share lies on them, and then records them under that dealer; otherwise nothing is recorded. '
  'A complaint is issued only if the own share does not lie on the commitments, carries the own deal of that dealer, and is signed; signed digests of different kinds of messages are told apart by a tag.',
  IH, 'all commitment messages, in any order', 'tests corrupt one field of one message',
  [('revealing', 'Rabin secret_commits'), ('checking', 'Rabin process_secret_commits')],
  'Facts dominating each way to accept or complain; final value of the commitments map at every exit; symbolic value of messages and digests.',
  'The signed digest of commitments does not cover the session identifier (as in the protocol this is ported from); DESIGN.md lists this.', files=[DR], floor=13)
d('D06', 'Rabin DKG commitments are dropped only for a valid complaint',
  'A complaint about revealed commitments is accepted only if its issuer is a qualified participant that signed issuer, dealer and deal, the deal it carries verifies against that dealer\'s dealing, the dealer has commitments, and the share in it does not lie on them; then, and only then, are the commitments dropped. '
  'The node answers by revealing its own share from that dealer, labelled with own index, dealer and session, signed, and recorded for the reconstruction.',
  IH, 'all complaints, in any order', 'tests corrupt one field of one complaint',
  [('complaints', 'Rabin process_complaint_commits')],
  'Facts dominating the accepting exit, final value of the commitments map at every exit, symbolic value of the revealed record and its digest.', files=[DR], floor=10)
d('D07', 'Rabin DKG rebuilds a dealer\'s commitments only from enough signed shares',
  'A share revealed for reconstruction is used only if the dealer\'s commitments were dropped and not yet rebuilt, its issuer is a participant that signed issuer, dealer and share, no share of that issuer is recorded, and its session is that of the recorded ones. '
  'The commitments are rebuilt only from at least threshold such shares, as those of the polynomial interpolated from exactly the recorded shares with the threshold, and only then is the dealer marked as reconstructed; a rejected message changes no commitments.',
  IH, 'all reconstruction messages, in any order and repetition', 'tests reveal just enough honest shares',
  [('reconstruction', 'Rabin process_reconstruct_commits')],
  'Facts on every path that records a share or rebuilds commitments (including facts about every element of the recorded list), and symbolic values of the maps at each exit.', files=[DR], floor=11)
d('D08', 'A fresh DKG key share sums the shares of exactly the qualified dealers',
  'The fresh key share of a node carries its own index and is the sum, starting from zero, of the shares dealt to it by exactly the dealers with a certified deal. '
  'The commitments of the key are the sum of the polynomials committed to by exactly those dealers, over the standard base.',
  IH, 'all certified subsets of dealers', 'tests sum over all or a few dealers',
  [('key', 'dist_key_share (dkg_key) in both dkg modules')],
  'The accumulations are recognised across closures and loops: initial value, added items, and the facts on every adding and skipping path.', floor=16)
d('D09', 'A DKG node is set up with its own index, fresh secrets and all dealers',
  'Setting up a DKG node fixes its index as the position of the public key of its long-term key in the list; a threshold of zero is replaced by the minimum one. '
  'The secret it deals is fresh and random (never without system randomness unless the caller declares its own source the only one), and when resharing it is its old share; it is dealt to the new nodes with the threshold. '
  'For every dealer a verifier is set up, under that dealer\'s index, with that dealer\'s key, the own key, the new nodes and the threshold, and the old public polynomial and threshold are those configured.',
  ['inputs'], 'all configurations', 'tests use a handful of configurations',
  [('set-up', 'new_dist_key_generator, new_dist_key_handler, init_verifiers')],
  'Symbolic value of every field of the generator at each success exit, for each combination of configured share and public polynomial, with the facts under which each alternative is chosen.', files=[DP, DR], floor=16)
