from registry import prop, na, STATIC_NOTE
FLOW = 'flow-insensitive data flow and dominance over rustc MIR of every function of the crate'
MSG = ['src/share/vss/', 'src/share/dkg/', 'src/share/poly.rs', 'src/sign/', 'src/util/key/', 'src/encoding/encodings.rs']
prop('W01', 'Encodings carry every field, and decoding restores each from its own place',
     'Every encodable message, share, key and protocol state writes each of its fields exactly once on every path, and decoding builds each field only from the position at which encoding wrote it: nothing is dropped, defaulted or swapped. '
     'The deals, responses, justifications, commitment messages, shares and partial signatures of the sharing, key generation and signing protocols all have such an encoding. '
     'The generic binary codec succeeds only with the encoding of its argument, respectively after storing the decoded value, and a failing decode leaves the target as it was.',
     ['inputs'], 'every value of every encodable type', 'tests encode few of the types, and never compare all fields',
     MSG, [('derived codecs', 'serialize and visit_seq of every serialisable struct'), ('binary codec', 'encoding::encodings::{marshal_binary, unmarshal_binary}')],
     'cross',
     'For every struct with a derived codec, the calls that write fields are collected in dominance order and each written value is traced to one field of the argument; '
     'every field of the decoded struct is traced back to the one read at the same position.',
     'Takes bincode and serde to write and read consecutive fields faithfully. Whether decoded group elements are valid is another matter (see DESIGN.md).', technique=FLOW, floor=218)
prop('W02', 'Equality compares and copying keeps every field',
     'Two messages, shares, keys, polynomials or protocol states compare equal only if each of their fields compares equal. '
     'A copy agrees with the original in every field.',
     ['inputs'], 'all pairs of values of every comparable type', 'tests compare values that differ in everything or nothing',
     MSG, [('equality', 'PartialEq implementations outside the group'), ('copying', 'Clone implementations')],
     'cross',
     'Each comparison is interpreted abstractly and every exit that can yield true must carry the equality of every field; copies that are not derived are compared with the original field by field.',
     STATIC_NOTE + 'Equality of group elements is decided by the G properties.', floor=182)
prop('W03', 'Nodes and key shares report their own state',
     'The public key of a key share is its first commitment, and the share and the commitments it hands to signing are its own; dealers, verifiers and key generators report the keys, index, session identifier, commitments, polynomial and responses they hold, and polynomials are built from and turned into coefficient lists unchanged. '
     'The recommended threshold is half the number of participants, rounded up; the number of deals a key generator expects is that of the other dealers, and zero for a node that receives none. '
     'A verdict set on behalf of the key generation is recorded as given, for the given verifier and the own session.',
     ['inputs', 'histories'], 'every state of every dealer, verifier, key generator, key share and polynomial', 'tests read most of these only in states where several candidates coincide',
     ['src/share/vss/', 'src/share/dkg/', 'src/share/poly.rs'],
     [('accessors', 'public, key, session_id, commits, index, threshold, private_share, commitments and their like'), ('recommended threshold', 'vss::{pedersen,rabin}::vss::minimum_t'),
      ('expected deals', 'dkg::pedersen::dkg::DistKeyGenerator::expected_deals'), ('verdicts', 'unsafe_set_response_dkg')],
     'cross',
     'Every accessor is interpreted abstractly, and the value of every exit must be the named part of its argument; the recommended threshold is decided by cases on parity, the expected number by cases on membership, and the recorded verdict by the arguments that reach the record.',
     STATIC_NOTE + 'Casts between integer widths are taken to keep the value.', floor=38)
prop('X01', 'Results depend on arguments and explicit randomness only',
     'No operation of the library consults a clock, the environment, files, the network, thread identity or a global that can change; globals are constants. '
     'Verification, signature combination, recovery, evaluation, hashing, response and justification processing, decryption and the codecs draw no randomness at all, so equal arguments give equal answers on every party.',
     ['inputs', 'schedules', 'histories'], 'every call, whatever ran before it and wherever', 'a test cannot observe an ambient input that happens not to change during it',
     ['src/'], [('effects', 'every function of the crate'), ('deterministic operations', 'verify, recover, hash, process, decrypt functions')],
     'cross',
     'The over-approximated call graph (trait calls go to every implementation) is searched for ambient effects in every function and for a path from a deterministic operation to a source of entropy; globals are checked for interior mutability.',
     'Iteration order of hash maps is not tracked. Dependencies outside the crate are trusted to have no effects beyond their names.', technique='effect analysis over the call graph of rustc MIR', floor=741)
prop('X02', 'Failures are passed on, not swallowed',
     'No operation goes on to succeed after a step of its own reported failure: an error is returned, kept and returned later, or ends the program. '
     'The only exceptions are those where failing is an answer: a deal that fails its checks is complained about, a failing justification marks the dealer, one of several randomness sources may fail, a response already present is kept, an unencodable point counts as small.',
     ['inputs', 'fault_sequences'], 'every failing step in every operation', 'tests rarely make an inner step fail',
     ['src/'], [('error handling', 'every function that calls a fallible one')],
     'cross',
     'For every call that yields a Result: the result is used; where it is matched or tested, no path leads from the failure side to the end of the function without an error being built; replacing a failure by a default or by absence is reported.',
     'That the right error is returned is not decided; panics count as passing the failure on.', technique='control-flow and use analysis over rustc MIR', floor=104)
prop('X03', 'Hostile messages are refused, never a crash',
     'Verifying a signature, decoding a key, point or scalar, decrypting, processing a deal, response, justification, complaint, commitment message or partial signature from outside, and recovering from or checking shares, ends with an answer or an error for every input and in every protocol state, never with a panic. '
     'In particular no index, length, count or order of arrival that a peer chooses can make such an operation reach beyond a buffer or list, or rely on an entry that is not there.',
     ['inputs', 'histories', 'fault_sequences'], 'every message, buffer and share list from outside, in every state the protocol can be in', 'tests feed a few well-formed messages and the two or three malformed ones they thought of',
     ['src/share/vss/', 'src/share/dkg/', 'src/share/poly.rs', 'src/sign/', 'src/encrypt/', 'src/dh/', 'src/group/edwards25519/', 'src/encoding/encodings.rs'],
     [('operations', 'verify, unmarshal, decrypt, process_*, recover_*, check, eval, set_timeout'), ('invariants', 'deals of a dealer, aggregator of a verifier')],
     'crash',
     'Every operation is interpreted abstractly with its callees; each construct that could panic (indexing, slicing, unwrap, division, copying into a fixed buffer, diverging calls) must be discharged by what is known on its path '
     '(tests of lengths, presence of map entries, variants, constants, loop bounds) or by one of the stated invariants, which are decided as obligations of their own.',
     'Assumes a node\'s own key share has commitments and that encoding into hashes and buffers in memory does not fail. Arithmetic overflow, allocation failure and panics in dependencies are not decided, '
     'nor operations on a node\'s own keys and parameters (key share assembly, resharing set-up, AEAD wrappers with caller-chosen destination).',
     technique='abstract interpretation of rustc MIR with linear length facts and state invariants', floor=180)
prop('X04', 'Printing never reveals secrets',
     'Formatting a key, share, polynomial, dealer, verifier, key generator or signing state for display or debugging never outputs a private scalar, nor the seed or nonce prefix of a signing key, nor anything computed from them other than public points and counts. '
     'No error, panic or log message is made from them either. The one operation whose purpose is to write out a private polynomial on request is excepted.',
     ['inputs', 'histories'], 'every value of every type that holds secrets, in every state, through every way of printing it', 'tests print a value at most to see that it prints; they do not search the text for secrets',
     ['src/share/', 'src/sign/', 'src/util/key/', 'src/dh/'], [('printed forms', 'Debug and Display implementations'), ('messages', 'format, panic and error construction sites')],
     'cross',
     'Types that hold secrets are computed from the type definitions. In every printing function (derived or written out, with closures) and every function that formats a message, a taint analysis follows private scalars and key bytes '
     'through assignments, calls, captured variables and summaries of called functions; none may reach a formatting sink or an error value.',
     'A secret is recognised by its type (the scalars of the group) or as a byte string of an EdDSA key. Secrets given away through control flow, and Diffie-Hellman points, are not tracked. Printing a bare scalar or integer is the caller\'s doing.',
     technique='taint analysis over rustc MIR', floor=113)
