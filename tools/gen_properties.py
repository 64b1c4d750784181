#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are edited)."""
import json, os
A3M="iris-mpc/src/aby3_mal/protocol.rs"; SW="iris-mpc/src/swift3/protocol.rs"; SP="iris-mpc/src/spdzwise/protocol.rs"
A3="iris-mpc/src/aby3/protocol.rs"; UT="iris-mpc/src/aby3/utils.rs"; IR="iris-mpc/src/iris/protocol.rs"
CH="mpc-net/src/channel.rs"; NET="mpc-net/src/lib.rs"; CFG="mpc-net/src/config.rs"; COD="mpc-net/src/codecs.rs"
MT="iris-mpc/src/traits/mpc_trait.rs"; BT="iris-mpc/src/traits/binary_trait.rs"
DB="iris-mpc/src/bin/create_sample_data.rs"; PR="plain-reference/src/lib.rs"
P=[]
def p(id,title,st,over,q,why,files,mech,state=(),obs=()):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d["anchors"]["observe_at"]=list(obs)
    P.append(d)
I="inputs"; F="fault_sequences"; H="histories"; S="schedules"; C="configurations"; G="programs"; K="crash_points"

p("C01","A malicious-secure opening never returns an unchecked value",
  "In every engine offered as secure against an actively malicious party, opening a value (single or batched, ring or bit) reports success only after the peer data it was computed from, and all peer data received before it that was still awaiting a cross-check, has been compared in full against independent redundant data from the other peer. If any part of it differs, the opening returns an error instead of a value. There is no path (batch size, earlier history, early return) on which a value is returned without that comparison.",
  [I,F,H],"every opening entry point, every path through it, every party, any peer data and any history of preceding operations",
  "The tests run three honest parties, so no comparison ever fails and a missing or partial one is invisible; the claim is over all tampered messages and histories.",
  [A3M,SW,SP,UT],[("joint message passing: buffer one copy, hash, compare with other peer's hash","MalAby3/Swift3/SpdzWise jmp_send*/jmp_receive*/jmp_verify"),("openings call the verification before returning","MpcTrait::open, open_many, open_bit, open_bit_many of the three engines")],
  [("rcv_queue_*","transcript of peer data awaiting comparison","engine structs"),("send_queue_*","transcript of data the peers will compare","engine structs")],["return value of open*"])
p("C02","A detected inconsistency always ends the operation with an error",
  "Whenever a malicious-secure engine compares data received from a peer with another peer's or its own data and finds them different, the operation in progress returns an error. It never returns success, silently continues, retries with the bad data, or turns the mismatch into a different result.",
  [F,I,H],"every comparison of peer data in every operation of the malicious-secure engines, every way it can fail, every caller up to the public operation",
  "With honest parties no comparison ever fails, so the code after a failed comparison is never executed by the tests.",
  [A3M,SW,SP,"iris-mpc/src/commitment/mod.rs","iris-mpc/src/error.rs"],[("comparisons return JmpVerifyError / VerifyError / InvalidCommitment / DZKPVerifyError","jmp_verify, sacrifices, coin/PRF setup, verify_macs, hash_based_zero_verify, verify_prove"),("? propagation to the entry point","all callers")])
p("C03","Everything a peer sends is checked or kept registered for checking",
  "In the malicious-secure engines, when an operation other than an opening (input sharing, multiplication, inner product, AND, bit extraction, preprocessing, verification) completes successfully, every datum it received from a peer has either been compared in full with independent data already, or is recorded in full in the engine's pending-verification state; the only exception is a key for a generator that is shared with its sender alone, which has no second source to compare it with. Pending state accumulated by earlier operations is never dropped by an operation that succeeds without having checked it.",
  [I,F,H],"every non-opening operation of the malicious-secure engines, every success path, every received message",
  "A forgotten or partial registration has no effect when all parties are honest; only an attack at exactly that message would reveal it.",
  [A3M,SW,SP],[("registration of received data for a later check","jmp_receive*, and_proof/mul_proof/dot_proof registers, verifyqueue, triple_buffer"),("immediate checks","get_mul_triple*, dot_sacrifice*, setup_prf_from_seed, input")],
  [("rcv_queue_*, and_proof, mul_proof, dot_proof, verifyqueue, triple_buffer","data awaiting verification","engine structs")])
p("C04","Verification success means every registered product was checked",
  "When an engine that defers the checking of multiplications reports that verification succeeded, every multiplication, inner product and AND that was registered since the last verification has entered a completed check, and the pending registers are left empty only after that. A verification that skips a kind of product, a party's proof or a batch never reports success.",
  [H,I,F],"every history of registered products, every path through verification, every kind of product and both peers' proofs",
  "The tests only run verification on honestly produced transcripts, where skipping any of its parts changes nothing observable.",
  [SW,SP,"iris-mpc/src/dzkp/and_proof.rs","iris-mpc/src/dzkp/mul_proof.rs","iris-mpc/src/dzkp/dot_proof.rs","iris-mpc/src/spdzwise/triples.rs"],
  [("distributed zero-knowledge proofs per product kind","Swift3::verify and its mul/dot/and verification"),("MAC and triple verification","SpdzWise::verify, verify_macs, verify_triple_queue")],
  [("and_proof, mul_proof, dot_proof","registered products","Swift3"),("verifyqueue, triple_buffer","registered authenticated values and AND triples","SpdzWise")])
p("C05","Authenticated values are MAC-checked before leaving the MAC domain",
  "In the engine that authenticates shares with a message-authentication code, an authenticated value is opened or converted to a binary (unauthenticated) sharing only after that value itself has passed the MAC check. On every successful path the check covers each element of a batch and uses both the value and its tag.",
  [I,F,H],"every opening and conversion of authenticated values, every batch, every path",
  "Tests use correct tags only, so dropping an element (or everything) from the check is unobservable to them.",
  [SP],[("push the value into the MAC queue, then verify","SpdzWise open, open_many, get_msb, get_msb_many"),("random linear combination of all queued values and tags","SpdzWise::verify_macs")],
  [("verifyqueue","values awaiting the MAC check","SpdzWise")])
p("C06","An iris query discloses only one result bit, and only after verification",
  "A database query opens exactly one value, the single bit that says whether any entry matched, and does so only on paths where all computation has been verified successfully. Every failure on the way (size or mask errors, network or verification failures) is returned as an error to the caller and nothing is opened. The result bit depends on the comparison with every database entry, whatever the chunk size.",
  [I,F,H],"every database size, chunk size, mask, peer behaviour and path through the query",
  "Tests run the query with honest parties on a few fixed sizes; opening before verification or losing a failure gives the same answers there.",
  [IR],[("reduce with OR, verify, then a single open_bit","IrisProtocol::iris_in_db"),("error propagation","compare_iris_many, masked_hamming_distance_many, compare_threshold_many")],obs=["the engine's opening calls issued by a query","the query's return value"])
p("C07","Plain and MPC matching use the same mask rule and the same match rule",
  "The secure matcher and the plain reference decide with the same constants and the same strictness: the combined mask is the AND of both masks, a pair is ineligible exactly when that mask has fewer ones than the minimum, and it matches exactly when the masked distance is strictly below the truncated product of that same mask's weight and the match ratio. The secure matcher never evaluates the distance over a different mask than the one whose weight set the threshold.",
  [I,C],"all code and mask pairs, including those at the exact boundary of each rule",
  "Random test codes essentially never sit on the boundary of either rule, so an off-by-one or a constant that differs on one side is invisible.",
  [IR,PR],[("constants imported from the plain reference","iris/protocol.rs MASK_THRESHOLD, MATCH_THRESHOLD_RATIO"),("mask weight check and threshold","IrisProtocol::combine_masks, get_cmp_diff, compare_iris_many; IrisCode::is_close")])
p("C08","Verification challenges are drawn only after the challenged data is fixed",
  "In every check that uses a random challenge (product sacrifice, MAC check, cut-and-choose and zero-knowledge proofs), the challenge comes from the parties' common coin or joint randomness and is generated after every message it challenges has been sent and received. No data under test is accepted from a peer after the challenge is known, other than the answers derived from it.",
  [S,F,H],"every check with a random challenge, every path and batch size",
  "Drawing the challenge too early changes no honest run; it only lets a malicious peer choose its error after seeing the challenge.",
  [A3M,SW,SP,"iris-mpc/src/swift3/random/prf.rs"],[("common coin after reshare","MalAby3 get_mul_triple*, dot_sacrifice*; SpdzWise verify_macs, verify_triples; Swift3 proofs")])
p("C09","Joint randomness is committed before anything is revealed",
  "When parties set up joint randomness from contributed seeds, a party reveals its own contribution (value and commitment opening) only after it has received the commitments of all peers, and it uses a peer's contribution only after checking it against the commitment that peer sent earlier. The commitment binds the whole contribution and uses fresh randomness as blinding.",
  [S,F],"every set-up of shared randomness in every engine that commits, every path and message order",
  "Honest runs succeed whatever the order of commit and reveal and whether or not openings are checked.",
  [A3M,SW,SP,"iris-mpc/src/commitment/mod.rs"],[("commit, exchange, open, verify","setup_prf_from_seed, send_seed_opening, verify_commitment; Commitment::commit, CommitOpening::verify; reconstruct_id / coin")])
p("C10","Every product share sent to a peer is masked with fresh correlated randomness",
  "Outside openings, a share or product derived from secret values leaves a party only after correlated randomness shared with a peer has been added to it. Each transmitted element gets its own freshly drawn mask; a mask is never reused for two transmitted elements.",
  [I,H],"every message of every non-opening operation in all engines, every element of every batch, every history",
  "An unmasked or doubly used mask keeps all results correct; only the leaked distribution changes, which result-comparing tests cannot see.",
  [A3,A3M,SW,SP,"iris-mpc/src/aby3/random/prf.rs","iris-mpc/src/swift3/random/prf.rs"],[("zero-share masks drawn from pairwise PRFs","gen_zero_share / gen_binary_zero_share / gen_1, gen_2, gen_p and their uses before sends")])
p("C11","Secret randomness comes only from entropy or keyed generators",
  "Every key, seed, mask, MAC key, blinding value and share used by the library originates from operating-system entropy, a caller-supplied generator, or a keyed generator whose key has that origin. No library path seeds a generator from a constant, a counter or the clock, and placeholder keys are replaced by preprocessing before use.",
  [G,H],"every generator construction and every seed or key assignment in the library crates",
  "A constant seed produces perfectly valid-looking results in every test.",
  ["iris-mpc/src/aby3/random/prf.rs","iris-mpc/src/swift3/random/prf.rs",A3,A3M,SW,SP,"iris-mpc/src/commitment/mod.rs",PR],[("from_entropy / thread_rng / from_seed on agreed seeds","Prf::gen_seed, setup_prf*, coin, Commitment::commit, set_new_mac_key")])
p("C12","Malformed peer messages produce errors, not panics",
  "Whatever bytes a peer sends (too short, too long, invalid encodings, empty), the receiving operation returns an error; it does not panic, index out of bounds or abort. Lengths of received messages are checked against what the operation expects before they are decoded or indexed.",
  [I,F],"every receive site of the protocol engines and all byte strings of any length a peer may send there",
  "Tests exchange only well-formed messages between honest parties.",
  [UT,A3,A3M,SW,SP,"iris-mpc/src/types/ring_element.rs","iris-mpc/src/types/sharable.rs","iris-mpc/src/types/int_ring.rs"],[("length checks and fallible decoding","utils::receive_*, ring_*_from_bytes, from_bytes*"),("ConversionError / InvalidMessageSize results","error.rs")])
p("C13","No failure of a network, verification or sub-protocol step is swallowed",
  "In the library crates, the result of every fallible step (network send or receive, verification, sub-protocol, decoding) reaches the caller: it is propagated, returned, or inspected with the failure branch reporting an error. No such result is discarded, replaced by a default, or converted to success.",
  [F,G],"every call in library code whose result can carry an error",
  "Tests never make those steps fail, so a discarded result is indistinguishable from a propagated one.",
  [A3,A3M,SW,SP,UT,IR,"iris-mpc/src/aby3/network.rs",NET],[("? operator and explicit matches","all async protocol functions")])
p("C14","Mismatched batch lengths are rejected before any message is sent",
  "Operations that take several vectors (inner products, batched products and ANDs, masked inner products, batched comparisons, iris queries) return an error when the lengths disagree and do so before any message is exchanged. They never truncate to the shorter input, panic, or leave the peers' message streams out of step.",
  [I],"all combinations of input lengths, including empty and nested vectors, for every engine",
  "Tests pass equal lengths; silent truncation or a late failure needs unequal ones.",
  [A3,A3M,SW,SP,MT,BT,IR,"iris-mpc/src/spdzwise/vecshare.rs"],[("explicit length comparisons returning InvalidSizeError","dot, dot_many, and_many, masked_dot_many, xor_many, compare_threshold_many, iris_in_db")])
p("C15","What is serialised for a peer is read back in the same layout",
  "For every element type that crosses the network, the number of bytes and the byte order written per element equal those consumed by the reader, in single-element, batched and bit-packed forms. Conversions between in-memory layouts (slices, references, packed bits) preserve element count and order.",
  [I,C],"every ring and bit type, every batch length",
  "Round trips for a few values in tests do not show that writer and reader widths agree for every type and length.",
  ["iris-mpc/src/types/int_ring.rs","iris-mpc/src/types/ring_element.rs","iris-mpc/src/types/bit.rs","iris-mpc/src/types/sharable.rs",UT],[("paired add_to_bytes / take_from_bytes_mut and iterators","IntRing2k, RingImpl, RingBytesIter")])
p("C16","Value and MAC tag are always transformed together",
  "Every local operation on an authenticated share applies the same linear transformation to the value and to its tag, so a valid pair stays valid. No operation updates one component without the other or mixes components of different operands.",
  [I,G],"all operators and vector operations on authenticated shares",
  "Tests that only look at the opened value do not observe a wrong tag until a MAC check, and not every operator is followed by one.",
  ["iris-mpc/src/spdzwise/share.rs","iris-mpc/src/spdzwise/vecshare.rs",SP],[("component-wise operators","SpdzWiseShare/SpdzWiseVecShare arithmetic, add_const / sub_const / mul_const")])
p("C17","Protocol control flow does not depend on secret data",
  "Which messages are sent, to whom, how many and of what length depends only on public data (sizes, party ids, configuration), never on the content of a secret share, private input or mask. The only data-dependent branches are checks whose failing side ends the operation with an error.",
  [I,S],"all secret inputs, every branch in every engine operation",
  "A secret-dependent shortcut yields the same results in every test; it shows only as a message pattern correlated with secrets, or as parties out of step for particular values.",
  [A3,A3M,SW,SP,BT,IR],[("straight-line data-oblivious protocols","all engine operations")])
p("C18","Reinterpreting conversions are only applied to layout-identical types",
  "Every unchecked reinterpretation of memory (slices, vectors or references of wrapped elements seen as raw elements and back) relates a type and a wrapper of it with guaranteed identical layout, preserves length and capacity, and keeps a single owner of the allocation. No unsafe conversion changes the element size or creates invalid values.",
  [G,I],"every unsafe block in the library crates and all instantiations of its type parameters",
  "Layout differences and double frees may be benign on the tested compiler and types.",
  ["iris-mpc/src/types/ring_element.rs","iris-mpc/src/types/bit.rs","iris-mpc/src/types/int_ring.rs"],[("repr(transparent) wrappers and from_raw_parts conversions","RingElement::convert*, Bit conversions")])
p("C19","Every job given to a managed channel gets exactly one reply, in order",
  "Each send or receive submitted to a managed channel is answered exactly once, with the outcome of that very operation, and jobs are served in submission order. If the channel or its worker is gone the caller gets an error; nothing is acknowledged before the underlying operation has completed and no error is reported as success.",
  [S,F,H],"all interleavings of submissions, channel closure, and I/O failures",
  "The network crate has no tests at all, and order or reply loss depends on scheduling and failures.",
  [CH],[("one worker loop per direction with a reply sender in each job","ChannelHandle::manage, send, recv, blocking_send, blocking_recv")])
p("C20","Network set-up validates its configuration and authenticates peers",
  "Establishing the network first rejects invalid configurations (own id missing, duplicate ids), connects only with certificates of configured parties as trust roots, and registers each peer connection once under the id that identifies it. Channels handed out are tied to the connection whose peer confirmed its id, and shutting down closes every connection and waits for every endpoint.",
  [C,F],"all configurations and peer behaviours during set-up",
  "There are no tests of connection set-up; wrong orderings only show with invalid configurations or misbehaving peers.",
  [NET,CFG],[("check_config before any I/O, root store from configured certificates, id handshake","MpcNetworkHandler::establish, get_custom_channels, shutdown; NetworkConfig::check_config")])
p("C21","Sample databases are written atomically with each share in its own column",
  "The data generators write every batch of records inside one transaction that is committed only after all records were written, and any failure leaves the program with an error and the batch unwritten. Each party's column receives that party's share (and tag) of the same record and nothing else.",
  [K,F,I],"every crash or I/O failure during generation, every record, all protocols",
  "The generators have no tests; a crash in the middle or a swapped column goes unnoticed.",
  [DB,"plain-reference/src/bin/create_sample_data_plain.rs"],[("transaction, prepared statement, commit at the end","create_aby3_db, create_swift3_db, create_spdzwise_db, main of the plain generator")])
p("C22","Verification rings leave the required statistical security margin",
  "The ring in which products or tags are verified is larger than the value ring by at least the statistical security parameter the checks are designed for, for every supported element type. An engine refuses element types for which the margin is not met instead of running with a weaker check.",
  [C],"every supported element type and every engine that verifies in an extended ring",
  "A verification ring that is too small makes no honest run fail.",
  ["iris-mpc/src/types/sharable.rs",A3M,SP],[("associated verification types and size assertions","Sharable implementations; sacrifice functions")])
p("C23","Pre-generated AND triples are never reused",
  "Each pre-generated AND triple is used for at most one AND gate: taking triples removes exactly what is taken, the same part of all three components, from the store. Triples enter the store only after the cut-and-choose and verification of their batch have succeeded, on error paths too. Each bucket check permutes whole batches of at least 2^13 registers (2^20 triples) with a uniform permutation of all their bits.",
  [H,I],"all histories of batched ANDs and triple generation, all batch sizes",
  "Reusing a triple leaves results correct in honest runs; only privacy breaks.",
  [SP,"iris-mpc/src/spdzwise/triples.rs"],[("store with removal on use, refill through generation","SpdzWise and/and_many, generate_triples, precompute_and_triples; triples.rs")],[("prec_triples","unused verified triples","SpdzWise")])
p("C24","Correlated generators stay in step between the parties",
  "Each pair of parties that shares a keyed generator draws from it in the same order and the same amount in every operation, on every path that succeeds. An operation never draws from one of the pairwise generators without its counterpart being drawn by the matching peer.",
  [H,S,I],"all sequences of operations and batch sizes, all three party roles",
  "A generator that is out of step after some rarely used path breaks only later operations, in ways tests of single operations do not see.",
  ["iris-mpc/src/aby3/random/prf.rs","iris-mpc/src/swift3/random/prf.rs",A3,A3M,SW,SP],[("paired draws","Prf::gen_rands, gen_zero_share, gen_p and role-dependent uses")])
p("C25","The three parties' message patterns always fit together",
  "In every operation, each message a party sends to a peer is received by that peer at the matching point of its own execution, in the same order and with the same batch structure, on all success paths. No operation can leave a message unread or a party waiting for one that is never sent.",
  [S,I,H],"all operations, all party roles, all success paths",
  "Tests run fixed sizes in lock step; a role-dependent or size-dependent extra message shows only on other paths.",
  [A3,A3M,SW,SP,UT],[("symmetric send/receive structure","all engine operations"),("ordered send-then-receive helpers","utils.rs")])
p("C26","Secure computation results equal the plain computation",
  "For all inputs, the opened result of every sequence of secure operations equals the same computation on plain values in the ring. This includes bit extraction, reductions and masked distances for every supported ring.",
  [I,H],"all values, all operation sequences",
  "Tests sample random values for each operation.",
  [A3,A3M,SW,SP,BT],[("protocol arithmetic","all engines")])
p("C27","Zero-knowledge product proofs are sound",
  "A proof of a wrong product is accepted with at most the designed probability. Field arithmetic, interpolation and the irreducible polynomials used are correct.",
  [I],"all wrong products and all prover strategies",
  "Soundness is probabilistic over challenges and adversarial provers.",
  ["iris-mpc/src/dzkp/mod.rs","iris-mpc/src/dzkp/polynomial.rs","iris-mpc/src/dzkp/gf2p64.rs"],[("polynomial identity checks","dzkp")])
p("C28","The AND-gate budget of a query never undershoots its consumption",
  "The number of AND triples reserved before a query is at least the number the query consumes, for every database size, chunk size and ring. A query therefore never needs to generate triples in its middle.",
  [I,C],"all database sizes, chunk sizes and rings",
  "The tests use one or two sizes.",
  [IR,SP],[("budget formula","IrisProtocol::msb_and_gates, iris_in_db")])
p("C29","Product-proof parameters keep the designed soundness for every batch",
  "For every accepted batch size the product proofs work over a field large enough for 40 bits of soundness: the degree of the extension is at least log2(2m)+40, or the parameters are refused. Each modulus is irreducible over GF(2) and has the degree it is requested for. Verification challenges and proof masks are drawn from the whole extension, not from a subset of it.",
  [I],"all batch sizes, all table entries, all drawn challenges",
  "A reducible modulus or a challenge from too small a set leaves every honest proof valid; only a cheating prover profits, and only at some batch sizes.",
  ["iris-mpc/src/dzkp/irreducible_polys.rs","iris-mpc/src/dzkp/mul_proof.rs","iris-mpc/src/dzkp/dot_proof.rs","iris-mpc/src/dzkp/and_proof.rs","iris-mpc/src/dzkp/gf2p64.rs",SW],[("parameter choice","set_parameters of the three proofs"),("modulus table","IrreduciblePolys, GF2p64::MODULUS"),("challenge and mask draws","Poly::random callers")])
p("C30","The production network delivers to and receives from the party that is meant",
  "For every own id, a message sent to the next party, the previous party or an explicit id is submitted once on the connection of exactly that party, and a reception yields the next message of exactly the party asked for or an error. A broadcast sends the data once to both others before it waits, and its result holds one message per party at the index of its sender, with the own data at the own index. An id that is not a peer is an error without any message; set-up refuses own ids outside 0..2 and configurations that do not have three parties; shutting down shuts the connections down.",
  [I],"all party ids, all methods of the network interface, all outcomes of the connections",
  "All engine tests run over an in-process test network; the network used in production has no test at all.",
  ["iris-mpc/src/aby3/network.rs","iris-mpc/src/aby3/id.rs","iris-mpc/src/traits/network_trait.rs"],[("mapping of ids to channels","Aby3Network::new"),("send/receive/broadcast","NetworkTrait for Aby3Network"),("party ids","PartyID")])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
