"""Which function decides which property, and the technique as recorded in the manifest and the evidence."""
AI = ("interprocedural path-sensitive abstract interpretation (typestate over provenance labels) of the compiler's MIR, all helpers inlined, "
      "every engine entry point once per party role: ")
CHECKS = {
    "C01": ("rules_cover", "c01", AI + "at each success exit of an opening, every received datum and the whole received transcript has flowed into an equality test that passed"),
    "C02": ("rules_cover", "c02", AI + "no success exit and no panic is reachable from the failing side of an equality test on received data"),
    "C03": ("rules_cover", "c03", AI + "at each success exit every received datum is compared or stored in full in a register that an opening or verification compares; registers are never cleared unchecked"),
    "C04": ("rules_cover", "c04", AI + "at each success exit of verify, every product register has flowed in full into a passed check or is known to be empty"),
    "C05": ("rules_cover", "c05", AI + "value and tag of an authenticated argument have flowed into a passed MAC check before any message carries the value alone"),
    "C08": ("rules_chal", "c08", AI + "every test that uses a random challenge only tests data that had been received before the challenge was drawn, and its challenges come from interactive or joint randomness"),
    "C10": ("rules_mask", "c10", AI + "every send of secret-derived data outside an opening carries the label of a mask draw that no other element of the batch has used"),
    "C09": ("rules_commit", "c09", AI + "a contribution to joint randomness is sent in the clear only after both peers' commitments arrived, and joint seeds use only openings checked against those commitments"),
    "C11": ("rules_rng", "c11", AI + "every seed passed to a generator carries a label of entropy, peer data, a caller's argument or a keyed generator; preprocessing replaces every placeholder key, each from its own draw"),
    "C13": ("rules_fail", "c13", AI + "every fallible step is forked into success and failure; no success exit is reachable from a failure, no failure of a network, verification or sub-protocol step reaches an unwrap, and (def-use lint) no Result or reply is only dropped"),
    "C14": ("rules_len", "c14", AI + "before the first network event of an operation on several vectors every pair of lengths that must agree has been compared, and the unequal side only leads to an error"),
    "C12": ("rules_msg", "c12", AI + "path-sensitive tracking of message lengths: every received message must be compared with its expected length before it is decoded, indexed or reported as accepted; no unwrap, panic, bounds or division check may depend on peer data"),
    "C07": ("rules_match", "c07", "symbolic term dataflow over the compiler's MIR (expressions in canonical form, no solver): the decision tables of both matchers (refuse / match / no match over the comparisons they make) are extracted and compared row by row; masked sums are evaluated with every mask bit fixed"),
    "C06": ("rules_match", "c06", "symbolic term dataflow and typestate over the compiler's MIR of the query, MPC operations as primitives that may each fail: every path is checked for openings before verification, after a failure or of more than one value, for entries or answers that are dropped, and for an opened term other than the OR of all comparisons"),
    "C16": ("rules_lock", "c16", "symbolic term dataflow over the compiler's MIR: for every operation on authenticated shares the terms of value and tag in results, arguments and registers are extracted (products and network exchanges as symbols) and the tag's term must be the value's term with one factor replaced by its tag"),
    "C18": ("rules_unsafe", "c18", "audit of every unsafe operation in the compiler's MIR: each reinterpretation is an obligation that both layouts are the same through transparent wrappers (discharged at the call sites where it depends on type parameters), rebuilt allocations use pointer, length and capacity of one vector that is kept from being dropped, raw dereferences come from one reference"),
    "C22": ("rules_ring", "c22", AI + "run once per pair of ring sizes read from the program's associated types and constants: no success exit after work in a verification ring whose margin is below 40 bits, success possible otherwise"),
    "C29": ("rules_param", "c29", "constant analysis of the table of moduli (Rabin's irreducibility test on the constants of the source, look-up by abstract evaluation), symbolic term dataflow with lower bounds for the chosen extension degree, path conditions of the parameter setters, terms of every challenge draw"),
    "C23": ("rules_triples", "c23", AI + "with ownership labels for the content of the triple stores (a removing operation separates what it hands out from what stays): nothing sent or returned may still be in a store, what enters it has been compared before, and symbolic lengths of the batches that are permuted together"),
    "C17": ("rules_flow", "c17", AI + "recording both sides of every branch whose condition carries labels of secret data: no such branch may reach success on both sides, and no number of elements, loop bound, selection or peer is computed from secret data"),
    "C19": ("rules_chan", "c19", "typestate analysis by path-sensitive abstract interpretation of the compiler's MIR of the managed channel: every worker loop per job open -> operation completed -> answered, reply value tied by provenance to the outcome of that operation; handle operations per outcome of the queue submission"),
    "C20": ("rules_net", "c20", "typestate and provenance analysis by path-sensitive abstract interpretation of the compiler's MIR of network set-up: configuration facts required before any endpoint, contents of the trust store, id under which each connection and channel is registered, endpoints kept, shutdown"),
    "C21": ("rules_db", "c21", "typestate (transaction open, dirty, committed) and symbolic term dataflow over the compiler's MIR of the database generators, the sharing functions inlined: the term bound to each column of each INSERT statement of the source against the component of the share vector the column is named after"),
    "C24": ("rules_sync", "c24", "per-party abstract interpretation of the compiler's MIR of every engine operation into an automaton of generator draws; language equivalence of the projections of both holders of each pairwise key, the holders being derived from the set-up's data flow"),
    "C30": ("rules_adapter", "c30", "abstract interpretation of the compiler's MIR of the network adapter for every own id: the object built from a configuration with labelled channels is the receiver of each method, and each outcome's channel events and returned data are compared with the method's promise"),
    "C25": ("rules_sync", "c25", "per-party abstract interpretation of the compiler's MIR of every engine operation into an automaton of sends and receives; language equivalence of sender and receiver per channel (session duality) and joint exploration of the three automata for positions no completing run can pass"),
    "C15": ("rules_wire", "c15", "symbolic term dataflow over the compiler's MIR: per element type the bytes written (number, byte order, value) against those each reader consumes and the sizes its guards force; batch writers and readers run element by element over symbolic elements (once, in order, one buffer, nothing left over); bit-packing run with symbolic bits and two-bit words: source, bit and place of every bit"),
}
