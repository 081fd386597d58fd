"""What is claimed per property: (technique, level note); and what is not, with the reason."""
AI = 'abstract interpretation of the compiler MIR to a fixpoint'
STORE_NOTE = ('Every MIR path of the interpreter and the store is explored for each command variant and each state of the named entry, over a store of '
              'unbounded size and symbolic operands; loops are taken to a fixpoint. Trusted: the library models (HashMap, Vec, String, SystemTime), '
              'the MIR extraction, no backwards clock step within one command.')
SERVER_NOTE = ('The main function of each server is run abstractly to find its workers and what they share; each worker is then explored from one arbitrary request or '
               'message to the next, with every outcome of receiving, authenticating, analysing, executing, handing on and answering. Other workers are abstracted by what '
               'they can do to shared channels, flags and locks. Trusted: channel, lock and thread models.')
GRAMMAR_NOTE = ('Token lists and texts of unbounded length; code and monitor ask questions about the same symbolic tokens, each question decided both ways, to a fixpoint. '
                'Trusted: the grammar written down in vp/checks/grammar.py (README and unit tests), library models.')
CLAIMS = {
    'T01': (AI + ' (interval/difference domain over cursor and length, ranking by cursor progress)',
            'Tokenizer and parser are run over a text and token list of unbounded symbolic length; every panicking construct reached is an obligation. '
            'Trusted: library models of str/Vec/iterators.'),
    'T02': (AI + ': every panicking construct reachable from command execution is an obligation', STORE_NOTE),
    'D01': (AI + ': final abstract store and reply compared with the documented effect', STORE_NOTE),
    'D02': (AI + ': expired-entry typestate', STORE_NOTE),
    'D03': (AI + ': effect analysis of error paths', STORE_NOTE),
    'D04': (AI + ': frame (effect) analysis over all other entries', STORE_NOTE),
    'D05': (AI + ': inductive data-structure invariant', STORE_NOTE + ' The invariant is assumed on entry and shown on every exit.'),
    'D06': (AI + ': inductive type invariant of collections', STORE_NOTE + ' Every construction site of a collection type in the crate is an obligation.'),
    'A01': (AI + ': effect analysis per command variant and privilege level', 'Requests of unbounded length; one arbitrary position of the request is followed symbolically (witness index); the store is abstract (its operations are recorded events).'),
    'A03': (AI + ': dataflow from the user-name header to identity and privilege', 'The literal user names the code tests for are enumerated from the code itself; every other name is one symbolic class.'),
    'N01': (AI + ': typestate of the receive loop over reads, head parsing and the announced length',
            'Any split of the data into reads, end or failure at any point, any header list (witness position and capitalisation of the length header). Trusted: httparse, serde_json, socket models.'),
    'N02': (AI + ': effect analysis of writes with partial-write and failure alternatives', 'Reply text is symbolic (pieces of literal text and open parts), compiled format templates are decoded from the MIR constants; every write and flush may fail or, for plain write, be cut short anywhere.'),
    'N03': (AI + ': case analysis over all error kinds', 'Each kind of result with an open message; the status line and payload are read off the symbolic text that is written.'),
    'T03': (AI + ' plus a type-graph walk over the Serialize implementations', 'Custom Serialize code is examined by the serde calls it makes; serde_json itself is trusted to fail only on non-text map keys and custom errors.'),
    'A02': (AI + ': typestate of the request from receipt to execution, in all three servers', SERVER_NOTE),
    'S01': (AI + ': typestate of the shutdown flag against executed shutdown commands', SERVER_NOTE),
    'S02': (AI + ': typestate of each worker loop (poll, wait, stop) and event order of the main thread against the channel graph', SERVER_NOTE),
    'R01': (AI + ': typestate of the reply obligation per request', SERVER_NOTE),
    'R02': (AI + ': provenance (taint) of every reply and message', SERVER_NOTE),
    'R03': (AI + ': every panic and every way out of a worker loop is an obligation', SERVER_NOTE),
    'X01': (AI + ': identity of the store and concurrency of its users', SERVER_NOTE),
    'X02': (AI + ': lock order and lock-held effect analysis', SERVER_NOTE),
    'E01': (AI + ': typestate of the request loop', 'Requests of unbounded length; the calls made per command are compared with those of a single-command request.'),
    'E02': (AI + ': the analysis run next to a monitor of the documented grammar; typestate of the analysed request in all three servers', GRAMMAR_NOTE),
    'E03': (AI + ': the parser run next to a monitor of the documented grammar', GRAMMAR_NOTE),
    'A04': (AI + ': effect analysis of parser and workers', GRAMMAR_NOTE),
    'D09': (AI + ': provenance of every character and numeral from text to token, of operands to commands, of stored values to replies', GRAMMAR_NOTE),
    'D07': (AI + ': time terms tracked symbolically', STORE_NOTE),
    'D08': (AI + ': effect of the sweep', STORE_NOTE),
}
NOT_APPLICABLE = {
    'Z01': 'The sweep picks entries at random; a bound on when an expired entry is picked is a probabilistic, runtime quantity no static argument here bounds.',
    'Z02': 'Depends on the numeric formatting and parsing of the standard library, serde_json and the client; precision over all numbers is not decided by dataflow over this source.',
    'Z03': 'Real time spent in the scheduler, network and store is a runtime quantity; no sound static bound is in reach.',
    'Z04': 'Linearizability quantifies over concurrent histories in real time; X01 and R02 cover the static part (one store, whole requests, own replies).',
}
