"""Which analyses (groups) decide which property, and how each check is described."""

# group name -> module; each module has run(g)
GROUPS = {
    'messages': 'messages',
    'keyload': 'keyload',
    'fields': 'fields',
    'word': 'word',
    'slices': 'slices',
    'sponge': 'sponge',
    'wots': 'wots',
    'sizes': 'sizes',
    'mss': 'mss',
    'trees': 'trees',
    'ntru': 'ntru',
    'troika': 'troika',
    'poly': 'poly',
    'effects': 'effects',
    'equal': 'equal',
    'tsponge': 'tsponge',
    'borrow': 'borrow',
    'determ': 'determ',
    'cmds': 'cmds',
    'clones': 'clones',
}

AI = 'abstract interpretation of MIR'
TB = ['rustc (type checking, trait resolution, MIR construction)', 'the MIR dumper in /verif/driver',
      'the abstract interpreter in /verif/sa (transfer functions, models of core/alloc functions in models.py)']

# property -> (groups, level, technique, note)
CHECKS = {
    'C01': (['messages', 'keyload', 'fields', 'cmds', 'sizes'], 'proof', AI + ', sponge states as Herbrand terms, segmented trit buffers',
            'All message types for all field values and sizes; Keyload for the listed recipient configurations.'),
    'C02': (['messages', 'keyload', 'fields', 'cmds', 'sponge'], 'proof', AI + ', comparison with the documented PB3 command sequence',
            'Writer and reader transcripts against an independent transcription of the PB3 descriptions.'),
    'C03': (['messages', 'keyload', 'fields', 'cmds', 'sizes', 'mss'], 'proof', AI + ', affine sizes', 'sizeof against the write offset, symbolic sizes.'),
    'C04': (['messages', 'keyload', 'fields', 'cmds', 'word', 'slices', 'sponge', 'mss', 'ntru', 'wots'], 'proof', AI + ', path facts of every Ok outcome', 'Arbitrary input; every Ok path carries the verification fact.'),
    'C05': (['messages', 'keyload', 'fields', 'cmds', 'sizes', 'mss', 'ntru'], 'proof', AI + ', bounds, overflow and allocation obligations on arbitrary input, loop invariants',
            'Arbitrary input of arbitrary length.'),
    'C06': (['sponge', 'clones'], 'proof', AI + ', the permutation and its cells uninterpreted',
            'Every position of the outer state; the inner cells are symbolic.'),
    'C07': (['word', 'slices', 'sponge'], 'proof', AI + ', inductive loop analysis of the streaming operations',
            'Inductive over the number of pieces and their sizes, for every position; compared with the sponge contract the other groups rely on.'),
    'C08': (['word', 'slices', 'sponge'], 'proof', AI + ', inductive loop analysis, truth tables of the cell operations',
            'Every size, position and aliasing the documentation permits; all trit values by truth table.'),
    'C09': (['messages', 'keyload', 'fields', 'cmds', 'sponge', 'wots', 'mss', 'ntru'], 'proof', AI + ', sponge terms',
            'Every exported producer of digests, keystream, tags and keys.'),
    'C14': (['wots'], 'proof', AI + ', hash chains as counted terms, all 81 parts',
            'All 81 chains for every hash: digits as affine terms, chain lengths as counted terms.'),
    'C21': (['wots', 'mss', 'ntru'], 'proof', AI + ', sponge terms',
            'Lists of zero to four nonces and every caller; more nonces by induction over the loop.'),
    'C10': (['word', 'slices'], 'proof', AI + ', affine values with case split on digits',
            'Every trit pattern and every char of the codecs, by case split on digits.'),
    'C11': (['word', 'sizes'], 'proof', AI + ', affine digits, case split on the 14 lengths',
            'Every value up to SIZE_MAX on the writer side and every input on the reader side.'),
    'C12': (['word', 'slices', 'troika'], 'proof', AI + ', value ranges of every stored trit',
            'Every store into trit memory on all paths; the trits of the permutation by truth table.'),
    'C13': (['word', 'slices', 'fields', 'cmds', 'sizes', 'mss', 'messages', 'keyload'], 'proof', AI + ', affine bounds of every access',
            'Every public slice operation for all ranges; callers in messages and fields are held to the same contracts.'),
    'C15': (['mss'], 'proof', AI + ', sponge terms and trit layouts, symbolic heights',
            'Heights symbolic; layout, offsets and recovery from arbitrary input.'),
    'C16': (['mss', 'trees', 'effects', 'clones'], 'proof', AI + ', affine key numbers, per height',
            'Key numbers symbolic; heights enumerated (whole lives of trees of heights 0..4, thorough 0..6; per-step contracts for heights 0..20).'),
    'C17': (['mss', 'trees', 'effects', 'clones'], 'proof', AI + ', framing of the tree nodes, uninterpreted leaves and hashes',
            'Root, height and nodes are framed in every exported operation.'),
    'C24': (['mss', 'trees'], 'proof', AI + ', node positions per level, Herbrand terms of the hashes',
            'Node positions for every key number; heights enumerated.'),
    'C19': (['fields', 'ntru', 'poly', 'effects', 'messages', 'clones'], 'proof', AI + ', polynomial terms, path facts of every constructor',
            'Every constructor of a public key, on arbitrary trits.'),
    'C20': (['ntru', 'poly', 'messages', 'keyload', 'cmds'], 'proof', AI + ', sponge and polynomial terms',
            'Transcript of both directions as terms; interoperability, not hardness.'),
    'C23': (['word', 'slices', 'sponge', 'troika'], 'proof', AI + ', taint of branches and indices in the comparison loop',
            'Branches and memory indices in every function reachable from the comparisons, including the permutation.'),
    'C26': (['troika'], 'proof', AI + ', bit vectors of Boolean functions (truth tables) per lane',
            'All inputs: the operations are functions per lane.'),
    'C18': (['poly'], 'proof', AI + ', intervals and linear forms modulo Q per coefficient',
            'All inputs, per coefficient.'),
    'C32': (['poly'], 'proof', AI + ', linear forms modulo Q over the 1024 coefficients',
            'All inputs: the transforms are linear, so the 1024 basis images decide them.'),
    'C33': (['troika'], 'proof', AI + ', bit vectors of Boolean functions (truth tables) per lane, each step against the published one',
            'All states: each step against the published description, constants included.'),
    'C22': (['effects'], 'proof', 'MIR queries over impls and visibility; interprocedural taint analysis of exported functions',
            'Exported functions, impls and fields of the secret-carrying types.'),
    'C29': (['determ'], 'proof', 'MIR dataflow from hidden inputs and state to results; write effects of what debug assertions evaluate',
            'Hidden inputs: time, environment, addresses, hash order, statics, uninitialised memory, build mode.'),
    'C30': (['trees'], 'proof', AI + ', per-step contracts of both trees for heights 0..20, Herbrand terms of the hashes',
            'Every step of both trees for all key numbers; that a restarted stack finishes before it is needed is a counting argument given in DESIGN.md, checked over the whole life of small trees.'),
    'C28': (['borrow'], 'proof', 'MIR and signature queries (lifetimes, provenance, rights of pointers); compile-fail witnesses with compiling twins',
            'Exported signatures and pointer provenance; misuse that has to be rejected by the compiler.'),
    'C27': (['tsponge', 'troika'], 'proof', AI + ', inductive loop analysis, the permutation as an uninterpreted step over 729 trits',
            'Inductive over sizes and positions.'),
    'C25': (['word', 'slices', 'mss', 'ntru', 'poly', 'equal', 'wots', 'cmds'], 'proof', AI + ', comparison results as formulas',
            'Every PartialEq impl and comparison function of the crate.'),
    'C35': (['clones'], 'proof', AI + ' of every Clone impl on symbolic values; ownership query over the types',
            'Every Clone impl of the crate (slices are views and exempt); hand-written ones over sequences for lengths up to 3.'),
}

NOT_APPLICABLE = {
'C31': 'That decapsulation always recovers the key is a numerical statement about products in Z_q[x]/(x^n+1) and coefficient norms; it is not decidable from program structure.',
    'C34': 'Only the inner state is saved, so a restored sponge differs by design on short absorbs and immediate squeezes; as a universal statement it is false, and its true restriction depends on run-time histories.',
}

ASSUME = {
    '': ['debug assertions and overflow checks are on (as in the tests); std functions behave as documented'],
}
