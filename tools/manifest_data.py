PENDING = 'No check has been built for it yet.'
NOT_APPLICABLE = {
    'C31': 'Accuracy on unseen messages is a statistical quantity of data, not a fact about '
           'paths of the source; no sound static argument in reach bounds it.',
    'C32': 'Bounds on accumulated floating-point rounding through log, exp and frexp need '
           'numerical error analysis of values; dataflow over the source decides the formula '
           '(C04, C06) but not its rounding.',
    'C33': 'The library does not lock a shelf, by design (see the comment in '
           'ShelveClassifier.store); the guarantee depends on dbm and the operating system, '
           'and there is no locking discipline in the source to check.',
    'C34': 'dbm writes pages in an order the source does not determine; what survives a crash '
           'is decided by the dbm library and the file system, outside of the source.',
}
_REACH = ('abstract interpretation of the syntax tree: fixpoint of the reachable abstract states '
          'of each classifier class')
_REACH_NOTE = (
    'Every history of public operations, every prior state of one arbitrary token and every kind '
    'of token stream is covered by the fixpoint, with symbolic counts. Trusts the models of the '
    'standard library and the transfer functions of the interpreter; imprecision is reported as '
    'UNDECIDED, never as a violation.')
_TERM_NOTE = (
    'Every path through the analysed functions is followed with symbols for all numbers, and what '
    'is returned is judged as a term; numbers are reals. Bounds: short lists of tokens stand for '
    'long ones, and degrees of freedom up to 600. Imprecision is reported as UNDECIDED, never '
    'as a violation.')
_CLIENT_NOTE = (
    'A client program is interpreted together with the library on all paths, with symbols for '
    'contents; a fixpoint covers every sequence of operations. Bounds: a few keys and small caches '
    'stand for any number; the file system is modelled without symbolic links and without '
    'concurrent changes. Imprecision is reported as UNDECIDED, never as a violation.')
_MESSAGE_NOTE = (
    'The methods of a message are interpreted on all paths with symbols for texts, ids and '
    'numbers; the email package is modelled. Bounds: a few headers, clues and line ends stand for '
    'any number. Imprecision is reported as UNDECIDED, never as a violation.')
_LOOKUP_NOTE = (
    'All paths are followed with symbols for the names and addresses; the socket and ipaddress '
    'modules are modelled. Bounds: answers of up to two addresses; sequences of up to five prefix '
    'lengths. Imprecision is reported as UNDECIDED, never as a violation.')
TECHNIQUE = {
    'C11': ('abstract interpretation with a symbolic file system that fails at every operation: '
            'typestate of the file, its temporary copy and its lock on every path', _CLIENT_NOTE),
    'C12': ('abstract interpretation with symbolic files of the stored classifiers: exceptional '
            'paths of loading for every failure, kind of damage and version', _CLIENT_NOTE),
    'C13': ('abstract interpretation: fixpoint of the states that puts and removals reach, '
            'compared with a reference model', _CLIENT_NOTE),
    'C14': ('abstract interpretation with a symbolic file system: fixpoint of the states that '
            'adding, removing and looking up reach, compared with a reference model', _CLIENT_NOTE),
    'C15': ('abstract interpretation: file effects on every path for hostile ids, and guard '
            '(sanitizer) analysis for a symbolic id', _CLIENT_NOTE),
    'C16': ('abstract interpretation: order of store and notification effects on every path, with '
            'failures', _CLIENT_NOTE),
    'C17': ('abstract interpretation of a client with trainers, corpora and signals: the calls that '
            'reach the classifier on every path of a fixpoint of operations', _CLIENT_NOTE),
    'C18': ('abstract interpretation with symbolic ids of every kind: the facts on each path must '
            'decide whether the id has to be accepted', _CLIENT_NOTE),
    'C01': (_REACH, _REACH_NOTE),
    'C02': (_REACH, _REACH_NOTE),
    'C03': (_REACH + ' with database write effects', _REACH_NOTE),
    'C09': (_REACH + ' with a symbolic shelf', _REACH_NOTE),
    'C10': (_REACH + ' with symbolic files and pickles', _REACH_NOTE),
    'C04': ('abstract interpretation of probability() with symbolic counts; normal form of the '
            'returned rational function compared with the formula', _TERM_NOTE),
    'C05': ('abstract interpretation of probability() with a symbolic cache in every state the '
            'reachability fixpoint leaves it', _TERM_NOTE),
    'C06': ('abstract interpretation of spamprob() and chi2Q() with symbolic probabilities; normal '
            'form of the returned term compared with the formula', _TERM_NOTE),
    'C07': ('abstract interpretation of spamprob() with symbolic probabilities; the clues on each '
            'path compared with the selection required for every order of strengths', _TERM_NOTE),
    'C08': ('abstract interpretation of learn(), unlearn() and spamprob() on every pattern of '
            'repeated words; sets of keys created and looked up compared', _TERM_NOTE),
    'C19': ('abstract interpretation with a symbolic probability: the order facts on each path '
            'decide the classification that the object, the header and the notations must name',
            _MESSAGE_NOTE),
    'C20': ('abstract interpretation of adding, listing and removing headers under all options: '
            'the effects on the headers are collected on every path and compared', _MESSAGE_NOTE),
    'C21': ('abstract interpretation of rendering, including the failing path, with a symbolic '
            'line-end domain for the text returned', _MESSAGE_NOTE),
    'C22': ('abstract interpretation with tainted text: no text of a token reaches a header '
            'value without an encoding that removes line breaks; the clues listed follow from '
            'the facts on each path', _MESSAGE_NOTE),
    'C26': ('abstract interpretation with a resolver that ends in every way: the effects on the '
            'process-wide timeout on every path, exceptional ones included', _LOOKUP_NOTE),
    'C30': ('abstract interpretation with a symbolic address; the networks are terms compared '
            'with those required', _LOOKUP_NOTE),
    'C28': ('abstract interpretation with a file of symbolic pieces at linear positions: what is '
            'written and what each probe reads are compared for all layouts of hash values',
            'All paths are followed with symbols for keys and values of any length. Bounds: up to '
            'three items (thorough: four) with hash values chosen so that tables and slots are '
            'shared and wrap around; each table size beyond that follows by the same code. '
            'Imprecision is reported as UNDECIDED, never as a violation.'),
    'C29': ('abstract interpretation with a modelled network and file system: the facts on each '
            'path to a request, and the requests in sequences of two operations',
            'All paths are followed with symbols for probabilities, links, status codes, types and '
            'texts of pages. Bounds: a maximum of four clues stands for any; two operations stand '
            'for any history; the cache of pages is a model without expiry. Imprecision is '
            'reported as UNDECIDED, never as a violation.'),
    'C25': ('abstract interpretation of the strippers with symbolic matches: what each piece of '
            'the returned text and each token is a slice or a match of',
            'All paths of a section-stripping run are followed with symbols for the positions of '
            'the matches; at most three sections per text stand for any number, since each turn '
            'of the loop is the same code. What a regular expression matches is not decided, only '
            'what becomes of its matches. Imprecision is reported as UNDECIDED, never as a '
            'violation.'),
    'C23': ('flow-sensitive inference of the kinds of values, by abstract interpretation of the '
            'syntax tree over all paths and calls',
            'Every operator, comparison, call, item, attribute and iteration of the tokenizer, '
            'the strippers and what they call, with every setting of the options; the email '
            'package is trusted to give the kinds of values it documents.'),
    'C24': ('effect and escape analysis: owners of the places where written objects are made, '
            'impure reads, order of sets',
            'Every write on every path of the tokenizer and of what it calls; the name lookups '
            'of sbclassifier.dnsutils are exempt, as the property says.'),
    'C27': ('flow-sensitive inference of the kinds of values and of which variables and '
            'attributes are assigned, over all functions entered with any arguments',
            'Every name, attribute, call and assignment of all modules. Attributes that a method '
            'other than __init__ sets up (lazily set ones) count as existing. Of the standard '
            'library, attributes are looked up in the installed Python; its signatures are not '
            'decided.'),
}
