"""What the deductive checks rely on without proving it (copied into the evidence)."""

BASE = [
    'engine/interp.py: symbolic execution of the Python subset used by the code, loops by checked invariants',
    'engine/text.py, engine/seqs.py: normal forms of texts and sequences (printing, slicing, splitting, joining)',
    'engine/lib.py: contracts assumed for builtins, str/bytes, list, dict, struct, os, open and the numpy functions used',
    'contracts/*.py: the specifications (also run against CPython on generated instances in the same check)',
    'z3',
]

ASSUME = [
    'floats are treated as real numbers; printing with p digits is an idempotent rounding rnd_p that keeps a two-digit '
    'exponent (%e), and conversion to 32 bits an idempotent rounding',
    'integers and sizes are mathematical; counts are below 10**8',
    'no NaN, infinities or negative zeros among the values',
    'texts in fields are abstract: stripped, without line-break characters, at most as long as their field',
]

SESSION = ('modular: the methods of UFF are checked against the contracts of the functions they call; the contracts of the 15 '
           'writers and readers (a writer appends the block of its data-set or raises, a reader gives back its data-set) are '
           'those discharged as R01..R16, that of refresh is the one discharged as F01')
KINDS = ('the content of the file at hand is one of: no file, an empty file, text that ends with or without a line end, binary '
         'data, each of unknown length')
MORE = {
    'R07': ['the clock is constant during a write'],
    'R13': ['the products of counts met in the code (records times values per record) are a function of their factors'],
    'F01': ['bytes of the file are arbitrary; bytes.find is assumed to give the first occurrence at or after its start, '
            'bytes.splitlines and int(bytes) are uninterpreted functions of the bytes they are given'],
    'F02': [SESSION, KINDS],
    'F03': [SESSION],
    'F05': [KINDS],
    'F06': ['scalars are Python\'s own numbers (numpy scalars are not among the arguments), integers fit in 64 bits; sequences have '
            'one or two dimensions and every argument is of the kind its docstring names'],
    'F08': ['bytes.splitlines(keepends) cuts a file of the domain into its lines, each with its line end; rstrip and strip of a '
            'line are uninterpreted; os.path.splitext is a pair of functions of the path',
            'precondition: no line of a data-set but its tags reads four blanks and -1 up to white space at its end'],
    'F09': ['the nodes are integers within 64 bits; the list of nodes of an element is a list, a tuple or an array of four'],
    'F07': [SESSION, KINDS, 'the clock is constant during a write'],
}


def base(pid):
    return BASE


def assumptions(pid):
    return ASSUME + MORE.get(pid, [])
