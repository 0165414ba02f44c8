"""Writes properties.jsonl (kept as a script so that the common wording stays in one place)."""
import json, os
DS='pyuff/datasets/dataset_%s.py'
FIT=("integers that fit their column with a separating blank (at most 9 digits, or 8 and a minus sign, in 10 columns), "
     "strings that are stripped, contain no line-break character and fit their field, finite reals "
     "(magnitude zero or 1e-99..9.9e99 where the field has 13 columns), no record that itself spells the delimiter line")
FIT3=FIT.replace('1e-99..9.9e99 where the field has 13 columns', '1e-300..1e300')
def rt(id, n, title, stmt, why, extra='', fs=()):
    return dict(id=id, title=title, statement=stmt,
      quantifier=dict(over=['inputs'], text='every data-set of this type with '+(FIT3 if id in ('R02','R03','R04','R09') else FIT)+extra),
      why_tests_cant=why,
      anchors=dict(files=[DS % n,'pyuff/tools.py','pyuff/pyuff.py'],
        mechanism=[dict(name='_write%s'%n, where=DS%n),dict(name='_extract%s'%n, where=DS%n),
                   dict(name='_write_set/_read_set dispatch', where='pyuff/pyuff.py'),
                   dict(name='_opt_fields, _parse_header_line', where='pyuff/tools.py')],
        observe_at=['UFF.write_sets','UFF.read_sets'], hook_needed=None))
W='The tests write one or two hand-picked data-sets; the claim is over every count, value and combination of optional fields.'
P=[
rt('R01',15,'Nodes (15): what is written is what is read',
 'Writing a data-set 15 with any number of nodes and reading it back returns the same node numbers, coordinate systems and colours (0 where not given) and the x, y, z coordinates as printed with six significant digits, all in the given order. Each node is one line of four 10-column integers and three 13-column reals with exponent letter E.',W),
rt('R02',18,'Coordinate systems (18): what is written is what is read',
 'Writing a data-set 18 with any number of coordinate systems and reading it back returns the same numbers, types, reference systems, colours, methods (defaults 0, 0, 1) and names, and the origin and axis points as printed with six significant digits, each with its own system and in the given order. Each system takes four lines: five 10-column integers, a 40-column name, six 13-column reals and three 13-column reals.',W,'; at least one system'),
rt('R03',55,'Data at nodes (55): what is written is what is read',
 'Writing a data-set 55 (normal modes, complex modes or frequency response; real data with 3 or 6 values per node, complex data with 3) and reading it back returns every header field, the modal quantities and each node number with its values as printed with six significant digits, in the given order. Left-out titles, masses, damping and modal constants get their defaults, and the text follows the record columns of the format (80-column titles, 10-column integers, 13-column reals).',W,'; at least one node'),
rt('R04',58,'Functions (58, text): what is written is what is read',
 'Writing a data-set 58 in text form, with even or uneven abscissa, real or complex ordinate, single or double precision and any number of points from two up, and reading it back returns every header field, the ordinate in the given order with the printed digits (12 in double, 6 in single precision), and the abscissa: the printed values when uneven, first value plus multiples of the increment when even. Left-out header fields get their defaults and the text follows the columns of the format.',
 W,'; precision code 2 or 4 for real and 5 or 6 for complex ordinates'),
rt('R05',58,'Functions (58b, binary): what is written is what is read',
 'Writing a data-set 58 in binary form, in add or overwrite mode, and reading it back returns the same header fields and the ordinate and uneven abscissa exactly as stored (double precision exact, single precision rounded to 32-bit), in the given order, for any number of points from two up. The header announces the byte order and the number of data bytes that really follow, and a block in the other byte order or starting with bytes that look like line ends reads the same.',
 W+' One 58b file is compared with its text version.','; the payload does not contain the delimiter line'),
rt('R06',82,'Trace lines (82): what is written is what is read',
 'Writing a data-set 82 with a trace line of any length and reading it back returns the trace number, colour, identification and the whole node list in the given order, repeats and zeros included. Nodes are printed eight to a line in 10 columns, and a left-out colour or identification is written as 0 or NONE.',W),
rt('R07',151,'File header (151): what is written is what is read',
 'Writing a data-set 151 and reading it back returns the model name, description, application, program, the creation, save and write dates and times and the version and file type numbers that were given, each under its own key. Left-out dates and times are those of the moment of writing, left-out versions and file type are 0.',W,'; version and file type are integers'),
rt('R08',164,'Units (164): what is written is what is read',
 'Writing a data-set 164 and reading it back returns the units code, description and temperature mode and the four unit factors with exactly the same value. The factors are printed with 17 significant digits and a D exponent in 25 columns, and left-out description and mode get their defaults.',W),
rt('R09',1858,'Function qualifiers (1858): what is written is what is read',
 'Writing a data-set 1858 and reading it back returns every integer qualifier, every real value as printed with eight significant digits and both direction codes under their own key. The records use 12-column, 6-column and 15-column fields as the format prescribes.',W),
rt('R10',2400,'Model header (2400): what is written is what is read',
 'Writing a data-set 2400 with any subset of its fields and reading it back returns every given field, the 32 status flags in order, and the default (0, empty text, 32 zeros) of every field left out.',W),
rt('R11',2411,'Nodes, double precision (2411): what is written is what is read',
 'Writing a data-set 2411 with any number of nodes and reading it back returns the same node numbers, coordinate systems and colours and exactly the same coordinates, in the given order. Each node takes two lines: four 10-column integers and three 25-column reals with 17 significant digits.',W),
rt('R12',2412,'Elements (2412): what is written is what is read',
 'Writing a data-set 2412 with any number of elements of any mix of element kinds, beams included, and reading it back returns under each element kind the same elements in the same order, each with its numbers, colour, beam record (only for the rod and beam kinds 11, 21-24) and node list. Triangle (41) and quadrilateral (44) elements are in addition returned column-wise under their names.',W,'; every element is listed under its own kind and has at least one node'),
rt('R13',2414,'Analysis data (2414): what is written is what is read',
 'Writing a data-set 2414 as frequency response (1, 2 or 3 complex components per node) or as general data at nodes, on elements or at nodes on elements, and reading it back returns every header field and each node or element with its own values as printed with six significant digits, in the given order. Left-out general record fields are written as 0.',W,'; at least one value per data line, at least one node or element where read as a table'),
rt('R14',2420,'Coordinate systems (2420): what is written is what is read',
 'Writing a data-set 2420 with any number of coordinate systems and reading it back returns the part number and name and, for each system in the given order, its label, type, colour, name and exactly the same 4 by 3 matrix. Lists of different lengths are refused.',W),
rt('R15',2429,'Permanent groups (2429): what is written is what is read',
 'Writing a data-set 2429 with any number of groups of any number of entities and reading it back returns every group in order with its numbers, name and the complete lists of entity types and tags in order. Entities are printed four to a line, and left-out active set numbers are 0.',W),
rt('R16',2467,'Permanent groups (2467): what is written is what is read',
 'Writing a data-set 2467 with any number of groups of any number of entities and reading it back returns every group in order with its numbers, name and the complete lists of entity types, tags, leaf ids and component ids in order. Entities are printed two to a line, and left-out active set numbers are 0.',W),
dict(id='F01',title='The scan finds exactly the data-sets a file contains',
 statement='For a file of arbitrary bytes, the data-sets reported are exactly the consecutive pairs of delimiters, taken from the start (four blanks and -1, followed by a line end, the end of the file, or blanks up to column 80; binary data may precede one on its line), in file order, an unpaired last delimiter being ignored. The type reported for each is the integer in columns 1-6 of its second line and its format is binary exactly when column 7 of that line is b or B; a file without a pair has no data-sets, whatever the object knew before.',
 quantifier=dict(over=['inputs','histories'],text='every byte content of the file, including empty, binary and malformed ones, and any earlier state of the reading object'),
 why_tests_cant='The tests scan a dozen sample files; the claim is over every byte string, where boundary cases (tag at the very end, padded tag, odd count, empty block, stale state) decide.',
 anchors=dict(files=['pyuff/pyuff.py'],state=[dict(name='_block_ind, _n_sets, _set_types, _set_formats',meaning='index of the file',where='pyuff/pyuff.py')],
  mechanism=[dict(name='UFF.refresh',where='pyuff/pyuff.py'),dict(name='UFF.get_n_sets/get_set_types/get_set_formats',where='pyuff/pyuff.py')],observe_at=['UFF.get_n_sets','UFF.get_set_types','UFF.get_set_formats'],hook_needed=None)),
dict(id='F02',title='Adding keeps earlier data-sets, overwriting replaces them',
 statement='Writing a list of data-sets in add mode leaves every byte already in the file in place and appends one block per data-set, in list order and starting on a line of its own; in overwrite mode the file afterwards holds exactly the blocks of the list, in order. A single data-set behaves as a list of one, data-sets of unsupported type add nothing, and the object afterwards reports the new content.',
 quantifier=dict(over=['inputs','histories'],text='every earlier file content, every list of writable data-sets, every sequence of add and overwrite calls'),
 why_tests_cant='The tests write one set per file or two in fixed order; the claim is over every history of writes and every earlier file content, terminated or not.',
 anchors=dict(files=['pyuff/pyuff.py','pyuff/datasets/dataset_58.py'],mechanism=[dict(name='UFF.write_sets',where='pyuff/pyuff.py'),dict(name='UFF._write_set',where='pyuff/pyuff.py'),dict(name='_write58 (reopens the file for the binary part)',where=DS%58)],observe_at=['file bytes','UFF.get_n_sets','UFF.read_sets'],hook_needed=None)),
dict(id='F03',title='Reading selects exactly the requested data-sets',
 statement='Reading all sets returns one dictionary per data-set in file order, reading a number returns that data-set, and reading a list of numbers returns those data-sets in the order asked for; when exactly one data-set results, it is returned on its own instead of in a list. A number below 0 or not below the count raises, a data-set of unsupported type is returned as its type only, and reading a file that does not exist raises.',
 quantifier=dict(over=['inputs','histories'],text='every file, every requested number or list of numbers (repeats allowed), reading before or after the file came into being'),
 why_tests_cant='The tests read one index or everything; the claim is over every selection, count and order and over every block content.',
 anchors=dict(files=['pyuff/pyuff.py'],mechanism=[dict(name='UFF.read_sets',where='pyuff/pyuff.py'),dict(name='UFF._read_set',where='pyuff/pyuff.py')],observe_at=['UFF.read_sets'],hook_needed=None)),
dict(id='F04',title='A header-only read equals the full read without the data',
 statement='Reading a data-set 58 header-only returns the same fields with the same values as the full read, with abscissa and ordinate set to None, for text and binary data-sets alike. For all other types the header-only read equals the full read.',
 quantifier=dict(over=['inputs'],text='every file that reads in full'),
 why_tests_cant='No test compares the two reads over all header contents and data-set types.',
 anchors=dict(files=['pyuff/pyuff.py',DS%58],mechanism=[dict(name='_extract58 header_only branch',where=DS%58),dict(name='UFF.read_sets/_read_set pass header_only on',where='pyuff/pyuff.py')],observe_at=['UFF.read_sets(header_only=True)'],hook_needed=None)),
dict(id='F05',title='Writing never replaces what the caller supplied',
 statement='When a data-set is written, every field the caller supplied keeps its value in the caller\'s dictionary, optional fields left out are added with their default, and no field disappears; so that writing the same dictionary again produces the same block. The only supplied fields that may be recalculated are, for type 58, the precision code (when double precision is forced), the byte count and the first abscissa value, for type 55 modal constants turned complex, and infinite or missing numbers in the ordinate replaced by finite ones.',
 quantifier=dict(over=['inputs'],text='every data-set of the supported types and every subset of its optional fields'),
 why_tests_cant='Tests look at the file, not at the dictionary afterwards, and never at more than one subset of optional fields.',
 anchors=dict(files=['pyuff/tools.py','pyuff/pyuff.py']+[DS%n for n in (15,18,55,58,82,151,164,2400,2414,2420,2429,2467)],mechanism=[dict(name='_opt_fields',where='pyuff/tools.py'),dict(name='every _writeN',where='pyuff/datasets')],observe_at=['UFF.write_sets'],hook_needed=None)),
dict(id='F06',title='Builders put every argument under its own key',
 statement='Each prepare function called with valid arguments returns a dictionary with the type of the data-set and every given argument, unchanged, under its own documented key; arguments not given are left out, or present as None when the full dictionary is asked for. Given group values, including every active set number, arrive in the group unchanged.',
 quantifier=dict(over=['inputs'],text='every prepare function and every combination of given and omitted valid arguments'),
 why_tests_cant='The tests compare the key lists of one full and one empty call, not which argument lands under which key for every combination.',
 anchors=dict(files=['pyuff/tools.py']+[DS%n for n in (15,18,55,58,82,151,164,1858,2400,2411,2412,2414,2420,2429,2467)],mechanism=[dict(name='prepare_N',where='pyuff/datasets'),dict(name='check_dict_for_none',where='pyuff/tools.py')],observe_at=['pyuff.prepare_*'],hook_needed=None)),
dict(id='F07',title='A refused write raises and leaves the file content alone',
 statement='Adding a data-set that lacks its type or a required field raises an exception and leaves the file with exactly the bytes it had, so that all earlier data-sets still read and later additions work. An unknown write mode or an empty list of data-sets raises and touches nothing.',
 quantifier=dict(over=['inputs','histories','fault_sequences'],text='every file content, every supported type with any non-empty set of required fields missing, every mode string other than add/overwrite'),
 why_tests_cant='No test writes an incomplete data-set into a file with content and then looks at the file.',
 anchors=dict(files=['pyuff/pyuff.py'],mechanism=[dict(name='UFF._write_set error path',where='pyuff/pyuff.py'),dict(name='UFF.write_sets mode check',where='pyuff/pyuff.py')],observe_at=['UFF.write_sets','file bytes'],hook_needed=None)),
dict(id='F08',title='The 58b repair only moves misplaced end tags',
 statement='Repairing a file whose binary data-sets have a line break inserted between the data and the end tag yields the same bytes with exactly those line breaks removed, so that every data-set reads with its data intact; nothing else in the file changes and the original file is not modified. The result goes to the given name, or by default to the original name with _fixed before the extension, and a missing input file raises.',
 quantifier=dict(over=['inputs'],text='every sequence of binary 58 data-sets with payloads without a line that reads four blanks and -1 up to white space at its end, with LF or CR LF line ends, last end tag with or without line end'),
 why_tests_cant='One sample file is repaired and only its ordinate is compared.',
 anchors=dict(files=[DS%58],mechanism=[dict(name='fix_58b',where=DS%58)],observe_at=['pyuff.fix_58b'],hook_needed=None)),
dict(id='F09',title='Quadrilateral elements convert to closed trace lines',
 statement='Converting data-sets to trace lines yields one data-set 82 for each data-set 2412 that has quadrilateral elements, in order, numbered by the position of its source, with colour 0 and an empty identification. Its node list is, for each quadrilateral a, b, c, d in order, a b 0 b c 0 c d 0 d a 0, its node count is the length of that list, and the converted data-sets are not modified.',
 quantifier=dict(over=['inputs'],text='every list of data-sets and every number of quadrilaterals'),
 why_tests_cant='No test converts anything.',
 anchors=dict(files=['pyuff/tools.py'],mechanism=[dict(name='convert_dataset_2412_to_82',where='pyuff/tools.py')],observe_at=['pyuff.tools.convert_dataset_2412_to_82'],hook_needed=None)),
dict(id='F10',title='Writing back what was read reproduces the block',
 statement='For every supported data-set type, a data-set read from a file this library wrote, written again, gives the very same text, byte for byte (the sign of a zero aside). For evenly spaced functions (58) the increment is recomputed from the abscissa and may differ in its last printed digit.',
 quantifier=dict(over=['inputs','histories'],text='every data-set written by the library, within the value ranges of the round-trip properties'),
 why_tests_cant='The tests compare selected fields after one cycle for sample files; they never compare the files.',
 anchors=dict(files=[DS%n for n in (15,18,55,58,82,151,164,1858,2400,2411,2412,2414,2420,2429,2467)],mechanism=[dict(name='_writeN after _extractN',where='pyuff/datasets')],observe_at=['UFF.read_sets','UFF.write_sets','file bytes'],hook_needed=None)),
]
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for p in P:
        assert len(p['title'])<=80, p['id']
        f.write(json.dumps(p)+'\n')
