"""Repair of 58b files."""


def texts(blocks, eol, last):
    """(damaged, intact) text of a file of binary data-sets; blocks: (header lines, payload)"""
    bad, good = b'', b''
    for i, (head, payload) in enumerate(blocks):
        h = b''.join(x + eol for x in head)
        end = eol if last or i < len(blocks) - 1 else b''
        bad += h + payload + eol + b'    -1' + end
        good += h + payload + b'    -1' + end
    return bad, good


def admissible(blocks, eol, last):
    import re
    bad, good = texts(blocks, eol, last)
    d = re.compile(rb'(?=    -1(?:[\r\n]|\Z| {74}))')
    return len(d.findall(good)) == 2 * len(blocks) == len(d.findall(bad))
