#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of methods below."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
METHOD = {
    'C01': ('gcc and clang address, undefined behaviour, bounds and memory sanitizers and fortified builds over generated hostile programs, include trees and '
            'command lines, and every construct at every length around each buffer',
            'No report in the explored runs (counts and source lines reached in the evidence). Overflows inside one object are seen only by fortified functions.'),
    'C02': ('monitor of exit status and verdict lines over hostile programs under a CPU time and output limit',
            'All sequences of up to four block directives, page size grids, nesting limits, random hostile programs. Hang = 3 s CPU (9 s on repetition), 4 MB output.'),
    'C03': ('trace checker over object files: an independent S-record / Intel HEX / raw parser accepts every record of random programs',
            'Held on the generated layouts, formats and CPUs (counts in the evidence). Trusts lib/objfile.py.'),
    'C04': ('offline conservation checker: the memory image read from the object file against the bytes known to be emitted, in order and place',
            'Held on the generated segment layouts in all output formats. Trusts lib/objfile.py, lib/objwork.py.'),
    'C05': ('fault enumeration under a monitor of the directory: failing writes (file size limit at every byte), unwritable targets, errors and '
            'fatal errors of every kind, with and without an older code file; the file left is decoded independently',
            'Every byte position of a failing write for small programs, sampled for larger ones; the listed kinds of errors. Trusts lib/objfile.py.',
            'fault_enumeration'),
    'C07': ('differential monitor: programs of labels, EQUs, redefinitions and faults against an independent two pass symbol resolver',
            'Held on the generated programs and fault lists. Trusts the resolver in checks/C07.py.'),
    'C08': ('differential monitor: sections, expansions and includes that reuse local names against an independent scope resolver',
            'Held on the generated programs and on every kind of border crossing. Trusts the resolver in checks/C08.py.'),
    'C23': ('N-variant execution: byte for byte comparison of all results between builds, memory fillings and surroundings of the process, and of the directory',
            'Six builds and fillings, 23 surroundings, on valid and hostile programs. Standard streams are always open.'),
    'C24': ('differential monitor: operand values at and around every field limit; announcement and emitted low-order part compared',
            'All limits -3..+3 for all fields and instructions, sampled values beyond. Trusts the encoders in lib/.'),
    'C25': ('metamorphic monitor: one set of options in many spellings of the command line, both streams and the whole directory compared and judged',
            'Held on the generated option sets, spellings and file names. Trusts lib/gen.py.'),
    'C26': ('differential monitor: lines that processors read differently, under, above and without CPU directives in every kind of place, against a table of bytes',
            'All lines of the table under all processors; random programs, places and wrong names. Trusts the table in checks/C26.py.'),
    'C09': ('metamorphic monitor with an independent evaluator: program with conditionals against the same program with the taken branches only',
            'Held on the generated nestings and conditions. Trusts lib/expr.py, lib/fold.py.'),
    'C10': ('metamorphic monitor: program with macro calls against the program an independent expander writes out',
            'Held on the generated macro programs. Trusts lib/macwork.py.'),
    'C11': ('metamorphic monitor: program split over include files against the program in one file',
            'Held on the generated splits. Trusts lib/gen.py, lib/fold.py.'),
    'C15': ('differential monitor: every displacement around both limits for every relative branch of the three families against computed bytes',
            'All branches, all displacements -140..140, forward, backward and computed targets. Trusts checks/C15.py.'),
    'C16': ('differential monitor: data directives with random arguments against independently computed bytes',
            'Held on the generated directives. Trusts checks/C16.py, lib/numtext.py.'),
    'C17': ('online checker of the listing: every row (number or mark, text, address, bytes, value) against a simulator of the listing directives',
            'Held on the generated programs and switches and on every statement size around the width of a row. Trusts lib/gen.py, lib/listing.py.'),
    'C18': ('metamorphic monitor: every kind of program plainly and with all options and with listing directives strewn over all files',
            'Held on the generated programs, every permutation of the options, random directives. Trusts lib/gen.py.'),
    'C19': ('differential monitor: the table read cell by cell against symbols whose definition, uses, kind and value are known',
            'Held on the generated programs, table sizes and page sizes. Trusts lib/gen.py and the generator in checks/C19.py.'),
    'C20': ('online checker of the listing: reports, their lines and the totals against programs whose faulty and warned lines are known',
            'Every kind of fault and warning in every place (one each), random mixtures of them. Trusts lib/listing.py, lib/gen.py.'),
    'C21': ('metamorphic and differential monitor: programs in random other layouts against their known bytes and their original spelling',
            'Every blank place of 50 instruction shapes exhaustively with 7 fillings, random layouts of generated programs. Trusts lib/respell.py, lib/gen.py.'),
    'C22': ('online checker of the paged listing against the same program on an endless page: headings, page length, widths, continued rows, PAGE, SKIP',
            'Held on the generated programs and sizes, all limits of sizes and titles, PAGE and SKIP at every place of a page. Trusts lib/lister.py.'),
    'C06': ('differential monitor: random expression trees against an independent 32 bit evaluator, on the bytes in the object file',
            'Held on the generated expressions (counts in the evidence). Trusts lib/expr.py (evaluator, renderer), lib/objfile.py.'),
    'C12': ('differential monitor: every mnemonic x operand shape x processor against an independent 6502 encoder; refusals monitored too',
            'All mnemonic/shape/cpu combinations, all 8 bit operand values of every valid one, sampled 16 bit values and spellings. '
            'Trusts lib/enc6502.py.'),
    'C13': ('differential monitor: every mnemonic x operand shape x processor against an independent 6800 encoder; refusals monitored too',
            'All mnemonic/shape/cpu combinations, all 8 bit operand values of every valid one, sampled 16 bit values and spellings. '
            'Trusts lib/enc6800.py.'),
    'C14': ('differential monitor: every mnemonic x operand pair against an independent Z80 encoder; refusals monitored too',
            'All mnemonics with all pairs of operand shapes, all 8 bit values and displacements of the valid ones, sampled 16 bit '
            'values and spellings. Trusts lib/encz80.py. CPDR is a known finding.'),
}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks = []
    na = []
    for p in props:
        i = p['id']
        if i in METHOD and os.path.exists(os.path.join(HERE, 'checks', i + '.py')):
            m = METHOD[i]
            checks.append(dict(property=i, quick_cmd='python3 checks/%s.py' % i,
                               thorough_cmd='python3 checks/%s.py --thorough' % i,
                               evidence_file='evidence/%s.json' % i, technique=m[0],
                               level=m[2] if len(m) > 2 else 'exploration', level_note=m[1]))
        else:
            na.append(dict(property=i, reason='not claimed yet: its monitor is not written'))
    d = dict(version=1, setup_cmd='python3 checks/setup.py', checks=checks, not_applicable=na,
             notes='The checks build /repo/src in a scratch directory with its own Makefile and run the real program; '
                   'no hooks in /repo are needed.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(d, f, indent=1)
        f.write('\n')


main()
