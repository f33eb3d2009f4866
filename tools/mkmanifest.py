#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property that has a module under lib/checks."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = 'TLA+ specification %s: exhaustive model checking with TLC, and TLC trace validation of runs of the real code against it'
NOTE = ('The specification is checked exhaustively within the stated constants; the code is bound to it by replaying '
        'generated and exhaustively enumerated inputs into the real library and having TLC accept or reject what it '
        'returned. Trusts TLC, the harness and the projection of API results to JSON. ')
INFO = {
    'C01': ('Stream.tla, StreamTrace.tla', 'Inputs include arbitrary bytes; all buffer sizes and read plans of the generator.'),
    'C02': ('RingParser.tla and LogSem.tla', 'The double-buffered reader is modelled and refines LogSem; runs with '
            'shrunken buffers (hook) and the buffers as shipped.'),
    'C03': ('LogSem.tla, LogTrace.tla', 'Event boundaries, completion and timestamp; timestamps that match newlines are outside.'),
    'C04': ('LogSem.tla, LexTrace.tla', 'Token texts of whole runs, independent of where events are cut.'),
    'C05': ('LogSem.tla, Rules.tla, TypeTrace.tla', 'Types of each token from its text alone, and of all tokens of a run.'),
    'C06': ('Regex.tla, RegexEquiv.tla', 'Per expression, the product of the dumped automaton and the derivative sets is explored '
            'completely, so that the verdict holds for all strings of all lengths.'),
    'C07': ('SchemaText.tla, SchemaTrace.tla, RegexEquiv.tla', 'A parser of schema texts in TLA+; names, lines, delimiters compared, and per rule '
            'the language of the automaton the code builds with that of the parsed pattern, for all strings.'),
    'C08': ('SchemaText.tla, SchemaTrace.tla', 'First character at which a text stops being the beginning of a schema.'),
    'C09': ('Delimiting.tla, BuildTrace.tla', 'Acceptance or rejection, and what the message names.'),
    'C10': ('LogSem.tla, EventTrace.tla', 'Against the event\'s own tokens and against the whole specification.'),
    'C11': ('LogSem.tla, EventTrace.tla', 'Against the event\'s own tokens and against the whole specification.'),
    'C12': ('Copies.tla, CopyTrace.tla', 'Histories of parses, resets, copies, copies of copies, moves and drops.'),
    'C13': ('RingParser.tla, SessionTrace.tla', 'Histories of inputs with resets at every point.'),
    'C14': ('BufSem.tla, BufTrace.tla', 'Every split of the input and the documented refill loop.'),
    'C15': ('Stream.tla, StreamTrace.tla', 'Completion; every prefix of sample inputs.'),
    'C16': ('RingParser.tla and LogSem.tla with failing reads', 'Failures at every read call.'),
    'C17': ('Intersect.tla', 'Complete exploration of the product of derivative sets per pair.'),
    'C18': ('TagNfa.tla, TagRegex.tla', 'The serialized NFA is interpreted step by step against an annotated matching relation.'),
    'C19': ('Registers.tla, RegTrace.tla', 'Exhaustive short histories and long random ones.'),
    'C20': ('SchemaBuild.tla, SchemaBuildTrace.tla', 'Histories of additions with priorities, files and failing additions.'),
    'C21': ('IntervalTree.tla, AvlTree.tla, TreeTrace.tla', 'Exhaustive short histories and long random ones.'),
    'C22': ('FileReader.tla, FileTrace.tla', 'Histories of opens, reads, delimiter reads and closes over files of many sizes.'),
    'C23': ('RingParser.tla, ReadAhead.tla, AheadTrace.tla', 'Bytes fetched from the reader at each return of an event.'),
    'C24': ('MCLines.tla, LineTrace.tla', 'The line number of every token, against the tokens themselves.'),
    'C25': ('Lr.tla, LrTrace.tla', 'Curated and random grammars, with sentences, near misses and garbage as inputs, tokens with several names, rules that throw; MCLr checks the definitions against each other.'),
    'C26': ('ManyTrace.tla (LogSem.tla, once per parser)', 'Random interleavings, threads (as the scheduler of the system runs them) and parsers that read from parsers.'),
    'C27': ('Symbols.tla, SymbolTrace.tla', 'Questions about names and ids in between parses and resets, schemas of up to 300 variables.'),
    'C28': ('Alone.tla, MCAlone.tla, AloneTrace.tla', 'Lexers with and without delimiters, scanned completely and in part with small and large buffers; words before wildcards.'),
}
props = [json.loads(x)['id'] for x in open(os.path.join(HERE, 'properties.jsonl'))]
have = [p for p in props if os.path.exists(os.path.join(HERE, 'lib', 'checks', p.lower() + '.py'))]
m = {
    'version': 1,
    'setup_cmd': 'python3 tools/setup.py',
    'hooks': {'guard': 'LOG_SURGEON_VERIF_HOOKS',
              'enable': 'lib/vlib.py compiles /repo/src with -DLOG_SURGEON_VERIF_HOOKS into a scratch directory',
              'source_commits': ['b2e9be8']},
    'checks': [{'property': p, 'quick_cmd': 'python3 check.py ' + p,
                'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
                'technique': TV % INFO[p][0], 'level': 'model_checking', 'level_note': NOTE + INFO[p][1]} for p in have],
    'not_applicable': [{'property': p, 'reason': 'its check is not finished yet'} for p in props if p not in have],
    'notes': 'See DESIGN.md. Violations are written to evidence/<id>-replay-<n>.json.',
}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(have), 'checks')
