#!/usr/bin/env python3
"""Writes MANIFEST.json"""
import json
MC = 'explicit-state model checking of an independent reference model, every model trace replayed on the real program'
ST = 'stateless model checking of the real program: exhaustive enumeration within bounds against a reference model'
TRUST = ' Trusted: the reference model in /verif/harness and the extracted token sheet in /verif/spec; the scratch file system; bounds as in DESIGN.md.'
C = {
 'C01': (MC, 'model_checking', 'Every state and transition of the greedy tokenizer automaton of every token table (model, display mode, min/max) is covered by a text that the real program encodes; the bytes must decode to the text or the text must be rejected.'),
 'C02': (ST, 'model_checking', 'All one- and two-byte bodies, all pairs of tokens and every token in every display mode and calculator generation are decoded by the real program and compared with the token sheet.'),
 'C03': (ST, 'model_checking', 'All bodies over a symbol alphabet to a depth, and the full product of settings, through 8xp -> txt -> 8xp -> txt.'),
 'C04': (MC, 'model_checking', 'Every transition of the longest/shortest-match automata, and all token pairs in the thorough tier, replayed on the real program.'),
 'C05': (MC, 'model_checking', 'All texts over a context alphabet to a depth and all tokens inside every context, compared with the reference smart encoder; two genuine defects that the fixture tests pin are listed as known findings K1 and K2.'),
 'C06': (ST, 'model_checking', 'All iteration orders of every group of tied tokens that hashing can produce (as many as were reached by reloading tables), and all commands under controlled hash seeds.'),
 'C07': (ST, 'model_checking', 'The product of field values of the file format within a variation bound; every written file is parsed by an independent parser.'),
 'C08': (MC, 'model_checking', 'All histories of edits to closure of the reachable program files, each edge executed by the real program.'),
 'C09': (ST, 'model_checking', 'The product of field values within a variation bound, through json in every direction.'),
 'C10': (ST, 'model_checking', 'The product of field values within a variation bound, through 82p and 83p in every direction.'),
 'C11': (ST, 'model_checking', 'All models x all versions of the token sheet and their neighbours (library), all ordered pairs of versions, all product ids x signatures, all tokens per model (command line).'),
 'C12': (ST, 'model_checking', 'Every truncation and every single-byte change of valid files and all short bodies, under all commands.'),
 'C13': (ST, 'model_checking', 'The product of valid/invalid/missing header lines, every truncation and mutated field of json files, under all commands.'),
 'C14': (ST, 'model_checking', 'All writing commands x all kinds of existing target x all answers, and all command sequences to a depth, with a file-system snapshot oracle.'),
 'C15': ('exhaustive fault injection: every file-modifying call x every crash and error kind of every writing command, on the real program', 'fault_enumeration', 'Single faults in the quick tier, pairs of faults in the thorough tier. Faults are injected at the libc boundary.'),
 'C16': (ST, 'model_checking', 'All edit commands x all relations between old and new path x delete-old x answers, with a file-system snapshot oracle.'),
 'C17': (ST, 'model_checking', 'All subsets of representative directory entries x all orders of the directory x states of the output directory.'),
 'C18': (ST, 'model_checking', 'The product of field values within a variation bound x all display commands; no modifying call may be issued.'),
 'C19': (ST, 'model_checking', 'Every token of the sheet in every search form, every definition key and all two-byte values.'),
 'C20': (ST, 'model_checking', 'All argument sequences to a length over an alphabet of commands, flags and hostile strings; all permutations of flags.'),
 'C21': (ST, 'model_checking', 'All body sizes in windows around every limit, for every input and output format.'),
 'C22': ('stateless model checking of two real processes under a controlled scheduler (all interleavings of file-system calls)', 'model_checking', 'All interleavings of the file-system calls of all pairs of commands in one directory; triples of commands and mass conversions with a preemption bound.'),
 'C23': (ST, 'model_checking', 'The full product of formats and modes, all words within one edit of a listed value, all positions of a help flag.'),
 'C24': (ST, 'model_checking', 'All ways over an alphabet of path components to a depth x names x endings x commands, compared with the same command on plain names.'),
 'C25': (MC, 'model_checking', 'All sequences of conversions and edits to closure of the reachable abstract files; every transition executed by the real program and its bytes compared with those of the state it must lead to.'),
 'C27': (ST, 'model_checking', 'The product of field values within a variation bound x source and export formats x edits, and the product of all settings of a txt file; every field of every export is compared with the reference model.'),
 'C28': (MC, 'model_checking', 'All words of calls to a depth over an alphabet of library operations, the state of the real library compared with the reference model after every call; all small token tables x orders of insertion x short values.'),
 'C29': (ST, 'model_checking', 'Every mixture of line endings over files of up to nine lines, every description over an alphabet and all combinations of header-like lines to a number of variations; each execution against the plain file or the reference encoder.'),
 'C30': (ST, 'model_checking', 'All orders of the members of each object, all combinations of white space at six places, ways of escaping and paddings, over programs and outputs; each execution compared with that of the file as the tool writes it.'),
 'C26': (ST, 'model_checking', 'All short extensions and all words within one edit of a known extension x formats x commands, against a snapshot oracle.'),
}
import os, re
have = set(re.findall(r'"(C\d\d)" =>', open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness/src/main.rs')).read()))
m = {'version': 1, 'setup_cmd': './check build', 'checks': [
  {'property': k, 'quick_cmd': './check %s quick' % k, 'thorough_cmd': './check %s thorough' % k, 'technique': t, 'level': l, 'level_note': n + TRUST}
  for k, (t, l, n) in sorted(C.items()) if k in have],
  'not_applicable': [{'property': k, 'reason': 'the check is still being built'} for k in sorted(C) if k not in have]}
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'MANIFEST.json'), 'w'), indent=1)
