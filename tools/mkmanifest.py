#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
T = {
 'C01': ('exhaustive + random property-based testing against a reference model', 'All 217,390 operand instances of all instruction forms, plus random programs; trusts the reference model (written from the CHIP-8 table, independent of the code) and the harness\'s hex decoder.'),
 'C02': ('bounded-exhaustive + random property-based testing, accept/reject oracle from the reference model', 'Every mnemonic with every combination of up to 4 operand kinds, every small out-of-range value; random beyond that.'),
 'C03': ('exhaustive value sweep + random property-based testing against a reference model', 'Every value 0..4096+ in every spelling and place; long and padded literals by sampling.'),
 'C04': ('model-based and metamorphic property-based testing (renaming, substitution)', 'Every label address; random programs for references; metamorphic relations need no model.'),
 'C05': ('model-based property-based testing', 'Every constant, up to 400 stacked labels; random programs with disturbed .equ surroundings.'),
 'C06': ('model-based property-based testing, accept/reject oracle', 'All pairs of a name list that differ in little; random programs with seeded label faults.'),
 'C07': ('model-based property-based testing of the memory image', 'Every origin, up to 1,600 sections; random programs.'),
 'C08': ('model-based property-based testing of data directives', 'Every low character, number, string length and list length; random programs beyond.'),
 'C09': ('bounded-exhaustive + random property-based testing against naive byte-set overlap', 'All pairs and triples of small sections; all programs of up to 6 statements from 9; random sets; also the DataRange type through the library hook.'),
 'C10': ('boundary sweep + random property-based testing against a reference model', 'Every origin with data up to, at and past the end of memory by every kind of statement.'),
 'C11': ('property-based testing with an independent strict I8HEX decoder', 'Every length of one section, every byte value and checksum; random programs.'),
 'C12': ('fuzzing: byte, token, grammar and mutation generators with a clean-outcome oracle', 'Searches for crashes, signals, panics, hangs and unclean exits of the real command; never establishes absence.'),
 'C13': ('generated file-system scenarios and injected I/O faults against a before/after model', 'Every combination of 19 destinations, previous contents and programs; /dev/full and size limits for write errors; random histories of runs in one directory.'),
 'C14': ('property-based testing with single seeded faults of known position', 'Locations are judged where exactly one fault exists; every column, line and stray character within bounds.'),
 'C15': ('metamorphic property-based testing (two layouts of a program)', 'Every white-space character and letter case; random layouts.'),
 'C16': ('differential property-based testing against a reference parser', 'All token sequences up to length 5 (6 thorough) over a small alphabet; all Unicode scalars as stray characters; mutations.'),
 'C17': ('exhaustive round trip', 'All 65,536 words through the library hook and their texts through the real command.'),
 'C18': ('metamorphic property-based testing (permuted sections, moved constants)', 'Random programs; all splits around every address.'),
 'C19': ('metamorphic property-based testing (same text, different surroundings)', 'Repeated runs under different environments, directories, file names, argument orders and prior contents.'),
 'C21': ('bounded-exhaustive + random property-based testing with several seeded faults against a phased reference model', 'Every pair and triple of 33 faulty statements; all programs of up to 5 statements; random programs with up to six faults. Only the place (and for end of file and overlap its absence) identifies the fault reported.'),
 'C22': ('exhaustive sweeps + random property-based testing of messages against the offending text known to the model', 'Every short name, value and most characters as the thing quoted; wording otherwise not judged.'),
 'C20': ('bounded-exhaustive + random command lines against a model of the documented options', 'All lists of up to three arguments from a vocabulary of 16; random longer ones. Abbreviated long options are not generated.'),
}
m = {
 'version': 1,
 'setup_cmd': 'bash checks/run.sh build',
 'hooks': {'guard': '--cfg c8s_verif', 'enable': 'RUSTFLAGS="--cfg c8s_verif" (checks/run.sh): src/lib.rs then exposes the assembler module to the harness crate',
           'source_commits': ['12db7c5f4ed7747b6022f3e0df9e587f67e76192']},
 'checks': [{'property': k, 'quick_cmd': f'bash checks/run.sh {k} quick', 'thorough_cmd': f'bash checks/run.sh {k} thorough',
             'technique': t, 'level': 'exploration', 'level_note': n} for k, (t, n) in sorted(T.items())],
 'not_applicable': [],
 'notes': 'Build products go to /verif/target, shrunk failures to /verif/replay/<id>.replay (bash checks/run.sh replay FILE judges one again).',
}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
