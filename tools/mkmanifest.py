#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = ('Sound for the listed rules up to the trusted base: rustc MIR construction, the dumping driver, the models of core/alloc functions '
        'and the assumption that user supplied Codec/Runtime/BroadcastHandler/Identity/RNG implementations are correct. ')
T = 'path-sensitive symbolic dataflow rules over type-checked MIR (all paths, one summarised iteration per loop path, contracts at internal boundaries)'
NOTES = {
 'C01': 'Full transition table of the precedence order and of record replacement/registration, decided on every path of the only functions that write records; order/multiplicity insensitivity follows from that table (argument in DESIGN.md).',
 'C02': 'Necessary local obligations only: the clauses about a whole cluster over time are not decided; every local reaction they are built from is.',
 'C03': 'Necessary local obligations only (failed round, suspicion, timeout, gossip, leave): the time bound itself is not decided.',
 'C04': 'Necessary local obligations only (indirect probing, refutation, suspicion timeout): the cluster-level clause is not decided.',
 'C05': 'Necessary local obligations only (TurnUndead, renew, announce-to-down, replacement): the convergence clause is not decided.',
 'C06': 'Every panicking MIR terminator and every call into a panicking std function reachable from the public API is enumerated and must be discharged by the facts on its path or by a listed invariant that another rule establishes.',
 'C07': 'Framing, section layout, size and destination obligations on every path of the single datagram writer and of every caller.',
 'C08': 'Notification obligations on every path of every entry point, relative to the modelled state transitions.',
 'C09': 'Record uniqueness, replacement and own-address obligations on every path that writes records.',
 'C10': 'Decision table of self updates, incarnation writes and the death reaction, on every path.',
 'C11': 'Decision tables of the suspicion timeout and of record removal, on every path.',
 'C12': 'Decision tables of probe evidence, of the indirect probe fan-out and of relays, on every path.',
 'C13': 'Token comparison before any effect, resubmission on every path, epoch increments: all timer submissions and all writers of the token.',
 'C14': 'Loop obligations of the round robin scan, shuffle and insertion; the 2n-1 bound follows from them by the argument in DESIGN.md.',
 'C15': 'Bookkeeping obligations of the backlog operations and of all their callers, on every path.',
 'C16': 'Bookkeeping, gating and framing obligations of custom broadcasts, on every path.',
 'C17': 'No write or effect before each rejection, on every path; no nondeterminism source reachable.',
 'C18': 'The reply table and the reply graph extracted from all paths: acyclic, a bounded number of datagrams per path, TurnUndead never answered in kind without a renewed identity.',
 'C19': 'Every send of every entry point is listed exactly by the reply, timer and API tables with its destination; choices are among active members or Down members at another address.',
 'C20': 'Cursor, capacity and error obligations on every path of the bundled codecs; the serde formats themselves are trusted.',
}
m = {
 'version': 1,
 'setup_cmd': './setup.sh',
 'checks': [{'property': k, 'quick_cmd': './check %s quick' % k, 'thorough_cmd': './check %s thorough' % k,
             'evidence_file': 'evidence/%s.json' % k, 'technique': T, 'level': 'other', 'level_note': BASE + v} for k, v in NOTES.items()],
 'not_applicable': [],
 'notes': 'No hooks in /repo. Rules are in analysis/rules_*.py; DESIGN.md says what each decides.',
}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')
