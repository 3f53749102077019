#!/usr/bin/env python3
"""writes MANIFEST.json from the table below; claimed = the rules registered in mc/rules"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from mc.rules import RULES
AI = 'path-sensitive abstract interpretation of MIR (value flow with widening): '
T = {
 'C01': AI + 'map effects of the store handlers',
 'C02': AI + 'guards that dominate every token creation in the submission future',
 'C03': AI + 'map effects of validation; key construction of the Redis store',
 'C04': AI + 'scheduled timers and their delays, keys and units',
 'C05': AI + 'pairing of every count with one scheduled release',
 'C06': AI + 'arithmetic effect of every counter handler on the count',
 'C07': AI + 'interval effect of every Defense operation on level index and levels',
 'C08': AI + 'inductive invariants of the builders over their loops',
 'C09': AI + 'guards of each level move in the visitor handler',
 'C10': AI + 'value flow from registry and generator to store and client',
 'C11': AI + 'provenance of token strings from a CSPRNG',
 'C12': AI + 'job ownership across queue, runner table and worker channel',
 'C13': AI + 'admission guard and effects of a rejection',
 'C14': AI + 'FIFO/round-robin discipline of queue operations',
 'C15': AI + 'stop/join pairing on thread handles',
 'C16': AI + 'verdict sends per path; error flow of the submission futures',
 'C17': 'borrow-span analysis of futures: no RefCell/actor borrow live across an await outside ctx.wait',
 'C18': AI + 'reachable panic paths with discharge rules, from every handler and constructor',
 'C19': AI + 'reply-channel typestate (exactly one answer per path, after the outcome)',
 'C20': AI + 'effects of the registry handlers on the site table',
 'C21': AI + 'guards of every retirement in the clean-up future',
 'C22': AI + 'must-reach of re-scheduling on all clean-up paths',
 'C23': AI + 'loop effect of export and import on the site table',
 'C24': 'call-graph reachability of blocking operations from async roots, and loop-progress analysis',
 'C25': AI + 'guards of every connection constructor; exhaustiveness of the probed commands',
 'C26': AI + 'error returned by each guard outcome of a submission',
 'C27': 'visibility, construction and mutation query over the type-checked items and the call graph',
 'C28': AI + 'command, argument order and reply mapping of each Redis request',
 'C34': AI + 'field-by-field correspondence of the serde implementations',
 'C35': AI + 'wait-for graphs of requests, handlers, actors and queue threads (every wait answered, no cycle); loops of requests bounded',
 'C36': AI + 'value flow through builders, connection set-up and copies',
 'C38': AI + 'the command sent and the answer given for each kind of reply',
 'C39': 'type-checker query: auto traits (Send, Sync) of the public types and of the futures of the public operations',
 'C40': AI + 'value flow of challenges, tokens and the salt into log and print calls',
 'C41': AI + 'field-by-field correspondence of the PartialEq implementations',
 'C42': 'query over the statics and the call graph: no changeable global state, no environment, file or process-setting calls',
 'C44': AI + 'texts written per error as templates of literals and carried values; pairwise disjointness of the templates',
 'C43': AI + 'growth of every collection a path changes, paired with its removal; endless futures and message cycles; leaks',
 'C37': AI + 'the facts each refusal is told under, and value flow of error conversions',
}
NOTE = ('Decides the rule templates listed in DESIGN.md for this property on every abstract path of the current MIR; '
        'trusts the models of std, actix, tokio, redis and pow_sha256 calls (mc/models.py), assumes the actor runtime runs handlers one at a time, and does not execute code.')
EXTRA = {}
NA = {
 'C29': 'the consumption happens inside the external Redis module (cache, C code outside this repository); this source only issues the command, which C28 decides',
 'C30': 'counting, release and level changes happen inside the external Redis module; this source only issues the commands, which C28 decides',
 'C31': 'a statistical property of SHA-256 and of pow_sha256 (another crate), not visible in the shape of this code',
 'C32': 'a bound on wall-clock delay depends on the runtime and its load; no static argument reaches it (delays requested are decided in C04, C05, C22)',
 'C33': 'quantifies over interleavings of requests with a running clean-up whose window this code leaves open by design (address handed out, then used); no sound rule on the shape of the code separates right from wrong',
}
checks = [{'property': p, 'quick_cmd': './check.py %s quick' % p, 'thorough_cmd': './check.py %s thorough' % p, 'technique': T[p], 'level': 'other', 'level_note': EXTRA.get(p, '') + NOTE} for p in sorted(RULES)]
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
na = [{'property': p, 'reason': NA[p]} for p in ids if p not in RULES]
json.dump({'version': 1, 'setup_cmd': './extract.sh && MC_PROFILE=release ./extract.sh', 'checks': checks, 'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
