#!/usr/bin/env python3
"""DESIGN.md from tools/design_head.md, the registry (rules of each property), the notes below, tools/design_tail.md"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from an import registry

WHY = {
 'C01': 'Tests run three servers on a quiet network; a second candidate in the same term, or one whose log is behind by term but not by length, never appears.',
 'C02': 'Tests never stop a server between a change of term and the write of it. Every path from a change to anything another server (or thread) can see is checked for the save.',
 'C03': 'Needs delayed messages of older terms in every role; the rule runs every message kind with an unknown term against an unknown own term.',
 'C04': 'Clusters of even size, duplicated and late grants. The majority inequality itself is evaluated for 1..40 members instead of being solved for.',
 'C05': 'The leader\'s commit index is checked against a must-coverage fact ("all members up to the chosen one contributed to the sorted match indexes") on every path that can raise it.',
 'C06': 'Relation of the request\'s previous index/term, the local log and every entry of the request is tracked with ghost counters over a generic iteration, so for requests of any length.',
 'C07': 'The applied position is followed through the applier loop, snapshot installation and invitation, with the interference of other threads forgotten at every acquisition of the server lock.',
 'C08': 'Typestate per index: stored, announced, rolled back; ghost intervals cover ranges.',
 'C09': 'Histories of reconfiguration with leader changes in between cannot be sampled; the rule takes any step from any state of the pending mark and the two configurations.',
 'C10': 'The predecessor chain of configurations is followed through the snapshot maker: the configuration written is in force at the index of the snapshot.',
 'C11': 'Sizes and offsets are symbolic: blocks of any size, transfers of any length, restarted and interrupted.',
 'C12': 'Every step in the prevote phase, in any role, is required to leave term, vote and role alone until a majority answered.',
 'C13': 'A step that starts with the timer running (or due) ends with it running unless the server leads or stops.',
 'C14': 'Whole-program pairing: each kind that is sent has a handler that answers, each answer sent has a handler that takes it.',
 'C15': 'The role test must be made under the lock held at the append; polarity of `is_leader`\'s freshness is checked.',
 'C16': 'Lockset analysis over all entry points and threads for the listed state and a global acquisition order, across inlined callees.',
 'C17': 'Monotone wait predicates: whoever makes one true notifies under the mutex, whoever waits tests it under the mutex; the loop of stop and its waiters are matched up.',
 'C18': 'Encoders and decoders are run symbolically over a tape of typed fields; the two tapes must match for every number of elements. Byte order and position of the primitive operations are checked byte by byte.',
 'C19': 'Every read and write of a buffer is proved inside its capacity from the path conditions, for all positions and sizes.',
 'C20': 'All values read off the wire are tainted; indexes, sizes, enum casts and allocation sizes need a dominating check, exceptions of the decoders a catching frame.',
 'C21': 'Typestate of the pending request of a connection: completed once on each path, the connection of a failure not returned to use.',
 'C22': 'Typestate over result, handler and waiters under each order of set_result, when_ready and get.',
 'C23': 'Induction over operations: from agreeing memory, index and data of any length each operation leaves agreeing ones, with file positions as symbolic terms. Not covered: disk full while compaction copies its backup.',
 'C24': 'Symbolic index, start and size of the store; the result is compared with the requested range.',
 'C25': 'Each listed inconsistency must reach system_exit on every path, and every path that goes on must have excluded it.',
 'C26': 'Typestate of a task over schedule, cancel, expiry and destruction, with the asio rule that a handler runs once.',
 'C27': 'Slot typestate over senders and completion callbacks (response and error), must-announce dataflow for commits, and the pace of a peer from its construction to its failures.',
 'C28': 'The queue of lines is a ghost sequence: nothing leaves it but into the file, in order, and stop waits for that.',
}

def main():
    props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
    na = {x['property']: x for x in json.load(open(HERE + '/MANIFEST.json'))['not_applicable']}
    out = [open(HERE + '/tools/design_head.md').read().rstrip(), '']
    for p in props:
        i = p['id']
        out += ['### %s %s' % (i, p['title']), '']
        if i not in registry.PROPS:
            out += ['Not applicable: ' + na[i]['reason'], '']
            continue
        P = registry.PROPS[i]
        out += ['*Method:* %s. %s' % (P.technique.rstrip('.'), WHY.get(i, '')), '']
        for R in P.rules:
            out.append('* `%s` — %s' % (R.name, R.doc))
        out.append('')
        out += ['*Bounds and limits:* ' + P.note, '']
        own = P.assume[len(registry.BASE_ASSUME):]
        if own:
            out += ['*Assumes:* ' + '; '.join(own) + '.', '']
    one = lambda s: ' '.join(str(s).split()).replace('|', '/')
    rows = ['| id | what it breaks | what it needs |', '|---|---|---|']
    for d in sorted(os.listdir(HERE + '/seeded')):
        m = json.load(open('%s/seeded/%s/meta.json' % (HERE, d)))
        rows.append('| %s | %s | %s |' % (d, one(m['what_it_breaks']), one(m['needs'])))
    out.append(open(HERE + '/tools/design_tail.md').read().replace('TABLE', '\n'.join(rows)))
    open(HERE + '/DESIGN.md', 'w').write('\n'.join(out))

main()
