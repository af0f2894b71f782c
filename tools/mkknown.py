#!/usr/bin/env python3
"""Writes /verif/known-findings.json: the repairs are found by their subject in /repo's history."""
import json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
FIXED = [  # (subject part, properties, what failed)
 ('largest packet did not fit', ['C04'], 'with no configured maximum the largest datagram exceeded the 65507 bytes an IPv4 UDP datagram can carry, so messages of about 65.5 kB and more were never delivered'),
 ('delivery callback was called again', ['C06', 'C03'], 'delivery callback called a second time with a timeout after it had reported success, when the acknowledgement met the timer; a callback of a write with a timeout of a reused number'),
 ('packets of split messages written concurrently', ['C05'], 'fragments of two messages written at once were interleaved and reassembled into one wrong message'),
 ('repeated or late connect done', ['C07', 'C08', 'C09'], 'a repeated connect-done packet blocked the receiving goroutine for ever or closed a closed channel (panic)'),
 ('late handshake packet destroyed', ['C08'], 'an answer nobody waits for destroyed the established connection with that address'),
 ('repeated handshake packets replaced', ['C08', 'C26'], 'a repeated client answer replaced the connection, its keys, and announced it again'),
 ('failed connect left its channel', ['C07', 'C27'], 'a connect that timed out left its channel in the table; first messages of a connection went to the wrong reader'),
 ('connect callback was called before', ['C26', 'C14'], 'connect callback ran under a lock before the connection could be used: deadlock when it wrote, closed or asked for statistics'),
 ('channel could be destroyed several times', ['C12', 'C15'], 'two endings of a connection at once told its readers twice, and its timers ran on and could destroy its successor'),
 ('ForEachChannel read channels map', ['C14'], 'unsynchronised map access during iteration, nil channel passed to the callback'),
 ('closed node left goroutines', ['C12', 'C13'], 'goroutines and channels left after Close, second Close panicked'),
 ('statistic display went on', ['C13'], 'statistic goroutine went on after stop; StartPrintStat/hotkey state of a node that could not be created crashed'),
]
FIXED += [tuple(x) for x in json.load(open(H + '/tools/fixed_more.json'))] if os.path.exists(H + '/tools/fixed_more.json') else []
out = []
for part, props, what in FIXED:
    c = [l.split(' ', 1)[0] for l in log if part in l]
    assert len(c) == 1, (part, c)
    for p in props:
        out.append(f'fixed: property={p} {c[0]} {what}')
old = json.load(open(H + '/known-findings.json'))
json.dump(dict(known=old.get('known', []), fixed=out), open(H + '/known-findings.json', 'w'), indent=1)
open(H + '/known-findings.json', 'a').write('\n')
