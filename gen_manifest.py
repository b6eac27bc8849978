#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, subprocess
CHECKS = {
 "C01": ("exhaustive enumeration of update sequences, batches, state exchanges and bounded histories on real instances against an independent join specification",
         "Every record x every incarnation, every update sequence up to a length, every pair of knowledge states; histories with timers and identity changes to a depth."),
 "C02": ("exhaustive exploration of clusters of 2-5 real instances in virtual time (every RNG answer, latency and event order of the menus; deviation-bounded for larger clusters), state spaces explored to closure",
         "Every seed tree, several join gaps and configurations; discovery deadline linear in the cluster size, no suspicion/Down/error on any transition."),
 "C03": ("exhaustive exploration of clusters of 2-5 real instances in virtual time with every choice of failing members at every event",
         "Crash or leave of every subset at every event of the closed state space (and while still joining, and twice); per-survivor deadline (2n+1) periods + suspect_to_down_after."),
 "C04": ("exhaustive exploration of clusters of 2-5 real instances in virtual time with every single datagram lost in turn",
         "Every datagram of the closed state space lost; nobody ever declared or told Down, everybody Alive again by a deadline and from then on."),
 "C05": ("exhaustive exploration of clusters of 3-5 real instances in virtual time with every split, heal instant and false Down declaration",
         "Every two-sided split, every heal instant after mutual Down, every single false declaration; convergence deadline, Rejoin/Active obligations."),
 "C06": ("exhaustive enumeration of mutated datagrams, byte strings, packet sizes, settings and bounded call/timer histories on real instances, with and without debug assertions and overflow checks",
         "Every call must return: a panic, abort or hang is a violation. All truncations, byte values, insertions, deletions and pairs over seed datagrams in several states; crafted timers, settings changes and inconsistent identities to a depth; constructors for (all) cluster sizes."),
 "C07": ("bounded exhaustive exploration of one real instance; independent datagram parser and a real peer as oracle",
         "All datagrams sent on every transition of every scope are parsed by an independent parser and fed to a real peer."),
 "C08": ("bounded exhaustive exploration of one real instance with a notification-replay monitor",
         "Every state of every scope; monitor replays notifications and an own-death reference model."),
 "C09": ("bounded exhaustive exploration of one real instance with an identity/record monitor",
         "Every state of every scope; record identity may change only by Rename to a winner."),
 "C10": ("bounded exhaustive exploration of one real instance with an incarnation/own-death reference model",
         "Every state of every scope, boundary incarnations, all renewal behaviours."),
 "C11": ("bounded exhaustive exploration of one real instance with every timer order and a suspicion-timeout monitor",
         "Every outstanding timeout is tracked with the identity, incarnation and epoch it was raised about; delivered in any order, also twice."),
 "C12": ("bounded exhaustive exploration of one real instance with a probe-round monitor",
         "Datagrams at any point between timers delivered in deadline order; answers and relays for all 256 probe numbers."),
 "C13": ("bounded exhaustive exploration of one real instance counting outstanding timers per connection epoch",
         "Timers delivered exactly once, in deadline order with lateness or in any order."),
 "C14": ("exhaustive closure of one real instance's probe-round state space over every draw of the shuffle and pick RNG",
         "Closed state spaces: every member-list position, shuffle permutation and rotation point; starvation bounds judged on every path."),
 "C15": ("bounded exhaustive exploration of one real instance against an independent dissemination ledger",
         "Packet sizes from header-only up, fixed and variable member sizes, limits 1..255, settings changed at runtime."),
 "C16": ("bounded exhaustive exploration of one real instance against an independent custom-broadcast ledger",
         "All invalidation relations, deny masks, failing handler, exact-fit packet sizes."),
 "C17": ("bounded exhaustive exploration of one real instance with rejected input injected at every state and complete-state comparison",
         "Every class of rejected input at every reachable state of every scope, singly and together; where the complete state differs all continuations up to a depth are compared."),
 "C18": ("exhaustive delivery-order exploration of the exchange among 2-3 real instances started by one datagram, with cycle detection",
         "Every initial mutual-knowledge state, renewal kind and own state; every delivery order until the network is empty."),
 "C19": ("bounded exhaustive exploration of one real instance with a destination monitor",
         "Every destination of every datagram on every transition of every scope, RNG choices enumerated."),
 "C20": ("exhaustive enumeration of header/member values, buffer sizes, truncations, mutations and short byte strings against the real codecs, and of operation sequences x packet sizes on real instances using them",
         "5 identity types x 5 codec configurations; every incarnation, probe number, message and state; every buffer size below the encoded length in 4 kinds of buffers; all byte strings up to 3 (thorough 4) bytes; every packet size x operation sequence, datagrams parsed by their documented layout and fed to the addressee. Unlimited bincode with owned buffers: inputs with huge length prefixes are left out except the listed finding."),
}
NA = []
props=[json.loads(l) for l in open('properties.jsonl')]
m={"version":1,
 "setup_cmd":"bash build.sh release mc && bash build.sh dbgassert mc && bash build.sh release codecmc && bash build.sh dbgassert codecmc",
 "hooks":{"guard":"foca_verif","enable":"RUSTFLAGS=\"--cfg foca_verif\" (build.sh)","source_commits":["ad3923c"]},
 "checks":[], "not_applicable":NA}
for p in props:
    if p['id'] in CHECKS:
        t,n=CHECKS[p['id']][:2]
        lv=CHECKS[p['id']][2] if len(CHECKS[p['id']])>2 else "model_checking"
        m["checks"].append({"property":p['id'],"quick_cmd":f"bash check.sh {p['id']} quick","thorough_cmd":f"bash check.sh {p['id']} thorough","technique":t,"level":lv,"level_note":n})
    else:
        m["not_applicable"].append({"property":p['id'],"reason":"check not built yet"})
json.dump(m,open('MANIFEST.json','w'),indent=1); open('MANIFEST.json','a').write('\n')
