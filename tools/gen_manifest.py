#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. Claimed properties and reasons for the others are kept here."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ("deterministic simulation with fault injection: seeded search over schedules and fault "
        "sequences of the whole system in one process")
EPOCH = ("Seeded exploration of complete epochs (client, old committee, new committee, real protocol code, "
         "real curve arithmetic unless the run says 'model group') under a simulator that owns goroutine "
         "scheduling, channels, locks, timers, clock, randomness, TCP and process exit. Assurance is what the "
         "seeds of the run reached, not exhaustive. Trusted: the source instrumenter, the simulated network, "
         "the harness's oracle. ")
RBC = ("Seeded exploration of several concurrent reliable-broadcast instances in one committee, real code for "
       "protocol, coding, dispatcher and links, with equivocating broadcasters, forged echoes and readies, crashes in mid-broadcast and late "
       "members. Not exhaustive. ")
MVBA = ("Seeded exploration of one or two concurrent agreement instances in one committee, real protocol code and real threshold signatures, with "
        "members that equivocate, forge whatever the colluders' pooled signature shares allow, speak early, split votes, crash in mid-broadcast, "
        "delayed message types and divided networks. Not exhaustive. ")
NET = ("Seeded exploration of all links and the dispatcher under load: several tasks per process queue scripted messages of every size (also frames of "
       "no bytes) over the real send, receive and dispatch code, with segmented, coalesced and delayed byte streams, small windows, refused dials, late "
       "listeners, early and late readers, flooded instances nobody reads, members that crash, hang or send broken frames. Not exhaustive. ")
VSS = ("Seeded exploration of the dealing phase: a dealer program (honest, or one that forges each field of its dealings using the setup's trapdoor and its "
       "own polynomials), members that speak as the dealer, crash or flood, and the real receiving code. Not exhaustive. ")
NODE = ("Seeded exploration of the deployed program itself (cmd/DyCAPs main, one simulated process each for setup, client and members, with its own command line, "
        "disk, clock and start time). Not exhaustive. ")
NOTES = {
 'C01': EPOCH + "Oracle: own field arithmetic over the honest members' final share lists.",
 'C02': EPOCH + "Liveness: completion within a bound of scheduler steps and virtual time after faults stop.",
 'C03': EPOCH + "Oracle: the recorded sub-sharings of honest members and of modelled faulty ones; solves for the added sum.",
 'C04': VSS + "Oracle: own evaluation of every equation a dealing must satisfy, with the trapdoor in place of pairings; adopted state is compared with the dealing.",
 'C05': EPOCH + "Oracle: commitments held by honest old members and the true reduced share.",
 'C06': RBC + "Oracle: recorded deliveries of honest members of each instance; all-or-none once faults stop.",
 'C07': RBC + "Oracle: canonical encoding of what the broadcaster handed in (or, faulty, put into proposals).",
 'C08': MVBA + "Oracle: equality of honest outputs; a later round's endorsements must be justifiable from the signatures and No votes of the earlier ones.",
 'C09': MVBA + "Liveness: every honest member outputs within a bound of scheduler steps after faults stop.",
 'C11': MVBA + "Oracle: every share and certificate an honest member sends is compared with the one computed from the committee's keys; shares per member, instance and phase are counted.",
 'C12': MVBA + "Oracle: certificates reveal the leader acted upon; valid finishes and coin shares read so far are counted at every released coin share.",
 'C10': EPOCH + "Oracle: recorded proposals and signature shares seen on the wire.",
 'C13': NET + "Oracle: per sending task and receiver, the list of messages in the order of queueing.",
 'C14': NET + "Oracle: the same lists, per type and instance id.",
 'C15': EPOCH + "Fault emphasis: connection resets, cuts in mid-frame, refused connections, crashes.",
 'C16': EPOCH + "Fault emphasis: grammar-aware and raw-byte mutation of what faulty members send, in whole epochs and in the broadcast, agreement and transport scenarios.",
 'C17': EPOCH + "Runs two or more consecutive handoffs and recomputes every commitment and witness.",
 'C19': NODE + "Oracle: completion records on each member's disk, and own field arithmetic over the final shares of the new members.",
 'C20': NODE + "Faults: disk errors, short writes, crashes and power failures during setup, full disks, damaged copies, read errors. Oracle: the keys of an undisturbed setup; any 2F+1 members sign.",
 'C18': EPOCH + "Oracle: rank of the linear system made of every share value received by F old and F new members.",
}
NA = {
 'C21': "pure function of its arguments: no concurrency, time, I/O or other party for a simulator to control",
 'C22': "pure function of its arguments: no concurrency, time, I/O or other party for a simulator to control",
 'C23': "pure function of its arguments: no concurrency, time, I/O or other party for a simulator to control",
 'C24': "pure function of its arguments, chosen at build time: nothing for a simulator to control",
}
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
for i in ids:
    if i in NOTES:
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
            technique=TECH, level="exploration", level_note=NOTES[i]))
na = [dict(property=i, reason=NA.get(i, "check not built yet")) for i in ids if i not in NOTES]
m = dict(version=1, setup_cmd="bash sim/setup.sh",
    hooks=dict(guard="none in /repo: the seams are put in by a source instrumenter at check build time (go build -overlay)",
               enable="sim/build.sh instruments /repo's working tree into a scratch directory and builds it with -overlay; /repo's shipped code has no hook",
               source_commits=[]),
    checks=checks, not_applicable=na,
    notes="Every check takes VERIF_SEED (base seed) and VERIF_SECONDS (search time). Replay a report with: python3 check.py replay FILE")
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
