#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties below."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
ids = [p['id'] for p in props]
T = "deterministic simulation with fault injection (seeded schedules, virtual time, simulated sockets and files)"
NOTE = {
 'C01': "Seeded search over schedules, segmentations and concurrent senders of 2-4 real stations (plus a wire-level peer) on a simulated lossless network; every message and answer is compared field by field with what was sent. Trusts the simulated sockets, clock and scheduler; IPv6 multicast is not delivered.",
 'C02': "Seeded mixtures of healthy stations and refusing, silent, vanishing, stalling, resetting and garbage-answering peers, with faults at any byte, on the simulated network; the bound, the callbacks and the deliveries to healthy members are checked per call on the virtual clock. Bounds allow the documented limits plus a margin per peer.",
 'C03': "Seeded histories of connect, leave, crash, restart and rejoin of several real stations; a small reference model of membership (certain, excluded, or unsure where a loss or crash leaves both outcomes legal) is compared with what each send really reaches.",
 'C04': "Seeded loss, duplication, delay, interface and socket failures on the simulated multicast network, with real announcers and hand-built ones; every listed entry is compared with what was announced, and every query is timed on the virtual clock.",
 'C05': "Seeded hostile byte streams, cut points, stalls and resets against a real station under AddressSanitizer, with concurrent and later well-behaved peers whose service is the oracle; sessions left open are counted after the peers are gone. Peers that vanish without FIN or RST are outside the claim.",
 'C06': "Seeded malformed and mutated datagrams sent to real responders and to running queries under AddressSanitizer (bytes behind each datagram are poisoned), with interrupted system calls; later well-formed queries must be answered. Reads inside the receive buffer but behind the datagram count as violations.",
 'C07': "Seeded histories of connect, reconnect, query, send, leave and release of a real station among active peers, under network storms and failing sockets, threads, interfaces and system calls of its own machine; the simulated descriptor and thread tables are compared after each release, and a fresh connection is exercised after the faults. Lifecycle calls of one object come from one thread.",
 'C08': "Seeded file sizes, contents, segmentations, connection breaks and storage faults (open, read, short read, seek, tell, close) between two real stations with simulated files; each answer the requester's callback sees is compared byte for byte with the file. An empty file may be reported as failed.",
 'C09': "Seeded interleavings of 2-4 application threads, callbacks, network threads and the background refresh, with preemption at instrumented basic blocks, under AddressSanitizer; results are compared with what a sequential order allows, and the service is exercised again afterwards. Two accesses within one basic block are not separated.",
 'C10': "Seeded documents saved (to a file, or a buffer) while create, read, write, seek, close fail, come up short or the disk fills up, with the process ending right after; a reported success is checked by an archive reader of the harness and by a fresh process that imports it and compares everything with what was put in. Power loss after a successful close is outside the claim: the library does not promise to sync.",
 'C11': "Seeded documents built through the API in one simulated process and read by others with another clock, home, working directory, read size and history; every value the API hands out is compared with what was put in, and with the document before and after storing it again. Values are compared to the six decimals of the format; resources of one kind have different names.",
 'C12': "Seeded damage to the archive (cuts, bit flips, header fields, torn sectors, lost or inserted ranges), to the description within it, and storage faults during the import, under AddressSanitizer; a reported success must deliver the document and files byte for byte, and an intact import afterwards must be complete. Changed values in a well-formed description are only checked for safety.",
 'C13': "Seeded archives whose entry and reference names point elsewhere (parent folders, absolute paths, backslashes, other working folders, very long and odd names), imported, used, stored again and released while other people's files wait where the names lead; every create, write, rename and remove the library makes is checked as it happens, and the whole tree afterwards. Assumes no symbolic links below the working folders.",
 'C14': "Seeded sets of 2-5 sessions (read, build, store, to and from buffers, aborted, damaged) first run alone in processes of their own, then together, their steps interleaved in one thread or spread over 2-4 threads with preemption at instrumented basic blocks, one of them optionally on failing storage; everything each session saw must be equal.",
 'C15': "Seeded abort points over all callback checks of seeded documents, by call number or from another thread, with other imports before, within the callback, and after; failures must be reported within a bounded number of further checks, nothing may stay open, and the next import must be complete.",
 'C16': "Seeded histories of export and import through buffers and files on the same and different objects, with too small, reused and garbage buffers, under AddressSanitizer; both forms must deliver the same document and archive contents, and a buffer handed out must stay unchanged until released.",
 'C17': "Seeded sessions, complete, dropped half way or misused, with storage faults of all kinds, disk full, and process crashes; after the objects are released the open-file table must be empty, nothing extracted may be left (unless the storage refused the removal), the caller's files are compared with what they were, and a later process must work.",
}
PURE = "A pure function of its input: no schedule, clock, I/O, fault or interleaving in it, so deterministic simulation has nothing to decide here."
TODO = "Not claimed yet: the scenario for it is not finished."
na = []
checks = []
for p in ids:
    if p in NOTE:
        checks.append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough", "evidence_file": f"evidence/{p}.json", "technique": T, "level": "exploration", "level_note": NOTE[p]})
    else:
        na.append({"property": p, "reason": PURE if p[0] == 'N' else TODO})
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: the simulator takes over threads, clocks, sockets and files at link time (ld --wrap of the libc and pthread symbols the library and boost.asio use)."}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1); open(root + '/MANIFEST.json', 'a').write('\n')
