#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
 "C01": "Copies with a map through the command line and the API, from files, stdin, HTTP(S), ssh and file: URLs, compressed or not.",
 "C02": "Copies without a map, all sources and formats.",
 "C03": "Image, stream and map damage at rest and in transit with verification on; only versions that carry checksums (1.3, 1.4, 2.0).",
 "C04": "Source faults placed at operations of a fault-free run; a cut that leaves no trace (uncompressed data without a known size) is excluded.",
 "C05": "Destination faults at every kind of operation, full and too small devices, later fsync errors; errors of close() excluded.",
 "C06": "Power loss at success and at arbitrary steps, volatile cache dropped or written back partially, then the copy is redone.",
 "C07": "All faults; every byte outside the map and every other file compared.",
 "C08": "A competing user of the device at arbitrary instants; devices too small.",
 "C09": "All faults and interrupts; deadlock detection, step bound, process table.",
 "C10": "Large images with starved writers and readers; buffered and unsynchronised bytes checked at every operation (bound 16 MiB).",
 "C11": "sysfs states and faults, copy failures and Ctrl-C while data are being copied.",
 "C12": "Signature states, locations and faults with a simulated GPG (toy signatures), validated by hand against the real one.",
 "C13": "Layouts, FIEMAP / SEEK answers and faults; independent bmap parser; then the copy.",
 "C14": "Crash, kill, power loss, ENOSPC, EIO, Ctrl-C during creation, then a copy with whatever is left.",
 "C15": "The Filemap API against a reference partition, over layouts, answer sizes and faults.",
 "C16": "Operation sequences on TransRead against a reference byte string, with source faults.",
 "C17": "psplash readers, terminals, verbosity and clock faults.",
 "C18": "HTTP(S) and ssh servers with delays, errors and authentication.",
 "C20": "Reported numbers, times and comments against the plan and the simulated clock, with stalls of up to days and sizes of up to exbibytes.",
 "C21": "Command lines with and without contradictions, in any order, over all destinations; inputs named as the output, also through links.",
 "C22": "Block maps edited before they are sealed with their own checksum, contradictory or merely unusual, over all sources and destinations.",
 "C23": "Repeated copies with the same API objects, the earlier ones failing anywhere, under all schedules of their reader threads.",
 "C24": "The failing runs of the other checks (sources, destinations, maps, signatures, servers, options, creation), judged by what they report.",
 "C19": "The standalone script with faults and power loss.",
}
COMMON = (" The unmodified program runs on a simulated operating system in one process; seeded search, so a clean batch is evidence "
          "and not proof. Trusts the simulator's model of system calls, tools and servers (DESIGN.md).")
doc = {
 "version": 1,
 "setup_cmd": "./check --setup",
 "checks": [
  {"property": c, "quick_cmd": "./check " + c, "thorough_cmd": "./check %s --tier thorough" % c,
   "technique": "deterministic simulation with fault injection: seeded search over schedules and fault sequences",
   "level": "exploration", "level_note": NOTES[c] + COMMON} for c in sorted(NOTES)],
 "not_applicable": [
 ],
 "notes": "No hooks in /repo: the seam is the Python-to-OS boundary. The 'fix:' commits in /repo are listed in known_findings.txt.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
