#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = "deterministic simulation with fault injection (seeded schedules, clock, network, randomness; reference model; minimised replay)"
NOTE = {
"C01": "seeded schedules with preemption at every statement of the library; the responses of each set of overlapping requests must equal those of some serial order in the reference model",
"C02": "the race detector runs inside the simulation; the scheduler adds no happens-before edges, so an unsynchronised pair is reported whenever both accesses occur in one run",
"C03": "duplicates, replays and overlaps of code redemptions, failed attempts and crashes of handlers against the reference model",
"C04": "exchanges and refreshes by wrong clients, wrong redirect URIs and near misses; tokens' owner, user and scope compared with the grant",
"C05": "code replays by every client at every age after arbitrary refresh chains, overlapping with use of the tokens",
"C06": "rotation, reuse, failed refreshes and overlapping refreshes, with entropy failures",
"C07": "scopes with near-miss items at issue, refresh and use against set semantics",
"C08": "simulated clock driven to, before and after every expiry, including lifespans down to nanoseconds and up to centuries",
"C09": "revocations with all hints, by owners, strangers and unauthenticated callers, overlapping with use",
"C10": "introspection of every kind of credential in every state against the model's opinion",
"C11": "credential near misses in every position of the request (header, body, query)",
"C12": "the random source fails, ends or reads short at a chosen byte of a chosen request",
"C13": "hostile requests, stalled and broken bodies, panicking handlers; every complete request has to be answered within bounded scheduling steps",
"C14": "loss, truncation, duplication, late duplicates, lost and broken responses, failing response writers",
"C15": "forged, mutated, recombined, never issued, foreign and pre-restart credentials at every endpoint; full audit at the end",
"C16": "every key in every issued credential is matched with the bytes the simulated random source gave to that request",
"C17": "redirect URIs with every kind of own query, states with arbitrary characters, near-miss URIs",
"C18": "the real client library and http.Client on a hostile simulated transport (status, type, truncation, garbage, delays, overlapping calls)",
"C19": "as C18, observing closes, bytes read and termination with endless, slow and oversized bodies",
"C20": "each refusal's code must be one that applies; status, challenge, redirect and cache headers are checked on every response of every run",
}
NA = {
"C21": "pure functions of one string without concurrency, time, I/O or other parties: there is nothing for a simulator to schedule or fail (scopes are exercised inside the C07 and C10 runs only as far as these need them)",
"C22": "pure functions (builder and parser of one request value) without concurrency, time, I/O or other parties; the client-to-server direction is exercised on the wire by C18's exactness check",
"C23": "a pure function from an error value to a header line without concurrency, time, I/O or other parties; the presence of challenges is checked by C20",
"C24": "the property quantifies over other server implementations (it is about a test suite, not about executions of this system), which no simulation of this system's schedules and faults can sample",
"C25": "the simulator replaces real time by simulated time and sees no instruction timing; a timing measurement would be runtime monitoring",
}
trust = " Sampled runs: a clean result is evidence, not proof. Trusts the reference model (world/model.go), the instrumentation (statement granularity; no preemption inside one statement or inside the standard library) and testing/synctest."
m = {"version": 1, "setup_cmd": "./run.sh build",
 "checks": [{"property": p, "quick_cmd": f"./run.sh {p} quick", "thorough_cmd": f"./run.sh {p} thorough",
   "evidence_file": f"evidence/{p}.json", "technique": T, "level": "exploration", "level_note": NOTE[p] + "." + trust} for p in sorted(NOTE)],
 "not_applicable": [{"property": p, "reason": NA[p]} for p in sorted(NA)],
 "notes": "No hooks in /repo: scheduling points and the replacement of package sync are put in by instrumenting a copy of the working tree's sources when a check builds (go build -overlay); clock, randomness, transport and connections use seams that Go and the library already have. Replay a failure with ./run.sh replay FILE [-trace]."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
