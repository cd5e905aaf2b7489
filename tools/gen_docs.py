#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run by hand after editing; the outputs are committed)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import plan

R = "src/app/common/reactor/"


def P(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files, "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                        "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe), "hook_needed": None}}


PROPS = [
    P("P01", "Messages between components arrive exactly once, intact, in order",
      "Every message a component sends to another component that has room for it (fewer than 64 messages waiting) is handled exactly once, on the "
      "thread of the receiving component's event loop, with exactly the contents that were sent, whatever its size up to the documented maximum. "
      "Messages whose sending finished before another send to the same event loop began are handled before that other one. "
      "A message handed to an idle event loop wakes it up: none waits for an unrelated event.",
      ["schedules", "histories", "fault_sequences"],
      "all interleavings of any number of sending threads and event loops, all message sizes and arrival patterns, interrupted waits and slow handlers",
      "No test of the suite runs the event loops or more than one thread; all 37 are single-threaded OPC UA codec and connection tests with mocks.",
      [R + "Reactor.cpp", R + "ReactorManager.cpp", R + "MsgMemStorage.cpp", R + "Epoll.cpp", R + "Event.cpp"],
      [("message queue guarded by a mutex plus an event descriptor to wake the loop", R + "Reactor.cpp"),
       ("fixed slots of the maximum message size", R + "MsgMemStorage.cpp")],
      [("pending messages", "what was accepted and not yet handled", R + "MsgMemStorage.hpp")],
      ["message handlers registered at the event loop"]),
    P("P02", "Timers fire exactly once, on time, and never after being stopped",
      "A started timer calls its handler exactly once, not earlier than the requested time and within scheduling delay after it. "
      "A timer that is stopped, restarted or released never delivers the expiry of the earlier start, not even when that expiry had already "
      "happened and was waiting to be handled. Timers keep working independently of each other and of how many were created and released before.",
      ["schedules", "histories", "fault_sequences"],
      "all interleavings of starting, stopping, restarting and releasing up to the full number of timers from within each other's handlers, "
      "with delayed event loops and failing timer system calls",
      "The suite replaces timers by a mock; no real timer ever runs in a test.",
      [R + "Timer.cpp", R + "EntityPool.hpp", R + "Epoll.cpp"],
      [("one-shot timer descriptor read in the handler", R + "Timer.cpp"), ("slots handed out from a free list", R + "EntityPool.hpp")],
      [], ["timer handlers"]),
    P("P03", "Connections carry byte streams faithfully and report every outcome",
      "Whatever the network does to segmentation and timing, the bytes a link hands to its user are a prefix of the bytes the peer sent, in order, "
      "without loss, duplication or mixing of connections, and the same holds in the other direction for every send that reported success; a send "
      "of which only a part was accepted is not reported as success. "
      "Every attempt to connect ends in exactly one report (connected or error) unless it is closed first, and a peer that closes or resets the "
      "connection is reported to the user as such. No event is delivered to a link after it was closed or released.",
      ["schedules", "inputs", "fault_sequences", "histories"],
      "all segmentations, delays, resets, closes and system-call failures, all orders of use of many simultaneous links and acceptors",
      "Tests use a mock link; sockets never appear in the suite.",
      [R + "Link.cpp", R + "EntityPool.hpp", R + "Acceptor.cpp", R + "Epoll.cpp"],
      [("edge-triggered event handling of a link", R + "Link.cpp"), ("level-triggered accept", R + "Acceptor.cpp")],
      [], ["link and acceptor handlers", "bytes seen by the remote end"]),
    P("P04", "A failing handler never loses other events or messages",
      "When the handler of a message, timer or connection event fails with any standard exception, every other message and event that is waiting at that moment is still "
      "handled exactly once and in order. The event loop keeps running and later messages and timers are handled as usual.",
      ["schedules", "fault_sequences", "histories"],
      "all positions of the failing handler within all batches of simultaneously pending messages, timers and connection events",
      "No test runs the event loop; a failure inside a batch needs several events to become ready in one wait.",
      [R + "Reactor.cpp", R + "Epoll.cpp"],
      [("exception caught per dispatched event", R + "Epoll.cpp"), ("exception caught per message", R + "Reactor.cpp")],
      [], ["message, timer, link and acceptor handlers"]),
]
exec(open(os.path.join(HERE, "tools", "props_more.py")).read())
ids = [p["id"] for p in PROPS]
assert len(set(ids)) == len(ids)
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")

NA = dict(NOT_APPLICABLE)
checks = []
for p in PROPS:
    if p["id"] in NA:
        continue
    if p["id"] not in plan.PLAN:
        NA[p["id"]] = "no check built yet"
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s quick" % p["id"],
        "thorough_cmd": "python3 check.py %s thorough" % p["id"],
        "technique": "deterministic simulation with fault injection (seeded search over schedules, delays and faults; scenarios: %s)"
                     % ", ".join(s for s, _ in plan.PLAN[p["id"]]),
        "level": "exploration",
        "level_note": plan.NOTES.get(p["id"], "Seeded random search, not exhaustive: a violation is reproduced and minimised before it is reported; "
                      "silence means none was found in the runs counted in the evidence file. Trusts the simulated kernel and network (sim/) and the "
                      "oracles of the scenarios (scen/)."),
    })
man = {"version": 1, "setup_cmd": "python3 build.py",
       "hooks": {"guard": "none", "enable": "no hooks in /repo: the seams are link-time wrappers of system calls and compiler coverage callbacks, added by /verif/build.py", "source_commits": []},
       "checks": checks,
       "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())]}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(NA), "n/a")
for p in PROPS:
    for f in p["anchors"]["files"] + [m["where"] for m in p["anchors"]["mechanism"]] + [m["where"] for m in p["anchors"]["state"]]:
        if not os.path.exists("/repo/" + f):
            print("missing anchor", p["id"], f)
