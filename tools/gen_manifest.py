"""writes MANIFEST.json"""
import json, os
T = {
 "P01": ("Trace monitor: generated histories on the real library, every result compared with an exact integer model; ASan+UBSan and library assertions", "model of every variable in Python integers; curated grids aimed at limb lengths, carries, Karatsuba split and long-division corrections"),
 "P02": ("Trace monitor against Python's two's complement; ASan+UBSan", ""),
 "P03": ("Trace monitor against the order of Python integers, histories that reach equal values by different ways; ASan+UBSan", ""),
 "P04": ("Trace monitor: printed text and parsed values against the model in every radix; ASan+UBSan", ""),
 "P05": ("Trace monitor: flag, status, callback and target of every rejected text; ASan+UBSan", ""),
 "P06": ("Trace monitor with guarded buffers: bytes, counts and values against the model; ASan+UBSan", ""),
 "P07": ("Trace monitor over aliasing histories, all variables observed; ASan+UBSan", ""),
 "P08": ("Trace monitor: generated programs against an independent reference evaluator; ASan+UBSan", ""),
 "P09": ("Schedule monitor: delay injection at every synchronisation call, call log and value against the model, ThreadSanitizer, deadlock watchdog", ""),
 "P10": ("Fuzzed texts under ASan+UBSan with exact-size buffers; status and value against an independent recogniser", ""),
 "P11": ("Call-log monitor of registered functions and constants against the model; ASan+UBSan", ""),
 "P12": ("Trace monitor against exact rationals; ASan+UBSan", ""),
 "P13": ("Offline checker of task event logs (exactly once, drained, ordered), delay injection, ThreadSanitizer, deadlock watchdog", ""),
 "P14": ("Trace monitor of the C binding in lock-step with the model; ASan+UBSan", ""),
 "P15": ("Registry model over status histories; fresh processes with concurrent first use under ThreadSanitizer", ""),
 "P16": ("AddressSanitizer, UndefinedBehaviorSanitizer (gcc and clang), libstdc++ and library assertions, memcheck, over whole-API histories", ""),
 "P17": ("ThreadSanitizer and result comparison over concurrent scenarios with injected delays", ""),
 "P18": ("Allocator byte counts after repeated histories (leak) and over restoring sequences (growth)", ""),
 "P19": ("Differential monitor: recorded observations of the same histories in debug, release, optimised and sanitised builds of two compilers", ""),
 "P20": ("Event monitor: status and callback of every zero and non-zero divisor in every form", ""),
 "P21": ("Trace monitor: generated literals against an independent reader; ASan+UBSan", ""),
 "P22": ("Offline linearizability and lifetime checker of recorded queue histories, delay injection, ThreadSanitizer, deadlock watchdog", ""),
 "P23": ("Trace monitor against math.gcd; ASan+UBSan", ""),
 "P24": ("Trace monitor of the implementation layer over reused, shared, swapped and moved objects; ASan+UBSan", ""),
 "P25": ("Online monitor of every slice against a reference sequence and sharing model, random histories; ASan+UBSan in debug and release builds", ""),
 "P26": ("Trace monitor of hook calls, error codes, trees and values over parser histories; ASan+UBSan", ""),
 "P28": ("Monitor of both output streams, their order and the exit code of the example programs against a reference evaluator; ASan+UBSan", ""),
 "P29": ("Online monitors of the helpers against reference versions, counted objects, exact-size buffers; ASan+UBSan", ""),
 "P27": ("Online monitor of random formats against a composition of their own; ASan+UBSan", ""),
}
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
for p, (t, n) in T.items():
    checks.append({"property": p, "quick_cmd": "python3 check.py --property %s" % p, "thorough_cmd": "python3 check.py --property %s --tier thorough" % p,
                   "technique": t, "level": "exploration", "level_note": (n + "; " if n else "") + "decides the executions it drives, see evidence and DESIGN.md; nothing is claimed for others"})
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "PGBN_MONITOR_TSAN", "enable": "-DPGBN_MONITOR_TSAN in the ThreadSanitizer builds (mon/build.py)", "source_commits": ["4cc8a8f"]},
     "checks": checks, "not_applicable": []}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
