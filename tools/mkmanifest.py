#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+/TLC model checking + trace validation of the real code"
TC = "TLA+/TLC linearizability checking of histories recorded from the real code under a controlled scheduler"
CLAIM = {
    "P08": (T, "TLC checks the reservoir model exhaustively against its recording history; every TLC-generated command sequence up to the bound and long simulated ones are replayed on the real reservoirs and rings and the recorded traces validated by TLC"),
    "P10": (T, "as P08 for the uniform reservoir, with the replaced sample chosen nondeterministically by the specification"),
    "P11": (T, "as P08 under a virtual clock with forward and backward jumps"),
    "P02": (T, "TLC checks the registry model exhaustively, generates every lookup/registration history up to the bound, and validates recorded instance identities and readings of the real registry"),
    "P03": (T, "as P02; every ordered pair of 25 metric types, refused requests and the registry afterwards"),
    "P04": (T, "as P02; shared metrics across two registries"),
    "P05": (T, "as P02; visits of every kind after every history, throwing handlers, crowded families"),
    "P06": (T, "as P02; aggregates of every family against exact sums and averages; snapshots merged in every grouping"),
    "P20": (T, "TLC checks the options model, generates every option-setting history up to the bound and validates the options the publisher reads back"),
    "P21": (T, "as P20 for publisher data: identity, arguments and presence"),
    "P07": (T, "TLC checks the merge/statistics model and validates snapshots recorded from the real merge code, in all merge orders, against exact arithmetic"),
    "P12": (T, "TLC recomputes min, max, mean, every quantile and the sampling of the recorded snapshots in exact dyadic arithmetic"),
    "P14": (T, "TLC checks the averaging law exhaustively at small scope, generates histories, and validates recorded rates of the real averages under a virtual clock in exact arithmetic with a rounding allowance"),
    "P16": (T, "as P14 for meters: every window, the mean and the set of windows"),
    "P17": (T, "TLC checks the scope model exhaustively; every scope history up to the bound and long seeded timer histories are executed and the traces validated"),
    "P18": (T, "TLC checks the order model and validates recorded comparisons between values of all representations"),
    "P19": (T, "TLC validates recorded arithmetic and conversions in exact arithmetic modulo the result width"),
    "P01": (T, "TLC checks the counter model exhaustively at 8 bits, generates every short history and validates histories recorded from counters of every width in exact arithmetic"),
    "P13": (T, "as P08/P10/P11 for histograms over each reservoir, with the count after every update and snapshot"),
    "P27": (T, "TLC checks the path model, generates every short composition and validates components, joined text, equality, hashes and registry identity of the real paths"),
    "P09": (TC, "ReservoirPar.tla: programs of concurrent updates and snapshots are run on the real reservoirs under a deterministic scheduler (random and priority schedules over every shared access); TLC decides for every distinct history whether it is a behaviour of the specification"),
    "P15": (TC, "RatesLin.tla: as P09 for marks, const reads and timer updates; TLC searches an order of the calls that is a behaviour of Rates.tla"),
    "P24": (TC, "TLC checks the stack model, generates every short sequential history for replay, and decides for every distinct history of concurrent push, pop and recycling recorded under the deterministic scheduler (freed nodes reused at once) whether it is linearizable; elements and storage are counted"),
    "P25": (TC, "as P24 for pool handles: every short history of allocate, copy, move, assign, exchange and compare-exchange, and concurrent ones with handles of each thread's own"),
    "P26": (T, "TLC checks the sorted set model, generates every short history and validates insert, erase, find and iteration results of the real skip lists of several widths, orders and tower heights"),
    "P22": (T, "TLC checks the text format's grammar and escapes over all short texts, and parses every publication recorded from the real publisher: names, labels, escapes, headers and grouping"),
    "P23": (T, "TLC computes from the registry model and the effective options every sample a publication has to carry and compares it with the parsed output of the real publisher in exact arithmetic"),
    "P28": (T, "TLC checks the gauge model, generates every short history of setting, copying, moving and assigning and validates readings and snapshots of the real gauges"),
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIM:
        checks.append({"property": i, "quick_cmd": "python3 bin/check.py " + i,
                       "thorough_cmd": "python3 bin/check.py " + i, "technique": CLAIM[i][0],
                       "level": "model_checking", "level_note": CLAIM[i][1]})
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
