#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list below."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = "runtime monitor: generated hostile workloads on the real code, each observation judged by an independent reference model"
technique = {
    "C03": "runtime monitor: deep state fingerprints of the log before and after every query, over generated histories",
    "C12": "Go race detector plus input-fingerprint monitor over concurrent and sequential workloads on shared inputs",
    "C13": "runtime monitor: input fingerprints, panic and error observation over generated and malformed patches",
    "C17": "runtime monitor: round-trip oracle over generated patches, judged by an independent JSON reader",
    "C19": "runtime monitor: write/read round-trip oracle over generated documents and layouts",
    "C20": "runtime monitor: crash, hang, stack and memory watch over mutated and generated texts, with an independent well-formedness oracle",
    "C21": "runtime monitor: grammar-driven text generation with the denoted document as the oracle",
    "C22": "runtime monitor: round-trip oracle with an independent JSON decoder",
    "C23": "runtime monitor: conversion oracle with an independent JSON model",
    "C24": "runtime monitor: single-difference mutation oracle over generated documents",
    "C26": "runtime monitor: every generated update is replayed and audited against the one before",
    "C27": "runtime monitor: the written files are read back with independent readers and replayed",
    "C28": "runtime monitor: every generated leaf is audited against the schema, real and generated ones",
    "C29": "runtime monitor: whole simulation runs, saved output audited and replayed by an independent checker",
    "C30": "runtime monitor: three-way comparison of baseline, log and reference model over generated series",
    "C31": "runtime monitor: online state-machine monitor over generated battery and time series",
    "C32": "Go race detector plus response oracle over concurrent and hostile HTTP request streams against the real server",
    "C33": "runtime monitor: accessor results compared with an independent walk over generated data sets",
    "C34": "runtime monitor: whole simulation runs, every update audited against the sensor's configuration",
    "C35": "runtime monitor: whole query experiments over generated and simulated recordings, every saved answer and table row audited against a replay",
    "C36": "runtime monitor: the real program run on generated command lines as an unprivileged user, exit, output and file system compared before and after",
    "C37": "runtime monitor: the real page run against the real server with replies delayed and reordered, what it shows compared with what is stored",
    "C38": "runtime monitor: interval documents of random series asked at and around every change, answers compared with a replay",
    "C39": "runtime monitor: random sequences of saves and recordings, every file compared before and after each with what was given",
    "C41": "runtime monitor: whole simulation runs, the vehicle's state followed patch by patch against what the scenario says",
    "C42": "Go race detector plus answer oracle over concurrent reading calls on shared documents, answers kept and scribbled over",
    "C43": "leak monitor: live heap, goroutines and open files counted over growing numbers of repetitions, in-process and in the demo server",
    "C40": "runtime monitor: every written text read by an independent strict reader and its layout inspected",
}
note = "Held on the executions of this run (seeded, counts in the evidence file), not verified for all. Trusted: the Go toolchain and race detector, the harness's reference model."
claimed = sorted(set(re.findall(r'id:\s*"(C\d\d)"', "".join(open(os.path.join(here, "harness", f)).read() for f in sorted(os.listdir(os.path.join(here, "harness"))) if f.endswith(".go")))))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
na = {}
checks = [{
    "property": p,
    "quick_cmd": f"./check.sh {p} quick",
    "thorough_cmd": f"./check.sh {p} thorough",
    "evidence_file": f"evidence/{p}.json",
    "technique": technique.get(p, MODEL),
    "level": "exploration",
    "level_note": note,
} for p in props if p in claimed]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": p, "reason": na.get(p, "check not written yet")} for p in props if p not in claimed],
     "notes": "No hooks in /repo: every observation is made through the packages' exported API, their files or HTTP. check.sh builds the harness against /repo's working tree on every run."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
