#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    "C01": ("TLA+ reader model checked by TLC over all token strings up to a bound, every string replayed into parse; traces of parse on random documents validated by TLC",
            "Exhaustive over the token alphabets up to the stated lengths, sampled beyond. The specification of the DOT language in DotReader.tla is trusted."),
    "C02": ("TLA+ lexer and parser model checked by TLC over all short character sequences at every place an id can stand, replayed into parse; traces validated by TLC",
            "Exhaustive over the listed pieces up to the stated lengths, sampled beyond. DotReader.tla is trusted."),
    "C03": ("TLA+ model of separator variants: TLC reads base and variant and compares, every variant replayed into parse; traces with wild gaps validated by TLC",
            "Exhaustive over single gaps and pairs of optional separators of the bases, sampled beyond."),
    "C04": ("TLA+ reader verdicts over all token strings and short texts replayed into parse; verdicts of parse on broken texts validated by TLC; every call watched for panic and time",
            "Exhaustive over the alphabets up to the stated lengths, sampled beyond. 20 s is taken as never."),
    "C05": ("TLA+ models of printer and reader composed: TLC checks that the reader gets back every printed graph; real texts compared or read back by the TLA+ reader",
            "Exhaustive over the pool of statements, shapes and settings, sampled beyond."),
    "C06": ("TLA+ models of printer and reader composed, replayed as print-parse-print on the real code; histories of saves and loads validated by TLC",
            "Exhaustive over the pool of statements, shapes and settings, sampled beyond."),
    "C07": ("TLA+ layout model: texts generated by TLC compared with the real printer; lives of real contexts validated by TLC text by text",
            "Exhaustive over the pool of statements, shapes and settings, sampled beyond. Layout.tla states the layout."),
    "C08": ("TLA+ state machine of a printer context: all histories up to a bound replayed against fresh contexts; recorded lives validated by TLC",
            "Exhaustive over histories of the listed calls up to the bound, sampled beyond."),
    "C10": ("TLA+ model of exec: TLC enumerates the ends of dot, faults and schedules, each is played on the real exec with a stand-in dot, and TLC validates the recorded events",
            "Exhaustive over the listed statuses, signals, output kinds and sizes, faults and schedules of two calls. A stand-in takes the place of dot."),
    "C11": ("TLA+ model of exec: TLC enumerates argument lists, texts and temporary directories, each is played on the real exec with a stand-in dot, and TLC validates words, input and number of runs",
            "Exhaustive over the listed arguments up to the list lengths; texts are a list and random graphs."),
    "C12": ("TLA+ model of concurrent calls of exec checked by TLC (safety and termination); its schedules are forced on the real exec, and storms of calls recorded; TLC validates the files event by event",
            "All orders of starts and ends of two and three calls with every outcome; the steps between them run freely. Storms are sampled."),
    "C13": ("TLA+ catalogue of attributes: TLC enumerates every use of every typed attribute and reads it back with the reader model; every use made with the real constructors, compared, printed and parsed",
            "Exhaustive over the constructors, enumeration values, colours and defaults; texts and numbers are lists. Catalogue.tla states Graphviz's documentation. Five known findings are listed."),
    "C14": ("TLA+ functions from uses of builders to elements: TLC enumerates uses, each is compiled and its element compared; TLC's histories of additions and copies and its pairs of elements replayed on the real structures",
            "Exhaustive over the forms with small argument pools and up to three items, the bigger lists sampled; histories of three additions, four in the thorough tier."),
    "C15": ("TLA+ reader model decides which parts are anonymous, its texts replayed into parse; TLA+ model of name drawing by threads checked by TLC, its histories and storms of real parses validated by TLC name by name",
            "Exhaustive over the listed pieces and over histories of four parses by three threads; 300,000 names (thorough 900,000) compared, so sources of fewer than about 36 bits are told apart."),
    "C16": ("TLA+ table of Graphviz's names checked by TLC; every choice, alone and in pairs, played on the real exec with a stand-in dot and its words validated by TLC",
            "Exhaustive over the choices; pairs are sampled in the quick tier. Names.tla states Graphviz's names."),
    "C09": ("TLA+ state machine of a printer context with registered value printers; recorded lives of real contexts validated by TLC text by text",
            "Sampled: graphs, registrations and their order are random, keys differing in kind only are included."),
}


def main():
    listed = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for p in listed:
        if p in props.CHECKS and p in NOTES:
            t, n = NOTES[p]
            checks.append(dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p,
                               evidence_file="evidence/%s.json" % p, technique=t, level=props.CHECKS[p][0], level_note=n))
        else:
            na.append(dict(property=p, reason="its check is not built yet"))
    m = dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=na,
             notes="No hooks in /repo: everything is observed through the public interface. See DESIGN.md.")
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)


main()
