#!/usr/bin/env python3
"""bin/check.py PROPERTY [quick|thorough]: decide a property of /repo's code."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import main
from workloads import *


def k(ctx, quick, thorough):
    return quick if ctx.quick else thorough


def c01(ctx):
    w_round(ctx, k(ctx, 500, 6000))
    w_values(ctx, k(ctx, 700, 8000), module="TraceRound", tail=False)
    w_scalars(ctx, "TraceRound")
    w_big(ctx, "TraceRound")
    w_mixed(ctx, k(ctx, 300, 3000))
    w_aliases(ctx)
    w_deep(ctx)
    w_large(ctx)
    w_deep_schemas(ctx, "round")


def c02(ctx):
    w_model(ctx)
    w_values(ctx, k(ctx, 700, 8000))
    w_scalars(ctx)
    w_big(ctx)
    w_leaf_bytes(ctx)
    w_bytes(ctx, k(ctx, 500, 8000))
    w_graph(ctx, ("edge",))
    w_long(ctx, not ctx.quick)
    w_calls(ctx, k(ctx, 200, 2000), rate=0)
    w_large(ctx, ("value",))
    w_deep_schemas(ctx, "value")


def c03(ctx):
    w_model(ctx)
    w_graph(ctx, limit=k(ctx, 3500, None))
    w_calls(ctx, k(ctx, 900, 8000))
    w_mixed(ctx, k(ctx, 300, 3000))
    w_aliases(ctx)
    w_deep(ctx)
    w_bytes(ctx, k(ctx, 300, 3000))
    w_faults(ctx, k(ctx, 300, 3000))
    w_illegal(ctx, k(ctx, 100, 1000))
    w_pump(ctx)


def c04(ctx):
    w_model(ctx)
    w_graph(ctx)
    w_calls(ctx, k(ctx, 1000, 10000), rate=0.4)
    w_reject_big(ctx)
    w_aliases(ctx)
    w_near_names(ctx)
    w_deep(ctx)
    w_pump(ctx)
    w_deep_schemas(ctx, "calls")


def c05(ctx):
    w_model(ctx)
    w_graph(ctx, ("break", "fault", "state"), k(ctx, 3500, None))
    w_faults(ctx, k(ctx, 900, 8000))
    w_broken_reads(ctx, k(ctx, 600, 6000))
    w_illegal(ctx, k(ctx, 200, 2000))
    w_pump(ctx)


def c06(ctx):
    w_leaf_bytes(ctx)
    w_bytes(ctx, k(ctx, 1500, 20000))
    w_huge(ctx)
    w_any_bytes(ctx, k(ctx, 500, 6000))
    w_any_leaf(ctx)
    w_broken_reads(ctx, k(ctx, 300, 3000))
    w_long(ctx)
    w_large(ctx)
    w_deep_schemas(ctx, "bytes")


def c07(ctx):
    w_model(ctx)
    w_graph(ctx, limit=k(ctx, 2500, None))
    w_recursion(ctx, k(ctx, 600, 6000))
    w_aliases(ctx)
    w_illegal(ctx, k(ctx, 250, 2500))
    w_deep(ctx)
    w_pump(ctx)
    w_deep_schemas(ctx, "calls")


def c08(ctx):
    w_fragments(ctx, k(ctx, 4, 8))
    w_streams(ctx, k(ctx, 350, 4000))
    w_faults(ctx, k(ctx, 800, 8000))
    w_graph(ctx, ("fault", "break"))
    w_values(ctx, k(ctx, 300, 3000))
    w_long(ctx)


def c09(ctx):
    w_serde(ctx, k(ctx, 1200, 12000))
    w_serde_empty(ctx)
    w_serde_big(ctx)
    w_serde_pairs(ctx, k(ctx, 0, 5))
    w_serde_all(ctx, True, k(ctx, None, 30000))
    w_types(ctx, k(ctx, 1, 6), k(ctx, 40, 80), k(ctx, 60, 150), k(ctx, 6, 20), schema=False)
    w_mixed(ctx, k(ctx, 300, 4000))
    w_large(ctx, ("serde",))
    w_deep_schemas(ctx, "serde")


def c10(ctx):
    w_mismatch(ctx, k(ctx, 1500, 20000))
    w_near_misses(ctx)
    w_aliases(ctx)
    w_serde_all(ctx, False, k(ctx, None, 30000))
    w_near_names(ctx)


def c11(ctx):
    w_types(ctx, k(ctx, 3, 12), k(ctx, 40, 80), k(ctx, 60, 150), k(ctx, 6, 20))


def c12(ctx):
    w_meta(ctx, k(ctx, 300, 4000))
    w_meta_coding(ctx, k(ctx, 200, 2000))
    w_deep_schemas(ctx, "meta")


def c13(ctx):
    w_mixed(ctx, k(ctx, 1200, 12000), enc=False)
    w_any_bytes(ctx, k(ctx, 400, 4000))
    w_any_leaf(ctx)
    w_graph(ctx, ("state", "edge"), k(ctx, 2000, None))
    w_any_whole(ctx, k(ctx, 400, 4000))
    w_large(ctx)
    w_deep_schemas(ctx, "serde")


def c14(ctx):
    w_sessions(ctx, k(ctx, 350, 4000))
    w_lives(ctx, k(ctx, None, 20000))
    w_pump(ctx, logs=True)


def c15(ctx):
    w_pretty(ctx, k(ctx, 800, 8000))


def c16(ctx):
    w_macro(ctx, k(ctx, 300, 1500), k(ctx, 300, 1500))


def c17(ctx):
    w_own_errors(ctx, k(ctx, 700, 6000))
    w_serde_all(ctx, False, k(ctx, None, 20000))
    w_mismatch(ctx, k(ctx, 500, 6000))
    w_fragments(ctx, k(ctx, 1, 4))
    w_faults(ctx, k(ctx, 800, 6000))
    w_graph(ctx, ("fault", "break"))
    w_broken_reads(ctx, k(ctx, 300, 3000))
    w_bytes(ctx, k(ctx, 300, 3000))


def c18(ctx):
    ctx.reports = True
    w_model(ctx)
    w_graph(ctx, ("state", "break", "edge"), k(ctx, 2500, None))
    w_calls(ctx, k(ctx, 500, 6000), rate=0.4)
    w_mixed(ctx, k(ctx, 200, 3000))
    w_recursion(ctx, k(ctx, 200, 2000))
    w_illegal(ctx, k(ctx, 100, 1000))
    w_faults(ctx, k(ctx, 200, 2000))
    w_reject_big(ctx)
    w_deep(ctx, (5, 60, 300))


CHECKS = {"C%02d" % i: f for i, f in
          [(1, c01), (2, c02), (3, c03), (4, c04), (5, c05), (6, c06), (7, c07), (8, c08), (9, c09), (10, c10),
           (11, c11), (12, c12), (13, c13), (14, c14), (15, c15), (16, c16), (17, c17), (18, c18)]}

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT_APPLICABLE = {}

TRUST = (" Trusted: TLC, the specification, and the harness making the calls of the plans and recording truthfully what"
         " came back. Not covered: nesting so deep that the native stack overflows, seqs of zero-width elements with a"
         " huge declared length.")
NOTES = {
    "C01": ("TLA+ (TLC): recorded round trips checked against Format.tla/Coder.tla",
            "Values over random, recursive and boundary schemas, all scalars at all powers of two, all length and variant"
            " count boundaries, are encoded and decoded by the real code; TLC checks each record."),
    "C02": ("TLA+ (TLC): recorded encodings and decodings checked against FORMAT.txt transcribed in Format.tla",
            "The bytes of every recorded message equal those the specification computes, and every recorded decoding of"
            " valid, mutated and boundary byte strings is judged by the specification's reading rules."),
    "C03": ("TLA+ (TLC): exhaustive model of the coder; its state graph replayed on the code, and random histories traced",
            "TLC proves on the model, for a catalog of small schemas, that finished means one conforming message; every"
            " state and transition is replayed on the real code and longer random histories are validated step by step."),
    "C04": ("TLA+ (TLC): every refused call in every state of the coder's model, replayed on the code",
            "In each reachable state of the model all invalid calls are made on the real code, then it is driven on to the"
            " end, all judged by the specification; also random histories and big schemas."),
    "C05": ("TLA+ (TLC): every breaking transition of the coder's model and every fault position, replayed on the code",
            "Every transition that breaks the coder, and every position where the stream can fail, followed by all calls."),
    "C06": ("TLA+ (TLC): recorded decodings of hostile bytes judged by Format.tla",
            "Boundary, mutated, truncated and random byte strings, huge declared lengths with peak allocation measured."),
    "C07": ("TLA+ (TLC): schema-tree semantics of recurse in Coder.tla; graph replay and traces on recursive schemas",
            "The model resolves recurse in the schema tree; code is replayed and traced on recursive and illegal schemas."),
    "C08": ("TLA+ (TLC): faults at every byte of the model's messages and fragmented streams, traces validated",
            "Results, bytes and state are required to be those of the model, which knows no fragmentation."),
    "C09": ("TLA+ (TLC): serde driver specified in Serde.tla over the coder model; recorded runs validated",
            "Random and systematic (empty containers everywhere) serde data with matching schemas."),
    "C10": ("TLA+ (TLC): serde driver specified in Serde.tla; recorded mismatched runs validated",
            "Pairs of near-miss data, shapes and schemas; TLC decides from the model whether they match."),
    "C11": ("TLA+ (TLC): known schemas of random Rust types checked to simulate the types, by Types.tla",
            "A crate of random types (derived, manual, recursive by find_type, parent_recurse and by attribute, same-named,"
            " all built-in impls) is generated and built; TLC walks the graph of pairs of type and schema position, and"
            " checks encodings and round trips of random values of the types."),
    "C12": ("TLA+ (TLC): meta-schema in Meta.tla; recorded schema codings validated",
            "Random, boundary and illegal schemas encoded, decoded, compared; values coded under returned schemas."),
    "C13": ("TLA+ (TLC): whole-value steps of Serde.tla/Coder.tla amid call sequences; recorded runs validated",
            "Random messages with any parts read dynamically, self-describing, skipped or typed."),
    "C14": ("TLA+ (TLC): recorded sessions sharing an allocation validated, with twin runs and an instrumented heap",
            "Each run of a session must follow the model irrespective of what came before, twins must be identical,"
            " and the heap must balance."),
    "C15": ("TLA+ (TLC): pretty-printed text parsed and compared with the schema tree by Pretty.tla",
            "Random, overlapping, nested, illegal and boundary schemas."),
    "C16": ("TLA+ (TLC): grammar of schema! over token trees in Macro.tla; compiled invocations judged by it",
            "A crate with random well-formed invocations in all surroundings is built and run, and which of many malformed"
            " ones the compiler refuses is recorded; TLC parses the same tokens and compares."),
    "C17": ("TLA+ (TLC): recorded errors checked against the cause that the model of coder, serde layer and stream gives",
            "Stream failures at every byte under all interfaces, and errors raised by data and visitors at every part."),
    "C18": ("TLA+ (TLC): what the coder reports of itself (debug representation, errors, debug log) derived from the model's"
            " state in Report.tla; recorded reports validated",
            "Every state, refusal and transition of the coder's model, and random histories, with a log and with the state"
            " shown after each call."),
}
NOTES = {p: (a, b + TRUST) for p, (a, b) in NOTES.items()}

if __name__ == "__main__":
    main(CHECKS, {p: NOTES[p][0] for p in CHECKS})
