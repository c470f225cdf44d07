"""C01-C10, C16, C19: recorded answers of the real server are validated against module Answers.

The requests: random timetables and requests, and the networks on which a deliberately wrong scan of module Csa answers
wrongly (corpus/scan.json; the thorough tier finds further ones).  The operators module Answers judges with are the
closures of module Traveller; module TravellerMachine shows that they are what a crowd of travellers moving by the clock
experiences, module Csa that a connection scan with clean-up meets them."""
import concurrent.futures
import time

import alts
import campaign
import scan

# datasets x queries per tier
SIZE = {"quick": (750, 40), "thorough": (20000, 60)}
ASSUME = ["datasets are the generated well-formed ones (3-8 stops, up to 44 connections), written with the frozen schema",
          "the walking router is a table served by a stand-in", "the HTTP client and TLC's JSON reader are trusted"]
RULE = ("seeded random timetables on a coarse time grid (ties, exact limits, +-1 s), event-aligned request times, all parameters; "
        "plus the listed tiny networks that tell wrong scans from right ones; "
        "non-trivial: both ends have a stop within the maxima; distinct by (dataset, request)")


def models(ctx, ids):
    """the specification by itself: {name: statistics}, networks for the real server, worlds of alternatives"""
    listed = scan.corpus()
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        d = ex.submit(alts.explore, 3) if ctx.prop in ("C10", "C19") else None
        a = ex.submit(scan.show, listed, 3)
        b = ex.submit(scan.explore, ids[0], ids[0] + ids[1] - 1, ("none",), 3)
        c = ex.submit(scan.travellers, ids[0], ids[0] + ids[2] - 1, 3)
        nets, told, st = a.result()
        if told != set(listed):
            raise AssertionError(f"wrong scans not told from right ones: {sorted(set(listed) - told)[:5]}")
        res = {"wrong scans": len({x[0] for x in listed}), "listed": st["distinct"], "scan": b.result()[1]["distinct"],
               "travellers": c.result()["distinct"]}
        worlds = {}
        if d:
            worlds, st = d.result()
            if set(worlds) != alts.wrong_searches():
                raise AssertionError(f"wrong searches for alternatives not told: {sorted(alts.wrong_searches() - set(worlds))}")
            res["alternatives"] = st["distinct"]
            res["wrong searches"] = len(worlds)
    return res, nets, worlds


def mine(ctx, until):
    """thorough: further networks that tell wrong scans, by number"""
    bugs = ("none", *scan.wrong_scans())
    nets, found, states, n, first = {}, {}, 0, 0, 10**6 * (1 + ctx.seed)
    while time.time() < until:
        told, st = scan.explore(first, first + 5999, bugs, workers=8, timeout=900)
        states += st["distinct"]
        n += 6000
        first += 6000
        pick = set()
        for t in sorted(told):
            k = (t[0], t[2])
            found[k] = found.get(k, 0) + 1
            if found[k] <= 60:
                pick.add(t)
        if pick:
            nets.update(scan.show(pick, workers=8)[0])
    return nets, {"networks": n, "states": states, "told": {" ".join(k): v for k, v in sorted(found.items())}}


def run(ctx):
    nds, nq = SIZE[ctx.tier]
    res, nets, worlds = models(ctx, (1 + 20000 * ctx.seed, 1000, 200) if ctx.quick else (1 + 20000 * ctx.seed, 20000, 4000))
    if not ctx.quick:
        more, st = mine(ctx, time.time() + 600)
        nets.update(more)
        res["mined"] = st
    given = scan.directed(ctx.prop, nets)
    if worlds:
        given += alts.directed(worlds, ctx.prop, ctx.seed, *((4, 6) if ctx.quick else (40, 400)))
    suspects, cov = campaign.run(ctx.prop, ctx.seed, nds, nq, ctx.deadline, given=given)
    cov["rule"] = RULE
    cov["model"] = res
    cov["states"] += res["scan"] + res["listed"] + res["travellers"] + res.get("alternatives", 0)
    cov["directed_networks"] = len(given)
    cov["directed_requests"] = sum(len(qs) for _, qs in given)
    unconfirmed = 0
    by = {}
    for s in suspects:
        by.setdefault(tuple(s["clauses"]), []).append(s)
    for cl, ss in by.items():
        for s in ss[:3]:
            c = campaign.confirm(s)
            if c is None:
                unconfirmed += 1
                continue
            s["recorded_again"] = c
            ctx.violate(f"{', '.join(cl)} broken by {s['q']} ({len(ss)} like it)", s)
            break
    if unconfirmed:
        ctx.notes.append(f"{unconfirmed} suspects did not repeat")
    return "model_checking", cov, ASSUME
