"""Trace engine: searches recorded by drv_trace, replayed through Mcsat.tla by McsatTrace.tla."""
import json
import os
import subprocess
from concurrent.futures import ThreadPoolExecutor

import common
import gen_search


def record(drv, problems, cpu=10):
    """problems: list of (id, lines) -> list of JSON texts (one per problem)"""
    n = common.NCPU
    parts = [problems[i::n * 2] for i in range(n * 2)]

    def one(part):
        if not part:
            return []
        text = "".join("\n".join(l) + "\n" for _, l in part)
        p = subprocess.run([drv, str(cpu)], input=text, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        return p.stdout.splitlines()
    with ThreadPoolExecutor(n) as ex:
        out = [x for r in ex.map(one, parts) for x in r]
    return out


def problems(plan, seed):
    """plan: list of (kind, count, size, fixed settings)"""
    out = []
    for k, (kind, count, size, kv) in enumerate(plan):
        for i in range(count):
            out.append(gen_search.make(kind, "%d.%d" % (seed, k), i, size, **kv))
    return out
