#!/usr/bin/env python3
"""Runs the real command-line program under generated workloads and watches what it leaves behind:
exit status, log, every file of its directory. Same interface as the binary vmon.

cliwork.py run  --bin B --prop P --seed N --shard N --cases N --budget-ms N --dir D --out F [--thorough]
cliwork.py case --bin B --prop P --case-seed N --dir D [--thorough]
"""
import ast
import hashlib
import heapq
import json
import math
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import time
from xml.etree import ElementTree

HERE = os.path.dirname(os.path.abspath(__file__))
STANDIN = os.path.join(HERE, "standin")
sys.path.insert(0, STANDIN)
from contraction import contract  # noqa: E402

TIMEOUT = 60
INF = float("inf")


class Violation(Exception):
    pass


def need(cond, text):
    if not cond:
        raise Violation(text)


def close(a, b, tol=1e-9):
    return a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b))


class Ctx:
    def __init__(self, binary, directory, thorough):
        self.bin, self.dir, self.thorough = binary, directory, thorough
        self.counters, self.distinct, self.samples = {}, set(), []

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def seen(self, *what):
        self.distinct.add(hashlib.sha1(repr(what).encode()).hexdigest()[:16])

    def sample(self, x):
        if len(self.samples) < 2:
            self.samples.append(x)


# -------------------------------------------------------------------------------------------------
# model


class Net:
    """ids of nodes, their coordinates; edges (id, src, dst, metrics, sc0, sc1)"""

    def __init__(self):
        self.nodes, self.coords, self.edges, self.levels = [], {}, [], None
        self.dim = 1

    @property
    def originals(self):
        return [e for e in self.edges if e[4] is None]

    def used(self):
        return sorted({e[1] for e in self.edges} | {e[2] for e in self.edges})


def make_net(rng, max_nodes=14, dim=None, contracted=False, ties=False, parallel=True, zero=False):
    net = Net()
    net.dim = dim or rng.randint(1, 3)
    n = rng.randint(2, max_nodes)
    ids = set()
    big = rng.random() < 0.3
    while len(ids) < n:
        ids.add(rng.randint(0, 10 ** 12 if big else 3 * n))
    if not big and rng.random() < 0.2:
        # equal in their lower bits
        ids = {(i + 1 << 32) + 7 if rng.random() < 0.8 else i for i in ids}
    net.nodes = list(ids)
    rng.shuffle(net.nodes)
    for i in net.nodes:
        net.coords[i] = (round(rng.uniform(-80, 80), 6), round(rng.uniform(-170, 170), 6))

    def weight():
        if zero and rng.random() < 0.1:
            return 0.0
        return float(rng.randint(1, 4) if ties else rng.randint(1, 10 ** 6))

    pairs = []
    shape = rng.choice(["random", "random", "ring", "grid", "line", "sparse"])
    ns = net.nodes
    if shape in ("random", "sparse"):
        for _ in range(rng.randint(1, n * (4 if shape == "random" else 1))):
            pairs.append((rng.choice(ns), rng.choice(ns)))
    elif shape == "grid":
        w = max(1, int(n ** 0.5))
        for k in range(n):
            for d in (1, w):
                if k + d < n:
                    pairs.append((ns[k], ns[k + d]))
                    if rng.random() < 0.8:
                        pairs.append((ns[k + d], ns[k]))
    else:
        for k in range(n - (shape == "line")):
            pairs.append((ns[k], ns[(k + 1) % n]))
            if rng.random() < 0.7:
                pairs.append((ns[(k + 1) % n], ns[k]))
        for _ in range(rng.randint(0, 3)):
            pairs.append((rng.choice(ns), rng.choice(ns)))
    pairs = pairs or [(ns[0], ns[-1])]
    if not parallel:
        pairs = list(dict.fromkeys(pairs))
    elif rng.random() < 0.3:
        pairs += [rng.choice(pairs) for _ in range(rng.randint(1, 3))]
    eids = rng.sample(range(0, 20 * len(pairs) + 20), len(pairs))
    if rng.random() < 0.15:
        eids = [(i << 32) + 3 for i in eids]
    edges = [(eid, s, d, [weight() for _ in range(net.dim)]) for eid, (s, d) in zip(eids, pairs)]
    if contracted:
        levels, out = contract(rng, sorted({x for e in edges for x in e[1:3]}), edges, 150, rng.choice([1.0, 1.0, 0.6]))
        net.levels = {i: levels.get(i, 0) for i in net.nodes}
        net.edges = out
    else:
        net.edges = [(i, s, d, m, None, None) for i, s, d, m in edges]
    return net


def write_fmi(path, net):
    """Columns: id lat lon [level]; id src dst metrics [sc sc]"""
    with open(path, "w") as f:
        f.write("# a map\n\n%d\n%d\n%d\n" % (net.dim, len(net.nodes), len(net.edges)))
        for i in net.nodes:
            f.write("%d %r %r" % (i, net.coords[i][0], net.coords[i][1]))
            f.write(" %d\n" % net.levels[i] if net.levels else "\n")
        for i, s, d, m, a, b in net.edges:
            f.write("%d %d %d %s" % (i, s, d, " ".join("%r" % x for x in m)))
            if net.levels:
                f.write(" %d %d" % ((-1, -1) if a is None else (a, b)))
            f.write("\n")


def parsing_yaml(net, map_file, normalize=None, extra_edges=(), extra_nodes=()):
    y = "parsing:\n  map-file: '%s'\n  nodes:\n" % map_file
    y += "  - meta: { info: 'NodeId', id: 'node-id' }\n"
    y += "  - metric: { unit: 'Latitude', id: 'latitude' }\n  - metric: { unit: 'Longitude', id: 'longitude' }\n"
    if net.levels:
        y += "  - meta: { info: 'CHLevel', id: 'ch-level' }\n"
    y += "  edges:\n"
    if normalize is not None:
        y += "    will_normalize_metrics_by_mean: %s\n" % str(normalize).lower()
    y += "    data:\n    - meta: { info: 'EdgeId', id: 'edge-id' }\n"
    y += "    - meta: { info: 'SrcId', id: 'src-id' }\n    - meta: { info: 'DstId', id: 'dst-id' }\n"
    for k in range(net.dim):
        y += "    - metric: { unit: 'F64', id: 'm%d' }\n" % k
    if net.levels:
        y += "    - meta: { info: 'ShortcutIdx0', id: 'sc-idx-0' }\n    - meta: { info: 'ShortcutIdx1', id: 'sc-idx-1' }\n"
    if extra_edges or extra_nodes:
        y += "  generating:\n    nodes:%s\n" % ("" if extra_nodes else " []")
        y += "".join("    - %s\n" % x for x in extra_nodes)
        y += "    edges:%s\n" % ("" if extra_edges else " []")
        y += "".join("    - %s\n" % x for x in extra_edges)
    return y


def routing_yaml(algo, alphas, pairs_file, tolerated=None):
    y = "routing:\n"
    if pairs_file is not None:
        y += "  route-pairs-file: '%s'\n" % pairs_file
    if algo.startswith("Explorator"):
        y += "  algorithm:\n    Explorator:\n      algo: '%s'\n" % algo.split(":")[1]
    else:
        y += "  algorithm: '%s'\n" % algo
    y += "  metrics:\n"
    for k, a in alphas.items():
        y += "  - id: '%s'\n    alpha: %r\n" % (k, a)
        if tolerated and k in tolerated:
            y += "    tolerated-scale: '%r'\n" % tolerated[k]
    return y


def write_pairs(path, lines, rng=None):
    with open(path, "w") as f:
        f.write("# pairs\n\n%d\n" % len(lines))
        for s, d, n in lines:
            f.write("%d %d %d\n" % (s, d, n))


# -------------------------------------------------------------------------------------------------
# oracle


def shortest(edges, alphas, src):
    """{node: (cost, number of optimal paths (capped), position of the last edge)} over non-shortcuts.
    Costs are exact for integers."""
    adj = {}
    for k, e in enumerate(edges):
        if e[4] is None:
            adj.setdefault(e[1], []).append(k)
    dist, heap, done = {src: 0.0}, [(0.0, src)], set()
    while heap:
        c, v = heapq.heappop(heap)
        if v in done:
            continue
        done.add(v)
        for k in adj.get(v, ()):
            w = sum(a * x for a, x in zip(alphas, edges[k][3]))
            n = c + w
            if n < dist.get(edges[k][2], INF):
                dist[edges[k][2]] = n
                heapq.heappush(heap, (n, edges[k][2]))
    return dist


def optimal_edges(edges, alphas, src, dst, to):
    """Edges of the optimal path from src to dst, None if it isn't clearly unique. to: distances from every node"""
    # forward distances from src, tight edges leading to dst
    fwd = to[src]
    if dst not in fwd:
        return None
    best = fwd[dst]
    if src == dst:
        return []
    slack = 1e-4 * max(1.0, best)
    tight = []
    for k, e in enumerate(edges):
        if e[4] is not None or e[1] not in fwd:
            continue
        rest = to[e[2]].get(dst)
        if rest is None:
            continue
        w = sum(a * x for a, x in zip(alphas, e[3]))
        if fwd[e[1]] + w + rest <= best + slack:
            tight.append(k)
    # unique iff the tight edges are a simple path
    nxt = {}
    for k in tight:
        if edges[k][1] in nxt:
            return None
        nxt[edges[k][1]] = k
    path, v = [], src
    while v != dst:
        if v not in nxt or len(path) > len(edges):
            return None
        path.append(nxt[v])
        v = edges[nxt[v]][2]
    return path if len(path) == len(tight) else None


def all_dist(net_edges, alphas, nodes):
    return {v: shortest(net_edges, alphas, v) for v in nodes}


# -------------------------------------------------------------------------------------------------
# running


class Run:
    pass


def run(ctx, cwd, args, env=None, cpus=None, fsize=None, log=None, timeout=TIMEOUT, binary=None):
    e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": cwd, "RUST_BACKTRACE": "0"}
    e.update(env or {})

    def pre():
        os.setsid()
        if cpus:
            os.sched_setaffinity(0, cpus)
        if fsize is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    p = subprocess.Popen([binary or ctx.bin] + list(args), cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, preexec_fn=pre)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        raise Violation("the program %s didn't end within %d s" % (args, timeout))
    r = Run()
    r.code, r.text = p.returncode, out.decode("utf-8", "replace")
    ctx.count("runs_of_the_program")
    need(r.code >= 0, "the program was ended by signal %d\n%s" % (-r.code, r.text[-2000:]))
    return r


def run_full(ctx, cwd, args, file, at, env=None, **more):
    """The given file's bytes from `at` on find no place. Returns also whether the program tried to write them."""
    mark = os.path.join(cwd, "fault-happened")
    e = dict(env or {}, LD_PRELOAD=os.environ["VMON_DELAY_SO"], VMON_FAIL_FILE=file, VMON_FAIL_AT=str(at), VMON_FAIL_MARK=mark)
    r = run(ctx, cwd, args, e, **more)
    hit = os.path.exists(mark)
    if hit:
        os.remove(mark)
    return r, hit


def snapshot(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for x in dirs:
            out[os.path.relpath(os.path.join(root, x), d)] = None
        for x in files:
            p = os.path.join(root, x)
            with open(p, "rb") as f:
                out[os.path.relpath(p, d)] = f.read()
    return out


def expect_success(r, what=""):
    need(r.code == 0, "%s failed with status %d, but nothing is wrong with its input\n%s" % (what or "the program", r.code, r.text[-700:]))


def expect_failure(r, what):
    need(r.code != 0, "%s, but the program reports success\n%s" % (what, r.text[-700:]))


def fresh(d):
    if os.path.isdir(d):
        for x in os.listdir(d):
            p = os.path.join(d, x)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            else:
                os.remove(p)
    os.makedirs(d, exist_ok=True)


def table(path):
    with open(path) as f:
        lines = f.read().split("\n")
    need(lines and lines[-1] == "", "%s doesn't end with a newline" % path)
    return [x.split(" ") for x in lines[:-1]]


def workloads(path, net, with_shortcuts):
    """Reads the workload's file by edge-id"""
    rows = table(path)
    need(rows[0] == ["edge-id", "num_routes"], "unexpected header %s" % rows[0])
    out = {}
    for r in rows[1:]:
        need(len(r) == 2, "unexpected row %s" % r)
        need(int(r[0]) not in out, "edge %s occurs twice in the workloads" % r[0])
        out[int(r[0])] = int(r[1])
    want = {e[0] for e in net.edges if with_shortcuts or e[4] is None}
    need(set(out) == want, "workloads of edges %s are missing, of %s are too many" % (sorted(want - set(out))[:5], sorted(set(out) - want)[:5]))
    return out


VEHICLE = re.compile(r'^<vehicle id="(-?\d+)->(-?\d+)" ')
NODE = re.compile(r'^<node id="(-?\d+)"/>$')


def vehicles(path):
    out, cur = [], None
    with open(path) as f:
        for line in f:
            line = line.rstrip("\n")
            m = VEHICLE.match(line)
            if m:
                need(cur is None, "nested vehicle")
                cur = (int(m[1]), int(m[2]), [])
                continue
            m = NODE.match(line)
            if m:
                cur[2].append(int(m[1]))
            elif line == "</vehicle>":
                out.append(cur)
                cur = None
    need(cur is None, "unfinished vehicle")
    return out


def check_routes(ctx, net, alphas, lines, got, explored, veh, costs_by_pair=None):
    """got: {edge-id: workload}; explored: are routes chosen out of several?"""
    to = all_dist(net.edges, alphas, net.used())
    want_pairs, balance, total, exact, unique = {}, {}, 0.0, {}, True
    for s, d, n in lines:
        if d not in to[s] or n == 0:
            ctx.count("unreachable_pairs" if n else "pairs_with_count_0")
            continue
        want_pairs[s, d] = want_pairs.get((s, d), 0) + n
        if s != d:
            balance[s] = balance.get(s, 0) + n
            balance[d] = balance.get(d, 0) - n
        total += n * to[s][d]
        if unique and not explored:
            p = optimal_edges(net.edges, alphas, s, d, to)
            if p is None:
                unique = False
            else:
                for k in p:
                    exact[k] = exact.get(k, 0) + n
    by_id = {e[0]: k for k, e in enumerate(net.edges)}
    flow, cost = {}, 0.0
    for eid, n in got.items():
        e = net.edges[by_id[eid]]
        need(n >= 0, "negative workload")
        if n and e[4] is not None:
            raise Violation("the shortcut %d has a workload of %d, which belongs to the edges it stands for" % (eid, n))
        flow[e[1]] = flow.get(e[1], 0) + n
        flow[e[2]] = flow.get(e[2], 0) - n
        cost += n * sum(a * x for a, x in zip(alphas, e[3]))
    for v in set(flow) | set(balance):
        need(flow.get(v, 0) == balance.get(v, 0),
             "node %d: routes leaving minus routes arriving are %d in the workloads, but %d are requested" % (v, flow.get(v, 0), balance.get(v, 0)))
    if not explored:
        need(close(cost, total, 1e-9), "the workloads' costs %r differ from the best routes' costs %r" % (cost, total))
        if unique:
            for eid, n in got.items():
                w = exact.get(by_id[eid], 0)
                need(n == w, "edge %d is used by %d best routes, but has workload %d" % (eid, w, n))
            ctx.count("workloads_compared_exactly")
    ctx.count("routes_counted", sum(want_pairs.values()))
    if veh is None:
        return
    have, hops = {}, {}
    for s, d, ns in veh:
        have[s, d] = have.get((s, d), 0) + 1
        need((not ns and s == d) or (ns and ns[0] == s and ns[-1] == d), "vehicle %d->%d has the nodes %s" % (s, d, ns))
        for a, b in zip(ns, ns[1:]):
            hops[a, b] = hops.get((a, b), 0) + 1
    need(have == want_pairs, "vehicles per pair differ: %s instead of %s" % (
        sorted(set(have.items()) - set(want_pairs.items()))[:5], sorted(set(want_pairs.items()) - set(have.items()))[:5]))
    used = {}
    for eid, n in got.items():
        e = net.edges[by_id[eid]]
        if n:
            used[e[1], e[2]] = used.get((e[1], e[2]), 0) + n
    need(used == hops, "the vehicles' edges differ from the workloads: %s, %s" % (
        sorted(set(used.items()) - set(hops.items()))[:5], sorted(set(hops.items()) - set(used.items()))[:5]))
    ctx.count("vehicles", len(veh))
    if costs_by_pair is None:
        return
    weights = {(e[1], e[2]): e[3] for e in net.edges if e[4] is None}
    chosen = {}
    for s, d, ns in veh:
        c = [0.0] * net.dim
        for h in zip(ns, ns[1:]):
            c = [x + y for x, y in zip(c, weights[h])]
        found = [k for k, f in enumerate(costs_by_pair[s, d]) if all(close(x, y, 1e-9) for x, y in zip(f, c))]
        need(found, "a route from %d to %d with costs %s was counted, but explored are %s" % (s, d, c, costs_by_pair[s, d]))
        chosen.setdefault((s, d), set()).update(found)
    for (s, d), n in want_pairs.items():
        k = len(costs_by_pair[s, d])
        if k > 1:
            ctx.count("pairs_with_alternatives")
            if n * 1.0 / k > 35:  # missing one has a probability below 1e-13
                need(len(chosen[s, d]) == k, "%d routes from %d to %d were chosen among %d alternatives, but some alternatives never" % (n, s, d, k))
                ctx.count("pairs_with_all_alternatives_chosen")


COSTS = re.compile(r"Path costs \[(.*?)\] from \(Node: \{ id: (-?\d+), .*?\}\) to \(Node: \{ id: (-?\d+), ")
NONE = re.compile(r"No path (?:found )?from \(Node: \{ id: (-?\d+), .*?\}\) to \(Node: \{ id: (-?\d+), ")
EXPLORED = re.compile(r"\{ src-id: (-?\d+), dst-id: (-?\d+), costs: (?:Some\()?\[(.*?)\]\)?, hop-distance: \d+ \}")


def numbers(s):
    return [float(x) for x in s.split(",")] if s.strip() else []


# -------------------------------------------------------------------------------------------------
# L01


def case_l01(ctx, rng):
    d = ctx.dir
    fresh(d)
    explored = rng.random() < 0.35
    ties = rng.random() < 0.3
    contracted = rng.random() < 0.5
    net = make_net(rng, rng.choice([4, 9, 14]), contracted=contracted, ties=ties, parallel=not explored)
    write_fmi(os.path.join(d, "g.fmi"), net)
    algo = rng.choice(["Dijkstra", "CHDijkstra"]) if contracted else "Dijkstra"
    if not contracted and rng.random() < 0.2:
        algo = "CHDijkstra"  # all nodes have the same level
    considered = rng.sample(range(net.dim), rng.randint(1, net.dim))
    alphas = [float(rng.choice([1, 1, 2, 3])) if k in considered else 0.0 for k in range(net.dim)]
    if explored:
        alphas = [1.0 if a else 0.0 for a in alphas]
    used = net.used()
    size = rng.choice([0, 1, 2, 3, 10, 30, 49, 50, 51, 79, 80, 81, 120, 250] + ([700, 3000] if ctx.thorough else [400]))
    few = [(rng.choice(used), rng.choice(used)) for _ in range(3)]
    counts = [1, 1, 1, 2, 3, 10, 0] + ([150, 250] if explored and size <= 10 else [40])
    lines = []
    for _ in range(size):
        s, t = rng.choice(few) if rng.random() < 0.2 else (rng.choice(used), rng.choice(used))
        lines.append((s, t, rng.choice(counts)))
    smarts = rng.random() < 0.7
    if not explored and rng.random() < 0.04:
        # more routes than numbers of two bytes
        while len(lines) <= 65536:
            lines.append((rng.choice(used), rng.choice(used), 1))
        smarts = False
        ctx.count("runs_with_many_routes")
    if lines and rng.random() < 0.1:
        k = rng.randrange(len(lines))
        many = rng.choice([257, 1001, 1500, 4000, 70000])
        smarts = smarts and many < 10000
        lines[k] = (lines[k][0], lines[k][1], many)
        ctx.count("runs_with_high_counts")
    write_pairs(os.path.join(d, "p.route-pairs"), lines)
    with_sc = contracted and rng.random() < 0.5
    seed = rng.randint(0, 2 ** 32)

    full = "Explorator:" + algo if explored else algo

    def config(name, threads, pairs="p.route-pairs"):
        y = parsing_yaml(net, "g.fmi")
        y += routing_yaml(full, {"m%d" % k: alphas[k] for k in considered}, pairs)
        y += "evaluating_balance:\n  seed: %d\n  results-dir: '%s'\n" % (seed, name)
        if threads is not None:
            y += "  number_of_threads: %d\n" % threads
        y += "  monitoring:\n"
        if smarts or rng.random() < 0.5:
            y += "    export_vehicles_for_SMARTS: %s\n" % str(smarts).lower()
        y += "    edges-info:\n      file: 'edges-info.csv'\n      with_shortcuts: %s\n      ids:\n" % str(with_sc).lower()
        y += "      - id: 'edge-id'\n      - id: 'src-id'\n      - id: 'dst-id'\n"
        with open(os.path.join(d, name + ".yaml"), "w") as f:
            f.write(y)
        return name + ".yaml"

    costs_by_pair = None
    if explored and smarts:
        # what does plain exploration find?
        with open(os.path.join(d, "x.yaml"), "w") as f:
            f.write(parsing_yaml(net, "g.fmi") + routing_yaml(full, {"m%d" % k: alphas[k] for k in considered}, "x.route-pairs"))
        distinct = sorted({(s, t) for s, t, _ in lines})
        write_pairs(os.path.join(d, "x.route-pairs"), [(s, t, 1) for s, t in distinct])
        r = run(ctx, d, ["--config", "x.yaml", "--routing"])
        expect_success(r, "exploring")
        costs_by_pair = {p: [] for p in distinct}
        for m in EXPLORED.finditer(r.text):
            costs_by_pair[int(m[1]), int(m[2])].append(numbers(m[3]))
        ctx.count("explorations_compared")

    results = []
    threads = [rng.choice([1, 1, 2, None]), rng.choice([2, 3, 4, 7, 16]) if rng.random() < 0.97 else 300]
    cores = sorted(os.sched_getaffinity(0))
    for k, t in enumerate(threads):
        name = "run%d" % k
        env = {"RUST_LOG": rng.choice(["warn", "info", "debug"])}
        cpus = None
        if rng.random() < 0.6:
            env.update(LD_PRELOAD=os.environ["VMON_DELAY_SO"], VMON_DELAY_SEED=str(rng.randint(1, 10 ** 9)), VMON_DELAY_US=str(rng.choice([50, 300, 2000])))
            ctx.count("runs_with_injected_delays")
        if rng.random() < 0.3:
            cpus = set(rng.sample(cores, min(len(cores), rng.choice([1, 2]))))
            ctx.count("runs_on_few_cpus")
        r = run(ctx, d, ["--config", config(name, t), "--evaluating_balance"], env, cpus)
        expect_success(r, "evaluating with %s threads" % t)
        base = os.path.join(d, name)
        want = {"abs_workloads.csv", "edges-info.csv"} | ({"smarts.xml"} if smarts else set())
        have = set(os.listdir(base))
        need(have == want, "files %s were written instead of %s" % (sorted(have), sorted(want)))
        got = workloads(os.path.join(base, "abs_workloads.csv"), net, with_sc)
        veh = vehicles(os.path.join(base, "smarts.xml")) if smarts else None
        check_routes(ctx, net, alphas, lines, got, explored, veh, costs_by_pair)
        rows = table(os.path.join(base, "edges-info.csv"))
        by_id = {e[0]: e for e in net.edges}
        need(len(rows) - 1 == len(got), "edges-info has %d rows instead of %d" % (len(rows) - 1, len(got)))
        for x in rows[1:]:
            e = by_id[int(x[0])]
            need(int(x[1]) == e[1] and int(x[2]) == e[2], "edges-info has the row %s instead of %s" % (x, e))
        if (t or 4) > 1:
            ctx.count("runs_with_several_threads")
            if veh and len(lines) > 1:
                # order in which routes have been finished
                ctx.seen("interleaving", name, t, veh)
        results.append((got, sorted(map(repr, veh)) if veh is not None else None))
        if not explored and k:
            need(results[0] == results[k], "the results with %s and %s threads differ" % (threads[0], t))
            ctx.count("thread_numbers_compared")
    if len(lines) > 50:
        ctx.count("runs_with_several_chunks_of_work")
    if contracted:
        ctx.count("runs_on_contracted_graphs")
    if explored:
        ctx.count("runs_with_exploration")
    if lines:
        ctx.seen(net.edges, lines, full)

    # a failing worker
    if lines and rng.random() < 0.35:
        bad = list(lines)
        unknown = max(net.nodes) + 1 + rng.randint(0, 5)
        for _ in range(rng.choice([1, 1, 1, 3])):
            k = rng.randint(0, len(bad))
            s, t, n = rng.choice(lines)
            bad.insert(k, (unknown, t, 1) if rng.random() < 0.5 else (s, unknown, 1))
        write_pairs(os.path.join(d, "bad.route-pairs"), bad)
        env = {}
        if rng.random() < 0.6:
            env.update(LD_PRELOAD=os.environ["VMON_DELAY_SO"], VMON_DELAY_SEED=str(rng.randint(1, 10 ** 9)), VMON_DELAY_US="300")
        r = run(ctx, d, ["--config", config("bad", rng.choice([1, 2, 4, 8]), "bad.route-pairs"), "--evaluating_balance"], env)
        expect_failure(r, "a route's node %d is unknown" % unknown)
        need(not os.path.exists(os.path.join(d, "bad", "abs_workloads.csv")), "a worker failed, but workloads were written")
        ctx.count("failing_workers")
    if lines and rng.random() < 0.1:
        r = run(ctx, d, ["--config", config("none", 0), "--evaluating_balance"])
        expect_failure(r, "there are no workers, but work")
        ctx.count("runs_without_workers")
    ctx.sample("%d nodes, %d edges, %d pairs, %s, threads %s" % (len(net.nodes), len(net.edges), len(lines), full, threads))


# -------------------------------------------------------------------------------------------------
# L02


def read_map(path, node_cols, edge_cols):
    """Reads a map written by the program or the stand-in: (nodes, edges) as dicts"""
    with open(path) as f:
        rows = [x.split(" ") for x in f.read().split("\n") if x and not x.startswith("#")]
    n, m = int(rows[1][0]), int(rows[2][0])
    need(len(rows) == 3 + n + m, "%s has %d lines instead of %d nodes and %d edges" % (path, len(rows), n, m))
    for r in rows[3:3 + n]:
        need(len(r) == len(node_cols), "unexpected node-line %s" % r)
    for r in rows[3 + n:]:
        need(len(r) == len(edge_cols), "unexpected edge-line %s" % r)
    return ([dict(zip(node_cols, r)) for r in rows[3:3 + n]], [dict(zip(edge_cols, r)) for r in rows[3 + n:]])


def stored(x):
    return 1e-6 if abs(x) < 1.5e-6 else x


def case_l02(ctx, rng):
    d = ctx.dir
    fresh(d)
    net = make_net(rng, rng.choice([4, 8, 10]), dim=2, parallel=True, ties=rng.random() < 0.2)
    write_fmi(os.path.join(d, "g.fmi"), net)
    updates = rng.choice([0, 1, 1, 2, 2, 3]) if rng.random() < 0.92 else rng.choice([9, 10, 11, 12])
    euler = None if rng.random() < 0.5 else rng.choice([0.1, 0.5, 0.9, 1.0, 1.3])
    minimum = rng.choice([None, 0.1, 0.01, 0.5, 1.0, 2.0])
    throw = rng.choice([None, True, False, False])
    if rng.random() < 0.06:
        # unused edges get negative values
        updates, euler, minimum, throw = rng.choice([1, 2, 3]), 1.3, None, False
    seed = rng.randint(0, 10 ** 6)
    default = rng.choice([1.0, 1.0, 2.0, 0.5])
    used = net.used()
    lines = []
    for _ in range(rng.choice([1, 3, 10, 30, 60, 130])):
        lines.append((rng.choice(used), rng.choice(used), rng.choice([1, 1, 2, 5, 0])))
    many = max(x[2] for x in lines)
    if rng.random() < 0.08:
        # workloads beyond small integers
        many = rng.choice([300, 40000, 70000, 140000])
        k = rng.randrange(len(lines))
        lines[k] = (lines[k][0], lines[k][1], many)
    write_pairs(os.path.join(d, "p.route-pairs"), lines)
    algo = rng.choice(["CHDijkstra", "CHDijkstra", "Dijkstra", "Explorator:CHDijkstra", "Explorator:Dijkstra"])
    alphas = {"m0": 1.0, "m1": float(rng.choice([0, 1, 2])), "workload": float(rng.choice([1, 1, 3, 100, 0]))}
    if algo.startswith("E"):
        alphas = {k: 1.0 for k, a in alphas.items() if a}
    scale = [sum(e[3][k] for e in net.edges) / len(net.edges) for k in range(2)]
    normal = [[stored(x / s) for x, s in zip(e[3], scale)] for e in net.edges]
    # identical neighbours in the order of edges are dropped only if they are equal in everything, ids differ here

    os.makedirs(os.path.join(d, "externals", "multi-ch-constructor", "build"))
    shutil.copy(os.path.join(STANDIN, "multi-ch"), os.path.join(d, "externals", "multi-ch-constructor", "build", "multi-ch"))
    os.makedirs(os.path.join(d, "bin"))
    shutil.copy(os.path.join(STANDIN, "cmake"), os.path.join(d, "bin", "cmake"))

    def iter_cfg(name, with_workload):
        w = "writing:\n  graph:\n    map-file: 'graph.fmi'\n    nodes:\n    - id: 'node-idx'\n    - id: 'node-id'\n    - id: 'latitude'\n"
        w += "    - id: 'longitude'\n    - ignored\n    - ignored\n    edges:\n      with_shortcuts: false\n      will_denormalize_metrics_by_mean: false\n"
        w += "      ids:\n      - id: 'edge-id'\n      - id: 'src-idx'\n      - id: 'dst-idx'\n      - id: 'm0'\n      - id: 'm1'\n"
        if with_workload:
            w += "      - id: 'workload'\n"
        w += "      - ignored\n      - ignored\n"
        w += "  edges-info:\n    file: 'edges-info.csv'\n    with_shortcuts: false\n    will_denormalize_metrics_by_mean: false\n    ids:\n    - id: 'edge-id'\n    - id: 'dummy'\n"
        w += "parsing:\n  map-file: 'graph.ch.fmi'\n  nodes:\n  - ignored\n  - meta: { info: 'NodeId', id: 'node-id' }\n"
        w += "  - metric: { unit: 'Latitude', id: 'latitude' }\n  - metric: { unit: 'Longitude', id: 'longitude' }\n  - ignored\n"
        w += "  - meta: { info: 'CHLevel', id: 'ch-level' }\n  edges:\n    will_normalize_metrics_by_mean: false\n    data:\n"
        w += "    - meta: { info: 'EdgeId', id: 'edge-id' }\n    - meta: { info: 'SrcId', id: 'src-id' }\n    - meta: { info: 'DstId', id: 'dst-id' }\n"
        w += "    - metric: { unit: 'F64', id: 'm0' }\n    - metric: { unit: 'F64', id: 'm1' }\n"
        if with_workload:
            w += "    - metric: { unit: 'F64', id: 'workload' }\n"
        w += "    - meta: { info: 'ShortcutIdx0', id: 'sc-idx-0' }\n    - meta: { info: 'ShortcutIdx1', id: 'sc-idx-1' }\n"
        w += "  generating:\n    nodes:\n    - meta: { info: 'NodeIdx', id: 'node-idx' }\n    edges:\n    - meta: { info: 'SrcIdx', id: 'src-idx' }\n"
        w += "    - meta: { info: 'DstIdx', id: 'dst-idx' }\n"
        if not with_workload:
            w += "    - custom: { id: 'workload', unit: 'F64', default: %r }\n" % default
        w += "    - custom: { id: 'dummy', unit: 'F64', default: 0.1 }\n"
        w += "    - merge:\n        from: 'edges-info.csv'\n        edge-id: 'edge-id'\n        edges-info:\n        - id: 'edge-id'\n        - id: 'dummy'\n"
        with open(os.path.join(d, name), "w") as f:
            f.write(w)

    iter_cfg("init.yaml", False)
    iter_cfg("iteration.yaml", True)
    smarts = rng.random() < 0.5 and many < 1000
    y = parsing_yaml(net, "g.fmi", True, [
        "meta: { info: 'SrcIdx', id: 'src-idx' }", "meta: { info: 'DstIdx', id: 'dst-idx' }",
        "copy: { from: { unit: 'F64', id: 'm0' }, to: { unit: 'F64', id: 'dummy' } }",
        "custom: { id: 'workload', unit: 'F64', default: 1.0 }"], ["meta: { info: 'NodeIdx', id: 'node-idx' }"])
    y += routing_yaml(algo, alphas, "p.route-pairs")
    y += "balancing:\n  seed: %d\n  number_of_threads: %d\n  results-dir: 'results'\n  iter-0-cfg: 'init.yaml'\n  iter-i-cfg: 'iteration.yaml'\n" % (seed, rng.choice([1, 2, 4]))
    y += "  optimizing_with:\n    metric-id: 'workload'\n    method:%s\n" % (" averaging" if euler is None else "\n      explicit_euler: { correction: %r }" % euler)
    y += "  number_of_metric-updates: %d\n" % updates
    if minimum is not None:
        y += "  min_new_metric: %r\n" % minimum
    if throw is not None:
        y += "  throw_err_when_new_metric_is_zero: %s\n" % str(throw).lower()
    y += "  multi-ch-constructor:\n    fmi-graph: 'graph.fmi'\n    contracted-graph: 'graph.ch.fmi'\n    dimension: 3\n    contraction-ratio: '99.8'\n    number_of_threads: 3\n"
    y += "    is_printing_osm-ids: true\n    is_using_external_edge-ids: true\n"
    y += "  monitoring:\n    export_vehicles_for_SMARTS: %s\n    edges-info:\n      file: 'edges-info.csv'\n      with_shortcuts: false\n      ids:\n      - id: 'edge-id'\n      - id: 'm0'\n      - id: 'workload'\n" % str(smarts).lower()
    y += "writing:\n  graph:\n    map-file: 'balanced.fmi'\n    nodes:\n    - id: 'node-id'\n    - id: 'latitude'\n    - id: 'longitude'\n    edges:\n      with_shortcuts: false\n"
    y += "      will_denormalize_metrics_by_mean: false\n      ids:\n      - id: 'edge-id'\n      - id: 'src-id'\n      - id: 'dst-id'\n      - id: 'm0'\n      - id: 'm1'\n      - id: 'workload'\n      - id: 'dummy'\n"
    with open(os.path.join(d, "c.yaml"), "w") as f:
        f.write(y)

    fail = rng.choice(["multi-ch", "cmake", "cmake-build", "multi-ch@%d" % updates, "multi-ch-late", "multi-ch-late@%d" % updates]) if rng.random() < 0.14 else ""
    env = {"PATH": os.path.join(d, "bin") + ":" + os.environ.get("PATH", "/usr/bin:/bin"), "VMON_STANDIN": STANDIN, "VMON_CALLS": os.path.join(d, "calls"),
           "VMON_CH_SEED": str(seed), "VMON_CH_MAX": str(rng.choice([0, 5, 60, 200])), "VMON_FAIL": fail, "PYTHONDONTWRITEBYTECODE": "1"}
    if rng.random() < 0.3:
        env.update(LD_PRELOAD=os.environ["VMON_DELAY_SO"], VMON_DELAY_SEED=str(seed + 1), VMON_DELAY_US="300")
    r = run(ctx, d, ["-c", "c.yaml", "--balancing"], env)
    need(os.path.isfile(os.path.join(d, "g.fmi")), "the map vanished")
    res = os.path.join(d, "results")
    dirs = os.listdir(res) if os.path.isdir(res) else []
    need(len(dirs) == 1 and dirs[0].startswith("utc_"), "unexpected results-folders %s" % dirs)
    res = os.path.join(res, dirs[0])

    # follow the iterations
    orig = {e[0]: (k, e) for k, e in enumerate(net.edges)}
    expected_error = None
    workload = {e[0]: 1.0 for e in net.edges}  # of the graph before iteration 0
    ok = True
    for it in range(updates + 1):
        idir = os.path.join(res, str(it))
        last = it == updates
        balanced = os.path.join(res, "balanced.fmi")
        if last:
            need(os.path.isfile(balanced), "no balanced graph was stored\n%s" % r.text[-2000:])
            nodes, edges = read_map(balanced, ["id", "lat", "lon"], ["id", "s", "d", "m0", "m1", "w", "dummy"])
            need({int(x["id"]) for x in nodes} == set(used), "the balanced graph has other nodes")
            for x in nodes:
                need((float(x["lat"]), float(x["lon"])) == net.coords[int(x["id"])], "coordinates of the node %s changed" % x)
            need(sorted(int(x["id"]) for x in edges) == sorted(orig), "the balanced graph has other edges")
            for x in edges:
                k, e = orig[int(x["id"])]
                need((int(x["s"]), int(x["d"])) == (e[1], e[2]), "an edge's nodes changed: %s, %s" % (x, e))
                need(close(float(x["m0"]), normal[k][0], 1e-9) and close(float(x["m1"]), normal[k][1], 1e-6) and close(float(x["dummy"]), normal[k][0], 1e-6),
                     "metrics which aren't balanced changed: %s instead of %s" % (x, normal[k]))
                need(close(float(x["w"]), workload[e[0]], 1e-9), "the balanced graph's edge %d has new metric %s instead of %r" % (e[0], x["w"], workload[e[0]]))
            ctx.count("balanced_graphs_compared")
        cols = ["id", "s", "d", "m0", "m1"] + (["w"] if it else []) + ["_0", "_1"]
        if not os.path.isfile(os.path.join(idir, "graph.fmi")):
            need(r.code != 0, "iteration %d is missing" % it)
            raise Violation("iteration %d wasn't even started\n%s" % (it, r.text[-2000:]))
        nodes, edges = read_map(os.path.join(idir, "graph.fmi"), ["idx", "id", "lat", "lon", "h", "l"], cols)
        for x in edges:
            k, e = orig[int(x["id"])]
            need(close(float(x["m0"]), normal[k][0], 1e-9) and close(float(x["m1"]), normal[k][1], 1e-6), "metrics which aren't balanced changed: %s instead of %s" % (x, normal[k]))
            if it:
                need(close(float(x["w"]), workload[e[0]], 1e-9),
                     "iteration %d: edge %d has new metric %s instead of %r (method %s, minimum %s)" % (it - 1, e[0], x["w"], workload[e[0]], euler, minimum))
        need(sorted(int(x["id"]) for x in edges) == sorted(orig), "edges got lost in iteration %d" % it)
        for x in table(os.path.join(idir, "edges-info.csv"))[1:]:
            need(close(float(x[1]), normal[orig[int(x[0])][0]][0], 1e-9), "metric of edge %s changed to %s" % (x[0], x[1]))
        if fail and (not fail.endswith("@%d" % updates) or last):
            expected_error = "a helping program failed (%s)" % fail
            break
        ch = os.path.join(idir, "graph.ch.fmi")
        need(os.path.isfile(ch), "no contracted graph\n%s" % r.text[-2000:])
        _, edges = read_map(ch, ["idx", "id", "lat", "lon", "h", "l"], cols)
        cur = Net()
        cur.dim = 3
        bad = False
        for x in edges:
            w = float(x["w"]) if it else default
            sc = (None, None) if x["_0"] == "-1" else (int(x["_0"]), int(x["_1"]))
            if w <= -1.5e-6:
                bad = True
            # generated metrics aren't corrected
            cur.edges.append((int(x["id"]), int(x["s"]), int(x["d"]), [stored(float(x["m0"])), stored(float(x["m1"])), stored(w) if it else w], sc[0], sc[1]))
        if bad:
            expected_error = "the new metric is negative"
            break
        a = [alphas.get("m0", 0.0), alphas.get("m1", 0.0), alphas.get("workload", 0.0) if it else 0.0]
        stats = os.path.join(idir, "stats")
        wl = os.path.join(stats, "abs_workloads.csv")
        reachable = 0
        to = all_dist(cur.edges, a, cur.used())
        for s, t, n in lines:
            if t in to[s] and s != t:
                reachable += n
        if reachable == 0:
            expected_error = "no route exists"
            break
        if not os.path.exists(wl):
            # must be due to the new metric, which can't be computed without knowing the workloads if several routes are the best
            if minimum is None and throw is not False:
                expected_error = "new metric is zero"
                got = None
                unique = not algo.startswith("E") and all(optimal_edges(cur.edges, a, s, t, to) is not None for s, t, n in lines if t in to[s] and n)
                if unique:
                    got = {e[0]: 0 for e in cur.edges}
                    for s, t, n in lines:
                        for k in (optimal_edges(cur.edges, a, s, t, to) or []) if t in to[s] else []:
                            got[cur.edges[k][0]] += n
                    new, err = update(cur, got, it, euler, minimum, throw, len(cur.edges))
                    need(err, "iteration %d failed, though the new metric is fine\n%s" % (it, r.text[-2000:]))
                break
            if minimum is None or minimum <= 1.5e-6 or (euler or 0) > 1:
                # the sum could be zero or lower
                expected_error = "maybe"
                break
            raise Violation("iteration %d failed without a reason\n%s" % (it, r.text[-2000:]))
        got = workloads(wl, cur, False)
        veh = vehicles(os.path.join(stats, "smarts.xml")) if smarts else None
        check_routes(ctx, cur, a, lines, got, algo.startswith("E"), veh)
        new, err = update(cur, got, it, euler, minimum, throw, len(cur.edges))
        need(not err, "iteration %d was finished, though %s" % (it, err))
        for x in table(os.path.join(stats, "edges-info.csv"))[1:]:
            k = orig[int(x[0])][0]
            need(close(float(x[1]), normal[k][0], 1e-9) and close(float(x[2]), new[int(x[0])], 1e-6),
                 "iteration %d: edge %s has new metric %s instead of %r (method %s, minimum %s)" % (it, x[0], x[2], new[int(x[0])], euler, minimum))
        workload = {e[0]: new[e[0]] for e in net.edges}
        ctx.count("updates_compared")
        ctx.count("updates_by_averaging" if euler is None else "updates_by_correction")
        if any(e[4] is not None for e in cur.edges):
            ctx.count("updates_with_shortcuts")
        ctx.count("new_metrics_compared", len(workload))
        ctx.seen(it, cur.edges, got)
    if expected_error == "maybe":
        ctx.count("doubtful_ends")
    elif expected_error:
        expect_failure(r, expected_error)
        ctx.count("failing_helpers" if fail else "refused: " + expected_error)
    else:
        expect_success(r, "balancing")
        ctx.count("finished_runs")
        with open(os.path.join(d, "calls")) as f:
            calls = f.read().split("\n")
        dims = [re.search(r"GRAPH_DIM=(\d+)", x)[1] for x in calls if "GRAPH_DIM" in x]
        need(dims == ["2"] + ["3"] * updates, "the contraction was called with dimensions %s" % dims)
        need(open(os.path.join(d, "c.yaml")).read() == open(os.path.join(res, "c.yaml")).read(), "the config wasn't copied")
        need(open(os.path.join(d, "p.route-pairs")).read() == open(os.path.join(res, "p.route-pairs")).read(), "the route-pairs weren't copied")
    # once more, but one of the files doesn't get its place
    if not expected_error and rng.random() < 0.35:
        files = sorted(os.path.join(root, f) for root, _, fs in os.walk(res) for f in fs if f != "graph.ch.fmi")
        sizes = {os.path.relpath(f, res): os.path.getsize(f) for f in files if os.path.getsize(f)}
        shutil.rmtree(os.path.join(d, "results"))
        if rng.random() < 0.5:
            r = run(ctx, d, ["-c", "c.yaml", "--balancing"], env, fsize=rng.randrange(rng.choice(sorted(set(sizes.values())))))
            expect_failure(r, "not all of the balancer's files could be written")
            ctx.count("refused: fault writing results")
        else:
            # the files of an iteration have the same names, so one of the names is chosen first
            name = rng.choice(sorted({os.path.basename(f) for f in sizes}))
            file = rng.choice(sorted(f for f in sizes if os.path.basename(f) == name))
            at = rng.randrange(sizes[file])
            r, hit = run_full(ctx, d, ["-c", "c.yaml", "--balancing"], file, at, env)
            if hit:
                expect_failure(r, "only %d of %d bytes of %s found place" % (at, sizes[file], file))
                ctx.count("refused: fault writing " + name)
            else:
                expect_success(r, "balancing")
    # once more, but the folder of this second has been taken by another run
    if not expected_error and rng.random() < 0.1:
        res = os.path.join(d, "results")
        shutil.rmtree(res)
        now = time.time()
        for s in range(-1, 20):
            taken = os.path.join(res, time.strftime("utc_%Y-%m-%d_%H-%M-%S", time.gmtime(now + s)))
            os.makedirs(os.path.join(taken, "0"))
            for f in ("c.yaml", "p.route-pairs", "0/cfg.yaml", "0/graph.fmi"):
                with open(os.path.join(taken, f), "w") as o:
                    o.write("of another run\n")
        before = snapshot(res)
        r = run(ctx, d, ["-c", "c.yaml", "--balancing"], env)
        after = snapshot(res)
        for f, old in before.items():
            need(after.get(f, 0) == old, "balancing twice in the same second: %s of the first run was changed or removed" % f)
        if r.code == 0:
            need(any(x not in before for x in os.listdir(res)), "balancing succeeded without results")
        ctx.count("results of other runs kept")
    if updates > 9:
        ctx.count("runs_with_ten_or_more_updates")
    ctx.sample("%d nodes, %d edges, %d pairs, %s, %d updates, correction %s, minimum %s" % (len(net.nodes), len(net.edges), len(lines), algo, updates, euler, minimum))


def update(net, got, it, euler, minimum, throw, num):
    """The documented rule. Returns ({id: new metric}, error)"""
    w = [float(got.get(e[0], 0)) for e in net.edges]
    mean = sum(w) / num
    if abs(mean) < 1.5e-6:
        return None, "the workloads' mean is zero"
    new = []
    for e, x in zip(net.edges, w):
        old = e[3][2]
        x /= mean
        new.append((it * old + x) / (it + 1) if euler is None else old + (x - old) * euler)
    if minimum is not None:
        new = [max(minimum, x) if not abs(x - minimum) < 1.5e-6 else minimum for x in new]
    elif throw is not False and min(new) < 1.4e-6:
        return None, "the new metric has zeros"
    mean = sum(new) / num
    if mean < 1.4e-6:
        return None, "the new metric's mean is zero"
    return {e[0]: x / mean for e, x in zip(net.edges, new)}, None


# -------------------------------------------------------------------------------------------------

# -------------------------------------------------------------------------------------------------
# Z01


def rows_of(nodes_or_edges, cols, value):
    return sorted(" ".join(value(x, c) for c in cols) for x in nodes_or_edges)


def same_number_rows(got, want, what):
    """Rows of texts; numbers may be written differently"""
    def key(r):
        return [float(x) if re.match(r"^-?[0-9.]+(e-?[0-9]+)?$", x) else x for x in r]

    got, want = sorted(map(key, got), key=repr), sorted(map(key, want), key=repr)
    need(len(got) == len(want), "%s: %d rows instead of %d" % (what, len(got), len(want)))
    for a, b in zip(got, want):
        need(len(a) == len(b) and all(x == y or (isinstance(x, float) and isinstance(y, float) and close(x, y, 1e-9)) for x, y in zip(a, b)),
             "%s: row %s instead of %s" % (what, a, b))


def read_rows(path):
    with open(path) as f:
        t = f.read()
    need(t.endswith("\n"), "%s doesn't end with a newline" % path)
    return [x.split(" ") for x in t.split("\n")[:-1] if x and not x.startswith("#")]


def node_value(net):
    return lambda i, c: {"node-id": str(i), "latitude": repr(net.coords[i][0]), "longitude": repr(net.coords[i][1]), "ch-level": str(net.levels[i]) if net.levels else None}[c]


def edge_value(net):
    def f(e, c):
        if c[0] == "m" and c[1:].isdigit():
            return repr(stored(e[3][int(c[1:])]))
        return {"edge-id": str(e[0]), "src-id": str(e[1]), "dst-id": str(e[2])}[c]

    return f


def case_z01(ctx, rng):
    d = ctx.dir
    fresh(d)
    gpl = rng.random() < 0.5
    binary = ctx.bin if gpl else os.path.join(os.path.dirname(ctx.bin), "osmgraphing-plain")
    contracted = rng.random() < 0.4
    net = make_net(rng, rng.choice([4, 9, 14]), contracted=contracted, ties=rng.random() < 0.4)
    write_fmi(os.path.join(d, "g.fmi"), net)
    used = net.used()
    algo = "CHDijkstra" if contracted and rng.random() < 0.6 else "Dijkstra"
    considered = rng.sample(range(net.dim), rng.randint(1, net.dim))
    alphas = [float(rng.choice([1, 2, 3])) if k in considered else 0.0 for k in range(net.dim)]
    explored = gpl and rng.random() < 0.3
    if explored:
        alphas = [1.0 if x else 0.0 for x in alphas]
    lines = [(rng.choice(used), rng.choice(used), rng.choice([0, 1, 1, 5])) for _ in range(rng.choice([0, 1, 5, 20]))]
    write_pairs(os.path.join(d, "p.route-pairs"), lines)

    flags = {f for f in ("graph", "edges", "pairs", "routing") if rng.random() < 0.5}
    if gpl and not explored and rng.random() < 0.25:
        flags.discard("routing")
        flags.add("evaluating")
    smarts = "evaluating" in flags and rng.random() < 0.4
    results = {"res/abs_workloads.csv", "res/edges-info.csv"} | ({"res/smarts.xml"} if smarts else set())
    targets = {"graph": "out.fmi", "edges": "out.csv", "pairs": "out.route-pairs"}
    if rng.random() < 0.3:
        os.makedirs(os.path.join(d, "sub"))
        targets = {k: "sub/" + v for k, v in targets.items()}
    # the exported pairs may be the ones to be routed
    own_pairs = "pairs" in flags and rng.random() < 0.4
    with_sc = {"graph": contracted and rng.random() < 0.6, "edges": contracted and rng.random() < 0.6}
    ncols = ["node-id", "latitude", "longitude"] + (["ch-level"] if contracted else [])
    ecols = ["edge-id", "src-id", "dst-id"] + ["m%d" % k for k in range(net.dim)]
    cols = list(ecols)
    rng.shuffle(cols)
    cols = cols[: rng.randint(1, len(cols))]
    max_count = rng.choice([0, 1, 3, 10, 10 ** 4])
    full = "Explorator:" + algo if explored else algo

    sections = {}
    sections["parsing"] = parsing_yaml(net, "g.fmi")
    sections["routing"] = routing_yaml(full, {"m%d" % k: alphas[k] for k in considered}, targets["pairs"] if own_pairs else "p.route-pairs")
    w = {}
    w["graph"] = "  graph:\n    map-file: '%s'\n    nodes:\n%s    edges:\n      with_shortcuts: %s\n      ids:\n%s" % (
        targets["graph"], "".join("    - id: '%s'\n" % c for c in ncols), str(with_sc["graph"]).lower(), "".join("      - id: '%s'\n" % c for c in ecols))
    w["edges"] = "  edges-info:\n    file: '%s'\n    with_shortcuts: %s\n    ids:\n%s" % (
        targets["edges"], str(with_sc["edges"]).lower(), "".join("    - id: '%s'\n" % c for c in cols))
    w["pairs"] = "  route-pairs:\n    file: '%s'\n    random_or_all: { seed: %d, max_count: %d }\n" % (targets["pairs"], rng.randint(0, 99), max_count)
    sections["evaluating"] = "evaluating_balance:\n  results-dir: 'res'\n  number_of_threads: 2\n  monitoring:\n%s    edges-info:\n      file: 'edges-info.csv'\n      ids:\n      - id: 'edge-id'\n" % (
        "    export_vehicles_for_SMARTS: true\n" if smarts else "")

    # what's wrong?
    spoil = None
    args_extra, omit, fsize, cfg_name = [], None, None, "c.yaml"
    existing = []
    if rng.random() < 0.55:
        options = ["unknown flag", "no config", "missing config", "wrong extension", "garbage config", "missing map", "broken map", "bad log-level", "unrequested"]
        for f in ("graph", "edges", "pairs"):
            if f in flags:
                options += ["existing target", "missing folder", "write-fault", "missing section " + f]
        if flags & {"routing", "evaluating"} and not own_pairs:
            options += ["unknown node", "missing pairs", "broken pairs"]
        if flags & {"routing", "evaluating", "pairs"}:
            options += ["missing section routing", "unknown metric"]
        if "evaluating" in flags:
            options += ["existing result", "missing section evaluating", "fault writing results", "results-folder is a file", "unknown monitored column"]
        if flags & {"graph", "edges"}:
            options += ["unknown column"]
        if not gpl:
            options += ["no feature"] * 3
        spoil = rng.choice(options)
    req = [f for f in ("graph", "edges", "pairs") if f in flags]
    hurt = rng.choice(req) if req else None
    if spoil == "existing target":
        existing = [targets[hurt]]
    elif spoil == "unrequested":
        # targets of what isn't requested do exist
        existing = [targets[f] for f in ("graph", "edges", "pairs") if f not in flags]
        for f in ("graph", "edges", "pairs"):
            if f not in flags and rng.random() < 0.5:
                del w[f]
    elif spoil == "missing folder":
        for k in sections:
            sections[k] = sections[k].replace("'%s'" % targets[hurt], "'nowhere/x/%s'" % targets[hurt])
        w[hurt] = w[hurt].replace("'%s'" % targets[hurt], "'nowhere/x/%s'" % targets[hurt])
    elif spoil == "unknown flag":
        args_extra = [rng.choice(["--unknown", "--writing_graphs", "-x", "positional"])]
    elif spoil == "bad log-level":
        args_extra = ["--log", "loud"]
    elif spoil == "missing config":
        cfg_name = "missing.yaml"
    elif spoil == "wrong extension":
        cfg_name = rng.choice(["c.txt", "c", "c.yaml.old"])
    elif spoil == "garbage config":
        sections["parsing"] = rng.choice(["parsing: [\n", "", "parsing:\n  map-file: 5\n  nodes: 7\n", "\x00\x01"])
    elif spoil == "missing map":
        sections["parsing"] = sections["parsing"].replace("g.fmi", "h.fmi")
    elif spoil == "broken map":
        t = open(os.path.join(d, "g.fmi")).read().split("\n")
        k = 5 + len(net.nodes) + rng.randrange(len(net.edges))  # an edge
        x = t[k].split(" ")
        t[k] = rng.choice([" ".join(x[:2]), " ".join([x[0], "abc"] + x[2:]), " ".join(x[:2] + ["1.5"] + x[3:]), " ".join(x[:3] + ["-1"] + x[4:])])
        open(os.path.join(d, "g.fmi"), "w").write("\n".join(t))
    elif spoil and spoil.startswith("missing section "):
        name = spoil[16:]
        (w if name in w else sections).pop(name)
    elif spoil == "unknown node":
        bad = list(lines)
        k = rng.randint(0, len(bad))
        bad.insert(k, (max(net.nodes) + 1, used[0], 1) if rng.random() < 0.5 else (used[0], -5, 1))
        write_pairs(os.path.join(d, "p.route-pairs"), bad)
    elif spoil == "missing pairs":
        os.remove(os.path.join(d, "p.route-pairs"))
    elif spoil == "broken pairs":
        open(os.path.join(d, "p.route-pairs"), "w").write(rng.choice(["", "2\n%d %d 1\n" % (used[0], used[0]), "1\n%d %d\n" % (used[0], used[0]), "1\na b 1\n"]))
    elif spoil == "unknown metric":
        sections["routing"] = sections["routing"].replace("'m%d'" % considered[0], "'mm'")
    elif spoil == "existing result":
        os.makedirs(os.path.join(d, "res"))
        existing = [rng.choice(["res/abs_workloads.csv", "res/edges-info.csv", "res/smarts.xml"])]
    elif spoil == "results-folder is a file":
        existing = ["res"]
    elif spoil == "unknown monitored column":
        sections["evaluating"] += "      - id: 'm99'\n"
    elif spoil == "unknown column":
        f = rng.choice(sorted(flags & {"graph", "edges"}))
        if f == "graph" and rng.random() < 0.5:
            w[f] = w[f].replace("- id: 'latitude'", "- id: 'altitude'")
        else:
            w[f] += "      - id: 'm99'\n" if f == "graph" else "    - id: 'm99'\n"
    elif spoil == "no feature":
        how = rng.choice(["--balancing", "--evaluating_balance", "algorithm"])
        if how == "algorithm":
            if flags & {"routing", "pairs"}:
                sections["routing"] = sections["routing"].replace("algorithm: '%s'" % full, "algorithm: { Explorator: { algo: '%s' } }" % algo)
            else:
                how = "--balancing"
        if how != "algorithm":
            args_extra = [how]
    for f in existing:
        with open(os.path.join(d, f), "w") as o:
            o.write(rng.choice(["", "old content\n", "x" * 100000]))
    order = list(sections)
    rng.shuffle(order)
    y = "".join(sections[k] for k in order) + ("writing:\n" + "".join(w[k] for k in w) if w else "")
    with open(os.path.join(d, cfg_name if cfg_name != "missing.yaml" else "c.yaml"), "w") as f:
        f.write(y)
    names = {"graph": "--writing_graph", "edges": "--writing_edges", "pairs": "--writing_route-pairs", "routing": "--routing", "evaluating": "--evaluating_balance"}
    args = [names[f] for f in flags] + args_extra
    rng.shuffle(args)
    if "--log" in args:  # keep its value behind it
        args = [x for x in args if x not in ("--log", "loud")] + ["--log", "loud"]
    level = "INFO"
    if "--log" not in args and rng.random() < 0.5:
        level = rng.choice(["TRACE", "DEBUG", "INFO", "WARN", "ERROR"])
        args += [rng.choice(["--log", "-l"]), level if rng.random() < 0.5 else level.lower()]
    if spoil != "no config":
        at = [rng.choice(["--config", "-c"]), cfg_name]
        args = at + args if rng.random() < 0.5 else args + at
    before = snapshot(d)
    if spoil in ("write-fault", "fault writing results"):
        # how long is the file going to be?
        probe = run(ctx, d, args, binary=binary)
        expect_success(probe, "the program %s" % args)
        file = targets[hurt] if spoil == "write-fault" else rng.choice(sorted(results))
        size = os.path.getsize(os.path.join(d, file))
        after = snapshot(d)
        for p in sorted(set(after) - set(before), reverse=True):
            q = os.path.join(d, p)
            os.rmdir(q) if os.path.isdir(q) else os.remove(q)
        fsize = rng.randrange(0, max(1, size))
    if fsize is not None and size and rng.random() < 0.5:
        # only this file is hurt
        r, hit = run_full(ctx, d, args, file, fsize, binary=binary)
        if not hit:
            # written in another way
            after = snapshot(d)
            for p in sorted(set(after) - set(before), reverse=True):
                q = os.path.join(d, p)
                os.rmdir(q) if os.path.isdir(q) else os.remove(q)
            r = run(ctx, d, args, fsize=fsize, binary=binary)
        else:
            ctx.count("a chosen file finds no place")
    else:
        r = run(ctx, d, args, fsize=fsize, binary=binary)
    after = snapshot(d)
    what = "%s with %s" % (args, spoil or "nothing wrong")
    for p, old in before.items():
        need(p in after and after[p] == old, "%s: %s was changed or removed" % (what, p))
    new = set(after) - set(before)
    requested = {targets[f] for f in req}
    if "evaluating" in flags:
        requested |= {"res"} | results
    need(new <= requested, "%s: files %s were written, but nobody asked for them" % (what, sorted(new - requested)))

    fine = spoil is None or spoil == "unrequested"
    if not fine:
        expect_failure(r, what)
        ctx.count("refused: " + spoil)
        ctx.seen(spoil, sorted(flags), gpl, net.edges)
        return
    expect_success(r, what)
    need(new == requested, "%s: %s weren't written" % (what, sorted(requested - new)))
    ctx.count("succeeded")
    ctx.sample("%s on %d nodes, %d edges, %s, %s" % (args, len(net.nodes), len(net.edges), full, spoil or "intact"))
    ctx.count("succeeded with unrequested targets" if spoil else "succeeded plainly")
    ctx.seen(sorted(flags), gpl, net.edges, full)
    by = {True: net.edges, False: net.originals}
    if "graph" in flags:
        got = read_rows(os.path.join(d, targets["graph"]))
        es = by[with_sc["graph"]]
        need([x[0] for x in got[:3]] == [str(net.dim), str(len(used)), str(len(es))], "%s: wrong counts %s" % (what, got[:3]))
        same_number_rows(got[3:3 + len(used)], [[node_value(net)(i, c) for c in ncols] for i in used], "nodes")
        same_number_rows(got[3 + len(used):], [[edge_value(net)(e, c) for c in ecols] for e in es], "edges")
        ctx.count("exported graphs compared")
    if "edges" in flags:
        got = read_rows(os.path.join(d, targets["edges"]))
        need(got[0] == cols, "header %s instead of %s" % (got[0], cols))
        same_number_rows(got[1:], [[edge_value(net)(e, c) for c in cols] for e in by[with_sc["edges"]]], "edges")
        ctx.count("exported edges compared")
    to = all_dist(net.edges, alphas, used)
    if "pairs" in flags:
        got = read_rows(os.path.join(d, targets["pairs"]))
        n = int(got[0][0])
        got = [tuple(int(x) for x in g) for g in got[1:]]
        need(len(got) == n, "%s: %d pairs, but %d are promised" % (what, len(got), n))
        for g in got:
            need(len(g) == 3 and g[0] != g[1] and g[1] in to[g[0]] and g[2] == 1, "exported pair %s" % (g,))
        have = {g[:2] for g in got}
        need(len(have) == len(got), "a pair was exported twice")
        possible = {(s, t) for s in used for t in to[s] if s != t}
        if max_count >= len(used) ** 2:
            need(have == possible, "not all possible pairs were exported")
        need(len(have) <= max_count, "%d pairs instead of at most %d were exported" % (len(have), max_count))
        ctx.count("exported pairs compared")
        if own_pairs:
            lines = got
    if "routing" in flags:
        check_log(ctx, r, level, net, lines, alphas, considered, to, explored)
        if "graph" in flags and spoil is None and not contracted and level in ("INFO", "DEBUG", "TRACE"):
            # routing on the exported graph is the same
            y2 = parsing_yaml(net, targets["graph"]) + sections["routing"]
            with open(os.path.join(d, "c2.yaml"), "w") as f:
                f.write(y2)
            r2 = run(ctx, d, ["-c", "c2.yaml", "--routing"], binary=binary)
            expect_success(r2, "routing on the exported graph")
            check_log(ctx, r2, "INFO", net, lines, alphas, considered, to, explored)
            ctx.count("routing on exported graphs")
    else:
        need(not COSTS.search(r.text) and not NONE.search(r.text), "%s: routes were reported, though nobody asked" % what)
    if "evaluating" in flags:
        got = workloads(os.path.join(d, "res/abs_workloads.csv"), net, False)
        check_routes(ctx, net, alphas, lines, got, False, None)
        ctx.count("evaluations compared")


def check_log(ctx, r, level, net, lines, alphas, considered, to, explored):
    costs = [(int(m[2]), int(m[3]), numbers(m[1])) for m in COSTS.finditer(r.text)]
    none = [(int(m[1]), int(m[2])) for m in NONE.finditer(r.text)]
    want_none = [(s, t) for s, t, _ in lines if t not in to[s]]
    want = [(s, t) for s, t, _ in lines if t in to[s]]
    if level == "ERROR":
        return
    need(none == want_none, "pairs reported to have no path: %s instead of %s" % (none, want_none))
    ctx.count("reported to have no path", len(none))
    if level == "WARN":
        return
    if explored:
        got = {}
        for m in EXPLORED.finditer(r.text):
            got.setdefault((int(m[1]), int(m[2])), []).append(numbers(m[3]))
        need(set(got) == set(want), "explored pairs %s instead of %s" % (sorted(got), sorted(set(want))))
        for (s, t), cs in got.items():
            best = min(sum(a * x for a, x in zip(alphas, c)) for c in cs)
            need(close(best, to[s][t], 1e-9), "best explored path from %d to %d costs %r instead of %r" % (s, t, best, to[s][t]))
            ctx.count("explored pairs reported")
        return
    need([c[:2] for c in costs] == want, "pairs reported with costs: %s instead of %s" % ([c[:2] for c in costs], want))
    for s, t, c in costs:
        need(len(c) == net.dim, "costs %s of a graph with %d metrics" % (c, net.dim))
        x = sum(a * y for a, y in zip(alphas, c))
        need(close(x, to[s][t], 1e-9), "reported costs %s from %d to %d with weights %s are %r, but the best path's are %r" % (c, s, t, alphas, x, to[s][t]))
    ctx.count("reported costs compared", len(costs))


def case_h01(ctx, rng):
    """The program wrapping the contraction, and the whole way from a map over its contraction to routes"""
    d = ctx.dir
    fresh(d)
    binary = os.path.join(os.path.dirname(ctx.bin), "multi-ch-constructor")
    net = make_net(rng, rng.choice([3, 6, 12]), ties=False)
    write_fmi(os.path.join(d, "g.fmi"), net)
    used = net.used()
    os.makedirs(os.path.join(d, "externals", "multi-ch-constructor", "build"))
    tool = os.path.join(d, "externals", "multi-ch-constructor", "build", "multi-ch")
    shutil.copy(os.path.join(STANDIN, "multi-ch"), tool)
    os.makedirs(os.path.join(d, "bin"))
    shutil.copy(os.path.join(STANDIN, "cmake"), os.path.join(d, "bin", "cmake"))
    if rng.random() < 0.3:
        os.makedirs(os.path.join(d, "a folder"))
        plain, contracted = "a folder/for ch.fmi", "a folder/x.ch.fmi"
    else:
        plain, contracted = "for_ch.fmi", "x.ch.fmi"

    # exporting what the tool needs
    osm_ids, edge_ids = rng.random() < 0.6, rng.random() < 0.6
    y = parsing_yaml(net, "g.fmi", rng.choice([None, False]), ["meta: { info: 'SrcIdx', id: 'src-idx' }", "meta: { info: 'DstIdx', id: 'dst-idx' }"],
                     ["meta: { info: 'NodeIdx', id: 'node-idx' }"])
    y += "writing:\n  graph:\n    map-file: '%s'\n    nodes:\n    - id: 'node-idx'\n    - id: 'node-id'\n    - id: 'latitude'\n    - id: 'longitude'\n" % plain
    y += "    - ignored\n    - ignored\n    edges:\n      with_shortcuts: false\n      ids:\n" + ("      - id: 'edge-id'\n" if edge_ids else "")
    y += "      - id: 'src-idx'\n      - id: 'dst-idx'\n" + "".join("      - id: 'm%d'\n" % k for k in range(net.dim)) + "      - ignored\n      - ignored\n"

    section = {"fmi-graph": "'%s'" % plain, "contracted-graph": "'%s'" % contracted, "dimension": str(net.dim),
               "is_printing_osm-ids": str(osm_ids).lower(), "is_using_external_edge-ids": str(edge_ids).lower()}
    accuracy, ratio, threads = 0.0001, "99.8", 4
    if rng.random() < 0.6:
        accuracy = rng.choice([0.000001, 0.5, 1.0, 0.1, 2.5e-7, 0.00012, 1e-12, 3.0])
        section["cost-accuracy"] = repr(accuracy)
    if rng.random() < 0.6:
        ratio = rng.choice(["99.8", "99", "50", "100", "0", "0.5", "99.85", "12.125"])
        section["contraction-ratio"] = "'%s'" % ratio
    if rng.random() < 0.6:
        threads = rng.choice([1, 2, 4, 7, 64])
        section["number_of_threads"] = str(threads)
    if rng.random() < 0.3:
        section["minimum-cost"] = "0.000001"

    env = {"PATH": os.path.join(d, "bin") + ":" + os.environ.get("PATH", "/usr/bin:/bin"), "VMON_STANDIN": STANDIN, "VMON_CALLS": os.path.join(d, "calls"),
           "VMON_CH_SEED": str(rng.randint(0, 10 ** 6)), "VMON_CH_MAX": str(rng.choice([0, 5, 60, 200])), "PYTHONDONTWRITEBYTECODE": "1", "VMON_CHECK_DIM": "1"}
    spoil = None
    steps = 3  # which are started
    args, cfg_name, omit = [], "c.yaml", False
    if rng.random() < 0.6:
        spoil = rng.choice([
            "unknown key", "no section", "missing key", "wrong type", "no config", "missing config", "wrong extension", "garbage config", "bad log-level", "unknown flag",
            "no tool's folder", "no cmake", "cmake", "cmake-killed", "cmake-build", "multi-ch", "multi-ch-killed", "multi-ch-late", "no multi-ch", "missing graph", "wrong dimension",
            "existing target", "missing folder"])
    if spoil == "unknown key":
        section[rng.choice(["contraction-rato", "cost_accuracy", "number-of-threads", "is_printing_osm_ids", "dim"])] = "4"
        steps = 0
    elif spoil == "missing key":
        section.pop(rng.choice(["fmi-graph", "contracted-graph", "dimension", "is_printing_osm-ids", "is_using_external_edge-ids"]))
        steps = 0
    elif spoil == "wrong type":
        k = rng.choice(["dimension", "number_of_threads", "is_printing_osm-ids", "is_using_external_edge-ids", "cost-accuracy", "contracted-graph"])
        section[k] = rng.choice(["'abc'", "[1]", "-1.5"]) if k not in ("contracted-graph", "cost-accuracy") else "[1]"
        steps = 0
    elif spoil in ("cmake", "cmake-killed", "cmake-build", "multi-ch", "multi-ch-killed", "multi-ch-late"):
        env["VMON_FAIL"] = spoil
        steps = {"cmake": 1, "cmake-killed": 1, "cmake-build": 2}.get(spoil, 3)
    elif spoil == "no tool's folder":
        shutil.rmtree(os.path.join(d, "externals"))
        steps = 0
    elif spoil == "no cmake":
        os.remove(os.path.join(d, "bin", "cmake"))
        env["PATH"] = os.path.join(d, "bin")
        steps = 0
    elif spoil == "no multi-ch":
        os.remove(tool)
        steps = 2
    elif spoil == "wrong dimension":
        section["dimension"] = str(net.dim + rng.choice([1, 2]))
    elif spoil == "missing graph":
        omit = True
    elif spoil == "existing target":
        os.makedirs(os.path.dirname(os.path.join(d, contracted)), exist_ok=True)
        with open(os.path.join(d, contracted), "w") as f:
            f.write(rng.choice(["", "old\n"]))
    elif spoil == "missing folder":
        section["contracted-graph"] = "'nowhere/x.ch.fmi'"
    keys = list(section)
    rng.shuffle(keys)
    text = "multi-ch-constructor:\n" + "".join("  %s: %s\n" % (k, section[k]) for k in keys)
    if spoil == "no section":
        text = "other: 5\n"
        steps = 0
    # the config may be shared with other sections
    text = y + text if rng.random() < 0.5 else text + y
    if spoil == "garbage config":
        text, steps = rng.choice(["", "multi-ch-constructor: [\n", "multi-ch-constructor: 5\n"]), 0
    if spoil == "wrong extension":
        cfg_name = rng.choice(["c.txt", "c", "c.yaml.old", "c.yml"])
    with open(os.path.join(d, cfg_name), "w") as f:
        f.write(text)
    with open(os.path.join(d, "write.yaml"), "w") as f:
        f.write(y)
    if not omit:
        r = run(ctx, d, ["-c", "write.yaml", "--writing_graph"])
        expect_success(r, "exporting for the contraction")
        nodes, edges = read_map(os.path.join(d, plain), ["idx", "id", "lat", "lon", "h", "l"],
                                (["id"] if edge_ids else []) + ["s", "d"] + ["m%d" % k for k in range(net.dim)] + ["a", "b"])
        need([int(x["idx"]) for x in nodes] == list(range(len(used))), "nodes aren't exported in order of their indices")
        need(sorted(int(x["id"]) for x in nodes) == used, "other nodes were exported")
        at = {int(x["idx"]): int(x["id"]) for x in nodes}

        def key(e):
            return (e[0], e[1], tuple(e[2]))
        need(sorted(key((at[int(x["s"])], at[int(x["d"])], [float(x["m%d" % k]) for k in range(net.dim)])) for x in edges)
             == sorted(key(e[1:4]) for e in net.edges), "other edges were exported for the contraction")
        ctx.count("exports_for_the_contraction")
    if spoil != "no config":
        args = [rng.choice(["-c", "--config"]), "missing.yaml" if spoil == "missing config" else cfg_name]
    if spoil == "bad log-level":
        args += ["--log", "loud"]
    elif rng.random() < 0.3:
        args += ["-l", rng.choice(["warn", "INFO", "Debug"])]
    if spoil == "unknown flag":
        args += [rng.choice(["--routing", "--unknown", "x"])]
    if spoil in ("no config", "missing config", "wrong extension", "bad log-level", "unknown flag"):
        steps = 0
    before = snapshot(d)
    r = run(ctx, d, args, env, binary=binary)
    after = snapshot(d)
    what = "contracting with %s" % (spoil or "nothing wrong")
    calls = after.pop("calls", b"").decode().split("\n")[:-1]
    after.pop("externals/multi-ch-constructor/build/dim", None)
    for p, old in before.items():
        need(p in after and after[p] == old, "%s: %s was changed or removed" % (what, p))
    need(set(after) - set(before) <= {contracted}, "%s: unexpected files %s" % (what, sorted(set(after) - set(before))))
    # what was told to the tools?
    need(len(calls) == steps, "%s: %d instead of %d helping programs were started: %s" % (what, len(calls), steps, calls))
    folder = os.path.realpath(os.path.join(d, "externals", "multi-ch-constructor"))
    if steps > 0:
        a, _, where = calls[0].partition(" @ ")
        a = a.split(" ")
        need(where == folder and a[:1] == ["cmake"], "%s: %s" % (what, calls[0]))
        need("-Bbuild" in a or ("-B" in a and a[a.index("-B") + 1] == "build"), "%s: cmake's folder isn't told: %s" % (what, a))
        defs = {}
        for k, x in enumerate(a):
            x = a[k + 1] if x == "-D" and k + 1 < len(a) else x[2:] if x.startswith("-D") else None
            if x:
                n, _, v = x.partition("=")
                need(n not in defs, "%s: defined twice: %s" % (what, a))
                defs[n.partition(":")[0]] = v
        need(defs.get("GRAPH_DIM") == section["dimension"], "%s: dimension %s, but cmake is told %s" % (what, section["dimension"], a))
        need("COST_ACCURACY" in defs and float(defs["COST_ACCURACY"]) == accuracy, "%s: accuracy %r, but cmake is told %s" % (what, accuracy, a))
        ctx.count("builds_of_the_tool_compared")
    if steps > 1:
        need(calls[1] == "cmake --build build @ " + folder, "%s: %s" % (what, calls[1]))
    if steps > 2:
        need(calls[2].startswith("multi-ch "), calls[2])
        a = [x for x in ast.literal_eval(calls[2][9:]) if x]
        got, flags = {}, []
        while a:
            x = a.pop(0)
            if x in ("--threads", "--text", "--percent", "--write"):
                need(x not in got and a, "%s: %s" % (what, calls[2]))
                got[x] = a.pop(0)
            else:
                flags.append(x)
        tell = {"--threads": str(threads), "--text": section["fmi-graph"][1:-1], "--percent": ratio, "--write": section["contracted-graph"][1:-1]}
        need(got == tell, "%s: the constructor is told %s instead of %s" % (what, got, tell))
        need(sorted(flags) == ["--external-edge-ids"] * edge_ids + ["--using-osm-ids"] * osm_ids, "%s: flags %s" % (what, flags))
        ctx.count("constructions_compared")
    if spoil:
        expect_failure(r, what)
        ctx.count("refused: " + spoil)
        ctx.seen(spoil, net.edges, osm_ids, edge_ids)
        return
    expect_success(r, what)
    ctx.count("contracted")
    ctx.seen(net.edges, osm_ids, edge_ids, ratio)
    # routing on it
    name = (lambda i: i) if osm_ids else {v: k for k, v in at.items()}.get
    lines = [(rng.choice(used), rng.choice(used), 1) for _ in range(rng.choice([5, 20]))]
    alphas = [float(rng.choice([1, 2, 3, 0])) for _ in range(net.dim)]
    alphas = alphas if any(alphas) else [1.0] * net.dim
    moved = Net()
    moved.dim = net.dim
    moved.edges = [(i, name(s), name(t), m, a, b) for i, s, t, m, a, b in net.edges]
    moved.nodes = moved.used()
    lines = [(name(s), name(t), n) for s, t, n in lines]
    write_pairs(os.path.join(d, "p.route-pairs"), lines)
    y = "parsing:\n  map-file: '%s'\n  nodes:\n" % contracted
    nid = ["  - meta: { info: 'NodeId', id: 'node-id' }\n", "  - ignored\n"]
    y += "".join(reversed(nid) if osm_ids else nid)
    y += "  - metric: { unit: 'Latitude', id: 'latitude' }\n  - metric: { unit: 'Longitude', id: 'longitude' }\n  - ignored\n  - meta: { info: 'CHLevel', id: 'ch-level' }\n"
    y += "  edges:\n    data:\n" + ("    - meta: { info: 'EdgeId', id: 'edge-id' }\n" if edge_ids else "")
    y += "    - meta: { info: 'SrcId', id: 'src-id' }\n    - meta: { info: 'DstId', id: 'dst-id' }\n"
    y += "".join("    - metric: { unit: 'F64', id: 'm%d' }\n" % k for k in range(net.dim))
    y += "    - meta: { info: 'ShortcutIdx0', id: 'sc-idx-0' }\n    - meta: { info: 'ShortcutIdx1', id: 'sc-idx-1' }\n"
    to = all_dist(moved.edges, alphas, moved.used())
    for algo in ("CHDijkstra", "Dijkstra"):
        with open(os.path.join(d, "route.yaml"), "w") as f:
            f.write(y + routing_yaml(algo, {"m%d" % k: x for k, x in enumerate(alphas) if x}, "p.route-pairs"))
        r = run(ctx, d, ["-c", "route.yaml", "--routing"])
        expect_success(r, "routing on the contracted map by %s" % algo)
        check_log(ctx, r, "INFO", moved, lines, alphas, None, to, False)
        ctx.count("routed by " + algo)
    with open(os.path.join(d, contracted)) as f:
        if any(not x.endswith(" -1 -1") for x in f.read().split("\n")[3 + len(used):-1]):
            ctx.count("routing_on_maps_with_shortcuts")
    ctx.sample("%d nodes, %d edges, ids of nodes %s, of edges %s, ratio %s" % (len(used), len(net.edges), osm_ids, edge_ids, ratio))


# -------------------------------------------------------------------------------------------------
# W03, W04, W05: exports of the whole program


class Setup:
    """A map, and a config for all exports. Targets may be changed before calling `write`."""

    FLAGS = {"graph": "--writing_graph", "edges": "--writing_edges", "pairs": "--writing_route-pairs", "evaluating": "--evaluating_balance"}
    RESULTS = ("abs_workloads.csv", "edges-info.csv", "smarts.xml")

    def __init__(self, ctx, rng, smarts, threads):
        d = self.dir = ctx.dir
        fresh(d)
        self.contracted = rng.random() < 0.4
        self.net = net = make_net(rng, rng.choice([4, 9, 14]), contracted=self.contracted)
        write_fmi(os.path.join(d, "g.fmi"), net)
        used = net.used()
        self.alphas = [float(rng.choice([1, 2, 3])) for _ in range(net.dim)]
        self.lines = [(rng.choice(used), rng.choice(used), rng.choice([0, 1, 1, 5])) for _ in range(rng.choice([1, 5, 20]))]
        write_pairs(os.path.join(d, "p.route-pairs"), self.lines)
        self.algo = "CHDijkstra" if self.contracted and rng.random() < 0.5 else "Dijkstra"
        self.smarts, self.threads = smarts, threads
        self.targets = {"graph": "out.fmi", "edges": "out.csv", "pairs": "out.route-pairs"}
        self.results_dir = "res"
        self.with_sc = rng.random() < 0.5
        self.max_count = rng.choice([3, 10, 10 ** 4])
        self.seed = rng.randint(0, 99)

    def write(self, name="c.yaml"):
        net, t = self.net, self.targets
        ecols = ["edge-id", "src-id", "dst-id"] + ["m%d" % k for k in range(net.dim)]
        ncols = ["node-id", "latitude", "longitude"] + (["ch-level"] if self.contracted else [])
        y = parsing_yaml(net, "g.fmi") + routing_yaml(self.algo, {"m%d" % k: a for k, a in enumerate(self.alphas)}, "p.route-pairs")
        sc = str(self.with_sc and self.contracted).lower()
        y += "writing:\n  graph:\n    map-file: '%s'\n    nodes:\n%s    edges:\n      with_shortcuts: %s\n      ids:\n%s" % (
            t["graph"], "".join("    - id: '%s'\n" % c for c in ncols), sc, "".join("      - id: '%s'\n" % c for c in ecols))
        y += "  edges-info:\n    file: '%s'\n    with_shortcuts: %s\n    ids:\n%s" % (t["edges"], sc, "".join("    - id: '%s'\n" % c for c in ecols))
        y += "  route-pairs:\n    file: '%s'\n    random_or_all: { seed: %d, max_count: %d }\n" % (t["pairs"], self.seed, self.max_count)
        y += "evaluating_balance:\n  results-dir: '%s'\n  number_of_threads: %d\n  monitoring:\n%s    edges-info:\n      file: 'edges-info.csv'\n      ids:\n      - id: 'edge-id'\n" % (
            self.results_dir, self.threads, "    export_vehicles_for_SMARTS: true\n" if self.smarts else "")
        with open(os.path.join(self.dir, name), "w") as f:
            f.write(y)

    def args(self, flags, name="c.yaml"):
        return ["-c", name] + [self.FLAGS[f] for f in flags]

    def files(self, flags):
        out = [self.targets[f] for f in flags if f in self.targets]
        if "evaluating" in flags:
            out += [os.path.join(self.results_dir, f) for f in self.RESULTS if self.smarts or f != "smarts.xml"]
        return [os.path.normpath(os.path.relpath(os.path.join(self.dir, f), self.dir)) for f in out]


def undo(d, before):
    """Removes what is new"""
    for p in sorted(set(snapshot(d)) - set(before), reverse=True):
        q = os.path.join(d, p)
        os.rmdir(q) if os.path.isdir(q) and not os.path.islink(q) else os.remove(q)


def untouched(before, after, what):
    for p, old in before.items():
        need(p in after and after[p] == old, "%s: %s was changed or removed" % (what, p))


def case_w03(ctx, rng):
    x = Setup(ctx, rng, smarts=rng.random() < 0.5, threads=1)
    d = x.dir
    flags = [f for f in ("graph", "edges", "pairs", "evaluating") if rng.random() < 0.6] or ["evaluating"]
    kind = rng.choice(["existing", "existing", "existing", "input", "simultaneous", "same target", "previous export"])
    if kind == "same target" and not {"graph", "edges"} <= set(flags):
        kind = "existing"
    if kind == "input":
        # a target is an input, maybe spelled differently
        os.makedirs(os.path.join(d, "sub"))
        f = rng.choice(["graph", "edges", "pairs"])
        if f not in flags:
            flags.append(f)
        file = "g.fmi" if f == "graph" else "p.route-pairs" if f == "pairs" else rng.choice(["g.fmi", "p.route-pairs", "c.yaml"])
        spell = rng.choice(["%s", "./%s", "sub/../%s", os.path.join(d, "%s"), "link"])
        if spell == "link":
            link = "other" + os.path.splitext(file)[1]
            os.symlink(file, os.path.join(d, link))
            x.targets[f] = link
        else:
            x.targets[f] = spell % file
    elif kind == "same target":
        x.targets["edges"] = x.targets["graph"]
    x.write()
    args = x.args(flags)
    old = rng.choice([b"", b"old content\n", b"x" * 100000])
    if kind == "existing":
        file = rng.choice(x.files(flags))
        os.makedirs(os.path.dirname(os.path.join(d, file)), exist_ok=True)
        if rng.random() < 0.2:
            with open(os.path.join(d, "linked.txt"), "wb") as f:
                f.write(old)
            os.symlink(os.path.join(d, "linked.txt"), os.path.join(d, file))
        else:
            with open(os.path.join(d, file), "wb") as f:
                f.write(old)
    what = "%s, %s" % (args, kind)
    alone = []
    if kind == "same target":
        for f in ("graph", "edges"):
            before = snapshot(d)
            run(ctx, d, x.args([f]))
            alone.append(snapshot(d).get(x.targets["graph"]))
            undo(d, before)
    before = snapshot(d)
    if kind in ("simultaneous", "previous export"):
        r = run(ctx, d, args)
        expect_success(r, what)
        after = snapshot(d)
        untouched(before, after, what)
        if kind == "previous export":
            # any single one left suffices
            keep = rng.choice(x.files(flags))
            for f in x.files(flags):
                if f != keep:
                    os.remove(os.path.join(d, f))
            before = snapshot(d)
            expect_failure(run(ctx, d, args), "%s: %s does exist" % (what, keep))
            untouched(before, snapshot(d), what)
            ctx.count("programs refusing " + kind)
            ctx.seen(kind, keep, x.net.edges)
            return
        undo(d, before)
        ends = simultaneously(ctx, d, args, 4)
        now = snapshot(d)
        untouched(before, now, what)
        need(sum(1 for e in ends if e == 0) <= 1, "%s: %d of %d programs with the same targets succeed" % (what, sum(1 for e in ends if e == 0), len(ends)))
        for f in x.files(flags):
            if f in now:
                need(now[f] == after[f], "%s: programs with the same targets mix up %s" % (what, f))
        ctx.count("simultaneous programs", len(ends))
        ctx.seen(kind, tuple(flags), x.net.edges)
        return
    r = run(ctx, d, args)
    after = snapshot(d)
    untouched(before, after, what)
    expect_failure(r, what)
    if kind == "same target":
        need(after.get(x.targets["graph"]) in alone + [None], "%s: one export altered the other one" % what)
    ctx.count("programs refusing " + kind)
    ctx.seen(kind, tuple(flags), old[:3], x.net.edges)


def simultaneously(ctx, d, args, n):
    ps = [subprocess.Popen([ctx.bin] + args, cwd=d, env={"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": d, "RUST_BACKTRACE": "0"}, stdin=subprocess.DEVNULL,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True) for _ in range(n)]
    ends = []
    for p in ps:
        try:
            ends.append(p.wait(timeout=TIMEOUT))
        except subprocess.TimeoutExpired:
            for q in ps:
                if q.poll() is None:
                    os.killpg(q.pid, signal.SIGKILL)
                    q.wait()
            raise Violation("the program %s didn't end within %d s" % (args, TIMEOUT))
    for e in ends:
        need(e >= 0, "the program %s was ended by signal %d" % (args, -e))
    return ends


def case_w04(ctx, rng):
    x = Setup(ctx, rng, smarts=rng.random() < 0.5, threads=1)
    d = x.dir
    flags = [f for f in ("graph", "edges", "pairs", "evaluating") if rng.random() < 0.5] or ["evaluating"]
    x.write()
    args = x.args(flags)
    before = snapshot(d)
    r = run(ctx, d, args)
    expect_success(r, "%s" % args)
    full = snapshot(d)
    for f in x.files(flags):
        need(f in full, "%s succeeds, but %s wasn't written" % (args, f))
    for _ in range(6):
        undo(d, before)
        file = rng.choice(x.files(flags))
        size = len(full[file])
        at = rng.choice([0, 1, size - 1, size, rng.randint(0, size), rng.randint(0, size)])
        alone = rng.random() < 0.6
        if alone:
            r, hit = run_full(ctx, d, args, file, max(0, at))
        else:
            r, hit = run(ctx, d, args, fsize=max(0, at)), False
        what = "%s, when %s only finds place for %d bytes" % (args, file if alone else "every file", at)
        after = snapshot(d)
        untouched(before, after, what)
        if r.code == 0:
            for f in x.files(flags):
                need(f in after, "%s: succeeds, but %s is missing" % (what, f))
                need(after[f] == full[f], "%s: succeeds, but %s has %d of its %d bytes" % (what, f, len(after[f]), len(full[f])))
            ctx.count("programs with place for everything")
        else:
            need(not alone or hit, "%s: fails for no reason\n%s" % (what, r.text[-500:]))
            ctx.count("programs reporting a fault of writing")
        ctx.seen(file, at, alone, x.net.edges)


def case_w05(ctx, rng):
    x = Setup(ctx, rng, smarts=True, threads=rng.choice([1, 2, 5]))
    x.write()
    r = run(ctx, x.dir, x.args(["evaluating"]))
    expect_success(r, "evaluating")
    file = os.path.join(x.dir, "res/smarts.xml")
    with open(file, "rb") as f:
        try:
            root = ElementTree.fromstring(f.read())
        except ElementTree.ParseError as e:
            raise Violation("the exported vehicles aren't well-formed: %s" % e)
    need(root.tag == "data" and all(v.tag == "vehicle" and all(n.tag == "node" for n in v) for v in root), "the exported vehicles contain unknown elements")
    got = {}
    to = all_dist(x.net.edges, x.alphas, x.net.used())
    cheapest = {}
    for e in x.net.originals:
        c = sum(a * w for a, w in zip(x.alphas, e[3]))
        cheapest[e[1], e[2]] = min(c, cheapest.get((e[1], e[2]), c))
    for v in root:
        s, t = (int(p) for p in v.get("id").split("->"))
        ns = [int(n.get("id")) for n in v]
        need((not ns and s == t) or (ns and ns[0] == s and ns[-1] == t), "the vehicle from %d to %d has the nodes %s" % (s, t, ns))
        for h in zip(ns, ns[1:]):
            need(h in cheapest, "the vehicle from %d to %d uses the edge %s, which doesn't exist" % (s, t, h))
        c = sum(cheapest[h] for h in zip(ns, ns[1:]))
        need(t in to[s] and close(c, to[s][t], 1e-9), "the vehicle from %d to %d follows %s with costs %r, which is not the routed path" % (s, t, ns, c))
        got[s, t] = got.get((s, t), 0) + 1
    want = {}
    for s, t, n in x.lines:
        if n and t in to[s]:
            want[s, t] = want.get((s, t), 0) + n
    need(got == want, "vehicles per pair are %s instead of %s" % (sorted(got.items())[:9], sorted(want.items())[:9]))
    ctx.count("vehicles of the program", len(root))
    if got:
        ctx.seen(x.net.edges, x.lines)


# -------------------------------------------------------------------------------------------------
# V01

VISUALIZER = "/repo/scripts/balancing/visualizer"
VIS = os.path.join(HERE, "vis")
PYTHON = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python3"


def run_python(ctx, cwd, args, stdin=None, log=None):
    e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": cwd, "PYTHONPATH": VIS, "PYTHONDONTWRITEBYTECODE": "1",
         "OPENBLAS_NUM_THREADS": "1", "VMON_PLOT_LOG": log or os.devnull}
    try:
        p = subprocess.run([PYTHON] + args, cwd=cwd, env=e, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=TIMEOUT, text=True)
    except subprocess.TimeoutExpired:
        raise Violation("the visualizer %s didn't end within %d s" % (args, TIMEOUT))
    need(p.returncode == 0, "the visualizer failed, but nothing is wrong with its input\n" + p.stderr[-1500:])
    return p.stdout


def made_up_results(ctx, rng, res):
    """As the balancer writes them, with rows in any order. Returns the number of edges"""
    n = rng.choice([1, 2, 3, 10, 40, 200, 200, 1000])
    wide = rng.random() < 0.3
    ids = rng.sample(range(10 ** 15) if wide else range(3 * n + 2), n)
    few = rng.random() < 0.5
    top = rng.choice([1, 3, 30, 1000, 10 ** 6])
    cols = ["edge-id", "src-lat", "src-lon", "dst-lat", "dst-lon", "kilometers", "lane-count"] + rng.choice([[], ["src-id"], ["src-id", "m0"]])
    rng.shuffle(cols)

    def coord(to):
        return repr(round(rng.uniform(-to, to), 6))

    edges = [{"edge-id": "%d" % i, "src-lat": coord(85), "src-lon": coord(180), "dst-lat": coord(85), "dst-lon": coord(180),
              "kilometers": repr(rng.choice([0.001, rng.uniform(0.001, 50)])), "lane-count": rng.choice(["1", "1", "2", "3", "5", "2.0", "12"]),
              "src-id": "7", "m0": "0.5"} for i in ids]
    iterations = rng.choice([1, 1, 2, 3, 5, 11 if n < 50 else 4])
    for i in range(iterations):
        d = os.path.join(res, "%d" % i, "stats")
        os.makedirs(d)
        if rng.random() < 0.5:
            rng.shuffle(edges)
        with open(os.path.join(d, "edges-info.csv"), "w") as f:
            f.write(" ".join(cols) + "\n" + "".join(" ".join(e[c] for c in cols) + "\n" for e in edges))
        loads = {k: 0 if few and rng.random() < 0.7 else rng.randint(0, top) for k in ids}
        if rng.random() < 0.1:
            loads = dict.fromkeys(ids, rng.choice([0, top]))
            ctx.count("iterations_with_equal_workloads")
        order = list(ids)
        if rng.random() < 0.7:
            rng.shuffle(order)
        names = ["edge-id", "num_routes"] if rng.random() < 0.8 else ["num_routes", "edge-id"]
        with open(os.path.join(d, "abs_workloads.csv"), "w") as f:
            f.write(" ".join(names) + "\n")
            for k in order:
                f.write("%d %d\n" % ((k, loads[k]) if names[0] == "edge-id" else (loads[k], k)))
    # not an iteration
    if rng.random() < 0.3:
        os.makedirs(os.path.join(res, "%d" % (iterations + 1)))
    ctx.count("made_up_results")


def results_of_program(ctx, rng, res):
    d = ctx.dir
    net = make_net(rng, 14, dim=2)
    for e in net.edges:
        e[3][1] = float(rng.randint(1, 4))
    write_fmi(os.path.join(d, "g.fmi"), net)
    used = net.used()
    lines = [(rng.choice(used), rng.choice(used), rng.choice([1, 1, 2, 5])) for _ in range(rng.choice([1, 5, 30, 30]))]
    write_pairs(os.path.join(d, "p.route-pairs"), lines)
    iterations = rng.choice([1, 2, 3])
    for i in range(iterations):
        extra = ["meta: { info: '%s', id: '%s' }" % x for x in (("SrcLat", "src-lat"), ("SrcLon", "src-lon"), ("DstLat", "dst-lat"), ("DstLon", "dst-lon"))]
        y = parsing_yaml(net, "g.fmi", extra_edges=extra)
        y += routing_yaml("Dijkstra", {"m0": rng.choice([0.0, 1.0]), "m1": rng.choice([1.0, 1e5])}, "p.route-pairs")
        y = y.replace("unit: 'F64', id: 'm0'", "unit: 'Kilometers', id: 'kilometers'").replace("unit: 'F64', id: 'm1'", "unit: 'LaneCount', id: 'lane-count'")
        y = y.replace("- id: 'm0'", "- id: 'kilometers'").replace("- id: 'm1'", "- id: 'lane-count'")
        y += "evaluating_balance:\n  results-dir: '%s/%d/stats'\n  number_of_threads: 2\n  monitoring:\n    edges-info:\n      file: 'edges-info.csv'\n      ids:\n" % (os.path.basename(res), i)
        y += "".join("      - id: '%s'\n" % c for c in ("edge-id", "src-lat", "src-lon", "dst-lat", "dst-lon", "kilometers", "lane-count"))
        with open(os.path.join(d, "c%d.yaml" % i), "w") as f:
            f.write(y)
        expect_success(run(ctx, d, ["--config", "c%d.yaml" % i, "--evaluating_balance"]), "evaluating")
    ctx.count("results_of_the_program")


def columns(path):
    rows = table(path)
    return [dict(zip(rows[0], x)) for x in rows[1:]]


def same_points(call, want, what):
    def key(p):
        return [round(x, 7) for x in p]

    got = sorted(zip(call["x"], call["y"], call["c"]), key=key)
    want = sorted(want, key=key)
    need(len(got) == len(want), "%s: %d points are drawn for %d edges" % (what, len(got), len(want)))
    for a, b in zip(got, want):
        need(all(close(x, y) for x, y in zip(a, b)), "%s: (lon, lat, value) %s is drawn, but an edge has %s" % (what, a, b))


def same_numbers(got, want, what):
    need(len(got) == len(want) and all(close(x, y) for x, y in zip(got, want)), "%s: %s is drawn instead of %s" % (what, str(got)[:300], str(want)[:300]))


def check_colors(call, low, high, center, what):
    """Values of [low, high] are mapped to [0, 1], where more is higher, and the center is in the middle."""
    if low == high:
        return
    last = None
    for v, color in sorted(zip(call["c"], call["colors"])):
        need(-1e-9 <= color <= 1 + 1e-9, "%s: value %s of [%s, %s] has color %s outside of [0, 1]" % (what, v, low, high, color))
        if last is not None and last[0] < v:
            need(last[1] < color, "%s: value %s has color %s, but value %s has %s" % (what, last[0], last[1], v, color))
        if last is not None and last[0] == v:
            need(last[1] == color, "%s: value %s has colors %s and %s" % (what, v, last[1], color))
        last = v, color
        for at, wanted in ((low, 0.0), (high, 1.0)) + (((center, 0.5),) if center is not None and low < center < high else ()):
            if v == at:
                need(close(color, wanted, 1e-6), "%s: value %s of [%s, %s] has color %s instead of %s" % (what, v, low, high, color, wanted))


def check_norms(ctx, rng):
    cases = []
    for _ in range(40):
        low = rng.choice([0.0, rng.uniform(-100, 100), -float(rng.randint(0, 50))])
        high = low + rng.choice([1.0, rng.uniform(0.01, 1000), float(rng.randint(1, 10 ** 6))])
        center = rng.choice([None, None, rng.uniform(low, high), 0.0, low, high])
        values = sorted([low, high] + [rng.uniform(low, high) for _ in range(rng.choice([0, 1, 20]))] + ([center] if center is not None and low < center < high else []))
        kwargs = {"vcenter": center}
        if rng.random() < 0.7:
            kwargs["vmin"] = low
        if rng.random() < 0.7:
            kwargs["vmax"] = high
        if rng.random() < 0.7:
            kind = "TwoSlopeLoggedNorm"
            kwargs["base"] = rng.choice([2.0, 3, 50, rng.uniform(1.01, 100)])
            if rng.random() < 0.1:
                kwargs["base"] = rng.choice([1.0, 0.5, 0, -2])
        else:
            kind = "SigmoidNorm"
            kwargs["intensity"] = rng.choice([0.0, 0.3, 0.9, 1.0, 1.5, rng.uniform(0, 2)])
        cases.append((kind, kwargs, values, low, high, center))
    out = json.loads(run_python(ctx, ctx.dir, [os.path.join(VIS, "norms.py"), VISUALIZER], stdin=json.dumps([c[:3] for c in cases])))
    for (kind, kwargs, values, low, high, center), (verdict, got) in zip(cases, out):
        what = "%s(%s)" % (kind, kwargs)
        if center is not None and not low <= center <= high:
            need(verdict == "refused", what + ": the center is outside of the range, but accepted")
            continue
        base = kwargs.get("base", 2)
        if not base > 1:
            need(verdict == "refused", what + ": the base is accepted")
            continue
        need(verdict == "ok", what + ": refused, " + str(got))
        need(len(got) == len(values), what + ": %d values become %d" % (len(values), len(got)))
        mid = center if center is not None and low < center < high else None
        last = -1
        for v, x in zip(values, got):
            need(last <= x + 1e-12 and -1e-9 <= x <= 1 + 1e-9, what + ": value %s of [%s, %s] becomes %s after %s" % (v, low, high, x, last))
            last = x

            def logged(t):
                return math.log(1 + (base - 1) * t) / math.log(base)

            if mid is None:
                t = (v - low) / (high - low)
                want = logged(t)
            elif v >= mid:
                t = 0.5 + 0.5 * (v - mid) / (high - mid)
                want = 0.5 + 0.5 * logged((v - mid) / (high - mid))
            else:
                t = 0.5 - 0.5 * (mid - v) / (mid - low)
                want = 0.5 - 0.5 * logged((mid - v) / (mid - low))
            if kind == "SigmoidNorm":
                i = kwargs["intensity"]
                s = 1 / (1 + math.exp(-12 * max(1.0, i) * (t - 0.5)))
                want = t - min(1.0, i) * (t - s)
            need(close(x, want, 1e-7), what + ": value %s of [%s, %s] becomes %s instead of %s" % (v, low, high, x, want))
    ctx.count("norms_compared", len(cases))


def case_v01(ctx, rng):
    d = ctx.dir
    fresh(d)
    if rng.random() < 0.15:
        check_norms(ctx, rng)
    res = os.path.join(d, "res")
    os.makedirs(res)
    if rng.random() < 0.25:
        results_of_program(ctx, rng, res)
    else:
        made_up_results(ctx, rng, res)
    before = snapshot(d)
    log = os.path.join(d, "plots.log")
    style = rng.choice([None, "light", "dark"])
    where = res if rng.random() < 0.7 else os.path.relpath(os.path.realpath(res), "/repo")  # relative to the repository
    text = run_python(ctx, d, [VISUALIZER, "--results-dir", where] + (["--style", style] if style else []), log=log)

    # what there is to be seen
    iterations = 0
    while os.path.isdir(os.path.join(res, "%d" % iterations, "stats")):
        iterations += 1
    info = {int(x["edge-id"]): x for x in columns(os.path.join(res, "0", "stats", "edges-info.csv"))}
    at = {i: ((float(x["src-lon"]) + float(x["dst-lon"])) / 2, (float(x["src-lat"]) + float(x["dst-lat"])) / 2) for i, x in info.items()}
    loads = []
    for i in range(iterations):
        loads.append({int(x["edge-id"]): int(x["num_routes"]) for x in columns(os.path.join(res, "%d" % i, "stats", "abs_workloads.csv"))})
        need(set(loads[-1]) == set(info), "the workloads and the info are about different edges")
    deltas = [None] + [{k: b[k] - a[k] for k in b} for a, b in zip(loads, loads[1:])]
    top = max(max(x.values()) for x in loads)

    # what has been drawn
    figures = {}
    with open(log) as f:
        for line in f:
            fig = json.loads(line)
            p = os.path.relpath(fig["path"], os.path.realpath(res))
            need(p not in figures, "figure %s has been saved twice" % p)
            figures[p] = fig["calls"]
    want = {"sorted_workloads", "workload-boxplots", "max_workloads", "num_unique_edges"}
    for i in range(iterations):
        want |= {"%d/stats/%s" % (i, x) for x in ("workloads", "workload-quantiles", "workloads_hist", "lane-count_to_workload")}
        if i > 0:
            want |= {"%d/stats/%s" % (i, x) for x in ("delta_workloads", "delta_workloads-quantiles")}
    want = {x + ".png" for x in want}
    need(set(figures) == want, "the figures %s are missing, %s are unexpected" % (sorted(want - set(figures)), sorted(set(figures) - want)))
    after = snapshot(d)
    untouched(before, after, "visualizing")

    def calls(fig, name):
        return [c for c in figures[fig + ".png"] if c["call"] == name]

    def one_of(fig, name):
        x = calls(fig, name)
        need(len(x) == 1, "%s: %d times %s instead of once" % (fig, len(x), name))
        return x[0]

    lats = [p[1] for p in at.values()]
    aspect = 1 / math.cos(math.radians((min(lats) + max(lats)) / 2))

    def same_aspect(fig):
        c = one_of(fig, "set_aspect")
        need(close(c["args"][0], aspect, 1e-6), "%s: the aspect is %s instead of %s" % (fig, c["args"], aspect))

    def used(i):
        return sorted(x for x in loads[i].values() if x > 0)

    # over all iterations
    curves = [c for c in calls("sorted_workloads", "plot") if not (len(c["args"]) > 2 and c["args"][2] == "x")]
    for c in curves:
        same_numbers(c["args"][0], list(range(len(c["args"][1]))), "sorted_workloads, positions")
    curves = [c["args"][1] for c in curves]
    if any(used(i) for i in range(iterations)):
        curves = [c for c in curves if c]
    wanted = [used(i) for i in range(iterations) if used(i)]
    need(len([c for c in curves if c]) == len(wanted), "sorted_workloads: %d curves for %d iterations" % (len(curves), len(wanted)))
    for a, b in zip([c for c in curves if c], wanted):
        same_numbers(a, b, "sorted_workloads")
    boxes = calls("workload-boxplots", "boxplot")
    need([b["positions"] for b in boxes] == [[i] for i in range(iterations)], "workload-boxplots: positions %s" % [b["positions"] for b in boxes])
    for i, b in enumerate(boxes):
        same_numbers(sorted(b["x"]), used(i), "workload-boxplots, iteration %d" % i)
    lines = {c["kwargs"].get("label"): c["args"] for c in calls("max_workloads", "plot")}
    for label, xs, ys in (
        ("max workloads", range(iterations), [max(x.values()) for x in loads]),
        ("max delta-workloads", [i + 0.5 for i in range(iterations - 1)], [max(x.values()) for x in deltas[1:]]),
        ("min delta-workloads", [i + 0.5 for i in range(iterations - 1)], [min(x.values()) for x in deltas[1:]]),
    ):
        need(label in lines, "max_workloads: nothing is labelled '%s'" % label)
        same_numbers(lines[label][0], list(xs), label)
        same_numbers(lines[label][1], ys, label)
    c = one_of("num_unique_edges", "plot")["args"]
    same_numbers(c[0], list(range(iterations)), "num_unique_edges")
    same_numbers(c[1], [len(used(i)) for i in range(iterations)], "num_unique_edges")

    # per iteration
    said = {k: [float(x) for x in re.findall(r"^\s*%s=(\S+)$" % k, text, re.M)] for k in ("min", "max", "mean", "std")}
    for i in range(iterations):
        values = sorted(loads[i].values())
        n = len(values)
        mean = sum(values) / n
        for k, v in (("min", values[0]), ("max", values[-1]), ("mean", mean), ("std", math.sqrt(sum((x - mean) ** 2 for x in values) / n))):
            need(len(said[k]) == iterations and close(said[k][i], v, 1e-6), "iteration %d: %s=%s is printed, but it's %s" % (i, k, said[k], v))
        points = [at[k] + (w,) for k, w in loads[i].items()]
        for name in ("workloads", "workload-quantiles"):
            fig = "%d/stats/%s" % (i, name)
            c = one_of(fig, "scatter")
            same_points(c, points, fig)
            same_aspect(fig)
            need(c["c"] == sorted(c["c"]), fig + ": edges of higher workloads aren't drawn above others")
            if name == "workloads":
                need(c["norm"]["vmax"] == top, fig + ": the colors end with %s instead of the highest workload of all iterations, %s" % (c["norm"]["vmax"], top))
                check_colors(c, values[0], top, None, fig)
            else:
                q = values[int(0.95 * n)]
                need(sorted(set(c["norm"]["boundaries"])) == sorted({0, values[0], q, max(q, top)}), "%s: the boundaries are %s, not 0, min %s, quantile %s, max %s" % (
                    fig, c["norm"]["boundaries"], values[0], q, top))
            ctx.count("points_compared", n)
        fig = "%d/stats/workloads_hist" % i
        c = one_of(fig, "hist")
        same_numbers(sorted(c["x"]), used(i), fig)
        need(c["bins"] == max(1, values[-1] - values[0]), "%s: %d bins for workloads of [%s, %s]" % (fig, c["bins"], values[0], values[-1]))
        fig = "%d/stats/lane-count_to_workload" % i
        got, wanted = {}, {}
        for c in calls(fig, "boxplot"):
            need(len(c["positions"]) == 1 and c["positions"][0] not in got, fig + ": positions %s" % c["positions"])
            got[c["positions"][0]] = sorted(c["x"])
        for k, w in loads[i].items():
            if w > 0:
                wanted.setdefault(int(float(info[k]["lane-count"])), []).append(w)
        got = {k: v for k, v in got.items() if v}
        need(got == {k: sorted(v) for k, v in wanted.items()}, "%s: %s instead of %s" % (fig, str(got)[:300], str(wanted)[:300]))
        if i == 0:
            continue
        ds = sorted(deltas[i].values())
        points = [at[k] + (w,) for k, w in deltas[i].items()]
        fig = "%d/stats/delta_workloads" % i
        c = one_of(fig, "scatter")
        same_points(c, points, fig)
        same_aspect(fig)
        need([abs(x) for x in c["c"]] == sorted(abs(x) for x in c["c"]), fig + ": edges of higher changes aren't drawn above others")
        if ds[0] < 0 < ds[-1]:
            check_colors(c, ds[0], ds[-1], 0, fig)
            ctx.count("colors_of_changes")
        fig = "%d/stats/delta_workloads-quantiles" % i
        c = one_of(fig, "scatter")
        same_points(c, points, fig)
        same_aspect(fig)
        need(sorted(set(c["norm"]["boundaries"])) == sorted({ds[0], ds[int(0.05 * n)], ds[int(0.95 * n)], ds[-1]}), "%s: the boundaries are %s" % (fig, c["norm"]["boundaries"]))
        ctx.count("changes_compared", n)
    ctx.count("figures", len(figures))
    ctx.seen(info, loads, style)
    ctx.sample("%d edges, %d iterations, style %s: %d figures" % (len(info), iterations, style, len(figures)))


PROPS = {"V01": case_v01, "W03": case_w03, "W04": case_w04, "W05": case_w05, "L01": case_l01, "L02": case_l02, "Z01": case_z01, "H01": case_h01}


def one(ctx, prop, case_seed):
    try:
        PROPS[prop](ctx, random.Random(case_seed))
    except (FileNotFoundError, NotADirectoryError, IsADirectoryError, ValueError, LookupError, TypeError, ZeroDivisionError, AssertionError):
        # Everything the monitors read here has been written by the program. They rely on the form it has when
        # the property holds, so output being missing or unreadable refutes it.
        import traceback
        raise Violation("the program's output is missing or not of the expected form: " + traceback.format_exc()[-1500:])


def main():
    mode = sys.argv[1]
    a = sys.argv[2:]

    def opt(n, default=None):
        return a[a.index(n) + 1] if n in a else default

    thorough = "--thorough" in a
    prop, binary, d = opt("--prop"), opt("--bin"), os.path.abspath(opt("--dir"))
    os.environ["VMON_DELAY_SO"] = os.path.join(os.path.dirname(binary), "delay.so")
    ctx = Ctx(binary, d, thorough)
    os.makedirs(d, exist_ok=True)
    if mode == "case":
        try:
            one(ctx, prop, int(opt("--case-seed")))
        except Violation as v:
            print("VIOLATED %s" % v)
            return 1
        print("held %s" % ctx.counters)
        return 0
    out = opt("--out")
    progress = os.path.splitext(out)[0] + ".progress"
    start, budget = time.time(), float(opt("--budget-ms")) / 1000
    seed, shard, cases = int(opt("--seed")), int(opt("--shard")), int(opt("--cases"))
    res, code, i = {}, 0, 0
    while i < cases and time.time() - start < budget:
        case_seed = int.from_bytes(hashlib.sha256(("%d/%d/%d" % (seed, shard, i)).encode()).digest()[:6], "big")
        with open(progress + ".tmp", "w") as f:
            f.write("%d %d" % (i, case_seed))
        os.replace(progress + ".tmp", progress)
        try:
            one(ctx, prop, case_seed)
        except Violation as v:
            res["violation"] = {"case_seed": case_seed, "what": str(v)}
            code = 1
        except Exception as e:  # of the harness itself
            import traceback
            res["error"] = {"case_seed": case_seed, "what": traceback.format_exc()[-1500:]}
            code = 2
        i += 1
        if code:
            break
    res.update(cases=i, wall_ms=int((time.time() - start) * 1000), counters=ctx.counters, distinct=sorted(ctx.distinct), samples=ctx.samples)
    with open(out, "w") as f:
        json.dump(res, f)
    return code


if __name__ == "__main__":
    sys.exit(main())
