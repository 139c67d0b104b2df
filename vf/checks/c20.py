"""Routes of a landscape and the supply of materials to the platforms where works are done."""
import heapq
from collections import defaultdict
from math import ceil

from hypothesis import strategies as st

from vf import drive, gen, oracle, sched
from vf.core import Sub, sut, require

PROPERTY = 'C20'
RULE = ('A case is a random connected land graph with platforms, depots, vehicles and roads; for scheduling also a project whose works '
        'need materials on platforms. Non-trivial: a route of at least two roads exists, or at least one delivery is made.')
ASSUMPTIONS = ['At most one road joins two nodes; platforms are stocked to their capacity at the beginning.',
               'Every depot has the stock, the vehicles and the roads for any single delivery.']
SPEED = 5
INF = float('inf')


@st.composite
def land(draw, platforms=4, depots=3):
    p, d = draw(st.integers(1, platforms)), draw(st.integers(1, depots))
    names = [f'p{i}' for i in range(p)] + [f'd{i}' for i in range(d)]
    order = draw(st.permutations(names))
    roads = []
    def road(a, b):
        roads.append([a, b, draw(st.one_of(st.integers(1, 12), st.sampled_from([2.5, 5, 10, 30]))), draw(st.integers(1, 4))])
    for i in range(1, len(order)):
        road(order[draw(st.integers(0, i - 1))], order[i])
    have = {frozenset(r[:2]) for r in roads}
    for _ in range(draw(st.integers(0, 4))):
        a, b = draw(st.sampled_from(names)), draw(st.sampled_from(names))
        if a != b and frozenset((a, b)) not in have:
            have.add(frozenset((a, b)))
            road(a, b)
    return {'nodes': list(order), 'roads': roads}


def build_land(case, storage=None, works=None, vehicles=None):
    from sampo.schemas.landscape import LandscapeConfiguration, ResourceHolder, Vehicle
    from sampo.schemas.landscape_graph import LandGraph, LandGraphNode, ResourceStorageUnit
    from sampo.schemas.resources import Material
    nodes = {}
    for n in case['nodes']:
        nodes[n] = LandGraphNode(n, n, ResourceStorageUnit(dict((storage or {}).get(n, {}))), works=(works or {}).get(n))
    for a, b, length, band in case['roads']:
        nodes[a].add_neighbours((nodes[b], length, band))
    holders = []
    for n in sorted(n for n in case['nodes'] if n[0] == 'd'):
        vs = [Vehicle(f'{n}v{i}', f'v{i}', [Material(f'm{k}', k, c) for k, c in caps.items()])
              for i, caps in enumerate((vehicles or {}).get(n, []))]
        holders.append(ResourceHolder('h' + n, 'h' + n, vs, nodes[n]))
    return LandscapeConfiguration(holders, LandGraph([nodes[n] for n in case['nodes']])), nodes


def dijkstra(case, src, allowed=None):
    adj = defaultdict(list)
    for i, (a, b, w, _) in enumerate(case['roads']):
        if allowed is None or i in allowed:
            adj[a].append((b, w))
            adj[b].append((a, w))
    dist, todo = {src: 0}, [(0, src)]
    while todo:
        d, v = heapq.heappop(todo)
        if d > dist[v]:
            continue
        for u, w in adj[v]:
            if d + w < dist.get(u, INF):
                dist[u] = d + w
                heapq.heappush(todo, (d + w, u))
    return dist


@st.composite
def route_case(draw):
    c = draw(land(6, 3))
    return dict(c, closed=draw(st.lists(st.integers(0, len(c['roads']) - 1), max_size=3)))


def run_routes(case, rec):
    with sut('crash'):
        cfg, nodes = build_land(case)
        roads = {r.id: r for r in cfg.roads}
        ends = {}
        for v in nodes.values():
            for e in v.roads:
                ends.setdefault(e.id, []).append((e.start.id, e.finish.id, e.weight, e.bandwidth))
    pair = {}
    for rid, lst in ends.items():
        require(len(lst) == 2 and lst[0][:2] == lst[1][1::-1] and lst[0][2:] == lst[1][2:], 'road', f'{lst}')
        pair[rid] = frozenset(lst[0][:2]), lst[0][2], lst[0][3]
    want_roads = sorted((sorted(r[:2]), r[2], r[3]) for r in case['roads'])
    require(sorted((sorted(p), w, b) for p, w, b in pair.values()) == want_roads, 'road', f'{pair}')
    require({(r.length, r.vehicles, r.overcome_time) for r in cfg.roads} == {(w, b, ceil(w / SPEED)) for _, _, w, b in case['roads']}
            and sorted(roads) == sorted(ends), 'road', f'{[(r.id, r.length, r.vehicles, r.overcome_time) for r in cfg.roads]}')

    def check(route, a, b, best, allowed, what):
        at, length = a, 0
        for rid in route:
            require(rid in pair and at in pair[rid][0], what, f'from {a} to {b}: road {rid} does not begin at {at}')
            require(allowed is None or rid in allowed, what, f'from {a} to {b}: road {rid} is not available')
            at = next(iter(pair[rid][0] - {at}))
            length += pair[rid][1]
        require(at == b, what, f'from {a} to {b}: the route ends at {at}')
        require(abs(length - best) < 1e-9, what, f'from {a} to {b}: {length}, the shortest way is {best}')
        rec.nontrivial(len(route) > 1)

    by_pair = {p: rid for rid, (p, _, _) in pair.items()}
    open_ids = {i for i in range(len(case['roads'])) if i not in case['closed']}
    allowed = {by_pair[frozenset(case['roads'][i][:2])] for i in open_ids}
    for a in case['nodes']:
        dist, dist2 = dijkstra(case, a), dijkstra(case, a, open_ids)
        for b in case['nodes']:
            if a == b:
                continue
            with sut('crash'):
                r1 = cfg.get_route(nodes[a], nodes[b])
                r2 = cfg.construct_route(nodes[a], nodes[b], [roads[i] for i in allowed])
            check(r1, a, b, dist[b], None, 'route')
            if b not in dist2:
                require(r2 == [], 'open-route', f'from {a} to {b}: {r2}, but there is no way')
            else:
                check(r2, a, b, dist2[b], allowed, 'open-route')
        with sut('crash'):
            near = [(float(x[0]), x[1]) for x in cfg.get_sorted_holders(nodes[a])]
        want = sorted(float(dist[d]) for d in case['nodes'] if d[0] == 'd' and d != a)
        if a[0] == 'p':
            require([x[0] for x in near] == want and all(dist[i] == x for x, i in near), 'depots', f'from {a}: {near}, expected {want}')
    require(sorted(n.id for n in cfg.platforms) == sorted(n for n in case['nodes'] if n[0] == 'p'), 'platforms', 'wrong platforms')


# -------------------------------------------------------------------------------------------------------------- supply

MATS = ['brick', 'sand']


@st.composite
def supply_case(draw, names, in_chains=False, **kw):
    """Without in_chains only works outside chains need materials."""
    c = draw(land(3, 2))
    job = draw(drive.job(names, spec=None, **kw))
    proj = job['proj']
    plats = sorted(n for n in c['nodes'] if n[0] == 'p')
    depots = sorted(n for n in c['nodes'] if n[0] == 'd')
    mats = draw(st.permutations(MATS))[:draw(st.integers(1, 2))]
    where = {}
    for b in proj['blocks']:
        for w in (proj['works'][i] for i in b if len(b) == 1 or in_chains):
            if not w['svc'] and draw(st.integers(0, 3)):
                where[w['id']] = draw(st.sampled_from(plats))
                w['mats'] = [[m, draw(st.integers(1, 10))] for m in draw(st.permutations(mats))[:draw(st.integers(1, len(mats)))]]
    total = {m: sum(k for w in proj['works'] for n, k in w.get('mats', []) if n == m) for m in mats}
    # every platform can hold what any single work needs; depots can refill every platform for every work
    cap = {p: {m: max([k for w in proj['works'] if where.get(w['id']) == p for n, k in w['mats'] if n == m], default=0)
               + draw(st.sampled_from([0, 0, 2, 9])) for m in mats} for p in plats}
    stock = {d: {m: (len(where) + 1) * max(cap[p][m] for p in plats) + draw(st.integers(0, 5)) for m in mats} for d in depots}
    vol = {d: {m: draw(st.integers(3, 12)) for m in mats} for d in depots}
    fleet = {d: [vol[d]] * (max(ceil(cap[p][m] / vol[d][m]) for p in plats for m in mats) + draw(st.integers(0, 1)) or 1) for d in depots}
    need = max(len(f) for f in fleet.values())
    for r in c['roads']:
        r[3] = need + draw(st.integers(0, 1))
    return {'land': c, 'job': job, 'where': where, 'cap': cap, 'stock': stock, 'fleet': fleet, 'mats': list(mats)}


def run_supply(case, rec):
    from sampo.schemas.time import Time
    job, proj = case['job'], case['job']['proj']
    with sut('crash'):
        wg, cons = gen.build_wg(proj), gen.build_contractors(proj)
        works = defaultdict(list)
        for wid, p in sorted(case['where'].items()):
            works[p].append(wg[wid])
        cfg, nodes = build_land(case['land'], {**case['cap'], **case['stock']}, works, case['fleet'])
        s = sched.make(job['alg'], job['seed'], 1, 4)
        res = s.schedule(wg, cons, start_time=Time(job['at']), landscape=cfg)
    rec.label(job['alg'])
    for sch in res:
        sd = oracle.flatten(sch)
        oracle.complete(proj, sd)
        oracle.precedence(proj, sd)
        oracle.team(proj, sd)
        oracle.capacity(proj, sd)
        supply(case, sd, rec)


def supply(case, sd, rec):
    proj = case['job']['proj']
    events = defaultdict(list)
    out = defaultdict(int)
    trips = defaultdict(list)
    dist_t = {}
    for w in proj['works']:
        s = sd[w['id']]
        need = dict(w.get('mats', []))
        deliv = s['obj'].materials.delivery if s['obj'].materials else {}
        if w['id'] not in case['where']:
            require(not deliv, 'delivery', f'{w["id"]} needs nothing, but gets {deliv}')
            continue
        p = case['where'][w['id']]
        require(set(deliv) <= set(need), 'delivery', f'{w["id"]} needs {need}, but gets {deliv}')
        for m, lst in deliv.items():
            for count, t0, t1, holder in lst:
                t0, t1, d = oracle.T(t0), oracle.T(t1), holder[1:]
                require(d in case['stock'] and count > 0, 'delivery', f'{w["id"]}: {count} of {m} from {holder!r}')
                require(t1 <= s['st'], 'late', f'{w["id"]} starts at {s["st"]}, its {m} arrives at {t1}')
                require(0 <= t0, 'delivery', f'{w["id"]}: {m} sets off at {t0}')
                if (d, p) not in dist_t:
                    dist_t[d, p] = travel(case['land'], d, p)
                require(t1 - t0 >= dist_t[d, p], 'travel', f'{w["id"]}: {m} from {d} to {p} takes {t1 - t0}, the road {dist_t[d, p]}')
                events[p, m].append((t1, 0, count, w['id']))
                out[d, m] += count
                trips[d].append((t0, t1 + dist_t[d, p], w['id'], m, count))
        for m, k in need.items():
            events[p, m].append((s['st'], 1, -k, w['id']))
    for (p, m), lst in events.items():
        say = lambda: f'platform {p}, {m}: events {sorted(lst)}, capacity {case["cap"][p][m]}'
        # at one moment a work may take its materials before or after the next delivery
        for kind, order in (('stock', sorted(lst)), ('overfull', sorted(lst, key=lambda e: (e[0], -e[1])))):
            stock = case['cap'][p][m]
            for t, _, k, wid in order:
                stock += k
                require(stock >= 0 or kind != 'stock', kind, lambda: f'{wid} lacks {-stock} at {t}; {say()}')
                require(stock <= case['cap'][p][m] or kind == 'stock', kind, lambda: f'{stock} for {wid} at {t}; {say()}')
    for (d, m), k in out.items():
        require(k <= case['stock'][d][m], 'depot', f'{k} of {m} leave {d}, which has {case["stock"][d][m]}')
    for d, lst in trips.items():
        vol = case['fleet'][d][0]
        per = {}
        for t0, t1, wid, m, count in lst:
            a, b, n = per.get(wid, (t0, t1, 0))
            per[wid] = t0, t1, max(n, ceil(count / vol[m]))
        ev = sorted(x for t0, t1, n in per.values() for x in ((t0, 1, n), (t1, 0, -n)))
        used = 0
        for t, _, n in ev:
            used += n
            require(used <= len(case['fleet'][d]), 'vehicles', lambda: f'at {t} {used} vehicles of {d} are on the road, it has '
                                                               f'{len(case["fleet"][d])}; trips {per}')
    rec.nontrivial(bool(trips))


def travel(c, a, b):
    """The least time from a to b (over all ways)."""
    return int(dijkstra(dict(c, roads=[[x, y, ceil(w / SPEED), n] for x, y, w, n in c['roads']]), a)[b])


def chained(case):
    where = case['where']
    return any(case['job']['proj']['works'][i]['id'] in where for b in case['job']['proj']['blocks'] for i in b[1:])


# the materials of inner links are only thought of when the chain is placed: they may be gone, late, or hold up the chain
KNOWN = {'C20-chain-materials': lambda sub, case, v: sub == 'supply-chains' and v.kind in ('stock', 'overfull', 'capacity') and chained(case)}
SUBS = [Sub('routes', route_case(), run_routes, quick=300, thorough=5000),
        Sub('supply', supply_case(drive.FAST), run_supply, quick=500, thorough=9000),
        Sub('supply-genetic', supply_case(drive.GEN), run_supply, quick=100, thorough=1500),
        Sub('supply-chains', supply_case(drive.FAST, in_chains=True), run_supply, quick=150, thorough=2000)]
