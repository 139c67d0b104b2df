"""Tables of works, of contractors and of history: the project read is the one the table describes."""
import os
import tempfile

from hypothesis import strategies as st

from vf import gen, oracle
from vf.core import Sub, sut, require

PROPERTY = 'C22'
RULE = ('One case is a random table of works (as a data frame or as a file), of contractors or of history. Non-trivial: the '
        'table has at least one dependency (contractors: two columns of resources; history: a pair of works met on a site).')
ASSUMPTIONS = ['Ids, dependencies, types and lags are written as documented: lists of equal length, separated by commas.']
TYPES = ['FS', 'FFS', 'SS', 'FF', 'IFS']
KINDS = ['driver', 'fitter', 'manager', 'handyman', 'electrician', 'engineer']


@st.composite
def table(draw, cyclic=False, min_rows=1, max_rows=9):
    n = draw(st.integers(min_rows, max_rows))
    style = draw(st.sampled_from(['num', 'num', 'text', 'wbs', 'big']))
    ids = {'num': [str(i + 1) for i in range(n)], 'text': [f'a-{i}' for i in range(n)],
           'wbs': [f'{i // 3 + 1}.{i % 3 + 1}' for i in range(n)], 'big': [str(10 ** 6 + 7 * i) for i in range(n)]}[style]
    edges = []
    for c in range(n):
        if cyclic:
            pool = [p for p in range(n) if p != c]
        else:
            pool = list(range(c))
        if pool:
            for p in draw(st.lists(st.sampled_from(pool), max_size=3, unique=True)):
                edges.append([p, c, draw(st.sampled_from([0, 1, 2, 0.5, 12.25])), draw(st.sampled_from(TYPES))])
    order = list(draw(st.permutations(range(n))))
    cols = {k: draw(st.booleans()) for k in ('reqs', 'zones', 'priority', 'group', 'description', 'model', 'granular')}
    rows = []
    for i in range(n):
        reqs = {}
        for k in draw(st.lists(st.sampled_from(KINDS), max_size=3, unique=True)):
            lo = draw(st.integers(0, 4))
            reqs[k] = [draw(st.integers(0, 50)), lo, lo + draw(st.integers(0, 4))]
        rows.append({'id': ids[i], 'name': f'Work {draw(st.integers(0, 3))} of {i}', 'vol': draw(st.sampled_from([0, 1, 2.5, 40, 1496.0])),
                     'measure': draw(st.sampled_from(['km', 'pcs'])), 'prio': draw(st.integers(1, 3)),
                     'group': draw(st.sampled_from(['north', 'south'])), 'descr': draw(st.sampled_from(['plain', 'two words'])),
                     'zones': {z: draw(st.integers(0, 2)) for z in draw(st.lists(st.sampled_from(['z1', 'z2']), unique=True))},
                     'reqs': reqs, 'foreign': draw(st.integers(0, 9)) == 0})
    return {'rows': rows, 'edges': edges, 'order': order, 'index': draw(st.booleans()), 'cols': cols, 'as': draw(st.sampled_from(['frame', 'file', 'frame-text'])),
            'mapper': not cols['granular'] and draw(st.booleans()), 'sep': draw(st.sampled_from([';', '|']))}


def frame(case):
    """The table as a data frame; cells as text where `as` is not 'frame'."""
    import pandas as pd
    text = case['as'] != 'frame'
    c, out = case['cols'], []
    for i in case['order']:
        r = case['rows'][i]
        pred = [[case['rows'][p]['id'], t, lag] for p, cc, lag, t in case['edges'] if cc == i]
        if r['foreign']:
            pred.insert(len(pred) // 2, ['99999', 'FS', 0])     # a work that is not in the table
        row = {'activity_id': r['id'], 'activity_name': r['name'], 'measurement': r['measure'], 'volume': r['vol'],
               'predecessor_ids': ','.join(x[0] for x in pred), 'connection_types': ','.join(x[1] for x in pred),
               'lags': ','.join(str(x[2]) for x in pred)}
        if c['model']:
            row['model_name'] = str({'granular_name': 'model of ' + r['name'], 'measurement': 'm3'})
        if c['granular']:
            row['granular_name'] = 'g ' + r['name']
        if c['reqs']:
            for col, k in (('min_req', 1), ('max_req', 2), ('req_volume', 0)):
                d = {kind: v[k] for kind, v in r['reqs'].items()}
                row[col] = str(d) if text else d
        if c['zones']:
            row['required_statuses'] = str(r['zones'])
        if c['priority']:
            row['priority'] = r['prio']
        if c['group']:
            row['group'] = r['group']
        if c['description']:
            row['description'] = r['descr']
        out.append(row)
    df = pd.DataFrame(out)
    if case['index']:
        df.index = range(len(df), 0, -1)    # rows of a larger table
    return df


def empty_history():
    import pandas as pd
    return pd.DataFrame(columns=['marker_for_glue', 'work_name', 'first_day', 'last_day', 'upper_works', 'work_name_clear_old',
                                 'smr_name', 'work_name_clear', 'granular_smr_name'])


def estimator():
    from sampo.schemas.time_estimator import DefaultWorkEstimator
    from sampo.schemas.requirements import WorkerReq
    from sampo.schemas.time import Time

    class Known(DefaultWorkEstimator):
        """Requirements as a plain function of what the estimator is told."""
        def find_work_resources(self, model_name, work_volume, resource_name=None):
            s = len(model_name['granular_name']) + (1 if model_name['measurement'] == 'km' else 0)
            return [WorkerReq(k, Time(int(work_volume) + s + j), 1 + s % 3, 3 + s % 3) for j, k in enumerate(KINDS[:1 + s % 3])]
    return Known()


def read(case, df, history=None, **kw):
    from sampo.userinput import CSVParser
    from sampo.utilities.name_mapper import DictNameMapper
    mapper = DictNameMapper({r['name']: 'mapped ' + r['name'] for r in case['rows']}) if case['mapper'] else None
    est = estimator()
    kw = kw or {'all_connections': True}
    h = empty_history() if history is None else history
    if case['as'] == 'file':
        with tempfile.TemporaryDirectory() as d:
            path = os.path.join(d, 'works.csv')
            df.to_csv(path, sep=case['sep'], index=False)
            with sut('crash'):
                info = CSVParser.read_graph_info(path, h, sep_wg=case['sep'], name_mapper=mapper, **kw)
    else:
        before = df.copy(deep=True)
        with sut('crash'):
            info = CSVParser.read_graph_info(df, h, name_mapper=mapper, **kw)
        require(df.equals(before), 'input-changed', 'the data frame given was changed')
    with sut('crash'):
        return CSVParser.work_graph(info, mapper, est), est


def edges_of(wg):
    ends = {wg.start.id, wg.finish.id}
    return sorted((e.start.id, n.id, float(e.lag), e.type.value) for n in wg.nodes for e in n.edges_to
                  if e.start.id not in ends and n.id not in ends)


def check_works(case, wg, est):
    c = case['cols']
    want = {r['id']: r for r in case['rows']}
    got = {n.id: n.work_unit for n in wg.nodes if n.id not in (wg.start.id, wg.finish.id)}
    require(set(want) == set(got) and len(wg.nodes) == len(want) + 2, 'works',
            lambda: f'works {sorted(map(str, got))}, in the table {sorted(want)}')
    for wid, r in want.items():
        u = got[wid]
        require(isinstance(u.id, str), 'id-type', f'id {u.id!r}')
        name = ('model of ' + r['name']) if c['model'] else ('mapped ' + r['name']) if case['mapper'] else \
            ('g ' + r['name']) if c['granular'] else r['name']
        measure = 'm3' if c['model'] else r['measure']
        require(u.model_name == {'granular_name': name, 'measurement': measure}, 'model-name',
                lambda: f'{wid}: model name {u.model_name}, described as {name}, {measure}')
        require(u.display_name == r['name'], 'display-name', lambda: f'{wid}: shown as {u.display_name!r}, named {r["name"]!r}')
        require(u.volume == float(r['vol']), 'volume', lambda: f'{wid}: volume {u.volume}, {r["vol"]} in the table')
        for col, attr, val, default in (('priority', 'priority', r['prio'], 1), ('group', 'group', r['group'], 'main project'),
                                        ('description', 'description', r['descr'], '')):
            require(getattr(u, attr) == (val if c[col] else default), col,
                    lambda: f'{wid}: {attr} {getattr(u, attr)!r}, {val!r} in the table ({"given" if c[col] else "no column"})')
        zones = {z.kind: z.required_status for z in u.zone_reqs}
        require(zones == (r['zones'] if c['zones'] else {}), 'zones', lambda: f'{wid}: zones {zones}, {r["zones"]} in the table')
        reqs = sorted((q.kind, oracle.T(q.volume), q.min_count, q.max_count) for q in u.worker_reqs)
        if c['reqs']:
            exp = sorted((k, v, lo, hi) for k, (v, lo, hi) in r['reqs'].items() if lo > 0)
        else:
            exp = sorted((q.kind, oracle.T(q.volume), q.min_count, q.max_count)
                         for q in est.find_work_resources({'granular_name': name, 'measurement': measure}, float(r['vol'])))
        require(reqs == exp, 'requirements', lambda: f'{wid}: requirements {reqs}, expected {exp}')
        require(u.is_service_unit == (not exp), 'service', lambda: f'{wid}: service unit: {u.is_service_unit}, requirements {exp}')


def check_ends(wg):
    for n in wg.nodes:
        if n.id in (wg.start.id, wg.finish.id):
            continue
        par, chi = {e.start.id for e in n.edges_to}, {e.finish.id for e in n.edges_from}
        require(bool(par), 'start', lambda: f'{n.id}: predecessors {par}')
        require(bool(chi), 'finish', lambda: f'{n.id}: successors {chi}')


def run_table(case, rec):
    df = frame(case)
    wg, est = read(case, df)
    rec.label(case['as'], *[k for k, v in case['cols'].items() if v])
    rec.nontrivial(bool(case['edges']))
    check_works(case, wg, est)
    want = sorted((case['rows'][p]['id'], case['rows'][c]['id'], float(lag), t) for p, c, lag, t in case['edges'])
    got = edges_of(wg)
    require(got == want, 'dependencies', lambda: f'dependencies {got}, in the table {want}')
    check_ends(wg)


def components(n, pairs):
    """Strongly connected component of each vertex (plain reachability)."""
    reach = [{v} for v in range(n)]
    grow = True
    while grow:
        grow = False
        for a, b in pairs:
            for v in range(n):
                if a in reach[v] and not reach[b] <= reach[v]:
                    reach[v] |= reach[b]
                    grow = True
    return reach


def run_loops(case, rec):
    df = frame(case)
    wg, est = read(case, df)
    check_works(case, wg, est)
    ids = [r['id'] for r in case['rows']]
    n = len(ids)
    want = {(ids[p], ids[c], float(lag), t) for p, c, lag, t in case['edges']}
    got = edges_of(wg)
    require(set(got) <= want and len(got) == len(set(got)), 'invented', lambda: f'dependencies {got} are not in the table: {sorted(want)}')
    reach = components(n, [(p, c) for p, c, _, _ in case['edges']])
    lost = [e for e in case['edges'] if (ids[e[0]], ids[e[1]], float(e[2]), e[3]) not in set(got)]
    for p, c, _, _ in lost:
        require(p in reach[c], 'needless', lambda: f'the dependency {ids[p]} -> {ids[c]} is dropped, but is in no loop')
    kept = components(n, [(ids.index(a), ids.index(b)) for a, b, _, _ in got])
    for a, b, _, _ in got:
        i, j = ids.index(a), ids.index(b)
        require(i not in kept[j], 'loop', lambda: f'{a} -> {b} is still in a loop')
    check_ends(wg)
    rec.nontrivial(bool(lost))


@st.composite
def graph_case(draw):
    p = draw(gen.works_and_edges(min_works=1, max_works=8, kinds=KINDS[:3], edge_types=('FS', 'FFS', 'SS', 'FF')))
    for w in p['works']:
        w['model'] = {'granular_name': f'gr {w["id"]}', 'measurement': draw(st.sampled_from(['unit', 'km']))}
        w['display'] = f'show {w["id"]}'
        w['reqs'] = [r for r in w['reqs']]
    return dict(p, save=draw(st.booleans()), file=draw(st.booleans()))


def run_round(case, rec):
    """The table of a graph describes this graph."""
    from sampo.userinput import CSVParser
    import pandas as pd
    wg = gen.build_wg(case)
    with sut('crash'):
        df = wg.to_frame(save_req=case['save'])
    rows = {r['activity_id']: r for _, r in df.iterrows()}
    require(set(rows) == {w['id'] for w in case['works']} and len(df) == len(case['works']), 'rows', f'rows {sorted(rows)}')
    for w in case['works']:
        r = rows[w['id']]
        require((r['activity_name'], r['granular_name'], r['measurement'], float(r['volume']), r['priority']) ==
                (w['display'], w['model']['granular_name'], w['model']['measurement'], float(w['vol']), w['prio']), 'row',
                lambda: f'{w["id"]}: row {r.to_dict()}, the work {w}')
    if case['file']:
        with tempfile.TemporaryDirectory() as d:
            path = os.path.join(d, 'works.csv')
            df.to_csv(path, sep=';', index=False)
            src = path
            with sut('crash'):
                info = CSVParser.read_graph_info(src, empty_history(), all_connections=True)
    else:
        with sut('crash'):
            info = CSVParser.read_graph_info(df, empty_history(), all_connections=True)
    with sut('crash'):
        back = CSVParser.work_graph(info, None, estimator())
    got = {n.id: n.work_unit for n in back.nodes if n.id not in (back.start.id, back.finish.id)}
    require(set(got) == set(rows), 'works', f'works {sorted(got)}')
    for w in case['works']:
        u = got[w['id']]
        a = (u.display_name, u.model_name, u.volume, u.priority)
        b = (w['display'], w['model'], float(w['vol']), w['prio'])
        require(a == b, 'work', lambda: f'{w["id"]} comes back as {a}, was {b}')
        if case['save']:
            reqs = sorted((q.kind, oracle.T(q.volume), q.min_count, q.max_count) for q in u.worker_reqs)
            exp = sorted((k, v, lo, hi) for k, v, lo, hi in w['reqs'] if lo > 0)
            require(reqs == exp, 'requirements', lambda: f'{w["id"]}: requirements {reqs}, were {exp}')
    want = sorted((case['works'][p]['id'], case['works'][c]['id'], float(lag), t) for p, c, lag, t in case['edges'])
    require(edges_of(back) == want, 'dependencies', lambda: f'dependencies {edges_of(back)}, were {want}')
    rec.nontrivial(bool(want))


@st.composite
def history_case(draw):
    n = draw(st.integers(2, 6))
    names = [f'Work {i}' for i in range(n)]
    if draw(st.integers(0, 4)) == 0:
        names[draw(st.integers(1, n - 1))] = names[0]       # two works of one type
    shape = draw(st.sampled_from(['ordered', 'ordered', 'any']))
    sites = []
    for s in range(draw(st.integers(0, 4))):
        rows = []
        for k, name in enumerate(dict.fromkeys(names)):
            for _ in range(draw(st.sampled_from([0, 1, 1, 1, 2]))):
                first = draw(st.integers(0, 40)) + (6 * k if shape == 'ordered' else 0)
                rows.append([name, first, first + draw(st.integers(1, 40 if shape == 'any' else 20))])
        sites.append(draw(st.permutations(rows)))
    edges = []
    for c in range(1, n):
        for p in draw(st.lists(st.integers(0, c - 1), max_size=2, unique=True)):
            edges.append([p, c, draw(st.sampled_from([0, 1, 0.5])), draw(st.sampled_from(TYPES))])
    return {'names': names, 'sites': sites, 'edges': edges, 'mode': draw(st.sampled_from(['add', 'add', 'change', 'fix'])),
            'file': draw(st.booleans()), 'mapper': draw(st.integers(0, 3)) == 0, 'foreign': draw(st.integers(0, 4)) == 0}


def day(n):
    import datetime
    return (datetime.date(2019, 11, 20) + datetime.timedelta(days=n)).isoformat()


def learned(case):
    """(i, j) -> (type, lag) where the history leaves no doubt; None: it says something; missing: it says nothing."""
    out = {}
    n = len(case['names'])
    for i in range(n):
        for j in range(i + 1, n):
            a, b = case['names'][i], case['names'][j]
            if a == b:
                continue
            met = []
            for site in case['sites']:
                x = sorted([s, f] for m, s, f in site if m == a)
                y = sorted([s, f] for m, s, f in site if m == b)
                met += list(zip(x, y))
            if not met:
                continue
            for p, q, pairs in ((i, j, met), (j, i, [(y, x) for x, y in met])):
                if all(x[1] <= y[0] for x, y in pairs):
                    out[p, q] = ('FS', 0.0)
                elif all(x[0] < y[0] < x[1] for x, y in pairs):
                    lag = min((y[0] - x[0]) / (x[1] - x[0]) for x, y in pairs)
                    if all(x[1] < y[1] for x, y in pairs):
                        out[p, q] = ('FFS', round(lag, 2))
                    elif all(x[1] > y[1] for x, y in pairs):
                        out[p, q] = ('SS', round(lag, 2))
            if (i, j) not in out and (j, i) not in out:
                out[i, j] = out[j, i] = None
    return out


def run_history(case, rec):
    """Dependencies learned from the history, together with those given."""
    import pandas as pd
    n = len(case['names'])
    ids = [str(i) for i in range(n)]
    df = pd.DataFrame([{'activity_id': ids[i], 'activity_name': ('project ' if case['mapper'] else '') + case['names'][i],
                        'measurement': 'm', 'volume': 3.0,
                        'predecessor_ids': ','.join(ids[e[0]] for e in case['edges'] if e[1] == i),
                        'connection_types': ','.join(e[3] for e in case['edges'] if e[1] == i),
                        'lags': ','.join(str(e[2]) for e in case['edges'] if e[1] == i)} for i in range(n)])
    rows = [{'granular_name': m, 'first_day': day(s), 'last_day': day(f), 'upper_works': f'site {k}'}
            for k, site in enumerate(case['sites']) for m, s, f in site]
    if case['foreign']:
        rows.insert(0, {'granular_name': 'Work of others', 'first_day': day(1), 'last_day': day(3), 'upper_works': 'site 0'})
    h = pd.DataFrame(rows, columns=['granular_name', 'first_day', 'last_day', 'upper_works'])
    before = h.copy(deep=True)
    mode = {'add': {}, 'change': {'change_connections_info': True},
            'fix': {'all_connections': True, 'change_connections_info': True}}[case['mode']]
    from sampo.userinput import CSVParser
    from sampo.utilities.name_mapper import DictNameMapper
    mapper = DictNameMapper({'project ' + m: m for m in case['names']}) if case['mapper'] else None
    with tempfile.TemporaryDirectory() as d:
        src = h
        if case['file']:
            src = os.path.join(d, 'h.csv')
            h.to_csv(src, sep='|', index=False)
        with sut('crash'):
            info = CSVParser.read_graph_info(df, src, sep_history='|', name_mapper=mapper, **mode)
    require(h.equals(before), 'input-changed', 'the history given was changed')
    with sut('crash'):
        wg = CSVParser.work_graph(info, mapper, estimator())
    got = {(ids.index(a), ids.index(b)): (t, lag) for a, b, lag, t in edges_of(wg)}
    given = {(p, c): (t, float(lag)) for p, c, lag, t in case['edges']}
    know = learned(case)
    rec.label(case['mode'])
    rec.nontrivial(bool(know))
    # what the graph may contain
    for e, v in got.items():
        require(e in given or e in know, 'invented', lambda: f'{e}: neither given nor ever seen in the history')
        if e not in given and know[e]:
            require(v == know[e], 'learned', lambda: f'{e}: {v}, on all sites it was {know[e]}')
        if e in given:
            if case['mode'] == 'add' or e not in know:
                require(v == given[e], 'given', lambda: f'{e}: {v}, given as {given[e]}')
            elif know[e]:
                require(v == know[e], 'changed', lambda: f'{e}: {v}, by history it should be {know[e]}')
    # what it must contain
    full = set(given) | set(know)
    reach = components(n, full)
    for e in given:
        # a dependency only repaired from the history may be the rarest one of a loop
        require(e in got or case['mode'] != 'add' and e in know and e[0] in reach[e[1]], 'given-lost',
                lambda: f'the given dependency {e} is dropped')
    has_given = {c for _, c in given}
    for e, v in know.items():
        if v and e not in got and not (case['mode'] == 'fix' and e[1] in has_given):
            require(e[0] in reach[e[1]], 'not-learned', lambda: f'{e}: {v} on all sites, but the graph has no such dependency')
    kept = components(n, list(got))
    for a, b in got:
        require(a not in kept[b], 'loop', lambda: f'{a} -> {b} is in a loop')


@st.composite
def contractors_case(draw):
    kinds = draw(st.lists(st.sampled_from(KINDS), min_size=1, unique=True))
    n = draw(st.integers(1, 4))
    return {'kinds': kinds, 'counts': [[draw(st.integers(0, 60)) for _ in kinds] for _ in range(n)], 'with_id': draw(st.booleans()),
            'style': draw(st.sampled_from(['num', 'text'])), 'as': draw(st.sampled_from(['frame', 'file', 'list', 'empty'])),
            'works': draw(st.integers(1, 4)), 'order': draw(st.booleans())}


def run_contractors(case, rec):
    import pandas as pd
    from sampo.userinput import CSVParser
    from sampo.schemas.contractor import Contractor
    from sampo.schemas.resources import Worker
    works = pd.DataFrame([{'activity_id': str(i), 'activity_name': f'w{i}', 'measurement': 'm', 'volume': 2.0,
                           'predecessor_ids': ''} for i in range(case['works'])])
    n = len(case['counts'])
    cid = [str(10 + i) if case['style'] == 'num' else f'c-{i}' for i in range(n)]
    cols = (['contractor_id'] if case['with_id'] else []) + ['name']
    if case['order']:
        cols.reverse()
    df = pd.DataFrame([{'contractor_id': cid[i], 'name': f'Firm {i}', **dict(zip(case['kinds'], case['counts'][i]))} for i in range(n)])
    df = df[cols + case['kinds']]
    with sut('crash'):
        info = CSVParser.read_graph_info(works, empty_history(), all_connections=True)
    with tempfile.TemporaryDirectory() as d:
        src = df
        if case['as'] == 'file':
            src = os.path.join(d, 'c.csv')
            df.to_csv(src, sep=';', index=False)
        elif case['as'] == 'empty':
            src = df.iloc[:0]
        elif case['as'] == 'list':
            src = [Contractor(cid[i], f'Firm {i}', {k: Worker('', k, c) for k, c in zip(case['kinds'], case['counts'][i])}) for i in range(n)]
        with sut('crash'):
            wg, got = CSVParser.work_graph_and_contractors(info, src, work_resource_estimator=estimator())
    rec.label(case['as'])
    if case['as'] == 'empty':
        require(len(got) >= 1, 'none', 'no contractors for an empty table')
        return
    rec.nontrivial(len(case['kinds']) > 1 and n > 1)
    require([c.name for c in got] == [f'Firm {i}' for i in range(n)], 'names', f'contractors {[c.name for c in got]}')
    for i, c in enumerate(got):
        if case['with_id'] or case['as'] == 'list':
            require(c.id == cid[i], 'id', lambda: f'{c.name}: id {c.id!r}, in the table {cid[i]!r}')
        require(isinstance(c.id, str), 'id-type', lambda: f'{c.name}: id {c.id!r}')
        staff = {k: w.count for k, w in c.workers.items()}
        require(staff == dict(zip(case['kinds'], case['counts'][i])), 'staff', lambda: f'{c.name}: staff {staff}, table {case["counts"][i]}')
        for k, w in c.workers.items():
            require(w.name == k and w.contractor_id == c.id, 'worker', lambda: f'{c.name}: worker {k} is {w.name} of {w.contractor_id}')
    require(len({c.id for c in got}) == n, 'same-id', 'contractors share an id')


SUBS = [Sub('tables', table(), run_table, quick=500, thorough=6000),
        Sub('loops', table(cyclic=True, min_rows=2, max_rows=7), run_loops, quick=400, thorough=6000),
        Sub('round-trip', graph_case(), run_round, quick=300, thorough=4000),
        Sub('history', history_case(), run_history, quick=400, thorough=6000),
        Sub('contractors', contractors_case(), run_contractors, quick=200, thorough=2000)]
