"""Charts: what is drawn of a schedule and of a graph is what they hold."""
import datetime as dt
from collections import Counter, defaultdict

from hypothesis import strategies as st

from vf import drive, gen, oracle, sched
from vf.checks import c15, c20, c21
from vf.core import Sub, sut, require

PROPERTY = 'C32'
RULE = ('One case is a random project scheduled (with zones, with supplies of materials, or through the pipeline with stages), or a random graph, and the settings of a '
        'chart. Non-trivial: the chart holds changes of zones, deliveries, two works at one time, or a graph with two works in one column.')
ASSUMPTIONS = ['The chart is judged by the figure object: bars, lines, texts and colours; nothing is rendered to pixels.',
               'On day charts of workers a work may or may not count at the day at whose beginning it ends.',
               'A name with a colon marks a defect of the work named before "&"; that work exists.']
FOUR = st.sampled_from(['contractor', 'contractor', 'priority', 'critical_path', 'none'])


def quiet():
    import matplotlib
    matplotlib.use('Agg')


def day(date, t):
    return date + dt.timedelta(days=t)


START = st.sampled_from([[2022, 1, 1, 0], [2023, 12, 30, 0], [2024, 2, 27, 9]])


@st.composite
def named(draw, proj):
    """names of works, some of them defects of others"""
    names = draw(st.booleans())
    for i, w in enumerate(proj['works']):
        if names:
            w['model'] = {'granular_name': draw(st.sampled_from([f'{w["id"]} dig', f'{w["id"]} weld pipes', f'{w["id"]}']))}
            if i and draw(st.integers(0, 4)) == 0 and proj['works'][0].get('model'):
                w['model'] = {'granular_name': f'{proj["works"][0]["model"]["granular_name"]}&fix: {w["id"]}'}
    return proj


@st.composite
def gantt_case(draw):
    kind = draw(st.sampled_from(['plain', 'zones', 'materials']))
    c = {'kind': kind}
    if kind == 'materials':
        c['supply'] = draw(c20.supply_case(['heft', 'topological', 'heft_between'], big=False))
        proj = c['supply']['job']['proj']
    else:
        c['job'] = draw(c21.job(drive.FAST, big=False) if kind == 'zones' else drive.job(drive.FAST, big=False))
        proj = c['job']['proj']
    draw(named(proj))
    c.update(color=draw(FOUR), start=draw(START), text=draw(st.booleans()), critical=draw(st.sets(st.sampled_from([w['id'] for w in proj['works']]), max_size=4)),
             merged=draw(st.booleans()))
    c['critical'] = sorted(c['critical'])
    return c


def scheduled(case):
    from sampo.schemas.time import Time
    if case['kind'] == 'materials':
        s = case['supply']
        job = s['job']
        wg, cons = gen.build_wg(job['proj']), gen.build_contractors(job['proj'])
        works = defaultdict(list)
        for wid, p in sorted(s['where'].items()):
            works[p].append(wg[wid])
        cfg, keep = c20.build_land(s['land'], {**s['cap'], **s['stock']}, works, s['fleet'])
        return sched.make(job['alg'], job['seed']).schedule(wg, cons, start_time=Time(job['at']), landscape=cfg)[0], wg, job['proj'], keep
    job = case['job']
    kw = {'landscape': c21.landscape(job)} if case['kind'] == 'zones' else {}
    res, wg = drive.solve(job, **kw)
    return res[0], wg, job['proj'], kw


def bars(fig):
    """(row, start, finish, name, legend) of all bars of a time chart"""
    out = []
    for t in fig.data:
        for i in range(len(t.y)):
            s = t.base[i]
            s = s.to_pydatetime() if hasattr(s, 'to_pydatetime') else dt.datetime.fromisoformat(str(s)[:26]) if not isinstance(s, dt.datetime) else s
            out.append((t.y[i], s, s + dt.timedelta(milliseconds=float(t.x[i])), t.hovertext[i] if t.hovertext is not None else None, t.name))
    return out


def same(got, want, kind, what):
    a, b = Counter(got), Counter(want)
    require(a == b, kind, lambda: f'{what}: drawn and not expected {sorted(map(str, a - b))[:4]}, expected and not drawn {sorted(map(str, b - a))[:4]}')


def run_gantt(case, rec):
    quiet()
    from sampo.utilities.schedule import offset_schedule
    from sampo.utilities.visualization.base import VisualizationMode
    from sampo.utilities.visualization.schedule import schedule_gant_chart_fig
    with sut('direct'):
        sch, wg, proj, keep = scheduled(case)
    date = dt.datetime(*case['start'])
    given = date.strftime('%Y-%m-%d') if case['text'] and not case['start'][3] else date
    with sut('direct'):
        df = sch.merged_stages_datetime_df(given) if case['merged'] else offset_schedule(sch.full_schedule_df, given)
        rows = [(r['idx'], r['task_id'], r['task_name']) for _, r in df.iterrows()]
        before = df.copy()
    crit = [wg[i] for i in case['critical']]
    with sut('crash'):
        fig = schedule_gant_chart_fig(df, VisualizationMode.ReturnFig, critical_path=crit, color_type=case['color'])
    require(list(df.columns) == list(before.columns) and df.drop(columns='scheduled_work_object').equals(before.drop(columns='scheduled_work_object')), 'input', 'the table given changed')
    idx, name = {t: i for i, t, _ in rows}, {t: n for _, t, n in rows}
    first = {}
    for i, _, n in rows:
        first.setdefault(n, i)
    want, cards, supplies = [], 0, 0
    works = {w.id: w for w in sch.works}
    require(set(idx) == set(works), 'rows', 'rows of the table differ from the works')
    for i, w in works.items():
        row = first[name[i].split('&')[0]] if ':' in name[i] else idx[i]
        colour = {'contractor': 'Defect' if ':' in name[i] else w.contractor, 'priority': f'Priority {w.priority}',
                  'critical_path': 'Critical path' if i in case['critical'] else 'Not critical path', 'none': ''}[case['color']]
        want.append((row, day(date, oracle.T(w.start_time)), day(date, oracle.T(w.finish_time)), name[i], colour))
        for z in list(w.zones_pre) + list(w.zones_post):
            cards += 1
            want.append((idx[i], day(date, oracle.T(z.start_time)), day(date, oracle.T(z.end_time)), '', 'Access cards' if case['color'] != 'none' else ''))
        for mat, ds in w.materials.delivery.items():
            for count, s, f, holder in ds:
                supplies += 1
                want.append((idx[i], day(date, oracle.T(s)), day(date, oracle.T(f)), '', holder if case['color'] != 'none' else ''))
    same(bars(fig), want, 'bars', 'Gantt chart')
    texts = {t.customdata[k][1]: '|'.join(map(str, t.customdata[k])) for t in fig.data for k in range(len(t.y)) if t.customdata is not None}
    hover = {}
    for t in fig.data:
        for k in range(len(t.y)):
            if t.hovertext[k]:
                hover[t.hovertext[k]] = '|'.join(map(str, t.customdata[k]))
    for i, w in works.items():
        if list(name.values()).count(name[i]) > 1:
            continue
        for z in w.zones_pre:
            require(f'{z.name}: {z.to_status}' in hover[name[i]], 'hover', f'{i}: {hover[name[i]]!r} does not tell of zone {z.name}')
        for mat, ds in w.materials.delivery.items():
            require(all(f'{mat}: {d[0]}' in hover[name[i]] for d in ds), 'hover', f'{i}: {hover[name[i]]!r} does not tell of {mat} {ds}')
        require(i in hover[name[i]], 'hover', f'{i}: {hover[name[i]]!r}')
    rec.nontrivial(cards > 0 or supplies > 0)
    rec.label(case['kind'], case['color'], 'cards' if cards else 'no cards', 'deliveries' if supplies else 'no deliveries')


# ----------------------------------------------------------------------------------------------------------------- workers

@st.composite
def workers_case(draw):
    c = {'kind': 'plain', 'job': draw(drive.job(drive.FAST, big=False)), 'start': draw(START), 'repeat': draw(st.booleans())}
    draw(named(c['job']['proj']))
    return c


def run_workers(case, rec):
    quiet()
    import matplotlib.pyplot as plt
    from sampo.utilities.visualization.base import VisualizationMode
    from sampo.utilities.visualization.resources import EmploymentFigType, get_workers_intervals, resource_employment_fig
    with sut('direct'):
        sch, wg, proj, keep = scheduled(case)
    date = dt.datetime(*case['start'])
    works = list(sch.works)
    low, high = Counter(), Counter()
    for w in works:
        a, b = oracle.T(w.start_time), oracle.T(w.finish_time)
        for x in w.workers:
            for d in range(a, b + 1):
                high[d, x.name] += x.count
                if d < b:
                    low[d, x.name] += x.count
    begin = min(oracle.T(w.start_time) for w in works)
    with sut('direct'):
        df = sch.merged_stages_datetime_df(date)
    snap = list(df.index), list(df.columns)
    for source, first, zero in ((df, day(dt.datetime(date.year, date.month, date.day), begin), begin), (sch, date, 0)):
        what = 'table' if source is df else 'schedule'
        with sut('crash'):
            fig = resource_employment_fig(source, EmploymentFigType.DateLabeled, VisualizationMode.ReturnFig, project_start=date)
        got = {}
        for t in fig.data:
            for i in range(len(t.y)):
                s = t.base[i].to_pydatetime() if hasattr(t.base[i], 'to_pydatetime') else t.base[i]
                s = s if isinstance(s, dt.datetime) else dt.datetime.fromisoformat(str(s)[:26])
                d = (s - first).total_seconds() / 86400 + zero
                require(d == int(d) and t.x[i] == 86400000, 'day', f'{what}: a bar from {s} for {t.x[i]} ms')
                require((int(d), t.y[i]) not in got, 'day', f'{what}: two bars of {t.y[i]} at day {d}')
                got[int(d), t.y[i]] = int(t.customdata[i][0] if t.customdata is not None else t.text[i])
        for k in set(got) | set(low):
            require(low[k] <= got.get(k, 0) <= high[k], 'count', f'{what}: {got.get(k, 0)} of {k[1]} at day {k[0]}, {low[k]} work and up to {high[k]} with those that end')
        with sut('crash'):
            fig = resource_employment_fig(source, EmploymentFigType.WorkLabeled, VisualizationMode.ReturnFig, project_start=date)
        slot, items = {}, []
        ticks = dict(zip(map(str, fig.layout.xaxis.tickvals or ()), fig.layout.xaxis.ticktext or ()))
        for t in fig.data:
            for i in range(len(t.y)):
                s = str(t.base[i])
                label = ticks.get(s, ticks.get(s.replace('T', ' '), ticks.get(s[:19].replace('T', ' '))))
                items.append((label, t.y[i], int(t.customdata[i][0])))
                slot.setdefault(label, set()).add(s)
        same(items, [(w.display_name, x.name, x.count) for w in works for x in w.workers if x.count > 0], 'works', f'workers by works of the {what}')
        names = Counter(w.display_name for w in works if any(x.count for x in w.workers))
        require(all(len(slot[n]) == k for n, k in names.items()), 'works', lambda: f'{what}: places of works {({n: sorted(s) for n, s in slot.items()})}')
        by = sorted((w for w in works if names[w.display_name] == 1 and any(x.count for x in w.workers)), key=lambda w: min(slot[w.display_name]))
        starts = [oracle.T(w.start_time) for w in by]
        require(starts == sorted(starts), 'works', f'{what}: works are placed not in the order of their starts: {starts}')
    require((list(df.index), list(df.columns)) == snap, 'input', 'the table given changed')
    # intervals
    end = max(oracle.T(w.finish_time) for w in works)
    kinds = sorted({x.name for w in works for x in w.workers})
    for grouped in (False, True):
        with sut('crash'):
            iv = get_workers_intervals(sch, grouped)
        seen = Counter()
        for key, ivs in iv.items():
            name = key if grouped else key.rpartition('#')[0]
            last = None
            for a, b in ivs:
                a, b = oracle.T(a), oracle.T(b)
                require(a < b and (last is None or last <= a), 'interval', f'{key}: {ivs}')
                last = b
                for d in range(a, b):
                    seen[d, name] += 1
        for k in set(seen) | set(low):
            want = min(low[k], 1) if grouped else low[k]
            require(seen[k] == want, 'interval', f'{"kinds" if grouped else "workers"}: {seen[k]} busy of {k[1]} at {k[0]}, {want} in the schedule')
        if not grouped:
            for name in kinds:
                nums = sorted(int(k.rpartition('#')[2]) for k in iv if k.rpartition('#')[0] == name)
                peak = max((v for (_, n), v in low.items() if n == name), default=0)
                require(nums == list(range(peak)), 'interval', f'{name}: workers {nums}, the peak is {peak}')
        with sut('crash'):
            fig = resource_employment_fig(sch, EmploymentFigType.Grouped if grouped else EmploymentFigType.Classic, VisualizationMode.ReturnFig)
        ax = fig.axes[0]
        labels = [t.get_text() for t in ax.get_yticklabels()]
        got = [(round(p.get_x()), round(p.get_x() + p.get_width())) for p in ax.patches]
        same(got, [(oracle.T(a), oracle.T(b)) for v in iv.values() for a, b in v], 'drawn', 'intervals of workers')
        plt.close('all')
    rec.nontrivial(any(v > 1 for v in low.values()))
    rec.label(case['job']['alg'], 'shifted' if begin else 'from zero')


# ------------------------------------------------------------------------------------------------------------------- graph

@st.composite
def graph_case(draw):
    proj = draw(gen.works_and_edges(wide=True, min_works=1, max_works=draw(st.sampled_from([4, 9, 16])), edge_types=('FS', 'FS', 'FFS', 'SS', 'FF')))
    ids = [w['id'] for w in proj['works']]
    for w in proj['works']:
        w['group'] = draw(st.sampled_from(['', 'a', 'b']))
        if draw(st.integers(0, 3)) == 0:
            w['model'] = {'granular_name': draw(st.sampled_from(['dig', 'lay`north', 'weld`south`x']))}
    pairs = sorted({(ids[e[0]], ids[e[1]]) for e in proj['edges']})
    some = lambda: [list(p) for p in sorted(draw(st.sets(st.sampled_from(pairs), max_size=4)))] if pairs and draw(st.booleans()) else []
    return {'proj': proj, 'deep': draw(st.sampled_from([None, None, 2, 3, 5])), 'hide': sorted(draw(st.sets(st.sampled_from(ids), max_size=2))) if draw(st.booleans()) else [],
            'black': some(), 'dotted': some(), 'only': draw(st.booleans()), 'arrows': draw(st.integers(0, 5)) > 0, 'names': draw(st.sampled_from(['default', 'own', 'own'])),
            'root': draw(st.sampled_from(ids)) if draw(st.integers(0, 5)) == 0 else None}


def run_graph(case, rec):
    quiet()
    import matplotlib.pyplot as plt
    from matplotlib.colors import to_hex
    from matplotlib.patches import FancyArrow, Rectangle
    from sampo.utilities.visualization.work_graph import X_STEP, Y_STEP, color_from_str, work_graph_fig
    wg = gen.build_wg(case['proj'])
    root = wg[case['root']] if case['root'] else wg.start
    kw = {'jobs2text_function': lambda row: row.work_id} if case['names'] == 'own' else {}
    with sut('crash'):
        fig = work_graph_fig(wg if root is wg.start else root, (6, 6), fig_dpi=50, max_deep=case['deep'], show_names=True, show_arrows=case['arrows'],
                             hide_node_ids=case['hide'], show_only_not_dotted=case['only'], dotted_edges={tuple(p) for p in case['dotted']},
                             black_list_edges={tuple(p) for p in case['black']}, **kw)
    ax = fig.axes[0]
    kids = {n.id: [e.finish.id for e in n.edges_from if e.type.value in ('FS', 'IFS', 'FFS')] for n in wg.nodes}
    near, wave, d = {root.id: 0}, [root.id], 0
    while wave:
        d += 1
        wave = [c for x in wave for c in kids[x] if near.setdefault(c, d) == d]
    shown = {i for i, d in near.items() if d < (case['deep'] or 10 ** 9)}
    far = {}
    for n in wg.nodes:
        if n.id in shown:
            far[n.id] = max([far[p] + 1 for p in shown if p in far and n.id in kids[p]], default=0)
    rects = [p for p in ax.patches if isinstance(p, Rectangle)]
    texts = [t.get_text() for t in ax.texts]
    visible = shown - set(case['hide'])
    require(len(rects) == len(texts), 'works', f'{len(rects)} boxes, {len(texts)} texts')
    if case['names'] == 'own':
        same(texts, list(visible), 'works', 'works of the graph')
        ids = texts
    else:
        label = {i: f'{i} {wg[i].work_unit.name}' for i in visible}
        same(texts, list(label.values()), 'works', 'works of the graph')
        back = {v: k for k, v in label.items()}
        ids = [back[t] for t in texts]
    box = dict(zip(ids, rects))
    at = {}
    for i, r in box.items():
        at[i] = round(r.get_x(), 6), r.get_y()
        require(abs(r.get_x() - far[i]) < 1e-6, 'place', f'{i} stands at {r.get_x()}, the longest path to it has {far[i]} edges')
        require(to_hex(r.get_facecolor()) == color_from_str(wg[i].work_unit.group), 'colour', f'{i}: {to_hex(r.get_facecolor())}')
    require(len(set(at.values())) == len(at), 'overlap', lambda: f'boxes over each other: {[(i, p) for i, p in at.items() if list(at.values()).count(p) > 1]}')
    black, dotted = {tuple(p) for p in case['black']}, {tuple(p) for p in case['dotted']}
    want = []
    for a in visible:
        for b in kids[a]:
            if b in visible and (a, b) not in black and not ((a, b) in dotted and case['only']):
                want.append((round(at[a][0] + X_STEP, 4), round(at[a][1] + Y_STEP / 2, 4), round(at[b][1] + Y_STEP / 2, 4), round(at[b][0], 0), (a, b) in dotted))
    got = [(round(float(x[0]), 4), round(float(y[0]), 4), round(float(y[-1]), 4), round(float(x[-1]) + 0.1, 0), ln.get_linestyle() in (':', 'dotted'))
           for ln in ax.lines for x, y in [ln.get_data()]]
    same(got, want if case['arrows'] else [], 'arrows', 'relations of the graph')
    require(len([p for p in ax.patches if isinstance(p, FancyArrow)]) == len(got), 'arrows', 'lines without heads')
    plt.close('all')
    rec.nontrivial(len({p[0] for p in at.values()}) < len(at))
    rec.label('part' if len(shown) < len(wg.nodes) else 'all', 'hidden' if case['hide'] else 'nothing hidden')


# ----------------------------------------------------------------------------------------------------------------- project

@st.composite
def project_case(draw):
    c = drive.job(drive.FAST, big=False)
    c = draw(c)
    draw(named(c['proj']))
    more = draw(st.booleans())
    if more:
        for e in c['proj']['edges']:
            if e[3] == 'FS' and draw(st.integers(0, 2)) == 0 and all(x is e or {e[0], e[1]} != {x[0], x[1]} for x in c['proj']['edges']):
                e[3] = draw(st.sampled_from(['SS', 'FF']))
    c.update(color=draw(FOUR), start=draw(START), lag=draw(st.booleans()) or more)
    return c


def run_project(case, rec):
    quiet()
    import matplotlib.pyplot as plt
    from sampo.pipeline import SchedulingPipeline
    from sampo.pipeline.lag_optimization import LagOptimizationStrategy
    from sampo.scheduler.utils.critical_path import critical_path_schedule_lag_optimized
    from sampo.schemas.exceptions import NoSufficientContractorError
    from sampo.schemas.time import Time
    proj = case['proj']
    wg, cons, spec = gen.build_wg(proj), gen.build_contractors(proj), gen.build_spec(proj)
    date = dt.datetime(*case['start'])
    text = date.strftime('%Y-%m-%d')
    date = dt.datetime(*case['start'][:3])
    with sut('direct'):
        pipe = SchedulingPipeline.create().wg(wg).contractors(cons).spec(spec).time_shift(Time(case['at'])) \
            .lag_optimize(LagOptimizationStrategy.TRUE if case['lag'] else LagOptimizationStrategy.FALSE)
        pipe = pipe.schedule(sched.make(case['alg'], case['seed']))
        projects = pipe.finish()
    with sut('crash'):
        vis = pipe.visualization(text)
        require(len(vis) == len(projects), 'number', f'{len(vis)} visualizations of {len(projects)} schedules')
        v = vis[0].shape((5, 5)).color_type(case['color'])
        figs = v.get_all_figs()
    require(set(figs) == {'date_labeled_resource_chart', 'work_labeled_resource_chart', 'gant_chart', 'wg'}, 'figures', f'{sorted(figs)}')
    p = projects[0]
    with sut('direct'):
        crit = {n.id for n in critical_path_schedule_lag_optimized(p.raw_wg.nodes, p.raw_schedule.to_schedule_work_dict, p.wg.nodes)}
        works = {w.id: w for w in p.schedule.works}
    want = []
    for i, w in works.items():
        colour = {'contractor': 'Defect' if ':' in w.display_name else w.contractor, 'priority': f'Priority {w.priority}',
                  'critical_path': 'Critical path' if i in crit else 'Not critical path', 'none': ''}[case['color']]
        want.append((day(date, oracle.T(w.start_time)), day(date, oracle.T(w.finish_time)), w.display_name, colour))
    same([b[1:] for b in bars(figs['gant_chart'])], want, 'bars', 'Gantt chart of the project')
    with sut('direct'):
        boxes = len([x for x in figs['wg'].axes[0].patches if type(x).__name__ == 'Rectangle'])
    require(boxes == len(wg.nodes), 'graph', f'{boxes} works are drawn of {len(wg.nodes)}')
    plt.close('all')
    rec.nontrivial(len(p.raw_wg.nodes) > len(wg.nodes))
    rec.label(case['color'], 'stages' if len(p.raw_wg.nodes) > len(wg.nodes) else 'whole works')


SUBS = [Sub('gantt', gantt_case(), run_gantt, quick=250, thorough=3000),
        Sub('workers', workers_case(), run_workers, quick=120, thorough=1500),
        Sub('graph', graph_case(), run_graph, quick=300, thorough=4000),
        Sub('project', project_case(), run_project, quick=120, thorough=1500)]
