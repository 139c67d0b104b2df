"""Times, random intervals and the containers behind the schedulers, against plain Python models."""
import math
import random
from datetime import datetime, timedelta

from hypothesis import strategies as st

from vf.core import Sub, sut, require

PROPERTY = 'C24'
RULE = ('Cases are expressions over times and whole numbers, random intervals with a seed, and sequences of operations on a '
        'container. Non-trivial: an operation of two times, an interval that is not a point, or a sequence that removes or '
        'merges something.')
ASSUMPTIONS = ['Whole random numbers are asked only of intervals that contain one.',
               'Intervals with infinite borders are Gaussian.']
INF = 2_000_000_000

# ---------------------------------------------------------------- times
whole = st.one_of(st.integers(-50, 50), st.integers(-INF - 5, INF + 5),
                  st.sampled_from([INF, INF - 1, -INF, 1 - INF, INF + 1, 0, 1, -1, 10 ** 12]))
BIN = ['+', '-', '*', '//', '/']
CMP = ['<', '<=', '>', '>=', '==', '!=']


def clamp(x):
    return max(-INF, min(INF, x))


@st.composite
def time_case(draw):
    return dict(a=draw(whole), b=draw(whole), c=draw(whole), frac=draw(st.integers(-40, 40)),
                sort=draw(st.lists(whole, min_size=2, max_size=8)))


def run_time(case, rec):
    from sampo.schemas.time import Time
    a, b, c = case['a'], case['b'], case['c']
    rec.nontrivial(a != b and (a, b) != (0, 0))
    ops = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '//': lambda x, y: x // y,
           '/': lambda x, y: x / y}
    cmps = {'<': lambda x, y: x < y, '<=': lambda x, y: x <= y, '>': lambda x, y: x > y, '>=': lambda x, y: x >= y,
            '==': lambda x, y: x == y, '!=': lambda x, y: x != y}
    with sut('crash'):
        ta, tb = Time(a), Time(b)
        require(ta.value == clamp(a) and int(ta) == clamp(a), 'value', f'Time({a}) is {ta.value}')
        require(Time(case['frac'] / 4).value == math.trunc(case['frac'] / 4), 'value', f'Time({case["frac"] / 4}) is not cut to a whole')
        require(bool(ta) == (clamp(a) != 0), 'truth', f'bool(Time({a}))')
        require(ta.is_inf() == (abs(clamp(a)) == INF), 'infinite', f'is_inf of {a}')
        require(Time().value == 0 and Time.inf().value == INF and Time.inf().is_inf(), 'value', 'defaults')
        va, vb = clamp(a), clamp(b)
        for op in BIN:
            if op in ('//', '/') and vb == 0:
                continue
            f = ops[op]
            want = f(va, vb)
            got = f(ta, tb)
            if op == '/':
                require(not isinstance(got, Time) and got == want, 'quotient', f'{a} / {b} gives {got!r}')
                require(f(ta, vb) == want, 'quotient', f'{a} / int {b} gives {f(ta, vb)!r}')
                continue
            require(isinstance(got, Time) and got.value == clamp(want), 'arithmetic', f'Time({a}) {op} Time({b}) gives {got}')
            got = f(ta, b)                                # a plain number on the right is not cut to the range
            want = f(va, b) if b != 0 or op != '//' else want
            require(isinstance(got, Time) and got.value == clamp(want), 'arithmetic', f'Time({a}) {op} {b} gives {got}')
            if op != '//':
                got = f(b, ta)
                require(isinstance(got, Time) and got.value == clamp(f(b, va)), 'arithmetic', f'{b} {op} Time({a}) gives {got}')
            require(ta.value == va and tb.value == vb, 'changed', f'{op} changed an operand')
        for op, f in cmps.items():
            want = f(va, vb)
            require(f(ta, tb) is want, 'comparison', f'Time({a}) {op} Time({b})')
            require(f(ta, vb) is want and f(va, tb) is want, 'comparison', f'Time({a}) {op} {b} with numbers')
        require((ta != tb) or hash(ta) == hash(tb), 'hash', f'equal times {a}, {b} with different hashes')
        require(len({ta, Time(a)}) == 1 and ({ta: 1}[Time(a)] == 1), 'hash', f'equal times {a} differ in a set')
        require(hash(ta) == hash(va), 'hash', f'a time {a} and its number have different hashes')
        require(str(ta) == str(va) and repr(ta) == str(va), 'text', f'str(Time({a})) is {ta}')
        got = [t.value for t in sorted(Time(x) for x in case['sort'])]
        require(got == sorted(clamp(x) for x in case['sort']), 'order', f'sorted times: {got}')
        require(max(Time(x) for x in case['sort']).value == max(clamp(x) for x in case['sort']), 'order', 'max of times')
        # sums of several: exact as long as the partial results stay in the range
        vals = [clamp(x) for x in case['sort']]
        acc, inside = 0, True
        for v in vals:
            acc = clamp(acc + v)
        require(sum((Time(v) for v in vals), start=Time(0)).value == acc, 'sum', f'sum of times {vals}')
        x = Time(a)
        x += Time(b)
        require(x.value == clamp(va + vb) and ta.value == va, 'arithmetic', f'{a} += {b}')
        x.set_time(c)
        require(x.value == clamp(c), 'value', f'set_time({c}) gives {x.value}')


# ---------------------------------------------------------------- dates
@st.composite
def date_case(draw):
    return dict(day=[draw(st.integers(1970, 2060)), draw(st.integers(1, 12)), draw(st.integers(1, 28))],
                clock=[draw(st.integers(0, 23)), draw(st.integers(0, 59)), draw(st.integers(0, 59))],
                n=draw(st.integers(-3000, 9000)), unit=draw(st.sampled_from(['days', 'hours', 'minutes', 'seconds', 'weeks'])),
                text=draw(st.sampled_from(['iso', 'object'])), fmt=draw(st.booleans()), kind=draw(st.sampled_from(['time', 'int', 'float'])))


def run_date(case, rec):
    from sampo.schemas.time import Time
    from sampo.utilities.datetime_util import add_time_delta, parse_datetime
    rec.nontrivial(case['n'] != 0)
    day, full = datetime(*case['day']), datetime(*case['day'], *case['clock'])
    n = {'time': Time(case['n']), 'int': case['n'], 'float': float(case['n'])}[case['kind']]
    with sut('crash'):
        require(parse_datetime(day.strftime('%Y-%m-%d')) == day, 'date', f'{day}')
        require(parse_datetime(full.strftime('%y-%m-%d %H:%M:%S')).replace(year=full.year) == full, 'date', f'{full}')
        require(parse_datetime(full.strftime('%d.%m.%Y %H:%M:%S'), '%d.%m.%Y %H:%M:%S') == full, 'date', f'{full}')
        if case['text'] == 'iso':
            got, want = add_time_delta(day.strftime('%Y-%m-%d'), n, case['unit']), day + timedelta(**{case['unit']: case['n']})
        else:
            got, want = add_time_delta(full, n, case['unit']), full + timedelta(**{case['unit']: case['n']})
        require(got == want, 'date', f'{case["n"]} {case["unit"]} later: {got}, not {want}')
        if case['unit'] == 'days':
            require(add_time_delta(full, n) == full + timedelta(days=case['n']), 'date', 'days are not what is added by default')


# ---------------------------------------------------------------- intervals
@st.composite
def interval_case(draw):
    lo = draw(st.integers(-80, 80))
    hi = lo + draw(st.integers(0, 120))
    return dict(kind=draw(st.sampled_from(['uniform', 'gauss', 'gauss'])), lo=lo, hi=hi,
                mean=draw(st.integers(-120, 120)), sigma=draw(st.sampled_from([0, 1, 4, 40])),
                open=draw(st.sampled_from(['none', 'none', 'low', 'high', 'both'])),
                seed=draw(st.integers(0, 2 ** 30)), own=draw(st.booleans()))


def run_interval(case, rec):
    from sampo.schemas.interval import IntervalGaussian, IntervalUniform
    lo, hi = case['lo'] / 4, case['hi'] / 4
    if case['kind'] == 'uniform':
        make = lambda r=None: IntervalUniform(lo, hi, r) if r else IntervalUniform(lo, hi)
        down, up, mean = lo, hi, (lo + hi) / 2
    else:
        down = -math.inf if case['open'] in ('low', 'both') else lo
        up = math.inf if case['open'] in ('high', 'both') else hi
        mean = case['mean'] / 4
        make = lambda r=None: IntervalGaussian(mean, case['sigma'] / 4, down, up, r) if r else \
            IntervalGaussian(mean, case['sigma'] / 4, down, up)
        if case['open'] == 'both' and not case['own']:
            make = lambda r=None: IntervalGaussian(mean, case['sigma'] / 4)
    rec.nontrivial(up > down and (case['kind'] == 'uniform' or case['sigma'] > 0))
    rec.label(case['kind'], f'open:{case["open"]}' if case['kind'] != 'uniform' else '')
    n = 120

    def draws(f):
        r = random.Random(case['seed'])
        if case['own'] and not (case['open'] == 'both' and not case['own']):
            x = make(r)
            return [getattr(x, f)() for _ in range(n)]
        x = make()
        return [getattr(x, f)(r) for _ in range(n)]

    with sut('crash'):
        require(make().mean == mean, 'mean', f'{make().mean} instead of {mean}')
        xs = draws('rand_float')
        require(all(down <= x <= up for x in xs), 'borders', f'float outside [{down}, {up}]: {min(xs)}..{max(xs)}')
        require(draws('rand_float') == xs, 'seed', 'equal seeds give different floats')
        whole_in = math.ceil(down) <= math.floor(up) if math.isfinite(down) and math.isfinite(up) else True
        ks = []
        if whole_in:
            ks = draws('rand_int')
            require(all(isinstance(k, int) for k in ks), 'whole', f'not whole numbers: {ks[:3]}')
            require(all(down <= k <= up for k in ks), 'borders', f'int outside [{down}, {up}]: {min(ks)}..{max(ks)}')
            require(draws('rand_int') == ks, 'seed', 'equal seeds give different ints')
        # the generator given in the call is the one used, also when the interval has its own
        own = random.Random(1)
        state = own.getstate()
        x = make(own) if not (case['kind'] == 'gauss' and case['open'] == 'both' and not case['own']) else make()
        require([x.rand_float(r) for r in [random.Random(case['seed'])] for _ in range(n)] == xs, 'source',
                'the generator given is not the one used')
        if ks:
            r = random.Random(case['seed'])
            require([x.rand_int(r) for _ in range(n)] == ks, 'source', 'the generator given is not the one used for whole numbers')
        require(own.getstate() == state, 'source', 'the generator of the interval is used though another was given')
        if case['kind'] == 'uniform':
            if up > down:
                mid = (up + down) / 2
                require(min(xs) < mid < max(xs), 'spread', f'{n} uniform numbers all in one half of [{down}, {up}]')
                q1, q3 = down + (up - down) / 4, up - (up - down) / 4
                require(min(xs) < q1 and max(xs) > q3, 'spread', f'{n} uniform numbers leave a quarter of [{down}, {up}] empty')
                if ks and math.floor(up) > math.ceil(down):
                    require(len(set(ks)) > 1, 'spread', f'{n} whole numbers from [{down}, {up}] are all {ks[0]}')
        else:
            sigma = case['sigma'] / 4
            free = IntervalGaussian(mean, sigma)
            r = random.Random(case['seed'])
            ys = [free.rand_float(r) for _ in range(n)]
            require([min(max(y, down), up) for y in ys] == xs, 'shape', 'borders change numbers that lie inside them')
            require(all(abs(y - mean) <= 10 * sigma + 1e-9 for y in ys), 'shape', f'number {max(ys)} far from the mean {mean}')
            require(abs(sum(ys) / n - mean) <= sigma + 1e-9, 'shape', f'mean of {n} numbers {sum(ys) / n} instead of {mean}')
            if sigma:
                dev = (sum((y - mean) ** 2 for y in ys) / n) ** 0.5
                require(0.4 * sigma <= dev <= 2 * sigma, 'shape', f'deviation {dev} instead of {sigma}')
            if ks:
                lo_k = math.ceil(down) if math.isfinite(down) else -math.inf
                hi_k = math.floor(up) if math.isfinite(up) else math.inf
                require(all(abs(k - min(max(y, lo_k), hi_k)) <= 0.5 + 1e-9 for k, y in zip(ks, ys)), 'shape',
                        'whole numbers are not the rounded ones')


# ---------------------------------------------------------------- containers
ops = st.lists(st.tuples(st.sampled_from(['append', 'append', 'remove_if', 'iter', 'walk']), st.integers(0, 9)), min_size=1, max_size=12)


@st.composite
def linked_case(draw):
    return dict(start=draw(st.lists(st.integers(0, 9), max_size=8)), ops=[list(o) for o in draw(ops)])


def run_linked(case, rec):
    from sampo.utilities.linked_list import LinkedList
    model = list(case['start'])
    with sut('crash'):
        lst = LinkedList(case['start'])
        for op, x in case['ops']:
            if op == 'append':
                lst.append(x)
                model.append(x)
            elif op == 'remove_if':
                rec.nontrivial(any(v % 3 == x % 3 for v in model))
                seen = []
                lst.remove_if(lambda v: (seen.append(v), v % 3 == x % 3)[1])
                require(seen == model, 'visits', f'remove_if looked at {seen}, not at {model}')
                model = [v for v in model if v % 3 != x % 3]
            elif op == 'walk':
                it, out, keep = lst.iterator(), [], []
                k = 0
                while it.has_next():
                    v = it.get().value
                    out.append(v)
                    if k % (x + 1) == x:
                        require(it.remove() == v, 'removed', f'removed another value than {v}')
                    else:
                        keep.append(v)
                        it.next()
                    k += 1
                require(out == model, 'visits', f'walked over {out}, not {model}')
                rec.nontrivial(keep != model)
                model = keep
            require(list(lst) == model, 'content', f'{list(lst)} instead of {model} after {op}')
            require(len(lst) == len(model) and lst.is_empty() == (not model), 'length', f'{len(lst)} instead of {len(model)}')


@st.composite
def sorted_case(draw):
    keys = draw(st.lists(st.integers(-20, 20), unique=True, max_size=30))
    if draw(st.integers(0, 9)) == 0:
        keys = list(range(draw(st.integers(1990, 2600))))      # beyond the load factor of the list
        random.Random(1).shuffle(keys)
        keys = keys[:2100]
    return dict(keys=keys, ops=[list(o) for o in draw(st.lists(
        st.tuples(st.sampled_from(['add', 'merge', 'merge', 'set', 'new']), st.integers(-25, 2700), st.integers(1, 9)), max_size=14))])


def run_sorted(case, rec):
    from sampo.schemas.sorted_list import ExtendedSortedList
    model = {k: 1 for k in case['keys']}
    with sut('crash'):
        lst = ExtendedSortedList(iterable=[(k, 1) for k in case['keys']], key=lambda x: x[0])
        for op, k, v in case['ops']:
            if op == 'add' and k not in model:
                lst.add((k, v))
                model[k] = v
            elif op == 'merge' and model:
                key = sorted(model)[k % len(model)]
                rec.nontrivial()
                lst.merge((key, model[key]), (key, v), lambda old, new: (old[0], 10 * old[1] + new[1]))
                model[key] = 10 * model[key] + v
            elif op == 'set' and model:
                i = k % len(model)
                key = sorted(model)[i]
                rec.nontrivial()
                lst[i] = (key, v)
                model[key] = v
            elif op == 'new' and k not in model:
                lst.merge((k, 0), (k, v), lambda old, new: (old[0], 10 * old[1] + new[1]))
                model[k] = v
            want = sorted(model.items())
            require(list(lst) == want, 'content', f'after {op} {k}: {list(lst)[:5]}..., not {want[:5]}...')
            require(len(lst) == len(want), 'length', f'{len(lst)} instead of {len(want)}')
            if want:
                j = k % len(want)
                require(lst[j] == want[j], 'index', f'element {j} is {lst[j]}, not {want[j]}')
                require(lst.bisect_key_left(want[j][0]) == j and lst.bisect_key_right(want[j][0]) == j + 1, 'index',
                        f'position of {want[j][0]}')


@st.composite
def queue_case(draw):
    return dict(start=draw(st.lists(st.integers(-9, 9), max_size=8)), descending=draw(st.booleans()), square=draw(st.booleans()),
                ops=[list(o) for o in draw(st.lists(st.tuples(st.sampled_from(['add', 'pop', 'replace']), st.integers(-9, 9),
                                                              st.integers(-9, 9)), max_size=12))])


def run_queue(case, rec):
    from sampo.utilities.priority_queue import PriorityQueue
    key = (lambda x: x * x) if case['square'] else (lambda x: x)
    model = list(case['start'])
    best = min if case['descending'] else max
    with sut('crash'):
        q = PriorityQueue(list(case['start']), case['descending'], key)
        for op, a, b in case['ops']:
            if op == 'add':
                q.add(a)
                model.append(a)
            elif op == 'replace' and model:
                old = model[a % len(model)]
                q.replace(old, b)
                model.remove(old)
                model.append(b)
                rec.nontrivial()
            elif op == 'pop' and model:
                x = q.extract_extremum()
                require(x in model and key(x) == best(map(key, model)), 'extremum', f'{x} out of {model}')
                model.remove(x)
                rec.nontrivial()
            require(len(q) == len(model), 'length', f'{len(q)} instead of {len(model)}')
        out = []
        while len(q):
            out.append(q.extract_extremum())
        require(sorted(out) == sorted(model), 'content', f'{out} instead of {model}')
        require([key(x) for x in out] == sorted(map(key, model), reverse=not case['descending']), 'order', f'{out}')


@st.composite
def apply_case(draw):
    return dict(x=draw(st.integers(-9, 9)), two=draw(st.booleans()),
                fs=[list(f) for f in draw(st.lists(st.tuples(st.sampled_from(['+', '*', '-']), st.integers(-4, 4), st.integers(-4, 4)), max_size=6))],
                groups=draw(st.lists(st.integers(0, 4), max_size=10)),
                nested=draw(st.recursive(st.integers(0, 9), lambda s: st.lists(s, max_size=3), max_leaves=8)))


def run_apply(case, rec):
    from sampo.schemas.apply_queue import ApplyQueue
    from sampo.utilities.priority import extract_priority_groups_from_indices
    from sampo.utilities.collections_util import build_index, flatten, reverse_dictionary
    fns = {'+': lambda x, a, b: x + a + b, '*': lambda x, a, b: x * a + b, '-': lambda x, a, b: a - x - b}
    rec.nontrivial(len(case['fs']) > 1)
    with sut('crash'):
        q = ApplyQueue()
        require(q.empty(), 'queue', 'a new queue is not empty')
        want = case['x']
        for f, a, b in case['fs']:
            require(q.add(fns[f], a, b) is q, 'queue', 'add does not return the queue')
            want = fns[f](want, a, b)
        require(q.empty() == (not case['fs']), 'queue', 'empty')
        require(q.apply(case['x']) == want, 'queue', f'{q.apply(case["x"])} instead of {want}')
        require(q.apply(case['x']) == want, 'queue', 'the second run differs from the first')
        groups = extract_priority_groups_from_indices(case['groups'])
        require(groups == {g: [i for i, x in enumerate(case['groups']) if x == g] for g in set(case['groups'])}, 'groups', f'{groups}')

        def flat(x):
            return [z for y in x for z in flat(y)] if isinstance(x, list) else [x]
        xs = case['nested'] if isinstance(case['nested'], list) else [case['nested']]
        require(list(flatten(xs)) == flat(xs), 'flatten', f'{xs}')
        idx = build_index(case['groups'], lambda x: x * 2, lambda x: x + 1)
        require(idx == {x * 2: x + 1 for x in case['groups']}, 'index', f'{idx}')
        require(reverse_dictionary(idx) == {v: k for k, v in idx.items()}, 'index', 'reverse')


SUBS = [
    Sub('time', time_case(), run_time, quick=1500, thorough=20000),
    Sub('dates', date_case(), run_date, quick=400, thorough=4000),
    Sub('intervals', interval_case(), run_interval, quick=900, thorough=12000),
    Sub('linked-list', linked_case(), run_linked, quick=700, thorough=8000),
    Sub('sorted-list', sorted_case(), run_sorted, quick=500, thorough=5000),
    Sub('priority-queue', queue_case(), run_queue, quick=500, thorough=6000),
    Sub('sequences', apply_case(), run_apply, quick=400, thorough=4000),
]
