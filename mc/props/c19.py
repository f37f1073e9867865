"""C19: caching containers and cached functions act like what they stand for."""
import gc
import itertools
import weakref
from typing import Any, Dict, List, Literal, Optional, Union

from mc.core import Property, require

import marsh
from marsh import utils


def call(fn, *args):
    try:
        return 'ok', fn(*args)
    except Exception as err:
        return 'raised', type(err)


# -- SafeDict -------------------------------------------------------------------

def keys():
    return [1, True, 1.0, 'a', 'b', (1,), [1], [2], ([1],), {}, {'k': 1}, None, [True]]


class Pairs:
    """What a dict would be if every key could be used."""

    def __init__(self):
        self.items = []

    def index(self, key):
        for i, (k, _) in enumerate(self.items):
            if k == key:
                return i
        raise KeyError(key)

    def set(self, key, value):
        try:
            i = self.index(key)
            self.items[i] = (self.items[i][0], value)
        except KeyError:
            self.items.append((key, value))

    def get(self, key):
        return self.items[self.index(key)][1]

    def delete(self, key):
        del self.items[self.index(key)]

    def pop(self, key):
        value = self.get(key)
        self.delete(key)
        return value

    def clear(self):
        self.items = []


def shape(x):
    """Distinguishes 1, True and 1.0."""
    return repr(x)


DICT_OPS = [('set', k) for k in range(len(keys()))] + [('del', k) for k in (0, 3, 5, 6, 7, 8, 9)] + [('pop', 6), ('pop', 3), ('clear', None), ('default', 6), ('default', 3), ('update', None)]


def check_dict(d, model, what):
    require(len(d) == len(model.items), f'{what}: length {len(d)}, expected {len(model.items)}')
    for view, expect in (
        (list(d), [k for k, _ in model.items]),
        (list(reversed(d)), [k for k, _ in reversed(model.items)]),
        (list(d.items()), model.items),
        (list(d.values()), [v for _, v in model.items]),
    ):
        require(shape(view) == shape(expect), f'{what}: {view!r}, expected {expect!r}')
    for k in keys() + [[3], 'z', {1}]:
        got, expect = call(lambda: d[k]), call(model.get, k)
        require(shape(got) == shape(expect), f'{what}: [{k!r}] gives {got!r}, expected {expect!r}')
        require((k in d) == (expect[0] == 'ok'), f'{what}: {k!r} in it')
        require(d.get(k, 'no') == (expect[1] if expect[0] == 'ok' else 'no'), f'{what}: get of {k!r}')


# -- cached functions -----------------------------------------------------------

ARGS = [((1,), {}), ((2,), {}), ((True,), {}), (([1],), {}), ((), {'x': 1}), ((), {'x': [1]}), ((1,), {'y': 2})]


def cached_calls(binding, typed, maxsize, safe):
    log = []

    if binding is None:
        @utils.cache(maxsize=maxsize, typed=typed, safe=safe)
        def f(x, y=0):
            log.append(None)
            return [x, y, len(log)]
        return log, f, {0: f}, lambda i: None

    class Obj:
        def __init__(self, name):
            self.name = name

        @utils.cache(maxsize=maxsize, typed=typed, safe=safe, binding=binding)
        def f(self, x, y=0):
            """Doc of f."""
            log.append(None)
            return [self.name, x, y, len(log)]

    objs = {0: Obj('p'), 1: Obj('q')}

    def drop(i):
        ref = weakref.ref(objs[i])
        del objs[i]
        gc.collect(0)
        require(binding != 'weak' or ref() is None, 'an object with cached results is kept alive')
        objs[i] = Obj('pq'[i] + "'")
    return log, Obj.f, objs, drop


class Calls:
    """Which results may be given again."""

    def __init__(self, binding, typed, maxsize):
        self.binding, self.typed, self.maxsize = binding, typed, maxsize
        self.entries = []        # most recently used last
        self.enabled = True

    def key(self, who, args, kwargs):
        def tag(v):
            return (type(v), v) if self.typed else v
        return (None if self.binding == 'ignore' else who, [tag(a) for a in args], [(k, tag(v)) for k, v in kwargs.items()])

    def exact(self, who, args, kwargs):
        return repr((None if self.binding == 'ignore' else who, args, kwargs))


CALL_OPS = [('call', 0, a) for a in range(len(ARGS))] + [('call', 1, a) for a in (0, 1, 3)] + [('clear',), ('disable',), ('enable',), ('drop', 0)]


def run_calls(config, ops, stats):
    binding, typed, maxsize, safe = config
    log, f, objs, drop = cached_calls(*config)
    model = Calls(binding, typed, maxsize)
    generation = {0: 0, 1: 0}
    hits = misses = 0
    for n, op in enumerate(ops):
        what = f'cache{config} {ops[:n + 1]}'
        stats.step()
        if op[0] == 'clear':
            f.cache_clear()
            model.entries = []
            hits = misses = 0
        elif op[0] == 'disable':
            f.cache_disable()
            model.enabled = False
        elif op[0] == 'enable':
            f.cache_enable()
            model.enabled = True
        elif op[0] == 'drop':
            if binding is not None:
                drop(op[1])
                generation[op[1]] += 1
        else:
            _, who, a = op
            who = who if binding else 0
            args, kwargs = ARGS[a]
            label = 'pq'[who] + "'" * bool(generation[who])
            before = len(log)
            fn = lambda args, kwargs: objs[who](*args, **kwargs) if binding is None else objs[who].f(*args, **kwargs)
            kind, value = call(fn, args, kwargs)
            del fn
            called = len(log) > before
            hashable = 'x' not in kwargs or kwargs['x'] == 1
            hashable = hashable and args != ([1],)
            if not hashable and not safe and model.enabled:
                require((kind, value) == ('raised', TypeError), f'{what}: {kind} {value!r} for an argument that can not be hashed')
                continue
            require(kind == 'ok', f'{what}: raised {value}')
            fresh = [label] * (binding is not None) + [args[0] if args else kwargs['x'], kwargs.get('y', 0), len(log)]
            if called:
                require(shape(value) == shape(fresh), f'{what}: {value!r} instead of {fresh!r}')
            ident = (label, generation[who])
            key, exact = model.key(ident, args, kwargs), model.exact(ident, args, kwargs)
            same = [e for e in model.entries if e[0] == key]
            if not model.enabled or not hashable:
                require(called, f'{what}: the function was not called')
                continue
            if called:
                misses += 1
                require(not any(e[1] == exact for e in same), f'{what}: called again for the same arguments')
                model.entries = [e for e in model.entries if e[1] != exact] + [(key, exact, value)]
                if maxsize is not None and len(model.entries) > maxsize:
                    model.entries = model.entries[len(model.entries) - maxsize:]
            else:
                hits += 1
                found = [e for e in same if e[2] is value]
                require(found, f'{what}: {value!r} is not a result for these arguments')
                model.entries = [e for e in model.entries if e is not found[0]] + found
            info = f.cache_info()
            require((info.hits, info.misses, info.maxsize) == (hits, misses, maxsize), f'{what}: {info}, expected {hits} hits and {misses} misses')
    require(f.__name__ == 'f' and (binding is None or f.__doc__ == 'Doc of f.'), 'the name and doc of a cached function')
    stats.outcome((hits, misses, len(log)))


# -- which calls are the same ---------------------------------------------------

CALL_VALUES = [1, True, 1.0, 'x', 'y', (), (1,), int, None]


def every_call(values):
    yield from ((args, {}) for n in range(3) for args in itertools.product(values, repeat=n))
    for n in range(2):
        for args in itertools.product(values, repeat=n):
            for names in (('x',), ('y',), ('x', 'y'), ('y', 'x')):
                for given in itertools.product(values, repeat=len(names)):
                    yield args, dict(zip(names, given))


def run_every_call(config, values, stats):
    """No two calls share a result unless they are the same call."""
    binding, typed, safe = config
    log = []

    class Obj:
        @utils.cache(maxsize=None, typed=typed, safe=safe, binding=binding or 'ignore')
        def f(self, *args, **kwargs):
            log.append(None)
            return args, kwargs

    @utils.cache(maxsize=None, typed=typed, safe=safe)
    def plain(*args, **kwargs):
        log.append(None)
        return args, kwargs
    fn = Obj().f if binding else plain
    calls = list(every_call(values))
    for again in (False, True):
        for args, kwargs in calls:
            stats.step()
            before = len(log)
            got = fn(*args, **kwargs)
            what = f'cache(binding={binding}, typed={typed}, safe={safe}): called with {args} {kwargs}'
            require(got == (args, kwargs), f'{what}: the result of {got}')
            if typed:
                types = lambda c: ([type(v) for v in c[0]], {k: type(v) for k, v in c[1].items()})
                require(types(got) == types((args, kwargs)), f'{what}: the result of {got}')
            require(not again or len(log) == before, f'{what}: called again')
        stats.outcome((config, again, len(log)))


def run_every_key(typed, values, stats):
    """Keys made from arguments are equal where the arguments are."""
    make = utils.make_typed_hash_key if typed else utils.make_hash_key
    made = {}
    tag = (lambda v: (v, type(v))) if typed else lambda v: v
    for args, kwargs in every_call(values):
        stats.step()
        key = make(*args, **kwargs)
        same = (tuple(map(tag, args)), frozenset((k, tag(v)) for k, v in kwargs.items()))
        first = made.setdefault(key, same)
        require(first == same, f'the keys made from {first} and {same} are equal')
        again = make(*args, **kwargs)
        require(again == key and hash(again) == hash(key), f'two keys made from {same} differ')
    stats.outcome((typed, len(made)))


# -- ValueCache -----------------------------------------------------------------

VALUE_OPS = [('set', k) for k in range(len(keys()))] + [('del', k) for k in (0, 3, 6, 8)] + [('get', 0), ('get', 6), ('get', 4), ('clear',), ('disable',), ('enable',)]


def run_values(typed, ops, stats):
    ks = keys()
    cache, model = utils.ValueCache(typed=typed), Pairs()
    disabled = False
    hits = misses = 0
    for n, op in enumerate(ops):
        what = f'ValueCache(typed={typed}) {[(o[0], ks[o[1]]) if len(o) > 1 else o for o in ops[:n + 1]]}'
        stats.step()
        k = ks[op[1]] if len(op) > 1 else None
        mk = (type(k), k) if typed else k
        if op[0] == 'set':
            cache[k] = n
            if not disabled:
                model.set(mk, n)
        elif op[0] == 'del':
            got, expect = call(cache.__delitem__, k), call(model.delete, mk)
            require(got == expect, f'{what}: {got}, expected {expect}')
        elif op[0] == 'get':
            got = call(cache.__getitem__, k)
            expect = ('raised', KeyError) if disabled else call(model.get, mk)
            if not disabled:
                hits += expect[0] == 'ok'
                misses += expect[0] != 'ok'
            require(got == expect, f'{what}: {got}, expected {expect}')
        elif op[0] == 'clear':
            cache.cache_clear()
            model.clear()
            hits = misses = 0
        elif op[0] == 'disable':
            cache.cache_disable()
            disabled = True
        else:
            cache.cache_enable()
            disabled = False
    info = cache.cache_info()
    require((info.hits, info.misses, info.currsize, len(cache)) == (hits, misses, len(model.items), len(model.items)), f'{what}: {info}, expected {(hits, misses, len(model.items))}')
    cache.cache_enable()
    for k in ks:
        got, expect = call(cache.__getitem__, k), call(model.get, (type(k), k) if typed else k)
        require(got == expect, f'{what}: then {k!r} gives {got}, expected {expect}')


# -- CachePool -------------------------------------------------------------------

POOL_OPS = [('function', 'a'), ('method', 'b'), ('values', 'c'), ('values', 'a'), ('call', 1), ('call', 2), ('use',), ('clear',), ('disable',), ('enable',), ('clear one',), ('disable one',), ('enable one',)]


def run_pool(ops, stats):
    """A pool does to each of the caches in it what it is asked to do, and nothing to others."""
    pool = utils.CachePool()
    outside = utils.cache(lambda x: [x])
    outside(5)
    model = {}               # name: [cache, enabled, stored, hits, misses, use]
    everything = []
    for n, op in enumerate(ops):
        what = f'CachePool {ops[:n + 1]}'
        stats.step()
        if op[0] in ('function', 'method', 'values'):
            entry = {'on': True, 'stored': {}, 'hits': 0, 'misses': 0, 'kind': op[0]}
            if op[0] == 'function':
                entry['cache'] = entry['use'] = pool.new_callable_cache(lambda x: [x], name=op[1])
            elif op[0] == 'method':
                class Obj:
                    @pool.new_callable_cache(name=op[1], typed=True, binding='weak')
                    def get(self, x):
                        return [x]
                entry['cache'], entry['use'], entry['obj'] = Obj.get, Obj().get, Obj
            else:
                entry['cache'] = pool.new_value_cache(op[1])
            model[op[1]] = entry
            everything.append(entry)
        elif op[0] in ('clear', 'disable', 'enable'):
            getattr(pool, 'cache_' + op[0])()
            for entry in model.values():
                if op[0] == 'clear':
                    entry.update(stored={}, hits=0, misses=0)
                else:
                    entry['on'] = op[0] == 'enable'
        elif op[0].endswith(' one'):
            for name, entry in list(model.items())[:1]:
                getattr(pool[name], 'cache_' + op[0][:-4])()
                if op[0] == 'clear one':
                    entry.update(stored={}, hits=0, misses=0)
                else:
                    entry['on'] = op[0] == 'enable one'
        else:
            for entry in everything:
                if op[0] == 'call' and entry['kind'] != 'values':
                    x = op[1]
                    got = entry['use'](x)
                    require(got == [x], f'{what}: {got}')
                    if entry['on']:
                        if x in entry['stored']:
                            entry['hits'] += 1
                            require(got is entry['stored'][x], f'{what}: called again')
                        else:
                            entry['misses'] += 1
                            entry['stored'][x] = got
                    else:
                        require(all(got is not v for v in entry['stored'].values()), f'{what}: a stored result')
                elif op[0] == 'use' and entry['kind'] == 'values':
                    got = call(lambda: entry['cache']['k'])
                    expect = ('ok', 7) if entry['on'] and 'k' in entry['stored'] else ('raised', KeyError)
                    require(got == expect, f'{what}: {got}, expected {expect}')
                    if entry['on']:
                        entry['hits' if expect[0] == 'ok' else 'misses'] += 1
                        entry['stored']['k'] = 7
                    entry['cache']['k'] = 7
        require(list(pool) == list(model) and len(pool) == len(model) and all(pool[k] is v['cache'] for k, v in model.items()), f'{what}: holds {list(pool)}')
        info = pool.cache_info()
        expect = {k: (v['hits'], v['misses'], len(v['stored'])) for k, v in model.items()}
        got = {k: (v.hits, v.misses, v.currsize) for k, v in info.items()}
        require(got == expect, f'{what}: {got}, expected {expect}')
        require(outside.cache_info()[:2] == (0, 1), f'{what}: another cache was affected')
    stats.outcome(tuple(sorted(expect.items())))


# -- WeakTypeCache --------------------------------------------------------------

TYPE_OPS = [('add', t) for t in 'pqr'] + [('new', 'p'), ('drop', 'q'), ('drop', 'r'), ('skip',), ('alias',), ('clear',), ('walk',)]


def run_types(ops, stats):
    cache = utils.WeakTypeCache(skip_types={int, str})
    live = {n: type(n, (), {}) for n in 'pqr'}
    order = []
    walk, seen, expect_walk = None, [], None
    for n, op in enumerate(ops):
        stats.step()
        if op[0] == 'add':
            cache.add(live[op[1]])
            order = [t for t in order if t is not live[op[1]]] + [live[op[1]]]
        elif op[0] == 'new':
            # another type of the same name
            cache.add(type(op[1], (), {}))
            gc.collect(0)
        elif op[0] == 'drop':
            order = [t for t in order if t is not live[op[1]]]
            live[op[1]] = type(op[1], (), {})
            gc.collect()
        elif op[0] == 'skip':
            cache.add(int)
            cache.add(str)
        elif op[0] == 'alias':
            cache.add(List[live['p']])
            cache.add(Optional[int])
            cache.add(Union[int, str])
            cache.add(Dict[str, Any])
        elif op[0] == 'clear':
            cache.clear()
            order = []
        else:
            walk = None
            gc.collect()
            walk = iter(cache)
            first = next(walk, None)
            require(first is (order[-1] if order else None), f'{ops}: begins with {first}, expected {order}')
            del first
    # an iteration that is not finished goes on, whatever happened meanwhile
    left = list(map(id, walk)) if walk is not None else []
    require(len(set(left)) == len(left), f'{ops}: a type twice')
    walk = None
    gc.collect()
    got = list(cache)
    require([id(t) for t in got] == [id(t) for t in reversed(order)], f'{ops}: holds {got}, expected {order[::-1]}')
    require(len(cache) == len(order), f'{ops}: length {len(cache)}, expected {len(order)}')
    for t in (*live.values(), int, str, float):
        require((t in cache) == any(t is o for o in order), f'{ops}: {t} in it')
    stats.outcome(tuple(t.__name__ for t in order))


# -- IterableFromIterator ---------------------------------------------------------

def run_iterable(length, fail, ops, stats):
    consumed = []

    def source():
        for i in range(length):
            consumed.append(i)
            yield [i]
        if fail:
            raise LookupError('end')

    it = utils.IterableFromIterator(source())
    readers, given = {}, {}
    most = 0
    first = {}
    failed = False
    for n, op in enumerate(ops):
        what = f'{length} values{" and an error" if fail else ""}: {ops[:n + 1]}'
        stats.step()
        at_end = lambda: ('raised', LookupError) if fail and not failed else None
        if op[0] == 'next':
            r = op[1]
            if r not in readers:
                readers[r], given[r] = iter(it), 0
            got = call(lambda: next(readers[r], 'end'))
            if given[r] is None:
                require(got == ('ok', 'end'), f'{what}: {got} after the end')
                continue
            if given[r] < length:
                require(got == ('ok', [given[r]]), f'{what}: {got}, expected {[given[r]]}')
                first.setdefault(given[r], got[1])
                require(first[given[r]] is got[1], f'{what}: not the same value as for other readers')
                given[r] += 1
                most = max(most, given[r])
            else:
                expect = ('raised', LookupError) if fail and not failed else ('ok', 'end')
                require(got == expect, f'{what}: {got}, expected {expect}')
                failed = failed or fail
                given[r] = None
        elif op[0] == 'bool':
            got = call(bool, it)
            expect = ('raised', LookupError) if fail and not failed and length == 0 else ('ok', length > 0)
            require(got == expect, f'{what}: {got}, expected {expect}')
            failed = failed or expect[0] == 'raised'
            most = max(most, min(1, length))
        elif op[0] == 'list':
            got = call(list, it)
            expect = ('raised', LookupError) if fail and not failed else ('ok', [[i] for i in range(length)])
            require(got == expect, f'{what}: {got}, expected {expect}')
            failed = failed or fail
            most = length
        else:
            readers.pop(op[1], None)
            given.pop(op[1], None)
        require(consumed == list(range(most)), f'{what}: consumed {consumed}, needed {most}')
    stats.outcome((length, most))


ITER_OPS = [('next', 0), ('next', 1), ('next', 2), ('bool',), ('list',), ('stop', 0)]
CONFIGS = [(b, t, m, s) for b in (None, 'weak', 'ignore') for t in (False, True) for m in (None, 1, 2) for s in (True, False)]


class C19(Property):
    id = 'C19'
    bounds = (
        f'every sequence of up to 4 (thorough 5) of {len(DICT_OPS)} operations on the mapping for any key, 3 (4) of {len(VALUE_OPS)} on the value cache, typed and not, '
        f'3 (4) of {len(CALL_OPS)} on cached functions and methods in {len(CONFIGS)} configurations, 4 (5) of {len(TYPE_OPS)} on the cache of types, 4 (5) of {len(POOL_OPS)} on a pool of caches, '
        f'5 (7) of {len(ITER_OPS)} on lazily consumed iterators of 0 to 3 values that end or fail; '
        f'every call of cached functions with up to 2 positional arguments and 2 keywords in either order, of 2 sets of 5 or 6 (7 or 8) values'
    )

    def setup(self, tier):
        gc.collect()
        gc.freeze()

    def cases(self, tier):
        more = tier != 'quick'
        for config in itertools.product((None, 'weak', 'ignore'), (False, True), (False, True)):
            yield 'every', config, 4 + 2 * more
        for first in itertools.product(range(len(DICT_OPS)), repeat=2 + more):
            yield 'dict', first, 2
        for typed in (False, True):
            for first in itertools.product(range(len(VALUE_OPS)), repeat=1 + more):
                yield 'values', typed, first, 2
        for config in range(len(CONFIGS)):
            for first in itertools.product(range(len(CALL_OPS)), repeat=1 + more):
                yield 'calls', config, first, 2
        for first in itertools.product(range(len(TYPE_OPS)), repeat=2 + more):
            yield 'types', first, 2
        for first in itertools.product(range(len(POOL_OPS)), repeat=2 + more):
            yield 'pool', first, 2
        for length in range(4):
            for fail in (False, True):
                for first in itertools.product(range(len(ITER_OPS)), repeat=2 + more):
                    yield 'iterable', length, fail, first, 3 + more

    def case(self, case, stats):
        if case[0] == 'every':
            # values that are equal, values that are not, names of parameters
            stats.distinct()
            for values in (CALL_VALUES[:case[2]] + [(1,), None], CALL_VALUES[3:3 + case[2]] + [int]):
                run_every_call(case[1], values, stats)
                run_every_key(case[1][1], values, stats)
            return
        kind, args, first, more = case[0], case[1:-2], case[-2], case[-1]
        ops = {'dict': DICT_OPS, 'values': VALUE_OPS, 'calls': CALL_OPS, 'types': TYPE_OPS, 'pool': POOL_OPS, 'iterable': ITER_OPS}[kind]
        for n in range(more + 1):
            for rest in itertools.product(ops, repeat=n):
                seq = [ops[i] for i in first] + list(rest)
                stats.traces += 1
                stats.distinct()
                if kind == 'dict':
                    self.dict(seq, stats)
                elif kind == 'values':
                    run_values(*args, seq, stats)
                elif kind == 'calls':
                    run_calls(CONFIGS[args[0]], seq, stats)
                elif kind == 'types':
                    run_types(seq, stats)
                elif kind == 'pool':
                    run_pool(seq, stats)
                else:
                    run_iterable(*args, seq, stats)

    def dict(self, ops, stats):
        ks = keys()
        d, model = utils.SafeDict(), Pairs()
        for n, (op, k) in enumerate(ops):
            key = ks[k] if k is not None else None
            stats.step()
            if op == 'set':
                d[key] = n
                model.set(key, n)
                continue
            if op == 'del':
                got, expect = call(d.__delitem__, key), call(model.delete, key)
            elif op == 'pop':
                got, expect = call(d.pop, key), call(model.pop, key)
            elif op == 'clear':
                got, expect = call(d.clear), call(model.clear)
            elif op == 'default':
                got, expect = call(d.setdefault, key, -1), call(lambda: model.get(key) if key in [k for k, _ in model.items] else model.set(key, -1) or -1)
            else:
                got, expect = call(d.update, {'a': n, 2: n}), call(lambda: [model.set('a', n), model.set(2, n)] and None)
            require(got == expect, f'{[(o, ks[k]) if k is not None else o for o, k in ops[:n + 1]]}: {got}, expected {expect}')
        check_dict(d, model, str([(o, ks[k]) if k is not None else o for o, k in ops]))


PROPERTY = C19()
