"""C27: two threads in the Python module, under every schedule within a bound on preemptions.

One thread runs at a time. A thread can be preempted before every opcode (or line: the grain) of the
module's code; which points are taken is enumerated. Each execution begins from fresh objects (from a fresh copy of the
module too, for what is set up on first use), and what both threads get, and what the objects hold
afterwards, must be as if each had run alone."""
import copy, gc, importlib.util, os, sys, threading

ROOT = os.path.join(os.environ['MC_PY'], 'graphrox', '')
PATIENCE = [0.25]


class Schedule:
    """Who runs: thread 0 first, then as in the plan of (thread, at which of its points)"""
    def __init__(self, plan, grain):
        self.plan, self.grain = list(plan), grain
        self.next = self.plan.pop(0) if self.plan else (None, 0)
        self.token, self.n, self.done = 0, [0, 0], [False, False]
        self.cv = threading.Condition(threading.Lock())

    def point(self, t):
        if self.token != t:
            # It had waited for a lock of the module meanwhile
            self.wait(t)
        self.n[t] += 1
        if self.next[0] == t and self.next[1] == self.n[t]:
            self.next = self.plan.pop(0) if self.plan else (None, 0)
            with self.cv:
                if self.done[1 - t]:
                    return
                self.token = 1 - t
                self.cv.notify_all()
            self.wait(t)

    def wait(self, t):
        with self.cv:
            if not self.cv.wait_for(lambda: self.token == t, PATIENCE[0]):
                # The other waits for what this one holds
                self.token = t
                PATIENCE[0] = 0.004 if PATIENCE[0] < 0.03 else PATIENCE[0] * 0.8

    def body(self, t, f, out):
        with self.cv:
            self.cv.wait_for(lambda: self.token == t)
        AT[threading.get_ident()] = self.point, t
        try:
            r = f()
        except Exception as e:
            r = ('raised', type(e).__name__)
        finally:
            del AT[threading.get_ident()]
        out[t] = r
        with self.cv:
            self.done[t] = True
            self.token = 1 - t
            self.cv.notify_all()


# The points are monitoring events, for all threads alike and for good (sys.settrace in each thread makes CPython
# 3.12 rewrite code that another thread is in the middle of, which it does not survive)
AT, WATCHED = {}, {}
EVENTS = {'opcode': sys.monitoring.events.INSTRUCTION, 'line': sys.monitoring.events.LINE}


def event(code, where):
    at = AT.get(threading.get_ident())
    if at is not None:
        at[0](at[1])


def watch(code, grain):
    """Makes points of the opcodes or lines of what code defines"""
    if not WATCHED:
        sys.monitoring.use_tool_id(3, 'C27')
        for e in EVENTS.values():
            sys.monitoring.register_callback(3, e, event)
    if WATCHED.get(id(code), (None, None))[1] != grain:
        WATCHED[id(code)] = code, grain
        sys.monitoring.set_local_events(3, code, EVENTS[grain])
        for x in code.co_consts:
            if hasattr(x, 'co_code'):
                watch(x, grain)


def watch_all(grain):
    if 'all' not in FRESH:
        FRESH['all'] = [x.__code__ for x in gc.get_objects() if type(x) is type(watch_all) and x.__code__.co_filename.startswith(ROOT)]
        FRESH['all'].append(FRESH_SPEC.loader.get_code('graphrox'))
    for code in FRESH['all']:
        watch(code, grain)


FRESH_SPEC = importlib.util.spec_from_file_location('graphrox', ROOT + '__init__.py', submodule_search_locations=[ROOT])
FRESH = {}


def fresh_module():
    m = importlib.util.module_from_spec(FRESH_SPEC)
    before, sys.modules['graphrox'] = sys.modules.get('graphrox'), m
    try:
        exec(FRESH['all'][-1], vars(m))
    finally:
        if before is not None:
            sys.modules['graphrox'] = before
    return m


EDGES = [(False, [(0, 1), (1, 1), (3, 1), (1, 9)], 2), (True, [(2, 0), (4, 4), (5, 7), (1, 6), (7, 1), (1, 3), (5, 1), (0, 12)], 3),
         # Everything as large as the first
         (False, [(0, 1), (1, 1), (9, 1), (1, 6)], 2)]


class Own:
    """What a thread works on: made before it runs, or (lazily) by the thread itself"""
    def __init__(self, lib, k, lazy):
        self.k, self.lib, self.d = k, lib, EDGES[k][2]
        if not lazy:
            for at in MAKE:
                getattr(self, at)

    def __getattr__(self, at):
        if at not in MAKE:
            raise AttributeError(at)
        x = MAKE[at](self)
        setattr(self, at, x)
        return x


def make_graph(w):
    und, edges, _ = EDGES[w.k]
    g = w.lib.Graph(is_undirected=und)
    for a, b in edges:
        g.add_edge(a, b)
    return g


MAKE = {
    'g': make_graph,
    'c': lambda w: w.g.compress(w.d - 1),
    'm': lambda w: w.g.find_avg_pool_matrix(w.d),
    'b': lambda w: bytes(w.g),
    'cb': lambda w: bytes(w.c),
    'el': lambda w: w.g.edge_list(),
    'il': lambda w: w.g.vertex_in_edges(1),
    'ol': lambda w: w.g.vertex_out_edges(1),
    'ml': lambda w: w.m.entry_list(),
}


def parts(b, head, rec):
    return b[:head], sorted(b[i:i + rec] for i in range(head, len(b), rec))


def look(g):
    return parts(bytes(g), 26, 16), g.matrix_string()


def look_c(c):
    return parts(bytes(c), 42, 24), c.edge_count(), c.vertex_count()


def look_m(m):
    return m.dimension(), sorted(m.entry_list())


def look_own(w):
    how = {'g': look, 'c': look_c, 'm': look_m}
    return [how.get(at, lambda x: sorted(x[i] for i in range(len(x))))(x) for at, x in sorted(vars(w).items())
            if at in MAKE and at not in ('b', 'cb') and x is not None]


READS, EDITS = [], []


def read(name, f):
    READS.append((name, f))


def edit(name, f):
    EDITS.append((name, f))


read('bytes(graph)', lambda w: parts(bytes(w.g), 26, 16))
read('graph.matrix_string()', lambda w: w.g.matrix_string())
read('the counts and the kind of a graph', lambda w: (w.g.vertex_count(), w.g.edge_count(), w.g.is_undirected()))
read('graph.does_edge_exist()', lambda w: (w.g.does_edge_exist(0, 1), w.g.does_edge_exist(5, 7)))
read('graph.edge_list()', lambda w: sorted(w.g.edge_list()))
read('graph.vertex_in_edges(1)', lambda w: sorted(w.g.vertex_in_edges(1)))
read('graph.vertex_out_edges(1)', lambda w: sorted(w.g.vertex_out_edges(1)))
read('the degrees of a vertex', lambda w: (w.g.vertex_in_degree(1), w.g.vertex_out_degree(1)))
read('graph.find_avg_pool_matrix()', lambda w: sorted(w.g.find_avg_pool_matrix(w.d).entry_list()))
read('graph.approximate()', lambda w: parts(bytes(w.g.approximate(w.d, 0.25 * w.k)), 26, 16))
read('graph.compress()', lambda w: parts(bytes(w.g.compress(w.k + 1)), 42, 24))
read('graph.duplicate()', lambda w: parts(bytes(w.g.duplicate()), 26, 16))
read('copy.copy(graph)', lambda w: copy.copy(w.g).edge_count())
read('Graph.from_bytes()', lambda w: parts(bytes(w.lib.Graph.from_bytes(w.b)), 26, 16))
read('Graph.from_bytes() of what is not a graph', lambda w: w.lib.Graph.from_bytes(w.b[:-1 - w.k]))
read('bytes(compressed)', lambda w: parts(bytes(w.c), 42, 24))
read('compressed.matrix_string()', lambda w: w.c.matrix_string())
read('the counts of a compressed graph', lambda w: (w.c.vertex_count(), w.c.edge_count(), w.c.is_undirected(), w.c.compression_level()))
read('compressed.does_edge_exist()', lambda w: (w.c.does_edge_exist(0, 1), w.c.get_compressed_matrix_entry(0, 0)))
read('compressed.decompress()', lambda w: parts(bytes(w.c.decompress()), 26, 16))
read('compressed.duplicate()', lambda w: w.c.duplicate().edge_count())
read('CompressedGraph.from_bytes()', lambda w: parts(bytes(w.lib.CompressedGraph.from_bytes(w.cb)), 42, 24))
read('CompressedGraph.from_bytes() of what is not one', lambda w: w.lib.CompressedGraph.from_bytes(w.cb[:-1 - w.k]))
read('matrix.entry_list()', lambda w: sorted(w.m.entry_list()))
read('matrix.to_string()', lambda w: (w.m.to_string(), w.m.to_string(w.k + 3)))
read('the entries of a matrix', lambda w: (w.m.dimension(), w.m.entry_count(), w.m.get_entry(0, 0), w.m.get_entry(1, 0)))
read('matrix.duplicate()', lambda w: w.m.duplicate().entry_count())
for at, name in (('el', 'edges'), ('il', 'in-edges'), ('ol', 'out-edges'), ('ml', 'entries')):
    read(f'iterating over a list of {name}', lambda w, at=at: sorted(getattr(w, at)))
    read(f'indexing a list of {name}', lambda w, at=at: (lambda x: (len(x), sorted(x[i] for i in range(len(x))), x[-1] in x))(getattr(w, at)))

edit('Graph()', lambda w: (w.lib.Graph(w.k > 0).is_undirected(), w.lib.Graph().vertex_count()))
edit('graph.add_vertex() with a list', lambda w: w.g.add_vertex(3 + w.k, [1, 2, 8 + w.k, 10][w.k % 2:]))
edit('graph.add_vertex()', lambda w: w.g.add_vertex(20 + w.k))
edit('graph.add_edge()', lambda w: w.g.add_edge(8, 3 + w.k))
edit('graph.delete_edge()', lambda w: w.g.delete_edge(*EDGES[w.k][1][0]))
edit('releasing the lists', lambda w: [setattr(w, at, None) for at in ('el', 'il', 'ol', 'ml')] and 0)
edit('releasing the matrix and the compressed graph', lambda w: [setattr(w, at, None) for at in ('c', 'm')] and 0)

CALLS = READS + EDITS


def run(case, plan, only=None):
    """One execution: the results, what the objects hold afterwards, and how many points each thread had"""
    lib = fresh_module() if case['fresh'] else sys.modules['graphrox']
    if case['shared']:
        w = Own(lib, 0, case['fresh'])
        own = [w, w]
    else:
        own = [Own(lib, k, case['fresh']) for k in (0, 2 if case['twin'] else 1)]
    s, out = Schedule(plan, case['grain']), [None, None]
    fs = [lambda t=t: [CALLS[i][1](own[t]) for i in case['calls'][t]] for t in (0, 1)]
    if only is not None:
        s.token, s.done[1 - only] = only, True
    ts = [threading.Thread(target=s.body, args=(t, fs[t], out), daemon=True) for t in ((0, 1) if only is None else (only,))]
    for t in ts:
        t.start()
    for t in ts:
        t.join(20)
        if t.is_alive():
            return None, None, None
    return out, [look_own(w) for w in own], s.n


def self_test():
    """That threads can be preempted at all"""
    names = {}
    exec(compile('def f(x):\n    y = x + 1\n    return y * 2\n', ROOT + 'probe', 'exec'), names)
    for grain, least in (('opcode', 5), ('line', 2)):
        s, out = Schedule([], grain), [None, None]
        s.done[1] = True
        watch(names['f'].__code__, grain)
        t = threading.Thread(target=s.body, args=(0, lambda: names['f'](1), out), daemon=True)
        t.start()
        t.join()
        if out[0] != 4 or s.n[0] < least:
            raise RuntimeError(f'threads cannot be preempted: {s.n[0]} {grain}s seen')


TESTED = []


def run_c27(case, env, fail):
    if not TESTED:
        self_test()
        TESTED.append(1)
    gc.disable()
    watch_all(case['grain'])
    name = ' and '.join(', '.join(CALLS[i][0] for i in c) for c in case['calls'])
    env['where'] = name + (' of one object' if case['shared'] else '')
    alone, after, n = [], [], []
    for t in (0, 1):
        out, held, points = run(case, [], t)
        if out is None:
            fail('does not end, though no other thread runs')
        alone.append(out[t])
        after.append(held[t])
        n.append(points[t])

    def one(plan):
        env['transitions'] += 1
        how = ', '.join(f'thread {t + 1} is preempted before {case["grain"]} {k}' for t, k in plan) or 'one after the other'
        out, held, _ = run(case, plan)
        if out is None:
            fail(f'{how}: no end')
        for t in (0, 1):
            if out[t] != alone[t]:
                fail(f'{how}: thread {t + 1} gets {str(out[t])[:200]}, expected {str(alone[t])[:200]}')
            if held[t] != after[t]:
                fail(f'{how}: the objects of thread {t + 1} hold {str(held[t])[:300]} afterwards, expected {str(after[t])[:300]}')

    one([])
    if case['preemptions'] == 1:
        for k in range(1, n[0] + 1):
            one([(0, k)])
    else:
        step, me = case['part']
        for k in range(1 + me, n[0] + 1, step):
            for m in range(1, n[1] + 1):
                one([(0, k), (1, m)])
    env['states'].add(str(case))
    gc.enable()


def each_c27(thorough):
    index = list(range(len(CALLS)))
    reads = index[:len(READS)]

    def case(a, b, shared=False, fresh=False, preemptions=1, part=(1, 0), grain='opcode', twin=False):
        return {'calls': [list(a), list(b)], 'shared': shared, 'fresh': fresh, 'preemptions': preemptions, 'part': list(part), 'grain': grain, 'twin': twin}

    # Each with itself, from a module that has done nothing, and preempted twice
    for i in index:
        for twin in (False, True):
            yield case([i], [i], fresh=True, twin=twin)
    for calls, shared in ((index, False), (reads, True)):
        for i in calls:
            for me in range(4):
                for twin in (False,) if shared else (False, True):
                    yield case([i], [i], shared, preemptions=2, part=(4, me), grain='line', twin=twin)
    for i in index:
        for j in index:
            if i != j:
                yield case([i], [j], twin=(i + j) % 2 == 1)
                if thorough:
                    yield case([i], [j], fresh=True)
    for i in reads:
        for j in reads:
            if i != j:
                yield case([i], [j], shared=True)
    # Called twice, and another in between
    for i in index:
        j = (i * 7 + 3) % len(index)
        yield case([i, i], [i])
        yield case([i, i], [i], twin=True)
        yield case([i, j], [j, i], twin=i % 2 == 1)
    if thorough:
        for i in index:
            for j in index:
                for me in range(4):
                    yield case([i], [j], preemptions=2, part=(4, me), grain='line')
        for calls, shared in ((index, False), (reads, True)):
            for i in calls:
                for me in range(40):
                    yield case([i], [i], shared, preemptions=2, part=(40, me))


def describe_c27(case):
    s = ' | '.join(', '.join(CALLS[i][0] for i in c) for c in case['calls'])
    s += '; one set of objects' if case['shared'] else '; objects of their own' + ' of one size' * case['twin']
    s += '; the module is new' if case['fresh'] else ''
    return s + f"; {case['preemptions']} preemption{'s' * (case['preemptions'] > 1)} at {case['grain']}s" + (f", part {case['part'][1]} of {case['part'][0]}" if case['part'][0] > 1 else '')
