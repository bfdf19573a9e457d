#!/usr/bin/env python3
"""C23, C24 and C27: call histories through the Python module, checked against a model on plain sets,
and (pythreads.py) schedules of two threads.

pyapi.py check ID | replay FILE. Run with MC_PY naming the folder that holds the module and the built
library, and with libmcalloc.so preloaded, which accounts for the blocks of the library. Work is split
over forked processes; the parent watches them."""
import copy, ctypes, gc, hashlib, itertools, json, math, mmap, os, select, signal, struct, sys, time

sys.dont_write_bytecode = True
sys.unraisablehook = lambda *_: None  # copy.deepcopy makes objects without attributes before it refuses
sys.path.insert(0, os.environ['MC_PY'])
W = 8
MAX = 2 ** 64 - 1
BIG = 2 ** 32 + 1
SEED = int(os.environ.get('VERIF_SEED', '1'))
THOROUGH = os.environ.get('VERIF_TIER') == 'thorough'

mc = ctypes.CDLL(None)
mc.mc_live.restype = ctypes.c_long
mc.mc_track.argtypes = [ctypes.c_char_p]
mc.mc_seed.argtypes = [ctypes.c_uint64]


class Fail(Exception):
    pass


def fail(text):
    raise Fail(text)


def same(got, want, what):
    if not got == want:
        fail(f'{what} is {str(got)[:300]}, expected {str(want)[:300]}')


# ------------------------------------------------------------------ model

class Model:
    def __init__(self, und=False, n=0, e=()):
        self.und, self.n, self.e = und, n, set(e)

    def copy(self):
        return Model(self.und, self.n, self.e)

    def put(self, a, b):
        if MAX in (a, b):
            return
        self.e.add((a, b))
        self.n = max(self.n, a + 1, b + 1)

    def add(self, a, b):
        self.put(a, b)
        if self.und:
            self.put(b, a)

    def delete(self, a, b):
        self.e.discard((a, b))
        if self.und:
            self.e.discard((b, a))

    def vertex(self, v, to):
        for t in to:
            self.add(v, t)
        if not to:
            self.n = max(self.n, v + 1)

    def key(self):
        return f'{self.und} {self.n} {sorted(self.e)}'

    def out(self, v):
        return sorted(b for a, b in self.e if a == v)

    def into(self, v):
        return sorted(a for a, b in self.e if b == v)


def pool(m, b):
    """The dimension and the non-zero entries by (column, row)."""
    if m.n == 0:
        return 0, {}
    b = max(1, min(b, m.n))
    v = {}
    for x, y in m.e:
        v[x // b, y // b] = v.get((x // b, y // b), 0) + 1
    return -(-m.n // b), {k: x / (float(b) * float(b)) for k, x in v.items()}


def approximate(m, b, t):
    if b <= 1 or m.n <= 1:
        return m.copy()
    t = min(1.0, max(1e-18, t))
    dim, v = pool(m, b)
    r = Model(m.und, dim)
    for k, x in v.items():
        if x >= t:
            r.add(*k)
    return r


class Compressed:
    def __init__(self, m, level):
        self.und, self.n, self.level = m.und, m.n, max(1, min(64, level))
        self.dim = max(1, -(-m.n // 8))
        v = {}
        for a, b in m.e:
            k = a // 8, b // 8
            v[k] = v.get(k, 0) | 1 << (8 * (b % 8) + a % 8)
        self.v = {k: x for k, x in v.items() if bin(x).count('1') >= self.level}

    def edges(self):
        return sum(bin(x).count('1') for x in self.v.values())

    def model(self):
        m = Model(self.und, self.n)
        for (c, r), x in self.v.items():
            for i in range(64):
                if x >> i & 1:
                    m.put(c * 8 + i % 8, r * 8 + i // 8)
        return m


def grid(dim, cell):
    rows = [[cell(c, r) for c in range(dim)] for r in range(dim)]
    w = max([len(x) for r in rows for x in r], default=0)
    return '\r\n'.join('[ ' + ', '.join(x.rjust(w) for x in r) + ' ]' for r in rows)


def encode(m):
    return struct.pack('>IIQQBB', 0x7ae71ffd, 1, m.n, len(m.e), m.und, 0) + b''.join(struct.pack('>QQ', *x) for x in sorted(m.e))


def encode_compressed(c):
    return (struct.pack('>IIQQQQBB', 0x71ff7aed, 2, c.dim, len(c.v), c.edges(), c.n, c.und, c.level)
            + b''.join(struct.pack('>QQQ', x, *k) for k, x in sorted(c.v.items())))


def records(b, head, rec):
    """The header and the records in order"""
    if len(b) < head or (len(b) - head) % rec:
        return b, []
    return b[:head], sorted(b[i:i + rec] for i in range(head, len(b), rec))


# ------------------------------------------------------------------ reading back

def probes(n):
    return list(range(min(n + 2, 12))) + [2 ** 32, BIG, 2 ** 63 + 9, MAX - 1]


def see_matrix(x, m, b, deep):
    dim, v = pool(m, b)
    same(x.dimension(), dim, 'dimension()')
    same(x.entry_count(), len(v), 'entry_count()')
    for c in probes(dim):
        for r in probes(dim):
            same(x.get_entry(c, r), v.get((c, r), 0.0), f'get_entry({c}, {r})')
    same(sorted(x.entry_list()), sorted((e, c, r) for (c, r), e in v.items()), 'entry_list()')
    if dim <= (160 if deep else 50):
        text = lambda d: grid(dim, lambda c, r: '%.*f' % (d, v.get((c, r), 0.0)))
        same(x.to_string(), text(2), 'to_string()')
        same(str(x), text(2), 'str()')
        if deep and dim <= 50:
            for d in (0, 1, 7, 300):
                same(x.to_string(d), text(d), f'to_string({d})')
            same(x.to_string(decimal_digits=3), text(3), 'to_string(decimal_digits=3)')


def see_compressed(g, m, level, deep):
    see_blocks(g, Compressed(m, level), deep)


def see_blocks(g, c, deep):
    same(g.is_undirected(), c.und, 'is_undirected() of the compressed graph')
    same(g.vertex_count(), c.n, 'vertex_count() of the compressed graph')
    same(g.edge_count(), c.edges(), 'edge_count() of the compressed graph')
    same(g.compression_level(), c.level, 'compression_level()')
    full = c.model()
    for a in probes(c.n):
        for b in probes(c.n):
            same(g.does_edge_exist(a, b), (a, b) in full.e, f'does_edge_exist({a}, {b}) of the compressed graph')
    for a in probes(c.dim):
        for b in probes(c.dim):
            same(g.get_compressed_matrix_entry(a, b), c.v.get((a, b), 0), f'get_compressed_matrix_entry({a}, {b})')
    if c.dim < 30:
        same(g.matrix_string(), grid(c.dim, lambda a, b: str(c.v.get((a, b), 0))), 'matrix_string() of the compressed graph')
    b = bytes(g)
    same(records(b, 42, 24), records(encode_compressed(c), 42, 24), 'bytes() of the compressed graph')
    if deep:
        see_graph(g.decompress(), full, 0)
        see_blocks(graphrox.CompressedGraph.from_bytes(b), c, 0)


def see_graph(g, m, deep):
    same(g.is_undirected(), m.und, 'is_undirected()')
    same(g.vertex_count(), m.n, 'vertex_count()')
    same(g.edge_count(), len(m.e), 'edge_count()')
    ps = probes(m.n)
    for a in ps:
        for b in ps:
            same(g.does_edge_exist(a, b), (a, b) in m.e, f'does_edge_exist({a}, {b})')
        out, into = m.out(a), m.into(a)
        same(sorted(g.vertex_out_edges(a)), out, f'vertex_out_edges({a})')
        same(sorted(g.vertex_in_edges(a)), into, f'vertex_in_edges({a})')
        same(g.vertex_out_degree(a), len(out), f'vertex_out_degree({a})')
        same(g.vertex_in_degree(a), len(into), f'vertex_in_degree({a})')
    same(sorted(g.edge_list()), sorted(m.e), 'edge_list()')
    if m.n < (320 if deep else 50):
        same(g.matrix_string(), grid(m.n, lambda c, r: str(int((c, r) in m.e))), 'matrix_string()')
    b = bytes(g)
    same(records(b, 26, 16), records(encode(m), 26, 16), 'bytes()')
    if not deep:
        return
    see_graph(graphrox.Graph.from_bytes(b), m, 0)
    for d in (0, 1, 2, 3, BIG, MAX):
        x = g.find_avg_pool_matrix(d)
        see_matrix(x, m, d, d in (2, 3))
        if d == 2:
            x = x.duplicate()
            see_matrix(x, m, d, False)
    for d, t in ((0, 0.5), (1, 0.5), (2, 0.0), (2, 0.25), (2, 0.3), (2, 1), (3, -1), (5, 7), (BIG, 1e-17)):
        see_graph(g.approximate(d, t), approximate(m, d, t), 0)
    # At every density there is, and next to it
    for d in (2, 3, 7):
        for x in sorted(set(pool(m, d)[1].values())):
            for t in (x, math.nextafter(x, 2), math.nextafter(x, 0)):
                a, want = g.approximate(d, t), approximate(m, d, t)
                same((a.vertex_count(), a.edge_count()), (want.n, len(want.e)), f'the counts of approximate({d}, {t!r})')
    for level in (-5, 0, 1, 2, 3, 64, 65, 256, 257, 1000):
        c = g.compress(level)
        see_compressed(c, m, level, level in (1, 2))
        if level in (1, 3):
            c = c.duplicate()
            see_compressed(c, m, level, 0)
    # Loaded from bytes, a compressed graph may have blocks of fewer edges than its level
    want = Compressed(m, 1)
    for level in (2, 64):
        want.level = level
        c = graphrox.CompressedGraph.from_bytes(encode_compressed(want))
        d = c.duplicate()
        see_blocks(c, want, 0)
        del c
        see_blocks(d, want, level == 64)
    see_graph(g.duplicate(), m, 0)


# ------------------------------------------------------------------ C23: histories

OPS = []


def op(name, heavy=False):
    def put(f):
        OPS.append((name, f))
        return f
    return put


def make_ops():
    def edge(a, b):
        def run(g, m):
            g.add_edge(a, b)
            m.add(a, b)
            return g, m
        op(f'add_edge({a},{b})')(run)

    def unedge(a, b):
        def run(g, m):
            g.delete_edge(a, b)
            m.delete(a, b)
            return g, m
        op(f'delete_edge({a},{b})')(run)

    def vertex(v, to):
        def run(g, m):
            if to is None:
                g.add_vertex(v)
            else:
                given = type(to)(to)
                g.add_vertex(v, given)
                same(given, to, 'what add_vertex() was given, afterwards')
            m.vertex(v, list(to or []))
            return g, m
        op(f'add_vertex({v},{to})')(run)

    for a, b in ((0, 1), (1, 0), (9, 0), (1, 9), (9, 9), (0, 0), (BIG, 0), (1, BIG), (MAX - 1, 1)):
        edge(a, b)
    for a, b in ((0, 1), (1, 0), (9, 0), (9, 9), (BIG, 0)):
        unedge(a, b)
    for v, to in ((0, None), (9, []), (1, [9, MAX, 1, 0]), (9, (0, 0)), (3, [4]), (BIG, [BIG, 2])):
        vertex(v, to)

    @op('add_vertex(11, None)')
    def _(g, m):
        g.add_vertex(11, None)
        m.vertex(11, [])
        return g, m

    @op('save and load')
    def _(g, m):
        return graphrox.Graph.from_bytes(bytes(g)), m

    @op('save and load as a bytearray')
    def _(g, m):
        return graphrox.Graph.from_bytes(bytearray(bytes(g))), m

    @op('load other bytes')
    def _(g, m):
        x = Model(not m.und, 6, {(5, 2), (2, 5), (3, 3)})
        return graphrox.Graph.from_bytes(encode(x)), x

    @op('duplicate, then edit the original')
    def _(g, m):
        d = g.duplicate()
        g.add_edge(4, 5)
        g.delete_edge(0, 1)
        return d, m

    @op('duplicate, then edit the copy')
    def _(g, m):
        d = g.duplicate()
        d.add_edge(4, 5)
        d.delete_edge(0, 1)
        return g, m

    @op('approximate(2,0.2)')
    def _(g, m):
        return g.approximate(2, 0.2), approximate(m, 2, 0.2)

    @op('approximate(1,0.9)')
    def _(g, m):
        return g.approximate(1, 0.9), m

    @op('compress(1), decompress')
    def _(g, m):
        c = g.compress(1)
        del g
        return c.decompress(), Compressed(m, 1).model()

    @op('compress(2), save, load, decompress')
    def _(g, m):
        c = graphrox.CompressedGraph.from_bytes(bytes(g.compress(2)))
        return c.decompress(), Compressed(m, 2).model()

    @op('load malformed bytes')
    def _(g, m):
        good = encode(m)
        c = encode_compressed(Compressed(m, 1))
        bad = [good[:-1], good + b'x', b'', good[:25], b'\0' + good[1:], good[:7] + b'\x09' + good[8:], good[:24] + b'\x02' + good[25:],
               good[:16] + b'\xff' * 8 + good[24:], c]
        for b in bad:
            try:
                graphrox.Graph.from_bytes(b)
            except ValueError:
                continue
            fail(f'malformed bytes of length {len(b)} are loaded')
        bad = [c[:-1], c + b'x', b'', c[:41], c[:41] + b'\0' + c[42:], c[:41] + b'\x41' + c[42:], c[:24] + b'\x01' * 8 + c[32:], good]
        for b in bad:
            try:
                graphrox.CompressedGraph.from_bytes(b)
            except ValueError:
                continue
            fail(f'malformed compressed bytes of length {len(b)} are loaded')
        return g, m

    @op('read everything')
    def _(g, m):
        see_graph(g, m, 1)
        return g, m


def run_c23(case, env):
    und, hist = case['undirected'], case['ops']
    g, m = graphrox.Graph(is_undirected=True) if und else (graphrox.Graph(False) if und is None else graphrox.Graph()), Model(bool(und))
    if 'pattern' in case:
        k = case['size']
        for i in range(k):
            if case['pattern'] == 6:
                break
            a, b = [(i, i + 1), (0, i), (i, 0), (i % 8, i // 8), (i * 1000003, (k - i) << 33), (i % 5, i * 7 % 11), None,
                    [(MAX - 1, 2 ** 63 + i), (2 ** 63 + 9, MAX - 1 - i), (i, 2 ** 63 - 1 + i)][i % 3]][case['pattern']]
            g.add_edge(a, b)
            m.add(a, b)
        if case['pattern'] == 6:
            to = [i if i % 3 else k - i for i in range(k)]
            g.add_vertex(3, to)
            m.vertex(3, to)
        env['transitions'] += k
    for k, i in enumerate(hist):
        env['where'] = OPS[i][0]
        g, m = OPS[i][1](g, m)
        env['transitions'] += 1
        if 'watch' in case and case['after'] >> k & 1:
            env['where'] = 'reading after ' + OPS[i][0]
            see_graph(g, m, case['watch'])
    env['where'] = 'reading everything at the end'
    see_graph(g, m, 1)
    env['states'].add(m.key())


def each_c23():
    sizes = list(range(0, 200 if THOROUGH else 40))
    sizes += [k for k in (127, 128, 129, 200, 255, 256, 257, 300, 513, 1000, 4096, 4097, 5000) if k > sizes[-1]]
    sizes += [9000]
    for k in sizes:
        for p in range(8):
            for und in (False, True):
                yield {'undirected': und, 'pattern': p, 'size': k, 'ops': []}
    for p in (0, 3, 6):
        yield {'undirected': False, 'pattern': p, 'size': 20000, 'ops': []}
    every = list(range(len(OPS)))
    left_out = ('add_edge(9,9', 'add_edge(0,0', 'add_edge(1,0', 'add_vertex(0', 'add_vertex(11', 'save and load as', 'approximate(1', 'read every', 'delete_edge(9,9', 'add_edge(9,0',
                'delete_edge(1,0', f'add_edge({MAX - 1}')
    some = [i for i in every if not OPS[i][0].startswith(left_out)]
    few = [i for i in some if not OPS[i][0].startswith(('add_vertex(9', 'add_vertex(3', 'load', 'add_edge(1,B', 'duplicate, then edit the copy', f'add_edge(1,{BIG}', f'delete_edge({BIG}',
                                                        'compress(1'))]
    alphabets = [every, every, every, every, some, few] if THOROUGH else [every, every, every, some]
    for n, al in enumerate(alphabets):
        for hist in itertools.product(al, repeat=n):
            for und in (False, True):
                yield {'undirected': und, 'ops': hist}
    # Everything is read after some of the calls, or the graph itself is
    # (edges come and go, so that the counts return to what they were)
    ends = ('(0,1)', '(1,0)', '(9,0)', '(9,9)')
    swaps = [i for i in every if OPS[i][0].endswith(ends) and 'edge' in OPS[i][0] or OPS[i][0] == 'add_vertex(9,[])']
    for n, al, how in [(2, every, 1), (3, some, 0), (3, swaps, 1), (4, swaps, 1), (5, swaps, 0)] if THOROUGH else [(2, some, 1), (3, swaps, 1), (4, swaps[:3] + swaps[4:7], 0)]:
        for hist in itertools.product(al, repeat=n):
            for und in (False, True):
                for after in range(1, 2 ** (n - 1)) if n < 4 else (1, 2, 4, 8)[:n - 1]:
                    yield {'undirected': und, 'ops': hist, 'watch': how, 'after': after}


def describe_c23(case):
    s = f"Graph({'is_undirected=True' if case['undirected'] else ''})"
    if 'pattern' in case:
        s += f"; pattern {case['pattern']} of {case['size']} edges"
    return s + ''.join('; ' + OPS[i][0] for i in case['ops']) + (f"; {'everything' if case['watch'] else 'the graph'} is read after call {', '.join(str(k + 1) for k in range(9) if case['after'] >> k & 1)}" if 'watch' in case else '')


# ------------------------------------------------------------------ C24: lists and lifetimes

def new_graph(which):
    m = Model(which in (1, 4))
    g = graphrox.Graph(m.und)
    for a, b in [[(0, 1), (1, 1), (3, 1), (1, 9)], [(0, 1), (1, 1), (3, 1)], [], [(1, 1)], [(1, 2)]][which]:
        g.add_edge(a, b)
        m.add(a, b)
    return g, m


KINDS = ['edge_list()', 'vertex_in_edges(1)', 'vertex_out_edges(1)', 'find_avg_pool_matrix(2).entry_list()']


def new_list(g, m, kind):
    """The list and what it must hold, sorted"""
    if kind == 0:
        return g.edge_list(), sorted(m.e)
    if kind == 1:
        return g.vertex_in_edges(1), m.into(1)
    if kind == 2:
        return g.vertex_out_edges(1), m.out(1)
    return g.find_avg_pool_matrix(2).entry_list(), sorted((e, c, r) for (c, r), e in pool(m, 2)[1].items())


def index_error(x, i):
    try:
        got = x[i]
    except IndexError:
        return
    fail(f'index {i} of a list of {len(x)} gives {got}')


class List:
    def __init__(self, g, m, kind):
        self.it, self.want = new_list(g, m, kind)
        self.order = None

    def read(self):
        x, n = self.it, len(self.want)
        same(len(x), n, 'len()')
        got = [x[i] for i in range(n)]
        same(sorted(got), self.want, f'the elements of a list (by index)')
        if self.order is None:
            self.order = got
        same(got, self.order, 'a list read again')
        same([x[-i] for i in range(1, n)], self.order[:0:-1], 'a list read by negative indexes')
        same(list(x), self.order, 'a list iterated over')
        same(list(reversed(x)), self.order[::-1], 'a list reversed')
        same([e in x for e in self.order[:3] + self.order[-3:]], [True] * 2 * min(3, n), 'its elements in a list')
        same([e in x for e in (None, -1, (2 ** 63 + 5, 2 ** 63 + 5), 'x')], [False] * 4, 'what is not there in a list')
        same(bool(x), n > 0, 'a list as a truth value')
        for i in (n, n + 1, 2 * n + 1, 2 ** 31, 2 ** 32, 2 ** 64):
            index_error(x, i)
        if n == 0:
            for i in (-1, -2, -7):
                index_error(x, i)


class Iter:
    def __init__(self, of):
        of.read()
        self.order = list(of.order)
        self.at = 0
        self.it = iter(of.it)

    def step(self):
        try:
            got = next(self.it)
        except StopIteration:
            same(self.at, len(self.order), 'the number of elements of an iterator')
            return
        if self.at == len(self.order):
            fail(f'an iterator over {self.at} elements gives another: {got}')
        same(got, self.order[self.at], f'element {self.at} of an iterator')
        self.at += 1

    def rest(self):
        same(list(iter(self.it)), self.order[self.at:], 'the rest of an iterator')
        self.at = len(self.order)
        self.step()


class World:
    def __init__(self, which):
        self.g, self.m = new_graph(which)
        self.lists, self.iters, self.other, self.copies, self.copied, self.made = [], [], [], [], 0, 0


def churn():
    """Uses and returns memory of the library"""
    g = graphrox.Graph()
    for i in range(5):
        g.add_edge(i, 7 - i)
    a = [g.edge_list(), g.vertex_in_edges(3), g.find_avg_pool_matrix(3).entry_list(), bytes(g), g.matrix_string(), g.compress(1)]
    return len(a)


ACTS = []


def act(name, can):
    def put(f):
        ACTS.append((name, can, f))
    return put


def make_acts():
    for kind, text in enumerate(KINDS):
        act(text, lambda w: w.g is not None and len(w.lists) < 2)(lambda w, kind=kind: w.lists.append(List(w.g, w.m, kind)))

    @act('edit the graph', lambda w: w.g is not None)
    def _(w):
        w.g.add_edge(2, 1)
        w.m.add(2, 1)
        w.g.delete_edge(0, 1)
        w.m.delete(0, 1)
        w.g.add_vertex(1, [1, 4, 5])
        w.m.vertex(1, [1, 4, 5])

    @act('delete the graph', lambda w: w.g is not None)
    def _(w):
        w.g = None
        churn()

    @act('use other memory', lambda w: True)
    def _(w):
        churn()

    @act('new iterator over the last list', lambda w: w.lists and len(w.iters) < 2)
    def _(w):
        w.iters.append(Iter(w.lists[-1]))

    @act('advance the first iterator', lambda w: w.iters)
    def _(w):
        w.iters[0].step()

    @act('advance the last iterator', lambda w: len(w.iters) > 1)
    def _(w):
        w.iters[-1].step()

    @act('exhaust the last iterator', lambda w: w.iters)
    def _(w):
        w.iters[-1].rest()

    @act('delete the first list', lambda w: w.lists)
    def _(w):
        del w.lists[0]
        churn()

    @act('delete the first iterator', lambda w: w.iters)
    def _(w):
        del w.iters[0]
        churn()

    @act('read the lists, nested', lambda w: w.lists)
    def _(w):
        a, b = w.lists[0], w.lists[-1]
        a.read()
        b.read()
        same([(x, y) for x in a.it for y in b.it], [(x, y) for x in a.order for y in b.order], 'a nested loop')

    @act('objects made from the graph', lambda w: w.g is not None and not w.made)
    def _(w):
        c = w.g.compress(1)
        w.made = 1
        w.other += [(w.g.duplicate(), w.m.copy()), (c, w.m.copy()), (w.g.find_avg_pool_matrix(2), w.m.copy()),
                   (c.decompress(), w.m.copy()), (c.duplicate(), w.m.copy()), (w.g.approximate(1, 0.5), w.m.copy()),
                   (graphrox.Graph.from_bytes(bytes(w.g)), w.m.copy()), (graphrox.CompressedGraph.from_bytes(bytes(c)), w.m.copy()),
                   (w.g.find_avg_pool_matrix(2).duplicate(), w.m.copy())]

    @act('copies by the copy module', lambda w: not w.copied and (w.g is not None or w.lists))
    def _(w):
        w.copied = 1
        made = [] if w.g is None else [w.g, w.g.compress(1), w.g.find_avg_pool_matrix(2)]
        for f in (copy.copy, copy.deepcopy):
            for x in made:
                try:
                    y = f(x)
                except (TypeError, ValueError, copy.Error):
                    continue
                w.other.append((y, w.m.copy()))
            for x in w.lists[:2]:
                try:
                    y = f(x.it)
                except (TypeError, ValueError, copy.Error):
                    continue
                z = List.__new__(List)
                z.it, z.want, z.order = y, x.want, x.order
                w.copies.append(z)

    @act('refused bytes', lambda w: True)
    def _(w):
        for k in (graphrox.Graph, graphrox.CompressedGraph):
            for b in (b'', b'abc', b'\0' * 60):
                try:
                    k.from_bytes(b)
                except ValueError:
                    continue
                fail('malformed bytes are loaded')


def key_of(w):
    return f'{w.m.key() if w.g is not None else None} {[(x.want, x.order) for x in w.lists]} {[(x.order, x.at) for x in w.iters]} {len(w.other)} {len(w.copies)}'


def run_c24(case, env):
    if 'undirected' in case and 'size' not in case or 'pattern' in case:
        # Wrong answers are for C23: what is held afterwards is for C24
        try:
            run_c23(case, env)
        except Fail:
            pass
        return
    if 'size' in case:
        run_sizes(case, env)
        return
    w = World(case['graph'])
    for i in case['ops']:
        env['where'] = ACTS[i][0]
        if not ACTS[i][1](w):
            env['where'] = None
            return
        ACTS[i][2](w)
        env['transitions'] += 1
    env['where'] = 'reading everything at the end'
    env['states'].add(key_of(w))
    if w.g is not None:
        see_graph(w.g, w.m, 0)
    for x in w.lists + w.copies:
        x.read()
    for x in w.iters:
        x.rest()
    for x, m in w.other:
        if isinstance(x, graphrox.Graph):
            see_graph(x, m, 0)
        elif isinstance(x, graphrox.CompressedGraph):
            see_compressed(x, m, 1, 0)
        else:
            see_matrix(x, m, 2, False)


def run_sizes(case, env):
    """Lists of every size"""
    k = case['size']
    g, m = graphrox.Graph(case['undirected']), Model(case['undirected'])
    for i in range(k):
        for a, b in ((1, i), (i * 3, 1)):
            g.add_edge(a, b)
            m.add(a, b)
    for kind in range(4):
        env['where'] = f'{KINDS[kind]}, size {k}'
        x = List(g, m, kind)
        x.read()
        y = Iter(x)
        y.step()
        del x
        churn()
        y.step()
        y.rest()
        env['transitions'] += 1
    env['states'].add(m.key())


class Pretend:
    """The state of a world as far as it decides what can follow"""
    def __init__(self):
        self.g, self.lists, self.iters, self.made, self.copied = 1, [], [], 0, 0


def each_c24():
    sizes = list(range(0, 300 if THOROUGH else 100))
    for k in sizes + [k for k in (127, 128, 129, 255, 256, 257, 300, 513, 1000, 4097) if k > sizes[-1]]:
        for und in (False, True):
            yield {'undirected': und, 'size': k, 'ops': []}

    # Everything that can be read of many graphs
    for case in each_c23():
        if 'pattern' in case:
            if THOROUGH or case['size'] <= 24 or case['size'] in (64, 100, 129, 300, 1000):
                yield case
        elif len(case['ops']) <= (2 if THOROUGH else 1) and 'watch' not in case:
            yield case
        else:
            break

    def follow(ops, w, left):
        if left == 0:
            yield ops
            return
        for i, (name, can, _) in enumerate(ACTS):
            if not can(w):
                continue
            n = Pretend()
            n.g, n.lists, n.iters, n.made, n.copied = w.g, list(w.lists), list(w.iters), w.made, w.copied
            if i < 4:
                n.lists.append(1)
            elif name == 'delete the graph':
                n.g = None
            elif name.startswith('new iterator'):
                n.iters.append(1)
            elif name == 'delete the first list':
                n.lists.pop()
            elif name == 'delete the first iterator':
                n.iters.pop()
            elif name.startswith('objects'):
                n.made = 1
            elif name.startswith('copies'):
                n.copied = 1
            yield from follow(ops + [i], n, left - 1)

    for n in range(0, 7 if THOROUGH else 6):
        for which in ((0, 1, 2, 3, 4) if n < 5 or THOROUGH and n < 6 else (0,)):
            for ops in follow([], Pretend(), n):
                yield {'graph': which, 'ops': ops}


def describe_c24(case):
    if 'undirected' in case and ('size' not in case or 'pattern' in case):
        return describe_c23(case)
    if 'size' in case:
        return f"lists of size {case['size']}, {'undirected' if case['undirected'] else 'directed'}"
    return f"graph {case['graph']}" + ''.join('; ' + ACTS[i][0] for i in case['ops'])


# ------------------------------------------------------------------ processes

EACH = {'C23': each_c23, 'C24': each_c24, 'C27': lambda: pythreads.each_c27(THOROUGH)}
RUN = {'C23': run_c23, 'C24': run_c24, 'C27': lambda case, env: pythreads.run_c27(case, env, fail)}
DESCRIBE = {'C23': describe_c23, 'C24': describe_c24, 'C27': lambda case: pythreads.describe_c27(case)}
RULES = {
    'C23': 'Case: one call history through the Python module on one graph, all of it read back at the end through every method and compared with the model. Distinct: by the graph that the history leads to.',
    'C27': 'Case: the search of every schedule, within the bound on preemptions (at opcodes of the module), of one pair of call sequences in two threads; in each execution (transitions) every result, and what the objects hold afterwards, is compared with that of each thread alone. Distinct: by scenario.',
    'C24': 'Case: one history of making, reading, advancing and deleting graphs, lists and iterators, everything alive being read at the end, and the blocks of the library counted after it. Distinct: by the contents of everything alive at the end.',
}
SLOT = 16384
board = mmap.mmap(-1, SLOT * (W + 1))


def put(slot, at, fmt, *v):
    struct.pack_into(fmt, board, slot * SLOT + at, *v)


def get(slot, at, fmt):
    return struct.unpack_from(fmt, board, slot * SLOT + at)[0]


def put_text(slot, text):
    b = text.encode()[:SLOT - 200]
    put(slot, 100, 'I', len(b))
    board[slot * SLOT + 104:slot * SLOT + 104 + len(b)] = b


def get_text(slot):
    n = get(slot, 100, 'I')
    return board[slot * SLOT + 104:slot * SLOT + 104 + n].decode(errors='replace')


def once(pid, case, env):
    before = mc.mc_live()
    env['where'] = ''
    what = ''
    try:
        RUN[pid](case, env)
    except Fail as e:
        what = f"{env['where']}: {e}"
    except Exception as e:
        what = f"{env['where']}: {type(e).__name__}: {e}"
    return what, mc.mc_live() - before


def judge(pid, case, env):
    what, leaked = once(pid, case, env)
    if what:
        return what
    if leaked > 0 and pid == 'C24':
        # A cache may be filled once; a leak grows every time
        def again():
            # (what is in a cycle is released by the collector)
            gc.collect()
            before = mc.mc_live()
            once(pid, case, {'transitions': 0, 'states': set()})
            gc.collect()
            return mc.mc_live() - before
        more = [again() for _ in range(2)]
        if min(more) > 0:
            return f'{leaked} blocks of the library are never released ({more[0]} and {more[1]} more when done again)'
    if env['where'] is None:
        raise RuntimeError(f'a history that cannot be: {DESCRIBE[pid](case)}')
    return ''


def digest(text):
    return hashlib.blake2b(text.encode(), digest_size=8).digest()


def worker(pid, me, out):
    env = {'transitions': 0, 'states': set(), 'where': ''}
    for i, case in enumerate(EACH[pid]()):
        if i % W != me:
            continue
        put(me, 0, 'QQ', i, get(me, 8, 'Q') + 1)
        what = judge(pid, case, env)
        put(me, 16, 'Q', env['transitions'])
        if what:
            put_text(me, what)
            os._exit(1)
        if i // W % 64 == 63:
            mc.mc_sweep()
    mc.mc_sweep()
    b = b''.join(digest(x) for x in env['states'])
    while b:
        b = b[os.write(out, b):]
    os._exit(0)


def together(pid, cases, seconds):
    """Runs histories in a process of their own."""
    put_text(W, '')
    child = os.fork()
    if child == 0:
        signal.alarm(seconds)
        mc.mc_seed(SEED)
        what = ''
        for k, case in enumerate(cases):
            put(W, 0, 'Q', k)
            what = judge(pid, case, {'transitions': 0, 'states': set(), 'where': ''})
            if what:
                put_text(W, what)
                os._exit(1)
        mc.mc_sweep()
        os._exit(0)
    st = os.waitpid(child, 0)[1]
    return get_text(W) or died(st)


def died(st):
    if os.WIFSIGNALED(st):
        s = os.WTERMSIG(st)
        return 'no end' if s == signal.SIGALRM else f'the process was killed by signal {s}'
    if os.WEXITSTATUS(st) == 97:
        return 'memory fault (see stderr)'
    return f'the process ended with status {st >> 8}' if st else ''


def part_of(pid, me, first, last):
    return [c for i, c in enumerate(itertools.islice(EACH[pid](), last + 1)) if i >= first and i % W == me]


def main():
    global THOROUGH, SEED
    if not mc.mc_track(b'unknown-linux-gnu.so'):
        print('engine error: the library is not loaded', file=sys.stderr)
        return 2
    if sys.argv[1] == 'replay':
        lines = dict(x.split(': ', 1) for x in open(sys.argv[2]).read().split('\n') if ': ' in x)
        pid = lines['property']
        THOROUGH, SEED = lines['tier'] == 'thorough', int(lines['seed'])
        cases = [json.loads(lines['case'])] if 'case' in lines else part_of(pid, *json.loads(lines['histories']))
        what = together(pid, cases, 600)
        print(DESCRIBE[pid](cases[get(W, 0, 'Q')]))
        if not what:
            print('held')
            return 0
        print(f'what: {what}\nVIOLATION property={pid} replay={sys.argv[2]}')
        return 1
    pid = sys.argv[2]
    start = time.time()
    mc.mc_seed(SEED)
    pids, pipes = [], {}
    for me in range(W):
        r, w = os.pipe()
        p = os.fork()
        if p == 0:
            os.close(r)
            try:
                worker(pid, me, w)
            except BaseException as e:
                print(f'engine error: {type(e).__name__}: {e}', file=sys.stderr)
                os._exit(3)
        os.close(w)
        pids.append(p)
        pipes[r] = me
    seen, rest = set(), {me: b'' for me in range(W)}
    moved, beat = [time.time()] * W, [0] * W
    bad, why, ended = None, '', set()
    while pipes and bad is None:
        for r in select.select(list(pipes), [], [], 1)[0]:
            me = pipes[r]
            b = os.read(r, 1 << 16)
            if b:
                rest[me] += b
                moved[me] = time.time()
                continue
            del pipes[r]
            st = os.waitpid(pids[me], 0)[1]
            ended.add(me)
            if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 3:
                return 2
            if st:
                bad, why = me, get_text(me) or died(st)
            else:
                seen |= {rest[me][i:i + 8] for i in range(0, len(rest[me]), 8)}
        for me in set(pipes.values()):
            if get(me, 8, 'Q') != beat[me]:
                beat[me], moved[me] = get(me, 8, 'Q'), time.time()
            elif time.time() - moved[me] > 60:
                bad, why = me, 'no end after 60 s'
    for me in range(W):
        if me not in ended:
            os.kill(pids[me], signal.SIGKILL)
            os.waitpid(pids[me], 0)
    done = sum(get(me, 8, 'Q') for me in range(W))
    transitions = sum(get(me, 16, 'Q') for me in range(W))
    if bad is not None:
        at = get(bad, 0, 'Q')
        part = part_of(pid, bad, max(0, at - 70 * W), at)
        case, where = part[-1], None
        what = together(pid, [case], 90)
        if not what:
            # A write after a release is seen late, in a history of the same process
            for case in part:
                what = together(pid, [case], 90)
                if what:
                    break
        for back in (100, 2000, 10 ** 9):
            if not what:
                where = [bad, max(0, at - back * W), at]
                cases = part_of(pid, *where)
                what = together(pid, cases, 300)
                case = cases[get(W, 0, 'Q')]
        if not what:
            print(f'engine error: {why}, but it does not happen again: {DESCRIBE[pid](part[-1])}', file=sys.stderr)
            return 2
        path = f'/verif/out/replay-{pid}-{digest(json.dumps(case)).hex()}.txt'
        body = f'histories: {json.dumps(where)}' if where else f'case: {json.dumps(case)}'
        with open(path, 'w') as f:
            f.write(f"property: {pid}\ntier: {'thorough' if THOROUGH else 'quick'}\nseed: {SEED}\n{body}\ncase-description: {DESCRIBE[pid](case)}\nwhat: {what}\n\n"
                    f're-run just this case: /verif/bin/replay.sh {path}\n')
        print(f'history: {DESCRIBE[pid](case)}\nwhat: {what}\nVIOLATION property={pid} replay={path}')
    total = done if bad is None else 1000
    samples = [DESCRIBE[pid](c) for i, c in enumerate(EACH[pid]()) if i % (total // 10 + 1) == total // 20][:12] if bad is None else []
    with open(f'/verif/evidence/{pid}.json', 'w') as f:
        json.dump({
            'property': pid, 'tier': 'thorough' if THOROUGH else 'quick', 'seed': SEED, 'level': 'model_checking',
            'coverage': {'evaluations': done, 'distinct_nontrivial': len(seen), 'rule': RULES[pid], 'states': len(seen), 'transitions': transitions,
                         'traces_validated_against_impl': done, 'exhaustive': bad is None, 'samples': samples},
            'assumptions': ['Bounds: the alphabet of calls and the lengths of the histories.',
                            'The model in the harness (sets and dictionaries) is correct; it was written from the documentation.',
                            'The module runs in the CPython of this sandbox with the library built from the working tree; blocks are told apart by the code that allocates them.'],
            'wall_s': round(time.time() - start, 2), 'violations': int(bad is not None)}, f)
    if bad is None:
        print(f'{pid}: {done} histories, {transitions} transitions, {len(seen)} distinct states, {time.time() - start:.1f} s')
    return int(bad is not None)


import graphrox
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pythreads
make_ops()
make_acts()
sys.stdout.flush()
code = main()
sys.stdout.flush()
os._exit(code)
