// C21 and C22: call histories through the C header, checked against a model on plain sets.
//
// capi check ID | replay FILE. Work is split over forked processes; each history runs on a thread of
// its own with hash seeds derived from the history, so that one history can be run again alone.

#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <pthread.h>
#include <set>
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

extern "C" {
#include "gphrx.h"

int mc_track(const char *name);
void mc_on_fault(void (*f)(const char *));
long mc_live(void);
long mc_total(void);
void mc_limit(size_t n);
void mc_sweep(void);
void mc_seed(uint64_t s);
size_t mc_size(const void *p);
}

typedef uint64_t u64;
using std::string;
using std::vector;

static const u64 MAX = UINT64_MAX;
static const u64 BIG = (1ull << 32) + 1;

// ------------------------------------------------------------------ failures

struct Fail {
    string what;
    // What is wrong is the memory handed over, not what it holds
    bool block = false;
};

static string fmt(const char *f, ...) {
    char b[2000];
    va_list a;
    va_start(a, f);
    vsnprintf(b, sizeof b, f, a);
    va_end(a);
    return b;
}

#define FAIL(...) throw Fail{fmt(__VA_ARGS__)}
#define FAIL_BLOCK(...) throw Fail{fmt(__VA_ARGS__), true}
#define U(x) ((unsigned long long)(x))

/* What is handed in is only read */
template <class T, class F> static auto only_read(const T *p, size_t n, const char *what, F f) -> decltype(f()) {
    vector<T> before;
    if (p)
        before.assign(p, p + n);
    auto r = f();
    if (p && !equal(before.begin(), before.end(), p))
        FAIL("%s changes what it is given to read", what);
    return r;
}
static void add_vertex_checked(GphrxGraph h, u64 a, const u64 *to, size_t n) {
    only_read(to, n, "gphrx_add_vertex", [&] {
        gphrx_add_vertex(h, a, (u64 *)to, n);
        return 0;
    });
}
/* Bytes may begin anywhere: the same bytes at another address, as they say themselves */
template <class F> static auto anywhere(const uint8_t *p, size_t n, F f) -> decltype(f(p)) {
    if (!p)
        return f(p);
    size_t at = n;
    for (size_t i = 0; i < n; i++)
        at = at * 31 + p[i];
    at %= 16;
    vector<uint8_t> room(n + at + 16, 0xa5);
    copy(p, p + n, room.begin() + at);
    return f((const uint8_t *)room.data() + at);
}
static GphrxGraph from_bytes_checked(const uint8_t *b, size_t n, uint8_t *err) {
    return anywhere(b, n, [&](const uint8_t *q) {
        return only_read(q, n, "gphrx_from_bytes", [&] { return gphrx_from_bytes(q, n, err); });
    });
}
static GphrxCompressedGraph compressed_from_bytes_checked(const uint8_t *b, size_t n, uint8_t *err) {
    return anywhere(b, n, [&](const uint8_t *q) {
        return only_read(q, n, "gphrx_compressed_graph_from_bytes", [&] { return gphrx_compressed_graph_from_bytes(q, n, err); });
    });
}
#define gphrx_add_vertex add_vertex_checked
#define gphrx_from_bytes from_bytes_checked
#define gphrx_compressed_graph_from_bytes compressed_from_bytes_checked

static void same(u64 got, u64 want, const char *what) {
    if (got != want)
        FAIL("%s is %llu, expected %llu", what, U(got), U(want));
}

static string clip(const string &s, size_t at) {
    size_t from = at > 40 ? at - 40 : 0;
    string r;
    for (char c : s.substr(from, 100))
        r += (c >= 32 && c < 127) ? string(1, c) : fmt("\\x%02x", (unsigned char)c);
    return r;
}

static void same_text(const string &got, const string &want, const char *what) {
    if (got == want)
        return;
    size_t i = 0;
    while (i < got.size() && i < want.size() && got[i] == want[i])
        i++;
    FAIL("%s differs at byte %zu: got \"%s\", expected \"%s\"", what, i, clip(got, i).c_str(), clip(want, i).c_str());
}

// ------------------------------------------------------------------ model

typedef std::pair<u64, u64> Edge;

struct Model {
    bool und = false;
    u64 n = 0;
    std::set<Edge> e;

    void put(u64 a, u64 b) {
        if (a == MAX || b == MAX)
            return;
        e.insert({a, b});
        n = std::max(n, std::max(a, b) + 1);
    }
    void add(u64 a, u64 b) {
        put(a, b);
        if (und)
            put(b, a);
    }
    void del(u64 a, u64 b) {
        e.erase({a, b});
        if (und)
            e.erase({b, a});
    }
    void vertex(u64 v, const vector<u64> &to) {
        for (u64 t : to)
            add(v, t);
        if (to.empty() && v != MAX)
            n = std::max(n, v + 1);
    }
    bool has(u64 a, u64 b) const { return e.count({a, b}); }
    vector<u64> out(u64 v) const {
        vector<u64> r;
        for (auto &x : e)
            if (x.first == v)
                r.push_back(x.second);
        return r;
    }
    vector<u64> in(u64 v) const {
        vector<u64> r;
        for (auto &x : e)
            if (x.second == v)
                r.push_back(x.first);
        return r;
    }
    string key() const {
        string s = fmt("%d %llu", und, U(n));
        for (auto &x : e)
            s += fmt(" %llu-%llu", U(x.first), U(x.second));
        return s;
    }
};

struct Pool {
    u64 dim = 0;
    std::map<Edge, double> v;
};

static u64 ceil_div(u64 a, u64 b) { return a / b + (a % b != 0); }

static Pool pool(const Model &m, u64 b) {
    Pool p;
    if (m.n == 0)
        return p;
    b = std::max<u64>(1, std::min(b, m.n));
    p.dim = ceil_div(m.n, b);
    for (auto &x : m.e)
        p.v[{x.first / b, x.second / b}] += 1;
    for (auto &x : p.v)
        x.second /= (double)b * (double)b;
    return p;
}

static Model approximate(const Model &m, u64 b, double t) {
    if (b <= 1 || m.n <= 1)
        return m;
    if (t > 1)
        t = 1;
    else if (!(t >= 1e-18))
        t = 1e-18;
    Pool p = pool(m, b);
    Model r;
    r.und = m.und;
    r.n = p.dim;
    for (auto &x : p.v)
        if (x.second >= t)
            r.add(x.first.first, x.first.second);
    return r;
}

struct Compressed {
    bool und = false;
    u64 n = 0, level = 1, dim = 1;
    std::map<Edge, u64> v;

    u64 edges() const {
        u64 c = 0;
        for (auto &x : v)
            c += __builtin_popcountll(x.second);
        return c;
    }
    bool has(u64 a, u64 b) const {
        auto i = v.find({a / 8, b / 8});
        return i != v.end() && (i->second >> (8 * (b % 8) + a % 8) & 1);
    }
    string key() const {
        string s = fmt("c%d %llu %llu", und, U(n), U(level));
        for (auto &x : v)
            s += fmt(" %llu,%llu:%llx", U(x.first.first), U(x.first.second), U(x.second));
        return s;
    }
};

static Compressed compress(const Model &m, u64 level) {
    Compressed c;
    c.und = m.und;
    c.n = m.n;
    c.level = std::max<u64>(1, std::min<u64>(64, level));
    c.dim = std::max<u64>(1, ceil_div(m.n, 8));
    std::map<Edge, u64> all;
    for (auto &x : m.e)
        all[{x.first / 8, x.second / 8}] |= 1ull << (8 * (x.second % 8) + x.first % 8);
    for (auto &x : all)
        if ((u64)__builtin_popcountll(x.second) >= c.level)
            c.v.insert(x);
    return c;
}

static Model decompress(const Compressed &c) {
    Model m;
    m.und = c.und;
    m.n = c.n;
    for (auto &x : c.v)
        for (int i = 0; i < 64; i++)
            if (x.second >> i & 1)
                m.put(x.first.first * 8 + i % 8, x.first.second * 8 + i / 8);
    return m;
}

static string grid(u64 dim, std::function<string(u64, u64)> cell) {
    size_t w = 0;
    for (u64 r = 0; r < dim; r++)
        for (u64 c = 0; c < dim; c++)
            w = std::max(w, cell(c, r).size());
    string s;
    for (u64 r = 0; r < dim; r++) {
        s += r ? "\r\n[ " : "[ ";
        for (u64 c = 0; c < dim; c++) {
            string x = cell(c, r);
            s += string(w - x.size(), ' ') + x + (c + 1 < dim ? ", " : " ");
        }
        s += "]";
    }
    return s;
}

static string graph_text(const Model &m) {
    return grid(m.n, [&](u64 c, u64 r) { return string(m.has(c, r) ? "1" : "0"); });
}

static string pool_text(const Pool &p, int digits) {
    return grid(p.dim, [&](u64 c, u64 r) {
        auto i = p.v.find({c, r});
        return fmt("%.*f", digits, i == p.v.end() ? 0.0 : i->second);
    });
}

static string compressed_text(const Compressed &c) {
    return grid(c.dim, [&](u64 col, u64 row) {
        auto i = c.v.find({col, row});
        return fmt("%llu", U(i == c.v.end() ? 0 : i->second));
    });
}

// ------------------------------------------------------------------ bytes, written and read here

static void be(string &s, u64 v, int n) {
    while (n--)
        s += (char)(v >> (8 * n));
}

static u64 rd(const string &s, size_t at, int n) {
    u64 v = 0;
    for (int i = 0; i < n; i++)
        v = v << 8 | (unsigned char)s[at + i];
    return v;
}

static string encode(const Model &m) {
    string s;
    be(s, 0x7ae71ffd, 4);
    be(s, 1, 4);
    be(s, m.n, 8);
    be(s, m.e.size(), 8);
    s += (char)m.und;
    s += '\0';
    for (auto &x : m.e)
        be(s, x.first, 8), be(s, x.second, 8);
    return s;
}

static string encode(const Compressed &c) {
    string s;
    be(s, 0x71ff7aed, 4);
    be(s, 2, 4);
    be(s, c.dim, 8);
    be(s, c.v.size(), 8);
    be(s, c.edges(), 8);
    be(s, c.n, 8);
    s += (char)c.und;
    s += (char)c.level;
    for (auto &x : c.v)
        be(s, x.second, 8), be(s, x.first.first, 8), be(s, x.first.second, 8);
    return s;
}

/* The bytes with their records in order */
static string canonical(const string &s, size_t head, size_t rec) {
    if (s.size() < head || (s.size() - head) % rec)
        return s;
    vector<string> r;
    for (size_t i = head; i < s.size(); i += rec)
        r.push_back(s.substr(i, rec));
    std::sort(r.begin(), r.end());
    string o = s.substr(0, head);
    for (auto &x : r)
        o += x;
    return o;
}

static string canonical_graph(const string &s) { return canonical(s, 26, 16); }
static string canonical_compressed(const string &s) { return canonical(s, 42, 24); }

// ------------------------------------------------------------------ reading back through the header

static void check_block(const void *p, size_t n, const char *what) {
    if (n == 0)
        return;
    if (!p)
        FAIL_BLOCK("%s is null, with length %zu", what, n);
    size_t s = mc_size(p);
    if (s == (size_t)-1)
        FAIL_BLOCK("%s does not point to a live block", what);
    if (s < n)
        FAIL_BLOCK("%s points to a block of %zu bytes, %zu expected", what, s, n);
}

static string take_text(const char *p, const char *what) {
    if (!p)
        FAIL_BLOCK("%s is null", what);
    if (mc_size(p) == (size_t)-1)
        FAIL_BLOCK("%s does not point to a live block", what);
    if (!memchr(p, 0, mc_size(p)))
        FAIL_BLOCK("%s has no end in its block", what);
    string s(p);
    free_gphrx_string_buffer(p);
    return s;
}

static string take_bytes(const uint8_t *p, size_t n, const char *what) {
    check_block(p, n, what);
    string s((const char *)p, n);
    free_gphrx_bytes_buffer(p, n);
    return s;
}

static vector<u64> take_vertices(const GphrxGraphVertex *p, size_t n, const char *what) {
    check_block(p, n * sizeof *p, what);
    vector<u64> v;
    for (size_t i = 0; i < n; i++)
        v.push_back(p[i].vertex_id);
    free_gphrx_vertex_list(p, n);
    std::sort(v.begin(), v.end());
    return v;
}

static vector<Edge> take_edges(const GphrxGraphEdge *p, size_t n, const char *what) {
    check_block(p, n * sizeof *p, what);
    vector<Edge> v;
    for (size_t i = 0; i < n; i++)
        v.push_back({p[i].from_vertex, p[i].to_vertex});
    free_gphrx_edge_list(p, n);
    std::sort(v.begin(), v.end());
    return v;
}

static string show(const vector<u64> &v) {
    string s = "[";
    for (u64 x : v)
        s += fmt(" %llu", U(x));
    return s + " ]";
}

static string show(const vector<Edge> &v) {
    string s = "[";
    for (auto &x : v)
        s += fmt(" %llu-%llu", U(x.first), U(x.second));
    return s + " ]";
}

static vector<u64> probes(u64 n) {
    vector<u64> v;
    for (u64 i = 0; i < std::min<u64>(n + 2, 14); i++)
        v.push_back(i);
    v.push_back(1ull << 32);
    v.push_back(BIG);
    v.push_back(MAX);
    return v;
}

static void see_pool(GphrxCsrSquareMatrix h, const Pool &p, bool deep) {
    if (!h.matrix_ptr)
        FAIL("the matrix is null");
    same(gphrx_matrix_dimension(h), p.dim, "gphrx_matrix_dimension");
    same(gphrx_matrix_entry_count(h), p.v.size(), "gphrx_matrix_entry_count");
    for (u64 c : probes(p.dim))
        for (u64 r : probes(p.dim)) {
            auto i = p.v.find({c, r});
            double want = i == p.v.end() ? 0 : i->second, got = gphrx_matrix_get_entry(h, c, r);
            if (got != want)
                FAIL("gphrx_matrix_get_entry(%llu, %llu) is %.17g, expected %.17g", U(c), U(r), got, want);
        }
    size_t len = 0x5555;
    const GphrxMatrixEntry *l = gphrx_matrix_get_entry_list(h, &len);
    check_block(l, len * sizeof *l, "gphrx_matrix_get_entry_list");
    std::map<Edge, double> got;
    for (size_t i = 0; i < len; i++)
        got[{l[i].col, l[i].row}] = l[i].entry;
    free_gphrx_matrix_entry_list(l, len);
    same(len, p.v.size(), "the length of gphrx_matrix_get_entry_list");
    if (got != p.v)
        FAIL("gphrx_matrix_get_entry_list differs from the matrix of %zu entries", p.v.size());
    if (p.dim > (deep ? 160 : 50))
        return;
    same_text(take_text(gphrx_matrix_to_string(h), "gphrx_matrix_to_string"), pool_text(p, 2), "gphrx_matrix_to_string");
    if (deep && p.dim <= 50)
        for (int d : {0, 1, 5, 20, 260})
            same_text(take_text(gphrx_matrix_to_string_with_precision(h, d), "gphrx_matrix_to_string_with_precision"),
                      pool_text(p, d), fmt("gphrx_matrix_to_string_with_precision(%d)", d).c_str());
}

static void see_graph(GphrxGraph h, const Model &m, int deep);

static void see_compressed(GphrxCompressedGraph h, const Compressed &c, int deep) {
    if (!h.graph_ptr)
        FAIL("the compressed graph is null");
    same(gphrx_compressed_graph_is_undirected(h), c.und, "gphrx_compressed_graph_is_undirected");
    same(gphrx_compressed_graph_vertex_count(h), c.n, "gphrx_compressed_graph_vertex_count");
    same(gphrx_compressed_graph_edge_count(h), c.edges(), "gphrx_compressed_graph_edge_count");
    same(gphrx_compressed_graph_compression_level(h), c.level, "gphrx_compressed_graph_compression_level");
    for (u64 a : probes(c.n))
        for (u64 b : probes(c.n))
            same(gphrx_compressed_graph_does_edge_exist(h, a, b), c.has(a, b),
                 fmt("gphrx_compressed_graph_does_edge_exist(%llu, %llu)", U(a), U(b)).c_str());
    for (u64 a : probes(c.dim))
        for (u64 b : probes(c.dim)) {
            auto i = c.v.find({a, b});
            same(gphrx_get_compressed_matrix_entry(h, a, b), i == c.v.end() ? 0 : i->second,
                 fmt("gphrx_get_compressed_matrix_entry(%llu, %llu)", U(a), U(b)).c_str());
        }
    if (c.dim < 50)
        same_text(take_text(gphrx_compressed_graph_matrix_string(h), "gphrx_compressed_graph_matrix_string"),
                  compressed_text(c), "gphrx_compressed_graph_matrix_string");
    size_t len = 0x5555;
    const uint8_t *p = gphrx_compressed_graph_to_bytes(h, &len);
    string bytes = take_bytes(p, len, "gphrx_compressed_graph_to_bytes");
    same_text(canonical_compressed(bytes), canonical_compressed(encode(c)), "gphrx_compressed_graph_to_bytes");
    if (deep) {
        uint8_t err = 0xaa;
        GphrxCompressedGraph again = gphrx_compressed_graph_from_bytes((const uint8_t *)bytes.data(), bytes.size(), &err);
        same(err, 0, "the error code of gphrx_compressed_graph_from_bytes");
        see_compressed(again, c, 0);
        free_gphrx_compressed_graph(again);
        GphrxGraph d = gphrx_decompress(h);
        see_graph(d, decompress(c), 0);
        free_gphrx_graph(d);
    }
}

/* deep 0: the graph itself; 1: and what is derived from it */
static void see_graph(GphrxGraph h, const Model &m, int deep) {
    if (!h.graph_ptr)
        FAIL("the graph is null");
    same(gphrx_is_undirected(h), m.und, "gphrx_is_undirected");
    same(gphrx_vertex_count(h), m.n, "gphrx_vertex_count");
    same(gphrx_edge_count(h), m.e.size(), "gphrx_edge_count");
    vector<u64> ps = probes(m.n);
    for (u64 a : ps) {
        for (u64 b : ps)
            same(gphrx_does_edge_exist(h, a, b), m.has(a, b), fmt("gphrx_does_edge_exist(%llu, %llu)", U(a), U(b)).c_str());
        vector<u64> out = m.out(a), in = m.in(a);
        same(gphrx_get_vertex_out_degree(h, a), out.size(), fmt("gphrx_get_vertex_out_degree(%llu)", U(a)).c_str());
        same(gphrx_get_vertex_in_degree(h, a), in.size(), fmt("gphrx_get_vertex_in_degree(%llu)", U(a)).c_str());
        size_t len = 0x5555;
        const GphrxGraphVertex *p = gphrx_get_vertex_out_edges_list(h, a, &len);
        vector<u64> v = take_vertices(p, len, "gphrx_get_vertex_out_edges_list");
        if (v != out)
            FAIL("gphrx_get_vertex_out_edges_list(%llu) is %s, expected %s", U(a), show(v).c_str(), show(out).c_str());
        len = 0x5555;
        p = gphrx_get_vertex_in_edges_list(h, a, &len);
        v = take_vertices(p, len, "gphrx_get_vertex_in_edges_list");
        if (v != in)
            FAIL("gphrx_get_vertex_in_edges_list(%llu) is %s, expected %s", U(a), show(v).c_str(), show(in).c_str());
    }
    size_t len = 0x5555;
    const GphrxGraphEdge *l = gphrx_get_edge_list(h, &len);
    vector<Edge> es = take_edges(l, len, "gphrx_get_edge_list"), want(m.e.begin(), m.e.end());
    if (es != want)
        FAIL("gphrx_get_edge_list is %s, expected %s", show(es).c_str(), show(want).c_str());
    if (m.n < (deep ? 320 : 50))
        same_text(take_text(gphrx_matrix_string(h), "gphrx_matrix_string"), graph_text(m), "gphrx_matrix_string");
    len = 0x5555;
    const uint8_t *p = gphrx_to_bytes(h, &len);
    string bytes = take_bytes(p, len, "gphrx_to_bytes");
    same_text(canonical_graph(bytes), encode(m), "gphrx_to_bytes");
    if (!deep)
        return;
    uint8_t err = 0xaa;
    GphrxGraph again = gphrx_from_bytes((const uint8_t *)bytes.data(), bytes.size(), &err);
    same(err, 0, "the error code of gphrx_from_bytes");
    see_graph(again, m, 0);
    free_gphrx_graph(again);
    for (u64 b : {(u64)0, (u64)1, (u64)2, (u64)3, (u64)8, BIG, MAX}) {
        // A block dimension of 1 or less gives a matrix as large as the graph
        GphrxCsrSquareMatrix pm = gphrx_find_avg_pool_matrix(h, b);
        Pool want = pool(m, b);
        see_pool(pm, want, b == 2 || b == 3);
        GphrxCsrSquareMatrix dm = gphrx_matrix_duplicate(pm);
        free_gphrx_matrix(pm);
        see_pool(dm, want, false);
        free_gphrx_matrix(dm);
    }
    for (u64 b : {(u64)0, (u64)1, (u64)2, (u64)5, BIG, MAX})
        for (double t : {-1.0, 0.0, 0.25, 0.5, 1.0, 7.0}) {
            GphrxGraph a = gphrx_approximate(h, b, t);
            see_graph(a, approximate(m, b, t), 0);
            free_gphrx_graph(a);
        }
    // At every density there is, and next to it
    for (u64 b : {2, 3, 6, 7}) {
        std::set<double> ts = {1e-18, 1e-17};
        for (auto &x : pool(m, b).v)
            ts.insert({x.second, nextafter(x.second, 2), nextafter(x.second, 0), (float)x.second});
        for (double t : ts) {
            GphrxGraph a = gphrx_approximate(h, b, t);
            Model want = approximate(m, b, t);
            if (gphrx_edge_count(a) != want.e.size() || gphrx_vertex_count(a) != want.n)
                FAIL("gphrx_approximate(%llu, %.17g) has %llu vertices and %llu edges, expected %llu and %llu", U(b), t, U(gphrx_vertex_count(a)),
                     U(gphrx_edge_count(a)), U(want.n), U(want.e.size()));
            free_gphrx_graph(a);
        }
    }
    for (u64 level : {0, 1, 2, 3, 64, 255}) {
        GphrxCompressedGraph c = gphrx_compress(h, level);
        see_compressed(c, compress(m, level), level == 1 || level == 2);
        GphrxCompressedGraph d = gphrx_compressed_graph_duplicate(c);
        free_gphrx_compressed_graph(c);
        see_compressed(d, compress(m, level), 0);
        free_gphrx_compressed_graph(d);
    }
    // Loaded from bytes, a compressed graph may have blocks of fewer edges than its level
    for (u64 level : {2, 64}) {
        Compressed want = compress(m, 1);
        want.level = level;
        string bytes = encode(want);
        uint8_t err = 0xaa;
        GphrxCompressedGraph c = gphrx_compressed_graph_from_bytes((const uint8_t *)bytes.data(), bytes.size(), &err);
        same(err, 0, "the error code of gphrx_compressed_graph_from_bytes");
        GphrxCompressedGraph d = gphrx_compressed_graph_duplicate(c);
        see_compressed(c, want, 1);
        free_gphrx_compressed_graph(c);
        see_compressed(d, want, 1);
        free_gphrx_compressed_graph(d);
    }
    GphrxGraph d = gphrx_duplicate(h);
    see_graph(d, m, 0);
    free_gphrx_graph(d);
}

// ------------------------------------------------------------------ C21: histories

struct Op {
    string name;
    std::function<void(GphrxGraph &, Model &)> run;
};

static void swap_for(GphrxGraph &h, GphrxGraph by) {
    free_gphrx_graph(h);
    h = by;
}

static GphrxGraph load(const string &b, const char *what) {
    uint8_t err = 0xaa;
    GphrxGraph g = gphrx_from_bytes((const uint8_t *)b.data(), b.size(), &err);
    if (!g.graph_ptr || err)
        FAIL("%s: well-formed bytes are refused (error code %d)", what, err);
    return g;
}

static vector<Op> ops() {
    vector<Op> v;
    const u64 ids[] = {0, 1, 9};
    for (u64 a : ids)
        for (u64 b : ids)
            v.push_back({fmt("add_edge(%llu,%llu)", U(a), U(b)), [=](GphrxGraph &h, Model &m) {
                             gphrx_add_edge(h, a, b);
                             m.add(a, b);
                         }});
    for (u64 a : ids)
        for (u64 b : ids)
            v.push_back({fmt("delete_edge(%llu,%llu)", U(a), U(b)), [=](GphrxGraph &h, Model &m) {
                             gphrx_delete_edge(h, a, b);
                             m.del(a, b);
                         }});
    auto vertex = [&](u64 a, vector<u64> to, bool null) {
        v.push_back({fmt("add_vertex(%llu,%s%s)", U(a), show(to).c_str(), null ? "null" : ""), [=](GphrxGraph &h, Model &m) {
                         vector<u64> copy = to;
                         copy.push_back(77);
                         gphrx_add_vertex(h, a, null ? nullptr : copy.data(), to.size());
                         m.vertex(a, to);
                     }});
    };
    vertex(0, {}, true);
    vertex(9, {}, true);
    vertex(2, {}, false);
    vertex(1, {9, MAX, 1, 0}, false);
    vertex(9, {0, 0}, false);
    vertex(3, {4}, false);
    vertex(1, {BIG, 1}, false);
    vertex(BIG, {0, BIG}, false);
    const Edge far[] = {{BIG, 0}, {1, BIG}, {BIG, BIG}};
    for (Edge e : far) {
        u64 a = e.first, b = e.second;
        v.push_back({fmt("add_edge(%llu,%llu)", U(a), U(b)), [=](GphrxGraph &h, Model &m) {
                         gphrx_add_edge(h, a, b);
                         m.add(a, b);
                     }});
        v.push_back({fmt("delete_edge(%llu,%llu)", U(a), U(b)), [=](GphrxGraph &h, Model &m) {
                         gphrx_delete_edge(h, a, b);
                         m.del(a, b);
                     }});
    }
    v.push_back({"add_edge to ID 2^64-1", [](GphrxGraph &h, Model &m) {
                     gphrx_add_edge(h, MAX, 0);
                     gphrx_add_edge(h, 0, MAX);
                     m.add(MAX, 0);
                     m.add(0, MAX);
                 }});
    v.push_back({"add_vertex(9, null list of length 2)", [](GphrxGraph &h, Model &m) {
                     // No edges are added; whether the vertex is, is not specified
                     u64 before = gphrx_vertex_count(h);
                     gphrx_add_vertex(h, 9, nullptr, 2);
                     u64 now = gphrx_vertex_count(h);
                     if (now != before && now != std::max<u64>(before, 10))
                         FAIL("the vertex count after adding vertex 9 to %llu vertices is %llu", U(before), U(now));
                     m.n = now;
                 }});
    v.push_back({"save and load", [](GphrxGraph &h, Model &m) {
                     size_t n = 0;
                     const uint8_t *p = gphrx_to_bytes(h, &n);
                     string b = take_bytes(p, n, "gphrx_to_bytes");
                     swap_for(h, load(b, "save and load"));
                 }});
    v.push_back({"load other bytes", [](GphrxGraph &h, Model &m) {
                     Model x;
                     x.und = !m.und;
                     x.n = 6;
                     x.put(5, 2);
                     x.put(2, 5);
                     x.put(3, 3);
                     swap_for(h, load(encode(x), "load other bytes"));
                     m = x;
                 }});
    v.push_back({"duplicate, edit the original, free it", [](GphrxGraph &h, Model &m) {
                     GphrxGraph d = gphrx_duplicate(h);
                     gphrx_add_edge(h, 4, 5);
                     gphrx_delete_edge(h, 0, 1);
                     swap_for(h, d);
                 }});
    v.push_back({"duplicate, edit and free the copy", [](GphrxGraph &h, Model &m) {
                     GphrxGraph d = gphrx_duplicate(h);
                     gphrx_add_edge(d, 4, 5);
                     gphrx_delete_edge(d, 0, 1);
                     free_gphrx_graph(d);
                 }});
    for (int b : {1, 2, 4})
        v.push_back({fmt("approximate(%d,0.2)", b), [=](GphrxGraph &h, Model &m) {
                         swap_for(h, gphrx_approximate(h, b, 0.2));
                         m = approximate(m, b, 0.2);
                     }});
    for (int l : {1, 2})
        v.push_back({fmt("compress(%d), free, decompress", l), [=](GphrxGraph &h, Model &m) {
                         GphrxCompressedGraph c = gphrx_compress(h, l);
                         Compressed want = compress(m, l);
                         swap_for(h, GphrxGraph{nullptr});
                         see_compressed(c, want, 0);
                         h = gphrx_decompress(c);
                         free_gphrx_compressed_graph(c);
                         m = decompress(want);
                     }});
    v.push_back({"malformed bytes are refused", [](GphrxGraph &h, Model &m) {
                     string good = encode(m);
                     vector<string> bad = {good.substr(0, good.size() - 1), good + "x", "", good.substr(0, 25)};
                     string x = good;
                     x[0] ^= 1;
                     bad.push_back(x);
                     x = good;
                     x[7] = 9;
                     bad.push_back(x);
                     x = good;
                     x[25] = 1;
                     bad.push_back(x);
                     x = good;
                     x[24] = 2;
                     bad.push_back(x);
                     for (auto &b : bad) {
                         uint8_t err = 0;
                         GphrxGraph g = gphrx_from_bytes((const uint8_t *)b.data(), b.size(), &err);
                         if (g.graph_ptr || err != GPHRX_ERROR_INVALID_FORMAT)
                             FAIL("malformed bytes of length %zu: handle %p, error code %d", b.size(), (void *)g.graph_ptr, err);
                         g = gphrx_from_bytes((const uint8_t *)b.data(), b.size(), nullptr);
                         if (g.graph_ptr)
                             FAIL("malformed bytes of length %zu give a handle", b.size());
                     }
                     Compressed c = compress(m, 1);
                     good = encode(c);
                     bad = {good.substr(0, good.size() - 1), good + "x", "", good.substr(0, 41)};
                     x = good;
                     x[41] = 0;
                     bad.push_back(x);
                     x = good;
                     x[40] = 3;
                     bad.push_back(x);
                     x = good;
                     x[31]++;
                     bad.push_back(x);
                     for (auto &b : bad) {
                         uint8_t err = 0;
                         GphrxCompressedGraph g = gphrx_compressed_graph_from_bytes((const uint8_t *)b.data(), b.size(), &err);
                         if (g.graph_ptr || err != GPHRX_ERROR_INVALID_FORMAT)
                             FAIL("malformed compressed bytes of length %zu: handle %p, error code %d", b.size(), (void *)g.graph_ptr, err);
                         g = gphrx_compressed_graph_from_bytes((const uint8_t *)b.data(), b.size(), nullptr);
                         if (g.graph_ptr)
                             FAIL("malformed compressed bytes of length %zu give a handle", b.size());
                     }
                     uint8_t err = 0;
                     if (gphrx_from_bytes(nullptr, 5, &err).graph_ptr || err != GPHRX_ERROR_INVALID_FORMAT)
                         FAIL("null bytes: error code %d", err);
                     err = 0;
                     if (gphrx_compressed_graph_from_bytes(nullptr, 5, &err).graph_ptr || err != GPHRX_ERROR_INVALID_FORMAT)
                         FAIL("null compressed bytes: error code %d", err);
                 }});
    v.push_back({"read everything", [](GphrxGraph &h, Model &m) { see_graph(h, m, 1); }});
    return v;
}

struct Env {
    std::unordered_set<string> seen;
    u64 transitions = 0;
    void state(const string &k) { seen.insert(k); }
};

static const char *PATTERNS[] = {"a chain", "a star outwards", "a star inwards", "a dense block", "one vertex with a list", "far apart", "loops", "edges deleted again"};
static const int NPATTERNS = sizeof PATTERNS / sizeof *PATTERNS;

/* One graph of k edges */
static void run_pattern(int und, int pattern, u64 k, Env &env, string &where) {
    GphrxGraph g = und ? gphrx_new_undirected() : gphrx_new_directed();
    Model m;
    m.und = und;
    auto edge = [&](u64 a, u64 b) {
        gphrx_add_edge(g, a, b);
        m.add(a, b);
    };
    vector<u64> to;
    for (u64 i = 0; i < k; i++)
        switch (pattern) {
        case 0: edge(i, i + 1); break;
        case 1: edge(0, i); break;
        case 2: edge(i, 0); break;
        case 3: edge(i % 8, i / 8); break;
        case 4: to.push_back(i % 3 ? i : k - i); break;
        case 5: edge(i * 1000003, (k - i) << 33); break;
        case 6: edge(i, i); break;
        default:
            edge(i % 5, i);
            edge(i, i % 3);
            gphrx_delete_edge(g, i % 5, i / 2);
            m.del(i % 5, i / 2);
        }
    if (pattern == 4) {
        gphrx_add_vertex(g, 3, to.data(), to.size());
        m.vertex(3, to);
    }
    env.transitions += k;
    where = "reading everything at the end";
    see_graph(g, m, 1);
    env.state(m.key());
    free_gphrx_graph(g);
}

static void run_c21(int und, const vector<int> &h, int watch, Env &env, string &where) {
    static const vector<Op> all = ops();
    GphrxGraph g = und ? gphrx_new_undirected() : gphrx_new_directed();
    Model m;
    m.und = und;
    int after = watch >> 2;
    for (int i : h) {
        where = all[i].name;
        all[i].run(g, m);
        env.transitions++;
        if (after & 1) {
            where = "reading after " + all[i].name;
            see_graph(g, m, watch & 1);
        }
        after >>= 1;
    }
    where = "reading everything at the end";
    see_graph(g, m, 1);
    env.state(m.key());
    free_gphrx_graph(g);
}

// ------------------------------------------------------------------ C22: ownership

enum Kind { G, C, M, STR, BYTES, EDGES, VERTS, ENTRIES };

struct Obj {
    Kind kind;
    const void *p;
    size_t len;
    bool live = true;
    Model m;
    Compressed c;
    Pool pool;
    string text;
};

struct World {
    vector<Obj> o;
    GphrxGraph g(size_t i) { return {o[i].p}; }
    GphrxCompressedGraph c(size_t i) { return {o[i].p}; }
    GphrxCsrSquareMatrix x(size_t i) { return {o[i].p}; }
};

static string raw(const void *p, size_t n) { return string((const char *)p, n); }

static void check_obj(World &w, size_t i) {
    Obj &o = w.o[i];
    size_t n = 0;
    switch (o.kind) {
    case G: {
        same(gphrx_is_undirected(w.g(i)), o.m.und, "gphrx_is_undirected");
        same(gphrx_vertex_count(w.g(i)), o.m.n, "gphrx_vertex_count");
        same(gphrx_edge_count(w.g(i)), o.m.e.size(), "gphrx_edge_count");
        const GphrxGraphEdge *l = gphrx_get_edge_list(w.g(i), &n);
        vector<Edge> v = take_edges(l, n, "gphrx_get_edge_list"), want(o.m.e.begin(), o.m.e.end());
        if (v != want)
            FAIL("the edges of object %zu are %s, expected %s", i, show(v).c_str(), show(want).c_str());
        break;
    }
    case C: {
        same(gphrx_compressed_graph_vertex_count(w.c(i)), o.c.n, "gphrx_compressed_graph_vertex_count");
        same(gphrx_compressed_graph_edge_count(w.c(i)), o.c.edges(), "gphrx_compressed_graph_edge_count");
        const uint8_t *p = gphrx_compressed_graph_to_bytes(w.c(i), &n);
        same_text(canonical_compressed(take_bytes(p, n, "gphrx_compressed_graph_to_bytes")), canonical_compressed(encode(o.c)), "gphrx_compressed_graph_to_bytes");
        break;
    }
    case M:
        same(gphrx_matrix_dimension(w.x(i)), o.pool.dim, "gphrx_matrix_dimension");
        same_text(take_text(gphrx_matrix_to_string(w.x(i)), "gphrx_matrix_to_string"), pool_text(o.pool, 2), "gphrx_matrix_to_string");
        break;
    default:
        check_block(o.p, o.text.size(), "a string, buffer or list");
        if (o.text.size())
            same_text(raw(o.p, o.text.size()), o.text, "the contents of a string, buffer or list");
    }
}

static void release(World &w, size_t i) {
    Obj &o = w.o[i];
    switch (o.kind) {
    case G: free_gphrx_graph(w.g(i)); break;
    case C: free_gphrx_compressed_graph(w.c(i)); break;
    case M: free_gphrx_matrix(w.x(i)); break;
    case STR: free_gphrx_string_buffer((const char *)o.p); break;
    case BYTES: free_gphrx_bytes_buffer((const uint8_t *)o.p, o.len); break;
    case EDGES: free_gphrx_edge_list((const GphrxGraphEdge *)o.p, o.len); break;
    case VERTS: free_gphrx_vertex_list((const GphrxGraphVertex *)o.p, o.len); break;
    case ENTRIES: free_gphrx_matrix_entry_list((const GphrxMatrixEntry *)o.p, o.len); break;
    }
    o.live = false;
}

static Obj obj(Kind k, const void *p, size_t len, const char *what) {
    if (!p)
        FAIL("%s gives null", what);
    Obj o;
    o.kind = k;
    o.p = p;
    o.len = len;
    return o;
}

static void push_raw(World &w, Kind k, const void *p, size_t len, size_t each, const char *what) {
    if (k == STR && (!p || mc_size(p) == (size_t)-1 || !memchr(p, 0, mc_size(p))))
        FAIL("%s gives no string in a block of its own", what);
    // An empty list may be null
    Obj o;
    o.kind = k;
    o.p = p;
    o.len = len;
    size_t bytes = k == STR ? strlen((const char *)p) + 1 : len * each;
    check_block(p, bytes, what);
    if (bytes)
        o.text = raw(p, bytes);
    w.o.push_back(o);
}

static void push_g(World &w, GphrxGraph h, const Model &m, const char *what) {
    Obj o = obj(G, h.graph_ptr, 0, what);
    o.m = m;
    w.o.push_back(o);
}
static void push_c(World &w, GphrxCompressedGraph h, const Compressed &c, const char *what) {
    Obj o = obj(C, h.graph_ptr, 0, what);
    o.c = c;
    w.o.push_back(o);
}
static void push_m(World &w, GphrxCsrSquareMatrix h, const Pool &p, const char *what) {
    Obj o = obj(M, h.matrix_ptr, 0, what);
    o.pool = p;
    w.o.push_back(o);
}

struct Make {
    const char *name;
    Kind on;
    void (*run)(World &, size_t);
};

static const Make MAKES[] = {
    {"duplicate", G, [](World &w, size_t i) { push_g(w, gphrx_duplicate(w.g(i)), w.o[i].m, "gphrx_duplicate"); }},
    {"approximate(1,0.5)", G, [](World &w, size_t i) { push_g(w, gphrx_approximate(w.g(i), 1, 0.5), w.o[i].m, "gphrx_approximate"); }},
    {"approximate(2,0.2)", G, [](World &w, size_t i) { push_g(w, gphrx_approximate(w.g(i), 2, 0.2), approximate(w.o[i].m, 2, 0.2), "gphrx_approximate"); }},
    {"compress(1)", G, [](World &w, size_t i) { push_c(w, gphrx_compress(w.g(i), 1), compress(w.o[i].m, 1), "gphrx_compress"); }},
    {"find_avg_pool_matrix(1)", G, [](World &w, size_t i) { push_m(w, gphrx_find_avg_pool_matrix(w.g(i), 1), pool(w.o[i].m, 1), "gphrx_find_avg_pool_matrix"); }},
    {"find_avg_pool_matrix(3)", G, [](World &w, size_t i) { push_m(w, gphrx_find_avg_pool_matrix(w.g(i), 3), pool(w.o[i].m, 3), "gphrx_find_avg_pool_matrix"); }},
    {"matrix_string", G, [](World &w, size_t i) { push_raw(w, STR, gphrx_matrix_string(w.g(i)), 0, 1, "gphrx_matrix_string"); }},
    {"to_bytes", G, [](World &w, size_t i) { size_t n = 0; auto p = gphrx_to_bytes(w.g(i), &n); push_raw(w, BYTES, p, n, 1, "gphrx_to_bytes"); }},
    {"get_edge_list", G, [](World &w, size_t i) { size_t n = 0; auto p = gphrx_get_edge_list(w.g(i), &n); push_raw(w, EDGES, p, n, sizeof *p, "gphrx_get_edge_list"); }},
    {"get_vertex_in_edges_list(1)", G, [](World &w, size_t i) { size_t n = 0; auto p = gphrx_get_vertex_in_edges_list(w.g(i), 1, &n); push_raw(w, VERTS, p, n, sizeof *p, "gphrx_get_vertex_in_edges_list"); }},
    {"get_vertex_out_edges_list(0)", G, [](World &w, size_t i) { size_t n = 0; auto p = gphrx_get_vertex_out_edges_list(w.g(i), 0, &n); push_raw(w, VERTS, p, n, sizeof *p, "gphrx_get_vertex_out_edges_list"); }},
    {"get_vertex_out_edges_list(50), empty", G, [](World &w, size_t i) { size_t n = 7; auto p = gphrx_get_vertex_out_edges_list(w.g(i), 50, &n); same(n, 0, "the length of the list of an unknown vertex"); push_raw(w, VERTS, p, n, sizeof *p, "gphrx_get_vertex_out_edges_list"); }},
    {"edit", G, [](World &w, size_t i) {
         gphrx_add_edge(w.g(i), 2, 9);
         gphrx_delete_edge(w.g(i), 0, 1);
         u64 to[2] = {3, 9};
         gphrx_add_vertex(w.g(i), 9, to, 2);
         w.o[i].m.add(2, 9);
         w.o[i].m.del(0, 1);
         w.o[i].m.vertex(9, {3, 9});
     }},
    {"compressed_graph_duplicate", C, [](World &w, size_t i) { push_c(w, gphrx_compressed_graph_duplicate(w.c(i)), w.o[i].c, "gphrx_compressed_graph_duplicate"); }},
    {"decompress", C, [](World &w, size_t i) { push_g(w, gphrx_decompress(w.c(i)), decompress(w.o[i].c), "gphrx_decompress"); }},
    {"compressed_graph_matrix_string", C, [](World &w, size_t i) { push_raw(w, STR, gphrx_compressed_graph_matrix_string(w.c(i)), 0, 1, "gphrx_compressed_graph_matrix_string"); }},
    {"compressed_graph_to_bytes", C, [](World &w, size_t i) { size_t n = 0; auto p = gphrx_compressed_graph_to_bytes(w.c(i), &n); push_raw(w, BYTES, p, n, 1, "gphrx_compressed_graph_to_bytes"); }},
    {"matrix_duplicate", M, [](World &w, size_t i) { push_m(w, gphrx_matrix_duplicate(w.x(i)), w.o[i].pool, "gphrx_matrix_duplicate"); }},
    {"matrix_to_string", M, [](World &w, size_t i) { push_raw(w, STR, gphrx_matrix_to_string(w.x(i)), 0, 1, "gphrx_matrix_to_string"); }},
    {"matrix_to_string_with_precision(7)", M, [](World &w, size_t i) { push_raw(w, STR, gphrx_matrix_to_string_with_precision(w.x(i), 7), 0, 1, "gphrx_matrix_to_string_with_precision"); }},
    {"matrix_get_entry_list", M, [](World &w, size_t i) { size_t n = 0; auto p = gphrx_matrix_get_entry_list(w.x(i), &n); push_raw(w, ENTRIES, p, n, sizeof *p, "gphrx_matrix_get_entry_list"); }},
    {"from_bytes", BYTES, [](World &w, size_t i) {
         // The buffer may hold either kind
         const uint8_t *b = (const uint8_t *)w.o[i].p;
         uint8_t err = 0xaa, err2 = 0xaa;
         GphrxGraph g = gphrx_from_bytes(b, w.o[i].len, &err);
         GphrxCompressedGraph c = gphrx_compressed_graph_from_bytes(b, w.o[i].len, &err2);
         if ((g.graph_ptr != nullptr) == (err != 0) || (c.graph_ptr != nullptr) == (err2 != 0) || !g.graph_ptr == !c.graph_ptr)
             FAIL("loading a buffer as both kinds: handles %p %p, codes %d %d", (void *)g.graph_ptr, (void *)c.graph_ptr, err, err2);
         const string s = w.o[i].text;
         if (g.graph_ptr) {
             Model m;
             m.und = s[24];
             m.n = rd(s, 8, 8);
             for (size_t k = 26; k < s.size(); k += 16)
                 m.put(rd(s, k, 8), rd(s, k + 8, 8));
             push_g(w, g, m, "gphrx_from_bytes");
         } else {
             Compressed x;
             x.dim = rd(s, 8, 8);
             x.n = rd(s, 32, 8);
             x.und = s[40];
             x.level = s[41];
             for (size_t k = 42; k < s.size(); k += 24)
                 x.v[{rd(s, k + 8, 8), rd(s, k + 16, 8)}] = rd(s, k, 8);
             push_c(w, c, x, "gphrx_compressed_graph_from_bytes");
         }
     }},
    {"from truncated bytes", BYTES, [](World &w, size_t i) {
         uint8_t err = 0;
         const uint8_t *b = (const uint8_t *)w.o[i].p;
         for (size_t n : {w.o[i].len - 1, w.o[i].len / 2, (size_t)0}) {
             if (gphrx_from_bytes(b, n, &err).graph_ptr || gphrx_compressed_graph_from_bytes(b, n, &err).graph_ptr)
                 FAIL("truncated bytes give a handle");
         }
     }},
    {"outputs without their length", G, [](World &w, size_t i) {
         // Null out-pointers: what comes back is either null or can be released with the true length
         auto b = gphrx_to_bytes(w.g(i), nullptr);
         if (b)
             free_gphrx_bytes_buffer(b, 26 + 16 * w.o[i].m.e.size());
         auto l = gphrx_get_edge_list(w.g(i), nullptr);
         if (l)
             free_gphrx_edge_list(l, w.o[i].m.e.size());
         auto v = gphrx_get_vertex_in_edges_list(w.g(i), 1, nullptr);
         if (v)
             free_gphrx_vertex_list(v, w.o[i].m.in(1).size());
         v = gphrx_get_vertex_out_edges_list(w.g(i), 0, nullptr);
         if (v)
             free_gphrx_vertex_list(v, w.o[i].m.out(0).size());
     }},
    {"compressed outputs without their length", C, [](World &w, size_t i) {
         auto b = gphrx_compressed_graph_to_bytes(w.c(i), nullptr);
         if (b)
             free_gphrx_bytes_buffer(b, 42 + 24 * w.o[i].c.v.size());
     }},
    {"entries without their length", M, [](World &w, size_t i) {
         auto l = gphrx_matrix_get_entry_list(w.x(i), nullptr);
         if (l)
             free_gphrx_matrix_entry_list(l, w.o[i].pool.v.size());
     }},
};
static const int NMAKES = sizeof MAKES / sizeof *MAKES;

static GphrxGraph seed_graph(int which, Model &m) {
    m.und = which & 1;
    GphrxGraph g = m.und ? gphrx_new_undirected() : gphrx_new_directed();
    if (which < 4) {
        for (Edge e : {Edge{0, 1}, Edge{1, 1}, Edge{3, 0}, Edge{0, 9}}) {
            if (which < 2 && e.second == 9)
                continue;
            gphrx_add_edge(g, e.first, e.second);
            m.add(e.first, e.second);
        }
    }
    return g;
}

/* h: pairs (what, on which object); then the release order */
static void run_c22(int which, const vector<int> &h, const vector<int> &order, Env &env, string &where) {
    World w;
    Model m;
    GphrxGraph g = seed_graph(which, m);
    push_g(w, g, m, "a new graph");
    for (size_t k = 0; k + 1 < h.size(); k += 2) {
        where = fmt("%s of object %d", MAKES[h[k]].name, h[k + 1]);
        MAKES[h[k]].run(w, h[k + 1]);
        env.transitions++;
    }
    string key = fmt("%d", which);
    for (auto &o : w.o)
        key += fmt("|%d %s%s%s", o.kind, o.kind == G ? o.m.key().c_str() : "", o.kind == C ? o.c.key().c_str() : "", o.text.c_str());
    for (int i : order) {
        for (size_t j = 0; j < w.o.size(); j++)
            if (w.o[j].live) {
                where = fmt("reading object %zu before the release of object %d", j, i);
                check_obj(w, j);
            }
        where = fmt("releasing object %d", i);
        release(w, i);
        env.transitions++;
        key += fmt(" -%d", i);
        env.state(key);
    }
}

/* The nulls, and results too large to build */
static void run_nulls(int which, Env &env, string &where) {
    env.state(fmt("null %d", which));
    env.transitions++;
    GphrxGraph g{nullptr};
    GphrxCompressedGraph c{nullptr};
    GphrxCsrSquareMatrix m{nullptr};
    size_t n;
#define NUL(x)                                      \
    do {                                            \
        where = #x;                                 \
        if ((x) != nullptr)                         \
            FAIL("%s of null is not null", #x);     \
    } while (0)
#define ZERO(x)                                     \
    do {                                            \
        where = #x;                                 \
        if ((x) != 0)                               \
            FAIL("%s of null is not zero", #x);     \
    } while (0)
#define LIST(x)                                     \
    do {                                            \
        n = 0x77;                                   \
        NUL(x);                                     \
        if (n != 0)                                 \
            FAIL("%s of null gives length %zu", #x, n); \
    } while (0)
    u64 to[2] = {1, 2};
    switch (which) {
    case 0:
        free_gphrx_graph(g);
        free_gphrx_compressed_graph(c);
        free_gphrx_matrix(m);
        free_gphrx_string_buffer(nullptr);
        free_gphrx_bytes_buffer(nullptr, 0);
        free_gphrx_edge_list(nullptr, 0);
        free_gphrx_vertex_list(nullptr, 0);
        free_gphrx_matrix_entry_list(nullptr, 0);
        free_gphrx_bytes_buffer(nullptr, 9);
        free_gphrx_edge_list(nullptr, 9);
        free_gphrx_vertex_list(nullptr, 9);
        free_gphrx_matrix_entry_list(nullptr, 9);
        break;
    case 1:
        NUL(gphrx_duplicate(g).graph_ptr);
        NUL(gphrx_matrix_string(g));
        LIST(gphrx_to_bytes(g, &n));
        NUL(gphrx_to_bytes(g, nullptr));
        ZERO(gphrx_is_undirected(g));
        ZERO(gphrx_vertex_count(g));
        ZERO(gphrx_edge_count(g));
        ZERO(gphrx_does_edge_exist(g, 0, 1));
        NUL(gphrx_find_avg_pool_matrix(g, 2).matrix_ptr);
        NUL(gphrx_approximate(g, 2, 0.5).graph_ptr);
        NUL(gphrx_approximate(g, 1, 0.5).graph_ptr);
        NUL(gphrx_compress(g, 1).graph_ptr);
        LIST(gphrx_get_edge_list(g, &n));
        NUL(gphrx_get_edge_list(g, nullptr));
        gphrx_add_vertex(g, 1, nullptr, 0);
        gphrx_add_vertex(g, 1, to, 2);
        gphrx_add_vertex(g, 1, nullptr, 2);
        gphrx_add_edge(g, 0, 1);
        gphrx_delete_edge(g, 0, 1);
        LIST(gphrx_get_vertex_in_edges_list(g, 1, &n));
        NUL(gphrx_get_vertex_in_edges_list(g, 1, nullptr));
        LIST(gphrx_get_vertex_out_edges_list(g, 1, &n));
        NUL(gphrx_get_vertex_out_edges_list(g, 1, nullptr));
        ZERO(gphrx_get_vertex_in_degree(g, 1));
        ZERO(gphrx_get_vertex_out_degree(g, 1));
        break;
    case 2:
        NUL(gphrx_compressed_graph_duplicate(c).graph_ptr);
        ZERO(gphrx_compressed_graph_compression_level(c));
        ZERO(gphrx_compressed_graph_is_undirected(c));
        ZERO(gphrx_compressed_graph_vertex_count(c));
        ZERO(gphrx_compressed_graph_edge_count(c));
        ZERO(gphrx_compressed_graph_does_edge_exist(c, 0, 1));
        ZERO(gphrx_get_compressed_matrix_entry(c, 0, 0));
        NUL(gphrx_compressed_graph_matrix_string(c));
        LIST(gphrx_compressed_graph_to_bytes(c, &n));
        NUL(gphrx_compressed_graph_to_bytes(c, nullptr));
        NUL(gphrx_decompress(c).graph_ptr);
        break;
    case 3:
        NUL(gphrx_matrix_duplicate(m).matrix_ptr);
        ZERO(gphrx_matrix_dimension(m));
        ZERO(gphrx_matrix_entry_count(m));
        ZERO(gphrx_matrix_get_entry(m, 0, 0));
        NUL(gphrx_matrix_to_string(m));
        NUL(gphrx_matrix_to_string_with_precision(m, 3));
        LIST(gphrx_matrix_get_entry_list(m, &n));
        NUL(gphrx_matrix_get_entry_list(m, nullptr));
        break;
    case 4: {
        uint8_t err = 0;
        NUL(gphrx_from_bytes(nullptr, 3, &err).graph_ptr);
        NUL(gphrx_from_bytes(nullptr, 3, nullptr).graph_ptr);
        NUL(gphrx_from_bytes(nullptr, 0, nullptr).graph_ptr);
        NUL(gphrx_compressed_graph_from_bytes(nullptr, 3, &err).graph_ptr);
        NUL(gphrx_compressed_graph_from_bytes(nullptr, 3, nullptr).graph_ptr);
        NUL(gphrx_compressed_graph_from_bytes(nullptr, 0, nullptr).graph_ptr);
        break;
    }
    default: {
        // Strings too large to build are null; everything else about the objects still works
        static const u64 ids[] = {1ull << 17, 1ull << 31, (1ull << 32) - 1, 1ull << 32, 1ull << 33, 1ull << 40, 1ull << 62, 1ull << 63, MAX - 1};
        u64 id = ids[(which - 5) % 9];
        int und = (which - 5) / 9;
        mc_limit(1 << 28);
        g = und ? gphrx_new_undirected() : gphrx_new_directed();
        gphrx_add_edge(g, id, 1);
        gphrx_add_vertex(g, id, nullptr, 0);
        NUL(gphrx_matrix_string(g));
        m = gphrx_find_avg_pool_matrix(g, 1);
        NUL(gphrx_matrix_to_string(m));
        NUL(gphrx_matrix_to_string_with_precision(m, 3));
        NUL(gphrx_matrix_to_string_with_precision(m, SIZE_MAX));
        same(gphrx_matrix_dimension(m), id + 1, "gphrx_matrix_dimension");
        GphrxCsrSquareMatrix one = gphrx_find_avg_pool_matrix(g, MAX);
        same(gphrx_matrix_dimension(one), 1, "gphrx_matrix_dimension");
        NUL(gphrx_matrix_to_string_with_precision(one, SIZE_MAX));
        NUL(gphrx_matrix_to_string_with_precision(one, SIZE_MAX - 8));
        NUL(gphrx_matrix_to_string_with_precision(one, 1ull << 40));
        free_gphrx_matrix(one);
        c = gphrx_compress(g, 1);
        if (id >= 1ull << 31)
            NUL(gphrx_compressed_graph_matrix_string(c));
        same(gphrx_compressed_graph_does_edge_exist(c, id, 1), 1, "gphrx_compressed_graph_does_edge_exist");
        GphrxGraph d = gphrx_decompress(c);
        same(gphrx_vertex_count(d), id + 1, "gphrx_vertex_count");
        same(gphrx_edge_count(d), 1 + und, "gphrx_edge_count");
        free_gphrx_graph(d);
        free_gphrx_compressed_graph(c);
        free_gphrx_matrix(m);
        free_gphrx_graph(g);
        mc_limit(0);
    }
    }
}
static const int NNULLS = 5 + 18;

// ------------------------------------------------------------------ one history

struct Case {
    string id;
    // C21: undirected, +2: not a history but a pattern and a size, +4: everything is read after some
    // calls, +8: the graph itself is; +16 << i: after call i; C22: the graph to begin with, or
    // +READING: a case of C21, all that is handed over in it being counted
    int kind;
    vector<int> ops, order;
    int nulls = -1;
};

static const int READING = 1 << 29;

static string encode_case(const Case &c) {
    string s = c.id + fmt(" kind=%d nulls=%d ops=", c.kind, c.nulls);
    for (int i : c.ops)
        s += fmt("%d,", i);
    s += " order=";
    for (int i : c.order)
        s += fmt("%d,", i);
    return s;
}

static vector<int> ints(const char *p) {
    vector<int> v;
    while (*p && *p != ' ' && *p != '\n') {
        v.push_back(strtol(p, (char **)&p, 10));
        if (*p == ',')
            p++;
    }
    return v;
}

static Case decode_case(const string &s) {
    Case c;
    c.id = s.substr(0, 3);
    c.kind = atoi(strstr(s.c_str(), "kind=") + 5);
    c.nulls = atoi(strstr(s.c_str(), "nulls=") + 6);
    c.ops = ints(strstr(s.c_str(), " ops=") + 5);
    c.order = ints(strstr(s.c_str(), " order=") + 7);
    return c;
}

static string describe(const Case &c) {
    string s;
    if (c.nulls >= 0)
        return c.nulls < 5 ? fmt("calls on null, group %d", c.nulls) : fmt("results too large to build, case %d", c.nulls - 5);
    if (c.id == "C21" || c.kind & READING) {
        static const vector<Op> all = ops();
        s = c.kind & 1 ? "a new undirected graph" : "a new directed graph";
        if (c.kind & 2)
            return s + fmt("; %s of %d edges", PATTERNS[c.ops[0]], c.ops[1]);
        for (int i : c.ops)
            s += "; " + all[i].name;
        for (int i = 0; i < 20 && c.id == "C21"; i++)
            if (c.kind >> 4 >> i & 1)
                s += fmt("; %s is read after call %d", c.kind & 4 ? "everything" : "the graph", i + 1);
        return s;
    }
    s = fmt("%s graph%s is object 0", c.kind & 1 ? "undirected" : "directed", c.kind >= 4 ? " (empty)" : "");
    for (size_t k = 0; k + 1 < c.ops.size(); k += 2)
        s += fmt("; %s of object %d", MAKES[c.ops[k]].name, c.ops[k + 1]);
    s += "; released in the order";
    for (int i : c.order)
        s += fmt(" %d", i);
    return s;
}

static u64 verif_seed = 1;

static u64 hash(const string &s) {
    u64 h = 1469598103934665603ull;
    for (unsigned char c : s)
        h = (h ^ c) * 1099511628211ull;
    return h;
}

struct Run {
    const Case *c;
    Env *env;
    string where, what;
    bool block = false;
};

static void *on_thread(void *p) {
    Run *r = (Run *)p;
    try {
        if (r->c->nulls >= 0)
            run_nulls(r->c->nulls, *r->env, r->where);
        else if ((r->c->id == "C21" || r->c->kind & READING) && r->c->kind & 2)
            run_pattern(r->c->kind & 1, r->c->ops[0], r->c->ops[1], *r->env, r->where);
        else if (r->c->kind & READING)
            run_c21(r->c->kind & 1, r->c->ops, 0, *r->env, r->where);
        else if (r->c->id == "C21")
            run_c21(r->c->kind & 1, r->c->ops, r->c->kind >> 2, *r->env, r->where);
        else
            run_c22(r->c->kind, r->c->ops, r->c->order, *r->env, r->where);
    } catch (Fail &f) {
        r->what = f.what;
        r->block = f.block;
    }
    return nullptr;
}

static string once(const Case &c, Env &env, long *leaked) {
    long before = mc_live();
    mc_seed(hash(encode_case(c)) ^ verif_seed);
    Run r{&c, &env, "", ""};
    pthread_t t;
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, 1 << 20);
    if (pthread_create(&t, &a, on_thread, &r)) {
        perror("pthread_create");
        exit(3);
    }
    pthread_join(t, nullptr);
    *leaked = mc_live() - before;
    if (!r.what.empty() && c.kind & READING && !r.block) {
        // Wrong answers are for C21
        *leaked = 0;
        return "";
    }
    return r.what.empty() ? "" : r.where + ": " + r.what;
}

/* Runs a history; the text says what is wrong with it. */
static string judge(const Case &c, Env &env) {
    long leaked;
    string what = once(c, env, &leaked);
    if (!what.empty())
        return what;
    if (leaked > 0 && c.id == "C22") {
        // A cache may be filled once; a leak grows every time
        Env e;
        long again = 0, third = 0;
        once(c, e, &again);
        once(c, e, &third);
        if (again > 0 && third > 0)
            return fmt("%ld blocks of the library are never released (%ld and %ld more when done again)", leaked, again, third);
    }
    return "";
}

// ------------------------------------------------------------------ enumeration

static bool thorough = false;
typedef std::function<bool(const Case &)> Visit;

static void each_c21(const Visit &visit) {
    vector<int> sizes;
    for (int k = 0; k <= (thorough ? 400 : 90); k++)
        sizes.push_back(k);
    for (int k : {127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 4095, 4096, 4097, 5000})
        if (k > sizes.back())
            sizes.push_back(k);
    for (int k : sizes)
        for (int p = 0; p < NPATTERNS; p++)
            for (int und = 2; und < 4; und++) {
                Case c;
                c.id = "C21";
                c.kind = und;
                c.ops = {p, k};
                if (!visit(c))
                    return;
            }
    int n = ops().size();
    // The longest histories leave out the calls whose kind is there already
    auto without = [&](std::initializer_list<const char *> left_out) {
        vector<int> some;
        for (int i = 0; i < n; i++) {
            bool in = true;
            for (auto x : left_out)
                in &= ops()[i].name.rfind(x, 0) != 0;
            if (in)
                some.push_back(i);
        }
        return some;
    };
    vector<int> all = without({}),
                some = without({"add_edge(9", "delete_edge(9,9)", "delete_edge(9,0)", "add_edge(0,0)", "add_edge(1,9)", "delete_edge(1,9)", "add_edge(1,4", "add_edge(4",
                                "delete_edge(1,4", "delete_edge(4294967297,4", "add_vertex(4"}),
                few = without({"add_edge(9", "add_edge(0,0)", "add_edge(1,", "delete_edge(0,0)", "delete_edge(1,", "delete_edge(9,", "add_vertex(0", "add_vertex(2",
                               "add_vertex(3", "add_vertex(4", "add_vertex(1,[ 4", "add_edge(4", "delete_edge(4", "add_vertex(9, ", "add_edge to", "load other", "duplicate, edit and", "approximate(1", "approximate(4", "compress(1)",
                               "malformed", "read everything"});
    vector<vector<int>> alphabets = {all, all, all, thorough ? all : some, thorough ? some : few};
    if (thorough)
        alphabets.push_back(few);
    // Without and with reading on the way
    struct Watched {
        int len, how;
        vector<int> *al;
    };
    vector<Watched> runs;
    for (int len = 0; len < (int)alphabets.size(); len++)
        runs.push_back({len, 0, &alphabets[len]});
    // (edges come and go, so that the counts return to what they were)
    vector<int> swaps;
    for (int i = 0; i < n; i++) {
        const string &s = ops()[i].name;
        for (auto x : {"add_edge(0,1)", "add_edge(1,0)", "add_edge(9,0)", "add_edge(9,9)", "delete_edge(0,1)", "delete_edge(1,0)", "delete_edge(9,0)", "delete_edge(9,9)"})
            if (s == x)
                swaps.push_back(i);
    }
    for (int len = 2; len < (thorough ? 6 : 5); len++)
        for (int after = 1; after < 1 << (len - 1); after++) {
            if (len == 2)
                runs.push_back({len, 4 | after << 4, &all});
            if (len == 3)
                runs.push_back({len, (thorough ? 4 : 8) | after << 4, &few});
            if (len > 2 && (thorough || len < 4 || !(after & (after - 1))))
                runs.push_back({len, 4 | after << 4, &swaps});
        }
    for (auto &run : runs) {
        int len = run.len;
        const vector<int> &al = *run.al;
        u64 count = 1;
        for (int i = 0; i < len; i++)
            count *= al.size();
        for (u64 x = 0; x < count; x++)
            for (int und = 0; und < 2; und++) {
                Case c;
                c.id = "C21";
                c.kind = und | run.how;
                u64 y = x;
                for (int i = 0; i < len; i++) {
                    c.ops.push_back(al[y % al.size()]);
                    y /= al.size();
                }
                if (!visit(c))
                    return;
            }
    }
}

/* Kinds of the objects that a sequence makes, without running it */
static bool made(const Make &k, Kind &kind) {
    string s = k.name;
    if (s == "duplicate" || s.rfind("approximate", 0) == 0 || s == "decompress")
        kind = G;
    else if (s == "compress(1)" || s == "compressed_graph_duplicate")
        kind = C;
    else if (s.rfind("find_avg", 0) == 0 || s == "matrix_duplicate")
        kind = M;
    else if (s.find("string") != string::npos)
        kind = STR;
    else if (s.find("to_bytes") != string::npos)
        kind = BYTES;
    else if (s == "get_edge_list")
        kind = EDGES;
    else if (s.rfind("get_vertex", 0) == 0)
        kind = VERTS;
    else if (s == "matrix_get_entry_list")
        kind = ENTRIES;
    else
        return false;
    return true;
}

static bool c22_rec(Case &c, vector<std::pair<Kind, bool>> &objs, int left, const Visit &visit) {
    if (left == 0) {
        vector<int> order;
        for (size_t i = 0; i < objs.size(); i++)
            order.push_back(i);
        do {
            c.order = order;
            if (!visit(c))
                return false;
        } while (std::next_permutation(order.begin(), order.end()));
        return true;
    }
    for (int k = 0; k < NMAKES; k++)
        for (size_t i = 0; i < objs.size(); i++) {
            if (objs[i].first != MAKES[k].on)
                continue;
            Kind kind = G;
            bool makes = made(MAKES[k], kind);
            bool of_compressed = false;
            if (!strcmp(MAKES[k].name, "from_bytes")) {
                makes = true;
                kind = objs[i].second ? C : G;
            } else if (makes && kind == BYTES)
                of_compressed = MAKES[k].on == C;
            c.ops.push_back(k);
            c.ops.push_back(i);
            if (makes)
                objs.push_back({kind, of_compressed});
            bool go = c22_rec(c, objs, left - 1, visit);
            if (makes)
                objs.pop_back();
            c.ops.pop_back();
            c.ops.pop_back();
            if (!go)
                return false;
        }
    return true;
}

static void each_c22(const Visit &visit) {
    for (int i = 0; i < NNULLS; i++) {
        Case c;
        c.id = "C22";
        c.kind = 0;
        c.nulls = i;
        if (!visit(c))
            return;
    }
    // Everything that can be read of many graphs, and all of it released
    bool go = true;
    each_c21([&](const Case &x) {
        bool pattern = x.kind & 2;
        if (!pattern && ((int)x.ops.size() > (thorough ? 2 : 1) || x.kind >> 2))
            return false;
        if (pattern && !thorough && x.ops[1] > 40 && x.ops[1] % 64 > 1 && x.ops[1] != 100 && x.ops[1] != 1000)
            return true;
        Case c = x;
        c.id = "C22";
        c.kind |= READING;
        return go = visit(c);
    });
    if (!go)
        return;
    for (int len = 0; len <= (thorough ? 4 : 3); len++)
        for (int which : {0, 1, 2, 3, 4, 5}) {
            if (len == 4 && which != 3)
                continue;
            Case c;
            c.id = "C22";
            c.kind = which;
            vector<std::pair<Kind, bool>> objs = {{G, false}};
            if (!c22_rec(c, objs, len, visit))
                return;
        }
}

// ------------------------------------------------------------------ processes

struct Slot {
    volatile u64 done, transitions, states, beat;
    volatile int bad;
    volatile u64 at;
    char hist[8192];
    char what[4096];
};

static Slot *slots, *mine;

static void fault_here(const char *what) {
    if (mine) {
        snprintf(mine->what, sizeof mine->what, "%s", what);
        mine->bad = 1;
    }
}

static double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

static string json(const string &s) {
    string r;
    for (unsigned char c : s)
        r += c == '"' || c == '\\' ? string("\\") + (char)c : c < 32 || c > 126 ? fmt("\\u%04x", c) : string(1, c);
    return "\"" + r + "\"";
}

static const int W = 8;

static void worker(const string &id, int me, int out) {
    mine = &slots[me];
    Env env;
    u64 i = 0;
    auto visit = [&](const Case &c) {
        if (i++ % W != (u64)me)
            return true;
        string e = encode_case(c);
        memcpy(mine->hist, e.c_str(), std::min(e.size() + 1, sizeof mine->hist));
        mine->at = i - 1;
        mine->beat++;
        string what = judge(c, env);
        if (!what.empty()) {
            fault_here(what.c_str());
            return false;
        }
        mine->done++;
        if (mine->done % 64 == 0)
            mc_sweep();
        return true;
    };
    if (id == "C21")
        each_c21(visit);
    else
        each_c22(visit);
    mc_sweep();
    mine->transitions = env.transitions;
    for (auto &k : env.seen) {
        u64 h = hash(k);
        if (fwrite(&h, 8, 1, stdout) != 1)
            _exit(3);
    }
    fflush(stdout);
    (void)out;
    _exit(mine->bad ? 1 : 0);
}

/* Runs one history in a process of its own. */
static string together(const vector<Case> &cs, int seconds) {
    memset(&slots[W], 0, sizeof(Slot));
    pid_t p = fork();
    if (p == 0) {
        mine = &slots[W];
        alarm(seconds);
        Env env;
        string what;
        for (auto &c : cs) {
            string e = encode_case(c);
            memcpy(mine->hist, e.c_str(), std::min(e.size() + 1, sizeof mine->hist));
            what = judge(c, env);
            if (!what.empty())
                break;
        }
        mc_sweep();
        if (!what.empty())
            fault_here(what.c_str());
        _exit(what.empty() ? 0 : 1);
    }
    int st;
    waitpid(p, &st, 0);
    if (slots[W].bad)
        return slots[W].what;
    if (WIFSIGNALED(st))
        return WTERMSIG(st) == SIGALRM ? fmt("no end after %d s", seconds) : fmt("the process was killed by signal %d", WTERMSIG(st));
    return st ? fmt("the process ended with status %d", st) : "";
}

static string alone(const Case &c, int seconds) { return together({c}, seconds); }

/* The histories of one worker, from one to another */
static vector<Case> part_of(const string &id, u64 me, u64 from, u64 to) {
    vector<Case> v;
    u64 i = 0;
    auto take = [&](const Case &c) {
        if (i % W == me && i >= from)
            v.push_back(c);
        return ++i <= to;
    };
    id == "C21" ? each_c21(take) : each_c22(take);
    return v;
}

static const char *RULES[2] = {
    "Case: one call history through the C header on one graph, all of it read back at the end and compared with the model. Distinct: by the graph that the history leads to.",
    "Case: one history of calls that produce objects, followed by one order of releasing them, every object still live being read before each release, and the blocks of the library counted at the end; or a group of calls on nulls or with results too large to build. Distinct: by the objects and the releases so far.",
};

int main(int argc, char **argv) {
    if (getenv("VERIF_SEED"))
        verif_seed = strtoull(getenv("VERIF_SEED"), nullptr, 10);
    thorough = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
    slots = (Slot *)mmap(nullptr, sizeof(Slot) * (W + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    mc_on_fault(fault_here);
    if (!mc_track("libgraphrox")) {
        fprintf(stderr, "engine error: the library is not loaded\n");
        return 2;
    }
    double start = now();
    if (argc > 2 && !strcmp(argv[1], "replay")) {
        FILE *f = fopen(argv[2], "r");
        char line[9000], tier[20] = "";
        string code;
        char part_id[20] = "";
        u64 me, from, to;
        while (f && fgets(line, sizeof line, f)) {
            sscanf(line, "histories: %19s worker %lu from %lu to %lu", part_id, &me, &from, &to);
            if (!strncmp(line, "case: ", 6))
                code = line + 6;
            sscanf(line, "tier: %19s", tier);
            sscanf(line, "seed: %lu", &verif_seed);
        }
        thorough = !strcmp(tier, "thorough");
        if (*part_id) {
            string what = together(part_of(part_id, me, from, to), 600);
            if (what.empty()) {
                printf("held\n");
                return 0;
            }
            printf("at: %s\nwhat: %s\nVIOLATION property=%s replay=%s\n", describe(decode_case(slots[W].hist)).c_str(), what.c_str(), part_id, argv[2]);
            return 1;
        }
        if (code.empty())
            return 2;
        Case c = decode_case(code);
        string what = alone(c, 60);
        printf("%s\n", describe(c).c_str());
        if (what.empty()) {
            printf("held\n");
            return 0;
        }
        printf("what: %s\nVIOLATION property=%s replay=%s\n", what.c_str(), c.id.c_str(), argv[2]);
        return 1;
    }
    if (argc < 3 || strcmp(argv[1], "check"))
        return 2;
    string id = argv[2];
    pid_t pids[W];
    int pipes[W];
    fflush(stdout);
    for (int i = 0; i < W; i++) {
        int p[2];
        if (pipe(p))
            return 2;
        pids[i] = fork();
        if (pids[i] == 0) {
            for (int j = 0; j < i; j++)
                close(pipes[j]);
            close(p[0]);
            dup2(p[1], 1);
            close(p[1]);
            worker(id, i, 1);
        }
        close(p[1]);
        pipes[i] = p[0];
    }
    // Read what they found, and watch over them
    std::unordered_set<u64> seen;
    bool open[W], ended[W] = {};
    int status[W] = {};
    for (int i = 0; i < W; i++)
        open[i] = true;
    u64 beat[W] = {};
    double moved[W];
    for (int i = 0; i < W; i++)
        moved[i] = now();
    int bad = -1;
    string why;
    vector<string> rest(W);
    while (bad < 0) {
        fd_set fds;
        FD_ZERO(&fds);
        int top = -1;
        for (int i = 0; i < W; i++)
            if (open[i])
                FD_SET(pipes[i], &fds), top = std::max(top, pipes[i]);
        if (top < 0)
            break;
        timeval tv{1, 0};
        if (select(top + 1, &fds, nullptr, nullptr, &tv) < 0)
            continue;
        for (int i = 0; i < W; i++) {
            if (open[i] && FD_ISSET(pipes[i], &fds)) {
                char buf[65536];
                ssize_t n = read(pipes[i], buf, sizeof buf);
                if (n <= 0) {
                    open[i] = false;
                    close(pipes[i]);
                    waitpid(pids[i], &status[i], 0);
                    ended[i] = true;
                    if (status[i]) {
                        bad = i;
                        why = slots[i].bad ? slots[i].what : fmt("the process ended with status %d", status[i]);
                    }
                } else {
                    moved[i] = now();
                    rest[i].append(buf, n);
                    size_t k = 0;
                    for (; k + 8 <= rest[i].size(); k += 8) {
                        u64 h;
                        memcpy(&h, rest[i].data() + k, 8);
                        seen.insert(h);
                    }
                    rest[i].erase(0, k);
                }
            }
            if (open[i] && slots[i].beat != beat[i]) {
                beat[i] = slots[i].beat;
                moved[i] = now();
            }
            if (open[i] && now() - moved[i] > 60 && bad < 0) {
                bad = i;
                why = "no end after 60 s";
            }
        }
    }
    for (int i = 0; i < W; i++)
        if (!ended[i]) {
            kill(pids[i], SIGKILL);
            waitpid(pids[i], nullptr, 0);
        }
    u64 done = 0, transitions = 0;
    for (int i = 0; i < W; i++)
        done += slots[i].done, transitions += slots[i].transitions;
    if (bad >= 0) {
        Case c = decode_case(slots[bad].hist);
        string again = alone(c, 90), part;
        u64 at = slots[bad].at;
        if (again.empty()) {
            // A write after a release is seen late, in a history of the same process; or the library
            // keeps something from one history to the next
            for (auto &x : part_of(id, bad, at > 70 * W ? at - 70 * W : 0, at)) {
                again = alone(x, 90);
                if (!again.empty()) {
                    c = x;
                    break;
                }
            }
        }
        for (u64 back : {100ull * W, 2000ull * W, ~0ull})
            if (again.empty()) {
                u64 from = at > back ? at - back : 0;
                again = together(part_of(id, bad, from, at), 200);
                part = fmt("histories: %s worker %d from %llu to %llu", id.c_str(), bad, U(from), U(at));
            }
        if (again.empty()) {
            fprintf(stderr, "engine error: %s, but it does not happen again: %s\n", why.c_str(), slots[bad].hist);
            return 2;
        }
        why = again;
        string code = encode_case(c);
        string path = fmt("/verif/out/replay-%s-%016llx.txt", id.c_str(), U(hash(code)));
        FILE *f = fopen(path.c_str(), "w");
        fprintf(f, "property: %s\ntier: %s\nseed: %lu\n%s%s\ncase-description: %s\nwhat: %s\n\nre-run just this case: /verif/bin/replay.sh %s\n", id.c_str(),
                thorough ? "thorough" : "quick", verif_seed, part.empty() ? "case: " : "", part.empty() ? code.c_str() : part.c_str(), describe(c).c_str(), why.c_str(), path.c_str());
        fclose(f);
        printf("history: %s\nwhat: %s\nVIOLATION property=%s replay=%s\n", describe(c).c_str(), why.c_str(), id.c_str(), path.c_str());
    }
    // Samples, spread over the enumeration
    vector<string> samples;
    {
        u64 total = 0, i = 0;
        auto count = [&](const Case &) { return total++, true; };
        id == "C21" ? each_c21(count) : each_c22(count);
        auto pick = [&](const Case &c) {
            if (i++ % (total / 10 + 1) == total / 20)
                samples.push_back(describe(c));
            return samples.size() < 12;
        };
        id == "C21" ? each_c21(pick) : each_c22(pick);
    }
    FILE *f = fopen(fmt("/verif/evidence/%s.json", id.c_str()).c_str(), "w");
    fprintf(f, "{\"property\": \"%s\", \"tier\": \"%s\", \"seed\": %lu, \"level\": \"model_checking\", \"coverage\": {\"evaluations\": %llu, \"distinct_nontrivial\": %zu, \"rule\": %s, \"states\": %zu, \"transitions\": %llu, \"traces_validated_against_impl\": %llu, \"exhaustive\": %s, \"samples\": [",
            id.c_str(), thorough ? "thorough" : "quick", verif_seed, U(done), seen.size(), json(RULES[id == "C22"]).c_str(), seen.size(), U(transitions), U(done), bad < 0 ? "true" : "false");
    for (size_t i = 0; i < samples.size(); i++)
        fprintf(f, "%s%s", i ? ", " : "", json(samples[i]).c_str());
    fprintf(f, "]}, \"assumptions\": [\"Bounds: the alphabet of calls and the lengths of the histories; vertex IDs 0, 1, 9 and a few others.\", \"The model in the harness (sets and maps) is correct; it was written from the documentation.\", \"Hash seeds derive from VERIF_SEED and the history.\", \"The library is the cdylib built from the working tree with debug assertions; blocks are told apart by the code that allocates them.\"], \"wall_s\": %.2f, \"violations\": %d}\n",
            now() - start, bad >= 0);
    fclose(f);
    if (bad < 0)
        printf("%s: %llu histories, %llu transitions, %zu distinct states, %.1f s\n", id.c_str(), U(done), U(transitions), seen.size(), now() - start);
    return bad >= 0;
}
