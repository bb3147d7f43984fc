// The spatial index on a simulated disk: Save/Load against seeded disk faults.
// Self-contained engine (property C17).  stdio is wrapped at link time
// (-Wl,--wrap=...); operator new can be made to fail.
#include <errno.h>
#include <poll.h>
#include <stdarg.h>
#include <stdint.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include "RTree.h"

// ------------------------------------------------------------------ heap
namespace heap {
static bool on = false;
static long live = 0, n = 0, fail_at = 0, fired = 0;
}
void* operator new(size_t s) {
    if (heap::on) {
        if (heap::fail_at && ++heap::n == heap::fail_at) { ++heap::fired; throw std::bad_alloc(); }
        ++heap::live;
    }
    // a tag tells whether the block counts
    char* p = static_cast<char*>(malloc(s + 16));
    if (!p) throw std::bad_alloc();
    *reinterpret_cast<long*>(p) = heap::on ? 1 : 0;
    return p + 16;
}
void operator delete(void* q) noexcept {
    if (!q) return;
    char* p = static_cast<char*>(q) - 16;
    if (*reinterpret_cast<long*>(p) == 1) --heap::live;
    free(p);
}
void operator delete(void* q, size_t) noexcept { operator delete(q); }
void* operator new[](size_t s) { return operator new(s); }
void operator delete[](void* q) noexcept { operator delete(q); }
void operator delete[](void* q, size_t) noexcept { operator delete(q); }

// ------------------------------------------------------------------ disk
extern "C" {
FILE* __real_fopen(const char*, const char*);
FILE* __real_fopen64(const char*, const char*);
int __real_fclose(FILE*);
size_t __real_fread(void*, size_t, size_t, FILE*);
size_t __real_fwrite(const void*, size_t, size_t, FILE*);
int __real_fflush(FILE*);
int __real_ferror(FILE*);
int __real_feof(FILE*);
void __real_clearerr(FILE*);
int __real_fseek(FILE*, long, int);
long __real_ftell(FILE*);
void __real_rewind(FILE*);
int __real_setvbuf(FILE*, char*, int, size_t);
int __real_fgetc(FILE*);
int __real_fputc(int, FILE*);
int __real_remove(const char*);
int __real_rename(const char*, const char*);
}

namespace disk {
enum Fault { NONE, OPEN_FAIL, WRITE_ERR, FULL, CLOSE_ERR, READ_ERR, SHORT_READ, N_FAULT };
struct File { std::string data; };
struct Stream { std::string name; bool wr, rd; size_t pos = 0; std::string buf; size_t base = 0; bool err = false, eof = false; };
static std::map<std::string, File>* files;
static std::set<Stream*>* open;
static int fault = NONE; static uint64_t at = 0; static long fired = 0; static bool sticky = false;
static uint64_t moved = 0;            // bytes moved by the current operation
static size_t bufsize = 4096;
static uint64_t ops = 0, bytes = 0;
static const char prefix[] = "/simulated-disk/";
bool mine(const char* p) { return p && !strncmp(p, prefix, sizeof prefix - 1); }
Stream* of(FILE* f) { Stream* s = reinterpret_cast<Stream*>(f); return open && open->count(s) ? s : nullptr; }
struct Off { bool o; Off() : o(heap::on) { heap::on = false; } ~Off() { heap::on = o; } };

// move n bytes to the medium, from offset base of the stream's file
bool put(Stream* s, const char* p, size_t n) {
    File& f = (*files)[s->name];
    size_t ok = n;
    if ((fault == WRITE_ERR || fault == FULL) && (sticky || !fired || fault == FULL) && moved + n > at) {
        ok = moved >= at ? 0 : at - moved;
        ++fired;
    }
    if (f.data.size() < s->base) f.data.resize(s->base);
    f.data.replace(s->base, std::min(ok, f.data.size() - s->base), p, ok);
    s->base += ok; moved += ok; bytes += ok; ++ops;
    if (ok < n) { s->err = true; errno = fault == FULL ? ENOSPC : EIO; return false; }
    return true;
}
bool flush(Stream* s) {
    if (s->buf.empty()) return true;
    std::string b; b.swap(s->buf);
    return put(s, b.data(), b.size());
}
FILE* fopen_(const char* n, const char* m) {
    Off off;
    if (fault == OPEN_FAIL && !fired) { ++fired; errno = EACCES; return nullptr; }
    bool plus = strchr(m, '+');
    Stream* s = new Stream;
    s->name = n; s->wr = m[0] != 'r' || plus; s->rd = m[0] == 'r' || plus;
    if (m[0] == 'r' && !files->count(n)) { delete s; errno = ENOENT; return nullptr; }
    if (m[0] == 'w') (*files)[n].data.clear();
    if (m[0] == 'a') s->base = (*files)[n].data.size();
    open->insert(s);
    return reinterpret_cast<FILE*>(s);
}
size_t write_(Stream* s, const char* p, size_t size, size_t n) {
    Off off;
    if (!s->wr) { s->err = true; errno = EBADF; return 0; }
    size_t total = size * n, done = 0;
    while (done < total) {
        size_t k = std::min(total - done, bufsize - std::min(bufsize, s->buf.size()));
        if (k == 0) k = 1;
        s->buf.append(p + done, k);
        done += k;
        if (s->buf.size() >= bufsize && !flush(s)) { size_t lost = std::min(done, k); return size ? (done - lost) / size : 0; }
    }
    return n;
}
size_t read_(Stream* s, char* p, size_t size, size_t n) {
    Off off;
    if (!s->rd) { s->err = true; errno = EBADF; return 0; }
    File& f = (*files)[s->name];
    size_t want = size * n, have = s->pos < f.data.size() ? f.data.size() - s->pos : 0, k = std::min(want, have);
    ++ops;
    if ((fault == READ_ERR || fault == SHORT_READ) && (sticky || !fired) && moved + k > at) {
        k = moved >= at ? 0 : at - moved;
        ++fired;
        if (fault == READ_ERR) { s->err = true; errno = EIO; } else s->eof = true;
    } else if (k < want) s->eof = true;
    memcpy(p, f.data.data() + s->pos, k);
    s->pos += k; moved += k; bytes += k;
    return size ? k / size : 0;
}
int close_(Stream* s) {
    Off off;
    bool ok = true;
    if (s->wr) {
        // a failing close loses what was still buffered
        if (fault == CLOSE_ERR && !fired) { ++fired; size_t keep = std::min<size_t>(s->buf.size(), at); s->buf.resize(keep); flush(s); ok = false; errno = EIO; }
        else if (!flush(s)) ok = false;
    }
    open->erase(s);
    delete s;
    return ok ? 0 : EOF;
}
}  // namespace disk

extern "C" {
FILE* __wrap_fopen(const char* n, const char* m) { return disk::mine(n) ? disk::fopen_(n, m) : __real_fopen(n, m); }
FILE* __wrap_fopen64(const char* n, const char* m) { return disk::mine(n) ? disk::fopen_(n, m) : __real_fopen64(n, m); }
int __wrap_fclose(FILE* f) { auto* s = disk::of(f); return s ? disk::close_(s) : __real_fclose(f); }
size_t __wrap_fread(void* p, size_t z, size_t n, FILE* f) { auto* s = disk::of(f); return s ? disk::read_(s, static_cast<char*>(p), z, n) : __real_fread(p, z, n, f); }
size_t __wrap_fwrite(const void* p, size_t z, size_t n, FILE* f) { auto* s = disk::of(f); return s ? disk::write_(s, static_cast<const char*>(p), z, n) : __real_fwrite(p, z, n, f); }
int __wrap_fflush(FILE* f) { auto* s = f ? disk::of(f) : nullptr; return s ? (disk::flush(s) ? 0 : EOF) : __real_fflush(f); }
int __wrap_ferror(FILE* f) { auto* s = disk::of(f); return s ? s->err : __real_ferror(f); }
int __wrap_feof(FILE* f) { auto* s = disk::of(f); return s ? s->eof : __real_feof(f); }
void __wrap_clearerr(FILE* f) { auto* s = disk::of(f); if (s) s->err = s->eof = false; else __real_clearerr(f); }
int __wrap_fseek(FILE* f, long o, int w) {
    auto* s = disk::of(f);
    if (!s) return __real_fseek(f, o, w);
    disk::flush(s);
    long b = w == SEEK_SET ? 0 : w == SEEK_CUR ? static_cast<long>(s->wr ? s->base : s->pos) : static_cast<long>((*disk::files)[s->name].data.size());
    if (b + o < 0) return -1;
    s->pos = s->base = b + o; s->eof = false;
    return 0;
}
long __wrap_ftell(FILE* f) { auto* s = disk::of(f); return s ? static_cast<long>(s->wr ? s->base + s->buf.size() : s->pos) : __real_ftell(f); }
void __wrap_rewind(FILE* f) { auto* s = disk::of(f); if (s) { __wrap_fseek(f, 0, SEEK_SET); s->err = false; } else __real_rewind(f); }
int __wrap_setvbuf(FILE* f, char* b, int m, size_t n) { return disk::of(f) ? 0 : __real_setvbuf(f, b, m, n); }
int __wrap_fgetc(FILE* f) { unsigned char c; auto* s = disk::of(f); return s ? (disk::read_(s, reinterpret_cast<char*>(&c), 1, 1) == 1 ? c : EOF) : __real_fgetc(f); }
int __wrap_getc(FILE* f) { return __wrap_fgetc(f); }
int __wrap_fputc(int c, FILE* f) { auto* s = disk::of(f); char b = static_cast<char>(c); return s ? (disk::write_(s, &b, 1, 1) == 1 ? (c & 255) : EOF) : __real_fputc(c, f); }
int __wrap_putc(int c, FILE* f) { return __wrap_fputc(c, f); }
int __wrap_remove(const char* n) { if (!disk::mine(n)) return __real_remove(n); disk::Off off; return disk::files->erase(n) ? 0 : -1; }
int __wrap_rename(const char* a, const char* b) {
    if (!disk::mine(a)) return __real_rename(a, b);
    disk::Off off;
    auto it = disk::files->find(a);
    if (it == disk::files->end()) { errno = ENOENT; return -1; }
    std::string d = it->second.data;
    disk::files->erase(it);
    (*disk::files)[b].data = d;
    return 0;
}
}

// ------------------------------------------------------------------ subject
struct Box { double mn[3], mx[3]; bool operator==(const Box& o) const { return !memcmp(this, &o, sizeof *this); } };
using Content = std::map<long, Box>;

struct Index {
    virtual ~Index() {}
    virtual int dims() const = 0;
    virtual bool single() const = 0;      // single precision coordinates
    virtual void insert(long id, const Box& b) = 0;
    virtual void remove(long id, const Box& b) = 0;
    virtual int search(const Box& b, std::vector<long>& out, size_t stop) = 0;
    virtual bool iterate(std::vector<std::pair<long, Box>>& out, size_t limit) = 0;
    virtual int count() = 0;
    virtual void clear() = 0;
    virtual bool save(const char* f) = 0;
    virtual bool load(const char* f) = 0;
    virtual bool save(RTFileStream& s) = 0;
    virtual bool load(RTFileStream& s) = 0;
};
struct Ctx { std::vector<long>* out; size_t stop; };

template<class D> long to_id(D d) { return (long)d; }
template<class D> D from_id(long i) { return (D)i; }

template<class D, class E, int N, class R, int M>
struct Tree : Index {
    using T = RTree<D, E, N, R, M>;
    T t;
    int dims() const override { return N; }
    bool single() const override { return sizeof(E) == 4; }
    static void conv(const Box& b, E* mn, E* mx) { for (int i = 0; i < N; ++i) { mn[i] = (E)b.mn[i]; mx[i] = (E)b.mx[i]; } }
    static bool cb(D d, void* c) { disk::Off off; Ctx* x = static_cast<Ctx*>(c); x->out->push_back(to_id(d)); return x->out->size() != x->stop; }
    void insert(long id, const Box& b) override { E mn[N], mx[N]; conv(b, mn, mx); t.Insert(mn, mx, from_id<D>(id)); }
    void remove(long id, const Box& b) override { E mn[N], mx[N]; conv(b, mn, mx); t.Remove(mn, mx, from_id<D>(id)); }
    int search(const Box& b, std::vector<long>& out, size_t stop) override { E mn[N], mx[N]; conv(b, mn, mx); Ctx c{&out, stop}; return t.Search(mn, mx, &cb, &c); }
    bool iterate(std::vector<std::pair<long, Box>>& out, size_t limit) override {
        typename T::Iterator it;
        for (t.GetFirst(it); !t.IsNull(it); out.size() % 2 ? static_cast<void>(++it) : t.GetNext(it)) {
            if (!it.IsNotNull() || to_id(t.GetAt(it)) != to_id(*it)) return false;
            E mn[N], mx[N];
            it.GetBounds(mn, mx);
            disk::Off off;
            Box b; memset(&b, 0, sizeof b);
            for (int i = 0; i < N; ++i) { b.mn[i] = mn[i]; b.mx[i] = mx[i]; }
            out.push_back({to_id(*it), b});
            if (out.size() > limit) return false;
        }
        return true;
    }
    int count() override { return t.Count(); }
    void clear() override { t.RemoveAll(); }
    bool save(const char* f) override { return t.Save(f); }
    bool load(const char* f) override { return t.Load(f); }
    bool save(RTFileStream& s) override { return t.Save(s); }
    bool load(RTFileStream& s) override { return t.Load(s); }
};
struct Track;
// entries are as large as a pointer: removing reinserts subtrees through the entry type
static const int N_TYPES = 5;
Index* make(int type) {
    switch (type) {
    case 0: return new Tree<Track*, double, 2, double, 8>();      // as the tracker uses it
    case 1: return new Tree<long, float, 2, float, 8>();
    case 2: return new Tree<long, double, 3, double, 4>();
    case 3: return new Tree<void*, double, 2, double, 16>();
    default: return new Tree<long, float, 3, double, 6>();
    }
}

// ------------------------------------------------------------------ scenario
enum Kind { INSERT, REMOVE, SEARCH, CLEAR, SAVE, LOAD, CUT, FLIP, SAVE_STREAM, LOAD_STREAM, REOPEN, N_KIND };
static const char* const kind_name[] = {"insert", "remove", "search", "clear", "save", "load", "cut", "flip", "save_stream", "load_stream", "reopen"};
static const char* const fault_name[] = {"none", "open_failure", "write_error", "disk_full", "close_error", "read_error", "short_read", "alloc_failure", "truncated_file", "corrupted_byte"};
enum { F_ALLOC = disk::N_FAULT, F_CUT, F_FLIP, N_FAULTS };

struct Op { int kind = 0, tree = 0, file = 0; long id = 0; Box b; int fault = 0; uint64_t at = 0; int sticky = 0; uint64_t arg = 0; Op() { memset(&b, 0, sizeof b); } };
struct Spec { uint64_t seed = 0; int types[3] = {0, 0, 0}; int ntrees = 1; uint64_t bufsize = 4096; std::vector<Op> ops; };

struct Rng {
    uint64_t s;
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    bool coin(double p) { return unit() < p; }
};

Spec generate(uint64_t seed, bool thorough) {
    Rng r{seed};
    Spec s;
    s.seed = seed;
    s.ntrees = 1 + static_cast<int>(r.below(3));
    int same = static_cast<int>(r.below(N_TYPES));
    for (int i = 0; i < 3; ++i) s.types[i] = r.coin(0.75) ? same : static_cast<int>(r.below(N_TYPES));
    static const uint64_t bs[] = {1, 7, 64, 512, 4096, 65536};
    s.bufsize = bs[r.below(6)];
    double p_fault = r.coin(0.25) ? 0 : 0.1 + 0.6 * r.unit();
    double area = std::exp(std::log(1.0) + r.unit() * std::log(1e4));
    int style = static_cast<int>(r.below(4));
    long next = 1;
    std::vector<std::pair<long, Box>> live[3];
    auto box = [&](bool query) {
        Box b; memset(&b, 0, sizeof b);
        double size = query ? area * std::pow(r.unit(), 3) : style == 0 ? 0 : style == 1 ? area / 50 : area * r.unit() * r.unit();
        for (int i = 0; i < 3; ++i) {
            double c = style == 3 ? area * std::floor(r.unit() * 5) / 5 : area * r.unit();
            b.mn[i] = static_cast<float>(c - size * r.unit());
            b.mx[i] = static_cast<float>(std::max<double>(b.mn[i], c + size * r.unit()));
        }
        return b;
    };
    auto fill = [&](int t, int n) {
        for (int i = 0; i < n; ++i) { Op o; o.kind = INSERT; o.tree = t; o.id = next++; o.b = box(false); s.ops.push_back(o); live[t].push_back({o.id, o.b}); }
    };
    static const int sizes[] = {0, 1, 3, 8, 9, 20, 40, 80, 200};
    for (int t = 0; t < s.ntrees; ++t) fill(t, static_cast<int>(r.below(sizes[r.below(9)] + 1)));
    int n = 3 + static_cast<int>(r.below(thorough ? 40 : 18));
    for (int k = 0; k < n; ++k) {
        Op o;
        o.tree = static_cast<int>(r.below(s.ntrees)); o.file = static_cast<int>(r.below(3));
        double u = r.unit();
        if (u < 0.12) { fill(o.tree, 1 + static_cast<int>(r.below(12))); continue; }
        if (u < 0.22) {
            for (int q = static_cast<int>(r.below(10)); q >= 0 && !live[o.tree].empty(); --q) {
                size_t j = r.below(live[o.tree].size());
                o.kind = REMOVE; o.id = live[o.tree][j].first; o.b = live[o.tree][j].second;
                live[o.tree].erase(live[o.tree].begin() + j);
                s.ops.push_back(o);
            }
            continue;
        }
        if (u < 0.32) { o.kind = SEARCH; o.b = box(true); o.arg = r.coin(0.3) ? 1 + r.below(5) : 0; s.ops.push_back(o); continue; }
        if (u < 0.34) { o.kind = CLEAR; live[o.tree].clear(); s.ops.push_back(o); continue; }
        if (u < 0.55) o.kind = SAVE;
        else if (u < 0.78) { o.kind = LOAD; live[o.tree].clear(); }
        else if (u < 0.83) o.kind = CUT;
        else if (u < 0.86) o.kind = FLIP;
        else if (u < 0.93) o.kind = SAVE_STREAM;
        else if (u < 0.98) { o.kind = LOAD_STREAM; for (auto& l : live) l.clear(); }
        else o.kind = REOPEN;
        uint64_t where = r.coin(0.3) ? r.below(64) : r.coin(0.6) ? r.below(4000) : r.below(40000);
        if (o.kind == FLIP && r.coin(0.5)) { o.sticky = 1; o.arg = r.next() >> 8; o.at = r.coin(0.8) ? r.below(12) : 120 + r.below(136); }
        else if (o.kind == CUT || o.kind == FLIP) o.arg = r.coin(0.5) ? (r.coin(0.5) ? r.below(8) : r.next()) : where, o.at = r.next() & 255, o.sticky = o.kind == CUT ? static_cast<int>(r.below(2)) : 0;
        else if (r.coin(p_fault)) {
            bool w = o.kind == SAVE || o.kind == SAVE_STREAM;
            static const int fw[] = {disk::OPEN_FAIL, disk::WRITE_ERR, disk::WRITE_ERR, disk::FULL, disk::FULL, disk::CLOSE_ERR, disk::CLOSE_ERR};
            static const int fr[] = {disk::OPEN_FAIL, disk::READ_ERR, disk::READ_ERR, disk::SHORT_READ, disk::SHORT_READ, F_ALLOC, F_ALLOC};
            o.fault = w ? fw[r.below(7)] : fr[r.below(7)];
            o.at = o.fault == F_ALLOC ? 1 + r.below(r.coin(0.4) ? 3 : 40) : o.fault == disk::CLOSE_ERR ? r.below(r.coin(0.5) ? 1 : 200) : where;
            o.sticky = r.coin(0.7);
        }
        s.ops.push_back(o);
        // a save is mostly followed by a load of the same file
        if ((o.kind == SAVE || o.kind == SAVE_STREAM) && r.coin(0.7)) {
            if (r.coin(0.25)) { Op c; c.kind = CUT; c.file = o.file; c.arg = r.coin(0.6) ? r.next() : r.below(8); c.sticky = static_cast<int>(r.below(2)); s.ops.push_back(c); }
            else if (r.coin(0.06)) { Op c; c.kind = FLIP; c.file = o.file; c.sticky = 1; c.arg = r.next() >> 8; c.at = r.coin(0.8) ? r.below(12) : 120 + r.below(136); s.ops.push_back(c); }
            Op l; l.kind = o.kind == SAVE ? LOAD : LOAD_STREAM; l.file = o.file; l.tree = r.coin(0.5) ? o.tree : static_cast<int>(r.below(s.ntrees));
            if (r.coin(p_fault * 0.5)) { static const int fr[] = {disk::OPEN_FAIL, disk::READ_ERR, disk::SHORT_READ, F_ALLOC}; l.fault = fr[r.below(4)]; l.at = l.fault == F_ALLOC ? 1 + r.below(40) : where; l.sticky = r.coin(0.7); }
            if (l.kind == LOAD) live[l.tree].clear(); else for (auto& q : live) q.clear();
            s.ops.push_back(l);
            Op q; q.kind = SEARCH; q.tree = l.tree; q.b = box(true); s.ops.push_back(q);
        }
    }
    return s;
}

std::string to_text(const Spec& s) {
    std::ostringstream o;
    o << "store 1\nseed " << s.seed << "\ntypes " << s.ntrees << ' ' << s.types[0] << ' ' << s.types[1] << ' ' << s.types[2] << "\nbuffer " << s.bufsize << "\n";
    char b[64];
    for (auto& p : s.ops) {
        o << "op " << p.kind << ' ' << p.tree << ' ' << p.file << ' ' << p.id << ' ' << p.fault << ' ' << p.at << ' ' << p.sticky << ' ' << p.arg;
        for (int i = 0; i < 6; ++i) { snprintf(b, sizeof b, " %a", i < 3 ? p.b.mn[i] : p.b.mx[i - 3]); o << b; }
        o << "   # " << kind_name[p.kind] << (p.fault ? " with " : "") << (p.fault ? fault_name[p.fault] : "") << "\n";
    }
    return o.str();
}
bool from_text(std::istream& in, Spec& s) {
    std::string l;
    bool ok = false;
    while (std::getline(in, l)) {
        std::istringstream i(l.substr(0, l.find('#')));
        std::string k; i >> k;
        if (k == "store") ok = true;
        else if (k == "seed") i >> s.seed;
        else if (k == "types") i >> s.ntrees >> s.types[0] >> s.types[1] >> s.types[2];
        else if (k == "buffer") i >> s.bufsize;
        else if (k == "op") {
            Op p; i >> p.kind >> p.tree >> p.file >> p.id >> p.fault >> p.at >> p.sticky >> p.arg;
            for (int q = 0; q < 6; ++q) { std::string v; i >> v; (q < 3 ? p.b.mn[q] : p.b.mx[q - 3]) = strtod(v.c_str(), nullptr); }
            if (p.kind < 0 || p.kind >= N_KIND || p.tree < 0 || p.tree > 2 || p.file < 0 || p.file > 2) return false;
            s.ops.push_back(p);
        }
    }
    return ok;
}

// ------------------------------------------------------------------ run
enum Counter { K_OPS, K_SAVES, K_LOADS, K_OKLOAD, K_FAILSAVE, K_FAILLOAD, K_CMP, K_SEARCH, K_MAXENT, K_IOOPS, K_IOBYTES, K_CORRUPT_LOADS, K_NONTRIV, N_CNT };
static const char* const cnt_name[] = {"operations", "saves", "loads", "loads_restoring_everything", "saves_reporting_failure", "loads_reporting_failure", "entries_compared", "searches_compared", "max_entries", "simulated_io_calls", "simulated_io_bytes", "loads_of_corrupted_files", "nontrivial"};
struct Result { volatile int status; char kind[40]; char msg[500]; uint64_t hash; uint64_t cnt[N_CNT]; uint64_t fired[N_FAULTS]; };
static Result* R;
static int cur = -1;

[[noreturn]] void fail(const char* kind, const char* fmt, ...) {
    va_list a; va_start(a, fmt);
    snprintf(R->kind, sizeof R->kind, "%s", kind);
    vsnprintf(R->msg, sizeof R->msg, fmt, a);
    va_end(a);
    R->status = 2;
    _exit(1);
}
void mixh(uint64_t v) { R->hash = (R->hash ^ v) * 1099511628211ull; R->hash ^= R->hash >> 29; }

static const char* path(int f) { static const char* n[] = {"/simulated-disk/a.idx", "/simulated-disk/b.idx", "/simulated-disk/c.idx"}; return n[f]; }

Box trim(const Box& b, int dims, bool single) {
    Box r; memset(&r, 0, sizeof r);
    for (int i = 0; i < dims; ++i) { r.mn[i] = single ? static_cast<float>(b.mn[i]) : b.mn[i]; r.mx[i] = single ? static_cast<float>(b.mx[i]) : b.mx[i]; }
    return r;
}

void observe(Index& t, std::vector<std::pair<long, Box>>& got, const char* when) {
    if (!t.iterate(got, 1u << 20)) fail("index", "%s: walking the index does not end", when);
    int c = t.count();
    if (c != static_cast<int>(got.size())) fail("index", "%s: the index counts %d entries but walks %zu", when, c, got.size());
    for (auto& g : got) { mixh(g.first); for (int i = 0; i < 3; ++i) { uint64_t u; memcpy(&u, &g.second.mn[i], 8); mixh(u); } }
}
void compare(Index& t, const Content& m, const char* when) {
    std::vector<std::pair<long, Box>> got;
    { disk::Off off; observe(t, got, when); }
    std::set<long> seen;
    for (auto& g : got) {
        auto it = m.find(g.first);
        if (it == m.end() || !seen.insert(g.first).second) fail("content", "%s: the index holds entry %ld %s", when, g.first, it == m.end() ? "which it should not" : "twice");
        if (!(it->second == g.second)) fail("content", "%s: entry %ld has other bounds than it was given", when, g.first);
        ++R->cnt[K_CMP];
    }
    for (auto& kv : m) if (!seen.count(kv.first)) fail("content", "%s: entry %ld is missing (%zu of %zu entries)", when, kv.first, seen.size(), m.size());
    R->cnt[K_MAXENT] = std::max<uint64_t>(R->cnt[K_MAXENT], m.size());
}
void search(Index& t, const Content& m, const Box& q, size_t stop, const char* when) {
    std::vector<long> got;
    Box b = trim(q, t.dims(), t.single());
    heap::on = true;
    int n = t.search(b, got, stop ? stop : ~size_t(0));
    heap::on = false;
    std::set<long> want;
    for (auto& kv : m) {
        bool hit = true;
        for (int i = 0; i < t.dims(); ++i) if (kv.second.mn[i] > b.mx[i] || b.mn[i] > kv.second.mx[i]) hit = false;
        if (hit) want.insert(kv.first);
    }
    ++R->cnt[K_SEARCH];
    std::set<long> u(got.begin(), got.end());
    if (u.size() != got.size()) fail("search", "%s: a search returned an entry twice", when);
    if (n != static_cast<int>(got.size())) fail("search", "%s: a search reported %d entries and returned %zu", when, n, got.size());
    for (long i : u) if (!want.count(i)) fail("search", "%s: a search returned entry %ld outside the area", when, i);
    if (stop && want.size() >= stop) { if (got.size() != stop) fail("search", "%s: a search stopped at %zu entries went on to %zu", when, stop, got.size()); }
    else if (u != want) fail("search", "%s: a search returned %zu of %zu entries in the area", when, u.size(), want.size());
    for (long i : got) mixh(static_cast<uint64_t>(i));
}

// what a file holds: the trees saved into it in order
struct Stored { bool known = false; bool intact = false; bool corrupt = false; std::vector<int> types; std::vector<Content> trees; };

void run_spec(const Spec& s) {
    disk::files = new std::map<std::string, disk::File>;
    disk::open = new std::set<disk::Stream*>;
    disk::bufsize = s.bufsize ? s.bufsize : 1;
    std::vector<Index*> t;
    Content m[3];
    Stored st[3];
    t.resize(s.ntrees);
    heap::on = true;
    for (int i = 0; i < s.ntrees; ++i) t[i] = make(s.types[i]);
    heap::on = false;
    auto arm = [&](const Op& o) {
        disk::fault = o.fault < disk::N_FAULT ? o.fault : 0; disk::at = o.at; disk::fired = 0; disk::sticky = o.sticky; disk::moved = 0;
        heap::fail_at = o.fault == F_ALLOC ? static_cast<long>(o.at) : 0; heap::n = 0; heap::fired = 0;
    };
    auto disarm = [&](const Op& o) {
        bool f = disk::fired || heap::fired;
        if (f) ++R->fired[o.fault];
        disk::fault = 0; heap::fail_at = 0;
        return f;
    };
    auto closed = [&](const char* when) { if (!disk::open->empty()) fail("file", "%s: a file was left open", when); };
    char when[120];
    for (size_t k = 0; k < s.ops.size(); ++k) {
        const Op& o = s.ops[k];
        if (o.tree >= s.ntrees) continue;
        cur = static_cast<int>(k);
        snprintf(when, sizeof when, "operation %zu (%s%s%s)", k, kind_name[o.kind], o.fault ? ", " : "", o.fault ? fault_name[o.fault] : "");
        Index& x = *t[o.tree];
        Content& c = m[o.tree];
        Stored& f = st[o.file];
        ++R->cnt[K_OPS];
        Box b = trim(o.b, x.dims(), x.single());
        std::string full;
        switch (o.kind) {
        case INSERT: if (!c.count(o.id)) { heap::on = true; x.insert(o.id, b); heap::on = false; c[o.id] = b; } break;
        case REMOVE: if (c.count(o.id)) { Box q = c[o.id]; heap::on = true; x.remove(o.id, q); heap::on = false; c.erase(o.id); } break;
        case SEARCH: search(x, c, o.b, o.arg, when); break;
        case CLEAR: heap::on = true; x.clear(); heap::on = false; c.clear(); break;
        case REOPEN: heap::on = true; delete t[o.tree]; t[o.tree] = make(s.types[o.tree]); heap::on = false; c.clear(); break;
        case SAVE: case SAVE_STREAM: {
            ++R->cnt[K_SAVES];
            bool stream = o.kind == SAVE_STREAM, ok = true, opened = true;
            std::string before = (*disk::files)[path(o.file)].data;
            arm(o);
            heap::on = true;
            if (!stream) ok = x.save(path(o.file));
            else {
                RTFileStream fs;
                opened = ok = fs.OpenWrite(path(o.file));
                for (int i = 0; ok && i < s.ntrees; ++i) ok = t[i]->save(fs);
                fs.Close();
            }
            heap::on = false;
            bool fired = disarm(o);
            closed(when);
            mixh(ok);
            if (!ok) ++R->cnt[K_FAILSAVE];
            if (!fired && !ok) fail("save", "%s: saving reported failure although nothing failed", when);
            // a stream is closed by the caller, who sees no result: only errors before that must be reported
            if (fired && ok && (!stream || o.fault == disk::OPEN_FAIL)) fail("save", "%s: saving reported success although the disk refused part of the data", when);
            if (!opened || (fired && o.fault == disk::OPEN_FAIL)) break;         // the file is as it was
            f = Stored();
            f.known = true; f.intact = !fired;
            for (int i = stream ? 0 : o.tree; i <= (stream ? s.ntrees - 1 : o.tree); ++i) { f.types.push_back(s.types[i]); f.trees.push_back(m[i]); }
            for (int i = 0; i < s.ntrees; ++i) compare(*t[i], m[i], when);      // saving changes nothing
            break;
        }
        case LOAD: case LOAD_STREAM: {
            ++R->cnt[K_LOADS];
            bool stream = o.kind == LOAD_STREAM;
            std::vector<int> into;
            if (stream) for (int i = 0; i < s.ntrees; ++i) into.push_back(i); else into.push_back(o.tree);
            if (stream) { heap::on = true; for (int i : into) t[i]->clear(); heap::on = false; for (int i : into) m[i].clear(); }
            std::vector<char> res(into.size(), 0), tried(into.size(), 0);
            bool oom = false, opened = true;
            arm(o);
            heap::on = true;
            try {
                if (!stream) { tried[0] = 1; res[0] = x.load(path(o.file)); }
                else {
                    RTFileStream fs;
                    opened = fs.OpenRead(path(o.file));
                    for (size_t i = 0; opened && i < into.size(); ++i) { tried[i] = 1; res[i] = t[into[i]]->load(fs); if (!res[i]) break; }
                    fs.Close();
                }
            } catch (const std::bad_alloc&) { oom = true; }
            heap::on = false;
            bool fired = disarm(o);
            closed(when);
            if (oom && !fired) fail("load", "%s: loading ran out of memory although memory was there", when);
            if (f.corrupt) ++R->cnt[K_CORRUPT_LOADS];
            for (size_t i = 0; i < into.size(); ++i) {
                Index& y = *t[into[i]];
                Content& d = m[into[i]];
                mixh(static_cast<uint64_t>(res[i]));
                if (tried[i] && !res[i]) ++R->cnt[K_FAILLOAD];
                bool match = f.known && i < f.types.size() && f.types[i] == s.types[into[i]];
                if (res[i]) {
                    if (!f.corrupt) {
                        if (!f.known) fail("load", "%s: loading a file that was never written reported success", when);
                        if (!match) fail("load", "%s: loading the index of another kind reported success", when);
                        compare(y, f.trees[i], when);
                        d = f.trees[i];
                        ++R->cnt[K_OKLOAD];
                        continue;
                    }
                } else if (tried[i] && !fired && !oom && f.known && f.intact && !f.corrupt && match) {
                    fail("load", "%s: loading an intact file reported failure", when);
                }
                // failed, not tried, or corrupted: whatever is there must be consistent and usable
                std::vector<std::pair<long, Box>> got;
                observe(y, got, when);
                Content now;
                for (auto& g : got) {
                    if (!f.corrupt) {
                        bool ours = false;
                        for (size_t q = 0; f.known && q < f.trees.size(); ++q) { auto it = f.trees[q].find(g.first); ours = ours || (it != f.trees[q].end() && it->second == g.second); }
                        auto it = d.find(g.first);
                        ours = ours || (it != d.end() && it->second == g.second);
                        if (!ours || now.count(g.first)) fail("load", "%s: after a failed load the index holds an entry that was never saved", when);
                    }
                    now[g.first] = g.second;
                }
                d = now;
                if (f.corrupt || got.size() != now.size()) { heap::on = true; y.clear(); heap::on = false; d.clear(); }
                compare(y, d, when);
            }
            break;
        }
        case CUT: {
            auto it = disk::files->find(path(o.file));
            if (it == disk::files->end() || it->second.data.empty()) break;
            std::string& data = it->second.data;
            // from the end or from the start
            size_t n = 1 + o.arg % data.size();
            data.resize(o.sticky ? data.size() - n : n - 1);
            f.intact = false;
            ++R->fired[F_CUT];
            break;
        }
        case FLIP: {
            auto it = disk::files->find(path(o.file));
            if (it == disk::files->end() || it->second.data.empty()) break;
            std::string& data = it->second.data;
            size_t p = o.arg % data.size();
            if (o.sticky) {
                // the level or the number of entries of a node
                std::vector<size_t> at;
                for (size_t i = 28; i + 8 <= data.size(); ++i) { int32_t v[2]; memcpy(v, data.data() + i, 8); if (v[0] >= 0 && v[0] < 6 && v[1] >= 0 && v[1] <= 8 && (v[1] || data.size() < 100)) at.push_back(i); }
                if (!at.empty()) p = at[(o.arg >> 2) % at.size()] + (o.arg & 1 ? 4 : 0) + (o.arg % 16 == 2 ? 3 : 0);
            }
            char v = static_cast<char>(o.at);
            if (data[p] == v) break;
            data[p] = v;
            f.intact = false; f.corrupt = true; f.known = true;
            ++R->fired[F_FLIP];
            break;
        }
        }
        if (o.kind <= CLEAR && (k % 8 == 0 || k + 1 == s.ops.size() || s.ops[k + 1].kind > CLEAR)) compare(x, c, when);
    }
    heap::on = true;
    for (auto* p : t) delete p;
    heap::on = false;
    if (heap::live) fail("leak", "%ld blocks of the index are never freed", heap::live);
    R->cnt[K_IOOPS] = disk::ops; R->cnt[K_IOBYTES] = disk::bytes;
    uint64_t any = 0;
    for (int i = 1; i < N_FAULTS; ++i) any += R->fired[i];
    R->cnt[K_NONTRIV] = (any || R->cnt[K_OKLOAD]) ? 1 : 0;
    R->status = 1;
}

static double now() { timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
template<typename T> T* shared(size_t n = 1) { void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset(p, 0, sizeof(T) * n); return static_cast<T*>(p); }

// one run in a child of its own
void isolated(const Spec& s, Result* r) {
    memset(r, 0, sizeof *r);
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        rlimit z{0, 0}; setrlimit(RLIMIT_CORE, &z);
        int null = ::dup(2); (void)null;
        FILE* e = __real_fopen("/dev/null", "w");
        if (e && !getenv("STORE_STDERR")) dup2(fileno(e), 2);
        alarm(60);
        R = r;
        run_spec(s);
        _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (r->status == 0) {
        r->status = 2; r->hash = 0;
        snprintf(r->kind, sizeof r->kind, "memory");
        if (WIFSIGNALED(st)) snprintf(r->msg, sizeof r->msg, "%s", WTERMSIG(st) == SIGALRM ? "an operation does not end" : "the process crashed");
        else snprintf(r->msg, sizeof r->msg, "memory that the index does not own was accessed (exit %d)", WEXITSTATUS(st));
    }
}
uint64_t run_seed(uint64_t seed, uint64_t i) { Rng r{seed * 0x9E3779B97F4A7C15ull + i * 0xD1B54A32D192ED03ull + 17}; return r.next(); }

void minimise(Spec& s, Result* r, double budget) {
    double end = now() + budget;
    std::string kind = r->kind;
    auto same = [&](const Spec& c) { isolated(c, r); return r->status == 2 && kind == r->kind; };
    for (size_t chunk = std::max<size_t>(1, s.ops.size() / 2); ; chunk = chunk / 2) {
        for (size_t i = 0; i + 1 <= s.ops.size() && now() < end;) {
            Spec c = s;
            c.ops.erase(c.ops.begin() + i, c.ops.begin() + std::min(c.ops.size(), i + chunk));
            if (same(c)) s = c; else i += chunk;
        }
        if (chunk <= 1) break;
    }
    for (size_t i = 0; i < s.ops.size() && now() < end; ++i) {
        if (s.ops[i].fault) { Spec c = s; c.ops[i].fault = 0; if (same(c)) s = c; }
        if (s.ops[i].sticky) { Spec c = s; c.ops[i].sticky = 0; if (same(c)) s = c; }
    }
    Spec c = s; c.bufsize = 4096; if (same(c)) s = c;
    isolated(s, r);
}

const char* opt(int argc, char** argv, const char* name, const char* d) { for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], name)) return argv[i + 1]; return d; }
std::string esc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if (c == '\n') { o += "\\n"; continue; } o += c; } return o; }

struct Rec { uint64_t index, hash; int status; uint64_t cnt[N_CNT], fired[N_FAULTS]; int nops; int rechecked; };

int explore(int argc, char** argv) {
    uint64_t seed = strtoull(opt(argc, argv, "--seed", "1"), nullptr, 10), runs = strtoull(opt(argc, argv, "--runs", "1000000000"), nullptr, 10), first = strtoull(opt(argc, argv, "--first", "0"), nullptr, 10);
    double wall = atof(opt(argc, argv, "--wall", "20")), minb = atof(opt(argc, argv, "--minimise", "40"));
    int W = std::max(1, atoi(opt(argc, argv, "--workers", "8")));
    bool thorough = !strcmp(opt(argc, argv, "--tier", "quick"), "thorough");
    std::string out = opt(argc, argv, "--out", "/tmp/store");
    const int BATCH = 32;
    double t0 = now();
    volatile uint64_t* stop = shared<uint64_t>();
    std::vector<pid_t> pids;
    for (int w = 0; w < W; ++w) {
        pid_t p = fork();
        if (p == 0) {
            Result* rs = shared<Result>(BATCH);
            Result* one = shared<Result>();
            FILE* f = __real_fopen((out + "." + std::to_string(w)).c_str(), "wb");
            if (!f) _exit(2);
            for (uint64_t i = first + static_cast<uint64_t>(w) * BATCH; i < first + runs; i += static_cast<uint64_t>(W) * BATCH) {
                if (now() - t0 > wall || (*stop && *stop <= i)) break;
                uint64_t n = std::min<uint64_t>(BATCH, first + runs - i);
                memset(rs, 0, sizeof(Result) * BATCH);
                fflush(f);
                // a child executes the batch; whatever it does not finish is repeated one by one
                pid_t c = fork();
                if (c == 0) {
                    rlimit z{0, 0}; setrlimit(RLIMIT_CORE, &z);
                    FILE* e = __real_fopen("/dev/null", "w");
                    if (e && !getenv("STORE_STDERR")) dup2(fileno(e), 2);
                    alarm(120);
                    for (uint64_t k = 0; k < n; ++k) { R = &rs[k]; heap::live = 0; run_spec(generate(run_seed(seed, i + k), thorough)); }
                    _exit(0);
                }
                int st; while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
                for (uint64_t k = 0; k < n; ++k) {
                    Rec rec; memset(&rec, 0, sizeof rec);
                    Spec s = generate(run_seed(seed, i + k), thorough);
                    if (rs[k].status != 1) isolated(s, &rs[k]);
                    if (rs[k].status != 1 || (i + k) % 64 == 0) {
                        isolated(s, one); rec.rechecked = 1;
                        if (one->status != rs[k].status || one->hash != rs[k].hash || strcmp(one->kind, rs[k].kind)) rs[k].status = 3;
                    }
                    rec.index = i + k; rec.hash = rs[k].hash; rec.status = rs[k].status; rec.nops = static_cast<int>(s.ops.size());
                    memcpy(rec.cnt, rs[k].cnt, sizeof rec.cnt); memcpy(rec.fired, rs[k].fired, sizeof rec.fired);
                    fwrite(&rec, sizeof rec, 1, f);
                    if (rec.status == 2 && (!*stop || *stop > i + k + 1)) *stop = i + k + 1;
                }
            }
            fclose(f);
            _exit(0);
        }
        pids.push_back(p);
    }
    int bad = 0;
    for (pid_t p : pids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st)) ++bad; }
    if (bad) { fprintf(stderr, "worker failed\n"); return 3; }
    double wl = now() - t0;
    uint64_t n = 0, cnt[N_CNT] = {0}, fired[N_FAULTS] = {0}, rech = 0, vi = ~0ull, in = ~0ull;
    std::unordered_set<uint64_t> states, nontriv;
    for (int w = 0; w < W; ++w) {
        std::string fn = out + "." + std::to_string(w);
        FILE* f = __real_fopen(fn.c_str(), "rb");
        Rec r;
        while (f && fread(&r, sizeof r, 1, f) == 1) {
            ++n; rech += r.rechecked;
            for (int c = 0; c < N_CNT; ++c) cnt[c] = c == K_MAXENT ? std::max(cnt[c], r.cnt[c]) : cnt[c] + r.cnt[c];
            for (int c = 0; c < N_FAULTS; ++c) fired[c] += r.fired[c];
            if (r.status == 1) { states.insert(r.hash); if (r.cnt[K_NONTRIV]) nontriv.insert(r.hash); }
            if (r.status == 2) vi = std::min(vi, r.index);
            if (r.status == 3) in = std::min(in, r.index);
        }
        if (f) fclose(f);
        unlink(fn.c_str());
    }
    std::string vmsg;
    if (vi != ~0ull) {
        Spec s = generate(run_seed(seed, vi), thorough);
        Result* r = shared<Result>();
        isolated(s, r);
        if (r->status == 2) minimise(s, r, minb);
        std::ofstream o(out + ".replay");
        o << "# run " << vi << " of seed " << seed << "\n# " << r->kind << ": " << r->msg << "\n" << to_text(s);
        vmsg = std::string(r->kind) + ": " + r->msg;
    }
    std::ofstream o(out + ".json");
    o << "{\"runs\":" << n << ",\"wall\":" << wl << ",\"rechecked\":" << rech << ",\"distinct\":" << states.size() << ",\"distinct_nontrivial\":" << nontriv.size() << ",\"nondeterministic\":" << (in == ~0ull ? 0 : 1);
    o << ",\"violation\":\"" << esc(vmsg) << "\",\"counters\":{";
    for (int c = 0; c < N_CNT; ++c) o << (c ? "," : "") << '"' << cnt_name[c] << "\":" << cnt[c];
    o << "},\"faults\":{";
    for (int c = 1; c < N_FAULTS; ++c) o << (c > 1 ? "," : "") << '"' << fault_name[c] << "\":" << fired[c];
    o << "},\"samples\":[";
    for (int k = 0; k < 2; ++k) { Spec s = generate(run_seed(seed, first + k * 3), thorough); std::ostringstream q; q << "run " << first + k * 3 << ":"; for (auto& p : s.ops) if (p.kind != INSERT && p.kind != REMOVE) q << ' ' << kind_name[p.kind] << "(tree " << p.tree << ", file " << p.file << (p.fault ? ", " : "") << (p.fault ? fault_name[p.fault] : "") << ')'; o << (k ? "," : "") << '"' << esc(q.str()) << '"'; }
    o << "]}\n";
    o.close();
    return vi != ~0ull ? 1 : 0;
}

int main(int argc, char** argv) {
    std::string m = argc > 1 ? argv[1] : "";
    if (m == "explore") return explore(argc, argv);
    if (m == "show") { printf("%s", to_text(generate(run_seed(strtoull(opt(argc, argv, "--seed", "1"), nullptr, 10), strtoull(opt(argc, argv, "--index", "0"), nullptr, 10)), false)).c_str()); return 0; }
    if (m == "replay" && argc > 2) {
        Spec s;
        std::ifstream f(argv[2]);
        if (!from_text(f, s)) { fprintf(stderr, "not a replay file\n"); return 2; }
        Result* r = shared<Result>();
        isolated(s, r);
        if (r->status == 2) { printf("%s: %s\n", r->kind, r->msg); return 1; }
        printf("no violation\n");
        return 0;
    }
    fprintf(stderr, "usage: store explore|replay|show ...\n");
    return 2;
}
