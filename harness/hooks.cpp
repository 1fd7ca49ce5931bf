// Resource hooks, step counter, diagnostics recorder and streams.
#include "vp.h"
#include <errno.h>
#include <sanitizer/allocator_interface.h>
#include <sanitizer/asan_interface.h>
#include <unistd.h>

u64 hash_bytes(const void *p, size_t n, u64 h) {
    const u8 *b = (const u8 *)p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ull; }
    return h;
}

// ---------------------------------------------------------------- allocation hooks
AllocState A;
void alloc_reset() { A.calls = A.failed = A.bad_frees = 0; A.peak_bytes = A.live_bytes; A.max_request = 0; A.fopens = A.fcloses = 0; A.fail_at = 0; A.fail_from = false; A.fopen_fail_at = 0; }
void alloc_fail(u64 at, bool from) { A.calls = 0; A.failed = 0; A.fail_at = at; A.fail_from = from; }
void alloc_nofail() { A.fail_at = 0; A.fail_from = false; }

#ifdef VP_TSAN
extern "C" void *vp_malloc(size_t n) { return malloc(n); }
extern "C" void vp_free(void *p) { free(p); }
#else
static std::unordered_map<void *, size_t> room;   // blocks larger than they seem
static bool refuse(size_t n) {
    A.calls++;
    if (n > A.max_request) A.max_request = n;
    if (A.fail_at && (A.calls == A.fail_at || (A.fail_from && A.calls >= A.fail_at))) { A.failed++; return true; }
    return n > A.deny_above || A.live_bytes + n > ((size_t)2 << 30);   // runaway growth
}
static void born(void *p, size_t n) {
    A.live[p] = n; A.live_bytes += n;
    if (A.live_bytes > A.peak_bytes) A.peak_bytes = A.live_bytes;
}
static size_t dead(void *p) {
    auto it = A.live.find(p);
    if (it == A.live.end()) { if (!__sanitizer_get_ownership(p)) A.bad_frees++; return (size_t)-1; }   // a live block from elsewhere (asprintf, getline ...) is released as well
    size_t n = it->second; A.live_bytes -= n; A.live.erase(it); if (n > 65536) room.erase(p); return n;
}
extern "C" void *vp_malloc(size_t n) {
    if (refuse(n)) { errno = ENOMEM; return nullptr; }
    void *p = malloc(n);
    if (p) { if (A.fill >= 0) memset(p, A.fill, n < 65536 ? n : 65536); born(p, n); }
    return p;
}
extern "C" void *vp_calloc(size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n) || refuse(n)) { errno = ENOMEM; return nullptr; }
    void *p = calloc(a, b);
    if (p) born(p, n);
    return p;
}
extern "C" void vp_free(void *p) { if (p) dead(p); free(p); }
extern "C" void *vp_realloc(void *q, size_t n) {
    if (!q) return vp_malloc(n);
    if (n == 0) { vp_free(q); return nullptr; }
    if (refuse(n)) { errno = ENOMEM; return nullptr; }
    // always move, so that stale pointers into the old block are noticed
    auto it = A.live.find(q);
    size_t old = it == A.live.end() ? 0 : it->second;
    if (it == A.live.end()) { if (!__sanitizer_get_ownership(q)) A.bad_frees++; return realloc(q, n); }
    void *p;
    if (n > (1u << 16)) {   // with room to grow (inaccessible until asked for), so that long arrays can grow step by step
        auto c = room.find(q);
        if (c != room.end() && n <= c->second) {
            ASAN_UNPOISON_MEMORY_REGION(q, n); ASAN_POISON_MEMORY_REGION((char *)q + n, c->second - n);
            A.live_bytes += n - old; it->second = n; if (A.live_bytes > A.peak_bytes) A.peak_bytes = A.live_bytes;
            return q;
        }
        size_t cap = n < (8u << 20) ? n + n / 2 : n; p = malloc(cap); if (!p) { errno = ENOMEM; return nullptr; }
        memcpy(p, q, old < n ? old : n); dead(q); free(q);
        ASAN_POISON_MEMORY_REGION((char *)p + n, cap - n); room[p] = cap;
    } else { p = malloc(n); if (!p) return nullptr; if (A.fill >= 0) memset(p, A.fill, n); memcpy(p, q, old < n ? old : n); dead(q); free(q); }
    born(p, n);
    return p;
}
extern "C" void *vp_reallocarray(void *q, size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    return vp_realloc(q, n);
}
extern "C" char *vp_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)vp_malloc(n); if (p) memcpy(p, s, n); return p; }
extern "C" char *vp_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *)vp_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
#endif

std::map<std::string, VFile *> vfiles;
static std::unordered_set<FILE *> open_files;
extern "C" FILE *vp_fopen(const char *name, const char *mode) {
    A.fopens++;
    if (A.fopen_fail_at && A.fopens == A.fopen_fail_at) { errno = EMFILE; A.fopens--; A.fopen_fail_at = 0; return nullptr; }
    auto it = vfiles.find(name);
    FILE *f;
    if (it != vfiles.end()) {
        VFile *v = it->second;
        if (v->deny) { A.fopens--; errno = EACCES; return nullptr; }
        f = mode[0] == 'r' ? (v->r ? v->r->open() : nullptr) : (v->w ? v->w->open() : nullptr);
        if (f) { setvbuf(f, nullptr, v->bufmode, v->bufmode == _IONBF ? 0 : v->bufsize); v->f = f; }
    } else
        f = fopen(name, mode);
    if (!f) A.fopens--;
    else open_files.insert(f);
    return f;
}
extern "C" int vp_fclose(FILE *f) { A.fcloses++; open_files.erase(f); return fclose(f); }

// ---------------------------------------------------------------- step counter and edges
u64 vp_steps = 0;
u64 vp_step_limit = (u64)-1;
static u8 *edge_hit; static u32 edge_n;
std::string vp_edges_map() { std::string s; for (u32 i = 1; i <= edge_n; i++) s += edge_hit[i] ? '1' : '0'; return s; }
size_t vp_edges_total() { return edge_n; }
size_t vp_edges_hit() { size_t n = 0; for (u32 i = 1; i <= edge_n; i++) n += edge_hit[i]; return n; }
extern void vp_step_overflow();
extern "C" void __sanitizer_cov_trace_pc_guard_init(u32 *start, u32 *stop) {
    if (start == stop || *start) return;
    u32 n = edge_n;
    for (u32 *x = start; x < stop; x++) *x = ++n;
    u8 *m = (u8 *)calloc(n + 1, 1);
    if (edge_hit) { memcpy(m, edge_hit, edge_n + 1); free(edge_hit); }
    edge_hit = m; edge_n = n;
}
extern "C" void __sanitizer_cov_trace_pc_guard(u32 *g) {
    edge_hit[*g] = 1;
    if (++vp_steps > vp_step_limit) vp_step_overflow();
}

// ---------------------------------------------------------------- diagnostics
thread_local Diag D;
static void recorder(const char *fmt, va_list ap) {
    char buf[6000];
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    D.messages++;
    if (n > 0 && D.text.size() < 200000) D.text.append(buf, (size_t)n < sizeof buf ? (size_t)n : sizeof buf - 1);
}
void diag_install() { IFF_errorCallback = &recorder; }

// ---------------------------------------------------------------- streams
static ssize_t rs_read(void *c, char *buf, size_t n) {
    RStream *s = (RStream *)c;
    s->calls++;
    size_t end = std::min(s->end, s->data->size());
    if (s->pos >= s->err_at) { errno = EIO; return -1; }
    size_t lim = std::min(end, s->err_at);
    size_t k = s->pos < lim ? lim - s->pos : 0;
    if (k > n) k = n;
    if (s->max_read == 0) { if (k > 1) k = 1 + s->rng.below((u32)(k < 64 ? k : 64)); }
    else if (k > s->max_read) k = s->max_read;
    if (k) memcpy(buf, s->data->data() + s->pos, k);
    s->pos += k; s->bytes += k;
    return (ssize_t)k;
}
static int rs_seek(void *c, off64_t *off, int whence) {
    RStream *s = (RStream *)c;
    if (!s->seekable) { errno = ESPIPE; return -1; }
    off64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (off64_t)s->pos : (off64_t)std::min(s->end, s->data->size());
    off64_t p = base + *off;
    if (p < 0) { errno = EINVAL; return -1; }
    s->pos = (size_t)p; *off = p; return 0;
}
static int rs_close(void *c) { ((RStream *)c)->closed = true; return 0; }
FILE *RStream::open() {
    cookie_io_functions_t io = {rs_read, nullptr, rs_seek, rs_close};
    pos = 0; calls = bytes = 0; closed = false;
    return fopencookie(this, "rb", io);
}
static void ws_put(WStream *s, const char *buf, size_t n) {
    size_t over = std::min(n, s->out.size() - s->pos);
    if (over) s->out.replace(s->pos, over, buf, over);
    s->out.append(buf + over, n - over); s->pos += n;
}
static ssize_t ws_write(void *c, const char *buf, size_t n) {
    WStream *s = (WStream *)c;
    if (s->pos + n > s->err_at) {
        size_t k = s->err_at > s->pos ? s->err_at - s->pos : 0;
        ws_put(s, buf, k);
        s->errors++;
        if (s->transient) s->err_at = (size_t)-1;
        errno = ENOSPC;
        return (ssize_t)k;
    }
    if (s->out.size() > ((size_t)1 << 30)) { s->errors++; errno = ENOSPC; return 0; }   // runaway output
    ws_put(s, buf, n);
    return (ssize_t)n;
}
static int ws_seek(void *c, off64_t *off, int whence) {
    WStream *s = (WStream *)c;
    if (!s->seekable) { errno = ESPIPE; return -1; }
    off64_t p = (whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (off64_t)s->pos : (off64_t)s->out.size()) + *off;
    if (p < 0 || (size_t)p > s->out.size()) { errno = EINVAL; return -1; }
    s->pos = (size_t)p; *off = p; return 0;
}
static int ws_close(void *c) {
    WStream *s = (WStream *)c;
    s->closed = true;
    if (s->err_close) { s->errors++; errno = EIO; return -1; }
    return 0;
}
FILE *WStream::open() {
    cookie_io_functions_t io = {nullptr, ws_write, ws_seek, ws_close};
    out.clear(); pos = 0; errors = 0; closed = false;
    return fopencookie(this, "wb", io);
}
void set_buffering(FILE *f, int kind) {
    switch (kind % 6) {
    case 0: setvbuf(f, nullptr, _IONBF, 0); break;
    case 1: setvbuf(f, nullptr, _IOFBF, 1); break;
    case 2: setvbuf(f, nullptr, _IOFBF, 7); break;
    case 3: setvbuf(f, nullptr, _IOFBF, 64); break;
    case 4: setvbuf(f, nullptr, _IOFBF, 4096); break;
    case 5: break;
    }
}
CaptureStdout::CaptureStdout() { fflush(stdout); saved = stdout; mem = w.open(); setvbuf(mem, nullptr, _IOFBF, 65536); stdout = mem; }
Bytes CaptureStdout::finish() {
    if (!mem) return Bytes();
    fclose(mem); mem = nullptr; stdout = saved;
    Bytes b; b.swap(w.out);
    return b;
}
CaptureStdout::~CaptureStdout() { finish(); }
