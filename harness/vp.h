// Shared declarations of the monitoring harness: hooks, reference model, generators, check framework.
#pragma once
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

extern "C" {
#include "ifftypes.h"
#include "id.h"
#include "io.h"
#include "field.h"
#include "error.h"
#include "util.h"
#include "chunk.h"
#include "chunkregistry.h"
#include "group.h"
#include "form.h"
#include "cat.h"
#include "list.h"
#include "prop.h"
#include "rawchunk.h"
#include "iff.h"
#include "defaultregistry.h"
}

typedef uint32_t u32;
typedef uint64_t u64;
typedef uint8_t u8;
typedef std::string Bytes;

// ---------------------------------------------------------------- random numbers
struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(seed) { next(); next(); }
    u64 next() {
        u64 z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    u32 below(u32 n) { return n ? (u32)((next() >> 11) % n) : 0; }
    u32 range(u32 a, u32 b) { return a + below(b - a + 1); }  // inclusive
    bool chance(u32 num, u32 den) { return below(den) < num; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below((u32)v.size())]; }
};
u64 hash_bytes(const void *p, size_t n, u64 h = 0xcbf29ce484222325ull);
inline u64 hash_str(const Bytes &b, u64 h = 0xcbf29ce484222325ull) { return hash_bytes(b.data(), b.size(), h); }
inline u64 mix(u64 a, u64 b) { return Rng(a * 0x9e3779b97f4a7c15ull ^ b).next(); }

// ---------------------------------------------------------------- resource hooks (library side of malloc & co)
struct AllocState {
    std::unordered_map<void *, size_t> live;
    size_t live_bytes = 0, peak_bytes = 0;
    u64 calls = 0;           // allocation requests since reset
    u64 fail_at = 0;         // 1-based request number that fails (0: none)
    bool fail_from = false;  // all requests from fail_at on fail
    u64 failed = 0;
    u64 bad_frees = 0;       // releases of pointers the library does not own
    size_t max_request = 0;
    size_t deny_above = (size_t)160 << 20;
    int fill = 0xA5;
    u64 fopens = 0, fcloses = 0, fopen_fail_at = 0;
};
extern AllocState A;
void alloc_reset();                    // forgets counters, keeps the live set
void alloc_fail(u64 at, bool from);    // counted from now
void alloc_nofail();
extern "C" void *vp_malloc(size_t n);
extern "C" void vp_free(void *p);

// ---------------------------------------------------------------- step counter / coverage
extern u64 vp_steps;
extern u64 vp_step_limit;
size_t vp_edges_hit();
size_t vp_edges_total();
std::string vp_edges_map();

// ---------------------------------------------------------------- diagnostics recorder
struct Diag {
    u64 messages = 0;   // callback invocations since reset
    Bytes text;         // concatenated text (bounded)
    void reset() { messages = 0; text.clear(); }
};
extern thread_local Diag D;
void diag_install();

// ---------------------------------------------------------------- streams
struct RStream {                 // input
    const Bytes *data = nullptr;
    size_t pos = 0;
    size_t end = (size_t)-1;     // EOF position
    size_t err_at = (size_t)-1;  // reads at or beyond fail with EIO
    size_t max_read = (size_t)-1;// split size (0: random per call)
    bool seekable = false;
    Rng rng{1};
    u64 calls = 0;
    u64 bytes = 0;
    bool closed = false;
    FILE *open();                // fopencookie
};
struct WStream {                 // output
    Bytes out;
    size_t err_at = (size_t)-1;  // bytes from this offset on are rejected
    bool transient = false;      // only the first crossing fails
    bool err_close = false;
    bool seekable = false;
    size_t pos = 0;
    u64 errors = 0;              // rejections so far
    bool closed = false;
    FILE *open();
};
// a virtual file name: the library's fopen(name) yields this stream with this buffering
struct VFile { RStream *r = nullptr; WStream *w = nullptr; int bufmode = _IOFBF; size_t bufsize = 4096; bool deny = false; FILE *f = nullptr; };
extern std::map<std::string, VFile *> vfiles;
void set_buffering(FILE *f, int kind);   // kind: 0 unbuffered, 1.. small sizes, big

struct CaptureStdout {           // replaces stdout by a memory stream while alive
    FILE *saved; FILE *mem; WStream w;
    CaptureStdout();
    Bytes finish();
    ~CaptureStdout();
};
struct ReplaceStd {              // replaces a standard stream variable
    FILE **var; FILE *saved;
    ReplaceStd(FILE **v, FILE *f) : var(v), saved(*v) { *v = f; }
    ~ReplaceStd() { *var = saved; }
};

// ---------------------------------------------------------------- reference model
enum FieldKind { F_UBYTE, F_UWORD, F_WORD, F_ULONG, F_LONG, F_ID };
int field_size(FieldKind k);
const int MAXF = 8;
struct ExtDef {                  // layout and rule of an extension chunk type
    std::vector<FieldKind> fields;
    int rule_field = -1;         // check rule: value (unsigned) of this field <= rule_max
    u32 rule_max = 0;
    int total() const { int n = 0; for (auto f : fields) n += field_size(f); return n; }
    int fit(int32_t size) const; // number of fields that fit in a chunk of this size
};
enum HKind { H_RAW, H_EXT, H_FORM, H_CAT, H_LIST, H_PROP };
struct Handler {                 // one slot of instrumented chunk type functions
    HKind kind = H_RAW;
    ExtDef def;
    int slot = -1;
};
const int NEXT = 40;       // slots below are raw, the four groups and extension layouts; from here on groups and raw data again
const int NSLOTS = 52;
extern Handler slots[NSLOTS];
struct HEvent { char op; int slot; const void *chunk; };
extern thread_local std::vector<HEvent> *hlog;   // when set, handler calls are recorded
IFF_ChunkType slot_chunk_type(int slot, u32 chunkId);

struct Scope { std::vector<std::pair<u32, int>> types; int parent = -1; bool lib = false; };  // (chunkId, slot), sorted; parent scope index; lib: the library's own node
struct RegModel {
    std::vector<Scope> scopes;
    std::vector<std::pair<u32, int>> forms;    // (formType, scope), sorted
    int global = -1;                           // scope index
    int dflt = -1;                             // slot
    bool lib_default = true;                   // the default type is the library's own
    std::string name;
    int find(u32 formType, u32 chunkId) const; // slot
    const Handler &handler(u32 formType, u32 chunkId) const { return slots[find(formType, chunkId)]; }
    // library side
    std::vector<std::unique_ptr<IFF_ChunkType[]>> arrays;
    std::vector<std::unique_ptr<IFF_ChunkTypesNode>> nodes;
    std::vector<IFF_FormChunkTypes> fct;
    std::unique_ptr<IFF_ChunkType> dfltType;
    IFF_ChunkRegistry reg;
    const IFF_ChunkRegistry *lib() const { return isNull ? nullptr : &reg; }
    const IFF_ChunkRegistry *libx() const { return isNull ? &IFF_defaultChunkRegistry : &reg; }
    bool isNull = false;                       // the default registry, passed as NULL
    std::vector<u32> ext_forms;                // form types with extension chunks
    void finish();
    const IFF_ChunkType *lib_type(u32 formType, u32 chunkId) const; // expected pointer
};
typedef std::shared_ptr<RegModel> RegP;
RegP reg_default();                 // NULL
RegP reg_test();                    // like the TEST format of the test suite
RegP reg_rich();                    // several form types, scopes and layouts
RegP reg_random(Rng &r, bool instrument_all, bool vast = false);
const int SLOT_RAW = 0, SLOT_FORM = 1, SLOT_CAT = 2, SLOT_LIST = 3, SLOT_PROP = 4, SLOT_EXT0 = 5;

// library representation of extension chunks
struct ExtChunk { IFF_Group *parent; IFF_ID chunkId; IFF_Long chunkSize; int slot; void *aux;
                  IFF_UByte ub[MAXF]; IFF_UWord uw[MAXF]; IFF_Word sw[MAXF]; IFF_ULong ul[MAXF]; IFF_Long sl[MAXF]; IFF_ID id[MAXF]; };
u32 ext_get(const ExtChunk *c, int i);
void ext_set(ExtChunk *c, int i, u32 v);

struct Node;
typedef std::shared_ptr<Node> NodeP;
struct Node {
    u32 id = 0;
    int32_t size = 0;
    HKind kind = H_RAW;
    int slot = 0;
    u32 gtype = 0;
    std::vector<NodeP> props, kids;
    Bytes data;                   // raw payload
    std::vector<u32> vals;        // extension field values
    Bytes surplus;                // extension bytes beyond the known fields, as found on the stream
    u8 pad = 0;                   // pad byte on the stream
    u32 late = 0;                 // not 0: on the stream, shared properties and sub chunks of a LIST are interleaved (the value decides how)
    IFF_Chunk *ptr = nullptr;     // library chunk, when tied to one
    Node *parent = nullptr;
    bool is_group() const { return kind >= H_FORM; }
};
extern const u32 ID_FORM, ID_CAT, ID_LIST, ID_PROP, ID_JJJJ, ID_FILLER, ID_TEXT_;
inline u32 mkid(const char *s) { return (u32)(u8)s[0] << 24 | (u32)(u8)s[1] << 16 | (u32)(u8)s[2] << 8 | (u8)s[3]; }
std::string id_str(u32 id);
u32 padded(u32 n);
void fix_sizes(Node &n);          // recompute sizes of groups bottom-up (not of data/extension chunks)
void set_parents(Node &n);
void resolve_groups(Node &n, const RegModel &reg, u32 scope = 0);   // slots of group chunks
void collect(Node &n, std::vector<Node *> &out);   // preorder, shared properties before sub chunks
NodeP clone(const Node &n);
bool same(const Node &a, const Node &b, std::string *why = nullptr);     // structure equality (pointers ignored)
struct Mark { size_t pos; char what; };   // i: identifier, s: size, t: group type, d: data, p: pad byte
extern thread_local std::vector<Mark> *marks;
void serialize(const Node &n, Bytes &out, bool original);                 // original: as on the input stream; else as written by the library
Bytes encode(const Node &n, bool original = false);
std::string describe(const Node &n, int maxlen = 400);
u64 shape(const Node &n);         // structural signature (for distinctness)

// reference parser (what the stream means); lenient about overruns, which it flags
struct Parse { enum { OK, TRUNC, NEGATIVE } status = OK; NodeP top; size_t consumed = 0; bool overrun = false, nonzero_pad = false, smallgroup = false, surplus = false, misplaced_prop = false; size_t chunks = 0; size_t deepest = 0; };
Parse ref_parse(const Bytes &in, const RegModel &reg, u32 formType = 0, size_t at = 0);

// reference conformance
bool ref_id_ok(u32 id);
bool ref_formtype_ok(u32 id);
bool ref_check(const Node &n, bool top);
// reference printer
void ref_print(const Node &n, unsigned indent, std::string &out);
// reference searches
void ref_search(Node &n, const std::vector<u32> &types, std::vector<Node *> &out);
Node *ref_lookup(Node &form, u32 id);

// ---------------------------------------------------------------- generators
struct GenOpt {
    bool conforming = true;
    int max_depth = 5;
    int max_kids = 6;
    bool big = true;              // occasionally large payloads / many children / deep nesting
    bool odd_ids = true;          // unusual but legal identifiers
    bool surplus = true;          // extension chunks with surplus or missing fields
    bool pads = false;            // random non-zero pad bytes
    bool ext_valid = true;        // extension values satisfy their rule
    bool dup_props = false;
    u32 budget = 60;              // rough number of chunks
    u32 alone = 30;               // one hierarchy in so many is a data chunk by itself (gen_any)
    u32 stretch = 150;            // one hierarchy in so many has a group of more than 255 members (gen_any)
    bool enormous = false;        // and a few have one of more than 65536
};
NodeP gen_tree(Rng &r, const RegModel &reg, const GenOpt &o);
NodeP gen_chunk(Rng &r, const RegModel &reg, const GenOpt &o, u32 formType, int depth, u32 &budget);
u32 gen_formtype(Rng &r, const RegModel &reg);
u32 gen_dataid(Rng &r, const GenOpt &o);
Bytes gen_data(Rng &r, u32 n);
u32 gen_size(Rng &r, bool big);
Bytes gen_hostile(Rng &r, const RegModel &reg);             // structured hostile bytes
Bytes mutate(Rng &r, const Bytes &in, const Bytes *other);  // mutation of bytes

// ---------------------------------------------------------------- library <-> model
IFF_Chunk *build(Node &n, const RegModel &reg, Rng &style);  // builds with the API, sizes forced to the model's; sets ptr
NodeP observe(const IFF_Chunk *c, u32 formType, const RegModel &reg, std::string *linkerr = nullptr);
NodeP observe_parent(const IFF_Chunk *c, u32 formType, const RegModel &reg, const void *parent, std::string *linkerr);
void tie(Node &n, IFF_Chunk *c);                             // sets ptr of an equal model tree from a library tree

// ---------------------------------------------------------------- check framework
struct Ctx {
    std::string prop;
    u64 seed = 1, idx = 0;
    bool thorough = false;
    bool replaying = false;
    Rng rng{1};
    std::map<std::string, u64> counters;
    std::unordered_set<u64> distinct;
    std::vector<std::string> samples;
    std::vector<std::string> fails;      // of the current case
    u64 evaluations = 0;
    Bytes witness;                        // bytes shown with a violation
    std::string note;                     // text shown with a violation
    void fail(const std::string &key, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
    void count(const char *what, u64 n = 1) { counters[what] += n; }
    void cover(u64 sig) { if (distinct.size() < 400000) distinct.insert(sig); }
    void sample(const std::string &s) { if (samples.size() < 3) samples.push_back(s.substr(0, 600)); }
    bool failed() const { return !fails.empty(); }
    struct Fail { std::string key, msg; u64 idx; Bytes witness; std::string note; };
    std::vector<Fail> all;
};
struct CheckDef { const char *id; void (*run)(Ctx &); u64 quick, thorough; };
extern std::vector<CheckDef> &checks();
struct RegisterCheck { RegisterCheck(const char *id, void (*f)(Ctx &), u64 q, u64 t) { checks().push_back({id, f, q, t}); } };
std::string hex(const Bytes &b, size_t max = 200);
[[noreturn]] void harness_die(const char *what);   // the harness itself failed: no verdict
extern int real_stderr;
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
extern std::string scratch_dir;      // for files
const std::string &full_device();    // a link in the scratch directory to the device that is always full (renewed on each call), or "" if there is none
extern std::string tool_iffpp, tool_iffjoin;
IFF_Chunk *lib_read(const Bytes &in, const RegModel &reg, Rng &r);   // some delivery of the bytes
Bytes lib_write(const IFF_Chunk *c, const RegModel &reg, bool *ok);  // to a memory stream
RegP pick_reg(Rng &r);
Bytes slurp(const std::string &path);
void spit(const std::string &path, const Bytes &b);
