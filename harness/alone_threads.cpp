// C21: threads on private and on shared hierarchies, under ThreadSanitizer. Every thread's transcript is compared with the one
// it produces alone. usage: threads --seed S --rounds N --secs T --threads K --scratch DIR --out FILE
#include "vp.h"
#include <algorithm>
#include <atomic>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <thread>
#include <time.h>
#include <unistd.h>

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
std::string strf_(const char *f, ...) __attribute__((format(printf, 1, 2)));
void vp_step_overflow() {}
static std::string scratch = "/tmp";
// order in which the threads' operations started, without ordering them (relaxed)
static std::atomic<unsigned> ticket{0};
static const unsigned TRACE = 4096;
static std::atomic<unsigned char> trace[TRACE];
static thread_local int me = -1;
static void step() { if (me >= 0) { unsigned t = ticket.fetch_add(1, std::memory_order_relaxed); if (t < TRACE) trace[t].store((unsigned char)(me + 1), std::memory_order_relaxed); } }
// streams that give way at random
struct YStream { const Bytes *in = nullptr; size_t pos = 0; Bytes out; Rng rng{1}; bool yield = true; size_t err_at = (size_t)-1; };
static void give_way(YStream *s) { if (s->yield && me >= 0) { u32 x = s->rng.below(160); if (x == 0) usleep(s->rng.below(60)); else if (x < 4) sched_yield(); } }
static ssize_t y_read(void *c, char *b, size_t n) { YStream *s = (YStream *)c; give_way(s); size_t k = std::min(n, s->in->size() - s->pos); if (k > 1) k = 1 + s->rng.below((u32)std::min<size_t>(k, 40)); memcpy(b, s->in->data() + s->pos, k); s->pos += k; return (ssize_t)k; }
static ssize_t y_write(void *c, const char *b, size_t n) { YStream *s = (YStream *)c; give_way(s); if (s->out.size() + n > s->err_at) return 0; s->out.append(b, n); return (ssize_t)n; }
static FILE *y_open(YStream *s, const char *mode, Rng &r) { cookie_io_functions_t io = {y_read, y_write, nullptr, nullptr}; FILE *f = fopencookie(s, mode, io); int k = (int)r.below(4); if (k == 0) setvbuf(f, nullptr, _IONBF, 0); else if (k == 1) setvbuf(f, nullptr, _IOFBF, 16); return f; }

struct Job { RegP reg; Bytes in; NodeP tree; u64 seed; std::string file; bool default_cb = false; };
static std::string number(const std::map<const void *, size_t> &idx, const void *p) { if (!p) return "- "; auto it = idx.find(p); return it == idx.end() ? "? " : strf("%zu ", it->second); }
static void collect_all(Node &n, std::vector<Node *> &v) { collect(n, v); }
static u32 scope(const Node &n) { return n.parent ? n.parent->gtype : 0; }
// inspects a hierarchy in every way; shared hierarchies are inspected by several threads at once
static std::string inspect(IFF_Chunk *k, IFF_Chunk *other, const Bytes *again, const RegModel &reg, Rng &r, const std::string &file) {
    std::string o; NodeP t = observe(k, 0, reg); tie(*t, k); std::vector<Node *> v; collect_all(*t, v);
    std::map<const void *, size_t> idx; for (size_t i = 0; i < v.size(); i++) idx[v[i]->ptr] = i;
    std::vector<u32> types; for (Node *n : v) if (n->is_group()) types.push_back(n->gtype);
    int n = 6 + (int)r.below(6);
    for (int i = 0; i < n; i++) {
        step(); D.reset();
        Node *q = v[r.below((u32)v.size())];
        switch (r.below(10)) {
        case 0: o += strf("check %d ", IFF_check(k, reg.lib())) + D.text; break;
        case 1: o += strf("part %d ", IFF_checkChunk(q->ptr, scope(*q), reg.libx())) + D.text; break;
        case 2: o += strf("self %d ", IFF_compare(k, k, reg.lib())); if (other) o += strf("other %d ", IFF_compare(k, other, reg.lib())); break;
        case 3: { std::vector<u32> ty; int m = 1 + (int)r.below(3); for (int j = 0; j < m; j++) ty.push_back(types.empty() ? mkid("TEST") : types[r.below((u32)types.size())]); unsigned len = 0; IFF_Form **f = m == 1 ? IFF_searchForms(q->ptr, ty[0], &len) : IFF_searchFormsFromArray(q->ptr, ty.data(), (unsigned)m, &len); o += strf("search %u: ", len); for (unsigned j = 0; j < len; j++) o += number(idx, f[j]); free(f); break; }
        case 4: { u32 id = v[r.below((u32)v.size())]->id;
            if (q->kind == H_FORM) { o += "get " + number(idx, IFF_getChunkFromForm((IFF_Form *)q->ptr, id)) + number(idx, IFF_getDataChunkFromForm((IFF_Form *)q->ptr, id)); unsigned len = 0; IFF_Chunk **a = IFF_getChunksFromForm((IFF_Form *)q->ptr, id, &len); o += strf("all %u: ", len); for (unsigned j = 0; j < len; j++) o += number(idx, a[j]); free(a); }
            else if (q->kind == H_PROP) o += "prop " + number(idx, IFF_getChunkFromProp((IFF_Prop *)q->ptr, id));
            else if (q->kind == H_LIST) o += "list " + number(idx, IFF_getPropFromList((IFF_List *)q->ptr, types[r.below((u32)types.size())]));
            break; }
        case 5: case 6: { YStream s; s.rng = Rng(r.next()); if (r.chance(1, 5)) s.err_at = r.below(60); FILE *f = y_open(&s, "w", r); bool ok = IFF_writeFd(f, k, reg.lib()); fclose(f); o += strf("write %d %zu %llx ", ok, s.err_at == (size_t)-1 ? s.out.size() : 0, s.err_at == (size_t)-1 ? (unsigned long long)hash_str(s.out) : 0ull) + D.text; break; }
        case 8: if (q->parent || r.chance(1, 4)) IFF_printChunk(q->ptr, r.below(4), scope(*q), reg.libx()); else IFF_print(k, r.below(4), reg.lib()); o += "printed "; break;   // to where nobody looks: threads share the standard output
        case 7: if (!file.empty()) { bool ok = IFF_write(file.c_str(), k, reg.lib()); Bytes b = slurp(file); o += strf("file %d %llx ", ok, (unsigned long long)hash_str(b)); IFF_Chunk *k2 = IFF_read(file.c_str(), reg.lib()); o += k2 ? strf("same %d ", IFF_compare(k, k2, reg.lib())) : "unread "; if (k2) IFF_free(k2, reg.lib()); unlink(file.c_str()); } break;
        default: { IFF_ID2 id2; IFF_idToString(q->id, id2); o += "id " + hex(Bytes(id2, 4)) + strf(" %d %d ", IFF_checkId(q->id), IFF_checkFormType(q->id)); if (again && q->id) { const IFF_ChunkType *ct = IFF_findChunkType(reg.libx(), scope(*q), q->id); o += strf("handler %d ", ct == reg.lib_type(scope(*q), q->id)); } }
        }
    }
    return o;
}
static std::string run_job(const Job &j) {
    Rng r(j.seed); std::string o;
    for (int part = 0; part < 2; part++) {
        step(); D.reset();
        YStream s; s.in = &j.in; s.rng = Rng(r.next()); FILE *f = y_open(&s, "r", r); IFF_Chunk *k = IFF_readFd(f, j.reg->lib()); fclose(f);
        o += k ? "read " : "refused "; o += D.text;
        if (k) {
            YStream s2; s2.in = &j.in; s2.rng = Rng(r.next()); f = y_open(&s2, "r", r); IFF_Chunk *k2 = IFF_readFd(f, j.reg->lib()); fclose(f);
            o += inspect(k, k2, &j.in, *j.reg, r, j.file); step(); IFF_free(k, j.reg->lib()); if (k2) IFF_free(k2, j.reg->lib());
        }
        // build, edit, inspect, free
        step(); NodeP t = clone(*j.tree); set_parents(*t); IFF_Chunk *b = build(*t, *j.reg, r); std::vector<Node *> v; collect_all(*t, v);
        for (int i = 0; i < 3; i++) { Node *n = v[r.below((u32)v.size())]; if (n->kind == H_RAW) { step(); Bytes text = gen_data(r, r.below(20)); for (auto &ch : text) if (!ch) ch = 'x'; IFF_setTextData((IFF_RawChunk *)n->ptr, text.c_str()); IFF_updateChunkSizes(n->ptr); } }
        IFF_CAT *cat = IFF_createEmptyCAT(); IFF_addToCATAndUpdateContentsType(cat, b); IFF_addToCATAndUpdateContentsType(cat, (IFF_Chunk *)IFF_createEmptyForm(mkid("ABCD")));
        IFF_List *list = IFF_createEmptyList(); IFF_addPropToList(list, IFF_createEmptyProp(mkid("ABCD"))); IFF_addToListAndUpdateContentsType(list, (IFF_Chunk *)cat);
        u32 rid = mkid("NAME"); while (slots[j.reg->find(mkid("TEST"), rid)].kind != H_RAW || rid == ID_FORM || rid == ID_LIST || rid == ID_PROP || rid == ID_CAT) rid++;
        IFF_Form *form = IFF_createEmptyForm(mkid("TEST")); IFF_RawChunk *rc = (IFF_RawChunk *)IFF_createRawChunk(rid, 0); IFF_setTextData(rc, "some text"); IFF_addToForm(form, (IFF_Chunk *)rc); IFF_addToList(list, (IFF_Chunk *)form);
        IFF_updateChunkSizes((IFF_Chunk *)form);
        o += strf("type %x ", list->contentsType) + inspect((IFF_Chunk *)list, nullptr, nullptr, *j.reg, r, j.file);
        step(); IFF_free((IFF_Chunk *)list, j.reg->lib());
    }
    return o;
}
static std::map<std::string, u64> counters; static std::vector<std::string> violations, samples; static std::unordered_set<u64> orders;
static u64 evaluations;
static std::string js(const std::string &s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 0x20 || c > 0x7e) o += strf("\\u%04x", c); else o += (char)c; } return o + "\""; }
static void round_of(u64 seed, int nth, int kind) {
    Rng r(mix(seed, 21)); RegP regs[3] = {reg_default(), reg_rich(), reg_test()};
    std::vector<std::string> got((size_t)nth), want((size_t)nth); std::vector<std::thread> ts; std::atomic<int> ready{0};
    std::vector<Job> jobs; IFF_Chunk *shared = nullptr, *shared2 = nullptr; RegP sreg; Bytes enc;
    GenOpt o; o.big = false; o.budget = 14; RegP one = regs[r.below(3)]; bool share_reg = r.chance(1, 2); bool same_input = r.chance(1, 3);
    for (int i = 0; i < nth; i++) {
        Job j; j.reg = share_reg ? one : regs[r.below(3)]; if (r.chance(1, 6)) j.reg = reg_random(r, false);
        j.tree = gen_tree(r, *j.reg, o); set_parents(*j.tree);
        if (r.chance(1, 3)) j.in = gen_hostile(r, *j.reg); else { j.in = encode(*gen_tree(r, *j.reg, o), true); if (r.chance(1, 4)) j.in.resize(r.below((u32)j.in.size())); }
        if (j.in.size() > 1500) j.in.resize(1500);
        j.seed = r.next(); j.file = scratch + strf("/t%d.iff", i);
        if (same_input && i) { j.reg = jobs[0].reg; j.in = jobs[0].in; j.tree = jobs[0].tree; j.seed = jobs[0].seed; }
        jobs.push_back(j);
    }
    if (kind == 1) { sreg = regs[r.below(3)]; NodeP t = gen_tree(r, *sreg, o); enc = encode(*t, true); for (int q = 0; q < 2; q++) { YStream s; s.in = &enc; s.yield = false; FILE *f = y_open(&s, "r", r); (q ? shared2 : shared) = IFF_readFd(f, sreg->lib()); fclose(f); } if (!shared || !shared2) { kind = 0; } }
    auto installed = IFF_errorCallback; bool standard = r.chance(1, 4); if (standard) { IFF_errorCallback = &IFF_errorCallbackStderr; counters["rounds_with_the_default_callback"]++; }
    ticket.store(0); for (auto &x : trace) x.store(0, std::memory_order_relaxed);
    auto body = [&](int i) { if (kind == 1) { Rng q(jobs[(size_t)i].seed); std::string s; for (int n = 0; n < 3; n++) s += inspect(shared, shared2, &enc, *sreg, q, jobs[(size_t)i].file); return s; } return run_job(jobs[(size_t)i]); };
    for (int i = 0; i < nth; i++) ts.emplace_back([&, i] { me = i; ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < nth) sched_yield(); got[(size_t)i] = body(i); me = -1; });
    for (auto &t : ts) t.join();
    unsigned used = std::min(ticket.load(), TRACE); u64 h = 5, switches = 0; unsigned char last = 0; for (unsigned i = 0; i < used; i++) { unsigned char x = trace[i].load(std::memory_order_relaxed); h = mix(h, x); if (x != last) switches++; last = x; }
    orders.insert(h); counters["operations_started"] += used; counters["switches_between_threads"] += switches; counters[kind ? "rounds_with_a_shared_hierarchy" : "rounds_with_private_hierarchies"]++;
    for (int i = 0; i < nth; i++) {   // alone
        want[(size_t)i] = body(i); evaluations++; counters["transcripts_compared"]++; counters["transcript_bytes"] += want[(size_t)i].size();
        if (got[(size_t)i] != want[(size_t)i] && violations.size() < 10) { size_t p = 0; while (p < got[(size_t)i].size() && p < want[(size_t)i].size() && got[(size_t)i][p] == want[(size_t)i][p]) p++; size_t q = p > 40 ? p - 40 : 0; violations.push_back(strf("round seed %llu thread %d (%s hierarchies): ...%s instead of ...%s", (unsigned long long)seed, i, kind ? "shared" : "private", got[(size_t)i].substr(q, 160).c_str(), want[(size_t)i].substr(q, 160).c_str())); }
    }
    IFF_errorCallback = installed;
    if (samples.size() < 3) samples.push_back(strf("%d threads, %u operations, %llu switches; thread 0: ", nth, used, (unsigned long long)switches) + want[0].substr(0, 200));
    if (shared) IFF_free(shared, sreg->lib());
    if (shared2) IFF_free(shared2, sreg->lib());
}
std::vector<CheckDef> &checks() { static std::vector<CheckDef> v; return v; }
int main(int argc, char **argv) {
    u64 seed = 1, rounds = 10, only = (u64)-1; double secs = 1e9; int nth = 8; std::string out;
    for (int i = 1; i + 1 < argc; i += 2) { std::string a = argv[i], v = argv[i + 1]; if (a == "--seed") seed = strtoull(v.c_str(), 0, 10); else if (a == "--rounds") rounds = strtoull(v.c_str(), 0, 10); else if (a == "--secs") secs = atof(v.c_str()); else if (a == "--threads") nth = atoi(v.c_str()); else if (a == "--scratch") scratch = v; else if (a == "--out") out = v; else if (a == "--only") only = strtoull(v.c_str(), 0, 10); }
    double t0 = now(); signal(SIGPIPE, SIG_IGN);
    diag_install();
    stdout = fopen("/dev/null", "w"); stderr = fopen("/dev/null", "w"); if (!stdout || !stderr) return 3;   // ThreadSanitizer reports to the descriptor, not to the stream
    u64 done = 0;
    for (u64 i = 0; i < rounds && now() - t0 < secs; i++) { if (only != (u64)-1 && i != only) continue; round_of(mix(seed, i), nth, i == 0 ? 0 : (int)(i % 3 == 1)); done++; }
    FILE *f = fopen(out.c_str(), "w"); if (!f) return 3;
    fprintf(f, "{\"status\":\"ok\",\"cases\":%llu,\"evaluations\":%llu,\"wall\":%.3f,\"edges_hit\":0,\"edges_total\":0,\"counters\":{\"distinct_operation_orders\":%zu", (unsigned long long)done, (unsigned long long)evaluations, now() - t0, orders.size());
    for (auto &c : counters) fprintf(f, ",%s:%llu", js(c.first).c_str(), (unsigned long long)c.second);
    fprintf(f, "},\"samples\":["); for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s%s", i ? "," : "", js(samples[i]).c_str());
    fprintf(f, "],\"violations\":["); for (size_t i = 0; i < violations.size(); i++) fprintf(f, "%s{\"key\":\"other-result\",\"idx\":0,\"witness\":\"\",\"note\":\"\",\"msg\":%s}", i ? "," : "", js(violations[i]).c_str());
    fprintf(f, "]}\n"); fclose(f);
    FILE *d = fopen((out + ".distinct").c_str(), "wb"); std::vector<u64> v(orders.begin(), orders.end()); fwrite(v.data(), 8, v.size(), d); fclose(d);
    _exit(0);
}
