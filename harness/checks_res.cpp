// Resources, memory shortage, handler dispatch, tools: C07 C08 C14 C18 C19
#include "checks.h"
#include <dirent.h>
#include <sys/resource.h>
#include <sys/ioctl.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
extern char **environ;

static int open_fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) n++; closedir(d); return n; }
static NodeP mknode(HKind kind, u32 type) {
    auto q = std::make_shared<Node>(); q->kind = kind; q->gtype = type; q->size = 4;
    switch (kind) {
    case H_FORM: q->id = ID_FORM; q->slot = SLOT_FORM; break; case H_CAT: q->id = ID_CAT; q->slot = SLOT_CAT; break;
    case H_LIST: q->id = ID_LIST; q->slot = SLOT_LIST; break; case H_PROP: q->id = ID_PROP; q->slot = SLOT_PROP; break;
    default: q->slot = SLOT_RAW; q->gtype = 0; q->size = 0;
    }
    return q;
}
static bool node_inside(const Node *n, const Node *anc) { for (; n; n = n->parent) if (n == anc) return true; return false; }
// where the hierarchy differs from what it should be (empty: nowhere)
static std::string differs(Node &t, u32 scope, const RegModel &reg) {
    std::string why, link; NodeP g = observe(t.ptr, scope, reg, &link);
    if (!same(t, *g, &why)) return why;
    if (!link.empty()) return link;
    auto a = all_nodes(t), b = all_nodes(*g);
    for (size_t i = 0; i < a.size(); i++) if (a[i]->ptr != b[i]->ptr) return "another chunk is at the place of '" + id_str(a[i]->id) + "'";
    return "";
}

// ---------------------------------------------------------------- C07
static void c07(Ctx &c) {
    Rng &r = c.rng;
    RegP reg = pick_reg(r);
    size_t base = LIVE(); size_t base_bytes = A.live_bytes; u64 op0 = A.fopens, cl0 = A.fcloses; int fds = open_fds();
    struct H { NodeP t; u32 scope; };
    std::vector<H> hs; std::vector<void *> arrays; std::string hist; GenOpt o; o.big = r.chance(1, 10); o.budget = 14; o.pads = r.chance(1, 4); o.stretch = 400; o.enormous = true;
    auto alive = [&](const char *what) {
        c.evaluations++;
        for (auto &h : hs) { std::string d = differs(*h.t, h.scope, *reg); if (!d.empty()) { c.fail("damaged", "after %s a hierarchy is no longer what it was: %s; history %s", what, d.c_str(), hist.c_str()); return; } }
        if (A.bad_frees) c.fail("released-twice", "after %s: memory released that the library does not hold; history %s", what, hist.c_str());
    };
    int nops = 6 + (int)r.below(c.thorough ? 40 : 18);
    for (int i = 0; i < nops && !c.failed(); i++) {
        int w = (int)r.below(18); D.reset();
        if (w < 3 || hs.empty()) {   // build or read
            NodeP t = gen_any(c, *reg, o); if (r.chance(1, 20)) widen(r, *t, *reg); bool rd = r.chance(1, 2); IFF_Chunk *k = nullptr;
            if (rd) { k = lib_read(encode(*t, true), *reg, r); if (k && !same(*t, *observe(k, 0, *reg))) { drop(k, *reg); k = nullptr; } if (k) tie(*t, k); }
            if (!k) k = build(*t, *reg, r);
            hs.push_back({t, 0}); hist += rd ? "read " : "build "; c.count(rd ? "read" : "built"); alive("obtaining a hierarchy");
        } else if (w < 5) {   // failed reads
            size_t before = LIVE(); u64 op = A.fopens, cl = A.fcloses; Bytes in; IFF_Chunk *k;
            if (r.chance(1, 2)) in = gen_hostile(r, *reg); else { in = encode(*gen_any(c, *reg, o), true); if (r.chance(1, 2)) in.resize(r.below((u32)in.size())); else in = mutate(r, in, nullptr); }
            c.witness = in;
            RStream s; s.data = &in; s.max_read = r.below(4); s.rng = Rng(r.next()); if (r.chance(1, 3)) s.err_at = r.below((u32)in.size() + 1);
            if (r.chance(1, 2)) { VFile v; v.r = &s; vfiles["vp:in"] = &v; if (r.chance(1, 12)) v.deny = true; k = IFF_read("vp:in", reg->lib()); vfiles.erase("vp:in"); } else { FILE *f = s.open(); k = IFF_readFd(f, reg->lib()); fclose(f); }
            hist += k ? "readOdd " : "readFail "; c.count(k ? "odd_reads" : "failed_reads");
            if (k) { if (r.chance(1, 2)) { D.reset(); IFF_check(k, reg->lib()); } drop(k, *reg); }
            if (LIVE() != before) c.fail("leak", "%zd allocations remain after %s; input %s", (ssize_t)(LIVE() - before), k ? "reading and freeing" : "a failed read", hex(in, 300).c_str());
            if (A.fopens - op != A.fcloses - cl) c.fail("file-left-open", "after %s: %llu files opened, %llu closed", k ? "a read" : "a failed read", (unsigned long long)(A.fopens - op), (unsigned long long)(A.fcloses - cl));
            alive("a failed read");
        } else if (w < 7) {   // writes, also failing
            H &h = hs[r.below((u32)hs.size())]; size_t before = LIVE(); u64 op = A.fopens, cl = A.fcloses;
            WStream ws; if (r.chance(1, 2)) ws.err_at = r.below(80); ws.err_close = r.chance(1, 6);
            VFile v; v.w = &ws; if (r.chance(1, 10)) v.deny = true; vfiles["vp:out"] = &v; bool ok = h.scope ? true : IFF_write("vp:out", h.t->ptr, reg->lib()); vfiles.erase("vp:out");
            hist += ok ? "write " : "writeFail "; c.count(ok ? "writes" : "failed_writes");
            if (LIVE() != before) c.fail("leak", "writing leaves %zd allocations behind", (ssize_t)(LIVE() - before));
            if (A.fopens - op != A.fcloses - cl) c.fail("file-left-open", "writing (%s): %llu opened, %llu closed", ok ? "ok" : "failed", (unsigned long long)(A.fopens - op), (unsigned long long)(A.fcloses - cl));
            alive("writing");
        } else if (w < 9) {   // inspecting
            H &h = hs[r.below((u32)hs.size())]; H &g = hs[r.below((u32)hs.size())]; size_t before = LIVE();
            IFF_checkChunk(h.t->ptr, h.scope, reg->libx()); if (h.scope == g.scope) IFF_compareChunk(h.t->ptr, g.t->ptr, h.scope, reg->libx());
            if (encode(*h.t).size() < 4000) { CaptureStdout cap; IFF_printChunk(h.t->ptr, r.below(3), h.scope, reg->libx()); cap.finish(); }
            hist += "inspect "; c.count("inspections");
            if (LIVE() != before) c.fail("leak", "inspecting leaves %zd allocations behind", (ssize_t)(LIVE() - before));
            alive("inspecting");
        } else if (w < 12) {   // searching and querying: only the returned array may remain
            H &h = hs[r.below((u32)hs.size())]; auto v = all_nodes(*h.t); Node *n = v[r.below((u32)v.size())]; size_t before = LIVE(); void *a; unsigned len = 0; const char *what;
            if (n->kind == H_FORM && r.chance(1, 2)) { a = IFF_getChunksFromForm((IFF_Form *)n->ptr, n->kids.empty() ? mkid("NONE") : r.pick(n->kids)->id, &len); IFF_getChunkFromForm((IFF_Form *)n->ptr, r.pick(v)->id); what = "looking up"; }
            else {
                std::vector<u32> ty; int nt = 1 + (int)r.below(4); for (int j = 0; j < nt; j++) { Node *q = v[r.below((u32)v.size())]; ty.push_back(q->is_group() ? q->gtype : gen_formtype(r, *reg)); }
                if (nt == 1 && r.chance(1, 2)) a = IFF_searchForms(n->ptr, ty[0], &len); else a = IFF_searchFormsFromArray(n->ptr, ty.data(), (unsigned)nt, &len);
                what = "searching";
            }
            hist += strf("%s(%u) ", what, len); c.count(len ? "searches_with_results" : "searches_without_results");
            if (a) { if (!A.live.count(a)) c.fail("array-not-owned", "%s hands out an array that is not an allocation of its own", what); else arrays.push_back(a); }
            if (LIVE() != before + (a ? 1 : 0)) c.fail("leak", "%s with %u results leaves %zd allocations behind besides the returned array", what, len, (ssize_t)(LIVE() - before) - (a ? 1 : 0));
            if (!arrays.empty() && r.chance(1, 2)) { vp_free(arrays.back()); arrays.pop_back(); }
            alive(what);
        } else if (w < 14) {   // data
            H &h = hs[r.below((u32)hs.size())]; std::vector<Node *> raws; for (Node *n : all_nodes(*h.t)) if (n->kind == H_RAW && n->size >= 0) raws.push_back(n);
            if (raws.empty()) continue;
            Node *n = r.pick(raws); IFF_RawChunk *k = (IFF_RawChunk *)n->ptr; Bytes s = gen_data(r, gen_size(r, false));
            size_t before = LIVE();
            if (r.chance(2, 3)) { for (auto &ch : s) if (!ch) ch = '.'; if (!IFF_setTextData(k, s.c_str())) c.fail("set-failed", "setTextData"); hist += "text "; }
            else { IFF_UByte *d = (IFF_UByte *)vp_malloc(s.size()); if (s.size()) memcpy(d, s.data(), s.size()); vp_free(k->chunkData); IFF_setRawChunkData(k, d, (IFF_Long)s.size()); hist += "data "; }
            n->data = s; n->size = (int32_t)s.size(); n->surplus.clear(); n->pad = 0; c.count("data_settings");
            fix_sizes(*h.t); for (Node *x : all_nodes(*h.t)) x->ptr->chunkSize = x->size;
            alive("setting data");
        } else if (w < 16) {   // join two hierarchies or add a fresh chunk
            H &h = hs[r.below((u32)hs.size())]; std::vector<Node *> gs; for (Node *n : all_nodes(*h.t)) if (n->is_group()) gs.push_back(n);
            if (gs.empty()) continue;
            Node *g = r.pick(gs); size_t ci = r.below((u32)hs.size()); NodeP ch;
            if (hs[ci].t.get() != h.t.get() && hs[ci].scope == 0 && hs[ci].t->is_group() && hs[ci].t->kind != H_PROP) { ch = hs[ci].t; Node *top = h.t.get(); hs.erase(hs.begin() + (long)ci); (void)top; hist += "join "; }
            else { u32 b = 5; ch = gen_chunk(r, *reg, o, g->gtype, 4, b); fix_sizes(*ch); set_parents(*ch); build(*ch, *reg, r); hist += "add "; }
            if (ch->kind == H_PROP && g->kind == H_LIST) { IFF_addPropToList((IFF_List *)g->ptr, (IFF_Prop *)ch->ptr); g->props.push_back(ch); }
            else { IFF_addToGroup((IFF_Group *)g->ptr, ch->ptr); g->kids.push_back(ch); }
            ch->parent = g; Node *top = g; while (top->parent) top = top->parent; fix_sizes(*top); for (Node *x : all_nodes(*top)) x->ptr->chunkSize = x->size;
            c.count("additions"); alive("adding");
        } else {   // free one hierarchy, of whatever kind
            size_t hi = r.below((u32)hs.size()); size_t before = LIVE();
            auto v = all_nodes(*hs[hi].t);
            size_t owned = 0;   // at least one allocation per chunk has to go
            owned = v.size();
            if (hs[hi].scope == 0 && r.chance(1, 2)) IFF_free(hs[hi].t->ptr, reg->lib()); else IFF_freeChunk(hs[hi].t->ptr, hs[hi].scope, reg->libx());
            hs.erase(hs.begin() + (long)hi); hist += "free "; c.count("hierarchies_freed"); c.count("chunks_freed", v.size());
            if (before - LIVE() < owned) c.fail("leak", "freeing %zu chunks released %zd allocations only; history %s", owned, (ssize_t)(before - LIVE()), hist.c_str());
            alive("freeing another hierarchy");
        }
    }
    for (auto &h : hs) c.cover(mix(shape(*h.t), hash_str(hist)));
    bool arrays_first = r.chance(1, 2);
    if (arrays_first) for (void *a : arrays) vp_free(a);
    for (auto &h : hs) IFF_freeChunk(h.t->ptr, h.scope, reg->libx());
    if (!arrays_first) for (void *a : arrays) vp_free(a);
    if (LIVE() != base && !c.failed()) c.fail("leak", "%zd allocations (%zd bytes) remain after everything was freed; history %s", (ssize_t)(LIVE() - base), (ssize_t)(A.live_bytes - base_bytes), hist.c_str());
    if (A.bad_frees) c.fail("released-twice", "%llu releases of memory the library does not hold; history %s", (unsigned long long)A.bad_frees, hist.c_str());
    if (A.fopens - op0 != A.fcloses - cl0) c.fail("file-left-open", "%llu opened, %llu closed", (unsigned long long)(A.fopens - op0), (unsigned long long)(A.fcloses - cl0));
    if (open_fds() != fds) c.fail("file-left-open", "%d descriptors more than before", open_fds() - fds);
    c.sample(hist);
}
static RegisterCheck r07("C07", c07, 80000, 400000);

// ---------------------------------------------------------------- C08
static std::vector<u64> fail_points(Rng &r, u64 n, u32 most) {
    std::vector<u64> ks;
    if (n <= most) for (u64 k = 1; k <= n; k++) ks.push_back(k);
    else { for (u32 i = 0; i < most; i++) ks.push_back(1 + r.next() % n); ks.push_back(n); ks.push_back(1); }
    return ks;
}
static void c08_read(Ctx &c) {
    Rng &r = c.rng; RegP reg = pick_reg(r);
    GenOpt o; o.big = false; o.stretch = 600; o.budget = r.chance(1, 4) ? 30 : 10;
    NodeP src = gen_any(c, *reg, o); if (r.chance(1, 12)) widen(r, *src, *reg);
    Bytes in = r.chance(1, 3) ? gen_hostile(r, *reg) : encode(*src, true);
    c.witness = in; c.cover(hash_str(in));
    alloc_fail(0, false); NodeP want; { RStream s; s.data = &in; FILE *f = s.open(); IFF_Chunk *k = IFF_readFd(f, reg->lib()); fclose(f); if (k) want = observe(k, 0, *reg); u64 n = A.calls; if (k) drop(k, *reg); A.calls = n; }
    u64 n = A.calls;
    for (u64 at : fail_points(r, n, c.thorough ? 200 : 40)) for (int from = 0; from < 2; from++) {
        size_t live = LIVE(); u64 op = A.fopens, cl = A.fcloses; D.reset();
        RStream s; s.data = &in; s.seekable = r.chance(1, 2); IFF_Chunk *k; bool named = r.chance(1, 3);
        VFile v; v.r = &s; vfiles["vp:in"] = &v; FILE *f = named ? nullptr : s.open();
        alloc_fail(at, from);
        k = named ? IFF_read("vp:in", reg->lib()) : IFF_readFd(f, reg->lib());
        u64 failed = A.failed; alloc_nofail(); if (f) fclose(f); vfiles.erase("vp:in");
        c.evaluations++; c.count("reads_under_shortage"); c.count(k ? "reads_completed_without" : "reads_failed"); if (failed) c.count("allocations_failed", failed);
        if (k) {
            std::string why; NodeP g = observe(k, 0, *reg);
            if (!want) c.fail("wrong-success", "with allocation %llu failing an unreadable input is read", (unsigned long long)at);
            else if (!same(*want, *g, &why)) c.fail("wrong-hierarchy", "with allocation %llu%s failing, reading reports success but the hierarchy differs: %s", (unsigned long long)at, from ? " and later" : "", why.c_str());
            drop(k, *reg);
        } else {
            if (want && !failed) c.fail("fails-without-cause", "reading fails although no allocation failed");
            if (failed && !D.messages) c.count("shortages_without_message");
        }
        if (LIVE() != live) c.fail("leak", "%zd allocations stay behind after allocation %llu of %llu failed%s while reading", (ssize_t)(LIVE() - live), (unsigned long long)at, (unsigned long long)n, from ? " and all later ones" : "");
        if (A.bad_frees) c.fail("released-twice", "allocation %llu failing while reading", (unsigned long long)at);
        if (A.fopens - op != A.fcloses - cl) c.fail("file-left-open", "allocation %llu failing while reading", (unsigned long long)at);
        if (c.failed()) return;
    }
    if (r.chance(1, 4)) {   // opening fails
        RStream s; s.data = &in; VFile v; v.r = &s; vfiles["vp:in"] = &v; D.reset(); A.fopens = A.fcloses = 0; A.fopen_fail_at = 1; size_t live = LIVE();
        IFF_Chunk *k = r.chance(1, 2) ? IFF_read("vp:in", reg->lib()) : IFF_readFile("vp:in", reg->lib()); vfiles.erase("vp:in"); A.fopen_fail_at = 0;
        if (k) c.fail("wrong-success", "a file that cannot be opened is read"); else if (!D.messages) c.fail("not-reported", "no message for a file that cannot be opened");
        if (LIVE() != live || A.fopens != A.fcloses) c.fail("leak", "opening failed"); c.evaluations++; c.count("opens_failed");
    }
    c.sample(strf("%llu allocations while reading %zu bytes, each failing in turn", (unsigned long long)n, in.size()));
}
static void c08_search(Ctx &c) {
    Rng &r = c.rng; RegP reg = pick_reg(r);
    GenOpt o; o.big = false; o.stretch = 300; o.budget = r.chance(1, 3) ? 60 : 20;
    NodeP t = gen_any(c, *reg, o); if (r.chance(1, 6)) widen(r, *t, *reg); IFF_Chunk *k = build(*t, *reg, r); c.witness = encode(*t, true); c.cover(shape(*t));
    auto v = all_nodes(*t); Snap s0 = snapshot(k, 0, *reg);
    std::vector<u32> pool; for (Node *n : v) if (n->is_group()) pool.push_back(n->gtype);
    pool.push_back(gen_formtype(r, *reg));
    for (int q = 0; q < 4; q++) {
        Node *at = q == 0 ? t.get() : r.pick(v); std::vector<u32> ty; int nt = 1 + (int)r.below(3); for (int j = 0; j < nt; j++) ty.push_back(r.pick(pool));
        bool lookup = at->kind == H_FORM && r.chance(1, 2); u32 id = at->kids.empty() ? mkid("NONE") : r.pick(at->kids)->id;
        std::vector<Node *> want; if (lookup) { for (auto &x : at->kids) if (x->id == id) want.push_back(x.get()); } else ref_search(*at, ty, want);
        auto run = [&](unsigned *len) -> void ** { *len = 12345; return lookup ? (void **)IFF_getChunksFromForm((IFF_Form *)at->ptr, id, len) : nt == 1 ? (void **)IFF_searchForms(at->ptr, ty[0], len) : (void **)IFF_searchFormsFromArray(at->ptr, ty.data(), (unsigned)nt, len); };
        unsigned len; alloc_fail(0, false); vp_free(run(&len)); u64 n = A.calls;
        const char *what = lookup ? "looking up" : "searching";
        for (u64 p : fail_points(r, n, c.thorough ? 200 : 30)) for (int from = 0; from < 2; from++) {
            size_t live = LIVE(); alloc_fail(p, from); void **a = run(&len); u64 failed = A.failed; alloc_nofail(); c.evaluations++; c.count("searches_under_shortage"); c.count("allocations_failed", failed);
            if (!a && len) { c.fail("count-without-array", "%s with allocation %llu failing returns no array but a count of %u", what, (unsigned long long)p, len); break; }
            size_t j = 0; bool bad = false;
            for (unsigned i = 0; i < len; i++) { while (j < want.size() && (void *)want[j]->ptr != a[i]) j++; if (j == want.size()) { bad = true; break; } j++; }
            if (bad) c.fail("wrong-match", "%s with allocation %llu failing returns something that is not among the %zu matches in their order", what, (unsigned long long)p, want.size());
            if (!failed && len != want.size()) c.fail("incomplete", "%s returns %u of %zu although nothing failed", what, len, want.size());
            c.count(len == want.size() ? "searches_complete" : "searches_partial");
            vp_free(a);
            if (LIVE() != live) c.fail("leak", "%zd allocations stay behind after allocation %llu of %llu failed%s while %s", (ssize_t)(LIVE() - live), (unsigned long long)p, (unsigned long long)n, from ? " and all later ones" : "", what);
            if (A.bad_frees) c.fail("released-twice", "%s with allocation %llu failing", what, (unsigned long long)p);
            if (!(snapshot(k, 0, *reg) == s0)) c.fail("hierarchy-changed", "%s with allocation %llu failing", what, (unsigned long long)p);
            if (c.failed()) break;
        }
        if (c.failed()) break;
        void **a = run(&len); bool full = len == want.size(); for (unsigned i = 0; full && i < len; i++) full = a[i] == (void *)want[i]->ptr; vp_free(a);
        if (!full) c.fail("not-usable", "%s after memory shortages is incomplete", what);
    }
    c.sample("searches in " + describe(*t, 300));
    drop(k, *reg);
}
static void c08_edit(Ctx &c) {   // construction under shortage
    Rng &r = c.rng; RegP reg = reg_default(); GenOpt o; size_t base = LIVE();
    std::vector<NodeP> forest, every; std::string hist; int nops = 8 + (int)r.below(30);
    int prob = 1 + (int)r.below(4);
    for (int i = 0; i < nops && !c.failed(); i++) {
        D.reset(); size_t live = LIVE(); bool inject = r.chance((u32)prob, 4); u64 at = inject ? 1 + r.below(3) : 0; bool from = r.chance(1, 2);
        const char *what = ""; bool reported = false; u64 failed = 0; int w = (int)r.below(10);
        if (w < 4 || forest.size() < 2) {
            HKind kind = r.chance(1, 3) ? H_RAW : (HKind)(H_FORM + r.below(4)); NodeP n = mknode(kind, r.chance(1, 3) ? ID_JJJJ : gen_formtype(r, *reg));
            if (kind == H_RAW) { n->id = gen_dataid(r, o); n->size = (int)r.below(40); n->data = gen_data(r, (u32)n->size); }
            IFF_Chunk *k; int how = (int)r.below(3); int32_t sz = how == 1 && r.chance(1, 3) ? (int32_t)r.below(100) : 4; if (kind != H_RAW) n->size = sz; what = "creating";
            alloc_fail(at, from);
            switch (kind) {
            case H_RAW: k = IFF_createRawChunk(n->id, n->size); break;
            case H_FORM: k = how == 0 ? (IFF_Chunk *)IFF_createEmptyForm(n->gtype) : how == 1 ? (IFF_Chunk *)IFF_createForm(sz, n->gtype) : (IFF_Chunk *)IFF_createEmptyGroup(ID_FORM, n->gtype); break;
            case H_CAT: if (how == 0) n->gtype = ID_JJJJ; k = how == 0 ? (IFF_Chunk *)IFF_createEmptyCAT() : how == 1 ? (IFF_Chunk *)IFF_createCAT(sz, n->gtype) : (IFF_Chunk *)IFF_createEmptyCATWithContentsType(n->gtype); break;
            case H_LIST: if (how == 0) n->gtype = ID_JJJJ; k = how == 0 ? (IFF_Chunk *)IFF_createEmptyList() : how == 1 ? (IFF_Chunk *)IFF_createList(sz, n->gtype) : (IFF_Chunk *)IFF_createEmptyListWithContentsType(n->gtype); break;
            default: k = how == 0 ? (IFF_Chunk *)IFF_createEmptyProp(n->gtype) : (IFF_Chunk *)IFF_createProp(sz, n->gtype); break;
            }
            failed = A.failed; alloc_nofail(); reported = !k; hist += k ? "new " : "new! ";
            if (k) { if (kind == H_RAW) IFF_copyDataToRawChunkData((IFF_RawChunk *)k, (IFF_UByte *)n->data.data()); n->ptr = k; forest.push_back(n); every.push_back(n); }
            else if (LIVE() != live) c.fail("leak", "a failed creation leaves %zd allocations behind; %s", (ssize_t)(LIVE() - live), hist.c_str());
        } else if (w < 8) {
            size_t ci = r.below((u32)forest.size()); NodeP ch = forest[ci];
            std::vector<Node *> gs; for (auto &e : every) if (e->is_group() && !node_inside(e.get(), ch.get())) gs.push_back(e.get());
            if (gs.empty()) continue;
            Node *g = r.pick(gs); bool prop = ch->kind == H_PROP && g->kind == H_LIST; bool ok; u32 gt0 = ((IFF_Group *)g->ptr)->groupType; bool attach = false, upd = false; int how = (int)r.below(4); what = "adding";
            alloc_fail(at, from);
            if (prop) ok = IFF_addPropToList((IFF_List *)g->ptr, (IFF_Prop *)ch->ptr);
            else if (how == 0) { attach = true; ok = IFF_attachToGroup((IFF_Group *)g->ptr, ch->ptr); }
            else if (how == 1) ok = IFF_addToGroup((IFF_Group *)g->ptr, ch->ptr);
            else if (how == 2 && (g->kind == H_CAT || g->kind == H_LIST) && ch->kind >= H_FORM && ch->kind != H_PROP) { upd = true; ok = g->kind == H_CAT ? IFF_addToCATAndUpdateContentsType((IFF_CAT *)g->ptr, ch->ptr) : IFF_addToListAndUpdateContentsType((IFF_List *)g->ptr, ch->ptr); }
            else ok = g->kind == H_FORM ? IFF_addToForm((IFF_Form *)g->ptr, ch->ptr) : g->kind == H_CAT ? IFF_addToCAT((IFF_CAT *)g->ptr, ch->ptr) : g->kind == H_LIST ? IFF_addToList((IFF_List *)g->ptr, ch->ptr) : IFF_addToProp((IFF_Prop *)g->ptr, ch->ptr);
            failed = A.failed; alloc_nofail(); reported = !ok; hist += strf("%s%s ", prop ? "addProp" : upd ? "addUpdate" : attach ? "attach" : "add", ok ? "" : "!");
            if (ok) { (prop ? g->props : g->kids).push_back(ch); ch->parent = g; if (!attach) g->size += 8 + (int32_t)padded((u32)ch->size); g->gtype = ((IFF_Group *)g->ptr)->groupType; forest.erase(forest.begin() + (long)ci); }
            else {
                if (((IFF_Group *)g->ptr)->groupType != gt0) c.fail("hierarchy-changed", "a failed addition changes the group type; %s", hist.c_str());
            }
        } else {
            std::vector<Node *> raws; for (auto &e : every) if (e->kind == H_RAW) raws.push_back(e.get());
            if (raws.empty()) continue;
            Node *n = r.pick(raws); Bytes s = gen_data(r, r.below(60)); for (auto &ch : s) if (!ch) ch = 'y'; what = "setting text";
            alloc_fail(at, from); bool ok = IFF_setTextData((IFF_RawChunk *)n->ptr, s.c_str()); failed = A.failed; alloc_nofail(); reported = !ok; hist += ok ? "text " : "text! ";
            if (ok) { n->data = s; n->size = (int32_t)s.size(); }
        }
        c.evaluations++; c.count("edits_under_shortage"); if (failed) { c.count("allocations_failed", failed); c.count(reported ? "edits_failed" : "edits_completed_without"); }
        if (reported && !failed) c.fail("fails-without-cause", "%s fails although no allocation failed; %s", what, hist.c_str());
        for (auto &t : forest) { std::string d = differs(*t, 0, *reg); if (!d.empty()) { c.fail("hierarchy-changed", "after %s (%llu allocations failed, %s) a hierarchy is not what it should be: %s; %s", what, (unsigned long long)failed, reported ? "reported" : "not reported", d.c_str(), hist.c_str()); break; } }
        if (A.bad_frees) c.fail("released-twice", "%s", hist.c_str());
    }
    for (auto &t : forest) c.cover(mix(shape(*t), hash_str(hist)));
    // what exists stays usable: it can be completed, written and read
    for (auto &t : forest) if (!c.failed() && (t->kind == H_FORM || t->kind == H_CAT || t->kind == H_LIST)) {
        for (Node *n : all_nodes(*t)) if (n->kids.empty() && n->props.empty()) IFF_updateChunkSizes(n->ptr);
        NodeP now = observe(t->ptr, 0, *reg); bool ok; Bytes w = lib_write(t->ptr, *reg, &ok); if (!ok || w != encode(*now)) c.fail("not-usable", "a hierarchy built under shortage cannot be written; %s", hist.c_str());
    }
    c.sample(hist);
    for (auto &t : forest) drop(t->ptr, *reg);
    if (LIVE() != base && !c.failed()) c.fail("leak", "%zd allocations remain after everything was freed; %s", (ssize_t)(LIVE() - base), hist.c_str());
}
static void c08_inspect(Ctx &c) {   // operations that need no memory of the library, or report that they could not do without
    Rng &r = c.rng; RegP reg = pick_reg(r); GenOpt o; o.big = false; o.budget = 15;
    NodeP t = gen_any(c, *reg, o); IFF_Chunk *k = build(*t, *reg, r); NodeP t2 = r.chance(1, 2) ? clone(*t) : gen_any(c, *reg, o); set_parents(*t2); IFF_Chunk *k2 = build(*t2, *reg, r);
    c.witness = encode(*t, true); c.cover(shape(*t)); Snap s0 = snapshot(k, 0, *reg); bool small = encode(*t).size() < 6000;
    bool okw, okc = IFF_check(k, reg->lib()), eq = IFF_compare(k, k2, reg->lib()); Bytes w = lib_write(k, *reg, &okw), pr; if (small) { CaptureStdout cap; IFF_print(k, 1, reg->lib()); pr = cap.finish(); }
    for (u64 at = 1; at <= 3; at++) for (int from = 0; from < 2; from++) {
        size_t live = LIVE(); u64 f1; bool b;
        alloc_fail(at, from); b = IFF_check(k, reg->lib()); f1 = A.failed; alloc_nofail(); if (b != okc && !(f1 && !b)) c.fail("wrong-verdict", "the check says %d under memory shortage", b);
        alloc_fail(at, from); b = IFF_compare(k, k2, reg->lib()); f1 = A.failed; alloc_nofail(); if (b != eq && !(f1 && !b)) c.fail("wrong-verdict", "the comparison says %d under memory shortage", b);
        { WStream ws; FILE *f = ws.open(); alloc_fail(at, from); b = IFF_writeFd(f, k, reg->lib()); f1 = A.failed; alloc_nofail(); fclose(f); if (b ? ws.out != w : !f1) c.fail("wrong-write", "writing under memory shortage reports %d with %zu of %zu bytes", b, ws.out.size(), w.size()); }
        { WStream ws; VFile v; v.w = &ws; vfiles["vp:out"] = &v; alloc_fail(at, from); b = IFF_write("vp:out", k, reg->lib()); f1 = A.failed; alloc_nofail(); vfiles.erase("vp:out"); if (b ? ws.out != w : !f1) c.fail("wrong-write", "writing to a file under memory shortage reports %d with %zu of %zu bytes", b, ws.out.size(), w.size()); }
        if (small) { CaptureStdout cap; alloc_fail(at, from); IFF_print(k, 1, reg->lib()); f1 = A.failed; alloc_nofail(); Bytes p2 = cap.finish(); if (!f1 && p2 != pr) c.fail("wrong-print", "printing under memory shortage"); }
        std::vector<Node *> forms; for (Node *n : all_nodes(*t)) if (n->kind == H_FORM) forms.push_back(n);
        if (!forms.empty()) { Node *n = r.pick(forms); Node *want = nullptr; u32 id = n->kids.empty() ? mkid("NAME") : r.pick(n->kids)->id; want = ref_lookup(*n, id); alloc_fail(at, from); IFF_Chunk *got = IFF_getDataChunkFromForm((IFF_Form *)n->ptr, id), *g2 = IFF_getChunkFromForm((IFF_Form *)n->ptr, id); f1 = A.failed; alloc_nofail(); (void)g2; if (!n->kids.empty() && got != (want ? want->ptr : nullptr) && !(f1 && !got)) c.fail("wrong-match", "lookup under memory shortage"); }
        if (LIVE() != live) c.fail("leak", "inspecting under memory shortage leaves %zd allocations behind", (ssize_t)(LIVE() - live));
        if (!(snapshot(k, 0, *reg) == s0)) c.fail("hierarchy-changed", "inspecting under memory shortage");
        c.evaluations++; c.count("inspections_under_shortage");
    }
    size_t live = LIVE(); size_t n = all_nodes(*t).size();
    alloc_fail(1, true); IFF_updateChunkSizes(k); IFF_free(k, reg->lib()); alloc_nofail();
    if (LIVE() + n > live) c.fail("leak", "freeing under memory shortage");
    drop(k2, *reg);
}
static void c08(Ctx &c) { switch (c.rng.below(8)) { case 0: case 1: case 2: c08_read(c); break; case 3: case 4: c08_search(c); break; case 5: case 6: c08_edit(c); break; default: c08_inspect(c); } }
static RegisterCheck r08("C08", c08, 110000, 400000);

// ---------------------------------------------------------------- C14
static void c14(Ctx &c) {
    Rng &r = c.rng;
    bool vast = r.chance(1, 120); RegP reg = !vast && r.chance(1, 8) ? pick_reg(r) : reg_random(r, r.chance(7, 8), vast); if (vast) c.count("registries_of_hundreds_of_types");
    // which handler is found, by identity
    std::vector<u32> ids, fts; for (auto &s : reg->scopes) for (auto &t : s.types) ids.push_back(t.first);
    for (u32 x : {ID_FORM, ID_CAT, ID_LIST, ID_PROP, ID_FILLER, mkid("NONE"), (u32)0, (u32)0xffffffffu, (u32)r.next(), gen_dataid(r, GenOpt())}) ids.push_back(x);
    for (auto &f : reg->forms) fts.push_back(f.first);
    for (u32 x : {(u32)0, ID_JJJJ, mkid("ZZZZ"), (u32)0xffffffffu, (u32)r.next(), gen_formtype(r, *reg)}) fts.push_back(x);
    { size_t n = ids.size(); for (size_t i = 0; i < n; i++) if (r.chance(1, 6)) { ids.push_back(ids[i] + 1); ids.push_back(ids[i] - 1); } n = fts.size(); for (size_t i = 0; i < n; i++) if (r.chance(1, 6)) fts.push_back(fts[i] ^ 1); }
    // a registry that lives where another one was before
    static IFF_ChunkRegistry here; static IFF_ChunkTypesNode herenode; here = *reg->libx(); if (here.globalChunkTypesNode && r.chance(2, 3)) { herenode = *here.globalChunkTypesNode; here.globalChunkTypesNode = &herenode; }
    {   // registries taking turns at one address, the same chunks looked up again and again
        RegP other = r.chance(1, 8) ? pick_reg(r) : reg_random(r, r.chance(7, 8)); bool use = r.chance(1, 2); u32 ft = 0, id = 0;
        for (auto &s : other->scopes) for (auto &t : s.types) ids.push_back(t.first);
        auto move_in = [&](const RegP &g) { here = *g->libx(); if (here.globalChunkTypesNode && r.chance(2, 3)) { herenode = *here.globalChunkTypesNode; here.globalChunkTypesNode = &herenode; } };
        for (int q = 0; q < 40; q++) {
            if (q == 0 || r.chance(1, 2)) { use = !use; move_in(use ? reg : other); }
            if (q == 0 || r.chance(1, 2)) { ft = r.pick(fts); id = r.pick(ids); }
            c.count("lookups");
            if (IFF_findChunkType(&here, ft, id) != (use ? reg : other)->lib_type(ft, id)) { c.fail("wrong-handler-reused-registry", "chunk '%s' in a group of type '%s': another handler is found in a registry at an address that was used before", id_str(id).c_str(), id_str(ft).c_str()); return; }
        }
        move_in(reg);
    }
    for (u32 ft : fts) for (u32 id : ids) {
        if (IFF_findChunkType(&here, ft, id) != reg->lib_type(ft, id)) { c.fail("wrong-handler-reused-registry", "chunk '%s' in a group of type '%s': another handler is found in a registry at an address that was used before", id_str(id).c_str(), id_str(ft).c_str()); return; }
        const IFF_ChunkType *want = reg->lib_type(ft, id), *got = IFF_findChunkType(reg->libx(), ft, id); c.count("lookups");
        if (want != got) { c.fail("wrong-handler", "chunk '%s' in a group of type '%s': %s handler found instead of %s", id_str(id).c_str(), id_str(ft).c_str(), got == reg->libx()->defaultChunkType ? "the default" : "another", want == reg->libx()->defaultChunkType ? "the default one" : "the registered one"); return; }
    }
    GenOpt o; o.big = r.chance(1, 20); o.budget = 20; o.pads = r.chance(1, 4); o.ext_valid = r.chance(2, 3);
    bool conform = r.chance(2, 3); NodeP t = conform ? gen_tree(r, *reg, o) : loosen(c, gen_tree(r, *reg, o), *reg);
    Bytes in = encode(*t, true); c.witness = in; c.cover(mix(shape(*t), hash_bytes(reg.get(), 0, (u64)reg->scopes.size() * 131 + ids.size())));
    std::vector<HEvent> log; auto v = all_nodes(*t);
    bool instrumented = !reg->isNull && !reg->scopes[0].lib;   // otherwise group chunks use the library's own entries
    auto logged = [&](const Node *n) { return instrumented || n->kind == H_EXT; };
    auto expect = [&](const char *what, char op, Node &root, bool complete) {   // every chunk below root handled by its own handler, once
        std::map<const void *, const Node *> by; for (Node *n : all_nodes(root)) by[n->ptr] = n;
        std::map<const void *, int> seen; c.evaluations++;
        for (auto &e : log) {
            if (e.op != op) { c.fail("foreign-operation", "%s calls handler function '%c'", what, e.op); return; }
            auto it = by.find(e.chunk); c.count("handler_calls");
            if (it == by.end()) { c.fail("foreign-chunk", "%s calls a handler for something that is not a chunk of the hierarchy", what); return; }
            if (it->second->slot != e.slot) { c.fail("wrong-handler", "%s handles '%s' in '%s' with handler %d instead of %d", what, id_str(it->second->id).c_str(), id_str(scope_of(*it->second)).c_str(), e.slot, it->second->slot); return; }
            if (++seen[e.chunk] > 1) { c.fail("handled-twice", "%s handles '%s' in '%s' more than once", what, id_str(it->second->id).c_str(), id_str(scope_of(*it->second)).c_str()); return; }
        }
        if (complete) for (auto &b : by) if (logged(b.second) && !seen.count(b.first) && !(reg->isNull)) { c.fail("not-handled", "%s does not use the handler of '%s' in '%s'", what, id_str(b.second->id).c_str(), id_str(scope_of(*b.second)).c_str()); return; }
    };
    auto read_logged = [&](const Bytes &b) { log.clear(); hlog = &log; IFF_Chunk *k = lib_read(b, *reg, r); hlog = nullptr; return k; };
    IFF_Chunk *k = read_logged(in); std::vector<HEvent> rl = log;
    if (!k) { c.fail("not-read", "%s: %s", describe(*t, 200).c_str(), D.text.c_str()); return; }
    std::string why; if (!same(*t, *observe(k, 0, *reg), &why)) { c.fail("read-differs", "%s", why.c_str()); drop(k, *reg); return; }
    tie(*t, k);
    for (char op : {'N', 'R'}) {   // (groups of fewer than four bytes are created and read by their handler as well)
        log.clear(); for (auto &e : rl) if (e.op == op) log.push_back(e);
        expect(op == 'N' ? "creating while reading" : "reading", op, *t, true);
    }
    for (auto &e : rl) if (e.op != 'N' && e.op != 'R') c.fail("foreign-operation", "reading calls handler function '%c'", e.op);
    IFF_Chunk *k2; NodeP t2 = clone(*t); set_parents(*t2); k2 = r.chance(1, 2) ? build(*t2, *reg, r) : lib_read(in, *reg, r); if (k2) tie(*t2, k2);
    int order = (int)r.below(24);
    for (int i = 0; i < 5 && !c.failed(); i++) {
        Node *n = r.chance(1, 2) ? t.get() : r.pick(v); bool top = n == t.get() && r.chance(1, 2); u32 sc = scope_of(*n); log.clear(); D.reset();
        switch ((i + order) % 5) {
        case 0: { WStream w; FILE *f = w.open(); hlog = &log; bool ok = top ? IFF_writeFd(f, k, reg->lib()) : IFF_writeChunk(f, n->ptr, sc, reg->libx()); hlog = nullptr; fclose(f); if (!ok) c.fail("not-written", "%s", D.text.c_str()); expect("writing", 'W', *n, true); break; }
        case 1: { hlog = &log; bool ok = top ? IFF_check(k, reg->lib()) : IFF_checkChunk(n->ptr, sc, reg->libx()); hlog = nullptr; expect("checking", 'C', *n, ok); c.count(ok ? "checks_passed" : "checks_failed"); break; }
        case 2: { CaptureStdout cap; hlog = &log; if (top) IFF_print(k, 0, reg->lib()); else IFF_printChunk(n->ptr, r.below(3), sc, reg->libx()); hlog = nullptr; cap.finish(); expect("printing", 'P', *n, true); break; }
        case 3: if (k2) {
            auto v2 = all_nodes(*t2); size_t at = 0; while (v[at] != n) at++; Node *m = v2[at];
            hlog = &log; bool eq = top ? IFF_compare(k, k2, reg->lib()) : IFF_compareChunk(n->ptr, m->ptr, sc, reg->libx()); hlog = nullptr;
            if (!eq) c.fail("not-equal", "two copies of %s differ", describe(*n, 200).c_str());
            std::vector<HEvent> all = log, a, b; std::set<const void *> mine; for (Node *x : all_nodes(*n)) mine.insert(x->ptr);
            for (auto &e : all) (mine.count(e.chunk) ? a : b).push_back(e);
            log = a; expect("comparing (first)", '=', *n, true); log = b; expect("comparing (second)", '=', *m, true);
            break; }
            break;
        default: {   // a change somewhere: the comparison stops early, but never uses another handler
            std::vector<Node *> raws; for (Node *x : v) if (x->kind == H_RAW && x->size > 0) raws.push_back(x);
            if (raws.empty() || !k2) break;
            Node *x = r.pick(raws); ((IFF_RawChunk *)x->ptr)->chunkData[0] ^= 1; hlog = &log; bool eq = IFF_compare(k, k2, reg->lib()); hlog = nullptr; ((IFF_RawChunk *)x->ptr)->chunkData[0] ^= 1;
            if (eq) c.fail("equal", "a changed byte is not noticed");
            std::vector<HEvent> all = log, a, b; std::set<const void *> mine; for (Node *y : v) mine.insert(y->ptr);
            for (auto &e : all) (mine.count(e.chunk) ? a : b).push_back(e);
            log = a; expect("comparing different hierarchies", '=', *t, false); log = b; expect("comparing different hierarchies", '=', *t2, false);
        }
        }
    }
    log.clear(); hlog = &log; if (r.chance(1, 2)) IFF_free(k, reg->lib()); else IFF_freeChunk(k, 0, reg->libx()); hlog = nullptr;
    expect("freeing", 'F', *t, true);
    drop(k2, *reg);
    // failed reads: what was created is freed by the handler that created it, once
    for (int i = 0; i < 3 && !c.failed(); i++) {
        Bytes b = in; if (r.chance(2, 3)) b.resize(r.below((u32)b.size())); else b = mutate(r, b, nullptr);
        if (r.chance(1, 3)) { alloc_fail(1 + r.below(6 + 4 * (u32)v.size()), r.chance(1, 3)); k = read_logged(b); c.count("reads_under_shortage"); if (A.failed) c.count("reads_that_ran_short"); alloc_nofail(); } else k = read_logged(b);
        bool failed = !k; if (k) { hlog = &log; IFF_free(k, reg->lib()); hlog = nullptr; }
        std::map<const void *, int> live; c.evaluations++; c.count(failed ? "failed_reads" : "odd_reads"); c.witness = b;
        for (auto &e : log) {
            c.count("handler_calls");
            if (e.op == 'N') { if (!e.chunk) continue; if (live.count(e.chunk)) { c.fail("leak", "a chunk was not freed by its handler"); break; } live[e.chunk] = e.slot; }
            else if (!live.count(e.chunk)) { c.fail("foreign-chunk", "handler function '%c' for a chunk that no handler created (or that is freed already)", e.op); break; }
            else if (live[e.chunk] != e.slot) { c.fail("wrong-handler", "handler function '%c' of another handler than the one that created the chunk", e.op); break; }
            else if (e.op == 'F') live.erase(e.chunk);
        }
        if (!live.empty() && !c.failed()) c.fail("not-freed", "%zu chunks created by handlers are not freed by them after %s", live.size(), failed ? "a failed read" : "freeing the hierarchy");
    }
    c.sample(strf("registry with %zu scopes, %zu form types; %s", reg->scopes.size(), reg->forms.size(), describe(*t, 300).c_str()));
}
static RegisterCheck r14("C14", c14, 60000, 400000);

// ---------------------------------------------------------------- tools
struct Run { int status = -1; bool timeout = false; Bytes out, err; bool ok() const { return WIFEXITED(status) && WEXITSTATUS(status) == 0; } bool crashed() const { return timeout || (WIFSIGNALED(status) && WTERMSIG(status) != SIGPIPE) || (WIFEXITED(status) && WEXITSTATUS(status) == 99); } };
enum OutKind { OUT_FILE, OUT_PIPE, OUT_FULL, OUT_CLOSED, OUT_BROKEN, OUT_SLOW /* a small non-blocking pipe that is read late: some writes fail, later ones pass */ };
static rlim_t file_limit = RLIM_INFINITY;   // for the spawned tool: files cannot grow beyond this
enum InKind { IN_FILE, IN_PIPE, IN_CLOSED, IN_NULL };
static Run spawn(const std::vector<std::string> &args, OutKind ok, InKind ik, const Bytes &input, const std::string &cwd) {
    Run r; std::string of = cwd + "/.out", ef = cwd + "/.err", nf = cwd + "/.in"; int p[2] = {-1, -1}, q[2] = {-1, -1};
    posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_addchdir_np(&fa, cwd.c_str());
    if (ik == IN_PIPE && input.size() > 60000) ik = IN_FILE;
    if (ik == IN_FILE) { spit(nf, input); posix_spawn_file_actions_addopen(&fa, 0, nf.c_str(), O_RDONLY, 0); }
    else if (ik == IN_PIPE) { if (pipe2(p, O_CLOEXEC)) harness_die("scratch directory or pipe"); if (write(p[1], input.data(), input.size()) < 0) harness_die("scratch directory or pipe"); close(p[1]); posix_spawn_file_actions_adddup2(&fa, p[0], 0); }
    else if (ik == IN_NULL) posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
    else posix_spawn_file_actions_addclose(&fa, 0);
    if (ok == OUT_FILE) posix_spawn_file_actions_addopen(&fa, 1, of.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    else if (ok == OUT_FULL) posix_spawn_file_actions_addopen(&fa, 1, full_device().c_str(), O_WRONLY, 0);
    else if (ok == OUT_CLOSED) posix_spawn_file_actions_addclose(&fa, 1);
    else { if (pipe2(q, O_CLOEXEC)) harness_die("scratch directory or pipe"); if (ok == OUT_BROKEN) close(q[0]); if (ok == OUT_SLOW) { fcntl(q[1], F_SETPIPE_SZ, 4096); fcntl(q[1], F_SETFL, fcntl(q[1], F_GETFL) | O_NONBLOCK); } posix_spawn_file_actions_adddup2(&fa, q[1], 1); }
    posix_spawn_file_actions_addopen(&fa, 2, ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    posix_spawnattr_t at; posix_spawnattr_init(&at); sigset_t d; sigemptyset(&d); sigaddset(&d, SIGPIPE); posix_spawnattr_setsigdefault(&at, &d); posix_spawnattr_setflags(&at, POSIX_SPAWN_SETSIGDEF);
    std::vector<char *> av; for (auto &a : args) av.push_back((char *)a.c_str()); av.push_back(nullptr);
    static std::vector<std::string> es; static std::vector<char *> ev;
    if (ev.empty()) { for (char **e = environ; *e; e++) if (strncmp(*e, "ASAN_OPTIONS=", 13) && strncmp(*e, "UBSAN_OPTIONS=", 14)) es.push_back(*e); es.push_back("ASAN_OPTIONS=allocator_may_return_null=1:detect_leaks=0:exitcode=99"); es.push_back("UBSAN_OPTIONS=exitcode=99:print_stacktrace=1"); for (auto &e : es) ev.push_back((char *)e.c_str()); ev.push_back(nullptr); }
    struct rlimit lim, old; getrlimit(RLIMIT_FSIZE, &old); lim = old; if (file_limit != RLIM_INFINITY) { signal(SIGXFSZ, SIG_IGN); lim.rlim_cur = file_limit; setrlimit(RLIMIT_FSIZE, &lim); }
    pid_t pid; int e = posix_spawn(&pid, av[0], &fa, &at, av.data(), ev.data());
    if (file_limit != RLIM_INFINITY) setrlimit(RLIMIT_FSIZE, &old);
    posix_spawn_file_actions_destroy(&fa); posix_spawnattr_destroy(&at);
    if (p[0] >= 0) close(p[0]);
    if (q[1] >= 0) close(q[1]);
    if (e) { harness_die("cannot spawn a tool"); }
    double waited = 0; bool drained = !(ok == OUT_PIPE || ok == OUT_SLOW);
    if (ok == OUT_SLOW) for (int i = 0; i < 40; i++) { int have = 0; ioctl(q[0], FIONREAD, &have); if (have >= 4096) { usleep(1500); break; } if (waitid(P_PID, (id_t)pid, nullptr, WEXITED | WNOHANG | WNOWAIT) == 0 && i > 30) break; usleep(500); }
    if (!drained) { char buf[65536]; ssize_t n; while ((n = read(q[0], buf, sizeof buf)) > 0) { r.out.append(buf, (size_t)n); if (r.out.size() > (64u << 20)) { kill(pid, SIGKILL); break; } } close(q[0]); }
    for (useconds_t us = 300;;) {
        pid_t w = waitpid(pid, &r.status, WNOHANG);
        if (w == pid) break;
        if (waited > 60) { kill(pid, SIGKILL); waitpid(pid, &r.status, 0); r.timeout = true; break; }
        usleep(us); waited += us / 1e6; if (us < 5000) us += 200;
    }
    if (ok == OUT_FILE) { r.out = slurp(of); unlink(of.c_str()); }
    r.err = slurp(ef); unlink(ef.c_str()); unlink(nf.c_str());
    return r;
}
static std::string run_dir;
static void fresh_dir(Ctx &c) {
    run_dir = scratch_dir + "/t"; mkdir(run_dir.c_str(), 0700);
    DIR *d = opendir(run_dir.c_str()); if (!d) harness_die("scratch directory or pipe"); while (dirent *e = readdir(d)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = run_dir + "/" + n; if (unlink(p.c_str())) rmdir(p.c_str()); } closedir(d);
}
static std::map<std::string, Bytes> dir_state() {
    std::map<std::string, Bytes> m; DIR *d = opendir(run_dir.c_str()); if (!d) harness_die("scratch directory or pipe");
    while (dirent *e = readdir(d)) { std::string n = e->d_name; if (n == "." || n == ".." || n == ".out" || n == ".err" || n == ".in") continue; struct stat st; if (stat((run_dir + "/" + n).c_str(), &st)) continue; m[n] = S_ISDIR(st.st_mode) ? Bytes("(directory)") : slurp(run_dir + "/" + n); }
    closedir(d); return m;
}
static std::string show_args(const std::vector<std::string> &a) { std::string s; for (size_t i = 0; i < a.size(); i++) s += (i ? " '" + a[i] + "'" : a[i].substr(a[i].rfind('/') + 1)); return s; }
static const char *file_names[] = {"a.iff", "b.IFF", "with space.iff", "%s%n%d.iff", "x", "'quoted'.iff", "\xc3\xa9.iff", "a-very-long-name-aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa.iff"};
// one input file with what should become of it
struct Input { Bytes bytes; NodeP tree; bool readable = false, valid = false; const char *kind = ""; };
static Input gen_input(Ctx &c, const RegModel &reg, bool mostly_valid, bool large = false) {
    Rng &r = c.rng; Input in; GenOpt o; o.big = large || r.chance(1, 12); o.budget = large ? 60 : r.chance(1, 4) ? 30 : 8; o.surplus = false;
    int w = (int)r.below(mostly_valid ? 30 : 12);
    NodeP t = gen_tree(r, reg, o);
    if (w == 0) { in.bytes = gen_hostile(r, reg); in.kind = "hostile"; }
    else if (w == 1) { in.bytes = encode(*t, true); in.bytes.resize(r.below((u32)in.bytes.size())); in.kind = "truncated"; }
    else if (w == 2) { in.bytes = encode(*loosen(c, t, reg), true); in.kind = "loosened"; }
    else if (w == 3) { in.bytes = mutate(r, encode(*t, true), nullptr); in.kind = "mutated"; }
    else if (w == 4) { in.bytes = encode(*t, true) + gen_data(r, 1 + r.below(9)); in.kind = "trailing"; }
    else if (w == 5) { o.pads = true; t = gen_tree(r, reg, o); in.bytes = encode(*t, true); in.kind = "pads"; }
    else if (w == 6) { auto q = mknode(r.chance(1, 2) ? H_PROP : H_RAW, gen_formtype(r, reg)); if (q->kind == H_RAW) { q->id = mkid("BODY"); q->size = (int)r.below(9); q->data = gen_data(r, (u32)q->size); } in.bytes = encode(*q, true); in.kind = "not a main chunk"; }
    else { in.bytes = encode(*t, true); in.kind = "valid"; }
    Parse p = ref_parse(in.bytes, reg); in.readable = p.status == Parse::OK; if (in.readable) { set_parents(*p.top); in.tree = p.top; in.valid = ref_check(*p.top, true); }
    return in;
}

// ---------------------------------------------------------------- C18
static void c18(Ctx &c) {
    Rng &r = c.rng; RegP reg = reg_default(); fresh_dir(c);
    bool large = r.chance(1, 20); Input in = gen_input(c, *reg, large, large); c.witness = in.bytes; c.cover(hash_str(in.bytes));
    bool nocheck = r.chance(2, 5), from_stdin = r.chance(1, 3); std::string name = file_names[r.below(8)];
    if (from_stdin == false) spit(run_dir + "/" + name, in.bytes);
    std::vector<std::string> args = {tool_iffpp}; bool before = r.chance(2, 3);
    if (nocheck && before) for (int i = r.chance(1, 5) ? 2 : 1; i > 0; i--) args.push_back(r.chance(1, 2) ? "-c" : "--disable-check");
    InKind ik = IN_NULL; bool exists = true;
    if (!from_stdin) {
        if (r.chance(1, 12)) { int z = (int)r.below(3); name = z == 0 ? "missing.iff" : z == 1 ? "nowhere/x.iff" : ""; exists = false; }
        else if (r.chance(1, 20)) { name = "."; exists = false; }
        else if (r.chance(1, 3)) name = run_dir + "/" + name;
        else if (r.chance(1, 8)) { unlink((run_dir + "/" + name).c_str()); name = "/dev/stdin"; }
        if (name[0] == '-') name = "./" + name;
        args.push_back(name); ik = r.chance(1, 4) ? IN_CLOSED : IN_NULL; if (!exists && r.chance(1, 2)) ik = IN_FILE; if (name == "/dev/stdin") { ik = r.chance(3, 4) ? IN_PIPE : IN_FILE; c.count("named_pipe"); }   // a named file that cannot be read is not replaced by the standard input
    } else { ik = r.chance(1, 2) ? IN_PIPE : IN_FILE; if (r.chance(1, 16)) { ik = r.chance(1, 2) ? IN_CLOSED : IN_NULL; exists = false; } }
    if (nocheck && !before) args.push_back(r.chance(1, 2) ? "-c" : "--disable-check");
    OutKind ok = OUT_FILE; int w = (int)r.below(12); if (w == 0 && !full_device().empty()) ok = OUT_FULL; else if (w == 1) ok = OUT_CLOSED; else if (w == 2) ok = OUT_BROKEN; else if (w < 6) ok = OUT_PIPE;
    bool unsure = false; std::string want; bool good = exists && in.readable && (nocheck || in.valid); if (good) ref_print(*in.tree, 0, want);
    if (r.chance(large ? 2 : 1, 3) && want.size() > 4500) { unsure = true; ok = r.chance(2, 3) ? OUT_SLOW : OUT_FILE; if (ok == OUT_FILE) file_limit = r.chance(1, 2) ? 1 + r.below((u32)want.size() - 1) : r.chance(1, 2) ? want.size() - 1 : 4096; }
    auto files = dir_state();
    Run run = spawn(args, ok, ik, in.bytes, run_dir); c.evaluations++; bool limited = file_limit != RLIM_INFINITY; file_limit = RLIM_INFINITY;
    bool deliver = ok == OUT_FILE || ok == OUT_PIPE; std::string what = strf("%s (%s%s, %s input, stdout %s)", show_args(args).c_str(), exists ? "" : "missing, ", from_stdin ? "standard input" : "file", in.kind, ok == OUT_FULL ? "full" : ok == OUT_CLOSED ? "closed" : ok == OUT_BROKEN ? "broken pipe" : "fine");
    c.count(good ? deliver ? "to_print" : "undeliverable" : "to_reject"); c.count(strf("input %s", in.kind).c_str());
    if (run.crashed()) { c.fail(run.timeout ? "hang" : "crash", "%s: %s %d: %s", what.c_str(), run.timeout ? "killed after 60 s" : "status", run.status, run.err.substr(0, 1500).c_str()); return; }
    if (unsure) {   // an output that takes some of it: success means that all of it arrived
        c.count(limited ? "output_limited" : run.ok() ? "output_slow_delivered" : "output_slow_failed");
        if (run.ok() ? limited || run.out != want : false) c.fail("success-without-delivery", "%s succeeds while %zu of %zu bytes arrive (%s)", what.c_str(), run.out.size(), want.size(), limited ? "limited file size" : "output not ready for a while");
        else if (!run.ok() && run.err.empty() && !WIFSIGNALED(run.status)) c.fail("silent-failure", "%s fails without explanation", what.c_str());
    } else if (good && deliver) {
        if (!run.ok()) c.fail("valid-rejected", "%s exits with status %x: %s", what.c_str(), run.status, run.err.substr(0, 300).c_str());
        else if (run.out != want) { size_t i = 0; while (i < want.size() && i < run.out.size() && want[i] == run.out[i]) i++; c.fail("wrong-output", "%s prints %zu bytes instead of %zu, differing at %zu: ...%s... instead of ...%s...", what.c_str(), run.out.size(), want.size(), i, run.out.substr(i > 20 ? i - 20 : 0, 60).c_str(), want.substr(i > 20 ? i - 20 : 0, 60).c_str()); }
    } else {
        if (run.ok()) c.fail("failure-not-reported", "%s exits with success (readable %d, conforming %d)", what.c_str(), in.readable, in.valid);
        else if (run.err.empty() && !WIFSIGNALED(run.status)) c.fail("silent-failure", "%s fails without explanation", what.c_str());
        if (!good && !run.out.empty()) c.fail("rejected-but-printed", "%s prints %s", what.c_str(), run.out.substr(0, 200).c_str());
    }
    if (dir_state() != files) c.fail("files-changed", "%s changes files", what.c_str());
    c.sample(what + strf(" -> %s, %zu bytes", run.ok() ? "success" : "failure", run.out.size()));
}
static RegisterCheck r18("C18", c18, 18000, 60000);

// ---------------------------------------------------------------- C19
static void c19(Ctx &c) {
    Rng &r = c.rng; RegP reg = reg_default(); fresh_dir(c);
    int n = r.chance(1, 20) ? 0 : 1 + (int)r.below(r.chance(1, 10) ? r.chance(1, 3) ? 120 : 20 : 5); if (r.chance(1, 150)) n = 250 + (int)r.below(60); bool all_same = r.chance(1, n > 5 ? 2 : 3), many_valid = n > 5 && r.chance(3, 4); int other_from = all_same && n > 1 && r.chance(1, 2) ? n - 1 - (int)r.below((u32)std::min(n - 1, 3)) : n;   // all of one type up to there
    int bad_at = many_valid && r.chance(1, 2) ? r.chance(1, 2) ? n - 1 : (int)r.below((u32)n) : -1;   // one bad input among many good ones
    std::vector<Input> ins; std::vector<std::string> names; int piped = -1; bool all_ok = n > 0; u32 common = gen_formtype(r, *reg); u64 sig = 7;
    for (int i = 0; i < n; i++) {
        if (i != bad_at && i > 0 && r.chance(1, 8)) { int j = (int)r.below((u32)i); if (names[(size_t)j] == "/dev/stdin") j = 0; ins.push_back(ins[(size_t)j]); names.push_back(names[(size_t)j]); continue; }
        Input in = gen_input(c, *reg, true, r.chance(1, 40));
        for (int tries = 0; many_valid && in.valid == (i == bad_at) && tries < 20; tries++) in = gen_input(c, *reg, i != bad_at, false);
        if (i == bad_at && !in.valid) c.count("one_bad_input_among_many");
        if (all_same && i < other_from && in.valid && !strcmp(in.kind, "valid")) {   // give the main chunks one type
            Node &t = *in.tree;
            if (t.kind == H_FORM) { bool clash = false; for (auto &k : t.kids) (void)k; t.gtype = common; set_ids(t, *reg, 0); if (clash) continue; }
            else { t.gtype = common; bool agree = true; for (auto &k : t.kids) if (k->gtype != common) agree = false; if (!agree) { t.kids.clear(); t.props.clear(); } }
            fix_sizes(t); in.bytes = encode(t, true); Parse p = ref_parse(in.bytes, *reg); in.readable = p.status == Parse::OK; if (in.readable) { set_parents(*p.top); in.tree = p.top; in.valid = ref_check(*p.top, true); }
        }
        std::string nm = strf("%d_", i) + file_names[r.below(8)];
        if (i > 0 && piped < 0 && r.chance(1, 30)) { nm = "/dev/stdin"; piped = i; c.count("named_pipe"); }
        else if (!many_valid && r.chance(1, 40)) { int z = (int)r.below(3); nm = z == 0 ? "missing.iff" : z == 1 ? "." : ""; in = Input(); in.kind = nm == "." ? "directory" : "missing"; }
        else { if (r.chance(1, 60) && std::find(names.begin(), names.end(), "-") == names.end()) nm = "-"; spit(run_dir + "/" + nm, in.bytes); if (nm != "-" && r.chance(1, 4)) nm = run_dir + "/" + nm; }
        ins.push_back(in); names.push_back(nm);
    }
    for (auto &in : ins) { all_ok = all_ok && in.readable && in.valid; sig = mix(sig, hash_str(in.bytes)); c.count(strf("input %s", in.kind).c_str()); }
    Bytes want; u32 ct = 0;
    if (all_ok) {
        auto cat = mknode(H_CAT, ID_JJJJ); std::set<u32> types; for (auto &in : ins) { cat->kids.push_back(in.tree); types.insert(in.tree->gtype); }
        cat->gtype = types.size() == 1 ? *types.begin() : ID_JJJJ; ct = cat->gtype; int64_t s = 4; for (auto &k : cat->kids) s += 8 + padded((u32)k->size); cat->size = (int32_t)s;
        want = encode(*cat, false); c.count(types.size() == 1 ? "common_type" : "different_types");
    }
    // where the output goes
    std::vector<std::string> args = {tool_iffjoin}, opts; OutKind ok = OUT_FILE; bool deliver = true; std::string target; int w = (int)r.below(14); const char *dest = "standard output";
    auto o = [&](const std::string &f) { switch (r.below(3)) { case 0: opts = {"-o", f}; break; case 1: opts = {"--output-file=" + f}; break; default: opts = {"--output-file", f}; } };
    if (w < 3) { target = "new.iff"; o(r.chance(1, 2) ? target : run_dir + "/" + target); dest = "new file"; }
    else if (w < 5) { target = "old.iff"; spit(run_dir + "/" + target, gen_data(r, r.below(3000))); o(target); dest = "existing file"; }
    else if (w < 7 && n > 0) { std::string nm = r.pick(names); size_t sl = nm.rfind('/'); std::string b = sl == std::string::npos ? nm : nm.substr(sl + 1); if (b != "" && b != "." && b != "missing.iff") { target = b; o(target); dest = "an input"; } }
    else if (w == 7) { o("nowhere/out.iff"); deliver = false; dest = "missing directory"; }
    else if (w == 8 && !full_device().empty()) { o(full_device()); deliver = false; dest = "full file"; }
    else if (w == 9 && !full_device().empty()) { ok = OUT_FULL; deliver = false; dest = "full standard output"; }
    else if (w == 10) { ok = r.chance(1, 2) ? OUT_CLOSED : OUT_BROKEN; deliver = false; dest = "closed standard output"; }
    else if (w == 11 && r.chance(1, 3)) { o(""); deliver = false; dest = "empty name"; }
    else if (w == 11) { mkdir((run_dir + "/dir").c_str(), 0700); o("dir"); deliver = false; dest = "directory"; }
    else ok = r.chance(1, 2) ? OUT_PIPE : OUT_FILE;
    if (r.chance(2, 3)) args.insert(args.end(), opts.begin(), opts.end());
    for (auto &nm : names) args.push_back(nm);
    if (args.size() == names.size() + 1) args.insert(args.end(), opts.begin(), opts.end());
    auto files = dir_state();
    bool lure = r.chance(1, 3);   // a readable standard input never replaces a missing file
    bool unsure = false, limited = false;
    if (r.chance(1, 5) && want.size() > 300 && deliver && (target.empty() || dest[0] != 'a')) { unsure = true; if (target.empty() && want.size() > 4500 && r.chance(4, 5)) ok = OUT_SLOW; else { limited = true; file_limit = r.chance(1, 2) ? 1 + r.below((u32)want.size() - 1) : r.chance(1, 2) ? want.size() - 1 : want.size() > 4096 ? 4096 : 256; if (target.empty()) ok = OUT_FILE; } }
    Run run = piped >= 0 ? spawn(args, ok, r.chance(3, 4) ? IN_PIPE : IN_FILE, ins[(size_t)piped].bytes, run_dir) : spawn(args, ok, lure ? IN_FILE : r.chance(1, 4) ? IN_CLOSED : IN_NULL, lure ? Bytes("FORM\0\0\0\4TEST", 12) : Bytes(), run_dir); c.evaluations++; c.cover(mix(sig, hash_str(dest)));
    file_limit = RLIM_INFINITY;
    auto after = dir_state(); std::string what = show_args(args).substr(0, 400) + " to " + dest; c.note = what; c.count(strf("to %s", dest).c_str());
    std::string bad; for (auto &in : ins) if (!in.readable || !in.valid) bad += std::string(in.kind) + " ";
    if (run.crashed()) { c.fail(run.timeout ? "hang" : "crash", "%s: status %x: %s", what.c_str(), run.status, run.err.substr(0, 1500).c_str()); return; }
    if (unsure) {
        c.count(limited ? "output_limited" : run.ok() ? "output_slow_delivered" : "output_slow_failed"); Bytes got = target.empty() ? run.out : after[target];
        if (run.ok() && (limited || got != want)) c.fail("success-without-delivery", "%s succeeds while %zu of %zu bytes arrive (%s)", what.c_str(), got.size(), want.size(), limited ? "limited file size" : "output not ready for a while");
        else if (!run.ok() && run.err.empty() && !WIFSIGNALED(run.status)) c.fail("silent-failure", "%s fails without explanation", what.c_str());
        if (!target.empty()) { files.erase(target); after.erase(target); }
    } else if (all_ok && deliver) {
        c.count("joined"); if (n > 32) c.count("joined_more_than_32");
        if (!run.ok()) c.fail("valid-rejected", "%s fails with status %x: %s", what.c_str(), run.status, run.err.substr(0, 300).c_str());
        else {
            Bytes got = target.empty() ? run.out : after[target];
            if (got != want) { size_t i = 0; while (i < want.size() && i < got.size() && want[i] == got[i]) i++; c.fail("wrong-output", "%s (contents type '%s'): %zu bytes instead of %zu, differing at %zu: %s instead of %s", what.c_str(), id_str(ct).c_str(), got.size(), want.size(), i, hex(got.substr(i, 16)).c_str(), hex(want.substr(i, 16)).c_str()); }
            if (!target.empty() && !run.out.empty()) c.fail("stray-output", "%s writes %zu bytes to the standard output", what.c_str(), run.out.size());
        }
        if (!target.empty()) files[target] = after[target];
    } else {
        c.count(!all_ok ? n ? "rejected" : "no_inputs" : "undeliverable");
        if (run.ok()) c.fail("failure-not-reported", "%s exits with success (bad inputs: %s)", what.c_str(), bad.c_str());
        else if (run.err.empty() && !WIFSIGNALED(run.status)) c.fail("silent-failure", "%s fails without explanation", what.c_str());
        if (!all_ok && !run.out.empty()) c.fail("output-despite-failure", "%s writes %zu bytes to the standard output (bad inputs: %s)", what.c_str(), run.out.size(), bad.c_str());
    }
    if (after != files) { std::string d; for (auto &f : after) { auto it = files.find(f.first); if (it == files.end()) d += "creates '" + f.first + "' "; else if (it->second != f.second) d += "changes '" + f.first + "' "; } for (auto &f : files) if (!after.count(f.first)) d += "removes '" + f.first + "' "; c.fail("files-changed", "%s %s(bad inputs: %s)", what.c_str(), d.c_str(), bad.c_str()); }
    c.sample(what + strf(" -> %s", run.ok() ? "success" : "failure"));
}
static RegisterCheck r19("C19", c19, 16000, 60000);
