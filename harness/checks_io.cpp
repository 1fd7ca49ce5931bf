// Input, output, faults, fields, diagnostics, bounds: C01 C05 C06 C15 C16 C22 C23 C25
#include "checks.h"
#include <sys/mman.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>

static GenOpt small_opts(Rng &r) { GenOpt o; o.stretch = 500; o.big = false; o.budget = r.chance(1, 3) ? 25 : 8; o.pads = r.chance(1, 4); return o; }
static __attribute__((noinline)) void scribble(int v) { volatile char a[40000]; for (size_t i = 0; i < sizeof a; i += 1) a[i] = (char)v; }

// ---------------------------------------------------------------- C01
static void addr_free(Bytes &o, const std::map<const void *, size_t> &idx, const void *p) {
    if (!p) { o += "- "; return; }
    auto it = idx.find(p); o += it == idx.end() ? Bytes("? ") : strf("%zu ", it->second);
}
// every follow-up operation on whatever was read; the transcript contains everything a caller can see
static Bytes exercise(const Bytes &in, const RegModel &reg, u64 seed, u64 *chunks, bool stderr_cb) {
    Rng r(seed); Bytes o;
    D.reset();
    IFF_Chunk *k = lib_read(in, reg, r);
    o += k ? "read " : "refused ";
    if (!k) return o + D.text;
    NodeP t = observe(k, 0, reg);
    tie(*t, k);
    auto v = all_nodes(*t);
    *chunks += v.size();
    std::map<const void *, size_t> idx; for (size_t i = 0; i < v.size(); i++) idx[v[i]->ptr] = i;
    if (encode(*t).size() < 200000) o += strf("tree %llx ", (unsigned long long)hash_str(encode(*t)));
    o += strf("check %d ", IFF_check(k, reg.lib()));
    o += strf("self %d ", IFF_compare(k, k, reg.lib()));
    { Rng r2(seed); IFF_Chunk *k2 = lib_read(in, reg, r2); o += k2 ? strf("again %d ", IFF_compare(k, k2, reg.lib())) : "again- "; drop(k2, reg); }
    std::vector<u32> types; for (Node *n : v) if (n->is_group()) types.push_back(n->gtype);
    types.push_back(mkid("TEST"));
    for (int i = 0; i < 3; i++) {
        std::vector<u32> ty; int nt = (int)r.below(4); for (int j = 0; j < nt; j++) ty.push_back(r.pick(types));
        ty.push_back(0);
        unsigned len = 0; Node *n = i == 0 ? t.get() : v[r.below((u32)v.size())];
        IFF_Form **f = IFF_searchFormsFromArray(n->ptr, ty.data(), (unsigned)nt, &len);
        o += strf("search %u: ", len); for (unsigned j = 0; j < len; j++) addr_free(o, idx, f[j]);
        vp_free(f);
    }
    for (int i = 0; i < 6; i++) {
        Node *n = v[r.below((u32)v.size())]; u32 id = v[r.below((u32)v.size())]->id; if (r.chance(1, 3)) id = v.back()->id;
        if (n->kind == H_FORM) {
            addr_free(o, idx, IFF_getChunkFromForm((IFF_Form *)n->ptr, id)); addr_free(o, idx, IFF_getDataChunkFromForm((IFF_Form *)n->ptr, id));
            unsigned len = 0; IFF_Chunk **a = IFF_getChunksFromForm((IFF_Form *)n->ptr, id, &len); o += strf("all %u: ", len); for (unsigned j = 0; j < len; j++) addr_free(o, idx, a[j]); vp_free(a);
        } else if (n->kind == H_PROP) addr_free(o, idx, IFF_getChunkFromProp((IFF_Prop *)n->ptr, id));
        else if (n->kind == H_LIST) addr_free(o, idx, IFF_getPropFromList((IFF_List *)n->ptr, r.pick(types)));
    }
    for (int i = 0; i < 2; i++) {   // any two parts compared
        Node *a = v[r.below((u32)v.size())], *b = v[r.below((u32)v.size())];
        if (scope_of(*a) == scope_of(*b)) o += strf("cmp %d ", IFF_compareChunk(a->ptr, b->ptr, scope_of(*a), reg.libx()));
    }
    if (in.size() < 20000) for (int i = 0; i < 2; i++) {   // compared with something that differs in one or two places
        Rng r4(seed + 7 + (u64)i); NodeP t4 = clone(*t); set_parents(*t4); std::string w4; bool ok = false;
        for (int j = 0; j < 12 && !ok; j++) ok = differ(r4, reg, t4, w4);
        if (ok && r4.chance(1, 2)) differ(r4, reg, t4, w4);
        Bytes near = encode(*t4); IFF_Chunk *k4 = lib_read(near, reg, r4);
        if (k4) { o += strf("near %d %d ", IFF_compare(k, k4, reg.lib()), IFF_compare(k4, k, reg.lib())); drop(k4, reg); } else o += "near- ";
    }
    if (in.size() < 60000) { CaptureStdout cap; IFF_print(k, r.below(4), reg.lib()); Bytes p = cap.finish(); o += strf("print %zu %llx ", p.size(), (unsigned long long)hash_str(p)); }
    {
        WStream w; FILE *f = w.open(); set_buffering(f, (int)r.below(6)); if (r.chance(1, 4)) w.err_at = r.below((u32)in.size() + 1);
        bool ok = IFF_writeFd(f, k, reg.lib()); fclose(f);
        o += strf("write %d %zu %llx ", ok, w.out.size(), (unsigned long long)hash_str(w.out));
        if (ok && w.err_at == (size_t)-1 && w.out.size() < 100000) { Rng r3(seed + 1); IFF_Chunk *k3 = lib_read(w.out, reg, r3); o += k3 ? strf("reread %d ", IFF_compare(k, k3, reg.lib())) : "reread- "; drop(k3, reg); }
    }
    drop(k, reg);
    if (!stderr_cb) o += D.text;
    return o;
}
static void c01(Ctx &c) {
    Rng &r = c.rng;
    RegP reg = pick_reg(r);
    Bytes in;
    if (r.chance(1, 300)) {   // deep nesting within reason
        int depth = 200 + (int)r.below(1200); bool honest = r.chance(1, 2);
        for (int i = 0; i < depth; i++) { u32 s = honest ? (u32)(depth - i - 1) * 12 + 4 : 0x7ffffff0u; in += r.chance(1, 2) ? "LIST" : "FORM"; for (int b = 3; b >= 0; b--) in.push_back((char)(s >> (8 * b))); in += "TEST"; }
    } else if (c.idx % 9973 == 4242 || r.chance(1, 400)) {   // very wide groups, now and then damaged
        GenOpt o = small_opts(r); o.budget = 12; NodeP t = gen_tree(r, *reg, o);
        if (c.idx % 9973 == 4242) stretch(c, t, *reg, 65537 + (int)r.below(9), (c.idx / 9973 + c.seed) % 2 ? H_FORM : H_CAT); else stretch(c, t, *reg, 256 + (int)r.below(20));
        in = encode(*t); if (r.chance(1, 3)) in = mutate(r, in, nullptr);
    } else in = gen_hostile(r, *reg);
    c.witness = in;
    u64 seed = r.next(), chunks = 0; bool plain_cb = r.chance(1, 8);
    auto cb = IFF_errorCallback; if (plain_cb) { IFF_errorCallback = &IFF_errorCallbackStderr; c.count("with_default_callback"); }
    Bytes a, b;
    A.fill = 0xA5; scribble(0xA5); vfiles.clear(); a = exercise(in, *reg, seed, &chunks, plain_cb);
    A.fill = 0x5A; scribble(0x5A); b = exercise(in, *reg, seed, &chunks, plain_cb);
    A.fill = 0xA5;
    IFF_errorCallback = cb;
    c.evaluations++; c.count(a[3] == 'd' ? "inputs_read" : "inputs_refused"); c.count("chunks_read", chunks / 2); c.count("input_bytes", in.size());
    c.cover(hash_str(a));
    if (a != b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; size_t q = i > 60 ? i - 60 : 0; c.fail("depends-on-uninitialised-memory", "what the library shows depends on the contents of fresh memory: ...%s | ...%s", a.substr(q, 120).c_str(), b.substr(q, 120).c_str()); }
    if (A.bad_frees) c.fail("bad-free", "%llu releases of memory that was not allocated", (unsigned long long)A.bad_frees);
    c.sample(strf("%zu bytes %s -> %s", in.size(), hex(in, 60).c_str(), a.substr(0, 200).c_str()));
}
static RegisterCheck r01("C01", c01, 100000, 2000000);
// the known limit of the recursive reader, probed in a process of its own
static void c01deep(Ctx &c) {
    Bytes in; int depth = 400000;
    in.reserve((size_t)depth * 12);
    for (int i = 0; i < depth; i++) { u32 s = (u32)(depth - i - 1) * 12 + 4; in += "FORM"; for (int b = 3; b >= 0; b--) in.push_back((char)(s >> (8 * b))); in += "TEST"; }
    Rng r(1); RStream s; s.data = &in; FILE *f = s.open();
    IFF_Chunk *k = IFF_readFd(f, nullptr); fclose(f);
    if (k) { IFF_check(k, nullptr); IFF_free(k, nullptr); }
    c.evaluations++;
}
static RegisterCheck r01d("C01DEEP", c01deep, 1, 1);

// inputs for the drivers under MemorySanitizer and valgrind
static void c01dump(Ctx &c) {
    RegP reg = c.rng.chance(1, 2) ? reg_test() : pick_reg(c.rng);
    Bytes in = gen_hostile(c.rng, *reg); if (in.size() > 20000) in.resize(20000);
    static FILE *f = fopen((scratch_dir + "/inputs").c_str(), "wb");
    u8 h[4] = {(u8)in.size(), (u8)(in.size() >> 8), (u8)(in.size() >> 16), (u8)(in.size() >> 24)};
    fwrite(h, 1, 4, f); fwrite(in.data(), 1, in.size(), f); fflush(f); c.evaluations++;
}
static RegisterCheck r01p("C01DUMP", c01dump, 1000, 8000);

// ---------------------------------------------------------------- C05
static void c05_one(Ctx &c, const Bytes &in, const RegModel &reg, size_t k, bool err, bool expect, size_t need, const char *what) {
    Rng &r = c.rng;
    RStream s; s.data = &in; s.rng = Rng(r.next()); s.seekable = r.chance(1, 2);
    if (err) s.err_at = k; else s.end = k;
    s.max_read = r.chance(1, 3) ? 0 : r.chance(1, 2) ? (size_t)-1 : 1 + r.below(9);
    size_t live = LIVE(); D.reset(); u64 op = A.fopens, cl = A.fcloses;
    IFF_Chunk *q; const char *how; int realfd = -1;
    switch (r.below(8)) {
    case 0: case 1: { VFile v; v.r = &s; v.bufmode = r.chance(1, 4) ? _IONBF : _IOFBF; v.bufsize = 1 + r.below(300); vfiles["vp:in"] = &v; q = r.chance(1, 2) ? IFF_read("vp:in", reg.lib()) : IFF_readFile("vp:in", reg.lib()); vfiles.erase("vp:in"); how = "named"; break; }
    case 2: { FILE *f = s.open(); set_buffering(f, (int)r.below(6)); { ReplaceStd rs(&stdin, f); q = IFF_read(nullptr, reg.lib()); } fclose(f); how = "standard input"; break; }
    case 3: if (!err) {   // a regular file
        realfd = memfd_create("in", 0); if (write(realfd, in.data(), std::min(k, in.size())) < 0) {} lseek(realfd, 0, SEEK_SET);
        FILE *f = fdopen(realfd, "rb"); q = IFF_readFd(f, reg.lib()); fclose(f); how = "regular file"; break; }
        // fall through
    default: { FILE *f = s.open(); set_buffering(f, (int)r.below(6)); q = IFF_readFd(f, reg.lib()); fclose(f); how = "open stream"; }
    }
    c.evaluations++;
    c.count(err ? "read_errors_injected" : k < in.size() ? "cuts_injected" : "complete_streams");
    if (expect) {
        c.count("must_succeed");
        if (!q) c.fail("complete-refused", "%s: all %zu bytes of the main chunk are delivered (%s at %zu, %s, %zu reads) but reading fails: %s", what, need, err ? "error" : "end", k, how, (size_t)s.calls, D.text.c_str());
        else drop(q, reg);
    } else {
        c.count("must_fail");
        if (q) { c.fail("incomplete-accepted", "%s: the %s at byte %zu of %zu (%s) yields a hierarchy", what, err ? "read error" : "end", k, need, how); drop(q, reg); }
        else if (!D.messages) c.fail("silent-failure", "%s: no diagnostic for the %s at byte %zu of %zu (%s)", what, err ? "read error" : "end", k, need, how);
    }
    if (LIVE() != live) c.fail("not-released", "%s: %zd allocations stay behind after the %s at byte %zu of %zu (%s)", what, (ssize_t)(LIVE() - live), err ? "read error" : "end", k, need, how);
    if (A.fopens - op != A.fcloses - cl) c.fail("file-left-open", "%s: opened %llu, closed %llu", what, (unsigned long long)(A.fopens - op), (unsigned long long)(A.fcloses - cl));
    if (A.bad_frees) c.fail("bad-free", "%s", what);
}
static void c05(Ctx &c) {
    Rng &r = c.rng;
    RegP reg = pick_reg(r);
    if (r.chance(1, 3)) {   // arbitrary bytes: success exactly when the stream contains the whole main chunk
        for (int i = 0; i < 12; i++) {
            Bytes in = gen_hostile(r, *reg); c.witness = in;
            Parse p = ref_parse(in, *reg);
            c.count(p.status == Parse::OK ? "hostile_complete" : "hostile_incomplete"); c.cover(hash_str(in));
            c05_one(c, in, *reg, in.size(), r.chance(1, 4), p.status == Parse::OK, p.consumed, "arbitrary bytes");
            if (p.status == Parse::OK && p.consumed > 0) { size_t k = r.chance(1, 2) ? p.consumed - 1 : r.below((u32)p.consumed); c05_one(c, in, *reg, k, r.chance(1, 2), false, p.consumed, "arbitrary bytes, cut"); c05_one(c, in, *reg, p.consumed, r.chance(1, 2), true, p.consumed, "arbitrary bytes, cut at the end"); }
        }
        return;
    }
    GenOpt o = small_opts(r); o.surplus = true; if (r.chance(1, 12)) o.big = true;
    NodeP t = gen_any(c, *reg, o);
    if (c.idx % 5003 == 99) inflate(c, *t, *reg);
    else if (c.idx % 331 == 7) inflate(c, *t, *reg, 65530 + r.below(r.chance(1, 2) ? 20 : 70000), r.chance(3, 4));
    Bytes in = encode(*t, true); c.witness = in; size_t n = in.size();
    std::string what = describe(*t, 200);
    std::vector<size_t> ks;
    if (n <= 160) for (size_t k = 0; k <= n; k++) ks.push_back(k);
    else {
        std::vector<Mark> m; Bytes tmp; marks = &m; serialize(*t, tmp, true); marks = nullptr;
        for (int i = 0; i < (n > 1000000 ? 4 : 40); i++) { size_t k = r.chance(1, 3) ? r.below((u32)n) : r.pick(m).pos + r.below(6); if (k < n) ks.push_back(k); }
        for (size_t d = 1; d <= 6 && d <= n; d++) ks.push_back(n - d);
        ks.push_back(n);
    }
    Bytes more = in + gen_data(r, 9);
    for (size_t k : ks) {
        bool err = r.chance(1, 2);
        c05_one(c, in, *reg, k, err, k >= n, n, what.c_str());
        c.cover(mix(mix(hash_str(in), k), err));
        if (k == n) { c05_one(c, more, *reg, n + r.below(9), !err, true, n, what.c_str()); c05_one(c, in, *reg, n, true, true, n, what.c_str()); }
    }
    if (r.chance(1, 6)) {   // names that cannot be opened, while the standard input holds a complete stream
        std::string names[] = {"", scratch_dir + "/no/such/file", scratch_dir, scratch_dir + "/" + std::string(300, 'n')};
        for (const std::string &name : names) for (int i = 0; i < 2; i++) {
            RStream s; s.data = &in; FILE *f = s.open(); D.reset(); IFF_Chunk *q; size_t live = LIVE();
            { ReplaceStd rs(&stdin, f); q = i ? IFF_readFile(name.c_str(), reg->lib()) : IFF_read(name.c_str(), reg->lib()); } fclose(f);
            c.evaluations++; c.count("unreadable_names");
            if (q) { c.fail("unopenable-succeeds", "reading the file named '%s' yields a hierarchy", name.c_str()); drop(q, *reg); }
            else if (!D.messages) c.fail("silent-failure", "reading the file named '%s' fails without a diagnostic", name.c_str());
            if (LIVE() != live) c.fail("not-released", "reading the file named '%s'", name.c_str());
        }
    }
    c.count(n <= 160 ? "streams_cut_everywhere" : "streams_cut_at_samples");
    c.sample(strf("%s: %zu cut points", what.c_str(), ks.size()));
}
static RegisterCheck r05("C05", c05, 40000, 300000);

// ---------------------------------------------------------------- C06
static void c06_one(Ctx &c, Node &t, IFF_Chunk *k, const RegModel &reg, const Bytes &want, size_t at, int fault) {
    Rng &r = c.rng;
    WStream w; if (at < want.size()) w.err_at = at; w.transient = fault == 1; w.err_close = fault == 2;
    std::string how; bool ok; D.reset(); bool certain = true;   // certain: success promises delivery
    int bufkind = (int)r.below(7); size_t live = LIVE(); u64 op = A.fopens, cl = A.fcloses;
    u64 errs_at_return = 0;
    switch (r.below(5)) {
    case 0: case 1: {
        VFile v; v.w = &w; v.bufmode = bufkind == 0 ? _IONBF : _IOFBF; v.bufsize = bufkind == 1 ? 1 : bufkind == 2 ? 7 : bufkind == 3 ? 64 : 4096; if (bufkind == 6) v.bufsize = want.size() + 1; if (fault == 3) v.deny = true;
        vfiles["vp:out"] = &v; ok = r.chance(1, 2) ? IFF_write("vp:out", k, reg.lib()) : IFF_writeFile("vp:out", k, reg.lib()); vfiles.erase("vp:out");
        how = strf("named file, buffer %zu", v.bufmode == _IONBF ? (size_t)0 : v.bufsize);
        errs_at_return = w.errors;
        if (fault == 3) { if (ok) c.fail("unopenable-succeeds", "writing to a file that cannot be opened reports success"); if (!D.messages) c.fail("silent-failure", "no diagnostic for a file that cannot be opened"); c.count("opens_denied"); goto out; }
        break; }
    case 2: {
        w.err_close = false; FILE *f = w.open(); set_buffering(f, bufkind);
        { ReplaceStd rs(&stdout, f); ok = IFF_write(nullptr, k, reg.lib()); }
        errs_at_return = w.errors; fclose(f); how = strf("standard output, buffering %d", bufkind % 6); break; }
    default: {
        w.err_close = false; FILE *f = w.open(); set_buffering(f, bufkind);
        ok = IFF_writeFd(f, k, reg.lib()); errs_at_return = w.errors; certain = bufkind % 6 == 0;
        fclose(f); how = strf("open stream, buffering %d", bufkind % 6); break; }
    }
    c.evaluations++;
    {
        bool fault_seen = errs_at_return > 0;
        c.count(fault_seen ? "faults_seen" : "no_fault"); if (w.err_close && fault_seen) c.count("close_faults"); if (w.transient && fault_seen) c.count("transient_faults");
        if (ok && fault_seen) c.fail("fault-reported-as-success", "writing %s to %s with %s at byte %zu of %zu reports success", describe(t, 200).c_str(), how.c_str(), fault == 2 ? "a failing close" : "a write error", at, want.size());
        else if (ok && certain && w.out != want) c.fail("success-without-delivery", "%s to %s: success but %zu of %zu bytes delivered", describe(t, 200).c_str(), how.c_str(), w.out.size(), want.size());
        if (!ok && !fault_seen) c.fail("failure-without-fault", "%s to %s: failure reported although everything was accepted: %s", describe(t, 200).c_str(), how.c_str(), D.text.c_str());
        if (!ok && !D.messages) c.fail("silent-failure", "writing %s to %s fails at byte %zu of %zu without a diagnostic", describe(t, 200).c_str(), how.c_str(), at, want.size());
    }
out:
    if (LIVE() != live) c.fail("not-released", "writing changed the number of live allocations");
    if (A.fopens - op != A.fcloses - cl) c.fail("file-left-open", "opened %llu, closed %llu (%s)", (unsigned long long)(A.fopens - op), (unsigned long long)(A.fcloses - cl), how.c_str());
}
static void c06(Ctx &c) {
    Rng &r = c.rng;
    RegP reg = pick_reg(r);
    GenOpt o = small_opts(r); if (r.chance(1, 12)) o.big = true;
    NodeP t = gen_any(c, *reg, o);
    if (c.idx % 331 == 7) inflate(c, *t, *reg, 65530 + r.below(r.chance(1, 2) ? 20 : 70000), r.chance(1, 2));
    IFF_Chunk *k = obtain(c, *t, *reg);
    Bytes want = encode(*t, false); c.witness = want; size_t n = want.size();
    std::vector<Mark> m; { Bytes tmp; marks = &m; serialize(*t, tmp, false); marks = nullptr; }
    Snap before = snapshot(k, 0, *reg);
    std::vector<size_t> ks;
    if (n <= 160) for (size_t i = 0; i < n; i++) ks.push_back(i);
    else for (int i = 0; i < 50; i++) { size_t at = r.chance(1, 4) ? n - 1 - r.below(10) : r.chance(1, 2) && !m.empty() ? r.pick(m).pos + r.below(6) - 2 : r.below((u32)n); if (at < n) ks.push_back(at); }
    for (size_t at : ks) { int fault = (int)r.below(2); c06_one(c, *t, k, *reg, want, at, fault); c.cover(mix(mix(hash_str(want), at), (u64)fault)); }
    for (int i = 0; i < 4; i++) c06_one(c, *t, k, *reg, want, n, i);
    if (r.chance(1, 6)) {   // the real thing
        std::string full = full_device(), p = scratch_dir + "/no/such/dir", dir = scratch_dir + "/adir"; mkdir(dir.c_str(), 0700);
        if (!full.empty()) { D.reset(); if (IFF_write(full.c_str(), k, reg->lib())) c.fail("fault-reported-as-success", "writing %zu bytes to a full device reports success", n); if (!D.messages) c.fail("silent-failure", "full device"); }
        D.reset(); if (IFF_writeFile(p.c_str(), k, reg->lib())) c.fail("unopenable-succeeds", "missing directory"); if (!D.messages) c.fail("silent-failure", "missing directory");
        D.reset(); if (IFF_writeFile(dir.c_str(), k, reg->lib())) c.fail("unopenable-succeeds", "a directory"); if (!D.messages) c.fail("silent-failure", "a directory");
        for (int i = 0; i < 2; i++) { D.reset(); if (i ? IFF_writeFile("", k, reg->lib()) : IFF_write("", k, reg->lib())) c.fail("unopenable-succeeds", "an empty file name"); if (!D.messages) c.fail("silent-failure", "an empty file name"); }
        FILE *f = full.empty() ? nullptr : fopen(full_device().c_str(), "wb");
        if (f) { D.reset(); bool ok; { ReplaceStd rs(&stdout, f); ok = IFF_write(nullptr, k, reg->lib()); } fclose(f); if (ok) c.fail("fault-reported-as-success", "a full standard output reports success"); if (!D.messages) c.fail("silent-failure", "full standard output"); }
        unlink(full.c_str());
        c.count("real_faults", 4); c.evaluations += 4;
    }
    if (!(snapshot(k, 0, *reg) == before)) c.fail("hierarchy-changed", "writing changed %s", describe(*t).c_str());
    c.count(n <= 160 ? "encodings_failed_everywhere" : "encodings_failed_at_samples");
    c.sample(strf("%s: %zu fault points", describe(*t, 200).c_str(), ks.size() + 4));
    drop(k, *reg);
}
static RegisterCheck r06("C06", c06, 120000, 300000);

// ---------------------------------------------------------------- C15
union Val { IFF_UByte ub; IFF_UWord uw; IFF_Word sw; IFF_ULong ul; IFF_Long sl; IFF_ID id; };
static void vset(Val &v, FieldKind k, u32 x) { memset(&v, 0x6c, sizeof v); switch (k) { case F_UBYTE: v.ub = (u8)x; break; case F_UWORD: v.uw = (uint16_t)x; break; case F_WORD: v.sw = (int16_t)x; break; case F_ULONG: v.ul = x; break; case F_LONG: v.sl = (int32_t)x; break; case F_ID: v.id = x; break; } }
static u32 vget(const Val &v, FieldKind k) { switch (k) { case F_UBYTE: return v.ub; case F_UWORD: return v.uw; case F_WORD: return (uint16_t)v.sw; case F_ULONG: return v.ul; case F_LONG: return (u32)v.sl; default: return v.id; } }
static bool prim_read(FILE *f, Val &v, FieldKind k) { switch (k) { case F_UBYTE: return IFF_readUByte(f, &v.ub, ID_TEXT_, "a"); case F_UWORD: return IFF_readUWord(f, &v.uw, ID_TEXT_, "a"); case F_WORD: return IFF_readWord(f, &v.sw, ID_TEXT_, "a"); case F_ULONG: return IFF_readULong(f, &v.ul, ID_TEXT_, "a"); case F_LONG: return IFF_readLong(f, &v.sl, ID_TEXT_, "a"); default: return IFF_readId(f, &v.id, ID_TEXT_, "a"); } }
static bool prim_write(FILE *f, const Val &v, FieldKind k) { switch (k) { case F_UBYTE: return IFF_writeUByte(f, v.ub, ID_TEXT_, "a"); case F_UWORD: return IFF_writeUWord(f, v.uw, ID_TEXT_, "a"); case F_WORD: return IFF_writeWord(f, v.sw, ID_TEXT_, "a"); case F_ULONG: return IFF_writeULong(f, v.ul, ID_TEXT_, "a"); case F_LONG: return IFF_writeLong(f, v.sl, ID_TEXT_, "a"); default: return IFF_writeId(f, v.id, ID_TEXT_, "a"); } }
static IFF_FieldStatus field_read(FILE *f, Val &v, FieldKind k, IFF_Chunk *c, IFF_Long *bp) { switch (k) { case F_UBYTE: return IFF_readUByteField(f, &v.ub, c, "a", bp); case F_UWORD: return IFF_readUWordField(f, &v.uw, c, "a", bp); case F_WORD: return IFF_readWordField(f, &v.sw, c, "a", bp); case F_ULONG: return IFF_readULongField(f, &v.ul, c, "a", bp); case F_LONG: return IFF_readLongField(f, &v.sl, c, "a", bp); default: return IFF_readIdField(f, &v.id, c, "a", bp); } }
static IFF_FieldStatus field_write(FILE *f, const Val &v, FieldKind k, IFF_Chunk *c, IFF_Long *bp) { switch (k) { case F_UBYTE: return IFF_writeUByteField(f, v.ub, c, "a", bp); case F_UWORD: return IFF_writeUWordField(f, v.uw, c, "a", bp); case F_WORD: return IFF_writeWordField(f, v.sw, c, "a", bp); case F_ULONG: return IFF_writeULongField(f, v.ul, c, "a", bp); case F_LONG: return IFF_writeLongField(f, v.sl, c, "a", bp); default: return IFF_writeIdField(f, v.id, c, "a", bp); } }
static const char *kname[] = {"UByte", "UWord", "Word", "ULong", "Long", "Id"};
static Bytes be(u32 x, int w) { Bytes b; for (int i = w - 1; i >= 0; i--) b.push_back((char)(x >> (8 * i))); return b; }
static void c15(Ctx &c) {
    Rng &r = c.rng;
    static const u32 edge[] = {0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0x80ff, 0xffff, 0x10000, 0x7fffffff, 0x80000000u, 0x80000001u, 0xffff0000u, 0xfffffffeu, 0xffffffffu, 0x01020304, 0x89abcdefu};
    for (int rep = 0; rep < 60; rep++) {
        FieldKind k = (FieldKind)r.below(6); int w = field_size(k); u32 mask = w == 4 ? 0xffffffffu : (1u << (8 * w)) - 1;
        u32 x = (r.chance(1, 2) ? edge[r.below(19)] : (u32)r.next()) & mask;
        Bytes want = be(x, w), pre = gen_data(r, r.below(6)), post = gen_data(r, 9);
        Val v; c.evaluations++;
        // primitives
        {
            vset(v, k, x); WStream ws; FILE *f = ws.open(); set_buffering(f, (int)r.below(6)); fwrite(pre.data(), 1, pre.size(), f);
            D.reset(); bool ok = prim_write(f, v, k); fclose(f);
            if (!ok || ws.out != pre + want) c.fail("write", "writing %s %08x gives %d and %s", kname[k], x, ok, hex(ws.out.substr(pre.size())).c_str());
            if (D.messages) c.fail("noise", "message while writing %s: %s", kname[k], D.text.c_str());
        }
        {
            Bytes in = want + post; RStream s; s.data = &in; s.max_read = 1 + r.below(5); FILE *f = s.open(); setvbuf(f, nullptr, _IONBF, 0);
            vset(v, k, ~x); bool ok = prim_read(f, v, k); size_t pos = s.pos; fclose(f);
            if (!ok || vget(v, k) != x || pos != (size_t)w) c.fail("read", "reading %s %08x gives %d, %08x and consumes %zu bytes", kname[k], x, ok, vget(v, k), pos);
        }
        for (int miss = 0; miss < w; miss++) {   // missing bytes
            RStream s; s.data = &want; if (r.chance(1, 2)) s.end = (size_t)miss; else s.err_at = (size_t)miss;
            FILE *f = s.open(); set_buffering(f, (int)r.below(6)); vset(v, k, x); D.reset(); bool ok = prim_read(f, v, k); fclose(f);
            if (ok) c.fail("missing-byte-read", "%s read although only %d of its bytes exist", kname[k], miss);
            else if (!D.messages) c.fail("silent-failure", "no message for %s with %d bytes", kname[k], miss);
            WStream ws; ws.err_at = (size_t)miss; f = ws.open(); setvbuf(f, nullptr, _IONBF, 0); vset(v, k, x); D.reset(); ok = prim_write(f, v, k); fclose(f);
            if (ok) c.fail("missing-byte-written", "%s written although only %d of its bytes were accepted", kname[k], miss);
            else if (!D.messages) c.fail("silent-failure", "no message for writing %s", kname[k]);
            c.count("missing_bytes");
        }
        // fields
        IFF_Chunk ch; ch.parent = nullptr; ch.chunkId = ID_TEXT_;
        int32_t size, bp;
        switch (r.below(11) ? r.below(5) : 5) {
        case 5: size = -1 - (int32_t)r.below(9); bp = (int32_t)r.below(4); c.count("fields_of_chunks_of_negative_size"); break;   // as a program can set it: nothing fits
        case 0: size = (int32_t)r.below(12); bp = (int32_t)r.below((u32)size + 3); break;
        case 1: size = 0x7fffffff - (int32_t)r.below(8); bp = size - (int32_t)r.below(8); break;
        case 2: size = (int32_t)r.below(3); bp = 0; break;
        case 3: size = (int32_t)(r.next() & 0x7fffffff); bp = (int32_t)r.below((u32)size + 1u); if (r.chance(2, 3)) bp = size - (int32_t)std::min<u32>((u32)size, r.below(7)); break;
        default: size = 100 + (int32_t)r.below(70000); bp = size - (int32_t)r.below(9); break;
        }
        ch.chunkSize = size;
        bool fits = (int64_t)bp + w <= size; bool cut = r.chance(1, 5); int have = cut ? (int)r.below((u32)w) : w;
        c.cover(mix(mix((u64)k * 64 + (u64)(fits * 2 + cut) * 8 + (u64)have, (u64)(uint32_t)size), mix((u64)(uint32_t)bp, x)));
        c.count(!fits ? "fields_that_do_not_fit" : cut ? "fields_with_missing_bytes" : "fields_transferred");
        {
            Bytes in = want + post; RStream s; s.data = &in; if (cut) { if (r.chance(1, 2)) s.end = (size_t)have; else s.err_at = (size_t)have; }
            FILE *f = s.open(); setvbuf(f, nullptr, _IONBF, 0);
            Val old; vset(old, k, x ^ 0x5a5a5a5a); v = old; IFF_Long b2 = bp; D.reset();
            IFF_FieldStatus st = field_read(f, v, k, &ch, &b2); size_t pos = s.pos; fclose(f);
            if (!fits) { if (st != IFF_FIELD_LAST || b2 != bp || pos != 0 || memcmp(&v, &old, sizeof v)) c.fail("field-crosses-end", "%s field at %d of %d: status %d, counter %d, %zu bytes consumed, value %s", kname[k], bp, size, st, b2, pos, memcmp(&v, &old, sizeof v) ? "changed" : "kept"); }
            else if (cut) { if (st != IFF_FIELD_FAILURE || !D.messages) c.fail("field-missing-bytes", "%s field at %d of %d with %d bytes available: status %d", kname[k], bp, size, have, st); }
            else if (st != IFF_FIELD_MORE || b2 != bp + w || pos != (size_t)w || vget(v, k) != x) c.fail("field-read", "%s field %08x at %d of %d: status %d, counter %d, %zu bytes consumed, value %08x", kname[k], x, bp, size, st, b2, pos, vget(v, k));
            if (IFF_deriveSuccess(st) != (st != IFF_FIELD_FAILURE)) c.fail("derive", "status %d", st);
        }
        {
            WStream ws; if (cut) ws.err_at = (size_t)have; FILE *f = ws.open(); setvbuf(f, nullptr, _IONBF, 0);
            vset(v, k, x); IFF_Long b2 = bp; D.reset(); IFF_FieldStatus st = field_write(f, v, k, &ch, &b2); fclose(f);
            if (!fits) { if (st != IFF_FIELD_LAST || b2 != bp || !ws.out.empty()) c.fail("field-crosses-end", "writing %s field at %d of %d: status %d, counter %d, %zu bytes written", kname[k], bp, size, st, b2, ws.out.size()); }
            else if (cut) { if (st != IFF_FIELD_FAILURE || !D.messages) c.fail("field-missing-bytes", "writing %s field with %d bytes accepted: status %d", kname[k], have, st); }
            else if (st != IFF_FIELD_MORE || b2 != bp + w || ws.out != want) c.fail("field-write", "%s field %08x at %d of %d: status %d, counter %d, bytes %s", kname[k], x, bp, size, st, b2, hex(ws.out).c_str());
        }
        if (c.failed()) { c.witness = want; break; }
        // a row of fields in one chunk, as extension chunks use them
        if (r.chance(1, 4)) {
            int n = 2 + (int)r.below(7); std::vector<FieldKind> ks; std::vector<u32> xs; Bytes enc; int total = 0;
            for (int i = 0; i < n; i++) { FieldKind q = (FieldKind)r.below(6); u32 y = (u32)r.next(); if (field_size(q) < 4) y &= (1u << (8 * field_size(q))) - 1; ks.push_back(q); xs.push_back(y); enc += be(y, field_size(q)); total += field_size(q); }
            ch.chunkSize = (int32_t)r.below((u32)total + 3);
            RStream s; s.data = &enc; s.max_read = 0; s.rng = Rng(r.next()); FILE *f = s.open(); set_buffering(f, (int)r.below(6));
            WStream ws; FILE *g = ws.open(); IFF_Long rb = 0, wb = 0; int pos = 0;
            for (int i = 0; i < n; i++) {
                bool ok = pos + field_size(ks[i]) <= ch.chunkSize; Val a, b; vset(a, ks[i], ~xs[i]); vset(b, ks[i], xs[i]);
                IFF_FieldStatus x1 = field_read(f, a, ks[i], &ch, &rb), x2 = field_write(g, b, ks[i], &ch, &wb);
                if (ok) pos += field_size(ks[i]);
                if (x1 != x2 || x1 != (ok ? IFF_FIELD_MORE : IFF_FIELD_LAST) || rb != pos || wb != pos || (ok && vget(a, ks[i]) != xs[i])) { c.fail("field-row", "field %d (%s) of a row in a chunk of %d bytes: read status %d counter %d, write status %d counter %d, expected counter %d", i, kname[ks[i]], ch.chunkSize, x1, rb, x2, wb, pos); break; }
                if (!ok) break;
            }
            fclose(f); fclose(g);
            if (ws.out != enc.substr(0, (size_t)pos)) c.fail("field-row", "a row of fields in a chunk of %d bytes wrote %s", ch.chunkSize, hex(ws.out).c_str());
            c.count("rows_of_fields");
        }
    }
    c.sample(strf("60 values, last case: %s", hex(c.witness).c_str()));
}
static RegisterCheck r15("C15", c15, 60000, 200000);

// ---------------------------------------------------------------- C16
static void c16(Ctx &c) {
    Rng &r = c.rng;
    RegP reg = r.chance(1, 3) ? reg_test() : r.chance(1, 2) ? reg_rich() : reg_random(r, r.chance(1, 2));
    // where extension chunks exist: a FORM type (or any) and an identifier
    std::vector<std::pair<u32, u32>> places;
    for (auto &f : reg->forms) for (int s = f.second; s >= 0; s = reg->scopes[s].parent) for (auto &t : reg->scopes[s].types) if (slots[reg->find(f.first, t.first)].kind == H_EXT) places.push_back({f.first, t.first});
    for (int s = reg->global; s >= 0; s = reg->scopes[s].parent) for (auto &t : reg->scopes[s].types) if (slots[reg->find(mkid("ZZZZ"), t.first)].kind == H_EXT) places.push_back({mkid("ZZZZ"), t.first});
    if (places.empty()) { c.count("registries_without_extensions"); return; }
    auto pl = r.pick(places);
    const ExtDef &d = slots[reg->find(pl.first, pl.second)].def; int total = d.total();
    GenOpt o = small_opts(r); o.big = false;
    int lo = 0, hi = total + 6;
    std::vector<int> sizes; for (int s = lo; s <= hi; s++) sizes.push_back(s);
    sizes.push_back(total + 100 + (int)r.below(200)); if (r.chance(1, 10)) sizes.push_back(total + 4090 + (int)r.below(20)); if (r.chance(1, 40)) sizes.push_back(total + 65530 + (int)r.below(20));
    if (hi > 16 && !c.thorough) { std::vector<int> s2; for (int s : sizes) if (s > total - 4 || r.chance(1, 3)) s2.push_back(s); sizes = s2; }
    for (int size : sizes) {
        auto mkext = [&](int sz) {
            auto q = std::make_shared<Node>(); q->id = pl.second; q->slot = reg->find(pl.first, pl.second); q->kind = H_EXT; q->size = sz;
            Bytes body = gen_data(r, (u32)sz), enc; for (int i = 3; i >= 0; i--) enc.push_back((char)(q->id >> (8 * i))); enc += be((u32)sz, 4) + body; if (sz & 1) enc.push_back(r.chance(1, 3) ? 7 : 0);
            return ref_parse(enc, *reg, pl.first).top;
        };
        NodeP f = std::make_shared<Node>(); bool in_prop = r.chance(1, 5);
        f->kind = in_prop ? H_PROP : H_FORM; f->id = in_prop ? ID_PROP : ID_FORM; f->slot = in_prop ? SLOT_PROP : SLOT_FORM; f->gtype = pl.first;
        u32 bud = 6; int before = (int)r.below(3), after = (int)r.below(4);
        for (int i = 0; i < before; i++) f->kids.push_back(gen_chunk(r, *reg, o, pl.first, in_prop ? 99 : 3, bud));
        f->kids.push_back(mkext(size));
        if (r.chance(1, 3)) f->kids.push_back(mkext((int)r.below((u32)total + 8)));
        bud = 6; for (int i = 0; i < after; i++) f->kids.push_back(gen_chunk(r, *reg, o, pl.first, in_prop ? 99 : 3, bud));
        NodeP top = f; int wrap = in_prop ? 1 : (int)r.below(3);
        for (int i = 0; i < wrap; i++) {
            auto g = std::make_shared<Node>(); bool l = (in_prop && i == 0) || r.chance(1, 2); g->kind = l ? H_LIST : H_CAT; g->slot = l ? SLOT_LIST : SLOT_CAT; g->id = l ? ID_LIST : ID_CAT; g->gtype = ID_JJJJ;
            if (in_prop && i == 0) g->props.push_back(top); else g->kids.push_back(top);
            if (r.chance(1, 2)) { u32 b = 3; NodeP s; do { s = gen_chunk(r, *reg, o, 0, 3, b); b = 3; } while (s->kind != H_FORM); g->kids.push_back(s); }
            top = g;
        }
        fix_sizes(*top); set_parents(*top);
        Bytes in = encode(*top, true); c.witness = in;
        int k = d.fit(size); c.evaluations++; c.cover(mix(shape(*top), (u64)size)); c.count(size > total ? "longer" : size < total ? "shorter" : "exact");
        D.reset();
        IFF_Chunk *q = lib_read(in, *reg, r);
        std::string what = strf("extension chunk '%s' of %d bytes (known fields %d bytes, %d of %zu fit) in %s", id_str(pl.second).c_str(), size, total, k, d.fields.size(), describe(*top, 200).c_str());
        if (!q) { c.fail("not-read", "%s: %s", what.c_str(), D.text.c_str()); continue; }
        std::string why, link; NodeP g = observe(q, 0, *reg, &link);
        if (!same(*top, *g, &why)) c.fail("out-of-step", "%s: %s", what.c_str(), why.c_str());
        else {
            if (!link.empty()) c.fail("links", "%s: %s", what.c_str(), link.c_str());
            bool ok; Bytes w = lib_write(q, *reg, &ok), want = encode(*top, false);
            if (!ok || w != want) { size_t i = 0; while (i < w.size() && i < want.size() && w[i] == want[i]) i++; c.fail("written-back", "%s: written back %s at byte %zu: got %s expected %s", what.c_str(), ok ? "wrong" : "with failure", i, hex(w.substr(i, 16)).c_str(), hex(want.substr(i, 16)).c_str()); }
            else { IFF_Chunk *q2 = lib_read(w, *reg, r); if (!q2 || !IFF_compare(q, q2, reg->lib())) c.fail("read-again", "%s: what was written back reads differently", what.c_str()); drop(q2, *reg); c.count("written_back"); }
        }
        drop(q, *reg);
        if (size == sizes[0]) c.sample(what);
        if (c.failed()) break;
    }
}
static RegisterCheck r16("C16", c16, 56000, 200000);

// ---------------------------------------------------------------- C22
static bool well_formed_text(const Bytes &t) { return t.empty() || (t.back() == '\n'); }
static off_t fd_size(int fd) { struct stat st; return fstat(fd, &st) == 0 ? st.st_size : -1; }
static void c22(Ctx &c) {
    Rng &r = c.rng;
    RegP reg = pick_reg(r);
    fflush(stderr); off_t s1 = fd_size(stray1), s2 = fd_size(stray2);
    auto text_ok = [&](const char *what) {
        if (!well_formed_text(D.text)) c.fail("malformed-message", "%s: the diagnostics do not end with a line end: ...%s", what, D.text.substr(D.text.size() > 100 ? D.text.size() - 100 : 0).c_str());
        for (const char *bad : {"(null)", "(nil)", "%d", "%s"}) if (D.text.find(bad) != Bytes::npos && c.witness.find(bad) == Bytes::npos) c.fail("malformed-message", "%s: message contains %s: %s", what, bad, D.text.substr(0, 300).c_str());
    };
    auto need = [&](bool failed, const char *what) { if (failed && !D.messages) c.fail("silent-failure", "%s failed without a diagnostic", what); };
    int mode = (int)r.below(6);
    static const char *names[] = {"conforming", "non-conforming", "hostile", "warnings", "write_faults", "default_callback"};
    c.count(names[mode]);
    if (mode == 0) {   // silence on conforming data with known layouts
        GenOpt o; o.surplus = false; o.budget = 20;
        NodeP t = gen_tree(r, *reg, o); Bytes in = encode(*t, true); c.witness = in; c.cover(shape(*t));
        D.reset(); IFF_Chunk *k = lib_read(in, *reg, r), *k2 = build(*t, *reg, r);
        if (!k) { c.fail("not-read", "%s", D.text.c_str()); drop(k2, *reg); return; }
        auto step = [&](const char *what) { c.evaluations++; c.count("silent_operations"); if (D.messages) c.fail("noise", "%s of conforming %s says: %s", what, describe(*t, 200).c_str(), D.text.substr(0, 300).c_str()); D.reset(); };
        step("reading");
        IFF_check(k, reg->lib()); step("checking"); IFF_check(k2, reg->lib()); step("checking");
        IFF_compare(k, k2, reg->lib()); step("comparing");
        unsigned len; vp_free(IFF_searchForms(k, mkid("TEST"), &len)); step("searching");
        auto v = all_nodes(*t); tie(*t, k); for (Node *n : v) if (n->kind == H_FORM) { IFF_getChunkFromForm((IFF_Form *)n->ptr, r.pick(v)->id); unsigned l2; vp_free(IFF_getChunksFromForm((IFF_Form *)n->ptr, mkid("NAME"), &l2)); } step("looking up");
        { CaptureStdout cap; IFF_print(k, 0, reg->lib()); Bytes p = cap.finish(); } step("printing");
        bool ok; lib_write(k, *reg, &ok); step("writing");
        IFF_updateChunkSizes(k); step("recalculating");
        drop(k, *reg); drop(k2, *reg); step("freeing");
        c.sample("silent: " + describe(*t, 300));
    } else if (mode == 1) {   // failed checks say why
        GenOpt o; o.big = false; o.ext_valid = r.chance(1, 2);
        NodeP t = loosen(c, gen_tree(r, *reg, o), *reg); c.witness = encode(*t, true); c.cover(shape(*t));
        if (r.chance(1, 3)) { std::vector<Node *> gs; for (Node *n : all_nodes(*t)) if (n->is_group()) gs.push_back(n); Node *n = r.pick(gs); static const int32_t odd[] = {0, 0, 1, 3, 4, 5, -1, -8, 0x7fffffff, (int32_t)0x80000000}; n->size = r.chance(1, 3) ? n->size + (int32_t)r.below(5) - 2 : odd[r.below(10)]; c.count("groups_with_another_size"); }
        IFF_Chunk *k = build(*t, *reg, r);
        Bytes first;
        for (int i = 0; i < 2; i++) {
            A.fill = i ? 0x5A : 0xA5; scribble(A.fill);
            D.reset(); bool ok = IFF_check(k, reg->lib()); c.evaluations++; c.count(ok ? "checks_passed" : "checks_failed");
            need(!ok, "checking"); text_ok("checking");
            if (ok && D.messages) c.fail("noise", "a passed check says: %s", D.text.substr(0, 300).c_str());
            Bytes now = strf("%d ", ok) + D.text; if (i && now != first) c.fail("not-deterministic", "checking twice: %s / %s", first.substr(0, 200).c_str(), now.substr(0, 200).c_str()); first = now;
            if (i == 0 && r.chance(1, 2)) { drop(k, *reg); k = build(*t, *reg, r); }
        }
        for (Node *n : all_nodes(*t)) if (r.chance(1, 3)) { D.reset(); bool ok = IFF_checkChunk(n->ptr, scope_of(*n), reg->libx()); need(!ok, "checking a part"); text_ok("checking a part"); c.evaluations++; }
        c.sample("checked: " + describe(*t, 200) + " -> " + first.substr(0, 200));
        drop(k, *reg);
    } else if (mode == 2) {   // arbitrary input: failure implies a message; text depends on the input only
        Bytes in = gen_hostile(r, *reg); c.witness = in; Bytes first; Rng keep = r; c.cover(hash_str(in));
        for (int i = 0; i < 2; i++) {
            A.fill = i ? 0x5A : 0xA5; scribble(A.fill); D.reset(); Rng q = keep; void *shift = i ? vp_malloc(777) : nullptr;
            if (i) q = Rng(keep.s + 99);   // another way of delivery
            IFF_Chunk *k = lib_read(in, *reg, q); bool failed = !k; u64 m = D.messages; c.evaluations++;
            need(failed, "reading"); text_ok("reading"); c.count(failed ? "reads_failed" : "reads_succeeded");
            if (k) { D.messages = 0; bool ok = IFF_check(k, reg->lib()); need(!ok, "checking what was read"); text_ok("checking what was read"); D.messages += m; drop(k, *reg); }
            if (i == 0) { first = D.text; } else if (D.text != first && D.text.size() < 190000) c.fail("not-deterministic", "the same input gives different diagnostics: %s / %s", first.substr(0, 300).c_str(), D.text.substr(0, 300).c_str());
            vp_free(shift);
        }
        c.sample("hostile " + hex(in, 40) + " -> " + first.substr(0, 200));
    } else if (mode == 3) {   // each of the three warnings by itself
        GenOpt o; o.surplus = false; o.big = false; o.budget = 12;
        NodeP t = gen_tree(r, *reg, o); Bytes in; const char *what; u64 want = 1;
        int w = (int)r.below(3); auto v = all_nodes(*t);
        if (w == 0) { what = "trailing data"; in = encode(*t, true) + gen_data(r, 1 + r.below(9)); }
        else if (w == 1) {
            std::vector<Node *> odd; for (Node *n : v) if (n->size & 1) odd.push_back(n);
            if (odd.empty()) return;
            what = "non-zero pad byte"; want = 0; for (Node *n : odd) if (want == 0 || r.chance(1, 3)) { n->pad = (u8)(1 + r.below(255)); want++; } in = encode(*t, true);
        } else {
            std::vector<Node *> g; for (Node *n : v) if (n->is_group() && !(n->kids.empty() && n->props.empty())) g.push_back(n);
            if (g.empty()) return;
            Node *n = r.pick(g); what = "overrun";
            // the group claims to end within its last chunk, but not at or before that chunk's start
            bool last_prop = n->kids.empty(); Node *last = last_prop ? n->props.back().get() : n->kids.back().get();
            int32_t span = 8 + (int32_t)padded((u32)last->size);
            n->size -= r.chance(1, 3) ? 1 : 1 + (int32_t)r.below((u32)span - 1);
            if (n->size < 5) return;
            // what encloses the group accounts for its declared size
            for (Node *up = n->parent; up; up = up->parent) { int64_t z = 4; for (auto *l : {&up->props, &up->kids}) for (auto &q : *l) z += 8 + padded((u32)q->size); up->size = (int32_t)z; }
            in = encode(*t, true);
            Parse p = ref_parse(in, *reg); if (p.status != Parse::OK || !p.overrun || p.consumed != in.size()) { c.count("overruns_not_as_intended"); return; }
            c.count(n->size & 1 ? "overruns_of_odd_sizes" : "overruns_of_even_sizes"); if (n->parent) c.count("overruns_inside_other_groups");
        }
        c.witness = in; c.cover(mix(hash_str(in), (u64)w)); D.reset();
        IFF_Chunk *k = lib_read(in, *reg, r); c.evaluations++; c.count(what);
        if (!k) { Parse p = ref_parse(in, *reg); if (p.status == Parse::OK) c.fail("warning-is-fatal", "%s makes reading fail: %s", what, D.text.c_str()); return; }
        if (D.messages < want) c.fail("missing-warning", "%llu warnings expected for %s in %s, got %llu: %s", (unsigned long long)want, what, describe(*t, 200).c_str(), (unsigned long long)D.messages, D.text.c_str());
        text_ok(what);
        if (w == 2 && IFF_check(k, reg->lib())) c.fail("overrun-accepted", "%s passes the check", describe(*t, 200).c_str());
        c.sample(std::string(what) + ": " + D.text.substr(0, 200));
        drop(k, *reg);
    } else if (mode == 4) {   // failed writes, unreadable files
        GenOpt o = small_opts(r); NodeP t = gen_any(c, *reg, o); IFF_Chunk *k = build(*t, *reg, r); Bytes want = encode(*t, false); c.witness = want;
        for (int i = 0; i < 10; i++) {
            WStream w; w.err_at = r.below((u32)want.size()); FILE *f = w.open(); set_buffering(f, r.chance(1, 2) ? 0 : (int)r.below(6)); D.reset();
            bool ok = IFF_writeFd(f, k, reg->lib()); need(!ok, "writing"); text_ok("writing"); if (ok && D.messages) c.fail("noise", "a successful write says: %s", D.text.c_str()); fclose(f); c.evaluations++; c.count(ok ? "writes_passed" : "writes_failed");
            c.cover(mix(hash_str(want), w.err_at));
        }
        for (int i = 0; i < 4; i++) {   // by name and to the standard output: what only fails when flushing or closing
            WStream w; bool ok; int bk = (int)r.below(6); D.reset();
            if (i < 2) { VFile v; v.w = &w; v.bufsize = i ? 4096 : 1 + r.below(64); w.err_close = r.chance(1, 2); if (!w.err_close) w.err_at = r.below((u32)want.size()); vfiles["vp:out"] = &v; ok = IFF_write("vp:out", k, reg->lib()); vfiles.erase("vp:out"); }
            else { w.err_at = r.below((u32)want.size()); FILE *f = w.open(); set_buffering(f, bk); { ReplaceStd rs(&stdout, f); ok = IFF_write(nullptr, k, reg->lib()); } fclose(f); }
            need(!ok, "writing to a failing destination"); text_ok("writing to a failing destination"); if (ok && D.messages) c.fail("noise", "a successful write says: %s", D.text.c_str());
            c.evaluations++; c.count(ok ? "writes_passed" : i < 2 ? "named_writes_failed" : "standard_output_writes_failed");
        }
        {   // memory shortage while reading
            Bytes in = encode(*t, true); u64 n = 2 + r.below(30); RStream s; s.data = &in; FILE *f = s.open(); D.reset(); alloc_fail(1 + r.below((u32)n), r.chance(1, 2)); IFF_Chunk *q = IFF_readFd(f, reg->lib()); alloc_nofail(); fclose(f);
            need(!q, "reading under memory shortage"); text_ok("reading under memory shortage"); c.count(q ? "shortage_reads_passed" : "shortage_reads_failed"); c.evaluations++; if (q) drop(q, *reg);
        }
        {   // memory shortage while searching and looking up: whatever is said goes to the callback (stray output is judged below)
            auto v = all_nodes(*t); tie(*t, k); std::vector<u32> ty; for (Node *n : v) if (n->kind == H_FORM) ty.push_back(n->gtype);
            for (int i = 0; i < 4; i++) {
                unsigned len = 0; D.reset(); alloc_fail(1 + r.below(3), r.chance(1, 2));
                void *found = nullptr; Node *q = r.pick(v);
                if (i & 1) { if (q->kind == H_FORM && !q->kids.empty()) found = IFF_getChunksFromForm((IFF_Form *)q->ptr, r.pick(q->kids)->id, &len); }
                else found = IFF_searchForms(k, ty.empty() ? mkid("TEST") : ty[r.below((u32)ty.size())], &len);
                alloc_nofail(); vp_free(found); text_ok("searching under memory shortage"); c.count("shortage_searches"); c.evaluations++;
            }
        }
        for (int i = 0; i < 4; i++) {   // failing input: mostly early
            Bytes in = encode(*t, true); RStream s; s.data = &in; s.err_at = r.chance(1, 3) ? 0 : r.chance(1, 2) ? r.below(16) : r.below((u32)in.size()); if (s.err_at > in.size()) s.err_at = 0; s.max_read = r.below(4); s.rng = Rng(r.next()); FILE *f = s.open(); set_buffering(f, (int)r.below(6)); D.reset();
            IFF_Chunk *q = IFF_readFd(f, reg->lib()); fclose(f); need(!q, "reading failing input"); text_ok("reading failing input"); c.evaluations++; c.count(q ? "failing_input_read" : "failing_input_refused"); if (q) drop(q, *reg);
        }
        std::string longname; if (r.chance(1, 3)) { int parts = 1 + (int)r.below(12); for (int i = 0; i < parts; i++) longname += "/" + std::string(1 + r.below(240), (char)('a' + r.below(26))); c.count("long_names"); }
        D.reset(); std::string missing = scratch_dir + "/%s%n-missing" + longname;
        IFF_Chunk *q = IFF_read(missing.c_str(), reg->lib()); need(!q, "reading a missing file");
        if (D.text.find(missing) == Bytes::npos) { c.witness = missing; text_ok("reading a missing file"); }
        if (q) drop(q, *reg);
        D.reset(); bool wr = IFF_write((scratch_dir + "/no/dir" + longname + "/x").c_str(), k, reg->lib()); need(!wr, "writing to a missing directory"); text_ok("writing to a missing directory");
        D.reset(); q = IFF_read("", reg->lib()); need(!q, "reading a file without a name"); text_ok("reading a file without a name"); if (q) drop(q, *reg);
        D.reset(); wr = IFF_write("", k, reg->lib()); need(!wr, "writing a file without a name"); text_ok("writing a file without a name");
        c.sample("write faults in " + describe(*t, 200));
        drop(k, *reg);
    } else {   // the default callback writes the same text to the standard error, and only there
        Bytes in = gen_hostile(r, *reg); c.witness = in; c.cover(hash_str(in) ^ 5);
        D.reset(); Rng q = r; IFF_Chunk *k = lib_read(in, *reg, q); if (k) { IFF_check(k, reg->lib()); drop(k, *reg); } Bytes want = D.text;
        auto cb = IFF_errorCallback; IFF_errorCallback = &IFF_errorCallbackStderr;
        char *buf = nullptr; size_t len = 0; FILE *m = open_memstream(&buf, &len);
        { ReplaceStd rs(&stderr, m); Rng q2 = r; k = lib_read(in, *reg, q2); if (k) { IFF_check(k, reg->lib()); drop(k, *reg); } }
        fclose(m); Bytes got(buf, len); free(buf); IFF_errorCallback = cb; c.evaluations++;
        if (got != want && want.size() < 190000) { Bytes g2; for (char ch : got) g2 += ch; c.fail("default-callback", "the default callback prints %s, the installed one gets %s", got.substr(0, 300).c_str(), want.substr(0, 300).c_str()); }
        c.count("default_callback_bytes", len);
        // reporting an identifier
        D.reset(); u32 id = (u32)r.next(); for (int b = 3; b >= 0; b--) c.witness.push_back((char)(id >> (8 * b))); IFF_readError(id, "attr"); IFF_writeError(id, "attr"); text_ok("IFF_readError"); if (D.messages < 2) c.fail("silent-failure", "IFF_readError");
        if (D.text.find("attr") == Bytes::npos) c.fail("malformed-message", "the attribute is not named: %s", D.text.c_str());
    }
    fflush(stderr);
    if (fd_size(stray1) != s1) c.fail("stray-output", "something was written to the standard output");
    if (fd_size(stray2) != s2) c.fail("stray-output", "something was written to the standard error although the callback was replaced");
}
static RegisterCheck r22("C22", c22, 240000, 1000000);

// ---------------------------------------------------------------- C23
struct Seen { bool read = false; NodeP tree; Bytes text; bool ok = false; };
static Seen seen(IFF_Chunk *k, const RegModel &reg) {
    Seen s; s.text = D.text; s.read = k != nullptr; if (k) { s.tree = observe(k, 0, reg); D.reset(); s.ok = IFF_check(k, reg.lib()); s.text += "|" + D.text; drop(k, reg); } return s;
}
static void c23(Ctx &c) {
    Rng &r = c.rng;
    RegP reg = pick_reg(r);
    if (r.chance(3, 5)) {   // one input, many deliveries
        Bytes in;
        if (r.chance(1, 2)) in = gen_hostile(r, *reg); else { GenOpt o = small_opts(r); o.big = r.chance(1, 6); in = encode(*gen_any(c, *reg, o), true); if (r.chance(1, 5)) in += gen_data(r, 5); if (r.chance(1, 4)) in.resize(r.below((u32)in.size() + 1)); }
        bool giant = c.idx % 5003 == 99;
        if (giant) { GenOpt o = small_opts(r); NodeP t = gen_tree(r, *reg, o); inflate(c, *t, *reg); in = encode(*t, true); }
        c.witness = in; c.cover(hash_str(in));
        Seen base; { RStream s; s.data = &in; FILE *f = s.open(); D.reset(); IFF_Chunk *k = IFF_readFd(f, reg->lib()); base = seen(k, *reg); fclose(f); }
        int n = giant ? 2 : 5;
        for (int i = 0; i < n; i++) {
            std::string how; Seen got; D.reset(); IFF_Chunk *k = nullptr;
            Bytes pre = r.chance(1, 3) ? gen_data(r, r.below(5000)) : gen_data(r, r.below(9)), all = pre + in;
            switch (r.below(10)) {
            case 9: { int fd[2]; if (in.size() > 60000 || pipe(fd)) continue; if (write(fd[1], in.data(), in.size()) < 0) {} close(fd[1]); k = IFF_read(strf("/dev/fd/%d", fd[0]).c_str(), reg->lib()); close(fd[0]); how = "named pipe"; break; }
            case 0: { std::string p = scratch_dir + "/c23.iff"; spit(p, in); k = r.chance(1, 2) ? IFF_read(p.c_str(), reg->lib()) : IFF_readFile(p.c_str(), reg->lib()); unlink(p.c_str()); how = "named file"; break; }
            case 1: { int fd[2]; if (in.size() > 60000 || pipe(fd)) continue; if (write(fd[1], in.data(), in.size()) < 0) {} close(fd[1]); FILE *f = fdopen(fd[0], "rb"); if (r.chance(1, 2)) set_buffering(f, (int)r.below(6)); k = IFF_readFd(f, reg->lib()); fclose(f); how = "pipe"; break; }
            case 2: { RStream s; s.data = &in; s.max_read = r.below(4); s.rng = Rng(r.next()); FILE *f = s.open(); set_buffering(f, (int)r.below(6)); { ReplaceStd rs(&stdin, f); k = IFF_read(nullptr, reg->lib()); } fclose(f); how = "standard input"; break; }
            case 3: { int fd = memfd_create("x", 0); if (write(fd, all.data(), all.size()) < 0) {} FILE *f = fdopen(fd, "rb"); if (r.chance(1, 2)) set_buffering(f, (int)r.below(6)); fseek(f, (long)pre.size(), SEEK_SET); k = IFF_readFd(f, reg->lib()); fclose(f); how = strf("regular file at offset %zu", pre.size()); break; }
            case 4: { RStream s; s.data = &all; s.max_read = r.below(8); s.rng = Rng(r.next()); FILE *f = s.open(); set_buffering(f, (int)r.below(6)); for (size_t j = 0; j < pre.size(); j++) fgetc(f); k = IFF_readFd(f, reg->lib()); fclose(f); how = strf("unseekable stream at offset %zu", pre.size()); break; }
            case 5: { if (in.empty()) continue; FILE *f = fmemopen((void *)in.data(), in.size(), "rb"); k = IFF_readFd(f, reg->lib()); fclose(f); how = "memory stream"; break; }
            case 6: { RStream s; s.data = &in; s.max_read = 1; s.seekable = r.chance(1, 2); VFile v; v.r = &s; v.bufmode = _IONBF; vfiles["vp:in"] = &v; k = IFF_read("vp:in", reg->lib()); vfiles.erase("vp:in"); how = "named, unbuffered, byte by byte"; break; }
            case 7: { if (in.empty()) continue; RStream s; s.data = &all; s.seekable = true; FILE *f = s.open(); for (size_t j = 0; j < pre.size(); j++) fgetc(f); int ch = fgetc(f); ungetc(ch, f); k = IFF_readFd(f, reg->lib()); fclose(f); how = "after a pushed-back byte"; break; }
            default: { RStream s; s.data = &in; s.rng = Rng(r.next()); s.max_read = 0; s.seekable = r.chance(1, 2); FILE *f = s.open(); set_buffering(f, (int)r.below(6)); k = IFF_readFd(f, reg->lib()); fclose(f); how = "random splits"; }
            }
            got = seen(k, *reg); c.evaluations++; c.count(how.substr(0, how.find(" at offset")).c_str());
            std::string why;
            if (got.read != base.read) c.fail("other-result", "%s: %s, a plain stream %s; %s", how.c_str(), got.read ? "read" : "refused", base.read ? "read" : "refused", got.text.substr(0, 200).c_str());
            else if (got.read && !same(*base.tree, *got.tree, &why)) c.fail("other-hierarchy", "%s: %s", how.c_str(), why.c_str());
            else if (got.ok != base.ok) c.fail("other-verdict", "%s", how.c_str());
            else if (got.text != base.text) c.fail("other-diagnostics", "%s: %s / %s", how.c_str(), got.text.substr(0, 300).c_str(), base.text.substr(0, 300).c_str());
        }
        c.sample(strf("%zu bytes %s over %d deliveries: %s", in.size(), hex(in, 30).c_str(), n, base.read ? "read" : "refused"));
        return;
    }
    // consecutive chunks of one stream
    int n = 2 + (int)r.below(5); std::vector<NodeP> ts; std::vector<size_t> ends; Bytes all, back; std::vector<IFF_Chunk *> ks; u32 scope = r.chance(1, 2) ? 0 : gen_formtype(r, *reg);
    GenOpt o = small_opts(r);
    for (int i = 0; i < n; i++) { NodeP t; if (r.chance(1, 2)) { u32 b = 4; t = gen_chunk(r, *reg, o, scope, 4, b); fix_sizes(*t); set_parents(*t); } else { t = gen_tree(r, *reg, o); } ts.push_back(t); all += encode(*t, true); ends.push_back(all.size()); }
    if (c.idx % 301 == 98) for (int i = 0; i < n; i++) if (ts[(size_t)i]->kind == H_RAW) {   // large payloads in a row
        Node &t = *ts[(size_t)i]; u32 size = r.chance(1, 12) ? 1000000 + r.below(3000000) : 60000 + r.below(r.chance(1, 2) ? 12000 : 200000); t.data = gen_data(r, size); t.size = (int32_t)t.data.size(); c.count("large_payloads_in_a_row");
    }
    if (c.idx % 301 == 98) { all.clear(); ends.clear(); for (auto &t : ts) { all += encode(*t, true); ends.push_back(all.size()); } }
    c.witness = all; c.cover(hash_str(all)); Bytes tail = gen_data(r, r.below(5)), in = all + tail;
    int how = (int)r.below(3); RStream s; s.data = &in; s.max_read = r.below(6); s.rng = Rng(r.next()); s.seekable = r.chance(1, 2); FILE *f; int fd = -1;
    if (how == 0) { f = s.open(); setvbuf(f, nullptr, _IONBF, 0); }
    else if (how == 1) { fd = memfd_create("x", 0); if (write(fd, in.data(), in.size()) < 0) {} lseek(fd, 0, SEEK_SET); f = fdopen(fd, "rb"); }
    else { f = s.open(); set_buffering(f, (int)r.below(6)); }
    for (int i = 0; i < n; i++) {
        D.reset(); IFF_Chunk *k = IFF_readChunk(f, scope, reg->libx()); c.evaluations++; c.count("consecutive_chunks_read");
        if (!k) { c.fail("consecutive-not-read", "chunk %d of %d (%s): %s", i, n, describe(*ts[i], 200).c_str(), D.text.c_str()); break; }
        ks.push_back(k);
        std::string why; NodeP g = observe(k, scope, *reg);
        if (!same(*ts[i], *g, &why)) { c.fail("consecutive-differs", "chunk %d of %d: %s", i, n, why.c_str()); break; }
        size_t pos = how == 0 ? s.pos : how == 1 ? (size_t)ftell(f) : ends[i];
        if (pos != ends[i]) { c.fail("consumes-wrong-amount", "after chunk %d (%s) the stream is at %zu instead of %zu", i, describe(*ts[i], 200).c_str(), pos, ends[i]); break; }
    }
    if (!c.failed()) { Bytes rest; int ch; while ((ch = fgetc(f)) != EOF) rest.push_back((char)ch); if (rest != tail) c.fail("consumes-wrong-amount", "%zu bytes remain after the last chunk instead of %zu", rest.size(), tail.size()); }
    fclose(f);
    if (!c.failed()) {
        WStream w; w.seekable = r.chance(1, 2); f = w.open(); set_buffering(f, (int)r.below(6)); Bytes want;
        if (r.chance(2, 3)) { want = gen_data(r, r.chance(1, 2) ? 1 + 2 * r.below(4) : r.below(200)); fwrite(want.data(), 1, want.size(), f); }   // the chunks follow something else
        for (int i = 0; i < n; i++) { want += encode(*ts[i], false); if (!IFF_writeChunk(f, ks[i], scope, reg->libx())) c.fail("consecutive-not-written", "chunk %d", i); }
        fclose(f); c.count("consecutive_chunks_written", (u64)n);
        if (w.out != want) c.fail("consecutive-written-differ", "%d chunks written one after another do not give the concatenation of their encodings", n);
    }
    for (auto k : ks) IFF_freeChunk(k, scope, reg->libx());
}
static RegisterCheck r23("C23", c23, 170000, 700000);

// ---------------------------------------------------------------- C25
struct Cost {
    u64 steps_read = 0, steps_write = 0, steps_free = 0, steps_check = 0, steps_compare = 0, steps_search = 0, steps_lookup = 0, steps_print = 0, steps_sizes = 0;
    size_t peak = 0, taken = 0, n = 0, chunks = 0, written = 0, maxdata = 0, printed = 0, depth = 0, props = 0, found = 0; bool ok = false, used = false;
};
static size_t depth_of(const Node &n) { size_t d = 0; for (const Node *p = n.parent; p; p = p->parent) d++; return d + 1; }
static size_t max_leaf(Node &t) { size_t m = 0; for (Node *n : all_nodes(t)) if (!n->is_group()) m = std::max(m, (size_t)std::max(0, n->size)); return m; }
static Cost measure(const Bytes &in, const RegModel &reg, bool use = false, u32 pick = 0) {
    Cost k; k.n = in.size(); k.used = use;
    RStream s; s.data = &in; FILE *f = s.open(); setvbuf(f, nullptr, _IOFBF, 256);
    size_t live = A.live_bytes; A.peak_bytes = live; A.max_request = 0; u64 s0 = vp_steps; D.reset();
    IFF_Chunk *c = IFF_readFd(f, reg.lib());
    k.steps_read = vp_steps - s0; k.peak = A.peak_bytes - live; k.taken = s.bytes; fclose(f);
    k.maxdata = A.max_request;
    if (c) {
        k.ok = true; NodeP t = observe(c, 0, reg); k.chunks = all_nodes(*t).size();
        WStream w; f = w.open(); s0 = vp_steps; IFF_writeFd(f, c, reg.lib()); k.steps_write = vp_steps - s0; fclose(f); k.written = w.out.size();
        if (use) {
            IFF_Chunk *c2; { RStream s2; s2.data = &in; f = s2.open(); c2 = IFF_readFd(f, reg.lib()); fclose(f); }
            std::vector<Node *> v = all_nodes(*t); std::vector<Node *> forms; size_t worst = 0;
            for (Node *x : v) { k.depth = std::max(k.depth, depth_of(*x)); worst = std::max(worst, x->props.size()); if (x->kind == H_FORM) forms.push_back(x); }
            k.props = worst; auto timed = [&](u64 &to, auto fn) { u64 at = vp_steps; fn(); to = std::max(to, vp_steps - at); };
            D.reset(); timed(k.steps_check, [&] { IFF_check(c, reg.lib()); });
            if (c2) { timed(k.steps_compare, [&] { IFF_compare(c, c2, reg.lib()); }); drop(c2, reg); }
            const char *many[] = {"ZZZZ", "TEST", "8SVX", "ILBM", "AAAA", "BBBB", "CCCC", "DDDD"}; IFF_ID ty[8]; for (int i = 0; i < 8; i++) ty[i] = mkid(many[(i + pick) % 8]);
            for (const char *id : {"TEST", "ZZZZ", "ILBM"}) { unsigned len = 0; void *r = nullptr; timed(k.steps_search, [&] { r = IFF_searchForms(c, mkid(id), &len); }); vp_free(r); k.found += len; }
            { unsigned len = 0; void *r = nullptr; timed(k.steps_search, [&] { r = IFF_searchFormsFromArray(c, ty, 8, &len); }); vp_free(r); k.found += len; }
            for (int i = 0; i < 4 && !forms.empty(); i++) {
                Node *x = i == 0 ? forms[0] : i == 1 ? forms.back() : forms[(pick * 7 + (u32)i * 31) % forms.size()]; u32 id = (pick + (u32)i) & 1 || x->kids.empty() ? mkid("ZZZY") : x->kids.back()->id;
                timed(k.steps_lookup, [&] { IFF_getChunkFromForm((IFF_Form *)x->ptr, id); IFF_getDataChunkFromForm((IFF_Form *)x->ptr, id); });
                unsigned len = 0; void *r = nullptr; timed(k.steps_lookup, [&] { r = IFF_getChunksFromForm((IFF_Form *)x->ptr, id, &len); }); vp_free(r);
            }
            Node *last = v.back(); timed(k.steps_sizes, [&] { IFF_updateChunkSizes(last->ptr); });
            if (pick % 4 == 0) { CaptureStdout cap; timed(k.steps_print, [&] { IFF_print(c, 0, reg.lib()); }); k.printed = cap.finish().size(); }
        }
        s0 = vp_steps; drop(c, reg); k.steps_free = vp_steps - s0;
    }
    return k;
}
static Bytes family(int which, int n, u32 seed) {   // about 12 n .. 16 n bytes
    Bytes b; Rng r(seed);
    auto hdr = [&](const char *id, u32 size) { b.append(id, 4); b += be(size, 4); };
    switch (which) {
    case 0: hdr("FORM", 4 + 8u * (u32)n); b += "TEST"; for (int i = 0; i < n; i++) hdr("NAME", 0); break;                       // empty chunks
    case 1: hdr("CAT ", 4 + 12u * (u32)n); b += "JJJJ"; for (int i = 0; i < n; i++) { hdr("FORM", 4); b += "TEST"; } break;      // wide
    case 2: hdr("LIST", 4 + 12u * (u32)n); b += "JJJJ"; for (int i = 0; i < n; i++) { hdr("PROP", 4); b += be(0x41414141u + (u32)(i / 676 % 26) * 0x10000u + (u32)(i / 26 % 26) * 0x100u + (u32)(i % 26), 4); } break;   // many shared properties
    case 3: { int d = std::min(n, 1200); for (int i = 0; i < d; i++) { hdr(i % 3 == 0 ? "LIST" : i % 3 == 1 ? "CAT " : "FORM", 4 + 12u * (u32)(d - 1 - i)); b += i % 3 == 2 ? "TEST" : "JJJJ"; } break; }   // deep
    case 4: hdr("FORM", 4 + 10u * (u32)n); b += "TEST"; for (int i = 0; i < n; i++) { hdr("BODY", 1); b.push_back(1); b.push_back((char)0); } break;   // odd sizes
    case 5: hdr("FORM", 12 + 12u * (u32)n); b += "TEST"; hdr("BODY", 12u * (u32)n); b.append(12u * (size_t)n, 'x'); break;         // one big chunk
    case 6: hdr("FORM", 12 + 12u * (u32)n); b += "TEST"; hdr("HELO", 12u * (u32)n); b.append(12u * (size_t)n, 'x'); break;         // surplus of an extension chunk
    case 7: hdr("FORM", 5); b += "TEST"; for (int i = 0; i < n; i++) hdr("NAME", 0); break;                                        // trailing data
    case 8: hdr("FORM", 0x7fffffff); b += "TEST"; for (int i = 0; i < n; i++) hdr("NAME", 0); break;                               // truncated
    case 9: hdr("LIST", 0x7ffffffe); b += "JJJJ"; for (int i = 0; i < n; i++) { hdr(i % 2 ? "PROP" : "CAT ", 4); b += "ILBM"; } break; // truncated list
    case 10: hdr("CAT ", 4 + 9u * (u32)n + (u32)n); b += "JJJJ"; for (int i = 0; i < n; i++) { hdr("FORM", 1 + 2 * (i % 2)); b += i % 2 ? "abc" : "a"; b.push_back((char)0); if (i % 2) {} } break;          // groups too small for their type
    case 11: hdr("FORM", 4 + 12u * (u32)n); b += "TEST"; for (int i = 0; i < n; i++) { hdr("FORM", 4); b += i % 2 ? "ILBM" : "TEST"; } break;
    case 12: hdr("LIST", 4 + 12u * (u32)n); b += "JJJJ"; for (int i = 0; i < n; i++) { hdr("LIST", 4); b += "JJJJ"; } break;
    default: { hdr("LIST", 4 + 24u * (u32)(n / 2)); b += "JJJJ"; for (int i = 0; i < n / 2; i++) { hdr("LIST", 16); b += "JJJJ"; hdr("PROP", 4); b += "TEST"; } break; }
    }
    return b;
}
static const u64 STEP_A = 200, STEP_B = 3000;   // steps allowed per byte and per read
static void c25(Ctx &c) {
    Rng &r = c.rng;
    auto judge = [&](const Cost &k, const std::string &what, const RegModel &reg) {
        u64 per_lookup = 8;   // handler lookup is logarithmic in the number of registered types
        c.evaluations++; c.count("bytes_read", k.taken); c.count("steps_read", k.steps_read);
        u64 A0 = STEP_A + per_lookup * 4;
        if (k.steps_read > A0 * k.taken + STEP_B) c.fail("steps", "%s: reading %zu bytes (of %zu offered) took %llu steps", what.c_str(), k.taken, k.n, (unsigned long long)k.steps_read);
        if (k.peak > 64 * k.taken + k.maxdata + 262144) c.fail("memory", "%s: reading %zu bytes held %zu bytes of memory (largest request %zu)", what.c_str(), k.taken, k.peak, k.maxdata);
        if (k.ok && k.steps_write > A0 * (k.written + 8 * k.chunks) + STEP_B) c.fail("steps-write", "%s: writing %zu bytes (%zu chunks) took %llu steps", what.c_str(), k.written, k.chunks, (unsigned long long)k.steps_write);
        if (k.ok && k.steps_free > A0 * 8 * k.chunks + STEP_B) c.fail("steps-free", "%s: freeing %zu chunks took %llu steps", what.c_str(), k.chunks, (unsigned long long)k.steps_free);
        if (k.ok && k.used) {
            u64 all = k.written + 8 * k.chunks, deep = std::max<size_t>(1, k.depth); c.count("hierarchies_used");
            auto most = [&](const char *op, u64 steps, u64 bound) { if (steps > bound) c.fail("steps-use", "%s: %s %zu chunks (%zu bytes, depth %zu) took %llu steps", what.c_str(), op, k.chunks, k.written, k.depth, (unsigned long long)steps); };
            most("checking", k.steps_check, A0 * all + 16 * (u64)k.props * k.chunks + STEP_B); most("comparing", k.steps_compare, A0 * all + STEP_B);
            most("searching", k.steps_search, A0 * k.chunks * 8 * deep + STEP_B); most("looking up in", k.steps_lookup, A0 * k.chunks * 2 + STEP_B);
            most("recalculating sizes in", k.steps_sizes, A0 * k.chunks + STEP_B); most("printing", k.steps_print, A0 * (k.printed + 8 * k.chunks) + STEP_B);
            c.count("steps_of_use", k.steps_check + k.steps_compare + k.steps_search + k.steps_lookup + k.steps_sizes + k.steps_print); c.count("forms_found", k.found);
        }
        if (k.n) { u64 q = k.steps_read * 10 / (k.taken + 50); if (q > c.counters["max_steps_per_10_bytes"]) c.counters["max_steps_per_10_bytes"] = q; }
    };
    if (c.idx % 128 == 0) {   // scaling: 4 times the input, at most 4 times the work (and some slack)
        int which = (int)((c.idx / 128) % 14); RegP reg = r.chance(1, 2) ? reg_test() : r.chance(1, 2) ? reg_rich() : reg_default();
        int n = c.thorough ? 2000 + (int)r.below(6000) : 400 + (int)r.below(800); if (which == 3) n = 150 + (int)r.below(150);
        Bytes b1 = family(which, n, 1), b4 = family(which, 4 * n, 1); c.witness = b1.substr(0, 200);
        u32 pick = r.below(64); Cost k1 = measure(b1, *reg, true, pick), k4 = measure(b4, *reg, true, pick); std::string what = strf("family %d with %d and %d elements", which, n, 4 * n);
        judge(k1, what, *reg); judge(k4, what, *reg); c.count("scaling_pairs"); c.cover(mix((u64)which, (u64)n));
        auto lin = [&](const char *w, u64 a, u64 b) { if (b > 6 * a + 2000) c.fail("super-linear", "%s: %s grows from %llu to %llu for 4 times the input", what.c_str(), w, (unsigned long long)a, (unsigned long long)b); };
        lin("steps of reading", k1.steps_read, k4.steps_read); lin("steps of writing", k1.steps_write, k4.steps_write); lin("steps of freeing", k1.steps_free, k4.steps_free); lin("bytes taken", k1.taken, k4.taken);
        if (which != 3) {   // (nested results are handed upwards, so depth counts)
            if (k4.props < 16) lin("steps of checking", k1.steps_check, k4.steps_check);
            lin("steps of comparing", k1.steps_compare, k4.steps_compare); lin("steps of searching", k1.steps_search, k4.steps_search); lin("steps of looking up", k1.steps_lookup, k4.steps_lookup); lin("steps of recalculating sizes", k1.steps_sizes, k4.steps_sizes); lin("steps of printing", k1.steps_print, k4.steps_print);
        }
        if (k4.peak > 6 * k1.peak + 65536) c.fail("super-linear", "%s: memory grows from %zu to %zu", what.c_str(), k1.peak, k4.peak);
        c.sample(strf("%s: %llu -> %llu steps, %zu -> %zu bytes held", what.c_str(), (unsigned long long)k1.steps_read, (unsigned long long)k4.steps_read, k1.peak, k4.peak));
        return;
    }
    RegP reg = pick_reg(r);
    Bytes in = r.chance(1, 4) ? encode(*gen_tree(r, *reg, GenOpt()), true) : gen_hostile(r, *reg);
    c.witness = in; c.cover(hash_str(in));
    Cost k = measure(in, *reg, r.chance(1, 2), r.below(64)); judge(k, strf("input %s", hex(in, 40).c_str()), *reg);
    c.count(k.ok ? "inputs_read" : "inputs_refused");
}
static RegisterCheck r25("C25", c25, 40000, 500000);
