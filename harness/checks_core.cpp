// C02 C03 C04 C09 C10 C11 C12 C13 C17 C20 C24 C26
#include "checks.h"

static GenOpt opts(Ctx &c) { GenOpt o; o.enormous = true; o.budget = c.rng.chance(1, 3) ? 60 : 15; if (c.thorough && c.rng.chance(1, 20)) o.budget = 400; return o; }

// ---------------------------------------------------------------- C02
static void c02(Ctx &c) {
    Rng &r = c.rng;
    RegP reg = pick_reg(r);
    NodeP t = gen_any(c, *reg, opts(c));
    if (c.idx % 3557 == 99) inflate(c, *t, *reg);
    Bytes want = encode(*t, false);
    c.witness = want;
    IFF_Chunk *k = obtain(c, *t, *reg);
    c.cover(shape(*t)); c.count("bytes_expected", want.size()); c.count("chunks", all_nodes(*t).size());
    auto verdict = [&](const char *dest, bool ok, const Bytes &got) {
        c.evaluations++;
        c.count(dest);
        if (!ok) c.fail("write-failed", "writing %s to a sound destination (%s) reported failure; %s", describe(*t).c_str(), dest, D.text.c_str());
        else if (got != want) {
            size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
            c.fail("wrong-bytes", "%s of %s: %zu bytes written, %zu expected, first difference at %zu: got %s expected %s", dest, describe(*t).c_str(), got.size(), want.size(), i, hex(got.substr(i, 16)).c_str(), hex(want.substr(i, 16)).c_str());
        }
    };
    {
        WStream w; w.seekable = r.chance(1, 2); FILE *f = w.open(); if (r.chance(1, 2)) set_buffering(f, (int)r.below(6));
        bool ok = IFF_writeFd(f, k, reg->lib()); fclose(f); verdict("to_open_stream", ok, w.out);
    }
    {
        WStream w; w.seekable = r.chance(1, 2); VFile v; v.w = &w; v.bufmode = r.chance(1, 4) ? _IONBF : _IOFBF; v.bufsize = 1 + r.below(500);
        vfiles["vp:out"] = &v;
        bool ok = r.chance(1, 2) ? IFF_write("vp:out", k, reg->lib()) : IFF_writeFile("vp:out", k, reg->lib());
        vfiles.erase("vp:out"); verdict("to_named_stream", ok, w.out);
    }
    if (r.chance(1, 2)) {
        WStream w; w.seekable = r.chance(1, 2); FILE *f = w.open(); set_buffering(f, (int)r.below(6));
        bool ok;
        { ReplaceStd s(&stdout, f); ok = IFF_write(nullptr, k, reg->lib()); }
        fclose(f); verdict("to_standard_output", ok, w.out);
    }
    if (r.chance(1, 6)) {
        std::string path = scratch_dir + "/c02.iff";
        if (r.chance(1, 2)) spit(path, gen_data(r, (u32)want.size() + 100));   // something longer was there
        bool ok = IFF_writeFile(path.c_str(), k, reg->lib());
        verdict("to_real_file", ok, slurp(path));
        unlink(path.c_str());
    }
    if (r.chance(1, 4)) {   // any part of the hierarchy, after something else
        auto v = all_nodes(*t); Node *n = v[r.below((u32)v.size())];
        Bytes pre = gen_data(r, r.below(5));
        WStream w; w.seekable = r.chance(1, 2); FILE *f = w.open(); fwrite(pre.data(), 1, pre.size(), f);
        want = pre + encode(*n, false);
        bool ok = IFF_writeChunk(f, n->ptr, scope_of(*n), reg->libx()); fclose(f); verdict("part_to_open_stream", ok, w.out);
    }
    if (r.chance(1, 4)) for (int i = 0; i < 2; i++) {   // the same hierarchy, changed in place since it was written
        std::string w2; std::function<void()> undo;
        if (!poke(r, *reg, *t, w2, undo)) break;
        want = encode(*t, false);
        WStream w; FILE *f = w.open(); bool ok = IFF_writeFd(f, k, reg->lib()); fclose(f); verdict("again_after_a_change_in_place", ok, w.out);
    }
    c.sample(describe(*t));
    drop(k, *reg);
}
static RegisterCheck r02("C02", c02, 160000, 400000);

// ---------------------------------------------------------------- C03
static void c03(Ctx &c) {
    Rng &r = c.rng;
    RegP reg = pick_reg(r);
    GenOpt o = opts(c); o.pads = r.chance(1, 3);
    NodeP t = gen_any(c, *reg, o);
    if (c.idx % 7559 == 99) inflate(c, *t, *reg);
    bool late = false;
    if (r.chance(1, 12)) for (Node *n : all_nodes(*t)) if (n->kind == H_LIST && !n->props.empty() && !n->kids.empty() && r.chance(2, 3)) { n->late = 1 + r.below(65535); late = true; }
    Bytes b = encode(*t, true), in = b; if (late) c.count("shared_properties_between_members");
    bool trailing = r.chance(1, 5);
    if (trailing) in += gen_data(r, 1 + r.below(30));
    c.witness = in;
    c.cover(shape(*t)); c.count("bytes_read", in.size()); c.evaluations++;
    IFF_Chunk *k = lib_read(in, *reg, r);
    if (!k) { c.fail("not-read", "a well-formed stream was not read: %s; %s", describe(*t).c_str(), D.text.c_str()); return; }
    std::string link, why;
    NodeP got = observe(k, 0, *reg, &link);
    c.count("chunks_compared", all_nodes(*got).size());
    if (!same(*t, *got, &why)) c.fail("differs", "read differs from encoded (%s): %s", describe(*t).c_str(), why.c_str());
    if (!link.empty()) c.fail("links", "%s in %s", link.c_str(), describe(*t).c_str());
    if (!c.failed()) {
        bool ok; Bytes w = lib_write(k, *reg, &ok), want = encode(*t, false);
        if (!has_surplus(*t)) { c.count("reproduced_exactly"); if (!late && want != b) { harness_die("encoder mismatch"); } }
        if (!ok || w != want) c.fail("rewrite", "writing the hierarchy that was read does not reproduce the input: %s", describe(*t).c_str());
        else if (r.chance(1, 3)) {   // and reading that again
            IFF_Chunk *k2 = lib_read(w, *reg, r);
            NodeP t2 = clone(*t); for (Node *n : all_nodes(*t2)) { n->pad = 0; }
            if (!k2 || !same(*t2, *observe(k2, 0, *reg), &why)) c.fail("reread", "second reading differs: %s", why.c_str());
            drop(k2, *reg);
        }
    }
    if (trailing) c.count("with_trailing_bytes");
    if (o.pads) c.count("with_nonzero_pads");
    c.sample(describe(*t));
    drop(k, *reg);
}
static RegisterCheck r03("C03", c03, 240000, 1000000);

// ---------------------------------------------------------------- C04
static u32 bad_formtype(Rng &r) {
    static const char *w[] = {"FORM", "CAT ", "LIST", "PROP", "JJJJ", "test", "TESt", "tEST", "TE.T", "T,ST", "TES-", "!EST", "A:BC", "AB@C", "AB[C", "ABC`", "ABC~", "AB/C", "A;BC", "{ABC", "A_BC"};
    switch (r.below(4)) {
    case 0: return mkid(w[r.below(21)]);
    case 1: { const char *s[] = {"FOR0", "CAT0", "LIS0"}; return mkid(s[r.below(3)]) + 1 + r.below(9); }
    case 2: { u32 v = mkid("ABCD"); int i = (int)r.below(4); u8 ch; do ch = (u8)r.next(); while (ch == ' ' || (ch >= '0' && ch <= '9') || (ch >= 'A' && ch <= 'Z')); return (v & ~(0xffu << (8 * i))) | (u32)ch << (8 * i); }
    default: { u32 v = mkid("A BC"); return r.chance(1, 2) ? (v & 0xffffff) | 0x20000000 : v; }
    }
}
static NodeP leaf(Rng &r, const RegModel &reg, u32 scope, u32 id) {
    auto q = std::make_shared<Node>(); q->id = id; q->slot = SLOT_RAW; q->kind = H_RAW; q->size = (int)r.below(9); q->data = gen_data(r, (u32)q->size);
    set_ids(*q, reg, scope); return q;
}
static NodeP group(int kind, u32 type) {
    auto q = std::make_shared<Node>(); q->kind = (HKind)kind; q->id = kind == H_FORM ? ID_FORM : kind == H_CAT ? ID_CAT : kind == H_LIST ? ID_LIST : ID_PROP; q->slot = kind; q->gtype = type; q->size = 4; return q;
}
static void ins(Rng &r, Node &g, NodeP k) { k->parent = &g; g.kids.insert(g.kids.begin() + r.below((u32)g.kids.size() + 1), k); }
static void refit(Node *from) {   // sizes of the groups from this one up to the top, leaving the rest alone
    for (Node *p = from; p; p = p->parent) if (p->is_group()) {
        int64_t s = 4; for (auto *l : {&p->props, &p->kids}) for (auto &k : *l) s += 8 + padded((u32)k->size);
        p->size = (int32_t)s;
    }
}
static void c04(Ctx &c) {
    Rng &r = c.rng;
    RegP reg = pick_reg(r);
    GenOpt o = opts(c); o.big = r.chance(1, 3);
    NodeP t = gen_tree(r, *reg, o);
    int nviol = r.chance(2, 5) ? 0 : r.chance(4, 5) ? 1 : 2; bool wide = false;
    if (c.idx % 9973 == 4242) { static const int ks[] = {H_FORM, H_CAT, H_LIST}; stretch(c, t, *reg, 65537 + (int)r.below(9), ks[(c.idx / 9973 + c.seed) % 3]); wide = true; nviol = r.chance(3, 4); }
    else if (r.chance(1, 150)) { stretch(c, t, *reg, 256 + (int)r.below(20)); wide = true; }
    bool built_only = false; std::vector<std::pair<Node *, int32_t>> forced;
    std::string what;
    for (int i = 0; i < nviol; i++) {
        auto v = all_nodes(*t);
        Node *n = v[r.below((u32)v.size())];
        if (wide && r.chance(2, 3)) n = v[v.size() - 1 - r.below((u32)std::min<size_t>(v.size(), 6))];
        for (int tries = 0; tries < 8; tries++) {
            int w = (int)r.below(17);
            Node *p = n->parent;
            bool done = true;
            switch (w) {
            case 0: { if (n->is_group()) { done = false; break; }
                u32 id; int pos = (int)r.below(4); u8 ch; do ch = (u8)r.next(); while (pos == 3 ? ch > 0x20 && ch <= 0x7e : ch >= 0x20 && ch <= 0x7e);
                id = (n->id & ~(0xffu << (8 * pos))) | (u32)ch << (8 * pos); if (id == ID_FILLER) done = false; else n->id = id; set_ids(*n, *reg, scope_of(*n)); what += "illegal chunk id;"; break; }
            case 1: if (n->kind == H_FORM || n->kind == H_PROP) { n->gtype = bad_formtype(r); what += "illegal form type;"; } else done = false; break;
            case 2: if (n->is_group()) { forced.push_back({n, r.chance(1, 3) ? 0 : (int32_t)(r.chance(1, 2) ? r.below(5) + 1 : -(int)r.below(5) - 1)}); what += "group size;"; } else done = false; break;
            case 3: if (n->kind == H_CAT || n->kind == H_LIST) { ins(r, *n, leaf(r, *reg, n->gtype, gen_dataid(r, o))); refit(n); what += "data chunk in CAT/LIST;"; } else done = false; break;
            case 4: if (n->kind == H_CAT || n->kind == H_FORM) { ins(r, *n, group(H_PROP, n->gtype == ID_JJJJ ? mkid("TEST") : n->gtype)); refit(n); what += "PROP outside LIST;"; } else done = false; break;
            case 5: if (n->kind == H_PROP) { ins(r, *n, group(H_FORM + (int)r.below(4), r.chance(1, 2) ? n->gtype : mkid("TEST"))); refit(n); what += "group in PROP;"; } else done = false; break;
            case 6: if (n->kind == H_LIST) { NodeP q = n->props.empty() || r.chance(1, 2) ? group(H_PROP, gen_formtype(r, *reg)) : clone(*n->props[r.below((u32)n->props.size())]); q->parent = n; n->props.insert(n->props.begin() + r.below((u32)n->props.size() + 1), q); refit(n); what += "one more PROP;"; if (r.chance(1, 8)) forced.push_back({n, 0}); } else done = false; break;
            case 7: if ((n->kind == H_CAT || n->kind == H_LIST) && n->gtype != ID_JJJJ) { int kk = H_FORM + (int)r.below(3); ins(r, *n, group(kk, r.chance(1, 3) ? ID_JJJJ : gen_formtype(r, *reg))); refit(n); what += "member of another type;"; } else done = false; break;
            case 8: if (n->kind == H_CAT || n->kind == H_LIST) { n->gtype = r.chance(1, 2) ? gen_formtype(r, *reg) : r.chance(1, 2) ? (u32)r.next() : bad_formtype(r); what += "other contents type;"; } else done = false; break;
            case 9: if (n->kind == H_EXT && slots[n->slot].def.rule_field >= 0 && slots[n->slot].def.rule_max != 0xffffffff && slots[n->slot].def.fit(n->size) > slots[n->slot].def.rule_field) { int w2 = field_size(slots[n->slot].def.fields[slots[n->slot].def.rule_field]); u32 m = w2 == 4 ? 0xffffffff : (1u << (8 * w2)) - 1; n->vals[slots[n->slot].def.rule_field] = r.chance(1, 2) ? m : (slots[n->slot].def.rule_max + 1) & m; what += "extension rule;"; } else done = false; break;
            case 10: if (!p) { u32 id = r.chance(1, 2) ? ID_PROP : gen_dataid(r, o); if (id == ID_PROP) { n->props.clear(); n->id = ID_PROP; n->kind = H_PROP; n->slot = SLOT_PROP; refit(n); } else { t = leaf(r, *reg, 0, id); forced.clear(); } what += "main chunk;"; } else done = false; break;
            case 11: if (!n->is_group()) { forced.push_back({n, (int32_t)(r.chance(1, 3) ? INT32_MIN : -(int)r.below(20) - 1)}); forced.back().second = INT32_MIN + 1000 + (r.chance(1, 2) ? 0 : (int)r.below(100)); what += "negative size;"; } else done = false; break;
            case 12: if (n->is_group()) { n->gtype = n->kind == H_CAT || n->kind == H_LIST ? (r.chance(1, 2) ? ID_FILLER : (u32)r.next()) : gen_formtype(r, *reg); what += "other group type;"; } else done = false; break;
            case 13: if (n->kind == H_FORM && p) { n->kind = H_CAT; n->id = ID_CAT; n->slot = SLOT_CAT; what += "FORM made CAT;"; } else done = false; break;
            case 14: if (n->kind == H_CAT || n->kind == H_LIST) { n->props.clear(); n->kind = H_FORM; n->id = ID_FORM; n->slot = SLOT_FORM; refit(n); what += "CAT/LIST made FORM;"; } else done = false; break;
            case 15: if (!n->is_group() && n->kind == H_RAW && p) { n->size += 1 + (int)r.below(3); n->data = gen_data(r, (u32)n->size); what += "data chunk resized without its group;"; } else done = false; break;
            case 16: if (p && n->is_group() && !n->kids.empty()) { n->kids.erase(n->kids.begin() + r.below((u32)n->kids.size())); if (r.chance(1, 2)) refit(n); what += "sub chunk removed;"; } else done = false; break;
            }
            if (done) break;
        }
    }
    set_parents(*t);
    set_ids(*t, *reg, 0);
    std::set<Node *> seen;
    for (auto &f : forced) {
        bool alive = false; for (Node *x : all_nodes(*t)) if (x == f.first) alive = true;
        if (!alive || !seen.insert(f.first).second) continue;
        if (f.first->is_group() && !f.second) {   // a size that leaves out or repeats a part of the contents, or agrees in some of its bytes only
            Node &n = *f.first; int64_t d = 0;
            switch (r.below(6)) {
            case 0: for (auto &q : n.props) d -= 8 + padded((u32)q->size); break;
            case 1: for (auto *l : {&n.props, &n.kids}) if (!l->empty()) { d = -(int64_t)(8 + padded((u32)(*l)[r.below((u32)l->size())]->size)); if (r.chance(1, 3)) d = -d; } break;
            case 2: for (auto *l : {&n.props, &n.kids}) for (auto &q : *l) d -= q->size & 1; break;
            case 3: for (auto *l : {&n.props, &n.kids}) d -= 8 * (int64_t)l->size(); break;
            case 4: d = -4; break;
            default: d = (int64_t)(1 + r.below(200)) << (8 * (1 + r.below(3))); if (d > INT32_MAX / 2) d = 1 << 24; break;
            }
            if (n.size + d >= 0 && n.size + d <= INT32_MAX && d) { n.size += (int32_t)d; if (d > 4096) built_only = true; }
        }
        else if (f.first->is_group()) f.first->size += f.second;
        else if (f.first->kind == H_RAW) f.first->size = f.second + INT32_MAX > 0 && r.chance(1, 2) ? -1 - (int)r.below(9) : INT32_MIN + (int)r.below(3);
        else f.first->size = -1 - (int)r.below(9);
    }
    // negative sizes would make the model's data ambiguous: only built hierarchies have them
    bool neg = false; for (Node *x : all_nodes(*t)) if (x->size < 0) neg = true;
    NodeP m = t; IFF_Chunk *k = nullptr; const char *how;
    if (neg || built_only || r.chance(1, 2)) {
        how = "built";
        bool want = ref_check(*t, true);
        for (Node *x : all_nodes(*t)) if (x->kind == H_RAW && x->size < 0 && x->data.size() > 64) x->data.resize(64);
        k = build(*t, *reg, r);
        c.note = "built, " + what; c.witness = neg || built_only ? Bytes() : encode(*t, true);
        D.reset();
        bool got = IFF_check(k, reg->lib());
        c.evaluations++; c.cover(mix(shape(*t), want)); c.count(want ? "conforming_built" : "violating_built");
        if (got != want) c.fail(want ? "rejects-conforming" : "accepts-violation", "%s hierarchy %s: check says %d, the rules say %d (%s) %s", how, describe(*t).c_str(), got, want, what.c_str(), D.text.substr(0, 200).c_str());
        if (!neg && r.chance(1, 2)) {   // the same hierarchy, judged again after changes in place and after taking them back
            std::function<void()> undo; std::string w2;
            for (int i = 0, q = 1 + (int)r.below(3); i < q && poke(r, *reg, *t, w2, undo, true); i++) for (int back = 0; back < 2; back++) {
                bool w = ref_check(*t, true), g = IFF_check(k, reg->lib()); c.evaluations++; c.count("judged_again_after_a_change_in_place"); if (w != want) c.count("changes_in_place_that_matter");
                if (g != w) c.fail(w ? "rejects-conforming" : "accepts-violation", "judged again after a change (%s%s): %s: check says %d, the rules say %d", w2.c_str(), back ? ", taken back" : "", describe(*t).c_str(), g, w);
                if (back || r.chance(1, 4)) break;
                undo();
            }
        }
        // negative sizes: release needs no size
        drop(k, *reg);
    } else {
        how = "read";
        for (Node *x : all_nodes(*t)) if (r.chance(1, 40)) x->pad = 1;
        Bytes b = encode(*t, true);
        if (r.chance(1, 4)) b += gen_data(r, 64);   // so that overruns can be read
        c.witness = b; c.note = "read, " + what;
        Parse p = ref_parse(b, *reg);
        k = lib_read(b, *reg, r);
        if (p.status != Parse::OK || !k) { c.count("not_readable"); drop(k, *reg); return; }
        bool want = ref_check(*p.top, true);
        bool got = IFF_check(k, reg->lib());
        c.evaluations++; c.cover(mix(shape(*p.top), want)); c.count(want ? "conforming_read" : "violating_read");
        if (p.overrun) c.count("overruns_read");
        if (got != want) c.fail(want ? "rejects-conforming" : "accepts-violation", "%s hierarchy %s: check says %d, the rules say %d (%s) %s", how, describe(*p.top).c_str(), got, want, what.c_str(), D.text.substr(0, 200).c_str());
        drop(k, *reg);
    }
    if (nviol) c.sample(what + " in " + describe(*t, 200));
}
static RegisterCheck r04("C04", c04, 500000, 1500000);

// ---------------------------------------------------------------- C09
// makes exactly one difference; false if it could not
bool differ(Rng &r, const RegModel &reg, NodeP &t, std::string &what) {
    auto v = all_nodes(*t);
    Node *n = r.chance(1, 4) ? v.back() : v[r.below((u32)v.size())];
    auto relist = [&](bool props) -> std::vector<NodeP> & { return props ? n->props : n->kids; };
    switch (r.below(13)) {
    case 0: if (n->kind != H_RAW || n->data.empty()) return false; { size_t p = r.chance(1, 3) ? 0 : r.chance(1, 2) ? n->data.size() - 1 : r.below((u32)n->data.size()); n->data[p] = (char)(n->data[p] ^ (1 << r.below(8))); what = strf("bit in data byte %zu of %d", p, n->size); } return true;
    case 1: if (n->kind != H_EXT) return false; { int k = slots[n->slot].def.fit(n->size); if (!k) return false; int i = (int)r.below((u32)k); u32 m = field_size(slots[n->slot].def.fields[i]) == 4 ? 0xffffffffu : (1u << (8 * field_size(slots[n->slot].def.fields[i]))) - 1; u32 x = n->vals[i]; n->vals[i] = (x ^ (1u << r.below(32))) & m; if (n->vals[i] == x) n->vals[i] = x ^ 1; what = "extension field"; } return true;
    case 2: if (!n->is_group()) return false; { u32 x = n->gtype; n->gtype ^= 1u << r.below(32); for (auto *l : {&n->props, &n->kids}) for (auto &k : *l) if (!k->is_group() && reg.find(n->gtype, k->id) != k->slot) { n->gtype = x; return false; } what = "group type"; } return true;
    case 3: if (n->is_group()) return false; { u32 x = n->id; n->id ^= 1u << r.below(32); if (n->id == ID_FORM || n->id == ID_CAT || n->id == ID_LIST || n->id == ID_PROP || reg.find(scope_of(*n), n->id) != n->slot) { n->id = x; return false; } what = "identifier"; } return true;
    case 4: if (n->kind != H_RAW) return false; n->size++; n->data.push_back(r.chance(1, 2) ? 0 : 7); what = "one more data byte"; refit(n->parent); return true;
    case 5: if (n->kind != H_RAW || !n->size) return false; n->size--; n->data.pop_back(); what = "one data byte less"; refit(n->parent); return true;
    case 6: { bool pr = n->kind == H_LIST && r.chance(1, 2); if (!n->is_group()) return false; NodeP q = pr ? group(H_PROP, mkid("TEST")) : n->kind == H_FORM || n->kind == H_PROP ? leaf(r, reg, n->gtype, mkid("ZZZZ")) : group(H_FORM, n->gtype); q->parent = n; auto &l = relist(pr); l.insert(l.begin() + r.below((u32)l.size() + 1), q); refit(n); what = pr ? "one more PROP" : "one more sub chunk"; return true; }
    case 7: { if (!n->is_group()) return false; bool pr = n->kind == H_LIST && r.chance(1, 2); auto &l = relist(pr); if (l.empty()) return false; l.erase(l.begin() + r.below((u32)l.size())); if (r.chance(1, 3)) { what = pr ? "one PROP less within the declared size" : "one sub chunk less within the declared size"; return true; } refit(n); what = pr ? "one PROP less" : "one sub chunk less"; return true; }
    case 8: { if (!n->is_group()) return false; bool pr = n->kind == H_LIST && r.chance(1, 2); auto &l = relist(pr); if (l.size() < 2) return false; size_t i = r.below((u32)l.size() - 1), j = i + 1; if (r.chance(1, 3)) j = i + 1 + r.below((u32)(l.size() - i - 1)); if (same(*l[i], *l[j])) return false; std::swap(l[i], l[j]); what = pr ? "PROPs swapped" : "sub chunks swapped"; return true; }
    case 9: if (!n->is_group()) return false; n->size += r.chance(1, 2) ? 1 : -1; what = "declared group size"; return true;
    case 10: { // move a chunk from one group to its sibling of the same type (total size unchanged)
        if (!n->is_group() || n->kids.size() < 2) return false;
        for (size_t i = 0; i + 1 < n->kids.size(); i++) { Node *a = n->kids[i].get(), *b = n->kids[i + 1].get(); if (a->kind == H_FORM && b->kind == H_FORM && a->gtype == b->gtype && !a->kids.empty()) { NodeP m = a->kids.back(); a->kids.pop_back(); m->parent = b; b->kids.insert(b->kids.begin(), m); refit(a); refit(b); what = "chunk moved to sibling"; return true; } }
        return false; }
    case 12: { // the same bytes (or the same sum of bytes) in another order
        if (n->kind != H_RAW || n->data.size() < 2) return false;
        size_t i = r.below((u32)n->data.size()), j = r.chance(1, 2) ? (i + 1) % n->data.size() : r.below((u32)n->data.size()); if (i == j) return false;
        if (r.chance(1, 2)) { if (n->data[i] == n->data[j]) return false; std::swap(n->data[i], n->data[j]); what = "bytes exchanged"; }
        else { u8 d = r.chance(1, 2) ? 1 : (u8)(1 + r.below(255)); if (r.chance(1, 4)) { n->data[i] = (char)(n->data[i] ^ d); n->data[j] = (char)(n->data[j] ^ d); } else { n->data[i] = (char)(n->data[i] + d); n->data[j] = (char)(n->data[j] - d); } what = "bytes changed that cancel out"; }
        return true; }
    case 11: if (n->kind != H_LIST || n->props.empty()) return false; { Node *p = n->props[r.below((u32)n->props.size())].get(); u32 x = p->gtype; p->gtype ^= 1u << r.below(7); for (auto &k : p->kids) if (reg.find(p->gtype, k->id) != k->slot) { p->gtype = x; return false; } what = "PROP type"; } return true;
    }
    return false;
}
static void c09_counts(Ctx &c) {   // groups of one size and type whose numbers of members agree in their low bits only
    Rng &r = c.rng; RegP reg = reg_default(); bool props = r.chance(1, 2); int few = (int)r.below(5), more = few + (r.chance(1, 40) ? 65536 : 256); if (more > 60000) vp_step_limit += 200000000000ull;
    NodeP t[2];
    for (int i = 0; i < 2; i++) {
        t[i] = group(props ? H_LIST : H_FORM + (int)r.below(3), ID_JJJJ); if (i) { t[1]->kind = t[0]->kind; t[1]->id = t[0]->id; t[1]->slot = t[0]->slot; }
        int n = i ? more : few;
        for (int j = 0; j < n; j++) {
            NodeP q;
            if (props || t[i]->kind != H_FORM) q = group(props ? H_PROP : H_FORM, mkid("TEST"));
            else { q = leaf(r, *reg, t[i]->gtype, mkid("BODY")); q->size = 4; q->data = Bytes((size_t)q->size, 0); }
            (props ? t[i]->props : t[i]->kids).push_back(q);
        }
        set_parents(*t[i]); fix_sizes(*t[i]);
    }
    t[1]->size = t[0]->size;   // sizes that tell nothing
    IFF_Chunk *a = build(*t[0], *reg, r), *b = build(*t[1], *reg, r); c.evaluations++; c.count("numbers_of_members_that_agree_in_low_bits"); c.cover(mix(shape(*t[0]), shape(*t[1])));
    if (IFF_compare(a, b, nullptr) || IFF_compare(b, a, nullptr)) c.fail("different-reported-equal", "a group of %d members equals one of %d", few, more);
    drop(a, *reg); drop(b, *reg);
}
static void c09(Ctx &c) {
    if (c.idx % 499 == 17) { c09_counts(c); return; }
    Rng &r = c.rng;
    RegP reg = pick_reg(r);
    GenOpt o = opts(c);
    NodeP a = gen_any(c, *reg, o);
    if (c.idx % 7559 == 99) inflate(c, *a, *reg);
    NodeP b = clone(*a); set_parents(*b);
    std::string what = "none";
    int kind = (int)r.below(10);
    if (c.idx % 7559 == 99 && r.chance(2, 3)) kind = 0;
    if (kind >= 3) {
        bool ok = false;
        for (int i = 0; i < 30 && !ok; i++) ok = differ(r, *reg, b, what);
        if (ok && kind == 9) { std::string w2; if (differ(r, *reg, b, w2)) what += " and " + w2; }
    } else if (kind == 2) { b = gen_any(c, *reg, o); what = "unrelated"; }
    bool want = same(*a, *b);
    for (Node *n : all_nodes(*b)) { n->ptr = nullptr; if (n->size < 0) return; }
    // bytes that are not part of the hierarchy must not matter
    if (c.idx % 7559 == 99 && what == "none" && r.chance(3, 4)) for (Node *n : all_nodes(*b)) if (n->kind == H_RAW && n->data.size() > 500000) {   // a bit anywhere in a very large payload
        size_t p = r.chance(1, 4) ? n->data.size() - 1 - r.below(16) : (size_t)(r.next() % n->data.size()); n->data[p] = (char)(n->data[p] ^ (1 << r.below(8))); what = strf("bit in data byte %zu of %d", p, n->size); want = false; break; }
    auto get = [&](NodeP &t) -> IFF_Chunk * {
        bool consistent = ref_parse(encode(*t, true), *reg).status == Parse::OK && !ref_parse(encode(*t, true), *reg).overrun && what.find("declared") == std::string::npos;
        if (consistent && r.chance(1, 2)) {
            for (Node *n : all_nodes(*t)) { if (r.chance(1, 3)) n->pad = (u8)r.next(); if (!n->surplus.empty() && r.chance(1, 2)) n->surplus = gen_data(r, (u32)n->surplus.size()); }
            IFF_Chunk *k = lib_read(encode(*t, true), *reg, r);
            if (k && same(*t, *observe(k, 0, *reg))) { tie(*t, k); return k; }
            drop(k, *reg);
        }
        return build(*t, *reg, r);
    };
    IFF_Chunk *ka = get(a), *kb = get(b);
    c.witness = encode(*a) + Bytes("|") + encode(*b);
    c.evaluations++; c.cover(mix(shape(*a), mix(shape(*b), hash_str(what)))); c.count(want ? "equal_pairs" : "different_pairs"); c.count(what.find(" and ") != std::string::npos ? "difference_several" : ("difference_" + what.substr(0, what.find(" in data"))).c_str());
    bool ab = IFF_compare(ka, kb, reg->lib()), ba = IFF_compare(kb, ka, reg->lib());
    if (ab != want || ba != want) c.fail(want ? "equal-reported-different" : "different-reported-equal", "compare(a,b)=%d compare(b,a)=%d expected %d; difference: %s; a=%s b=%s", ab, ba, want, what.c_str(), describe(*a, 300).c_str(), describe(*b, 300).c_str());
    if (!IFF_compare(ka, ka, reg->lib()) || !IFF_compare(kb, kb, reg->lib())) c.fail("not-reflexive", "a hierarchy does not equal itself: %s", describe(*a).c_str());
    // a part compared with an equal part elsewhere
    if (r.chance(1, 2)) {
        auto va = all_nodes(*a), vb = all_nodes(*b);
        for (int i = 0; i < 6; i++) {
            Node *x = va[r.below((u32)va.size())], *y = r.chance(1, 4) ? (x->parent && r.chance(1, 2) ? r.pick(x->parent->kids.empty() ? x->parent->props : x->parent->kids).get() : r.pick(va)) : r.chance(1, 2) && va.size() == vb.size() ? vb[std::find(va.begin(), va.end(), x) - va.begin()] : vb[r.below((u32)vb.size())];
            if (scope_of(*x) != scope_of(*y)) continue;
            bool w = same(*x, *y), g = IFF_compareChunk(x->ptr, y->ptr, scope_of(*x), reg->libx());
            c.count("parts_compared");
            if (w != g) c.fail(w ? "equal-parts-reported-different" : "different-parts-reported-equal", "compareChunk=%d expected %d: %s vs %s", g, w, describe(*x, 200).c_str(), describe(*y, 200).c_str());
        }
    }
    if (r.chance(1, 3)) {   // a part in its place compared with a copy that stands by itself
        auto va = all_nodes(*a); Node *x = r.pick(va); NodeP y = clone(*x); set_parents(*y); for (Node *n : all_nodes(*y)) n->ptr = nullptr; std::string w2 = "none"; bool w = true;
        if (r.chance(1, 2)) { NodeP top = clone(*a); (void)top; for (Node *n : all_nodes(*y)) if (n->kind == H_RAW && !n->data.empty()) { n->data[r.below((u32)n->data.size())] ^= 1; w = false; break; } }
        bool neg = false; for (Node *n : all_nodes(*y)) if (n->size < 0) neg = true;
        if (!neg) {
            IFF_Chunk *k = build(*y, *reg, r); u32 sc = scope_of(*x);
            bool g1 = IFF_compareChunk(x->ptr, k, sc, reg->libx()), g2 = IFF_compareChunk(k, x->ptr, sc, reg->libx()); c.count("parts_compared_with_standing_alone");
            if (g1 != w || g2 != w) c.fail(w ? "equal-parts-reported-different" : "different-parts-reported-equal", "a part and a copy of it that stands alone: compareChunk=%d/%d expected %d: %s", g1, g2, w, describe(*x, 200).c_str());
            IFF_freeChunk(k, sc, reg->libx());
        }
    }
    if (r.chance(1, 2)) {   // the same hierarchies, compared again after a change in place and after taking it back
        std::function<void()> undo; std::string w2;
        for (int i = 0, q = 1 + (int)r.below(2); i < q && poke(r, *reg, r.chance(1, 2) ? *a : *b, w2, undo, true); i++) for (int back = 0; back < 2; back++) {
            bool w = same(*a, *b), g = r.chance(1, 2) ? IFF_compare(ka, kb, reg->lib()) : IFF_compareChunk(ka, kb, 0, reg->libx()); c.evaluations++; c.count("compared_again_after_a_change_in_place");
            if (g != w) c.fail(w ? "equal-reported-different" : "different-reported-equal", "compared again after a change (%s%s): %d expected %d: %s vs %s", w2.c_str(), back ? ", taken back" : "", g, w, describe(*a, 300).c_str(), describe(*b, 300).c_str());
            if (back || r.chance(1, 4)) break;
            undo();
        }
    }
    c.sample(what + ": " + describe(*a, 150) + " vs " + describe(*b, 150));
    drop(ka, *reg); drop(kb, *reg);
}
static RegisterCheck r09("C09", c09, 130000, 1000000);

// ---------------------------------------------------------------- C11
static std::string types_str(const std::vector<u32> &t) { std::string s; for (u32 x : t) s += id_str(x) + ","; return s; }
static void c11(Ctx &c) {
    Rng &r = c.rng;
    RegP reg = pick_reg(r);
    GenOpt o = opts(c); o.max_depth = 3 + (int)r.below(5); o.odd_ids = r.chance(1, 2);
    NodeP t = gen_any(c, *reg, o); if (r.chance(1, 10)) widen(r, *t, *reg);
    IFF_Chunk *k = obtain(c, *t, *reg);
    c.witness = encode(*t, false);
    auto v = all_nodes(*t);
    Snap before = snapshot(k, 0, *reg);
    std::vector<u32> present; for (Node *n : v) if (n->is_group()) present.push_back(n->gtype);
    int q = 3 + (int)r.below(6), vast = 0;
    for (int i = 0; i < q; i++) {
        std::vector<u32> types; int nt = r.chance(1, 2) ? 1 : (int)r.below(r.chance(1, 6) ? 60 : 6); if (r.chance(1, 100)) { nt = 256 + (int)r.below(20); c.count("searches_for_more_than_255_types"); } if (c.idx % 9973 == 5555 && i == 0) { nt = 65537; vp_step_limit += 20000000000ull; c.count("searches_for_more_than_65536_types"); } bool strangers = nt > 6 && r.chance(1, 2);
        for (int j = 0; j < nt; j++) if (strangers && j + 1 < nt) types.push_back(r.chance(1, 20) ? (present.empty() ? (u32)ID_FORM : r.pick(present)) : 0x5a5a0000u + (u32)j); else types.push_back(r.chance(3, 4) && !present.empty() ? r.pick(present) : r.chance(1, 2) ? gen_formtype(r, *reg) : ID_FORM);
        Node *n = r.chance(1, 2) ? t.get() : v[r.below((u32)v.size())];
        std::vector<Node *> want; ref_search(*n, types, want);
        if (want.size() > 20000 && vast++) continue;   // collecting that many may be slow, which is not the business of this check
        std::vector<u32> arg = types; arg.push_back(0xdeadbeef);
        unsigned len = 0xdead; IFF_Form **res = nullptr; const char *how;
        int w = (int)r.below(3);
        if (w == 0 && nt == 1) { how = "IFF_searchForms"; res = IFF_searchForms(n->ptr, types[0], &len); }
        else if (w == 1 && n->id == ID_FORM) { how = "IFF_searchFormsInForm"; res = IFF_searchFormsInForm((IFF_Form *)n->ptr, arg.data(), (unsigned)nt, &len); }
        else if (w == 1 && n->id == ID_CAT) { how = "IFF_searchFormsInCAT"; res = IFF_searchFormsInCAT((IFF_CAT *)n->ptr, arg.data(), (unsigned)nt, &len); }
        else if (w == 1 && n->id == ID_LIST) { how = "IFF_searchFormsInList"; res = IFF_searchFormsInList((IFF_List *)n->ptr, arg.data(), (unsigned)nt, &len); }
        else if (w == 2 && (n->id == ID_CAT || n->id == ID_FORM || n->id == ID_LIST) && r.chance(1, 2)) {
            how = "IFF_searchFormsInGroup"; want.clear(); for (auto &kid : n->kids) ref_search(*kid, types, want);
            res = IFF_searchFormsInGroup((IFF_Group *)n->ptr, arg.data(), (unsigned)nt, &len);
        }
        else { how = "IFF_searchFormsFromArray"; res = IFF_searchFormsFromArray(n->ptr, arg.data(), (unsigned)nt, &len); }
        c.evaluations++; c.count("results", want.size()); c.cover(mix(mix(shape(*n), hash_str(types_str(types))), hash_str(how)));
        if (want.size() > 1) c.count("searches_with_several_results");
        if (len != want.size()) c.fail("count", "%s of {%s} in %s returned %u forms, expected %zu", how, types_str(types).c_str(), describe(*n).c_str(), len, want.size());
        else for (size_t j = 0; j < want.size(); j++) if ((void *)res[j] != (void *)want[j]->ptr) { c.fail("wrong-form", "%s of {%s} in %s: result %zu is not the expected FORM", how, types_str(types).c_str(), describe(*n).c_str(), j); break; }
        types.push_back(0xdeadbeef);
        if (w != 0 && arg != types) c.fail("argument-changed", "the array of FORM types was changed");
        vp_free(res);
    }
    if (!(snapshot(k, 0, *reg) == before)) c.fail("hierarchy-changed", "searching changed %s", describe(*t).c_str());
    if (v.size() < 20000 && r.chance(1, 2)) for (int i = 0; i < 3; i++) {   // the same search again after a change in place
        std::string w2; std::function<void()> undo; u32 ty = present.empty() || r.chance(1, 3) ? gen_formtype(r, *reg) : r.pick(present); Node *n = r.chance(2, 3) ? t.get() : r.pick(v); bool one = r.chance(1, 2); u32 two[2] = {ty, present.empty() ? ty : r.pick(present)};
        for (int j = 0; j < 3; j++) {
            std::vector<Node *> want; ref_search(*n, one ? std::vector<u32>{ty} : std::vector<u32>{two[0], two[1]}, want);
            unsigned len = 0xdead; IFF_Form **res = one ? IFF_searchForms(n->ptr, ty, &len) : IFF_searchFormsFromArray(n->ptr, two, 2, &len);
            bool bad = len != want.size(); for (size_t q2 = 0; !bad && q2 < want.size(); q2++) bad = (void *)res[q2] != (void *)want[q2]->ptr;
            c.evaluations++; c.count("searched_again_after_a_change_in_place"); vp_free(res);
            if (bad) { c.fail("wrong-form", "searching again after a change (%s, %d): %u forms, expected %zu, in %s", w2.c_str(), j, len, want.size(), describe(*n).c_str()); break; }
            if (j == 0) { if (!poke(r, *reg, *t, w2, undo)) break; } else if (j == 1) undo();
        }
    }
    c.sample(describe(*t));
    drop(k, *reg);
}
static RegisterCheck r11("C11", c11, 200000, 700000);

// ---------------------------------------------------------------- C12
static NodeP lookup_tree(Rng &r, const RegModel &reg, int depth, const std::vector<u32> &types, const std::vector<u32> &ids) {
    auto mk = [&](u32 scope) { return leaf(r, reg, scope, r.pick(ids)); };
    int w = (int)r.below(depth > 5 ? 2 : 6);
    if (w < 2) {
        NodeP f = group(H_FORM, r.pick(types));
        int n = (int)r.below(5);
        for (int i = 0; i < n; i++) { NodeP k = r.chance(1, 5) && depth < 7 ? lookup_tree(r, reg, depth + 1, types, ids) : mk(f->gtype); f->kids.push_back(k); }
        return f;
    }
    NodeP g = group(w == 2 ? H_CAT : H_LIST, r.chance(3, 4) ? ID_JJJJ : r.pick(types));
    if (g->kind == H_LIST) for (u32 ty : types) if (r.chance(1, 2)) {
        NodeP p = group(H_PROP, ty); int n = (int)r.below(4); for (int i = 0; i < n; i++) p->kids.push_back(mk(ty));
        g->props.insert(g->props.begin() + r.below((u32)g->props.size() + 1), p);
    }
    int n = (int)r.below(4) + (depth < 3);
    for (int i = 0; i < n; i++) g->kids.push_back(lookup_tree(r, reg, depth + 1, types, ids));
    return g;
}
static void c12(Ctx &c) {
    Rng &r = c.rng;
    RegP reg = pick_reg(r);
    std::vector<u32> types, ids;
    int nt = 1 + (int)r.below(4); for (int i = 0; i < nt; i++) { u32 x = gen_formtype(r, *reg); if (std::find(types.begin(), types.end(), x) == types.end()) types.push_back(x); }
    int ni = 1 + (int)r.below(5); GenOpt o; for (int i = 0; i < ni; i++) ids.push_back(gen_dataid(r, o));
    NodeP t;
    if (r.chance(1, 5)) { GenOpt q = opts(c); t = gen_tree(r, *reg, q); for (Node *n : all_nodes(*t)) ids.push_back(n->id); }
    else t = lookup_tree(r, *reg, 0, types, ids);
    if (c.idx % 9973 == 4242) { for (u32 x : {mkid("BODY"), mkid("ANNO")}) ids.push_back(x); set_parents(*t); stretch(c, t, *reg, 65537 + (int)r.below(9), (c.idx / 9973 + c.seed) % 2 ? H_FORM : H_LIST); }
    else if (r.chance(1, 100)) { set_parents(*t); stretch(c, t, *reg, 256 + (int)r.below(20)); }
    else if (r.chance(1, 10)) widen(r, *t, *reg);
    set_parents(*t); fix_sizes(*t);
    IFF_Chunk *k = obtain(c, *t, *reg);
    c.witness = encode(*t, false);
    ids.push_back(mkid("NONE")); ids.push_back(ID_FORM);
    Snap before = snapshot(k, 0, *reg);
    auto v = all_nodes(*t);
    for (Node *n : v) {
        if (n->kind == H_LIST) for (u32 ty : types) {
            Node *want = nullptr; for (auto &p : n->props) if (!want && p->gtype == ty) want = p.get();
            if ((void *)IFF_getPropFromList((IFF_List *)n->ptr, ty) != (void *)(want ? want->ptr : nullptr)) c.fail("getPropFromList", "wrong shared-property chunk for %s in %s", id_str(ty).c_str(), describe(*n).c_str());
            c.count("prop_lookups");
        }
        if (n->kind != H_FORM && n->kind != H_PROP) continue;
        if (c.fails.size() > 10) break;
        std::set<u32> some(ids.begin(), ids.end());
        for (u32 id : some) {
            std::vector<Node *> own; for (auto &q : n->kids) if (q->id == id) own.push_back(q.get());
            if (n->kind == H_PROP) {
                if ((void *)IFF_getChunkFromProp((IFF_Prop *)n->ptr, id) != (void *)(own.empty() ? nullptr : own[0]->ptr)) c.fail("getChunkFromProp", "wrong chunk for %s in %s", id_str(id).c_str(), describe(*n).c_str());
                c.count("lookups_in_prop"); continue;
            }
            Node *want = ref_lookup(*n, id);
            IFF_Chunk *got = IFF_getChunkFromForm((IFF_Form *)n->ptr, id);
            c.evaluations++;
            c.count(!want ? "found_nothing" : own.empty() ? "found_shared" : "found_own");
            int lists = 0, providers = 0; for (Node *p = n->parent; p; p = p->parent) if (p->kind == H_LIST) { lists++; for (auto &q : p->props) if (q->gtype == n->gtype) for (auto &x : q->kids) if (x->id == id) { providers++; break; } }
            if (providers > 1) c.count("several_lists_provide_it");
            c.cover(mix(mix(shape(*n), id), (u64)lists * 64 + (u64)providers + (own.size() << 20)));
            if ((void *)got != (void *)(want ? want->ptr : nullptr)) {
                const char *g = "nothing"; for (Node *x : v) if ((void *)x->ptr == (void *)got) g = "another chunk";
                c.fail("getChunkFromForm", "looking up %s in %s within %s gives %s; expected %s", id_str(id).c_str(), describe(*n, 200).c_str(), describe(*t, 400).c_str(), g, !want ? "nothing" : own.empty() ? "the innermost shared one" : "the first own one");
            }
            if ((void *)IFF_getDataChunkFromForm((IFF_Form *)n->ptr, id) != (void *)(own.empty() ? nullptr : own[0]->ptr)) c.fail("getDataChunkFromForm", "wrong own chunk for %s in %s", id_str(id).c_str(), describe(*n).c_str());
            unsigned len = 77; IFF_Chunk **all = IFF_getChunksFromForm((IFF_Form *)n->ptr, id, &len);
            bool bad = len != own.size(); for (size_t i = 0; !bad && i < own.size(); i++) bad = all[i] != own[i]->ptr;
            if (bad) c.fail("getChunksFromForm", "all chunks %s of %s: got %u, expected %zu (or other order)", id_str(id).c_str(), describe(*n).c_str(), len, own.size());
            vp_free(all);
        }
    }
    if (!(snapshot(k, 0, *reg) == before)) c.fail("hierarchy-changed", "lookups changed the hierarchy");
    if (r.chance(1, 2) && v.size() < 400) {   // looked up again after a change in place, and after one more chunk
        std::vector<Node *> fs; for (Node *n : v) if (n->kind == H_FORM) fs.push_back(n);
        for (int i = 0; i < 3 && !fs.empty() && !c.failed(); i++) {
            std::string w2; std::function<void()> undo; Node *n = r.pick(fs); u32 id = r.pick(ids); bool added = false;
            for (int j = 0; j < 3; j++) {
                Node *want = ref_lookup(*n, id); IFF_Chunk *got = IFF_getChunkFromForm((IFF_Form *)n->ptr, id); c.evaluations++; c.count("looked_up_again_after_a_change");
                if ((void *)got != (void *)(want ? want->ptr : nullptr)) { c.fail("getChunkFromForm", "looking up %s again after a change (%s, %d) in %s within %s", id_str(id).c_str(), w2.c_str(), j, describe(*n, 200).c_str(), describe(*t, 400).c_str()); break; }
                for (Node *l = n->parent; l; l = l->parent) if (l->kind == H_LIST) { Node *wp = nullptr; for (auto &p : l->props) if (!wp && p->gtype == n->gtype) wp = p.get(); if ((void *)IFF_getPropFromList((IFF_List *)l->ptr, n->gtype) != (void *)(wp ? wp->ptr : nullptr)) { c.fail("getPropFromList", "wrong shared-property chunk for %s after a change (%s, %d) in %s", id_str(n->gtype).c_str(), w2.c_str(), j, describe(*l).c_str()); break; } }
                if (j == 0) {
                    if (r.chance(1, 3)) {   // an own chunk, or a shared one, that was not there
                        std::vector<Node *> at; at.push_back(n); for (Node *l = n->parent; l; l = l->parent) for (auto &p : l->props) if (p->gtype == n->gtype) at.push_back(p.get());
                        Node *g = r.pick(at); if (slots[reg->find(g->gtype, id)].kind != H_RAW) break;
                        auto q = std::make_shared<Node>(); q->id = id; q->slot = reg->find(g->gtype, id); q->kind = H_RAW; q->size = 0; q->parent = g;
                        IFF_RawChunk *rc = (IFF_RawChunk *)build(*q, *reg, r); q->ptr = (IFF_Chunk *)rc;
                        if (!(g->kind == H_FORM ? IFF_addToForm((IFF_Form *)g->ptr, (IFF_Chunk *)rc) : IFF_addToProp((IFF_Prop *)g->ptr, (IFF_Chunk *)rc))) harness_die("add"); g->kids.push_back(q); added = true; w2 = "a chunk added";
                    } else if (!poke(r, *reg, *t, w2, undo)) break;
                } else if (j == 1) { if (added) break; undo(); }
            }
        }
    }
    c.sample(describe(*t));
    drop(k, *reg);
}
static RegisterCheck r12("C12", c12, 110000, 500000);

// gives some groups declared sizes that do not fit their contents (what a chunk declares is shown and kept, whatever it is)
static bool misdeclare(Rng &r, std::vector<Node *> &v, bool moderately) {
    static const int32_t odd[] = {0, 3, 5, -1, -4, 0x7fffffff, (int32_t)0x80000000, 0xffffff, 0x1000000, 0x1000004, 0x12345678, 65535, 65536, 2147483646, -2147483647};
    std::vector<Node *> gs; for (Node *n : v) if (n->is_group()) gs.push_back(n);
    if (gs.empty()) return false;
    for (int i = 1 + (int)r.below(3); i > 0; i--) {
        Node *n = r.pick(gs);
        if (r.chance(1, 3)) for (Node *e : gs) if (e->kids.empty() && e->props.empty()) n = e;
        int32_t s = r.chance(1, 3) ? (int32_t)((u32)n->size + r.below(9) - 4) : moderately ? (int32_t)r.below(400) - 30 : r.chance(1, 3) ? (int32_t)r.next() : odd[r.below(15)];
        n->size = s; n->ptr->chunkSize = s;
    }
    return true;
}

// ---------------------------------------------------------------- C17
static void c17(Ctx &c) {
    Rng &r = c.rng;
    RegP reg = pick_reg(r);
    NodeP t = gen_any(c, *reg, opts(c));
    IFF_Chunk *k = obtain(c, *t, *reg);
    auto v = all_nodes(*t);
    c.witness = encode(*t, false);
    if (r.chance(1, 4) && misdeclare(r, v, false)) c.count("hierarchies_with_odd_declared_sizes");
    for (int i = 0; i < 2; i++) {
        unsigned lv = r.chance(1, 2) ? 0 : r.below(r.chance(1, 5) ? 60 : 6);
        Node *n = i == 0 ? t.get() : v[r.below((u32)v.size())];
        std::string want; ref_print(*n, lv, want);
        D.reset();
        Bytes got; { CaptureStdout cap; if (i == 0) IFF_print(k, lv, reg->lib()); else IFF_printChunk(n->ptr, lv, scope_of(*n), reg->libx()); got = cap.finish(); }
        c.evaluations++; c.count("bytes_printed", got.size()); c.cover(mix(shape(*n), lv));
        if (got != want) { size_t p = 0; while (p < got.size() && p < want.size() && got[p] == want[p]) p++; size_t q = p > 40 ? p - 40 : 0; c.fail("print", "printing %s at level %u: differs at byte %zu: printed ...%s... expected ...%s...", describe(*n, 200).c_str(), lv, p, got.substr(q, 90).c_str(), want.substr(q, 90).c_str()); }
        Bytes again; { CaptureStdout cap; if (i == 0) IFF_print(k, lv, reg->lib()); else IFF_printChunk(n->ptr, lv, scope_of(*n), reg->libx()); again = cap.finish(); }
        if (again != got) c.fail("not-repeatable", "printing twice gives different texts: %s", describe(*n).c_str());
        std::function<void()> undo; std::string w2;
        if (i == 0 && r.chance(1, 3) && poke(r, *reg, *t, w2, undo, true)) {
            std::string want2; ref_print(*n, lv, want2); Bytes g2; { CaptureStdout cap; IFF_print(k, lv, reg->lib()); g2 = cap.finish(); }
            c.evaluations++; c.count("printed_again_after_a_change_in_place"); if (g2 != want2) c.fail("print", "printed again after a change (%s), %s is not shown as it is", w2.c_str(), describe(*n, 300).c_str());
        }
    }
    Node *raw = nullptr; for (Node *n : v) if (n->kind == H_RAW && (!raw || r.chance(1, 3))) raw = n;
    if (raw) {   // the two representations of data by themselves
        unsigned lv = r.below(5);
        for (int text = 0; text < 2; text++) {
            Node x = *raw; x.id = text ? ID_TEXT_ : mkid("BODY");
            std::string full; ref_print(x, lv, full);
            size_t a = full.find("chunkSize = "); a = full.find('\n', a) + 1; size_t e = full.size() - 2 * lv - 3;
            std::string want = full.substr(a, e - a);
            Bytes got; { CaptureStdout cap; if (text) IFF_printText((IFF_RawChunk *)raw->ptr, lv); else IFF_printRaw((IFF_RawChunk *)raw->ptr, lv); got = cap.finish(); }
            c.evaluations++;
            if (got != want) c.fail(text ? "print-text" : "print-raw", "%d bytes at level %u: printed %s expected %s", raw->size, lv, got.substr(0, 300).c_str(), want.substr(0, 300).c_str());
        }
    }
    c.sample(describe(*t));
    drop(k, *reg);
}
static RegisterCheck r17("C17", c17, 42000, 500000);

// ---------------------------------------------------------------- C20
static void c20(Ctx &c) {
    Rng &r = c.rng;
    RegP reg = pick_reg(r);
    NodeP t = gen_any(c, *reg, opts(c));
    bool rd; IFF_Chunk *k = obtain(c, *t, *reg, &rd);
    NodeP t2 = r.chance(1, 2) ? clone(*t) : gen_any(c, *reg, opts(c));
    if (r.chance(1, 3)) {   // almost the same
        std::vector<Node *> raws; for (Node *n : all_nodes(*t2)) if (n->kind == H_RAW && n->size > 0) raws.push_back(n);
        if (!raws.empty()) { Node *n = r.pick(raws); for (Node *e : raws) if (e->size < 3 && r.chance(1, 4)) n = e; size_t at = r.below((u32)n->data.size()); n->data[at] = (char)(n->data[at] ^ (1 << r.below(8))); c.count("hierarchies_that_differ_in_a_bit"); }
    }
    IFF_Chunk *k2 = build(*t2, *reg, r);
    auto v = all_nodes(*t);
    if (r.chance(1, 5) && misdeclare(r, v, true)) c.count("hierarchies_with_odd_declared_sizes");
    c.witness = encode(*t, false);
    Snap s1 = snapshot(k, 0, *reg), s2 = snapshot(k2, 0, *reg);
    size_t live = LIVE();
    std::map<std::string, Bytes> first;
    std::vector<u32> present; for (Node *n : v) if (n->is_group()) present.push_back(n->gtype); present.push_back(mkid("TEST"));
    int nops = 6 + (int)r.below(14); std::string hist;
    if (v.size() > 60000) nops = 5;
    for (int i = 0; i < nops; i++) {
        int w = (int)r.below(9); std::string key; Bytes res; D.reset();
        Node *n = v[r.below((u32)v.size())]; u32 sc = scope_of(*n);
        size_t ni = (size_t)(std::find(v.begin(), v.end(), n) - v.begin());
        switch (w) {
        case 0: key = "check"; res = strf("%d", IFF_check(k, reg->lib())); break;
        case 1: key = "compare"; res = strf("%d", IFF_compare(k, k2, reg->lib())); break;
        case 2: key = "compare-reversed"; res = strf("%d", IFF_compare(k2, k, reg->lib())); break;
        case 3: { unsigned lv = r.below(3); key = strf("print%u", lv); CaptureStdout cap; IFF_print(k, lv, reg->lib()); res = cap.finish(); break; }
        case 4: { bool ok; key = "write"; res = lib_write(k, *reg, &ok); res += ok ? "+" : "-"; break; }
        case 5: { unsigned len = 0, nt = r.chance(1, 3) ? 1 + r.below(14) : 3; u32 ty[16] = {present[i % present.size()], present[(i * 7) % present.size()], mkid("ILBM")}, keep[16]; for (unsigned j = 3; j < 16; j++) ty[j] = r.chance(1, 2) ? present[r.below((u32)present.size())] : gen_formtype(r, *reg); if (nt > 3) for (unsigned j = 0; j < nt; j++) std::swap(ty[j], ty[r.below(nt)]); memcpy(keep, ty, sizeof ty); key = "search"; for (unsigned j = 0; j < nt; j++) key += strf(",%x", ty[j]); Node *at = r.chance(1, 2) ? n : t.get(); if (at != t.get()) key += strf("@%zu", ni); IFF_Form **f = IFF_searchFormsFromArray(at->ptr, ty, nt, &len); for (unsigned j = 0; j < len; j++) res += strf("%p ", (void *)f[j]); vp_free(f); if (memcmp(keep, ty, sizeof ty)) c.fail("argument-changed", "the array of searched FORM types was changed"); break; }
        case 6: if (n->kind == H_FORM) { u32 id = v[r.below((u32)v.size())]->id; unsigned len = 0; key = strf("get%zu,%x", ni, id); res = strf("%p %p ", (void *)IFF_getChunkFromForm((IFF_Form *)n->ptr, id), (void *)IFF_getDataChunkFromForm((IFF_Form *)n->ptr, id)); IFF_Chunk **a = IFF_getChunksFromForm((IFF_Form *)n->ptr, id, &len); for (unsigned j = 0; j < len; j++) res += strf("%p ", (void *)a[j]); vp_free(a); } else if (n->kind == H_LIST) { key = strf("prop%zu", ni); res = strf("%p", (void *)IFF_getPropFromList((IFF_List *)n->ptr, mkid("TEST"))); } else continue; break;
        case 7: key = strf("checkpart%zu", ni); res = strf("%d", IFF_checkChunk(n->ptr, sc, reg->libx())); break;
        case 8: { key = strf("writepart%zu", ni); WStream ws; if (r.chance(1, 3)) { ws.err_at = r.below(40); key += strf("@%zu", ws.err_at); } FILE *f = ws.open(); set_buffering(f, 0); bool ok = IFF_writeChunk(f, n->ptr, sc, reg->libx()); fclose(f); res = ws.out + (ok ? "+" : "-"); break; }
        }
        res += "\n" + D.text;
        hist += key + " ";
        c.evaluations++; c.count("operations_observed");
        if (!first.count(key)) first[key] = res;
        else { c.count("repetitions"); if (first[key] != res) c.fail("not-repeatable", "%s gives another result the second time; history %s of %s", key.c_str(), hist.c_str(), describe(*t).c_str()); }
        if (!(snapshot(k, 0, *reg) == s1) || !(snapshot(k2, 0, *reg) == s2)) { c.fail("changed", "%s changed the hierarchy %s", key.c_str(), describe(*t).c_str()); break; }
        if (LIVE() != live) { c.fail("left-behind", "%s changed the number of live allocations from %zu to %zu", key.c_str(), live, LIVE()); break; }
    }
    c.cover(mix(shape(*t), hash_str(hist)));
    c.sample(describe(*t, 200) + ": " + hist);
    drop(k, *reg); drop(k2, *reg);
}
static RegisterCheck r20("C20", c20, 60000, 400000);

// ---------------------------------------------------------------- C24 (conversions; the exhaustive part is a program of its own)
static void c24(Ctx &c) {
    Rng &r = c.rng;
    for (int i = 0; i < 200; i++) {
        u32 v = r.chance(1, 2) ? (u32)r.next() : 0;
        if (!v) for (int b = 0; b < 4; b++) { static const u8 e[] = {0, 9, 10, 0x1f, 0x20, 0x21, '/', '0', '9', ':', '@', 'A', 'Z', '[', '`', 'a', 'z', '{', 0x7e, 0x7f, 0x80, 0xff, '.', '%'}; v = v << 8 | e[r.below(24)]; }
        Bytes raw; for (int b = 3; b >= 0; b--) raw.push_back((char)(v >> (8 * b)));
        c.evaluations++; c.cover(v); c.witness = raw;
        IFF_ID2 id2[2]; memset(id2, 0x55, sizeof id2);
        IFF_idToString(v, id2[0]);
        if (memcmp(id2[0], raw.data(), 4) || id2[1][0] != 0x55) c.fail("idToString", "%08x becomes %s", v, hex(Bytes(id2[0], 4)).c_str());
        if (IFF_MAKEID((u32)(u8)raw[0], (u32)(u8)raw[1], (u32)(u8)raw[2], (u32)(u8)raw[3]) != v) c.fail("MAKEID", "%08x", v);
        Bytes p; { CaptureStdout cap; IFF_printId(v); p = cap.finish(); }
        if (p != raw) c.fail("printId", "%08x printed as %s", v, hex(p).c_str());
        D.reset(); IFF_errorId(v);
        if (D.text != raw && raw.find('\0') == Bytes::npos) c.fail("errorId", "%08x reported as %s", v, hex(D.text).c_str());
        WStream w; FILE *f = w.open(); bool ok = IFF_writeId(f, v, 0, "x"); fclose(f);
        if (!ok || w.out != raw) c.fail("writeId", "%08x written as %s", v, hex(w.out).c_str());
        RStream s; s.data = &raw; f = s.open(); u32 back = ~v; ok = IFF_readId(f, &back, 0, "x"); fclose(f);
        if (!ok || back != v) c.fail("readId", "%08x read as %08x", v, back);
        if ((bool)IFF_checkId(v) != ref_id_ok(v)) c.fail("checkId", "%08x judged %d", v, IFF_checkId(v));
        if ((bool)IFF_checkFormType(v) != ref_formtype_ok(v)) c.fail("checkFormType", "%08x judged %d", v, IFF_checkFormType(v));
    }
    c.sample(strf("conversions of 200 identifiers, last %s", hex(c.witness).c_str()));
}
static RegisterCheck r24("C24", c24, 800, 20000);
