// Histories of construction and editing: C10 C13 C26
#include "checks.h"

static NodeP mk(HKind kind, u32 type) {
    auto q = std::make_shared<Node>(); q->kind = kind; q->slot = (int)kind; q->gtype = type;
    if (kind == H_RAW) { q->slot = SLOT_RAW; q->gtype = 0; }
    if (kind == H_FORM) { q->id = ID_FORM; q->slot = SLOT_FORM; } if (kind == H_CAT) { q->id = ID_CAT; q->slot = SLOT_CAT; }
    if (kind == H_LIST) { q->id = ID_LIST; q->slot = SLOT_LIST; } if (kind == H_PROP) { q->id = ID_PROP; q->slot = SLOT_PROP; }
    q->size = 4; return q;
}
static IFF_Chunk *mklib(Node &n, Rng &r, bool sized = false) {
    if (sized && n.is_group()) {   // created with some size, to be recalculated
        n.size = r.chance(1, 2) ? (int)r.below(100) : r.chance(1, 2) ? 0 : (int)r.below(100000);
        switch (n.kind) { case H_FORM: return (IFF_Chunk *)IFF_createForm(n.size, n.gtype); case H_CAT: return (IFF_Chunk *)IFF_createCAT(n.size, n.gtype); case H_LIST: return (IFF_Chunk *)IFF_createList(n.size, n.gtype); default: return (IFF_Chunk *)IFF_createProp(n.size, n.gtype); }
    }
    switch (n.kind) {
    case H_FORM: return (IFF_Chunk *)IFF_createEmptyForm(n.gtype);
    case H_CAT: return n.gtype == ID_JJJJ && r.chance(1, 2) ? (IFF_Chunk *)IFF_createEmptyCAT() : (IFF_Chunk *)IFF_createEmptyCATWithContentsType(n.gtype);
    case H_LIST: return n.gtype == ID_JJJJ && r.chance(1, 2) ? (IFF_Chunk *)IFF_createEmptyList() : (IFF_Chunk *)IFF_createEmptyListWithContentsType(n.gtype);
    case H_PROP: return (IFF_Chunk *)IFF_createEmptyProp(n.gtype);
    default: { IFF_RawChunk *c = (IFF_RawChunk *)IFF_createRawChunk(n.id, n.size); if (n.data.size()) memcpy(c->chunkData, n.data.data(), n.data.size()); return (IFF_Chunk *)c; }
    }
}
static Node *top_of(Node *n) { while (n->parent) n = n->parent; return n; }
static bool inside(const Node *n, const Node *anc) { for (; n; n = n->parent) if (n == anc) return true; return false; }
static void m_recalc1(Node *n) {
    if (!n->is_group()) return;
    int64_t s = 4; for (auto *l : {&n->props, &n->kids}) for (auto &k : *l) s += 8 + padded((u32)k->size);
    n->size = (int32_t)s;
}
static bool set_data(Node *n, Rng &r, std::string &h, bool giant = false, bool large = false) {
    IFF_RawChunk *c = (IFF_RawChunk *)n->ptr;
    u32 len = large ? 1000 + r.below(90000) : gen_size(r, r.chance(1, 10));
    if (giant) { len = 0x1000000 - 1 + r.below(4); vp_step_limit += 20000000000ull; }
    bool ok = true;
    if (r.chance(1, 2)) {
        Bytes s = gen_data(r, len); for (auto &ch : s) if (!ch) ch = 'x';
        ok = IFF_setTextData(c, s.c_str()); n->data = s; h += strf("text(%u) ", len);
    } else {
        if (n->size > 0 && r.chance(1, 6)) {   // the same data, of which only a part counts from now on
            len = r.below((u32)n->size + 1); n->data.resize(len); IFF_setRawChunkData(c, c->chunkData, (IFF_Long)len); h += strf("shorter(%u) ", len);
        } else {
        Bytes s = gen_data(r, len);
        IFF_UByte *d = (IFF_UByte *)vp_malloc(len); if (len) memcpy(d, s.data(), len);
        vp_free(c->chunkData); IFF_setRawChunkData(c, d, (IFF_Long)len); n->data = s; h += strf("data(%u) ", len);
        }
    }
    n->size = (int32_t)len;
    return ok && c->chunkSize == n->size && (!len || !memcmp(c->chunkData, n->data.data(), len));
}

// ---------------------------------------------------------------- C10
static void c10_bulk(Ctx &c, int n) {   // groups of very many members: every recalculation takes all of them into account
    Rng &r = c.rng; RegP reg = reg_default(); GenOpt o; o.budget = 12; o.big = false;
    NodeP t = gen_tree(r, *reg, o); stretch(c, t, *reg, n); set_parents(*t);
    IFF_Chunk *k = build(*t, *reg, r);
    for (int i = 0; i < 4 && !c.failed(); i++) {
        auto v = all_nodes(*t); std::vector<Node *> gs, raws; for (Node *x : v) if (x->is_group()) gs.push_back(x); else raws.push_back(x);
        for (int j = 0; j < 3; j++) { Node *g = r.pick(gs); g->size = (int)r.below(1000); g->ptr->chunkSize = g->size; }
        std::string h; if (!raws.empty() && r.chance(1, 2)) set_data(raws[raws.size() - 1 - r.below((u32)std::min<size_t>(raws.size(), 3))], r, h);
        Node *at = r.chance(1, 2) ? v.back() : r.pick(v);
        IFF_updateChunkSizes(at->ptr); for (Node *p = at; p; p = p->parent) m_recalc1(p);
        std::string why; NodeP g = observe(t->ptr, 0, *reg); c.evaluations++; c.count("recalculations_of_large_groups");
        if (!same(*t, *g, &why)) c.fail("state", "recalculating the sizes of a hierarchy of %zu chunks: %s", v.size(), why.c_str());
    }
    c.cover(shape(*t)); drop(k, *reg);
}
static void c10(Ctx &c) {
    Rng &r = c.rng;
    if (c.idx % 4999 == 1717) { c10_bulk(c, 65537 + (int)r.below(9)); return; }
    if (r.chance(1, 100)) { c10_bulk(c, 256 + (int)r.below(20)); return; }
    RegP reg = reg_default();
    GenOpt o;
    std::vector<NodeP> forest, every;
    auto fresh = [&](HKind k, u32 t) { NodeP n = mk(k, t); if (k == H_RAW) { n->id = gen_dataid(r, o); n->size = (int)gen_size(r, false); n->data = gen_data(r, (u32)n->size); } n->ptr = mklib(*n, r, r.chance(1, 6)); forest.push_back(n); every.push_back(n); return n; };
    int nops = 8 + (int)r.below(c.thorough ? 80 : 40); std::string hist;
    if (r.chance(1, 4)) {   // start from a hierarchy that was read
        GenOpt q; q.budget = 20; NodeP t = gen_tree(r, *reg, q);
        IFF_Chunk *k = lib_read(encode(*t, true), *reg, r);
        if (k && same(*t, *observe(k, 0, *reg))) { tie(*t, k); forest.push_back(t); for (Node *n : all_nodes(*t)) { std::function<NodeP(NodeP)> find = [&](NodeP x) -> NodeP { if (x.get() == n) return x; for (auto *l : {&x->props, &x->kids}) for (auto &y : *l) if (NodeP z = find(y)) return z; return nullptr; }; every.push_back(find(t)); } }
        else drop(k, *reg);
    }
    for (int i = 0; i < 3; i++) fresh((HKind)(H_FORM + r.below(4)), r.chance(1, 2) ? ID_JJJJ : gen_formtype(r, *reg));
    for (int i = 0; i < nops && !c.failed(); i++) {
        int w = (int)r.below(12);
        D.reset();
        if (w < 2) { fresh(r.chance(1, 2) ? H_RAW : (HKind)(H_FORM + r.below(4)), r.chance(1, 3) ? ID_JJJJ : gen_formtype(r, *reg)); hist += "new "; }
        else if (w < 8) {
            // add the top of one hierarchy to any group of another
            size_t ci = r.below((u32)forest.size()); NodeP ch = forest[ci];
            std::vector<Node *> groups; for (auto &e : every) if (e->is_group() && !inside(e.get(), ch.get())) groups.push_back(e.get());
            if (groups.empty() || forest.size() < 2) continue;
            Node *g = groups[r.below((u32)groups.size())];
            bool prop = ch->kind == H_PROP && g->kind == H_LIST && r.chance(3, 4);
            if (ch->kind == H_PROP && g->kind == H_LIST && !prop) continue;
            bool plain = true, ok = true; u32 gt = g->gtype;
            if (r.chance(1, 8)) ch->ptr->parent = (IFF_Group *)r.pick(groups)->ptr;   // it was in another group before
            if (prop) { ok = IFF_addPropToList((IFF_List *)g->ptr, (IFF_Prop *)ch->ptr); hist += "addProp "; }
            else switch (r.below(4)) {
            case 0: ok = IFF_attachToGroup((IFF_Group *)g->ptr, ch->ptr); plain = false; hist += "attach "; break;
            case 1: ok = IFF_addToGroup((IFF_Group *)g->ptr, ch->ptr); hist += "addToGroup "; break;
            case 2: if ((g->kind == H_CAT || g->kind == H_LIST) && (ch->kind == H_FORM || ch->kind == H_CAT || ch->kind == H_LIST)) {
                    ok = g->kind == H_CAT ? IFF_addToCATAndUpdateContentsType((IFF_CAT *)g->ptr, ch->ptr) : IFF_addToListAndUpdateContentsType((IFF_List *)g->ptr, ch->ptr);
                    gt = ((IFF_Group *)g->ptr)->groupType; hist += "addUpdate "; break; }   // the contents type is the business of C13
                // fall through
            default: hist += "add ";
                switch (g->kind) {
                case H_FORM: ok = IFF_addToForm((IFF_Form *)g->ptr, ch->ptr); break;
                case H_CAT: ok = IFF_addToCAT((IFF_CAT *)g->ptr, ch->ptr); break;
                case H_LIST: ok = IFF_addToList((IFF_List *)g->ptr, ch->ptr); break;
                default: ok = IFF_addToProp((IFF_Prop *)g->ptr, ch->ptr); break;
                }
            }
            if (!ok) c.fail("add-failed", "adding failed without reason; history %s", hist.c_str());
            (prop ? g->props : g->kids).push_back(ch); ch->parent = g; g->gtype = gt;
            if (plain) g->size += 8 + (int32_t)padded((u32)ch->size);
            forest.erase(forest.begin() + (long)ci);
            c.count(plain ? "additions" : "attachments");
        } else if (w < 10) {
            NodeP n = every[r.below((u32)every.size())];
            if (r.chance(1, 4) && n->is_group()) {   // one level only
                switch (n->kind) {
                case H_FORM: IFF_updateFormChunkSizes((IFF_Form *)n->ptr); break;
                case H_CAT: IFF_updateCATChunkSizes((IFF_CAT *)n->ptr); break;
                case H_LIST: IFF_updateListChunkSizes((IFF_List *)n->ptr); break;
                default: IFF_updatePropChunkSizes((IFF_Prop *)n->ptr); break;
                }
                m_recalc1(n.get()); hist += "recalcOne "; c.count("recalculations_one_group");
            } else {
                IFF_updateChunkSizes(n->ptr);
                int lv = 0; for (Node *p = n.get(); p; p = p->parent) { m_recalc1(p); lv++; }
                hist += strf("recalc@%d ", lv); c.count("recalculations"); if (lv > 3) c.count("recalculations_deep");
            }
        } else {
            std::vector<Node *> raws; for (auto &e : every) if (e->kind == H_RAW) raws.push_back(e.get());
            if (raws.empty()) continue;
            Node *n = raws[r.below((u32)raws.size())];
            if (r.chance(1, 5)) { Bytes s = gen_data(r, (u32)n->size); IFF_copyDataToRawChunkData((IFF_RawChunk *)n->ptr, (IFF_UByte *)s.data()); n->data = s; hist += "copy "; }
            else if (!set_data(n, r, hist, c.idx % 2003 == 99 && i < nops / 2)) c.fail("data-not-set", "setting data fails or sets something else; history %s", hist.c_str());
            c.count("data_settings");
        }
        c.evaluations++;
        for (auto &t : forest) {
            std::string link, why; NodeP g = observe(t->ptr, 0, *reg, &link);
            if (!same(*t, *g, &why)) { c.fail("state", "after %s the hierarchy differs from what the operations say: %s; %s", hist.c_str(), why.c_str(), describe(*t, 300).c_str()); break; }
            if (!link.empty()) { c.fail("links", "after %s: %s", hist.c_str(), link.c_str()); break; }
            std::vector<Node *> a = all_nodes(*t), b = all_nodes(*g);
            for (size_t j = 0; j < a.size(); j++) if (a[j]->ptr != b[j]->ptr) { c.fail("other-chunk", "after %s a different chunk is at that position", hist.c_str()); break; }
        }
        u32 s0 = r.below(1000); IFF_Chunk tmp; tmp.chunkSize = (int)r.below(100000); tmp.parent = nullptr; tmp.chunkId = ID_FILLER;
        if (IFF_incrementChunkSize((IFF_Long)s0, &tmp) != (IFF_Long)(s0 + 8 + padded((u32)tmp.chunkSize))) c.fail("increment", "incrementing %u by a chunk of %d bytes gives %d", s0, tmp.chunkSize, IFF_incrementChunkSize((IFF_Long)s0, &tmp));
    }
    for (auto &t : forest) c.cover(mix(shape(*t), hash_str(hist)));
    c.sample(hist);
    for (auto &t : forest) drop(t->ptr, *reg);
}
static RegisterCheck r10("C10", c10, 150000, 250000);

// ---------------------------------------------------------------- C13
static void c13(Ctx &c) {
    Rng &r = c.rng;
    RegP reg = reg_default();
    HKind kind = r.chance(1, 2) ? H_CAT : H_LIST;
    u32 initial = r.chance(1, 2) ? ID_JJJJ : gen_formtype(r, *reg);
    NodeP g = mk(kind, initial);
    g->ptr = mklib(*g, r);
    std::vector<u32> types; int nt = 1 + (int)r.below(3); for (int i = 0; i < nt; i++) types.push_back(gen_formtype(r, *reg));
    int n = (int)r.below(r.chance(1, 10) ? 40 : 9); bool mixed = r.chance(1, 5), auto_only = true;
    // a long run whose members agree (almost) to the end: a difference must be noticed wherever it appears
    bool lengthy = r.chance(1, 400); int late = -1; u32 other = 0;
    if (lengthy) {
        n = r.chance(1, 6) ? 1000 + (int)r.below(3500) : 200 + (int)r.below(500); mixed = false; c.count("groups_of_more_than_255", n > 255);
        types.resize(r.chance(1, 4) ? types.size() : 1); late = r.chance(1, 5) ? n : n - 1 - (int)r.below(r.chance(1, 2) ? 3u : (u32)n / 2);
        do other = gen_formtype(r, *reg); while (other == types[0]);
    }
    u32 want = initial; bool any = false, differs = false; u32 firstType = 0; std::string hist = strf("%s initially '%s': ", id_str(g->id).c_str(), id_str(initial).c_str());
    std::set<u32> ptypes;
    for (int i = 0; i < n && !c.failed(); i++) {
        if (i == late) { types.assign(1, other); c.count("late_differences"); }
        if (kind == H_LIST && r.chance(1, 4)) {
            u32 t = r.pick(types); if (!ptypes.insert(t).second) continue;
            u32 before = ((IFF_List *)g->ptr)->contentsType;
            IFF_addPropToList((IFF_List *)g->ptr, IFF_createEmptyProp(t));
            hist += "PROP:" + id_str(t) + " ";
            c.evaluations++;
            if (((IFF_List *)g->ptr)->contentsType != before) c.fail("prop-changes-contents-type", "%s", hist.c_str());
            continue;
        }
        // a conforming member: FORM, CAT or LIST, itself possibly maintained automatically, possibly with contents
        NodeP m; IFF_Chunk *k; u32 mt;
        int w = (int)r.below(8);
        if (w < 4) { GenOpt q; q.budget = 6; q.big = false; u32 b = 4; (void)b; m = mk(H_FORM, r.pick(types)); int kk = (int)r.below(3); for (int j = 0; j < kk; j++) { u32 bb = 3; NodeP x = gen_chunk(r, *reg, q, m->gtype, 3, bb); m->kids.push_back(x); } fix_sizes(*m); set_parents(*m); k = build(*m, *reg, r); mt = m->gtype; }
        else if (w < 6) { m = mk(r.chance(1, 2) ? H_CAT : H_LIST, !lengthy && r.chance(1, 2) ? ID_JJJJ : r.pick(types)); k = mklib(*m, r); mt = m->gtype; }
        else {
            m = mk(r.chance(1, 2) ? H_CAT : H_LIST, ID_JJJJ); k = mklib(*m, r);
            u32 it = r.pick(types); IFF_Chunk *in = (IFF_Chunk *)IFF_createEmptyForm(it);
            if (m->kind == H_CAT) IFF_addToCATAndUpdateContentsType((IFF_CAT *)k, in); else IFF_addToListAndUpdateContentsType((IFF_List *)k, in);
            mt = it;
            if (((IFF_Group *)k)->groupType != it) { c.fail("contents-type", "the contents type of a new %s is '%s' after its first member '%s' was added", id_str(m->id).c_str(), id_str(((IFF_Group *)k)->groupType).c_str(), id_str(it).c_str()); }
            mt = ((IFF_Group *)k)->groupType;
        }
        bool plain = mixed && r.chance(1, 4);
        u32 before = ((IFF_Group *)g->ptr)->groupType;
        if (plain) {
            auto_only = false;
            switch (r.below(3)) { case 0: IFF_addToGroup((IFF_Group *)g->ptr, k); break; case 1: IFF_attachToGroup((IFF_Group *)g->ptr, k); ((IFF_Group *)g->ptr)->chunkSize = IFF_incrementChunkSize(((IFF_Group *)g->ptr)->chunkSize, k); break; default: if (kind == H_CAT) IFF_addToCAT((IFF_CAT *)g->ptr, k); else IFF_addToList((IFF_List *)g->ptr, k); }
            hist += "plain:" + id_str(mt) + " ";
            if (((IFF_Group *)g->ptr)->groupType != before) c.fail("plain-addition-changes-contents-type", "%s from '%s' to '%s'", hist.c_str(), id_str(before).c_str(), id_str(((IFF_Group *)g->ptr)->groupType).c_str());
        } else {
            if (r.chance(1, 3)) IFF_addToListAndUpdateContentsType == nullptr ? (void)0 : (void)0;
            bool ok = kind == H_LIST && r.chance(2, 3) ? IFF_addToListAndUpdateContentsType((IFF_List *)g->ptr, k) : IFF_addToCATAndUpdateContentsType((IFF_CAT *)g->ptr, k);
            hist += "auto:" + id_str(m->id) + ":" + id_str(mt) + " ";
            if (!ok) c.fail("add-failed", "%s", hist.c_str());
            if (!any) { firstType = mt; any = true; want = mt; } else if (mt != firstType) { differs = true; want = ID_JJJJ; }
            u32 got = ((IFF_Group *)g->ptr)->groupType;
            if (auto_only) {
                c.count(differs ? "expected_blank" : "expected_common");
                if (got != want) c.fail("contents-type", "%s: contents type is '%s', expected '%s'", hist.c_str(), id_str(got).c_str(), id_str(want).c_str());
            } else c.count("mixed_additions_not_judged");
        }
        c.evaluations++; c.count("members_added");
        if (auto_only && (!lengthy || i + 1 >= n || i == late || r.chance(1, 40))) {
            D.reset();
            if (!IFF_check(g->ptr, nullptr)) c.fail("does-not-conform", "%s does not pass the check: %s", hist.c_str(), D.text.c_str());
            c.count("conformance_checks");
        }
    }
    if (!any && ((IFF_Group *)g->ptr)->groupType != initial) c.fail("contents-type", "%s: changed without members", hist.c_str());
    c.cover(hash_str(hist)); c.sample(hist);
    drop(g->ptr, *reg);
}
static RegisterCheck r13("C13", c13, 700000, 1000000);

// ---------------------------------------------------------------- C26
static void observe_point(Ctx &c, Node &t, const RegModel &reg, const std::string &hist) {
    Rng &r = c.rng;
    if (t.id != ID_FORM && t.id != ID_CAT && t.id != ID_LIST) return;
    c.evaluations++; c.cover(shape(t));
    D.reset();
    if (!IFF_check(t.ptr, reg.lib())) { c.fail("does-not-conform", "%s after %s: %s", describe(t).c_str(), hist.c_str(), D.text.substr(0, 300).c_str()); return; }
    bool ok; Bytes b = lib_write(t.ptr, reg, &ok);
    c.witness = b;
    if (!ok) { c.fail("not-written", "%s after %s: %s", describe(t).c_str(), hist.c_str(), D.text.c_str()); return; }
    IFF_Chunk *k;
    if (r.chance(1, 12)) {
        std::string p = scratch_dir + "/c26.iff";
        if (!IFF_write(p.c_str(), t.ptr, reg.lib())) c.fail("not-written", "to a file: %s", describe(t).c_str());
        k = IFF_read(p.c_str(), reg.lib()); unlink(p.c_str());
    } else k = lib_read(b, reg, r);
    if (!k) { c.fail("not-read-back", "%s after %s: %s", describe(t).c_str(), hist.c_str(), D.text.c_str()); return; }
    D.reset();
    bool eq = IFF_compare(t.ptr, k, reg.lib());
    std::string why; NodeP m = observe(k, 0, reg), src = observe(t.ptr, 0, reg);
    bool eqm = same(*src, *m, &why);
    if (!eq || !eqm) c.fail("round-trip-differs", "compare says %d, structure says %d (%s): %s after %s", eq, eqm, why.c_str(), describe(t).c_str(), hist.c_str());
    else {
        if (!IFF_check(k, reg.lib())) c.fail("read-back-does-not-conform", "%s after %s: %s", describe(t).c_str(), hist.c_str(), D.text.substr(0, 300).c_str());
        std::vector<Node *> va = all_nodes(*src), vb = all_nodes(*m);
        std::map<void *, size_t> ia, ib; for (size_t i = 0; i < va.size(); i++) { ia[va[i]->ptr] = i; ib[vb[i]->ptr] = i; }
        ia[nullptr] = ib[nullptr] = (size_t)-1;
        for (int q = 0; q < 4; q++) {
            std::vector<u32> ty; int nt = 1 + (int)r.below(3);
            for (int i = 0; i < nt; i++) ty.push_back(va[r.below((u32)va.size())]->gtype);
            unsigned la = 0, lb = 0; IFF_Form **fa = IFF_searchFormsFromArray(t.ptr, ty.data(), (unsigned)nt, &la), **fb = IFF_searchFormsFromArray(k, ty.data(), (unsigned)nt, &lb);
            bool bad = la != lb; for (unsigned i = 0; !bad && i < la; i++) bad = ia[fa[i]] != ib[fb[i]];
            if (bad) c.fail("searches-differ", "%u vs %u results before and after the round trip of %s", la, lb, describe(t).c_str());
            c.count("searches_compared"); vp_free(fa); vp_free(fb);
            size_t i = r.below((u32)va.size());
            if (va[i]->kind == H_FORM) {
                u32 id = va[r.below((u32)va.size())]->id;
                size_t x = ia[IFF_getChunkFromForm((IFF_Form *)va[i]->ptr, id)], y = ib[IFF_getChunkFromForm((IFF_Form *)vb[i]->ptr, id)];
                if (x != y) c.fail("lookups-differ", "%s in %s before and after the round trip", id_str(id).c_str(), describe(t).c_str());
                c.count("lookups_compared");
            }
        }
    }
    drop(k, reg);
}
static void c26(Ctx &c) {
    Rng &r = c.rng;
    RegP reg = r.chance(1, 2) ? reg_default() : reg_rich();
    GenOpt o; o.big = r.chance(1, 4); o.surplus = r.chance(1, 3);
    std::vector<u32> types; for (int i = 0; i < 3; i++) types.push_back(gen_formtype(r, *reg));
    std::vector<NodeP> forest, every; std::string hist; std::map<Node *, u32> made_for;
    auto fresh = [&](HKind k) {
        NodeP n;
        if (k == H_RAW) {
            u32 sc = r.pick(types);
            do { u32 b = 1; n = gen_chunk(r, *reg, o, sc, 99, b); } while (n->kind != H_RAW && n->kind != H_EXT);
            n->gtype = 0; n->ptr = nullptr; Node x = *n; n->ptr = build(x, *reg, r);
            if (n->kind == H_EXT) n->surplus.assign(1, (char)0), n->surplus.clear();
            n->props.clear();
            n->data = x.data; made_for[n.get()] = sc;
        } else { n = mk(k, k == H_FORM || k == H_PROP ? r.pick(types) : r.chance(1, 2) ? ID_JJJJ : r.pick(types)); n->ptr = mklib(*n, r); }
        forest.push_back(n); every.push_back(n); return n;
    };
    for (int i = 0; i < 4; i++) fresh((HKind)(H_FORM + r.below(4)));
    fresh(H_RAW); fresh(H_RAW);
    std::map<Node *, int> managed;   // CAT/LIST: 1 automatic, 2 plain
    if (c.idx % 151 == 98) {   // a tower, from the inside out
        NodeP in = fresh(H_FORM); int levels = r.chance(1, 8) ? 300 + (int)r.below(500) : 20 + (int)r.below(60); c.count("towers");
        for (int i = 0; i < levels && !c.failed(); i++) {
            NodeP g = fresh(r.chance(1, 3) ? H_FORM : r.chance(1, 2) ? H_CAT : H_LIST); bool added;
            if (g->kind == H_FORM) added = IFF_addToForm((IFF_Form *)g->ptr, in->ptr);
            else { managed[g.get()] = 1; added = g->kind == H_CAT ? IFF_addToCATAndUpdateContentsType((IFF_CAT *)g->ptr, in->ptr) : IFF_addToListAndUpdateContentsType((IFF_List *)g->ptr, in->ptr); g->gtype = ((IFF_Group *)g->ptr)->groupType; }
            if (!added) c.fail("not-added", "an addition fails without reason; tower of %d", i);
            g->kids.push_back(in); in->parent = g.get(); forest.erase(std::find(forest.begin(), forest.end(), in)); in = g;
            if (i + 1 == levels || r.chance(1, 24)) observe_point(c, *in, *reg, strf("tower of %d", i));
        }
        hist += "tower ";
    }
    int nops = 6 + (int)r.below(c.thorough ? 50 : 24);
    for (int i = 0; i < nops && !c.failed(); i++) {
        int w = (int)r.below(10); Node *touched = nullptr;
        if (w < 3) { touched = fresh(r.chance(1, 2) ? H_RAW : (HKind)(H_FORM + r.below(4))).get(); hist += "new "; }
        else if (w < 8) {
            size_t ci = r.below((u32)forest.size()); NodeP ch = forest[ci];
            std::vector<Node *> groups;
            for (auto &e : every) {
                if (!e->is_group() || inside(e.get(), ch.get())) continue;
                bool grp = ch->kind == H_FORM || ch->kind == H_CAT || ch->kind == H_LIST, ok;
                switch (e->kind) {
                case H_FORM: ok = ch->kind != H_PROP; break;
                case H_PROP: ok = ch->kind == H_RAW || ch->kind == H_EXT; break;
                case H_CAT: ok = grp; break;
                default: ok = grp || ch->kind == H_PROP; break;
                }
                if (ok && (e->kind == H_FORM || e->kind == H_PROP) && !ch->is_group() && reg->find(e->gtype, ch->id) != ch->slot) ok = false;
                if (ok && e->kind == H_LIST && ch->kind == H_PROP) for (auto &p : e->props) if (p->gtype == ch->gtype) ok = false;
                if (ok) groups.push_back(e.get());
            }
            if (groups.empty()) continue;
            Node *g = groups[r.below((u32)groups.size())];
            bool inner = g->parent != nullptr;
            bool added = true;
            if (ch->kind == H_PROP) { added = IFF_addPropToList((IFF_List *)g->ptr, (IFF_Prop *)ch->ptr); g->props.push_back(ch); hist += "addProp "; }
            else if (g->kind == H_FORM) { added = IFF_addToForm((IFF_Form *)g->ptr, ch->ptr); g->kids.push_back(ch); hist += "addForm "; }
            else if (g->kind == H_PROP) { added = IFF_addToProp((IFF_Prop *)g->ptr, ch->ptr); g->kids.push_back(ch); hist += "addProp "; }
            else {
                u32 cur = ((IFF_Group *)g->ptr)->groupType; int &m = managed[g];
                // plain additions need an agreeing type; automatic ones are only claimed for groups maintained that way from the start;
                // and a group that is a member already must not change its type
                bool fits = cur == ID_JJJJ || cur == ch->gtype;
                bool may_auto = (m == 1 || g->kids.empty()) && !(inner && !(cur == ch->gtype || (cur == ID_JJJJ && !g->kids.empty())));
                if (m != 1 && fits && r.chance(1, 2)) { m = 2; added = g->kind == H_CAT ? IFF_addToCAT((IFF_CAT *)g->ptr, ch->ptr) : IFF_addToList((IFF_List *)g->ptr, ch->ptr); hist += "addPlain "; }
                else if (m != 2 && may_auto) { m = 1; added = g->kind == H_CAT ? IFF_addToCATAndUpdateContentsType((IFF_CAT *)g->ptr, ch->ptr) : IFF_addToListAndUpdateContentsType((IFF_List *)g->ptr, ch->ptr); hist += "addAuto "; }
                else continue;
                g->gtype = ((IFF_Group *)g->ptr)->groupType;
                g->kids.push_back(ch);
            }
            if (!added) { c.fail("not-added", "an addition fails without reason; history %s", hist.c_str()); break; }
            ch->parent = g; forest.erase(forest.begin() + (long)ci);
            if (inner) { IFF_updateChunkSizes(r.chance(1, 2) ? ch->ptr : g->ptr); hist += "recalc "; }
            touched = g; c.count("additions");
        } else {
            std::vector<Node *> raws; for (auto &e : every) if (e->kind == H_RAW) raws.push_back(e.get());
            if (raws.empty()) continue;
            touched = raws[r.below((u32)raws.size())]; 
            if (!set_data(touched, r, hist, c.idx % 1501 == 99 && i < nops / 2, r.chance(1, 12))) c.fail("data-not-set", "setting data fails or sets something else; history %s", hist.c_str());
            if (touched->parent) { IFF_updateChunkSizes(touched->ptr); hist += "recalc "; }
            c.count("data_settings");
        }
        Node *t = top_of(touched);
        // model sizes are taken from the library here: they are judged by the check and the round trip
        observe_point(c, *t, *reg, hist);
    }
    c.sample(hist);
    for (auto &t : forest) IFF_freeChunk(t->ptr, made_for.count(t.get()) ? made_for[t.get()] : 0, reg->libx());
}
static RegisterCheck r26("C26", c26, 80000, 200000);
