#include <fcntl.h>
#include <unistd.h>
#include "checks.h"

std::vector<Node *> all_nodes(Node &n) { std::vector<Node *> v; collect(n, v); return v; }
u32 scope_of(const Node &n) { return n.parent ? n.parent->gtype : 0; }
bool has_surplus(Node &n) {
    for (Node *k : all_nodes(n)) { if (k->pad) return true; for (char c : k->surplus) if (c) return true; }
    return false;
}
void set_ids(Node &n, const RegModel &reg, u32 formType) {
    if (!n.is_group()) {
        int slot = reg.find(formType, n.id);
        if (slot != n.slot) {
            Bytes body = encode(n, true);
            Parse p = ref_parse(body, reg, formType);
            if (p.status == Parse::OK && !p.top->is_group()) {
                Node &q = *p.top;
                n.slot = q.slot; n.kind = q.kind; n.data = q.data; n.vals = q.vals; n.surplus = q.surplus;
            } else { harness_die("cannot reinterpret"); }
        }
        return;
    }
    for (auto *l : {&n.props, &n.kids}) for (auto &k : *l) set_ids(*k, reg, n.gtype);
}
static u32 illegal_id(Rng &r) {
    u32 v = (u32)r.next();
    switch (r.below(4)) {
    case 0: return v;
    case 1: return 0x20000000 | (0x414141 + r.below(20));
    case 2: return mkid("ABCD") ^ (0x80u << (8 * r.below(4)));
    default: return (mkid("ABCD") & ~(0xffu << (8 * r.below(4))));
    }
}
NodeP loosen(Ctx &c, const NodeP &t0, const RegModel &reg) {
    Rng &r = c.rng;
    NodeP t = clone(*t0); set_parents(*t);
    int n = 1 + (int)r.below(3);
    for (int i = 0; i < n; i++) {
        auto v = all_nodes(*t);
        Node &k = *v[r.below((u32)v.size())];
        switch (r.below(6)) {
        case 0: if (k.is_group()) k.gtype = r.chance(1, 2) ? illegal_id(r) : r.chance(1, 3) ? ID_JJJJ : mkid("ab. "); break;
        case 1: if (!k.is_group()) { u32 id = illegal_id(r); if (id != ID_FORM && id != ID_CAT && id != ID_LIST && id != ID_PROP) k.id = id; } break;
        case 2: if (k.is_group()) { auto q = std::make_shared<Node>(); q->id = mkid("BODY"); q->slot = reg.find(k.gtype, q->id); q->kind = slots[q->slot].kind; if (q->kind != H_RAW) break; q->size = (int)r.below(9); q->data = gen_data(r, (u32)q->size); q->parent = &k; k.kids.insert(k.kids.begin() + r.below((u32)k.kids.size() + 1), q); } break;
        case 3: if (k.is_group() && k.kind != H_LIST) { auto q = std::make_shared<Node>(); q->id = ID_PROP; q->slot = SLOT_PROP; q->kind = H_PROP; q->gtype = gen_formtype(r, reg); q->size = 4; q->parent = &k; k.kids.insert(k.kids.begin() + r.below((u32)k.kids.size() + 1), q); } break;
        case 4: if (k.kind == H_PROP) { auto q = std::make_shared<Node>(); int w = (int)r.below(3); q->kind = w == 0 ? H_FORM : w == 1 ? H_CAT : H_LIST; q->id = w == 0 ? ID_FORM : w == 1 ? ID_CAT : ID_LIST; q->slot = 1 + w; q->gtype = gen_formtype(r, reg); q->size = 4; q->parent = &k; k.kids.push_back(q); } break;
        case 5: if (k.kind == H_LIST && !k.props.empty()) { NodeP q = clone(*k.props[r.below((u32)k.props.size())]); q->parent = &k; k.props.push_back(q); } break;
        }
    }
    set_ids(*t, reg, 0);
    fix_sizes(*t);
    Parse p = ref_parse(encode(*t, true), reg);
    if (p.status != Parse::OK) { harness_die("loosened tree does not parse"); }
    set_parents(*p.top);
    return p.top;
}
NodeP gen_any(Ctx &c, const RegModel &reg, const GenOpt &o) {
    if (o.alone && c.rng.chance(1, o.alone)) { u32 b = 1; NodeP k; do k = gen_chunk(c.rng, reg, o, 0, 99, b); while (k->is_group()); k->parent = nullptr; return k; }
    NodeP t = gen_tree(c.rng, reg, o);
    if (o.stretch && c.rng.chance(1, o.stretch)) { stretch(c, t, reg, 256 + (int)c.rng.below(20)); return t; }
    if (o.enormous && c.idx % 9973 == 4242 && !c.counters.count("groups_of_more_than_65536")) { static const int ks[] = {H_FORM, H_CAT, H_LIST}; stretch(c, t, reg, 65537 + (int)c.rng.below(9), ks[(c.idx / 9973 + c.seed) % 3]); return t; }
    if (c.rng.chance(1, 4)) return loosen(c, t, reg);
    return t;
}
// gives one group more members than fit in a byte, or than fit in 16 bits; what was there before mostly comes last
void stretch(Ctx &c, NodeP &t, const RegModel &reg, int n, int kind) {
    Rng &r = c.rng; bool huge = n > 60000;
    if (huge) vp_step_limit += 200000000000ull;   // even ways that take quadratic time
    bool props = kind ? kind == H_PROP : !huge && r.chance(2, 3);
    std::vector<Node *> gs;
    auto find = [&] { gs.clear(); for (Node *g : all_nodes(*t)) if (g->is_group() && (props ? g->kind == H_LIST : !kind || (int)g->kind == kind)) gs.push_back(g); };
    find();
    if (gs.empty()) {
        if (t->kind == H_PROP || !t->is_group()) return;
        auto l = std::make_shared<Node>(); int w = props ? H_LIST : kind ? kind : H_CAT; l->kind = (HKind)w; l->slot = w; l->gtype = ID_JJJJ; l->kids.push_back(t);
        l->id = w == H_LIST ? ID_LIST : w == H_CAT ? ID_CAT : ID_FORM; if (w == H_FORM) l->gtype = gen_formtype(r, reg); t = l; set_parents(*t); find();
    }
    if (gs.empty()) return;
    Node *g = r.pick(gs); std::vector<NodeP> add; add.reserve((size_t)n);
    bool groups = g->kind == H_CAT || g->kind == H_LIST || (g->kind == H_FORM && r.chance(1, 3));
    u32 type = groups && g->kind != H_FORM && g->gtype != ID_JJJJ ? g->gtype : gen_formtype(r, reg), id = mkid(r.chance(1, 2) ? "BODY" : "ANNO");
    if (!props && groups && !ref_formtype_ok(type)) return;
    std::set<u32> used; for (auto &p : g->props) used.insert(p->gtype);
    static const char d[] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ";
    for (int i = 0, k = 0; i < n; i++) {
        auto q = std::make_shared<Node>(); q->parent = g; q->size = 4;
        if (props) {
            u32 ty; do { ty = (u32)'P' << 24 | (u32)d[k / 1296 % 36] << 16 | (u32)d[k / 36 % 36] << 8 | (u32)d[k % 36]; k++; } while (used.count(ty));
            q->kind = H_PROP; q->id = ID_PROP; q->slot = SLOT_PROP; q->gtype = ty;
            if (r.chance(1, 40)) { auto x = std::make_shared<Node>(); x->id = id; x->slot = SLOT_RAW; x->kind = H_RAW; x->size = (int)r.below(3); x->data = gen_data(r, (u32)x->size); q->kids.push_back(x); }
        } else if (groups) { q->kind = H_FORM; q->id = ID_FORM; q->slot = SLOT_FORM; q->gtype = type; }
        else { q->id = id; q->slot = SLOT_RAW; q->kind = H_RAW; q->size = (int)r.below(3); q->data = gen_data(r, (u32)q->size); }
        add.push_back(q);
    }
    auto &l = props ? g->props : g->kids; size_t at = r.chance(3, 4) ? 0 : r.below((u32)l.size() + 1);
    l.insert(l.begin() + (long)at, add.begin(), add.end());
    set_ids(*t, reg, 0); fix_sizes(*t); set_parents(*t); resolve_groups(*t, reg, 0);
    c.count(huge ? "groups_of_more_than_65536" : props ? "lists_of_more_than_255_props" : "groups_of_more_than_255");
}
IFF_Chunk *obtain(Ctx &c, Node &t, const RegModel &reg, bool *was_read) {
    if (c.rng.chance(1, 2)) {
        Bytes b = encode(t, true);
        IFF_Chunk *k = lib_read(b, reg, c.rng);
        if (was_read) *was_read = true;
        D.reset();
        // a stream that is not read as encoded is the business of C03; the check at hand goes on with a built hierarchy
        if (k && same(t, *observe(k, 0, reg))) { tie(t, k); c.count("hierarchies_read"); return k; }
        c.count("precondition_read_mismatches");
        if (k) drop(k, reg);
        if (was_read) *was_read = false;
        return build(t, reg, c.rng);
    }
    c.count("hierarchies_built");
    if (was_read) *was_read = false;
    return build(t, reg, c.rng);
}
// makes one data or extension chunk of the hierarchy very large
void inflate(Ctx &c, Node &t, const RegModel &reg, u32 wanted, bool last) {
    static const u32 edge[] = {0xffffff, 0x1000000, 0x1000001, 0x1000002, 0x1fffffe, 0x800000, 0x100001, 0xfffff};
    Rng &r = c.rng;
    vp_step_limit += 20000000000ull;
    std::vector<Node *> ls, gs; for (Node *n : all_nodes(t)) if (!n->is_group() && n->parent) ls.push_back(n); else if (n->kind == H_FORM) gs.push_back(n);
    Node *n;
    if (last) {   // a new chunk behind everything else, in the innermost FORM that ends the stream
        Node *g = nullptr; for (Node *x = &t; x && x->is_group(); x = x->kids.empty() ? nullptr : x->kids.back().get()) if (x->kind == H_FORM) g = x;
        while (g && g->parent && g->parent->kids.back().get() != g) g = nullptr;
        if (!g || (!g->kids.empty() && g->kids.back()->is_group() && g->kids.back()->kind == H_PROP)) return;
        static const char *ids[] = {"BODY", "TEXT", "HELO", "BMHD", "CMAP", "VHDR", "BYE ", "AUTH"}; std::vector<u32> ext; for (const char *i : ids) if (slots[reg.find(g->gtype, mkid(i))].kind == H_EXT) ext.push_back(mkid(i));
        auto q = std::make_shared<Node>(); q->parent = g; q->id = ext.empty() || r.chance(1, 4) ? mkid(ids[r.below(8)]) : r.pick(ext); q->slot = reg.find(g->gtype, q->id); q->kind = slots[q->slot].kind; if (q->is_group()) return;
        g->kids.push_back(q); n = q.get();
    } else if (ls.empty() || (!gs.empty() && r.chance(1, 2))) {
        if (gs.empty()) return;
        auto q = std::make_shared<Node>(); Node *g = r.pick(gs); q->parent = g; q->id = mkid(r.chance(1, 2) ? "BODY" : "HELO"); q->slot = reg.find(g->gtype, q->id); q->kind = slots[q->slot].kind; if (q->is_group()) return;
        g->kids.insert(g->kids.begin() + r.below((u32)g->kids.size() + 1), q); n = q.get();
    } else n = r.pick(ls);
    u32 size = wanted ? wanted : r.chance(1, 2) ? (1u << (17 + r.below(8))) + r.below(4) - 1 : edge[r.below(8)] + r.below(3);
    Bytes unit = gen_data(r, 4099), enc;
    for (int i = 3; i >= 0; i--) enc.push_back((char)(n->id >> (8 * i)));
    for (int i = 3; i >= 0; i--) enc.push_back((char)(size >> (8 * i)));
    while (enc.size() < 8 + (size_t)size) enc += unit;
    enc.resize(8 + (size_t)size + (size & 1));
    if (size & 1) enc.back() = 0;
    Parse p = ref_parse(enc, reg, scope_of(*n));
    if (p.status != Parse::OK || p.top->slot != n->slot) harness_die("cannot inflate");
    n->size = p.top->size; n->data = p.top->data; n->vals = p.top->vals; n->surplus = p.top->surplus; n->pad = 0;
    fix_sizes(t); set_parents(t);
    c.count(wanted ? "payloads_beyond_64_KB" : "payloads_beyond_1_MB");
}
void widen(Rng &r, Node &t, const RegModel &reg) {
    std::vector<Node *> gs; for (Node *n : all_nodes(t)) if (n->is_group()) gs.push_back(n);
    if (gs.empty()) return;
    Node *g = r.pick(gs); int n = 9 + (int)r.below(r.chance(1, 4) ? 120 : 30); u32 id = mkid(r.chance(1, 2) ? "BODY" : "ANNO"), type = g->gtype == ID_JJJJ || r.chance(1, 4) ? gen_formtype(r, reg) : g->gtype; bool groups = g->kind == H_CAT || g->kind == H_LIST;
    if (groups && g->gtype != ID_JJJJ) type = g->gtype;
    if (groups && !ref_formtype_ok(type)) return;
    if (g->kind == H_FORM && r.chance(1, 3)) groups = true;
    size_t at = r.below((u32)g->kids.size() + 1);
    for (int i = 0; i < n; i++) {
        auto q = std::make_shared<Node>(); q->parent = g;
        if (groups) { q->kind = H_FORM; q->id = ID_FORM; q->slot = SLOT_FORM; q->gtype = type; q->size = 4; }
        else { q->id = id; q->slot = SLOT_RAW; q->kind = H_RAW; q->size = (int)r.below(r.chance(1, 10) ? 20 : 3); q->data = gen_data(r, (u32)q->size); }
        g->kids.insert(g->kids.begin() + (long)(r.chance(1, 2) ? at : r.below((u32)g->kids.size() + 1)), q);
    }
    set_ids(t, reg, scope_of(t)); fix_sizes(t); set_parents(t); resolve_groups(t, reg, scope_of(t));
}
// One change of a hierarchy in place, as a program that holds it makes through the public members: the chunks stay where they are.
bool poke(Rng &r, const RegModel &reg, Node &t, std::string &what, std::function<void()> &undo, bool sizes) {
    auto v = all_nodes(t); std::vector<u32> types; for (Node *x : v) if (x->is_group()) types.push_back(x->gtype);
    for (int tries = 0; tries < 30; tries++) {
        Node *n = r.chance(1, 4) ? v[r.below((u32)std::min<size_t>(v.size(), 4))] : r.pick(v);
        switch (r.below(sizes ? 8 : 7)) {
        case 0: { if (n->kind != H_RAW || n->data.empty() || n->size <= 0) break; size_t p = r.chance(1, 3) ? 0 : r.chance(1, 2) ? n->data.size() - 1 : r.below((u32)n->data.size()); char b = (char)(1 << r.below(8)); auto go = [n, p, b] { n->data[p] = (char)(n->data[p] ^ b); ((IFF_RawChunk *)n->ptr)->chunkData[p] ^= (IFF_UByte)b; }; go(); undo = go; what = "a data bit"; return true; }
        case 1: { if (n->kind != H_EXT) break; auto &d = slots[n->slot].def; int k = d.fit(n->size); if (!k) break; int i = d.rule_field >= 0 && d.rule_field < k && r.chance(1, 2) ? d.rule_field : (int)r.below((u32)k), w = field_size(d.fields[i]); u32 m = w == 4 ? 0xffffffffu : (1u << (8 * w)) - 1, old = n->vals[i], nv = (r.chance(1, 2) ? old ^ 1u << r.below((u32)w * 8) : r.chance(1, 2) ? d.rule_max + 1 : r.chance(1, 2) ? 0 : m) & m; if (nv == old) break; n->vals[i] = nv; ext_set((ExtChunk *)n->ptr, i, nv); undo = [n, i, old] { n->vals[i] = old; ext_set((ExtChunk *)n->ptr, i, old); }; what = "an extension field"; return true; }
        case 2: case 5: { if (!n->is_group()) break; u32 old = n->gtype, nt = r.chance(1, 2) ? r.pick(types) : r.chance(1, 3) ? old ^ 1u << r.below(32) : r.chance(1, 3) ? ID_JJJJ : gen_formtype(r, reg); if (nt == old) break; bool ok = true; for (auto *l : {&n->props, &n->kids}) for (auto &k : *l) if (reg.find(nt, k->id) != k->slot) ok = false; if (!ok) break; auto set = [n](u32 x) { n->gtype = x; ((IFF_Group *)n->ptr)->groupType = x; }; set(nt); undo = [set, old] { set(old); }; what = "a group type"; return true; }
        case 3: { if (!n->is_group()) break; bool pr = n->kind == H_LIST && r.chance(1, 2); auto &l = pr ? n->props : n->kids; if (l.size() < 2) break; size_t i = r.below((u32)l.size() - 1), j = r.chance(1, 2) ? i + 1 : i + 1 + r.below((u32)(l.size() - i - 1)); auto go = [n, pr, i, j] { if (pr) { std::swap(n->props[i], n->props[j]); std::swap(((IFF_List *)n->ptr)->prop[i], ((IFF_List *)n->ptr)->prop[j]); } else { std::swap(n->kids[i], n->kids[j]); std::swap(((IFF_Group *)n->ptr)->chunk[i], ((IFF_Group *)n->ptr)->chunk[j]); } }; go(); undo = go; what = pr ? "PROPs swapped" : "members swapped"; return true; }
        case 4: case 6: { if (n->is_group()) break; u32 old = n->id, id; if (r.chance(1, 2)) id = old ^ 1u << r.below(32); else { Node *x = r.pick(v); id = x->is_group() ? mkid("NONE") : x->id; } if (id == old || id == ID_FORM || id == ID_CAT || id == ID_LIST || id == ID_PROP || reg.find(scope_of(*n), id) != n->slot) break; auto set = [n](u32 x) { n->id = x; n->ptr->chunkId = x; }; set(id); undo = [set, old] { set(old); }; what = "an identifier"; return true; }
        case 7: { if (!n->is_group()) break; int32_t old = n->size, ns = old + (r.chance(1, 2) ? 2 : -2); auto set = [n](int32_t x) { n->size = x; n->ptr->chunkSize = x; }; set(ns); undo = [set, old] { set(old); }; what = "a declared group size"; return true; }
        }
    }
    return false;
}
static void snap_rec(const IFF_Chunk *c, u32 ft, const RegModel &reg, Snap &s) {
    auto p = [&](const void *x) { s.w.push_back((u64)(uintptr_t)x); };
    p(c); p(c->parent); s.w.push_back((u64)c->chunkId << 32 | (u32)c->chunkSize);
    const Handler &h = reg.handler(ft, c->chunkId);
    if (h.kind == H_RAW) { const IFF_RawChunk *r = (const IFF_RawChunk *)c; p(r->chunkData); s.w.push_back(c->chunkSize > 0 ? hash_bytes(r->chunkData, (size_t)c->chunkSize) : 0); }
    else if (h.kind == H_EXT) s.w.push_back(hash_bytes(c, sizeof(ExtChunk)));
    else {
        const IFF_Group *g = (const IFF_Group *)c;
        s.w.push_back((u64)g->groupType << 32 | g->chunkLength); p(g->chunk);
        if (h.kind == H_LIST) { const IFF_List *l = (const IFF_List *)c; s.w.push_back(l->propLength); p(l->prop); for (unsigned i = 0; i < l->propLength; i++) snap_rec((const IFF_Chunk *)l->prop[i], g->groupType, reg, s); }
        for (unsigned i = 0; i < g->chunkLength; i++) snap_rec(g->chunk[i], g->groupType, reg, s);
    }
}
Snap snapshot(const IFF_Chunk *c, u32 ft, const RegModel &reg) { Snap s; snap_rec(c, ft, reg, s); return s; }

// Never the device itself: code under test may remove or rename what it cannot write to.
const std::string &full_device() {
    static std::string path, none; static int have = -1;
    if (have < 0) { int fd = open("/dev/full", O_WRONLY); have = fd >= 0 && write(fd, "x", 1) < 0; if (fd >= 0) close(fd); }
    if (!have) return none;
    path = scratch_dir + "/full"; unlink(path.c_str());
    if (symlink("/dev/full", path.c_str())) { fprintf(stderr, "harness: scratch directory\n"); _exit(3); }
    return path;
}
