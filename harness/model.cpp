// Reference model: handlers, registries, encoder, parser, conformance, printer, searches.
#include <unistd.h>
#include "vp.h"
#include <algorithm>

extern "C" { extern IFF_ChunkType IFF_defaultChunkType; extern IFF_ChunkTypesNode IFF_globalChunkTypesNode; }

const u32 ID_FORM = mkid("FORM"), ID_CAT = mkid("CAT "), ID_LIST = mkid("LIST"), ID_PROP = mkid("PROP"), ID_JJJJ = mkid("JJJJ"), ID_FILLER = mkid("    "), ID_TEXT_ = mkid("TEXT");

std::string strf(const char *fmt, ...) {
    char buf[4096]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap); return buf;
}
std::string hex(const Bytes &b, size_t max) {
    std::string s; for (size_t i = 0; i < b.size() && i < max; i++) s += strf("%02x", (u8)b[i]);
    if (b.size() > max) s += strf("... (%zu bytes)", b.size());
    return s;
}
std::string id_str(u32 id) {
    std::string s;
    for (int i = 3; i >= 0; i--) { u8 c = id >> (8 * i); if (c >= 0x20 && c <= 0x7e) s += (char)c; else s += strf("\\x%02x", c); }
    return s;
}
u32 padded(u32 n) { return n + (n & 1); }

// ---------------------------------------------------------------- handlers
Handler slots[NSLOTS];
thread_local std::vector<HEvent> *hlog;
int field_size(FieldKind k) { switch (k) { case F_UBYTE: return 1; case F_UWORD: case F_WORD: return 2; default: return 4; } }
int ExtDef::fit(int32_t size) const {
    int n = 0; int64_t pos = 0;
    for (auto f : fields) { if (pos + field_size(f) > size) break; pos += field_size(f); n++; }
    return n;
}
static u32 field_default(int i, FieldKind k) { u32 v = 0xD0D1D2D3u + (u32)i * 0x01010101u; int n = field_size(k); return n == 4 ? v : v & ((1u << (8 * n)) - 1); }
u32 ext_get(const ExtChunk *c, int i) {
    switch (slots[c->slot].def.fields[i]) {
    case F_UBYTE: return c->ub[i]; case F_UWORD: return c->uw[i]; case F_WORD: return (uint16_t)c->sw[i];
    case F_ULONG: return c->ul[i]; case F_LONG: return (u32)c->sl[i]; default: return c->id[i];
    }
}
void ext_set(ExtChunk *c, int i, u32 v) {
    switch (slots[c->slot].def.fields[i]) {
    case F_UBYTE: c->ub[i] = (u8)v; break; case F_UWORD: c->uw[i] = (uint16_t)v; break; case F_WORD: c->sw[i] = (int16_t)v; break;
    case F_ULONG: c->ul[i] = v; break; case F_LONG: c->sl[i] = (int32_t)v; break; default: c->id[i] = v; break;
    }
}
static void ev(char op, int slot, const void *c) { if (hlog) hlog->push_back({op, slot, c}); }
static IFF_Chunk *h_create(int slot, IFF_ID id, IFF_Long size) {
    IFF_Chunk *c = nullptr;
    switch (slots[slot].kind) {
    case H_RAW: c = IFF_createRawChunk(id, size); break;
    case H_FORM: c = IFF_createUnparsedForm(id, size); break;
    case H_CAT: c = IFF_createUnparsedCAT(id, size); break;
    case H_LIST: c = IFF_createUnparsedList(id, size); break;
    case H_PROP: c = IFF_createUnparsedProp(id, size); break;
    case H_EXT: {
        ExtChunk *e = (ExtChunk *)IFF_createChunk(id, size, sizeof(ExtChunk));
        if (e) {
            e->aux = vp_malloc(24);
            if (!e->aux) { vp_free(e); return nullptr; }
            memset(e->aux, 0x77, 24);
            e->slot = slot;
            memset(e->ub, 0, sizeof e->ub); memset(e->uw, 0, sizeof e->uw); memset(e->sw, 0, sizeof e->sw); memset(e->ul, 0, sizeof e->ul); memset(e->sl, 0, sizeof e->sl); memset(e->id, 0, sizeof e->id);
            for (size_t i = 0; i < slots[slot].def.fields.size(); i++) ext_set(e, (int)i, field_default((int)i, slots[slot].def.fields[i]));
        }
        c = (IFF_Chunk *)e;
        break;
    }
    }
    ev('N', slot, c);
    return c;
}
static IFF_Bool h_read(int slot, FILE *f, IFF_Chunk *c, const IFF_ChunkRegistry *r, IFF_Long *bp) {
    ev('R', slot, c);
    switch (slots[slot].kind) {
    case H_RAW: return IFF_readRawChunk(f, c, r, bp);
    case H_FORM: return IFF_readForm(f, c, r, bp);
    case H_CAT: return IFF_readCAT(f, c, r, bp);
    case H_LIST: return IFF_readList(f, c, r, bp);
    case H_PROP: return IFF_readProp(f, c, r, bp);
    default: break;
    }
    ExtChunk *e = (ExtChunk *)c;
    const ExtDef &d = slots[slot].def;
    for (size_t i = 0; i < d.fields.size(); i++) {
        IFF_FieldStatus s = IFF_FIELD_MORE;
        switch (d.fields[i]) {
        case F_UBYTE: s = IFF_readUByteField(f, &e->ub[i], c, "ub", bp); break;
        case F_UWORD: s = IFF_readUWordField(f, &e->uw[i], c, "uw", bp); break;
        case F_WORD: s = IFF_readWordField(f, &e->sw[i], c, "sw", bp); break;
        case F_ULONG: s = IFF_readULongField(f, &e->ul[i], c, "ul", bp); break;
        case F_LONG: s = IFF_readLongField(f, &e->sl[i], c, "sl", bp); break;
        case F_ID: s = IFF_readIdField(f, &e->id[i], c, "id", bp); break;
        }
        if (s != IFF_FIELD_MORE) return IFF_deriveSuccess(s);
    }
    return TRUE;
}
static IFF_Bool h_write(int slot, FILE *f, const IFF_Chunk *c, const IFF_ChunkRegistry *r, IFF_Long *bp) {
    ev('W', slot, c);
    switch (slots[slot].kind) {
    case H_RAW: return IFF_writeRawChunk(f, c, r, bp);
    case H_FORM: return IFF_writeForm(f, c, r, bp);
    case H_CAT: return IFF_writeCAT(f, c, r, bp);
    case H_LIST: return IFF_writeList(f, c, r, bp);
    case H_PROP: return IFF_writeProp(f, c, r, bp);
    default: break;
    }
    const ExtChunk *e = (const ExtChunk *)c;
    const ExtDef &d = slots[slot].def;
    for (size_t i = 0; i < d.fields.size(); i++) {
        IFF_FieldStatus s = IFF_FIELD_MORE;
        switch (d.fields[i]) {
        case F_UBYTE: s = IFF_writeUByteField(f, e->ub[i], c, "ub", bp); break;
        case F_UWORD: s = IFF_writeUWordField(f, e->uw[i], c, "uw", bp); break;
        case F_WORD: s = IFF_writeWordField(f, e->sw[i], c, "sw", bp); break;
        case F_ULONG: s = IFF_writeULongField(f, e->ul[i], c, "ul", bp); break;
        case F_LONG: s = IFF_writeLongField(f, e->sl[i], c, "sl", bp); break;
        case F_ID: s = IFF_writeIdField(f, e->id[i], c, "id", bp); break;
        }
        if (s != IFF_FIELD_MORE) return IFF_deriveSuccess(s);
    }
    return TRUE;
}
static IFF_Bool h_check(int slot, const IFF_Chunk *c, const IFF_ChunkRegistry *r) {
    ev('C', slot, c);
    switch (slots[slot].kind) {
    case H_RAW: return IFF_checkRawChunk(c, r);
    case H_FORM: return IFF_checkForm(c, r);
    case H_CAT: return IFF_checkCAT(c, r);
    case H_LIST: return IFF_checkList(c, r);
    case H_PROP: return IFF_checkProp(c, r);
    default: break;
    }
    const ExtDef &d = slots[slot].def;
    if (d.rule_field >= 0 && ext_get((const ExtChunk *)c, d.rule_field) > d.rule_max) { IFF_error("VP extension rule broken\n"); return FALSE; }
    return TRUE;
}
static void h_free(int slot, IFF_Chunk *c, const IFF_ChunkRegistry *r) {
    ev('F', slot, c);
    switch (slots[slot].kind) {
    case H_RAW: IFF_freeRawChunk(c, r); break;
    case H_FORM: IFF_freeForm(c, r); break;
    case H_CAT: IFF_freeCAT(c, r); break;
    case H_LIST: IFF_freeList(c, r); break;
    case H_PROP: IFF_freeProp(c, r); break;
    case H_EXT: vp_free(((ExtChunk *)c)->aux); break;
    }
}
static void h_print(int slot, const IFF_Chunk *c, unsigned lvl, const IFF_ChunkRegistry *r) {
    ev('P', slot, c);
    switch (slots[slot].kind) {
    case H_RAW: IFF_printRawChunk(c, lvl, r); return;
    case H_FORM: IFF_printForm(c, lvl, r); return;
    case H_CAT: IFF_printCAT(c, lvl, r); return;
    case H_LIST: IFF_printList(c, lvl, r); return;
    case H_PROP: IFF_printProp(c, lvl, r); return;
    default: break;
    }
    const ExtChunk *e = (const ExtChunk *)c;
    for (size_t i = 0; i < slots[slot].def.fields.size(); i++) IFF_printIndent(stdout, lvl + 1, "field%u = %u;\n", (unsigned)i, (unsigned)ext_get(e, (int)i));
}
static IFF_Bool h_compare(int slot, const IFF_Chunk *a, const IFF_Chunk *b, const IFF_ChunkRegistry *r) {
    ev('=', slot, a); ev('=', slot, b);
    switch (slots[slot].kind) {
    case H_RAW: return IFF_compareRawChunk(a, b, r);
    case H_FORM: return IFF_compareForm(a, b, r);
    case H_CAT: return IFF_compareCAT(a, b, r);
    case H_LIST: return IFF_compareList(a, b, r);
    case H_PROP: return IFF_compareProp(a, b, r);
    default: break;
    }
    const ExtChunk *x = (const ExtChunk *)a, *y = (const ExtChunk *)b;
    for (size_t i = 0; i < slots[slot].def.fields.size(); i++) if (ext_get(x, (int)i) != ext_get(y, (int)i)) return FALSE;
    return TRUE;
}
template <int N> struct S {
    static IFF_Chunk *create(const IFF_ID id, const IFF_Long n) { return h_create(N, id, n); }
    static IFF_Bool read(FILE *f, IFF_Chunk *c, const IFF_ChunkRegistry *r, IFF_Long *bp) { return h_read(N, f, c, r, bp); }
    static IFF_Bool write(FILE *f, const IFF_Chunk *c, const IFF_ChunkRegistry *r, IFF_Long *bp) { return h_write(N, f, c, r, bp); }
    static IFF_Bool check(const IFF_Chunk *c, const IFF_ChunkRegistry *r) { return h_check(N, c, r); }
    static void free_(IFF_Chunk *c, const IFF_ChunkRegistry *r) { h_free(N, c, r); }
    static void print(const IFF_Chunk *c, const unsigned int l, const IFF_ChunkRegistry *r) { h_print(N, c, l, r); }
    static IFF_Bool compare(const IFF_Chunk *a, const IFF_Chunk *b, const IFF_ChunkRegistry *r) { return h_compare(N, a, b, r); }
};
static IFF_ChunkType slot_types[NSLOTS];
template <int N> static void fill_slots() {
    slot_types[N] = IFF_ChunkType{0, &S<N>::create, &S<N>::read, &S<N>::write, &S<N>::check, &S<N>::free_, &S<N>::print, &S<N>::compare};
    slots[N].slot = N;
    if constexpr (N > 0) fill_slots<N - 1>();
}
IFF_ChunkType slot_chunk_type(int slot, u32 id) { IFF_ChunkType t = slot_types[slot]; t.chunkId = id; return t; }
static struct InitSlots {
    InitSlots() {
        fill_slots<NSLOTS - 1>();
        slots[0].kind = H_RAW; slots[1].kind = H_FORM; slots[2].kind = H_CAT; slots[3].kind = H_LIST; slots[4].kind = H_PROP;
        Rng r(4711);
        for (int i = NEXT; i < NSLOTS; i++) slots[i].kind = i < NEXT + 8 ? (HKind)(H_FORM + (i - NEXT) % 4) : H_RAW;
        for (int i = 5; i < NEXT; i++) {
            slots[i].kind = H_EXT;
            ExtDef &d = slots[i].def;
            int k = i - 5;
            if (k < 6) d.fields = {(FieldKind)k};                                      // one of each
            else if (k == 6) d.fields = {F_UBYTE, F_UWORD, F_WORD, F_ULONG, F_LONG, F_ID};
            else if (k == 7) d.fields = {F_ID, F_LONG, F_ULONG, F_WORD, F_UWORD, F_UBYTE};
            else if (k == 8) d.fields = {};
            else { int n = 1 + r.below(MAXF); for (int j = 0; j < n; j++) d.fields.push_back((FieldKind)r.below(6)); }
            if (!d.fields.empty() && k % 3 == 0) {
                d.rule_field = (int)r.below((u32)d.fields.size());
                int n = field_size(d.fields[d.rule_field]);
                d.rule_max = n == 1 ? 0xDF : n == 2 ? 0xDFFF : 0xDFFFFFFFu;
                if (k % 2 == 0 && field_default(d.rule_field, d.fields[d.rule_field]) > d.rule_max) d.rule_max = 0xFFFFFFFF;
            }
        }
    }
} initSlots;

// ---------------------------------------------------------------- registries
int RegModel::find(u32 formType, u32 chunkId) const {
    for (auto &f : forms)
        if (f.first == formType) {
            for (int s = f.second; s >= 0; s = scopes[s].parent)
                for (auto &t : scopes[s].types) if (t.first == chunkId) return t.second;
            break;
        }
    for (int s = global; s >= 0; s = scopes[s].parent)
        for (auto &t : scopes[s].types) if (t.first == chunkId) return t.second;
    return dflt;
}
const IFF_ChunkType *RegModel::lib_type(u32 formType, u32 chunkId) const {
    auto in = [&](int s) -> const IFF_ChunkType * {
        for (; s >= 0; s = scopes[s].parent)
            for (size_t i = 0; i < scopes[s].types.size(); i++) if (scopes[s].types[i].first == chunkId) return &nodes[s]->chunkTypes[i];
        return nullptr;
    };
    const IFF_ChunkType *t = nullptr;
    for (auto &f : forms) if (f.first == formType) { t = in(f.second); break; }
    if (!t) t = in(global);
    return t ? t : reg.defaultChunkType;
}
void RegModel::finish() {
    for (auto &s : scopes) std::sort(s.types.begin(), s.types.end());
    std::sort(forms.begin(), forms.end());
    for (auto &s : scopes) {
        auto n = std::make_unique<IFF_ChunkTypesNode>();
        if (s.lib) *n = IFF_globalChunkTypesNode;
        else {
            auto a = std::make_unique<IFF_ChunkType[]>(s.types.size() + 1);
            for (size_t i = 0; i < s.types.size(); i++) a[i] = slot_chunk_type(s.types[i].second, s.types[i].first);
            n->chunkTypesLength = (unsigned)s.types.size();
            n->chunkTypes = a.get();
            n->parent = nullptr;
            arrays.push_back(std::move(a));
        }
        nodes.push_back(std::move(n));
    }
    for (size_t i = 0; i < scopes.size(); i++) if (scopes[i].parent >= 0) nodes[i]->parent = nodes[scopes[i].parent].get();
    for (auto &f : forms) fct.push_back(IFF_FormChunkTypes{f.first, f.second < 0 ? nullptr : nodes[f.second].get()});
    dfltType = std::make_unique<IFF_ChunkType>(slot_chunk_type(dflt, 0));
    reg.formChunkTypesLength = (unsigned)fct.size();
    reg.formChunkTypes = fct.empty() ? nullptr : fct.data();
    reg.globalChunkTypesNode = nodes[global].get();
    reg.defaultChunkType = lib_default ? &IFF_defaultChunkType : dfltType.get();
    if (global == 0 && scopes[0].lib && lib_default) { IFF_ChunkRegistry extended = IFF_EXTEND_DEFAULT_REGISTRY_WITH_FORM_CHUNK_TYPES((unsigned)fct.size(), fct.empty() ? nullptr : fct.data()); reg = extended; }   // as an application does it
    for (auto &f : forms) if (ref_formtype_ok(f.first)) ext_forms.push_back(f.first);
}
static Scope group_scope(bool lib) {
    Scope s; s.lib = lib;
    s.types = {{ID_CAT, SLOT_CAT}, {ID_FORM, SLOT_FORM}, {ID_LIST, SLOT_LIST}, {ID_PROP, SLOT_PROP}};
    return s;
}
RegP reg_default() {
    static RegP p;
    if (!p) {
        p = std::make_shared<RegModel>();
        p->name = "default"; p->isNull = true; p->scopes.push_back(group_scope(true)); p->global = 0; p->dflt = SLOT_RAW;
        p->finish();
    }
    return p;
}
RegP reg_test() {
    static RegP p;
    if (!p) {
        p = std::make_shared<RegModel>();
        p->name = "test"; p->scopes.push_back(group_scope(true)); p->global = 0; p->dflt = SLOT_RAW;
        Scope t; t.types = {{mkid("BYE "), SLOT_EXT0 + 1}, {mkid("HELO"), SLOT_EXT0 + 6}};
        p->scopes.push_back(t);
        p->forms = {{mkid("TEST"), 1}};
        p->finish();
    }
    return p;
}
RegP reg_rich() {
    static RegP p;
    if (!p) {
        p = std::make_shared<RegModel>();
        p->name = "rich"; p->dflt = SLOT_RAW;
        p->scopes.push_back(group_scope(true));                                            // 0
        Scope g; g.parent = 0; g.types = {{mkid("AUTH"), 20}, {mkid("NAME"), 21}, {mkid("CRNG"), 12}}; p->scopes.push_back(g);   // 1: application-wide globals
        Scope base; base.types = {{mkid("BMHD"), 11}, {mkid("CMAP"), 12}, {mkid("CRNG"), 5}, {mkid("NAME"), 14}}; p->scopes.push_back(base);  // 2
        Scope spec; spec.parent = 2; spec.types = {{mkid("CAMG"), 9}, {mkid("CMAP"), 8}, {mkid("DEST"), 30}}; p->scopes.push_back(spec);     // 3
        Scope snd; snd.types = {{mkid("VHDR"), 25}, {mkid("CHAN"), 6}}; p->scopes.push_back(snd);                                            // 4
        p->forms = {{mkid("ILBM"), 3}, {mkid("PBM "), 2}, {mkid("8SVX"), 4}, {mkid("ACBM"), 3}, {mkid("NONE"), -1}};
        p->global = 1;
        p->finish();
    }
    return p;
}
static const char *form_pool[] = {"TEST", "ILBM", "8SVX", "ANIM", "SMUS", "PBM ", "A   ", "0000", "9Z9Z", "LIS0", "FORN", "CATX", "JJJI", "Z 1 "};
static const char *data_pool[] = {"NAME", "BODY", "BMHD", "CMAP", "ANNO", "AUTH", "TEXT", "CRNG", "HELO", "BYE ", "VHDR", "CAMG"};
static const char *odd_pool[] = {"    ", "~~~~", "!   ", "a b!", "abcd", "(c) ", "FOR1", "CAT2", "LIS9", "JJJJ", "form", "FORm", "CATS", "LISt", "PROp", "text", "TEX ", "%s%n", "'''';"};
RegP reg_random(Rng &r, bool instrument, bool vast) {
    auto p = std::make_shared<RegModel>();
    p->name = instrument ? "random-instrumented" : "random";
    p->scopes.push_back(group_scope(!instrument));
    p->lib_default = !instrument;
    p->dflt = SLOT_RAW;
    if (instrument && r.chance(1, 4)) p->dflt = SLOT_EXT0 + (int)r.below(NEXT - SLOT_EXT0);
    auto randid = [&]() -> u32 {
        if (r.chance(2, 3)) return mkid(data_pool[r.below(12)]);
        if (r.chance(1, 5)) return r.chance(1, 2) ? (u32)r.next() : mkid(data_pool[r.below(12)]) ^ 0x80000000u;   // not a legal identifier, yet one can be registered
        if (r.chance(1, 2)) return mkid(odd_pool[r.below(19)]);
        GenOpt o; return gen_dataid(r, o);
    };
    auto fillscope = [&](Scope &s, bool with_groups) {
        std::set<u32> used; for (auto &t : s.types) used.insert(t.first);
        int n = (int)r.below(r.chance(1, 6) ? 30 : 7); if (vast && r.chance(1, 2)) n = 250 + (int)r.below(60);
        bool many = n > 100;
        for (int i = 0; i < n; i++) {
            u32 id = many ? mkid("ATYP") + (r.below(26) << 24) + r.below(2000) : randid();
            if (id == ID_FORM || id == ID_CAT || id == ID_LIST || id == ID_PROP || used.count(id)) continue;
            used.insert(id);
            int slot = r.chance(1, 8) && instrument ? r.chance(1, 3) ? SLOT_RAW : NEXT + 8 + (int)r.below(4) : SLOT_EXT0 + (int)r.below(NEXT - SLOT_EXT0);
            s.types.push_back({id, slot});
        }
        if (with_groups && instrument && r.chance(1, 2)) for (int g = 0; g < 4; g++) if (r.chance(1, 2)) {   // group chunks handled in a way of its own within this scope
            static const u32 gid[] = {ID_FORM, ID_CAT, ID_LIST, ID_PROP};
            if (used.insert(gid[g]).second) s.types.push_back({gid[g], NEXT + g + 4 * (int)r.below(2)});
        }
    };
    // global chain: [extra scopes] -> group scope, or the group scope extended (instrumented only)
    int nglob = (int)r.below(3);
    p->global = 0;
    for (int i = 0; i < nglob; i++) { Scope s; fillscope(s, false); s.parent = p->global; p->scopes.push_back(s); p->global = (int)p->scopes.size() - 1; }
    if (instrument && r.chance(1, 2)) fillscope(p->scopes[0], false);
    int ns = 1 + (int)r.below(6);
    int first = (int)p->scopes.size();
    for (int i = 0; i < ns; i++) {
        Scope s; fillscope(s, true);
        if (r.chance(1, 5)) s.parent = p->global;
        else if (i > 0 && r.chance(2, 3)) s.parent = first + (int)r.below((u32)i);
        p->scopes.push_back(s);
    }
    int nf = (int)r.below(r.chance(1, 5) ? 20 : 6); if (vast && r.chance(1, 2)) nf = 60 + (int)r.below(r.chance(1, 2) ? 20 : 240);
    std::set<u32> used;
    for (int i = 0; i < nf; i++) {
        u32 ft = nf > 50 ? mkid("AAAA") + (r.below(26) << 24 | r.below(26) << 16 | r.below(26)) : r.chance(3, 4) ? mkid(form_pool[r.below(14)]) : r.chance(1, 3) ? ID_JJJJ : r.chance(1, 3) ? mkid(form_pool[r.below(14)]) ^ (0x80u << (8 * r.below(4))) : (u32)0x41414141 + (r.below(26) << 24 | r.below(26) << 16 | r.below(26) << 8 | r.below(26));
        if (!used.insert(ft).second) continue;
        p->forms.push_back({ft, r.chance(1, 8) ? -1 : first + (int)r.below((u32)ns)});
    }
    p->finish();
    return p;
}
RegP pick_reg(Rng &r) {
    switch (r.below(8)) {
    case 0: case 1: case 2: return reg_default();
    case 3: return reg_test();
    case 4: case 5: return reg_rich();
    case 6: return reg_random(r, false);
    default: return reg_random(r, true);
    }
}

// ---------------------------------------------------------------- trees
void fix_sizes(Node &n) {
    if (!n.is_group()) return;
    int64_t s = 4;
    for (auto *l : {&n.props, &n.kids}) for (auto &k : *l) { fix_sizes(*k); s += 8 + padded((u32)k->size); }
    n.size = (int32_t)s;
}
void resolve_groups(Node &n, const RegModel &reg, u32 scope) {
    if (!n.is_group()) return;
    n.slot = reg.find(scope, n.id);
    for (auto *l : {&n.props, &n.kids}) for (auto &k : *l) resolve_groups(*k, reg, n.gtype);
}
void set_parents(Node &n) {
    for (auto *l : {&n.props, &n.kids}) for (auto &k : *l) { k->parent = &n; set_parents(*k); }
}
void collect(Node &n, std::vector<Node *> &out) {
    out.push_back(&n);
    for (auto &k : n.props) collect(*k, out);
    for (auto &k : n.kids) collect(*k, out);
}
NodeP clone(const Node &n) {
    auto c = std::make_shared<Node>(n);
    for (auto *l : {&c->props, &c->kids}) for (auto &k : *l) { k = clone(*k); k->parent = c.get(); }
    c->parent = nullptr;
    return c;
}
bool same(const Node &a, const Node &b, std::string *why) {
    auto no = [&](const std::string &s) { if (why) *why = "'" + id_str(a.id) + "': " + s; return false; };
    if (a.id != b.id) return no("identifier " + id_str(a.id) + " vs " + id_str(b.id));
    if (a.size != b.size) return no(strf("size %d vs %d", a.size, b.size));
    if (a.kind != b.kind) return no("kind");
    if (a.gtype != b.gtype) return no("group type " + id_str(a.gtype) + " vs " + id_str(b.gtype));
    if (a.data != b.data) return no("data " + hex(a.data, 24) + " vs " + hex(b.data, 24));
    if (a.vals != b.vals) { std::string s = "fields"; for (u32 v : a.vals) s += strf(" %x", v); s += " vs"; for (u32 v : b.vals) s += strf(" %x", v); return no(s); }
    if (a.props.size() != b.props.size()) return no(strf("%zu vs %zu shared properties", a.props.size(), b.props.size()));
    if (a.kids.size() != b.kids.size()) return no(strf("%zu vs %zu sub chunks", a.kids.size(), b.kids.size()));
    for (size_t i = 0; i < a.props.size(); i++) if (!same(*a.props[i], *b.props[i], why)) { if (why) *why = strf("prop %zu of ", i) + id_str(a.id) + " > " + *why; return false; }
    for (size_t i = 0; i < a.kids.size(); i++) if (!same(*a.kids[i], *b.kids[i], why)) { if (why) *why = strf("chunk %zu of ", i) + id_str(a.id) + " > " + *why; return false; }
    return true;
}
thread_local std::vector<Mark> *marks;
static void mark(size_t pos, char w) { if (marks) marks->push_back({pos, w}); }
static void put32(Bytes &o, u32 v) { for (int i = 3; i >= 0; i--) o.push_back((char)(v >> (8 * i))); }
void serialize(const Node &n, Bytes &o, bool original) {
    mark(o.size(), 'i'); put32(o, n.id);
    mark(o.size(), 's'); put32(o, (u32)n.size);
    size_t start = o.size();
    if (n.kind == H_RAW) { mark(o.size(), 'd'); o += n.data; }
    else if (n.kind == H_EXT) {
        mark(o.size(), 'd');
        const ExtDef &d = slots[n.slot].def;
        int k = d.fit(n.size);
        for (int i = 0; i < k; i++) { int w = field_size(d.fields[i]); for (int b = w - 1; b >= 0; b--) o.push_back((char)(n.vals[i] >> (8 * b))); }
        if (original) o += n.surplus;
    } else if (n.size >= 4) {
        mark(o.size(), 't'); put32(o, n.gtype);
        if (original && n.late) {   // shared properties and sub chunks interleaved
            size_t p = 0, k = 0; u32 x = n.late;
            while (p < n.props.size() || k < n.kids.size()) { x = x * 1103515245u + 12345u; if (p < n.props.size() && (k >= n.kids.size() || (x >> 16 & 1))) serialize(*n.props[p++], o, original); else serialize(*n.kids[k++], o, original); }
        } else {
            for (auto &k : n.props) serialize(*k, o, original);
            for (auto &k : n.kids) serialize(*k, o, original);
        }
    } else if (original) o += n.surplus;
    while ((int64_t)(o.size() - start) < n.size) o.push_back(0);
    if (n.size & 1) { mark(o.size(), 'p'); o.push_back(original ? (char)n.pad : 0); }
}
Bytes encode(const Node &n, bool original) { Bytes o; serialize(n, o, original); return o; }
std::string describe(const Node &n, int maxlen) {
    std::string s;
    std::function<void(const Node &)> rec = [&](const Node &k) {
        if ((int)s.size() > maxlen) return;
        s += id_str(k.id);
        if (k.is_group()) {
            s += ":" + id_str(k.gtype) + "[";
            if (!k.props.empty()) { s += "props("; for (auto &p : k.props) { rec(*p); s += " "; } s += ")"; }
            for (auto &c : k.kids) { rec(*c); s += " "; }
            s += "]";
        } else s += strf("(%d)", k.size);
    };
    rec(n);
    if ((int)s.size() > maxlen) s = s.substr(0, maxlen) + "...";
    return s;
}
u64 shape(const Node &n) {
    u64 h = mix(n.id, (u64)n.kind * 7 + n.gtype);
    h = mix(h, (u64)(n.is_group() ? 0 : n.size));
    for (auto &k : n.props) h = mix(h, shape(*k) ^ 0x5555);
    for (auto &k : n.kids) h = mix(h, shape(*k));
    return h;
}

// ---------------------------------------------------------------- reference parser
namespace {
struct Parser {
    const Bytes &in; const RegModel &reg; Parse &P; size_t pos; size_t depth = 0;
    bool get32(u32 &v) {
        if (in.size() - pos < 4) { P.status = Parse::TRUNC; return false; }
        v = 0; for (int i = 0; i < 4; i++) v = v << 8 | (u8)in[pos++];
        return true;
    }
    NodeP chunk(u32 formType) {
        auto n = std::make_shared<Node>();
        u32 sz;
        if (!get32(n->id) || !get32(sz)) return nullptr;
        if ((int32_t)sz < 0) { P.status = Parse::NEGATIVE; return nullptr; }
        n->size = (int32_t)sz;
        n->slot = reg.find(formType, n->id);
        n->kind = slots[n->slot].kind;
        P.chunks++;
        size_t left = in.size() - pos;
        if (n->kind == H_RAW) {
            if (left < sz) { P.status = Parse::TRUNC; return nullptr; }
            n->data = in.substr(pos, sz); pos += sz;
        } else if (n->kind == H_EXT) {
            if (left < sz) { P.status = Parse::TRUNC; return nullptr; }
            const ExtDef &d = slots[n->slot].def;
            int k = d.fit(n->size); size_t p = pos;
            for (size_t i = 0; i < d.fields.size(); i++) {
                if ((int)i < k) { u32 v = 0; for (int b = 0; b < field_size(d.fields[i]); b++) v = v << 8 | (u8)in[p++]; n->vals.push_back(v); }
                else n->vals.push_back(field_default((int)i, d.fields[i]));
            }
            n->surplus = in.substr(p, pos + sz - p);
            if (!n->surplus.empty()) P.surplus = true;
            pos += sz;
        } else if (sz < 4) {
            P.smallgroup = true;
            if (left < sz) { P.status = Parse::TRUNC; return nullptr; }
            n->surplus = in.substr(pos, sz); pos += sz;
        } else {
            if (!get32(n->gtype)) return nullptr;
            int64_t done = 4;
            if (++depth > P.deepest) P.deepest = depth;
            while (done < n->size) {
                NodeP k = chunk(n->gtype);
                if (!k) return nullptr;
                k->parent = n.get();
                if (n->kind == H_LIST && k->id == ID_PROP) { if (!n->kids.empty()) P.misplaced_prop = true; n->props.push_back(k); }
                else n->kids.push_back(k);
                done += 8 + (int64_t)padded((u32)k->size);
            }
            depth--;
            if (done > n->size) P.overrun = true;
        }
        if (sz & 1) {
            if (pos >= in.size()) { P.status = Parse::TRUNC; return nullptr; }
            n->pad = (u8)in[pos++];
            if (n->pad) P.nonzero_pad = true;
        }
        return n;
    }
};
}
Parse ref_parse(const Bytes &in, const RegModel &reg, u32 formType, size_t at) {
    Parse P;
    Parser p{in, reg, P, at};
    P.top = p.chunk(formType);
    P.consumed = p.pos - at;
    return P;
}

// ---------------------------------------------------------------- reference conformance
bool ref_id_ok(u32 id) {
    for (int i = 3; i >= 0; i--) { u8 c = id >> (8 * i); if (c < 0x20 || c > 0x7e) return false; }
    return (id >> 24) != ' ';
}
bool ref_formtype_ok(u32 id) {
    if (!ref_id_ok(id)) return false;
    for (int i = 3; i >= 0; i--) { u8 c = id >> (8 * i); if (!(c == ' ' || (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z'))) return false; }
    if (id == ID_FORM || id == ID_CAT || id == ID_LIST || id == ID_PROP || id == ID_JJJJ) return false;
    u32 stem = id & 0xffffff00; u8 last = id & 0xff;
    if (last >= '1' && last <= '9' && (stem == (mkid("FOR ") & 0xffffff00) || stem == (mkid("CAT ") & 0xffffff00) || stem == (mkid("LIS ") & 0xffffff00))) return false;
    return true;
}
static bool chk(const Node &n) {
    if (n.id != ID_FILLER && !ref_id_ok(n.id)) return false;
    if (n.size < 0) return false;
    if (n.kind == H_EXT) { const ExtDef &d = slots[n.slot].def; return d.rule_field < 0 || n.vals[d.rule_field] <= d.rule_max; }
    if (!n.is_group()) return true;
    if (n.kind == H_FORM || n.kind == H_PROP) { if (!ref_formtype_ok(n.gtype)) return false; }
    else if (!ref_id_ok(n.gtype)) return false;
    int64_t s = 4;
    for (auto *l : {&n.props, &n.kids}) for (auto &k : *l) { if (!chk(*k)) return false; s += 8 + (int64_t)k->size + (k->size & 1); }
    if (s != n.size) return false;
    std::set<u32> types;
    for (auto &k : n.props) { if (k->id != ID_PROP || !types.insert(k->gtype).second) return false; }
    for (auto &k : n.kids) {
        bool grp = k->id == ID_FORM || k->id == ID_CAT || k->id == ID_LIST;
        if (k->id == ID_PROP) return false;
        if (n.kind == H_PROP && grp) return false;
        if (n.kind == H_CAT || n.kind == H_LIST) { if (!grp) return false; if (n.gtype != ID_JJJJ && k->gtype != n.gtype) return false; }
    }
    return true;
}
bool ref_check(const Node &n, bool top) {
    if (top && n.id != ID_FORM && n.id != ID_CAT && n.id != ID_LIST) return false;
    return chk(n);
}

// ---------------------------------------------------------------- reference printer
static void ind(std::string &o, unsigned n) { o.append(2 * (size_t)n, ' '); }
static void raw_id(std::string &o, u32 id) { for (int i = 3; i >= 0; i--) o.push_back((char)(id >> (8 * i))); }
void ref_print(const Node &n, unsigned lv, std::string &o) {
    ind(o, lv); o += "'"; raw_id(o, n.id); o += "' = {\n";
    ind(o, lv + 1); o += strf("chunkSize = %d;\n", n.size);
    if (n.kind == H_EXT) for (size_t i = 0; i < n.vals.size(); i++) { ind(o, lv + 1); o += strf("field%zu = %u;\n", i, n.vals[i]); }
    else if (n.kind == H_RAW && n.id == ID_TEXT_) {
        ind(o, lv); o += "text = '\n"; ind(o, lv + 1); o += n.data; o += "\n"; ind(o, lv); o += "';\n";
    } else if (n.kind == H_RAW) {
        ind(o, lv); o += "bytes = \n"; ind(o, lv + 1);
        static const char *hx = "0123456789abcdef";
        for (size_t i = 0; i < n.data.size(); i++) {
            if (i && i % 10 == 0) { o += "\n"; ind(o, lv + 1); }
            o.push_back(hx[(u8)n.data[i] >> 4]); o.push_back(hx[(u8)n.data[i] & 15]); o.push_back(' ');
        }
        o += "\n"; ind(o, lv); o += ";\n";
    } else {
        ind(o, lv); o += n.kind == H_FORM || n.kind == H_PROP ? "formType = '" : "contentsType = '"; raw_id(o, n.gtype); o += "';\n";
        if (n.kind == H_LIST) { ind(o, lv); o += "prop = [\n"; for (auto &k : n.props) ref_print(*k, lv + 1, o); ind(o, lv); o += "];\n"; }
        ind(o, lv); o += "[\n"; for (auto &k : n.kids) ref_print(*k, lv + 1, o); ind(o, lv); o += "];\n";
    }
    ind(o, lv); o += "}\n\n";
}

// ---------------------------------------------------------------- reference searches
void ref_search(Node &n, const std::vector<u32> &types, std::vector<Node *> &out) {
    if (n.id == ID_FORM && std::find(types.begin(), types.end(), n.gtype) != types.end()) { out.push_back(&n); return; }
    if (n.id == ID_FORM || n.id == ID_CAT || n.id == ID_LIST) for (auto &k : n.kids) ref_search(*k, types, out);
}
Node *ref_lookup(Node &form, u32 id) {
    for (auto &k : form.kids) if (k->id == id) return k.get();
    for (Node *p = form.parent; p; p = p->parent)
        if (p->id == ID_LIST)
            for (auto &q : p->props) if (q->gtype == form.gtype) { for (auto &k : q->kids) if (k->id == id) return k.get(); break; }
    return nullptr;
}

// ---------------------------------------------------------------- generators
Bytes gen_data(Rng &r, u32 n) {
    Bytes b(n, 0);
    switch (r.below(6)) {
    case 0: for (auto &c : b) c = (char)r.next(); break;
    case 1: { char c = (char)r.next(); for (auto &x : b) x = c; break; }
    case 2: for (auto &c : b) c = (char)(0x20 + r.below(95)); break;
    case 3: { u8 k = (u8)r.next(); for (auto &c : b) c = (char)k++; break; }
    case 4: for (auto &c : b) c = r.chance(1, 8) ? (char)0xff : 0; break;
    default: { const char *t = "FORMCAT LISTPROPJJJJ\0\0\0\x04"; for (u32 i = 0; i < n; i++) b[i] = t[i % 24]; }
    }
    return b;
}
u32 gen_size(Rng &r, bool big) {
    u32 k = r.below(100);
    if (k < 12) return 0;
    if (k < 60) return r.below(12);
    if (k < 88) return r.below(48);
    if (k < 97 || !big) return r.below(300);
    if (k < 99) return r.below(5000);
    static const u32 edge[] = {4095, 4096, 4097, 8191, 8192, 32767, 32768, 65535, 65536, 65537};
    return edge[r.below(10)] + r.below(2);
}
// identifiers of formats in use
static const char *known_forms[24] = {"AIFF", "AIFC", "FTXT", "DEEP", "RGFX", "YAFA", "TDDD", "LWOB", "LWO2", "WORD", "WOWO", "DJVU", "XDIR", "XMID", "PREF", "CTLG", "DR2D", "MTRX", "FANT", "16SV", "USCR", "UVOX", "C100", "TREE"};
static const char *known_data[48] = {"COMM", "SSND", "MARK", "INST", "MIDI", "APPL", "FVER", "COMT", "AESD", "CHRS", "FONS", "LANG", "STRS", "PRHD", "INTR", "ANHD", "DLTA", "DPAN", "GRAB", "DEST", "SPRT", "DPPS", "PCHG", "SHAM", "CTBL", "SXHD", "ATAK", "RLSE", "PAN ", "SEQN", "FADE", "CHAN", "SHDR", "TRAK", "INS1", "PNTS", "SRFS", "POLS", "DGBL", "DPEL", "DLOC", "DBOD", "INFO", "DIR ", "(c) ", "TIME", "HEAD", "XXXX"};
u32 gen_formtype(Rng &r, const RegModel &reg) {
    if (!reg.ext_forms.empty() && r.chance(1, 2)) return r.pick(reg.ext_forms);
    if (r.chance(5, 6)) return mkid(form_pool[r.below(r.chance(1, 2) ? 4 : 14)]);
    if (r.chance(1, 2)) return mkid(known_forms[r.below(24)]);
    static const char al[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 ";
    for (;;) { u32 v = (u32)al[r.below(36)] << 24 | (u32)al[r.below(37)] << 16 | (u32)al[r.below(37)] << 8 | (u32)al[r.below(37)]; if (ref_formtype_ok(v)) return v; }
}
u32 gen_dataid(Rng &r, const GenOpt &o) {
    if (!o.odd_ids || r.chance(5, 6)) return mkid(data_pool[r.below(12)]);
    if (r.chance(1, 3)) return mkid(known_data[r.below(48)]);
    if (r.chance(1, 2)) return mkid(odd_pool[r.below(19)]);
    for (;;) {
        u32 v = (0x21 + r.below(94)) << 24 | (0x20 + r.below(95)) << 16 | (0x20 + r.below(95)) << 8 | (0x20 + r.below(95));
        if (v != ID_FORM && v != ID_CAT && v != ID_LIST && v != ID_PROP) return v;
    }
}
static NodeP gen_leaf(Rng &r, const RegModel &reg, const GenOpt &o, u32 formType) {
    auto n = std::make_shared<Node>();
    u32 id = gen_dataid(r, o);
    if (r.chance(1, 2)) {   // prefer identifiers that mean something in this scope
        std::vector<u32> ids;
        for (auto &f : reg.forms) if (f.first == formType) for (int s = f.second; s >= 0; s = reg.scopes[s].parent) for (auto &t : reg.scopes[s].types) if (slots[t.second].kind < H_FORM && ref_id_ok(t.first)) ids.push_back(t.first);
        if (ids.empty() || r.chance(1, 4)) for (int s = reg.global; s >= 0; s = reg.scopes[s].parent) for (auto &t : reg.scopes[s].types) if (slots[t.second].kind < H_FORM && ref_id_ok(t.first)) ids.push_back(t.first);
        if (!ids.empty()) id = r.pick(ids);
    }
    n->id = id;
    n->slot = reg.find(formType, id);
    n->kind = slots[n->slot].kind;
    if (o.pads && r.chance(1, 2)) n->pad = (u8)r.next();
    if (n->kind == H_EXT) {
        const ExtDef &d = slots[n->slot].def;
        int total = d.total();
        n->size = total;
        if (o.surplus && r.chance(1, 3)) n->size = r.chance(1, 2) ? (int32_t)r.below((u32)total + 1) : total + (int32_t)(r.chance(1, 40) ? (256u << r.below(o.big ? 8 : 3)) + r.below(3) - 1 : r.below(!r.chance(1, 8) ? 10 : !o.big || !r.chance(1, 6) ? 200 : r.chance(1, 4) ? 70000 : 9000));
        int k = d.fit(n->size), used = 0;
        for (int i = 0; i < (int)d.fields.size(); i++) {
            int w = field_size(d.fields[i]);
            u32 mask = w == 4 ? 0xffffffffu : (1u << (8 * w)) - 1, v;
            if (i < k) {
                static const u32 edge[] = {0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x01020304, 0x464f524d};
                v = (r.chance(1, 3) ? edge[r.below(15)] : (u32)r.next()) & mask;
                if (o.ext_valid && i == d.rule_field && v > d.rule_max) v = d.rule_max & v & 0x5f5f5f5f & mask;
                used += w;
            } else v = field_default(i, d.fields[i]);
            n->vals.push_back(v);
        }
        n->surplus = gen_data(r, (u32)(n->size - used));
        if (o.ext_valid && d.rule_field >= 0 && n->vals[d.rule_field] > d.rule_max) return gen_leaf(r, reg, o, formType);   // default breaks the rule
    } else {
        n->size = (int32_t)gen_size(r, o.big);
        n->data = gen_data(r, (u32)n->size);
    }
    return n;
}
static NodeP gen_group(Rng &r, const RegModel &reg, const GenOpt &o, int kind, u32 type, int depth, u32 &budget);
static u32 contents_type(Rng &r, const RegModel &reg) { return r.chance(2, 5) ? ID_JJJJ : gen_formtype(r, reg); }
NodeP gen_chunk(Rng &r, const RegModel &reg, const GenOpt &o, u32 formType, int depth, u32 &budget) {
    if (depth < o.max_depth && r.chance(1, 4)) {
        int k = (int)r.below(3);
        return gen_group(r, reg, o, k == 0 ? H_FORM : k == 1 ? H_CAT : H_LIST, k == 0 ? gen_formtype(r, reg) : contents_type(r, reg), depth + 1, budget);
    }
    return gen_leaf(r, reg, o, formType);
}
static NodeP gen_group(Rng &r, const RegModel &reg, const GenOpt &o, int kind, u32 type, int depth, u32 &budget) {
    auto n = std::make_shared<Node>();
    n->kind = (HKind)kind;
    n->id = kind == H_FORM ? ID_FORM : kind == H_CAT ? ID_CAT : kind == H_LIST ? ID_LIST : ID_PROP;
    n->slot = kind == H_FORM ? SLOT_FORM : kind == H_CAT ? SLOT_CAT : kind == H_LIST ? SLOT_LIST : SLOT_PROP;
    n->gtype = type;
    int want = (int)r.below((u32)o.max_kids + 1);
    if (o.big && r.chance(1, 60)) want = 20 + (int)r.below(60);
    if (kind == H_LIST) {
        int np = (int)r.below(4);
        std::set<u32> used;
        for (int i = 0; i < np && budget > 0; i++) {
            u32 t = type != ID_JJJJ && r.chance(1, 2) && ref_formtype_ok(type) ? type : gen_formtype(r, reg);
            if (!used.insert(t).second && !o.dup_props) continue;
            budget--;
            n->props.push_back(gen_group(r, reg, o, H_PROP, t, depth + 1, budget));
        }
    }
    for (int i = 0; i < want && budget > 0; i++) {
        budget--;
        NodeP k;
        if (kind == H_FORM) k = gen_chunk(r, reg, o, type, depth, budget);
        else if (kind == H_PROP) k = gen_leaf(r, reg, o, type);
        else {
            if (depth > o.max_depth + 3) break;
            int q = (int)r.below(depth >= o.max_depth ? 3 : 5);
            int kk = q == 3 ? H_CAT : q == 4 ? H_LIST : H_FORM;
            u32 t = type == ID_JJJJ ? (kk == H_FORM ? gen_formtype(r, reg) : contents_type(r, reg)) : type;
            if (kk == H_FORM && !ref_formtype_ok(t)) kk = H_CAT;
            k = gen_group(r, reg, o, kk, t, depth + 1, budget);
        }
        k->parent = n.get();
        n->kids.push_back(k);
    }
    for (auto &k : n->props) k->parent = n.get();
    return n;
}
NodeP gen_tree(Rng &r, const RegModel &reg, const GenOpt &o0) {
    GenOpt o = o0;
    u32 budget = 1 + r.below(o.budget);
    if (o.big && r.chance(1, 40)) { // chain of nested groups
        int depth = 2 + (int)r.below(r.chance(1, 4) ? 300 : 40);
        NodeP top, cur;
        for (int i = 0; i < depth; i++) {
            u32 b = 3; GenOpt q = o; q.max_depth = 0; q.big = false; q.max_kids = 2;
            int k = (int)r.below(3);
            NodeP g = gen_group(r, reg, q, k == 0 ? H_FORM : k == 1 ? H_CAT : H_LIST, k == 0 ? gen_formtype(r, reg) : ID_JJJJ, 99, b);
            if (!top) top = g;
            else { g->parent = cur.get(); cur->kids.insert(cur->kids.begin() + r.below((u32)cur->kids.size() + 1), g); }
            cur = g;
        }
        fix_sizes(*top); set_parents(*top); resolve_groups(*top, reg);
        return top;
    }
    if (o.big && r.chance(1, 60)) { budget = 300 + r.below(500); o.max_kids = 40; }
    int q = (int)r.below(10);
    int kind = q < 5 ? H_FORM : q < 7 ? H_CAT : H_LIST;
    u32 type = kind == H_FORM ? gen_formtype(r, reg) : contents_type(r, reg);
    if (kind != H_FORM && r.chance(1, 12)) { static const char *w[] = {"ab.c", "~   ", "TEXT", "jjjj", "FORM", "LIST"}; type = mkid(w[r.below(6)]); }
    NodeP n = gen_group(r, reg, o, kind, type, 0, budget);
    fix_sizes(*n); set_parents(*n); resolve_groups(*n, reg);
    return n;
}

Bytes mutate(Rng &r, const Bytes &in, const Bytes *other) {
    Bytes b = in;
    static const u32 interesting[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 0x10, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0x7ffffff0, 0x7ffffff7, 0x7ffffffb, 0x7ffffffe, 0x7fffffff, 0x80000000u, 0x80000001u, 0xfffffff0u, 0xfffffff7u, 0xfffffffbu, 0xfffffffcu, 0xfffffffdu, 0xfffffffeu, 0xffffffffu};
    static const char *words[] = {"FORM", "CAT ", "LIST", "PROP", "JJJJ", "    ", "TEXT", "HELO", "BYE ", "\0\0\0\0"};
    int n = 1 + (int)r.below(r.chance(1, 5) ? 12 : 3);
    for (int i = 0; i < n; i++) {
        if (b.empty()) { b = gen_data(r, r.below(40)); continue; }
        size_t p = r.below((u32)b.size());
        if (r.chance(1, 2)) p &= ~(size_t)3;
        switch (r.below(11)) {
        case 0: b[p] = (char)(b[p] ^ (1 << r.below(8))); break;
        case 1: b[p] = (char)r.next(); break;
        case 2: if (b.size() >= 4) { p = std::min(p, b.size() - 4); u32 v = interesting[r.below(31)]; for (int k = 0; k < 4; k++) b[p + k] = (char)(v >> (24 - 8 * k)); } break;
        case 3: b.erase(p, r.below(r.chance(1, 3) ? 64 : 9)); break;
        case 4: b.insert(p, gen_data(r, r.below(r.chance(1, 3) ? 64 : 9))); break;
        case 5: if (b.size() >= 4) { p = std::min(p, b.size() - 4); b.replace(p, 4, words[r.below(10)], 4); } break;
        case 6: b.resize(p); break;
        case 7: { size_t q = r.below((u32)b.size()), l = r.below(40); Bytes s = b.substr(q, l); b.insert(p, s); break; }
        case 8: if (b.size() >= 4) { p = std::min(p, b.size() - 4); u32 v = 0; for (int k = 0; k < 4; k++) v = v << 8 | (u8)b[p + k]; v += r.below(9) - 4u; for (int k = 0; k < 4; k++) b[p + k] = (char)(v >> (24 - 8 * k)); } break;
        case 9: if (other && !other->empty()) { size_t q = r.below((u32)other->size()); b = b.substr(0, p) + other->substr(q, 1 + r.below(200)); } break;
        case 10: { Bytes h(words[r.below(10)], 4); u32 v = interesting[r.below(20)]; put32(h, v); b.insert(p, h); break; }
        }
        if (b.size() > 300000) b.resize(300000);
    }
    return b;
}
Bytes gen_hostile(Rng &r, const RegModel &reg) {
    GenOpt o; o.pads = true; o.dup_props = r.chance(1, 4); o.ext_valid = r.chance(1, 2); o.big = r.chance(1, 4); o.budget = r.chance(1, 3) ? 60 : 12;
    switch (r.below(10)) {
    case 0: {   // loose grammar: headers with arbitrary sizes
        Bytes b; int n = 1 + (int)r.below(30);
        static const char *w[] = {"FORM", "FORM", "CAT ", "LIST", "PROP", "TEXT", "HELO", "BMHD", "ABCD", "    "};
        for (int i = 0; i < n; i++) {
            b.append(w[r.below(10)], 4);
            u32 s = r.chance(1, 8) ? (u32)r.next() : r.below(60); put32(b, s);
            if (r.chance(2, 3)) b.append(r.chance(1, 2) ? "TEST" : r.chance(1, 2) ? "ILBM" : "JJJJ", 4);
            b += gen_data(r, r.below(10));
        }
        return b;
    }
    case 1: return gen_data(r, r.below(80));
    case 2: {   // nested headers whose sizes all claim a lot
        Bytes b; int n = 1 + (int)r.below(r.chance(1, 4) ? 300 : 30);
        u32 big = r.chance(1, 2) ? 0x7fffffffu - r.below(16) : 100 + r.below(4000);
        for (int i = 0; i < n; i++) { b.append(r.chance(1, 3) ? "LIST" : r.chance(1, 2) ? "FORM" : "CAT ", 4); put32(b, big - (r.chance(1, 2) ? 12u * (u32)i : 0)); b.append("TEST", 4); }
        if (r.chance(1, 2)) { b.append(r.chance(1, 2) ? "HELO" : "DATA", 4); put32(b, r.chance(1, 2) ? 0x7fffffff : r.below(100)); }
        return b + gen_data(r, r.below(60));
    }
    case 3: {   // planted wrong sizes
        NodeP t = gen_tree(r, reg, o);
        std::vector<Mark> m; Bytes b; marks = &m; serialize(*t, b, true); marks = nullptr;
        int n = 1 + (int)r.below(3);
        for (int i = 0; i < n; i++) {
            const Mark &k = m[r.below((u32)m.size())];
            if (k.what == 's') { u32 v = 0; for (int j = 0; j < 4; j++) v = v << 8 | (u8)b[k.pos + j]; v = r.chance(2, 3) ? v + r.below(17) - 8 : r.chance(1, 2) ? (u32)r.next() : r.below(64); for (int j = 0; j < 4; j++) b[k.pos + j] = (char)(v >> (24 - 8 * j)); }
            else if (k.what == 'i' || k.what == 't') { static const char *w[] = {"FORM", "CAT ", "LIST", "PROP", "JJJJ", "    ", "HELO", "BYE ", "TEST", "ILBM"}; b.replace(k.pos, 4, w[r.below(10)], 4); }
            else if (k.pos < b.size()) b.resize(k.pos + r.below(3) > b.size() ? b.size() : k.pos);
            if (m.empty() || b.size() < 16) break;
            if (b.size() < m.back().pos + 4) break;
        }
        return b;
    }
    default: {
        NodeP t = gen_tree(r, reg, o); Bytes b = encode(*t, true);
        if (r.chance(1, 8)) return b;
        NodeP t2 = gen_tree(r, reg, o); Bytes b2 = encode(*t2, true);
        return mutate(r, b, &b2);
    }
    }
}

// ---------------------------------------------------------------- library <-> model
int real_stderr = 2;
void harness_die(const char *what) { dprintf(real_stderr, "harness: %s\n", what); _exit(3); }
static void need(const void *p) { if (!p) { fprintf(stderr, "harness: a creation failed without memory pressure\n"); abort(); } }
static void attach(Node &g, IFF_Chunk *gc, Node &k, bool prop, Rng &st) {
    bool ok;
    if (prop) ok = IFF_addPropToList((IFF_List *)gc, (IFF_Prop *)k.ptr);
    else switch (g.kind) {
    case H_FORM: ok = st.chance(1, 2) ? IFF_addToForm((IFF_Form *)gc, k.ptr) : IFF_attachToGroup((IFF_Group *)gc, k.ptr); break;
    case H_CAT: ok = st.chance(1, 2) ? IFF_addToCAT((IFF_CAT *)gc, k.ptr) : IFF_addToGroup((IFF_Group *)gc, k.ptr); break;
    case H_LIST: ok = IFF_addToList((IFF_List *)gc, k.ptr); break;
    default: ok = IFF_addToProp((IFF_Prop *)gc, k.ptr); break;
    }
    if (!ok) { fprintf(stderr, "harness: adding failed without memory pressure\n"); abort(); }
}
static void pending(Node &n, std::vector<Node *> &all, Rng &st, const RegModel &reg) {
    switch (n.kind) {
    case H_RAW: {
        IFF_RawChunk *c;
        u32 len = n.size < 0 ? (u32)n.data.size() : (u32)n.size;
        switch (st.below(3)) {
        case 0: { c = (IFF_RawChunk *)IFF_createRawChunk(n.id, (IFF_Long)len); need(c); if (len) memcpy(c->chunkData, n.data.data(), len); break; }
        case 1: { c = (IFF_RawChunk *)IFF_createRawChunk(n.id, (IFF_Long)len); need(c); Bytes d = n.data; IFF_copyDataToRawChunkData(c, (IFF_UByte *)d.data()); break; }
        default: {
            c = (IFF_RawChunk *)IFF_createRawChunk(n.id, 0); need(c);
            IFF_UByte *d = (IFF_UByte *)vp_malloc(len); need(d); if (len) memcpy(d, n.data.data(), len);
            vp_free(c->chunkData);
            IFF_setRawChunkData(c, d, (IFF_Long)len);
        }
        }
        n.ptr = (IFF_Chunk *)c;
        break;
    }
    case H_EXT: {
        n.ptr = h_create(n.slot, n.id, std::clamp(n.size, 0, 1 << 20)); need(n.ptr);
        for (size_t i = 0; i < n.vals.size(); i++) ext_set((ExtChunk *)n.ptr, (int)i, n.vals[i]);
        break;
    }
    case H_FORM: n.ptr = (IFF_Chunk *)(st.chance(1, 2) ? IFF_createEmptyForm(n.gtype) : IFF_createForm(std::clamp(n.size, 0, 1 << 20), n.gtype)); break;
    case H_CAT: n.ptr = (IFF_Chunk *)(st.chance(1, 2) ? IFF_createEmptyCATWithContentsType(n.gtype) : IFF_createCAT(std::clamp(n.size, 0, 1 << 20), n.gtype)); break;
    case H_LIST: n.ptr = (IFF_Chunk *)(st.chance(1, 2) ? IFF_createEmptyListWithContentsType(n.gtype) : IFF_createList(std::clamp(n.size, 0, 1 << 20), n.gtype)); break;
    case H_PROP: n.ptr = (IFF_Chunk *)(st.chance(1, 2) ? IFF_createEmptyProp(n.gtype) : IFF_createProp(std::clamp(n.size, 0, 1 << 20), n.gtype)); break;
    }
    need(n.ptr);
    all.push_back(&n);
}
IFF_Chunk *build(Node &n, const RegModel &reg, Rng &st) {
    std::vector<Node *> all;
    bool top_down = st.chance(1, 2);
    std::function<void(Node &)> rec = [&](Node &g) {
        pending(g, all, st, reg);
        if (!g.is_group()) return;
        size_t p = 0, k = 0;
        while (p < g.props.size() || k < g.kids.size()) {   // props and kids interleaved, each in order
            bool prop = k >= g.kids.size() || (p < g.props.size() && st.chance(1, 2));
            Node &c = prop ? *g.props[p++] : *g.kids[k++];
            if (top_down) { std::vector<Node *> tmp; pending(c, all, st, reg); attach(g, g.ptr, c, prop, st); (void)tmp; }
            else { rec(c); attach(g, g.ptr, c, prop, st); }
        }
        if (top_down) {
            std::function<void(Node &)> fill = [&](Node &x) {
                size_t p2 = 0, k2 = 0;
                while (p2 < x.props.size() || k2 < x.kids.size()) {
                    bool prop = k2 >= x.kids.size() || (p2 < x.props.size() && st.chance(1, 2));
                    Node &c = prop ? *x.props[p2++] : *x.kids[k2++];
                    pending(c, all, st, reg); attach(x, x.ptr, c, prop, st);
                }
                for (auto *l : {&x.props, &x.kids}) for (auto &c : *l) if (c->is_group()) fill(*c);
            };
            for (auto *l : {&g.props, &g.kids}) for (auto &c : *l) if (c->is_group()) fill(*c);
        }
    };
    rec(n);
    for (Node *x : all) x->ptr->chunkSize = x->size;
    return n.ptr;
}
NodeP observe_parent(const IFF_Chunk *c, u32 formType, const RegModel &reg, const void *parent, std::string *err) {
    auto n = std::make_shared<Node>();
    n->id = c->chunkId; n->size = c->chunkSize; n->ptr = (IFF_Chunk *)c;
    n->slot = reg.find(formType, c->chunkId);
    n->kind = slots[n->slot].kind;
    if (err && err->empty() && (const void *)c->parent != parent) *err = "chunk '" + id_str(c->chunkId) + "' does not refer to its containing group";
    if (n->kind == H_RAW) { if (c->chunkSize > 0) n->data.assign((const char *)((const IFF_RawChunk *)c)->chunkData, (size_t)c->chunkSize); }
    else if (n->kind == H_EXT) { for (size_t i = 0; i < slots[n->slot].def.fields.size(); i++) n->vals.push_back(ext_get((const ExtChunk *)c, (int)i)); }
    else {
        const IFF_Group *g = (const IFF_Group *)c;
        n->gtype = g->groupType;
        if (n->kind == H_LIST) {
            const IFF_List *l = (const IFF_List *)c;
            for (unsigned i = 0; i < l->propLength; i++) { NodeP k = observe_parent((const IFF_Chunk *)l->prop[i], l->contentsType, reg, c, err); k->parent = n.get(); n->props.push_back(k); }
        }
        for (unsigned i = 0; i < g->chunkLength; i++) { NodeP k = observe_parent(g->chunk[i], g->groupType, reg, c, err); k->parent = n.get(); n->kids.push_back(k); }
    }
    return n;
}
NodeP observe(const IFF_Chunk *c, u32 formType, const RegModel &reg, std::string *err) { return observe_parent(c, formType, reg, nullptr, err); }
void tie(Node &n, IFF_Chunk *c) {
    n.ptr = c;
    if (n.kind == H_LIST) for (size_t i = 0; i < n.props.size(); i++) tie(*n.props[i], (IFF_Chunk *)((IFF_List *)c)->prop[i]);
    if (n.is_group()) for (size_t i = 0; i < n.kids.size(); i++) tie(*n.kids[i], ((IFF_Group *)c)->chunk[i]);
}
IFF_Chunk *lib_read(const Bytes &in, const RegModel &reg, Rng &r) {
    RStream s; s.data = &in; s.seekable = r.chance(1, 2); s.rng = Rng(r.next());
    s.max_read = r.chance(1, 3) ? 0 : r.chance(1, 2) ? (size_t)-1 : 1 + r.below(9);
    if (r.chance(1, 3)) {
        VFile v; v.r = &s; v.bufmode = r.chance(1, 4) ? _IONBF : _IOFBF; v.bufsize = 1 + r.below(300);
        vfiles["vp:in"] = &v;
        IFF_Chunk *c = r.chance(1, 2) ? IFF_read("vp:in", reg.lib()) : IFF_readFile("vp:in", reg.lib());
        vfiles.erase("vp:in");
        return c;
    }
    FILE *f = s.open();
    if (r.chance(1, 2)) set_buffering(f, (int)r.below(6));
    IFF_Chunk *c;
    if (r.chance(1, 6)) { ReplaceStd rs(&stdin, f); c = IFF_read(nullptr, reg.lib()); }
    else c = IFF_readFd(f, reg.lib());
    fclose(f);
    return c;
}
Bytes lib_write(const IFF_Chunk *c, const RegModel &reg, bool *ok) {
    WStream w; FILE *f = w.open();
    bool r = IFF_writeFd(f, c, reg.lib());
    if (fclose(f) != 0) r = false;
    if (ok) *ok = r;
    return w.out;
}
Bytes slurp(const std::string &path) {
    Bytes b; FILE *f = fopen(path.c_str(), "rb"); if (!f) return b;
    char buf[65536]; size_t n; while ((n = fread(buf, 1, sizeof buf, f)) > 0) b.append(buf, n);
    fclose(f); return b;
}
void spit(const std::string &path, const Bytes &b) { FILE *f = fopen(path.c_str(), "wb"); if (!f) harness_die("cannot write a scratch file"); fwrite(b.data(), 1, b.size(), f); fclose(f); }
