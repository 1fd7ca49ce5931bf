/* Drives the library from C alone, for MemorySanitizer and valgrind (no uninstrumented C++ library involved).
   usage: cdriver INPUTS OUT  - INPUTS: a concatenation of (32-bit little-endian length, bytes). Reports what it did. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <fcntl.h>
#include <unistd.h>
#include "ifftypes.h"
#include "id.h"
#include "io.h"
#include "field.h"
#include "error.h"
#include "chunk.h"
#include "chunkregistry.h"
#include "group.h"
#include "form.h"
#include "cat.h"
#include "list.h"
#include "prop.h"
#include "rawchunk.h"
#include "iff.h"
#include "defaultregistry.h"
#ifdef __has_feature
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define DEFINED(p, n) __msan_check_mem_is_initialized((p), (n))
#endif
#endif
#ifndef DEFINED
static volatile unsigned sink;
#define DEFINED(p, n) do { const unsigned char *q_ = (const unsigned char *)(p); size_t i_; for (i_ = 0; i_ < (size_t)(n); i_++) if (q_[i_] == 77) sink++; } while (0)
#endif
typedef unsigned char u8;
static uint64_t rng_state = 1;
static unsigned rnd(unsigned n) { rng_state = rng_state * 6364136223846793005ull + 1442695040888963407ull; return n ? (unsigned)(rng_state >> 33) % n : 0; }
static unsigned long long n_inputs, n_read, n_chunks, n_written, n_printed, n_messages, n_searches, n_values, n_built;

/* diagnostics: format everything, so that undefined arguments are noticed */
static void on_error(const char *format, va_list ap) { char buf[600]; int n = vsnprintf(buf, sizeof buf, format, ap); if (n > 0) DEFINED(buf, strlen(buf)); n_messages++; }

/* an extension chunk type with fields of all kinds */
typedef struct { IFF_Group *parent; IFF_ID chunkId; IFF_Long chunkSize; IFF_UByte b; IFF_UWord uw; IFF_Word w; IFF_ULong ul; IFF_Long l; IFF_ID id; } Ext;
static IFF_Chunk *ext_create(const IFF_ID id, const IFF_Long size) { Ext *e = (Ext *)IFF_createChunk(id, size, sizeof(Ext)); if (e) { e->b = 0; e->uw = 0; e->w = 0; e->ul = 0; e->l = 0; e->id = 0; } return (IFF_Chunk *)e; }
#define TRY(call) { IFF_FieldStatus s = (call); if (s != IFF_FIELD_MORE) return IFF_deriveSuccess(s); }
static IFF_Bool ext_read(FILE *f, IFF_Chunk *c, const IFF_ChunkRegistry *r, IFF_Long *done) {
    Ext *e = (Ext *)c;
    TRY(IFF_readUByteField(f, &e->b, c, "b", done)) TRY(IFF_readUWordField(f, &e->uw, c, "uw", done)) TRY(IFF_readWordField(f, &e->w, c, "w", done))
    TRY(IFF_readULongField(f, &e->ul, c, "ul", done)) TRY(IFF_readLongField(f, &e->l, c, "l", done)) TRY(IFF_readIdField(f, &e->id, c, "id", done))
    return TRUE;
}
static IFF_Bool ext_write(FILE *f, const IFF_Chunk *c, const IFF_ChunkRegistry *r, IFF_Long *done) {
    const Ext *e = (const Ext *)c;
    TRY(IFF_writeUByteField(f, e->b, c, "b", done)) TRY(IFF_writeUWordField(f, e->uw, c, "uw", done)) TRY(IFF_writeWordField(f, e->w, c, "w", done))
    TRY(IFF_writeULongField(f, e->ul, c, "ul", done)) TRY(IFF_writeLongField(f, e->l, c, "l", done)) TRY(IFF_writeIdField(f, e->id, c, "id", done))
    return TRUE;
}
static IFF_Bool ext_check(const IFF_Chunk *c, const IFF_ChunkRegistry *r) { return ((const Ext *)c)->b < 250; }
static void ext_free(IFF_Chunk *c, const IFF_ChunkRegistry *r) { }
static void ext_print(const IFF_Chunk *c, const unsigned int n, const IFF_ChunkRegistry *r) { const Ext *e = (const Ext *)c; printf("%u %u %d %u %d %u\n", e->b, e->uw, e->w, (unsigned)e->ul, (int)e->l, (unsigned)e->id); }
static IFF_Bool ext_compare(const IFF_Chunk *a, const IFF_Chunk *b, const IFF_ChunkRegistry *r) { const Ext *x = (const Ext *)a, *y = (const Ext *)b; return x->b == y->b && x->uw == y->uw && x->w == y->w && x->ul == y->ul && x->l == y->l && x->id == y->id; }
#define TYPE(id) { id, &ext_create, &ext_read, &ext_write, &ext_check, &ext_free, &ext_print, &ext_compare }
#define ID(a, b, c, d) IFF_MAKEID(a, b, c, d)
static IFF_ChunkType test_types[2], ilbm_types[4];
static IFF_ChunkTypesNode test_node, ilbm_node; static IFF_FormChunkTypes form_types[2]; static IFF_ChunkRegistry registry;
static void setup(void) {
    IFF_ChunkType t[6] = { TYPE(ID('B','Y','E',' ')), TYPE(ID('H','E','L','O')), TYPE(ID('B','M','H','D')), TYPE(ID('C','A','M','G')), TYPE(ID('C','M','A','P')), TYPE(ID('C','R','N','G')) };
    memcpy(test_types, t, sizeof test_types); memcpy(ilbm_types, t + 2, sizeof ilbm_types);
    test_node.chunkTypesLength = 2; test_node.chunkTypes = test_types; ilbm_node.chunkTypesLength = 4; ilbm_node.chunkTypes = ilbm_types; ilbm_node.parent = &test_node;
    form_types[0].formType = ID('I','L','B','M'); form_types[0].chunkTypesNode = &ilbm_node; form_types[1].formType = ID('T','E','S','T'); form_types[1].chunkTypesNode = &test_node;
    registry.formChunkTypesLength = 2; registry.formChunkTypes = form_types; registry.globalChunkTypesNode = IFF_defaultChunkRegistry.globalChunkTypesNode; registry.defaultChunkType = IFF_defaultChunkRegistry.defaultChunkType;
}
/* every visible member of every chunk has a value */
static void visit(IFF_Chunk *c, IFF_ID scope, const IFF_ChunkRegistry *reg, IFF_ID *types, unsigned *ntypes) {
    IFF_ChunkType *t = IFF_findChunkType(reg, scope, c->chunkId);
    n_chunks++; DEFINED(&c->parent, sizeof c->parent); DEFINED(&c->chunkId, sizeof c->chunkId); DEFINED(&c->chunkSize, sizeof c->chunkSize); n_values += 3;
    if (t->createExtensionChunk == &ext_create) { Ext *e = (Ext *)c; DEFINED(&e->b, 1); DEFINED(&e->uw, sizeof e->uw); DEFINED(&e->w, sizeof e->w); DEFINED(&e->ul, sizeof e->ul); DEFINED(&e->l, sizeof e->l); DEFINED(&e->id, sizeof e->id); n_values += 6; }
    else if (c->chunkId == IFF_ID_FORM || c->chunkId == IFF_ID_CAT || c->chunkId == IFF_ID_PROP || c->chunkId == IFF_ID_LIST) {
        IFF_Group *g = (IFF_Group *)c; unsigned i;
        DEFINED(&g->groupType, sizeof g->groupType); DEFINED(&g->chunkLength, sizeof g->chunkLength); n_values += 2;
        if (*ntypes < 8) types[(*ntypes)++] = g->groupType;
        if (c->chunkId == IFF_ID_LIST) { IFF_List *l = (IFF_List *)c; DEFINED(&l->propLength, sizeof l->propLength); n_values++; for (i = 0; i < l->propLength; i++) visit((IFF_Chunk *)l->prop[i], g->groupType, reg, types, ntypes); }
        for (i = 0; i < g->chunkLength; i++) visit(g->chunk[i], g->groupType, reg, types, ntypes);
        if (c->chunkId == IFF_ID_FORM) { unsigned len = 77; IFF_Chunk **all; IFF_ID id = g->chunkLength ? g->chunk[rnd(g->chunkLength)]->chunkId : ID('X','X','X','X'); IFF_Chunk *one = IFF_getChunkFromForm((IFF_Form *)c, id); DEFINED(&one, sizeof one); one = IFF_getDataChunkFromForm((IFF_Form *)c, ID('B','M','H','D')); DEFINED(&one, sizeof one); one = IFF_getChunkFromForm((IFF_Form *)c, ID('A','B','C','D')); DEFINED(&one, sizeof one); all = IFF_getChunksFromForm((IFF_Form *)c, id, &len); DEFINED(&len, sizeof len); for (i = 0; i < len; i++) DEFINED(&all[i], sizeof all[i]); free(all); n_searches++; }
    } else { IFF_RawChunk *r = (IFF_RawChunk *)c; if (c->chunkSize > 0) DEFINED(r->chunkData, c->chunkSize); n_values += c->chunkSize; }
}
typedef struct { const u8 *p; size_t n, at, step; } Src;
static ssize_t src_read(void *k, char *buf, size_t n) { Src *s = (Src *)k; if (n > s->n - s->at) n = s->n - s->at; if (s->step && n > s->step) n = s->step; memcpy(buf, s->p + s->at, n); s->at += n; return (ssize_t)n; }
static u8 *sunk; static size_t sunk_n, sunk_cap;
static ssize_t sink_write(void *k, const char *buf, size_t n) { if (sunk_n + n > sunk_cap) { sunk_cap = (sunk_n + n) * 2 + 64; sunk = (u8 *)realloc(sunk, sunk_cap); } memcpy(sunk + sunk_n, buf, n); sunk_n += n; return (ssize_t)n; }
static IFF_Chunk *read_bytes(const u8 *p, size_t n, const IFF_ChunkRegistry *reg) {
    Src s = { p, n, 0, rnd(3) ? 0 : 1 + rnd(9) }; cookie_io_functions_t f = { &src_read, NULL, NULL, NULL }; FILE *file = fopencookie(&s, "r", f); IFF_Chunk *c = IFF_readFd(file, reg); fclose(file); return c;
}
static void use(IFF_Chunk *c, const u8 *p, size_t n, const IFF_ChunkRegistry *reg) {
    IFF_ID types[10]; unsigned ntypes = 0, len = 77, i; IFF_Form **forms; int v; IFF_Chunk *again;
    const IFF_ChunkRegistry *full = reg ? reg : &IFF_defaultChunkRegistry; cookie_io_functions_t f = { NULL, &sink_write, NULL, NULL }; FILE *file;
    visit(c, 0, full, types, &ntypes);
    v = IFF_check(c, reg); DEFINED(&v, sizeof v);
    v = IFF_compare(c, c, reg); DEFINED(&v, sizeof v);
    if (p) { again = read_bytes(p, n, reg); if (again) { v = IFF_compare(c, again, reg); DEFINED(&v, sizeof v); IFF_free(again, reg); } }
    types[ntypes] = ID('T','E','S','T');
    forms = IFF_searchFormsFromArray(c, types, ntypes ? 1 + rnd(ntypes) : 1, &len); DEFINED(&len, sizeof len); for (i = 0; i < len; i++) { DEFINED(&forms[i], sizeof forms[i]); DEFINED(&forms[i]->formType, sizeof forms[i]->formType); } free(forms); n_searches++;
    if (n < 30000) { IFF_print(c, rnd(4), reg); n_printed++; }
    file = fopencookie(NULL, "w", f); if (rnd(2)) setvbuf(file, NULL, _IONBF, 0); sunk_n = 0; v = IFF_writeFd(file, c, reg); DEFINED(&v, sizeof v); fclose(file); n_written += sunk_n;
}
static void one(const u8 *p, size_t n) {
    int k; n_inputs++;
    for (k = 0; k < 2; k++) {
        const IFF_ChunkRegistry *reg = k ? &registry : NULL; IFF_Chunk *c = read_bytes(p, n, reg);
        if (!c) continue;
        n_read++; use(c, p, n, reg); IFF_free(c, reg);
    }
}
/* hierarchies that were built instead of read */
static IFF_Chunk *some_chunk(int depth) {
    static const char *text[] = { "", "a", "hello", "a longer piece of text" }; static const IFF_ID ft[] = { ID('T','E','S','T'), ID('I','L','B','M'), ID('A','B','C','D') }; int i, n = (int)rnd(4);
    switch (depth > 3 ? 3 : rnd(6)) {
    case 0: { IFF_Form *g = IFF_createEmptyForm(ft[rnd(3)]); for (i = 0; i < n; i++) IFF_addToForm(g, some_chunk(depth + 1)); return (IFF_Chunk *)g; }
    case 1: { IFF_CAT *g = IFF_createEmptyCAT(); for (i = 0; i < n; i++) if (rnd(2)) IFF_addToCATAndUpdateContentsType(g, some_chunk(depth + 1)); else IFF_addToCAT(g, some_chunk(depth + 1)); return (IFF_Chunk *)g; }
    case 2: { IFF_List *g = IFF_createEmptyList(); for (i = 0; i < n; i++) { if (rnd(2)) { IFF_Prop *pr = IFF_createEmptyProp(ft[rnd(3)]); IFF_addToProp(pr, some_chunk(9)); IFF_addPropToList(g, pr); } if (rnd(2)) IFF_addToListAndUpdateContentsType(g, (IFF_Chunk *)IFF_createEmptyForm(ft[rnd(3)])); else IFF_addToList(g, some_chunk(depth + 1)); } return (IFF_Chunk *)g; }
    case 3: { IFF_RawChunk *r = (IFF_RawChunk *)IFF_createRawChunk(ID('T','E','X','T'), 0); IFF_setTextData(r, text[rnd(4)]); if (rnd(2)) IFF_setTextData(r, text[rnd(4)]); return (IFF_Chunk *)r; }
    case 4: { u8 d[40]; int j; n = (int)rnd(40); IFF_RawChunk *r; for (j = 0; j < 40; j++) d[j] = (u8)rnd(256); r = (IFF_RawChunk *)IFF_createRawChunk(ID('D','A','T','A'), n); IFF_copyDataToRawChunkData(r, d); return (IFF_Chunk *)r; }
    default: { u8 *d; int j; IFF_RawChunk *r = (IFF_RawChunk *)IFF_createRawChunk(ID('N','A','M','E'), 0); n = 1 + (int)rnd(9); d = (u8 *)malloc((size_t)n); for (j = 0; j < n; j++) d[j] = (u8)j; free(r->chunkData); IFF_setRawChunkData(r, d, n); return (IFF_Chunk *)r; }
    }
}
int main(int argc, char **argv) {
    FILE *in, *out; u8 h[4]; int i, builds; size_t total = 0;
    if (argc < 4) return 3;
    in = fopen(argv[1], "rb"); if (!in) return 3;
    rng_state = strtoull(argv[3], NULL, 10) * 2654435761u + 12345; IFF_errorCallback = &on_error; setup();
    if (!freopen("/dev/null", "w", stdout)) return 3;
    while (fread(h, 1, 4, in) == 4) { size_t n = h[0] | (size_t)h[1] << 8 | (size_t)h[2] << 16 | (size_t)h[3] << 24; u8 *p = (u8 *)malloc(n + 1); if (fread(p, 1, n, in) != n) return 3; one(p, n); free(p); total += n; }
    fclose(in);
    builds = (int)(n_inputs / 4) + 50;
    for (i = 0; i < builds; i++) { IFF_Chunk *c = some_chunk(0); n_built++; if (rnd(2)) IFF_updateChunkSizes(c); use(c, NULL, 0, NULL); IFF_free(c, NULL); }
    out = fopen(argv[2], "w"); if (!out) return 3;
    fprintf(out, "{\"inputs\":%llu,\"read\":%llu,\"built\":%llu,\"chunks\":%llu,\"values_required_defined\":%llu,\"bytes_written\":%llu,\"printed\":%llu,\"messages\":%llu,\"searches\":%llu}\n", n_inputs, n_read, n_built, n_chunks, n_values, n_written, n_printed, n_messages, n_searches);
    fclose(out); free(sunk);
    return 0;
}
