// C15, the other build variant: the library as configured for big-endian hosts (IFF_BIG_ENDIAN=1), on this host.
// There the bytes of a value in memory are its bytes in the stream, so every value must be transferred byte for byte. Code that
// does not depend on the host's byte order gives the big-endian interpretation here; that is right as well. Each operation may
// be either, for itself (on a big-endian host both come to the same), but the same one for every value.
// usage: endian SEED VALUES OUT
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
extern "C" {
#include "ifftypes.h"
#include "io.h"
#include "id.h"
#include "field.h"
#include "error.h"
#include "chunk.h"
}
static void quiet(const char *, va_list) {}
static std::string viol; static int nv = 0; static unsigned long long judged = 0;
static void fail(const char *what, unsigned long long bytes, unsigned long long got, int width) {
    if (nv++ >= 4) return;
    char m[400]; snprintf(m, sizeof m, "%s{\"key\":\"big-endian-build\",\"idx\":0,\"witness\":\"%0*llx\",\"note\":\"\",\"msg\":\"built for big-endian hosts, %s: memory image %0*llx, stream or value %0*llx\"}", viol.empty() ? "" : ",", width * 2, bytes, what, width * 2, bytes, width * 2, got); viol += m;
}
static uint64_t rs; static uint32_t rnd() { rs += 0x9e3779b97f4a7c15ull; uint64_t z = rs; z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ull; z = (z ^ z >> 27) * 0x94d049bb133111ebull; return (uint32_t)(z >> 16); }
static uint16_t sw(uint16_t v) { return __builtin_bswap16(v); }
static uint32_t sw(uint32_t v) { return __builtin_bswap32(v); }
// W: unsigned type of that width; T: the library's type
template <class W, class T, class RD, class WR> static void transfer(const char *name, const std::vector<W> &v, RD rd, WR wr) {
    const size_t w = sizeof(W); std::vector<W> out(v.size()); bool native = true, big = true; size_t badn = 0;
    FILE *f = fmemopen((void *)v.data(), v.size() * w, "rb"); if (!f) exit(3);
    for (size_t i = 0; i < v.size(); i++) { T x = 0; W u; if (!rd(f, &x)) { fail((std::string("reading ") + name + " fails").c_str(), v[i], 0, (int)w); break; } u = (W)x; judged++; if (u != v[i] && native) { native = false; badn = i; } if (u != sw(v[i])) big = false; if (!native && !big) { fail((std::string("reading ") + name).c_str(), v[badn], u, (int)w); break; } }
    fclose(f);
    char *buf = nullptr; size_t len = 0; f = open_memstream(&buf, &len); if (!f) exit(3);
    for (size_t i = 0; i < v.size(); i++) if (!wr(f, (T)v[i])) { fail((std::string("writing ") + name + " fails").c_str(), v[i], 0, (int)w); break; }
    fclose(f); bool wn = true, wb = true; size_t bad = 0;
    if (len != v.size() * w) fail((std::string("writing ") + name + ": number of bytes").c_str(), v.size() * w, len, 4);
    else for (size_t i = 0; i < v.size(); i++) { W u; memcpy(&u, buf + i * w, w); judged++; if (u != v[i] && wn) { wn = false; bad = i; } if (u != sw(v[i])) wb = false; if (!wn && !wb) { fail((std::string("writing ") + name).c_str(), v[bad], u, (int)w); break; } }
    free(buf);
}
int main(int argc, char **argv) {
    if (argc < 4) return 3;
    rs = strtoull(argv[1], 0, 10) * 7919 + 13; size_t n = (size_t)strtoull(argv[2], 0, 10); IFF_errorCallback = &quiet;
    std::vector<uint16_t> w16; for (uint32_t i = 0; i < 65536; i++) w16.push_back((uint16_t)i);
    std::vector<uint32_t> w32; for (int i = 0; i < 32; i++) for (uint32_t k : {0u, 1u, 0xffffffffu}) w32.push_back((1u << i) - k); for (uint32_t b = 0; b < 256; b++) for (int s = 0; s < 32; s += 8) { w32.push_back(b << s); w32.push_back(~(b << s)); } while (w32.size() < n) w32.push_back(rnd());
    const IFF_ID id = 0x54455354;
    transfer<uint16_t, IFF_UWord>("UWORD", w16, [&](FILE *f, IFF_UWord *x) { return IFF_readUWord(f, x, id, "a"); }, [&](FILE *f, IFF_UWord x) { return IFF_writeUWord(f, x, id, "a"); });
    transfer<uint16_t, IFF_Word>("WORD", w16, [&](FILE *f, IFF_Word *x) { return IFF_readWord(f, x, id, "a"); }, [&](FILE *f, IFF_Word x) { return IFF_writeWord(f, x, id, "a"); });
    transfer<uint32_t, IFF_ULong>("ULONG", w32, [&](FILE *f, IFF_ULong *x) { return IFF_readULong(f, x, id, "a"); }, [&](FILE *f, IFF_ULong x) { return IFF_writeULong(f, x, id, "a"); });
    transfer<uint32_t, IFF_Long>("LONG", w32, [&](FILE *f, IFF_Long *x) { return IFF_readLong(f, x, id, "a"); }, [&](FILE *f, IFF_Long x) { return IFF_writeLong(f, x, id, "a"); });
    transfer<uint32_t, IFF_ID>("identifiers", w32, [&](FILE *f, IFF_ID *x) { return IFF_readId(f, x, id, "a"); }, [&](FILE *f, IFF_ID x) { return IFF_writeId(f, x, id, "a"); });
    // the same as fields of a chunk
    IFF_Chunk chunk, *k = &chunk; memset(&chunk, 0, sizeof chunk); k->chunkId = id; k->chunkSize = 8; IFF_Long bp;
    transfer<uint16_t, IFF_UWord>("UWORD fields", w16, [&](FILE *f, IFF_UWord *x) { bp = 2; return IFF_readUWordField(f, x, k, "a", &bp) == IFF_FIELD_MORE && bp == 4; }, [&](FILE *f, IFF_UWord x) { bp = 2; return IFF_writeUWordField(f, x, k, "a", &bp) == IFF_FIELD_MORE && bp == 4; });
    transfer<uint16_t, IFF_Word>("WORD fields", w16, [&](FILE *f, IFF_Word *x) { bp = 2; return IFF_readWordField(f, x, k, "a", &bp) == IFF_FIELD_MORE && bp == 4; }, [&](FILE *f, IFF_Word x) { bp = 2; return IFF_writeWordField(f, x, k, "a", &bp) == IFF_FIELD_MORE && bp == 4; });
    transfer<uint32_t, IFF_ULong>("ULONG fields", w32, [&](FILE *f, IFF_ULong *x) { bp = 0; return IFF_readULongField(f, x, k, "a", &bp) == IFF_FIELD_MORE && bp == 4; }, [&](FILE *f, IFF_ULong x) { bp = 0; return IFF_writeULongField(f, x, k, "a", &bp) == IFF_FIELD_MORE && bp == 4; });
    transfer<uint32_t, IFF_Long>("LONG fields", w32, [&](FILE *f, IFF_Long *x) { bp = 0; return IFF_readLongField(f, x, k, "a", &bp) == IFF_FIELD_MORE && bp == 4; }, [&](FILE *f, IFF_Long x) { bp = 0; return IFF_writeLongField(f, x, k, "a", &bp) == IFF_FIELD_MORE && bp == 4; });
    FILE *f = fopen(argv[3], "w"); if (!f) return 3;
    fprintf(f, "{\"status\":\"ok\",\"cases\":1,\"evaluations\":%llu,\"wall\":0,\"edges_hit\":0,\"edges_total\":0,\"counters\":{\"values_transferred_by_the_big_endian_build\":%llu},\"samples\":[],\"violations\":[%s]}\n", judged, judged, viol.c_str());
    fclose(f);
    return 0;
}
