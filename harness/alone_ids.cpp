// C24, exhaustive part: every 32-bit value judged by the library and by the definition.
// usage: ids SHARD SHARDS OUT  (all values, split over the shards)
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
extern "C" {
#include "ifftypes.h"
#include "id.h"
#include "error.h"
#include "form.h"
}
static void quiet(const char *, va_list) {}
static bool id_ok(uint32_t v) { for (int i = 0; i < 4; i++) { unsigned b = v >> (24 - 8 * i) & 255; if (b < 0x20 || b > 0x7e) return false; } return (v >> 24) != 0x20; }
static uint32_t mk(const char *s) { return (uint32_t)(uint8_t)s[0] << 24 | (uint32_t)(uint8_t)s[1] << 16 | (uint32_t)(uint8_t)s[2] << 8 | (uint8_t)s[3]; }
int main(int argc, char **argv) {
    if (argc < 4) return 3;
    uint64_t shard = strtoull(argv[1], 0, 10), shards = strtoull(argv[2], 0, 10);
    static bool upper[256]; for (int i = 0; i < 256; i++) upper[i] = i == ' ' || (i >= '0' && i <= '9') || (i >= 'A' && i <= 'Z');
    static bool reserved_top[256]; uint32_t res[64]; int nres = 0;
    const char *base[] = {"FORM", "LIST", "PROP", "CAT ", "JJJJ"}; for (auto b : base) res[nres++] = mk(b);
    for (auto p : {"FOR", "LIS", "CAT"}) for (char d = '1'; d <= '9'; d++) { std::string s = p; s += d; res[nres++] = mk(s.c_str()); }
    for (int i = 0; i < nres; i++) reserved_top[res[i] >> 24] = true;
    IFF_errorCallback = &quiet;
    uint64_t from = (1ull << 32) * shard / shards, to = (1ull << 32) * (shard + 1) / shards, legal_id = 0, legal_form = 0; std::string viol; int nv = 0;
    for (uint64_t x = from; x < to; x++) {
        uint32_t v = (uint32_t)x;
        bool a = id_ok(v), b = a && upper[v >> 24] && upper[v >> 16 & 255] && upper[v >> 8 & 255] && upper[v & 255];
        if (b && reserved_top[v >> 24]) for (int i = 0; i < nres; i++) if (res[i] == v) b = false;
        legal_id += a; legal_form += b;
        bool ga = IFF_checkId(v) != 0, gb = IFF_checkFormType(v) != 0;
        char t[5]; IFF_idToString(v, t);
        bool conv = (uint8_t)t[0] == (v >> 24) && (uint8_t)t[1] == (v >> 16 & 255) && (uint8_t)t[2] == (v >> 8 & 255) && (uint8_t)t[3] == (v & 255);
        if ((ga != a || gb != b || !conv) && nv++ < 3) { char m[300]; snprintf(m, sizeof m, "%s{\"key\":\"%s\",\"idx\":%llu,\"witness\":\"%08x\",\"note\":\"\",\"msg\":\"identifier %08x: legal identifier %d (expected %d), legal FORM type %d (expected %d), conversion %s\"}", viol.empty() ? "" : ",", ga != a ? "checkId" : gb != b ? "checkFormType" : "idToString", (unsigned long long)v, v, v, ga, a, gb, b, conv ? "right" : "wrong"); viol += m; }
    }
    FILE *f = fopen(argv[3], "w"); if (!f) return 3;
    fprintf(f, "{\"status\":\"ok\",\"cases\":%llu,\"evaluations\":%llu,\"wall\":0,\"edges_hit\":0,\"edges_total\":0,\"counters\":{\"values_judged_exhaustively\":%llu,\"legal_identifiers\":%llu,\"legal_form_types\":%llu,\"values_misjudged\":%d},\"samples\":[],\"violations\":[%s]}\n", 1ull, (unsigned long long)(to - from), (unsigned long long)(to - from), (unsigned long long)legal_id, (unsigned long long)legal_form, nv, viol.c_str());
    fclose(f);
    return 0;
}
