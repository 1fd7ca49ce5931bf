// Runs the cases of one check and records what was observed.
#include "vp.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

std::vector<CheckDef> &checks() { static std::vector<CheckDef> v; return v; }
std::string scratch_dir = "/tmp", tool_iffpp, tool_iffjoin;
int stray1 = -1, stray2 = -1;   // what anything in this process wrote to the real standard streams
static Ctx *cur; static std::string out_path; static struct Shared { volatile u64 idx, done, phase; } *shared_page;
static double t0;
static const u64 case_steps = 600000000;   // what a case may take; inputs made large on purpose get more
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

void Ctx::fail(const std::string &key, const char *fmt, ...) {
    char buf[3000]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    fails.push_back(key);
    int n = 0; for (auto &f : all) if (f.key == key) n++;
    if (n < 3 && all.size() < 60) all.push_back({key, buf, idx, witness, note});
    counters["violations"]++;
}
static std::string js(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 0x20 || c > 0x7e) o += strf("\\u%04x", c); else o += (char)c; }
    return o + "\"";
}
static void report(const char *status) {
    FILE *f = fopen(out_path.c_str(), "w");
    if (!f) _exit(3);
    fprintf(f, "{\"status\":%s,\"cases\":%llu,\"evaluations\":%llu,\"wall\":%.3f,\"edges_hit\":%zu,\"edges_total\":%zu,\"edges_map\":\"%s\",\"steps\":%llu,\n\"counters\":{", js(status).c_str(), (unsigned long long)shared_page->done, (unsigned long long)cur->evaluations, now() - t0, vp_edges_hit(), vp_edges_total(), vp_edges_map().c_str(), (unsigned long long)vp_steps);
    bool first = true;
    for (auto &c : cur->counters) { fprintf(f, "%s%s:%llu", first ? "" : ",", js(c.first).c_str(), (unsigned long long)c.second); first = false; }
    fprintf(f, "},\n\"samples\":["); first = true;
    for (auto &s : cur->samples) { fprintf(f, "%s%s", first ? "" : ",", js(s).c_str()); first = false; }
    fprintf(f, "],\n\"violations\":["); first = true;
    for (auto &v : cur->all) { fprintf(f, "%s{\"key\":%s,\"msg\":%s,\"idx\":%llu,\"witness\":%s,\"note\":%s}", first ? "" : ",\n", js(v.key).c_str(), js(v.msg).c_str(), (unsigned long long)v.idx, js(hex(v.witness, 4000)).c_str(), js(v.note).c_str()); first = false; }
    fprintf(f, "]}\n");
    fclose(f);
    FILE *d = fopen((out_path + ".distinct").c_str(), "wb");
    if (d) { std::vector<u64> v(cur->distinct.begin(), cur->distinct.end()); fwrite(v.data(), 8, v.size(), d); fclose(d); }
}
static u64 case_from;
void vp_step_overflow() {
    u64 exceeded = vp_step_limit; vp_step_limit = (u64)-1;
    cur->fail("hang", "case %llu: the library did not finish within the %llu steps allowed", (unsigned long long)cur->idx, (unsigned long long)(exceeded - case_from));
    report("hang");
    _exit(0);
}
static void on_term(int) { _exit(9); }

int main(int argc, char **argv) {
    std::string prop; u64 seed = 1, shard = 0, shards = 1, cases = 0, only = (u64)-1; double secs = 1e9; bool thorough = false;
    std::string curfile;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") prop = val(); else if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--shard") shard = strtoull(val().c_str(), 0, 10); else if (a == "--shards") shards = strtoull(val().c_str(), 0, 10);
        else if (a == "--cases") cases = strtoull(val().c_str(), 0, 10); else if (a == "--only") only = strtoull(val().c_str(), 0, 10);
        else if (a == "--secs") secs = strtod(val().c_str(), 0); else if (a == "--out") out_path = val(); else if (a == "--thorough") thorough = true;
        else if (a == "--scratch") scratch_dir = val(); else if (a == "--iffpp") tool_iffpp = val(); else if (a == "--iffjoin") tool_iffjoin = val();
        else if (a == "--cur") curfile = val();
        else if (a == "--list") { for (auto &c : checks()) printf("%s %llu %llu\n", c.id, (unsigned long long)c.quick, (unsigned long long)c.thorough); return 0; }
    }
    const CheckDef *def = nullptr;
    for (auto &c : checks()) if (prop == c.id) def = &c;
    if (!def || out_path.empty()) { fprintf(stderr, "unknown check\n"); return 3; }
    if (!cases) cases = thorough ? def->thorough : def->quick;
    int cf = curfile.empty() ? -1 : open(curfile.c_str(), O_RDWR | O_CREAT, 0600);
    if (cf >= 0 && ftruncate(cf, 4096) == 0) shared_page = (Shared *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, cf, 0);
    else shared_page = (Shared *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    shared_page->idx = (u64)-1; shared_page->done = 0;
    signal(SIGTERM, on_term); signal(SIGPIPE, SIG_IGN);
    stray1 = memfd_create("stray1", MFD_CLOEXEC); stray2 = memfd_create("stray2", MFD_CLOEXEC);
    fflush(stdout); dup2(stray1, 1);
    real_stderr = dup(2); fcntl(real_stderr, F_SETFD, FD_CLOEXEC);
    if (!getenv("VP_KEEP_STDERR")) dup2(stray2, 2);
    setvbuf(stdout, nullptr, _IONBF, 0);
    t0 = now();
    Ctx c; cur = &c; c.prop = prop; c.seed = seed; c.thorough = thorough; c.replaying = only != (u64)-1;
    if (!getenv("VP_NO_RECORDER")) diag_install();
    u64 from = c.replaying ? only : shard, step = c.replaying ? 1 : shards, to = c.replaying ? only + 1 : cases;
    for (u64 i = from; i < to; i += step) {
        if (now() - t0 > secs) { c.counters["stopped_by_time"]++; break; }
        c.idx = i; shared_page->idx = i;
        c.rng = Rng(mix(mix(seed, hash_str(prop)), i));
        c.fails.clear(); c.witness.clear(); c.note.clear();
        D.reset(); alloc_reset(); A.fill = 0xA5; hlog = nullptr; vfiles.clear();
        vp_step_limit = vp_steps + case_steps;
        u64 s0 = case_from = vp_steps;
        def->run(c);
        if (vp_steps - s0 > c.counters["max_steps_in_a_case"]) c.counters["max_steps_in_a_case"] = vp_steps - s0;
        shared_page->done = shared_page->done + 1;
    }
    vp_step_limit = (u64)-1;
    report("ok");
    _exit(0);   // no leak scan: the checks account for memory themselves
}
