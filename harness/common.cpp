#include "common.hpp"
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <poll.h>
#include <time.h>

#if VERIF_ASAN
#include <sanitizer/asan_interface.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" int __lsan_is_turned_off() { return 1; }
#endif

namespace vh
{

std::vector<Family>& families() { static std::vector<Family> f; return f; }

struct Shared
{
    volatile int64_t idx;
    volatile int64_t beat;
    char fam[64];
    char step[120];
};

static Shared local_shared;
static Shared* shm = &local_shared;
static FILE* out = nullptr;
static Ctx* cur = nullptr;
static char scratch[512] = "/nonexistent";

// --- event counters: fixed storage so that leak accounting is not disturbed
struct Counter { const char* label; long n; };
static Counter counters[4096];
static int ncounters = 0;

void count(const char* label, long n)
{
    // open addressing on content hash
    uint64_t h = hash_str(label);
    for (int probe = 0; probe < 4096; ++probe)
    {
        Counter& c = counters[(h + probe) & 4095];
        if (!c.label)
        {
            if (ncounters > 4000) return;
            ++ncounters;
            // labels are usually literals; copy to immortal storage outside the heap
            static char pool[1 << 18];
            static size_t used = 0;
            size_t len = std::strlen(label) + 1;
            if (used + len > sizeof(pool)) return;
            std::memcpy(pool + used, label, len);
            c.label = pool + used;
            used += len;
            c.n = n;
            return;
        }
        if (std::strcmp(c.label, label) == 0) { c.n += n; return; }
    }
}

void step(const char* label)
{
    std::strncpy(shm->step, label, sizeof(shm->step) - 1);
    count(label);
}
const char* current_step() { return shm->step; }
const char* scratch_dir() { return scratch; }
bool in_release()
{
#ifdef NDEBUG
    return true;
#else
    return false;
#endif
}

void Ctx::describe(const char* fmt, ...)
{
    size_t used = std::strlen(sample);
    va_list ap; va_start(ap, fmt);
    std::vsnprintf(sample + used, sizeof(sample) - used, fmt, ap);
    va_end(ap);
}

static void jesc(FILE* f, const char* s)
{
    fputc('"', f);
    for (; *s; ++s)
    {
        unsigned char ch = (unsigned char)*s;
        if (ch == '"' || ch == '\\') { fputc('\\', f); fputc(ch, f); }
        else if (ch < 32 || ch > 126) fprintf(f, "\\u%04x", ch);
        else fputc(ch, f);
    }
    fputc('"', f);
}

static long nfails = 0;
static bool case_failed = false;

static void report(const char* key, const char* detail)
{
    ++nfails;
    case_failed = true;
    fprintf(out, "{\"t\":\"V\",\"fam\":");
    jesc(out, cur ? cur->fam : "?");
    fprintf(out, ",\"idx\":%ld,\"key\":", cur ? cur->idx : -1L);
    jesc(out, key);
    fprintf(out, ",\"step\":");
    jesc(out, shm->step);
    fprintf(out, ",\"detail\":");
    jesc(out, detail);
    fprintf(out, ",\"sample\":");
    jesc(out, cur ? cur->sample : "");
    fprintf(out, "}\n");
    fflush(out);
}

void fail(const char* key, const char* fmt, ...)
{
    char buf[2000];
    va_list ap; va_start(ap, fmt);
    std::vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    report(key, buf);
    throw CaseFail();
}

static bool in_child = false;
void boundary_report(const char* what, const char* detail)
{
    if (in_child) { fprintf(stderr, "boundary: runtime error: %s: %s\n", what, detail); _exit(99); }
    char key[200];
    std::snprintf(key, sizeof(key), "boundary:%s", what);
    report(key, detail);
}

Death death(const std::function<void()>& fn, std::string* detail)
{
    int p[2];
    if (pipe(p)) return D_OTHER;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
    {
        in_child = true;
        close(p[0]);
        dup2(p[1], 2);
        dup2(p[1], 1);
        struct rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        alarm(60);
        int code = 0;
        try { fn(); }
        catch (...) { code = 42; }
        fflush(nullptr);
        _exit(code);
    }
    close(p[1]);
    char buf[4096];
    std::string text;
    ssize_t n;
    while ((n = read(p[0], buf, sizeof(buf))) > 0) if (text.size() < 20000) text.append(buf, n);
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (detail) *detail = text.substr(0, 300);
    bool san = text.find("AddressSanitizer") != std::string::npos
               || text.find("runtime error:") != std::string::npos;
    if (san) return D_SANITIZER;
    if (WIFSIGNALED(st))
    {
        if (WTERMSIG(st) == SIGABRT) return D_STOPPED;
        if (detail) *detail += " signal " + std::to_string(WTERMSIG(st));
        return D_OTHER;
    }
    if (WEXITSTATUS(st) == 42) return D_THROWN;
    if (WEXITSTATUS(st) == 0) return D_SILENT;
    return D_STOPPED; // a deliberate exit with an error status is a stop as well
}

// --- distinct case signatures: fixed open-addressed table
static uint64_t* sigs = nullptr;
static const size_t SIGCAP = 1 << 20;
static long ndistinct = 0;
static void add_sig(uint64_t s)
{
    if (!s) s = 1;
    size_t h = s & (SIGCAP - 1);
    for (size_t i = 0; i < SIGCAP; ++i, h = (h + 1) & (SIGCAP - 1))
    {
        if (!sigs[h]) { if (ndistinct * 10 < (long)SIGCAP * 9) { sigs[h] = s; ++ndistinct; } return; }
        if (sigs[h] == s) return;
    }
}

static size_t live_bytes()
{
#if VERIF_ASAN
    return __sanitizer_get_current_allocated_bytes();
#else
    return 0;
#endif
}

static uint64_t gseed = 1;
static bool gthorough = false;

static void run_once(const Family& f, long idx, Ctx& c)
{
    uint64_t s = hash_mix(hash_mix(gseed * 0x9E3779B97F4A7C15ull + 17, hash_str(f.name)), (uint64_t)idx + 1);
    c.r = Rng(s);
    c.fam = f.name;
    c.idx = idx;
    c.nontrivial = false;
    c.sig = hash_str(f.name);
    c.big = f.big_every > 0 && (idx % f.big_every) == f.big_every - 1;
    c.thorough = gthorough;
    c.sample[0] = 0;
    cur = &c;
    case_failed = false;
    shm->idx = idx;
    shm->beat = shm->beat + 1;
    std::strncpy(shm->fam, f.name, sizeof(shm->fam) - 1);
    std::strncpy(shm->step, "start", sizeof(shm->step) - 1);
    try
    {
        f.fn(c);
    }
    catch (const CaseFail&) {}
    catch (const std::exception& e)
    {
        char buf[800];
        std::snprintf(buf, sizeof(buf), "unexpected exception during in-contract use: %s", e.what());
        report("exception", buf);
    }
    catch (...)
    {
        report("exception", "unexpected non-standard exception during in-contract use");
    }
}

int main_impl(int argc, char** argv)
{
    std::string fam, outp, shmp;
    long start = 0, n = 1;
    int maxfails = 20;
    bool replay = false;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--list")
        {
            for (auto& f : families()) printf("%s\n", f.name);
            return 0;
        }
        else if (a == "--fam") fam = val();
        else if (a == "--start") start = atol(val().c_str());
        else if (a == "--n") n = atol(val().c_str());
        else if (a == "--seed") gseed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--out") outp = val();
        else if (a == "--shm") shmp = val();
        else if (a == "--scratch") std::snprintf(scratch, sizeof(scratch), "%s", val().c_str());
        else if (a == "--thorough") gthorough = true;
        else if (a == "--replay") replay = true;
    }
    out = outp.empty() ? stdout : fopen(outp.c_str(), "w");
    if (!out) return 3;
    static char outbuf[1 << 16];
    setvbuf(out, outbuf, _IOFBF, sizeof(outbuf));
    if (!shmp.empty())
    {
        int fd = open(shmp.c_str(), O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, 4096)) return 3;
        void* p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
        if (p == MAP_FAILED) return 3;
        shm = (Shared*)p;
    }
    sigs = (uint64_t*)mmap(nullptr, SIGCAP * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    const Family* f = nullptr;
    for (auto& x : families()) if (fam == x.name) f = &x;
    if (!f) { fprintf(stderr, "no family %s\n", fam.c_str()); return 3; }

    // the library prints diagnostics to std::cout; keep them out of our output
    if (!replay) { int nul = open("/dev/null", O_WRONLY); if (nul >= 0) { dup2(nul, 1); close(nul); } }

    static Ctx c;
    long evals = 0, nontrivial = 0;
    int samples = 0;
    for (long i = start; i < start + n; ++i)
    {
        size_t before = live_bytes();
        run_once(*f, i, c);
        bool failed = case_failed;
        size_t after = live_bytes();
        ++evals;
        if (c.nontrivial) { ++nontrivial; add_sig(c.sig); }
        if (samples < 1 && c.nontrivial && c.sample[0])
        {
            ++samples;
            fprintf(out, "{\"t\":\"S\",\"fam\":"); jesc(out, f->name);
            fprintf(out, ",\"idx\":%ld,\"sample\":", i); jesc(out, c.sample);
            fprintf(out, "}\n");
        }
        if (VERIF_ASAN && f->leak_check && !failed && after > before)
        {
            // caches (stream locale, library one-time state) warm up on the first run: repeat the same case
            size_t d[3];
            bool leak = true;
            for (int k = 0; k < 3 && leak; ++k)
            {
                size_t b = live_bytes();
                run_once(*f, i, c);
                size_t e = live_bytes();
                if (case_failed) leak = false;
                d[k] = e - b;
                if (!(e > b)) leak = false;
            }
            if (leak)
            {
                char buf[200];
                std::snprintf(buf, sizeof(buf), "every run of this case leaves memory behind: %zu, %zu, %zu bytes", d[0], d[1], d[2]);
                std::strncpy(shm->step, "leak", sizeof(shm->step) - 1);
                report("leak", buf);
            }
        }
        if (nfails >= maxfails) break;
    }
    boundary_flush();
    fprintf(out, "{\"t\":\"E\",\"evals\":%ld,\"nontrivial\":%ld,\"events\":{", evals, nontrivial);
    bool first = true;
    for (auto& k : counters)
    {
        if (!k.label) continue;
        if (!first) fputc(',', out);
        first = false;
        jesc(out, k.label);
        fprintf(out, ":%ld", k.n);
    }
    fprintf(out, "},\"sigs\":[");
    first = true;
    for (size_t i = 0; i < SIGCAP; ++i)
    {
        if (!sigs[i]) continue;
        fprintf(out, "%s\"%016llx\"", first ? "" : ",", (unsigned long long)sigs[i]);
        first = false;
    }
    fprintf(out, "]}\n");
    fflush(out);
    std::strncpy(shm->step, "exit", sizeof(shm->step) - 1);
    return 0;
}

} // namespace vh

int main(int argc, char** argv) { return vh::main_impl(argc, argv); }
