/* usage: harness PROPERTY SEED FIRST COUNT SECONDS   runs cases FIRST.. until COUNT or SECONDS is reached
 * exit 0 nothing found, 3 a failing case (printed), other: crash; the case in progress is kept in the file $HARNESS_CUR */
#include <chrono>
#include <cstring>
#include <fcntl.h>
#include <set>
#include <sys/mman.h>
#include <unistd.h>
#include "core.h"
#include "logger.h"
#include "cache.h"
namespace h {
std::map<std::string, std::vector<std::pair<std::string, Case>>>& registry() { static std::map<std::string, std::vector<std::pair<std::string, Case>>> r; return r; }
}
struct Quiet : tsym::Logger {
    void warning(const Message&) const override {}
    void error(const Message&) const override {}
    void critical(const Message&) const override {}
};
int main(int argc, char** argv)
{
    if (argc < 6) { for (auto& [p, v] : h::registry()) for (auto& c : v) printf("%s %s\n", p.c_str(), c.first.c_str()); return 0; }
    const std::string prop = argv[1];
    const uint64_t seed = strtoull(argv[2], nullptr, 10), first = strtoull(argv[3], nullptr, 10), n = strtoull(argv[4], nullptr, 10);
    const double secs = atof(argv[5]);
    const auto& cases = h::registry()[prop];
    if (cases.empty()) { fprintf(stderr, "no cases for %s\n", prop.c_str()); return 9; }
    char* cur = nullptr;
    if (const char* f = getenv("HARNESS_CUR")) {
        int fd = open(f, O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (ftruncate(fd, 4096) == 0) cur = (char*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    }
    tsym::Logger::setInstance(std::make_unique<Quiet>());
    const auto t0 = std::chrono::steady_clock::now();
    std::map<std::string, uint64_t> counters;
    uint64_t i = first, done = 0;
    for (; i < first + n; ++i, ++done) {
        if (secs > 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
        const auto& c = cases[i % cases.size()];
        if (cur) snprintf(cur, 4096, "%llu %s\n", (unsigned long long)i, c.first.c_str());
        if (done % 4000 == 3999) tsym::clearRegisteredCaches();
        h::Ctx ctx(seed, i);
        try {
            c.second(ctx);
            counters["case " + c.first]++;
        } catch (const h::Failure& f) {
            printf("FAIL case=%llu kind=%s: %s\n", (unsigned long long)i, c.first.c_str(), f.what.c_str());
            return 3;
        } catch (const std::exception& e) {
            printf("FAIL case=%llu kind=%s: exception %s\n", (unsigned long long)i, c.first.c_str(), e.what());
            return 3;
        }
        for (auto& [k, v] : ctx.counters) counters[k] += v;
    }
    printf("DONE cases=%llu next=%llu", (unsigned long long)done, (unsigned long long)i);
    for (auto& [k, v] : counters) printf(";%s=%llu", k.c_str(), (unsigned long long)v);
    printf("\n");
    return 0;
}
