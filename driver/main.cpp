#ifdef VP_COVERAGE
extern "C" void __gcov_dump();
#define VP_LEAVE __gcov_dump()
#else
#define VP_LEAVE
#endif
#include "driver.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <fstream>
#include <iostream>
#include <stdexcept>

std::map<std::string, Op>& ops() { static std::map<std::string, Op> m; return m; }

struct Shared { volatile long sc; volatile long ev; };

static bool same(const J& a, const J& b) { std::string x, y; a.print(x); b.print(y); return x == y; }

static J runEvent(const J& e, Ctx& x)
{
    J r = e;
    auto it = ops().find(e["op"].s);
    if (it == ops().end()) { fprintf(stderr, "driver: unknown op %s\n", e["op"].s.c_str()); _exit(99); }
    // inputs this event refers to: they must be bitwise unchanged afterwards
    std::vector<std::pair<const LN_NurbsCurve*, J>> bc;
    std::vector<std::pair<const LN_NurbsSurface*, J>> bs;
    std::vector<std::pair<const LN_NurbsVolume*, J>> bv;
    for (auto& kv : e.o)
    {
        auto note = [&](const J& ref, char kind) {
            if (ref.k != J::INT) return;
            if (kind == 'c' && x.C.count(ref.n())) bc.push_back({ &x.C[ref.n()], out(x.C[ref.n()]) });
            if (kind == 's' && x.S.count(ref.n())) bs.push_back({ &x.S[ref.n()], out(x.S[ref.n()]) });
            if (kind == 'v' && x.V.count(ref.n())) bv.push_back({ &x.V[ref.n()], out(x.V[ref.n()]) });
        };
        if (kv.first.size() <= 2 && (kv.first[0] == 'c' || kv.first[0] == 's' || kv.first[0] == 'v'))
        {
            if (kv.second.k == J::ARR) for (auto& y : kv.second.a) note(y, kv.first[0]);
            else note(kv.second, kv.first[0]);
        }
    }
    std::string exc;
    J res = J::obj();
    try { res = it->second(e, x); }
    catch (const std::out_of_range& ex) { exc = std::string(ex.what()).find("vector::") == 0 || std::string(ex.what()).find("map::") == 0 ? "stl_out_of_range" : "out_of_range"; }
    catch (const std::invalid_argument& ex) { exc = "invalid_argument"; }
    catch (const std::logic_error& ex) { if (std::string(ex.what()).find("driver:") == 0) { fprintf(stderr, "%s in %s\n", ex.what(), e["op"].s.c_str()); _exit(99); } exc = std::string("logic_error"); }
    catch (const std::bad_alloc&) { exc = "bad_alloc"; }
    catch (const std::exception& ex) { exc = std::string("exception"); }
    catch (...) { exc = "unknown"; }
    bool mod = false;
    for (auto& p : bc) if (!same(out(*p.first), p.second)) mod = true;
    for (auto& p : bs) if (!same(out(*p.first), p.second)) mod = true;
    for (auto& p : bv) if (!same(out(*p.first), p.second)) mod = true;
    r.set("x", exc).set("mod", mod).set("r", res);
    return r;
}

int main(int argc, char** argv)
{
    // driver IN OUT [seconds per scenario]
    if (argc < 3) return 99;
    int limit = argc > 3 ? atoi(argv[3]) : 30;
    std::vector<std::string> lines;
    { std::ifstream in(argv[1]); std::string l; while (std::getline(in, l)) if (!l.empty()) lines.push_back(l); }
    FILE* of = fopen(argv[2], "w");
    if (!of) return 99;
    Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    size_t start = 0;
    int crashes = 0;
    while (start < lines.size())
    {
        fflush(of);
        sh->sc = (long)start; sh->ev = 0;
        pid_t pid = fork();
        if (pid < 0) return 99;
        if (pid == 0)
        {
            rlimit rl{ 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
            rlimit as{ 3ul << 30, 3ul << 30 }; setrlimit(RLIMIT_AS, &as);
            for (size_t n = start; n < lines.size(); n++)
            {
                sh->sc = (long)n; sh->ev = 0;
                const char* p = lines[n].c_str();
                J sc = J::parse(p);
                Ctx x;
                J evs = J::arr();
                for (size_t m = 0; m < sc["ev"].size(); m++)
                {
                    sh->ev = (long)m;
                    x.cur = (int)m + 1;
                    alarm(limit);
                    evs.push(runEvent(sc["ev"].at(m), x));
                    alarm(0);
                }
                J o = sc;
                o.set("ev", evs);
                std::string txt; o.print(txt); txt += "\n";
                fputs(txt.c_str(), of);
                fflush(of);
            }
            fflush(of);
            VP_LEAVE; _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 99) { fclose(of); return 99; }
        long n = sh->sc, m = sh->ev;
        const char* p = lines[n].c_str();
        J sc = J::parse(p);
        J e = sc["ev"].at(m);
        std::string why = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "timeout" : "signal" + std::to_string(WTERMSIG(st))) : "exit" + std::to_string(WEXITSTATUS(st));
        e.set("x", "crash:" + why).set("mod", false).set("r", J::obj()).set("at", (int)m + 1);
        J evs = J::arr(); evs.push(e);
        J o = sc; o.set("ev", evs);
        std::string txt; o.print(txt); txt += "\n";
        fseek(of, 0, SEEK_END);
        fputs(txt.c_str(), of);
        fflush(of);
        start = n + 1;
        if (++crashes >= 6) { fprintf(stderr, "driver: too many crashes, stopping this shard\n"); break; }
    }
    fclose(of);
    return 0;
}
