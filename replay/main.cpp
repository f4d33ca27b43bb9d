#include "hc.hpp"
std::ostringstream D;
bool nontrivial;
std::vector<Suite> &suites() {
    static std::vector<Suite> s;
    return s;
}
static std::string cur_name;
static long cur_case;
static std::string scratch;
std::string scratch_dir() { return scratch; }

static void crashed(int sig) {
    std::string d = D.str();
    char b[256];
    auto put = [](const std::string &s) { (void)!write(1, s.data(), s.size()); };
    put("FAIL " + cur_name + " ");
    snprintf(b, sizeof b, "%ld", cur_case);
    put(b);
    snprintf(b, sizeof b, "\nWHAT the code under test ended with signal %d (%s)\n", sig, sig == SIGILL ? "arithmetic overflow trap" : sig == SIGABRT ? "assertion or abort" : sig == SIGALRM ? "no answer in time" : "memory fault");
    put(b);
    put("INPUT " + d + "\n");
    _exit(1);
}

// usage: h PROP SEED SECONDS SCRATCH [CASE [NAME]]
int main(int argc, char **argv) {
    if (argc < 5)
        return 2;
    std::string prop = argv[1];
    uint64_t seed = strtoull(argv[2], nullptr, 10);
    double secs = atof(argv[3]);
    scratch = argv[4];
    long only = argc > 5 ? atol(argv[5]) : -1;
    Suite *s = nullptr;
    for (auto &x : suites())
        if (x.prop == prop)
            s = &x;
    if (!s)
        return 2;
    for (int sig : {SIGSEGV, SIGBUS, SIGILL, SIGABRT, SIGFPE, SIGALRM})
        signal(sig, crashed);
    auto t0 = std::chrono::steady_clock::now();
    std::unordered_set<size_t> seen;
    long evals = 0, distinct = 0;
    std::vector<std::string> samples;
    // the progress bar of the code under test writes to stdout
    int out = dup(1);
    for (long i = only >= 0 ? only : 0;; ++i) {
        if (only < 0 && (i & 15) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs)
            break;
        auto &c = s->cases[i % s->cases.size()];
        cur_name = c.first;
        cur_case = i;
        D.str("");
        nontrivial = true;
        Rng r{seed * 1000003u + (uint64_t)i * 7919u + 12345};
        r.next();
        alarm(20);
        try {
            c.second(r);
        } catch (const Failure &f) {
            std::ostringstream o;
            o << "FAIL " << c.first << " " << i << "\nWHAT " << f.what << "\nINPUT " << D.str() << "\n";
            (void)!write(out, o.str().data(), o.str().size());
            _exit(1);
        } catch (const std::exception &e) {
            std::ostringstream o;
            o << "FAIL " << c.first << " " << i << "\nWHAT unexpected exception: " << e.what() << "\nINPUT " << D.str() << "\n";
            (void)!write(out, o.str().data(), o.str().size());
            _exit(1);
        }
        alarm(0);
        ++evals;
        if (nontrivial && seen.size() < 2000000 && seen.insert(std::hash<std::string>()(c.first + D.str())).second)
            ++distinct;
        if (samples.size() < 3 && nontrivial)
            samples.push_back(c.first + ": " + D.str().substr(0, 300));
        if (only >= 0)
            break;
    }
    std::ostringstream o;
    o << "OK " << evals << " " << distinct << "\n";
    for (auto &x : samples)
        o << "SAMPLE " << x << "\n";
    (void)!write(out, o.str().data(), o.str().size());
    _exit(0);
}
