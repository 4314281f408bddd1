// Differential replay harness: random or given operation sequences on the real library against the reference simulator.
// usage: diff search SEED SECONDS key=value...   keys: stacks=a,b groups=g,h ops=x,y n=max len=max focus=op,op init=p|r|pr
//        diff run "<case>"
// case:  stack/psN|n|init|Op:arg,arg;Op:...     init: p<perm> or r<seed>,<sparsity>
#include "ops3.hpp"
#include "qbase.hpp"
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <time.h>
static double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}
struct Case {
    std::string stack;
    int ps = -1, n = 0;
    std::string init;
    u64 seed = 1;
    std::vector<std::pair<std::string, A>> ops;
    std::string str() const
    {
        std::ostringstream o;
        o.precision(17);
        o << stack;
        if (ps >= 0)
            o << "/ps" << ps;
        o << "|" << n << "|" << init << "|" << seed << "|";
        for (size_t i = 0; i < ops.size(); i++) {
            o << (i ? ";" : "") << ops[i].first << ":";
            for (size_t j = 0; j < ops[i].second.size(); j++)
                o << (j ? "," : "") << ops[i].second[j];
        }
        return o.str();
    }
    static Case parse(const std::string& s)
    {
        Case c;
        std::vector<std::string> f(1);
        for (char ch : s) {
            if (ch == '|')
                f.push_back("");
            else
                f.back() += ch;
        }
        f.resize(5);
        size_t p = f[0].find("/ps");
        c.stack = f[0].substr(0, p);
        if (p != std::string::npos)
            c.ps = atoi(f[0].c_str() + p + 3);
        c.n = atoi(f[1].c_str());
        c.init = f[2];
        c.seed = strtoull(f[3].c_str(), 0, 10);
        std::stringstream ss(f[4]);
        std::string t;
        while (std::getline(ss, t, ';')) {
            size_t k = t.find(':');
            A a;
            std::stringstream as(t.substr(k + 1));
            std::string x;
            while (std::getline(as, x, ','))
                a.push_back(strtod(x.c_str(), 0));
            c.ops.push_back({ t.substr(0, k), a });
        }
        return c;
    }
};
static bool isCliff(const std::string& s) { return s == "stab" || s == "qclif"; }
static Q build(const std::string& s, int n, u64 perm, u64 seed)
{
    auto rng = std::make_shared<qrack_rand_gen>((uint32_t)seed);
    typedef std::vector<QInterfaceEngine> V;
    V e;
    bool norm = false, rgph = true;
    if (s == "cpu") { e = { QINTERFACE_CPU }; rgph = false; }
    else if (s == "base") e = { QINTERFACE_CPU };
    else if (s == "cpun") { e = { QINTERFACE_CPU }; norm = true; }
    else if (s == "stab") e = { QINTERFACE_STABILIZER };
    else if (s == "qclif") e = { QINTERFACE_QUNIT_CLIFFORD };
    else if (s == "sh") e = { QINTERFACE_STABILIZER_HYBRID, QINTERFACE_CPU };
    else if (s == "qunit") e = { QINTERFACE_QUNIT, QINTERFACE_CPU };
    else if (s == "qush") e = { QINTERFACE_QUNIT, QINTERFACE_STABILIZER_HYBRID, QINTERFACE_CPU };
    else if (s == "bdt") e = { QINTERFACE_BDT, QINTERFACE_CPU };
    else if (s == "bdth") e = { QINTERFACE_BDT_HYBRID, QINTERFACE_CPU };
    else if (s == "tn") e = { QINTERFACE_TENSOR_NETWORK, QINTERFACE_QUNIT, QINTERFACE_STABILIZER_HYBRID, QINTERFACE_CPU };
    else if (s == "tnc") e = { QINTERFACE_TENSOR_NETWORK, QINTERFACE_CPU };
    else throw std::logic_error("unknown stack " + s);
    if (s == "base")
        return std::make_shared<QBase>(CreateQuantumInterface(e, (bitLenInt)n, (bitCapInt)perm, rng, ONE_CMPLX, false, false, false, (int64_t)-1, false, false), rng, false);
    return CreateQuantumInterface(e, (bitLenInt)n, (bitCapInt)perm, rng, ONE_CMPLX, norm, rgph, false, (int64_t)-1, false, false);
}
#include "known.hpp"
static std::string execCase(const Case& c, int* nops = nullptr)
{
    if (c.ps >= 0)
        setenv("QRACK_PSTRIDEPOW", std::to_string(c.ps).c_str(), 1);
    else
        unsetenv("QRACK_PSTRIDEPOW");
    u64 sd = c.seed;
    MAKE = [&c, &sd](int n, u64 p) { return build(c.stack, n, p, ++sd); };
    Ref r(c.n);
    std::string at = "setup";
    try {
        Q q;
        if (c.init[0] == 'p') {
            u64 p = strtoull(c.init.c_str() + 1, 0, 10);
            q = MAKE(c.n, p);
            r = Ref(c.n, p);
        } else {
            char* e;
            u64 s = strtoull(c.init.c_str() + 1, &e, 10);
            double sp = *e == ',' ? strtod(e + 1, 0) : 0;
            std::mt19937_64 g(s);
            r.random(g, sp);
            q = MAKE(c.n, 0);
            std::vector<complex> v;
            for (auto& x : r.a)
                v.push_back(cc(x));
            q->SetQuantumState(v.data());
        }
        bool exact = c.stack == "cpu" || c.stack == "base";
        for (auto& o : c.ops) {
            at = o.first;
            auto it = OPS.find(o.first);
            if (it == OPS.end())
                return "unknown operation " + o.first;
            A out = it->second.real(q, o.second);
            if (nops)
                ++*nops;
            std::string e = it->second.ref(r, o.second, out);
            if (e == "RESYNC") {
                r.a = grab(q);
                continue;
            }
            if (e.size())
                return "after " + o.first + ": " + e;
            if (it->second.group.find("gph") != std::string::npos || it->second.group.find("comp") != std::string::npos || it->second.group.find("meas") != std::string::npos ||
                it->second.group.find("tryd") != std::string::npos || it->second.group.find("logic") != std::string::npos ||
                it->second.group.find("add") != std::string::npos || it->second.group.find("alu") != std::string::npos ||
                it->second.group.find("state") != std::string::npos)
                exact = false;
        }
        at = "final state";
        if (q->GetQubitCount() != r.n)
            return "qubit count is " + std::to_string((int)q->GetQubitCount()) + ", expected " + std::to_string(r.n);
        auto v = grab(q);
        double d = maxdiff(v, r.a, !exact);
        if (d > 2e-3) {
            char b[120];
            snprintf(b, sizeof b, "final amplitudes differ by %.4g%s", d, exact ? " (global phase included)" : " (up to global phase)");
            return b;
        }
    } catch (std::logic_error& e) {
        if (std::string(e.what()) == "no ALU")
            return "";
        return "unexpected exception at " + at + ": " + e.what();
    } catch (std::exception& e) {
        return "unexpected exception at " + at + ": " + e.what();
    }
    return "";
}
struct Opt {
    std::vector<std::string> stacks{ "cpu" }, groups, ops, focus, excl;
    int n = 6, len = 4;
    bool hunt = false;
    std::string init = "pr";
};
static std::vector<std::string> split(const std::string& s)
{
    std::vector<std::string> v;
    std::stringstream ss(s);
    std::string t;
    while (std::getline(ss, t, ','))
        if (t.size())
            v.push_back(t);
    return v;
}
static bool inGroup(const Op& o, const std::string& g)
{
    std::stringstream ss(o.group);
    std::string t;
    while (ss >> t)
        if (t == g)
            return true;
    return false;
}
static std::vector<std::string> KNOWNL; // conditions recorded in known_findings.jsonl
static bool excluded(const Case& c, int n, const std::string& op, const A& a)
{
    for (auto& k : KNOWNTAB)
        if (k.hit(c.stack, n, op, a))
            return true;
    return false;
}
static Case genCase(std::mt19937_64& r, const Opt& o)
{
    Case c;
    Gen g{ r, 0, false };
    c.stack = o.stacks[g.pick(o.stacks.size())];
    g.cliff = isCliff(c.stack);
    if (g.pick(2))
        c.ps = g.pick(4);
    c.n = 1 + g.pick(o.n);
    if (c.n < 3 && g.pick(2))
        c.n = std::min(o.n, 3 + g.pick(3));
    // when looking for an input for failed obligations: now and then a wide register (never in a run without failures)
    bool wide = o.hunt && o.groups.size() == 1 && o.groups[0] == "prob" && !g.cliff && (c.stack == "cpu" || c.stack == "cpun") && g.pick(40) == 0;
    if (wide)
        c.n = 15 + g.pick(4);
    c.seed = 1 + r() % 100000;
    if (!wide && !g.cliff && o.init.find('r') != std::string::npos && (o.init == "r" || g.pick(2))) {
        c.init = "r" + std::to_string(r() % 100000);
        if (g.pick(3) == 0)
            c.init += ",0.5";
    } else
    {
        u64 p = r() & msk(c.n);
        c.init = "p" + std::to_string(p);
        if (wide)
            g.hint = (long long)p;
    }
    int len = wide ? 1 : 1 + g.pick(o.len), n = c.n;
    std::vector<std::string> pool, prep;
    for (auto& nm : ORDER) {
        const Op& p = OPS[nm];
        bool in = o.groups.empty() && o.ops.empty();
        for (auto& gr : o.groups)
            in = in || inGroup(p, gr);
        for (auto& x : o.ops)
            in = in || x == nm;
        for (auto& x : o.excl)
            in = in && x != nm && !inGroup(p, x);
        if (g.cliff && !(inGroup(p, "cliff") || inGroup(p, "meas") || inGroup(p, "measall") || inGroup(p, "prob") || inGroup(p, "comp") || inGroup(p, "clone") || inGroup(p, "state")))
            in = false;
        if (in)
            pool.push_back(nm);
        if (inGroup(p, "cliff") && !inGroup(p, "reg"))
            prep.push_back(nm);
    }
    if (pool.empty())
        return c;
    // from a basis state, prepare superposition first
    bool needprep = c.init[0] == 'p';
    int np = wide ? 2 : needprep ? g.pick(2 * c.n + 3) : 0;
    for (int i = 0; i < np + len; i++) {
        std::string nm;
        if (i < np)
            nm = (g.pick(2) || prep.empty()) ? "H" : prep[g.pick(prep.size())];
        else if (!o.focus.empty() && g.pick(2)) {
            nm = o.focus[g.pick(o.focus.size())];
            if (std::find(pool.begin(), pool.end(), nm) == pool.end())
                nm = pool[g.pick(pool.size())];
        } else
            nm = pool[g.pick(pool.size())];
        g.n = n;
        A a;
        const Op& p = OPS[nm];
        if (n < 1 || !p.gen(g, a))
            continue;
        if (excluded(c, n, nm, a))
            continue;
        c.ops.push_back({ nm, a });
        if (nm == "Compose" || nm == "ComposeNoClone" || nm == "Allocate")
            n += (int)a[0];
        if (nm == "TryDecomposeEntangled")
            n += 2;
        if (nm == "ComposePending")
            n += (int)a[0];
        if (nm == "ComposeVec")
            for (int k = 0; k < (int)a[0]; k++)
                n += (int)a[1 + 2 * k];
        if (inGroup(p, "measall"))
            break;
    }
    return c;
}
static Case shrink(Case c, std::string& why)
{
    double t0 = now();
    bool go = true;
    while (go && now() - t0 < 20) {
        go = false;
        for (size_t i = c.ops.size(); i-- > 0 && now() - t0 < 20;) {
            Case d = c;
            d.ops.erase(d.ops.begin() + i);
            std::string w = execCase(d);
            if (w.size() && w.find("unknown operation") == std::string::npos && w.find("nexpected exception") == std::string::npos) {
                c = d;
                why = w;
                go = true;
            }
        }
    }
    return c;
}
int main(int argc, char** argv)
{
    opsGates();
    opsMeas();
    opsAlu();
    opsStruct();
    std::string mode = argc > 1 ? argv[1] : "";
    if (mode == "run" && argc > 2) {
        std::string w = execCase(Case::parse(argv[2]));
        printf("%s%s\n", w.size() ? "FAIL " : "OK", w.c_str());
        return w.size() ? 1 : 0;
    }
    if (mode == "list") {
        for (auto& n : ORDER)
            printf("%s [%s]\n", n.c_str(), OPS[n].group.c_str());
        return 0;
    }
    if (mode != "search" || argc < 4)
        return 2;
    u64 seed = strtoull(argv[2], 0, 10);
    double secs = atof(argv[3]);
    Opt o;
    for (int i = 4; i < argc; i++) {
        std::string s = argv[i];
        size_t e = s.find('=');
        if (e == std::string::npos) {
            if (OPS.count(s))
                o.focus.push_back(s);
            continue;
        }
        std::string k = s.substr(0, e), v = s.substr(e + 1);
        if (k == "stacks") o.stacks = split(v);
        else if (k == "groups") o.groups = split(v);
        else if (k == "ops") o.ops = split(v);
        else if (k == "excl") o.excl = split(v);
        else if (k == "n") o.n = atoi(v.c_str());
        else if (k == "len") o.len = atoi(v.c_str());
        else if (k == "init") o.init = v;
        else if (k == "hunt") o.hunt = true;
        else if (k == "focus") {
            // names of functions with failed obligations: prefer the operations named after them
            for (auto& f : split(v))
                for (auto& nm : ORDER)
                    if (nm == f || (f.size() > 3 && nm.compare(0, f.size(), f) == 0))
                        o.focus.push_back(nm);
        }
        else if (k == "case") {
            // a concrete case proposed by the verifier: run it first
            std::string w = execCase(Case::parse(v));
            if (w.size()) {
                printf("FAIL %s => %s\n", v.c_str(), w.c_str());
                return 1;
            }
        }
    }
    MAXN = o.n + 2;
    std::string kl = getenv("KNOWN_CASES") ? getenv("KNOWN_CASES") : "";
    {
        std::stringstream ss(kl);
        std::string t;
        while (std::getline(ss, t, ';'))
            KNOWNL.push_back(t);
    }
    for (auto& k : KNOWNTAB) {
        if (std::find(KNOWNL.begin(), KNOWNL.end(), k.name) == KNOWNL.end())
            continue; // belongs to another property
        std::string w = execCase(Case::parse(k.demo));
        if (w.size())
            printf("KNOWN %s\n", k.name.c_str());
    }
    fflush(stdout);
    const int W = getenv("WORKERS") ? atoi(getenv("WORKERS")) : 8;
    double t0 = now();
    struct Wk { pid_t pid; int fd; std::string buf, last; bool done = false; };
    std::vector<Wk> ws(W);
    for (int w = 0; w < W; w++) {
        int fd[2];
        if (pipe(fd)) return 3;
        pid_t pid = fork();
        if (!pid) {
            close(fd[0]);
            FILE* f = fdopen(fd[1], "w");
            std::mt19937_64 r(seed * 1000003 + w * 7919 + 17);
            long cases = 0;
            int nops = 0;
            std::map<std::string, long> cnt;
            std::set<std::string> shapes;
            std::string sample;
            while (now() - t0 < secs) {
                Case c = genCase(r, o);
                if (c.ops.empty())
                    continue;
                std::string cs = c.str();
                fprintf(f, "CASE %s\n", cs.c_str());
                fflush(f);
                alarm(60);
                std::string why = execCase(c, &nops);
                alarm(0);
                cases++;
                std::string sh = c.stack;
                for (auto& p : c.ops) {
                    cnt[p.first]++;
                    sh += " " + p.first;
                }
                shapes.insert(sh);
                if (why.size()) {
                    fprintf(f, "PRE %s => %s\n", cs.c_str(), why.c_str());
                    fflush(f);
                    alarm(120);
                    c = shrink(c, why);
                    fprintf(f, "FAIL %s => %s\n", c.str().c_str(), why.c_str());
                    fflush(f);
                    _exit(1);
                }
                if (sample.empty() && cases == 5)
                    sample = cs;
            }
            fprintf(f, "STAT %ld %d %zu %zu %s\n", cases, nops, shapes.size(), cnt.size(), sample.c_str());
            for (auto& kv : cnt)
                fprintf(f, "CNT %s %ld\n", kv.first.c_str(), kv.second);
            fflush(f);
            _exit(0);
        }
        close(fd[1]);
        ws[w].pid = pid;
        ws[w].fd = fd[0];
    }
    long cases = 0, nops = 0, shapes = 0;
    std::map<std::string, long> cnt;
    std::string sample, fail;
    int open = W;
    while (open) {
        std::vector<pollfd> pf;
        std::vector<int> ix;
        for (int w = 0; w < W; w++)
            if (!ws[w].done) {
                pf.push_back({ ws[w].fd, POLLIN, 0 });
                ix.push_back(w);
            }
        poll(pf.data(), pf.size(), 1000);
        for (size_t i = 0; i < pf.size(); i++) {
            if (!pf[i].revents)
                continue;
            Wk& k = ws[ix[i]];
            char b[65536];
            ssize_t m = read(k.fd, b, sizeof b);
            if (m > 0) {
                k.buf.append(b, m);
                size_t p;
                while ((p = k.buf.find('\n')) != std::string::npos) {
                    std::string l = k.buf.substr(0, p);
                    k.buf.erase(0, p + 1);
                    if (l.compare(0, 5, "CASE ") == 0)
                        k.last = l.substr(5);
                    else if (l.compare(0, 4, "PRE ") == 0)
                        k.last = l.substr(4);
                    else if (l.compare(0, 5, "FAIL ") == 0) {
                        if (fail.empty())
                            fail = l.substr(5);
                        printf("%s\n", l.c_str());
                        fflush(stdout);
                    } else if (l.compare(0, 5, "STAT ") == 0) {
                        std::stringstream ss(l.substr(5));
                        long a, bb, c2, d;
                        ss >> a >> bb >> c2 >> d;
                        std::string sm;
                        std::getline(ss, sm);
                        cases += a;
                        nops += bb;
                        shapes += c2;
                        if (sample.empty())
                            sample = sm;
                    } else if (l.compare(0, 4, "CNT ") == 0) {
                        std::stringstream ss(l.substr(4));
                        std::string nm;
                        long x;
                        ss >> nm >> x;
                        cnt[nm] += x;
                    }
                }
            } else {
                int st;
                waitpid(k.pid, &st, 0);
                k.done = true;
                open--;
                close(k.fd);
                if (WIFSIGNALED(st)) {
                    printf("FAIL %s => the real code was killed by signal %d%s\n", k.last.c_str(), WTERMSIG(st), WTERMSIG(st) == SIGALRM ? " (no result within 60 s)" : "");
                    if (fail.empty())
                        fail = k.last;
                }
            }
        }
        if (fail.size() && !getenv("KEEP_GOING")) {
            for (auto& k : ws)
                if (!k.done)
                    kill(k.pid, SIGKILL);
            break;
        }
    }
    printf("COV {\"evaluations\": %ld, \"operations\": %ld, \"distinct_nontrivial\": %ld, \"operations_covered\": %zu, \"rule\": \"random operation sequences on the real library compared with a dense double-precision reference; distinct = distinct (stack, operation sequence) shapes\", \"samples\": [\"%s\"], \"least_covered\": {", cases, nops, shapes, cnt.size(), sample.c_str());
    std::vector<std::pair<long, std::string>> lc;
    for (auto& kv : cnt)
        lc.push_back({ kv.second, kv.first });
    std::sort(lc.begin(), lc.end());
    for (size_t i = 0; i < lc.size() && i < 6; i++)
        printf("%s\"%s\": %ld", i ? ", " : "", lc[i].second.c_str(), lc[i].first);
    printf("}}\n");
    return fail.empty() ? 0 : 1;
}
