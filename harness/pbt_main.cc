// pbt_main.cc - the driver of the engine in pbt.h: workers, confirmation, shrinking, replay
// files and evidence; or the libFuzzer entry point if PBT_FUZZ is defined.
#include "pbt.h"

namespace pbt {

#ifndef PBT_FUZZ

struct Slot
{
    std::atomic<std::uint64_t> cur;     // index+1 of the running case, 0 = none
    std::atomic<std::uint64_t> done;    // completed cases
    std::atomic<std::uint64_t> started_ms;
    std::atomic<int> failed;            // 1 = oracle failure, message in msg
    std::uint32_t cur_facet;
    std::atomic<int> finished;
    char msg[4096];
};

inline std::uint64_t now_ms()
{
    return static_cast<std::uint64_t>(std::chrono::duration_cast<std::chrono::milliseconds>(
        std::chrono::steady_clock::now().time_since_epoch()).count());
}

inline void seed_ctx(Ctx& c, std::uint64_t seed, std::size_t facet, std::uint64_t index)
{
    c.mode = Ctx::Mode::random;
    c.rng.s = mix(mix(seed, facet + 1), index + 1);
}

struct Attempt { bool failed; bool hang; std::string msg; };

struct ShmMsg { std::atomic<int> state; char msg[8192]; };

/// Run one case (given by its choices) in a forked child.
inline Attempt attempt(std::size_t facet, const std::vector<std::uint64_t>& choices,
    unsigned timeout_s, bool verbose, int tier, std::string* log_out,
    std::vector<std::uint64_t>* used_out = nullptr)
{
    static ShmMsg* shm = static_cast<ShmMsg*>(mmap(nullptr, sizeof(ShmMsg) + (1 << 20),
        PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    char* big = reinterpret_cast<char*>(shm) + sizeof(ShmMsg);
    shm->state = 0;
    shm->msg[0] = 0;
    big[0] = 0;
    std::fflush(nullptr);

    char errname[] = "/tmp/pbt_err_XXXXXX";
    int errfd = mkstemp(errname);
    if (errfd >= 0) unlink(errname);

    pid_t pid = fork();
    if (pid == 0)
    {
        setpgid(0, 0);
        if (errfd >= 0) { dup2(errfd, 2); dup2(errfd, 1); }
        rlimit rl{ 0, 0 };
        setrlimit(RLIMIT_CORE, &rl);
        Ctx c;
        c.mode = Ctx::Mode::replay;
        c.choices = choices;
        c.verbose = verbose;
        c.tier = tier;
        c.live_log = big;
        c.live_cap = 1 << 20;
        std::string m = run_case(facets()[facet], c);
        if (!m.empty())
        {
            std::snprintf(shm->msg, sizeof shm->msg, "%s", m.c_str());
            shm->state = 2;
            _exit(3);
        }
        shm->state = 1;
        _exit(0);
    }
    const std::uint64_t t0 = now_ms();
    int status = 0;
    Attempt a{ false, false, {} };
    unsigned spins = 0;
    while (true)
    {
        pid_t r = waitpid(pid, &status, WNOHANG);
        if (r == pid) break;
        if (now_ms() - t0 > timeout_s * 1000ull)
        {
            kill(-pid, SIGKILL);
            kill(pid, SIGKILL);
            waitpid(pid, &status, 0);
            a.failed = true;
            a.hang = true;
            a.msg = "hang: the case did not finish within " + std::to_string(timeout_s) + " s";
            break;
        }
        usleep(spins++ < 200 ? 50 : 2000);
    }
    if (!a.failed)
    {
        int st = shm->state;
        if (st == 1 && WIFEXITED(status) && WEXITSTATUS(status) == 0) {}
        else if (st == 2) { a.failed = true; a.msg = shm->msg; }
        else
        {
            a.failed = true;
            std::ostringstream os;
            os << "the process died ";
            if (WIFSIGNALED(status)) os << "(signal " << WTERMSIG(status) << ")";
            else os << "(exit status " << WEXITSTATUS(status) << ")";
            if (errfd >= 0)
            {
                std::string err;
                char buf[4096];
                lseek(errfd, 0, SEEK_SET);
                ssize_t n;
                while ((n = read(errfd, buf, sizeof buf)) > 0 && err.size() < 100000)
                    err.append(buf, static_cast<std::size_t>(n));
                std::istringstream is(err);
                std::string line;
                int kept = 0;
                while (std::getline(is, line) && kept < 25)
                {
                    if (line.find_first_not_of(" \t=") == std::string::npos) continue;
                    os << "\n    " << line.substr(0, 300);
                    ++kept;
                }
            }
            a.msg = os.str();
        }
    }
    if (errfd >= 0) close(errfd);
    if (log_out) *log_out = big;
    (void)used_out;
    return a;
}

struct Options
{
    std::string prop = "X00", tier = "quick", evidence, replay_dir = ".", replay, technique;
    std::uint64_t seed = 1;
    double scale = 1.0;
    std::string level = "exploration";
    std::string only;
    std::string tag;
    std::string from_bytes; ///< a libFuzzer input to confirm, shrink and report
    bool stats = false;
};

inline std::string json(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char ch : s)
    {
        char b[8];
        switch (ch)
        {
        case '"': r += "\\\""; break;
        case '\\': r += "\\\\"; break;
        case '\n': r += "\\n"; break;
        default:
            if (ch < 32 || ch >= 127) { std::snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
            else r += static_cast<char>(ch);
        }
    }
    return r + "\"";
}

inline std::vector<std::uint64_t> shrink(std::size_t facet, std::vector<std::uint64_t> best,
    std::string& msg, unsigned hang_s, int tier, bool was_hang, bool concurrent)
{
    const std::uint64_t t0 = now_ms();
    const std::uint64_t budget_ms = was_hang ? 30000 : 30000;
    const unsigned to = was_hang ? std::min(hang_s, 5u) : hang_s;
    unsigned tries = 0;
    const int reps = concurrent ? 3 : 1;
    auto still = [&](const std::vector<std::uint64_t>& c) {
        if (tries > 4000 || now_ms() - t0 > budget_ms) return false;
        for (int i = 0; i < reps; ++i)
        {
            ++tries;
            Attempt a = attempt(facet, c, to, false, tier, nullptr);
            if (a.failed && (a.hang == was_hang)) { msg = a.msg; return true; }
        }
        return false;
    };
    // A trailing run of zeros is equivalent to nothing.
    auto trim = [](std::vector<std::uint64_t> v) {
        while (!v.empty() && v.back() == 0) v.pop_back();
        return v;
    };
    best = trim(best);
    bool progress = true;
    while (progress && now_ms() - t0 < budget_ms && tries <= 4000)
    {
        progress = false;
        // 1. delete blocks
        for (std::size_t k = std::max<std::size_t>(1, best.size() / 2); k >= 1; k /= 2)
        {
            for (std::size_t i = 0; i + k <= best.size();)
            {
                auto cand = best;
                cand.erase(cand.begin() + static_cast<std::ptrdiff_t>(i),
                    cand.begin() + static_cast<std::ptrdiff_t>(i + k));
                if (still(cand)) { best = trim(cand); progress = true; }
                else i += k;
                if (now_ms() - t0 > budget_ms) break;
            }
            if (k == 1 || now_ms() - t0 > budget_ms) break;
        }
        // 2. zero blocks
        for (std::size_t k = std::max<std::size_t>(1, best.size() / 2); k >= 1; k /= 2)
        {
            for (std::size_t i = 0; i + k <= best.size(); i += k)
            {
                auto cand = best;
                bool any = false;
                for (std::size_t j = i; j < i + k; ++j) { any |= cand[j] != 0; cand[j] = 0; }
                if (any && still(cand)) { cand = trim(cand); progress = true; best = cand; }
                if (now_ms() - t0 > budget_ms) break;
            }
            if (k == 1 || now_ms() - t0 > budget_ms) break;
        }
        // 3. minimise individual values
        for (std::size_t i = 0; i < best.size() && now_ms() - t0 < budget_ms; ++i)
        {
            std::uint64_t lo = 0, hi = best[i];
            while (lo < hi)
            {
                std::uint64_t mid = lo + (hi - lo) / 2;
                auto cand = best;
                cand[i] = mid;
                if (still(cand)) { best = cand; hi = mid; progress = true; }
                else lo = mid + 1;
                if (i >= best.size()) break;
            }
            best = trim(best);
        }
    }
    return best;
}

inline void write_replay(const std::string& path, const Options& o, std::size_t facet,
    const std::vector<std::uint64_t>& choices, const std::string& msg, const std::string& log)
{
    std::ofstream f(path);
    f << "property " << o.prop << "\nfacet " << facets()[facet].name << "\nchoices";
    for (auto c : choices) f << ' ' << c;
    f << "\n--- failure ---\n" << msg << "\n--- case ---\n" << log << "\n";
}

struct Stats
{
    std::uint64_t evals = 0, nontrivial = 0;
    std::unordered_set<std::uint64_t> hashes;
    std::map<std::string, std::uint64_t> labels;
};


struct Fail
{
    std::size_t facet;
    std::uint64_t index;
    std::string msg;
    bool hang;
    std::vector<std::uint64_t> choices;
};

constexpr std::size_t mirror_cap = 2100000;

/// One complete generation round over all facets. Returns the failures seen.
inline std::vector<Fail> run_round(const Options& o, int tier, std::uint64_t seed,
    const std::vector<std::uint64_t>& quota, std::uint64_t t_start, Stats& all,
    std::vector<std::pair<std::uint32_t, std::uint64_t>>& samples, std::uint64_t& done)
{
    const Config& cfg = config();
    const unsigned W = cfg.workers;
    Slot* slots = static_cast<Slot*>(mmap(nullptr, sizeof(Slot) * W, PROT_READ | PROT_WRITE,
        MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::uint64_t* mirrors = static_cast<std::uint64_t*>(mmap(nullptr, mirror_cap * 8 * W,
        PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    char dirname[] = "/tmp/pbt_run_XXXXXX";
    if (slots == MAP_FAILED || mirrors == MAP_FAILED || !mkdtemp(dirname))
    {
        std::perror("pbt setup");
        std::exit(2);
    }
    const std::string dir = dirname;
    const std::uint64_t cap_ms = 1000ull * (tier ? cfg.time_cap_s_thorough : cfg.time_cap_s_quick);

    auto worker = [&](unsigned w) {
        Slot& s = slots[w];
        std::uint64_t* mirror = mirrors + mirror_cap * w;
        Stats st;
        std::vector<std::pair<std::uint32_t, std::uint64_t>> smp;
        std::vector<std::uint64_t> next(facets().size(), w);
        const std::uint64_t maxq = *std::max_element(quota.begin(), quota.end());
        const std::uint64_t rounds =
            std::min<std::uint64_t>(64, std::max<std::uint64_t>(1, maxq / W));
        bool stop = false;
        for (std::uint64_t r = 1; r <= rounds && !stop; ++r)
        {
            for (std::size_t f = 0; f < facets().size() && !stop; ++f)
            {
                const std::string flabel = "facet:" + facets()[f].name;
                std::uint64_t until = r == rounds ? quota[f] : quota[f] * r / rounds;
                std::uint64_t per_round = 0;
                for (; next[f] < until; next[f] += W)
                {
                    if (now_ms() - t_start > cap_ms) { stop = true; break; }
                    Ctx c;
                    seed_ctx(c, seed, f, next[f]);
                    c.labels = &st.labels;
                    c.tier = tier;
                    c.mirror = mirror;
                    c.mirror_cap = mirror_cap;
                    mirror[0] = 0;
                    s.cur_facet = static_cast<std::uint32_t>(f);
                    s.started_ms = now_ms();
                    s.cur = next[f] + 1;
                    std::string m = run_case(facets()[f], c);
                    if (!m.empty())
                    {
                        std::snprintf(s.msg, sizeof s.msg, "%s", m.c_str());
                        s.failed = 1;
                        _exit(3);
                    }
                    ++st.evals;
                    ++per_round;
                    s.done.fetch_add(1);
                    if (c.nontrivial_)
                    {
                        ++st.nontrivial;
                        st.hashes.insert(mix(c.hash, f));
                        if (st.nontrivial % 97 == 3 && smp.size() < 3 && w < 4)
                            smp.emplace_back(static_cast<std::uint32_t>(f), next[f]);
                    }
                }
                if (per_round) st.labels[flabel] += per_round;
            }
        }
        s.cur = 0;
        std::ofstream of(dir + "/w" + std::to_string(w), std::ios::binary);
        of << st.evals << ' ' << st.nontrivial << ' ' << st.hashes.size() << '\n';
        for (auto h : st.hashes) of << h << ' ';
        of << '\n' << st.labels.size() << '\n';
        for (auto& l : st.labels) of << l.second << ' ' << l.first << '\n';
        of << smp.size() << '\n';
        for (auto& x : smp) of << x.first << ' ' << x.second << '\n';
        of.close();
        s.finished = 1;
        std::fflush(nullptr);
        _exit(0);
    };

    std::fflush(nullptr);
    std::vector<pid_t> pids(W, -1);
    for (unsigned w = 0; w < W; ++w)
    {
        pid_t pid = fork();
        if (pid == 0)
        {
            setpgid(0, 0);
            int fd = open((dir + "/err" + std::to_string(w)).c_str(),
                O_CREAT | O_WRONLY | O_TRUNC, 0600);
            if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
            rlimit rl{ 0, 0 };
            setrlimit(RLIMIT_CORE, &rl);
            worker(w);
            _exit(0);
        }
        pids[w] = pid;
    }

    std::vector<Fail> fails;
    unsigned alive = W;
    std::uint64_t first_fail_ms = 0;
    auto add_fail = [&](unsigned w, const std::string& msg, bool hang) {
        Slot& s = slots[w];
        std::uint64_t* m = mirrors + mirror_cap * w;
        fails.push_back({ s.cur_facet, s.cur - 1, msg, hang,
            std::vector<std::uint64_t>(m + 1, m + 1 + m[0]) });
    };
    while (alive > 0)
    {
        bool any = false;
        for (unsigned w = 0; w < W; ++w)
        {
            if (pids[w] <= 0) continue;
            int status = 0;
            Slot& s = slots[w];
            pid_t r = waitpid(pids[w], &status, WNOHANG);
            if (r == pids[w])
            {
                any = true;
                pids[w] = -1;
                --alive;
                if (s.finished) continue;
                if (s.cur > 0) add_fail(w, s.failed ? s.msg : "crash", false);
                else
                {
                    std::fprintf(stderr, "pbt: worker %u died outside a case (status %d)\n", w, status);
                    std::exit(2);
                }
            }
            else if (!s.finished && s.cur > 0 && s.started_ms > 0
                && now_ms() > s.started_ms + cfg.hang_s * 1000ull)
            {
                kill(-pids[w], SIGKILL);
                kill(pids[w], SIGKILL);
                waitpid(pids[w], &status, 0);
                pids[w] = -1;
                --alive;
                any = true;
                add_fail(w, "hang", true);
            }
        }
        if (!fails.empty())
        {
            if (first_fail_ms == 0) first_fail_ms = now_ms();
            if (now_ms() - first_fail_ms > 1000) break;
        }
        if (!any) usleep(5000);
    }
    for (unsigned w = 0; w < W; ++w)
        if (pids[w] > 0)
        {
            int status;
            kill(-pids[w], SIGKILL);
            kill(pids[w], SIGKILL);
            waitpid(pids[w], &status, 0);
        }

    for (unsigned w = 0; w < W; ++w)
    {
        done += slots[w].done;
        std::ifstream f(dir + "/w" + std::to_string(w));
        std::uint64_t e, n, h;
        if (f && (f >> e >> n >> h))
        {
            all.evals += e;
            all.nontrivial += n;
            for (std::uint64_t i = 0; i < h; ++i) { std::uint64_t x; f >> x; all.hashes.insert(x); }
            std::size_t nl = 0, ns = 0;
            f >> nl;
            for (std::size_t i = 0; i < nl; ++i)
            {
                std::uint64_t cnt;
                std::string name;
                f >> cnt;
                f.get();
                std::getline(f, name);
                all.labels[name] += cnt;
            }
            f >> ns;
            for (std::size_t i = 0; i < ns; ++i)
            {
                std::uint32_t a;
                std::uint64_t b;
                f >> a >> b;
                samples.emplace_back(a, b);
            }
        }
        f.close();
        unlink((dir + "/w" + std::to_string(w)).c_str());
        unlink((dir + "/err" + std::to_string(w)).c_str());
    }
    rmdir(dir.c_str());
    munmap(slots, sizeof(Slot) * W);
    munmap(mirrors, mirror_cap * 8 * W);
    (void)o;
    std::sort(fails.begin(), fails.end(), [](const Fail& a, const Fail& b) {
        return std::make_tuple(a.hang, a.facet, a.index) < std::make_tuple(b.hang, b.facet, b.index); });
    return fails;
}

/// Translate a libFuzzer input to its choice sequence (the case itself runs in a child).
inline std::vector<Fail> from_bytes(const std::string& path, int tier)
{
    std::ifstream f(path, std::ios::binary);
    std::string data((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    if (data.size() < 2) return {};
    const std::size_t cap = mirror_cap;
    std::uint64_t* m = static_cast<std::uint64_t*>(mmap(nullptr, cap * 8, PROT_READ | PROT_WRITE,
        MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    const std::size_t facet = static_cast<unsigned char>(data[0]) % facets().size();
    std::fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
    {
        alarm(config().hang_s);
        int fd = open("/dev/null", O_WRONLY);
        if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
        Ctx c;
        c.mode = Ctx::Mode::bytes;
        c.bytes = reinterpret_cast<const std::uint8_t*>(data.data()) + 1;
        c.nbytes = data.size() - 1;
        c.mirror = m;
        c.mirror_cap = cap;
        c.tier = tier;
        run_case(facets()[facet], c);
        _exit(0);
    }
    int status;
    waitpid(pid, &status, 0);
    Fail fl{ facet, 0, "found by the coverage-guided fuzzer", false,
        std::vector<std::uint64_t>(m + 1, m + 1 + m[0]) };
    munmap(m, cap * 8);
    return { fl };
}

inline int main_impl(int argc, char** argv)
{
    Options o;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--prop") o.prop = val();
        else if (a == "--tier") o.tier = val();
        else if (a == "--seed") o.seed = std::strtoull(val().c_str(), nullptr, 10);
        else if (a == "--evidence") o.evidence = val();
        else if (a == "--replay-dir") o.replay_dir = val();
        else if (a == "--replay") o.replay = val();
        else if (a == "--scale") o.scale = std::atof(val().c_str());
        else if (a == "--level") o.level = val();
        else if (a == "--only") o.only = val();
        else if (a == "--tag") o.tag = val();
        else if (a == "--stats") o.stats = true;
        else if (a == "--from-bytes") o.from_bytes = val();
        else if (a == "--smoke") return 0;
    }
    const Config& cfg = config();
    const int tier = o.tier == "thorough" ? 1 : 0;
    const std::uint64_t t_start = now_ms();
    setvbuf(stdout, nullptr, _IOLBF, 0);

    if (!o.replay.empty())
    {
        std::ifstream f(o.replay);
        std::string line, facet_name;
        std::vector<std::uint64_t> ch;
        while (std::getline(f, line))
        {
            std::istringstream is(line);
            std::string k;
            is >> k;
            if (k == "facet") is >> facet_name;
            if (k == "choices") { std::uint64_t v; while (is >> v) ch.push_back(v); break; }
        }
        for (std::size_t i = 0; i < facets().size(); ++i)
        {
            if (facets()[i].name != facet_name) continue;
            std::string log;
            Attempt a{ false, false, {} };
            for (int k = 0; k < (cfg.concurrent ? 30 : 1) && !a.failed; ++k)
                a = attempt(i, ch, cfg.hang_s, true, tier, &log);
            std::printf("%s\n%s\n", log.c_str(), a.failed ? a.msg.c_str() : "passed");
            return a.failed ? 1 : 0;
        }
        std::printf("unknown facet %s\n", facet_name.c_str());
        return 2;
    }

    std::vector<std::uint64_t> quota;
    std::uint64_t total = 0;
    for (auto& f : facets())
    {
        double q = static_cast<double>(tier ? f.thorough_cases : f.quick_cases) * o.scale;
        if (!o.only.empty() && f.name != o.only) q = 0;
        std::uint64_t n = static_cast<std::uint64_t>(q);
        if (n == 0 && q > 0) n = 1;
        quota.push_back(n);
        total += n;
    }

    Stats all;
    std::vector<std::pair<std::uint32_t, std::uint64_t>> samples;
    std::uint64_t done = 0;
    std::string violation;
    std::vector<std::string> unconfirmed;
    std::vector<Fail> prev;
    std::uint64_t seed = o.seed;
    for (int round = 0; round < 3 && violation.empty(); ++round)
    {
        if (round > 0 && cfg.concurrent) seed = mix(o.seed, 7000 + static_cast<unsigned>(round));
        std::vector<Fail> fails;
        if (o.from_bytes.empty())
            fails = run_round(o, tier, seed, quota, t_start, all, samples, done);
        else if (round == 0)
            fails = from_bytes(o.from_bytes, tier);
        if (fails.empty()) break;
        for (auto& fl : fails)
        {
            // Confirm: a deterministic case must fail in three fresh processes; for a
            // schedule-dependent one, at least one more failure out of many replays.
            int failed = 0, runs = 0;
            const int want = cfg.concurrent || fl.hang ? 2 : 3;
            const int max_runs = cfg.concurrent ? (fl.hang ? 6 : 60) : want;
            bool hang = false;
            std::string msg = fl.msg;
            for (; runs < max_runs && failed < want; ++runs)
            {
                Attempt a = attempt(fl.facet, fl.choices, cfg.hang_s, false, tier, nullptr);
                if (a.failed) { ++failed; hang = a.hang; msg = a.msg; }
                else if (!cfg.concurrent) break;
            }
            bool confirmed = cfg.concurrent ? failed >= 1 : failed == want;
            bool by_repetition = false;
            if (!confirmed && round > 0)
            {
                if (cfg.concurrent) confirmed = by_repetition = true;
                for (auto& p : prev)
                    if (p.facet == fl.facet && p.index == fl.index) confirmed = by_repetition = true;
            }
            if (!confirmed)
            {
                unconfirmed.push_back(facets()[fl.facet].name + "#" + std::to_string(fl.index)
                    + ": " + fl.msg.substr(0, 200));
                continue;
            }
            auto choices = fl.choices;
            if (!by_repetition)
                choices = shrink(fl.facet, choices, msg, cfg.hang_s, tier, hang, cfg.concurrent);
            std::string log;
            Attempt last = attempt(fl.facet, choices, cfg.hang_s, true, tier, &log);
            for (int k = 0; k < 20 && !last.failed && cfg.concurrent; ++k)
                last = attempt(fl.facet, choices, cfg.hang_s, true, tier, &log);
            if (last.failed) msg = last.msg;
            if (by_repetition)
                msg += "\n(seen twice in a generation run, depends on the process history or "
                       "schedule; rerun with --seed " + std::to_string(seed) + ")";
            ::mkdir(o.replay_dir.c_str(), 0755);
            violation = o.replay_dir + "/" + o.prop + (o.tag.empty() ? "" : "-" + o.tag) + "-"
                + facets()[fl.facet].name + ".txt";
            write_replay(violation, o, fl.facet, choices, msg, log);
            std::printf("FAILED %s facet %s case %llu\n%s\n--- minimal case ---\n%s\n",
                o.prop.c_str(), facets()[fl.facet].name.c_str(),
                static_cast<unsigned long long>(fl.index), msg.c_str(), log.c_str());
            break;
        }
        prev = fails;
    }

    // Samples: re-run a few non-trivial cases verbosely.
    std::vector<std::string> sample_txt;
    {
        std::map<std::uint32_t, int> per_facet;
        for (auto& s : samples)
        {
            if (sample_txt.size() >= 6) break;
            if (per_facet[s.first]++ >= 2) continue;
            // Regenerate the choices by replaying the random source verbosely in a child.
            static char* shm = static_cast<char*>(mmap(nullptr, 1 << 16, PROT_READ | PROT_WRITE,
                MAP_SHARED | MAP_ANONYMOUS, -1, 0));
            shm[0] = 0;
            std::fflush(nullptr);
            pid_t pid = fork();
            if (pid == 0)
            {
                int fd = open("/dev/null", O_WRONLY);
                if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
                alarm(cfg.hang_s);
                Ctx c;
                seed_ctx(c, seed, s.first, s.second);
                c.tier = tier;
                c.verbose = true;
                run_case(facets()[s.first], c);
                std::snprintf(shm, 1 << 16, "%s", c.log.c_str());
                _exit(0);
            }
            int status;
            waitpid(pid, &status, 0);
            std::string t = facets()[s.first].name + ": " + shm;
            if (t.size() > 1500) t = t.substr(0, 1500) + "...";
            sample_txt.push_back(t);
        }
    }

    const double wall = static_cast<double>(now_ms() - t_start) / 1000.0;
    if (!o.evidence.empty())
    {
        std::ofstream f(o.evidence);
        f << "{\n \"property\": " << json(o.prop) << ",\n \"tier\": " << json(o.tier)
          << ",\n \"seed\": " << o.seed << ",\n \"level\": " << json(o.level)
          << ",\n \"coverage\": {\n  \"evaluations\": " << done
          << ",\n  \"distinct_nontrivial\": " << all.hashes.size()
          << ",\n  \"rule\": " << json(cfg.rule)
          << ",\n  \"planned\": " << total
          << ",\n  \"samples\": [";
        for (std::size_t i = 0; i < sample_txt.size(); ++i)
            f << (i ? ",\n   " : "\n   ") << json(sample_txt[i]);
        f << "\n  ],\n  \"classification\": {";
        bool first = true;
        for (auto& l : all.labels)
        {
            f << (first ? "\n   " : ",\n   ") << json(l.first) << ": " << l.second;
            first = false;
        }
        f << "\n  },\n  \"unconfirmed_failures\": [";
        for (std::size_t i = 0; i < unconfirmed.size(); ++i)
            f << (i ? ", " : "") << json(unconfirmed[i]);
        f << "]\n },\n \"assumptions\": [";
        for (std::size_t i = 0; i < cfg.assumptions.size(); ++i)
            f << (i ? ",\n  " : "\n  ") << json(cfg.assumptions[i]);
        f << "\n ],\n \"wall_s\": " << wall << ",\n \"violations\": " << (violation.empty() ? 0 : 1)
          << "\n}\n";
    }
    std::printf("%s %s seed=%llu: %llu cases (of %llu planned), %zu distinct non-trivial, %.1f s%s\n",
        o.prop.c_str(), o.tier.c_str(), static_cast<unsigned long long>(o.seed),
        static_cast<unsigned long long>(done), static_cast<unsigned long long>(total),
        all.hashes.size(), wall, violation.empty() ? "" : ", VIOLATED");
    if (o.stats)
    {
        for (auto& l : all.labels)
            std::printf("   %10llu %s\n", static_cast<unsigned long long>(l.second), l.first.c_str());
        for (auto& u : unconfirmed) std::printf("   unconfirmed: %s\n", u.c_str());
        for (auto& s : sample_txt) std::printf("   sample: %s\n", s.substr(0, 300).c_str());
    }
    if (!violation.empty())
    {
        std::printf("VIOLATION property=%s replay=%s\n", o.prop.c_str(), violation.c_str());
        return 1;
    }
    return 0;
}

#endif // PBT_FUZZ

} // namespace pbt

#ifdef PBT_FUZZ
namespace pbt {
inline int fuzz_one(const std::uint8_t* data, std::size_t n)
{
    if (n < 2) return 0;
    pbt::Ctx c;
    c.mode = pbt::Ctx::Mode::bytes;
    const std::size_t f = data[0] % pbt::facets().size();
    c.bytes = data + 1;
    c.nbytes = n - 1;
    c.tier = 1;
    std::string m = pbt::run_case(pbt::facets()[f], c);
    if (!m.empty())
    {
        std::fprintf(stderr, "PBT failure in %s: %s\n", pbt::facets()[f].name.c_str(), m.c_str());
        std::abort();
    }
    return 0;
}
} // namespace pbt
extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* d, std::size_t n)
{
    return pbt::fuzz_one(d, n);
}
#else
int main(int argc, char** argv) { return pbt::main_impl(argc, argv); }
#endif

// Default sanitizer options, compiled in so that a check does not depend on its environment.
extern "C" __attribute__((used, visibility("default"))) const char* __asan_default_options()
{
    return "detect_leaks=0:abort_on_error=0:exitcode=77:hard_rss_limit_mb=3000:"
           "allocator_may_return_null=0:max_allocation_size_mb=1500:"
           "detect_stack_use_after_return=0:quarantine_size_mb=16:malloc_context_size=4";
}
extern "C" __attribute__((used, visibility("default"))) const char* __ubsan_default_options()
{
    return "print_stacktrace=1:exitcode=77";
}
extern "C" __attribute__((used, visibility("default"))) const char* __tsan_default_options()
{
    return "halt_on_error=1:exitcode=66:report_signal_unsafe=0:history_size=4:"
           "die_after_fork=0:second_deadlock_stack=1";
}
