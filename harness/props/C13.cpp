// C13: results don't depend on what was computed before.
#include <csignal>
#include <sys/wait.h>
#include <unistd.h>
#include "../polymodel.h"
#include "cache.h"

using namespace vf;
using tsym::Var;
using Type = tsym::Var::Type;

namespace {
    Ex generate(Ctx& c, const GenCfg& g, unsigned budget)
    {
        switch (c.weighted({50, 10, 6, 6, 6, 6, 6, 10})) {
            case 0:
                return gen(c, g, static_cast<unsigned>(c.range(2, static_cast<int>(budget))));
            case 1:
                return mk(Op::Add, {mk(Op::Div, {gen(c, g, 4), gen(c, g, 4)}), mk(Op::Div, {gen(c, g, 3), gen(c, g, 3)})});
            case 2:
                return genTrigProduct(c);
            case 3:
                return genTrigSum(c);
            case 4:
                return genPowerTower(c);
            case 5:
                return genSameBases(c);
            case 6:
                return genNumericPowerProduct(c);
            default: {
                /* Many functions in a rational expression. */
                const std::vector<std::string> names{"a", "b", "c", "d"};
                const auto atom = [&] {
                    const Ex s = mkSym({c.pick(names), c.chance(20)});
                    switch (c.draw(6)) {
                        case 0:
                            return mk(Op::Sin, {s});
                        case 1:
                            return mk(Op::Log, {s});
                        case 2:
                            return mk(Op::Sqrt, {mkInt(c.range(2, 5))});
                        case 3:
                            return mk(Op::Atan, {s});
                        case 4:
                            return mk(Op::Pow, {s, mkSym({c.pick(names), false})});
                        default:
                            return s;
                    }
                };
                const auto sum = [&] { return mk(c.chance(50) ? Op::Add : Op::Sub, {atom(), c.chance(30) ? mkInt(1) : atom()}); };
                const Ex common = sum();
                const Ex num = mk(Op::Mul, {sum(), common}), den = mk(Op::Mul, {sum(), c.chance(60) ? common : sum()});
                Ex e = mk(Op::Div, {num, den});
                if (c.chance(50))
                    e = mk(Op::Sub, {e, mk(Op::Div, {sum(), sum()})});
                return e;
            }
        }
    }
    /* Similar expressions could be mixed up. */
    Ex variant(Ctx& c, const Ex& e, unsigned kind)
    {
        switch (e->op) {
            case Op::Sym:
                if (kind == 0)
                    return mkSym({e->sym.name, !e->sym.positive});
                return kind == 1 && c.chance(30) ? mkSym({c.pick(std::vector<std::string>{"a", "b", "c"}), e->sym.positive}) : e;
            case Op::Int:
                return kind == 2 && c.chance(50) ? mkInt(-e->num) : kind == 3 && c.chance(30) ? mkInt(e->num + 1) : e;
            case Op::Frac:
                return kind == 2 && c.chance(50) ? mkFrac(-e->num, e->den) : kind == 3 && e->num != 0 && c.chance(30) ? mkDbl(e->num.convert_to<double>() / e->den.convert_to<double>()) : e;
            default:
                break;
        }
        if (e->args.empty())
            return e;
        std::vector<Ex> a;
        for (const auto& x : e->args)
            a.push_back(variant(c, x, kind));
        if (kind == 4 && c.chance(50))
            std::reverse(a.begin(), a.end());
        if (kind == 4 && e->op == Op::Pow)
            return mk(Op::Pow, {variant(c, e->args[0], kind), e->args[1]});
        return mk(e->op, a);
    }
    bool suitable(const Ex& e)
    {
        return estTerms(e) <= 30 && inNumericRange(e) && doubleRisk(e) <= 7;
    }

    using Results = std::vector<std::pair<std::string, std::string>>;
    /* All operations on one expression, as texts. */
    Results compute(const Ex& e, const Ex& f, unsigned mask, const SymInfo& symbol = {"a", false})
    {
        Results r;
        const auto put = [&](const char* what, const Var& v) { r.emplace_back(what, dump(v) + " = " + str(v)); };
        const Var v = build(e);
        put("build", v);
        const Var a = symVar(symbol);
        if (mask & 1)
            put("expand", tsym::expand(v));
        if (mask & 2)
            put("normal", tsym::normal(v));
        if (mask & 4)
            put("simplify", tsym::simplify(v));
        if (mask & 8)
            put("diff", tsym::diff(v, a));
        if (mask & 16) {
            put("numerator", tsym::numerator(v));
            put("denominator", tsym::denominator(v));
        }
        if (f && mask & 32) {
            const Var w = build(f);
            put("sum", v + w);
            put("product", v * w);
            put("quotient", v / w);
            if (magnitudeRisk(f) < 3)
                put("subst", tsym::subst(v, a, w));
        }
        if (mask & 64) {
            const auto parsed = tsym::parse(str(v));
            r.emplace_back("parse", parsed ? dump(*parsed) : "nothing");
        }
        return r;
    }
    void checkTemporary(Ctx& c, const Results& r)
    {
        for (const auto& [what, text] : r) {
            ++c.checks;
            c.require(text.find("tmp") == std::string::npos, "temporary", [&] { return what + ": " + text; });
        }
    }
    void compareResults(Ctx& c, const char* tag, const Results& a, const Results& b)
    {
        c.require(a.size() == b.size(), tag, [&] { return "different number of results"; });
        for (size_t i = 0; i < a.size(); ++i) {
            ++c.checks;
            c.require(a[i].second == b[i].second, tag, [&] { return a[i].first + ": " + a[i].second + " alone, but " + b[i].second + " after other operations"; });
        }
    }

    void history(Ctx& c)
    {
        std::string profile;
        const GenCfg g = anyCfg(c, &profile);
        c.label("profile:" + profile);
        const Ex e = generate(c, g, 9), f = generate(c, g, 4);
        c.input(show(e) + " and " + show(f));
        if (!suitable(e) || !suitable(f) || estTerms(e) * estTerms(f) > 100)
            c.discard("out of range");
        const unsigned mask = c.draw(128);
        const Results alone = compute(e, f, mask);
        checkTemporary(c, alone);
        compareResults(c, "repetition", alone, compute(e, f, mask));
        if (c.chance(70))
            tsym::clearRegisteredCaches();
        std::vector<Var> alive;
        const unsigned steps = static_cast<unsigned>(c.range(1, 6));
        unsigned done = 0;
        for (unsigned i = 0; i < steps; ++i) {
            const Ex h = c.chance(25) ? variant(c, e, c.draw(5)) : c.chance(10) ? e : c.chance(15) ? variant(c, f, c.draw(5)) : generate(c, g, 7);
            const unsigned m = c.draw(128);
            if (!suitable(h))
                continue;
            c.input("before: " + show(h));
            checkTemporary(c, compute(h, nullptr, m));
            if (c.chance(50))
                alive.push_back(build(h));
            if (c.chance(15) && !alive.empty())
                alive.erase(alive.begin());
            if (c.chance(5))
                tsym::clearRegisteredCaches();
            ++done;
        }
        const Results after = compute(e, f, mask);
        checkTemporary(c, after);
        compareResults(c, "history", alone, after);
        c.nontrivial(done > 0 && (mask & 55) != 0);
    }

    /* Long history, every result is compared with the one of a fresh start. */
    void session(Ctx& c)
    {
        const GenCfg g = anyCfg(c);
        const unsigned n = static_cast<unsigned>(c.range(4, 10));
        std::vector<Ex> list;
        std::vector<unsigned> masks;
        for (unsigned i = 0; i < n; ++i) {
            const Ex e = !list.empty() && c.chance(35) ? variant(c, c.pick(list), c.draw(5)) : generate(c, g, 6);
            const unsigned m = c.draw(128) & ~32u;
            if (!suitable(e) || estTerms(e) > 20)
                continue;
            list.push_back(e);
            masks.push_back(m);
            c.input(show(e));
        }
        std::vector<Results> later;
        for (size_t i = 0; i < list.size(); ++i)
            later.push_back(compute(list[i], nullptr, masks[i]));
        for (size_t i = 0; i < list.size(); ++i) {
            tsym::clearRegisteredCaches();
            const Results fresh = compute(list[i], nullptr, masks[i]);
            checkTemporary(c, fresh);
            compareResults(c, "session", fresh, later[i]);
        }
        c.nontrivial(list.size() > 3);
    }

    std::string keyOf(const SymInfo& s)
    {
        return s.positive ? s.name + "+" : s.name;
    }
    SymInfo infoOf(const std::pair<const std::string, bool>& s)
    {
        return s.second ? SymInfo{s.first.substr(0, s.first.size() - 1), true} : SymInfo{s.first, false};
    }
    struct Task {
        Ex e, f;
        unsigned mask;
        SymInfo symbol;
    };
    enum class End { RESULT, DISCARDED, CRASHED, TIMEOUT };
    /* The results of the last task, computed by a process that hasn't used the library before. */
    End inProcess(const std::vector<Task>& tasks, Results& results)
    {
        int fd[2];
        if (pipe(fd) != 0)
            return End::DISCARDED;
        const pid_t pid = fork();
        if (pid < 0) {
            close(fd[0]);
            close(fd[1]);
            return End::DISCARDED;
        }
        if (pid == 0) {
            close(fd[0]);
            for (const int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGPROF, SIGALRM, SIGTERM})
                std::signal(s, SIG_DFL);
            alarm(20);
            std::string all;
            try {
                Results r;
                for (const auto& t : tasks)
                    r = compute(t.e, t.f, t.mask, t.symbol);
                for (const auto& [what, text] : r)
                    all += what + '\x01' + text + '\x02';
            } catch (...) {
                _exit(3);
            }
            for (size_t n = 0; n < all.size();) {
                const ssize_t k = write(fd[1], all.data() + n, all.size() - n);
                if (k <= 0)
                    _exit(3);
                n += static_cast<size_t>(k);
            }
            _exit(0);
        }
        close(fd[1]);
        std::string all;
        char buf[4096];
        for (ssize_t k; (k = read(fd[0], buf, sizeof buf)) > 0 || (k < 0 && errno == EINTR);)
            if (k > 0)
                all.append(buf, static_cast<size_t>(k));
        close(fd[0]);
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
            ;
        if (WIFSIGNALED(st))
            return WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL ? End::TIMEOUT : End::CRASHED;
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
            return End::DISCARDED;
        results.clear();
        for (size_t p = 0; p < all.size();) {
            const size_t m = all.find('\x01', p), n = all.find('\x02', p);
            results.emplace_back(all.substr(p, m - p), all.substr(m + 1, n - m - 1));
            p = n + 1;
        }
        return End::RESULT;
    }

    /* The same operations on similar operands before, compared with a process that starts with the last one. There is no other
     * use of the library in this suite. */
    void fresh(Ctx& c)
    {
        const GenCfg g = anyCfg(c);
        Task last;
        last.e = c.chance(35) ? genLong(c, 6) : generate(c, g, 8);
        last.f = c.chance(40) ? mkSym({c.pick(std::vector<std::string>{"a", "b", "k", "k_1"}), c.chance(50)}) : generate(c, g, 3);
        last.mask = c.draw(128);
        std::map<std::string, bool> syms;
        symbolsOf(last.e, syms);
        std::vector<SymInfo> choices{{"a", false}};
        for (const auto& s : syms)
            choices.push_back(infoOf(s));
        last.symbol = c.pick(choices);
        c.input(show(last.e) + " and " + show(last.f) + ", " + keyOf(last.symbol));
        if (!suitable(last.e) || !suitable(last.f) || estTerms(last.e) * estTerms(last.f) > 100)
            c.discard("out of range");
        std::vector<Task> tasks;
        for (int i = 0, n = c.range(1, 4); i < n; ++i) {
            Task t = last;
            if (c.chance(40))
                t.e = variant(c, t.e, c.draw(5));
            if (c.chance(50))
                t.f = variant(c, t.f, c.draw(5));
            if (c.chance(40))
                t.symbol = c.chance(50) ? SymInfo{t.symbol.name, !t.symbol.positive} : c.pick(choices);
            if (c.chance(30))
                t.mask = c.draw(128);
            if (!suitable(t.e) || !suitable(t.f) || estTerms(t.e) * estTerms(t.f) > 100)
                continue;
            c.input("before: " + show(t.e) + " and " + show(t.f) + ", " + keyOf(t.symbol));
            tasks.push_back(t);
        }
        tasks.push_back(last);
        Results alone, after;
        const End x = inProcess({last}, alone);
        if (x != End::RESULT)
            c.discard(x == End::TIMEOUT ? "timeout" : "no result");
        const End y = inProcess(tasks, after);
        if (y == End::TIMEOUT || y == End::DISCARDED)
            c.discard(y == End::TIMEOUT ? "timeout" : "no result before");
        c.require(y != End::CRASHED, "crash", [&] { return "crash after other operations"; });
        checkTemporary(c, after);
        compareResults(c, "fresh", alone, after);
        c.nontrivial(tasks.size() > 1);
    }
}

Property vf::makeProperty()
{
    Property p;
    p.id = "C13";
    p.rule = "history: at least one other expression was treated before, and the result isn't only built; session: more than three expressions; fresh: at least one operation before";
    p.beforeCase = resetLibrary;
    p.caseCpuSeconds = 10;
    p.suites.push_back({"history", 18000, 600000, history});
    p.suites.push_back({"session", 3000, 100000, session});
    p.suites.push_back({"fresh", 8000, 300000, fresh});
    return p;
}
